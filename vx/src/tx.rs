//! Body transformation: repository Rust -> the subset Verus accepts.
use crate::index::{FnItem, Repo};
use crate::{FnSpec, Unit};
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt};

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

// ---------------------------------------------------------------- printing

/// Token stream to text, one statement per line.
pub fn pretty(ts: TokenStream) -> String {
    let mut out = String::new();
    let mut ind = 0usize;
    fn nl(out: &mut String, ind: usize) {
        while out.ends_with(' ') {
            out.pop();
        }
        out.push('\n');
        for _ in 0..ind {
            out.push_str("    ");
        }
    }
    fn go(ts: TokenStream, out: &mut String, ind: &mut usize) {
        let mut prev_joint = false;
        let mut prev_dot = false;
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    use proc_macro2::Delimiter::*;
                    match g.delimiter() {
                        Brace => {
                            out.push_str(" {");
                            *ind += 1;
                            nl(out, *ind);
                            go(g.stream(), out, ind);
                            *ind -= 1;
                            nl(out, *ind);
                            out.push_str("} ");
                        }
                        Parenthesis => {
                            out.push('(');
                            go(g.stream(), out, ind);
                            while out.ends_with(' ') { out.pop(); }
                            out.push_str(") ");
                        }
                        Bracket => {
                            if out.ends_with(' ') && !out.ends_with("= ") && !out.ends_with(": ") && !out.ends_with(", ") && !out.ends_with("in ") && !out.ends_with("& ") && !out.ends_with("( ") { out.pop(); }
                            out.push('[');
                            go(g.stream(), out, ind);
                            while out.ends_with(' ') { out.pop(); }
                            out.push_str("] ");
                        }
                        None => go(g.stream(), out, ind),
                    }
                    prev_joint = false;
                    prev_dot = false;
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if (c == ';' || c == ',' || c == '.' || c == '?') && !prev_joint && out.ends_with(' ') && !(c == '.' && prev_dot) {
                        out.pop();
                    }
                    out.push(c);
                    prev_joint = p.spacing() == proc_macro2::Spacing::Joint;
                    if c == ';' {
                        nl(out, *ind);
                    } else if !prev_joint && c != '.' && c != '!' && c != '&' && c != '\'' {
                        out.push(' ');
                    }
                    prev_dot = c == '.';
                }
                TokenTree::Ident(i) => {
                    out.push_str(&i.to_string());
                    out.push(' ');
                    prev_joint = false;
                    prev_dot = false;
                }
                TokenTree::Literal(l) => {
                    out.push_str(&l.to_string());
                    out.push(' ');
                    prev_joint = false;
                    prev_dot = false;
                }
            }
        }
    }
    go(ts, &mut out, &mut ind);
    out
}

// ---------------------------------------------------------------- types

struct TypeMap<'a> {
    map: &'a HashMap<String, String>,
}
impl<'a> VisitMut for TypeMap<'a> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t {
            if p.qself.is_none() {
                let segs = &p.path.segments;
                if segs.len() == 2 && segs[0].ident == "Self" {
                    let n = segs[1].ident.clone();
                    let to = self.map.get(&format!("Self::{n}")).cloned().unwrap_or(n.to_string());
                    *t = syn::parse_str(&to).unwrap();
                    return;
                }
                let last = segs.last().unwrap();
                if last.ident == "Box" {
                    if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                        if let Some(syn::GenericArgument::Type(syn::Type::Slice(s))) = a.args.first() {
                            let e = &s.elem;
                            *t = parse_quote!(Vec<#e>);
                            return;
                        }
                    }
                }
                // drop module qualification of known crates' types
                let mut np = p.clone();
                if segs.len() > 1 {
                    np.path = syn::Path { leading_colon: None, segments: std::iter::once(last.clone()).collect() };
                }
                let seg = np.path.segments.last().unwrap().clone();
                if let Some(to) = self.map.get(&seg.ident.to_string()) {
                    let full = if to.ends_with("<..>") {
                        let args = &seg.arguments;
                        let base = to.trim_end_matches("<..>");
                        format!("{base}{}", args.to_token_stream())
                    } else {
                        to.clone()
                    };
                    *t = syn::parse_str(&full).unwrap();
                    return;
                }
                *t = syn::Type::Path(np);
            }
        }
    }
    fn visit_expr_path_mut(&mut self, e: &mut syn::ExprPath) {
        visit_mut::visit_expr_path_mut(self, e);
        if e.path.segments.len() >= 2 {
            let s = e.path.segments[0].ident.to_string();
            if let Some(to) = self.map.get(&s) {
                let base = to.split('<').next().unwrap();
                e.path.segments[0] = syn::PathSegment::from(id(base));
            }
        }
    }
    // T::from(1.0) of a mapped numeric type: an integral literal is the integer
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        if let Expr::Path(p) = &*c.func {
            let segs = &p.path.segments;
            if segs.len() == 2 && segs[1].ident == "from" && self.map.contains_key(&segs[0].ident.to_string()) && c.args.len() == 1 {
                if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Float(f), .. }) = &c.args[0] {
                    if let Ok(v) = f.base10_parse::<f64>() {
                        if v.fract() == 0.0 && v.abs() < 1e9 {
                            let n = proc_macro2::Literal::i64_unsuffixed(v as i64);
                            c.args[0] = parse_quote!(#n);
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_generic_argument_mut(&mut self, g: &mut syn::GenericArgument) {
        visit_mut::visit_generic_argument_mut(self, g);
    }
}

pub fn emit_item(item: &syn::Item, unit: &Unit, attrs: &[&str]) -> Result<String, String> {
    let mut item = item.clone();
    let public: syn::Visibility = parse_quote!(pub);
    let strip = |g: &mut syn::Generics| {
        g.params = g.params.iter().filter(|p| match p {
            syn::GenericParam::Type(t) => !unit.typemap.contains_key(&t.ident.to_string()),
            _ => true,
        }).cloned().collect();
        if g.params.is_empty() {
            g.where_clause = None;
            g.lt_token = None;
            g.gt_token = None;
        }
    };
    match &mut item {
        syn::Item::Struct(s) => {
            s.attrs.clear();
            s.vis = public.clone();
            strip(&mut s.generics);
            if unit.world.on() {
                if let syn::Fields::Named(n) = &mut s.fields { n.named = n.named.iter().filter(|f| unit.world.cell(&f.ty).is_none()).cloned().collect(); }
            }
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = public.clone();
            }
        }
        syn::Item::Enum(s) => {
            s.attrs.clear();
            s.vis = public.clone();
            strip(&mut s.generics);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        syn::Item::Const(s) => {
            s.attrs.clear();
            s.vis = public.clone();
        }
        syn::Item::Type(s) => {
            s.attrs.clear();
            s.vis = public.clone();
        }
        _ => return Err("unsupported item kind".into()),
    }
    let mut tm = TypeMap { map: &unit.typemap };
    tm.visit_item_mut(&mut item);
    let mut s = String::new();
    for a in attrs {
        s.push_str(a);
        s.push('\n');
    }
    s.push_str(&pretty(item.to_token_stream()));
    Ok(s)
}

// ---------------------------------------------------------------- helpers

/// Replace an identifier by tokens everywhere (not after `.` or inside paths).
pub fn subst(ts: TokenStream, from: &str, to: &TokenStream) -> TokenStream {
    let mut out = Vec::new();
    let mut prev_dot = false;
    for t in ts {
        match t {
            TokenTree::Ident(ref i) if i == from && !prev_dot => {
                out.push(TokenTree::Group(proc_macro2::Group::new(proc_macro2::Delimiter::Parenthesis, to.clone())));
                prev_dot = false;
            }
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), from, to));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
                prev_dot = false;
            }
            TokenTree::Punct(p) => {
                prev_dot = p.as_char() == '.';
                out.push(TokenTree::Punct(p));
            }
            t => {
                prev_dot = false;
                out.push(t)
            }
        }
    }
    out.into_iter().collect()
}

fn rename_ident(ts: TokenStream, from: &str, to: &str) -> TokenStream {
    ts.into_iter().map(|t| match t {
        TokenTree::Ident(i) if i == from => TokenTree::Ident(Ident::new(to, i.span())),
        TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename_ident(g.stream(), from, to))),
        t => t,
    }).collect()
}

struct Has { ret: bool, brk: bool, loops: bool }
impl<'a> syn::visit::Visit<'a> for Has {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.ret = true }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.ret = true }
    fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) { self.brk = true }
    fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) { self.brk = true }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) { self.loops = true; syn::visit::visit_expr_while(self, w) }
    fn visit_expr_for_loop(&mut self, w: &'a syn::ExprForLoop) { self.loops = true; syn::visit::visit_expr_for_loop(self, w) }
    fn visit_expr_loop(&mut self, w: &'a syn::ExprLoop) { self.loops = true; syn::visit::visit_expr_loop(self, w) }
}
fn has(b: &Block) -> Has {
    let mut h = Has { ret: false, brk: false, loops: false };
    syn::visit::Visit::visit_block(&mut h, b);
    h
}

/// Names of `x` in patterns `..NonTerminal(x)..`.
struct NtNames(HashSet<String>);
impl<'a> syn::visit::Visit<'a> for NtNames {
    fn visit_pat_tuple_struct(&mut self, p: &'a syn::PatTupleStruct) {
        if p.path.segments.last().map(|s| s.ident == "NonTerminal").unwrap_or(false) {
            for e in &p.elems {
                if let Pat::Ident(i) = e {
                    self.0.insert(i.ident.to_string());
                }
            }
        }
        syn::visit::visit_pat_tuple_struct(self, p)
    }
}

/// expressions a closure body may consist of and still be read as a specification
fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Cast(c) => pure(&c.expr),
        Expr::Binary(b) => pure(&b.left) && pure(&b.right),
        Expr::Paren(p) => pure(&p.expr),
        Expr::Unary(u) => pure(&u.expr),
        Expr::Field(f) => pure(&f.base),
        Expr::Tuple(t) => t.elems.iter().all(pure),
        Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(e, None) if pure(e)),
        _ => false,
    }
}

#[derive(Clone)]
enum It {
    /// exec place/value expression, is it a reference to it, spec text with vx_j
    One { exec: Expr, is_ref: bool, spec: Option<TokenStream> },
    Pair(Box<It>, Box<It>),
}

enum Stage {
    Deref,
    Enumerate,
    EnumerateRev,
    Zip(Expr, bool),
    Map(syn::ExprClosure),
    Filter(syn::ExprClosure),
    Rev,
}

enum Base {
    Slice(Expr),
    SliceMut(Expr),
    Range(Expr, Expr),
}

/// `x[a..b]` (any of the bounds may be missing) as (x, a, b)
fn range_of(e: &Expr) -> Option<(Expr, Option<Expr>, Option<Expr>)> {
    match e {
        Expr::Reference(r) => range_of(&r.expr),
        Expr::Paren(r) => range_of(&r.expr),
        Expr::Index(i) => match &*i.index {
            Expr::Range(r) if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) => Some(((*i.expr).clone(), r.start.as_deref().cloned(), r.end.as_deref().cloned())),
            _ => None,
        },
        _ => None,
    }
}

struct Pipe {
    base: Base,
    stages: Vec<Stage>,
}

struct Tx<'a> {
    repo: &'a mut Repo,
    f: &'a FnItem,
    fs: &'a FnSpec,
    unit: &'a Unit,
    nloop: usize,
    loop_refs: Vec<String>,
    nclosure: usize,
    fresh: usize,
    ph: Vec<String>,
    err: Option<String>,
    closures: HashMap<String, syn::ExprClosure>,
    nts: HashSet<String>,
    depth: usize,
    in_inline: usize,
    early_prefix: Option<usize>,
    shift: bool,
}

impl<'a> Tx<'a> {
    fn fail(&mut self, m: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(m.into());
        }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        id(&format!("vx_{p}{}", self.fresh))
    }
    fn place(&mut self, text: &str) -> Stmt {
        self.ph.push(text.to_string());
        let n = proc_macro2::Literal::usize_unsuffixed(self.ph.len() - 1);
        parse_quote!(__vx_ph!(#n);)
    }
    fn place_inv(&mut self, text: &str) -> Stmt {
        self.ph.push(text.to_string());
        let n = proc_macro2::Literal::usize_unsuffixed(self.ph.len() - 1);
        parse_quote!(__vx_inv!(#n);)
    }

    // ---- patterns -------------------------------------------------------
    /// Removes reference patterns; returns (renamed, original) identifiers.
    fn fix_pat(&mut self, p: &mut Pat, in_ref: bool, binds: &mut Vec<(Ident, Ident)>) {
        match p {
            Pat::Reference(r) => {
                let mut inner = (*r.pat).clone();
                self.fix_pat(&mut inner, true, binds);
                *p = inner;
            }
            Pat::Ident(i) if in_ref && i.by_ref.is_none() && i.subpat.is_none() => {
                // a constant / unit variant cannot be told from a binding here;
                // upper-case single identifiers are constants
                if i.ident.to_string().chars().next().unwrap().is_uppercase() {
                    return;
                }
                let old = i.ident.clone();
                let new = self.fresh(&format!("{old}_r"));
                i.ident = new.clone();
                i.mutability = None;
                binds.push((new, old));
            }
            Pat::Ident(i) => {
                if let Some((_, s)) = &mut i.subpat {
                    self.fix_pat(s, in_ref, binds)
                }
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|e| self.fix_pat(e, in_ref, binds)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|e| self.fix_pat(e, in_ref, binds)),
            Pat::Or(o) => o.cases.iter_mut().for_each(|e| self.fix_pat(e, in_ref, binds)),
            Pat::Paren(q) => self.fix_pat(&mut q.pat, in_ref, binds),
            Pat::Type(t) => self.fix_pat(&mut t.pat, in_ref, binds),
            Pat::Struct(s) => s.fields.iter_mut().for_each(|f| self.fix_pat(&mut f.pat, in_ref, binds)),
            _ => {}
        }
    }
    fn deref_binds(binds: &[(Ident, Ident)]) -> Vec<Stmt> {
        binds.iter().map(|(n, o)| parse_quote!(let #o = *#n;)).collect()
    }

    /// `match s { A(_) | B if guard => body, rest.. }` (no bindings): `if (match s { A(_) | B => true, _ => false }) && guard body else match s { rest.. }`
    fn split_guarded(&mut self, e: &mut Expr) {
        let Expr::Match(m) = e else { return };
        if m.arms.len() < 2 { return; }
        let a = &m.arms[0];
        let (Pat::Or(_), Some((_, g))) = (&a.pat, &a.guard) else { return };
        struct B(bool);
        impl<'a> syn::visit::Visit<'a> for B { fn visit_pat_ident(&mut self, _: &'a syn::PatIdent) { self.0 = true; } }
        let mut b = B(false);
        syn::visit::Visit::visit_pat(&mut b, &a.pat);
        if b.0 { return; }
        { let t = a.body.to_token_stream().to_string(); if !["for ", "while ", "loop "].iter().any(|k| t.contains(k)) { return; } }
        let s = id("vx_subj");
        let (pat, body, subj) = (&a.pat, &a.body, &m.expr);
        let rest = &m.arms[1..];
        *e = parse_quote!({ let #s = #subj; if (match #s { #pat => true, _ => false }) && (#g) { #body } else { match #s { #(#rest)* } } });
    }
    // ---- iterator pipelines --------------------------------------------
    fn parse_pipe(&mut self, e: &Expr) -> Option<Pipe> {
        match e {
            Expr::Paren(p) => self.parse_pipe(&p.expr),
            Expr::Range(r) if matches!(r.limits, syn::RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some() => Some(Pipe {
                base: Base::Range(*r.start.clone().unwrap(), *r.end.clone().unwrap()),
                stages: vec![],
            }),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("iter", 0) | ("into_iter", 0) => {
                        if let Expr::Range(_) | Expr::Paren(_) = &*m.receiver {
                            return self.parse_pipe(&m.receiver);
                        }
                        if let Expr::Path(p) = &*m.receiver {
                            if let Some(i) = p.path.get_ident() {
                                if self.nts.contains(&i.to_string()) {
                                    // x.iter() of a non-terminal node: inline the accessor's body
                                    let all = self.repo.all_fns(&nt_crate(&self.f.krate));
                                    let c: Vec<&FnItem> = all.iter().filter(|f| f.sig.ident == "iter" && f.ty.as_deref().map(|t| t.starts_with("NonTerminal")).unwrap_or(false)).collect();
                                    if c.len() == 1 && c[0].block.stmts.len() == 1 {
                                        if let Stmt::Expr(body, None) = &c[0].block.stmts[0] {
                                            let ts = rename_ident(body.to_token_stream(), "self", &i.to_string());
                                            if let Ok(e2) = syn::parse2::<Expr>(ts) {
                                                self.nts.remove(&i.to_string());
                                                let r = self.parse_pipe(&e2);
                                                self.nts.insert(i.to_string());
                                                return r;
                                            }
                                        }
                                    }
                                    return None;
                                }
                            }
                        }
                        Some(Pipe { base: Base::Slice((*m.receiver).clone()), stages: if n == "into_iter" { vec![Stage::Deref] } else { vec![] } })
                    }
                    ("copied", 0) | ("cloned", 0) => { let mut p = self.parse_pipe(&m.receiver)?; p.stages.push(Stage::Deref); Some(p) }
                    ("enumerate", 0) => { let mut p = self.parse_pipe(&m.receiver)?; p.stages.push(Stage::Enumerate); Some(p) }
                    ("rev", 0) => {
                        // reversal of what has one item per element: the base is walked backwards, indices with it
                        let mut p = self.parse_pipe(&m.receiver)?;
                        if !p.stages.iter().all(|s| matches!(s, Stage::Deref | Stage::Enumerate)) { return None; }
                        for s in p.stages.iter_mut() { if matches!(s, Stage::Enumerate) { *s = Stage::EnumerateRev; } }
                        p.stages.insert(0, Stage::Rev);
                        Some(p)
                    }
                    ("zip", 1) => {
                        let mut p = self.parse_pipe(&m.receiver)?;
                        let q = match &m.args[0] {
                            Expr::Reference(r) => Pipe { base: Base::Slice((*r.expr).clone()), stages: vec![] },
                            Expr::Path(_) => Pipe { base: Base::Slice(m.args[0].clone()), stages: vec![] },
                            a => self.parse_pipe(a)?,
                        };
                        let by_val = match q.stages.as_slice() { [] => false, [Stage::Deref] => true, _ => return None };
                        if let Base::Slice(s) = q.base { if range_of(&s).is_some() { return None; } p.stages.push(Stage::Zip(s, by_val)); Some(p) } else { None }
                    }
                    ("map", 1) | ("filter", 1) => {
                        let mut p = self.parse_pipe(&m.receiver)?;
                        if let Expr::Closure(c) = &m.args[0] {
                            p.stages.push(if n == "map" { Stage::Map(c.clone()) } else { Stage::Filter(c.clone()) });
                            Some(p)
                        } else { None }
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Bind pattern `p` to item `it`; collects statements and spec substitutions.
    fn bind(&mut self, p: &Pat, it: &It, stmts: &mut Vec<Stmt>, sp: &mut Vec<(String, TokenStream)>) -> bool {
        match (p, it) {
            (Pat::Wild(_), _) => true,
            (Pat::Type(t), _) => self.bind(&t.pat, it, stmts, sp),
            (Pat::Paren(t), _) => self.bind(&t.pat, it, stmts, sp),
            (Pat::Ident(i), It::One { exec, is_ref, spec }) => {
                let n = &i.ident;
                let m = &i.mutability;
                if *is_ref {
                    stmts.push(parse_quote!(let #m #n = &#exec;));
                } else {
                    stmts.push(parse_quote!(let #m #n = #exec;));
                }
                if let Some(s) = spec {
                    sp.push((n.to_string(), if *is_ref { quote!(&#s) } else { s.clone() }));
                }
                true
            }
            (Pat::Reference(r), It::One { exec, is_ref: true, spec }) => {
                self.bind(&r.pat, &It::One { exec: exec.clone(), is_ref: false, spec: spec.clone() }, stmts, sp)
            }
            (Pat::Tuple(t), It::Pair(a, b)) if t.elems.len() == 2 => {
                self.bind(&t.elems[0], a, stmts, sp) && self.bind(&t.elems[1], b, stmts, sp)
            }
            // the parts of a tuple behind a reference
            (Pat::Tuple(t), It::One { exec, is_ref: true, spec }) => t.elems.iter().enumerate().all(|(k, q)| {
                let k = syn::Index::from(k);
                self.bind(q, &It::One { exec: parse_quote!(#exec.#k), is_ref: true, spec: spec.as_ref().map(|s| quote!((#s).#k)) }, stmts, sp)
            }),
            _ => false,
        }
    }

    /// Builds the loop for a pipeline. `sink` receives the final item and gives the innermost statements.
    /// Returns (statements before the loop, the while expression).
    #[allow(clippy::too_many_arguments)]
    fn build_loop(
        &mut self,
        n: usize,
        pipe: Pipe,
        extra_cond: Option<Expr>,
        early_incr: bool,
        sink: &mut dyn FnMut(&mut Self, It, &mut Vec<(String, TokenStream)>) -> Option<(Vec<Stmt>, String)>,
    ) -> Option<Vec<Stmt>> {
        let iv = id(&format!("vx_i{n}"));
        let nv = id(&format!("vx_n{n}"));
        let mut pre: Vec<Stmt> = vec![];
        let mut filtered = false;
        let mut lens: Vec<TokenStream> = vec![];
        let mut named = |tx: &mut Self, e: &Expr, pre: &mut Vec<Stmt>, tag: &str| -> Expr {
            let mut e = e.clone();
            while let Expr::Reference(r) = &e { e = (*r.expr).clone(); }
            while let Expr::Paren(r) = &e { e = (*r.expr).clone(); }
            let simple = matches!(&e, Expr::Path(_)) || matches!(&e, Expr::Field(f) if matches!(&*f.base, Expr::Path(_) | Expr::Field(_)));
            if simple { e } else {
                let b = id(&format!("vx_b{n}{tag}"));
                tx.visit_expr_mut(&mut e);
                pre.push(parse_quote!(let #b = #e;));
                parse_quote!(#b)
            }
        };
        let mut base_text = String::new(); // `$b` in the sidecar: what is iterated over
        let mut rev = false;
        let mut stages = pipe.stages.into_iter().peekable();
        if let Some(Stage::Rev) = stages.peek() { rev = true; stages.next(); }
        let mut item = match pipe.base {
            Base::Slice(e) if range_of(&e).is_some() => {
                // x[lo..hi]
                let (e, a, b) = range_of(&e).unwrap();
                let e = named(self, &e, &mut pre, "a");
                let lo = id(&format!("vx_lo{n}"));
                let mut a: Expr = a.unwrap_or(parse_quote!(0));
                self.visit_expr_mut(&mut a);
                pre.push(parse_quote!(let #lo: usize = #a;));
                match b {
                    Some(mut b) => { self.visit_expr_mut(&mut b); let hi = id(&format!("vx_hi{n}")); pre.push(parse_quote!(let #hi: usize = #b;)); pre.push(parse_quote!(if #hi > #e.len() { vx_unreachable() })); pre.push(parse_quote!(let #nv: usize = #hi - #lo;)); lens.push(quote!((#hi - #lo))); }
                    None => { pre.push(parse_quote!(let #nv: usize = #e.len() - #lo;)); lens.push(quote!((#e@.len() - #lo))); }
                }
                
                if rev {
                    It::One { exec: parse_quote!(#e[#lo + (#nv - 1 - #iv)]), is_ref: true, spec: Some(quote!(#e@[#lo + (#nv - 1 - vx_j)])) }
                } else {
                    It::One { exec: parse_quote!(#e[#lo + #iv]), is_ref: true, spec: Some(if std::mem::take(&mut self.shift) { quote!(#e@[vx_j]) } else { quote!(#e@[#lo + vx_j]) }) }
                }
            }
            Base::Slice(e) => {
                let e = named(self, &e, &mut pre, "a");
                base_text = e.to_token_stream().to_string();
                pre.push(parse_quote!(let #nv: usize = #e.len();));
                lens.push(quote!(#e@.len()));
                if rev {
                    It::One { exec: parse_quote!(#e[#nv - 1 - #iv]), is_ref: true, spec: Some(quote!(#e@[#nv - 1 - vx_j])) }
                } else {
                    It::One { exec: parse_quote!(#e[#iv]), is_ref: true, spec: Some(quote!(#e@[vx_j])) }
                }
            }
            Base::SliceMut(e) => {
                if rev { return None; }
                let e = named(self, &e, &mut pre, "a");
                pre.push(parse_quote!(let #nv: usize = #e.len();));
                It::One { exec: parse_quote!(&mut #e[#iv]), is_ref: false, spec: None }
            }
            Base::Range(mut a, mut b) => {
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                let lo = id(&format!("vx_lo{n}"));
                pre.push(parse_quote!(let #lo: usize = #a;));
                pre.push(parse_quote!(let #nv: usize = if #b >= #lo { #b - #lo } else { 0 };));
                if rev {
                    It::One { exec: parse_quote!(#lo + (#nv - 1 - #iv)), is_ref: false, spec: Some(quote!(#lo + (#nv - 1 - vx_j))) }
                } else {
                    It::One { exec: parse_quote!(#lo + #iv), is_ref: false, spec: Some(quote!(#lo + vx_j)) }
                }
            }
        };
        // stage statements are produced inside-out: keep a list of (stmts, optional filter cond)
        let mut body: Vec<(Vec<Stmt>, Option<Expr>)> = vec![(vec![], None)];
        let mut sp: Vec<(String, TokenStream)> = vec![];
        for st in stages {
            match st {
                Stage::Deref => {
                    fn d(i: &It) -> It {
                        match i { It::One { exec, spec, .. } => It::One { exec: exec.clone(), is_ref: false, spec: spec.clone() }, p => p.clone() }
                    }
                    item = d(&item);
                }
                Stage::Enumerate => {
                    item = It::Pair(Box::new(It::One { exec: parse_quote!(#iv), is_ref: false, spec: Some(quote!(vx_j)) }), Box::new(item));
                }
                Stage::EnumerateRev => {
                    item = It::Pair(Box::new(It::One { exec: parse_quote!(#nv - 1 - #iv), is_ref: false, spec: Some(quote!(#nv - 1 - vx_j)) }), Box::new(item));
                }
                Stage::Zip(e, by_val) => {
                    let e = named(self, &e, &mut pre, "z");
                    lens.push(quote!(#e@.len()));
                    pre.push(parse_quote!(let #nv: usize = if #e.len() < #nv { #e.len() } else { #nv };));
                    item = It::Pair(Box::new(item), Box::new(It::One { exec: parse_quote!(#e[#iv]), is_ref: !by_val, spec: Some(quote!(#e@[vx_j])) }));
                }
                Stage::Map(c) => {
                    if c.inputs.len() != 1 { return None; }
                    let mut stmts = vec![];
                    let mut sp2 = vec![];
                    if !self.bind(&c.inputs[0], &item, &mut stmts, &mut sp2) { return None; }
                    let mut b = (*c.body).clone();
                    let spec = if pure(&b) {
                        let mut ts = b.to_token_stream();
                        for (x, s) in &sp2 { ts = subst(ts, x, s); }
                        Some(ts)
                    } else { None };
                    // call arguments, for the sidecar's $a0, $a1, ...
                    sp.extend(sp2.clone());
                    let args: Option<Vec<TokenStream>> = {
                        let mut e = &b;
                        while let Expr::Block(bl) = e {
                            match bl.block.stmts.last() { Some(Stmt::Expr(x, None)) => e = x, _ => break }
                        }
                        match e {
                            Expr::MethodCall(m) => Some(m.args.iter().map(|a| a.to_token_stream()).collect()),
                            Expr::Call(m) => Some(m.args.iter().map(|a| a.to_token_stream()).collect()),
                            _ => None,
                        }
                    };
                    if let Some(a) = args {
                        for (k, mut ts) in a.into_iter().enumerate() {
                            for (x, s) in &sp2 { ts = subst(ts, x, s); }
                            sp.push((format!("$a{k}"), ts));
                        }
                    }
                    self.visit_expr_mut(&mut b);
                    let v = self.fresh("m");
                    stmts.push(parse_quote!(let #v = { #b };));
                    body.last_mut().unwrap().0.extend(stmts);
                    item = It::One { exec: parse_quote!(#v), is_ref: false, spec };
                }
                Stage::Filter(c) => {
                    filtered = true;
                    if c.inputs.len() != 1 { return None; }
                    let as_ref = match &item { It::One { exec, is_ref: false, spec } => It::One { exec: exec.clone(), is_ref: true, spec: spec.clone() }, _ => return None };
                    let mut stmts = vec![];
                    let mut sp2 = vec![];
                    if !self.bind(&c.inputs[0], &as_ref, &mut stmts, &mut sp2) { return None; }
                    sp.extend(sp2);
                    let mut b = (*c.body).clone();
                    self.visit_expr_mut(&mut b);
                    let l = body.last_mut().unwrap();
                    l.0.extend(stmts);
                    l.1 = Some(b);
                    body.push((vec![], None));
                }
                Stage::Rev => return None,
            }
        }
        let (inner, auto_inv) = sink(self, item, &mut sp)?;
        body.last_mut().unwrap().0.extend(inner);
        // fold
        let mut stmts: Vec<Stmt> = vec![];
        for (mut s, cond) in body.into_iter().rev() {
            if let Some(c) = cond {
                s.push(parse_quote!(if #c { #(#stmts)* }));
            } else {
                s.extend(stmts);
            }
            stmts = s;
        }
        let mut inv = String::new();
        inv.push_str(&format!("    invariant {iv} <= {nv},\n"));
        if lens.len() == 1 { inv.push_str(&format!("        {nv} == {},\n", lens[0])); }
        if lens.len() == 2 { inv.push_str(&format!("        {nv} == (if {} < {} {{ {} }} else {{ {} }}),\n", lens[1], lens[0], lens[1], lens[0])); }
        if !filtered && auto_inv.contains("vx_v") { inv.push_str(&format!("        vx_v{n}.len() == {iv},\n")); }
        if !(filtered && auto_inv.contains("vx_v")) { inv.push_str(&auto_inv); }
        let has_args = sp.iter().any(|(k, _)| k.starts_with("$a"));
        let mut user = self.fs.loops.get(&n).cloned().unwrap_or_default();
        let mut is_map = false;
        if user.is_empty() && has_args && !self.fs.mapinv.is_empty() { user = self.fs.mapinv.clone(); is_map = true; }
        let expand = |t: &str| -> String {
            let mut t = t.replace("$b", &base_text).replace("$i", &iv.to_string()).replace("$n", &nv.to_string()).replace("$v", &format!("vx_v{n}")).replace("$pre", &format!("vx_pre{n}"));
            for (k, v) in sp.iter().rev() {
                if k.starts_with('$') { t = t.replace(k.as_str(), &format!("({v})")); }
            }
            t
        };
        let user = expand(&user);
        // a user-supplied decreases stays last
        let dec = if user.contains("decreases") { String::new() } else { format!("    decreases {nv} - {iv}\n") };
        inv.push_str(&user);
        inv.push_str(&dec);
        let invp = self.place_inv(&inv);
        let mut lb: Vec<Stmt> = vec![invp];
        if let Some(t) = self.fs.loop_begin.get(&n).cloned() { let t = expand(&t); lb.push(self.place(&t)); }
        let cond: Expr = match extra_cond { Some(c) => parse_quote!(#iv < #nv && #c), None => parse_quote!(#iv < #nv) };
        if early_incr {
            // item bindings (which read the index) come first, then the increment, then the body
            let nb = stmts.iter().take_while(|s| matches!(s, Stmt::Local(_))).count();
            let k = self.early_prefix.take().unwrap_or(nb);
            let rest = stmts.split_off(k);
            lb.extend(stmts);
            lb.push(parse_quote!(#iv = #iv + 1;));
            lb.extend(rest);
        } else {
            lb.extend(stmts);
            lb.push(parse_quote!(#iv = #iv + 1;));
        }
        if let Some(t) = self.fs.loop_end.get(&n).cloned().or(if is_map && !self.fs.mapend.is_empty() { Some(self.fs.mapend.clone()) } else { None }) {
            let t = expand(&t);
            lb.push(self.place(&t));
        }
        pre.push(parse_quote!(let mut #iv: usize = 0;));
        let fs = self.fs;
        let texts = [&fs.mapinv, &fs.mapend, &fs.exit].into_iter().chain(fs.loops.values()).chain(fs.loop_begin.values()).chain(fs.loop_end.values()).chain(fs.loop_before.values()).chain(fs.loop_after.values()).chain(fs.after_call.values());
        if texts.into_iter().any(|t| t.contains("vx_pre") || t.contains("$pre")) {
            let g = format!("let ghost vx_pre{n} = {};", if self.self_expr().is_empty() { "0int".to_string() } else { self.self_expr() });
            pre.push(self.place(&g));
        }
        if let Some(t) = self.fs.loop_before.get(&n).cloned() { let t = expand(&t); pre.push(self.place(&t)); }
        pre.push(parse_quote!(while #cond { #(#lb)* }));
        if let Some(t) = self.fs.loop_after.get(&n).cloned() { let t = expand(&t); pre.push(self.place(&t)); }
        Some(pre)
    }

    /// spec expression for the mutable state the function works on
    fn self_expr(&self) -> String {
        if self.f.has_self {
            return "*self".into();
        }
        for a in &self.f.sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                if let (Pat::Ident(i), syn::Type::Reference(r)) = (&*t.pat, &*t.ty) {
                    if let Some(n) = crate::index::type_name(&r.elem) {
                        if n.ends_with("Manager") {
                            return format!("*{}", i.ident);
                        }
                    }
                }
            }
        }
        String::new()
    }

    fn tx_terminal(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        match name.as_str() {
            "collect" | "count" | "all" | "any" | "extend" | "last" | "sum" => {}
            _ => return None,
        }
        if name == "extend" {
            let arg = m.args.first()?;
            let pipe = match arg {
                Expr::Reference(r) => Pipe { base: Base::Slice((*r.expr).clone()), stages: vec![Stage::Deref] },
                Expr::Path(_) => Pipe { base: Base::Slice(arg.clone()), stages: vec![Stage::Deref] },
                _ => self.parse_pipe(arg)?,
            };
            let n = self.nloop;
            self.nloop += 1;
            let recv = (*m.receiver).clone();
            let st = self.build_loop(n, pipe, None, false, &mut |_, it, _| {
                if let It::One { exec, is_ref, .. } = it {
                    let x: Expr = if is_ref { parse_quote!(&#exec) } else { exec };
                    Some((vec![parse_quote!(#recv.push(#x);)], String::new()))
                } else { None }
            })?;
            return Some(parse_quote!({ #(#st)* }));
        }
        let pipe = self.parse_pipe(&m.receiver)?;
        if name == "count" {
            if pipe.stages.iter().all(|s| matches!(s, Stage::Map(_) | Stage::Deref | Stage::Enumerate)) {
                if let Base::Slice(b) = pipe.base {
                    return Some(parse_quote!(#b.len()));
                }
            }
            return None;
        }
        let n = self.nloop;
        self.nloop += 1;
        match name.as_str() {
            "sum" if m.args.is_empty() => {
                let v = id(&format!("vx_s{n}"));
                let st = self.build_loop(n, pipe, None, false, &mut |_, it, _| {
                    if let It::One { exec, is_ref: false, .. } = it { Some((vec![parse_quote!(#v = #v + #exec;)], String::new())) } else { None }
                })?;
                Some(parse_quote!({ let mut #v = 0; #(#st)* #v }))
            }
            // pairs collected into a table
            "collect" if m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).map_or(false, |t| t.contains("HashMap") && !t.contains("BddHashMap")) => {
                let v = id(&format!("vx_v{n}"));
                let st = self.build_loop(n, pipe, None, false, &mut |_, it, _| {
                    if let It::One { exec, is_ref: false, .. } = it {
                        Some((vec![parse_quote!(let (vx_k, vx_w) = #exec;), parse_quote!(#v.insert(vx_k, vx_w);)], String::new()))
                    } else { None }
                })?;
                Some(parse_quote!({ let mut #v = HashMap::new(); #(#st)* #v }))
            }
            "collect" => {
                let v = id(&format!("vx_v{n}"));
                let st = self.build_loop(n, pipe, None, false, &mut |_, it, _| {
                    if let It::One { exec, is_ref, spec } = it {
                        let auto = match spec {
                            Some(s) if !is_ref => format!("        forall|vx_j: int| 0 <= vx_j < vx_i{n} ==> #[trigger] vx_v{n}@[vx_j] == ({s}),\n"),
                            _ => format!("        /* vx_v{n} */ true,\n"),
                        };
                        if is_ref { return None; }
                        Some((vec![parse_quote!(#v.push(#exec);)], auto))
                    } else { None }
                })?;
                Some(parse_quote!({ let mut #v = Vec::new(); #(#st)* #v }))
            }
            "last" => {
                let v = id(&format!("vx_l{n}"));
                let st = self.build_loop(n, pipe, None, false, &mut |_, it, _| {
                    if let It::One { exec, is_ref, spec } = it {
                        let auto = match spec {
                            Some(s) if !is_ref => format!("        vx_i{n} == 0 ==> vx_l{n} is None,\n        vx_i{n} > 0 ==> ({{ let vx_j = vx_i{n} - 1; vx_l{n} == Some({s}) }}),\n"),
                            _ => String::new(),
                        };
                        if is_ref { return None; }
                        Some((vec![parse_quote!(#v = Some(#exec);)], auto))
                    } else { None }
                })?;
                Some(parse_quote!({ let mut #v = None; #(#st)* #v }))
            }
            "all" | "any" => {
                let all = name == "all";
                let Some(Expr::Closure(c)) = m.args.first() else { return None };
                if c.inputs.len() != 1 { return None; }
                let c = c.clone();
                let bv = id(&format!("vx_q{n}"));
                let cond: Expr = if all { parse_quote!(#bv) } else { parse_quote!(!#bv) };
                // over x[lo..hi] the quantified variable ranges over the indices of x itself
                self.shift = matches!(&pipe.base, Base::Slice(e) if range_of(e).is_some()) && pipe.stages.iter().all(|s| matches!(s, Stage::Deref | Stage::Map(_)));
                let lo = if self.shift { format!("vx_lo{n}") } else { "0".into() };
                let hi = if self.shift { format!("vx_lo{n} + vx_i{n}") } else { format!("vx_i{n}") };
                let st = self.build_loop(n, pipe, Some(cond), false, &mut |tx, it, _| {
                    let mut stmts = vec![];
                    let mut sp2 = vec![];
                    if !tx.bind(&c.inputs[0], &it, &mut stmts, &mut sp2) { return None; }
                    let mut b = (*c.body).clone();
                    let auto = if pure(&b) {
                        let mut ts = b.to_token_stream();
                        for (x, s) in &sp2 { ts = subst(ts, x, s); }
                        if all { format!("        vx_q{n} == (forall|vx_j: int| {lo} <= vx_j < {hi} ==> ({ts})),\n") }
                        else { format!("        vx_q{n} == (exists|vx_j: int| {lo} <= vx_j < {hi} && ({ts})),\n") }
                    } else { String::new() };
                    tx.visit_expr_mut(&mut b);
                    stmts.push(parse_quote!(#bv = #b;));
                    Some((stmts, auto))
                })?;
                Some(parse_quote!({ let mut #bv: bool = #all; #(#st)* #bv }))
            }
            _ => None,
        }
    }

    fn tx_for(&mut self, f: &syn::ExprForLoop) -> Option<Expr> {
        // array literal: unroll
        let arr = match &*f.expr {
            Expr::Array(a) => Some(a.clone()),
            Expr::Reference(r) => match &*r.expr { Expr::Array(_) => None, _ => None },
            Expr::MethodCall(m) if m.method == "into_iter" => match &*m.receiver { Expr::Array(a) => Some(a.clone()), _ => None },
            _ => None,
        };
        if let Some(a) = arr {
            if has(&f.body).brk { return None; }
            let mut out: Vec<Stmt> = vec![];
            for e in &a.elems {
                let mut b = f.body.clone();
                let p = &f.pat;
                let mut e = e.clone();
                self.visit_expr_mut(&mut e);
                self.visit_block_mut(&mut b);
                let st = &b.stmts;
                let blk: Expr = parse_quote!({ let #p = #e; #(#st)* });
                out.push(Stmt::Expr(blk, Some(Default::default())));
            }
            return Some(parse_quote!({ #(#out)* }));
        }
        let n = self.nloop;
        self.nloop += 1;
        let pipe = match &*f.expr {
            Expr::Reference(r) if r.mutability.is_some() => Pipe { base: Base::SliceMut((*r.expr).clone()), stages: vec![] },
            Expr::Reference(r) => Pipe { base: Base::Slice((*r.expr).clone()), stages: vec![] },
            Expr::MethodCall(m) if m.method == "iter_mut" => Pipe { base: Base::SliceMut((*m.receiver).clone()), stages: vec![] },
            Expr::Path(_) => {
                // `for &x in v` / `for x in v`: by reference when the pattern dereferences or v is itself a reference
                let byref = matches!(&*f.pat, Pat::Reference(_)) || self.ref_param(&f.expr);
                Pipe { base: Base::Slice((*f.expr).clone()), stages: if byref { vec![] } else { vec![Stage::Deref] } }
            }
            // a call that returns a vector
            Expr::Call(_) => Pipe { base: Base::Slice((*f.expr).clone()), stages: vec![Stage::Deref] },
            e => self.parse_pipe(e)?,
        };
        if f.label.is_some() { return None; }
        let pat = (*f.pat).clone();
        let body = f.body.clone();
        let st = self.build_loop(n, pipe, None, true, &mut |tx, it, _| {
            let mut stmts = vec![];
            let mut sp2 = vec![];
            if !tx.bind(&pat, &it, &mut stmts, &mut sp2) { return None; }
            let mut b = body.clone();
            // a loop variable that is itself a reference
            let depth = tx.loop_refs.len();
            if let (Pat::Ident(i), It::One { is_ref: true, .. }) = (&pat, &it) { tx.loop_refs.push(i.ident.to_string()); }
            tx.visit_block_mut(&mut b);
            tx.loop_refs.truncate(depth);
            tx.early_prefix = Some(stmts.len());
            stmts.extend(b.stmts);
            Some((stmts, String::new()))
        })?;
        Some(parse_quote!({ #(#st)* }))
    }

    /// is the expression a parameter of reference type
    fn ref_param(&self, e: &Expr) -> bool {
        let Expr::Path(p) = e else { return false };
        let Some(n) = p.path.get_ident() else { return false };
        if self.loop_refs.iter().any(|r| n == r) { return true; }
        self.f.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Typed(t) if matches!(&*t.pat, Pat::Ident(i) if i.ident == *n) && matches!(&*t.ty, syn::Type::Reference(_))))
    }

    /// `self.f()` where f is an accessor `&self.x` / `&mut self.x`: the place self.x
    fn accessor(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        if !m.args.is_empty() || !matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) { return None; }
        let all = self.repo.all_fns(&self.f.krate.clone());
        let own: Vec<&FnItem> = all.iter().filter(|f| f.has_self && f.ty == self.f.ty && m.method == f.sig.ident).collect();
        if own.len() != 1 || self.is_contracted(own[0]) || own[0].block.stmts.len() != 1 { return None; }
        let Stmt::Expr(Expr::Reference(r), None) = &own[0].block.stmts[0] else { return None };
        match &*r.expr {
            Expr::Field(f) if matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self")) => Some((*r.expr).clone()),
            _ => None,
        }
    }

    // ---- inlining -------------------------------------------------------
    fn is_contracted(&self, f: &FnItem) -> bool {
        self.unit.contracted.iter().any(|(k, p)| {
            if *k != f.krate { return false; }
            let parts: Vec<&str> = p.split("::").collect();
            let name = parts[parts.len() - 1];
            let q = parts[parts.len() - 2];
            if f.sig.ident != name { return false; }
            match &f.ty {
                Some(t) => t == q && (parts.len() < 3 || parts[0] == f.module || true),
                None => q == f.module || !q.chars().next().unwrap().is_uppercase() && q == f.module,
            }
        })
    }

    /// early returns at statement level -> if/else
    fn structure(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
        let mut out = vec![];
        for (k, s) in stmts.iter().enumerate() {
            if let Stmt::Expr(Expr::If(i), _) = s {
                if i.else_branch.is_none() {
                    let h = has(&i.then_branch);
                    if h.ret {
                        let mut tb = Self::structure_tail(&i.then_branch.stmts)?;
                        let rest = Self::structure(&stmts[k + 1..])?;
                        let c = &i.cond;
                        if tb.is_empty() { tb = vec![]; }
                        out.push(Stmt::Expr(parse_quote!(if #c { #(#tb)* } else { #(#rest)* }), None));
                        return Some(out);
                    }
                }
            }
            if let Stmt::Local(l) = s {
                if let Some(init) = &l.init {
                    // let p = match x { A => v, B => return r }; rest  ->  match x { A => { let p = v; rest } B => r }
                    if let (Expr::Match(m), None) = (&*init.expr, &init.diverge) {
                        let rets: Vec<bool> = m.arms.iter().map(|a| match &*a.body { Expr::Return(_) => true, Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))), _ => false }).collect();
                        if rets.iter().filter(|r| !**r).count() == 1 && rets.len() >= 2 {
                            let rest = Self::structure(&stmts[k + 1..])?;
                            let mut m = m.clone();
                            for (a, r) in m.arms.iter_mut().zip(&rets) {
                                let b = a.body.clone();
                                if *r {
                                    let st = match *b { Expr::Block(b) => b.block.stmts.clone(), e => vec![Stmt::Expr(e, None)] };
                                    let st = Self::structure_tail(&st)?;
                                    a.body = parse_quote!({ #(#st)* });
                                } else {
                                    if has(&parse_quote!({ #b })).ret { return None; }
                                    let p = &l.pat;
                                    a.body = parse_quote!({ let #p = #b; #(#rest)* });
                                }
                                a.comma = None;
                            }
                            out.push(Stmt::Expr(Expr::Match(m), None));
                            return Some(out);
                        }
                    }
                    // let P = x else { return r }; rest
                    if let Some((_, d)) = &init.diverge {
                        if let Expr::Block(d) = &**d {
                            let st = Self::structure_tail(&d.block.stmts)?;
                            let rest = Self::structure(&stmts[k + 1..])?;
                            let (p, x) = (&l.pat, &init.expr);
                            out.push(Stmt::Expr(parse_quote!(match #x { #p => { #(#rest)* } _ => { #(#st)* } }), None));
                            return Some(out);
                        }
                    }
                }
            }
            if k + 1 == stmts.len() {
                if let Stmt::Expr(Expr::Return(r), _) = s {
                    if let Some(e) = &r.expr { out.push(Stmt::Expr((**e).clone(), None)); }
                    return Some(out);
                }
            }
            let b = Block { brace_token: Default::default(), stmts: vec![s.clone()] };
            if has(&b).ret { return None; }
            out.push(s.clone());
        }
        Some(out)
    }
    fn structure_tail(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
        // must end in return
        match stmts.last() {
            Some(Stmt::Expr(Expr::Return(_), _)) => Self::structure(stmts),
            _ => None,
        }
    }

    fn inline(&mut self, f: &FnItem, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 3 { return None; }
        let mut fb = f.block.clone();
        crate::strs::Strs::run(&mut fb, crate::strs::Strs::params(&f.sig));
        let h = has(&fb);
        if h.loops { return None; }
        let stmts = if h.ret { Self::structure(&fb.stmts)? } else { fb.stmts.clone() };
        let mut ts: TokenStream = quote!(#(#stmts)*);
        if f.has_self {
            let r = recv?;
            match r {
                Expr::Path(p) if p.path.get_ident().is_some() => {
                    let n = p.path.get_ident().unwrap().to_string();
                    if n != "self" { ts = rename_ident(ts, "self", &n); }
                }
                _ => return None,
            }
        }
        let params: Vec<(Pat, syn::Type)> = f.sig.inputs.iter().filter_map(|a| match a {
            syn::FnArg::Typed(t) => Some(((*t.pat).clone(), (*t.ty).clone())),
            _ => None,
        }).collect();
        if params.len() != args.len() { return None; }
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        for ((p, t), a) in params.iter().zip(args) {
            if let Pat::Ident(pi) = p {
                let pn = pi.ident.to_string();
                // a closure argument is expanded where the helper calls it, provided no local of the helper captures its names
                if let Expr::Closure(cl) = &a {
                    let mut bound = LetNames(vec![]);
                    syn::visit::Visit::visit_block(&mut bound, &f.block);
                    let mine: Vec<String> = cl.inputs.iter().map(|p| p.to_token_stream().to_string()).collect();
                    let used = idents(cl.body.to_token_stream());
                    if bound.0.iter().any(|b| used.contains(b) && !mine.contains(b)) { return None; }
                    self.closures.insert(pn, cl.clone());
                    continue;
                }
                // exclusive references are passed by name
                let target = match &a {
                    Expr::Path(x) if x.path.get_ident().is_some() => x.path.get_ident().map(|i| i.to_string()),
                    Expr::Reference(r) => match &*r.expr { Expr::Path(x) if r.mutability.is_some() => x.path.get_ident().map(|i| i.to_string()), _ => None },
                    _ => None,
                };
                let is_mut_ref = matches!(t, syn::Type::Reference(r) if r.mutability.is_some());
                if is_mut_ref {
                    let n = target?;
                    if n != pn { ts = rename_ident(ts, &pn, &n); }
                    continue;
                }
                if let Some(n) = &target {
                    if *n == pn && !matches!(a, Expr::Reference(_)) && pi.mutability.is_none() { continue; }
                }
            }
            let tmp = self.fresh("t");
            pre.push(parse_quote!(let #tmp = #a;));
            post.push(parse_quote!(let #p: #t = #tmp;));
        }
        let mut b: Block = syn::parse2(quote!({ #(#pre)* #(#post)* #ts })).ok()?;
        let mut ntn = NtNames(Default::default());
        syn::visit::Visit::visit_block(&mut ntn, &b);
        self.nts.extend(ntn.0);
        self.depth += 1;
        self.in_inline += 1;
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        self.in_inline -= 1;
        let mut tm = TypeMap { map: &self.unit.typemap };
        tm.visit_block_mut(&mut b);
        Some(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }))
    }

    fn crates(&self) -> Vec<String> {
        let mut v = vec![self.f.krate.clone()];
        for (k, _) in &self.unit.contracted {
            if !v.contains(k) { v.push(k.clone()); }
        }
        v
    }

    fn mangle(f: &FnItem) -> Ident {
        id(&format!("{}__{}", f.module, f.sig.ident))
    }
}

pub fn nt_crate(k: &str) -> String {
    match k { "bss" => "bddcore".into(), "mss" => "mddcore".into(), k => k.to_string() }
}

/// names bound by let and patterns in a block
struct LetNames(Vec<String>);
impl<'a> syn::visit::Visit<'a> for LetNames {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.to_string()); syn::visit::visit_pat_ident(self, p) }
}
fn idents(t: TokenStream) -> std::collections::HashSet<String> {
    fn go(t: TokenStream, o: &mut std::collections::HashSet<String>) {
        for x in t { match x { proc_macro2::TokenTree::Ident(i) => { o.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => go(g.stream(), o), _ => {} } }
    }
    let mut o = Default::default(); go(t, &mut o); o
}

fn last_is(p: &syn::Path, n: &str) -> bool {
    p.segments.last().map(|s| s.ident == n).unwrap_or(false)
}

fn calls_method(s: &Stmt, name: &str) -> bool {
    struct V<'b>(&'b str, bool);
    impl<'a, 'b> syn::visit::Visit<'a> for V<'b> {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if m.method == self.0 { self.1 = true; }
            syn::visit::visit_expr_method_call(self, m)
        }
        fn visit_expr_call(&mut self, m: &'a syn::ExprCall) {
            if let Expr::Path(p) = &*m.func { if last_is(&p.path, self.0) { self.1 = true; } }
            syn::visit::visit_expr_call(self, m)
        }
        fn visit_block(&mut self, _: &'a Block) {}
    }
    let mut v = V(name, false);
    syn::visit::Visit::visit_stmt(&mut v, s);
    v.1
}

impl<'a> VisitMut for Tx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let block0 = if self.fs.closures.is_empty() { None } else { Some(b.clone()) };
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in stmts {
            let mut hit: Vec<String> = vec![];
            for (k, t) in &self.fs.after_call {
                if calls_method(&s, k) && self.in_inline == 0 { hit.push(t.clone()); }
            }
            match &mut s {
                Stmt::Item(_) => continue,
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n.starts_with("debug_assert") || n == "println" || n == "eprintln" { continue; }
                    if m.semi_token.is_none() {
                        let mut e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                        self.visit_expr_mut(&mut e);
                        s = Stmt::Expr(e, None);
                    } else {
                        let mut e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                        self.visit_expr_mut(&mut e);
                        s = Stmt::Expr(e, Some(Default::default()));
                    }
                    out.push(s);
                }
                Stmt::Local(l) => {
                    l.attrs.clear();
                    // `let m: HashMap<..> = ...collect()`
                    if let (Pat::Type(t), Some(init)) = (&l.pat, &mut l.init) {
                        if let Expr::MethodCall(m) = &mut *init.expr {
                            if m.method == "collect" && m.turbofish.is_none() && crate::index::type_name(&t.ty).as_deref() == Some("HashMap") { let ty = &t.ty; m.turbofish = Some(parse_quote!(::<#ty>)); }
                        }
                    }
                    if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        let kept = self.fs.closures.contains_key(&self.nclosure) && block0.as_ref().map_or(false, |b| passed_on(b, &i.ident.to_string()));
                        if let (Expr::Closure(c), false) = (&*init.expr, kept) {
                            let mut c = c.clone();
                            for inp in c.inputs.iter_mut() {
                                if let Pat::Type(t) = inp { *inp = (*t.pat).clone(); }
                            }
                            self.closures.insert(i.ident.to_string(), c);
                            continue;
                        }
                    }
                    let mut binds = vec![];
                    self.fix_pat(&mut l.pat, false, &mut binds);
                    if let Some(init) = &mut l.init {
                        self.visit_expr_mut(&mut init.expr);
                        if let Some((_, e)) = &mut init.diverge { self.visit_expr_mut(e); }
                    }
                    out.push(s);
                    out.extend(Self::deref_binds(&binds));
                }
                Stmt::Expr(e, _) => {
                    if let Expr::Macro(m) = e {
                        let n = m.mac.path.segments.last().unwrap().ident.to_string();
                        if n.starts_with("debug_assert") || n == "println" { continue; }
                    }
                    self.visit_expr_mut(e);
                    out.push(s);
                }
            }
            if !hit.is_empty() {
                // a tail expression has nothing after it
                if let Some(Stmt::Expr(_, None)) = out.last() { if out.len() > 0 { hit.clear(); } }
                for t in hit { let p = self.place(&t); out.push(p); }
            }
        }
        b.stmts = out;
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        a.attrs.clear();
        let mut binds = vec![];
        self.fix_pat(&mut a.pat, false, &mut binds);
        if let Some((_, g)) = &mut a.guard {
            self.visit_expr_mut(g);
            let mut ts = g.to_token_stream();
            for (n, o) in &binds { ts = subst(ts, &o.to_string(), &quote!(*#n)); }
            **g = syn::parse2(ts).unwrap();
        }
        self.visit_expr_mut(&mut a.body);
        if !binds.is_empty() {
            let st = Self::deref_binds(&binds);
            let b = &a.body;
            a.body = parse_quote!({ #(#st)* #b });
        }
        if !matches!(&*a.body, Expr::Block(_)) {
            a.comma = Some(Default::default());
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() { return; }
        self.split_guarded(e);
        // a slice copied into a vector
        if let Expr::MethodCall(m) = &*e {
            if m.method == "to_vec" && m.args.is_empty() { let b = &m.receiver; *e = parse_quote!(#b.iter().cloned().collect::<Vec<_>>()); }
        }
        // the keys of a table as a vector
        if let Expr::MethodCall(m) = &*e {
            if m.method == "collect" {
                let mut r = &*m.receiver;
                if let Expr::MethodCall(x) = r { if x.method == "copied" || x.method == "cloned" { r = &*x.receiver; } }
                if let Expr::MethodCall(x) = r {
                    if x.method == "keys" && x.args.is_empty() { let b = &x.receiver; *e = parse_quote!(#b.vx_keys()); }
                }
            }
        }
        // a.max(b), a.min(b) on machine integers in the handle layer
        if self.unit.world.on() {
            if let Expr::MethodCall(m) = &*e {
                if (m.method == "max" || m.method == "min") && m.args.len() == 1 {
                    let f = id(if m.method == "max" { "vx_max" } else { "vx_min" });
                    let (a, b) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(#f(#a, #b));
                }
            }
        }
        match e {
            Expr::Closure(c) => {
                let n = self.nclosure;
                self.nclosure += 1;
                if let Some(spec) = self.fs.closures.get(&n).cloned() {
                    // the sidecar gives the closure's typed header and contract; the body is the repository's
                    let mut binds = vec![];
                    let mut names = vec![];
                    for p in c.inputs.iter_mut() {
                        self.fix_pat(p, false, &mut binds);
                        let mut q = p.clone();
                        if let Pat::Type(t) = q { q = *t.pat; }
                        names.push(match q {
                            Pat::Ident(i) => i.ident.to_string(),
                            Pat::Wild(_) => "_".into(),
                            _ => { self.fail("closure pattern"); return; }
                        });
                    }
                    self.visit_expr_mut(&mut c.body);
                    let st = Self::deref_binds(&binds);
                    let body = &c.body;
                    let mut head = spec.clone();
                    for (k, nm) in names.iter().enumerate() {
                        let nm = if nm == "_" { format!("_vx_p{k}") } else { nm.clone() };
                        head = head.replace(&format!("$p{k}"), &nm);
                    }
                    // after `$body`: ghost code at the start of the closure's body
                    let (head, pre) = match head.split_once("$body") { Some((h, p)) => (h.to_string(), Some(p.to_string())), None => (head, None) };
                    self.ph.push(head);
                    let n = proc_macro2::Literal::usize_unsuffixed(self.ph.len() - 1);
                    let pre = pre.map(|p| self.place(&p));
                    *e = parse_quote!({ __vx_clo!(#n); #pre #(#st)* #body });
                    return;
                }
                self.fail("closure in a position the extraction does not handle");
                return;
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                match self.tx_for(&f) {
                    Some(x) => *e = x,
                    None => self.fail(format!("for loop over `{}`", f.expr.to_token_stream())),
                }
                return;
            }
            Expr::While(w) => {
                let n = self.nloop;
                self.nloop += 1;
                // while let: patterns with references
                let mut binds = vec![];
                if let Expr::Let(l) = &mut *w.cond { self.fix_pat(&mut l.pat, false, &mut binds); }
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let mut st: Vec<Stmt> = vec![];
                let t = self.fs.loops.get(&n).cloned().unwrap_or_default();
                st.push(self.place_inv(&t));
                st.extend(Self::deref_binds(&binds));
                let popped = match &*w.cond {
                    Expr::Let(l) => match &*l.pat { Pat::TupleStruct(t) if t.elems.len() == 1 => match &t.elems[0] { Pat::Ident(i) => Some(i.ident.to_string()), _ => None }, _ => None },
                    _ => None,
                };
                if let Some(t) = self.fs.loop_begin.get(&n).cloned() { st.push(self.place(&match &popped { Some(x) => t.replace("$p", x), None => t })); }
                st.extend(std::mem::take(&mut w.body.stmts));
                if let Some(t) = self.fs.loop_end.get(&n).cloned() { st.push(self.place(&t)); }
                w.body.stmts = st;
                let before = self.fs.loop_before.get(&n).cloned();
                let after = self.fs.loop_after.get(&n).cloned();
                if before.is_some() || after.is_some() {
                    let mut out: Vec<Stmt> = vec![];
                    if let Some(t) = before { out.push(self.place(&t)); }
                    let w2 = w.clone();
                    out.push(Stmt::Expr(Expr::While(w2), None));
                    if let Some(t) = after { out.push(self.place(&t)); }
                    *e = parse_quote!({ #(#out)* });
                }
                return;
            }
            Expr::Loop(w) => {
                let n = self.nloop;
                self.nloop += 1;
                self.visit_block_mut(&mut w.body);
                let t = self.fs.loops.get(&n).cloned().unwrap_or_default();
                let p = self.place_inv(&t);
                w.body.stmts.insert(0, p);
                if let Some(t) = self.fs.loop_begin.get(&n).cloned() { let p = self.place(&t); w.body.stmts.insert(1, p); }
                if let Some(t) = self.fs.loop_end.get(&n).cloned() { let p = self.place(&t); w.body.stmts.push(p); }
                return;
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let mut binds = vec![];
                    self.fix_pat(&mut l.pat, false, &mut binds);
                    let mut st = Self::deref_binds(&binds);
                    self.visit_expr_mut(&mut l.expr);
                    self.visit_block_mut(&mut i.then_branch);
                    st.extend(std::mem::take(&mut i.then_branch.stmts));
                    i.then_branch.stmts = st;
                    if let Some((_, el)) = &mut i.else_branch { self.visit_expr_mut(el); }
                    return;
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr { self.visit_expr_mut(x); }
                if !self.fs.exit.is_empty() && self.in_inline == 0 {
                    let p = self.place(&self.fs.exit.clone());
                    *e = match &r.expr {
                        Some(x) => parse_quote!({ let vx_r = #x; #p return vx_r; }),
                        None => parse_quote!({ #p return; }),
                    };
                }
                return;
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "panic" | "unreachable" | "unimplemented" | "todo" => { *e = parse_quote!(vx_unreachable()); return; }
                    "format" => {
                        let parsed = m.mac.parse_body_with(|i: syn::parse::ParseStream| {
                            let a: syn::LitStr = i.parse()?;
                            let mut v: Vec<Expr> = vec![];
                            while !i.is_empty() { let _: syn::Token![,] = i.parse()?; if i.is_empty() { break; } v.push(i.parse()?); }
                            Ok((a, v))
                        });
                        if let Ok((a, mut v)) = parsed {
                            let t = a.value();
                            if let Some((x, y)) = t.split_once("{}") {
                                if v.len() == 1 && !x.contains(['{', '}']) && !y.contains(['{', '}']) {
                                    let mut z = v.remove(0);
                                    self.visit_expr_mut(&mut z);
                                    *e = parse_quote!(vx_fmt1(#x, &#z, #y));
                                    return;
                                }
                            } else if let Some((x, r)) = t.split_once('{') {
                                if let Some((n, y)) = r.split_once('}') {
                                    if v.is_empty() && !x.contains('}') && !y.contains(['{', '}']) && syn::parse_str::<syn::Ident>(n).is_ok() {
                                        let n: syn::Ident = syn::parse_str(n).unwrap();
                                        *e = parse_quote!(vx_fmt1(#x, &#n, #y));
                                        return;
                                    }
                                }
                            }
                        }
                        *e = parse_quote!(vx_format());
                        return;
                    }
                    "matches" => {
                        let parsed = m.mac.parse_body_with(|i: syn::parse::ParseStream| {
                            let a: Expr = i.parse()?;
                            let _: syn::Token![,] = i.parse()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let g: Option<Expr> = if i.peek(syn::Token![if]) { let _: syn::Token![if] = i.parse()?; Some(i.parse()?) } else { None };
                            let _: Option<syn::Token![,]> = i.parse()?;
                            Ok((a, p, g))
                        });
                        if let Ok((a, p, g)) = parsed {
                            *e = match g {
                                Some(g) => parse_quote!(match #a { #p if #g => true, _ => false }),
                                None => parse_quote!(match #a { #p => true, _ => false }),
                            };
                            self.visit_expr_mut(e);
                        } else { self.fail("matches! macro"); }
                        return;
                    }
                    "vec" => {
                        if let Ok((mut a, mut b)) = m.mac.parse_body_with(|i: syn::parse::ParseStream| {
                            let a: Expr = i.parse()?;
                            let _: syn::Token![;] = i.parse()?;
                            let b: Expr = i.parse()?;
                            Ok((a, b))
                        }) {
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            *e = parse_quote!(vx_vec_of(#a, #b));
                            return;
                        }
                        if let Ok(items) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                            let mut st: Vec<Stmt> = vec![];
                            let v = self.fresh("w");
                            for mut x in items { self.visit_expr_mut(&mut x); st.push(parse_quote!(#v.push(#x);)); }
                            *e = parse_quote!({ let mut #v = Vec::new(); #(#st)* #v });
                            return;
                        }
                        self.fail("vec! macro");
                        return;
                    }
                    "assert" | "assert_eq" | "assert_ne" => {
                        if let Ok(items) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                            let mut it = items.into_iter();
                            let mut a = it.next().unwrap();
                            self.visit_expr_mut(&mut a);
                            if n == "assert" { *e = parse_quote!(if !(#a) { vx_unreachable() }); return; }
                            let mut b = it.next().unwrap();
                            self.visit_expr_mut(&mut b);
                            *e = if n == "assert_eq" { parse_quote!(if !(#a == #b) { vx_unreachable() }) } else { parse_quote!(if #a == #b { vx_unreachable() }) };
                            return;
                        }
                    }
                    _ => {}
                }
                self.fail(format!("macro {n}!"));
                return;
            }
            // `&mut x.part_mut()`: the reference the call returns is reborrowed
            Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::MethodCall(c) if c.method.to_string().ends_with("_mut")) => {
                *e = (*r.expr).clone();
                self.visit_expr_mut(e);
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(x) = self.accessor(&m.receiver.clone()) { *m.receiver = x; }
                // iterator pipelines
                if matches!(name.as_str(), "collect" | "all" | "any" | "extend") || matches!(name.as_str(), "count" | "sum") && m.args.is_empty() || name == "last" && m.args.is_empty() && matches!(&*m.receiver, Expr::MethodCall(x) if matches!(x.method.to_string().as_str(), "iter" | "into_iter" | "map" | "copied" | "cloned" | "enumerate")) {
                    let mm = e.clone();
                    if let Some(x) = self.tx_terminal(&mm) { *e = x; return; }
                    self.fail(format!("iterator pipeline `{}`", mm.to_token_stream()));
                    return;
                }
                // map.entry(k).or_insert(v), .or_insert_with(|| v): the value offered is evaluated even when the key is present
                if (name == "or_insert" || name == "or_insert_with") && m.args.len() == 1 {
                    if let Expr::MethodCall(en) = &*m.receiver {
                        if en.method == "entry" && en.args.len() == 1 {
                            let v = match &m.args[0] { Expr::Closure(c) if name == "or_insert_with" && c.inputs.is_empty() => Some((*c.body).clone()), x if name == "or_insert" => Some(x.clone()), _ => None };
                            if let Some(mut v) = v {
                                let (mut r, mut k) = (en.receiver.clone(), en.args[0].clone());
                                self.visit_expr_mut(&mut r);
                                self.visit_expr_mut(&mut k);
                                self.visit_expr_mut(&mut v);
                                *e = parse_quote!(#r.vx_entry_or(#k, #v));
                                return;
                            }
                        }
                    }
                }
                // Option::map with a constructor
                if name == "map" && m.args.len() == 1 {
                    if let Expr::Path(p) = &m.args[0] {
                        let p = p.clone();
                        m.args[0] = parse_quote!(|vx_x| #p(vx_x));
                    }
                }
                // Option combinators with a closure
                if matches!(name.as_str(), "map" | "and_then") && m.args.len() == 1 {
                    if let Expr::Closure(_) = &m.args[0] {
                        let mm = e.clone();
                        if self.parse_pipe(&mm).is_some() { self.fail("iterator value"); return; }
                        let Expr::MethodCall(m) = e else { unreachable!() };
                        let Expr::Closure(c) = m.args[0].clone() else { unreachable!() };
                        let mut recv = (*m.receiver).clone();
                        self.visit_expr_mut(&mut recv);
                        let mut p = c.inputs[0].clone();
                        if let Pat::Type(t) = p { p = *t.pat; }
                        let mut binds = vec![];
                        self.fix_pat(&mut p, false, &mut binds);
                        let st = Self::deref_binds(&binds);
                        let mut b = (*c.body).clone();
                        self.visit_expr_mut(&mut b);
                        *e = if name == "map" {
                            parse_quote!((match #recv { Some(#p) => { #(#st)* Some(#b) } None => None }))
                        } else {
                            parse_quote!((match #recv { Some(#p) => { #(#st)* #b } None => None }))
                        };
                        return;
                    }
                }
                if name == "first" && m.args.is_empty() {
                    let r = &m.receiver;
                    *e = parse_quote!((if #r.len() > 0 { Some(&#r[0]) } else { None }));
                    return;
                }
                if name == "is_empty" && m.args.is_empty() {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!((#r.len() == 0));
                    return;
                }
                if name == "to_string" && m.args.is_empty() {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    *e = parse_quote!(vx_to_string(#r));
                    return;
                }
                // helper without a contract of its own: inline it
                let recv_ident = match &*m.receiver { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), _ => None };
                if let Some(ri) = recv_ident {
                    let mut cands = vec![];
                    for k in self.crates() {
                        for f in self.repo.all_fns(&k) {
                            if f.has_self && f.sig.ident == name { cands.push(f); }
                        }
                    }
                    if ri == "self" {
                        let own: Vec<FnItem> = cands.iter().filter(|f| f.ty == self.f.ty && f.krate == self.f.krate).cloned().collect();
                        if own.len() == 1 && !self.is_contracted(&own[0]) {
                            let args: Vec<Expr> = m.args.iter().cloned().collect();
                            let recv = (*m.receiver).clone();
                            match self.inline(&own[0], Some(&recv), args) {
                                Some(x) => { *e = x; return; }
                                None => { self.fail(format!("call of `{name}`, which has no contract and cannot be inlined")); return; }
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(i) = p.path.get_ident() {
                        if let Some(cl) = self.closures.get(&i.to_string()).cloned() {
                            // beta-reduce a local closure
                            let mut pre: Vec<Stmt> = vec![];
                            for (pp, a) in cl.inputs.iter().zip(c.args.iter()) {
                                let mut a = a.clone();
                                self.visit_expr_mut(&mut a);
                                pre.push(parse_quote!(let #pp = #a;));
                            }
                            let mut b = (*cl.body).clone();
                            if let Expr::Block(bb) = &b { if has(&bb.block).ret { self.fail("closure with return"); return; } }
                            self.visit_expr_mut(&mut b);
                            *e = parse_quote!({ #(#pre)* #b });
                            return;
                        }
                    }
                    // free functions of the repository
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    // std::cmp::max / min
                    if (name == "max" || name == "min") && c.args.len() == 2 && (segs.len() == 1 || segs[segs.len() - 2] == "cmp") {
                        let m = quote::format_ident!("vx_{}", name);
                        let mut c2 = c.clone();
                        c2.func = Box::new(parse_quote!(#m));
                        for a in c2.args.iter_mut() { self.visit_expr_mut(a); }
                        *e = Expr::Call(c2);
                        return;
                    }
                    let mut found: Option<FnItem> = None;
                    let lower = segs.len() == 1 || segs[segs.len() - 2].chars().next().map(|c| c.is_lowercase()).unwrap_or(false);
                    if lower {
                        let all = self.repo.all_fns(&self.f.krate.clone());
                        let c: Vec<FnItem> = all.into_iter().filter(|f| f.ty.is_none() && f.sig.ident == name).collect();
                        if segs.len() == 1 {
                            found = c.iter().find(|f| f.module == self.f.module).cloned().or(if c.len() == 1 { Some(c[0].clone()) } else { None });
                        } else {
                            let q = &segs[segs.len() - 2];
                            found = c.iter().find(|f| f.module == *q).cloned();
                        }
                    }
                    if let Some(f) = found {
                        if self.is_contracted(&f) {
                            let mut c2 = c.clone();
                            let m = Self::mangle(&f);
                            c2.func = Box::new(parse_quote!(#m));
                            for a in c2.args.iter_mut() { self.visit_expr_mut(a); }
                            for (n, x) in &self.fs.pass {
                                if *n == name {
                                    match syn::parse_str::<Expr>(x) { Ok(x) => c2.args.push(parse_quote!(Ghost(#x))), Err(_) => { self.err = Some("ghost argument".into()); return; } }
                                }
                            }
                            *e = Expr::Call(c2);
                            return;
                        }
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        match self.inline(&f, None, args) {
                            Some(x) => { *e = x; return; }
                            None => { self.fail(format!("call of `{name}`, which has no contract and cannot be inlined")); return; }
                        }
                    }
                    // associated functions of the own type (Self::helper(..)) without contract
                    if segs.len() == 2 && (segs[0] == "Self" || Some(&segs[0]) == self.f.ty.as_ref()) {
                        let all = self.repo.all_fns(&self.f.krate.clone());
                        let own: Vec<FnItem> = all.into_iter().filter(|f| f.ty == self.f.ty && f.sig.ident == name).collect();
                        if own.len() == 1 && !own[0].has_self && !self.is_contracted(&own[0]) {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            match self.inline(&own[0], None, args) {
                                Some(x) => { *e = x; return; }
                                None => { self.fail(format!("call of `{name}`, which has no contract and cannot be inlined")); return; }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        self.visit_expr_mut(&mut m.expr);
        // `A | B if guard => body`: one arm per alternative
        let mut arms = vec![];
        for a in m.arms.drain(..) {
            let looped = { let t = a.body.to_token_stream().to_string(); ["for ", "while ", "loop "].iter().any(|k| t.contains(k)) };
            match &a.pat {
                Pat::Or(o) if a.guard.is_some() && !looped => for c in o.cases.iter() { let mut b = a.clone(); b.pat = c.clone(); b.comma = Some(Default::default()); arms.push(b); },
                _ => arms.push(a),
            }
        }
        m.arms = arms;
        for a in m.arms.iter_mut() { self.visit_arm_mut(a); }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear(); }
}


/// Is the local used other than by calling it?
fn passed_on(b: &Block, name: &str) -> bool {
    struct V<'n>(&'n str, bool);
    impl<'a, 'n> syn::visit::Visit<'a> for V<'n> {
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.0)) { self.visit_expr(&c.func); }
            for a in &c.args { self.visit_expr(a); }
        }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if p.path.is_ident(self.0) { self.1 = true; } }
    }
    let mut v = V(name, false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}

/// Replace whole-word occurrences of an identifier in sidecar text.
fn word_subst(t: &str, from: &str, to: &str) -> String {
    let b: Vec<char> = t.chars().collect();
    let isw = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if isw(b[i]) {
            let st = i;
            while i < b.len() && isw(b[i]) { i += 1; }
            let w: String = b[st..i].iter().collect();
            out.push_str(if w == from && !(st > 0 && b[st - 1] == '.') { to } else { &w });
        } else { out.push(b[i]); i += 1; }
    }
    out
}

/// The sidecar may name the parameters (//@args); when the repository calls them
/// something else the sidecar's text is adapted.
fn adapt(fs: &FnSpec, f: &FnItem) -> FnSpec {
    let mut fs = fs.clone();
    if fs.args.is_empty() { return fs; }
    let names: Vec<String> = f.sig.inputs.iter().filter_map(|a| match a {
        syn::FnArg::Typed(t) => Some(match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_".into() }),
        _ => None,
    }).collect();
    if names.len() != fs.args.len() { return fs; }
    let pairs: Vec<(String, String)> = fs.args.iter().cloned().zip(names).filter(|(a, b)| a != b && b != "_").collect();
    if pairs.is_empty() { return fs; }
    let go = |t: &str| {
        let mut t = t.to_string();
        for (k, (a, _)) in pairs.iter().enumerate() { t = word_subst(&t, a, &format!("vxarg{k}")); }
        for (k, (_, b)) in pairs.iter().enumerate() { t = word_subst(&t, &format!("vxarg{k}"), b); }
        t
    };
    fs.spec = go(&fs.spec); fs.entry = go(&fs.entry); fs.exit = go(&fs.exit); fs.mapinv = go(&fs.mapinv); fs.mapend = go(&fs.mapend);
    for m in [&mut fs.loops, &mut fs.loop_begin, &mut fs.loop_end, &mut fs.loop_before, &mut fs.loop_after, &mut fs.closures] {
        for v in m.values_mut() { *v = go(v); }
    }
    for v in fs.after_call.values_mut() { *v = go(v); }
    fs
}

/// a cell content that the function only reads is a shared reference: no old / final
fn adapt_world(fs: &mut FnSpec, f: &FnItem, unit: &Unit) {
    for (_, c) in &unit.world.cells {
        let v = format!("vx_{c}");
        let shared = f.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Typed(t) if matches!(&*t.pat, Pat::Ident(i) if i.ident == v.as_str()) && matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_none())));
        if !shared { continue; }
        let go = |t: &str| t.replace(&format!("old({v})"), &v).replace(&format!("final({v})"), &v);
        fs.spec = go(&fs.spec); fs.entry = go(&fs.entry); fs.exit = go(&fs.exit); fs.mapinv = go(&fs.mapinv); fs.mapend = go(&fs.mapend);
        for m in [&mut fs.loops, &mut fs.loop_begin, &mut fs.loop_end, &mut fs.loop_before, &mut fs.loop_after, &mut fs.closures] { for x in m.values_mut() { *x = go(x); } }
        for x in fs.after_call.values_mut() { *x = go(x); }
    }
}

pub fn emit_fn(repo: &mut Repo, f: &FnItem, fs: &FnSpec, unit: &Unit, canary: bool) -> Result<String, String> {
    let mut fs = adapt(fs, f);
    adapt_world(&mut fs, f, unit);
    let fs = &fs;
    // names with a meaning in Verus specifications
    let mut ts = f.block.to_token_stream();
    for n in ["old", "final"] { ts = rename_ident(ts, n, &format!("{n}_v")); }
    let mut block: Block = syn::parse2(ts).map_err(|e| e.to_string())?;
    crate::strs::Strs::run(&mut block, crate::strs::Strs::params(&f.sig));
    let mut ntn = NtNames(Default::default());
    syn::visit::Visit::visit_block(&mut ntn, &block);
    let mut tx = Tx {
        repo, f, fs, unit, nloop: 0, loop_refs: vec![], nclosure: 0, fresh: 0, ph: vec![], err: None,
        closures: HashMap::new(), nts: ntn.0, depth: 0, in_inline: 0, early_prefix: None, shift: false,
    };
    if fs.stub {
        // verified in its own unit; here only the contract is used
        block.stmts.clear();
        block.stmts.push(Stmt::Expr(parse_quote!(unimplemented!()), None));
    } else {
        tx.visit_block_mut(&mut block);
    }
    if let Some(e) = tx.err.take() {
        return Err(e);
    }
    let mut tm = TypeMap { map: &unit.typemap };
    tm.visit_block_mut(&mut block);
    // exits
    let unit_ret = matches!(f.sig.output, syn::ReturnType::Default);
    if !fs.exit.is_empty() && !fs.stub {
        let p = tx.place(&fs.exit);
        match block.stmts.last().cloned() {
            Some(Stmt::Expr(x, None)) if !unit_ret => {
                block.stmts.pop();
                block.stmts.push(parse_quote!(let vx_r = #x;));
                block.stmts.push(p);
                block.stmts.push(Stmt::Expr(parse_quote!(vx_r), None));
            }
            Some(Stmt::Expr(Expr::Block(b), Some(_))) if !unit_ret && b.block.stmts.len() >= 2 => {} // a rewritten trailing `return`
            Some(Stmt::Expr(Expr::Return(_), _)) => {}
            _ => block.stmts.push(p),
        }
    }
    if !fs.entry.is_empty() && !fs.stub {
        let p = tx.place(&fs.entry);
        block.stmts.insert(0, p);
    }
    if canary && !fs.nocanary && !fs.stub {
        let p = tx.place("proof { assert(false); }");
        let at = if fs.entry.is_empty() { 0 } else { 1 };
        block.stmts.insert(at.min(block.stmts.len()), p);
    }
    // signature
    let mut sig = f.sig.clone();
    tm.visit_signature_mut(&mut sig);
    let params: Vec<syn::GenericParam> = f.sig.generics.params.iter().filter(|p| match p {
        syn::GenericParam::Type(t) => !unit.typemap.contains_key(&t.ident.to_string()),
        _ => true,
    }).cloned().collect();
    // a function-typed parameter stays generic, with its bound
    let bound = |t: &syn::TypeParam| -> Option<String> {
        let mut b = t.bounds.to_token_stream().to_string();
        if b.is_empty() {
            for w in f.sig.generics.where_clause.iter().flat_map(|w| w.predicates.iter()) {
                if let syn::WherePredicate::Type(p) = w { if p.bounded_ty.to_token_stream().to_string() == t.ident.to_string() { b = p.bounds.to_token_stream().to_string(); } }
            }
        }
        if b.starts_with("Fn") { Some(format!("{}: {b}", t.ident)) } else { None }
    };
    let mut gtext = vec![];
    for p in &params {
        match p {
            syn::GenericParam::Type(t) => match bound(t) { Some(x) => gtext.push(x), None => return Err("generic function".into()) },
            p => gtext.push(p.to_token_stream().to_string()),
        }
    }
    let mut inputs: Vec<TokenStream> = sig.inputs.iter().map(|a| a.to_token_stream()).collect();
    for g in &fs.ghost {
        let (n, t) = g.split_once(':').ok_or("ghost parameter")?;
        inputs.push(format!("Ghost({}): Ghost<{}>", n.trim(), t.trim()).parse().map_err(|_| "ghost parameter")?);
    }
    let name = match (&f.ty, &fs.rename) {
        (_, Some(n)) => n.clone(),
        (Some(_), None) => f.sig.ident.to_string(),
        (None, None) => Tx::mangle(f).to_string(),
    };
    let gens = if gtext.is_empty() { String::new() } else { format!("<{}>", gtext.join(", ")) };
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => {
            let s = t.to_token_stream().to_string();
            if s.contains("impl ") { return Err("impl Trait return type".into()); }
            format!(" -> ({}: {})", fs.ret, s)
        }
    };
    let mut s = String::new();
    if let Some(t) = &f.ty {
        let t = unit.typemap.get(t).cloned().unwrap_or(t.clone());
        s.push_str(&format!("impl {t} {{\n"));
    }
    for a in &fs.attrs { s.push_str(a); s.push('\n'); }
    if let Some(n) = &fs.asspec {
        let r = match &sig.output { syn::ReturnType::Type(_, t) => t.to_token_stream().to_string(), _ => return Err("asspec".into()) };
        s.push_str(&format!("pub open spec fn {n}({}) -> {r} {}\n", inputs.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "), pretty(f.block.to_token_stream())));
    }
    if fs.stub { s.push_str("#[verifier::external_body]\n"); } else { s.push_str("#[verifier::loop_isolation(false)]\n"); }
    let mut head = format!("pub fn {name}{gens}({}){ret}\n", inputs.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "));
    for (a, b) in &fs.sigsub { head = head.replace(a, b); }
    s.push_str(&head);
    s.push_str(&fs.spec);
    let mut body = pretty(block.to_token_stream());
    for w in ["ph", "inv", "clo"] {
        body = body.replace(&format!("__vx_{w} !"), &format!("__vx_{w}!")).replace(&format!("__vx_{w}! ("), &format!("__vx_{w}!("));
    }
    // expand placeholders
    for (k, t) in tx.ph.iter().enumerate() {
        for (pat, wrap) in [(format!("__vx_ph!({k}) ;"), 0), (format!("__vx_ph!({k});"), 0), (format!("__vx_inv!({k}) ;"), 1), (format!("__vx_inv!({k});"), 1), (format!("__vx_clo!({k}) ;"), 2), (format!("__vx_clo!({k});"), 2)] {
            while let Some(pos) = body.find(&pat) {
                let end = pos + pat.len();
                if wrap == 0 {
                    body.replace_range(pos..end, &format!("\n{}", t.trim_end()));
                } else {
                    // move before the opening brace
                    let brace = body[..pos].rfind('{').unwrap();
                    let before = if wrap == 2 {
                        // `{ __vx_clo ..` becomes `<header> { ..`
                        t.trim_end().to_string()
                    } else {
                        format!("\n{}", t.trim_end())
                    };
                    let mid = body[brace..pos].to_string();
                    body.replace_range(brace..end, &format!("{before}\n{mid}"));
                }
            }
        }
    }
    if body.contains("__vx_") { return Err("internal: placeholder left".into()); }
    s.push_str(&body);
    s.push('\n');
    if f.ty.is_some() { s.push_str("}\n"); }
    Ok(s)
}

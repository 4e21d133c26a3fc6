//! Borrow erasure for the handle layer: `Rc<RefCell<X>>` / `Weak<RefCell<X>>`
//! fields, parameters and locals disappear; the cell's content becomes an
//! explicit reference parameter `vx_<component>` of every function that
//! touches it, `.borrow()` / `.borrow_mut()` become uses of that parameter.
//! Handles (types with a Drop impl) that a function owns and does not move are
//! dropped explicitly where their scope ends.
use crate::index::{type_name, FnItem};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt, Type};

#[derive(Default, Clone, Debug)]
pub struct World {
    pub modules: Vec<(String, String)>, // crate, module
    pub cells: Vec<(String, String)>,   // content type, component
}

impl World {
    pub fn on(&self) -> bool { !self.cells.is_empty() }
    pub fn has(&self, krate: &str, module: &str) -> bool { self.modules.iter().any(|(k, m)| k == krate && m == module) }
    /// component and content type, if `t` is (a reference to) a shared cell
    pub fn cell(&self, t: &Type) -> Option<(String, Type)> {
        match t {
            Type::Reference(r) => self.cell(&r.elem),
            Type::Paren(p) => self.cell(&p.elem),
            Type::Path(p) => {
                let s = p.path.segments.last()?;
                if s.ident != "Rc" && s.ident != "Weak" { return None; }
                let a = targs(t);
                let inner = a.first()?;
                if type_name(inner)? != "RefCell" { return None; }
                let x = targs(inner).first()?.clone();
                let n = type_name(&x)?;
                self.cells.iter().find(|c| c.0 == n).map(|c| (c.1.clone(), x))
            }
            _ => None,
        }
    }
}

fn targs(t: &Type) -> Vec<Type> {
    match t {
        Type::Path(p) => match p.path.segments.last().map(|s| s.arguments.clone()) {
            Some(syn::PathArguments::AngleBracketed(a)) => a.args.iter().filter_map(|g| match g { syn::GenericArgument::Type(t) => Some(t.clone()), _ => None }).collect(),
            _ => vec![],
        },
        _ => vec![],
    }
}
fn strip(t: &Type) -> Type { match t { Type::Reference(r) => strip(&r.elem), Type::Paren(p) => strip(&p.elem), t => t.clone() } }

#[derive(Clone, Debug)]
enum Bind { Cell(String), Place(String), Val(Option<Type>) }

/// what a function needs of the world: component -> exclusive?
type Needs = BTreeMap<usize, bool>;
type Key = (Option<String>, String);

struct Info { needs: Needs, ret: Option<Type>, cell_params: Vec<bool>, has_self: bool }

struct Er<'a> {
    w: &'a World,
    fns: &'a HashMap<Key, Info>,
    structs: &'a HashMap<String, Vec<(String, Type)>>,
    droppable: &'a [String],
    ty: Option<String>,
    scopes: Vec<HashMap<String, Bind>>,
    owns: Vec<(usize, String)>,
    needs: Needs,
    fresh: usize,
    module: String,
}

fn ident_of(e: &Expr) -> Option<String> { match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Paren(p) => ident_of(&p.expr), Expr::Group(p) => ident_of(&p.expr), _ => None } }
fn pat_ident(p: &Pat) -> Option<String> { match p { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Type(t) => pat_ident(&t.pat), Pat::Reference(r) => pat_ident(&r.pat), _ => None } }
fn var(c: &str) -> syn::Ident { syn::Ident::new(&format!("vx_{c}"), proc_macro2::Span::call_site()) }

impl<'a> Er<'a> {
    fn look(&self, n: &str) -> Option<&Bind> { self.scopes.iter().rev().find_map(|s| s.get(n)) }
    fn bind(&mut self, n: String, b: Bind) { self.scopes.last_mut().unwrap().insert(n, b); }
    fn comp_index(&self, c: &str) -> usize { self.w.cells.iter().position(|x| x.1 == c).unwrap() }
    fn need(&mut self, c: &str, m: bool) { let k = self.comp_index(c); let e = self.needs.entry(k).or_insert(false); *e = *e || m; }

    /// the component a cell-typed expression refers to
    fn cell(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Paren(p) => self.cell(&p.expr),
            Expr::Reference(r) => self.cell(&r.expr),
            Expr::Path(_) => match self.look(&ident_of(e)?) { Some(Bind::Cell(c)) => Some(c.clone()), _ => None },
            Expr::Field(_) => self.infer_raw(e).and_then(|t| self.w.cell(&t)).map(|x| x.0),
            Expr::MethodCall(m) => {
                if let Some(c) = self.cell(&m.receiver) {
                    return match m.method.to_string().as_str() { "clone" | "upgrade" | "unwrap" | "expect" | "as_ref" => Some(c), _ => None };
                }
                self.infer_raw(e).and_then(|t| self.w.cell(&t)).map(|x| x.0)
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let l: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
                if l.len() == 2 && (l[0] == "Rc" || l[0] == "Weak") && ["downgrade", "clone", "upgrade"].contains(&l[1]) { return self.cell(c.args.first()?); }
                self.infer_raw(e).and_then(|t| self.w.cell(&t)).map(|x| x.0)
            }
            _ => None,
        }
    }
    /// cell.borrow() / cell.borrow_mut(), or a local bound to one
    fn place(&self, e: &Expr) -> Option<(String, bool)> {
        match e {
            Expr::Paren(p) => self.place(&p.expr),
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "borrow" || m.method == "borrow_mut") => self.cell(&m.receiver).map(|c| (c, m.method == "borrow_mut")),
            Expr::Path(_) => match self.look(&ident_of(e)?) { Some(Bind::Place(c)) => Some((c.clone(), false)), _ => None },
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.place(&u.expr),
            Expr::Reference(r) => match &*r.expr { Expr::Unary(_) | Expr::MethodCall(_) | Expr::Path(_) => self.place(&r.expr), _ => None },
            _ => None,
        }
    }
    fn key_of(&self, e: &Expr) -> Option<Key> {
        match e {
            Expr::MethodCall(m) => {
                if self.place(&m.receiver).is_some() { return None; }
                let t = type_name(&strip(&self.infer(&m.receiver)?))?;
                let k = (Some(t), m.method.to_string());
                if self.fns.contains_key(&k) { Some(k) } else { None }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = s.last()?.clone();
                let q = if s.len() >= 2 { Some(s[s.len() - 2].clone()) } else { None };
                let q = if q.as_deref() == Some("Self") { self.ty.clone() } else { q };
                let k = match &q {
                    Some(t) if t.chars().next().unwrap().is_uppercase() => (Some(t.clone()), n),
                    Some(m) => (None, format!("{m}::{n}")),
                    None => {
                        let own = (None, format!("{}::{n}", self.module));
                        if self.fns.contains_key(&own) { own } else { self.fns.keys().find(|k| k.0.is_none() && k.1.ends_with(&format!("::{n}"))).cloned().unwrap_or(own) }
                    }
                };
                if q.is_some() && k.0.is_none() && !self.w.modules.iter().any(|m| Some(&m.1) == q.as_ref()) { return None; }
                if self.fns.contains_key(&k) { Some(k) } else { None }
            }
            _ => None,
        }
    }
    fn subst_self(&self, t: &Type) -> Type {
        if type_name(t).as_deref() == Some("Self") { if let Some(s) = &self.ty { let i = syn::Ident::new(s, proc_macro2::Span::call_site()); return parse_quote!(#i); } }
        t.clone()
    }
    fn infer(&self, e: &Expr) -> Option<Type> { self.infer_raw(e).map(|t| strip(&t)) }
    fn infer_raw(&self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Paren(p) => self.infer_raw(&p.expr),
            Expr::Reference(r) => self.infer_raw(&r.expr),
            Expr::Path(_) => {
                let n = ident_of(e)?;
                if let Some(b) = self.look(&n) { return match b { Bind::Val(t) => t.clone(), _ => None }; }
                if n == "self" { let i = syn::Ident::new(self.ty.as_ref()?, proc_macro2::Span::call_site()); return Some(parse_quote!(#i)); }
                None
            }
            Expr::Field(f) => {
                let t = self.infer(&f.base)?;
                let fs = self.structs.get(&type_name(&t)?)?;
                let n = f.member.to_token_stream().to_string();
                fs.iter().find(|x| x.0 == n).map(|x| x.1.clone())
            }
            Expr::MethodCall(m) => {
                if let Some(k) = self.key_of(e) {
                    let r = self.fns[&k].ret.clone()?;
                    if type_name(&r).as_deref() == Some("Self") { return self.infer(&m.receiver); }
                    return Some(r);
                }
                let t = self.infer(&m.receiver)?;
                match m.method.to_string().as_str() {
                    "clone" => Some(t),
                    "get" | "get_mut" | "first" | "last" | "pop" => { let a = targs(&t).last()?.clone(); Some(parse_quote!(Option<#a>)) }
                    "unwrap" | "expect" => targs(&t).first().cloned(),
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let k = self.key_of(e)?;
                let r = self.fns[&k].ret.clone()?;
                let _ = c;
                if type_name(&r).as_deref() == Some("Self") { if let Some(s) = &k.0 { let i = syn::Ident::new(s, proc_macro2::Span::call_site()); return Some(parse_quote!(#i)); } }
                Some(r)
            }
            Expr::Struct(s) => { let p = s.path.segments.last()?.ident.clone(); let t: Type = parse_quote!(#p); Some(self.subst_self(&t)) }
            Expr::Try(t) => targs(&self.infer(&t.expr)?).first().cloned(),
            Expr::Index(i) => targs(&self.infer(&i.expr)?).first().cloned().or_else(|| match self.infer(&i.expr)? { Type::Slice(s) => Some((*s.elem).clone()), _ => None }),
            Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(x, None)) => self.infer_raw(x), _ => None },
            _ => None,
        }
    }
    fn bind_pat(&mut self, p: &Pat, t: Option<Type>) {
        match p {
            Pat::Ident(i) => { self.bind(i.ident.to_string(), Bind::Val(t)); if let Some((_, s)) = &i.subpat { self.bind_pat(s, None); } }
            Pat::Reference(r) => self.bind_pat(&r.pat, t),
            Pat::Type(x) => { let t = (*x.ty).clone(); self.bind_pat(&x.pat, Some(t)) }
            Pat::TupleStruct(x) => {
                let inner = if x.elems.len() == 1 { t.as_ref().and_then(|t| targs(t).first().cloned()) } else { None };
                for q in &x.elems { self.bind_pat(q, inner.clone()); }
            }
            Pat::Tuple(x) => {
                let ts = match t { Some(Type::Tuple(t)) => t.elems.iter().cloned().map(Some).collect(), _ => vec![None; x.elems.len()] };
                for (k, q) in x.elems.iter().enumerate() { self.bind_pat(q, ts.get(k).cloned().flatten()); }
            }
            Pat::Struct(x) => for f in &x.fields { self.bind_pat(&f.pat, None) },
            Pat::Or(x) => for q in &x.cases { self.bind_pat(q, t.clone()) },
            _ => {}
        }
    }
    fn is_drop(&self, t: &Option<Type>) -> bool { matches!(t, Some(Type::Path(_))) && t.as_ref().and_then(type_name).map(|n| self.droppable.contains(&n)).unwrap_or(false) }
    fn drop_call(&mut self, t: &Type, x: &syn::Ident) -> Option<Stmt> {
        let k = (type_name(t), "drop".to_string());
        let i = self.fns.get(&k)?;
        let needs = i.needs.clone();
        let mut args: Vec<syn::Ident> = vec![];
        for (c, m) in &needs { let n = self.w.cells[*c].1.clone(); self.need(&n, *m); args.push(var(&n)); }
        Some(parse_quote!(#x.drop(#(#args),*);))
    }
    fn add_args(&mut self, k: &Key, args: &mut syn::punctuated::Punctuated<Expr, syn::Token![,]>, has_recv: bool) {
        let info = &self.fns[k];
        // a method called by path carries its receiver as first argument
        let shift = if info.has_self && !has_recv { 1 } else { 0 };
        let mut keep: syn::punctuated::Punctuated<Expr, syn::Token![,]> = Default::default();
        for (i, a) in args.iter().enumerate() {
            let cell = i >= shift && info.cell_params.get(i - shift).copied().unwrap_or(false);
            if !cell { keep.push(a.clone()); }
        }
        let needs = info.needs.clone();
        for x in keep.iter_mut() { self.visit_expr_mut(x); }
        for (c, m) in &needs { let n = self.w.cells[*c].1.clone(); self.need(&n, *m); let v = var(&n); keep.push(parse_quote!(#v)); }
        *args = keep;
    }
}

fn use_place(p: &str) -> Expr { let v = var(p); parse_quote!(#v) }

/// is `name` used in a moving position?
struct Moves<'a>(&'a str, bool);
impl<'a, 'b> syn::visit::Visit<'b> for Moves<'a> {
    fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
        if ident_of(&m.receiver).as_deref() != Some(self.0) { self.visit_expr(&m.receiver); }
        for a in &m.args { self.visit_expr(a); }
    }
    fn visit_expr_field(&mut self, f: &'b syn::ExprField) { if ident_of(&f.base).as_deref() != Some(self.0) { self.visit_expr(&f.base); } }
    fn visit_expr_reference(&mut self, r: &'b syn::ExprReference) { if ident_of(&r.expr).as_deref() != Some(self.0) { self.visit_expr(&r.expr); } }
    // what is assigned to is not moved
    fn visit_expr_assign(&mut self, a: &'b syn::ExprAssign) { if ident_of(&a.left).as_deref() != Some(self.0) { self.visit_expr(&a.left); } self.visit_expr(&a.right); }
    fn visit_expr_path(&mut self, p: &'b syn::ExprPath) { if p.path.is_ident(self.0) { self.1 = true; } }
}

impl<'a> VisitMut for Er<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.scopes.push(HashMap::new());
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let mut owned: Vec<(syn::Ident, Type, usize)> = vec![];
        for mut s in stmts {
            match &mut s {
                Stmt::Local(l) => {
                    let ann = match &l.pat { Pat::Type(t) => Some((*t.ty).clone()), _ => None };
                    if let (Some(n), Some(i)) = (pat_ident(&l.pat), &mut l.init) {
                        if let Some(c) = self.cell(&i.expr) { self.bind(n, Bind::Cell(c)); continue; }
                        if let Some((c, m)) = self.place(&i.expr) { self.need(&c, m); self.bind(n, Bind::Place(c)); continue; }
                        let t = ann.or_else(|| self.infer_raw(&i.expr));
                        let by_ref = matches!(&*i.expr, Expr::Reference(_)) || matches!(t, Some(Type::Reference(_)));
                        // a handle bound by reference (`let x = &..`, `map.get(..).unwrap()`) is not owned
                        let borrowed = by_ref || match &*i.expr { Expr::MethodCall(m) => m.method == "unwrap" || m.method == "expect", Expr::Index(_) | Expr::Path(_) | Expr::Field(_) => true, _ => false };
                        self.visit_expr_mut(&mut i.expr);
                        if let Some((_, d)) = &mut i.diverge { self.visit_expr_mut(d); }
                        let st = t.as_ref().map(strip);
                        if !borrowed && self.is_drop(&st) {
                            if let Pat::Ident(p) = &mut l.pat { p.mutability = Some(Default::default()); owned.push((p.ident.clone(), st.clone().unwrap(), out.len())); self.owns.push((self.scopes.len(), p.ident.to_string())); }
                        }
                        self.bind(n, Bind::Val(t));
                    } else {
                        let t = ann.or_else(|| l.init.as_ref().and_then(|i| self.infer_raw(&i.expr)));
                        if let Some(i) = &mut l.init { self.visit_expr_mut(&mut i.expr); if let Some((_, d)) = &mut i.diverge { self.visit_expr_mut(d); } }
                        let p = l.pat.clone();
                        self.bind_pat(&p, t);
                    }
                    out.push(s);
                }
                Stmt::Expr(Expr::Call(c), _) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "drop").unwrap_or(false)) && c.args.len() == 1 => {
                    let a = c.args.first().unwrap().clone();
                    if self.cell(&a).is_some() || self.place(&a).is_some() { continue; }
                    let t = self.infer(&a);
                    if self.is_drop(&t) {
                        if let Some(n) = ident_of(&a) {
                            owned.retain(|o| o.0 != n);
                            let id = syn::Ident::new(&n, proc_macro2::Span::call_site());
                            if let Some(d) = self.drop_call(&t.unwrap(), &id) { out.push(d); continue; }
                        }
                    }
                    self.visit_stmt_mut(&mut s);
                    out.push(s);
                }
                Stmt::Expr(e, semi) => {
                    // an owned handle that is overwritten is dropped, after the new value is there
                    if let (Expr::Assign(a), true) = (&mut *e, semi.is_some()) {
                        if let Some(n) = ident_of(&a.left) {
                            let t = self.infer_raw(&a.left);
                            let mut m = Moves(&n, false);
                            syn::visit::Visit::visit_expr(&mut m, &a.right);
                            let depth = self.scopes.iter().rposition(|s| s.contains_key(&n)).map(|d| d + 1);
                            if self.is_drop(&t) && !m.1 && depth.map(|d| self.owns.contains(&(d, n.clone()))).unwrap_or(false) {
                                self.visit_expr_mut(&mut a.right);
                                self.fresh += 1;
                                let x = syn::Ident::new(&format!("vx_d{}", self.fresh), proc_macro2::Span::call_site());
                                let id = syn::Ident::new(&n, proc_macro2::Span::call_site());
                                let r = a.right.clone();
                                out.push(parse_quote!(let #x = #r;));
                                if let Some(d) = self.drop_call(&t.unwrap(), &id) { out.push(d); }
                                out.push(parse_quote!(#id = #x;));
                                continue;
                            }
                        }
                    }
                    // a discarded handle is dropped at once
                    let t = self.infer(e);
                    let disc = semi.is_some() && self.is_drop(&t) && matches!(e, Expr::MethodCall(_) | Expr::Call(_));
                    self.visit_expr_mut(e);
                    if disc {
                        self.fresh += 1;
                        let x = syn::Ident::new(&format!("vx_d{}", self.fresh), proc_macro2::Span::call_site());
                        let e = e.clone();
                        out.push(parse_quote!(let mut #x = #e;));
                        if let Some(d) = self.drop_call(&t.unwrap(), &x) { out.push(d); }
                    } else { out.push(s); }
                }
                _ => { self.visit_stmt_mut(&mut s); out.push(s); }
            }
        }
        // handles owned here and not moved are dropped in reverse order
        let mut drops = vec![];
        for (x, t, at) in owned.iter().rev() {
            let n = x.to_string();
            let mut m = Moves(&n, false);
            for s in &out[(*at + 1).min(out.len())..] { syn::visit::Visit::visit_stmt(&mut m, s); }
            if !m.1 { if let Some(d) = self.drop_call(t, x) { drops.push(d); } }
        }
        if !drops.is_empty() {
            match out.last().cloned() {
                Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Return(_)) => {
                    out.pop();
                    out.push(parse_quote!(let vx_tail = #e;));
                    out.extend(drops);
                    out.push(Stmt::Expr(parse_quote!(vx_tail), None));
                }
                Some(Stmt::Expr(Expr::Return(mut r), _)) if r.expr.is_some() => {
                    out.pop();
                    let e = r.expr.take().unwrap();
                    out.push(parse_quote!(let vx_tail = #e;));
                    out.extend(drops);
                    out.push(parse_quote!(return vx_tail;));
                }
                _ => out.extend(drops),
            }
        }
        b.stmts = out;
        self.scopes.pop();
        let depth = self.scopes.len();
        self.owns.retain(|o| o.0 <= depth);
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        // pattern names were bound by the caller in its own scope
        if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
        self.visit_expr_mut(&mut a.body);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // references to a place: an explicit reborrow
        if let Expr::Reference(r) = e {
            let inner = match &*r.expr { Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => (*u.expr).clone(), x => x.clone() };
            if let Some((c, m)) = self.place(&inner) {
                let mu = r.mutability.is_some();
                self.need(&c, m || mu);
                let v = var(&c);
                *e = if mu { parse_quote!(&mut *#v) } else { parse_quote!(&*#v) };
                return;
            }
        }
        if let Some((c, m)) = self.place(e) {
            self.need(&c, m);
            *e = use_place(&c);
            return;
        }
        // if let Some(g) = cell.upgrade() { .. }: the manager is alive
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                if let Some(c) = self.cell(&l.expr) {
                    self.scopes.push(HashMap::new());
                    if let Pat::TupleStruct(t) = &*l.pat { if let Some(n) = t.elems.first().and_then(pat_ident) { self.bind(n, Bind::Cell(c)); } }
                    let mut b = i.then_branch.clone();
                    self.visit_block_mut(&mut b);
                    self.scopes.pop();
                    *e = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b });
                    return;
                }
                let t = self.infer(&l.expr);
                let pat = (*l.pat).clone();
                self.visit_expr_mut(&mut i.cond);
                self.scopes.push(HashMap::new());
                self.bind_pat(&pat, t);
                self.visit_block_mut(&mut i.then_branch);
                self.scopes.pop();
                if let Some((_, x)) = &mut i.else_branch { self.visit_expr_mut(x); }
                return;
            }
        }
        match e {
            Expr::Match(m) => {
                let t = self.infer(&m.expr);
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    self.scopes.push(HashMap::new());
                    let p = a.pat.clone();
                    self.bind_pat(&p, t.clone());
                    self.visit_arm_mut(a);
                    self.scopes.pop();
                }
            }
            Expr::While(w) => {
                self.scopes.push(HashMap::new());
                if let Expr::Let(l) = &*w.cond { let t = self.infer(&l.expr); let p = (*l.pat).clone(); self.bind_pat(&p, t); }
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                self.scopes.pop();
            }
            Expr::ForLoop(f) => {
                let t = self.infer(&f.expr).and_then(|t| match t { Type::Slice(s) => Some((*s.elem).clone()), t => if targs(&t).len() == 1 { targs(&t).first().cloned() } else { None } });
                self.visit_expr_mut(&mut f.expr);
                self.scopes.push(HashMap::new());
                let p = (*f.pat).clone();
                self.bind_pat(&p, t);
                self.visit_block_mut(&mut f.body);
                self.scopes.pop();
            }
            Expr::Closure(c) => {
                self.scopes.push(HashMap::new());
                for p in c.inputs.clone().iter() { self.bind_pat(p, None); }
                self.visit_expr_mut(&mut c.body);
                self.scopes.pop();
            }
            Expr::MethodCall(_) => {
                if let Some(k) = self.key_of(e) {
                    // a temporary handle as receiver lives until the end of the call
                    let rt = match &*e { Expr::MethodCall(m) if matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Call(_)) => { let t = self.infer_raw(&m.receiver); if self.is_drop(&t) { t } else { None } } _ => None };
                    let Expr::MethodCall(m) = e else { unreachable!() };
                    self.visit_expr_mut(&mut m.receiver);
                    let mut a = std::mem::take(&mut m.args);
                    self.add_args(&k, &mut a, true);
                    m.args = a;
                    if let Some(t) = rt {
                        self.fresh += 1;
                        let x = syn::Ident::new(&format!("vx_h{}", self.fresh), proc_macro2::Span::call_site());
                        let r = syn::Ident::new(&format!("vx_hr{}", self.fresh), proc_macro2::Span::call_site());
                        let recv = (*m.receiver).clone();
                        *m.receiver = parse_quote!(#x);
                        let call = m.clone();
                        if let Some(d) = self.drop_call(&t, &x) { *e = parse_quote!({ let mut #x = #recv; let #r = #call; #d #r }); }
                    }
                } else { visit_mut::visit_expr_mut(self, e) }
            }
            Expr::Call(_) => {
                if let Some(k) = self.key_of(e) {
                    let Expr::Call(c) = e else { unreachable!() };
                    let mut a = std::mem::take(&mut c.args);
                    self.add_args(&k, &mut a, false);
                    c.args = a;
                } else { visit_mut::visit_expr_mut(self, e) }
            }
            Expr::Struct(s) => {
                let n = s.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
                let n = if n == "Self" { self.ty.clone().unwrap_or_default() } else { n };
                let Some(fs) = self.structs.get(&n).cloned() else { visit_mut::visit_expr_mut(self, e); return };
                let mut pre: Vec<Stmt> = vec![];
                let mut keep: syn::punctuated::Punctuated<syn::FieldValue, syn::Token![,]> = Default::default();
                for mut f in s.fields.clone() {
                    let fname = f.member.to_token_stream().to_string();
                    let cell = fs.iter().find(|x| x.0 == fname).and_then(|x| self.w.cell(&x.1)).map(|x| x.0);
                    match cell {
                        None => { self.visit_expr_mut(&mut f.expr); f.colon_token = Some(Default::default()); keep.push(f); }
                        Some(c) => {
                            // Rc::new(RefCell::new(E)) creates the cell
                            if let Some(mut x) = fresh_cell(&f.expr) {
                                self.visit_expr_mut(&mut x);
                                self.need(&c, true);
                                let v = var(&c);
                                pre.push(parse_quote!(*#v = #x;));
                            }
                        }
                    }
                }
                s.fields = keep;
                if !pre.is_empty() { let s2 = s.clone(); *e = parse_quote!({ #(#pre)* #s2 }); }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

// a free function is known by its module too
fn fkey(f: &FnItem) -> Key { match &f.ty { Some(_) => (f.ty.clone(), f.sig.ident.to_string()), None => (None, format!("{}::{}", f.module, f.sig.ident)) } }
fn fresh_cell(e: &Expr) -> Option<Expr> {
    let Expr::Call(c) = e else { return None };
    let n = c.func.to_token_stream().to_string().replace(' ', "");
    if n.ends_with("Rc::new") { let Expr::Call(d) = c.args.first()? else { return None }; let m = d.func.to_token_stream().to_string().replace(' ', ""); if m.ends_with("RefCell::new") { return d.args.first().cloned(); } }
    None
}

/// Erase the cells from all functions of the world's modules.
/// `matches!(e, p)` as the match it stands for, so that what it names is erased too
struct Matches;
impl VisitMut for Matches {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Macro(m) = e else { return };
        if m.mac.path.segments.last().map(|s| s.ident != "matches").unwrap_or(true) { return; }
        let parsed = m.mac.parse_body_with(|i: syn::parse::ParseStream| {
            let a: Expr = i.parse()?;
            let _: syn::Token![,] = i.parse()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g: Option<Expr> = if i.peek(syn::Token![if]) { let _: syn::Token![if] = i.parse()?; Some(i.parse()?) } else { None };
            let _: Option<syn::Token![,]> = i.parse()?;
            Ok((a, p, g))
        });
        if let Ok((a, p, g)) = parsed {
            *e = match g { Some(g) => parse_quote!(match #a { #p if #g => true, _ => false }), None => parse_quote!(match #a { #p => true, _ => false }) };
            self.visit_expr_mut(e);
        }
    }
}

pub fn erase(w: &World, structs: &HashMap<String, Vec<(String, Type)>>, all: &mut Vec<FnItem>) {
    for f in all.iter_mut().filter(|f| w.has(&f.krate, &f.module)) { Matches.visit_block_mut(&mut f.block); }
    let droppable: Vec<String> = all.iter().filter(|f| f.sig.ident == "drop" && f.ty.is_some() && w.has(&f.krate, &f.module)).filter_map(|f| f.ty.clone()).collect();
    let mut fns: HashMap<Key, Info> = HashMap::new();
    for f in all.iter().filter(|f| w.has(&f.krate, &f.module)) {
        let ret = match &f.sig.output { syn::ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
        let cell_params = f.sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => Some(w.cell(&t.ty).is_some()), _ => None }).collect();
        fns.insert(fkey(f), Info { needs: Needs::new(), ret, cell_params, has_self: f.has_self });
    }
    let mut done: Vec<(usize, Block, Needs)>;
    loop {
        done = vec![];
        let mut changed = false;
        let mut upd = vec![];
        for (i, f) in all.iter().enumerate() {
            if !w.has(&f.krate, &f.module) { continue; }
            let mut er = Er { w, fns: &fns, structs, droppable: &droppable, ty: f.ty.clone(), scopes: vec![HashMap::new()], owns: vec![], needs: Needs::new(), fresh: 0, module: f.module.clone() };
            for a in &f.sig.inputs {
                if let syn::FnArg::Typed(t) = a {
                    if let Some(n) = pat_ident(&t.pat) {
                        let b = match w.cell(&t.ty) { Some((c, _)) => Bind::Cell(c), None => Bind::Val(Some(er.subst_self(&strip(&t.ty)))) };
                        er.bind(n, b);
                    }
                }
            }
            let mut b = f.block.clone();
            er.visit_block_mut(&mut b);
            let k = fkey(f);
            if fns[&k].needs != er.needs { changed = true; }
            upd.push((k, er.needs.clone()));
            done.push((i, b, er.needs));
        }
        for (k, n) in upd { fns.get_mut(&k).unwrap().needs = n; }
        if !changed { break; }
    }
    for (i, b, needs) in done {
        let f = &mut all[i];
        f.block = b;
        f.sig.inputs = f.sig.inputs.iter().filter(|a| match a { syn::FnArg::Typed(t) => w.cell(&t.ty).is_none(), _ => true }).cloned().collect();
        for (c, m) in &needs {
            let v = var(&w.cells[*c].1);
            let t: syn::Ident = syn::Ident::new(&w.cells[*c].0, proc_macro2::Span::call_site());
            f.sig.inputs.push(if *m { parse_quote!(#v: &mut #t) } else { parse_quote!(#v: &#t) });
        }
        // a function that only hands out the cell has nothing left to return
        if let syn::ReturnType::Type(_, t) = &f.sig.output { if w.cell(t).is_some() { f.sig.output = syn::ReturnType::Default; f.block = parse_quote!({}); } }
    }
    let _ = quote!();
}

//! String handling: tokens, literal patterns, byte slices and `ok_or(..)?`
//! are rewritten to calls with (trusted) contracts over character sequences.
use proc_macro2::TokenStream;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Lit, Pat, Stmt, Type};

pub struct Strs { scopes: Vec<Vec<String>>, lists: Vec<String>, fresh: usize }

fn ident_of(e: &Expr) -> Option<String> { match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Paren(p) => ident_of(&p.expr), _ => None } }
fn is_lit(e: &Expr) -> bool { matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_))) }
fn is_str_ty(t: &Type) -> bool { match t { Type::Reference(r) => is_str_ty(&r.elem), Type::Path(p) => p.path.is_ident("str"), _ => false } }
fn lits(p: &Pat) -> Option<Vec<Expr>> {
    match p {
        Pat::Lit(l) => match &l.lit { Lit::Str(_) => Some(vec![Expr::Lit(l.clone())]), _ => None },
        Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(lits(c)?); } Some(v) }
        Pat::Paren(p) => lits(&p.pat),
        _ => None,
    }
}

impl Strs {
    pub fn run(b: &mut Block, params: Vec<String>) { let mut s = Strs { scopes: vec![params], lists: vec![], fresh: 0 }; s.visit_block_mut(b); }
    pub fn params(sig: &syn::Signature) -> Vec<String> {
        sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) if is_str_ty(&t.ty) => ident_of_pat(&t.pat), _ => None }).collect()
    }
    fn is_str(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_str(&p.expr),
            Expr::Lit(_) => is_lit(e),
            Expr::Path(_) => ident_of(e).map(|n| self.scopes.iter().any(|s| s.contains(&n))).unwrap_or(false),
            Expr::Reference(r) => match &*r.expr { Expr::Index(i) => matches!(&*i.index, Expr::Range(_)) && self.is_str(&i.expr), x => self.is_str(x) },
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "as_str" | "trim") && self.is_str(&m.receiver),
            Expr::Call(c) => { let f = c.func.to_token_stream().to_string(); f == "vx_slice" || f == "vx_strip_pre" }
            _ => false,
        }
    }
    fn bind(&mut self, n: String) { self.scopes.last_mut().unwrap().push(n); }
}
fn ident_of_pat(p: &Pat) -> Option<String> { match p { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Type(t) => ident_of_pat(&t.pat), Pat::Reference(r) => ident_of_pat(&r.pat), _ => None } }
fn l_init(s: &Stmt) -> Option<Expr> { match s { Stmt::Local(l) => l.init.as_ref().map(|i| (*i.expr).clone()), _ => None } }
fn tokens_of(e: &Expr) -> Option<Expr> {
    match e { Expr::MethodCall(m) if m.method == "split_whitespace" && m.args.is_empty() => { let r = &m.receiver; Some(parse_quote!(vx_words(#r))) } _ => None }
}

impl VisitMut for Strs {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.scopes.push(vec![]);
        for s in b.stmts.iter_mut() {
            if let Stmt::Local(l) = s {
                let n = ident_of_pat(&l.pat);
                let is = l.init.as_ref().map(|i| self.is_str(&i.expr)).unwrap_or(false);
                self.visit_stmt_mut(s);
                if let (Some(n), Some(i)) = (&n, &l_init(s)) { if matches!(i, Expr::Call(c) if c.func.to_token_stream().to_string() == "vx_words") { self.lists.push(n.clone()); } }
                if let (Some(n), true) = (n, is) { self.bind(n); }
                continue;
            }
            self.visit_stmt_mut(s);
        }
        self.scopes.pop();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // tokens
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" { if let Some(x) = tokens_of(&m.receiver) { *e = x; return; } }
            if m.method == "next" && tokens_of(&m.receiver).is_some() { visit_mut::visit_expr_mut(self, e); return; }
        }
        if let Some(x) = tokens_of(e) { *e = x; return; }
        // x.ok_or(m)? / x.ok_or_else(|| m)?
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = &*t.expr {
                let msg: Option<Expr> = match (m.method.to_string().as_str(), m.args.first()) {
                    ("ok_or", Some(a)) => Some(a.clone()),
                    ("ok_or_else", Some(Expr::Closure(c))) if c.inputs.is_empty() => Some((*c.body).clone()),
                    _ => None,
                };
                if let Some(mut a) = msg {
                    let mut r = (*m.receiver).clone();
                    self.visit_expr_mut(&mut r);
                    self.visit_expr_mut(&mut a);
                    if is_lit(&a) { a = parse_quote!(#a.to_string()); }
                    *e = parse_quote!(match #r { Some(vx_ok) => vx_ok, None => return Err(#a) });
                    return;
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            let base = match &*f.expr { Expr::Reference(r) => (*r.expr).clone(), Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") => (*m.receiver).clone(), x => x.clone() };
            let words = tokens_of(&f.expr).is_some() || ident_of(&base).map(|n| self.lists.contains(&n)).unwrap_or(false);
            let n = ident_of_pat(&f.pat);
            self.visit_expr_mut(&mut f.expr);
            self.scopes.push(if words { n.into_iter().collect() } else { vec![] });
            self.visit_block_mut(&mut f.body);
            self.scopes.pop();
            return;
        }
        if let Expr::Match(m) = e {
            if m.arms.iter().any(|a| lits(&a.pat).is_some()) {
                self.fresh += 1;
                let k = syn::Ident::new(&format!("vx_s{}", self.fresh), proc_macro2::Span::call_site());
                let scrut = (*m.expr).clone();
                let simple = ident_of(&scrut).is_some();
                let subj: Expr = if simple { scrut.clone() } else { parse_quote!(#k) };
                let mut chain: Option<Expr> = None;
                let mut arms = m.arms.clone();
                for a in arms.iter_mut().rev() {
                    let mut name = None;
                    let cond: Option<Expr> = match (&a.pat, lits(&a.pat)) {
                        (_, Some(l)) => { let t: Vec<Expr> = l.iter().map(|x| parse_quote!(vx_str_eq(#subj, #x))).collect(); Some(t.into_iter().reduce(|x, y| parse_quote!(#x || #y)).unwrap()) }
                        (Pat::Wild(_), _) => None,
                        (Pat::Ident(i), _) if i.subpat.is_none() => { name = Some(i.ident.clone()); None }
                        _ => { visit_mut::visit_expr_mut(self, e); return; }
                    };
                    self.scopes.push(name.iter().map(|n| n.to_string()).collect());
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
                    self.visit_expr_mut(&mut a.body);
                    self.scopes.pop();
                    let body = &a.body;
                    let body: Block = match (&name, &**body) {
                        (Some(n), _) => parse_quote!({ let #n = #subj; #body }),
                        (None, Expr::Block(b)) if b.label.is_none() => b.block.clone(),
                        _ => parse_quote!({ #body }),
                    };
                    let guard: Option<Expr> = a.guard.as_ref().map(|(_, g)| match &name { Some(n) => { let s = subj.to_token_stream(); syn::parse2(crate::tx::subst(g.to_token_stream(), &n.to_string(), &s)).unwrap_or_else(|_| (**g).clone()) } None => (**g).clone() });
                    let c: Option<Expr> = match (cond, guard) { (Some(c), Some(g)) => Some(parse_quote!((#c) && (#g))), (Some(c), None) => Some(c), (None, g) => g };
                    chain = Some(match (c, chain) {
                        (None, _) => Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: body }),
                        (Some(c), Some(rest)) => parse_quote!(if #c #body else #rest),
                        (Some(c), None) => parse_quote!(if #c #body else { vx_unreachable() }),
                    });
                }
                let c = chain.unwrap();
                *e = if simple { c } else { parse_quote!({ let #k = #scrut; #c }) };
                return;
            }
        }
        if let Expr::Binary(b) = e {
            let eq = matches!(b.op, syn::BinOp::Eq(_));
            if (eq || matches!(b.op, syn::BinOp::Ne(_))) && (is_lit(&b.left) || is_lit(&b.right)) {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                *e = if eq { parse_quote!(vx_str_eq(#l, #r)) } else { parse_quote!(!vx_str_eq(#l, #r)) };
                return;
            }
        }
        if let Expr::Reference(r) = e {
            if let Expr::Index(i) = &*r.expr {
                if let Expr::Range(g) = &*i.index {
                    if self.is_str(&i.expr) && matches!(g.limits, syn::RangeLimits::HalfOpen(_)) {
                        let mut s = (*i.expr).clone();
                        let mut a: Expr = g.start.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| parse_quote!(0));
                        let mut z: Expr = g.end.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| parse_quote!(#s.len()));
                        self.visit_expr_mut(&mut a);
                        self.visit_expr_mut(&mut z);
                        self.visit_expr_mut(&mut s);
                        *e = parse_quote!(vx_slice(#s, #a, #z));
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "ok_or_else" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() {
                        let (mut r, mut b) = ((*m.receiver).clone(), (*c.body).clone());
                        self.visit_expr_mut(&mut r);
                        self.visit_expr_mut(&mut b);
                        *e = parse_quote!(match #r { Some(vx_ok) => Ok(vx_ok), None => Err(#b) });
                        return;
                    }
                }
            }
            let known = self.is_str(&m.receiver);
            let lit = m.args.first().map(is_lit).unwrap_or(false);
            let f: Option<&str> = match (m.method.to_string().as_str(), m.args.len()) {
                ("len", 0) if known => Some("vx_blen"),
                ("is_empty", 0) if known => Some("vx_str_is_empty"),
                ("starts_with", 1) if known && lit => Some("vx_starts_with"),
                ("ends_with", 1) if known && lit => Some("vx_ends_with"),
                ("strip_prefix", 1) if lit => Some("vx_strip_pre"),
                ("strip_suffix", 1) if lit => Some("vx_strip_suf"),
                ("eq", 1) if known && lit => Some("vx_str_eq"),
                ("parse", 0) if m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string() == "i32").unwrap_or(false) => Some("vx_parse_i32"),
                _ => None,
            };
            if let Some(f) = f {
                let f = syn::Ident::new(f, proc_macro2::Span::call_site());
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                let (r, a) = (&m.receiver, &m.args);
                *e = if a.is_empty() { parse_quote!(#f(#r)) } else { parse_quote!(#f(#r, #a)) };
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let _: TokenStream = TokenStream::new();
    }
}

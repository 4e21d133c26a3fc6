// ---------------------------------------------------------------- reverse Polish expressions over multi-state variables
pub mod mr { use super::*;
pub use mh::*;
broadcast use {numax::axiom_num, numax::axiom_num_eq};
pub enum Ex { B(bool), I(int), V(Seq<char>), Op(BinOp, Box<Ex>, Box<Ex>), Not(Box<Ex>), Ite(Box<Ex>, Box<Ex>, Box<Ex>) }
// the state of every variable
pub type Env = spec_fn(Seq<char>) -> int;
// does an expression stand for a value (or for a truth value)
pub open spec fn vsort(e: Ex) -> bool decreases e {
    match e { Ex::B(_) => false, Ex::I(_) => true, Ex::V(_) => true, Ex::Op(k, _, _) => k is V, Ex::Not(_) => false, Ex::Ite(_, x, _) => vsort(*x) }
}
// the value (for truth values: 0 or 1) of an expression when the variables are in the states env says; None where it has none (division by zero, operands of the wrong kind)
pub open spec fn value(e: Ex, env: Env) -> Option<int> decreases e {
    match e {
        Ex::B(b) => Some(b2i(b)),
        Ex::I(v) => Some(v),
        Ex::V(s) => Some(env(s)),
        Ex::Op(k, x, y) => match (value(*x, env), value(*y, env)) { (Some(u), Some(v)) => apply2(k, vsort(*x), vsort(*y), u, v), _ => None },
        Ex::Not(x) => match value(*x, env) { Some(u) => if vsort(*x) { None } else { Some(1 - u) }, None => None },
        Ex::Ite(c, x, y) => match value(*c, env) { Some(u) => if vsort(*c) || vsort(*x) != vsort(*y) { None } else if u == 1 { value(*x, env) } else { value(*y, env) }, None => None },
    }
}
pub open spec fn apply2(k: BinOp, sx: bool, sy: bool, u: int, v: int) -> Option<int> {
    match k {
        BinOp::V(MtMddOperation::Add) => if sx && sy { Some(u + v) } else { None },
        BinOp::V(MtMddOperation::Sub) => if sx && sy { Some(u - v) } else { None },
        BinOp::V(MtMddOperation::Mul) => if sx && sy { Some(imul(u, v)) } else { None },
        BinOp::V(MtMddOperation::Div) => if sx && sy && v != 0 { Some(tdiv(u, v)) } else { None },
        BinOp::V(MtMddOperation::Min) => if sx && sy { Some(if u < v { u } else { v }) } else { None },
        BinOp::V(MtMddOperation::Max) => if sx && sy { Some(max(u, v)) } else { None },
        BinOp::V(_) => None,
        BinOp::B(MddOperation::And) => if !sx && !sy { Some(b2i(u == 1 && v == 1)) } else { None },
        BinOp::B(MddOperation::Or) => if !sx && !sy { Some(b2i(u == 1 || v == 1)) } else { None },
        BinOp::B(_) => None,
        BinOp::C(c) => if (sx && sy) || ((c is Eq || c is Ne) && !sx && !sy) { Some(b2i(cmpv(c, u, v))) } else { None },
    }
}
pub proof fn lemma_value01(e: Ex, env: Env)
    ensures !vsort(e) ==> (value(e, env) matches Some(u) ==> is01(u))
    decreases e
{ match e { Ex::Not(x) => { lemma_value01(*x, env); }, Ex::Ite(c, x, y) => { lemma_value01(*x, env); lemma_value01(*y, env); }, _ => {} } }
// the meaning of the notation, token by token: operands on a stack, saved operands by name
pub struct St { pub stack: Seq<Ex>, pub saved: IMap<Seq<char>, Ex> }
pub open spec fn push1(st: St, e: Ex) -> Option<St> { Some(St { stack: st.stack.push(e), saved: st.saved }) }
pub open spec fn push2(st: St, k: BinOp) -> Option<St> {
    let n = st.stack.len() as int;
    if n < 2 { None } else { Some(St { stack: st.stack.take(n - 2).push(Ex::Op(k, Box::new(st.stack[n - 2]), Box::new(st.stack[n - 1]))), saved: st.saved }) }
}
pub open spec fn is_save(t: Seq<char>) -> bool { has_prefix(t, "save("@) && has_suffix(t, ")"@) }
pub open spec fn is_load(t: Seq<char>) -> bool { has_prefix(t, "load("@) && has_suffix(t, ")"@) }
pub open spec fn inner(t: Seq<char>) -> Seq<char> { t.subrange(5, t.len() - 1) }
pub open spec fn opof(t: Seq<char>) -> Option<BinOp> {
    if t == "+"@ { Some(BinOp::V(MtMddOperation::Add)) }
    else if t == "-"@ { Some(BinOp::V(MtMddOperation::Sub)) }
    else if t == "*"@ { Some(BinOp::V(MtMddOperation::Mul)) }
    else if t == "/"@ { Some(BinOp::V(MtMddOperation::Div)) }
    else if t == "min"@ { Some(BinOp::V(MtMddOperation::Min)) }
    else if t == "max"@ { Some(BinOp::V(MtMddOperation::Max)) }
    else if t == "=="@ { Some(BinOp::C(Cmp::Eq)) }
    else if t == "!="@ { Some(BinOp::C(Cmp::Ne)) }
    else if t == "<"@ { Some(BinOp::C(Cmp::Lt)) }
    else if t == "<="@ { Some(BinOp::C(Cmp::Le)) }
    else if t == ">"@ { Some(BinOp::C(Cmp::Gt)) }
    else if t == ">="@ { Some(BinOp::C(Cmp::Ge)) }
    else if t == "&&"@ { Some(BinOp::B(MddOperation::And)) }
    else if t == "||"@ { Some(BinOp::B(MddOperation::Or)) }
    else { None }
}
pub open spec fn step(st: St, t: Seq<char>) -> Option<St> {
    let n = st.stack.len() as int;
    if opof(t) is Some { push2(st, opof(t)->Some_0) }
    else if t == "!"@ { if n < 1 { None } else { Some(St { stack: st.stack.take(n - 1).push(Ex::Not(Box::new(st.stack[n - 1]))), saved: st.saved }) } }
    else if t == "?"@ { if n < 3 { None } else { Some(St { stack: st.stack.take(n - 3).push(Ex::Ite(Box::new(st.stack[n - 3]), Box::new(st.stack[n - 2]), Box::new(st.stack[n - 1]))), saved: st.saved }) } }
    else if t == "True"@ { push1(st, Ex::B(true)) }
    else if t == "False"@ { push1(st, Ex::B(false)) }
    else if is_save(t) { if n < 1 { None } else { Some(St { stack: st.stack, saved: st.saved.insert(inner(t), st.stack[n - 1]) }) } }
    else if is_load(t) { if st.saved.dom().contains(inner(t)) { push1(st, st.saved[inner(t)]) } else { None } }
    else if as_int(t) is Some { push1(st, Ex::I(as_int(t)->Some_0)) }
    else { push1(st, Ex::V(t)) }
}
pub open spec fn is_var(t: Seq<char>) -> bool { opof(t) is None && t != "!"@ && t != "?"@ && t != "True"@ && t != "False"@ && !is_save(t) && !is_load(t) && as_int(t) is None }
pub open spec fn run(ws: Seq<Seq<char>>, i: int) -> Option<St> decreases i {
    if i <= 0 { Some(St { stack: Seq::empty(), saved: IMap::empty() }) } else { match run(ws, i - 1) { Some(st) => step(st, ws[i - 1]), None => None } }
}
// the expression a text spells, if it is well-formed
pub open spec fn parse(text: Seq<char>) -> Option<Ex> {
    match run(words(text), words(text).len() as int) { Some(st) => if st.stack.len() == 1 { Some(st.stack[0]) } else { None }, None => None }
}
pub proof fn lemma_run_none(ws: Seq<Seq<char>>, i: int, j: int)
    requires 0 <= i <= j, run(ws, i) is None
    ensures run(ws, j) is None
    decreases j - i
{ if i < j { lemma_run_none(ws, i, j - 1); } }
// documented panics: a name that is not declared; and branches of different kinds
pub open spec fn step_ok(st: St, t: Seq<char>, vars: IMap<Seq<char>, usize>) -> bool {
    let n = st.stack.len() as int;
    &&& is_var(t) ==> vars.dom().contains(t) && 0 < vars[t] <= i32::MAX
    &&& t == "?"@ && n >= 3 ==> vsort(st.stack[n - 2]) == vsort(st.stack[n - 1])
}
pub open spec fn text_ok(ws: Seq<Seq<char>>, vars: IMap<Seq<char>, usize>) -> bool { forall|i: int| 0 <= i < ws.len() ==> (#[trigger] run(ws, i) matches Some(st) ==> step_ok(st, ws[i], vars)) }
// ---------------------------------------------------------------- nodes that stand for expressions
pub type Nm = spec_fn(int) -> Seq<char>;
// nm names the levels, env gives every declared variable one of its states
pub open spec fn agrees(nm: Nm, env: Env, b: &MtMdd2Manager) -> bool { forall|i: int| 0 <= i < b.mtmdd.headers@.len() ==> nm(i) == (#[trigger] b.mtmdd.headers@[i]).label@ && 0 <= env(nm(i)) < b.mtmdd.headers@[i].edge_num }
pub open spec fn asg(nm: Nm, env: Env) -> Asg { |l: int| env(nm(l)) }
pub open spec fn code(e: Ex, v: int) -> int { if vsort(e) { enc(v) } else { v } }
// node n is the function e spells, whatever the variables' states
#[verifier::opaque]
pub open spec fn rep(b: &MtMdd2Manager, n: Node, e: Ex) -> bool {
    &&& b.live(n) && (n is Value <==> vsort(e))
    &&& forall|nm: Nm, env: Env| #![trigger b.ev(n, asg(nm, env))] agrees(nm, env, b) ==> (value(e, env) matches Some(v) ==> b.ev(n, asg(nm, env)) == code(e, v))
}
pub open spec fn stk(b: &MtMdd2Manager, ns: Seq<Node>, es: Seq<Ex>) -> bool { ns.len() == es.len() && forall|i: int| 0 <= i < ns.len() ==> rep(b, #[trigger] ns[i], es[i]) }
pub open spec fn svd(b: &MtMdd2Manager, ns: IMap<Seq<char>, Node>, es: IMap<Seq<char>, Ex>) -> bool { ns.dom() == es.dom() && forall|s: Seq<char>| #[trigger] ns.dom().contains(s) ==> rep(b, ns[s], es[s]) }
pub proof fn lemma_agrees(nm: Nm, env: Env, b: &MtMdd2Manager, b2: &MtMdd2Manager)
    requires agrees(nm, env, b2), hpre(b, b2)
    ensures agrees(nm, env, b)
{ assert forall|i: int| 0 <= i < b.mtmdd.headers@.len() implies nm(i) == (#[trigger] b.mtmdd.headers@[i]).label@ && 0 <= env(nm(i)) < b.mtmdd.headers@[i].edge_num by { assert(b2.mtmdd.headers@[i] == b.mtmdd.headers@[i]); } }
pub proof fn lemma_rep_more(b: &MtMdd2Manager, b2: &MtMdd2Manager, n: Node, e: Ex)
    requires more(b, b2), rep(b, n, e)
    ensures rep(b2, n, e)
{
    reveal(rep);
    assert forall|nm: Nm, env: Env| #![trigger b2.ev(n, asg(nm, env))] agrees(nm, env, b2) implies (value(e, env) matches Some(v) ==> b2.ev(n, asg(nm, env)) == code(e, v)) by {
        lemma_agrees(nm, env, b, b2);
        assert(b2.ev(n, asg(nm, env)) == b.ev(n, asg(nm, env)));
    }
}
pub proof fn lemma_rep_surv(b: &MtMdd2Manager, b2: &MtMdd2Manager, m: Pins, n: Node, e: Ex)
    requires surv(b, b2, m), m.dom().contains(n), rep(b, n, e)
    ensures rep(b2, n, e)
{
    reveal(rep); reveal(surv);
    assert forall|nm: Nm, env: Env| #![trigger b2.ev(n, asg(nm, env))] agrees(nm, env, b2) implies (value(e, env) matches Some(v) ==> b2.ev(n, asg(nm, env)) == code(e, v)) by {
        lemma_agrees(nm, env, b, b2);
        assert(b2.ev(n, asg(nm, env)) == b.ev(n, asg(nm, env)));
    }
}
pub proof fn lemma_rep_op(b: &MtMdd2Manager, k: BinOp, f: Node, x: Ex, g: Node, y: Ex, r: Node)
    requires bin_ok(b, k, f, g, r), b.live(r), rep(b, f, x), rep(b, g, y)
    ensures rep(b, r, Ex::Op(k, Box::new(x), Box::new(y)))
{
    reveal(rep);
    let e = Ex::Op(k, Box::new(x), Box::new(y));
    assert forall|nm: Nm, env: Env| #![trigger b.ev(r, asg(nm, env))] agrees(nm, env, b) implies (value(e, env) matches Some(v) ==> b.ev(r, asg(nm, env)) == code(e, v)) by {
        let a = asg(nm, env);
        if value(e, env) is Some {
            let u = value(x, env)->Some_0; let v = value(y, env)->Some_0;
            assert(b.ev(f, a) == code(x, u) && b.ev(g, a) == code(y, v));
            lemma_value01(x, env); lemma_value01(y, env);
            assert(b.ev(r, a) == b.ev(r, a));
        }
    }
}
pub proof fn lemma_rep_not(b: &MtMdd2Manager, f: Node, x: Ex, r: Node)
    requires not_ok(b, f, r), b.live(r), rep(b, f, x)
    ensures rep(b, r, Ex::Not(Box::new(x)))
{
    reveal(rep);
    let e = Ex::Not(Box::new(x));
    assert forall|nm: Nm, env: Env| #![trigger b.ev(r, asg(nm, env))] agrees(nm, env, b) implies (value(e, env) matches Some(v) ==> b.ev(r, asg(nm, env)) == code(e, v)) by {
        let a = asg(nm, env);
        if value(e, env) is Some { assert(b.ev(f, a) == code(x, value(x, env)->Some_0)); lemma_value01(x, env); assert(b.ev(r, a) == b.ev(r, a)); }
    }
}
pub proof fn lemma_rep_ite(b: &MtMdd2Manager, f: Node, c: Ex, g: Node, x: Ex, h: Node, y: Ex, r: Node)
    requires tern_ok(b, f, g, h, r), b.live(r), rep(b, f, c), rep(b, g, x), rep(b, h, y)
    ensures rep(b, r, Ex::Ite(Box::new(c), Box::new(x), Box::new(y)))
{
    reveal(rep);
    let e = Ex::Ite(Box::new(c), Box::new(x), Box::new(y));
    assert forall|nm: Nm, env: Env| #![trigger b.ev(r, asg(nm, env))] agrees(nm, env, b) implies (value(e, env) matches Some(v) ==> b.ev(r, asg(nm, env)) == code(e, v)) by {
        let a = asg(nm, env);
        if value(e, env) is Some {
            assert(b.ev(f, a) == code(c, value(c, env)->Some_0)); lemma_value01(c, env);
            assert(b.ev(g, a) == b.ev(g, a) && b.ev(h, a) == b.ev(h, a) && b.ev(r, a) == b.ev(r, a));
        }
    }
}
pub proof fn lemma_rep_var(b: &MtMdd2Manager, s: Seq<char>, n: Node)
    requires var_ok(b, s, n)
    ensures rep(b, n, Ex::V(s))
{
    reveal(rep); reveal(var_at);
    let i = choose|i: int| 0 <= i < b.mtmdd.headers@.len() && (#[trigger] b.mtmdd.headers@[i]).label@ == s && var_at(b, i, n);
    assert forall|nm: Nm, env: Env| #![trigger b.ev(n, asg(nm, env))] agrees(nm, env, b) implies (value(Ex::V(s), env) matches Some(v) ==> b.ev(n, asg(nm, env)) == code(Ex::V(s), v)) by {
        assert(nm(i) == b.mtmdd.headers@[i].label@);
        assert(b.ev(n, asg(nm, env)) == enc(ix(b.mtmdd.headers@[i].edge_num as int, asg(nm, env)(i))));
    }
}
pub proof fn lemma_rep_const(b: &MtMdd2Manager, n: Node, e: Ex, z: int)
    requires b.live(n), n is Value <==> vsort(e), e is B || e is I, forall|a: Asg| #[trigger] b.ev(n, a) == z, z == (match e { Ex::B(x) => b2i(x), Ex::I(v) => enc(v), _ => 0 })
    ensures rep(b, n, e)
{ reveal(rep); }
// what the steps of the interpreter do to the nodes
pub proof fn lemma_rpn()
    ensures
        forall|b: MtMdd2Manager, b2: MtMdd2Manager, n: Node, e: Ex| #![trigger rep(&b, n, e), b2.ext(&b)] b2.ext(&b) && rep(&b, n, e) ==> rep(&b2, n, e),
        forall|b: MtMdd2Manager, b2: MtMdd2Manager, n: Node, e: Ex| #![trigger rep(&b, n, e), more(&b, &b2)] more(&b, &b2) && rep(&b, n, e) ==> rep(&b2, n, e),
        forall|b: MtMdd2Manager, k: BinOp, f: Node, x: Ex, g: Node, y: Ex, r: Node| #![trigger bin_ok(&b, k, f, g, r), rep(&b, f, x), rep(&b, g, y)] bin_ok(&b, k, f, g, r) && b.live(r) && rep(&b, f, x) && rep(&b, g, y) ==> rep(&b, r, Ex::Op(k, Box::new(x), Box::new(y))),
        forall|b: MtMdd2Manager, f: Node, x: Ex, r: Node| #![trigger not_ok(&b, f, r), rep(&b, f, x)] not_ok(&b, f, r) && b.live(r) && rep(&b, f, x) ==> rep(&b, r, Ex::Not(Box::new(x))),
        forall|b: MtMdd2Manager, f: Node, c: Ex, g: Node, x: Ex, h: Node, y: Ex, r: Node| #![trigger tern_ok(&b, f, g, h, r), rep(&b, f, c), rep(&b, g, x), rep(&b, h, y)] tern_ok(&b, f, g, h, r) && b.live(r) && rep(&b, f, c) && rep(&b, g, x) && rep(&b, h, y) ==> rep(&b, r, Ex::Ite(Box::new(c), Box::new(x), Box::new(y))),
        forall|b: MtMdd2Manager, n: Node, v: bool| #![trigger rep(&b, n, Ex::B(v))] b.live(n) && n is Bool && (forall|a: Asg| #[trigger] b.ev(n, a) == b2i(v)) ==> rep(&b, n, Ex::B(v)),
        forall|b: MtMdd2Manager, n: Node, v: int| #![trigger rep(&b, n, Ex::I(v))] b.live(n) && n is Value && (forall|a: Asg| #[trigger] b.ev(n, a) == enc(v)) ==> rep(&b, n, Ex::I(v)),
        forall|b: MtMdd2Manager, s: Seq<char>, n: Node| #[trigger] var_ok(&b, s, n) ==> rep(&b, n, Ex::V(s)),
        forall|b: MtMdd2Manager, n: Node, e: Ex| #[trigger] rep(&b, n, e) ==> b.live(n) && (n is Value <==> vsort(e)),
        forall|b: MtMdd2Manager, b2: MtMdd2Manager, m: Pins, n: Node, e: Ex| #![trigger rep(&b, n, e), surv(&b, &b2, m)] rep(&b, n, e) && surv(&b, &b2, m) && m.dom().contains(n) ==> rep(&b2, n, e),
{
    assert forall|b: MtMdd2Manager, b2: MtMdd2Manager, n: Node, e: Ex| #![trigger rep(&b, n, e), b2.ext(&b)] b2.ext(&b) && rep(&b, n, e) implies rep(&b2, n, e) by { lemma_rep_more(&b, &b2, n, e); }
    assert forall|b: MtMdd2Manager, b2: MtMdd2Manager, n: Node, e: Ex| #![trigger rep(&b, n, e), more(&b, &b2)] more(&b, &b2) && rep(&b, n, e) implies rep(&b2, n, e) by { lemma_rep_more(&b, &b2, n, e); }
    assert forall|b: MtMdd2Manager, k: BinOp, f: Node, x: Ex, g: Node, y: Ex, r: Node| #![trigger bin_ok(&b, k, f, g, r), rep(&b, f, x), rep(&b, g, y)] bin_ok(&b, k, f, g, r) && b.live(r) && rep(&b, f, x) && rep(&b, g, y) implies rep(&b, r, Ex::Op(k, Box::new(x), Box::new(y))) by { lemma_rep_op(&b, k, f, x, g, y, r); }
    assert forall|b: MtMdd2Manager, f: Node, x: Ex, r: Node| #![trigger not_ok(&b, f, r), rep(&b, f, x)] not_ok(&b, f, r) && b.live(r) && rep(&b, f, x) implies rep(&b, r, Ex::Not(Box::new(x))) by { lemma_rep_not(&b, f, x, r); }
    assert forall|b: MtMdd2Manager, f: Node, c: Ex, g: Node, x: Ex, h: Node, y: Ex, r: Node| #![trigger tern_ok(&b, f, g, h, r), rep(&b, f, c), rep(&b, g, x), rep(&b, h, y)] tern_ok(&b, f, g, h, r) && b.live(r) && rep(&b, f, c) && rep(&b, g, x) && rep(&b, h, y) implies rep(&b, r, Ex::Ite(Box::new(c), Box::new(x), Box::new(y))) by { lemma_rep_ite(&b, f, c, g, x, h, y, r); }
    assert forall|b: MtMdd2Manager, n: Node, v: bool| #![trigger rep(&b, n, Ex::B(v))] b.live(n) && n is Bool && (forall|a: Asg| #[trigger] b.ev(n, a) == b2i(v)) implies rep(&b, n, Ex::B(v)) by { lemma_rep_const(&b, n, Ex::B(v), b2i(v)); }
    assert forall|b: MtMdd2Manager, n: Node, v: int| #![trigger rep(&b, n, Ex::I(v))] b.live(n) && n is Value && (forall|a: Asg| #[trigger] b.ev(n, a) == enc(v)) implies rep(&b, n, Ex::I(v)) by { lemma_rep_const(&b, n, Ex::I(v), enc(v)); }
    assert forall|b: MtMdd2Manager, s: Seq<char>, n: Node| #[trigger] var_ok(&b, s, n) implies rep(&b, n, Ex::V(s)) by { lemma_rep_var(&b, s, n); }
    assert forall|b: MtMdd2Manager, n: Node, e: Ex| #[trigger] rep(&b, n, e) implies b.live(n) && (n is Value <==> vsort(e)) by { reveal(rep); }
    assert forall|b: MtMdd2Manager, b2: MtMdd2Manager, m: Pins, n: Node, e: Ex| #![trigger rep(&b, n, e), surv(&b, &b2, m)] rep(&b, n, e) && surv(&b, &b2, m) && m.dom().contains(n) implies rep(&b2, n, e) by { lemma_rep_surv(&b, &b2, m, n, e); }
}
// every node's value is fixed by the states of the declared variables: any assignment of them is one of the above
pub proof fn theorem_env(b: &MtMdd2Manager, n: Node, e: Ex, env: Env)
    requires rep(b, n, e), forall|i: int| 0 <= i < b.mtmdd.headers@.len() ==> 0 <= env((#[trigger] b.mtmdd.headers@[i]).label@) < b.mtmdd.headers@[i].edge_num, value(e, env) is Some
    ensures b.ev(n, asg(|l: int| b.mtmdd.headers@[l].label@, env)) == code(e, value(e, env)->Some_0)
{ reveal(rep); assert(agrees(|l: int| b.mtmdd.headers@[l].label@, env, b)); }
pub open spec fn pins_grow(m: Pins, m2: Pins) -> bool { forall|n: Node| #[trigger] m.dom().contains(n) ==> m2.dom().contains(n) && m2[n] >= m[n] }
pub proof fn lemma_surv2()
    ensures
        forall|b0: MtMdd2Manager, b1: MtMdd2Manager, b2: MtMdd2Manager, m: Pins, m2: Pins| #![trigger surv(&b0, &b1, m), surv(&b1, &b2, m2)] surv(&b0, &b1, m) && surv(&b1, &b2, m2) && pins_grow(m, m2) ==> surv(&b0, &b2, m),
        forall|b0: MtMdd2Manager, b1: MtMdd2Manager, b2: MtMdd2Manager, m: Pins| #![trigger surv(&b0, &b1, m), b2.ext(&b1)] surv(&b0, &b1, m) && b2.ext(&b1) ==> surv(&b0, &b2, m),
{
    reveal(surv);
    assert forall|b0: MtMdd2Manager, b1: MtMdd2Manager, b2: MtMdd2Manager, m: Pins, m2: Pins| #![trigger surv(&b0, &b1, m), surv(&b1, &b2, m2)] surv(&b0, &b1, m) && surv(&b1, &b2, m2) && pins_grow(m, m2) implies surv(&b0, &b2, m) by {
        assert forall|n: Node| #[trigger] m.dom().contains(n) implies b2.live(n) && at(&b2, n) == at(&b0, n) by { assert(m2.dom().contains(n)); }
        assert forall|n: Node, a: Asg| m.dom().contains(n) implies #[trigger] b2.ev(n, a) == b0.ev(n, a) by { assert(m2.dom().contains(n)); assert(b2.ev(n, a) == b1.ev(n, a)); }
    }
    assert forall|b0: MtMdd2Manager, b1: MtMdd2Manager, b2: MtMdd2Manager, m: Pins| #![trigger surv(&b0, &b1, m), b2.ext(&b1)] surv(&b0, &b1, m) && b2.ext(&b1) implies surv(&b0, &b2, m) by {
        assert forall|n: Node| #[trigger] m.dom().contains(n) implies b2.live(n) && at(&b2, n) == at(&b0, n) by { assert(b1.live(n)); }
        assert forall|n: Node, a: Asg| m.dom().contains(n) implies #[trigger] b2.ev(n, a) == b0.ev(n, a) by { assert(b1.live(n)); assert(b2.ev(n, a) == b1.ev(n, a)); }
    }
}
// ---- rpn
// the tokens' spelling
pub proof fn lemma_spell()
    ensures
        forall|t: Seq<char>| #[trigger] has_prefix(t, "save("@) && has_suffix(t, ")"@) ==> blens(t) - 1 >= 5 && on_char(t, 5) && cidx(t, 5) == 5 && on_char(t, blens(t) - 1) && cidx(t, blens(t) - 1) == t.len() - 1,
        forall|t: Seq<char>| #[trigger] has_prefix(t, "load("@) && has_suffix(t, ")"@) ==> blens(t) - 1 >= 5 && on_char(t, 5) && cidx(t, 5) == 5 && on_char(t, blens(t) - 1) && cidx(t, blens(t) - 1) == t.len() - 1,
{
    reveal_strlit("save("); reveal_strlit("load("); reveal_strlit(")");
    assert forall|t: Seq<char>| (#[trigger] has_prefix(t, "save("@) || has_prefix(t, "load("@)) && has_suffix(t, ")"@) implies blens(t) - 1 >= 5 && on_char(t, 5) && cidx(t, 5) == 5 && on_char(t, blens(t) - 1) && cidx(t, blens(t) - 1) == t.len() - 1 by { lemma_spell1(t); }
    assert forall|t: Seq<char>| (#[trigger] has_prefix(t, "load("@)) && has_suffix(t, ")"@) implies blens(t) - 1 >= 5 && on_char(t, 5) && cidx(t, 5) == 5 && on_char(t, blens(t) - 1) && cidx(t, blens(t) - 1) == t.len() - 1 by { lemma_spell1(t); }
}
// different tokens are spelled differently: the order in which they are told apart does not matter
pub open spec fn lit(t: Seq<char>, n: int, a: char, z: char) -> bool { t.len() == n && t[0] == a && t[n - 1] == z }
pub proof fn lemma_lits()
    ensures
        lit("+"@, 1, '+', '+'),
        lit("-"@, 1, '-', '-'),
        lit("*"@, 1, '*', '*'),
        lit("/"@, 1, '/', '/'),
        lit("min"@, 3, 'm', 'n'),
        lit("max"@, 3, 'm', 'x'),
        lit("=="@, 2, '=', '='),
        lit("!="@, 2, '!', '='),
        lit("<"@, 1, '<', '<'),
        lit("<="@, 2, '<', '='),
        lit(">"@, 1, '>', '>'),
        lit(">="@, 2, '>', '='),
        lit("&&"@, 2, '&', '&'),
        lit("||"@, 2, '|', '|'),
        lit("!"@, 1, '!', '!'),
        lit("?"@, 1, '?', '?'),
        lit("True"@, 4, 'T', 'e'),
        lit("False"@, 5, 'F', 'e'),
        forall|t: Seq<char>| #[trigger] has_suffix(t, ")"@) ==> t.len() > 0 && t[t.len() - 1] == ')',
        forall|t: Seq<char>| !(#[trigger] has_prefix(t, "save("@) && has_prefix(t, "load("@)),
{
    reveal_strlit("+");
    reveal_strlit("-");
    reveal_strlit("*");
    reveal_strlit("/");
    reveal_strlit("min");
    reveal_strlit("max");
    reveal_strlit("==");
    reveal_strlit("!=");
    reveal_strlit("<");
    reveal_strlit("<=");
    reveal_strlit(">");
    reveal_strlit(">=");
    reveal_strlit("&&");
    reveal_strlit("||");
    reveal_strlit("!");
    reveal_strlit("?");
    reveal_strlit("True");
    reveal_strlit("False");
    reveal_strlit("save("); reveal_strlit("load("); reveal_strlit(")");
    assert forall|t: Seq<char>| #[trigger] has_suffix(t, ")"@) implies t.len() > 0 && t[t.len() - 1] == ')' by { assert(t.skip(t.len() - 1)[0] == ')'); }
    assert forall|t: Seq<char>| !(#[trigger] has_prefix(t, "save("@) && has_prefix(t, "load("@)) by {
        if has_prefix(t, "save("@) && has_prefix(t, "load("@) { assert(t.take(5)[0] == 's'); assert(t.take(5)[0] == 'l'); }
    }
}
pub proof fn lemma_spell1(t: Seq<char>)
    requires has_prefix(t, "save("@) || has_prefix(t, "load("@), has_suffix(t, ")"@)
    ensures blens(t) - 1 >= 5 && on_char(t, 5) && cidx(t, 5) == 5 && on_char(t, blens(t) - 1) && cidx(t, blens(t) - 1) == t.len() - 1
{
    reveal_strlit("save("); reveal_strlit("load("); reveal_strlit(")");
    let p = t.take(5);
    assert(p.len() == 5);
    assert(t.skip(t.len() - 1)[0] == ')'); assert(t[t.len() - 1] == ')');
    assert(t.take(5)[4] == '('); assert(t[4] == '(');
    assert forall|k: int| 0 <= k < 5 implies cw(#[trigger] t[k]) == 1 by { assert(t.take(5)[k] == t[k]); }
    lemma_cut(t, 5, 1);
}
pub proof fn lemma_more2()
    ensures
        forall|b: MtMdd2Manager, b1: MtMdd2Manager, b2: MtMdd2Manager| #![trigger more(&b, &b1), b2.ext(&b1)] more(&b, &b1) && b2.ext(&b1) ==> more(&b, &b2),
        forall|b: MtMdd2Manager, b1: MtMdd2Manager, b2: MtMdd2Manager| #![trigger more(&b, &b1), more(&b1, &b2)] more(&b, &b1) && more(&b1, &b2) ==> more(&b, &b2),
        forall|b1: MtMdd2Manager, b2: MtMdd2Manager| #[trigger] b2.ext(&b1) ==> more(&b1, &b2) && b2.mtmdd.headers@ == b1.mtmdd.headers@,
        forall|b: MtMdd2Manager| #[trigger] more(&b, &b),
{
    assert forall|b1: MtMdd2Manager, b2: MtMdd2Manager| #[trigger] b2.ext(&b1) implies more(&b1, &b2) && b2.mtmdd.headers@ == b1.mtmdd.headers@ by { assert(b2.mtmdd.ext(&b1.mtmdd)); }
    assert forall|b: MtMdd2Manager, b1: MtMdd2Manager, b2: MtMdd2Manager| #![trigger more(&b, &b1), more(&b1, &b2)] more(&b, &b1) && more(&b1, &b2) implies more(&b, &b2) by { }
}
pub proof fn lemma_vinv_more()
    ensures forall|m: MddMgr, b: MtMdd2Manager, g: GcState| #[trigger] vinv(&m, &b, &g) ==> b.wf() && hinv(&b, &g) && surv(&b, &b, g.roots@),
        forall|m: MddMgr, b: MtMdd2Manager, b2: MtMdd2Manager, g: GcState| #![trigger vinv(&m, &b, &g), b2.ext(&b)] vinv(&m, &b, &g) && b2.ext(&b) && b2.wf() ==> vinv(&m, &b2, &g),
{
    assert forall|m: MddMgr, b: MtMdd2Manager, g: GcState| #[trigger] vinv(&m, &b, &g) implies b.wf() && hinv(&b, &g) && surv(&b, &b, g.roots@) by { reveal(surv); }
    assert forall|m: MddMgr, b: MtMdd2Manager, b2: MtMdd2Manager, g: GcState| #![trigger vinv(&m, &b, &g), b2.ext(&b)] vinv(&m, &b, &g) && b2.ext(&b) && b2.wf() implies vinv(&m, &b2, &g) by {
        assert forall|n: Node| #[trigger] g.roots@.dom().contains(n) implies b2.live(n) && g.roots@[n] >= 1 by { assert(b.live(n)); }
        assert forall|s: Seq<char>| #[trigger] m.vars@.dom().contains(s) implies pins(&g, &m.vars@[s]) && var_ok(&b2, s, m.vars@[s].node) by { assert(var_ok(&b, s, m.vars@[s].node)); lemma_var_more(&b, &b2, s, m.vars@[s].node); }
    }
}
// a declared variable's handle, dropped again: the variable itself stays held
pub proof fn lemma_declared(m0: &MddMgr, b0: &MtMdd2Manager, g0: &GcState, m: &MddMgr, b: &MtMdd2Manager, g: &GcState, s: Seq<char>, n: Node, k: int)
    requires vinv(m0, b0, g0), vinv(m, b, g), roomk(g0.roots@, k + 1), 1 <= k < u32::MAX,
        if m0.vars@.dom().contains(s) { g.roots@ == inc(g0.roots@, n) && m0.vars@[s].node == n } else { g.roots@ == inc(inc(g0.roots@, n), n) }
    ensures forall|g2: GcState| (#[trigger] g2.roots@) == dec1(g.roots@, n) ==> vinv(m, b, &g2) && pins_grow(g0.roots@, g2.roots@) && roomk(g2.roots@, k)
{
    assert forall|g2: GcState| (#[trigger] g2.roots@) == dec1(g.roots@, n) implies vinv(m, b, &g2) && pins_grow(g0.roots@, g2.roots@) && roomk(g2.roots@, k) by {
        if m0.vars@.dom().contains(s) { assert(pins(g0, &m0.vars@[s])); }
        assert(g.roots@[n] >= 2);
        assert(g2.roots@.dom() =~= g.roots@.dom());
        assert forall|t: Seq<char>| #[trigger] m.vars@.dom().contains(t) implies pins(&g2, &m.vars@[t]) && var_ok(b, t, m.vars@[t].node) by { assert(pins(g, &m.vars@[t])); }
    }
}
pub proof fn lemma_vinv_wrap()
    ensures forall|m: MddMgr, b: MtMdd2Manager, b2: MtMdd2Manager, g: GcState, g2: GcState, n: Node| #![trigger vinv(&m, &b, &g), surv(&b, &b2, g2.roots@), inc(g.roots@, n)] vinv(&m, &b, &g) && hinv(&b2, &g2) && g2.roots@ == inc(g.roots@, n) && roomk(g.roots@, 1) && heads(&b, &b2) && surv(&b, &b2, g2.roots@) ==> vinv(&m, &b2, &g2) && surv(&b, &b2, g.roots@) && pins_grow(g.roots@, g2.roots@),
{
    assert forall|m: MddMgr, b: MtMdd2Manager, b2: MtMdd2Manager, g: GcState, g2: GcState, n: Node| #![trigger vinv(&m, &b, &g), surv(&b, &b2, g2.roots@), inc(g.roots@, n)] vinv(&m, &b, &g) && hinv(&b2, &g2) && g2.roots@ == inc(g.roots@, n) && roomk(g.roots@, 1) && heads(&b, &b2) && surv(&b, &b2, g2.roots@) implies vinv(&m, &b2, &g2) && surv(&b, &b2, g.roots@) && pins_grow(g.roots@, g2.roots@) by {
        assert(surv(&b, &b2, g.roots@)) by { reveal(surv); assert forall|k: Node| #[trigger] g.roots@.dom().contains(k) implies g2.roots@.dom().contains(k) by { } }
        assert forall|s: Seq<char>| #[trigger] m.vars@.dom().contains(s) implies pins(&g2, &m.vars@[s]) by { assert(pins(&g, &m.vars@[s])); }
        theorem_vars_survive(&m, &b, &g, &b2, &g2);
    }
}
//@fn mss mdd::MddMgr::rpn
//@args rpn vars vx_mdd vx_gc
    requires vinv(old(self), old(vx_mdd), old(vx_gc)), roomk(old(vx_gc).roots@, words(rpn@).len() as int + 2), words(rpn@).len() + 2 < u32::MAX, old(vx_mdd).mtmdd.headers@.len() + words(rpn@).len() < u32::MAX, text_ok(words(rpn@), vars@)
    ensures vinv(final(self), final(vx_mdd), final(vx_gc)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), pins_grow(old(vx_gc).roots@, final(vx_gc).roots@),
        match r {
            Ok(h) => parse(rpn@) matches Some(e) && rep(final(vx_mdd), h.node, e) && pins(final(vx_gc), &h),
            Err(_) => parse(rpn@) is None,
        }
//@entry
    hide(more); hide(vinv); hide(hinv); hide(MtMdd2Manager::wf); hide(MtMdd2Manager::ext); hide(bin_ok); hide(not_ok); hide(tern_ok);
    proof {
        lemma_hand(); lemma_room(); lemma_surv2(); lemma_rpn(); lemma_spell(); lemma_lits(); lemma_vinv_more(); lemma_vinv_wrap(); lemma_more2(); lemma_keep_all();
        assert forall|i: int| 0 <= i <= words(rpn@).len() && (#[trigger] run(words(rpn@), i)) is None implies run(words(rpn@), words(rpn@).len() as int) is None by { lemma_run_none(words(rpn@), i, words(rpn@).len() as int); }
    }
//@loop 0
    vinv(self, vx_mdd, vx_gc), more(old(vx_mdd), vx_mdd), surv(old(vx_mdd), vx_mdd, old(vx_gc).roots@), pins_grow(old(vx_gc).roots@, vx_gc.roots@), roomk(vx_gc.roots@, words(rpn@).len() + 2 - $i),
    vx_mdd.mtmdd.headers@.len() <= old(vx_mdd).mtmdd.headers@.len() + $i,
    run(words(rpn@), $i as int) matches Some(st) && stk(vx_mdd, stack@, st.stack) && svd(vx_mdd, cache@, st.saved),
//@loopbegin 0
    let ghost m0 = *self; let ghost b0 = *vx_mdd; let ghost g0 = *vx_gc; let ghost k0 = words(rpn@).len() + 2 - ($i + 1);
    let ghost st = run(words(rpn@), $i as int)->Some_0;
    proof { assert(run(words(rpn@), $i + 1) == step(st, words(rpn@)[$i as int])); assert(step_ok(st, words(rpn@)[$i as int], vars@)); }
//@after defvar
    proof { lemma_declared(&m0, &b0, &g0, self, vx_mdd, vx_gc, token@, node.node, k0); }
//@end
}

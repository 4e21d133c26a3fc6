// ---------------------------------------------------------------- reverse Polish expressions
pub enum Ex { K(bool), V(Seq<char>), Op(Operation, Box<Ex>, Box<Ex>), Ite(Box<Ex>, Box<Ex>, Box<Ex>) }
pub type Env = spec_fn(Seq<char>) -> bool;
// the structure function an expression spells: its value when the components work as env says
pub open spec fn value(e: Ex, env: Env) -> int decreases e {
    match e {
        Ex::K(b) => b2i(b),
        Ex::V(s) => b2i(env(s)),
        Ex::Op(k, x, y) => opv(k, value(*x, env), value(*y, env)),
        Ex::Ite(c, x, y) => if value(*c, env) == 1 { value(*x, env) } else { value(*y, env) },
    }
}
pub proof fn lemma_value01(e: Ex, env: Env) ensures is01(value(e, env)) decreases e {
    match e { Ex::Op(k, x, y) => { lemma_value01(*x, env); lemma_value01(*y, env); }, Ex::Ite(c, x, y) => { lemma_value01(*c, env); lemma_value01(*x, env); lemma_value01(*y, env); }, _ => {} }
}
// the meaning of the notation, token by token: operands on a stack, saved operands by name
pub struct St { pub stack: Seq<Ex>, pub saved: IMap<Seq<char>, Ex> }
pub open spec fn push1(st: St, e: Ex) -> Option<St> { Some(St { stack: st.stack.push(e), saved: st.saved }) }
pub open spec fn push2(st: St, k: Operation) -> Option<St> {
    let n = st.stack.len() as int;
    if n < 2 { None } else { Some(St { stack: st.stack.take(n - 2).push(Ex::Op(k, Box::new(st.stack[n - 2]), Box::new(st.stack[n - 1]))), saved: st.saved }) }
}
pub open spec fn not_of(e: Ex) -> Ex { Ex::Op(Operation::Not, Box::new(e), Box::new(Ex::K(false))) }
pub open spec fn is_save(t: Seq<char>) -> bool { has_prefix(t, "save("@) && has_suffix(t, ")"@) }
pub open spec fn is_load(t: Seq<char>) -> bool { has_prefix(t, "load("@) && has_suffix(t, ")"@) }
pub open spec fn inner(t: Seq<char>) -> Seq<char> { t.subrange(5, t.len() - 1) }
pub open spec fn step(st: St, t: Seq<char>) -> Option<St> {
    let n = st.stack.len() as int;
    if t == "0"@ || t == "False"@ { push1(st, Ex::K(false)) }
    else if t == "1"@ || t == "True"@ { push1(st, Ex::K(true)) }
    else if t == "&"@ { push2(st, Operation::And) }
    else if t == "|"@ { push2(st, Operation::Or) }
    else if t == "^"@ { push2(st, Operation::XOr) }
    else if t == "~"@ { if n < 1 { None } else { Some(St { stack: st.stack.take(n - 1).push(not_of(st.stack[n - 1])), saved: st.saved }) } }
    else if t == "?"@ { if n < 3 { None } else { Some(St { stack: st.stack.take(n - 3).push(Ex::Ite(Box::new(st.stack[n - 3]), Box::new(st.stack[n - 2]), Box::new(st.stack[n - 1]))), saved: st.saved }) } }
    else if is_save(t) { if n < 1 { None } else { Some(St { stack: st.stack, saved: st.saved.insert(inner(t), st.stack[n - 1]) }) } }
    else if is_load(t) { if st.saved.dom().contains(inner(t)) { push1(st, st.saved[inner(t)]) } else { None } }
    else { push1(st, Ex::V(t)) }
}
pub open spec fn run(ws: Seq<Seq<char>>, i: int) -> Option<St> decreases i {
    if i <= 0 { Some(St { stack: Seq::empty(), saved: IMap::empty() }) } else { match run(ws, i - 1) { Some(st) => step(st, ws[i - 1]), None => None } }
}
// the expression a text spells, if it is well-formed
pub open spec fn parse(text: Seq<char>) -> Option<Ex> {
    match run(words(text), words(text).len() as int) { Some(st) => if st.stack.len() == 1 { Some(st.stack[0]) } else { None }, None => None }
}
pub proof fn lemma_run_none(ws: Seq<Seq<char>>, i: int, j: int)
    requires 0 <= i <= j, run(ws, i) is None
    ensures run(ws, j) is None
    decreases j - i
{ if i < j { lemma_run_none(ws, i, j - 1); } }
// ---------------------------------------------------------------- nodes that stand for expressions
pub type Nm = spec_fn(int) -> Seq<char>;
pub open spec fn agrees(nm: Nm, b: &BddManager) -> bool { forall|i: int| 0 <= i < b.headers@.len() ==> nm(i) == (#[trigger] b.headers@[i]).label@ }
pub open spec fn asg(nm: Nm, env: Env) -> Asg { |l: int| b2i(env(nm(l))) }
// node n is the structure function of e, whatever the components' states
#[verifier::opaque]
pub open spec fn rep(b: &BddManager, n: int, e: Ex) -> bool {
    b.live(n) && forall|nm: Nm, env: Env| #![trigger eval(b.dag(), n, asg(nm, env))] agrees(nm, b) ==> eval(b.dag(), n, asg(nm, env)) == value(e, env)
}
pub open spec fn more(b: &BddManager, b2: &BddManager) -> bool { ext(b.dag(), b2.dag()) && hpre(b, b2) }
pub open spec fn stk(b: &BddManager, ns: Seq<NodeId>, es: Seq<Ex>) -> bool { ns.len() == es.len() && forall|i: int| 0 <= i < ns.len() ==> rep(b, #[trigger] ns[i] as int, es[i]) }
pub open spec fn svd(b: &BddManager, ns: IMap<Seq<char>, NodeId>, es: IMap<Seq<char>, Ex>) -> bool { ns.dom() == es.dom() && forall|s: Seq<char>| #[trigger] ns.dom().contains(s) ==> rep(b, ns[s] as int, es[s]) }
pub proof fn lemma_rep_more(b: &BddManager, b2: &BddManager, n: int, e: Ex)
    requires b.wf(), b2.wf(), more(b, b2), rep(b, n, e)
    ensures rep(b2, n, e)
{
    reveal(rep);
    assert forall|nm: Nm, env: Env| #![trigger eval(b2.dag(), n, asg(nm, env))] agrees(nm, b2) implies eval(b2.dag(), n, asg(nm, env)) == value(e, env) by {
        assert(agrees(nm, b)) by { assert forall|i: int| 0 <= i < b.headers@.len() implies nm(i) == (#[trigger] b.headers@[i]).label@ by { assert(b2.headers@[i] == b.headers@[i]); } }
        b.lemma_two();
        lemma_eval_same(b.dag(), b2.dag(), n, asg(nm, env));
        assert(eval(b.dag(), n, asg(nm, env)) == value(e, env));
    }
}
pub proof fn lemma_rep_op(b: &BddManager, k: Operation, f: int, x: Ex, g: int, y: Ex, r: int)
    requires apply_ok(b.dag(), k, f, g, r), rep(b, f, x), rep(b, g, y)
    ensures rep(b, r, Ex::Op(k, Box::new(x), Box::new(y)))
{
    reveal(rep);
    assert forall|nm: Nm, env: Env| #![trigger eval(b.dag(), r, asg(nm, env))] agrees(nm, b) implies eval(b.dag(), r, asg(nm, env)) == value(Ex::Op(k, Box::new(x), Box::new(y)), env) by {
        let a = asg(nm, env);
        assert(eval(b.dag(), f, a) == value(x, env) && eval(b.dag(), g, a) == value(y, env));
        lemma_value01(x, env); lemma_value01(y, env);
        assert(val_ok(k, eval(b.dag(), f, a), eval(b.dag(), g, a), eval(b.dag(), r, a)));
    }
}
pub proof fn lemma_rep_ite(b: &BddManager, f: int, c: Ex, g: int, x: Ex, h: int, y: Ex, r: int)
    requires ite_ok(b.dag(), f, g, h, r), rep(b, f, c), rep(b, g, x), rep(b, h, y)
    ensures rep(b, r, Ex::Ite(Box::new(c), Box::new(x), Box::new(y)))
{
    reveal(rep);
    assert forall|nm: Nm, env: Env| #![trigger eval(b.dag(), r, asg(nm, env))] agrees(nm, b) implies eval(b.dag(), r, asg(nm, env)) == value(Ex::Ite(Box::new(c), Box::new(x), Box::new(y)), env) by {
        let a = asg(nm, env);
        assert(eval(b.dag(), f, a) == value(c, env) && eval(b.dag(), g, a) == value(x, env) && eval(b.dag(), h, a) == value(y, env));
        lemma_value01(c, env);
    }
}
pub proof fn lemma_rep_const(b: &BddManager, v: bool)
    requires b.wf()
    ensures rep(b, b2i(v), Ex::K(v))
{
    reveal(rep); reveal(eval);
    b.lemma_base(); b.lemma_two();
}
pub proof fn lemma_rep_var(b: &BddManager, s: Seq<char>, n: int)
    requires b.wf(), var_ok(b, s, n)
    ensures rep(b, n, Ex::V(s))
{
    reveal(rep);
    b.lemma_base(); b.lemma_two();
    let l = b.dag()[n]->N_level;
    assert forall|nm: Nm, env: Env| #![trigger eval(b.dag(), n, asg(nm, env))] agrees(nm, b) implies eval(b.dag(), n, asg(nm, env)) == value(Ex::V(s), env) by {
        let a = asg(nm, env);
        assert(nm(l) == b.headers@[l].label@);
        lemma_nt(b.dag(), n);
        reveal(eval);
        assert(eval(b.dag(), n, a) == eval(b.dag(), sel(seq![0int, 1int], a(l)), a));
    }
}
// what the steps of the interpreter do to the nodes
pub proof fn lemma_rpn()
    ensures
        forall|b: BddManager, b2: BddManager, n: int, e: Ex| #![trigger rep(&b, n, e), b2.ext(&b)] b.wf() && b2.wf() && b2.ext(&b) && rep(&b, n, e) ==> rep(&b2, n, e),
        forall|b: BddManager, b2: BddManager, n: int, e: Ex| #![trigger rep(&b, n, e), hpre(&b, &b2)] b.wf() && b2.wf() && more(&b, &b2) && rep(&b, n, e) ==> rep(&b2, n, e),
        forall|b: BddManager, k: Operation, f: int, x: Ex, g: int, y: Ex, r: int| #![trigger apply_ok(b.dag(), k, f, g, r), rep(&b, f, x), rep(&b, g, y)] apply_ok(b.dag(), k, f, g, r) && rep(&b, f, x) && rep(&b, g, y) ==> rep(&b, r, Ex::Op(k, Box::new(x), Box::new(y))),
        forall|b: BddManager, f: int, x: Ex, r: int| #![trigger apply_ok(b.dag(), Operation::Not, f, 0, r), rep(&b, f, x)] b.wf() && apply_ok(b.dag(), Operation::Not, f, 0, r) && rep(&b, f, x) ==> rep(&b, r, not_of(x)),
        forall|b: BddManager, f: int, c: Ex, g: int, x: Ex, h: int, y: Ex, r: int| #![trigger ite_ok(b.dag(), f, g, h, r), rep(&b, f, c), rep(&b, g, x), rep(&b, h, y)] ite_ok(b.dag(), f, g, h, r) && rep(&b, f, c) && rep(&b, g, x) && rep(&b, h, y) ==> rep(&b, r, Ex::Ite(Box::new(c), Box::new(x), Box::new(y))),
        forall|b: BddManager| #[trigger] b.wf() ==> rep(&b, 0, Ex::K(false)) && rep(&b, 1, Ex::K(true)),
        forall|b: BddManager, s: Seq<char>, n: int| #[trigger] var_ok(&b, s, n) && b.wf() ==> rep(&b, n, Ex::V(s)),
        forall|b: BddManager, n: int, e: Ex| #[trigger] rep(&b, n, e) ==> b.live(n),
        forall|b: BddManager, b2: BddManager, m: Pins, n: int, e: Ex| #![trigger rep(&b, n, e), surv(&b, &b2, m)] b.wf() && b2.wf() && rep(&b, n, e) && surv(&b, &b2, m) && m.dom().contains(n) ==> rep(&b2, n, e),
{
    assert forall|b: BddManager, b2: BddManager, n: int, e: Ex| #![trigger rep(&b, n, e), b2.ext(&b)] b.wf() && b2.wf() && b2.ext(&b) && rep(&b, n, e) implies rep(&b2, n, e) by { lemma_rep_more(&b, &b2, n, e); }
    assert forall|b: BddManager, b2: BddManager, n: int, e: Ex| #![trigger rep(&b, n, e), hpre(&b, &b2)] b.wf() && b2.wf() && more(&b, &b2) && rep(&b, n, e) implies rep(&b2, n, e) by { lemma_rep_more(&b, &b2, n, e); }
    assert forall|b: BddManager, k: Operation, f: int, x: Ex, g: int, y: Ex, r: int| #![trigger apply_ok(b.dag(), k, f, g, r), rep(&b, f, x), rep(&b, g, y)] apply_ok(b.dag(), k, f, g, r) && rep(&b, f, x) && rep(&b, g, y) implies rep(&b, r, Ex::Op(k, Box::new(x), Box::new(y))) by { lemma_rep_op(&b, k, f, x, g, y, r); }
    assert forall|b: BddManager, f: int, x: Ex, r: int| #![trigger apply_ok(b.dag(), Operation::Not, f, 0, r), rep(&b, f, x)] b.wf() && apply_ok(b.dag(), Operation::Not, f, 0, r) && rep(&b, f, x) implies rep(&b, r, not_of(x)) by { lemma_rep_const(&b, false); lemma_rep_op(&b, Operation::Not, f, x, 0, Ex::K(false), r); }
    assert forall|b: BddManager, f: int, c: Ex, g: int, x: Ex, h: int, y: Ex, r: int| #![trigger ite_ok(b.dag(), f, g, h, r), rep(&b, f, c), rep(&b, g, x), rep(&b, h, y)] ite_ok(b.dag(), f, g, h, r) && rep(&b, f, c) && rep(&b, g, x) && rep(&b, h, y) implies rep(&b, r, Ex::Ite(Box::new(c), Box::new(x), Box::new(y))) by { lemma_rep_ite(&b, f, c, g, x, h, y, r); }
    assert forall|b: BddManager| #[trigger] b.wf() implies rep(&b, 0, Ex::K(false)) && rep(&b, 1, Ex::K(true)) by { lemma_rep_const(&b, false); lemma_rep_const(&b, true); }
    assert forall|b: BddManager, s: Seq<char>, n: int| #[trigger] var_ok(&b, s, n) && b.wf() implies rep(&b, n, Ex::V(s)) by { lemma_rep_var(&b, s, n); }
    assert forall|b: BddManager, n: int, e: Ex| #[trigger] rep(&b, n, e) implies b.live(n) by { reveal(rep); }
    assert forall|b: BddManager, b2: BddManager, m: Pins, n: int, e: Ex| #![trigger rep(&b, n, e), surv(&b, &b2, m)] b.wf() && b2.wf() && rep(&b, n, e) && surv(&b, &b2, m) && m.dom().contains(n) implies rep(&b2, n, e) by {
        reveal(rep);
        assert forall|nm: Nm, env: Env| #![trigger eval(b2.dag(), n, asg(nm, env))] agrees(nm, &b2) implies eval(b2.dag(), n, asg(nm, env)) == value(e, env) by {
            assert(agrees(nm, &b)) by { assert forall|i: int| 0 <= i < b.headers@.len() implies nm(i) == (#[trigger] b.headers@[i]).label@ by { assert(b2.headers@[i] == b.headers@[i]); } }
            assert(eval(b.dag(), n, asg(nm, env)) == value(e, env));
        }
    }
}
// every node's value is fixed by the states of the declared variables: any assignment of them is one of the above
pub proof fn theorem_env(b: &BddManager, n: int, e: Ex, env: Env)
    requires rep(b, n, e)
    ensures eval(b.dag(), n, asg(|l: int| b.headers@[l].label@, env)) == value(e, env)
{ reveal(rep); assert(agrees(|l: int| b.headers@[l].label@, b)); }
pub open spec fn pins_grow(m: Pins, m2: Pins) -> bool { forall|n: int| #[trigger] m.dom().contains(n) ==> m2.dom().contains(n) && m2[n] >= m[n] }
pub proof fn lemma_surv2()
    ensures forall|b0: BddManager, b1: BddManager, b2: BddManager, m: Pins, m2: Pins| #![trigger surv(&b0, &b1, m), surv(&b1, &b2, m2)] surv(&b0, &b1, m) && surv(&b1, &b2, m2) && pins_grow(m, m2) ==> surv(&b0, &b2, m)
{
    assert forall|b0: BddManager, b1: BddManager, b2: BddManager, m: Pins, m2: Pins| #![trigger surv(&b0, &b1, m), surv(&b1, &b2, m2)] surv(&b0, &b1, m) && surv(&b1, &b2, m2) && pins_grow(m, m2) implies surv(&b0, &b2, m) by {
        assert(hpre(&b0, &b2)) by { assert forall|i: int| 0 <= i < b0.headers@.len() implies b2.headers@[i] == #[trigger] b0.headers@[i] by { assert(b1.headers@[i] == b0.headers@[i]); } }
        assert forall|n: int| #[trigger] m.dom().contains(n) implies b2.live(n) && b2.dag()[n] == b0.dag()[n] by { assert(m2.dom().contains(n)); }
        assert forall|n: int, a: Asg| m.dom().contains(n) implies #[trigger] eval(b2.dag(), n, a) == eval(b0.dag(), n, a) by { assert(m2.dom().contains(n)); assert(eval(b2.dag(), n, a) == eval(b1.dag(), n, a)); }
    }
}
// the tokens' spelling
pub proof fn lemma_spell()
    ensures
        forall|t: Seq<char>| #[trigger] has_prefix(t, "save("@) && has_suffix(t, ")"@) ==> blens(t) - 1 >= 5 && on_char(t, 5) && cidx(t, 5) == 5 && on_char(t, blens(t) - 1) && cidx(t, blens(t) - 1) == t.len() - 1,
        forall|t: Seq<char>| #[trigger] has_prefix(t, "load("@) && has_suffix(t, ")"@) ==> blens(t) - 1 >= 5 && on_char(t, 5) && cidx(t, 5) == 5 && on_char(t, blens(t) - 1) && cidx(t, blens(t) - 1) == t.len() - 1,
{
    reveal_strlit("save("); reveal_strlit("load("); reveal_strlit(")");
    assert forall|t: Seq<char>| (#[trigger] has_prefix(t, "save("@) || has_prefix(t, "load("@)) && has_suffix(t, ")"@) implies blens(t) - 1 >= 5 && on_char(t, 5) && cidx(t, 5) == 5 && on_char(t, blens(t) - 1) && cidx(t, blens(t) - 1) == t.len() - 1 by { lemma_spell1(t); }
    assert forall|t: Seq<char>| (#[trigger] has_prefix(t, "load("@)) && has_suffix(t, ")"@) implies blens(t) - 1 >= 5 && on_char(t, 5) && cidx(t, 5) == 5 && on_char(t, blens(t) - 1) && cidx(t, blens(t) - 1) == t.len() - 1 by { lemma_spell1(t); }
}
// different tokens are spelled differently: the order in which they are told apart does not matter
pub proof fn lemma_lits()
    ensures "0"@ != "False"@ && "0"@ != "1"@ && "0"@ != "True"@ && "0"@ != "&"@ && "0"@ != "|"@ && "0"@ != "^"@ && "0"@ != "~"@ && "0"@ != "?"@ && "False"@ != "1"@ && "False"@ != "True"@ && "False"@ != "&"@ && "False"@ != "|"@ && "False"@ != "^"@ && "False"@ != "~"@ && "False"@ != "?"@ && "1"@ != "True"@ && "1"@ != "&"@ && "1"@ != "|"@ && "1"@ != "^"@ && "1"@ != "~"@ && "1"@ != "?"@ && "True"@ != "&"@ && "True"@ != "|"@ && "True"@ != "^"@ && "True"@ != "~"@ && "True"@ != "?"@ && "&"@ != "|"@ && "&"@ != "^"@ && "&"@ != "~"@ && "&"@ != "?"@ && "|"@ != "^"@ && "|"@ != "~"@ && "|"@ != "?"@ && "^"@ != "~"@ && "^"@ != "?"@ && "~"@ != "?"@,
        forall|t: Seq<char>| #[trigger] has_suffix(t, ")"@) ==> t != "0"@ && t != "False"@ && t != "1"@ && t != "True"@ && t != "&"@ && t != "|"@ && t != "^"@ && t != "~"@ && t != "?"@,
        forall|t: Seq<char>| !(#[trigger] has_prefix(t, "save("@) && has_prefix(t, "load("@)),
{
    reveal_strlit("0"); reveal_strlit("False"); reveal_strlit("1"); reveal_strlit("True"); reveal_strlit("&"); reveal_strlit("|"); reveal_strlit("^"); reveal_strlit("~"); reveal_strlit("?"); reveal_strlit("save("); reveal_strlit("load("); reveal_strlit(")");
    assert forall|t: Seq<char>| #[trigger] has_suffix(t, ")"@) implies t != "0"@ && t != "False"@ && t != "1"@ && t != "True"@ && t != "&"@ && t != "|"@ && t != "^"@ && t != "~"@ && t != "?"@ by { assert(t.skip(t.len() - 1)[0] == ')'); assert(t[t.len() - 1] == ')'); }
    assert forall|t: Seq<char>| !(#[trigger] has_prefix(t, "save("@) && has_prefix(t, "load("@)) by { assert("save("@[0] == 's'); assert("load("@[0] == 'l'); if has_prefix(t, "save("@) && has_prefix(t, "load("@) { assert(t.take(5)[0] == 's'); assert(t.take(5)[0] == 'l'); } }
    assert("0"@[0] == '0'); assert("False"@[0] == 'F'); assert("1"@[0] == '1'); assert("True"@[0] == 'T'); assert("&"@[0] == '&'); assert("|"@[0] == '|'); assert("^"@[0] == '^'); assert("~"@[0] == '~'); assert("?"@[0] == '?');
}
pub proof fn lemma_spell1(t: Seq<char>)
    requires has_prefix(t, "save("@) || has_prefix(t, "load("@), has_suffix(t, ")"@)
    ensures blens(t) - 1 >= 5 && on_char(t, 5) && cidx(t, 5) == 5 && on_char(t, blens(t) - 1) && cidx(t, blens(t) - 1) == t.len() - 1
{
    reveal_strlit("save("); reveal_strlit("load("); reveal_strlit(")");
    let p = t.take(5);
    assert(p.len() == 5);
    assert(t.skip(t.len() - 1)[0] == ')'); assert(t[t.len() - 1] == ')');
    assert(t.take(5)[4] == '('); assert(t[4] == '(');
    assert forall|k: int| 0 <= k < 5 implies cw(#[trigger] t[k]) == 1 by { assert(t.take(5)[k] == t[k]); }
    lemma_cut(t, 5, 1);
}
//@fn bss bdd::BddMgr::rpn
//@args expr vx_bdd vx_gc
    requires vinv(old(self), old(vx_bdd), old(vx_gc)), roomk(old(vx_gc).roots@, words(expr@).len() as int + 2), words(expr@).len() + 2 < u32::MAX, old(vx_bdd).headers@.len() + words(expr@).len() < u32::MAX
    ensures vinv(final(self), final(vx_bdd), final(vx_gc)), surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), pins_grow(old(vx_gc).roots@, final(vx_gc).roots@),
        match r {
            Ok(h) => parse(expr@) matches Some(e) && rep(final(vx_bdd), h.node as int, e) && pins(final(vx_gc), &h),
            Err(_) => parse(expr@) is None,
        }
//@entry
    proof {
        lemma_hand(); lemma_room(); lemma_surv2(); lemma_rpn(); lemma_spell(); lemma_lits(); lemma_base_all();
        assert forall|i: int| 0 <= i <= words(expr@).len() && (#[trigger] run(words(expr@), i)) is None implies run(words(expr@), words(expr@).len() as int) is None by { lemma_run_none(words(expr@), i, words(expr@).len() as int); }
    }
//@loop 0
    vinv(self, vx_bdd, vx_gc), more(old(vx_bdd), vx_bdd), surv(old(vx_bdd), vx_bdd, old(vx_gc).roots@), pins_grow(old(vx_gc).roots@, vx_gc.roots@), roomk(vx_gc.roots@, words(expr@).len() + 2 - $i),
    vx_bdd.headers@.len() <= old(vx_bdd).headers@.len() + $i,
    run(words(expr@), $i as int) matches Some(st) && stk(vx_bdd, stack@, st.stack) && svd(vx_bdd, cache@, st.saved),
//@loopbegin 0
    let ghost st = run(words(expr@), $i as int)->Some_0;
    proof { assert(run(words(expr@), $i + 1) == step(st, words(expr@)[$i as int])); }
//@end

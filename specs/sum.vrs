// ---------------------------------------------------------------- weighted sums over all states of the variables
// ar(l): number of states of the variable at level l; w(l, c): weight of its state c; g(v): worth of the function value v
pub struct WS { pub ar: spec_fn(int) -> int, pub w: spec_fn(int, int) -> real, pub g: spec_fn(int) -> real }
// sum over all states of the variables at levels below n (the others as in a) of the product of the weights times the worth of id's value
pub open spec fn wsum(d: D, id: int, s: WS, n: int, a: Asg) -> real decreases n, 1int, 0int {
    if n <= 0 { (s.g)(eval(d, id, a)) } else { wsumk(d, id, s, n, (s.ar)(n - 1), a) }
}
// the same, the variable at level n-1 restricted to its first k states
pub open spec fn wsumk(d: D, id: int, s: WS, n: int, k: int, a: Asg) -> real decreases n, 0int, k {
    if n <= 0 || k <= 0 { 0real } else { wsumk(d, id, s, n, k - 1, a) + rmul((s.w)(n - 1, k - 1), wsum(d, id, s, n - 1, with(a, n - 1, k - 1))) }
}
pub open spec fn none() -> Asg { |l: int| 0 }
// the sum over the variables up to the top variable of id
pub open spec fn wval(d: D, id: int, s: WS) -> real { wsum(d, id, s, lv(d, id), none()) }
// weighted sum over the children, each summed over all variables below level n
pub open spec fn ksum(d: D, kids: Seq<int>, s: WS, n: int, k: int) -> real decreases k {
    if k <= 0 { 0real } else { ksum(d, kids, s, n, k - 1) + rmul((s.w)(n, k - 1), wsum(d, kids[k - 1], s, n, none())) }
}
// total weight of the variable at level l
pub open spec fn tot(s: WS, l: int, k: int) -> real decreases k { if k <= 0 { 0real } else { tot(s, l, k - 1) + (s.w)(l, k - 1) } }
pub open spec fn gap(s: WS, lo: int, hi: int) -> real decreases hi - lo { if hi <= lo { 1real } else { rmul(tot(s, hi - 1, (s.ar)(hi - 1)), gap(s, lo, hi - 1)) } }
pub proof fn lemma_eval_agree(d: D, id: int, x: Asg, y: Asg)
    requires dag_ok(d), d.dom().contains(id), forall|l: int| 0 <= l < lv(d, id) ==> #[trigger] x(l) == y(l)
    ensures eval(d, id, x) == eval(d, id, y)
    decreases lv(d, id)
{
    reveal_with_fuel(eval, 1); reveal(dag_ok);
    assert(node_ok(d, id));
    match d[id] { SN::T(_) => {}, SN::N { level, kids } => { lemma_sel(d, id, x(level)); assert(x(level) == y(level)); lemma_eval_agree(d, sel(kids, x(level)), x, y); } }
}
pub open spec fn agree(x: Asg, y: Asg, lo: int, hi: int) -> bool { forall|l: int| lo <= l < hi ==> #[trigger] x(l) == y(l) }
// f and g take the same value wherever the levels from n on are as in a (for f) and b (for g)
pub open spec fn corr(d: D, f: int, g: int, n: int, h: int, a: Asg, b: Asg) -> bool {
    forall|x: Asg, y: Asg| agree(x, a, n, h) && agree(y, b, n, h) && agree(x, y, 0, n) ==> #[trigger] eval(d, f, x) == #[trigger] eval(d, g, y)
}
pub proof fn lemma_ws_corr(d: D, f: int, g: int, s: WS, n: int, h: int, a: Asg, b: Asg)
    requires corr(d, f, g, n, h, a, b), 0 <= n <= h
    ensures wsum(d, f, s, n, a) == wsum(d, g, s, n, b)
    decreases n, 1int, 0int
{
    if n > 0 { lemma_wsk_corr(d, f, g, s, n, h, (s.ar)(n - 1), a, b); }
    else { assert(agree(a, a, n, h)); assert(agree(b, b, n, h)); assert(agree(a, b, 0, n)); assert(eval(d, f, a) == eval(d, g, b)); }
}
pub proof fn lemma_wsk_corr(d: D, f: int, g: int, s: WS, n: int, h: int, k: int, a: Asg, b: Asg)
    requires corr(d, f, g, n, h, a, b), 0 < n <= h
    ensures wsumk(d, f, s, n, k, a) == wsumk(d, g, s, n, k, b)
    decreases n, 0int, k
{
    if k > 0 {
        lemma_wsk_corr(d, f, g, s, n, h, k - 1, a, b);
        let a2 = with(a, n - 1, k - 1); let b2 = with(b, n - 1, k - 1);
        assert forall|x: Asg, y: Asg| agree(x, a2, n - 1, h) && agree(y, b2, n - 1, h) && agree(x, y, 0, n - 1) implies #[trigger] eval(d, f, x) == #[trigger] eval(d, g, y) by {
            assert(x(n - 1) == a2(n - 1) && y(n - 1) == b2(n - 1));
            assert forall|l: int| n <= l < h implies #[trigger] x(l) == a(l) by { assert(x(l) == a2(l)); }
            assert forall|l: int| n <= l < h implies #[trigger] y(l) == b(l) by { assert(y(l) == b2(l)); }
            assert(agree(x, a, n, h) && agree(y, b, n, h));
            assert forall|l: int| 0 <= l < n implies #[trigger] x(l) == y(l) by {}
            assert(agree(x, y, 0, n));
        }
        lemma_ws_corr(d, f, g, s, n - 1, h, a2, b2);
    }
}
// what lies at or above the top of id does not matter
pub proof fn lemma_ws_indep(d: D, id: int, s: WS, n: int, a: Asg, b: Asg)
    requires dag_ok(d), d.dom().contains(id), 0 <= lv(d, id) <= n
    ensures wsum(d, id, s, n, a) == wsum(d, id, s, n, b)
{
    assert forall|x: Asg, y: Asg| agree(x, a, n, n) && agree(y, b, n, n) && agree(x, y, 0, n) implies #[trigger] eval(d, id, x) == #[trigger] eval(d, id, y) by { lemma_eval_agree(d, id, x, y); }
    lemma_ws_corr(d, id, id, s, n, n, a, b);
}
// a skipped variable multiplies by its total weight
pub proof fn lemma_ws_skip(d: D, id: int, s: WS, n: int, k: int, a: Asg)
    requires dag_ok(d), d.dom().contains(id), 0 <= lv(d, id) < n
    ensures wsumk(d, id, s, n, k, a) == rmul(tot(s, n - 1, k), wsum(d, id, s, n - 1, none())),
        k == (s.ar)(n - 1) ==> wsum(d, id, s, n, a) == rmul(tot(s, n - 1, (s.ar)(n - 1)), wsum(d, id, s, n - 1, none())),
    decreases k
{
    reveal(rmul);
    let z = wsum(d, id, s, n - 1, none());
    if k > 0 {
        lemma_ws_skip(d, id, s, n, k - 1, a);
        lemma_ws_indep(d, id, s, n - 1, with(a, n - 1, k - 1), none());
        let t = tot(s, n - 1, k - 1); let w = (s.w)(n - 1, k - 1);
        assert(t * z + w * z == (t + w) * z) by (nonlinear_arith);
    } else { assert(0real * z == 0real) by (nonlinear_arith); }
}
pub proof fn lemma_ws_gap(d: D, id: int, s: WS, n: int, a: Asg)
    requires dag_ok(d), d.dom().contains(id), 0 <= lv(d, id) <= n
    ensures wsum(d, id, s, n, a) == rmul(gap(s, lv(d, id), n), wval(d, id, s))
    decreases n
{
    reveal(rmul);
    let z = wval(d, id, s);
    if n == lv(d, id) { lemma_ws_indep(d, id, s, n, a, none()); assert(1real * z == z) by (nonlinear_arith); }
    else {
        lemma_ws_skip(d, id, s, n, (s.ar)(n - 1), a); lemma_ws_gap(d, id, s, n - 1, none());
        let t = tot(s, n - 1, (s.ar)(n - 1)); let g = gap(s, lv(d, id), n - 1);
        assert(t * (g * z) == (t * g) * z) by (nonlinear_arith);
    }
}
// the value of a node from its children
pub proof fn lemma_ws_node(d: D, id: int, s: WS, k: int, a: Asg)
    requires dag_ok(d), d.dom().contains(id), d[id] is N, k <= d[id]->kids.len()
    ensures wsumk(d, id, s, lv(d, id), k, a) == ksum(d, d[id]->kids, s, d[id]->level, k),
        k == (s.ar)(d[id]->level) ==> wsum(d, id, s, lv(d, id), a) == ksum(d, d[id]->kids, s, d[id]->level, k)
    decreases k
{
    reveal(dag_ok); assert(node_ok(d, id));
    let x = d[id]->level; let kids = d[id]->kids;
    if k > 0 {
        lemma_ws_node(d, id, s, k - 1, a);
        let c = k - 1; let f = kids[c]; let a2 = with(a, x, c);
        assert(d.dom().contains(f) && 0 <= lv(d, f) <= x);
        assert forall|p: Asg, q: Asg| agree(p, a2, x, x + 1) && agree(q, none(), x, x) && agree(p, q, 0, x) implies #[trigger] eval(d, id, p) == #[trigger] eval(d, f, q) by {
            assert(p(x) == a2(x)); lemma_nt(d, id); assert(eval(d, id, p) == eval(d, f, p)); lemma_eval_agree(d, f, p, q);
        }
        lemma_ws_corr2(d, id, f, s, x, x + 1, x, a2, none());
    }
}
// as lemma_ws_corr with different ranges fixed on the two sides
pub open spec fn corr2(d: D, f: int, g: int, n: int, h: int, h2: int, a: Asg, b: Asg) -> bool {
    forall|x: Asg, y: Asg| agree(x, a, n, h) && agree(y, b, n, h2) && agree(x, y, 0, n) ==> #[trigger] eval(d, f, x) == #[trigger] eval(d, g, y)
}
pub proof fn lemma_ws_corr2(d: D, f: int, g: int, s: WS, n: int, h: int, h2: int, a: Asg, b: Asg)
    requires corr2(d, f, g, n, h, h2, a, b), 0 <= n <= h, n <= h2
    ensures wsum(d, f, s, n, a) == wsum(d, g, s, n, b)
{
    let m = if h > h2 { h } else { h2 };
    assert forall|x: Asg, y: Asg| agree(x, a, n, m) && agree(y, b, n, m) && agree(x, y, 0, n) implies #[trigger] eval(d, f, x) == #[trigger] eval(d, g, y) by { assert(agree(x, a, n, h)); assert(agree(y, b, n, h2)); }
    lemma_ws_corr(d, f, g, s, n, m, a, b);
}
pub proof fn lemma_ws_term(d: D, id: int, s: WS, v: int)
    requires d[id] == SN::T(v)
    ensures wval(d, id, s) == (s.g)(v)
{ reveal_with_fuel(eval, 1); }
// a memo of sums up to the top variable
pub open spec fn cnt_memo(d: D, s: WS, c: IMap<int, Rn>) -> bool { forall|k: int| #[trigger] c.dom().contains(k) ==> d.dom().contains(k) && c[k].v() == wval(d, k, s) }

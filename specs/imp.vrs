// ---------------------------------------------------------------- importance by backward differentiation, for any number of states
pub proof fn lemma_gap1(s: WS, lo: int, hi: int)
    requires forall|l: int| #[trigger] tot(s, l, (s.ar)(l)) == 1real
    ensures gap(s, lo, hi) == 1real
    decreases hi - lo
{ reveal(rmul); if hi > lo { lemma_gap1(s, lo, hi - 1); assert(1real * 1real == 1real) by (nonlinear_arith); } }
pub proof fn lemma_ws_one(d: D, id: int, s: WS, n: int, a: Asg)
    requires dag_ok(d), d.dom().contains(id), 0 <= lv(d, id) <= n, forall|l: int| #[trigger] tot(s, l, (s.ar)(l)) == 1real
    ensures wsum(d, id, s, n, a) == wval(d, id, s)
{ reveal(rmul); lemma_ws_gap(d, id, s, n, a); lemma_gap1(s, lv(d, id), n); assert(1real * wval(d, id, s) == wval(d, id, s)) by (nonlinear_arith); }
pub open spec fn post_node(d: D, r: Seq<NodeId>, i: int) -> bool { d.dom().contains(r[i] as int) && (d[r[i] as int] is N ==> forall|c: int| 0 <= c < d[r[i] as int]->kids.len() ==> earlier(r, i, #[trigger] d[r[i] as int]->kids[c])) }
pub open spec fn earlier(r: Seq<NodeId>, i: int, k: int) -> bool { exists|j: int| 0 <= j < i && #[trigger] r[j] == k }
pub open spec fn post_order(d: D, r: Seq<NodeId>) -> bool { r.no_duplicates() && forall|i: int| 0 <= i < r.len() ==> #[trigger] post_node(d, r, i) }
pub proof fn lemma_post_push(d: D, r: Seq<NodeId>, x: NodeId)
    requires post_order(d, r), d.dom().contains(x as int), !r.contains(x), d[x as int] is N ==> forall|c: int| 0 <= c < d[x as int]->kids.len() ==> r.contains(#[trigger] d[x as int]->kids[c] as usize) && 0 <= d[x as int]->kids[c] <= usize::MAX
    ensures post_order(d, r.push(x))
{
    let q = r.push(x);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] post_node(d, q, i) by {
        if i < r.len() { assert(post_node(d, r, i)); assert(q[i] == r[i]);
            if d[q[i] as int] is N { assert forall|c: int| 0 <= c < d[q[i] as int]->kids.len() implies earlier(q, i, #[trigger] d[q[i] as int]->kids[c]) by { assert(earlier(r, i, d[r[i] as int]->kids[c])); let j = choose|j: int| 0 <= j < i && #[trigger] r[j] == d[r[i] as int]->kids[c]; assert(q[j] == r[j]); } }
        } else { assert(q[i] == x); if d[x as int] is N { assert forall|c: int| 0 <= c < d[x as int]->kids.len() implies earlier(q, i, #[trigger] d[x as int]->kids[c]) by { assert(r.contains(d[x as int]->kids[c] as usize)); let j = choose|j: int| 0 <= j < r.len() && #[trigger] r[j] == d[x as int]->kids[c] as usize; assert(q[j] == r[j]); } } }
    }
    assert(q.no_duplicates());
}
pub open spec fn all_reach(d: D, roots: Seq<usize>, r: Seq<NodeId>) -> bool { forall|i: int| 0 <= i < r.len() ==> reachable(d, roots, #[trigger] r[i] as int) }
pub open spec fn topo(d: D, r: Seq<NodeId>) -> bool { post_order(d, r.reverse()) }
pub open spec fn fix(s: WS, l: int, c: int) -> WS { WS { ar: s.ar, w: |k: int, i: int| if k == l { if i == c { 1real } else { 0real } } else { (s.w)(k, i) }, g: s.g } }
// the sum with the variable at level l fixed to state c+1, less the sum with it fixed to state c
pub open spec fn dif(d: D, id: int, s: WS, l: int, c: int) -> real { wval(d, id, fix(s, l, c + 1)) - wval(d, id, fix(s, l, c)) }
pub proof fn lemma_ws_weights(d: D, id: int, s: WS, t: WS, n: int, a: Asg)
    requires s.ar == t.ar, s.g == t.g, forall|l: int, c: int| 0 <= l < n ==> #[trigger] (s.w)(l, c) == (t.w)(l, c)
    ensures wsum(d, id, s, n, a) == wsum(d, id, t, n, a)
    decreases n, 1int, 0int
{ if n > 0 { lemma_wsk_weights(d, id, s, t, n, (s.ar)(n - 1), a); } }
pub proof fn lemma_wsk_weights(d: D, id: int, s: WS, t: WS, n: int, k: int, a: Asg)
    requires s.ar == t.ar, s.g == t.g, forall|l: int, c: int| 0 <= l < n ==> #[trigger] (s.w)(l, c) == (t.w)(l, c)
    ensures wsumk(d, id, s, n, k, a) == wsumk(d, id, t, n, k, a)
    decreases n, 0int, k
{ if n > 0 && k > 0 { lemma_wsk_weights(d, id, s, t, n, k - 1, a); lemma_ws_weights(d, id, s, t, n - 1, with(a, n - 1, k - 1)); assert((s.w)(n - 1, k - 1) == (t.w)(n - 1, k - 1)); } }
pub proof fn lemma_dif_above(d: D, id: int, s: WS, l: int, c: int)
    requires dag_ok(d), d.dom().contains(id), l >= lv(d, id)
    ensures dif(d, id, s, l, c) == 0real
{ lemma_ws_weights(d, id, fix(s, l, c + 1), fix(s, l, c), lv(d, id), none()); }
pub open spec fn gv(g: IMap<int, Rn>, k: int) -> real { if g.dom().contains(k) { g[k].v() } else { 0real } }
pub open spec fn owed(d: D, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, s: WS, l: int, c: int) -> real decreases o.len() - pos {
    if pos < 0 || pos >= o.len() { 0real } else { rmul(gv(g, o[pos] as int), dif(d, o[pos] as int, s, l, c)) + owed(d, o, pos + 1, g, s, l, c) }
}
pub proof fn lemma_owed_miss(d: D, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, s: WS, l: int, c: int, k: int, x: Rn)
    requires forall|j: int| pos <= j < o.len() ==> #[trigger] o[j] != k
    ensures owed(d, o, pos, g.insert(k, x), s, l, c) == owed(d, o, pos, g, s, l, c)
    decreases o.len() - pos
{ if 0 <= pos < o.len() { lemma_owed_miss(d, o, pos + 1, g, s, l, c, k, x); assert(o[pos] != k); } }
pub proof fn lemma_owed_hit(d: D, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, s: WS, l: int, c: int, k: int, x: Rn, at: int)
    requires 0 <= pos <= at < o.len(), o[at] == k, o.no_duplicates()
    ensures owed(d, o, pos, g.insert(k, x), s, l, c) == owed(d, o, pos, g, s, l, c) + rmul(x.v() - gv(g, k), dif(d, k, s, l, c))
    decreases o.len() - pos
{
    if pos == at {
        assert forall|j: int| pos + 1 <= j < o.len() implies #[trigger] o[j] != k by {}
        lemma_owed_miss(d, o, pos + 1, g, s, l, c, k, x);
        reveal(rmul);
        let z = dif(d, k, s, l, c); let u = gv(g, k); let v = x.v();
        assert(v * z == u * z + (v - u) * z) by (nonlinear_arith);
    } else { lemma_owed_hit(d, o, pos + 1, g, s, l, c, k, x, at); assert(o[pos] != k); }
}
pub proof fn lemma_owed_none(d: D, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, s: WS, l: int, c: int)
    requires g == IMap::<int, Rn>::empty()
    ensures owed(d, o, pos, g, s, l, c) == 0real
    decreases o.len() - pos
{ reveal(rmul); if 0 <= pos < o.len() { lemma_owed_none(d, o, pos + 1, g, s, l, c); let z = dif(d, o[pos] as int, s, l, c); assert(0real * z == 0real) by (nonlinear_arith); } }
pub open spec fn topo_node(d: D, o: Seq<NodeId>, i: int) -> bool { d.dom().contains(o[i] as int) && (d[o[i] as int] is N ==> forall|c: int| 0 <= c < d[o[i] as int]->kids.len() ==> later(o, i, #[trigger] d[o[i] as int]->kids[c])) }
pub open spec fn later(o: Seq<NodeId>, i: int, k: int) -> bool { exists|j: int| i < j < o.len() && #[trigger] o[j] == k }
pub proof fn lemma_topo(d: D, o: Seq<NodeId>)
    requires topo(d, o)
    ensures o.no_duplicates(), forall|i: int| 0 <= i < o.len() ==> #[trigger] topo_node(d, o, i)
{
    let r = o.reverse(); let n = o.len() as int;
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies o[i] != o[j] by { assert(r[n - 1 - i] == o[i] && r[n - 1 - j] == o[j]); }
    assert forall|i: int| 0 <= i < n implies #[trigger] topo_node(d, o, i) by {
        let p = n - 1 - i; assert(r[p] == o[i]); assert(post_node(d, r, p));
        if d[o[i] as int] is N { assert forall|c: int| 0 <= c < d[o[i] as int]->kids.len() implies later(o, i, #[trigger] d[o[i] as int]->kids[c]) by {
            assert(earlier(r, p, d[r[p] as int]->kids[c])); let j = choose|j: int| 0 <= j < p && #[trigger] r[j] == d[r[p] as int]->kids[c]; assert(o[n - 1 - j] == r[j]);
        } }
    }
}
pub proof fn lemma_dist(w: real, x: real, y: real)
    ensures rmul(w, x + y) == rmul(w, x) + rmul(w, y)
{ reveal(rmul); assert(w * (x + y) == w * x + w * y) by (nonlinear_arith); }
pub proof fn lemma_assoc(w: real, x: real, y: real)
    ensures rmul(w, rmul(x, y)) == rmul(rmul(w, x), y)
{ reveal(rmul); assert(w * (x * y) == (w * x) * y) by (nonlinear_arith); }
pub proof fn lemma_r0(w: real)
    ensures rmul(w, 0real) == 0real
{ reveal(rmul); assert(w * 0real == 0real) by (nonlinear_arith); }
pub proof fn lemma_alg(w: real, q: real, p: real, da: real, db: real, e: real)
    ensures rmul(w, rmul(q, da) + rmul(p, db) + e) == rmul(rmul(w, q), da) + rmul(rmul(w, p), db) + rmul(w, e)
{ lemma_dist(w, rmul(q, da) + rmul(p, db), e); lemma_dist(w, rmul(q, da), rmul(p, db)); lemma_assoc(w, q, da); lemma_assoc(w, p, db); }
pub proof fn lemma_topo_closed(d: D, o: Seq<NodeId>, root: NodeId, id: int, p: Seq<int>)
    requires topo(d, o), o.contains(root), reach(d, seq![root], id, p)
    ensures 0 <= id <= usize::MAX, o.contains(id as usize)
    decreases p.len()
{
    lemma_topo(d, o);
    let q = p.drop_last();
    if q.len() > 0 {
        let u = q.last(); let n = p.len() - 2;
        assert(p[n] == u); assert(p[n + 1] == id);
        assert forall|i: int| 0 <= i < q.len() - 1 implies (#[trigger] d[q[i]]) is N && d[q[i]]->kids.contains(q[i + 1]) by { assert(d[p[i]] is N && d[p[i]]->kids.contains(p[i + 1])); }
        lemma_topo_closed(d, o, root, u, q);
        assert(d[p[n]] is N && d[p[n]]->kids.contains(p[n + 1]));
        let i = o.index_of(u as usize); assert(topo_node(d, o, i));
        let c = d[u]->kids.index_of(id); assert(d[u]->kids[c] == id); assert(later(o, i, d[o[i] as int]->kids[c]));
        let j = choose|j: int| i < j < o.len() && #[trigger] o[j] == id; assert(o[j] == id as usize);
    } else { assert(p[0] == id); assert(seq![root].contains(p[0] as usize)); let i = seq![root].index_of(p[0] as usize); assert(i == 0); }
}
// children weighted, each up to its own top variable
pub open spec fn vsum(d: D, kids: Seq<int>, s: WS, n: int, k: int) -> real decreases k {
    if k <= 0 { 0real } else { vsum(d, kids, s, n, k - 1) + rmul((s.w)(n, k - 1), wval(d, kids[k - 1], s)) }
}
pub open spec fn dsum(d: D, kids: Seq<int>, s: WS, n: int, k: int, l: int, c: int) -> real decreases k {
    if k <= 0 { 0real } else { dsum(d, kids, s, n, k - 1, l, c) + rmul((s.w)(n, k - 1), dif(d, kids[k - 1], s, l, c)) }
}
pub open spec fn sums1(s: WS) -> bool { forall|l: int| #[trigger] tot(s, l, (s.ar)(l)) == 1real }
pub proof fn lemma_ksum_one(d: D, kids: Seq<int>, s: WS, n: int, k: int)
    requires dag_ok(d), sums1(s), k <= kids.len(), forall|c: int| 0 <= c < kids.len() ==> d.dom().contains(#[trigger] kids[c]) && 0 <= lv(d, kids[c]) <= n
    ensures ksum(d, kids, s, n, k) == vsum(d, kids, s, n, k)
    decreases k
{ if k > 0 { lemma_ksum_one(d, kids, s, n, k - 1); lemma_ws_one(d, kids[k - 1], s, n, none()); } }
pub proof fn lemma_vnode(d: D, id: int, s: WS)
    requires dag_ok(d), sums1(s), d.dom().contains(id), d[id] is N, (s.ar)(d[id]->level) == d[id]->kids.len()
    ensures wval(d, id, s) == vsum(d, d[id]->kids, s, d[id]->level, d[id]->kids.len() as int)
{ reveal(dag_ok); assert(node_ok(d, id)); lemma_ws_node(d, id, s, d[id]->kids.len() as int, none()); lemma_ksum_one(d, d[id]->kids, s, d[id]->level, d[id]->kids.len() as int); }
pub proof fn lemma_tot_fix(s: WS, l: int, c: int, k: int)
    requires 0 <= k
    ensures tot(fix(s, l, c), l, k) == (if 0 <= c < k { 1real } else { 0real })
    decreases k
{ if k > 0 { lemma_tot_fix(s, l, c, k - 1); } }
pub proof fn lemma_tot_other(s: WS, l: int, c: int, x: int, k: int)
    requires x != l
    ensures tot(fix(s, l, c), x, k) == tot(s, x, k)
    decreases k
{ if k > 0 { lemma_tot_other(s, l, c, x, k - 1); } }
pub proof fn lemma_sums1_fix(s: WS, l: int, c: int)
    requires sums1(s), 0 <= c < (s.ar)(l)
    ensures sums1(fix(s, l, c))
{
    let t = fix(s, l, c);
    assert forall|x: int| #[trigger] tot(t, x, (t.ar)(x)) == 1real by { assert(tot(s, x, (s.ar)(x)) == 1real); if x == l { lemma_tot_fix(s, l, c, (s.ar)(l)); } else { lemma_tot_other(s, l, c, x, (s.ar)(x)); } }
}
// with the variable of the node fixed, the value is that of one child
pub proof fn lemma_vsum_fix(d: D, kids: Seq<int>, s: WS, n: int, c: int, k: int)
    requires 0 <= c, dag_ok(d), 0 <= k <= kids.len(), forall|i: int| 0 <= i < kids.len() ==> d.dom().contains(#[trigger] kids[i]) && 0 <= lv(d, kids[i]) <= n
    ensures vsum(d, kids, fix(s, n, c), n, k) == (if c < k { wval(d, kids[c], s) } else { 0real })
    decreases k
{
    if k > 0 {
        lemma_vsum_fix(d, kids, s, n, c, k - 1);
        let t = fix(s, n, c); let z = wval(d, kids[k - 1], t); let f = kids[k - 1];
        assert(d.dom().contains(f));
        lemma_ws_weights(d, f, t, s, lv(d, f), none());
        reveal(rmul); assert(1real * z == z && 0real * z == 0real) by (nonlinear_arith);
    }
}
pub proof fn lemma_vsum_dif(d: D, kids: Seq<int>, s: WS, n: int, l: int, c: int, k: int)
    requires n != l
    ensures vsum(d, kids, fix(s, l, c + 1), n, k) - vsum(d, kids, fix(s, l, c), n, k) == dsum(d, kids, s, n, k, l, c)
    decreases k
{
    if k > 0 {
        lemma_vsum_dif(d, kids, s, n, l, c, k - 1);
        let w = (s.w)(n, k - 1); let a = wval(d, kids[k - 1], fix(s, l, c + 1)); let b = wval(d, kids[k - 1], fix(s, l, c));
        reveal(rmul); assert(w * a - w * b == w * (a - b)) by (nonlinear_arith);
    }
}
pub proof fn lemma_dsum_zero(d: D, kids: Seq<int>, s: WS, n: int, c: int, k: int)
    requires dag_ok(d), 0 <= k <= kids.len(), forall|i: int| 0 <= i < kids.len() ==> d.dom().contains(#[trigger] kids[i]) && 0 <= lv(d, kids[i]) <= n
    ensures dsum(d, kids, s, n, k, n, c) == 0real
    decreases k
{ if k > 0 { lemma_dsum_zero(d, kids, s, n, c, k - 1); assert(d.dom().contains(kids[k - 1])); lemma_dif_above(d, kids[k - 1], s, n, c); lemma_r0((s.w)(n, k - 1)); } }
pub open spec fn jump(d: D, id: int, s: WS, l: int, c: int) -> real { if l == d[id]->level && 0 <= c && c + 1 < d[id]->kids.len() { wval(d, d[id]->kids[c + 1], s) - wval(d, d[id]->kids[c], s) } else { 0real } }
// the difference at a node: what its children owe, and the step at its own variable
pub proof fn lemma_vdif(d: D, id: int, s: WS, l: int, c: int)
    requires dag_ok(d), sums1(s), d.dom().contains(id), d[id] is N, (s.ar)(d[id]->level) == d[id]->kids.len(), 0 <= c, c + 1 < (s.ar)(l)
    ensures dif(d, id, s, l, c) == dsum(d, d[id]->kids, s, d[id]->level, d[id]->kids.len() as int, l, c) + jump(d, id, s, l, c)
{
    reveal(dag_ok); assert(node_ok(d, id));
    let x = d[id]->level; let kids = d[id]->kids; let k = kids.len() as int;
    lemma_sums1_fix(s, l, c); lemma_sums1_fix(s, l, c + 1); lemma_vnode(d, id, fix(s, l, c)); lemma_vnode(d, id, fix(s, l, c + 1));
    if l == x { lemma_vsum_fix(d, kids, s, x, c, k); lemma_vsum_fix(d, kids, s, x, c + 1, k); lemma_dsum_zero(d, kids, s, x, c, k); }
    else { lemma_vsum_dif(d, kids, s, x, l, c, k); }
}

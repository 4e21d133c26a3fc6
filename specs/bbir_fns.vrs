use std::collections::VecDeque;
// ---------------------------------------------------------------- a topological order of the nodes below f
//@item bss bdd_prob::CheckedState
// children come earlier, no node twice
pub open spec fn marks(check: IMap<int, CheckedState>, r: Seq<NodeId>) -> bool { forall|k: usize| (check.dom().contains(k as int) && check[k as int] == CheckedState::Persistent) == #[trigger] r.contains(k) }
pub open spec fn temp(check: IMap<int, CheckedState>, k: int) -> bool { check.dom().contains(k) && check[k] == CheckedState::Temporary }
pub open spec fn visiting(m: BddManager, x: NodeId, c0: IMap<int, CheckedState>, r0: Seq<NodeId>, q0: Seq<NodeId>, c: IMap<int, CheckedState>, r: Seq<NodeId>, q: Seq<NodeId>) -> bool {
    &&& post_order(m.dag(), r)
    &&& marks(c, r)
    &&& forall|k: int| #[trigger] temp(c, k) == (temp(c0, k) || k == x)
    &&& forall|k: int| temp(c0, k) ==> m.dag().dom().contains(k) && lv(m.dag(), k) > m.lvl(x as int)
    &&& r0.len() <= r.len() && forall|k: usize| #[trigger] r0.contains(k) ==> r.contains(k)
    &&& q0.len() <= q.len() && forall|i: int| 0 <= i < q0.len() ==> #[trigger] q[i] == q0[i]
    &&& forall|i: int| q0.len() <= i < q.len() ==> r.contains(#[trigger] q[i])
    &&& forall|roots: Seq<usize>| all_reach(m.dag(), roots, r0) && reachable(m.dag(), roots, x as int) ==> #[trigger] all_reach(m.dag(), roots, r)
}
pub proof fn lemma_reach_pure(d: D, root: usize, id: int, p: Seq<int>)
    requires dag_ok(d), two(d), d.dom().contains(root as int), pure(d, root as int), reach(d, seq![root], id, p)
    ensures pure(d, id), d.dom().contains(id)
    decreases p.len()
{
    let q = p.drop_last();
    if q.len() > 0 {
        let u = q.last();
        assert(q =~= p.take(p.len() - 1)); assert(p[p.len() - 2] == u); assert(p[p.len() - 1] == id); assert(0 <= p.len() - 2 < p.len() - 1);
        assert forall|i: int| 0 <= i < q.len() - 1 implies d[q[i]] is N && (#[trigger] d[q[i]])->kids.contains(q[i + 1]) by { assert(d[p[i]] is N && d[p[i]]->kids.contains(p[i + 1])); }
        lemma_reach_pure(d, root, u, q);
        assert(d[p[p.len() - 2]] is N && d[p[p.len() - 2]]->kids.contains(p[p.len() - 1]));
        lemma_bn(d, u); assert(two1(d, u));
    }
}
pub proof fn lemma_vis_start(m: BddManager, x: NodeId, c0: IMap<int, CheckedState>, r0: Seq<NodeId>, q0: Seq<NodeId>)
    requires m.wf(), m.live(x as int), post_order(m.dag(), r0), marks(c0, r0), !c0.dom().contains(x as int), forall|k: int| temp(c0, k) ==> m.dag().dom().contains(k) && lv(m.dag(), k) > m.lvl(x as int)
    ensures visiting(m, x, c0, r0, q0, c0.insert(x as int, CheckedState::Temporary), r0, q0)
{
    let c = c0.insert(x as int, CheckedState::Temporary);
    assert forall|k: usize| (c.dom().contains(k as int) && c[k as int] == CheckedState::Persistent) == #[trigger] r0.contains(k) by { if k == x {} }
    assert forall|k: int| #[trigger] temp(c, k) == (temp(c0, k) || k == x) by {}
}
pub open spec fn was_visiting(m: BddManager, x: NodeId, c0: IMap<int, CheckedState>, r0: Seq<NodeId>, q0: Seq<NodeId>, c: IMap<int, CheckedState>, c2: IMap<int, CheckedState>, r: Seq<NodeId>, q: Seq<NodeId>) -> bool { visiting(m, x, c0, r0, q0, c, r, q) && c2 == c.insert(x as int, CheckedState::Persistent) }
pub proof fn lemma_vis_end(m: BddManager, x: NodeId, c0: IMap<int, CheckedState>, r0: Seq<NodeId>, q0: Seq<NodeId>, c: IMap<int, CheckedState>, r: Seq<NodeId>, q: Seq<NodeId>)
    requires m.wf(), m.live(x as int), visiting(m, x, c0, r0, q0, c, r, q), !temp(c0, x as int), m.dag()[x as int] is N ==> forall|j: int| 0 <= j < m.dag()[x as int]->kids.len() ==> r.contains(#[trigger] m.dag()[x as int]->kids[j] as usize) && 0 <= m.dag()[x as int]->kids[j] <= usize::MAX
    ensures forall|roots: Seq<usize>| all_reach(m.dag(), roots, r0) && reachable(m.dag(), roots, x as int) ==> #[trigger] all_reach(m.dag(), roots, r.push(x)),
        post_order(m.dag(), r.push(x)), marks(c.insert(x as int, CheckedState::Persistent), r.push(x)), forall|k: int| #[trigger] temp(c.insert(x as int, CheckedState::Persistent), k) == temp(c0, k),
        r.push(x).contains(x), forall|k: usize| #[trigger] r0.contains(k) ==> r.push(x).contains(k), forall|i: int| q0.len() <= i < q.len() ==> r.push(x).contains(#[trigger] q[i])
{
    assert(temp(c, x as int)); assert(!r.contains(x)); m.lemma_node(x as int);
    lemma_post_push(m.dag(), r, x);
    let rr = r.push(x); let cc = c.insert(x as int, CheckedState::Persistent);
    assert(rr[r.len() as int] == x);
    assert forall|k: usize| #[trigger] rr.contains(k) == (r.contains(k) || k == x) by { if r.contains(k) { let j = r.index_of(k); assert(rr[j] == k); } if rr.contains(k) { let j = rr.index_of(k); if j < r.len() { assert(r[j] == k); } } }
    assert forall|k: usize| (cc.dom().contains(k as int) && cc[k as int] == CheckedState::Persistent) == #[trigger] rr.contains(k) by { assert(r.contains(k) == (c.dom().contains(k as int) && c[k as int] == CheckedState::Persistent)); }
    assert forall|k: int| #[trigger] temp(cc, k) == temp(c0, k) by { assert(temp(c, k) == (temp(c0, k) || k == x)); }
    assert forall|i: int| q0.len() <= i < q.len() implies rr.contains(#[trigger] q[i]) by { assert(r.contains(q[i])); }
    assert forall|roots: Seq<usize>| all_reach(m.dag(), roots, r0) && reachable(m.dag(), roots, x as int) implies #[trigger] all_reach(m.dag(), roots, rr) by {
        assert(all_reach(m.dag(), roots, r));
        assert forall|i: int| 0 <= i < rr.len() implies reachable(m.dag(), roots, #[trigger] rr[i] as int) by { if i < r.len() { assert(reachable(m.dag(), roots, r[i] as int)); } }
    }
}
//@fn bss bdd_prob::visit
//@args dd x check result queue
    requires dd.wf(), dd.live(x as int), post_order(dd.dag(), old(result)@), marks(old(check)@, old(result)@), forall|k: int| temp(old(check)@, k) ==> dd.dag().dom().contains(k) && lv(dd.dag(), k) > dd.lvl(x as int)
    ensures post_order(dd.dag(), final(result)@), marks(final(check)@, final(result)@), forall|k: int| #[trigger] temp(final(check)@, k) == temp(old(check)@, k),
        final(result)@.contains(x), old(result)@.len() <= final(result)@.len(), forall|k: usize| #[trigger] old(result)@.contains(k) ==> final(result)@.contains(k),
        old(queue)@.len() <= final(queue)@.len(), forall|i: int| 0 <= i < old(queue)@.len() ==> #[trigger] final(queue)@[i] == old(queue)@[i],
        forall|i: int| old(queue)@.len() <= i < final(queue)@.len() ==> final(result)@.contains(#[trigger] final(queue)@[i]),
        forall|roots: Seq<usize>| all_reach(dd.dag(), roots, old(result)@) && reachable(dd.dag(), roots, x as int) ==> #[trigger] all_reach(dd.dag(), roots, final(result)@),
    decreases dd.lvl(x as int)
//@entry
    proof { dd.lemma_two(); dd.lemma_node(x as int); if dd.dag()[x as int] is N { let d = dd.dag(); lemma_bn(d, x as int);
        assert forall|roots: Seq<usize>, k: int| d[x as int]->kids.contains(k) && reachable(d, roots, x as int) implies #[trigger] reachable(d, roots, k) by { lemma_reach_step(d, roots, x as int, k); }
        assert(d[x as int]->kids.contains(d[x as int]->kids[0]) && d[x as int]->kids.contains(d[x as int]->kids[1]));
    } }
    let ghost r0 = old(result)@; let ghost q0 = old(queue)@; let ghost c0 = old(check)@; let ghost mut cb = c0; let ghost mut rb = r0;
    proof { if c0.dom().contains(x as int) { match c0[x as int] { CheckedState::Temporary => { assert(temp(c0, x as int)); } CheckedState::Persistent => { assert(r0.contains(x)); } } } }
//@after insert
    proof {
        if check@[x as int] == CheckedState::Temporary { lemma_vis_start(*dd, x, c0, r0, q0); cb = check@; rb = result@; }
    }
//@loopafter 0
    proof { cb = check@; rb = result@; }
//@after push
    proof {
        assert(rb.push(x) == result@);
        lemma_vis_end(*dd, x, c0, r0, q0, cb, rb, queue@);
    }
//@loop 0
        dd.wf(), dd.live(x as int), dd.dag()[x as int] is N, fnode == dd.nodes[x as int]->NonTerminal_0, visiting(*dd, x, c0, r0, q0, check@, result@, queue@),
            forall|j: int| 0 <= j < vx_i0 ==> result@.contains((#[trigger] fnode.edges@[j]) as usize),
            fnode.edges@.len() == 2, fnode.edges@[0] == dd.dag()[x as int]->kids[0], fnode.edges@[1] == dd.dag()[x as int]->kids[1], dd.dag()[x as int]->kids.len() == 2,
//@end
// parents come earlier
//@fn bss bdd_prob::topological_sort
//@args dd f
    requires dd.wf(), dd.live(f as int)
    ensures topo(dd.dag(), r@), r@.contains(f), all_reach(dd.dag(), seq![f], r@)
//@entry
    proof { dd.lemma_two(); assert(seq![f][0] == f); lemma_reach_root(dd.dag(), seq![f], f); }
//@loop 0
        invariant dd.wf(), dd.live(f as int), post_order(dd.dag(), result@), marks(check@, result@), forall|k: int| !#[trigger] temp(check@, k),
            result@.contains(f) || (queue@ == seq![f] && result@.len() == 0), all_reach(dd.dag(), seq![f], result@), reachable(dd.dag(), seq![f], f as int),
            forall|i: int| 0 <= i < queue@.len() && result@.contains(f) ==> result@.contains(#[trigger] queue@[i]),
        decreases (if result@.contains(f) { 0int } else { 1int }), queue@.len()
//@loopbegin 0
    proof { assert(!temp(check@, node as int)); }
//@loopafter 0
    proof {
        let rr = result@.reverse();
        assert(rr.reverse() =~= result@);
        let j = result@.index_of(f); assert(rr[result@.len() - 1 - j] == f);
    }
//@end
// ---------------------------------------------------------------- importance: difference of the probabilities with one component working and failed
// weights s with the variable at level l fixed to state c
// only the weights of the variables below n matter
pub proof fn lemma_fix_one(s: WS, l: int, c: int)
    requires forall|k: int| #[trigger] (s.ar)(k) == 2, forall|k: int| #[trigger] tot(s, k, (s.ar)(k)) == 1real, c == 0 || c == 1
    ensures forall|k: int| #[trigger] tot(fix(s, l, c), k, (fix(s, l, c).ar)(k)) == 1real
{
    let t = fix(s, l, c);
    assert forall|k: int| #[trigger] tot(t, k, (t.ar)(k)) == 1real by { assert(tot(s, k, (s.ar)(k)) == 1real); assert((s.ar)(k) == 2); reveal_with_fuel(tot, 3); }
}
pub proof fn lemma_dif_node(m: BddManager, pv: IMap<Seq<char>, Rn>, ss: Seq<bool>, id: int, l: int)
    requires m.wf(), m.live(id), m.dag()[id] is N
    ensures ({ let d = m.dag(); let s = chance(m, pv, ss); let p = pof(m, pv, lev(d, id));
        dif(d, id, s, l, 0) == rmul(1real - p, dif(d, lo0(d, id), s, l, 0)) + rmul(p, dif(d, hi1(d, id), s, l, 0)) + (if l == lev(d, id) { wval(d, hi1(d, id), s) - wval(d, lo0(d, id), s) } else { 0real }) })
{
    let d = m.dag(); let s = chance(m, pv, ss); let x = lev(d, id); let p = pof(m, pv, x);
    let f0 = fix(s, l, 0); let f1 = fix(s, l, 1); let a = lo0(d, id); let b = hi1(d, id);
    m.lemma_two(); lemma_bn(d, id); assert(two1(d, id)); lemma_tot_chance(m, pv, ss);
    lemma_fix_one(s, l, 0); lemma_fix_one(s, l, 1);
    lemma_ws_node(d, id, f0, 2, none()); lemma_ws_node(d, id, f1, 2, none());
    lemma_ws_one(d, a, f0, x, none()); lemma_ws_one(d, b, f0, x, none());
    lemma_ws_one(d, a, f1, x, none()); lemma_ws_one(d, b, f1, x, none());
    reveal_with_fuel(ksum, 3); reveal(rmul);
    let a0 = wval(d, a, f0); let a1 = wval(d, a, f1); let b0 = wval(d, b, f0); let b1 = wval(d, b, f1);
    if l == x {
        lemma_ws_weights(d, a, f0, s, lv(d, a), none()); lemma_ws_weights(d, b, f1, s, lv(d, b), none());
        lemma_dif_above(d, a, s, l, 0); lemma_dif_above(d, b, s, l, 0);
        assert(wval(d, id, f0) == 1real * a0 + 0real * b0); assert(wval(d, id, f1) == 0real * a1 + 1real * b1);
        assert(dif(d, a, s, l, 0) == 0real && dif(d, b, s, l, 0) == 0real);
        assert((1real - p) * dif(d, a, s, l, 0) == 0real) by (nonlinear_arith) requires dif(d, a, s, l, 0) == 0real;
        assert(p * dif(d, b, s, l, 0) == 0real) by (nonlinear_arith) requires dif(d, b, s, l, 0) == 0real;
    } else {
        let q = 1real - p;
        assert(q * a1 - q * a0 == q * (a1 - a0)) by (nonlinear_arith); assert(p * b1 - p * b0 == p * (b1 - b0)) by (nonlinear_arith);
    }
}
// what is still owed by the nodes from position pos on, each with the weight collected for it
pub open spec fn ge(g: IMap<Seq<char>, Rn>, x: Seq<char>) -> real { if g.dom().contains(x) { g[x].v() } else { 0real } }
pub open spec fn labels_distinct(m: BddManager) -> bool { forall|i: int, j: int| 0 <= i < m.headers.len() && 0 <= j < m.headers.len() && (#[trigger] m.headers[i]).label@ == (#[trigger] m.headers[j]).label@ ==> i == j }
pub open spec fn settled(m: BddManager, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Rn>, h: int) -> bool {
    dif(m.dag(), root, s, m.hlevel(h), 0) == ge(ev, m.headers@[h].label@) + owed(m.dag(), o, pos, g, s, m.hlevel(h), 0)
}
pub open spec fn all_settled(m: BddManager, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Rn>) -> bool { forall|h: int| 0 <= h < m.headers.len() ==> #[trigger] settled(m, root, s, o, pos, g, ev, h) }
pub proof fn lemma_settled_start(m: BddManager, root: NodeId, s: WS, o: Seq<NodeId>, one: Rn)
    requires o.no_duplicates(), o.contains(root), one.v() == 1real
    ensures all_settled(m, root as int, s, o, 0, IMap::<int, Rn>::empty().insert(root as int, one), IMap::<Seq<char>, Rn>::empty())
{
    let g = IMap::<int, Rn>::empty();
    assert forall|h: int| 0 <= h < m.headers.len() implies #[trigger] settled(m, root as int, s, o, 0, g.insert(root as int, one), IMap::<Seq<char>, Rn>::empty(), h) by {
        let l = m.hlevel(h);
        lemma_owed_none(m.dag(), o, 0, g, s, l, 0); lemma_owed_hit(m.dag(), o, 0, g, s, l, 0, root as int, one, o.index_of(root));
        reveal(rmul); let z = dif(m.dag(), root as int, s, l, 0); assert((1real - 0real) * z == z) by (nonlinear_arith);
    }
}
// one node processed: its weight is passed on to the children and its variable
pub proof fn lemma_settled_step(m: BddManager, pv: IMap<Seq<char>, Rn>, ss: Seq<bool>, root: int, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Rn>, h: int, r0: Rn, r1: Rn, rv: Rn)
    requires m.wf(), m.one_header_per_level(), labels_distinct(m), topo(m.dag(), o), 0 <= pos < o.len(), m.live(o[pos] as int), m.dag()[o[pos] as int] is N,
        all_settled(m, root, chance(m, pv, ss), o, pos, g, ev), 0 <= h < m.headers.len(), m.hlevel(h) == lev(m.dag(), o[pos] as int),
        ({ let d = m.dag(); let id = o[pos] as int; let s = chance(m, pv, ss); let w = gv(g, id); let p = pof(m, pv, lev(d, id)); let a = lo0(d, id); let b = hi1(d, id); let g1 = g.insert(a, r0);
            r0.v() == gv(g, a) + rmul(w, 1real - p) && r1.v() == gv(g1, b) + rmul(w, p) && rv.v() == ge(ev, m.headers@[h].label@) + rmul(w, wval(d, b, s) - wval(d, a, s)) })
    ensures all_settled(m, root, chance(m, pv, ss), o, pos + 1, g.insert(lo0(m.dag(), o[pos] as int), r0).insert(hi1(m.dag(), o[pos] as int), r1), ev.insert(m.headers@[h].label@, rv))
{
    let d = m.dag(); let id = o[pos] as int; let s = chance(m, pv, ss); let w = gv(g, id); let p = pof(m, pv, lev(d, id)); let a = lo0(d, id); let b = hi1(d, id);
    let g1 = g.insert(a, r0); let g2 = g1.insert(b, r1); let ev2 = ev.insert(m.headers@[h].label@, rv);
    lemma_topo(d, o); assert(topo_node(d, o, pos)); m.lemma_two(); lemma_bn(d, id); assert(two1(d, id));
    assert(later(o, pos, d[id]->kids[0])); assert(later(o, pos, d[id]->kids[1]));
    let ja = choose|j: int| pos < j < o.len() && #[trigger] o[j] == a; let jb = choose|j: int| pos < j < o.len() && #[trigger] o[j] == b;
    assert forall|k: int| 0 <= k < m.headers.len() implies #[trigger] settled(m, root, s, o, pos + 1, g2, ev2, k) by {
        let l = m.hlevel(k);
        assert(settled(m, root, s, o, pos, g, ev, k));
        lemma_owed_hit(d, o, pos + 1, g, s, l, 0, a, r0, ja); lemma_owed_hit(d, o, pos + 1, g1, s, l, 0, b, r1, jb);
        lemma_dif_node(m, pv, ss, id, l);
        let q = 1real - p; let da = dif(d, a, s, l, 0); let db = dif(d, b, s, l, 0); let e = if l == lev(d, id) { wval(d, b, s) - wval(d, a, s) } else { 0real };
        lemma_alg(w, q, p, da, db, e);
        if k == h {} else {
            assert(m.headers[k].label@ != m.headers[h].label@); assert(m.hlevel(k) != m.hlevel(h));
            lemma_r0(w);
        }
    }
}
pub proof fn lemma_settled_skip(m: BddManager, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Rn>)
    requires m.wf(), all_settled(m, root, s, o, pos, g, ev), 0 <= pos < o.len(), m.live(o[pos] as int), m.lvl(o[pos] as int) == 0
    ensures all_settled(m, root, s, o, pos + 1, g, ev)
{
    m.lemma_two(); m.lemma_node(o[pos] as int);
    assert forall|h: int| 0 <= h < m.headers.len() implies #[trigger] settled(m, root, s, o, pos + 1, g, ev, h) by {
        let l = m.hlevel(h);
        assert(settled(m, root, s, o, pos, g, ev, h)); lemma_dif_above(m.dag(), o[pos] as int, s, l, 0);
        let w = gv(g, o[pos] as int); reveal(rmul); assert(w * 0real == 0real) by (nonlinear_arith);
    }
}
pub open spec fn named(m: BddManager, o: Seq<NodeId>, pos: int, ev: IMap<Seq<char>, Rn>) -> bool { forall|j: int| 0 <= j < pos ==> (m.nodes@[#[trigger] o[j] as int] matches Node::NonTerminal(n) ==> ev.dom().contains(m.headers@[n.header as int].label@)) }
pub proof fn lemma_ordered(m: BddManager, root: NodeId, o: Seq<NodeId>, i: int)
    requires m.wf(), m.live(root as int), pure(m.dag(), root as int), topo(m.dag(), o), all_reach(m.dag(), seq![root], o), 0 <= i < o.len()
    ensures m.live(o[i] as int), pure(m.dag(), o[i] as int)
{
    m.lemma_two(); m.lemma_node(root as int); lemma_topo(m.dag(), o); assert(topo_node(m.dag(), o, i));
    assert(reachable(m.dag(), seq![root], o[i] as int));
    let p = choose|p: Seq<int>| #[trigger] reach(m.dag(), seq![root], o[i] as int, p);
    lemma_reach_pure(m.dag(), root, o[i] as int, p);
}
//@fn bss bdd_prob::bmeas
//@args dd ss node env
    requires dd.wf(), dd.one_header_per_level(), labels_distinct(*dd), dd.live(node as int), pure(dd.dag(), node as int)
    ensures forall|h: int| 0 <= h < dd.headers.len() ==> ge(r@, (#[trigger] dd.headers@[h]).label@) == dif(dd.dag(), node as int, chance(*dd, env@, ss@), dd.hlevel(h), 0),
        forall|k: int| 0 <= k < dd.nodes.len() && dd.live(k) && reachable(dd.dag(), seq![node], k) ==> (#[trigger] dd.nodes@[k] matches Node::NonTerminal(n) ==> r@.dom().contains(dd.headers@[n.header as int].label@)),
//@entry
    proof { dd.lemma_two(); }
//@loopbefore 0
    proof { lemma_topo(dd.dag(), sorted_nodes@); lemma_settled_start(*dd, node, chance(*dd, env@, ss@), sorted_nodes@, gradcache@[node as int]); }
//@loop 0
        dd.wf(), dd.one_header_per_level(), labels_distinct(*dd), dd.live(node as int), pure(dd.dag(), node as int),
        topo(dd.dag(), sorted_nodes@), sorted_nodes@.contains(node), all_reach(dd.dag(), seq![node], sorted_nodes@),
        all_settled(*dd, node as int, chance(*dd, env@, ss@), sorted_nodes@, vx_i0 as int, gradcache@, gradevent@),
        cnt_memo(dd.dag(), chance(*dd, env@, ss@), bddcache@), named(*dd, sorted_nodes@, vx_i0 as int, gradevent@),
//@loopbegin 0
    let ghost g0 = gradcache@; let ghost e0 = gradevent@;
    proof {
        lemma_ordered(*dd, node, sorted_nodes@, vx_i0 as int); dd.lemma_node(sorted_nodes@[vx_i0 as int] as int);
        let d = dd.dag(); let id = sorted_nodes@[vx_i0 as int] as int;
        if d[id] is N { lemma_bn(d, id); assert(two1(d, id)); dd.lemma_name(dd.nodes[id]->NonTerminal_0.header as int); }
    }
//@loopend 0
    proof {
        let pos = vx_i0 - 1; let id = sorted_nodes@[pos] as int; let s = chance(*dd, env@, ss@);
        match dd.nodes[id] {
            Node::NonTerminal(n) => { lemma_settled_step(*dd, env@, ss@, node as int, sorted_nodes@, pos, g0, e0, n.header as int, gradcache@[n.edges[0] as int], gradcache@[n.edges[1] as int], gradevent@[dd.headers@[n.header as int].label@]); },
            _ => { lemma_settled_skip(*dd, node as int, s, sorted_nodes@, pos, g0, e0); },
        }
    }
//@loopafter 0
    proof {
        let s = chance(*dd, env@, ss@); let o = sorted_nodes@;
        assert forall|h: int| 0 <= h < dd.headers.len() implies ge(gradevent@, (#[trigger] dd.headers@[h]).label@) == dif(dd.dag(), node as int, s, dd.hlevel(h), 0) by { assert(settled(*dd, node as int, s, o, o.len() as int, gradcache@, gradevent@, h)); }
        assert forall|k: int| 0 <= k < dd.nodes.len() && dd.live(k) && reachable(dd.dag(), seq![node], k) implies (#[trigger] dd.nodes@[k] matches Node::NonTerminal(n) ==> gradevent@.dom().contains(dd.headers@[n.header as int].label@)) by {
            let p = choose|p: Seq<int>| #[trigger] reach(dd.dag(), seq![node], k, p);
            lemma_topo_closed(dd.dag(), o, node, k, p); let j = o.index_of(k as usize); assert(o[j] == k);
        }
    }
//@end

// ---------------------------------------------------------------- a topological order of the nodes below f
pub open spec fn kidsof(d: D, x: int, v: Seq<NodeId>) -> bool { if d[x] is N { v.len() == d[x]->kids.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == d[x]->kids[i] } else { v.len() == 0 } }
pub open spec fn describes<F: Fn(NodeId) -> Vec<NodeId>>(d: D, c: F) -> bool {
    &&& forall|x: NodeId| d.dom().contains(x as int) ==> #[trigger] c.requires((x,))
    &&& forall|x: NodeId, v: Vec<NodeId>| d.dom().contains(x as int) && #[trigger] c.ensures((x,), v) ==> kidsof(d, x as int, v@)
}
// started but not finished
pub open spec fn pend(v: ISet<int>, r: Seq<NodeId>, k: int) -> bool { v.contains(k) && !(0 <= k <= usize::MAX && r.contains(k as usize)) }
pub open spec fn vsteps(d: D, x: NodeId, v0: ISet<int>, r0: Seq<NodeId>, v: ISet<int>, r: Seq<NodeId>) -> bool {
    &&& post_order(d, r)
    &&& forall|k: usize| #[trigger] r.contains(k) ==> v.contains(k as int)
    &&& forall|k: int| #[trigger] pend(v, r, k) == (pend(v0, r0, k) || k == x)
    &&& forall|k: usize| #[trigger] r0.contains(k) ==> r.contains(k)
    &&& forall|roots: Seq<usize>| all_reach(d, roots, r0) && reachable(d, roots, x as int) ==> #[trigger] all_reach(d, roots, r)
}
pub open spec fn vdone(d: D, x: NodeId, v0: ISet<int>, r0: Seq<NodeId>, v: ISet<int>, r: Seq<NodeId>) -> bool {
    &&& post_order(d, r)
    &&& forall|k: usize| #[trigger] r.contains(k) ==> v.contains(k as int)
    &&& forall|k: int| #[trigger] pend(v, r, k) == pend(v0, r0, k)
    &&& r.contains(x)
    &&& forall|k: usize| #[trigger] r0.contains(k) ==> r.contains(k)
    &&& forall|roots: Seq<usize>| #![trigger all_reach(d, roots, r0)] #![trigger all_reach(d, roots, r)] all_reach(d, roots, r0) && reachable(d, roots, x as int) ==> all_reach(d, roots, r)
}
pub proof fn lemma_vend(d: D, x: NodeId, v0: ISet<int>, r0: Seq<NodeId>, v: ISet<int>, r: Seq<NodeId>)
    requires vsteps(d, x, v0, r0, v, r), !v0.contains(x as int), d.dom().contains(x as int), d[x as int] is N ==> forall|c: int| 0 <= c < d[x as int]->kids.len() ==> 0 <= #[trigger] d[x as int]->kids[c] <= usize::MAX && r.contains(d[x as int]->kids[c] as usize)
    ensures vdone(d, x, v0, r0, v, r.push(x))
{
    assert(pend(v, r, x as int));
    lemma_post_push(d, r, x);
    let rr = r.push(x);
    assert(rr[r.len() as int] == x);
    assert forall|k: usize| #[trigger] rr.contains(k) == (r.contains(k) || k == x) by { if r.contains(k) { let j = r.index_of(k); assert(rr[j] == k); } if rr.contains(k) { let j = rr.index_of(k); if j < r.len() { assert(r[j] == k); } } }
    assert forall|k: int| #[trigger] pend(v, rr, k) == pend(v0, r0, k) by { assert(pend(v, r, k) == (pend(v0, r0, k) || k == x)); if 0 <= k <= usize::MAX { assert(rr.contains(k as usize) == (r.contains(k as usize) || k as usize == x)); } }
    assert forall|roots: Seq<usize>| all_reach(d, roots, r0) && reachable(d, roots, x as int) implies #[trigger] all_reach(d, roots, rr) by {
        assert(all_reach(d, roots, r));
        assert forall|i: int| 0 <= i < rr.len() implies reachable(d, roots, #[trigger] rr[i] as int) by { if i < r.len() { assert(reachable(d, roots, r[i] as int)); } }
    }
}
// one child done while x is under way
pub proof fn lemma_vstep(d: D, x: NodeId, c: NodeId, v0: ISet<int>, r0: Seq<NodeId>, v1: ISet<int>, r1: Seq<NodeId>, v: ISet<int>, r: Seq<NodeId>)
    requires vsteps(d, x, v0, r0, v1, r1), vdone(d, c, v1, r1, v, r), d[x as int] is N, d[x as int]->kids.contains(c as int)
    ensures vsteps(d, x, v0, r0, v, r)
{
    assert forall|k: int| #[trigger] pend(v, r, k) == (pend(v0, r0, k) || k == x) by { assert(pend(v1, r1, k) == (pend(v0, r0, k) || k == x)); }
    assert forall|k: usize| #[trigger] r0.contains(k) implies r.contains(k) by { assert(r1.contains(k)); }
    assert forall|roots: Seq<usize>| all_reach(d, roots, r0) && reachable(d, roots, x as int) implies #[trigger] all_reach(d, roots, r) by { assert(all_reach(d, roots, r1)); lemma_reach_step(d, roots, x as int, c as int); }
}
//@fn mss mdd_prob::topo_postorder
//@args f visited order children
//@ghost d: D
//@pass topo_postorder d
    requires dag_ok(d), describes(d, *children), d.dom().contains(f as int), lv(d, f as int) >= 0, post_order(d, old(order)@), forall|k: usize| #[trigger] old(order)@.contains(k) ==> old(visited)@.contains(k as int),
        forall|k: int| #[trigger] pend(old(visited)@, old(order)@, k) ==> d.dom().contains(k) && lv(d, k) > lv(d, f as int),
    ensures vdone(d, f, old(visited)@, old(order)@, final(visited)@, final(order)@)
    decreases lv(d, f as int)
//@entry
    let ghost v0 = visited@; let ghost r0 = order@; let ghost x = f;
    proof { reveal(dag_ok); assert(node_ok(d, f as int)); assert(!pend(v0, r0, f as int)); }
//@loop 0
    kidsof(d, x as int, $b@), vsteps(d, x, v0, r0, visited@, order@), forall|j: int| 0 <= j < $i ==> order@.contains(#[trigger] $b@[j]),
//@loopbegin 0
    let ghost v1 = visited@; let ghost r1 = order@;
    proof {
        let c = $b@[$i as int] as int; assert(d[x as int]->kids[$i as int] == c); assert(d[x as int]->kids.contains(c)); assert(node_ok(d, c));
        assert forall|k: int| #[trigger] pend(visited@, order@, k) implies d.dom().contains(k) && lv(d, k) > lv(d, c) by {}
    }
//@loopend 0
    proof { lemma_vstep(d, x, $b@[$i - 1], v0, r0, v1, r1, visited@, order@); }
//@loopafter 0
    proof {
        if d[x as int] is N { assert forall|c: int| 0 <= c < d[x as int]->kids.len() implies 0 <= #[trigger] d[x as int]->kids[c] <= usize::MAX && order@.contains(d[x as int]->kids[c] as usize) by { assert($b@[c] == d[x as int]->kids[c]); } }
        lemma_vend(d, x, v0, r0, visited@, order@);
    }
//@end

// ---------------------------------------------------------------- importance: difference of the probabilities with a component one state higher
pub open spec fn ge(g: IMap<Seq<char>, Vec<Rn>>, x: Seq<char>, c: int) -> real { if g.dom().contains(x) { g[x]@[c].v() } else { 0real } }
pub open spec fn labels_distinct(h: Seq<NodeHeader>) -> bool { forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && (#[trigger] h[i]).label@ == (#[trigger] h[j]).label@ ==> i == j }
pub open spec fn step_of(h: Seq<NodeHeader>, i: int, c: int) -> bool { 0 <= i < h.len() && 0 <= c && c + 1 < h[i].edge_num }
pub open spec fn settled(d: D, hs: Seq<NodeHeader>, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Vec<Rn>>, h: int, c: int) -> bool {
    dif(d, root, s, hs[h].level as int, c) == ge(ev, hs[h].label@, c) + owed(d, o, pos, g, s, hs[h].level as int, c)
}
pub open spec fn all_settled(d: D, hs: Seq<NodeHeader>, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Vec<Rn>>) -> bool { forall|h: int, c: int| step_of(hs, h, c) ==> #[trigger] settled(d, hs, root, s, o, pos, g, ev, h, c) }
// node id at position pos half done: the weight w has been passed to its first j children
pub open spec fn halfway(d: D, hs: Seq<NodeHeader>, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Vec<Rn>>, id: int, w: real, j: int, h: int, c: int) -> bool {
    let l = hs[h].level as int; let k = d[id]->kids; let x = d[id]->level;
    dif(d, root, s, l, c) == ge(ev, hs[h].label@, c) + owed(d, o, pos + 1, g, s, l, c) + rmul(w, dsum(d, k, s, x, k.len() as int, l, c) - dsum(d, k, s, x, j, l, c) + jump(d, id, s, l, c))
}
pub open spec fn all_halfway(d: D, hs: Seq<NodeHeader>, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Vec<Rn>>, id: int, w: real, j: int) -> bool { forall|h: int, c: int| step_of(hs, h, c) ==> #[trigger] halfway(d, hs, root, s, o, pos, g, ev, id, w, j, h, c) }
pub open spec fn sized(hs: Seq<NodeHeader>, ev: IMap<Seq<char>, Vec<Rn>>) -> bool { forall|h: int| 0 <= h < hs.len() && ev.dom().contains((#[trigger] hs[h]).label@) ==> ev[hs[h].label@]@.len() == hs[h].edge_num - 1 }
pub open spec fn plays(hs: Seq<NodeHeader>, s: WS) -> bool { forall|h: int| 0 <= h < hs.len() ==> (s.ar)((#[trigger] hs[h]).level as int) == hs[h].edge_num }
pub proof fn lemma_settled_start(d: D, hs: Seq<NodeHeader>, root: NodeId, s: WS, o: Seq<NodeId>, one: Rn)
    requires o.no_duplicates(), o.contains(root), one.v() == 1real
    ensures all_settled(d, hs, root as int, s, o, 0, IMap::<int, Rn>::empty().insert(root as int, one), IMap::<Seq<char>, Vec<Rn>>::empty())
{
    let g = IMap::<int, Rn>::empty();
    assert forall|h: int, c: int| step_of(hs, h, c) implies #[trigger] settled(d, hs, root as int, s, o, 0, g.insert(root as int, one), IMap::<Seq<char>, Vec<Rn>>::empty(), h, c) by {
        let l = hs[h].level as int;
        lemma_owed_none(d, o, 0, g, s, l, c); lemma_owed_hit(d, o, 0, g, s, l, c, root as int, one, o.index_of(root));
        reveal(rmul); let z = dif(d, root as int, s, l, c); assert((1real - 0real) * z == z) by (nonlinear_arith);
    }
}
pub proof fn lemma_half_start(d: D, hs: Seq<NodeHeader>, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Vec<Rn>>)
    requires dag_ok(d), sums1(s), plays(hs, s), 0 <= pos < o.len(), d.dom().contains(o[pos] as int), d[o[pos] as int] is N, (s.ar)(d[o[pos] as int]->level) == d[o[pos] as int]->kids.len(), all_settled(d, hs, root, s, o, pos, g, ev)
    ensures all_halfway(d, hs, root, s, o, pos, g, ev, o[pos] as int, gv(g, o[pos] as int), 0)
{
    let id = o[pos] as int;
    assert forall|h: int, c: int| step_of(hs, h, c) implies #[trigger] halfway(d, hs, root, s, o, pos, g, ev, id, gv(g, id), 0, h, c) by {
        let l = hs[h].level as int;
        assert(settled(d, hs, root, s, o, pos, g, ev, h, c)); lemma_vdif(d, id, s, l, c);
    }
}
pub proof fn lemma_half_step(d: D, hs: Seq<NodeHeader>, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Vec<Rn>>, w: real, j: int, x: Rn)
    requires topo(d, o), 0 <= pos < o.len(), d[o[pos] as int] is N, 0 <= j < d[o[pos] as int]->kids.len(), all_halfway(d, hs, root, s, o, pos, g, ev, o[pos] as int, w, j),
        ({ let k = d[o[pos] as int]->kids[j]; x.v() == gv(g, k) + rmul(w, (s.w)(d[o[pos] as int]->level, j)) })
    ensures all_halfway(d, hs, root, s, o, pos, g.insert(d[o[pos] as int]->kids[j], x), ev, o[pos] as int, w, j + 1)
{
    let id = o[pos] as int; let k = d[id]->kids[j]; let p = (s.w)(d[id]->level, j); let n = d[id]->level; let kids = d[id]->kids;
    lemma_topo(d, o); assert(topo_node(d, o, pos)); assert(later(o, pos, d[o[pos] as int]->kids[j]));
    let at = choose|i: int| pos < i < o.len() && #[trigger] o[i] == k;
    assert forall|h: int, c: int| step_of(hs, h, c) implies #[trigger] halfway(d, hs, root, s, o, pos, g.insert(k, x), ev, id, w, j + 1, h, c) by {
        let l = hs[h].level as int;
        assert(halfway(d, hs, root, s, o, pos, g, ev, id, w, j, h, c));
        lemma_owed_hit(d, o, pos + 1, g, s, l, c, k, x, at);
        let a = dsum(d, kids, s, n, kids.len() as int, l, c) - dsum(d, kids, s, n, j + 1, l, c) + jump(d, id, s, l, c); let b = rmul(p, dif(d, k, s, l, c));
        assert(dsum(d, kids, s, n, j + 1, l, c) == dsum(d, kids, s, n, j, l, c) + b);
        lemma_dist(w, a, b); lemma_assoc(w, p, dif(d, k, s, l, c));
        assert(a + b == dsum(d, kids, s, n, kids.len() as int, l, c) - dsum(d, kids, s, n, j, l, c) + jump(d, id, s, l, c));
    }
}
pub proof fn lemma_half_end(d: D, hs: Seq<NodeHeader>, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Vec<Rn>>, w: real, h0: int, q: Vec<Rn>)
    requires one_header(hs), labels_distinct(hs), 0 <= h0 < hs.len(), d[o[pos] as int] is N, d[o[pos] as int]->level == hs[h0].level, d[o[pos] as int]->kids.len() == hs[h0].edge_num, all_halfway(d, hs, root, s, o, pos, g, ev, o[pos] as int, w, d[o[pos] as int]->kids.len() as int), sized(hs, ev),
        q@.len() == hs[h0].edge_num - 1, forall|c: int| 0 <= c < q@.len() ==> #[trigger] q@[c].v() == ge(ev, hs[h0].label@, c) + rmul(w, wval(d, d[o[pos] as int]->kids[c + 1], s) - wval(d, d[o[pos] as int]->kids[c], s))
    ensures all_settled(d, hs, root, s, o, pos + 1, g, ev.insert(hs[h0].label@, q)), sized(hs, ev.insert(hs[h0].label@, q))
{
    let id = o[pos] as int; let e2 = ev.insert(hs[h0].label@, q); let k = d[id]->kids;
    assert forall|h: int, c: int| step_of(hs, h, c) implies #[trigger] settled(d, hs, root, s, o, pos + 1, g, e2, h, c) by {
        assert(halfway(d, hs, root, s, o, pos, g, ev, id, w, k.len() as int, h, c));
        if h == h0 { assert(q@[c].v() == ge(ev, hs[h0].label@, c) + rmul(w, jump(d, id, s, hs[h].level as int, c))); }
        else { assert(hs[h].label@ != hs[h0].label@); assert(hs[h].level != hs[h0].level); lemma_r0(w); }
    }
}
pub proof fn lemma_settled_skip(d: D, hs: Seq<NodeHeader>, root: int, s: WS, o: Seq<NodeId>, pos: int, g: IMap<int, Rn>, ev: IMap<Seq<char>, Vec<Rn>>)
    requires dag_ok(d), all_settled(d, hs, root, s, o, pos, g, ev), 0 <= pos < o.len(), d.dom().contains(o[pos] as int), d[o[pos] as int] is T
    ensures all_settled(d, hs, root, s, o, pos + 1, g, ev)
{
    assert forall|h: int, c: int| step_of(hs, h, c) implies #[trigger] settled(d, hs, root, s, o, pos + 1, g, ev, h, c) by {
        let l = hs[h].level as int;
        assert(settled(d, hs, root, s, o, pos, g, ev, h, c)); lemma_dif_above(d, o[pos] as int, s, l, c);
        let w = gv(g, o[pos] as int); reveal(rmul); assert(w * 0real == 0real) by (nonlinear_arith);
    }
}
pub proof fn lemma_plays(h: Seq<NodeHeader>, pv: IMap<Seq<char>, Vec<Rn>>, g: spec_fn(int) -> real)
    requires one_header(h)
    ensures plays(h, mprob(h, pv, g))
{ let s = mprob(h, pv, g); assert forall|i: int| 0 <= i < h.len() implies (s.ar)((#[trigger] h[i]).level as int) == h[i].edge_num by { lemma_at_level(h, i); } }
pub open spec fn bir_ok(d: D, hs: Seq<NodeHeader>, root: int, s: WS, r: IMap<Seq<char>, Vec<Rn>>) -> bool {
    &&& sized(hs, r)
    &&& forall|h: int, c: int| step_of(hs, h, c) ==> #[trigger] ge(r, hs[h].label@, c) == dif(d, root, s, hs[h].level as int, c)
}
pub proof fn lemma_topo_order(d: D, o: Seq<NodeId>, root: NodeId)
    ensures forall|p: Seq<NodeId>| #[trigger] p.reverse() == o ==> (post_order(d, p) ==> topo(d, o) && o.no_duplicates()) && (p.contains(root) ==> o.contains(root)) && (forall|roots: Seq<usize>| #[trigger] all_reach(d, roots, p) ==> all_reach(d, roots, o))
{
    assert forall|p: Seq<NodeId>| #[trigger] p.reverse() == o implies (post_order(d, p) ==> topo(d, o) && o.no_duplicates()) && (p.contains(root) ==> o.contains(root)) && (forall|roots: Seq<usize>| #[trigger] all_reach(d, roots, p) ==> all_reach(d, roots, o)) by {
        assert(o.reverse() =~= p);
        if post_order(d, p) { lemma_topo(d, o); }
        if p.contains(root) { let j = p.index_of(root); assert(o[p.len() - 1 - j] == root); }
        assert forall|roots: Seq<usize>| #[trigger] all_reach(d, roots, p) implies all_reach(d, roots, o) by { assert forall|i: int| 0 <= i < o.len() implies reachable(d, roots, #[trigger] o[i] as int) by { assert(o[i] == p[p.len() - 1 - i]); } }
    }
}
pub open spec fn mtmdd_named(m: MtMddManager, o: Seq<NodeId>, pos: int, ev: IMap<Seq<char>, Vec<Rn>>) -> bool { forall|j: int| 0 <= j < pos ==> (m.nodes@[#[trigger] o[j] as int] matches mtmdd::Node::NonTerminal(n) ==> ev.dom().contains(m.headers@[n.header as int].label@)) }
pub open spec fn mdd_named(m: mdd::MddManager, o: Seq<NodeId>, pos: int, ev: IMap<Seq<char>, Vec<Rn>>) -> bool { forall|j: int| 0 <= j < pos ==> (m.nodes@[#[trigger] o[j] as int] matches mdd::Node::NonTerminal(n) ==> ev.dom().contains(m.headers@[n.header as int].label@)) }
//@fn mss mdd_prob::vbmeas
//@attr #[verifier::spinoff_prover]
//@args mdd node pv ss
//@pass topo_postorder mdd.dag()
    requires old(mdd).wf(), distrs(old(mdd).headers@, pv@), labels_distinct(old(mdd).headers@), old(mdd).live(node as int)
    ensures *final(mdd) == *old(mdd), bir_ok(old(mdd).dag(), old(mdd).headers@, node as int, vchance(old(mdd).headers@, pv@, ss@), r@),
        forall|k: int| old(mdd).live(k) && reachable(old(mdd).dag(), seq![node], k) ==> (#[trigger] old(mdd).nodes@[k] matches mtmdd::Node::NonTerminal(n) ==> r@.dom().contains(old(mdd).headers@[n.header as int].label@)),
//@entry
    let ghost mg = *mdd; let ghost dg = mg.dag(); let ghost sg = vchance(mg.headers@, pv@, ss@); let ghost hs = mg.headers@; let ghost root = node as int;
    proof { mg.lemma_dag(); lemma_sums1(hs, pv@, sg.g); lemma_plays(hs, pv@, sg.g); assert(seq![node][0] == node); lemma_reach_root(dg, seq![node], node); mg.lemma_node(root); }
//@closure 0
    |$p0: NodeId| -> (r: Vec<NodeId>) requires mdd.wf(), mdd.live($p0 as int) ensures kidsof(mdd.dag(), $p0 as int, r@) $body proof { mdd.lemma_node($p0 as int); }
//@loopbefore 1
    proof { let e = Seq::<NodeId>::empty(); assert(all_reach(dg, seq![node], e)); lemma_topo_order(dg, $b@, node); lemma_settled_start(dg, hs, node, sg, $b@, gradcache@[root]); }
//@loop 1
    *mdd == mg, topo(dg, $b@), $b@.contains(node), all_reach(dg, seq![node], $b@),
    all_settled(dg, hs, root, sg, $b@, $i as int, gradcache@, gradevent@), sized(hs, gradevent@),
    cnt_memo(dg, sg, probcache@), mtmdd_named(mg, $b@, $i as int, gradevent@),
//@loopbegin 1
    let ghost og = $b@; let ghost pos = $i as int; let ghost idg = og[pos] as int; let ghost eg = gradevent@;
    proof {
        lemma_topo(dg, og); assert(topo_node(dg, og, pos)); mg.lemma_node(idg);
        match mg.nodes[idg] {
            mtmdd::Node::NonTerminal(nt) => { lemma_at_level(hs, nt.header as int); assert(distr(hs, pv@, nt.header as int)); lemma_half_start(dg, hs, root, sg, og, pos, gradcache@, eg); },
            _ => { lemma_settled_skip(dg, hs, root, sg, og, pos, gradcache@, eg); },
        }
    }
//@loop 3
    *mdd == mg, all_halfway(dg, hs, root, sg, og, pos, gradcache@, eg, idg, w.v(), $i as int), cnt_memo(dg, sg, probcache@), probs@.len() == m,
    forall|c: int| 0 <= c < $i ==> (#[trigger] probs@[c]).v() == wval(dg, dg[idg]->kids[c], sg),
//@loopbegin 3
    let ghost gg = gradcache@;
    proof { assert(mg.live(edges@[$i as int] as int)); }
//@loopend 3
    proof { lemma_half_step(dg, hs, root, sg, og, pos, gg, eg, w.v(), $i - 1, gradcache@[edges@[$i - 1] as int]); }
//@loop 4
    slot@.len() == m - 1,
    forall|c: int| 0 <= c < m - 1 ==> (#[trigger] slot@[c]).v() == ge(eg, label@, c) + (if c < $i { rmul(w.v(), probs@[c + 1].v() - probs@[c].v()) } else { 0real }),
//@loopend 1
    proof {
        match mg.nodes[idg] {
            mtmdd::Node::NonTerminal(nt) => { lemma_half_end(dg, hs, root, sg, og, pos, gradcache@, eg, w.v(), nt.header as int, gradevent@[hs[nt.header as int].label@]); },
            _ => { },
        }
    }
//@loopafter 1
    proof {
        assert forall|h: int, c: int| step_of(hs, h, c) implies #[trigger] ge(gradevent@, hs[h].label@, c) == dif(dg, root, sg, hs[h].level as int, c) by { assert(settled(dg, hs, root, sg, $b@, $b@.len() as int, gradcache@, gradevent@, h, c)); }
        assert forall|k: int| mg.live(k) && reachable(dg, seq![node], k) implies (#[trigger] mg.nodes@[k] matches mtmdd::Node::NonTerminal(n) ==> gradevent@.dom().contains(hs[n.header as int].label@)) by {
            let p = choose|p: Seq<int>| #[trigger] reach(dg, seq![node], k, p);
            lemma_topo_closed(dg, $b@, node, k, p); let j = $b@.index_of(k as usize); assert($b@[j] == k);
        }
    }
//@end
//@fn mss mdd_prob::bbmeas
//@attr #[verifier::spinoff_prover]
//@args mdd node pv ss
//@pass topo_postorder mdd.dag()
    requires old(mdd).wf(), distrs(old(mdd).headers@, pv@), labels_distinct(old(mdd).headers@), old(mdd).live(node as int)
    ensures *final(mdd) == *old(mdd), bir_ok(old(mdd).dag(), old(mdd).headers@, node as int, bchance(old(mdd).headers@, pv@, ss@), r@),
        forall|k: int| old(mdd).live(k) && reachable(old(mdd).dag(), seq![node], k) ==> (#[trigger] old(mdd).nodes@[k] matches mdd::Node::NonTerminal(n) ==> r@.dom().contains(old(mdd).headers@[n.header as int].label@)),
//@entry
    let ghost mg = *mdd; let ghost dg = mg.dag(); let ghost sg = bchance(mg.headers@, pv@, ss@); let ghost hs = mg.headers@; let ghost root = node as int;
    proof { mg.lemma_dag(); lemma_sums1(hs, pv@, sg.g); lemma_plays(hs, pv@, sg.g); assert(seq![node][0] == node); lemma_reach_root(dg, seq![node], node); mg.lemma_node(root); }
//@closure 0
    |$p0: NodeId| -> (r: Vec<NodeId>) requires mdd.wf(), mdd.live($p0 as int) ensures kidsof(mdd.dag(), $p0 as int, r@) $body proof { mdd.lemma_node($p0 as int); }
//@loopbefore 1
    proof { let e = Seq::<NodeId>::empty(); assert(all_reach(dg, seq![node], e)); lemma_topo_order(dg, $b@, node); lemma_settled_start(dg, hs, node, sg, $b@, gradcache@[root]); }
//@loop 1
    *mdd == mg, topo(dg, $b@), $b@.contains(node), all_reach(dg, seq![node], $b@),
    all_settled(dg, hs, root, sg, $b@, $i as int, gradcache@, gradevent@), sized(hs, gradevent@),
    cnt_memo(dg, sg, probcache@), mdd_named(mg, $b@, $i as int, gradevent@),
//@loopbegin 1
    let ghost og = $b@; let ghost pos = $i as int; let ghost idg = og[pos] as int; let ghost eg = gradevent@;
    proof {
        lemma_topo(dg, og); assert(topo_node(dg, og, pos)); mg.lemma_node(idg);
        match mg.nodes[idg] {
            mdd::Node::NonTerminal(nt) => { lemma_at_level(hs, nt.header as int); assert(distr(hs, pv@, nt.header as int)); lemma_half_start(dg, hs, root, sg, og, pos, gradcache@, eg); },
            _ => { lemma_settled_skip(dg, hs, root, sg, og, pos, gradcache@, eg); },
        }
    }
//@loop 3
    *mdd == mg, all_halfway(dg, hs, root, sg, og, pos, gradcache@, eg, idg, w.v(), $i as int), cnt_memo(dg, sg, probcache@), probs@.len() == m,
    forall|c: int| 0 <= c < $i ==> (#[trigger] probs@[c]).v() == wval(dg, dg[idg]->kids[c], sg),
//@loopbegin 3
    let ghost gg = gradcache@;
    proof { assert(mg.live(edges@[$i as int] as int)); }
//@loopend 3
    proof { lemma_half_step(dg, hs, root, sg, og, pos, gg, eg, w.v(), $i - 1, gradcache@[edges@[$i - 1] as int]); }
//@loop 4
    slot@.len() == m - 1,
    forall|c: int| 0 <= c < m - 1 ==> (#[trigger] slot@[c]).v() == ge(eg, label@, c) + (if c < $i { rmul(w.v(), probs@[c + 1].v() - probs@[c].v()) } else { 0real }),
//@loopend 1
    proof {
        match mg.nodes[idg] {
            mdd::Node::NonTerminal(nt) => { lemma_half_end(dg, hs, root, sg, og, pos, gradcache@, eg, w.v(), nt.header as int, gradevent@[hs[nt.header as int].label@]); },
            _ => { },
        }
    }
//@loopafter 1
    proof {
        assert forall|h: int, c: int| step_of(hs, h, c) implies #[trigger] ge(gradevent@, hs[h].label@, c) == dif(dg, root, sg, hs[h].level as int, c) by { assert(settled(dg, hs, root, sg, $b@, $b@.len() as int, gradcache@, gradevent@, h, c)); }
        assert forall|k: int| mg.live(k) && reachable(dg, seq![node], k) implies (#[trigger] mg.nodes@[k] matches mdd::Node::NonTerminal(n) ==> gradevent@.dom().contains(hs[n.header as int].label@)) by {
            let p = choose|p: Seq<int>| #[trigger] reach(dg, seq![node], k, p);
            lemma_topo_closed(dg, $b@, node, k, p); let j = $b@.index_of(k as usize); assert($b@[j] == k);
        }
    }
//@end
//@fn mss mdd_prob::prob
//@args mdd node pv ss
    requires old(mdd).wf(), distrs(old(mdd).mdd.headers@, pv@), distrs(old(mdd).mtmdd.headers@, pv@), match *node { Node::Value(f) => old(mdd).mtmdd.live(f as int), Node::Bool(f) => old(mdd).mdd.live(f as int) }
    ensures *final(mdd) == *old(mdd), match *node {
        Node::Value(f) => r.v() == wval(old(mdd).vd(), f as int, vchance(old(mdd).mtmdd.headers@, pv@, ss@)),
        Node::Bool(f) => r.v() == wval(old(mdd).bd(), f as int, bchance(old(mdd).mdd.headers@, pv@, ss@)),
    }
//@end
//@fn mss mdd_prob::bmeas
//@args mdd node pv ss
    requires old(mdd).wf(), distrs(old(mdd).mdd.headers@, pv@), distrs(old(mdd).mtmdd.headers@, pv@), labels_distinct(old(mdd).mdd.headers@), labels_distinct(old(mdd).mtmdd.headers@), match *node { Node::Value(f) => old(mdd).mtmdd.live(f as int), Node::Bool(f) => old(mdd).mdd.live(f as int) }
    ensures *final(mdd) == *old(mdd), match *node {
        Node::Value(f) => bir_ok(old(mdd).vd(), old(mdd).mtmdd.headers@, f as int, vchance(old(mdd).mtmdd.headers@, pv@, ss@), r@),
        Node::Bool(f) => bir_ok(old(mdd).bd(), old(mdd).mdd.headers@, f as int, bchance(old(mdd).mdd.headers@, pv@, ss@), r@),
    }
//@end

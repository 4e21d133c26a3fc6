// ---------------------------------------------------------------- probability of multi-state systems
pub open spec fn psum(p: Seq<Rn>, k: int) -> real decreases k { if k <= 0 { 0real } else { psum(p, k - 1) + p[k - 1].v() } }
pub open spec fn at_level(h: Seq<NodeHeader>, l: int) -> int { choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).level == l }
// the probability that the component at level l is in state c
pub open spec fn pst(h: Seq<NodeHeader>, pv: IMap<Seq<char>, Vec<Rn>>, l: int, c: int) -> real {
    if has_level(h, l) { pv[h[at_level(h, l)].label@]@[c].v() } else if c == 0 { 1real } else { 0real }
}
pub open spec fn mprob(h: Seq<NodeHeader>, pv: IMap<Seq<char>, Vec<Rn>>, g: spec_fn(int) -> real) -> WS {
    WS { ar: |l: int| if has_level(h, l) { h[at_level(h, l)].edge_num as int } else { 1 }, w: |l: int, c: int| pst(h, pv, l, c), g: g }
}
pub open spec fn vchance(h: Seq<NodeHeader>, pv: IMap<Seq<char>, Vec<Rn>>, ss: ISet<int>) -> WS { mprob(h, pv, |e: int| if vwants(ss, e) { 1real } else { 0real }) }
pub open spec fn bchance(h: Seq<NodeHeader>, pv: IMap<Seq<char>, Vec<Rn>>, ss: ISet<int>) -> WS { mprob(h, pv, |e: int| if bwants(ss, e) { 1real } else { 0real }) }
// every component has a probability for each of its states, and they sum to one
pub open spec fn distr(h: Seq<NodeHeader>, pv: IMap<Seq<char>, Vec<Rn>>, i: int) -> bool {
    pv.dom().contains(h[i].label@) && pv[h[i].label@]@.len() >= h[i].edge_num && psum(pv[h[i].label@]@, h[i].edge_num as int) == 1real
}
pub open spec fn distrs(h: Seq<NodeHeader>, pv: IMap<Seq<char>, Vec<Rn>>) -> bool { one_header(h) && forall|i: int| 0 <= i < h.len() ==> #[trigger] distr(h, pv, i) }
pub proof fn lemma_at_level(h: Seq<NodeHeader>, i: int)
    requires one_header(h), 0 <= i < h.len()
    ensures has_level(h, h[i].level as int), at_level(h, h[i].level as int) == i
{ assert(h[i].level == h[i].level as int); }
pub proof fn lemma_tot_psum(h: Seq<NodeHeader>, pv: IMap<Seq<char>, Vec<Rn>>, g: spec_fn(int) -> real, l: int, k: int)
    requires has_level(h, l), k >= 0
    ensures tot(mprob(h, pv, g), l, k) == psum(pv[h[at_level(h, l)].label@]@, k)
    decreases k
{ if k > 0 { lemma_tot_psum(h, pv, g, l, k - 1); } }
pub proof fn lemma_sums1(h: Seq<NodeHeader>, pv: IMap<Seq<char>, Vec<Rn>>, g: spec_fn(int) -> real)
    requires distrs(h, pv)
    ensures sums1(mprob(h, pv, g))
{
    let s = mprob(h, pv, g);
    assert forall|l: int| #[trigger] tot(s, l, (s.ar)(l)) == 1real by {
        if has_level(h, l) { let i = at_level(h, l); assert(0 <= i < h.len() && h[i].level == l); assert(distr(h, pv, i)); lemma_tot_psum(h, pv, g, l, h[i].edge_num as int); } else { reveal_with_fuel(tot, 2); }
    }
}
//@fn mss mdd_prob::vprob
//@args mdd node pv ss cache
    requires old(mdd).wf(), distrs(old(mdd).headers@, pv@), old(mdd).live(node as int), cnt_memo(old(mdd).dag(), vchance(old(mdd).headers@, pv@, ss@), old(cache)@)
    ensures *final(mdd) == *old(mdd), r.v() == wval(old(mdd).dag(), node as int, vchance(old(mdd).headers@, pv@, ss@)), cnt_memo(old(mdd).dag(), vchance(old(mdd).headers@, pv@, ss@), final(cache)@)
    decreases old(mdd).lvl(node as int)
//@entry
    let ghost m = *mdd; let ghost d = m.dag(); let ghost id = node as int; let ghost s = vchance(m.headers@, pv@, ss@);
    proof {
        m.lemma_dag(); m.lemma_node(id); lemma_sums1(m.headers@, pv@, s.g);
        match m.nodes[id] {
            mtmdd::Node::NonTerminal(nt) => { lemma_at_level(m.headers@, nt.header as int); assert(distr(m.headers@, pv@, nt.header as int)); lemma_vnode(d, id, s); },
            _ => { lemma_ws_term(d, id, s, d[id]->T_0); },
        }
    }
//@loop 1
    *mdd == m, cnt_memo(d, s, cache@), result.v() == vsum(d, d[id]->kids, s, d[id]->level, $i as int),
//@end
//@fn mss mdd_prob::bprob
//@args mdd node pv ss cache
    requires old(mdd).wf(), distrs(old(mdd).headers@, pv@), old(mdd).live(node as int), cnt_memo(old(mdd).dag(), bchance(old(mdd).headers@, pv@, ss@), old(cache)@)
    ensures *final(mdd) == *old(mdd), r.v() == wval(old(mdd).dag(), node as int, bchance(old(mdd).headers@, pv@, ss@)), cnt_memo(old(mdd).dag(), bchance(old(mdd).headers@, pv@, ss@), final(cache)@)
    decreases old(mdd).lvl(node as int)
//@entry
    let ghost m = *mdd; let ghost d = m.dag(); let ghost id = node as int; let ghost s = bchance(m.headers@, pv@, ss@);
    proof {
        m.lemma_dag(); m.lemma_node(id); lemma_sums1(m.headers@, pv@, s.g);
        match m.nodes[id] {
            mdd::Node::NonTerminal(nt) => { lemma_at_level(m.headers@, nt.header as int); assert(distr(m.headers@, pv@, nt.header as int)); lemma_vnode(d, id, s); },
            _ => { lemma_ws_term(d, id, s, d[id]->T_0); },
        }
    }
//@loop 1
    *mdd == m, cnt_memo(d, s, cache@), result.v() == vsum(d, d[id]->kids, s, d[id]->level, $i as int),
//@end

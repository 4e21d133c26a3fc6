pub use m2::*;
pub mod mc { use super::*;
//@include real.vrs
//@include sum.vrs
//@include imp.vrs
//@include strmap.vrs
broadcast use {axiom_rn, axiom_rn_eq, numax::axiom_num, numax::axiom_num_eq};
// ---------------------------------------------------------------- counting state vectors
// is the value (encoded: 0 undetermined) of a value diagram wanted
pub open spec fn vwants(ss: ISet<int>, e: int) -> bool { e != 0 && ss.contains(dec(e)) }
pub open spec fn bwants(ss: ISet<int>, v: int) -> bool { (v == 0 || v == 1) && ss.contains(v) }
pub open spec fn mcount(h: Seq<NodeHeader>, g: spec_fn(int) -> real) -> WS { WS { ar: |l: int| arity(h, l), w: |l: int, c: int| 1real, g: g } }
pub open spec fn vcounting(h: Seq<NodeHeader>, ss: ISet<int>) -> WS { mcount(h, |e: int| if vwants(ss, e) { 1real } else { 0real }) }
pub open spec fn bcounting(h: Seq<NodeHeader>, ss: ISet<int>) -> WS { mcount(h, |e: int| if bwants(ss, e) { 1real } else { 0real }) }
pub proof fn lemma_mtot(h: Seq<NodeHeader>, g: spec_fn(int) -> real, l: int, k: int)
    requires k >= 0
    ensures tot(mcount(h, g), l, k) == k as real
    decreases k
{ if k > 0 { lemma_mtot(h, g, l, k - 1); } }
// the levels are 0, 1, ..., one header each
pub open spec fn packed(h: Seq<NodeHeader>) -> bool {
    &&& one_header(h)
    &&& forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).level < h.len()
    &&& forall|l: int| 0 <= l < h.len() ==> #[trigger] has_level(h, l)
    &&& forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).edge_num <= u32::MAX
}
pub open spec fn has_level(h: Seq<NodeHeader>, l: int) -> bool { exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).level == l }
pub open spec fn lvmap(h: Seq<NodeHeader>, m: Seq<usize>, n: int) -> bool { n <= m.len() && forall|l: int| 0 <= l < n ==> #[trigger] m[l] < h.len() && h[m[l] as int].level == l && h[m[l] as int].edge_num <= u32::MAX }
pub open spec fn upto(l: Option<int>) -> int { match l { Some(x) => x + 1, None => 0 } }
pub open spec fn mcnt_memo(d: D, s: WS, c: IMap<(int, Option<int>), Rn>) -> bool { forall|k: int, l: Option<int>| #[trigger] c.dom().contains((k, l)) ==> c[(k, l)].v() == wsum(d, k, s, upto(l), none()) }
pub proof fn lemma_mcnt_skip(h: Seq<NodeHeader>, d: D, id: int, g: spec_fn(int) -> real, n: int, x: Rn)
    requires dag_ok(d), d.dom().contains(id), 0 <= lv(d, id) < n, arity(h, n - 1) >= 0
    ensures wsum(d, id, mcount(h, g), n, none()) == rmul(arity(h, n - 1) as real, wsum(d, id, mcount(h, g), n - 1, none()))
{ let s = mcount(h, g); lemma_ws_skip(d, id, s, n, (s.ar)(n - 1), none()); lemma_mtot(h, g, n - 1, arity(h, n - 1)); }
pub proof fn lemma_lvmap(h: Seq<NodeHeader>, m: Seq<usize>)
    requires packed(h), m.len() == h.len(), forall|i: int| 0 <= i < h.len() ==> m[(#[trigger] h[i]).level as int] == i
    ensures lvmap(h, m, h.len() as int)
{ assert forall|l: int| 0 <= l < h.len() implies #[trigger] m[l] < h.len() && h[m[l] as int].level == l && h[m[l] as int].edge_num <= u32::MAX by { assert(has_level(h, l)); let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).level == l; assert(m[h[i].level as int] == i); } }
// a function without wanted values counts nothing
pub proof fn lemma_mcnt_none(h: Seq<NodeHeader>, d: D, id: int, g: spec_fn(int) -> real, n: int)
    requires dag_ok(d), d.dom().contains(id), d[id] is T, g(d[id]->T_0) == 0real, n >= 0
    ensures wsum(d, id, mcount(h, g), n, none()) == 0real
{ let s = mcount(h, g); lemma_ws_gap(d, id, s, n, none()); lemma_ws_term(d, id, s, d[id]->T_0); reveal(rmul); let z = gap(s, lv(d, id), n); assert(z * 0real == 0real) by (nonlinear_arith); }
pub proof fn lemma_mcnt_kid(s: WS, n: int, c: int, z: real)
    requires (s.w)(n, c) == 1real
    ensures rmul((s.w)(n, c), z) == z
{ reveal(rmul); assert(1real * z == z) by (nonlinear_arith); }
//@fn mss mdd_count::vmdd_count
//@args mdd node ss cache level level2headers
    requires mdd.wf(), mdd.live(node as int), mdd.lvl(node as int) <= upto(level.kv()), lvmap(mdd.headers@, level2headers@, upto(level.kv())), mcnt_memo(mdd.dag(), vcounting(mdd.headers@, ss@), old(cache)@)
    ensures r.v() == wsum(mdd.dag(), node as int, vcounting(mdd.headers@, ss@), upto(level.kv()), none()), mcnt_memo(mdd.dag(), vcounting(mdd.headers@, ss@), final(cache)@)
    decreases upto(level.kv())
//@entry
    let ghost d = mdd.dag(); let ghost id = node as int; let ghost s = vcounting(mdd.headers@, ss@); let ghost n = upto(level.kv());
    proof {
        mdd.lemma_dag(); mdd.lemma_node(id); let g = |e: int| if vwants(ss@, e) { 1real } else { 0real };
        if n > 0 { lemma_arity(mdd.headers@, level2headers@[n - 1] as int); }
        if n > lv(d, id) { lemma_mcnt_skip(mdd.headers@, d, id, g, n, rn(0real)); }
        match mdd.nodes[id] {
            mtmdd::Node::NonTerminal(nt) => { lemma_arity(mdd.headers@, nt.header as int); if n == lv(d, id) { lemma_ws_node(d, id, s, nt.nodes@.len() as int, none()); } },
            _ => { lemma_ws_term(d, id, s, d[id]->T_0); if (s.g)(d[id]->T_0) == 0real { lemma_mcnt_none(mdd.headers@, d, id, g, n); } },
        }
    }
//@loop 1
    mcnt_memo(d, s, cache@), result.v() == ksum(d, d[id]->kids, s, d[id]->level, $i as int),
//@loopend 1
    proof { lemma_mcnt_kid(s, d[id]->level, $i - 1, wsum(d, d[id]->kids[$i - 1], s, d[id]->level, none())); }
//@end
//@fn mss mdd_count::bmdd_count
//@args mdd node ss cache level level2headers
    requires mdd.wf(), mdd.live(node as int), mdd.lvl(node as int) <= upto(level.kv()), lvmap(mdd.headers@, level2headers@, upto(level.kv())), mcnt_memo(mdd.dag(), bcounting(mdd.headers@, ss@), old(cache)@)
    ensures r.v() == wsum(mdd.dag(), node as int, bcounting(mdd.headers@, ss@), upto(level.kv()), none()), mcnt_memo(mdd.dag(), bcounting(mdd.headers@, ss@), final(cache)@)
    decreases upto(level.kv())
//@entry
    let ghost d = mdd.dag(); let ghost id = node as int; let ghost s = bcounting(mdd.headers@, ss@); let ghost n = upto(level.kv());
    proof {
        mdd.lemma_dag(); mdd.lemma_node(id); let g = |e: int| if bwants(ss@, e) { 1real } else { 0real };
        if n > 0 { lemma_arity(mdd.headers@, level2headers@[n - 1] as int); }
        if n > lv(d, id) { lemma_mcnt_skip(mdd.headers@, d, id, g, n, rn(0real)); }
        match mdd.nodes[id] {
            mdd::Node::NonTerminal(nt) => { lemma_arity(mdd.headers@, nt.header as int); if n == lv(d, id) { lemma_ws_node(d, id, s, nt.nodes@.len() as int, none()); } },
            _ => { lemma_ws_term(d, id, s, d[id]->T_0); if (s.g)(d[id]->T_0) == 0real { lemma_mcnt_none(mdd.headers@, d, id, g, n); } },
        }
    }
//@loop 1
    mcnt_memo(d, s, cache@), result.v() == ksum(d, d[id]->kids, s, d[id]->level, $i as int),
//@loopend 1
    proof { lemma_mcnt_kid(s, d[id]->level, $i - 1, wsum(d, d[id]->kids[$i - 1], s, d[id]->level, none())); }
//@end
//@fn mss mdd_count::mdd_count
//@args mdd node ss
    requires mdd.wf(), packed(mdd.mdd.headers@), packed(mdd.mtmdd.headers@), match *node { Node::Value(f) => mdd.mtmdd.live(f as int), Node::Bool(f) => mdd.mdd.live(f as int) }
    ensures match *node {
        Node::Value(f) => r.v() == wval(mdd.vd(), f as int, vcounting(mdd.mtmdd.headers@, ss@)),
        Node::Bool(f) => r.v() == wval(mdd.bd(), f as int, bcounting(mdd.mdd.headers@, ss@)),
    }
//@entry
    proof { match *node { Node::Value(f) => { mdd.mtmdd.lemma_node(f as int); }, Node::Bool(f) => { mdd.mdd.lemma_node(f as int); } } }
//@loop 0
    packed(mdd.mtmdd.headers@), level2headers@.len() == nheaders, forall|i: int| 0 <= i < $i ==> level2headers@[(#[trigger] mdd.mtmdd.headers@[i]).level as int] == i
//@loopafter 0
    proof { lemma_lvmap(mdd.mtmdd.headers@, level2headers@); }
//@loop 1
    packed(mdd.mdd.headers@), level2headers@.len() == nheaders, forall|i: int| 0 <= i < $i ==> level2headers@[(#[trigger] mdd.mdd.headers@[i]).level as int] == i
//@loopafter 1
    proof { lemma_lvmap(mdd.mdd.headers@, level2headers@); }
//@end
//@include mprob_fns.vrs
//@include mbir_fns.vrs
}

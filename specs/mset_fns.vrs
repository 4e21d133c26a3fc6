// ---------------------------------------------------------------- mss: from minimal vectors to families of labelled vectors
pub mod mse { use super::*;
broadcast use {numax::axiom_num, numax::axiom_num_eq};
pub use m2::MtMdd2Manager;
pub use zmdd::{ZmddManager, lkn, lbuilt};
use mso::{vkd, bkd, lemma_vdk, lemma_bdk, lemma_vnode, lemma_bnode};
impl ZmddManager {
    pub proof fn lemma_zbase(&self)
        requires self.wf()
        ensures self.undet == 0, self.live(0), self.lvl(0) == 0, forall|a: Asg| #[trigger] lk(self.dag(), 0, a) == 0
    { self.lemma_zero(); }
    pub proof fn lemma_zero(&self)
        requires self.wf()
        ensures self.undet == 0, self.live(0), self.lvl(0) == 0, forall|a: Asg| #[trigger] lk(self.dag(), 0, a) == 0
    { assert(self.live(0)) by { reveal(ZmddManager::wf); } self.lemma_node(0); }
}
// a vector of the set store counts the states from the base state
pub open spec fn rv(k: MS, b: Asg) -> Asg { |l: int| if k.up { ar(k, l) - 1 - b(l) } else { b(l) } }
pub open spec fn zout(b: Asg, n: int) -> bool { forall|l: int| l < 0 || l >= n ==> #[trigger] b(l) == 0 }
// the label a member is filed under: its value; for Boolean diagrams 1 for a path and 0 for a cut
pub open spec fn lb(k: MS, x: int) -> int { if k.vk { x } else if x == 1 { enc(if k.up { 0 } else { 1 }) } else { 0 } }
// a family and its copy: the same vectors under the same labels
#[verifier::opaque]
pub open spec fn conv(k: MS, d: D, id: int, d2: D, id2: int) -> bool {
    d.dom().contains(id) && d2.dom().contains(id2) && lv(d2, id2) <= lv(d, id)
    && forall|b: Asg| #[trigger] lk(d2, id2, b) == (if inr(k, b) && zout(b, lv(d, id)) { lb(k, lab(k, d, id, rv(k, b), lv(d, id))) } else { 0 })
}
pub proof fn lemma_conv_term(k: MS, d: D, id: int, d2: D, v: int)
    requires dk(k, d), d.dom().contains(id), d[id] is T, d2.dom().contains(v), lv(d2, v) == 0,
        forall|b: Asg| #[trigger] lk(d2, v, b) == (if zeroes(b) { lb(k, if isl(k, d[id]->T_0) { d[id]->T_0 } else { und(k) }) } else { 0 })
    ensures conv(k, d, id, d2, v)
{
    reveal(conv); lemma_mt(k, d, id);
    assert forall|b: Asg| #[trigger] lk(d2, v, b) == (if inr(k, b) && zout(b, 0) { lb(k, lab(k, d, id, rv(k, b), 0)) } else { 0 }) by {
        if zeroes(b) { assert forall|l: int| 0 <= #[trigger] b(l) < ar(k, l) by {} assert(inr(k, b) && zout(b, 0)); }
        else if zout(b, 0) { assert(zeroes(b)) by { assert forall|l: int| #[trigger] b(l) == 0 by { assert(l < 0 || l >= 0); } } }
    }
}
pub open spec fn at(k: MS, n: int, c: int) -> int { if k.up { n - 1 - c } else { c } }
pub proof fn lemma_conv_node(k: MS, d: D, id: int, d1: D, ch: Seq<usize>, d2: D, r: int)
    requires dk(k, d), d.dom().contains(id), d[id] is N, ch.len() == ar(k, top(d, id)), d2.dom().contains(r), lv(d2, r) <= lv(d, id),
        forall|c: int| 0 <= c < ch.len() ==> conv(k, d, kid(d, id, at(k, ch.len() as int, c)), d1, #[trigger] ch[c] as int),
        forall|b: Asg| #[trigger] lk(d2, r, b) == lkn(d1, ch, top(d, id), b)
    ensures conv(k, d, id, d2, r)
{
    reveal(conv); lemma_mn(k, d, id);
    let x = top(d, id); let n = ch.len() as int;
    assert forall|b: Asg| #[trigger] lk(d2, r, b) == (if inr(k, b) && zout(b, x + 1) { lb(k, lab(k, d, id, rv(k, b), x + 1)) } else { 0 }) by {
        let c = b(x);
        if 0 <= c < n {
            let q = kid(d, id, at(k, n, c)); let m = lv(d, q);
            let b2 = with(b, x, 0);
            assert(c == 0 ==> b2 =~= b);
            assert(conv(k, d, q, d1, ch[c] as int));
            assert(lkn(d1, ch, x, b) == lk(d1, ch[c] as int, b2));
            assert(d.dom().contains(q) && 0 <= m <= x);
            if inr(k, b) && zout(b, x + 1) {
                let a = rv(k, b); let a2 = rv(k, b2);
                assert forall|l: int| 0 <= #[trigger] a(l) < ar(k, l) by { assert(0 <= b(l) < ar(k, l)); }
                assert forall|l: int| 0 <= #[trigger] b2(l) < ar(k, l) by { assert(0 <= b(l) < ar(k, l)); }
                assert forall|l: int| 0 <= #[trigger] a2(l) < ar(k, l) by { assert(0 <= b2(l) < ar(k, l)); }
                assert(inr(k, a) && inr(k, b2) && inr(k, a2));
                assert(a(x) == at(k, n, c));
                assert(atb(k, a, x + 1, x + 1));
                assert(lab(k, d, id, a, x + 1) == lab(k, d, q, a, x));
                lemma_lift(k, d, q, a, m, x);
                assert forall|l: int| 0 <= l < m implies #[trigger] a(l) == a2(l) by { assert(b2(l) == b(l)); }
                lemma_cong(k, d, q, a, a2, m);
                if zout(b2, m) {
                    assert forall|l: int| m <= l < x implies #[trigger] a(l) == bs(k, l) by { assert(b2(l) == 0); }
                } else {
                    let w = choose|l: int| (l < 0 || l >= m) && #[trigger] b2(l) != 0;
                    assert(b(w) != 0); assert(0 <= w < x + 1); assert(w != x);
                    assert(a(w) != bs(k, w));
                    assert(!atb(k, a, m, x));
                }
            } else if inr(k, b2) && zout(b2, m) {
                assert forall|l: int| 0 <= #[trigger] b(l) < ar(k, l) by { if l != x { assert(b(l) == b2(l)); } }
                assert forall|l: int| l < 0 || l >= x + 1 implies #[trigger] b(l) == 0 by { assert(b(l) == b2(l)); }
            }
        } else { assert(!inr(k, b)); }
    }
}
pub proof fn lemma_conv_lv(k: MS, d: D)
    ensures forall|d2: D, x: int, v: int| #[trigger] conv(k, d, x, d2, v) ==> d.dom().contains(x) && d2.dom().contains(v) && lv(d2, v) <= lv(d, x)
{ reveal(conv); }
// the set store grows
pub proof fn lemma_convs(k: MS, d: D)
    ensures forall|d2: D, d3: D, x: int, v: int| #![trigger conv(k, d, x, d2, v), lext(d2, d3)] lext(d2, d3) && conv(k, d, x, d2, v) ==> conv(k, d, x, d3, v)
{
    reveal(conv);
    assert forall|d2: D, d3: D, x: int, v: int| #![trigger conv(k, d, x, d2, v), lext(d2, d3)] lext(d2, d3) && conv(k, d, x, d2, v) implies conv(k, d, x, d3, v) by {
        assert(lv(d3, v) == lv(d2, v));
        assert forall|b: Asg| #[trigger] lk(d3, v, b) == (if inr(k, b) && zout(b, lv(d, x)) { lb(k, lab(k, d, x, rv(k, b), lv(d, x))) } else { 0 }) by { assert(lk(d3, v, b) == lk(d2, v, b)); }
    }
}
pub open spec fn memo_ok(k: MS, d: D, d2: D, memo: IMap<int, usize>) -> bool { forall|x: int| #[trigger] memo.dom().contains(x) ==> conv(k, d, x, d2, memo[x] as int) }
// the headers made so far: same level, same name, same number of states
#[verifier::opaque]
pub open spec fn hcopied(h: Seq<NodeHeader>, h2: Seq<NodeHeader>, zh: IMap<int, usize>) -> bool {
    forall|x: int| #[trigger] zh.dom().contains(x) ==> 0 <= x < h.len() && zh[x] < h2.len() && h2[zh[x] as int].level == h[x].level && h2[zh[x] as int].label@ == h[x].label@ && h2[zh[x] as int].edge_num == h[x].edge_num
}
// the two stores agree on the number of states of a level
#[verifier::opaque]
pub open spec fn hsame(h: Seq<NodeHeader>, h2: Seq<NodeHeader>) -> bool { forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h2.len() && (#[trigger] h[i]).level == (#[trigger] h2[j]).level ==> h[i].edge_num == h2[j].edge_num }
pub open spec fn hgrow(h: Seq<NodeHeader>, h2: Seq<NodeHeader>) -> bool { h2.len() >= h.len() && forall|i: int| 0 <= i < h.len() ==> #[trigger] h2[i] == h[i] }
pub open spec fn todo(n: int, zh: IMap<int, usize>) -> int decreases n { if n <= 0 { 0 } else { todo(n - 1, zh) + if zh.dom().contains(n - 1) { 0int } else { 1 } } }
pub proof fn lemma_todo(n: int, zh: IMap<int, usize>, k: int, v: usize)
    requires 0 <= k, !zh.dom().contains(k)
    ensures todo(n, zh.insert(k, v)) == todo(n, zh) - if k < n { 1int } else { 0 }, todo(n, zh) >= if k < n { 1int } else { 0 }
    decreases n
{ if n > 0 { lemma_todo(n - 1, zh, k, v); } }
// what a conversion in progress keeps
pub open spec fn going(k: MS, d: D, h: Seq<NodeHeader>, dst: &ZmddManager, zh: IMap<int, usize>, memo: IMap<int, usize>) -> bool {
    dst.wf() && memo_ok(k, d, dst.dag(), memo) && hcopied(h, dst.headers@, zh) && hsame(h, dst.headers@) && dst.headers.len() + todo(h.len() as int, zh) <= u32::MAX
}
//@fn mss zmdd_convert::dst_header
//@args dst hmap shid level label edge_num
//@ghost h: Seq<NodeHeader>
    requires old(dst).wf(), headers_ok(h), hcopied(h, old(dst).headers@, old(hmap)@), hsame(h, old(dst).headers@), old(dst).headers.len() + todo(h.len() as int, old(hmap)@) <= u32::MAX,
        shid < h.len(), h[shid as int].level == level, h[shid as int].label@ == label@, h[shid as int].edge_num == edge_num
    ensures final(dst).wf(), final(dst).dag() == old(dst).dag(), lext(old(dst).dag(), final(dst).dag()), hgrow(old(dst).headers@, final(dst).headers@), hcopied(h, final(dst).headers@, final(hmap)@), hsame(h, final(dst).headers@), final(dst).headers.len() + todo(h.len() as int, final(hmap)@) <= u32::MAX,
        r < final(dst).headers.len(), final(dst).hlevel(r as int) == level, final(dst).headers@[r as int].label@ == label@, final(dst).headers@[r as int].edge_num == edge_num
//@entry
    proof { reveal(hcopied); reveal(hsame); if !hmap@.dom().contains(shid as int) { lemma_todo(h.len() as int, hmap@, shid as int, dst.headers.len() as usize); } }
//@end
pub proof fn lemma_conv_nodes(k: MS, d: D, id: int)
    requires dk(k, d), d.dom().contains(id), d[id] is N
    ensures forall|d1: D, ch: Seq<usize>, d2: D, r: int| (#[trigger] lbuilt(d1, ch, top(d, id), d2, r)) && ch.len() == ar(k, top(d, id)) && d2.dom().contains(r) && lv(d2, r) <= lv(d, id)
        && (forall|c: int| 0 <= c < ch.len() ==> conv(k, d, kid(d, id, at(k, ch.len() as int, c)), d1, #[trigger] ch[c] as int)) ==> conv(k, d, id, d2, r)
{
    assert forall|d1: D, ch: Seq<usize>, d2: D, r: int| (#[trigger] lbuilt(d1, ch, top(d, id), d2, r)) && ch.len() == ar(k, top(d, id)) && d2.dom().contains(r) && lv(d2, r) <= lv(d, id)
        && (forall|c: int| 0 <= c < ch.len() ==> conv(k, d, kid(d, id, at(k, ch.len() as int, c)), d1, #[trigger] ch[c] as int)) implies conv(k, d, id, d2, r) by { reveal(lbuilt); lemma_conv_node(k, d, id, d1, ch, d2, r); }
}
//@fn mss zmdd_convert::to_zmdd_value
//@attr #[verifier::spinoff_prover]
//@args src root dst reverse hmap memo
//@pass dst_header h
    requires src.wf(), src.live(root as int), going(vkd(src.headers@, reverse), src.dag(), src.headers@, old(dst), old(hmap)@, old(memo)@)
    ensures going(vkd(src.headers@, reverse), src.dag(), src.headers@, final(dst), final(hmap)@, final(memo)@), lext(old(dst).dag(), final(dst).dag()), hgrow(old(dst).headers@, final(dst).headers@),
        conv(vkd(src.headers@, reverse), src.dag(), root as int, final(dst).dag(), r as int)
    decreases src.lvl(root as int)
//@entry
    let ghost k = vkd(src.headers@, reverse); let ghost h = src.headers@;
    proof {
        src.lemma_node(root as int); lemma_vnode(src, root as int, reverse); lemma_convs(k, src.dag()); lemma_conv_lv(k, src.dag()); dst.lemma_zbase();
        if src.dag()[root as int] is N { lemma_conv_nodes(k, src.dag(), root as int); }
    }
//@mapinv
    going(k, src.dag(), h, dst, hmap@, memo@), lext(old(dst).dag(), dst.dag()), hgrow(old(dst).headers@, dst.headers@),
    forall|vx_j: int| 0 <= vx_j < $i ==> conv(k, src.dag(), $a1 as int, dst.dag(), #[trigger] $v@[vx_j] as int),
//@exit
    proof { if src.dag()[root as int] is T && !old(memo)@.dom().contains(root as int) { lemma_conv_term(k, src.dag(), root as int, dst.dag(), vx_r as int); } }
//@end
//@fn mss zmdd_convert::to_zmdd_bool
//@attr #[verifier::spinoff_prover]
//@args src root dst reverse hmap memo
//@pass dst_header h
    requires src.wf(), src.live(root as int), going(bkd(src.headers@, reverse), src.dag(), src.headers@, old(dst), old(hmap)@, old(memo)@)
    ensures going(bkd(src.headers@, reverse), src.dag(), src.headers@, final(dst), final(hmap)@, final(memo)@), lext(old(dst).dag(), final(dst).dag()), hgrow(old(dst).headers@, final(dst).headers@),
        conv(bkd(src.headers@, reverse), src.dag(), root as int, final(dst).dag(), r as int)
    decreases src.lvl(root as int)
//@entry
    let ghost k = bkd(src.headers@, reverse); let ghost h = src.headers@;
    proof {
        src.lemma_node(root as int); lemma_bnode(src, root as int, reverse); lemma_convs(k, src.dag()); lemma_conv_lv(k, src.dag()); dst.lemma_zbase();
        if src.dag()[root as int] is N { lemma_conv_nodes(k, src.dag(), root as int); }
    }
//@mapinv
    going(k, src.dag(), h, dst, hmap@, memo@), lext(old(dst).dag(), dst.dag()), hgrow(old(dst).headers@, dst.headers@),
    forall|vx_j: int| 0 <= vx_j < $i ==> conv(k, src.dag(), $a1 as int, dst.dag(), #[trigger] $v@[vx_j] as int),
//@exit
    proof { if src.dag()[root as int] is T && !old(memo)@.dom().contains(root as int) { lemma_conv_term(k, src.dag(), root as int, dst.dag(), vx_r as int); } }
//@end
// the conversion of an answer: every vector of the source under its label, nothing else
pub open spec fn family(m: &MtMdd2Manager, n: Node, reverse: bool, d2: D, r: int) -> bool {
    match n { Node::Value(v) => conv(vkd(m.mtmdd.headers@, reverse), m.vd(), v as int, d2, r), Node::Bool(v) => conv(bkd(m.mdd.headers@, reverse), m.bd(), v as int, d2, r) }
}
//@fn mss zmdd_convert::to_zmdd
//@args src node dst reverse
    requires src.wf(), src.live(*node), old(dst).wf(), hsame(src.mdd.headers@, old(dst).headers@), hsame(src.mtmdd.headers@, old(dst).headers@), old(dst).headers.len() + src.mdd.headers.len() <= u32::MAX
    ensures final(dst).wf(), lext(old(dst).dag(), final(dst).dag()), hgrow(old(dst).headers@, final(dst).headers@), family(src, *node, reverse, final(dst).dag(), r as int)
//@entry
    proof { lemma_todo0(src.mdd.headers.len() as int); reveal(hcopied); }
//@end
pub proof fn lemma_todo0(n: int)
    requires n >= 0
    ensures todo(n, IMap::empty()) == n
    decreases n
{ if n > 0 { lemma_todo0(n - 1); } }
}

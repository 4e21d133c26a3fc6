// ---------------------------------------------------------------- handles of the manager of labelled vectors
pub mod mzw { use super::*;
broadcast use {numax::axiom_num, numax::axiom_num_eq};
pub use m2::*;
use std::rc::Rc;
pub use zmdd::{ZmddManager, ZmddOperation, opz, enc, lkept, Node as ZNode};
pub use mse::{family, hsame, hgrow, zmdd_convert__to_zmdd};
//@item mss zmdd::GC_FLOOR
//@item mss zmdd::GcState
//@item mss zmdd::ZmddNode
//@item mss zmdd::ZmddMgr
pub type Pins = IMap<int, u32>;
pub open spec fn npin(m: Pins, n: int) -> int { if m.dom().contains(n) { m[n] as int } else { 0 } }
// every pinned node is there, with a positive number of handles
pub open spec fn hinv(b: &ZmddManager, g: &GcState) -> bool {
    &&& b.wf()
    &&& forall|n: int| #[trigger] g.roots@.dom().contains(n) ==> b.live(n) && g.roots@[n] >= 1
}
pub open spec fn roomk(m: Pins, k: int) -> bool { forall|n: int| #[trigger] m.dom().contains(n) ==> m[n] + k <= u32::MAX }
pub open spec fn room(g: &GcState) -> bool { roomk(g.roots@, 1) }
pub open spec fn pins(g: &GcState, h: &ZmddNode) -> bool { g.roots@.dom().contains(h.node as int) && g.roots@[h.node as int] >= 1 }
pub open spec fn inc(m: Pins, n: int) -> Pins { m.insert(n, (npin(m, n) + 1) as u32) }
pub open spec fn dec1(m: Pins, n: int) -> Pins { if npin(m, n) <= 1 { m.remove(n) } else { m.insert(n, (m[n] - 1) as u32) } }
pub open spec fn hpre(b: &ZmddManager, b2: &ZmddManager) -> bool { hgrow(b.headers@, b2.headers@) }
// the pinned nodes survive, with the labelled vectors they stand for
#[verifier::opaque]
pub open spec fn surv(b: &ZmddManager, b2: &ZmddManager, m: Pins) -> bool {
    &&& hpre(b, b2)
    &&& forall|n: int| #[trigger] m.dom().contains(n) ==> b2.live(n) && b2.dag()[n] == b.dag()[n]
    &&& forall|n: int, a: Asg| m.dom().contains(n) ==> #[trigger] lk(b2.dag(), n, a) == lk(b.dag(), n, a)
}
pub open spec fn all_keys(m: Pins, ks: Seq<usize>) -> bool { forall|n: int| #[trigger] m.dom().contains(n) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] as int == n }
// r holds, in the diagram d, the result of the operation on the labels f and g gave in d0
#[verifier::opaque]
pub open spec fn fam_ok(d0: D, k: ZmddOperation, f: int, g: int, d: D, r: int) -> bool { forall|a: Asg| #[trigger] lk(d, r, a) == opz(k, lk(d0, f, a), lk(d0, g, a)) }
pub proof fn lemma_keep(b: &ZmddManager, b2: &ZmddManager, m: Pins, ks: Seq<usize>)
    requires kept(b.dag(), b2.dag(), zmdd::base1(), ks), lkept(b.dag(), b2.dag()), all_keys(m, ks), b.headers@ == b2.headers@
    ensures surv(b, b2, m)
{
    reveal(surv);
    assert forall|n: int| #[trigger] m.dom().contains(n) implies b2.live(n) && b2.dag()[n] == b.dag()[n] by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] as int == n; assert(b2.dag().dom().contains(ks[i] as int)); }
    assert forall|n: int, a: Asg| m.dom().contains(n) implies #[trigger] lk(b2.dag(), n, a) == lk(b.dag(), n, a) by { assert(b2.live(n)); }
}
pub proof fn lemma_keep_all()
    ensures forall|b: ZmddManager, b2: ZmddManager, m: Pins, ks: Seq<usize>| #![trigger kept(b.dag(), b2.dag(), zmdd::base1(), ks), all_keys(m, ks)] kept(b.dag(), b2.dag(), zmdd::base1(), ks) && lkept(b.dag(), b2.dag()) && all_keys(m, ks) && b.headers@ == b2.headers@ ==> surv(&b, &b2, m)
{ assert forall|b: ZmddManager, b2: ZmddManager, m: Pins, ks: Seq<usize>| #![trigger kept(b.dag(), b2.dag(), zmdd::base1(), ks), all_keys(m, ks)] kept(b.dag(), b2.dag(), zmdd::base1(), ks) && lkept(b.dag(), b2.dag()) && all_keys(m, ks) && b.headers@ == b2.headers@ implies surv(&b, &b2, m) by { lemma_keep(&b, &b2, m, ks); } }
pub open spec fn onto(b0: &ZmddManager, bm: &ZmddManager) -> bool { hgrow(b0.headers@, bm.headers@) && lext(b0.dag(), bm.dag()) }
pub proof fn lemma_surv_pin(b0: &ZmddManager, bm: &ZmddManager, b1: &ZmddManager, m: Pins, n: int)
    requires b0.wf(), onto(b0, bm), forall|x: int| #[trigger] m.dom().contains(x) ==> b0.live(x), surv(bm, b1, inc(m, n))
    ensures surv(b0, b1, m)
{
    reveal(surv);
    assert forall|x: int| #[trigger] m.dom().contains(x) implies b1.live(x) && b1.dag()[x] == b0.dag()[x] by { assert(inc(m, n).dom().contains(x)); assert(b0.live(x)); }
    assert forall|x: int, a: Asg| m.dom().contains(x) implies #[trigger] lk(b1.dag(), x, a) == lk(b0.dag(), x, a) by { assert(inc(m, n).dom().contains(x)); assert(b0.live(x)); assert(lk(b1.dag(), x, a) == lk(bm.dag(), x, a)); }
}
pub proof fn lemma_fam(b0: &ZmddManager, bm: &ZmddManager, b1: &ZmddManager, m: Pins, k: ZmddOperation, f: int, g: int, r: int)
    requires b0.live(f), b0.live(g), bm.ext(b0), zmdd::apply_ok(bm.dag(), k, f, g, r), surv(bm, b1, inc(m, r))
    ensures fam_ok(b0.dag(), k, f, g, b1.dag(), r)
{
    reveal(surv); reveal(fam_ok);
    assert(inc(m, r).dom().contains(r));
    assert forall|a: Asg| #[trigger] lk(b1.dag(), r, a) == opz(k, lk(b0.dag(), f, a), lk(b0.dag(), g, a)) by { assert(lk(b1.dag(), r, a) == lk(bm.dag(), r, a)); assert(lk(bm.dag(), f, a) == lk(b0.dag(), f, a) && lk(bm.dag(), g, a) == lk(b0.dag(), g, a)); }
}
pub proof fn lemma_hand()
    ensures
        forall|b0: ZmddManager, b1: ZmddManager, g: GcState, n: int| #![trigger hinv(&b0, &g), surv(&b0, &b1, inc(g.roots@, n))] hinv(&b0, &g) && surv(&b0, &b1, inc(g.roots@, n)) ==> surv(&b0, &b1, g.roots@),
        forall|b0: ZmddManager, bm: ZmddManager, b1: ZmddManager, g: GcState, n: int| #![trigger bm.ext(&b0), hinv(&b0, &g), surv(&bm, &b1, inc(g.roots@, n))] bm.ext(&b0) && hinv(&b0, &g) && surv(&bm, &b1, inc(g.roots@, n)) ==> surv(&b0, &b1, g.roots@),
        forall|b0: ZmddManager, bm: ZmddManager, b1: ZmddManager, m: Pins, k: ZmddOperation, f: int, g: int, r: int| #![trigger bm.ext(&b0), zmdd::apply_ok(bm.dag(), k, f, g, r), surv(&bm, &b1, inc(m, r))] b0.live(f) && b0.live(g) && bm.ext(&b0) && zmdd::apply_ok(bm.dag(), k, f, g, r) && surv(&bm, &b1, inc(m, r)) ==> fam_ok(b0.dag(), k, f, g, b1.dag(), r),
{
    assert forall|b0: ZmddManager, b1: ZmddManager, g: GcState, n: int| #![trigger hinv(&b0, &g), surv(&b0, &b1, inc(g.roots@, n))] hinv(&b0, &g) && surv(&b0, &b1, inc(g.roots@, n)) implies surv(&b0, &b1, g.roots@) by { lemma_surv_pin(&b0, &b0, &b1, g.roots@, n); }
    assert forall|b0: ZmddManager, bm: ZmddManager, b1: ZmddManager, g: GcState, n: int| #![trigger bm.ext(&b0), hinv(&b0, &g), surv(&bm, &b1, inc(g.roots@, n))] bm.ext(&b0) && hinv(&b0, &g) && surv(&bm, &b1, inc(g.roots@, n)) implies surv(&b0, &b1, g.roots@) by { lemma_surv_pin(&b0, &bm, &b1, g.roots@, n); }
    assert forall|b0: ZmddManager, bm: ZmddManager, b1: ZmddManager, m: Pins, k: ZmddOperation, f: int, g: int, r: int| #![trigger bm.ext(&b0), zmdd::apply_ok(bm.dag(), k, f, g, r), surv(&bm, &b1, inc(m, r))] b0.live(f) && b0.live(g) && bm.ext(&b0) && zmdd::apply_ok(bm.dag(), k, f, g, r) && surv(&bm, &b1, inc(m, r)) implies fam_ok(b0.dag(), k, f, g, b1.dag(), r) by { lemma_fam(&b0, &bm, &b1, m, k, f, g, r); }
}
//@fn mss zmdd::ZmddNode::from_weak
//@args node reverse vars vx_gc
    requires room(old(vx_gc))
    ensures r.node == node, r.reverse == reverse, r.vars == vars, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn mss zmdd::ZmddNode::new
//@args node reverse vars vx_gc
    requires room(old(vx_gc))
    ensures r.node == node, r.reverse == reverse, r.vars == vars, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn mss zmdd::ZmddNode::clone
//@args vx_gc
    requires room(old(vx_gc))
    ensures r.node == self.node, r.reverse == self.reverse, r.vars == self.vars, final(vx_gc).roots@ == inc(old(vx_gc).roots@, self.node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn mss zmdd::ZmddNode::drop
//@args vx_gc
    requires pins(old(vx_gc), old(self))
    ensures final(self).node == old(self).node, final(vx_gc).roots@ == dec1(old(vx_gc).roots@, old(self).node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor,
        forall|b: ZmddManager| #[trigger] hinv(&b, old(vx_gc)) ==> hinv(&b, final(vx_gc))
//@end
//@fn mss zmdd::maybe_gc
//@args vx_zmdd vx_gc
    requires hinv(old(vx_zmdd), old(vx_gc))
    ensures hinv(final(vx_zmdd), final(vx_gc)), final(vx_gc).roots@ == old(vx_gc).roots@, final(vx_zmdd).headers@ == old(vx_zmdd).headers@, surv(old(vx_zmdd), final(vx_zmdd), old(vx_gc).roots@)
//@entry
    proof { reveal(surv); lemma_keep_all(); }
//@end
//@fn mss zmdd::ZmddNode::rewrap
//@args node vx_zmdd vx_gc
    requires hinv(old(vx_zmdd), old(vx_gc)), room(old(vx_gc)), old(vx_zmdd).live(node as int)
    ensures hinv(final(vx_zmdd), final(vx_gc)), r.node == node, r.reverse == self.reverse, r.vars == self.vars, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_zmdd).headers@ == old(vx_zmdd).headers@, surv(old(vx_zmdd), final(vx_zmdd), final(vx_gc).roots@)
//@end
//@fn mss zmdd::ZmddMgr::wrap
//@args node reverse vars vx_zmdd vx_gc
    requires hinv(old(vx_zmdd), old(vx_gc)), room(old(vx_gc)), old(vx_zmdd).live(node as int)
    ensures hinv(final(vx_zmdd), final(vx_gc)), r.node == node, r.reverse == reverse, r.vars == vars, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_zmdd).headers@ == old(vx_zmdd).headers@, surv(old(vx_zmdd), final(vx_zmdd), final(vx_gc).roots@)
//@end
//@fn mss zmdd::ZmddNode::intersect
//@args other vx_zmdd vx_gc
    requires hinv(old(vx_zmdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_zmdd), final(vx_gc)), r.reverse == self.reverse, r.vars == self.vars, final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zmdd).headers@ == old(vx_zmdd).headers@, surv(old(vx_zmdd), final(vx_zmdd), old(vx_gc).roots@), fam_ok(old(vx_zmdd).dag(), ZmddOperation::Intersect, self.node as int, other.node as int, final(vx_zmdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss zmdd::ZmddNode::setdiff
//@args other vx_zmdd vx_gc
    requires hinv(old(vx_zmdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_zmdd), final(vx_gc)), r.reverse == self.reverse, r.vars == self.vars, final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zmdd).headers@ == old(vx_zmdd).headers@, surv(old(vx_zmdd), final(vx_zmdd), old(vx_gc).roots@), fam_ok(old(vx_zmdd).dag(), ZmddOperation::Setdiff, self.node as int, other.node as int, final(vx_zmdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss zmdd::ZmddNode::get_id
    ensures r == self.node
//@end
//@fn mss zmdd::ZmddNode::is_cut
    ensures r == self.reverse
//@end
//@fn mss zmdd::ZmddMgr::new
//@args vx_zmdd vx_gc
    ensures hinv(final(vx_zmdd), final(vx_gc)), final(vx_gc).roots@ == Pins::empty(), final(vx_zmdd).headers@.len() == 0
//@end
//@fn mss zmdd::ZmddMgr::clear_cache
//@args vx_zmdd
    requires old(vx_zmdd).wf()
    ensures final(vx_zmdd).wf(), final(vx_zmdd).dag() == old(vx_zmdd).dag(), final(vx_zmdd).headers@ == old(vx_zmdd).headers@
//@end
// the vectors of the source under their labels, and the baseline vector under v unless it had a label already
#[verifier::opaque]
pub open spec fn based(m: &MtMdd2Manager, n: Node, reverse: bool, v: int, d: D, r: int) -> bool {
    exists|d1: D, r1: int| #[trigger] family(m, n, reverse, d1, r1) && forall|a: Asg| #[trigger] lk(d, r, a) == if zeroes(a) && lk(d1, r1, a) == 0 { enc(v) } else { lk(d1, r1, a) }
}
pub proof fn lemma_based(b0: &ZmddManager, b1: &ZmddManager, bm: &ZmddManager, b2: &ZmddManager, g: &GcState, m: &MtMdd2Manager, n: Node, reverse: bool, v: int, r1: int, r: int)
    requires hinv(b0, g), onto(b0, b1), family(m, n, reverse, b1.dag(), r1), bm.ext(b1), surv(bm, b2, inc(g.roots@, r)),
        forall|a: Asg| #[trigger] lk(bm.dag(), r, a) == if zeroes(a) && lk(b1.dag(), r1, a) == 0 { enc(v) } else { lk(b1.dag(), r1, a) }
    ensures based(m, n, reverse, v, b2.dag(), r), surv(b0, b2, g.roots@)
{
    assert(inc(g.roots@, r).dom().contains(r));
    assert(onto(b0, bm)) by { assert forall|id: int, a: Asg| b0.dag().dom().contains(id) implies #[trigger] lk(bm.dag(), id, a) == lk(b0.dag(), id, a) by { assert(lk(b1.dag(), id, a) == lk(b0.dag(), id, a)); } }
    lemma_surv_pin(b0, bm, b2, g.roots@, r);
    reveal(based); reveal(surv);
    let d1 = b1.dag();
    assert forall|a: Asg| #[trigger] lk(b2.dag(), r, a) == if zeroes(a) && lk(d1, r1, a) == 0 { enc(v) } else { lk(d1, r1, a) } by { assert(lk(b2.dag(), r, a) == lk(bm.dag(), r, a)); }
}
pub proof fn lemma_bases(m: &MtMdd2Manager, n: Node, reverse: bool, v: int)
    ensures forall|d: D, x: int| #[trigger] family(m, n, reverse, d, x) ==> d.dom().contains(x),
        forall|b0: ZmddManager, b1: ZmddManager, bm: ZmddManager, b2: ZmddManager, g: GcState, r1: int, r: int| #![trigger hinv(&b0, &g), family(m, n, reverse, b1.dag(), r1), bm.ext(&b1), surv(&bm, &b2, inc(g.roots@, r))]
            hinv(&b0, &g) && onto(&b0, &b1) && family(m, n, reverse, b1.dag(), r1) && bm.ext(&b1) && surv(&bm, &b2, inc(g.roots@, r)) && (forall|a: Asg| #[trigger] lk(bm.dag(), r, a) == if zeroes(a) && lk(b1.dag(), r1, a) == 0 { enc(v) } else { lk(b1.dag(), r1, a) })
            ==> based(m, n, reverse, v, b2.dag(), r) && surv(&b0, &b2, g.roots@)
{
    reveal(mse::conv);
    assert forall|b0: ZmddManager, b1: ZmddManager, bm: ZmddManager, b2: ZmddManager, g: GcState, r1: int, r: int| #![trigger hinv(&b0, &g), family(m, n, reverse, b1.dag(), r1), bm.ext(&b1), surv(&bm, &b2, inc(g.roots@, r))]
            hinv(&b0, &g) && onto(&b0, &b1) && family(m, n, reverse, b1.dag(), r1) && bm.ext(&b1) && surv(&bm, &b2, inc(g.roots@, r)) && (forall|a: Asg| #[trigger] lk(bm.dag(), r, a) == if zeroes(a) && lk(b1.dag(), r1, a) == 0 { enc(v) } else { lk(b1.dag(), r1, a) })
            implies based(m, n, reverse, v, b2.dag(), r) && surv(&b0, &b2, g.roots@) by { lemma_based(&b0, &b1, &bm, &b2, &g, m, n, reverse, v, r1, r); }
}
//@fn mss zmdd::ZmddMgr::convert
//@args node vars baseline vx_zmdd vx_gc vx_mdd
    requires hinv(old(vx_zmdd), old(vx_gc)), room(old(vx_gc)), vx_mdd.wf(), vx_mdd.live(*node), hsame(vx_mdd.mdd.headers@, old(vx_zmdd).headers@), hsame(vx_mdd.mtmdd.headers@, old(vx_zmdd).headers@), old(vx_zmdd).headers.len() + vx_mdd.mdd.headers.len() <= u32::MAX
    ensures hinv(final(vx_zmdd), final(vx_gc)), !r.reverse, r.vars == vars, final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), surv(old(vx_zmdd), final(vx_zmdd), old(vx_gc).roots@),
        based(vx_mdd, *node, false, baseline.v(), final(vx_zmdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); lemma_bases(vx_mdd, *node, false, baseline.v()); }
//@end
//@fn mss zmdd::ZmddMgr::convert_rev
//@args node vars baseline vx_zmdd vx_gc vx_mdd
    requires hinv(old(vx_zmdd), old(vx_gc)), room(old(vx_gc)), vx_mdd.wf(), vx_mdd.live(*node), hsame(vx_mdd.mdd.headers@, old(vx_zmdd).headers@), hsame(vx_mdd.mtmdd.headers@, old(vx_zmdd).headers@), old(vx_zmdd).headers.len() + vx_mdd.mdd.headers.len() <= u32::MAX
    ensures hinv(final(vx_zmdd), final(vx_gc)), r.reverse, r.vars == vars, final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), surv(old(vx_zmdd), final(vx_zmdd), old(vx_gc).roots@),
        based(vx_mdd, *node, true, baseline.v(), final(vx_zmdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); lemma_bases(vx_mdd, *node, true, baseline.v()); }
//@end
}

// ---------------------------------------------------------------- handles of the multi-state manager
pub use m2::*;
pub mod mh { use super::*;
broadcast use {numax::axiom_num, numax::axiom_num_eq};
//@item mss mdd::GC_FLOOR
//@item mss mdd::GcState
//@item mss mdd::MddNode
//@item mss mdd::MddMgr
pub type Pins = IMap<Node, u32>;
pub open spec fn npin(m: Pins, n: Node) -> int { if m.dom().contains(n) { m[n] as int } else { 0 } }
// every pinned node is there, with a positive number of handles
pub open spec fn hinv(b: &MtMdd2Manager, g: &GcState) -> bool {
    &&& b.wf()
    &&& forall|n: Node| #[trigger] g.roots@.dom().contains(n) ==> b.live(n) && g.roots@[n] >= 1
}
pub open spec fn roomk(m: Pins, k: int) -> bool { forall|n: Node| #[trigger] m.dom().contains(n) ==> m[n] + k <= u32::MAX }
pub open spec fn room(g: &GcState) -> bool { roomk(g.roots@, 1) }
pub open spec fn pins(g: &GcState, h: &MddNode) -> bool { g.roots@.dom().contains(h.node) && g.roots@[h.node] >= 1 }
pub open spec fn inc(m: Pins, n: Node) -> Pins { m.insert(n, (npin(m, n) + 1) as u32) }
pub open spec fn dec1(m: Pins, n: Node) -> Pins { if npin(m, n) <= 1 { m.remove(n) } else { m.insert(n, (m[n] - 1) as u32) } }
pub open spec fn incs(m: Pins, ns: Seq<Node>) -> Pins decreases ns.len() { if ns.len() == 0 { m } else { inc(incs(m, ns.drop_last()), ns.last()) } }
// headers are only ever added
pub open spec fn hpre(b: &MtMdd2Manager, b2: &MtMdd2Manager) -> bool {
    &&& b.mtmdd.headers@.len() <= b2.mtmdd.headers@.len() && forall|i: int| 0 <= i < b.mtmdd.headers@.len() ==> b2.mtmdd.headers@[i] == #[trigger] b.mtmdd.headers@[i]
    &&& b.mdd.headers@.len() <= b2.mdd.headers@.len() && forall|i: int| 0 <= i < b.mdd.headers@.len() ==> b2.mdd.headers@[i] == #[trigger] b.mdd.headers@[i]
}
pub open spec fn heads(b: &MtMdd2Manager, b2: &MtMdd2Manager) -> bool { b.mtmdd.headers@ == b2.mtmdd.headers@ && b.mdd.headers@ == b2.mdd.headers@ }
// the node of the diagram a node stands for
pub open spec fn at(b: &MtMdd2Manager, n: Node) -> SN { match n { Node::Value(v) => b.vd()[v as int], Node::Bool(v) => b.bd()[v as int] } }
// the pinned nodes survive as they are
#[verifier::opaque]
pub open spec fn surv(b: &MtMdd2Manager, b2: &MtMdd2Manager, m: Pins) -> bool {
    &&& hpre(b, b2)
    &&& forall|n: Node| #[trigger] m.dom().contains(n) ==> b2.live(n) && at(b2, n) == at(b, n)
    &&& forall|n: Node, a: Asg| m.dom().contains(n) ==> #[trigger] b2.ev(n, a) == b.ev(n, a)
}
pub open spec fn pinned(g: &GcState, ns: Seq<MddNode>) -> bool { forall|i: int| 0 <= i < ns.len() ==> pins(g, &#[trigger] ns[i]) }
pub open spec fn nds(ns: Seq<MddNode>) -> Seq<Node> { ns.map_values(|h: MddNode| h.node) }
pub open spec fn in_pins(m: Pins, ns: Seq<Node>) -> bool { forall|i: int| 0 <= i < ns.len() ==> m.dom().contains(#[trigger] ns[i]) }
pub open spec fn all_keys(m: Pins, ks: Seq<Node>) -> bool { forall|n: Node| #[trigger] m.dom().contains(n) ==> ks.contains(n) }
// a collection that keeps the pinned nodes
pub proof fn lemma_keep(b: &MtMdd2Manager, b2: &MtMdd2Manager, m: Pins, ks: Seq<Node>)
    requires kept2(b, b2, ks), all_keys(m, ks), heads(b, b2)
    ensures surv(b, b2, m)
{
    reveal(surv);
    let (vr, br) = choose|vr: Seq<usize>, br: Seq<usize>| #![trigger kept(b.vd(), b2.vd(), mtmdd::base1(), vr), kept(b.bd(), b2.bd(), base3(), br)]
        kept(b.vd(), b2.vd(), mtmdd::base1(), vr) && kept(b.bd(), b2.bd(), base3(), br)
        && (forall|x: usize| vr.contains(x) <==> ks.contains(Node::Value(x))) && (forall|x: usize| br.contains(x) <==> ks.contains(Node::Bool(x)));
    assert forall|n: Node| #[trigger] m.dom().contains(n) implies b2.live(n) && at(b2, n) == at(b, n) by {
        assert(ks.contains(n));
        match n { Node::Value(x) => { assert(vr.contains(x)); let i = choose|i: int| 0 <= i < vr.len() && vr[i] == x; assert(b2.vd().dom().contains(vr[i] as int)); }, Node::Bool(x) => { assert(br.contains(x)); let i = choose|i: int| 0 <= i < br.len() && br[i] == x; assert(b2.bd().dom().contains(br[i] as int)); } }
    }
    assert forall|n: Node, a: Asg| m.dom().contains(n) implies #[trigger] b2.ev(n, a) == b.ev(n, a) by { assert(b2.live(n)); }
}
pub proof fn lemma_keep_all()
    ensures forall|b: MtMdd2Manager, b2: MtMdd2Manager, m: Pins, ks: Seq<Node>| #![trigger kept2(&b, &b2, ks), all_keys(m, ks)] kept2(&b, &b2, ks) && all_keys(m, ks) && heads(&b, &b2) ==> surv(&b, &b2, m),
        forall|b: MtMdd2Manager, m: Pins| #[trigger] surv(&b, &b, m) <==> (forall|n: Node| #[trigger] m.dom().contains(n) ==> b.live(n)),
{
    assert forall|b: MtMdd2Manager, b2: MtMdd2Manager, m: Pins, ks: Seq<Node>| #![trigger kept2(&b, &b2, ks), all_keys(m, ks)] kept2(&b, &b2, ks) && all_keys(m, ks) && heads(&b, &b2) implies surv(&b, &b2, m) by { lemma_keep(&b, &b2, m, ks); }
    assert forall|b: MtMdd2Manager, m: Pins| #[trigger] surv(&b, &b, m) <==> (forall|n: Node| #[trigger] m.dom().contains(n) ==> b.live(n)) by { reveal(surv); }
}
pub proof fn lemma_bin_surv(b: &MtMdd2Manager, b1: &MtMdd2Manager, m: Pins, k: BinOp, f: Node, g: Node, r: Node)
    requires surv(b, b1, m), bin_ok(b, k, f, g, r), m.dom().contains(f), m.dom().contains(g), m.dom().contains(r)
    ensures bin_ok(b1, k, f, g, r)
{
    reveal(surv);
    assert forall|a: Asg| #[trigger] b1.ev(r, a) == b.ev(r, a) && b1.ev(f, a) == b.ev(f, a) && b1.ev(g, a) == b.ev(g, a) by { }
}
pub proof fn lemma_not_surv(b: &MtMdd2Manager, b1: &MtMdd2Manager, m: Pins, f: Node, r: Node)
    requires surv(b, b1, m), not_ok(b, f, r), m.dom().contains(f), m.dom().contains(r)
    ensures not_ok(b1, f, r)
{
    reveal(surv);
    assert forall|a: Asg| #[trigger] b1.ev(r, a) == b.ev(r, a) && b1.ev(f, a) == b.ev(f, a) by { }
}
pub proof fn lemma_tern_surv(b: &MtMdd2Manager, b1: &MtMdd2Manager, m: Pins, f: Node, g: Node, h: Node, r: Node)
    requires surv(b, b1, m), tern_ok(b, f, g, h, r), m.dom().contains(f), m.dom().contains(g), m.dom().contains(h), m.dom().contains(r)
    ensures tern_ok(b1, f, g, h, r)
{
    reveal(surv);
    assert forall|a: Asg| #[trigger] b1.ev(r, a) == b.ev(r, a) && b1.ev(f, a) == b.ev(f, a) && b1.ev(g, a) == b.ev(g, a) && b1.ev(h, a) == b.ev(h, a) by { }
}
pub proof fn lemma_surv_pin(b0: &MtMdd2Manager, bm: &MtMdd2Manager, b1: &MtMdd2Manager, m: Pins, n: Node)
    requires b0.wf(), bm.ext(b0) || bm == b0, forall|x: Node| #[trigger] m.dom().contains(x) ==> b0.live(x), surv(bm, b1, inc(m, n))
    ensures surv(b0, b1, m)
{
    reveal(surv);
    assert forall|x: Node| #[trigger] m.dom().contains(x) implies b1.live(x) && at(b1, x) == at(b0, x) by { assert(inc(m, n).dom().contains(x)); assert(b0.live(x)); }
    assert forall|x: Node, a: Asg| m.dom().contains(x) implies #[trigger] b1.ev(x, a) == b0.ev(x, a) by { assert(inc(m, n).dom().contains(x)); assert(b0.live(x)); assert(b1.ev(x, a) == bm.ev(x, a)); }
}
pub proof fn lemma_hand()
    ensures
        forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, k: BinOp, f: Node, g: Node, r: Node| #![trigger surv(&bm, &b1, m), bin_ok(&bm, k, f, g, r)] surv(&bm, &b1, m) && bin_ok(&bm, k, f, g, r) && m.dom().contains(f) && m.dom().contains(g) && m.dom().contains(r) ==> bin_ok(&b1, k, f, g, r),
        forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, f: Node, r: Node| #![trigger surv(&bm, &b1, m), not_ok(&bm, f, r)] surv(&bm, &b1, m) && not_ok(&bm, f, r) && m.dom().contains(f) && m.dom().contains(r) ==> not_ok(&b1, f, r),
        forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, f: Node, g: Node, h: Node, r: Node| #![trigger surv(&bm, &b1, m), tern_ok(&bm, f, g, h, r)] surv(&bm, &b1, m) && tern_ok(&bm, f, g, h, r) && m.dom().contains(f) && m.dom().contains(g) && m.dom().contains(h) && m.dom().contains(r) ==> tern_ok(&b1, f, g, h, r),
        forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, l: int, ns: Seq<Node>, r: Node| #![trigger surv(&bm, &b1, m), made(&bm, l, ns, r)] surv(&bm, &b1, m) && made(&bm, l, ns, r) && m.dom().contains(r) ==> made(&b1, l, ns, r),
        forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, n: Node, a: Asg| #![trigger surv(&bm, &b1, m), b1.ev(n, a)] surv(&bm, &b1, m) && m.dom().contains(n) ==> b1.ev(n, a) == bm.ev(n, a),
        forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, n: Node| #![trigger surv(&bm, &b1, m), b1.live(n)] surv(&bm, &b1, m) && m.dom().contains(n) ==> b1.live(n) && at(&b1, n) == at(&bm, n),
        forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins| #[trigger] surv(&bm, &b1, m) ==> hpre(&bm, &b1),
        forall|b0: MtMdd2Manager, b1: MtMdd2Manager, g: GcState, n: Node| #![trigger hinv(&b0, &g), surv(&b0, &b1, inc(g.roots@, n))] hinv(&b0, &g) && surv(&b0, &b1, inc(g.roots@, n)) ==> surv(&b0, &b1, g.roots@),
        forall|b0: MtMdd2Manager, bm: MtMdd2Manager, b1: MtMdd2Manager, g: GcState, n: Node| #![trigger bm.ext(&b0), hinv(&b0, &g), surv(&bm, &b1, inc(g.roots@, n))] bm.ext(&b0) && hinv(&b0, &g) && surv(&bm, &b1, inc(g.roots@, n)) ==> surv(&b0, &b1, g.roots@),
{
    assert forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, k: BinOp, f: Node, g: Node, r: Node| #![trigger surv(&bm, &b1, m), bin_ok(&bm, k, f, g, r)] surv(&bm, &b1, m) && bin_ok(&bm, k, f, g, r) && m.dom().contains(f) && m.dom().contains(g) && m.dom().contains(r) implies bin_ok(&b1, k, f, g, r) by { lemma_bin_surv(&bm, &b1, m, k, f, g, r); }
    assert forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, f: Node, r: Node| #![trigger surv(&bm, &b1, m), not_ok(&bm, f, r)] surv(&bm, &b1, m) && not_ok(&bm, f, r) && m.dom().contains(f) && m.dom().contains(r) implies not_ok(&b1, f, r) by { lemma_not_surv(&bm, &b1, m, f, r); }
    assert forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, f: Node, g: Node, h: Node, r: Node| #![trigger surv(&bm, &b1, m), tern_ok(&bm, f, g, h, r)] surv(&bm, &b1, m) && tern_ok(&bm, f, g, h, r) && m.dom().contains(f) && m.dom().contains(g) && m.dom().contains(h) && m.dom().contains(r) implies tern_ok(&b1, f, g, h, r) by { lemma_tern_surv(&bm, &b1, m, f, g, h, r); }
    assert forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, l: int, ns: Seq<Node>, r: Node| #![trigger surv(&bm, &b1, m), made(&bm, l, ns, r)] surv(&bm, &b1, m) && made(&bm, l, ns, r) && m.dom().contains(r) implies made(&b1, l, ns, r) by { reveal(surv); reveal(mbuilt); assert(at(&b1, r) == at(&bm, r)); }
    assert forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, n: Node, a: Asg| #![trigger surv(&bm, &b1, m), b1.ev(n, a)] surv(&bm, &b1, m) && m.dom().contains(n) implies b1.ev(n, a) == bm.ev(n, a) by { reveal(surv); }
    assert forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins, n: Node| #![trigger surv(&bm, &b1, m), b1.live(n)] surv(&bm, &b1, m) && m.dom().contains(n) implies b1.live(n) && at(&b1, n) == at(&bm, n) by { reveal(surv); }
    assert forall|bm: MtMdd2Manager, b1: MtMdd2Manager, m: Pins| #[trigger] surv(&bm, &b1, m) implies hpre(&bm, &b1) by { reveal(surv); }
    assert forall|b0: MtMdd2Manager, b1: MtMdd2Manager, g: GcState, n: Node| #![trigger hinv(&b0, &g), surv(&b0, &b1, inc(g.roots@, n))] hinv(&b0, &g) && surv(&b0, &b1, inc(g.roots@, n)) implies surv(&b0, &b1, g.roots@) by { lemma_surv_pin(&b0, &b0, &b1, g.roots@, n); }
    assert forall|b0: MtMdd2Manager, bm: MtMdd2Manager, b1: MtMdd2Manager, g: GcState, n: Node| #![trigger bm.ext(&b0), hinv(&b0, &g), surv(&bm, &b1, inc(g.roots@, n))] bm.ext(&b0) && hinv(&b0, &g) && surv(&bm, &b1, inc(g.roots@, n)) implies surv(&b0, &b1, g.roots@) by { lemma_surv_pin(&b0, &bm, &b1, g.roots@, n); }
}
//@fn mss mdd::MddNode::from_weak
//@args node vx_gc
    requires room(old(vx_gc))
    ensures r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn mss mdd::MddNode::new
//@args node vx_gc
    requires room(old(vx_gc))
    ensures r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn mss mdd::MddNode::clone
//@args vx_gc
    requires room(old(vx_gc))
    ensures r.node == self.node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, self.node), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn mss mdd::MddNode::drop
//@args vx_gc
    requires pins(old(vx_gc), old(self))
    ensures final(self).node == old(self).node, final(vx_gc).roots@ == dec1(old(vx_gc).roots@, old(self).node), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn mss mdd::maybe_gc
//@args vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc))
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == old(vx_gc).roots@, heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@)
//@entry
    proof { reveal(surv); lemma_keep_all(); }
//@end
//@fn mss mdd::MddNode::rewrap
//@args node vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), old(vx_mdd).live(node)
    ensures hinv(final(vx_mdd), final(vx_gc)), r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), final(vx_gc).roots@)
//@end
//@fn mss mdd::MddMgr::wrap
//@args node vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), old(vx_mdd).live(node)
    ensures hinv(final(vx_mdd), final(vx_gc)), r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), final(vx_gc).roots@)
//@end
//@fn mss mdd::MddNode::and
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::B(MddOperation::And), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::or
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::B(MddOperation::Or), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::xor
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::B(MddOperation::XOr), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::add
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::V(MtMddOperation::Add), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::sub
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::V(MtMddOperation::Sub), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::mul
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::V(MtMddOperation::Mul), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::div
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::V(MtMddOperation::Div), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::min
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::V(MtMddOperation::Min), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::max
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::V(MtMddOperation::Max), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::eq
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::C(Cmp::Eq), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::ne
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::C(Cmp::Ne), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::lt
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::C(Cmp::Lt), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::le
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::C(Cmp::Le), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::gt
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::C(Cmp::Gt), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::ge
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), bin_ok(final(vx_mdd), BinOp::C(Cmp::Ge), self.node, other.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::not
//@args vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self)
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), not_ok(final(vx_mdd), self.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::ite
//@args then els vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), then), pins(old(vx_gc), els), then.node is Value == els.node is Value
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), tern_ok(final(vx_mdd), self.node, then.node, els.node, r.node)
//@entry
    proof { lemma_hand(); }
//@end
//@fn mss mdd::MddNode::get_node
    ensures r == self.node
//@end
//@fn mss mdd::MddNode::get_id
    ensures r == nid(self.node)
//@end
//@fn mss mdd::MddNode::is_boolean
    ensures r == self.node is Bool
//@end
//@fn mss mdd::MddNode::is_value
    ensures r == self.node is Value
//@end
//@fn mss mdd::MddNode::is_zero
//@args vx_mdd
    requires vx_mdd.wf(), vx_mdd.live(self.node)
    ensures r == (self.node == Node::Bool(0))
//@entry
    proof { match self.node { Node::Value(x) => { vx_mdd.lemma_v(x as int); }, Node::Bool(x) => { vx_mdd.lemma_b(x as int); } } }
//@end
//@fn mss mdd::MddNode::is_one
//@args vx_mdd
    requires vx_mdd.wf(), vx_mdd.live(self.node)
    ensures r == (self.node == Node::Bool(1))
//@entry
    proof { match self.node { Node::Value(x) => { vx_mdd.lemma_v(x as int); }, Node::Bool(x) => { vx_mdd.lemma_b(x as int); } } }
//@end
//@fn mss mdd::MddNode::value
//@args vx_mdd
    requires vx_mdd.wf(), vx_mdd.live(self.node)
    ensures match r { Some(v) => self.node is Value && at(vx_mdd, self.node) == SN::T(enc(v.v())), None => self.node is Bool || at(vx_mdd, self.node) is N || at(vx_mdd, self.node) == SN::T(0) }
//@entry
    proof { match self.node { Node::Value(x) => { vx_mdd.lemma_v(x as int); reveal(MtMddManager::wf); reveal(mtmdd::dag_of); }, Node::Bool(x) => { vx_mdd.lemma_b(x as int); } } }
//@end
// the level of the variable a node decides, plus one
pub open spec fn nlvl(b: &MtMdd2Manager, n: Node) -> int { match n { Node::Value(x) => b.mtmdd.lvl(x as int), Node::Bool(x) => b.mdd.lvl(x as int) } }
pub open spec fn hlabel(b: &MtMdd2Manager, n: Node, h: int) -> Seq<char> { match n { Node::Value(x) => b.mtmdd.headers@[h].label@, Node::Bool(x) => b.mdd.headers@[h].label@ } }
//@fn mss mdd::MddNode::get_header
//@args vx_mdd
    requires vx_mdd.wf(), vx_mdd.live(self.node)
    ensures nlvl(vx_mdd, self.node) > 0 ==> (r matches Some(h) && h < vx_mdd.mdd.headers.len() && vx_mdd.mdd.hlevel(h as int) + 1 == nlvl(vx_mdd, self.node)), nlvl(vx_mdd, self.node) <= 0 ==> r is None
//@entry
    proof { match self.node { Node::Value(x) => { vx_mdd.lemma_v(x as int); }, Node::Bool(x) => { vx_mdd.lemma_b(x as int); } } }
//@end
//@fn mss mdd::MddNode::get_level
//@args vx_mdd
    requires vx_mdd.wf(), vx_mdd.live(self.node)
    ensures nlvl(vx_mdd, self.node) > 0 ==> (r matches Some(l) && l + 1 == nlvl(vx_mdd, self.node)), nlvl(vx_mdd, self.node) <= 0 ==> r is None
//@entry
    proof { match self.node { Node::Value(x) => { vx_mdd.lemma_v(x as int); }, Node::Bool(x) => { vx_mdd.lemma_b(x as int); } } }
//@end
//@fn mss mdd::MddNode::get_label
//@args vx_mdd
    requires vx_mdd.wf(), vx_mdd.live(self.node)
    ensures nlvl(vx_mdd, self.node) > 0 ==> (r matches Some(s) && exists|h: int| 0 <= h < vx_mdd.mdd.headers.len() && #[trigger] vx_mdd.mdd.hlevel(h) + 1 == nlvl(vx_mdd, self.node) && s@ == hlabel(vx_mdd, self.node, h)), nlvl(vx_mdd, self.node) <= 0 ==> r is None
//@entry
    proof { match self.node { Node::Value(x) => { vx_mdd.lemma_v(x as int); }, Node::Bool(x) => { vx_mdd.lemma_b(x as int); } } }
//@end
pub open spec fn child(n: Node, k: int) -> Node { match n { Node::Value(x) => Node::Value(k as usize), Node::Bool(x) => Node::Bool(k as usize) } }
//@fn mss mdd::MddNode::get_children
//@args vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), pins(old(vx_gc), self), roomk(old(vx_gc).roots@, at(old(vx_mdd), self.node)->N_kids.len() as int)
    ensures hinv(vx_mdd, final(vx_gc)),
        match r {
            None => !(at(vx_mdd, self.node) is N) && final(vx_gc).roots@ == old(vx_gc).roots@,
            Some(v) => at(vx_mdd, self.node) is N && nds(v@) =~= at(vx_mdd, self.node)->N_kids.map_values(|k: int| child(self.node, k)) && final(vx_gc).roots@ == incs(old(vx_gc).roots@, nds(v@)),
        }
//@entry
    proof { lemma_incs(); lemma_room(); match self.node { Node::Value(x) => { vx_mdd.lemma_v(x as int); vx_mdd.mtmdd.lemma_node(x as int); }, Node::Bool(x) => { vx_mdd.lemma_b(x as int); vx_mdd.mdd.lemma_node(x as int); } } }
//@mapinv
    vx_gc.roots@ == incs(old(vx_gc).roots@, nds($v@)), hinv(vx_mdd, vx_gc), roomk(vx_gc.roots@, at(vx_mdd, self.node)->N_kids.len() - $i),
    forall|vx_j: int| 0 <= vx_j < $i ==> (#[trigger] $v@[vx_j]).node == child(self.node, at(vx_mdd, self.node)->N_kids[vx_j]),
//@end
//@fn mss mdd::MddMgr::boolean
//@args other vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc))
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), r.node is Bool, forall|a: Asg| #[trigger] final(vx_mdd).ev(r.node, a) == b2i(other)
//@entry
    proof { lemma_hand(); lemma_consts(vx_mdd); }
//@end
//@fn mss mdd::MddMgr::undet_boolean
//@args vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc))
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), r.node is Bool, forall|a: Asg| #[trigger] final(vx_mdd).ev(r.node, a) == 2
//@entry
    proof { lemma_hand(); lemma_consts(vx_mdd); }
//@end
//@fn mss mdd::MddMgr::undet_value
//@args vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc))
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), r.node is Value, forall|a: Asg| #[trigger] final(vx_mdd).ev(r.node, a) == 0
//@entry
    proof { lemma_hand(); lemma_consts(vx_mdd); }
//@end
//@fn mss mdd::MddMgr::value
//@args value vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc))
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), r.node is Value, forall|a: Asg| #[trigger] final(vx_mdd).ev(r.node, a) == enc(value.v())
//@entry
    proof { lemma_hand(); lemma_consts(vx_mdd); }
//@end
//@fn mss mdd::MddMgr::new
//@args vx_mdd vx_gc
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == Pins::empty(), final(vx_mdd).mdd.headers@.len() == 0, final(vx_mdd).mtmdd.headers@.len() == 0, r.vars@ == IMap::<Seq<char>, MddNode>::empty()
//@end
//@fn mss mdd::MddMgr::set_gc_threshold
//@args threshold vx_gc
    ensures final(vx_gc).roots@ == old(vx_gc).roots@
//@end
//@fn mss mdd::MddMgr::clear_cache
//@args vx_mdd
    requires old(vx_mdd).wf()
    ensures final(self).vars@ == old(self).vars@, final(vx_mdd).wf(), heads(old(vx_mdd), final(vx_mdd)), final(vx_mdd).vd() == old(vx_mdd).vd(), final(vx_mdd).bd() == old(vx_mdd).bd()
//@end
//@fn mss mdd::MddMgr::create_node
//@args h nodes vx_mdd vx_gc
    requires hinv(old(vx_mdd), old(vx_gc)), room(old(vx_gc)), pinned(old(vx_gc), nodes@), h < old(vx_mdd).mdd.headers.len(), nodes@.len() == old(vx_mdd).mdd.headers@[h as int].edge_num, nodes@.len() > 0,
        forall|i: int| 0 <= i < nodes@.len() ==> (#[trigger] nodes@[i]).node is Value == nodes@[0].node is Value && nlvl(old(vx_mdd), nodes@[i].node) <= old(vx_mdd).mdd.hlevel(h as int),
    ensures hinv(final(vx_mdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node), heads(old(vx_mdd), final(vx_mdd)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), made(final(vx_mdd), old(vx_mdd).mdd.hlevel(h as int), nds(nodes@), r.node)
//@entry
    proof { lemma_hand(); }
//@loopafter 0
    proof { assert(vx_v0@ =~= nds(nodes@)); }
//@end
pub proof fn lemma_room()
    ensures
        forall|m: Pins, n: Node, k: int| #![trigger roomk(inc(m, n), k)] roomk(m, k + 1) && 0 <= k < u32::MAX ==> roomk(inc(m, n), k),
        forall|m: Pins, n: Node, k: int| #![trigger roomk(dec1(inc(m, n), n), k)] roomk(m, k) && roomk(inc(m, n), 0) && 0 <= k <= u32::MAX - 1 ==> roomk(dec1(inc(m, n), n), k),
{ }
pub proof fn lemma_incs()
    ensures forall|m: Pins, v: Seq<MddNode>, h: MddNode| #![trigger incs(m, nds(v.push(h)))] incs(m, nds(v.push(h))) == inc(incs(m, nds(v)), h.node)
{ assert forall|m: Pins, v: Seq<MddNode>, h: MddNode| #![trigger incs(m, nds(v.push(h)))] incs(m, nds(v.push(h))) == inc(incs(m, nds(v)), h.node) by { assert(nds(v.push(h)).drop_last() =~= nds(v)); } }
//@fn mss mdd::MddNode::is_undet
//@args vx_mdd
    requires vx_mdd.wf(), vx_mdd.live(self.node)
    ensures r == (self.node == Node::Bool(2))
//@entry
    proof { match self.node { Node::Value(x) => { vx_mdd.lemma_v(x as int); }, Node::Bool(x) => { vx_mdd.lemma_b(x as int); } } }
//@end
//@fn mss mdd::MddNode::get_id2
    ensures r == (match self.node { Node::Value(x) => (x, 0usize), Node::Bool(x) => (0usize, x) })
//@end
//@fn mss mdd::MddMgr::live_node_count
//@args vx_mdd
    requires vx_mdd.wf()
//@end
// ---------------------------------------------------------------- declared variables
// node n is the variable of header i: its state
#[verifier::opaque]
pub open spec fn var_at(b: &MtMdd2Manager, i: int, n: Node) -> bool {
    b.live(n) && n is Value && 0 <= i < b.mtmdd.headers@.len() && forall|a: Asg| #[trigger] b.ev(n, a) == enc(ix(b.mtmdd.headers@[i].edge_num as int, a(i)))
}
pub open spec fn var_ok(b: &MtMdd2Manager, s: Seq<char>, n: Node) -> bool { exists|i: int| 0 <= i < b.mtmdd.headers@.len() && (#[trigger] b.mtmdd.headers@[i]).label@ == s && var_at(b, i, n) }
// headers are the declared variables, in order of declaration
pub open spec fn vinv(m: &MddMgr, b: &MtMdd2Manager, g: &GcState) -> bool {
    &&& hinv(b, g)
    &&& b.mtmdd.headers@.len() == m.vars.hlen()
    &&& forall|i: int| 0 <= i < b.mtmdd.headers@.len() ==> (#[trigger] b.mtmdd.headers@[i]).level == i && m.vars@.dom().contains(b.mtmdd.headers@[i].label@)
    &&& forall|i: int, j: int| 0 <= i < j < b.mtmdd.headers@.len() ==> (#[trigger] b.mtmdd.headers@[i]).label@ != (#[trigger] b.mtmdd.headers@[j]).label@
    &&& forall|s: Seq<char>| #[trigger] m.vars@.dom().contains(s) ==> pins(g, &m.vars@[s]) && var_ok(b, s, m.vars@[s].node)
}
pub proof fn lemma_var_surv(b: &MtMdd2Manager, b2: &MtMdd2Manager, m: Pins, i: int, n: Node)
    requires surv(b, b2, m), var_at(b, i, n), m.dom().contains(n), b.wf(), b2.wf()
    ensures var_at(b2, i, n)
{
    reveal(surv); reveal(var_at);
    assert(b2.mtmdd.headers@[i] == b.mtmdd.headers@[i]);
    assert forall|a: Asg| #[trigger] b2.ev(n, a) == enc(ix(b2.mtmdd.headers@[i].edge_num as int, a(i))) by { assert(b2.ev(n, a) == b.ev(n, a)); }
}

pub proof fn theorem_vars_survive(m: &MddMgr, b: &MtMdd2Manager, g: &GcState, b2: &MtMdd2Manager, g2: &GcState)
    requires vinv(m, b, g), hinv(b2, g2), surv(b, b2, g.roots@), heads(b, b2), forall|s: Seq<char>| #[trigger] m.vars@.dom().contains(s) ==> pins(g2, &m.vars@[s])
    ensures vinv(m, b2, g2)
{
    assert forall|s: Seq<char>| #[trigger] m.vars@.dom().contains(s) implies pins(g2, &m.vars@[s]) && var_ok(b2, s, m.vars@[s].node) by {
        let n = m.vars@[s].node;
        assert(pins(g, &m.vars@[s])); assert(g.roots@.dom().contains(n));
        let i = choose|i: int| 0 <= i < b.mtmdd.headers@.len() && (#[trigger] b.mtmdd.headers@[i]).label@ == s && var_at(b, i, n);
        lemma_var_surv(b, b2, g.roots@, i, n);
        assert(b2.mtmdd.headers@[i].label@ == s);
    }
}
pub proof fn lemma_var_more(b: &MtMdd2Manager, b2: &MtMdd2Manager, s: Seq<char>, n: Node)
    requires var_ok(b, s, n), more(b, b2), b.wf(), b2.wf()
    ensures var_ok(b2, s, n)
{
    reveal(var_at);
    let i = choose|i: int| 0 <= i < b.mtmdd.headers@.len() && (#[trigger] b.mtmdd.headers@[i]).label@ == s && var_at(b, i, n);
    assert(b2.mtmdd.headers@[i] == b.mtmdd.headers@[i]);
    assert forall|a: Asg| #[trigger] b2.ev(n, a) == enc(ix(b2.mtmdd.headers@[i].edge_num as int, a(i))) by { assert(b2.ev(n, a) == b.ev(n, a)); }
    assert(var_at(b2, i, n));
}
// nodes and headers are only added
pub open spec fn more(b: &MtMdd2Manager, b2: &MtMdd2Manager) -> bool { ext(b.vd(), b2.vd()) && ext(b.bd(), b2.bd()) && hpre(b, b2) }
pub open spec fn more_v(b: &MtMdd2Manager, b2: &MtMdd2Manager) -> bool { ext(b.vd(), b2.vd()) && ext(b.bd(), b2.bd()) }
pub proof fn lemma_more()
    ensures
        forall|b: MtMdd2Manager, b2: MtMdd2Manager, s: Seq<char>, n: Node| #![trigger var_ok(&b, s, n), var_ok(&b2, s, n)] var_ok(&b, s, n) && more(&b, &b2) && b.wf() && b2.wf() ==> var_ok(&b2, s, n),
        forall|b: MtMdd2Manager, i: int, n: Node| #![trigger var_at(&b, i, n)] (b.live(n) && n is Value && 0 <= i < b.mtmdd.headers@.len() && forall|a: Asg| #[trigger] b.ev(n, a) == enc(ix(b.mtmdd.headers@[i].edge_num as int, a(i)))) ==> var_at(&b, i, n),
{
    assert forall|b: MtMdd2Manager, b2: MtMdd2Manager, s: Seq<char>, n: Node| #![trigger var_ok(&b, s, n), var_ok(&b2, s, n)] var_ok(&b, s, n) && more(&b, &b2) && b.wf() && b2.wf() implies var_ok(&b2, s, n) by { lemma_var_more(&b, &b2, s, n); }
    assert forall|b: MtMdd2Manager, i: int, n: Node| #![trigger var_at(&b, i, n)] (b.live(n) && n is Value && 0 <= i < b.mtmdd.headers@.len() && forall|a: Asg| #[trigger] b.ev(n, a) == enc(ix(b.mtmdd.headers@[i].edge_num as int, a(i)))) implies var_at(&b, i, n) by { reveal(var_at); }
}
pub proof fn lemma_tval()
    ensures forall|b: MtMdd2Manager, x: usize, a: Asg| #![trigger b.ev(Node::Value(x), a)] b.vd()[x as int] is T ==> b.ev(Node::Value(x), a) == b.vd()[x as int]->T_0
{ reveal(eval); }
//@fn mss mdd::MddMgr::defvar
//@args label range vx_mdd vx_gc
    requires vinv(old(self), old(vx_mdd), old(vx_gc)), roomk(old(vx_gc).roots@, 2), old(vx_mdd).mtmdd.headers@.len() < u32::MAX, 0 < range <= i32::MAX
    ensures vinv(final(self), final(vx_mdd), final(vx_gc)), surv(old(vx_mdd), final(vx_mdd), old(vx_gc).roots@), more(old(vx_mdd), final(vx_mdd)),
        var_ok(final(vx_mdd), label@, r.node), pins(final(vx_gc), &r), final(self).vars@.dom().contains(label@), final(self).vars@[label@].node == r.node,
        if old(self).vars@.dom().contains(label@) {
            &&& final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node)
            &&& final(self).vars@ == old(self).vars@ && heads(old(vx_mdd), final(vx_mdd))
        } else {
            &&& final(vx_gc).roots@ == inc(inc(old(vx_gc).roots@, r.node), r.node)
            &&& final(vx_mdd).mtmdd.headers@.len() == old(vx_mdd).mtmdd.headers@.len() + 1 && final(vx_mdd).mtmdd.headers@.last().edge_num == range && final(vx_mdd).mtmdd.headers@.last().label@ == label@
            &&& final(self).vars@.dom() =~= old(self).vars@.dom().insert(label@)
            &&& forall|s: Seq<char>| old(self).vars@.dom().contains(s) ==> #[trigger] final(self).vars@[s] == old(self).vars@[s]
        }
//@entry
    proof { lemma_hand(); lemma_room(); lemma_more(); lemma_keep_all(); lemma_tval(); reveal(surv); }
//@mapinv
    vx_mdd.wf(), vx_mdd.ext(old(vx_mdd)),
    forall|vx_j: int| 0 <= vx_j < $i ==> (#[trigger] $v@[vx_j] matches Node::Value(x) && vx_mdd.vd().dom().contains(x as int) && vx_mdd.vd()[x as int] == SN::T(enc(vx_j))),
//@end
}

// ---------------------------------------------------------------- handles of the binary manager
//@item bss bdd::GC_FLOOR
//@item bss bdd::GcState
//@item bss bdd::BddNode
//@item bss bdd::BddMgr
pub type Pins = IMap<int, u32>;
pub open spec fn npin(m: Pins, n: int) -> int { if m.dom().contains(n) { m[n] as int } else { 0 } }
// every pinned node is there, with a positive number of handles
pub open spec fn hinv(b: &BddManager, g: &GcState) -> bool {
    &&& b.wf()
    &&& forall|n: int| #[trigger] g.roots@.dom().contains(n) ==> b.live(n) && g.roots@[n] >= 1
}
pub open spec fn room(g: &GcState) -> bool { forall|n: int| #[trigger] g.roots@.dom().contains(n) ==> g.roots@[n] < u32::MAX }
pub open spec fn room2(g: &GcState) -> bool { forall|n: int| #[trigger] g.roots@.dom().contains(n) ==> g.roots@[n] < u32::MAX - 1 }
pub open spec fn pins(g: &GcState, h: &BddNode) -> bool { g.roots@.dom().contains(h.node as int) && g.roots@[h.node as int] >= 1 }
pub open spec fn inc(m: Pins, n: int) -> Pins { m.insert(n, (npin(m, n) + 1) as u32) }
pub open spec fn dec(m: Pins, n: int) -> Pins { if npin(m, n) <= 1 { m.remove(n) } else { m.insert(n, (m[n] - 1) as u32) } }
// headers are only ever added
pub open spec fn hpre(b: &BddManager, b2: &BddManager) -> bool { b.headers@.len() <= b2.headers@.len() && forall|i: int| 0 <= i < b.headers@.len() ==> b2.headers@[i] == #[trigger] b.headers@[i] }
// the pinned nodes survive as they are
pub open spec fn surv(b: &BddManager, b2: &BddManager, m: Pins) -> bool {
    &&& hpre(b, b2)
    &&& forall|n: int| #[trigger] m.dom().contains(n) ==> b2.live(n) && b2.dag()[n] == b.dag()[n]
    &&& forall|n: int, a: Asg| m.dom().contains(n) ==> #[trigger] eval(b2.dag(), n, a) == eval(b.dag(), n, a)
}
pub open spec fn pinned(g: &GcState, ns: Seq<BddNode>) -> bool { forall|i: int| 0 <= i < ns.len() ==> pins(g, &#[trigger] ns[i]) }
pub open spec fn nids(ns: Seq<BddNode>) -> Seq<NodeId> { ns.map_values(|h: BddNode| h.node) }
pub open spec fn in_pins(m: Pins, ns: Seq<NodeId>) -> bool { forall|i: int| 0 <= i < ns.len() ==> m.dom().contains(#[trigger] ns[i] as int) }
pub proof fn lemma_cnt_same(d: D, d2: D, ns: Seq<NodeId>, s: int, a: Asg)
    requires 0 <= s <= ns.len(), forall|i: int| 0 <= i < ns.len() ==> eval(d2, ns[i] as int, a) == eval(d, #[trigger] ns[i] as int, a)
    ensures cnt(d2, ns, s, a) == cnt(d, ns, s, a)
    decreases ns.len() - s
{ if s < ns.len() { assert(ns[s] == ns[s]); lemma_cnt_same(d, d2, ns, s + 1, a); } }
pub proof fn lemma_hand()
    ensures
        forall|bm: BddManager, b1: BddManager, m: Pins, f: int, r: int| #![trigger surv(&bm, &b1, m), apply_ok(bm.dag(), Operation::Not, f, 0, r)] surv(&bm, &b1, m) && apply_ok(bm.dag(), Operation::Not, f, 0, r) && b1.wf() && m.dom().contains(f) && m.dom().contains(r) ==> apply_ok(b1.dag(), Operation::Not, f, 0, r),
        forall|bm: BddManager, b1: BddManager, m: Pins, d0: D, ns: Seq<NodeId>, r: int| #![trigger surv(&bm, &b1, m), and_ok(d0, ns, bm.dag(), r)] surv(&bm, &b1, m) && and_ok(d0, ns, bm.dag(), r) && m.dom().contains(r) ==> and_ok(d0, ns, b1.dag(), r),
        forall|bm: BddManager, b1: BddManager, m: Pins, d0: D, ns: Seq<NodeId>, r: int| #![trigger surv(&bm, &b1, m), or_ok(d0, ns, bm.dag(), r)] surv(&bm, &b1, m) && or_ok(d0, ns, bm.dag(), r) && m.dom().contains(r) ==> or_ok(d0, ns, b1.dag(), r),
        forall|bm: BddManager, b1: BddManager, m: Pins, ns: Seq<NodeId>, k: int, r: int| #![trigger surv(&bm, &b1, m), kofn_ok(bm.dag(), ns, k, 0, r)] surv(&bm, &b1, m) && kofn_ok(bm.dag(), ns, k, 0, r) && in_pins(m, ns) && m.dom().contains(r) ==> kofn_ok(b1.dag(), ns, k, 0, r),
        forall|b0: BddManager, b1: BddManager, g: GcState, n: int| #![trigger hinv(&b0, &g), surv(&b0, &b1, inc(g.roots@, n))] hinv(&b0, &g) && surv(&b0, &b1, inc(g.roots@, n)) ==> surv(&b0, &b1, g.roots@),
        forall|bm: BddManager, b1: BddManager, m: Pins, l: int, x: int, y: int, r: int| #![trigger surv(&bm, &b1, m), built(bm.dag(), l, x, y, r)] surv(&bm, &b1, m) && built(bm.dag(), l, x, y, r) && m.dom().contains(r) ==> built(b1.dag(), l, x, y, r),
        forall|b0: BddManager, bm: BddManager, b1: BddManager, g: GcState, n: int| #![trigger bm.ext(&b0), hinv(&b0, &g), surv(&bm, &b1, inc(g.roots@, n))] bm.ext(&b0) && hinv(&b0, &g) && surv(&bm, &b1, inc(g.roots@, n)) ==> surv(&b0, &b1, g.roots@),
        forall|bm: BddManager, b1: BddManager, m: Pins, k: Operation, f: int, g: int, r: int| #![trigger surv(&bm, &b1, m), apply_ok(bm.dag(), k, f, g, r)] surv(&bm, &b1, m) && apply_ok(bm.dag(), k, f, g, r) && m.dom().contains(f) && m.dom().contains(g) && m.dom().contains(r) ==> apply_ok(b1.dag(), k, f, g, r),
        forall|bm: BddManager, b1: BddManager, m: Pins, f: int, g: int, h: int, r: int| #![trigger surv(&bm, &b1, m), ite_ok(bm.dag(), f, g, h, r)] surv(&bm, &b1, m) && ite_ok(bm.dag(), f, g, h, r) && m.dom().contains(f) && m.dom().contains(g) && m.dom().contains(h) && m.dom().contains(r) ==> ite_ok(b1.dag(), f, g, h, r),
        forall|bm: BddManager, b1: BddManager, m: Pins, f: int, r: int| #![trigger surv(&bm, &b1, m), dual_ok(bm.dag(), f, r)] surv(&bm, &b1, m) && dual_ok(bm.dag(), f, r) && m.dom().contains(f) && m.dom().contains(r) ==> dual_ok(b1.dag(), f, r),
{
    assert forall|b0: BddManager, b1: BddManager, g: GcState, n: int| #![trigger hinv(&b0, &g), surv(&b0, &b1, inc(g.roots@, n))] hinv(&b0, &g) && surv(&b0, &b1, inc(g.roots@, n)) implies surv(&b0, &b1, g.roots@) by {
        let m = g.roots@;
        assert forall|x: int| #[trigger] m.dom().contains(x) implies b1.live(x) && b1.dag()[x] == b0.dag()[x] by { assert(inc(m, n).dom().contains(x)); }
        assert forall|x: int, a: Asg| m.dom().contains(x) implies #[trigger] eval(b1.dag(), x, a) == eval(b0.dag(), x, a) by { assert(inc(m, n).dom().contains(x)); }
    }
    assert forall|b0: BddManager, bm: BddManager, b1: BddManager, g: GcState, n: int| #![trigger bm.ext(&b0), hinv(&b0, &g), surv(&bm, &b1, inc(g.roots@, n))] bm.ext(&b0) && hinv(&b0, &g) && surv(&bm, &b1, inc(g.roots@, n)) implies surv(&b0, &b1, g.roots@) by {
        let m = g.roots@;
        assert forall|x: int| #[trigger] m.dom().contains(x) implies b1.live(x) && b1.dag()[x] == b0.dag()[x] by { assert(inc(m, n).dom().contains(x)); assert(b0.live(x)); }
        assert forall|x: int, a: Asg| m.dom().contains(x) implies #[trigger] eval(b1.dag(), x, a) == eval(b0.dag(), x, a) by { assert(inc(m, n).dom().contains(x)); assert(b0.live(x)); assert(eval(b1.dag(), x, a) == eval(bm.dag(), x, a)); }
    }
    assert forall|bm: BddManager, b1: BddManager, m: Pins, k: Operation, f: int, g: int, r: int| #![trigger surv(&bm, &b1, m), apply_ok(bm.dag(), k, f, g, r)] surv(&bm, &b1, m) && apply_ok(bm.dag(), k, f, g, r) && m.dom().contains(f) && m.dom().contains(g) && m.dom().contains(r) implies apply_ok(b1.dag(), k, f, g, r) by {
        assert forall|a: Asg| val_ok(k, eval(b1.dag(), f, a), eval(b1.dag(), g, a), #[trigger] eval(b1.dag(), r, a)) by { assert(eval(b1.dag(), r, a) == eval(bm.dag(), r, a) && eval(b1.dag(), f, a) == eval(bm.dag(), f, a) && eval(b1.dag(), g, a) == eval(bm.dag(), g, a)); }
    }
    assert forall|bm: BddManager, b1: BddManager, m: Pins, f: int, g: int, h: int, r: int| #![trigger surv(&bm, &b1, m), ite_ok(bm.dag(), f, g, h, r)] surv(&bm, &b1, m) && ite_ok(bm.dag(), f, g, h, r) && m.dom().contains(f) && m.dom().contains(g) && m.dom().contains(h) && m.dom().contains(r) implies ite_ok(b1.dag(), f, g, h, r) by {
        let d = b1.dag();
        assert forall|a: Asg| is01(eval(d, f, a)) implies #[trigger] eval(d, r, a) == (if eval(d, f, a) == 1 { eval(d, g, a) } else { eval(d, h, a) }) by { assert(eval(b1.dag(), r, a) == eval(bm.dag(), r, a) && eval(b1.dag(), f, a) == eval(bm.dag(), f, a) && eval(b1.dag(), g, a) == eval(bm.dag(), g, a) && eval(b1.dag(), h, a) == eval(bm.dag(), h, a)); }
    }
    assert forall|bm: BddManager, b1: BddManager, m: Pins, f: int, r: int| #![trigger surv(&bm, &b1, m), apply_ok(bm.dag(), Operation::Not, f, 0, r)] surv(&bm, &b1, m) && apply_ok(bm.dag(), Operation::Not, f, 0, r) && b1.wf() && m.dom().contains(f) && m.dom().contains(r) implies apply_ok(b1.dag(), Operation::Not, f, 0, r) by {
        let d = b1.dag();
        b1.lemma_base(); b1.lemma_two(); assert(b1.dag().dom().contains(0));
        assert forall|a: Asg| val_ok(Operation::Not, eval(d, f, a), eval(d, 0, a), #[trigger] eval(d, r, a)) by {
            reveal(eval);
            assert(eval(b1.dag(), r, a) == eval(bm.dag(), r, a) && eval(b1.dag(), f, a) == eval(bm.dag(), f, a));
            assert(val_ok(Operation::Not, eval(bm.dag(), f, a), eval(bm.dag(), 0, a), eval(bm.dag(), r, a)));
        }
    }
    assert forall|bm: BddManager, b1: BddManager, m: Pins, d0: D, ns: Seq<NodeId>, r: int| #![trigger surv(&bm, &b1, m), and_ok(d0, ns, bm.dag(), r)] surv(&bm, &b1, m) && and_ok(d0, ns, bm.dag(), r) && m.dom().contains(r) implies and_ok(d0, ns, b1.dag(), r) by {
        reveal(and_ok);
        assert forall|a: Asg| det(d0, ns, a) implies #[trigger] eval(b1.dag(), r, a) == b2i(forall|i: int| 0 <= i < ns.len() ==> eval(d0, ns[i] as int, a) == 1) by { assert(eval(b1.dag(), r, a) == eval(bm.dag(), r, a)); }
    }
    assert forall|bm: BddManager, b1: BddManager, m: Pins, d0: D, ns: Seq<NodeId>, r: int| #![trigger surv(&bm, &b1, m), or_ok(d0, ns, bm.dag(), r)] surv(&bm, &b1, m) && or_ok(d0, ns, bm.dag(), r) && m.dom().contains(r) implies or_ok(d0, ns, b1.dag(), r) by {
        reveal(or_ok);
        assert forall|a: Asg| det(d0, ns, a) implies #[trigger] eval(b1.dag(), r, a) == b2i(exists|i: int| 0 <= i < ns.len() && eval(d0, ns[i] as int, a) == 1) by { assert(eval(b1.dag(), r, a) == eval(bm.dag(), r, a)); }
    }
    assert forall|bm: BddManager, b1: BddManager, m: Pins, ns: Seq<NodeId>, k: int, r: int| #![trigger surv(&bm, &b1, m), kofn_ok(bm.dag(), ns, k, 0, r)] surv(&bm, &b1, m) && kofn_ok(bm.dag(), ns, k, 0, r) && in_pins(m, ns) && m.dom().contains(r) implies kofn_ok(b1.dag(), ns, k, 0, r) by {
        reveal(kofn_ok);
        assert forall|a: Asg| det(b1.dag(), ns, a) implies #[trigger] eval(b1.dag(), r, a) == b2i(cnt(b1.dag(), ns, 0, a) >= k) by {
            assert forall|i: int| 0 <= i < ns.len() implies eval(b1.dag(), ns[i] as int, a) == eval(bm.dag(), #[trigger] ns[i] as int, a) by { }
            assert(det(bm.dag(), ns, a)) by { assert forall|i: int| 0 <= i < ns.len() implies is01(#[trigger] eval(bm.dag(), ns[i] as int, a)) by { assert(is01(eval(b1.dag(), ns[i] as int, a))); } }
            lemma_cnt_same(bm.dag(), b1.dag(), ns, 0, a);
            assert(eval(b1.dag(), r, a) == eval(bm.dag(), r, a));
        }
    }
    assert forall|bm: BddManager, b1: BddManager, m: Pins, f: int, r: int| #![trigger surv(&bm, &b1, m), dual_ok(bm.dag(), f, r)] surv(&bm, &b1, m) && dual_ok(bm.dag(), f, r) && m.dom().contains(f) && m.dom().contains(r) implies dual_ok(b1.dag(), f, r) by {
        let d = b1.dag();
        assert forall|a: Asg| #[trigger] eval(d, r, a) == dualv(eval(d, f, neg(a))) by { assert(eval(b1.dag(), r, a) == eval(bm.dag(), r, a) && eval(b1.dag(), f, neg(a)) == eval(bm.dag(), f, neg(a))); }
    }
}
//@fn bss bdd::BddNode::from_weak
//@args node vx_gc
    requires room(old(vx_gc))
    ensures r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn bss bdd::BddNode::new
//@args node vx_gc
    requires room(old(vx_gc))
    ensures r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn bss bdd::BddNode::clone
//@args vx_gc
    requires room(old(vx_gc))
    ensures r.node == self.node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, self.node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn bss bdd::BddNode::drop
//@args vx_gc
    requires pins(old(vx_gc), old(self))
    ensures final(self).node == old(self).node, final(vx_gc).roots@ == dec(old(vx_gc).roots@, old(self).node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn bss bdd::maybe_gc
//@args vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc))
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == old(vx_gc).roots@, final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@)
//@end
//@fn bss bdd::BddNode::rewrap
//@args node vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), old(vx_bdd).live(node as int)
    ensures hinv(final(vx_bdd), final(vx_gc)), r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), final(vx_gc).roots@)
//@end
//@fn bss bdd::BddMgr::wrap
//@args node vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), old(vx_bdd).live(node as int)
    ensures hinv(final(vx_bdd), final(vx_gc)), r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), final(vx_gc).roots@)
//@end
//@fn bss bdd::BddNode::and
//@args other vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), apply_ok(final(vx_bdd).dag(), Operation::And, self.node as int, other.node as int, r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss bdd::BddNode::or
//@args other vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), apply_ok(final(vx_bdd).dag(), Operation::Or, self.node as int, other.node as int, r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss bdd::BddNode::xor
//@args other vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), apply_ok(final(vx_bdd).dag(), Operation::XOr, self.node as int, other.node as int, r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss bdd::BddNode::not
//@args vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self)
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), apply_ok(final(vx_bdd).dag(), Operation::Not, self.node as int, 0, r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss bdd::BddNode::ite
//@args then else_ vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), then), pins(old(vx_gc), else_)
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), ite_ok(final(vx_bdd).dag(), self.node as int, then.node as int, else_.node as int, r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss bdd::BddNode::dual
//@args vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self)
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), dual_ok(final(vx_bdd).dag(), self.node as int, r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss bdd::BddNode::eq
//@args other
    ensures r == (self.node == other.node)
//@end
//@fn bss bdd::BddNode::get_id
    ensures r == self.node
//@end
//@fn bss bdd::BddNode::get_level
//@args vx_bdd
    requires vx_bdd.wf(), vx_bdd.live(self.node as int)
    ensures vx_bdd.lvl(self.node as int) > 0 ==> (r matches Some(l) && l + 1 == vx_bdd.lvl(self.node as int)), vx_bdd.lvl(self.node as int) <= 0 ==> r is None
//@entry
    proof { vx_bdd.lemma_node(self.node as int); }
//@end
//@fn bss bdd::BddNode::get_header
//@args vx_bdd
    requires vx_bdd.wf(), vx_bdd.live(self.node as int)
    ensures vx_bdd.lvl(self.node as int) > 0 ==> (r matches Some(h) && h < vx_bdd.headers.len() && vx_bdd.hlevel(h as int) + 1 == vx_bdd.lvl(self.node as int)), vx_bdd.lvl(self.node as int) <= 0 ==> r is None
//@entry
    proof { vx_bdd.lemma_node(self.node as int); }
//@end
//@fn bss bdd::BddNode::get_children
//@args vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room2(old(vx_gc)), pins(old(vx_gc), self)
    ensures hinv(final(vx_bdd), final(vx_gc)),
        match r {
            None => !(vx_bdd.dag()[self.node as int] is N) && final(vx_gc).roots@ == old(vx_gc).roots@,
            Some((x, y)) => vx_bdd.dag()[self.node as int] is N && vx_bdd.dag()[self.node as int]->N_kids =~= seq![x.node as int, y.node as int] && final(vx_gc).roots@ == inc(inc(old(vx_gc).roots@, x.node as int), y.node as int),
        }
//@entry
    proof { vx_bdd.lemma_node(self.node as int); }
//@end
//@fn bss bdd::BddNode::is_zero
//@args vx_bdd
    requires vx_bdd.wf(), vx_bdd.live(self.node as int)
    ensures r == (self.node == 0)
//@entry
    proof { vx_bdd.lemma_node(self.node as int); }
//@end
//@fn bss bdd::BddNode::is_one
//@args vx_bdd
    requires vx_bdd.wf(), vx_bdd.live(self.node as int)
    ensures r == (self.node == 1)
//@entry
    proof { vx_bdd.lemma_node(self.node as int); }
//@end
//@fn bss bdd::BddNode::is_undet
//@args vx_bdd
    requires vx_bdd.wf(), vx_bdd.live(self.node as int)
    ensures r == (self.node == 2)
//@entry
    proof { vx_bdd.lemma_node(self.node as int); }
//@end
//@fn bss bdd::BddMgr::zero
//@args vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc))
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), r.node == 0
//@entry
    proof { lemma_hand(); vx_bdd.lemma_base(); }
//@end
//@fn bss bdd::BddMgr::one
//@args vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc))
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), r.node == 1
//@entry
    proof { lemma_hand(); vx_bdd.lemma_base(); }
//@end
//@fn bss bdd::BddMgr::new
//@args vx_bdd vx_gc
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == Pins::empty(), final(vx_bdd).headers@.len() == 0, r.vars@ == IMap::<Seq<char>, BddNode>::empty()
//@end
// ---------------------------------------------------------------- declared variables
// node n is the variable named s
pub open spec fn var_ok(b: &BddManager, s: Seq<char>, n: int) -> bool {
    b.live(n) && (b.dag()[n] matches SN::N { level, kids } && kids =~= seq![0int, 1int] && 0 <= level < b.headers@.len() && b.headers@[level].label@ == s)
}
// headers are the declared variables, in order of declaration
pub open spec fn vinv(m: &BddMgr, b: &BddManager, g: &GcState) -> bool {
    &&& hinv(b, g)
    &&& b.headers@.len() == m.vars.hlen()
    &&& forall|i: int| 0 <= i < b.headers@.len() ==> (#[trigger] b.headers@[i]).level == i && m.vars@.dom().contains(b.headers@[i].label@)
    &&& forall|s: Seq<char>| #[trigger] m.vars@.dom().contains(s) ==> pins(g, &m.vars@[s]) && var_ok(b, s, m.vars@[s].node as int)
    &&& forall|i: int| 0 <= i < b.headers@.len() ==> b.dag()[m.vars@[(#[trigger] b.headers@[i]).label@].node as int]->N_level == i
}
pub open spec fn roomk(m: Pins, k: int) -> bool { forall|n: int| #[trigger] m.dom().contains(n) ==> m[n] + k <= u32::MAX }
pub proof fn lemma_room()
    ensures
        forall|m: Pins, n: int, k: int| #![trigger roomk(inc(m, n), k)] roomk(m, k + 1) && 0 <= k < u32::MAX ==> roomk(inc(m, n), k),
        forall|m: Pins, n: int, k: int| #![trigger roomk(dec(inc(m, n), n), k)] roomk(m, k) && roomk(inc(m, n), 0) && 0 <= k <= u32::MAX - 1 ==> roomk(dec(inc(m, n), n), k),
{ }
pub proof fn lemma_base_all()
    ensures forall|b: BddManager| #[trigger] b.wf() ==> b.zero == 0 && b.one == 1 && b.undet == 2 && b.live(0) && b.live(1) && b.live(2) && b.dag()[0] == SN::T(0) && b.dag()[1] == SN::T(1) && b.dag()[2] == SN::T(2)
{ assert forall|b: BddManager| #[trigger] b.wf() implies b.zero == 0 && b.one == 1 && b.undet == 2 && b.live(0) && b.live(1) && b.live(2) && b.dag()[0] == SN::T(0) && b.dag()[1] == SN::T(1) && b.dag()[2] == SN::T(2) by { b.lemma_base(); b.lemma_two(); } }
// labels of different headers differ, every header is at its own level
pub proof fn theorem_var_headers(m: &BddMgr, b: &BddManager, g: &GcState)
    requires vinv(m, b, g)
    ensures b.one_header_per_level(),
        forall|i: int, j: int| 0 <= i < b.headers@.len() && 0 <= j < b.headers@.len() && (#[trigger] b.headers@[i]).label@ == (#[trigger] b.headers@[j]).label@ ==> i == j
{ }
// the variables survive whatever keeps the pinned nodes
pub proof fn theorem_vars_survive(m: &BddMgr, b: &BddManager, g: &GcState, b2: &BddManager, g2: &GcState)
    requires vinv(m, b, g), hinv(b2, g2), surv(b, b2, g.roots@), b2.headers@ == b.headers@, forall|s: Seq<char>| #[trigger] m.vars@.dom().contains(s) ==> pins(g2, &m.vars@[s])
    ensures vinv(m, b2, g2)
{
    assert forall|s: Seq<char>| #[trigger] m.vars@.dom().contains(s) implies pins(g2, &m.vars@[s]) && var_ok(b2, s, m.vars@[s].node as int) by { assert(pins(g, &m.vars@[s])); assert(g.roots@.dom().contains(m.vars@[s].node as int)); }
    assert forall|i: int| 0 <= i < b2.headers@.len() implies b2.dag()[m.vars@[(#[trigger] b2.headers@[i]).label@].node as int]->N_level == i by {
        let s = b.headers@[i].label@;
        assert(m.vars@.dom().contains(s)); assert(g.roots@.dom().contains(m.vars@[s].node as int));
    }
}
// ---------------------------------------------------------------- who holds what
// the handles in circulation, as a multiset of nodes, and the root counts they must add up to
pub open spec fn counts(h: vstd::multiset::Multiset<int>, m: Pins) -> bool { forall|n: int| npin(m, n) == #[trigger] h.count(n) && (m.dom().contains(n) <==> h.count(n) > 0) }
// creating or cloning a handle, dropping one: the counts stay right (the contracts of from_weak, new, clone, drop)
pub proof fn theorem_handles(h: vstd::multiset::Multiset<int>, m: Pins, n: int)
    requires counts(h, m), roomk(m, 1)
    ensures counts(h.insert(n), inc(m, n)), h.count(n) > 0 ==> counts(h.remove(n), dec(m, n))
{
    assert forall|x: int| npin(inc(m, n), x) == #[trigger] h.insert(n).count(x) && (inc(m, n).dom().contains(x) <==> h.insert(n).count(x) > 0) by { assert(npin(m, x) == h.count(x)); assert(npin(m, n) == h.count(n)); }
    if h.count(n) > 0 {
        assert forall|x: int| npin(dec(m, n), x) == #[trigger] h.remove(n).count(x) && (dec(m, n).dom().contains(x) <==> h.remove(n).count(x) > 0) by { assert(npin(m, x) == h.count(x)); assert(npin(m, n) == h.count(n)); }
    }
}
// so a node with a handle in circulation is pinned, whatever happened to the other handles
pub proof fn theorem_held(h: vstd::multiset::Multiset<int>, g: &GcState, b: &BddManager, n: int)
    requires counts(h, g.roots@), hinv(b, g), h.contains(n)
    ensures g.roots@.dom().contains(n), b.live(n)
{ assert(h.count(n) > 0); }
// a collection leaves what the pinned nodes reach, and the constants
pub open spec fn collected(d: D, d2: D, m: Pins) -> bool { exists|ks: Seq<usize>| (forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i] as int)) && #[trigger] kept(d, d2, base3(), ks) }
// with no handles but those of the variables, only the constants and the variables are left
pub proof fn theorem_all_dropped(b: &BddManager, b2: &BddManager, m: Pins)
    requires b.wf(), collected(b.dag(), b2.dag(), m), forall|n: int| #[trigger] m.dom().contains(n) ==> b.live(n) && (b.dag()[n] matches SN::N { level, kids } && kids =~= seq![0int, 1int])
    ensures forall|id: int| #[trigger] b2.live(id) ==> 0 <= id < 3 || m.dom().contains(id)
{
    let d = b.dag();
    let ks = choose|ks: Seq<usize>| (forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i] as int)) && #[trigger] kept(d, b2.dag(), base3(), ks);
    assert forall|id: int| #[trigger] b2.live(id) implies 0 <= id < 3 || m.dom().contains(id) by {
        if !base3()(id) {
            let p = choose|p: Seq<int>| #[trigger] reach(d, ks, id, p);
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == p[0] as usize;
            assert(m.dom().contains(ks[i] as int));
            if p.len() > 1 {
                assert(d[p[0]]->N_kids.contains(p[1]));
                assert(p[1] == 0 || p[1] == 1);
                b.lemma_base(); b.lemma_two();
                if p.len() > 2 { assert(d[p[1]] is N); }
                assert(id == p[1]);
            }
        }
    }
}
//@fn bss bdd::BddMgr::defvar
//@args var vx_bdd vx_gc
    requires vinv(old(self), old(vx_bdd), old(vx_gc)), roomk(old(vx_gc).roots@, 2), old(vx_bdd).headers@.len() < u32::MAX
    ensures vinv(final(self), final(vx_bdd), final(vx_gc)), surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), ext(old(vx_bdd).dag(), final(vx_bdd).dag()), hpre(old(vx_bdd), final(vx_bdd)),
        var_ok(final(vx_bdd), var@, r.node as int), pins(final(vx_gc), &r), final(self).vars@.dom().contains(var@), final(self).vars@[var@].node == r.node,
        if old(self).vars@.dom().contains(var@) {
            &&& final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int)
            &&& final(self).vars@ == old(self).vars@ && final(vx_bdd).headers@ == old(vx_bdd).headers@
        } else {
            &&& final(vx_gc).roots@ == inc(inc(old(vx_gc).roots@, r.node as int), r.node as int)
            &&& final(vx_bdd).headers@.len() == old(vx_bdd).headers@.len() + 1
            &&& final(self).vars@.dom() =~= old(self).vars@.dom().insert(var@)
            &&& forall|s: Seq<char>| old(self).vars@.dom().contains(s) ==> #[trigger] final(self).vars@[s] == old(self).vars@[s]
        }
//@entry
    proof { lemma_hand(); lemma_room(); lemma_base_all(); }
//@end
//@fn bss bdd::BddNode::get_label
//@args vx_bdd
    requires vx_bdd.wf(), vx_bdd.live(self.node as int)
    ensures vx_bdd.lvl(self.node as int) > 0 ==> (r matches Some(s) && exists|h: int| 0 <= h < vx_bdd.headers.len() && vx_bdd.hlevel(h) + 1 == vx_bdd.lvl(self.node as int) && s@ == (#[trigger] vx_bdd.headers@[h]).label@), vx_bdd.lvl(self.node as int) <= 0 ==> r is None
//@entry
    proof { vx_bdd.lemma_node(self.node as int); }
//@end
//@fn bss bdd::BddMgr::set_gc_threshold
//@args threshold vx_gc
    ensures final(vx_gc).roots@ == old(vx_gc).roots@
//@end
//@fn bss bdd::BddMgr::gc
//@args keep vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), forall|i: int| 0 <= i < keep@.len() ==> pins(old(vx_gc), #[trigger] keep@[i])
    ensures hinv(final(vx_bdd), old(vx_gc)), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), collected(old(vx_bdd).dag(), final(vx_bdd).dag(), old(vx_gc).roots@)
//@loopbefore 0
    let ghost k0 = roots@;
//@loop 0
    k0.len() <= roots@.len(), forall|i: int| 0 <= i < k0.len() ==> roots@[i] == #[trigger] k0[i],
    forall|i: int| 0 <= i < roots@.len() ==> vx_bdd.live(#[trigger] roots@[i] as int) && vx_gc.roots@.dom().contains(roots@[i] as int),
//@loopbegin 0
    proof { assert(pins(old(vx_gc), keep@[$i as int])); }
//@exit
    proof { assert(kept(old(vx_bdd).dag(), vx_bdd.dag(), base3(), roots@)); }
//@end
//@fn bss bdd::BddMgr::clear_cache
//@args vx_bdd
    requires old(vx_bdd).wf()
    ensures final(self).vars@ == old(self).vars@, final(vx_bdd).wf(), final(vx_bdd).headers@ == old(vx_bdd).headers@, final(vx_bdd).dag() == old(vx_bdd).dag()
//@end
//@fn bss bdd::BddMgr::create_node
//@args h x0 x1 vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), x0), pins(old(vx_gc), x1), h < old(vx_bdd).headers.len(),
        old(vx_bdd).lvl(x0.node as int) <= old(vx_bdd).hlevel(h as int), old(vx_bdd).lvl(x1.node as int) <= old(vx_bdd).hlevel(h as int),
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), built(final(vx_bdd).dag(), old(vx_bdd).hlevel(h as int), x0.node as int, x1.node as int, r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss bdd::BddMgr::and
//@args nodes vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), pinned(old(vx_gc), nodes@)
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), and_ok(old(vx_bdd).dag(), nids(nodes@), final(vx_bdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); }
//@loopafter 0
    proof { assert(vx_v0@ =~= nids(nodes@)); }
//@end
//@fn bss bdd::BddMgr::or
//@args nodes vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), pinned(old(vx_gc), nodes@)
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), or_ok(old(vx_bdd).dag(), nids(nodes@), final(vx_bdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); }
//@loopafter 0
    proof { assert(vx_v0@ =~= nids(nodes@)); }
//@end
//@fn bss bdd::BddMgr::kofn
//@args k nodes vx_bdd vx_gc
    requires hinv(old(vx_bdd), old(vx_gc)), room(old(vx_gc)), pinned(old(vx_gc), nodes@), (k + 1) * (nodes@.len() + 1) <= usize::MAX, k < usize::MAX, nodes@.len() < usize::MAX
    ensures hinv(final(vx_bdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_bdd).headers@ == old(vx_bdd).headers@, surv(old(vx_bdd), final(vx_bdd), old(vx_gc).roots@), kofn_ok(final(vx_bdd).dag(), nids(nodes@), k as int, 0, r.node as int)
//@entry
    proof { lemma_hand(); }
//@loopafter 0
    proof { assert(vx_v0@ =~= nids(nodes@)); }
//@end

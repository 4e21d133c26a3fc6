// ---------------------------------------------------------------- handles of the set manager
//@item bss zdd::GC_FLOOR
//@item bss zdd::GcState
//@item bss zdd::ZddNode
//@item bss zdd::ZddMgr
pub type Pins = IMap<int, u32>;
pub open spec fn npin(m: Pins, n: int) -> int { if m.dom().contains(n) { m[n] as int } else { 0 } }
// every pinned node is there, with a positive number of handles
pub open spec fn hinv(b: &ZddManager, g: &GcState) -> bool {
    &&& b.wf()
    &&& forall|n: int| #[trigger] g.roots@.dom().contains(n) ==> b.live(n) && g.roots@[n] >= 1
}
pub open spec fn roomk(m: Pins, k: int) -> bool { forall|n: int| #[trigger] m.dom().contains(n) ==> m[n] + k <= u32::MAX }
pub open spec fn room(g: &GcState) -> bool { roomk(g.roots@, 1) }
pub open spec fn pins(g: &GcState, h: &ZddNode) -> bool { g.roots@.dom().contains(h.node as int) && g.roots@[h.node as int] >= 1 }
pub open spec fn inc(m: Pins, n: int) -> Pins { m.insert(n, (npin(m, n) + 1) as u32) }
pub open spec fn dec(m: Pins, n: int) -> Pins { if npin(m, n) <= 1 { m.remove(n) } else { m.insert(n, (m[n] - 1) as u32) } }
// headers are only ever added
pub open spec fn hpre(b: &ZddManager, b2: &ZddManager) -> bool { b.headers@.len() <= b2.headers@.len() && forall|i: int| 0 <= i < b.headers@.len() ==> b2.headers@[i] == #[trigger] b.headers@[i] }
// the pinned nodes survive, with the families they stand for
#[verifier::opaque]
pub open spec fn surv(b: &ZddManager, b2: &ZddManager, m: Pins) -> bool {
    &&& hpre(b, b2)
    &&& forall|n: int| #[trigger] m.dom().contains(n) ==> b2.live(n) && b2.dag()[n] == b.dag()[n] && pure(b2.dag(), n) == pure(b.dag(), n)
    &&& forall|n: int, s: S| m.dom().contains(n) ==> #[trigger] mem(b2.dag(), n, s) == mem(b.dag(), n, s)
}
pub open spec fn all_keys(m: Pins, ks: Seq<usize>) -> bool { forall|n: int| #[trigger] m.dom().contains(n) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] as int == n }
// r is, in the diagram d, the result of the operation on the families f and g had in d0
#[verifier::opaque]
pub open spec fn fam_ok(d0: D, k: ZddOperation, f: int, g: int, d: D, r: int) -> bool {
    pure(d0, f) && pure(d0, g) && (k is Division ==> g != 0) ==> pure(d, r) && forall|s: S| #[trigger] mem(d, r, s) == opm(d0, k, f, g, s)
}
pub proof fn lemma_keep(b: &ZddManager, b2: &ZddManager, m: Pins, ks: Seq<usize>)
    requires kept(b.dag(), b2.dag(), base3(), ks), zkept(b.dag(), b2.dag()), all_keys(m, ks), b.headers@ == b2.headers@
    ensures surv(b, b2, m)
{
    reveal(surv);
    assert forall|n: int| #[trigger] m.dom().contains(n) implies b2.live(n) && b2.dag()[n] == b.dag()[n] && pure(b2.dag(), n) == pure(b.dag(), n) by { let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] as int == n; assert(b2.dag().dom().contains(ks[i] as int)); }
    assert forall|n: int, s: S| m.dom().contains(n) implies #[trigger] mem(b2.dag(), n, s) == mem(b.dag(), n, s) by { assert(b2.live(n)); }
}
pub proof fn lemma_keep_all()
    ensures forall|b: ZddManager, b2: ZddManager, m: Pins, ks: Seq<usize>| #![trigger kept(b.dag(), b2.dag(), base3(), ks), all_keys(m, ks)] kept(b.dag(), b2.dag(), base3(), ks) && zkept(b.dag(), b2.dag()) && all_keys(m, ks) && b.headers@ == b2.headers@ ==> surv(&b, &b2, m)
{ assert forall|b: ZddManager, b2: ZddManager, m: Pins, ks: Seq<usize>| #![trigger kept(b.dag(), b2.dag(), base3(), ks), all_keys(m, ks)] kept(b.dag(), b2.dag(), base3(), ks) && zkept(b.dag(), b2.dag()) && all_keys(m, ks) && b.headers@ == b2.headers@ implies surv(&b, &b2, m) by { lemma_keep(&b, &b2, m, ks); } }
pub proof fn lemma_surv_pin(b0: &ZddManager, bm: &ZddManager, b1: &ZddManager, m: Pins, n: int)
    requires b0.wf(), bm.ext(b0) || bm == b0, forall|x: int| #[trigger] m.dom().contains(x) ==> b0.live(x), surv(bm, b1, inc(m, n))
    ensures surv(b0, b1, m)
{
    reveal(surv);
    assert forall|x: int| #[trigger] m.dom().contains(x) implies b1.live(x) && b1.dag()[x] == b0.dag()[x] && pure(b1.dag(), x) == pure(b0.dag(), x) by { assert(inc(m, n).dom().contains(x)); assert(b0.live(x)); }
    assert forall|x: int, s: S| m.dom().contains(x) implies #[trigger] mem(b1.dag(), x, s) == mem(b0.dag(), x, s) by { assert(inc(m, n).dom().contains(x)); assert(b0.live(x)); assert(mem(b1.dag(), x, s) == mem(bm.dag(), x, s)); }
}
pub proof fn lemma_fam(b0: &ZddManager, bm: &ZddManager, b1: &ZddManager, m: Pins, k: ZddOperation, f: int, g: int, r: int)
    requires b0.wf(), b0.live(f), b0.live(g), bm.ext(b0), zentry(bm.dag(), k, f, g, r), surv(bm, b1, inc(m, r))
    ensures fam_ok(b0.dag(), k, f, g, b1.dag(), r)
{
    reveal(surv); reveal(fam_ok);
    assert(inc(m, r).dom().contains(r));
    if pure(b0.dag(), f) && pure(b0.dag(), g) && (k is Division ==> g != 0) {
        assert forall|s: S| #[trigger] mem(b1.dag(), r, s) == opm(b0.dag(), k, f, g, s) by { assert(mem(b1.dag(), r, s) == mem(bm.dag(), r, s)); assert(opm(bm.dag(), k, f, g, s) == opm(b0.dag(), k, f, g, s)); }
    }
}
pub proof fn lemma_surv_trans(b0: &ZddManager, b1: &ZddManager, b2: &ZddManager, m: Pins, m2: Pins)
    requires surv(b0, b1, m), surv(b1, b2, m2), forall|n: int| #[trigger] m.dom().contains(n) ==> m2.dom().contains(n)
    ensures surv(b0, b2, m)
{
    reveal(surv);
    assert forall|n: int, s: S| m.dom().contains(n) implies #[trigger] mem(b2.dag(), n, s) == mem(b0.dag(), n, s) by { assert(m2.dom().contains(n)); assert(mem(b1.dag(), n, s) == mem(b0.dag(), n, s)); }
}
pub proof fn lemma_hand()
    ensures
        forall|b0: ZddManager, b1: ZddManager, g: GcState, n: int| #![trigger hinv(&b0, &g), surv(&b0, &b1, inc(g.roots@, n))] hinv(&b0, &g) && surv(&b0, &b1, inc(g.roots@, n)) ==> surv(&b0, &b1, g.roots@),
        forall|b0: ZddManager, bm: ZddManager, b1: ZddManager, g: GcState, n: int| #![trigger bm.ext(&b0), hinv(&b0, &g), surv(&bm, &b1, inc(g.roots@, n))] bm.ext(&b0) && hinv(&b0, &g) && surv(&bm, &b1, inc(g.roots@, n)) ==> surv(&b0, &b1, g.roots@),
        forall|b0: ZddManager, bm: ZddManager, b1: ZddManager, m: Pins, k: ZddOperation, f: int, g: int, r: int| #![trigger bm.ext(&b0), zentry(bm.dag(), k, f, g, r), surv(&bm, &b1, inc(m, r))] b0.wf() && b0.live(f) && b0.live(g) && bm.ext(&b0) && zentry(bm.dag(), k, f, g, r) && surv(&bm, &b1, inc(m, r)) ==> fam_ok(b0.dag(), k, f, g, b1.dag(), r),
        forall|b: ZddManager| #[trigger] b.wf() ==> b.zero == 0 && b.one == 1 && b.undet == 2 && b.live(0) && b.live(1),
{
    assert forall|b0: ZddManager, b1: ZddManager, g: GcState, n: int| #![trigger hinv(&b0, &g), surv(&b0, &b1, inc(g.roots@, n))] hinv(&b0, &g) && surv(&b0, &b1, inc(g.roots@, n)) implies surv(&b0, &b1, g.roots@) by { lemma_surv_pin(&b0, &b0, &b1, g.roots@, n); }
    assert forall|b0: ZddManager, bm: ZddManager, b1: ZddManager, g: GcState, n: int| #![trigger bm.ext(&b0), hinv(&b0, &g), surv(&bm, &b1, inc(g.roots@, n))] bm.ext(&b0) && hinv(&b0, &g) && surv(&bm, &b1, inc(g.roots@, n)) implies surv(&b0, &b1, g.roots@) by { lemma_surv_pin(&b0, &bm, &b1, g.roots@, n); }
    assert forall|b0: ZddManager, bm: ZddManager, b1: ZddManager, m: Pins, k: ZddOperation, f: int, g: int, r: int| #![trigger bm.ext(&b0), zentry(bm.dag(), k, f, g, r), surv(&bm, &b1, inc(m, r))] b0.wf() && b0.live(f) && b0.live(g) && bm.ext(&b0) && zentry(bm.dag(), k, f, g, r) && surv(&bm, &b1, inc(m, r)) implies fam_ok(b0.dag(), k, f, g, b1.dag(), r) by { lemma_fam(&b0, &bm, &b1, m, k, f, g, r); }
    assert forall|b: ZddManager| #[trigger] b.wf() implies b.zero == 0 && b.one == 1 && b.undet == 2 && b.live(0) && b.live(1) by { reveal(ZddManager::wf); }
}
//@fn bss zdd::ZddNode::from_weak
//@args node vx_gc
    requires room(old(vx_gc))
    ensures r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn bss zdd::ZddNode::new
//@args node vx_gc
    requires room(old(vx_gc))
    ensures r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn bss zdd::ZddNode::clone
//@args vx_gc
    requires room(old(vx_gc))
    ensures r.node == self.node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, self.node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor
//@end
//@fn bss zdd::ZddNode::drop
//@args vx_gc
    requires pins(old(vx_gc), old(self))
    ensures final(self).node == old(self).node, final(vx_gc).roots@ == dec(old(vx_gc).roots@, old(self).node as int), final(vx_gc).threshold == old(vx_gc).threshold, final(vx_gc).floor == old(vx_gc).floor,
        forall|b: ZddManager| #[trigger] hinv(&b, old(vx_gc)) ==> hinv(&b, final(vx_gc))
//@end
//@fn bss zdd::maybe_gc
//@args vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc))
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == old(vx_gc).roots@, final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@)
//@entry
    proof { reveal(surv); lemma_keep_all(); }
//@end
//@fn bss zdd::ZddNode::rewrap
//@args node vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc)), old(vx_zdd).live(node as int)
    ensures hinv(final(vx_zdd), final(vx_gc)), r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), final(vx_gc).roots@)
//@end
//@fn bss zdd::ZddMgr::wrap
//@args node vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc)), old(vx_zdd).live(node as int)
    ensures hinv(final(vx_zdd), final(vx_gc)), r.node == node, final(vx_gc).roots@ == inc(old(vx_gc).roots@, node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), final(vx_gc).roots@)
//@end
//@fn bss zdd::ZddNode::union
//@args other vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@), fam_ok(old(vx_zdd).dag(), ZddOperation::Union, self.node as int, other.node as int, final(vx_zdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss zdd::ZddNode::intersect
//@args other vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@), fam_ok(old(vx_zdd).dag(), ZddOperation::Intersect, self.node as int, other.node as int, final(vx_zdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss zdd::ZddNode::setdiff
//@args other vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@), fam_ok(old(vx_zdd).dag(), ZddOperation::Setdiff, self.node as int, other.node as int, final(vx_zdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss zdd::ZddNode::product
//@args other vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@), fam_ok(old(vx_zdd).dag(), ZddOperation::Product, self.node as int, other.node as int, final(vx_zdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss zdd::ZddNode::divide
//@args other vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), pins(old(vx_gc), other)
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@), fam_ok(old(vx_zdd).dag(), ZddOperation::Division, self.node as int, other.node as int, final(vx_zdd).dag(), r.node as int)
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss zdd::ZddNode::eq
//@args other
    ensures r == (self.node == other.node)
//@end
//@fn bss zdd::ZddNode::get_id
    ensures r == self.node
//@end
//@fn bss zdd::ZddNode::get_level
//@args vx_zdd
    requires vx_zdd.wf(), vx_zdd.live(self.node as int)
    ensures vx_zdd.lvl(self.node as int) > 0 ==> (r matches Some(l) && l + 1 == vx_zdd.lvl(self.node as int)), vx_zdd.lvl(self.node as int) <= 0 ==> r is None
//@entry
    proof { vx_zdd.lemma_node(self.node as int); }
//@end
//@fn bss zdd::ZddNode::get_label
//@args vx_zdd
    requires vx_zdd.wf(), vx_zdd.live(self.node as int)
    ensures vx_zdd.lvl(self.node as int) > 0 ==> (r matches Some(s) && exists|h: int| 0 <= h < vx_zdd.headers.len() && vx_zdd.hlevel(h) + 1 == vx_zdd.lvl(self.node as int) && s@ == (#[trigger] vx_zdd.headers@[h]).label@), vx_zdd.lvl(self.node as int) <= 0 ==> r is None
//@entry
    proof { vx_zdd.lemma_node(self.node as int); }
//@end
//@fn bss zdd::ZddNode::get_header
//@args vx_zdd
    requires vx_zdd.wf(), vx_zdd.live(self.node as int)
    ensures vx_zdd.lvl(self.node as int) > 0 ==> (r matches Some(h) && h < vx_zdd.headers.len() && vx_zdd.hlevel(h as int) + 1 == vx_zdd.lvl(self.node as int)), vx_zdd.lvl(self.node as int) <= 0 ==> r is None
//@entry
    proof { vx_zdd.lemma_node(self.node as int); }
//@end
//@fn bss zdd::ZddNode::get_children
//@args vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), roomk(old(vx_gc).roots@, 2), pins(old(vx_gc), self)
    ensures hinv(final(vx_zdd), final(vx_gc)),
        match r {
            None => !(vx_zdd.dag()[self.node as int] is N) && final(vx_gc).roots@ == old(vx_gc).roots@,
            Some((x, y)) => vx_zdd.dag()[self.node as int] is N && vx_zdd.dag()[self.node as int]->N_kids =~= seq![x.node as int, y.node as int] && final(vx_gc).roots@ == inc(inc(old(vx_gc).roots@, x.node as int), y.node as int),
        }
//@entry
    proof { vx_zdd.lemma_node(self.node as int); }
//@end
//@fn bss zdd::ZddNode::is_zero
//@args vx_zdd
    requires vx_zdd.wf(), vx_zdd.live(self.node as int)
    ensures r == (self.node == 0)
//@entry
    proof { vx_zdd.lemma_node(self.node as int); }
//@end
//@fn bss zdd::ZddNode::is_one
//@args vx_zdd
    requires vx_zdd.wf(), vx_zdd.live(self.node as int)
    ensures r == (self.node == 1)
//@entry
    proof { vx_zdd.lemma_node(self.node as int); }
//@end
//@fn bss zdd::ZddMgr::zero
//@args vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc))
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@), r.node == 0
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss zdd::ZddMgr::empty
//@args vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc))
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@), r.node == 0
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss zdd::ZddMgr::one
//@args vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc))
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@), r.node == 1
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss zdd::ZddMgr::base
//@args vx_zdd vx_gc
    requires hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc))
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), final(vx_zdd).headers@ == old(vx_zdd).headers@, surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@), r.node == 1
//@entry
    proof { lemma_hand(); }
//@end
//@fn bss zdd::ZddMgr::new
//@args vx_zdd vx_gc
    ensures hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == Pins::empty(), final(vx_zdd).headers@.len() == 0, vinv(&r, final(vx_zdd)), r.vars@ == IMap::<Seq<char>, HeaderId>::empty()
//@end
// ---------------------------------------------------------------- named elements
// one header and one level per element name, in order of appearance
pub open spec fn vinv(m: &ZddMgr, b: &ZddManager) -> bool {
    &&& b.headers@.len() == m.vars.hlen()
    &&& forall|i: int| 0 <= i < b.headers@.len() ==> (#[trigger] b.headers@[i]).level == i && m.vars@.dom().contains(b.headers@[i].label@) && m.vars@[b.headers@[i].label@] == i
    &&& forall|s: Seq<char>| #[trigger] m.vars@.dom().contains(s) ==> m.vars@[s] < b.headers@.len() && b.headers@[m.vars@[s] as int].label@ == s
}
// the family whose only set is a
#[verifier::opaque]
pub open spec fn just(d: D, n: int, a: S) -> bool { pure(d, n) && forall|s: S| #[trigger] mem(d, n, s) == (s =~= a) }
pub open spec fn only(d: D, n: int, l: int) -> bool { just(d, n, ISet::empty().insert(l)) }
pub proof fn lemma_only(b0: &ZddManager, b: &ZddManager, n: int, l: int)
    requires b0.wf(), pure(b.dag(), n) == (pure(b0.dag(), 0) && pure(b0.dag(), 1)), forall|s: S| #[trigger] mem(b.dag(), n, s) == (if s.contains(l) { mem(b0.dag(), 1, s.remove(l)) } else { mem(b0.dag(), 0, s) })
    ensures only(b.dag(), n, l)
{
    reveal(just); reveal(ZddManager::wf); reveal(dag_of); reveal_with_fuel(mem, 1); reveal_with_fuel(pure, 1);
    assert(b0.dag()[0] == SN::T(0) && b0.dag()[1] == SN::T(1));
    assert forall|s: S| #[trigger] mem(b.dag(), n, s) == (s =~= ISet::empty().insert(l)) by {
        if s.contains(l) { if s.remove(l) =~= ISet::<int>::empty() { assert(s =~= ISet::empty().insert(l)); } else { assert(!(s =~= ISet::empty().insert(l))); } } else { assert(!(s =~= ISet::empty().insert(l))); }
    }
}
pub proof fn lemma_grown(b0: &ZddManager, bm: &ZddManager, b1: &ZddManager, g: &GcState, n: int, l: int)
    requires hinv(b0, g), zext(b0.dag(), bm.dag()), hpre(b0, bm), surv(bm, b1, inc(g.roots@, n))
    ensures surv(b0, b1, g.roots@), only(bm.dag(), n, l) ==> only(b1.dag(), n, l)
{
    reveal(surv); reveal(just);
    let m = g.roots@;
    assert(inc(m, n).dom().contains(n));
    assert forall|x: int| #[trigger] m.dom().contains(x) implies b1.live(x) && b1.dag()[x] == b0.dag()[x] && pure(b1.dag(), x) == pure(b0.dag(), x) by { assert(inc(m, n).dom().contains(x)); assert(b0.live(x)); }
    assert forall|x: int, s: S| m.dom().contains(x) implies #[trigger] mem(b1.dag(), x, s) == mem(b0.dag(), x, s) by { assert(inc(m, n).dom().contains(x)); assert(b0.live(x)); assert(mem(b1.dag(), x, s) == mem(bm.dag(), x, s)); }
    if only(bm.dag(), n, l) { assert forall|s: S| #[trigger] mem(b1.dag(), n, s) == (s =~= ISet::empty().insert(l)) by { assert(mem(b1.dag(), n, s) == mem(bm.dag(), n, s)); } }
}
//@fn bss zdd::ZddMgr::singleton
//@args label vx_zdd vx_gc
    requires vinv(old(self), old(vx_zdd)), hinv(old(vx_zdd), old(vx_gc)), room(old(vx_gc)), old(vx_zdd).headers@.len() < u32::MAX
    ensures vinv(final(self), final(vx_zdd)), hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@),
        // the element keeps the level it got when it was first named, and the family is {{label}}
        final(self).vars@.dom() =~= old(self).vars@.dom().insert(label@), forall|s: Seq<char>| old(self).vars@.dom().contains(s) ==> #[trigger] final(self).vars@[s] == old(self).vars@[s],
        final(vx_zdd).headers@.len() == final(self).vars.hlen(), hpre(old(vx_zdd), final(vx_zdd)), final(self).vars.hlen() <= old(self).vars.hlen() + 1,
        only(final(vx_zdd).dag(), r.node as int, final(self).vars@[label@] as int),
//@entry
    proof {
        lemma_hand();
        assert forall|b: ZddManager| #[trigger] b.wf() implies b.lvl(0) == 0 && b.lvl(1) == 0 by { reveal(ZddManager::wf); reveal(dag_of); assert(b.dag()[0] == SN::T(0) && b.dag()[1] == SN::T(1)); }
        assert forall|b0: ZddManager, b: ZddManager, n: int, l: int| #![trigger b0.wf(), only(b.dag(), n, l)] b0.wf() && pure(b.dag(), n) == (pure(b0.dag(), 0) && pure(b0.dag(), 1)) && (forall|s: S| #[trigger] mem(b.dag(), n, s) == (if s.contains(l) { mem(b0.dag(), 1, s.remove(l)) } else { mem(b0.dag(), 0, s) })) implies only(b.dag(), n, l) by { lemma_only(&b0, &b, n, l); }
        assert forall|b0: ZddManager, bm: ZddManager, b1: ZddManager, g: GcState, n: int| #![trigger hinv(&b0, &g), surv(&bm, &b1, inc(g.roots@, n))] hinv(&b0, &g) && zext(b0.dag(), bm.dag()) && hpre(&b0, &bm) && surv(&bm, &b1, inc(g.roots@, n)) implies surv(&b0, &b1, g.roots@) by { lemma_grown(&b0, &bm, &b1, &g, n, 0); }
        assert forall|bm: ZddManager, b1: ZddManager, g: GcState, n: int, l: int| #![trigger surv(&bm, &b1, inc(g.roots@, n)), only(b1.dag(), n, l)] hinv(&bm, &g) && surv(&bm, &b1, inc(g.roots@, n)) && only(bm.dag(), n, l) implies only(b1.dag(), n, l) by { assert(zext(bm.dag(), bm.dag())); lemma_grown(&bm, &bm, &b1, &g, n, l); }
    }
//@end
//@fn bss zdd::ZddMgr::set_gc_threshold
//@args threshold vx_gc
    ensures final(vx_gc).roots@ == old(vx_gc).roots@, final(vx_gc).threshold == threshold, final(vx_gc).floor == threshold
//@end
//@fn bss zdd::ZddMgr::live_node_count
//@args vx_zdd
    requires vx_zdd.wf()
    ensures r <= u32::MAX
//@end
//@fn bss zdd::ZddMgr::clear_cache
//@args vx_zdd
    requires old(vx_zdd).wf()
    ensures final(self).vars@ == old(self).vars@, final(vx_zdd).wf(), final(vx_zdd).dag() == old(vx_zdd).dag(), final(vx_zdd).headers@ == old(vx_zdd).headers@
//@end
// ---------------------------------------------------------------- families given by lists of names
pub open spec fn vext(v: IMap<Seq<char>, usize>, v2: IMap<Seq<char>, usize>) -> bool { forall|s: Seq<char>| #[trigger] v.dom().contains(s) ==> v2.dom().contains(s) && v2[s] == v[s] }
pub open spec fn named(v: IMap<Seq<char>, usize>, w: Seq<String>, k: int) -> bool { forall|i: int| 0 <= i < k ==> v.dom().contains((#[trigger] w[i])@) }
pub open spec fn named_all(v: IMap<Seq<char>, usize>, ws: Seq<Vec<String>>, k: int) -> bool { forall|i: int| 0 <= i < k ==> named(v, (#[trigger] ws[i])@, ws[i]@.len() as int) }
// the levels of the first k names, as a set
pub open spec fn lset(v: IMap<Seq<char>, usize>, w: Seq<String>, k: int) -> S decreases k { if k <= 0 { ISet::empty() } else { lset(v, w, k - 1).insert(v[w[k - 1]@] as int) } }
pub open spec fn words(ws: Seq<Vec<String>>, i: int) -> int decreases ws.len() - i { if i < 0 || i >= ws.len() { 0 } else { ws[i]@.len() + words(ws, i + 1) } }
// the sets of the family are the first k of the list
#[verifier::opaque]
pub open spec fn sets_of(d: D, n: int, v: IMap<Seq<char>, usize>, ws: Seq<Vec<String>>, k: int) -> bool {
    pure(d, n) && forall|s: S| #[trigger] mem(d, n, s) == (exists|j: int| 0 <= j < k && s =~= lset(v, (#[trigger] ws[j])@, ws[j]@.len() as int))
}
pub proof fn lemma_words(ws: Seq<Vec<String>>, i: int)
    ensures words(ws, i) >= 0
    decreases ws.len() - i
{ if 0 <= i < ws.len() { lemma_words(ws, i + 1); } }
pub proof fn lemma_lset(v: IMap<Seq<char>, usize>, v2: IMap<Seq<char>, usize>, w: Seq<String>, k: int)
    requires vext(v, v2), named(v, w, k)
    ensures lset(v2, w, k) == lset(v, w, k)
    decreases k
{ if k > 0 { lemma_lset(v, v2, w, k - 1); assert(v.dom().contains(w[k - 1]@)); } }
// what pinned families stand for is kept
pub proof fn lemma_just_kept(b: &ZddManager, b2: &ZddManager, m: Pins, n: int, a: S)
    requires surv(b, b2, m), m.dom().contains(n), just(b.dag(), n, a)
    ensures just(b2.dag(), n, a)
{ reveal(surv); reveal(just); assert forall|s: S| #[trigger] mem(b2.dag(), n, s) == (s =~= a) by { assert(mem(b2.dag(), n, s) == mem(b.dag(), n, s)); } }
pub proof fn lemma_sets_kept(b: &ZddManager, b2: &ZddManager, m: Pins, n: int, v: IMap<Seq<char>, usize>, v2: IMap<Seq<char>, usize>, ws: Seq<Vec<String>>, k: int)
    requires surv(b, b2, m), m.dom().contains(n), sets_of(b.dag(), n, v, ws, k), vext(v, v2), named_all(v, ws, k)
    ensures sets_of(b2.dag(), n, v2, ws, k)
{
    reveal(surv); reveal(sets_of);
    assert forall|s: S| #[trigger] mem(b2.dag(), n, s) == (exists|j: int| 0 <= j < k && s =~= lset(v2, (#[trigger] ws[j])@, ws[j]@.len() as int)) by {
        assert(mem(b2.dag(), n, s) == mem(b.dag(), n, s));
        assert forall|j: int| 0 <= j < k implies lset(v2, (#[trigger] ws[j])@, ws[j]@.len() as int) == lset(v, ws[j]@, ws[j]@.len() as int) by { lemma_lset(v, v2, ws[j]@, ws[j]@.len() as int); }
    }
}
pub proof fn lemma_just_product(d0: D, f: int, a: S, g: int, l: int, d: D, r: int)
    requires just(d0, f, a), only(d0, g, l), fam_ok(d0, ZddOperation::Product, f, g, d, r)
    ensures just(d, r, a.insert(l))
{
    reveal(just); reveal(fam_ok); reveal(opm);
    assert forall|s: S| #[trigger] mem(d, r, s) == (s =~= a.insert(l)) by {
        assert(mem(d, r, s) == prodm(d0, f, g, s));
        let b = ISet::<int>::empty().insert(l);
        assert(a.union(b) =~= a.insert(l));
        if s =~= a.insert(l) { assert(mem(d0, f, a) && mem(d0, g, b) && s =~= a.union(b)); }
    }
}
pub proof fn lemma_sets_union(d0: D, f: int, g: int, v: IMap<Seq<char>, usize>, ws: Seq<Vec<String>>, k: int, d: D, r: int)
    requires 0 <= k < ws.len(), sets_of(d0, f, v, ws, k), just(d0, g, lset(v, ws[k]@, ws[k]@.len() as int)), fam_ok(d0, ZddOperation::Union, f, g, d, r)
    ensures sets_of(d, r, v, ws, k + 1)
{
    reveal(just); reveal(fam_ok); reveal(opm); reveal(sets_of);
    assert forall|s: S| #[trigger] mem(d, r, s) == (exists|j: int| 0 <= j < k + 1 && s =~= lset(v, (#[trigger] ws[j])@, ws[j]@.len() as int)) by {
        assert(mem(d, r, s) == (mem(d0, f, s) || mem(d0, g, s)));
        if mem(d0, g, s) { assert(s =~= lset(v, ws[k]@, ws[k]@.len() as int)); }
    }
}
pub proof fn lemma_first(b: &ZddManager, v: IMap<Seq<char>, usize>, ws: Seq<Vec<String>>, w: Seq<String>)
    requires b.wf()
    ensures sets_of(b.dag(), 0, v, ws, 0), just(b.dag(), 1, lset(v, w, 0))
{
    reveal(just); reveal(sets_of); reveal(ZddManager::wf); reveal(dag_of); reveal_with_fuel(mem, 1); reveal_with_fuel(pure, 1);
    assert(b.dag()[0] == SN::T(0) && b.dag()[1] == SN::T(1));
}
pub open spec fn pv(m: Pins) -> bool { forall|n: int| #[trigger] m.dom().contains(n) ==> m[n] >= 1 }
pub proof fn lemma_pins()
    ensures
        forall|m: Pins, n: int, x: int| #![trigger npin(inc(m, n), x)] npin(m, n) < u32::MAX ==> npin(inc(m, n), x) == npin(m, x) + if x == n { 1int } else { 0 },
        forall|m: Pins, n: int, x: int| #![trigger npin(dec(m, n), x)] npin(m, n) >= 1 ==> npin(dec(m, n), x) == npin(m, x) - if x == n { 1int } else { 0 },
        forall|m: Pins, n: int| #![trigger pv(inc(m, n))] pv(m) && npin(m, n) < u32::MAX ==> pv(inc(m, n)),
        forall|m: Pins, n: int| #![trigger pv(dec(m, n))] pv(m) ==> pv(dec(m, n)),
{ }
pub proof fn lemma_pin_same(a: Pins, b: Pins)
    requires pv(a), pv(b), forall|n: int| #[trigger] npin(a, n) == npin(b, n)
    ensures a == b
{
    assert forall|n: int| a.dom().contains(n) == b.dom().contains(n) && (a.dom().contains(n) ==> a[n] == b[n]) by { assert(npin(a, n) == npin(b, n)); }
    assert(a =~= b);
}
pub open spec fn pcap(m: Pins, k: int) -> bool { forall|n: int| #[trigger] npin(m, n) + k <= u32::MAX }
// f and x are held over m, s and then p come, f and s go
pub proof fn lemma_swap(m: Pins, x: int, f: int, s: int, p: int)
    requires pv(m), pcap(m, 4)
    ensures dec(dec(inc(inc(inc(inc(m, x), f), s), p), f), s) == inc(inc(m, x), p), dec(dec(inc(inc(inc(m, f), s), p), f), s) == inc(m, p), pv(inc(inc(m, x), f)), roomk(m, 1), roomk(inc(m, x), 1), roomk(inc(inc(m, x), f), 1), roomk(inc(inc(m, x), f), 2), roomk(inc(m, x), 3), roomk(inc(inc(inc(m, x), f), s), 1),
        inc(inc(m, x), f).dom().contains(x), inc(inc(m, x), f).dom().contains(f), inc(inc(inc(m, x), f), s).dom().contains(s), inc(inc(inc(m, x), f), s).dom().contains(f),
        inc(m, x).dom().contains(x), inc(inc(inc(m, x), f), s).dom().contains(x), inc(inc(m, x), f)[x] >= 1, inc(inc(m, x), f)[f] >= 1,
        forall|n: int| #[trigger] m.dom().contains(n) ==> inc(m, x).dom().contains(n) && inc(inc(m, x), f).dom().contains(n),
        forall|n: int| #[trigger] inc(inc(m, x), f).dom().contains(n) ==> inc(inc(inc(m, x), f), s).dom().contains(n),
        inc(inc(inc(m, x), f), s)[f] >= 1, inc(inc(inc(m, x), f), s)[s] >= 1,
        ({ let m4 = inc(inc(inc(inc(m, x), f), s), p); m4.dom().contains(f) && m4[f] >= 1 && dec(m4, f).dom().contains(s) && dec(m4, f)[s] >= 1 })
{
    lemma_pins();
    let m1 = inc(m, x); let m2 = inc(m1, f); let m3 = inc(m2, s); let m4 = inc(m3, p);
    assert(npin(m, x) + 4 <= u32::MAX && npin(m, f) + 4 <= u32::MAX && npin(m, s) + 4 <= u32::MAX && npin(m, p) + 4 <= u32::MAX);
    assert(npin(m1, f) < u32::MAX && npin(m1, s) < u32::MAX && npin(m1, p) < u32::MAX); assert(npin(m2, s) < u32::MAX && npin(m2, p) < u32::MAX); assert(npin(m3, p) < u32::MAX);
    assert(npin(m4, f) >= 1); assert(npin(dec(m4, f), s) >= 1);
    let n1 = inc(m, f); let n2 = inc(n1, s); let n3 = inc(n2, p);
    assert(npin(n1, s) < u32::MAX && npin(n1, p) < u32::MAX); assert(npin(n2, p) < u32::MAX); assert(npin(n3, f) >= 1); assert(npin(dec(n3, f), s) >= 1);
    assert forall|n: int| #[trigger] npin(dec(dec(m4, f), s), n) == npin(inc(m1, p), n) by { }
    assert(pv(m1) && pv(m2) && pv(m3) && pv(m4) && pv(dec(m4, f)) && pv(dec(dec(m4, f), s)) && pv(inc(m1, p)));
    lemma_pin_same(dec(dec(m4, f), s), inc(m1, p));
    assert forall|n: int| #[trigger] npin(dec(dec(n3, f), s), n) == npin(inc(m, p), n) by { }
    assert(pv(n1) && pv(n2) && pv(n3) && pv(dec(n3, f)) && pv(dec(dec(n3, f), s)) && pv(inc(m, p)));
    lemma_pin_same(dec(dec(n3, f), s), inc(m, p));
    assert forall|n: int| #[trigger] m.dom().contains(n) implies m[n] + 1 <= u32::MAX by { assert(npin(m, n) + 4 <= u32::MAX); }
    assert forall|n: int| #[trigger] m1.dom().contains(n) implies m1[n] + 3 <= u32::MAX by { assert(npin(m, n) + 4 <= u32::MAX); assert(npin(m1, n) == m1[n]); }
    assert forall|n: int| #[trigger] m2.dom().contains(n) implies m2[n] + 2 <= u32::MAX by { assert(npin(m, n) + 4 <= u32::MAX); assert(npin(m1, n) <= npin(m, n) + 1); assert(npin(m2, n) == m2[n]); }
    assert forall|n: int| #[trigger] m3.dom().contains(n) implies m3[n] + 1 <= u32::MAX by { assert(npin(m, n) + 4 <= u32::MAX); assert(npin(m1, n) <= npin(m, n) + 1); assert(npin(m2, n) <= npin(m, n) + 2); assert(npin(m3, n) == m3[n]); }
}
// x and f are held over m, u comes, x and f go
pub proof fn lemma_over(m: Pins, x: int, f: int, u: int)
    requires pv(m), pcap(m, 4)
    ensures dec(dec(inc(inc(inc(m, x), f), u), x), f) == inc(m, u),
        ({ let m3 = inc(inc(inc(m, x), f), u); m3.dom().contains(x) && m3[x] >= 1 && dec(m3, x).dom().contains(f) && dec(m3, x)[f] >= 1 })
{
    lemma_pins();
    let m1 = inc(m, x); let m2 = inc(m1, f); let m3 = inc(m2, u);
    assert(npin(m, x) + 4 <= u32::MAX && npin(m, f) + 4 <= u32::MAX && npin(m, u) + 4 <= u32::MAX);
    assert(npin(m1, f) < u32::MAX && npin(m1, u) < u32::MAX); assert(npin(m2, u) < u32::MAX);
    assert(npin(m3, x) >= 1); assert(npin(dec(m3, x), f) >= 1);
    assert forall|n: int| #[trigger] npin(dec(dec(m3, x), f), n) == npin(inc(m, u), n) by { }
    assert(pv(m1) && pv(m2) && pv(m3) && pv(dec(m3, x)) && pv(dec(dec(m3, x), f)) && pv(inc(m, u)));
    lemma_pin_same(dec(dec(m3, x), f), inc(m, u));
}
pub proof fn lemma_glue()
    ensures
        forall|b: ZddManager, g: GcState| #[trigger] hinv(&b, &g) ==> b.wf() && pv(g.roots@),
        forall|m: ZddMgr, b: ZddManager| #[trigger] vinv(&m, &b) ==> b.headers@.len() == m.vars.hlen(),
        forall|m: ZddMgr, b: ZddManager, b2: ZddManager| #![trigger vinv(&m, &b), vinv(&m, &b2)] vinv(&m, &b) && b2.headers@ == b.headers@ ==> vinv(&m, &b2),
{ }
// one more name
pub proof fn lemma_word(v0: IMap<Seq<char>, usize>, v: IMap<Seq<char>, usize>, v2: IMap<Seq<char>, usize>, ws: Seq<Vec<String>>, k: int, w: Seq<String>, i: int)
    requires vext(v0, v), named_all(v, ws, k), named(v, w, i), 0 <= i < w.len(), v2.dom() =~= v.dom().insert(w[i]@), forall|s: Seq<char>| v.dom().contains(s) ==> #[trigger] v2[s] == v[s]
    ensures vext(v0, v2), vext(v, v2), named_all(v2, ws, k), named(v2, w, i + 1)
{
    assert(vext(v, v2));
    assert forall|j: int| 0 <= j < k implies named(v2, (#[trigger] ws[j])@, ws[j]@.len() as int) by { assert(named(v, ws[j]@, ws[j]@.len() as int)); assert forall|l: int| 0 <= l < ws[j]@.len() implies v2.dom().contains((#[trigger] ws[j]@[l])@) by { assert(v.dom().contains(ws[j]@[l]@)); } }
    assert forall|l: int| 0 <= l < i + 1 implies v2.dom().contains((#[trigger] w[l])@) by { if l < i { assert(v.dom().contains(w[l]@)); } }
}
pub proof fn lemma_names0(v: IMap<Seq<char>, usize>, ws: Seq<Vec<String>>)
    ensures vext(v, v), named_all(v, ws, 0)
{ }
pub proof fn lemma_names1(v: IMap<Seq<char>, usize>, ws: Seq<Vec<String>>, k: int)
    requires 0 < k <= ws.len(), named_all(v, ws, k - 1), named(v, ws[k - 1]@, ws[k - 1]@.len() as int)
    ensures named_all(v, ws, k)
{ }
pub proof fn lemma_swaps(m: Pins, x: int, f: int, s: int)
    requires pv(m), pcap(m, 4)
    ensures forall|p: int| #![trigger inc(inc(inc(inc(m, x), f), s), p)] ({ let m4 = inc(inc(inc(inc(m, x), f), s), p); m4.dom().contains(f) && m4[f] >= 1 && dec(m4, f).dom().contains(s) && dec(m4, f)[s] >= 1 })
{ assert forall|p: int| #![trigger inc(inc(inc(inc(m, x), f), s), p)] ({ let m4 = inc(inc(inc(inc(m, x), f), s), p); m4.dom().contains(f) && m4[f] >= 1 && dec(m4, f).dom().contains(s) && dec(m4, f)[s] >= 1 }) by { lemma_swap(m, x, f, s, p); } }
pub proof fn lemma_overs(m: Pins, x: int, f: int)
    requires pv(m), pcap(m, 4)
    ensures forall|u: int| #![trigger inc(inc(inc(m, x), f), u)] ({ let m3 = inc(inc(inc(m, x), f), u); m3.dom().contains(x) && m3[x] >= 1 && dec(m3, x).dom().contains(f) && dec(m3, x)[f] >= 1 })
{ assert forall|u: int| #![trigger inc(inc(inc(m, x), f), u)] ({ let m3 = inc(inc(inc(m, x), f), u); m3.dom().contains(x) && m3[x] >= 1 && dec(m3, x).dom().contains(f) && dec(m3, x)[f] >= 1 }) by { lemma_over(m, x, f, u); } }
pub proof fn lemma_surv_refl(b: &ZddManager, g: &GcState)
    requires hinv(b, g)
    ensures surv(b, b, g.roots@)
{ reveal(surv); }
//@fn bss zdd::ZddMgr::from_sets
//@attr #[verifier::spinoff_prover]
//@args sets vx_zdd vx_gc
    requires vinv(old(self), old(vx_zdd)), hinv(old(vx_zdd), old(vx_gc)), pcap(old(vx_gc).roots@, 4), old(vx_zdd).headers@.len() + words(sets@, 0) <= u32::MAX
    ensures vinv(final(self), final(vx_zdd)), hinv(final(vx_zdd), final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, r.node as int), surv(old(vx_zdd), final(vx_zdd), old(vx_gc).roots@),
        vext(old(self).vars@, final(self).vars@), named_all(final(self).vars@, sets@, sets@.len() as int),
        // the listed sets and no others
        sets_of(final(vx_zdd).dag(), r.node as int, final(self).vars@, sets@, sets@.len() as int),
//@entry
    hide(inc); hide(dec); hide(roomk); hide(pv); hide(pcap); hide(npin); hide(vext); hide(named_all); hide(vinv); hide(hinv);
    let ghost z0 = *vx_zdd; let ghost m0 = vx_gc.roots@; let ghost v0 = self.vars@;
    proof { lemma_glue(); lemma_swap(m0, 0, 0, 0, 0); lemma_surv_refl(vx_zdd, vx_gc); lemma_names0(v0, sets@); }
//@loopbefore 0
    proof { lemma_glue(); lemma_first(vx_zdd, v0, sets@, Seq::empty()); }
//@loop 0
    vinv(self, vx_zdd), hinv(vx_zdd, vx_gc), vx_gc.roots@ == inc(m0, result.node as int), surv(&z0, vx_zdd, m0), vext(v0, self.vars@), named_all(self.vars@, sets@, $i as int),
    sets_of(vx_zdd.dag(), result.node as int, self.vars@, sets@, $i as int), vx_zdd.headers@.len() + words(sets@, $i as int) <= u32::MAX,
    pv(m0), pcap(m0, 4),
//@loopbegin 0
    let ghost za = *vx_zdd; let ghost mut zu = *vx_zdd; let ghost mut mu = vx_gc.roots@; let ghost mut rb = result.node as int;
    proof { lemma_glue(); lemma_swap(m0, result.node as int, 1, 1, 1); lemma_names0(self.vars@, sets@); lemma_words(sets@, $i as int + 1); }
//@loopbefore 1
    proof { lemma_swap(m0, result.node as int, 1, 1, 1); lemma_sets_kept(&za, vx_zdd, inc(m0, result.node as int), result.node as int, self.vars@, self.vars@, sets@, vx_i0 as int - 1); lemma_surv_trans(&z0, &za, vx_zdd, m0, inc(m0, result.node as int)); lemma_first(vx_zdd, self.vars@, sets@, s@); }
//@loop 1
    vinv(self, vx_zdd), hinv(vx_zdd, vx_gc), vx_gc.roots@ == inc(inc(m0, result.node as int), fam.node as int), surv(&z0, vx_zdd, m0), vext(v0, self.vars@), named_all(self.vars@, sets@, vx_i0 as int - 1), named(self.vars@, s@, $i as int),
    sets_of(vx_zdd.dag(), result.node as int, self.vars@, sets@, vx_i0 as int - 1), just(vx_zdd.dag(), fam.node as int, lset(self.vars@, s@, $i as int)),
    0 < vx_i0 <= sets@.len(), s@ == sets@[vx_i0 as int - 1]@, vx_zdd.headers@.len() + (s@.len() - $i) + words(sets@, vx_i0 as int) <= u32::MAX,
    pv(m0), pcap(m0, 4),
//@loopbegin 1
    let ghost zb = *vx_zdd; let ghost mb = vx_gc.roots@; let ghost vb = self.vars@; let ghost fb = fam.node as int;
    proof { lemma_glue(); lemma_words(sets@, vx_i0 as int); lemma_names0(self.vars@, sets@); lemma_swap(m0, result.node as int, fam.node as int, 0, 0); }
//@after singleton
    let ghost zc = *vx_zdd; let ghost mc = vx_gc.roots@;
    proof {
        let (rn, fnn, sn) = (result.node as int, fam.node as int, single.node as int);
        lemma_swap(m0, rn, fnn, sn, 0); lemma_swaps(m0, rn, fnn, sn);
        lemma_word(v0, vb, self.vars@, sets@, vx_i0 as int - 1, s@, vx_i1 as int - 1); lemma_names0(self.vars@, sets@);
        lemma_sets_kept(&zb, vx_zdd, mb, rn, vb, self.vars@, sets@, vx_i0 as int - 1); lemma_just_kept(&zb, vx_zdd, mb, fnn, lset(vb, s@, vx_i1 as int - 1)); lemma_lset(vb, self.vars@, s@, vx_i1 as int - 1);
    }
//@loopend 1
    proof {
        let (rn, sn, pn) = (result.node as int, single.node as int, fam.node as int);
        lemma_swap(m0, rn, fb, sn, pn);
        lemma_sets_kept(&zc, vx_zdd, mc, rn, self.vars@, self.vars@, sets@, vx_i0 as int - 1);
        lemma_just_product(zc.dag(), fb, lset(self.vars@, s@, vx_i1 as int - 1), sn, self.vars@[s@[vx_i1 as int - 1]@] as int, vx_zdd.dag(), pn);
        lemma_surv_trans(&zb, &zc, vx_zdd, mb, mc); lemma_surv_trans(&z0, &zb, vx_zdd, m0, mb);
    }
//@loopafter 1
    proof { zu = *vx_zdd; mu = vx_gc.roots@; rb = result.node as int; lemma_swap(m0, rb, fam.node as int, 0, 0); lemma_overs(m0, rb, fam.node as int); }
//@loopend 0
    proof {
        let (fnn, un) = (fam.node as int, result.node as int);
        lemma_names1(self.vars@, sets@, vx_i0 as int); lemma_swap(m0, rb, fnn, un, 0); lemma_over(m0, rb, fnn, un);
        lemma_surv_trans(&z0, &zu, vx_zdd, m0, mu);
        assert(mu.dom().contains(rb) && mu.dom().contains(fnn));
        lemma_sets_union(zu.dag(), rb, fnn, self.vars@, sets@, vx_i0 as int - 1, vx_zdd.dag(), un);
    }
//@end

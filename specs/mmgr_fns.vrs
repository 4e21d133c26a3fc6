// ---------------------------------------------------------------- minimal path and cut vectors, from the structure function to the family of vectors
pub mod mddcore { pub use super::mdd; pub use super::mtmdd; }
pub mod mg { use super::*;
use super::mzw::*;
use super::zmdd::enc;
use super::mso::*;
use super::mse::*;
use std::rc::Rc;
broadcast use {numax::axiom_num, numax::axiom_num_eq};
//@item mss mdd::MddNode
//@item mss mdd::MddMgr
//@item mss mss::MssMgr
//@stubs on
//@fn mss mdd::MddNode::get_node
    ensures r == self.node
//@end
//@fn mss mdd::MddMgr::get_varorder
//@args vx_mdd
//@end
//@stubs off
pub open spec fn knd(m: &MtMdd2Manager, n: Node, up: bool) -> MS { match n { Node::Value(v) => vkd(m.mtmdd.headers@, up), Node::Bool(v) => bkd(m.mdd.headers@, up) } }
pub open spec fn dgm(m: &MtMdd2Manager, n: Node) -> D { match n { Node::Value(v) => m.vd(), Node::Bool(v) => m.bd() } }
pub open spec fn idx(n: Node) -> int { match n { Node::Value(v) => v as int, Node::Bool(v) => v as int } }
// every component in its lowest (highest) state
pub open spec fn corner(k: MS) -> Asg { |l: int| bs(k, l) }
pub open spec fn extreme(m: &MtMdd2Manager, n: Node, up: bool) -> int { let e = eval(dgm(m, n), idx(n), corner(knd(m, n, up))); match n { Node::Value(v) => dec(e), Node::Bool(v) => if e == 1 { 1 } else { 0 } } }
pub proof fn lemma_corner(m: &MtMdd2Manager, n: Node, up: bool)
    requires m.wf(), m.live(n)
    ensures ({ let k = knd(m, n, up); let d = dgm(m, n); let i = idx(n);
        &&& inr(k, corner(k)) && lv(d, i) >= 0
        &&& d[i] is T ==> eval(d, i, corner(k)) == d[i]->T_0
        &&& d[i] is N ==> d[i]->N_kids.len() > 0 && ({ let c = d[i]->N_kids[if up { d[i]->N_kids.len() - 1 } else { 0 }]; d.dom().contains(c) && lv(d, c) < lv(d, i) && eval(d, i, corner(k)) == eval(d, c, corner(k)) }) })
{
    let k = knd(m, n, up); let d = dgm(m, n); let i = idx(n);
    match n { Node::Value(v) => { lemma_vdk(&m.mtmdd, up); }, Node::Bool(v) => { lemma_bdk(&m.mdd, up); } }
    assert(inr(k, corner(k)));
    if d[i] is T { lemma_mt(k, d, i); } else { lemma_mn(k, d, i); assert(d[i]->N_kids.len() == ar(k, top(d, i))) by { reveal(dk); } let c = corner(k)(top(d, i)); assert(d.dom().contains(kid(d, i, c))); }
}
//@fn mss mss::eval_extreme
//@args node top vx_mdd
    requires vx_mdd.wf(), vx_mdd.live(*node)
    ensures r.v() == extreme(vx_mdd, *node, top)
//@loop 0
    invariant vx_mdd.live(Node::Value(cur)), eval(vx_mdd.vd(), cur as int, corner(knd(vx_mdd, *node, top))) == eval(vx_mdd.vd(), idx(*node), corner(knd(vx_mdd, *node, top))),
    decreases lv(vx_mdd.vd(), cur as int)
//@loopbegin 0
    proof { vx_mdd.lemma_v(cur as int); lemma_corner(vx_mdd, Node::Value(cur), top); }
//@loop 2
    invariant vx_mdd.live(Node::Bool(cur)), eval(vx_mdd.bd(), cur as int, corner(knd(vx_mdd, *node, top))) == eval(vx_mdd.bd(), idx(*node), corner(knd(vx_mdd, *node, top))),
    decreases lv(vx_mdd.bd(), cur as int)
//@loopbegin 2
    proof { vx_mdd.lemma_b(cur as int); lemma_corner(vx_mdd, Node::Bool(cur), top); }
//@end
// the label of the vector b (read backwards for cuts) in the family of the minimal vectors of n
pub open spec fn wanted(k: MS, d: D, n: int, b: Asg) -> int {
    if inr(k, b) && zout(b, lv(d, n)) && minimal(k, d, n, rv(k, b), lv(d, n)) { lb(k, tgt(k, eval(d, n, rv(k, b)))) } else { 0 }
}
// the family at r has exactly the minimal vectors, each under its value, and the baseline vector under its value
#[verifier::opaque]
pub open spec fn lists(m: &MtMdd2Manager, n: Node, up: bool, d: D, r: int) -> bool {
    forall|b: Asg| #[trigger] lk(d, r, b) == ({ let x = wanted(knd(m, n, up), dgm(m, n), idx(n), b); if zeroes(b) && x == 0 { enc(extreme(m, n, up)) } else { x } })
}
pub open spec fn coherent(m: &MtMdd2Manager, n: Node, up: bool) -> bool { monof(knd(m, n, up), dgm(m, n), idx(n)) }
pub open spec fn total(m: &MtMdd2Manager, n: Node, up: bool) -> bool { full(knd(m, n, up), dgm(m, n), idx(n)) }
pub proof fn lemma_lab_up(k: MS, d: D, f: int, a: Asg, n: int)
    requires dk(k, d), d.dom().contains(f), n >= lv(d, f), inr(k, a)
    ensures lab(k, d, f, a, n) == (if atb(k, a, lv(d, f), n) { lab(k, d, f, a, lv(d, f)) } else { und(k) })
{
    let l = lv(d, f);
    if d[f] is T { lemma_mt(k, d, f); assert(atb(k, a, 0, 0)); } else { lemma_mn(k, d, f); assert(atb(k, a, l, l)); }
}
pub proof fn lemma_whole(k: MS, d: D, n: int, f: int, d1: D, r1: int)
    requires dk(k, d), d.dom().contains(n), mso(k, d, n, f), monof(k, d, n), full(k, d, n), conv(k, d, f, d1, r1)
    ensures forall|b: Asg| #[trigger] lk(d1, r1, b) == wanted(k, d, n, b)
{
    reveal(conv); reveal(mso);
    let l = lv(d, f); let t = lv(d, n);
    assert forall|b: Asg| #[trigger] lk(d1, r1, b) == wanted(k, d, n, b) by {
        if inr(k, b) {
            let a = rv(k, b);
            assert(inr(k, a)) by { assert forall|z: int| 0 <= #[trigger] a(z) < ar(k, z) by { assert(0 <= b(z) < ar(k, z)); } }
            theorem_minimal(k, d, n, f, a, t); lemma_lab_up(k, d, f, a, t);
            if zout(b, l) { assert(zout(b, t)); assert(atb(k, a, l, t)) by { assert forall|z: int| l <= z < t implies #[trigger] a(z) == bs(k, z) by { assert(b(z) == 0); } } }
            else if zout(b, t) { assert(!atb(k, a, l, t)) by { let z = choose|z: int| (z < 0 || z >= l) && #[trigger] b(z) != 0; assert(l <= z < t); assert(a(z) != bs(k, z)); } }
        }
    }
}
// what a coherent function's family holds
pub proof fn theorem_lists(m: &MtMdd2Manager, n: Node, up: bool, f: Node, d: D, r: int)
    requires m.wf(), m.live(n), sol_ok(m, up, n, Some(f)), based(m, f, up, extreme(m, n, up), d, r), total(m, n, up)
    ensures coherent(m, n, up), lists(m, n, up, d, r)
{
    reveal(based); reveal(lists);
    let k = knd(m, n, up); let s = dgm(m, n);
    let (d1, r1) = choose|d1: D, r1: int| #[trigger] family(m, f, up, d1, r1) && forall|a: Asg| #[trigger] lk(d, r, a) == if zeroes(a) && lk(d1, r1, a) == 0 { enc(extreme(m, n, up)) } else { lk(d1, r1, a) };
    match n { Node::Value(v) => { lemma_vdk(&m.mtmdd, up); }, Node::Bool(v) => { lemma_bdk(&m.mdd, up); } }
    assert(mso(k, s, idx(n), idx(f)));
    lemma_whole(k, s, idx(n), idx(f), d1, r1);
}
pub open spec fn answer(m: &MtMdd2Manager, n: Node, up: bool, b0: &ZmddManager, g0: &GcState, b: &ZmddManager, g: &GcState, r: Option<ZmddNode>) -> bool {
    &&& hinv(b, g) && surv(b0, b, g0.roots@)
    &&& total(m, n, up) ==> coherent(m, n, up) == r is Some
    &&& match r {
        Some(z) => z.reverse == up && g.roots@ == inc(g0.roots@, z.node as int) && (total(m, n, up) ==> lists(m, n, up, b.dag(), z.node as int)),
        None => g.roots@ == g0.roots@,
    }
}
pub proof fn lemma_answers(m: &MtMdd2Manager, n: Node, up: bool)
    requires m.wf(), m.live(n)
    ensures forall|f: Node, d: D, r: int| sol_ok(m, up, n, Some(f)) && #[trigger] based(m, f, up, extreme(m, n, up), d, r) && total(m, n, up) ==> coherent(m, n, up) && lists(m, n, up, d, r),
        sol_ok(m, up, n, None) ==> (total(m, n, up) ==> !coherent(m, n, up)), forall|f: Node| #[trigger] sol_ok(m, up, n, Some(f)) ==> m.live(f),
        forall|b: ZmddManager, g: GcState| #[trigger] hinv(&b, &g) ==> surv(&b, &b, g.roots@),
{
    assert forall|f: Node, d: D, r: int| sol_ok(m, up, n, Some(f)) && #[trigger] based(m, f, up, extreme(m, n, up), d, r) && total(m, n, up) implies coherent(m, n, up) && lists(m, n, up, d, r) by { theorem_lists(m, n, up, f, d, r); }
    reveal(mso); reveal(surv);
}
// the same for whatever state of the manager the code asks in
pub proof fn lemma_anywhere(n: Node, up: bool)
    ensures forall|m: MtMdd2Manager, x: Option<Node>| #[trigger] sol_ok(&m, up, n, x) && m.wf() && m.live(n) ==> (x is None ==> (total(&m, n, up) ==> !coherent(&m, n, up))) && (x is Some ==> m.live(x->0)),
        forall|m: MtMdd2Manager, f: Node, d: D, r: int| m.wf() && m.live(n) && sol_ok(&m, up, n, Some(f)) && #[trigger] based(&m, f, up, extreme(&m, n, up), d, r) && total(&m, n, up) ==> coherent(&m, n, up) && lists(&m, n, up, d, r),
        forall|b: ZmddManager, g: GcState| #[trigger] hinv(&b, &g) ==> surv(&b, &b, g.roots@),
{
    assert forall|m: MtMdd2Manager, x: Option<Node>| #[trigger] sol_ok(&m, up, n, x) && m.wf() && m.live(n) implies (x is None ==> (total(&m, n, up) ==> !coherent(&m, n, up))) && (x is Some ==> m.live(x->0)) by { lemma_answers(&m, n, up); if x is Some { assert(sol_ok(&m, up, n, Some(x->0))); } }
    assert forall|m: MtMdd2Manager, f: Node, d: D, r: int| m.wf() && m.live(n) && sol_ok(&m, up, n, Some(f)) && #[trigger] based(&m, f, up, extreme(&m, n, up), d, r) && total(&m, n, up) implies coherent(&m, n, up) && lists(&m, n, up, d, r) by { lemma_answers(&m, n, up); }
    reveal(surv);
}
//@fn mss mss::MssMgr::minpath
//@args node vx_zmdd vx_gc vx_mdd
    requires old(vx_mdd).wf(), old(vx_mdd).live(node.node), one_header(old(vx_mdd).mdd.headers@), one_header(old(vx_mdd).mtmdd.headers@), hinv(old(vx_zmdd), old(vx_gc)), room(old(vx_gc)),
        hsame(old(vx_mdd).mdd.headers@, old(vx_zmdd).headers@), hsame(old(vx_mdd).mtmdd.headers@, old(vx_zmdd).headers@), old(vx_zmdd).headers.len() + old(vx_mdd).mdd.headers.len() <= u32::MAX
    ensures final(vx_mdd).wf(), final(vx_mdd).ext(old(vx_mdd)), answer(final(vx_mdd), node.node, false, old(vx_zmdd), old(vx_gc), final(vx_zmdd), final(vx_gc), r)
//@entry
    proof { lemma_anywhere(node.node, false); }
//@end
//@fn mss mss::MssMgr::mincut
//@args node vx_zmdd vx_gc vx_mdd
    requires old(vx_mdd).wf(), old(vx_mdd).live(node.node), one_header(old(vx_mdd).mdd.headers@), one_header(old(vx_mdd).mtmdd.headers@), hinv(old(vx_zmdd), old(vx_gc)), room(old(vx_gc)),
        hsame(old(vx_mdd).mdd.headers@, old(vx_zmdd).headers@), hsame(old(vx_mdd).mtmdd.headers@, old(vx_zmdd).headers@), old(vx_zmdd).headers.len() + old(vx_mdd).mdd.headers.len() <= u32::MAX
    ensures final(vx_mdd).wf(), final(vx_mdd).ext(old(vx_mdd)), answer(final(vx_mdd), node.node, true, old(vx_zmdd), old(vx_gc), final(vx_zmdd), final(vx_gc), r)
//@entry
    proof { lemma_anywhere(node.node, true); }
//@end
}

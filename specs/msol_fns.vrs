pub mod mso { use super::*;
pub use m2::MtMdd2Manager;
pub open spec fn vkd(h: Seq<NodeHeader>, up: bool) -> MS { MS { vk: true, up: up, h: h } }
pub open spec fn bkd(h: Seq<NodeHeader>, up: bool) -> MS { MS { vk: false, up: up, h: h } }

// ---- MtMddManager
pub proof fn lemma_vdk(m: &MtMddManager, up: bool)
    requires m.wf()
    ensures dk(vkd(m.headers@, up), m.dag())
{
    let k = vkd(m.headers@, up); let d = m.dag();
    reveal(dk); m.lemma_dag();
    assert forall|id: int| #[trigger] d.dom().contains(id) implies (match d[id] { SN::N { level, kids } => kids.len() == ar(k, level), SN::T(v) => k.vk || v == 0 || v == 1 || v == 2 }) by {
        m.lemma_node(id);
        match m.nodes[id] { VNode::NonTerminal(n) => { lemma_arity(m.headers@, n.header as int); }, _ => {} }
    }
}
pub broadcast proof fn lemma_vext0(m: MtMddManager, m2: MtMddManager)
    requires m.wf(), m2.wf(), #[trigger] m2.ext(&m)
    ensures mext(vkd(m.headers@, false), m.dag(), m2.dag()), m2.headers@ == m.headers@
{ lemma_vdk(&m, false); lemma_vdk(&m2, false); lemma_mext(vkd(m.headers@, false), m.dag(), m2.dag()); }
pub broadcast proof fn lemma_vwf0(m: MtMddManager)
    requires #[trigger] m.wf()
    ensures dk(vkd(m.headers@, false), m.dag()), m.undet == 0, m.live(0), m.dag()[0] == SN::T(0)
{ lemma_vdk(&m, false); reveal(MtMddManager::wf); m.lemma_node(0); }
pub broadcast proof fn lemma_vchain0(m: MtMddManager, f: int, i: int, j: int, p: int, q: int, n: int)
    requires #[trigger] m.wf(), one_header(m.headers@), m.live(f), m.dag()[f] is N, 0 <= i, j == i + 1, j < ar(vkd(m.headers@, false), top(m.dag(), f)), #[trigger] wants(vkd(m.headers@, false), f, j),
        #[trigger] chained(vkd(m.headers@, false), m.dag(), f, i), #[trigger] mtmdd::apply_ok(m.dag(), MtMddOperation::Min, p, q, n), p == kid(m.dag(), f, i), q == kid(m.dag(), f, j)
    ensures n == p ==> chained(vkd(m.headers@, false), m.dag(), f, j), n != p ==> notmono(vkd(m.headers@, false), m.dag(), f)
{ lemma_vdk(&m, false); lemma_vchain(&m, p, q, n, false); lemma_chained_step(vkd(m.headers@, false), m.dag(), f, i, n == p); }
pub broadcast proof fn lemma_vext1(m: MtMddManager, m2: MtMddManager)
    requires m.wf(), m2.wf(), #[trigger] m2.ext(&m)
    ensures mext(vkd(m.headers@, true), m.dag(), m2.dag()), m2.headers@ == m.headers@
{ lemma_vdk(&m, true); lemma_vdk(&m2, true); lemma_mext(vkd(m.headers@, true), m.dag(), m2.dag()); }
pub broadcast proof fn lemma_vwf1(m: MtMddManager)
    requires #[trigger] m.wf()
    ensures dk(vkd(m.headers@, true), m.dag()), m.undet == 0, m.live(0), m.dag()[0] == SN::T(0)
{ lemma_vdk(&m, true); reveal(MtMddManager::wf); m.lemma_node(0); }
pub broadcast proof fn lemma_vchain1(m: MtMddManager, f: int, i: int, j: int, p: int, q: int, n: int)
    requires #[trigger] m.wf(), one_header(m.headers@), m.live(f), m.dag()[f] is N, 0 <= i, j == i + 1, j < ar(vkd(m.headers@, true), top(m.dag(), f)), #[trigger] wants(vkd(m.headers@, true), f, j),
        #[trigger] chained(vkd(m.headers@, true), m.dag(), f, i), #[trigger] mtmdd::apply_ok(m.dag(), MtMddOperation::Min, p, q, n), p == kid(m.dag(), f, i), q == kid(m.dag(), f, j)
    ensures n == p ==> chained(vkd(m.headers@, true), m.dag(), f, j), n != p ==> notmono(vkd(m.headers@, true), m.dag(), f)
{ lemma_vdk(&m, true); lemma_vchain(&m, p, q, n, true); lemma_chained_step(vkd(m.headers@, true), m.dag(), f, i, n == p); }
// the shape of a node, as the code sees it
pub proof fn lemma_vnode(m: &MtMddManager, id: int, up: bool)
    requires m.wf(), m.live(id)
    ensures dk(vkd(m.headers@, up), m.dag()), m.lvl(id) >= 0, 
        match m.nodes[id] {
            VNode::NonTerminal(n) => {
                &&& m.dag()[id] is N && top(m.dag(), id) == m.hlevel(n.header as int) && n.nodes@.len() == ar(vkd(m.headers@, up), top(m.dag(), id)) && m.lvl(id) == top(m.dag(), id) + 1
                &&& n.header < m.headers.len() && n.nodes@.len() == m.headers@[n.header as int].edge_num && n.nodes@.len() > 0
                &&& forall|c: int| 0 <= c < n.nodes@.len() ==> (#[trigger] n.nodes@[c]) == kid(m.dag(), id, c)
                &&& forall|c: int| 0 <= c < n.nodes@.len() ==> m.live(#[trigger] kid(m.dag(), id, c)) && 0 <= lv(m.dag(), kid(m.dag(), id, c)) <= top(m.dag(), id)
            },
            _ => m.dag()[id] is T && m.lvl(id) == 0,
        }
{
    lemma_vdk(m, up);
    m.lemma_node(id);
    let k = vkd(m.headers@, up);
    match m.nodes[id] { VNode::NonTerminal(n) => { lemma_arity(m.headers@, n.header as int); lemma_mn(k, m.dag(), id); }, _ => { lemma_mt(k, m.dag(), id); } }
}
// two headers of one level have as many states
pub proof fn lemma_vhl(m: &MtMddManager, h: int, up: bool)
    requires m.wf(), 0 <= h < m.headers.len()
    ensures m.headers@[h].edge_num == ar(vkd(m.headers@, up), m.hlevel(h))
{ m.lemma_dag(); lemma_arity(m.headers@, h); }
// the test of the code: the smaller of the two is the first
pub proof fn lemma_vchain(m: &MtMddManager, f: int, g: int, n: int, up: bool)
    requires m.wf(), one_header(m.headers@), mtmdd::apply_ok(m.dag(), MtMddOperation::Min, f, g, n)
    ensures full(vkd(m.headers@, up), m.dag(), f) && full(vkd(m.headers@, up), m.dag(), g) ==> (n == f) == chain(vkd(m.headers@, up), m.dag(), f, g)
{
    let k = vkd(m.headers@, up); let d = m.dag();
    lemma_vdk(m, up);
    if full(k, d, f) && full(k, d, g) {
        reveal(full); reveal(chain);
        if n == f { assert forall|a: Asg| #![trigger eval(d, f, a)] inr(k, a) implies leq(k, eval(d, f, a), eval(d, g, a)) by { assert(det(k, eval(d, f, a)) && det(k, eval(d, g, a))); assert(eval(d, n, a) == opn(MtMddOperation::Min, eval(d, f, a), eval(d, g, a))); } }
        if chain(k, d, f, g) {
            assert forall|a: Asg| #[trigger] eval(d, n, a) == eval(d, f, a) by {
                lemma_nrm(k, d, f, a); lemma_nrm(k, d, g, a); lemma_nrm(k, d, n, a);
                let b = nrm(k, a);
                assert(det(k, eval(d, f, b)) && det(k, eval(d, g, b))); assert(leq(k, eval(d, f, b), eval(d, g, b)));
                assert(eval(d, n, b) == opn(MtMddOperation::Min, eval(d, f, b), eval(d, g, b)));
            }
            m.theorem_mtmdd_canonical(n, f);
        }
    }
}

// ---- MddManager
pub proof fn lemma_bdk(m: &MddManager, up: bool)
    requires m.wf()
    ensures dk(bkd(m.headers@, up), m.dag())
{
    let k = bkd(m.headers@, up); let d = m.dag();
    reveal(dk); m.lemma_dag();
    assert forall|id: int| #[trigger] d.dom().contains(id) implies (match d[id] { SN::N { level, kids } => kids.len() == ar(k, level), SN::T(v) => k.vk || v == 0 || v == 1 || v == 2 }) by {
        m.lemma_node(id);
        match m.nodes[id] { BNode::NonTerminal(n) => { lemma_arity(m.headers@, n.header as int); }, _ => {} }
    }
}
pub broadcast proof fn lemma_bext0(m: MddManager, m2: MddManager)
    requires m.wf(), m2.wf(), #[trigger] m2.ext(&m)
    ensures mext(bkd(m.headers@, false), m.dag(), m2.dag()), m2.headers@ == m.headers@
{ lemma_bdk(&m, false); lemma_bdk(&m2, false); lemma_mext(bkd(m.headers@, false), m.dag(), m2.dag()); }
pub broadcast proof fn lemma_bwf0(m: MddManager)
    requires #[trigger] m.wf()
    ensures dk(bkd(m.headers@, false), m.dag()), m.zero == 0 && m.one == 1 && m.undet == 2, m.live(0) && m.live(1) && m.live(2), m.dag()[0] == SN::T(0) && m.dag()[1] == SN::T(1) && m.dag()[2] == SN::T(2)
{ lemma_bdk(&m, false); reveal(MddManager::wf); m.lemma_node(0); m.lemma_node(1); m.lemma_node(2); }
pub broadcast proof fn lemma_bchain0(m: MddManager, f: int, i: int, j: int, p: int, q: int, n: int)
    requires #[trigger] m.wf(), one_header(m.headers@), m.live(f), m.dag()[f] is N, 0 <= i, j == i + 1, j < ar(bkd(m.headers@, false), top(m.dag(), f)), #[trigger] wants(bkd(m.headers@, false), f, j),
        #[trigger] chained(bkd(m.headers@, false), m.dag(), f, i), #[trigger] mdd::apply_ok(m.dag(), MddOperation::And, p, q, n), p == kid(m.dag(), f, i), q == kid(m.dag(), f, j)
    ensures n == p ==> chained(bkd(m.headers@, false), m.dag(), f, j), n != p ==> notmono(bkd(m.headers@, false), m.dag(), f)
{ lemma_bdk(&m, false); lemma_bchain(&m, p, q, n, false); lemma_chained_step(bkd(m.headers@, false), m.dag(), f, i, n == p); }
pub broadcast proof fn lemma_bext1(m: MddManager, m2: MddManager)
    requires m.wf(), m2.wf(), #[trigger] m2.ext(&m)
    ensures mext(bkd(m.headers@, true), m.dag(), m2.dag()), m2.headers@ == m.headers@
{ lemma_bdk(&m, true); lemma_bdk(&m2, true); lemma_mext(bkd(m.headers@, true), m.dag(), m2.dag()); }
pub broadcast proof fn lemma_bwf1(m: MddManager)
    requires #[trigger] m.wf()
    ensures dk(bkd(m.headers@, true), m.dag()), m.zero == 0 && m.one == 1 && m.undet == 2, m.live(0) && m.live(1) && m.live(2), m.dag()[0] == SN::T(0) && m.dag()[1] == SN::T(1) && m.dag()[2] == SN::T(2)
{ lemma_bdk(&m, true); reveal(MddManager::wf); m.lemma_node(0); m.lemma_node(1); m.lemma_node(2); }
pub broadcast proof fn lemma_bchain1(m: MddManager, f: int, i: int, j: int, p: int, q: int, n: int)
    requires #[trigger] m.wf(), one_header(m.headers@), m.live(f), m.dag()[f] is N, 0 <= i, j == i + 1, j < ar(bkd(m.headers@, true), top(m.dag(), f)), #[trigger] wants(bkd(m.headers@, true), f, j),
        #[trigger] chained(bkd(m.headers@, true), m.dag(), f, i), #[trigger] mdd::apply_ok(m.dag(), MddOperation::And, p, q, n), p == kid(m.dag(), f, i), q == kid(m.dag(), f, j)
    ensures n == p ==> chained(bkd(m.headers@, true), m.dag(), f, j), n != p ==> notmono(bkd(m.headers@, true), m.dag(), f)
{ lemma_bdk(&m, true); lemma_bchain(&m, p, q, n, true); lemma_chained_step(bkd(m.headers@, true), m.dag(), f, i, n == p); }
// the shape of a node, as the code sees it
pub proof fn lemma_bnode(m: &MddManager, id: int, up: bool)
    requires m.wf(), m.live(id)
    ensures dk(bkd(m.headers@, up), m.dag()), m.lvl(id) >= 0, 
        match m.nodes[id] {
            BNode::NonTerminal(n) => {
                &&& m.dag()[id] is N && top(m.dag(), id) == m.hlevel(n.header as int) && n.nodes@.len() == ar(bkd(m.headers@, up), top(m.dag(), id)) && m.lvl(id) == top(m.dag(), id) + 1
                &&& n.header < m.headers.len() && n.nodes@.len() == m.headers@[n.header as int].edge_num && n.nodes@.len() > 0
                &&& forall|c: int| 0 <= c < n.nodes@.len() ==> (#[trigger] n.nodes@[c]) == kid(m.dag(), id, c)
                &&& forall|c: int| 0 <= c < n.nodes@.len() ==> m.live(#[trigger] kid(m.dag(), id, c)) && 0 <= lv(m.dag(), kid(m.dag(), id, c)) <= top(m.dag(), id)
            },
            _ => m.dag()[id] is T && m.lvl(id) == 0,
        }
{
    lemma_bdk(m, up);
    m.lemma_node(id);
    let k = bkd(m.headers@, up);
    match m.nodes[id] { BNode::NonTerminal(n) => { lemma_arity(m.headers@, n.header as int); lemma_mn(k, m.dag(), id); }, _ => { lemma_mt(k, m.dag(), id); } }
}
// two headers of one level have as many states
pub proof fn lemma_bhl(m: &MddManager, h: int, up: bool)
    requires m.wf(), 0 <= h < m.headers.len()
    ensures m.headers@[h].edge_num == ar(bkd(m.headers@, up), m.hlevel(h))
{ m.lemma_dag(); lemma_arity(m.headers@, h); }
// the test of the code: the smaller of the two is the first
pub proof fn lemma_bchain(m: &MddManager, f: int, g: int, n: int, up: bool)
    requires m.wf(), one_header(m.headers@), mdd::apply_ok(m.dag(), MddOperation::And, f, g, n)
    ensures full(bkd(m.headers@, up), m.dag(), f) && full(bkd(m.headers@, up), m.dag(), g) ==> (n == f) == chain(bkd(m.headers@, up), m.dag(), f, g)
{
    let k = bkd(m.headers@, up); let d = m.dag();
    lemma_bdk(m, up);
    if full(k, d, f) && full(k, d, g) {
        reveal(full); reveal(chain);
        if n == f { assert forall|a: Asg| #![trigger eval(d, f, a)] inr(k, a) implies leq(k, eval(d, f, a), eval(d, g, a)) by { assert(det(k, eval(d, f, a)) && det(k, eval(d, g, a))); assert(mdd::val_ok(MddOperation::And, eval(d, f, a), eval(d, g, a), eval(d, n, a))); } }
        if chain(k, d, f, g) {
            assert forall|a: Asg| #[trigger] eval(d, n, a) == eval(d, f, a) by {
                lemma_nrm(k, d, f, a); lemma_nrm(k, d, g, a); lemma_nrm(k, d, n, a);
                let b = nrm(k, a);
                assert(det(k, eval(d, f, b)) && det(k, eval(d, g, b))); assert(leq(k, eval(d, f, b), eval(d, g, b)));
                assert(mdd::val_ok(MddOperation::And, eval(d, f, b), eval(d, g, b), eval(d, n, b)));
            }
            m.theorem_mdd_canonical(n, f);
        }
    }
}
//@fn mss mdd_minsol::vwithout
//@attr #[verifier::spinoff_prover]
//@args mdd f g cache
    requires old(mdd).wf(), old(mdd).live(f as int), old(mdd).live(g as int), anti(vkd(old(mdd).headers@, false), old(mdd).dag(), g as int), wo_memo(vkd(old(mdd).headers@, false), old(mdd).dag(), old(cache)@)
    ensures final(mdd).wf(), final(mdd).ext(old(mdd)), wo_memo(vkd(final(mdd).headers@, false), final(mdd).dag(), final(cache)@), wo(vkd(final(mdd).headers@, false), final(mdd).dag(), f as int, g as int, r as int)
    decreases old(mdd).lvl(f as int) + old(mdd).lvl(g as int)
//@entry
    broadcast use {lemma_vext0, lemma_vwf0, lemma_wo_ext, lemma_wo_memo_ext, lemma_wo_base, lemma_wo_skip, lemma_wo_node, lemma_wo_lv, lemma_anti_ext};
    proof {
        reveal(wo_memo);
        let k = vkd(mdd.headers@, false);
        mdd.lemma_node(f as int); mdd.lemma_node(g as int);
        lemma_vnode(mdd, f as int, false); lemma_vnode(mdd, g as int, false);
        assert(wants(k, f as int, g as int));
        if mdd.dag()[g as int] is N { assert forall|c: int| 0 <= c < ar(k, top(mdd.dag(), g as int)) implies anti(k, mdd.dag(), #[trigger] kid(mdd.dag(), g as int, c)) by { lemma_anti_kid(k, mdd.dag(), g as int, c); } }
    }
//@mapinv
    mdd.wf(), mdd.ext(old(mdd)), wo_memo(vkd(mdd.headers@, false), mdd.dag(), cache@),
    forall|vx_j: int| 0 <= vx_j < $i ==> wo(vkd(mdd.headers@, false), mdd.dag(), $a1 as int, $a2 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mss mdd_minsol::vminsol
//@attr #[verifier::spinoff_prover]
//@args dd node cache1 cache2
    requires old(dd).wf(), one_header(old(dd).headers@), old(dd).live(node as int), ms_memo(vkd(old(dd).headers@, false), old(dd).dag(), old(cache1)@), wo_memo(vkd(old(dd).headers@, false), old(dd).dag(), old(cache2)@)
    ensures final(dd).wf(), final(dd).ext(old(dd)), ms_memo(vkd(final(dd).headers@, false), final(dd).dag(), final(cache1)@), wo_memo(vkd(final(dd).headers@, false), final(dd).dag(), final(cache2)@), ms(vkd(final(dd).headers@, false), final(dd).dag(), node as int, r)
    decreases old(dd).lvl(node as int)
//@entry
    broadcast use {lemma_vext0, lemma_vwf0, lemma_wo_ext, lemma_wo_memo_ext, lemma_ms_memo_ext, lemma_ms_ext, lemma_ms_lv, lemma_wo_lv, lemma_ms_base, lemma_vchain0, lemma_chained_0, lemma_chained_ext, lemma_notmono, lemma_notmono_ext, lemma_notmono_kid, lemma_parts_0, lemma_parts_ext, lemma_parts_lv, lemma_parts_base, lemma_parts_step, lemma_ms_node, lemma_anti_ext};
    proof {
        reveal(ms_memo);
        let k = vkd(dd.headers@, false);
        dd.lemma_node(node as int);
        lemma_vnode(dd, node as int, false);
        assert(wants(k, node as int, -1));
    }
//@loop 1
    dd.wf(), dd.ext(old(dd)), 
    vx_q1 ==> chained(vkd(dd.headers@, false), dd.dag(), node as int, $i as int),
    !vx_q1 ==> notmono(vkd(dd.headers@, false), dd.dag(), node as int),
//@loopbegin 1
    proof { assert(wants(vkd(dd.headers@, false), node as int, $i as int + 1)); }
//@loop 2
    dd.wf(), dd.ext(old(dd)), 
    ms_memo(vkd(dd.headers@, false), dd.dag(), cache1@), wo_memo(vkd(dd.headers@, false), dd.dag(), cache2@), ok, result@.len() == $i,
    chained(vkd(dd.headers@, false), dd.dag(), node as int, ar(vkd(dd.headers@, false), top(old(dd).dag(), node as int)) - 1), parts(vkd(dd.headers@, false), dd.dag(), node as int, result@),
//@loopbegin 2
    proof { assert(wants(vkd(dd.headers@, false), node as int, $i as int)); }
//@end
//@fn mss mdd_minsol::vupwithout
//@attr #[verifier::spinoff_prover]
//@args mdd f g cache
    requires old(mdd).wf(), old(mdd).live(f as int), old(mdd).live(g as int), anti(vkd(old(mdd).headers@, true), old(mdd).dag(), g as int), wo_memo(vkd(old(mdd).headers@, true), old(mdd).dag(), old(cache)@)
    ensures final(mdd).wf(), final(mdd).ext(old(mdd)), wo_memo(vkd(final(mdd).headers@, true), final(mdd).dag(), final(cache)@), wo(vkd(final(mdd).headers@, true), final(mdd).dag(), f as int, g as int, r as int)
    decreases old(mdd).lvl(f as int) + old(mdd).lvl(g as int)
//@entry
    broadcast use {lemma_vext1, lemma_vwf1, lemma_wo_ext, lemma_wo_memo_ext, lemma_wo_base, lemma_wo_skip, lemma_wo_node, lemma_wo_lv, lemma_anti_ext};
    proof {
        reveal(wo_memo);
        let k = vkd(mdd.headers@, true);
        mdd.lemma_node(f as int); mdd.lemma_node(g as int);
        lemma_vnode(mdd, f as int, true); lemma_vnode(mdd, g as int, true);
        assert(wants(k, f as int, g as int));
        if mdd.dag()[g as int] is N { assert forall|c: int| 0 <= c < ar(k, top(mdd.dag(), g as int)) implies anti(k, mdd.dag(), #[trigger] kid(mdd.dag(), g as int, c)) by { lemma_anti_kid(k, mdd.dag(), g as int, c); } }
    }
//@mapinv
    mdd.wf(), mdd.ext(old(mdd)), wo_memo(vkd(mdd.headers@, true), mdd.dag(), cache@),
    forall|vx_j: int| 0 <= vx_j < $i ==> wo(vkd(mdd.headers@, true), mdd.dag(), $a1 as int, $a2 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mss mdd_minsol::vmaxsol
//@attr #[verifier::spinoff_prover]
//@args dd node cache1 cache2
    requires old(dd).wf(), one_header(old(dd).headers@), old(dd).live(node as int), ms_memo(vkd(old(dd).headers@, true), old(dd).dag(), old(cache1)@), wo_memo(vkd(old(dd).headers@, true), old(dd).dag(), old(cache2)@)
    ensures final(dd).wf(), final(dd).ext(old(dd)), ms_memo(vkd(final(dd).headers@, true), final(dd).dag(), final(cache1)@), wo_memo(vkd(final(dd).headers@, true), final(dd).dag(), final(cache2)@), ms(vkd(final(dd).headers@, true), final(dd).dag(), node as int, r)
    decreases old(dd).lvl(node as int)
//@entry
    broadcast use {lemma_vext1, lemma_vwf1, lemma_wo_ext, lemma_wo_memo_ext, lemma_ms_memo_ext, lemma_ms_ext, lemma_ms_lv, lemma_wo_lv, lemma_ms_base, lemma_vchain1, lemma_chained_0, lemma_chained_ext, lemma_notmono, lemma_notmono_ext, lemma_notmono_kid, lemma_parts_0, lemma_parts_ext, lemma_parts_lv, lemma_parts_base, lemma_parts_step, lemma_ms_node, lemma_anti_ext};
    proof {
        reveal(ms_memo);
        let k = vkd(dd.headers@, true);
        dd.lemma_node(node as int);
        lemma_vnode(dd, node as int, true);
        assert(wants(k, node as int, -1));
    }
//@loop 1
    dd.wf(), dd.ext(old(dd)), 
    vx_q1 ==> chained(vkd(dd.headers@, true), dd.dag(), node as int, $i as int),
    !vx_q1 ==> notmono(vkd(dd.headers@, true), dd.dag(), node as int),
//@loopbegin 1
    proof { assert(wants(vkd(dd.headers@, true), node as int, $i as int + 1)); }
//@loop 2
    dd.wf(), dd.ext(old(dd)), 
    ms_memo(vkd(dd.headers@, true), dd.dag(), cache1@), wo_memo(vkd(dd.headers@, true), dd.dag(), cache2@), ok, result@.len() == $i,
    chained(vkd(dd.headers@, true), dd.dag(), node as int, ar(vkd(dd.headers@, true), top(old(dd).dag(), node as int)) - 1), parts(vkd(dd.headers@, true), dd.dag(), node as int, result@),
//@loopbegin 2
    proof { assert(wants(vkd(dd.headers@, true), node as int, $i as int)); }
//@end
//@fn mss mdd_minsol::bwithout
//@attr #[verifier::spinoff_prover]
//@args mdd f g cache
    requires old(mdd).wf(), old(mdd).live(f as int), old(mdd).live(g as int), anti(bkd(old(mdd).headers@, false), old(mdd).dag(), g as int), wo_memo(bkd(old(mdd).headers@, false), old(mdd).dag(), old(cache)@)
    ensures final(mdd).wf(), final(mdd).ext(old(mdd)), wo_memo(bkd(final(mdd).headers@, false), final(mdd).dag(), final(cache)@), wo(bkd(final(mdd).headers@, false), final(mdd).dag(), f as int, g as int, r as int)
    decreases old(mdd).lvl(f as int) + old(mdd).lvl(g as int)
//@entry
    broadcast use {lemma_bext0, lemma_bwf0, lemma_wo_ext, lemma_wo_memo_ext, lemma_wo_base, lemma_wo_skip, lemma_wo_node, lemma_wo_lv, lemma_anti_ext};
    proof {
        reveal(wo_memo);
        let k = bkd(mdd.headers@, false);
        mdd.lemma_node(f as int); mdd.lemma_node(g as int);
        lemma_bnode(mdd, f as int, false); lemma_bnode(mdd, g as int, false);
        assert(wants(k, f as int, g as int));
        if mdd.dag()[g as int] is N { assert forall|c: int| 0 <= c < ar(k, top(mdd.dag(), g as int)) implies anti(k, mdd.dag(), #[trigger] kid(mdd.dag(), g as int, c)) by { lemma_anti_kid(k, mdd.dag(), g as int, c); } }
    }
//@mapinv
    mdd.wf(), mdd.ext(old(mdd)), wo_memo(bkd(mdd.headers@, false), mdd.dag(), cache@),
    forall|vx_j: int| 0 <= vx_j < $i ==> wo(bkd(mdd.headers@, false), mdd.dag(), $a1 as int, $a2 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mss mdd_minsol::bminsol
//@attr #[verifier::spinoff_prover]
//@args dd node cache1 cache2
    requires old(dd).wf(), one_header(old(dd).headers@), old(dd).live(node as int), ms_memo(bkd(old(dd).headers@, false), old(dd).dag(), old(cache1)@), wo_memo(bkd(old(dd).headers@, false), old(dd).dag(), old(cache2)@)
    ensures final(dd).wf(), final(dd).ext(old(dd)), ms_memo(bkd(final(dd).headers@, false), final(dd).dag(), final(cache1)@), wo_memo(bkd(final(dd).headers@, false), final(dd).dag(), final(cache2)@), ms(bkd(final(dd).headers@, false), final(dd).dag(), node as int, r)
    decreases old(dd).lvl(node as int)
//@entry
    broadcast use {lemma_bext0, lemma_bwf0, lemma_wo_ext, lemma_wo_memo_ext, lemma_ms_memo_ext, lemma_ms_ext, lemma_ms_lv, lemma_wo_lv, lemma_ms_base, lemma_bchain0, lemma_chained_0, lemma_chained_ext, lemma_notmono, lemma_notmono_ext, lemma_notmono_kid, lemma_parts_0, lemma_parts_ext, lemma_parts_lv, lemma_parts_base, lemma_parts_step, lemma_ms_node, lemma_anti_ext};
    proof {
        reveal(ms_memo);
        let k = bkd(dd.headers@, false);
        dd.lemma_node(node as int);
        lemma_bnode(dd, node as int, false);
        assert(wants(k, node as int, -1));
    }
//@loop 1
    dd.wf(), dd.ext(old(dd)), 
    vx_q1 ==> chained(bkd(dd.headers@, false), dd.dag(), node as int, $i as int),
    !vx_q1 ==> notmono(bkd(dd.headers@, false), dd.dag(), node as int),
//@loopbegin 1
    proof { assert(wants(bkd(dd.headers@, false), node as int, $i as int + 1)); }
//@loop 2
    dd.wf(), dd.ext(old(dd)), 
    ms_memo(bkd(dd.headers@, false), dd.dag(), cache1@), wo_memo(bkd(dd.headers@, false), dd.dag(), cache2@), ok, result@.len() == $i,
    chained(bkd(dd.headers@, false), dd.dag(), node as int, ar(bkd(dd.headers@, false), top(old(dd).dag(), node as int)) - 1), parts(bkd(dd.headers@, false), dd.dag(), node as int, result@),
//@loopbegin 2
    proof { assert(wants(bkd(dd.headers@, false), node as int, $i as int)); }
//@end
//@fn mss mdd_minsol::bupwithout
//@attr #[verifier::spinoff_prover]
//@args mdd f g cache
    requires old(mdd).wf(), old(mdd).live(f as int), old(mdd).live(g as int), anti(bkd(old(mdd).headers@, true), old(mdd).dag(), g as int), wo_memo(bkd(old(mdd).headers@, true), old(mdd).dag(), old(cache)@)
    ensures final(mdd).wf(), final(mdd).ext(old(mdd)), wo_memo(bkd(final(mdd).headers@, true), final(mdd).dag(), final(cache)@), wo(bkd(final(mdd).headers@, true), final(mdd).dag(), f as int, g as int, r as int)
    decreases old(mdd).lvl(f as int) + old(mdd).lvl(g as int)
//@entry
    broadcast use {lemma_bext1, lemma_bwf1, lemma_wo_ext, lemma_wo_memo_ext, lemma_wo_base, lemma_wo_skip, lemma_wo_node, lemma_wo_lv, lemma_anti_ext};
    proof {
        reveal(wo_memo);
        let k = bkd(mdd.headers@, true);
        mdd.lemma_node(f as int); mdd.lemma_node(g as int);
        lemma_bnode(mdd, f as int, true); lemma_bnode(mdd, g as int, true);
        assert(wants(k, f as int, g as int));
        if mdd.dag()[g as int] is N { assert forall|c: int| 0 <= c < ar(k, top(mdd.dag(), g as int)) implies anti(k, mdd.dag(), #[trigger] kid(mdd.dag(), g as int, c)) by { lemma_anti_kid(k, mdd.dag(), g as int, c); } }
    }
//@mapinv
    mdd.wf(), mdd.ext(old(mdd)), wo_memo(bkd(mdd.headers@, true), mdd.dag(), cache@),
    forall|vx_j: int| 0 <= vx_j < $i ==> wo(bkd(mdd.headers@, true), mdd.dag(), $a1 as int, $a2 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mss mdd_minsol::bmaxsol
//@attr #[verifier::spinoff_prover]
//@args dd node cache1 cache2
    requires old(dd).wf(), one_header(old(dd).headers@), old(dd).live(node as int), ms_memo(bkd(old(dd).headers@, true), old(dd).dag(), old(cache1)@), wo_memo(bkd(old(dd).headers@, true), old(dd).dag(), old(cache2)@)
    ensures final(dd).wf(), final(dd).ext(old(dd)), ms_memo(bkd(final(dd).headers@, true), final(dd).dag(), final(cache1)@), wo_memo(bkd(final(dd).headers@, true), final(dd).dag(), final(cache2)@), ms(bkd(final(dd).headers@, true), final(dd).dag(), node as int, r)
    decreases old(dd).lvl(node as int)
//@entry
    broadcast use {lemma_bext1, lemma_bwf1, lemma_wo_ext, lemma_wo_memo_ext, lemma_ms_memo_ext, lemma_ms_ext, lemma_ms_lv, lemma_wo_lv, lemma_ms_base, lemma_bchain1, lemma_chained_0, lemma_chained_ext, lemma_notmono, lemma_notmono_ext, lemma_notmono_kid, lemma_parts_0, lemma_parts_ext, lemma_parts_lv, lemma_parts_base, lemma_parts_step, lemma_ms_node, lemma_anti_ext};
    proof {
        reveal(ms_memo);
        let k = bkd(dd.headers@, true);
        dd.lemma_node(node as int);
        lemma_bnode(dd, node as int, true);
        assert(wants(k, node as int, -1));
    }
//@loop 1
    dd.wf(), dd.ext(old(dd)), 
    vx_q1 ==> chained(bkd(dd.headers@, true), dd.dag(), node as int, $i as int),
    !vx_q1 ==> notmono(bkd(dd.headers@, true), dd.dag(), node as int),
//@loopbegin 1
    proof { assert(wants(bkd(dd.headers@, true), node as int, $i as int + 1)); }
//@loop 2
    dd.wf(), dd.ext(old(dd)), 
    ms_memo(bkd(dd.headers@, true), dd.dag(), cache1@), wo_memo(bkd(dd.headers@, true), dd.dag(), cache2@), ok, result@.len() == $i,
    chained(bkd(dd.headers@, true), dd.dag(), node as int, ar(bkd(dd.headers@, true), top(old(dd).dag(), node as int)) - 1), parts(bkd(dd.headers@, true), dd.dag(), node as int, result@),
//@loopbegin 2
    proof { assert(wants(bkd(dd.headers@, true), node as int, $i as int)); }
//@end

// o is the answer for the diagram n: the family of its minimal (maximal) vectors, or nothing when it is not coherent
pub open spec fn sol_ok(m: &MtMdd2Manager, up: bool, n: Node, o: Option<Node>) -> bool {
    match n {
        Node::Value(f) => match o { Some(Node::Value(v)) => ms(vkd(m.mtmdd.headers@, up), m.vd(), f as int, Some(v)), None => ms(vkd(m.mtmdd.headers@, up), m.vd(), f as int, None), _ => false },
        Node::Bool(f) => match o { Some(Node::Bool(v)) => ms(bkd(m.mdd.headers@, up), m.bd(), f as int, Some(v)), None => ms(bkd(m.mdd.headers@, up), m.bd(), f as int, None), _ => false },
    }
}
pub broadcast proof fn lemma_memo0(k: MS, d: D, c: IMap<int, Option<NodeId>>)
    requires c.dom() == ISet::<int>::empty()
    ensures #[trigger] ms_memo(k, d, c)
{ reveal(ms_memo); }
pub broadcast proof fn lemma_memo1(k: MS, d: D, c: IMap<(int, int), NodeId>)
    requires c.dom() == ISet::<(int, int)>::empty()
    ensures #[trigger] wo_memo(k, d, c)
{ reveal(wo_memo); }
// THEOREM: what a coherent function's answer means, vector by vector
pub proof fn theorem_sol(m: &MtMdd2Manager, up: bool, n: Node, o: Option<Node>)
    requires m.wf(), m.live(n), sol_ok(m, up, n, o)
    ensures match n {
        Node::Value(f) => ({ let k = vkd(m.mtmdd.headers@, up); full(k, m.vd(), f as int) ==> (o is Some) == monof(k, m.vd(), f as int) && (o matches Some(Node::Value(v)) ==> forall|a: Asg, l: int| inr(k, a) && l >= lv(m.vd(), f as int) ==> #[trigger] lab(k, m.vd(), v as int, a, l) == (if minimal(k, m.vd(), f as int, a, l) { tgt(k, eval(m.vd(), f as int, a)) } else { und(k) })) }),
        Node::Bool(f) => ({ let k = bkd(m.mdd.headers@, up); full(k, m.bd(), f as int) ==> (o is Some) == monof(k, m.bd(), f as int) && (o matches Some(Node::Bool(v)) ==> forall|a: Asg, l: int| inr(k, a) && l >= lv(m.bd(), f as int) ==> #[trigger] lab(k, m.bd(), v as int, a, l) == (if minimal(k, m.bd(), f as int, a, l) { tgt(k, eval(m.bd(), f as int, a)) } else { und(k) })) }),
    }
{
    match n {
        Node::Value(f) => { let k = vkd(m.mtmdd.headers@, up); lemma_vdk(&m.mtmdd, up); if full(k, m.vd(), f as int) { match o { Some(Node::Value(v)) => {
            assert forall|a: Asg, l: int| inr(k, a) && l >= lv(m.vd(), f as int) implies #[trigger] lab(k, m.vd(), v as int, a, l) == (if minimal(k, m.vd(), f as int, a, l) { tgt(k, eval(m.vd(), f as int, a)) } else { und(k) }) by { theorem_minimal(k, m.vd(), f as int, v as int, a, l); } }, _ => {} } } },
        Node::Bool(f) => { let k = bkd(m.mdd.headers@, up); lemma_bdk(&m.mdd, up); if full(k, m.bd(), f as int) { match o { Some(Node::Bool(v)) => {
            assert forall|a: Asg, l: int| inr(k, a) && l >= lv(m.bd(), f as int) implies #[trigger] lab(k, m.bd(), v as int, a, l) == (if minimal(k, m.bd(), f as int, a, l) { tgt(k, eval(m.bd(), f as int, a)) } else { und(k) }) by { theorem_minimal(k, m.bd(), f as int, v as int, a, l); } }, _ => {} } } },
    }
}
//@fn mss mdd_minsol::minsol
//@args mdd node
    requires old(mdd).wf(), one_header(old(mdd).mdd.headers@), one_header(old(mdd).mtmdd.headers@), old(mdd).live(*node)
    ensures final(mdd).wf(), final(mdd).ext(old(mdd)), sol_ok(final(mdd), false, *node, r)
//@entry
    broadcast use {cok::lemma_caches_b, cok::lemma_caches_v, lemma_memo0, lemma_memo1};
//@end
//@fn mss mdd_minsol::maxsol
//@args mdd node
    requires old(mdd).wf(), one_header(old(mdd).mdd.headers@), one_header(old(mdd).mtmdd.headers@), old(mdd).live(*node)
    ensures final(mdd).wf(), final(mdd).ext(old(mdd)), sol_ok(final(mdd), true, *node, r)
//@entry
    broadcast use {cok::lemma_caches_b, cok::lemma_caches_v, lemma_memo0, lemma_memo1};
//@end
}

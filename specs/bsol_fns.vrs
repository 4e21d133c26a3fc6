//@include bmgr.vrs
// ---------------------------------------------------------------- dual
pub open spec fn neg(a: Asg) -> Asg { |l: int| if a(l) == 1 { 0 } else { 1 } }
pub open spec fn dualv(x: int) -> int { if x == 0 { 1 } else if x == 1 { 0 } else { 2 } }
// r is the dual of f: the negation of f at the complemented state
pub open spec fn dual_ok(d: D, f: int, r: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(r) && lv(d, r) <= lv(d, f)
    &&& forall|a: Asg| #[trigger] eval(d, r, a) == dualv(eval(d, f, neg(a)))
}
pub open spec fn dual_memo(d: D, c: IMap<int, NodeId>) -> bool { forall|k: int| #[trigger] c.dom().contains(k) ==> dual_ok(d, k, c[k] as int) }
pub proof fn lemma_dual_ext(d: D, d2: D, c: IMap<int, NodeId>)
    requires ext(d, d2), dual_memo(d, c)
    ensures dual_memo(d2, c)
{ assert forall|k: int| #[trigger] c.dom().contains(k) implies dual_ok(d2, k, c[k] as int) by { assert(dual_ok(d, k, c[k] as int)); } }
// THEOREM: dualising twice gives the function back
pub proof fn theorem_dual_involution(m: &BddManager, f: int, r: int, q: int)
    requires m.wf(), m.one_header_per_level(), dual_ok(m.dag(), f, r), dual_ok(m.dag(), r, q)
    ensures q == f
{
    let d = m.dag();
    m.lemma_two();
    assert forall|a: Asg| #[trigger] eval(d, q, a) == eval(d, f, a) by {
        m.lemma_tv(f, a);
        lemma_bin(d, f, neg(neg(a)), a);
        assert(eval(d, r, neg(a)) == dualv(eval(d, f, neg(neg(a)))));
    }
    m.theorem_canonical(q, f);
}
//@fn bss bdd_dual::dual
//@args dd node cache
    requires old(dd).wf(), old(dd).live(node as int), dual_memo(old(dd).dag(), old(cache)@)
    ensures final(dd).wf(), final(dd).ext(old(dd)), dual_memo(final(dd).dag(), final(cache)@), dual_ok(final(dd).dag(), node as int, r as int)
    decreases old(dd).lvl(node as int)
//@entry
    proof { dd.lemma_node(node as int); }
//@end
// ---------------------------------------------------------------- n-ary and, or, k-of-n
pub open spec fn det(d: D, ns: Seq<NodeId>, a: Asg) -> bool { forall|i: int| 0 <= i < ns.len() ==> is01(#[trigger] eval(d, ns[i] as int, a)) }
// how many of the nodes from the s-th on are true
pub open spec fn cnt(d: D, ns: Seq<NodeId>, s: int, a: Asg) -> int decreases ns.len() - s {
    if 0 <= s < ns.len() { cnt(d, ns, s + 1, a) + (if eval(d, ns[s] as int, a) == 1 { 1int } else { 0 }) } else { 0 }
}
pub proof fn lemma_cnt(d: D, ns: Seq<NodeId>, s: int, a: Asg)
    requires 0 <= s <= ns.len()
    ensures 0 <= cnt(d, ns, s, a) <= ns.len() - s
    decreases ns.len() - s
{ if s < ns.len() { lemma_cnt(d, ns, s + 1, a); } }
pub open spec fn all_live(d: D, ns: Seq<NodeId>) -> bool { forall|i: int| 0 <= i < ns.len() ==> d.dom().contains(#[trigger] ns[i] as int) }
pub proof fn lemma_cnt_ext(d: D, d2: D, ns: Seq<NodeId>, s: int, a: Asg)
    requires ext(d, d2), all_live(d, ns), 0 <= s <= ns.len()
    ensures cnt(d2, ns, s, a) == cnt(d, ns, s, a)
    decreases ns.len() - s
{ if s < ns.len() { lemma_cnt_ext(d, d2, ns, s + 1, a); assert(d.dom().contains(ns[s] as int)); } }
// v is true exactly when at least k of the nodes from the s-th on are
#[verifier::opaque]
pub open spec fn kofn_ok(d: D, ns: Seq<NodeId>, k: int, s: int, v: int) -> bool {
    d.dom().contains(v) && forall|a: Asg| det(d, ns, a) ==> #[trigger] eval(d, v, a) == b2i(cnt(d, ns, s, a) >= k)
}
pub broadcast proof fn lemma_kofn_ext(d: D, d2: D, ns: Seq<NodeId>, k: int, s: int, v: int)
    requires #[trigger] ext(d, d2), all_live(d, ns), 0 <= s <= ns.len(), #[trigger] kofn_ok(d, ns, k, s, v)
    ensures kofn_ok(d2, ns, k, s, v)
{
    reveal(kofn_ok); reveal(kofn_memo); reveal(slot);
    assert forall|a: Asg| det(d2, ns, a) implies #[trigger] eval(d2, v, a) == b2i(cnt(d2, ns, s, a) >= k) by {
        lemma_cnt_ext(d, d2, ns, s, a);
        assert forall|i: int| 0 <= i < ns.len() implies is01(#[trigger] eval(d, ns[i] as int, a)) by { assert(d.dom().contains(ns[i] as int)); assert(is01(eval(d2, ns[i] as int, a))); }
        assert(eval(d, v, a) == b2i(cnt(d, ns, s, a) >= k));
    }
}
#[verifier::opaque]
pub open spec fn slot(k: int, s: int, n: int) -> int { k * (n + 1) + s }
#[verifier::opaque]
pub open spec fn kofn_memo(d: D, ns: Seq<NodeId>, memo: Seq<Option<NodeId>>, kk: int) -> bool {
    &&& memo.len() == (kk + 1) * (ns.len() + 1)
    &&& forall|k: int, s: int| 1 <= k <= kk && 0 <= s <= ns.len() ==> ((#[trigger] memo[slot(k, s, ns.len() as int)]) matches Some(v) ==> kofn_ok(d, ns, k, s, v as int))
}
pub proof fn lemma_slot(k: int, s: int, n: int, kk: int)
    requires 0 <= k <= kk, 0 <= s <= n
    ensures 0 <= k * (n + 1) <= slot(k, s, n) < (kk + 1) * (n + 1)
{
    reveal(kofn_ok); reveal(kofn_memo); reveal(slot);
    assert(0 <= k * (n + 1)) by (nonlinear_arith) requires 0 <= k, 0 <= n;
    assert(k * (n + 1) + n + 1 <= (kk + 1) * (n + 1)) by (nonlinear_arith) requires k <= kk, 0 <= n;
}
pub proof fn lemma_slot_inj(k: int, s: int, k2: int, s2: int, n: int)
    requires 0 <= s <= n, 0 <= s2 <= n, slot(k, s, n) == slot(k2, s2, n)
    ensures k == k2 && s == s2
{
    reveal(kofn_ok); reveal(kofn_memo); reveal(slot);
    if k < k2 { assert(k * (n + 1) + n + 1 <= k2 * (n + 1)) by (nonlinear_arith) requires k < k2, 0 <= n; }
    if k2 < k { assert(k2 * (n + 1) + n + 1 <= k * (n + 1)) by (nonlinear_arith) requires k2 < k, 0 <= n; }
}
pub broadcast proof fn lemma_memo_ext(d: D, d2: D, ns: Seq<NodeId>, memo: Seq<Option<NodeId>>, kk: int)
    requires #[trigger] ext(d, d2), all_live(d, ns), #[trigger] kofn_memo(d, ns, memo, kk)
    ensures kofn_memo(d2, ns, memo, kk), all_live(d2, ns)
{
    reveal(kofn_ok); reveal(kofn_memo); reveal(slot);
    assert forall|k: int, s: int| 1 <= k <= kk && 0 <= s <= ns.len() implies ((#[trigger] memo[slot(k, s, ns.len() as int)]) matches Some(v) ==> kofn_ok(d2, ns, k, s, v as int)) by {
        if memo[slot(k, s, ns.len() as int)] is Some { lemma_kofn_ext(d, d2, ns, k, s, memo[slot(k, s, ns.len() as int)]->0 as int); }
    }
}
// r is the conjunction (disjunction) of the nodes ns of d0
#[verifier::opaque]
pub open spec fn and_ok(d0: D, ns: Seq<NodeId>, d: D, r: int) -> bool { forall|a: Asg| det(d0, ns, a) ==> #[trigger] eval(d, r, a) == b2i(forall|i: int| 0 <= i < ns.len() ==> eval(d0, ns[i] as int, a) == 1) }
#[verifier::opaque]
pub open spec fn or_ok(d0: D, ns: Seq<NodeId>, d: D, r: int) -> bool { forall|a: Asg| det(d0, ns, a) ==> #[trigger] eval(d, r, a) == b2i(exists|i: int| 0 <= i < ns.len() && eval(d0, ns[i] as int, a) == 1) }
//@fn bss bdd_kofn::and
//@args dd node
    requires old(dd).wf(), all_live(old(dd).dag(), node@)
    ensures final(dd).wf(), final(dd).ext(old(dd)), final(dd).live(r as int), and_ok(old(dd).dag(), node@, final(dd).dag(), r as int)
//@entry
    proof { reveal(and_ok); dd.lemma_base(); dd.lemma_node(0); dd.lemma_node(1); }
//@loop 0
    dd.wf(), dd.ext(old(dd)), dd.live(res as int),
    forall|a: Asg| det(old(dd).dag(), node@, a) ==> #[trigger] eval(dd.dag(), res as int, a) == b2i(forall|i: int| 0 <= i < $i ==> eval(old(dd).dag(), node@[i] as int, a) == 1)
//@end
//@fn bss bdd_kofn::or
//@args dd node
    requires old(dd).wf(), all_live(old(dd).dag(), node@)
    ensures final(dd).wf(), final(dd).ext(old(dd)), final(dd).live(r as int), or_ok(old(dd).dag(), node@, final(dd).dag(), r as int)
//@entry
    proof { reveal(or_ok); dd.lemma_base(); dd.lemma_node(0); dd.lemma_node(1); }
//@loop 0
    dd.wf(), dd.ext(old(dd)), dd.live(res as int),
    forall|a: Asg| det(old(dd).dag(), node@, a) ==> #[trigger] eval(dd.dag(), res as int, a) == b2i(exists|i: int| 0 <= i < $i && eval(old(dd).dag(), node@[i] as int, a) == 1)
//@end
pub open spec fn kdim(memo: Seq<Option<NodeId>>, n: int) -> int { memo.len() / ((n + 1) as nat) - 1 }
pub proof fn lemma_kdim(memo: Seq<Option<NodeId>>, n: int, kk: int)
    requires memo.len() == (kk + 1) * (n + 1), n >= 0
    ensures kdim(memo, n) == kk
{ assert(((kk + 1) * (n + 1)) / (n + 1) == kk + 1) by (nonlinear_arith) requires n >= 0; }
pub broadcast proof fn lemma_memo_set(d: D, ns: Seq<NodeId>, memo: Seq<Option<NodeId>>, kk: int, k: int, s: int, v: NodeId, i: int)
    requires kofn_memo(d, ns, memo, kk), kofn_ok(d, ns, k, s, v as int), i == slot(k, s, ns.len() as int), 1 <= k <= kk, 0 <= s <= ns.len()
    ensures #![trigger kofn_memo(d, ns, memo, kk), memo.update(i, Some(v)), kofn_ok(d, ns, k, s, v as int)] kofn_memo(d, ns, memo.update(i, Some(v)), kk)
{
    reveal(kofn_ok); reveal(kofn_memo); reveal(slot);
    let n = ns.len() as int;
    lemma_slot(k, s, n, kk);
    let m2 = memo.update(slot(k, s, n), Some(v));
    assert forall|k2: int, s2: int| 1 <= k2 <= kk && 0 <= s2 <= ns.len() implies ((#[trigger] m2[slot(k2, s2, n)]) matches Some(w) ==> kofn_ok(d, ns, k2, s2, w as int)) by {
        lemma_slot(k2, s2, n, kk);
        if slot(k2, s2, n) == slot(k, s, n) { lemma_slot_inj(k2, s2, k, s, n); } else { assert(m2[slot(k2, s2, n)] == memo[slot(k2, s2, n)]); }
    }
}
pub broadcast proof fn lemma_memo_init(d: D, ns: Seq<NodeId>, memo: Seq<Option<NodeId>>, kk: int)
    requires kk == kdim(memo, ns.len() as int), memo.len() % (ns.len() + 1) == 0, forall|i: int| 0 <= i < memo.len() ==> (#[trigger] memo[i]) is None
    ensures #[trigger] kofn_memo(d, ns, memo, kk)
{
    reveal(kofn_ok); reveal(kofn_memo); reveal(slot);
    let n = ns.len() as int; let l = memo.len() as int;
    assert(l == (l / (n + 1)) * (n + 1)) by (nonlinear_arith) requires l % (n + 1) == 0, n >= 0;
    assert forall|k: int, s: int| 1 <= k <= kk && 0 <= s <= ns.len() implies ((#[trigger] memo[slot(k, s, ns.len() as int)]) matches Some(w) ==> kofn_ok(d, ns, k, s, w as int)) by { lemma_slot(k, s, ns.len() as int, kk); }
}
pub proof fn lemma_prod(k: int, n: int)
    requires k >= 0, n >= 0
    ensures ((k + 1) * (n + 1)) % (n + 1) == 0, ((k + 1) * (n + 1)) / (n + 1) == k + 1, (k + 1) * (n + 1) >= n + 1
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(k + 1, n + 1); vstd::arithmetic::div_mod::lemma_div_by_multiple(k + 1, n + 1);
    assert((k + 1) * (n + 1) >= n + 1) by (nonlinear_arith) requires k >= 0, n >= 0;
}
// the Shannon step on the s-th node
pub broadcast proof fn lemma_kofn_step(d: D, ns: Seq<NodeId>, k: int, s: int, x: int, t: int, e: int, v: int)
    requires #[trigger] ite_ok(d, x, t, e, v), #[trigger] kofn_ok(d, ns, k - 1, s + 1, t), #[trigger] kofn_ok(d, ns, k, s + 1, e), 0 <= s < ns.len(), x == ns[s]
    ensures kofn_ok(d, ns, k, s, v)
{
    reveal(kofn_ok); reveal(kofn_memo); reveal(slot);
    assert forall|a: Asg| det(d, ns, a) implies #[trigger] eval(d, v, a) == b2i(cnt(d, ns, s, a) >= k) by {
        assert(is01(eval(d, ns[s] as int, a)));
        assert(eval(d, t, a) == b2i(cnt(d, ns, s + 1, a) >= k - 1)); assert(eval(d, e, a) == b2i(cnt(d, ns, s + 1, a) >= k));
    }
}
pub proof fn lemma_kofn_const(d: D, ns: Seq<NodeId>, k: int, s: int)
    requires 0 <= s <= ns.len(), d.dom().contains(0), d.dom().contains(1), d[0] == SN::T(0), d[1] == SN::T(1)
    ensures k <= 0 ==> kofn_ok(d, ns, k, s, 1), k > ns.len() - s ==> kofn_ok(d, ns, k, s, 0)
{
    reveal(kofn_ok); reveal(kofn_memo); reveal(slot);
    reveal_with_fuel(eval, 1);
    assert forall|a: Asg| 0 <= #[trigger] cnt(d, ns, s, a) <= ns.len() - s by { lemma_cnt(d, ns, s, a); }
}
//@fn bss bdd_kofn::kofn
//@args dd k node
    requires old(dd).wf(), all_live(old(dd).dag(), node@), (k + 1) * (node@.len() + 1) <= usize::MAX, k < usize::MAX, node@.len() < usize::MAX
    ensures final(dd).wf(), final(dd).ext(old(dd)), final(dd).live(r as int), kofn_ok(final(dd).dag(), node@, k as int, 0, r as int)
//@entry
    broadcast use lemma_memo_init;
    proof { lemma_prod(k as int, node@.len() as int); }
//@end
//@fn bss bdd_kofn::kofn_rec
//@args dd node k start n memo
    requires old(dd).wf(), all_live(old(dd).dag(), node@), n == node@.len(), start <= n, n < usize::MAX,
        kofn_memo(old(dd).dag(), node@, old(memo)@, kdim(old(memo)@, n as int)), k <= kdim(old(memo)@, n as int), old(memo)@.len() <= usize::MAX,
    ensures final(dd).wf(), final(dd).ext(old(dd)), final(dd).live(r as int), kofn_ok(final(dd).dag(), node@, k as int, start as int, r as int),
        final(memo)@.len() == old(memo)@.len(), kofn_memo(final(dd).dag(), node@, final(memo)@, kdim(old(memo)@, n as int)),
    decreases n - start
//@entry
    broadcast use {lemma_memo_ext, lemma_kofn_ext, lemma_memo_set, lemma_kofn_step};
    proof {
        reveal(kofn_memo); reveal(slot);
        dd.lemma_base(); dd.lemma_two();
        reveal(kofn_ok);
        lemma_kofn_const(dd.dag(), node@, k as int, start as int);
        lemma_slot(k as int, start as int, n as int, kdim(memo@, n as int));
    }
//@end
// ---------------------------------------------------------------- minimal solutions
// the function's value at a set of components; s is a minimal set making f true
pub open spec fn at(d: D, f: int, s: S) -> int { eval(d, f, chi(s)) }
pub open spec fn minimal(d: D, f: int, s: S) -> bool { at(d, f, s) == 1 && forall|t: S| #[trigger] t.subset_of(s) && at(d, f, t) == 1 ==> t =~= s }
#[verifier::opaque]
pub open spec fn mono(d: D, f: int) -> bool { forall|s: S, t: S| #![trigger at(d, f, s), at(d, f, t)] s.subset_of(t) && at(d, f, s) == 1 ==> at(d, f, t) == 1 }
#[verifier::opaque]
pub open spec fn implies_fn(d: D, f: int, g: int) -> bool { forall|s: S| #[trigger] at(d, f, s) == 1 ==> at(d, g, s) == 1 }
// the family at v (zero-suppressed reading) has no two different members one inside the other
#[verifier::opaque]
pub open spec fn anti(d: D, v: int) -> bool { forall|s: S, t: S| #[trigger] mem(d, v, s) && #[trigger] mem(d, v, t) && s.subset_of(t) ==> s =~= t }
// v holds the members of f at which g is not true
#[verifier::opaque]
pub open spec fn without_ok(d: D, f: int, g: int, v: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(v) && pure(d, v) && lv(d, v) <= lv(d, f)
    &&& forall|s: S| #[trigger] mem(d, v, s) == (mem(d, f, s) && at(d, g, s) != 1)
}
// v holds exactly the minimal sets of f
#[verifier::opaque]
pub open spec fn minsol_ok(d: D, f: int, v: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(v) && pure(d, v) && lv(d, v) <= lv(d, f)
    &&& forall|s: S| #[trigger] mem(d, v, s) == minimal(d, f, s)
}
pub open spec fn ms(d: D, f: int, o: Option<NodeId>) -> bool { match o { Some(v) => mono(d, f) && minsol_ok(d, f, v as int), None => !mono(d, f) } }
#[verifier::opaque]
pub open spec fn ms_memo(d: D, c: IMap<int, Option<NodeId>>) -> bool { forall|k: int| #[trigger] c.dom().contains(k) ==> d.dom().contains(k) && ms(d, k, c[k]) }
#[verifier::opaque]
pub open spec fn wo_memo(d: D, c: IMap<(int, int), NodeId>) -> bool { forall|k: (int, int)| #[trigger] c.dom().contains(k) ==> without_ok(d, k.0, k.1, c[k] as int) }
pub open spec fn bz(d: D) -> bool { dag_ok(d) && two(d) && d.dom().contains(0) && d.dom().contains(1) && d.dom().contains(2) && d[0] == SN::T(0) && d[1] == SN::T(1) && d[2] == SN::T(2) && forall|i: int| #[trigger] d.dom().contains(i) && d[i] is T ==> 0 <= i < 3 && d[i] == SN::T(i) }
pub broadcast proof fn lemma_without_ext(d: D, d2: D, f: int, g: int, v: int)
    requires #[trigger] fext(d, d2), #[trigger] without_ok(d, f, g, v)
    ensures without_ok(d2, f, g, v), lv(d2, v) <= lv(d2, f), d2.dom().contains(v)
{ reveal(fext); reveal(without_ok); }
pub proof fn lemma_mono_same(d: D, d2: D, f: int)
    requires fext(d, d2), d.dom().contains(f)
    ensures mono(d2, f) == mono(d, f), anti(d2, f) == anti(d, f), forall|s: S| #[trigger] minimal(d2, f, s) == minimal(d, f, s)
{
    reveal(fext); reveal(mono); reveal(anti);
    assert forall|s: S| #[trigger] at(d2, f, s) == at(d, f, s) by {}
    assert(anti(d2, f) == anti(d, f)) by { assert forall|s: S| #[trigger] mem(d2, f, s) == mem(d, f, s) by {}
        if anti(d, f) { assert forall|s: S, t: S| #[trigger] mem(d2, f, s) && #[trigger] mem(d2, f, t) && s.subset_of(t) implies s =~= t by { assert(mem(d, f, s) && mem(d, f, t)); } }
        if anti(d2, f) { assert forall|s: S, t: S| #[trigger] mem(d, f, s) && #[trigger] mem(d, f, t) && s.subset_of(t) implies s =~= t by { assert(mem(d2, f, s) && mem(d2, f, t)); } } }
    if mono(d, f) { assert forall|s: S, t: S| #![trigger at(d2, f, s), at(d2, f, t)] s.subset_of(t) && at(d2, f, s) == 1 implies at(d2, f, t) == 1 by { assert(at(d, f, s) == 1); assert(at(d, f, t) == 1); } }
    if mono(d2, f) { assert forall|s: S, t: S| #![trigger at(d, f, s), at(d, f, t)] s.subset_of(t) && at(d, f, s) == 1 implies at(d, f, t) == 1 by { assert(at(d2, f, s) == 1); assert(at(d2, f, t) == 1); } }
    assert forall|s: S| #[trigger] minimal(d2, f, s) == minimal(d, f, s) by {
        assert(at(d2, f, s) == at(d, f, s));
        if minimal(d, f, s) { assert forall|t: S| #[trigger] t.subset_of(s) && at(d2, f, t) == 1 implies t =~= s by { assert(at(d, f, t) == 1); } }
        if minimal(d2, f, s) { assert forall|t: S| #[trigger] t.subset_of(s) && at(d, f, t) == 1 implies t =~= s by { assert(at(d2, f, t) == 1); } }
    }
}
pub broadcast proof fn lemma_anti_ext(d: D, d2: D, f: int)
    requires #[trigger] fext(d, d2), d.dom().contains(f)
    ensures #[trigger] anti(d2, f) == anti(d, f)
{ lemma_mono_same(d, d2, f); }
pub broadcast proof fn lemma_ms_ext(d: D, d2: D, f: int, o: Option<NodeId>)
    requires #[trigger] fext(d, d2), d.dom().contains(f), #[trigger] ms(d, f, o)
    ensures ms(d2, f, o)
{
    lemma_mono_same(d, d2, f);
    match o { Some(v) => { reveal(fext); reveal(minsol_ok); }, None => {} }
}
pub broadcast proof fn lemma_ms_memo_ext(d: D, d2: D, c: IMap<int, Option<NodeId>>)
    requires #[trigger] fext(d, d2), #[trigger] ms_memo(d, c)
    ensures ms_memo(d2, c)
{ reveal(ms_memo); assert forall|k: int| #[trigger] c.dom().contains(k) implies d2.dom().contains(k) && ms(d2, k, c[k]) by { assert(ms(d, k, c[k])); lemma_ms_ext(d, d2, k, c[k]); reveal(fext); } }
pub broadcast proof fn lemma_wo_memo_ext(d: D, d2: D, c: IMap<(int, int), NodeId>)
    requires #[trigger] fext(d, d2), #[trigger] wo_memo(d, c)
    ensures wo_memo(d2, c)
{ reveal(wo_memo); assert forall|k: (int, int)| #[trigger] c.dom().contains(k) implies without_ok(d2, k.0, k.1, c[k] as int) by { assert(without_ok(d, k.0, k.1, c[k] as int)); lemma_without_ext(d, d2, k.0, k.1, c[k] as int); } }
pub broadcast proof fn lemma_mgr_ext(m: BddManager, m2: BddManager)
    requires m.wf(), #[trigger] m2.ext(&m)
    ensures fext(m.dag(), m2.dag())
{ m.lemma_two(); lemma_fext(m.dag(), m2.dag()); }
pub broadcast proof fn lemma_mgr_bz(m: BddManager)
    requires #[trigger] m.wf()
    ensures bz(m.dag()), m.zero == 0 && m.one == 1 && m.undet == 2, m.live(0), m.live(1), m.live(2)
{ m.lemma_two(); m.lemma_base(); reveal(BddManager::wf); reveal(dag_of); assert forall|i: int| #[trigger] m.dag().dom().contains(i) && m.dag()[i] is T implies 0 <= i < 3 && m.dag()[i] == SN::T(i) by { assert(m.node_rep(i)); } }
pub broadcast proof fn lemma_wo_lv(d: D, f: int, g: int, v: int)
    requires #[trigger] without_ok(d, f, g, v)
    ensures lv(d, v) <= lv(d, f), d.dom().contains(v), d.dom().contains(f), d.dom().contains(g), pure(d, v)
{ reveal(without_ok); }
pub open spec fn wants(f: int, g: int) -> bool { true }
// ---- difference
pub broadcast proof fn lemma_wo_base(d: D, f: int, g: int)
    requires bz(d), d.dom().contains(f), d.dom().contains(g), pure(d, f)
    ensures #![trigger wants(f, g), bz(d)] f == 0 ==> without_ok(d, f, g, 0), g == 0 ==> without_ok(d, f, g, f), g == 1 ==> without_ok(d, f, g, 0), f == g ==> without_ok(d, f, g, 0), anti(d, 0), anti(d, 1)
{
    reveal(without_ok); reveal(anti);
    lemma_bt(d, 0); lemma_bt(d, 1);
    assert forall|s: S| f == g implies !(#[trigger] mem(d, f, s) && at(d, g, s) != 1) by { if mem(d, f, s) { lemma_mem_eval(d, f, s); } }
    assert(f == g ==> without_ok(d, f, g, 0)) by { if f == g { assert(lv(d, 0) <= lv(d, f)) by { if d[f] is N { lemma_bn(d, f); } else { lemma_bt(d, f); } } } }
    assert(lv(d, f) >= 0) by { if d[f] is N { lemma_bn(d, f); } else { lemma_bt(d, f); } }
}
// f lies below g: its members do not contain g's variable
pub broadcast proof fn lemma_wo_skip(d: D, f: int, g: int, b: int, v: int)
    requires bz(d), d[g] is N, d.dom().contains(g), lv(d, f) < lv(d, g), b == lo0(d, g), #[trigger] without_ok(d, f, b, v), #[trigger] wants(f, g)
    ensures without_ok(d, f, g, v)
{
    reveal(without_ok);
    lemma_bn(d, g);
    assert forall|s: S| #[trigger] mem(d, v, s) == (mem(d, f, s) && at(d, g, s) != 1) by { if mem(d, f, s) { lemma_mbound(d, f, s, lev(d, g)); assert(at(d, g, s) == at(d, lo0(d, g), s)); } }
}
pub proof fn lemma_anti(d: D, f: int)
    requires bz(d), d.dom().contains(f), d[f] is N, anti(d, f)
    ensures anti(d, lo0(d, f)), anti(d, hi1(d, f)), forall|s: S| !(#[trigger] mem(d, lo0(d, f), s) && mem(d, hi1(d, f), s))
{
    reveal(anti);
    lemma_bn(d, f); let x = lev(d, f); let l = lo0(d, f); let h = hi1(d, f);
    assert forall|s: S, t: S| #[trigger] mem(d, l, s) && #[trigger] mem(d, l, t) && s.subset_of(t) implies s =~= t by { lemma_mbound(d, l, s, x); lemma_mbound(d, l, t, x); assert(mem(d, f, s) && mem(d, f, t)); }
    assert forall|s: S, t: S| #[trigger] mem(d, h, s) && #[trigger] mem(d, h, t) && s.subset_of(t) implies s =~= t by {
        lemma_mbound(d, h, s, x); lemma_mbound(d, h, t, x); let s2 = s.insert(x); let t2 = t.insert(x);
        assert(s2.remove(x) =~= s); assert(t2.remove(x) =~= t); assert(mem(d, f, s2) && mem(d, f, t2)); assert(s2 =~= t2); assert(s =~= t);
    }
    assert forall|s: S| !(#[trigger] mem(d, l, s) && mem(d, h, s)) by { if mem(d, l, s) && mem(d, h, s) {
        lemma_mbound(d, l, s, x); let s2 = s.insert(x); assert(s2.remove(x) =~= s); assert(mem(d, f, s)); assert(mem(d, f, s2)); assert(s.subset_of(s2)); assert(s2 =~= s); assert(s2.contains(x)); } }
}
// what a freshly built node holds, when its children have no member in common
pub proof fn lemma_built(d: D, x: int, l: int, h: int, r: int)
    requires bz(d), built(d, x, l, h, r), d.dom().contains(l), d.dom().contains(h), pure(d, l), pure(d, h), lv(d, l) <= x, lv(d, h) <= x, x >= 0,
        forall|s: S| !(#[trigger] mem(d, l, s) && mem(d, h, s))
    ensures pure(d, r), lv(d, r) <= x + 1, forall|s: S| #[trigger] mem(d, r, s) == (if s.contains(x) { mem(d, h, s.remove(x)) } else { mem(d, l, s) })
{
    if l == h { assert forall|s: S| #[trigger] mem(d, r, s) == (if s.contains(x) { mem(d, h, s.remove(x)) } else { mem(d, l, s) }) by { assert(!mem(d, l, s)); assert(!mem(d, l, s.remove(x))); } }
    else { lemma_bn(d, r); assert(lo0(d, r) == l && hi1(d, r) == h); }
}
pub open spec fn g0(d: D, f: int, g: int) -> int { if lv(d, g) == lv(d, f) { lo0(d, g) } else { g } }
pub open spec fn g1(d: D, f: int, g: int) -> int { if lv(d, g) == lv(d, f) { hi1(d, g) } else { g } }
pub broadcast proof fn lemma_wo_node(d: D, f: int, g: int, x: int, l: int, h: int, r: int, a0: int, a1: int, b0: int, b1: int)
    requires bz(d), #[trigger] wants(f, g), d.dom().contains(f), d.dom().contains(g), pure(d, f), d[f] is N, lv(d, g) <= lv(d, f), anti(d, f),
        #[trigger] without_ok(d, a0, b0, l), #[trigger] without_ok(d, a1, b1, h), #[trigger] built(d, x, l, h, r),
        x == lev(d, f), a0 == lo0(d, f), a1 == hi1(d, f), b0 == g0(d, f, g), b1 == g1(d, f, g),
    ensures without_ok(d, f, g, r)
{
    reveal(without_ok);
    lemma_bn(d, f); lemma_anti(d, f);
    if d[g] is N { lemma_bn(d, g); } else { lemma_bt(d, g); }
    lemma_built(d, x, l, h, r);
    assert forall|s: S| #[trigger] mem(d, r, s) == (mem(d, f, s) && at(d, g, s) != 1) by {
        if s.contains(x) { lemma_chi(d, b1, s, x); assert(at(d, g, s) == at(d, b1, s)); } else { assert(at(d, g, s) == at(d, b0, s)); }
    }
}
//@fn bss bdd_minsol::without
//@args dd f g cache
    requires old(dd).wf(), old(dd).live(f as int), old(dd).live(g as int), pure(old(dd).dag(), f as int), pure(old(dd).dag(), g as int), anti(old(dd).dag(), f as int), wo_memo(old(dd).dag(), old(cache)@)
    ensures final(dd).wf(), final(dd).ext(old(dd)), wo_memo(final(dd).dag(), final(cache)@), without_ok(final(dd).dag(), f as int, g as int, r as int), final(dd).live(r as int), final(dd).lvl(r as int) <= final(dd).lvl(f as int)
    decreases old(dd).lvl(f as int) + old(dd).lvl(g as int)
//@entry
    broadcast use {lemma_mgr_ext, lemma_mgr_bz, lemma_without_ext, lemma_wo_memo_ext, lemma_wo_base, lemma_wo_skip, lemma_wo_node, lemma_wo_lv, lemma_anti_ext};
    proof {
        reveal(fext); reveal(wo_memo);
        dd.lemma_node(f as int); dd.lemma_node(g as int);
        assert(wants(f as int, g as int));
        if dd.dag()[f as int] is N { lemma_bn(dd.dag(), f as int); lemma_anti(dd.dag(), f as int); } else { lemma_bt(dd.dag(), f as int); }
        if dd.dag()[g as int] is N { lemma_bn(dd.dag(), g as int); } else { lemma_bt(dd.dag(), g as int); }
    }
//@end
// ---- minimal solutions
pub broadcast proof fn lemma_mono_ext(d: D, d2: D, f: int)
    requires #[trigger] fext(d, d2), d.dom().contains(f)
    ensures #[trigger] mono(d2, f) == mono(d, f)
{ lemma_mono_same(d, d2, f); }
pub broadcast proof fn lemma_implies_ext(d: D, d2: D, f: int, g: int)
    requires #[trigger] fext(d, d2), d.dom().contains(f), d.dom().contains(g)
    ensures #[trigger] implies_fn(d2, f, g) == implies_fn(d, f, g)
{
    reveal(fext); reveal(implies_fn);
    if implies_fn(d, f, g) { assert forall|s: S| #[trigger] at(d2, f, s) == 1 implies at(d2, g, s) == 1 by { assert(at(d, f, s) == 1); } }
    if implies_fn(d2, f, g) { assert forall|s: S| #[trigger] at(d, f, s) == 1 implies at(d, g, s) == 1 by { assert(at(d2, f, s) == 1); } }
}
pub proof fn lemma_mono_node(d: D, f: int)
    requires bz(d), d.dom().contains(f), d[f] is N
    ensures mono(d, f) == (mono(d, lo0(d, f)) && mono(d, hi1(d, f)) && implies_fn(d, lo0(d, f), hi1(d, f)))
{
    reveal(mono); reveal(implies_fn);
    lemma_bn(d, f); let x = lev(d, f); let l = lo0(d, f); let h = hi1(d, f);
    assert forall|s: S| #[trigger] at(d, l, s) == at(d, f, s.remove(x)) && at(d, h, s) == at(d, f, s.insert(x)) by { lemma_chi(d, l, s, x); lemma_chi(d, h, s, x); }
    if mono(d, f) {
        assert forall|s: S, t: S| #![trigger at(d, l, s), at(d, l, t)] s.subset_of(t) && at(d, l, s) == 1 implies at(d, l, t) == 1 by { assert(at(d, f, s.remove(x)) == 1); assert(s.remove(x).subset_of(t.remove(x))); assert(at(d, f, t.remove(x)) == 1); }
        assert forall|s: S, t: S| #![trigger at(d, h, s), at(d, h, t)] s.subset_of(t) && at(d, h, s) == 1 implies at(d, h, t) == 1 by { assert(at(d, l, s) == at(d, f, s.remove(x))); assert(at(d, l, t) == at(d, f, t.remove(x))); assert(at(d, f, s.insert(x)) == 1); assert(s.insert(x).subset_of(t.insert(x))); assert(at(d, f, t.insert(x)) == 1); }
        assert forall|s: S| #[trigger] at(d, l, s) == 1 implies at(d, h, s) == 1 by { assert(at(d, f, s.remove(x)) == 1); assert(s.remove(x).subset_of(s.insert(x))); assert(at(d, f, s.insert(x)) == 1); }
    }
    if mono(d, l) && mono(d, h) && implies_fn(d, l, h) {
        assert forall|s: S, t: S| #![trigger at(d, f, s), at(d, f, t)] s.subset_of(t) && at(d, f, s) == 1 implies at(d, f, t) == 1 by {
            if s.contains(x) { assert(at(d, h, s) == 1); assert(at(d, h, t) == 1); } else { assert(at(d, l, s) == 1); assert(at(d, l, t) == 1); assert(at(d, h, t) == 1); }
        }
    }
}
pub broadcast proof fn lemma_ms_lv(d: D, f: int, v: NodeId)
    requires #[trigger] ms(d, f, Some(v))
    ensures pure(d, v as int), lv(d, v as int) <= lv(d, f), d.dom().contains(v as int), d.dom().contains(f), anti(d, v as int)
{
    reveal(minsol_ok); reveal(anti);
    assert forall|s: S, t: S| #[trigger] mem(d, v as int, s) && #[trigger] mem(d, v as int, t) && s.subset_of(t) implies s =~= t by { assert(minimal(d, f, s)); assert(minimal(d, f, t)); assert(at(d, f, s) == 1); }
}
pub broadcast proof fn lemma_ms_base(d: D)
    requires #[trigger] bz(d)
    ensures ms(d, 0, Some(0usize)), ms(d, 1, Some(1usize))
{
    reveal(minsol_ok); reveal(mono);
    lemma_bt(d, 0); lemma_bt(d, 1);
    assert forall|s: S| #[trigger] mem(d, 1, s) == minimal(d, 1, s) by {
        if s =~= ISet::empty() { assert forall|t: S| #[trigger] t.subset_of(s) && at(d, 1, t) == 1 implies t =~= s by { assert forall|e: int| !t.contains(e) by { if t.contains(e) { assert(s.contains(e)); } } } }
        else { let e: S = ISet::empty(); assert(e.subset_of(s) && at(d, 1, e) == 1); }
    }
}
pub broadcast proof fn lemma_and_implies(m: BddManager, f: int, g: int, n: int)
    requires #[trigger] m.wf(), m.one_header_per_level(), pure(m.dag(), f), pure(m.dag(), g), #[trigger] apply_ok(m.dag(), Operation::And, f, g, n)
    ensures (n == f) == implies_fn(m.dag(), f, g)
{
    let d = m.dag();
    reveal(implies_fn);
    m.lemma_two();
    if n == f { assert forall|s: S| #[trigger] at(d, f, s) == 1 implies at(d, g, s) == 1 by { let a = chi(s); lemma_pure_eval(d, f, a); lemma_pure_eval(d, g, a); assert(val_ok(Operation::And, eval(d, f, a), eval(d, g, a), eval(d, n, a))); } }
    if implies_fn(d, f, g) {
        assert forall|a: Asg| #[trigger] eval(d, n, a) == eval(d, f, a) by {
            lemma_pure_eval(d, f, a); lemma_pure_eval(d, g, a); lemma_ones(d, f, a); lemma_ones(d, g, a);
            assert(at(d, f, ones(a)) == 1 ==> at(d, g, ones(a)) == 1);
            assert(val_ok(Operation::And, eval(d, f, a), eval(d, g, a), eval(d, n, a)));
        }
        m.theorem_canonical(n, f);
    }
}
pub broadcast proof fn lemma_ms_node(d: D, f: int, x: int, a0: int, a1: int, l: NodeId, hs: NodeId, h: int, r: NodeId)
    requires bz(d), d.dom().contains(f), d[f] is N, pure(d, f), mono(d, f), #[trigger] wants(f, 0), a0 == lo0(d, f), a1 == hi1(d, f), x == lev(d, f),
        #[trigger] ms(d, a0, Some(l)), #[trigger] ms(d, a1, Some(hs)), #[trigger] without_ok(d, hs as int, a0, h), #[trigger] built(d, x, l as int, h, r as int)
    ensures ms(d, f, Some(r))
{
    reveal(minsol_ok); reveal(without_ok); reveal(mono);
    lemma_bn(d, f); lemma_mono_node(d, f);
    assert forall|s: S| !(#[trigger] mem(d, l as int, s) && mem(d, h, s)) by { if mem(d, l as int, s) { assert(minimal(d, a0, s)); } }
    lemma_built(d, x, l as int, h, r as int);
    assert forall|s: S| #[trigger] at(d, a0, s) == at(d, f, s.remove(x)) && at(d, a1, s) == at(d, f, s.insert(x)) by { lemma_chi(d, a0, s, x); lemma_chi(d, a1, s, x); }
    assert forall|s: S| #[trigger] mem(d, r as int, s) == minimal(d, f, s) by {
        if s.contains(x) {
            let q = s.remove(x); assert(q.insert(x) =~= s); assert(at(d, a0, q) == at(d, f, q.remove(x))); assert(q.remove(x) =~= q);
            assert(mem(d, r as int, s) == (minimal(d, a1, q) && at(d, a0, q) != 1));
            if minimal(d, f, s) {
                assert forall|t: S| #[trigger] t.subset_of(q) && at(d, a1, t) == 1 implies t =~= q by { let u = t.insert(x); assert(at(d, a0, t) == at(d, f, t.remove(x))); assert(u.subset_of(s)); assert(at(d, f, u) == 1); assert(u =~= s); assert(!t.contains(x)); assert(t =~= q); }
                if at(d, a0, q) == 1 { assert(q.subset_of(s)); assert(q =~= s); assert(q.contains(x)); }
            }
            if minimal(d, a1, q) && at(d, a0, q) != 1 {
                assert forall|t: S| #[trigger] t.subset_of(s) && at(d, f, t) == 1 implies t =~= s by {
                    let u = t.remove(x); assert(u.subset_of(q)); assert(at(d, a0, u) == at(d, f, u.remove(x)));
                    if t.contains(x) { assert(u.insert(x) =~= t); assert(at(d, a1, u) == 1); assert(u =~= q); }
                    else { assert(u.remove(x) =~= t); assert(at(d, a0, u) == 1); assert(at(d, a0, q) == 1); }
                }
            }
        } else {
            assert forall|t: S| t.subset_of(s) implies #[trigger] at(d, f, t) == at(d, a0, t) by { assert(!t.contains(x)); assert(t.remove(x) =~= t); }
            assert(at(d, f, s) == at(d, a0, s));
            if minimal(d, f, s) { assert forall|t: S| #[trigger] t.subset_of(s) && at(d, a0, t) == 1 implies t =~= s by { assert(at(d, f, t) == 1); } }
            if minimal(d, a0, s) { assert forall|t: S| #[trigger] t.subset_of(s) && at(d, f, t) == 1 implies t =~= s by { assert(at(d, a0, t) == 1); } }
        }
    }
}
//@fn bss bdd_minsol::minsol
//@args dd node cache1 cache2
    requires old(dd).wf(), old(dd).one_header_per_level(), old(dd).live(node as int), pure(old(dd).dag(), node as int), ms_memo(old(dd).dag(), old(cache1)@), wo_memo(old(dd).dag(), old(cache2)@)
    ensures final(dd).wf(), final(dd).ext(old(dd)), ms_memo(final(dd).dag(), final(cache1)@), wo_memo(final(dd).dag(), final(cache2)@), ms(final(dd).dag(), node as int, r)
    decreases old(dd).lvl(node as int)
//@entry
    broadcast use {lemma_mgr_ext, lemma_mgr_bz, lemma_without_ext, lemma_wo_memo_ext, lemma_ms_memo_ext, lemma_ms_ext, lemma_ms_lv, lemma_wo_lv, lemma_ms_base, lemma_mono_ext, lemma_implies_ext, lemma_and_implies, lemma_ms_node, lemma_anti_ext};
    proof {
        reveal(fext); reveal(ms_memo);
        dd.lemma_node(node as int);
        assert(wants(node as int, 0));
        if dd.dag()[node as int] is N { lemma_bn(dd.dag(), node as int); lemma_mono_node(dd.dag(), node as int); } else { lemma_bt(dd.dag(), node as int); }
    }
//@end

//@include mem.vrs
pub open spec fn znode(d: D, id: int) -> bool {
    match d[id] { SN::T(v) => v == 0 ==> id == 0, SN::N { level, kids } => kids.len() == 2 && kids[1] != 0 }
}
// zero-suppressed: no node has the empty family as its high child
pub open spec fn zred(d: D) -> bool {
    d.dom().contains(0) && d[0] == SN::T(0) && forall|id: int| #[trigger] d.dom().contains(id) ==> znode(d, id)
}
pub proof fn lemma_zn(d: D, id: int)
    requires dag_ok(d), zred(d), d.dom().contains(id), d[id] is N
    ensures d[id] matches SN::N { level, kids } && kids.len() == 2 && d.dom().contains(kids[0]) && d.dom().contains(kids[1])
        && (forall|s: S| #[trigger] mem(d, id, s) == (if s.contains(level) { mem(d, kids[1], s.remove(level)) } else { mem(d, kids[0], s) }))
        && pure(d, id) == (pure(d, kids[0]) && pure(d, kids[1]))
{
    reveal_with_fuel(mem, 1); reveal_with_fuel(pure, 1); reveal(dag_ok);
    assert(znode(d, id)); assert(node_ok(d, id));
    match d[id] { SN::N { level, kids } => { assert(d.dom().contains(kids[0])); assert(d.dom().contains(kids[1])); }, _ => {} }
}
pub proof fn lemma_bound(d: D, id: int, s: S, l: int)
    requires dag_ok(d), zred(d), d.dom().contains(id), mem(d, id, s), l >= lv(d, id)
    ensures !s.contains(l)
    decreases lv(d, id)
{
    reveal_with_fuel(mem, 1);
    assert(node_ok(d, id)) by { reveal(dag_ok); }
    match d[id] { SN::T(_) => {}, SN::N { level, kids } => {
        lemma_zn(d, id);
        if s.contains(level) { lemma_bound(d, kids[1], s.remove(level), l); } else { lemma_bound(d, kids[0], s, l); }
    } }
}
pub proof fn lemma_bound_all(d: D, id: int)
    requires dag_ok(d), zred(d), d.dom().contains(id)
    ensures forall|s: S, l: int| #![trigger mem(d, id, s), s.contains(l)] mem(d, id, s) && l >= lv(d, id) ==> !s.contains(l)
{
    assert forall|s: S, l: int| #![trigger mem(d, id, s), s.contains(l)] mem(d, id, s) && l >= lv(d, id) implies !s.contains(l) by { lemma_bound(d, id, s, l); }
}
pub proof fn lemma_nonempty(d: D, id: int) -> (s: S)
    requires dag_ok(d), zred(d), d.dom().contains(id), pure(d, id), id != 0
    ensures mem(d, id, s)
    decreases lv(d, id)
{
    reveal_with_fuel(mem, 1); reveal_with_fuel(pure, 1);
    assert(node_ok(d, id)) by { reveal(dag_ok); }
    assert(znode(d, id));
    match d[id] { SN::T(v) => ISet::empty(), SN::N { level, kids } => {
        lemma_zn(d, id);
        let t = lemma_nonempty(d, kids[1]);
        lemma_bound(d, kids[1], t, level);
        assert(t.insert(level).remove(level) =~= t);
        t.insert(level)
    } }
}
pub proof fn lemma_mem_same(d: D, d2: D, id: int, s: S)
    requires dag_ok(d), zred(d), d.dom().contains(id), forall|i: int| #[trigger] d.dom().contains(i) ==> d2[i] == d[i],
    ensures mem(d2, id, s) == mem(d, id, s)
    decreases lv(d, id)
{
    reveal_with_fuel(mem, 1);
    assert(node_ok(d, id)) by { reveal(dag_ok); }
    match d[id] { SN::T(_) => {}, SN::N { level, kids } => {
        lemma_zn(d, id);
        if s.contains(level) { lemma_mem_same(d, d2, kids[1], s.remove(level)); } else { lemma_mem_same(d, d2, kids[0], s); }
    } }
}
pub proof fn lemma_pure_same(d: D, d2: D, id: int)
    requires dag_ok(d), zred(d), d.dom().contains(id), forall|i: int| #[trigger] d.dom().contains(i) ==> d2[i] == d[i],
    ensures pure(d2, id) == pure(d, id)
    decreases lv(d, id)
{
    reveal_with_fuel(pure, 1);
    assert(node_ok(d, id)) by { reveal(dag_ok); }
    match d[id] { SN::T(_) => {}, SN::N { level, kids } => { lemma_zn(d, id); lemma_pure_same(d, d2, kids[0]); lemma_pure_same(d, d2, kids[1]); } }
}
// ---- the operations of the family algebra
pub open spec fn prodm(d: D, f: int, g: int, s: S) -> bool { exists|t: S, u: S| #[trigger] mem(d, f, t) && #[trigger] mem(d, g, u) && s =~= t.union(u) }
pub open spec fn divm(d: D, f: int, g: int, s: S) -> bool { forall|u: S| #[trigger] mem(d, g, u) ==> s.disjoint(u) && mem(d, f, s.union(u)) }
#[verifier::opaque]
pub open spec fn opm(d: D, k: ZddOperation, f: int, g: int, s: S) -> bool {
    match k {
        ZddOperation::Intersect => mem(d, f, s) && mem(d, g, s),
        ZddOperation::Union => mem(d, f, s) || mem(d, g, s),
        ZddOperation::Setdiff => mem(d, f, s) && !mem(d, g, s),
        ZddOperation::Product => prodm(d, f, g, s),
        ZddOperation::Division => divm(d, f, g, s),
    }
}
pub open spec fn zext(d: D, d2: D) -> bool {
    &&& forall|id: int| #[trigger] d.dom().contains(id) ==> d2.dom().contains(id) && d2[id] == d[id]
    &&& forall|id: int, s: S| d.dom().contains(id) ==> #[trigger] mem(d2, id, s) == mem(d, id, s)
    &&& forall|id: int| d.dom().contains(id) ==> #[trigger] pure(d2, id) == pure(d, id)
    &&& forall|k: ZddOperation, f: int, g: int, s: S| d.dom().contains(f) && d.dom().contains(g) ==> #[trigger] opm(d2, k, f, g, s) == opm(d, k, f, g, s)
}
pub proof fn lemma_zext(d: D, d2: D)
    requires dag_ok(d), zred(d), forall|i: int| #[trigger] d.dom().contains(i) ==> d2.dom().contains(i) && d2[i] == d[i],
    ensures zext(d, d2)
{
    assert forall|id: int, s: S| d.dom().contains(id) implies #[trigger] mem(d2, id, s) == mem(d, id, s) by { lemma_mem_same(d, d2, id, s); }
    assert forall|id: int| d.dom().contains(id) implies #[trigger] pure(d2, id) == pure(d, id) by { lemma_pure_same(d, d2, id); }
    assert forall|k: ZddOperation, f: int, g: int, s: S| d.dom().contains(f) && d.dom().contains(g) implies #[trigger] opm(d2, k, f, g, s) == opm(d, k, f, g, s) by {
        reveal(opm); lemma_opm_same(d, d2, f, g, s);
    }
}
// only the families at f and g matter
pub proof fn lemma_opm_same(d: D, d2: D, f: int, g: int, s: S)
    requires forall|t: S| #[trigger] mem(d2, f, t) == mem(d, f, t), forall|t: S| #[trigger] mem(d2, g, t) == mem(d, g, t),
    ensures prodm(d2, f, g, s) == prodm(d, f, g, s), divm(d2, f, g, s) == divm(d, f, g, s)
{
    if prodm(d2, f, g, s) { let (t, u) = choose|t: S, u: S| #[trigger] mem(d2, f, t) && #[trigger] mem(d2, g, u) && s =~= t.union(u); assert(mem(d, f, t) && mem(d, g, u)); }
    if prodm(d, f, g, s) { let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f, t) && #[trigger] mem(d, g, u) && s =~= t.union(u); assert(mem(d2, f, t) && mem(d2, g, u)); }
    if divm(d2, f, g, s) { assert forall|u: S| #[trigger] mem(d, g, u) implies s.disjoint(u) && mem(d, f, s.union(u)) by { assert(mem(d2, g, u)); } }
    if divm(d, f, g, s) { assert forall|u: S| #[trigger] mem(d2, g, u) implies s.disjoint(u) && mem(d2, f, s.union(u)) by { assert(mem(d, g, u)); } }
}
// ---- how the operations split on the top element
pub open spec fn k0(d: D, id: int) -> int { d[id]->kids[0] }
pub open spec fn k1(d: D, id: int) -> int { d[id]->kids[1] }
pub proof fn lemma_prod_left(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g), d[f] is N, lv(d, f) > lv(d, g)
    ensures forall|s: S| #[trigger] prodm(d, f, g, s) == (if s.contains(lv(d, f) - 1) { prodm(d, k1(d, f), g, s.remove(lv(d, f) - 1)) } else { prodm(d, k0(d, f), g, s) })
{
    lemma_zn(d, f); let l = lv(d, f) - 1; let (f0, f1) = (k0(d, f), k1(d, f));
    assert(node_ok(d, f)) by { reveal(dag_ok); }
    lemma_bound_all(d, g); lemma_bound_all(d, f0); lemma_bound_all(d, f1);
    assert forall|s: S| #[trigger] prodm(d, f, g, s) == (if s.contains(l) { prodm(d, f1, g, s.remove(l)) } else { prodm(d, f0, g, s) }) by {
        if prodm(d, f, g, s) {
            let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f, t) && #[trigger] mem(d, g, u) && s =~= t.union(u);
            assert(!u.contains(l));
            if s.contains(l) { assert(t.contains(l)); assert(mem(d, f1, t.remove(l))); assert(s.remove(l) =~= t.remove(l).union(u)); } else { assert(!t.contains(l)); assert(mem(d, f0, t)); }
        }
        if s.contains(l) && prodm(d, f1, g, s.remove(l)) {
            let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f1, t) && #[trigger] mem(d, g, u) && s.remove(l) =~= t.union(u);
            assert(!t.contains(l)); assert(t.insert(l).remove(l) =~= t); assert(mem(d, f, t.insert(l))); assert(s =~= t.insert(l).union(u));
        }
        if !s.contains(l) && prodm(d, f0, g, s) {
            let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f0, t) && #[trigger] mem(d, g, u) && s =~= t.union(u);
            assert(!t.contains(l)); assert(mem(d, f, t));
        }
    }
}
pub proof fn lemma_prod_sym(d: D, f: int, g: int)
    ensures forall|s: S| #[trigger] prodm(d, f, g, s) == prodm(d, g, f, s)
{
    assert forall|s: S| #[trigger] prodm(d, f, g, s) == prodm(d, g, f, s) by {
        if prodm(d, f, g, s) { let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f, t) && #[trigger] mem(d, g, u) && s =~= t.union(u); assert(s =~= u.union(t)); }
        if prodm(d, g, f, s) { let (t, u) = choose|t: S, u: S| #[trigger] mem(d, g, t) && #[trigger] mem(d, f, u) && s =~= t.union(u); assert(s =~= u.union(t)); }
    }
}
pub proof fn lemma_prod_right(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g), d[g] is N, lv(d, g) > lv(d, f)
    ensures forall|s: S| #[trigger] prodm(d, f, g, s) == (if s.contains(lv(d, g) - 1) { prodm(d, f, k1(d, g), s.remove(lv(d, g) - 1)) } else { prodm(d, f, k0(d, g), s) })
{
    lemma_prod_left(d, g, f); lemma_prod_sym(d, f, g); lemma_prod_sym(d, f, k0(d, g)); lemma_prod_sym(d, f, k1(d, g));
}
pub proof fn lemma_prod_both(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g), d[f] is N, d[g] is N, lv(d, g) == lv(d, f)
    ensures forall|s: S| #[trigger] prodm(d, f, g, s) == (if s.contains(lv(d, g) - 1) { let q = s.remove(lv(d, g) - 1); prodm(d, k1(d, f), k1(d, g), q) || prodm(d, k1(d, f), k0(d, g), q) || prodm(d, k0(d, f), k1(d, g), q) } else { prodm(d, k0(d, f), k0(d, g), s) })
{
    lemma_zn(d, f); lemma_zn(d, g); let l = lv(d, f) - 1; let (f0, f1) = (k0(d, f), k1(d, f)); let (g0, g1) = (k0(d, g), k1(d, g));
    assert(node_ok(d, f) && node_ok(d, g)) by { reveal(dag_ok); }
    lemma_bound_all(d, f0); lemma_bound_all(d, f1); lemma_bound_all(d, g0); lemma_bound_all(d, g1);
    assert forall|s: S| #[trigger] prodm(d, f, g, s) == (if s.contains(l) { let q = s.remove(l); prodm(d, f1, g1, q) || prodm(d, f1, g0, q) || prodm(d, f0, g1, q) } else { prodm(d, f0, g0, s) }) by {
        let q = s.remove(l);
        if prodm(d, f, g, s) {
            let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f, t) && #[trigger] mem(d, g, u) && s =~= t.union(u);
            if t.contains(l) && u.contains(l) { assert(mem(d, f1, t.remove(l)) && mem(d, g1, u.remove(l))); assert(q =~= t.remove(l).union(u.remove(l))); }
            else if t.contains(l) { assert(mem(d, f1, t.remove(l)) && mem(d, g0, u)); assert(q =~= t.remove(l).union(u)); }
            else if u.contains(l) { assert(mem(d, f0, t) && mem(d, g1, u.remove(l))); assert(q =~= t.union(u.remove(l))); }
            else { assert(mem(d, f0, t) && mem(d, g0, u)); assert(!s.contains(l)); }
        }
        if s.contains(l) {
            if prodm(d, f1, g1, q) { let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f1, t) && #[trigger] mem(d, g1, u) && q =~= t.union(u);
                assert(t.insert(l).remove(l) =~= t); assert(u.insert(l).remove(l) =~= u); assert(mem(d, f, t.insert(l)) && mem(d, g, u.insert(l))); assert(s =~= t.insert(l).union(u.insert(l))); }
            if prodm(d, f1, g0, q) { let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f1, t) && #[trigger] mem(d, g0, u) && q =~= t.union(u);
                assert(t.insert(l).remove(l) =~= t); assert(!u.contains(l)); assert(mem(d, f, t.insert(l)) && mem(d, g, u)); assert(s =~= t.insert(l).union(u)); }
            if prodm(d, f0, g1, q) { let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f0, t) && #[trigger] mem(d, g1, u) && q =~= t.union(u);
                assert(u.insert(l).remove(l) =~= u); assert(!t.contains(l)); assert(mem(d, f, t) && mem(d, g, u.insert(l))); assert(s =~= t.union(u.insert(l))); }
        } else if prodm(d, f0, g0, s) { let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f0, t) && #[trigger] mem(d, g0, u) && s =~= t.union(u);
                assert(!t.contains(l) && !u.contains(l)); assert(mem(d, f, t) && mem(d, g, u)); }
    }
}
pub proof fn lemma_prod_term(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g)
    ensures d[f] == SN::T(0) || d[g] == SN::T(0) ==> forall|s: S| !(#[trigger] prodm(d, f, g, s)),
        d[g] == SN::T(1) ==> forall|s: S| #[trigger] prodm(d, f, g, s) == mem(d, f, s),
        d[f] == SN::T(1) ==> forall|s: S| #[trigger] prodm(d, f, g, s) == mem(d, g, s),
{
    reveal_with_fuel(mem, 1);
    if d[g] == SN::T(1) { assert forall|s: S| #[trigger] prodm(d, f, g, s) == mem(d, f, s) by { lemma_prod_one(d, f, g, s); } }
    if d[f] == SN::T(1) { assert forall|s: S| #[trigger] prodm(d, f, g, s) == mem(d, g, s) by { lemma_prod_sym(d, f, g); lemma_prod_one(d, g, f, s); } }
}
pub proof fn lemma_prod_one(d: D, f: int, g: int, s: S)
    requires d[g] == SN::T(1)
    ensures prodm(d, f, g, s) == mem(d, f, s)
{
    assert forall|u: S| #[trigger] mem(d, g, u) == (u =~= ISet::empty()) by { reveal_with_fuel(mem, 1); }
    if prodm(d, f, g, s) { let (t, u) = choose|t: S, u: S| #[trigger] mem(d, f, t) && #[trigger] mem(d, g, u) && s =~= t.union(u); assert(s =~= t); }
    if mem(d, f, s) { assert(mem(d, g, ISet::empty())); assert(s =~= s.union(ISet::empty())); }
}
pub proof fn lemma_div_left(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g), d[f] is N, lv(d, f) > lv(d, g)
    ensures forall|s: S| #[trigger] divm(d, f, g, s) == (if s.contains(lv(d, f) - 1) { divm(d, k1(d, f), g, s.remove(lv(d, f) - 1)) } else { divm(d, k0(d, f), g, s) })
{
    lemma_zn(d, f); let l = lv(d, f) - 1; let (f0, f1) = (k0(d, f), k1(d, f));
    lemma_bound_all(d, g);
    assert forall|s: S| #[trigger] divm(d, f, g, s) == (if s.contains(l) { divm(d, f1, g, s.remove(l)) } else { divm(d, f0, g, s) }) by {
        let q = s.remove(l);
        assert forall|u: S| #[trigger] mem(d, g, u) implies (s.disjoint(u) && mem(d, f, s.union(u))) == (if s.contains(l) { q.disjoint(u) && mem(d, f1, q.union(u)) } else { s.disjoint(u) && mem(d, f0, s.union(u)) }) by {
            assert(!u.contains(l));
            if s.contains(l) { assert(s.union(u).remove(l) =~= q.union(u)); assert(mem(d, f, s.union(u)) == mem(d, f1, q.union(u)));
                assert(s.disjoint(u) == q.disjoint(u)) by {
                    if q.disjoint(u) { assert forall|x: int| s.contains(x) implies !u.contains(x) by { if x != l { assert(q.contains(x)); } } }
                    if s.disjoint(u) { assert forall|x: int| q.contains(x) implies !u.contains(x) by { assert(s.contains(x)); } }
                } }
            else { assert(!s.union(u).contains(l)); }
        }
        if divm(d, f, g, s) { if s.contains(l) { assert(divm(d, f1, g, q)); } else { assert(divm(d, f0, g, s)); } }
        if s.contains(l) && divm(d, f1, g, q) { assert(divm(d, f, g, s)); }
        if !s.contains(l) && divm(d, f0, g, s) { assert(divm(d, f, g, s)); }
    }
}
// the divisor has an element the dividend cannot have
pub proof fn lemma_div_none(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g), d[g] is N, lv(d, f) < lv(d, g), pure(d, g)
    ensures forall|s: S| !(#[trigger] divm(d, f, g, s))
{
    lemma_zn(d, g); let l = lv(d, g) - 1;
    assert(znode(d, g)); assert(node_ok(d, g)) by { reveal(dag_ok); }
    let t = lemma_nonempty(d, k1(d, g));
    lemma_bound(d, k1(d, g), t, l);
    let u = t.insert(l);
    assert(u.remove(l) =~= t); assert(mem(d, g, u));
    assert forall|s: S| !(#[trigger] divm(d, f, g, s)) by { if divm(d, f, g, s) { assert(mem(d, f, s.union(u))); lemma_bound(d, f, s.union(u), l); assert(s.union(u).contains(l)); } }
}
pub proof fn lemma_div_both(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g), d[f] is N, d[g] is N, lv(d, g) == lv(d, f), pure(d, g)
    ensures forall|s: S| #[trigger] divm(d, f, g, s) == (!s.contains(lv(d, f) - 1) && divm(d, k1(d, f), k1(d, g), s) && divm(d, k0(d, f), k0(d, g), s))
{
    lemma_zn(d, f); lemma_zn(d, g); let l = lv(d, f) - 1; let (f0, f1) = (k0(d, f), k1(d, f)); let (g0, g1) = (k0(d, g), k1(d, g));
    assert(node_ok(d, g)) by { reveal(dag_ok); } assert(znode(d, g));
    lemma_bound_all(d, g0); lemma_bound_all(d, g1);
    let t1 = lemma_nonempty(d, g1);
    assert(t1.insert(l).remove(l) =~= t1); assert(mem(d, g, t1.insert(l)));
    assert forall|s: S| #[trigger] divm(d, f, g, s) == (!s.contains(l) && divm(d, f1, g1, s) && divm(d, f0, g0, s)) by {
        if divm(d, f, g, s) {
            assert(s.disjoint(t1.insert(l))); assert(t1.insert(l).contains(l)); assert(!s.contains(l));
            assert forall|u: S| #[trigger] mem(d, g1, u) implies s.disjoint(u) && mem(d, f1, s.union(u)) by {
                let v = u.insert(l); assert(v.remove(l) =~= u); assert(mem(d, g, v)); assert(s.disjoint(v) && mem(d, f, s.union(v))); assert(s.union(v).remove(l) =~= s.union(u));
                assert(s.union(v).contains(l));
                assert forall|x: int| s.contains(x) implies !u.contains(x) by { assert(!v.contains(x)); }
            }
            assert forall|u: S| #[trigger] mem(d, g0, u) implies s.disjoint(u) && mem(d, f0, s.union(u)) by { assert(!u.contains(l)); assert(mem(d, g, u)); assert(!s.union(u).contains(l)); }
        }
        if !s.contains(l) && divm(d, f1, g1, s) && divm(d, f0, g0, s) {
            assert forall|u: S| #[trigger] mem(d, g, u) implies s.disjoint(u) && mem(d, f, s.union(u)) by {
                if u.contains(l) { let v = u.remove(l); assert(mem(d, g1, v)); assert(s.union(u).remove(l) =~= s.union(v)); assert(s.union(u).contains(l));
                    assert forall|x: int| s.contains(x) implies !u.contains(x) by { assert(!v.contains(x)); } }
                else { assert(mem(d, g0, u)); assert(!s.union(u).contains(l)); }
            }
        }
    }
}
pub proof fn lemma_div_one(d: D, f: int, g: int)
    requires d[g] == SN::T(1)
    ensures forall|s: S| #[trigger] divm(d, f, g, s) == mem(d, f, s)
{
    let e = ISet::<int>::empty();
    assert forall|u: S| #[trigger] mem(d, g, u) == (u =~= e) by { reveal_with_fuel(mem, 1); }
    assert(mem(d, g, e));
    assert forall|s: S| #[trigger] divm(d, f, g, s) == mem(d, f, s) by {
        assert(s.union(e) =~= s);
        if mem(d, f, s) { assert forall|u: S| #[trigger] mem(d, g, u) implies s.disjoint(u) && mem(d, f, s.union(u)) by { assert(u =~= e); } }
    }
}
pub proof fn lemma_div_zero(d: D, f: int, g: int)
    requires d[g] == SN::T(0)
    ensures forall|s: S| #[trigger] divm(d, f, g, s)
{ reveal_with_fuel(mem, 1); }
// ---- canonicity
pub open spec fn same_family(d: D, f: int, g: int) -> bool { forall|s: S| #[trigger] mem(d, f, s) == mem(d, g, s) }
pub proof fn lemma_zcanonical(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g), same_family(d, f, g), pure(d, f), pure(d, g),
        forall|i: int, j: int| #[trigger] d.dom().contains(i) && #[trigger] d.dom().contains(j) && same_node(d[i], d[j]) ==> i == j,
    ensures f == g
    decreases lv(d, f) + lv(d, g)
{
    reveal_with_fuel(pure, 1);
    assert(node_ok(d, f) && node_ok(d, g)) by { reveal(dag_ok); }
    assert(znode(d, f) && znode(d, g));
    let e = ISet::<int>::empty();
    match (d[f], d[g]) {
        (SN::T(x), SN::T(y)) => { reveal_with_fuel(mem, 1); assert(mem(d, f, e) == mem(d, g, e)); assert(same_node(d[f], d[g])); }
        (SN::N { level, kids }, SN::N { level: l2, kids: k2 }) => {
            if level == l2 {
                lemma_zn(d, f); lemma_zn(d, g);
                assert(node_ok(d, kids[0]) && node_ok(d, kids[1]) && node_ok(d, k2[0]) && node_ok(d, k2[1])) by { reveal(dag_ok); }
                lemma_bound_all(d, kids[0]); lemma_bound_all(d, k2[0]); lemma_bound_all(d, kids[1]); lemma_bound_all(d, k2[1]);
                assert forall|s: S| #[trigger] mem(d, kids[0], s) == mem(d, k2[0], s) by { assert(mem(d, f, s) == mem(d, g, s)); let b = s.contains(level); }
                assert forall|s: S| #[trigger] mem(d, kids[1], s) == mem(d, k2[1], s) by { let b = s.contains(level); if !b { assert(s.insert(level).remove(level) =~= s); assert(mem(d, f, s.insert(level)) == mem(d, g, s.insert(level))); } }
                lemma_zcanonical(d, kids[0], k2[0]); lemma_zcanonical(d, kids[1], k2[1]);
                assert(kids =~= k2); assert(same_node(d[f], d[g]));
            } else if level > l2 { lemma_ztop(d, f, g); } else { lemma_ztop(d, g, f); }
        }
        (SN::N { level, kids }, SN::T(_)) => { lemma_ztop(d, f, g); }
        (SN::T(_), SN::N { level, kids }) => { lemma_ztop(d, g, f); }
    }
}
pub proof fn lemma_ztop(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g), same_family(d, f, g) || same_family(d, g, f), pure(d, f), d[f] is N, lv(d, f) > lv(d, g)
    ensures false
{
    lemma_zn(d, f); assert(znode(d, f)); assert(node_ok(d, f)) by { reveal(dag_ok); }
    let l = lv(d, f) - 1;
    let t = lemma_nonempty(d, k1(d, f));
    lemma_bound(d, k1(d, f), t, l);
    assert(t.insert(l).remove(l) =~= t);
    assert(mem(d, f, t.insert(l))); assert(mem(d, g, t.insert(l)));
    lemma_bound(d, g, t.insert(l), l);
    assert(t.insert(l).contains(l));
}

// ---------------------------------------------------------------- binary diagrams: assignments from sets, families read with zero-suppressed semantics
//@include mem.vrs
pub open spec fn chi(s: S) -> Asg { |l: int| if s.contains(l) { 1 } else { 0 } }
pub open spec fn two(d: D) -> bool { forall|id: int| #[trigger] d.dom().contains(id) ==> two1(d, id) }
pub open spec fn two1(d: D, id: int) -> bool { match d[id] { SN::T(v) => tv(v), SN::N { kids, .. } => kids.len() == 2 } }
pub open spec fn lo0(d: D, id: int) -> int { d[id]->kids[0] }
pub open spec fn hi1(d: D, id: int) -> int { d[id]->kids[1] }
pub open spec fn lev(d: D, id: int) -> int { d[id]->level }
pub proof fn lemma_bn(d: D, id: int)
    requires dag_ok(d), two(d), d.dom().contains(id), d[id] is N
    ensures d.dom().contains(lo0(d, id)), d.dom().contains(hi1(d, id)), lv(d, id) == lev(d, id) + 1, lev(d, id) >= 0,
        0 <= lv(d, lo0(d, id)) <= lev(d, id), 0 <= lv(d, hi1(d, id)) <= lev(d, id),
        forall|s: S| #[trigger] mem(d, id, s) == (if s.contains(lev(d, id)) { mem(d, hi1(d, id), s.remove(lev(d, id))) } else { mem(d, lo0(d, id), s) }),
        forall|a: Asg| #[trigger] eval(d, id, a) == eval(d, if a(lev(d, id)) == 1 { hi1(d, id) } else { lo0(d, id) }, a),
        pure(d, id) == (pure(d, lo0(d, id)) && pure(d, hi1(d, id))),
{
    reveal_with_fuel(mem, 1); reveal_with_fuel(pure, 1); reveal(dag_ok);
    assert(two1(d, id)); assert(node_ok(d, id)); lemma_nt(d, id);
    match d[id] { SN::N { level, kids } => { assert(d.dom().contains(kids[0])); assert(d.dom().contains(kids[1])); }, _ => {} }
}
pub proof fn lemma_bt(d: D, id: int)
    requires d[id] is T
    ensures lv(d, id) == 0, forall|s: S| #[trigger] mem(d, id, s) == (d[id]->T_0 == 1 && s =~= ISet::empty()), forall|a: Asg| #[trigger] eval(d, id, a) == d[id]->T_0, pure(d, id) == is01(d[id]->T_0)
{ reveal_with_fuel(mem, 1); reveal_with_fuel(pure, 1); reveal_with_fuel(eval, 1); }
pub proof fn lemma_pure_eval(d: D, id: int, a: Asg)
    requires dag_ok(d), two(d), d.dom().contains(id), pure(d, id)
    ensures is01(eval(d, id, a))
    decreases lv(d, id)
{
    if d[id] is N { lemma_bn(d, id); lemma_pure_eval(d, if a(lev(d, id)) == 1 { hi1(d, id) } else { lo0(d, id) }, a); } else { lemma_bt(d, id); }
}
pub proof fn lemma_mbound(d: D, id: int, s: S, l: int)
    requires dag_ok(d), two(d), d.dom().contains(id), mem(d, id, s), l >= lv(d, id)
    ensures !s.contains(l)
    decreases lv(d, id)
{
    if d[id] is N { lemma_bn(d, id); if s.contains(lev(d, id)) { lemma_mbound(d, hi1(d, id), s.remove(lev(d, id)), l); } else { lemma_mbound(d, lo0(d, id), s, l); } } else { lemma_bt(d, id); }
}
// a member of the family makes the function of the same node true
pub proof fn lemma_mem_eval(d: D, id: int, s: S)
    requires dag_ok(d), two(d), d.dom().contains(id), mem(d, id, s)
    ensures eval(d, id, chi(s)) == 1
    decreases lv(d, id)
{
    if d[id] is N {
        lemma_bn(d, id); let x = lev(d, id);
        if s.contains(x) { lemma_mem_eval(d, hi1(d, id), s.remove(x)); lemma_chi(d, hi1(d, id), s, x); } else { lemma_mem_eval(d, lo0(d, id), s); }
    } else { lemma_bt(d, id); }
}
// an element at or above the top of the diagram does not matter
pub proof fn lemma_chi(d: D, id: int, s: S, x: int)
    requires dag_ok(d), d.dom().contains(id), lv(d, id) <= x
    ensures eval(d, id, chi(s.remove(x))) == eval(d, id, chi(s)), eval(d, id, chi(s.insert(x))) == eval(d, id, chi(s))
{
    lemma_indep(d, id, x, 0, chi(s)); lemma_indep(d, id, x, 1, chi(s));
    assert(with(chi(s), x, 0) =~= chi(s.remove(x))); assert(with(chi(s), x, 1) =~= chi(s.insert(x)));
}
// only "is it 1" matters of an assignment
pub proof fn lemma_bin(d: D, id: int, a: Asg, b: Asg)
    requires dag_ok(d), two(d), d.dom().contains(id), forall|l: int| (#[trigger] a(l) == 1) == (b(l) == 1)
    ensures eval(d, id, a) == eval(d, id, b)
    decreases lv(d, id)
{
    if d[id] is N { lemma_bn(d, id); let x = lev(d, id); assert((a(x) == 1) == (b(x) == 1)); lemma_bin(d, if a(x) == 1 { hi1(d, id) } else { lo0(d, id) }, a, b); } else { lemma_bt(d, id); }
}
pub open spec fn ones(a: Asg) -> S { ISet::new(|l: int| a(l) == 1) }
pub proof fn lemma_ones(d: D, id: int, a: Asg)
    requires dag_ok(d), two(d), d.dom().contains(id)
    ensures eval(d, id, a) == eval(d, id, chi(ones(a)))
{ lemma_bin(d, id, a, chi(ones(a))); }
// ---- the store grows: live nodes stay, and so does everything they mean
pub open spec fn grown(d: D, d2: D) -> bool { dag_ok(d) && two(d) && forall|id: int| #[trigger] d.dom().contains(id) ==> d2.dom().contains(id) && d2[id] == d[id] }
#[verifier::opaque]
pub open spec fn fext(d: D, d2: D) -> bool {
    &&& forall|id: int| #[trigger] d.dom().contains(id) ==> d2.dom().contains(id) && d2[id] == d[id]
    &&& forall|id: int, a: Asg| d.dom().contains(id) ==> #[trigger] eval(d2, id, a) == eval(d, id, a)
    &&& forall|id: int, s: S| d.dom().contains(id) ==> #[trigger] mem(d2, id, s) == mem(d, id, s)
    &&& forall|id: int| d.dom().contains(id) ==> #[trigger] pure(d2, id) == pure(d, id)
}
pub proof fn lemma_mp_same(d: D, d2: D, id: int, s: S)
    requires grown(d, d2), d.dom().contains(id)
    ensures mem(d2, id, s) == mem(d, id, s), pure(d2, id) == pure(d, id)
    decreases lv(d, id)
{
    reveal_with_fuel(mem, 1); reveal_with_fuel(pure, 1);
    if d[id] is N { lemma_bn(d, id); let x = lev(d, id); lemma_mp_same(d, d2, lo0(d, id), s); lemma_mp_same(d, d2, hi1(d, id), s.remove(x)); } else { lemma_bt(d, id); }
}
pub proof fn lemma_fext(d: D, d2: D)
    requires grown(d, d2)
    ensures fext(d, d2)
{
    reveal(fext); lemma_ext(d, d2);
    assert forall|id: int, s: S| d.dom().contains(id) implies #[trigger] mem(d2, id, s) == mem(d, id, s) by { lemma_mp_same(d, d2, id, s); }
    assert forall|id: int| d.dom().contains(id) implies #[trigger] pure(d2, id) == pure(d, id) by { lemma_mp_same(d, d2, id, ISet::empty()); }
}

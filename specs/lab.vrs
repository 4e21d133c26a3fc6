// ---------------------------------------------------------------- sparse vectors with labels held as zero-suppressed diagrams
pub open spec fn zeroes(a: Asg) -> bool { forall|l: int| #[trigger] a(l) == 0 }
// the label of the state vector a, 0 when a is not a member; a variable not mentioned on the path must have the value 0
#[verifier::opaque]
pub open spec fn lk(d: D, id: int, a: Asg) -> int
    decreases (if lv(d, id) >= 0 { lv(d, id) } else { 0 })
{
    match d[id] {
        SN::T(v) => if zeroes(a) { v } else { 0 },
        SN::N { level, kids } => {
            let c = a(level);
            if 0 <= c < kids.len() && 0 <= lv(d, kids[c]) < lv(d, id) { lk(d, kids[c], if c == 0 { a } else { with(a, level, 0) }) } else { 0 }
        }
    }
}
pub open spec fn lkid(d: D, kids: Seq<int>, level: int, a: Asg) -> int {
    let c = a(level);
    if c == 0 { lk(d, kids[0], a) } else if 0 < c < kids.len() { lk(d, kids[c], with(a, level, 0)) } else { 0 }
}
pub open spec fn lnode(d: D, id: int) -> bool {
    match d[id] { SN::T(v) => v == 0 ==> id == 0, SN::N { level, kids } => exists|c: int| 1 <= c < kids.len() && #[trigger] kids[c] != 0 }
}
// zero-suppressed: every node has a non-empty edge besides its 0-edge
pub open spec fn lred(d: D) -> bool {
    d.dom().contains(0) && d[0] == SN::T(0) && forall|id: int| #[trigger] d.dom().contains(id) ==> lnode(d, id)
}
pub open spec fn lext(d: D, d2: D) -> bool {
    &&& ext(d, d2)
    &&& forall|id: int, a: Asg| d.dom().contains(id) ==> #[trigger] lk(d2, id, a) == lk(d, id, a)
}
pub proof fn lemma_lsame(d: D, d2: D, id: int, a: Asg)
    requires dag_ok(d), d.dom().contains(id), forall|i: int| #[trigger] d.dom().contains(i) ==> d2[i] == d[i],
    ensures lk(d2, id, a) == lk(d, id, a)
    decreases lv(d, id)
{
    reveal_with_fuel(lk, 1); reveal(dag_ok); assert(node_ok(d, id));
    match d[id] { SN::T(_) => {}, SN::N { level, kids } => {
        let c = a(level);
        if 0 <= c < kids.len() { assert(d.dom().contains(kids[c])); lemma_lsame(d, d2, kids[c], if c == 0 { a } else { with(a, level, 0) }); }
    } }
}
pub proof fn lemma_lext(d: D, d2: D)
    requires dag_ok(d), forall|i: int| #[trigger] d.dom().contains(i) ==> d2.dom().contains(i) && d2[i] == d[i],
    ensures lext(d, d2)
{
    lemma_ext(d, d2);
    assert forall|id: int, a: Asg| d.dom().contains(id) implies #[trigger] lk(d2, id, a) == lk(d, id, a) by { lemma_lsame(d, d2, id, a); }
}
pub proof fn lemma_lnt(d: D, id: int)
    requires dag_ok(d), d.dom().contains(id), d[id] is N
    ensures d[id] matches SN::N { level, kids } && (forall|c: int| 0 <= c < kids.len() ==> d.dom().contains(#[trigger] kids[c]) && 0 <= lv(d, kids[c]) <= level) && kids.len() > 0
        && (forall|a: Asg| #[trigger] lk(d, id, a) == lkid(d, kids, level, a))
{
    reveal_with_fuel(lk, 1); reveal(dag_ok); assert(node_ok(d, id));
    match d[id] { SN::N { level, kids } => {
        assert forall|a: Asg| #[trigger] lk(d, id, a) == lkid(d, kids, level, a) by { let c = a(level); if 0 <= c < kids.len() { assert(d.dom().contains(kids[c])); } }
    }, _ => {} }
}
// a member has the value 0 at every level the diagram does not reach
pub proof fn lemma_lbound1(d: D, id: int, a: Asg, l: int)
    requires dag_ok(d), d.dom().contains(id), l >= lv(d, id), a(l) != 0
    ensures lk(d, id, a) == 0
    decreases lv(d, id)
{
    reveal_with_fuel(lk, 1);
    match d[id] { SN::T(_) => {}, SN::N { level, kids } => {
        lemma_lnt(d, id);
        let c = a(level);
        if 0 <= c < kids.len() { assert(d.dom().contains(kids[c])); lemma_lbound1(d, kids[c], if c == 0 { a } else { with(a, level, 0) }, l); }
    } }
}
pub proof fn lemma_lbound(d: D, id: int)
    requires dag_ok(d), d.dom().contains(id)
    ensures forall|a: Asg, l: int| #![trigger lk(d, id, a), a(l)] l >= lv(d, id) && a(l) != 0 ==> lk(d, id, a) == 0
{
    assert forall|a: Asg, l: int| #![trigger lk(d, id, a), a(l)] l >= lv(d, id) && a(l) != 0 implies lk(d, id, a) == 0 by { lemma_lbound1(d, id, a, l); }
}
pub proof fn lemma_lterm(d: D, id: int)
    requires d[id] is T
    ensures d[id] matches SN::T(v) && forall|a: Asg| #[trigger] lk(d, id, a) == if zeroes(a) { v } else { 0 }
{ reveal_with_fuel(lk, 1); }
// only the empty diagram has no member
pub proof fn lemma_lsome(d: D, id: int) -> (a: Asg)
    requires dag_ok(d), lred(d), d.dom().contains(id), id != 0
    ensures lk(d, id, a) != 0
    decreases lv(d, id)
{
    assert(lnode(d, id));
    match d[id] { SN::T(_) => { lemma_lterm(d, id); |l: int| 0int }, SN::N { level, kids } => {
        lemma_lnt(d, id);
        let c = choose|c: int| 1 <= c < kids.len() && #[trigger] kids[c] != 0;
        let b = lemma_lsome(d, kids[c]);
        lemma_lbound1(d, kids[c], with(b, level, 1), level);
        let a = with(b, level, c);
        if b(level) != 0 { lemma_lbound1(d, kids[c], b, level); }
        assert(with(a, level, 0) =~= b);
        assert(a(level) == c);
        assert(lk(d, id, a) == lkid(d, kids, level, a));
        a
    } }
}
pub open spec fn same_lab(d: D, f: int, g: int) -> bool { forall|a: Asg| #[trigger] lk(d, f, a) == lk(d, g, a) }
#[verifier::spinoff_prover]
pub proof fn lemma_lcanonical(d: D, ar: spec_fn(int) -> int, f: int, g: int)
    requires dag_ok(d), lred(d), uniform(d, ar), d.dom().contains(f), d.dom().contains(g), same_lab(d, f, g),
        forall|i: int, j: int| #[trigger] d.dom().contains(i) && #[trigger] d.dom().contains(j) && same_node(d[i], d[j]) ==> i == j,
    ensures f == g
    decreases lv(d, f) + lv(d, g)
{
    assert(node_ok(d, f) && node_ok(d, g)) by { reveal(dag_ok); }
    assert(lnode(d, f) && lnode(d, g));
    match (d[f], d[g]) {
        (SN::T(x), SN::T(y)) => { lemma_lterm(d, f); lemma_lterm(d, g); let e: Asg = |l: int| 0int; assert(lk(d, f, e) == lk(d, g, e)); assert(zeroes(e)); assert(same_node(d[f], d[g])); }
        (SN::N { level, kids }, SN::N { level: l2, kids: k2 }) => {
            if level == l2 {
                assert(node_arity(d, f, ar) && node_arity(d, g, ar));
                lemma_lnt(d, f); lemma_lnt(d, g);
                assert forall|c: int| 0 <= c < kids.len() implies kids[c] == k2[c] by {
                    assert(d.dom().contains(kids[c]) && d.dom().contains(k2[c]));
                    assert forall|a: Asg| #[trigger] lk(d, kids[c], a) == lk(d, k2[c], a) by {
                        if a(level) != 0 { lemma_lbound1(d, kids[c], a, level); lemma_lbound1(d, k2[c], a, level); }
                        else { let b = with(a, level, c); assert(with(b, level, 0) =~= a); assert(lk(d, f, b) == lk(d, g, b)); assert(b(level) == c); if c == 0 { assert(b =~= a); } }
                    }
                    lemma_lcanonical(d, ar, kids[c], k2[c]);
                }
                assert(kids =~= k2);
                assert(same_node(d[f], d[g]));
            } else if level > l2 { lemma_ltop(d, f, g); } else { lemma_ltop(d, g, f); }
        }
        (SN::N { level, kids }, SN::T(_)) => { lemma_ltop(d, f, g); }
        (SN::T(_), SN::N { level, kids }) => { lemma_ltop(d, g, f); }
    }
}
pub proof fn lemma_ltop(d: D, f: int, g: int)
    requires dag_ok(d), lred(d), d.dom().contains(f), d.dom().contains(g), same_lab(d, f, g) || same_lab(d, g, f), d[f] is N, lv(d, f) > lv(d, g)
    ensures false
{
    lemma_lnt(d, f); assert(lnode(d, f));
    match d[f] { SN::N { level, kids } => {
        let c = choose|c: int| 1 <= c < kids.len() && #[trigger] kids[c] != 0;
        let b = lemma_lsome(d, kids[c]);
        let a = with(b, level, c);
        if b(level) != 0 { lemma_lbound1(d, kids[c], b, level); }
        assert(with(a, level, 0) =~= b);
        assert(a(level) == c);
        assert(lk(d, f, a) != 0);
        lemma_lbound1(d, g, a, level);
        assert(lk(d, f, a) == lk(d, g, a));
    }, _ => {} }
}

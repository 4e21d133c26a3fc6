// ---------------------------------------------------------------- families of state vectors and minimal vectors
// which diagrams: values or Booleans; read upwards from the lowest states or downwards from the highest
pub struct MS { pub vk: bool, pub up: bool, pub h: Seq<NodeHeader> }
pub open spec fn ar(k: MS, l: int) -> int { if arity(k.h, l) > 0 { arity(k.h, l) } else { 1 } }
// the state a skipped variable is in, and the next state towards it
pub open spec fn bs(k: MS, l: int) -> int { if k.up { ar(k, l) - 1 } else { 0 } }
pub open spec fn nxt(k: MS, c: int) -> int { if k.up { c + 1 } else { c - 1 } }
pub open spec fn inr(k: MS, a: Asg) -> bool { forall|l: int| 0 <= #[trigger] a(l) < ar(k, l) }
pub open spec fn stp(k: MS, a: Asg, l: int) -> Asg { with(a, l, nxt(k, a(l))) }
pub open spec fn und(k: MS) -> int { if k.vk { 0 } else { 2 } }
pub open spec fn isl(k: MS, x: int) -> bool { if k.vk { x != 0 } else { x == 1 } }
// the label under which a vector of this value is filed
pub open spec fn tgt(k: MS, x: int) -> int { if k.vk { x } else if k.up { if x == 0 { 1 } else { 2 } } else if x == 1 { 1 } else { 2 } }
pub open spec fn det(k: MS, x: int) -> bool { if k.vk { x != 0 } else { x == 0 || x == 1 } }
pub open spec fn leq(k: MS, x: int, y: int) -> bool { if k.vk { dec(x) <= dec(y) } else { x <= y } }
pub open spec fn atb(k: MS, a: Asg, lo: int, n: int) -> bool { forall|l: int| lo <= l < n ==> #[trigger] a(l) == bs(k, l) }
// the label of the vector a (variables below level n) in the family at id; a variable not mentioned must be in its base state
#[verifier::opaque]
pub open spec fn lab(k: MS, d: D, id: int, a: Asg, n: int) -> int
    decreases (if lv(d, id) >= 0 { lv(d, id) } else { 0 })
{
    match d[id] {
        SN::T(v) => if isl(k, v) && atb(k, a, 0, n) { v } else { und(k) },
        SN::N { level, kids } => {
            let c = sel(kids, a(level));
            if 0 <= lv(d, c) < lv(d, id) && atb(k, a, level + 1, n) { lab(k, d, c, a, level) } else { und(k) }
        }
    }
}
#[verifier::opaque]
pub open spec fn dk(k: MS, d: D) -> bool {
    &&& dag_ok(d)
    &&& forall|id: int| #[trigger] d.dom().contains(id) ==> (match d[id] { SN::N { level, kids } => kids.len() == ar(k, level), SN::T(v) => k.vk || v == 0 || v == 1 || v == 2 })
}
pub open spec fn top(d: D, id: int) -> int { match d[id] { SN::N { level, .. } => level, _ => -1 } }
pub open spec fn kid(d: D, id: int, c: int) -> int { match d[id] { SN::N { kids, .. } => kids[c], _ => id } }
pub proof fn lemma_mn(k: MS, d: D, id: int)
    requires dk(k, d), d.dom().contains(id), d[id] is N
    ensures top(d, id) >= 0, lv(d, id) == top(d, id) + 1, ar(k, top(d, id)) >= 1,
        forall|c: int| 0 <= c < ar(k, top(d, id)) ==> d.dom().contains(#[trigger] kid(d, id, c)) && 0 <= lv(d, kid(d, id, c)) <= top(d, id),
        forall|a: Asg| inr(k, a) ==> #[trigger] eval(d, id, a) == eval(d, kid(d, id, a(top(d, id))), a),
        forall|a: Asg, n: int| inr(k, a) ==> #[trigger] lab(k, d, id, a, n) == (if atb(k, a, top(d, id) + 1, n) { lab(k, d, kid(d, id, a(top(d, id))), a, top(d, id)) } else { und(k) }),
{
    reveal(dk); reveal(dag_ok); reveal_with_fuel(eval, 1); reveal_with_fuel(lab, 1);
    assert(node_ok(d, id));
    lemma_nt(d, id);
    assert forall|a: Asg, n: int| inr(k, a) implies #[trigger] lab(k, d, id, a, n) == (if atb(k, a, top(d, id) + 1, n) { lab(k, d, kid(d, id, a(top(d, id))), a, top(d, id)) } else { und(k) }) by { lemma_sel(d, id, a(top(d, id))); }
}
pub proof fn lemma_mt(k: MS, d: D, id: int)
    requires dk(k, d), d.dom().contains(id), d[id] is T
    ensures lv(d, id) == 0, forall|a: Asg| #[trigger] eval(d, id, a) == d[id]->T_0, k.vk || tv(d[id]->T_0),
        forall|a: Asg, n: int| #[trigger] lab(k, d, id, a, n) == (if isl(k, d[id]->T_0) && atb(k, a, 0, n) { d[id]->T_0 } else { und(k) }),
{ reveal(dk); reveal_with_fuel(eval, 1); reveal_with_fuel(lab, 1); }
pub proof fn lemma_mlv(k: MS, d: D, id: int)
    requires dk(k, d), d.dom().contains(id)
    ensures lv(d, id) >= 0
{ if d[id] is N { lemma_mn(k, d, id); } else { lemma_mt(k, d, id); } }
// more variables above
pub proof fn lemma_lift(k: MS, d: D, id: int, a: Asg, m: int, n: int)
    requires dk(k, d), d.dom().contains(id), inr(k, a), lv(d, id) <= m <= n
    ensures lab(k, d, id, a, n) == (if atb(k, a, m, n) { lab(k, d, id, a, m) } else { und(k) })
{ if d[id] is N { lemma_mn(k, d, id); } else { lemma_mt(k, d, id); } }
// only the variables below matter
pub proof fn lemma_cong(k: MS, d: D, id: int, a: Asg, b: Asg, n: int)
    requires dk(k, d), d.dom().contains(id), inr(k, a), inr(k, b), lv(d, id) <= n, forall|l: int| 0 <= l < n ==> #[trigger] a(l) == b(l)
    ensures lab(k, d, id, a, n) == lab(k, d, id, b, n), eval(d, id, a) == eval(d, id, b)
    decreases lv(d, id)
{
    if d[id] is N {
        lemma_mn(k, d, id);
        let l = top(d, id);
        assert(a(l) == b(l));
        lemma_cong(k, d, kid(d, id, a(l)), a, b, l);
        if atb(k, a, l + 1, n) { assert forall|x: int| l + 1 <= x < n implies #[trigger] b(x) == bs(k, x) by { assert(a(x) == b(x)); } }
        if atb(k, b, l + 1, n) { assert forall|x: int| l + 1 <= x < n implies #[trigger] a(x) == bs(k, x) by { assert(a(x) == b(x)); } }
    } else {
        lemma_mt(k, d, id);
        if atb(k, a, 0, n) { assert forall|x: int| 0 <= x < n implies #[trigger] b(x) == bs(k, x) by { assert(a(x) == b(x)); } }
        if atb(k, b, 0, n) { assert forall|x: int| 0 <= x < n implies #[trigger] a(x) == bs(k, x) by { assert(a(x) == b(x)); } }
    }
}
pub proof fn lemma_lab_same(k: MS, d: D, d2: D, id: int, a: Asg, n: int)
    requires dk(k, d), d.dom().contains(id), ext(d, d2)
    ensures lab(k, d2, id, a, n) == lab(k, d, id, a, n)
    decreases lv(d, id)
{
    reveal_with_fuel(lab, 1);
    reveal(dk); 
    if d[id] is N { lemma_mn(k, d, id); lemma_sel(d, id, a(top(d, id))); let c = sel(d[id]->N_kids, a(top(d, id))); lemma_lab_same(k, d, d2, c, a, top(d, id)); }
}
#[verifier::opaque]
pub open spec fn mext(k: MS, d: D, d2: D) -> bool {
    &&& dk(k, d) && dk(k, d2) && ext(d, d2)
    &&& forall|id: int, a: Asg, n: int| d.dom().contains(id) ==> #[trigger] lab(k, d2, id, a, n) == lab(k, d, id, a, n)
}
pub proof fn lemma_mext(k: MS, d: D, d2: D)
    requires dk(k, d), dk(k, d2), ext(d, d2)
    ensures mext(k, d, d2)
{ reveal(mext); assert forall|id: int, a: Asg, n: int| d.dom().contains(id) implies #[trigger] lab(k, d2, id, a, n) == lab(k, d, id, a, n) by { lemma_lab_same(k, d, d2, id, a, n); } }
// ---- what the recursion computes
// stepping any one variable towards its base state changes the label
pub open spec fn min1(k: MS, d: D, f: int, a: Asg, n: int) -> bool { forall|l: int| 0 <= l < n && #[trigger] a(l) != bs(k, l) ==> tgt(k, eval(d, f, stp(k, a, l))) != tgt(k, eval(d, f, a)) }
pub open spec fn mlab(k: MS, d: D, f: int, a: Asg, n: int) -> int { if min1(k, d, f, a, n) { tgt(k, eval(d, f, a)) } else { und(k) } }
pub open spec fn plab(k: MS, d: D, f: int, c: int, a: Asg, n: int) -> int {
    let m = mlab(k, d, kid(d, f, c), a, n);
    if c != bs(k, top(d, f)) && tgt(k, eval(d, kid(d, f, nxt(k, c)), a)) == m { und(k) } else { m }
}
// v is the family of the minimal vectors of f
#[verifier::opaque]
pub open spec fn mso(k: MS, d: D, f: int, v: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(v) && lv(d, v) <= lv(d, f)
    &&& forall|a: Asg, n: int| inr(k, a) && n >= lv(d, f) ==> #[trigger] lab(k, d, v, a, n) == mlab(k, d, f, a, n)
}
// v is the part of that family with the top variable in state c
#[verifier::opaque]
pub open spec fn part(k: MS, d: D, f: int, c: int, v: int) -> bool {
    &&& d.dom().contains(v) && lv(d, v) <= top(d, f)
    &&& forall|a: Asg, n: int| inr(k, a) && n >= top(d, f) ==> #[trigger] lab(k, d, v, a, n) == plab(k, d, f, c, a, n)
}
// v holds the members of g whose label f does not give them
#[verifier::opaque]
pub open spec fn wo(k: MS, d: D, f: int, g: int, v: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(v) && lv(d, v) <= lv(d, g)
    &&& forall|a: Asg, n: int| inr(k, a) && n >= lv(d, f) && n >= lv(d, g) ==> #[trigger] lab(k, d, v, a, n) == (if tgt(k, eval(d, f, a)) == lab(k, d, g, a, n) { und(k) } else { lab(k, d, g, a, n) })
}
// no member steps to another of the same label
#[verifier::opaque]
pub open spec fn anti(k: MS, d: D, g: int) -> bool {
    forall|a: Asg, l: int| #![trigger lab(k, d, g, stp(k, a, l), lv(d, g))] inr(k, a) && 0 <= l < lv(d, g) && a(l) != bs(k, l) && lab(k, d, g, a, lv(d, g)) != und(k) ==> lab(k, d, g, stp(k, a, l), lv(d, g)) != lab(k, d, g, a, lv(d, g))
}
#[verifier::opaque]
pub open spec fn full(k: MS, d: D, f: int) -> bool { forall|a: Asg| inr(k, a) ==> det(k, #[trigger] eval(d, f, a)) }
#[verifier::opaque]
pub open spec fn chain(k: MS, d: D, f: int, g: int) -> bool { forall|a: Asg| #![trigger eval(d, f, a)] inr(k, a) ==> leq(k, eval(d, f, a), eval(d, g, a)) }
#[verifier::opaque]
pub open spec fn monof(k: MS, d: D, f: int) -> bool { forall|a: Asg, l: int| #![trigger with(a, l, a(l) + 1)] inr(k, a) && 0 <= l && a(l) + 1 < ar(k, l) ==> leq(k, eval(d, f, a), eval(d, f, with(a, l, a(l) + 1))) }
pub open spec fn ms(k: MS, d: D, f: int, o: Option<NodeId>) -> bool { match o { Some(v) => (full(k, d, f) ==> monof(k, d, f)) && mso(k, d, f, v as int), None => full(k, d, f) ==> !monof(k, d, f) } }
#[verifier::opaque]
pub open spec fn ms_memo(k: MS, d: D, c: IMap<int, Option<NodeId>>) -> bool { forall|x: int| #[trigger] c.dom().contains(x) ==> d.dom().contains(x) && ms(k, d, x, c[x]) }
#[verifier::opaque]
pub open spec fn wo_memo(k: MS, d: D, c: IMap<(int, int), NodeId>) -> bool { forall|x: (int, int)| #[trigger] c.dom().contains(x) ==> wo(k, d, x.0, x.1, c[x] as int) }
// ---- growing the forest changes none of this
pub broadcast proof fn lemma_wo_ext(k: MS, d: D, d2: D, f: int, g: int, v: int)
    requires #[trigger] mext(k, d, d2), #[trigger] wo(k, d, f, g, v)
    ensures wo(k, d2, f, g, v)
{ reveal(mext); reveal(wo); }
pub proof fn lemma_mlab_ext(k: MS, d: D, d2: D, f: int)
    requires mext(k, d, d2), d.dom().contains(f)
    ensures forall|a: Asg, n: int| #[trigger] mlab(k, d2, f, a, n) == mlab(k, d, f, a, n), d2.dom().contains(f), lv(d2, f) == lv(d, f), d2[f] == d[f]
{
    reveal(mext);
    assert forall|a: Asg, n: int| #[trigger] mlab(k, d2, f, a, n) == mlab(k, d, f, a, n) by {
        assert(eval(d2, f, a) == eval(d, f, a));
        if min1(k, d, f, a, n) { assert forall|l: int| 0 <= l < n && #[trigger] a(l) != bs(k, l) implies tgt(k, eval(d2, f, stp(k, a, l))) != tgt(k, eval(d2, f, a)) by { assert(eval(d2, f, stp(k, a, l)) == eval(d, f, stp(k, a, l))); } }
        if min1(k, d2, f, a, n) { assert forall|l: int| 0 <= l < n && #[trigger] a(l) != bs(k, l) implies tgt(k, eval(d, f, stp(k, a, l))) != tgt(k, eval(d, f, a)) by { assert(eval(d2, f, stp(k, a, l)) == eval(d, f, stp(k, a, l))); } }
    }
}
pub broadcast proof fn lemma_mso_ext(k: MS, d: D, d2: D, f: int, v: int)
    requires #[trigger] mext(k, d, d2), #[trigger] mso(k, d, f, v)
    ensures mso(k, d2, f, v)
{ reveal(mso); lemma_mlab_ext(k, d, d2, f); lemma_mlab_ext(k, d, d2, v); reveal(mext); 
  assert forall|a: Asg, n: int| inr(k, a) && n >= lv(d2, f) implies #[trigger] lab(k, d2, v, a, n) == mlab(k, d2, f, a, n) by { assert(lab(k, d2, v, a, n) == lab(k, d, v, a, n)); assert(mlab(k, d2, f, a, n) == mlab(k, d, f, a, n)); } }
pub broadcast proof fn lemma_part_ext(k: MS, d: D, d2: D, f: int, c: int, v: int)
    requires #[trigger] mext(k, d, d2), #[trigger] part(k, d, f, c, v), d.dom().contains(f), d[f] is N, 0 <= c < ar(k, top(d, f))
    ensures part(k, d2, f, c, v)
{
    reveal(part); reveal(mext);
    lemma_mn(k, d, f); lemma_mlab_ext(k, d, d2, f); lemma_mlab_ext(k, d, d2, v); lemma_mlab_ext(k, d, d2, kid(d, f, c));
    assert forall|a: Asg, n: int| inr(k, a) && n >= top(d2, f) implies #[trigger] lab(k, d2, v, a, n) == plab(k, d2, f, c, a, n) by {
        assert(lab(k, d2, v, a, n) == lab(k, d, v, a, n)); assert(mlab(k, d2, kid(d, f, c), a, n) == mlab(k, d, kid(d, f, c), a, n));
        if c != bs(k, top(d, f)) { let q = kid(d, f, nxt(k, c)); assert(d.dom().contains(q)); assert(eval(d2, q, a) == eval(d, q, a)); }
    }
}
pub broadcast proof fn lemma_anti_ext(k: MS, d: D, d2: D, g: int)
    requires #[trigger] mext(k, d, d2), d.dom().contains(g), #[trigger] anti(k, d, g)
    ensures anti(k, d2, g)
{ reveal(mext); reveal(anti); assert forall|a: Asg, l: int| #![trigger lab(k, d2, g, stp(k, a, l), lv(d2, g))] inr(k, a) && 0 <= l < lv(d2, g) && a(l) != bs(k, l) && lab(k, d2, g, a, lv(d2, g)) != und(k) implies lab(k, d2, g, stp(k, a, l), lv(d2, g)) != lab(k, d2, g, a, lv(d2, g)) by { assert(lab(k, d, g, stp(k, a, l), lv(d, g)) != lab(k, d, g, a, lv(d, g))); } }
pub broadcast proof fn lemma_full_ext(k: MS, d: D, d2: D, f: int)
    requires #[trigger] mext(k, d, d2), d.dom().contains(f)
    ensures #[trigger] full(k, d2, f) == full(k, d, f)
{
    reveal(mext); reveal(full);
    if full(k, d, f) { assert forall|a: Asg| inr(k, a) implies det(k, #[trigger] eval(d2, f, a)) by { assert(eval(d2, f, a) == eval(d, f, a)); } }
    if full(k, d2, f) { assert forall|a: Asg| inr(k, a) implies det(k, #[trigger] eval(d, f, a)) by { assert(eval(d2, f, a) == eval(d, f, a)); } }
}
pub broadcast proof fn lemma_mono_ext(k: MS, d: D, d2: D, f: int)
    requires #[trigger] mext(k, d, d2), d.dom().contains(f)
    ensures #[trigger] monof(k, d2, f) == monof(k, d, f)
{
    reveal(mext); reveal(monof);
    if monof(k, d, f) { assert forall|a: Asg, l: int| #![trigger with(a, l, a(l) + 1)] inr(k, a) && 0 <= l && a(l) + 1 < ar(k, l) implies leq(k, eval(d2, f, a), eval(d2, f, with(a, l, a(l) + 1))) by { assert(eval(d2, f, a) == eval(d, f, a)); assert(eval(d2, f, with(a, l, a(l) + 1)) == eval(d, f, with(a, l, a(l) + 1))); } }
    if monof(k, d2, f) { assert forall|a: Asg, l: int| #![trigger with(a, l, a(l) + 1)] inr(k, a) && 0 <= l && a(l) + 1 < ar(k, l) implies leq(k, eval(d, f, a), eval(d, f, with(a, l, a(l) + 1))) by { assert(eval(d2, f, a) == eval(d, f, a)); assert(eval(d2, f, with(a, l, a(l) + 1)) == eval(d, f, with(a, l, a(l) + 1))); } }
}
pub broadcast proof fn lemma_chain_ext(k: MS, d: D, d2: D, f: int, g: int)
    requires #[trigger] mext(k, d, d2), d.dom().contains(f), d.dom().contains(g)
    ensures #[trigger] chain(k, d2, f, g) == chain(k, d, f, g)
{
    reveal(mext); reveal(chain);
    if chain(k, d, f, g) { assert forall|a: Asg| #![trigger eval(d2, f, a)] inr(k, a) implies leq(k, eval(d2, f, a), eval(d2, g, a)) by { assert(eval(d2, f, a) == eval(d, f, a)); assert(eval(d2, g, a) == eval(d, g, a)); } }
    if chain(k, d2, f, g) { assert forall|a: Asg| #![trigger eval(d, f, a)] inr(k, a) implies leq(k, eval(d, f, a), eval(d, g, a)) by { assert(eval(d2, f, a) == eval(d, f, a)); assert(eval(d2, g, a) == eval(d, g, a)); } }
}
pub broadcast proof fn lemma_ms_ext(k: MS, d: D, d2: D, f: int, o: Option<NodeId>)
    requires #[trigger] mext(k, d, d2), d.dom().contains(f), #[trigger] ms(k, d, f, o)
    ensures ms(k, d2, f, o)
{ lemma_full_ext(k, d, d2, f); lemma_mono_ext(k, d, d2, f); match o { Some(v) => { lemma_mso_ext(k, d, d2, f, v as int); }, None => {} } }
pub broadcast proof fn lemma_ms_memo_ext(k: MS, d: D, d2: D, c: IMap<int, Option<NodeId>>)
    requires #[trigger] mext(k, d, d2), #[trigger] ms_memo(k, d, c)
    ensures ms_memo(k, d2, c)
{ reveal(ms_memo); assert forall|x: int| #[trigger] c.dom().contains(x) implies d2.dom().contains(x) && ms(k, d2, x, c[x]) by { assert(ms(k, d, x, c[x])); lemma_ms_ext(k, d, d2, x, c[x]); reveal(mext); } }
pub broadcast proof fn lemma_wo_memo_ext(k: MS, d: D, d2: D, c: IMap<(int, int), NodeId>)
    requires #[trigger] mext(k, d, d2), #[trigger] wo_memo(k, d, c)
    ensures wo_memo(k, d2, c)
{ reveal(wo_memo); assert forall|x: (int, int)| #[trigger] c.dom().contains(x) implies wo(k, d2, x.0, x.1, c[x] as int) by { assert(wo(k, d, x.0, x.1, c[x] as int)); lemma_wo_ext(k, d, d2, x.0, x.1, c[x] as int); } }
pub broadcast proof fn lemma_wo_lv(k: MS, d: D, f: int, g: int, v: int)
    requires #[trigger] wo(k, d, f, g, v)
    ensures lv(d, v) <= lv(d, g), d.dom().contains(v), d.dom().contains(f), d.dom().contains(g)
{ reveal(wo); }
// ---- building a node
// ns are the families for the states of the variable at level x; a common family is empty
pub proof fn lemma_fam_built(k: MS, d: D, x: int, ns: Seq<usize>, r: int)
    requires dk(k, d), mbuilt(d, x, ns, r), ns.len() == ar(k, x), x >= 0, d.dom().contains(r),
        forall|c: int| 0 <= c < ns.len() ==> d.dom().contains(#[trigger] ns[c] as int) && lv(d, ns[c] as int) <= x,
        ns.len() > 1 && (forall|c: int| 0 <= c < ns.len() ==> #[trigger] ns[c] == ns[0]) ==> (forall|a: Asg| inr(k, a) ==> #[trigger] lab(k, d, ns[0] as int, a, x) == und(k)),
    ensures lv(d, r) <= x + 1, forall|a: Asg, n: int| inr(k, a) && n > x ==> #[trigger] lab(k, d, r, a, n) == (if atb(k, a, x + 1, n) { lab(k, d, ns[a(x)] as int, a, x) } else { und(k) })
{
    reveal(mbuilt);
    if r == ns[0] && (forall|c: int| 0 <= c < ns.len() ==> #[trigger] ns[c] == ns[0]) {
        assert forall|a: Asg, n: int| inr(k, a) && n > x implies #[trigger] lab(k, d, r, a, n) == (if atb(k, a, x + 1, n) { lab(k, d, ns[a(x)] as int, a, x) } else { und(k) }) by {
            lemma_lift(k, d, r, a, x, n);
            assert(0 <= a(x) < ar(k, x)); assert(ns[a(x)] == ns[0]);
            if atb(k, a, x, n) { assert(atb(k, a, x + 1, n)); }
            if ns.len() == 1 { assert(a(x) == bs(k, x)); if atb(k, a, x + 1, n) { assert forall|l: int| x <= l < n implies #[trigger] a(l) == bs(k, l) by { if l == x {} } } }
            else { assert(lab(k, d, ns[0] as int, a, x) == und(k)); }
        }
    } else {
        lemma_mn(k, d, r);
        assert forall|a: Asg, n: int| inr(k, a) && n > x implies #[trigger] lab(k, d, r, a, n) == (if atb(k, a, x + 1, n) { lab(k, d, ns[a(x)] as int, a, x) } else { und(k) }) by { assert(0 <= a(x) < ar(k, x)); assert(ns[a(x)] == kid(d, r, a(x))); }
    }
}
// ---- difference
pub open spec fn wants(k: MS, f: int, g: int) -> bool { true }
pub broadcast proof fn lemma_wo_base(k: MS, d: D, f: int, g: int, u: int)
    requires dk(k, d), d.dom().contains(f), d.dom().contains(g), d.dom().contains(u), d[u] == SN::T(und(k))
    ensures #![trigger wants(k, f, g), dk(k, d), d.dom().contains(u)]
        d[f] is T && !isl(k, tgt(k, d[f]->T_0)) ==> wo(k, d, f, g, g),
        d[g] is T && !isl(k, d[g]->T_0) ==> wo(k, d, f, g, u),
        d[f] is T && d[g] is T && tgt(k, d[f]->T_0) == d[g]->T_0 ==> wo(k, d, f, g, u),
        d[f] is T && d[g] is T && tgt(k, d[f]->T_0) != d[g]->T_0 ==> wo(k, d, f, g, g),
        !k.vk && d[f] is T && tgt(k, d[f]->T_0) == 1 ==> wo(k, d, f, g, u),
        lv(d, u) == 0,
{
    reveal(wo);
    lemma_mt(k, d, u); lemma_mlv(k, d, g);
    if d[f] is T { lemma_mt(k, d, f); }
    if d[g] is T { lemma_mt(k, d, g); }
    assert forall|a: Asg, n: int| !k.vk implies #[trigger] lab(k, d, g, a, n) == 1 || lab(k, d, g, a, n) == 2 by { lemma_lab_bool(k, d, g, a, n); }
}
pub proof fn lemma_lab_bool(k: MS, d: D, g: int, a: Asg, n: int)
    requires dk(k, d), d.dom().contains(g), !k.vk
    ensures lab(k, d, g, a, n) == 1 || lab(k, d, g, a, n) == 2
    decreases lv(d, g)
{
    reveal_with_fuel(lab, 1); reveal(dk);
    if d[g] is N { lemma_mn(k, d, g); lemma_sel(d, g, a(top(d, g))); lemma_lab_bool(k, d, sel(d[g]->N_kids, a(top(d, g))), a, top(d, g)); }
}
// g lies below f: its members have f's variable in the base state
pub broadcast proof fn lemma_wo_skip(k: MS, d: D, f: int, g: int, b: int, v: int)
    requires dk(k, d), d.dom().contains(f), d[f] is N, lv(d, g) < lv(d, f), b == kid(d, f, bs(k, top(d, f))), #[trigger] wo(k, d, b, g, v), #[trigger] wants(k, f, g)
    ensures wo(k, d, f, g, v)
{
    reveal(wo);
    lemma_mn(k, d, f);
    let x = top(d, f);
    assert forall|a: Asg, n: int| inr(k, a) && n >= lv(d, f) && n >= lv(d, g) implies #[trigger] lab(k, d, v, a, n) == (if tgt(k, eval(d, f, a)) == lab(k, d, g, a, n) { und(k) } else { lab(k, d, g, a, n) }) by {
        lemma_lift(k, d, g, a, x, n);
        if a(x) != bs(k, x) { assert(!atb(k, a, x, n)); assert(lab(k, d, v, a, n) == und(k)); } else { assert(eval(d, f, a) == eval(d, b, a)); }
    }
}
pub proof fn lemma_with(k: MS, a: Asg, l: int, c: int)
    requires inr(k, a), 0 <= c < ar(k, l)
    ensures inr(k, with(a, l, c))
{ assert forall|x: int| 0 <= #[trigger] with(a, l, c)(x) < ar(k, x) by { assert(0 <= a(x) < ar(k, x)); } }
pub open spec fn cut(k: MS, a: Asg, m: int, x: int, c: int) -> Asg { |l: int| if l == x { c } else if l >= m { bs(k, l) } else { a(l) } }
// the parts of an antichain are antichains
pub proof fn lemma_anti_kid(k: MS, d: D, g: int, c: int)
    requires dk(k, d), d.dom().contains(g), d[g] is N, anti(k, d, g), 0 <= c < ar(k, top(d, g))
    ensures anti(k, d, kid(d, g, c))
{
    lemma_mn(k, d, g);
    let x = top(d, g); let q = kid(d, g, c); let m = lv(d, q);
    reveal(anti);
    assert forall|a: Asg, l: int| #![trigger lab(k, d, q, stp(k, a, l), m)] inr(k, a) && 0 <= l < m && a(l) != bs(k, l) && lab(k, d, q, a, m) != und(k) implies lab(k, d, q, stp(k, a, l), m) != lab(k, d, q, a, m) by {
        let b = cut(k, a, m, x, c);
        assert(inr(k, b)) by { assert forall|z: int| 0 <= #[trigger] b(z) < ar(k, z) by { assert(0 <= a(z) < ar(k, z)); } }
        let a2 = stp(k, a, l); let b2 = stp(k, b, l);
        assert(0 <= a(l) < ar(k, l));
        lemma_with(k, a, l, nxt(k, a(l))); assert(b(l) == a(l)); lemma_with(k, b, l, nxt(k, b(l)));
        lemma_cong(k, d, q, a, b, m); lemma_cong(k, d, q, a2, b2, m);
        lemma_lift(k, d, q, b, m, x); lemma_lift(k, d, q, b2, m, x);
        assert(atb(k, b, m, x)); assert(atb(k, b2, m, x));
        assert(b(x) == c && b2(x) == c);
        assert(lab(k, d, g, b, x + 1) == lab(k, d, q, a, m)); assert(lab(k, d, g, b2, x + 1) == lab(k, d, q, a2, m));
        assert(lab(k, d, g, stp(k, b, l), lv(d, g)) != lab(k, d, g, b, lv(d, g)));
    }
}
pub open spec fn fk(d: D, f: int, g: int, c: int) -> int { if lv(d, f) == lv(d, g) { kid(d, f, c) } else { f } }
pub broadcast proof fn lemma_wo_node(k: MS, d: D, f: int, g: int, x: int, ns: Seq<usize>, r: int)
    requires dk(k, d), #[trigger] wants(k, f, g), d.dom().contains(f), d.dom().contains(g), d[g] is N, lv(d, f) <= lv(d, g), anti(k, d, g), x == top(d, g), d.dom().contains(r),
        #[trigger] mbuilt(d, x, ns, r), ns.len() == ar(k, x),
        forall|c: int| 0 <= c < ns.len() ==> wo(k, d, fk(d, f, g, c), kid(d, g, c), #[trigger] ns[c] as int),
    ensures wo(k, d, f, g, r)
{
    reveal(wo);
    lemma_mn(k, d, g);
    if lv(d, f) == lv(d, g) { if d[f] is N { lemma_mn(k, d, f); } else { lemma_mt(k, d, f); } }
    assert forall|c: int| 0 <= c < ns.len() implies d.dom().contains(#[trigger] ns[c] as int) && lv(d, ns[c] as int) <= x by { assert(wo(k, d, fk(d, f, g, c), kid(d, g, c), ns[c] as int)); }
    if ns.len() > 1 && (forall|c: int| 0 <= c < ns.len() ==> #[trigger] ns[c] == ns[0]) {
        assert forall|a: Asg| inr(k, a) implies #[trigger] lab(k, d, ns[0] as int, a, x) == und(k) by {
            let c0 = bs(k, x); let c1 = if k.up { c0 - 1 } else { c0 + 1 };
            let a0 = with(a, x, c0); let a1 = with(a, x, c1);
            lemma_with(k, a, x, c0); lemma_with(k, a, x, c1);
            assert(wo(k, d, fk(d, f, g, c0), kid(d, g, c0), ns[c0] as int)); assert(wo(k, d, fk(d, f, g, c1), kid(d, g, c1), ns[c1] as int));
            lemma_cong(k, d, ns[0] as int, a, a0, x); lemma_cong(k, d, ns[0] as int, a, a1, x);
            if lab(k, d, ns[0] as int, a, x) != und(k) {
                lemma_anti_kid(k, d, g, c0);
                assert(lab(k, d, kid(d, g, c0), a0, x) == lab(k, d, ns[c0] as int, a0, x)); assert(lab(k, d, kid(d, g, c1), a1, x) == lab(k, d, ns[c1] as int, a1, x));
                assert(stp(k, a1, x) =~= a0);
                assert(a0(x) == c0 && a1(x) == c1);
                assert(lab(k, d, g, a0, x + 1) == lab(k, d, kid(d, g, c0), a0, x)); assert(lab(k, d, g, a1, x + 1) == lab(k, d, kid(d, g, c1), a1, x));
                reveal(anti);
                assert(lab(k, d, g, stp(k, a1, x), lv(d, g)) != lab(k, d, g, a1, lv(d, g)));
            }
        }
    }
    lemma_fam_built(k, d, x, ns, r);
    assert forall|a: Asg, n: int| inr(k, a) && n >= lv(d, f) && n >= lv(d, g) implies #[trigger] lab(k, d, r, a, n) == (if tgt(k, eval(d, f, a)) == lab(k, d, g, a, n) { und(k) } else { lab(k, d, g, a, n) }) by {
        let c = a(x); assert(0 <= c < ar(k, x));
        assert(wo(k, d, fk(d, f, g, c), kid(d, g, c), ns[c] as int));
        assert(lab(k, d, ns[c] as int, a, x) == (if tgt(k, eval(d, fk(d, f, g, c), a)) == lab(k, d, kid(d, g, c), a, x) { und(k) } else { lab(k, d, kid(d, g, c), a, x) }));
    }
}
// ---- minimal vectors
pub proof fn lemma_step_in(k: MS, a: Asg, l: int)
    requires inr(k, a), a(l) != bs(k, l)
    ensures inr(k, stp(k, a, l))
{ assert(0 <= a(l) < ar(k, l)); lemma_with(k, a, l, nxt(k, a(l))); }
pub proof fn lemma_mlab_node(k: MS, d: D, f: int, a: Asg, n: int)
    requires dk(k, d), d.dom().contains(f), d[f] is N, inr(k, a), n > top(d, f)
    ensures mlab(k, d, f, a, n) == (if atb(k, a, top(d, f) + 1, n) { plab(k, d, f, a(top(d, f)), a, top(d, f)) } else { und(k) })
{
    lemma_mn(k, d, f);
    let x = top(d, f); let c = a(x); let q = kid(d, f, c);
    assert(0 <= c < ar(k, x));
    assert(eval(d, f, a) == eval(d, q, a));
    if !atb(k, a, x + 1, n) {
        let l = choose|l: int| x + 1 <= l < n && #[trigger] a(l) != bs(k, l);
        lemma_step_in(k, a, l); lemma_cong(k, d, f, a, stp(k, a, l), x + 1);
    } else {
        assert forall|l: int| 0 <= l < x && #[trigger] a(l) != bs(k, l) implies eval(d, f, stp(k, a, l)) == eval(d, q, stp(k, a, l)) by { lemma_step_in(k, a, l); assert(stp(k, a, l)(x) == c); }
        if c != bs(k, x) { let s = stp(k, a, x); lemma_step_in(k, a, x); assert(s(x) == nxt(k, c)); lemma_cong(k, d, kid(d, f, nxt(k, c)), a, s, x); assert(eval(d, f, s) == eval(d, kid(d, f, nxt(k, c)), a)); }
        if min1(k, d, f, a, n) {
            assert forall|l: int| 0 <= l < x && #[trigger] a(l) != bs(k, l) implies tgt(k, eval(d, q, stp(k, a, l))) != tgt(k, eval(d, q, a)) by {}
            assert(min1(k, d, q, a, x));
        }
        if min1(k, d, q, a, x) && (c == bs(k, x) || tgt(k, eval(d, kid(d, f, nxt(k, c)), a)) != tgt(k, eval(d, q, a))) {
            assert forall|l: int| 0 <= l < n && #[trigger] a(l) != bs(k, l) implies tgt(k, eval(d, f, stp(k, a, l))) != tgt(k, eval(d, f, a)) by { if l < x {} else if l == x {} else { assert(a(l) == bs(k, l)); } }
            assert(min1(k, d, f, a, n));
        }
    }
}
pub broadcast proof fn lemma_part_base(k: MS, d: D, f: int, c: int, q: int, v: NodeId)
    requires dk(k, d), d.dom().contains(f), d[f] is N, #[trigger] wants(k, f, c), c == bs(k, top(d, f)), q == kid(d, f, c), #[trigger] ms(k, d, q, Some(v))
    ensures part(k, d, f, c, v as int)
{ lemma_mn(k, d, f); reveal(mso); reveal(part); assert(0 <= c < ar(k, top(d, f))); }
pub broadcast proof fn lemma_part_step(k: MS, d: D, f: int, c: int, q: int, e: int, m: NodeId, v: int)
    requires dk(k, d), d.dom().contains(f), d[f] is N, 0 <= c < ar(k, top(d, f)), c != bs(k, top(d, f)), #[trigger] wants(k, f, c), q == kid(d, f, c), e == kid(d, f, nxt(k, c)), #[trigger] ms(k, d, q, Some(m)), #[trigger] wo(k, d, e, m as int, v)
    ensures part(k, d, f, c, v)
{ lemma_mn(k, d, f); reveal(mso); reveal(part); reveal(wo); }
pub broadcast proof fn lemma_part_lv(k: MS, d: D, f: int, c: int, v: int)
    requires #[trigger] part(k, d, f, c, v)
    ensures d.dom().contains(v), lv(d, v) <= top(d, f)
{ reveal(part); }
pub broadcast proof fn lemma_mso_node(k: MS, d: D, f: int, x: int, ns: Seq<usize>, r: int)
    requires dk(k, d), d.dom().contains(f), d[f] is N, #[trigger] wants(k, f, -1), x == top(d, f), d.dom().contains(r), #[trigger] mbuilt(d, x, ns, r), ns.len() == ar(k, x),
        forall|c: int| 0 <= c < ns.len() ==> part(k, d, f, c, #[trigger] ns[c] as int),
    ensures mso(k, d, f, r)
{
    lemma_mn(k, d, f);
    reveal(part); reveal(mso);
    assert forall|c: int| 0 <= c < ns.len() implies d.dom().contains(#[trigger] ns[c] as int) && lv(d, ns[c] as int) <= x by { assert(part(k, d, f, c, ns[c] as int)); }
    if ns.len() > 1 && (forall|c: int| 0 <= c < ns.len() ==> #[trigger] ns[c] == ns[0]) {
        assert forall|a: Asg| inr(k, a) implies #[trigger] lab(k, d, ns[0] as int, a, x) == und(k) by {
            let c0 = bs(k, x); let c1 = if k.up { c0 - 1 } else { c0 + 1 };
            assert(part(k, d, f, c0, ns[c0] as int)); assert(part(k, d, f, c1, ns[c1] as int));
            assert(lab(k, d, ns[c0] as int, a, x) == plab(k, d, f, c0, a, x)); assert(lab(k, d, ns[c1] as int, a, x) == plab(k, d, f, c1, a, x));
            assert(nxt(k, c1) == c0);
        }
    }
    lemma_fam_built(k, d, x, ns, r);
    assert forall|a: Asg, n: int| inr(k, a) && n >= lv(d, f) implies #[trigger] lab(k, d, r, a, n) == mlab(k, d, f, a, n) by {
        lemma_mlab_node(k, d, f, a, n);
        let c = a(x); assert(0 <= c < ar(k, x)); assert(part(k, d, f, c, ns[c] as int));
        assert(lab(k, d, ns[c] as int, a, x) == plab(k, d, f, c, a, x));
    }
}
// a constant
pub broadcast proof fn lemma_ms_base(k: MS, d: D, f: int, v: NodeId)
    requires dk(k, d), d.dom().contains(f), d[f] is T, d.dom().contains(v as int), d[v as int] == SN::T(tgt(k, d[f]->T_0)), #[trigger] wants(k, f, -1)
    ensures #[trigger] ms(k, d, f, Some(v))
{
    lemma_mt(k, d, f); lemma_mt(k, d, v as int);
    reveal(mso); reveal(monof); reveal(full);
    assert forall|a: Asg, n: int| inr(k, a) && n >= lv(d, f) implies #[trigger] lab(k, d, v as int, a, n) == mlab(k, d, f, a, n) by {
        if !atb(k, a, 0, n) { let l = choose|l: int| 0 <= l < n && #[trigger] a(l) != bs(k, l); assert(eval(d, f, stp(k, a, l)) == eval(d, f, a)); }
    }
}
// the family is an antichain
pub broadcast proof fn lemma_ms_lv(k: MS, d: D, f: int, v: NodeId)
    requires #[trigger] ms(k, d, f, Some(v)), dk(k, d)
    ensures lv(d, v as int) <= lv(d, f), d.dom().contains(v as int), d.dom().contains(f), anti(k, d, v as int)
{
    let w = v as int;
    assert(mso(k, d, f, w));
    reveal(mso); reveal(anti);
    let m = lv(d, w); let n = lv(d, f);
    assert forall|a: Asg, l: int| #![trigger lab(k, d, w, stp(k, a, l), m)] inr(k, a) && 0 <= l < m && a(l) != bs(k, l) && lab(k, d, w, a, m) != und(k) implies lab(k, d, w, stp(k, a, l), m) != lab(k, d, w, a, m) by {
        let b = cut(k, a, m, -1, 0);
        assert(inr(k, b)) by { assert forall|z: int| 0 <= #[trigger] b(z) < ar(k, z) by { assert(0 <= a(z) < ar(k, z)); } }
        lemma_step_in(k, a, l); assert(b(l) == a(l)); lemma_step_in(k, b, l);
        let a2 = stp(k, a, l); let b2 = stp(k, b, l);
        lemma_cong(k, d, w, a, b, m); lemma_cong(k, d, w, a2, b2, m);
        lemma_lift(k, d, w, b, m, n); lemma_lift(k, d, w, b2, m, n);
        assert(atb(k, b, m, n)); assert(atb(k, b2, m, n));
        assert(lab(k, d, w, b, n) == mlab(k, d, f, b, n)); assert(lab(k, d, w, b2, n) == mlab(k, d, f, b2, n));
        assert(min1(k, d, f, b, n));
        assert(tgt(k, eval(d, f, stp(k, b, l))) != tgt(k, eval(d, f, b)));
    }
}
// ---- monotonicity
pub proof fn lemma_kid_eval(k: MS, d: D, f: int, c: int, a: Asg)
    requires dk(k, d), d.dom().contains(f), d[f] is N, 0 <= c < ar(k, top(d, f)), inr(k, a)
    ensures inr(k, with(a, top(d, f), c)), eval(d, kid(d, f, c), a) == eval(d, f, with(a, top(d, f), c))
{
    lemma_mn(k, d, f);
    let x = top(d, f);
    lemma_with(k, a, x, c); lemma_cong(k, d, kid(d, f, c), a, with(a, x, c), x); assert(with(a, x, c)(x) == c);
}
pub proof fn lemma_full_kid(k: MS, d: D, f: int, c: int)
    requires dk(k, d), d.dom().contains(f), d[f] is N, full(k, d, f), 0 <= c < ar(k, top(d, f))
    ensures full(k, d, kid(d, f, c))
{
    reveal(full);
    assert forall|a: Asg| inr(k, a) implies det(k, #[trigger] eval(d, kid(d, f, c), a)) by { lemma_kid_eval(k, d, f, c, a); }
}
pub proof fn lemma_mono_kid(k: MS, d: D, f: int, c: int)
    requires dk(k, d), d.dom().contains(f), d[f] is N, monof(k, d, f), 0 <= c < ar(k, top(d, f))
    ensures monof(k, d, kid(d, f, c))
{
    reveal(monof);
    let x = top(d, f);
    assert forall|a: Asg, l: int| #![trigger with(a, l, a(l) + 1)] inr(k, a) && 0 <= l && a(l) + 1 < ar(k, l) implies leq(k, eval(d, kid(d, f, c), a), eval(d, kid(d, f, c), with(a, l, a(l) + 1))) by {
        let b = with(a, x, c); let a2 = with(a, l, a(l) + 1);
        assert(0 <= a(l)); lemma_with(k, a, l, a(l) + 1);
        lemma_kid_eval(k, d, f, c, a); lemma_kid_eval(k, d, f, c, a2);
        if l == x { assert(with(a2, x, c) =~= b); } else { assert(b(l) == a(l)); let b2 = with(b, l, b(l) + 1); assert(with(a2, x, c) =~= b2); }
    }
}
pub proof fn lemma_mono_chain(k: MS, d: D, f: int, c: int)
    requires dk(k, d), d.dom().contains(f), d[f] is N, monof(k, d, f), 0 < c < ar(k, top(d, f))
    ensures chain(k, d, kid(d, f, c - 1), kid(d, f, c))
{
    reveal(chain); reveal(monof);
    let x = top(d, f);
    lemma_mn(k, d, f);
    assert forall|a: Asg| #![trigger eval(d, kid(d, f, c - 1), a)] inr(k, a) implies leq(k, eval(d, kid(d, f, c - 1), a), eval(d, kid(d, f, c), a)) by {
        let b = with(a, x, c - 1); lemma_kid_eval(k, d, f, c - 1, a); lemma_kid_eval(k, d, f, c, a);
        assert(b(x) + 1 == c); assert(with(b, x, b(x) + 1) =~= with(a, x, c));
        assert(leq(k, eval(d, f, b), eval(d, f, with(b, x, b(x) + 1))));
    }
}
pub proof fn lemma_mono_back(k: MS, d: D, f: int)
    requires dk(k, d), d.dom().contains(f), d[f] is N, forall|c: int| 0 <= c < ar(k, top(d, f)) ==> monof(k, d, #[trigger] kid(d, f, c)), forall|c: int| 0 < c < ar(k, top(d, f)) ==> chain(k, d, kid(d, f, c - 1), #[trigger] kid(d, f, c))
    ensures monof(k, d, f)
{
    reveal(monof);
    lemma_mn(k, d, f);
    let x = top(d, f);
    assert forall|a: Asg, l: int| #![trigger with(a, l, a(l) + 1)] inr(k, a) && 0 <= l && a(l) + 1 < ar(k, l) implies leq(k, eval(d, f, a), eval(d, f, with(a, l, a(l) + 1))) by {
        let a2 = with(a, l, a(l) + 1); assert(0 <= a(l)); lemma_with(k, a, l, a(l) + 1);
        assert(0 <= a(x) < ar(k, x));
        assert(eval(d, f, a) == eval(d, kid(d, f, a(x)), a)); assert(eval(d, f, a2) == eval(d, kid(d, f, a2(x)), a2));
        if l == x {
            reveal(chain);
            let c = a(x) + 1; lemma_cong(k, d, kid(d, f, c), a, a2, x);
            assert(chain(k, d, kid(d, f, c - 1), kid(d, f, c)));
            assert(leq(k, eval(d, kid(d, f, c - 1), a), eval(d, kid(d, f, c), a)));
        } else { assert(monof(k, d, kid(d, f, a(x)))); assert(a2(x) == a(x)); }
    }
}
pub proof fn lemma_mono_node(k: MS, d: D, f: int)
    requires dk(k, d), d.dom().contains(f), d[f] is N, full(k, d, f)
    ensures forall|c: int| 0 <= c < ar(k, top(d, f)) ==> full(k, d, #[trigger] kid(d, f, c)),
        monof(k, d, f) ==> (forall|c: int| 0 <= c < ar(k, top(d, f)) ==> monof(k, d, #[trigger] kid(d, f, c))),
        monof(k, d, f) ==> (forall|c: int| 0 < c < ar(k, top(d, f)) ==> chain(k, d, kid(d, f, c - 1), #[trigger] kid(d, f, c))),
        (forall|c: int| 0 <= c < ar(k, top(d, f)) ==> monof(k, d, #[trigger] kid(d, f, c))) && (forall|c: int| 0 < c < ar(k, top(d, f)) ==> chain(k, d, kid(d, f, c - 1), #[trigger] kid(d, f, c))) ==> monof(k, d, f),
{
    assert forall|c: int| 0 <= c < ar(k, top(d, f)) implies full(k, d, #[trigger] kid(d, f, c)) by { lemma_full_kid(k, d, f, c); }
    if monof(k, d, f) {
        assert forall|c: int| 0 <= c < ar(k, top(d, f)) implies monof(k, d, #[trigger] kid(d, f, c)) by { lemma_mono_kid(k, d, f, c); }
        assert forall|c: int| 0 < c < ar(k, top(d, f)) implies chain(k, d, kid(d, f, c - 1), #[trigger] kid(d, f, c)) by { lemma_mono_chain(k, d, f, c); }
    }
    if (forall|c: int| 0 <= c < ar(k, top(d, f)) ==> monof(k, d, #[trigger] kid(d, f, c))) && (forall|c: int| 0 < c < ar(k, top(d, f)) ==> chain(k, d, kid(d, f, c - 1), #[trigger] kid(d, f, c))) { lemma_mono_back(k, d, f); }
}
// ---- what the loops over the states of the top variable have established
#[verifier::opaque]
pub open spec fn chained(k: MS, d: D, f: int, i: int) -> bool { full(k, d, f) ==> forall|c: int| 0 < c <= i ==> chain(k, d, kid(d, f, c - 1), #[trigger] kid(d, f, c)) }
#[verifier::opaque]
pub open spec fn notmono(k: MS, d: D, f: int) -> bool { full(k, d, f) ==> !monof(k, d, f) }
#[verifier::opaque]
pub open spec fn parts(k: MS, d: D, f: int, ns: Seq<usize>) -> bool {
    &&& ns.len() <= ar(k, top(d, f))
    &&& forall|c: int| 0 <= c < ns.len() ==> part(k, d, f, c, #[trigger] ns[c] as int)
    &&& full(k, d, f) ==> forall|c: int| 0 <= c < ns.len() ==> monof(k, d, #[trigger] kid(d, f, c))
}
pub broadcast proof fn lemma_chained_0(k: MS, d: D, f: int)
    ensures #[trigger] chained(k, d, f, 0)
{ reveal(chained); }
pub broadcast proof fn lemma_chained_ext(k: MS, d: D, d2: D, f: int, i: int)
    requires #[trigger] mext(k, d, d2), d.dom().contains(f), d[f] is N, i < ar(k, top(d, f)), #[trigger] chained(k, d, f, i)
    ensures chained(k, d2, f, i)
{
    reveal(chained);
    assert(dk(k, d) && d2[f] == d[f]) by { reveal(mext); }
    lemma_full_ext(k, d, d2, f);
    if full(k, d2, f) { assert forall|c: int| 0 < c <= i implies chain(k, d2, kid(d2, f, c - 1), #[trigger] kid(d2, f, c)) by { lemma_mn(k, d, f); let p = kid(d, f, c - 1); let q = kid(d, f, c); assert(d.dom().contains(p) && d.dom().contains(q)); assert(chain(k, d, p, q)); lemma_chain_ext(k, d, d2, p, q); } }
}
pub broadcast proof fn lemma_notmono_ext(k: MS, d: D, d2: D, f: int)
    requires #[trigger] mext(k, d, d2), d.dom().contains(f), #[trigger] notmono(k, d, f)
    ensures notmono(k, d2, f)
{ reveal(notmono); lemma_full_ext(k, d, d2, f); lemma_mono_ext(k, d, d2, f); }
pub broadcast proof fn lemma_notmono(k: MS, d: D, f: int)
    requires #[trigger] notmono(k, d, f)
    ensures ms(k, d, f, None)
{ reveal(notmono); }
pub broadcast proof fn lemma_notmono_kid(k: MS, d: D, f: int, c: int, q: int)
    requires dk(k, d), d.dom().contains(f), d[f] is N, #[trigger] wants(k, f, c), 0 <= c < ar(k, top(d, f)), q == kid(d, f, c), #[trigger] ms(k, d, q, None::<NodeId>)
    ensures notmono(k, d, f)
{ reveal(notmono); if full(k, d, f) { lemma_full_kid(k, d, f, c); if monof(k, d, f) { lemma_mono_kid(k, d, f, c); } } }
pub proof fn lemma_chained_step(k: MS, d: D, f: int, i: int, n: bool)
    requires dk(k, d), d.dom().contains(f), d[f] is N, 0 <= i, i + 1 < ar(k, top(d, f)), chained(k, d, f, i),
        full(k, d, kid(d, f, i)) && full(k, d, kid(d, f, i + 1)) ==> n == chain(k, d, kid(d, f, i), kid(d, f, i + 1)),
    ensures n ==> chained(k, d, f, i + 1), !n ==> notmono(k, d, f)
{
    reveal(chained); reveal(notmono);
    if full(k, d, f) {
        lemma_full_kid(k, d, f, i); lemma_full_kid(k, d, f, i + 1);
        if n { assert forall|c: int| 0 < c <= i + 1 implies chain(k, d, kid(d, f, c - 1), #[trigger] kid(d, f, c)) by { if c == i + 1 { assert(kid(d, f, c - 1) == kid(d, f, i)); } } }
        else if monof(k, d, f) { lemma_mono_chain(k, d, f, i + 1); assert(kid(d, f, i + 1 - 1) == kid(d, f, i)); }
    }
}
pub broadcast proof fn lemma_parts_0(k: MS, d: D, f: int, ns: Seq<usize>)
    requires ns.len() == 0
    ensures #[trigger] parts(k, d, f, ns)
{ reveal(parts); }
pub broadcast proof fn lemma_parts_ext(k: MS, d: D, d2: D, f: int, ns: Seq<usize>)
    requires #[trigger] mext(k, d, d2), d.dom().contains(f), d[f] is N, #[trigger] parts(k, d, f, ns)
    ensures parts(k, d2, f, ns)
{
    reveal(parts);
    assert(dk(k, d) && d2[f] == d[f]) by { reveal(mext); }
    lemma_full_ext(k, d, d2, f);
    assert forall|c: int| 0 <= c < ns.len() implies part(k, d2, f, c, #[trigger] ns[c] as int) by { lemma_part_ext(k, d, d2, f, c, ns[c] as int); }
    if full(k, d2, f) { assert forall|c: int| 0 <= c < ns.len() implies monof(k, d2, #[trigger] kid(d2, f, c)) by { lemma_mn(k, d, f); let q = kid(d, f, c); assert(d.dom().contains(q)); assert(monof(k, d, q)); lemma_mono_ext(k, d, d2, q); } }
}
pub broadcast proof fn lemma_parts_lv(k: MS, d: D, f: int, ns: Seq<usize>, c: int)
    requires parts(k, d, f, ns), 0 <= c < ns.len()
    ensures #![trigger parts(k, d, f, ns), ns[c]] d.dom().contains(ns[c] as int), lv(d, ns[c] as int) <= top(d, f)
{ reveal(parts); lemma_part_lv(k, d, f, c, ns[c] as int); }
// the next state: the family of the child, or what the neighbour leaves of it
pub broadcast proof fn lemma_parts_base(k: MS, d: D, f: int, ns: Seq<usize>, q: int, v: NodeId)
    requires dk(k, d), d.dom().contains(f), d[f] is N, parts(k, d, f, ns), ns.len() == bs(k, top(d, f)), q == kid(d, f, ns.len() as int), ms(k, d, q, Some(v))
    ensures #![trigger parts(k, d, f, ns), ms(k, d, q, Some(v))] parts(k, d, f, ns.push(v))
{
    let c = ns.len() as int;
    assert(wants(k, f, c)); lemma_part_base(k, d, f, c, q, v);
    reveal(parts);
    if full(k, d, f) { lemma_full_kid(k, d, f, c); }
}
pub broadcast proof fn lemma_parts_step(k: MS, d: D, f: int, ns: Seq<usize>, q: int, e: int, m: NodeId, v: NodeId)
    requires dk(k, d), d.dom().contains(f), d[f] is N, parts(k, d, f, ns), ns.len() < ar(k, top(d, f)), ns.len() != bs(k, top(d, f)), q == kid(d, f, ns.len() as int), e == kid(d, f, nxt(k, ns.len() as int)), ms(k, d, q, Some(m)), wo(k, d, e, m as int, v as int)
    ensures #![trigger parts(k, d, f, ns), ms(k, d, q, Some(m)), wo(k, d, e, m as int, v as int)] parts(k, d, f, ns.push(v))
{
    let c = ns.len() as int;
    assert(wants(k, f, c)); lemma_part_step(k, d, f, c, q, e, m, v as int);
    reveal(parts);
    if full(k, d, f) { lemma_full_kid(k, d, f, c); }
}
pub broadcast proof fn lemma_ms_node(k: MS, d: D, f: int, x: int, ns: Seq<usize>, i: int, r: NodeId)
    requires dk(k, d), d.dom().contains(f), d[f] is N, x == top(d, f), d.dom().contains(r as int), #[trigger] mbuilt(d, x, ns, r as int), ns.len() == ar(k, x), #[trigger] parts(k, d, f, ns), #[trigger] chained(k, d, f, i), i == ar(k, x) - 1
    ensures ms(k, d, f, Some(r))
{
    reveal(parts); reveal(chained);
    assert(wants(k, f, -1));
    lemma_mso_node(k, d, f, x, ns, r as int);
    if full(k, d, f) {
        assert forall|c: int| 0 <= c < ar(k, top(d, f)) implies monof(k, d, #[trigger] kid(d, f, c)) by {}
        lemma_mono_back(k, d, f);
    }
}
// every assignment means the same as one with states in range
pub open spec fn nrm(k: MS, a: Asg) -> Asg { |l: int| ix(ar(k, l), a(l)) }
pub proof fn lemma_nrm(k: MS, d: D, f: int, a: Asg)
    requires dk(k, d), d.dom().contains(f)
    ensures inr(k, nrm(k, a)), eval(d, f, a) == eval(d, f, nrm(k, a))
    decreases lv(d, f)
{
    assert forall|l: int| 0 <= #[trigger] nrm(k, a)(l) < ar(k, l) by {}
    if d[f] is N {
        lemma_mn(k, d, f); assert(dag_ok(d)) by { reveal(dk); } lemma_nt(d, f);
        let x = top(d, f); let c = ix(ar(k, x), a(x));
        assert(kid(d, f, c) == sel(d[f]->N_kids, a(x))) by { reveal(dk); }
        lemma_nrm(k, d, kid(d, f, c), a);
        assert(nrm(k, a)(x) == c);
    } else { lemma_mt(k, d, f); }
}
// ---- THEOREM: for a monotone function the family is that of the minimal (maximal) vectors
pub open spec fn below(k: MS, b: Asg, a: Asg, n: int) -> bool { forall|l: int| 0 <= l < n ==> if k.up { #[trigger] b(l) >= a(l) } else { b(l) <= a(l) } }
pub open spec fn same(b: Asg, a: Asg, n: int) -> bool { forall|l: int| 0 <= l < n ==> #[trigger] b(l) == a(l) }
pub open spec fn minimal(k: MS, d: D, f: int, a: Asg, n: int) -> bool { forall|b: Asg| #![trigger below(k, b, a, n)] inr(k, b) && below(k, b, a, n) && eval(d, f, b) == eval(d, f, a) ==> same(b, a, n) }
pub proof fn lemma_leq_t(k: MS, x: int, y: int, z: int)
    requires leq(k, x, y), leq(k, y, z)
    ensures leq(k, x, z)
{}
// raising one variable
pub proof fn lemma_raise(k: MS, d: D, f: int, a: Asg, l: int, c: int)
    requires monof(k, d, f), full(k, d, f), inr(k, a), 0 <= l, a(l) <= c < ar(k, l)
    ensures leq(k, eval(d, f, a), eval(d, f, with(a, l, c))), inr(k, with(a, l, c))
    decreases c - a(l)
{
    reveal(monof);
    assert(0 <= a(l));
    lemma_with(k, a, l, c);
    if a(l) == c { assert(with(a, l, c) =~= a); } else {
        let b = with(a, l, a(l) + 1); lemma_with(k, a, l, a(l) + 1);
        lemma_raise(k, d, f, b, l, c); assert(with(b, l, c) =~= with(a, l, c));
        lemma_leq_t(k, eval(d, f, a), eval(d, f, b), eval(d, f, with(a, l, c)));
    }
}
pub open spec fn mix(a: Asg, b: Asg, n: int) -> Asg { |l: int| if 0 <= l < n { b(l) } else { a(l) } }
pub proof fn lemma_rise(k: MS, d: D, f: int, a: Asg, b: Asg, n: int)
    requires dk(k, d), d.dom().contains(f), monof(k, d, f), full(k, d, f), inr(k, a), inr(k, b), n >= 0, forall|l: int| 0 <= l < n ==> #[trigger] a(l) <= b(l)
    ensures leq(k, eval(d, f, a), eval(d, f, mix(a, b, n))), inr(k, mix(a, b, n))
    decreases n
{
    assert forall|l: int| 0 <= #[trigger] mix(a, b, n)(l) < ar(k, l) by { assert(0 <= a(l) < ar(k, l)); assert(0 <= b(l) < ar(k, l)); }
    if n == 0 { assert(mix(a, b, 0) =~= a); } else {
        lemma_rise(k, d, f, a, b, n - 1);
        let q = mix(a, b, n - 1); assert(q(n - 1) == a(n - 1)); assert(a(n - 1) <= b(n - 1)); assert(0 <= b(n - 1) < ar(k, n - 1));
        lemma_raise(k, d, f, q, n - 1, b(n - 1));
        assert(with(q, n - 1, b(n - 1)) =~= mix(a, b, n));
        lemma_leq_t(k, eval(d, f, a), eval(d, f, q), eval(d, f, mix(a, b, n)));
    }
}
pub proof fn lemma_rise2(k: MS, d: D, f: int, a: Asg, b: Asg, n: int)
    requires dk(k, d), d.dom().contains(f), monof(k, d, f), full(k, d, f), inr(k, a), inr(k, b), n >= lv(d, f), forall|l: int| 0 <= l < n ==> #[trigger] a(l) <= b(l)
    ensures leq(k, eval(d, f, a), eval(d, f, b))
{
    lemma_mlv(k, d, f);
    lemma_rise(k, d, f, a, b, n);
    assert forall|l: int| 0 <= l < n implies #[trigger] mix(a, b, n)(l) == b(l) by {}
    lemma_cong(k, d, f, mix(a, b, n), b, n);
}
pub proof fn theorem_minimal(k: MS, d: D, f: int, v: int, a: Asg, n: int)
    requires dk(k, d), mso(k, d, f, v), monof(k, d, f), full(k, d, f), inr(k, a), n >= lv(d, f)
    ensures lab(k, d, v, a, n) == (if minimal(k, d, f, a, n) { tgt(k, eval(d, f, a)) } else { und(k) })
{
    reveal(mso);
    assert(lab(k, d, v, a, n) == mlab(k, d, f, a, n));
    lemma_mlv(k, d, f);
    let e = eval(d, f, a);
    assert(det(k, e)) by { reveal(full); }
    if isl(k, tgt(k, e)) {
        if minimal(k, d, f, a, n) && !min1(k, d, f, a, n) {
            let l = choose|l: int| 0 <= l < n && #[trigger] a(l) != bs(k, l) && tgt(k, eval(d, f, stp(k, a, l))) == tgt(k, e);
            let b = stp(k, a, l); lemma_step_in(k, a, l);
            assert(det(k, eval(d, f, b))) by { reveal(full); }
            assert(below(k, b, a, n)); assert(b(l) != a(l)); assert(same(b, a, n));
        }
        if min1(k, d, f, a, n) && !minimal(k, d, f, a, n) {
            let b = choose|b: Asg| #![trigger below(k, b, a, n)] inr(k, b) && below(k, b, a, n) && eval(d, f, b) == e && !same(b, a, n);
            let l = choose|l: int| 0 <= l < n && #[trigger] b(l) != a(l);
            assert(0 <= a(l) < ar(k, l)); assert(0 <= b(l) < ar(k, l)); assert(if k.up { b(l) >= a(l) } else { b(l) <= a(l) });
            assert(a(l) != bs(k, l));
            let s = stp(k, a, l); lemma_step_in(k, a, l);
            if k.up {
                assert forall|z: int| 0 <= z < n implies #[trigger] a(z) <= s(z) by {}
                assert forall|z: int| 0 <= z < n implies #[trigger] s(z) <= b(z) by { assert(b(z) >= a(z)); }
                lemma_rise2(k, d, f, a, s, n); lemma_rise2(k, d, f, s, b, n);
            } else {
                assert forall|z: int| 0 <= z < n implies #[trigger] s(z) <= a(z) by {}
                assert forall|z: int| 0 <= z < n implies #[trigger] b(z) <= s(z) by { assert(b(z) <= a(z)); }
                lemma_rise2(k, d, f, s, a, n); lemma_rise2(k, d, f, b, s, n);
            }
            assert(det(k, eval(d, f, s))) by { reveal(full); }
            assert(eval(d, f, s) == e);
        }
    }
}

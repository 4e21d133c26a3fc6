// ---------------------------------------------------------------- bss: from minimal solutions to families, and counting families
impl ZddManager {
    pub proof fn lemma_zbase(&self)
        requires self.wf()
        ensures self.zero == 0 && self.one == 1 && self.undet == 2, self.live(0), self.live(1), self.live(2), self.dag()[0] == SN::T(0), self.dag()[1] == SN::T(1), self.dag()[2] == SN::T(2),
            forall|s: S| !(#[trigger] mem(self.dag(), 0, s)), forall|s: S| #[trigger] mem(self.dag(), 1, s) == (s =~= ISet::empty()), forall|s: S| !(#[trigger] mem(self.dag(), 2, s)),
            pure(self.dag(), 0) && pure(self.dag(), 1) && !pure(self.dag(), 2)
    { reveal(ZddManager::wf); reveal(dag_of); reveal_with_fuel(mem, 1); reveal_with_fuel(pure, 1); }
}
// a family and its copy: the same members, read in the two stores
#[verifier::opaque]
pub open spec fn copied(d: D, id: int, d2: D, id2: int) -> bool { d2.dom().contains(id2) && lv(d2, id2) <= lv(d, id) && pure(d2, id2) == pure(d, id) && forall|s: S| #[trigger] mem(d2, id2, s) == mem(d, id, s) }
pub open spec fn memo_ok(d: D, d2: D, memo: IMap<int, usize>) -> bool { forall|k: int| #[trigger] memo.dom().contains(k) ==> d.dom().contains(k) && copied(d, k, d2, memo[k] as int) }
// the headers made so far: same level and same name
#[verifier::opaque]
pub open spec fn headers_copied(h: Seq<NodeHeader>, h2: Seq<NodeHeader>, zh: IMap<int, usize>) -> bool {
    forall|k: int| #[trigger] zh.dom().contains(k) ==> 0 <= k < h.len() && zh[k] < h2.len() && h2[zh[k] as int].level == h[k].level && h2[zh[k] as int].label@ == h[k].label@
}
// headers still to be made
pub open spec fn todo(n: int, zh: IMap<int, usize>) -> int decreases n { if n <= 0 { 0 } else { todo(n - 1, zh) + if zh.dom().contains(n - 1) { 0int } else { 1 } } }
pub proof fn lemma_todo(n: int, zh: IMap<int, usize>, k: int, v: usize)
    requires 0 <= k, !zh.dom().contains(k)
    ensures todo(n, zh.insert(k, v)) == todo(n, zh) - if k < n { 1int } else { 0 }, todo(n, zh) >= if k < n { 1int } else { 0 }
    decreases n
{ if n > 0 { lemma_todo(n - 1, zh, k, v); } }
pub open spec fn hgrow(h: Seq<NodeHeader>, h2: Seq<NodeHeader>) -> bool { h2.len() >= h.len() && forall|i: int| 0 <= i < h.len() ==> #[trigger] h2[i] == h[i] }
pub proof fn lemma_copied(d: D)
    ensures forall|d2: D, d3: D, k: int, v: int| #![trigger copied(d, k, d2, v), zext(d2, d3)] zext(d2, d3) && copied(d, k, d2, v) ==> copied(d, k, d3, v)
{
    reveal(copied);
    assert forall|d2: D, d3: D, k: int, v: int| #![trigger copied(d, k, d2, v), zext(d2, d3)] zext(d2, d3) && copied(d, k, d2, v) implies copied(d, k, d3, v) by { assert(lv(d3, v) == lv(d2, v)); assert forall|s: S| #[trigger] mem(d3, v, s) == mem(d, k, s) by { assert(mem(d2, v, s) == mem(d, k, s)); } }
}
pub proof fn lemma_todos(n: int)
    ensures forall|z: IMap<int, usize>, k: int, v: usize| 0 <= k < n && !z.dom().contains(k) ==> #[trigger] todo(n, z.insert(k, v)) == todo(n, z) - 1,
        forall|z: IMap<int, usize>, k: int| #![trigger todo(n, z), z.dom().contains(k)] 0 <= k < n && !z.dom().contains(k) ==> todo(n, z) >= 1
{
    assert forall|z: IMap<int, usize>, k: int, v: usize| 0 <= k < n && !z.dom().contains(k) implies #[trigger] todo(n, z.insert(k, v)) == todo(n, z) - 1 by { lemma_todo(n, z, k, v); }
    assert forall|z: IMap<int, usize>, k: int| #![trigger todo(n, z), z.dom().contains(k)] 0 <= k < n && !z.dom().contains(k) implies todo(n, z) >= 1 by { lemma_todo(n, z, k, 0); }
}
//@fn bss zdd_convert::to_zdd
//@args src root dst zh memo
    requires src.wf(), src.live(root as int), old(dst).wf(), memo_ok(src.dag(), old(dst).dag(), old(memo)@), headers_copied(src.headers@, old(dst).headers@, old(zh)@),
        old(dst).headers.len() + todo(src.headers@.len() as int, old(zh)@) <= u32::MAX
    ensures final(dst).wf(), zext(old(dst).dag(), final(dst).dag()), hgrow(old(dst).headers@, final(dst).headers@),
        memo_ok(src.dag(), final(dst).dag(), final(memo)@), headers_copied(src.headers@, final(dst).headers@, final(zh)@),
        final(dst).headers.len() + todo(src.headers@.len() as int, final(zh)@) <= u32::MAX,
        // the same family
        copied(src.dag(), root as int, final(dst).dag(), r as int),
    decreases src.lvl(root as int)
//@entry
    proof {
        src.lemma_two(); src.lemma_node(root as int); dst.lemma_zbase(); lemma_copied(src.dag()); lemma_todos(src.headers@.len() as int);
        reveal(copied); reveal(headers_copied);
        let d = src.dag(); let id = root as int;
        if d[id] is N { lemma_bn(d, id); } else { lemma_bt(d, id); }
    }
//@end
// ---------------------------------------------------------------- counting
//@include real.vrs
broadcast use {axiom_rn, axiom_rn_eq};
pub open spec fn wants(ss: Seq<bool>, v: int) -> bool { (v == 1 && exists|i: int| 0 <= i < ss.len() && #[trigger] ss[i]) || (v == 0 && exists|i: int| 0 <= i < ss.len() && !#[trigger] ss[i]) }
// the paths to the wanted terminals, in the order in which they are walked
#[verifier::opaque]
pub open spec fn paths(d: D, id: int, ss: Seq<bool>) -> Seq<S>
    decreases (if lv(d, id) >= 0 { lv(d, id) } else { 0 })
{
    match d[id] {
        SN::T(v) => if wants(ss, v) { seq![ISet::empty()] } else { Seq::empty() },
        SN::N { level, kids } => if 0 <= lv(d, kids[0]) < lv(d, id) && 0 <= lv(d, kids[1]) < lv(d, id) { paths(d, kids[0], ss) + taken(paths(d, kids[1], ss), level) } else { Seq::empty() }
    }
}
pub open spec fn taken(p: Seq<S>, level: int) -> Seq<S> { p.map_values(|s: S| s.insert(level)) }
pub proof fn lemma_paths(d: D, id: int, ss: Seq<bool>)
    requires dag_ok(d), zred(d), d.dom().contains(id), d[id] is N
    ensures d[id] matches SN::N { level, kids } && paths(d, id, ss) == paths(d, kids[0], ss) + taken(paths(d, kids[1], ss), level)
{
    reveal_with_fuel(paths, 1); lemma_zn(d, id);
    assert(node_ok(d, id)) by { reveal(dag_ok); }
}
// THEOREM: the paths to the terminal 1 are the members of the family, each exactly once
pub proof fn theorem_members(d: D, id: int, ss: Seq<bool>)
    requires dag_ok(d), zred(d), d.dom().contains(id), wants(ss, 1), !wants(ss, 0)
    ensures paths(d, id, ss).no_duplicates(), forall|s: S| #[trigger] paths(d, id, ss).contains(s) <==> mem(d, id, s)
    decreases lv(d, id)
{
    assert(node_ok(d, id)) by { reveal(dag_ok); }
    let p = paths(d, id, ss);
    match d[id] {
        SN::T(v) => { reveal_with_fuel(paths, 1); reveal_with_fuel(mem, 1);
            assert forall|s: S| #[trigger] p.contains(s) <==> mem(d, id, s) by { if v == 1 { assert(p[0] == ISet::<int>::empty()); if mem(d, id, s) { assert(p[0] =~= s); } } }
        }
        SN::N { level, kids } => {
            lemma_zn(d, id); lemma_paths(d, id, ss);
            theorem_members(d, kids[0], ss); theorem_members(d, kids[1], ss);
            let p0 = paths(d, kids[0], ss); let p1 = paths(d, kids[1], ss); let t = taken(p1, level);
            lemma_bound_all(d, kids[0]); lemma_bound_all(d, kids[1]);
            assert forall|i: int| 0 <= i < p0.len() implies !(#[trigger] p0[i]).contains(level) by { assert(p0.contains(p0[i])); assert(mem(d, kids[0], p0[i])); }
            assert forall|i: int| 0 <= i < p1.len() implies !(#[trigger] p1[i]).contains(level) by { assert(p1.contains(p1[i])); assert(mem(d, kids[1], p1[i])); }
            assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by {
                let n = p0.len();
                if i < n && j < n { } else if i >= n && j >= n { let (x, y) = (p1[i - n], p1[j - n]); assert(p[i] == x.insert(level) && p[j] == y.insert(level)); if p[i] == p[j] { assert(x =~= x.insert(level).remove(level)); assert(y =~= y.insert(level).remove(level)); } }
                else if i < n { assert(p[j] == p1[j - n].insert(level)); assert(p[j].contains(level)); assert(p[i] == p0[i]); }
                else { assert(p[i] == p1[i - n].insert(level)); assert(p[i].contains(level)); assert(p[j] == p0[j]); }
            }
            assert forall|s: S| #[trigger] p.contains(s) <==> mem(d, id, s) by {
                if p.contains(s) {
                    let i = choose|i: int| 0 <= i < p.len() && p[i] == s;
                    if i < p0.len() { assert(p0[i] == s); assert(p0.contains(s)); } else { let x = p1[i - p0.len()]; assert(s == x.insert(level)); assert(p1.contains(x)); assert(s.remove(level) =~= x); assert(mem(d, id, s)); }
                }
                if mem(d, id, s) {
                    if s.contains(level) { let x = s.remove(level); assert(p1.contains(x)); let i = choose|i: int| 0 <= i < p1.len() && p1[i] == x; assert(p[i + p0.len()] == x.insert(level)); assert(x.insert(level) =~= s); }
                    else { assert(p0.contains(s)); let i = choose|i: int| 0 <= i < p0.len() && p0[i] == s; assert(p[i] == s); }
                }
            }
        }
    }
}
pub open spec fn zcnt_memo(d: D, ss: Seq<bool>, c: IMap<int, Rn>) -> bool { forall|k: int| #[trigger] c.dom().contains(k) ==> d.dom().contains(k) && c[k].v() == paths(d, k, ss).len() as real }
//@typemap T Rn
//@fn bss zdd_count::zdd_count
//@args dd ss node cache
    requires dd.wf(), dd.live(node as int), zcnt_memo(dd.dag(), ss@, old(cache)@)
    ensures r.v() == paths(dd.dag(), node as int, ss@).len() as real, zcnt_memo(dd.dag(), ss@, final(cache)@)
    decreases dd.lvl(node as int)
//@entry
    proof {
        dd.lemma_node(node as int);
        let d = dd.dag(); let id = node as int;
        if d[id] is N { lemma_paths(d, id, ss@); } else { reveal_with_fuel(paths, 1); }
    }
//@end

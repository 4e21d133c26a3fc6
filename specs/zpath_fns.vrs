// ---------------------------------------------------------------- the sets of a family, one after the other
//@item bss zdd_path::ZddStackValue
//@item bss zdd_path::ZddPath
//@typemap Self::Item PathItem
pub type PathItem = Vec<String>;
pub type Word = Seq<Seq<char>>;
pub type Names = spec_fn(int) -> Seq<char>;
pub open spec fn strs(v: Seq<String>) -> Word { v.map_values(|s: String| s@) }
// the levels taken on the way to a wanted terminal, topmost first, in the order of the walk
#[verifier::opaque]
pub open spec fn lpaths(d: D, id: int, ss: Seq<bool>) -> Seq<Seq<int>>
    decreases (if lv(d, id) >= 0 { lv(d, id) } else { 0 })
{
    match d[id] {
        SN::T(v) => if wants(ss, v) { seq![Seq::empty()] } else { Seq::empty() },
        SN::N { level, kids } => if 0 <= lv(d, kids[0]) < lv(d, id) && 0 <= lv(d, kids[1]) < lv(d, id) { lpaths(d, kids[0], ss).add(under(level, lpaths(d, kids[1], ss))) } else { Seq::empty() }
    }
}
pub open spec fn under(l: int, p: Seq<Seq<int>>) -> Seq<Seq<int>> { p.map_values(|w: Seq<int>| seq![l].add(w)) }
pub open spec fn spell(nm: Names, w: Seq<int>) -> Word { w.map_values(nm) }
// one set as it is returned: lowest element first
pub open spec fn told(nm: Names, path: Word, w: Seq<int>) -> Word { path.add(spell(nm, w)).reverse() }
pub open spec fn below(d: D, n: int, ss: Seq<bool>, nm: Names, path: Word) -> Seq<Word> { lpaths(d, n, ss).map_values(|w: Seq<int>| told(nm, path, w)) }
// everything a walk has still to return, in order
#[verifier::opaque]
pub open spec fn out(d: D, ss: Seq<bool>, nm: Names, st: Seq<ZddStackValue>, path: Word) -> Seq<Word> decreases st.len() {
    if st.len() == 0 { Seq::empty() } else {
        let rest = st.drop_last();
        match st.last() {
            ZddStackValue::Node(n) => below(d, n as int, ss, nm, path).add(out(d, ss, nm, rest, path)),
            ZddStackValue::Push(x) => out(d, ss, nm, rest, path.push(x@)),
            ZddStackValue::Pop => out(d, ss, nm, rest, if path.len() == 0 { path } else { path.drop_last() }),
        }
    }
}
pub open spec fn popped(d: D, ss: Seq<bool>, nm: Names, x: ZddStackValue, st: Seq<ZddStackValue>, path: Word) -> Seq<Word> {
    match x {
        ZddStackValue::Node(n) => below(d, n as int, ss, nm, path).add(out(d, ss, nm, st, path)),
        ZddStackValue::Push(x) => out(d, ss, nm, st, path.push(x@)),
        ZddStackValue::Pop => out(d, ss, nm, st, if path.len() == 0 { path } else { path.drop_last() }),
    }
}
pub proof fn lemma_out(d: D, ss: Seq<bool>, nm: Names)
    ensures forall|st: Seq<ZddStackValue>, x: ZddStackValue, path: Word| #[trigger] out(d, ss, nm, st.push(x), path) == popped(d, ss, nm, x, st, path),
        forall|st: Seq<ZddStackValue>, path: Word| st.len() == 0 ==> #[trigger] out(d, ss, nm, st, path) == Seq::<Word>::empty()
{
    reveal_with_fuel(out, 1);
    assert forall|st: Seq<ZddStackValue>, x: ZddStackValue, path: Word| #[trigger] out(d, ss, nm, st.push(x), path) == popped(d, ss, nm, x, st, path) by { assert(st.push(x).drop_last() =~= st); }
}
pub open spec fn item_ok(b: &ZddManager, x: ZddStackValue) -> bool { match x { ZddStackValue::Node(n) => b.live(n as int), _ => true } }
pub open spec fn walk_ok(b: &ZddManager, p: &ZddPath) -> bool { b.live(p.node.node as int) && forall|i: int| 0 <= i < p.next_stack@.len() ==> item_ok(b, #[trigger] p.next_stack@[i]) }
pub open spec fn left(b: &ZddManager, p: &ZddPath, nm: Names) -> Seq<Word> { out(b.dag(), p.ss@, nm, p.next_stack@, strs(p.path@)) }
// bound on the steps left
pub open spec fn cost1(k: int) -> nat decreases k { if k <= 0 { 1 } else { 5 + 2 * cost1(k - 1) } }
pub proof fn lemma_cost1(a: int, b: int)
    requires a <= b
    ensures cost1(a) <= cost1(b)
    decreases b
{ if b > 0 { lemma_cost1(if a > 0 { a - 1 } else { a }, b - 1); } }
#[verifier::opaque]
pub open spec fn cost(d: D, st: Seq<ZddStackValue>) -> nat decreases st.len() {
    if st.len() == 0 { 0 } else { cost(d, st.drop_last()) + match st.last() { ZddStackValue::Node(n) => cost1(lv(d, n as int)), _ => 1 } }
}
pub proof fn lemma_cost(d: D)
    ensures forall|st: Seq<ZddStackValue>, x: ZddStackValue| #[trigger] cost(d, st.push(x)) == cost(d, st) + match x { ZddStackValue::Node(n) => cost1(lv(d, n as int)), _ => 1 }
{ reveal_with_fuel(cost, 1); assert forall|st: Seq<ZddStackValue>, x: ZddStackValue| #[trigger] cost(d, st.push(x)) == cost(d, st) + match x { ZddStackValue::Node(n) => cost1(lv(d, n as int)), _ => 1 } by { assert(st.push(x).drop_last() =~= st); } }
// every level has one name
pub open spec fn level_names(b: &ZddManager, nm: Names) -> bool { forall|i: int| 0 <= i < b.headers@.len() ==> nm((#[trigger] b.headers@[i]).level as int) == b.headers@[i].label@ }
// a node: first the sets without its element, then those with it
pub proof fn lemma_below(b: &ZddManager, n: int, ss: Seq<bool>, nm: Names, path: Word)
    requires b.wf(), b.live(n), b.dag()[n] is N
    ensures ({ let (l, c0, c1) = (b.dag()[n]->N_level, b.dag()[n]->N_kids[0], b.dag()[n]->N_kids[1]);
        below(b.dag(), n, ss, nm, path) == below(b.dag(), c0, ss, nm, path).add(below(b.dag(), c1, ss, nm, path.push(nm(l)))) && b.live(c0) && b.live(c1) && 0 <= b.lvl(c0) < b.lvl(n) && 0 <= b.lvl(c1) < b.lvl(n) && cost1(b.lvl(c0)) + cost1(b.lvl(c1)) + 5 <= cost1(b.lvl(n)) })
{
    let d = b.dag();
    b.lemma_dag0(n);
    lemma_zn(d, n); assert(node_ok(d, n)) by { reveal(dag_ok); }
    reveal_with_fuel(lpaths, 1);
    let (l, c0, c1) = (d[n]->N_level, d[n]->N_kids[0], d[n]->N_kids[1]);
    lemma_cost1(lv(d, c0), lv(d, n) - 1); lemma_cost1(lv(d, c1), lv(d, n) - 1);
    let x = lpaths(d, c0, ss); let y = lpaths(d, c1, ss);
    let a = below(d, n, ss, nm, path); let b0 = below(d, c0, ss, nm, path); let b1 = below(d, c1, ss, nm, path.push(nm(l)));
    assert forall|i: int| 0 <= i < a.len() implies a[i] == #[trigger] b0.add(b1)[i] by {
        if i >= x.len() { let u = y[i - x.len()]; assert(path.add(spell(nm, seq![l].add(u))) =~= path.push(nm(l)).add(spell(nm, u))); }
    }
    assert(a =~= b0.add(b1));
}
pub proof fn lemma_below0(d: D, n: int, ss: Seq<bool>, nm: Names, path: Word)
    requires d[n] is T
    ensures below(d, n, ss, nm, path) =~= (if wants(ss, d[n]->T_0) { seq![path.reverse()] } else { Seq::<Word>::empty() })
{ reveal_with_fuel(lpaths, 1); assert(path.add(spell(nm, Seq::empty())) =~= path); }
impl ZddManager {
    pub proof fn lemma_dag0(&self, n: int)
        requires self.wf(), self.live(n)
        ensures dag_ok(self.dag()), zred(self.dag()), 0 <= self.lvl(n)
    { reveal(ZddManager::wf); self.lemma_zred(); self.lemma_node(n); }
}
pub proof fn lemma_strs()
    ensures forall|x: Seq<String>, y: Word| #![trigger strs(x), y.reverse()] x.len() == y.len() && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == y[y.len() - 1 - i]) ==> strs(x) == y.reverse(),
        forall|x: Seq<String>, y: String| #[trigger] strs(x.push(y)) == strs(x).push(y@),
        forall|x: Seq<String>| x.len() > 0 ==> #[trigger] strs(x.subrange(0, x.len() - 1)) == strs(x).drop_last(),
{
    assert forall|x: Seq<String>, y: String| #[trigger] strs(x.push(y)) == strs(x).push(y@) by { assert(strs(x.push(y)) =~= strs(x).push(y@)); }
    assert forall|x: Seq<String>| x.len() > 0 implies #[trigger] strs(x.subrange(0, x.len() - 1)) == strs(x).drop_last() by { assert(strs(x.subrange(0, x.len() - 1)) =~= strs(x).drop_last()); }
    assert forall|x: Seq<String>, y: Word| #![trigger strs(x), y.reverse()] x.len() == y.len() && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == y[y.len() - 1 - i]) implies strs(x) == y.reverse() by { assert(strs(x) =~= y.reverse()); }
}
pub proof fn lemma_assoc(a: Seq<Word>, b: Seq<Word>, c: Seq<Word>)
    ensures a.add(b).add(c) == a.add(b.add(c))
{ assert(a.add(b).add(c) =~= a.add(b.add(c))); }
//@fn bss zdd_path::ZddPath::next
//@args vx_zdd
//@ghost nm: Names
    requires vx_zdd.wf(), walk_ok(vx_zdd, old(self)), level_names(vx_zdd, nm)
    ensures walk_ok(vx_zdd, final(self)), final(self).ss == old(self).ss, final(self).node == old(self).node,
        match r {
            Some(p) => left(vx_zdd, old(self), nm) == seq![strs(p@)].add(left(vx_zdd, final(self), nm)),
            None => left(vx_zdd, old(self), nm) =~= Seq::<Word>::empty() && left(vx_zdd, final(self), nm) =~= Seq::<Word>::empty(),
        }
//@entry
    proof { lemma_strs(); lemma_out(vx_zdd.dag(), self.ss@, nm); }
    let ghost d = vx_zdd.dag(); let ghost ss0 = self.ss@;
//@loop 0
    invariant vx_zdd.wf(), walk_ok(vx_zdd, self), level_names(vx_zdd, nm), self.ss == old(self).ss, self.node == old(self).node, left(vx_zdd, self, nm) == left(vx_zdd, old(self), nm),
    d == vx_zdd.dag(), ss0 == self.ss@,
    decreases cost(d, self.next_stack@)
//@loopbegin 0
    let ghost st = self.next_stack@; let ghost pa = strs(self.path@);
    proof {
        lemma_out(d, ss0, nm); lemma_cost(d); reveal_with_fuel(cost, 1);
        assert(left(vx_zdd, old(self), nm) == popped(d, ss0, nm, $p, st, pa)) by { reveal_with_fuel(out, 1); }
        match $p {
            ZddStackValue::Node(n) => {
                let rest = out(d, ss0, nm, st, pa);
                assert(Seq::<Word>::empty().add(rest) =~= rest);
                assert(item_ok(vx_zdd, $p));
                vx_zdd.lemma_node(n as int); vx_zdd.lemma_zbase();
                if d[n as int] is N {
                    let (l, c0, c1) = (d[n as int]->N_level, d[n as int]->N_kids[0], d[n as int]->N_kids[1]);
                    lemma_below(vx_zdd, n as int, ss0, nm, pa);
                    lemma_assoc(below(d, c0, ss0, nm, pa), below(d, c1, ss0, nm, pa.push(nm(l))), rest);
                } else { lemma_below0(d, n as int, ss0, nm, pa); }
                assert forall|y: Seq<char>| (#[trigger] pa.push(y)).drop_last() == pa by { assert(pa.push(y).drop_last() =~= pa); }
            },
            _ => {},
        }
    }
//@end
// the sets of a node in full
pub open spec fn listing(b: &ZddManager, n: int, ss: Seq<bool>, nm: Names) -> Seq<Word> { below(b.dag(), n, ss, nm, Seq::empty()) }
pub proof fn lemma_start()
    ensures forall|d: D, ss: Seq<bool>, nm: Names, st: Seq<ZddStackValue>, p: Word| p.len() == 0 && st.len() == 1 && st[0] is Node ==> #[trigger] out(d, ss, nm, st, p) == below(d, st[0]->Node_0 as int, ss, nm, Seq::empty())
{
    assert forall|d: D, ss: Seq<bool>, nm: Names, st: Seq<ZddStackValue>, p: Word| p.len() == 0 && st.len() == 1 && st[0] is Node implies #[trigger] out(d, ss, nm, st, p) == below(d, st[0]->Node_0 as int, ss, nm, Seq::empty()) by {
        reveal_with_fuel(out, 2);
        assert(p =~= Seq::empty());
        let l = below(d, st[0]->Node_0 as int, ss, nm, Seq::empty());
        assert(l.add(Seq::<Word>::empty()) =~= l);
    }
}
//@fn bss zdd_path::ZddPath::new
//@args node ss vx_zdd
    ensures r.node == node, r.ss@ == ss@, r.next_stack@.len() == 1, r.next_stack@[0] == ZddStackValue::Node(node.node), r.path@.len() == 0,
        forall|d: D, nm: Names| #[trigger] out(d, r.ss@, nm, r.next_stack@, strs(r.path@)) == below(d, node.node as int, ss@, nm, Seq::empty())
//@entry
    proof { lemma_start(); }
    let ghost ss0 = ss@;
//@exit
    proof { assert(vx_r.ss@ =~= ss0); }
//@end
//@typemap u64 Rn
//@fn bss zdd::ZddNode::count
//@args ss vx_zdd
    requires vx_zdd.wf(), vx_zdd.live(self.node as int)
    ensures r.v() == paths(vx_zdd.dag(), self.node as int, ss@).len() as real
//@end
//@fn bss zdd_path::ZddPath::len
//@args vx_zdd
    requires vx_zdd.wf(), vx_zdd.live(self.node.node as int)
    ensures r.v() == paths(vx_zdd.dag(), self.node.node as int, self.ss@).len() as real
//@end
//@fn bss zdd::ZddNode::extract
//@args ss vx_gc
    requires room(old(vx_gc))
    ensures final(vx_gc).roots@ == inc(old(vx_gc).roots@, self.node as int), r.node.node == self.node, r.ss@ == ss@,
        forall|b: ZddManager, nm: Names| #[trigger] left(&b, &r, nm) == listing(&b, self.node as int, ss@, nm),
        forall|b: ZddManager| b.live(self.node as int) ==> #[trigger] walk_ok(&b, &r)
//@end
// THEOREM: a member of the family per path, its elements in decreasing order of level
pub open spec fn falling(w: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < w.len() ==> #[trigger] w[i] > #[trigger] w[j] }
pub open spec fn elems(w: Seq<int>) -> S { ISet::new(|l: int| w.contains(l)) }
pub proof fn lemma_lpaths(d: D, id: int, ss: Seq<bool>)
    requires dag_ok(d), zred(d), d.dom().contains(id)
    ensures lpaths(d, id, ss).len() == paths(d, id, ss).len(),
        forall|i: int| 0 <= i < lpaths(d, id, ss).len() ==> falling(#[trigger] lpaths(d, id, ss)[i]) && elems(lpaths(d, id, ss)[i]) == paths(d, id, ss)[i] && forall|j: int| 0 <= j < lpaths(d, id, ss)[i].len() ==> 0 <= #[trigger] lpaths(d, id, ss)[i][j] < lv(d, id)
    decreases lv(d, id)
{
    assert(node_ok(d, id)) by { reveal(dag_ok); }
    reveal_with_fuel(lpaths, 1);
    match d[id] {
        SN::T(v) => { reveal_with_fuel(paths, 1); assert(elems(Seq::empty()) =~= ISet::empty()); }
        SN::N { level, kids } => {
            lemma_zn(d, id); lemma_paths(d, id, ss);
            lemma_lpaths(d, kids[0], ss); lemma_lpaths(d, kids[1], ss);
            let (x, y) = (lpaths(d, kids[0], ss), lpaths(d, kids[1], ss));
            let l = lpaths(d, id, ss); let p = paths(d, id, ss);
            assert forall|i: int| 0 <= i < l.len() implies falling(#[trigger] l[i]) && elems(l[i]) == p[i] && forall|j: int| 0 <= j < l[i].len() ==> 0 <= #[trigger] l[i][j] < lv(d, id) by {
                if i < x.len() { assert(l[i] == x[i]); } else {
                    let u = y[i - x.len()];
                    assert(l[i] == seq![level].add(u));
                    assert(falling(u));
                    assert(p[i] == paths(d, kids[1], ss)[i - x.len()].insert(level));
                    assert forall|e: int| elems(l[i]).contains(e) == elems(u).insert(level).contains(e) by {
                        if l[i].contains(e) { let k = choose|k: int| 0 <= k < l[i].len() && l[i][k] == e; if k > 0 { assert(u[k - 1] == e); } }
                        if u.contains(e) { let k = choose|k: int| 0 <= k < u.len() && u[k] == e; assert(l[i][k + 1] == e); }
                        if e == level { assert(l[i][0] == e); }
                    }
                    assert(elems(l[i]) =~= elems(u).insert(level));
                }
            }
        }
    }
}
// THEOREM: with the terminal 1 selected, the iterator lists every member of the family exactly once, each as the names of its elements, lowest level first, and there are as many as are counted
pub proof fn theorem_listing(b: &ZddManager, n: int, ss: Seq<bool>, nm: Names)
    requires b.wf(), b.live(n), wants(ss, 1), !wants(ss, 0)
    ensures ({ let l = lpaths(b.dag(), n, ss); let p = paths(b.dag(), n, ss); let r = listing(b, n, ss, nm);
        &&& r.len() == p.len() && l.len() == p.len()
        &&& p.no_duplicates()
        &&& forall|s: S| #[trigger] p.contains(s) <==> mem(b.dag(), n, s)
        &&& forall|i: int| 0 <= i < r.len() ==> falling(#[trigger] l[i]) && elems(l[i]) == p[i] && r[i] == spell(nm, l[i]).reverse() })
{
    b.lemma_dag0(n);
    theorem_members(b.dag(), n, ss); lemma_lpaths(b.dag(), n, ss);
    let l = lpaths(b.dag(), n, ss); let r = listing(b, n, ss, nm);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == spell(nm, l[i]).reverse() by { assert(Seq::<Seq<char>>::empty().add(spell(nm, l[i])) =~= spell(nm, l[i])); }
}
// the names a set manager gives: one for every level, and different levels have different names
pub proof fn theorem_names(m: &ZddMgr, b: &ZddManager)
    requires vinv(m, b)
    ensures level_names(b, |l: int| if 0 <= l < b.headers@.len() { b.headers@[l].label@ } else { Seq::empty() }),
        forall|i: int, j: int| 0 <= i < j < b.headers@.len() ==> (#[trigger] b.headers@[i]).label@ != (#[trigger] b.headers@[j]).label@
{ }
// the rest of an enumeration is the same after the store has grown
pub proof fn theorem_grown(b: &ZddManager, b2: &ZddManager, n: int, ss: Seq<bool>, nm: Names, path: Word)
    requires b.wf(), b2.wf(), b.live(n), zext(b.dag(), b2.dag())
    ensures below(b2.dag(), n, ss, nm, path) == below(b.dag(), n, ss, nm, path)
{ b.lemma_dag0(n); lemma_lsame(b.dag(), b2.dag(), n, ss); }
pub proof fn lemma_lsame(d: D, d2: D, n: int, ss: Seq<bool>)
    requires dag_ok(d), zred(d), d.dom().contains(n), zext(d, d2)
    ensures lpaths(d2, n, ss) == lpaths(d, n, ss)
    decreases lv(d, n)
{
    reveal_with_fuel(lpaths, 1);
    assert(node_ok(d, n)) by { reveal(dag_ok); }
    assert(d2[n] == d[n]);
    match d[n] { SN::N { level, kids } => { lemma_zn(d, n); lemma_lsame(d, d2, kids[0], ss); lemma_lsame(d, d2, kids[1], ss); }, _ => {} }
}

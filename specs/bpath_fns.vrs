// ---------------------------------------------------------------- the paths of a binary structure function
//@item bss bdd_path::BddStackValue
//@item bss bdd_path::BddPath
//@typemap Self::Item PathItem
pub type PathItem = Vec<String>;
pub type Word = Seq<Seq<char>>;
pub open spec fn wt(ss: Seq<bool>) -> spec_fn(int) -> bool { |v: int| wanted(ss, v) }
pub open spec fn binary() -> spec_fn(int) -> int { |l: int| 2 }
pub open spec fn lvk(l: Option<usize>) -> int { match l { Some(x) => x + 1, None => 0 } }
pub open spec fn strs(v: Seq<String>) -> Word { v.map_values(|s: String| s@) }
// the literal of a component: its name where it works, ~name where it does not
pub open spec fn lit(names: Word, l: int, c: int) -> Seq<char> { if c == 1 { names[l] } else { "~"@.add(names[l]) } }
pub open spec fn spell(names: Word, v: Vec0) -> Word decreases v.len() { if v.len() == 0 { Seq::empty() } else { seq![lit(names, v.len() - 1, v[0])].add(spell(names, v.skip(1))) } }
// one path as it is returned: lowest component first
pub open spec fn told(names: Word, path: Word, v: Vec0) -> Word { path.add(spell(names, v)).reverse() }
pub open spec fn below(d: D, n: int, ss: Seq<bool>, names: Word, k: int, path: Word) -> Seq<Word> { full(d, n, wt(ss), binary(), k).map_values(|v: Vec0| told(names, path, v)) }
// everything a walk has still to return, in order
#[verifier::opaque]
pub open spec fn out(d: D, ss: Seq<bool>, names: Word, st: Seq<BddStackValue>, path: Word) -> Seq<Word> decreases st.len() {
    if st.len() == 0 { Seq::empty() } else {
        let rest = st.drop_last();
        match st.last() {
            BddStackValue::Node(l, n) => below(d, n as int, ss, names, lvk(l), path).add(out(d, ss, names, rest, path)),
            BddStackValue::Push(x) => out(d, ss, names, rest, path.push(x@)),
            BddStackValue::Pop => out(d, ss, names, rest, if path.len() == 0 { path } else { path.drop_last() }),
        }
    }
}
pub open spec fn item_ok(b: &BddManager, names: int, x: BddStackValue) -> bool { match x { BddStackValue::Node(l, n) => b.live(n as int) && 0 <= b.lvl(n as int) <= lvk(l) <= names, _ => true } }
pub open spec fn walk_ok(b: &BddManager, p: &BddPath) -> bool { forall|i: int| 0 <= i < p.next_stack@.len() ==> item_ok(b, p.labels@.len() as int, #[trigger] p.next_stack@[i]) }
pub open spec fn left(b: &BddManager, p: &BddPath) -> Seq<Word> { out(b.dag(), p.ss@, strs(p.labels@), p.next_stack@, strs(p.path@)) }
// bound on the steps left
pub open spec fn cost1(k: int) -> nat decreases k { if k <= 0 { 1 } else { 5 + 2 * cost1(k - 1) } }
#[verifier::opaque]
pub open spec fn cost(st: Seq<BddStackValue>) -> nat decreases st.len() {
    if st.len() == 0 { 0 } else { cost(st.drop_last()) + match st.last() { BddStackValue::Node(l, _) => cost1(lvk(l)), _ => 1 } }
}
pub proof fn lemma_cost()
    ensures forall|st: Seq<BddStackValue>, x: BddStackValue| #[trigger] cost(st.push(x)) == cost(st) + match x { BddStackValue::Node(l, _) => cost1(lvk(l)), _ => 1 }
{ reveal_with_fuel(cost, 1); assert forall|st: Seq<BddStackValue>, x: BddStackValue| #[trigger] cost(st.push(x)) == cost(st) + match x { BddStackValue::Node(l, _) => cost1(lvk(l)), _ => 1 } by { assert(st.push(x).drop_last() =~= st); } }
pub open spec fn popped(d: D, ss: Seq<bool>, names: Word, x: BddStackValue, st: Seq<BddStackValue>, path: Word) -> Seq<Word> {
    match x {
        BddStackValue::Node(l, n) => below(d, n as int, ss, names, lvk(l), path).add(out(d, ss, names, st, path)),
        BddStackValue::Push(x) => out(d, ss, names, st, path.push(x@)),
        BddStackValue::Pop => out(d, ss, names, st, if path.len() == 0 { path } else { path.drop_last() }),
    }
}
pub proof fn lemma_out(d: D, ss: Seq<bool>, names: Word)
    ensures forall|st: Seq<BddStackValue>, x: BddStackValue, path: Word| #[trigger] out(d, ss, names, st.push(x), path) == popped(d, ss, names, x, st, path)
{
    reveal_with_fuel(out, 1);
    assert forall|st: Seq<BddStackValue>, x: BddStackValue, path: Word| #[trigger] out(d, ss, names, st.push(x), path) == popped(d, ss, names, x, st, path) by { assert(st.push(x).drop_last() =~= st); }
}
// a node with a level above it: first everything with the component down, then everything with it up
pub proof fn lemma_below(d: D, n: int, ss: Seq<bool>, names: Word, k: int, path: Word)
    requires k > 0
    ensures below(d, n, ss, names, k, path) == below(d, child(d, n, k, 0), ss, names, k - 1, path.push("~"@.add(names[k - 1]))).add(below(d, child(d, n, k, 1), ss, names, k - 1, path.push(names[k - 1])))
{
    let w = wt(ss); let ar = binary();
    let x = full(d, child(d, n, k, 0), w, ar, k - 1); let y = full(d, child(d, n, k, 1), w, ar, k - 1);
    lemma_full2(d, n, w, k);
    let l = below(d, n, ss, names, k, path);
    let p0 = path.push("~"@.add(names[k - 1])); let p1 = path.push(names[k - 1]);
    let l0 = below(d, child(d, n, k, 0), ss, names, k - 1, p0); let l1 = below(d, child(d, n, k, 1), ss, names, k - 1, p1);
    assert(full(d, n, w, ar, k).len() == x.len() + y.len());
    assert forall|i: int| 0 <= i < l.len() implies l[i] == #[trigger] l0.add(l1)[i] by {
        let v = full(d, n, w, ar, k)[i];
        let c: int = if i < x.len() { 0 } else { 1 };
        let u = if i < x.len() { x[i] } else { y[i - x.len()] };
        assert(v == seq![c].add(u));
        assert(v.skip(1) =~= u);
        lemma_full_sort(d, child(d, n, k, c), w, k - 1);
        assert(full(d, child(d, n, k, c), w, ar, k - 1).contains(u));
        assert(path.add(spell(names, v)) =~= path.push(lit(names, k - 1, c)).add(spell(names, u)));
    }
    assert(l =~= l0.add(l1));
}
// all vectors of a list have its length
pub proof fn lemma_full_sort(d: D, n: int, w: spec_fn(int) -> bool, k: int)
    ensures forall|v: Vec0| #[trigger] full(d, n, w, binary(), k).contains(v) ==> v.len() == (if k <= 0 { 0 } else { k })
    decreases k
{
    let f = full(d, n, w, binary(), k);
    if k > 0 {
        lemma_full2(d, n, w, k); lemma_full_sort(d, child(d, n, k, 0), w, k - 1); lemma_full_sort(d, child(d, n, k, 1), w, k - 1);
        let x = full(d, child(d, n, k, 0), w, binary(), k - 1); let y = full(d, child(d, n, k, 1), w, binary(), k - 1);
        assert forall|v: Vec0| #[trigger] f.contains(v) implies v.len() == k by {
            let i = choose|i: int| 0 <= i < f.len() && f[i] == v;
            if i < x.len() { assert(x.contains(x[i])); } else { assert(y.contains(y[i - x.len()])); }
        }
    } else { reveal_with_fuel(full, 1); }
}
pub proof fn lemma_full2(d: D, n: int, w: spec_fn(int) -> bool, k: int)
    requires k > 0
    ensures full(d, n, w, binary(), k) == cons(0, full(d, child(d, n, k, 0), w, binary(), k - 1)).add(cons(1, full(d, child(d, n, k, 1), w, binary(), k - 1)))
{
    let ar = binary();
    reveal_with_fuel(full, 2); reveal_with_fuel(fan, 2);
    assert(full(d, n, w, ar, k) == fan(d, n, w, ar, k, 2));
    assert(fan(d, n, w, ar, k, 0) =~= Seq::<Vec0>::empty());
    assert(fan(d, n, w, ar, k, 1) =~= cons(0, full(d, child(d, n, k, 0), w, ar, k - 1)));
    assert(full(d, n, w, binary(), k) =~= cons(0, full(d, child(d, n, k, 0), w, binary(), k - 1)).add(cons(1, full(d, child(d, n, k, 1), w, binary(), k - 1))));
}
// nothing is wanted of an undetermined function
pub proof fn lemma_below_none(d: D, n: int, ss: Seq<bool>, names: Word, k: int, path: Word)
    requires d[n] is T, !wanted(ss, d[n]->T_0)
    ensures below(d, n, ss, names, k, path) =~= Seq::<Word>::empty()
    decreases k
{
    if k > 0 {
        assert(child(d, n, k, 0) == n && child(d, n, k, 1) == n);
        lemma_below(d, n, ss, names, k, path);
        lemma_below_none(d, n, ss, names, k - 1, path.push("~"@.add(names[k - 1]))); lemma_below_none(d, n, ss, names, k - 1, path.push(names[k - 1]));
    } else { reveal_with_fuel(full, 1); }
}
pub proof fn lemma_below0(d: D, n: int, ss: Seq<bool>, names: Word, k: int, path: Word)
    requires d[n] is T, k <= 0
    ensures below(d, n, ss, names, k, path) =~= (if wanted(ss, d[n]->T_0) { seq![path.reverse()] } else { Seq::<Word>::empty() })
{
    reveal_with_fuel(full, 1); assert(path.add(spell(names, Seq::empty())) =~= path);
}
pub proof fn lemma_out0(d: D, ss: Seq<bool>, names: Word)
    ensures forall|st: Seq<BddStackValue>, path: Word| st.len() == 0 ==> #[trigger] out(d, ss, names, st, path) == Seq::<Word>::empty()
{ reveal_with_fuel(out, 1); }
pub proof fn lemma_strs()
    ensures forall|x: Seq<String>, y: Word| #![trigger strs(x), y.reverse()] x.len() == y.len() && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == y[y.len() - 1 - i]) ==> strs(x) == y.reverse(),
        forall|x: Seq<String>, y: String| #[trigger] strs(x.push(y)) == strs(x).push(y@),
        forall|x: Seq<String>| x.len() > 0 ==> #[trigger] strs(x.subrange(0, x.len() - 1)) == strs(x).drop_last(),
        forall|a: Seq<char>| #[trigger] a.add(""@) == a
{
    reveal_strlit("");
    assert forall|x: Seq<String>, y: String| #[trigger] strs(x.push(y)) == strs(x).push(y@) by { assert(strs(x.push(y)) =~= strs(x).push(y@)); }
    assert forall|x: Seq<String>| x.len() > 0 implies #[trigger] strs(x.subrange(0, x.len() - 1)) == strs(x).drop_last() by { assert(strs(x.subrange(0, x.len() - 1)) =~= strs(x).drop_last()); }
    assert forall|a: Seq<char>| #[trigger] a.add(""@) == a by { assert(a.add(""@) =~= a); }
    assert forall|x: Seq<String>, y: Word| #![trigger strs(x), y.reverse()] x.len() == y.len() && (forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i])@ == y[y.len() - 1 - i]) implies strs(x) == y.reverse() by { assert(strs(x) =~= y.reverse()); }
}
pub proof fn lemma_assoc(a: Seq<Word>, b: Seq<Word>, c: Seq<Word>)
    ensures a.add(b).add(c) == a.add(b.add(c))
{ assert(a.add(b).add(c) =~= a.add(b.add(c))); }
// what is spelled for a vector: for every component, lowest first, its literal
pub proof fn theorem_told(names: Word, v: Vec0)
    ensures told(names, Seq::empty(), v).len() == v.len(), forall|l: int| 0 <= l < v.len() ==> #[trigger] told(names, Seq::empty(), v)[l] == lit(names, l, asgv(v)(l))
{
    lemma_spell(names, v);
    assert(Seq::<Seq<char>>::empty().add(spell(names, v)) =~= spell(names, v));
}
pub proof fn lemma_spell(names: Word, v: Vec0)
    ensures spell(names, v).len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] spell(names, v)[i] == lit(names, v.len() - 1 - i, v[i])
    decreases v.len()
{
    if v.len() > 0 {
        lemma_spell(names, v.skip(1));
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] spell(names, v)[i] == lit(names, v.len() - 1 - i, v[i]) by { if i > 0 { assert(spell(names, v.skip(1))[i - 1] == lit(names, v.skip(1).len() - 1 - (i - 1), v.skip(1)[i - 1])); } }
    }
}
// a node of level k has two children one of which is taken
pub proof fn lemma_nd(b: &BddManager, n: int)
    requires b.wf(), b.live(n)
    ensures b.lvl(n) > 0 ==> b.live(child(b.dag(), n, b.lvl(n), 0)) && b.live(child(b.dag(), n, b.lvl(n), 1)) && 0 <= b.lvl(child(b.dag(), n, b.lvl(n), 0)) < b.lvl(n) && 0 <= b.lvl(child(b.dag(), n, b.lvl(n), 1)) < b.lvl(n)
{ b.lemma_two(); if b.dag()[n] is N { lemma_bn(b.dag(), n); } }
//@fn bss bdd_path::BddPath::next
//@args vx_bdd
    requires vx_bdd.wf(), walk_ok(vx_bdd, old(self))
    ensures walk_ok(vx_bdd, final(self)), final(self).labels == old(self).labels, final(self).ss == old(self).ss, final(self).node == old(self).node,
        match r {
            Some(p) => left(vx_bdd, old(self)) == seq![strs(p@)].add(left(vx_bdd, final(self))),
            None => left(vx_bdd, old(self)) =~= Seq::<Word>::empty() && left(vx_bdd, final(self)) =~= Seq::<Word>::empty(),
        }
//@entry
    proof { axiom_shown(); lemma_strs(); lemma_out0(vx_bdd.dag(), self.ss@, strs(self.labels@)); vx_bdd.lemma_two(); reveal_strlit("~"); }
    let ghost d = vx_bdd.dag(); let ghost ss0 = self.ss@; let ghost nm = strs(self.labels@);
//@loop 0
    invariant vx_bdd.wf(), walk_ok(vx_bdd, self), self.labels == old(self).labels, self.ss == old(self).ss, self.node == old(self).node, left(vx_bdd, self) == left(vx_bdd, old(self)),
    d == vx_bdd.dag(), ss0 == self.ss@, nm == strs(self.labels@),
    decreases cost(self.next_stack@)
//@loopbegin 0
    let ghost st = self.next_stack@; let ghost pa = strs(self.path@);
    proof {
        lemma_out(d, ss0, nm); lemma_cost(); reveal_with_fuel(cost, 1);
        assert(left(vx_bdd, old(self)) == popped(d, ss0, nm, $p, st, pa)) by { reveal_with_fuel(out, 1); }
        match $p {
            BddStackValue::Node(l, n) => {
                let rest = out(d, ss0, nm, st, pa);
                assert(Seq::<Word>::empty().add(rest) =~= rest);
                if lvk(l) > 0 { let k = lvk(l); lemma_assoc(below(d, child(d, n as int, k, 0), ss0, nm, k - 1, pa.push("~"@.add(nm[k - 1]))), below(d, child(d, n as int, k, 1), ss0, nm, k - 1, pa.push(nm[k - 1])), rest); }
                assert forall|y: Seq<char>| (#[trigger] pa.push(y)).drop_last() == pa by { assert(pa.push(y).drop_last() =~= pa); }
                assert(item_ok(vx_bdd, nm.len() as int, $p));
                vx_bdd.lemma_node(n as int); lemma_nd(vx_bdd, n as int);
                if lvk(l) > 0 { lemma_below(d, n as int, ss0, nm, lvk(l), pa); } else { lemma_below0(d, n as int, ss0, nm, lvk(l), pa); }
                if d[n as int] is T && !wanted(ss0, d[n as int]->T_0) { lemma_below_none(d, n as int, ss0, nm, lvk(l), pa); }
            },
            _ => {},
        }
    }
//@end
// one header for every level there is
pub open spec fn packed(b: &BddManager) -> bool { b.one_header_per_level() && forall|i: int| 0 <= i < b.headers@.len() ==> (#[trigger] b.headers@[i]).level < b.headers@.len() }
pub open spec fn names_ok(b: &BddManager, names: Word) -> bool { names.len() == b.headers@.len() && forall|i: int| 0 <= i < b.headers@.len() ==> names[(#[trigger] b.headers@[i]).level as int] == b.headers@[i].label@ }
//@fn bss bdd_path::BddPath::new
//@args node ss vx_bdd
    requires vx_bdd.wf(), vx_bdd.live(node.node as int), packed(vx_bdd)
    ensures walk_ok(vx_bdd, &r), r.node == node, r.ss@ == ss@, names_ok(vx_bdd, strs(r.labels@)),
        left(vx_bdd, &r) == listing(vx_bdd, node.node as int, ss@, strs(r.labels@))
//@entry
    proof { vx_bdd.lemma_node(node.node as int); lemma_start(); lemma_lvl_header(vx_bdd, node.node as int); }
    let ghost ss0 = ss@;
//@loopbefore 1
    proof { assert(ss@ =~= ss0); }
//@loop 1
    nheaders == vx_bdd.headers@.len(), labels@.len() == nheaders, forall|i: int| 0 <= i < $i ==> labels@[(#[trigger] vx_bdd.headers@[i]).level as int]@ == vx_bdd.headers@[i].label@,
//@end
// the wanted paths of a node in full
pub open spec fn listing(b: &BddManager, n: int, ss: Seq<bool>, names: Word) -> Seq<Word> { below(b.dag(), n, ss, names, b.lvl(n), Seq::empty()) }
pub proof fn lemma_start()
    ensures forall|d: D, ss: Seq<bool>, names: Word, st: Seq<BddStackValue>, p: Word| p.len() == 0 && st.len() == 1 && st[0] is Node ==> #[trigger] out(d, ss, names, st, p) == below(d, st[0]->Node_1 as int, ss, names, lvk(st[0]->Node_0), Seq::empty())
{
    assert forall|d: D, ss: Seq<bool>, names: Word, st: Seq<BddStackValue>, p: Word| p.len() == 0 && st.len() == 1 && st[0] is Node implies #[trigger] out(d, ss, names, st, p) == below(d, st[0]->Node_1 as int, ss, names, lvk(st[0]->Node_0), Seq::empty()) by {
        reveal_with_fuel(out, 2);
        assert(p =~= Seq::empty());
        let l = below(d, st[0]->Node_1 as int, ss, names, lvk(st[0]->Node_0), Seq::empty());
        assert(l.add(Seq::<Word>::empty()) =~= l);
    }
}
pub proof fn lemma_lvl_header(b: &BddManager, n: int)
    requires b.wf(), b.live(n), packed(b)
    ensures 0 <= b.lvl(n) <= b.headers@.len()
{ b.lemma_node(n); }
// headers of a manager that only declares variables: one for every level, and the labels differ
pub proof fn theorem_packed(m: &BddMgr, b: &BddManager, g: &GcState)
    requires vinv(m, b, g)
    ensures packed(b), forall|names: Word, i: int, j: int| names_ok(b, names) && 0 <= i < j < names.len() ==> #[trigger] names[i] != #[trigger] names[j]
{ assert forall|names: Word, i: int, j: int| names_ok(b, names) && 0 <= i < j < names.len() implies #[trigger] names[i] != #[trigger] names[j] by { assert(b.headers@[i].level == i && b.headers@[j].level == j); } }
// THEOREM: the listing spells exactly the assignments of the variables up to the node's level at which its value is wanted, each once, and is as long as the count
pub proof fn theorem_paths(b: &BddManager, n: int, ss: Seq<bool>, names: Word)
    requires b.wf(), b.live(n)
    ensures ({ let l = full(b.dag(), n, wt(ss), binary(), b.lvl(n));
        &&& listing(b, n, ss, names).len() == l.len()
        &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] listing(b, n, ss, names)[i]).len() == b.lvl(n) && (forall|k: int| 0 <= k < b.lvl(n) ==> #[trigger] listing(b, n, ss, names)[i][k] == lit(names, k, asgv(l[i])(k)))
        &&& forall|v: Vec0| #[trigger] l.contains(v) <==> vec_ok(binary(), v, b.lvl(n)) && wanted(ss, eval(b.dag(), n, asgv(v)))
        &&& l.no_duplicates()
        &&& l.len() as real == wval(b.dag(), n, counting(ss)) })
{
    let d = b.dag(); let k = b.lvl(n); let w = wt(ss);
    b.lemma_two(); b.lemma_node(n);
    assert(node_ar(d, binary())) by { assert forall|i: int| #[trigger] d.dom().contains(i) implies node_arity(d, i, binary()) by { if d[i] is N { lemma_bn(d, i); } assert(two1(d, i)); } }
    assert(counting(ss).ar =~= binary());
    theorem_full(d, n, w, binary(), k);
    theorem_full_len(d, n, w, counting(ss), k, none());
    let l = full(d, n, w, binary(), k);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] listing(b, n, ss, names)[i]).len() == k && (forall|j: int| 0 <= j < k ==> #[trigger] listing(b, n, ss, names)[i][j] == lit(names, j, asgv(l[i])(j))) by {
        assert(l.contains(l[i])); theorem_told(names, l[i]);
    }
}
//@typemap u64 Rn
//@fn bss bdd::BddNode::bdd_count
//@args ss vx_bdd
    requires old(vx_bdd).wf(), old(vx_bdd).live(self.node as int)
    ensures *final(vx_bdd) == *old(vx_bdd), r.v() == wval(old(vx_bdd).dag(), self.node as int, counting(ss@))
//@end
//@fn bss bdd_path::BddPath::len
//@args vx_bdd
    requires old(vx_bdd).wf(), old(vx_bdd).live(self.node.node as int)
    ensures *final(vx_bdd) == *old(vx_bdd), r.v() == wval(old(vx_bdd).dag(), self.node.node as int, counting(self.ss@))
//@end
//@fn bss bdd::BddNode::bdd_extract
//@args ss vx_bdd vx_gc
    requires hinv(vx_bdd, old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), packed(vx_bdd)
    ensures hinv(vx_bdd, final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, self.node as int), walk_ok(vx_bdd, &r), r.node.node == self.node, r.ss@ == ss@, names_ok(vx_bdd, strs(r.labels@)),
        left(vx_bdd, &r) == listing(vx_bdd, self.node as int, ss@, strs(r.labels@))
//@end

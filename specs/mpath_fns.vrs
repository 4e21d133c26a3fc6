// ---------------------------------------------------------------- the paths of a multi-state structure function
//@item mss mdd_path::MddStackValue
//@item mss mdd_path::MddPath
//@typemap Self::Item PathItem
pub type PathItem = HashMap<String, usize>;
pub type Row = IMap<Seq<char>, usize>;
pub type Words = Seq<Seq<char>>;
pub open spec fn strs(v: Seq<String>) -> Words { v.map_values(|s: String| s@) }
pub open spec fn lvk(l: Option<usize>) -> int { match l { Some(x) => x + 1, None => 0 } }
// what is walked: the diagram, the wanted values, the number of states and the name of every level
pub struct Src { pub d: D, pub w: spec_fn(int) -> bool, pub ar: spec_fn(int) -> int, pub names: Words }
pub open spec fn told(names: Words, path: Row, v: Vec0) -> Row decreases v.len() { if v.len() == 0 { path } else { told(names, path.insert(names[v.len() - 1], v[0] as usize), v.skip(1)) } }
#[verifier::opaque]
pub open spec fn below(s: Src, n: int, k: int, path: Row) -> Seq<Row> { full(s.d, n, s.w, s.ar, k).map_values(|v: Vec0| told(s.names, path, v)) }
// the part of it in which the highest has state j or more
#[verifier::opaque]
pub open spec fn upper(s: Src, n: int, k: int, path: Row, j: int) -> Seq<Row> decreases (s.ar)(k - 1) - j {
    if j >= (s.ar)(k - 1) { Seq::empty() } else { below(s, child(s.d, n, k, j), k - 1, path.insert(s.names[k - 1], j as usize)).add(upper(s, n, k, path, j + 1)) }
}
// everything a walk has still to return, in order
#[verifier::opaque]
pub open spec fn out(s: Src, st: Seq<MddStackValue>, path: Row) -> Seq<Row> decreases st.len() {
    if st.len() == 0 { Seq::empty() } else {
        match st.last() {
            MddStackValue::Node(l, n) => below(s, n as int, lvk(l), path).add(out(s, st.drop_last(), path)),
            MddStackValue::Push(x, i) => out(s, st.drop_last(), path.insert(x@, i)),
            MddStackValue::Pop(x) => out(s, st.drop_last(), path.remove(x@)),
        }
    }
}
pub open spec fn popped(s: Src, x: MddStackValue, st: Seq<MddStackValue>, path: Row) -> Seq<Row> {
    match x {
        MddStackValue::Node(l, n) => below(s, n as int, lvk(l), path).add(out(s, st, path)),
        MddStackValue::Push(x, i) => out(s, st, path.insert(x@, i)),
        MddStackValue::Pop(x) => out(s, st, path.remove(x@)),
    }
}
// the components still to be told are not told yet
pub open spec fn fresh(names: Words, k: int, path: Row) -> bool { forall|j: int| 0 <= j < k ==> !path.dom().contains(#[trigger] names[j]) }
pub open spec fn item_ok(s: Src, l: Option<usize>, n: NodeId) -> bool { s.d.dom().contains(n as int) && 0 <= lv(s.d, n as int) <= lvk(l) <= s.names.len() }
#[verifier::opaque]
pub open spec fn clean(s: Src, st: Seq<MddStackValue>, path: Row) -> bool decreases st.len() {
    st.len() == 0 || match st.last() {
        MddStackValue::Node(l, n) => item_ok(s, l, n) && fresh(s.names, lvk(l), path) && clean(s, st.drop_last(), path),
        MddStackValue::Push(x, i) => clean(s, st.drop_last(), path.insert(x@, i)),
        MddStackValue::Pop(x) => clean(s, st.drop_last(), path.remove(x@)),
    }
}
pub open spec fn clean1(s: Src, x: MddStackValue, st: Seq<MddStackValue>, path: Row) -> bool {
    match x {
        MddStackValue::Node(l, n) => item_ok(s, l, n) && fresh(s.names, lvk(l), path) && clean(s, st, path),
        MddStackValue::Push(x, i) => clean(s, st, path.insert(x@, i)),
        MddStackValue::Pop(x) => clean(s, st, path.remove(x@)),
    }
}
pub open spec fn distinct(names: Words) -> bool { forall|i: int, j: int| 0 <= i < j < names.len() ==> #[trigger] names[i] != #[trigger] names[j] }
// bound on the steps left
#[verifier::opaque]
pub open spec fn cost(s: Src, st: Seq<MddStackValue>) -> int decreases st.len() { if st.len() == 0 { 0 } else { cost(s, st.drop_last()) + match st.last() { MddStackValue::Node(l, _) => cost1(s, lvk(l)), _ => 1 } } }
#[verifier::opaque]
pub open spec fn cost1(s: Src, k: int) -> int decreases k, 1int, 0int { if k <= 0 { 1 } else { 1 + costs(s, k, (s.ar)(k - 1)) } }
#[verifier::opaque]
pub open spec fn costs(s: Src, k: int, j: int) -> int decreases k, 0int, j { if j <= 0 || k <= 0 { 0 } else { costs(s, k, j - 1) + 2 + cost1(s, k - 1) } }
pub open spec fn edge_fn(e: Seq<usize>) -> spec_fn(int) -> int { |l: int| e[l] as int }
pub open spec fn vw(ss: ISet<int>) -> spec_fn(int) -> bool { |e: int| vwants(ss, e) }
pub open spec fn bw(ss: ISet<int>) -> spec_fn(int) -> bool { |e: int| bwants(ss, e) }
pub open spec fn src(b: &MtMdd2Manager, p: &MddPath) -> Src {
    match p.node.node {
        Node::Value(_) => Src { d: b.vd(), w: vw(p.ss@), ar: edge_fn(p.edges@), names: strs(p.labels@) },
        Node::Bool(_) => Src { d: b.bd(), w: bw(p.ss@), ar: edge_fn(p.edges@), names: strs(p.labels@) },
    }
}
// number of states per level as the nodes have it
pub open spec fn fits(s: Src) -> bool { forall|i: int| 0 <= i < s.names.len() ==> 0 <= #[trigger] (s.ar)(i) <= usize::MAX }
pub open spec fn walk_ok(b: &MtMdd2Manager, p: &MddPath) -> bool {
    let s = src(b, p);
    clean(s, p.next_stack@, p.path@) && p.edges@.len() == p.labels@.len() && distinct(s.names) && node_ar(s.d, s.ar) && dag_ok(s.d)
}
pub open spec fn left(b: &MtMdd2Manager, p: &MddPath) -> Seq<Row> { out(src(b, p), p.next_stack@, p.path@) }
pub proof fn lemma_out(s: Src)
    ensures forall|st: Seq<MddStackValue>, x: MddStackValue, path: Row| #[trigger] out(s, st.push(x), path) == popped(s, x, st, path),
        forall|st: Seq<MddStackValue>, x: MddStackValue, path: Row| #[trigger] clean(s, st.push(x), path) == clean1(s, x, st, path),
        forall|st: Seq<MddStackValue>, x: MddStackValue| #[trigger] cost(s, st.push(x)) == cost(s, st) + match x { MddStackValue::Node(l, _) => cost1(s, lvk(l)), _ => 1 },
        forall|st: Seq<MddStackValue>, path: Row| st.len() == 0 ==> #[trigger] out(s, st, path) == Seq::<Row>::empty(),
{
    reveal_with_fuel(out, 1); reveal_with_fuel(clean, 1); reveal_with_fuel(cost, 1);
    assert forall|st: Seq<MddStackValue>, x: MddStackValue, path: Row| #[trigger] out(s, st.push(x), path) == popped(s, x, st, path) by { assert(st.push(x).drop_last() =~= st); }
    assert forall|st: Seq<MddStackValue>, x: MddStackValue, path: Row| #[trigger] clean(s, st.push(x), path) == clean1(s, x, st, path) by { assert(st.push(x).drop_last() =~= st); }
    assert forall|st: Seq<MddStackValue>, x: MddStackValue| #[trigger] cost(s, st.push(x)) == cost(s, st) + match x { MddStackValue::Node(l, _) => cost1(s, lvk(l)), _ => 1 } by { assert(st.push(x).drop_last() =~= st); }
}
pub proof fn lemma_cost(s: Src)
    ensures forall|st: Seq<MddStackValue>| #[trigger] cost(s, st) >= 0, forall|k: int| #[trigger] cost1(s, k) > 0, forall|k: int, j: int| #[trigger] costs(s, k, j) >= 0
{
    assert forall|k: int, j: int| #[trigger] costs(s, k, j) >= 0 by { lemma_costs(s, k, j); }
    assert forall|k: int| #[trigger] cost1(s, k) > 0 by { lemma_cost1(s, k); }
    assert forall|st: Seq<MddStackValue>| #[trigger] cost(s, st) >= 0 by { lemma_cost0(s, st); }
}
pub proof fn lemma_cost1(s: Src, k: int)
    ensures cost1(s, k) > 0
    decreases k, 1int, 0int
{ reveal_with_fuel(cost1, 1); reveal_with_fuel(costs, 1); if k > 0 { lemma_costs(s, k, (s.ar)(k - 1)); } }
pub proof fn lemma_costs(s: Src, k: int, j: int)
    ensures costs(s, k, j) >= 0
    decreases k, 0int, j
{ reveal_with_fuel(costs, 1); reveal_with_fuel(cost1, 1); if k > 0 && j > 0 { lemma_costs(s, k, j - 1); lemma_cost1(s, k - 1); } }
pub proof fn lemma_cost0(s: Src, st: Seq<MddStackValue>)
    ensures cost(s, st) >= 0
    decreases st.len()
{ reveal_with_fuel(cost, 1); if st.len() > 0 { lemma_cost0(s, st.drop_last()); match st.last() { MddStackValue::Node(l, _) => { lemma_cost1(s, lvk(l)); }, _ => {} } } }
// a node with a level above it: everything with the component in state 0, then in state 1, ...
pub proof fn lemma_below(s: Src, n: int, k: int, path: Row, j: int)
    requires k > 0, 0 <= j <= (s.ar)(k - 1)
    ensures below(s, n, k, path) == fan(s.d, n, s.w, s.ar, k, j).map_values(|v: Vec0| told(s.names, path, v)).add(upper(s, n, k, path, j))
    decreases (s.ar)(k - 1) - j
{
    reveal(below); reveal_with_fuel(upper, 1);
    let f = |v: Vec0| told(s.names, path, v);
    let a = (s.ar)(k - 1);
    if j >= a {
        reveal_with_fuel(full, 1); reveal_with_fuel(fan, 1);
        assert(full(s.d, n, s.w, s.ar, k) == fan(s.d, n, s.w, s.ar, k, a));
        assert(fan(s.d, n, s.w, s.ar, k, j).map_values(f).add(upper(s, n, k, path, j)) =~= fan(s.d, n, s.w, s.ar, k, a).map_values(f));
    } else {
        lemma_below(s, n, k, path, j + 1);
        let m = child(s.d, n, k, j); let p2 = path.insert(s.names[k - 1], j as usize);
        let l = full(s.d, m, s.w, s.ar, k - 1);
        let x = fan(s.d, n, s.w, s.ar, k, j); let y = cons(j, l);
        assert(fan(s.d, n, s.w, s.ar, k, j + 1) =~= x.add(y)) by { reveal_with_fuel(fan, 1); reveal_with_fuel(full, 1); }
        let b = below(s, m, k - 1, p2);
        assert(y.map_values(f) =~= b) by {
            assert forall|i: int| 0 <= i < l.len() implies #[trigger] y.map_values(f)[i] == b[i] by {
                lemma_full_len(s.d, m, s.w, s.ar, k - 1, i);
                assert(y[i] == seq![j].add(l[i])); assert(y[i].skip(1) =~= l[i]);
            }
        }
        assert(x.add(y).map_values(f) =~= x.map_values(f).add(b));
        assert(x.map_values(f).add(b).add(upper(s, n, k, path, j + 1)) =~= x.map_values(f).add(b.add(upper(s, n, k, path, j + 1))));
    }
}
// all vectors of a list have its length
pub proof fn lemma_full_len(d: D, n: int, w: spec_fn(int) -> bool, ar: spec_fn(int) -> int, k: int, i: int)
    requires 0 <= i < full(d, n, w, ar, k).len()
    ensures full(d, n, w, ar, k)[i].len() == (if k <= 0 { 0 } else { k })
    decreases k, 1int, 0int
{ reveal_with_fuel(full, 1); if k > 0 { lemma_fan_lens(d, n, w, ar, k, ar(k - 1), i); } }
pub proof fn lemma_fan_lens(d: D, n: int, w: spec_fn(int) -> bool, ar: spec_fn(int) -> int, k: int, j: int, i: int)
    requires k > 0, 0 <= i < fan(d, n, w, ar, k, j).len()
    ensures fan(d, n, w, ar, k, j)[i].len() == k
    decreases k, 0int, j
{
    reveal_with_fuel(fan, 1); reveal_with_fuel(full, 1);
    if j > 0 {
        let x = fan(d, n, w, ar, k, j - 1); let l = full(d, child(d, n, k, j - 1), w, ar, k - 1);
        assert(fan(d, n, w, ar, k, j) =~= x.add(cons(j - 1, l))) by { reveal_with_fuel(fan, 1); reveal_with_fuel(full, 1); }
        if i < x.len() { lemma_fan_lens(d, n, w, ar, k, j - 1, i); } else { lemma_full_len(d, child(d, n, k, j - 1), w, ar, k - 1, i - x.len()); }
    }
}
pub proof fn lemma_split(s: Src, n: int, k: int, path: Row)
    requires k > 0, 0 <= (s.ar)(k - 1)
    ensures below(s, n, k, path) == upper(s, n, k, path, 0)
{
    lemma_below(s, n, k, path, 0);
    reveal_with_fuel(fan, 1);
    assert(fan(s.d, n, s.w, s.ar, k, 0).map_values(|v: Vec0| told(s.names, path, v)).add(upper(s, n, k, path, 0)) =~= upper(s, n, k, path, 0)) by { assert(fan(s.d, n, s.w, s.ar, k, 0) =~= Seq::<Vec0>::empty()); }
}
// nothing is wanted of an undetermined function
pub proof fn lemma_none(s: Src, n: int, k: int)
    requires s.d[n] is T, !(s.w)(s.d[n]->T_0)
    ensures full(s.d, n, s.w, s.ar, k) =~= Seq::<Vec0>::empty()
    decreases k, 1int, 0int
{ reveal_with_fuel(full, 1); if k > 0 { lemma_none_fan(s, n, k, (s.ar)(k - 1)); } }
pub proof fn lemma_none_fan(s: Src, n: int, k: int, j: int)
    requires s.d[n] is T, !(s.w)(s.d[n]->T_0), k > 0
    ensures fan(s.d, n, s.w, s.ar, k, j) =~= Seq::<Vec0>::empty()
    decreases k, 0int, j
{
    reveal_with_fuel(fan, 1); reveal_with_fuel(full, 1);
    if j > 0 { lemma_none_fan(s, n, k, j - 1); lemma_none(s, n, k - 1); assert(child(s.d, n, k, j - 1) == n); assert(cons(j - 1, full(s.d, n, s.w, s.ar, k - 1)) =~= Seq::<Vec0>::empty());
        assert(fan(s.d, n, s.w, s.ar, k, j) =~= fan(s.d, n, s.w, s.ar, k, j - 1).add(cons(j - 1, full(s.d, n, s.w, s.ar, k - 1)))) by { reveal_with_fuel(fan, 1); reveal_with_fuel(full, 1); } }
}
pub proof fn lemma_below_term(s: Src, n: int, k: int, path: Row)
    requires s.d[n] is T
    ensures k <= 0 && (s.w)(s.d[n]->T_0) ==> below(s, n, k, path) == seq![path], !(s.w)(s.d[n]->T_0) ==> below(s, n, k, path) == Seq::<Row>::empty()
{
    reveal(below); reveal_with_fuel(full, 1);
    if !(s.w)(s.d[n]->T_0) { lemma_none(s, n, k); assert(below(s, n, k, path) =~= Seq::<Row>::empty()); }
    else if k <= 0 { assert(below(s, n, k, path) =~= seq![path]); }
}
// one more state of the component on the stack
pub proof fn lemma_step(s: Src, st: Seq<MddStackValue>, path: Row, n: int, k: int, j: int)
    requires k > 0, 0 <= j < (s.ar)(k - 1), clean(s, st, path), fresh(s.names, k, path), distinct(s.names), k <= s.names.len(), (s.ar)(k - 1) <= usize::MAX
    ensures forall|x: String, l: Option<usize>, m: NodeId, y: String, c: usize| x@ == s.names[k - 1] && y@ == x@ && lvk(l) == k - 1 && m == child(s.d, n, k, j) && c == j && item_ok(s, l, m) ==> {
        &&& #[trigger] out(s, st.push(MddStackValue::Pop(x)).push(MddStackValue::Node(l, m)).push(MddStackValue::Push(y, c)), path) == below(s, m as int, k - 1, path.insert(s.names[k - 1], c)).add(out(s, st, path))
        &&& clean(s, st.push(MddStackValue::Pop(x)).push(MddStackValue::Node(l, m)).push(MddStackValue::Push(y, c)), path)
        &&& cost(s, st.push(MddStackValue::Pop(x)).push(MddStackValue::Node(l, m)).push(MddStackValue::Push(y, c))) == cost(s, st) + 2 + cost1(s, k - 1)
    }
{
    lemma_out(s);
    let p2 = path.insert(s.names[k - 1], j as usize);
    assert(p2.remove(s.names[k - 1]) =~= path);
    assert(fresh(s.names, k - 1, p2));
    assert forall|x: String, l: Option<usize>, m: NodeId, y: String, c: usize| x@ == s.names[k - 1] && y@ == x@ && lvk(l) == k - 1 && m == child(s.d, n, k, j) && c == j && item_ok(s, l, m) implies {
        &&& #[trigger] out(s, st.push(MddStackValue::Pop(x)).push(MddStackValue::Node(l, m)).push(MddStackValue::Push(y, c)), path) == below(s, m as int, k - 1, path.insert(s.names[k - 1], c)).add(out(s, st, path))
        &&& clean(s, st.push(MddStackValue::Pop(x)).push(MddStackValue::Node(l, m)).push(MddStackValue::Push(y, c)), path)
        &&& cost(s, st.push(MddStackValue::Pop(x)).push(MddStackValue::Node(l, m)).push(MddStackValue::Push(y, c))) == cost(s, st) + 2 + cost1(s, k - 1)
    } by {
        let s1 = st.push(MddStackValue::Pop(x)); let s2 = s1.push(MddStackValue::Node(l, m)); let s3 = s2.push(MddStackValue::Push(y, c));
        assert(c == j as usize);
        assert(out(s, s3, path) == out(s, s2, p2)); assert(out(s, s2, p2) == below(s, m as int, k - 1, p2).add(out(s, s1, p2))); assert(out(s, s1, p2) == out(s, st, path));
        assert(clean(s, s1, p2)); assert(clean(s, s2, p2));
        assert(cost(s, s1) == cost(s, st) + 1);
        assert(cost(s, s2) == cost(s, s1) + cost1(s, k - 1));
    }
}
pub proof fn lemma_upper(s: Src, n: int, k: int, path: Row, rest: Seq<Row>)
    ensures upper(s, n, k, path, (s.ar)(k - 1)).add(rest) == rest
{ reveal_with_fuel(upper, 1); assert(upper(s, n, k, path, (s.ar)(k - 1)).add(rest) =~= rest); }
pub proof fn lemma_upper1(s: Src, n: int, k: int, path: Row, rest: Seq<Row>, j: int)
    requires 0 <= j < (s.ar)(k - 1)
    ensures below(s, child(s.d, n, k, j), k - 1, path.insert(s.names[k - 1], j as usize)).add(upper(s, n, k, path, j + 1).add(rest)) == upper(s, n, k, path, j).add(rest)
{
    reveal_with_fuel(upper, 1);
    let b = below(s, child(s.d, n, k, j), k - 1, path.insert(s.names[k - 1], j as usize));
    assert(b.add(upper(s, n, k, path, j + 1)).add(rest) =~= b.add(upper(s, n, k, path, j + 1).add(rest)));
}
pub open spec fn same(p: &MddPath, q: &MddPath) -> bool { p.labels == q.labels && p.edges == q.edges && p.ss == q.ss && p.node == q.node }
//@fn mss mdd_path::MddPath::vnext
//@args vx_mdd
//@attr #[verifier::spinoff_prover]
    requires vx_mdd.wf(), walk_ok(vx_mdd, old(self)), old(self).node.node is Value
    ensures walk_ok(vx_mdd, final(self)), same(final(self), old(self)),
        match r {
            Some(p) => left(vx_mdd, old(self)) == seq![p@].add(left(vx_mdd, final(self))),
            None => left(vx_mdd, old(self)) =~= Seq::<Row>::empty() && left(vx_mdd, final(self)) =~= Seq::<Row>::empty(),
        }
//@entry
    let ghost s = src(vx_mdd, old(self)); let ghost d = s.d;
    proof { lemma_out(s); lemma_cost(s); }
//@loop 0
    invariant vx_mdd.wf(), walk_ok(vx_mdd, self), same(self, old(self)), self.node.node is Value, left(vx_mdd, self) == left(vx_mdd, old(self)), s == src(vx_mdd, self), d == s.d,
    decreases cost(s, self.next_stack@)
//@loopbegin 0
    let ghost st = self.next_stack@; let ghost pa = self.path@; let ghost rest = out(s, st, pa); let ghost p0 = $p;
    let ghost kk: int = match p0 { MddStackValue::Node(l, n) => lvk(l), _ => 0 }; let ghost nn: int = match p0 { MddStackValue::Node(l, n) => n as int, _ => 0 };
    proof {
        lemma_out(s); lemma_cost(s);
        assert(left(vx_mdd, old(self)) == popped(s, p0, st, pa)) by { reveal_with_fuel(out, 1); }
        assert(clean1(s, p0, st, pa)) by { reveal_with_fuel(clean, 1); }
        reveal_with_fuel(cost, 1); assert(costs(s, kk, 0) == 0) by { reveal_with_fuel(costs, 1); } assert(kk > 0 ==> cost1(s, kk) == 1 + costs(s, kk, (s.ar)(kk - 1))) by { reveal_with_fuel(cost1, 1); reveal_with_fuel(costs, 1); }
        match p0 {
            MddStackValue::Node(l, n) => {
                let k = lvk(l); let id = n as int;
                vx_mdd.mtmdd.lemma_dag(); vx_mdd.mtmdd.lemma_node(id);
                assert(Seq::<Row>::empty().add(rest) =~= rest);
                if k > 0 { lemma_split(s, id, k, pa); lemma_upper(s, id, k, pa, rest); reveal_with_fuel(cost1, 1); assert(node_arity(d, id, s.ar)); }
                if d[id] is T { lemma_below_term(s, id, k, pa); }
            },
            _ => {},
        }
    }
//@loop 1
    nedge == (s.ar)(kk - 1), s == src(vx_mdd, self), same(self, old(self)), self.path@ == pa, 0 < kk, clean(s, self.next_stack@, pa), fresh(s.names, kk, pa), out(s, self.next_stack@, pa) == upper(s, nn, kk, pa, nedge - $i).add(rest),
        cost(s, self.next_stack@) == cost(s, st) + costs(s, kk, $i as int),
//@loopbegin 1
    proof { reveal_with_fuel(costs, 1); lemma_step(s, self.next_stack@, pa, nn, kk, nedge - 1 - $i); lemma_child(d, nn, s.ar, kk, nedge - 1 - $i); lemma_upper1(s, nn, kk, pa, rest, nedge - 1 - $i); }
//@loop 3
    $b@.len() == (s.ar)(kk - 1), s == src(vx_mdd, self), same(self, old(self)), self.path@ == pa, 0 < kk, clean(s, self.next_stack@, pa), fresh(s.names, kk, pa), out(s, self.next_stack@, pa) == upper(s, nn, kk, pa, $b@.len() - $i).add(rest),
        cost(s, self.next_stack@) == cost(s, st) + costs(s, kk, $i as int),
//@loopbegin 3
    proof { reveal_with_fuel(costs, 1); lemma_step(s, self.next_stack@, pa, nn, kk, $n - 1 - $i); lemma_child(d, nn, s.ar, kk, $n - 1 - $i); lemma_upper1(s, nn, kk, pa, rest, $n - 1 - $i); }
//@end
//@fn mss mdd_path::MddPath::bnext
//@args vx_mdd
//@attr #[verifier::spinoff_prover]
    requires vx_mdd.wf(), walk_ok(vx_mdd, old(self)), old(self).node.node is Bool
    ensures walk_ok(vx_mdd, final(self)), same(final(self), old(self)),
        match r {
            Some(p) => left(vx_mdd, old(self)) == seq![p@].add(left(vx_mdd, final(self))),
            None => left(vx_mdd, old(self)) =~= Seq::<Row>::empty() && left(vx_mdd, final(self)) =~= Seq::<Row>::empty(),
        }
//@entry
    let ghost s = src(vx_mdd, old(self)); let ghost d = s.d;
    proof { lemma_out(s); lemma_cost(s); }
//@loop 0
    invariant vx_mdd.wf(), walk_ok(vx_mdd, self), same(self, old(self)), self.node.node is Bool, left(vx_mdd, self) == left(vx_mdd, old(self)), s == src(vx_mdd, self), d == s.d,
    decreases cost(s, self.next_stack@)
//@loopbegin 0
    let ghost st = self.next_stack@; let ghost pa = self.path@; let ghost rest = out(s, st, pa); let ghost p0 = $p;
    let ghost kk: int = match p0 { MddStackValue::Node(l, n) => lvk(l), _ => 0 }; let ghost nn: int = match p0 { MddStackValue::Node(l, n) => n as int, _ => 0 };
    proof {
        lemma_out(s); lemma_cost(s);
        assert(left(vx_mdd, old(self)) == popped(s, p0, st, pa)) by { reveal_with_fuel(out, 1); }
        assert(clean1(s, p0, st, pa)) by { reveal_with_fuel(clean, 1); }
        reveal_with_fuel(cost, 1); assert(costs(s, kk, 0) == 0) by { reveal_with_fuel(costs, 1); } assert(kk > 0 ==> cost1(s, kk) == 1 + costs(s, kk, (s.ar)(kk - 1))) by { reveal_with_fuel(cost1, 1); reveal_with_fuel(costs, 1); }
        match p0 {
            MddStackValue::Node(l, n) => {
                let k = lvk(l); let id = n as int;
                vx_mdd.mdd.lemma_dag(); vx_mdd.mdd.lemma_node(id);
                assert(Seq::<Row>::empty().add(rest) =~= rest);
                if k > 0 { lemma_split(s, id, k, pa); lemma_upper(s, id, k, pa, rest); reveal_with_fuel(cost1, 1); assert(node_arity(d, id, s.ar)); }
                if d[id] is T { lemma_below_term(s, id, k, pa); }
            },
            _ => {},
        }
    }
//@loop 1
    nedge == (s.ar)(kk - 1), s == src(vx_mdd, self), same(self, old(self)), self.path@ == pa, 0 < kk, clean(s, self.next_stack@, pa), fresh(s.names, kk, pa), out(s, self.next_stack@, pa) == upper(s, nn, kk, pa, nedge - $i).add(rest),
        cost(s, self.next_stack@) == cost(s, st) + costs(s, kk, $i as int),
//@loopbegin 1
    proof { reveal_with_fuel(costs, 1); lemma_step(s, self.next_stack@, pa, nn, kk, nedge - 1 - $i); lemma_child(d, nn, s.ar, kk, nedge - 1 - $i); lemma_upper1(s, nn, kk, pa, rest, nedge - 1 - $i); }
//@loop 3
    $b@.len() == (s.ar)(kk - 1), s == src(vx_mdd, self), same(self, old(self)), self.path@ == pa, 0 < kk, clean(s, self.next_stack@, pa), fresh(s.names, kk, pa), out(s, self.next_stack@, pa) == upper(s, nn, kk, pa, $b@.len() - $i).add(rest),
        cost(s, self.next_stack@) == cost(s, st) + costs(s, kk, $i as int),
//@loopbegin 3
    proof { reveal_with_fuel(costs, 1); lemma_step(s, self.next_stack@, pa, nn, kk, $n - 1 - $i); lemma_child(d, nn, s.ar, kk, $n - 1 - $i); lemma_upper1(s, nn, kk, pa, rest, $n - 1 - $i); }
//@end
//@fn mss mdd_path::MddPath::next
//@args vx_mdd
    requires vx_mdd.wf(), walk_ok(vx_mdd, old(self))
    ensures walk_ok(vx_mdd, final(self)), same(final(self), old(self)),
        match r {
            Some(p) => left(vx_mdd, old(self)) == seq![p@].add(left(vx_mdd, final(self))),
            None => left(vx_mdd, old(self)) =~= Seq::<Row>::empty() && left(vx_mdd, final(self)) =~= Seq::<Row>::empty(),
        }
//@end
pub open spec fn names_ok(h: Seq<NodeHeader>, names: Words) -> bool { names.len() == h.len() && forall|i: int| 0 <= i < h.len() ==> names[(#[trigger] h[i]).level as int] == h[i].label@ }
pub open spec fn heads_of(b: &MtMdd2Manager, n: Node) -> Seq<NodeHeader> { match n { Node::Value(_) => b.mtmdd.headers@, Node::Bool(_) => b.mdd.headers@ } }
pub open spec fn filled(h: Seq<NodeHeader>, labels: Seq<String>, edges: Seq<usize>, n: int) -> bool {
    labels.len() == h.len() && edges.len() == h.len() && forall|i: int| 0 <= i < n ==> labels[(#[trigger] h[i]).level as int]@ == h[i].label@ && edges[h[i].level as int] == h[i].edge_num
}
// labels of different headers differ
pub open spec fn labels_differ(h: Seq<NodeHeader>) -> bool { forall|i: int, j: int| 0 <= i < j < h.len() ==> (#[trigger] h[i]).label@ != (#[trigger] h[j]).label@ }
pub proof fn lemma_distinct(h: Seq<NodeHeader>, names: Words)
    requires packed(h), labels_differ(h), names_ok(h, names)
    ensures distinct(names)
{
    assert forall|i: int, j: int| 0 <= i < j < names.len() implies #[trigger] names[i] != #[trigger] names[j] by {
        assert(has_level(h, i) && has_level(h, j));
        let x = choose|x: int| 0 <= x < h.len() && (#[trigger] h[x]).level == i; let y = choose|y: int| 0 <= y < h.len() && (#[trigger] h[y]).level == j;
        assert(names[i] == h[x].label@ && names[j] == h[y].label@);
        if x < y { assert(h[x].label@ != h[y].label@); } else { assert(h[y].label@ != h[x].label@); }
    }
}
// the wanted paths of a node in full
pub open spec fn listing(s: Src, n: int) -> Seq<Row> { below(s, n, lv(s.d, n), IMap::empty()) }
pub proof fn lemma_vd(m: &MtMddManager, e: Seq<usize>)
    requires m.wf(), packed(m.headers@), e.len() == m.headers.len(), forall|i: int| 0 <= i < m.headers.len() ==> e[(#[trigger] m.headers[i]).level as int] == m.headers[i].edge_num
    ensures node_ar(m.dag(), edge_fn(e)), dag_ok(m.dag()), forall|n: int| #[trigger] m.live(n) ==> 0 <= lv(m.dag(), n) <= m.headers.len(),
        forall|l: int| 0 <= l < e.len() ==> #[trigger] arity(m.headers@, l) == e[l], node_ar(m.dag(), |l: int| arity(m.headers@, l))
{
    let h = m.headers@; m.lemma_dag();
    assert forall|n: int| #[trigger] m.live(n) implies 0 <= lv(m.dag(), n) <= h.len() by { m.lemma_node(n); }
    assert forall|i: int| #[trigger] m.dag().dom().contains(i) implies node_arity(m.dag(), i, edge_fn(e)) by { m.lemma_node(i); }
    assert forall|l: int| 0 <= l < e.len() implies #[trigger] arity(h, l) == e[l] by { assert(has_level(h, l)); let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).level == l; assert(arities(h)); lemma_arity(h, i); }
    let ar = |l: int| arity(h, l);
    assert forall|i: int| #[trigger] m.dag().dom().contains(i) implies node_arity(m.dag(), i, ar) by { m.lemma_node(i); if m.dag()[i] is N { let l = m.dag()[i]->level; assert(ar(l) == e[l]); } }
}
pub proof fn lemma_bd(m: &MddManager, e: Seq<usize>)
    requires m.wf(), packed(m.headers@), e.len() == m.headers.len(), forall|i: int| 0 <= i < m.headers.len() ==> e[(#[trigger] m.headers[i]).level as int] == m.headers[i].edge_num
    ensures node_ar(m.dag(), edge_fn(e)), dag_ok(m.dag()), forall|n: int| #[trigger] m.live(n) ==> 0 <= lv(m.dag(), n) <= m.headers.len(),
        forall|l: int| 0 <= l < e.len() ==> #[trigger] arity(m.headers@, l) == e[l], node_ar(m.dag(), |l: int| arity(m.headers@, l))
{
    let h = m.headers@; m.lemma_dag();
    assert forall|n: int| #[trigger] m.live(n) implies 0 <= lv(m.dag(), n) <= h.len() by { m.lemma_node(n); }
    assert forall|i: int| #[trigger] m.dag().dom().contains(i) implies node_arity(m.dag(), i, edge_fn(e)) by { m.lemma_node(i); }
    assert forall|l: int| 0 <= l < e.len() implies #[trigger] arity(h, l) == e[l] by { assert(has_level(h, l)); let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).level == l; assert(arities(h)); lemma_arity(h, i); }
    let ar = |l: int| arity(h, l);
    assert forall|i: int| #[trigger] m.dag().dom().contains(i) implies node_arity(m.dag(), i, ar) by { m.lemma_node(i); if m.dag()[i] is N { let l = m.dag()[i]->level; assert(ar(l) == e[l]); } }
}
pub proof fn lemma_start(s: Src, st: Seq<MddStackValue>, p: Row)
    requires st.len() == 1, st[0] is Node
    ensures out(s, st, p) == below(s, st[0]->Node_1 as int, lvk(st[0]->Node_0), p), clean(s, st, p) <==> item_ok(s, st[0]->Node_0, st[0]->Node_1) && fresh(s.names, lvk(st[0]->Node_0), p)
{
    reveal_with_fuel(out, 2); reveal_with_fuel(clean, 2);
    let l = below(s, st[0]->Node_1 as int, lvk(st[0]->Node_0), p);
    assert(l.add(Seq::<Row>::empty()) =~= l);
}
//@fn mss mdd_path::MddPath::new
//@args node ss vx_mdd vx_gc
//@attr #[verifier::spinoff_prover]
    requires hinv(vx_mdd, old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), node), packed(heads_of(vx_mdd, node.node)), labels_differ(heads_of(vx_mdd, node.node))
    ensures hinv(vx_mdd, final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, node.node), walk_ok(vx_mdd, &r), r.node.node == node.node, r.ss@ == ss@,
        filled(heads_of(vx_mdd, node.node), r.labels@, r.edges@, heads_of(vx_mdd, node.node).len() as int),
        left(vx_mdd, &r) == listing(src(vx_mdd, &r), nid(node.node) as int)
//@entry
    let ghost h = heads_of(vx_mdd, node.node);
    proof { match node.node { Node::Value(x) => { vx_mdd.lemma_v(x as int); vx_mdd.mtmdd.lemma_node(x as int); }, Node::Bool(x) => { vx_mdd.lemma_b(x as int); vx_mdd.mdd.lemma_node(x as int); } } }
//@loop 0
    h == vx_mdd.mtmdd.headers@, packed(h), nheaders == h.len(), filled(h, labels@, edges@, $i as int),
//@loop 1
    h == vx_mdd.mdd.headers@, packed(h), nheaders == h.len(), filled(h, labels@, edges@, $i as int),
//@exit
    proof {
        let s = src(vx_mdd, &vx_r);
        lemma_start(s, vx_r.next_stack@, vx_r.path@);
        assert(names_ok(h, s.names));
        lemma_distinct(h, s.names);
        match node.node { Node::Value(x) => { lemma_vd(&vx_mdd.mtmdd, vx_r.edges@); }, Node::Bool(x) => { lemma_bd(&vx_mdd.mdd, vx_r.edges@); } }
        assert(vx_r.path@ =~= IMap::empty());
        assert(fresh(s.names, lv(s.d, nid(node.node) as int), vx_r.path@));
    }
//@end
// what is told of a vector: the state of every component below
pub open spec fn named(names: Words, k: int, x: Seq<char>) -> bool { exists|l: int| 0 <= l < k && #[trigger] names[l] == x }
pub proof fn lemma_told(names: Words, path: Row, v: Vec0)
    requires distinct(names), v.len() <= names.len()
    ensures forall|x: Seq<char>| #[trigger] told(names, path, v).dom().contains(x) <==> path.dom().contains(x) || named(names, v.len() as int, x),
        forall|l: int| 0 <= l < v.len() ==> told(names, path, v)[#[trigger] names[l]] == asgv(v)(l) as usize,
        forall|x: Seq<char>| !named(names, v.len() as int, x) ==> #[trigger] told(names, path, v)[x] == path[x]
    decreases v.len()
{
    if v.len() > 0 {
        let k = v.len() as int; let u = v.skip(1); let q = path.insert(names[k - 1], v[0] as usize);
        lemma_told(names, q, u);
        let t = told(names, path, v);
        assert(t == told(names, q, u));
        assert forall|x: Seq<char>| named(names, k, x) <==> #[trigger] named(names, k - 1, x) || x == names[k - 1] by { if x == names[k - 1] { assert(named(names, k, x)); } }
        assert forall|x: Seq<char>| #[trigger] t.dom().contains(x) <==> path.dom().contains(x) || named(names, k, x) by { assert(named(names, k, x) <==> named(names, k - 1, x) || x == names[k - 1]); }
        assert forall|l: int| 0 <= l < k implies t[#[trigger] names[l]] == asgv(v)(l) as usize by {
            if l < k - 1 { assert(t[names[l]] == asgv(u)(l) as usize); } else { assert(!named(names, k - 1, names[l])); assert(t[names[l]] == q[names[l]]); }
        }
        assert forall|x: Seq<char>| !named(names, k, x) implies #[trigger] t[x] == path[x] by { assert(named(names, k, x) <==> named(names, k - 1, x) || x == names[k - 1]); }
    }
}
// only the numbers of states below the node's level matter
pub proof fn lemma_full_ar(d: D, n: int, w: spec_fn(int) -> bool, ar: spec_fn(int) -> int, ar2: spec_fn(int) -> int, k: int)
    requires forall|l: int| 0 <= l < k ==> #[trigger] ar(l) == ar2(l)
    ensures full(d, n, w, ar, k) == full(d, n, w, ar2, k)
    decreases k, 1int, 0int
{ reveal_with_fuel(full, 1); if k > 0 { assert(ar(k - 1) == ar2(k - 1)); lemma_fan_ar(d, n, w, ar, ar2, k, ar(k - 1)); } }
pub proof fn lemma_fan_ar(d: D, n: int, w: spec_fn(int) -> bool, ar: spec_fn(int) -> int, ar2: spec_fn(int) -> int, k: int, j: int)
    requires forall|l: int| 0 <= l < k ==> #[trigger] ar(l) == ar2(l)
    ensures fan(d, n, w, ar, k, j) == fan(d, n, w, ar2, k, j)
    decreases k, 0int, j
{ reveal_with_fuel(fan, 1); reveal_with_fuel(full, 1); if k > 0 && j > 0 { lemma_fan_ar(d, n, w, ar, ar2, k, j - 1); lemma_full_ar(d, child(d, n, k, j - 1), w, ar, ar2, k - 1);
    assert(fan(d, n, w, ar, k, j) =~= fan(d, n, w, ar, k, j - 1).add(cons(j - 1, full(d, child(d, n, k, j - 1), w, ar, k - 1)))) by { reveal_with_fuel(fan, 1); reveal_with_fuel(full, 1); }
    assert(fan(d, n, w, ar2, k, j) =~= fan(d, n, w, ar2, k, j - 1).add(cons(j - 1, full(d, child(d, n, k, j - 1), w, ar2, k - 1)))) by { reveal_with_fuel(fan, 1); reveal_with_fuel(full, 1); } } }
// THEOREM: a new iterator over a node has to return, for every assignment of the variables up to the node's level at which its value is wanted and for no other, each once,
// the row that gives exactly these variables their state; there are as many as the count says
pub open spec fn row_of(s: Src, k: int, v: Vec0, r: Row) -> bool {
    &&& forall|x: Seq<char>| #[trigger] r.dom().contains(x) <==> named(s.names, k, x)
    &&& forall|l: int| 0 <= l < k ==> r[#[trigger] s.names[l]] == asgv(v)(l)
}
pub open spec fn complete(s: Src, n: int, rows: Seq<Row>, l: Seq<Vec0>) -> bool {
    let k = lv(s.d, n);
    &&& rows.len() == l.len()
    &&& forall|i: int| 0 <= i < l.len() ==> row_of(s, k, l[i], #[trigger] rows[i])
    &&& forall|v: Vec0| #[trigger] l.contains(v) <==> vec_ok(s.ar, v, k) && (s.w)(eval(s.d, n, asgv(v)))
    &&& l.no_duplicates()
}
pub open spec fn tally(h: Seq<NodeHeader>, n: Node, ss: ISet<int>) -> WS { match n { Node::Value(_) => vcounting(h, ss), Node::Bool(_) => bcounting(h, ss) } }
pub proof fn lemma_rows(s: Src, n: int)
    requires dag_ok(s.d), node_ar(s.d, s.ar), s.d.dom().contains(n), distinct(s.names), 0 <= lv(s.d, n) <= s.names.len(), forall|c: int| 0 <= c < s.names.len() ==> #[trigger] (s.ar)(c) <= usize::MAX
    ensures complete(s, n, listing(s, n), full(s.d, n, s.w, s.ar, lv(s.d, n)))
{
    let k = lv(s.d, n); let l = full(s.d, n, s.w, s.ar, k); let rows = listing(s, n);
    theorem_full(s.d, n, s.w, s.ar, k);
    assert(rows.len() == l.len()) by { reveal(below); }
    assert forall|i: int| 0 <= i < l.len() implies row_of(s, k, l[i], #[trigger] rows[i]) by {
        reveal(below);
        assert(l.contains(l[i]));
        let v = l[i];
        lemma_told(s.names, IMap::empty(), v);
        assert(rows[i] == told(s.names, IMap::empty(), v));
        assert forall|c: int| 0 <= c < k implies rows[i][#[trigger] s.names[c]] == asgv(v)(c) by { assert(0 <= v[k - 1 - c] < (s.ar)(c)); assert((s.ar)(c) <= usize::MAX); }
    }
}
pub proof fn lemma_rows_len(s: Src, n: int, t: WS)
    requires dag_ok(s.d), node_ar(s.d, t.ar), s.d.dom().contains(n), 0 <= lv(s.d, n), forall|c: int| 0 <= c < lv(s.d, n) ==> #[trigger] (s.ar)(c) == (t.ar)(c),
        forall|l: int, c: int| #[trigger] (t.w)(l, c) == 1real, forall|v: int| #[trigger] (t.g)(v) == (if (s.w)(v) { 1real } else { 0real })
    ensures full(s.d, n, s.w, s.ar, lv(s.d, n)).len() as real == wval(s.d, n, t)
{ let k = lv(s.d, n); lemma_full_ar(s.d, n, s.w, s.ar, t.ar, k); theorem_full_len(s.d, n, s.w, t, k, none()); }
pub proof fn theorem_paths(b: &MtMdd2Manager, p: &MddPath)
    requires b.wf(), b.live(p.node.node), packed(heads_of(b, p.node.node)), labels_differ(heads_of(b, p.node.node)), filled(heads_of(b, p.node.node), p.labels@, p.edges@, heads_of(b, p.node.node).len() as int)
    ensures ({ let s = src(b, p); let n = nid(p.node.node) as int; let l = full(s.d, n, s.w, s.ar, lv(s.d, n));
        &&& complete(s, n, listing(s, n), l)
        &&& l.len() as real == wval(s.d, n, tally(heads_of(b, p.node.node), p.node.node, p.ss@))
        &&& forall|i: int| 0 <= i < s.names.len() ==> (s.ar)(i) == #[trigger] arity(heads_of(b, p.node.node), i)
        &&& names_ok(heads_of(b, p.node.node), s.names) })
{
    let s = src(b, p); let n = nid(p.node.node) as int; let k = lv(s.d, n); let h = heads_of(b, p.node.node); let t = tally(h, p.node.node, p.ss@);
    assert(names_ok(h, s.names));
    lemma_distinct(h, s.names);
    match p.node.node { Node::Value(x) => { lemma_vd(&b.mtmdd, p.edges@); b.mtmdd.lemma_node(x as int); }, Node::Bool(x) => { lemma_bd(&b.mdd, p.edges@); b.mdd.lemma_node(x as int); } }
    assert(t.ar =~= |l: int| arity(h, l));
    assert forall|c: int| 0 <= c < h.len() implies #[trigger] (s.ar)(c) == arity(h, c) by { assert(arity(h, c) == p.edges@[c]); }
    assert forall|c: int| 0 <= c < s.names.len() implies #[trigger] (s.ar)(c) <= usize::MAX by { assert(arity(h, c) == p.edges@[c]); }
    lemma_rows(s, n);
    lemma_rows_len(s, n, t);
}
// headers of a manager that only declares variables: one for every level, and the labels differ
pub proof fn theorem_packed(m: &MddMgr, b: &MtMdd2Manager, g: &GcState)
    requires vinv(m, b, g), forall|i: int| 0 <= i < b.mtmdd.headers@.len() ==> (#[trigger] b.mtmdd.headers@[i]).edge_num <= u32::MAX
    ensures forall|n: Node| packed(#[trigger] heads_of(b, n)) && labels_differ(heads_of(b, n))
{
    assert forall|n: Node| packed(#[trigger] heads_of(b, n)) && labels_differ(heads_of(b, n)) by {
        let h = heads_of(b, n);
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).level == i && h[i].label@ == b.mtmdd.headers@[i].label@ && h[i].edge_num <= u32::MAX by { }
        assert forall|l: int| 0 <= l < h.len() implies #[trigger] has_level(h, l) by { assert(h[l].level == l); }
    }
}
//@typemap u64 Rn
//@fn mss mdd::MddNode::mdd_count
//@args ss vx_mdd
    requires vx_mdd.wf(), vx_mdd.live(self.node), packed(vx_mdd.mdd.headers@), packed(vx_mdd.mtmdd.headers@)
    ensures r.v() == match self.node { Node::Value(f) => wval(vx_mdd.vd(), f as int, vcounting(vx_mdd.mtmdd.headers@, ss@)), Node::Bool(f) => wval(vx_mdd.bd(), f as int, bcounting(vx_mdd.mdd.headers@, ss@)) }
//@end
//@fn mss mdd_path::MddPath::len
//@args vx_mdd
    requires vx_mdd.wf(), vx_mdd.live(self.node.node), packed(vx_mdd.mdd.headers@), packed(vx_mdd.mtmdd.headers@)
    ensures r.v() == match self.node.node { Node::Value(f) => wval(vx_mdd.vd(), f as int, vcounting(vx_mdd.mtmdd.headers@, self.ss@)), Node::Bool(f) => wval(vx_mdd.bd(), f as int, bcounting(vx_mdd.mdd.headers@, self.ss@)) }
//@end
//@fn mss mdd::MddNode::mdd_extract
//@args ss vx_mdd vx_gc
    requires hinv(vx_mdd, old(vx_gc)), room(old(vx_gc)), pins(old(vx_gc), self), packed(heads_of(vx_mdd, self.node)), labels_differ(heads_of(vx_mdd, self.node))
    ensures hinv(vx_mdd, final(vx_gc)), final(vx_gc).roots@ == inc(old(vx_gc).roots@, self.node), walk_ok(vx_mdd, &r), r.node.node == self.node, r.ss@ == ss@,
        filled(heads_of(vx_mdd, self.node), r.labels@, r.edges@, heads_of(vx_mdd, self.node).len() as int),
        left(vx_mdd, &r) == listing(src(vx_mdd, &r), nid(self.node) as int)
//@end

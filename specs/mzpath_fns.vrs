// ---------------------------------------------------------------- the vectors of a family, one after the other
pub mod mzp { use super::*;
use super::mzw::*;
broadcast use {numax::axiom_num, numax::axiom_num_eq};
//@item mss zmdd::SV
//@item mss zmdd::ZmddPath
//@typemap Self::Item PathItem
pub type PathItem = HashMap<String, usize>;
pub type Row = IMap<Seq<char>, usize>;
pub type Words = Seq<Seq<char>>;
pub open spec fn hit(ss: ISet<int>, e: int) -> bool { e != 0 && ss.contains(zmdd::dec(e)) }
pub open spec fn ht(d: D, n: int) -> int { if lv(d, n) >= 0 { lv(d, n) } else { 0 } }
pub open spec fn nothing() -> Asg { |l: int| 0int }
pub open spec fn put_all(v: Seq<Asg>, l: int, c: int) -> Seq<Asg> { v.map_values(|a: Asg| with(a, l, c)) }
// the vectors under a wanted label, in the order of the walk
#[verifier::opaque]
pub open spec fn vecs(d: D, ss: ISet<int>, n: int) -> Seq<Asg> decreases ht(d, n), 1int, 0int {
    match d[n] { SN::T(v) => if hit(ss, v) { seq![nothing()] } else { Seq::empty() }, SN::N { level, kids } => vup(d, ss, n, 0) }
}
// those with the topmost component in state j or more
#[verifier::opaque]
pub open spec fn vup(d: D, ss: ISet<int>, n: int, j: int) -> Seq<Asg> decreases ht(d, n), 0int, d[n]->N_kids.len() - j {
    match d[n] {
        SN::N { level, kids } => if 0 <= j < kids.len() && 0 <= lv(d, kids[j]) < lv(d, n) { put_all(vecs(d, ss, kids[j]), level, j).add(vup(d, ss, n, j + 1)) } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
pub open spec fn nkids(d: D, n: int) -> int { d[n]->N_kids.len() as int }
pub open spec fn kidn(d: D, n: int, j: int) -> int { d[n]->N_kids[j] }
pub open spec fn topl(d: D, n: int) -> int { d[n]->N_level }
pub proof fn lemma_vup(d: D, ss: ISet<int>, n: int, j: int)
    requires dag_ok(d), d.dom().contains(n), d[n] is N
    ensures 0 <= j < nkids(d, n) ==> vup(d, ss, n, j) == put_all(vecs(d, ss, kidn(d, n, j)), topl(d, n), j).add(vup(d, ss, n, j + 1)) && d.dom().contains(kidn(d, n, j)) && 0 <= lv(d, kidn(d, n, j)) < lv(d, n),
        j >= nkids(d, n) ==> vup(d, ss, n, j).len() == 0, vecs(d, ss, n) == vup(d, ss, n, 0)
{ reveal_with_fuel(vup, 1); reveal_with_fuel(vecs, 1); assert(node_ok(d, n)) by { reveal(dag_ok); } if 0 <= j < nkids(d, n) { let kids = d[n]->N_kids; assert(d.dom().contains(kids[j])); } }
pub open spec fn memo_ok(d: D, ss: ISet<int>, memo: IMap<int, u64>) -> bool { forall|n: int| #[trigger] memo.dom().contains(n) ==> memo[n] == vecs(d, ss, n).len() }
pub proof fn lemma_lens(d: D, ss: ISet<int>, n: int)
    requires dag_ok(d), d.dom().contains(n)
    ensures d[n] is T ==> vecs(d, ss, n).len() == (if hit(ss, d[n]->T_0) { 1int } else { 0 }),
        d[n] is N ==> vecs(d, ss, n).len() == vup(d, ss, n, 0).len() && vup(d, ss, n, nkids(d, n)).len() == 0
{ reveal_with_fuel(vecs, 1); if d[n] is N { lemma_vup(d, ss, n, nkids(d, n)); } }
//@fn mss zmdd::zmdd_count
//@args dd node ss cache
    requires dd.wf(), dd.live(node as int), memo_ok(dd.dag(), ss@, old(cache)@), vecs(dd.dag(), ss@, node as int).len() <= u64::MAX
    ensures r == vecs(dd.dag(), ss@, node as int).len(), memo_ok(dd.dag(), ss@, final(cache)@)
    decreases dd.lvl(node as int)
//@entry
    let ghost d = dd.dag(); let ghost id = node as int;
    proof { dd.lemma_node(id); lemma_lens(d, ss@, id); }
//@loop 1
    memo_ok(d, ss@, cache@), $b@.len() == nkids(d, id), forall|c: int| 0 <= c < $b@.len() ==> $b@[c] == kidn(d, id, c), vx_s1 + vup(d, ss@, id, $i as int).len() == vecs(d, ss@, id).len(), vup(d, ss@, id, nkids(d, id)).len() == 0,
//@loopbegin 1
    proof { lemma_vup(d, ss@, id, $i as int); dd.lemma_node(kidn(d, id, $i as int)); }
//@end
//@fn mss zmdd::ZmddNode::count
//@args ss vx_zmdd
    requires vx_zmdd.wf(), vx_zmdd.live(self.node as int), vecs(vx_zmdd.dag(), ss@, self.node as int).len() <= u64::MAX
    ensures r == vecs(vx_zmdd.dag(), ss@, self.node as int).len()
//@end
// what is walked: the diagram, the wanted labels, which way states count, the number of states and the name of every level, and the vector reported where nothing is recorded
pub struct Lvls { pub ar: spec_fn(int) -> int, pub names: Words }
pub struct Src { pub d: D, pub ss: ISet<int>, pub rev: bool, pub g: Lvls, pub base: Row }
pub open spec fn st(s: Src, l: int, c: int) -> usize { (if s.rev { (s.g.ar)(l) - 1 - c } else { c }) as usize }
pub open spec fn put(s: Src, l: int, c: int, path: Row) -> Row { if c == 0 { path } else { path.insert(s.g.names[l], st(s, l, c)) } }
#[verifier::opaque]
pub open spec fn below(s: Src, n: int, path: Row) -> Seq<Row> decreases ht(s.d, n), 1int, 0int {
    match s.d[n] { SN::T(v) => if hit(s.ss, v) { seq![path] } else { Seq::empty() }, SN::N { level, kids } => upper(s, n, path, 0) }
}
#[verifier::opaque]
pub open spec fn upper(s: Src, n: int, path: Row, j: int) -> Seq<Row> decreases ht(s.d, n), 0int, s.d[n]->N_kids.len() - j {
    match s.d[n] {
        SN::N { level, kids } => if 0 <= j < kids.len() && 0 <= lv(s.d, kids[j]) < lv(s.d, n) { below(s, kids[j], put(s, level, j, path)).add(upper(s, n, path, j + 1)) } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
pub open spec fn back(base: Row, path: Row, x: Seq<char>) -> Row { if base.dom().contains(x) { path.insert(x, base[x]) } else { path.remove(x) } }
// everything a walk has still to return, in order
#[verifier::opaque]
pub open spec fn out(s: Src, st: Seq<SV>, path: Row) -> Seq<Row> decreases st.len() {
    if st.len() == 0 { Seq::empty() } else {
        match st.last() {
            SV::Node(n) => below(s, n as int, path).add(out(s, st.drop_last(), path)),
            SV::Push(x, i) => out(s, st.drop_last(), path.insert(x@, i)),
            SV::Pop(x) => out(s, st.drop_last(), back(s.base, path, x@)),
        }
    }
}
pub open spec fn popped(s: Src, x: SV, st: Seq<SV>, path: Row) -> Seq<Row> {
    match x {
        SV::Node(n) => below(s, n as int, path).add(out(s, st, path)),
        SV::Push(x, i) => out(s, st, path.insert(x@, i)),
        SV::Pop(x) => out(s, st, back(s.base, path, x@)),
    }
}
// the components still to be told are told as the baseline
pub open spec fn at_base(s: Src, path: Row, x: Seq<char>) -> bool { path.dom().contains(x) == s.base.dom().contains(x) && (path.dom().contains(x) ==> path[x] == s.base[x]) }
pub open spec fn fresh(s: Src, k: int, path: Row) -> bool { forall|l: int| 0 <= l < k ==> at_base(s, path, #[trigger] s.g.names[l]) }
pub open spec fn item_ok(s: Src, n: int) -> bool { s.d.dom().contains(n) && 0 <= lv(s.d, n) <= s.g.names.len() }
#[verifier::opaque]
pub open spec fn clean(s: Src, st: Seq<SV>, path: Row) -> bool decreases st.len() {
    st.len() == 0 || match st.last() {
        SV::Node(n) => item_ok(s, n as int) && fresh(s, lv(s.d, n as int), path) && clean(s, st.drop_last(), path),
        SV::Push(x, i) => clean(s, st.drop_last(), path.insert(x@, i)),
        SV::Pop(x) => clean(s, st.drop_last(), back(s.base, path, x@)),
    }
}
pub open spec fn clean1(s: Src, x: SV, st: Seq<SV>, path: Row) -> bool {
    match x {
        SV::Node(n) => item_ok(s, n as int) && fresh(s, lv(s.d, n as int), path) && clean(s, st, path),
        SV::Push(x, i) => clean(s, st, path.insert(x@, i)),
        SV::Pop(x) => clean(s, st, back(s.base, path, x@)),
    }
}
pub open spec fn distinct(names: Words) -> bool { forall|i: int, j: int| 0 <= i < j < names.len() ==> #[trigger] names[i] != #[trigger] names[j] }
// bound on the steps left
#[verifier::opaque]
pub open spec fn ncost(d: D, n: int) -> nat decreases ht(d, n), 1int, 0int { match d[n] { SN::T(v) => 1, SN::N { level, kids } => 1 + kcost(d, n, 0) } }
#[verifier::opaque]
pub open spec fn kcost(d: D, n: int, j: int) -> nat decreases ht(d, n), 0int, d[n]->N_kids.len() - j {
    match d[n] { SN::N { level, kids } => if 0 <= j < kids.len() && 0 <= lv(d, kids[j]) < lv(d, n) { 2 + ncost(d, kids[j]) + kcost(d, n, j + 1) } else { 0 }, _ => 0 }
}
#[verifier::opaque]
pub open spec fn cost(d: D, st: Seq<SV>) -> nat decreases st.len() { if st.len() == 0 { 0 } else { cost(d, st.drop_last()) + match st.last() { SV::Node(n) => ncost(d, n as int), _ => 1 } } }
pub open spec fn level_ok(h: Seq<NodeHeader>, g: Lvls) -> bool { forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).level < g.names.len() && g.names[h[i].level as int] == h[i].label@ && (g.ar)(h[i].level as int) == h[i].edge_num }
pub open spec fn src(b: &ZmddManager, p: &ZmddPath, g: Lvls) -> Src { Src { d: b.dag(), ss: p.ss@, rev: p.reverse, g: g, base: p.baseline@ } }
pub open spec fn walk_ok(b: &ZmddManager, p: &ZmddPath, g: Lvls) -> bool { clean(src(b, p, g), p.stack@, p.path@) && distinct(g.names) && level_ok(b.headers@, g) }
pub open spec fn left(b: &ZmddManager, p: &ZmddPath, g: Lvls) -> Seq<Row> { out(src(b, p, g), p.stack@, p.path@) }
pub proof fn lemma_out(s: Src)
    ensures forall|st: Seq<SV>, x: SV, path: Row| #[trigger] out(s, st.push(x), path) == popped(s, x, st, path),
        forall|st: Seq<SV>, x: SV, path: Row| #[trigger] clean(s, st.push(x), path) == clean1(s, x, st, path),
        forall|st: Seq<SV>, x: SV| #[trigger] cost(s.d, st.push(x)) == cost(s.d, st) + match x { SV::Node(n) => ncost(s.d, n as int), _ => 1 },
        forall|st: Seq<SV>, path: Row| st.len() == 0 ==> #[trigger] out(s, st, path) == Seq::<Row>::empty(),
{
    reveal_with_fuel(out, 1); reveal_with_fuel(clean, 1); reveal_with_fuel(cost, 1);
    assert forall|st: Seq<SV>, x: SV, path: Row| #[trigger] out(s, st.push(x), path) == popped(s, x, st, path) by { assert(st.push(x).drop_last() =~= st); }
    assert forall|st: Seq<SV>, x: SV, path: Row| #[trigger] clean(s, st.push(x), path) == clean1(s, x, st, path) by { assert(st.push(x).drop_last() =~= st); }
    assert forall|st: Seq<SV>, x: SV| #[trigger] cost(s.d, st.push(x)) == cost(s.d, st) + match x { SV::Node(n) => ncost(s.d, n as int), _ => 1 } by { assert(st.push(x).drop_last() =~= st); }
}
// a node that is walked
pub proof fn lemma_visit(s: Src, n: int, path: Row, rest: Seq<Row>)
    requires dag_ok(s.d), s.d.dom().contains(n)
    ensures s.d[n] is T && hit(s.ss, s.d[n]->T_0) ==> below(s, n, path) == seq![path], s.d[n] is T && !hit(s.ss, s.d[n]->T_0) ==> below(s, n, path).add(rest) == rest, ncost(s.d, n) > 0,
        s.d[n] is N ==> below(s, n, path) == upper(s, n, path, 0) && upper(s, n, path, nkids(s.d, n)).add(rest) == rest && ncost(s.d, n) == 1 + kcost(s.d, n, 0) && kcost(s.d, n, nkids(s.d, n)) == 0
{
    reveal_with_fuel(below, 1); reveal_with_fuel(ncost, 1); reveal_with_fuel(upper, 1); reveal_with_fuel(kcost, 1);
    assert(Seq::<Row>::empty().add(rest) =~= rest);
}
// one more edge on the stack
pub proof fn lemma_step(s: Src, q: Seq<SV>, path: Row, n: int, j: int, rest: Seq<Row>)
    requires dag_ok(s.d), s.d.dom().contains(n), s.d[n] is N, 0 <= j < nkids(s.d, n), item_ok(s, n), clean(s, q, path), fresh(s, lv(s.d, n), path), distinct(s.g.names), out(s, q, path) == upper(s, n, path, j + 1).add(rest)
    ensures
        j == 0 ==> forall|m: usize| m == kidn(s.d, n, j) ==> out(s, #[trigger] q.push(SV::Node(m)), path) == upper(s, n, path, j).add(rest) && clean(s, q.push(SV::Node(m)), path) && cost(s.d, q.push(SV::Node(m))) == cost(s.d, q) + ncost(s.d, kidn(s.d, n, j)),
        j > 0 ==> forall|x: String, m: usize, y: String, c: usize| x@ == s.g.names[topl(s.d, n)] && y@ == x@ && m == kidn(s.d, n, j) && c == st(s, topl(s.d, n), j) ==> {
            let q3 = #[trigger] q.push(SV::Pop(x)).push(SV::Node(m)).push(SV::Push(y, c));
            out(s, q3, path) == upper(s, n, path, j).add(rest) && clean(s, q3, path) && cost(s.d, q3) == cost(s.d, q) + 2 + ncost(s.d, kidn(s.d, n, j))
        },
        kcost(s.d, n, j) == kcost(s.d, n, j + 1) + 2 + ncost(s.d, kidn(s.d, n, j)),
{
    lemma_out(s);
    let d = s.d; let l = topl(d, n); let k = kidn(d, n, j);
    assert(node_ok(d, n)) by { reveal(dag_ok); }
    assert(d.dom().contains(k) && 0 <= lv(d, k) <= l) by { let kids = d[n]->N_kids; assert(d.dom().contains(kids[j])); }
    assert(lv(d, n) == l + 1);
    reveal_with_fuel(upper, 1); reveal_with_fuel(kcost, 1); reveal_with_fuel(below, 1); reveal_with_fuel(ncost, 1);
    let p2 = put(s, l, j, path);
    let b = below(s, k, p2); let u = upper(s, n, path, j + 1);
    assert(upper(s, n, path, j) == b.add(u));
    assert(b.add(u).add(rest) =~= b.add(u.add(rest)));
    if j == 0 {
        assert(fresh(s, lv(d, k), path));
    } else {
        let nm = s.g.names[l];
        assert(at_base(s, path, nm));
        assert(back(s.base, p2, nm) =~= path);
        assert(fresh(s, lv(d, k), p2));
        assert forall|x: String, m: usize, y: String, c: usize| x@ == s.g.names[topl(s.d, n)] && y@ == x@ && m == kidn(s.d, n, j) && c == st(s, topl(s.d, n), j) implies {
            let q3 = #[trigger] q.push(SV::Pop(x)).push(SV::Node(m)).push(SV::Push(y, c));
            out(s, q3, path) == upper(s, n, path, j).add(rest) && clean(s, q3, path) && cost(s.d, q3) == cost(s.d, q) + 2 + ncost(s.d, kidn(s.d, n, j))
        } by {
            let q1 = q.push(SV::Pop(x)); let q2 = q1.push(SV::Node(m)); let q3 = q2.push(SV::Push(y, c));
            assert(out(s, q3, path) == out(s, q2, p2)); assert(out(s, q2, p2) == b.add(out(s, q1, p2))); assert(out(s, q1, p2) == out(s, q, path));
            assert(clean(s, q1, p2)); assert(clean(s, q2, p2));
            assert(cost(d, q1) == cost(d, q) + 1); assert(cost(d, q2) == cost(d, q1) + ncost(d, k));
        }
    }
}
pub open spec fn same(p: &ZmddPath, q: &ZmddPath) -> bool { p.baseline == q.baseline && p.reverse == q.reverse && p.ss == q.ss && p.node == q.node }
//@fn mss zmdd::ZmddPath::next
//@attr #[verifier::spinoff_prover]
//@args vx_zmdd
//@ghost g: Lvls
    requires vx_zmdd.wf(), walk_ok(vx_zmdd, old(self), g)
    ensures walk_ok(vx_zmdd, final(self), g), same(final(self), old(self)),
        match r {
            Some(p) => left(vx_zmdd, old(self), g) == seq![p@].add(left(vx_zmdd, final(self), g)),
            None => left(vx_zmdd, old(self), g) =~= Seq::<Row>::empty() && left(vx_zmdd, final(self), g) =~= Seq::<Row>::empty(),
        }
//@entry
    let ghost s = src(vx_zmdd, old(self), g); let ghost d = s.d;
    proof { lemma_out(s); }
//@loop 0
    invariant vx_zmdd.wf(), walk_ok(vx_zmdd, self, g), same(self, old(self)), left(vx_zmdd, self, g) == left(vx_zmdd, old(self), g), s == src(vx_zmdd, self, g), d == s.d, d == vx_zmdd.dag(),
    decreases cost(d, self.stack@)
//@loopbegin 0
    let ghost sk = self.stack@; let ghost pa = self.path@; let ghost rest = out(s, sk, pa); let ghost p0 = $p;
    let ghost nn: int = match p0 { SV::Node(n) => n as int, _ => 0 };
    proof {
        lemma_out(s);
        assert(left(vx_zmdd, old(self), g) == popped(s, p0, sk, pa)) by { reveal_with_fuel(out, 1); }
        assert(clean1(s, p0, sk, pa)) by { reveal_with_fuel(clean, 1); }
        reveal_with_fuel(cost, 1);
        match p0 { SV::Node(n) => { vx_zmdd.lemma_node(nn); lemma_visit(s, nn, pa, rest); }, _ => {} }
    }
//@loop 2
    s == src(vx_zmdd, self, g), d == s.d, same(self, old(self)), self.path@ == pa, dag_ok(d), d.dom().contains(nn), d[nn] is N, item_ok(s, nn), distinct(g.names), label@ == g.names[topl(d, nn)], (g.ar)(topl(d, nn)) == nkids(d, nn), last + 1 == nkids(d, nn),
        $b@.len() == nkids(d, nn), forall|c: int| 0 <= c < $b@.len() ==> $b@[c] == kidn(d, nn, c),
        clean(s, self.stack@, pa), fresh(s, lv(d, nn), pa), out(s, self.stack@, pa) == upper(s, nn, pa, $n - $i).add(rest), cost(d, self.stack@) <= cost(d, sk) + kcost(d, nn, $n - $i),
//@loopbegin 2
    proof { lemma_step(s, self.stack@, pa, nn, $n - 1 - $i, rest); }
//@end
// the vector reported where nothing is recorded
pub open spec fn basemap(v: Seq<(String, usize)>, rev: bool, k: int) -> Row decreases k { if k <= 0 { IMap::empty() } else { basemap(v, rev, k - 1).insert(v[k - 1].0@, (if rev { v[k - 1].1 - 1 } else { 0 }) as usize) } }
pub open spec fn stated(v: Seq<(String, usize)>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1 >= 1 }
// everything the walk over a family returns
pub open spec fn listing(s: Src, n: int) -> Seq<Row> { below(s, n, s.base) }
pub proof fn lemma_start(s: Src, q: Seq<SV>, p: Row)
    requires q.len() == 1, q[0] is Node, p == s.base
    ensures out(s, q, p) == listing(s, q[0]->Node_0 as int), clean(s, q, p) <==> item_ok(s, q[0]->Node_0 as int)
{
    reveal_with_fuel(out, 2); reveal_with_fuel(clean, 2);
    let l = below(s, q[0]->Node_0 as int, p);
    assert(l.add(Seq::<Row>::empty()) =~= l);
    if item_ok(s, q[0]->Node_0 as int) { assert(fresh(s, lv(s.d, q[0]->Node_0 as int), p)); }
}
pub open spec fn started(p: &ZmddPath, n: usize) -> bool { p.stack@.len() == 1 && p.stack@[0] == SV::Node(n) && p.path@ == p.baseline@ }
//@fn mss zmdd::ZmddPath::new
//@args node ss
    requires node.reverse ==> stated(node.vars@)
    ensures r.node == node, r.reverse == node.reverse, r.ss@ == ss@, started(&r, node.node), r.baseline@ == basemap(node.vars@, node.reverse, node.vars@.len() as int)
//@loop 0
    vx_v0@ == basemap(node.vars@, node.reverse, $i as int), node.reverse ==> stated(node.vars@), reverse == node.reverse,
//@end
pub proof fn theorem_started(b: &ZmddManager, p: &ZmddPath, n: usize, g: Lvls)
    requires b.wf(), b.live(n as int), started(p, n), distinct(g.names), level_ok(b.headers@, g)
    ensures walk_ok(b, p, g), left(b, p, g) == listing(src(b, p, g), n as int)
{
    b.lemma_node(n as int);
    lemma_start(src(b, p, g), p.stack@, p.path@);
}
//@fn mss zmdd::ZmddNode::extract
//@args ss vx_gc
    requires room(old(vx_gc)), self.reverse ==> stated(self.vars@)
    ensures final(vx_gc).roots@ == inc(old(vx_gc).roots@, self.node as int), r.node.node == self.node, r.ss@ == ss@, r.reverse == self.reverse, started(&r, self.node), r.baseline@ == basemap(self.vars@, self.reverse, self.vars@.len() as int)
//@end
// ---- what the walk lists
pub proof fn lemma_vecs(d: D, ss: ISet<int>, n: int)
    requires dag_ok(d), d.dom().contains(n)
    ensures vecs(d, ss, n).no_duplicates(), forall|a: Asg| #[trigger] vecs(d, ss, n).contains(a) <==> hit(ss, lk(d, n, a))
    decreases ht(d, n), 1int, 0int
{
    match d[n] {
        SN::T(v) => {
            reveal_with_fuel(vecs, 1); lemma_lterm(d, n);
            assert forall|a: Asg| #[trigger] vecs(d, ss, n).contains(a) <==> hit(ss, lk(d, n, a)) by {
                if zeroes(a) { assert(a =~= nothing()); if hit(ss, v) { assert(vecs(d, ss, n)[0] == a); } }
                if vecs(d, ss, n).contains(a) { assert(a == nothing()); assert(zeroes(a)); }
            }
        }
        SN::N { level, kids } => {
            lemma_vup(d, ss, n, 0); lemma_vups(d, ss, n, 0); lemma_lnt(d, n);
            assert forall|a: Asg| #[trigger] vecs(d, ss, n).contains(a) <==> hit(ss, lk(d, n, a)) by { assert(lk(d, n, a) == lkid(d, kids, level, a)); assert(vup(d, ss, n, 0).contains(a) <==> 0 <= a(level) < kids.len() && hit(ss, lk(d, n, a))); }
        }
    }
}
pub proof fn lemma_vups(d: D, ss: ISet<int>, n: int, j: int)
    requires dag_ok(d), d.dom().contains(n), d[n] is N, 0 <= j
    ensures vup(d, ss, n, j).no_duplicates(), forall|a: Asg| #[trigger] vup(d, ss, n, j).contains(a) <==> j <= a(topl(d, n)) < nkids(d, n) && hit(ss, lk(d, n, a))
    decreases ht(d, n), 0int, nkids(d, n) - j
{
    lemma_vup(d, ss, n, j); lemma_lnt(d, n);
    let l = topl(d, n); let v = vup(d, ss, n, j); let kids = d[n]->N_kids;
    if j < nkids(d, n) {
        lemma_vups(d, ss, n, j + 1);
        let k = kids[j]; lemma_vecs(d, ss, k);
        let w = vecs(d, ss, k); let x = put_all(w, l, j); let y = vup(d, ss, n, j + 1);
        assert(d.dom().contains(k) && 0 <= lv(d, k) <= l);
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i])(l) == 0 by { assert(w.contains(w[i])); if w[i](l) != 0 { lemma_lbound1(d, k, w[i], l); } }
        assert forall|a: Asg| #[trigger] x.contains(a) <==> a(l) == j && hit(ss, lk(d, n, a)) by {
            assert(lk(d, n, a) == lkid(d, kids, l, a));
            if x.contains(a) { let i = choose|i: int| 0 <= i < x.len() && x[i] == a; assert(w.contains(w[i])); assert(with(a, l, 0) =~= w[i]); assert(a(l) == j); if j == 0 { assert(a =~= w[i]); } }
            if a(l) == j && hit(ss, lk(d, n, a)) { let b = with(a, l, 0); if j == 0 { assert(b =~= a); } assert(w.contains(b)); let i = choose|i: int| 0 <= i < w.len() && w[i] == b; assert(with(b, l, j) =~= a); assert(x[i] == a); }
        }
        assert(x.no_duplicates()) by { assert forall|i: int, m: int| 0 <= i < x.len() && 0 <= m < x.len() && i != m implies x[i] != x[m] by { if x[i] == x[m] { assert(with(x[i], l, 0) =~= w[i]); assert(with(x[m], l, 0) =~= w[m]); } } }
        assert forall|a: Asg| #[trigger] v.contains(a) <==> j <= a(l) < nkids(d, n) && hit(ss, lk(d, n, a)) by {
            if v.contains(a) { let i = choose|i: int| 0 <= i < v.len() && v[i] == a; if i < x.len() { assert(x[i] == a); assert(x.contains(a)); } else { assert(y[i - x.len()] == a); assert(y.contains(a)); } }
            if j <= a(l) < nkids(d, n) && hit(ss, lk(d, n, a)) { if a(l) == j { assert(x.contains(a)); let i = choose|i: int| 0 <= i < x.len() && x[i] == a; assert(v[i] == a); } else { assert(y.contains(a)); let i = choose|i: int| 0 <= i < y.len() && y[i] == a; assert(v[i + x.len()] == a); } }
        }
        assert(v.no_duplicates()) by { assert forall|i: int, m: int| 0 <= i < v.len() && 0 <= m < v.len() && i != m implies v[i] != v[m] by {
            if i < x.len() && m >= x.len() { assert(x.contains(x[i])); assert(y.contains(y[m - x.len()])); }
            if m < x.len() && i >= x.len() { assert(x.contains(x[m])); assert(y.contains(y[i - x.len()])); }
        } }
    }
}
// the vector a with the components below k told
pub open spec fn row(s: Src, path: Row, a: Asg, k: int) -> Row decreases k { if k <= 0 { path } else { row(s, put(s, k - 1, a(k - 1), path), a, k - 1) } }
pub proof fn lemma_row_same(s: Src, path: Row, a: Asg, b: Asg, k: int)
    requires forall|l: int| 0 <= l < k ==> #[trigger] a(l) == b(l)
    ensures row(s, path, a, k) == row(s, path, b, k)
    decreases k
{ if k > 0 { assert(a(k - 1) == b(k - 1)); lemma_row_same(s, put(s, k - 1, a(k - 1), path), a, b, k - 1); } }
pub proof fn lemma_row_skip(s: Src, path: Row, a: Asg, m: int, k: int)
    requires 0 <= m <= k, forall|l: int| m <= l < k ==> #[trigger] a(l) == 0
    ensures row(s, path, a, k) == row(s, path, a, m)
    decreases k
{ if k > m { assert(a(k - 1) == 0); lemma_row_skip(s, path, a, m, k - 1); } }
pub proof fn lemma_rows(s: Src, n: int, path: Row)
    requires dag_ok(s.d), s.d.dom().contains(n)
    ensures below(s, n, path) == vecs(s.d, s.ss, n).map_values(|a: Asg| row(s, path, a, lv(s.d, n)))
    decreases ht(s.d, n), 1int, 0int
{
    reveal_with_fuel(below, 1); reveal_with_fuel(vecs, 1); reveal_with_fuel(upper, 1); reveal_with_fuel(vup, 1);
    match s.d[n] {
        SN::T(v) => { assert(below(s, n, path) =~= vecs(s.d, s.ss, n).map_values(|a: Asg| row(s, path, a, lv(s.d, n)))); }
        SN::N { level, kids } => { lemma_uppers(s, n, path, 0); }
    }
}
pub proof fn lemma_uppers(s: Src, n: int, path: Row, j: int)
    requires dag_ok(s.d), s.d.dom().contains(n), s.d[n] is N, 0 <= j
    ensures upper(s, n, path, j) == vup(s.d, s.ss, n, j).map_values(|a: Asg| row(s, path, a, lv(s.d, n)))
    decreases ht(s.d, n), 0int, nkids(s.d, n) - j
{
    let d = s.d; let f = |a: Asg| row(s, path, a, lv(d, n));
    lemma_vup(d, s.ss, n, j); reveal_with_fuel(upper, 1); reveal_with_fuel(below, 1);
    if j < nkids(d, n) {
        lemma_uppers(s, n, path, j + 1);
        let k = kidn(d, n, j); let l = topl(d, n); let p2 = put(s, l, j, path);
        lemma_rows(s, k, p2); lemma_vecs(d, s.ss, k);
        assert(node_ok(d, n)) by { reveal(dag_ok); }
        let w = vecs(d, s.ss, k); let x = put_all(w, l, j); let b = below(s, k, p2);
        assert(x.map_values(f) =~= b) by {
            assert forall|i: int| 0 <= i < w.len() implies #[trigger] x.map_values(f)[i] == b[i] by {
                assert(w.contains(w[i]));
                assert forall|z: int| lv(d, k) <= z < l implies #[trigger] w[i](z) == 0 by { if w[i](z) != 0 { lemma_lbound1(d, k, w[i], z); } }
                lemma_row_same(s, p2, x[i], w[i], l); lemma_row_skip(s, p2, w[i], lv(d, k), l);
                assert(x[i](l) == j);
            }
        }
        assert(x.add(vup(d, s.ss, n, j + 1)).map_values(f) =~= x.map_values(f).add(vup(d, s.ss, n, j + 1).map_values(f)));
    } else { assert(upper(s, n, path, j) =~= vup(d, s.ss, n, j).map_values(f)); }
}
pub proof fn lemma_row_get(s: Src, path: Row, a: Asg, k: int)
    requires distinct(s.g.names), 0 <= k <= s.g.names.len()
    ensures forall|l: int| 0 <= l < k ==> (row(s, path, a, k).dom().contains(#[trigger] s.g.names[l]) <==> path.dom().contains(s.g.names[l]) || a(l) != 0) && row(s, path, a, k)[s.g.names[l]] == (if a(l) != 0 { st(s, l, a(l)) } else { path[s.g.names[l]] }),
        forall|x: Seq<char>| (forall|l: int| 0 <= l < k ==> #[trigger] s.g.names[l] != x) ==> (#[trigger] row(s, path, a, k).dom().contains(x) <==> path.dom().contains(x)) && row(s, path, a, k)[x] == path[x]
    decreases k
{
    if k > 0 {
        let nm = s.g.names; let q = put(s, k - 1, a(k - 1), path);
        lemma_row_get(s, q, a, k - 1);
        let r = row(s, path, a, k);
        assert(r == row(s, q, a, k - 1));
        assert forall|l: int| 0 <= l < k implies (r.dom().contains(#[trigger] nm[l]) <==> path.dom().contains(nm[l]) || a(l) != 0) && r[nm[l]] == (if a(l) != 0 { st(s, l, a(l)) } else { path[nm[l]] }) by {
            if l < k - 1 { assert(nm[l] != nm[k - 1]); } else { assert(forall|z: int| 0 <= z < k - 1 ==> #[trigger] nm[z] != nm[l]); }
        }
        assert forall|x: Seq<char>| (forall|l: int| 0 <= l < k ==> #[trigger] nm[l] != x) implies (#[trigger] r.dom().contains(x) <==> path.dom().contains(x)) && r[x] == path[x] by { assert(nm[k - 1] != x); }
    }
}
// THEOREM: the iterator lists every vector filed under a wanted label exactly once, in full: each component in its state, the baseline where nothing is recorded; there are as many as are counted
pub proof fn theorem_vectors(s: Src, n: int)
    requires dag_ok(s.d), item_ok(s, n), distinct(s.g.names)
    ensures ({ let v = vecs(s.d, s.ss, n); let r = listing(s, n);
        &&& r.len() == v.len() && v.no_duplicates()
        &&& forall|a: Asg| #[trigger] v.contains(a) <==> hit(s.ss, lk(s.d, n, a))
        &&& forall|i: int, l: int| 0 <= i < r.len() && 0 <= l < s.g.names.len() ==> (#[trigger] r[i])[#[trigger] s.g.names[l]] == (if v[i](l) != 0 { st(s, l, v[i](l)) } else { s.base[s.g.names[l]] }) && (r[i].dom().contains(s.g.names[l]) <==> s.base.dom().contains(s.g.names[l]) || v[i](l) != 0)
        &&& forall|i: int, x: Seq<char>| 0 <= i < r.len() && (forall|l: int| 0 <= l < s.g.names.len() ==> #[trigger] s.g.names[l] != x) ==> (#[trigger] r[i].dom().contains(x) <==> s.base.dom().contains(x)) && r[i][x] == s.base[x] })
{
    lemma_vecs(s.d, s.ss, n); lemma_rows(s, n, s.base);
    let v = vecs(s.d, s.ss, n); let r = listing(s, n); let k = s.g.names.len() as int;
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == row(s, s.base, v[i], k) by {
        assert(v.contains(v[i]));
        assert forall|z: int| lv(s.d, n) <= z < k implies #[trigger] v[i](z) == 0 by { if v[i](z) != 0 { lemma_lbound1(s.d, n, v[i], z); } }
        lemma_row_skip(s, s.base, v[i], lv(s.d, n), k);
    }
    assert forall|i: int, l: int| 0 <= i < r.len() && 0 <= l < s.g.names.len() implies (#[trigger] r[i])[#[trigger] s.g.names[l]] == (if v[i](l) != 0 { st(s, l, v[i](l)) } else { s.base[s.g.names[l]] }) && (r[i].dom().contains(s.g.names[l]) <==> s.base.dom().contains(s.g.names[l]) || v[i](l) != 0) by { lemma_row_get(s, s.base, v[i], k); }
    assert forall|i: int, x: Seq<char>| 0 <= i < r.len() && (forall|l: int| 0 <= l < s.g.names.len() ==> #[trigger] s.g.names[l] != x) implies (#[trigger] r[i].dom().contains(x) <==> s.base.dom().contains(x)) && r[i][x] == s.base[x] by { lemma_row_get(s, s.base, v[i], k); }
}
}

// ---------------------------------------------------------------- abstract decision diagram
// A diagram is a finite-or-infinite map from live node ids to nodes.
pub enum SN { T(int), N { level: int, kids: Seq<int> } }
pub type D = IMap<int, SN>;
pub type Asg = spec_fn(int) -> int;

pub open spec fn lv(d: D, id: int) -> int {
    match d[id] { SN::T(_) => 0, SN::N { level, .. } => level + 1 }
}
pub open spec fn sel(kids: Seq<int>, c: int) -> int {
    if 0 <= c < kids.len() { kids[c] } else { kids[0] }
}
#[verifier::opaque]
pub open spec fn eval(d: D, id: int, a: Asg) -> int
    decreases (if lv(d, id) >= 0 { lv(d, id) } else { 0 })
{
    match d[id] {
        SN::T(v) => v,
        SN::N { level, kids } => {
            let k = sel(kids, a(level));
            if 0 <= lv(d, k) < lv(d, id) { eval(d, k, a) } else { -1 }
        }
    }
}
pub open spec fn node_ok(d: D, id: int) -> bool {
    match d[id] {
        SN::T(_) => true,
        SN::N { level, kids } => level >= 0 && kids.len() > 0
            && forall|c: int| 0 <= c < kids.len() ==> d.dom().contains(#[trigger] kids[c]) && 0 <= lv(d, kids[c]) <= level,
    }
}
#[verifier::opaque]
pub open spec fn dag_ok(d: D) -> bool {
    forall|id: int| #[trigger] d.dom().contains(id) ==> node_ok(d, id)
}
// every live node of d is still live and unchanged in d2 (and therefore means the same)
pub open spec fn ext(d: D, d2: D) -> bool {
    &&& forall|id: int| #[trigger] d.dom().contains(id) ==> d2.dom().contains(id) && d2[id] == d[id]
    &&& forall|id: int, a: Asg| d.dom().contains(id) ==> #[trigger] eval(d2, id, a) == eval(d, id, a)
}
pub proof fn lemma_eval_same(d: D, d2: D, id: int, a: Asg)
    requires dag_ok(d), d.dom().contains(id), forall|i: int| #[trigger] d.dom().contains(i) ==> d2[i] == d[i],
    ensures eval(d2, id, a) == eval(d, id, a)
    decreases lv(d, id)
{
    reveal_with_fuel(eval, 1);
    match d[id] {
        SN::T(_) => {}
        SN::N { level, kids } => {
            let k = sel(kids, a(level));
            lemma_sel(d, id, a(level));
            lemma_eval_same(d, d2, k, a);
        }
    }
}
pub proof fn lemma_sel(d: D, id: int, c: int)
    requires dag_ok(d), d.dom().contains(id), d[id] is N
    ensures d[id] matches SN::N { level, kids } && d.dom().contains(sel(kids, c)) && 0 <= lv(d, sel(kids, c)) <= level
{
    match d[id] {
        SN::T(_) => {}
        SN::N { level, kids } => {
            reveal(dag_ok); assert(node_ok(d, id));
            if 0 <= c < kids.len() { assert(d.dom().contains(kids[c])); } else { assert(d.dom().contains(kids[0])); }
        }
    }
}
pub proof fn lemma_ext(d: D, d2: D)
    requires dag_ok(d), forall|i: int| #[trigger] d.dom().contains(i) ==> d2.dom().contains(i) && d2[i] == d[i],
    ensures ext(d, d2)
{
    assert forall|id: int, a: Asg| d.dom().contains(id) implies #[trigger] eval(d2, id, a) == eval(d, id, a) by { lemma_eval_same(d, d2, id, a); }
}
pub proof fn lemma_nt(d: D, id: int)
  requires dag_ok(d), d.dom().contains(id), d[id] is N
  ensures d[id] matches SN::N { level, kids } && forall|a: Asg| #[trigger] eval(d, id, a) == eval(d, sel(kids, a(level)), a)
{
    reveal_with_fuel(eval, 1);
    match d[id] { SN::N { level, kids } => {
        assert forall|a: Asg| #[trigger] eval(d, id, a) == eval(d, sel(kids, a(level)), a) by { lemma_sel(d, id, a(level)); }
    }, _ => {} }
}
// ---------------------------------------------------------------- canonicity of reduced, shared diagrams
pub open spec fn node_reduced(d: D, id: int) -> bool {
    match d[id] { SN::T(_) => true, SN::N { level, kids } => exists|i: int, j: int| 0 <= i < kids.len() && 0 <= j < kids.len() && kids[i] != kids[j] }
}
pub open spec fn same_node(m: SN, n: SN) -> bool {
    match (m, n) { (SN::T(x), SN::T(y)) => x == y, (SN::N { level: l, kids: k }, SN::N { level: l2, kids: k2 }) => l == l2 && k =~= k2, _ => false }
}
pub open spec fn node_arity(d: D, id: int, ar: spec_fn(int) -> int) -> bool {
    match d[id] { SN::T(_) => true, SN::N { level, kids } => kids.len() == ar(level) }
}
pub open spec fn uniform(d: D, ar: spec_fn(int) -> int) -> bool { forall|id: int| #[trigger] d.dom().contains(id) ==> node_arity(d, id, ar) }
pub open spec fn with(a: Asg, l: int, v: int) -> Asg { |x: int| if x == l { v } else { a(x) } }
pub proof fn lemma_indep(d: D, id: int, l: int, v: int, a: Asg)
    requires dag_ok(d), d.dom().contains(id), lv(d, id) <= l
    ensures eval(d, id, with(a, l, v)) == eval(d, id, a)
    decreases lv(d, id)
{
    reveal_with_fuel(eval, 1);
    match d[id] { SN::T(_) => {}, SN::N { level, kids } => {
        lemma_sel(d, id, a(level));
        lemma_indep(d, sel(kids, a(level)), l, v, a);
    } }
}
pub open spec fn same_fn(d: D, f: int, g: int) -> bool { forall|a: Asg| #[trigger] eval(d, f, a) == eval(d, g, a) }
#[verifier::spinoff_prover]
pub proof fn lemma_canonical(d: D, ar: spec_fn(int) -> int, f: int, g: int)
    requires dag_ok(d), uniform(d, ar), d.dom().contains(f), d.dom().contains(g), same_fn(d, f, g),
        forall|i: int| #[trigger] d.dom().contains(i) ==> node_reduced(d, i),
        forall|i: int, j: int| #[trigger] d.dom().contains(i) && #[trigger] d.dom().contains(j) && same_node(d[i], d[j]) ==> i == j,
    ensures f == g
    decreases lv(d, f) + lv(d, g), 1int
{
    reveal_with_fuel(eval, 1);
    assert(node_ok(d, f) && node_ok(d, g)) by { reveal(dag_ok); }
    let some: Asg = |x: int| 0;
    assert(eval(d, f, some) == eval(d, g, some));
    match (d[f], d[g]) {
        (SN::T(x), SN::T(y)) => { assert(same_node(d[f], d[g])); }
        (SN::N { level, kids }, SN::N { level: l2, kids: k2 }) => {
            if level == l2 {
                assert(node_arity(d, f, ar) && node_arity(d, g, ar));
                assert forall|c: int| 0 <= c < kids.len() implies kids[c] == k2[c] by {
                    assert(d.dom().contains(kids[c]) && d.dom().contains(k2[c]));
                    assert forall|a: Asg| #[trigger] eval(d, kids[c], a) == eval(d, k2[c], a) by {
                        lemma_indep(d, kids[c], level, c, a); lemma_indep(d, k2[c], level, c, a);
                        lemma_nt(d, f); lemma_nt(d, g);
                        assert(eval(d, f, with(a, level, c)) == eval(d, g, with(a, level, c)));
                    }
                    lemma_canonical(d, ar, kids[c], k2[c]);
                }
                assert(kids =~= k2);
                assert(same_node(d[f], d[g]));
            } else if level > l2 { lemma_top(d, ar, f, g); } else {
                assert(same_fn(d, g, f));
                lemma_top(d, ar, g, f);
            }
        }
        (SN::N { level, kids }, SN::T(_)) => { lemma_top(d, ar, f, g); }
        (SN::T(_), SN::N { level, kids }) => { assert(same_fn(d, g, f)); lemma_top(d, ar, g, f); }
    }
}
// a node strictly above another one cannot denote the same function
pub proof fn lemma_top(d: D, ar: spec_fn(int) -> int, f: int, g: int)
    requires dag_ok(d), uniform(d, ar), d.dom().contains(f), d.dom().contains(g), same_fn(d, f, g), lv(d, f) > lv(d, g) >= 0,
        forall|i: int| #[trigger] d.dom().contains(i) ==> node_reduced(d, i),
        forall|i: int, j: int| #[trigger] d.dom().contains(i) && #[trigger] d.dom().contains(j) && same_node(d[i], d[j]) ==> i == j,
    ensures false
    decreases lv(d, f) + lv(d, g), 0int
{
    match d[f] { SN::N { level, kids } => {
        assert(node_ok(d, f)) by { reveal(dag_ok); }
        assert(node_reduced(d, f));
        lemma_nt(d, f);
        let (i, j) = choose|i: int, j: int| 0 <= i < kids.len() && 0 <= j < kids.len() && kids[i] != kids[j];
        assert(d.dom().contains(kids[i]) && d.dom().contains(kids[j]));
        // one of the two differs from g
        let c = if kids[i] != g { i } else { j };
        assert(d.dom().contains(kids[c]));
        assert forall|a: Asg| #[trigger] eval(d, kids[c], a) == eval(d, g, a) by {
            lemma_indep(d, kids[c], level, c, a); lemma_indep(d, g, level, c, a);
            assert(eval(d, f, with(a, level, c)) == eval(d, g, with(a, level, c)));
        }
        lemma_canonical(d, ar, kids[c], g);
    }, _ => {} }
}
// ---------------------------------------------------------------- mark and sweep
pub open spec fn reach(d: D, roots: Seq<usize>, id: int, path: Seq<int>) -> bool {
    &&& path.len() > 0 && path.last() == id
    &&& path[0] >= 0 && path[0] <= usize::MAX && roots.contains(path[0] as usize)
    &&& forall|i: int| 0 <= i < path.len() - 1 ==> (#[trigger] d[path[i]]) is N && d[path[i]]->kids.contains(path[i + 1])
}
// id can be reached from one of the roots
pub open spec fn reachable(d: D, roots: Seq<usize>, id: int) -> bool { exists|p: Seq<int>| #[trigger] reach(d, roots, id, p) }
pub proof fn lemma_reach_step(d: D, roots: Seq<usize>, id: int, k: int)
    requires reachable(d, roots, id), d[id] is N, d[id]->kids.contains(k)
    ensures reachable(d, roots, k)
{
    let p = choose|p: Seq<int>| #[trigger] reach(d, roots, id, p);
    assert(reach(d, roots, k, p.push(k)));
}
pub proof fn lemma_reach_root(d: D, roots: Seq<usize>, r: usize)
    requires roots.contains(r)
    ensures reachable(d, roots, r as int)
{ assert(reach(d, roots, r as int, seq![r as int])); }
pub open spec fn marked(live: Seq<bool>, stack: Seq<usize>, id: int) -> bool { 0 <= id < live.len() && (live[id] || stack.contains(id as usize)) }
#[verifier::opaque]
pub open spec fn mark_inv(d: D, base: spec_fn(int) -> bool, roots: Seq<usize>, live: Seq<bool>, stack: Seq<usize>) -> bool {
    &&& dag_ok(d) && live.len() <= u32::MAX
    &&& forall|id: int| #[trigger] d.dom().contains(id) ==> 0 <= id < live.len()
    &&& forall|x: usize| #[trigger] stack.contains(x) ==> d.dom().contains(x as int) && reachable(d, roots, x as int)
    &&& forall|id: int| 0 <= id < live.len() && #[trigger] live[id] ==> d.dom().contains(id) && (base(id) || reachable(d, roots, id))
    &&& forall|id: int| 0 <= id < live.len() && #[trigger] base(id) ==> live[id]
    &&& forall|id: int, c: int| #![trigger d[id]->kids[c]] 0 <= id < live.len() && live[id] && d[id] is N && 0 <= c < d[id]->kids.len() ==> marked(live, stack, d[id]->kids[c])
    &&& forall|x: usize| #[trigger] roots.contains(x) ==> marked(live, stack, x as int)
}
pub proof fn lemma_mark_init(d: D, base: spec_fn(int) -> bool, roots: Seq<usize>, live: Seq<bool>, stack: Seq<usize>)
    requires dag_ok(d), live.len() <= u32::MAX, forall|id: int| #[trigger] d.dom().contains(id) ==> 0 <= id < live.len(),
        forall|i: int| 0 <= i < roots.len() ==> d.dom().contains(#[trigger] roots[i] as int),
        forall|i: int| 0 <= i < roots.len() ==> stack.contains(#[trigger] roots[i]),
        forall|x: usize| #[trigger] stack.contains(x) ==> roots.contains(x),
        forall|id: int| 0 <= id < live.len() ==> (#[trigger] live[id] <==> base(id)),
        forall|id: int| 0 <= id < live.len() && #[trigger] live[id] ==> d.dom().contains(id) && d[id] is T,
    ensures mark_inv(d, base, roots, live, stack)
{
    reveal(mark_inv);
    assert forall|x: usize| #[trigger] stack.contains(x) implies d.dom().contains(x as int) && reachable(d, roots, x as int) by {
        lemma_reach_root(d, roots, x); let k = choose|k: int| 0 <= k < roots.len() && roots[k] == x; assert(d.dom().contains(roots[k] as int));
    }
    assert forall|x: usize| #[trigger] roots.contains(x) implies marked(live, stack, x as int) by {
        let k = choose|k: int| 0 <= k < roots.len() && roots[k] == x; assert(d.dom().contains(roots[k] as int)); assert(stack.contains(roots[k]));
    }
    assert forall|id: int, c: int| #![trigger d[id]->kids[c]] 0 <= id < live.len() && live[id] && d[id] is N && 0 <= c < d[id]->kids.len() implies marked(live, stack, d[id]->kids[c]) by { assert(d[id] is T); }
}
pub proof fn lemma_mark_top(d: D, base: spec_fn(int) -> bool, roots: Seq<usize>, live: Seq<bool>, stack: Seq<usize>)
    requires mark_inv(d, base, roots, live, stack), stack.len() > 0
    ensures stack.last() < live.len(), d.dom().contains(stack.last() as int), node_ok(d, stack.last() as int),
        live[stack.last() as int] ==> mark_inv(d, base, roots, live, stack.drop_last()),
        d[stack.last() as int] is N ==> forall|c: int| 0 <= c < d[stack.last() as int]->kids.len() ==> d.dom().contains(#[trigger] d[stack.last() as int]->kids[c]) && 0 <= d[stack.last() as int]->kids[c] < live.len()
{
    reveal(mark_inv); reveal(dag_ok);
    let id = stack.last(); let t = stack.drop_last();
    assert(stack[stack.len() - 1] == id); assert(stack.contains(id));
    assert forall|x: usize| #[trigger] t.contains(x) implies stack.contains(x) by { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(stack[k] == x); }
    if live[id as int] {
        assert forall|x: int| #[trigger] marked(live, stack, x) implies marked(live, t, x) by { if !live[x] { let k = choose|k: int| 0 <= k < stack.len() && stack[k] == x as usize; assert(t[k] == x as usize); } }
        assert forall|i: int, c: int| #![trigger d[i]->kids[c]] 0 <= i < live.len() && live[i] && d[i] is N && 0 <= c < d[i]->kids.len() implies marked(live, t, d[i]->kids[c]) by { assert(marked(live, stack, d[i]->kids[c])); }
    }
}
pub proof fn lemma_mark(d: D, base: spec_fn(int) -> bool, roots: Seq<usize>, l0: Seq<bool>, s0: Seq<usize>, l1: Seq<bool>, s1: Seq<usize>, id: usize)
    requires mark_inv(d, base, roots, l0, s0), s0.len() > 0, s0.last() == id, id < l0.len(), l1 == l0.update(id as int, true),
        forall|x: usize| #[trigger] s0.drop_last().contains(x) ==> s1.contains(x),
        forall|x: usize| #[trigger] s1.contains(x) ==> s0.drop_last().contains(x) || (d[id as int] is N && d[id as int]->kids.contains(x as int)),
        d[id as int] is N ==> forall|c: int| 0 <= c < d[id as int]->kids.len() ==> s1.contains(#[trigger] d[id as int]->kids[c] as usize),
    ensures mark_inv(d, base, roots, l1, s1)
{
    reveal(mark_inv); reveal(dag_ok);
    let t = s0.drop_last();
    assert(s0[s0.len() - 1] == id); assert(s0.contains(id)); assert(node_ok(d, id as int));
    assert forall|x: usize| #[trigger] t.contains(x) implies s0.contains(x) by { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(s0[k] == x); }
    assert forall|x: int| #[trigger] marked(l0, s0, x) implies marked(l1, s1, x) by { if !l0[x] && x != id { let k = choose|k: int| 0 <= k < s0.len() && s0[k] == x as usize; assert(t[k] == x as usize); assert(t.contains(x as usize)); } }
    assert forall|x: usize| #[trigger] s1.contains(x) implies d.dom().contains(x as int) && reachable(d, roots, x as int) by {
        if !t.contains(x) { let kids = d[id as int]->kids; let c = choose|c: int| 0 <= c < kids.len() && kids[c] == x as int; assert(d.dom().contains(kids[c])); lemma_reach_step(d, roots, id as int, x as int); }
    }
    assert forall|i: int, c: int| #![trigger d[i]->kids[c]] 0 <= i < l1.len() && l1[i] && d[i] is N && 0 <= c < d[i]->kids.len() implies marked(l1, s1, d[i]->kids[c]) by {
        if i != id { assert(marked(l0, s0, d[i]->kids[c])); } else { assert(d.dom().contains(d[i]->kids[c])); assert(s1.contains(d[i]->kids[c] as usize)); }
    }
    assert forall|x: usize| #[trigger] roots.contains(x) implies marked(l1, s1, x as int) by { assert(marked(l0, s0, x as int)); }
}
pub proof fn lemma_push_contains<T>(s: Seq<T>, x: T)
    ensures forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x
{
    assert forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x by {
        if s.contains(y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(s.push(x)[k] == y); }
        if y == x { assert(s.push(x)[s.len() as int] == y); }
    }
}
// f lists exactly the unmarked slots below n
pub open spec fn is_free(f: Seq<u32>, live: Seq<bool>, n: int) -> bool {
    &&& f.no_duplicates() && f.len() <= n
    &&& forall|x: u32| #[trigger] f.contains(x) <==> x < n && !live[x as int]
    &&& forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] < n
}
// a free list without repetitions is no longer than the slots it names
pub proof fn lemma_free_len(f: Seq<u32>, n: int)
    requires f.no_duplicates(), n >= 0, forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) < n
    ensures f.len() <= n
{
    let g = f.map_values(|x: u32| x as int);
    assert(g.no_duplicates());
    g.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    assert(g.to_set().subset_of(vstd::set_lib::set_int_range(0, n)));
    vstd::set_lib::lemma_len_subset(g.to_set(), vstd::set_lib::set_int_range(0, n));
}
pub proof fn lemma_free_step(f: Seq<u32>, f2: Seq<u32>, live: Seq<bool>, n: int)
    requires is_free(f, live, n), 0 <= n < live.len() <= u32::MAX, f2 == (if live[n] { f } else { f.push(n as u32) })
    ensures is_free(f2, live, n + 1)
{
    if !live[n] {
        lemma_push_contains(f, n as u32);
        assert(!f.contains(n as u32));
        assert forall|i: int, j: int| 0 <= i < f2.len() && 0 <= j < f2.len() && i != j implies f2[i] != f2[j] by { if i < f.len() { assert(f.contains(f[i])); } if j < f.len() { assert(f.contains(f[j])); } }
    }
    assert forall|x: u32| #[trigger] f2.contains(x) <==> x < n + 1 && !live[x as int] by { if x == n as u32 {} else { assert(f.contains(x) <==> x < n && !live[x as int]); } }
}
// d2 is d restricted to what the collector had to keep
pub open spec fn kept(d: D, d2: D, base: spec_fn(int) -> bool, roots: Seq<usize>) -> bool {
    &&& forall|id: int| #[trigger] d2.dom().contains(id) ==> d.dom().contains(id) && d2[id] == d[id] && (base(id) || reachable(d, roots, id))
    &&& forall|id: int, a: Asg| d2.dom().contains(id) ==> #[trigger] eval(d2, id, a) == eval(d, id, a)
    &&& forall|i: int| 0 <= i < roots.len() ==> d2.dom().contains(#[trigger] roots[i] as int)
    &&& forall|id: int| #[trigger] reachable(d, roots, id) ==> d2.dom().contains(id)
    &&& forall|id: int| #[trigger] base(id) ==> d2.dom().contains(id)
}
pub proof fn lemma_kept(d: D, d2: D, base: spec_fn(int) -> bool, roots: Seq<usize>, live: Seq<bool>)
    requires mark_inv(d, base, roots, live, Seq::empty()), forall|id: int| #[trigger] base(id) ==> 0 <= id < live.len(),
        forall|id: int| #[trigger] d2.dom().contains(id) <==> 0 <= id < live.len() && live[id],
        forall|id: int| #[trigger] d2.dom().contains(id) ==> d2[id] == d[id],
    ensures kept(d, d2, base, roots), dag_ok(d2)
{
    reveal(mark_inv); reveal(dag_ok);
    let e = Seq::<usize>::empty();
    assert forall|id: int| #[trigger] d2.dom().contains(id) implies node_ok(d2, id) by {
        assert(node_ok(d, id));
        match d[id] { SN::N { level, kids } => { assert forall|c: int| 0 <= c < kids.len() implies d2.dom().contains(#[trigger] kids[c]) && 0 <= lv(d2, kids[c]) <= level by { assert(marked(live, e, d[id]->kids[c])); assert(d.dom().contains(kids[c])); assert(live[kids[c]]); assert(d2.dom().contains(kids[c])); assert(d2[kids[c]] == d[kids[c]]); } }, _ => {} }
    }
    assert forall|id: int, a: Asg| d2.dom().contains(id) implies #[trigger] eval(d2, id, a) == eval(d, id, a) by { lemma_eval_same(d2, d, id, a); }
    assert forall|i: int| 0 <= i < roots.len() implies d2.dom().contains(#[trigger] roots[i] as int) by { assert(roots.contains(roots[i])); assert(marked(live, e, roots[i] as int)); }
    assert forall|id: int| #[trigger] reachable(d, roots, id) implies d2.dom().contains(id) by {
        let p = choose|p: Seq<int>| #[trigger] reach(d, roots, id, p);
        lemma_path_live(d, base, roots, live, p, p.len() - 1);
    }
}
pub proof fn lemma_path_live(d: D, base: spec_fn(int) -> bool, roots: Seq<usize>, live: Seq<bool>, p: Seq<int>, i: int)
    requires mark_inv(d, base, roots, live, Seq::empty()), reach(d, roots, p.last(), p), 0 <= i < p.len()
    ensures 0 <= p[i] < live.len(), live[p[i]]
    decreases i
{
    reveal(mark_inv); reveal(dag_ok);
    let e = Seq::<usize>::empty();
    if i == 0 { assert(marked(live, e, p[0] as usize as int)); } else {
        lemma_path_live(d, base, roots, live, p, i - 1);
        let kids = d[p[i - 1]]->kids;
        assert(d[p[i - 1]] is N);
        let c = choose|c: int| 0 <= c < kids.len() && kids[c] == p[i - 1 + 1];
        assert(marked(live, e, d[p[i - 1]]->kids[c]));
    }
}
pub proof fn lemma_drop_push()
    ensures forall|s: Seq<usize>, n: int| s.len() > 0 && n == s.len() - 1 ==> (#[trigger] s.subrange(0, n)).push(s[n]) == s
{ assert forall|s: Seq<usize>, n: int| s.len() > 0 && n == s.len() - 1 implies (#[trigger] s.subrange(0, n)).push(s[n]) == s by { assert(s.subrange(0, n).push(s[n]) =~= s); } }
// s is t with the first n children pushed on it
pub open spec fn pushed(t: Seq<usize>, kids: Seq<int>, n: int, s: Seq<usize>) -> bool {
    &&& s.len() == t.len() + n
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] s[i] == t[i]
    &&& forall|i: int| 0 <= i < n ==> s[t.len() + i] == #[trigger] kids[i]
}
pub proof fn lemma_pushed(t: Seq<usize>, kids: Seq<int>, n: int, s: Seq<usize>)
    requires pushed(t, kids, n, s), 0 <= n <= kids.len()
    ensures
        forall|x: usize| #[trigger] t.contains(x) ==> s.contains(x),
        forall|x: usize| #[trigger] s.contains(x) ==> t.contains(x) || kids.contains(x as int),
        forall|c: int| 0 <= c < n ==> s.contains(#[trigger] kids[c] as usize),
{
    assert forall|x: usize| #[trigger] t.contains(x) implies s.contains(x) by { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(s[k] == x); }
    assert forall|x: usize| #[trigger] s.contains(x) implies t.contains(x) || kids.contains(x as int) by {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
        if k < t.len() { assert(t[k] == x); } else { assert(s[t.len() + (k - t.len())] == kids[k - t.len()]); }
    }
    assert forall|c: int| 0 <= c < n implies s.contains(#[trigger] kids[c] as usize) by { assert(s[t.len() + c] == kids[c]); }
}

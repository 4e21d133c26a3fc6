// ---------------------------------------------------------------- lists of all state vectors with a wanted value
pub type Vec0 = Seq<int>;
pub open spec fn child(d: D, n: int, k: int, c: int) -> int { if lv(d, n) == k { sel(d[n]->N_kids, c) } else { n } }
pub open spec fn cons(c: int, l: Seq<Vec0>) -> Seq<Vec0> { l.map_values(|v: Vec0| seq![c].add(v)) }
// all vectors over the k lowest levels (highest first) at which n has a wanted value, in order
#[verifier::opaque]
pub open spec fn full(d: D, n: int, w: spec_fn(int) -> bool, ar: spec_fn(int) -> int, k: int) -> Seq<Vec0> decreases k, 1int, 0int {
    if k <= 0 { match d[n] { SN::T(v) => if w(v) { seq![Seq::empty()] } else { Seq::empty() }, _ => Seq::empty() } } else { fan(d, n, w, ar, k, ar(k - 1)) }
}
// the same, the highest restricted to its first j states
pub open spec fn fan(d: D, n: int, w: spec_fn(int) -> bool, ar: spec_fn(int) -> int, k: int, j: int) -> Seq<Vec0> decreases k, 0int, j {
    if k <= 0 || j <= 0 { Seq::empty() } else { fan(d, n, w, ar, k, j - 1).add(cons(j - 1, full(d, child(d, n, k, j - 1), w, ar, k - 1))) }
}
// the assignment a vector stands for
pub open spec fn asgv(v: Vec0) -> Asg { |l: int| if 0 <= l < v.len() { v[v.len() - 1 - l] } else { 0 } }
pub open spec fn vec_ok(ar: spec_fn(int) -> int, v: Vec0, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> 0 <= #[trigger] v[i] < ar(k - 1 - i) }
pub open spec fn listed(d: D, n: int, w: spec_fn(int) -> bool, ar: spec_fn(int) -> int, k: int, v: Vec0) -> bool { vec_ok(ar, v, k) && w(eval(d, n, asgv(v))) }
pub open spec fn node_ar(d: D, ar: spec_fn(int) -> int) -> bool { forall|i: int| #[trigger] d.dom().contains(i) ==> node_arity(d, i, ar) }
pub proof fn lemma_cons(c: int, l: Seq<Vec0>, v: Vec0)
    ensures cons(c, l).contains(v) <==> v.len() > 0 && v[0] == c && l.contains(v.skip(1)), cons(c, l).len() == l.len(), l.no_duplicates() ==> cons(c, l).no_duplicates()
{
    if cons(c, l).contains(v) { let i = choose|i: int| 0 <= i < l.len() && cons(c, l)[i] == v; assert(v == seq![c].add(l[i])); assert(v.skip(1) =~= l[i]); }
    if v.len() > 0 && v[0] == c && l.contains(v.skip(1)) { let i = choose|i: int| 0 <= i < l.len() && l[i] == v.skip(1); assert(cons(c, l)[i] =~= v); }
    if l.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies cons(c, l)[i] != cons(c, l)[j] by {
            assert(seq![c].add(l[i]).skip(1) =~= l[i]); assert(seq![c].add(l[j]).skip(1) =~= l[j]);
        }
    }
}
pub proof fn lemma_child(d: D, n: int, ar: spec_fn(int) -> int, k: int, c: int)
    requires dag_ok(d), node_ar(d, ar), d.dom().contains(n), lv(d, n) <= k, k > 0, 0 <= c < ar(k - 1)
    ensures d.dom().contains(child(d, n, k, c)), 0 <= lv(d, child(d, n, k, c)) <= k - 1, forall|a: Asg| a(k - 1) == c ==> #[trigger] eval(d, n, a) == eval(d, child(d, n, k, c), a),
        lv(d, n) == k ==> child(d, n, k, c) == d[n]->N_kids[c] && d[n]->N_kids.len() == ar(k - 1)
{
    reveal(dag_ok); assert(node_ok(d, n)); assert(node_arity(d, n, ar));
    if lv(d, n) == k {
        assert(d.dom().contains(d[n]->N_kids[c]));
        assert forall|a: Asg| a(k - 1) == c implies #[trigger] eval(d, n, a) == eval(d, child(d, n, k, c), a) by { reveal_with_fuel(eval, 1); }
    }
}
// THEOREM: the list has exactly the vectors with a wanted value, each once
pub proof fn theorem_full(d: D, n: int, w: spec_fn(int) -> bool, ar: spec_fn(int) -> int, k: int)
    requires dag_ok(d), node_ar(d, ar), d.dom().contains(n), 0 <= lv(d, n) <= k
    ensures forall|v: Vec0| #[trigger] full(d, n, w, ar, k).contains(v) <==> listed(d, n, w, ar, k, v), full(d, n, w, ar, k).no_duplicates()
    decreases k, 1int, 0int
{
    reveal_with_fuel(full, 1);
    let f = full(d, n, w, ar, k);
    if k > 0 {
        lemma_fan(d, n, w, ar, k, ar(k - 1));
        assert forall|v: Vec0| #[trigger] f.contains(v) <==> listed(d, n, w, ar, k, v) by { if vec_ok(ar, v, k) { assert(0 <= v[0] < ar(k - 1)); } }
    } else {
        reveal_with_fuel(eval, 1); reveal(dag_ok); assert(node_ok(d, n));
        let e: Vec0 = Seq::empty();
        assert(d[n] is T);
        assert forall|v: Vec0| #[trigger] f.contains(v) <==> listed(d, n, w, ar, k, v) by {
            if w(d[n]->T_0) { assert(f[0] =~= e); if v.len() == 0 { assert(v =~= e); assert(f[0] == v); } }
        }
    }
}
pub proof fn lemma_fan(d: D, n: int, w: spec_fn(int) -> bool, ar: spec_fn(int) -> int, k: int, j: int)
    requires dag_ok(d), node_ar(d, ar), d.dom().contains(n), 0 <= lv(d, n) <= k, k > 0, j <= ar(k - 1)
    ensures forall|v: Vec0| #[trigger] fan(d, n, w, ar, k, j).contains(v) <==> listed(d, n, w, ar, k, v) && v[0] < j, fan(d, n, w, ar, k, j).no_duplicates()
    decreases k, 0int, j
{
    let f = fan(d, n, w, ar, k, j);
    if j > 0 {
        let c = j - 1; let m = child(d, n, k, c);
        let x = fan(d, n, w, ar, k, c); let l = full(d, m, w, ar, k - 1); let y = cons(c, l);
        assert(f =~= x.add(y)) by { reveal_with_fuel(fan, 1); reveal_with_fuel(full, 1); }
        lemma_child(d, n, ar, k, c);
        lemma_fan(d, n, w, ar, k, c); theorem_full(d, m, w, ar, k - 1);
        assert forall|v: Vec0| #[trigger] f.contains(v) <==> listed(d, n, w, ar, k, v) && v[0] < j by {
            lemma_cons(c, l, v);
            assert(f.contains(v) <==> x.contains(v) || y.contains(v)) by {
                if x.contains(v) { let i = choose|i: int| 0 <= i < x.len() && x[i] == v; assert(f[i] == v); }
                if y.contains(v) { let i = choose|i: int| 0 <= i < y.len() && y[i] == v; assert(f[x.len() + i] == v); }
                if f.contains(v) { let i = choose|i: int| 0 <= i < f.len() && f[i] == v; if i < x.len() { assert(x[i] == v); } else { assert(y[i - x.len()] == v); } }
            }
            if v.len() > 0 && v[0] == c { lemma_listed(d, n, w, ar, k, v, m); }
        }
        assert(f.no_duplicates()) by {
            lemma_cons(c, l, Seq::empty());
            assert forall|p: int, q: int| 0 <= p < f.len() && 0 <= q < f.len() && p != q implies f[p] != f[q] by {
                assert forall|i: int, r: int| 0 <= i < x.len() && x.len() <= r < f.len() implies f[i] != f[r] by { assert(x.contains(f[i])); assert(f[i] == x[i]); assert(y[r - x.len()] == f[r]); assert(f[r][0] == c); }
                if p < x.len() && q < x.len() { assert(x[p] != x[q]); } else if p >= x.len() && q >= x.len() { assert(y[p - x.len()] != y[q - x.len()]); }
            }
        }
    }
}
pub proof fn lemma_listed(d: D, n: int, w: spec_fn(int) -> bool, ar: spec_fn(int) -> int, k: int, v: Vec0, m: int)
    requires dag_ok(d), node_ar(d, ar), d.dom().contains(n), 0 <= lv(d, n) <= k, k > 0, v.len() > 0, 0 <= v[0] < ar(k - 1), m == child(d, n, k, v[0])
    ensures listed(d, n, w, ar, k, v) <==> listed(d, m, w, ar, k - 1, v.skip(1))
{
    let u = v.skip(1);
    lemma_child(d, n, ar, k, v[0]);
    if v.len() == k {
        assert(asgv(v)(k - 1) == v[0]);
        assert(eval(d, n, asgv(v)) == eval(d, m, asgv(v)));
        assert forall|l: int| 0 <= l < lv(d, m) implies #[trigger] asgv(v)(l) == asgv(u)(l) by {}
        lemma_eval_agree(d, m, asgv(v), asgv(u));
    }
    if vec_ok(ar, v, k) { assert forall|i: int| 0 <= i < k - 1 implies 0 <= #[trigger] u[i] < ar(k - 2 - i) by { assert(u[i] == v[i + 1]); } }
    if vec_ok(ar, u, k - 1) { assert forall|i: int| 0 <= i < k implies 0 <= #[trigger] v[i] < ar(k - 1 - i) by { if i > 0 { assert(u[i - 1] == v[i]); } } }
}
// THEOREM: the list is as long as the count says
pub proof fn theorem_full_len(d: D, n: int, w: spec_fn(int) -> bool, s: WS, k: int, a: Asg)
    requires dag_ok(d), node_ar(d, s.ar), d.dom().contains(n), 0 <= lv(d, n) <= k, forall|l: int, c: int| #[trigger] (s.w)(l, c) == 1real, forall|v: int| #[trigger] (s.g)(v) == (if w(v) { 1real } else { 0real })
    ensures full(d, n, w, s.ar, k).len() as real == wsum(d, n, s, k, a)
    decreases k, 1int, 0int
{
    reveal_with_fuel(full, 1);
    if k > 0 { lemma_fan_len(d, n, w, s, k, (s.ar)(k - 1), a); } else { reveal_with_fuel(eval, 1); reveal(dag_ok); assert(node_ok(d, n)); }
}
pub proof fn lemma_fan_len(d: D, n: int, w: spec_fn(int) -> bool, s: WS, k: int, j: int, a: Asg)
    requires dag_ok(d), node_ar(d, s.ar), d.dom().contains(n), 0 <= lv(d, n) <= k, k > 0, j <= (s.ar)(k - 1), forall|l: int, c: int| #[trigger] (s.w)(l, c) == 1real, forall|v: int| #[trigger] (s.g)(v) == (if w(v) { 1real } else { 0real })
    ensures fan(d, n, w, s.ar, k, j).len() as real == wsumk(d, n, s, k, j, a)
    decreases k, 0int, j
{
    if j > 0 {
        let c = j - 1; let m = child(d, n, k, c); let b = with(a, k - 1, c);
        assert(fan(d, n, w, s.ar, k, j) =~= fan(d, n, w, s.ar, k, c).add(cons(c, full(d, m, w, s.ar, k - 1)))) by { reveal_with_fuel(fan, 1); reveal_with_fuel(full, 1); }
        lemma_child(d, n, s.ar, k, c);
        lemma_fan_len(d, n, w, s, k, c, a);
        theorem_full_len(d, m, w, s, k - 1, b);
        // below level k, n with state c is its child
        assert(corr(d, n, m, k - 1, k, b, b)) by {
            assert forall|x: Asg, y: Asg| agree(x, b, k - 1, k) && agree(y, b, k - 1, k) && agree(x, y, 0, k - 1) implies #[trigger] eval(d, n, x) == #[trigger] eval(d, m, y) by {
                assert(x(k - 1) == b(k - 1)); assert(b(k - 1) == c);
                assert(eval(d, n, x) == eval(d, m, x));
                assert forall|l: int| 0 <= l < lv(d, m) implies #[trigger] x(l) == y(l) by {}
                lemma_eval_agree(d, m, x, y);
            }
        }
        lemma_ws_corr(d, n, m, s, k - 1, k, b, b);
        lemma_cons(c, full(d, m, w, s.ar, k - 1), Seq::empty());
        let z = wsum(d, n, s, k - 1, b);
        assert((s.w)(k - 1, j - 1) == 1real);
        assert(rmul((s.w)(k - 1, j - 1), z) == z) by { reveal(rmul); assert(1real * z == z) by (nonlinear_arith); }
    }
}

//@include real.vrs
//@include sum.vrs
broadcast use {axiom_rn, axiom_rn_eq};
// ---------------------------------------------------------------- counting
pub open spec fn wanted(ss: Seq<bool>, v: int) -> bool { (v == 1 && exists|i: int| 0 <= i < ss.len() && #[trigger] ss[i]) || (v == 0 && exists|i: int| 0 <= i < ss.len() && !#[trigger] ss[i]) }
// every assignment counts once
pub open spec fn counting(ss: Seq<bool>) -> WS { WS { ar: |l: int| 2, w: |l: int, c: int| 1real, g: |v: int| if wanted(ss, v) { 1real } else { 0real } } }
pub open spec fn rpow(x: real, n: int) -> real decreases n { if n <= 0 { 1real } else { rmul(rpow(x, n - 1), x) } }
pub proof fn lemma_gap2(ss: Seq<bool>, lo: int, hi: int)
    ensures gap(counting(ss), lo, hi) == rpow(2real, hi - lo)
    decreases hi - lo
{
    reveal(rmul);
    if hi > lo {
        lemma_gap2(ss, lo, hi - 1); let s = counting(ss);
        reveal_with_fuel(tot, 3);
        assert(tot(s, hi - 1, 2) == 2real);
        let g = rpow(2real, hi - 1 - lo);
        assert(2real * g == g * 2real) by (nonlinear_arith);
    }
}
pub proof fn lemma_cnt_node(d: D, id: int, ss: Seq<bool>)
    requires dag_ok(d), two(d), d.dom().contains(id), d[id] is N
    ensures ({ let s = counting(ss); let x = lev(d, id); let l = lo0(d, id); let h = hi1(d, id);
        wval(d, id, s) == rmul(rpow(2real, x - lv(d, l)), wval(d, l, s)) + rmul(rpow(2real, x - lv(d, h)), wval(d, h, s)) })
{
    let s = counting(ss); let x = lev(d, id); let l = lo0(d, id); let h = hi1(d, id);
    lemma_bn(d, id); assert(two1(d, id));
    lemma_ws_node(d, id, s, 2, none());
    lemma_ws_gap(d, l, s, x, none()); lemma_ws_gap(d, h, s, x, none());
    lemma_gap2(ss, lv(d, l), x); lemma_gap2(ss, lv(d, h), x);
    reveal_with_fuel(ksum, 3); reveal(rmul);
    let a = wsum(d, l, s, x, none()); let b = wsum(d, h, s, x, none());
    assert(1real * a == a && 1real * b == b) by (nonlinear_arith);
}
// THEOREM: over more variables than the function mentions, every assignment of the others doubles the count
pub proof fn theorem_count_more(d: D, id: int, ss: Seq<bool>, n: int, a: Asg)
    requires dag_ok(d), d.dom().contains(id), 0 <= lv(d, id) <= n
    ensures wsum(d, id, counting(ss), n, a) == rmul(rpow(2real, n - lv(d, id)), wval(d, id, counting(ss)))
{ lemma_ws_gap(d, id, counting(ss), n, a); lemma_gap2(ss, lv(d, id), n); }
//@typemap T Rn
//@fn bss bdd_count::power
//@args x n
    ensures r.v() == rpow(x.v(), n as int)
//@loop 0
    result.v() == rpow(x.v(), $i as int)
//@end
//@fn bss bdd_count::bdd_count
//@args dd ss node cache
    requires dd.wf(), dd.live(node as int), cnt_memo(dd.dag(), counting(ss@), old(cache)@)
    ensures r.v() == wval(dd.dag(), node as int, counting(ss@)), cnt_memo(dd.dag(), counting(ss@), final(cache)@)
    decreases dd.lvl(node as int)
//@entry
    proof {
        dd.lemma_two(); dd.lemma_node(node as int);
        let d = dd.dag(); let id = node as int; let s = counting(ss@);
        if d[id] is N { lemma_bn(d, id); lemma_cnt_node(d, id, ss@); } else { lemma_ws_term(d, id, s, d[id]->T_0); }
    }
//@end

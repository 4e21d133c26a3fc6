//@include strmap.vrs
// ---------------------------------------------------------------- probability
impl BddManager {
    // the name of the variable at a level
    pub open spec fn name(&self, l: int) -> Seq<char> { self.headers@[choose|h: int| 0 <= h < self.headers.len() && (#[trigger] self.headers[h]).level == l].label@ }
    pub proof fn lemma_name(&self, h: int)
        requires self.one_header_per_level(), 0 <= h < self.headers.len()
        ensures self.name(self.hlevel(h)) == self.headers@[h].label@
    { assert(self.headers[h].level == self.hlevel(h)); }
}
pub open spec fn pof(m: BddManager, pv: IMap<Seq<char>, Rn>, l: int) -> real { let x = m.name(l); if pv.dom().contains(x) { pv[x].v() } else { 0real } }
// the probability of an assignment: the product of the components' probabilities
pub open spec fn chance(m: BddManager, pv: IMap<Seq<char>, Rn>, ss: Seq<bool>) -> WS {
    WS { ar: |l: int| 2, w: |l: int, c: int| if c == 1 { pof(m, pv, l) } else { 1real - pof(m, pv, l) }, g: |v: int| if wanted(ss, v) { 1real } else { 0real } }
}
// weights that sum to one: the sum over any set of variables that includes those of id is the same
pub proof fn lemma_tot_chance(m: BddManager, pv: IMap<Seq<char>, Rn>, ss: Seq<bool>)
    ensures forall|l: int| #[trigger] tot(chance(m, pv, ss), l, (chance(m, pv, ss).ar)(l)) == 1real
{ reveal_with_fuel(tot, 3); }
pub proof fn lemma_prob_node(m: BddManager, pv: IMap<Seq<char>, Rn>, ss: Seq<bool>, id: int)
    requires m.wf(), m.live(id), m.dag()[id] is N
    ensures ({ let d = m.dag(); let s = chance(m, pv, ss); let p = pof(m, pv, lev(d, id));
        wval(d, id, s) == rmul(1real - p, wval(d, lo0(d, id), s)) + rmul(p, wval(d, hi1(d, id), s)) })
{
    let d = m.dag(); let s = chance(m, pv, ss); let x = lev(d, id);
    m.lemma_two(); lemma_bn(d, id); assert(two1(d, id)); lemma_tot_chance(m, pv, ss);
    lemma_ws_node(d, id, s, 2, none());
    lemma_ws_one(d, lo0(d, id), s, x, none()); lemma_ws_one(d, hi1(d, id), s, x, none());
    reveal_with_fuel(ksum, 3); reveal(rmul);
}
//@fn bss bdd_prob::prob
//@args dd node pv ss cache
    requires dd.wf(), dd.one_header_per_level(), dd.live(node as int), pure(dd.dag(), node as int), cnt_memo(dd.dag(), chance(*dd, pv@, ss@), old(cache)@)
    ensures r.v() == wval(dd.dag(), node as int, chance(*dd, pv@, ss@)), cnt_memo(dd.dag(), chance(*dd, pv@, ss@), final(cache)@)
    decreases dd.lvl(node as int)
//@entry
    proof {
        dd.lemma_two(); dd.lemma_node(node as int);
        let d = dd.dag(); let id = node as int; let s = chance(*dd, pv@, ss@);
        if d[id] is N { lemma_bn(d, id); lemma_prob_node(*dd, pv@, ss@, id); dd.lemma_name(dd.nodes[id]->NonTerminal_0.header as int); } else { lemma_ws_term(d, id, s, d[id]->T_0); lemma_bt(d, id); }
    }
//@end

// ---------------------------------------------------------------- bddcore: BddManager
//@item bddcore bdd_ops::Operation
//@fn bddcore bdd_ops::Operation::code
//@asspec code_spec
    ensures r == self.code_spec()
//@end
//@item bddcore bdd::BddManager

// three-valued connectives on {0, 1, 2 = undetermined}
pub open spec fn opv(k: Operation, x: int, y: int) -> int {
    match k {
        Operation::And => if x == 0 || y == 0 { 0 } else if x == 1 && y == 1 { 1 } else { 2 },
        Operation::Or => if x == 1 || y == 1 { 1 } else if x == 0 && y == 0 { 0 } else { 2 },
        Operation::XOr => if is01(x) && is01(y) { b2i(x != y) } else { 2 },
        Operation::Not => if is01(x) { 1 - x } else { 2 },
    }
}
// where the library promises the connective's value: negation everywhere, the others where both operands are
// determined; elsewhere conjunction and disjunction give the three-valued result or 'undetermined'
pub open spec fn defined(k: Operation, x: int, y: int) -> bool { k is Not || (is01(x) && is01(y)) }
// v is the result of k on (f, g) in diagram d
pub open spec fn apply_ok(d: D, k: Operation, f: int, g: int, v: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(v)
    &&& lv(d, v) <= (if k is Not { lv(d, f) } else { max(lv(d, f), lv(d, g)) })
    &&& forall|a: Asg| val_ok(k, eval(d, f, a), eval(d, g, a), #[trigger] eval(d, v, a))
}
pub open spec fn val_ok(k: Operation, x: int, y: int, v: int) -> bool {
    &&& defined(k, x, y) ==> v == opv(k, x, y)
    &&& k is And || k is Or ==> v == opv(k, x, y) || v == 2
}
pub open spec fn entry_ok(d: D, code: u32, f: int, g: int, v: int) -> bool {
    d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(v) && forall|k: Operation| #[trigger] k.code_spec() == code ==> apply_ok(d, k, f, g, v)
}
pub open spec fn ite_ok(d: D, f: int, g: int, h: int, v: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(h) && d.dom().contains(v)
    &&& lv(d, v) <= max(lv(d, f), max(lv(d, g), lv(d, h)))
    &&& forall|a: Asg| is01(eval(d, f, a)) ==> #[trigger] eval(d, v, a) == (if eval(d, f, a) == 1 { eval(d, g, a) } else { eval(d, h, a) })
}
// r is what node construction gives for a variable at this level and two children
pub open spec fn built(d: D, level: int, low: int, high: int, r: int) -> bool { d.dom().contains(r) && if low == high { r == low } else { d[r] == (SN::N { level: level, kids: seq![low, high] }) } }
impl BddManager {
    pub open spec fn dag(&self) -> D { dag_of(self.headers@, self.nodes@, self.freelist@) }
    pub open spec fn live(&self, id: int) -> bool { self.dag().dom().contains(id) }
    pub open spec fn ev(&self, id: int, a: Asg) -> int { eval(self.dag(), id, a) }
    pub open spec fn lvl(&self, id: int) -> int { lv(self.dag(), id) }
    pub open spec fn hlevel(&self, h: int) -> int { self.headers@[h].level as int }
    pub open spec fn wf_term(&self) -> bool {
        &&& 3 <= self.nodes.len() <= u32::MAX
        &&& self.headers.len() <= u32::MAX
        &&& self.zero == 0 && self.one == 1 && self.undet == 2
        &&& self.nodes[0] == Node::Zero && self.nodes[1] == Node::One && self.nodes[2] == Node::Undet
        &&& self.live(0) && self.live(1) && self.live(2)
        &&& self.freelist@.no_duplicates()
        &&& forall|i: int| 0 <= i < self.freelist.len() ==> (#[trigger] self.freelist[i]) < self.nodes.len()
        &&& forall|i: int| 0 <= i < self.headers.len() ==> (#[trigger] self.headers[i]).level < usize::MAX && self.headers[i].id == i
    }
    pub open spec fn node_rep(&self, id: int) -> bool {
        match self.nodes[id] {
               Node::NonTerminal(n) => {
                    &&& n.id == id && n.header < self.headers.len() && n.edges[0] != n.edges[1]
                    &&& self.utable@.dom().contains(ukey(n)) && self.utable@[ukey(n)] == id
               },
               _ => id < 3 }
    }
    pub open spec fn wf_nodes(&self) -> bool {
        &&& dag_ok(self.dag())
        &&& forall|id: int| #[trigger] self.dag().dom().contains(id) ==> self.node_rep(id)
    }
    pub open spec fn wf_utable(&self) -> bool {
        forall|k: (int, int, int)| #[trigger] self.utable@.dom().contains(k) ==> {
              &&& self.live(self.utable@[k] as int)
              &&& self.nodes[self.utable@[k] as int] matches Node::NonTerminal(n) && ukey(n) == k }
    }
    pub open spec fn wf_cache(&self) -> bool {
        &&& self.cache.wf() && self.ite_cache.wf()
        &&& forall|k: u32, f: u32, g: u32, v: u32| #[trigger] self.cache.has(k, f, g, v) ==> entry_ok(self.dag(), k, f as int, g as int, v as int)
        &&& forall|f: u32, g: u32, h: u32, v: u32| #[trigger] self.ite_cache.has(f, g, h, v) ==> ite_ok(self.dag(), f as int, g as int, h as int, v as int)
    }
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool { self.wf_term() && self.wf_nodes() && self.wf_utable() && self.wf_cache() }
    pub open spec fn ext(&self, o: &BddManager) -> bool {
        &&& o.headers@ == self.headers@
        &&& ext(o.dag(), self.dag())
    }
    // what a client of the manager learns about a live node
    pub proof fn lemma_node(&self, id: int)
        requires self.wf(), self.live(id)
        ensures self.dag().dom().contains(id), self.dag()[id] == sn(self.headers@, self.nodes[id]), 0 <= id < self.nodes.len() <= u32::MAX, self.headers.len() <= u32::MAX,
           self.zero == 0 && self.one == 1 && self.undet == 2, self.live(0), self.live(1), self.live(2), self.lvl(0) == 0 && self.lvl(1) == 0 && self.lvl(2) == 0,
           self.nodes[0] == Node::Zero && self.nodes[1] == Node::One && self.nodes[2] == Node::Undet,
           forall|a: Asg| #[trigger] eval(self.dag(), 0, a) == 0, forall|a: Asg| #[trigger] eval(self.dag(), 1, a) == 1, forall|a: Asg| #[trigger] eval(self.dag(), 2, a) == 2,
           forall|a: Asg| tv(#[trigger] eval(self.dag(), id, a)),
           match self.nodes[id] {
             Node::NonTerminal(n) => {
                 &&& id >= 3 && n.id == id && n.edges[0] != n.edges[1] && n.header < self.headers.len() && self.hlevel(n.header as int) < usize::MAX
                 &&& self.live(n.edges[0] as int) && self.live(n.edges[1] as int) && n.edges[0] < self.nodes.len() && n.edges[1] < self.nodes.len()
                 &&& 0 <= self.lvl(n.edges[0] as int) < self.lvl(id) && 0 <= self.lvl(n.edges[1] as int) < self.lvl(id) && self.lvl(id) == self.hlevel(n.header as int) + 1
                 &&& forall|a: Asg| #[trigger] eval(self.dag(), id, a) == eval(self.dag(), if a(self.hlevel(n.header as int)) == 1 { n.edges[1] as int } else { n.edges[0] as int }, a)
             },
             Node::Zero => self.lvl(id) == 0 && id == 0,
             Node::One => self.lvl(id) == 0 && id == 1,
             Node::Undet => self.lvl(id) == 0 && id == 2,
           }
    {
        reveal(BddManager::wf); reveal(dag_ok); reveal(dag_of); reveal_with_fuel(eval, 1);
        assert(self.node_rep(id));
        assert forall|a: Asg| tv(#[trigger] eval(self.dag(), id, a)) by { self.lemma_tv(id, a); }
        match self.nodes[id] {
            Node::NonTerminal(n) => { let kids = self.dag()[id]->kids; assert(node_ok(self.dag(), id)); lemma_nt(self.dag(), id); assert(kids[0] == n.edges[0] && kids[1] == n.edges[1]);
                assert(self.dag().dom().contains(kids[0]) && self.dag().dom().contains(kids[1]));
            }, _ => { }
        }
    }
    pub proof fn lemma_tv(&self, id: int, a: Asg)
        requires self.wf(), self.live(id)
        ensures tv(eval(self.dag(), id, a)), lv(self.dag(), id) >= 0
        decreases lv(self.dag(), id)
    {
        reveal(BddManager::wf); reveal(dag_ok); reveal(dag_of); reveal_with_fuel(eval, 1);
        assert(node_ok(self.dag(), id));
        match self.nodes[id] {
            Node::NonTerminal(n) => {
                let kids = self.dag()[id]->kids;
                let k = sel(kids, a(self.hlevel(n.header as int)));
                lemma_sel(self.dag(), id, a(self.hlevel(n.header as int)));
                self.lemma_tv(k, a);
            }, _ => {}
        }
    }
    // one header per level: every variable has its own level
    pub open spec fn one_header_per_level(&self) -> bool {
        forall|i: int, j: int| 0 <= i < self.headers.len() && 0 <= j < self.headers.len() && (#[trigger] self.headers[i]).level == (#[trigger] self.headers[j]).level ==> i == j
    }
    // THEOREM canonicity: live nodes denoting the same function are the same node
    pub proof fn theorem_canonical(&self, f: int, g: int)
        requires self.wf(), self.one_header_per_level(), self.live(f), self.live(g), forall|a: Asg| #[trigger] eval(self.dag(), f, a) == eval(self.dag(), g, a)
        ensures f == g
    {
        reveal(BddManager::wf); reveal(dag_of);
        let d = self.dag();
        assert forall|i: int| #[trigger] d.dom().contains(i) implies node_reduced(d, i) by {
            assert(self.node_rep(i));
            match self.nodes[i] { Node::NonTerminal(n) => { let kids = d[i]->kids; assert(kids[0] != kids[1]); }, _ => {} }
        }
        assert forall|i: int, j: int| #[trigger] d.dom().contains(i) && #[trigger] d.dom().contains(j) && same_node(d[i], d[j]) implies i == j by {
            assert(self.node_rep(i)); assert(self.node_rep(j));
            match (self.nodes[i], self.nodes[j]) { (Node::NonTerminal(n), Node::NonTerminal(m)) => {
                let ki = d[i]->kids; let kj = d[j]->kids; assert(ki[0] == kj[0] && ki[1] == kj[1]);
                assert(self.headers[n.header as int].level == self.headers[m.header as int].level);
                assert(n.header == m.header); assert(ukey(n) == ukey(m)); }, _ => {} }
        }
        assert(uniform(d, |l: int| 2)) by { assert forall|i: int| #[trigger] d.dom().contains(i) implies node_arity(d, i, |l: int| 2) by {} }
        lemma_canonical(d, |l: int| 2, f, g);
    }
}
//@fn bddcore bdd::BddManager::get_node
//@args id
    ensures r == (if *id < self.nodes.len() { Some(&self.nodes[*id as int]) } else { None::<&Node> })
//@end
//@fn bddcore bdd::BddManager::get_header
//@args id
    ensures r == (if *id < self.headers.len() { Some(&self.headers[*id as int]) } else { None::<&NodeHeader> })
//@end
//@fn bddcore bdd::BddManager::level
//@args id
    requires self.wf(), self.live(*id as int)
    ensures self.lvl(*id as int) > 0 ==> (r matches Some(l) && l + 1 == self.lvl(*id as int)), self.lvl(*id as int) <= 0 ==> r is None
//@entry
    proof { self.lemma_node(*id as int); }
//@end
//@fn bddcore bdd::BddManager::label
//@args id
    requires self.wf(), self.live(*id as int),
    ensures match self.nodes[*id as int] { Node::NonTerminal(n) => r matches Some(x) && x@ == self.headers[n.header as int].label@, _ => r is None }
//@entry
    proof { self.lemma_node(*id as int); }
//@end
//@fn bddcore bdd::BddManager::size
    ensures r.0 == self.headers.len(), r.1 == self.nodes.len()
//@end
//@fn bddcore bdd::BddManager::zero
    ensures r == self.zero
//@end
//@fn bddcore bdd::BddManager::one
    ensures r == self.one
//@end
//@fn bddcore bdd::BddManager::undet
    ensures r == self.undet
//@end
//@fn bddcore bdd::BddManager::node_level
//@args id
    requires self.wf(), self.live(id as int)
    ensures self.lvl(id as int) > 0 ==> r + 1 == self.lvl(id as int), self.lvl(id as int) <= 0 ==> r == usize::MAX
//@entry
    proof { self.lemma_node(id as int); }
//@end
//@fn bddcore bdd::BddManager::cache_get
//@args key
    requires self.wf()
    ensures r matches Some(v) ==> apply_ok(self.dag(), key.0, key.1 as int, key.2 as int, v as int)
//@entry
    proof { reveal(BddManager::wf); }
//@end
//@fn bddcore bdd::BddManager::cache_put
//@args key val
    requires old(self).wf(), entry_ok(old(self).dag(), key.0.code_spec(), key.1 as int, key.2 as int, val as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).dag() == old(self).dag(),
//@entry
    proof { reveal(BddManager::wf); reveal(dag_of); }
//@end
//@fn bddcore bdd::BddManager::ite_cache_get
//@args f g h
    requires self.wf(), self.live(f as int), self.live(g as int), self.live(h as int)
    ensures r matches Some(v) ==> ite_ok(self.dag(), f as int, g as int, h as int, v as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); self.lemma_node(h as int); reveal(BddManager::wf); }
//@end
//@fn bddcore bdd::BddManager::ite_cache_put
//@args f g h val
    requires old(self).wf(), ite_ok(old(self).dag(), f as int, g as int, h as int, val as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).dag() == old(self).dag(),
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); self.lemma_node(h as int); self.lemma_node(val as int); reveal(BddManager::wf); reveal(dag_of); }
//@end
//@fn bddcore bdd::BddManager::clear_cache
    requires old(self).wf()
    ensures final(self).wf(), final(self).ext(old(self)), final(self).dag() == old(self).dag(),
//@entry
    proof { reveal(BddManager::wf); reveal(dag_of); }
//@end
//@fn bddcore bdd::BddManager::new
    ensures r.wf(), r.headers@.len() == 0, r.live(0), r.live(1), r.live(2)
//@exit
    proof { reveal(BddManager::wf); reveal(dag_of); reveal(dag_ok); assert(vx_r.wf_nodes()); assert(vx_r.wf_term()); }
//@end
//@fn bddcore bdd::BddManager::create_header
//@args level label
    requires old(self).wf(), level < usize::MAX, old(self).headers.len() < u32::MAX
    ensures final(self).wf(), ext(old(self).dag(), final(self).dag()), final(self).dag() == old(self).dag(), r == old(self).headers.len(), final(self).headers.len() == r + 1,
        final(self).hlevel(r as int) == level, final(self).headers@[r as int].label@ == label@, forall|i: int| 0 <= i < r ==> #[trigger] final(self).headers[i] == old(self).headers[i],
//@entry
    proof { reveal(BddManager::wf); reveal(dag_of); reveal(dag_ok); }
//@exit
    proof {
        assert forall|i: int| #[trigger] old(self).dag().dom().contains(i) implies self.dag()[i] == old(self).dag()[i] by { assert(old(self).node_rep(i)); }
        assert(self.dag() =~= old(self).dag());
        assert forall|i: int| #[trigger] self.dag().dom().contains(i) implies self.node_rep(i) by { assert(old(self).node_rep(i)); }
    }
//@end
//@fn bddcore bdd::BddManager::new_nonterminal
//@args headerid low high
    requires old(self).wf(), headerid < old(self).headers.len(), low <= u32::MAX, high <= u32::MAX,
    ensures final(self).wf_term(), final(self).headers == old(self).headers, final(self).utable == old(self).utable, final(self).cache == old(self).cache, final(self).ite_cache == old(self).ite_cache,
         final(self).nodes.len() >= old(self).nodes.len(),
         !old(self).live(r as int), r >= 3,
         final(self).dag() == old(self).dag().insert(r as int, SN::N { level: old(self).hlevel(headerid as int), kids: seq![low as int, high as int] }),
         forall|i: int| 0 <= i < old(self).nodes.len() && i != r ==> #[trigger] final(self).nodes[i] == old(self).nodes[i],
         final(self).nodes[r as int] matches Node::NonTerminal(n) && n.id == r && n.header == headerid && n.edges[0] == low && n.edges[1] == high,
//@entry
    proof { reveal(BddManager::wf); reveal(dag_of); reveal(dag_ok); }
    assume(self.nodes.len() < u32::MAX); // CAPACITY: fewer than 2^32 - 1 node slots
//@exit
    proof {
       let of = old(self).freelist@; let nf = self.freelist@;
       if of.len() > 0 {
           assert(of == nf.push(vx_r as u32));
           assert(forall|x: u32| of.contains(x) <==> nf.contains(x) || x == vx_r) by {
               assert forall|x: u32| #[trigger] nf.contains(x) implies of.contains(x) by { let k = choose|k: int| 0 <= k < nf.len() && nf[k] == x; assert(of[k] == x); }
               assert(of[of.len() - 1] == vx_r);
               assert forall|x: u32| #[trigger] of.contains(x) && x != vx_r implies nf.contains(x) by { let k = choose|k: int| 0 <= k < of.len() && of[k] == x; assert(nf[k] == x); }
           }
           assert(!nf.contains(vx_r as u32));
       }
       let o = old(self);
       assert(self.nodes[vx_r as int] is NonTerminal);
       assert(self.dag()[vx_r as int]->kids =~= seq![low as int, high as int]);
       assert(self.dag() =~= o.dag().insert(vx_r as int, SN::N { level: o.hlevel(headerid as int), kids: seq![low as int, high as int] }));
    }
//@end
//@fn bddcore bdd::BddManager::create_node
//@args header low high
    requires old(self).wf(), header < old(self).headers.len(), old(self).live(low as int), old(self).live(high as int),
        old(self).lvl(low as int) <= old(self).hlevel(header as int), old(self).lvl(high as int) <= old(self).hlevel(header as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
        final(self).lvl(r as int) <= old(self).hlevel(header as int) + 1,
        low == high ==> r == low,
        low != high ==> final(self).dag()[r as int] == (SN::N { level: old(self).hlevel(header as int), kids: seq![low as int, high as int] }),
        low != high ==> final(self).lvl(r as int) == old(self).hlevel(header as int) + 1,
        built(final(self).dag(), old(self).hlevel(header as int), low as int, high as int, r as int),
        forall|a: Asg| #[trigger] eval(final(self).dag(), r as int, a) == eval(old(self).dag(), if a(old(self).hlevel(header as int)) == 1 { high as int } else { low as int }, a),
//@entry
    proof { self.lemma_node(low as int); self.lemma_node(high as int); reveal(BddManager::wf); reveal(dag_of); reveal(dag_ok); }
//@exit
    proof {
        let o = old(self); let d = o.dag(); let d2 = self.dag();
        assert forall|i: int| d.dom().contains(i) implies d2.dom().contains(i) && #[trigger] d2[i] == d[i] by {}
        lemma_ext(d, d2);
        if low != high {
            assert(d2[vx_r as int]->kids =~= seq![low as int, high as int]);
            assert forall|i: int| d2.dom().contains(i) implies node_ok(d2, i) by { if d.dom().contains(i) { assert(node_ok(d, i)); } }
            assert forall|i: int| #[trigger] d2.dom().contains(i) implies self.node_rep(i) by { if d.dom().contains(i) { assert(o.node_rep(i)); } }
            lemma_nt(d2, vx_r as int);
        }
        assert(self.wf_cache());
        assert(self.wf());
    }
//@end
//@fn bddcore bdd_ops::BddManager::not
//@args f
    requires old(self).wf(), old(self).live(f as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), Operation::Not, f as int, 0, r as int)
    decreases old(self).lvl(f as int)
//@entry
    proof { self.lemma_node(f as int); }
//@end
//@fn bddcore bdd_ops::BddManager::and
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), Operation::And, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn bddcore bdd_ops::BddManager::or
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), Operation::Or, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn bddcore bdd_ops::BddManager::xor
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), Operation::XOr, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn bddcore bdd_ops::BddManager::imp
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
       forall|a: Asg| is01(eval(old(self).dag(), f as int, a)) && is01(eval(old(self).dag(), g as int, a)) ==> #[trigger] eval(final(self).dag(), r as int, a) == opv(Operation::Or, opv(Operation::Not, eval(old(self).dag(), f as int, a), 0), eval(old(self).dag(), g as int, a))
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn bddcore bdd_ops::BddManager::nand
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
       forall|a: Asg| is01(eval(old(self).dag(), f as int, a)) && is01(eval(old(self).dag(), g as int, a)) ==> #[trigger] eval(final(self).dag(), r as int, a) == opv(Operation::Not, opv(Operation::And, eval(old(self).dag(), f as int, a), eval(old(self).dag(), g as int, a)), 0)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn bddcore bdd_ops::BddManager::nor
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
       forall|a: Asg| is01(eval(old(self).dag(), f as int, a)) && is01(eval(old(self).dag(), g as int, a)) ==> #[trigger] eval(final(self).dag(), r as int, a) == opv(Operation::Not, opv(Operation::Or, eval(old(self).dag(), f as int, a), eval(old(self).dag(), g as int, a)), 0)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn bddcore bdd_ops::BddManager::xnor
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
       forall|a: Asg| is01(eval(old(self).dag(), f as int, a)) && is01(eval(old(self).dag(), g as int, a)) ==> #[trigger] eval(final(self).dag(), r as int, a) == b2i(eval(old(self).dag(), f as int, a) == eval(old(self).dag(), g as int, a))
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn bddcore bdd_ops::BddManager::cofactor
//@args id top
    requires self.wf(), self.live(id as int), self.lvl(id as int) <= top + 1, top < usize::MAX
    ensures self.live(r.0 as int), self.live(r.1 as int), 0 <= self.lvl(r.0 as int) <= top, 0 <= self.lvl(r.1 as int) <= top,
        self.lvl(r.0 as int) <= self.lvl(id as int), self.lvl(r.1 as int) <= self.lvl(id as int),
        self.lvl(id as int) == top + 1 ==> self.lvl(r.0 as int) < self.lvl(id as int) && self.lvl(r.1 as int) < self.lvl(id as int),
        forall|a: Asg| #[trigger] eval(self.dag(), id as int, a) == eval(self.dag(), if a(top as int) == 1 { r.1 as int } else { r.0 as int }, a)
//@entry
    proof { self.lemma_node(id as int); }
//@end
//@fn bddcore bdd_ops::BddManager::top_header
//@args f g h top
    requires self.wf(), self.live(f as int), self.live(g as int), self.live(h as int), top < usize::MAX,
       self.lvl(f as int) == top + 1 || self.lvl(g as int) == top + 1 || self.lvl(h as int) == top + 1
    ensures r < self.headers.len(), self.hlevel(r as int) == top
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); self.lemma_node(h as int); }
//@end
//@fn bddcore bdd_ops::BddManager::ite
//@args f g h
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int), old(self).live(h as int)
    ensures final(self).wf(), final(self).ext(old(self)), ite_ok(final(self).dag(), f as int, g as int, h as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int) + old(self).lvl(h as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); self.lemma_node(h as int); }
//@end
pub proof fn lemma_gc_pre(m: &BddManager)
    requires m.wf()
    ensures 3 <= m.nodes.len() <= u32::MAX, m.zero == 0 && m.one == 1 && m.undet == 2, dag_ok(m.dag()),
        m.live(0) && m.live(1) && m.live(2),
        forall|id: int| #[trigger] m.dag().dom().contains(id) ==> 0 <= id < m.nodes.len() && m.dag()[id] == sn(m.headers@, m.nodes[id]),
        forall|k: (int, int, int)| #[trigger] m.utable@.dom().contains(k) ==> m.utable@[k] < m.nodes.len(),
        m.cache.wf(), m.ite_cache.wf(), m.dag()[0] is T && m.dag()[1] is T && m.dag()[2] is T,
        forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.cache.has(k, f, g, v) ==> f < m.nodes.len() && g < m.nodes.len() && v < m.nodes.len(),
        forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.ite_cache.has(k, f, g, v) ==> k < m.nodes.len() && f < m.nodes.len() && g < m.nodes.len() && v < m.nodes.len(),
{ reveal(BddManager::wf); reveal(dag_of); assert(m.wf_nodes() && m.wf_term() && m.wf_utable() && m.wf_cache()); }
pub proof fn lemma_gc_post(m: &BddManager, o: &BddManager, roots: Seq<usize>, live: Seq<bool>)
    requires o.wf(), live.len() == o.nodes.len(), mark_inv(o.dag(), base3(), roots, live, Seq::empty()),
        m.headers@ == o.headers@, m.nodes@ == o.nodes@, m.zero == o.zero && m.one == o.one && m.undet == o.undet,
        m.cache.wf() && m.ite_cache.wf(),
        forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.cache.has(k, f, g, v) ==> o.cache.has(k, f, g, v) && live[f as int] && live[g as int] && live[v as int],
        forall|h: u32, f: u32, g: u32, v: u32| #[trigger] m.ite_cache.has(h, f, g, v) ==> o.ite_cache.has(h, f, g, v) && live[h as int] && live[f as int] && live[g as int] && live[v as int],
        forall|k: (int, int, int)| #[trigger] m.utable@.dom().contains(k) <==> o.utable@.dom().contains(k) && live[o.utable@[k] as int],
        forall|k: (int, int, int)| #[trigger] m.utable@.dom().contains(k) ==> m.utable@[k] == o.utable@[k],
        is_free(m.freelist@, live, live.len() as int),
    ensures m.wf(), kept(o.dag(), m.dag(), base3(), roots)
{
    reveal(BddManager::wf); reveal(dag_of); reveal(mark_inv);
    lemma_gc_pre(o);
    let d = o.dag(); let d2 = m.dag();
    assert forall|id: int| #[trigger] d2.dom().contains(id) <==> 0 <= id < live.len() && live[id] by { if 0 <= id < live.len() { assert(m.freelist@.contains(id as u32) <==> (id as u32) < live.len() && !live[id as u32 as int]); } }
    lemma_kept(d, d2, base3(), roots, live);
    assert forall|k: (int, int, int)| #[trigger] m.utable@.dom().contains(k) implies m.live(m.utable@[k] as int) && (m.nodes[m.utable@[k] as int] matches Node::NonTerminal(n) && ukey(n) == k) by {
        assert(o.utable@.dom().contains(k));
    }
    assert forall|id: int| #[trigger] d2.dom().contains(id) implies m.node_rep(id) by {
        assert(o.node_rep(id));
        match m.nodes[id] { Node::NonTerminal(n) => { assert(o.utable@.dom().contains(ukey(n))); assert(m.utable@.dom().contains(ukey(n))); }, _ => {} }
    }
    assert(m.wf_utable()); assert(m.wf_nodes());
    assert forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.cache.has(k, f, g, v) implies entry_ok(d2, k, f as int, g as int, v as int) by {
        assert(o.cache.has(k, f, g, v)); assert(entry_ok(d, k, f as int, g as int, v as int));
        assert(d2.dom().contains(f as int) && d2.dom().contains(g as int) && d2.dom().contains(v as int));
        assert forall|op: Operation| #[trigger] op.code_spec() == k implies apply_ok(d2, op, f as int, g as int, v as int) by { assert(apply_ok(d, op, f as int, g as int, v as int)); }
    }
    assert forall|f: u32, g: u32, h: u32, v: u32| #[trigger] m.ite_cache.has(f, g, h, v) implies ite_ok(d2, f as int, g as int, h as int, v as int) by {
        assert(o.ite_cache.has(f, g, h, v)); assert(ite_ok(d, f as int, g as int, h as int, v as int));
    }
    assert(base3()(0) && base3()(1) && base3()(2));
    assert(m.live(0) && m.live(1) && m.live(2));
    assert(m.wf_cache()); assert(m.wf_term());
}
//@fn bddcore bdd::BddManager::live_node_count
    requires self.wf()
    ensures r <= u32::MAX
//@entry
    proof { reveal(BddManager::wf); lemma_free_len(self.freelist@, self.nodes.len() as int); }
//@end
//@fn bddcore bdd::BddManager::gc
//@args roots
    requires old(self).wf(), forall|i: int| 0 <= i < roots@.len() ==> old(self).live(#[trigger] roots@[i] as int)
    ensures final(self).wf(), final(self).headers@ == old(self).headers@,
        // what survives means what it meant before, and is exactly what is reachable from the roots, plus the terminals
        kept(old(self).dag(), final(self).dag(), base3(), roots@),
        r == final(self).freelist@.len(), final(self).nodes@.len() == old(self).nodes@.len(),
//@entry
    proof { lemma_gc_pre(self); }
    let ghost d = self.dag();
//@loop 0
    forall|i: int| 0 <= i < $i ==> vx_v0@.contains(#[trigger] roots@[i]),
    forall|x: usize| #[trigger] vx_v0@.contains(x) ==> roots@.contains(x),
//@loopbegin 0
    let ghost vx_o = vx_v0@;
    proof { assert(roots@.contains(roots@[$i as int])); assert(self.live(roots@[$i as int] as int)); }
//@loopend 0
    proof { lemma_push_contains(vx_o, roots@[$i - 1]); assert(vx_v0@ == vx_o.push(roots@[$i - 1])); }
//@loopbefore 1
    proof { lemma_mark_init(d, base3(), roots@, live@, stack@); }
//@loop 1
    invariant *self == *old(self), d == self.dag(), n == self.nodes.len(), live@.len() == n, mark_inv(d, base3(), roots@, live@, stack@)
    decreases nfalse(live@), stack@.len()
//@loopbegin 1
    let ghost vx_l = live@; let ghost vx_s = stack@.push(id); let ghost vx_st = stack@;
    proof { lemma_drop_push(); lemma_mark_top(d, base3(), roots@, live@, vx_s); assert(vx_s.drop_last() =~= stack@); if !live@[id as int] { lemma_nfalse_update(live@, id as int); } }
//@loopend 1
    proof {
        assert(live@ == vx_l.update(id as int, true));
        match d[id as int] { SN::N { level, kids } => {
            let x = stack@[vx_st.len() as int]; let y = stack@[vx_st.len() as int + 1];
            assert(stack@ =~= vx_st.push(x).push(y));
            lemma_push_contains(vx_st, x); lemma_push_contains(vx_st.push(x), y);
            assert(kids.len() == 2 && kids[0] == x && kids[1] == y);
            assert(kids.contains(x as int) && kids.contains(y as int));
        }, _ => { assert(stack@ == vx_st); } }
        lemma_mark(d, base3(), roots@, vx_l, vx_s, live@, stack@, id);
    }
//@loopafter 1
    proof { assert(stack@ =~= Seq::empty()); }
//@closure 0
    |$p0: &(u32, u32, u32), $p1: &u32| -> (q: bool) requires *$p1 < live@.len() ensures q == live@[*$p1 as int]
//@after retain
    proof { lemma_retained(old(self).utable@, self.utable@, live@); }
//@loop 2
    is_free(self.freelist@, live@, $i as int),
//@loopbegin 2
    let ghost vx_f = self.freelist@;
//@loopend 2
    proof {
        if live@[$i - 1] { assert(self.freelist@ == vx_f); } else { assert(self.freelist@ == vx_f.push(($i - 1) as u32)); }
        lemma_free_step(vx_f, self.freelist@, live@, $i - 1);
    }
//@exit
    proof { lemma_gc_post(self, old(self), roots@, live@); }
//@end

// ---------------------------------------------------------------- bddcore: ZddManager
//@item bddcore zdd_ops::ZddOperation
impl KeyView for ZddOperation { type V = ZddOperation; open spec fn kv(self) -> ZddOperation { self } }
//@include fam.vrs
//@item bddcore zdd::ZddManager
pub type ZK = (ZddOperation, int, int);
// v is the result of k on the families f and g; without undetermined parts it is exactly the family of the algebra
pub open spec fn zentry(d: D, k: ZddOperation, f: int, g: int, v: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(v)
    &&& lv(d, v) <= (if k is Division || k is Setdiff { lv(d, f) } else { max(lv(d, f), lv(d, g)) })
    &&& pure(d, f) && pure(d, g) && (k is Division ==> g != 0) ==> pure(d, v) && forall|s: S| #[trigger] mem(d, v, s) == opm(d, k, f, g, s)
}
impl ZddManager {
    pub open spec fn dag(&self) -> D { dag_of(self.headers@, self.nodes@, self.freelist@) }
    pub open spec fn live(&self, id: int) -> bool { self.dag().dom().contains(id) }
    pub open spec fn lvl(&self, id: int) -> int { lv(self.dag(), id) }
    pub open spec fn hlevel(&self, h: int) -> int { self.headers@[h].level as int }
    pub open spec fn wf_term(&self) -> bool {
        &&& 3 <= self.nodes.len() <= u32::MAX
        &&& self.headers.len() <= u32::MAX
        &&& self.zero == 0 && self.one == 1 && self.undet == 2
        &&& self.nodes[0] == Node::Zero && self.nodes[1] == Node::One && self.nodes[2] == Node::Undet
        &&& self.live(0) && self.live(1) && self.live(2)
        &&& self.freelist@.no_duplicates()
        &&& forall|i: int| 0 <= i < self.freelist.len() ==> (#[trigger] self.freelist[i]) < self.nodes.len()
        &&& forall|i: int| 0 <= i < self.headers.len() ==> (#[trigger] self.headers[i]).level < usize::MAX && self.headers[i].id == i
    }
    pub open spec fn node_rep(&self, id: int) -> bool {
        match self.nodes[id] {
               Node::NonTerminal(n) => {
                    &&& n.id == id && n.header < self.headers.len() && n.edges[1] != 0
                    &&& self.utable@.dom().contains(ukey(n)) && self.utable@[ukey(n)] == id
               },
               Node::Zero => id == 0, Node::One => id == 1, Node::Undet => id == 2 }
    }
    pub open spec fn wf_nodes(&self) -> bool {
        &&& dag_ok(self.dag())
        &&& forall|id: int| #[trigger] self.dag().dom().contains(id) ==> self.node_rep(id)
    }
    pub open spec fn wf_utable(&self) -> bool {
        forall|k: (int, int, int)| #[trigger] self.utable@.dom().contains(k) ==> {
              &&& self.live(self.utable@[k] as int)
              &&& self.nodes[self.utable@[k] as int] matches Node::NonTerminal(n) && ukey(n) == k }
    }
    pub open spec fn wf_cache(&self) -> bool {
        forall|k: ZK| #[trigger] self.cache@.dom().contains(k) ==> zentry(self.dag(), k.0, k.1, k.2, self.cache@[k] as int)
    }
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool { self.wf_term() && self.wf_nodes() && self.wf_utable() && self.wf_cache() }
    pub open spec fn ext(&self, o: &ZddManager) -> bool {
        &&& o.headers@ == self.headers@ && o.zero == self.zero && o.one == self.one && o.undet == self.undet
        &&& zext(o.dag(), self.dag())
    }
    pub proof fn lemma_zred(&self)
        requires self.wf_term(), self.wf_nodes()
        ensures zred(self.dag()), dag_ok(self.dag())
    {
        reveal(dag_of);
        let d = self.dag();
        assert forall|id: int| #[trigger] d.dom().contains(id) implies znode(d, id) by {
            assert(self.node_rep(id));
            match self.nodes[id] { Node::NonTerminal(n) => { assert(d[id]->kids[1] == n.edges[1]); }, _ => {} }
        }
    }
    // what a client of the manager learns about a live node
    pub proof fn lemma_node(&self, id: int)
        requires self.wf(), self.live(id)
        ensures self.dag().dom().contains(id), self.dag()[id] == sn(self.headers@, self.nodes[id]), 0 <= id < self.nodes.len() <= u32::MAX, self.headers.len() <= u32::MAX,
           dag_ok(self.dag()), zred(self.dag()),
           self.zero == 0 && self.one == 1 && self.undet == 2, self.live(0), self.live(1), self.live(2), self.lvl(0) == 0 && self.lvl(1) == 0 && self.lvl(2) == 0,
           self.nodes[0] == Node::Zero && self.nodes[1] == Node::One && self.nodes[2] == Node::Undet,
           forall|s: S| !(#[trigger] mem(self.dag(), 0, s)), forall|s: S| #[trigger] mem(self.dag(), 1, s) == (s =~= ISet::empty()),
           pure(self.dag(), 0) && pure(self.dag(), 1) && !pure(self.dag(), 2),
           forall|s: S, l: int| #![trigger mem(self.dag(), id, s), s.contains(l)] mem(self.dag(), id, s) && l >= self.lvl(id) ==> !s.contains(l),
           match self.nodes[id] {
             Node::NonTerminal(n) => {
                 &&& id >= 3 && n.id == id && n.header < self.headers.len() && self.hlevel(n.header as int) < usize::MAX
                 &&& self.live(n.edges[0] as int) && self.live(n.edges[1] as int) && n.edges[0] < self.nodes.len() && n.edges[1] < self.nodes.len() && n.edges[1] != 0
                 &&& 0 <= self.lvl(n.edges[0] as int) < self.lvl(id) && 0 <= self.lvl(n.edges[1] as int) < self.lvl(id) && self.lvl(id) == self.hlevel(n.header as int) + 1
                 &&& forall|s: S| #[trigger] mem(self.dag(), id, s) == (if s.contains(self.hlevel(n.header as int)) { mem(self.dag(), n.edges[1] as int, s.remove(self.hlevel(n.header as int))) } else { mem(self.dag(), n.edges[0] as int, s) })
                 &&& pure(self.dag(), id) == (pure(self.dag(), n.edges[0] as int) && pure(self.dag(), n.edges[1] as int))
                 &&& n.edges[0] == k0(self.dag(), id) && n.edges[1] == k1(self.dag(), id)
             },
             Node::Zero => self.lvl(id) == 0 && id == 0,
             Node::One => self.lvl(id) == 0 && id == 1,
             Node::Undet => self.lvl(id) == 0 && id == 2,
           }
    {
        reveal(ZddManager::wf); reveal(dag_ok); reveal(dag_of); reveal_with_fuel(mem, 1); reveal_with_fuel(pure, 1);
        self.lemma_zred();
        assert(self.node_rep(id)); assert(self.node_rep(0)); assert(self.node_rep(1)); assert(self.node_rep(2));
        lemma_bound_all(self.dag(), id);
        match self.nodes[id] {
            Node::NonTerminal(n) => { let kids = self.dag()[id]->kids; assert(node_ok(self.dag(), id)); lemma_zn(self.dag(), id); assert(kids[0] == n.edges[0] && kids[1] == n.edges[1]);
                assert(self.dag().dom().contains(kids[0]) && self.dag().dom().contains(kids[1]));
            }, _ => { }
        }
    }
    pub open spec fn one_header_per_level(&self) -> bool {
        forall|i: int, j: int| 0 <= i < self.headers.len() && 0 <= j < self.headers.len() && (#[trigger] self.headers[i]).level == (#[trigger] self.headers[j]).level ==> i == j
    }
    // THEOREM canonicity: live nodes holding the same family are the same node
    pub proof fn theorem_zdd_canonical(&self, f: int, g: int)
        requires self.wf(), self.one_header_per_level(), self.live(f), self.live(g), pure(self.dag(), f), pure(self.dag(), g), forall|s: S| #[trigger] mem(self.dag(), f, s) == mem(self.dag(), g, s)
        ensures f == g
    {
        reveal(ZddManager::wf); reveal(dag_of);
        let d = self.dag();
        self.lemma_zred();
        assert forall|i: int, j: int| #[trigger] d.dom().contains(i) && #[trigger] d.dom().contains(j) && same_node(d[i], d[j]) implies i == j by {
            assert(self.node_rep(i)); assert(self.node_rep(j));
            match (self.nodes[i], self.nodes[j]) { (Node::NonTerminal(n), Node::NonTerminal(m)) => {
                let ki = d[i]->kids; let kj = d[j]->kids; assert(ki[0] == kj[0] && ki[1] == kj[1]);
                assert(self.headers[n.header as int].level == self.headers[m.header as int].level);
                assert(n.header == m.header); assert(ukey(n) == ukey(m)); }, _ => {} }
        }
        lemma_zcanonical(d, f, g);
    }
}
//@fn bddcore zdd::ZddManager::get_node
//@args id
    ensures r == (if *id < self.nodes.len() { Some(&self.nodes[*id as int]) } else { None::<&Node> })
//@end
//@fn bddcore zdd::ZddManager::get_header
//@args id
    ensures r == (if *id < self.headers.len() { Some(&self.headers[*id as int]) } else { None::<&NodeHeader> })
//@end
//@fn bddcore zdd::ZddManager::level
//@args id
    requires self.wf(), self.live(*id as int)
    ensures self.lvl(*id as int) > 0 ==> (r matches Some(l) && l + 1 == self.lvl(*id as int)), self.lvl(*id as int) <= 0 ==> r is None
//@entry
    proof { self.lemma_node(*id as int); }
//@end
//@fn bddcore zdd::ZddManager::label
//@args id
    requires self.wf(), self.live(*id as int),
    ensures match self.nodes[*id as int] { Node::NonTerminal(n) => r matches Some(x) && x@ == self.headers[n.header as int].label@, _ => r is None }
//@entry
    proof { self.lemma_node(*id as int); }
//@end
//@fn bddcore zdd::ZddManager::zero
    ensures r == self.zero
//@end
//@fn bddcore zdd::ZddManager::one
    ensures r == self.one
//@end
//@fn bddcore zdd::ZddManager::undet
    ensures r == self.undet
//@end
//@fn bddcore zdd::ZddManager::node_level
//@args id
    requires self.wf(), self.live(id as int)
    ensures self.lvl(id as int) > 0 ==> r + 1 == self.lvl(id as int), self.lvl(id as int) <= 0 ==> r == usize::MAX
//@entry
    proof { self.lemma_node(id as int); }
//@end
//@fn bddcore zdd::ZddManager::cache_get
//@args key
    requires self.wf()
    ensures r matches Some(v) ==> zentry(self.dag(), key.0, key.1 as int, key.2 as int, v as int)
//@entry
    proof { reveal(ZddManager::wf); }
//@end
//@fn bddcore zdd::ZddManager::cache_put
//@args key val
    requires old(self).wf(), zentry(old(self).dag(), key.0, key.1 as int, key.2 as int, val as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).dag() == old(self).dag(),
//@entry
    proof { self.lemma_node(val as int); reveal(ZddManager::wf); reveal(dag_of); }
//@end
//@fn bddcore zdd::ZddManager::clear_cache
    requires old(self).wf()
    ensures final(self).wf(), final(self).ext(old(self)), final(self).dag() == old(self).dag(),
//@entry
    proof { reveal(ZddManager::wf); reveal(dag_of); }
//@end
//@fn bddcore zdd::ZddManager::new
    ensures r.wf(), r.headers@.len() == 0, r.live(0), r.live(1), r.live(2)
//@exit
    proof { reveal(ZddManager::wf); reveal(dag_of); reveal(dag_ok); assert(vx_r.wf_nodes()); assert(vx_r.wf_term()); }
//@end
//@fn bddcore zdd::ZddManager::create_header
//@args level label
    requires old(self).wf(), level < usize::MAX, old(self).headers.len() < u32::MAX
    ensures final(self).wf(), final(self).dag() == old(self).dag(), r == old(self).headers.len(), final(self).headers.len() == r + 1,
        final(self).hlevel(r as int) == level, final(self).headers[r as int].label@ == label@, forall|i: int| 0 <= i < r ==> #[trigger] final(self).headers[i] == old(self).headers[i],
//@entry
    proof { reveal(ZddManager::wf); reveal(dag_of); reveal(dag_ok); }
//@exit
    proof {
        assert forall|i: int| #[trigger] old(self).dag().dom().contains(i) implies self.dag()[i] == old(self).dag()[i] by { assert(old(self).node_rep(i)); }
        assert(self.dag() =~= old(self).dag());
        assert forall|i: int| #[trigger] self.dag().dom().contains(i) implies self.node_rep(i) by { assert(old(self).node_rep(i)); }
    }
//@end
//@fn bddcore zdd::ZddManager::new_nonterminal
//@args headerid low high
    requires old(self).wf(), headerid < old(self).headers.len(), low <= u32::MAX, high <= u32::MAX,
    ensures final(self).wf_term(), final(self).headers == old(self).headers, final(self).zero == old(self).zero, final(self).one == old(self).one, final(self).undet == old(self).undet, final(self).utable == old(self).utable, final(self).cache == old(self).cache,
         final(self).nodes.len() >= old(self).nodes.len(),
         !old(self).live(r as int), r >= 3,
         final(self).dag() == old(self).dag().insert(r as int, SN::N { level: old(self).hlevel(headerid as int), kids: seq![low as int, high as int] }),
         forall|i: int| 0 <= i < old(self).nodes.len() && i != r ==> #[trigger] final(self).nodes[i] == old(self).nodes[i],
         final(self).nodes[r as int] matches Node::NonTerminal(n) && n.id == r && n.header == headerid && n.edges[0] == low && n.edges[1] == high,
//@entry
    proof { reveal(ZddManager::wf); reveal(dag_of); reveal(dag_ok); }
    assume(self.nodes.len() < u32::MAX); // CAPACITY: fewer than 2^32 - 1 node slots
//@exit
    proof {
       let of = old(self).freelist@; let nf = self.freelist@;
       if of.len() > 0 {
           assert(of == nf.push(vx_r as u32));
           assert(forall|x: u32| of.contains(x) <==> nf.contains(x) || x == vx_r) by {
               assert forall|x: u32| #[trigger] nf.contains(x) implies of.contains(x) by { let k = choose|k: int| 0 <= k < nf.len() && nf[k] == x; assert(of[k] == x); }
               assert(of[of.len() - 1] == vx_r);
               assert forall|x: u32| #[trigger] of.contains(x) && x != vx_r implies nf.contains(x) by { let k = choose|k: int| 0 <= k < of.len() && of[k] == x; assert(nf[k] == x); }
           }
           assert(!nf.contains(vx_r as u32));
       }
       let o = old(self);
       assert(self.nodes[vx_r as int] is NonTerminal);
       assert(self.dag()[vx_r as int]->kids =~= seq![low as int, high as int]);
       assert(self.dag() =~= o.dag().insert(vx_r as int, SN::N { level: o.hlevel(headerid as int), kids: seq![low as int, high as int] }));
    }
//@end
//@fn bddcore zdd::ZddManager::create_node
//@attr #[verifier::spinoff_prover]
//@args header low high
    requires old(self).wf(), header < old(self).headers.len(), old(self).live(low as int), old(self).live(high as int),
        old(self).lvl(low as int) <= old(self).hlevel(header as int), old(self).lvl(high as int) <= old(self).hlevel(header as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
        final(self).lvl(r as int) <= old(self).hlevel(header as int) + 1,
        high == 0 ==> r == low,
        high != 0 ==> final(self).dag()[r as int] == (SN::N { level: old(self).hlevel(header as int), kids: seq![low as int, high as int] }),
        pure(final(self).dag(), r as int) == (pure(old(self).dag(), low as int) && pure(old(self).dag(), high as int)),
        forall|s: S| #[trigger] mem(final(self).dag(), r as int, s) == (if s.contains(old(self).hlevel(header as int)) { mem(old(self).dag(), high as int, s.remove(old(self).hlevel(header as int))) } else { mem(old(self).dag(), low as int, s) }),
//@entry
    proof { self.lemma_node(low as int); self.lemma_node(high as int); reveal(ZddManager::wf); reveal(dag_of); reveal(dag_ok); }
//@exit
    proof {
        let o = old(self); let d = o.dag(); let d2 = self.dag();
        assert forall|i: int| d.dom().contains(i) implies d2.dom().contains(i) && #[trigger] d2[i] == d[i] by {}
        lemma_zext(d, d2);
        if high != 0 {
            assert(d2[vx_r as int]->kids =~= seq![low as int, high as int]);
            assert forall|i: int| d2.dom().contains(i) implies node_ok(d2, i) by { if d.dom().contains(i) { assert(node_ok(d, i)); } }
            assert forall|i: int| #[trigger] d2.dom().contains(i) implies self.node_rep(i) by { if d.dom().contains(i) { assert(o.node_rep(i)); } }
            self.lemma_zred();
            lemma_zn(d2, vx_r as int);
        }
        assert(self.wf_cache());
        assert(self.wf());
    }
//@end
//@fn bddcore zdd_ops::ZddManager::intersect
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), zentry(final(self).dag(), ZddOperation::Intersect, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); reveal(opm); }
//@end
//@fn bddcore zdd_ops::ZddManager::union
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), zentry(final(self).dag(), ZddOperation::Union, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); reveal(opm); }
//@end
//@fn bddcore zdd_ops::ZddManager::setdiff
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), zentry(final(self).dag(), ZddOperation::Setdiff, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); reveal(opm); }
//@end
//@fn bddcore zdd_ops::ZddManager::product
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), zentry(final(self).dag(), ZddOperation::Product, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); reveal(opm); lemma_prod_cases(self.dag(), f as int, g as int); }
//@end
//@fn bddcore zdd_ops::ZddManager::divide
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), zentry(final(self).dag(), ZddOperation::Division, f as int, g as int, r as int),
        forall|s: S, l: int| #![trigger mem(final(self).dag(), r as int, s), s.contains(l)] mem(final(self).dag(), r as int, s) && l >= final(self).lvl(r as int) ==> !s.contains(l),
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); reveal(opm); lemma_div_cases(self.dag(), f as int, g as int); }
//@exit
    proof { self.lemma_node(vx_r as int); }
//@end
pub proof fn lemma_prod_cases(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g)
    ensures
        d[f] == SN::T(0) || d[g] == SN::T(0) ==> forall|s: S| !(#[trigger] prodm(d, f, g, s)),
        d[g] == SN::T(1) ==> forall|s: S| #[trigger] prodm(d, f, g, s) == mem(d, f, s),
        d[f] == SN::T(1) ==> forall|s: S| #[trigger] prodm(d, f, g, s) == mem(d, g, s),
        d[f] is N && lv(d, f) > lv(d, g) ==> forall|s: S| #[trigger] prodm(d, f, g, s) == (if s.contains(lv(d, f) - 1) { prodm(d, k1(d, f), g, s.remove(lv(d, f) - 1)) } else { prodm(d, k0(d, f), g, s) }),
        d[g] is N && lv(d, g) > lv(d, f) ==> forall|s: S| #[trigger] prodm(d, f, g, s) == (if s.contains(lv(d, g) - 1) { prodm(d, f, k1(d, g), s.remove(lv(d, g) - 1)) } else { prodm(d, f, k0(d, g), s) }),
        d[f] is N && d[g] is N && lv(d, g) == lv(d, f) ==> forall|s: S| #[trigger] prodm(d, f, g, s) == (if s.contains(lv(d, g) - 1) { let q = s.remove(lv(d, g) - 1); prodm(d, k1(d, f), k1(d, g), q) || prodm(d, k1(d, f), k0(d, g), q) || prodm(d, k0(d, f), k1(d, g), q) } else { prodm(d, k0(d, f), k0(d, g), s) })
{
    lemma_prod_term(d, f, g);
    if d[f] is N && lv(d, f) > lv(d, g) { lemma_prod_left(d, f, g); }
    if d[g] is N && lv(d, g) > lv(d, f) { lemma_prod_right(d, f, g); }
    if d[f] is N && d[g] is N && lv(d, g) == lv(d, f) { lemma_prod_both(d, f, g); }
}
pub proof fn lemma_div_cases(d: D, f: int, g: int)
    requires dag_ok(d), zred(d), d.dom().contains(f), d.dom().contains(g)
    ensures
        d[g] == SN::T(1) ==> forall|s: S| #[trigger] divm(d, f, g, s) == mem(d, f, s),
        d[f] is N && lv(d, f) > lv(d, g) ==> forall|s: S| #[trigger] divm(d, f, g, s) == (if s.contains(lv(d, f) - 1) { divm(d, k1(d, f), g, s.remove(lv(d, f) - 1)) } else { divm(d, k0(d, f), g, s) }),
        d[g] is N && lv(d, f) < lv(d, g) && pure(d, g) ==> forall|s: S| !(#[trigger] divm(d, f, g, s)),
        d[f] is N && d[g] is N && lv(d, g) == lv(d, f) && pure(d, g) ==> forall|s: S| #[trigger] divm(d, f, g, s) == (!s.contains(lv(d, f) - 1) && divm(d, k1(d, f), k1(d, g), s) && divm(d, k0(d, f), k0(d, g), s)),
        forall|s: S| #[trigger] divm(d, k0(d, f), 0, s),
{
    lemma_div_zero(d, k0(d, f), 0);
    if d[g] == SN::T(1) { lemma_div_one(d, f, g); }
    if d[f] is N && lv(d, f) > lv(d, g) { lemma_div_left(d, f, g); }
    if d[g] is N && lv(d, f) < lv(d, g) && pure(d, g) { lemma_div_none(d, f, g); }
    if d[f] is N && d[g] is N && lv(d, g) == lv(d, f) && pure(d, g) { lemma_div_both(d, f, g); }
}
// what survives holds the same family
pub open spec fn zkept(d: D, d2: D) -> bool {
    &&& forall|id: int, s: S| d2.dom().contains(id) ==> #[trigger] mem(d2, id, s) == mem(d, id, s)
    &&& forall|id: int| d2.dom().contains(id) ==> #[trigger] pure(d2, id) == pure(d, id)
}
pub proof fn lemma_zgc_pre(m: &ZddManager)
    requires m.wf()
    ensures 3 <= m.nodes.len() <= u32::MAX, m.zero == 0 && m.one == 1 && m.undet == 2, dag_ok(m.dag()),
        m.live(0) && m.live(1) && m.live(2),
        forall|id: int| #[trigger] m.dag().dom().contains(id) ==> 0 <= id < m.nodes.len() && m.dag()[id] == sn(m.headers@, m.nodes[id]),
        forall|k: (int, int, int)| #[trigger] m.utable@.dom().contains(k) ==> m.utable@[k] < m.nodes.len(),
        m.dag()[0] is T && m.dag()[1] is T && m.dag()[2] is T,
        forall|k: ZK| #[trigger] m.cache@.dom().contains(k) ==> 0 <= k.1 < m.nodes.len() && 0 <= k.2 < m.nodes.len() && m.cache@[k] < m.nodes.len(),
{ reveal(ZddManager::wf); reveal(dag_of); assert(m.wf_nodes() && m.wf_term() && m.wf_utable() && m.wf_cache()); }
pub proof fn lemma_zretained(o: IMap<ZK, u32>, n: IMap<ZK, u32>, live: Seq<bool>)
    requires
        forall|k: ZK| #[trigger] n.dom().contains(k) ==> o.dom().contains(k) && n[k] == o[k],
        forall|k: (ZddOperation, u32, u32)| #![trigger n.dom().contains(k.kv())] o.dom().contains(k.kv()) ==> n.dom().contains(k.kv()) == (live[k.1 as int] && live[k.2 as int] && live[o[k.kv()] as int]),
        forall|k: ZK| #[trigger] o.dom().contains(k) ==> exists|q: (ZddOperation, u32, u32)| q.kv() == k,
    ensures
        forall|k: ZK| #[trigger] n.dom().contains(k) ==> o.dom().contains(k) && n[k] == o[k] && live[k.1] && live[k.2] && live[o[k] as int],
{
    assert forall|k: ZK| #[trigger] n.dom().contains(k) implies o.dom().contains(k) && n[k] == o[k] && live[k.1] && live[k.2] && live[o[k] as int] by {
        let q = choose|q: (ZddOperation, u32, u32)| q.kv() == k; assert(n.dom().contains(q.kv()));
    }
}
pub proof fn lemma_zgc_post(m: &ZddManager, o: &ZddManager, roots: Seq<usize>, live: Seq<bool>)
    requires o.wf(), live.len() == o.nodes.len(), mark_inv(o.dag(), base3(), roots, live, Seq::empty()),
        m.headers@ == o.headers@, m.nodes@ == o.nodes@, m.zero == o.zero && m.one == o.one && m.undet == o.undet,
        forall|k: ZK| #[trigger] m.cache@.dom().contains(k) ==> o.cache@.dom().contains(k) && m.cache@[k] == o.cache@[k] && live[k.1] && live[k.2] && live[o.cache@[k] as int],
        forall|k: (int, int, int)| #[trigger] m.utable@.dom().contains(k) <==> o.utable@.dom().contains(k) && live[o.utable@[k] as int],
        forall|k: (int, int, int)| #[trigger] m.utable@.dom().contains(k) ==> m.utable@[k] == o.utable@[k],
        is_free(m.freelist@, live, live.len() as int),
    ensures m.wf(), kept(o.dag(), m.dag(), base3(), roots), zkept(o.dag(), m.dag())
{
    reveal(ZddManager::wf); reveal(dag_of); reveal(mark_inv);
    lemma_zgc_pre(o);
    let d = o.dag(); let d2 = m.dag();
    assert forall|id: int| #[trigger] d2.dom().contains(id) <==> 0 <= id < live.len() && live[id] by { if 0 <= id < live.len() { assert(m.freelist@.contains(id as u32) <==> (id as u32) < live.len() && !live[id as u32 as int]); } }
    lemma_kept(d, d2, base3(), roots, live);
    assert forall|k: (int, int, int)| #[trigger] m.utable@.dom().contains(k) implies m.live(m.utable@[k] as int) && (m.nodes[m.utable@[k] as int] matches Node::NonTerminal(n) && ukey(n) == k) by {
        assert(o.utable@.dom().contains(k));
    }
    assert forall|id: int| #[trigger] d2.dom().contains(id) implies m.node_rep(id) by {
        assert(o.node_rep(id));
        match m.nodes[id] { Node::NonTerminal(n) => { assert(o.utable@.dom().contains(ukey(n))); assert(m.utable@.dom().contains(ukey(n))); }, _ => {} }
    }
    assert(base3()(0) && base3()(1) && base3()(2));
    assert(m.live(0) && m.live(1) && m.live(2));
    assert(m.wf_term()); assert(m.wf_utable()); assert(m.wf_nodes());
    m.lemma_zred();
    lemma_zext(d2, d);
    assert forall|k: ZK| #[trigger] m.cache@.dom().contains(k) implies zentry(d2, k.0, k.1, k.2, m.cache@[k] as int) by {
        assert(o.cache@.dom().contains(k)); assert(zentry(d, k.0, k.1, k.2, o.cache@[k] as int));
        assert(d2.dom().contains(k.1) && d2.dom().contains(k.2) && d2.dom().contains(m.cache@[k] as int));
        let v = m.cache@[k] as int;
        assert(pure(d, k.1) == pure(d2, k.1) && pure(d, k.2) == pure(d2, k.2) && pure(d, v) == pure(d2, v));
        if pure(d2, k.1) && pure(d2, k.2) && (k.0 is Division ==> k.2 != 0) {
            assert forall|s: S| #[trigger] mem(d2, v, s) == opm(d2, k.0, k.1, k.2, s) by { assert(mem(d, v, s) == opm(d, k.0, k.1, k.2, s)); }
        }
    }
    assert(m.wf_cache());
}
//@fn bddcore zdd::ZddManager::live_node_count
    requires self.wf()
    ensures r <= u32::MAX
//@entry
    proof { reveal(ZddManager::wf); lemma_free_len(self.freelist@, self.nodes.len() as int); }
//@end
//@fn bddcore zdd::ZddManager::gc
//@args roots
    requires old(self).wf(), forall|i: int| 0 <= i < roots@.len() ==> old(self).live(#[trigger] roots@[i] as int)
    ensures final(self).wf(), final(self).headers@ == old(self).headers@,
        // what survives means what it meant before, and is exactly what is reachable from the roots, plus the terminals
        kept(old(self).dag(), final(self).dag(), base3(), roots@), zkept(old(self).dag(), final(self).dag()),
        r == final(self).freelist@.len(), final(self).nodes@.len() == old(self).nodes@.len(),
//@entry
    proof { lemma_zgc_pre(self); }
    let ghost d = self.dag();
//@loop 0
    forall|i: int| 0 <= i < $i ==> vx_v0@.contains(#[trigger] roots@[i]),
    forall|x: usize| #[trigger] vx_v0@.contains(x) ==> roots@.contains(x),
//@loopbegin 0
    let ghost vx_o = vx_v0@;
    proof { assert(roots@.contains(roots@[$i as int])); assert(self.live(roots@[$i as int] as int)); }
//@loopend 0
    proof { lemma_push_contains(vx_o, roots@[$i - 1]); assert(vx_v0@ == vx_o.push(roots@[$i - 1])); }
//@loopbefore 1
    proof { lemma_mark_init(d, base3(), roots@, live@, stack@); }
//@loop 1
    invariant *self == *old(self), d == self.dag(), n == self.nodes.len(), live@.len() == n, mark_inv(d, base3(), roots@, live@, stack@)
    decreases nfalse(live@), stack@.len()
//@loopbegin 1
    let ghost vx_l = live@; let ghost vx_s = stack@.push(id); let ghost vx_st = stack@;
    proof { lemma_drop_push(); lemma_mark_top(d, base3(), roots@, live@, vx_s); assert(vx_s.drop_last() =~= stack@); if !live@[id as int] { lemma_nfalse_update(live@, id as int); } }
//@loopend 1
    proof {
        assert(live@ == vx_l.update(id as int, true));
        match d[id as int] { SN::N { level, kids } => {
            let x = stack@[vx_st.len() as int]; let y = stack@[vx_st.len() as int + 1];
            assert(stack@ =~= vx_st.push(x).push(y));
            lemma_push_contains(vx_st, x); lemma_push_contains(vx_st.push(x), y);
            assert(kids.len() == 2 && kids[0] == x && kids[1] == y);
            assert(kids.contains(x as int) && kids.contains(y as int));
        }, _ => { assert(stack@ == vx_st); } }
        lemma_mark(d, base3(), roots@, vx_l, vx_s, live@, stack@, id);
    }
//@loopafter 1
    proof { assert(stack@ =~= Seq::empty()); }
//@closure 0
    |$p0: &(u32, u32, u32), $p1: &u32| -> (q: bool) requires *$p1 < live@.len() ensures q == live@[*$p1 as int]
//@closure 1
    |$p0: &(ZddOperation, u32, u32), $p1: &u32| -> (q: bool) requires $p0.1 < live@.len(), $p0.2 < live@.len(), *$p1 < live@.len() ensures q == (live@[$p0.1 as int] && live@[$p0.2 as int] && live@[*$p1 as int])
//@loop 2
    is_free(self.freelist@, live@, $i as int),
//@loopbegin 2
    let ghost vx_f = self.freelist@;
//@loopend 2
    proof {
        if live@[$i - 1] { assert(self.freelist@ == vx_f); } else { assert(self.freelist@ == vx_f.push(($i - 1) as u32)); }
        lemma_free_step(vx_f, self.freelist@, live@, $i - 1);
    }
//@exit
    proof { lemma_retained(old(self).utable@, self.utable@, live@); lemma_zretained(old(self).cache@, self.cache@, live@); lemma_zgc_post(self, old(self), roots@, live@); }
//@end

// ---------------------------------------------------------------- mddcore: MddManager
//@item mddcore mdd::Node
//@fn mddcore mdd::Node::id
    ensures r == (match *self { Node::NonTerminal(n) => n.id as int, Node::Zero => 0, Node::One => 1, Node::Undet => 2 })
//@end
//@fn mddcore mdd::Node::headerid
    ensures r == (match *self { Node::NonTerminal(n) => Some(n.header as usize), _ => None })
//@end
pub open spec fn sn(headers: Seq<NodeHeader>, n: Node) -> SN {
    match n {
        Node::NonTerminal(n) => SN::N { level: headers[n.header as int].level as int, kids: ints(n.nodes@) },
        Node::Zero => SN::T(0), Node::One => SN::T(1), Node::Undet => SN::T(2),
    }
}
pub open spec fn slot_live(nodes: Seq<Node>, freelist: Seq<u32>, id: int) -> bool { 0 <= id < nodes.len() && !freelist.contains(id as u32) }
#[verifier::opaque]
pub open spec fn dag_of(headers: Seq<NodeHeader>, nodes: Seq<Node>, freelist: Seq<u32>) -> D {
    IMap::new(|i: int| slot_live(nodes, freelist, i), |i: int| sn(headers, nodes[i]))
}
//@item mddcore mdd_ops::MddOperation
//@fn mddcore mdd_ops::MddOperation::code
//@asspec code_spec
    ensures r == self.code_spec()
//@end
//@item mddcore mdd::MddManager

// three-valued connectives on {0, 1, 2 = undetermined}
pub open spec fn opv(k: MddOperation, x: int, y: int) -> int {
    match k {
        MddOperation::And => if x == 0 || y == 0 { 0 } else if x == 1 && y == 1 { 1 } else { 2 },
        MddOperation::Or => if x == 1 || y == 1 { 1 } else if x == 0 && y == 0 { 0 } else { 2 },
        MddOperation::XOr => if is01(x) && is01(y) { b2i(x != y) } else { 2 },
        MddOperation::Not => if is01(x) { 1 - x } else { 2 },
        MddOperation::Replace => if is01(x) { x } else { y },
    }
}
pub open spec fn defined(k: MddOperation, x: int, y: int) -> bool { k is Not || k is Replace || (is01(x) && is01(y)) }
pub open spec fn val_ok(k: MddOperation, x: int, y: int, v: int) -> bool {
    &&& defined(k, x, y) ==> v == opv(k, x, y)
    &&& k is And || k is Or ==> v == opv(k, x, y) || v == 2
}
pub open spec fn apply_ok(d: D, k: MddOperation, f: int, g: int, v: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(v)
    &&& lv(d, v) <= (if k is Not { lv(d, f) } else { max(lv(d, f), lv(d, g)) })
    &&& forall|a: Asg| val_ok(k, eval(d, f, a), eval(d, g, a), #[trigger] eval(d, v, a))
}
pub open spec fn entry_ok(d: D, code: u32, f: int, g: int, v: int) -> bool {
    d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(v) && forall|k: MddOperation| #[trigger] k.code_spec() == code ==> apply_ok(d, k, f, g, v)
}
pub open spec fn ite_ok(d: D, f: int, g: int, h: int, v: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(h) && d.dom().contains(v)
    &&& lv(d, v) <= max(lv(d, f), max(lv(d, g), lv(d, h)))
    &&& forall|a: Asg| is01(eval(d, f, a)) ==> #[trigger] eval(d, v, a) == (if eval(d, f, a) == 1 { eval(d, g, a) } else { eval(d, h, a) })
}
impl MddManager {
    pub open spec fn dag(&self) -> D { dag_of(self.headers@, self.nodes@, self.freelist@) }
    pub open spec fn live(&self, id: int) -> bool { self.dag().dom().contains(id) }
    pub open spec fn lvl(&self, id: int) -> int { lv(self.dag(), id) }
    pub open spec fn hlevel(&self, h: int) -> int { self.headers@[h].level as int }
    pub open spec fn wf_term(&self) -> bool {
        &&& 3 <= self.nodes.len() <= u32::MAX
        &&& headers_ok(self.headers@)
        &&& self.zero == 0 && self.one == 1 && self.undet == 2
        &&& self.nodes[0] == Node::Zero && self.nodes[1] == Node::One && self.nodes[2] == Node::Undet
        &&& self.live(0) && self.live(1) && self.live(2)
        &&& self.freelist@.no_duplicates()
        &&& forall|i: int| 0 <= i < self.freelist.len() ==> (#[trigger] self.freelist[i]) < self.nodes.len()
    }
    pub open spec fn node_rep(&self, id: int) -> bool {
        match self.nodes[id] {
               Node::NonTerminal(n) => {
                    &&& n.id == id && n.header < self.headers.len() && n.nodes@.len() == self.headers@[n.header as int].edge_num && mixed(n.nodes@)
                    &&& self.utable@.dom().contains(mkey(n)) && self.utable@[mkey(n)] == id
               },
               _ => id < 3 }
    }
    pub open spec fn wf_nodes(&self) -> bool {
        &&& dag_ok(self.dag())
        &&& forall|id: int| #[trigger] self.dag().dom().contains(id) ==> self.node_rep(id)
    }
    pub open spec fn wf_utable(&self) -> bool {
        forall|k: (int, Seq<u32>)| #[trigger] self.utable@.dom().contains(k) ==> {
              &&& self.live(self.utable@[k] as int)
              &&& self.nodes[self.utable@[k] as int] matches Node::NonTerminal(n) && mkey(n) == k }
    }
    pub open spec fn wf_cache(&self) -> bool {
        &&& self.cache.wf() && self.ite_cache.wf()
        &&& forall|k: u32, f: u32, g: u32, v: u32| #[trigger] self.cache.has(k, f, g, v) ==> entry_ok(self.dag(), k, f as int, g as int, v as int)
        &&& forall|f: u32, g: u32, h: u32, v: u32| #[trigger] self.ite_cache.has(f, g, h, v) ==> ite_ok(self.dag(), f as int, g as int, h as int, v as int)
    }
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool { self.wf_term() && self.wf_nodes() && self.wf_utable() && self.wf_cache() }
    pub open spec fn ext(&self, o: &MddManager) -> bool {
        &&& o.headers@ == self.headers@ && o.zero == self.zero && o.one == self.one && o.undet == self.undet
        &&& ext(o.dag(), self.dag())
    }
    pub proof fn lemma_dag(&self)
        requires self.wf()
        ensures dag_ok(self.dag()), headers_ok(self.headers@)
    { reveal(MddManager::wf); }
    pub proof fn lemma_node(&self, id: int)
        requires self.wf(), self.live(id)
        ensures self.dag().dom().contains(id), self.dag()[id] == sn(self.headers@, self.nodes[id]), 0 <= id < self.nodes.len() <= u32::MAX, headers_ok(self.headers@),
           self.zero == 0 && self.one == 1 && self.undet == 2, self.live(0), self.live(1), self.live(2), self.lvl(0) == 0 && self.lvl(1) == 0 && self.lvl(2) == 0,
           self.nodes[0] == Node::Zero && self.nodes[1] == Node::One && self.nodes[2] == Node::Undet,
           forall|a: Asg| #[trigger] eval(self.dag(), 0, a) == 0, forall|a: Asg| #[trigger] eval(self.dag(), 1, a) == 1, forall|a: Asg| #[trigger] eval(self.dag(), 2, a) == 2,
           forall|a: Asg| tv(#[trigger] eval(self.dag(), id, a)),
           match self.nodes[id] {
             Node::NonTerminal(n) => {
                 &&& id >= 3 && n.id == id && n.header < self.headers.len() && self.hlevel(n.header as int) < usize::MAX
                 &&& n.nodes@.len() == self.headers@[n.header as int].edge_num && n.nodes@.len() > 0
                 &&& forall|c: int| 0 <= c < n.nodes@.len() ==> self.live(#[trigger] n.nodes@[c] as int) && n.nodes@[c] < self.nodes.len() && 0 <= self.lvl(n.nodes@[c] as int) < self.lvl(id)
                 &&& self.lvl(id) == self.hlevel(n.header as int) + 1
                 &&& forall|a: Asg| #[trigger] eval(self.dag(), id, a) == eval(self.dag(), n.nodes@[ix(n.nodes@.len() as int, a(self.hlevel(n.header as int)))] as int, a)
             },
             Node::Zero => self.lvl(id) == 0 && id == 0,
             Node::One => self.lvl(id) == 0 && id == 1,
             Node::Undet => self.lvl(id) == 0 && id == 2,
           }
    {
        reveal(MddManager::wf); reveal(dag_ok); reveal(dag_of); reveal_with_fuel(eval, 1);
        assert(self.node_rep(id));
        assert forall|a: Asg| tv(#[trigger] eval(self.dag(), id, a)) by { self.lemma_tv(id, a); }
        match self.nodes[id] {
            Node::NonTerminal(n) => { let kids = self.dag()[id]->kids; assert(node_ok(self.dag(), id)); lemma_nt(self.dag(), id);
                assert forall|c: int| 0 <= c < n.nodes@.len() implies self.live(#[trigger] n.nodes@[c] as int) && n.nodes@[c] < self.nodes.len() && 0 <= self.lvl(n.nodes@[c] as int) < self.lvl(id) by { assert(kids[c] == n.nodes@[c]); assert(self.dag().dom().contains(kids[c])); }
                assert forall|a: Asg| #[trigger] eval(self.dag(), id, a) == eval(self.dag(), n.nodes@[ix(n.nodes@.len() as int, a(self.hlevel(n.header as int)))] as int, a) by { assert(sel(kids, a(self.hlevel(n.header as int))) == n.nodes@[ix(n.nodes@.len() as int, a(self.hlevel(n.header as int)))] as int); }
            }, _ => { }
        }
    }
    pub proof fn lemma_tv(&self, id: int, a: Asg)
        requires self.wf(), self.live(id)
        ensures tv(eval(self.dag(), id, a)), lv(self.dag(), id) >= 0
        decreases lv(self.dag(), id)
    {
        reveal(MddManager::wf); reveal(dag_ok); reveal(dag_of); reveal_with_fuel(eval, 1);
        assert(node_ok(self.dag(), id));
        match self.nodes[id] {
            Node::NonTerminal(n) => {
                let kids = self.dag()[id]->kids;
                let k = sel(kids, a(self.hlevel(n.header as int)));
                lemma_sel(self.dag(), id, a(self.hlevel(n.header as int)));
                self.lemma_tv(k, a);
            }, _ => {}
        }
    }
    // THEOREM canonicity: live nodes denoting the same function are the same node
    pub proof fn theorem_mdd_canonical(&self, f: int, g: int)
        requires self.wf(), one_header(self.headers@), self.live(f), self.live(g), forall|a: Asg| #[trigger] eval(self.dag(), f, a) == eval(self.dag(), g, a)
        ensures f == g
    {
        reveal(MddManager::wf); reveal(dag_of);
        let d = self.dag(); let h = self.headers@; let ar = |l: int| arity(h, l);
        assert forall|i: int| #[trigger] d.dom().contains(i) implies node_reduced(d, i) && node_arity(d, i, ar) by {
            assert(self.node_rep(i));
            match self.nodes[i] { Node::NonTerminal(n) => { let kids = d[i]->kids; let (x, y) = choose|x: int, y: int| 0 <= x < n.nodes@.len() && 0 <= y < n.nodes@.len() && n.nodes@[x] != n.nodes@[y]; assert(kids[x] != kids[y]); lemma_arity(h, n.header as int); }, _ => {} }
        }
        assert forall|i: int, j: int| #[trigger] d.dom().contains(i) && #[trigger] d.dom().contains(j) && same_node(d[i], d[j]) implies i == j by {
            assert(self.node_rep(i)); assert(self.node_rep(j));
            match (self.nodes[i], self.nodes[j]) { (Node::NonTerminal(n), Node::NonTerminal(m)) => {
                let ki = d[i]->kids; let kj = d[j]->kids;
                assert(n.nodes@ =~= m.nodes@) by { assert(ki.len() == kj.len()); assert forall|c: int| 0 <= c < ki.len() implies n.nodes@[c] == m.nodes@[c] by { assert(ki[c] == kj[c]); } }
                assert(h[n.header as int].level == h[m.header as int].level);
                assert(n.header == m.header); assert(mkey(n) == mkey(m)); }, _ => {} }
        }
        lemma_canonical(d, ar, f, g);
    }
}
//@fn mddcore mdd::MddManager::get_node
//@args id
    ensures r == (if *id < self.nodes.len() { Some(&self.nodes[*id as int]) } else { None::<&Node> })
//@end
//@fn mddcore mdd::MddManager::get_header
//@args id
    ensures r == (if *id < self.headers.len() { Some(&self.headers[*id as int]) } else { None::<&NodeHeader> })
//@end
//@fn mddcore mdd::MddManager::label
//@args id
    requires self.wf(), self.live(*id as int),
    ensures match self.nodes[*id as int] { Node::NonTerminal(n) => r matches Some(x) && x@ == self.headers[n.header as int].label@, _ => r is None }
//@entry
    proof { self.lemma_node(*id as int); }
//@end
//@fn mddcore mdd::MddManager::size
    requires self.wf()
    ensures r.0 == self.headers.len(), r.1 == self.nodes.len(), r.2 <= usize::MAX / 16
//@entry
    proof { reveal(MddManager::wf); }
//@end
//@fn mddcore mdd::MddManager::level
//@args id
    requires self.wf(), self.live(*id as int)
    ensures self.lvl(*id as int) > 0 ==> (r matches Some(l) && l + 1 == self.lvl(*id as int)), self.lvl(*id as int) <= 0 ==> r is None
//@entry
    proof { self.lemma_node(*id as int); }
//@end
//@fn mddcore mdd::MddManager::zero
    ensures r == self.zero
//@end
//@fn mddcore mdd::MddManager::one
    ensures r == self.one
//@end
//@fn mddcore mdd::MddManager::undet
    ensures r == self.undet
//@end
//@fn mddcore mdd::MddManager::cache_get
//@args key
    requires self.wf(), self.live(key.1 as int), self.live(key.2 as int)
    ensures r matches Some(v) ==> apply_ok(self.dag(), key.0, key.1 as int, key.2 as int, v as int)
//@entry
    proof { self.lemma_node(key.1 as int); self.lemma_node(key.2 as int); reveal(MddManager::wf); }
//@end
//@fn mddcore mdd::MddManager::cache_put
//@args key val
    requires old(self).wf(), entry_ok(old(self).dag(), key.0.code_spec(), key.1 as int, key.2 as int, val as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).dag() == old(self).dag(),
//@entry
    proof { self.lemma_node(key.1 as int); self.lemma_node(key.2 as int); self.lemma_node(val as int); reveal(MddManager::wf); reveal(dag_of); }
//@end
//@fn mddcore mdd::MddManager::ite_cache_get
//@args f g h
    requires self.wf(), self.live(f as int), self.live(g as int), self.live(h as int)
    ensures r matches Some(v) ==> ite_ok(self.dag(), f as int, g as int, h as int, v as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); self.lemma_node(h as int); reveal(MddManager::wf); }
//@end
//@fn mddcore mdd::MddManager::ite_cache_put
//@args f g h val
    requires old(self).wf(), ite_ok(old(self).dag(), f as int, g as int, h as int, val as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).dag() == old(self).dag(),
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); self.lemma_node(h as int); self.lemma_node(val as int); reveal(MddManager::wf); reveal(dag_of); }
//@end
//@fn mddcore mdd::MddManager::clear_cache
    requires old(self).wf()
    ensures final(self).wf(), final(self).ext(old(self)), final(self).dag() == old(self).dag(),
//@entry
    proof { reveal(MddManager::wf); reveal(dag_of); }
//@end
//@fn mddcore mdd::MddManager::new
    ensures r.wf(), r.headers@.len() == 0, r.live(0), r.live(1), r.live(2)
//@exit
    proof { reveal(MddManager::wf); reveal(dag_of); reveal(dag_ok); assert(vx_r.wf_nodes()); assert(vx_r.wf_term()); }
//@end
impl MddManager {
    pub proof fn lemma_kids(&self, h: int, nodes: Seq<usize>)
        requires self.wf(), 0 <= h < self.headers.len(), nodes.len() == self.headers@[h].edge_num, forall|i: int| 0 <= i < nodes.len() ==> self.live(#[trigger] nodes[i] as int)
        ensures fits(nodes), nodes.len() > 0, h <= u32::MAX, forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]) < self.nodes.len() && self.lvl(nodes[i] as int) >= 0
    { reveal(MddManager::wf); assert forall|i: int| 0 <= i < nodes.len() implies (#[trigger] nodes[i]) <= u32::MAX && nodes[i] < self.nodes.len() && self.lvl(nodes[i] as int) >= 0 by { self.lemma_node(nodes[i] as int); } }
}
// the node v was found in, or added to, the unique table
pub proof fn lemma_created(m: &MddManager, o: &MddManager, header: usize, nodes: Seq<usize>, v: int)
    requires o.wf(), header < o.headers.len(), nodes.len() == o.headers@[header as int].edge_num,
        forall|i: int| 0 <= i < nodes.len() ==> o.live(#[trigger] nodes[i] as int) && o.lvl(nodes[i] as int) <= o.hlevel(header as int),
        exists|i: int| 0 <= i < nodes.len() && #[trigger] nodes[i] != nodes[0],
        m.headers == o.headers, m.cache == o.cache, m.ite_cache == o.ite_cache,
        ({
            let k = (header as int, us(nodes));
            (*m == *o && o.utable@.dom().contains(k) && v == o.utable@[k])
            || {
                &&& m.wf_term() && !o.live(v) && v >= 3 && v <= u32::MAX && m.nodes.len() >= o.nodes.len()
                &&& !o.utable@.dom().contains(k) && m.utable@ == o.utable@.insert(k, v as u32)
                &&& m.dag() == o.dag().insert(v, SN::N { level: o.hlevel(header as int), kids: ints(us(nodes)) })
                &&& forall|i: int| 0 <= i < o.nodes.len() && i != v ==> #[trigger] m.nodes[i] == o.nodes[i]
                &&& m.nodes[v] matches Node::NonTerminal(n) && n.id == v && n.header == header && n.nodes@ == us(nodes)
            }
        }),
    ensures m.wf(), m.ext(o), m.live(v), m.lvl(v) <= o.hlevel(header as int) + 1,
        forall|a: Asg| #[trigger] eval(m.dag(), v, a) == eval(o.dag(), nodes[ix(nodes.len() as int, a(o.hlevel(header as int)))] as int, a),
        mbuilt(m.dag(), o.hlevel(header as int), nodes, v),
{
    reveal(mbuilt);
    let d = o.dag(); let d2 = m.dag(); let kids = ints(us(nodes)); let k = (header as int, us(nodes));
    o.lemma_kids(header as int, nodes);
    reveal(MddManager::wf); reveal(dag_of); reveal(dag_ok);
    let w = choose|i: int| 0 <= i < nodes.len() && #[trigger] nodes[i] != nodes[0];
    assert(us(nodes)[w] != us(nodes)[0]);
    assert(mixed(us(nodes)));
    assert forall|c: int| 0 <= c < kids.len() implies d.dom().contains(#[trigger] kids[c]) && 0 <= lv(d, kids[c]) <= o.hlevel(header as int) && kids[c] == nodes[c] by { assert(o.live(nodes[c] as int)); }
    assert(d2.dom().contains(v) && d2[v] == (SN::N { level: o.hlevel(header as int), kids }));
    assert forall|i: int| d.dom().contains(i) implies d2.dom().contains(i) && #[trigger] d2[i] == d[i] by {}
    lemma_ext(d, d2);
    assert forall|i: int| d2.dom().contains(i) implies node_ok(d2, i) by { if d.dom().contains(i) { assert(node_ok(d, i)); } }
    assert(dag_ok(d2));
    if *m != *o {
        assert forall|i: int| #[trigger] d2.dom().contains(i) implies m.node_rep(i) by { if d.dom().contains(i) { assert(o.node_rep(i)); } }
        assert forall|q: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(q) implies m.live(m.utable@[q] as int) && (m.nodes[m.utable@[q] as int] matches Node::NonTerminal(n) && mkey(n) == q) by { if q != k { assert(o.utable@.dom().contains(q)); } }
        assert(m.wf_utable());
        assert forall|x: u32, f: u32, g: u32, r: u32| #[trigger] m.cache.has(x, f, g, r) implies entry_ok(d2, x, f as int, g as int, r as int) by {
            assert(entry_ok(d, x, f as int, g as int, r as int));
            assert forall|op: MddOperation| #[trigger] op.code_spec() == x implies apply_ok(d2, op, f as int, g as int, r as int) by { assert(apply_ok(d, op, f as int, g as int, r as int)); }
        }
        assert(m.wf_cache());
    }
    lemma_nt(d2, v);
    assert forall|a: Asg| #[trigger] eval(d2, v, a) == eval(d, nodes[ix(nodes.len() as int, a(o.hlevel(header as int)))] as int, a) by { let c = ix(nodes.len() as int, a(o.hlevel(header as int))); assert(sel(kids, a(o.hlevel(header as int))) == kids[c]); }
}
//@fn mddcore mdd::MddManager::create_header
//@args level label edge_num
    requires old(self).wf(), level < usize::MAX, edge_num > 0, old(self).headers.len() < u32::MAX,
        forall|i: int| 0 <= i < old(self).headers.len() && (#[trigger] old(self).headers[i]).level == level ==> old(self).headers[i].edge_num == edge_num,
    ensures final(self).wf(), ext(old(self).dag(), final(self).dag()), final(self).dag() == old(self).dag(), r == old(self).headers.len(), final(self).headers.len() == r + 1,
        final(self).hlevel(r as int) == level, final(self).headers@[r as int].edge_num == edge_num, final(self).headers@[r as int].label@ == label@, forall|i: int| 0 <= i < r ==> #[trigger] final(self).headers[i] == old(self).headers[i],
//@entry
    proof { reveal(MddManager::wf); reveal(dag_of); reveal(dag_ok); }
//@exit
    proof {
        assert forall|i: int| #[trigger] old(self).dag().dom().contains(i) implies self.dag()[i] == old(self).dag()[i] by { assert(old(self).node_rep(i)); }
        assert(self.dag() =~= old(self).dag());
        assert forall|i: int| #[trigger] self.dag().dom().contains(i) implies self.node_rep(i) by { assert(old(self).node_rep(i)); }
    }
//@end
//@fn mddcore mdd::MddManager::new_nonterminal
//@args header nodes
    requires old(self).wf(), header < old(self).headers.len(), fits(nodes@),
    ensures final(self).wf_term(), final(self).headers == old(self).headers, final(self).utable == old(self).utable, final(self).cache == old(self).cache, final(self).ite_cache == old(self).ite_cache,
         final(self).nodes.len() >= old(self).nodes.len(),
         !old(self).live(r as int), r >= 3,
         final(self).dag() == old(self).dag().insert(r as int, SN::N { level: old(self).hlevel(header as int), kids: ints(us(nodes@)) }),
         forall|i: int| 0 <= i < old(self).nodes.len() && i != r ==> #[trigger] final(self).nodes[i] == old(self).nodes[i],
         final(self).nodes[r as int] matches Node::NonTerminal(n) && n.id == r && n.header == header && n.nodes@ == us(nodes@),
//@entry
    proof { reveal(MddManager::wf); reveal(dag_of); reveal(dag_ok); }
    assume(self.nodes.len() < u32::MAX); // CAPACITY: fewer than 2^32 - 1 node slots
//@exit
    proof {
       let of = old(self).freelist@; let nf = self.freelist@;
       if of.len() > 0 {
           assert(of == nf.push(vx_r as u32));
           lemma_push_contains(nf, vx_r as u32);
           assert(!nf.contains(vx_r as u32));
       }
       let o = old(self);
       assert(self.nodes[vx_r as int] is NonTerminal);
       assert(self.dag() =~= o.dag().insert(vx_r as int, SN::N { level: o.hlevel(header as int), kids: ints(us(nodes@)) }));
    }
//@end
//@fn mddcore mdd::MddManager::create_node
//@args header nodes
    requires old(self).wf(), header < old(self).headers.len(), nodes@.len() == old(self).headers@[header as int].edge_num,
        forall|i: int| 0 <= i < nodes@.len() ==> old(self).live(#[trigger] nodes@[i] as int) && old(self).lvl(nodes@[i] as int) <= old(self).hlevel(header as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
        final(self).lvl(r as int) <= old(self).hlevel(header as int) + 1,
        forall|a: Asg| #[trigger] eval(final(self).dag(), r as int, a) == eval(old(self).dag(), nodes@[ix(nodes@.len() as int, a(old(self).hlevel(header as int)))] as int, a),
        mbuilt(final(self).dag(), old(self).hlevel(header as int), nodes@, r as int),
//@entry
    proof { self.lemma_kids(header as int, nodes@); reveal(MddManager::wf); reveal(dag_of); reveal(dag_ok); }
//@loopafter 1
    proof { assert(vx_v1@ =~= us(nodes@)); }
//@exit
    proof { if (forall|j: int| 0 <= j < nodes@.len() ==> #[trigger] nodes@[j] == nodes@[0]) && vx_r == nodes@[0] { reveal(mbuilt); } else { lemma_created(self, old(self), header, nodes@, vx_r as int); } }
//@end
//@fn mddcore mdd_ops::MddManager::not
//@args f
    requires old(self).wf(), old(self).live(f as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), MddOperation::Not, f as int, 0, r as int)
    decreases old(self).lvl(f as int)
//@entry
    proof { self.lemma_node(f as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> apply_ok(self.dag(), MddOperation::Not, $a0 as int, 0, #[trigger] $v@[vx_j] as int),
//@end
//@fn mddcore mdd_ops::MddManager::and
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), MddOperation::And, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> apply_ok(self.dag(), MddOperation::And, $a0 as int, $a1 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mddcore mdd_ops::MddManager::or
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), MddOperation::Or, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> apply_ok(self.dag(), MddOperation::Or, $a0 as int, $a1 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mddcore mdd_ops::MddManager::xor
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), MddOperation::XOr, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> apply_ok(self.dag(), MddOperation::XOr, $a0 as int, $a1 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mddcore mdd_ops::MddManager::replace
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), MddOperation::Replace, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> apply_ok(self.dag(), MddOperation::Replace, $a0 as int, $a1 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mddcore mdd_ops::MddManager::imp
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
       forall|a: Asg| is01(eval(old(self).dag(), f as int, a)) && is01(eval(old(self).dag(), g as int, a)) ==> #[trigger] eval(final(self).dag(), r as int, a) == opv(MddOperation::Or, opv(MddOperation::Not, eval(old(self).dag(), f as int, a), 0), eval(old(self).dag(), g as int, a))
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn mddcore mdd_ops::MddManager::nand
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
       forall|a: Asg| is01(eval(old(self).dag(), f as int, a)) && is01(eval(old(self).dag(), g as int, a)) ==> #[trigger] eval(final(self).dag(), r as int, a) == opv(MddOperation::Not, opv(MddOperation::And, eval(old(self).dag(), f as int, a), eval(old(self).dag(), g as int, a)), 0)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn mddcore mdd_ops::MddManager::nor
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
       forall|a: Asg| is01(eval(old(self).dag(), f as int, a)) && is01(eval(old(self).dag(), g as int, a)) ==> #[trigger] eval(final(self).dag(), r as int, a) == opv(MddOperation::Not, opv(MddOperation::Or, eval(old(self).dag(), f as int, a), eval(old(self).dag(), g as int, a)), 0)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn mddcore mdd_ops::MddManager::xnor
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
       forall|a: Asg| is01(eval(old(self).dag(), f as int, a)) && is01(eval(old(self).dag(), g as int, a)) ==> #[trigger] eval(final(self).dag(), r as int, a) == b2i(eval(old(self).dag(), f as int, a) == eval(old(self).dag(), g as int, a))
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); }
//@end
//@fn mddcore mdd_ops::MddManager::ite_cofactor
//@args id top k
    requires self.wf(), self.live(id as int), self.lvl(id as int) <= top + 1, top < usize::MAX, k > 0, k == arity(self.headers@, top as int), exists|i: int| 0 <= i < self.headers@.len() && (#[trigger] self.headers@[i]).level == top
    ensures r@.len() == k, forall|c: int| 0 <= c < k ==> self.live(#[trigger] r@[c] as int) && 0 <= self.lvl(r@[c] as int) <= top && self.lvl(r@[c] as int) <= self.lvl(id as int),
        self.lvl(id as int) == top + 1 ==> forall|c: int| 0 <= c < k ==> self.lvl(#[trigger] r@[c] as int) < self.lvl(id as int),
        forall|a: Asg| #[trigger] eval(self.dag(), id as int, a) == eval(self.dag(), r@[ix(k as int, a(top as int))] as int, a)
//@entry
    proof { self.lemma_node(id as int); match self.nodes[id as int] { Node::NonTerminal(n) => { lemma_arity(self.headers@, n.header as int); }, _ => {} } }
//@end
//@fn mddcore mdd_ops::MddManager::ite_top_header
//@args f g h top
    requires self.wf(), self.live(f as int), self.live(g as int), self.live(h as int), top < usize::MAX,
       self.lvl(f as int) == top + 1 || self.lvl(g as int) == top + 1 || self.lvl(h as int) == top + 1
    ensures r.0 < self.headers.len(), self.hlevel(r.0 as int) == top, r.1 == self.headers@[r.0 as int].edge_num, r.1 > 0, r.1 == arity(self.headers@, top as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); self.lemma_node(h as int); assert forall|i: int| 0 <= i < self.headers@.len() implies arity(self.headers@, (#[trigger] self.headers@[i]).level as int) == self.headers@[i].edge_num by { lemma_arity(self.headers@, i); } }
//@end
//@fn mddcore mdd_ops::MddManager::ite
//@attr #[verifier::spinoff_prover]
//@args f g h
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int), old(self).live(h as int)
    ensures final(self).wf(), final(self).ext(old(self)), ite_ok(final(self).dag(), f as int, g as int, h as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int) + old(self).lvl(h as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); self.lemma_node(h as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> ite_ok(self.dag(), $a0 as int, $a1 as int, $a2 as int, #[trigger] $v@[vx_j] as int),
//@end
pub proof fn lemma_gc_pre(m: &MddManager)
    requires m.wf()
    ensures 3 <= m.nodes.len() <= u32::MAX, m.zero == 0 && m.one == 1 && m.undet == 2, dag_ok(m.dag()),
        m.live(0) && m.live(1) && m.live(2),
        forall|id: int| #[trigger] m.dag().dom().contains(id) ==> 0 <= id < m.nodes.len() && m.dag()[id] == sn(m.headers@, m.nodes[id]),
        forall|k: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(k) ==> m.utable@[k] < m.nodes.len(),
        m.cache.wf(), m.ite_cache.wf(), m.dag()[0] is T && m.dag()[1] is T && m.dag()[2] is T,
        forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.cache.has(k, f, g, v) ==> f < m.nodes.len() && g < m.nodes.len() && v < m.nodes.len(),
        forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.ite_cache.has(k, f, g, v) ==> k < m.nodes.len() && f < m.nodes.len() && g < m.nodes.len() && v < m.nodes.len(),
{ reveal(MddManager::wf); reveal(dag_of); assert(m.wf_nodes() && m.wf_term() && m.wf_utable() && m.wf_cache()); }
pub proof fn lemma_gc_post(m: &MddManager, o: &MddManager, roots: Seq<usize>, live: Seq<bool>)
    requires o.wf(), live.len() == o.nodes.len(), mark_inv(o.dag(), base3(), roots, live, Seq::empty()),
        m.headers@ == o.headers@, m.nodes@ == o.nodes@, m.zero == o.zero && m.one == o.one && m.undet == o.undet,
        m.cache.wf() && m.ite_cache.wf(),
        forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.cache.has(k, f, g, v) ==> o.cache.has(k, f, g, v) && live[f as int] && live[g as int] && live[v as int],
        forall|h: u32, f: u32, g: u32, v: u32| #[trigger] m.ite_cache.has(h, f, g, v) ==> o.ite_cache.has(h, f, g, v) && live[h as int] && live[f as int] && live[g as int] && live[v as int],
        forall|k: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(k) <==> o.utable@.dom().contains(k) && live[o.utable@[k] as int],
        forall|k: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(k) ==> m.utable@[k] == o.utable@[k],
        is_free(m.freelist@, live, live.len() as int),
    ensures m.wf(), kept(o.dag(), m.dag(), base3(), roots)
{
    reveal(MddManager::wf); reveal(dag_of); reveal(mark_inv);
    lemma_gc_pre(o);
    let d = o.dag(); let d2 = m.dag();
    assert forall|id: int| #[trigger] d2.dom().contains(id) <==> 0 <= id < live.len() && live[id] by { if 0 <= id < live.len() { assert(m.freelist@.contains(id as u32) <==> (id as u32) < live.len() && !live[id as u32 as int]); } }
    lemma_kept(d, d2, base3(), roots, live);
    assert forall|k: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(k) implies m.live(m.utable@[k] as int) && (m.nodes[m.utable@[k] as int] matches Node::NonTerminal(n) && mkey(n) == k) by {
        assert(o.utable@.dom().contains(k));
    }
    assert forall|id: int| #[trigger] d2.dom().contains(id) implies m.node_rep(id) by {
        assert(o.node_rep(id));
        match m.nodes[id] { Node::NonTerminal(n) => { assert(o.utable@.dom().contains(mkey(n))); assert(m.utable@.dom().contains(mkey(n))); }, _ => {} }
    }
    assert(m.wf_utable()); assert(m.wf_nodes());
    assert forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.cache.has(k, f, g, v) implies entry_ok(d2, k, f as int, g as int, v as int) by {
        assert(o.cache.has(k, f, g, v)); assert(entry_ok(d, k, f as int, g as int, v as int));
        assert(d2.dom().contains(f as int) && d2.dom().contains(g as int) && d2.dom().contains(v as int));
        assert forall|op: MddOperation| #[trigger] op.code_spec() == k implies apply_ok(d2, op, f as int, g as int, v as int) by { assert(apply_ok(d, op, f as int, g as int, v as int)); }
    }
    assert forall|f: u32, g: u32, h: u32, v: u32| #[trigger] m.ite_cache.has(f, g, h, v) implies ite_ok(d2, f as int, g as int, h as int, v as int) by {
        assert(o.ite_cache.has(f, g, h, v)); assert(ite_ok(d, f as int, g as int, h as int, v as int));
    }
    assert(base3()(0) && base3()(1) && base3()(2));
    assert(m.live(0) && m.live(1) && m.live(2));
    assert(m.wf_cache()); assert(m.wf_term());
}
//@fn mddcore mdd::MddManager::live_node_count
    requires self.wf()
    ensures r <= u32::MAX
//@entry
    proof { reveal(MddManager::wf); lemma_free_len(self.freelist@, self.nodes.len() as int); }
//@end
//@fn mddcore mdd::MddManager::gc
//@args roots
    requires old(self).wf(), forall|i: int| 0 <= i < roots@.len() ==> old(self).live(#[trigger] roots@[i] as int)
    ensures final(self).wf(), final(self).headers@ == old(self).headers@,
        // what survives means what it meant before, and is exactly what is reachable from the roots, plus the terminals
        kept(old(self).dag(), final(self).dag(), base3(), roots@),
        r == final(self).freelist@.len(), final(self).nodes@.len() == old(self).nodes@.len(),
//@entry
    proof { lemma_gc_pre(self); }
    let ghost d = self.dag();
//@loop 0
    forall|i: int| 0 <= i < $i ==> vx_v0@.contains(#[trigger] roots@[i]),
    forall|x: usize| #[trigger] vx_v0@.contains(x) ==> roots@.contains(x),
//@loopbegin 0
    let ghost vx_o = vx_v0@;
    proof { assert(roots@.contains(roots@[$i as int])); assert(self.live(roots@[$i as int] as int)); }
//@loopend 0
    proof { lemma_push_contains(vx_o, roots@[$i - 1]); assert(vx_v0@ == vx_o.push(roots@[$i - 1])); }
//@loopbefore 1
    proof { lemma_mark_init(d, base3(), roots@, live@, stack@); }
//@loop 1
    invariant *self == *old(self), d == self.dag(), n == self.nodes.len(), live@.len() == n, mark_inv(d, base3(), roots@, live@, stack@)
    decreases nfalse(live@), stack@.len()
//@loopbegin 1
    let ghost vx_l = live@; let ghost vx_s = stack@.push(id); let ghost vx_st = stack@;
    proof { lemma_drop_push(); lemma_mark_top(d, base3(), roots@, live@, vx_s); assert(vx_s.drop_last() =~= stack@); if !live@[id as int] { lemma_nfalse_update(live@, id as int); } if d[id as int] is N { assert(d[id as int]->kids =~= ints(self.nodes[id as int]->NonTerminal_0.nodes@)); } }
//@loopend 1
    proof {
        assert(live@ == vx_l.update(id as int, true));
        match d[id as int] { SN::N { level, kids } => {
            lemma_pushed(vx_st, kids, kids.len() as int, stack@);
        }, _ => { assert(stack@ == vx_st); } }
        lemma_mark(d, base3(), roots@, vx_l, vx_s, live@, stack@, id);
    }
//@loopafter 1
    proof { assert(stack@ =~= Seq::empty()); }
//@closure 0
    |$p0: &(u32, Vec<u32>), $p1: &u32| -> (q: bool) requires *$p1 < live@.len() ensures q == live@[*$p1 as int]
//@after retain
    proof { lemma_mretained(old(self).utable@, self.utable@, live@); }
//@loop 2
    pushed(vx_st, d[id as int]->kids, $i as int, stack@),
//@loop 3
    is_free(self.freelist@, live@, $i as int),
//@loopbegin 3
    let ghost vx_f = self.freelist@;
//@loopend 3
    proof {
        if live@[$i - 1] { assert(self.freelist@ == vx_f); } else { assert(self.freelist@ == vx_f.push(($i - 1) as u32)); }
        lemma_free_step(vx_f, self.freelist@, live@, $i - 1);
    }
//@exit
    proof { lemma_gc_post(self, old(self), roots@, live@); }
//@end

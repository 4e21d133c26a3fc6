// ---------------------------------------------------------------- mddcore: ZmddManager
//@item mddcore mtmdd::TerminalNumber
//@fn mddcore mtmdd::TerminalNumber::new
//@args id value
    ensures r.id == id, r.value == value
//@end
//@fn mddcore mtmdd::TerminalNumber::id
    ensures r == self.id
//@end
//@fn mddcore mtmdd::TerminalNumber::value
    ensures r == self.value
//@end
//@item mddcore mtmdd::Node
//@fn mddcore mtmdd::Node::id
    ensures r == (match *self { Node::NonTerminal(n) => n.id as int, Node::Terminal(t) => t.id as int, Node::Undet => 0 })
//@end
//@fn mddcore mtmdd::Node::headerid
    ensures r == (match *self { Node::NonTerminal(n) => Some(n.header as usize), _ => None })
//@end
// values are told apart from 'undetermined' (0) by shifting the non-negative ones
pub open spec fn enc(v: int) -> int { if v >= 0 { v + 1 } else { v } }
pub open spec fn dec(e: int) -> int { if e > 0 { e - 1 } else { e } }
pub open spec fn sn(headers: Seq<NodeHeader>, n: Node) -> SN {
    match n {
        Node::NonTerminal(n) => SN::N { level: headers[n.header as int].level as int, kids: ints(n.nodes@) },
        Node::Terminal(t) => SN::T(enc(t.value.v())), Node::Undet => SN::T(0),
    }
}
pub open spec fn slot_live(nodes: Seq<Node>, freelist: Seq<u32>, id: int) -> bool { 0 <= id < nodes.len() && !freelist.contains(id as u32) }
#[verifier::opaque]
pub open spec fn dag_of(headers: Seq<NodeHeader>, nodes: Seq<Node>, freelist: Seq<u32>) -> D {
    IMap::new(|i: int| slot_live(nodes, freelist, i), |i: int| sn(headers, nodes[i]))
}
//@item mddcore zmdd_ops::ZmddOperation
//@fn mddcore zmdd_ops::ZmddOperation::code
//@asspec code_spec
    ensures r == self.code_spec()
//@end
//@item mddcore zmdd::ZmddManager

// the operation on labels (encoded, 0 is 'not a member')
pub open spec fn opz(k: ZmddOperation, x: int, y: int) -> int {
    match k { ZmddOperation::Intersect => if x == y { x } else { 0 }, ZmddOperation::Setdiff => if x == y { 0 } else { x } }
}
pub open spec fn us2(s: Seq<u32>) -> Seq<usize> { s.map_values(|x: u32| x as usize) }
// the label below a node whose edges are s
pub open spec fn lkn(d: D, s: Seq<usize>, level: int, a: Asg) -> int {
    let c = a(level);
    if c == 0 { lk(d, s[0] as int, a) } else if 0 < c < s.len() { lk(d, s[c] as int, with(a, level, 0)) } else { 0 }
}
// the node r holds below the edges ns
#[verifier::opaque]
pub open spec fn lbuilt(d: D, ns: Seq<usize>, level: int, d2: D, r: int) -> bool { forall|a: Asg| #[trigger] lk(d2, r, a) == lkn(d, ns, level, a) }
pub proof fn lemma_lkn(d: D, s: Seq<usize>, kids: Seq<int>, level: int, a: Asg)
    requires s.len() == kids.len(), s.len() > 0, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == kids[i]
    ensures lkn(d, s, level, a) == lkid(d, kids, level, a)
{ assert(s[0] == kids[0]); let c = a(level); if 0 < c < kids.len() { assert(s[c] == kids[c]); } }
pub open spec fn apply_ok(d: D, k: ZmddOperation, f: int, g: int, v: int) -> bool {
    &&& d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(v)
    &&& lv(d, v) <= max(lv(d, f), lv(d, g))
    &&& forall|a: Asg| #[trigger] lk(d, v, a) == opz(k, lk(d, f, a), lk(d, g, a))
}
pub open spec fn entry_ok(d: D, code: u32, f: int, g: int, v: int) -> bool {
    d.dom().contains(f) && d.dom().contains(g) && d.dom().contains(v) && forall|k: ZmddOperation| #[trigger] k.code_spec() == code ==> apply_ok(d, k, f, g, v)
}
impl ZmddManager {
    pub open spec fn dag(&self) -> D { dag_of(self.headers@, self.nodes@, self.freelist@) }
    pub open spec fn live(&self, id: int) -> bool { self.dag().dom().contains(id) }
    pub open spec fn lvl(&self, id: int) -> int { lv(self.dag(), id) }
    pub open spec fn hlevel(&self, h: int) -> int { self.headers@[h].level as int }
    pub open spec fn wf_term(&self) -> bool {
        &&& 1 <= self.nodes.len() <= u32::MAX
        &&& headers_ok(self.headers@)
        &&& self.undet == 0
        &&& self.nodes[0] == Node::Undet
        &&& self.live(0)
        &&& self.freelist@.no_duplicates()
        &&& forall|i: int| 0 <= i < self.freelist.len() ==> (#[trigger] self.freelist[i]) < self.nodes.len()
    }
    pub open spec fn node_rep(&self, id: int) -> bool {
        match self.nodes[id] {
               Node::NonTerminal(n) => {
                    &&& n.id == id && n.header < self.headers.len() && n.nodes@.len() == self.headers@[n.header as int].edge_num && (exists|c: int| 1 <= c < n.nodes@.len() && #[trigger] n.nodes@[c] != 0)
                    &&& self.utable@.dom().contains(mkey(n)) && self.utable@[mkey(n)] == id
               },
               Node::Terminal(t) => t.id == id && id > 0 && self.vtable@.dom().contains(t.value.v()) && self.vtable@[t.value.v()] == id,
               Node::Undet => id == 0 }
    }
    pub open spec fn wf_nodes(&self) -> bool {
        &&& dag_ok(self.dag())
        &&& forall|id: int| #[trigger] self.dag().dom().contains(id) ==> self.node_rep(id)
    }
    pub open spec fn wf_utable(&self) -> bool {
        forall|k: (int, Seq<u32>)| #[trigger] self.utable@.dom().contains(k) ==> {
              &&& self.live(self.utable@[k] as int)
              &&& self.nodes[self.utable@[k] as int] matches Node::NonTerminal(n) && mkey(n) == k }
    }
    pub open spec fn wf_vtable(&self) -> bool {
        forall|k: int| #[trigger] self.vtable@.dom().contains(k) ==> {
              &&& self.live(self.vtable@[k] as int)
              &&& self.nodes[self.vtable@[k] as int] matches Node::Terminal(t) && t.value.v() == k }
    }
    pub open spec fn wf_cache(&self) -> bool {
        &&& self.cache.wf()
        &&& forall|k: u32, f: u32, g: u32, v: u32| #[trigger] self.cache.has(k, f, g, v) ==> entry_ok(self.dag(), k, f as int, g as int, v as int)
    }
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool { self.wf_term() && self.wf_nodes() && self.wf_utable() && self.wf_vtable() && self.wf_cache() }
    pub open spec fn ext(&self, o: &ZmddManager) -> bool {
        &&& o.headers@ == self.headers@ && o.undet == self.undet
        &&& lext(o.dag(), self.dag())
    }
    pub proof fn lemma_lred(&self)
        requires self.wf()
        ensures lred(self.dag()), dag_ok(self.dag())
    {
        reveal(ZmddManager::wf); reveal(dag_of); let d = self.dag();
        assert forall|i: int| #[trigger] d.dom().contains(i) implies lnode(d, i) by {
            assert(self.node_rep(i));
            match self.nodes[i] { Node::NonTerminal(n) => { let kids = d[i]->kids; let c = choose|c: int| 1 <= c < n.nodes@.len() && #[trigger] n.nodes@[c] != 0; assert(kids[c] != 0); }, _ => {} }
        }
    }
    pub proof fn lemma_node(&self, id: int)
        requires self.wf(), self.live(id)
        ensures self.dag().dom().contains(id), self.dag()[id] == sn(self.headers@, self.nodes[id]), 0 <= id < self.nodes.len() <= u32::MAX, headers_ok(self.headers@),
           self.undet == 0, self.live(0), self.lvl(0) == 0, self.lvl(id) >= 0,
           self.nodes[0] == Node::Undet,
           forall|a: Asg| #[trigger] lk(self.dag(), 0, a) == 0, dag_ok(self.dag()), lred(self.dag()),
           match self.nodes[id] {
             Node::NonTerminal(n) => {
                 &&& id >= 1 && n.id == id && n.header < self.headers.len() && self.hlevel(n.header as int) < usize::MAX
                 &&& n.nodes@.len() == self.headers@[n.header as int].edge_num && n.nodes@.len() > 0
                 &&& forall|c: int| 0 <= c < n.nodes@.len() ==> self.live(#[trigger] n.nodes@[c] as int) && n.nodes@[c] < self.nodes.len() && 0 <= self.lvl(n.nodes@[c] as int) < self.lvl(id)
                 &&& self.lvl(id) == self.hlevel(n.header as int) + 1
                 &&& forall|a: Asg| #[trigger] lk(self.dag(), id, a) == lkn(self.dag(), us2(n.nodes@), self.hlevel(n.header as int), a)
                 &&& forall|i: int| 0 <= i < n.nodes@.len() ==> #[trigger] us2(n.nodes@)[i] == n.nodes@[i]
                 &&& us2(n.nodes@).len() == n.nodes@.len()
             },
             Node::Terminal(t) => self.lvl(id) == 0 && t.id == id && id > 0 && forall|a: Asg| #[trigger] lk(self.dag(), id, a) == if zeroes(a) { enc(t.value.v()) } else { 0 },
             Node::Undet => self.lvl(id) == 0 && id == 0,
           }
    {
        reveal(ZmddManager::wf); reveal(dag_ok); reveal(dag_of); reveal_with_fuel(lk, 1);
        self.lemma_lred();
        assert(self.node_rep(id));
        assert(node_ok(self.dag(), id));
        match self.nodes[id] {
            Node::NonTerminal(n) => { let kids = self.dag()[id]->kids; lemma_lnt(self.dag(), id);
                assert forall|c: int| 0 <= c < n.nodes@.len() implies self.live(#[trigger] n.nodes@[c] as int) && n.nodes@[c] < self.nodes.len() && 0 <= self.lvl(n.nodes@[c] as int) < self.lvl(id) by { assert(kids[c] == n.nodes@[c]); assert(self.dag().dom().contains(kids[c])); }
                assert forall|a: Asg| #[trigger] lk(self.dag(), id, a) == lkn(self.dag(), us2(n.nodes@), self.hlevel(n.header as int), a) by { lemma_lkn(self.dag(), us2(n.nodes@), kids, self.hlevel(n.header as int), a); }
            }, _ => { }
        }
    }
    // THEOREM canonicity: live nodes that hold the same labelled vectors are the same node
    pub proof fn theorem_zmdd_canonical(&self, f: int, g: int)
        requires self.wf(), one_header(self.headers@), self.live(f), self.live(g), forall|a: Asg| #[trigger] lk(self.dag(), f, a) == lk(self.dag(), g, a)
        ensures f == g
    {
        self.lemma_lred();
        reveal(ZmddManager::wf); reveal(dag_of);
        let d = self.dag(); let h = self.headers@; let ar = |l: int| arity(h, l);
        assert forall|i: int| #[trigger] d.dom().contains(i) implies node_arity(d, i, ar) by {
            assert(self.node_rep(i));
            match self.nodes[i] { Node::NonTerminal(n) => { lemma_arity(h, n.header as int); }, _ => {} }
        }
        assert forall|i: int, j: int| #[trigger] d.dom().contains(i) && #[trigger] d.dom().contains(j) && same_node(d[i], d[j]) implies i == j by {
            assert(self.node_rep(i)); assert(self.node_rep(j));
            match (self.nodes[i], self.nodes[j]) { (Node::NonTerminal(n), Node::NonTerminal(m)) => {
                let ki = d[i]->kids; let kj = d[j]->kids;
                assert(n.nodes@ =~= m.nodes@) by { assert(ki.len() == kj.len()); assert forall|c: int| 0 <= c < ki.len() implies n.nodes@[c] == m.nodes@[c] by { assert(ki[c] == kj[c]); } }
                assert(h[n.header as int].level == h[m.header as int].level);
                assert(n.header == m.header); assert(mkey(n) == mkey(m)); }, _ => {} }
        }
        lemma_lcanonical(d, ar, f, g);
    }
}
//@fn mddcore zmdd::ZmddManager::get_node
//@args id
    ensures r == (if *id < self.nodes.len() { Some(&self.nodes[*id as int]) } else { None::<&Node> })
//@end
//@fn mddcore zmdd::ZmddManager::get_header
//@args id
    ensures r == (if *id < self.headers.len() { Some(&self.headers[*id as int]) } else { None::<&NodeHeader> })
//@end
//@fn mddcore zmdd::ZmddManager::level
//@args id
    requires self.wf(), self.live(*id as int)
    ensures self.lvl(*id as int) > 0 ==> (r matches Some(l) && l + 1 == self.lvl(*id as int)), self.lvl(*id as int) <= 0 ==> r is None
//@entry
    proof { self.lemma_node(*id as int); }
//@end
//@fn mddcore zmdd::ZmddManager::label
//@args id
    requires self.wf(), self.live(*id as int)
    ensures match self.nodes[*id as int] { Node::NonTerminal(n) => r matches Some(x) && x@ == self.headers[n.header as int].label@, _ => r is None }
//@entry
    proof { self.lemma_node(*id as int); }
//@end
//@fn mddcore zmdd::ZmddManager::undet
    ensures r == self.undet
//@end
//@fn mddcore zmdd::ZmddManager::cache_get
//@args key
    requires self.wf(), self.live(key.1 as int), self.live(key.2 as int)
    ensures r matches Some(v) ==> apply_ok(self.dag(), key.0, key.1 as int, key.2 as int, v as int)
//@entry
    proof { self.lemma_node(key.1 as int); self.lemma_node(key.2 as int); reveal(ZmddManager::wf); }
//@end
//@fn mddcore zmdd::ZmddManager::cache_put
//@args key val
    requires old(self).wf(), entry_ok(old(self).dag(), key.0.code_spec(), key.1 as int, key.2 as int, val as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).dag() == old(self).dag(),
//@entry
    proof { self.lemma_node(key.1 as int); self.lemma_node(key.2 as int); self.lemma_node(val as int); reveal(ZmddManager::wf); reveal(dag_of); }
//@end
//@fn mddcore zmdd::ZmddManager::clear_cache
    requires old(self).wf()
    ensures final(self).wf(), final(self).ext(old(self)), final(self).dag() == old(self).dag(),
//@entry
    proof { reveal(ZmddManager::wf); reveal(dag_of); }
//@end
//@fn mddcore zmdd::ZmddManager::new
    ensures r.wf(), r.headers@.len() == 0, r.live(0)
//@exit
    proof { reveal(ZmddManager::wf); reveal(dag_of); reveal(dag_ok); assert(vx_r.wf_nodes()); assert(vx_r.wf_term()); }
//@end
impl ZmddManager {
    pub proof fn lemma_kids(&self, h: int, nodes: Seq<usize>)
        requires self.wf(), 0 <= h < self.headers.len(), nodes.len() == self.headers@[h].edge_num, forall|i: int| 0 <= i < nodes.len() ==> self.live(#[trigger] nodes[i] as int)
        ensures fits(nodes), nodes.len() > 0, h <= u32::MAX, forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]) < self.nodes.len() && self.lvl(nodes[i] as int) >= 0
    { reveal(ZmddManager::wf); assert forall|i: int| 0 <= i < nodes.len() implies (#[trigger] nodes[i]) <= u32::MAX && nodes[i] < self.nodes.len() && self.lvl(nodes[i] as int) >= 0 by { self.lemma_node(nodes[i] as int); } }
}
impl ZmddManager {
    // a node whose edges but the first are all empty holds what its 0-edge holds
    pub proof fn lemma_suppressed(&self, h: int, nodes: Seq<usize>)
        requires self.wf(), 0 <= h < self.headers.len(), nodes.len() > 0, forall|j: int| 1 <= j < nodes.len() ==> #[trigger] nodes[j] == 0,
            self.live(nodes[0] as int), self.lvl(nodes[0] as int) <= self.hlevel(h)
        ensures forall|a: Asg| #[trigger] lk(self.dag(), nodes[0] as int, a) == lkn(self.dag(), nodes, self.hlevel(h), a)
    {
        self.lemma_node(nodes[0] as int);
        lemma_lbound(self.dag(), nodes[0] as int);
        assert forall|a: Asg| #[trigger] lk(self.dag(), nodes[0] as int, a) == lkn(self.dag(), nodes, self.hlevel(h), a) by { let c = a(self.hlevel(h)); if 0 < c < nodes.len() { assert(nodes[c] == 0); } }
    }
}
// the node v was found in, or added to, the unique table
pub proof fn lemma_created(m: &ZmddManager, o: &ZmddManager, header: usize, nodes: Seq<usize>, v: int)
    requires o.wf(), header < o.headers.len(), nodes.len() == o.headers@[header as int].edge_num,
        forall|i: int| 0 <= i < nodes.len() ==> o.live(#[trigger] nodes[i] as int) && o.lvl(nodes[i] as int) <= o.hlevel(header as int),
        exists|i: int| 1 <= i < nodes.len() && #[trigger] nodes[i] != 0,
        m.headers == o.headers, m.cache == o.cache, m.vtable == o.vtable,
        ({
            let k = (header as int, us(nodes));
            (*m == *o && o.utable@.dom().contains(k) && v == o.utable@[k])
            || {
                &&& m.wf_term() && !o.live(v) && v >= 1 && v <= u32::MAX && m.nodes.len() >= o.nodes.len()
                &&& !o.utable@.dom().contains(k) && m.utable@ == o.utable@.insert(k, v as u32)
                &&& m.dag() == o.dag().insert(v, SN::N { level: o.hlevel(header as int), kids: ints(us(nodes)) })
                &&& forall|i: int| 0 <= i < o.nodes.len() && i != v ==> #[trigger] m.nodes[i] == o.nodes[i]
                &&& m.nodes[v] matches Node::NonTerminal(n) && n.id == v && n.header == header && n.nodes@ == us(nodes)
            }
        }),
    ensures m.wf(), m.ext(o), m.live(v), m.lvl(v) <= o.hlevel(header as int) + 1,
        forall|a: Asg| #[trigger] lk(m.dag(), v, a) == lkn(o.dag(), nodes, o.hlevel(header as int), a),
{
    let d = o.dag(); let d2 = m.dag(); let kids = ints(us(nodes)); let k = (header as int, us(nodes));
    o.lemma_kids(header as int, nodes);
    reveal(ZmddManager::wf); reveal(dag_of); reveal(dag_ok);
    let w = choose|i: int| 1 <= i < nodes.len() && #[trigger] nodes[i] != 0;
    assert(us(nodes)[w] != 0);
    assert forall|c: int| 0 <= c < kids.len() implies d.dom().contains(#[trigger] kids[c]) && 0 <= lv(d, kids[c]) <= o.hlevel(header as int) && kids[c] == nodes[c] by { assert(o.live(nodes[c] as int)); }
    assert(d2.dom().contains(v) && d2[v] == (SN::N { level: o.hlevel(header as int), kids }));
    assert forall|i: int| d.dom().contains(i) implies d2.dom().contains(i) && #[trigger] d2[i] == d[i] by {}
    lemma_lext(d, d2);
    assert forall|i: int| d2.dom().contains(i) implies node_ok(d2, i) by { if d.dom().contains(i) { assert(node_ok(d, i)); } }
    assert(dag_ok(d2));
    if *m != *o {
        assert forall|i: int| #[trigger] d2.dom().contains(i) implies m.node_rep(i) by { if d.dom().contains(i) { assert(o.node_rep(i)); } }
        assert forall|q: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(q) implies m.live(m.utable@[q] as int) && (m.nodes[m.utable@[q] as int] matches Node::NonTerminal(n) && mkey(n) == q) by { if q != k { assert(o.utable@.dom().contains(q)); } }
        assert(m.wf_utable());
        assert(m.wf_vtable()) by { assert forall|q: int| #[trigger] m.vtable@.dom().contains(q) implies m.live(m.vtable@[q] as int) && (m.nodes[m.vtable@[q] as int] matches Node::Terminal(t) && t.value.v() == q) by { assert(o.vtable@.dom().contains(q)); } }
        assert forall|x: u32, f: u32, g: u32, r: u32| #[trigger] m.cache.has(x, f, g, r) implies entry_ok(d2, x, f as int, g as int, r as int) by {
            assert(entry_ok(d, x, f as int, g as int, r as int));
            assert forall|op: ZmddOperation| #[trigger] op.code_spec() == x implies apply_ok(d2, op, f as int, g as int, r as int) by { assert(apply_ok(d, op, f as int, g as int, r as int)); }
        }
        assert(m.wf_cache());
    }
    lemma_lnt(d2, v);
    assert forall|a: Asg| #[trigger] lk(d2, v, a) == lkn(d, nodes, o.hlevel(header as int), a) by { lemma_lkn(d, nodes, kids, o.hlevel(header as int), a); let c = a(o.hlevel(header as int)); assert(kids[0] == nodes[0]); assert(d.dom().contains(kids[0])); if 0 < c < kids.len() { assert(kids[c] == nodes[c]); assert(d.dom().contains(kids[c])); } }
}
//@fn mddcore zmdd::ZmddManager::create_header
//@args level label edge_num
    requires old(self).wf(), level < usize::MAX, edge_num > 0, old(self).headers.len() < u32::MAX,
        forall|i: int| 0 <= i < old(self).headers.len() && (#[trigger] old(self).headers[i]).level == level ==> old(self).headers[i].edge_num == edge_num,
    ensures final(self).wf(), lext(old(self).dag(), final(self).dag()), final(self).dag() == old(self).dag(), r == old(self).headers.len(), final(self).headers.len() == r + 1,
        final(self).hlevel(r as int) == level, final(self).headers@[r as int].edge_num == edge_num, final(self).headers@[r as int].label@ == label@, forall|i: int| 0 <= i < r ==> #[trigger] final(self).headers[i] == old(self).headers[i],
//@entry
    proof { reveal(ZmddManager::wf); reveal(dag_of); reveal(dag_ok); }
//@exit
    proof {
        assert forall|i: int| #[trigger] old(self).dag().dom().contains(i) implies self.dag()[i] == old(self).dag()[i] by { assert(old(self).node_rep(i)); }
        assert(self.dag() =~= old(self).dag());
        assert forall|i: int| #[trigger] self.dag().dom().contains(i) implies self.node_rep(i) by { assert(old(self).node_rep(i)); }
    }
//@end
//@fn mddcore zmdd::ZmddManager::new_nonterminal
//@args header nodes
    requires old(self).wf(), header < old(self).headers.len(), fits(nodes@),
    ensures final(self).wf_term(), final(self).headers == old(self).headers, final(self).utable == old(self).utable, final(self).cache == old(self).cache, final(self).vtable == old(self).vtable,
         final(self).nodes.len() >= old(self).nodes.len(),
         !old(self).live(r as int), r >= 1, r <= u32::MAX,
         final(self).dag() == old(self).dag().insert(r as int, SN::N { level: old(self).hlevel(header as int), kids: ints(us(nodes@)) }),
         forall|i: int| 0 <= i < old(self).nodes.len() && i != r ==> #[trigger] final(self).nodes[i] == old(self).nodes[i],
         final(self).nodes[r as int] matches Node::NonTerminal(n) && n.id == r && n.header == header && n.nodes@ == us(nodes@),
//@entry
    proof { reveal(ZmddManager::wf); reveal(dag_of); reveal(dag_ok); }
    assume(self.nodes.len() < u32::MAX); // CAPACITY: fewer than 2^32 - 1 node slots
//@exit
    proof {
       let of = old(self).freelist@; let nf = self.freelist@;
       if of.len() > 0 {
           assert(of == nf.push(vx_r as u32));
           lemma_push_contains(nf, vx_r as u32);
           assert(!nf.contains(vx_r as u32));
       }
       let o = old(self);
       assert(self.nodes[vx_r as int] is NonTerminal);
       assert(self.dag() =~= o.dag().insert(vx_r as int, SN::N { level: o.hlevel(header as int), kids: ints(us(nodes@)) }));
    }
//@end
//@fn mddcore zmdd::ZmddManager::create_node
//@args header nodes
    requires old(self).wf(), header < old(self).headers.len(), nodes@.len() == old(self).headers@[header as int].edge_num,
        forall|i: int| 0 <= i < nodes@.len() ==> old(self).live(#[trigger] nodes@[i] as int) && old(self).lvl(nodes@[i] as int) <= old(self).hlevel(header as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int),
        final(self).lvl(r as int) <= old(self).hlevel(header as int) + 1,
        forall|a: Asg| #[trigger] lk(final(self).dag(), r as int, a) == lkn(old(self).dag(), nodes@, old(self).hlevel(header as int), a),
        lbuilt(old(self).dag(), nodes@, old(self).hlevel(header as int), final(self).dag(), r as int),
//@entry
    proof { self.lemma_kids(header as int, nodes@); reveal(ZmddManager::wf); reveal(dag_of); reveal(dag_ok); }
//@loopafter 1
    proof { assert(vx_v1@ =~= us(nodes@)); }
//@exit
    proof { reveal(lbuilt); if (forall|j: int| 1 <= j < nodes@.len() ==> #[trigger] nodes@[j] == 0) && vx_r == nodes@[0] { old(self).lemma_suppressed(header as int, nodes@); } else { lemma_created(self, old(self), header, nodes@, vx_r as int); } }
//@end
//@fn mddcore zmdd::ZmddManager::new_terminal
//@args value
    requires old(self).wf()
    ensures final(self).wf_term(), final(self).headers == old(self).headers, final(self).utable == old(self).utable, final(self).cache == old(self).cache, final(self).vtable == old(self).vtable,
         final(self).nodes.len() >= old(self).nodes.len(),
         !old(self).live(r as int), r >= 1, r <= u32::MAX,
         final(self).dag() == old(self).dag().insert(r as int, SN::T(enc(value.v()))),
         forall|i: int| 0 <= i < old(self).nodes.len() && i != r ==> #[trigger] final(self).nodes[i] == old(self).nodes[i],
         final(self).nodes[r as int] matches Node::Terminal(n) && n.id == r && n.value == value,
//@entry
    proof { reveal(ZmddManager::wf); reveal(dag_of); reveal(dag_ok); }
    assume(self.nodes.len() < u32::MAX); // CAPACITY: fewer than 2^32 - 1 node slots
//@exit
    proof {
       let of = old(self).freelist@; let nf = self.freelist@;
       if of.len() > 0 {
           assert(of == nf.push(vx_r as u32));
           lemma_push_contains(nf, vx_r as u32);
           assert(!nf.contains(vx_r as u32));
       }
       assert(self.nodes[vx_r as int] is Terminal);
       assert(self.dag() =~= old(self).dag().insert(vx_r as int, SN::T(enc(value.v()))));
    }
//@end
//@fn mddcore zmdd::ZmddManager::value
//@args value
    requires old(self).wf()
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int), final(self).lvl(r as int) == 0, forall|a: Asg| #[trigger] lk(final(self).dag(), r as int, a) == if zeroes(a) { enc(value.v()) } else { 0 }
//@entry
    proof { reveal(ZmddManager::wf); reveal(dag_of); reveal(dag_ok); reveal_with_fuel(lk, 1); }
//@exit
    proof {
        let o = old(self); let m = self; let d = o.dag(); let d2 = self.dag(); let v = vx_r as int;
        assert forall|i: int| d.dom().contains(i) implies d2.dom().contains(i) && #[trigger] d2[i] == d[i] by {}
        lemma_lext(d, d2);
        if !o.vtable@.dom().contains(value.v()) {
            assert forall|i: int| d2.dom().contains(i) implies node_ok(d2, i) by { if d.dom().contains(i) { assert(node_ok(d, i)); } }
            assert(dag_ok(d2));
            assert forall|i: int| #[trigger] d2.dom().contains(i) implies m.node_rep(i) by { if d.dom().contains(i) { assert(o.node_rep(i)); } }
            assert forall|q: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(q) implies m.live(m.utable@[q] as int) && (m.nodes[m.utable@[q] as int] matches Node::NonTerminal(n) && mkey(n) == q) by { assert(o.utable@.dom().contains(q)); }
            assert forall|q: int| #[trigger] m.vtable@.dom().contains(q) implies m.live(m.vtable@[q] as int) && (m.nodes[m.vtable@[q] as int] matches Node::Terminal(t) && t.value.v() == q) by { if q != value.v() { assert(o.vtable@.dom().contains(q)); } }
            assert forall|x: u32, f: u32, g: u32, r: u32| #[trigger] m.cache.has(x, f, g, r) implies entry_ok(d2, x, f as int, g as int, r as int) by {
                assert(entry_ok(d, x, f as int, g as int, r as int));
                assert forall|op: ZmddOperation| #[trigger] op.code_spec() == x implies apply_ok(d2, op, f as int, g as int, r as int) by { assert(apply_ok(d, op, f as int, g as int, r as int)); }
            }
            assert(m.wf_utable() && m.wf_vtable() && m.wf_nodes() && m.wf_term() && m.wf_cache());
        }
    }
//@end
//@fn mddcore zmdd_ops::ZmddManager::intersect
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), ZmddOperation::Intersect, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); lemma_lbound(self.dag(), f as int); lemma_lbound(self.dag(), g as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> apply_ok(self.dag(), ZmddOperation::Intersect, $a0 as int, $a1 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mddcore zmdd_ops::ZmddManager::setdiff
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).live(f as int), old(self).live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), apply_ok(final(self).dag(), ZmddOperation::Setdiff, f as int, g as int, r as int)
    decreases old(self).lvl(f as int) + old(self).lvl(g as int)
//@entry
    proof { self.lemma_node(f as int); self.lemma_node(g as int); lemma_lbound(self.dag(), f as int); lemma_lbound(self.dag(), g as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> apply_ok(self.dag(), ZmddOperation::Setdiff, $a0 as int, $a1 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mddcore zmdd::ZmddManager::set_baseline
//@attr #[verifier::spinoff_prover]
//@args node v
    requires old(self).wf(), old(self).live(node as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r as int), final(self).lvl(r as int) <= old(self).lvl(node as int),
        // the member with every component at 0 is there, with the label v unless it already had one; nothing else changes
        forall|a: Asg| #[trigger] lk(final(self).dag(), r as int, a) == if zeroes(a) && lk(old(self).dag(), node as int, a) == 0 { enc(v.v()) } else { lk(old(self).dag(), node as int, a) }
    decreases old(self).lvl(node as int)
//@entry
    proof { self.lemma_node(node as int); lemma_lbound(self.dag(), node as int); }
//@end
pub open spec fn lkept(d: D, d2: D) -> bool { forall|id: int, a: Asg| d2.dom().contains(id) ==> #[trigger] lk(d2, id, a) == lk(d, id, a) }
pub open spec fn base1() -> spec_fn(int) -> bool { |i: int| i == 0 }
pub proof fn lemma_vretained(o: IMap<int, u32>, n: IMap<int, u32>, live: Seq<bool>)
    requires
        forall|k: int| #[trigger] n.dom().contains(k) ==> o.dom().contains(k) && n[k] == o[k],
        forall|k: Num| #![trigger n.dom().contains(k.kv())] o.dom().contains(k.kv()) ==> n.dom().contains(k.kv()) == live[o[k.kv()] as int],
        forall|k: int| #[trigger] o.dom().contains(k) ==> exists|q: Num| q.kv() == k,
    ensures
        forall|k: int| #[trigger] n.dom().contains(k) <==> o.dom().contains(k) && live[o[k] as int],
{
    assert forall|k: int| #[trigger] n.dom().contains(k) <==> o.dom().contains(k) && live[o[k] as int] by {
        if o.dom().contains(k) { let q = choose|q: Num| q.kv() == k; assert(n.dom().contains(q.kv()) == live[o[q.kv()] as int]); }
    }
}
pub proof fn lemma_gc_pre(m: &ZmddManager)
    requires m.wf()
    ensures 1 <= m.nodes.len() <= u32::MAX, m.undet == 0, dag_ok(m.dag()),
        m.live(0),
        forall|id: int| #[trigger] m.dag().dom().contains(id) ==> 0 <= id < m.nodes.len() && m.dag()[id] == sn(m.headers@, m.nodes[id]),
        forall|k: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(k) ==> m.utable@[k] < m.nodes.len(),
        m.cache.wf(), m.dag()[0] is T,
        forall|k: int| #[trigger] m.vtable@.dom().contains(k) ==> m.vtable@[k] < m.nodes.len(),
        forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.cache.has(k, f, g, v) ==> f < m.nodes.len() && g < m.nodes.len() && v < m.nodes.len(),
{ reveal(ZmddManager::wf); reveal(dag_of); assert(m.wf_nodes() && m.wf_term() && m.wf_utable() && m.wf_cache()); }
pub proof fn lemma_gc_post(m: &ZmddManager, o: &ZmddManager, roots: Seq<usize>, live: Seq<bool>)
    requires o.wf(), live.len() == o.nodes.len(), mark_inv(o.dag(), base1(), roots, live, Seq::empty()),
        m.headers@ == o.headers@, m.nodes@ == o.nodes@, m.undet == o.undet,
        m.cache.wf(),
        forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.cache.has(k, f, g, v) ==> o.cache.has(k, f, g, v) && live[f as int] && live[g as int] && live[v as int],
        forall|k: int| #[trigger] m.vtable@.dom().contains(k) <==> o.vtable@.dom().contains(k) && live[o.vtable@[k] as int],
        forall|k: int| #[trigger] m.vtable@.dom().contains(k) ==> m.vtable@[k] == o.vtable@[k],
        forall|k: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(k) <==> o.utable@.dom().contains(k) && live[o.utable@[k] as int],
        forall|k: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(k) ==> m.utable@[k] == o.utable@[k],
        is_free(m.freelist@, live, live.len() as int),
    ensures m.wf(), kept(o.dag(), m.dag(), base1(), roots), lkept(o.dag(), m.dag())
{
    reveal(ZmddManager::wf); reveal(dag_of); reveal(mark_inv);
    lemma_gc_pre(o);
    let d = o.dag(); let d2 = m.dag();
    assert forall|id: int| #[trigger] d2.dom().contains(id) <==> 0 <= id < live.len() && live[id] by { if 0 <= id < live.len() { assert(m.freelist@.contains(id as u32) <==> (id as u32) < live.len() && !live[id as u32 as int]); } }
    lemma_kept(d, d2, base1(), roots, live);
    assert forall|id: int, a: Asg| d2.dom().contains(id) implies #[trigger] lk(d2, id, a) == lk(d, id, a) by { lemma_lsame(d2, d, id, a); }
    assert forall|k: (int, Seq<u32>)| #[trigger] m.utable@.dom().contains(k) implies m.live(m.utable@[k] as int) && (m.nodes[m.utable@[k] as int] matches Node::NonTerminal(n) && mkey(n) == k) by {
        assert(o.utable@.dom().contains(k));
    }
    assert forall|id: int| #[trigger] d2.dom().contains(id) implies m.node_rep(id) by {
        assert(o.node_rep(id));
        match m.nodes[id] { Node::NonTerminal(n) => { assert(o.utable@.dom().contains(mkey(n))); assert(m.utable@.dom().contains(mkey(n))); }, Node::Terminal(t) => { assert(o.vtable@.dom().contains(t.value.v())); assert(m.vtable@.dom().contains(t.value.v())); }, _ => {} }
    }
    assert forall|k: int| #[trigger] m.vtable@.dom().contains(k) implies m.live(m.vtable@[k] as int) && (m.nodes[m.vtable@[k] as int] matches Node::Terminal(t) && t.value.v() == k) by { assert(o.vtable@.dom().contains(k)); }
    assert(m.wf_utable()); assert(m.wf_vtable()); assert(m.wf_nodes());
    assert forall|k: u32, f: u32, g: u32, v: u32| #[trigger] m.cache.has(k, f, g, v) implies entry_ok(d2, k, f as int, g as int, v as int) by {
        assert(o.cache.has(k, f, g, v)); assert(entry_ok(d, k, f as int, g as int, v as int));
        assert(d2.dom().contains(f as int) && d2.dom().contains(g as int) && d2.dom().contains(v as int));
        assert forall|op: ZmddOperation| #[trigger] op.code_spec() == k implies apply_ok(d2, op, f as int, g as int, v as int) by { assert(apply_ok(d, op, f as int, g as int, v as int)); }
    }
    assert(base1()(0));
    assert(m.live(0));
    assert(m.wf_cache()); assert(m.wf_term());
}
//@fn mddcore zmdd::ZmddManager::live_node_count
    requires self.wf()
    ensures r <= u32::MAX
//@entry
    proof { reveal(ZmddManager::wf); lemma_free_len(self.freelist@, self.nodes.len() as int); }
//@end
//@fn mddcore zmdd::ZmddManager::gc
//@args roots
    requires old(self).wf(), forall|i: int| 0 <= i < roots@.len() ==> old(self).live(#[trigger] roots@[i] as int)
    ensures final(self).wf(), final(self).headers@ == old(self).headers@,
        // what survives means what it meant before, and is exactly what is reachable from the roots, plus the terminals
        kept(old(self).dag(), final(self).dag(), base1(), roots@), lkept(old(self).dag(), final(self).dag()),
        r == final(self).freelist@.len(), final(self).nodes@.len() == old(self).nodes@.len(),
//@entry
    proof { lemma_gc_pre(self); }
    let ghost d = self.dag();
//@loop 0
    forall|i: int| 0 <= i < $i ==> vx_v0@.contains(#[trigger] roots@[i]),
    forall|x: usize| #[trigger] vx_v0@.contains(x) ==> roots@.contains(x),
//@loopbegin 0
    let ghost vx_o = vx_v0@;
    proof { assert(roots@.contains(roots@[$i as int])); assert(self.live(roots@[$i as int] as int)); }
//@loopend 0
    proof { lemma_push_contains(vx_o, roots@[$i - 1]); assert(vx_v0@ == vx_o.push(roots@[$i - 1])); }
//@loopbefore 1
    proof { lemma_mark_init(d, base1(), roots@, live@, stack@); }
//@loop 1
    invariant *self == *old(self), d == self.dag(), n == self.nodes.len(), live@.len() == n, mark_inv(d, base1(), roots@, live@, stack@)
    decreases nfalse(live@), stack@.len()
//@loopbegin 1
    let ghost vx_l = live@; let ghost vx_s = stack@.push(id); let ghost vx_st = stack@;
    proof { lemma_drop_push(); lemma_mark_top(d, base1(), roots@, live@, vx_s); assert(vx_s.drop_last() =~= stack@); if !live@[id as int] { lemma_nfalse_update(live@, id as int); } if d[id as int] is N { assert(d[id as int]->kids =~= ints(self.nodes[id as int]->NonTerminal_0.nodes@)); } }
//@loopend 1
    proof {
        assert(live@ == vx_l.update(id as int, true));
        match d[id as int] { SN::N { level, kids } => {
            lemma_pushed(vx_st, kids, kids.len() as int, stack@);
        }, _ => { assert(stack@ == vx_st); } }
        lemma_mark(d, base1(), roots@, vx_l, vx_s, live@, stack@, id);
    }
//@loopafter 1
    proof { assert(stack@ =~= Seq::empty()); }
//@closure 0
    |$p0: &(u32, Vec<u32>), $p1: &u32| -> (q: bool) requires *$p1 < live@.len() ensures q == live@[*$p1 as int]
//@closure 1
    |$p0: &Num, $p1: &u32| -> (q: bool) requires *$p1 < live@.len() ensures q == live@[*$p1 as int]
//@loop 2
    pushed(vx_st, d[id as int]->kids, $i as int, stack@),
//@loop 3
    is_free(self.freelist@, live@, $i as int),
//@loopbegin 3
    let ghost vx_f = self.freelist@;
//@loopend 3
    proof {
        if live@[$i - 1] { assert(self.freelist@ == vx_f); } else { assert(self.freelist@ == vx_f.push(($i - 1) as u32)); }
        lemma_free_step(vx_f, self.freelist@, live@, $i - 1);
    }
//@exit
    proof { lemma_mretained(old(self).utable@, self.utable@, live@); lemma_vretained(old(self).vtable@, self.vtable@, live@); lemma_gc_post(self, old(self), roots@, live@); }
//@end

// ---------------------------------------------------------------- bddcore: BddManager
//@item common NodeHeader
//@fn common NodeHeader::new
//@args id level label edge_num
    ensures r.id == id, r.level == level, r.edge_num == edge_num, r.label@ == label@
//@end
//@fn common NodeHeader::id
    ensures r == self.id
//@end
//@fn common NodeHeader::level
    ensures r == self.level
//@end
//@fn common NodeHeader::label
    ensures r@ == self.label@
//@end
//@fn common NodeHeader::edge_num
    ensures r == self.edge_num
//@end
//@item bddcore NonTerminalBDD
//@fn bddcore NonTerminalBDD::new
//@args id header edges
    requires id <= u32::MAX, header <= u32::MAX, edges[0] <= u32::MAX, edges[1] <= u32::MAX,
    ensures r.id == id, r.header == header, r.edges[0] == edges[0], r.edges[1] == edges[1]
//@end
//@fn bddcore NonTerminalBDD::id
    ensures r == self.id
//@end
//@fn bddcore NonTerminalBDD::headerid
    ensures r == self.header
//@end
//@fn bddcore NonTerminalBDD::edge
//@args i
    requires i < 2 ensures r == self.edges[i as int]
//@end
//@item bddcore nodes::Node
//@fn bddcore Node::id
    ensures r == (match *self { Node::NonTerminal(n) => n.id as int, Node::Zero => 0, Node::One => 1, Node::Undet => 2 })
//@end
//@fn bddcore Node::headerid
    ensures r == (match *self { Node::NonTerminal(n) => Some(n.header as usize), _ => None })
//@end
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn is01(x: int) -> bool { x == 0 || x == 1 }
pub open spec fn max(x: int, y: int) -> int { if x > y { x } else { y } }
pub open spec fn tv(x: int) -> bool { x == 0 || x == 1 || x == 2 }
pub open spec fn sn(headers: Seq<NodeHeader>, n: Node) -> SN {
    match n {
        Node::NonTerminal(n) => SN::N { level: headers[n.header as int].level as int, kids: seq![n.edges[0] as int, n.edges[1] as int] },
        Node::Zero => SN::T(0), Node::One => SN::T(1), Node::Undet => SN::T(2),
    }
}
pub open spec fn slot_live(nodes: Seq<Node>, freelist: Seq<u32>, id: int) -> bool { 0 <= id < nodes.len() && !freelist.contains(id as u32) }
#[verifier::opaque]
pub open spec fn dag_of(headers: Seq<NodeHeader>, nodes: Seq<Node>, freelist: Seq<u32>) -> D {
    IMap::new(|i: int| slot_live(nodes, freelist, i), |i: int| sn(headers, nodes[i]))
}
pub open spec fn ukey(n: NonTerminalBDD) -> (int, int, int) { (n.header as int, n.edges[0] as int, n.edges[1] as int) }
pub open spec fn base3() -> spec_fn(int) -> bool { |i: int| 0 <= i < 3 }
pub proof fn lemma_retained(o: IMap<(int, int, int), u32>, n: IMap<(int, int, int), u32>, live: Seq<bool>)
    requires
        forall|k: (int, int, int)| #[trigger] n.dom().contains(k) ==> o.dom().contains(k) && n[k] == o[k],
        forall|k: (u32, u32, u32)| #![trigger n.dom().contains(k.kv())] o.dom().contains(k.kv()) ==> n.dom().contains(k.kv()) == live[o[k.kv()] as int],
        forall|k: (int, int, int)| #[trigger] o.dom().contains(k) ==> exists|q: (u32, u32, u32)| q.kv() == k,
    ensures
        forall|k: (int, int, int)| #[trigger] n.dom().contains(k) <==> o.dom().contains(k) && live[o[k] as int],
{
    assert forall|k: (int, int, int)| #[trigger] n.dom().contains(k) <==> o.dom().contains(k) && live[o[k] as int] by {
        if o.dom().contains(k) { let q = choose|q: (u32, u32, u32)| q.kv() == k; assert(n.dom().contains(q.kv()) == live[o[q.kv()] as int]); }
    }
}

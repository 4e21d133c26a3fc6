// ---------------------------------------------------------------- mddcore: nodes
//@item common NodeHeader
//@fn common NodeHeader::new
//@args id level label edge_num
    ensures r.id == id, r.level == level, r.edge_num == edge_num, r.label@ == label@
//@end
//@fn common NodeHeader::id
    ensures r == self.id
//@end
//@fn common NodeHeader::level
    ensures r == self.level
//@end
//@fn common NodeHeader::label
    ensures r@ == self.label@
//@end
//@fn common NodeHeader::edge_num
    ensures r == self.edge_num
//@end
//@item mddcore NonTerminalMDD
pub open spec fn fits(s: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= u32::MAX }
pub open spec fn us(s: Seq<usize>) -> Seq<u32> { s.map_values(|x: usize| x as u32) }
pub open spec fn ints(s: Seq<u32>) -> Seq<int> { s.map_values(|x: u32| x as int) }
//@fn mddcore NonTerminalMDD::new
//@args id header nodes
    requires id <= u32::MAX, header <= u32::MAX, fits(nodes@)
    ensures r.id == id, r.header == header, r.nodes@ == us(nodes@)
//@exit
    proof { assert(vx_r.nodes@ =~= us(nodes@)); }
//@end
//@fn mddcore NonTerminalMDD::id
    ensures r == self.id
//@end
//@fn mddcore NonTerminalMDD::headerid
    ensures r == self.header
//@end
//@fn mddcore NonTerminalMDD::edge
//@args i
    requires i < self.nodes@.len() ensures r == self.nodes@[i as int]
//@end
//@fn mddcore NonTerminalMDD::len
    ensures r == self.nodes@.len()
//@end
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn is01(x: int) -> bool { x == 0 || x == 1 }
pub open spec fn max(x: int, y: int) -> int { if x > y { x } else { y } }
pub open spec fn tv(x: int) -> bool { x == 0 || x == 1 || x == 2 }
// the child taken for the value c of the variable (a value the variable does not have counts as 0)
pub open spec fn ix(n: int, c: int) -> int { if 0 <= c < n { c } else { 0 } }
pub open spec fn mkey(n: NonTerminalMDD) -> (int, Seq<u32>) { (n.header as int, n.nodes@) }
// children differ somewhere
pub open spec fn mixed(s: Seq<u32>) -> bool { exists|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && s[i] != s[j] }
pub open spec fn base3() -> spec_fn(int) -> bool { |i: int| 0 <= i < 3 }
pub proof fn lemma_mretained(o: IMap<(int, Seq<u32>), u32>, n: IMap<(int, Seq<u32>), u32>, live: Seq<bool>)
    requires
        forall|k: (int, Seq<u32>)| #[trigger] n.dom().contains(k) ==> o.dom().contains(k) && n[k] == o[k],
        forall|k: (u32, Vec<u32>)| #![trigger n.dom().contains(k.kv())] o.dom().contains(k.kv()) ==> n.dom().contains(k.kv()) == live[o[k.kv()] as int],
        forall|k: (int, Seq<u32>)| #[trigger] o.dom().contains(k) ==> exists|q: (u32, Vec<u32>)| q.kv() == k,
    ensures
        forall|k: (int, Seq<u32>)| #[trigger] n.dom().contains(k) <==> o.dom().contains(k) && live[o[k] as int],
{
    assert forall|k: (int, Seq<u32>)| #[trigger] n.dom().contains(k) <==> o.dom().contains(k) && live[o[k] as int] by {
        if o.dom().contains(k) { let q = choose|q: (u32, Vec<u32>)| q.kv() == k; assert(n.dom().contains(q.kv()) == live[o[q.kv()] as int]); }
    }
}
// every variable of a level has the same number of states
pub open spec fn arities(h: Seq<NodeHeader>) -> bool {
    forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && (#[trigger] h[i]).level == (#[trigger] h[j]).level ==> h[i].edge_num == h[j].edge_num
}
pub open spec fn headers_ok(h: Seq<NodeHeader>) -> bool {
    &&& h.len() <= u32::MAX
    &&& forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).level < usize::MAX && h[i].id == i && h[i].edge_num > 0
    &&& arities(h)
}
pub open spec fn one_header(h: Seq<NodeHeader>) -> bool {
    forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && (#[trigger] h[i]).level == (#[trigger] h[j]).level ==> i == j
}
// number of states of the variable at a level
pub open spec fn arity(h: Seq<NodeHeader>, l: int) -> int {
    if exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]).level == l { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).level == l; h[i].edge_num as int } else { 0 }
}
pub proof fn lemma_arity(h: Seq<NodeHeader>, i: int)
    requires arities(h), 0 <= i < h.len()
    ensures arity(h, h[i].level as int) == h[i].edge_num
{ }
// what create_node answers: the common child, or the node over these children
#[verifier::opaque]
pub open spec fn mbuilt(d: D, l: int, ns: Seq<usize>, r: int) -> bool {
    (r == ns[0] && forall|j: int| 0 <= j < ns.len() ==> #[trigger] ns[j] == ns[0])
    || (d[r] matches SN::N { level, kids } && level == l && kids.len() == ns.len() && forall|j: int| 0 <= j < ns.len() ==> kids[j] == #[trigger] ns[j])
}

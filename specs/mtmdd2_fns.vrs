// ---------------------------------------------------------------- mddcore: MtMdd2Manager (Boolean and value diagrams over one set of variables)
pub use mdd::MddManager;
pub use mtmdd::MtMddManager;
pub use mdd::MddOperation;
pub use mtmdd::MtMddOperation;
pub use mdd::Node as BNode;
pub use mtmdd::Node as VNode;
pub use mtmdd::{enc, dec, opn};
pub use mdd::opv;
//@item mddcore mtmdd2::Node #[derive(Clone,Copy)]
impl KeyView for Node { type V = Node; open spec fn kv(self) -> Node { self } }
//@item mddcore mtmdd2_ops::MtMdd2Operation
//@fn mddcore mtmdd2_ops::MtMdd2Operation::code
//@asspec code_spec
    ensures r == self.code_spec()
//@end
// relations between encoded values
pub open spec fn rel(k: MtMdd2Operation, x: int, y: int) -> bool { if k is Eq { dec(x) == dec(y) } else { dec(x) < dec(y) } }
// v is the Boolean diagram of the relation between the value diagrams f and g, wherever both are determined
pub open spec fn rel_ok(vd: D, bd: D, k: MtMdd2Operation, f: int, g: int, v: int) -> bool {
    &&& vd.dom().contains(f) && vd.dom().contains(g) && bd.dom().contains(v)
    &&& lv(bd, v) <= max(lv(vd, f), lv(vd, g))
    &&& forall|a: Asg| eval(vd, f, a) != 0 && eval(vd, g, a) != 0 ==> #[trigger] eval(bd, v, a) == b2i(rel(k, eval(vd, f, a), eval(vd, g, a)))
}
// v is the value diagram g where the Boolean diagram f is true, undetermined where it is false
pub open spec fn if_ok(vd: D, bd: D, f: int, g: int, v: int) -> bool {
    &&& bd.dom().contains(f) && vd.dom().contains(g) && vd.dom().contains(v)
    &&& lv(vd, v) <= max(lv(bd, f), lv(vd, g))
    &&& forall|a: Asg| is01(eval(bd, f, a)) ==> #[trigger] eval(vd, v, a) == (if eval(bd, f, a) == 1 { eval(vd, g, a) } else { 0 })
}
pub open spec fn vite_ok(vd: D, bd: D, f: int, g: int, h: int, v: int) -> bool {
    &&& bd.dom().contains(f) && vd.dom().contains(g) && vd.dom().contains(h) && vd.dom().contains(v)
    &&& lv(vd, v) <= max(lv(bd, f), max(lv(vd, g), lv(vd, h)))
    &&& forall|a: Asg| is01(eval(bd, f, a)) ==> #[trigger] eval(vd, v, a) == (if eval(bd, f, a) == 1 { eval(vd, g, a) } else { eval(vd, h, a) })
}
pub open spec fn bentry_ok(vd: D, bd: D, c: u32, f: int, g: int, v: int) -> bool {
    vd.dom().contains(f) && vd.dom().contains(g) && bd.dom().contains(v) && forall|k: MtMdd2Operation| #[trigger] k.code_spec() == c && !(k is If) ==> rel_ok(vd, bd, k, f, g, v)
}
pub open spec fn ventry_ok(vd: D, bd: D, c: u32, f: int, g: int, v: int) -> bool {
    bd.dom().contains(f) && vd.dom().contains(g) && vd.dom().contains(v) && forall|k: MtMdd2Operation| #[trigger] k.code_spec() == c && k is If ==> if_ok(vd, bd, f, g, v)
}
#[verifier::opaque]
pub open spec fn caches_ok(vd: D, bd: D, bc: ComputeCache, vc: ComputeCache, ic: ComputeCache) -> bool {
    &&& bc.wf() && vc.wf() && ic.wf()
    &&& forall|k: u32, f: u32, g: u32, v: u32| #[trigger] bc.has(k, f, g, v) ==> bentry_ok(vd, bd, k, f as int, g as int, v as int)
    &&& forall|k: u32, f: u32, g: u32, v: u32| #[trigger] vc.has(k, f, g, v) ==> ventry_ok(vd, bd, k, f as int, g as int, v as int)
    &&& forall|f: u32, g: u32, h: u32, v: u32| #[trigger] ic.has(f, g, h, v) ==> vite_ok(vd, bd, f as int, g as int, h as int, v as int)
}
pub mod cok { use super::*;
pub broadcast proof fn lemma_caches_b(vd: D, bd: D, bd2: D, bc: ComputeCache, vc: ComputeCache, ic: ComputeCache)
    requires #[trigger] caches_ok(vd, bd, bc, vc, ic), #[trigger] ext(bd, bd2)
    ensures caches_ok(vd, bd2, bc, vc, ic)
{
    reveal(caches_ok);
    assert forall|k: u32, f: u32, g: u32, v: u32| #[trigger] bc.has(k, f, g, v) implies bentry_ok(vd, bd2, k, f as int, g as int, v as int) by {
        assert(bentry_ok(vd, bd, k, f as int, g as int, v as int));
        assert forall|o: MtMdd2Operation| #[trigger] o.code_spec() == k && !(o is If) implies rel_ok(vd, bd2, o, f as int, g as int, v as int) by { assert(rel_ok(vd, bd, o, f as int, g as int, v as int)); }
    }
    assert forall|k: u32, f: u32, g: u32, v: u32| #[trigger] vc.has(k, f, g, v) implies ventry_ok(vd, bd2, k, f as int, g as int, v as int) by {
        assert(ventry_ok(vd, bd, k, f as int, g as int, v as int));
        assert forall|o: MtMdd2Operation| #[trigger] o.code_spec() == k && o is If implies if_ok(vd, bd2, f as int, g as int, v as int) by { assert(if_ok(vd, bd, f as int, g as int, v as int)); }
    }
    assert forall|f: u32, g: u32, h: u32, v: u32| #[trigger] ic.has(f, g, h, v) implies vite_ok(vd, bd2, f as int, g as int, h as int, v as int) by { assert(vite_ok(vd, bd, f as int, g as int, h as int, v as int)); }
}
pub broadcast proof fn lemma_caches_v(vd: D, vd2: D, bd: D, bc: ComputeCache, vc: ComputeCache, ic: ComputeCache)
    requires #[trigger] caches_ok(vd, bd, bc, vc, ic), #[trigger] ext(vd, vd2)
    ensures caches_ok(vd2, bd, bc, vc, ic)
{
    reveal(caches_ok);
    assert forall|k: u32, f: u32, g: u32, v: u32| #[trigger] bc.has(k, f, g, v) implies bentry_ok(vd2, bd, k, f as int, g as int, v as int) by {
        assert(bentry_ok(vd, bd, k, f as int, g as int, v as int));
        assert forall|o: MtMdd2Operation| #[trigger] o.code_spec() == k && !(o is If) implies rel_ok(vd2, bd, o, f as int, g as int, v as int) by { assert(rel_ok(vd, bd, o, f as int, g as int, v as int)); }
    }
    assert forall|k: u32, f: u32, g: u32, v: u32| #[trigger] vc.has(k, f, g, v) implies ventry_ok(vd2, bd, k, f as int, g as int, v as int) by {
        assert(ventry_ok(vd, bd, k, f as int, g as int, v as int));
        assert forall|o: MtMdd2Operation| #[trigger] o.code_spec() == k && o is If implies if_ok(vd2, bd, f as int, g as int, v as int) by { assert(if_ok(vd, bd, f as int, g as int, v as int)); }
    }
    assert forall|f: u32, g: u32, h: u32, v: u32| #[trigger] ic.has(f, g, h, v) implies vite_ok(vd2, bd, f as int, g as int, h as int, v as int) by { assert(vite_ok(vd, bd, f as int, g as int, h as int, v as int)); }
}
}
pub mod m2 { use super::*;
broadcast use {numax::axiom_num, numax::axiom_num_eq, cok::lemma_caches_b, cok::lemma_caches_v};
//@item mddcore MtMdd2Manager
impl MtMdd2Manager {
    pub open spec fn vd(&self) -> D { self.mtmdd.dag() }
    pub open spec fn bd(&self) -> D { self.mdd.dag() }
    // both stores know the same variables
    pub open spec fn same_headers(&self) -> bool {
        &&& self.mdd.headers.len() == self.mtmdd.headers.len()
        &&& forall|i: int| 0 <= i < self.mdd.headers.len() ==> (#[trigger] self.mdd.headers[i]).level == self.mtmdd.headers[i].level && self.mdd.headers[i].edge_num == self.mtmdd.headers[i].edge_num && self.mdd.headers[i].label@ == self.mtmdd.headers[i].label@
        &&& headers_ok(self.mdd.headers@) && headers_ok(self.mtmdd.headers@)
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.mdd.wf() && self.mtmdd.wf() && self.same_headers()
        &&& caches_ok(self.vd(), self.bd(), self.bcache, self.vcache, self.vite_cache)
    }
    pub open spec fn ext(&self, o: &MtMdd2Manager) -> bool { self.mdd.ext(&o.mdd) && self.mtmdd.ext(&o.mtmdd) }
    pub open spec fn live(&self, n: Node) -> bool { match n { Node::Value(v) => self.vd().dom().contains(v as int), Node::Bool(b) => self.bd().dom().contains(b as int) } }
    // what a diagram denotes: encoded values, or 0/1/2
    pub open spec fn ev(&self, n: Node, a: Asg) -> int { match n { Node::Value(v) => eval(self.vd(), v as int, a), Node::Bool(b) => eval(self.bd(), b as int, a) } }
    // a node of the value store / of the Boolean store
    pub proof fn lemma_v(&self, id: int)
        requires self.wf(), self.mtmdd.live(id)
        ensures self.vd().dom().contains(id), 0 <= id < self.mtmdd.nodes.len() <= u32::MAX, self.mtmdd.undet == 0, self.mtmdd.live(0), self.mtmdd.lvl(0) == 0, self.mtmdd.lvl(id) >= 0,
           self.mdd.zero == 0 && self.mdd.one == 1 && self.mdd.undet == 2, self.mdd.live(0), self.mdd.live(1), self.mdd.live(2), self.mdd.lvl(0) == 0 && self.mdd.lvl(1) == 0 && self.mdd.lvl(2) == 0,
           forall|a: Asg| #[trigger] eval(self.vd(), 0, a) == 0, forall|a: Asg| #[trigger] eval(self.bd(), 0, a) == 0, forall|a: Asg| #[trigger] eval(self.bd(), 1, a) == 1, forall|a: Asg| #[trigger] eval(self.bd(), 2, a) == 2,
           match self.mtmdd.nodes[id] {
             VNode::NonTerminal(n) => {
                 &&& n.header < self.mtmdd.headers.len() && n.header < self.mdd.headers.len() && self.mtmdd.hlevel(n.header as int) < usize::MAX && self.mdd.hlevel(n.header as int) == self.mtmdd.hlevel(n.header as int)
                 &&& n.nodes@.len() == self.mtmdd.headers@[n.header as int].edge_num && n.nodes@.len() == self.mdd.headers@[n.header as int].edge_num && n.nodes@.len() > 0
                 &&& forall|c: int| 0 <= c < n.nodes@.len() ==> self.mtmdd.live(#[trigger] n.nodes@[c] as int) && 0 <= self.mtmdd.lvl(n.nodes@[c] as int) < self.mtmdd.lvl(id)
                 &&& self.mtmdd.lvl(id) == self.mtmdd.hlevel(n.header as int) + 1
                 &&& forall|a: Asg| #[trigger] eval(self.vd(), id, a) == eval(self.vd(), n.nodes@[ix(n.nodes@.len() as int, a(self.mtmdd.hlevel(n.header as int)))] as int, a)
             },
             VNode::Terminal(t) => self.mtmdd.lvl(id) == 0 && forall|a: Asg| #[trigger] eval(self.vd(), id, a) == enc(t.value.v()),
             VNode::Undet => self.mtmdd.lvl(id) == 0 && id == 0,
           }
    { self.mtmdd.lemma_node(id); lemma_consts(self); }
    pub proof fn lemma_b(&self, id: int)
        requires self.wf(), self.mdd.live(id)
        ensures self.bd().dom().contains(id), 0 <= id < self.mdd.nodes.len() <= u32::MAX, self.mtmdd.undet == 0, self.mtmdd.live(0), self.mtmdd.lvl(0) == 0, self.mdd.lvl(id) >= 0,
           self.mdd.zero == 0 && self.mdd.one == 1 && self.mdd.undet == 2, self.mdd.live(0), self.mdd.live(1), self.mdd.live(2), self.mdd.lvl(0) == 0 && self.mdd.lvl(1) == 0 && self.mdd.lvl(2) == 0,
           forall|a: Asg| #[trigger] eval(self.vd(), 0, a) == 0, forall|a: Asg| #[trigger] eval(self.bd(), 0, a) == 0, forall|a: Asg| #[trigger] eval(self.bd(), 1, a) == 1, forall|a: Asg| #[trigger] eval(self.bd(), 2, a) == 2,
           forall|a: Asg| tv(#[trigger] eval(self.bd(), id, a)),
           match self.mdd.nodes[id] {
             BNode::NonTerminal(n) => {
                 &&& n.header < self.mtmdd.headers.len() && n.header < self.mdd.headers.len() && self.mdd.hlevel(n.header as int) < usize::MAX && self.mdd.hlevel(n.header as int) == self.mtmdd.hlevel(n.header as int)
                 &&& n.nodes@.len() == self.mtmdd.headers@[n.header as int].edge_num && n.nodes@.len() == self.mdd.headers@[n.header as int].edge_num && n.nodes@.len() > 0
                 &&& forall|c: int| 0 <= c < n.nodes@.len() ==> self.mdd.live(#[trigger] n.nodes@[c] as int) && 0 <= self.mdd.lvl(n.nodes@[c] as int) < self.mdd.lvl(id)
                 &&& self.mdd.lvl(id) == self.mdd.hlevel(n.header as int) + 1
                 &&& forall|a: Asg| #[trigger] eval(self.bd(), id, a) == eval(self.bd(), n.nodes@[ix(n.nodes@.len() as int, a(self.mdd.hlevel(n.header as int)))] as int, a)
             },
             BNode::Zero => self.mdd.lvl(id) == 0 && id == 0,
             BNode::One => self.mdd.lvl(id) == 0 && id == 1,
             BNode::Undet => self.mdd.lvl(id) == 0 && id == 2,
           }
    { self.mdd.lemma_node(id); lemma_consts(self); }
}
pub proof fn lemma_consts(m: &MtMdd2Manager)
    requires m.wf()
    ensures m.mtmdd.undet == 0, m.mtmdd.live(0), m.mtmdd.lvl(0) == 0,
        m.mdd.zero == 0 && m.mdd.one == 1 && m.mdd.undet == 2, m.mdd.live(0), m.mdd.live(1), m.mdd.live(2), m.mdd.lvl(0) == 0 && m.mdd.lvl(1) == 0 && m.mdd.lvl(2) == 0,
        forall|a: Asg| #[trigger] eval(m.vd(), 0, a) == 0, forall|a: Asg| #[trigger] eval(m.bd(), 0, a) == 0, forall|a: Asg| #[trigger] eval(m.bd(), 1, a) == 1, forall|a: Asg| #[trigger] eval(m.bd(), 2, a) == 2,
{
    assert(m.mtmdd.live(0)) by { reveal(MtMddManager::wf); }
    assert(m.mdd.live(0)) by { reveal(MddManager::wf); }
    m.mtmdd.lemma_node(0); m.mdd.lemma_node(0);
}
// the operations of the composite forest, by kind of operand
pub enum Cmp { Eq, Ne, Lt, Le, Gt, Ge }
pub open spec fn cmpv(c: Cmp, x: int, y: int) -> bool { match c { Cmp::Eq => x == y, Cmp::Ne => x != y, Cmp::Lt => x < y, Cmp::Le => x <= y, Cmp::Gt => x > y, Cmp::Ge => x >= y } }
pub enum BinOp { V(MtMddOperation), B(MddOperation), C(Cmp) }
pub open spec fn bin_ok(m: &MtMdd2Manager, k: BinOp, f: Node, g: Node, r: Node) -> bool {
    match k {
        BinOp::V(o) => r is Value && (f is Value && g is Value ==> forall|a: Asg| #[trigger] m.ev(r, a) == opn(o, m.ev(f, a), m.ev(g, a))),
        BinOp::B(o) => r is Bool && (f is Bool && g is Bool ==> forall|a: Asg| mdd::val_ok(o, m.ev(f, a), m.ev(g, a), #[trigger] m.ev(r, a))),
        BinOp::C(c) => r is Bool && (f is Value && g is Value ==> forall|a: Asg| m.ev(f, a) != 0 && m.ev(g, a) != 0 ==> #[trigger] m.ev(r, a) == b2i(cmpv(c, dec(m.ev(f, a)), dec(m.ev(g, a)))))
            && ((c is Eq || c is Ne) && f is Bool && g is Bool ==> forall|a: Asg| is01(m.ev(f, a)) && is01(m.ev(g, a)) ==> #[trigger] m.ev(r, a) == b2i(cmpv(c, m.ev(f, a), m.ev(g, a)))),
    }
}
pub open spec fn not_ok(m: &MtMdd2Manager, f: Node, r: Node) -> bool { r is Bool && (f is Bool ==> forall|a: Asg| #[trigger] m.ev(r, a) == opv(MddOperation::Not, m.ev(f, a), 0)) }
pub open spec fn tern_ok(m: &MtMdd2Manager, f: Node, g: Node, h: Node, r: Node) -> bool {
    r is Value == g is Value && (f is Bool && g is Value == h is Value ==> forall|a: Asg| is01(m.ev(f, a)) ==> #[trigger] m.ev(r, a) == (if m.ev(f, a) == 1 { m.ev(g, a) } else { m.ev(h, a) }))
}
pub open spec fn nid(n: Node) -> usize { match n { Node::Value(v) => v, Node::Bool(b) => b } }
// each store keeps what its own roots reach
pub open spec fn kept2(o: &MtMdd2Manager, n: &MtMdd2Manager, roots: Seq<Node>) -> bool {
    exists|vr: Seq<usize>, br: Seq<usize>| #![trigger kept(o.vd(), n.vd(), mtmdd::base1(), vr), kept(o.bd(), n.bd(), base3(), br)]
        kept(o.vd(), n.vd(), mtmdd::base1(), vr) && kept(o.bd(), n.bd(), base3(), br)
        && (forall|x: usize| vr.contains(x) <==> roots.contains(Node::Value(x))) && (forall|x: usize| br.contains(x) <==> roots.contains(Node::Bool(x)))
}
// the node over these children, in the store they live in
pub open spec fn made(m: &MtMdd2Manager, l: int, ns: Seq<Node>, r: Node) -> bool {
    match r { Node::Value(v) => mbuilt(m.vd(), l, ns.map_values(|n: Node| nid(n)), v as int), Node::Bool(v) => mbuilt(m.bd(), l, ns.map_values(|n: Node| nid(n)), v as int) }
}
//@fn mddcore mtmdd2::MtMdd2Manager::new
    ensures r.wf(), r.mdd.headers@.len() == 0, r.mtmdd.headers@.len() == 0
//@exit
    proof { reveal(caches_ok); assert(headers_ok(vx_r.mdd.headers@)); assert(headers_ok(vx_r.mtmdd.headers@)); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::mdd
    ensures *r == self.mdd
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::mtmdd
    ensures *r == self.mtmdd
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::mdd_mut
    ensures *r == old(self).mdd, *final(self) == (MtMdd2Manager { mdd: *final(r), ..*old(self) })
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::mtmdd_mut
    ensures *r == old(self).mtmdd, *final(self) == (MtMdd2Manager { mtmdd: *final(r), ..*old(self) })
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::one
    requires self.wf() ensures r is Bool, self.live(r), forall|a: Asg| self.ev(r, a) == 1
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::zero
    requires self.wf() ensures r is Bool, self.live(r), forall|a: Asg| self.ev(r, a) == 0
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::undet_boolean
    requires self.wf() ensures r is Bool, self.live(r), forall|a: Asg| self.ev(r, a) == 2
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::undet_value
    requires self.wf() ensures r is Value, self.live(r), forall|a: Asg| self.ev(r, a) == 0
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::value
//@args value
    requires old(self).wf()
    ensures final(self).wf(), final(self).ext(old(self)), r is Value, final(self).live(r), forall|a: Asg| final(self).ev(r, a) == enc(value.v()), r matches Node::Value(x) && final(self).vd()[x as int] == SN::T(enc(value.v())) && final(self).mtmdd.lvl(x as int) == 0
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::create_header
//@args level label edge_num
    requires old(self).wf(), level < usize::MAX, edge_num > 0, old(self).mdd.headers.len() < u32::MAX,
        forall|i: int| 0 <= i < old(self).mdd.headers.len() && (#[trigger] old(self).mdd.headers[i]).level == level ==> old(self).mdd.headers[i].edge_num == edge_num,
    ensures final(self).wf(), final(self).vd() == old(self).vd(), final(self).bd() == old(self).bd(), r == old(self).mdd.headers.len(), final(self).mdd.headers.len() == r + 1,
        final(self).mdd.hlevel(r as int) == level, final(self).mdd.headers@[r as int].edge_num == edge_num, forall|i: int| 0 <= i < r ==> #[trigger] final(self).mdd.headers[i] == old(self).mdd.headers[i],
        final(self).mtmdd.headers@[r as int].label@ == label@, final(self).mdd.headers@[r as int].label@ == label@, forall|i: int| 0 <= i < r ==> #[trigger] final(self).mtmdd.headers[i] == old(self).mtmdd.headers[i],
//@entry
    proof { assert forall|i: int| 0 <= i < self.mtmdd.headers.len() && (#[trigger] self.mtmdd.headers[i]).level == level implies self.mtmdd.headers[i].edge_num == edge_num by { assert(self.mdd.headers[i].level == level); } }
//@exit
    proof { reveal(MddManager::wf); reveal(MtMddManager::wf); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::size
    requires self.wf()
    ensures r.0 == self.mtmdd.headers.len()
//@entry
    proof { reveal(MddManager::wf); reveal(MtMddManager::wf); reveal(caches_ok); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::create_node
//@args h nodes
    requires old(self).wf(), h < old(self).mdd.headers.len(), nodes@.len() == old(self).mdd.headers@[h as int].edge_num, nodes@.len() > 0,
        // children of one kind, below the variable
        forall|i: int| 0 <= i < nodes@.len() ==> old(self).live(#[trigger] nodes@[i]) && nodes@[i] is Value == nodes@[0] is Value
            && (match nodes@[i] { Node::Value(v) => old(self).mtmdd.lvl(v as int), Node::Bool(b) => old(self).mdd.lvl(b as int) }) <= old(self).mdd.hlevel(h as int),
    ensures final(self).wf(), final(self).ext(old(self)), final(self).live(r), r is Value == nodes@[0] is Value,
        forall|a: Asg| #[trigger] final(self).ev(r, a) == old(self).ev(nodes@[ix(nodes@.len() as int, a(old(self).mdd.hlevel(h as int)))], a),
        made(final(self), old(self).mdd.hlevel(h as int), nodes@, r),
//@loop 0
    *self == *old(self),
    forall|vx_j: int| 0 <= vx_j < $i ==> #[trigger] $v@[vx_j] == (match nodes@[vx_j] { Node::Value(v) => v, Node::Bool(b) => b }),
//@loopafter 0
    proof { assert(vx_v0@ =~= nodes@.map_values(|n: Node| nid(n))); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::bcache_get
//@args key
    requires self.wf(), self.mtmdd.live(key.1 as int), self.mtmdd.live(key.2 as int), !(key.0 is If)
    ensures r matches Some(v) ==> rel_ok(self.vd(), self.bd(), key.0, key.1 as int, key.2 as int, v as int)
//@entry
    proof { self.lemma_v(key.1 as int); self.lemma_v(key.2 as int); reveal(caches_ok); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::bcache_put
//@args key val
    requires old(self).wf(), bentry_ok(old(self).vd(), old(self).bd(), key.0.code_spec(), key.1 as int, key.2 as int, val as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).vd() == old(self).vd(), final(self).bd() == old(self).bd()
//@entry
    proof { self.lemma_v(key.1 as int); self.lemma_v(key.2 as int); self.lemma_b(val as int); reveal(caches_ok); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::vcache_get
//@args key
    requires self.wf(), self.mdd.live(key.1 as int), self.mtmdd.live(key.2 as int), key.0 is If
    ensures r matches Some(v) ==> if_ok(self.vd(), self.bd(), key.1 as int, key.2 as int, v as int)
//@entry
    proof { self.lemma_b(key.1 as int); self.lemma_v(key.2 as int); reveal(caches_ok); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::vcache_put
//@args key val
    requires old(self).wf(), ventry_ok(old(self).vd(), old(self).bd(), key.0.code_spec(), key.1 as int, key.2 as int, val as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).vd() == old(self).vd(), final(self).bd() == old(self).bd()
//@entry
    proof { self.lemma_b(key.1 as int); self.lemma_v(key.2 as int); self.lemma_v(val as int); reveal(caches_ok); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::vite_cache_get
//@args f g h
    requires self.wf(), self.mdd.live(f as int), self.mtmdd.live(g as int), self.mtmdd.live(h as int)
    ensures r matches Some(v) ==> vite_ok(self.vd(), self.bd(), f as int, g as int, h as int, v as int)
//@entry
    proof { self.lemma_b(f as int); self.lemma_v(g as int); self.lemma_v(h as int); reveal(caches_ok); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::vite_cache_put
//@args f g h val
    requires old(self).wf(), vite_ok(old(self).vd(), old(self).bd(), f as int, g as int, h as int, val as int)
    ensures final(self).wf(), final(self).ext(old(self)), final(self).vd() == old(self).vd(), final(self).bd() == old(self).bd()
//@entry
    proof { self.lemma_b(f as int); self.lemma_v(g as int); self.lemma_v(h as int); self.lemma_v(val as int); reveal(caches_ok); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::clear_cache
    requires old(self).wf()
    ensures final(self).wf(), final(self).ext(old(self)), final(self).vd() == old(self).vd(), final(self).bd() == old(self).bd()
//@entry
    proof { reveal(caches_ok); }
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::live_node_count
    requires self.wf()
    ensures r <= 2 * u32::MAX
//@end
//@fn mddcore mtmdd2::MtMdd2Manager::gc
//@args roots
    requires old(self).wf(), forall|i: int| 0 <= i < roots@.len() ==> old(self).live(#[trigger] roots@[i])
    ensures final(self).wf(),
        // each store keeps what its own roots reach
        kept2(old(self), final(self), roots@),
        final(self).mdd.headers@ == old(self).mdd.headers@, final(self).mtmdd.headers@ == old(self).mtmdd.headers@,
        r.0 == final(self).mtmdd.freelist@.len(), r.1 == final(self).mdd.freelist@.len(),
        forall|i: int| 0 <= i < roots@.len() ==> final(self).live(#[trigger] roots@[i]) && forall|a: Asg| #[trigger] final(self).ev(roots@[i], a) == old(self).ev(roots@[i], a),
//@loop 0
    *self == *old(self),
    forall|x: usize| #[trigger] vroots@.contains(x) <==> roots@.subrange(0, $i as int).contains(Node::Value(x)),
    forall|x: usize| #[trigger] broots@.contains(x) <==> roots@.subrange(0, $i as int).contains(Node::Bool(x)),
//@loopbegin 0
    let ghost vx_vr = vroots@; let ghost vx_br = broots@; let ghost vx_j0 = $i as int;
//@loopend 0
    proof { lemma_roots_step(roots@, vx_j0, vx_vr, vroots@, vx_br, broots@); }
//@loopafter 0
    proof {
        reveal(caches_ok);
        assert(roots@.subrange(0, roots@.len() as int) =~= roots@);
        assert forall|i: int| 0 <= i < vroots@.len() implies self.mtmdd.live(#[trigger] vroots@[i] as int) by { assert(vroots@.contains(vroots@[i])); let j = choose|j: int| 0 <= j < roots@.len() && roots@[j] == Node::Value(vroots@[i]); assert(self.live(roots@[j])); }
        assert forall|i: int| 0 <= i < broots@.len() implies self.mdd.live(#[trigger] broots@[i] as int) by { assert(broots@.contains(broots@[i])); let j = choose|j: int| 0 <= j < roots@.len() && roots@[j] == Node::Bool(broots@[i]); assert(self.live(roots@[j])); }
    }
//@exit
    proof {
        reveal(caches_ok);
        assert(kept(old(self).vd(), self.vd(), mtmdd::base1(), vroots@) && kept(old(self).bd(), self.bd(), base3(), broots@));
        assert forall|i: int| 0 <= i < roots@.len() implies self.live(#[trigger] roots@[i]) && forall|a: Asg| #[trigger] self.ev(roots@[i], a) == old(self).ev(roots@[i], a) by {
            assert(roots@.contains(roots@[i]));
            match roots@[i] { Node::Value(x) => { assert(vroots@.contains(x)); }, Node::Bool(x) => { assert(broots@.contains(x)); } }
        }
    }
//@end
pub proof fn lemma_roots_step(roots: Seq<Node>, i: int, vr: Seq<usize>, vr2: Seq<usize>, br: Seq<usize>, br2: Seq<usize>)
    requires 0 <= i < roots.len(),
        forall|x: usize| #[trigger] vr.contains(x) <==> roots.subrange(0, i).contains(Node::Value(x)),
        forall|x: usize| #[trigger] br.contains(x) <==> roots.subrange(0, i).contains(Node::Bool(x)),
        roots[i] matches Node::Value(x) ==> vr2 == vr.push(x) && br2 == br,
        roots[i] matches Node::Bool(x) ==> br2 == br.push(x) && vr2 == vr,
    ensures
        forall|x: usize| #[trigger] vr2.contains(x) <==> roots.subrange(0, i + 1).contains(Node::Value(x)),
        forall|x: usize| #[trigger] br2.contains(x) <==> roots.subrange(0, i + 1).contains(Node::Bool(x)),
{
    let s = roots.subrange(0, i); let t = roots.subrange(0, i + 1);
    assert(t =~= s.push(roots[i]));
    assert forall|n: Node| t.contains(n) <==> s.contains(n) || n == roots[i] by {
        if s.contains(n) { let j = choose|j: int| 0 <= j < s.len() && s[j] == n; assert(t[j] == n); }
        assert(t[i] == roots[i]);
    }
    match roots[i] { Node::Value(x) => { lemma_push_contains(vr, x); }, Node::Bool(x) => { lemma_push_contains(br, x); } }
}
//@fn mddcore mtmdd2_ops::MtMdd2Manager::and
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Bool, final(self).live(r),
        f is Bool && g is Bool ==> forall|a: Asg| mdd::val_ok(MddOperation::And, old(self).ev(f, a), old(self).ev(g, a), #[trigger] final(self).ev(r, a)),
        bin_ok(final(self), BinOp::B(MddOperation::And), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::or
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Bool, final(self).live(r),
        f is Bool && g is Bool ==> forall|a: Asg| mdd::val_ok(MddOperation::Or, old(self).ev(f, a), old(self).ev(g, a), #[trigger] final(self).ev(r, a)),
        bin_ok(final(self), BinOp::B(MddOperation::Or), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::xor
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Bool, final(self).live(r),
        f is Bool && g is Bool ==> forall|a: Asg| mdd::val_ok(MddOperation::XOr, old(self).ev(f, a), old(self).ev(g, a), #[trigger] final(self).ev(r, a)),
        bin_ok(final(self), BinOp::B(MddOperation::XOr), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::not
//@args f
    requires old(self).wf(), old(self).live(f)
    ensures final(self).wf(), final(self).ext(old(self)), r is Bool, final(self).live(r),
        f is Bool ==> forall|a: Asg| #[trigger] final(self).ev(r, a) == opv(MddOperation::Not, old(self).ev(f, a), 0),
        not_ok(final(self), f, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::add
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Value, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| #[trigger] final(self).ev(r, a) == opn(MtMddOperation::Add, old(self).ev(f, a), old(self).ev(g, a)),
        bin_ok(final(self), BinOp::V(MtMddOperation::Add), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::sub
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Value, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| #[trigger] final(self).ev(r, a) == opn(MtMddOperation::Sub, old(self).ev(f, a), old(self).ev(g, a)),
        bin_ok(final(self), BinOp::V(MtMddOperation::Sub), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::mul
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Value, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| #[trigger] final(self).ev(r, a) == opn(MtMddOperation::Mul, old(self).ev(f, a), old(self).ev(g, a)),
        bin_ok(final(self), BinOp::V(MtMddOperation::Mul), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::div
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Value, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| #[trigger] final(self).ev(r, a) == opn(MtMddOperation::Div, old(self).ev(f, a), old(self).ev(g, a)),
        bin_ok(final(self), BinOp::V(MtMddOperation::Div), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::max
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Value, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| #[trigger] final(self).ev(r, a) == opn(MtMddOperation::Max, old(self).ev(f, a), old(self).ev(g, a)),
        bin_ok(final(self), BinOp::V(MtMddOperation::Max), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::min
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Value, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| #[trigger] final(self).ev(r, a) == opn(MtMddOperation::Min, old(self).ev(f, a), old(self).ev(g, a)),
        bin_ok(final(self), BinOp::V(MtMddOperation::Min), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::veq
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).mtmdd.live(f as int), old(self).mtmdd.live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), rel_ok(final(self).vd(), final(self).bd(), MtMdd2Operation::Eq, f as int, g as int, r as int)
    decreases old(self).mtmdd.lvl(f as int) + old(self).mtmdd.lvl(g as int)
//@entry
    proof { self.lemma_v(f as int); self.lemma_v(g as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> rel_ok(self.vd(), self.bd(), MtMdd2Operation::Eq, $a0 as int, $a1 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::vlt
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).mtmdd.live(f as int), old(self).mtmdd.live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), rel_ok(final(self).vd(), final(self).bd(), MtMdd2Operation::Lt, f as int, g as int, r as int)
    decreases old(self).mtmdd.lvl(f as int) + old(self).mtmdd.lvl(g as int)
//@entry
    proof { self.lemma_v(f as int); self.lemma_v(g as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> rel_ok(self.vd(), self.bd(), MtMdd2Operation::Lt, $a0 as int, $a1 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::eq
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Bool, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| old(self).ev(f, a) != 0 && old(self).ev(g, a) != 0 ==> #[trigger] final(self).ev(r, a) == b2i(dec(old(self).ev(f, a)) == dec(old(self).ev(g, a))),
        f is Bool && g is Bool ==> forall|a: Asg| is01(old(self).ev(f, a)) && is01(old(self).ev(g, a)) ==> #[trigger] final(self).ev(r, a) == b2i(old(self).ev(f, a) == old(self).ev(g, a)),
        bin_ok(final(self), BinOp::C(Cmp::Eq), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::neq
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Bool, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| old(self).ev(f, a) != 0 && old(self).ev(g, a) != 0 ==> #[trigger] final(self).ev(r, a) == b2i(dec(old(self).ev(f, a)) != dec(old(self).ev(g, a))),
        f is Bool && g is Bool ==> forall|a: Asg| is01(old(self).ev(f, a)) && is01(old(self).ev(g, a)) ==> #[trigger] final(self).ev(r, a) == b2i(old(self).ev(f, a) != old(self).ev(g, a)),
        bin_ok(final(self), BinOp::C(Cmp::Ne), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::lt
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Bool, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| old(self).ev(f, a) != 0 && old(self).ev(g, a) != 0 ==> #[trigger] final(self).ev(r, a) == b2i(dec(old(self).ev(f, a)) < dec(old(self).ev(g, a))),
        bin_ok(final(self), BinOp::C(Cmp::Lt), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::lte
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Bool, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| old(self).ev(f, a) != 0 && old(self).ev(g, a) != 0 ==> #[trigger] final(self).ev(r, a) == b2i(dec(old(self).ev(f, a)) <= dec(old(self).ev(g, a))),
        bin_ok(final(self), BinOp::C(Cmp::Le), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::gt
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Bool, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| old(self).ev(f, a) != 0 && old(self).ev(g, a) != 0 ==> #[trigger] final(self).ev(r, a) == b2i(dec(old(self).ev(f, a)) > dec(old(self).ev(g, a))),
        bin_ok(final(self), BinOp::C(Cmp::Gt), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::gte
//@args f g
    requires old(self).wf(), old(self).live(f), old(self).live(g)
    ensures final(self).wf(), final(self).ext(old(self)), r is Bool, final(self).live(r),
        f is Value && g is Value ==> forall|a: Asg| old(self).ev(f, a) != 0 && old(self).ev(g, a) != 0 ==> #[trigger] final(self).ev(r, a) == b2i(dec(old(self).ev(f, a)) >= dec(old(self).ev(g, a))),
        bin_ok(final(self), BinOp::C(Cmp::Ge), f, g, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::ite
//@args f g h
    requires old(self).wf(), old(self).live(f), old(self).live(g), old(self).live(h), g is Value == h is Value
    ensures final(self).wf(), final(self).ext(old(self)), r is Value == g is Value, final(self).live(r),
        f is Bool ==> forall|a: Asg| is01(old(self).ev(f, a)) ==> #[trigger] final(self).ev(r, a) == (if old(self).ev(f, a) == 1 { old(self).ev(g, a) } else { old(self).ev(h, a) }),
        tern_ok(final(self), f, g, h, r),
//@entry
    proof { lemma_consts(self); }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::vif
//@attr #[verifier::spinoff_prover]
//@args f g
    requires old(self).wf(), old(self).mdd.live(f as int), old(self).mtmdd.live(g as int)
    ensures final(self).wf(), final(self).ext(old(self)), if_ok(final(self).vd(), final(self).bd(), f as int, g as int, r as int)
    decreases old(self).mdd.lvl(f as int) + old(self).mtmdd.lvl(g as int)
//@entry
    proof { self.lemma_b(f as int); self.lemma_v(g as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> if_ok(self.vd(), self.bd(), $a0 as int, $a1 as int, #[trigger] $v@[vx_j] as int),
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::vite_cofactor_b
//@args id top k
    requires self.wf(), self.mdd.live(id as int), self.mdd.lvl(id as int) <= top + 1, top < usize::MAX, k > 0, k == arity(self.mdd.headers@, top as int), exists|i: int| 0 <= i < self.mdd.headers@.len() && (#[trigger] self.mdd.headers@[i]).level == top
    ensures r@.len() == k, forall|c: int| 0 <= c < k ==> self.mdd.live(#[trigger] r@[c] as int) && 0 <= self.mdd.lvl(r@[c] as int) <= top && self.mdd.lvl(r@[c] as int) <= self.mdd.lvl(id as int),
        self.mdd.lvl(id as int) == top + 1 ==> forall|c: int| 0 <= c < k ==> self.mdd.lvl(#[trigger] r@[c] as int) < self.mdd.lvl(id as int),
        forall|a: Asg| #[trigger] eval(self.bd(), id as int, a) == eval(self.bd(), r@[ix(k as int, a(top as int))] as int, a)
//@entry
    proof { self.lemma_b(id as int); match self.mdd.nodes[id as int] { BNode::NonTerminal(n) => { lemma_arity(self.mdd.headers@, n.header as int); }, _ => {} } }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::vite_cofactor_v
//@args id top k
    requires self.wf(), self.mtmdd.live(id as int), self.mtmdd.lvl(id as int) <= top + 1, top < usize::MAX, k > 0, k == arity(self.mdd.headers@, top as int), exists|i: int| 0 <= i < self.mdd.headers@.len() && (#[trigger] self.mdd.headers@[i]).level == top
    ensures r@.len() == k, forall|c: int| 0 <= c < k ==> self.mtmdd.live(#[trigger] r@[c] as int) && 0 <= self.mtmdd.lvl(r@[c] as int) <= top && self.mtmdd.lvl(r@[c] as int) <= self.mtmdd.lvl(id as int),
        self.mtmdd.lvl(id as int) == top + 1 ==> forall|c: int| 0 <= c < k ==> self.mtmdd.lvl(#[trigger] r@[c] as int) < self.mtmdd.lvl(id as int),
        forall|a: Asg| #[trigger] eval(self.vd(), id as int, a) == eval(self.vd(), r@[ix(k as int, a(top as int))] as int, a)
//@entry
    proof { self.lemma_v(id as int); match self.mtmdd.nodes[id as int] { VNode::NonTerminal(n) => { lemma_arity(self.mdd.headers@, n.header as int); }, _ => {} } }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::vite_top_header
//@args f g h top
    requires self.wf(), self.mdd.live(f as int), self.mtmdd.live(g as int), self.mtmdd.live(h as int), top < usize::MAX,
       self.mdd.lvl(f as int) == top + 1 || self.mtmdd.lvl(g as int) == top + 1 || self.mtmdd.lvl(h as int) == top + 1
    ensures r.0 < self.mdd.headers.len(), self.mdd.hlevel(r.0 as int) == top, r.1 == self.mdd.headers@[r.0 as int].edge_num, r.1 > 0, r.1 == arity(self.mdd.headers@, top as int)
//@entry
    proof { self.lemma_b(f as int); self.lemma_v(g as int); self.lemma_v(h as int); assert forall|i: int| 0 <= i < self.mdd.headers@.len() implies arity(self.mdd.headers@, (#[trigger] self.mdd.headers@[i]).level as int) == self.mdd.headers@[i].edge_num by { lemma_arity(self.mdd.headers@, i); } }
//@end
//@fn mddcore mtmdd2_ops::MtMdd2Manager::vite
//@attr #[verifier::spinoff_prover]
//@args f g h
    requires old(self).wf(), old(self).mdd.live(f as int), old(self).mtmdd.live(g as int), old(self).mtmdd.live(h as int)
    ensures final(self).wf(), final(self).ext(old(self)), vite_ok(final(self).vd(), final(self).bd(), f as int, g as int, h as int, r as int)
    decreases old(self).mdd.lvl(f as int) + old(self).mtmdd.lvl(g as int) + old(self).mtmdd.lvl(h as int)
//@entry
    proof { self.lemma_b(f as int); self.lemma_v(g as int); self.lemma_v(h as int); }
//@mapinv
    self.wf(), self.ext(&$pre),
    forall|vx_j: int| 0 <= vx_j < $i ==> vite_ok(self.vd(), self.bd(), $a0 as int, $a1 as int, $a2 as int, #[trigger] $v@[vx_j] as int),
//@end

// number of occupied slots
pub open spec fn occ(s: Seq<[u32; 4]>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { occ(s.drop_last()) + (if s.last()@[3] != EMPTY { 1nat } else { 0nat }) }
}
pub proof fn lemma_occ_update(s: Seq<[u32; 4]>, i: int, x: [u32; 4])
    requires 0 <= i < s.len()
    ensures occ(s.update(i, x)) as int == occ(s) - (if s[i]@[3] != EMPTY { 1int } else { 0 }) + (if x@[3] != EMPTY { 1int } else { 0 })
    decreases s.len()
{
    let t = s.update(i, x);
    if i == s.len() - 1 {
        assert(t.drop_last() =~= s.drop_last());
    } else {
        assert(t.drop_last() =~= s.drop_last().update(i, x));
        lemma_occ_update(s.drop_last(), i, x);
    }
}
pub proof fn lemma_occ_bound(s: Seq<[u32; 4]>)
    ensures occ(s) <= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_occ_bound(s.drop_last()); } }
pub proof fn lemma_occ_pos(s: Seq<[u32; 4]>, i: int)
    requires 0 <= i < s.len(), s[i]@[3] != EMPTY
    ensures occ(s) > 0
    decreases s.len()
{ if i < s.len() - 1 { lemma_occ_pos(s.drop_last(), i); } }
pub proof fn lemma_occ_zero(s: Seq<[u32; 4]>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@[3] == EMPTY
    ensures occ(s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        assert(s[s.len() - 1]@[3] == EMPTY);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i])@[3] == EMPTY by { assert(s.drop_last()[i] == s[i]); }
        lemma_occ_zero(s.drop_last());
    }
}
// slot i holds the result v for the key (a, b, c)
pub open spec fn slot_has(s: Seq<[u32; 4]>, i: int, a: u32, b: u32, c: u32, v: u32) -> bool {
    0 <= i < s.len() && s[i]@[0] == a && s[i]@[1] == b && s[i]@[2] == c && s[i]@[3] == v && v != EMPTY
}
// some slot holds v for the key: an answer that `get` may give
pub open spec fn slots_have(s: Seq<[u32; 4]>, a: u32, b: u32, c: u32, v: u32) -> bool {
    exists|i: int| #[trigger] slot_has(s, i, a, b, c, v)
}
impl ComputeCache {
    pub open spec fn has(&self, a: u32, b: u32, c: u32, v: u32) -> bool { slots_have(self.slots@, a, b, c, v) }
    pub open spec fn wf(&self) -> bool {
        &&& self.slots@.len() >= 1
        &&& self.mask == self.slots@.len() - 1
        &&& self.slots@.len() <= 0x1_0000_0000
        &&& self.len == occ(self.slots@)
    }
}
//@fn common ComputeCache::new
    ensures r.wf(), forall|a: u32, b: u32, c: u32, v: u32| !#[trigger] r.has(a, b, c, v)
//@end
//@fn common ComputeCache::with_bits
    requires bits <= 32
    ensures r.wf(), forall|a: u32, b: u32, c: u32, v: u32| !#[trigger] r.has(a, b, c, v)
//@entry
    proof { assert(1 <= (1usize << bits) <= 0x1_0000_0000) by (bit_vector) requires bits <= 32; }
//@exit
    proof { lemma_occ_zero(vx_r.slots@); }
//@end
//@fn common ComputeCache::index
    requires self.wf()
    ensures r < self.slots@.len()
//@entry
    proof { assert forall|x: usize, m: usize| #[trigger] (x & m) <= m by { assert(x & m <= m) by (bit_vector); } }
//@end
//@fn common ComputeCache::get
    requires self.wf()
    ensures r matches Some(v) ==> v != u32::MAX && self.has(k0, k1, k2, v)
//@after index
    proof { if s[3] != EMPTY && s[0] == k0 && s[1] == k1 && s[2] == k2 { assert(exists|i: int| 0 <= i < self.slots@.len() && #[trigger] self.slots@[i] == s); let i = choose|i: int| 0 <= i < self.slots@.len() && #[trigger] self.slots@[i] == s; assert(slot_has(self.slots@, i, k0, k1, k2, s[3])); } }
//@end
//@fn common ComputeCache::put
    requires old(self).wf(), val != u32::MAX
    ensures final(self).wf(), final(self).has(k0, k1, k2, val),
        forall|a: u32, b: u32, c: u32, v: u32| #[trigger] final(self).has(a, b, c, v) ==> old(self).has(a, b, c, v) || (a == k0 && b == k1 && c == k2 && v == val)
//@entry
    proof { lemma_occ_bound(self.slots@); }
//@end
//@fn common ComputeCache::put_nogrow
    requires old(self).wf(), val != u32::MAX
    ensures final(self).wf(), final(self).has(k0, k1, k2, val), final(self).slots@.len() == old(self).slots@.len(),
        forall|a: u32, b: u32, c: u32, v: u32| #[trigger] final(self).has(a, b, c, v) ==> old(self).has(a, b, c, v) || (a == k0 && b == k1 && c == k2 && v == val)
//@entry
    proof { lemma_occ_bound(self.slots@); }
//@exit
    proof {
        let o = old(self).slots@; let n = self.slots@;
        lemma_occ_update(o, i as int, [k0, k1, k2, val]);
        lemma_occ_bound(n);
        assert(n =~= o.update(i as int, [k0, k1, k2, val]));
        assert(slot_has(n, i as int, k0, k1, k2, val));
        assert forall|a: u32, b: u32, c: u32, v: u32| #[trigger] self.has(a, b, c, v) implies old(self).has(a, b, c, v) || (a == k0 && b == k1 && c == k2 && v == val) by {
            let j = choose|j: int| #[trigger] slot_has(n, j, a, b, c, v);
            if j != i { assert(slot_has(o, j, a, b, c, v)); }
        }
    }
//@end
//@fn common ComputeCache::grow
    requires old(self).wf()
    ensures final(self).wf(),
        forall|a: u32, b: u32, c: u32, v: u32| #[trigger] final(self).has(a, b, c, v) ==> old(self).has(a, b, c, v)
//@loop 0
    self.wf(), old_v == *old(self),
    forall|a: u32, b: u32, c: u32, v: u32| #[trigger] self.has(a, b, c, v) ==> slots_have(old_v.slots@, a, b, c, v),
//@loopbegin 0
    proof { if old_v.slots@[$i as int]@[3] != EMPTY { let q = old_v.slots@[$i as int]@; assert(slot_has(old_v.slots@, $i as int, q[0], q[1], q[2], q[3])); } }
//@end
//@fn common ComputeCache::retain_live
    requires old(self).wf(),
        forall|a: u32, b: u32, c: u32, v: u32| #[trigger] old(self).has(a, b, c, v) ==> b < live.len() && c < live.len() && v < live.len()
    ensures final(self).wf(),
        forall|a: u32, b: u32, c: u32, v: u32| #[trigger] final(self).has(a, b, c, v) <==> old(self).has(a, b, c, v) && live@[b as int] && live@[c as int] && live@[v as int]
//@loop 0
    self.mask == old(self).mask, self.slots@.len() == old(self).slots@.len(), $n == old(self).slots@.len(),
    self.len == occ(self.slots@),
    forall|j: int| #![trigger self.slots@[j]] $i <= j < $n ==> self.slots@[j] == old(self).slots@[j],
    forall|j: int| #![trigger self.slots@[j]] 0 <= j < $i ==> ({ let o = old(self).slots@[j]@; let n = self.slots@[j]@;
        if o[3] == EMPTY || (live@[o[1] as int] && live@[o[2] as int] && live@[o[3] as int]) { n == o } else { n[3] == EMPTY } }),
//@loopbegin 0
    let ghost vx_s = self.slots@;
    proof { let q = self.slots@[$i as int]@; if q[3] != EMPTY { assert(slot_has(old(self).slots@, $i as int, q[0], q[1], q[2], q[3])); assert(old(self).has(q[0], q[1], q[2], q[3])); lemma_occ_pos(self.slots@, $i as int); } }
//@loopend 0
    proof { lemma_occ_update(vx_s, $i - 1, self.slots@[$i - 1]); assert(self.slots@ =~= vx_s.update($i - 1, self.slots@[$i - 1])); }
//@loopafter 0
    proof {
        assert forall|a: u32, b: u32, c: u32, v: u32| #[trigger] self.has(a, b, c, v) implies old(self).has(a, b, c, v) && live@[b as int] && live@[c as int] && live@[v as int] by {
            let j = choose|j: int| #[trigger] slot_has(self.slots@, j, a, b, c, v);
            assert(slot_has(old(self).slots@, j, a, b, c, v));
        }
        assert forall|a: u32, b: u32, c: u32, v: u32| old(self).has(a, b, c, v) && live@[b as int] && live@[c as int] && live@[v as int] implies #[trigger] self.has(a, b, c, v) by {
            let j = choose|j: int| #[trigger] slot_has(old(self).slots@, j, a, b, c, v);
            assert(self.slots@[j]@ == old(self).slots@[j]@);
            assert(slot_has(self.slots@, j, a, b, c, v));
        }
    }
//@end
//@fn common ComputeCache::retain_live3
    requires old(self).wf(),
        forall|a: u32, b: u32, c: u32, v: u32| #[trigger] old(self).has(a, b, c, v) ==> a < live.len() && b < live.len() && c < live.len() && v < live.len()
    ensures final(self).wf(),
        forall|a: u32, b: u32, c: u32, v: u32| #[trigger] final(self).has(a, b, c, v) <==> old(self).has(a, b, c, v) && live@[a as int] && live@[b as int] && live@[c as int] && live@[v as int]
//@loop 0
    self.mask == old(self).mask, self.slots@.len() == old(self).slots@.len(), $n == old(self).slots@.len(),
    self.len == occ(self.slots@),
    forall|j: int| #![trigger self.slots@[j]] $i <= j < $n ==> self.slots@[j] == old(self).slots@[j],
    forall|j: int| #![trigger self.slots@[j]] 0 <= j < $i ==> ({ let o = old(self).slots@[j]@; let n = self.slots@[j]@;
        if o[3] == EMPTY || (live@[o[0] as int] && live@[o[1] as int] && live@[o[2] as int] && live@[o[3] as int]) { n == o } else { n[3] == EMPTY } }),
//@loopbegin 0
    let ghost vx_s = self.slots@;
    proof { let q = self.slots@[$i as int]@; if q[3] != EMPTY { assert(slot_has(old(self).slots@, $i as int, q[0], q[1], q[2], q[3])); assert(old(self).has(q[0], q[1], q[2], q[3])); lemma_occ_pos(self.slots@, $i as int); } }
//@loopend 0
    proof { lemma_occ_update(vx_s, $i - 1, self.slots@[$i - 1]); assert(self.slots@ =~= vx_s.update($i - 1, self.slots@[$i - 1])); }
//@loopafter 0
    proof {
        assert forall|a: u32, b: u32, c: u32, v: u32| #[trigger] self.has(a, b, c, v) implies old(self).has(a, b, c, v) && live@[a as int] && live@[b as int] && live@[c as int] && live@[v as int] by {
            let j = choose|j: int| #[trigger] slot_has(self.slots@, j, a, b, c, v);
            assert(slot_has(old(self).slots@, j, a, b, c, v));
        }
        assert forall|a: u32, b: u32, c: u32, v: u32| old(self).has(a, b, c, v) && live@[a as int] && live@[b as int] && live@[c as int] && live@[v as int] implies #[trigger] self.has(a, b, c, v) by {
            let j = choose|j: int| #[trigger] slot_has(old(self).slots@, j, a, b, c, v);
            assert(self.slots@[j]@ == old(self).slots@[j]@);
            assert(slot_has(self.slots@, j, a, b, c, v));
        }
    }
//@end
//@fn common ComputeCache::clear
    requires old(self).wf()
    ensures final(self).wf(), forall|a: u32, b: u32, c: u32, v: u32| !#[trigger] final(self).has(a, b, c, v)
//@loop 0
    self.mask == old(self).mask, self.slots@.len() == old(self).slots@.len(), $n == old(self).slots@.len(),
    forall|j: int| 0 <= j < $i ==> (#[trigger] self.slots@[j])@[3] == EMPTY,
//@exit
    proof { lemma_occ_zero(self.slots@); assert forall|a: u32, b: u32, c: u32, v: u32| !#[trigger] self.has(a, b, c, v) by { if self.has(a, b, c, v) { let j = choose|j: int| #[trigger] slot_has(self.slots@, j, a, b, c, v); assert(self.slots@[j]@[3] == EMPTY); } } }
//@end
//@fn common ComputeCache::len
    ensures r == self.len, self.wf() ==> r <= 0x1_0000_0000
//@entry
    proof { if self.wf() { lemma_occ_bound(self.slots@); } }
//@end

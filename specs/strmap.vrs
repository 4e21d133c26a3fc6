// ---------------------------------------------------------------- trusted: std::collections::HashMap keyed by strings or ids
pub trait MapKey { type V; spec fn mk(&self) -> Self::V; }
impl MapKey for usize { type V = int; open spec fn mk(&self) -> int { *self as int } }
impl MapKey for str { type V = Seq<char>; open spec fn mk(&self) -> Seq<char> { self@ } }
impl MapKey for String { type V = Seq<char>; open spec fn mk(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::marker::PhantomData<(K, V)> }
impl<K: MapKey, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> IMap<K::V, V>;
    pub uninterp spec fn hlen(&self) -> nat;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == IMap::<K::V, V>::empty(), r.hlen() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == IMap::<K::V, V>::empty(), r.hlen() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.hlen() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: MapKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(k.mk()) { Some(&self@[k.mk()]) } else { None::<&V> })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.mk(), v), final(self).hlen() == (if old(self)@.dom().contains(k.mk()) { old(self).hlen() } else { old(self).hlen() + 1 })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: MapKey<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.mk()), final(self).hlen() == (if old(self)@.dom().contains(k.mk()) { old(self).hlen() - 1 } else { old(self).hlen() as int })
    { unimplemented!() }
    // entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn vx_entry_or(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.dom().contains(k.mk()) { old(self)@[k.mk()] } else { v }), final(self)@ == old(self)@.insert(k.mk(), *final(r)), final(self).hlen() == (if old(self)@.dom().contains(k.mk()) { old(self).hlen() } else { old(self).hlen() + 1 })
    { unimplemented!() }
}
impl Clone for HashMap<String, usize> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@, r.hlen() == self.hlen() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { m: std::marker::PhantomData<K> }
impl<K: KeyView> HashSet<K> {
    pub uninterp spec fn view(&self) -> ISet<K::V>;
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(k.kv()) { unimplemented!() }
}
impl<K: KeyView> Clone for HashSet<K> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}

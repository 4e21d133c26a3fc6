// ---------------------------------------------------------------- trusted helpers
// (every external_body item of this file is part of the trusted base; see DESIGN.md)
global size_of usize == 8;
pub type NodeId = usize;
pub type HeaderId = usize;
pub type Level = usize;

#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false
{ unreachable!() }

#[verifier::external_body]
pub fn vx_vec_of<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{ vec![x; n] }

#[verifier::external_body]
pub fn vx_to_string(s: &str) -> (r: String)
    ensures r@ == s@
{ s.to_string() }

// what `{}` prints
pub uninterp spec fn shown<T: ?Sized>(x: &T) -> Seq<char>;
// strings print as they are
pub axiom fn axiom_shown()
    ensures forall|s: &String| #[trigger] shown::<String>(s) == s@, forall|s: &&String| #[trigger] shown::<&String>(s) == s@, forall|s: &str| #[trigger] shown::<str>(s) == s@, forall|s: &&str| #[trigger] shown::<&str>(s) == s@;
#[verifier::external_body]
pub fn vx_fmt1<T: ?Sized>(a: &str, x: &T, b: &str) -> (r: String)
    ensures r@ == a@.add(shown(x)).add(b@)
{ let _ = x; let mut r = String::new(); r.push_str(a); r.push_str(b); r }

#[verifier::external_body]
pub fn vx_format() -> (r: String)
{ String::new() }

pub assume_specification [usize::trailing_zeros] (x: usize) -> (r: u32)
    ensures r <= 64;
pub assume_specification<T> [std::mem::replace::<T>] (d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;

pub assume_specification<T: std::cmp::PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && vstd::std_specs::cmp::PartialEqSpec::eq_spec(&#[trigger] s@[i], x);
pub assume_specification<'a, T: std::marker::Copy> [Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });

// std::collections::HashMap / HashSet with any hasher: a finite map.  Keys are
// compared through kv(k), which is the key itself for integer keys and the
// element sequence for Vec / boxed-slice keys.
pub trait KeyView: Sized {
    type V;
    spec fn kv(self) -> Self::V;
}
impl KeyView for usize { type V = int; open spec fn kv(self) -> int { self as int } }
impl KeyView for u32 { type V = int; open spec fn kv(self) -> int { self as int } }
impl KeyView for bool { type V = bool; open spec fn kv(self) -> bool { self } }
impl KeyView for Vec<u32> { type V = Seq<u32>; open spec fn kv(self) -> Seq<u32> { self@ } }
impl KeyView for Vec<usize> { type V = Seq<usize>; open spec fn kv(self) -> Seq<usize> { self@ } }
impl<A: KeyView> KeyView for Option<A> { type V = Option<A::V>; open spec fn kv(self) -> Option<A::V> { match self { Some(x) => Some(x.kv()), None => None } } }
impl<A: KeyView, B: KeyView> KeyView for (A, B) { type V = (A::V, B::V); open spec fn kv(self) -> (A::V, B::V) { (self.0.kv(), self.1.kv()) } }
impl<A: KeyView, B: KeyView, C: KeyView> KeyView for (A, B, C) { type V = (A::V, B::V, C::V); open spec fn kv(self) -> (A::V, B::V, C::V) { (self.0.kv(), self.1.kv(), self.2.kv()) } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BddHashMap<K, V> { m: std::marker::PhantomData<(K, V)> }
impl<K: KeyView, V> BddHashMap<K, V> {
    pub uninterp spec fn view(&self) -> IMap<K::V, V>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == IMap::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == IMap::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(k.kv()) { Some(&self@[k.kv()]) } else { None::<&V> })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(k.kv())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == IMap::<K::V, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.kv())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(x) => old(self)@.dom().contains(k.kv()) && *x == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(x)),
            None => !old(self)@.dom().contains(k.kv()) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    // entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn vx_entry_or(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.dom().contains(k.kv()) { old(self)@[k.kv()] } else { v }), final(self)@ == old(self)@.insert(k.kv(), *final(r))
    { unimplemented!() }
    // keys().copied().collect()
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: Vec<K>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).kv()),
            forall|k: K::V| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && r@[i].kv() == k,
    { unimplemented!() }
    #[verifier::external_body]
    // an allocation has at most isize::MAX bytes, an entry at least eight
    pub fn len(&self) -> (r: usize) ensures r <= usize::MAX / 16 { unimplemented!() }
    // HashMap::retain with a predicate that only reads the value
    #[verifier::external_body]
    pub fn retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        requires forall|k: K, v: V| old(self)@.dom().contains(k.kv()) && old(self)@[k.kv()] == v ==> call_requires(f, (&k, &v)),
        ensures
            forall|k: K::V| #[trigger] final(self)@.dom().contains(k) ==> old(self)@.dom().contains(k) && final(self)@[k] == old(self)@[k],
            forall|k: K| #![trigger final(self)@.dom().contains(k.kv())] old(self)@.dom().contains(k.kv()) ==> call_ensures(f, (&k, &old(self)@[k.kv()]), final(self)@.dom().contains(k.kv())),
            // the keys of the table are views of real keys
            forall|k: K::V| #[trigger] old(self)@.dom().contains(k) ==> exists|q: K| q.kv() == k,
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BddHashSet<K> { m: std::marker::PhantomData<K> }
impl<K: KeyView> BddHashSet<K> {
    pub uninterp spec fn view(&self) -> ISet<K::V>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == ISet::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == ISet::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures r == !old(self)@.contains(k.kv()), final(self)@ == old(self)@.insert(k.kv())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == ISet::<K::V>::empty() { unimplemented!() }
}

// ---------------------------------------------------------------- counting, for termination measures
pub open spec fn nfalse(s: Seq<bool>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { nfalse(s.drop_last()) + (if s.last() { 0nat } else { 1nat }) }
}
pub proof fn lemma_nfalse_update(s: Seq<bool>, i: int)
    requires 0 <= i < s.len(), !s[i]
    ensures nfalse(s.update(i, true)) + 1 == nfalse(s)
    decreases s.len()
{
    let t = s.update(i, true);
    if i == s.len() - 1 {
        assert(t.drop_last() =~= s.drop_last());
    } else {
        assert(t.drop_last() =~= s.drop_last().update(i, true));
        lemma_nfalse_update(s.drop_last(), i);
    }
}
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T]) ensures final(s)@ == old(s)@.reverse();

pub trait VxOrd: Sized { spec fn ov(self) -> int; }
impl VxOrd for usize { open spec fn ov(self) -> int { self as int } }
#[verifier::external_body]
pub fn vx_max<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if a.ov() > b.ov() { a } else { b }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_min<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if b.ov() < a.ov() { b } else { a }) { unimplemented!() }

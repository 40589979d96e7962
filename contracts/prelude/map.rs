// A stand-in for HashMap keyed by text (String keys, looked up by text).
verus! {
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { _k: core::marker::PhantomData<K>, _p: Vec<V> }
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View<V = Seq<char>>, V: View<V = Seq<char>>> HashMap<K, V> {
    pub open spec fn texts(&self) -> Map<Seq<char>, Seq<char>> { self@.map_values(|v: V| v@) }
}
impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures (r is Some) == self@.contains_key(k@), r is Some ==> *r->0 == self@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains_key(k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), (r is Some) == old(self)@.contains_key(k@), r is Some ==> r->0 == old(self)@[k@]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@), (r is Some) == old(self)@.contains_key(k@), r is Some ==> r->0 == old(self)@[k@]
    { unimplemented!() }
}
}

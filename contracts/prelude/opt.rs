// Option adaptors vstd does not cover (assumed behaviour of std).
verus! {
pub assume_specification<T, F: FnOnce(T) -> bool> [ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,)),
    ensures o is None ==> !r, o is Some ==> call_ensures(f, (o->0,), r);
pub assume_specification<T, U, F: FnOnce(T) -> U> [ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o->0,)),
    ensures o is None ==> r == d, o is Some ==> call_ensures(f, (o->0,), r);
}
verus! {
pub assume_specification<T> [ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });
}
verus! {
pub assume_specification<T, E, F, O: FnOnce(E) -> Result<T, F>> [ Result::<T, E>::or_else ](a: Result<T, E>, op: O) -> (r: Result<T, F>)
    requires a is Err ==> call_requires(op, (a->Err_0,)),
    ensures a is Ok ==> r == Result::<T, F>::Ok(a->Ok_0), a is Err ==> call_ensures(op, (a->Err_0,), r);
}
verus! {
pub assume_specification<T, P: FnOnce(&T) -> bool> [ Option::<T>::filter ](o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> call_requires(p, (&o->0,)),
    ensures
        r is Some ==> o is Some && r == o && call_ensures(p, (&o->0,), true),
        r is None && o is Some ==> call_ensures(p, (&o->0,), false);
}
verus! {
pub assume_specification<T: core::ops::Deref> [ Option::<T>::as_deref ](o: &Option<T>) -> (r: Option<&T::Target>)
    ensures (r is Some) == (o is Some), o is Some ==> call_ensures(T::deref, (&o->0,), r->0);
}

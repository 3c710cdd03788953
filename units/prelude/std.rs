// Assumed contracts of std functions that vstd has none for: each is the function's documentation.
pub mod p_std {
use vstd::prelude::*;
verus! {
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> p.requires((&o->0,))
    ensures r is Some ==> r == o && p.ensures((&o->0,), true), (o is Some && r is None) ==> p.ensures((&o->0,), false);
pub assume_specification<T, P: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, p: P) -> (r: bool)
    requires o is Some ==> p.requires((o->0,))
    ensures o is None ==> !r, o is Some ==> p.ensures((o->0,), r);
pub assume_specification<T, P: FnOnce(T) -> bool> [Option::<T>::is_none_or] (o: Option<T>, p: P) -> (r: bool)
    requires o is Some ==> p.requires((o->0,))
    ensures o is None ==> r, o is Some ==> p.ensures((o->0,), r);
pub assume_specification<T, U, P: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, d: U, p: P) -> (r: U)
    requires o is Some ==> p.requires((o->0,))
    ensures o is None ==> r == d, o is Some ==> p.ensures((o->0,), r);
pub assume_specification<T, U, D: FnOnce() -> U, P: FnOnce(T) -> U> [Option::<T>::map_or_else] (o: Option<T>, d: D, p: P) -> (r: U)
    requires o is Some ==> p.requires((o->0,)), o is None ==> d.requires(())
    ensures o is None ==> d.ensures((), r), o is Some ==> p.ensures((o->0,), r);
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { b });
pub assume_specification<T> [Option::<T>::xor] (o: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if o is Some && b is None { o } else if o is None && b is Some { b } else { None });
pub assume_specification<T, U> [Option::<T>::and] (o: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { b } else { None });
pub assume_specification<T, U> [Option::<T>::zip] (o: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (if o is Some && b is Some { Some((o->0, b->0)) } else { None });
pub assume_specification<T, P: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o is None ==> p.requires(())
    ensures o is Some ==> r == o, o is None ==> p.ensures((), r);
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, t: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(t);
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(t) => t, Err(_) => d });
pub assume_specification<T, E, F, P: FnOnce(E) -> Result<T, F>> [Result::<T, E>::or_else] (o: Result<T, E>, p: P) -> (r: Result<T, F>)
    requires o is Err ==> p.requires((o->Err_0,))
    ensures o is Ok ==> r == Ok::<T, F>(o->Ok_0), o is Err ==> p.ensures((o->Err_0,), r);
pub assume_specification<T, E, U, P: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (o: Result<T, E>, p: P) -> (r: Result<U, E>)
    requires o is Ok ==> p.requires((o->Ok_0,))
    ensures o is Err ==> r == Err::<U, E>(o->Err_0), o is Ok ==> p.ensures((o->Ok_0,), r);
pub assume_specification<T, E, U, P: FnOnce(T) -> U> [Result::<T, E>::map_or] (o: Result<T, E>, d: U, p: P) -> (r: U)
    requires o is Ok ==> p.requires((o->Ok_0,))
    ensures o is Err ==> r == d, o is Ok ==> p.ensures((o->Ok_0,), r);
pub assume_specification<T, E, P: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and] (o: Result<T, E>, p: P) -> (r: bool)
    requires o is Ok ==> p.requires((o->Ok_0,))
    ensures o is Err ==> !r, o is Ok ==> p.ensures((o->Ok_0,), r);
pub assume_specification<T: Clone> [<T as std::borrow::ToOwned>::to_owned] (t: &T) -> (r: T) ensures call_ensures(T::clone, (t,), r);
pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
} // verus!
} // mod

#![allow(unused)]
use vstd::prelude::*;
pub mod m_valid {
// Assumed contract of tailcall-valid's Valid: a value, or the causes why there is none, in order.
use vstd::prelude::*;
verus! {
#[verifier::external_body] #[verifier::accept_recursive_types(E)] pub struct Cause<E> { _p: core::marker::PhantomData<E> }
pub enum Out<A, E> { Good(A), Bad(Seq<Cause<E>>) }
#[verifier::external_body] #[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(E)] pub struct Valid<A, E> { _p: core::marker::PhantomData<(A, E)> }
pub uninterp spec fn traced<E>(c: Seq<Cause<E>>, m: Seq<char>) -> Seq<Cause<E>>;
impl<A, E> Valid<A, E> {
    pub uninterp spec fn out(&self) -> Out<A, E>;
    #[verifier::external_body] pub fn succeed(a: A) -> (r: Self) ensures r.out() == Out::<A, E>::Good(a) { unimplemented!() }
    #[verifier::external_body] pub fn fail(e: E) -> (r: Self) ensures r.out() is Bad, r.out()->Bad_0.len() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn is_succeed(&self) -> (r: bool) ensures r == self.out() is Good { unimplemented!() }
    #[verifier::external_body] pub fn is_fail(&self) -> (r: bool) ensures r == self.out() is Bad { unimplemented!() }
    #[verifier::external_body] pub fn trace(self, m: &str) -> (r: Self) ensures r.out() == (match self.out() { Out::Good(a) => Out::Good(a), Out::Bad(c) => Out::<A, E>::Bad(traced(c, m@)) }) { unimplemented!() }
    #[verifier::external_body] pub fn map<B, F: FnOnce(A) -> B>(self, f: F) -> (r: Valid<B, E>)
        requires self.out() is Good ==> f.requires((self.out()->Good_0,))
        ensures match self.out() { Out::Good(a) => r.out() is Good && f.ensures((a,), r.out()->Good_0), Out::Bad(c) => r.out() == Out::<B, E>::Bad(c) } { unimplemented!() }
    #[verifier::external_body] pub fn and_then<B, F: FnOnce(A) -> Valid<B, E>>(self, f: F) -> (r: Valid<B, E>)
        requires self.out() is Good ==> f.requires((self.out()->Good_0,))
        ensures match self.out() { Out::Good(a) => f.ensures((a,), r), Out::Bad(c) => r.out() == Out::<B, E>::Bad(c) } { unimplemented!() }
    #[verifier::external_body] pub fn fold<B, F: FnOnce(A) -> Valid<B, E>, G: FnOnce() -> Valid<B, E>>(self, f: F, g: G) -> (r: Valid<B, E>)
        requires self.out() is Good ==> f.requires((self.out()->Good_0,)), self.out() is Bad ==> g.requires(())
        ensures match self.out() { Out::Good(a) => f.ensures((a,), r), Out::Bad(c) => exists|q: Valid<B, E>| #[trigger] g.ensures((), q) && r.out() == Out::<B, E>::Bad(match q.out() { Out::Good(_) => c, Out::Bad(d) => c + d }) } { unimplemented!() }
}
} // verus!
}
use m_valid::*;
use std::marker::PhantomData;
pub mod std_ { pub mod marker { pub use std::marker::PhantomData; } }
verus! {
// ---- transformers: what they may answer to a value
pub trait Transform: Sized {
    type Value;
    type Error;
    spec fn may(&self, v: Self::Value, o: Out<Self::Value, Self::Error>) -> bool;
    fn transform(&self, value: Self::Value) -> (r: Valid<Self::Value, Self::Error>) ensures self.may(value, r.out());
}
pub uninterp spec fn preset<V>() -> V;
#[verifier::external_body] pub fn default_<V>() -> (r: V) ensures r == preset::<V>() { unimplemented!() }
//@ rewrite /Self::Value::default\(\)/ => default_::<Self::Value>()
//@ rewrite /: std::default::Default/ => : Sized
//@ item src/core/transform.rs :: struct When
//@ item src/core/transform.rs :: struct Pipe
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(E)]
//@ item src/core/transform.rs :: struct Default
pub trait TransformerOps: Sized + Transform {
    spec fn hint_(&self) -> bool;
//@ fn src/core/transform.rs :: trait TransformerOps :: fn pipe vis=none
//@   spec ensures r.0 == self, r.1 == other
//@ fn src/core/transform.rs :: trait TransformerOps :: fn generate vis=none
//@   spec ensures self.may(preset(), r.out())
//@ fn src/core/transform.rs :: trait TransformerOps :: fn when vis=none
//@   spec ensures r.0 == self, r.1 == cond
}
impl<A: Transform> Transform for When<A> {
    type Value = A::Value;
    type Error = A::Error;
    // the transformer if its condition holds, else nothing is done
    open spec fn may(&self, v: A::Value, o: Out<A::Value, A::Error>) -> bool { if self.1 { self.0.may(v, o) } else { o == Out::<A::Value, A::Error>::Good(v) } }
//@ fn src/core/transform.rs :: impl<A: Transform> Transform for When<A> :: fn transform vis=none
}
impl<A, E, X: Transform<Value = A, Error = E>, Y: Transform<Value = A, Error = E>> Transform for Pipe<X, Y> {
    type Value = A;
    type Error = E;
    // the second takes what the first gives; if the first fails, its causes are all there is
    open spec fn may(&self, v: A, o: Out<A, E>) -> bool { exists|m: Out<A, E>| #[trigger] self.0.may(v, m) && match m { Out::Good(x) => self.1.may(x, o), Out::Bad(c) => o == Out::<A, E>::Bad(c) } }
//@ fn src/core/transform.rs :: impl<A, E, X, Y> Transform for Pipe<X, Y> where X: Transform<Value = A, Error = E>, Y: Transform<Value = A, Error = E>, :: fn transform vis=none
//@   opt /Self::Value/ => A
//@   opt /Self::Error/ => E
//@   closure 1 |$0: A| -> (o: Valid<A, E>) ensures self.1.may($0, o.out())
}
impl<A, E> Transform for Default<A, E> {
    type Value = A;
    type Error = E;
    open spec fn may(&self, v: A, o: Out<A, E>) -> bool { o == Out::<A, E>::Good(v) }
//@ fn src/core/transform.rs :: impl<A, E> Transform for Default<A, E> :: fn transform vis=none
}
//@ fn src/core/transform.rs :: fn default
//@   spec ensures forall|v: A, o: Out<A, E>| #[trigger] r.may(v, o) ==> o == Out::<A, E>::Good(v)
// ---- folds that can fail
// a boxed fold: what it may answer
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(E)]
pub struct TryFoldFn<'a, I, O, E> { _p: PhantomData<(&'a I, O, E)> }
impl<'a, I, O, E> TryFoldFn<'a, I, O, E> {
    pub uninterp spec fn may(&self, i: I, o: O, r: Out<O, E>) -> bool;
    #[verifier::external_body] pub fn call_(&self, i: &I, o: O) -> (r: Valid<O, E>) ensures self.may(*i, o, r.out()) { unimplemented!() }
}
#[verifier::external_body] pub fn boxed_<'a, I, O, E, F: Fn(&I, O) -> Valid<O, E> + 'a>(f: F) -> (r: TryFoldFn<'a, I, O, E>)
    requires forall|i: &I, o: O| #[trigger] f.requires((i, o))
    ensures forall|i: I, o: O, x: Out<O, E>| #[trigger] r.may(i, o, x) ==> exists|v: Valid<O, E>| #[trigger] f.ensures((&i, o), v) && v.out() == x { unimplemented!() }
pub trait Copied: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(E)]
//@ item src/core/try_fold.rs :: struct TryFold
//@ rewrite /\bBox::new\(/ => boxed_(
//@ rewrite /\(self\.0\)\(/ => self.0.call_(
impl<'a, I, O, E> TryFold<'a, I, O, E> {
    pub open spec fn may(&self, i: I, o: O, r: Out<O, E>) -> bool { self.0.may(i, o, r) }
}
// one after the other: the second gets the first's state, or the state it had if the first failed; then all causes count
pub open spec fn both<I, O, E>(a: TryFold<I, O, E>, b: TryFold<I, O, E>, i: I, o: O, r: Out<O, E>) -> bool {
    exists|x: Out<O, E>| #[trigger] a.may(i, o, x) && match x {
        Out::Good(s) => b.may(i, s, r),
        Out::Bad(c) => exists|y: Out<O, E>| #[trigger] b.may(i, o, y) && r == Out::<O, E>::Bad(match y { Out::Good(_) => c, Out::Bad(d) => c + d }),
    }
}
impl<'a, I, O: Copied + 'a, E> TryFold<'a, I, O, E> {
//@ fn src/core/try_fold.rs :: impl<'a, I, O: Clone + 'a, E> TryFold<'a, I, O, E> :: fn try_fold
//@   spec ensures self.may(*input, state, r.out())
//@ fn src/core/try_fold.rs :: impl<'a, I, O: Clone + 'a, E> TryFold<'a, I, O, E> :: fn new
//@   sub /fn new\(f: impl Fn\(&I, O\) -> Valid<O, E> \+ 'a\)/ => fn new<F: Fn(&I, O) -> Valid<O, E> + 'a>(f: F)
//@   spec requires forall|i: &I, o: O| #[trigger] f.requires((i, o))
//@   | ensures forall|i: I, o: O, x: Out<O, E>| #[trigger] r.may(i, o, x) ==> exists|v: Valid<O, E>| #[trigger] f.ensures((&i, o), v) && v.out() == x
//@ fn src/core/try_fold.rs :: impl<'a, I, O: Clone + 'a, E> TryFold<'a, I, O, E> :: fn and
//@   closure 1 |$0: &I, $1: O| -> (q: Valid<O, E>) ensures both(self, other, *$0, $1, q.out())
//@   closure 2 |$0: O| -> (q: Valid<O, E>) ensures other.may(*input, $0, q.out())
//@   closure 3 || -> (q: Valid<O, E>) ensures other.may(*input, state, q.out())
//@   spec ensures forall|i: I, o: O, x: Out<O, E>| #[trigger] r.may(i, o, x) ==> both(self, other, i, o, x)
//@ fn src/core/try_fold.rs :: impl<'a, I, O: Clone + 'a, E> TryFold<'a, I, O, E> :: fn empty
//@   closurelet 1 |a0: &I, a1: O| -> (q: Valid<O, E>) ensures q.out() == Out::<O, E>::Good(a1)
//@   spec ensures forall|i: I, o: O, x: Out<O, E>| #[trigger] r.may(i, o, x) ==> x == Out::<O, E>::Good(o)
//@ fn src/core/try_fold.rs :: impl<'a, I, O: Clone + 'a, E> TryFold<'a, I, O, E> :: fn trace
//@   closure 1 |$0: &I, $1: O| -> (q: Valid<O, E>) ensures exists|x: Out<O, E>| #[trigger] self.may(*$0, $1, x) && q.out() == (match x { Out::Good(a) => Out::Good(a), Out::Bad(c) => Out::<O, E>::Bad(traced(c, msg@)) })
//@   spec ensures forall|i: I, o: O, y: Out<O, E>| #[trigger] r.may(i, o, y) ==> exists|x: Out<O, E>| #[trigger] self.may(i, o, x) && y == (match x { Out::Good(a) => Out::Good(a), Out::Bad(c) => Out::<O, E>::Bad(traced(c, msg@)) })
//@ fn src/core/try_fold.rs :: impl<'a, I, O: Clone + 'a, E> TryFold<'a, I, O, E> :: fn transform_valid
//@   sub /<O1: Clone>/ => <O1: Copied, U: Fn(O, O1) -> Valid<O1, E> + 'a, D: Fn(O1) -> Valid<O, E> + 'a>
//@   sub /up: impl Fn\(O, O1\) -> Valid<O1, E> \+ 'a/ => up: U
//@   sub /down: impl Fn\(O1\) -> Valid<O, E> \+ 'a/ => down: D
//@   closure 1 |$0: &I, $1: O1| -> (q: Valid<O1, E>) ensures around(self, up, down, *$0, $1, q.out())
//@   spec requires forall|o: O1| #[trigger] down.requires((o,)), forall|o: O, p: O1| #[trigger] up.requires((o, p))
//@   | ensures forall|i: I, o: O1, x: Out<O1, E>| #[trigger] r.may(i, o, x) ==> around(self, up, down, i, o, x)
//@   closure 2 |$0: O| -> (q: Valid<O, E>) ensures self.may(*i, $0, q.out())
//@   closure 3 |$0: O| -> (q: Valid<O1, E>) ensures up.ensures(($0, o1), q)
//@ fn src/core/try_fold.rs :: impl<'a, I, O: Clone + 'a, E> TryFold<'a, I, O, E> :: fn transform
//@   sub /<O1: Clone>/ => <O1: Copied, U: Fn(O, O1) -> O1 + 'a, D: Fn(O1) -> O + 'a>
//@   sub /up: impl Fn\(O, O1\) -> O1 \+ 'a/ => up: U
//@   sub /down: impl Fn\(O1\) -> O \+ 'a/ => down: D
//@   closure 1 |$0: O, $1: O1| -> (q: Valid<O1, E>) ensures q.out() is Good && up.ensures(($0, $1), q.out()->Good_0)
//@   closure 2 |$0: O1| -> (q: Valid<O, E>) ensures q.out() is Good && down.ensures(($0,), q.out()->Good_0)
//@   spec requires forall|o: O1| #[trigger] down.requires((o,)), forall|o: O, p: O1| #[trigger] up.requires((o, p))
//@   | ensures forall|i: I, o: O1, x: Out<O1, E>| #[trigger] r.may(i, o, x) ==> within(self, up, down, i, o, x)
//@ fn src/core/try_fold.rs :: impl<'a, I, O: Clone + 'a, E> TryFold<'a, I, O, E> :: fn update
//@   sub /update\(self, f: impl Fn\(O\) -> O \+ 'a\)/ => update<F: Fn(O) -> O + 'a>(self, f: F)
//@   closurelet 1 |a0: O, a1: O| -> (q: O) ensures f.ensures((a0,), q)
//@   closure 2 |$0: O| -> (q: O) ensures q == $0
//@   spec requires forall|o: O| #[trigger] f.requires((o,))
//@   | ensures forall|i: I, o: O, x: Out<O, E>| #[trigger] r.may(i, o, x) ==> exists|m: Out<O, E>| #[trigger] self.may(i, o, m) && match m { Out::Good(s) => x is Good && f.ensures((s,), x->Good_0), Out::Bad(c) => x == Out::<O, E>::Bad(c) }
//@ fn src/core/try_fold.rs :: impl<'a, I, O: Clone, E> FromIterator<TryFold<'a, I, O, E>> for TryFold<'a, I, O, E> :: fn from_iter vis=pub
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   sub /<T: IntoIterator<Item = TryFold<'a, I, O, E>>>/ => <T: Many<TryFold<'a, I, O, E>>>
//@   start broadcast use lemma_all;
//@   spec ensures forall|i: I, o: O, x: Out<O, E>| #[trigger] r.may(i, o, x) ==> all(iter.rest(), i, o, x)
}
// brought down to the fold's own state, folded, and brought up again
pub open spec fn around<I, O, O1, E, U: Fn(O, O1) -> Valid<O1, E>, D: Fn(O1) -> Valid<O, E>>(t: TryFold<I, O, E>, up: U, down: D, i: I, o: O1, x: Out<O1, E>) -> bool {
    exists|d: Valid<O, E>| #[trigger] down.ensures((o,), d) && match d.out() {
        Out::Bad(c) => x == Out::<O1, E>::Bad(c),
        Out::Good(s) => exists|m: Out<O, E>| #[trigger] t.may(i, s, m) && match m {
            Out::Bad(c) => x == Out::<O1, E>::Bad(c),
            Out::Good(s2) => exists|u: Valid<O1, E>| #[trigger] up.ensures((s2, o), u) && u.out() == x,
        },
    }
}
pub open spec fn within<I, O, O1, E, U: Fn(O, O1) -> O1, D: Fn(O1) -> O>(t: TryFold<I, O, E>, up: U, down: D, i: I, o: O1, x: Out<O1, E>) -> bool {
    exists|s: O, m: Out<O, E>| #![trigger t.may(i, s, m)] down.ensures((o,), s) && t.may(i, s, m) && match m {
        Out::Bad(c) => x == Out::<O1, E>::Bad(c),
        Out::Good(s2) => x is Good && up.ensures((s2, o), x->Good_0),
    }
}
// std's iterators
pub trait Many<T>: Sized {
    spec fn rest(&self) -> Seq<T>;
    fn into_iter(self) -> (r: Rest<T>) ensures r.left() == self.rest();
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Rest<T> { _p: PhantomData<T> }
impl<T> Rest<T> {
    pub uninterp spec fn left(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>) ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(), old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().drop_first() { unimplemented!() }
}
impl<T> Many<T> for Rest<T> {
    open spec fn rest(&self) -> Seq<T> { self.left() }
    #[verifier::external_body] fn into_iter(self) -> (r: Rest<T>) { unimplemented!() }
}
pub open spec fn seen<T>(t: T) -> bool { true }
// all of them, one after the other
pub open spec fn all<I, O, E>(fs: Seq<TryFold<I, O, E>>, i: I, o: O, x: Out<O, E>) -> bool decreases fs.len() {
    if fs.len() == 0 { x == Out::<O, E>::Good(o) } else { exists|m: Out<O, E>| #[trigger] fs[0].may(i, o, m) && match m {
        Out::Good(s) => all(fs.drop_first(), i, s, x),
        Out::Bad(c) => exists|y: Out<O, E>| #[trigger] seen(y) && all(fs.drop_first(), i, o, y) && x == Out::<O, E>::Bad(match y { Out::Good(_) => c, Out::Bad(d) => c + d }),
    } }
}
pub broadcast proof fn lemma_all<I, O, E>(t: TryFold<I, O, E>, fs: Seq<TryFold<I, O, E>>, i: I, o: O, x: Out<O, E>)
    requires fs.len() > 0, #[trigger] both(fs[0], t, i, o, x), forall|o: O, x: Out<O, E>| #[trigger] t.may(i, o, x) ==> all(fs.drop_first(), i, o, x)
    ensures #[trigger] all(fs, i, o, x)
{
    let m = choose|m: Out<O, E>| #[trigger] fs[0].may(i, o, m) && match m {
        Out::Good(s) => t.may(i, s, x),
        Out::Bad(c) => exists|y: Out<O, E>| #[trigger] t.may(i, o, y) && x == Out::<O, E>::Bad(match y { Out::Good(_) => c, Out::Bad(d) => c + d }),
    };
    assert(fs[0].may(i, o, m));
    if m is Bad { let y = choose|y: Out<O, E>| #[trigger] t.may(i, o, y) && x == Out::<O, E>::Bad(match y { Out::Good(_) => m->Bad_0, Out::Bad(d) => m->Bad_0 + d }); assert(seen(y)); }
}
} // verus!
fn main() {}

#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/std.rs
//@ include prelude/valid.rs
pub mod m_tree {
// Assumed shapes of what an IR is made of, and of what it is evaluated with, as far as used here.
use vstd::prelude::*;
verus! {
// a map, as its entries
pub struct HashMap<K, V> { pub entries: Vec<(K, V)> }
pub open spec fn entry<V>(m: HashMap<String, V>, k: int, name: Seq<char>) -> bool { 0 <= k < m.entries@.len() && m.entries@[k].0@ == name }
pub open spec fn at<V>(m: HashMap<String, V>, name: Seq<char>) -> int { choose|k: int| entry(m, k, name) }
pub type IndexMap<K, V> = HashMap<K, V>;
#[verifier::external_body] pub struct Value { _p: () }
pub type ConstValue = Value;
#[verifier::external_body] pub struct Name { _p: () }
#[verifier::external_body] pub struct Mustache { _p: () }
#[verifier::external_body] pub struct Discriminator { _p: () }
#[verifier::external_body] pub struct GroupBy { _p: () }
#[verifier::external_body] pub struct WorkerHooks { _p: () }
pub mod http { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct RequestTemplate { _p: () } } }
pub mod graphql { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct RequestTemplate { _p: () } } }
pub mod grpc { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct RequestTemplate { _p: () } } }
#[derive(Clone, Copy)]
pub struct DataLoaderId(pub usize);
#[derive(Clone, Copy)]
pub struct NonZeroU64 { pub n: u64 }
#[verifier::external_body] pub struct HeaderMap { _p: () }
pub struct RequestContext { pub allowed_headers: HeaderMap, pub runtime: Runtime }
pub struct Runtime { pub cache: Cache_ }
#[verifier::external_body] pub struct Cache_ { _p: () }
#[verifier::external_body] pub struct IoId { _p: () }
impl Cache_ {
    #[verifier::external_body] pub fn get(&self, k: &IoId) -> (r: Result<Option<Value>, Error>) ensures r is Err ==> !denial(r->Err_0) { unimplemented!() }
    #[verifier::external_body] pub fn set(&self, k: IoId, v: Value, n: NonZeroU64) -> (r: Result<(), Error>) ensures r is Err ==> !denial(r->Err_0) { unimplemented!() }
}
// one provider, and which requests it lets in (proved in the unit auth)
#[verifier::external_body] pub struct Provider { _p: () }
pub uninterp spec fn passes(p: Provider, h: HeaderMap) -> bool;
// an error: that the request was not let in, or something else
#[verifier::external_body] pub struct Error { _p: () }
pub uninterp spec fn denial(e: Error) -> bool;
impl Error {
    #[verifier::external_body] pub fn ExprEval(s: String) -> (r: Self) ensures !denial(r) { unimplemented!() }
    #[verifier::external_body] pub fn Entity(s: String) -> (r: Self) ensures !denial(r) { unimplemented!() }
}
// what a resolver is evaluated in; the types of the entities that are asked for come from the arguments
#[verifier::external_body] pub struct Args { _p: () }
pub uninterp spec fn asked(a: Args) -> Seq<Seq<char>>;
#[allow(non_snake_case)]
pub struct EvalContext<'a, Ctx> { pub request_ctx: &'a RequestContext, pub args_: Ghost<Args>, pub ctx_: core::marker::PhantomData<Ctx>,
    // the calls that were made with this context itself
    pub calls_: Ghost<nat> }
impl<'a, Ctx> Clone for EvalContext<'a, Ctx> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a, Ctx> EvalContext<'a, Ctx> {
    #[verifier::external_body] pub fn path_value(&self, p: &Vec<String>) -> Option<Value> { unimplemented!() }
    #[verifier::external_body] pub fn with_args(&self, a: Value) -> (r: Self) ensures r.request_ctx == self.request_ctx { unimplemented!() }
    #[verifier::external_body] pub fn with_value(&mut self, a: Value) -> (r: Self) ensures *final(self) == *old(self), r == *old(self) { unimplemented!() }
    // the argument `representations`, if there is one
    #[verifier::external_body] pub fn representations_(&self) -> (r: Option<Value>) { unimplemented!() }
    // that argument as an array
    #[verifier::external_body] pub fn items_<'b>(&self, v: Option<&'b Value>) -> (r: Option<&'b Vec<Value>>)
        ensures r is Some ==> (r->0)@.len() == asked(self.args_@).len() && forall|i: int| 0 <= i < (r->0)@.len() ==> #[trigger] type_of((r->0)@[i]) == Some(asked(self.args_@)[i]) || type_of((r->0)@[i]) is None { unimplemented!() }
}
pub uninterp spec fn type_of(v: Value) -> Option<Seq<char>>;
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Value {
    #[verifier::external_body] pub fn null_() -> Value { unimplemented!() }
    #[verifier::external_body] pub fn array_(v: Vec<Value>) -> Value { unimplemented!() }
    #[verifier::external_body] pub fn get_path<'b>(&'b self, p: &Vec<String>) -> Option<&'b Value> { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> Value { unimplemented!() }
    #[verifier::external_body] pub fn get_type_name<'b>(&'b self) -> (r: Option<&'b str>) ensures match r { Some(s) => type_of(*self) == Some(s@), None => type_of(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn set_type_name(&mut self, s: String) -> (r: Result<(), Error>) ensures r is Err ==> !denial(r->Err_0) { unimplemented!() }
}
impl Discriminator { #[verifier::external_body] pub fn resolve_type(&self, v: Value) -> (r: Result<Value, Error>) ensures r is Err ==> !denial(r->Err_0) { unimplemented!() } }
#[verifier::external_body] pub fn null_of_(v: Option<Value>) -> Value { unimplemented!() }
#[verifier::external_body] pub fn merged_(v: Vec<Value>) -> Value { unimplemented!() }
#[verifier::external_body] pub fn service_(s: &String) -> Value { unimplemented!() }
#[verifier::external_body] pub fn mapped_(v: Result<Value, Error>, m: &HashMap<String, String>) -> (r: Result<Value, Error>) ensures v is Err ==> r == v, v is Ok && r is Err ==> !denial(r->Err_0) { unimplemented!() }
// `collect` of results: all of them, or the first error
#[verifier::external_body] pub fn all_ok_(v: Vec<Result<Value, Error>>) -> (r: Result<Vec<Value>, Error>)
    ensures match r { Ok(_) => forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Ok, Err(e) => exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == Err::<Value, Error>(e) } { unimplemented!() }
#[verifier::external_body] pub struct Obj_ { _p: () }
impl Obj_ { #[verifier::external_body] pub fn new() -> Obj_ { unimplemented!() } #[verifier::external_body] pub fn insert_key(&mut self, k: &str, v: Value) { unimplemented!() } }
pub trait Own_ { type O; fn own_(&self) -> Self::O; }
impl Own_ for str { type O = String; #[verifier::external_body] fn own_(&self) -> String { unimplemented!() } }
impl Own_ for NonZeroU64 { type O = NonZeroU64; #[verifier::external_body] fn own_(&self) -> NonZeroU64 { unimplemented!() } }
impl Value { #[verifier::external_body] pub fn string(s: String) -> Value { unimplemented!() } #[verifier::external_body] pub fn object(o: Obj_) -> Value { unimplemented!() } }
impl<V> HashMap<String, V> { #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(x) => entry(*self, at(*self, k@), k@) && *x == self.entries@[at(*self, k@)].1, None => true } { unimplemented!() } }
#[verifier::external_body] pub fn text_() -> String { unimplemented!() }
} // verus!
}
use m_tree::*;
pub mod m_plan {
// Assumed shape of an operation plan, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] pub struct Rest { _p: () }
pub struct Field<Input> { pub ir: Option<IR>, pub selection: Vec<Field<Input>>, pub arg: Option<Input>, pub rest_: Rest }
pub struct OperationPlan<Input> { pub before: Option<IR>, pub selection: Vec<Field<Input>>, pub rest_: Rest }
pub struct Infallible { }
#[verifier::external_body] pub fn default_() -> (r: DynamicValue<Value>) { unimplemented!() }
// what a left-to-right reduction has after each item
pub open spec fn partials<T, F: Fn(T, T) -> T>(s: Seq<T>, f: F, q: Seq<T>) -> bool {
    q.len() == s.len() && s.len() > 0 && q[0] == s[0] && forall|i: int| 1 <= i < s.len() ==> f.ensures((q[i - 1], s[i]), #[trigger] q[i])
}
#[verifier::external_body] pub fn reduce_<T, F: Fn(T, T) -> T>(v: Vec<T>, f: F) -> (r: Option<T>) requires forall|a: T, b: T| #[trigger] f.requires((a, b)) ensures match r { None => v@.len() == 0, Some(x) => exists|q: Seq<T>| #[trigger] partials(v@, f, q) && x == q.last() } { unimplemented!() }
pub open spec fn joins<F: Fn(Auth, Auth) -> Auth>(f: F) -> bool { forall|a: Auth, b: Auth, c: Auth, h: HeaderMap| #![trigger f.ensures((a, b), c), lets_in(c, h)] f.ensures((a, b), c) ==> lets_in(c, h) == (lets_in(a, h) && lets_in(b, h)) }
pub proof fn lemma_reduced<F: Fn(Auth, Auth) -> Auth>(s: Seq<Auth>, f: F, n: int, q: Seq<Auth>, h: HeaderMap)
    requires joins(f), 1 <= n <= s.len(), partials(s, f, q) ensures lets_in(q[n - 1], h) == all_in(s.take(n), h) decreases n
{
    let t = s.take(n);
    if n <= 1 { assert(t[0] == s[0]); } else {
        let u = s.take(n - 1);
        lemma_reduced(s, f, n - 1, q, h);
        assert(f.ensures((q[n - 1 - 1], s[n - 1]), q[n - 1]));
        assert(lets_in(q[n - 1], h) == (lets_in(q[n - 2], h) && lets_in(s[n - 1], h)));
        assert(t[n - 1] == s[n - 1]);
        if all_in(u, h) && lets_in(s[n - 1], h) { assert forall|i: int| 0 <= i < t.len() implies lets_in(#[trigger] t[i], h) by { if i < n - 1 { assert(u[i] == t[i]); } } }
        if all_in(t, h) { assert forall|i: int| 0 <= i < u.len() implies lets_in(#[trigger] u[i], h) by { assert(t[i] == u[i]); } }
    }
}
pub trait ReduceAuth { spec fn auths(self) -> Seq<Auth>; fn reduce_auth_<F: Fn(Auth, Auth) -> Auth>(self, f: F) -> (r: Option<Auth>) requires forall|a: Auth, b: Auth| #[trigger] f.requires((a, b)), joins(f) ensures match r { None => self.auths().len() == 0, Some(x) => self.auths().len() > 0 && forall|h: HeaderMap| #[trigger] lets_in(x, h) == all_in(self.auths(), h) }; }
impl ReduceAuth for Vec<Auth> {
    open spec fn auths(self) -> Seq<Auth> { self@ }
    fn reduce_auth_<F: Fn(Auth, Auth) -> Auth>(self, f: F) -> (r: Option<Auth>) {
        let ghost s = self@; let ghost g = f;
        let r = reduce_(self, f);
        proof { if r is Some { let x = r->0; let q = choose|q: Seq<Auth>| #[trigger] partials(s, g, q) && x == q.last(); assert(s.take(s.len() as int) =~= s); assert forall|h: HeaderMap| #[trigger] lets_in(x, h) == all_in(s, h) by { lemma_reduced(s, g, s.len() as int, q, h); } } }
        r
    }
}
} // verus!
}
use m_plan::*;
verus! {
//@ item src/core/blueprint/auth.rs :: enum Auth
//@ item src/core/blueprint/dynamic_value.rs :: enum DynamicValue
//@ rewrite /#\[strum[^\]]*\]/ =>
//@ item src/core/ir/model.rs :: enum IR
//@ item src/core/ir/model.rs :: struct Map
//@ item src/core/ir/model.rs :: enum IO
//@ item src/core/ir/model.rs :: struct Cache
impl Clone for IR { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Auth { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// ---- what the property says
// a value of this resolver may be given to the request: of everything that the value is made from (of entities: of the types t that are asked for; nothing is said of entities behind a pipe, where there are none)
pub open spec fn allowed(ir: IR, h: HeaderMap, t: Option<Seq<Seq<char>>>) -> bool decreases ir {
    match ir {
        IR::Dynamic(_) | IR::IO(_) | IR::Cache(_) | IR::ContextPath(_) | IR::Service(_) => true,
        IR::Protect(a, x) => lets_in(a, h) && allowed(*x, h, t),
        IR::Path(x, _) => allowed(*x, h, t),
        IR::Map(m) => allowed(*m.input, h, t),
        IR::Pipe(x, y) => allowed(*x, h, t) && allowed(*y, h, None),
        IR::Merge(v) => forall|i: int| 0 <= i < v@.len() ==> allowed(#[trigger] v@[i], h, t),
        IR::Discriminate(_, x) => allowed(*x, h, t),
        IR::Entity(m) => t is Some ==> forall|i: int| #![trigger (t->0)[i]] 0 <= i < (t->0).len() ==> entry(m, at(m, (t->0)[i]), (t->0)[i]) && allowed(m.entries@[at(m, (t->0)[i])].1, h, t),
    }
}
// the rules that are everywhere in this resolver let the request in
pub open spec fn clear(ir: IR, h: HeaderMap) -> bool decreases ir {
    match ir {
        IR::Dynamic(_) | IR::IO(_) | IR::Cache(_) | IR::ContextPath(_) | IR::Service(_) => true,
        IR::Protect(a, x) => lets_in(a, h) && clear(*x, h),
        IR::Path(x, _) => clear(*x, h),
        IR::Map(m) => clear(*m.input, h),
        IR::Pipe(x, y) => clear(*x, h) && clear(*y, h),
        IR::Merge(v) => forall|i: int| 0 <= i < v@.len() ==> clear(#[trigger] v@[i], h),
        IR::Discriminate(_, x) => clear(*x, h),
        IR::Entity(m) => forall|i: int| 0 <= i < m.entries@.len() ==> clear((#[trigger] m.entries@[i]).1, h),
    }
}
// the rules that are taken out of a resolver, to be checked before anything is done
pub open spec fn demands(ir: IR, h: HeaderMap) -> bool decreases ir {
    match ir {
        IR::Dynamic(_) | IR::IO(_) | IR::Cache(_) | IR::ContextPath(_) | IR::Service(_) | IR::Map(_) | IR::Entity(_) => true,
        IR::Protect(a, x) => lets_in(a, h) && demands(*x, h),
        IR::Path(x, _) => demands(*x, h),
        IR::Pipe(x, y) => demands(*x, h) && demands(*y, h),
        IR::Merge(v) => forall|i: int| 0 <= i < v@.len() ==> demands(#[trigger] v@[i], h),
        IR::Discriminate(_, x) => demands(*x, h),
    }
}
// n is o without them
pub open spec fn bare(o: IR, n: IR) -> bool decreases o {
    match o {
        IR::Dynamic(_) | IR::IO(_) | IR::Cache(_) | IR::ContextPath(_) | IR::Service(_) | IR::Map(_) | IR::Entity(_) => n == o,
        IR::Protect(_, x) => bare(*x, n),
        IR::Path(x, p) => n is Path && n->Path_1 == p && bare(*x, *n->Path_0),
        IR::Pipe(x, y) => n is Pipe && bare(*x, *n->Pipe_0) && bare(*y, *n->Pipe_1),
        IR::Merge(v) => n is Merge && v@.len() == (n->Merge_0)@.len() && forall|i: int| 0 <= i < v@.len() ==> bare(#[trigger] v@[i], (n->Merge_0)@[i]),
        IR::Discriminate(d, x) => n is Discriminate && n->Discriminate_0 == d && bare(*x, *n->Discriminate_1),
    }
}
// nothing is lost by that: what a resolver asks for is what is checked before and what is left in it
pub proof fn lemma_bare(o: IR, n: IR, h: HeaderMap, t: Option<Seq<Seq<char>>>)
    requires bare(o, n) ensures allowed(o, h, t) == (demands(o, h) && allowed(n, h, t)) decreases o
{
    match o {
        IR::Protect(_, x) => { lemma_bare(*x, n, h, t); assert(allowed(o, h, t) == (demands(o, h) && allowed(n, h, t))); }
        IR::Path(x, _) => lemma_bare(*x, *n->Path_0, h, t),
        IR::Pipe(x, y) => {
            lemma_bare(*x, *n->Pipe_0, h, t);
            lemma_bare(*y, *n->Pipe_1, h, None);
        }
        IR::Merge(v) => {
            let w = (n->Merge_0)@;
            assert forall|i: int| #![trigger v@[i]] #![trigger w[i]] 0 <= i < v@.len() implies allowed(v@[i], h, t) == (demands(v@[i], h) && allowed(w[i], h, t)) by { lemma_bare(v@[i], w[i], h, t); }
            if allowed(o, h, t) { assert(demands(o, h)); assert forall|i: int| 0 <= i < w.len() implies allowed(#[trigger] w[i], h, t) by { assert(allowed(v@[i], h, t)); } assert(allowed(n, h, t)); }
            if demands(o, h) && allowed(n, h, t) { assert forall|i: int| 0 <= i < v@.len() implies allowed(#[trigger] v@[i], h, t) by { assert(demands(v@[i], h)); assert(allowed(w[i], h, t)); } }
        }
        IR::Discriminate(_, x) => lemma_bare(*x, *n->Discriminate_1, h, t),
        _ => { assert(allowed(o, h, t) == (demands(o, h) && allowed(n, h, t))); }
    }
}
// and to a request that every rule lets in, everything is given
pub proof fn lemma_clear(o: IR, n: IR, h: HeaderMap)
    requires bare(o, n), clear(o, h) ensures demands(o, h), clear(n, h) decreases o
{
    match o {
        IR::Protect(_, x) => lemma_clear(*x, n, h),
        IR::Path(x, _) => lemma_clear(*x, *n->Path_0, h),
        IR::Pipe(x, y) => { lemma_clear(*x, *n->Pipe_0, h); lemma_clear(*y, *n->Pipe_1, h); }
        IR::Merge(v) => {
            let w = (n->Merge_0)@;
            assert forall|i: int| #![trigger v@[i]] #![trigger w[i]] 0 <= i < v@.len() implies demands(v@[i], h) && clear(w[i], h) by { lemma_clear(v@[i], w[i], h); }
        }
        IR::Discriminate(_, x) => lemma_clear(*x, *n->Discriminate_1, h),
        _ => {}
    }
}
// ---- the rules are taken out of the resolvers of the fields that are left, and are joined
//@ rewrite /\b(\w+(?:\s*\.\w+)*?)\s*\.iter_mut\(\)\s*\.for_each\(\|(\w+)\| (update_ir)\((\w+), (\w+)\)\)/ => { let ghost olds_ = \1@; let ghost auths_ = \5@; let mut i_: usize = 0; while i_ < \1.len() invariant i_ <= \1@.len(), \1@.len() == olds_.len(), forall|h: HeaderMap| #[trigger] all_in(\5@, h) == (all_in(auths_, h) && all_demand(olds_.take(i_ as int), h)), forall|k: int| 0 <= k < i_ ==> bare(#[trigger] olds_[k], \1@[k]), forall|k: int| i_ <= k < olds_.len() ==> \1@[k] == #[trigger] olds_[k], decreases olds_.len() - i_ { let \2 = &mut \1[i_]; update_ir(\4, \5); proof { lemma_taken(olds_, i_ as int); } i_ += 1; } proof { assert(olds_.take(i_ as int) =~= olds_); } }
pub open spec fn all_demand(s: Seq<IR>, h: HeaderMap) -> bool { forall|i: int| 0 <= i < s.len() ==> demands(#[trigger] s[i], h) }
pub proof fn lemma_taken(s: Seq<IR>, n: int) requires 0 <= n < s.len() ensures forall|h: HeaderMap| #[trigger] all_demand(s.take(n + 1), h) == (all_demand(s.take(n), h) && demands(s[n], h))
{
    assert forall|h: HeaderMap| #[trigger] all_demand(s.take(n + 1), h) == (all_demand(s.take(n), h) && demands(s[n], h)) by {
        let a = s.take(n + 1); let b = s.take(n);
        assert(a[n] == s[n]);
        if all_demand(a, h) { assert forall|i: int| 0 <= i < b.len() implies demands(#[trigger] b[i], h) by { assert(a[i] == b[i]); } }
        if all_demand(b, h) && demands(s[n], h) { assert forall|i: int| 0 <= i < a.len() implies demands(#[trigger] a[i], h) by { if i < n { assert(b[i] == a[i]); } } }
    }
}
broadcast use m_auths::lemma_pushed;
pub use m_auths::*;
pub mod m_auths {
use vstd::prelude::*;
use super::*;
verus! {
// the requests that a rule lets in: both of an And, one of an Or (that the verifier of a rule decides this is proved in the unit auth)
pub open spec fn lets_in(a: Auth, h: HeaderMap) -> bool decreases a {
    match a { Auth::Provider(p) => passes(p, h), Auth::And(l, r) => lets_in(*l, h) && lets_in(*r, h), Auth::Or(l, r) => lets_in(*l, h) || lets_in(*r, h) }
}
pub open spec fn all_in(s: Seq<Auth>, h: HeaderMap) -> bool { forall|i: int| 0 <= i < s.len() ==> lets_in(#[trigger] s[i], h) }
pub broadcast proof fn lemma_pushed(s: Seq<Auth>, a: Auth, h: HeaderMap) ensures #[trigger] all_in(s.push(a), h) == (all_in(s, h) && lets_in(a, h))
{
    let t = s.push(a);
    assert(t[s.len() as int] == a);
    if all_in(t, h) { assert forall|i: int| 0 <= i < s.len() implies lets_in(#[trigger] s[i], h) by { assert(t[i] == s[i]); } }
    if all_in(s, h) && lets_in(a, h) { assert forall|i: int| 0 <= i < t.len() implies lets_in(#[trigger] t[i], h) by { if i < s.len() { assert(s[i] == t[i]); } } }
}
} // verus!
}
//@ fn src/core/jit/transform/auth_planner.rs :: fn update_ir
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   spec ensures bare(*old(ir), *final(ir)), forall|h: HeaderMap| #[trigger] all_in(final(vec)@, h) == (all_in(old(vec)@, h) && demands(*old(ir), h))
// a field without a resolver of its own is read from its parent's value; below it, the rules stay where they are (eval checks them)
pub open spec fn field_demands<A>(f: Field<A>, h: HeaderMap) -> bool decreases f {
    f.ir is Some ==> demands(f.ir->0, h) && forall|i: int| 0 <= i < f.selection@.len() ==> field_demands(#[trigger] f.selection@[i], h)
}
pub open spec fn all_fields<A>(s: Seq<Field<A>>, h: HeaderMap) -> bool { forall|i: int| 0 <= i < s.len() ==> field_demands(#[trigger] s[i], h) }
pub open spec fn field_bare<A>(o: Field<A>, n: Field<A>) -> bool decreases o {
    if o.ir is Some {
        &&& n.ir is Some && bare(o.ir->0, n.ir->0)
        &&& n == Field { ir: n.ir, selection: n.selection, ..o }
        &&& o.selection@.len() == n.selection@.len() && forall|i: int| 0 <= i < o.selection@.len() ==> field_bare(#[trigger] o.selection@[i], n.selection@[i])
    } else { n == o }
}
pub open spec fn plan_bare<A>(o: Seq<Field<A>>, n: Seq<Field<A>>) -> bool { o.len() == n.len() && forall|i: int| 0 <= i < o.len() ==> field_bare(#[trigger] o[i], n[i]) }
pub proof fn lemma_fields<A>(s: Seq<Field<A>>, n: int) requires 0 <= n < s.len() ensures forall|h: HeaderMap| #[trigger] all_fields(s.take(n + 1), h) == (all_fields(s.take(n), h) && field_demands(s[n], h))
{
    assert forall|h: HeaderMap| #[trigger] all_fields(s.take(n + 1), h) == (all_fields(s.take(n), h) && field_demands(s[n], h)) by {
        let a = s.take(n + 1); let b = s.take(n);
        assert(a[n] == s[n]);
        if all_fields(a, h) { assert forall|i: int| 0 <= i < b.len() implies field_demands(#[trigger] b[i], h) by { assert(a[i] == b[i]); } }
        if all_fields(b, h) && field_demands(s[n], h) { assert forall|i: int| 0 <= i < a.len() implies field_demands(#[trigger] a[i], h) by { if i < n { assert(b[i] == a[i]); } } }
    }
}
// whenever a request passes what is checked before, and a field's resolver gives it a value, it may have that value; at every depth
pub open spec fn safe<A>(o: Field<A>, n: Field<A>, h: HeaderMap) -> bool decreases o {
    &&& o.ir is Some ==> n.ir is Some && forall|t: Option<Seq<Seq<char>>>| #[trigger] allowed(n.ir->0, h, t) ==> allowed(o.ir->0, h, t)
    &&& o.selection@.len() == n.selection@.len()
    &&& forall|i: int| 0 <= i < o.selection@.len() ==> safe(#[trigger] o.selection@[i], n.selection@[i], h)
}
pub proof fn lemma_same<A>(o: Field<A>, h: HeaderMap) ensures safe(o, o, h) decreases o
{ assert forall|i: int| 0 <= i < o.selection@.len() implies safe(#[trigger] o.selection@[i], o.selection@[i], h) by { lemma_same(o.selection@[i], h); } }
pub proof fn lemma_safe<A>(o: Field<A>, n: Field<A>, h: HeaderMap) requires field_bare(o, n), field_demands(o, h) ensures safe(o, n, h) decreases o
{
    if o.ir is Some {
        assert forall|t: Option<Seq<Seq<char>>>| #[trigger] allowed(n.ir->0, h, t) implies allowed(o.ir->0, h, t) by { lemma_bare(o.ir->0, n.ir->0, h, t); }
        assert forall|i: int| 0 <= i < o.selection@.len() implies safe(#[trigger] o.selection@[i], n.selection@[i], h) by { lemma_safe(o.selection@[i], n.selection@[i], h); }
    } else { lemma_same(o, h); }
}
// and a request that the rules of all fields let in passes what is checked before, and meets no rule that does not let it in
pub open spec fn field_clear<A>(f: Field<A>, h: HeaderMap) -> bool decreases f {
    (f.ir is Some ==> clear(f.ir->0, h)) && forall|i: int| 0 <= i < f.selection@.len() ==> field_clear(#[trigger] f.selection@[i], h)
}
pub proof fn lemma_let_in<A>(o: Field<A>, n: Field<A>, h: HeaderMap) requires field_bare(o, n), field_clear(o, h) ensures field_demands(o, h), field_clear(n, h) decreases o
{
    if o.ir is Some {
        lemma_clear(o.ir->0, n.ir->0, h);
        assert forall|i: int| 0 <= i < o.selection@.len() implies field_demands(#[trigger] o.selection@[i], h) by { lemma_let_in(o.selection@[i], n.selection@[i], h); }
        assert forall|i: int| 0 <= i < n.selection@.len() implies field_clear(#[trigger] n.selection@[i], h) by { assert(field_bare(o.selection@[i], n.selection@[i])); lemma_let_in(o.selection@[i], n.selection@[i], h); }
    }
}
//@ rewrite /\b(\w+(?:\s*\.\w+)*?)\s*\.iter_mut\(\)\s*\.for_each\(\|(\w+)\| (update_field)\((&mut )?(\w+), (\w+)\)\)/ => { let ghost olds_ = \1@; let ghost auths_ = \5@; let mut i_: usize = 0; while i_ < \1.len() invariant i_ <= \1@.len(), \1@.len() == olds_.len(), forall|h: HeaderMap| #![trigger all_in(\5@, h)] #![trigger all_fields(olds_.take(i_ as int), h)] all_in(\5@, h) == (all_in(auths_, h) && all_fields(olds_.take(i_ as int), h)), forall|k: int| 0 <= k < i_ ==> field_bare(#[trigger] olds_[k], \1@[k]), forall|k: int| i_ <= k < olds_.len() ==> \1@[k] == #[trigger] olds_[k], decreases olds_.len() - i_ { let \2 = &mut \1[i_]; update_field(\4\5, \6); proof { lemma_fields(olds_, i_ as int); } i_ += 1; } proof { assert(olds_.take(i_ as int) =~= olds_); } }
//@ fn src/core/jit/transform/auth_planner.rs :: fn update_field
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   spec ensures field_bare(*old(field), *final(field)), forall|h: HeaderMap| #[trigger] all_in(final(auth)@, h) == (all_in(old(auth)@, h) && field_demands(*old(field), h))
impl Auth {
//@ fn src/core/blueprint/auth.rs :: impl Auth :: fn and
//@   spec ensures forall|h: HeaderMap| #[trigger] lets_in(r, h) == (lets_in(self, h) && lets_in(other, h))
//@ fn src/core/blueprint/auth.rs :: impl Auth :: fn or
//@   spec ensures forall|h: HeaderMap| #[trigger] lets_in(r, h) == (lets_in(self, h) || lets_in(other, h))
}
//@ rewrite /Self::Value/ => OperationPlan<A>
//@ rewrite /Self::Error/ => Infallible
pub struct AuthPlanner<A>(pub core::marker::PhantomData<A>);
impl<A> AuthPlanner<A> {
//@ fn src/core/jit/transform/auth_planner.rs :: impl<A: Debug> Transform for AuthPlanner<A> :: fn transform
//@   opt /(\w+)\s*\.into_iter\(\)\s*\.reduce\(/ => \1.reduce_auth_(
//@   opt /DynamicValue::default\(\)/ => default_()
//@   start proof { reveal_with_fuel(allowed, 3); }
//@   closure 1 |$0: Auth, $1: Auth| -> (c: Auth) ensures forall|h: HeaderMap| #[trigger] lets_in(c, h) == (lets_in($0, h) && lets_in($1, h))
//@   closure 2 |$0: Auth| -> (x: IR) ensures x is Protect && x->Protect_0 == $0 && *x->Protect_1 is Dynamic
//@   spec ensures r.ok() is Some, plan_bare(plan.selection@, (r.ok()->0).selection@), forall|h: HeaderMap| all_fields(plan.selection@, h) == #[trigger] passes_before(r.ok()->0, h), r.ok()->0 == (OperationPlan { selection: (r.ok()->0).selection, before: (r.ok()->0).before, ..plan })
}
pub open spec fn passes_before<A>(p: OperationPlan<A>, h: HeaderMap) -> bool { p.before is None || allowed(p.before->0, h, None) }
// the whole of it: to a request that passes what is checked before, a field's resolver gives only what it may have
pub proof fn lemma_plan<A>(o: Seq<Field<A>>, n: Seq<Field<A>>, h: HeaderMap, i: int) requires plan_bare(o, n), all_fields(o, h), 0 <= i < o.len() ensures safe(o[i], n[i], h) { lemma_safe(o[i], n[i], h); }
pub proof fn lemma_plan_let_in<A>(o: Seq<Field<A>>, n: Seq<Field<A>>, h: HeaderMap) requires plan_bare(o, n), forall|i: int| 0 <= i < o.len() ==> field_clear(#[trigger] o[i], h) ensures all_fields(o, h), forall|i: int| 0 <= i < n.len() ==> field_clear(#[trigger] n[i], h)
{
    assert forall|i: int| 0 <= i < o.len() implies field_demands(#[trigger] o[i], h) by { lemma_let_in(o[i], n[i], h); }
    assert forall|i: int| 0 <= i < n.len() implies field_clear(#[trigger] n[i], h) by { assert(field_bare(o[i], n[i])); lemma_let_in(o[i], n[i], h); }
}
// ---- a rule is checked before what it protects is evaluated
pub proof fn lemma_any(ir: IR, h: HeaderMap, t: Option<Seq<Seq<char>>>) requires allowed(ir, h, t) ensures allowed(ir, h, None) decreases ir
{
    match ir {
        IR::Protect(_, x) => lemma_any(*x, h, t),
        IR::Path(x, _) => lemma_any(*x, h, t),
        IR::Map(m) => lemma_any(*m.input, h, t),
        IR::Pipe(x, _) => lemma_any(*x, h, t),
        IR::Merge(v) => { assert forall|i: int| 0 <= i < v@.len() implies allowed(#[trigger] v@[i], h, None) by { lemma_any(v@[i], h, t); } }
        IR::Discriminate(_, x) => lemma_any(*x, h, t),
        _ => {}
    }
}
pub open spec fn of_<'a, Ctx>(c: EvalContext<'a, Ctx>) -> HeaderMap { c.request_ctx.allowed_headers }
pub open spec fn types_<'a, Ctx>(c: EvalContext<'a, Ctx>) -> Option<Seq<Seq<char>>> { Some(asked(c.args_@)) }
pub open spec fn fine(ir: IR, h: HeaderMap, t: Option<Seq<Seq<char>>>, r: Result<Value, Error>) -> bool { (r is Ok ==> allowed(ir, h, t)) && (r is Err && clear(ir, h) ==> !denial(r->Err_0)) }
pub open spec fn entity_fine(m: HashMap<String, IR>, name: Seq<char>, h: HeaderMap, t: Option<Seq<Seq<char>>>, r: Result<Value, Error>) -> bool {
    (r is Ok ==> entry(m, at(m, name), name) && allowed(m.entries@[at(m, name)].1, h, t)) && (r is Err && clear(IR::Entity(m), h) ==> !denial(r->Err_0))
}
#[verifier::external_body] pub fn eval_io<'a, Ctx>(io: &IO, ctx: &mut EvalContext<'a, Ctx>) -> (r: Result<Value, Error>) ensures r is Err ==> !denial(r->Err_0), *final(ctx) == (EvalContext { calls_: Ghost(old(ctx).calls_@ + 1), ..*old(ctx) }) { unimplemented!() }
impl IO { #[verifier::external_body] pub fn cache_key<'a, Ctx>(&self, ctx: &EvalContext<'a, Ctx>) -> Option<IoId> { unimplemented!() } }
impl<A> DynamicValue<A> { #[verifier::external_body] pub fn render_value<'a, Ctx>(&self, ctx: &EvalContext<'a, Ctx>) -> Value { unimplemented!() } }
// the verifier of a rule lets in who the rule lets in: proved in the unit auth
pub struct AuthVerifier { pub a: Auth }
pub struct Verification { pub r: Result<(), Error> }
impl AuthVerifier {
    pub fn from(a: Auth) -> (r: Self) ensures r.a == a { AuthVerifier { a } }
    #[verifier::external_body] pub fn verify(&self, c: &RequestContext) -> (r: Verification) ensures r.r is Ok == lets_in(self.a, c.allowed_headers), r.r is Err ==> denial(r.r->Err_0) { unimplemented!() }
}
impl Verification { pub fn to_result(self) -> (r: Result<(), Error>) ensures r == self.r { self.r } }
impl IR {
//@ fn src/core/ir/eval.rs :: impl IR :: fn eval async=drop
//@   sub /-> impl Future<Output = Result<ConstValue, Error>>[^{]*\{/ => -> Result<ConstValue, Error> {
//@   sub /Box::pin\(async move \{/ => ({
//@   sub /fn recursive_map_enum\b[\s\S]*\}\s*(?=recursive_map_enum\()/ =>
//@   sub /\brecursive_map_enum\(/ => mapped_(
//@   opt /async_graphql::Value::Null/ => Value::null_()
//@   opt /let io = io\.deref\(\);/ => let io: &IO = &**io;
//@   opt /\bjoin_all\(\s*(\w+)\.iter\(\)\.map\(\|(\w+)\| \{([^{}]*)async move \{([^{}]*)\}\s*\}\)\)\s*(?:\.await)?\s*\.into_iter\(\)\s*\.collect::<Result<_, _>>\(\)\?/ => all_ok_({ let mut got_: Vec<Result<Value, Error>> = Vec::new(); for i_ in 0..\1.len() invariant got_@.len() == i_, forall|j: int| #![trigger \1@[j]] #![trigger got_@[j]] 0 <= j < i_ ==> fine(\1@[j], of_(*ctx), types_(*ctx), got_@[j]), { let \2 = &\1[i_]; \3 let x_ = \4; got_.push(x_); } got_ })?
//@   opt /(\w+)\s*\.into_iter\(\)\s*\.reduce\(\|(\w+), (\w+)\| \2\.merge_right\(\3\)\)\s*\.unwrap_or_default\(\)/ => merged_(\1)
//@   opt /ctx\.path_arg\(&\["representations"\]\)/ => ctx.representations_()
//@   opt /(\w+)\s*\.as_ref\(\)\s*\.and_then\(\|(\w+)\| \2\.as_array\(\)\)/ => ctx.items_(\1.as_ref())
//@   opt /"[^"]*"\.to_string\(\)/ => text_()
//@   opt /format!\((?:[^()]|\([^()]*\))*\)/ => text_()
//@   opt /\basync move \{/ => {
//@   opt /\bjoin_all\((\w+)\)/ => ({ proof { tasks_ = \1@; } \1 })
//@   opt /(\w+)\.into_iter\(\)\.collect::<Result<_, _>>\(\)\?/ => all_ok_(\1)?
//@   opt /ConstValue::List\(/ => Value::array_(
//@   opt /IndexMap::new\(\)/ => Obj_::new()
//@   opt /\.to_owned\(\)/ => .own_()
//@   opt /(\w+)\.into\(\)/ => \1.clone()
//@   attr #[verifier::loop_isolation(false)]
//@   tail proof { if *self is Entity { let m = self->Entity_0; if ret_ is Ok { assert forall|j: int| #![trigger (t0->0)[j]] 0 <= j < (t0->0).len() implies entry(m, at(m, (t0->0)[j]), (t0->0)[j]) && allowed(m.entries@[at(m, (t0->0)[j])].1, h0, t0) by { assert(entity_fine(m, (t0->0)[j], h0, t0, tasks_[j])); } assert(allowed(*self, h0, t0)); } } }
//@   start let ghost c0 = *ctx; let ghost mut tasks_: Seq<Result<Value, Error>> = Seq::empty(); let ghost h0 = of_(*ctx); let ghost t0 = types_(*ctx); proof { assert forall|ir: IR, t: Option<Seq<Seq<char>>>| #[trigger] allowed(ir, h0, t) implies allowed(ir, h0, None) by { lemma_any(ir, h0, t); } }
//@   closure 2 |$0: Value| -> (q: Result<Value, Error>) ensures q is Err ==> !denial(q->Err_0)
//@   closure 3 |$0: Value| -> (q: Result<Value, Error>) ensures q is Err ==> !denial(q->Err_0)
//@   loop 1 it=it invariant *ctx == c0, it.seq().len() == (t0->0).len(), forall|j: int| #![trigger it.seq()[j]] 0 <= j < it.seq().len() ==> type_of(*it.seq()[j]) == Some((t0->0)[j]) || type_of(*it.seq()[j]) is None, tasks@.len() == it.index() as int, forall|j: int| #![trigger (t0->0)[j]] #![trigger tasks@[j]] 0 <= j < it.index() as int ==> entity_fine(*map, (t0->0)[j], h0, t0, tasks@[j]),
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   spec ensures fine(*self, of_(*old(ctx)), types_(*old(ctx)), r),
//@   |  self is Protect && !lets_in(self->Protect_0, of_(*old(ctx))) ==> r is Err && denial(r->Err_0) && final(ctx).calls_ == old(ctx).calls_
}
}
pub mod m_rule {
// ---- what a directive protects: the field of a type that has it, or whose type or output type has it
use vstd::prelude::*;
use super::*;
verus! {
// Assumed shapes of a read configuration, as far as used here.
//@ item src/core/config/config_module.rs :: struct Content
pub struct Extensions { pub htpasswd: Vec<Content<String>>, pub jwks: Vec<Content<Keys>> }
#[verifier::external_body] pub struct Keys { _p: () }
#[verifier::external_body] pub struct Names { _p: () }
pub uninterp spec fn within(n: Names, name: Seq<char>) -> bool;
impl Names { #[verifier::external_body] pub fn contains(&self, name: &str) -> (r: bool) ensures r == within(*self, name@) { unimplemented!() } }
pub struct Type { pub protected: Option<Protected>, pub rest_: Rest }
pub struct CField { pub type_of: OfType, pub protected: Option<Protected>, pub rest_: Rest }
#[verifier::external_body] pub struct OfType { _p: () }
pub uninterp spec fn name_of(t: OfType) -> Seq<char>;
impl OfType { #[verifier::external_body] pub fn name(&self) -> (r: &String) ensures r@ == name_of(*self) { unimplemented!() } }
pub struct ConfigModule { pub extensions_: Extensions, pub types_: Types, pub inputs_: Names }
#[verifier::external_body] pub struct Types { _p: () }
pub uninterp spec fn type_named(t: Types, name: Seq<char>) -> Option<Type>;
impl ConfigModule {
    pub fn extensions(&self) -> (r: &Extensions) ensures *r == self.extensions_ { &self.extensions_ }
    pub fn input_types(&self) -> (r: &Names) ensures *r == self.inputs_ { &self.inputs_ }
    #[verifier::external_body] pub fn find_type(&self, name: &str) -> (r: Option<&Type>) ensures match r { Some(t) => type_named(self.types_, name@) == Some(*t), None => type_named(self.types_, name@) is None } { unimplemented!() }
}
pub enum BlueprintError { InputTypesCannotBeProtected, ProtectedOperatorNoAuthProviders, AuthProviderNotFound(String) }
pub struct FieldDefinition { pub name: String, pub resolver: Option<IR>, pub rest_: Rest }
//@ item src/core/config/directives/protected.rs :: struct Protected
impl Clone for Provider { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn any_named(c: ConfigModule) -> bool { c.extensions_.htpasswd@.len() + c.extensions_.jwks@.len() > 0 }
// the providers of the configuration, and whether all of them let a request in (proved in the unit auth)
pub uninterp spec fn all_providers(c: ConfigModule) -> Seq<Content<Provider>>;
pub uninterp spec fn all_pass(c: ConfigModule, h: HeaderMap) -> bool;
impl Provider { #[verifier::external_body] pub fn from_config(c: &ConfigModule) -> (r: Vec<Content<Provider>>) ensures r@ == all_providers(*c) { unimplemented!() } }
impl Auth { #[verifier::external_body] pub fn from_config(c: &ConfigModule) -> (r: Option<Auth>) ensures match r { None => !any_named(*c), Some(a) => any_named(*c) && forall|h: HeaderMap| #[trigger] lets_in(a, h) == all_pass(*c, h) } { unimplemented!() } }
// the provider that goes by an id
pub open spec fn named(s: Seq<Content<Provider>>, id: Seq<char>) -> Option<Provider> decreases s.len() {
    if s.len() == 0 { None } else if s.last().id is Some && (s.last().id->0)@ == id { Some(s.last().content) } else { named(s.drop_last(), id) }
}
pub open spec fn row_named(s: Seq<Option<(String, Provider)>>, id: Seq<char>) -> Option<Provider> decreases s.len() {
    if s.len() == 0 { None } else if s.last() is Some && (s.last()->0).0@ == id { Some((s.last()->0).1) } else { row_named(s.drop_last(), id) }
}
pub open spec fn row_of(c: Content<Provider>, e: Option<(String, Provider)>) -> bool { match c.id { Some(i) => e is Some && (e->0).0@ == i@ && (e->0).1 == c.content, None => e is None } }
pub proof fn lemma_rows(s: Seq<Content<Provider>>, q: Seq<Option<(String, Provider)>>, id: Seq<char>)
    requires s.len() == q.len(), forall|i: int| 0 <= i < s.len() ==> row_of(s[i], #[trigger] q[i]) ensures row_named(q, id) == named(s, id) decreases s.len()
{
    if s.len() > 0 {
        let n = s.len() - 1;
        assert(row_of(s[n], q[n]));
        assert forall|i: int| 0 <= i < n implies row_of(s.drop_last()[i], #[trigger] q.drop_last()[i]) by { assert(q[i] == q.drop_last()[i]); }
        lemma_rows(s.drop_last(), q.drop_last(), id);
    }
}
// `filter_map` and `collect` into a std HashMap: the last of a key
#[verifier::external_body] pub struct Table { _p: () }
impl View for Table { type V = spec_fn(Seq<char>) -> Option<Provider>; uninterp spec fn view(&self) -> spec_fn(Seq<char>) -> Option<Provider>; }
pub open spec fn rows<F: Fn(Content<Provider>) -> Option<(String, Provider)>>(s: Seq<Content<Provider>>, f: F, q: Seq<Option<(String, Provider)>>) -> bool { s.len() == q.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] q[i]) }
impl Table {
    #[verifier::external_body] pub fn table_0<F: Fn(Content<Provider>) -> Option<(String, Provider)>>(v: Vec<Content<Provider>>, f: F) -> (r: Table) requires forall|x: Content<Provider>| #[trigger] f.requires((x,)) ensures exists|q: Seq<Option<(String, Provider)>>| #[trigger] rows(v@, f, q) && forall|id: Seq<char>| #[trigger] (r@)(id) == row_named(q, id) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, id: &String) -> (r: Option<&Provider>) ensures match r { Some(p) => (self@)(id@) == Some(*p), None => (self@)(id@) is None } { unimplemented!() }
}
pub fn table_<F: Fn(Content<Provider>) -> Option<(String, Provider)>>(v: Vec<Content<Provider>>, f: F) -> (r: Table) requires forall|x: Content<Provider>| #[trigger] f.requires((x,)), forall|x: Content<Provider>, e: Option<(String, Provider)>| #[trigger] f.ensures((x,), e) ==> row_of(x, e) ensures forall|id: Seq<char>| #[trigger] (r@)(id) == named(v@, id)
{
    let ghost s = v@; let ghost g = f;
    let r = Table::table_0(v, f);
    proof { let q = choose|q: Seq<Option<(String, Provider)>>| #[trigger] rows(s, g, q) && forall|id: Seq<char>| #[trigger] (r@)(id) == row_named(q, id); assert forall|i: int| 0 <= i < s.len() implies row_of(s[i], #[trigger] q[i]) by { assert(g.ensures((s[i],), q[i])); } assert forall|id: Seq<char>| #[trigger] (r@)(id) == named(s, id) by { lemma_rows(s, q, id); } }
    r
}
// tailcall-valid's `from_iter`: all results, or the causes of those that failed
impl<A, E> Valid<A, E> {
    #[verifier::external_body] pub fn from_iter<T, F: Fn(T) -> Valid<A, E>>(v: Vec<T>, f: F) -> (r: Valid<Vec<A>, E>) requires forall|x: T| #[trigger] f.requires((x,))
        ensures match r.ok() {
            Some(o) => o@.len() == v@.len() && forall|i: int| #![trigger v@[i]] #![trigger o@[i]] 0 <= i < v@.len() ==> exists|q: Valid<A, E>| f.ensures((v@[i],), q) && #[trigger] q.ok() == Some(o@[i]),
            None => exists|i: int, q: Valid<A, E>| 0 <= i < v@.len() && #[trigger] f.ensures((v@[i],), q) && q.ok() is None } { unimplemented!() }
    #[verifier::external_body] pub fn value_(self) -> (r: Option<A>) ensures r == self.ok() { unimplemented!() }
    #[verifier::external_body] pub fn failed_() -> (r: Self) ensures r.ok() is None { unimplemented!() }
}
pub open spec fn somes3<T>(a: Option<T>, b: Option<T>, c: Option<T>) -> Seq<T> { some1(a) + some1(b) + some1(c) }
pub open spec fn some1<T>(a: Option<T>) -> Seq<T> { match a { Some(x) => seq![x], None => Seq::empty() } }
pub open spec fn there(o: Option<&Protected>) -> Option<Protected> { match o { Some(p) => Some(*p), None => None } }
#[verifier::external_body] pub fn given_<'a>(a: Option<&'a Protected>, b: Option<&'a Protected>, c: Option<&'a Protected>) -> (r: Vec<&'a Protected>) ensures r@.len() == somes3(there(a), there(b), there(c)).len(), forall|i: int| #![trigger r@[i]] #![trigger somes3(there(a), there(b), there(c))[i]] 0 <= i < r@.len() ==> *r@[i] == somes3(there(a), there(b), there(c))[i] { unimplemented!() }
#[verifier::external_body] pub fn ids_(o: &Option<Vec<String>>) -> (r: Vec<&String>) ensures match *o { Some(v) => r@.len() == v@.len() && forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> *r@[i] == v@[i], None => r@.len() == 0 } { unimplemented!() }
#[verifier::external_body] pub fn flat_(v: Vec<Option<Auth>>) -> (r: Vec<Auth>) ensures (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Some) ==> r@.len() == v@.len() && forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> Some(r@[i]) == v@[i] { unimplemented!() }
pub fn one_<T>(t: T) -> (r: Vec<T>) ensures r@ == seq![t] { let mut v = Vec::new(); v.push(t); proof { assert(v@ =~= seq![t]); } v }
pub open spec fn is_copy(a: String, b: String) -> bool { a@ == b@ }
// ---- the rule of a directive: each of the listed providers, all if none is listed
pub open spec fn known(c: ConfigModule, p: Protected) -> bool { p.id is Some ==> forall|i: int| 0 <= i < (p.id->0)@.len() ==> named(all_providers(c), (#[trigger] (p.id->0)@[i])@) is Some }
pub open spec fn rule(c: ConfigModule, p: Protected, h: HeaderMap) -> bool {
    if p.id is Some && (p.id->0)@.len() > 0 { forall|i: int| 0 <= i < (p.id->0)@.len() ==> passes(named(all_providers(c), (#[trigger] (p.id->0)@[i])@)->0, h) } else { all_pass(c, h) }
}
pub open spec fn rules(c: ConfigModule, f: CField, t: Type) -> Seq<Protected> {
    somes3(t.protected, f.protected, match type_named(c.types_, name_of(f.type_of)) { Some(o) => o.protected, None => None })
}
pub open spec fn all_rules(c: ConfigModule, ds: Seq<Protected>, h: HeaderMap) -> bool { forall|i: int| 0 <= i < ds.len() ==> rule(c, #[trigger] ds[i], h) }
pub open spec fn inner(b: FieldDefinition, x: IR) -> bool { match b.resolver { Some(o) => x == o, None => x is ContextPath && (x->ContextPath_0)@.len() == 1 && (x->ContextPath_0)@[0]@ == b.name@ } }
pub open spec fn guarded(c: ConfigModule, ds: Seq<Protected>, b: FieldDefinition, n: FieldDefinition) -> bool {
    &&& n == FieldDefinition { resolver: n.resolver, ..b }
    &&& n.resolver is Some && n.resolver->0 is Protect && inner(b, *(n.resolver->0)->Protect_1)
    &&& forall|h: HeaderMap| #[trigger] lets_in((n.resolver->0)->Protect_0, h) == all_rules(c, ds, h)
}
pub open spec fn usable(c: ConfigModule, ds: Seq<Protected>, name: Seq<char>) -> bool { !within(c.inputs_, name) && any_named(c) && forall|i: int| 0 <= i < ds.len() ==> known(c, #[trigger] ds[i]) }
pub open spec fn of_rule(c: ConfigModule, p: Protected, a: Option<Auth>) -> bool { a is Some && forall|h: HeaderMap| #[trigger] lets_in(a->0, h) == rule(c, p, h) }
// the providers of the listed ids
pub open spec fn chosen(c: ConfigModule, p: Protected, a: Seq<Auth>) -> bool { p.id is Some && a.len() == (p.id->0)@.len() && a.len() > 0 && known(c, p) && forall|i: int| #![trigger a[i]] #![trigger (p.id->0)@[i]] 0 <= i < a.len() ==> a[i] == Auth::Provider(named(all_providers(c), (p.id->0)@[i]@)->0) }
pub proof fn lemma_chosen(c: ConfigModule, p: Protected, a: Seq<Auth>, h: HeaderMap) requires chosen(c, p, a) ensures all_in(a, h) == rule(c, p, h)
{
    let s = (p.id->0)@;
    if all_in(a, h) { assert forall|i: int| 0 <= i < s.len() implies passes(named(all_providers(c), (#[trigger] s[i])@)->0, h) by { assert(lets_in(a[i], h)); } }
    if rule(c, p, h) { assert forall|i: int| 0 <= i < a.len() implies lets_in(#[trigger] a[i], h) by { assert(passes(named(all_providers(c), s[i]@)->0, h)); } }
}
// the rules of each directive
pub open spec fn each_rule(c: ConfigModule, ds: Seq<Protected>, a: Seq<Auth>) -> bool { a.len() == ds.len() && forall|i: int| #![trigger a[i]] #![trigger ds[i]] 0 <= i < a.len() ==> of_rule(c, ds[i], Some(a[i])) }
pub proof fn lemma_each(c: ConfigModule, ds: Seq<Protected>, a: Seq<Auth>, h: HeaderMap) requires each_rule(c, ds, a) ensures all_in(a, h) == all_rules(c, ds, h)
{
    if all_in(a, h) { assert forall|i: int| 0 <= i < ds.len() implies rule(c, #[trigger] ds[i], h) by { let x = Some(a[i]); assert(of_rule(c, ds[i], x)); assert(lets_in(a[i], h)); assert(lets_in(x->0, h) == rule(c, ds[i], h)); } }
    if all_rules(c, ds, h) { assert forall|i: int| 0 <= i < a.len() implies lets_in(#[trigger] a[i], h) by { let x = Some(a[i]); assert(of_rule(c, ds[i], x)); assert(rule(c, ds[i], h)); assert(lets_in(x->0, h) == rule(c, ds[i], h)); } }
}
impl Extensions {
//@ fn src/core/config/config_module.rs :: impl Extensions :: fn has_auth
//@   spec ensures r == (self.htpasswd@.len() + self.jwks@.len() > 0)
}
//@ fn src/core/blueprint/operators/protected.rs :: fn update_protected
//@   sub /<'a>\([\s\S]*?mut (\w+)\| \{/ => (type_name: &str, config: &ConfigModule, field: &CField, type_: &Type, \1: FieldDefinition) -> Valid<FieldDefinition, BlueprintError> { let ghost b0 = \1; let mut \1 = \1;
//@   sub /\},\s*\)\s*\}\s*$/ => }
//@   opt /= \[([^\[\]]*)\]\s*\.into_iter\(\)\s*\.flatten\(\)\s*\.collect::<Vec<_>>\(\);/ => = given_(\1);
//@   opt /: std::collections::HashMap<_, _> = Provider::from_config\((\w+)\)\s*\.into_iter\(\)\s*\.filter_map\(([\s\S]*?)\)\s*\.collect\(\);/ => = table_(Provider::from_config(\1), \2);
//@   opt /(\w+)\.id\.as_deref\(\)\.unwrap_or_default\(\)/ => ids_(&\1.id)
//@   opt /Valid::from_iter\(protections,/ => ({ let joined_ = Valid::from_iter(protections,
//@   opt /\.map\(\|auth\| \{\s*let auth/ => ; match joined_.value_() { Some(auth) => Valid::succeed({ let auth
//@   opt /b_field\s*\}\)\s*\} else/ => b_field }), None => Valid::failed_() } }) } else
//@   opt /(\w+)\s*\.into_iter\(\)\s*\.flatten\(\)\s*\.reduce\(/ => flat_(\1).reduce_auth_(
//@   opt /(\w+)\s*\.into_iter\(\)\s*\.reduce\(/ => \1.reduce_auth_(
//@   opt /\bvec!\[([^\[\]]*)\]/ => one_(\1)
//@   start proof { assert forall|p: Protected, a: Seq<Auth>, h: HeaderMap| #![trigger rule(*config, p, h), all_in(a, h)] chosen(*config, p, a) implies all_in(a, h) == rule(*config, p, h) by { lemma_chosen(*config, p, a, h); } assert forall|ds: Seq<Protected>, a: Seq<Auth>, h: HeaderMap| #![trigger all_rules(*config, ds, h), all_in(a, h)] each_rule(*config, ds, a) implies all_in(a, h) == all_rules(*config, ds, h) by { lemma_each(*config, ds, a, h); } }
//@   closure 1 |$0: &Type| -> (o: Option<&Protected>) ensures there(o) == $0.protected
//@   closure 2 |$0: Content<Provider>| -> (e: Option<(String, Provider)>) ensures row_of($0, e)
//@   closure 3 |$0: String| -> (e: (String, Provider)) ensures e.0@ == $0@, e.1 == provider.content
//@   closure 4 |$0: &Protected| -> (v: Valid<Option<Auth>, BlueprintError>) ensures match v.ok() { Some(a) => known(*config, *$0) && of_rule(*config, *$0, a), None => !known(*config, *$0) }
//@   closure 5 |$0: &String| -> (v: Valid<Auth, BlueprintError>) ensures match v.ok() { Some(a) => named(all_providers(*config), $0@) is Some && a == Auth::Provider(named(all_providers(*config), $0@)->0), None => named(all_providers(*config), $0@) is None }
//@   closure 6 |$0: Vec<Auth>| -> (o: Option<Auth>) ensures $0@.len() > 0 ==> o is Some && forall|h: HeaderMap| #[trigger] lets_in(o->0, h) == all_in($0@, h), $0@.len() == 0 ==> o is Some && forall|h: HeaderMap| #[trigger] lets_in(o->0, h) == all_pass(*config, h)
//@   closure 7 |$0: Auth, $1: Auth| -> (c: Auth) ensures forall|h: HeaderMap| #[trigger] lets_in(c, h) == (lets_in($0, h) && lets_in($1, h))
//@   closure 8 || -> (o: Option<Auth>) ensures o is Some == any_named(*config), o is Some ==> forall|h: HeaderMap| #[trigger] lets_in(o->0, h) == all_pass(*config, h)
//@   closure 9 |$0: Auth, $1: Auth| -> (c: Auth) ensures forall|h: HeaderMap| #[trigger] lets_in(c, h) == (lets_in($0, h) && lets_in($1, h))
//@   spec ensures rules(*config, *field, *type_).len() == 0 ==> r.ok() == Some(b_field),
//@   |  rules(*config, *field, *type_).len() > 0 ==> match r.ok() { Some(n) => usable(*config, rules(*config, *field, *type_), type_name@) && guarded(*config, rules(*config, *field, *type_), b_field, n), None => !usable(*config, rules(*config, *field, *type_), type_name@) }
} // verus!
}
fn main() {}

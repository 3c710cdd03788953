#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
pub mod m_key {
// Assumed shapes of http, std's Hash and async-graphql's requests, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] pub struct HeaderName { _p: () }
#[verifier::external_body] pub struct HeaderValue { _p: () }
#[verifier::external_body] pub struct HeaderMap { _p: () }
impl HeaderMap {
    // every entry, each name once for each of its values
    pub uninterp spec fn entries(&self) -> Seq<(HeaderName, HeaderValue)>;
    #[verifier::external_body] pub fn iter(&self) -> (r: It<(&HeaderName, &HeaderValue)>) ensures r@.len() == self.entries().len(), forall|i: int| #![trigger r@[i]] #![trigger self.entries()[i]] 0 <= i < r@.len() ==> (*r@[i].0, *r@[i].1) == self.entries()[i] { unimplemented!() }
}
#[verifier::external_body] pub struct Name { _p: () }
#[verifier::external_body] pub struct GValue { _p: () }
pub uninterp spec fn shown(v: GValue) -> Seq<char>;
impl GValue { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == shown(*self) { unimplemented!() } }
// what a Hasher is fed
pub enum Piece { Name(HeaderName), Value(HeaderValue), Text(Seq<char>), Op(Option<String>), Var(Name), Id(u64), Index(usize) }
#[verifier::external_body] pub struct TailcallHasher { _p: () }
impl TailcallHasher {
    pub uninterp spec fn log(&self) -> Seq<Piece>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.log() == Seq::<Piece>::empty() { unimplemented!() }
    // taken to tell apart whatever is hashed
    #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures meant(r) == self.log() { unimplemented!() }
}
// what a hash was made of
pub uninterp spec fn meant(key: u64) -> Seq<Piece>;
pub trait Hash { spec fn pieces(&self) -> Seq<Piece>; fn hash(&self, state: &mut TailcallHasher) ensures final(state).log() == old(state).log() + self.pieces(); }
impl Hash for HeaderName { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Name(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for HeaderValue { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Value(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for Name { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Var(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for String { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Text(self@)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for Option<String> { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Op(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for u64 { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Id(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
impl Hash for usize { open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Index(*self)] } #[verifier::external_body] fn hash(&self, state: &mut TailcallHasher) { unimplemented!() } }
#[verifier::external_body] pub struct Variables { _p: () }
impl Variables {
    pub uninterp spec fn entries(&self) -> Seq<(Name, GValue)>;
    #[verifier::external_body] pub fn iter(&self) -> (r: It<(&Name, &GValue)>) ensures r@.len() == self.entries().len(), forall|i: int| #![trigger r@[i]] #![trigger self.entries()[i]] 0 <= i < r@.len() ==> (*r@[i].0, *r@[i].1) == self.entries()[i] { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.entries().len() == 0) { unimplemented!() }
}
pub mod async_graphql {
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] pub struct Rest { _p: () }
// what it asks for: a document, the name of the operation, and the variables; the rest has no say in the answer
pub struct Request { pub query: String, pub operation_name: Option<String>, pub variables: Variables, pub rest: Rest }
pub enum BatchRequest { Single(Request), Batch(Vec<Request>) }
pub open spec fn requests(b: BatchRequest) -> Seq<Request> { match b { BatchRequest::Single(r) => seq![r], BatchRequest::Batch(v) => v@ } }
impl BatchRequest {
    #[verifier::external_body] pub fn iter(&self) -> (r: It<&Request>) ensures r@.len() == requests(*self).len(), forall|i: int| #![trigger r@[i]] #![trigger requests(*self)[i]] 0 <= i < r@.len() ==> *r@[i] == requests(*self)[i] { unimplemented!() }
}
pub struct Value { pub rest: Rest }
} // verus!
}
pub use async_graphql::{BatchRequest, Value, requests};
} // verus!
}
pub use m_key::*;
pub mod m_spec {
// What is asked for, and what identifies it.
use vstd::prelude::*;
use super::*;
verus! {
pub struct Ask { pub query: Seq<char>, pub op: Option<String>, pub vars: Seq<(Name, GValue)> }
pub type Heads = Seq<(HeaderName, HeaderValue)>;
pub open spec fn ask(r: async_graphql::Request) -> Ask { Ask { query: r.query@, op: r.operation_name, vars: r.variables.entries() } }
pub open spec fn head_pieces(h: Heads) -> Seq<Piece> decreases h.len() { if h.len() == 0 { Seq::empty() } else { head_pieces(h.drop_last()) + seq![Piece::Name(h.last().0)] + seq![Piece::Value(h.last().1)] } }
pub open spec fn var_pieces(v: Seq<(Name, GValue)>) -> Seq<Piece> decreases v.len() { if v.len() == 0 { Seq::empty() } else { var_pieces(v.drop_last()) + seq![Piece::Var(v.last().0)] + seq![Piece::Text(shown(v.last().1))] } }
pub open spec fn op_pieces(a: Ask) -> Seq<Piece> { seq![Piece::Text(a.query)] + seq![Piece::Op(a.op)] }
pub open spec fn pieces_of(a: Ask) -> Seq<Piece> { op_pieces(a) + var_pieces(a.vars) }
pub open spec fn all_pieces(s: Seq<async_graphql::Request>) -> Seq<Piece> decreases s.len() { if s.len() == 0 { Seq::empty() } else { all_pieces(s.drop_last()) + pieces_of(ask(s.last())) } }
// the id is that of this request, sent alone or as one of a batch
pub open spec fn alone(id: u64, h: Heads, a: Ask) -> bool { meant(id) == head_pieces(h) + pieces_of(a) || meant(id) == head_pieces(h) + (Seq::empty() + pieces_of(a)) }
pub open spec fn batch(id: u64, h: Heads, s: Seq<async_graphql::Request>) -> bool { meant(id) == head_pieces(h) + all_pieces(s) }
pub open spec fn nth_of(id: u64, h: Heads, s: Seq<async_graphql::Request>, i: int) -> bool { exists|b: u64| #[trigger] meant(b) == head_pieces(h) + all_pieces(s) && meant(id) == seq![Piece::Id(b)] + seq![Piece::Index(i as usize)] }
pub open spec fn names(id: u64, h: Heads, a: Ask) -> bool { alone(id, h, a) || exists|s: Seq<async_graphql::Request>, i: int| 0 <= i < s.len() && i <= usize::MAX && #[trigger] nth_of(id, h, s, i) && ask(s[i]) == a }
} // verus!
}
pub use m_spec::*;
pub mod m_id {
use vstd::prelude::*;
use super::*;
verus! {
//@ rewrite /<H: std::hash::Hasher>/ =>
//@ rewrite /&mut H\b/ => &mut TailcallHasher
//@ rewrite /\.hash\(state\)/ => .hash(&mut *state)
pub struct GraphQLRequest(pub async_graphql::Request);
impl Hash for GraphQLRequest { open spec fn pieces(&self) -> Seq<Piece> { pieces_of(ask(self.0)) }
//@ fn src/core/async_graphql_hyper.rs :: impl Hash for GraphQLRequest :: fn hash vis=none
//@   start let ghost l0 = state.log();
//@   loop 1 it=it var=e_ invariant it.seq().len() == self.0.variables.entries().len(), forall|i: int| #![trigger it.seq()[i]] #![trigger self.0.variables.entries()[i]] 0 <= i < it.seq().len() ==> (*it.seq()[i].0, *it.seq()[i].1) == self.0.variables.entries()[i], state.log() =~= l0 + op_pieces(ask(self.0)) + var_pieces(self.0.variables.entries().take(it.index() as int)),
//@   loopend 1 proof { let v = self.0.variables.entries(); assert(v.take(it.index() as int + 1).drop_last() =~= v.take(it.index() as int)); }
//@   end proof { let v = self.0.variables.entries(); assert(v.take(v.len() as int) =~= v); assert(state.log() =~= l0 + self.pieces()); }
}
pub struct GraphQLBatchRequest(pub async_graphql::BatchRequest);
impl Hash for GraphQLBatchRequest { open spec fn pieces(&self) -> Seq<Piece> { all_pieces(requests(self.0)) }
//@ fn src/core/async_graphql_hyper.rs :: impl Hash for GraphQLBatchRequest :: fn hash vis=none
//@   start let ghost l0 = state.log();
//@   loop 1 it=it var=q_ invariant it.seq().len() == requests(self.0).len(), forall|i: int| #![trigger it.seq()[i]] #![trigger requests(self.0)[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == requests(self.0)[i], state.log() =~= l0 + all_pieces(requests(self.0).take(it.index() as int)),
//@   loopstart 1 let ghost l1 = state.log();
//@   loopend 1 proof { let v = requests(self.0); assert(v.take(it.index() as int + 1).drop_last() =~= v.take(it.index() as int)); let w = request.variables.entries(); assert(w.take(w.len() as int) =~= w); assert(state.log() =~= l1 + pieces_of(ask(*request))); }
//@   loop 2 it=jt var=e_ invariant jt.seq().len() == request.variables.entries().len(), forall|i: int| #![trigger jt.seq()[i]] #![trigger request.variables.entries()[i]] 0 <= i < jt.seq().len() ==> (*jt.seq()[i].0, *jt.seq()[i].1) == request.variables.entries()[i], state.log() =~= l1 + op_pieces(ask(*request)) + var_pieces(request.variables.entries().take(jt.index() as int)),
//@   loopend 2 proof { let v = request.variables.entries(); assert(v.take(jt.index() as int + 1).drop_last() =~= v.take(jt.index() as int)); }
//@   end proof { let v = requests(self.0); assert(v.take(v.len() as int) =~= v); }
}
pub struct OperationId(pub u64);
impl OperationId {
//@ fn src/core/async_graphql_hyper.rs :: impl OperationId :: fn nth
//@   sub /&mut hasher/ => &mut hasher
//@   spec ensures meant(r.0) =~= seq![Piece::Id(self.0)] + seq![Piece::Index(index)], forall|h: Heads, s: Seq<async_graphql::Request>| #[trigger] batch(self.0, h, s) ==> nth_of(r.0, h, s, index as int)
}
pub trait GraphQLRequestLike: Hash {
//@ fn src/core/async_graphql_hyper.rs :: trait GraphQLRequestLike :: fn operation_id vis=none
//@   before 1 let ghost l0 = state.log();
//@   loop 1 it=it var=e_ invariant it.seq().len() == headers.entries().len(), forall|i: int| #![trigger it.seq()[i]] #![trigger headers.entries()[i]] 0 <= i < it.seq().len() ==> (*it.seq()[i].0, *it.seq()[i].1) == headers.entries()[i], state.log() =~= head_pieces(headers.entries().take(it.index() as int)),
//@   loopend 1 proof { let v = headers.entries(); assert(v.take(it.index() as int + 1).drop_last() =~= v.take(it.index() as int)); }
//@   after 1 proof { let v = headers.entries(); assert(v.take(v.len() as int) =~= v); }
//@   spec ensures meant(r.0) == head_pieces(headers.entries()) + self.pieces()
}
} // verus!
}
pub use m_id::OperationId;
pub mod m_exec {
// Assumed contracts of what the executor is made of.
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] pub struct Plan { _p: () }
pub struct OperationPlan { pub is_const: bool, pub is_protected: bool, pub rest: Plan }
impl Clone for OperationPlan { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl OperationPlan {
    // C29, unit sharing
    #[verifier::external_body] pub fn can_dedupe(&self) -> bool { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(V)] pub struct AnyResponse<V> { _p: core::marker::PhantomData<V> }
pub type Answer = AnyResponse<Vec<u8>>;
impl<V> Clone for AnyResponse<V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Error { _p: () }
#[verifier::external_body] pub struct AppContextRest { _p: () }
pub struct AppContext { pub const_execution_cache: ConstCache, pub operation_plans: Plans, pub dedupe_operation_handler: Dedupe, pub rest: AppContextRest }
#[verifier::external_body] pub struct RequestContext { _p: () }
impl RequestContext {
    // the headers of the request it was made for
    pub uninterp spec fn headers(&self) -> Heads;
}
// the plan of an operation, or why there is none
pub uninterp spec fn planned(query: Seq<char>, op: Option<String>) -> core::result::Result<OperationPlan, Error>;
// an answer that running the plan gives
pub uninterp spec fn answered(p: OperationPlan, vars: Seq<(Name, GValue)>, h: Heads, r: Answer) -> bool;
pub uninterp spec fn refusal(e: Error) -> Answer;
pub open spec fn right(h: Heads, a: Ask, r: Answer) -> bool { match planned(a.query, a.op) { Ok(p) => answered(p, a.vars, h, r), Err(e) => r == refusal(e) } }
// a plan marked constant and not protected, given no variables, has the same answers for everyone (C29, unit sharing: what gets these marks)
pub broadcast axiom fn constant(p: OperationPlan, h: Heads, k: Heads, r: Answer)
    requires p.is_const, !p.is_protected, #[trigger] answered(p, Seq::empty(), h, r)
    ensures #[trigger] answered(p, Seq::empty(), k, r);
pub struct OPHash(pub u64);
impl Clone for OPHash { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl OPHash {
//@ fn src/core/jit/model.rs :: impl OPHash :: fn new
//@   spec ensures r.0 == hash
}
pub open spec fn of_op(hash: OPHash, query: Seq<char>, op: Option<String>) -> bool { meant(hash.0) == seq![Piece::Text(query)] + seq![Piece::Op(op)] }
// the answers for everyone: none is put in that is not, so none comes out
#[verifier::external_body] pub struct Shared { _p: () }
impl Shared { pub uninterp spec fn answer(&self) -> Answer; #[verifier::external_body] pub fn clone(&self) -> (r: Answer) ensures r == self.answer() { unimplemented!() } }
#[verifier::external_body] pub struct ConstCache { _p: () }
impl ConstCache {
    #[verifier::external_body] pub fn get(&self, hash: &OPHash) -> (r: Option<Shared>)
        ensures r is Some ==> forall|q: Seq<char>, op: Option<String>, h: Heads| of_op(*hash, q, op) ==> #[trigger] right(h, Ask { query: q, op: op, vars: Seq::empty() }, (r->0).answer()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&self, hash: OPHash, r: Answer)
        requires exists|q: Seq<char>, op: Option<String>| #[trigger] of_op(hash, q, op) && forall|h: Heads| #[trigger] right(h, Ask { query: q, op: op, vars: Seq::empty() }, r) { unimplemented!() }
}
#[verifier::external_body] pub struct Plans { _p: () }
#[verifier::external_body] pub struct Kept { _p: () }
impl Kept { pub uninterp spec fn plan(&self) -> OperationPlan; #[verifier::external_body] pub fn value(&self) -> (r: &OperationPlan) ensures *r == self.plan() { unimplemented!() } }
impl Plans {
    #[verifier::external_body] pub fn get(&self, hash: &OPHash) -> (r: Option<Kept>)
        ensures r is Some ==> forall|q: Seq<char>, op: Option<String>| of_op(*hash, q, op) ==> #[trigger] planned(q, op) == core::result::Result::<OperationPlan, Error>::Ok((r->0).plan()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&self, hash: OPHash, p: OperationPlan)
        requires exists|q: Seq<char>, op: Option<String>| #[trigger] of_op(hash, q, op) && planned(q, op) == core::result::Result::<OperationPlan, Error>::Ok(p) { unimplemented!() }
}
// runs the closure or gives what another run under the same id gives (C06)
#[verifier::external_body] pub struct Dedupe { _p: () }
impl Dedupe {
    #[verifier::external_body] pub fn dedupe<F: FnOnce() -> core::result::Result<Answer, Error>>(&self, id: &OperationId, f: F) -> (r: core::result::Result<Answer, Error>)
        requires f.requires(()), exists|h: Heads, a: Ask| #[trigger] names(id.0, h, a) && forall|r: core::result::Result<Answer, Error>| f.ensures((), r) ==> r is Ok && #[trigger] right(h, a, r->Ok_0)
        ensures r is Ok, forall|h: Heads, a: Ask| names(id.0, h, a) ==> #[trigger] right(h, a, r->Ok_0) { unimplemented!() }
}
pub trait OrDefault<T> { spec fn got(&self) -> core::result::Result<T, Error>; fn or_default_(self) -> (r: T) ensures self.got() is Ok ==> r == self.got()->Ok_0; }
impl OrDefault<Answer> for core::result::Result<Answer, Error> { open spec fn got(&self) -> core::result::Result<Answer, Error> { *self } #[verifier::external_body] fn or_default_(self) -> Answer { unimplemented!() } }
pub mod jit {
use vstd::prelude::*;
use super::*;
verus! {
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Request<V> { _p: core::marker::PhantomData<V> }
impl<V> Request<V> { pub uninterp spec fn ask(&self) -> Ask; }
impl Request<ConstValue> { #[verifier::external_body] pub fn from(r: async_graphql::Request) -> (q: Self) ensures q.ask() == ask(r) { unimplemented!() } }
} // verus!
}
#[verifier::external_body] pub struct ConstValue { _p: () }
pub struct ConstValueExecutor { pub plan: OperationPlan }
impl ConstValueExecutor {
    #[verifier::external_body] pub fn from(plan: OperationPlan) -> (r: Self) ensures r.plan == plan { unimplemented!() }
    #[verifier::external_body] pub fn try_new(q: &jit::Request<ConstValue>, app: &Arc<AppContext>) -> (r: core::result::Result<Self, Error>)
        ensures planned(q.ask().query, q.ask().op) == (match r { Ok(x) => core::result::Result::<OperationPlan, Error>::Ok(x.plan), Err(e) => Err(e) }) { unimplemented!() }
    #[verifier::external_body] pub fn execute(self, app: &Arc<AppContext>, ctx: &Arc<RequestContext>, q: jit::Request<ConstValue>) -> (r: Answer) ensures answered(self.plan, q.ask().vars, ctx.headers(), r) { unimplemented!() }
}
pub use std::sync::Arc;
pub struct Pos { }
impl Pos { #[verifier::external_body] pub fn default() -> Pos { unimplemented!() } }
pub struct Positioned<T> { pub value: T, pub pos: Pos }
impl<T> Positioned<T> { pub fn new(value: T, pos: Pos) -> (r: Self) ensures r.value == value { Positioned { value, pos } } }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct Response<V> { _p: core::marker::PhantomData<V> }
impl<V> Response<V> {
    // an error it holds, if it holds nothing else
    pub uninterp spec fn error(&self) -> Option<Error>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.error() is None { unimplemented!() }
    #[verifier::external_body] pub fn with_errors(self, e: Vec<Positioned<Error>>) -> (r: Self) ensures e@.len() == 1 ==> r.error() == Some(e@[0].value) { unimplemented!() }
    #[verifier::external_body] pub fn into(self) -> (r: Answer) ensures self.error() is Some ==> r == refusal(self.error()->0) { unimplemented!() }
}
pub enum BatchResponse<Body> { Single(AnyResponse<Body>), Batch(Vec<AnyResponse<Body>>) }
pub struct FuturesOrdered;
impl FuturesOrdered { #[verifier::external_body] pub fn from_iter<T>(s: It<T>) -> (r: It<T>) ensures r@ == s@ { unimplemented!() } }
} // verus!
}
pub use m_exec::*;
pub mod m_jit {
use vstd::prelude::*;
use super::*;
verus! {
broadcast use super::m_exec::constant;
pub struct JITExecutor { pub app_ctx: Arc<AppContext>, pub req_ctx: Arc<RequestContext>, pub operation_id: OperationId }
impl Clone for JITExecutor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ text src/core/jit/graphql_executor.rs /#\[derive\(Clone\)\] ?pub struct JITExecutor\{app_ctx:Arc<AppContext>,req_ctx:Arc<RequestContext>,operation_id:OperationId,?\}/
impl JITExecutor {
//@ fn src/core/jit/graphql_executor.rs :: impl JITExecutor :: fn new
//@   spec ensures r == (JITExecutor { app_ctx, req_ctx, operation_id })
//@ fn src/core/jit/graphql_executor.rs :: impl JITExecutor :: fn exec async=drop
//@   spec ensures answered(exec.plan, jit_request.ask().vars, self.req_ctx.headers(), r)
//@ fn src/core/jit/graphql_executor.rs :: impl JITExecutor :: fn req_hash
//@   spec ensures of_op(r, request.query@, request.operation_name)
//@ fn src/core/jit/graphql_executor.rs :: impl JITExecutor :: fn dedupe_and_exec async=drop
//@   opt /\.unwrap_or_default\(\)/ => .or_default_()
//@   sub /Box::pin\(async move (\{[^{}]*\})\)/ => \1
//@   sub /&self\.operation_id, \|\| \{/ => &self.operation_id, || -> (o: core::result::Result<Answer, Error>) requires true ensures o is Ok, answered(exec.plan, jit_request.ask().vars, self.req_ctx.headers(), o->Ok_0) {
//@   spec requires names(self.operation_id.0, self.req_ctx.headers(), jit_request.ask()), planned(jit_request.ask().query, jit_request.ask().op) == core::result::Result::<OperationPlan, Error>::Ok(exec.plan) ensures right(self.req_ctx.headers(), jit_request.ask(), r)
//@ fn src/core/jit/graphql_executor.rs :: impl JITExecutor :: fn execute async=drop
//@   start proof { if request.variables.entries().len() == 0 { assert(request.variables.entries() =~= Seq::empty()); } }
//@   sub /impl Future<Output = AnyResponse<Vec<u8>>> \+ Send \+ '_/ => AnyResponse<Vec<u8>>
//@   sub /async move \{/ => {
//@   spec requires names(self.operation_id.0, self.req_ctx.headers(), ask(request)) ensures right(self.req_ctx.headers(), ask(request), r)
//@ fn src/core/jit/graphql_executor.rs :: impl JITExecutor :: fn execute_batch async=drop
//@   sub /async move \{/ => {
//@   sub /requests\.into_iter\(\)/ => requests.into_it_()
//@   sub /\.collect::<Vec<_>>\(\)/ => .vec_()
//@   start let ghost reqs = requests(batch_request);
//@   closurelet 1 |a0: (usize, async_graphql::Request)| -> (o: Answer) requires 0 <= a0.0 < reqs.len(), a0.1 == reqs[a0.0 as int] ensures right(self.req_ctx.headers(), ask(a0.1), o)
//@   spec requires match batch_request { BatchRequest::Single(q) => names(self.operation_id.0, self.req_ctx.headers(), ask(q)), BatchRequest::Batch(s) => batch(self.operation_id.0, self.req_ctx.headers(), s@) } ensures match (batch_request, r) { (BatchRequest::Single(q), BatchResponse::Single(o)) => right(self.req_ctx.headers(), ask(q), o), (BatchRequest::Batch(s), BatchResponse::Batch(o)) => o@.len() == s@.len() && forall|i: int| 0 <= i < s@.len() ==> right(self.req_ctx.headers(), ask(s@[i]), #[trigger] o@[i]), _ => false }
}
} // verus!
}
fn main() {}

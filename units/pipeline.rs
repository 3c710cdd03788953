#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
pub mod m_pipe {
// The steps of a request as far as used here: each relation is what the unit named beside it proves of the step.
use vstd::prelude::*;
use super::*;
verus! {
// ---- values of requests and answers by their content
pub enum ConstValue { Other_(Rest_), Object(Entries) }
#[verifier::external_body] pub struct Rest_ { _p: () }
#[verifier::external_body] pub struct Key_ { _p: () }
impl View for Key_ { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Key_ { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
impl Clone for ConstValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
// an answer's entries, each name once
pub struct Entries { pub all: Vec<(Key_, ConstValue)> }
impl Entries {
    #[verifier::external_body] pub fn it_(&self) -> (r: It<(&Key_, &ConstValue)>) ensures r@.len() == self.all@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> *(r@[i].0) == self.all@[i].0 && *(r@[i].1) == self.all@[i].1 { unimplemented!() }
}
pub struct Obj { pub _p: Rest_ }
impl Obj {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, Value>;
    #[verifier::external_body] pub fn get_key(&self, k: &str) -> (r: Option<&Value>) ensures match r { Some(v) => self.m().contains_key(k@) && self.m()[k@] == *v, None => !self.m().contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn insert_key(&mut self, k: &str, v: Value) ensures final(self).m() == old(self).m().insert(k@, v) { unimplemented!() }
}
pub enum Value { Null, Leaf(Rest_), Obj(Obj) }
pub uninterp spec fn copied(v: ConstValue) -> Value;
impl Value {
    #[verifier::external_body] pub fn clone_from(v: &ConstValue) -> (r: Value) ensures r == copied(*v) { unimplemented!() }
    #[verifier::external_body] pub fn as_object_mut(&mut self) -> (r: Option<&mut Obj>)
        ensures match r { Some(o) => *old(self) == Value::Obj(*o) && *final(self) == Value::Obj(*final(o)), None => *final(self) == *old(self) && !(*old(self) is Obj) } { unimplemented!() }
}
pub trait Null_: Sized { spec fn nil() -> Self; fn default() -> (r: Self) ensures r == Self::nil(); }
impl Null_ for Value { open spec fn nil() -> Value { Value::Null } fn default() -> Value { Value::Null } }
pub uninterp spec fn const_null() -> ConstValue;
impl Null_ for ConstValue { open spec fn nil() -> ConstValue { const_null() } #[verifier::external_body] fn default() -> ConstValue { unimplemented!() } }
// ---- variables
#[verifier::external_body] pub struct Variables { _p: () }
impl Variables {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, ConstValue>;
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&ConstValue>) ensures match r { Some(v) => self.m().contains_key(k@) && self.m()[k@] == *v, None => !self.m().contains_key(k@) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: ConstValue) ensures final(self).m() == old(self).m().insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub axiom fn axiom_variables(a: Variables, b: Variables) requires a.m() == b.m() ensures a == b;
// ---- the request and what it runs in
#[verifier::external_body] pub struct IR { _p: () }
#[verifier::external_body] pub struct Fields_ { _p: () }
pub struct OperationPlan { pub before: Option<IR>, pub default_variables: Vec<(String, ConstValue)>, pub is_introspection_query: bool, pub selection: Fields_ }
pub struct Server { pub enable_introspection: bool }
impl Server { pub fn get_enable_introspection(&self) -> (r: bool) ensures r == self.enable_introspection { self.enable_introspection } }
pub struct RequestContext { pub server: Server, pub rest_: Rest_ }
#[verifier::external_body] pub struct AppContext { _p: () }
pub struct Request { pub query: String, pub operation_name: Option<String>, pub variables: Variables, pub extensions: Rest_ }
// ---- errors
#[verifier::external_body] pub struct Error { _p: () }
impl Error { #[verifier::external_body] pub fn text_(self) -> String { unimplemented!() } }
#[verifier::external_body] pub fn unknown_() -> String { unimplemented!() }
#[verifier::external_body] pub struct ServerError { _p: () }
impl Clone for ServerError { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn clones_(v: &Vec<ServerError>) -> (r: It<ServerError>) ensures r@ == v@ { unimplemented!() }
pub struct PosError { pub of_: Error }
pub struct GraphQLError { pub message: String, pub rest_: Rest_ }
pub trait Told: Sized { spec fn told(self) -> GraphQLError; fn told_(self) -> (r: GraphQLError) ensures r == self.told(); }
pub uninterp spec fn of_server(e: ServerError) -> GraphQLError;
pub uninterp spec fn of_pos(e: PosError) -> GraphQLError;
impl Told for ServerError { open spec fn told(self) -> GraphQLError { of_server(self) } #[verifier::external_body] fn told_(self) -> GraphQLError { unimplemented!() } }
impl Told for PosError { open spec fn told(self) -> GraphQLError { of_pos(self) } #[verifier::external_body] fn told_(self) -> GraphQLError { unimplemented!() } }
impl Told for GraphQLError { open spec fn told(self) -> GraphQLError { self } fn told_(self) -> GraphQLError { self } }
impl GraphQLError { #[verifier::external_body] pub fn new(m: String, p: Option<Rest_>) -> (r: GraphQLError) { unimplemented!() } }
pub open spec fn errors_of<E: Told>(s: Seq<E>) -> Seq<GraphQLError> { s.map_values(|e: E| e.told()) }
// ---- the steps
// what is left of a plan with these variables (unit select: `pruned`)
pub uninterp spec fn left(v: Variables, p: OperationPlan, q: OperationPlan) -> bool;
// the plan whose protections are all checked before it (unit guard: AuthPlanner::transform)
pub uninterp spec fn planned(p: OperationPlan, q: OperationPlan) -> bool;
// this resolver's evaluation for the request ended without an error (unit guard: it is then allowed to the request)
pub uninterp spec fn passed(ir: IR, req: RequestContext) -> bool;
// or with an error
pub uninterp spec fn denied(ir: IR, req: RequestContext) -> bool;
// the plan with the values of its arguments (unit inputs: `given`), or what is missing
pub uninterp spec fn supplied(v: Variables, p: OperationPlan, q: OperationPlan) -> bool;
pub uninterp spec fn lacking(v: Variables, p: OperationPlan) -> bool;
// the store after all resolvers of the plan have run for the request (unit executor: `held`)
pub uninterp spec fn ran(p: OperationPlan, req: RequestContext, s: Store) -> bool;
// the answer put together from it (unit shape: `top`)
pub uninterp spec fn answer(p: OperationPlan, s: Store, v: Variables) -> Result<Value, PosError>;
// errors that were added aside
pub uninterp spec fn aside(p: OperationPlan, req: RequestContext) -> Seq<PosError>;
pub struct Skip<'a> { pub variables: &'a Variables }
pub struct Valid_<T> { pub of: Result<T, Error> }
impl<T> Valid_<T> { #[verifier::external_body] pub fn to_result(self) -> (r: Result<T, Error>) ensures r == self.of { unimplemented!() } }
impl<'a> Skip<'a> {
    pub fn new(variables: &'a Variables) -> (r: Self) ensures r.variables == variables { Skip { variables } }
    #[verifier::external_body] pub fn transform(&self, p: OperationPlan) -> (r: Valid_<OperationPlan>) ensures r.of is Ok, left(*self.variables, p, r.of->Ok_0) { unimplemented!() }
}
pub struct AuthPlanner {}
impl AuthPlanner {
    pub fn new() -> Self { AuthPlanner {} }
    #[verifier::external_body] pub fn transform(&self, p: OperationPlan) -> (r: Valid_<OperationPlan>) ensures r.of is Ok, planned(p, r.of->Ok_0) { unimplemented!() }
}
pub struct EmptyResolverContext {}
pub struct EvalContext<'a> { pub req_: &'a RequestContext }
impl<'a> EvalContext<'a> { pub fn new(req: &'a RequestContext, c: &EmptyResolverContext) -> (r: Self) ensures r.req_ == req { EvalContext { req_: req } } }
impl IR { #[verifier::external_body] pub fn eval(&self, c: &mut EvalContext) -> (r: Result<Value, Error>) ensures match r { Ok(_) => passed(*self, *old(c).req_), Err(_) => denied(*self, *old(c).req_) } { unimplemented!() } }
pub struct InputResolver { pub plan: OperationPlan }
impl InputResolver {
    pub fn new(plan: OperationPlan) -> (r: Self) ensures r.plan == plan { InputResolver { plan } }
    #[verifier::external_body] pub fn resolve_input(self, v: &Variables) -> (r: Result<OperationPlan, Error>) ensures match r { Ok(q) => supplied(*v, self.plan, q), Err(_) => lacking(*v, self.plan) } { unimplemented!() }
}
// nothing of a plan may run before what is checked before it lets the request in
pub open spec fn cleared(p: OperationPlan, req: RequestContext) -> bool { exists|v: Variables, a: OperationPlan, b: OperationPlan| #[trigger] planned(a, b) && #[trigger] supplied(v, b, p) && (b.before is Some ==> passed(b.before->0, req)) }
pub struct ConstValueExec<'a> { pub plan: &'a OperationPlan, pub req: &'a RequestContext }
impl<'a> ConstValueExec<'a> { pub fn new(plan: &'a OperationPlan, req: &'a RequestContext) -> (r: Self) ensures r.plan == plan, r.req == req { ConstValueExec { plan, req } } }
#[verifier::external_body] pub struct Store { _p: () }
pub struct Synth<'a> { pub plan: &'a OperationPlan, pub store: Store, pub variables: Variables }
impl<'a> Synth<'a> {
    pub fn new(plan: &'a OperationPlan, store: Store, variables: Variables) -> (r: Self) ensures r.plan == plan, r.store == store, r.variables == variables { Synth { plan, store, variables } }
    #[verifier::external_body] pub fn synthesize(&'a self) -> (r: Result<Value, PosError>) ensures r == answer(*self.plan, self.store, self.variables) { unimplemented!() }
}
pub struct ExecContext<'a> { pub plan: &'a OperationPlan, pub req_: &'a RequestContext }
pub struct Executor<'a> { pub ctx: ExecContext<'a>, pub exec_: ConstValueExec<'a> }
impl<'a> ExecContext<'a> { #[verifier::external_body] pub fn errors_(&self) -> (r: Vec<PosError>) ensures r@ == aside(*self.plan, *self.req_) { unimplemented!() } }
impl<'a> Executor<'a> {
    pub fn new(plan: &'a OperationPlan, exec_: ConstValueExec<'a>) -> (r: Self) ensures r.ctx.plan == plan, r.ctx.req_ == exec_.req, r.exec_ == exec_ { Executor { ctx: ExecContext { plan, req_: exec_.req }, exec_ } }
    #[verifier::external_body] pub fn store(&self) -> (r: Store) requires self.exec_.plan == self.ctx.plan, cleared(*self.ctx.plan, *self.exec_.req) ensures ran(*self.ctx.plan, *self.exec_.req, r) { unimplemented!() }
}
// ---- introspection by async-graphql
pub struct AsyncRequest { pub query: String, pub variables: Variables, pub only_schema: bool }
impl AsyncRequest {
    #[verifier::external_body] pub fn from(r: Request) -> (a: Self) ensures a.query == r.query, a.variables == r.variables, !a.only_schema { unimplemented!() }
    pub fn only_introspection(self) -> (a: Self) ensures a == (AsyncRequest { only_schema: true, ..self }) { AsyncRequest { only_schema: true, ..self } }
}
pub struct AsyncResponse { pub data: ConstValue, pub errors: Vec<ServerError>, pub extensions: Rest_ }
pub uninterp spec fn about(q: AsyncRequest, r: AsyncResponse) -> bool;
impl AppContext { #[verifier::external_body] pub fn execute(&self, q: AsyncRequest) -> (r: AsyncResponse) ensures about(q, r) { unimplemented!() } }
impl AsyncResponse { #[verifier::external_body] pub fn extensions_<V>(&self) -> Vec<(String, V)> { unimplemented!() } }
// ---- what is sent
pub struct CacheControl { pub max_age: i32, pub public: bool }
impl CacheControl { #[verifier::external_body] pub fn default() -> CacheControl { unimplemented!() } }
#[verifier::external_body] pub struct JsonError { _p: () }
pub uninterp spec fn bytes<V>(r: Response<V>) -> Seq<u8>;
#[verifier::external_body] pub fn to_vec_<V>(r: &Response<V>) -> (o: Result<Vec<u8>, JsonError>) ensures o is Ok && o->Ok_0@ == bytes(*r) { unimplemented!() }
#[verifier::external_body] pub fn or_default_(o: Result<Vec<u8>, JsonError>) -> (r: Vec<u8>) ensures o is Ok ==> r == o->Ok_0 { unimplemented!() }
} // verus!
}
use m_pipe::*;
verus! {
broadcast use axiom_string_ext;
//@ rewrite /\b(e|error|errors)\.into\(\)/ => \1.told_()
//@ item src/core/jit/response.rs :: struct Response
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@   opt /#\[serde\([^\]]*\)\]/ => 
//@ item src/core/jit/response.rs :: struct AnyResponse
//@   opt /#\[derive\([^\]]*\)\]/ => 
//@   opt /Arc<Body>/ => Box<Body>
pub open spec fn empty<V: Null_>(r: Response<V>) -> bool { r.data == V::nil() && r.errors@.len() == 0 && r.extensions@.len() == 0 }
impl<Value: Null_> Response<Value> {
    pub fn default() -> (r: Self) ensures empty(r) { Response { data: Value::default(), errors: Vec::new(), extensions: Vec::new(), cache_control: CacheControl::default() } }
//@ fn src/core/jit/response.rs :: impl<Value: Default> Response<Value> :: fn new
//@   opt /Positioned<jit::Error>/ => PosError
//@   spec ensures r.extensions@.len() == 0, match result { Ok(v) => r.data == v && r.errors@.len() == 0, Err(e) => r.data == Value::nil() && r.errors@ == seq![of_pos(e)] }
//@ fn src/core/jit/response.rs :: impl<Value: Default> Response<Value> :: fn with_value
//@   spec ensures r == (Response { data: value, ..self })
//@ fn src/core/jit/response.rs :: impl<Value: Default> Response<Value> :: fn with_errors
//@   opt /Into<GraphQLError>/ => Told
//@   opt /errors\.into_iter\(\)/ => errors.into_it_()
//@   opt /\.collect\(\)/ => .vec_()
//@   closure 1 |$0: E| -> (o: GraphQLError) ensures o == $0.told()
//@   tail proof { assert(ret_.errors@ =~= errors_of(errors@)); }
//@   spec ensures r == (Response { errors: r.errors, ..self }), r.errors@ == errors_of(errors@)
//@ fn src/core/jit/response.rs :: impl<Value: Default> Response<Value> :: fn add_errors
//@   opt /Positioned<jit::Error>/ => PosError
//@   opt /self\.errors\s*\.extend\(([^;]*)\);/ => self.errors.append(&mut \1.vec_());
//@   opt /new_errors\.into_iter\(\)/ => new_errors.into_it_()
//@   closure 1 |$0: PosError| -> (o: GraphQLError) ensures o == of_pos($0)
//@   spec ensures final(self).data == old(self).data, final(self).extensions == old(self).extensions, final(self).errors@ == old(self).errors@ + errors_of(new_errors@)
}
// the answer with what introspection says: nothing that is there is replaced
pub open spec fn joined(a: Value, b: ConstValue, r: Value) -> bool {
    match b {
        ConstValue::Object(e) => match a {
            Value::Obj(o) => r is Obj && kept_(o, r->Obj_0) && news(o, r->Obj_0, e, e.all@.len() as int),
            _ => r == copied(b),
        },
        _ => r == a,
    }
}
pub open spec fn kept_(o: Obj, p: Obj) -> bool { forall|k: Seq<char>| #![trigger o.m().contains_key(k)] #![trigger p.m().contains_key(k)] o.m().contains_key(k) ==> p.m().contains_key(k) && p.m()[k] == o.m()[k] }
pub open spec fn news(o: Obj, p: Obj, e: Entries, n: int) -> bool { forall|k: Seq<char>| !o.m().contains_key(k) ==> #[trigger] p.m().contains_key(k) == brought(e, n, k, None) && (p.m().contains_key(k) ==> brought(e, n, k, Some(p.m()[k]))) }
// one of the first entries has this name (and this value)
pub open spec fn brought(e: Entries, n: int, k: Seq<char>, v: Option<Value>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] e.all@[i]).0@ == k && (v is Some ==> v->0 == copied(e.all@[i].1)) }
pub proof fn lemma_news(o: Obj, p: Obj, q: Obj, e: Entries, n: int)
    requires 0 <= n < e.all@.len(), kept_(o, p), news(o, p, e, n), if p.m().contains_key(e.all@[n].0@) { q == p } else { q.m() == p.m().insert(e.all@[n].0@, copied(e.all@[n].1)) }
    ensures kept_(o, q), news(o, q, e, n + 1)
{
    let x = e.all@[n].0@;
    assert forall|k: Seq<char>| !o.m().contains_key(k) implies #[trigger] q.m().contains_key(k) == brought(e, n + 1, k, None) && (q.m().contains_key(k) ==> brought(e, n + 1, k, Some(q.m()[k]))) by {
        assert(p.m().contains_key(k) == brought(e, n, k, None));
        if brought(e, n, k, None) { let i = choose|i: int| 0 <= i < n && (#[trigger] e.all@[i]).0@ == k; assert(e.all@[i].0@ == k); }
        if brought(e, n + 1, k, None) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] e.all@[i]).0@ == k; assert(e.all@[i].0@ == k); if i < n { assert(brought(e, n, k, None)); } }
        if p.m().contains_key(k) { let v = p.m()[k]; let i = choose|i: int| 0 <= i < n && (#[trigger] e.all@[i]).0@ == k && v == copied(e.all@[i].1); assert(0 <= i < n + 1 && e.all@[i].0@ == k && v == copied(e.all@[i].1)); assert(q.m()[k] == v); }
        else if k == x { assert(e.all@[n].0@ == k); }
    }
}
impl Response<Value> {
//@ fn src/core/jit/response.rs :: impl<'a, Value> Response<Value> where Value: JsonLike<'a>, :: fn merge_with
//@   opt /&'a async_graphql::Response/ => &AsyncResponse
//@   opt /async_graphql::Value::Object/ => ConstValue::Object
//@   opt /in other_obj \{/ => in other_obj.it_() {
//@   closure 1 |$0: ServerError| -> (o: GraphQLError) ensures o == of_server($0)
//@   tail proof { assert(this_.errors@ =~= self.errors@ + errors_of(other.errors@)); }
//@   before 1 let ghost o0 = *self_obj;
//@   loopstart 1 let ghost p_ = *self_obj; let ghost n_ = it_.index() as int;
//@   loopend 1 proof { lemma_news(o0, p_, *self_obj, *other_obj, n_); }
//@   loop 1 it=it_ invariant it_.seq().len() == other_obj.all@.len(), forall|i: int| #![trigger it_.seq()[i]] 0 <= i < it_.seq().len() ==> *(it_.seq()[i].0) == other_obj.all@[i].0 && *(it_.seq()[i].1) == other_obj.all@[i].1, kept_(o0, *self_obj), news(o0, *self_obj, *other_obj, it_.index() as int)
//@   opt /self\.errors\s*\.extend\(([^;]*)\);/ => self.errors.append(&mut \1.vec_());
//@   opt /other\.errors\.iter\(\)\.cloned\(\)/ => clones_(&other.errors)
//@   opt /self\.extensions\.extend\(\s*other[^;]*\);/ => self.extensions.append(&mut other.extensions_());
//@   spec ensures joined(self.data, other.data, r.data), r.errors@ == self.errors@ + errors_of(other.errors@), r.cache_control == self.cache_control
}
impl AnyResponse<Vec<u8>> {
//@ fn src/core/jit/response.rs :: impl<V: Serialize> From<Response<V>> for AnyResponse<Vec<u8>> :: fn from
//@   sub /fn from\(/ => fn from<V>(
//@   opt /Arc::new\(/ => Box::new(
//@   opt /serde_json::to_vec\(&response\)\.unwrap_or_default\(\)/ => or_default_(to_vec_(&response))
//@   spec ensures sent(response, r)
}
// an answer is sent as its content, and is ok exactly if it has no errors
pub open spec fn sent<V>(a: Response<V>, r: AnyResponse<Vec<u8>>) -> bool { (*r.body)@ == bytes(a) && r.is_ok == (a.errors@.len() == 0) && r.cache_control == a.cache_control }
impl<'a> Executor<'a> {
//@ fn src/core/jit/exec.rs :: impl<'a, Input, Value, Exec> Executor<'a, Exec, Input> where Value: for<'b> JsonLike<'b> + Debug + Clone + Default, Input: Clone + Debug, Exec: IRExecutor<Input = Input, Output = Value, Error = jit::Error>, :: fn execute async=drop
//@   sub /<Output>\(/ => (
//@   sub /Synth<'a, Value>/ => Synth<'a>
//@   sub /Response<Output>/ => Response<Value>
//@   opt /where\s+Output: JsonLike<'a> \+ Default,/ => 
//@   opt /self\.ctx\.errors\(\)\.clone\(\)/ => self.ctx.errors_()
//@   spec ensures answered(*self.ctx.plan, *self.ctx.req_, answer(*synth.plan, synth.store, synth.variables), r)
}
pub open spec fn answered(p: OperationPlan, req: RequestContext, a: Result<Value, PosError>, r: Response<Value>) -> bool {
    &&& r.extensions@.len() == 0
    &&& r.data == match a { Ok(v) => v, Err(_) => Value::Null }
    &&& r.errors@ == (match a { Ok(_) => Seq::<GraphQLError>::empty(), Err(e) => seq![of_pos(e)] }) + errors_of(aside(p, req))
}
// ---- what the property says
// the variables of the request, with the defaults of the operation for those that it doesn't have (the first of a name)
pub open spec fn with_defaults(v: Map<Seq<char>, ConstValue>, d: Seq<(String, ConstValue)>) -> Map<Seq<char>, ConstValue> decreases d.len() {
    if d.len() == 0 { v } else { let m = with_defaults(v, d.drop_last()); if m.contains_key(d.last().0@) { m } else { m.insert(d.last().0@, d.last().1) } }
}
// no data, and an error
pub open spec fn refused(r: AnyResponse<Vec<u8>>) -> bool { exists|a: Response<ConstValue>| #[trigger] sent(a, r) && a.data == const_null() && a.errors@.len() == 1 && a.extensions@.len() == 0 }
pub open spec fn reply(p: OperationPlan, req: RequestContext, q: Request, v: Variables, r: AnyResponse<Vec<u8>>) -> bool {
    exists|a: OperationPlan, b: OperationPlan| #[trigger] left(v, p, a) && #[trigger] planned(a, b) && (
        (b.before is Some && denied(b.before->0, req) && refused(r))
        || ((b.before is Some ==> passed(b.before->0, req)) && ((lacking(v, b) && refused(r)) || exists|c: OperationPlan, s: Store| #[trigger] supplied(v, b, c) && #[trigger] ran(c, req, s) && exists|x: Response<Value>, y: Response<Value>| #[trigger] answered(c, req, answer(c, s, v), x) && #[trigger] sent(y, r) && (
            if req.server.enable_introspection && p.is_introspection_query { exists|i: AsyncResponse| #[trigger] about(AsyncRequest { query: q.query, variables: v, only_schema: true }, i) && joined(x.data, i.data, y.data) && y.errors@ == x.errors@ + errors_of(i.errors@) }
            else { y == x }))))
}
pub open spec fn defaulted(v: Variables, q: Request, p: OperationPlan) -> bool { v.m() == with_defaults(q.variables.m(), p.default_variables@) }
pub struct ConstValueExecutor { pub plan: OperationPlan }
impl ConstValueExecutor {
//@ fn src/core/jit/exec_const.rs :: impl ConstValueExecutor :: fn execute async=drop
//@   attr #[verifier::loop_isolation(false)]
//@   opt /Arc<AppContext>/ => AppContext
//@   opt /Request<ConstValue>/ => Request
//@   opt /transform::(Skip|AuthPlanner)::/ => \1::
//@   opt /Response<serde_json_borrow::Value>/ => Response<Value>
//@   opt /\bError::Unknown\.to_string\(\)/ => unknown_()
//@   opt /\berr\.to_string\(\)/ => err.text_()
//@   opt /BuildError::from\(err\)\.to_string\(\)/ => err.text_()
//@   opt /async_graphql::Request::from/ => AsyncRequest::from
//@   opt /(\bresp(?:\s*\.(?:with_errors\(vec!\[GraphQLError::new\([^\]]*\)\]\)|merge_with\([^)]*\)))?)\s*\.into\(\)/ => AnyResponse::from(\1)
//@   opt /for \(name, value\) in &self\.plan\.default_variables \{/ => for nv_ in self.plan.default_variables.it_() { let name = &nv_.0; let value = &nv_.1;
//@   start let ghost q0 = request; let ghost p0 = self.plan; let ghost ds = p0.default_variables@;
//@   loop 1 it=it_ invariant refs(it_.seq()) == ds, request.variables.m() == with_defaults(q0.variables.m(), ds.take(it_.index() as int)), request.query == q0.query, request.operation_name == q0.operation_name
//@   loopstart 1 proof { let n = it_.index() as int; assert(refs(it_.seq())[n] == ds[n]); assert(ds.take(n + 1).drop_last() =~= ds.take(n)); }
//@   after 1 proof { assert(ds.take(ds.len() as int) =~= ds); assert(defaulted(request.variables, q0, p0)); }
//@   spec ensures exists|v: Variables| #[trigger] defaulted(v, request, self.plan) && reply(self.plan, *req_ctx, request, v, r)
}
} // verus!
fn main() {}

#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
pub mod m_calls {
// Assumed shapes of requests, data loaders and workers, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
broadcast use axiom_string_ext;
#[verifier::external_body] pub struct Error { _p: () }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct Value { _p: () }
pub type ConstValue = Value;
pub uninterp spec fn nothing() -> Value;
#[verifier::external_body] pub struct Head { _p: () }
// an answer; heard is whether its headers were taken note of
pub struct Reply { pub head: Head, pub body: Value, pub heard: Ghost<bool> }
pub open spec fn said(r: Reply) -> (Head, Value) { (r.head, r.body) }
pub uninterp spec fn no_reply() -> (Head, Value);
#[verifier::external_body] pub fn or_none_(o: Option<Reply>) -> (r: Reply) ensures match o { Some(x) => r == x, None => said(r) == no_reply() && !r.heard@ } { unimplemented!() }
#[verifier::external_body] pub struct Request { _p: () }
#[verifier::external_body] pub struct Names { _p: () }
pub uninterp spec fn no_names() -> Names;
pub struct DynamicRequest { pub request: Request, pub batching_value: Option<String> }
impl DynamicRequest {
    pub fn new(request: Request) -> (r: Self) ensures r.request == request, r.batching_value is None { DynamicRequest { request, batching_value: None } }
    pub fn into_parts(self) -> (r: (Request, Option<String>)) ensures r.0 == self.request, r.1 == self.batching_value { (self.request, self.batching_value) }
    pub fn into_request(self) -> (r: Request) ensures r == self.request { self.request }
}
pub struct DataLoaderRequest { pub request: Request, pub headers: Names, pub batching_value: Option<String> }
impl DataLoaderRequest {
    pub fn new(request: Request, headers: Names) -> (r: Self) ensures r == (DataLoaderRequest { request, headers, batching_value: None }) { DataLoaderRequest { request, headers, batching_value: None } }
    pub fn with_batching_value(self, v: Option<String>) -> (r: Self) ensures r == (DataLoaderRequest { batching_value: v, ..self }) { DataLoaderRequest { batching_value: v, ..self } }
}
#[verifier::external_body] pub struct Rendered { _p: () }
pub struct GrpcLoaderRequest { pub template: Rendered, pub batch_headers: Names }
impl GrpcLoaderRequest { pub fn new(template: Rendered, batch_headers: Names) -> (r: Self) ensures r == (GrpcLoaderRequest { template, batch_headers }) { GrpcLoaderRequest { template, batch_headers } } }
pub uninterp spec fn grpc_request(t: Rendered) -> Option<Request>;
impl Rendered { #[verifier::external_body] pub fn to_request(&self) -> (r: Result<Request>) ensures match r { Ok(q) => grpc_request(*self) == Some(q), Err(_) => grpc_request(*self) is None } { unimplemented!() } }
// loaders send what they are given within a while, equal ones once (under contract in C05, C04, C02)
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct DataLoader<K> { _p: core::marker::PhantomData<K> }
impl<K> DataLoader<K> {
    pub uninterp spec fn loaded(&self, k: K, r: (Head, Value)) -> bool;
    #[verifier::external_body] pub fn load_one(&self, k: K) -> (r: Result<Option<Reply>>) ensures r matches Ok(Some(a)) ==> self.loaded(k, said(a)) && !a.heard@, r matches Ok(None) ==> self.loaded(k, no_reply()) { unimplemented!() }
}
// the upstreams
#[verifier::external_body] pub struct HttpIO { _p: () }
#[verifier::external_body] pub struct Raw { _p: () }
pub uninterp spec fn answered(h: HttpIO, q: Request, r: Raw) -> bool;
pub uninterp spec fn json_of(r: Raw) -> Option<(Head, Value)>;
impl HttpIO { #[verifier::external_body] pub fn execute(&self, q: Request) -> (r: Result<Raw>) ensures r matches Ok(a) ==> answered(*self, q, a) { unimplemented!() } }
impl Raw { #[verifier::external_body] pub fn to_json(self) -> (r: Result<Reply>) ensures match r { Ok(a) => json_of(self) == Some(said(a)) && !a.heard@, Err(_) => json_of(self) is None } { unimplemented!() } }
#[verifier::external_body] pub struct Operation { _p: () }
pub uninterp spec fn grpc_answered(rt: TargetRuntime, o: Operation, q: Request, r: (Head, Value)) -> bool;
#[verifier::external_body] pub fn execute_grpc_request(rt: &TargetRuntime, o: &Operation, q: Request) -> (r: Result<Reply>) ensures r matches Ok(a) ==> grpc_answered(*rt, *o, q, said(a)) && !a.heard@ { unimplemented!() }
pub struct TargetRuntime { pub http: HttpIO, pub cmd_worker: Option<Worker>, pub worker: Option<JsWorker> }
#[verifier::external_body] pub struct Worker { _p: () }
#[verifier::external_body] pub struct JsWorker { _p: () }
pub open spec fn or_nothing(x: Option<Value>) -> Value { match x { Some(y) => y, None => nothing() } }
pub uninterp spec fn called(w: JsWorker, n: Seq<char>, v: Value, r: Option<Value>) -> bool;
impl JsWorker { #[verifier::external_body] pub fn call(&self, n: &String, v: Value) -> (r: Result<Option<Value>>) ensures r matches Ok(x) ==> called(*self, n@, v, x) { unimplemented!() } }
#[verifier::external_body] pub fn or_nothing_(o: Option<Value>) -> (r: Value) ensures r == or_nothing(o) { unimplemented!() }
#[verifier::external_body] pub fn nothing_() -> (r: Value) ensures r == nothing() { unimplemented!() }
pub fn zip_<'a>(a: &'a Option<JsWorker>, b: Option<Value>) -> (r: Option<(&'a JsWorker, Value)>) ensures match r { Some(x) => *a is Some && b is Some && (*a)->0 == *x.0 && b->0 == x.1, None => *a is None || b is None } { match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
//@ item src/core/worker_hooks.rs :: struct WorkerHooks
//@   opt /#\[derive\([^\]]*\)\]/ => 
pub struct WorkerRequest(pub Request);
#[verifier::external_body] pub struct WorkerResponse { _p: () }
pub enum Event { Request(WorkerRequest), Response(WorkerResponse) }
pub enum Command { Request(WorkerRequest), Response(WorkerResponse) }
// what a script says to a request
pub uninterp spec fn commanded(w: Worker, n: Seq<char>, q: Request, c: Option<Command>) -> bool;
impl Worker { #[verifier::external_body] pub fn call(&self, n: &String, e: Event) -> (r: Result<Option<Command>>) ensures r matches Ok(c) && e matches Event::Request(q) ==> commanded(*self, n@, q.0, c) { unimplemented!() } }
#[verifier::external_body] pub fn copy_(q: &Request) -> (r: Result<WorkerRequest>) ensures r matches Ok(x) ==> x.0 == *q { unimplemented!() }
impl WorkerRequest { pub fn asked_(self) -> (r: Result<DynamicRequest>) ensures r == Ok::<DynamicRequest, Error>(DynamicRequest { request: self.0, batching_value: None }) { Ok(DynamicRequest::new(self.0)) } }
pub uninterp spec fn reply_of(w: WorkerResponse) -> Option<(Head, Value)>;
pub uninterp spec fn code(w: WorkerResponse) -> u16;
pub uninterp spec fn header_of(w: WorkerResponse, n: Seq<char>) -> Option<Seq<char>>;
impl WorkerResponse {
    #[verifier::external_body] pub fn status(&self) -> (r: u16) ensures r == code(*self) { unimplemented!() }
    #[verifier::external_body] pub fn has_(&self, n: &str) -> (r: bool) ensures r == header_of(*self, n@) is Some { unimplemented!() }
    #[verifier::external_body] pub fn header_(&self, n: &str) -> (r: &str) requires header_of(*self, n@) is Some ensures header_of(*self, n@) == Some(r@) { unimplemented!() }
    // nothing is to be noted of a script's answer
    #[verifier::external_body] pub fn reply_(self) -> (r: Result<Reply>) ensures match r { Ok(a) => reply_of(self) == Some(said(a)) && a.heard@, Err(_) => reply_of(self) is None } { unimplemented!() }
}
pub uninterp spec fn with_path(q: Request, p: Seq<char>) -> Request;
impl DynamicRequest {
    pub fn request(&self) -> (r: &Request) ensures *r == self.request { &self.request }
    #[verifier::external_body] pub fn set_path_(&mut self, p: &str) ensures *final(self) == (DynamicRequest { request: with_path(old(self).request, p@), batching_value: old(self).batching_value }) { unimplemented!() }
}
impl Reply { pub fn body(self, v: Value) -> (r: Reply) ensures r == (Reply { body: v, ..self }) { Reply { body: v, ..self } } }
impl Value { #[verifier::external_body] pub fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() } }
pub struct WorkerContext<'a> { pub worker: &'a Worker, pub js_worker: &'a JsWorker, pub js_hooks: &'a WorkerHooks }
impl<'a> WorkerContext<'a> { pub fn new(worker: &'a Worker, js_worker: &'a JsWorker, js_hooks: &'a WorkerHooks) -> (r: Self) ensures r == (WorkerContext { worker, js_worker, js_hooks }) { WorkerContext { worker, js_worker, js_hooks } } }
// ---- what a field's request is made of
pub enum Kind { Query, Mutation }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct DataLoaderId { _p: () }
impl DataLoaderId { pub uninterp spec fn at(&self) -> int; #[verifier::external_body] pub fn as_usize(&self) -> (r: usize) ensures r as int == self.at() { unimplemented!() } }
#[verifier::external_body] pub struct GroupBy { _p: () }
pub struct HttpTemplate { pub endpoint: Endpoint }
pub struct Endpoint { pub output: Schema }
#[verifier::external_body] pub struct Schema { _p: () }
pub uninterp spec fn conforms(s: Schema, v: Value) -> bool;
impl Schema { #[verifier::external_body] pub fn validate_(&self, v: &Value) -> (r: Result<()>) ensures r is Ok <==> conforms(*self, *v) { unimplemented!() } }
pub uninterp spec fn http_asks(t: HttpTemplate, c: EvalContext) -> Option<DynamicRequest>;
impl HttpTemplate { #[verifier::external_body] pub fn to_request(&self, c: &EvalContext) -> (r: Result<DynamicRequest>) ensures match r { Ok(q) => http_asks(*self, *c) == Some(q), Err(_) => http_asks(*self, *c) is None } { unimplemented!() } }
pub struct GraphqlTemplate { pub operation_type: Kind, pub rest: Names }
pub uninterp spec fn graphql_asks(t: GraphqlTemplate, c: EvalContext) -> Option<Request>;
impl GraphqlTemplate { #[verifier::external_body] pub fn to_request(&self, c: &EvalContext) -> (r: Result<Request>) ensures match r { Ok(q) => graphql_asks(*self, *c) == Some(q), Err(_) => graphql_asks(*self, *c) is None } { unimplemented!() } }
pub struct GrpcTemplate { pub operation_type: Kind, pub operation: Operation, pub rest: Names }
pub uninterp spec fn grpc_asks(t: GrpcTemplate, c: EvalContext) -> Option<Rendered>;
impl GrpcTemplate { #[verifier::external_body] pub fn render(&self, c: &EvalContext) -> (r: Result<Rendered>) ensures match r { Ok(q) => grpc_asks(*self, *c) == Some(q), Err(_) => grpc_asks(*self, *c) is None } { unimplemented!() } }
pub enum IO {
    Http { req_template: HttpTemplate, group_by: Option<GroupBy>, dl_id: Option<DataLoaderId>, is_list: bool, dedupe: bool, hook: Option<WorkerHooks> },
    GraphQL { req_template: GraphqlTemplate, field_name: String, batch: bool, dl_id: Option<DataLoaderId>, dedupe: bool },
    Grpc { req_template: GrpcTemplate, group_by: Option<GroupBy>, dl_id: Option<DataLoaderId>, dedupe: bool, hook: Option<WorkerHooks> },
    Js { name: String },
}
#[verifier::external_body] pub struct IoId { _p: () }
// under contract in the unit io_key
pub uninterp spec fn key_of(io: IO, c: EvalContext) -> Option<IoId>;
impl IO { #[verifier::external_body] pub fn cache_key(&self, c: &EvalContext) -> (r: Option<IoId>) ensures r == key_of(*self, *c) { unimplemented!() } }
pub struct Batch { pub delay: usize, pub headers: Names }
pub struct Upstream { pub batch: Option<Batch> }
pub struct Server { pub validate: bool }
impl Server { pub fn get_enable_http_validation(&self) -> (r: bool) ensures r == self.validate { self.validate } }
pub struct RequestContext { pub upstream: Upstream, pub server: Server, pub runtime: TargetRuntime, pub http_data_loaders: Vec<DataLoader<DataLoaderRequest>>, pub gql_data_loaders: Vec<DataLoader<DataLoaderRequest>>, pub grpc_data_loaders: Vec<DataLoader<GrpcLoaderRequest>> }
#[verifier::external_body] pub fn names_(o: &Option<Batch>) -> (r: Names) ensures r == names_of(*o) { unimplemented!() }
pub open spec fn names_of(o: Option<Batch>) -> Names { match o { Some(b) => b.headers, None => no_names() } }
pub struct EvalContext { pub request_ctx: RequestContext, pub query: bool, pub parent: Option<Value>, pub errors: Vec<ServerError> }
impl EvalContext {
    pub fn is_query(&self) -> (r: bool) ensures r == self.query { self.query }
    #[verifier::external_body] pub fn value_(&self) -> (r: Option<Value>) ensures r == self.parent { unimplemented!() }
    pub fn add_error(&mut self, e: ServerError) ensures final(self).errors@ == old(self).errors@.push(e), final(self).request_ctx == old(self).request_ctx, final(self).query == old(self).query, final(self).parent == old(self).parent { self.errors.push(e); }
}
#[verifier::external_body] pub struct ServerError { _p: () }
pub struct GqlResponse { pub data: Value, pub errors: Vec<ServerError> }
pub uninterp spec fn gql_of(v: Value) -> Option<(Value, Seq<ServerError>)>;
#[verifier::external_body] pub fn from_value_(v: Value) -> (r: Result<GqlResponse>) ensures match r { Ok(g) => gql_of(v) == Some((g.data, g.errors@)), Err(_) => gql_of(v) is None } { unimplemented!() }
pub uninterp spec fn entry(v: Value, k: Seq<char>) -> Option<Value>;
impl Value { #[verifier::external_body] pub fn entry_(&self, k: &str) -> (r: Value) ensures r == (match entry(*self, k@) { Some(x) => x, None => nothing() }) { unimplemented!() } }
// under contract in the unit server_headers
#[verifier::external_body] pub fn set_headers(c: &EvalContext, r: &mut Reply) ensures said(*final(r)) == said(*old(r)), final(r).heard@ { unimplemented!() }
// an answer is used once its headers are taken note of
pub open spec fn took(a: Reply, v: Value) -> bool { a.heard@ && v == a.body }
impl Reply { pub fn taken_(self) -> (r: Value) requires self.heard@ ensures took(self, r) { self.body } }
#[verifier::external_body] pub fn get_<'a, K>(v: &'a Vec<DataLoader<K>>, i: usize) -> (r: Option<&'a DataLoader<K>>) ensures match r { Some(d) => i < v@.len() && *d == v@[i as int], None => i >= v@.len() } { unimplemented!() }
pub fn and_then_<'a, K, F: Fn(DataLoaderId) -> Option<&'a DataLoader<K>>>(o: Option<DataLoaderId>, f: F) -> (r: Option<&'a DataLoader<K>>) requires o is Some ==> f.requires((o->0,)) ensures match o { Some(i) => f.ensures((i,), r), None => r is None } { match o { Some(i) => f(i), None => None } }
pub fn filter_<F: Fn(&DataLoaderId) -> bool>(o: &Option<DataLoaderId>, f: F) -> (r: Option<DataLoaderId>) requires *o is Some ==> f.requires((&o->0,)) ensures match *o { Some(i) => (r == *o && f.ensures((&i,), true)) || (r is None && f.ensures((&i,), false)), None => r is None } { match o { Some(i) => if f(i) { Some(*i) } else { None }, None => None } }
pub fn query_(k: &Kind) -> (r: bool) ensures r == (*k is Query) { match k { Kind::Query => true, _ => false } }
} // verus!
}
use m_calls::*;
//@ rewrite /EvalContext<'\w+, (?:Ctx|Context)>/ => EvalContext
//@ rewrite /Response<async_graphql::Value>/ => Reply
//@ rewrite /DynamicRequest<String>/ => DynamicRequest
//@ rewrite /, Error>/ => >
verus! {
broadcast use axiom_string_ext;
impl Upstream {
//@ fn src/core/blueprint/upstream.rs :: impl Upstream :: fn is_batching_enabled
//@   spec ensures r == (self.batch is Some && self.batch->0.delay >= 1)
}
impl RequestContext {
//@ fn src/core/http/request_context.rs :: impl RequestContext :: fn is_batching_enabled
//@   spec ensures r == (self.upstream.batch is Some && self.upstream.batch->0.delay >= 1)
}
// ---- one upstream call
pub open spec fn raw(c: EvalContext, q: Request, a: (Head, Value)) -> bool { exists|x: Raw| #[trigger] answered(c.request_ctx.runtime.http, q, x) && json_of(x) == Some(a) }
pub open spec fn loads(c: EvalContext, q: DynamicRequest, l: DataLoader<DataLoaderRequest>, a: (Head, Value)) -> bool { l.loaded(DataLoaderRequest { request: q.request, headers: names_of(c.request_ctx.upstream.batch), batching_value: q.batching_value }, a) }
pub open spec fn loads_grpc(c: EvalContext, q: Rendered, l: DataLoader<GrpcLoaderRequest>, a: (Head, Value)) -> bool { l.loaded(GrpcLoaderRequest { template: q, batch_headers: names_of(c.request_ctx.upstream.batch) }, a) }
//@ fn src/core/ir/eval_http.rs :: fn execute_raw_request async=drop vis=pub
//@   opt /<Ctx: ResolverContextLike>/ => 
//@   opt /\s*\.map_err\(Error::from\)/ => 
//@   spec ensures r matches Ok(a) ==> raw(*ctx, req.request, said(a)) && !a.heard@
//@ fn src/core/ir/eval_http.rs :: fn execute_raw_grpc_request async=drop vis=pub
//@   opt /<Ctx: ResolverContextLike>/ => 
//@   opt /ProtobufOperation/ => Operation
//@   opt /\s*\.map_err\(Error::from\)/ => 
//@   spec ensures r matches Ok(a) ==> grpc_answered(ctx.request_ctx.runtime, *operation, req, said(a)) && !a.heard@
//@ fn src/core/ir/eval_http.rs :: fn execute_request_with_dl async=drop vis=pub
//@   sub /(?s)<\s*'ctx,.*?>,\s*>\(/ => (
//@   opt /DataLoader<DataLoaderRequest, Dl>/ => DataLoader<DataLoaderRequest>
//@   opt /EvalContext<'ctx, Ctx>/ => EvalContext
//@   opt /(?s)ctx\s*\.request_ctx\s*\.upstream\s*\.batch\s*\.clone\(\)\s*\.map\(\|s\| s\.headers\)\s*\.unwrap_or_default\(\)/ => names_(&ctx.request_ctx.upstream.batch)
//@   opt /crate::core::http::DataLoaderRequest/ => DataLoaderRequest
//@   opt /(?s)Ok\((data_loader\s*\.unwrap\(\)\s*\.load_one\(endpoint_key\))\s*(?:\.await)?\s*\.map_err\(Error::from\)\?\s*\.unwrap_or_default\(\)\)/ => Ok(or_none_(\1?))
//@   spec requires data_loader is Some ensures r matches Ok(a) ==> loads(*ctx, req, *data_loader->0, said(a)) && !a.heard@
//@ fn src/core/ir/eval_http.rs :: fn execute_grpc_request_with_dl async=drop vis=pub
//@   sub /(?s)<\s*Ctx: ResolverContextLike,.*?>,\s*>\(/ => (
//@   opt /DataLoader<grpc::DataLoaderRequest, Dl>/ => DataLoader<GrpcLoaderRequest>
//@   opt /RenderedRequestTemplate/ => Rendered
//@   opt /(?s)ctx\s*\.request_ctx\s*\.upstream\s*\.batch\s*\.clone\(\)\s*\.map\(\|s\| s\.headers\)\s*\.unwrap_or_default\(\)/ => names_(&ctx.request_ctx.upstream.batch)
//@   opt /grpc::DataLoaderRequest/ => GrpcLoaderRequest
//@   opt /(?s)Ok\((data_loader\s*\.unwrap\(\)\s*\.load_one\(endpoint_key\))\s*(?:\.await)?\s*\.map_err\(Error::from\)\?\s*\.unwrap_or_default\(\)\)/ => Ok(or_none_(\1?))
//@   spec requires data_loader is Some ensures r matches Ok(a) ==> loads_grpc(*ctx, rendered, *data_loader->0, said(a)) && !a.heard@
//@ fn src/core/ir/eval_http.rs :: fn parse_graphql_response async=drop vis=pub
//@   opt /<Ctx: ResolverContextLike>/ => 
//@   opt /ctx: &EvalContext/ => ctx: &mut EvalContext
//@   opt /async_graphql::Value/ => Value
//@   opt /let res: async_graphql::Response =/ => let res: GqlResponse =
//@   opt /(?s)from_value\(res\.body\)\.map_err\(\|err\| Error::Deserialize\(err\.to_string\(\)\)\)/ => from_value_(res.taken_())
//@   opt /(?s)Ok\(res\s*\.data\s*\.get_key\(field_name\)\s*\.map\(\|v\| v\.to_owned\(\)\)\s*\.unwrap_or_default\(\)\)/ => Ok(res.data.entry_(field_name))
//@   loop 1 it=it invariant it.seq() == errors_, ctx.errors@ == old(ctx).errors@ + errors_.take(it.index() as int), ctx.request_ctx == old(ctx).request_ctx, ctx.query == old(ctx).query, ctx.parent == old(ctx).parent
//@   start let ghost errors_ = match gql_of(res.body) { Some(g) => g.1, None => Seq::empty() }; proof { assert(errors_ =~= errors_.take(errors_.len() as int)); }
//@   spec requires res.heard@ ensures parsed(res, field_name@, *old(ctx), *final(ctx), r)
pub open spec fn same(a: EvalContext, b: EvalContext) -> bool { a.request_ctx == b.request_ctx && a.query == b.query && a.parent == b.parent }
// the errors of the upstream are the answer's
pub open spec fn parsed(a: Reply, f: Seq<char>, before: EvalContext, after: EvalContext, r: Result<Value>) -> bool { same(before, after) && match gql_of(a.body) { Some(g) => after.errors@ == before.errors@ + g.1 && r is Ok && r->Ok_0 == (match entry(g.0, f) { Some(x) => x, None => nothing() }), None => r is Err && after.errors@ == before.errors@ } }
pub struct EvalHttp<'a> { pub evaluation_ctx: &'a EvalContext, pub data_loader: Option<&'a DataLoader<DataLoaderRequest>>, pub request_template: &'a HttpTemplate }
// the loader of a field, if calls are to be batched
pub open spec fn loader(c: EvalContext, id: Option<DataLoaderId>) -> Option<DataLoader<DataLoaderRequest>> { let b = c.request_ctx.upstream.batch; if b is Some && b->0.delay >= 1 && id is Some && 0 <= id->0.at() < c.request_ctx.http_data_loaders@.len() { Some(c.request_ctx.http_data_loaders@[id->0.at()]) } else { None } }
pub open spec fn http_answers(c: EvalContext, t: HttpTemplate, l: Option<DataLoader<DataLoaderRequest>>, q: DynamicRequest, a: (Head, Value)) -> bool { (match l { Some(d) => loads(c, q, d, a), None => raw(c, q.request, a) }) && (c.request_ctx.server.validate ==> conforms(t.endpoint.output, a.1)) }
pub open spec fn requested(h: WorkerHooks, w: Worker, q: Request, c: Option<Command>) -> bool { match h.on_request { Some(n) => commanded(w, n@, q, c), None => c is None } }
pub open spec fn or_else(x: Option<Value>, v: Value) -> Value { match x { Some(y) => y, None => v } }
pub open spec fn hooked(h: WorkerHooks, w: JsWorker, a: (Head, Value), b: (Head, Value)) -> bool { match h.on_response { Some(n) => a.0 == b.0 && exists|x: Option<Value>| #[trigger] called(w, n@, a.1, x) && b.1 == or_else(x, a.1), None => b == a } }
pub broadcast proof fn lemma_hooked(h: WorkerHooks, w: JsWorker, n: Seq<char>, v: Value, x: Option<Value>, a: (Head, Value), b: (Head, Value)) requires #[trigger] called(w, n, v, x), h.on_response is Some, n == h.on_response->0@, v == a.1, b.0 == a.0, b.1 == or_else(x, v) ensures #[trigger] hooked(h, w, a, b) {}
impl WorkerHooks {
//@ fn src/core/worker_hooks.rs :: impl WorkerHooks :: fn on_request async=drop vis=pub
//@   opt /&Arc<dyn WorkerIO<worker::Event, worker::Command>>/ => &Worker
//@   opt /&reqwest::Request/ => &Request
//@   opt /worker::(Command|Event)/ => \1
//@   opt /WorkerRequest::try_from\(/ => copy_(
//@   opt /\s*\.map_err\(\|e\| e\.into\(\)\)/ => 
//@   spec ensures r matches Ok(c) ==> requested(*self, *worker, *request, c)
//@ fn src/core/worker_hooks.rs :: impl WorkerHooks :: fn on_response async=drop vis=pub
//@   opt /(?s)&Arc<\s*dyn WorkerIO<async_graphql_value::ConstValue, async_graphql_value::ConstValue>,?\s*>/ => &JsWorker
//@   start broadcast use lemma_hooked;
//@   spec ensures r matches Ok(b) ==> hooked(*self, *worker, said(response), said(b)) && b.heard == response.heard
}
// what a script makes of a call: the request as it was, or as the script has it, or no call, or one of another path (at most n times in a row); and then of the answer
pub open spec fn redirect(w: WorkerResponse) -> bool { (code(w) == 301 || code(w) == 302) && header_of(w, "location"@) is Some }
pub open spec fn worked_n(c: EvalContext, t: HttpTemplate, l: Option<DataLoader<DataLoaderRequest>>, q: DynamicRequest, w: Worker, j: JsWorker, h: WorkerHooks, n: nat, b: (Head, Value)) -> bool decreases n {
    exists|k: Option<Command>, a: (Head, Value)| #[trigger] requested(h, w, q.request, k) && #[trigger] hooked(h, j, a, b) && match k {
        None => http_answers(c, t, l, q, a),
        Some(Command::Request(x)) => http_answers(c, t, l, DynamicRequest { request: x.0, batching_value: None }, a),
        Some(Command::Response(x)) => if redirect(x) { n > 0 && worked_n(c, t, l, redirected(q, x), w, j, h, (n - 1) as nat, a) } else { reply_of(x) == Some(a) },
    }
}
pub open spec fn redirected(q: DynamicRequest, x: WorkerResponse) -> DynamicRequest { DynamicRequest { request: with_path(q.request, header_of(x, "location"@)->0), batching_value: q.batching_value } }
pub open spec fn worked(c: EvalContext, t: HttpTemplate, l: Option<DataLoader<DataLoaderRequest>>, q: DynamicRequest, w: Worker, j: JsWorker, h: WorkerHooks, b: (Head, Value)) -> bool { exists|n: nat| #[trigger] worked_n(c, t, l, q, w, j, h, n, b) }
pub open spec fn does(c: EvalContext, t: HttpTemplate, l: Option<DataLoader<DataLoaderRequest>>, q: DynamicRequest, w: Worker, j: JsWorker, h: WorkerHooks, k: Option<Command>, a: (Head, Value)) -> bool {
    match k {
        None => http_answers(c, t, l, q, a),
        Some(Command::Request(x)) => http_answers(c, t, l, DynamicRequest { request: x.0, batching_value: None }, a),
        Some(Command::Response(x)) => if redirect(x) { worked(c, t, l, redirected(q, x), w, j, h, a) } else { reply_of(x) == Some(a) },
    }
}
pub broadcast proof fn lemma_works(c: EvalContext, t: HttpTemplate, l: Option<DataLoader<DataLoaderRequest>>, q: DynamicRequest, w: Worker, j: JsWorker, h: WorkerHooks, k: Option<Command>, a: (Head, Value), b: (Head, Value))
    requires #[trigger] requested(h, w, q.request, k), #[trigger] hooked(h, j, a, b), does(c, t, l, q, w, j, h, k, a)
    ensures #[trigger] worked(c, t, l, q, w, j, h, b)
{
    if let Some(Command::Response(x)) = k { if redirect(x) { let n = choose|n: nat| #[trigger] worked_n(c, t, l, redirected(q, x), w, j, h, n, a); assert(worked_n(c, t, l, q, w, j, h, n + 1, b)); return; } }
    assert(worked_n(c, t, l, q, w, j, h, 0, b));
}
pub open spec fn opt_of<T>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
impl<'a> EvalHttp<'a> {
//@ fn src/core/ir/eval_http.rs :: impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context> :: fn new
//@   opt /&'ctx EvalContext/ => &'a EvalContext
//@   opt /&'a RequestTemplate/ => &'a HttpTemplate
//@   opt /id\.and_then\(/ => and_then_(*id, 
//@   opt /(?s)evaluation_ctx\s*\.request_ctx\s*\.http_data_loaders\s*\.get\(id\.as_usize\(\)\)/ => get_(&evaluation_ctx.request_ctx.http_data_loaders, id.as_usize())
//@   closure 1 |$0: DataLoaderId| -> (o: Option<&'a DataLoader<DataLoaderRequest>>) ensures match o { Some(d) => 0 <= $0.at() < evaluation_ctx.request_ctx.http_data_loaders@.len() && *d == evaluation_ctx.request_ctx.http_data_loaders@[$0.at()], None => !(0 <= $0.at() < evaluation_ctx.request_ctx.http_data_loaders@.len()) }
//@   spec ensures r.evaluation_ctx == evaluation_ctx, r.request_template == request_template, opt_of(r.data_loader) == loader(*evaluation_ctx, *id)
//@ fn src/core/ir/eval_http.rs :: impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context> :: fn init_request
//@   spec ensures match r { Ok(q) => http_asks(*self.request_template, *self.evaluation_ctx) == Some(q), Err(_) => http_asks(*self.request_template, *self.evaluation_ctx) is None }
//@ fn src/core/ir/eval_http.rs :: impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context> :: fn execute async=drop
//@   opt /let response = if/ => let mut response = if
//@   opt /(?s)\.validate\(&response\.body\)\s*\.to_result\(\)\s*\.map_err\(Error::from\)\?/ => .validate_(&response.body)?
//@   opt /set_headers\(ctx, &response\)/ => set_headers(ctx, &mut response)
//@   spec ensures r matches Ok(a) ==> http_answers(*self.evaluation_ctx, *self.request_template, opt_of(self.data_loader), req, said(a)) && a.heard@
//@ fn src/core/ir/eval_http.rs :: impl<'a, 'ctx, Context: ResolverContextLike + Sync> EvalHttp<'a, 'ctx, Context> :: fn execute_with_worker async=drop
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   start broadcast use lemma_works;
//@   opt /#\[async_recursion::async_recursion\]/ => 
//@   opt /<'worker: 'async_recursion>/ => 
//@   opt /WorkerContext<'worker>/ => WorkerContext
//@   opt /worker::(Command|Event)/ => \1
//@   opt /w_request\.try_into\(\)/ => w_request.asked_()
//@   opt /w_response\.try_into\(\)/ => w_response.reply_()
//@   opt /w_response\.headers\(\)\.contains_key\(/ => w_response.has_(
//@   opt /w_response\.headers\(\)\["location"\]\.as_str\(\)/ => w_response.header_("location")
//@   opt /(?s)\.request_mut\(\)\s*\.url_mut\(\)\s*\.set_path\(/ => .set_path_(
//@   spec ensures r matches Ok(a) ==> worked(*self.evaluation_ctx, *self.request_template, opt_of(self.data_loader), request, *worker_ctx.worker, *worker_ctx.js_worker, *worker_ctx.js_hooks, said(a)) && a.heard@
}
// ---- a field's value
// calls that are batched may be sent once for several: queries, and what is batched by a key
pub open spec fn http_id(io: IO, c: EvalContext) -> Option<DataLoaderId> { if let IO::Http { group_by, dl_id, .. } = io { if c.query || group_by is Some { dl_id } else { None } } else { None } }
pub open spec fn batched(k: Kind, c: EvalContext) -> bool { c.request_ctx.upstream.batch is Some && k is Query }
pub open spec fn http_call(t: HttpTemplate, hook: Option<WorkerHooks>, id: Option<DataLoaderId>, c: EvalContext, a: (Head, Value)) -> bool {
    let rt = c.request_ctx.runtime;
    match http_asks(t, c) {
        Some(q) => if rt.cmd_worker is Some && rt.worker is Some && hook is Some { worked(c, t, loader(c, id), q, rt.cmd_worker->0, rt.worker->0, hook->0, a) } else { http_answers(c, t, loader(c, id), q, a) },
        None => false,
    }
}
pub open spec fn gql_call(t: GraphqlTemplate, id: Option<DataLoaderId>, c: EvalContext, a: (Head, Value)) -> bool {
    match graphql_asks(t, c) {
        Some(q) => if batched(t.operation_type, c) { id is Some && 0 <= id->0.at() < c.request_ctx.gql_data_loaders@.len() && loads(c, DynamicRequest { request: q, batching_value: None }, c.request_ctx.gql_data_loaders@[id->0.at()], a) } else { raw(c, q, a) },
        None => false,
    }
}
pub open spec fn grpc_call(t: GrpcTemplate, id: Option<DataLoaderId>, c: EvalContext, a: (Head, Value)) -> bool {
    match grpc_asks(t, c) {
        Some(q) => if batched(t.operation_type, c) { id is Some && 0 <= id->0.at() < c.request_ctx.grpc_data_loaders@.len() && loads_grpc(c, q, c.request_ctx.grpc_data_loaders@[id->0.at()], a) } else { grpc_request(q) is Some && grpc_answered(c.request_ctx.runtime, t.operation, grpc_request(q)->0, a) },
        None => false,
    }
}
pub open spec fn grpc_hooked(t: GrpcTemplate, id: Option<DataLoaderId>, c: EvalContext, hook: Option<WorkerHooks>, b: (Head, Value)) -> bool { let w = c.request_ctx.runtime.worker; if w is Some && hook is Some { exists|a: (Head, Value)| #[trigger] hooked(hook->0, w->0, a, b) && grpc_call(t, id, c, a) } else { grpc_call(t, id, c, b) } }
pub open spec fn js_call(n: Seq<char>, c: EvalContext, v: Value) -> bool { let w = c.request_ctx.runtime.worker; if w is Some && c.parent is Some { exists|x: Option<Value>| #[trigger] called(w->0, n, c.parent->0, x) && v == or_nothing(x) } else { v == nothing() } }
pub open spec fn evaluated(io: IO, before: EvalContext, after: EvalContext, v: Value) -> bool {
    match io {
        IO::Http { req_template, hook, .. } => same(before, after) && after.errors == before.errors && exists|a: Reply| #[trigger] took(a, v) && http_call(req_template, hook, http_id(io, before), before, said(a)),
        IO::GraphQL { req_template, field_name, dl_id, .. } => exists|a: Reply| #[trigger] parsed(a, field_name@, before, after, Ok(v)) && gql_call(req_template, dl_id, before, said(a)),
        IO::Grpc { req_template, dl_id, hook, .. } => same(before, after) && after.errors == before.errors && exists|a: Reply| #[trigger] took(a, v) && grpc_hooked(req_template, dl_id, before, hook, said(a)),
        IO::Js { name } => same(before, after) && after.errors == before.errors && js_call(name@, before, v),
    }
}
// loaders are there for every field that may be batched (AppContext::new makes them)
pub open spec fn prepared(io: IO, c: EvalContext) -> bool { match io { IO::GraphQL { req_template, dl_id, .. } => batched(req_template.operation_type, c) ==> dl_id is Some && 0 <= dl_id->0.at() < c.request_ctx.gql_data_loaders@.len(), IO::Grpc { req_template, dl_id, .. } => batched(req_template.operation_type, c) ==> dl_id is Some && 0 <= dl_id->0.at() < c.request_ctx.grpc_data_loaders@.len(), _ => true } }
//@ fn src/core/ir/eval_io.rs :: fn eval_io_inner async=drop vis=pub
//@   opt /(?s)<Ctx>\(/ => (
//@   opt /(?s)where\s*Ctx: ResolverContextLike \+ Sync,/ => 
//@   opt /dl_id\.filter\(/ => filter_(dl_id, 
//@   closure 1 |i_: &DataLoaderId| -> (o: bool) ensures o == (ctx.query || *group_by is Some)
//@   opt /response\.body/ => response.taken_()
//@   opt /Ok\(res\.body\)/ => Ok(res.taken_())
//@   opt /matches!\(req_template\.operation_type, GraphQLOperationType::Query\)/ => query_(&req_template.operation_type)
//@   opt /DataLoader<DataLoaderRequest, GraphqlDataLoader>/ => DataLoader<DataLoaderRequest>
//@   opt /DataLoader<grpc::DataLoaderRequest, GrpcDataLoader>/ => DataLoader<GrpcLoaderRequest>
//@   opt /dl_id\.and_then\(/ => and_then_(*dl_id, 
//@   opt /ctx\.request_ctx\.(\w+)_data_loaders\.get\((\w+)\.as_usize\(\)\)/ => get_(&ctx.request_ctx.\1_data_loaders, \2.as_usize())
//@   closure 2 |$0: DataLoaderId| -> (o: Option<&DataLoader<DataLoaderRequest>>) ensures match o { Some(d) => 0 <= $0.at() < ctx.request_ctx.gql_data_loaders@.len() && *d == ctx.request_ctx.gql_data_loaders@[$0.at()], None => !(0 <= $0.at() < ctx.request_ctx.gql_data_loaders@.len()) }
//@   closure 3 |$0: DataLoaderId| -> (o: Option<&DataLoader<GrpcLoaderRequest>>) ensures match o { Some(d) => 0 <= $0.at() < ctx.request_ctx.grpc_data_loaders@.len() && *d == ctx.request_ctx.grpc_data_loaders@[$0.at()], None => !(0 <= $0.at() < ctx.request_ctx.grpc_data_loaders@.len()) }
//@   opt /let res = if/ => let mut res = if
//@   opt /let res = match/ => let mut res = match
//@   opt /set_headers\(ctx, &res\)/ => set_headers(ctx, &mut res)
//@   opt /(?s)ctx\s*\.request_ctx\s*\.runtime\s*\.worker\s*\.as_ref\(\)\s*\.zip\(ctx\.value\(\)\.cloned\(\)\)/ => zip_(&ctx.request_ctx.runtime.worker, ctx.value_())
//@   opt /val\.unwrap_or_default\(\)/ => or_nothing_(val)
//@   opt /Ok\(ConstValue::Null\)/ => Ok(nothing_())
//@   spec requires prepared(*io, *old(ctx)) ensures r matches Ok(v) ==> evaluated(*io, *old(ctx), *final(ctx), v)
// an answer shared with others that are waiting for one of the same key, or evaluated for them (under contract in C06)
pub uninterp spec fn shared(k: IoId, io: IO, before: EvalContext, after: EvalContext, v: Value) -> bool;
#[verifier::external_body] pub fn shared_(k: &IoId, io: &IO, c: &mut EvalContext) -> (r: Result<Value>) ensures r matches Ok(v) ==> shared(*k, *io, *old(c), *final(c), v) { unimplemented!() }
pub open spec fn may_share(io: IO) -> bool { match io { IO::Http { dedupe, .. } => dedupe, IO::GraphQL { dedupe, .. } => dedupe, IO::Grpc { dedupe, .. } => dedupe, IO::Js { .. } => false } }
impl IO {
//@ fn src/core/ir/model.rs :: impl IO :: fn dedupe
//@   spec ensures r == may_share(*self)
}
//@ fn src/core/ir/eval_io.rs :: fn eval_io async=drop vis=pub
//@   opt /(?s)<Ctx>\(/ => (
//@   opt /(?s)where\s*Ctx: ResolverContextLike \+ Sync,/ => 
//@   opt /(?s)ctx\.request_ctx\s*\.cache\s*\.dedupe\(&key, \|\| async \{\s*ctx\.request_ctx\s*\.dedupe_handler\s*\.dedupe\(&key, \|\| eval_io_inner\(io, ctx\)\)\s*(?:\.await)?\s*\}\)/ => shared_(&key, io, ctx)
//@   spec requires prepared(*io, *old(ctx)) ensures r matches Ok(v) ==> if may_share(*io) && old(ctx).query && key_of(*io, *old(ctx)) is Some { shared(key_of(*io, *old(ctx))->0, *io, *old(ctx), *final(ctx), v) } else { evaluated(*io, *old(ctx), *final(ctx), v) }
// what a mutation calls is called for it alone, unless it is batched by a key
pub proof fn lemma_alone(io: IO, c: EvalContext) requires !c.query, io is Http, io->Http_group_by is None ensures loader(c, http_id(io, c)) is None {}
} // verus!
fn main() {}

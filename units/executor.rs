#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
//@ include prelude/plan.rs
pub mod m_run {
// Assumed shapes of what resolvers run in, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
// a run of the resolver of this field (with its arguments) on an object (None: at the top) gave this value (None: an error)
pub uninterp spec fn gave(ir: IR, f: Field<Value>, v: Option<J>, o: Option<J>) -> bool;
#[verifier::external_body] pub struct HttpContext { _p: () }
pub struct RequestContext<'a> { pub plan_: &'a OperationPlan<Value> }
impl<'a> RequestContext<'a> { pub fn plan(&self) -> (r: &OperationPlan<Value>) ensures r == self.plan_ { self.plan_ } }
#[verifier::external_body] pub struct Args_ { _p: () }
pub struct Context<'a> { pub value: Option<&'a Value>, pub args: Option<Args_>, pub field: &'a Field<Value>, pub request: &'a RequestContext<'a> }
pub struct EvalContext<'a> { pub ctx_: &'a Context<'a> }
impl<'a> EvalContext<'a> { pub fn new(h: &HttpContext, ctx: &'a Context<'a>) -> (r: Self) ensures r.ctx_ == ctx { EvalContext { ctx_: ctx } } }
impl IR { #[verifier::external_body] pub fn eval<'a>(&self, c: &mut EvalContext<'a>) -> (r: Result<Value, Error>) ensures gave(*self, *old(c).ctx_.field, jof(old(c).ctx_.value), said_(r)) { unimplemented!() } }
pub open spec fn jof(v: Option<&Value>) -> Option<J> { match v { Some(x) => Some(x.j()), None => None } }
pub open spec fn said_<E>(r: Result<Value, E>) -> Option<J> { match r { Ok(v) => Some(v.j()), Err(_) => None } }
impl Value {
    #[verifier::external_body] pub fn default() -> (r: Value) ensures r.j() == J::Null { unimplemented!() }
    #[verifier::external_body] pub fn null() -> (r: Value) ensures r.j() == J::Null { unimplemented!() }
    // a key of an object, and of nothing else
    #[verifier::external_body] pub fn get_key(&self, k: &str) -> (r: Option<&Value>) ensures jof(r) == key(self.j(), k@) { unimplemented!() }
}
pub open spec fn key(v: J, k: Seq<char>) -> Option<J> { match v { J::Obj(o) => at(o, k), _ => None } }
#[verifier::external_body] pub fn copy_(o: Option<&Value>) -> (r: Option<Value>) ensures r is Some == o is Some, r is Some ==> (r->0).j() == (o->0).j() { unimplemented!() }
#[verifier::external_body] pub fn other_error_() -> Error { unimplemented!() }
// ---- for_each and map_ref of lists (proved in the unit json_list): the innermost items in their order; the same shape with other items
pub open spec fn leaves(v: J) -> Seq<J> decreases v, 1int, 0int { match v { J::Arr(a) => leaves_to(v, a.len() as int), _ => seq![v] } }
pub open spec fn leaves_to(v: J, n: int) -> Seq<J> decreases v, 0int, n { match v { J::Arr(a) => if n <= 0 || n > a.len() { Seq::empty() } else { leaves_to(v, n - 1) + leaves(a[n - 1]) }, _ => Seq::empty() } }
pub open spec fn fill(v: J, s: Seq<J>) -> J decreases v, 1int, 0int { match v { J::Arr(a) => J::Arr(fill_to(v, a.len() as int, s)), _ => s[0] } }
pub open spec fn fill_to(v: J, n: int, s: Seq<J>) -> Seq<J> decreases v, 0int, n {
    match v { J::Arr(a) => if n <= 0 || n > a.len() { Seq::empty() } else { fill_to(v, n - 1, s).push(fill(a[n - 1], s.skip(leaves_to(v, n - 1).len() as int))) }, _ => Seq::empty() }
}
#[verifier::external_body] pub fn leaves_<'a>(v: &'a Value) -> (r: It<&'a Value>) ensures r@.len() == leaves(v.j()).len(), forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> (r@[i]).j() == leaves(v.j())[i] { unimplemented!() }
#[verifier::external_body] pub fn rebuild_(v: &Value, s: Vec<Value>) -> (r: Value) requires s@.len() == leaves(v.j()).len() ensures r.j() == fill(v.j(), vs(s@)) { unimplemented!() }
pub open spec fn vs(v: Seq<Value>) -> Seq<J> { v.map_values(|o: Value| o.j()) }
// the same with a mapper that depends on the item alone
pub open spec fn map_j(p: spec_fn(J) -> J, v: J) -> J decreases v, 1int, 0int { match v { J::Arr(a) => J::Arr(map_to(p, v, a.len() as int)), _ => p(v) } }
pub open spec fn map_to(p: spec_fn(J) -> J, v: J, n: int) -> Seq<J> decreases v, 0int, n { match v { J::Arr(a) => if n <= 0 || n > a.len() { Seq::empty() } else { map_to(p, v, n - 1).push(map_j(p, a[n - 1])) }, _ => Seq::empty() } }
pub open spec fn turns<'a, E, F: Fn(&'a Value) -> Result<Value, E>>(f: F, p: spec_fn(J) -> J) -> bool { forall|x: &'a Value, r: Result<Value, E>| #[trigger] f.ensures((x,), r) ==> r is Ok && (r->Ok_0).j() == p(x.j()) }
#[verifier::external_body] pub fn map_<'a, E, F: Fn(&'a Value) -> Result<Value, E>>(v: &'a Value, f: F) -> (r: Result<Value, E>) requires forall|x: &'a Value| #[trigger] f.requires((x,))
    ensures forall|p: spec_fn(J) -> J| #![trigger turns(f, p)] #![trigger map_j(p, v.j())] turns(f, p) ==> r is Ok && (r->Ok_0).j() == map_j(p, v.j()) { unimplemented!() }
// an iterator over results that came in
pub struct Queue_ { pub of: Vec<Result<Value, Error>> }
impl Queue_ {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<Value, Error>>) ensures match r { Some(x) => old(self).of@.len() > 0 && x == old(self).of@[0] && final(self).of@ == old(self).of@.skip(1), None => old(self).of@.len() == 0 && *final(self) == *old(self) } { unimplemented!() }
}
// ---- the store that the futures of a request share: what was ever put into it. (Each id is put once: the ids of the
// fields of a plan are distinct, and each field is executed once.)
#[verifier::external_body] pub struct SharedStore { _p: () }
pub uninterp spec fn wrote(s: SharedStore, id: usize, d: Result<Value, Positioned<Error>>) -> bool;
impl SharedStore {
    #[verifier::external_body] pub fn new_() -> SharedStore { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn held_(&self) -> (r: Guard_) ensures r.of_ == *self { unimplemented!() }
    #[verifier::external_body] pub fn take_(&self) -> (r: Store<Result<Value, Positioned<Error>>>)
        ensures forall|id: usize, d: Result<Value, Positioned<Error>>| #![trigger wrote(*self, id, d)] wrote(*self, id, d) ==> r.got(id) == Some(d), forall|id: usize| #![trigger r.got(id)] r.got(id) is Some ==> wrote(*self, id, r.got(id)->0) { unimplemented!() }
}
pub struct Guard_ { pub of_: SharedStore }
impl Guard_ { #[verifier::external_body] pub fn set(&mut self, id: &FieldId, d: Result<Value, Positioned<Error>>) ensures wrote(old(self).of_, id.0, d), final(self).of_ == old(self).of_ { unimplemented!() } }
} // verus!
}
use m_run::*;
verus! {
// ---- what the property says
pub open spec fn of_type(ix: Index, c: Field<Value>, v: J) -> bool { match c.type_condition { Some(t) => match type_said(v) { Some(ty) => ix.implements(ty, t@), None => true }, None => true } }
// what a field's resolver gives for one object: nothing for null, else what a run on this object gave
pub open spec fn one(ir: IR, f: Field<Value>, v: Option<J>, o: Option<J>) -> bool { if v == Some(J::Null) { o == Some(J::Null) } else { gave(ir, f, v, o) } }
// and for lists of objects: for each object its own, at its place
pub open spec fn fits(ix: Index, ir: IR, f: Field<Value>, v: J, o: J) -> bool decreases v {
    match v {
        J::Arr(a) => o is Arr && (o->Arr_0).len() == a.len() && forall|i: int| 0 <= i < a.len() ==> fits(ix, ir, f, #[trigger] a[i], (o->Arr_0)[i]),
        _ => if of_type(ix, f, v) { one(ir, f, Some(v), Some(o)) } else { o == J::Null },
    }
}
// an error only if a run on one of the objects gave one
pub open spec fn fails(ix: Index, ir: IR, f: Field<Value>, v: J) -> bool { exists|i: int| 0 <= i < leaves(v).len() && of_type(ix, f, #[trigger] leaves(v)[i]) && one(ir, f, Some(leaves(v)[i]), None) }
pub open spec fn resolved(ix: Index, ir: IR, f: Field<Value>, v: Option<J>, o: Option<J>) -> bool {
    match v { None => one(ir, f, None, o), Some(x) => match o { Some(y) => fits(ix, ir, f, x, y), None => fails(ix, ir, f, x) } }
}
pub open spec fn one_leaf(ix: Index, ir: IR, f: Field<Value>, v: J, o: J) -> bool { if of_type(ix, f, v) { one(ir, f, Some(v), Some(o)) } else { o == J::Null } }
pub proof fn lemma_innermost(v: J) ensures forall|i: int| 0 <= i < leaves(v).len() ==> !((#[trigger] leaves(v)[i]) is Arr) decreases v, 1int, 0int
{ if v is Arr { lemma_innermost_to(v, (v->Arr_0).len() as int); } }
pub proof fn lemma_innermost_to(v: J, n: int) requires v is Arr ensures forall|i: int| 0 <= i < leaves_to(v, n).len() ==> !((#[trigger] leaves_to(v, n)[i]) is Arr) decreases v, 0int, n
{
    let a = v->Arr_0;
    if 0 < n <= a.len() {
        lemma_innermost_to(v, n - 1); lemma_innermost(a[n - 1]);
        let x = leaves_to(v, n - 1); let y = leaves(a[n - 1]);
        assert forall|i: int| 0 <= i < leaves_to(v, n).len() implies !((#[trigger] leaves_to(v, n)[i]) is Arr) by { if i < x.len() { assert(leaves_to(v, n)[i] == x[i]); } else { assert(leaves_to(v, n)[i] == y[i - x.len()]); } }
    }
}
pub proof fn lemma_fill(ix: Index, ir: IR, f: Field<Value>, v: J, s: Seq<J>)
    requires s.len() >= leaves(v).len(), forall|i: int| 0 <= i < leaves(v).len() ==> one_leaf(ix, ir, f, #[trigger] leaves(v)[i], s[i])
    ensures fits(ix, ir, f, v, fill(v, s))
    decreases v, 1int, 0int
{
    if v is Arr { lemma_fill_to(ix, ir, f, v, (v->Arr_0).len() as int, s); }
    else { assert(leaves(v)[0] == v); }
}
pub proof fn lemma_fill_to(ix: Index, ir: IR, f: Field<Value>, v: J, n: int, s: Seq<J>)
    requires v is Arr, 0 <= n <= (v->Arr_0).len(), s.len() >= leaves_to(v, n).len(), forall|i: int| 0 <= i < leaves_to(v, n).len() ==> one_leaf(ix, ir, f, #[trigger] leaves_to(v, n)[i], s[i])
    ensures fill_to(v, n, s).len() == n, forall|i: int| 0 <= i < n ==> fits(ix, ir, f, #[trigger] (v->Arr_0)[i], fill_to(v, n, s)[i])
    decreases v, 0int, n
{
    if n > 0 {
        let a = v->Arr_0; let k = leaves_to(v, n - 1).len() as int; let l = leaves(a[n - 1]); let t = s.skip(k);
        assert forall|i: int| 0 <= i < leaves_to(v, n - 1).len() implies one_leaf(ix, ir, f, #[trigger] leaves_to(v, n - 1)[i], s[i]) by { assert(leaves_to(v, n)[i] == leaves_to(v, n - 1)[i]); }
        lemma_fill_to(ix, ir, f, v, n - 1, s);
        assert forall|i: int| 0 <= i < l.len() implies one_leaf(ix, ir, f, #[trigger] l[i], t[i]) by { assert(leaves_to(v, n)[k + i] == l[i]); assert(t[i] == s[k + i]); }
        lemma_fill(ix, ir, f, a[n - 1], t);
        assert forall|i: int| 0 <= i < n implies fits(ix, ir, f, #[trigger] a[i], fill_to(v, n, s)[i]) by { if i < n - 1 { assert(fill_to(v, n, s)[i] == fill_to(v, n - 1, s)[i]); } }
    }
}
// which results belong to which items: those of the items before it that are of the field's type were taken before
pub open spec fn taken(ix: Index, f: Field<Value>, l: Seq<J>, n: int) -> int decreases n { if n <= 0 { 0 } else { taken(ix, f, l, n - 1) + (if of_type(ix, f, l[n - 1]) { 1int } else { 0int }) } }
pub proof fn lemma_taken(ix: Index, f: Field<Value>, l: Seq<J>, n: int, m: int) requires 0 <= n < m ensures 0 <= taken(ix, f, l, n) <= taken(ix, f, l, m), of_type(ix, f, l[n]) ==> taken(ix, f, l, n) < taken(ix, f, l, m) decreases m
{ if n + 1 < m { lemma_taken(ix, f, l, n, m - 1); } if n > 0 { lemma_taken(ix, f, l, n - 1, n); } }
pub open spec fn in_line(ix: Index, ir: IR, f: Field<Value>, l: Seq<J>, n: int, q: Seq<Result<Value, Error>>) -> bool {
    q.len() == taken(ix, f, l, n) && forall|i: int| 0 <= i < n && of_type(ix, f, #[trigger] l[i]) ==> one(ir, f, Some(l[i]), said_(q[taken(ix, f, l, i)]))
}
pub proof fn lemma_in_line(ix: Index, ir: IR, f: Field<Value>, l: Seq<J>, n: int, p: Seq<Result<Value, Error>>, q: Seq<Result<Value, Error>>)
    requires 0 <= n < l.len(), in_line(ix, ir, f, l, n, p), if of_type(ix, f, l[n]) { q.len() == p.len() + 1 && q.drop_last() == p && one(ir, f, Some(l[n]), said_(q.last())) } else { q == p }
    ensures in_line(ix, ir, f, l, n + 1, q)
{
    assert forall|i: int| 0 <= i < n + 1 && of_type(ix, f, #[trigger] l[i]) implies one(ir, f, Some(l[i]), said_(q[taken(ix, f, l, i)])) by {
        if i < n { lemma_taken(ix, f, l, i, n); if of_type(ix, f, l[n]) { assert(q.drop_last()[taken(ix, f, l, i)] == q[taken(ix, f, l, i)]); } }
    }
}
impl<'a> Context<'a> {
    #[verifier::external_body] fn build_args(f: &Field<Value>) -> Option<Args_> { unimplemented!() }
//@ rewrite /Field<Input>/ => Field<Value>
//@ rewrite /RequestContext<('a, )?Input>/ => RequestContext<'a>
//@ rewrite /&'a Output\b/ => &'a Value
//@ rewrite /&Output\b/ => &Value
//@ fn src/core/jit/context.rs :: impl<'a, Input: Clone, Output> Context<'a, Input, Output> :: fn new
//@   spec ensures r.value is None, r.field == field, r.request == request
//@ fn src/core/jit/context.rs :: impl<'a, Input: Clone, Output> Context<'a, Input, Output> :: fn with_value
//@   spec ensures r.value == Some(value), r.field == self.field, r.request == self.request
//@ fn src/core/jit/context.rs :: impl<'a, Input: Clone, Output> Context<'a, Input, Output> :: fn with_value_and_field
//@   spec ensures r.value == Some(value), r.field == field, r.request == self.request
//@ fn src/core/jit/context.rs :: impl<'a, Input: Clone, Output> Context<'a, Input, Output> :: fn value
//@   spec ensures r == self.value
//@ fn src/core/jit/context.rs :: impl<'a, Input: Clone, Output> Context<'a, Input, Output> :: fn field
//@   spec ensures r == self.field
}
//@ rewrite /<Self as IRExecutor>::(Input|Output)/ => Value
//@ rewrite /Self::(Input|Output)\b/ => Value
//@ rewrite /Context<'a, Value, Value>/ => Context<'a>
//@ rewrite /OperationPlan<ConstValue>/ => OperationPlan<Value>
//@ rewrite /&'a RequestContext\b(?!<)/ => &'a HttpContext
//@ rewrite /where\s+Value: JsonLike<'a>,\s+Value: JsonLike<'a>,/ =>
//@ rewrite /-> Result<Value>/ => -> Result<Value, Error>
//@ rewrite /(\w+)\s*\.for_each\(&mut \|(\w+)\| \{((?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*)\}\);/ => for \2 in leaves_(\1) {\3}
//@ rewrite /\basync move \{/ => {
//@ item src/core/jit/exec_const.rs :: struct ConstValueExec
impl<'a> ConstValueExec<'a> {
//@ fn src/core/jit/exec_const.rs :: impl<'a> ConstValueExec<'a> :: fn new
//@   spec ensures r.plan == plan
//@ fn src/core/jit/exec_const.rs :: impl<'a> ConstValueExec<'a> :: fn call async=drop
//@   opt /Default::default\(\)/ => Value::default()
//@   spec ensures one(*ir, *ctx.field, jof(ctx.value), said_(r))
}
impl<'z> ConstValueExec<'z> {
//@ fn src/core/jit/exec_const.rs :: impl IRExecutor for ConstValueExec<'_> :: fn execute async=drop
//@   attr #[verifier::loop_isolation(false)]
//@   sub /Ok\((\w+)\s*\.map_ref\(&mut \|(\w+)\| \{((?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*)\}\)\?\)/ => { let mut outs_: Vec<Value> = Vec::new(); for \2 in leaves_(\1) { let x_: Result<Value, Error> = {\3}; match x_ { Ok(x_) => outs_.push(x_), Err(e_) => { return Err(e_); } } } Ok(rebuild_(\1, outs_)) }
//@   opt /ir::Error::IO\(\s*"[^"]*"\.to_string\(\)\s*,?\s*\)\s*\.into\(\)/ => other_error_()
//@   opt /\bjoin_all\((\w+)\)/ => \1
//@   opt /(\w+)\.into_iter\(\)/ => Queue_ { of: \1 }
//@   loop 1 it=it invariant it.seq().len() == leaves(v0).len(), forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> (*it.seq()[i]).j() == leaves(v0)[i], in_line(self.plan.index, *ir, *ctx.field, leaves(v0), it.index() as int, tasks@)
//@   loop 2 it=it2 invariant it2.seq().len() == leaves(v0).len(), forall|i: int| #![trigger it2.seq()[i]] 0 <= i < it2.seq().len() ==> (*it2.seq()[i]).j() == leaves(v0)[i], outs_@.len() == it2.index(), iter.of@ == res_.skip(taken(self.plan.index, *ctx.field, leaves(v0), it2.index() as int)), forall|i: int| 0 <= i < it2.index() ==> one_leaf(self.plan.index, *ir, *ctx.field, #[trigger] leaves(v0)[i], outs_@[i].j())
//@   before 2 proof { res_ = iter.of@; assert(iter.of@ =~= res_.skip(0)); }
//@   loopstart 2 proof { let l = leaves(v0); let n = it2.index() as int; lemma_taken(self.plan.index, *ctx.field, l, n, l.len() as int); lemma_innermost(v0); }
//@   loopstart 1 let ghost t0 = tasks@; proof { lemma_innermost(v0); }
//@   loopend 1 proof { assert(tasks@ == t0 || tasks@.drop_last() =~= t0); lemma_in_line(self.plan.index, *ir, *ctx.field, leaves(v0), it.index() as int, t0, tasks@); }
//@   start let ghost mut res_: Seq<Result<Value, Error>> = Seq::empty(); let ghost v0 = match ctx.value { Some(v) => v.j(), None => J::Null }; proof { if !(v0 is Arr) { assert(leaves(v0)[0] == v0); } }
//@   after 2 proof { assert forall|i: int| 0 <= i < leaves(v0).len() implies one_leaf(self.plan.index, *ir, *ctx.field, #[trigger] leaves(v0)[i], vs(outs_@)[i]) by { assert(vs(outs_@)[i] == outs_@[i].j()); } lemma_fill(self.plan.index, *ir, *ctx.field, v0, vs(outs_@)); }
//@   spec ensures resolved(self.plan.index, *ir, *ctx.field, jof(ctx.value), said_(r))
}
// ---- what is in the store after a request
// a field without a resolver has the values of its name in the objects
pub open spec fn key_p(ix: Index, f: Field<Value>) -> spec_fn(J) -> J { |v: J| if !of_type(ix, f, v) { J::Null } else { match key(v, f.name@) { Some(x) => x, None => J::Null } } }
pub open spec fn keyed(ix: Index, f: Field<Value>, v: Option<J>) -> J { match v { None => J::Null, Some(x) => map_j(key_p(ix, f), x) } }
// the field was resolved for these objects, and the fields selected in it for what came of that
pub open spec fn done(s: SharedStore, ix: Index, f: Field<Value>, v: Option<J>) -> bool decreases f {
    if f.ir is Some {
        exists|d: Result<Value, Positioned<Error>>| #![trigger wrote(s, f.id.0, d)] wrote(s, f.id.0, d) && resolved(ix, f.ir->0, f, v, said_(d)) && (d is Err ==> d->Err_0.pos == f.pos)
            && (d is Ok ==> forall|i: int| 0 <= i < f.selection@.len() ==> done(s, ix, #[trigger] f.selection@[i], Some(d->Ok_0.j())))
    } else { forall|i: int| 0 <= i < f.selection@.len() ==> done(s, ix, #[trigger] f.selection@[i], Some(keyed(ix, f, v))) }
}
//@ rewrite /ExecutorInner<'a, Input, Output, Error, Exec>/ => ExecutorInner<'a>
//@ rewrite /SharedStore<Output, Error>/ => SharedStore
//@ rewrite /&'a Exec\b/ => &'a ConstValueExec<'a>
//@ rewrite /Context<'b, Input, Output>/ => Context<'a>
//@ rewrite /&'b Output\b/ => &'a Value
//@ rewrite /&'b Context/ => &'a Context
//@ rewrite /'b self/ => 'a self
//@ rewrite /<'b>/ =>
//@ rewrite /Output::null\(\)/ => Value::null()
//@ rewrite /(\w+)\.map_ref\(&mut \|/ => map_(\1, |
//@ rewrite /\bjoin_all\(\s*([\w.()]+?)\.iter\(\)\.map\(\|(\w+)\| (?:async )?\{((?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*)\}\)\)/ => for \2 in \1.all_() { let _ = {\3}; }
//@ item src/core/jit/exec.rs :: struct ExecutorInner
//@   opt /#\[derive\([^\]]*\)\]/ => 
impl Field<Value> { pub fn all_(&self) -> (r: It<&Field<Value>>) ensures r@ == self.selection@.map_values(|c: Field<Value>| &c) { self.iter() } }
pub trait All_ { spec fn its(&self) -> Seq<Field<Value>>; fn all_(&self) -> (r: It<&Field<Value>>) ensures r@ == self.its().map_values(|c: Field<Value>| &c); }
impl All_ for Vec<Field<Value>> { open spec fn its(&self) -> Seq<Field<Value>> { self@ } #[verifier::external_body] fn all_(&self) -> It<&Field<Value>> { unimplemented!() } }
impl<'a> ExecutorInner<'a> {
    pub open spec fn ok(self) -> bool { self.ir_exec.plan == self.request.plan_ }
    pub open spec fn ix(self) -> Index { self.request.plan_.index }
//@ fn src/core/jit/exec.rs :: impl<'a, Input, Output, Error, Exec> ExecutorInner<'a, Input, Output, Error, Exec> where for<'i> Output: JsonLike<'i> + JsonLikeList<'i> + TypedValue<'i> + Debug + Clone, Input: Clone + Debug, Exec: IRExecutor<Input = Input, Output = Output, Error = Error>, :: fn new
//@   spec ensures r.store == store, r.ir_exec == ir_exec, r.request == env
//@ fn src/core/jit/exec.rs :: impl<'a, Input, Output, Error, Exec> ExecutorInner<'a, Input, Output, Error, Exec> where for<'i> Output: JsonLike<'i> + JsonLikeList<'i> + TypedValue<'i> + Debug + Clone, Input: Clone + Debug, Exec: IRExecutor<Input = Input, Output = Output, Error = Error>, :: fn init async=drop
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   loop 1 it=it invariant *self == *old(self), old(self).ok(), it.seq() == self.request.plan_.selection@.map_values(|c: Field<Value>| &c), forall|i: int| 0 <= i < it.index() ==> done(self.store, self.ix(), #[trigger] self.request.plan_.selection@[i], None)
//@   spec requires old(self).ok() ensures *final(self) == *old(self), forall|i: int| 0 <= i < old(self).request.plan_.selection@.len() ==> done(old(self).store, old(self).ix(), #[trigger] old(self).request.plan_.selection@[i], None)
//@ fn src/core/jit/exec.rs :: impl<'a, Input, Output, Error, Exec> ExecutorInner<'a, Input, Output, Error, Exec> where for<'i> Output: JsonLike<'i> + JsonLikeList<'i> + TypedValue<'i> + Debug + Clone, Input: Clone + Debug, Exec: IRExecutor<Input = Input, Output = Output, Error = Error>, :: fn iter_field async=drop
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   loop 1 it=it invariant self.ok(), it.seq() == ctx.field.selection@.map_values(|c: Field<Value>| &c), forall|i: int| 0 <= i < it.index() ==> done(self.store, self.ix(), #[trigger] ctx.field.selection@[i], Some(value.j()))
//@   spec requires self.ok() ensures r is Ok, forall|i: int| 0 <= i < ctx.field.selection@.len() ==> done(self.store, self.ix(), #[trigger] ctx.field.selection@[i], Some(value.j()))
//@ fn src/core/jit/exec.rs :: impl<'a, Input, Output, Error, Exec> ExecutorInner<'a, Input, Output, Error, Exec> where for<'i> Output: JsonLike<'i> + JsonLikeList<'i> + TypedValue<'i> + Debug + Clone, Input: Clone + Debug, Exec: IRExecutor<Input = Input, Output = Output, Error = Error>, :: fn execute async=drop
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   opt /self\.store\.lock\(\)\.unwrap\(\)/ => self.store.held_()
//@   opt /(value\s*\.get_key\(&field\.name\))\s*\.cloned\(\)/ => copy_(\1)
//@   closure /Positioned :: new/ |$0: Error| -> (o: Positioned<Error>) ensures o.value == $0, o.pos == field.pos
//@   closure /get_key/ |$0: &'a Value| -> (o: Result<Value, Error>) ensures o is Ok && (o->Ok_0).j() == key_p(self.ix(), *field)($0.j())
//@   start let ghost v0 = jof(ctx.value); proof { if v0 is Some { assert(keyed(self.ix(), *ctx.field, v0) == map_j(key_p(self.ix(), *ctx.field), v0->0)); } }
//@   spec requires self.ok() ensures r is Ok, done(self.store, self.ix(), *ctx.field, jof(ctx.value))
}
impl<'a> RequestContext<'a> { pub fn new(plan: &'a OperationPlan<Value>) -> (r: Self) ensures r.plan_ == plan { RequestContext { plan_: plan } } }
//@ rewrite /Executor<'a, IRExec, Input>/ => Executor<'a>
//@ rewrite /OperationPlan<Input>/ => OperationPlan<Value>
//@ rewrite /\bIRExec\b/ => ConstValueExec<'a>
//@ rewrite /\bexec\b/ => exec_
//@ rewrite /exec_: Exec\b/ => exec_: ConstValueExec<'a>
//@ rewrite /jit::Error/ => Error
//@ rewrite /RequestContext<'a, Value>/ => RequestContext<'a>
//@ item src/core/jit/exec.rs :: struct Executor
// the same, of the store that the answer is made from
pub type Stored = Store<Result<Value, Positioned<Error>>>;
pub open spec fn held(s: Stored, ix: Index, f: Field<Value>, v: Option<J>) -> bool decreases f {
    if f.ir is Some {
        s.got(f.id.0) matches Some(d) && resolved(ix, f.ir->0, f, v, said_(d)) && (d is Err ==> d->Err_0.pos == f.pos)
            && (d is Ok ==> forall|i: int| 0 <= i < f.selection@.len() ==> held(s, ix, #[trigger] f.selection@[i], Some(d->Ok_0.j())))
    } else { forall|i: int| 0 <= i < f.selection@.len() ==> held(s, ix, #[trigger] f.selection@[i], Some(keyed(ix, f, v))) }
}
pub proof fn lemma_held(w: SharedStore, s: Stored, ix: Index, f: Field<Value>, v: Option<J>)
    requires done(w, ix, f, v), forall|id: usize, d: Result<Value, Positioned<Error>>| #![trigger wrote(w, id, d)] wrote(w, id, d) ==> s.got(id) == Some(d)
    ensures held(s, ix, f, v) decreases f
{
    if f.ir is Some {
        let d = choose|d: Result<Value, Positioned<Error>>| #![trigger wrote(w, f.id.0, d)] wrote(w, f.id.0, d) && resolved(ix, f.ir->0, f, v, said_(d)) && (d is Err ==> d->Err_0.pos == f.pos)
            && (d is Ok ==> forall|i: int| 0 <= i < f.selection@.len() ==> done(w, ix, #[trigger] f.selection@[i], Some(d->Ok_0.j())));
        assert(s.got(f.id.0) == Some(d));
        if d is Ok { assert forall|i: int| 0 <= i < f.selection@.len() implies held(s, ix, #[trigger] f.selection@[i], Some(d->Ok_0.j())) by { lemma_held(w, s, ix, f.selection@[i], Some(d->Ok_0.j())); } }
    } else { assert forall|i: int| 0 <= i < f.selection@.len() implies held(s, ix, #[trigger] f.selection@[i], Some(keyed(ix, f, v))) by { lemma_held(w, s, ix, f.selection@[i], Some(keyed(ix, f, v))); } }
}
impl<'a> Executor<'a> {
//@ fn src/core/jit/exec.rs :: impl<'a, Input, Value, Exec> Executor<'a, Exec, Input> where Value: for<'b> JsonLike<'b> + Debug + Clone + Default, Input: Clone + Debug, Exec: IRExecutor<Input = Input, Output = Value, Error = jit::Error>, :: fn new
//@   spec ensures r.exec_ == exec_, r.ctx.plan_ == plan
//@ fn src/core/jit/exec.rs :: impl<'a, Input, Value, Exec> Executor<'a, Exec, Input> where Value: for<'b> JsonLike<'b> + Debug + Clone + Default, Input: Clone + Debug, Exec: IRExecutor<Input = Input, Output = Value, Error = jit::Error>, :: fn store async=drop
//@   opt /Arc::new\(Mutex::new\(Store::new\(\)\)\)/ => SharedStore::new_()
//@   opt /mem::replace\(&mut \*(\w+)\.lock\(\)\.unwrap\(\), Store::new\(\)\)/ => \1.take_()
//@   tail proof { assert forall|i: int| 0 <= i < self.ctx.plan_.selection@.len() implies held(ret_, self.ctx.plan_.index, #[trigger] self.ctx.plan_.selection@[i], None) by { lemma_held(ctx.store, ret_, self.ctx.plan_.index, self.ctx.plan_.selection@[i], None); } }
//@   spec requires self.exec_.plan == self.ctx.plan_ ensures forall|i: int| 0 <= i < self.ctx.plan_.selection@.len() ==> held(r, self.ctx.plan_.index, #[trigger] self.ctx.plan_.selection@[i], None)
}
// ---- the answer made from it: each object has what was resolved for it, and nothing that was resolved for another
// the answer for a field of the object x (None: at the top)
pub open spec fn own_child(s: Synth, c: Field<Value>, x: Option<J>, root: Option<Seq<char>>, a: J) -> bool decreases c, 1int, J::Null, 0int {
    if c.ir is Some { exists|y: J| #[trigger] gave_(c, x, y) && (if (c.type_of is List) != (y is Arr) { absent(c, None) == Some(a) } else { own(s, c, c.type_of, y, a) }) }
    else { match if x is Some { key(x->0, c.name@) } else { None } { Some(y) => own(s, c, c.type_of, y, a), None => absent(c, root) == Some(a) } }
}
pub open spec fn gave_(c: Field<Value>, x: Option<J>, y: J) -> bool { one(c.ir->0, c, x, Some(y)) }
// the answer for this value of the field
pub open spec fn own(s: Synth, c: Field<Value>, ty: Type, y: J, a: J) -> bool decreases c, 0int, y, 1int {
    if c.skipped(s.variables) { a == J::Null }
    else if y == J::Null { a == J::Null && opt(ty) }
    else if c.scalar is Some { a == y && leaf_ok(ty, y, scalar_p(c.scalar->0)) }
    else if c.is_enum { a == y && leaf_ok(ty, y, enum_p(s, c)) }
    else { match y {
        J::Obj(_) => a is Obj && own_fields(s, c, y, c.selection@.len() as int, a->Obj_0),
        J::Arr(v) => a is Arr && (a->Arr_0).len() == v.len() && forall|i: int| 0 <= i < v.len() && i <= usize::MAX ==> own(s, c, item_type(ty), #[trigger] v[i], (a->Arr_0)[i]),
        _ => a == y,
    } }
}
pub open spec fn own_fields(s: Synth, c: Field<Value>, y: J, n: int, e: Seq<(Seq<char>, J)>) -> bool decreases c, 0int, y, 0int, n {
    if n <= 0 || n > c.selection@.len() { e.len() == 0 } else {
        let k = c.selection@[n - 1];
        if !part(s, k, y) || k.skipped(s.variables) { own_fields(s, c, y, n - 1, e) }
        else { (known(e, k.output_name@) && own_fields(s, c, y, n - 1, e)) || (e.len() > 0 && e.last().0 == k.output_name@ && own_fields(s, c, y, n - 1, e.drop_last())
            && if k.name@ == "__typename"@ { e.last().1 == J::Text(said(c, y)) } else { own_child(s, k, Some(y), None, e.last().1) }) }
    }
}
// no value is held for a field without a resolver (the ids of fields are distinct)
pub open spec fn tidy(s: Stored, f: Field<Value>) -> bool decreases f { (f.ir is None ==> s.got(f.id.0) is None) && forall|i: int| 0 <= i < f.selection@.len() ==> tidy(s, #[trigger] f.selection@[i]) }
pub open spec fn below_held(s: Stored, ix: Index, f: Field<Value>, w: J) -> bool { forall|i: int| 0 <= i < f.selection@.len() ==> held(s, ix, #[trigger] f.selection@[i], Some(w)) && tidy(s, f.selection@[i]) }
pub proof fn lemma_walk_same(w: J, d: Seq<usize>, e: Seq<usize>, n: int) requires n <= d.len(), n <= e.len(), forall|i: int| 0 <= i < n ==> d[i] == e[i] ensures walk(w, d, n) == walk(w, e, n) decreases n
{ if n > 0 { lemma_walk_same(w, d, e, n - 1); } }
// the place of an object in its list is the place of what was resolved for it
pub proof fn lemma_walk_fits(ix: Index, ir: IR, f: Field<Value>, v: J, o: J, dp: Seq<usize>, n: int)
    requires fits(ix, ir, f, v, o), walk(v, dp, n) is Some, n <= dp.len(), in_range(v, dp, n) ensures walk(o, dp, n) is Some, fits(ix, ir, f, walk(v, dp, n)->0, walk(o, dp, n)->0) decreases n
{ if n > 0 { lemma_walk_fits(ix, ir, f, v, o, dp, n - 1); let a = walk(v, dp, n - 1)->0; assert(a is Arr); assert(fits(ix, ir, f, (a->Arr_0)[dp[n - 1] as int], ((walk(o, dp, n - 1)->0)->Arr_0)[dp[n - 1] as int])); } }
pub open spec fn in_range(v: J, dp: Seq<usize>, n: int) -> bool decreases n { n > 0 ==> in_range(v, dp, n - 1) && (walk(v, dp, n - 1) matches Some(J::Arr(a)) ==> 0 <= dp[n - 1] < a.len()) }
pub proof fn lemma_range_same(w: J, d: Seq<usize>, e: Seq<usize>, n: int) requires n <= d.len(), n <= e.len(), forall|i: int| 0 <= i < n ==> d[i] == e[i] ensures in_range(w, d, n) == in_range(w, e, n) decreases n
{ if n > 0 { lemma_range_same(w, d, e, n - 1); lemma_walk_same(w, d, e, n - 1); } }
pub proof fn lemma_map_to(p: spec_fn(J) -> J, v: J, n: int) requires v is Arr, 0 <= n <= (v->Arr_0).len() ensures map_to(p, v, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] map_to(p, v, n)[i] == map_j(p, (v->Arr_0)[i]) decreases n
{ if n > 0 { lemma_map_to(p, v, n - 1); } }
pub proof fn lemma_walk_map(p: spec_fn(J) -> J, v: J, dp: Seq<usize>, n: int)
    requires walk(v, dp, n) is Some, n <= dp.len(), in_range(v, dp, n) ensures walk(map_j(p, v), dp, n) == Some(map_j(p, walk(v, dp, n)->0)), in_range(map_j(p, v), dp, n) decreases n
{ if n > 0 { lemma_walk_map(p, v, dp, n - 1); let a = walk(v, dp, n - 1)->0; assert(a is Arr); lemma_map_to(p, a, (a->Arr_0).len() as int); } }
pub proof fn lemma_range_fits(ix: Index, ir: IR, f: Field<Value>, v: J, o: J, dp: Seq<usize>, n: int)
    requires fits(ix, ir, f, v, o), walk(v, dp, n) is Some, n <= dp.len(), in_range(v, dp, n) ensures in_range(o, dp, n) decreases n
{ if n > 0 { lemma_range_fits(ix, ir, f, v, o, dp, n - 1); lemma_walk_fits(ix, ir, f, v, o, dp, n - 1); } }
pub proof fn lemma_own(s: Synth, f: Field<Value>, ty: Type, y: J, w: J, dp: Seq<usize>, a: J)
    requires below_held(s.store, s.plan.index, f, w), walk(w, dp, dp.len() as int) == Some(y), in_range(w, dp, dp.len() as int), answer(s, f, ty, y, dp) == Some(a)
    ensures own(s, f, ty, y, a)
    decreases f, 0int, y, 1int
{
    if f.skipped(s.variables) || y == J::Null || f.scalar is Some || f.is_enum {}
    else if y is Obj { lemma_own_fields(s, f, y, w, dp, f.selection@.len() as int, a->Obj_0); }
    else if y is Arr {
        let v = y->Arr_0;
        lemma_items_own(s, f, ty, y, w, dp, v.len() as int, a->Arr_0);
    }
}
pub proof fn lemma_items_own(s: Synth, f: Field<Value>, ty: Type, y: J, w: J, dp: Seq<usize>, n: int, a: Seq<J>)
    requires below_held(s.store, s.plan.index, f, w), walk(w, dp, dp.len() as int) == Some(y), in_range(w, dp, dp.len() as int), y is Arr, 0 <= n <= (y->Arr_0).len(), items(s, f, ty, y, dp, n) == Some(a)
    ensures a.len() == n, forall|i: int| 0 <= i < n && i <= usize::MAX ==> own(s, f, item_type(ty), #[trigger] (y->Arr_0)[i], a[i])
    decreases f, 0int, y, 0int, n
{
    if n > 0 {
        let v = y->Arr_0; let i = n - 1;
        assert(items(s, f, ty, y, dp, i)->0 =~= a.drop_last());
        lemma_items_own(s, f, ty, y, w, dp, i, a.drop_last());
        if i <= usize::MAX {
            let d = dp.push(i as usize);
            lemma_walk_same(w, dp, d, dp.len() as int); lemma_range_same(w, dp, d, dp.len() as int);
            assert(walk(w, d, d.len() as int) == Some(v[i]));
            lemma_own(s, f, item_type(ty), v[i], w, d, a.last());
        }
        assert forall|j: int| 0 <= j < n && j <= usize::MAX implies own(s, f, item_type(ty), #[trigger] v[j], a[j]) by { if j < i { assert(a.drop_last()[j] == a[j]); } }
    }
}
pub proof fn lemma_own_fields(s: Synth, f: Field<Value>, y: J, w: J, dp: Seq<usize>, n: int, e: Seq<(Seq<char>, J)>)
    requires below_held(s.store, s.plan.index, f, w), walk(w, dp, dp.len() as int) == Some(y), in_range(w, dp, dp.len() as int), y is Obj, 0 <= n <= f.selection@.len(), chosen(s, f, y, dp, n) == Some(e)
    ensures own_fields(s, f, y, n, e)
    decreases f, 0int, y, 0int, n
{
    if n > 0 {
        let k = f.selection@[n - 1]; let p = chosen(s, f, y, dp, n - 1)->0;
        lemma_own_fields(s, f, y, w, dp, n - 1, p);
        if !part(s, k, y) || k.skipped(s.variables) || known(p, k.output_name@) {}
        else {
            assert(e.drop_last() =~= p);
            if k.name@ != "__typename"@ { assert(held(s.store, s.plan.index, k, Some(w))); assert(tidy(s.store, k)); lemma_own_child(s, k, y, w, dp, e.last().1); }
        }
    }
}
pub proof fn lemma_own_child(s: Synth, c: Field<Value>, x: J, w: J, dp: Seq<usize>, a: J)
    requires held(s.store, s.plan.index, c, Some(w)), tidy(s.store, c), walk(w, dp, dp.len() as int) == Some(x), in_range(w, dp, dp.len() as int), x is Obj, part(s, c, x), child(s, c, at(x->Obj_0, c.name@), dp, None) == Some(a)
    ensures own_child(s, c, Some(x), None, a)
    decreases c, 1int, J::Null, 0int
{
    let n = dp.len() as int; let ix = s.plan.index;
    if c.ir is Some {
        let d = s.store.got(c.id.0)->0;
        let o = d->Ok_0.j();
        lemma_walk_fits(ix, c.ir->0, c, w, o, dp, n); lemma_range_fits(ix, c.ir->0, c, w, o, dp, n);
        let y = walk(o, dp, n)->0;
        assert(gave_(c, Some(x), y));
        if (c.type_of is List) == (y is Arr) { lemma_own(s, c, c.type_of, y, o, dp, a); }
    } else {
        let p = key_p(ix, c);
        lemma_walk_map(p, w, dp, n);
        if key(x, c.name@) is Some { lemma_own(s, c, c.type_of, key(x, c.name@)->0, keyed(ix, c, Some(w)), dp, a); }
    }
}
// the fields at the top
pub proof fn lemma_own_top(s: Synth, c: Field<Value>, a: J)
    requires held(s.store, s.plan.index, c, None), tidy(s.store, c), child(s, c, None, Seq::empty(), Some(s.plan.root_name@)) == Some(a)
    ensures own_child(s, c, None, Some(s.plan.root_name@), a)
{
    if c.ir is Some {
        let y = s.store.got(c.id.0)->0->Ok_0.j();
        assert(walk(y, Seq::empty(), 0) == Some(y));
        assert(gave_(c, None, y));
        if (c.type_of is List) == (y is Arr) { lemma_own(s, c, c.type_of, y, y, Seq::empty(), a); }
    }
}
} // verus!
fn main() {}

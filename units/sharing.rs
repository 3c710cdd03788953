#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/iter.rs
//@ include prelude/valid.rs
pub mod m_tree {
// Assumed shapes of what an IR is made of, as far as used here.
use vstd::prelude::*;
verus! {
// a map, as its entries
pub struct HashMap<K, V> { pub entries: Vec<(K, V)> }
impl<K, V> HashMap<K, V> { pub open spec fn has(&self, v: V) -> bool { exists|i: int| 0 <= i < self.entries@.len() && (#[trigger] self.entries@[i]).1 == v } }
pub fn vals_<K, V>(m: &HashMap<K, V>) -> (r: Vec<&V>) ensures r@.len() == m.entries@.len(), forall|i: int| #![trigger r@[i]] #![trigger m.entries@[i]] 0 <= i < r@.len() ==> *r@[i] == m.entries@[i].1
{
    let mut r: Vec<&V> = Vec::new();
    for i in 0..m.entries.len() invariant r@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] r@[j]) == m.entries@[j].1 { r.push(&m.entries[i].1); }
    r
}
pub fn refs_<V>(m: &Vec<V>) -> (r: Vec<&V>) ensures r@.len() == m@.len(), forall|i: int| #![trigger r@[i]] #![trigger m@[i]] 0 <= i < r@.len() ==> *r@[i] == m@[i]
{
    let mut r: Vec<&V> = Vec::new();
    for i in 0..m.len() invariant r@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] r@[j]) == m@[j] { r.push(&m[i]); }
    r
}
pub type IndexMap<K, V> = HashMap<K, V>;
#[verifier::external_body] pub struct Name { _p: () }
#[verifier::external_body] pub struct Value { _p: () }
#[verifier::external_body] pub struct Mustache { _p: () }
impl Mustache {
    // no segment is an expression
    pub uninterp spec fn fixed(&self) -> bool;
    // proved in the unit mustache
    #[verifier::external_body] pub fn is_const(&self) -> (r: bool) ensures r == self.fixed() { unimplemented!() }
}
#[verifier::external_body] pub struct Auth { _p: () }
#[verifier::external_body] pub struct Discriminator { _p: () }
#[verifier::external_body] pub struct GroupBy { _p: () }
#[verifier::external_body] pub struct WorkerHooks { _p: () }
pub mod http { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct RequestTemplate { _p: () } } }
pub mod graphql { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct RequestTemplate { _p: () } } }
pub mod grpc { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct RequestTemplate { _p: () } } }
#[derive(Clone, Copy)]
pub struct DataLoaderId(pub usize);
// std's NonZeroU64
#[derive(Clone, Copy)]
pub struct NonZeroU64 { pub n: u64 }
impl NonZeroU64 {
    pub const MAX: NonZeroU64 = NonZeroU64 { n: u64::MAX };
    pub fn min(self, o: Self) -> (r: Self) ensures r.n == (if self.n <= o.n { self.n } else { o.n }) { if self.n <= o.n { self } else { o } }
}
// what is left where the other is at most
pub open spec fn under(a: Option<NonZeroU64>, b: Option<NonZeroU64>) -> bool { match (a, b) { (None, _) => true, (Some(x), Some(y)) => x.n <= y.n, _ => false } }
// `Iterator::min` over an Ord whose least is None
#[verifier::external_body] pub fn least_(v: Vec<Option<NonZeroU64>>) -> (r: Option<Option<NonZeroU64>>)
    ensures match r { Some(x) => v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> under(x, #[trigger] v@[i]), None => v@.len() == 0 } { unimplemented!() }
#[verifier::external_body] pub fn min_(a: Option<NonZeroU64>, b: Option<NonZeroU64>) -> (r: Option<NonZeroU64>) ensures under(r, a), under(r, b), r == a || r == b { unimplemented!() }
} // verus!
}
use m_tree::*;
pub mod m_plan {
// Assumed shape of an operation plan, as far as used here.
use vstd::prelude::*;
use super::*;
verus! {
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum OperationType { Query, Mutation, Subscription }
pub struct Field<Input> { pub ir: Option<IR>, pub selection: Vec<Field<Input>>, pub arg: Option<Input> }
pub struct OperationPlan<Input> { pub operation_type: OperationType, pub is_dedupe: bool, pub is_const: bool, pub is_protected: bool, pub min_cache_ttl: Option<NonZeroU64>, pub selection: Vec<Field<Input>> }
pub struct Infallible { }
// f, or something selected below it
pub open spec fn inside<I>(x: Field<I>, f: Field<I>) -> bool decreases f { x == f || exists|i: int| 0 <= i < f.selection@.len() && inside(x, #[trigger] f.selection@[i]) }
pub open spec fn among<I>(x: Field<I>, s: Seq<Field<I>>) -> bool { exists|i: int| 0 <= i < s.len() && inside(x, #[trigger] s[i]) }
pub open spec fn among_refs<I>(x: Field<I>, s: Seq<&Field<I>>) -> bool { exists|i: int| 0 <= i < s.len() && inside(x, *#[trigger] s[i]) }
// a slice's iterator
#[verifier::external_body] #[verifier::accept_recursive_types(I)] pub struct Iter<'a, I> { _p: core::marker::PhantomData<&'a I> }
impl<'a, I> Iter<'a, I> {
    pub uninterp spec fn left(&self) -> Seq<&'a Field<I>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a Field<I>>)
        ensures match r { Some(x) => old(self).left().len() > 0 && x == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
}
#[verifier::external_body] pub fn slice_<'a, I>(v: &'a Vec<Field<I>>) -> (r: Iter<'a, I>) ensures r.left().len() == v@.len(), forall|i: int| #![trigger r.left()[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> *r.left()[i] == v@[i] { unimplemented!() }
pub trait Stack<T> { spec fn seq(&self) -> Seq<T>;
    fn last_mut_(&mut self) -> (r: Option<&mut T>) ensures match r { Some(x) => old(self).seq().len() > 0 && *x == old(self).seq().last() && final(self).seq() == old(self).seq().drop_last().push(*final(x)), None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq() }; }
impl<T> Stack<T> for Vec<T> { open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn last_mut_(&mut self) -> (r: Option<&mut T>) { unimplemented!() } }
// what an iterator over fields yet comes to
pub open spec fn todo<'a, I>(x: Field<I>, s: Seq<Iter<'a, I>>) -> bool { exists|k: int| 0 <= k < s.len() && among_refs(x, (#[trigger] s[k]).left()) }
} // verus!
}
use m_plan::*;
verus! {
//@ item src/core/blueprint/dynamic_value.rs :: enum DynamicValue
//@ rewrite /#\[strum[^\]]*\]/ =>
//@ item src/core/ir/model.rs :: enum IR
//@ item src/core/ir/model.rs :: struct Map
//@ item src/core/ir/model.rs :: enum IO
//@ item src/core/ir/model.rs :: struct Cache
// ---- what the property says
// evaluated without anything from the request or from upstream
pub open spec fn fixed<A>(d: DynamicValue<A>) -> bool decreases d {
    match d {
        DynamicValue::Value(_) => true,
        DynamicValue::Mustache(m) => m.fixed(),
        DynamicValue::Object(m) => forall|i: int| 0 <= i < m.entries@.len() ==> fixed((#[trigger] m.entries@[i]).1),
        DynamicValue::Array(v) => forall|i: int| 0 <= i < v@.len() ==> fixed(#[trigger] v@[i]),
    }
}
pub open spec fn is_const_ok(ir: IR, r: bool) -> bool { r ==> unchanging(ir) }
pub open spec fn unchanging(ir: IR) -> bool decreases ir {
    match ir {
        IR::Dynamic(d) => fixed(d),
        IR::IO(_) | IR::Cache(_) | IR::ContextPath(_) => false,
        IR::Path(x, _) => unchanging(*x),
        IR::Protect(_, x) => unchanging(*x),
        IR::Map(m) => unchanging(*m.input),
        IR::Pipe(x, y) => unchanging(*x) && unchanging(*y),
        IR::Merge(v) => forall|i: int| 0 <= i < v@.len() ==> unchanging(#[trigger] v@[i]),
        IR::Discriminate(_, x) => unchanging(*x),
        IR::Entity(m) => forall|i: int| 0 <= i < m.entries@.len() ==> unchanging((#[trigger] m.entries@[i]).1),
        IR::Service(_) => true,
    }
}
// needs credentials somewhere inside
pub open spec fn is_protected_ok(ir: IR, r: bool) -> bool { guarded(ir) ==> r }
pub open spec fn guarded(ir: IR) -> bool decreases ir {
    match ir {
        IR::Dynamic(_) | IR::IO(_) | IR::Cache(_) | IR::ContextPath(_) | IR::Service(_) => false,
        IR::Protect(_, _) => true,
        IR::Path(x, _) => guarded(*x),
        IR::Map(m) => guarded(*m.input),
        IR::Pipe(x, y) => guarded(*x) || guarded(*y),
        IR::Merge(v) => exists|i: int| 0 <= i < v@.len() && guarded(#[trigger] v@[i]),
        IR::Discriminate(_, x) => guarded(*x),
        IR::Entity(m) => exists|i: int| 0 <= i < m.entries@.len() && guarded((#[trigger] m.entries@[i]).1),
    }
}
pub open spec fn said_shared(io: IO) -> bool { match io { IO::Http { dedupe, .. } => dedupe, IO::GraphQL { dedupe, .. } => dedupe, IO::Grpc { dedupe, .. } => dedupe, IO::Js { .. } => false } }
// every call inside is configured to be shared
pub open spec fn check_dedupe_ok(ir: IR, r: bool) -> bool { r ==> shared(ir) }
pub open spec fn shared(ir: IR) -> bool decreases ir {
    match ir {
        IR::IO(io) => said_shared(io),
        IR::Cache(c) => said_shared(*c.io),
        IR::Dynamic(_) | IR::ContextPath(_) | IR::Service(_) => true,
        IR::Path(x, _) => shared(*x),
        IR::Protect(_, x) => shared(*x),
        IR::Map(m) => shared(*m.input),
        IR::Pipe(x, y) => shared(*x) && shared(*y),
        IR::Merge(v) => forall|i: int| 0 <= i < v@.len() ==> shared(#[trigger] v@[i]),
        IR::Discriminate(_, x) => shared(*x),
        IR::Entity(m) => forall|i: int| 0 <= i < m.entries@.len() ==> shared((#[trigger] m.entries@[i]).1),
    }
}
// every value is one that is kept for at least that long
pub open spec fn check_cache_ok(ir: IR, r: Option<NonZeroU64>) -> bool { r is Some ==> kept(ir, (r->0).n) }
pub open spec fn kept(ir: IR, n: u64) -> bool decreases ir {
    match ir {
        IR::Cache(c) => c.max_age.n >= n,
        IR::IO(_) | IR::Dynamic(_) | IR::ContextPath(_) | IR::Map(_) | IR::Service(_) => false,
        IR::Path(x, _) => kept(*x, n),
        IR::Protect(_, x) => kept(*x, n),
        IR::Pipe(x, y) => kept(*x, n) && kept(*y, n),
        IR::Merge(v) => v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> kept(#[trigger] v@[i], n),
        IR::Discriminate(_, x) => kept(*x, n),
        IR::Entity(m) => m.entries@.len() > 0 && forall|i: int| 0 <= i < m.entries@.len() ==> kept((#[trigger] m.entries@[i]).1, n),
    }
}
pub proof fn lemma_kept(ir: IR, n: u64, m: u64)
    requires kept(ir, n), m <= n ensures kept(ir, m) decreases ir
{
    match ir {
        IR::Path(x, _) => lemma_kept(*x, n, m),
        IR::Protect(_, x) => lemma_kept(*x, n, m),
        IR::Pipe(x, y) => { lemma_kept(*x, n, m); lemma_kept(*y, n, m); }
        IR::Merge(v) => { assert forall|i: int| 0 <= i < v@.len() implies kept(#[trigger] v@[i], m) by { lemma_kept(v@[i], n, m); } }
        IR::Discriminate(_, x) => lemma_kept(*x, n, m),
        IR::Entity(h) => { assert forall|i: int| 0 <= i < h.entries@.len() implies kept((#[trigger] h.entries@[i]).1, m) by { lemma_kept(h.entries@[i].1, n, m); } }
        _ => {}
    }
}
// `.all(f)`, `.any(f)` and `.map(f)` of a function that calls itself are read as loops over the items in order
//@ rewrite /\b(\w+)\.(iter|values)\(\)\s*\.all\(\|(\w+)\| (\w+)\.is_const\(\)\)/ => ({ let mut all_ = true; let v_ = \2_(\1); for i_ in 0..v_.len() invariant all_ ==> forall|j: int| 0 <= j < i_ ==> fixed(*#[trigger] v_@[j]) { let \3 = v_[i_]; if !\4.is_const() { all_ = false; } } all_ })
//@ rewrite /\b(\w+)\.(iter|values)\(\)\s*\.all\((?:\|(\w+)\| )?(\w+)(?:\(\3\))?\)/ => ({ let mut all_ = true; let v_ = \2_(\1); for i_ in 0..v_.len() invariant all_ ==> forall|j: int| 0 <= j < i_ ==> \4_ok(*#[trigger] v_@[j], true) { if !\4(v_[i_]) { all_ = false; } } all_ })
//@ rewrite /\b(\w+)\.(iter|values)\(\)\s*\.any\((?:\|(\w+)\| )?(\w+)(?:\(\3\))?\)/ => ({ let mut any_ = false; let v_ = \2_(\1); for i_ in 0..v_.len() invariant !any_ ==> forall|j: int| 0 <= j < i_ ==> \4_ok(*#[trigger] v_@[j], false) { if \4(v_[i_]) { any_ = true; } } any_ })
//@ rewrite /\b(\w+)\.(iter|values)\(\)\s*\.map\((?:\|(\w+)\| )?(\w+)(?:\(\3\))?\)\s*\.min\(\)/ => least_({ let mut got_: Vec<Option<NonZeroU64>> = Vec::new(); let v_ = \2_(\1); for i_ in 0..v_.len() invariant got_@.len() == i_, forall|j: int| #![trigger v_@[j]] #![trigger got_@[j]] 0 <= j < i_ ==> \4_ok(*v_@[j], got_@[j]) { let x_ = \4(v_[i_]); got_.push(x_); } got_ })
//@ rewrite /\biter_\(/ => refs_(
//@ rewrite /\bvalues_\(/ => vals_(
//@ rewrite /\.unwrap_or_default\(\)/ => .unwrap_or(None)
impl<A> DynamicValue<A> {
//@ fn src/core/blueprint/dynamic_value.rs :: impl<A> DynamicValue<A> :: fn is_const
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   spec ensures r ==> fixed(*self)
}
impl IO {
//@ fn src/core/ir/model.rs :: impl IO :: fn dedupe
//@   spec ensures r == said_shared(*self)
}
//@ fn src/core/jit/transform/check_const.rs :: fn is_const
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   spec ensures is_const_ok(*ir, r)
//@ fn src/core/jit/transform/check_protected.rs :: fn is_protected
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   spec ensures is_protected_ok(*ir, r)
//@ fn src/core/jit/transform/check_dedupe.rs :: fn check_dedupe
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   spec ensures check_dedupe_ok(*ir, r)
//@ fn src/core/jit/transform/check_cache.rs :: fn check_cache
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   attr #[verifier::rlimit(60)]
//@   tail proof { if ret_ is Some { let m = (ret_->0).n; assert forall|x: IR, n: u64| #[trigger] kept(x, n) && m <= n implies kept(x, m) by { lemma_kept(x, n, m); } } }
//@   spec ensures check_cache_ok(*ir, r)
// ---- every field of a plan is asked
broadcast use m_walk::lemmas;
pub mod m_walk {
use vstd::prelude::*;
use super::*;
verus! {
pub broadcast group lemmas { lemma_back, lemma_todo, lemma_pushed, lemma_among, lemma_slice }
pub broadcast proof fn lemma_todo<'a, I>(x: Field<I>, s: Seq<Iter<'a, I>>)
    requires s.len() > 0 ensures #[trigger] todo(x, s) == (todo(x, s.drop_last()) || among_refs(x, s.last().left()))
{
    let d = s.drop_last();
    if todo(x, d) { let k = choose|k: int| 0 <= k < d.len() && among_refs(x, (#[trigger] d[k]).left()); assert(s[k] == d[k]); }
    if todo(x, s) { let k = choose|k: int| 0 <= k < s.len() && among_refs(x, (#[trigger] s[k]).left()); if k < d.len() { assert(s[k] == d[k]); } }
}
pub broadcast proof fn lemma_pushed<'a, I>(x: Field<I>, s: Seq<Iter<'a, I>>, i: Iter<'a, I>)
    ensures #[trigger] todo(x, s.push(i)) == (todo(x, s) || among_refs(x, i.left()))
{ assert(s.push(i).drop_last() =~= s); lemma_todo(x, s.push(i)); }
pub broadcast proof fn lemma_back<T>(s: Seq<T>, i: T) ensures #[trigger] s.push(i).drop_last() == s { assert(s.push(i).drop_last() =~= s); }
pub broadcast proof fn lemma_among<'a, I>(x: Field<I>, s: Seq<&'a Field<I>>)
    requires s.len() > 0 ensures #[trigger] among_refs(x, s) == (x == *s[0] || among(x, s[0].selection@) || among_refs(x, s.skip(1)))
{
    let t = s.skip(1);
    assert(inside(x, *s[0]) == (x == *s[0] || among(x, s[0].selection@)));
    if among_refs(x, t) { let k = choose|k: int| 0 <= k < t.len() && inside(x, *#[trigger] t[k]); assert(s[k + 1] == t[k]); }
    if among_refs(x, s) { let k = choose|k: int| 0 <= k < s.len() && inside(x, *#[trigger] s[k]); if k > 0 { assert(t[k - 1] == s[k]); } }
}
pub broadcast proof fn lemma_slice<'a, I>(x: Field<I>, s: Seq<&'a Field<I>>, v: Seq<Field<I>>)
    requires s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> *#[trigger] s[i] == v[i] ensures #![trigger among_refs(x, s), among(x, v)] among_refs(x, s) == among(x, v)
{
    if among(x, v) { let k = choose|k: int| 0 <= k < v.len() && inside(x, #[trigger] v[k]); assert(*s[k] == v[k]); }
}
} // verus!
}
//@ rewrite /std::slice::Iter<'a, Field<Input>>/ => Iter<'a, Input>
//@ item src/core/jit/model.rs :: struct DFS
impl<'a, Input> DFS<'a, Input> {
//@ fn src/core/jit/model.rs :: impl<'a, Input> Iterator for DFS<'a, Input> :: fn next
//@   sub /Option<Self::Item>/ => Option<&'a Field<Input>>
//@   sub /\.last_mut\(\)/ => .last_mut_()
//@   sub /(\w+)\.selection\.iter\(\)/ => slice_(&\1.selection)
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   loop 1 invariant forall|x: Field<Input>| todo(x, self.stack@) == todo(x, old(self).stack@),
//@   |  ensures self.stack@.len() == 0,
//@   spec ensures match r { Some(f) => forall|x: Field<Input>| #[trigger] todo(x, old(self).stack@) <==> x == *f || todo(x, final(self).stack@), None => forall|x: Field<Input>| !#[trigger] todo(x, old(self).stack@) }
}
// std's Iterator methods that are nothing but repeated `next`
impl<'a, Input> DFS<'a, Input> {
    #[verifier::external_body] pub fn all<F: Fn(&'a Field<Input>) -> bool>(self, f: F) -> (r: bool)
        requires forall|x: &'a Field<Input>| f.requires((x,)) ensures r ==> forall|x: Field<Input>| #[trigger] todo(x, self.stack@) ==> f.ensures((&x,), true) { unimplemented!() }
    #[verifier::external_body] pub fn any<F: Fn(&'a Field<Input>) -> bool>(self, f: F) -> (r: bool)
        requires forall|x: &'a Field<Input>| f.requires((x,)) ensures !r ==> forall|x: Field<Input>| #[trigger] todo(x, self.stack@) ==> f.ensures((&x,), false) { unimplemented!() }
    #[verifier::external_body] pub fn each_(self) -> (r: It<&'a Field<Input>>) ensures forall|x: Field<Input>| #[trigger] todo(x, self.stack@) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == x { unimplemented!() }
}
pub open spec fn of_query<I>(p: OperationPlan<I>) -> bool { p.operation_type == OperationType::Query }
impl<Input> OperationPlan<Input> {
//@ fn src/core/jit/model.rs :: impl<Input> OperationPlan<Input> :: fn operation_type
//@   spec ensures r == self.operation_type
//@ fn src/core/jit/model.rs :: impl<Input> OperationPlan<Input> :: fn is_query
//@   spec ensures r == of_query(*self)
//@ fn src/core/jit/model.rs :: impl<Input> OperationPlan<Input> :: fn iter_dfs
//@   sub /DFS<Input>/ => DFS<'_, Input>
//@   sub /(\w+)\.selection\.iter\(\)/ => slice_(&\1.selection)
//@   spec ensures forall|x: Field<Input>| #[trigger] among(x, self.selection@) ==> todo(x, r.stack@)
//@   tail proof { assert(ret_.stack@ =~= Seq::empty().push(ret_.stack@[0])); assert forall|x: Field<Input>| #[trigger] among(x, self.selection@) implies todo(x, ret_.stack@) by { m_walk::lemma_slice(x, ret_.stack@[0].left(), self.selection@); } }
//@ fn src/core/jit/model.rs :: impl<Input> OperationPlan<Input> :: fn can_dedupe
//@   spec ensures r ==> of_query(*self) && (self.is_dedupe || self.is_const || self.min_cache_ttl is Some)
}
// what a plan says of itself is true of every field selected anywhere in it
pub open spec fn has_ir<I>(x: Field<I>, s: Seq<Field<I>>) -> bool { among(x, s) && x.ir is Some }
pub open spec fn const_true<I>(p: OperationPlan<I>) -> bool { p.is_const ==> forall|x: Field<I>| #[trigger] has_ir(x, p.selection@) ==> unchanging(x.ir->0) }
pub open spec fn protected_true<I>(p: OperationPlan<I>) -> bool { !p.is_protected ==> forall|x: Field<I>| #[trigger] has_ir(x, p.selection@) ==> !guarded(x.ir->0) }
pub open spec fn dedupe_true<I>(p: OperationPlan<I>) -> bool { p.is_dedupe ==> forall|x: Field<I>| #[trigger] has_ir(x, p.selection@) ==> shared(x.ir->0) }
pub open spec fn ttl_true<I>(p: OperationPlan<I>) -> bool { p.min_cache_ttl is Some ==> forall|x: Field<I>| #[trigger] has_ir(x, p.selection@) ==> kept(x.ir->0, (p.min_cache_ttl->0).n) }
pub struct CheckConst<A>(pub core::marker::PhantomData<A>);
pub struct CheckProtected<A>(pub core::marker::PhantomData<A>);
pub struct CheckDedupe<A>(pub core::marker::PhantomData<A>);
pub struct CheckCache<A>(pub core::marker::PhantomData<A>);
//@ rewrite /Self::Value/ => OperationPlan<A>
//@ rewrite /Self::Error/ => Infallible
//@ rewrite /in (\w+)\.iter_dfs\(\)/ => in \1.iter_dfs().each_()
//@ rewrite /\b(?:std::)?cmp::min\(/ => min_(
impl<A> CheckConst<A> {
//@ fn src/core/jit/transform/check_const.rs :: impl<A> Transform for CheckConst<A> :: fn transform
//@   closure 1 |$0: &Field<A>| -> (b: bool) ensures b && $0.ir is Some ==> unchanging($0.ir->0)
//@   spec ensures r.ok() is Some, r.ok()->0 == (OperationPlan { is_const: (r.ok()->0).is_const, ..plan }), const_true(r.ok()->0)
}
impl<A> CheckProtected<A> {
//@ fn src/core/jit/transform/check_protected.rs :: impl<A> Transform for CheckProtected<A> :: fn transform
//@   closure 1 |$0: &Field<A>| -> (b: bool) ensures !b && $0.ir is Some ==> !guarded($0.ir->0)
//@   spec ensures r.ok() is Some, r.ok()->0 == (OperationPlan { is_protected: (r.ok()->0).is_protected, ..plan }), protected_true(r.ok()->0)
}
impl<A> CheckDedupe<A> {
//@ fn src/core/jit/transform/check_dedupe.rs :: impl<A> Transform for CheckDedupe<A> :: fn transform
//@   closure 1 |$0: &Field<A>| -> (b: bool) ensures b && $0.ir is Some ==> shared($0.ir->0)
//@   spec ensures r.ok() is Some, r.ok()->0 == (OperationPlan { is_dedupe: (r.ok()->0).is_dedupe, ..plan }), dedupe_true(r.ok()->0)
}
impl<A> CheckCache<A> {
//@ fn src/core/jit/transform/check_cache.rs :: impl<A> Transform for CheckCache<A> :: fn transform
//@   loopend 1 proof { if ttl is Some { let m = (ttl->0).n; assert forall|x: IR, n: u64| #[trigger] kept(x, n) && m <= n implies kept(x, m) by { lemma_kept(x, n, m); } } }
//@   loop 1 it=it invariant ttl is Some ==> forall|i: int| 0 <= i < it.index() as int && (#[trigger] it.seq()[i]).ir is Some ==> kept(it.seq()[i].ir->0, (ttl->0).n),
//@   spec ensures r.ok() is Some, r.ok()->0 == (OperationPlan { min_cache_ttl: (r.ok()->0).min_cache_ttl, ..plan }), ttl_true(r.ok()->0)
}
}
fn main() {}

#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/iter.rs
//@ include prelude/plan.rs
verus! {
impl<'a> Synth<'a> {
//@ fn src/core/jit/synth/synth.rs :: impl<'a, Value> Synth<'a, Value> where Value: JsonLike<'a> + Clone + std::fmt::Debug, :: fn include
//@   spec ensures r == !field.skipped(self.variables)
//@ fn src/core/jit/synth/synth.rs :: impl<'a, Value> Synth<'a, Value> where Value: JsonLike<'a> + Clone + std::fmt::Debug, :: fn to_location_error
//@   opt /\.iter\(\)/ => .it_()
//@   opt /\.collect\(\)/ => .vec_()
//@   closure 1 |$0: &PathSegment| -> (o: PathSegment<'static>) ensures seg(o) == seg(*$0)
//@   tail proof { assert(place(ret_.path@) =~= place(path@)); assert(place(ret_.path@).take(path@.len() as int) =~= place(path@)); }
//@   spec ensures r.value == error, r.pos == node.pos, place(r.path@) == place(path@), below(r, path@)
}
pub proof fn lemma_below(e: Positioned<Error>, p: Seq<PathSegment>, x: PathSegment)
    ensures below(e, p.push(x)) ==> below(e, p)
{ if below(e, p.push(x)) { assert(place(p.push(x)).take(p.len() as int) =~= place(p)); assert(place(e.path@).take(p.len() as int + 1).take(p.len() as int) =~= place(e.path@).take(p.len() as int)); } }
pub proof fn lemma_chosen(s: Synth, node: Field<Value>, v: J, dp: Seq<usize>, n: int, m: int)
    requires n <= m <= node.selection@.len()
    ensures chosen(s, node, v, dp, n) is None ==> chosen(s, node, v, dp, m) is None
    decreases m - n
{ if n < m { lemma_chosen(s, node, v, dp, n, m - 1); } }
pub proof fn lemma_items(s: Synth, node: Field<Value>, ty: Type, v: J, dp: Seq<usize>, n: int, m: int)
    requires n <= m, v is Arr, m <= v->Arr_0.len()
    ensures items(s, node, ty, v, dp, n) is None ==> items(s, node, ty, v, dp, m) is None
    decreases m - n
{ if n < m { lemma_items(s, node, ty, v, dp, n, m - 1); } }
pub proof fn lemma_top(s: Synth, n: int, m: int)
    requires n <= m
    ensures top(s, n) is None ==> top(s, m) is None
    decreases m - n
{ if n < m { lemma_top(s, n, m - 1); } }
pub proof fn lemma_walk(v: J, dp: Seq<usize>, n: int, m: int)
    requires n <= m
    ensures walk(v, dp, n) is None ==> walk(v, dp, m) is None
    decreases m - n
{ if n < m { lemma_walk(v, dp, n, m - 1); } }
// the check of a value depends on its content alone
pub open spec fn says<'a, F: Fn(&'a Value) -> bool>(f: F, p: spec_fn(J) -> bool) -> bool { forall|x: &'a Value, b: bool| #[trigger] f.ensures((x,), b) ==> b == p(x.j()) }
// ---- what follows for every answer
// null is only where the type of the field, or of the item, allows it
pub proof fn lemma_null(s: Synth, node: Field<Value>, ty: Type, v: J, dp: Seq<usize>)
    requires !node.skipped(s.variables), answer(s, node, ty, v, dp) == Some(J::Null)
    ensures opt(ty), v == J::Null
{}
pub proof fn lemma_null_items(s: Synth, node: Field<Value>, ty: Type, v: J, dp: Seq<usize>, n: int)
    requires !node.skipped(s.variables), v is Arr, 0 <= n <= v->Arr_0.len(), items(s, node, ty, v, dp, n) is Some
    ensures items(s, node, ty, v, dp, n)->0.len() == n, forall|i: int| 0 <= i < n && (#[trigger] items(s, node, ty, v, dp, n)->0[i]) == J::Null ==> opt(item_type(ty))
    decreases n
{ if n > 0 { lemma_null_items(s, node, ty, v, dp, n - 1); let x = items(s, node, ty, v, dp, n - 1)->0; assert forall|i: int| 0 <= i < n && (#[trigger] items(s, node, ty, v, dp, n)->0[i]) == J::Null implies opt(item_type(ty)) by { if i < n - 1 { assert(x[i] == J::Null); } else { lemma_null(s, node, item_type(ty), v->Arr_0[n - 1], dp.push((n - 1) as usize)); } } } }
pub proof fn lemma_null_leaf(t: Type, v: J, p: spec_fn(J) -> bool, i: int)
    requires leaf_ok(t, v, p), t is List, v is Arr, 0 <= i < v->Arr_0.len(), v->Arr_0[i] == J::Null
    ensures opt(item_type(t))
{}
// what a resolver of the field gave is null only where the type allows it too, unless it's not the list it was resolved for
pub proof fn lemma_null_child(s: Synth, node: Field<Value>, v: Option<J>, dp: Seq<usize>, root: Option<Seq<char>>)
    requires !node.skipped(s.variables), child(s, node, v, dp, root) == Some(J::Null), s.store.got(node.id.0) matches Some(Ok(w)) ==> walk(w.j(), dp, dp.len() as int) is Some
    ensures opt(node.type_of)
{}
// an object has each name once, and only names that are selected for it
pub proof fn lemma_names(s: Synth, node: Field<Value>, v: J, dp: Seq<usize>, n: int)
    requires v is Obj, 0 <= n <= node.selection@.len(), chosen(s, node, v, dp, n) is Some
    ensures ({ let f = chosen(s, node, v, dp, n)->0;
        &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).0 != (#[trigger] f[j]).0
        &&& forall|i: int| 0 <= i < f.len() ==> wanted(s, node, v, n, (#[trigger] f[i]).0)
        &&& forall|k: int| 0 <= k < n && is_wanted(s, node, v, k) ==> known(f, (#[trigger] node.selection@[k]).output_name@) })
    decreases n
{
    if n > 0 {
        lemma_names(s, node, v, dp, n - 1);
        let f = chosen(s, node, v, dp, n - 1)->0; let g = chosen(s, node, v, dp, n)->0; let c = node.selection@[n - 1];
        assert forall|i: int| 0 <= i < g.len() implies wanted(s, node, v, n, (#[trigger] g[i]).0) by { if i < f.len() { assert(wanted(s, node, v, n - 1, f[i].0)); let k = choose|k: int| 0 <= k < n - 1 && is_wanted(s, node, v, k) && (#[trigger] node.selection@[k]).output_name@ == f[i].0; assert(node.selection@[k].output_name@ == g[i].0); } else { assert(node.selection@[n - 1].output_name@ == g[i].0); } }
        assert forall|k: int| 0 <= k < n && is_wanted(s, node, v, k) implies known(g, (#[trigger] node.selection@[k]).output_name@) by {
            if k < n - 1 || known(f, c.output_name@) { let m = node.selection@[k].output_name@; assert(known(f, m)); let i = choose|i: int| 0 <= i < f.len() && (#[trigger] f[i]).0 == m; assert(g[i].0 == m); } else { assert(g[f.len() as int].0 == c.output_name@); }
        }
        assert forall|i: int, j: int| 0 <= i < j < g.len() implies (#[trigger] g[i]).0 != (#[trigger] g[j]).0 by { if j < f.len() { assert(f[i].0 != f[j].0); } else { assert(!known(f, c.output_name@)); assert(f[i].0 == g[i].0); } }
    }
}
pub open spec fn is_wanted(s: Synth, node: Field<Value>, v: J, k: int) -> bool { part(s, node.selection@[k], v) && !node.selection@[k].skipped(s.variables) }
pub open spec fn wanted(s: Synth, node: Field<Value>, v: J, n: int, m: Seq<char>) -> bool { exists|k: int| 0 <= k < n && is_wanted(s, node, v, k) && (#[trigger] node.selection@[k]).output_name@ == m }
pub open spec fn jof(v: Option<&Value>) -> Option<J> { match v { Some(x) => Some(x.j()), None => None } }
pub open spec fn nof(n: Option<&str>) -> Option<Seq<char>> { match n { Some(x) => Some(x@), None => None } }
impl<'a> Synth<'a> {
//@ fn src/core/jit/synth/synth.rs :: impl<'a, Value> Synth<'a, Value> where Value: JsonLike<'a> + Clone + std::fmt::Debug, :: fn node_nullable_guard
//@   sub /<Output>\s*\(/ => (
//@   sub /where\s+Output: JsonLike<'a>,/ => 
//@   opt /node\.name\.eq\("__typename"\)/ => same_(&node.name, "__typename")
//@   opt /Cow::Borrowed\(root_name\)/ => root_name
//@   opt /\.into\(\)/ => .into_()
//@   closure 1 |$0: Error| -> (o: Positioned<Error>) ensures below(o, path@)
//@   spec ensures match r { Ok(o) => absent(*node, match root_name { Some(n) => Some(n@), None => None }) == Some(o.j()), Err(e) => absent(*node, match root_name { Some(n) => Some(n@), None => None }) is None && below(e, path@) }
//@ fn src/core/jit/synth/synth.rs :: impl<'a, Value> Synth<'a, Value> where Value: JsonLike<'a> + Clone + std::fmt::Debug, :: fn is_valid
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   opt /arr\.iter\(\)\.all\(/ => every_(arr, 
//@   closure 1 |$0: &'a Value| -> (b: bool) ensures forall|p: spec_fn(J) -> bool| #[trigger] says(*check, p) ==> b == (if $0.j() == J::Null { opt(**of_type) } else { leaf_ok(**of_type, $0.j(), p) })
//@   spec requires forall|x: &'a Value| #[trigger] check.requires((x,)) ensures forall|p: spec_fn(J) -> bool| #![trigger says(*check, p)] #![trigger leaf_ok(*type_of, value.j(), p)] says(*check, p) ==> r == leaf_ok(*type_of, value.j(), p)
//@ fn src/core/jit/synth/synth.rs :: impl<'a, Value> Synth<'a, Value> where Value: JsonLike<'a> + Clone + std::fmt::Debug, :: fn iter
//@   sub /<Output>\s*\(/ => (
//@   sub /where\s+Output: JsonLike<'a>,/ => 
//@   attr #[verifier::exec_allows_no_decreases_clause]
//@   spec ensures match r { Ok(o) => final(path)@ == old(path)@ && child(*self, *node, jof(value), data_path.0@, nof(root_name)) == Some(o.j()), Err(e) => child(*self, *node, jof(value), data_path.0@, nof(root_name)) is None && (told(*self, e) || below(e, old(path)@)) }
//@   tail proof { if ret_ is Ok { assert(path@ =~= p0); } else { lemma_below(ret_->Err_0, p0, PathSegment::Field(Cow::Borrowed(&node.output_name))); } }
//@   start let ghost p0 = path@;
//@ fn src/core/jit/synth/synth.rs :: impl<'a, Value> Synth<'a, Value> where Value: JsonLike<'a> + Clone + std::fmt::Debug, :: fn iter_value
//@   sub /<Output>\s*\(/ => (
//@   sub /where\s+Output: JsonLike<'a>,/ => 
//@   attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@   opt /map_err\(Clone::clone\)/ => map_err(clone_)
//@   opt /&arr\[\*index\]/ => item_(arr, *index)
//@   spec ensures match r { Ok(o) => final(path)@ == old(path)@ && child(*self, *node, jof(value), data_path.0@, nof(root_name)) == Some(o.j()), Err(e) => child(*self, *node, jof(value), data_path.0@, nof(root_name)) is None && (told(*self, e) || below(e, old(path)@)) }
//@   start let ghost mut v0: J = J::Null; let ghost p0 = path@;
//@   before 1 proof { v0 = value.j(); }
//@   loopstart 1 proof { lemma_walk(v0, data_path.0@, it.index() as int + 1, data_path.0@.len() as int); }
//@   loop 1 it=it invariant path@ == p0, walk(v0, data_path.0@, it.index() as int) == Some(value.j()), it.seq() == data_path.0@.map_values(|i: usize| &i)
//@ fn src/core/jit/synth/synth.rs :: impl<'a, Value> Synth<'a, Value> where Value: JsonLike<'a> + Clone + std::fmt::Debug, :: fn iter_inner
//@   sub /<Output>\s*\(/ => (
//@   sub /where\s+Output: JsonLike<'a>,/ => 
//@   attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
//@   opt /Output::JsonObject/ => OutObject
//@   opt /node\.value_type\(value\)\.into\(\)/ => node.value_type(value)
//@   opt /\.into\(\)/ => .into_()
//@   opt /child\.name == "__typename"/ => same_(&child.name, "__typename")
//@   sub /for (\w+) in node\s*\.iter\(\)\s*\.filter\(\|(\w+)\|\s*([^{}]*?)\)\s*\{/ => for \1 in node.iter() { let part_ = { let \2 = \1; \3 }; if !part_ { continue; }
//@   opt /fields\.iter\(\)\.any\(/ => some_(&fields, 
//@   opt /\*name == child\.output_name/ => same_(*name, &child.output_name)
//@   opt /\|(\w+): &'a Value\| -> bool/ => |\1: &'a Value|
//@   closure /scalar \. validate/ |$0: &'a Value| -> (b: bool) ensures b == scalar_p(*scalar)($0.j())
//@   closure /as_str/ |$0: &'a Value| -> (b: bool) ensures b == enum_p(*self, *node)($0.j())
//@   closure /^self \. plan \. field_validate/ |$0: &str| -> (b: bool) ensures b == self.plan.index.enum_has(name_of(node.type_of), $0@)
//@   closure /to_location_error/ |$0: Error| -> (o: Positioned<Error>) ensures below(o, path@)
//@   closurelet /same_ \( \*/ |a0: &(&str, Output)| -> (b: bool) ensures b == (a0.0@ == child.output_name@)
//@   opt /arr\.iter\(\)\.enumerate/ => arr.it_().enumerate
//@   loop 1 it=it invariant chosen(*self, *node, value.j(), data_path.0@, it.index() as int) == Some(ents(fields@)), it.seq() == node.selection@.map_values(|c: Field<Value>| &c), path@ == p0
//@   sub /let is_known =/ => proof { assert(child == &node.selection@[it.index() as int]); } let is_known =
//@   sub /if self\.include\(child\) && !is_known \{/ => proof { lemma_known(fields@, child.output_name@); assert(is_known == known(ents(fields@), child.output_name@)); } if self.include(child) && !is_known {
//@   loopstart 1 proof { lemma_chosen(*self, *node, value.j(), data_path.0@, it.index() as int + 1, node.selection@.len() as int); } let ghost f0 = fields@;
//@   loopend 1 proof { assert(fields@ == f0 || ents(fields@) =~= ents(f0).push(ents(fields@).last())); }
//@   loopstart 2 proof { lemma_items(*self, *node, *type_of, value.j(), data_path.0@, it2.index() as int + 1, arr@.len() as int); assert forall|e: Positioned<Error>| #[trigger] below(e, path@.push(PathSegment::Index(it2.index() as usize))) implies below(e, path@) by { lemma_below(e, path@, PathSegment::Index(it2.index() as usize)); } } let ghost a0 = ans@;
//@   loopend 2 proof { assert(js(ans@) =~= js(a0).push(js(ans@).last())); assert(path@ =~= p0); }
//@   loop 2 it=it2 invariant items(*self, *node, *type_of, value.j(), data_path.0@, it2.index() as int) == Some(js(ans@)), path@ == p0
//@   start let ghost p0 = path@;
//@   spec ensures match r { Ok(o) => final(path)@ == old(path)@ && answer(*self, *node, *type_of, value.j(), data_path.0@) == Some(o.j()), Err(e) => answer(*self, *node, *type_of, value.j(), data_path.0@) is None && (told(*self, e) || below(e, old(path)@)) }
//@ fn src/core/jit/synth/synth.rs :: impl<'a, Value> Synth<'a, Value> where Value: JsonLike<'a> + Clone + std::fmt::Debug, :: fn synthesize
//@   sub /<Output>\s*\(/ => (
//@   sub /where\s+Output: JsonLike<'a>,/ => 
//@   sub /Output::JsonObject/ => OutObject
//@   loopstart 1 proof { lemma_top(*self, it.index() as int + 1, self.plan.selection@.len() as int); }
//@   loop 1 it=it invariant root_name@ == self.plan.root_name@, top(*self, it.index() as int) == Some(data@), it.seq() == self.plan.selection@.map_values(|c: Field<Value>| &c), path@ =~= Seq::<PathSegment>::empty()
//@   spec ensures match r { Ok(o) => exists|f: Seq<(Seq<char>, J)>| top(*self, self.plan.selection@.len() as int) == Some(f) && o.j() == J::Obj(f), Err(e) => top(*self, self.plan.selection@.len() as int) is None }
}
} // verus!
fn main() {}

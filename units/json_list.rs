#![allow(unused)]
use vstd::prelude::*;
//@ include prelude/string.rs
//@ include prelude/jv.rs
//@ include prelude/jsonlike.rs
verus! {
broadcast use {axiom_string_ext};
// The caller's mapper (`&mut impl FnMut(In) -> Result<Out, Err>`): any code at all; what it was
// given and what it gave back is its log.
pub type Log = Seq<(JV, Option<JV>)>;
pub open spec fn said<O: HasJv, E>(r: Result<O, E>) -> Option<JV> { match r { Ok(x) => Some(x.jv()), Err(_) => None } }
pub trait Mapper<O: HasJv, E> { spec fn log(&self) -> Log; fn call(&mut self, v: O) -> (r: Result<O, E>) ensures final(self).log() == old(self).log().push((v.jv(), said(r))); }
pub trait RefMapper<O: HasJv, E> { spec fn log(&self) -> Log; fn call(&mut self, v: &O) -> (r: Result<O, E>) ensures final(self).log() == old(self).log().push((v.jv(), said(r))); }
pub trait Visitor<'a, O: HasJv> { spec fn log(&self) -> Log; fn call(&mut self, v: &'a O) ensures final(self).log() == old(self).log().push((v.jv(), Some(v.jv()))); }
// the value with every innermost item replaced by what the log says, items taken in document order
pub open spec fn run(v: JV, l: Log, p: int) -> Option<(JV, int)> decreases v, (match v { JV::Arr(s) => s.len() + 1, _ => 0nat }) {
    match v {
        JV::Arr(s) => match run_arr(v, s.len(), l, p) { Some((o, q)) => Some((JV::Arr(o), q)), None => None },
        _ => if 0 <= p < l.len() && l[p].0 == v && l[p].1 is Some { Some((l[p].1->0, p + 1)) } else { None },
    }
}
pub open spec fn run_arr(v: JV, n: nat, l: Log, p: int) -> Option<(Seq<JV>, int)> decreases v, n {
    match v {
        JV::Arr(s) => if n == 0 || n > s.len() { Some((Seq::empty(), p)) } else {
            match run_arr(v, (n - 1) as nat, l, p) { None => None, Some((o, q)) => match run(s[n - 1], l, q) { None => None, Some((x, q2)) => Some((o.push(x), q2)) } }
        },
        _ => None,
    }
}
pub open spec fn grows(a: Log, b: Log) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub proof fn lemma_run(v: JV, l: Log, m: Log, p: int) requires grows(l, m), run(v, l, p) is Some ensures run(v, m, p) == run(v, l, p)
    decreases v, (match v { JV::Arr(s) => s.len() + 1, _ => 0nat })
{ match v { JV::Arr(s) => lemma_run_arr(v, s.len(), l, m, p), _ => { assert(m[p] == l[p]); } } }
pub proof fn lemma_run_arr(v: JV, n: nat, l: Log, m: Log, p: int) requires grows(l, m), run_arr(v, n, l, p) is Some ensures run_arr(v, n, m, p) == run_arr(v, n, l, p)
    decreases v, n
{ match v { JV::Arr(s) => if n == 0 || n > s.len() {} else { lemma_run_arr(v, (n - 1) as nat, l, m, p); lemma_run(s[n - 1], l, m, (run_arr(v, (n - 1) as nat, l, p)->0).1); }, _ => {} } }
pub open spec fn good(a: Log, b: Log) -> bool { forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]).1 is Some }
// all went well: the result is the input with its items replaced, and the mapper saw exactly those, in order;
// or the mapper refused an item: that was the last one it saw
pub open spec fn mapped<O: HasJv, E>(v: JV, a: Log, b: Log, r: Result<O, E>) -> bool {
    grows(a, b) && match r {
        Ok(x) => good(a, b) && run(v, b, a.len() as int) == Some((x.jv(), b.len() as int)),
        Err(_) => b.len() > a.len() && b.last().1 is None && good(a, b.drop_last()),
    }
}
//@ rewrite /\bself\b/ => self_
//@ rewrite /Self::/ => S::
//@ rewrite /-> Result<Self, Err>/ => -> Result<S, Err>
//@ rewrite /\.unwrap\(\)\s*\.into_iter\(\)\s*\.map\(\|(\w+)\| \w+\.map\(mapper\)\)\s*\.collect::<Result<_, _>>\(\)\?;/ => .unwrap(); let new = { let mut v_: Vec<S> = Vec::new(); for \1 in new.into_iter() { match list_map(\1, mapper) { Ok(x_) => v_.push(x_), Err(e_) => return Err(e_), } } v_ };
//@ rewrite /\.unwrap\(\)\s*\.iter\(\)\s*\.map\(\|(\w+)\| \w+\.map_ref\(mapper\)\)\s*\.collect::<Result<_, _>>\(\)\?;/ => .unwrap(); let new = { let mut v_: Vec<S> = Vec::new(); for \1 in new.iter() { match list_map_ref(\1, mapper) { Ok(x_) => v_.push(x_), Err(e_) => return Err(e_), } } v_ };
//@ rewrite /\bmapper\(self_\)/ => mapper.call(self_)
//@ fn src/core/json/json_like_list.rs :: trait JsonLikeList :: fn map name=list_map
//@   attr #[verifier::loop_isolation(false)]
//@   opt /fn map<Err>\(self_, mapper: &mut impl FnMut\(Self\) -> Result<S, Err>\)/ => fn map<'json, S: JsonLike<'json>, Err, M: Mapper<S, Err>>(self_: S, mapper: &mut M)
//@   spec ensures mapped(self_.jv(), old(mapper).log(), final(mapper).log(), r)
//@   | decreases self_.jv()
//@   start let ghost v0 = self_.jv(); let ghost l0 = mapper.log();
//@   loop 1 it=it invariant v0 is Arr, v0->Arr_0 == jv_arr(it.seq()), grows(l0, mapper.log()), good(l0, mapper.log()), v_@.len() == it.index(), run_arr(v0, it.index() as nat, mapper.log(), l0.len() as int) == Some((jv_arr(v_@), mapper.log().len() as int)),
//@   before 1 proof { assert(jv_arr(Seq::<S>::empty()) =~= Seq::empty()); }
//@   loopstart 1 let ghost l1 = mapper.log(); let ghost o1 = v_@; proof { let s = v0->Arr_0; assert(s[it.index() as int] == it.seq()[it.index() as int].jv()); assert(decreases_to!(v0 => s)); assert(decreases_to!(s => s[it.index() as int])); }
//@   loopend 1 proof { lemma_run_arr(v0, it.index() as nat, l1, mapper.log(), l0.len() as int); assert(jv_arr(v_@) =~= jv_arr(o1).push(v_@.last().jv())); }
//@ fn src/core/json/json_like_list.rs :: trait JsonLikeList :: fn map_ref name=list_map_ref
//@   attr #[verifier::loop_isolation(false)]
//@   opt /fn map_ref<Err>\(\s*&self_,\s*mapper: &mut impl FnMut\(&Self\) -> Result<S, Err>,?\s*\)/ => fn map_ref<'json, S: JsonLike<'json>, Err, M: RefMapper<S, Err>>(self_: &S, mapper: &mut M)
//@   spec ensures mapped(self_.jv(), old(mapper).log(), final(mapper).log(), r)
//@   | decreases self_.jv()
//@   start let ghost v0 = self_.jv(); let ghost l0 = mapper.log();
//@   loop 1 it=it invariant v0 is Arr, v0->Arr_0 == jv_arr(it.seq().map_values(|x: &S| *x)), grows(l0, mapper.log()), good(l0, mapper.log()), v_@.len() == it.index(), run_arr(v0, it.index() as nat, mapper.log(), l0.len() as int) == Some((jv_arr(v_@), mapper.log().len() as int)),
//@   before 1 proof { assert(jv_arr(Seq::<S>::empty()) =~= Seq::empty()); }
//@   loopstart 1 let ghost l1 = mapper.log(); let ghost o1 = v_@; proof { let s = v0->Arr_0; assert(s[it.index() as int] == it.seq()[it.index() as int].jv()); assert(decreases_to!(v0 => s)); assert(decreases_to!(s => s[it.index() as int])); }
//@   loopend 1 proof { lemma_run_arr(v0, it.index() as nat, l1, mapper.log(), l0.len() as int); assert(jv_arr(v_@) =~= jv_arr(o1).push(v_@.last().jv())); }
//@ fn src/core/json/json_like_list.rs :: trait JsonLikeList :: fn for_each name=list_for_each
//@   attr #[verifier::loop_isolation(false)]
//@   opt /fn for_each\(&'json self_, f: &mut impl FnMut\(&'json Self\)\)/ => fn for_each<'json, S: JsonLike<'json>, M: Visitor<'json, S>>(self_: &'json S, f: &mut M)
//@   opt /arr\.iter\(\)\.for_each\(\|(\w+)\| \w+\.for_each\(f\)\)/ => for \1 in arr.iter() { list_for_each(\1, f); }
//@   opt /\bf\(self_\)/ => f.call(self_)
//@   spec ensures mapped(self_.jv(), old(f).log(), final(f).log(), Ok::<S, ()>(*self_))
//@   | decreases self_.jv()
//@   start let ghost v0 = self_.jv(); let ghost l0 = f.log();
//@   loop 1 it=it invariant v0 is Arr, v0->Arr_0 == jv_arr(it.seq().map_values(|x: &S| *x)), grows(l0, f.log()), good(l0, f.log()), run_arr(v0, it.index() as nat, f.log(), l0.len() as int) == Some((v0->Arr_0.take(it.index() as int), f.log().len() as int)),
//@   before 1 proof { assert(v0->Arr_0.take(0) =~= Seq::empty()); }
//@   loopstart 1 let ghost l1 = f.log(); proof { let s = v0->Arr_0; assert(s[it.index() as int] == it.seq()[it.index() as int].jv()); assert(decreases_to!(v0 => s)); assert(decreases_to!(s => s[it.index() as int])); }
//@   loopend 1 proof { let n = it.index() as int; lemma_run_arr(v0, n as nat, l1, f.log(), l0.len() as int); assert(v0->Arr_0.take(n + 1) =~= v0->Arr_0.take(n).push(v0->Arr_0[n])); }
//@   after 1 proof { assert(v0->Arr_0.take(v0->Arr_0.len() as int) =~= v0->Arr_0); }
}
fn main() {}

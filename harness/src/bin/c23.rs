use std::cell::RefCell;
use std::rc::Rc;

use tailcall::core::transform::{self, TransformerOps};
use tailcall::core::try_fold::TryFold;
use tailcall::core::Transform;
use tailcall_valid::{Valid, ValidationError, Validator};
use tcv::{same, Audit, Rng};

type State = Vec<i32>;
/// the causes (with their traces), in order
type Out = Result<State, Vec<(String, Vec<String>)>>;
fn out(v: Result<State, ValidationError<String>>) -> Out {
    v.map_err(|e| e.as_vec().iter().map(|c| (c.message.clone(), c.trace.iter().cloned().collect())).collect())
}
fn fail(e: &[i32]) -> Valid<State, String> {
    Valid::from_vec_cause(e.iter().map(|e| tailcall_valid::Cause::new(format!("e{e}"))).collect())
}

/// one step: appends its number, or fails (perhaps with several causes), perhaps depending on the state
#[derive(Clone, Debug)]
enum Step {
    Push(i32),
    Fail(Vec<i32>),
    FailIfLonger(usize, i32),
}
fn step(r: &mut Rng) -> Step {
    match r.below(7) {
        0 => Step::Fail((0..1 + r.below(2)).map(|_| r.below(9) as i32).collect()),
        1 => Step::FailIfLonger(r.below(4), r.below(9) as i32),
        _ => Step::Push(r.below(9) as i32),
    }
}
impl Step {
    fn run(&self, i: i32, mut s: State) -> Result<State, Vec<i32>> {
        match self {
            Step::Push(n) => {
                s.push(*n + i);
                Ok(s)
            }
            Step::Fail(e) => Err(e.clone()),
            Step::FailIfLonger(n, e) if s.len() > *n => Err(vec![*e + s.len() as i32]),
            Step::FailIfLonger(n, _) => {
                s.push(-(*n as i32));
                Ok(s)
            }
        }
    }
    fn valid(&self, i: i32, s: State) -> Valid<State, String> {
        match self.run(i, s) {
            Ok(s) => Valid::succeed(s),
            Err(e) => fail(&e),
        }
    }
    fn wanted(&self, i: i32, s: State) -> Out {
        self.run(i, s).map_err(|e| e.iter().map(|e| (format!("e{e}"), vec![])).collect())
    }
}
/// which steps ran, on what
type Log = Rc<RefCell<Vec<String>>>;

#[derive(Clone, Debug)]
enum T {
    Step(Step),
    When(Box<T>, bool),
    Pipe(Box<T>, Box<T>),
    Default,
}
fn tree(r: &mut Rng, d: usize) -> T {
    match r.below(if d == 0 { 2 } else { 8 }) {
        0 => T::Step(step(r)),
        1 => T::Default,
        2..=3 => T::When(Box::new(tree(r, d - 1)), r.flip()),
        _ => T::Pipe(Box::new(tree(r, d - 1)), Box::new(tree(r, d - 1))),
    }
}
struct Dyn(Box<dyn Fn(State) -> Valid<State, String>>);
impl Transform for Dyn {
    type Value = State;
    type Error = String;
    fn transform(&self, s: State) -> Valid<State, String> {
        (self.0)(s)
    }
}
impl T {
    fn real(&self, log: Log) -> Dyn {
        fn wrap(t: impl Transform<Value = State, Error = String> + 'static) -> Dyn {
            Dyn(Box::new(move |s| t.transform(s)))
        }
        match self {
            T::Step(p) => {
                let p = p.clone();
                Dyn(Box::new(move |s| {
                    log.borrow_mut().push(format!("{p:?} {s:?}"));
                    p.valid(0, s)
                }))
            }
            T::When(t, c) => wrap(t.real(log).when(*c)),
            T::Pipe(a, b) => wrap(a.real(log.clone()).pipe(b.real(log))),
            T::Default => wrap(transform::default()),
        }
    }
    fn wanted(&self, s: State, log: &Log) -> Out {
        match self {
            T::Step(p) => {
                log.borrow_mut().push(format!("{p:?} {s:?}"));
                p.wanted(0, s)
            }
            T::When(t, true) => t.wanted(s, log),
            T::When(..) | T::Default => Ok(s),
            T::Pipe(a, b) => a.wanted(s, log).and_then(|s| b.wanted(s, log)),
        }
    }
}

#[derive(Clone, Debug)]
enum F {
    Step(Step),
    Empty,
    And(Box<F>, Box<F>),
    All(Vec<F>),
    Trace(Box<F>, &'static str),
    /// the state doubled after
    Update(Box<F>),
    /// folded on the part of the state after the first, put back behind it
    Transform(Box<F>),
    /// the same; fails going down if the state is empty, going up if it has grown beyond
    Valid(Box<F>, usize),
}
fn folds(r: &mut Rng, d: usize) -> F {
    match r.below(if d == 0 { 3 } else { 12 }) {
        0..=1 => F::Step(step(r)),
        2 => F::Empty,
        3..=6 => F::And(Box::new(folds(r, d - 1)), Box::new(folds(r, d - 1))),
        7 => F::All(r.vec(4, |r| folds(r, d - 1))),
        8 => F::Trace(Box::new(folds(r, d - 1)), *r.pick(&["t", "u", ""])),
        9 => F::Update(Box::new(folds(r, d - 1))),
        10 => F::Transform(Box::new(folds(r, d - 1))),
        _ => F::Valid(Box::new(folds(r, d - 1)), r.below(5)),
    }
}
fn behind(s: &State) -> State {
    s.iter().skip(1).copied().collect()
}
fn back(t: State, s: State) -> State {
    s.into_iter().take(1).chain(t).collect()
}
impl F {
    fn real(&self, log: Log) -> TryFold<'static, i32, State, String> {
        match self {
            F::Step(p) => {
                let p = p.clone();
                TryFold::new(move |i, s| {
                    log.borrow_mut().push(format!("{p:?} {i} {s:?}"));
                    p.valid(*i, s)
                })
            }
            F::Empty => TryFold::empty(),
            F::And(a, b) => a.real(log.clone()).and(b.real(log)),
            F::All(v) => v.iter().map(|f| f.real(log.clone())).collect(),
            F::Trace(f, m) => f.real(log).trace(m),
            F::Update(f) => f.real(log).update(|s| [s.clone(), s].concat()),
            F::Transform(f) => f.real(log).transform(back, |s: State| behind(&s)),
            F::Valid(f, n) => {
                let n = *n;
                f.real(log).transform_valid(
                    move |t, s: State| {
                        let u = back(t, s);
                        if u.len() > n + 3 { fail(&[90, 91]) } else { Valid::succeed(u) }
                    },
                    |s: State| if s.is_empty() { fail(&[80]) } else { Valid::succeed(behind(&s)) },
                )
            }
        }
    }
    fn wanted(&self, i: i32, s: State, log: &Log) -> Out {
        let both = |a: Out, s: State, b: &dyn Fn(State) -> Out| match a {
            Ok(s) => b(s),
            Err(mut e) => {
                if let Err(f) = b(s) {
                    e.extend(f);
                }
                Err(e)
            }
        };
        match self {
            F::Step(p) => {
                log.borrow_mut().push(format!("{p:?} {i} {s:?}"));
                p.wanted(i, s)
            }
            F::Empty => Ok(s),
            F::And(a, b) => both(a.wanted(i, s.clone(), log), s, &|s| b.wanted(i, s, log)),
            F::All(v) => match v.split_first() {
                None => Ok(s),
                Some((f, v)) => both(f.wanted(i, s.clone(), log), s, &|s| F::All(v.to_vec()).wanted(i, s, log)),
            },
            F::Trace(f, m) => f.wanted(i, s, log).map_err(|e| e.into_iter().map(|(c, mut t)| { t.insert(0, m.to_string()); (c, t) }).collect()),
            F::Update(f) => f.wanted(i, s, log).map(|s| [s.clone(), s].concat()),
            F::Transform(f) => f.wanted(i, behind(&s), log).map(|t| back(t, s)),
            F::Valid(f, n) => {
                let e = |e: &[i32]| Err(e.iter().map(|e| (format!("e{e}"), vec![])).collect());
                if s.is_empty() {
                    return e(&[80]);
                }
                let u = back(f.wanted(i, behind(&s), log)?, s);
                if u.len() > n + 3 { e(&[90, 91]) } else { Ok(u) }
            }
        }
    }
}

fn main() {
    let mut a = Audit::start("compositions of steps, each run on a state");
    let (mut r, n) = (Rng::new(a.rng.u64()), a.iters);
    for _ in 0..n {
        let t = tree(&mut r, 4);
        let s: State = r.vec(3, |r| r.below(9) as i32);
        a.case("transform", !matches!(t, T::Step(_) | T::Default), || format!("{t:?} on {s:?}"), || {
            let (l, m) = (Log::default(), Log::default());
            let got = out(t.real(l.clone()).transform(s.clone()).to_result());
            same("result", got, t.wanted(s.clone(), &m))?;
            same("steps run", l.take(), m.take())?;
            let got = out(t.real(l.clone()).generate().to_result());
            same("from the default", got, t.wanted(vec![], &m))
        });
        let f = folds(&mut r, 4);
        let i = r.below(3) as i32 * 10;
        a.case("fold", !matches!(f, F::Step(_) | F::Empty), || format!("{f:?} on {i}, {s:?}"), || {
            let (l, m) = (Log::default(), Log::default());
            let got = out(f.real(l.clone()).try_fold(&i, s.clone()).to_result());
            same("result", got, f.wanted(i, s.clone(), &m))?;
            same("steps run", l.take(), m.take())
        });
    }
    a.finish();
}

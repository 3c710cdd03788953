use tailcall::core::auth::error::Error;
use tailcall::core::auth::verification::Verification as V;
use tcv::{same, Audit, Rng};

/// a rule tree over verdicts, as the rule's And/Or apply them
#[derive(Debug, Clone)]
enum T {
    Leaf(V),
    And(Box<T>, Box<T>),
    Or(Box<T>, Box<T>),
}
fn verdict(r: &mut Rng) -> V {
    match r.below(6) {
        0 | 1 => V::Succeed,
        2 => V::Fail(Error::Missing),
        3 => V::Fail(Error::Invalid),
        _ => V::Fail(Error::Parse(r.pick(&["", "a", "b", "zz", "Missing Authorization Header", "é"]).to_string())),
    }
}
fn tree(r: &mut Rng, d: usize) -> T {
    match if d == 0 { 0 } else { r.below(3) } {
        0 => T::Leaf(verdict(r)),
        1 => T::And(Box::new(tree(r, d - 1)), Box::new(tree(r, d - 1))),
        _ => T::Or(Box::new(tree(r, d - 1)), Box::new(tree(r, d - 1))),
    }
}
fn run(t: &T) -> V {
    match t {
        T::Leaf(v) => v.clone(),
        T::And(a, b) => run(a).and(run(b)),
        T::Or(a, b) => run(a).or(run(b)),
    }
}
fn passes(t: &T) -> bool {
    match t {
        T::Leaf(v) => matches!(v, V::Succeed),
        T::And(a, b) => passes(a) && passes(b),
        T::Or(a, b) => passes(a) || passes(b),
    }
}
/// 0 passes, then missing, unreadable, invalid
fn rank(v: &V) -> usize {
    match v {
        V::Succeed => 0,
        V::Fail(Error::Missing) => 1,
        V::Fail(Error::Parse(_)) => 2,
        V::Fail(Error::Invalid) => 3,
    }
}
fn main() {
    let mut a = Audit::start("all pairs of verdicts and random And/Or trees of them up to 4 deep; nontrivial: something fails");
    let all: Vec<V> = vec![
        V::Succeed,
        V::Fail(Error::Missing),
        V::Fail(Error::Invalid),
        V::Fail(Error::Parse("".into())),
        V::Fail(Error::Parse("a".into())),
        V::Fail(Error::Parse("b".into())),
    ];
    for x in &all {
        a.eq("made", true, || format!("{x:?}"), || if let V::Fail(e) = x { V::fail(e.clone()) } else { V::succeed() }, || x.clone());
        a.eq("result", true, || format!("{x:?}"), || x.to_result(), || if let V::Fail(e) = x { Err(e.clone()) } else { Ok(()) });
        for y in &all {
            let i = || format!("{x:?} with {y:?}");
            a.eq("and", true, i, || x.clone().and(y.clone()), || if rank(x) == 0 { y.clone() } else { x.clone() });
            a.case("or", true, i, || {
                let o = x.or(y.clone());
                same("passes", rank(&o) == 0, rank(x) == 0 || rank(y) == 0)?;
                if rank(&o) > 0 {
                    same("gravest", rank(&o), rank(x).max(rank(y)))?;
                    same("one of both", o == *x || o == *y, true)?;
                }
                Ok(())
            });
            a.eq("fold", true, i, || x.clone().fold(y.clone(), |e| V::Fail(Error::Parse(format!("seen {e}")))), || match x {
                V::Succeed => y.clone(),
                V::Fail(e) => V::Fail(Error::Parse(format!("seen {e}"))),
            });
        }
    }
    for _ in 0..a.iters {
        let t = tree(&mut a.rng, 4);
        let inp = || format!("{t:?}");
        a.eq("rule", !passes(&t), inp, || rank(&run(&t)) == 0, || passes(&t));
        let r: Result<u8, String> = if a.rng.flip() { Ok(a.rng.below(9) as u8) } else { Err(a.rng.below(9).to_string()) };
        let (k, b) = (verdict(&mut a.rng), verdict(&mut a.rng));
        a.eq("from result", true, || format!("{r:?} {k:?} {b:?}"),
            || V::from_result(r.clone(), |n| if n > 4 { k.clone() } else { b.clone() }, |s| if s.len() > 4 { k.clone() } else { V::Fail(Error::Parse(s)) }),
            || match &r { Ok(n) if *n > 4 => k.clone(), Ok(_) => b.clone(), Err(s) => V::Fail(Error::Parse(s.clone())) });
    }
    a.finish();
}

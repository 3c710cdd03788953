use std::collections::HashMap;
use std::num::NonZeroU64;

use tailcall::core::config::transformer::merge_types::pair_map::PairMap;
use tailcall::core::config::transformer::merge_types::pair_set::PairSet;
use tailcall::core::lift::{CanLift, Lift};
use tailcall::core::merge_right::MergeRight;
use tailcall::core::variance::Invariant;
use tailcall_valid::Validator;
use tcv::{same, Audit, Rng};

fn last<A: Invariant + MergeRight + Clone + PartialEq + std::fmt::Debug>(a: A, b: A) -> Result<(), String> {
    same("unified", a.clone().unify(b.clone()).to_result().ok(), Some(b.clone()))?;
    same("merged", a.merge_right(b.clone()), b)
}

fn main() {
    let mut a = Audit::start("pairs put into a map and a set, and every pair looked up; two values of a plain type");
    let (mut r, n) = (Rng::new(a.rng.u64()), a.iters);
    for _ in 0..n {
        let names = ["", "a", "b", "A", "ab"];
        let ops: Vec<(String, String, usize)> = r.vec(8, |r| (r.pick(&names).to_string(), r.pick(&names).to_string(), r.below(4)));
        a.case("pairs", ops.len() > 1, || format!("{ops:?}"), || {
            let (mut m, mut s) = (PairMap::<String, usize>::default(), PairSet::<String>::default());
            let mut w: HashMap<(String, String), usize> = HashMap::new();
            for (x, y, v) in &ops {
                m.add(x.clone(), y.clone(), *v);
                s.insert(x.clone(), y.clone());
                w.insert((x.clone(), y.clone()), *v);
                for x in names {
                    for y in names {
                        let (x, y) = (x.to_string(), y.to_string());
                        let want = w.get(&(x.clone(), y.clone())).or(w.get(&(y.clone(), x.clone())));
                        same(&format!("known of {x:?} {y:?}"), m.get(&x, &y), want)?;
                        same(&format!("holds {x:?} {y:?}"), s.contains(&x, &y), want.is_some())?;
                    }
                }
            }
            Ok(())
        });
        let (x, y) = (r.u64(), r.u64());
        a.case("last of two", x != y, || format!("{x} then {y}"), || {
            let (p, q) = (x as u8 % 3, y as u8 % 3);
            last(x, y)?;
            last(p, q)?;
            last(p as i8 - 1, q as i8 - 1)?;
            last(x as u16, y as u16)?;
            last(x as u32, y as u32)?;
            last(x as usize, y as usize)?;
            last(x as i16, y as i16)?;
            last(x as i32, y as i32)?;
            last(x as i64, y as i64)?;
            last(p as f32 - 1.0, q as f32 - 1.0)?;
            last(x as f64, -(y as f64))?;
            last(p > 0, q > 0)?;
            last((b'a' + p) as char, (b'a' + q) as char)?;
            last(["", "a", "b"][p as usize].to_string(), ["", "a", "b"][q as usize].to_string())?;
            last(NonZeroU64::new(x | 1).unwrap(), NonZeroU64::new(y | 1).unwrap())?;
            same("lifted", (x.lift().take(), *y.lift(), Lift::from(x).take()), (x, y, x))
        });
    }
    a.finish();
}

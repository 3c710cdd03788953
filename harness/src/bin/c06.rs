use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

use tailcall::core::data_loader::dedupe::Dedupe;
use tailcall::core::data_loader::DedupeResult;
use tcv::{same, Audit, Rng};

type Val = Result<String, String>;

/// one caller's operation: pending until it is released; it records that it was started
#[derive(Default)]
struct Op {
    started: bool,
    released: Option<Val>,
}
struct Run(Rc<RefCell<Op>>);
impl Future for Run {
    type Output = Val;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Val> {
        let mut op = self.0.borrow_mut();
        op.started = true;
        match &op.released {
            Some(v) => Poll::Ready(v.clone()),
            None => Poll::Pending,
        }
    }
}
#[derive(Clone, Debug)]
enum Do {
    /// a new caller for this key; its operation's result, and whether it is ready at once
    Start(String, Val, bool),
    Poll(usize),
    Release(usize),
    Drop(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum At {
    New,
    Owner,
    /// waits for the run that this caller owns
    Joined(usize),
    Done(Val),
    Gone,
}
/// what the property says happens
struct Model {
    persist: bool,
    key: Vec<String>,
    at: Vec<At>,
    result: Vec<Val>,
    released: Vec<bool>,
    running: HashMap<String, usize>,
    kept: HashMap<String, Val>,
    runs: Vec<usize>,
}
impl Model {
    fn poll(&mut self, c: usize) {
        match self.at[c].clone() {
            At::Joined(o) => match &self.at[o] {
                At::Done(_) => self.at[c] = At::Done(self.result[o].clone()),
                At::Gone if !matches!(self.running.get(&self.key[o]), Some(x) if *x == o) => self.step(c),
                _ => {}
            },
            At::New => self.step(c),
            At::Owner => self.finish(c),
            _ => {}
        }
    }
    fn step(&mut self, c: usize) {
        let k = self.key[c].clone();
        if let Some(v) = self.kept.get(&k) {
            self.at[c] = At::Done(v.clone());
        } else if let Some(o) = self.running.get(&k) {
            self.at[c] = At::Joined(*o);
        } else {
            self.running.insert(k, c);
            self.at[c] = At::Owner;
            self.runs.push(c);
            self.finish(c);
        }
    }
    fn finish(&mut self, c: usize) {
        if self.released[c] {
            let v = self.result[c].clone();
            self.running.remove(&self.key[c]);
            if self.persist {
                self.kept.insert(self.key[c].clone(), v.clone());
            }
            self.at[c] = At::Done(v);
        }
    }
    fn drop(&mut self, c: usize) {
        if self.at[c] == At::Owner {
            self.running.remove(&self.key[c]);
        }
        if !matches!(self.at[c], At::Done(_)) {
            self.at[c] = At::Gone;
        }
    }
}
fn plan(r: &mut Rng) -> Vec<Do> {
    let keys = ["a", "b", "", "A"];
    let n = 2 + r.below(14);
    let mut v = vec![];
    let mut callers = 0usize;
    let few = 1 + r.below(keys.len());
    for _ in 0..n {
        match if callers == 0 { 0 } else { r.below(7) } {
            0 | 1 => {
                let id = callers;
                let val = if r.one_in(4) { Err(format!("e{id}")) } else { Ok(format!("v{id}")) };
                v.push(Do::Start(r.pick(&keys[..few]).to_string(), val, r.one_in(4)));
                callers += 1;
                if r.below(4) > 0 {
                    v.push(Do::Poll(id));
                }
            }
            2 | 3 => v.push(Do::Poll(r.below(callers))),
            4 | 5 => {
                let c = r.below(callers);
                v.push(Do::Release(c));
                if r.flip() {
                    v.push(Do::Poll(c));
                }
            }
            _ => v.push(Do::Drop(r.below(callers))),
        }
    }
    // in the end every operation finishes
    for _ in 0..callers + 1 {
        for c in 0..callers {
            v.push(Do::Release(c));
            v.push(Do::Poll(c));
        }
    }
    v
}
fn run(persist: bool, size: usize, wrapped: bool, plan: &[Do]) -> Result<(), String> {
    let plain: &'static Dedupe<String, Val> = Box::leak(Box::new(Dedupe::new(size, persist)));
    let wrap: &'static DedupeResult<String, String, String> = Box::leak(Box::new(DedupeResult::new(persist)));
    let mut m = Model { persist, key: vec![], at: vec![], result: vec![], released: vec![], running: HashMap::new(), kept: HashMap::new(), runs: vec![] };
    let mut ops: Vec<Rc<RefCell<Op>>> = vec![];
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = Val>>>>> = vec![];
    let mut got: Vec<Option<Val>> = vec![];
    let w = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    for (t, d) in plan.iter().enumerate() {
        match d {
            Do::Start(k, v, now) => {
                let op = Rc::new(RefCell::new(Op { started: false, released: now.then(|| v.clone()) }));
                let key: &'static String = Box::leak(Box::new(k.clone()));
                let o = op.clone();
                futs.push(Some(if wrapped { Box::pin(wrap.dedupe(key, move || Run(o))) } else { Box::pin(plain.dedupe(key, move || Run(o))) }));
                ops.push(op);
                got.push(None);
                m.key.push(k.clone());
                m.at.push(At::New);
                m.result.push(v.clone());
                m.released.push(*now);
            }
            Do::Release(c) => {
                ops[*c].borrow_mut().released = Some(m.result[*c].clone());
                m.released[*c] = true;
            }
            Do::Drop(c) => {
                futs[*c] = None;
                m.drop(*c);
            }
            Do::Poll(c) => {
                if let Some(f) = &mut futs[*c] {
                    if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                        got[*c] = Some(v);
                        futs[*c] = None;
                    }
                }
                m.poll(*c);
            }
        }
        let started: Vec<usize> = (0..ops.len()).filter(|c| ops[*c].borrow().started).collect();
        let mut want = m.runs.clone();
        want.sort();
        same(&format!("after step {t} ({d:?}), the callers whose operations ran"), started, want)?;
        let want: Vec<Option<Val>> = m.at.iter().map(|a| if let At::Done(v) = a { Some(v.clone()) } else { None }).collect();
        same(&format!("after step {t} ({d:?}), the results"), got.clone(), want)?;
    }
    Ok(())
}

/// callers on threads of their own, all at once: never two of a key's operations at a time,
/// and everyone gets the result of one of them
fn threads(persist: bool, n: usize, keys: usize) -> Result<(), String> {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    use std::sync::{Arc, Barrier};
    let d: Arc<Dedupe<String, Val>> = Arc::new(Dedupe::new(1, persist));
    let now: Arc<Vec<AtomicUsize>> = Arc::new((0..keys).map(|_| AtomicUsize::new(0)).collect());
    let most = Arc::new(AtomicUsize::new(0));
    let runs = Arc::new(AtomicUsize::new(0));
    let b = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let (d, now, most, runs, b) = (d.clone(), now.clone(), most.clone(), runs.clone(), b.clone());
            std::thread::spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                let k = i % keys;
                let key = k.to_string();
                b.wait();
                let v = rt.block_on(d.dedupe(&key, || async {
                    most.fetch_max(now[k].fetch_add(1, SeqCst) + 1, SeqCst);
                    let r = runs.fetch_add(1, SeqCst);
                    tokio::task::yield_now().await;
                    now[k].fetch_sub(1, SeqCst);
                    Ok(format!("{k} {r}"))
                }));
                (k, v)
            })
        })
        .collect();
    let got: Vec<(usize, Val)> = hs.into_iter().map(|h| h.join().map_err(|_| "a caller panicked".to_string())).collect::<Result<_, _>>()?;
    same("operations of one key at a time", most.load(SeqCst), 1)?;
    let all = runs.load(SeqCst);
    for (k, v) in &got {
        let v = v.clone()?;
        let (a, r) = v.split_once(' ').unwrap();
        same("key", a.to_string(), k.to_string())?;
        same("a run", r.parse::<usize>().unwrap() < all, true)?;
    }
    if persist {
        same("runs of kept keys", all, got.iter().map(|(k, _)| k).collect::<std::collections::BTreeSet<_>>().len())?;
    }
    Ok(())
}

fn main() {
    let mut a = Audit::start("random histories of callers of few keys: started, polled, finished, dropped in any order, then all run to the end; nontrivial: at least two callers of one key");
    for _ in 0..a.iters {
        let p = plan(&mut a.rng);
        let (persist, size, wrapped) = (a.rng.flip(), 1 + a.rng.below(4), a.rng.flip());
        let keys: Vec<_> = p.iter().filter_map(|d| if let Do::Start(k, _, _) = d { Some(k.clone()) } else { None }).collect();
        let shared = keys.iter().enumerate().any(|(i, k)| keys[..i].contains(k));
        a.case(if persist { "kept" } else { "not kept" }, shared, || format!("persist {persist} size {size} wrapped {wrapped} {p:?}"), || run(persist, size, wrapped, &p));
    }
    for i in 0..(a.iters / 40).clamp(20, 400) {
        let (persist, n, keys) = (i % 2 == 0, 2 + a.rng.below(7), 1 + a.rng.below(2));
        a.case("threads", true, || format!("round {i}: persist {persist}, {n} threads, {keys} keys"), || threads(persist, n, keys));
    }
    a.finish();
}

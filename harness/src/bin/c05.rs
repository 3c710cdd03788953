use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

use tailcall::core::data_loader::cache::HashMapCache;
use tailcall::core::data_loader::data_loader::{CacheFactory, DataLoader, NoCache};
use tailcall::core::data_loader::Loader;
use tcv::{Audit, Rng};

type Key = String;
type Ans = Result<BTreeMap<Key, String>, String>;

struct Asked {
    keys: Vec<Key>,
    when: Instant,
    gate: Option<tokio::sync::oneshot::Sender<Ans>>,
}
/// records every request for keys, and answers when it is told to
#[derive(Clone, Default)]
struct Recorder(Arc<Mutex<Vec<Asked>>>);
#[async_trait::async_trait]
impl Loader<Key> for Recorder {
    type Value = String;
    type Error = String;
    async fn load(&self, keys: &[Key]) -> Result<HashMap<Key, String>, String> {
        let (tx, rx) = tokio::sync::oneshot::channel();
        self.0.lock().unwrap().push(Asked { keys: keys.to_vec(), when: Instant::now(), gate: Some(tx) });
        rx.await.unwrap_or(Err("gone".into())).map(|m| m.into_iter().collect())
    }
}
#[derive(Clone, Debug)]
enum Do {
    Start(Vec<Key>, bool),
    /// everything that waits is asked for
    Tick,
    /// the n-th open batch is answered: it fails, or lacks these keys
    Release(usize, bool, Vec<Key>),
    Drop(usize),
    Feed(Vec<(Key, String)>, bool),
    Clear,
    Cache(bool),
    AllCache(bool),
}
fn keys(r: &mut Rng, few: usize) -> Vec<Key> {
    let all = ["a", "b", "", "A", "c", "ab", "d", "é"];
    r.vec(4, |r| r.pick(&all[..few]).to_string())
}
fn plan(r: &mut Rng) -> Vec<Do> {
    let few = 1 + r.below(8);
    let mut v = vec![];
    for _ in 0..1 + r.below(4) {
        for _ in 0..r.below(5) {
            match r.below(12) {
                0 => v.push(Do::Feed(r.vec(2, |r| (keys(r, few).pop().unwrap_or_default(), format!("fed{}", r.below(9)))), r.flip())),
                1 if r.flip() => v.push(Do::Clear),
                2 => v.push(Do::Cache(r.flip())),
                3 => v.push(Do::AllCache(r.flip())),
                4 => v.push(Do::Drop(r.below(6))),
                5 => v.push(Do::Release(r.below(3), r.one_in(3), keys(r, few))),
                _ => {
                    let k = keys(r, few);
                    v.push(Do::Start(k, r.flip()))
                }
            }
        }
        v.push(Do::Tick);
        for _ in 0..r.below(3) {
            v.push(Do::Release(r.below(3), r.one_in(3), keys(r, few)));
        }
    }
    v.push(Do::AllCache(true));
    for _ in 0..8 {
        v.push(Do::Release(0, r.one_in(4), keys(r, few)));
    }
    v
}
/// who waits, for which keys, with what from the cache
struct Wait {
    caller: usize,
    keys: BTreeSet<Key>,
    cached: BTreeMap<Key, String>,
}
struct Batch {
    keys: BTreeSet<Key>,
    waits: Vec<Wait>,
    all_off: bool,
    now: bool,
    begun: Instant,
    asked: Option<usize>,
}
enum Fut<'a> {
    Many(Pin<Box<dyn Future<Output = Result<HashMap<Key, String>, String>> + 'a>>),
    One(Key, Pin<Box<dyn Future<Output = Result<Option<String>, String>> + 'a>>),
}
fn poll(f: &mut Fut) -> Option<Ans> {
    let w = futures_util::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    match f {
        Fut::Many(f) => match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => Some(v.map(|m| m.into_iter().collect())),
            Poll::Pending => None,
        },
        Fut::One(k, f) => match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => Some(v.map(|m| m.into_iter().map(|v| (k.clone(), v)).collect())),
            Poll::Pending => None,
        },
    }
}
async fn run<C: CacheFactory<Key, String>>(keeps: bool, cache: C, max: usize, delay: Duration, plan: &[Do]) -> Result<(), String> {
    let rec = Recorder::default();
    let dl: DataLoader<Key, Recorder, C> = DataLoader::with_cache(rec.clone(), cache).delay(delay).max_batch_size(max);
    let mut futs: Vec<Option<Fut>> = vec![];
    let mut open: Option<Batch> = None;
    let mut closed: Vec<Batch> = vec![];
    let mut held: BTreeMap<Key, String> = BTreeMap::new();
    let (mut off, mut all_off, mut leftover) = (false, false, false);
    let mut seen_asked = 0usize;
    for (n, d) in plan.iter().enumerate() {
        let at = |s: String| format!("step {n} ({d:?}): {s}");
        match d {
            Do::Start(ks, one) => {
                let c = futs.len();
                let one = *one && ks.len() == 1;
                let mut f = if one { Fut::One(ks[0].clone(), Box::pin(dl.load_one(ks[0].clone()))) } else { Fut::Many(Box::pin(dl.load_many(ks.clone()))) };
                let set: BTreeSet<Key> = ks.iter().cloned().collect();
                let cached: BTreeMap<Key, String> = if off || all_off { BTreeMap::new() } else { held.iter().filter(|(k, _)| set.contains(*k)).map(|(k, v)| (k.clone(), v.clone())).collect() };
                let need: BTreeSet<Key> = set.iter().filter(|k| !cached.contains_key(*k)).cloned().collect();
                let begun = Instant::now();
                let got = poll(&mut f);
                if need.is_empty() {
                    if got != Some(Ok(cached.clone())) {
                        return Err(at(format!("nothing has to be loaded: answered {got:?}, not {cached:?}")));
                    }
                    futs.push(None);
                    continue;
                }
                if let Some(g) = got {
                    return Err(at(format!("answered {g:?} before {need:?} was loaded")));
                }
                futs.push(Some(f));
                let b = open.get_or_insert_with(|| Batch { keys: BTreeSet::new(), waits: vec![], all_off, now: false, begun, asked: None });
                b.keys.extend(need.clone());
                b.waits.push(Wait { caller: c, keys: need, cached });
                if b.keys.len() >= max {
                    let mut b = open.take().unwrap();
                    leftover |= b.waits.len() > 1;
                    b.now = true;
                    b.all_off = all_off;
                    closed.push(b);
                }
            }
            Do::Tick => {
                closed.extend(open.take());
                let due: Vec<BTreeSet<Key>> = closed.iter().filter(|b| b.asked.is_none()).map(|b| b.keys.clone()).collect();
                let until = Instant::now() + Duration::from_secs(5);
                while rec.0.lock().unwrap().len() < seen_asked + due.len() {
                    if Instant::now() > until {
                        return Err(at(format!("{due:?} wait to be loaded: the loader was asked for {:?} only", rec.0.lock().unwrap()[seen_asked..].iter().map(|a| a.keys.clone()).collect::<Vec<_>>())));
                    }
                    tokio::task::yield_now().await;
                }
                for _ in 0..4 {
                    tokio::task::yield_now().await;
                }
                let log = rec.0.lock().unwrap();
                let mut sets: Vec<(usize, BTreeSet<Key>)> = vec![];
                for (i, a) in log.iter().enumerate().skip(seen_asked) {
                    let s: BTreeSet<Key> = a.keys.iter().cloned().collect();
                    if s.len() != a.keys.len() {
                        return Err(at(format!("asked for a key twice at once: {:?}", a.keys)));
                    }
                    sets.push((i, s));
                }
                let mut a: Vec<_> = sets.iter().map(|s| s.1.clone()).collect();
                let mut w = due.clone();
                a.sort();
                w.sort();
                if a != w {
                    return Err(at(format!("asked for {a:?}, not for {w:?}")));
                }
                if w.windows(2).any(|p| p[0] == p[1]) {
                    // two batches alike: which is which cannot be told
                    return Ok(());
                }
                for b in closed.iter_mut().filter(|b| b.asked.is_none()) {
                    let i = sets.iter().find(|s| s.1 == b.keys).unwrap().0;
                    if !b.now && !leftover && log[i].when < b.begun + delay {
                        return Err(at(format!("{:?} was asked for before the delay", b.keys)));
                    }
                    b.asked = Some(i);
                }
                seen_asked = log.len();
            }
            Do::Release(i, fail, lacks) => {
                let can: Vec<usize> = (0..closed.len()).filter(|i| closed[*i].asked.is_some()).collect();
                if can.is_empty() || open.is_some() || can.len() != closed.len() {
                    continue;
                }
                let b = closed.remove(can[i % can.len()]);
                let no = b.asked.unwrap();
                let a: Ans = if *fail { Err(format!("e{no}")) } else { Ok(b.keys.iter().filter(|k| !lacks.contains(k)).map(|k| (k.clone(), format!("{k}#{no}"))).collect()) };
                rec.0.lock().unwrap()[no].gate.take().unwrap().send(a.clone()).ok();
                if let (Ok(m), false, true) = (&a, off || b.all_off, keeps) {
                    held.extend(m.clone());
                }
                let until = Instant::now() + Duration::from_secs(5);
                let mut left: Vec<&Wait> = b.waits.iter().filter(|w| futs[w.caller].is_some()).collect();
                loop {
                    tokio::task::yield_now().await;
                    let mut still = vec![];
                    for w in left {
                        match poll(futs[w.caller].as_mut().unwrap()) {
                            None => still.push(w),
                            Some(got) => {
                                let want = a.clone().map(|m| w.cached.clone().into_iter().chain(m.into_iter().filter(|(k, _)| w.keys.contains(k))).collect::<BTreeMap<_, _>>());
                                futs[w.caller] = None;
                                if got != want {
                                    return Err(at(format!("caller {} got {got:?}, not {want:?}", w.caller)));
                                }
                            }
                        }
                    }
                    left = still;
                    if left.is_empty() {
                        break;
                    }
                    if Instant::now() > until {
                        return Err(at(format!("caller {} still waits after its keys were loaded", left[0].caller)));
                    }
                }
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
            }
            Do::Drop(c) => {
                if let Some(f) = futs.get_mut(*c) {
                    *f = None;
                }
            }
            Do::Feed(v, one) => {
                if *one && v.len() == 1 {
                    dl.feed_one(v[0].0.clone(), v[0].1.clone()).await;
                } else {
                    dl.feed_many(v.clone()).await;
                }
                if keeps {
                    held.extend(v.iter().cloned());
                }
            }
            Do::Clear => {
                dl.clear();
                held.clear();
            }
            Do::Cache(on) => {
                dl.enable_cache(*on);
                off = !on;
            }
            Do::AllCache(on) => {
                // a batch that has begun keeps its setting
                if !leftover && open.is_none() && closed.is_empty() {
                    dl.enable_all_cache(*on);
                    all_off = !on;
                }
            }
        }
        for (c, f) in futs.iter_mut().enumerate() {
            if let Some(f) = f {
                if let Some(g) = poll(f) {
                    return Err(at(format!("caller {c} was answered {g:?} by a load that is not its own")));
                }
            }
        }
        let c: BTreeMap<Key, String> = dl.get_cached_values().into_iter().collect();
        if c != held {
            return Err(at(format!("holds {c:?}, not {held:?}")));
        }
    }
    Ok(())
}

/// answers at once, with `key!` for each key but some; a batch with a bad key fails
#[derive(Clone, Default)]
struct Quick(Arc<Mutex<Vec<Vec<Key>>>>);
#[async_trait::async_trait]
impl Loader<Key> for Quick {
    type Value = String;
    type Error = String;
    async fn load(&self, keys: &[Key]) -> Result<HashMap<Key, String>, String> {
        self.0.lock().unwrap().push(keys.to_vec());
        tokio::task::yield_now().await;
        if let Some(b) = keys.iter().find(|k| k.starts_with("bad")) {
            return Err(b.clone());
        }
        Ok(keys.iter().filter(|k| !k.starts_with("no")).map(|k| (k.clone(), format!("{k}!"))).collect())
    }
}
fn threads(seed: u64, callers: usize, max: usize) -> Result<(), String> {
    let q = Quick::default();
    let dl: Arc<DataLoader<Key, Quick, HashMapCache>> = Arc::new(DataLoader::with_cache(q.clone(), HashMapCache::default()).delay(Duration::from_millis(1)).max_batch_size(max));
    let done = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let mut hs = vec![];
    for c in 0..callers {
        let (dl, done) = (dl.clone(), done.clone());
        hs.push(std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let mut r = Rng::new(seed * 1000 + c as u64);
            let all: Result<(), String> = rt.block_on(async {
                for _ in 0..3 {
                    let ks: Vec<Key> = r.vec(3, |r| format!("{}{}", r.pick(&["k", "k", "k", "k", "no", "bad"]), r.below(9)));
                    let got = tokio::time::timeout(Duration::from_secs(20), dl.load_many(ks.clone())).await.map_err(|_| format!("the load of {ks:?} never ended"))?;
                    match got {
                        Ok(m) => {
                            let want: HashMap<Key, String> = ks.iter().filter(|k| k.starts_with('k')).map(|k| (k.clone(), format!("{k}!"))).collect();
                            if m != want || ks.iter().any(|k| k.starts_with("bad")) {
                                return Err(format!("the load of {ks:?} gave {m:?}"));
                            }
                        }
                        // the failure of a batch which held one of these keys
                        Err(e) => {
                            if !dl.loader().0.lock().unwrap().iter().any(|b| b.contains(&e) && b.iter().any(|k| ks.contains(k))) {
                                return Err(format!("the load of {ks:?} failed with {e:?}, which is no failure of a batch with its keys"));
                            }
                        }
                    }
                }
                Ok(())
            });
            // batches that this thread runs go on, until every caller has its answers
            done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let until = Instant::now() + Duration::from_secs(60);
            rt.block_on(async {
                while done.load(std::sync::atomic::Ordering::SeqCst) < callers && Instant::now() < until {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            });
            all
        }));
    }
    for h in hs {
        h.join().map_err(|_| "a caller panicked".to_string())??;
    }
    for b in q.0.lock().unwrap().iter() {
        if b.iter().collect::<BTreeSet<_>>().len() != b.len() {
            return Err(format!("asked for a key twice at once: {b:?}"));
        }
    }
    Ok(())
}

fn main() {
    let mut a = Audit::start("histories of callers, loads, failures, cancellations and cache operations against the property");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for _ in 0..a.iters {
        let p = plan(&mut a.rng);
        let max = *a.rng.pick(&[1usize, 2, 3, 4, 1000]);
        let delay = Duration::from_millis(*a.rng.pick(&[1u64, 2]));
        let keeps = a.rng.one_in(3);
        let what = || format!("{} at most {max}, {delay:?}: {p:?}", if keeps { "no cache," } else { "cache," });
        a.case("history", p.len() > 3, what, || if keeps { rt.block_on(run(false, NoCache, max, delay, &p)) } else { rt.block_on(run(true, HashMapCache::default(), max, delay, &p)) });
    }
    for i in 0..(a.iters / 100).max(4) {
        let (s, n, max) = (a.rng.u64() % 100000, 2 + a.rng.below(6), *a.rng.pick(&[1usize, 2, 3, 1000]));
        a.case("threads", true, || format!("{i}: {n} threads, at most {max}, seed {s}"), || threads(s, n, max));
    }
    a.case("defaults", true, || "a new loader".into(), || {
        rt.block_on(async {
            let q = Quick::default();
            let dl = DataLoader::new(q.clone());
            let ks: Vec<Key> = (0..1000).map(|i| format!("k{i}")).collect();
            let mut f = Fut::Many(Box::pin(dl.load_many(ks[..999].to_vec())));
            if poll(&mut f).is_some() {
                return Err("answered at once".into());
            }
            for _ in 0..3 {
                // 999 keys are fewer than a batch: they wait, one more completes it
                let mut g = Fut::Many(Box::pin(dl.load_many(ks[990..999].to_vec())));
                poll(&mut g);
            }
            if !q.0.lock().unwrap().is_empty() {
                return Err("asked at once".into());
            }
            let got = tokio::time::timeout(Duration::from_secs(20), dl.load_one(ks[999].clone())).await;
            if got != Ok(Ok(Some("k999!".into()))) {
                return Err(format!("{got:?}"));
            }
            let n: Vec<usize> = q.0.lock().unwrap().iter().map(|b| b.len()).collect();
            if n != [1000] {
                return Err(format!("batches of {n:?}"));
            }
            Ok(())
        })
    });
    a.finish();
}

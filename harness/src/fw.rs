//! The monitor framework: streams of cases, worker threads, breadcrumbs of the case in hand
//! (so that a dying process tells which case killed it), counters of what was observed, verdicts.
use crate::dict::Dict;
use crate::gen::G;
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Mini, Quick, Thorough }

pub type CaseFn = Box<dyn Fn(&mut Wk, u64) -> Result<(), String> + Send + Sync>;

pub struct Stream { pub name: &'static str, pub n: u64, pub chunk: u64, pub exhaustive: bool, pub f: CaseFn }

pub struct Ctx { pub pid: String, pub seed: u64, pub tier: Tier, pub dict: Dict }

impl Ctx {
    /// number of cases per tier
    pub fn n(&self, mini: u64, quick: u64, thorough: u64) -> u64 {
        match self.tier { Tier::Mini => mini, Tier::Quick => quick, Tier::Thorough => thorough }
    }
}

pub fn stream(name: &'static str, n: u64, f: impl Fn(&mut Wk, u64) -> Result<(), String> + Send + Sync + 'static) -> Stream {
    Stream { name, n, chunk: 16, exhaustive: false, f: Box::new(f) }
}
pub fn exhaustive(name: &'static str, n: u64, f: impl Fn(&mut Wk, u64) -> Result<(), String> + Send + Sync + 'static) -> Stream {
    Stream { name, n, chunk: 512, exhaustive: true, f: Box::new(f) }
}

#[derive(Default)]
struct IdHash(u64);
impl std::hash::Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(8) ^ *x as u64 } }
    fn write_u64(&mut self, n: u64) { self.0 = n }
}
type Build = std::hash::BuildHasherDefault<IdHash>;

/// a worker: random numbers of the current case and everything it observed
pub struct Wk<'a> {
    pub rng: Rng,
    pub ctx: &'a Ctx,
    pub evals: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    seen: HashSet<u64, Build>,
    sampling: bool,
}

const SEEN_CAP: usize = 3_000_000;

impl<'a> Wk<'a> {
    pub fn new(ctx: &'a Ctx) -> Wk<'a> {
        Wk { rng: Rng::new(0), ctx, evals: 0, counts: BTreeMap::new(), samples: Vec::new(), seen: Default::default(), sampling: false }
    }
    /// one observation of the library; `fp` fingerprints the distinct non-trivial case
    pub fn saw(&mut self, fp: u64) {
        self.evals += 1;
        if self.seen.len() < SEEN_CAP { self.seen.insert(mix(fp)); }
    }
    pub fn saw_str(&mut self, s: &str) { self.saw(hash_str(s)) }
    pub fn trivial(&mut self) { self.evals += 1 }
    pub fn count(&mut self, k: &'static str) { *self.counts.entry(k).or_insert(0) += 1 }
    pub fn count_n(&mut self, k: &'static str, n: u64) { *self.counts.entry(k).or_insert(0) += n }
    pub fn max(&mut self, k: &'static str, n: u64) { let e = self.counts.entry(k).or_insert(0); *e = (*e).max(n) }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sampling { self.sampling = false; let s: String = f(); self.samples.push(clip(&s, 300)); }
    }
    pub fn g<R>(&mut self, f: impl FnOnce(&mut G, &mut Self) -> R) -> R {
        let mut r = self.rng.clone();
        let ctx = self.ctx;
        let out = f(&mut G::new(&mut r, &ctx.dict), self);
        self.rng = r;
        out
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { format!("{}... ({} bytes)", s.chars().take(n).collect::<String>(), s.len()) }
}

thread_local! { static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = format!("{} ({})", clip(&m, 200), at));
    }));
}

/// calls the library; a panic becomes an Err with its message
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", PANIC_MSG.with(|p| p.borrow().clone())))
}

pub struct Violation { pub stream: String, pub idx: u64, pub msg: String }

pub struct Report {
    pub evals: u64,
    pub distinct: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub streams: Vec<(String, u64, u64, bool)>,
    pub violations: Vec<Violation>,
    pub wall: f64,
    pub capped: bool,
}

fn case_seed(ctx: &Ctx, s: &str, idx: u64) -> u64 {
    mix(ctx.seed ^ hash_str(&ctx.pid).rotate_left(17) ^ hash_str(s).rotate_left(31) ^ mix(idx))
}

pub fn run_case(w: &mut Wk, s: &Stream, idx: u64) -> Result<(), String> {
    w.rng = Rng::new(case_seed(w.ctx, s.name, idx));
    match catch_unwind(AssertUnwindSafe(|| (s.f)(w, idx))) {
        Ok(r) => r,
        // a panic that the monitor itself did not expect and catch
        Err(_) => Err(format!("HARNESS-PANIC {}", PANIC_MSG.with(|p| p.borrow().clone()))),
    }
}

pub struct Slots(Vec<(AtomicU64, AtomicU64)>, Option<&'static [AtomicU64]>);

pub struct Opts { pub threads: usize, pub stack: usize, pub budget: Duration, pub crumbs: Option<&'static [AtomicU64]>, pub hang: Duration, pub shard: (u64, u64) }

/// runs all streams; every thread keeps (stream + 1, index) of the case in hand in its breadcrumb slot
pub fn run(ctx: &Ctx, streams: &[Stream], o: &Opts) -> Report {
    let t0 = Instant::now();
    let cursors: Vec<AtomicU64> = streams.iter().map(|_| AtomicU64::new(0)).collect();
    let done: Vec<AtomicU64> = streams.iter().map(|_| AtomicU64::new(0)).collect();
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let active = AtomicUsize::new(o.threads);
    let vio: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
    let slots = Slots((0..o.threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect(), o.crumbs);
    let out: Mutex<Vec<(u64, HashSet<u64, Build>, BTreeMap<&'static str, u64>, Vec<String>)>> = Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        for t in 0..o.threads {
            let (cursors, done, stop, capped, active, vio, slots, out) = (&cursors, &done, &stop, &capped, &active, &vio, &slots, &out);
            std::thread::Builder::new().stack_size(o.stack).name(format!("w{}", t)).spawn_scoped(sc, move || {
                let mut w = Wk::new(ctx);
                loop {
                    if stop.load(Relaxed) { break }
                    if t0.elapsed() > o.budget { capped.store(true, Relaxed); break }
                    // the stream that is least advanced
                    let mut best: Option<(usize, f64)> = None;
                    for (i, s) in streams.iter().enumerate() {
                        let c = cursors[i].load(Relaxed);
                        if c < s.n {
                            let p = c as f64 / s.n as f64;
                            if best.map_or(true, |b| p < b.1) { best = Some((i, p)) }
                        }
                    }
                    let i = match best { Some(b) => b.0, None => break };
                    let s = &streams[i];
                    let chunk = if o.shard.1 > 1 { 1 } else { s.chunk };
                    let a = cursors[i].fetch_add(chunk, Relaxed);
                    let b = (a + chunk).min(s.n);
                    if a % o.shard.1 != o.shard.0 { continue }
                    for idx in a..b {
                        if stop.load(Relaxed) { break }
                        if (idx - a) % 64 == 63 && t0.elapsed() > o.budget { capped.store(true, Relaxed); break }
                        slots.0[t].0.store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
                        slots.0[t].1.store(((i as u64 + 1) << 48) | idx, Relaxed);
                        if let Some(c) = slots.1 { c[t * 2].store(i as u64 + 1, Relaxed); c[t * 2 + 1].store(idx, Relaxed); }
                        w.sampling = w.samples.len() < 6 && (idx == a) && (idx / s.chunk) % 3 == t as u64 % 3;
                        let r = run_case(&mut w, s, idx);
                        slots.0[t].0.store(0, Relaxed);
                        if let Some(c) = slots.1 { c[t * 2].store(0, Relaxed) }
                        done[i].fetch_add(1, Relaxed);
                        if let Err(msg) = r {
                            let mut v = vio.lock().unwrap();
                            v.push(Violation { stream: s.name.into(), idx, msg });
                            if v.len() >= 6 { stop.store(true, Relaxed) }
                            // let the others find a smaller one for a moment, then stop
                            break;
                        }
                    }
                    if !vio.lock().unwrap().is_empty() { stop.store(true, Relaxed) }
                }
                out.lock().unwrap().push((w.evals, w.seen, w.counts, w.samples));
                active.fetch_sub(1, SeqCst);
            }).unwrap();
        }
        // watchdog: a case that does not come back
        let (slots, active) = (&slots, &active);
        sc.spawn(move || {
            while active.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for s in &slots.0 {
                    let st = s.0.load(Relaxed);
                    if st > 0 && now > st + o.hang.as_millis() as u64 {
                        let c = s.1.load(Relaxed);
                        let i = (c >> 48) as usize;
                        if i > 0 && s.0.load(Relaxed) == st {
                            println!("HANG stream={} idx={}", streams[i - 1].name, c & ((1 << 48) - 1));
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
    });
    let mut r = Report { evals: 0, distinct: 0, counts: BTreeMap::new(), samples: Vec::new(), streams: Vec::new(), violations: vio.into_inner().unwrap(), wall: 0.0, capped: capped.load(Relaxed) };
    let mut all: HashSet<u64, Build> = Default::default();
    for (e, s, c, sm) in out.into_inner().unwrap() {
        r.evals += e;
        if all.is_empty() { all = s } else { all.extend(s) }
        for (k, n) in c { let x = r.counts.entry(k).or_insert(0); if k.starts_with("max") { *x = (*x).max(n) } else { *x += n } }
        r.samples.extend(sm);
    }
    r.samples.sort();
    r.samples.truncate(12);
    r.distinct = all.len() as u64;
    for (i, s) in streams.iter().enumerate() {
        let d = done[i].load(Relaxed);
        r.streams.push((s.name.into(), d, s.n, s.exhaustive));
    }
    r.violations.sort_by(|a, b| (a.stream.as_str(), a.idx).cmp(&(b.stream.as_str(), b.idx)));
    r.wall = t0.elapsed().as_secs_f64();
    r
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)) } }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

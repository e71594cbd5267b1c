//! Monitor context: what was observed, verdicts, known findings, evidence, replay files.
use crate::rng::{mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
    pub input: Vec<u8>,
}

/// One worker's observation record; merged at the end.
pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub shard: usize,
    pub shards: usize,
    pub rng: Rng,
    pub evals: u64,
    pub checks: u64,
    pub distinct: HashSet<u64>,
    pub hits: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: BTreeMap<String, Viol>,
    pub viol_count: u64,
    cur: Option<std::fs::File>,
}

pub const MAX_THREADS: usize = 8;
pub const MAX_SHARDS: usize = 256;
pub static BEAT: [AtomicU64; MAX_SHARDS] = [const { AtomicU64::new(0) }; MAX_SHARDS];

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    // name of file only: line numbers move under refactoring
                    format!("{}:{}", f.rsplit('/').next().unwrap_or(f), l.line())
                })
                .unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            LAST.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            old(info)
        }
    }));
}

/// Run `f`, converting a panic into Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut x = 0u64;
        for &y in c {
            x = (x << 8) | y as u64;
        }
        h = mix(h ^ x ^ ((c.len() as u64) << 56));
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(400) {
        let _ = write!(s, "{x:02x}");
    }
    if b.len() > 400 {
        let _ = write!(s, "..({} bytes)", b.len());
    }
    s
}
pub fn hex_full(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
pub fn since_start() -> Duration {
    T0.get_or_init(Instant::now).elapsed()
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, seed: u64, shard: usize, shards: usize) -> Self {
        let dir = scratch();
        let cur = std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(format!("{dir}/cur.{shard}"))
            .ok();
        let mut h = mix(seed);
        for b in prop.bytes() {
            h = mix(h ^ b as u64);
        }
        Ctx {
            prop,
            tier,
            seed,
            shard,
            shards,
            rng: Rng::new(mix(h ^ (shard as u64 + 1))),
            evals: 0,
            checks: 0,
            distinct: HashSet::new(),
            hits: BTreeMap::new(),
            samples: Vec::new(),
            viols: BTreeMap::new(),
            viol_count: 0,
            cur,
        }
    }
    /// Start a case: remembered for crash/hang reports, counted as one evaluation
    pub fn case(&mut self, label: &str, bytes: &[u8]) {
        self.evals += 1;
        BEAT[self.shard % MAX_SHARDS].store(since_start_ms(), Ordering::Relaxed);
        if let Some(f) = &self.cur {
            let mut buf = Vec::with_capacity(bytes.len().min(65536) + label.len() + 16);
            let n = bytes.len().min(65536);
            buf.extend_from_slice(&(label.len() as u32).to_le_bytes());
            buf.extend_from_slice(&(n as u32).to_le_bytes());
            buf.extend_from_slice(label.as_bytes());
            buf.extend_from_slice(&bytes[..n]);
            let _ = f.write_at(&buf, 0);
        }
    }
    pub fn done(&mut self) {
        if let Some(f) = &self.cur {
            let mut buf = vec![4u8, 0, 0, 0, 0, 0, 0, 0];
            buf.extend_from_slice(b"done");
            let _ = f.write_at(&buf, 0);
        }
        BEAT[self.shard % MAX_SHARDS].store(0, Ordering::Relaxed);
    }
    /// count a distinct, non-trivial case
    pub fn distinct(&mut self, label: &str, bytes: &[u8]) {
        let h = hash_bytes(bytes) ^ mix(hash_bytes(label.as_bytes()));
        self.distinct.insert(h);
    }
    pub fn hit(&mut self, k: &str) {
        if let Some(v) = self.hits.get_mut(k) {
            *v += 1;
        } else {
            self.hits.insert(k.to_string(), 1);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let t = s();
            self.samples.push(t);
        }
    }
    pub fn check(&mut self, ok: bool, sig: impl FnOnce() -> String, detail: impl FnOnce() -> String, input: &[u8]) -> bool {
        self.checks += 1;
        if !ok {
            self.viol(sig(), detail(), input);
        }
        ok
    }
    pub fn viol(&mut self, sig: String, detail: String, input: &[u8]) {
        self.viol_count += 1;
        let e = Viol { sig: sig.clone(), detail, input: input.to_vec() };
        match self.viols.get(&sig) {
            Some(old) if old.input.len() <= input.len() => {}
            _ => {
                if self.viols.len() < 4000 || self.viols.contains_key(&sig) {
                    self.viols.insert(sig, e);
                }
            }
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// scale a case count by tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.quick() { quick } else { thorough };
        // MON_PCT (development only) shrinks the workload
        match std::env::var("MON_PCT").ok().and_then(|p| p.parse::<usize>().ok()) {
            Some(p) => (n * p / 100).max(1),
            None => n,
        }
    }
}

pub fn since_start_ms() -> u64 {
    since_start().as_millis() as u64 + 1
}

pub fn scratch() -> String {
    std::env::var("MON_SCRATCH").unwrap_or_else(|_| "/verif/evidence/scratch".into())
}

impl Merged {
    pub fn empty() -> Self {
        Merged { evals: 0, checks: 0, distinct: HashSet::new(), hits: BTreeMap::new(), samples: vec![], viols: BTreeMap::new(), viol_count: 0 }
    }
}
pub struct Merged {
    pub evals: u64,
    pub checks: u64,
    pub distinct: HashSet<u64>,
    pub hits: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: BTreeMap<String, Viol>,
    pub viol_count: u64,
}

/// Run `f` on `shards` worker shards over MAX_THREADS threads and merge.
pub fn run_sharded(
    prop: &'static str,
    tier: Tier,
    seed: u64,
    shards: usize,
    stack: usize,
    only: Option<usize>,
    f: &fn(&mut Ctx),
) -> Merged {
    let next = AtomicUsize::new(0);
    let out = Mutex::new(Merged::empty());
    std::thread::scope(|s| {
        for _ in 0..(if only.is_some() { 1 } else { MAX_THREADS.min(shards) }) {
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= shards {
                        break;
                    }
                    if only.is_some_and(|o| o != i) {
                        continue;
                    }
                    let mut c = Ctx::new(prop, tier, seed, i, shards);
                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
                    c.done();
                    if r.is_err() {
                        // a bug of the harness itself, never a verdict
                        eprintln!("HARNESS-ERROR property={prop} shard={i}");
                        std::process::exit(3);
                    }
                    let mut o = out.lock().unwrap();
                    o.evals += c.evals;
                    o.checks += c.checks;
                    o.distinct.extend(c.distinct.iter());
                    for (k, v) in c.hits {
                        *o.hits.entry(k).or_insert(0) += v;
                    }
                    if o.samples.len() < 12 {
                        o.samples.extend(c.samples);
                    }
                    o.viol_count += c.viol_count;
                    for (k, v) in c.viols {
                        match o.viols.get(&k) {
                            Some(old) if (old.input.len(), &old.input) <= (v.input.len(), &v.input) => {}
                            _ => {
                                o.viols.insert(k, v);
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap()
}

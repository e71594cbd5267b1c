//! Supervisor: runs a check in a child process, turns crashes and hangs of the code under test into
//! confirmed violations, applies the known-findings list and writes evidence and replay files.
use crate::ev::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::Command;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub shards: usize,
    pub run: fn(&mut Ctx),
    pub rule: &'static str,
    /// events that must have been observed for a quiet run to count
    pub required: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit_memory() {
    // RLIMIT_AS = 9: an allocation sized by a hostile length fails (abort) instead of exhausting the machine
    let l = [8u64 << 30, 8u64 << 30];
    unsafe {
        setrlimit(9, &l);
    }
}

pub const STACK: usize = 8 << 20;
const HANG_WALL_MS: u64 = 60_000;
const HANG_CPU_MS: u64 = 30_000;

pub struct Known {
    pub sig: String,
    pub desc: String,
}
pub fn load_known(prop: &str) -> Vec<Known> {
    let path = concat!(env!("CARGO_MANIFEST_DIR"), "/../known_findings.txt");
    let mut out = vec![];
    let text = std::fs::read_to_string(path).unwrap_or_default();
    for l in text.lines() {
        let l = l.trim();
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let (p, r) = r.split_once(' ').unwrap_or((r, ""));
        if p != prop {
            continue;
        }
        let Some(r) = r.trim().strip_prefix("sig=") else { continue };
        let (sig, desc) = r.split_once(" ; ").unwrap_or((r, ""));
        out.push(Known { sig: sig.trim().to_string(), desc: desc.trim().to_string() });
    }
    out
}
/// `*` matches any run of characters except '/'
pub fn glob(p: &str, s: &str) -> bool {
    let (p, s): (Vec<char>, Vec<char>) = (p.chars().collect(), s.chars().collect());
    fn m(p: &[char], s: &[char]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('*') => {
                let mut i = 0;
                loop {
                    if m(&p[1..], &s[i..]) {
                        return true;
                    }
                    if i >= s.len() || s[i] == '/' {
                        return false;
                    }
                    i += 1;
                }
            }
            Some(c) => s.first() == Some(c) && m(&p[1..], &s[1..]),
        }
    }
    m(&p, &s)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evdir() -> String {
    let d = concat!(env!("CARGO_MANIFEST_DIR"), "/../evidence").to_string();
    let _ = std::fs::create_dir_all(format!("{d}/replay"));
    d
}

fn write_evidence(p: &Prop, tier: Tier, seed: u64, m: &Merged, known: &BTreeMap<String, u64>, viols: usize, wall: f64) {
    let mut e = String::new();
    let _ = write!(
        e,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"oracle_verdicts\": {},\n  \"rule\": {},\n  \"events\": {{",
        js(p.id),
        js(if tier == Tier::Quick { "quick" } else { "thorough" }),
        m.evals,
        m.distinct.len(),
        m.checks,
        js(p.rule)
    );
    let mut first = true;
    for (k, v) in &m.hits {
        let _ = write!(e, "{}\n   {}: {v}", if first { "" } else { "," }, js(k));
        first = false;
    }
    let _ = write!(e, "\n  }},\n  \"known_findings_observed\": {{");
    first = true;
    for (k, v) in known {
        let _ = write!(e, "{}\n   {}: {v}", if first { "" } else { "," }, js(k));
        first = false;
    }
    let _ = write!(e, "\n  }},\n  \"samples\": [");
    let mut samples = m.samples.clone();
    samples.truncate(12);
    for (i, s) in samples.iter().enumerate() {
        let _ = write!(e, "{}\n   {}", if i == 0 { "" } else { "," }, js(&s.chars().take(600).collect::<String>()));
    }
    let _ = write!(e, "\n  ]\n }},\n \"assumptions\": [");
    for (i, s) in p.assumptions.iter().enumerate() {
        let _ = write!(e, "{}\n  {}", if i == 0 { "" } else { "," }, js(s));
    }
    let _ = write!(e, "\n ],\n \"wall_s\": {wall:.2},\n \"violations\": {viols}\n}}\n");
    let _ = std::fs::write(format!("{}/{}.json", evdir(), p.id), e);
}

fn replay_file(p: &Prop, n: usize, tier: Tier, seed: u64, v: &Viol) -> String {
    let path = format!("{}/replay/{}-{n}.txt", evdir(), p.id);
    let path = std::fs::canonicalize(evdir()).map(|d| format!("{}/replay/{}-{n}.txt", d.display(), p.id)).unwrap_or(path);
    let t = format!(
        "property: {}\nsignature: {}\ndetail: {}\ninput (hex): {}\nreplay: VERIF_SEED={seed} VERIF_TIER={} /verif/check.sh {}\nor, for inputs of one type: /verif/check.sh --input <type> <hex>\n",
        p.id,
        v.sig,
        v.detail,
        hex_full(&v.input),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        p.id
    );
    let _ = std::fs::write(&path, t);
    path
}

/// report; returns the exit code
fn report(p: &Prop, tier: Tier, seed: u64, m: &Merged, wall: f64) -> i32 {
    let known = load_known(p.id);
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut open: Vec<&Viol> = vec![];
    for v in m.viols.values() {
        match known.iter().find(|k| glob(&k.sig, &v.sig)) {
            Some(k) => *seen.entry(k.sig.clone()).or_insert(0) += 1,
            None => open.push(v),
        }
    }
    write_evidence(p, tier, seed, m, &seen, open.len(), wall);
    for k in &known {
        if seen.contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} {} ({})", p.id, k.desc, k.sig);
        }
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} verdicts, {} signatures known, {} open, {:.1}s",
        p.id,
        m.evals,
        m.distinct.len(),
        m.checks,
        seen.len(),
        open.len(),
        wall
    );
    if std::env::var("MON_SIGS").is_ok() {
        for v in &open {
            println!("SIG {} {}", v.sig, hex(&v.input));
        }
    }
    if !open.is_empty() {
        open.sort_by_key(|v| (v.input.len(), v.sig.clone()));
        for (i, v) in open.iter().take(25).enumerate() {
            let path = replay_file(p, i, tier, seed, v);
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  {} :: {} :: input {}", v.sig, v.detail.chars().take(300).collect::<String>(), hex(&v.input));
        }
        return 1;
    }
    for (k, n) in p.required {
        let got = m.hits.get(*k).copied().unwrap_or(0);
        if got < *n {
            println!("INCONCLUSIVE property={}: event `{k}` observed {got} times, {n} required", p.id);
            return 3;
        }
    }
    0
}

fn cpu_ms() -> u64 {
    // user+system time of this process, in clock ticks (100 per second)
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let r = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = r.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (g(11) + g(12)) * 10
}

/// The child: does the work. MON_SHARD restricts it to one shard (crash confirmation).
pub fn child(p: &Prop, tier: Tier, seed: u64) -> i32 {
    limit_memory();
    let only: Option<usize> = std::env::var("MON_SHARD").ok().and_then(|s| s.parse().ok());
    if std::env::var("MON_NOWATCH").is_err() {
        std::thread::spawn(move || {
            let mut last = (0u64, 0u64);
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = since_start_ms();
                for (i, b) in BEAT.iter().enumerate() {
                    let t = b.load(Ordering::Relaxed);
                    if t == 0 {
                        continue;
                    }
                    if only.is_some() {
                        // alone: decide on CPU time spent in the same case
                        if last.0 != t {
                            last = (t, cpu_ms());
                        } else if cpu_ms() - last.1 > HANG_CPU_MS {
                            std::process::exit(42);
                        }
                    } else if now > t + HANG_WALL_MS {
                        eprintln!("thread {i}: no progress for {} ms", now - t);
                        std::process::exit(42);
                    }
                }
            }
        });
    }
    let t0 = Instant::now();
    let m = run_sharded(p.id, tier, seed, p.shards, STACK, only, &p.run);
    if only.is_some() {
        return 0;
    }
    report(p, tier, seed, &m, t0.elapsed().as_secs_f64())
}

pub fn parent(p: &Prop, tier: Tier, seed: u64) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let t0 = Instant::now();
    let dir = format!("{}/scratch-{}-{}", evdir(), p.id, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let tiers = if tier == Tier::Quick { "quick" } else { "thorough" };
    let run = |shard: Option<usize>, sub: &str| -> std::io::Result<std::process::ExitStatus> {
        let d = format!("{dir}/{sub}");
        let _ = std::fs::create_dir_all(&d);
        let mut c = Command::new(&exe);
        c.arg(p.id).env("MON_CHILD", "1").env("MON_SCRATCH", &d).env("VERIF_TIER", tiers).env("VERIF_SEED", seed.to_string());
        if let Some(s) = shard {
            c.env("MON_SHARD", s.to_string());
        }
        c.status()
    };
    let code = match run(None, "a") {
        Err(e) => {
            eprintln!("cannot start child: {e}");
            3
        }
        Ok(s) => match s.code() {
            Some(c @ (0 | 1 | 3)) => c,
            other => {
                // crashed or hung: re-run the shards that were in progress, one at a time
                eprintln!("child ended abnormally ({s}, {other:?}); confirming");
                let mut found = vec![];
                for i in 0..p.shards {
                    let Some((label, _)) = read_cur(&format!("{dir}/a/cur.{i}")) else { continue };
                    if label == "done" {
                        continue;
                    }
                    let sub = format!("s{i}");
                    if let Ok(s2) = run(Some(i), &sub) {
                        let what = match s2.code() {
                            Some(0) => continue,
                            Some(42) => "hang",
                            Some(3) => continue,
                            Some(_) => "exit",
                            None => "crash",
                        };
                        if let Some((label, input)) = read_cur(&format!("{dir}/{sub}/cur.{i}")) {
                            found.push(Viol {
                                sig: format!("{what}/{label}"),
                                detail: format!("the process ended with {s2} while running this case alone"),
                                input,
                            });
                        }
                    }
                    if found.len() >= 3 || t0.elapsed() > Duration::from_secs(500) {
                        break;
                    }
                }
                if found.is_empty() {
                    println!("INCONCLUSIVE property={}: child ended with {s}, not reproduced", p.id);
                    3
                } else {
                    let mut m = Merged::empty();
                    m.evals = 1;
                    m.samples = found.iter().map(|v| format!("{} {}", v.sig, hex(&v.input))).collect();
                    for v in found {
                        m.viols.insert(v.sig.clone(), v);
                    }
                    report(p, tier, seed, &m, t0.elapsed().as_secs_f64())
                }
            }
        },
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn read_cur(path: &str) -> Option<(String, Vec<u8>)> {
    let b = std::fs::read(path).ok()?;
    if b.len() < 8 {
        return None;
    }
    let l = u32::from_le_bytes(b[..4].try_into().ok()?) as usize;
    let n = u32::from_le_bytes(b[4..8].try_into().ok()?) as usize;
    if b.len() < 8 + l + n {
        return None;
    }
    Some((String::from_utf8_lossy(&b[8..8 + l]).into_owned(), b[8 + l..8 + l + n].to_vec()))
}

//! C27: one workload, the library built under different sets of features, transcripts compared.
//! The probe binaries (one per set) are built by check.sh into target/probe.
use crate::ev::*;
use crate::gen::*;
use crate::subjects::*;
use crate::work::*;
use std::collections::HashSet;
use std::path::PathBuf;
use std::process::{Command, Stdio};

const BASE: &str = "std";
fn dir() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/../target/probe"))
}

fn sets() -> Vec<String> {
    let t = std::fs::read_to_string(dir().join("sets")).unwrap_or_default();
    t.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}

fn run(set: &str, args: &[&str]) -> Option<String> {
    let o = Command::new(dir().join(set)).args(args).stdin(Stdio::null()).stderr(Stdio::null()).output().ok()?;
    o.status.success().then(|| String::from_utf8_lossy(&o.stdout).into_owned())
}

/// names of the entry points whose text differs
fn differences(set: &str, name: &str, h: &str) -> Vec<(String, String)> {
    let (Some(a), Some(b)) = (run(BASE, &["--explain", name, h]), run(set, &["--explain", name, h])) else {
        return vec![("crash".into(), "the probe crashed".into())];
    };
    let key = |l: &str| l.split(' ').next().unwrap_or("").to_string();
    let mut out = vec![];
    for x in a.lines() {
        let k = key(x);
        match b.lines().find(|y| key(y) == k) {
            Some(y) if x != y => out.push((k, format!("{BASE}: {x} / {set}: {y}").chars().take(500).collect())),
            None if !k.starts_with('+') => out.push((k, "missing".into())),
            _ => {}
        }
    }
    if out.is_empty() {
        out.push(("unstable".into(), "the difference is not seen again when the case runs alone".into()));
    }
    out
}

pub fn c27(c: &mut Ctx) {
    let sets = sets();
    for set in &sets {
        if c.shard == 0 {
            let log = dir().join(format!("{set}.failed"));
            let failed = std::fs::read_to_string(&log).ok();
            c.check(failed.is_none(), || format!("build/{set}"), || failed.clone().unwrap_or_default().chars().take(600).collect(), set.as_bytes());
            c.hit("feature-set");
        }
    }
    let sets: Vec<&String> = sets.iter().filter(|s| dir().join(s.as_str()).exists()).collect();
    let Some(types) = run(BASE, &["--types"]) else { return };
    let types: HashSet<&str> = types.lines().collect();
    let subs = super::all_subjects();
    let refs: Vec<&Subject> = subs.iter().filter(|s| types.contains(s.name)).collect();
    let per = c.n(60, 1500);
    let mut cases: Vec<(&'static str, Vec<u8>)> = vec![];
    sweep(c, 27, &refs, per, ALL, &mut |c, s, _v, _k, b, _r| {
        c.distinct(s.name, b);
        c.sample(|| format!("{} {}", s.name, hex(b)));
        cases.push((s.name, b.to_vec()));
    });
    let mut k = 0;
    for chunk in cases.chunks(4000) {
        k += 1;
        let path = dir().join(format!("cases-{}-{k}", c.shard));
        let text: String = chunk.iter().map(|(n, b)| format!("{n} {}\n", hex_full(b))).collect();
        std::fs::write(&path, &text).expect("cannot write the cases");
        let p = path.to_str().unwrap().to_string();
        c.case("probe", &[]);
        let base: Vec<String> = match run(BASE, &[&p]) {
            Some(t) => t.lines().map(|l| l.to_string()).collect(),
            None => {
                c.viol("crash/std".into(), "the probe of the default features crashed or was killed".into(), b"");
                let _ = std::fs::remove_file(&path);
                continue;
            }
        };
        for set in sets.iter().filter(|s| s.as_str() != BASE) {
            c.case("probe", set.as_bytes());
            let Some(t) = run(set, &[&p]) else {
                c.viol(format!("crash/{set}"), "the probe crashed or was killed".into(), b"");
                continue;
            };
            let mut n = 0;
            let mut lines = 0;
            for ((x, y), (name, b)) in base.iter().zip(t.lines()).zip(chunk) {
                lines += 1;
                let ((x0, x1), (y0, y1)) = (x.split_once(' ').unwrap_or((x, "")), y.split_once(' ').unwrap_or((y, "")));
                if y0 == "-" {
                    c.hit("type-not-in-this-build");
                    continue;
                }
                let with_std = set.split('+').any(|f| matches!(f, "std" | "debug" | "trace"));
                let same = x0 == y0 && (!with_std || x1 == y1);
                c.hit(if with_std { "transcript-with-encodings" } else { "transcript-without-std" });
                c.checks += 1;
                if !same && n < 6 {
                    n += 1;
                    for (f, d) in differences(set, name, &hex_full(b)) {
                        c.viol(format!("differs/{name}/{f}/{set}"), d, b);
                    }
                }
            }
            c.check(lines == chunk.len(), || format!("transcript-short/{set}"), || format!("{lines} of {}", chunk.len()), b"");
        }
        let _ = std::fs::remove_file(&path);
    }
}

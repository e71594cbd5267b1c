//! C26: memory, time and stack used by decoding, encoding and formatting, against the size of the input.
use super::all_subjects;
use crate::ev::*;
use crate::gen::*;
use crate::meter::{self, Use};
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::subjects::*;
use crate::work::*;
use asn1_rs::nom::IResult;
use asn1_rs::{Any, AnyIterator, AnySequence, BerError, BerMode, BerParser, DerMode, DerParser, FromBer, FromDer, Header, Input, Oid, Sequence, SequenceIterator, Set};

/// octets held at once: a constant, and so many octets for every octet of input. An element of two octets
/// becomes an object of a hundred or two, in a vector that doubles.
const PEAK: (u64, u64) = (16 << 10, 700);
/// octets requested altogether
const TOTAL: (u64, u64) = (64 << 10, 2500);
/// number of allocations
const COUNT: (u64, u64) = (2000, 60);
/// rendering an element as text takes some hundreds of octets (factor on the above); its time is not judged:
/// the decimal digits of a huge number (an arc of an identifier) take quadratic time in the number library
const TEXT: u64 = 4;
/// CPU time in microseconds, with the constant and the factor per KiB
const TIME: (u64, u64) = (150_000, 4_000);
const ENC_TIME: u64 = 3;
/// stack of the thread in which everything runs
const STACK: usize = 768 << 10;

struct Max(std::collections::BTreeMap<&'static str, (u64, String)>);
impl Max {
    fn put(&mut self, k: &'static str, v: u64, what: &str) {
        let e = self.0.entry(k).or_insert((0, String::new()));
        if v > e.0 {
            *e = (v, what.to_string());
        }
    }
}

fn judge(c: &mut Ctx, m: &mut Max, text: bool, what: &str, b: &[u8], size: usize, u: Use, again: &mut dyn FnMut() -> Option<Use>) {
    let n = size as u64 * if text { TEXT } else { 1 };
    c.checks += if text { 3 } else { 4 };
    c.hit("measured");
    if n >= 4096 {
        m.put("peak/n big", u.peak / n, what);
        m.put("total/n big", u.total / n, what);
        m.put("count*100/n big", u.count * 100 / n, what);
        m.put(if what.ends_with("er") && what.contains("encode") { "enc us*1024/n big" } else if text { "text us" } else { "us*1024/n big" }, u.us * 1024 / n, what);
    } else {
        m.put("peak small", u.peak.saturating_sub(PEAK.1 * n), what);
        m.put("total small", u.total.saturating_sub(TOTAL.1 * n), what);
        m.put("count small", u.count.saturating_sub(COUNT.1 * n), what);
    }
    let sig = |k: &str| format!("{k}/{what}");
    if u.peak > PEAK.0 + PEAK.1 * n {
        c.viol(sig("memory"), format!("{} octets held for an input of {n}", u.peak), b);
    }
    if u.total > TOTAL.0 + TOTAL.1 * n {
        c.viol(sig("allocated"), format!("{} octets allocated for an input of {n}", u.total), b);
    }
    if u.count > COUNT.0 + COUNT.1 * n {
        c.viol(sig("allocations"), format!("{} allocations for an input of {n}", u.count), b);
    }
    let lim = (TIME.0 + TIME.1 * (n / 1024)) * if what.contains("/encode-") { ENC_TIME } else { 1 };
    if u.us > lim && !text {
        // the clock is not exact: confirm twice
        let best = (0..2).filter_map(|_| again()).map(|u| u.us).fold(u.us, u64::min);
        if best > lim {
            c.viol(sig("time"), format!("{best} us of CPU for an input of {n}"), b);
        }
    }
}

fn measure(c: &mut Ctx, m: &mut Max, what: &str, b: &[u8], f: &dyn Fn()) {
    let mut one = || {
        meter::begin();
        let r = guard(f);
        meter::end();
        let u = meter::last();
        r.ok().and(u)
    };
    if let Some(u) = one() {
        judge(c, m, what == "Oid-text", what, b, b.len(), u, &mut one);
    }
}

fn subject(c: &mut Ctx, m: &mut Max, s: &Subject, b: &[u8]) {
    for d in &s.decs {
        let what = format!("{}/{}", s.name, d.api);
        measure(c, m, &what, b, &|| {
            let _ = (d.f)(b);
        });
    }
    let tg = TagAs(2, 70000);
    for (k, f) in [("ber", s.enc_ber), ("der", s.enc_der)] {
        let Some(f) = f else { continue };
        let what = format!("{}/encode-{k}", s.name);
        // measured inside (the value exists already); seven encodings are kept
        let mut one = || match guard(|| f(b, tg)) {
            Ok(Some((_, e))) => meter::last().map(|u| (u, e.vec.map_or(0, |v| v.len()))),
            _ => None,
        };
        if let Some((u, n)) = one() {
            let size = n.max(b.len());
            judge(c, m, false, &what, b, size, u, &mut || one().map(|x| x.0));
        }
    }
    if let Some(f) = s.fmt {
        let mut len = 0;
        let (r, u) = meter::metered(|| guard(|| f(b)));
        if let Ok(Some(t)) = r {
            len = len.max(t.len());
            judge(c, m, true, &format!("{}/format", s.name), b, b.len(), u, &mut || Some(meter::metered(|| guard(|| f(b))).1));
            c.check(len <= 4096 + 800 * b.len(), || format!("text/{}", s.name), || format!("text of {len} octets for an input of {}", b.len()), b);
        }
    }
    if let Some(f) = s.to_static {
        let (r, u) = meter::metered(|| guard(|| f(b.to_vec())));
        if matches!(r, Ok(Some(_))) {
            judge(c, m, true, &format!("{}/to_static", s.name), b, b.len(), u, &mut || Some(meter::metered(|| guard(|| f(b.to_vec()))).1));
        }
    }
}

type P<'a, T> = IResult<Input<'a>, T, BerError<Input<'a>>>;

fn generic(c: &mut Ctx, m: &mut Max, b: &[u8]) {
    let x = |c: &mut Ctx, m: &mut Max, w: &str, f: &dyn Fn()| measure(c, m, w, b, f);
    x(c, m, "Header::from_ber", &|| drop(Header::from_ber(b)));
    x(c, m, "Header::parse_der", &|| drop(Header::parse_der(mk(b))));
    x(c, m, "Any::from_der", &|| drop(Any::from_der(b)));
    x(c, m, "Any::parse_ber", &|| drop(Any::parse_ber(mk(b))));
    x(c, m, "AnyIterator<Ber>", &|| drop(AnyIterator::<BerMode>::new(mk(b)).count()));
    x(c, m, "AnyIterator<Der>", &|| drop(AnyIterator::<DerMode>::new(mk(b)).count()));
    x(c, m, "try_collect", &|| drop(AnyIterator::<BerMode>::new(mk(b)).try_collect::<Vec<Any>>()));
    x(c, m, "SequenceIterator", &|| drop(SequenceIterator::<Any, BerMode>::new(b).count()));
    x(c, m, "Sequence::and_then", &|| {
        let r: P<usize> = Sequence::parse_ber_and_then(mk(b), |_, i| {
            let n = AnyIterator::<BerMode>::new(i.clone()).count();
            Ok((i, n))
        });
        drop(r)
    });
    x(c, m, "Set::and_then", &|| drop(Set::parse_der_and_then(mk(b), |_, i| -> P<()> { Ok((i, ())) })));
    x(c, m, "AnySequence", &|| drop(AnySequence::parse_ber(mk(b))));
    x(c, m, "Oid-text", &|| {
        let o = Oid::new(b.into());
        drop((o.to_id_string(), o.iter().map(|i| i.count()), format!("{o} {o:?}")))
    });
    x(c, m, "Any-walk", &|| {
        fn walk(i: Input, depth: usize) -> usize {
            let mut n = 0;
            if depth > 0 {
                for r in AnyIterator::<BerMode>::new(i) {
                    let Ok((_, a)) = r else { return n };
                    n += 1;
                    if a.header.is_constructed() {
                        n += walk(a.data.clone(), depth - 1);
                    }
                }
            }
            n
        }
        walk(mk(b), 8);
    });
}

/// large objects of type `s`
fn big(s: &S, shape: usize, size: usize, r: &mut Rng) -> Option<(&'static str, Vec<u8>)> {
    let mut o = vec![];
    let (cl, tag) = ident_of(s);
    let prim = |c: Vec<u8>| {
        let mut o = vec![];
        tlv(cl, false, tag, &c, &mut o);
        o
    };
    let cons = |c: Vec<u8>| {
        let mut o = vec![];
        tlv(cl, true, tag, &c, &mut o);
        o
    };
    let fill = |x: &[u8]| x.iter().copied().cycle().take(size / x.len().max(1) * x.len()).collect::<Vec<u8>>();
    // what a constructed object of this type contains
    let inner = match s {
        S::SeqOf(i) | S::SetList(i) | S::SetSet(i) | S::Arr(i, _) | S::Tag(TagKind::Expl, _, _, i) | S::AnyTag(TagKind::Expl, i) => {
            let v = gen_val(i, r, 2);
            der(i, &v)
        }
        S::BitStr => vec![3, 3, 0, 1, 2],
        _ => vec![tag as u8 & 31, 1, b'1'],
    };
    Some(match shape {
        0 => ("zeros", prim(vec![0; size])),
        1 => ("ones", prim(vec![0xff; size])),
        2 => ("continuation octets", prim(vec![0x81; size])),
        3 => ("digits", prim({
            let mut v = vec![*r.pick(&[1u8, 2, 3, b'1'])];
            v.extend(fill(b"3141592653"));
            v
        })),
        4 => ("random", prim(r.bytes(size))),
        5 => ("text", prim(fill("aé".as_bytes()))),
        6 => ("empty elements", cons(fill(&[5, 0]))),
        7 => ("empty sequences", cons(fill(&[0x30, 0]))),
        8 => ("own elements", cons(fill(&inner))),
        9 => ("empty segments", cons(fill(&[4, 0]))),
        10 => ("short segments", cons(fill(&[4, 1, 0x61]))),
        11 => ("own empty segments", cons(fill(&[tag as u8 & 31, 0]))),
        12 => ("nested indefinite", {
            let mut v = vec![];
            put_ident(cl, true, tag, &mut v);
            v.push(0x80);
            v.extend(fill(&[0x24, 0x80]));
            v
        }),
        13 => ("closed nested indefinite", {
            let k = 48;
            let mut v = vec![];
            put_ident(cl, true, tag, &mut v);
            v.push(0x80);
            let pad = fill(&[4, 0]);
            for _ in 0..k {
                v.extend_from_slice(&[0x24, 0x80]);
            }
            v.extend(pad);
            for _ in 0..=k {
                v.extend_from_slice(&[0, 0]);
            }
            v
        }),
        14 => ("nested definite", {
            // built from the inside; every level needs its own header
            let mut lens = vec![];
            let mut n = 0usize;
            while n < size {
                lens.push(n);
                let mut h = vec![];
                put_len(n, &mut h);
                n += h.len() + 1;
            }
            let t = if r.below(2) == 0 { 0x24 } else { 0x30 };
            for l in lens.iter().rev() {
                o.push(t);
                put_len(*l, &mut o);
            }
            cons(o)
        }),
        15 => ("own nested definite", {
            let mut lens = vec![];
            let mut n = 0usize;
            while n < size {
                lens.push(n);
                let mut h = vec![];
                put_ident(cl, true, tag, &mut h);
                put_len(n, &mut h);
                n += h.len();
            }
            for l in lens.iter().rev() {
                put_ident(cl, true, tag, &mut o);
                put_len(*l, &mut o);
            }
            o
        }),
        16 => ("own nested indefinite", {
            let mut v = vec![];
            while v.len() < size {
                put_ident(cl, true, tag, &mut v);
                v.push(0x80);
            }
            v
        }),
        17 => ("endless tag", {
            let mut v = vec![(cl << 6) | 0x1f];
            v.extend(vec![*r.pick(&[0x80, 0xff, 0x81]); size]);
            v.push(1);
            v.push(0);
            v
        }),
        18 => ("long length", {
            let mut v = vec![];
            put_ident(cl, (r.below(2) == 0), tag, &mut v);
            v.push(0xfe);
            v.extend(vec![0; 125]);
            v.push(5);
            v.extend(vec![0x31; size]);
            v
        }),
        19 => {
            let v = gen_val(s, r, 3);
            let mut b = der(s, &v);
            b.extend(r.bytes(size));
            ("small object, long rest", b)
        }
        _ => return None,
    })
}
const SHAPES: usize = 20;

fn ident_of(s: &S) -> (u8, u32) {
    match s {
        S::Oid => (0, 6),
        S::Any => (0, 16),
        S::Tag(_, c, t, _) => (*c, *t),
        S::AnyTag(..) => (2, 1),
        S::Choice(Some(_), a) => (2, a[0].0),
        S::Choice(None, a) => ident_of(&a[0].1),
        S::Opt(i) | S::Alias(i) => ident_of(i),
        _ => (0, universal_tag(s).unwrap_or(16)),
    }
}

/// lengths that claim far more than there is
fn claim(b: &[u8], r: &mut Rng) -> Option<Vec<u8>> {
    let hs = header_offsets(b);
    if hs.is_empty() {
        return None;
    }
    let (off, h) = hs[r.below(hs.len())].clone();
    let lo = off + h.hl - len_size(&b[off..], &h);
    let mut o = b[..lo].to_vec();
    match r.below(7) {
        0 => o.extend_from_slice(&[0x84, 0x7f, 0xff, 0xff, 0xff]),
        1 => o.extend_from_slice(&[0x84, 0xff, 0xff, 0xff, 0xff]),
        2 => o.extend_from_slice(&[0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
        3 => o.extend_from_slice(&[0x83, 0x10, 0, 0]),
        4 => o.extend_from_slice(&[0x84, 0x10, 0, 0, 0]),
        5 => o.extend_from_slice(&[0x85, 0x10, 0, 0, 0, 0]),
        _ => {
            let k = 1 + r.below(9);
            o.push(0x80 | k as u8);
            o.extend(r.bytes(k));
        }
    }
    o.extend_from_slice(&b[off + h.hl..]);
    Some(o)
}
fn len_size(b: &[u8], h: &Hdr) -> usize {
    let mut p = 1;
    if b[0] & 0x1f == 0x1f {
        while b[p] & 0x80 != 0 {
            p += 1;
        }
        p += 1;
    }
    h.hl - p
}

fn work(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().collect();
    let mut m = Max(Default::default());
    // small inputs of all kinds, and claims
    let per = c.n(60, 1500);
    sweep(c, 26, &refs, per, ALL, &mut |c, s, _v, _k, b, r| {
        c.distinct(s.name, b);
        subject(c, &mut m, s, b);
        if let Some(b) = claim(b, r) {
            c.case(s.name, &b);
            c.hit("claimed-length");
            c.distinct(s.name, &b);
            subject(c, &mut m, s, &b);
            generic(c, &mut m, &b);
        }
    });
    // large inputs
    let sizes: &[usize] = if c.quick() { &[1 << 16, 1 << 18] } else { &[1 << 12, 1 << 16, 1 << 18, 1 << 20] };
    let mut i = 0;
    let t0 = since_start();
    for size in sizes {
        for (k, s) in subs.iter().enumerate() {
            for shape in 0..SHAPES {
                i += 1;
                // the larger size for a part of the types only, depending on the seed
                let part = c.quick() && *size > 1 << 16 && (k as u64 + c.seed) % 4 != 0;
                if i % c.shards != c.shard || part {
                    continue;
                }
                if since_start() - t0 > std::time::Duration::from_secs(if c.quick() { 120 } else { 700 }) {
                    c.hit("time-cap");
                    break;
                }
                let mut r = Rng::new(mix(c.seed ^ mix((k * SHAPES + shape) as u64 ^ ((*size as u64) << 32))));
                let Some((name, b)) = big(&s.s, shape, *size, &mut r) else { continue };
                c.case(&format!("{} ({name})", s.name), &b[..b.len().min(4096)]);
                c.hit(&format!("large: {name}"));
                c.distinct(s.name, &b);
                subject(c, &mut m, s, &b);
                if k % 4 == 0 {
                    generic(c, &mut m, &b);
                }
            }
        }
    }
    if std::env::var("MON_RES").is_ok() {
        for (k, v) in &m.0 {
            println!("MAX {} {} {}", k, v.0, v.1);
        }
    }
}

pub fn c26(c: &mut Ctx) {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || work(c)).unwrap();
        if let Err(e) = h.join() {
            std::panic::resume_unwind(e);
        }
    });
}

//! The properties: workload, oracle and required observations of each.
use crate::diff::*;
use crate::ev::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::subjects::*;
use crate::sup::Prop;
use crate::work::*;

mod anyapi;
mod api;
mod collapi;
mod encapi;
mod errs;
mod fam;
mod feat;
mod frame;
mod laws;
mod parsers;
mod remain;
mod res;
mod span;
mod tagapi;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    generic(&mut v);
    v
}

pub fn explain(name: &str, b: &[u8]) {
    let subs = crate::subjects::all();
    for s in subs.iter().filter(|s| s.name == name) {
        for d in &s.decs {
            let e = expect(&s.s, d.shape, d.mode, b);
            println!("{:22} got {:?}", d.api, guard(|| (d.f)(b)));
            println!("{:22} ref {:?} {:?}", "", e.r, e.cx);
        }
        if let Some(f) = s.enc_ber {
            println!("ber {:?}", guard(|| f(b, TagAs(2, 5))));
        }
        if let Some(f) = s.enc_der {
            println!("der {:?}", guard(|| f(b, TagAs(2, 5))));
        }
        for m in run_all(s, b) {
            println!("MISMATCH {} {}", m.sig(name), m.detail);
        }
    }
}

/// an input counts as non-trivial when it starts with a parsable header
fn note(c: &mut Ctx, s: &Subject, b: &[u8]) {
    if header(b).is_ok() {
        c.distinct(s.name, b);
    }
}

/// differential verdicts of all entry points on one input
pub fn diff_case(c: &mut Ctx, s: &Subject, b: &[u8], keep: &dyn Fn(&Mis) -> bool) {
    c.checks += s.decs.len() as u64;
    for m in run_all(s, b) {
        if keep(&m) {
            c.viol(m.sig(s.name), m.detail, b);
        }
    }
    note(c, s, b);
    c.sample(|| format!("{} {}", s.name, hex(b)));
}

const A_GEN: &[&str] = &[
    "the reference model (harness/src/model.rs) states X.680/X.690 and the crate's documentation correctly",
    "inputs are those drawn by the generators: not exhaustive",
];

// ---------------------------------------------------------------- C01
fn c01(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().collect();
    let per = c.n(1000, 2500);
    sweep(c, 1, &refs, per, ALL, &mut |c, s, _v, k, b, r| {
        diff_case(c, s, b, &|m| m.kind == "panic");
        let mut p = |c: &mut Ctx, what: &str, res: Result<bool, String>| {
            c.checks += 1;
            match res {
                Ok(true) => c.hit(what),
                Ok(false) => {}
                Err(m) => c.viol(format!("panic/{}/{}:{}", s.name, what, panic_kind(&m)), m, b),
            }
        };
        let tg = TagAs(r.below(4) as u8, gen_tag(r));
        if let Some(f) = s.fmt {
            p(c, "formatted", guard(|| f(b).is_some()));
        }
        if let Some(f) = s.enc_ber {
            p(c, "encoded-ber", guard(|| f(b, tg).is_some()));
        }
        if let Some(f) = s.enc_der {
            p(c, "encoded-der", guard(|| f(b, tg).is_some()));
        }
        if let Some(f) = s.eq {
            p(c, "compared", guard(|| f(b, b).is_some()));
        }
        if let Some(f) = s.hash {
            p(c, "hashed", guard(|| f(b).is_some()));
        }
        if let Some(f) = s.ord {
            p(c, "ordered", guard(|| f(b, b).is_some()));
        }
        if let Some(f) = s.to_static {
            p(c, "owned-copy", guard(|| f(b.to_vec()).is_some()));
        }
        let _ = k;
    });
}

fn all_subjects() -> Vec<Subject> {
    crate::subjects::all()
}

// ---------------------------------------------------------------- C02
fn c02(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().collect();
    let per = c.n(1000, 2500);
    let kinds = &[Kind::Der, Kind::Ber, Kind::Trail, Kind::Trail, Kind::Mut, Kind::Tree, Kind::Indef, Kind::Hostile];
    sweep(c, 2, &refs, per, kinds, &mut |c, s, _v, _k, b, r| {
        diff_case(c, s, b, &|m| matches!(m.kind, "consumed" | "span"));
        for d in &s.decs {
            let Ok(DecOut { out: Out::Ok(v, n), .. }) = guard(|| (d.f)(b)) else { continue };
            if n == 0 || n > b.len() {
                continue;
            }
            c.hit("accepted");
            let mut x = b[..n].to_vec();
            let exact = guard(|| (d.f)(&x)).map(|o| o.out);
            c.check(
                exact == Ok(Out::Ok(v.clone(), n)),
                || format!("suffix-dependent:exact/{}/{}", s.name, d.api),
                || format!("{v:?} from {n} of {} octets, but {exact:?} from those {n} octets alone", b.len()),
                b,
            );
            let k = 1 + r.below(6);
            match r.below(3) {
                0 => x.extend(std::iter::repeat(0).take(k)),
                1 => x.extend(std::iter::repeat(0xff).take(k)),
                _ => x.extend(r.bytes(k)),
            }
            let more = guard(|| (d.f)(&x)).map(|o| o.out);
            c.check(
                more == Ok(Out::Ok(v.clone(), n)),
                || format!("suffix-dependent:junk/{}/{}", s.name, d.api),
                || format!("{v:?} alone, {more:?} when other octets follow"),
                &x,
            );
        }
    });
    remain::remainders(c);
}

// ---------------------------------------------------------------- C03
fn c03(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().collect();
    let per = c.n(400, 900);
    let keep = |m: &Mis| {
        matches!(m.kind, "truncated-error" | "needed" | "dishonest") || (m.kind == "accepts" && m.reason == "truncated") || (m.kind == "rejects" && m.reason == "incomplete")
    };
    sweep(c, 3, &refs, per, &[Kind::Der, Kind::Ber, Kind::Indef, Kind::Tree], &mut |c, s, _v, k, b, r| {
        diff_case(c, s, b, &keep);
        let cuts: Vec<usize> = if b.len() <= 48 { (0..b.len()).collect() } else { (0..48).map(|i| if i < 12 { i } else { r.below(b.len()) }).collect() };
        for n in cuts {
            let t = &b[..n];
            c.evals += 1;
            c.hit("prefix");
            diff_case(c, s, t, &keep);
        }
        let _ = k;
    });
}

// ---------------------------------------------------------------- C05
fn has_indef(b: &[u8]) -> bool {
    header_offsets(b).iter().any(|(_, h)| h.len.is_none())
}
fn c05(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().collect();
    let per = c.n(2500, 4000);
    let fam = |m: &Mis| matches!(m.kind, "panic" | "value" | "consumed" | "span" | "rejects") || (m.kind == "accepts" && matches!(m.reason.as_str(), "truncated" | "indefinite-primitive" | "max-depth" | "der-indefinite"));
    sweep(c, 5, &refs, per, &[Kind::Indef, Kind::Indef, Kind::Ber], &mut |c, s, v, k, b, _r| {
        if !has_indef(b) {
            return;
        }
        c.hit("indefinite-input");
        diff_case(c, s, b, &fam);
        let _ = (v, k);
    });
    // nesting: exactly the documented number of levels, for every container tag
    let any: Vec<&Subject> = subs.iter().filter(|s| matches!(s.s, S::Any | S::RawSeq | S::RawSet)).collect();
    if c.shard == 0 {
        for depth in 1..=120usize {
            for (t, s) in [(0x30u8, "Sequence"), (0x31, "Set"), (0x30, "Any"), (0xa3, "Any"), (0x7f, "Any")] {
                let s = match any.iter().find(|x| x.name == s) {
                    Some(s) => s,
                    None => continue,
                };
                for leaf in [&b""[..], &[5, 0], &[4, 3, 0, 0, 0], &[0x24, 2, 4, 0]] {
                    let mut b = vec![];
                    for _ in 0..depth {
                        if t == 0x7f {
                            b.extend_from_slice(&[0x7f, 0x81, 0x01, 0x80]);
                        } else {
                            b.extend_from_slice(&[t, 0x80]);
                        }
                    }
                    b.extend_from_slice(leaf);
                    for _ in 0..depth {
                        b.extend_from_slice(&[0, 0]);
                    }
                    c.case(s.name, &b);
                    c.hit("nesting-depth-case");
                    diff_case(c, s, &b, &fam);
                    // one marker short
                    b.truncate(b.len() - 2);
                    diff_case(c, s, &b, &fam);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C06
fn c06(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().filter(|s| s.enc_ber.is_some() || s.enc_der.is_some()).collect();
    let per = c.n(2500, 6000);
    sweep(c, 6, &refs, per, &[Kind::Der, Kind::Ber, Kind::Indef, Kind::Hostile], &mut |c, s, orig, k, b, _r| {
        note(c, s, b);
        c.sample(|| format!("{} {}", s.name, hex(b)));
        // values obtained by decoding, and values built from their parts
        let mut cases = vec![];
        for (f, g, m) in [(s.enc_ber, s.build_ber, Mode::Ber), (s.enc_der, s.build_der, Mode::Der)] {
            if let Some(Ok(Some(x))) = f.map(|f| guard(|| f(b, TagAs(2, 1)))) {
                cases.push((x, m));
            }
            if k == Kind::Der {
                match g.map(|g| guard(|| g(orig, TagAs(2, 1)))) {
                    Some(Ok(Some(x))) => {
                        c.hit("built");
                        c.check(x.0 == *orig, || format!("built-value/{}", s.name), || format!("built from {orig:?}: {:?}", x.0), b);
                        cases.push((x, m));
                    }
                    Some(Err(p)) => c.viol(format!("encode-panic/{}", s.name), format!("{orig:?}: {p}"), b),
                    _ => {}
                }
            }
        }
        for ((v, e), enc_mode) in cases {
            let name = if enc_mode == Mode::Ber { "ber" } else { "der" };
            let v = match utc_val(&s.s, &v) {
                Some(v) => v,
                None => {
                    c.hit("no-utc-form");
                    continue;
                }
            };
            let Ok(bytes) = e.vec else {
                c.hit("encoder-error");
                // a value that was decoded from a canonical encoding must be encodable
                let e2 = expect(&s.s, Shape::Plain, Mode::Der, b);
                if e2.r.is_ok() && e2.cx.tolerated.is_empty() {
                    c.viol(format!("cannot-encode/{}/{name}", s.name), format!("{v:?}: {:?}", e.vec), b);
                }
                continue;
            };
            c.hit(if enc_mode == Mode::Ber { "encoded-ber" } else { "encoded-der" });
            let v = if enc_mode == Mode::Der { fam::der_order(&s.s, v) } else { v };
            for d in s.decs.iter().filter(|d| d.shape == Shape::Plain && (d.mode == Mode::Ber || enc_mode == Mode::Der)) {
                c.checks += 1;
                match guard(|| (d.f)(&bytes)).map(|o| (o.out, o.msg)) {
                    Ok((Out::Ok(v2, n), _)) => {
                        if v2 != v {
                            c.viol(format!("roundtrip-value/{}/{name}/{}", s.name, d.api), format!("{v:?} encoded as {} decodes as {v2:?}", hex(&bytes)), b);
                        } else if n != bytes.len() {
                            c.viol(format!("roundtrip-length/{}/{name}/{}", s.name, d.api), format!("{} octets written, {n} decoded: {}", bytes.len(), hex(&bytes)), b);
                        } else {
                            c.hit("round-trip");
                        }
                    }
                    other => c.viol(format!("roundtrip-rejected/{}/{name}/{}", s.name, d.api), format!("{v:?} encoded as {} is not decoded: {other:?}", hex(&bytes)), b),
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C07
fn enc_consistent(c: &mut Ctx, s: &Subject, name: &str, v: &Val, e: &EncOut, b: &[u8]) {
    let Ok(vec) = &e.vec else {
        // an encoder that fails must fail through every entry point
        c.check(e.write.is_err() && e.encode.is_err(), || format!("error-disagrees/{}/{name}", s.name), || format!("{v:?}: {e:?}"), b);
        return;
    };
    let mut ck = |ok: bool, what: &str| {
        c.check(ok, || format!("{what}/{}/{name}", s.name), || format!("{v:?}: {e:?}"), b);
    };
    ck(e.write.as_ref().is_ok_and(|(n, w)| *n == w.len() && w == vec), "write");
    ck(e.encode.as_ref().is_ok_and(|(n, w)| *n == w.len() && w == vec), "encode");
    match (&e.header, &e.content) {
        (Ok((hn, h)), Ok((cn, cc))) => {
            ck(*hn == h.len(), "header-count");
            ck(*cn == cc.len(), "content-count");
            // transparent values (absent options, choices) write themselves as a whole
            ck([h.as_slice(), cc.as_slice()].concat() == *vec, "header-and-content");
            if let Some(l) = e.content_len {
                ck(l == cc.len(), "content-length");
            }
        }
        _ => ck(false, "parts"),
    }
    if let Some(l) = e.total_len {
        ck(l == vec.len(), "total-length");
    } else {
        ck(vec.len() >= 2 && vec.ends_with(&[0, 0]), "indefinite-total");
    }
}
/// what the value says of its tag, and what surrounds it when it is tagged
fn enc_framing(c: &mut Ctx, s: &Subject, name: &str, v: &Val, e: &EncOut, tg: TagAs, b: &[u8]) {
    let Ok(vec) = &e.vec else { return };
    let Ok(h) = crate::model::header(vec) else { return };
    let mut ck = |ok: bool, what: &str| {
        c.check(ok, || format!("{what}/{}/{name}", s.name), || format!("{tg:?} {v:?}: {e:?}"), b);
    };
    ck(e.info == (h.class, h.constructed, h.tag), "tag-info");
    ck(e.by_ref.is_none(), "by-reference");
    if let Some(t) = s.tagged {
        ck(e.info == t, "tagged-constants");
    }
    if h.len.is_none() {
        return;
    }
    if let Ok((_, x)) = &e.expl {
        let mut want = vec![];
        put_ident(tg.0, true, tg.1, &mut want);
        put_len(vec.len(), &mut want);
        want.extend_from_slice(vec);
        ck(*x == want, "explicit-framing");
    }
    // an untagged CHOICE, ANY and explicitly tagged values have no tag that could be replaced
    if let (Ok((_, x)), Ok((_, content))) = (&e.impl_, &e.content) {
        let mut want = vec![];
        put_ident(tg.0, h.constructed, tg.1, &mut want);
        put_len(content.len(), &mut want);
        want.extend_from_slice(content);
        ck(*x == want, "implicit-framing");
    }
}
fn c07(c: &mut Ctx) {
    encapi::indefinite(c);
    let subs = all_subjects();
    let tagged: Vec<&Subject> = subs.iter().filter(|s| s.tagged.is_some()).collect();
    sweep(c, 70, &tagged, 20, &[Kind::Der], &mut |c, s, _v, _k, b, _r| {
        let Ok(h) = crate::model::header(b) else { return };
        c.check(s.tagged == Some((h.class, h.constructed, h.tag)), || format!("tagged-constants/{}", s.name), || format!("{:?}", s.tagged), b);
    });
    let refs: Vec<&Subject> = subs.iter().filter(|s| s.enc_ber.is_some() || s.enc_der.is_some()).collect();
    let per = c.n(2000, 5000);
    sweep(c, 7, &refs, per, &[Kind::Der, Kind::Ber, Kind::Hostile], &mut |c, s, orig, k, b, r| {
        note(c, s, b);
        c.sample(|| format!("{} {}", s.name, hex(b)));
        // values built from their parts
        for (g, name) in [(s.build_ber, "ber"), (s.build_der, "der")] {
            let tg = TagAs(r.below(4) as u8, gen_tag(r));
            let Some(Ok(Some((v, e)))) = g.filter(|_| k == Kind::Der).map(|g| guard(|| g(orig, tg))) else { continue };
            c.hit("built");
            enc_consistent(c, s, name, &v, &e, b);
            enc_framing(c, s, name, &v, &e, tg, b);
        }
        for (f, ff, name) in [(s.enc_ber, s.fault_ber, "ber"), (s.enc_der, s.fault_der, "der")] {
            let (Some(f), Some(ff)) = (f, ff) else { continue };
            let tg = TagAs(r.below(4) as u8, gen_tag(r));
            let Ok(Some((v, e))) = guard(|| f(b, tg)) else { continue };
            c.hit("encoded");
            enc_consistent(c, s, name, &v, &e, b);
            enc_framing(c, s, name, &v, &e, tg, b);
            for (k, x) in [("explicit", &e.expl), ("implicit", &e.impl_)] {
                if let Ok((n, w)) = x {
                    c.check(*n == w.len(), || format!("tagged-count:{k}/{}/{name}", s.name), || format!("{v:?}: returns {n}, wrote {}", hex(w)), b);
                }
            }
            let Ok(full) = &e.vec else { continue };
            // writers that take little at a time, get interrupted, or fail at some point
            for _ in 0..3 {
                let limit = if r.chance(1, 3) { None } else { Some(r.below(full.len() + 2)) };
                let chunk = *r.pick(&[1usize, 2, 3, 7, 1000]);
                let intr = *r.pick(&[0usize, 0, 2, 3]);
                let mut w = FaultW::new(limit, chunk, intr);
                let Ok(Some(res)) = guard(|| ff(b, &mut w)) else {
                    c.viol(format!("fault-panic/{}/{name}", s.name), format!("{v:?} limit {limit:?}"), b);
                    continue;
                };
                let written = &w.buf;
                // hashed sets are decoded anew here, and iterate in another order
                let unordered = s.name.starts_with("HashSet") || s.name == "AnySet";
                let same = if unordered { written.len() == full.len() } else { written == full };
                let prefix = if unordered { written.len() <= full.len() } else { full.starts_with(written) };
                let d = || format!("{v:?} limit {limit:?} chunk {chunk} interrupts {intr}: {res:?}, written {}, full {}", hex(written), hex(full));
                match &res {
                    Ok(n) => {
                        c.hit("writer-success");
                        c.check(!w.failed && same, || format!("fault-silent/{}/{name}", s.name), d, b);
                        c.check(*n == full.len(), || format!("fault-count/{}/{name}", s.name), d, b);
                    }
                    Err(_) => {
                        c.hit("writer-failure");
                        c.check(w.failed, || format!("fault-spurious/{}/{name}", s.name), d, b);
                        c.check(prefix, || format!("fault-prefix/{}/{name}", s.name), d, b);
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C08
fn c08(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().filter(|s| s.enc_der.is_some()).collect();
    let per = c.n(3000, 9000);
    sweep(c, 8, &refs, per, &[Kind::Der, Kind::Ber, Kind::Indef, Kind::Hostile], &mut |c, s, orig, k, b, r| {
        note(c, s, b);
        c.sample(|| format!("{} {}", s.name, hex(b)));
        let f = s.enc_der.unwrap();
        // a value built from its parts has the canonical encoding too
        if let Some(Ok(Some((v, e)))) = s.build_der.filter(|_| k == Kind::Der).map(|g| guard(|| g(orig, TagAs(2, gen_tag(r))))) {
            if let (Ok(bytes), Some(v)) = (e.vec, utc_val(&s.s, &v)) {
                c.hit("built");
                if let Ok(want) = guard(|| der(&s.s, &v)) {
                    let kind = fam::canon_kind(&s.s, &v, &bytes, &want);
                    c.check(kind.is_none(), || format!("{}/{}", kind.unwrap_or(""), s.name), || format!("{v:?} encoded as {}, canonical {}", hex(&bytes), hex(&want)), b);
                }
            }
        }
        let Ok(Some((v, e))) = guard(|| f(b, TagAs(2, gen_tag(r)))) else { return };
        let Ok(bytes) = e.vec else { return };
        let Some(v) = utc_val(&s.s, &v) else { return };
        c.hit("encoded");
        // the one canonical encoding of that value
        let want = guard(|| der(&s.s, &v));
        let Ok(want) = want else { return };
        let kind = fam::canon_kind(&s.s, &v, &bytes, &want);
        c.check(kind.is_none(), || format!("{}/{}", kind.unwrap_or(""), s.name), || format!("{v:?} encoded as {}, canonical {}", hex(&bytes), hex(&want)), b);
        if k == Kind::Der && matches!(kind, None | Some("canonical")) {
            c.hit("identity-case");
            c.check(bytes == b, || format!("identity/{}", s.name), || format!("canonical {} re-encoded as {}", hex(b), hex(&bytes)), b);
        }
    });
}

// ---------------------------------------------------------------- C09
fn c09(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().filter(|s| s.decs.iter().any(|d| d.mode == Mode::Der)).collect();
    let per = c.n(1500, 3000);
    let kinds = &[Kind::Noncanon, Kind::Noncanon, Kind::Ber, Kind::Indef, Kind::Tree, Kind::Hostile, Kind::Der];
    sweep(c, 9, &refs, per, kinds, &mut |c, s, _v, _k, b, _r| {
        if let Err(Rej::Bad(x)) = expect(&s.s, Shape::Plain, Mode::Der, b).r {
            if x.starts_with("der-") {
                c.hit(x);
            }
        }
        diff_case(c, s, b, &|m| {
            m.mode == Mode::Der && ((m.kind == "accepts" && m.reason.starts_with("der-")) || m.kind == "tolerated" || m.kind == "rejects")
        });
    });
}

// ---------------------------------------------------------------- C20
fn c20(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().filter(|s| s.decs.iter().any(|d| d.mode == Mode::Der) && s.decs.iter().any(|d| d.mode == Mode::Ber)).collect();
    let per = c.n(2000, 3000);
    sweep(c, 20, &refs, per, ALL, &mut |c, s, _v, _k, b, _r| {
        note(c, s, b);
        c.sample(|| format!("{} {}", s.name, hex(b)));
        for d in s.decs.iter().filter(|d| d.mode == Mode::Der) {
            let Ok(DecOut { out: Out::Ok(v, n), .. }) = guard(|| (d.f)(b)) else { continue };
            c.hit("accepted-by-der");
            for e in s.decs.iter().filter(|e| e.mode == Mode::Ber && e.shape == d.shape) {
                let o = guard(|| (e.f)(b)).map(|o| (o.out, o.msg));
                c.check(
                    matches!(&o, Ok((Out::Ok(v2, n2), _)) if *v2 == v && *n2 == n),
                    || format!("der-not-ber/{}/{}/{}", s.name, d.api, e.api),
                    || format!("{} gives {v:?} ({n} octets), {} gives {o:?}", d.api, e.api),
                    b,
                );
            }
        }
    });
}

// ---------------------------------------------------------------- C21
fn c21(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().collect();
    let per = c.n(2000, 3000);
    sweep(c, 21, &refs, per, ALL, &mut |c, s, _v, _k, b, _r| {
        note(c, s, b);
        c.sample(|| format!("{} {}", s.name, hex(b)));
        let outs: Vec<(&Dec, Out)> = s.decs.iter().filter_map(|d| guard(|| (d.f)(b)).ok().map(|o| (d, o.out))).collect();
        for m in [Mode::Ber, Mode::Der] {
            let mut base: Option<(&Dec, &Out)> = None;
            for (d, o) in outs.iter().filter(|(d, _)| d.mode == m && d.shape == Shape::Plain) {
                let Some((d0, o0)) = base else {
                    base = Some((d, o));
                    continue;
                };
                let same = match (o0, o) {
                    (Out::Ok(a, n), Out::Ok(b, k)) => a == b && n == k,
                    (Out::Ok(..), _) | (_, Out::Ok(..)) => false,
                    _ => true,
                };
                if same {
                    c.hit(if matches!(o, Out::Ok(..)) { "agree-accept" } else { "agree-reject" });
                }
                c.check(same, || format!("disagree/{}/{}/{}", s.name, d0.api, d.api), || format!("{} gives {o0:?}, {} gives {o:?}", d0.api, d.api), b);
            }
            // optional: Some(v) exactly when the value itself decodes; absent consumes nothing
            // (objects of another class are absent optionals, though untagged types accept them: see C25)
            let other_class = header(b).is_ok_and(|h| accepts(&s.s, &h) == Acc::ClassOnly);
            let absent = b.is_empty() || header(b).is_ok_and(|h| accepts(&s.s, &h) != Acc::Yes);
            if let Some((dp, op)) = base {
                for (d, o) in outs.iter().filter(|(d, _)| d.mode == m && d.shape == Shape::Opt) {
                    let ok = match (o, op) {
                        (Out::Ok(Val::Opt(Some(x)), n), Out::Ok(y, k)) => **x == *y && n == k,
                        (Out::Ok(Val::Opt(None), n), Out::Ok(y, k)) => *n == 0 && (other_class || (*k == 0 && *y == Val::Opt(None))),
                        // the value does not decode: absent only when the octets are another object's
                        (Out::Ok(Val::Opt(None), n), _) => *n == 0 && absent,
                        (Out::Ok(..), _) => false,
                        (_, Out::Ok(..)) => false,
                        _ => true,
                    };
                    c.check(ok, || format!("optional/{}/{}/{}", s.name, dp.api, d.api), || format!("{} gives {op:?}, {} gives {o:?}", dp.api, d.api), b);
                }
                for (d, o) in outs.iter().filter(|(d, _)| d.mode == m && d.shape == Shape::AsInput) {
                    let ok = match (o, op) {
                        (Out::Ok(_, n), Out::Ok(_, k)) => n == k || (other_class && *k == 0),
                        (_, Out::Ok(_, k)) => *k == 0,
                        _ => true,
                    };
                    c.check(ok, || format!("as-input/{}/{}/{}", s.name, dp.api, d.api), || format!("{} gives {op:?}, {} gives {o:?}", dp.api, d.api), b);
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C25
fn c25(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().collect();
    let per = c.n(2500, 3000);
    sweep(c, 25, &refs, per, &[Kind::Retag, Kind::Retag, Kind::Retag, Kind::Tree, Kind::Wild], &mut |c, s, _v, _k, b, _r| {
        if let Err(Rej::Bad(x)) = expect(&s.s, Shape::Plain, Mode::Ber, b).r {
            c.hit(x);
        }
        diff_case(c, s, b, &|m| m.kind == "accepts" && (matches!(m.reason.as_str(), "tag" | "class" | "class-tagged" | "class-choice") || m.reason.starts_with("must-be") || m.reason.starts_with("segment")));
    });
}

fn generic(v: &mut Vec<Prop>) {
    let mut add = |id, run: fn(&mut Ctx), rule, required| v.push(Prop { id, shards: 32, run, rule, required, assumptions: A_GEN });
    add("C01", c01 as fn(&mut Ctx), "a case is one octet string given to one type; non-trivial when it starts with a well-formed header; distinct by type and octets", &[("formatted", 10000), ("encoded-der", 10000), ("compared", 10000), ("owned-copy", 1000), ("wild", 1000)]);
    add("C02", c02, "a case is one octet string followed by several tails; distinct by type and octets", &[("accepted", 10000), ("trailing-octets", 1000), ("remainder-tail", 1000), ("remainder-content-left", 1000), ("remainder-tagged", 1000)]);
    add("C03", c03, "a case is a proper prefix of a valid encoding, or the whole; distinct by type and octets", &[("prefix", 10000)]);
    add("C04", frame::c04, "a case is one header (identifier and length octets), content extraction, length sum or encoder header; distinct by octets", &[("content-extracted", 1000), ("length-arithmetic", 1000), ("encoder-header", 1000), ("header-minimal", 1000), ("header-nonminimal", 1000), ("header-invalid", 1000), ("header-truncated", 1000)]);
    add("C05", c05, "a case is one nesting of definite and indefinite forms; distinct by type and octets", &[("indefinite-input", 1000), ("nesting-depth-case", 100)]);
    add("C06", c06, "a case is one value, reached by decoding or built from its parts; distinct by type and value's encoding", &[("round-trip", 10000), ("encoded-der", 1000)]);
    add("C07", c07, "a case is one value and one writer (whole, chunked, interrupted, failing at a position); distinct by type and encoding", &[("encoded", 10000), ("writer-failure", 10000), ("writer-success", 10000)]);
    add("C08", c08, "a case is one value, reached by decoding or built from its parts; distinct by type and encoding", &[("encoded", 10000), ("identity-case", 1000)]);
    add("C09", c09, "a case is one encoding, canonical or with a known deviation from DER; distinct by type and octets", &[("non-canonical", 1000), ("canonical", 1000), ("der-indefinite", 100), ("der-constructed-string", 100), ("der-int-nonminimal", 100), ("der-bool", 100)]);
    add("C10", fam::c10, "a case is one encoding or one number given to the conversions; distinct by type and octets", &[("reference-accepts", 10000), ("reference-rejects", 10000), ("api-integer", 1000), ("from-i128", 1000), ("from-u64", 1000), ("encoded", 10000)]);
    add("C11", fam::c11, "a case is one encoding, or one string and the arguments of its constructors; distinct by type and octets", &[("reference-accepts", 10000), ("reference-rejects", 10000), ("bits-unaligned", 1000), ("encoded", 10000)]);
    add("C12", fam::c12, "a case is one encoding, one text or one character; distinct by type and octets", &[("reference-accepts", 10000), ("reference-rejects", 10000), ("characters", 1000), ("octets-accepted", 1000), ("octets-rejected", 1000), ("encoded", 10000)]);
    add("C13", fam::c13, "a case is one encoding, component list or text; distinct by octets", &[("reference-accepts", 10000), ("oid-from-components", 1000), ("oid-relative", 1000), ("text-accepted", 1000), ("text-rejected", 1000), ("oid-constants", 1)]);
    add("C14", fam::c14, "a case is one encoding, time string or component tuple; distinct by octets", &[("reference-accepts", 10000), ("reference-rejects", 10000), ("gentime-accepted", 1000), ("utctime-accepted", 1000), ("components-encoded", 1000), ("components-refused", 1000)]);
    add("C15", fam::c15, "a case is one encoding, or one (mantissa, base, exponent) or float; distinct by octets", &[("reference-accepts", 10000), ("reference-rejects", 10000), ("real-binary", 1000), ("real-base-8", 1000), ("real-base-16", 1000), ("real-decimal", 1000)]);
    add("C16", fam::c16, "a case is one encoding of a tagged type or one call of the tagged-value API; distinct by type and octets", &[("tagged-value", 1000), ("tagged-accepted", 1000), ("tagged-rejected", 1000), ("optional-present", 1000), ("optional-absent", 1000), ("optional-error", 1000)]);
    add("C17", fam::c17, "a case is one encoding (valid, edited or malformed) of a derived structure; distinct by type and octets", &[("parser-accepted", 500), ("parser-refused", 500), ("parser-own-error", 50), ("reference-accepts", 10000), ("reference-rejects", 10000), ("structural-edit", 1000), ("encoded", 10000)]);
    add("C18", fam::c18, "a case is one encoding of a derived choice, enumeration or newtype; distinct by type and octets", &[("reference-accepts", 10000), ("reference-rejects", 10000), ("other-identifier", 1000), ("encoded", 10000)]);
    add("C19", fam::c19, "a case is one list of elements, possibly edited, or one history of container operations; distinct by type and octets", &[("list-clean", 1000), ("list-error-after-items", 1000), ("list-error-first", 1000), ("history-SetOf", 1000), ("history-AnySequence", 1000), ("reference-accepts", 10000)]);
    add("C20", c20, "a case is one octet string given to the DER and BER decoders of a type; distinct by type and octets", &[("accepted-by-der", 10000)]);
    add("C21", c21, "a case is one octet string given to all entry points of a type; distinct by type and octets", &[("agree-accept", 10000), ("agree-reject", 10000)]);
    add("C22", laws::c22, "a case is one decoded or constructed value that is copied; distinct by type and encoding", &[("owned-decoded", 1000), ("owned-structures", 1000), ("owned-oid", 1000), ("owned-header", 1000)]);
    add("C23", laws::c23, "a case is one pool of encodings of one type; verdicts are pairs and triples of its values; distinct by type and encoding", &[("different-pair", 1000), ("equal-pair", 1000), ("hash-of-equal", 1000), ("ordered-pair", 1000), ("cloned", 1000)]);
    add("C24", span::c24, "a case is one octet string decoded from a non-zero position, or one splitting of an input; distinct by type and octets", &[("element", 1000), ("captured", 1000), ("error-position", 1000), ("capture-error", 1000), ("content", 1000)]);
    add("C25", c25, "a case is one encoding with another identifier; distinct by type and octets", &[("tag", 1000), ("class-tagged", 1000), ("class-choice", 1000), ("must-be-primitive", 1000), ("must-be-constructed", 1000), ("segment-type", 1000)]);
    add(
        "C27",
        feat::c27,
        "a case is one octet string given to all entry points of one type in every build; distinct by type and octets",
        &[("feature-set", 10), ("transcript-with-encodings", 10000), ("transcript-without-std", 10000)],
    );
    add("C28", anyapi::c28, "a case is one element captured, re-encoded, edited and converted; distinct by octets", &[("converted", 1000), ("not-converted", 1000), ("tagged", 1000), ("optional-present", 1000), ("and-then", 1000), ("any-string", 1000), ("long-tag", 1000), ("not-an-element", 1000)]);
    add("C29", errs::c29, "a case is one refused input of a type, one error converted, or one structure with a spoiled component; distinct by type and octets", &[("reason-true", 10000), ("integer-reason", 1000), ("api-error-conversion", 1000), ("custom-refused", 1000), ("custom-accepted", 100)]);
    add("C26", res::c26, "a case is one input decoded (and its value encoded) under measurement, or one large input in a bounded stack; distinct by type and octets", &[("measured", 10000), ("claimed-length", 1000), ("large: nested indefinite", 10)]);
}

//! Per-family codec checks: every entry point against the reference, and encoding of reference values.
use super::*;

/// Is `b` one element whose direct children are those of `a` in another order?
fn reordered(a: &[u8], b: &[u8]) -> bool {
    fn kids(b: &[u8]) -> Option<(u8, bool, u32, Vec<Vec<u8>>)> {
        let h = header(b).ok()?;
        let n = h.len?;
        if !h.constructed || h.hl + n != b.len() {
            return None;
        }
        let mut p = h.hl;
        let mut v = vec![];
        while p < b.len() {
            let k = header(&b[p..]).ok()?;
            let e = p.checked_add(k.hl)?.checked_add(k.len?)?;
            v.push(b.get(p..e)?.to_vec());
            p = e;
        }
        v.sort();
        if h.tag == 17 {
            v.dedup();
        }
        Some((h.class, h.constructed, h.tag, v))
    }
    a != b && kids(a).is_some() && kids(a) == kids(b)
}

/// A base-10 REAL in the form the library writes: digits without trailing zero, `E`, exponent, no decimal point
fn decimal_real(b: &[u8]) -> bool {
    let Ok(h) = header(b) else { return false };
    if b[0] != 9 || h.len != Some(b.len() - h.hl) || b.get(h.hl) != Some(&3) {
        return false;
    }
    let Ok(t) = std::str::from_utf8(&b[h.hl + 1..]) else { return false };
    let t = t.strip_prefix('-').unwrap_or(t);
    let Some((m, e)) = t.split_once('E') else { return false };
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit()) && !x.starts_with('0');
    digits(m) && (e == "+0" || digits(e.strip_prefix('-').unwrap_or(e)))
}

/// How a DER encoding differs from the canonical one
pub fn canon_kind(s: &S, v: &Val, bytes: &[u8], want: &[u8]) -> Option<&'static str> {
    if bytes == want {
        return None;
    }
    if matches!(s, S::SetList(_) | S::SetSet(_)) && reordered(bytes, want) {
        return Some("set-order");
    }
    if matches!(s, S::Real | S::F32) && decimal_real(bytes) {
        return Some("decimal-form");
    }
    if matches!(s, S::Real) && bytes.len() > 2 && bytes[2] & 0x80 != 0 && bytes[2] & 0x3c != 0 {
        return Some("real-encoding-base");
    }
    if let (S::Real, Val::Real(x)) = (s, v) {
        // a number that a float cannot hold, or not with all its digits
        let x = f64::from_bits(*x);
        if bytes.len() > 2 && bytes[2] & 0x80 != 0 && (x.is_infinite() || x.abs() < f64::MIN_POSITIVE) {
            return None;
        }
    }
    if let S::Struct { set, fields } = s {
        if fields.iter().any(|f| f.default.is_some()) {
            // the same with all default values written out
            let f2: Vec<Field> = fields
                .iter()
                .map(|f| {
                    let mut f = f.clone();
                    if f.default.is_some() {
                        f.default = None;
                        f.opt = false;
                    }
                    f
                })
                .collect();
            if bytes == der(&S::Struct { set: *set, fields: f2 }, v) {
                return Some("default-value-encoded");
            }
        }
    }
    Some("canonical")
}

/// Findings that belong to the properties on canonical form and on identifiers
pub fn foreign(m: &Mis) -> bool {
    matches!(m.reason.as_str(), "class" | "der-nonminimal-length" | "der-nonminimal-tag")
}

pub const FAM_KINDS: &[Kind] = &[
    Kind::Der, Kind::Ber, Kind::Mut, Kind::Tree, Kind::Hostile, Kind::Hostile, Kind::Hostile, Kind::Trunc, Kind::Retag, Kind::Indef, Kind::Noncanon,
];

/// Differential sweep over the subjects of a family, with encoding of the decoded values.
pub fn family(c: &mut Ctx, salt: u64, per: usize, pick: &dyn Fn(&Subject) -> bool) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().filter(|s| pick(s)).collect();
    assert!(!refs.is_empty());
    sweep(c, salt, &refs, per, FAM_KINDS, &mut |c, s, v, k, b, r| {
        diff_case(c, s, b, &|m| !foreign(m) && m.kind != "tolerated");
        let e = expect(&s.s, Shape::Plain, Mode::Ber, b);
        c.hit(match &e.r {
            Ok(_) => "reference-accepts",
            Err(Rej::Bad(_)) => "reference-rejects",
            Err(Rej::Incomplete) => "reference-incomplete",
            Err(Rej::Unspec(_)) => "reference-silent",
        });
        encode_case(c, s, v, k, b, r);
    });
}

/// Encoders on one decodable input: what is written is an encoding of that value (canonical with the DER encoder)
pub fn encode_case(c: &mut Ctx, s: &Subject, v: &Val, k: Kind, b: &[u8], r: &mut Rng) {
    for (f, name) in [(s.enc_ber, "ber"), (s.enc_der, "der")] {
        let Some(f) = f else { continue };
        let Ok(Some((got, e))) = guard(|| f(b, TagAs(r.below(4) as u8, gen_tag(r)))) else { continue };
        if k == Kind::Der {
            c.check(got == *v, || format!("decoded-value/{}/{name}", s.name), || format!("{v:?} decodes as {got:?}"), b);
        }
        let Some(want) = utc_val(&s.s, &got) else { continue };
        let Ok(bytes) = e.vec else {
            let e2 = expect(&s.s, Shape::Plain, Mode::Der, b);
            c.check(e2.r.is_err() || !e2.cx.tolerated.is_empty(), || format!("cannot-encode/{}/{name}", s.name), || format!("{got:?}: {:?}", e.vec), b);
            continue;
        };
        c.hit("encoded");
        if name == "der" {
            if let Ok(w) = guard(|| der(&s.s, &want)) {
                let kind = canon_kind(&s.s, &want, &bytes, &w);
                // these three are reported (as known) by the property on canonical form
                let other = matches!(kind, Some("set-order" | "decimal-form" | "real-encoding-base" | "default-value-encoded"));
                c.check(kind.is_none() || other, || format!("encoding/{}/{name}", s.name), || format!("{got:?} encoded as {}, canonical {}", hex(&bytes), hex(&w)), b);
            }
        }
        let mode = if name == "ber" { Mode::Ber } else { Mode::Der };
        let want = if name == "der" { der_order(&s.s, want) } else { want };
        let x = expect(&s.s, Shape::Plain, mode, &bytes);
        match &x.r {
            Ok((v2, n)) => _ = c.check(*v2 == want && *n == bytes.len(), || format!("encoded-value/{}/{name}", s.name), || format!("{got:?} encoded as {}, which is {v2:?} ({n} octets)", hex(&bytes)), b),
            Err(Rej::Unspec(_)) => {}
            Err(e) => c.viol(format!("encoded-invalid/{}/{name}", s.name), format!("{got:?} encoded as {}: {e:?}", hex(&bytes)), b),
        }
    }
}

/// DER writes the components of a SET OF in a fixed order
pub fn der_order(s: &S, v: Val) -> Val {
    match (s, &v) {
        (S::Tag(_, _, _, i), Val::Tagged(..)) => match v {
            Val::Tagged(a, b, x) => Val::Tagged(a, b, Box::new(der_order(i, *x))),
            v => v,
        },
        (S::SetList(_), Val::Seq(x)) if x.len() > 1 => expect(s, Shape::Plain, Mode::Ber, &der(s, &v)).r.map(|(v, _)| v).unwrap_or(v),
        _ => v,
    }
}

fn leaf(s: &S, p: &dyn Fn(&S) -> bool) -> bool {
    match s {
        S::Opt(i) | S::Tag(_, _, _, i) | S::AnyTag(_, i) | S::Alias(i) | S::SeqOf(i) | S::SetList(i) | S::SetSet(i) | S::Arr(i, _) => leaf(i, p),
        s => p(s),
    }
}

pub fn c10(c: &mut Ctx) {
    let n = c.n(3000, 30000);
    family(c, 10, n, &|s| leaf(&s.s, &|x| matches!(x, S::Int(_) | S::Bool | S::Null | S::Enumerated)) && !matches!(s.s, S::SeqOf(_) | S::SetList(_) | S::SetSet(_) | S::Arr(..)));
    super::api::integers(c);
}
pub fn c11(c: &mut Ctx) {
    let n = c.n(8000, 200000);
    family(c, 11, n, &|s| leaf(&s.s, &|x| matches!(x, S::BitStr | S::OctStr)) && !matches!(s.s, S::SetList(_) | S::SetSet(_)));
    super::api::bit_octet(c);
}
pub fn c12(c: &mut Ctx) {
    let n = c.n(5000, 100000);
    family(c, 12, n, &|s| matches!(s.s, S::Str(_)));
    super::api::strings(c);
}
pub fn c13(c: &mut Ctx) {
    let n = c.n(30000, 400000);
    family(c, 13, n, &|s| leaf(&s.s, &|x| matches!(x, S::Oid | S::RelOid)) && !matches!(s.s, S::SetList(_) | S::SetSet(_)));
    super::api::oids(c);
}
pub fn c14(c: &mut Ctx) {
    let n = c.n(60000, 600000);
    family(c, 14, n, &|s| leaf(&s.s, &|x| matches!(x, S::Utc | S::Gen)));
    super::api::times(c);
}
pub fn c15(c: &mut Ctx) {
    let n = c.n(30000, 400000);
    family(c, 15, n, &|s| leaf(&s.s, &|x| matches!(x, S::Real | S::F32)));
    super::api::reals(c);
}
pub fn c16(c: &mut Ctx) {
    let n = c.n(4000, 100000);
    family(c, 16, n, &|s| matches!(s.s, S::Tag(..) | S::AnyTag(..)));
    super::tagapi::tagged(c);
    super::encapi::helpers(c);
}
pub fn c17(c: &mut Ctx) {
    let n = c.n(6000, 60000);
    family(c, 17, n, &|s| matches!(s.s, S::Struct { .. }));
    super::parsers::custom_parsers(c);
}
pub fn c18(c: &mut Ctx) {
    let n = c.n(10000, 100000);
    family(c, 18, n, &|s| matches!(s.s, S::Choice(..) | S::EnumT(_) | S::Alias(_)));
}
pub fn c19(c: &mut Ctx) {
    let n = c.n(6000, 60000);
    family(c, 19, n, &|s| matches!(s.s, S::SeqOf(_) | S::Arr(..) | S::SetList(_) | S::SetSet(_) | S::Tuple(_) | S::RawSeq | S::RawSet | S::Any | S::Opt(_) | S::Eoc));
    super::collapi::collections(c);
}

//! Workload generation: values of a type description, their canonical DER encoding, alternative BER encodings,
//! structure-aware damage, exhaustive short inputs.
use crate::model::*;
use crate::rng::Rng;

pub fn gen_int(r: &mut Rng, k: IntK) -> Vec<u8> {
    match k {
        IntK::Big => match r.below(6) {
            0 => int_i128(r.range(0, 600) as i128 - 300),
            1 => {
                // around powers of 256
                let n = r.range(1, 20);
                let mut v = vec![0u8; n];
                v[0] = *r.pick(&[0x7f, 0x80, 0x81, 0xff, 0x01, 0x40]);
                if r.chance(1, 2) {
                    v.insert(0, if r.chance(1, 2) { 0 } else { 0xff });
                }
                min_int(&v)
            }
            2 => {
                let n = r.len(300).max(1);
                min_int(&r.bytes(n))
            }
            _ => {
                let n = r.range(1, 18);
                min_int(&r.bytes(n))
            }
        },
        IntK::U(bits) => {
            let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
            let v = match r.below(5) {
                0 => r.below(300) as u128 & max,
                1 => max - (r.below(3) as u128),
                2 => {
                    let b = r.below(bits as usize);
                    (1u128 << b).wrapping_add((r.below(3) as u128).wrapping_sub(1)) & max
                }
                _ => {
                    let x = ((r.next() as u128) << 64) | r.next() as u128;
                    (x >> r.below(128)) & max
                }
            };
            int_u128(v)
        }
        IntK::I(bits) => {
            let lo = if bits == 128 { i128::MIN } else { -(1i128 << (bits - 1)) };
            let hi = if bits == 128 { i128::MAX } else { (1i128 << (bits - 1)) - 1 };
            let v = match r.below(6) {
                0 => r.range(0, 200) as i128 - 100,
                1 => lo + r.below(3) as i128,
                2 => hi - r.below(3) as i128,
                3 => {
                    let b = r.below(bits as usize - 1);
                    let x = (1i128 << b) + r.range(0, 2) as i128 - 1;
                    if r.chance(1, 2) { -x } else { x }
                }
                _ => {
                    let x = (((r.next() as u128) << 64) | r.next() as u128) as i128;
                    x >> r.below(128)
                }
            };
            int_i128(v.clamp(lo, hi))
        }
    }
}

pub fn gen_string(r: &mut Rng, k: StrK) -> String {
    let n = r.len(300);
    let ascii = |r: &mut Rng, f: &dyn Fn(u8) -> bool| -> String {
        (0..n)
            .map(|_| loop {
                let c = (r.u8()) & 0x7f;
                if f(c) {
                    break c as char;
                }
            })
            .collect()
    };
    match k {
        StrK::Utf8 => (0..n)
            .map(|_| match r.below(6) {
                0 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(),
                1 => char::from_u32(r.range(0x800, 0xd7ff) as u32).unwrap(),
                2 => char::from_u32(r.range(0x10000, 0x10ffff) as u32).unwrap(),
                _ => (r.u8() & 0x7f) as char,
            })
            .collect(),
        StrK::Numeric => ascii(r, &|c| c.is_ascii_digit() || c == b' '),
        StrK::Printable => ascii(r, &|c| c.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(&c)),
        StrK::Ia5 => ascii(r, &|_| true),
        StrK::Visible | StrK::Teletex | StrK::Videotex | StrK::Graphic | StrK::General | StrK::ObjDesc => ascii(r, &|c| (0x20..0x7f).contains(&c)),
        StrK::Universal => (0..n)
            .map(|_| match r.below(3) {
                0 => (r.u8() & 0x7f) as char,
                1 => char::from_u32(r.range(0x80, 0xd7ff) as u32).unwrap(),
                _ => char::from_u32(r.range(0xe000, 0x10ffff) as u32).unwrap(),
            })
            .collect(),
        StrK::Bmp => (0..n)
            .map(|_| match r.below(3) {
                0 => (r.u8() & 0x7f) as char,
                1 => char::from_u32(r.range(0x80, 0xd7ff) as u32).unwrap(),
                _ => char::from_u32(r.range(0xe000, 0xffff) as u32).unwrap(),
            })
            .collect(),
    }
}

pub fn gen_arc(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(3) as u64,
        1 => 127 + r.below(3) as u64,
        2 => 16383 + r.below(3) as u64,
        3 => r.next() >> (1 + r.below(63)),
        4 => (1u64 << r.below(63)).wrapping_sub(r.below(2) as u64),
        _ => r.below(1000) as u64,
    }
}
pub fn put_arc(mut a: u128, out: &mut Vec<u8>) {
    let mut t = vec![(a & 0x7f) as u8];
    a >>= 7;
    while a > 0 {
        t.push((a & 0x7f) as u8 | 0x80);
        a >>= 7;
    }
    t.reverse();
    out.extend(t);
}
pub fn gen_arcs(r: &mut Rng) -> Vec<u64> {
    let first = r.below(3) as u64;
    let second = if first == 2 {
        match r.below(3) {
            0 => r.below(40) as u64,
            1 => 40 + r.below(1000) as u64,
            _ => gen_arc(r).min((u64::MAX >> 1) - 80),
        }
    } else {
        r.below(40) as u64
    };
    let mut v = vec![first, second];
    for _ in 0..r.len(12) {
        v.push(gen_arc(r));
    }
    v
}
pub fn oid_content(arcs: &[u64]) -> Vec<u8> {
    let mut o = vec![];
    put_arc(arcs[0] as u128 * 40 + arcs[1] as u128, &mut o);
    for a in &arcs[2..] {
        put_arc(*a as u128, &mut o);
    }
    o
}

pub fn gen_time(r: &mut Rng, utc: bool) -> Time {
    let y = if utc { r.below(100) as u32 } else { *r.pick(&[0, 1, 99, 100, 999, 1950, 1970, 1999, 2000, 2024, 2049, 2050, 9999]) + 0 };
    let y = if !utc && r.chance(1, 2) { r.below(10000) as u32 } else { y };
    let mo = r.range(1, 12) as u8;
    let dim = days_in_month(if utc { 2001 } else { y }, mo);
    Time {
        y,
        mo,
        d: if r.chance(1, 4) { dim } else { r.range(1, dim as usize) as u8 },
        h: *r.pick(&[0, 1, 9, 10, 12, 19, 20, 23]),
        mi: r.range(0, 59) as u8,
        s: *r.pick(&[0, 1, 9, 10, 30, 58, 59]),
        ms: if utc || r.chance(1, 2) { None } else { Some(*r.pick(&[1, 5, 9, 10, 50, 90, 99, 100, 101, 120, 123, 500, 990, 999]) as u16) },
        tz: Tz::Z,
    }
}

pub fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => *r.pick(&[0.0, 1.0, -1.0, 0.5, 2.0, 10.0, 0.1, 1e10, -1e-10, 3.5, 255.0, 256.0, 0.15625]),
        1 => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, f64::MIN, f64::EPSILON, 5e-324]),
        2 => r.range(0, 100000) as f64,
        3 => (r.range(0, 100000) as f64 - 50000.0) / 64.0,
        4 => f64::from_bits((r.next() & 0x800f_ffff_ffff_ffff) | ((1023 + r.below(100) as u64 - 50) << 52)),
        5 => {
            // few significant bits
            let m = r.range(1, 255) as f64;
            m * 2f64.powi(r.range(0, 600) as i32 - 300)
        }
        _ => loop {
            let x = f64::from_bits(r.next());
            if x.is_finite() {
                break x;
            }
        },
    }
}

/// bits of the value as (negative, odd mantissa, exponent)
pub fn real_parts(x: f64) -> (bool, u64, i32) {
    let b = x.to_bits();
    let neg = b >> 63 != 0;
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    if m == 0 {
        return (neg, 0, 0);
    }
    let z = m.trailing_zeros();
    m >>= z;
    e += z as i32;
    (neg, m, e)
}
pub fn real_content(x: f64) -> Vec<u8> {
    if x == 0.0 {
        return vec![];
    }
    if x.is_nan() {
        return vec![0x42];
    }
    if x.is_infinite() {
        return vec![if x > 0.0 { 0x40 } else { 0x41 }];
    }
    let (neg, m, e) = real_parts(x);
    let eb = int_i128(e as i128);
    let mut o = vec![0x80 | if neg { 0x40 } else { 0 } | (eb.len() as u8 - 1)];
    o.extend(eb);
    let mb = m.to_be_bytes();
    o.extend_from_slice(&mb[m.leading_zeros() as usize / 8..]);
    o
}

/// A random well-formed element (never universal 0)
pub fn gen_any(r: &mut Rng, depth: usize) -> Val {
    let class = *r.pick(&[0u8, 0, 0, 1, 2, 2, 3]);
    let constructed = depth > 0 && r.chance(1, 3);
    let tag = if class == 0 {
        if constructed { *r.pick(&[16, 17]) } else { *r.pick(&[1, 2, 4, 5, 6, 12, 19, 30]) }
    } else {
        gen_tag(r)
    };
    let mut c = vec![];
    if constructed {
        for _ in 0..r.below(4) {
            let v = gen_any(r, depth - 1);
            enc_der(&S::Any, &v, &mut c);
        }
    } else {
        let n = r.len(200);
        c = r.bytes(n);
    }
    Val::Any { class, constructed, tag, content: c }
}
pub fn gen_tag(r: &mut Rng) -> u32 {
    match r.below(8) {
        0..=3 => r.below(31) as u32,
        4 => *r.pick(&[30, 31, 32, 126, 127, 128, 129, 16383, 16384, 2097151, 2097152, 268435455, 268435456, u32::MAX, u32::MAX - 1]),
        5 => r.next() as u32,
        6 => (r.next() as u32) >> r.below(32),
        _ => r.below(200) as u32,
    }
}

/// under an IMPLICIT tag the identifier no longer tells OBJECT IDENTIFIER from RELATIVE-OID
fn gen_inner(k: TagKind, s: &S, r: &mut Rng, depth: usize) -> Val {
    match (k, s) {
        (TagKind::Impl, S::Oid) => Val::Oid(oid_content(&gen_arcs(r))),
        _ => gen_val(s, r, depth),
    }
}
pub fn gen_val(s: &S, r: &mut Rng, depth: usize) -> Val {
    let list = |r: &mut Rng, i: &S, d: usize| -> Vec<Val> {
        let n = match r.below(8) {
            0 => 0,
            1..=5 => r.range(1, 4),
            6 => r.range(0, 12),
            _ => if d >= 2 { r.range(0, 40) } else { 2 },
        };
        (0..n).map(|_| gen_val(i, r, d.saturating_sub(1))).collect()
    };
    match s {
        S::Bool => Val::Bool(r.chance(1, 2)),
        S::Int(k) => Val::Int(gen_int(r, *k)),
        S::Null => Val::Null,
        S::Enumerated => Val::Enum(match r.below(3) {
            0 => r.below(10) as u32,
            1 => *r.pick(&[127, 128, 255, 256, 32767, 32768, 0x7fffff, 0x800000, u32::MAX >> 1, (u32::MAX >> 1) + 1, u32::MAX]),
            _ => r.next() as u32 >> r.below(32),
        }),
        S::EnumT(v) => Val::Enum(*r.pick(v)),
        S::BitStr => {
            let n = match r.below(4) {
                0 => r.below(20),
                1 => r.below(80),
                2 => 8 * r.below(20),
                _ => r.len(300) * 8 + r.below(8),
            };
            Val::Bits((0..n).map(|_| r.chance(1, 2)).collect())
        }
        S::OctStr => {
            let n = r.len(300);
            Val::Bytes(r.bytes(n))
        }
        S::Oid => {
            if r.chance(1, 6) {
                Val::Choice(1, Box::new(gen_val(&S::RelOid, r, depth)))
            } else {
                Val::Oid(oid_content(&gen_arcs(r)))
            }
        }
        S::RelOid => {
            let mut o = vec![];
            for _ in 0..r.range(1, 6) {
                put_arc(gen_arc(r) as u128, &mut o);
            }
            Val::Oid(o)
        }
        S::Real => Val::Real(norm_f64(gen_f64(r))),
        S::F32 => Val::Real(norm_f64(loop {
            let x = gen_f64(r) as f32;
            if !x.is_nan() {
                break x as f64;
            }
        })),
        S::Utc => Val::Time(gen_time(r, true)),
        S::Gen => Val::Time(gen_time(r, false)),
        S::Str(k) => Val::Str(gen_string(r, *k)),
        S::Any => gen_any(r, depth.min(3)),
        S::Eoc => Val::Eoc,
        S::RawSeq | S::RawSet => {
            let mut c = vec![];
            for _ in 0..r.below(5) {
                let v = gen_any(r, depth.min(2));
                enc_der(&S::Any, &v, &mut c);
            }
            Val::Bytes(c)
        }
        S::SeqOf(i) => Val::Seq(list(r, i, depth)),
        S::SetList(i) => {
            // in canonical order, so that the list survives canonical encoding
            let mut v = list(r, i, depth);
            v.sort_by_key(|x| der(i, x));
            Val::Seq(v)
        }
        S::SetSet(i) => Val::Set(sorted_set(list(r, i, depth))),
        S::Arr(i, n) => Val::Seq((0..*n).map(|_| gen_val(i, r, depth.saturating_sub(1))).collect()),
        S::Tuple(ts) => Val::Seq(ts.iter().map(|t| gen_val(t, r, depth.saturating_sub(1))).collect()),
        S::Opt(i) => Val::Opt(if r.chance(1, 4) { None } else { Some(Box::new(gen_val(i, r, depth))) }),
        S::Tag(k, c, t, i) => Val::Tagged(*c, *t, Box::new(gen_inner(*k, i, r, depth.saturating_sub(1)))),
        S::AnyTag(k, i) => Val::Tagged(*r.pick(&[1, 2, 2, 3]), gen_tag(r), Box::new(gen_inner(*k, i, r, depth.saturating_sub(1)))),
        S::Struct { fields, .. } => Val::Seq(
            fields
                .iter()
                .map(|f| {
                    if let Some(d) = &f.default {
                        if r.chance(1, 3) { d.clone() } else { gen_val(&f.s, r, depth.saturating_sub(1)) }
                    } else if f.opt {
                        Val::Opt(if r.chance(1, 3) { None } else { Some(Box::new(gen_val(&f.s, r, depth.saturating_sub(1)))) })
                    } else {
                        gen_val(&f.s, r, depth.saturating_sub(1))
                    }
                })
                .collect(),
        ),
        S::Choice(_, alts) => {
            let i = r.below(alts.len());
            let v = gen_val(&alts[i].1, r, depth.saturating_sub(1));
            // an alternative accepting any object is for those that no other one accepts
            if let Val::Any { class: 0, tag, .. } = &v {
                if let Some(i) = alts.iter().position(|(_, a)| universal_tag(a) == Some(*tag)) {
                    return Val::Choice(i, Box::new(gen_val(&alts[i].1, r, depth.saturating_sub(1))));
                }
            }
            Val::Choice(i, Box::new(v))
        }
        S::Alias(i) => gen_val(i, r, depth),
        S::Unmodelled => Val::Null,
    }
}

/// How to write an encoding: `None` = canonical DER; otherwise random legal BER choices.
pub struct Style<'r> {
    pub r: Option<&'r mut Rng>,
    pub forms: Forms,
}
#[derive(Clone, Copy)]
pub struct Forms {
    /// per mille probabilities
    pub long_len: usize,
    pub indef: usize,
    pub segment: usize,
    pub other: usize,
}
impl Forms {
    pub const BER: Forms = Forms { long_len: 150, indef: 250, segment: 250, other: 400 };
}

pub fn put_ident(class: u8, constructed: bool, tag: u32, out: &mut Vec<u8>) {
    let b0 = (class << 6) | if constructed { 0x20 } else { 0 };
    if tag < 31 {
        out.push(b0 | tag as u8);
    } else {
        out.push(b0 | 31);
        put_arc(tag as u128, out);
    }
}
pub fn put_len(n: usize, out: &mut Vec<u8>) {
    if n < 128 {
        out.push(n as u8);
    } else {
        let b = n.to_be_bytes();
        let z = n.leading_zeros() as usize / 8;
        out.push(0x80 | (8 - z) as u8);
        out.extend_from_slice(&b[z..]);
    }
}
pub fn put_len_padded(n: usize, pad: usize, out: &mut Vec<u8>) {
    let b = n.to_be_bytes();
    let z = (n.leading_zeros() as usize / 8).min(7);
    out.push(0x80 | (8 - z + pad) as u8);
    out.extend(std::iter::repeat(0).take(pad));
    out.extend_from_slice(&b[z..]);
}
/// definite-length minimal TLV
pub fn tlv(class: u8, constructed: bool, tag: u32, c: &[u8], out: &mut Vec<u8>) {
    put_ident(class, constructed, tag, out);
    put_len(c.len(), out);
    out.extend_from_slice(c);
}

impl Style<'_> {
    fn yes(&mut self, p: usize) -> bool {
        match &mut self.r {
            Some(r) => r.chance(p, 1000),
            None => false,
        }
    }
    fn below(&mut self, n: usize) -> usize {
        self.r.as_mut().map(|r| r.below(n)).unwrap_or(0)
    }
    pub fn tlv(&mut self, class: u8, constructed: bool, tag: u32, c: &[u8], out: &mut Vec<u8>) {
        put_ident(class, constructed, tag, out);
        let f = self.forms;
        if constructed && self.yes(f.indef) && scannable(c) {
            out.push(0x80);
            out.extend_from_slice(c);
            out.extend_from_slice(&[0, 0]);
        } else if self.yes(f.long_len) {
            let pad = self.below(4);
            put_len_padded(c.len(), pad, out);
            out.extend_from_slice(c);
        } else {
            put_len(c.len(), out);
            out.extend_from_slice(c);
        }
    }
    fn segmented(&mut self, tag: u32, c: &[u8], bits: Option<u8>, depth: usize) -> Vec<u8> {
        // contents of a constructed string: segments
        let mut out = vec![];
        let mut p = 0;
        let parts = self.below(4);
        for k in 0..=parts {
            let last = k == parts;
            let n = if last { c.len() - p } else { self.below((c.len() - p) + 1) };
            let part = &c[p..p + n];
            p += n;
            if bits.is_some() && n == 0 && !(last && parts == 0) {
                // an empty bit segment carries no unused bits
                if last {
                    // the unused bits belong to the last non-empty segment: avoid this shape
                    let mut s = vec![];
                    s.extend(self.segmented_single(tag, c, bits));
                    return s;
                }
                continue;
            }
            let seg_bits = bits.map(|u| if last { u } else { 0 });
            if depth > 0 && self.yes(200) {
                let inner = self.segmented(tag, part, seg_bits, depth - 1);
                self.tlv(0, true, tag, &inner, &mut out);
            } else {
                let mut content = vec![];
                if let Some(u) = seg_bits {
                    content.push(u);
                }
                content.extend_from_slice(part);
                self.tlv(0, false, tag, &content, &mut out);
            }
        }
        out
    }
    fn segmented_single(&mut self, tag: u32, c: &[u8], bits: Option<u8>) -> Vec<u8> {
        let mut out = vec![];
        let mut content = vec![];
        if let Some(u) = bits {
            content.push(u);
        }
        content.extend_from_slice(c);
        self.tlv(0, false, tag, &content, &mut out);
        out
    }
    /// (constructed, content octets) of the base type of `s`
    pub fn content(&mut self, s: &S, v: &Val) -> (bool, Vec<u8>) {
        let f = self.forms;
        match (s, v) {
            (S::Bool, Val::Bool(b)) => {
                let x = if !*b {
                    0
                } else if self.yes(f.other) {
                    1 + self.below(255) as u8
                } else {
                    0xff
                };
                (false, vec![x])
            }
            (S::Int(_), Val::Int(b)) => (false, b.clone()),
            (S::Null, _) => (false, vec![]),
            (S::Enumerated | S::EnumT(_), Val::Enum(e)) => (false, int_u128(*e as u128)),
            (S::BitStr, Val::Bits(bits)) => {
                let unused = (8 - bits.len() % 8) % 8;
                let mut data = vec![0u8; (bits.len() + 7) / 8];
                for (i, b) in bits.iter().enumerate() {
                    if *b {
                        data[i / 8] |= 0x80 >> (i % 8);
                    }
                }
                if unused > 0 && self.yes(f.other) {
                    // padding bits may be anything in BER
                    let m = (1u16 << unused) as u8 - 1;
                    let junk = self.below(256) as u8;
                    let l = data.len() - 1;
                    data[l] |= junk & m;
                }
                if self.yes(f.segment) {
                    let c = self.segmented(3, &data, Some(unused as u8), 2);
                    (true, c)
                } else {
                    let mut c = vec![unused as u8];
                    c.extend(data);
                    (false, c)
                }
            }
            (S::OctStr, Val::Bytes(b)) => {
                if self.yes(f.segment) {
                    (true, self.segmented(4, b, None, 2))
                } else {
                    (false, b.clone())
                }
            }
            (S::Oid | S::RelOid, Val::Oid(c)) => (false, c.clone()),
            (S::Oid, Val::Choice(_, v)) => self.content(&S::RelOid, v),
            (S::Real | S::F32, Val::Real(b)) => {
                let x = f64::from_bits(*b);
                if x != 0.0 && x.is_finite() && self.yes(f.other) {
                    return (false, self.real_variant(x));
                }
                (false, real_content(x))
            }
            (S::Utc, Val::Time(t)) => (false, utc_text(t).into_bytes()),
            (S::Gen, Val::Time(t)) => (false, gen_text(t).into_bytes()),
            (S::Str(k), Val::Str(st)) => {
                let b = str_bytes(*k, st);
                if self.yes(f.segment) {
                    (true, self.segmented(4, &b, None, 2))
                } else {
                    (false, b)
                }
            }
            (S::Any, Val::Any { constructed, content, .. }) => (*constructed, content.clone()),
            (S::Eoc, _) => (false, vec![]),
            (S::RawSeq | S::RawSet, Val::Bytes(b)) => (true, b.clone()),
            (S::SeqOf(i) | S::Arr(i, _), Val::Seq(vs)) => {
                let mut c = vec![];
                for x in vs {
                    self.enc(i, x, &mut c);
                }
                (true, c)
            }
            (S::SetList(i), Val::Seq(vs)) | (S::SetSet(i), Val::Set(vs)) => {
                let mut es: Vec<Vec<u8>> = vs
                    .iter()
                    .map(|x| {
                        let mut c = vec![];
                        self.enc(i, x, &mut c);
                        c
                    })
                    .collect();
                if self.r.is_none() {
                    es.sort();
                } else if matches!(s, S::SetSet(_)) {
                    // any order, repetitions allowed
                    if let Some(r) = &mut self.r {
                        for k in (1..es.len()).rev() {
                            es.swap(k, r.below(k + 1));
                        }
                    }
                }
                (true, es.concat())
            }
            (S::Tuple(ts), Val::Seq(vs)) => {
                let mut c = vec![];
                for (t, x) in ts.iter().zip(vs) {
                    self.enc(t, x, &mut c);
                }
                (true, c)
            }
            (S::Opt(i), Val::Opt(Some(v))) => self.content(i, v),
            (S::Alias(i), v) => self.content(i, v),
            (S::Tag(k, _, _, i) | S::AnyTag(k, i), Val::Tagged(_, _, v)) => match k {
                TagKind::Expl => {
                    let mut c = vec![];
                    self.enc(i, v, &mut c);
                    (true, c)
                }
                TagKind::Impl => self.content(i, v),
            },
            (S::Struct { fields, .. }, Val::Seq(vs)) => {
                let mut c = vec![];
                for (f, x) in fields.iter().zip(vs) {
                    let x = match (&f.default, f.opt, x) {
                        (Some(d), _, x) => {
                            if x == d && !self.yes(500) {
                                continue;
                            }
                            x
                        }
                        (None, true, Val::Opt(None)) => continue,
                        (None, true, Val::Opt(Some(x))) => &**x,
                        (_, _, x) => x,
                    };
                    match &f.tag {
                        None => self.enc(&f.s, x, &mut c),
                        Some((k, cl, t)) => {
                            let s = S::Tag(*k, *cl, *t, Box::new(f.s.clone()));
                            self.enc(&s, &Val::Tagged(*cl, *t, Box::new(x.clone())), &mut c);
                        }
                    }
                }
                (true, c)
            }
            (S::Choice(k, alts), Val::Choice(i, v)) => {
                let a = &alts[*i].1;
                match k {
                    Some(TagKind::Expl) => {
                        let mut c = vec![];
                        self.enc(a, v, &mut c);
                        (true, c)
                    }
                    _ => self.content(a, v),
                }
            }
            (s, v) => panic!("gen: {s:?} / {v:?}"),
        }
    }
    fn real_variant(&mut self, x: f64) -> Vec<u8> {
        // equal value in another base, scaling factor or unnormalised mantissa
        let (neg, m, e) = real_parts(x);
        let mut m = m as u128;
        let mut e = e;
        let (bb, bits) = [(1, 0u8), (3, 1), (4, 2)][self.below(3)];
        let scale = self.below(4) as i32;
        // value = m * 2^e = m' * 2^(scale + bb*e'), make (e - scale) divisible by bb
        let mut rest = e - scale;
        while rest.rem_euclid(bb) != 0 {
            m <<= 1;
            rest -= 1;
        }
        e = rest / bb;
        if self.yes(300) && m.leading_zeros() > 80 {
            // keep divisibility: shift by bb
            m <<= bb as u32;
            e -= 1;
        }
        if m >> 56 != 0 {
            return real_content(x);
        }
        let eb = int_i128(e as i128);
        let mut o = vec![0x80 | if neg { 0x40 } else { 0 } | (bits << 4) | ((scale as u8) << 2) | (eb.len() as u8 - 1)];
        o.extend(eb);
        let mb = m.to_be_bytes();
        o.extend_from_slice(&mb[m.leading_zeros() as usize / 8..]);
        o
    }
    pub fn enc(&mut self, s: &S, v: &Val, out: &mut Vec<u8>) {
        match (s, v) {
            (S::Opt(_), Val::Opt(None)) => {}
            (S::Opt(i), Val::Opt(Some(v))) => self.enc(i, v, out),
            (S::Alias(i), v) => self.enc(i, v, out),
            (S::Choice(None, alts), Val::Choice(i, v)) => self.enc(&alts[*i].1, v, out),
            _ => {
                let (cons, c) = self.content(s, v);
                let (class, tag) = ident(s, v);
                self.tlv(class, cons, tag, &c, out);
            }
        }
    }
}
/// can the content be skipped element by element up to an end-of-contents marker?
fn scannable(c: &[u8]) -> bool {
    let mut p = 0;
    while p < c.len() {
        match header(&c[p..]) {
            Ok(h) => {
                if h.class == 0 && h.tag == 0 {
                    return false;
                }
                match content(&h, &c[p + h.hl..], MAX_DEPTH - 5) {
                    Ok((_, n)) => p += h.hl + n,
                    Err(_) => return false,
                }
            }
            Err(_) => return false,
        }
    }
    true
}
pub fn ident(s: &S, v: &Val) -> (u8, u32) {
    match (s, v) {
        (S::Oid, Val::Oid(_)) => (0, 6),
        (S::Oid, _) => (0, 13),
        (S::Any, Val::Any { class, tag, .. }) => (*class, *tag),
        (S::Tag(_, c, t, _), _) => (*c, *t),
        (S::AnyTag(..), Val::Tagged(c, t, _)) => (*c, *t),
        (S::Choice(Some(_), alts), Val::Choice(i, _)) => (2, alts[*i].0),
        (S::Choice(None, alts), Val::Choice(i, v)) => ident(&alts[*i].1, v),
        (S::Opt(i), Val::Opt(Some(v))) => ident(i, v),
        (S::Alias(i), v) => ident(i, v),
        _ => (0, universal_tag(s).unwrap()),
    }
}
pub fn str_bytes(k: StrK, s: &str) -> Vec<u8> {
    match k {
        StrK::Universal => s.chars().flat_map(|c| (c as u32).to_be_bytes()).collect(),
        StrK::Bmp => s.encode_utf16().flat_map(|c| c.to_be_bytes()).collect(),
        _ => s.as_bytes().to_vec(),
    }
}
pub fn tz_text(t: Tz) -> String {
    match t {
        Tz::None => String::new(),
        Tz::Z => "Z".into(),
        Tz::Off(m) => format!("{}{:02}{:02}", if m < 0 { '-' } else { '+' }, m.abs() / 60, m.abs() % 60),
    }
}
pub fn utc_text(t: &Time) -> String {
    format!("{:02}{:02}{:02}{:02}{:02}{:02}{}", t.y % 100, t.mo, t.d, t.h, t.mi, t.s, tz_text(t.tz))
}
pub fn gen_text(t: &Time) -> String {
    let f = match t.ms {
        None | Some(0) => String::new(),
        Some(ms) => format!(".{:03}", ms).trim_end_matches('0').to_string(),
    };
    format!("{:04}{:02}{:02}{:02}{:02}{:02}{}{}", t.y, t.mo, t.d, t.h, t.mi, t.s, f, tz_text(t.tz))
}

pub fn enc_der(s: &S, v: &Val, out: &mut Vec<u8>) {
    Style { r: None, forms: Forms::BER }.enc(s, v, out)
}
pub fn der(s: &S, v: &Val) -> Vec<u8> {
    let mut o = vec![];
    enc_der(s, v, &mut o);
    o
}
pub fn ber(s: &S, v: &Val, r: &mut Rng, forms: Forms) -> Vec<u8> {
    let mut o = vec![];
    Style { r: Some(r), forms }.enc(s, v, &mut o);
    o
}

/// Offsets of all element headers in a (well-formed) encoding, found by descending into constructed elements.
pub fn header_offsets(b: &[u8]) -> Vec<(usize, Hdr)> {
    fn go(b: &[u8], base: usize, depth: usize, out: &mut Vec<(usize, Hdr)>) {
        let mut p = 0;
        while p < b.len() && out.len() < 200 {
            let h = match header(&b[p..]) {
                Ok(h) => h,
                Err(_) => return,
            };
            out.push((base + p, h.clone()));
            match content(&h, &b[p + h.hl..], MAX_DEPTH) {
                Ok((c, n)) => {
                    if h.constructed && depth > 0 {
                        go(c, base + p + h.hl, depth - 1, out);
                    }
                    p += h.hl + n;
                }
                Err(_) => return,
            }
        }
    }
    let mut o = vec![];
    go(b, 0, 8, &mut o);
    o
}

/// Damage an encoding, often aiming at identifier and length octets.
pub fn mutate(b: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + r.below(3) {
        if v.is_empty() {
            v.push(r.u8());
            continue;
        }
        let hs = header_offsets(&v);
        match r.below(16) {
            0 => {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.below(v.len());
                v[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0x81, 0x84, 0x88, 0xff, 0x30, 0x31, 0x1f, 0x3f, 0xa0, 0x24, 0x23]);
            }
            2 => {
                let n = r.below(v.len());
                v.truncate(n);
            }
            3 => {
                let i = r.below(v.len() + 1);
                v.insert(i, r.u8());
            }
            4 => {
                let i = r.below(v.len());
                v.remove(i);
            }
            5..=7 if !hs.is_empty() => {
                // identifier: other tag / class / constructed bit
                let (o, _) = r.pick(&hs).clone();
                match r.below(3) {
                    0 => v[o] ^= 0x20,
                    1 => v[o] ^= 0x40 << r.below(2),
                    _ => v[o] = (v[o] & 0xe0) | r.below(32) as u8,
                }
            }
            8..=10 if !hs.is_empty() => {
                // length octet
                let (o, h) = r.pick(&hs).clone();
                let p = o + 1;
                if h.hl >= 2 && p < v.len() {
                    v[p] = match r.below(6) {
                        0 => v[p].wrapping_add(1),
                        1 => v[p].wrapping_sub(1),
                        2 => 0x80,
                        3 => 0xff,
                        4 => 0x80 | r.below(10) as u8,
                        _ => r.u8(),
                    };
                }
            }
            11 if !hs.is_empty() => {
                // content octet of one element
                let (o, h) = r.pick(&hs).clone();
                let p = o + h.hl + r.below(h.len.unwrap_or(4).max(1));
                if p < v.len() {
                    v[p] = r.u8();
                }
            }
            12 => {
                let n = r.range(1, 6);
                v.extend(r.bytes(n));
            }
            13 if v.len() > 4 => {
                // duplicate / move a chunk
                let i = r.below(v.len());
                let n = r.range(1, (v.len() - i).min(16));
                let chunk = v[i..i + n].to_vec();
                let j = r.below(v.len());
                for (k, x) in chunk.into_iter().enumerate() {
                    v.insert(j + k, x);
                }
            }
            14 if !hs.is_empty() => {
                // grow or shrink one element's length consistently is rare; rewrite the whole as indefinite
                if v[0] & 0x20 != 0 && hs[0].1.len.is_some() {
                    let h = &hs[0].1;
                    let end = (h.hl + h.len.unwrap()).min(v.len());
                    let il = h.hl - len_len(&v, h);
                    let mut n = v[..il].to_vec();
                    n.push(0x80);
                    n.extend_from_slice(&v[h.hl..end]);
                    n.extend_from_slice(&[0, 0]);
                    v = n;
                }
            }
            _ => {
                let i = r.below(v.len());
                v[i] = r.u8();
            }
        }
        if v.len() > 5000 {
            break;
        }
    }
    v
}
fn len_len(v: &[u8], h: &Hdr) -> usize {
    // length octets of the first header
    let mut p = 1;
    if v[0] & 0x1f == 0x1f {
        while p < v.len() && v[p] & 0x80 != 0 {
            p += 1;
        }
        p += 1;
    }
    h.hl - p
}

/// Random elements with plausible headers
pub fn wild(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..1 + r.below(4) {
        match r.below(5) {
            0 => {
                let n = r.below(12);
                v.extend(r.bytes(n));
            }
            1 => {
                let x = gen_any(r, 3);
                v.extend(ber(&S::Any, &x, r, Forms::BER));
            }
            2 => {
                put_ident(r.below(4) as u8, r.chance(1, 2), gen_tag(r), &mut v);
                let n = r.below(6);
                match r.below(4) {
                    0 => v.push(n as u8),
                    1 => put_len_padded(n, r.below(9), &mut v),
                    2 => v.push(0x80),
                    _ => put_len(*r.pick(&[127, 128, 255, 256, 65535, 65536, 0xffffff, 0x1000000, 0xffffffff, usize::MAX, usize::MAX - 1, usize::MAX - 5, 1 << 62]), &mut v),
                }
                v.extend(r.bytes(n));
            }
            3 => {
                v.push(*r.pick(&[1, 2, 3, 4, 5, 6, 9, 10, 12, 13, 19, 22, 23, 24, 28, 30, 0x30, 0x31, 0x24, 0x23, 0xa0, 0xa1, 0x2c]));
                let n = r.below(8);
                v.push(n as u8);
                v.extend(r.bytes(n));
            }
            _ => {
                // indefinite nest
                let d = r.range(1, 60);
                for _ in 0..d {
                    v.push(*r.pick(&[0x30, 0x31, 0xa0, 0x24]));
                    v.push(0x80);
                }
                for _ in 0..d + r.below(3) - 1 {
                    v.extend_from_slice(&[0, 0]);
                }
            }
        }
    }
    v
}

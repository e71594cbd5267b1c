//! Workloads: inputs of many kinds for every type.
use crate::ev::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::subjects::*;
use crate::tree;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Der,
    Ber,
    Mut,
    Tree,
    Hostile,
    Wild,
    Trail,
    Trunc,
    Retag,
    Indef,
    Noncanon,
}
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Der => "canonical",
            Kind::Ber => "ber-forms",
            Kind::Mut => "byte-mutation",
            Kind::Tree => "structural-edit",
            Kind::Hostile => "hostile-content",
            Kind::Wild => "wild",
            Kind::Trail => "trailing-octets",
            Kind::Trunc => "truncated",
            Kind::Retag => "other-identifier",
            Kind::Indef => "indefinite",
            Kind::Noncanon => "non-canonical",
        }
    }
}
pub const ALL: &[Kind] = &[
    Kind::Der, Kind::Ber, Kind::Mut, Kind::Tree, Kind::Hostile, Kind::Wild, Kind::Trail, Kind::Trunc, Kind::Retag, Kind::Indef, Kind::Noncanon,
];

/// octets of a primitive value of `s`, often at the edge of what the type allows
pub fn hostile_content(s: &S, r: &mut Rng) -> Vec<u8> {
    match s {
        S::Bool => match r.below(6) {
            0 => vec![],
            1 => vec![0, 0],
            2 => r.bytes(2),
            _ => vec![*r.pick(&[0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, r.clone().u8()])],
        },
        S::Null | S::Eoc => {
            let n = r.below(3);
            r.bytes(n)
        }
        S::Int(k) => {
            let bits = match k {
                IntK::U(b) | IntK::I(b) => *b as usize,
                IntK::Big => 64,
            };
            let n = bits / 8;
            match r.below(10) {
                0 => vec![],
                // sign and width edges
                1 => {
                    let mut v = vec![0xff; n];
                    v[0] = *r.pick(&[0x7f, 0x80, 0xff, 0]);
                    v
                }
                2 => {
                    let mut v = vec![0x00; n];
                    v[0] = *r.pick(&[0x7f, 0x80, 0xff, 0, 1]);
                    v
                }
                3 => {
                    let mut v = vec![*r.pick(&[0, 0, 0xff, 1, 0x7f])];
                    v.extend(r.bytes(n));
                    v
                }
                4 => {
                    let mut v = vec![*r.pick(&[0, 0xff]); 1 + r.below(3)];
                    let k = 1 + r.below(n + 1);
                    v.extend(r.bytes(k));
                    v
                }
                5 => {
                    let x = *r.pick(&[0, 0xff]);
                    vec![x; 1 + r.below(20)]
                }
                6 => r.bytes(n),
                7 => r.bytes(n + 1),
                _ => {
                    let k = r.below(n + 4);
                    r.bytes(k)
                }
            }
        }
        S::Enumerated | S::EnumT(_) => {
            let n = r.below(7);
            match r.below(4) {
                0 => vec![0; n],
                1 => {
                    let mut v = vec![0];
                    v.extend(r.bytes(n));
                    v
                }
                2 => vec![*r.pick(&[0u8, 4, 5, 1, 2, 0x80, 0x90, 0xff])],
                _ => r.bytes(n),
            }
        }
        S::BitStr => match r.below(6) {
            0 => vec![],
            1 => vec![r.below(10) as u8],
            2 => {
                let mut v = vec![r.u8()];
                let n = r.below(4);
                v.extend(r.bytes(n));
                v
            }
            _ => {
                let mut v = vec![r.below(9) as u8];
                let n = r.below(5);
                v.extend(r.bytes(n));
                v
            }
        },
        S::Oid | S::RelOid => match r.below(5) {
            0 => vec![],
            1 => {
                let n = r.below(12);
                (0..n).map(|_| r.u8() | 0x80).collect()
            }
            2 => {
                let mut v = vec![0x80];
                v.extend(oid_content(&gen_arcs(r)));
                v
            }
            3 => {
                let mut v = oid_content(&gen_arcs(r));
                let i = r.below(v.len() + 1);
                v.insert(i, 0x80 | r.u8());
                v
            }
            _ => {
                let n = r.below(24);
                r.bytes(n)
            }
        },
        S::Real | S::F32 => match r.below(8) {
            0 => vec![*r.pick(&[0x40, 0x41, 0x42, 0x43, 0x44, 0x7f, 0x40, 0x80, 0xc0, 3, 1, 2, 0])],
            1 => {
                let mut v = vec![r.below(4) as u8];
                if r.chance(1, 2) {
                    // a number, in any of the three forms
                    let mut t = String::from(*r.pick(&["", "", "-", "+"]));
                    let dg = |r: &mut Rng| -> String { (0..1 + r.below(12)).map(|_| (b'0' + r.below(10) as u8) as char).collect() };
                    t += &dg(r);
                    if r.chance(1, 2) {
                        t.push('.');
                        t += &dg(r);
                    }
                    if r.chance(1, 2) {
                        let sg = *r.pick(&["", "-", "+"]);
                        let top = if r.chance(1, 4) { 400 } else { 30 };
                        t += &format!("E{sg}{}", r.below(top));
                    }
                    v[0] = if t.contains('E') { 3 } else if t.contains('.') { 2 } else { 1 };
                    v.extend_from_slice(t.as_bytes());
                    return v;
                }
                let t = *r.pick(&["1", "-1", " 12", "+3", "1.5", "-.5", "1.E0", "15.E-1", "1E5", "1e400", "", "12a", "1,5", "nan", "inf", "00012", "3.14159E+00"]);
                v.extend_from_slice(t.as_bytes());
                v
            }
            2..=5 => {
                // binary: every base, scale, exponent form
                let ef = r.below(4) as u8;
                let mut v = vec![0x80 | (r.below(2) as u8) << 6 | (r.below(4) as u8) << 4 | (r.below(4) as u8) << 2 | ef];
                let el = if ef == 3 {
                    let l = r.below(6);
                    v.push(l as u8);
                    l
                } else {
                    ef as usize + 1
                };
                if el > 0 {
                    // mostly moderate exponents
                    let mut e = if r.chance(1, 4) { r.bytes(el) } else { vec![0; el] };
                    if r.chance(1, 2) {
                        let neg = r.chance(1, 2);
                        if neg {
                            e = vec![0xff; el];
                        }
                        let x = r.u8();
                        let i = e.len() - 1;
                        e[i] = x;
                        if el > 1 && r.chance(1, 2) {
                            e[el - 2] = if neg { 0xfc | r.u8() } else { r.u8() & 3 };
                        }
                    }
                    v.extend(e);
                }
                let ml = r.below(10);
                v.extend(r.bytes(ml));
                v
            }
            _ => {
                let n = r.below(8);
                r.bytes(n)
            }
        },
        S::Utc | S::Gen => time_text(matches!(s, S::Utc), r),
        S::Str(k) => match r.below(6) {
            0 => vec![],
            1 => {
                let n = r.below(9);
                r.bytes(n)
            }
            2 => {
                // a single octet / character out of the set
                let mut v = str_bytes(*k, &gen_string(r, *k));
                let i = r.below(v.len() + 1);
                v.insert(i, r.u8());
                v
            }
            3 => {
                let mut v = str_bytes(*k, &gen_string(r, *k));
                if !v.is_empty() {
                    let i = r.below(v.len());
                    v[i] = r.u8();
                }
                v
            }
            4 => {
                // all octets near the edges of the ASCII sets
                let n = 1 + r.below(4);
                (0..n).map(|_| *r.pick(b"\x00\x1f\x20\x2f\x30\x39\x3a@AZ[`az{~\x7f\x80\xff*_&'()+,-./:;<=>?!\"#$%")).collect()
            }
            _ => {
                // multi-octet repertoires: surrogates, out of range code points, odd lengths
                let mut v = vec![];
                for _ in 0..1 + r.below(3) {
                    let cp: u32 = *r.pick(&[0x41, 0xe9, 0x20ac, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, 0xffffffff]);
                    match k {
                        StrK::Universal => v.extend_from_slice(&cp.to_be_bytes()),
                        StrK::Bmp => v.extend_from_slice(&(cp as u16).to_be_bytes()),
                        _ => match char::from_u32(cp) {
                            Some(c) => v.extend_from_slice(c.to_string().as_bytes()),
                            None => v.extend_from_slice(&[0xed, 0xa0 | (cp as u8 & 0x1f), 0x80]),
                        },
                    }
                }
                if r.chance(1, 4) {
                    v.pop();
                }
                v
            }
        },
        _ => {
            let n = r.below(12);
            r.bytes(n)
        }
    }
}

pub fn time_text(utc: bool, r: &mut Rng) -> Vec<u8> {
    let two = |r: &mut Rng, edge: &[usize]| -> String {
        let n = if r.chance(1, 3) { *r.pick(edge) } else if r.chance(1, 5) { r.below(100) } else { 1 + r.below(12) };
        format!("{n:02}")
    };
    let mut t = String::new();
    if utc {
        t += &two(r, &[0, 49, 50, 99]);
    } else {
        t += &format!("{:04}", *r.pick(&[0usize, 1, 1949, 1950, 1999, 2000, 2049, 2050, 9999, 2024, 1900]));
    }
    t += &two(r, &[0, 1, 12, 13]);
    t += &two(r, &[0, 1, 28, 29, 30, 31, 32]);
    t += &two(r, &[0, 23, 24]);
    if !r.chance(1, 10) {
        t += &two(r, &[0, 59, 60]);
        if !r.chance(1, 5) {
            t += &two(r, &[0, 59, 60, 61]);
        }
    }
    if r.chance(if utc { 1 } else { 3 }, 8) {
        t.push(*r.pick(&['.', '.', '.', ',']));
        for _ in 0..r.below(6) {
            t.push((b'0' + r.below(10) as u8) as char);
        }
    }
    match r.below(10) {
        0 => {}
        1..=5 => t.push('Z'),
        6..=8 => {
            t.push(*r.pick(&['+', '-']));
            t += &two(r, &[0, 1, 12, 14, 23, 24]);
            if !r.chance(1, 6) {
                t += &two(r, &[0, 30, 45, 59, 60]);
            }
        }
        _ => t.push(*r.pick(&['z', 'A', ' ', '0'])),
    }
    let mut v = t.into_bytes();
    if r.chance(1, 6) {
        tree::edit_bytes(&mut v, r);
    }
    v
}

/// first identifier of the type followed by hostile content
pub fn hostile(s: &S, v: &Val, r: &mut Rng) -> Vec<u8> {
    let base = match s {
        S::Opt(i) | S::Alias(i) => return hostile(i, match v { Val::Opt(Some(v)) => v, v => v }, r),
        S::Tag(TagKind::Impl, c, t, i) => {
            let mut o = vec![];
            let cons = matches!(**i, S::SeqOf(_) | S::Struct { .. }) ^ r.chance(1, 10);
            let body = hostile_content(i, r);
            put_ident(*c, cons, *t, &mut o);
            put_len(body.len(), &mut o);
            o.extend(body);
            return o;
        }
        S::Tag(TagKind::Expl, c, t, i) => {
            let inner = hostile(i, match v { Val::Tagged(_, _, v) => v, v => v }, r);
            let mut o = vec![];
            tlv(*c, true, *t, &inner, &mut o);
            return o;
        }
        S::SeqOf(i) | S::Arr(i, _) | S::SetList(i) | S::SetSet(i) => {
            let mut c = vec![];
            for _ in 0..1 + r.below(3) {
                c.extend(if r.chance(1, 2) { hostile(i, &Val::Null, r) } else { der(i, &gen_val(i, r, 1)) });
            }
            let mut o = vec![];
            tlv(0, true, universal_tag(s).unwrap(), &c, &mut o);
            return o;
        }
        S::Struct { set, fields } => {
            let mut c = vec![];
            let bad = r.below(fields.len().max(1));
            for (i, f) in fields.iter().enumerate() {
                if f.opt && r.chance(1, 3) {
                    continue;
                }
                let fs = match f.tag {
                    Some((k, cl, t)) => S::Tag(k, cl, t, Box::new(f.s.clone())),
                    None => f.s.clone(),
                };
                if i == bad {
                    c.extend(hostile(&fs, &Val::Null, r));
                } else {
                    let v = gen_val(&fs, r, 2);
                    c.extend(der(&fs, &v));
                }
            }
            let mut o = vec![];
            tlv(0, true, if *set { 17 } else { 16 }, &c, &mut o);
            return o;
        }
        S::Tuple(fs) => {
            let bad = r.below(fs.len());
            let mut c = vec![];
            for (i, f) in fs.iter().enumerate() {
                if i == bad {
                    c.extend(hostile(f, &Val::Null, r));
                } else {
                    c.extend(der(f, &gen_val(f, r, 2)));
                }
            }
            let mut o = vec![];
            tlv(0, true, 16, &c, &mut o);
            return o;
        }
        S::Choice(k, alts) => {
            let (t, a) = r.pick(alts).clone();
            let a = match k {
                None => a,
                Some(k) => S::Tag(*k, 2, t, Box::new(a)),
            };
            return hostile(&a, &Val::Null, r);
        }
        S::AnyTag(k, i) => {
            let a = S::Tag(*k, r.below(4) as u8, 1 + r.below(40) as u32, i.clone());
            return hostile(&a, &Val::Null, r);
        }
        S::Any | S::Unmodelled => return wild(r),
        _ => s,
    };
    let tag = match base {
        S::Oid => *r.pick(&[6, 6, 13]),
        _ => universal_tag(base).unwrap(),
    };
    let c = hostile_content(base, r);
    let mut o = vec![];
    let cons = matches!(base, S::RawSeq | S::RawSet);
    if matches!(base, S::Str(_) | S::OctStr | S::BitStr) && r.chance(1, 4) {
        // hostile segments
        let mut segs = vec![];
        for _ in 0..r.below(4) {
            let c = hostile_content(base, r);
            let t = if r.chance(1, 8) { 4 } else { tag };
            tlv(0, r.chance(1, 12), t, &c, &mut segs);
        }
        tlv(0, true, tag, &segs, &mut o);
        if r.chance(1, 4) {
            o[1] = 0x80;
            o.extend_from_slice(&[0, 0]);
        }
        return o;
    }
    tlv(0, cons ^ r.chance(1, 12), tag, &c, &mut o);
    o
}

pub fn make(s: &S, v: &Val, kind: Kind, r: &mut Rng) -> Vec<u8> {
    let base = |r: &mut Rng| if r.chance(1, 2) { der(s, v) } else { ber(s, v, r, Forms::BER) };
    match kind {
        Kind::Der => der(s, v),
        Kind::Ber => ber(s, v, r, Forms::BER),
        Kind::Mut => {
            let b = base(r);
            mutate(&b, r)
        }
        Kind::Tree => {
            let b = base(r);
            tree::edit(&b, r)
        }
        Kind::Hostile => hostile(s, v, r),
        Kind::Wild => wild(r),
        Kind::Trail => {
            let mut b = base(r);
            match r.below(4) {
                0 => b.extend_from_slice(&[0, 0]),
                1 => {
                    let x = b.clone();
                    b.extend(x)
                }
                2 => b.push(r.u8()),
                _ => {
                    let n = 1 + r.below(9);
                    b.extend(r.bytes(n))
                }
            }
            b
        }
        Kind::Trunc => {
            let mut b = base(r);
            if !b.is_empty() {
                let n = r.below(b.len());
                b.truncate(n);
            }
            b
        }
        Kind::Retag => {
            let b = base(r);
            let op = *r.pick(&[tree::Op::Class, tree::Op::Tag, tree::Op::ConsBit]);
            if r.chance(2, 3) {
                // the outermost identifier
                if let Some(mut t) = tree::parse(&b, 6) {
                    if !t.is_empty() {
                        tree::apply(&mut t, 0, op, r);
                        return tree::put_all(&t);
                    }
                }
            }
            tree::edit_op(&b, op, r).unwrap_or(b)
        }
        Kind::Indef => {
            let b = base(r);
            let Some(mut t) = tree::parse(&b, 8) else { return b };
            let n = tree::count(&t);
            for k in 0..n {
                if r.chance(2, 3) {
                    let bad = r.chance(1, 12);
                    tree::with_node(&mut t, k, &mut |sib, i| {
                        if sib[i].cons || bad {
                            sib[i].form = if r.chance(1, 20) { tree::Form::Unclosed } else { tree::Form::Indef };
                        }
                    });
                }
            }
            if n > 0 && r.chance(1, 6) {
                let k = r.below(n);
                tree::apply(&mut t, k, tree::Op::Segment, r);
            }
            let mut o = tree::put_all(&t);
            if r.chance(1, 8) && !o.is_empty() {
                // disturb end markers
                let i = r.below(o.len());
                match r.below(3) {
                    0 => o.insert(i, 0),
                    1 => {
                        o.remove(i);
                    }
                    _ => o.extend_from_slice(&[0, 0]),
                }
            }
            o
        }
        Kind::Noncanon => {
            let b = der(s, v);
            let op = *r.pick(&[tree::Op::PadLen, tree::Op::PadTag, tree::Op::Indef, tree::Op::Segment, tree::Op::Content, tree::Op::Lengthen]);
            tree::edit_op(&b, op, r).unwrap_or(b)
        }
    }
}

/// contains a leaf (or shape) satisfying `p`
pub fn any_s(s: &S, p: &dyn Fn(&S) -> bool) -> bool {
    p(s) || match s {
        S::SeqOf(i) | S::Arr(i, _) | S::SetList(i) | S::SetSet(i) | S::Opt(i) | S::Tag(_, _, _, i) | S::AnyTag(_, i) | S::Alias(i) => any_s(i, p),
        S::Tuple(v) => v.iter().any(|x| any_s(x, p)),
        S::Struct { fields, .. } => fields.iter().any(|f| any_s(&f.s, p)),
        S::Choice(_, v) => v.iter().any(|(_, x)| any_s(x, p)),
        _ => false,
    }
}

/// Run `body` on `per` values of every subject, each with every input kind. Cases are distributed over the
/// shards; every case has its own random stream, so it does not depend on the sharding.
pub fn sweep(
    c: &mut Ctx,
    salt: u64,
    subs: &[&Subject],
    per: usize,
    kinds: &[Kind],
    body: &mut dyn FnMut(&mut Ctx, &Subject, &Val, Kind, &[u8], &mut Rng),
) {
    let total = subs.len() * per;
    let mut i = c.shard;
    let t0 = since_start();
    let cap = if c.quick() { 100 } else { 760 };
    while i < total {
        let s = subs[i % subs.len()];
        let mut r = Rng::new(mix(mix(c.seed ^ (salt << 32)) ^ mix(i as u64)));
        let v = gen_val(&s.s, &mut r, 3);
        for k in kinds {
            let b = make(&s.s, &v, *k, &mut r);
            c.case(s.name, &b);
            c.hit(k.name());
            body(c, s, &v, *k, &b, &mut r);
        }
        i += c.shards;
        if (i / c.shards) % 64 == 0 && (since_start() - t0).as_secs() > cap {
            c.hit("time-cap");
            break;
        }
    }
}

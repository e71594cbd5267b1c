//! Identifier and length octets, object headers, lengths, tags and classes.
use super::*;
use asn1_rs::{
    ber_get_content, ber_header_length, ber_length_length, ber_tag_length, ber_total_length, der_get_content, BerEncoder, BerGenericEncoder, BerParser, Class, Constructed,
    ConstructedIndefinite, DerParser, FromBer, FromDer, Header, Length, Primitive, Tag, ToBer, ToDer, ToStatic,
};

const TAGS: &[u32] = &[
    0, 1, 2, 5, 16, 17, 29, 30, 31, 32, 63, 64, 100, 126, 127, 128, 129, 255, 256, 8191, 16382, 16383, 16384, 16385, 65535, 2097151, 2097152, 268435455, 268435456, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1,
    u32::MAX,
];
const LENS: &[usize] = &[
    0, 1, 2, 126, 127, 128, 129, 200, 254, 255, 256, 257, 0x7fff, 0x8000, 65534, 65535, 65536, 0xff_ffff, 0x100_0000, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0xff_ffff_ffff, 0x100_0000_0000,
    1 << 48, 1 << 56, usize::MAX >> 1, usize::MAX - 1, usize::MAX,
];

fn len_of(l: Length) -> Option<usize> {
    match l {
        Length::Definite(n) => Some(n),
        Length::Indefinite => None,
    }
}

#[derive(PartialEq, Debug)]
enum H {
    Ok { class: u8, constructed: bool, tag: u32, len: Option<usize>, rest: usize, raw_tag: Option<Vec<u8>>, raw: Option<(Vec<u8>, Option<usize>)> },
    Inc,
    Err,
}
fn of(b: &[u8], rest: usize, h: &Header, spans: bool) -> H {
    let _ = b;
    H::Ok {
        class: h.class() as u8,
        constructed: h.constructed(),
        tag: h.tag().0,
        len: len_of(h.length()),
        rest,
        raw_tag: h.raw_tag().map(|x| x.to_vec()),
        raw: h.raw_header().map(|i| (i.as_bytes2().to_vec(), if spans && i.end() - i.start() == i.len() { Some(i.start()) } else { None })),
    }
}

/// one header through all four decoders
pub fn header_case(c: &mut Ctx, b: &[u8]) {
    let want = header(b);
    let outs: [(&str, bool, bool, Result<H, String>); 4] = [
        ("from_ber", false, false, guard(|| match Header::from_ber(b) {
            Ok((rem, h)) => of(b, rem.len(), &h, false),
            Err(e) => err(e.into()),
        })),
        ("from_der", true, false, guard(|| match Header::from_der(b) {
            Ok((rem, h)) => of(b, rem.len(), &h, false),
            Err(e) => err(e.into()),
        })),
        ("parse_ber", false, true, guard(|| match Header::parse_ber(mk(b)) {
            Ok((rem, h)) => of(b, rem.len(), &h, true),
            Err(e) => err(e.into()),
        })),
        ("parse_der", true, true, guard(|| match Header::parse_der(mk(b)) {
            Ok((rem, h)) => of(b, rem.len(), &h, true),
            Err(e) => err(e.into()),
        })),
    ];
    for (api, der, spans, got) in outs {
        c.checks += 1;
        let got = match got {
            Ok(g) => g,
            Err(p) => {
                c.viol(format!("header-panic/{api}:{}", panic_kind(&p)), p, b);
                continue;
            }
        };
        let (ok, what) = match (&want, &got) {
            (Ok(h), H::Ok { class, constructed, tag, len, rest, raw_tag, raw }) => {
                let il = h.hl - len_octets(b, h);
                let tag_ok = raw_tag.as_ref().is_none_or(|t| t[..] == b[..il]);
                let raw_ok = raw.as_ref().is_none_or(|(t, p)| t[..] == b[..h.hl] && (!spans || *p == Some(BASE)));
                if der && h.len.is_none() {
                    (false, "accepts-indefinite")
                } else if (*class, *constructed, *tag, *len) != (h.class, h.constructed, h.tag, h.len) {
                    (false, "fields")
                } else if *rest != b.len() - h.hl {
                    (false, "consumed")
                } else if !tag_ok || !raw_ok {
                    (false, "raw")
                } else {
                    (true, "")
                }
            }
            (Ok(h), H::Err) => (der && (h.len.is_none()), "rejects"),
            (Ok(_), H::Inc) => (false, "incomplete"),
            (Err(Rej::Incomplete), H::Inc) => (true, ""),
            (Err(Rej::Incomplete), _) => (false, "truncated"),
            (Err(Rej::Bad(_)), H::Err) => (true, ""),
            (Err(Rej::Bad(x)), H::Inc) => (*x == "tag-truncated", "invalid-incomplete"),
            (Err(Rej::Bad(_)), H::Ok { .. }) => (false, "accepts"),
            (Err(Rej::Unspec(_)), _) => (true, ""),
        };
        if !ok {
            c.viol(format!("header-{what}/{api}"), format!("{got:?}, reference {want:?}"), b);
        }
    }
    match &want {
        Ok(h) => {
            c.hit(if h.len.is_none() { "header-indefinite" } else if h.nonmin_len || h.nonmin_tag { "header-nonminimal" } else { "header-minimal" });
        }
        Err(Rej::Incomplete) => c.hit("header-truncated"),
        Err(_) => c.hit("header-invalid"),
    }
}

enum E<'a> {
    E(asn1_rs::Err<asn1_rs::Error>),
    I(asn1_rs::Err<asn1_rs::BerError<asn1_rs::Input<'a>>>),
}
impl From<asn1_rs::Err<asn1_rs::Error>> for E<'_> {
    fn from(e: asn1_rs::Err<asn1_rs::Error>) -> Self {
        E::E(e)
    }
}
impl<'a> From<asn1_rs::Err<asn1_rs::BerError<asn1_rs::Input<'a>>>> for E<'a> {
    fn from(e: asn1_rs::Err<asn1_rs::BerError<asn1_rs::Input<'a>>>) -> Self {
        E::I(e)
    }
}
fn err(e: E) -> H {
    let inc = match e {
        E::E(asn1_rs::Err::Incomplete(_)) | E::I(asn1_rs::Err::Incomplete(_)) => true,
        E::E(asn1_rs::Err::Error(x) | asn1_rs::Err::Failure(x)) => x.inc().is_some(),
        E::I(asn1_rs::Err::Error(x) | asn1_rs::Err::Failure(x)) => x.inc().is_some(),
    };
    if inc {
        H::Inc
    } else {
        H::Err
    }
}

/// number of length octets of a decoded header
fn len_octets(b: &[u8], h: &Hdr) -> usize {
    let mut p = 1;
    if b[0] & 31 == 31 {
        while b[p] & 0x80 != 0 {
            p += 1;
        }
        p += 1;
    }
    h.hl - p
}

fn w<E: std::fmt::Debug>(f: impl FnOnce(&mut Vec<u8>) -> Result<usize, E>) -> Result<(usize, Vec<u8>), String> {
    match guard(|| {
        let mut v = vec![];
        f(&mut v).map(|n| (n, v)).map_err(|e| format!("{e:?}"))
    }) {
        Ok(r) => r,
        Err(p) => Err(format!("panic {p}")),
    }
}

/// one header through every writer
pub fn write_case(c: &mut Ctx, class: u8, constructed: bool, tag: u32, len: Option<usize>) {
    let cl = Class::try_from(class).unwrap();
    let l = match len {
        Some(n) => Length::Definite(n),
        None => Length::Indefinite,
    };
    let mut id = vec![];
    put_ident(class, constructed, tag, &mut id);
    let mut lb = vec![];
    match len {
        Some(n) => put_len(n, &mut lb),
        None => lb.push(0x80),
    }
    let full = [id.clone(), lb.clone()].concat();
    c.case("header", &full);
    c.distinct("write", &full);
    let mut ck = |ok: bool, what: &str, d: String| {
        c.check(ok, || format!("write:{what}"), || format!("class {class} constructed {constructed} tag {tag} length {len:?}: {d}, expected {}", hex(&full)), &full);
    };
    let h = Header::new(cl, constructed, Tag(tag), l);
    let good = Ok((full.len(), full.clone()));
    for (what, got) in [
        ("ber_write_header", w(|v| h.ber_write_header(v))),
        ("der_write_header", w(|v| h.der_write_header(v))),
        ("ber_encode", w(|v| h.ber_encode(v))),
        ("der_encode", w(|v| h.der_encode(v))),
        ("write_ber", w(|v| h.write_ber(v))),
        ("write_der", w(|v| h.write_der(v))),
        ("to_ber_vec", w(|v| h.to_ber_vec().map(|x| { *v = x; v.len() }))),
        ("to_der_vec", w(|v| h.to_der_vec().map(|x| { *v = x; v.len() }))),
        ("with", w(|v| Header::new_simple(Tag(tag)).with_class(cl).with_constructed(constructed).with_length(l).to_ber_vec().map(|x| { *v = x; v.len() }))),
        ("with_tag", w(|v| Header::new(cl, constructed, Tag(tag ^ 1), l).with_tag(Tag(tag)).to_ber_vec().map(|x| { *v = x; v.len() }))),
        ("to_static", w(|v| h.to_static().to_ber_vec().map(|x| { *v = x; v.len() }))),
    ] {
        ck(got == good, what, format!("{got:?}"));
    }
    let mut g = BerGenericEncoder::new();
    let got = w(|v| g.write_tag_info(cl, constructed, Tag(tag), v));
    ck(got == Ok((id.len(), id.clone())), "generic-tag", format!("{got:?}"));
    let got = w(|v| g.write_tag_generic(cl, constructed, Tag(tag), v));
    ck(got == Ok((id.len(), id.clone())), "tag", format!("{got:?}"));
    let got = w(|v| g.write_length(l, v));
    ck(got == Ok((lb.len(), lb.clone())), "length", format!("{got:?}"));
    if constructed {
        let got = w(|v| Constructed::new().write_tag_info(cl, true, Tag(tag), v));
        ck(got == Ok((id.len(), id.clone())), "constructed-tag", format!("{got:?}"));
        let got = w(|v| ConstructedIndefinite::new().write_tag_info(cl, true, Tag(tag), v));
        ck(got == Ok((id.len(), id.clone())), "indefinite-tag", format!("{got:?}"));
    } else if class == 0 && tag == 2 {
        let got = w(|v| Primitive::<2>::new().write_tag_info(cl, false, Tag(tag), v));
        ck(got == Ok((id.len(), id.clone())), "primitive-tag", format!("{got:?}"));
    }
    let n = guard(|| ber_tag_length(Tag(tag)));
    ck(n == Ok(id.len()), "ber_tag_length", format!("{n:?}"));
    let n = guard(|| ber_length_length(l).ok());
    ck(n == Ok(Some(lb.len())), "ber_length_length", format!("{n:?}"));
    let n = guard(|| ber_header_length(Tag(tag), l).ok());
    ck(n == Ok(Some(full.len())), "ber_header_length", format!("{n:?}"));
    let total = len.and_then(|n| n.checked_add(full.len()));
    if len.is_none() || total.is_some() {
        for (what, n) in [
            ("ber_total_length", guard(|| ber_total_length(Tag(tag), l))),
            ("ber_total_len", guard(|| h.ber_total_len())),
            ("der_total_len", guard(|| h.der_total_len())),
        ] {
            ck(n.clone().map(len_of) == Ok(total), what, format!("{n:?}"));
        }
    } else {
        let n = guard(|| h.ber_total_len());
        ck(n.is_ok(), "total-overflow", format!("{n:?}"));
    }
    // what is written is read back
    if len.is_some() || constructed {
        header_case(c, &full);
    }
}

fn preds(c: &mut Ctx, class: u8, constructed: bool, tag: u32, len: Option<usize>) {
    let cl = Class::try_from(class).unwrap();
    let l = len.map(Length::Definite).unwrap_or(Length::Indefinite);
    let h = Header::new(cl, constructed, Tag(tag), l);
    let mut b = vec![class, constructed as u8];
    b.extend_from_slice(&tag.to_be_bytes());
    let mut ck = |ok: bool, what: &str| {
        c.check(ok, || format!("predicate:{what}"), || format!("{h:?}"), &b);
    };
    ck(h.class() == cl && h.constructed() == constructed && h.tag() == Tag(tag) && h.length() == l, "fields");
    ck(h.is_primitive() != constructed && h.is_constructed() == constructed, "primitive");
    ck(h.assert_primitive().is_ok() != constructed && h.assert_primitive_inner().is_ok() != constructed, "assert_primitive");
    ck(h.assert_primitive_input(&mk(&[])).is_ok() != constructed, "assert_primitive_input");
    ck(h.assert_constructed().is_ok() == constructed && h.assert_constructed_inner().is_ok() == constructed, "assert_constructed");
    ck(h.assert_constructed_input(&mk(&[])).is_ok() == constructed, "assert_constructed_input");
    ck([h.is_universal(), h.is_application(), h.is_contextspecific(), h.is_private()] == [class == 0, class == 1, class == 2, class == 3], "class");
    ck(h.assert_definite().is_ok() == len.is_some() && h.assert_definite_inner().is_ok() == len.is_some(), "assert_definite");
    ck(l.is_definite() == len.is_some() && l.assert_definite().is_ok() == len.is_some() && l.assert_definite_inner().is_ok() == len.is_some(), "length-definite");
    ck(l.definite().ok() == len && l.definite_inner().ok() == len && l.is_null() == (len == Some(0)), "length-value");
    for c2 in 0..4u8 {
        let d = Class::try_from(c2).unwrap();
        ck(h.assert_class(d).is_ok() == (c2 == class) && cl.assert_eq(d).is_ok() == (c2 == class), "assert_class");
    }
    for t in [tag, tag ^ 1, tag.wrapping_add(256), tag.wrapping_add(1 << 16), 0, 16] {
        ck(h.assert_tag(Tag(t)).is_ok() == (t == tag), "assert_tag");
        ck(Tag(tag).assert_eq(Tag(t)).is_ok() == (t == tag) && Tag(tag).assert_eq_inner(Tag(t)).is_ok() == (t == tag), "tag-assert_eq");
    }
    let s = Header::new_simple(Tag(tag));
    ck(s.class() == Class::Universal && s.constructed() == matches!(tag, 16 | 17) && s.tag() == Tag(tag), "new_simple");
    let s: Header = Tag(tag).into();
    ck(s.class() == Class::Universal && s.constructed() == matches!(tag, 16 | 17) && s.tag() == Tag(tag), "from_tag");
    ck(Tag::from(tag) == Tag(tag), "tag-from");
    for v in 0..=255u8 {
        ck(Class::try_from(v).ok().map(|c| c as u8) == (v < 4).then_some(v), "class-try_from");
    }
}

fn content_case(c: &mut Ctx, b: &[u8]) {
    let Ok(h) = header(b) else { return };
    let Ok((_, lh)) = Header::from_ber(b) else { return };
    let rest = &b[h.hl..];
    for (api, depth, der) in [("ber_get_content", 50, false), ("der_get_content", 50, true), ("parse_ber_content", 8, false), ("parse_der_content", 8, true)] {
        let i = asn1_rs::Input::new(rest, BASE + h.hl..BASE + b.len());
        let want = if der && h.len.is_none() { Err(Rej::Bad("der-indefinite")) } else { content(&h, rest, depth) };
        let got = guard(|| match api {
            "ber_get_content" => ber_get_content(&lh, i),
            "der_get_content" => der_get_content(&lh, i),
            "parse_ber_content" => lh.parse_ber_content(i),
            _ => lh.parse_der_content(i),
        });
        let d = || format!("{got:?}, reference {want:?}");
        let ok = match (&want, &got) {
            (_, Err(_)) => false,
            (Ok((w, n)), Ok(Ok((rem, con)))) => {
                con.as_bytes2() == *w
                    && con.start() == BASE + h.hl
                    && con.end() == BASE + h.hl + w.len()
                    && rem.len() == rest.len() - n
                    && rem.start() == BASE + h.hl + n
                    && rem.end() == BASE + b.len()
            }
            (Ok(_), _) => false,
            (Err(Rej::Incomplete), Ok(Err(e))) => match e {
                asn1_rs::Err::Incomplete(_) => true,
                asn1_rs::Err::Error(x) | asn1_rs::Err::Failure(x) => x.inc().is_some(),
            },
            (Err(Rej::Bad(_)), Ok(Err(_))) => true,
            (Err(Rej::Unspec(_)), _) => true,
            (Err(_), Ok(Ok(_))) => false,
        };
        if want.is_ok() {
            c.hit("content-extracted");
        }
        c.check(ok, || format!("content/{api}"), d, b);
    }
}

fn arith(c: &mut Ctx, r: &mut Rng) {
    let mut pick = || if r.chance(1, 6) { None } else { Some(if r.chance(1, 2) { r.below(70000) } else { *r.pick(LENS) >> 2 }) };
    let l = |x: Option<usize>| x.map(Length::Definite).unwrap_or(Length::Indefinite);
    let (x, y, z) = (pick(), pick(), pick());
    let s2 = x.and_then(|x| y.map(|y| x + y));
    let s3 = s2.and_then(|s| z.map(|z| s + z));
    let mut ok = len_of(l(x) + l(y)) == s2;
    let mut t = l(x);
    t += l(y);
    ok &= len_of(t) == s2;
    ok &= len_of([l(x), l(y), l(z)].into_iter().sum::<Length>()) == s3;
    ok &= len_of([l(x), l(y), l(z)].iter().sum::<Length>()) == s3;
    if let Some(n) = y {
        ok &= len_of(l(x) + n) == s2 && len_of(n + l(x)) == s2;
        let mut t = l(x);
        t += n;
        ok &= len_of(t) == s2 && Length::from(n) == l(y);
    }
    c.hit("length-arithmetic");
    c.check(ok, || "length-arithmetic".into(), || format!("{x:?} {y:?} {z:?}"), &[]);
}

pub fn c04(c: &mut Ctx) {
    let mut r = c.rng.clone();
    // all identifier/length combinations at the boundaries, both ways
    let mut i = 0;
    for class in 0..4u8 {
        for constructed in [false, true] {
            for &tag in TAGS {
                for len in LENS.iter().map(|l| Some(*l)).chain([None]) {
                    i += 1;
                    if i % c.shards == c.shard {
                        write_case(c, class, constructed, tag, len);
                        preds(c, class, constructed, tag, len);
                    }
                }
            }
        }
    }
    // every tag number and length up to a few thousand
    let (tn, ln) = (c.n(20_000, 3_000_000), c.n(70_000, 20_000_000));
    let (sh, of) = (c.shard, c.shards);
    for t in (0..tn as u32).filter(|t| *t as usize % of == sh) {
        write_case(c, (t % 4) as u8, t % 3 == 0, t, Some(t as usize));
    }
    for n in (0..ln).filter(|n| n % of == sh).step_by(if c.quick() { 7 } else { 11 }) {
        write_case(c, 0, true, 16, Some(n));
    }
    // every 1- and 2-octet start, every identifier octet with every length octet, with a few continuations
    for b0 in 0..=255u8 {
        if b0 as usize % c.shards != c.shard {
            continue;
        }
        c.case("header", &[b0]);
        header_case(c, &[b0]);
        for b1 in 0..=255u8 {
            for tail in [&[][..], &[0], &[0, 0], &[0x7f, 0x7f], &[0x80, 0x80, 1], &[1; 9], &[0xff; 9], &[0; 12], &[0, 0, 0, 0, 0, 0, 0, 0, 1], &[5; 130]] {
                let b = [&[b0, b1], tail].concat();
                c.case("header", &b);
                c.distinct("header", &b);
                header_case(c, &b);
            }
        }
    }
    let n = c.n(60000, 700_000);
    for _ in 0..n {
        // a header with chosen forms, then random damage
        let mut b = vec![];
        let class = r.below(4) as u8;
        let (tag, cons) = (gen_tag(&mut r), r.chance(1, 2));
        if r.chance(1, 4) {
            // long form of the tag, possibly padded or too long
            b.push(class << 6 | if cons { 0x20 } else { 0 } | 31);
            for _ in 0..r.below(3) {
                b.push(0x80);
            }
            put_arc(if r.chance(1, 3) { r.next() as u128 >> r.below(64) } else { tag as u128 }, &mut b);
        } else {
            put_ident(class, cons, tag, &mut b);
        }
        match r.below(5) {
            0 => put_len(r.len(300), &mut b),
            1 => put_len_padded(r.len(300), r.below(6), &mut b),
            2 => put_len((r.next() >> r.below(64)) as usize, &mut b),
            3 => b.push(0x80),
            _ => {
                let k = r.below(128) as u8;
                b.push(0x80 | k);
                b.extend(r.bytes((k as usize).min(12)));
            }
        }
        let k = r.below(20);
        b.extend(r.bytes(k));
        if r.chance(1, 4) {
            b = mutate(&b, &mut r);
        }
        if r.chance(1, 4) {
            b.truncate(r.below(b.len() + 1));
        }
        c.case("header", &b);
        c.distinct("header", &b);
        header_case(c, &b);
        // content of whole objects
        let x = wild(&mut r);
        c.case("content", &x);
        content_case(c, &x);
        let v = gen_any(&mut r, 3);
        let x = ber(&S::Any, &v, &mut r, Forms::BER);
        content_case(c, &x);
        arith(c, &mut r);
    }
    if c.shard == 0 {
        for depth in 1..=60usize {
            for leaf in [&b""[..], &[5, 0]] {
                let mut b = vec![];
                for _ in 0..depth {
                    b.extend_from_slice(&[0x30, 0x80]);
                }
                b.extend_from_slice(leaf);
                b.resize(b.len() + 2 * depth, 0);
                c.case("content", &b);
                content_case(c, &b);
            }
        }
    }
    // the identifier and length octets that the encoders of all types write are minimal
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().filter(|s| s.enc_ber.is_some() || s.enc_der.is_some()).collect();
    let per = c.n(1000, 6000);
    sweep(c, 4, &refs, per, &[Kind::Der, Kind::Ber], &mut |c, s, _v, _k, b, r| {
        let tg = TagAs(r.below(4) as u8, gen_tag(r));
        for (f, name) in [(s.enc_ber, "ber"), (s.enc_der, "der")] {
            let Some(f) = f else { continue };
            let Ok(Some((v, e))) = guard(|| f(b, tg)) else { continue };
            let Ok(bytes) = &e.vec else { continue };
            if bytes.is_empty() {
                continue;
            }
            for (what, x) in [("plain", Some(bytes.clone())), ("explicit", e.expl.clone().ok().map(|x| x.1)), ("implicit", e.impl_.clone().ok().map(|x| x.1))] {
                let Some(x) = x else { continue };
                let h = header(&x);
                let ok = matches!(&h, Ok(h) if !h.nonmin_len && !h.nonmin_tag && (h.len == Some(x.len() - h.hl)));
                c.hit("encoder-header");
                c.check(ok, || format!("encoder-header:{what}/{}/{name}", s.name), || format!("{v:?} written as {}: {h:?}", hex(&x)), b);
                if let (Ok(h), true) = (&h, what != "plain") {
                    c.check(
                        (h.class, h.tag) == (tg.0, tg.1) && (what == "implicit" || h.constructed),
                        || format!("encoder-tag:{what}/{}/{name}", s.name),
                        || format!("{v:?} with tag {tg:?} written as {}", hex(&x)),
                        b,
                    );
                }
            }
        }
    });
}

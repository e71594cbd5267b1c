//! C24: positions of remaining input, content, headers, elements and errors.
use super::api::{eq, start};
use super::{all_subjects, diff_case};
use crate::ev::*;
use crate::gen::*;
use crate::model::{header, S};
use crate::rng::{mix, Rng};
use crate::subjects::{Subject, BASE};
use crate::work::*;
use asn1_rs::nom::error::ParseError;
use asn1_rs::nom::{AsBytes, Err, HexDisplay, IResult, Input as NomInput, Needed, Parser};
use asn1_rs::{Any, AnyIterator, BerError, BerMode, BerParser, DerMode, DerParser, Error, Header, InnerError, Input, Sequence, Set};

/// `i` must designate octets of `whole` (which starts at position `base`) by address and by span.
/// Returns the offset inside `whole`.
fn at(whole: &[u8], base: usize, i: &Input) -> Result<usize, String> {
    let d = i.as_bytes2();
    let (lo, p) = (whole.as_ptr() as usize, d.as_ptr() as usize);
    if d.len() != i.len() || i.as_bytes() != d || AsRef::<[u8]>::as_ref(i) != d || i.const_clone() != *i || i.clone().into_bytes() != d {
        return Err("views of one input differ".into());
    }
    if i.span() != &(i.start()..i.end()) || i.is_empty() != d.is_empty() || i.input_len() != d.len() {
        return Err("accessors of one input differ".into());
    }
    if p < lo || p + d.len() > lo + whole.len() {
        return Err("octets are not part of the input".into());
    }
    if i.start() != base + (p - lo) || i.end() != i.start() + d.len() {
        return Err(format!("span {}..{} for octets at {}..{}", i.start(), i.end(), base + (p - lo), base + (p - lo) + d.len()));
    }
    Ok(p - lo)
}

/// location of an error: part of the input, or an empty placeholder at 0
fn err_at(whole: &[u8], base: usize, e: &BerError<Input>) -> Result<(), String> {
    let i = e.input();
    if i.is_empty() && i.start() == 0 && i.end() == 0 {
        return Ok(());
    }
    at(whole, base, i).map(|_| ())
}
fn nom_err_at(whole: &[u8], base: usize, e: &Err<BerError<Input>>) -> Result<(), String> {
    match e {
        Err::Error(e) | Err::Failure(e) => err_at(whole, base, e),
        Err::Incomplete(_) => Ok(()),
    }
}

/// the parts of one captured object: header octets, identifier octets, content, end of contents
fn object(whole: &[u8], base: usize, a: &Any, off: usize, total: usize) -> Result<(), String> {
    let b = &whole[off..off + total];
    let h = header(b).map_err(|e| format!("reference header: {e:?}"))?;
    let d = at(whole, base, &a.data).map_err(|e| format!("content: {e}"))?;
    if d != off + h.hl {
        return Err(format!("content starts at {d}, header ends at {}", off + h.hl));
    }
    let eoc = if h.len.is_none() { 2 } else { 0 };
    if a.data.len() + h.hl + eoc != total {
        return Err(format!("content of {} octets in an object of {total}", a.data.len()));
    }
    if let Some(rh) = a.header.raw_header() {
        let p = at(whole, base, rh).map_err(|e| format!("raw header: {e}"))?;
        if p != off || rh.len() != h.hl {
            return Err(format!("raw header {}+{}, object at {off} with {} header octets", p, rh.len(), h.hl));
        }
    } else {
        return Err("raw header missing".into());
    }
    if let Some(t) = a.header.raw_tag() {
        if !b.starts_with(t) || t.len() >= h.hl {
            return Err("raw tag is not the identifier".into());
        }
        if t.as_ptr() != b.as_ptr() {
            return Err("raw tag is not the identifier of this object".into());
        }
    } else {
        return Err("raw tag missing".into());
    }
    if (a.header.class() as u8, a.header.constructed(), a.header.tag().0) != (h.class, h.constructed, h.tag) {
        return Err("fields differ from the octets".into());
    }
    Ok(())
}

/// walk over all elements below `i`, both modes; positions must tile the content
fn walk(c: &mut Ctx, whole: &[u8], base: usize, i: &Input, der: bool, depth: usize) {
    if depth == 0 {
        return;
    }
    let Ok(lo) = at(whole, base, i) else { return };
    let mut pos = lo;
    let mut subs: Vec<(Input, bool)> = vec![];
    let mut step = |c: &mut Ctx, r: Result<(Input, Any), BerError<Input>>| -> Option<(usize, usize, bool)> {
        match r {
            Ok((s, a)) => {
                let p = match at(whole, base, &s) {
                    Ok(p) => p,
                    Err(e) => {
                        c.viol("element-span".into(), e, whole);
                        return None;
                    }
                };
                c.checks += 1;
                if let Err(e) = object(whole, base, &a, p, s.len()) {
                    c.viol("element-parts".into(), e, whole);
                }
                Some((p, s.len(), a.header.constructed()))
            }
            Err(e) => {
                c.hit("error-position");
                if let Err(m) = err_at(whole, base, &e) {
                    c.viol("element-error-span".into(), m, whole);
                }
                None
            }
        }
    };
    let mut take = |c: &mut Ctx, r: Result<(Input<'_>, Any<'_>), BerError<Input<'_>>>, whole: &[u8]| -> bool {
        let Some((p, n, _)) = step(c, r) else { return false };
        c.hit("element");
        if p != pos {
            c.viol("element-gap".into(), format!("element at {p}, previous ended at {pos}"), whole);
        }
        pos = p + n;
        true
    };
    let r = guard(|| {
        if der {
            for r in AnyIterator::<DerMode>::new(i.clone()) {
                if let Ok((_, a)) = &r {
                    subs.push((Input::new(&[], 0..0), a.header.constructed()));
                    let k = subs.len() - 1;
                    subs[k].0 = a.data.clone();
                }
                if !take(c, r, whole) {
                    return false;
                }
            }
        } else {
            for r in AnyIterator::<BerMode>::new(i.clone()) {
                if let Ok((_, a)) = &r {
                    subs.push((a.data.clone(), a.header.constructed()));
                }
                if !take(c, r, whole) {
                    return false;
                }
            }
        }
        true
    });
    match r {
        Ok(true) if pos != lo + i.len() => c.viol("element-end".into(), format!("elements end at {pos}, content at {}", lo + i.len()), whole),
        Ok(_) => {}
        Err(p) => c.viol("element-panic".into(), p, whole),
    }
    for (s, cons) in subs {
        if cons {
            walk(c, whole, base, &s, der, depth - 1);
        }
    }
}

type P<'a, T> = IResult<Input<'a>, T, BerError<Input<'a>>>;

fn captured(c: &mut Ctx, b: &[u8], base: usize) {
    let inp = || Input::new(b, base..base + b.len());
    for (what, r) in [("Any::parse_ber", guard(|| Any::parse_ber(inp()))), ("Any::parse_der", guard(|| Any::parse_der(inp())))] {
        c.checks += 1;
        let m = match &r {
            Ok(Ok((rem, a))) => at(b, base, rem).and_then(|p| {
                if p + rem.len() != b.len() {
                    return Err("remaining input is not the tail".into());
                }
                object(b, base, a, 0, p)
            }),
            Ok(Err(e)) => nom_err_at(b, base, e),
            Err(p) => Err(p.clone()),
        };
        match m {
            Ok(()) => c.hit(if matches!(r, Ok(Ok(_))) { "captured" } else { "capture-error" }),
            Err(e) => c.viol(format!("capture/{what}"), e, b),
        }
    }
    for der in [false, true] {
        walk(c, b, base, &inp(), der, 6);
    }
    // content after a header
    let Ok(Ok((rest, h))) = guard(|| Header::parse_ber(inp())) else { return };
    let want = match header(b) {
        Ok(h) => crate::model::content(&h, &b[h.hl..], crate::model::MAX_DEPTH).ok().map(|(d, n)| (h, d, n)),
        Err(_) => None,
    };
    type F<'a> = (&'static str, bool, Box<dyn Fn() -> P<'a, Input<'a>> + 'a>);
    let fs: Vec<F> = vec![
        ("Header::parse_ber_content", false, Box::new(|| h.parse_ber_content(rest.clone()))),
        ("Header::parse_der_content", true, Box::new(|| h.parse_der_content(rest.clone()))),
        ("Any::parse_ber_content", false, Box::new(|| Any::parse_ber_content(rest.clone(), &h))),
        ("Any::parse_der_content", true, Box::new(|| Any::parse_der_content(rest.clone(), &h))),
    ];
    for (what, der, f) in fs {
        c.checks += 1;
        let m = match guard(f) {
            Err(p) => Err(p),
            Ok(Err(e)) => nom_err_at(b, base, &e),
            Ok(Ok((rem, d))) => (|| {
                let (r, p) = (at(b, base, &rem)?, at(b, base, &d)?);
                let Some((wh, wd, n)) = &want else { return Ok(()) };
                if der && wh.len.is_none() {
                    return Err("indefinite length in DER".to_string());
                }
                if p != wh.hl || d.len() != wd.len() || r != wh.hl + n || r + rem.len() != b.len() {
                    return Err(format!("content {p}+{}, remaining {r}; reference {}+{}, {}", d.len(), wh.hl, wd.len(), wh.hl + n));
                }
                Ok(())
            })(),
        };
        match m {
            Ok(()) => c.hit("content"),
            Err(e) => c.viol(format!("content/{what}"), e, b),
        }
    }
    // continuation functions: what the closure is given, and what is left
    macro_rules! then {
        ($t:ident, $f:ident) => {{
            let what = concat!(stringify!($t), "::", stringify!($f));
            c.checks += 1;
            let seen = std::cell::RefCell::new(None);
            let r = guard(|| {
                $t::$f(inp(), |h: Header<'_>, d: Input<'_>| -> P<()> {
                    *seen.borrow_mut() = Some((h.raw_header().map(|r| (r.start(), r.end())), at(b, base, &d), d.len()));
                    // what the closure leaves must not matter
                    Ok((d, ()))
                })
            });
            let m = match r {
                Err(p) => Err(p),
                Ok(Err(e)) => nom_err_at(b, base, &e),
                Ok(Ok((rem, ()))) => (|| {
                    let p = at(b, base, &rem)?;
                    let (rh, d, n) = seen.take().ok_or("closure not called")?;
                    let d = d?;
                    if rh.is_some_and(|r| r != (base, base + d)) {
                        return Err("header given to the closure is not the object's".to_string());
                    }
                    if let Some((wh, wd, wn)) = &want {
                        if d != wh.hl || n != wd.len() || p != wh.hl + wn || p + rem.len() != b.len() {
                            return Err(format!("content {d}+{n}, remaining {p}; reference {}+{}, {}", wh.hl, wd.len(), wh.hl + wn));
                        }
                    }
                    Ok(())
                })(),
            };
            match m {
                Ok(()) => c.hit("continuation"),
                Err(e) => c.viol(format!("continuation/{what}"), e, b),
            }
        }};
    }
    then!(Sequence, parse_ber_and_then);
    then!(Sequence, parse_der_and_then);
    then!(Set, parse_ber_and_then);
    then!(Set, parse_der_and_then);
    // an absent optional object leaves the input as it was
    macro_rules! opt {
        ($($t:ty),*) => {$(
            for (what, r) in [("ber", guard(|| <$t>::parse_ber_optional(inp()))), ("der", guard(|| <$t>::parse_der_optional(inp())))] {
                c.checks += 1;
                let m = match r {
                    Err(p) => Err(p),
                    Ok(Err(e)) => nom_err_at(b, base, &e),
                    Ok(Ok((rem, v))) => at(b, base, &rem).and_then(|p| {
                        if p + rem.len() != b.len() || (v.is_none() && p != 0) || (v.is_some() && p == 0) {
                            return Err(format!("optional value is {}, remaining input at {p}", if v.is_some() { "present" } else { "absent" }));
                        }
                        Ok(())
                    }),
                };
                if let Err(e) = m {
                    c.viol(format!("optional/{}/{what}", stringify!($t)), e, b);
                }
            }
        )*};
    }
    opt!(u32, bool, asn1_rs::OctetString, asn1_rs::Utf8String, Sequence, asn1_rs::Oid, Vec<u32>);
}

/// operations of the positioned input itself
fn inputs(c: &mut Ctx, r: &mut Rng) {
    let n = *r.pick(&[0, 1, 2, 3, 7, 16, 40]);
    let b = r.bytes(n);
    let base = *r.pick(&[0, 1, BASE, 1 << 20, usize::MAX - 64]);
    start(c, "input", &b);
    c.distinct("input", &b);
    let i = Input::new(&b, base..base + n);
    let same = |x: &Input, lo: usize, hi: usize| at(&b, base, x) == Ok(lo) && x.len() == hi - lo && x.as_bytes2() == &b[lo..hi];
    eq(c, "input/new", &b, true, || same(&i, 0, n));
    for k in 0..=n {
        eq(c, "input/take", &b, true, || same(&i.take(k), 0, k));
        eq(c, "input/take_from", &b, true, || same(&i.take_from(k), k, n));
        eq(c, "input/take_split", &b, true, || {
            let (suf, pre) = i.take_split(k);
            same(&pre, 0, k) && same(&suf, k, n)
        });
        // repeated splitting keeps absolute positions
        let j = r.below(n - k + 1);
        eq(c, "input/split-twice", &b, true, || {
            let t = i.take_from(k);
            same(&t.take(j), k, k + j) && same(&t.take_from(j), k + j, n) && same(&i.take(k + j).take_from(k), k, k + j)
        });
        // nom's own parsers on top
        eq(c, "input/nom-take", &b, true, || {
            let x: P<Input> = asn1_rs::nom::bytes::streaming::take(k)(i.clone());
            matches!(x, Ok((rem, d)) if same(&d, 0, k) && same(&rem, k, n))
        });
    }
    for k in [n, n + 1, n + 3, n + 1000] {
        let want = if k <= n { Ok(k) } else { Err(Needed::new(k - n)) };
        eq(c, "input/slice_index", &b, want, || i.slice_index(k));
        if k > n {
            eq(c, "input/nom-take-short", &b, true, || {
                let x: P<Input> = asn1_rs::nom::bytes::streaming::take(k)(i.clone());
                matches!(x, Err(Err::Incomplete(m)) if m == Needed::new(k - n))
            });
        }
    }
    let x = if n > 0 { b[r.below(n)] } else { 7 };
    eq(c, "input/position", &b, b.iter().position(|y| *y == x), || i.position(|y| y == x));
    eq(c, "input/iter", &b, b.clone(), || i.iter_elements().collect::<Vec<u8>>());
    eq(c, "input/iter-indices", &b, true, || i.iter_indices().eq(b.iter().copied().enumerate()));
    eq(c, "input/be_u8", &b, true, || {
        let x: P<u8> = asn1_rs::nom::number::streaming::be_u8(i.clone());
        match x {
            Ok((rem, y)) => y == b[0] && same(&rem, 1, n),
            Err(_) => n == 0,
        }
    });
    eq(c, "input/take_while", &b, true, || {
        let q: P<Input> = asn1_rs::nom::bytes::complete::take_while(|y| y != x)(i.clone());
        let k = b.iter().position(|y| *y == x).unwrap_or(n);
        matches!(q, Ok((rem, d)) if same(&d, 0, k) && same(&rem, k, n))
    });
    eq(c, "input/many", &b, true, || {
        let mut it = asn1_rs::nom::multi::many0_count(asn1_rs::nom::number::complete::be_u16::<Input, BerError<Input>>);
        matches!(it.parse(i.clone()), Ok((rem, k)) if k == n / 2 && same(&rem, n / 2 * 2, n))
    });
    let mut b = b.clone();
    b.reserve_exact(1 + r.below(40));
    eq(c, "input/from-slice", &b, true, || at(&b, 0, &Input::from_slice(&b)) == Ok(0) && at(&b, 0, &Input::from(&b[..])) == Ok(0) && at(&b, 0, &Input::from(&b)) == Ok(0));
    eq(c, "input/from-slice-len", &b, n, || Input::from_slice(&b).len());
    let arr = [1u8, 2, 3];
    eq(c, "input/from-array", &b, true, || at(&arr, 0, &Input::from(&arr)) == Ok(0) && Input::from(&arr).len() == 3);
    eq(c, "input/display", &b, format!("Input(start={} end={})", base, base + n), || i.to_string());
    eq(c, "input/hex", &b, b.to_hex(8), || i.to_hex(8));
    eq(c, "input/hex-from", &b, b.to_hex_from(16, 32), || i.to_hex_from(16, 32));
    eq(c, "input/default", &b, true, || Input::default() == Input::new(&[], 0..0));
    // equality looks at octets and position
    eq(c, "input/eq", &b, true, || i == i.clone() && i != Input::new(&b, (base ^ 1)..(base ^ 1) + n) && (n == 0 || i != i.take(n - 1)));
    // errors carry the location they are given
    let k = r.below(n + 1);
    let loc = i.take_from(k);
    let ok = |e: &BerError<Input>, inner: &InnerError| same(e.input(), k, n) && e.inner() == inner;
    let inv = InnerError::invalid_value(asn1_rs::Tag(3), "x");
    eq(c, "error/new", &b, true, || ok(&BerError::new(loc.clone(), InnerError::InvalidLength), &InnerError::InvalidLength));
    eq(c, "error/nom_err", &b, true, || matches!(BerError::nom_err(loc.clone(), InnerError::InvalidTag), Err::Error(e) if ok(&e, &InnerError::InvalidTag)));
    eq(c, "error/convert", &b, true, || matches!(BerError::convert(loc.clone())(InnerError::InvalidTag), Err::Error(e) if ok(&e, &InnerError::InvalidTag)));
    eq(c, "error/convert_into", &b, true, || matches!(BerError::convert_into::<BerError<Input>>(loc.clone())(InnerError::InvalidTag), Err::Error(e) if ok(&e, &InnerError::InvalidTag)));
    eq(c, "error/invalid_value", &b, true, || ok(&BerError::invalid_value(loc.clone(), asn1_rs::Tag(3), "x".into()), &inv));
    let ut = InnerError::UnexpectedTag { expected: Some(asn1_rs::Tag(1)), actual: asn1_rs::Tag(2) };
    eq(c, "error/unexpected_tag", &b, true, || ok(&BerError::unexpected_tag(loc.clone(), Some(asn1_rs::Tag(1)), asn1_rs::Tag(2)), &ut));
    let uc = InnerError::UnexpectedClass { expected: Some(asn1_rs::Class::Private), actual: asn1_rs::Class::Application };
    eq(c, "error/unexpected_class", &b, true, || ok(&BerError::unexpected_class(loc.clone(), Some(asn1_rs::Class::Private), asn1_rs::Class::Application), &uc));
    eq(c, "error/incomplete", &b, true, || ok(&BerError::incomplete(loc.clone(), Needed::new(4)), &InnerError::Incomplete(Needed::new(4))));
    eq(c, "error/err_input", &b, true, || ok(&BerError::err_input(&loc, InnerError::Unsupported), &InnerError::Unsupported));
    eq(c, "error/nom_err_input", &b, true, || matches!(BerError::nom_err_input(&loc, InnerError::Unsupported), Err::Error(e) if ok(&e, &InnerError::Unsupported)));
    eq(c, "error/consume", &b, true, || {
        let (j, e) = BerError::new(loc.clone(), InnerError::InvalidTag).consume();
        same(&j, k, n) && e == InnerError::InvalidTag
    });
    eq(c, "error/from_error_kind", &b, true, || {
        let e = BerError::from_error_kind(loc.clone(), asn1_rs::nom::error::ErrorKind::Tag);
        same(e.input(), k, n)
    });
    eq(c, "error/from-pair", &b, true, || {
        let e = BerError::from((loc.clone(), Error::InvalidLength));
        ok(&e, &InnerError::InvalidLength)
    });
    eq(c, "error/from-pair-keeps", &b, true, || {
        let e = BerError::from((i.clone(), BerError::new(loc.clone(), InnerError::InvalidLength)));
        ok(&e, &InnerError::InvalidLength)
    });
}

pub fn c24(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().collect();
    let per = c.n(1500, 6000);
    sweep(c, 24, &refs, per, ALL, &mut |c, s, _v, _k, b, r| {
        diff_case(c, s, b, &|m| m.kind == "span");
        if r.below(8) == 0 {
            let base = *r.pick(&[0, 1, BASE, 1 << 33]);
            captured(c, b, base);
        }
    });
    let mut r = Rng::new(mix(c.seed ^ 0x24_24 ^ ((c.shard as u64) << 32)));
    for _ in 0..c.n(600, 4000) {
        inputs(c, &mut r);
    }
    // trees of arbitrary objects
    for _ in 0..c.n(2000, 10_000) {
        let v = gen_any(&mut r, 4);
        let mut b = match r.below(4) {
            0 => der(&S::Any, &v),
            1 => ber(&S::Any, &v, &mut r, Forms::BER),
            2 => wild(&mut r),
            _ => {
                let b = der(&S::Any, &v);
                mutate(&b, &mut r)
            }
        };
        if r.below(2) == 0 {
            let n = r.below(4);
            b.extend(r.bytes(n));
        }
        start(c, "tree", &b);
        c.distinct("tree", &b);
        let base = *r.pick(&[0, 5, BASE, usize::MAX / 2]);
        captured(c, &b, base);
    }
}

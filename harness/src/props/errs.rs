//! C29: the reason an error gives is true of the refused input, and survives conversions between error types.
use super::api::{eq, start};
use super::*;
use crate::rng::mix;
use asn1_rs::nom::error::{ErrorKind, ParseError};
use asn1_rs::*;
use std::collections::HashSet;
use std::num::NonZeroUsize;

/// Is `why` true of an object of leaf type `s` (header `h`, content `ct`)? None: it says nothing that can be checked.
fn truth(s: &S, m: Mode, h: &Hdr, ct: Option<&[u8]>, why: &Why) -> Option<bool> {
    let own = universal_tag(s);
    let int = matches!(s, S::Int(_) | S::Enumerated | S::EnumT(_));
    // header of a segment of a constructed string
    let seg = h.constructed && matches!(s, S::BitStr | S::OctStr | S::Str(_));
    Some(match why {
        Why::Tag(exp, act) if !seg => *act == h.tag && Some(h.tag) != own && (exp.is_none() || *exp == own || matches!(s, S::Oid)),
        Why::Class(exp, act) if !seg => *act == h.class && exp.is_none_or(|e| e != h.class),
        Why::ConstructExpected => !h.constructed || seg,
        Why::ConstructUnexpected | Why::Der(DerConstraint::Constructed) => h.constructed,
        Why::Der(DerConstraint::NotConstructed) => !h.constructed,
        Why::Indefinite | Why::Der(DerConstraint::IndefiniteLength) => h.len.is_none() || seg,
        Why::Charset => ct.is_none_or(|c| match s {
            S::Str(k) => {
                let mut cx = Cx::default();
                seg || string(*k, c, &mut cx).is_err() || !cx.lenient.is_empty()
            }
            S::Utc | S::Gen => !c.iter().all(|x| (0x20..0x7f).contains(x)),
            // a decimal number that is no text
            S::Real | S::F32 => c.first().is_some_and(|x| *x < 0x40) && std::str::from_utf8(&c[1..]).is_err(),
            _ => false,
        }),
        Why::DateTime => matches!(s, S::Utc | S::Gen) && ct.is_none_or(|c| match s {
            S::Utc => utctime(m, c, &mut Cx::default()).is_err(),
            _ => gentime(m, c, &mut Cx::default()).is_err(),
        }),
        Why::InvalidValue(t) => Some(*t) == own || (matches!(s, S::Oid) && (*t == 6 || *t == 13)),
        Why::TooLarge => int && ct.is_none_or(|c| match s {
            S::Int(k) => !int_fits(&min_int(c), *k),
            _ => c.len() > 4,
        }),
        Why::Negative => int && ct.is_none_or(|c| c.first().is_some_and(|x| *x >= 0x80)),
        Why::Der(d) => match (d, ct) {
            (DerConstraint::UnusedBitsNotZero, Some(c)) => matches!(s, S::BitStr) && c.len() > 1 && (c[0] > 7 || c[c.len() - 1] & ((1u8 << c[0]).wrapping_sub(1)) != 0),
            (DerConstraint::InvalidBoolean, Some(c)) => matches!(s, S::Bool) && !matches!(c, [0] | [0xff]),
            (DerConstraint::IntegerEmpty, Some(c)) => int && c.is_empty(),
            (DerConstraint::IntegerLeadingZeroes, Some(c)) => int && matches!(c, [0, x, ..] if *x < 0x80),
            (DerConstraint::IntegerLeadingFF, Some(c)) => int && matches!(c, [0xff, x, ..] if *x >= 0x80),
            (DerConstraint::MissingTimeZone | DerConstraint::MissingSeconds, Some(_)) => matches!(s, S::Utc | S::Gen),
            _ => return None,
        },
        Why::MaxDepth => h.constructed,
        _ => return None,
    })
}

/// What can be found in an input by reading the content of every object, however framed, as further objects
#[derive(Default)]
struct Seen<'a> {
    tags: HashSet<u32>,
    classes: HashSet<u8>,
    /// primitive, constructed
    form: [bool; 2],
    indefinite: bool,
    contents: Vec<&'a [u8]>,
    /// not everything was looked at
    partial: bool,
}
fn seen<'a>(mut b: &'a [u8], depth: usize, o: &mut Seen<'a>) {
    while !b.is_empty() {
        if depth > 80 || o.contents.len() > 3000 {
            o.partial = true;
            return;
        }
        let h = match header(b) {
            Ok(h) => h,
            Err(_) => {
                // its identifier may have been read
                let mut tag = (b[0] & 0x1f) as u128;
                let mut p = 1;
                if tag == 31 {
                    tag = 0;
                    while let Some(x) = b.get(p) {
                        p += 1;
                        tag = ((tag << 7) | (x & 0x7f) as u128) & ((1 << 100) - 1);
                        if x & 0x80 == 0 {
                            break;
                        }
                    }
                }
                o.tags.insert(tag as u32);
                o.classes.insert(b[0] >> 6);
                o.form[(b[0] >> 5 & 1) as usize] = true;
                o.indefinite |= b.get(p) == Some(&0x80);
                o.contents.push(b.get(p + 1..).unwrap_or(&[]));
                return;
            }
        };
        o.tags.insert(h.tag);
        o.classes.insert(h.class);
        o.form[h.constructed as usize] = true;
        let rest = &b[h.hl..];
        match h.len {
            None => {
                o.indefinite = true;
                o.contents.push(rest);
                b = rest;
            }
            Some(n) => {
                let (x, y) = rest.split_at(n.min(rest.len()));
                o.contents.push(x);
                seen(x, depth + 1, o);
                b = y;
            }
        }
    }
}
/// Is `why` true of something in the input?
fn possible(o: &Seen, why: &Why) -> Option<bool> {
    let any = |f: &dyn Fn(&[u8]) -> bool| o.contents.iter().any(|c| f(c));
    if o.partial {
        return None;
    }
    Some(match why {
        Why::Tag(exp, act) => o.tags.contains(act) && *exp != Some(*act),
        Why::Class(exp, act) => o.classes.contains(act) && *exp != Some(*act),
        Why::UnknownTag(t) => o.tags.contains(t),
        Why::ConstructExpected | Why::Der(DerConstraint::NotConstructed) => o.form[0],
        Why::ConstructUnexpected | Why::Der(DerConstraint::Constructed) | Why::MaxDepth => o.form[1],
        Why::Indefinite | Why::Der(DerConstraint::IndefiniteLength) => o.indefinite,
        Why::Charset => any(&|c| !c.iter().all(|x| x.is_ascii_digit())),
        Why::Negative => any(&|c| c.first().is_some_and(|x| *x >= 0x80)),
        Why::TooLarge => any(&|c| c.len() > 1 || c.first().is_some_and(|x| *x >= 0x80)),
        Why::Der(DerConstraint::UnusedBitsNotZero) => any(&|c| c.len() > 1 && c[0] > 0),
        Why::Der(DerConstraint::InvalidBoolean) => any(&|c| !matches!(c, [0] | [0xff])),
        Why::Der(DerConstraint::IntegerEmpty) => any(&|c| c.is_empty()),
        Why::Der(DerConstraint::IntegerLeadingZeroes) => any(&|c| matches!(c, [0, x, ..] if *x < 0x80)),
        Why::Der(DerConstraint::IntegerLeadingFF) => any(&|c| matches!(c, [0xff, x, ..] if *x >= 0x80)),
        _ => return None,
    })
}

pub fn c29(c: &mut Ctx) {
    conversions(c);
    custom(c);
    let subs = all_subjects();
    let leafs: Vec<&Subject> = subs
        .iter()
        .filter(|s| matches!(s.s, S::Bool | S::Int(_) | S::BitStr | S::OctStr | S::Null | S::Real | S::F32 | S::Enumerated | S::EnumT(_) | S::Utc | S::Gen | S::Str(_) | S::Oid))
        .collect();
    let per = c.n(1500, 20000);
    sweep(c, 29, &leafs, per, &[Kind::Hostile, Kind::Retag, Kind::Noncanon, Kind::Tree, Kind::Mut, Kind::Indef], &mut |c, s, _v, _k, b, _r| {
        let Ok(h) = header(b) else { return };
        note(c, s, b);
        let ct = content(&h, &b[h.hl..], MAX_DEPTH).ok().map(|x| x.0);
        for d in &s.decs {
            c.checks += 1;
            let Ok(o) = guard(|| (d.f)(b)) else { continue };
            let Some(why) = o.why else { continue };
            let name = format!("{why:?}");
            let name = name.split(['(', ' ']).next().unwrap_or("");
            c.hit("reason");
            match truth(&s.s, d.mode, &h, ct, &why) {
                Some(true) => c.hit("reason-true"),
                Some(false) => c.viol(format!("untrue-reason:{name}/{}/{}", s.name, d.api), o.msg.clone(), b),
                None => c.hit("reason-general"),
            }
            // a number out of range is told apart from one of the wrong sign
            if let (S::Int(k), Some(ct)) = (&s.s, ct) {
                let plain = h.class == 0 && h.tag == 2 && !h.constructed && !ct.is_empty() && h.len.is_some() && !h.nonmin_len && !h.nonmin_tag;
                if plain && d.shape == Shape::Plain && o.out == Out::Err {
                    let neg = ct[0] >= 0x80;
                    let min = min_int(ct) == ct;
                    if !int_fits(&min_int(ct), *k) && (d.mode == Mode::Ber || min) {
                        let want = if neg && matches!(k, IntK::U(_)) { Why::Negative } else { Why::TooLarge };
                        c.hit("integer-reason");
                        c.check(why == want, || format!("integer-reason/{}/{}", s.name, d.api), || format!("{want:?} expected: {}", o.msg), b);
                    }
                }
            }
            // the text is there and the two forms agree with the value
            c.check(o.msg.len() > 8 && !o.msg.ends_with("/ "), || format!("error-text/{}/{}", s.name, d.api), || o.msg.clone(), b);
        }
    });
    let rest: Vec<&Subject> = subs.iter().filter(|s| !leafs.iter().any(|l| l.name == s.name)).collect();
    sweep(c, 2900, &rest, per / 2, &[Kind::Hostile, Kind::Retag, Kind::Noncanon, Kind::Tree, Kind::Mut, Kind::Indef], &mut |c, s, _v, _k, b, _r| {
        note(c, s, b);
        let mut o = Seen::default();
        seen(b, 0, &mut o);
        for d in &s.decs {
            c.checks += 1;
            let Ok(x) = guard(|| (d.f)(b)) else { continue };
            let Some(why) = x.why else { continue };
            c.hit("reason-inside");
            match possible(&o, &why) {
                Some(true) => c.hit("reason-inside-true"),
                Some(false) => {
                    let name = format!("{why:?}");
                    c.viol(format!("untrue-reason:{}/{}/{}", name.split(['(', ' ']).next().unwrap_or(""), s.name, d.api), x.msg.clone(), b)
                }
                None => c.hit("reason-inside-general"),
            }
        }
    });
}

fn some_tag(r: &mut Rng) -> Tag {
    Tag(gen_tag(r))
}
fn some_class(r: &mut Rng) -> Class {
    Class::try_from(r.below(4) as u8).unwrap()
}
const CONSTRAINTS: [DerConstraint; 10] = [
    DerConstraint::IndefiniteLength,
    DerConstraint::Constructed,
    DerConstraint::NotConstructed,
    DerConstraint::MissingTimeZone,
    DerConstraint::MissingSeconds,
    DerConstraint::UnusedBitsNotZero,
    DerConstraint::InvalidBoolean,
    DerConstraint::IntegerEmpty,
    DerConstraint::IntegerLeadingZeroes,
    DerConstraint::IntegerLeadingFF,
];
fn some_needed(r: &mut Rng) -> Needed {
    match r.below(3) {
        0 => Needed::Unknown,
        _ => Needed::Size(NonZeroUsize::new(1 + r.next() as usize % 100000).unwrap()),
    }
}
fn some_error(r: &mut Rng) -> (Error, InnerError) {
    macro_rules! both {
        ($($t:tt)*) => { (Error::$($t)*, InnerError::$($t)*) };
    }
    let opt = r.chance(1, 2);
    match r.below(21) {
        0 => both!(BerTypeError),
        1 => both!(BerValueError),
        2 => both!(InvalidLength),
        3 => {
            let (tag, n) = (some_tag(r), r.next());
            both!(InvalidValue { tag, msg: format!("m{n}") })
        }
        4 => both!(InvalidTag),
        5 => {
            let n = r.next() as u32;
            both!(UnknownTag(n))
        }
        6 => {
            let (e, actual) = (some_tag(r), some_tag(r));
            let expected = opt.then_some(e);
            both!(UnexpectedTag { expected, actual })
        }
        7 => {
            let (e, actual) = (some_class(r), some_class(r));
            let expected = opt.then_some(e);
            both!(UnexpectedClass { expected, actual })
        }
        8 => both!(IndefiniteLengthUnexpected),
        9 => both!(ConstructExpected),
        10 => both!(ConstructUnexpected),
        11 => both!(IntegerTooLarge),
        12 => both!(IntegerNegative),
        13 => both!(BerMaxDepth),
        14 => both!(StringInvalidCharset),
        15 => both!(InvalidDateTime),
        16 => {
            let d = *r.pick(&CONSTRAINTS);
            both!(DerConstraintFailed(d))
        }
        17 => both!(LifetimeError),
        18 => both!(Unsupported),
        19 => {
            let n = some_needed(r);
            both!(Incomplete(n))
        }
        _ => {
            let k = *r.pick(&[ErrorKind::Tag, ErrorKind::Eof, ErrorKind::Verify, ErrorKind::Many0, ErrorKind::Fail]);
            (Error::NomError(k), InnerError::Nom(k))
        }
    }
}

fn conversions(c: &mut Ctx) {
    let n = c.n(4000, 40000);
    let mut r = Rng::new(mix(c.seed ^ 0x29_0000 ^ c.shard as u64));
    for _ in 0..n / c.shards + 1 {
        let (e, i) = some_error(&mut r);
        let id = format!("{e:?}");
        let id = id.as_bytes();
        start(c, "error-conversion", id);
        let buf = [0u8; 12];
        let (lo, hi) = (r.below(6), 6 + r.below(6));
        let at = || Input::new(&buf[lo..hi], 100 + lo..100 + hi);
        eq(c, "Error->InnerError", id, i.clone(), || InnerError::from(e.clone()));
        eq(c, "InnerError->Error", id, e.clone(), || Error::from(i.clone()));
        eq(c, "BerError::new", id, (i.clone(), at()), || { let x = BerError::new(at(), i.clone()); (x.inner().clone(), x.input().clone()) });
        eq(c, "BerError::consume", id, (at(), i.clone()), || BerError::new(at(), i.clone()).consume());
        eq(c, "BerError::err_input", id, (at(), i.clone()), || BerError::err_input(&at(), i.clone()).consume());
        eq(c, "BerError->Error", id, e.clone(), || Error::from(BerError::new(at(), i.clone())));
        eq(c, "Error->BerError", id, i.clone(), || BerError::from(e.clone()).inner().clone());
        eq(c, "(Input,Error)->BerError", id, (at(), i.clone()), || BerError::from((at(), e.clone())).consume());
        eq(c, "(Input,BerError)->BerError", id, (at(), i.clone()), || BerError::from((Input::from_slice(&buf), BerError::new(at(), i.clone()))).consume());
        type BE<'a> = BerError<Input<'a>>;
        let errs = || [Err::Error(BerError::new(at(), i.clone())), Err::Failure(BerError::new(at(), i.clone()))];
        for k in 0..2 {
            eq(c, "Error::from_nom_berr", id, e.clone(), || Error::from_nom_berr(errs()[k].clone_err()));
            eq(c, "from_nom_error", id, e.clone(), || from_nom_error::<BE, Error>(errs()[k].clone_err()));
            eq(c, "from_nom_error(BerError)", id, (at(), i.clone()), || from_nom_error::<BE, BE>(errs()[k].clone_err()).consume());
            eq(c, "from_nom_bererror", id, (at(), i.clone()), || from_nom_bererror::<BE, BE>(Input::from_slice(&buf), errs()[k].clone_err()).consume());
        }
        let ne = |k| if k == 0 { Err::Error(e.clone()) } else { Err::Failure(e.clone()) };
        for k in 0..2 {
            eq(c, "nom::Err<Error>->Error", id, e.clone(), || Error::from(ne(k)));
            eq(c, "from_nom_error(Error)", id, e.clone(), || from_nom_error::<Error, Error>(ne(k)));
            eq(c, "from_nom_bererror(Error)", id, (at(), i.clone()), || from_nom_bererror::<Error, BE>(at(), ne(k)).consume());
        }
        let need = some_needed(&mut r);
        eq(c, "incomplete kept", id, Error::Incomplete(need), || Error::from(Err::<Error>::Incomplete(need)));
        eq(c, "incomplete kept (from_nom_berr)", id, Error::Incomplete(need), || Error::from_nom_berr(Err::Incomplete(need)));
        eq(c, "incomplete kept (from_nom_error)", id, Error::Incomplete(need), || from_nom_error::<BE, Error>(Err::Incomplete(need)));
        eq(c, "incomplete kept (from_nom_bererror)", id, InnerError::Incomplete(need), || from_nom_bererror::<BE, BE>(at(), Err::Incomplete(need)).inner().clone());
        eq(c, "BerError::incomplete", id, (at(), InnerError::Incomplete(need)), || BerError::incomplete(at(), need).consume());
        eq(c, "nom_err", id, Some((at(), i.clone())), || match BerError::nom_err(at(), i.clone()) { Err::Error(x) => Some(x.consume()), _ => None });
        eq(c, "nom_err_input", id, Some((at(), i.clone())), || match BerError::nom_err_input(&at(), i.clone()) { Err::Error(x) => Some(x.consume()), _ => None });
        eq(c, "convert", id, Some((at(), i.clone())), || match BerError::convert(at())(i.clone()) { Err::Error(x) => Some(x.consume()), _ => None });
        eq(c, "convert_into", id, Some((at(), i.clone())), || match BerError::convert_into::<BE>(at())(i.clone()) { Err::Error(x) => Some(x.consume()), _ => None });
        eq(c, "Error into nom::Err", id, Some(e.clone()), || match Err::<Error>::from(e.clone()) { Err::Error(x) => Some(x), _ => None });
        eq(c, "SerializeError keeps", id, Some(e.clone()), || match SerializeError::from(e.clone()) { SerializeError::ASN1Error(x) => Some(x), _ => None });
        let k = *r.pick(&[ErrorKind::Tag, ErrorKind::Eof, ErrorKind::Verify]);
        eq(c, "from_error_kind", id, (at(), InnerError::Nom(k)), || BE::from_error_kind(at(), k).consume());
        eq(c, "Error::from_error_kind", id, Error::NomError(k), || <Error as ParseError<&[u8]>>::from_error_kind(&[], k));
        let (t, u, cl, cm) = (some_tag(&mut r), some_tag(&mut r), some_class(&mut r), some_class(&mut r));
        eq(c, "unexpected_tag", id, (Error::UnexpectedTag { expected: Some(t), actual: u }, InnerError::UnexpectedTag { expected: Some(t), actual: u }), || (Error::unexpected_tag(Some(t), u), BerError::unexpected_tag(at(), Some(t), u).consume().1));
        eq(c, "unexpected_class", id, (Error::UnexpectedClass { expected: Some(cl), actual: cm }, InnerError::UnexpectedClass { expected: Some(cl), actual: cm }), || (Error::unexpected_class(Some(cl), cm), BerError::unexpected_class(at(), Some(cl), cm).consume().1));
        eq(c, "invalid_value", id, (Error::InvalidValue { tag: t, msg: "x".into() }, InnerError::InvalidValue { tag: t, msg: "x".into() }, InnerError::InvalidValue { tag: t, msg: "x".into() }), || {
            (Error::invalid_value(t, "x".into()), InnerError::invalid_value(t, "x"), BerError::invalid_value(at(), t, "x".into()).consume().1)
        });
        // asserting functions name what they found
        eq(c, "Tag::assert_eq", id, if t == u { None } else { Some(Error::UnexpectedTag { expected: Some(t), actual: u }) }, || u.assert_eq(t).err());
        eq(c, "Class::assert_eq", id, if cl == cm { None } else { Some(Error::UnexpectedClass { expected: Some(cl), actual: cm }) }, || cm.assert_eq(cl).err());
        let cons = r.chance(1, 2);
        let hd = Header::new(cm, cons, u, Length::Definite(0));
        eq(c, "Header::assert_tag", id, if t == u { None } else { Some(Error::UnexpectedTag { expected: Some(t), actual: u }) }, || hd.assert_tag(t).err());
        eq(c, "Header::assert_class", id, if cl == cm { None } else { Some(Error::UnexpectedClass { expected: Some(cl), actual: cm }) }, || hd.assert_class(cl).err());
        eq(c, "Header::assert_primitive", id, cons.then_some(Error::ConstructUnexpected), || hd.assert_primitive().err());
        eq(c, "Header::assert_constructed", id, (!cons).then_some(Error::ConstructExpected), || hd.assert_constructed().err());
        eq(c, "Length::assert_definite", id, (None, true), || (Length::Definite(3).assert_definite().err(), Length::Indefinite.assert_definite().is_err()));
        // what is said contains what is known
        let (de, di) = (format!("{e}"), format!("{i}"));
        let parts: Vec<String> = match &e {
            Error::UnexpectedTag { expected, actual } => vec![format!("{expected:?}"), format!("{actual:?}")],
            Error::UnexpectedClass { expected, actual } => vec![format!("{expected:?}"), format!("{actual:?}")],
            Error::UnknownTag(t) => vec![format!("{t}")],
            Error::InvalidValue { msg, .. } => vec![msg.clone()],
            Error::DerConstraintFailed(d) => vec![format!("{d:?}")],
            _ => vec![],
        };
        c.check(!de.is_empty() && (de == di || matches!(e, Error::NomError(_))), || "api:error text differs".into(), || format!("{de} / {di}"), id);
        c.check(parts.iter().all(|p| de.contains(p)), || "api:error text omits".into(), || format!("{de} lacks one of {parts:?}"), id);
    }
    let bad = [b'a', 0xff, 0xfe];
    eq(c, "utf8 error", &bad, (Error::StringInvalidCharset, InnerError::StringInvalidCharset), || { let x = std::str::from_utf8(std::hint::black_box(&bad[..])).unwrap_err(); (Error::from(x), InnerError::from(x)) });
    eq(c, "FromUtf8Error", &bad, (Error::StringInvalidCharset, InnerError::StringInvalidCharset), || { let x = || String::from_utf8(bad.to_vec()).unwrap_err(); (Error::from(x()), InnerError::from(x())) });
    eq(c, "FromUtf16Error", &bad, (Error::StringInvalidCharset, InnerError::StringInvalidCharset), || { let x = || String::from_utf16(&[0xd800, 1]).unwrap_err(); (Error::from(x()), InnerError::from(x())) });
    eq(c, "io error", &bad, true, || matches!(SerializeError::from(std::io::Error::from(std::io::ErrorKind::BrokenPipe)), SerializeError::IOError(e) if e.kind() == std::io::ErrorKind::BrokenPipe));
}

trait CloneErr {
    fn clone_err(&self) -> Self;
}
impl CloneErr for Err<BerError<Input<'_>>> {
    fn clone_err(&self) -> Self {
        let k = |e: &BerError<_>| BerError::new(Clone::clone(e.input()), e.inner().clone());
        match self {
            Err::Error(e) => Err::Error(BerError::new(e.input().const_clone(), e.inner().clone())),
            Err::Failure(e) => Err::Failure(BerError::new(e.input().const_clone(), e.inner().clone())),
            Err::Incomplete(n) => {
                let _: fn(&BerError<Input<'static>>) -> BerError<Input<'static>> = k;
                Err::Incomplete(*n)
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ errors of derived types
/// an error type of the application
#[derive(Debug, PartialEq, Clone)]
pub enum Mine {
    Lib(Error),
    Mapped(Error),
    Nom(ErrorKind),
}
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl From<Error> for Mine {
    fn from(e: Error) -> Self {
        Mine::Lib(e)
    }
}
impl From<BerError<Input<'_>>> for Mine {
    fn from(e: BerError<Input<'_>>) -> Self {
        Mine::Lib(e.into())
    }
}
impl<I> ParseError<I> for Mine {
    fn from_error_kind(_: I, k: ErrorKind) -> Self {
        Mine::Nom(k)
    }
    fn append(_: I, _: ErrorKind, o: Self) -> Self {
        o
    }
}
fn map_err(e: Error) -> Mine {
    Mine::Mapped(e)
}
fn map_ber(e: BerError<Input<'_>>) -> Mine {
    Mine::Mapped(e.into())
}
// the older derive, with the application's error type
#[derive(Debug, PartialEq, DerSequence)]
#[error(Mine)]
pub struct EOld {
    pub a: u8,
    #[map_err(map_err)]
    pub b: u8,
    #[tag_explicit(1)]
    #[map_err(map_err)]
    pub d: u8,
}
#[derive(Debug, PartialEq, DerSequence)]
pub struct EOldPlain {
    pub a: u8,
    pub b: u8,
    #[tag_explicit(1)]
    pub d: u8,
}
#[derive(Debug, PartialEq, Sequence)]
#[error(Mine)]
pub struct ENew {
    pub a: u8,
    #[map_err(map_ber)]
    pub b: u8,
    #[map_err(map_ber)]
    #[optional]
    pub d: Option<u16>,
}
#[derive(Debug, PartialEq, Sequence)]
pub struct ENewPlain {
    pub a: u8,
    pub b: u8,
    #[optional]
    pub d: Option<u16>,
}
type Told = std::result::Result<(Vec<u32>, usize), Option<Error>>;
fn flat<T, E>(b: &[u8], r: std::result::Result<(usize, T), Err<E>>, v: impl Fn(T) -> Vec<u32>, e: impl Fn(E) -> Option<Error>) -> Told {
    match r {
        Ok((n, t)) => Ok((v(t), b.len() - n)),
        Err(Err::Incomplete(n)) => Err(Some(Error::Incomplete(n))),
        Err(Err::Error(x) | Err::Failure(x)) => Err(e(x)),
    }
}
fn mapped(at: u8) -> impl Fn(Mine) -> Option<Error> {
    // `at` is the component that is wrong: errors of the first are the library's, those of the others are mapped
    move |m| match m {
        Mine::Lib(e) if at == 0 => Some(e),
        Mine::Mapped(e) if at > 0 => Some(e),
        _ => None,
    }
}
fn custom(c: &mut Ctx) {
    let n = c.n(4000, 40000);
    let mut r = Rng::new(mix(c.seed ^ 0x29_1000 ^ c.shard as u64));
    for _ in 0..n / c.shards + 1 {
        // one component is spoiled
        let at = r.below(4) as u8;
        let bad = hostile_content(&S::Int(IntK::U(8)), &mut r);
        let bad_tag = if r.chance(1, 3) { 4 } else { 2 };
        let mut ok = true;
        let mut comp = |i: u8, r: &mut Rng| {
            let mut o = vec![];
            if i == at {
                tlv(0, false, bad_tag, &bad, &mut o);
                ok = bad_tag == 2 && bad.len() == 1 && bad[0] < 0x80;
            } else {
                tlv(0, false, 2, &[r.below(128) as u8], &mut o);
            }
            o
        };
        let (a, b, d) = (comp(0, &mut r), comp(1, &mut r), comp(2, &mut r));
        let mut body = [a.clone(), b.clone()].concat();
        tlv(2, true, 1, &d, &mut body);
        let mut old = vec![];
        tlv(0, true, 16, &body, &mut old);
        let mut new = vec![];
        tlv(0, true, 16, &[a, b, d].concat(), &mut new);
        start(c, "error-types", &old);
        c.hit(if ok || at == 3 { "custom-accepted" } else { "custom-refused" });
        let ov = |x: EOldPlain| vec![x.a as u32, x.b as u32, x.d as u32];
        let om = |x: EOld| vec![x.a as u32, x.b as u32, x.d as u32];
        let nv = |x: ENewPlain| vec![x.a as u32, x.b as u32, x.d.map_or(999999, |x| x as u32)];
        let nm = |x: ENew| vec![x.a as u32, x.b as u32, x.d.map_or(999999, |x| x as u32)];
        let want = flat(&old, EOldPlain::from_der(&old).map(|(r, v)| (r.len(), v)), ov, Some);
        eq(c, "error(..) from_der", &old, want, || flat(&old, EOld::from_der(&old).map(|(r, v)| (r.len(), v)), om, mapped(at)));
        let want = flat(&old, EOldPlain::from_ber(&old).map(|(r, v)| (r.len(), v)), ov, Some);
        eq(c, "error(..) from_ber", &old, want, || flat(&old, EOld::from_ber(&old).map(|(r, v)| (r.len(), v)), om, mapped(at)));
        let want = flat(&new, ENewPlain::parse_ber(mk(&new)).map(|(r, v)| (r.len(), v)), nv, |e| Some(e.into()));
        eq(c, "error(..) parse_ber", &new, want, || flat(&new, ENew::parse_ber(mk(&new)).map(|(r, v)| (r.len(), v)), nm, mapped(at)));
        let want = flat(&new, ENewPlain::parse_der(mk(&new)).map(|(r, v)| (r.len(), v)), nv, |e| Some(e.into()));
        eq(c, "error(..) parse_der", &new, want, || flat(&new, ENew::parse_der(mk(&new)).map(|(r, v)| (r.len(), v)), nm, mapped(at)));
    }
}

//! C17: derived structures with parsers of the application (`asn1(parse = "..")`, `orig_input`, `header`). They are
//! compared with the same structure without, and with what the parser must have been given.
use super::api::{eq, start};
use super::*;
use crate::rng::mix;
use asn1_rs::nom::{Err, IResult};
use asn1_rs::*;

#[derive(Debug, PartialEq, Sequence)]
#[asn1(parse = "BER,DER", encode = "")]
struct TRaw {
    a: u32,
    #[optional]
    b: Option<bool>,
}
#[derive(Debug, PartialEq, Sequence)]
#[asn1(parse = "BER,DER", encode = "", orig_input)]
struct PRaw<'a> {
    #[asn1(parse = "|input| Ok((input, (header.class() as u8, header.tag().0, header.constructed())))")]
    h: (u8, u32, bool),
    a: u32,
    #[asn1(parse = "|input| Ok((input, orig_input))")]
    raw: Input<'a>,
    #[optional]
    b: Option<bool>,
    #[asn1(parse = "rest")]
    rest: (usize, Vec<u8>),
}
#[derive(Debug, PartialEq, Set)]
#[asn1(parse = "BER,DER", encode = "")]
struct TSet<'a> {
    #[tag_implicit(3)]
    a: &'a [u8],
    c: bool,
}
#[derive(Debug, PartialEq, Set)]
#[asn1(parse = "BER,DER", encode = "", orig_input)]
struct PSet<'a> {
    #[asn1(parse = "|input| Ok((input, (header.class() as u8, header.tag().0, header.constructed())))")]
    h: (u8, u32, bool),
    #[tag_implicit(3)]
    a: &'a [u8],
    #[asn1(parse = "rest")]
    rest: (usize, Vec<u8>),
    c: bool,
    #[asn1(parse = "|input| Ok((input, orig_input))")]
    raw: Input<'a>,
}
/// what the parser was given
fn rest(input: Input) -> IResult<Input, (usize, Vec<u8>), BerError<Input>> {
    let seen = (input.start(), input.as_bytes2().to_vec());
    Ok((input, seen))
}
/// one object that is refused when its content begins with an octet above 0x7f
fn picky(input: Input) -> IResult<Input, (u32, Vec<u8>), BerError<Input>> {
    let (rem, any) = Any::parse_ber(input.clone())?;
    let content = any.data.as_bytes2().to_vec();
    match content.first() {
        Some(0x80..) => Err(Err::Error(BerError::new(input, InnerError::LifetimeError))),
        _ => Ok((rem, (any.tag().0, content))),
    }
}
#[derive(Debug, PartialEq, Sequence)]
#[asn1(parse = "BER", encode = "")]
struct TPick<'a> {
    a: u8,
    b: Any<'a>,
    #[optional]
    c: Option<bool>,
}
#[derive(Debug, PartialEq, Sequence)]
#[asn1(parse = "BER", encode = "")]
struct PPick {
    a: u8,
    #[asn1(parse = "picky")]
    b: (u32, Vec<u8>),
    #[optional]
    c: Option<bool>,
}
/// a value that is not in the input
#[derive(Debug, PartialEq, Sequence)]
struct PConst {
    #[asn1(parse = "|input| Ok((input, 0xff))")]
    k: u32,
    a: u8,
}

type Got<T> = std::result::Result<(usize, T), &'static str>;
fn got<T, E>(x: IResult<Input<'_>, T, E>) -> Got<T> {
    match x {
        Ok((r, t)) => Ok((r.start(), t)),
        Err(Err::Incomplete(_)) => Err("incomplete"),
        Err(_) => Err("error"),
    }
}

macro_rules! both {
    ($c:ident, $b:ident, $base:ident, $raw:ident, $what:literal, $t:ty, $p:ty, $same:expr, $mode:literal, $f:ident) => {{
        let inp = || Input::new(&$b, $base..$base + $b.len());
        let want = got(<$t>::$f(inp()));
        $c.hit(if want.is_ok() { "parser-accepted" } else { "parser-refused" });
        let raw = $raw.clone();
        eq($c, concat!($what, "-", $mode), &$b, want.map(|(n, v)| (n, Some((v, raw)))), || {
            got(<$p>::$f(inp())).map(|(n, v)| (n, $same(v)))
        });
    }};
}
/// header, extent of the content (from the start of `b`), content
type Raw = Option<((u8, u32, bool), usize, Vec<u8>)>;
fn raw_of(b: &[u8]) -> Raw {
    let h = header(b).ok()?;
    let (x, _) = content(&h, b.get(h.hl..)?, MAX_DEPTH).ok()?;
    Some(((h.class, h.tag, h.constructed), h.hl, x.to_vec()))
}

pub fn custom_parsers(c: &mut Ctx) {
    let n = c.n(6000, 60000);
    let mut r = Rng::new(mix(c.seed ^ 0x17_1000 ^ c.shard as u64));
    let f = |s| Field { s, tag: None, opt: false, default: None };
    let fo = |s| Field { s, tag: None, opt: true, default: None };
    let s_raw = S::Struct { set: false, fields: vec![f(S::Int(IntK::U(32))), fo(S::Bool)] };
    let s_set = S::Struct { set: true, fields: vec![Field { s: S::OctStr, tag: Some((crate::model::TagKind::Impl, 2, 3)), opt: false, default: None }, f(S::Bool)] };
    let s_pick = S::Struct { set: false, fields: vec![f(S::Int(IntK::U(8))), f(S::Any), fo(S::Bool)] };
    for _ in 0..n / c.shards + 1 {
        let base = *r.pick(&[0, 1, 7, 1000]);
        let which = r.below(4);
        let s = match which {
            0 => &s_raw,
            1 => &s_set,
            2 => &s_pick,
            _ => &s_raw,
        };
        let v = gen_val(s, &mut r, 0);
        let kind = *r.pick(crate::work::ALL);
        let b = crate::work::make(s, &v, kind, &mut r);
        start(c, "custom-parser", &b);
        let raw = raw_of(&b);
        if raw.is_none() && PRaw::parse_ber(Input::from(&b[..])).is_ok() | PSet::parse_ber(Input::from(&b[..])).is_ok() {
            // markers in odd forms: no opinion on where the content ends
            c.hit("parser-odd-extent");
            continue;
        }
        match which {
            0 => {
                // where the parser stands: after the integer and the optional boolean
                let same = |v: PRaw| {
                    let k = v.raw.len().checked_sub(v.rest.1.len())?;
                    let at = v.raw.as_bytes2().get(k..)? == v.rest.1 && v.rest.0 == v.raw.start() + k;
                    let whole = v.raw.as_bytes2().to_vec();
                    at.then(|| (TRaw { a: v.a, b: v.b }, Some((v.h, v.raw.start() - base, whole))))
                };
                both!(c, b, base, raw, "custom parser (sequence)", TRaw, PRaw, same, "ber", parse_ber);
                both!(c, b, base, raw, "custom parser (sequence)", TRaw, PRaw, same, "der", parse_der);
                let k = raw.as_ref().map_or(0, |x| x.2.len());
                if let (Ok((_, t)), Some(r)) = (got(PRaw::parse_ber(Input::from(&b[..]))), raw.as_ref()) {
                    let one = |b: &[u8]| header(b).ok().and_then(|h| content(&h, &b[h.hl..], MAX_DEPTH).ok().map(|x| h.hl + x.1)).unwrap_or(0);
                    let used = one(&r.2);
                    let used = used + if t.b.is_some() { one(&r.2[used..]) } else { 0 };
                    eq(c, "custom parser: remaining content", &b, k - used, || t.rest.1.len());
                }
            }
            1 => {
                fn same(base: usize) -> impl Fn(PSet) -> Option<(TSet, Raw)> {
                    move |v| {
                        let k = v.raw.len().checked_sub(v.rest.1.len())?;
                        let at = v.raw.as_bytes2().get(k..)? == v.rest.1 && v.rest.0 == v.raw.start() + k;
                        let whole = v.raw.as_bytes2().to_vec();
                        at.then(|| (TSet { a: v.a, c: v.c }, Some((v.h, v.raw.start() - base, whole))))
                    }
                }
                both!(c, b, base, raw, "custom parser (set)", TSet, PSet, same(base), "ber", parse_ber);
                both!(c, b, base, raw, "custom parser (set)", TSet, PSet, same(base), "der", parse_der);
            }
            2 => {
                let inp = || Input::new(&b, base..base + b.len());
                // refused exactly when the second component begins so; the error is the parser's own
                let want = match TPick::parse_ber(inp()) {
                    Ok((n, t)) => {
                        let x = t.b.data.as_bytes2().to_vec();
                        if x.first().is_some_and(|o| *o > 0x7f) {
                            Err(Some(true))
                        } else {
                            Ok((n.start(), t.a, (t.b.tag().0, x), t.c))
                        }
                    }
                    Err(Err::Incomplete(_)) => Err(None),
                    Err(_) => Err(Some(false)),
                };
                c.hit(match want {
                    Ok(_) => "parser-accepted",
                    Err(Some(true)) => "parser-own-error",
                    _ => "parser-refused",
                });
                // (a refused second component hides what is wrong with the third)
                let hidden = |x: &std::result::Result<(usize, u8, (u32, Vec<u8>), Option<bool>), Option<bool>>| matches!(x, Err(Some(true)) | Err(None));
                let have = match guard(|| match PPick::parse_ber(inp()) {
                    Ok((n, t)) => Ok((n.start(), t.a, t.b, t.c)),
                    Err(Err::Incomplete(_)) => Err(None),
                    Err(Err::Error(e) | Err::Failure(e)) => Err(Some(*e.inner() == InnerError::LifetimeError)),
                }) {
                    Ok(x) => x,
                    Err(p) => {
                        c.viol("api-panic:custom parser (refusing)".into(), p, &b);
                        continue;
                    }
                };
                let ok = have == want || (hidden(&have) && matches!(want, Err(Some(false)) | Err(None)) && have == Err(Some(true)));
                c.check(ok, || "api:custom parser (refusing)".into(), || format!("is {have:?}, expected {want:?}"), &b);
            }
            _ => {
                let a = r.u8();
                let x = PConst { k: r.next() as u32, a };
                let mut b = vec![];
                let mut body = vec![];
                tlv(0, false, 2, &int_u128(a as u128), &mut body);
                tlv(0, true, 16, &body, &mut b);
                eq(c, "custom parser (constant)", &b, Ok((b.len(), PConst { k: 255, a })), || got(PConst::parse_ber(Input::from(&b[..]))));
                eq(c, "custom parser (constant)", &b, Ok((b.len(), PConst { k: 255, a })), || got(PConst::parse_der(Input::from(&b[..]))));
                // the encoders write every component
                let mut full = vec![];
                let mut body = vec![];
                tlv(0, false, 2, &int_u128(x.k as u128), &mut body);
                tlv(0, false, 2, &int_u128(a as u128), &mut body);
                tlv(0, true, 16, &body, &mut full);
                eq(c, "custom parser (encoder)", &full, Some(full.clone()), || x.to_der_vec().ok());
                eq(c, "custom parser (encoder)", &full, Some(full.clone()), || x.to_ber_vec().ok());
            }
        }
    }
}

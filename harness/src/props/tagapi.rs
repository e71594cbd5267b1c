//! C16: parsers, builders, optional forms and helper functions for tagged objects, against the model.
use super::api::{eq, start};
use super::*;
use crate::model::TagKind;
use asn1_rs::nom::Parser;
use asn1_rs::*;

type TE<'a> = TaggedParser<'a, Explicit, u32>;
type TI<'a> = TaggedParser<'a, Implicit, u32>;
/// (class, tag, inner value, octets consumed)
type Got = Option<(u8, u32, u32, usize)>;

fn got_t<K>(b: &[u8], r: ParseResult<TaggedParser<K, u32>>) -> Got {
    r.ok().map(|(rem, t)| {
        let i: &u32 = t.as_ref();
        assert!(rem.as_ptr() == b[b.len() - rem.len()..].as_ptr());
        assert!(t.tag() == t.header.tag() && t.class() == t.header.class());
        (t.class() as u8, t.tag().0, *i, b.len() - rem.len())
    })
}
/// what the model says; None if it has no opinion
fn want(k: TagKind, class: Option<u8>, tag: Option<u32>, mode: Mode, b: &[u8]) -> Option<Got> {
    let e = expect(&S::AnyTag(k, Box::new(S::Int(IntK::U(32)))), Shape::Plain, mode, b);
    if !e.cx.lenient.is_empty() || !e.cx.tolerated.is_empty() {
        return None;
    }
    Some(match e.r {
        Ok((Val::Tagged(c, t, v), n)) if class.is_none_or(|x| x == c) && tag.is_none_or(|x| x == t) => {
            let Val::Int(x) = *v else { unreachable!() };
            Some((c, t, int_to_u128(&x).unwrap() as u32, n))
        }
        // untagged types do not compare the class (reported under C25)
        Err(Rej::Unspec(_)) | Err(Rej::Bad("class")) => return None,
        Ok(_) | Err(Rej::Bad(_)) | Err(Rej::Incomplete) => None,
    })
}
/// what an optional parser says: outer None = error
type OptGot = Option<(Option<u32>, usize)>;

fn opt_want(k: TagKind, class: u8, tag: u32, mode: Mode, b: &[u8]) -> Option<OptGot> {
    if b.is_empty() {
        return Some(Some((None, 0)));
    }
    let mut cx = Cx::default();
    let (v, n) = match dec(&S::Any, mode, b, &mut cx) {
        Ok(x) => x,
        Err(Rej::Unspec(_)) => return None,
        Err(_) => return Some(None),
    };
    let Val::Any { class: c, tag: t, content, constructed } = v else { unreachable!() };
    if !cx.lenient.is_empty() || !cx.tolerated.is_empty() {
        return None;
    }
    if t != tag {
        return Some(Some((None, 0)));
    }
    if c != class {
        return Some(None);
    }
    let inner = match k {
        TagKind::Expl => dec(&S::Int(IntK::U(32)), mode, &content, &mut cx).map(|x| x.0),
        // the content under the outer identifier
        TagKind::Impl => {
            let h = Hdr { constructed, ..header(b).unwrap() };
            dec_content(&S::Int(IntK::U(32)), mode, &h, &content, &mut cx)
        }
    };
    if !cx.lenient.is_empty() || !cx.tolerated.is_empty() {
        return None;
    }
    Some(match inner {
        Ok(Val::Int(x)) => Some((Some(int_to_u128(&x).unwrap() as u32), n)),
        Ok(_) => unreachable!(),
        Err(Rej::Unspec(_)) | Err(Rej::Bad("class")) => return None,
        Err(_) => None,
    })
}
fn opt_got(b: &[u8], r: ParseResult<Option<u32>>) -> OptGot {
    r.ok().map(|(rem, v)| {
        assert!(rem.as_ptr() == b[b.len() - rem.len()..].as_ptr());
        (v, b.len() - rem.len())
    })
}

fn call_opt<'a>(p: &OptTaggedParser, m: Mode, b: &'a [u8], cl: Class, tg: Tag, implicit: bool) -> ParseResult<'a, Option<u32>> {
    let f = |h: Header, d: &'a [u8]| -> ParseResult<'a, u32> {
        assert!(h.tag() == tg && h.class() == cl);
        if implicit {
            let hc = Header::new(h.class(), h.constructed(), h.tag(), h.length());
            let r = match m {
                Mode::Ber => u32::from_ber_content(&hc, Input::from(d)),
                Mode::Der => u32::from_der_content(&hc, Input::from(d)),
            };
            return r.map(|(_, v)| (&d[d.len()..], v)).map_err(|e| Err::Error(Error::from_nom_berr(e)));
        }
        match m {
            Mode::Ber => u32::from_ber(d),
            Mode::Der => u32::from_der(d),
        }
    };
    match m {
        Mode::Ber => p.parse_ber(b, f),
        Mode::Der => p.parse_der(b, f),
    }
}

fn case(c: &mut Ctx, b: &[u8]) {
    start(c, "tagged", b);
    let (ac, at) = match header(b) {
        Ok(h) => (h.class, h.tag),
        Err(_) => (2, 0),
    };
    // the identifier present, or another one
    let (wc, wt) = match c.rng.below(6) {
        0 => (c.rng.below(4) as u8, at),
        1 => (ac, gen_tag(&mut c.rng)),
        2 => (ac ^ (1 + c.rng.below(3) as u8), at),
        _ => (ac, at),
    };
    let (cl, tg) = (Class::try_from(wc).unwrap(), Tag(wt));
    let mut ok = 0;
    macro_rules! t {
        ($what:expr, $k:expr, $cls:expr, $tag:expr, $m:expr, $e:expr) => {
            if let Some(w) = want($k, $cls, $tag, $m, b) {
                ok += w.is_some() as usize;
                eq(c, $what, b, w, || got_t(b, $e));
            }
        };
    }
    use TagKind::*;
    t!("Explicit::parse_ber", Expl, Some(wc), Some(wt), Mode::Ber, TE::parse_ber(cl, tg, b));
    t!("Explicit::parse_der", Expl, Some(wc), Some(wt), Mode::Der, TE::parse_der(cl, tg, b));
    t!("Implicit::parse_ber", Impl, Some(wc), Some(wt), Mode::Ber, TI::parse_ber(cl, tg, b));
    t!("Implicit::parse_der", Impl, Some(wc), Some(wt), Mode::Der, TI::parse_der(cl, tg, b));
    let be = || TaggedParserBuilder::<Explicit>::explicit().with_class(cl).with_tag(tg);
    let bi = || TaggedParserBuilder::<Implicit>::implicit().with_tag(tg).with_class(cl);
    t!("builder-explicit-ber", Expl, Some(wc), Some(wt), Mode::Ber, be().ber_parser::<u32>().parse(b));
    t!("builder-explicit-der", Expl, Some(wc), Some(wt), Mode::Der, be().der_parser::<u32>().parse(b));
    t!("builder-implicit-ber", Impl, Some(wc), Some(wt), Mode::Ber, bi().ber_parser::<u32>().parse(b));
    t!("builder-implicit-der", Impl, Some(wc), Some(wt), Mode::Der, bi().der_parser::<u32>().parse(b));
    // without a class the builder expects the universal one
    t!("builder-default-class", Expl, Some(0), Some(wt), Mode::Ber, TaggedParserBuilder::<Explicit>::default().with_tag(tg).ber_parser::<u32>().parse(b));
    t!("parse_der_tagged_explicit", Expl, None, Some(wt), Mode::Der, parse_der_tagged_explicit::<_, u32, Error>(wt).parse(b));
    t!("parse_der_tagged_implicit", Impl, None, Some(wt), Mode::Der, parse_der_tagged_implicit::<_, u32, Error>(tg).parse(b));
    if ok > 0 {
        c.hit("tagged-accepted");
    } else {
        c.hit("tagged-rejected");
    }
    // the class of the object is not compared by these two
    for (k, what) in [(Expl, "parse_der_tagged_explicit_g"), (Impl, "parse_der_tagged_implicit_g")] {
        if let Some(w) = opt_want(k, ac, wt, Mode::Der, b) {
            // not optional: absent is an error
            let w = if wt != at || b.is_empty() { None } else { w };
            eq(c, what, b, w, || {
                let r: ParseResult<u32> = match k {
                    Expl => parse_der_tagged_explicit_g::<_, u32, _, Error>(wt, |d, h| {
                        assert!(h.tag() == tg && h.class() as u8 == ac);
                        u32::from_der(d)
                    })
                    .parse(b),
                    Impl => parse_der_tagged_implicit_g::<_, u32, _, Error>(wt, |d, t, h| {
                        assert!(t == tg && h.tag() == Tag::Integer && h.class() as u8 == ac);
                        u32::from_der_content(&h, Input::from(d)).map(|(_, v)| (&d[d.len()..], v)).map_err(|e| Err::Error(Error::from_nom_berr(e)))
                    })
                    .parse(b),
                };
                r.ok().map(|(rem, v)| (Some(v), b.len() - rem.len()))
            });
        }
    }
    // optional forms
    for m in [Mode::Ber, Mode::Der] {
        let Some(w) = opt_want(Expl, wc, wt, m, b) else { continue };
        c.hit(match w {
            None => "optional-error",
            Some((None, _)) => "optional-absent",
            Some(_) => "optional-present",
        });
        let p = OptTaggedParser::new(cl, tg);
        let ctx = OptTaggedParser::from(tg);
        let named = match wc {
            0 => OptTaggedParser::universal(wt),
            1 => OptTaggedParser::application(wt),
            2 => OptTaggedParser::tagged(wt),
            _ => OptTaggedParser::private(wt),
        };
        let call = |p: &OptTaggedParser| opt_got(b, call_opt(p, m, b, cl, tg, false));
        let name = if m == Mode::Ber { "ber" } else { "der" };
        eq(c, &format!("OptTaggedParser::new-{name}"), b, w, || call(&p));
        eq(c, &format!("OptTaggedParser::named-{name}"), b, w, || call(&named));
        if wc == 2 {
            eq(c, &format!("OptTaggedParser::from-{name}"), b, w, || call(&ctx));
            eq(c, &format!("OptTaggedParser::from-u32-{name}"), b, w, || call(&OptTaggedParser::from(wt)));
        }
        if let Some(wi) = opt_want(Impl, wc, wt, m, b) {
            eq(c, &format!("OptTaggedParser-implicit-{name}"), b, wi, || opt_got(b, call_opt(&p, m, b, cl, tg, true)));
        }
    }
    // content functions
    for m in [Mode::Ber, Mode::Der] {
        if let Some(w) = opt_want(Expl, wc, wt, m, b) {
            let w = match w {
                Some((Some(v), n)) => Some((v, n)),
                _ => None,
            };
            eq(c, "from_x_and_then", b, w, || {
                let op = |d| match m {
                    Mode::Ber => u32::from_ber(d).map(|(r, v)| (r, v)),
                    Mode::Der => u32::from_der(d).map(|(r, v)| (r, v)),
                };
                let r: ParseResult<u32> = match m {
                    Mode::Ber => TaggedParser::<Explicit, u32>::from_ber_and_then(cl, wt, b, op),
                    Mode::Der => TaggedParser::<Explicit, u32>::from_der_and_then(cl, wt, b, op),
                };
                r.ok().map(|(rem, v)| (v, b.len() - rem.len()))
            });
        }
    }
}

/// values built, not decoded
fn build(c: &mut Ctx) {
    let (class, tag) = (c.rng.below(4) as u8, gen_tag(&mut c.rng));
    let x = gen_int(&mut c.rng, IntK::U(32));
    let v = int_to_u128(&x).unwrap() as u32;
    let cl = Class::try_from(class).unwrap();
    let mut inner = vec![];
    tlv(0, false, 2, &x, &mut inner);
    let (mut e, mut i, mut ic) = (vec![], vec![], vec![]);
    tlv(class, true, tag, &inner, &mut e);
    tlv(class, false, tag, &x, &mut i);
    tlv(class, true, tag, &inner, &mut ic);
    start(c, "tagged-build", &e);
    macro_rules! enc {
        ($name:expr, $want:expr, $v:expr) => {
            eq(c, concat!($name, "-ber"), &e, Some($want.clone()), || $v.to_ber_vec().ok());
            eq(c, concat!($name, "-der"), &e, Some($want.clone()), || $v.to_der_vec().ok());
            eq(c, concat!($name, "-len"), &e, Length::Definite($want.len()), || $v.ber_total_len());
        };
    }
    enc!("new_explicit", e, TE::new_explicit(cl, tag, v));
    enc!("new_implicit", i, TI::new_implicit(cl, false, tag, v));
    enc!("new_implicit-constructed", ic, TaggedParser::<Implicit, Vec<u32>>::new_implicit(cl, true, tag, vec![v]));
    enc!("explicit-of-str", { let mut o = vec![]; let mut s = vec![]; tlv(0, false, 12, &x[..0], &mut s); tlv(class, true, tag, &s, &mut o); o }, TaggedParser::<Explicit, &str>::new_explicit(cl, tag, ""));
    for (k, t) in [(Class::Universal, 0u32), (cl, tag)] {
        eq(c, "assert_class", &e, k == cl, || TE::new_explicit(cl, tag, v).assert_class(k).is_ok());
        eq(c, "assert_tag", &e, t == tag, || TE::new_explicit(cl, tag, v).assert_tag(Tag(t)).is_ok());
    }
    eq(c, "TaggedParser-accessors", &e, (cl, Tag(tag), true, v), || {
        let t = TE::new_explicit(cl, tag, v);
        (t.class(), t.tag(), t.header.constructed(), t.inner)
    });
    macro_rules! tv {
        ($($c:literal $n:literal;)*) => {$(
            let (mut e, mut i) = (vec![], vec![]);
            tlv($c, true, $n, &inner, &mut e);
            tlv($c, false, $n, &x, &mut i);
            eq(c, concat!("TaggedValue::explicit-", stringify!($c), "-", stringify!($n)), &e, (Some(e.clone()), v, v, $c, true, $n), || {
                let t: TaggedValue<u32, Error, Explicit, $c, $n> = TaggedValue::explicit(v);
                let d = t.to_der_vec().ok();
                let r: u32 = *t.as_ref();
                (d, r, t.into_inner(), <TaggedValue<u32, Error, Explicit, $c, $n> as Tagged>::CLASS as u8, <TaggedValue<u32, Error, Explicit, $c, $n> as Tagged>::CONSTRUCTED, <TaggedValue<u32, Error, Explicit, $c, $n> as Tagged>::TAG.0)
            });
            eq(c, concat!("TaggedValue::implicit-", stringify!($c), "-", stringify!($n)), &i, (Some(i.clone()), v, v, $n), || {
                let t: TaggedValue<u32, Error, Implicit, $c, $n> = TaggedValue::implicit(v);
                let d = t.to_der_vec().ok();
                let r: u32 = *t.as_ref();
                let tg = t.tag().0;
                (d, r, t.into_inner(), tg)
            });
            // and back, through every way of decoding
            eq(c, concat!("TaggedValue-from-", stringify!($c), "-", stringify!($n)), &e, (Some(v), Some(v), Some(v), Some(v)), || (
                TaggedValue::<u32, Error, Explicit, $c, $n>::from_ber(&e).ok().map(|x| x.1.into_inner()),
                TaggedValue::<u32, Error, Explicit, $c, $n>::from_der(&e).ok().map(|x| x.1.into_inner()),
                TaggedValue::<u32, Error, Implicit, $c, $n>::from_ber(&i).ok().map(|x| x.1.into_inner()),
                TaggedValue::<u32, Error, Implicit, $c, $n>::from_der(&i).ok().map(|x| x.1.into_inner()),
            ));
            // an identifier that differs in class or number
            for (k, n) in [($c ^ 1u8, $n), ($c ^ 2, $n), ($c ^ 3, $n), ($c, $n + 1), ($c, $n ^ 64)] {
                let (mut e, mut i) = (vec![], vec![]);
                tlv(k, true, n, &inner, &mut e);
                tlv(k, false, n, &x, &mut i);
                eq(c, concat!("TaggedValue-other-", stringify!($c), "-", stringify!($n)), &e, [false; 6], || [
                    TaggedValue::<u32, Error, Explicit, $c, $n>::from_ber(&e).is_ok(),
                    TaggedValue::<u32, Error, Explicit, $c, $n>::from_der(&e).is_ok(),
                    TaggedValue::<u32, Error, Implicit, $c, $n>::from_ber(&i).is_ok(),
                    TaggedValue::<u32, Error, Implicit, $c, $n>::from_der(&i).is_ok(),
                    TaggedValue::<u32, Error, Explicit, $c, $n>::from_ber(&i).is_ok(),
                    TaggedValue::<u32, Error, Explicit, $c, $n>::parse_der(mk(&e)).is_ok(),
                ]);
            }
            c.hit("tagged-value");
        )*};
    }
    tv! { 0 5; 1 0; 1 31; 2 1; 2 127; 2 128; 3 30; 3 16384; 2 4294967000; }
}

pub fn tagged(c: &mut Ctx) {
    let n = c.n(10000, 200_000);
    let kinds = [Kind::Der, Kind::Ber, Kind::Mut, Kind::Tree, Kind::Retag, Kind::Indef, Kind::Noncanon, Kind::Trunc, Kind::Hostile];
    for _ in 0..n {
        let mut r = c.rng.clone();
        let k = if r.chance(1, 2) { TagKind::Expl } else { TagKind::Impl };
        let s = S::Tag(k, r.below(4) as u8, gen_tag(&mut r), Box::new(S::Int(IntK::U(32))));
        let v = gen_val(&s, &mut r, 0);
        let kind = *r.pick(&kinds);
        let mut b = make(&s, &v, kind, &mut r);
        if r.chance(1, 40) {
            b.clear();
        } else if r.chance(1, 3) {
            b.extend(r.bytes(3));
        }
        c.rng = r;
        case(c, &b);
    }
    for _ in 0..c.n(2000, 20_000) {
        build(c);
    }
}

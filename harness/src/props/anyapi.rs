//! C28: the generic object: capture, re-encoding, conversions.
use super::api::{eq, run, start};
use crate::diff::expect;
use crate::ev::*;
use crate::gen::*;
use crate::model::{self, content, header, Mode, Rej, StrK, Val, S, MAX_DEPTH};
use crate::rng::{mix, Rng};
use crate::subjects::*;
use crate::vals::ToVal;
use crate::work::*;
use asn1_rs::*;

/// reference capture: header, content, octets used
fn captured(b: &[u8], m: Mode) -> std::result::Result<(model::Hdr, Vec<u8>, usize), Rej> {
    let h = header(b)?;
    if m == Mode::Der && h.len.is_none() {
        return Err(Rej::Bad("der-indefinite"));
    }
    let (d, n) = content(&h, &b[h.hl..], MAX_DEPTH)?;
    let (d, n) = (d.to_vec(), n + h.hl);
    Ok((h, d, n))
}

fn capture(c: &mut Ctx, b: &[u8]) {
    for m in [Mode::Ber, Mode::Der] {
        let ms = if m == Mode::Ber { "ber" } else { "der" };
        let (h, d, n) = match captured(b, m) {
            Err(Rej::Unspec(_)) => continue,
            Err(_) => {
                c.hit("not-an-element");
                eq(c, &format!("capture/{ms}/rejected"), b, true, || if m == Mode::Ber { Any::from_ber(b).is_err() } else { Any::from_der(b).is_err() });
                eq(c, &format!("capture/{ms}/rejected-input"), b, true, || if m == Mode::Ber { Any::parse_ber(mk(b)).is_err() } else { Any::parse_der(mk(b)).is_err() });
                continue;
            }
            Ok(x) => x,
        };
        c.hit(&format!("class-{}", h.class));
        c.hit(if h.constructed { "constructed" } else { "primitive" });
        c.hit(if h.tag < 31 { "short-tag" } else { "long-tag" });
        for input in [false, true] {
            let what = format!("capture/{ms}/{}", if input { "input" } else { "slice" });
            let a = match (m, input) {
                (Mode::Ber, false) => run(c, &what, b, || Any::from_ber(b).ok().map(|(r, a)| (r.len(), a))),
                (Mode::Der, false) => run(c, &what, b, || Any::from_der(b).ok().map(|(r, a)| (r.len(), a))),
                (Mode::Ber, true) => run(c, &what, b, || Any::parse_ber(mk(b)).ok().map(|(r, a)| (r.len(), a))),
                (Mode::Der, true) => run(c, &what, b, || Any::parse_der(mk(b)).ok().map(|(r, a)| (r.len(), a))),
            };
            let Some(Some((rest, a))) = a else {
                c.viol(format!("{what}/not-captured"), "a well-formed element is not captured".into(), b);
                continue;
            };
            eq(c, &format!("{what}/consumed"), b, n, || b.len() - rest);
            eq(c, &format!("{what}/fields"), b, (h.class, h.constructed, h.tag), || (a.class() as u8, a.header.constructed(), a.tag().0));
            eq(c, &format!("{what}/header-fields"), b, (h.class, h.tag, h.len), || {
                (a.header.class() as u8, a.header.tag().0, match a.header.length() {
                    Length::Definite(n) => Some(n),
                    Length::Indefinite => None,
                })
            });
            eq(c, &format!("{what}/content"), b, d.clone(), || a.as_bytes().to_vec());
            eq(c, &format!("{what}/data"), b, d.clone(), || a.data.as_bytes2().to_vec());
            let il = h.hl - frame_len(b, &h);
            eq(c, &format!("{what}/raw-tag"), b, Some(b[..il].to_vec()), || a.header.raw_tag().map(|x| x.to_vec()));
            eq(c, &format!("{what}/raw-header"), b, Some(b[..h.hl].to_vec()), || a.header.raw_header().map(|x| x.as_bytes2().to_vec()));
            reencode(c, &what, b, &a, h.class, h.constructed, h.tag, &d);
            // the captured object again from its header and content
            eq(c, &format!("{what}/new"), b, true, || Any::new(a.header.clone(), a.data.clone()) == a);
            let f = run(c, "from_header_and_data", b, || Any::from_header_and_data(a.header.clone(), a.as_bytes()));
            if let Some(f) = f {
                eq(c, "from_header_and_data/content", b, d.clone(), || f.as_bytes().to_vec());
                reencode(c, "from_header_and_data", b, &f, h.class, h.constructed, h.tag, &d);
            }
        }
    }
}
fn frame_len(b: &[u8], h: &model::Hdr) -> usize {
    let mut p = 1;
    if b[0] & 0x1f == 0x1f {
        while b[p] & 0x80 != 0 {
            p += 1;
        }
        p += 1;
    }
    h.hl - p
}

/// what a generic object is written as: its identifier, a definite length, its content
#[allow(clippy::too_many_arguments)]
fn reencode(c: &mut Ctx, what: &str, b: &[u8], a: &Any, class: u8, constructed: bool, tag: u32, d: &[u8]) {
    let mut want = vec![];
    tlv(class, constructed, tag, d, &mut want);
    eq(c, &format!("{what}/to_ber"), b, Some(want.clone()), || a.to_ber_vec().ok());
    eq(c, &format!("{what}/to_der"), b, Some(want.clone()), || a.to_der_vec().ok());
    eq(c, &format!("{what}/lengths"), b, (Length::Definite(d.len()), Length::Definite(want.len())), || (a.ber_content_len(), a.ber_total_len()));
    eq(c, &format!("{what}/tag-info"), b, (class, constructed, tag), || {
        let i = a.ber_tag_info();
        (i.0 as u8, i.1, i.2 .0)
    });
    // and captured again
    if class != 0 || tag != 0 {
        eq(c, &format!("{what}/again"), b, Some((class, constructed, tag, d.to_vec())), || {
            let w = a.to_ber_vec().ok()?;
            let (rem, x) = Any::from_ber(&w).ok()?;
            rem.is_empty().then(|| (x.class() as u8, x.header.constructed(), x.tag().0, x.as_bytes().to_vec()))
        });
    }
}

/// building and editing
fn build(c: &mut Ctx, r: &mut Rng) {
    let d = match r.below(4) {
        0 => vec![],
        1 => r.bytes(3),
        2 => {
            let n = r.below(300);
            r.bytes(n)
        }
        _ => {
            let v = gen_any(r, 3);
            der(&S::Any, &v)
        }
    };
    let tag = gen_tag(r);
    let (cl, t2) = (r.below(4) as u8, gen_tag(r));
    start(c, "build", &d);
    c.distinct(&format!("build {tag} {cl} {t2}"), &d);
    let cons = tag == 16 || tag == 17;
    let Some(a) = run(c, "from_tag_and_data", &d, || Any::from_tag_and_data(Tag(tag), Input::from_slice(&d))) else { return };
    eq(c, "from_tag_and_data/fields", &d, (0, cons, tag, Length::Definite(d.len()), d.clone()), || {
        (a.class() as u8, a.header.constructed(), a.tag().0, a.header.length(), a.as_bytes().to_vec())
    });
    reencode(c, "from_tag_and_data", &d, &a, 0, cons, tag, &d);
    let class = Class::try_from(cl).unwrap();
    let e = run(c, "with_class", &d, || a.clone().with_class(class));
    if let Some(e) = e {
        eq(c, "with_class/fields", &d, (cl, cons, tag, d.clone()), || (e.class() as u8, e.header.constructed(), e.tag().0, e.as_bytes().to_vec()));
        reencode(c, "with_class", &d, &e, cl, cons, tag, &d);
    }
    let e = run(c, "with_tag", &d, || a.clone().with_tag(Tag(t2)).with_class(class));
    if let Some(e) = e {
        eq(c, "with_tag/fields", &d, (cl, cons, t2, d.clone()), || (e.class() as u8, e.header.constructed(), e.tag().0, e.as_bytes().to_vec()));
        reencode(c, "with_tag", &d, &e, cl, cons, t2, &d);
    }
    // editing a captured object: the new identifier is what counts
    let mut w = vec![];
    tlv(r.below(4) as u8, r.below(2) == 0, gen_tag(r).max(1), &d, &mut w);
    if let Some(Some(x)) = run(c, "edit", &w, || Any::from_ber(&w).ok().map(|x| x.1)) {
        let cons = x.header.constructed();
        let e = x.with_tag(Tag(t2)).with_class(class);
        eq(c, "edit/fields", &w, (cl, cons, t2, d.clone()), || (e.class() as u8, e.header.constructed(), e.tag().0, e.as_bytes().to_vec()));
        reencode(c, "edit", &w, &e, cl, cons, t2, &d);
    }
}

/// typed conversions of a generic object against decoding the type directly
macro_rules! convs {
    ($c:ident, $b:ident, $a:ident; $($as:ident $into:ident $t:ty;)*) => {$(
        if $a.header.is_universal() && <$t as DynTagged>::accept_tag($a.tag()) {
            let want = guard(|| <$t as BerParser>::parse_ber(mk($b)).ok().map(|(_, x)| x.to_val()));
            if let Ok(want) = want {
                $c.hit(if want.is_some() { "converted" } else { "not-converted" });
                eq($c, concat!("as/", stringify!($as)), $b, want.clone(), || $a.$as().ok().map(|x| x.to_val()));
                eq($c, concat!("into/", stringify!($into)), $b, want, || $a.clone().$into().ok().map(|x| x.to_val()));
            }
        }
    )*};
}
macro_rules! others {
    ($c:ident, $b:ident, $a:ident; $($t:ty)*) => {$(
        if !<$t as DynTagged>::accept_tag($a.tag()) {
            // the number of another type
            $c.hit("of-another-type");
            eq($c, concat!("try_from-other-type/", stringify!($t)), $b, true, || <$t>::try_from($a.clone()).is_err());
            eq($c, concat!("try_from-ref-other-type/", stringify!($t)), $b, true, || <$t>::try_from(&$a).is_err());
        }
    )*};
}
macro_rules! opts {
    ($c:ident, $b:ident, $a:ident; $($t:ty;)*) => {$(
        if let Ok(direct) = guard(|| <$t as BerParser>::parse_ber(mk($b)).ok().map(|(_, x)| x.to_val())) {
            let here = <$t as DynTagged>::accept_tag($a.tag());
            let want = match (here, direct) {
                (false, _) => Some(None),
                (true, Some(v)) => Some(Some(v)),
                (true, None) => None,
            };
            $c.hit(match &want { None => "optional-error", Some(None) => "optional-absent", _ => "optional-present" });
            eq($c, concat!("as_optional/", stringify!($t)), $b, want, || $a.as_optional::<$t>().ok().map(|o| o.map(|x| x.to_val())));
        }
    )*};
}
macro_rules! tagd {
    ($c:ident, $b:ident, $a:ident; $($t:ty, $cl:expr, $tag:expr;)*) => {$({
        let (ex, im) = (
            guard(|| TaggedValue::<$t, Error, Explicit, $cl, $tag>::from_ber($b).ok().map(|(_, x)| x.into_inner().to_val())),
            guard(|| TaggedValue::<$t, Error, Implicit, $cl, $tag>::from_ber($b).ok().map(|(_, x)| x.into_inner().to_val())),
        );
        if let Ok(w) = ex {
            $c.hit(if w.is_some() { "tagged" } else { "not-tagged" });
            eq($c, concat!("as_tagged_explicit/", stringify!($t)), $b, w, || $a.as_tagged_explicit::<$t, Error, $cl, $tag>().ok().map(|x| x.into_inner().to_val()));
        }
        if let Ok(w) = im {
            $c.hit(if w.is_some() { "tagged" } else { "not-tagged" });
            eq($c, concat!("as_tagged_implicit/", stringify!($t)), $b, w, || $a.as_tagged_implicit::<$t, Error, $cl, $tag>().ok().map(|x| x.into_inner().to_val()));
        }
    })*};
}

fn convert(c: &mut Ctx, b: &[u8]) {
    let Ok(Ok((_, a))) = guard(|| Any::parse_ber(mk(b))) else { return };
    convs!(c, b, a;
        as_anysequence anysequence AnySequence; as_bitstring bitstring BitString; as_bmpstring bmpstring BmpString; as_bool bool bool; as_boolean boolean Boolean;
        as_embedded_pdv embedded_pdv EmbeddedPdv; as_enumerated enumerated Enumerated; as_generalizedtime generalizedtime GeneralizedTime;
        as_generalstring generalstring GeneralString; as_graphicstring graphicstring GraphicString;
        as_i8 i8 i8; as_i16 i16 i16; as_i32 i32 i32; as_i64 i64 i64; as_i128 i128 i128; as_ia5string ia5string Ia5String; as_integer integer Integer;
        as_null null Null; as_numericstring numericstring NumericString; as_objectdescriptor objectdescriptor ObjectDescriptor;
        as_octetstring octetstring OctetString; as_real real Real; as_printablestring printablestring PrintableString;
        as_sequence sequence Sequence; as_set set Set; as_str str &str; as_string string String; as_teletexstring teletexstring TeletexString;
        as_u8 u8 u8; as_u16 u16 u16; as_u32 u32 u32; as_u64 u64 u64; as_u128 u128 u128; as_universalstring universalstring UniversalString;
        as_utctime utctime UtcTime; as_utf8string utf8string Utf8String; as_videotexstring videotexstring VideotexString; as_visiblestring visiblestring VisibleString;);
    if a.header.is_universal() && a.tag() == Tag::Oid {
        let want = guard(|| Oid::parse_ber(mk(b)).ok().map(|x| x.1.to_val())).ok().flatten();
        eq(c, "as/as_oid", b, want.clone(), || a.as_oid().ok().map(|x| x.to_val()));
        eq(c, "into/oid", b, want, || a.clone().oid().ok().map(|x| x.to_val()));
    }
    if a.header.is_universal() && a.tag() == Tag::RelativeOid {
        let want = guard(|| Oid::parse_ber(mk(b)).ok().map(|x| x.1.to_val())).ok().flatten();
        eq(c, "as/as_relative_oid", b, want.clone(), || a.as_relative_oid().ok().map(|x| x.to_val()));
        eq(c, "into/relative_oid", b, want, || a.clone().relative_oid().ok().map(|x| x.to_val()));
    } else if a.tag() != Tag::RelativeOid {
        eq(c, "as-other-type/as_relative_oid", b, true, || a.as_relative_oid().is_err());
        eq(c, "into-other-type/relative_oid", b, true, || a.clone().relative_oid().is_err());
    }
    others!(c, b, a; BitString BmpString bool Boolean EmbeddedPdv Enumerated GeneralizedTime GeneralString GraphicString i8 i16 i32 i64 i128
        Ia5String Integer Null NumericString ObjectDescriptor OctetString Oid Real PrintableString Sequence Set &str String TeletexString
        u8 u16 u32 u64 u128 UniversalString UtcTime Utf8String VideotexString VisibleString &[u8]);
    opts!(c, b, a; bool; Null; u32; i64; Integer; Enumerated; BitString; OctetString; &[u8]; Oid; Real; UtcTime; GeneralizedTime; Utf8String; &str; String; PrintableString; BmpString; Sequence; Set;);
    tagd!(c, b, a; u32, 2, 1; bool, 2, 0; OctetString, 1, 7; Utf8String, 2, 2; Vec<u8>, 2, 1; u32, 3, 1000; bool, 0, 1;);
    any_str(c, b, &a);
    // content as an object of its own
    macro_rules! inner {
        ($($t:ty)*) => {$(
            let d = a.as_bytes();
            let want = guard(|| <$t as FromBer>::from_ber(d).ok().map(|(r, x)| (r.len(), x.to_val())));
            if let Ok(want) = want {
                if want.is_some() { c.hit("content-converted"); }
                eq(c, concat!("parse_content_ber/", stringify!($t)), b, want, || a.parse_content_ber::<$t>().ok().map(|(r, x)| (r.len(), x.to_val())));
            }
            let want = guard(|| <$t as FromDer>::from_der(d).ok().map(|(r, x)| (r.len(), x.to_val())));
            if let Ok(want) = want {
                eq(c, concat!("parse_content_der/", stringify!($t)), b, want, || a.parse_content_der::<$t>().ok().map(|(r, x)| (r.len(), x.to_val())));
            }
        )*};
    }
    inner!(u32 bool Any OctetString Sequence Vec<u8> Utf8String);
}

/// text of any string type
fn any_str(c: &mut Ctx, b: &[u8], a: &Any) {
    use StrK::*;
    if !a.header.is_universal() {
        return;
    }
    let kinds = [Utf8, Numeric, Printable, Ia5, Visible, Teletex, Videotex, Graphic, General, Bmp, Universal];
    let Some(k) = kinds.iter().find(|k| k.tag() == a.tag().0) else {
        if a.tag().0 != 7 {
            eq(c, "as_any_str/other-type", b, true, || a.as_any_str().is_err());
            eq(c, "as_any_string/other-type", b, true, || a.as_any_string().is_err());
        }
        return;
    };
    let e = expect(&S::Str(*k), Shape::Plain, Mode::Ber, b);
    let Ok((Val::Str(t), _)) = e.r else { return };
    if !e.cx.lenient.is_empty() || !e.cx.tolerated.is_empty() {
        return;
    }
    c.hit("any-string");
    let got = run(c, "as_any_string", b, || a.as_any_string().ok());
    // types whose octets are not UTF-8 need not be supported by these functions, but must not give another text
    let native = matches!(k, Utf8 | Numeric | Printable | Ia5 | Visible | Bmp | Universal);
    match got {
        Some(Some(s)) => {
            c.check(s == t, || "as_any_string/text".into(), || format!("{s:?}, reference {t:?}"), b);
        }
        Some(None) => {
            c.check(!native, || "as_any_string/rejects".into(), || format!("reference {t:?}"), b);
        }
        None => {}
    }
    let got = run(c, "as_any_str", b, || a.as_any_str().ok().map(|x| x.to_string()));
    match got {
        Some(Some(s)) => {
            c.check(s == t, || "as_any_str/text".into(), || format!("{s:?}, reference {t:?}"), b);
        }
        Some(None) => {
            let borrowable = native && !matches!(k, Bmp | Universal) && !a.header.constructed();
            c.check(!borrowable, || "as_any_str/rejects".into(), || format!("reference {t:?}"), b);
        }
        None => {}
    }
}

/// continuation with an expected class and tag
fn and_then(c: &mut Ctx, b: &[u8], r: &mut Rng) {
    let hs = header(b);
    for m in [Mode::Ber, Mode::Der] {
        let cap = captured(b, m);
        if matches!(cap, Err(Rej::Unspec(_))) {
            continue;
        }
        let (hc, ht) = hs.as_ref().map_or((0, 1), |h| (h.class, h.tag));
        for (cl, tag) in [(hc, ht), ((hc + 1 + r.below(3) as u8) & 3, ht), (hc, ht ^ 1), (hc, ht.wrapping_add(256)), (r.below(4) as u8, gen_tag(r))] {
            let want = match &cap {
                Ok((h, d, n)) if (h.class, h.tag) == (cl, tag) => Some((d.clone(), b.len() - n)),
                _ => None,
            };
            let class = Class::try_from(cl).unwrap();
            c.hit(if want.is_some() { "and-then" } else { "and-then-rejected" });
            let op = |d| -> ParseResult<&[u8]> { Ok((&b""[..], d)) };
            let what = if m == Mode::Ber { "from_ber_and_then" } else { "from_der_and_then" };
            eq(c, what, b, want, || {
                let x = if m == Mode::Ber { Any::from_ber_and_then(class, tag, b, op) } else { Any::from_der_and_then(class, tag, b, op) };
                x.ok().map(|(rem, d)| (d.to_vec(), rem.len()))
            });
        }
    }
}

pub fn c28(c: &mut Ctx) {
    let subs = super::all_subjects();
    let refs: Vec<&Subject> = subs.iter().collect();
    let per = c.n(400, 1500);
    sweep(c, 28, &refs, per, ALL, &mut |c, s, _v, _k, b, r| {
        c.distinct(s.name, b);
        c.sample(|| hex(b));
        capture(c, b);
        convert(c, b);
        if r.below(4) == 0 {
            and_then(c, b, r);
        }
    });
    let mut r = Rng::new(mix(c.seed ^ 0x28_28 ^ ((c.shard as u64) << 32)));
    for _ in 0..c.n(2000, 6000) {
        build(c, &mut r);
        let v = gen_any(&mut r, 3);
        let b = match r.below(4) {
            0 => der(&S::Any, &v),
            1 => ber(&S::Any, &v, &mut r, Forms::BER),
            2 => wild(&mut r),
            _ => {
                let b = der(&S::Any, &v);
                mutate(&b, &mut r)
            }
        };
        start(c, "element", &b);
        c.distinct("element", &b);
        capture(c, &b);
        convert(c, &b);
        and_then(c, &b, &mut r);
    }
}

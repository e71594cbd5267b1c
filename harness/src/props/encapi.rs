//! Encoders without a decoder of their own (indefinite lengths chosen by the writer), helpers that build tagged values,
//! and the small accessors of identifiers (C07, C16, C23).
use super::api::{eq, start};
use super::*;
use crate::rng::mix;
use asn1_rs::*;

fn enc<T: ToBer>(t: &T) -> Vec<u8> {
    t.to_ber_vec().unwrap_or_default()
}
fn indef(items: &[Vec<u8>]) -> Vec<u8> {
    let mut o = vec![0x30, 0x80];
    items.iter().for_each(|x| o.extend_from_slice(x));
    o.extend_from_slice(&[0, 0]);
    o
}
fn framed(class: u8, cons: bool, tag: u32, body: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    tlv(class, cons, tag, body, &mut o);
    o
}

#[derive(Debug, PartialEq, Sequence)]
#[asn1(parse = "", encode = "BER")]
struct Holder {
    a: u32,
    b: IndefiniteVec<u32>,
    #[tag_explicit(2)]
    c: IndefiniteVec<bool>,
    #[tag_implicit(3)]
    d: IndefiniteVec<bool>,
}

/// an encoder against the octets it has to produce
fn is<T: ToBer>(c: &mut Ctx, what: &str, x: &T, want: &[u8], indefinite: bool, r: &mut Rng) {
    let h = header(want).unwrap();
    eq(c, &format!("{what}/to_ber_vec"), want, want.to_vec(), || enc(x));
    eq(c, &format!("{what}/write_ber"), want, (want.len(), want.to_vec()), || {
        let mut w = vec![];
        (x.write_ber(&mut w).unwrap_or(usize::MAX), w)
    });
    eq(c, &format!("{what}/header+content"), want, ((h.hl, want.len() - h.hl), want.to_vec()), || {
        let mut w = vec![];
        ((x.ber_write_header(&mut w).unwrap_or(usize::MAX), x.ber_write_content(&mut w).unwrap_or(usize::MAX)), w)
    });
    let cl = if indefinite { Length::Indefinite } else { Length::Definite(want.len() - h.hl) };
    eq(c, &format!("{what}/lengths"), want, (cl, Length::Definite(want.len())), || (x.ber_content_len(), x.ber_total_len()));
    eq(c, &format!("{what}/tag"), want, (h.class, h.constructed, h.tag), || {
        let t = x.ber_tag_info();
        (t.0 as u8, t.1, t.2 .0)
    });
    let (cl, tg) = (r.below(4) as u8, gen_tag(r));
    let class = Class::try_from(cl).unwrap();
    eq(c, &format!("{what}/explicit"), want, framed(cl, true, tg, want), || {
        let mut w = vec![];
        let _ = x.ber_encode_tagged_explicit(class, tg, &mut w);
        w
    });
    let mut imp = vec![];
    put_ident(cl, h.constructed, tg, &mut imp);
    imp.extend_from_slice(&want[header_ident(want)..]);
    eq(c, &format!("{what}/implicit"), want, imp, || {
        let mut w = vec![];
        let _ = x.ber_encode_tagged_implicit(class, tg, &mut w);
        w
    });
}
fn header_ident(b: &[u8]) -> usize {
    let mut o = vec![];
    let h = header(b).unwrap();
    put_ident(h.class, h.constructed, h.tag, &mut o);
    o.len()
}

/// C07
pub fn indefinite(c: &mut Ctx) {
    let n = c.n(3000, 30000);
    let mut r = Rng::new(mix(c.seed ^ 0x07_2000 ^ c.shard as u64));
    for _ in 0..n / c.shards + 1 {
        let len = *r.pick(&[0usize, 0, 1, 2, 3, 5, 40, 130]);
        let nums: Vec<u32> = (0..len).map(|_| r.next() as u32 >> r.below(32)).collect();
        let bools: Vec<bool> = (0..r.below(140)).map(|_| r.chance(1, 2)).collect();
        let texts: Vec<String> = (0..r.below(4)).map(|_| "x".repeat(*r.pick(&[0usize, 1, 5, 127, 128, 300]))).collect();
        let nb: Vec<Vec<u8>> = nums.iter().map(|x| {
            let mut o = vec![];
            tlv(0, false, 2, &int_u128(*x as u128), &mut o);
            o
        }).collect();
        let bb: Vec<Vec<u8>> = bools.iter().map(|x| vec![1, 1, if *x { 255 } else { 0 }]).collect();
        let tb: Vec<Vec<u8>> = texts.iter().map(|x| framed(0, false, 12, x.as_bytes())).collect();
        let (wn, wb, wt) = (indef(&nb), indef(&bb), indef(&tb));
        start(c, "indefinite-encoder", &wn);
        let (vn, vb, vt) = (IndefiniteVec(nums.clone()), IndefiniteVec(bools.clone()), IndefiniteVec(texts.clone()));
        is(c, "IndefiniteVec<u32>", &vn, &wn, true, &mut r);
        is(c, "IndefiniteVec<bool>", &vb, &wb, true, &mut r);
        is(c, "IndefiniteVec<String>", &vt, &wt, true, &mut r);
        is(c, "&IndefiniteVec<u32>", &&vn, &wn, true, &mut r);
        // inside objects of definite and indefinite length
        is(c, "IndefiniteVec<IndefiniteVec>", &IndefiniteVec(vec![vn.clone(), IndefiniteVec(vec![])]), &indef(&[wn.clone(), indef(&[])]), true, &mut r);
        is(c, "Vec<IndefiniteVec>", &vec![vn.clone(), vn.clone()], &framed(0, true, 16, &[wn.clone(), wn.clone()].concat()), false, &mut r);
        is(c, "SetOf<IndefiniteVec>", &SetOf::from_iter([vn.clone()]), &framed(0, true, 17, &wn), false, &mut r);
        is(c, "Explicit<IndefiniteVec>", &TaggedExplicit::<_, Error, 5>::explicit(vn.clone()), &framed(2, true, 5, &wn), false, &mut r);
        is(c, "Some(IndefiniteVec)", &Some(vn.clone()), &wn, true, &mut r);
        let mut imp = vec![0xa6];
        imp.extend_from_slice(&wn[1..]);
        is(c, "Implicit<IndefiniteVec>", &TaggedImplicit::<_, Error, 6>::implicit(vn.clone()), &imp, true, &mut r);
        // in a derived structure
        let h = Holder { a: 7, b: vn.clone(), c: vb.clone(), d: vb.clone() };
        let mut imp = vec![0xa3];
        imp.extend_from_slice(&wb[1..]);
        let body = [vec![2, 1, 7], wn.clone(), framed(2, true, 2, &wb), imp].concat();
        is(c, "derived with IndefiniteVec", &h, &framed(0, true, 16, &body), false, &mut r);
        // and the octets are those the decoders read
        eq(c, "decoded Vec<u32>", &wn, Some((nums.clone(), 0)), || Vec::<u32>::parse_ber(mk(&wn)).ok().map(|(x, v)| (v, x.len())));
        eq(c, "decoded Vec<String>", &wt, Some((texts.clone(), 0)), || Vec::<String>::parse_ber(mk(&wt)).ok().map(|(x, v)| (v, x.len())));
        eq(c, "tagged", &wn, (true, true, false), || (DynTagged::constructed(&vn), DynTagged::tag(&vn) == Tag::Sequence && <IndefiniteVec<u32> as DynTagged>::accept_tag(Tag::Sequence), <IndefiniteVec<u32> as DynTagged>::accept_tag(Tag::Set)));
    }
}

/// C16
pub fn helpers(c: &mut Ctx) {
    let n = c.n(3000, 30000);
    let mut r = Rng::new(mix(c.seed ^ 0x16_2000 ^ c.shard as u64));
    for _ in 0..n / c.shards + 1 {
        let (cl, tg, x) = (r.below(4) as u8, gen_tag(&mut r), r.next() as u32 >> r.below(32));
        let class = Class::try_from(cl).unwrap();
        let cons = r.chance(1, 2);
        let mut inner = vec![];
        tlv(0, false, 2, &int_u128(x as u128), &mut inner);
        let list = framed(0, true, 16, &inner);
        let we = framed(cl, true, tg, &inner);
        let wi = framed(cl, false, tg, &inner[2..]);
        let wl = framed(cl, true, tg, &inner);
        let wle = framed(cl, true, tg, &list);
        start(c, "tag-helpers", &we);
        let e: TaggedParser<'_, Explicit, u32, BerError<Input>> = x.explicit(class, tg);
        let i: TaggedParser<'_, Implicit, u32, BerError<Input>> = x.implicit(class, cons, tg);
        let l: TaggedParser<'_, Implicit, Vec<u32>, BerError<Input>> = vec![x].implicit(class, true, tg);
        let le: TaggedParser<'_, Explicit, Vec<u32>, BerError<Input>> = vec![x].explicit(class, tg);
        let ident = |h: &Header| (h.class() as u8, h.constructed(), h.tag().0);
        eq(c, ".explicit()", &we, ((cl, true, tg), x), || (ident(&e.header), e.inner));
        eq(c, ".implicit()", &wi, ((cl, cons, tg), x), || (ident(&i.header), i.inner));
        is(c, ".explicit() u32", &e, &we, false, &mut r);
        is(c, ".implicit() u32", &i, &wi, false, &mut r);
        is(c, ".implicit() list", &l, &wl, false, &mut r);
        is(c, ".explicit() list", &le, &wle, false, &mut r);
        for (what, want, got) in [("e", &we, e.to_der_vec()), ("i", &wi, i.to_der_vec()), ("l", &wl, l.to_der_vec()), ("le", &wle, le.to_der_vec())] {
            eq(c, &format!("tagged der {what}"), want, Some(want.clone()), || got.ok());
        }
        let t: TaggedParser<Explicit, u32> = TaggedParser::new(Header::new(class, true, Tag(tg), Length::Definite(inner.len())), x);
        is(c, "TaggedParser::new", &t, &we, false, &mut r);
        eq(c, "new==parsed", &we, Some(true), || TaggedParser::<Explicit, u32>::from_der(&we).ok().map(|(_, p)| p == t));
        eq(c, "TaggedParser tag", &we, (tg, true, cl), || (DynTagged::tag(&t).0, <TaggedParser<Explicit, u32> as DynTagged>::accept_tag(Tag(r.next() as u32)), t.class() as u8));
        // a value wrapped for another kind of tag is not taken
        let kinds: [(&str, bool, bool); 2] = [("explicit", TaggedExplicit::<u32, Error, 4>::from_der(&framed(2, true, 4, &inner)).is_ok(), TaggedExplicit::<u32, Error, 4>::from_der(&framed(2, false, 4, &inner[2..])).is_ok()), ("implicit", TaggedImplicit::<u32, Error, 4>::from_der(&framed(2, false, 4, &inner[2..])).is_ok(), TaggedImplicit::<u32, Error, 4>::from_der(&framed(2, true, 4, &inner)).is_ok())];
        for (k, right, wrong) in kinds {
            eq(c, &format!("kind {k}"), &we, (true, false), || (right, wrong));
        }
        type Vx = TaggedValue<u32, Error, Explicit, 1, 9>;
        type Vy = TaggedValue<u32, Error, Implicit, 3, 40>;
        eq(c, "TaggedValue identity", &we, (1, 9, 3, 40, x, x), || {
            let (a, b) = (Vx::explicit(x), Vy::implicit(x));
            (a.class() as u8, a.tag().0, b.class() as u8, b.tag().0, *a.as_ref(), b.into_inner())
        });
    }
    let ch = |t: u32| (<u32 as Choice>::can_decode(Tag(t)), <bool as Choice>::can_decode(Tag(t)), <Vec<u32> as Choice>::can_decode(Tag(t)), <Null as Choice>::can_decode(Tag(t)));
    for t in 0..64 {
        eq(c, "can_decode", &[t as u8], (t == 2, t == 1, t == 16, t == 5), || ch(t));
    }
}

/// C23: identifiers
pub fn identifiers(c: &mut Ctx) {
    const NAMES: [&str; 4] = ["UNIVERSAL", "APPLICATION", "CONTEXT-SPECIFIC", "PRIVATE"];
    for v in 0..=255u8 {
        let b = [v];
        start(c, "class", &b);
        eq(c, "Class::try_from", &b, (v < 4).then_some(v), || Class::try_from(v).ok().map(|x| x as u8));
        if v < 4 {
            eq(c, "Class::new_unwrap", &b, v, || Class::new_unwrap(v) as u8);
            eq(c, "Class text", &b, NAMES[v as usize].to_string(), || Class::new_unwrap(v).to_string());
        }
        for w in 0..4 {
            eq(c, "Class::assert_eq", &[v, w], v & 3 == w, || Class::new_unwrap(v & 3).assert_eq(Class::new_unwrap(w)).is_ok());
        }
    }
    let n = c.n(8000, 60000);
    let mut r = Rng::new(mix(c.seed ^ 0x23_2000 ^ c.shard as u64));
    for _ in 0..n / c.shards + 1 {
        // headers compare equal exactly when what both know of the identifier is equal; lengths are not part of it
        let ident = |r: &mut Rng| (r.below(4) as u8, r.chance(1, 2), *r.pick(&[0u32, 1, 2, 16, 30, 31, 127, 128, 16384, u32::MAX]));
        let a = ident(&mut r);
        let b = if r.chance(2, 3) { a } else { ident(&mut r) };
        let raw = |x: (u8, bool, u32), r: &mut Rng| {
            let mut o = vec![];
            put_ident(x.0, x.1, x.2, &mut o);
            if r.chance(1, 3) && o.len() > 1 {
                o.insert(1, 0x80);
            }
            o
        };
        let (ra, rb) = (raw(a, &mut r), raw(b, &mut r));
        let (ka, kb) = (r.chance(2, 3), r.chance(2, 3));
        let mk = |x: (u8, bool, u32), raw: &[u8], keep: bool, l: usize| {
            let h = Header::new(Class::new_unwrap(x.0), x.1, Tag(x.2), Length::Definite(l)).to_static();
            if keep { h.with_raw_tag(Some(raw.to_vec().into())) } else { h }
        };
        let (la, lb) = (r.below(300), r.below(300));
        let id = [ra.clone(), rb.clone(), vec![ka as u8, kb as u8]].concat();
        start(c, "header-equality", &id);
        let want = a == b && (!ka || !kb || ra == rb);
        c.hit(if want { "header-equal" } else { "header-different" });
        eq(c, "Header ==", &id, (want, want), || {
            let (x, y) = (mk(a, &ra, ka, la), mk(b, &rb, kb, lb));
            (x == y, y == x)
        });
        let (x, l) = (mk(a, &ra, ka, la), Length::Definite(la));
        eq(c, "Header accessors", &id, (a, la, ka.then(|| ra.clone()), (a.0, a.1, a.2)), || {
            ((x.class() as u8, x.constructed(), x.tag().0), x.length().definite().unwrap_or(0), x.raw_tag().map(|t| t.to_vec()), (DynTagged::class(&x) as u8, DynTagged::constructed(&x), DynTagged::tag(&x).0))
        });
        eq(c, "Header predicates", &id, (a.1, !a.1, a.0 == 0, a.0 == 1, a.0 == 2, a.0 == 3), || (x.is_constructed(), x.is_primitive(), x.is_universal(), x.is_application(), x.is_contextspecific(), x.is_private()));
        let (nc, nt, nb) = ident(&mut r);
        eq(c, "Header with_*", &id, ((nc, nt, nb), 9), || {
            let y = x.clone().with_class(Class::new_unwrap(nc)).with_constructed(nt).with_tag(Tag(nb)).with_length(9.into());
            ((y.class() as u8, y.constructed(), y.tag().0), y.length().definite().unwrap_or(0))
        });
        eq(c, "Length", &id, (la == 0, true, Ok(la)), || (l.is_null(), l.is_definite(), l.definite()));
        eq(c, "Length +", &id, (Length::Definite(la + lb), Length::Indefinite, Length::Indefinite), || (l + Length::Definite(lb), l + Length::Indefinite, Length::Indefinite + l));
        eq(c, "Length sum", &id, (Length::Definite(2 * la + lb), Length::Indefinite), || {
            ([la, la, lb].into_iter().map(Length::Definite).sum(), [Length::Definite(la), Length::Indefinite, Length::Definite(lb)].into_iter().sum())
        });
    }
}

//! C02: what the parsers that take a continuation, a tag or an iterator return as what follows the object. The
//! object is built here, so its end is known; the continuation leaves a part of the content, which must never
//! be taken for what follows the object.
use super::api::{eq, run, start};
use super::*;
use asn1_rs::nom::{Err, IResult, Input as _, Parser};
use asn1_rs::*;

/// one object: identifier, length in one of its forms, content
fn object(r: &mut Rng, class: u8, constructed: bool, tag: u32, content: &[u8], form: usize) -> Vec<u8> {
    let mut head = vec![];
    tlv(class, constructed, tag, &[], &mut head);
    head.pop();
    match form {
        0 => put_len(content.len(), &mut head),
        1 => put_len_padded(content.len(), 1 + r.below(4), &mut head),
        _ => head.push(0x80),
    }
    head.extend_from_slice(content);
    if form == 2 {
        head.extend([0, 0]);
    }
    head
}
/// (position, length) of a slice of the input
fn at(b: &[u8], s: &[u8]) -> (usize, usize) {
    (s.as_ptr() as usize - b.as_ptr() as usize, s.len())
}
fn place(i: &Input) -> (usize, usize) {
    assert!(i.len() == i.end() - i.start());
    (i.start() - BASE, i.len())
}

/// A continuation: takes the octets before `cut`, and says what it was given
fn leave<'a>(b: &[u8], cut: usize, d: &'a [u8]) -> ParseResult<'a, (usize, usize)> {
    Ok((&d[cut.min(d.len())..], at(b, d)))
}

pub fn remainders(c: &mut Ctx) {
    let n = c.n(3000, 60_000);
    for _ in 0..n {
        let r = &mut c.rng;
        let (mut content, mut kids) = (vec![], 0);
        for _ in 0..r.below(4) {
            let x = r.below(200) as u8;
            tlv(0, false, 2, &[x & 0x7f], &mut content);
            kids += 1;
        }
        let set = r.chance(1, 2);
        let (class, tag) = if r.chance(1, 2) { (0, 16 + set as u32) } else { (r.below(4) as u8, gen_tag(r)) };
        let form = r.below(3);
        let mut b = object(r, class, true, tag, &content, form);
        let end = b.len();
        let tail = match r.below(5) {
            0 => vec![],
            1 => vec![0; 1 + r.below(4)],
            2 => b.clone(),
            3 => vec![2, 1, 5],
            _ => {
                let k = r.below(6);
                r.bytes(k)
            }
        };
        b.extend_from_slice(&tail);
        let b = &b[..];
        let cstart = end - content.len() - if form == 2 { 2 } else { 0 };
        let inner = (cstart, content.len());
        // the continuation consumes up to here, or returns something that is not a part of the input
        let cut = if r.chance(1, 6) { usize::MAX } else { r.below(content.len() + 1) };
        let ders: &[bool] = if form == 0 { &[false, true] } else { &[false] };
        let other = (class + 1 + r.below(3) as u8) & 3;
        start(c, "remainder", b);
        c.hit(if tail.is_empty() { "remainder-no-tail" } else { "remainder-tail" });
        if cut < content.len() {
            c.hit("remainder-content-left");
        }
        let cl = Class::try_from(class).unwrap();
        let want = Some((inner, (end, tail.len())));
        let opi = |d: Input<'static>| -> IResult<Input<'static>, (usize, usize), BerError<Input<'static>>> {
            let p = place(&d);
            let k = cut.min(d.len());
            Ok((d.take_split(k).0, p))
        };
        for &der in ders {
            let ms = if der { "der" } else { "ber" };
            let name = |x: &str| format!("remainder-{x}-{ms}");
            let fin = |r: ParseResult<'_, (usize, usize)>| r.ok().map(|(rem, p)| (p, at(b, rem)));
            eq(c, &name("Any-and_then"), b, want, || fin(if der { Any::from_der_and_then(cl, tag, b, |d| leave(b, cut, d)) } else { Any::from_ber_and_then(cl, tag, b, |d| leave(b, cut, d)) }));
            eq(c, &name("TaggedParser-and_then"), b, want, || {
                type T<'a> = TaggedParser<'a, Explicit, (usize, usize)>;
                fin(if der { T::from_der_and_then(cl, tag, b, |d| leave(b, cut, d)) } else { T::from_ber_and_then(cl, tag, b, |d| leave(b, cut, d)) })
            });
            // optional parsers
            let p = OptTaggedParser::new(cl, Tag(tag));
            eq(c, &name("OptTaggedParser"), b, want.map(|(i, e)| (Some(i), e)), || {
                let r: ParseResult<Option<(usize, usize)>> = if der { p.parse_der(b, |_, d| leave(b, cut, d)) } else { p.parse_ber(b, |_, d| leave(b, cut, d)) };
                r.ok().map(|(rem, v)| (v, at(b, rem)))
            });
            let p = OptTaggedParser::new(cl, Tag(tag ^ 1));
            eq(c, &name("OptTaggedParser-absent"), b, Some((None, (0, b.len()))), || {
                let r: ParseResult<Option<(usize, usize)>> = if der { p.parse_der(b, |_, d| leave(b, cut, d)) } else { p.parse_ber(b, |_, d| leave(b, cut, d)) };
                r.ok().map(|(rem, v)| (v, at(b, rem)))
            });
            let wrong = Class::try_from(other).unwrap();
            eq(c, &name("other-class"), b, None, || {
                fin(if der { Any::from_der_and_then(wrong, tag, b, |d| leave(b, cut, d)) } else { Any::from_ber_and_then(wrong, tag, b, |d| leave(b, cut, d)) })
            });
            if class == 0 && (tag == 16 || tag == 17) {
                eq(c, &name("whole-and_then"), b, want, || {
                    fin(match (tag, der) {
                        (16, false) => Sequence::from_ber_and_then(b, |d| leave(b, cut, d)),
                        (16, _) => Sequence::from_der_and_then(b, |d| leave(b, cut, d)),
                        (_, false) => Set::from_ber_and_then(b, |d| leave(b, cut, d)),
                        _ => Set::from_der_and_then(b, |d| leave(b, cut, d)),
                    })
                });
                // the input-based forms; the octets live as long as the check
                let kept: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(b) };
                eq(c, &name("whole-parse-and_then"), b, want, || {
                    let i = mk(kept);
                    let r = match (tag, der) {
                        (16, false) => Sequence::parse_ber_and_then(i, |_, d| opi(d)),
                        (16, _) => Sequence::parse_der_and_then(i, |_, d| opi(d)),
                        (_, false) => Set::parse_ber_and_then(i, |_, d| opi(d)),
                        _ => Set::parse_der_and_then(i, |_, d| opi(d)),
                    };
                    r.ok().map(|(rem, p)| {
                        assert!(rem.as_bytes2().as_ptr() == kept[rem.start() - BASE..].as_ptr());
                        (p, place(&rem))
                    })
                });
                // functions on the object: what the continuation leaves is returned
                let left = {
                    let k = cut.min(content.len());
                    (cstart + k, content.len() - k)
                };
                macro_rules! on {
                    ($t:ident) => {
                        let _ = eq(c, &name(concat!(stringify!($t), "-content")), b, Some([Some((inner, left)); 3]), || {
                            let get = || -> Result<$t<'static>, Err<Error>> { if der { $t::from_der(kept) } else { $t::from_ber(kept) }.map(|x| x.1) };
                            let q = get().ok()?;
                            let f = |r: ParseResult<'_, (usize, usize)>| r.ok().map(|(rem, p)| (p, at(b, rem)));
                            Some([f(q.parse(|d| leave(b, cut, d))), f(get().ok()?.parse_into(|d| leave(b, cut, d))), f(get().ok()?.and_then(|cow: std::borrow::Cow<[u8]>| match cow {
                                std::borrow::Cow::Borrowed(d) => leave(b, cut, d),
                                _ => Err(Err::Error(Error::LifetimeError)),
                            }))])
                        });
                    };
                }
                if tag == 16 {
                    on!(Sequence);
                } else {
                    on!(Set);
                }
            }
            // the first object of the content, and all of them
            if kids > 0 {
                let rest = (cstart + 3, content.len() - 3);
                eq(c, &name("Any-content"), b, Some((u32::from(content[2]), rest)), || {
                    let a = if der { Any::from_der(b) } else { Any::from_ber(b) }.ok()?.1;
                    let (rem, v) = if der { a.parse_content_der::<u32>() } else { a.parse_content_ber::<u32>() }.ok()?;
                    Some((v, at(b, rem)))
                });
            }
            eq(c, &name("AnyIterator"), b, Some([(kids, (cstart + content.len(), 0)); 2]), || {
                let a = if der { Any::parse_der(mk(b)) } else { Any::parse_ber(mk(b)) }.ok()?.1;
                let (x, y) = if der {
                    (a.iter_elements::<DerMode>().try_collect::<Vec<_>>().ok()?, a.iter_elements::<DerMode>().try_parse_collect::<Vec<u32>, _>().ok()?)
                } else {
                    (a.iter_elements::<BerMode>().try_collect::<Vec<_>>().ok()?, a.iter_elements::<BerMode>().try_parse_collect::<Vec<u32>, _>().ok()?)
                };
                Some([(x.1.len(), place(&x.0)), (y.1.len(), place(&y.0))])
            });
            // tagged values: an accepted object ends where it ends, whatever is left in its content
            if kids > 0 {
                type E<'a> = TaggedParser<'a, Explicit, u32>;
                let b2 = b;
                let got = run(c, &name("tagged"), b, || {
                    let e = |r: ParseResult<'_, E<'_>>| r.ok().map(|(rem, _)| at(b2, rem));
                    let bld = TaggedParserBuilder::<Explicit, Error>::explicit().with_class(cl).with_tag(Tag(tag));
                    let mut v = vec![
                        ("parse", e(if der { E::parse_der(cl, Tag(tag), b2) } else { E::parse_ber(cl, Tag(tag), b2) })),
                        ("builder", e(if der { bld.der_parser::<u32>().parse(b2) } else { bld.ber_parser::<u32>().parse(b2) })),
                    ];
                    if der {
                        v.push(("explicit", e(parse_der_tagged_explicit::<_, u32, Error>(tag).parse(b2))));
                        let g = parse_der_tagged_explicit_g::<_, u32, _, Error>(tag, |d, _| u32::from_der(d));
                        let mut g = g;
                        v.push(("explicit-g", g.parse(b2).ok().map(|(rem, _)| at(b2, rem))));
                        let mut g = parse_der_tagged_implicit_g::<_, u32, _, Error>(tag, |d, _, _| Ok((d, d.len() as u32)));
                        v.push(("implicit-g", g.parse(b2).ok().map(|(rem, _)| at(b2, rem))));
                    }
                    v
                });
                for (what, p) in got.into_iter().flatten() {
                    if let Some(p) = p {
                        c.hit("remainder-tagged");
                        c.check(p == (end, tail.len()), || format!("api:remainder-{what}-{ms}"), || format!("is {p:?}, expected {:?}", (end, tail.len())), b);
                    }
                }
            }
        }
        // RELATIVE-OID
        let r = &mut c.rng;
        let arc = 1 + r.below(100) as u8;
        let mut oid = object(r, 0, false, 13, &[arc], form & 1);
        let end = oid.len();
        oid.extend_from_slice(&tail);
        let o = &oid[..];
        eq(c, "remainder-relative", o, Some((end, tail.len())), || Oid::from_ber_relative(o).ok().map(|(rem, _)| at(o, rem)));
        if form & 1 == 0 {
            eq(c, "remainder-relative-der", o, Some((end, tail.len())), || Oid::from_der_relative(o).ok().map(|(rem, _)| at(o, rem)));
        }
    }
}

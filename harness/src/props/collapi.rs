//! C19: iterators and containers over sequences of elements. Iterators are driven element by element (and past
//! their end), container operations as random histories; both are compared with the model.
use super::api::{eq, run, start};
use super::*;
use crate::model::TagKind;
use crate::vals::ToVal;
use asn1_rs::*;
use std::borrow::Cow;
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End {
    Clean,
    Error,
    /// no opinion from here on
    Open,
}
/// elements of `b` with their end offsets, and how the list ends
fn reference(s: &S, m: Mode, b: &[u8]) -> (Vec<Val>, Vec<usize>, End) {
    let (mut v, mut at, mut p) = (vec![], vec![], 0);
    while p < b.len() {
        let mut cx = Cx::default();
        match dec(s, m, &b[p..], &mut cx) {
            Ok((x, n)) if cx.lenient.is_empty() && cx.tolerated.is_empty() && n > 0 => {
                v.push(x);
                p += n;
                at.push(p);
            }
            Ok(_) | Err(Rej::Unspec(_)) | Err(Rej::Bad("class")) => return (v, at, End::Open),
            Err(_) => return (v, at, End::Error),
        }
    }
    (v, at, End::Clean)
}

struct Seen {
    items: Vec<Val>,
    err: bool,
    /// something other than None after the end
    restarted: bool,
}
fn drain<T, E>(it: impl Iterator<Item = std::result::Result<T, E>>, val: impl Fn(&T) -> Val) -> Seen {
    let mut it = it;
    let mut s = Seen { items: vec![], err: false, restarted: false };
    loop {
        match it.next() {
            Some(Ok(x)) => s.items.push(val(&x)),
            Some(Err(_)) => {
                s.err = true;
                break;
            }
            None => break,
        }
        if s.items.len() > 100_000 {
            s.restarted = true;
            return s;
        }
    }
    for _ in 0..4 {
        s.restarted |= it.next().is_some();
    }
    s
}

fn judge_iter(c: &mut Ctx, what: &str, b: &[u8], r: &(Vec<Val>, Vec<usize>, End), f: impl FnOnce() -> Seen) {
    let Some(s) = run(c, what, b, f) else { return };
    c.check(!s.restarted, || format!("iter-restart:{what}"), || "yields again after its end or its first error".into(), b);
    let n = r.0.len();
    let ok = match r.2 {
        End::Open => s.items.len() >= n && s.items[..n] == r.0[..],
        End::Clean => s.items == r.0 && !s.err,
        End::Error => s.items == r.0 && s.err,
    };
    c.check(ok, || format!("iter:{what}"), || format!("yields {:?} then {}, expected {:?} then {:?}", s.items, if s.err { "an error" } else { "the end" }, r.0, r.2), b);
    c.hit(match r.2 {
        End::Open => "list-open",
        End::Clean => "list-clean",
        End::Error if n > 0 => "list-error-after-items",
        End::Error => "list-error-first",
    });
}
fn judge_coll(c: &mut Ctx, what: &str, b: &[u8], r: &(Vec<Val>, Vec<usize>, End), f: impl FnOnce() -> Option<Vec<Val>>) {
    match r.2 {
        End::Open => {
            let _ = run(c, what, b, f);
        }
        End::Clean => {
            eq(c, what, b, Some(r.0.clone()), f);
        }
        End::Error => {
            eq(c, what, b, None, f);
        }
    }
}
fn vals<T: ToVal>(v: Vec<T>) -> Vec<Val> {
    v.iter().map(|x| x.to_val()).collect()
}

macro_rules! lists {
    ($c:ident, $b:ident, $name:literal, $t:ty, $s:expr) => {{
        let s = $s;
        let rb = reference(&s, Mode::Ber, $b);
        let rd = reference(&s, Mode::Der, $b);
        let v = |x: &$t| x.to_val();
        judge_iter($c, concat!("SequenceIterator-ber/", $name), $b, &rb, || drain(SequenceIterator::<$t, BerMode, Error>::new($b), v));
        judge_iter($c, concat!("SequenceIterator-der/", $name), $b, &rd, || drain(SequenceIterator::<$t, DerMode, Error>::new($b), v));
        judge_iter($c, concat!("SetIterator-ber/", $name), $b, &rb, || drain(SetIterator::<$t, BerMode>::new($b), v));
        for owned in [false, true] {
            let mkc = || if owned { Cow::Owned($b.to_vec()) } else { Cow::Borrowed($b) };
            judge_iter($c, concat!("Sequence::ber_iter/", $name), $b, &rb, || { let q = Sequence::new(mkc()); let s = drain(q.ber_iter::<$t, Error>(), v); s });
            judge_iter($c, concat!("Sequence::der_iter/", $name), $b, &rd, || { let q = Sequence::new(mkc()); let s = drain(q.der_iter::<$t, Error>(), v); s });
            judge_iter($c, concat!("Set::ber_iter/", $name), $b, &rb, || { let q = Set::new(mkc()); let s = drain(q.ber_iter::<$t, Error>(), v); s });
            judge_iter($c, concat!("Set::der_iter/", $name), $b, &rd, || { let q = Set::new(mkc()); let s = drain(q.der_iter::<$t, Error>(), v); s });
            judge_coll($c, concat!("Sequence::ber_sequence_of/", $name), $b, &rb, || { let q = Sequence::new(mkc()); let s = q.ber_sequence_of::<$t, Error>().ok().map(vals); s });
            judge_coll($c, concat!("Sequence::der_sequence_of/", $name), $b, &rd, || { let q = Sequence::new(mkc()); let s = q.der_sequence_of::<$t, Error>().ok().map(vals); s });
            judge_coll($c, concat!("Set::ber_set_of/", $name), $b, &rb, || { let q = Set::new(mkc()); let s = q.ber_set_of::<$t, Error>().ok().map(vals); s });
            judge_coll($c, concat!("Set::der_set_of/", $name), $b, &rd, || { let q = Set::new(mkc()); let s = q.der_set_of::<$t, Error>().ok().map(vals); s });
        }
        judge_coll($c, concat!("Sequence::into_der_sequence_of_ref/", $name), $b, &rd, || Sequence::new(Cow::Borrowed($b)).into_der_sequence_of_ref::<$t, Error>().ok().map(vals));
        judge_coll($c, concat!("Set::into_der_set_of_ref/", $name), $b, &rd, || Set::new(Cow::Borrowed($b)).into_der_set_of_ref::<$t, Error>().ok().map(vals));
        eq($c, concat!("into_der_of_ref-owned/", $name), $b, (true, true), || (
            matches!(Sequence::new(Cow::Owned($b.to_vec())).into_der_sequence_of_ref::<$t, Error>(), Err(Error::LifetimeError)),
            matches!(Set::new(Cow::Owned($b.to_vec())).into_der_set_of_ref::<$t, Error>(), Err(Error::LifetimeError)),
        ));
    }};
}
macro_rules! lists_in {
    ($c:ident, $b:ident, $name:literal, $t:ty, $s:expr) => {{
        let s = $s;
        let rb = reference(&s, Mode::Ber, $b);
        let rd = reference(&s, Mode::Der, $b);
        let v = |x: &$t| x.to_val();
        // with positions
        judge_iter($c, concat!("SequenceIteratorInput-ber/", $name), $b, &rb, || drain(SequenceIteratorInput::<$t, BerMode>::new(mk($b)), v));
        judge_iter($c, concat!("SequenceIteratorInput-der/", $name), $b, &rd, || drain(SequenceIteratorInput::<$t, DerMode>::new(mk($b)), v));
        for (m, r) in [(Mode::Ber, &rb), (Mode::Der, &rd)] {
            let what = if m == Mode::Ber { concat!("try_parse_collect-ber/", $name) } else { concat!("try_parse_collect-der/", $name) };
            judge_coll($c, what, $b, r, || {
                let x = match m {
                    Mode::Ber => AnyIterator::<BerMode>::new(mk($b)).try_parse_collect::<Vec<$t>, $t>(),
                    Mode::Der => AnyIterator::<DerMode>::new(mk($b)).try_parse_collect::<Vec<$t>, $t>(),
                };
                x.ok().map(|(rem, v)| {
                    assert!(rem.is_empty() && rem.start() == BASE + $b.len() && rem.end() == BASE + $b.len(), "remaining input wrong");
                    vals(v)
                })
            });
        }
    }};
}
macro_rules! lists_own {
    ($c:ident, $b:ident, $name:literal, $t:ty, $s:expr) => {{
        let s = $s;
        let rb = reference(&s, Mode::Ber, $b);
        let rd = reference(&s, Mode::Der, $b);
        for owned in [false, true] {
            let mkc = || if owned { Cow::Owned($b.to_vec()) } else { Cow::Borrowed($b) };
            judge_coll($c, concat!("Sequence::into_ber_sequence_of/", $name), $b, &rb, || Sequence::new(mkc()).into_ber_sequence_of::<$t, (), Error>().ok().map(vals));
            judge_coll($c, concat!("Sequence::into_der_sequence_of/", $name), $b, &rd, || Sequence::new(mkc()).into_der_sequence_of::<$t, (), Error>().ok().map(vals));
            judge_coll($c, concat!("Set::into_ber_set_of/", $name), $b, &rb, || Set::new(mkc()).into_ber_set_of::<$t, Error>().ok().map(vals));
            judge_coll($c, concat!("Set::into_der_set_of/", $name), $b, &rd, || Set::new(mkc()).into_der_set_of::<$t, Error>().ok().map(vals));
        }
    }};
}

/// AnyIterator: elements, their positions, and what is collected
fn anys(c: &mut Ctx, b: &[u8]) {
    for m in [Mode::Ber, Mode::Der] {
        let r = reference(&S::Any, m, b);
        let ends = r.1.clone();
        let obs = |it: &mut dyn Iterator<Item = std::result::Result<(Input, Any), BerError<Input>>>, base: usize| -> Seen {
            drain(it, |(i, a)| {
                assert!(i.end() - i.start() == i.len(), "element span and bytes differ");
                let off = i.start() - base;
                assert!(i.as_bytes2() == &b[off..off + i.len()], "element bytes are not the input at its position");
                let e = off + i.len();
                if let Some(j) = ends.iter().position(|x| *x == e) {
                    assert!(off == if j == 0 { 0 } else { ends[j - 1] }, "element does not start where the previous one ends");
                } else {
                    assert!(r.2 == End::Open, "element ends elsewhere");
                }
                assert!(a.data.start() >= i.start() && a.data.end() <= i.end() && a.data.as_bytes2() == &b[a.data.start() - base..a.data.end() - base], "content position wrong");
                a.to_val()
            })
        };
        let name = if m == Mode::Ber { "AnyIterator-ber" } else { "AnyIterator-der" };
        judge_iter(c, name, b, &r, || match m {
            Mode::Ber => obs(&mut AnyIterator::<BerMode>::new(mk(b)), BASE),
            Mode::Der => obs(&mut AnyIterator::<DerMode>::new(mk(b)), BASE),
        });
        let a = Any::from_tag_and_data(Tag::Sequence, mk(b));
        judge_iter(c, &format!("iter_elements/{name}"), b, &r, || match m {
            Mode::Ber => obs(&mut a.iter_elements::<BerMode>(), BASE),
            Mode::Der => obs(&mut a.iter_elements::<DerMode>(), BASE),
        });
        judge_coll(c, &format!("try_collect/{name}"), b, &r, || {
            let x = match m {
                Mode::Ber => AnyIterator::<BerMode>::new(mk(b)).try_collect::<Vec<Any>>(),
                Mode::Der => AnyIterator::<DerMode>::new(mk(b)).try_collect::<Vec<Any>>(),
            };
            x.ok().map(|(rem, v)| {
                assert!(rem.is_empty() && rem.start() == BASE + b.len() && rem.end() == BASE + b.len(), "remaining input wrong");
                vals(v)
            })
        });
        // resumed collection: the first k elements by hand, the rest collected
        if r.2 == End::Clean && r.0.len() > 1 {
            let k = b.len() % r.0.len();
            eq(c, &format!("resumed-collect/{name}"), b, Some(r.0[k..].to_vec()), || {
                let x = match m {
                    Mode::Ber => {
                        let mut it = AnyIterator::<BerMode>::new(mk(b));
                        for _ in 0..k {
                            it.next();
                        }
                        it.try_collect::<Vec<Any>>()
                    }
                    Mode::Der => {
                        let mut it = AnyIterator::<DerMode>::new(mk(b));
                        for _ in 0..k {
                            it.next();
                        }
                        it.try_collect::<Vec<Any>>()
                    }
                };
                x.ok().map(|x| vals(x.1))
            });
        }
    }
}

fn whole(i: &[u8]) -> ParseResult<'_, Vec<u8>> {
    Ok((&i[i.len()..], i.to_vec()))
}

/// Sequence / Set: whole objects and continuation functions
fn wholes(c: &mut Ctx, b: &[u8], set: bool) {
    let s = if set { S::RawSet } else { S::RawSeq };
    for m in [Mode::Ber, Mode::Der] {
        let e = expect(&s, Shape::Plain, m, b);
        let clear = e.cx.lenient.is_empty() && e.cx.tolerated.is_empty();
        let want = match &e.r {
            Ok((Val::Bytes(v), n)) if clear => Some((v.clone(), *n)),
            Ok(_) | Err(Rej::Unspec(_)) | Err(Rej::Bad("class")) => continue,
            Err(_) if !clear => continue,
            Err(_) => None,
        };
        let (ty, ms) = (if set { "Set" } else { "Sequence" }, if m == Mode::Ber { "ber" } else { "der" });
        // parse_*_and_then goes through Any: accepts what Any accepts with this tag, whatever its class
        type O = (Vec<u8>, usize);
        let slice = |i: &[u8], d: &[u8], rem: &[u8]| -> O {
            assert!(rem.as_ptr() == i[i.len() - rem.len()..].as_ptr());
            (d.to_vec(), i.len() - rem.len())
        };
        eq(c, &format!("{ty}::from_{ms}_and_then"), b, want.clone(), || {
            let op = |d| -> ParseResult<&[u8]> { Ok((&b""[..], d)) };
            let r = match (set, m) {
                (false, Mode::Ber) => Sequence::from_ber_and_then(b, op),
                (false, Mode::Der) => Sequence::from_der_and_then(b, op),
                (true, Mode::Ber) => Set::from_ber_and_then(b, op),
                (true, Mode::Der) => Set::from_der_and_then(b, op),
            };
            r.ok().map(|(rem, d)| slice(b, d, rem))
        });
        eq(c, &format!("{ty}::from_{ms}_and_then-error"), b, true, || {
            let op = |_| -> ParseResult<&[u8]> { Err(Err::Error(Error::BerValueError)) };
            match (set, m) {
                (false, Mode::Ber) => Sequence::from_ber_and_then(b, op),
                (false, Mode::Der) => Sequence::from_der_and_then(b, op),
                (true, Mode::Ber) => Set::from_ber_and_then(b, op),
                (true, Mode::Der) => Set::from_der_and_then(b, op),
            }
            .is_err()
        });
        {
            eq(c, &format!("{ty}::parse_{ms}_and_then"), b, want.clone(), || {
                let op = |h: Header, d: Input<'_>| -> IResult<Input<'_>, Vec<u8>, BerError<Input<'_>>> {
                    assert!(h.constructed() && d.as_bytes2() == &b[d.start() - BASE..d.end() - BASE]);
                    let v = d.as_bytes2().to_vec();
                    Ok((Input::from_slice(&[]), v))
                };
                let r = match (set, m) {
                    (false, Mode::Ber) => Sequence::parse_ber_and_then(mk(b), op),
                    (false, Mode::Der) => Sequence::parse_der_and_then(mk(b), op),
                    (true, Mode::Ber) => Set::parse_ber_and_then(mk(b), op),
                    (true, Mode::Der) => Set::parse_der_and_then(mk(b), op),
                };
                r.ok().map(|(rem, d)| {
                    assert!(rem.end() == BASE + b.len() && rem.len() == rem.end() - rem.start());
                    (d, rem.start() - BASE)
                })
            });
        }
        // content access on the parsed object
        let Some((content, n)) = want else { continue };
        c.hit("whole-ok");
        macro_rules! acc {
            ($t:ident) => {
                eq(c, &format!("{ty}-content-{ms}"), b, (content.clone(), content.clone(), Some(content.clone()), Some(content.clone()), Some(content.clone()), n), || {
                    let (rem, q) = match m {
                        Mode::Ber => $t::from_ber(b).unwrap(),
                        Mode::Der => $t::from_der(b).unwrap(),
                    };
                    let raw = q.as_raw_slice().map(|r| {
                        assert!(r.is_empty() || (r.as_ptr() as usize) >= b.as_ptr() as usize && (r.as_ptr() as usize) + r.len() <= b.as_ptr() as usize + b.len());
                        r.to_vec()
                    });
                    let r: &[u8] = q.as_ref();
                    let r = r.to_vec();
                    let p = { let q2 = $t::new(Cow::Borrowed(&q.content)); let x = q2.parse(whole).ok().map(|x| x.1); x };
                    let a = q.clone().and_then(|i| -> ParseResult<Vec<u8>> { Ok((&[], i.to_vec())) }).ok().map(|x| x.1);
                    (r, q.into_content().into_owned(), raw, p, a, b.len() - rem.len())
                });
                eq(c, &format!("{ty}-parse_into-{ms}"), b, (Some(content.clone()), true, None), || {
                    let x = $t::new(Cow::Borrowed(&content[..])).parse_into(whole).ok().map(|x| x.1);
                    let y: ParseResult<Vec<u8>> = $t::new(Cow::Owned(content.clone())).parse_into(whole);
                    (x, matches!(y, Err(Err::Error(Error::LifetimeError))), $t::new(Cow::Owned(content.clone())).as_raw_slice().map(|x| x.to_vec()))
                });
            };
        }
        if set {
            acc!(Set);
        } else {
            acc!(Sequence);
        }
    }
}

/// random histories of container operations
fn history(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let n0 = r.len(40);
    let init: Vec<u32> = (0..n0).map(|_| r.next() as u32 >> r.below(32)).collect();
    let mut trace: Vec<u8> = vec![];
    macro_rules! of {
        ($t:ident, $ty:literal, $list:expr) => {{
            let mut m = init.clone();
            let mut x = if r.chance(1, 2) { $t::new(init.clone()) } else { init.iter().copied().collect::<$t<u32>>() };
            start(c, concat!("history-", $ty), &trace);
            for _ in 0..r.range(1, 30) {
                let v = r.next() as u32 >> r.below(32);
                let op = r.below(6) as u8;
                trace.push(op);
                match op {
                    0 | 1 => {
                        x.push(v);
                        m.push(v);
                    }
                    2 if !m.is_empty() => {
                        let i = r.below(m.len());
                        x.as_mut()[i] = v;
                        m[i] = v;
                    }
                    3 if !m.is_empty() => {
                        let i = r.below(m.len());
                        x[i] = x[i].wrapping_add(1);
                        m[i] = m[i].wrapping_add(1);
                    }
                    4 => {
                        x.as_mut().reverse();
                        m.reverse();
                    }
                    _ => {}
                }
                eq(c, concat!($ty, "-history"), &trace, (m.clone(), m.len(), m.first().copied()), || (x.as_ref().to_vec(), x.len(), x.iter().next().copied()));
            }
            let s = $list(Box::new(S::Int(IntK::U(32))));
            let v = Val::Seq(m.iter().map(|x| Val::Int(int_u128(*x as u128))).collect());
            let want = der(&s, &v);
            // canonical order of sets is judged under C08: compare the elements here
            let set = $ty == "SetOf";
            let norm = |b: Vec<u8>| -> String { if set { let mut k = { let mut b = b; b[0] = 0x30; let k: ParseResult<Vec<u32>> = Vec::<u32>::from_ber(&b); k.map(|x| x.1).unwrap_or_default() }; k.sort(); format!("{k:?}") } else { format!("{b:?}") } };
            eq(c, concat!($ty, "-encode"), &trace, (Some(norm(want.clone())), Some(norm(want.clone()))), || (x.to_ber_vec().ok().map(norm), x.to_der_vec().ok().map(norm)));
            eq(c, concat!($ty, "-into_vec"), &trace, (m.clone(), m.clone()), || { let z = $t::new(x.as_ref().to_vec()); let y: Vec<u32> = z.into(); (y, x.into_vec()) });
            c.hit(concat!("history-", $ty));
        }};
    }
    of!(SequenceOf, "SequenceOf", S::SeqOf);
    of!(SetOf, "SetOf", S::SetList);
    // heterogeneous containers; elements are (tag, content) with their own buffers
    let pool: Vec<(u32, Vec<u8>)> = (0..8).map(|_| (*r.pick(&[2u32, 4, 12, 5, 40]), { let n = r.below(4); r.bytes(n) })).collect();
    let any = |i: usize| Any::from_tag_and_data(Tag(pool[i].0), Input::from_slice(&pool[i].1));
    let mut trace: Vec<u8> = vec![];
    start(c, "history-AnySequence", &trace);
    let mut m: Vec<usize> = (0..r.below(6)).map(|_| r.below(8)).collect();
    let mut x: AnySequence = if r.chance(1, 2) { AnySequence::new(m.iter().map(|i| any(*i)).collect()) } else { m.iter().map(|i| any(*i)).collect() };
    for _ in 0..r.range(1, 30) {
        let i = r.below(8);
        let op = r.below(5) as u8;
        trace.push(op << 4 | i as u8);
        match op {
            0 | 1 => {
                x.push(any(i));
                m.push(i);
            }
            2 => {
                let w = m.pop();
                eq(c, "AnySequence::pop", &trace, w.map(any), || x.pop());
            }
            3 => {
                if let Some(f) = x.iter_mut().nth(i) {
                    *f = any(0);
                }
                if let Some(f) = m.get_mut(i) {
                    *f = 0;
                }
            }
            _ => {}
        }
        eq(c, "AnySequence-history", &trace, (m.iter().map(|i| any(*i)).collect::<Vec<_>>(), m.len(), m.is_empty()), || (x.iter().cloned().collect(), x.len(), x.is_empty()));
    }
    let mut content = vec![];
    for i in &m {
        tlv(0, false, pool[*i].0, &pool[*i].1, &mut content);
    }
    let mut want = vec![];
    tlv(0, true, 16, &content, &mut want);
    eq(c, "AnySequence-encode", &trace, (Some(want.clone()), Some(want)), || (x.to_ber_vec().ok(), x.to_der_vec().ok()));
    c.hit("history-AnySequence");

    start(c, "history-AnySet", &trace);
    let mut m: Vec<(u32, Vec<u8>)> = vec![];
    let mut x: AnySet = if r.chance(1, 2) { AnySet::new(HashSet::new()) } else { std::iter::empty().collect() };
    for _ in 0..r.range(1, 30) {
        let i = r.below(8);
        let op = r.below(3) as u8;
        trace.push(op << 4 | i as u8);
        let e = pool[i].clone();
        if op < 2 {
            let new = !m.contains(&e);
            if new {
                m.push(e);
            }
            eq(c, "AnySet::insert", &trace, new, || x.insert(any(i)));
        } else {
            let had = m.contains(&e);
            m.retain(|y| *y != e);
            eq(c, "AnySet::remove", &trace, had, || x.remove(&any(i)));
        }
        let mut w = m.clone();
        w.sort();
        eq(c, "AnySet-history", &trace, (w, m.len(), m.is_empty()), || {
            let mut v: Vec<(u32, Vec<u8>)> = x.iter().map(|a| (a.tag().0, a.data.as_bytes2().to_vec())).collect();
            v.sort();
            (v, x.len(), x.is_empty())
        });
    }
    let total: usize = m.iter().map(|(t, d)| { let mut o = vec![]; tlv(0, false, *t, d, &mut o); o.len() }).sum();
    eq(c, "AnySet-encode", &trace, Some((m.len(), total, 0x31)), || {
        x.to_der_vec().ok().map(|b| { let s = Set::from_der(&b).unwrap().1; let k = s.ber_iter::<Any, Error>().filter(|x| x.is_ok()).count(); (k, s.content.len(), b[0]) })
    });
    c.hit("history-AnySet");

    // building from an iterator
    let vals_: Vec<u32> = init.clone();
    let mut content = vec![];
    for v in &vals_ {
        tlv(0, false, 2, &int_u128(*v as u128), &mut content);
    }
    start(c, "from_iter_to_der", &content);
    eq(c, "Sequence::from_iter_to_der", &content, Some(content.clone()), || Sequence::from_iter_to_der(vals_.iter().copied()).ok().map(|s| s.into_content().into_owned()));
    eq(c, "Set::from_iter_to_der", &content, Some(content.clone()), || Set::from_iter_to_der(vals_.iter().copied()).ok().map(|s| s.into_content().into_owned()));
    for (set, tag) in [(false, 16), (true, 17)] {
        let mut w = vec![];
        tlv(0, true, tag, &content, &mut w);
        eq(c, if set { "Set-encode" } else { "Sequence-encode" }, &content, (Some(w.clone()), Some(w)), || {
            if set {
                let s = Set::from_iter_to_der(vals_.iter().copied()).unwrap();
                (s.to_ber_vec().ok(), s.to_der_vec().ok())
            } else {
                let s = Sequence::from_iter_to_der(vals_.iter().copied()).unwrap();
                (s.to_ber_vec().ok(), s.to_der_vec().ok())
            }
        });
    }
    c.rng = r;
}

pub fn collections(c: &mut Ctx) {
    let n = c.n(6000, 100_000);
    let types = [S::Int(IntK::U(32)), S::OctStr, S::Bool, S::Any, S::SeqOf(Box::new(S::Int(IntK::U(32)))), S::Str(StrK::Utf8)];
    let kinds = [Kind::Der, Kind::Der, Kind::Ber, Kind::Mut, Kind::Tree, Kind::Trunc, Kind::Indef, Kind::Noncanon, Kind::Hostile];
    for i in 0..n {
        let mut r = c.rng.clone();
        let s = types[i % types.len()].clone();
        let k = if r.chance(1, 12) { 60 } else { 6 };
        let mut b = vec![];
        for _ in 0..r.below(k) {
            let v = gen_val(&s, &mut r, 1);
            let kind = if r.chance(3, 4) { Kind::Der } else { *r.pick(&kinds) };
            b.extend(make(&s, &v, kind, &mut r));
        }
        match r.below(8) {
            0 if !b.is_empty() => b.truncate(r.below(b.len())),
            1 => b.extend(r.bytes(3)),
            2 => {
                let o = gen_val(r.pick(&types), &mut r, 1);
                b.extend(der(&S::Any, &match o { Val::Any { .. } => o, _ => gen_any(&mut r, 1) }));
            }
            _ => {}
        }
        c.rng = r;
        start(c, "list", &b);
        let b = &b[..];
        match i % types.len() {
            0 => {
                lists!(c, b, "u32", u32, s.clone());
                lists_in!(c, b, "u32", u32, s.clone());
                lists_own!(c, b, "u32", u32, s);
            }
            1 => {
                lists!(c, b, "OctetString", OctetString, s.clone());
                lists_in!(c, b, "OctetString", OctetString, s.clone());
            }
            2 => {
                lists!(c, b, "bool", bool, s.clone());
                lists_in!(c, b, "bool", bool, s.clone());
                lists_own!(c, b, "bool", bool, s);
            }
            3 => {
                lists!(c, b, "Any", Any, s.clone());
            }
            4 => {
                lists!(c, b, "Vec<u32>", Vec<u32>, s.clone());
                lists_in!(c, b, "Vec<u32>", Vec<u32>, s.clone());
            }
            _ => {
                lists!(c, b, "String", String, s.clone());
                lists_in!(c, b, "String", String, s.clone());
                lists_own!(c, b, "String", String, s);
            }
        }
        anys(c, b);
    }
    for i in 0..c.n(3000, 50_000) {
        let mut r = c.rng.clone();
        let set = i % 2 == 1;
        let s = if r.chance(1, 8) { S::Tag(TagKind::Impl, r.below(4) as u8, gen_tag(&mut r), Box::new(S::RawSeq)) } else if set { S::RawSet } else { S::RawSeq };
        let v = gen_val(&s, &mut r, 2);
        let mut b = make(&s, &v, *r.pick(&kinds), &mut r);
        if r.chance(1, 3) {
            b.extend(r.bytes(2));
        }
        c.rng = r;
        start(c, "whole", &b);
        wholes(c, &b, set);
    }
    for _ in 0..c.n(1000, 10_000) {
        history(c);
    }
}

//! C22: owned copies. C23: equality, order, hash and clone.
use super::api::{eq, run, start};
use super::*;
use crate::derived::*;
use crate::vals::{dt, ToVal};
use asn1_rs::*;
use std::borrow::Cow;
use std::cmp::Ordering;

// ---------------------------------------------------------------------------------------------------- C22

/// random, pairwise distinct pieces of text and octets in one buffer
struct Pieces {
    buf: Vec<u8>,
    at: Vec<(usize, usize)>,
    k: usize,
}
impl Pieces {
    fn new(r: &mut Rng) -> Self {
        let mut p = Pieces { buf: vec![], at: vec![], k: 0 };
        for i in 0..40 {
            let s = p.buf.len();
            let n = if r.chance(1, 12) { 0 } else { r.len(200) };
            if n > 0 {
                p.buf.extend(format!("{i}:").bytes());
            }
            p.buf.extend((0..n).map(|_| b' ' + r.below(94) as u8));
            p.at.push((s, p.buf.len()));
        }
        p
    }
}
struct Cut<'b> {
    b: &'b [u8],
    at: &'b [(usize, usize)],
    k: usize,
}
impl<'b> Cut<'b> {
    fn bytes(&mut self) -> &'b [u8] {
        let (s, e) = self.at[self.k % self.at.len()];
        self.k += 1;
        &self.b[s..e]
    }
    fn b(&mut self) -> Cow<'b, [u8]> {
        Cow::Borrowed(self.bytes())
    }
    fn s(&mut self) -> Cow<'b, str> {
        Cow::Borrowed(std::str::from_utf8(self.bytes()).unwrap())
    }
    fn own(&mut self, r: &mut Rng) -> Own<'b> {
        Own { a: self.s(), b: self.b(), n: r.next() as u32, f: r.chance(1, 2) }
    }
    fn owne(&mut self, r: &mut Rng) -> OwnE<'b> {
        match r.below(3) {
            0 => OwnE::Unit,
            1 => OwnE::One(self.s()),
            _ => OwnE::Two { x: r.next() as u32, y: self.b() },
        }
    }
    fn ownt(&mut self, r: &mut Rng) -> OwnT<'b> {
        OwnT(r.next(), self.own(r), (0..r.below(4)).map(|_| self.own(r)).collect())
    }
    fn ownm(&mut self, r: &mut Rng) -> OwnM<'b, 'b> {
        OwnM {
            a: self.s(),
            a2: self.s(),
            b: self.b(),
            o: if r.chance(1, 2) { Some(self.s()) } else { None },
            x: Box::new(self.own(r)),
            h: Header::new(*r.pick(&[Class::Universal, Class::Application, Class::ContextSpecific, Class::Private]), r.chance(1, 2), Tag(gen_tag(r)), Length::Definite(r.below(1000)))
                .with_raw_tag(if r.chance(1, 2) { Some(self.b()) } else { None }),
            s: Sequence::new(self.b()),
            v: (0..r.below(4)).map(|_| if r.chance(1, 3) { None } else { Some(self.owne(r)) }).collect(),
            n: OwnNewtype(r.next() as i128 - r.next() as i128),
        }
    }
    fn ownb(&mut self, r: &mut Rng) -> OwnB<'b> {
        match r.below(7) {
            0 => OwnB::A(r.u8(), r.u8(), self.s()),
            1 => OwnB::B { p: self.b(), q: self.b(), r: r.chance(1, 2) },
            2 => OwnB::C(self.own(r)),
            3 => OwnB::D((0..r.below(4)).map(|_| self.owne(r)).collect()),
            4 => OwnB::E,
            5 => OwnB::F(OwnU),
            _ => OwnB::G(Box::new(self.ownt(r)), if r.chance(1, 2) { Some(r.next()) } else { None }),
        }
    }
}

fn owned_direct(c: &mut Ctx) {
    let mut r = c.rng.clone();
    let p = Pieces::new(&mut r);
    let k = r.below(40);
    let keep = p.buf.clone();
    start(c, "to_static", &p.buf);
    c.hit("owned-structures");
    // the original is rebuilt over an intact copy of the buffer after its own has been overwritten
    macro_rules! pair {
        ($what:literal, $m:ident) => {{
            let seed = r.next();
            let made = run(c, $what, &keep, || {
                let mut mine = p.buf.clone();
                let (o, dbg) = {
                    let x = Cut { b: &mine, at: &p.at, k }.$m(&mut Rng::new(seed));
                    (x.to_static(), format!("{x:?}"))
                };
                for y in mine.iter_mut() {
                    *y = !*y;
                }
                drop(mine);
                (o, dbg)
            });
            if let Some((o, dbg)) = made {
                let x = Cut { b: &keep, at: &p.at, k }.$m(&mut Rng::new(seed));
                c.check(o == x, || concat!("owned:", $what).into(), || format!("copy {o:?}, original {x:?}"), &keep);
                c.check(format!("{o:?}") == dbg, || concat!("owned-debug:", $what).into(), || format!("copy {o:?}, original {dbg}"), &keep);
                c.sample(|| dbg);
            }
        }};
    }
    pair!("Own", own);
    pair!("OwnE", owne);
    pair!("OwnT", ownt);
    pair!("OwnM", ownm);
    pair!("OwnB", ownb);
    // the implementations on library and standard types
    let (s, e) = p.at[k];
    let t = std::str::from_utf8(&keep[s..e]).unwrap().to_string();
    let n = r.next();
    macro_rules! one {
        ($what:literal, $want:expr, $f:expr) => {
            eq(c, concat!("to_static-", $what), &keep[s..e], $want, || {
                let mut mine = p.buf.clone();
                #[allow(clippy::redundant_closure_call)]
                let o = ($f)(&mine[s..e]);
                for y in mine.iter_mut() {
                    *y = !*y;
                }
                drop(mine);
                o
            });
        };
    }
    fn tx(b: &[u8]) -> &str {
        std::str::from_utf8(b).unwrap()
    }
    let raw = keep[s..e].to_vec();
    one!("Cow<str>", Cow::<str>::Owned(t.clone()), |b: &[u8]| Cow::Borrowed(tx(b)).to_static());
    one!("Cow<[u8]>", Cow::<[u8]>::Owned(raw.clone()), |b: &[u8]| Cow::Borrowed(b).to_static());
    one!("owned Cow", Cow::<[u8]>::Owned(raw.clone()), |b: &[u8]| Cow::<[u8]>::Owned(b.to_vec()).to_static());
    one!("str", t.clone(), |b: &[u8]| tx(b).to_static());
    one!("String", t.clone(), |b: &[u8]| tx(b).to_string().to_static());
    one!("Option<Cow>", Some(Cow::<str>::Owned(t.clone())), |b: &[u8]| Some(Cow::Borrowed(tx(b))).to_static());
    one!("None", None::<Cow<'static, str>>, |b: &[u8]| { let _ = b; None::<Cow<str>>.to_static() });
    one!("Box<Cow>", Box::new(Cow::<str>::Owned(t.clone())), |b: &[u8]| Box::new(Cow::Borrowed(tx(b))).to_static());
    one!("Vec<Cow>", vec![Cow::<str>::Owned(t.clone()), Cow::Borrowed("x")], |b: &[u8]| vec![Cow::Borrowed(tx(b)), Cow::Borrowed("x")].to_static());
    one!("&&Cow", Cow::<str>::Owned(t.clone()), |b: &[u8]| (&&Cow::Borrowed(tx(b))).to_static());
    one!("Sequence", Sequence::new(Cow::Owned(raw.clone())), |b: &[u8]| Sequence::new(Cow::Borrowed(b)).to_static());
    one!("Set", raw.clone(), |b: &[u8]| Set::new(Cow::Borrowed(b)).to_static().content.into_owned());
    one!("Vec<Sequence>", vec![Sequence::new(Cow::Owned(raw.clone())); 2], |b: &[u8]| vec![Sequence::new(Cow::Borrowed(b)), Sequence::new(Cow::Owned(b.to_vec()))].to_static());
    one!("u64", n, |_: &[u8]| n.to_static());
    one!("i128", -(n as i128), |_: &[u8]| (-(n as i128)).to_static());
    one!("bool", n % 2 == 0, |_: &[u8]| (n % 2 == 0).to_static());
    // object identifiers have their own owned copy
    for rel in [false, true] {
        let arcs = gen_arcs(&mut r);
        let content = if rel { let mut o = vec![]; for a in &arcs { put_arc(*a as u128, &mut o); } o } else { oid_content(&arcs) };
        if content.is_empty() {
            continue;
        }
        let want = if rel { Oid::new_relative(Cow::Owned(content.clone())) } else { Oid::new(Cow::Owned(content.clone())) };
        eq(c, "Oid::to_owned", &content, (true, content.clone(), rel, want.to_string(), want.to_der_vec().ok()), || {
            let mut mine = content.clone();
            let o = if rel { Oid::new_relative(Cow::Borrowed(&mine)).to_owned() } else { Oid::new(Cow::Borrowed(&mine)).to_owned() };
            for y in mine.iter_mut() {
                *y = !*y;
            }
            drop(mine);
            let e = o == want && want == o;
            (e, o.as_bytes().to_vec(), o.tag() == Tag::RelativeOid, o.to_string(), o.to_der_vec().ok())
        });
        c.hit("owned-oid");
    }
    // decoded headers
    let (class, cons, tag) = (r.below(4) as u8, r.chance(1, 2), gen_tag(&mut r));
    let len = match r.below(4) {
        0 if cons => None,
        _ => Some(r.len(300)),
    };
    let mut h = vec![];
    put_ident(class, cons, tag, &mut h);
    match len {
        None => h.push(0x80),
        Some(n) => put_len(n, &mut h),
    }
    eq(c, "Header-to_static", &h, (true, class, cons, tag, len, true), || {
        let orig = h.clone();
        let x = Header::from_ber(&orig).unwrap().1;
        let mut mine = h.clone();
        let o = Header::from_ber(&mine).unwrap().1.to_static();
        for y in mine.iter_mut() {
            *y = !*y;
        }
        drop(mine);
        let l = match o.length() {
            Length::Definite(n) => Some(n),
            Length::Indefinite => None,
        };
        let raw = o.raw_tag().map(|x| x.to_vec()) == x.raw_tag().map(|x| x.to_vec());
        let same = o == x && x == o && o.to_der_vec().ok() == x.to_der_vec().ok() && raw;
        let id = h[..h.len() - 1].starts_with(o.raw_tag().unwrap_or(&[]));
        (same, o.class() as u8, o.constructed(), o.tag().0, l, id)
    });
    c.hit("owned-header");
    c.rng = r;
}

pub fn c22(c: &mut Ctx) {
    let subs = all_subjects();
    let refs: Vec<&Subject> = subs.iter().filter(|s| s.to_static.is_some()).collect();
    let per = c.n(4000, 40_000);
    let kinds = [Kind::Der, Kind::Ber, Kind::Indef, Kind::Noncanon, Kind::Mut, Kind::Tree];
    sweep(c, 22, &refs, per, &kinds, &mut |c, s, _, _, b, _| {
        let f = s.to_static.unwrap();
        c.checks += 1;
        match guard(|| f(b.to_vec())) {
            Ok(Some(o)) => {
                note(c, s, b);
                c.hit("owned-decoded");
                c.check(o.before == o.after, || format!("owned/{}", s.name), || format!("copy {:?}, original {:?}", o.after, o.before), b);
                c.check(o.dbg_before == o.dbg_after, || format!("owned-debug/{}", s.name), || format!("copy {}, original {}", o.dbg_after, o.dbg_before), b);
                c.check(o.enc_before == o.enc_after, || format!("owned-encoding/{}", s.name), || format!("copy {:?}, original {:?}", o.enc_after, o.enc_before), b);
            }
            Ok(None) => {}
            Err(p) => c.viol(format!("owned-panic/{}", s.name), p, b),
        }
    });
    for _ in 0..c.n(6000, 60_000) {
        owned_direct(c);
    }
}

// ---------------------------------------------------------------------------------------------------- C23

fn has_nan(v: &Val) -> bool {
    match v {
        Val::Real(b) => f64::from_bits(*b).is_nan(),
        Val::Seq(x) | Val::Set(x) => x.iter().any(has_nan),
        Val::Opt(Some(x)) | Val::Tagged(_, _, x) | Val::Choice(_, x) => has_nan(x),
        _ => false,
    }
}

/// the laws on a matrix of observations
fn laws(c: &mut Ctx, name: &str, enc: &[Vec<u8>], vals: &[Val], eqm: &dyn Fn(usize, usize) -> Option<bool>, ord: &dyn Fn(usize, usize) -> Option<Ordering>, hash: &dyn Fn(usize) -> Option<u64>) {
    let n = enc.len();
    let mut e = vec![vec![None; n]; n];
    let mut o = vec![vec![None; n]; n];
    let mut h = vec![None; n];
    for i in 0..n {
        for j in 0..n {
            e[i][j] = run(c, &format!("eq/{name}"), &enc[i], || eqm(i, j)).flatten();
            o[i][j] = run(c, &format!("cmp/{name}"), &enc[i], || ord(i, j)).flatten();
        }
        h[i] = run(c, &format!("hash/{name}"), &enc[i], || hash(i)).flatten();
    }
    let pair = |i: usize, j: usize| {
        let mut v = enc[i].clone();
        v.extend_from_slice(&enc[j]);
        v
    };
    for i in 0..n {
        let nan = has_nan(&vals[i]);
        if let (Some(x), false) = (e[i][i], nan) {
            c.check(x, || format!("eq-not-reflexive/{name}"), || format!("{:?} differs from itself", vals[i]), &enc[i]);
        }
        for j in 0..n {
            let (Some(x), Some(y)) = (e[i][j], e[j][i]) else { continue };
            let b = pair(i, j);
            c.hit(if x && i != j { "equal-pair" } else { "different-pair" });
            c.check(x == y, || format!("eq-not-symmetric/{name}"), || format!("{:?} and {:?}", vals[i], vals[j]), &b);
            if enc[i] == enc[j] && !nan {
                c.check(x, || format!("eq-same-encoding/{name}"), || format!("two decodings of {:?} differ", vals[i]), &enc[i]);
            }
            if vals[i] != vals[j] {
                c.check(!x, || format!("eq-different-values/{name}"), || format!("{:?} equals {:?}", vals[i], vals[j]), &b);
            }
            if x && h[i].is_some() {
                c.hit("hash-of-equal");
                c.check(h[i] == h[j], || format!("hash-of-equal/{name}"), || format!("{:?} and {:?}", vals[i], vals[j]), &b);
            }
            if let (Some(p), Some(q)) = (o[i][j], o[j][i]) {
                c.hit("ordered-pair");
                c.check(p == q.reverse(), || format!("ord-not-antisymmetric/{name}"), || format!("{:?} and {:?}: {p:?}, {q:?}", vals[i], vals[j]), &b);
                c.check((p == Ordering::Equal) == x, || format!("ord-eq/{name}"), || format!("{:?} and {:?}: {p:?} but equal is {x}", vals[i], vals[j]), &b);
            }
            for k in 0..n {
                if e[i][j] == Some(true) && e[j][k] == Some(true) {
                    c.check(e[i][k] == Some(true), || format!("eq-not-transitive/{name}"), || format!("{:?}, {:?}, {:?}", vals[i], vals[j], vals[k]), &b);
                }
                if o[i][j].is_some() && o[i][j] == o[j][k] {
                    c.check(o[i][k] == o[i][j], || format!("ord-not-transitive/{name}"), || format!("{:?}, {:?}, {:?}", vals[i], vals[j], vals[k]), &b);
                }
            }
        }
    }
}

/// natural order of values that have one
fn natural(s: &S, a: &Val, b: &Val) -> Option<Ordering> {
    match (s, a, b) {
        (S::Bool, Val::Bool(x), Val::Bool(y)) => Some(x.cmp(y)),
        (S::Int(_), Val::Int(x), Val::Int(y)) => {
            if let (Some(x), Some(y)) = (int_to_i128(x), int_to_i128(y)) {
                Some(x.cmp(&y))
            } else {
                Some(int_to_u128(x)?.cmp(&int_to_u128(y)?))
            }
        }
        (S::Str(_), Val::Str(x), Val::Str(y)) => Some(x.cmp(y)),
        (S::Gen, Val::Time(x), Val::Time(y)) if x.tz == y.tz => Some((x.y, x.mo, x.d, x.h, x.mi, x.s, x.ms).cmp(&(y.y, y.mo, y.d, y.h, y.mi, y.s, y.ms))),
        _ => None,
    }
}

fn pool(s: &Subject, r: &mut Rng) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for _ in 0..3 {
        let v = gen_val(&s.s, r, 2);
        let d = make(&s.s, &v, Kind::Der, r);
        out.push(make(&s.s, &v, Kind::Ber, r));
        for _ in 0..3 {
            // neighbours: one octet of the content changed
            let mut m = d.clone();
            if m.len() > 2 {
                let i = r.range(2, m.len() - 1);
                m[i] = match r.below(4) {
                    0 => m[i].wrapping_add(1),
                    1 => m[i] ^ (1 << r.below(8)),
                    2 => m[i] ^ 0x80,
                    _ => r.u8(),
                };
            }
            out.push(m);
        }
        out.push(make(&s.s, &v, *r.pick(&[Kind::Noncanon, Kind::Indef, Kind::Mut, Kind::Tree]), r));
        out.push(d.clone());
        if r.chance(1, 2) {
            out.push(d);
        }
    }
    out
}

fn dec_val(s: &Subject, b: &[u8]) -> Option<Val> {
    let d = s.decs.iter().find(|d| d.mode == Mode::Ber && d.shape == Shape::Plain)?;
    match guard(|| (d.f)(b)).ok()?.out {
        Out::Ok(v, _) => Some(v),
        _ => None,
    }
}

fn header_laws(c: &mut Ctx) {
    let mut r = c.rng.clone();
    // decoded headers, as a family of close neighbours
    let (cl, co, tg, ln) = (r.below(4) as u8, r.chance(1, 2), gen_tag(&mut r), r.len(300));
    let mut enc: Vec<Vec<u8>> = vec![];
    for _ in 0..8 {
        let (mut cl, mut co, mut tg, mut ln) = (cl, co, tg, ln);
        match r.below(6) {
            0 => cl = r.below(4) as u8,
            1 => co = !co,
            2 => tg = if r.chance(1, 2) { gen_tag(&mut r) } else { tg ^ (1 << r.below(31)) },
            3 => ln = r.len(300),
            _ => {}
        }
        let mut h = vec![];
        put_ident(cl, co, tg, &mut h);
        if r.chance(1, 6) && co { h.push(0x80) } else { put_len(ln, &mut h) }
        enc.push(h);
    }
    start(c, "header-laws", &enc[0]);
    let hd: Vec<Header> = enc.iter().map(|b| Header::from_ber(b).unwrap().1).collect();
    // lengths are not part of the comparison
    let vals: Vec<Val> = hd.iter().map(|h| Val::Any { class: h.class() as u8, constructed: h.constructed(), tag: h.tag().0, content: vec![] }).collect();
    laws(c, "Header", &enc, &vals, &|i, j| Some(hd[i] == hd[j]), &|_, _| None, &|i| Some(hash_of(&hd[i])));
    let built: Vec<Header> = hd.iter().map(|h| Header::new(h.class(), h.constructed(), h.tag(), h.length())).collect();
    laws(c, "Header-built", &enc, &vals, &|i, j| Some(built[i] == built[j]), &|_, _| None, &|i| Some(hash_of(&built[i])));
    for (h, b) in hd.iter().zip(&enc) {
        eq(c, "Header-clone", b, true, || { let k = h.clone(); k == *h && *h == k && hash_of(&k) == hash_of(h) && format!("{k:?}") == format!("{h:?}") });
    }
    // the small types
    let tags: Vec<Tag> = hd.iter().map(|h| h.tag()).collect();
    laws(c, "Tag", &enc, &tags.iter().map(|t| Val::Enum(t.0)).collect::<Vec<_>>(), &|i, j| Some(tags[i] == tags[j]), &|_, _| None, &|i| Some(hash_of(&tags[i])));
    let lens: Vec<Length> = hd.iter().map(|h| h.length()).collect();
    let lv: Vec<Val> = lens.iter().map(|l| match l { Length::Definite(n) => Val::Enum(*n as u32), Length::Indefinite => Val::Null }).collect();
    laws(c, "Length", &enc, &lv, &|i, j| Some(lens[i] == lens[j]), &|_, _| None, &|i| Some(hash_of(&lens[i])));
    let cls: Vec<Class> = hd.iter().map(|h| h.class()).collect();
    laws(c, "Class", &enc, &cls.iter().map(|t| Val::Enum(*t as u32)).collect::<Vec<_>>(), &|i, j| Some(cls[i] == cls[j]), &|_, _| None, &|i| Some(hash_of(&cls[i])));
    // positioned input: equal when octets and positions are
    let buf = r.bytes(6);
    let ins: Vec<Input> = (0..8).map(|_| { let (a, b) = (r.below(7), r.below(7)); let (a, b) = (a.min(b), a.max(b)); let st = r.below(2); Input::new(&buf[a..b], st..st + b - a) }).collect();
    let iv: Vec<Val> = ins.iter().map(|i| Val::Seq(vec![Val::Bytes(i.as_bytes2().to_vec()), Val::Enum(i.start() as u32), Val::Enum(i.end() as u32)])).collect();
    let ie: Vec<Vec<u8>> = ins.iter().map(|i| i.as_bytes2().to_vec()).collect();
    // equal octets at different positions are different inputs: no claim from the octets alone
    let ie: Vec<Vec<u8>> = ie.into_iter().zip(&ins).map(|(mut v, i)| { v.push(i.start() as u8); v }).collect();
    laws(c, "Input", &ie, &iv, &|i, j| Some(ins[i] == ins[j]), &|_, _| None, &|i| Some(hash_of(&ins[i])));
    eq(c, "Input-clone", &buf, true, || ins.iter().all(|i| i.clone() == *i && i.const_clone() == *i && hash_of(&i.clone()) == hash_of(i)));
    // identifiers: absolute and relative ones with the same octets differ
    let mut oids: Vec<Oid> = vec![];
    let base = gen_arcs(&mut r);
    for _ in 0..8 {
        let mut a = base.clone();
        if r.chance(1, 2) && a.len() > 2 {
            let i = r.range(2, a.len() - 1);
            a[i] = if r.chance(1, 2) { a[i] ^ 1 } else { gen_arc(&mut r) };
        }
        let b = oid_content(&a);
        oids.push(if r.chance(1, 3) { Oid::new_relative(Cow::Owned(b)) } else { Oid::new(Cow::Owned(b)) });
    }
    let ov: Vec<Val> = oids.iter().map(|o| o.to_val()).collect();
    let oe: Vec<Vec<u8>> = oids.iter().map(|o| o.to_der_vec().unwrap_or_default()).collect();
    laws(c, "Oid-built", &oe, &ov, &|i, j| Some(oids[i] == oids[j]), &|_, _| None, &|i| Some(hash_of(&oids[i])));
    eq(c, "Oid-clone", &oe[0], true, || oids.iter().all(|o| { let k = o.clone(); k == *o && hash_of(&k) == hash_of(o) && k.to_val() == o.to_val() }));
    // dates
    let t0 = gen_time(&mut r, false);
    let ts: Vec<ASN1DateTime> = (0..8)
        .map(|_| {
            let mut t = t0.clone();
            match r.below(9) {
                0 => t.y = r.below(9999) as u32,
                1 => t.mo = r.range(1, 12) as u8,
                2 => t.d = r.range(1, 28) as u8,
                3 => t.h = r.below(24) as u8,
                4 => t.mi = r.below(60) as u8,
                5 => t.s = r.below(60) as u8,
                6 => t.ms = if r.chance(1, 3) { None } else { Some(r.below(1000) as u16) },
                7 => { let m = r.range(0, 1438) as i32 - 719; t.tz = *r.pick(&[Tz::None, Tz::Z, Tz::Off(m)]) },
                _ => {}
            }
            let tz = match t.tz {
                Tz::None => ASN1TimeZone::Undefined,
                Tz::Z => ASN1TimeZone::Z,
                Tz::Off(m) => ASN1TimeZone::Offset((m / 60) as i8, (if m / 60 == 0 { m % 60 } else { (m % 60).abs() }) as i8),
            };
            ASN1DateTime::new(t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms, tz)
        })
        .collect();
    let tv: Vec<Val> = ts.iter().map(dt).collect();
    let te: Vec<Vec<u8>> = ts.iter().map(|t| format!("{t:?}").into_bytes()).collect();
    laws(c, "ASN1DateTime", &te, &tv, &|i, j| Some(ts[i] == ts[j]), &|i, j| { assert!(ts[i].partial_cmp(&ts[j]) == Some(ts[i].cmp(&ts[j]))); Some(ts[i].cmp(&ts[j])) }, &|_| None);
    let (g, u): (Vec<GeneralizedTime>, Vec<UtcTime>) = ts.iter().map(|t| (GeneralizedTime::new(t.clone()), UtcTime::new(t.clone()))).unzip();
    laws(c, "GeneralizedTime-built", &te, &tv, &|i, j| Some(g[i] == g[j]), &|i, j| Some(g[i].cmp(&g[j])), &|_| None);
    laws(c, "UtcTime-built", &te, &tv, &|i, j| Some(u[i] == u[j]), &|i, j| Some(u[i].cmp(&u[j])), &|_| None);
    for i in 0..ts.len() {
        for j in 0..ts.len() {
            if let (Val::Time(x), Val::Time(y)) = (&tv[i], &tv[j]) {
                if x.tz == y.tz {
                    let w = (x.y, x.mo, x.d, x.h, x.mi, x.s, x.ms).cmp(&(y.y, y.mo, y.d, y.h, y.mi, y.s, y.ms));
                    eq(c, "time-order", &te[i], (w, w, w), || (ts[i].cmp(&ts[j]), g[i].cmp(&g[j]), u[i].cmp(&u[j])));
                }
            }
        }
        eq(c, "ASN1DateTime-clone", &te[i], true, || ts[i].clone() == ts[i] && dt(&ts[i].clone()) == tv[i]);
        for t2 in &ts {
            let (a, b) = (ts[i].tz, t2.tz);
            eq(c, "ASN1TimeZone-laws", &te[i], true, || (a == b) == (b == a) && a.cmp(&b) == b.cmp(&a).reverse() && (a.cmp(&b) == Ordering::Equal) == (a == b) && a.partial_cmp(&b) == Some(a.cmp(&b)));
        }
    }
    // IndefiniteVec compares as its vector
    let v: Vec<u32> = (0..r.below(4)).map(|_| r.next() as u32).collect();
    let mut w = v.clone();
    if r.chance(1, 2) {
        w.push(1);
    }
    eq(c, "IndefiniteVec-laws", &[], (v == w, true, true), || (IndefiniteVec(v.clone()) == IndefiniteVec(w.clone()), IndefiniteVec(v.clone()).clone() == IndefiniteVec(v.clone()), IndefiniteVec::<u32>::default().0.is_empty()));
    // BIT STRINGs and integers built by hand
    let nb = r.below(20);
    let data = r.bytes(nb.div_ceil(8));
    let unused = ((8 - nb % 8) % 8) as u8;
    let bits: Vec<(Vec<u8>, u8)> = vec![
        (data.clone(), unused),
        (data.clone(), unused),
        { let mut d = data.clone(); if let Some(l) = d.last_mut() { *l ^= 1u8.checked_shl(r.below(8) as u32).unwrap_or(0) } (d, unused) },
        { let mut d = data.clone(); if let Some(l) = d.first_mut() { *l ^= 0x80 } (d, unused) },
        (data.clone(), if data.is_empty() { 0 } else { r.below(8) as u8 }),
        { let mut d = data.clone(); d.push(0); (d, unused) },
        { let mut d = data.clone(); d.push(0); (d, 0) },
    ];
    let bs: Vec<BitString> = bits.iter().map(|(d, u)| BitString::new(*u, d)).collect();
    let bv: Vec<Val> = bits.iter().map(|(d, u)| Val::Bits((0..(d.len() * 8).saturating_sub(*u as usize)).map(|i| d[i / 8] >> (7 - i % 8) & 1 == 1).collect())).collect();
    let be: Vec<Vec<u8>> = bits.iter().map(|(d, u)| { let mut v = vec![*u]; v.extend(d); v }).collect();
    laws(c, "BitString-built", &be, &bv, &|i, j| Some(bs[i] == bs[j]), &|_, _| None, &|_| None);
    for i in 0..bs.len() {
        for j in 0..bs.len() {
            // the value of a bit string is its bits
            eq(c, "BitString-eq-is-bits", &be[i], bv[i] == bv[j], || bs[i] == bs[j]);
        }
        eq(c, "BitString-clone", &be[i], true, || { let k = bs[i].clone(); k == bs[i] && k.to_val() == bv[i] });
    }
    c.rng = r;
}

pub fn c23(c: &mut Ctx) {
    super::encapi::identifiers(c);
    let subs = all_subjects();
    let n = c.n(60, 600);
    for (k, s) in subs.iter().enumerate() {
        for it in 0..n {
            let i = k * n + it;
            if i % c.shards != c.shard {
                continue;
            }
            let mut r = Rng::new(crate::rng::mix(c.seed ^ 0x2300_0000_0000 ^ i as u64));
            let enc: Vec<Vec<u8>> = pool(s, &mut r).into_iter().filter(|b| dec_val(s, b).is_some()).collect();
            if enc.is_empty() || s.eq.is_none() && s.clone_eq.is_none() {
                continue;
            }
            start(c, s.name, &enc[0]);
            let vals: Vec<Val> = enc.iter().map(|b| dec_val(s, b).unwrap()).collect();
            if let Some(f) = s.eq {
                laws(
                    c,
                    s.name,
                    &enc,
                    &vals,
                    &|i, j| {
                        f(&enc[i], &enc[j]).map(|(a, b)| {
                            assert!(a == b, "a == b but not b == a");
                            a
                        })
                    },
                    &|i, j| {
                        s.ord.and_then(|o| o(&enc[i], &enc[j])).map(|(p, o)| {
                            assert!(p == Some(o), "partial_cmp and cmp differ");
                            o
                        })
                    },
                    &|i| s.hash.and_then(|h| h(&enc[i])),
                );
            }
            // (REAL values are compared by mantissa, base and exponent, not by their numbers)
            if let Some(f) = s.build_eq.filter(|_| s.name != "Real") {
                // a value built from its parts is the one decoded from its encoding
                let v = gen_val(&s.s, &mut r, 3);
                let b = der(&s.s, &v);
                if dec_val(s, &b).as_ref() == Some(&v) {
                    if let Ok(Some(e)) = guard(|| f(&v, &b)) {
                        c.hit("built");
                        c.check(e == (true, true), || format!("built-differs/{}", s.name), || format!("{v:?}: {e:?}"), &b);
                    }
                    // the header of a generic object keeps the octets of its identifier, if it was decoded: a
                    // built one equals decoded ones whatever their identifier octets (documented)
                    let generic = crate::work::any_s(&s.s, &|x| matches!(x, S::Any));
                    for (w, _) in enc.iter().zip(&vals).filter(|(w, x)| !generic || der(&s.s, x) == **w) {
                        eq(c, &format!("built-eq/{}", s.name), w, s.eq.unwrap()(&b, w), || f(&v, w));
                    }
                    if let (Some(h), Some(g)) = (s.build_hash, s.hash) {
                        eq(c, &format!("built-hash/{}", s.name), &b, g(&b), || h(&v));
                    }
                }
            }
            if let Some(o) = s.ord {
                for i in 0..enc.len() {
                    for j in 0..enc.len() {
                        if let Some(w) = natural(&s.s, &vals[i], &vals[j]) {
                            eq(c, &format!("order/{}", s.name), &enc[i], Some(w), || o(&enc[i], &enc[j]).map(|x| x.1));
                        }
                    }
                }
            }
            if let Some(f) = s.clone_eq {
                for b in &enc {
                    c.hit("cloned");
                    eq(c, &format!("clone/{}", s.name), b, Some(true), || f(b));
                }
            }
        }
    }
    for _ in 0..c.n(600, 4000) {
        header_laws(c);
    }
}

//! Registry of the library's types: for every type, the entry points that decode, encode, copy and compare it.
use crate::model::*;
use crate::vals::ToVal;
use asn1_rs::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Val, usize),
    /// incomplete input reported
    Inc(Option<usize>),
    Err,
}
#[derive(Clone, Debug)]
pub struct DecOut {
    pub out: Out,
    /// Err(what) if the reported remaining input is not exactly the tail of the given one
    pub span: Result<(), String>,
    /// rendered error (also exercises Display/Debug)
    pub msg: String,
    /// the reason given
    pub why: Option<Why>,
}
/// Reasons an error can give, common to the crate's error types
#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    BerType,
    BerValue,
    Length,
    InvalidValue(u32),
    InvalidTag,
    UnknownTag(u32),
    Tag(Option<u32>, u32),
    Class(Option<u8>, u8),
    Indefinite,
    ConstructExpected,
    ConstructUnexpected,
    TooLarge,
    Negative,
    MaxDepth,
    Charset,
    DateTime,
    Der(DerConstraint),
    Lifetime,
    Unsupported,
    Incomplete(Option<usize>),
    Nom,
    Other,
}
macro_rules! why {
    ($t:ident, $nom:ident, $e:expr) => {
        #[allow(unreachable_patterns)]
        match $e {
            $t::BerTypeError => Why::BerType,
            $t::BerValueError => Why::BerValue,
            $t::InvalidLength => Why::Length,
            $t::InvalidValue { tag, .. } => Why::InvalidValue(tag.0),
            $t::InvalidTag => Why::InvalidTag,
            $t::UnknownTag(t) => Why::UnknownTag(*t),
            $t::UnexpectedTag { expected, actual } => Why::Tag(expected.map(|t| t.0), actual.0),
            $t::UnexpectedClass { expected, actual } => Why::Class(expected.map(|t| t as u8), *actual as u8),
            $t::IndefiniteLengthUnexpected => Why::Indefinite,
            $t::ConstructExpected => Why::ConstructExpected,
            $t::ConstructUnexpected => Why::ConstructUnexpected,
            $t::IntegerTooLarge => Why::TooLarge,
            $t::IntegerNegative => Why::Negative,
            $t::BerMaxDepth => Why::MaxDepth,
            $t::StringInvalidCharset => Why::Charset,
            $t::InvalidDateTime => Why::DateTime,
            $t::DerConstraintFailed(d) => Why::Der(*d),
            $t::LifetimeError => Why::Lifetime,
            $t::Unsupported => Why::Unsupported,
            $t::Incomplete(n) => Why::Incomplete(needed(*n)),
            $t::$nom(_) => Why::Nom,
            _ => Why::Other,
        }
    };
}
pub fn why_error(e: &Error) -> Why {
    why!(Error, NomError, e)
}
pub fn why_inner(e: &InnerError) -> Why {
    why!(InnerError, Nom, e)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    /// decodes the schema itself
    Plain,
    /// Option<schema>
    Opt,
    /// captures header and content only
    AsInput,
}

pub struct Dec {
    pub api: &'static str,
    pub mode: Mode,
    pub shape: Shape,
    pub f: fn(&[u8]) -> DecOut,
}

#[derive(Clone, Debug)]
pub struct EncOut {
    pub vec: Result<Vec<u8>, String>,
    pub write: Result<(usize, Vec<u8>), String>,
    pub encode: Result<(usize, Vec<u8>), String>,
    pub header: Result<(usize, Vec<u8>), String>,
    pub content: Result<(usize, Vec<u8>), String>,
    pub expl: Result<(usize, Vec<u8>), String>,
    pub impl_: Result<(usize, Vec<u8>), String>,
    pub content_len: Option<usize>,
    pub total_len: Option<usize>,
    pub info: (u8, bool, u32),
    /// what differs when the value is encoded through references to it
    pub by_ref: Option<String>,
}

/// A writer that takes at most `chunk` octets per call, fails for good after `limit`, and reports
/// `Interrupted` before every `intr`-th call.
pub struct FaultW {
    pub buf: Vec<u8>,
    pub limit: Option<usize>,
    pub chunk: usize,
    pub intr: usize,
    pub calls: usize,
    pub failed: bool,
}
impl FaultW {
    pub fn new(limit: Option<usize>, chunk: usize, intr: usize) -> Self {
        FaultW { buf: vec![], limit, chunk, intr, calls: 0, failed: false }
    }
}
impl Write for FaultW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.chunk);
        if let Some(l) = self.limit {
            if !b.is_empty() && self.buf.len() >= l {
                self.failed = true;
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
            }
            n = n.min(l - self.buf.len().min(l));
        }
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// class/tag used for the *_encode_tagged_* calls
#[derive(Clone, Copy, Debug)]
pub struct TagAs(pub u8, pub u32);

#[allow(clippy::type_complexity)]
pub struct Subject {
    pub name: &'static str,
    pub s: S,
    pub decs: Vec<Dec>,
    /// decode (any accepted form), then encode
    pub enc_ber: Option<fn(&[u8], TagAs) -> Option<(Val, EncOut)>>,
    pub enc_der: Option<fn(&[u8], TagAs) -> Option<(Val, EncOut)>>,
    /// decode DER, then encode DER (identity on canonical input)
    /// build the value from its parts (nothing is decoded), then encode
    pub build_ber: Option<fn(&Val, TagAs) -> Option<(Val, EncOut)>>,
    pub build_der: Option<fn(&Val, TagAs) -> Option<(Val, EncOut)>>,
    pub fault_ber: Option<fn(&[u8], &mut FaultW) -> Option<Result<usize, String>>>,
    pub fault_der: Option<fn(&[u8], &mut FaultW) -> Option<Result<usize, String>>>,
    /// decode, take an owned copy, drop the input: (before, after, encodings before/after)
    pub to_static: Option<fn(Vec<u8>) -> Option<StaticOut>>,
    /// (a==b, b==a, hash a == hash b)
    pub eq: Option<fn(&[u8], &[u8]) -> Option<(bool, bool)>>,
    /// (built == decoded, decoded == built)
    pub build_eq: Option<fn(&Val, &[u8]) -> Option<(bool, bool)>>,
    pub build_hash: Option<fn(&Val) -> Option<u64>>,
    pub hash: Option<fn(&[u8]) -> Option<u64>>,
    pub ord: Option<fn(&[u8], &[u8]) -> Option<(Option<std::cmp::Ordering>, std::cmp::Ordering)>>,
    pub clone_eq: Option<fn(&[u8]) -> Option<bool>>,
    pub fmt: Option<fn(&[u8]) -> Option<String>>,
    /// where the decoded value borrows: offset ranges inside the input
    pub tagged: Option<(u8, bool, u32)>,
}
pub struct StaticOut {
    pub before: Val,
    pub after: Val,
    pub dbg_before: String,
    pub dbg_after: String,
    pub enc_before: Option<Vec<u8>>,
    pub enc_after: Option<Vec<u8>>,
}

impl Subject {
    pub fn new(name: &'static str, s: S) -> Self {
        Subject {
            name,
            s,
            decs: vec![],
            enc_ber: None,
            enc_der: None,
            build_ber: None,
            build_der: None,
            fault_ber: None,
            fault_der: None,
            to_static: None,
            eq: None,
            build_eq: None,
            build_hash: None,
            hash: None,
            ord: None,
            clone_eq: None,
            fmt: None,
            tagged: None,
        }
    }
}

/// offset given to the Input handed to a parser, so that absolute positions are observable
pub const BASE: usize = 1000;

pub fn mk(b: &[u8]) -> Input<'_> {
    Input::new(b, BASE..BASE + b.len())
}

fn check_tail(b: &[u8], rem: &Input) -> Result<usize, String> {
    let rb = rem.as_bytes2();
    if rb.len() > b.len() {
        return Err("remainder longer than input".into());
    }
    let n = b.len() - rb.len();
    if rb.as_ptr() != b[n..].as_ptr() {
        return Err("remainder is not the tail of the input".into());
    }
    if rem.start() != BASE + n || rem.end() != BASE + b.len() {
        return Err("remainder position wrong".into());
    }
    Ok(n)
}
fn check_tail_bytes(b: &[u8], rb: &[u8]) -> Result<usize, String> {
    if rb.len() > b.len() {
        return Err("remainder longer than input".into());
    }
    let n = b.len() - rb.len();
    if rb.as_ptr() != b[n..].as_ptr() {
        return Err("remainder is not the tail of the input".into());
    }
    Ok(n)
}
fn needed(n: Needed) -> Option<usize> {
    match n {
        Needed::Unknown => None,
        Needed::Size(n) => Some(n.get()),
    }
}

pub trait ErrInfo {
    fn why(&self) -> Why;
    fn inc(&self) -> Option<Option<usize>>;
    fn pos(&self, b: &[u8]) -> Result<(), String>;
}
impl ErrInfo for Error {
    fn why(&self) -> Why {
        why_error(self)
    }
    fn inc(&self) -> Option<Option<usize>> {
        match self {
            Error::Incomplete(n) => Some(needed(*n)),
            _ => None,
        }
    }
    fn pos(&self, _: &[u8]) -> Result<(), String> {
        Ok(())
    }
}
impl ErrInfo for BerError<Input<'_>> {
    fn why(&self) -> Why {
        why_inner(self.inner())
    }
    fn inc(&self) -> Option<Option<usize>> {
        match self.inner() {
            InnerError::Incomplete(n) => Some(needed(*n)),
            _ => None,
        }
    }
    /// the location of an error is a part of the input (or an empty, unpositioned placeholder)
    fn pos(&self, b: &[u8]) -> Result<(), String> {
        let i = self.input();
        if i.len() != i.as_bytes2().len() {
            return Err("error location: length and bytes differ".into());
        }
        let (lo, p) = (b.as_ptr() as usize, i.as_bytes2().as_ptr() as usize);
        if p >= lo && p + i.len() <= lo + b.len() {
            if i.start() != BASE + (p - lo) && !(i.is_empty() && i.start() == 0) {
                return Err(format!("error location says {} but its bytes are at {}", i.start(), BASE + (p - lo)));
            }
        } else if !(i.is_empty() && i.start() == 0) {
            return Err(format!("error location {}..{} is outside the input", i.start(), i.end()));
        }
        if i.end().wrapping_sub(i.start()) != i.len() {
            return Err(format!("error location {}..{} has {} octets", i.start(), i.end(), i.len()));
        }
        Ok(())
    }
}

pub fn fin<'i, T: ToVal, E: ErrInfo + std::fmt::Debug + std::fmt::Display>(b: &'i [u8], r: IResult<Input<'i>, T, E>) -> DecOut {
    crate::meter::end();
    match r {
        Ok((rem, v)) => {
            let t = check_tail(b, &rem);
            let n = t.clone().unwrap_or(usize::MAX);
            DecOut { out: Out::Ok(v.to_val(), n), span: t.map(|_| ()), msg: String::new(), why: None }
        }
        Err(e) => crate::subjects::fin_err(b, e),
    }
}
pub fn fin_err<E: ErrInfo + std::fmt::Debug + std::fmt::Display>(b: &[u8], e: Err<E>) -> DecOut {
    crate::meter::end();
    match e {
        Err::Incomplete(n) => DecOut { out: Out::Inc(needed(n)), span: Ok(()), msg: format!("Incomplete {n:?}"), why: Some(Why::Incomplete(needed(n))) },
        Err::Error(e) | Err::Failure(e) => {
            let msg = format!("{e:?} / {e}");
            let span = e.pos(b);
            match e.inc() {
                Some(n) => DecOut { out: Out::Inc(n), span, msg, why: Some(e.why()) },
                None => DecOut { out: Out::Err, span, msg, why: Some(e.why()) },
            }
        }
    }
}
pub fn finb<'i, T: ToVal, E: ErrInfo + std::fmt::Debug + std::fmt::Display>(b: &'i [u8], r: ParseResult<'i, T, E>) -> DecOut {
    crate::meter::end();
    match r {
        Ok((rem, v)) => {
            let t = check_tail_bytes(b, rem);
            let n = t.clone().unwrap_or(usize::MAX);
            DecOut { out: Out::Ok(v.to_val(), n), span: t.map(|_| ()), msg: String::new(), why: None }
        }
        Err(e) => crate::subjects::fin_err(b, e),
    }
}
pub fn fin_in<'i, E: ErrInfo + std::fmt::Debug + std::fmt::Display>(b: &'i [u8], r: IResult<Input<'i>, (Header<'i>, Input<'i>), E>) -> DecOut {
    crate::meter::end();
    match r {
        Ok((rem, (h, d))) => {
            let t = check_tail(b, &rem);
            let n = t.clone().unwrap_or(usize::MAX);
            let mut span = t.map(|_| ());
            let (p, lo) = (d.as_bytes2().as_ptr() as usize, b.as_ptr() as usize);
            if span.is_ok() && (p < lo || p - lo + d.len() > b.len() || d.start() != BASE + (p - lo)) {
                span = Err("content position wrong".into());
            }
            let v = Val::Any { class: h.class() as u8, constructed: h.constructed(), tag: h.tag().0, content: d.as_bytes2().to_vec() };
            DecOut { out: Out::Ok(v, n), span, msg: String::new(), why: None }
        }
        Err(e) => crate::subjects::fin_err(b, e),
    }
}
pub fn fin_any<T: ToVal, E: ErrInfo + std::fmt::Debug + std::fmt::Display>(b: &[u8], rem: &[u8], r: std::result::Result<T, E>) -> DecOut {
    crate::meter::end();
    match r {
        Ok(v) => {
            let t = check_tail_bytes(b, rem);
            let n = t.clone().unwrap_or(usize::MAX);
            DecOut { out: Out::Ok(v.to_val(), n), span: t.map(|_| ()), msg: String::new(), why: None }
        }
        Err(e) => {
            let msg = format!("{e:?} / {e}");
            let span = e.pos(b);
            DecOut { out: Out::Err, span, msg, why: Some(e.why()) }
        }
    }
}
pub fn any_err(b: &[u8], e: Err<Error>) -> DecOut {
    fin_err(b, e)
}

fn ln(l: Length) -> Option<usize> {
    match l {
        Length::Definite(n) => Some(n),
        Length::Indefinite => None,
    }
}
fn w<E: std::fmt::Debug>(f: impl FnOnce(&mut Vec<u8>) -> std::result::Result<usize, E>) -> Result<(usize, Vec<u8>), String> {
    let mut v = vec![];
    match f(&mut v) {
        Ok(n) => Ok((n, v)),
        Err(e) => Err(format!("{e:?}")),
    }
}
fn by_ref(o: &EncOut, r: &EncOut) -> Option<String> {
    macro_rules! d {
        ($($f:ident)*) => {$(
            if o.$f != r.$f {
                return Some(format!("{} is {:?}, through a reference {:?}", stringify!($f), o.$f, r.$f));
            }
        )*};
    }
    d!(vec write encode header content expl impl_ content_len total_len info);
    None
}
fn enc_ber<T: ToBer>(t: &T, tg: TagAs) -> EncOut {
    let c = Class::try_from(tg.0).unwrap();
    let i = t.ber_tag_info();
    EncOut {
        vec: t.to_ber_vec().map_err(|e| format!("{e:?}")),
        write: w(|v| t.write_ber(v)),
        encode: w(|v| t.ber_encode(v)),
        header: w(|v| t.ber_write_header(v)),
        content: w(|v| t.ber_write_content(v)),
        expl: w(|v| t.ber_encode_tagged_explicit(c, tg.1, v)),
        impl_: w(|v| t.ber_encode_tagged_implicit(c, tg.1, v)),
        content_len: ln(t.ber_content_len()),
        total_len: ln(t.ber_total_len()),
        info: (i.0 as u8, i.1, i.2 .0),
        by_ref: None,
    }
}
pub fn do_enc_ber<T: ToBer>(t: &T, tg: TagAs) -> EncOut {
    crate::meter::begin();
    let mut o = enc_ber(t, tg);
    crate::meter::end();
    let r = enc_ber(&t, tg);
    o.by_ref = by_ref(&o, &r).or_else(|| by_ref(&o, &enc_ber(&&t, tg)));
    o
}
fn enc_der<T: ToDer>(t: &T, tg: TagAs) -> EncOut {
    let c = Class::try_from(tg.0).unwrap();
    let i = t.der_tag_info();
    EncOut {
        vec: t.to_der_vec().map_err(|e| format!("{e:?}")),
        write: w(|v| t.write_der(v)),
        encode: w(|v| t.der_encode(v)),
        header: w(|v| t.der_write_header(v)),
        content: w(|v| t.der_write_content(v)),
        expl: w(|v| t.der_encode_tagged_explicit(c, tg.1, v)),
        impl_: w(|v| t.der_encode_tagged_implicit(c, tg.1, v)),
        content_len: ln(t.der_content_len()),
        total_len: ln(t.der_total_len()),
        info: (i.0 as u8, i.1, i.2 .0),
        by_ref: None,
    }
}
pub fn do_enc_der<T: ToDer>(t: &T, tg: TagAs) -> EncOut {
    crate::meter::begin();
    let mut o = enc_der(t, tg);
    crate::meter::end();
    let r = enc_der(&t, tg);
    o.by_ref = by_ref(&o, &r).or_else(|| by_ref(&o, &enc_der(&&t, tg)));
    o
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// `flag!(vec, 'a, Type<'a>, flag)`
macro_rules! flag {
    ($v:ident, $lt:lifetime, $t:ty, ber) => {
        $v.decs.push(Dec { api: "parse_ber", mode: Mode::Ber, shape: Shape::Plain, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut { fin(b, <$t as BerParser<$lt>>::parse_ber(mk(b))) } f } });
        $v.decs.push(Dec { api: "parse_ber_optional", mode: Mode::Ber, shape: Shape::Opt, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut { fin(b, <$t as BerParser<$lt>>::parse_ber_optional(mk(b))) } f } });
        $v.decs.push(Dec { api: "parse_ber_as_input", mode: Mode::Ber, shape: Shape::AsInput, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut { fin_in(b, <$t as BerParser<$lt>>::parse_ber_as_input(mk(b))) } f } });
    };
    ($v:ident, $lt:lifetime, $t:ty, der) => {
        $v.decs.push(Dec { api: "parse_der", mode: Mode::Der, shape: Shape::Plain, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut { fin(b, <$t as DerParser<$lt>>::parse_der(mk(b))) } f } });
        $v.decs.push(Dec { api: "parse_der_optional", mode: Mode::Der, shape: Shape::Opt, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut { fin(b, <$t as DerParser<$lt>>::parse_der_optional(mk(b))) } f } });
        $v.decs.push(Dec { api: "parse_der_as_input", mode: Mode::Der, shape: Shape::AsInput, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut { fin_in(b, <$t as DerParser<$lt>>::parse_der_as_input(mk(b))) } f } });
    };
    ($v:ident, $lt:lifetime, $t:ty, fber) => {
        $v.decs.push(Dec { api: "from_ber", mode: Mode::Ber, shape: Shape::Plain, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut { finb(b, <$t as FromBer<$lt, _>>::from_ber(b)) } f } });
    };
    ($v:ident, $lt:lifetime, $t:ty, fder) => {
        $v.decs.push(Dec { api: "from_der", mode: Mode::Der, shape: Shape::Plain, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut { finb(b, <$t as FromDer<$lt, _>>::from_der(b)) } f } });
    };
    ($v:ident, $lt:lifetime, $t:ty, tany) => {
        $v.decs.push(Dec { api: "try_from(Any)", mode: Mode::Ber, shape: Shape::Plain, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut {
            match Any::from_ber(b) { Ok((rem, a)) => fin_any(b, rem, <$t as TryFrom<Any<$lt>>>::try_from(a)), Err(e) => any_err(b, e) } } f } });
    };
    ($v:ident, $lt:lifetime, $t:ty, rany) => {
        $v.decs.push(Dec { api: "try_from(&Any)", mode: Mode::Ber, shape: Shape::Plain, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut {
            match Any::from_ber(b) { Ok((rem, a)) => { let o = fin_any(b, rem, <$t as TryFrom<&Any<$lt>>>::try_from(&a)); o }, Err(e) => any_err(b, e) } } f } });
    };
    // the DER constraints of a type, then its conversion
    ($v:ident, $lt:lifetime, $t:ty, cc) => {
        $v.decs.push(Dec { api: "check_constraints+try_from(Any)", mode: Mode::Der, shape: Shape::Plain, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut {
            match Any::from_der(b) {
                Ok((rem, a)) => match <$t as CheckDerConstraints>::check_constraints(&a) {
                    Ok(()) => fin_any(b, rem, <$t as TryFrom<Any<$lt>>>::try_from(a)),
                    Err(e) => any_err(b, Err::Error(e)),
                },
                Err(e) => any_err(b, e),
            } } f } });
    };
    // header and content handed to the type's content parser
    ($v:ident, $lt:lifetime, $t:ty, cb) => {
        $v.decs.push(Dec { api: "from_ber_content", mode: Mode::Ber, shape: Shape::Plain, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut {
            match Any::parse_ber(mk(b)) {
                Ok((rem, a)) if <$t as DynTagged>::accept_tag(a.tag()) => fin(b, <$t as BerParser<$lt>>::from_ber_content(&a.header, a.data.clone()).map(|(_, v)| (rem, v))),
                Ok(_) => any_err(b, Err::Error(Error::BerTypeError)),
                Err(e) => crate::subjects::fin_err(b, e),
            } } f } });
        // the same through an optional (other classes are told apart before the content parser)
        $v.decs.push(Dec { api: "Option::from_ber_content", mode: Mode::Ber, shape: Shape::Opt, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut {
            if b.is_empty() {
                return fin(b, Ok::<_, Err<BerError<Input<'_>>>>((mk(b), None::<$t>)));
            }
            let (rest, h) = match Header::parse_ber(mk(b)) {
                Ok(x) => x,
                Err(e) => return crate::subjects::fin_err(b, e),
            };
            if !<$t as DynTagged>::accept_tag(h.tag()) {
                return fin(b, <Option<$t> as BerParser<$lt>>::from_ber_content(&h, rest.clone()).map(|(r, v)| (if r == rest { mk(b) } else { r }, v)));
            }
            if !<$t as DynTagged>::accept_header(&h) {
                return fin(b, Ok::<_, Err<BerError<Input<'_>>>>((mk(b), None::<$t>)));
            }
            match Any::parse_ber(mk(b)) {
                Ok((rem, a)) => fin(b, <Option<$t> as BerParser<$lt>>::from_ber_content(&a.header, a.data.clone()).map(|(_, v)| (rem, v))),
                Err(e) => crate::subjects::fin_err(b, e),
            } } f } });
    };
    ($v:ident, $lt:lifetime, $t:ty, cd) => {
        $v.decs.push(Dec { api: "from_der_content", mode: Mode::Der, shape: Shape::Plain, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut {
            match Any::parse_der(mk(b)) {
                Ok((rem, a)) if <$t as DynTagged>::accept_tag(a.tag()) => fin(b, <$t as DerParser<$lt>>::from_der_content(&a.header, a.data.clone()).map(|(_, v)| (rem, v))),
                Ok(_) => any_err(b, Err::Error(Error::BerTypeError)),
                Err(e) => crate::subjects::fin_err(b, e),
            } } f } });
        // the same through an optional (other classes are told apart before the content parser)
        $v.decs.push(Dec { api: "Option::from_der_content", mode: Mode::Der, shape: Shape::Opt, f: { fn f<$lt>(b: &$lt [u8]) -> DecOut {
            if b.is_empty() {
                return fin(b, Ok::<_, Err<BerError<Input<'_>>>>((mk(b), None::<$t>)));
            }
            let (rest, h) = match Header::parse_der(mk(b)) {
                Ok(x) => x,
                Err(e) => return crate::subjects::fin_err(b, e),
            };
            if !<$t as DynTagged>::accept_tag(h.tag()) {
                return fin(b, <Option<$t> as DerParser<$lt>>::from_der_content(&h, rest.clone()).map(|(r, v)| (if r == rest { mk(b) } else { r }, v)));
            }
            if !<$t as DynTagged>::accept_header(&h) {
                return fin(b, Ok::<_, Err<BerError<Input<'_>>>>((mk(b), None::<$t>)));
            }
            match Any::parse_der(mk(b)) {
                Ok((rem, a)) => fin(b, <Option<$t> as DerParser<$lt>>::from_der_content(&a.header, a.data.clone()).map(|(_, v)| (rem, v))),
                Err(e) => crate::subjects::fin_err(b, e),
            } } f } });
    };
    ($v:ident, $lt:lifetime, $t:ty, eb) => { flag!($v, $lt, $t, eb_with, BerParser, parse_ber); };
    ($v:ident, $lt:lifetime, $t:ty, eb_with, $p:ident, $m:ident) => {
        $v.build_ber = Some({ fn f<$lt>(v: &Val, tg: TagAs) -> Option<(Val, EncOut)> { crate::vals::build(v, |x: $t| Some((x.to_val(), do_enc_ber(&x, tg)))) } f });
        $v.enc_ber = Some({ fn f<$lt>(b: &$lt [u8], tg: TagAs) -> Option<(Val, EncOut)> { let x = <$t as $p<$lt>>::$m(mk(b)).ok()?.1; Some((x.to_val(), do_enc_ber(&x, tg))) } f });
        $v.fault_ber = Some({ fn f<$lt>(b: &$lt [u8], w: &mut FaultW) -> Option<Result<usize, String>> { let x = <$t as $p<$lt>>::$m(mk(b)).ok()?.1; Some(x.ber_encode(w).map_err(|e| format!("{e:?}"))) } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, ed) => { flag!($v, $lt, $t, ed_with, BerParser, parse_ber); };
    ($v:ident, $lt:lifetime, $t:ty, edd) => { flag!($v, $lt, $t, ed_with, DerParser, parse_der); };
    ($v:ident, $lt:lifetime, $t:ty, ed_with, $p:ident, $m:ident) => {
        $v.build_der = Some({ fn f<$lt>(v: &Val, tg: TagAs) -> Option<(Val, EncOut)> { crate::vals::build(v, |x: $t| Some((x.to_val(), do_enc_der(&x, tg)))) } f });
        $v.enc_der = Some({ fn f<$lt>(b: &$lt [u8], tg: TagAs) -> Option<(Val, EncOut)> { let x = <$t as $p<$lt>>::$m(mk(b)).ok()?.1; Some((x.to_val(), do_enc_der(&x, tg))) } f });
        $v.fault_der = Some({ fn f<$lt>(b: &$lt [u8], w: &mut FaultW) -> Option<Result<usize, String>> { let x = <$t as $p<$lt>>::$m(mk(b)).ok()?.1; Some(x.der_encode(w).map_err(|e| format!("{e:?}"))) } f });
    };
    // values only obtainable through the slice entry points
    ($v:ident, $lt:lifetime, $t:ty, ebf) => {
        $v.build_ber = Some({ fn f<$lt>(v: &Val, tg: TagAs) -> Option<(Val, EncOut)> { crate::vals::build(v, |x: $t| Some((x.to_val(), do_enc_ber(&x, tg)))) } f });
        $v.enc_ber = Some({ fn f<$lt>(b: &$lt [u8], tg: TagAs) -> Option<(Val, EncOut)> { let x = <$t as FromBer<$lt, _>>::from_ber(b).ok()?.1; Some((x.to_val(), do_enc_ber(&x, tg))) } f });
        $v.fault_ber = Some({ fn f<$lt>(b: &$lt [u8], w: &mut FaultW) -> Option<Result<usize, String>> { let x = <$t as FromBer<$lt, _>>::from_ber(b).ok()?.1; Some(x.ber_encode(w).map_err(|e| format!("{e:?}"))) } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, edf) => {
        $v.build_der = Some({ fn f<$lt>(v: &Val, tg: TagAs) -> Option<(Val, EncOut)> { crate::vals::build(v, |x: $t| Some((x.to_val(), do_enc_der(&x, tg)))) } f });
        $v.enc_der = Some({ fn f<$lt>(b: &$lt [u8], tg: TagAs) -> Option<(Val, EncOut)> { let x = <$t as FromBer<$lt, _>>::from_ber(b).ok()?.1; Some((x.to_val(), do_enc_der(&x, tg))) } f });
        $v.fault_der = Some({ fn f<$lt>(b: &$lt [u8], w: &mut FaultW) -> Option<Result<usize, String>> { let x = <$t as FromBer<$lt, _>>::from_ber(b).ok()?.1; Some(x.der_encode(w).map_err(|e| format!("{e:?}"))) } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, edfd) => {
        $v.build_der = Some({ fn f<$lt>(v: &Val, tg: TagAs) -> Option<(Val, EncOut)> { crate::vals::build(v, |x: $t| Some((x.to_val(), do_enc_der(&x, tg)))) } f });
        $v.enc_der = Some({ fn f<$lt>(b: &$lt [u8], tg: TagAs) -> Option<(Val, EncOut)> { let x = <$t as FromDer<$lt, _>>::from_der(b).ok()?.1; Some((x.to_val(), do_enc_der(&x, tg))) } f });
        $v.fault_der = Some({ fn f<$lt>(b: &$lt [u8], w: &mut FaultW) -> Option<Result<usize, String>> { let x = <$t as FromDer<$lt, _>>::from_der(b).ok()?.1; Some(x.der_encode(w).map_err(|e| format!("{e:?}"))) } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, st) => {
        $v.to_static = Some({ fn f(b: Vec<u8>) -> Option<StaticOut> {
            fn g<$lt>(b: &$lt [u8]) -> Option<(Val, String, Option<Vec<u8>>, <$t as ToStatic>::Owned)> { let x = <$t as BerParser<$lt>>::parse_ber(mk(b)).ok()?.1; Some((x.to_val(), format!("{x:?}"), x.to_der_vec().ok(), x.to_static())) }
            let (before, dbg_before, enc_before, s) = g(&b)?;
            // overwrite the buffer the value was decoded from
            let mut b = b; for x in b.iter_mut() { *x = !*x; } drop(b);
            Some(StaticOut { before, after: s.to_val(), dbg_before, dbg_after: format!("{s:?}"), enc_before, enc_after: s.to_der_vec().ok() })
        } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, eq) => {
        flag!($v, $lt, $t, eqd);
        $v.build_eq = Some({ fn f<$lt>(v: &Val, b: &$lt [u8]) -> Option<(bool, bool)> { let y = <$t as BerParser<$lt>>::parse_ber(mk(b)).ok()?.1; crate::vals::build(v, |x: $t| Some((x == y, y == x))) } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, eqd) => {
        $v.eq = Some({ fn f(a: &[u8], b: &[u8]) -> Option<(bool, bool)> {
            fn g<$lt>(a: &$lt [u8], b: &$lt [u8]) -> Option<(bool, bool)> { let x = <$t as BerParser<$lt>>::parse_ber(mk(a)).ok()?.1; let y = <$t as BerParser<$lt>>::parse_ber(mk(b)).ok()?.1; Some((x == y, y == x)) }
            // bring both inputs under one lifetime
            let mut v = a.to_vec(); v.extend_from_slice(b); g(&v[..a.len()], &v[a.len()..])
        } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, hash) => {
        $v.build_hash = Some({ fn f<$lt>(v: &Val) -> Option<u64> { crate::vals::build(v, |x: $t| Some(hash_of(&x))) } f });
        $v.hash = Some({ fn f<$lt>(a: &$lt [u8]) -> Option<u64> { let x = <$t as BerParser<$lt>>::parse_ber(mk(a)).ok()?.1; Some(hash_of(&x)) } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, ord) => {
        $v.ord = Some({ fn f(a: &[u8], b: &[u8]) -> Option<(Option<std::cmp::Ordering>, std::cmp::Ordering)> {
            fn g<$lt>(a: &$lt [u8], b: &$lt [u8]) -> Option<(Option<std::cmp::Ordering>, std::cmp::Ordering)> { let x = <$t as BerParser<$lt>>::parse_ber(mk(a)).ok()?.1; let y = <$t as BerParser<$lt>>::parse_ber(mk(b)).ok()?.1; Some((x.partial_cmp(&y), x.cmp(&y))) }
            let mut v = a.to_vec(); v.extend_from_slice(b); g(&v[..a.len()], &v[a.len()..])
        } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, cl) => {
        $v.clone_eq = Some({ fn f<$lt>(a: &$lt [u8]) -> Option<bool> { let x = <$t as BerParser<$lt>>::parse_ber(mk(a)).ok()?.1; let y = x.clone(); let v = y.to_val(); Some(v == x.to_val() && (x == y) == (x == x)) } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, dbg) => {
        $v.fmt = Some({ fn f<$lt>(a: &$lt [u8]) -> Option<String> { let x = <$t as BerParser<$lt>>::parse_ber(mk(a)).ok()?.1; Some(format!("{x:?}{x:#?}")) } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, dsp) => {
        $v.fmt = Some({ fn f<$lt>(a: &$lt [u8]) -> Option<String> { let x = <$t as BerParser<$lt>>::parse_ber(mk(a)).ok()?.1; Some(format!("{x:?}{x:#?}{x}")) } f });
    };
    ($v:ident, $lt:lifetime, $t:ty, tag) => {
        $v.tagged = Some({ fn f<$lt>(_: &$lt [u8]) -> (u8, bool, u32) { (<$t as Tagged>::CLASS as u8, <$t as Tagged>::CONSTRUCTED, <$t as Tagged>::TAG.0) } f(&[]) });
    };
}
macro_rules! subject {
    ($out:ident, $lt:lifetime, $name:expr, $t:ty, $s:expr; $($f:ident)*) => {{
        #[allow(unused_mut)]
        let mut v = Subject::new($name, $s);
        $( flag!(v, $lt, $t, $f); )*
        $out.push(v);
    }};
}
pub(crate) use {flag, subject};

fn bx(s: S) -> Box<S> {
    Box::new(s)
}

pub fn all() -> Vec<Subject> {
    let mut o = vec![];
    leaves(&mut o);
    composites(&mut o);
    crate::derived::register(&mut o);
    o
}

pub fn leaves(o: &mut Vec<Subject>) {
    use IntK::*;
    subject!(o, 'a, "bool", bool, S::Bool; ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag cl);
    subject!(o, 'a, "Boolean", Boolean, S::Bool; ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "Null", Null, S::Null; ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "()", (), S::Null; ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "u8", u8, S::Int(U(8)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag);
    subject!(o, 'a, "u16", u16, S::Int(U(16)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag);
    subject!(o, 'a, "u32", u32, S::Int(U(32)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag cl);
    subject!(o, 'a, "u64", u64, S::Int(U(64)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag);
    subject!(o, 'a, "u128", u128, S::Int(U(128)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag);
    subject!(o, 'a, "usize", usize, S::Int(U(64)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag);
    subject!(o, 'a, "i8", i8, S::Int(I(8)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag);
    subject!(o, 'a, "i16", i16, S::Int(I(16)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag);
    subject!(o, 'a, "i32", i32, S::Int(I(32)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag);
    subject!(o, 'a, "i64", i64, S::Int(I(64)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag cl);
    subject!(o, 'a, "i128", i128, S::Int(I(128)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag);
    subject!(o, 'a, "isize", isize, S::Int(I(64)); ber cb der cd fber fder tany cc rany eb ed st eq hash ord dbg tag);
    subject!(o, 'a, "Integer", Integer<'a>, S::Int(Big); ber cb der cd fber fder tany cc rany eb ed eq dbg tag cl);
    subject!(o, 'a, "Enumerated", Enumerated, S::Enumerated; ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "BitString", BitString, S::BitStr; ber cb der cd fber fder tany cc rany eb ed eq dbg tag cl);
    subject!(o, 'a, "OctetString", OctetString<'a>, S::OctStr; ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "&[u8]", &'a [u8], S::OctStr; ber cb der cd fber fder tany cc rany eb ed eq dbg tag cl ord hash);
    subject!(o, 'a, "Oid", Oid<'a>, S::Oid; ber cb der cd fber fder tany cc rany eb ed eq hash dsp cl);
    subject!(o, 'a, "Real", Real, S::Real; ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "f32", f32, S::F32; ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "f64", f64, S::Real; ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "UtcTime", UtcTime, S::Utc; ber cb der cd fber fder tany cc rany eb ed eq dsp tag ord);
    subject!(o, 'a, "GeneralizedTime", GeneralizedTime, S::Gen; ber cb der cd fber fder tany cc rany eb ed eq dsp tag ord);
    subject!(o, 'a, "String", String, S::Str(StrK::Utf8); ber cb der cd fber fder tany cc rany eb ed eq hash ord dbg tag cl);
    subject!(o, 'a, "&str", &'a str, S::Str(StrK::Utf8); ber cb der cd fber fder tany cc rany eb ed eq hash ord dbg tag cl);
    subject!(o, 'a, "Utf8String", Utf8String<'a>, S::Str(StrK::Utf8); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "NumericString", NumericString<'a>, S::Str(StrK::Numeric); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "PrintableString", PrintableString<'a>, S::Str(StrK::Printable); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "Ia5String", Ia5String<'a>, S::Str(StrK::Ia5); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "VisibleString", VisibleString<'a>, S::Str(StrK::Visible); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "TeletexString", TeletexString<'a>, S::Str(StrK::Teletex); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "VideotexString", VideotexString<'a>, S::Str(StrK::Videotex); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "GraphicString", GraphicString<'a>, S::Str(StrK::Graphic); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "GeneralString", GeneralString<'a>, S::Str(StrK::General); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "ObjectDescriptor", ObjectDescriptor<'a>, S::Str(StrK::ObjDesc); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "BmpString", BmpString<'a>, S::Str(StrK::Bmp); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "UniversalString", UniversalString<'a>, S::Str(StrK::Universal); ber cb der cd fber fder tany cc rany eb ed eq dbg tag);
    subject!(o, 'a, "Any", Any<'a>, S::Any; ber cb der cd fber fder eb ed eq hash dbg cl);
    subject!(o, 'a, "Sequence", Sequence<'a>, S::RawSeq; ber cb der cd fber fder tany cc rany eb ed st eq dbg tag cl);
    subject!(o, 'a, "Set", Set<'a>, S::RawSet; ber cb der cd fber fder tany cc rany eb ed st dbg tag);
    subject!(o, 'a, "EmbeddedPdv", EmbeddedPdv<'a>, crate::derived::pdv(); ber cb der cd fber fder tany cc rany eq dbg tag);
    subject!(o, 'a, "EndOfContent", EndOfContent, S::Eoc; ber cb fber tany rany dbg tag);
}

pub fn composites(o: &mut Vec<Subject>) {
    use std::collections::{BTreeSet, HashSet};
    use IntK::*;
    use crate::model::TagKind::*;
    let u8s = || S::Int(U(8));
    let u32s = || S::Int(U(32));
    let oct = || S::OctStr;
    subject!(o, 'a, "Vec<u8>", Vec<u8>, S::SeqOf(bx(u8s())); ber cb der cd fber fder tany cc eb ed eq dbg tag st cl ord hash);
    subject!(o, 'a, "Vec<bool>", Vec<bool>, S::SeqOf(bx(S::Bool)); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "Vec<&str>", Vec<&'a str>, S::SeqOf(bx(S::Str(StrK::Utf8))); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "Vec<OctetString>", Vec<OctetString<'a>>, S::SeqOf(bx(oct())); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "Vec<Vec<u32>>", Vec<Vec<u32>>, S::SeqOf(bx(S::SeqOf(bx(u32s())))); ber cb der cd fber fder tany cc eb ed eq dbg tag st cl);
    subject!(o, 'a, "Vec<Any>", Vec<Any<'a>>, S::SeqOf(bx(S::Any)); ber cb der cd fber fder tany cc eb ed eq dbg tag cl hash);
    subject!(o, 'a, "SequenceOf<u32>", SequenceOf<u32>, S::SeqOf(bx(u32s())); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "SequenceOf<BitString>", SequenceOf<BitString>, S::SeqOf(bx(S::BitStr)); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "SetOf<u32>", SetOf<u32>, S::SetList(bx(u32s())); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "SetOf<&[u8]>", SetOf<&'a [u8]>, S::SetList(bx(oct())); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "BTreeSet<u32>", BTreeSet<u32>, S::SetSet(bx(u32s())); ber cb der cd fber fder tany cc eb ed eq dbg tag cl ord);
    subject!(o, 'a, "BTreeSet<&[u8]>", BTreeSet<&'a [u8]>, S::SetSet(bx(oct())); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "HashSet<u32>", HashSet<u32>, S::SetSet(bx(u32s())); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "HashSet<Oid>", HashSet<Oid<'a>>, S::SetSet(bx(S::Oid)); ber cb der cd fber fder tany cc eb ed eq dbg tag cl);
    subject!(o, 'a, "[u8;3]", [u8; 3], S::Arr(bx(u8s()), 3); ber cb der cd eb ed eq dbg tag cl ord);
    subject!(o, 'a, "[&str;2]", [&'a str; 2], S::Arr(bx(S::Str(StrK::Utf8)), 2); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "AnySequence", AnySequence<'a>, S::SeqOf(bx(S::Any)); ber cb der cd eb ed dbg tag);
    subject!(o, 'a, "AnySet", AnySet<'a>, S::SetSet(bx(S::Any)); ber cb der cd eb ed dbg tag);
    subject!(o, 'a, "(u8,)", (u8,), S::Tuple(vec![u8s()]); ber cb der cd eq dbg tag);
    subject!(o, 'a, "(u8,bool)", (u8, bool), S::Tuple(vec![u8s(), S::Bool]); ber cb der cd eq dbg tag cl ord);
    subject!(o, 'a, "(u32,&str,OctetString)", (u32, &'a str, OctetString<'a>), S::Tuple(vec![u32s(), S::Str(StrK::Utf8), oct()]); ber cb der cd eq dbg tag);
    subject!(o, 'a, "tuple12", (u8, u8, u8, u8, u8, u8, bool, u8, u8, u8, u8, u16), S::Tuple({
        let mut v = vec![u8s(); 12]; v[6] = S::Bool; v[11] = S::Int(U(16)); v }); ber der eq dbg tag);
    subject!(o, 'a, "Option<u8>", Option<u8>, S::Opt(bx(u8s())); ber der fber fder eb ed eq dbg st ord);
    subject!(o, 'a, "Option<&str>", Option<&'a str>, S::Opt(bx(S::Str(StrK::Utf8))); ber der fber fder eb ed eq dbg);
    subject!(o, 'a, "Option<Vec<u8>>", Option<Vec<u8>>, S::Opt(bx(S::SeqOf(bx(u8s())))); ber der fber eb ed eq dbg);
    subject!(o, 'a, "TaggedExplicit<u32,1>", TaggedExplicit<u32, Error, 1>, S::Tag(Expl, 2, 1, bx(u32s())); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "TaggedExplicit<Vec<u8>,0>", TaggedExplicit<Vec<u8>, Error, 0>, S::Tag(Expl, 2, 0, bx(S::SeqOf(bx(u8s())))); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "TaggedExplicit<&str,40>", TaggedExplicit<&'a str, Error, 40>, S::Tag(Expl, 2, 40, bx(S::Str(StrK::Utf8))); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "TaggedExplicit<TaggedExplicit<bool,3>,2>", TaggedExplicit<TaggedExplicit<bool, Error, 3>, Error, 2>, S::Tag(Expl, 2, 2, bx(S::Tag(Expl, 2, 3, bx(S::Bool)))); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "TaggedImplicit<u32,1>", TaggedImplicit<u32, Error, 1>, S::Tag(Impl, 2, 1, bx(u32s())); ber cb der cd fber fder tany cc eb ed eq dbg);
    subject!(o, 'a, "TaggedImplicit<&str,2>", TaggedImplicit<&'a str, Error, 2>, S::Tag(Impl, 2, 2, bx(S::Str(StrK::Utf8))); ber cb der cd fber fder tany cc eb ed eq dbg);
    subject!(o, 'a, "TaggedImplicit<OctetString,300>", TaggedImplicit<OctetString<'a>, Error, 300>, S::Tag(Impl, 2, 300, bx(oct())); ber cb der cd fber fder tany cc eb ed eq dbg);
    subject!(o, 'a, "TaggedImplicit<Vec<u8>,4>", TaggedImplicit<Vec<u8>, Error, 4>, S::Tag(Impl, 2, 4, bx(S::SeqOf(bx(u8s())))); ber cb der cd fber fder tany cc eb ed eq dbg);
    subject!(o, 'a, "TaggedImplicit<SetOf<u32>,9>", TaggedImplicit<SetOf<u32>, Error, 9>, S::Tag(Impl, 2, 9, bx(S::SetList(bx(u32s())))); ber cb der cd fber fder tany cc eb ed eq dbg);
    subject!(o, 'a, "TaggedImplicit<BTreeSet<u32>,10>", TaggedImplicit<BTreeSet<u32>, Error, 10>, S::Tag(Impl, 2, 10, bx(S::SetSet(bx(u32s())))); ber cb der cd fber fder tany cc eb ed eq dbg);
    subject!(o, 'a, "TaggedImplicit<[u8;2],11>", TaggedImplicit<[u8; 2], Error, 11>, S::Tag(Impl, 2, 11, bx(S::Arr(bx(u8s()), 2))); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "TaggedImplicit<AnySequence,12>", TaggedImplicit<AnySequence<'a>, Error, 12>, S::Tag(Impl, 2, 12, bx(S::SeqOf(bx(S::Any)))); ber cb der cd eb ed dbg);
    subject!(o, 'a, "TaggedImplicit<Sequence,13>", TaggedImplicit<Sequence<'a>, Error, 13>, S::Tag(Impl, 2, 13, bx(S::RawSeq)); ber cb der cd fber fder tany cc eb ed eq dbg);
    subject!(o, 'a, "TaggedExplicit<Any,14>", TaggedExplicit<Any<'a>, Error, 14>, S::Tag(Expl, 2, 14, bx(S::Any)); ber cb der cd fber fder tany cc eb ed eq dbg);
    subject!(o, 'a, "TaggedExplicit<Option<u8>,15>", TaggedExplicit<Option<u8>, Error, 15>, S::Tag(Expl, 2, 15, bx(S::Opt(bx(u8s())))); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "ApplicationExplicit<bool,5>", ApplicationExplicit<bool, Error, 5>, S::Tag(Expl, 1, 5, bx(S::Bool)); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "ApplicationImplicit<Integer,6>", ApplicationImplicit<Integer<'a>, Error, 6>, S::Tag(Impl, 1, 6, bx(S::Int(Big))); ber cb der cd fber fder tany cc eb ed eq dbg);
    subject!(o, 'a, "PrivateExplicit<Null,7>", PrivateExplicit<Null, Error, 7>, S::Tag(Expl, 3, 7, bx(S::Null)); ber cb der cd fber fder tany eb ed eq dbg tag);
    subject!(o, 'a, "PrivateImplicit<Oid,8>", PrivateImplicit<Oid<'a>, Error, 8>, S::Tag(Impl, 3, 8, bx(S::Oid)); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "Option<TaggedExplicit<u32,1>>", OptTaggedExplicit<u32, Error, 1>, S::Opt(bx(S::Tag(Expl, 2, 1, bx(u32s())))); ber der fber fder eb ed eq dbg);
    subject!(o, 'a, "Option<TaggedImplicit<&str,2>>", OptTaggedImplicit<&'a str, Error, 2>, S::Opt(bx(S::Tag(Impl, 2, 2, bx(S::Str(StrK::Utf8))))); ber der fber fder eb ed eq dbg);
    subject!(o, 'a, "Option<Oid>", Option<Oid<'a>>, S::Opt(bx(S::Oid)); ber der fber fder eb ed eq);
    subject!(o, 'a, "Option<Any>", Option<Any<'a>>, S::Opt(bx(S::Any)); ber der fber fder eb ed eq dbg cl hash);
    subject!(o, 'a, "Vec<TaggedExplicit<u32,1>>", Vec<TaggedExplicit<u32, Error, 1>>, S::SeqOf(bx(S::Tag(Expl, 2, 1, bx(u32s())))); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "BTreeSet<String>", BTreeSet<String>, S::SetSet(bx(S::Str(StrK::Utf8))); ber cb der cd fber fder tany cc eb ed eq dbg tag);
    subject!(o, 'a, "TaggedParser<Explicit,u32>", TaggedParser<'a, Explicit, u32>, S::AnyTag(Expl, bx(u32s())); fber fder ebf edf);
    subject!(o, 'a, "TaggedParser<Implicit,Vec<u8>>", TaggedParser<'a, Implicit, Vec<u8>>, S::AnyTag(Impl, bx(S::SeqOf(bx(u8s())))); fber ebf edf);
    subject!(o, 'a, "TaggedParser<Implicit,OctetString>", TaggedParser<'a, Implicit, OctetString<'a>>, S::AnyTag(Impl, bx(oct())); fber fder ebf edf);
    subject!(o, 'a, "TaggedParser<Explicit,&str>", TaggedParser<'a, Explicit, &'a str>, S::AnyTag(Expl, bx(S::Str(StrK::Utf8))); fber fder ebf edf);
    subject!(o, 'a, "TaggedParser<Implicit,u32>", TaggedParser<'a, Implicit, u32>, S::AnyTag(Impl, bx(u32s())); fber fder ebf edf);
}

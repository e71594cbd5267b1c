//! Projection of the library's values to the neutral `Val` of the reference model.
use crate::model::*;
use asn1_rs::*;
use std::collections::{BTreeSet, HashSet};

pub trait ToVal {
    fn to_val(&self) -> Val;
}

macro_rules! ints {
    (S $($t:ty)*) => {$( impl ToVal for $t { fn to_val(&self) -> Val { Val::Int(int_i128(*self as i128)) } } )*};
    (U $($t:ty)*) => {$( impl ToVal for $t { fn to_val(&self) -> Val { Val::Int(int_u128(*self as u128)) } } )*};
}
ints!(S i8 i16 i32 i64 i128 isize);
ints!(U u8 u16 u32 u64 u128 usize);

impl ToVal for bool {
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl ToVal for Boolean {
    fn to_val(&self) -> Val {
        Val::Bool(self.bool())
    }
}
impl ToVal for Null {
    fn to_val(&self) -> Val {
        Val::Null
    }
}
impl ToVal for () {
    fn to_val(&self) -> Val {
        Val::Null
    }
}
impl ToVal for Integer<'_> {
    fn to_val(&self) -> Val {
        Val::Int(min_int(self.as_ref()))
    }
}
impl ToVal for Enumerated {
    fn to_val(&self) -> Val {
        Val::Enum(self.0)
    }
}
impl ToVal for BitString {
    fn to_val(&self) -> Val {
        Val::Bits(self.as_bitslice().iter().by_vals().collect())
    }
}
impl ToVal for OctetString<'_> {
    fn to_val(&self) -> Val {
        Val::Bytes(self.as_ref().to_vec())
    }
}
impl ToVal for &[u8] {
    fn to_val(&self) -> Val {
        Val::Bytes(self.to_vec())
    }
}
impl ToVal for Oid<'_> {
    fn to_val(&self) -> Val {
        let v = Val::Oid(self.as_bytes().to_vec());
        if self.tag() == Tag::RelativeOid {
            Val::Choice(1, Box::new(v))
        } else {
            v
        }
    }
}
impl ToVal for Real {
    fn to_val(&self) -> Val {
        Val::Real(norm_f64(self.f64()))
    }
}
impl ToVal for f64 {
    fn to_val(&self) -> Val {
        Val::Real(norm_f64(*self))
    }
}
impl ToVal for f32 {
    fn to_val(&self) -> Val {
        Val::Real(norm_f64(*self as f64))
    }
}
pub fn dt(d: &ASN1DateTime) -> Val {
    Val::Time(Time {
        y: d.year,
        mo: d.month,
        d: d.day,
        h: d.hour,
        mi: d.minute,
        s: d.second,
        ms: d.millisecond,
        tz: match d.tz {
            ASN1TimeZone::Undefined => Tz::None,
            ASN1TimeZone::Z => Tz::Z,
            // the sign of the first non-zero component is the sign of the offset
            ASN1TimeZone::Offset(0, m) => Tz::Off(m as i32),
            ASN1TimeZone::Offset(h, m) => Tz::Off((h as i32).signum() * ((h as i32).abs() * 60 + (m as i32).abs())),
        },
    })
}
impl ToVal for UtcTime {
    fn to_val(&self) -> Val {
        dt(&self.0)
    }
}
impl ToVal for GeneralizedTime {
    fn to_val(&self) -> Val {
        dt(&self.0)
    }
}
impl ToVal for String {
    fn to_val(&self) -> Val {
        Val::Str(self.clone())
    }
}
impl ToVal for &str {
    fn to_val(&self) -> Val {
        Val::Str(self.to_string())
    }
}
macro_rules! strs {
    ($($t:ident)*) => {$( impl ToVal for $t<'_> { fn to_val(&self) -> Val { Val::Str(self.as_ref().to_string()) } } )*};
}
strs!(Utf8String NumericString PrintableString Ia5String VisibleString TeletexString VideotexString GraphicString
      GeneralString ObjectDescriptor BmpString UniversalString);

impl ToVal for Any<'_> {
    fn to_val(&self) -> Val {
        Val::Any {
            class: self.class() as u8,
            constructed: self.header.constructed(),
            tag: self.tag().0,
            content: self.as_bytes().to_vec(),
        }
    }
}
impl ToVal for Sequence<'_> {
    fn to_val(&self) -> Val {
        Val::Bytes(self.content.to_vec())
    }
}
impl ToVal for Set<'_> {
    fn to_val(&self) -> Val {
        Val::Bytes(self.content.to_vec())
    }
}
fn seq<'x, T: ToVal + 'x>(i: impl IntoIterator<Item = &'x T>) -> Val {
    Val::Seq(i.into_iter().map(|x| x.to_val()).collect())
}
fn set<'x, T: ToVal + 'x>(i: impl IntoIterator<Item = &'x T>) -> Val {
    // elements found twice would stay visible
    let mut v: Vec<Val> = i.into_iter().map(|x| x.to_val()).collect();
    v.sort();
    Val::Set(v)
}
impl<T: ToVal> ToVal for Vec<T> {
    fn to_val(&self) -> Val {
        seq(self)
    }
}
impl<T: ToVal> ToVal for IndefiniteVec<T> {
    fn to_val(&self) -> Val {
        seq(&self.0)
    }
}
impl<T: ToVal, const N: usize> ToVal for [T; N] {
    fn to_val(&self) -> Val {
        seq(self)
    }
}
impl<T: ToVal> ToVal for SequenceOf<T> {
    fn to_val(&self) -> Val {
        seq(self.as_ref() as &[T])
    }
}
impl<T: ToVal> ToVal for SetOf<T> {
    fn to_val(&self) -> Val {
        seq(self.as_ref() as &[T])
    }
}
impl<T: ToVal> ToVal for BTreeSet<T> {
    fn to_val(&self) -> Val {
        set(self)
    }
}
impl<T: ToVal> ToVal for HashSet<T> {
    fn to_val(&self) -> Val {
        set(self)
    }
}
impl ToVal for AnySequence<'_> {
    fn to_val(&self) -> Val {
        seq(self.iter())
    }
}
impl ToVal for AnySet<'_> {
    fn to_val(&self) -> Val {
        // elements whose identifiers were written in different forms are different elements
        let mut v: Vec<(Val, Option<Vec<u8>>)> = self.iter().map(|x| (x.to_val(), x.header.raw_tag().map(|t| t.to_vec()))).collect();
        v.sort();
        v.dedup_by(|a, b| a.0 == b.0 && a.1.is_some() && b.1.is_some() && a.1 != b.1);
        Val::Set(v.into_iter().map(|x| x.0).collect())
    }
}
impl<T: ToVal> ToVal for Option<T> {
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
    }
}
impl<T: ToVal, E, const C: u8, const N: u32> ToVal for TaggedValue<T, E, Explicit, C, N> {
    fn to_val(&self) -> Val {
        Val::Tagged(C, N, Box::new(self.as_ref().to_val()))
    }
}
impl<T: ToVal, E, const C: u8, const N: u32> ToVal for TaggedValue<T, E, Implicit, C, N> {
    fn to_val(&self) -> Val {
        Val::Tagged(C, N, Box::new(self.as_ref().to_val()))
    }
}
impl<T: ToVal, K, E> ToVal for TaggedParser<'_, K, T, E> {
    fn to_val(&self) -> Val {
        let i: &T = self.as_ref();
        Val::Tagged(self.header.class() as u8, self.header.tag().0, Box::new(i.to_val()))
    }
}
impl ToVal for EmbeddedPdv<'_> {
    fn to_val(&self) -> Val {
        let ch = |i, v| Val::Choice(i, Box::new(v));
        let id = match &self.identification {
            PdvIdentification::Syntaxes { s_abstract, s_transfer } => ch(0, Val::Seq(vec![s_abstract.to_val(), s_transfer.to_val()])),
            PdvIdentification::Syntax(o) => ch(1, o.to_val()),
            PdvIdentification::PresentationContextId(i) => ch(2, i.to_val()),
            PdvIdentification::ContextNegotiation { presentation_context_id, presentation_syntax } => {
                ch(3, Val::Seq(vec![presentation_context_id.to_val(), presentation_syntax.to_val()]))
            }
            PdvIdentification::TransferSyntax(o) => ch(4, o.to_val()),
            PdvIdentification::Fixed => ch(5, Val::Null),
        };
        Val::Tagged(0, 11, Box::new(Val::Seq(vec![id, self.data_value_descriptor.to_val(), self.data_value.to_val()])))
    }
}
impl ToVal for EndOfContent {
    fn to_val(&self) -> Val {
        Val::Eoc
    }
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),+);)*) => {$(
        impl<$($t: ToVal),+> ToVal for ($($t,)+) {
            fn to_val(&self) -> Val { Val::Seq(vec![$(self.$i.to_val()),+]) }
        }
        impl<$($t: FromVal),+> FromVal for ($($t,)+) {
            fn from_val(v: &'static Val) -> Option<Self> {
                let Val::Seq(v) = v else { return None };
                Some(($($t::from_val(v.get($i)?)?,)+))
            }
        })*};
}
tuples! { (A 0); (A 0, B 1); (A 0, B 1, C 2); (A 0, B 1, C 2, D 3);
 (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11); }

/// struct value: one entry per field
#[macro_export]
macro_rules! struct_val {
    ($t:ty { $($f:ident),* }) => {
        impl $crate::vals::ToVal for $t {
            fn to_val(&self) -> $crate::model::Val {
                $crate::model::Val::Seq(vec![$($crate::vals::ToVal::to_val(&self.$f)),*])
            }
        }
        impl $crate::vals::FromVal for $t {
            fn from_val(v: &'static $crate::model::Val) -> Option<Self> {
                let $crate::model::Val::Seq(v) = v else { return None };
                let mut i = v.iter();
                let x = Self { $($f: $crate::vals::FromVal::from_val(i.next()?)?),* };
                i.next().is_none().then_some(x)
            }
        }
    };
}
#[macro_export]
macro_rules! choice_val {
    ($t:ty : $($p:path => $i:expr);* $(;)?) => {
        impl $crate::vals::ToVal for $t {
            fn to_val(&self) -> $crate::model::Val {
                match self { $($p(x) => $crate::model::Val::Choice($i, Box::new($crate::vals::ToVal::to_val(x)))),* }
            }
        }
        impl $crate::vals::FromVal for $t {
            fn from_val(v: &'static $crate::model::Val) -> Option<Self> {
                let $crate::model::Val::Choice(i, x) = v else { return None };
                $(if *i == $i { return Some($p($crate::vals::FromVal::from_val(x)?)); })*
                None
            }
        }
    };
}

/// Values of the library built from neutral values through constructors and fields, without decoding anything.
/// (`'static`: see `build`)
pub trait FromVal: Sized {
    fn from_val(v: &'static Val) -> Option<Self>;
}
/// Build a value that borrows from `v`, and use it
pub fn build<T: FromVal, R>(v: &Val, f: impl FnOnce(T) -> Option<R>) -> Option<R> {
    // SAFETY: the value is dropped inside this call, before `v` can be
    let v: &'static Val = unsafe { &*(v as *const Val) };
    f(T::from_val(v)?)
}
fn as_i128(b: &[u8]) -> Option<i128> {
    if b.is_empty() || b.len() > 16 {
        return None;
    }
    let mut x = if b[0] & 0x80 != 0 { -1i128 } else { 0 };
    for &o in b {
        x = (x << 8) | o as i128;
    }
    Some(x)
}
macro_rules! ints_from {
    ($($t:ty)*) => {$( impl FromVal for $t { fn from_val(v: &'static Val) -> Option<Self> {
        match v { Val::Int(b) => as_i128(b)?.try_into().ok(), _ => None }
    } } )*};
}
ints_from!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 usize);
impl FromVal for u128 {
    fn from_val(v: &'static Val) -> Option<Self> {
        match v {
            Val::Int(b) if b.len() == 17 && b[0] == 0 => Some(b[1..].iter().fold(0, |a, o| (a << 8) | *o as u128)),
            Val::Int(b) => as_i128(b)?.try_into().ok(),
            _ => None,
        }
    }
}
macro_rules! from_val {
    ($($t:ty : $p:pat => $e:expr;)*) => {$(
        impl FromVal for $t {
            fn from_val(v: &'static Val) -> Option<Self> {
                match v { $p => $e, #[allow(unreachable_patterns)] _ => None }
            }
        }
    )*};
}
fn time_of(t: &Time) -> Option<ASN1DateTime> {
    let tz = match t.tz {
        Tz::None => ASN1TimeZone::Undefined,
        Tz::Z => ASN1TimeZone::Z,
        Tz::Off(m) => ASN1TimeZone::Offset((m / 60) as i8, if m / 60 == 0 { (m % 60) as i8 } else { (m % 60).abs() as i8 }),
    };
    Some(ASN1DateTime::new(t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms, tz))
}
from_val! {
    bool: Val::Bool(b) => Some(*b);
    Boolean: Val::Bool(b) => Some(if *b { Boolean::TRUE } else { Boolean::FALSE });
    Null: Val::Null => Some(Null::new());
    (): Val::Null => Some(());
    Integer<'_>: Val::Int(b) => Some(Integer::new(b));
    Enumerated: Val::Enum(n) => Some(Enumerated(*n));
    BitString: Val::Bits(b) => Some({
        let mut o = vec![0u8; b.len().div_ceil(8)];
        for (i, x) in b.iter().enumerate() {
            o[i / 8] |= (*x as u8) << (7 - i % 8);
        }
        BitString::new((8 * o.len() - b.len()) as u8, &o)
    });
    OctetString<'_>: Val::Bytes(b) => Some(OctetString::new(b));
    &[u8]: Val::Bytes(b) => Some(b);
    Oid<'_>: x => match x {
        Val::Oid(b) => Some(Oid::new(b.into())),
        Val::Choice(1, x) => match &**x {
            Val::Oid(b) => Some(Oid::new_relative(b.into())),
            _ => None,
        },
        _ => None,
    };
    f64: Val::Real(b) => Some(f64::from_bits(*b));
    f32: Val::Real(b) => Some(f64::from_bits(*b) as f32);
    Real: Val::Real(b) => Some(Real::from(f64::from_bits(*b)));
    UtcTime: Val::Time(t) => Some(UtcTime::new(time_of(t)?));
    GeneralizedTime: Val::Time(t) => Some(GeneralizedTime::new(time_of(t)?));
    String: Val::Str(s) => Some(s.clone());
    &str: Val::Str(s) => Some(s);
    Any<'_>: Val::Any { class, constructed, tag, content } => Some(Any::new(
        Header::new(Class::try_from(*class).ok()?, *constructed, Tag(*tag), Length::Definite(content.len())),
        content.as_slice().into(),
    ));
    Sequence<'_>: Val::Bytes(b) => Some(Sequence::new(b.into()));
    Set<'_>: Val::Bytes(b) => Some(Set::new(b.into()));
    AnySequence<'_>: x => Some(AnySequence::new(FromVal::from_val(x)?));
    AnySet<'_>: x => Some(AnySet::new(FromVal::from_val(x)?));
}
macro_rules! strs_from {
    ($($t:ident)*) => {$( impl FromVal for $t<'_> { fn from_val(v: &'static Val) -> Option<Self> {
        match v { Val::Str(s) => Some($t::new(s)), _ => None }
    } } )*};
}
strs_from!(Utf8String NumericString PrintableString Ia5String VisibleString TeletexString VideotexString GraphicString
      GeneralString ObjectDescriptor BmpString UniversalString);
fn items<C: FromIterator<T>, T: FromVal>(v: &'static Val) -> Option<C> {
    match v {
        Val::Seq(x) | Val::Set(x) => x.iter().map(T::from_val).collect(),
        _ => None,
    }
}
impl<T: FromVal> FromVal for Vec<T> {
    fn from_val(v: &'static Val) -> Option<Self> {
        items(v)
    }
}
impl<T: FromVal, const N: usize> FromVal for [T; N] {
    fn from_val(v: &'static Val) -> Option<Self> {
        items::<Vec<T>, T>(v)?.try_into().ok()
    }
}
impl<T: FromVal> FromVal for SequenceOf<T> {
    fn from_val(v: &'static Val) -> Option<Self> {
        Some(SequenceOf::new(items(v)?))
    }
}
impl<T: FromVal> FromVal for SetOf<T> {
    fn from_val(v: &'static Val) -> Option<Self> {
        Some(SetOf::new(items(v)?))
    }
}
impl<T: FromVal + Ord> FromVal for BTreeSet<T> {
    fn from_val(v: &'static Val) -> Option<Self> {
        items(v)
    }
}
impl<T: FromVal + Eq + std::hash::Hash> FromVal for HashSet<T> {
    fn from_val(v: &'static Val) -> Option<Self> {
        items(v)
    }
}
impl<T: FromVal> FromVal for Option<T> {
    fn from_val(v: &'static Val) -> Option<Self> {
        match v {
            Val::Opt(None) => Some(None),
            Val::Opt(Some(x)) => Some(Some(T::from_val(x)?)),
            _ => None,
        }
    }
}
impl<T: FromVal, E, const C: u8, const N: u32> FromVal for TaggedValue<T, E, Explicit, C, N> {
    fn from_val(v: &'static Val) -> Option<Self> {
        match v {
            Val::Tagged(c, n, x) if (*c, *n) == (C, N) => Some(TaggedValue::explicit(T::from_val(x)?)),
            _ => None,
        }
    }
}
impl<T: FromVal, E, const C: u8, const N: u32> FromVal for TaggedValue<T, E, Implicit, C, N> {
    fn from_val(v: &'static Val) -> Option<Self> {
        match v {
            Val::Tagged(c, n, x) if (*c, *n) == (C, N) => Some(TaggedValue::implicit(T::from_val(x)?)),
            _ => None,
        }
    }
}
impl<T: FromVal> FromVal for TaggedParser<'_, Explicit, T, Error> {
    fn from_val(v: &'static Val) -> Option<Self> {
        match v {
            Val::Tagged(c, n, x) => Some(TaggedParser::new_explicit(Class::try_from(*c).ok()?, *n, T::from_val(x)?)),
            _ => None,
        }
    }
}
impl<T: FromVal + DynTagged> FromVal for TaggedParser<'_, Implicit, T, Error> {
    fn from_val(v: &'static Val) -> Option<Self> {
        match v {
            Val::Tagged(c, n, x) => {
                let x = T::from_val(x)?;
                Some(TaggedParser::new_implicit(Class::try_from(*c).ok()?, x.constructed(), *n, x))
            }
            _ => None,
        }
    }
}
impl FromVal for EmbeddedPdv<'_> {
    fn from_val(v: &'static Val) -> Option<Self> {
        let Val::Tagged(0, 11, v) = v else { return None };
        let Val::Seq(v) = &**v else { return None };
        let [Val::Choice(i, id), d, o] = v.as_slice() else { return None };
        let two = || match &**id {
            Val::Seq(x) if x.len() == 2 => Some((&x[0], &x[1])),
            _ => None,
        };
        Some(EmbeddedPdv {
            identification: match i {
                0 => PdvIdentification::Syntaxes { s_abstract: FromVal::from_val(two()?.0)?, s_transfer: FromVal::from_val(two()?.1)? },
                1 => PdvIdentification::Syntax(FromVal::from_val(id)?),
                2 => PdvIdentification::PresentationContextId(FromVal::from_val(id)?),
                3 => PdvIdentification::ContextNegotiation { presentation_context_id: FromVal::from_val(two()?.0)?, presentation_syntax: FromVal::from_val(two()?.1)? },
                4 => PdvIdentification::TransferSyntax(FromVal::from_val(id)?),
                _ => PdvIdentification::Fixed,
            },
            data_value_descriptor: FromVal::from_val(d)?,
            data_value: FromVal::from_val(o)?,
        })
    }
}

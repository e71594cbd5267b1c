//! Types whose codecs come from the custom derives.
use crate::model::*;
use crate::subjects::*;
use crate::{choice_val, struct_val};
use asn1_rs::*;
use std::borrow::Cow;

fn f(s: S) -> Field {
    Field { s, tag: None, opt: false, default: None }
}
fn fo(s: S) -> Field {
    Field { s, tag: None, opt: true, default: None }
}
fn ft(s: S, k: crate::model::TagKind, c: u8, t: u32) -> Field {
    Field { s, tag: Some((k, c, t)), opt: false, default: None }
}
fn fot(s: S, k: crate::model::TagKind, c: u8, t: u32) -> Field {
    Field { s, tag: Some((k, c, t)), opt: true, default: None }
}
fn fd(s: S, d: Val) -> Field {
    Field { s, tag: None, opt: true, default: Some(d) }
}
fn fdt(s: S, k: crate::model::TagKind, c: u8, t: u32, d: Val) -> Field {
    Field { s, tag: Some((k, c, t)), opt: true, default: Some(d) }
}
fn st(fields: Vec<Field>) -> S {
    S::Struct { set: false, fields }
}
fn set(fields: Vec<Field>) -> S {
    S::Struct { set: true, fields }
}
fn u(n: u32) -> S {
    S::Int(IntK::U(n))
}
fn i(n: u32) -> S {
    S::Int(IntK::I(n))
}
fn iv(v: i128) -> Val {
    Val::Int(int_i128(v))
}
use crate::model::TagKind::{Expl, Impl};

/// EMBEDDED PDV of the library, as X.680 defines it (automatic tags)
pub fn pdv() -> S {
    use crate::model::StrK;
    let two = |a: S| st(vec![ft(a, Impl, 2, 0), ft(S::Oid, Impl, 2, 1)]);
    let id = S::Choice(Some(Impl), vec![(0, two(S::Oid)), (1, S::Oid), (2, S::Int(IntK::Big)), (3, two(S::Int(IntK::Big))), (4, S::Oid), (5, S::Null)]);
    let body = st(vec![ft(id, Expl, 2, 0), fot(S::Str(StrK::ObjDesc), Impl, 2, 1), ft(S::OctStr, Impl, 2, 2)]);
    S::Tag(Impl, 0, 11, Box::new(body))
}

#[derive(Debug, PartialEq, Sequence)]
pub struct SBasic {
    a: u32,
    b: u16,
    c: bool,
}
struct_val!(SBasic { a, b, c });

#[derive(Debug, PartialEq, Sequence)]
pub struct SOne {
    a: i64,
}
struct_val!(SOne { a });

#[derive(Debug, PartialEq, Sequence)]
pub struct SStr<'x> {
    s: &'x str,
    o: OctetString<'x>,
    d: Oid<'x>,
}
struct_val!(SStr<'_> { s, o, d });

#[derive(Debug, PartialEq, Sequence)]
pub struct SOpt {
    a: u8,
    #[optional]
    b: Option<bool>,
    #[optional]
    c: Option<u16>,
    d: String,
}
struct_val!(SOpt { a, b, c, d });

#[derive(Debug, PartialEq, Sequence)]
pub struct SOptLast {
    a: u8,
    #[optional]
    b: Option<u16>,
}
struct_val!(SOptLast { a, b });

#[derive(Debug, PartialEq, Sequence)]
pub struct SDef {
    a: u8,
    #[default(7_u16)]
    b: u16,
    #[default(false)]
    c: bool,
}
struct_val!(SDef { a, b, c });

#[derive(Debug, PartialEq, Sequence)]
pub struct SExp {
    #[tag_explicit(0)]
    a: u32,
    #[tag_explicit(APPLICATION 1)]
    b: u16,
    #[tag_explicit(PRIVATE 34)]
    c: bool,
}
struct_val!(SExp { a, b, c });

#[derive(Debug, PartialEq, Sequence)]
pub struct SImp<'x> {
    #[tag_implicit(0)]
    a: u32,
    #[tag_implicit(APPLICATION 1)]
    b: &'x str,
    #[tag_implicit(PRIVATE 2)]
    c: Vec<u8>,
}
struct_val!(SImp<'_> { a, b, c });

#[derive(Debug, PartialEq, Sequence)]
pub struct SExpOpt {
    #[tag_explicit(0)]
    #[optional]
    a: Option<u16>,
    #[tag_explicit(1)]
    #[optional]
    b: Option<u16>,
    c: u16,
    #[tag_explicit(2)]
    #[optional]
    d: Option<Vec<u8>>,
}
struct_val!(SExpOpt { a, b, c, d });

#[derive(Debug, PartialEq, Sequence)]
pub struct SImpOpt<'x> {
    #[tag_implicit(0)]
    #[optional]
    a: Option<u16>,
    #[tag_implicit(1)]
    #[optional]
    b: Option<&'x str>,
    c: u16,
}
struct_val!(SImpOpt<'_> { a, b, c });

#[derive(Debug, PartialEq, Sequence)]
pub struct SExpDef {
    #[tag_explicit(0)]
    #[default(5_u16)]
    a: u16,
    b: u16,
    #[tag_explicit(1)]
    #[default(300_u32)]
    c: u32,
}
struct_val!(SExpDef { a, b, c });

#[derive(Debug, PartialEq, Sequence)]
pub struct SImpDef {
    #[tag_implicit(0)]
    #[default(5_u16)]
    a: u16,
    b: u16,
}
struct_val!(SImpDef { a, b });

/// names that are parts of other names, keywords, and names the generated code uses
#[derive(Debug, PartialEq, Sequence)]
pub struct SNames<'x> {
    #[tag_explicit(0)]
    key_id: u32,
    #[tag_implicit(1)]
    key: &'x str,
    #[tag_explicit(APPLICATION 2)]
    #[optional]
    id: Option<u16>,
    header: u8,
    #[tag_implicit(3)]
    #[optional]
    r#type: Option<bool>,
    #[tag_implicit(PRIVATE 4)]
    length: u16,
    input: bool,
    #[tag_explicit(5)]
    ty: u8,
}
struct_val!(SNames<'_> { key_id, key, id, header, r#type, length, input, ty });

/// tag numbers at the boundaries of their encoding
#[derive(Debug, PartialEq, Sequence)]
pub struct STags<'x> {
    #[tag_explicit(30)]
    a: u32,
    #[tag_explicit(31)]
    b: &'x str,
    #[tag_implicit(127)]
    c: u16,
    #[tag_explicit(128)]
    #[optional]
    d: Option<u16>,
    #[tag_explicit(16383)]
    e: Vec<u8>,
    #[tag_implicit(APPLICATION 16384)]
    #[optional]
    g: Option<u16>,
    #[tag_explicit(PRIVATE 65535)]
    h: u8,
}
struct_val!(STags<'_> { a, b, c, d, e, g, h });

// absent components followed by one with the same number and another class
#[derive(Debug, PartialEq, Sequence)]
pub struct SClash<'x> {
    #[tag_explicit(2)]
    #[optional]
    a: Option<u16>,
    b: u32,
    #[tag_implicit(1)]
    #[optional]
    c: Option<&'x str>,
    d: bool,
    #[optional]
    e: Option<bool>,
    #[tag_implicit(APPLICATION 1)]
    #[optional]
    g: Option<&'x str>,
    #[tag_implicit(1)]
    h: &'x str,
}
struct_val!(SClash<'_> { a, b, c, d, e, g, h });

#[derive(Debug, PartialEq, Sequence)]
pub struct SClashVal {
    #[optional]
    a: Option<TaggedExplicit<u16, Error, 1>>,
    #[optional]
    b: Option<ApplicationImplicit<u16, Error, 1>>,
    c: bool,
}
struct_val!(SClashVal { a, b, c });

#[derive(Debug, PartialEq, DerSequence, ToBerSequence, ToDerSequence)]
pub struct LClash<'x> {
    #[tag_explicit(2)]
    #[optional]
    a: Option<u16>,
    b: u32,
    #[tag_implicit(1)]
    #[optional]
    c: Option<&'x str>,
    d: bool,
    #[optional]
    e: Option<bool>,
    #[tag_implicit(APPLICATION 1)]
    #[optional]
    g: Option<&'x str>,
    #[tag_implicit(1)]
    h: &'x str,
}
struct_val!(LClash<'_> { a, b, c, d, e, g, h });

#[derive(Debug, PartialEq, Sequence)]
pub struct SNest {
    a: u8,
    s: SBasic,
    v: Vec<SOne>,
}
struct_val!(SNest { a, s, v });

#[derive(Debug, PartialEq, Sequence)]
pub struct SAny<'x> {
    a: u8,
    b: Any<'x>,
}
struct_val!(SAny<'_> { a, b });

#[derive(Debug, PartialEq, Sequence)]
pub struct SVals<'x> {
    e: TaggedExplicit<u32, Error, 1>,
    i: TaggedImplicit<&'x str, Error, 2>,
    t: Integer<'x>,
}
struct_val!(SVals<'_> { e, i, t });

#[derive(Debug, PartialEq, Set)]
pub struct TBasic {
    a: u32,
    b: bool,
    c: String,
}
struct_val!(TBasic { a, b, c });

#[derive(Debug, PartialEq, Set)]
pub struct TTag<'x> {
    #[tag_explicit(0)]
    a: u32,
    #[tag_implicit(1)]
    #[optional]
    b: Option<&'x str>,
    #[default(9_u8)]
    c: u8,
}
struct_val!(TTag<'_> { a, b, c });

// selective generation
#[derive(Debug, PartialEq, Sequence)]
#[asn1(parse = "DER", encode = "DER")]
pub struct SDerOnly {
    a: u32,
    b: bool,
}
struct_val!(SDerOnly { a, b });
#[derive(Debug, PartialEq, Sequence)]
#[asn1(parse = "BER", encode = "BER")]
pub struct SBerOnly {
    a: u32,
    b: bool,
}
struct_val!(SBerOnly { a, b });

// legacy derives
#[derive(Debug, PartialEq, DerSequence, ToBerSequence, ToDerSequence)]
pub struct LBasic {
    a: u32,
    b: u16,
    c: bool,
}
struct_val!(LBasic { a, b, c });

#[derive(Debug, PartialEq, DerSequence)]
pub struct LTag<'x> {
    #[tag_explicit(0)]
    #[optional]
    a: Option<u16>,
    #[tag_implicit(1)]
    #[optional]
    b: Option<&'x str>,
    c: u16,
    #[default(3_u8)]
    d: u8,
}
struct_val!(LTag<'_> { a, b, c, d });

#[derive(Debug, PartialEq, BerSequence, ToBerSequence)]
pub struct LBer {
    a: u32,
    #[optional]
    b: Option<bool>,
    #[tag_explicit(3)]
    c: u16,
}
struct_val!(LBer { a, b, c });

#[derive(Debug, PartialEq, BerSet)]
pub struct LBerSet {
    a: u32,
    #[tag_implicit(PRIVATE 3)]
    c: u16,
}
struct_val!(LBerSet { a, c });

#[derive(Debug, PartialEq, DerSet, ToBerSet, ToDerSet)]
pub struct LSet {
    a: u32,
    b: bool,
}
struct_val!(LSet { a, b });

#[derive(Debug, PartialEq, DerParserSequence)]
pub struct PSeqD {
    a: u32,
    #[optional]
    b: Option<bool>,
    #[tag_explicit(0)]
    #[optional]
    c: Option<u16>,
}
#[derive(Debug, PartialEq, BerParserSequence)]
pub struct PSeq {
    a: u32,
    #[optional]
    b: Option<bool>,
    #[tag_explicit(0)]
    #[optional]
    c: Option<u16>,
}
struct_val!(PSeq { a, b, c });
struct_val!(PSeqD { a, b, c });

#[derive(Debug, PartialEq, DerParserSet)]
pub struct PSetD {
    a: u32,
    #[tag_implicit(3)]
    b: u16,
}
#[derive(Debug, PartialEq, BerParserSet)]
pub struct PSet {
    a: u32,
    #[tag_implicit(3)]
    b: u16,
}
struct_val!(PSet { a, b });
struct_val!(PSetD { a, b });

// choices
#[derive(Debug, PartialEq, Choice)]
pub enum CUn<'x> {
    Oct(&'x [u8]),
    Num(u32),
    Flag(bool),
    Seq(SBasic),
}
choice_val!(CUn<'_>: CUn::Oct => 0; CUn::Num => 1; CUn::Flag => 2; CUn::Seq => 3);

#[derive(Debug, PartialEq, Choice)]
#[tagged_explicit]
pub enum CEx {
    Age(u32),
    Name(String),
    #[tag(4)]
    Sur(String),
    Last(bool),
}
choice_val!(CEx: CEx::Age => 0; CEx::Name => 1; CEx::Sur => 2; CEx::Last => 3);

#[derive(Debug, PartialEq, Choice)]
#[tagged_implicit]
pub enum CIm<'x> {
    Age(u32),
    Name(Ia5String<'x>),
    #[tag(40)]
    Oct(OctetString<'x>),
    Seq(Vec<u8>),
}
choice_val!(CIm<'_>: CIm::Age => 0; CIm::Name => 1; CIm::Oct => 2; CIm::Seq => 3);

#[derive(Debug, PartialEq, DerParserChoice)]
#[tagged_explicit]
pub enum CPExD {
    A(u32),
    B(bool),
}
#[derive(Debug, PartialEq, BerParserChoice)]
#[tagged_explicit]
pub enum CPEx {
    A(u32),
    B(bool),
}
choice_val!(CPEx: CPEx::A => 0; CPEx::B => 1);
choice_val!(CPExD: CPExD::A => 0; CPExD::B => 1);

#[derive(Debug, PartialEq, DerParserChoice)]
#[tagged_implicit]
pub enum CPImD {
    A(u32),
    B(String),
}
#[derive(Debug, PartialEq, BerParserChoice)]
#[tagged_implicit]
pub enum CPIm {
    A(u32),
    B(String),
}
choice_val!(CPIm: CPIm::A => 0; CPIm::B => 1);
choice_val!(CPImD: CPImD::A => 0; CPImD::B => 1);

#[derive(Debug, PartialEq, Sequence)]
pub struct SChoice<'x> {
    a: u8,
    c: CUn<'x>,
    e: CEx,
}
struct_val!(SChoice<'_> { a, c, e });

// an alternative for everything else, and absent alternatives in front of components of another class
#[derive(Debug, PartialEq, Choice)]
pub enum CRest<'x> {
    Num(u32),
    Flag(bool),
    Rest(Any<'x>),
}
choice_val!(CRest<'_>: CRest::Num => 0; CRest::Flag => 1; CRest::Rest => 2);

#[derive(Debug, PartialEq, Sequence)]
pub struct SOptChoice<'x> {
    #[optional]
    a: Option<CUn<'x>>,
    #[tag_implicit(2)]
    b: u8,
    #[optional]
    c: Option<CEx>,
    #[tag_explicit(APPLICATION 0)]
    d: u16,
    e: CRest<'x>,
}
struct_val!(SOptChoice<'_> { a, b, c, d, e });

// enumerated
#[derive(Debug, Clone, Copy, PartialEq, Enumerated)]
pub enum EGap {
    Zero = 0,
    Four = 4,
    Five,
    Big = 300,
    High = 0x90,
}
impl crate::vals::ToVal for EGap {
    fn to_val(&self) -> Val {
        Val::Enum(match self {
            EGap::Zero => 0,
            EGap::Four => 4,
            EGap::Five => 5,
            EGap::Big => 300,
            EGap::High => 0x90,
        })
    }
}
impl crate::vals::FromVal for EGap {
    fn from_val(v: &'static Val) -> Option<Self> {
        Some(match v {
            Val::Enum(0) => EGap::Zero,
            Val::Enum(4) => EGap::Four,
            Val::Enum(5) => EGap::Five,
            Val::Enum(300) => EGap::Big,
            Val::Enum(0x90) => EGap::High,
            _ => return None,
        })
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Enumerated)]
#[repr(u8)]
pub enum ERepr {
    A,
    B,
    C = 200,
}
impl crate::vals::ToVal for ERepr {
    fn to_val(&self) -> Val {
        Val::Enum(match self {
            ERepr::A => 0,
            ERepr::B => 1,
            ERepr::C => 200,
        })
    }
}
impl crate::vals::FromVal for ERepr {
    fn from_val(v: &'static Val) -> Option<Self> {
        Some(match v {
            Val::Enum(0) => ERepr::A,
            Val::Enum(1) => ERepr::B,
            Val::Enum(200) => ERepr::C,
            _ => return None,
        })
    }
}

// aliases
#[derive(Debug, PartialEq, Alias)]
pub struct AOct<'x>(&'x [u8]);
#[derive(Debug, PartialEq, Alias)]
pub struct AInt(u32);
#[derive(Debug, PartialEq, Alias)]
pub struct AVec(Vec<u16>);
#[derive(Debug, PartialEq, Alias)]
pub struct AAny<'x>(Any<'x>);
#[derive(Debug, PartialEq, DerAlias)]
pub struct LAlias<'x>(OctetString<'x>);
#[derive(Debug, PartialEq, DerAlias)]
pub struct LAliasVec(Vec<u16>);
#[derive(Debug, PartialEq, DerAlias)]
pub struct LAliasStruct<'x>(LTag<'x>);
#[derive(Debug, PartialEq, DerParserAlias)]
pub struct PAliasD(u16);
#[derive(Debug, PartialEq, BerParserAlias)]
pub struct PAlias(u16);
macro_rules! alias_val {
    ($($t:ty),*) => {$(
        impl crate::vals::ToVal for $t { fn to_val(&self) -> Val { self.0.to_val() } }
        impl crate::vals::FromVal for $t { fn from_val(v: &'static Val) -> Option<Self> { Some(Self(crate::vals::FromVal::from_val(v)?)) } }
    )*};
}
use crate::vals::ToVal;
alias_val!(AOct<'_>, AInt, AVec, AAny<'_>, LAlias<'_>, LAliasVec, LAliasStruct<'_>, PAlias, PAliasD);

// ToStatic derive
#[derive(Debug, PartialEq, ToStatic)]
pub struct Own<'x> {
    pub a: Cow<'x, str>,
    pub b: Cow<'x, [u8]>,
    pub n: u32,
    pub f: bool,
}
#[derive(Debug, PartialEq, ToStatic)]
pub enum OwnE<'x> {
    Unit,
    One(Cow<'x, str>),
    Two { x: u32, y: Cow<'x, [u8]> },
}
#[derive(Debug, PartialEq, ToStatic)]
pub struct OwnT<'x>(pub u64, pub Own<'x>, pub Vec<Own<'x>>);

#[derive(Debug, PartialEq, Clone, ToStatic)]
pub struct OwnU;
#[derive(Debug, PartialEq, Clone, ToStatic)]
pub struct OwnN {
    pub a: u8,
    pub b: u8,
    pub c: String,
}
#[derive(Debug, PartialEq, ToStatic)]
pub struct OwnM<'p, 'q> {
    pub a: Cow<'p, str>,
    pub a2: Cow<'p, str>,
    pub b: Cow<'q, [u8]>,
    pub o: Option<Cow<'q, str>>,
    pub x: Box<Own<'p>>,
    pub h: Header<'q>,
    pub s: Sequence<'p>,
    pub v: Vec<Option<OwnE<'q>>>,
    pub n: (OwnNewtype),
}
#[derive(Debug, PartialEq, Clone, ToStatic)]
pub struct OwnNewtype(pub i128);
#[derive(Debug, PartialEq, ToStatic)]
pub enum OwnB<'x> {
    A(u8, u8, Cow<'x, str>),
    B { p: Cow<'x, [u8]>, q: Cow<'x, [u8]>, r: bool },
    C(Own<'x>),
    D(Vec<OwnE<'x>>),
    E,
    F(OwnU),
    G(Box<OwnT<'x>>, Option<u64>),
}

fn bx(s: S) -> Box<S> {
    Box::new(s)
}

fn s_basic() -> S {
    st(vec![f(u(32)), f(u(16)), f(S::Bool)])
}
fn c_un() -> S {
    S::Choice(None, vec![(0, S::OctStr), (0, u(32)), (0, S::Bool), (0, s_basic())])
}
fn c_ex() -> S {
    S::Choice(Some(Expl), vec![(0, u(32)), (1, S::Str(StrK::Utf8)), (4, S::Str(StrK::Utf8)), (5, S::Bool)])
}

fn c_rest() -> S {
    S::Choice(None, vec![(0, u(32)), (0, S::Bool), (0, S::Any)])
}

pub fn register(o: &mut Vec<Subject>) {
    let utf = || S::Str(StrK::Utf8);
    subject!(o, 'a, "SBasic", SBasic, s_basic(); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SOne", SOne, st(vec![f(i(64))]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SStr", SStr<'a>, st(vec![f(utf()), f(S::OctStr), f(S::Oid)]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SOpt", SOpt, st(vec![f(u(8)), fo(S::Bool), fo(u(16)), f(utf())]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SOptLast", SOptLast, st(vec![f(u(8)), fo(u(16))]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SDef", SDef, st(vec![f(u(8)), fd(u(16), iv(7)), fd(S::Bool, Val::Bool(false))]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SExp", SExp, st(vec![ft(u(32), Expl, 2, 0), ft(u(16), Expl, 1, 1), ft(S::Bool, Expl, 3, 34)]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SImp", SImp<'a>, st(vec![ft(u(32), Impl, 2, 0), ft(utf(), Impl, 1, 1), ft(S::SeqOf(bx(u(8))), Impl, 3, 2)]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SExpOpt", SExpOpt, st(vec![fot(u(16), Expl, 2, 0), fot(u(16), Expl, 2, 1), f(u(16)), fot(S::SeqOf(bx(u(8))), Expl, 2, 2)]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SImpOpt", SImpOpt<'a>, st(vec![fot(u(16), Impl, 2, 0), fot(utf(), Impl, 2, 1), f(u(16))]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SExpDef", SExpDef, st(vec![fdt(u(16), Expl, 2, 0, iv(5)), f(u(16)), fdt(u(32), Expl, 2, 1, iv(300))]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SImpDef", SImpDef, st(vec![fdt(u(16), Impl, 2, 0, iv(5)), f(u(16))]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SNames", SNames<'a>, st(vec![ft(u(32), Expl, 2, 0), ft(utf(), Impl, 2, 1), fot(u(16), Expl, 1, 2), f(u(8)), fot(S::Bool, Impl, 2, 3), ft(u(16), Impl, 3, 4), f(S::Bool), ft(u(8), Expl, 2, 5)]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "STags", STags<'a>, st(vec![ft(u(32), Expl, 2, 30), ft(utf(), Expl, 2, 31), ft(u(16), Impl, 2, 127), fot(u(16), Expl, 2, 128), ft(S::SeqOf(bx(u(8))), Expl, 2, 16383), fot(u(16), Impl, 1, 16384), ft(u(8), Expl, 3, 65535)]); ber cb der cd eb ed eq dbg tag);
    let clash = || st(vec![fot(u(16), Expl, 2, 2), f(u(32)), fot(utf(), Impl, 2, 1), f(S::Bool), fo(S::Bool), fot(utf(), Impl, 1, 1), ft(utf(), Impl, 2, 1)]);
    subject!(o, 'a, "SClash", SClash<'a>, clash(); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SClashVal", SClashVal, st(vec![fo(S::Tag(Expl, 2, 1, bx(u(16)))), fo(S::Tag(Impl, 1, 1, bx(u(16)))), f(S::Bool)]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "LClash", LClash<'a>, clash(); fber fder tany cc ebf edf tag);
    subject!(o, 'a, "SNest", SNest, st(vec![f(u(8)), f(s_basic()), f(S::SeqOf(bx(st(vec![f(i(64))]))))]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SAny", SAny<'a>, st(vec![f(u(8)), f(S::Any)]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SVals", SVals<'a>, st(vec![f(S::Tag(Expl, 2, 1, bx(u(32)))), f(S::Tag(Impl, 2, 2, bx(utf()))), f(S::Int(IntK::Big))]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "TBasic", TBasic, set(vec![f(u(32)), f(S::Bool), f(utf())]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "TTag", TTag<'a>, set(vec![ft(u(32), Expl, 2, 0), fot(utf(), Impl, 2, 1), fd(u(8), iv(9))]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "SDerOnly", SDerOnly, st(vec![f(u(32)), f(S::Bool)]); der cd edd tag);
    subject!(o, 'a, "SBerOnly", SBerOnly, st(vec![f(u(32)), f(S::Bool)]); ber cb eb eq dbg tag);
    subject!(o, 'a, "LBasic", LBasic, s_basic(); fber fder tany cc ebf edf tag);
    subject!(o, 'a, "LTag", LTag<'a>, st(vec![fot(u(16), Expl, 2, 0), fot(utf(), Impl, 2, 1), f(u(16)), fd(u(8), iv(3))]); fber fder tany cc tag);
    subject!(o, 'a, "LBer", LBer, st(vec![f(u(32)), fo(S::Bool), ft(u(16), Expl, 2, 3)]); fber tany ebf tag);
    subject!(o, 'a, "LBerSet", LBerSet, set(vec![f(u(32)), ft(u(16), Impl, 3, 3)]); fber tany tag);
    subject!(o, 'a, "LSet", LSet, set(vec![f(u(32)), f(S::Bool)]); fber fder tany cc ebf edf tag);
    subject!(o, 'a, "PSeq", PSeq, st(vec![f(u(32)), fo(S::Bool), fot(u(16), Expl, 2, 0)]); ber cb eq dbg);
    subject!(o, 'a, "PSeqD", PSeqD, st(vec![f(u(32)), fo(S::Bool), fot(u(16), Expl, 2, 0)]); der cd);
    subject!(o, 'a, "PSet", PSet, set(vec![f(u(32)), ft(u(16), Impl, 2, 3)]); ber cb eq dbg);
    subject!(o, 'a, "PSetD", PSetD, set(vec![f(u(32)), ft(u(16), Impl, 2, 3)]); der cd);
    subject!(o, 'a, "CUn", CUn<'a>, c_un(); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "CEx", CEx, c_ex(); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "CIm", CIm<'a>, S::Choice(Some(Impl), vec![(0, u(32)), (1, S::Str(StrK::Ia5)), (40, S::OctStr), (41, S::SeqOf(bx(u(8))))]); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "CPEx", CPEx, S::Choice(Some(Expl), vec![(0, u(32)), (1, S::Bool)]); ber cb eq dbg);
    subject!(o, 'a, "CPExD", CPExD, S::Choice(Some(Expl), vec![(0, u(32)), (1, S::Bool)]); der cd);
    subject!(o, 'a, "CPIm", CPIm, S::Choice(Some(Impl), vec![(0, u(32)), (1, utf())]); ber cb eq dbg);
    subject!(o, 'a, "CPImD", CPImD, S::Choice(Some(Impl), vec![(0, u(32)), (1, utf())]); der cd);
    subject!(o, 'a, "SChoice", SChoice<'a>, st(vec![f(u(8)), f(c_un()), f(c_ex())]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "CRest", CRest<'a>, c_rest(); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "SOptChoice", SOptChoice<'a>, st(vec![fo(c_un()), ft(u(8), Impl, 2, 2), fo(c_ex()), ft(u(16), Expl, 1, 0), f(c_rest())]); ber cb der cd eb ed eq dbg tag);
    subject!(o, 'a, "EGap", EGap, S::EnumT(vec![0, 4, 5, 300, 0x90]); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "ERepr", ERepr, S::EnumT(vec![0, 1, 200]); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "AOct", AOct<'a>, S::Alias(bx(S::OctStr)); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "AInt", AInt, S::Alias(bx(u(32))); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "AVec", AVec, S::Alias(bx(S::SeqOf(bx(u(16))))); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "AAny", AAny<'a>, S::Alias(bx(S::Any)); ber cb der cd eb ed eq dbg);
    subject!(o, 'a, "LAliasVec", LAliasVec, S::Alias(bx(S::SeqOf(bx(u(16))))); fber fder tany cc tag);
    subject!(o, 'a, "LAliasStruct", LAliasStruct<'a>, S::Alias(bx(st(vec![fot(u(16), Expl, 2, 0), fot(utf(), Impl, 2, 1), f(u(16)), fd(u(8), iv(3))]))); fber fder tany cc tag);
    subject!(o, 'a, "LAlias", LAlias<'a>, S::Alias(bx(S::OctStr)); fber fder tany cc tag);
    subject!(o, 'a, "PAlias", PAlias, S::Alias(bx(u(16))); ber cb eq dbg tag);
    subject!(o, 'a, "PAliasD", PAliasD, S::Alias(bx(u(16))); der cd tag);
}

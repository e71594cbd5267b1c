// generated by tools/mkprobe.py
use asn1_rs::*;

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SBasic {
    a: u32,
    b: u16,
    c: bool,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SOne {
    a: i64,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SStr<'x> {
    s: &'x str,
    o: OctetString<'x>,
    d: Oid<'x>,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SOpt {
    a: u8,
    #[optional]
    b: Option<bool>,
    #[optional]
    c: Option<u16>,
    d: String,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SOptLast {
    a: u8,
    #[optional]
    b: Option<u16>,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SDef {
    a: u8,
    #[default(7_u16)]
    b: u16,
    #[default(false)]
    c: bool,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SExp {
    #[tag_explicit(0)]
    a: u32,
    #[tag_explicit(APPLICATION 1)]
    b: u16,
    #[tag_explicit(PRIVATE 34)]
    c: bool,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SImp<'x> {
    #[tag_implicit(0)]
    a: u32,
    #[tag_implicit(APPLICATION 1)]
    b: &'x str,
    #[tag_implicit(PRIVATE 2)]
    c: Vec<u8>,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SExpOpt {
    #[tag_explicit(0)]
    #[optional]
    a: Option<u16>,
    #[tag_explicit(1)]
    #[optional]
    b: Option<u16>,
    c: u16,
    #[tag_explicit(2)]
    #[optional]
    d: Option<Vec<u8>>,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SImpOpt<'x> {
    #[tag_implicit(0)]
    #[optional]
    a: Option<u16>,
    #[tag_implicit(1)]
    #[optional]
    b: Option<&'x str>,
    c: u16,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SExpDef {
    #[tag_explicit(0)]
    #[default(5_u16)]
    a: u16,
    b: u16,
    #[tag_explicit(1)]
    #[default(300_u32)]
    c: u32,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SImpDef {
    #[tag_implicit(0)]
    #[default(5_u16)]
    a: u16,
    b: u16,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SNest {
    a: u8,
    s: SBasic,
    v: Vec<SOne>,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SAny<'x> {
    a: u8,
    b: Any<'x>,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SVals<'x> {
    e: TaggedExplicit<u32, Error, 1>,
    i: TaggedImplicit<&'x str, Error, 2>,
    t: Integer<'x>,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Set)]
pub struct TBasic {
    a: u32,
    b: bool,
    c: String,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Set)]
pub struct TTag<'x> {
    #[tag_explicit(0)]
    a: u32,
    #[tag_implicit(1)]
    #[optional]
    b: Option<&'x str>,
    #[default(9_u8)]
    c: u8,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
#[asn1(parse = "DER", encode = "DER")]
pub struct SDerOnly {
    a: u32,
    b: bool,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
#[asn1(parse = "BER", encode = "BER")]
pub struct SBerOnly {
    a: u32,
    b: bool,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, DerSequence)]
pub struct LBasic {
    a: u32,
    b: u16,
    c: bool,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, DerSequence)]
pub struct LTag<'x> {
    #[tag_explicit(0)]
    #[optional]
    a: Option<u16>,
    #[tag_implicit(1)]
    #[optional]
    b: Option<&'x str>,
    c: u16,
    #[default(3_u8)]
    d: u8,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, BerSequence)]
pub struct LBer {
    a: u32,
    #[optional]
    b: Option<bool>,
    #[tag_explicit(3)]
    c: u16,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, BerSet)]
pub struct LBerSet {
    a: u32,
    #[tag_implicit(PRIVATE 3)]
    c: u16,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, DerSet)]
pub struct LSet {
    a: u32,
    b: bool,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, DerParserSequence)]
pub struct PSeqD {
    a: u32,
    #[optional]
    b: Option<bool>,
    #[tag_explicit(0)]
    #[optional]
    c: Option<u16>,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, BerParserSequence)]
pub struct PSeq {
    a: u32,
    #[optional]
    b: Option<bool>,
    #[tag_explicit(0)]
    #[optional]
    c: Option<u16>,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, DerParserSet)]
pub struct PSetD {
    a: u32,
    #[tag_implicit(3)]
    b: u16,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, BerParserSet)]
pub struct PSet {
    a: u32,
    #[tag_implicit(3)]
    b: u16,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Choice)]
pub enum CUn<'x> {
    Oct(&'x [u8]),
    Num(u32),
    Flag(bool),
    Seq(SBasic),
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Choice)]
#[tagged_explicit]
pub enum CEx {
    Age(u32),
    Name(String),
    #[tag(4)]
    Sur(String),
    Last(bool),
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Choice)]
#[tagged_implicit]
pub enum CIm<'x> {
    Age(u32),
    Name(Ia5String<'x>),
    #[tag(40)]
    Oct(OctetString<'x>),
    Seq(Vec<u8>),
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, DerParserChoice)]
#[tagged_explicit]
pub enum CPExD {
    A(u32),
    B(bool),
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, BerParserChoice)]
#[tagged_explicit]
pub enum CPEx {
    A(u32),
    B(bool),
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, DerParserChoice)]
#[tagged_implicit]
pub enum CPImD {
    A(u32),
    B(String),
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, BerParserChoice)]
#[tagged_implicit]
pub enum CPIm {
    A(u32),
    B(String),
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Sequence)]
pub struct SChoice<'x> {
    a: u8,
    c: CUn<'x>,
    e: CEx,
}

#[allow(dead_code)]
#[derive(Debug, Clone, Copy, PartialEq, Enumerated)]
pub enum EGap {
    Zero = 0,
    Four = 4,
    Five,
    Big = 300,
    High = 0x90,
}

#[allow(dead_code)]
#[derive(Debug, Clone, Copy, PartialEq, Enumerated)]
#[repr(u8)]
pub enum ERepr {
    A,
    B,
    C = 200,
}

#[allow(dead_code)]
#[derive(Debug, PartialEq, Alias)]
pub struct AOct<'x>(&'x [u8]);

#[allow(dead_code)]
#[derive(Debug, PartialEq, Alias)]
pub struct AInt(u32);

#[allow(dead_code)]
#[derive(Debug, PartialEq, Alias)]
pub struct AVec(Vec<u16>);

#[allow(dead_code)]
#[derive(Debug, PartialEq, Alias)]
pub struct AAny<'x>(Any<'x>);

#[allow(dead_code)]
#[derive(Debug, PartialEq, DerAlias)]
pub struct LAlias<'x>(OctetString<'x>);

#[allow(dead_code)]
#[derive(Debug, PartialEq, DerParserAlias)]
pub struct PAliasD(u16);

#[allow(dead_code)]
#[derive(Debug, PartialEq, BerParserAlias)]
pub struct PAlias(u16);

pub fn table() -> Vec<(&'static str, Vec<super::Fun>)> {
    use std::collections::BTreeSet;
    let mut v = vec![];
    {
        t!(v, 'a, "bool", bool; ber der fber fder tany rany eb ed);
        t!(v, 'a, "Boolean", Boolean; ber der fber fder tany rany eb ed);
        t!(v, 'a, "Null", Null; ber der fber fder tany rany eb ed);
        t!(v, 'a, "()", (); ber der fber fder tany rany eb ed);
        t!(v, 'a, "u8", u8; ber der fber fder tany rany eb ed);
        t!(v, 'a, "u16", u16; ber der fber fder tany rany eb ed);
        t!(v, 'a, "u32", u32; ber der fber fder tany rany eb ed);
        t!(v, 'a, "u64", u64; ber der fber fder tany rany eb ed);
        t!(v, 'a, "u128", u128; ber der fber fder tany rany eb ed);
        t!(v, 'a, "usize", usize; ber der fber fder tany rany eb ed);
        t!(v, 'a, "i8", i8; ber der fber fder tany rany eb ed);
        t!(v, 'a, "i16", i16; ber der fber fder tany rany eb ed);
        t!(v, 'a, "i32", i32; ber der fber fder tany rany eb ed);
        t!(v, 'a, "i64", i64; ber der fber fder tany rany eb ed);
        t!(v, 'a, "i128", i128; ber der fber fder tany rany eb ed);
        t!(v, 'a, "isize", isize; ber der fber fder tany rany eb ed);
        t!(v, 'a, "Integer", Integer<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "Enumerated", Enumerated; ber der fber fder tany rany eb ed);
        t!(v, 'a, "BitString", BitString; ber der fber fder tany rany eb ed);
        t!(v, 'a, "OctetString", OctetString<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "&[u8]", &'a [u8]; ber der fber fder tany rany eb ed);
        t!(v, 'a, "Oid", Oid<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "Real", Real; ber der fber fder tany rany eb ed);
        t!(v, 'a, "f32", f32; ber der fber fder tany rany eb ed);
        t!(v, 'a, "f64", f64; ber der fber fder tany rany eb ed);
        t!(v, 'a, "UtcTime", UtcTime; ber der fber fder tany rany eb ed dsp);
        t!(v, 'a, "GeneralizedTime", GeneralizedTime; ber der fber fder tany rany eb ed dsp);
        t!(v, 'a, "String", String; ber der fber fder tany rany eb ed);
        t!(v, 'a, "&str", &'a str; ber der fber fder tany rany eb ed);
        t!(v, 'a, "Utf8String", Utf8String<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "NumericString", NumericString<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "PrintableString", PrintableString<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "Ia5String", Ia5String<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "VisibleString", VisibleString<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "TeletexString", TeletexString<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "VideotexString", VideotexString<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "GraphicString", GraphicString<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "GeneralString", GeneralString<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "ObjectDescriptor", ObjectDescriptor<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "BmpString", BmpString<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "UniversalString", UniversalString<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "Any", Any<'a>; ber der fber fder eb ed);
        t!(v, 'a, "Sequence", Sequence<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "Set", Set<'a>; ber der fber fder tany rany eb ed);
        t!(v, 'a, "EmbeddedPdv", EmbeddedPdv<'a>; ber der fber fder tany rany);
        t!(v, 'a, "EndOfContent", EndOfContent; ber fber tany rany);
        t!(v, 'a, "Vec<u8>", Vec<u8>; ber der fber fder tany eb ed);
        t!(v, 'a, "Vec<bool>", Vec<bool>; ber der fber fder tany eb ed);
        t!(v, 'a, "Vec<&str>", Vec<&'a str>; ber der fber fder tany eb ed);
        t!(v, 'a, "Vec<OctetString>", Vec<OctetString<'a>>; ber der fber fder tany eb ed);
        t!(v, 'a, "Vec<Vec<u32>>", Vec<Vec<u32>>; ber der fber fder tany eb ed);
        t!(v, 'a, "Vec<Any>", Vec<Any<'a>>; ber der fber fder tany eb ed);
        t!(v, 'a, "SequenceOf<u32>", SequenceOf<u32>; ber der fber fder tany eb ed);
        t!(v, 'a, "SequenceOf<BitString>", SequenceOf<BitString>; ber der fber fder tany eb ed);
        t!(v, 'a, "SetOf<u32>", SetOf<u32>; ber der fber fder tany eb ed);
        t!(v, 'a, "SetOf<&[u8]>", SetOf<&'a [u8]>; ber der fber fder tany eb ed);
        t!(v, 'a, "BTreeSet<u32>", BTreeSet<u32>; ber der fber fder tany eb ed);
        t!(v, 'a, "BTreeSet<&[u8]>", BTreeSet<&'a [u8]>; ber der fber fder tany eb ed);
        t!(v, 'a, "[u8;3]", [u8; 3]; ber der eb ed);
        t!(v, 'a, "[&str;2]", [&'a str; 2]; ber der eb ed);
        t!(v, 'a, "AnySequence", AnySequence<'a>; ber der eb ed);
        t!(v, 'a, "(u8,)", (u8,); ber der);
        t!(v, 'a, "(u8,bool)", (u8, bool); ber der);
        t!(v, 'a, "(u32,&str,OctetString)", (u32, &'a str, OctetString<'a>); ber der);
        t!(v, 'a, "tuple12", (u8, u8, u8, u8, u8, u8, bool, u8, u8, u8, u8, u16); ber der);
        t!(v, 'a, "Option<u8>", Option<u8>; ber der fber fder eb ed);
        t!(v, 'a, "Option<&str>", Option<&'a str>; ber der fber fder eb ed);
        t!(v, 'a, "Option<Vec<u8>>", Option<Vec<u8>>; ber der fber eb ed);
        t!(v, 'a, "TaggedExplicit<u32,1>", TaggedExplicit<u32, Error, 1>; ber der fber fder tany eb ed);
        t!(v, 'a, "TaggedExplicit<Vec<u8>,0>", TaggedExplicit<Vec<u8>, Error, 0>; ber der fber fder tany eb ed);
        t!(v, 'a, "TaggedExplicit<&str,40>", TaggedExplicit<&'a str, Error, 40>; ber der fber fder tany eb ed);
        t!(v, 'a, "TaggedExplicit<TaggedExplicit<bool,3>,2>", TaggedExplicit<TaggedExplicit<bool, Error, 3>, Error, 2>; ber der fber fder tany eb ed);
        t!(v, 'a, "TaggedImplicit<u32,1>", TaggedImplicit<u32, Error, 1>; ber der fber fder tany eb ed);
        t!(v, 'a, "TaggedImplicit<&str,2>", TaggedImplicit<&'a str, Error, 2>; ber der fber fder tany eb ed);
        t!(v, 'a, "TaggedImplicit<OctetString,300>", TaggedImplicit<OctetString<'a>, Error, 300>; ber der fber fder tany eb ed);
        t!(v, 'a, "TaggedImplicit<Vec<u8>,4>", TaggedImplicit<Vec<u8>, Error, 4>; ber der fber fder tany eb ed);
        t!(v, 'a, "ApplicationExplicit<bool,5>", ApplicationExplicit<bool, Error, 5>; ber der fber fder tany eb ed);
        t!(v, 'a, "ApplicationImplicit<Integer,6>", ApplicationImplicit<Integer<'a>, Error, 6>; ber der fber fder tany eb ed);
        t!(v, 'a, "PrivateExplicit<Null,7>", PrivateExplicit<Null, Error, 7>; ber der fber fder tany eb ed);
        t!(v, 'a, "PrivateImplicit<Oid,8>", PrivateImplicit<Oid<'a>, Error, 8>; ber der eb ed);
        t!(v, 'a, "Option<TaggedExplicit<u32,1>>", OptTaggedExplicit<u32, Error, 1>; ber der fber fder eb ed);
        t!(v, 'a, "Option<TaggedImplicit<&str,2>>", OptTaggedImplicit<&'a str, Error, 2>; ber der fber fder eb ed);
        t!(v, 'a, "Option<Oid>", Option<Oid<'a>>; ber der fber fder eb ed);
        t!(v, 'a, "Option<Any>", Option<Any<'a>>; ber der fber fder eb ed);
        t!(v, 'a, "Vec<TaggedExplicit<u32,1>>", Vec<TaggedExplicit<u32, Error, 1>>; ber der fber fder tany eb ed);
        t!(v, 'a, "BTreeSet<String>", BTreeSet<String>; ber der fber fder tany eb ed);
        t!(v, 'a, "TaggedParser<Explicit,u32>", TaggedParser<'a, Explicit, u32>; fber fder ebf edf);
        t!(v, 'a, "TaggedParser<Implicit,Vec<u8>>", TaggedParser<'a, Implicit, Vec<u8>>; fber ebf edf);
        t!(v, 'a, "TaggedParser<Implicit,OctetString>", TaggedParser<'a, Implicit, OctetString<'a>>; fber fder ebf edf);
        t!(v, 'a, "TaggedParser<Explicit,&str>", TaggedParser<'a, Explicit, &'a str>; fber fder ebf edf);
        t!(v, 'a, "TaggedParser<Implicit,u32>", TaggedParser<'a, Implicit, u32>; fber fder ebf edf);
        t!(v, 'a, "SBasic", SBasic; ber der eb ed);
        t!(v, 'a, "SOne", SOne; ber der eb ed);
        t!(v, 'a, "SStr", SStr<'a>; ber der eb ed);
        t!(v, 'a, "SOpt", SOpt; ber der eb ed);
        t!(v, 'a, "SOptLast", SOptLast; ber der eb ed);
        t!(v, 'a, "SDef", SDef; ber der eb ed);
        t!(v, 'a, "SExp", SExp; ber der eb ed);
        t!(v, 'a, "SImp", SImp<'a>; ber der eb ed);
        t!(v, 'a, "SExpOpt", SExpOpt; ber der eb ed);
        t!(v, 'a, "SImpOpt", SImpOpt<'a>; ber der eb ed);
        t!(v, 'a, "SExpDef", SExpDef; ber der eb ed);
        t!(v, 'a, "SImpDef", SImpDef; ber der eb ed);
        t!(v, 'a, "SNest", SNest; ber der eb ed);
        t!(v, 'a, "SAny", SAny<'a>; ber der eb ed);
        t!(v, 'a, "SVals", SVals<'a>; ber der eb ed);
        t!(v, 'a, "TBasic", TBasic; ber der eb ed);
        t!(v, 'a, "TTag", TTag<'a>; ber der eb ed);
        t!(v, 'a, "SDerOnly", SDerOnly; der edd);
        t!(v, 'a, "SBerOnly", SBerOnly; ber eb);
        t!(v, 'a, "LBasic", LBasic; fber fder tany);
        t!(v, 'a, "LTag", LTag<'a>; fber fder tany);
        t!(v, 'a, "LBer", LBer; fber tany);
        t!(v, 'a, "LBerSet", LBerSet; fber tany);
        t!(v, 'a, "LSet", LSet; fber fder tany);
        t!(v, 'a, "PSeq", PSeq; ber);
        t!(v, 'a, "PSeqD", PSeqD; der);
        t!(v, 'a, "PSet", PSet; ber);
        t!(v, 'a, "PSetD", PSetD; der);
        t!(v, 'a, "CUn", CUn<'a>; ber der eb ed);
        t!(v, 'a, "CEx", CEx; ber der eb ed);
        t!(v, 'a, "CIm", CIm<'a>; ber der eb ed);
        t!(v, 'a, "CPEx", CPEx; ber);
        t!(v, 'a, "CPExD", CPExD; der);
        t!(v, 'a, "CPIm", CPIm; ber);
        t!(v, 'a, "CPImD", CPImD; der);
        t!(v, 'a, "SChoice", SChoice<'a>; ber der eb ed);
        t!(v, 'a, "EGap", EGap; ber der eb ed);
        t!(v, 'a, "ERepr", ERepr; ber der eb ed);
        t!(v, 'a, "AOct", AOct<'a>; ber der eb ed);
        t!(v, 'a, "AInt", AInt; ber der eb ed);
        t!(v, 'a, "AVec", AVec; ber der eb ed);
        t!(v, 'a, "AAny", AAny<'a>; ber der eb ed);
        t!(v, 'a, "LAlias", LAlias<'a>; fber fder tany);
        t!(v, 'a, "PAlias", PAlias; ber);
        t!(v, 'a, "PAliasD", PAliasD; der);
    }
    v
}

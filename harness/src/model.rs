//! Independent reference model of BER/DER (written from X.680/X.690 and the crate's documentation, not from its code).
//! `Val` is a neutral value, `S` a type description, `dec` the reference decoder.
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Bool(bool),
    /// minimal two's complement
    Int(Vec<u8>),
    Null,
    Enum(u32),
    Bytes(Vec<u8>),
    Bits(Vec<bool>),
    /// raw content octets
    Oid(Vec<u8>),
    Str(String),
    Time(Time),
    /// f64 bit pattern (zeros normalised to +0, NaN to one pattern)
    Real(u64),
    Eoc,
    Seq(Vec<Val>),
    /// sorted, deduplicated
    Set(Vec<Val>),
    Opt(Option<Box<Val>>),
    Tagged(u8, u32, Box<Val>),
    Any { class: u8, constructed: bool, tag: u32, content: Vec<u8> },
    Choice(usize, Box<Val>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tz {
    None,
    Z,
    /// signed minutes
    Off(i32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Time {
    pub y: u32,
    pub mo: u8,
    pub d: u8,
    pub h: u8,
    pub mi: u8,
    pub s: u8,
    pub ms: Option<u16>,
    pub tz: Tz,
}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        use crate::ev::hex;
        match self {
            Val::Bool(b) => write!(f, "{b}"),
            Val::Int(v) => write!(f, "Int({})", hex(v)),
            Val::Null => write!(f, "Null"),
            Val::Enum(e) => write!(f, "Enum({e})"),
            Val::Bytes(v) => write!(f, "Bytes({})", hex(v)),
            Val::Bits(v) => {
                write!(f, "Bits({}:", v.len())?;
                for b in v.iter().take(64) {
                    write!(f, "{}", *b as u8)?;
                }
                write!(f, ")")
            }
            Val::Oid(v) => write!(f, "Oid({})", hex(v)),
            Val::Str(s) => write!(f, "Str({:?})", s.chars().take(80).collect::<String>()),
            Val::Time(t) => write!(f, "{t:?}"),
            Val::Real(b) => write!(f, "Real({:e}/{b:016x})", f64::from_bits(*b)),
            Val::Eoc => write!(f, "Eoc"),
            Val::Seq(v) => f.debug_tuple("Seq").field(v).finish(),
            Val::Set(v) => f.debug_tuple("Set").field(v).finish(),
            Val::Opt(v) => write!(f, "Opt({v:?})"),
            Val::Tagged(c, t, v) => write!(f, "[{c}:{t}]{v:?}"),
            Val::Any { class, constructed, tag, content } => {
                write!(f, "Any({class},{},{tag},{})", *constructed as u8, hex(content))
            }
            Val::Choice(i, v) => write!(f, "#{i}({v:?})"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Ber,
    Der,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum StrK {
    Utf8,
    Numeric,
    Printable,
    Teletex,
    Videotex,
    Ia5,
    Graphic,
    Visible,
    General,
    ObjDesc,
    Universal,
    Bmp,
}
impl StrK {
    pub fn tag(self) -> u32 {
        match self {
            StrK::ObjDesc => 7,
            StrK::Utf8 => 12,
            StrK::Numeric => 18,
            StrK::Printable => 19,
            StrK::Teletex => 20,
            StrK::Videotex => 21,
            StrK::Ia5 => 22,
            StrK::Graphic => 25,
            StrK::Visible => 26,
            StrK::General => 27,
            StrK::Universal => 28,
            StrK::Bmp => 30,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IntK {
    /// unbounded
    Big,
    U(u32),
    I(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TagKind {
    Expl,
    Impl,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub s: S,
    pub tag: Option<(TagKind, u8, u32)>,
    pub opt: bool,
    pub default: Option<Val>,
}

#[derive(Clone, Debug)]
pub enum S {
    Bool,
    Int(IntK),
    Null,
    Enumerated,
    BitStr,
    OctStr,
    Oid,
    RelOid,
    /// REAL as f64
    Real,
    /// REAL as f32
    F32,
    Utc,
    Gen,
    Str(StrK),
    /// any object, captured raw
    Any,
    Eoc,
    /// SEQUENCE / SET whose content is kept as raw bytes
    RawSeq,
    RawSet,
    SeqOf(Box<S>),
    Arr(Box<S>, usize),
    /// ordered list under a SET tag
    SetList(Box<S>),
    /// mathematical set (sorted, deduplicated)
    SetSet(Box<S>),
    Tuple(Vec<S>),
    Opt(Box<S>),
    Tag(TagKind, u8, u32, Box<S>),
    /// any tag/class accepted
    AnyTag(TagKind, Box<S>),
    Struct { set: bool, fields: Vec<Field> },
    /// untagged / explicit / implicit alternatives
    Choice(Option<TagKind>, Vec<(u32, S)>),
    EnumT(Vec<u32>),
    /// transparent newtype
    Alias(Box<S>),
    /// EMBEDDED PDV style: not modelled in depth
    Unmodelled,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub class: u8,
    pub constructed: bool,
    pub tag: u32,
    /// None = indefinite
    pub len: Option<usize>,
    pub hl: usize,
    pub nonmin_tag: bool,
    pub nonmin_len: bool,
}

/// Why the reference rejects.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Rej {
    /// input ends before the object does
    Incomplete,
    Bad(&'static str),
    /// the reference has no opinion (documented limits or open points)
    Unspec(&'static str),
}
pub type R<T> = Result<T, Rej>;
fn bad<T>(s: &'static str) -> R<T> {
    Err(Rej::Bad(s))
}

/// Reference parse of identifier and length octets
pub fn header(b: &[u8]) -> R<Hdr> {
    let b0 = *b.first().ok_or(Rej::Incomplete)?;
    let class = b0 >> 6;
    let constructed = b0 & 0x20 != 0;
    let mut tag = (b0 & 0x1f) as u128;
    let mut p = 1;
    let mut nonmin_tag = false;
    if tag == 31 {
        tag = 0;
        let start = p;
        loop {
            let x = match b.get(p) {
                Some(x) => *x,
                // documented by the library's tests: a truncated tag number is an invalid tag, not incomplete input
                None => return bad("tag-truncated"),
            };
            if p == start && x == 0x80 {
                nonmin_tag = true;
            }
            p += 1;
            tag = (tag << 7) | (x & 0x7f) as u128;
            if tag > u32::MAX as u128 {
                return bad("tag-number-overflow");
            }
            // a padded tag number is invalid BER; no opinion on how many padding octets are tolerated
            if p - start > 5 && nonmin_tag {
                return Err(Rej::Unspec("padded tag"));
            }
            if x & 0x80 == 0 {
                break;
            }
        }
        if tag < 31 {
            nonmin_tag = true;
        }
    }
    let l0 = *b.get(p).ok_or(Rej::Incomplete)?;
    p += 1;
    let mut nonmin_len = false;
    let len = if l0 < 0x80 {
        Some(l0 as usize)
    } else if l0 == 0x80 {
        if !constructed {
            return bad("indefinite-primitive");
        }
        None
    } else if l0 == 0xff {
        return bad("length-reserved-ff");
    } else {
        let n = (l0 & 0x7f) as usize;
        if b.len() < p + n {
            return Err(Rej::Incomplete);
        }
        let lb = &b[p..p + n];
        p += n;
        let sig: &[u8] = {
            let z = lb.iter().take_while(|x| **x == 0).count();
            &lb[z..]
        };
        if sig.len() > 8 {
            return bad("length-overflow");
        }
        let mut v = 0u64;
        for x in sig {
            v = (v << 8) | *x as u64;
        }
        nonmin_len = lb[0] == 0 || v < 128;
        Some(v as usize)
    };
    Ok(Hdr { class, constructed, tag: tag as u32, len, hl: p, nonmin_tag, nonmin_len })
}

/// the library documents this nesting limit for indefinite-length objects
pub const MAX_DEPTH: usize = 50;

/// content octets (without EOC) and total size after the header. `depth`: levels still allowed.
pub fn content<'a>(h: &Hdr, b: &'a [u8], depth: usize) -> R<(&'a [u8], usize)> {
    if depth == 0 {
        return bad("max-depth");
    }
    match h.len {
        Some(l) => {
            if b.len() < l {
                return Err(Rej::Incomplete);
            }
            Ok((&b[..l], l))
        }
        None => {
            let mut p = 0;
            loop {
                let rest = &b[p..];
                let ih = header(rest)?;
                if ih.class == 0 && ih.tag == 0 {
                    if rest.len() >= 2 && rest[0] == 0 && rest[1] == 0 {
                        return Ok((&b[..p], p + 2));
                    }
                    // universal tag 0 in any other form (constructed, long tag, long or non-zero length)
                    // is not a legal data value: no opinion
                    return Err(Rej::Unspec("odd end-of-contents"));
                }
                let (_, n) = content(&ih, &rest[ih.hl..], depth - 1)?;
                p += ih.hl + n;
            }
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Cx {
    /// points where both acceptance and rejection are allowed
    pub lenient: Vec<&'static str>,
    /// forbidden by the rules, tolerated by the current tree (reported under these names)
    pub tolerated: Vec<&'static str>,
    /// number of indefinite-length objects met, deepest nesting etc. (coverage)
    pub indefinite: usize,
    pub segmented: usize,
}

pub fn min_int(b: &[u8]) -> Vec<u8> {
    let mut i = 0;
    while i + 1 < b.len() && ((b[i] == 0 && b[i + 1] < 0x80) || (b[i] == 0xff && b[i + 1] >= 0x80)) {
        i += 1;
    }
    b[i..].to_vec()
}

pub fn int_i128(v: i128) -> Vec<u8> {
    min_int(&v.to_be_bytes())
}
pub fn int_u128(v: u128) -> Vec<u8> {
    let mut b = vec![0];
    b.extend_from_slice(&v.to_be_bytes());
    min_int(&b)
}
/// value of a minimal two's complement integer if it fits i128
pub fn int_to_i128(v: &[u8]) -> Option<i128> {
    if v.len() > 16 || v.is_empty() {
        return None;
    }
    let mut b = [if v[0] & 0x80 != 0 { 0xff } else { 0 }; 16];
    b[16 - v.len()..].copy_from_slice(v);
    Some(i128::from_be_bytes(b))
}
pub fn int_to_u128(v: &[u8]) -> Option<u128> {
    if v.is_empty() || v[0] & 0x80 != 0 {
        return None;
    }
    let v = if v[0] == 0 { &v[1..] } else { v };
    if v.len() > 16 {
        return None;
    }
    let mut b = [0u8; 16];
    b[16 - v.len()..].copy_from_slice(v);
    Some(u128::from_be_bytes(b))
}
pub fn int_fits(v: &[u8], k: IntK) -> bool {
    match k {
        IntK::Big => true,
        IntK::U(bits) => match int_to_u128(v) {
            Some(x) => bits == 128 || x < (1u128 << bits),
            None => false,
        },
        IntK::I(bits) => match int_to_i128(v) {
            Some(x) => bits == 128 || (x >= -(1i128 << (bits - 1)) && x < (1i128 << (bits - 1))),
            None => false,
        },
    }
}

/// universal tag numbers of universal-type schemas
pub fn universal_tag(s: &S) -> Option<u32> {
    Some(match s {
        S::Bool => 1,
        S::Int(_) => 2,
        S::BitStr => 3,
        S::OctStr => 4,
        S::Null => 5,
        S::Real | S::F32 => 9,
        S::Enumerated | S::EnumT(_) => 10,
        S::RelOid => 13,
        S::RawSeq | S::SeqOf(_) | S::Arr(..) | S::Tuple(_) => 16,
        S::RawSet | S::SetList(_) | S::SetSet(_) => 17,
        S::Struct { set, .. } => {
            if *set {
                17
            } else {
                16
            }
        }
        S::Utc => 23,
        S::Gen => 24,
        S::Str(k) => k.tag(),
        S::Eoc => 0,
        _ => return None,
    })
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Acc {
    Yes,
    No,
    /// tag number matches but class differs
    ClassOnly,
}

/// Does this type start with this identifier?
pub fn accepts(s: &S, h: &Hdr) -> Acc {
    if let Some(t) = universal_tag(s) {
        return if h.tag != t {
            Acc::No
        } else if h.class != 0 {
            Acc::ClassOnly
        } else {
            Acc::Yes
        };
    }
    match s {
        S::Oid => {
            // OBJECT IDENTIFIER or RELATIVE-OID
            if h.tag != 6 && h.tag != 13 {
                Acc::No
            } else if h.class != 0 {
                Acc::ClassOnly
            } else {
                Acc::Yes
            }
        }
        S::Any | S::AnyTag(..) => Acc::Yes,
        S::Opt(i) | S::Alias(i) => accepts(i, h),
        S::Tag(_, c, t, _) => {
            if h.tag != *t {
                Acc::No
            } else if h.class != *c {
                Acc::ClassOnly
            } else {
                Acc::Yes
            }
        }
        S::Choice(None, alts) => {
            let mut r = Acc::No;
            for (_, a) in alts {
                match accepts(a, h) {
                    Acc::Yes => return Acc::Yes,
                    Acc::ClassOnly => r = Acc::ClassOnly,
                    Acc::No => {}
                }
            }
            r
        }
        S::Choice(Some(_), alts) => {
            if !alts.iter().any(|(t, _)| *t == h.tag) {
                Acc::No
            } else if h.class != 2 {
                Acc::ClassOnly
            } else {
                Acc::Yes
            }
        }
        S::Unmodelled => Acc::Yes,
        _ => unreachable!(),
    }
}

/// Reference decode of one value of type `s` at the start of `b`: value and number of octets consumed.
pub fn dec(s: &S, m: Mode, b: &[u8], cx: &mut Cx) -> R<(Val, usize)> {
    if let S::Opt(inner) = s {
        if b.is_empty() {
            return Ok((Val::Opt(None), 0));
        }
        let h = header(b)?;
        return match accepts(inner, &h) {
            Acc::No | Acc::ClassOnly => {
                // an unusable header (e.g. indefinite in DER) in front of an absent optional: no opinion
                if m == Mode::Der && h.len.is_none() {
                    return Err(Rej::Unspec("indefinite header after absent optional"));
                }
                Ok((Val::Opt(None), 0))
            }
            Acc::Yes => {
                let (v, n) = dec(inner, m, b, cx)?;
                Ok((Val::Opt(Some(Box::new(v))), n))
            }
        };
    }
    let h = header(b)?;
    if m == Mode::Der && h.len.is_none() {
        return bad("der-indefinite");
    }
    match accepts(s, &h) {
        Acc::Yes => {}
        Acc::No => return bad("tag"),
        Acc::ClassOnly => match s {
            S::Tag(_, 1.., ..) => return bad("class-tagged"),
            S::Choice(..) => return bad("class-choice"),
            _ => return bad("class"),
        },
    }
    note_header(&h, m, cx);
    let (c, n) = content(&h, &b[h.hl..], MAX_DEPTH)?;
    let v = dec_content(s, m, &h, c, cx)?;
    Ok((v, h.hl + n))
}

fn note_header(h: &Hdr, m: Mode, cx: &mut Cx) {
    match m {
        Mode::Der => {
            if h.nonmin_len {
                cx.tolerated.push("der-nonminimal-length");
            }
            if h.nonmin_tag {
                cx.tolerated.push("der-nonminimal-tag");
            }
        }
        Mode::Ber => {
            if h.nonmin_tag {
                cx.lenient.push("ber-nonminimal-tag");
            }
        }
    }
    if h.len.is_none() {
        cx.indefinite += 1;
    }
}

fn utf8(b: &[u8]) -> R<String> {
    String::from_utf8(b.to_vec()).map_err(|_| Rej::Bad("charset"))
}

/// Concatenate the segments of a constructed OCTET STRING-like value.
pub fn segments(b: &[u8], depth: usize, indefinite: bool, cx: &mut Cx) -> R<Vec<u8>> {
    if depth == 0 || (depth == 1 && !b.is_empty()) {
        return Err(Rej::Unspec("segment depth"));
    }
    cx.segmented += 1;
    let mut out = Vec::new();
    let mut p = 0;
    while p < b.len() {
        let rest = &b[p..];
        let h = header(rest).map_err(|e| if e == Rej::Incomplete { Rej::Bad("segment-truncated") } else { e })?;
        note_header(&h, Mode::Ber, cx);
        if h.class != 0 || h.tag != 4 {
            if h.class == 0 && h.tag == 0 && indefinite {
                return Err(Rej::Unspec("odd end-of-contents"));
            }
            return bad(if h.tag == 4 { "segment-class" } else { "segment-type" });
        }
        let (c, n) = content(&h, &rest[h.hl..], depth).map_err(|e| match e {
            Rej::Incomplete => Rej::Bad("segment-truncated"),
            Rej::Bad("max-depth") => Rej::Unspec("segment depth"),
            e => e,
        })?;
        if h.constructed {
            out.extend(segments(c, depth - 1, h.len.is_none(), cx)?);
        } else {
            out.extend_from_slice(c);
        }
        p += h.hl + n;
    }
    Ok(out)
}

pub const SEG_DEPTH: usize = 5;

fn octets(m: Mode, h: &Hdr, c: &[u8], cx: &mut Cx) -> R<Vec<u8>> {
    if h.constructed {
        if m == Mode::Der {
            return bad("der-constructed-string");
        }
        segments(c, SEG_DEPTH, h.len.is_none(), cx)
    } else {
        Ok(c.to_vec())
    }
}

fn bits(m: Mode, h: &Hdr, c: &[u8], depth: usize, cx: &mut Cx) -> R<Vec<bool>> {
    if !h.constructed {
        let unused = *c.first().ok_or(Rej::Bad("bitstring-empty"))?;
        if unused > 7 {
            return bad("bitstring-unused");
        }
        let data = &c[1..];
        if data.is_empty() && unused != 0 {
            return bad("bitstring-unused");
        }
        let n = data.len() * 8 - unused as usize;
        let all: Vec<bool> = data.iter().flat_map(|x| (0..8).map(move |i| x & (0x80 >> i) != 0)).collect();
        if m == Mode::Der && all[n..].iter().any(|b| *b) {
            return bad("der-bitstring-padding");
        }
        return Ok(all[..n].to_vec());
    }
    if m == Mode::Der {
        return bad("der-constructed-string");
    }
    if depth == 0 || (depth == 1 && !c.is_empty()) {
        return Err(Rej::Unspec("segment depth"));
    }
    cx.segmented += 1;
    let mut out: Vec<bool> = Vec::new();
    let mut p = 0;
    let mut open = true;
    while p < c.len() {
        let rest = &c[p..];
        let ih = header(rest).map_err(|e| if e == Rej::Incomplete { Rej::Bad("segment-truncated") } else { e })?;
        note_header(&ih, Mode::Ber, cx);
        if ih.class != 0 || ih.tag != 3 {
            if ih.class == 0 && ih.tag == 0 && h.len.is_none() {
                return Err(Rej::Unspec("odd end-of-contents"));
            }
            return bad(if ih.tag == 3 { "segment-class" } else { "segment-type" });
        }
        let (ic, n) = content(&ih, &rest[ih.hl..], depth).map_err(|e| match e {
            Rej::Incomplete => Rej::Bad("segment-truncated"),
            Rej::Bad("max-depth") => Rej::Unspec("segment depth"),
            e => e,
        })?;
        let seg = bits(m, &ih, ic, depth - 1, cx)?;
        if !open && !(seg.is_empty()) {
            // X.690 8.6.4: only the last segment may have unused bits
            return bad("bitstring-inner-unused");
        }
        if !open {
            cx.lenient.push("empty segment after partial segment");
        }
        open = open && seg.len() % 8 == 0;
        out.extend(seg);
        p += ih.hl + n;
    }
    Ok(out)
}

fn prim(h: &Hdr) -> R<()> {
    if h.constructed {
        bad("must-be-primitive")
    } else {
        Ok(())
    }
}
fn cons(h: &Hdr) -> R<()> {
    if h.constructed {
        Ok(())
    } else {
        bad("must-be-constructed")
    }
}

pub fn elements(inner: &S, m: Mode, c: &[u8], cx: &mut Cx) -> R<Vec<Val>> {
    let mut p = 0;
    let mut v = vec![];
    while p < c.len() {
        let (x, n) = dec(inner, m, &c[p..], cx).map_err(inner_rej)?;
        if n == 0 {
            return Err(Rej::Unspec("empty element"));
        }
        v.push(x);
        p += n;
    }
    Ok(v)
}
fn inner_rej(e: Rej) -> Rej {
    if e == Rej::Incomplete {
        Rej::Bad("inner-truncated")
    } else {
        e
    }
}

pub fn sorted_set(mut v: Vec<Val>) -> Vec<Val> {
    v.sort();
    v.dedup();
    v
}

pub fn dec_content(s: &S, m: Mode, h: &Hdr, c: &[u8], cx: &mut Cx) -> R<Val> {
    Ok(match s {
        S::Bool => {
            prim(h)?;
            if c.len() != 1 {
                return bad("bool-length");
            }
            if m == Mode::Der && c[0] != 0 && c[0] != 0xff {
                return bad("der-bool");
            }
            Val::Bool(c[0] != 0)
        }
        S::Int(k) => {
            prim(h)?;
            if c.is_empty() {
                return bad("int-empty");
            }
            let v = min_int(c);
            if v.len() != c.len() {
                if m == Mode::Der {
                    return bad("der-int-nonminimal");
                }
                cx.lenient.push("ber-int-nonminimal");
            }
            if !int_fits(&v, *k) {
                return bad("int-range");
            }
            Val::Int(v)
        }
        S::Null => {
            prim(h)?;
            if !c.is_empty() {
                return bad("null-length");
            }
            Val::Null
        }
        S::Enumerated | S::EnumT(_) => {
            prim(h)?;
            if c.is_empty() {
                return bad("int-empty");
            }
            let v = min_int(c);
            if v.len() != c.len() {
                if m == Mode::Der {
                    return bad("der-int-nonminimal");
                }
                cx.lenient.push("ber-int-nonminimal");
            }
            // the library represents ENUMERATED as u32
            let x = match int_to_u128(&v) {
                Some(x) if x <= u32::MAX as u128 => x as u32,
                _ => return bad("int-range"),
            };
            if let S::EnumT(vs) = s {
                if !vs.contains(&x) {
                    return bad("enum-unknown");
                }
            }
            Val::Enum(x)
        }
        S::BitStr => Val::Bits(bits(m, h, c, SEG_DEPTH, cx)?),
        S::OctStr => Val::Bytes(octets(m, h, c, cx)?),
        S::Oid | S::RelOid => {
            prim(h)?;
            let relative = h.class == 0 && h.tag == 13;
            if c.is_empty() {
                cx.lenient.push("oid-empty");
            } else if c[c.len() - 1] & 0x80 != 0 {
                cx.lenient.push("oid-truncated-arc");
            } else if c.iter().enumerate().any(|(i, x)| *x == 0x80 && (i == 0 || c[i - 1] & 0x80 == 0)) {
                cx.lenient.push("oid-padded-arc");
            }
            // the relative form is a different value with its own tag
            let v = Val::Oid(c.to_vec());
            if relative {
                Val::Choice(1, Box::new(v))
            } else {
                v
            }
        }
        S::Real => {
            prim(h)?;
            real(m, c, cx)?
        }
        S::F32 => {
            prim(h)?;
            match real(m, c, cx)? {
                Val::Real(b) => Val::Real(norm_f64(f64::from_bits(b) as f32 as f64)),
                v => v,
            }
        }
        S::Utc => {
            if h.constructed {
                if m == Mode::Der {
                    return bad("der-constructed-string");
                }
                return Err(Rej::Unspec("constructed time"));
            }
            Val::Time(utctime(m, c, cx)?)
        }
        S::Gen => {
            if h.constructed {
                if m == Mode::Der {
                    return bad("der-constructed-string");
                }
                return Err(Rej::Unspec("constructed time"));
            }
            Val::Time(gentime(m, c, cx)?)
        }
        S::Str(k) => {
            let b = octets(m, h, c, cx)?;
            Val::Str(string(*k, &b, cx)?)
        }
        S::Any => Val::Any { class: h.class, constructed: h.constructed, tag: h.tag, content: c.to_vec() },
        S::Eoc => {
            if !c.is_empty() {
                return bad("eoc-length");
            }
            if h.constructed {
                cx.lenient.push("constructed eoc");
            }
            Val::Eoc
        }
        S::RawSeq | S::RawSet => {
            cons(h)?;
            Val::Bytes(c.to_vec())
        }
        S::SeqOf(i) => {
            cons(h)?;
            Val::Seq(elements(i, m, c, cx)?)
        }
        S::SetList(i) => {
            cons(h)?;
            Val::Seq(elements(i, m, c, cx)?)
        }
        S::SetSet(i) => {
            cons(h)?;
            Val::Set(sorted_set(elements(i, m, c, cx)?))
        }
        S::Arr(i, n) => {
            cons(h)?;
            let v = elements(i, m, c, cx)?;
            if v.len() != *n {
                return bad("array-count");
            }
            Val::Seq(v)
        }
        S::Tuple(ts) => {
            cons(h)?;
            let mut p = 0;
            let mut v = vec![];
            for t in ts {
                let (x, n) = dec(t, m, &c[p..], cx).map_err(inner_rej)?;
                v.push(x);
                p += n;
            }
            if p != c.len() {
                cx.lenient.push("extra elements");
            }
            Val::Seq(v)
        }
        S::Opt(i) => Val::Opt(Some(Box::new(dec_content(i, m, h, c, cx)?))),
        S::Alias(i) => dec_content(i, m, h, c, cx)?,
        S::Tag(k, _, _, i) | S::AnyTag(k, i) => {
            let v = match k {
                TagKind::Expl => {
                    cons(h)?;
                    explicit_inner(i, m, c, cx)?
                }
                TagKind::Impl => dec_content(i, m, h, c, cx)?,
            };
            Val::Tagged(h.class, h.tag, Box::new(v))
        }
        S::Struct { fields, .. } => {
            cons(h)?;
            let mut p = 0;
            let mut v = vec![];
            for f in fields {
                let (x, n) = field(f, m, &c[p..], cx).map_err(inner_rej)?;
                v.push(x);
                p += n;
            }
            // documented: trailing elements are ignored
            Val::Seq(v)
        }
        S::Choice(None, alts) => {
            for (i, (_, a)) in alts.iter().enumerate() {
                if accepts(a, h) == Acc::Yes {
                    return Ok(Val::Choice(i, Box::new(dec_content(a, m, h, c, cx)?)));
                }
            }
            return bad("tag");
        }
        S::Choice(Some(k), alts) => {
            let i = match alts.iter().position(|(t, _)| *t == h.tag) {
                Some(i) => i,
                None => return bad("tag"),
            };
            let a = &alts[i].1;
            let v = match k {
                TagKind::Expl => {
                    cons(h)?;
                    explicit_inner(a, m, c, cx)?
                }
                TagKind::Impl => dec_content(a, m, h, c, cx)?,
            };
            Val::Choice(i, Box::new(v))
        }
        S::Unmodelled => return Err(Rej::Unspec("unmodelled")),
    })
}

fn explicit_inner(i: &S, m: Mode, c: &[u8], cx: &mut Cx) -> R<Val> {
    let (v, n) = dec(i, m, c, cx).map_err(inner_rej)?;
    if n != c.len() {
        // more than one object under an EXPLICIT tag is not an encoding of the type; the library is silent on it
        cx.lenient.push("extra data in explicit");
    }
    Ok(v)
}

fn field(f: &Field, m: Mode, b: &[u8], cx: &mut Cx) -> R<(Val, usize)> {
    let wrap = |v: Val| {
        if f.default.is_some() {
            v
        } else if f.opt {
            match v {
                Val::Opt(_) => v,
                v => Val::Opt(Some(Box::new(v))),
            }
        } else {
            v
        }
    };
    let absent = || match &f.default {
        Some(d) => d.clone(),
        None => Val::Opt(None),
    };
    if f.opt {
        if b.is_empty() {
            return Ok((absent(), 0));
        }
        let h = header(b)?;
        let acc = match &f.tag {
            Some((_, c, t)) => {
                if h.tag != *t {
                    Acc::No
                } else if h.class != *c {
                    Acc::ClassOnly
                } else {
                    Acc::Yes
                }
            }
            None => accepts(&f.s, &h),
        };
        match acc {
            Acc::No | Acc::ClassOnly => {
                if m == Mode::Der && h.len.is_none() {
                    return Err(Rej::Unspec("indefinite header after absent optional"));
                }
                return Ok((absent(), 0));
            }
            Acc::Yes => {}
        }
    }
    match &f.tag {
        None => {
            let (v, n) = dec(&f.s, m, b, cx)?;
            Ok((wrap(v), n))
        }
        Some((k, c, t)) => {
            let s = S::Tag(*k, *c, *t, Box::new(f.s.clone()));
            let (v, n) = dec(&s, m, b, cx)?;
            match v {
                Val::Tagged(_, _, v) => Ok((wrap(*v), n)),
                _ => unreachable!(),
            }
        }
    }
}

pub fn string(k: StrK, b: &[u8], cx: &mut Cx) -> R<String> {
    let ok = |f: &dyn Fn(u8) -> bool| -> R<String> {
        if b.iter().all(|x| f(*x)) {
            utf8(b)
        } else {
            bad("charset")
        }
    };
    match k {
        StrK::Utf8 => utf8(b),
        StrK::Numeric => ok(&|x| x.is_ascii_digit() || x == b' '),
        StrK::Printable => ok(&|x| x.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(&x)),
        StrK::Ia5 => ok(&|x| x < 0x80),
        StrK::Visible => {
            if b.contains(&0x7f) {
                cx.lenient.push("visible-del");
            }
            ok(&|x| (0x20..=0x7f).contains(&x))
        }
        // large or registered repertoires: the library keeps only what UTF-8 can show; no opinion outside ASCII printable
        StrK::Teletex | StrK::Videotex | StrK::Graphic | StrK::General | StrK::ObjDesc => {
            if !b.iter().all(|x| (0x20..0x7f).contains(x)) {
                cx.lenient.push("open repertoire");
            }
            match String::from_utf8(b.to_vec()) {
                Ok(s) => Ok(s),
                Err(_) => Err(Rej::Unspec("open repertoire")),
            }
        }
        StrK::Universal => {
            if b.len() % 4 != 0 {
                return bad("charset");
            }
            b.chunks(4)
                .map(|c| char::from_u32(u32::from_be_bytes([c[0], c[1], c[2], c[3]])))
                .collect::<Option<String>>()
                .ok_or(Rej::Bad("charset"))
        }
        StrK::Bmp => {
            if b.len() % 2 != 0 {
                return bad("charset");
            }
            let u: Vec<u16> = b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
            if u.iter().any(|x| (0xd800..0xe000).contains(x)) {
                // BMPString is the basic plane; the library documents UTF-16 (surrogate pairs)
                cx.lenient.push("bmp surrogates");
            }
            String::from_utf16(&u).map_err(|_| Rej::Bad("charset"))
        }
    }
}

fn d2(b: &[u8]) -> Option<u32> {
    if b.len() == 2 && b[0].is_ascii_digit() && b[1].is_ascii_digit() {
        Some((b[0] - b'0') as u32 * 10 + (b[1] - b'0') as u32)
    } else {
        None
    }
}
pub fn days_in_month(y: u32, m: u8) -> u8 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => {
            if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 {
                29
            } else {
                28
            }
        }
        _ => 0,
    }
}

fn parse_tz(b: &[u8], cx: &mut Cx) -> R<Tz> {
    match b {
        b"Z" => Ok(Tz::Z),
        [s @ (b'+' | b'-'), r @ ..] if r.len() == 4 => {
            let h = d2(&r[..2]).ok_or(Rej::Bad("time-syntax"))?;
            let m = d2(&r[2..]).ok_or(Rej::Bad("time-syntax"))?;
            if h > 23 || m > 59 {
                cx.lenient.push("offset range");
            }
            let t = (h * 60 + m) as i32;
            Ok(Tz::Off(if *s == b'+' { t } else { -t }))
        }
        [b'+' | b'-', _, _] => Err(Rej::Unspec("hour-only offset")),
        _ => bad("time-syntax"),
    }
}

fn calendar(t: &Time, cx: &mut Cx, two_digit_year: bool) -> R<()> {
    if t.mo > 12 || t.d > 31 || t.h > 23 || t.mi > 59 || t.s > 59 {
        return bad("time-range");
    }
    if t.mo == 0 || t.d == 0 {
        return bad("time-range");
    }
    let dim = if two_digit_year && t.mo == 2 { 29 } else { days_in_month(t.y, t.mo) };
    if t.d > dim {
        cx.lenient.push("calendar validity");
    }
    Ok(())
}

pub fn utctime(m: Mode, b: &[u8], cx: &mut Cx) -> R<Time> {
    if b.len() < 10 {
        return bad("time-syntax");
    }
    let mut n = [0u32; 5];
    for i in 0..5 {
        n[i] = d2(&b[2 * i..2 * i + 2]).ok_or(Rej::Bad("time-syntax"))?;
    }
    let mut r = &b[10..];
    let mut s = 0;
    if r.len() >= 2 && r[0].is_ascii_digit() {
        s = d2(&r[..2]).ok_or(Rej::Bad("time-syntax"))?;
        r = &r[2..];
    } else if m == Mode::Der {
        cx.tolerated.push("der-utctime-no-seconds");
    }
    let tz = parse_tz(r, cx)?;
    if m == Mode::Der && tz != Tz::Z {
        cx.tolerated.push("der-utctime-offset");
    }
    let t = Time { y: n[0], mo: n[1] as u8, d: n[2] as u8, h: n[3] as u8, mi: n[4] as u8, s: s as u8, ms: None, tz };
    calendar(&t, cx, true)?;
    Ok(t)
}

pub fn gentime(m: Mode, b: &[u8], cx: &mut Cx) -> R<Time> {
    if b.len() < 10 {
        return bad("time-syntax");
    }
    let mut n = [0u32; 5];
    for i in 0..5 {
        n[i] = d2(&b[2 * i..2 * i + 2]).ok_or(Rej::Bad("time-syntax"))?;
    }
    let mut r = &b[10..];
    let y = n[0] * 100 + n[1];
    // X.680 allows hours, hours+minutes, or hours+minutes+seconds
    let mut mi = 0;
    let mut s = 0;
    if r.len() >= 2 && r[0].is_ascii_digit() {
        mi = d2(&r[..2]).ok_or(Rej::Bad("time-syntax"))?;
        r = &r[2..];
        if r.len() >= 2 && r[0].is_ascii_digit() {
            s = d2(&r[..2]).ok_or(Rej::Bad("time-syntax"))?;
            r = &r[2..];
        } else {
            if m == Mode::Der {
                cx.tolerated.push("der-gentime-no-seconds");
            }
            if matches!(r, [b'.' | b',', ..]) {
                return Err(Rej::Unspec("fraction of a minute"));
            }
            cx.lenient.push("generalized time without seconds");
        }
    } else {
        if matches!(r, [b'.' | b',', ..]) {
            return Err(Rej::Unspec("fraction of an hour"));
        }
        cx.lenient.push("generalized time without minutes");
    }
    let mut ms = None;
    if let [sep @ (b'.' | b','), rest @ ..] = r {
        if m == Mode::Der && *sep == b',' {
            return bad("der-gentime-comma");
        }
        let k = rest.iter().take_while(|x| x.is_ascii_digit()).count();
        if k == 0 {
            return bad("time-syntax");
        }
        let ds = &rest[..k];
        if m == Mode::Der && ds[k - 1] == b'0' {
            cx.tolerated.push("der-gentime-trailing-zero");
        }
        r = &rest[k..];
        if k > 3 {
            // finer than milliseconds: not representable
            return bad("time-fraction-not-representable");
        }
        let mut v = 0u16;
        for i in 0..3 {
            v = v * 10 + if i < k { (ds[i] - b'0') as u16 } else { 0 };
        }
        ms = Some(v);
    }
    let tz = if r.is_empty() { Tz::None } else { parse_tz(r, cx)? };
    if m == Mode::Der && tz != Tz::Z {
        return bad("der-gentime-no-z");
    }
    let t = Time { y, mo: n[2] as u8, d: n[3] as u8, h: n[4] as u8, mi: mi as u8, s: s as u8, ms, tz };
    calendar(&t, cx, false)?;
    Ok(t)
}

pub fn norm_f64(x: f64) -> u64 {
    if x.is_nan() {
        f64::NAN.to_bits()
    } else if x == 0.0 {
        0
    } else {
        x.to_bits()
    }
}

/// Exact dyadic value sign * n * 2^e rounded to nearest f64 (ties to even).
pub fn dyadic_to_f64(neg: bool, n: u128, e: i64) -> f64 {
    if n == 0 {
        return 0.0;
    }
    let bl = 128 - n.leading_zeros() as i64; // bit length
    // value in [2^(bl-1+e), 2^(bl+e))
    let top = bl - 1 + e;
    if top > 1023 {
        return if neg { f64::NEG_INFINITY } else { f64::INFINITY };
    }
    // lsb exponent of the result
    let lsb = (top - 52).max(-1074);
    let shift = lsb - e; // drop this many bits of n
    let mut m: u128;
    if shift <= 0 {
        m = n << (-shift) as u32; // fits: bl - shift <= 53
    } else if shift > 129 {
        m = 0;
    } else {
        let sh = shift as u32;
        let (q, rem, half) = if sh >= 128 {
            (0, n, if sh == 128 { 1u128 << 127 } else { u128::MAX })
        } else {
            (n >> sh, n & ((1u128 << sh) - 1), 1u128 << (sh - 1))
        };
        m = q;
        let above = if sh > 128 { false } else { rem > half || (rem == half && q & 1 == 1) };
        if above {
            m += 1;
        }
    }
    // m * 2^lsb, m <= 2^53
    let r = if m >= 1 << 53 {
        m >>= 1;
        build(m as u64, lsb + 1)
    } else {
        build(m as u64, lsb)
    };
    if neg {
        -r
    } else {
        r
    }
}
/// the nearest number of at most 53 significant bits (ties to even)
fn round53(n: u128) -> u128 {
    let bl = 128 - n.leading_zeros();
    if bl <= 53 {
        return n;
    }
    let sh = bl - 53;
    let (q, rem, half) = (n >> sh, n & ((1 << sh) - 1), 1u128 << (sh - 1));
    (q + (rem > half || rem == half && q & 1 == 1) as u128) << sh
}
fn build(m: u64, lsb: i64) -> f64 {
    // m < 2^53, value m*2^lsb with lsb>=-1074
    if m == 0 {
        return 0.0;
    }
    if m < 1 << 52 {
        // subnormal (lsb == -1074) or exact small
        debug_assert!(lsb == -1074);
        return f64::from_bits(m);
    }
    let e = lsb + 52 + 1023;
    if e > 2046 {
        return f64::INFINITY;
    }
    f64::from_bits(((e as u64) << 52) | (m & ((1 << 52) - 1)))
}

pub fn real(m: Mode, c: &[u8], cx: &mut Cx) -> R<Val> {
    let v = |x: f64| Ok(Val::Real(norm_f64(x)));
    let b0 = match c.first() {
        None => return v(0.0),
        Some(b) => *b,
    };
    if b0 & 0x80 != 0 {
        let neg = b0 & 0x40 != 0;
        let base_bits = match (b0 >> 4) & 3 {
            0 => 1,
            1 => 3,
            2 => 4,
            _ => return bad("real-reserved-base"),
        };
        let scale = ((b0 >> 2) & 3) as i64;
        let (el, off) = match b0 & 3 {
            0 => (1usize, 1usize),
            1 => (2, 1),
            2 => (3, 1),
            _ => match c.get(1) {
                Some(n) => (*n as usize, 2),
                None => return bad("real-truncated"),
            },
        };
        if el == 0 || c.len() < off + el {
            return bad("real-truncated");
        }
        let eb = &c[off..off + el];
        let mb = &c[off + el..];
        if mb.is_empty() {
            return Err(Rej::Unspec("real-empty-mantissa"));
        }
        let e = match int_to_i128(&min_int(eb)) {
            Some(e) if e.abs() < 1 << 24 => e as i64,
            _ => return Err(Rej::Unspec("real-huge-exponent")),
        };
        let sig: &[u8] = &mb[mb.iter().take_while(|x| **x == 0).count()..];
        if sig.len() > 8 {
            return Err(Rej::Unspec("real-huge-mantissa"));
        }
        if mb.len() > 8 {
            cx.lenient.push("real-padded-mantissa");
        }
        let mut n = 0u128;
        for x in sig {
            n = (n << 8) | *x as u128;
        }
        if n == 0 {
            // zero is encoded by empty content
            cx.lenient.push("real-zero-mantissa");
        }
        if m == Mode::Der {
            // canonical forms are judged by the encoder property; decoding is tolerant
            cx.lenient.push("der-real-form");
        }
        if b0 & 3 == 3 {
            cx.lenient.push("real-long-exponent-form");
        }
        // results outside the f64 range or precision: the library may reject or round, value fixed by rounding
        // (the library documents that it holds the mantissa as a double: more than 53 bits are rounded first)
        let x = dyadic_to_f64(neg, round53(n), e * base_bits + scale);
        if n != 0 && (x == 0.0 || x.is_infinite()) {
            return Err(Rej::Unspec("real-out-of-range"));
        }
        v(x)
    } else if b0 & 0x40 != 0 {
        if c.len() > 1 {
            cx.lenient.push("special with trailing octets");
        }
        match b0 {
            0x40 => v(f64::INFINITY),
            0x41 => v(f64::NEG_INFINITY),
            0x42 => v(f64::NAN),
            0x43 => Err(Rej::Unspec("minus-zero")),
            _ => bad("real-special"),
        }
    } else {
        // decimal forms NR1..NR3
        let form = b0 & 0x3f;
        if form == 0 || form > 3 {
            return Err(Rej::Unspec("real-decimal-form"));
        }
        let t = std::str::from_utf8(&c[1..]).map_err(|_| Rej::Bad("real-decimal-syntax"))?;
        if b0 > 3 || t.contains([',', ' ']) {
            return Err(Rej::Unspec("real-decimal-form"));
        }
        if !t.bytes().all(|x| x.is_ascii_digit() || b"+-.Ee".contains(&x)) {
            return bad("real-decimal-syntax");
        }
        let Ok(x) = t.parse::<f64>() else { return bad("real-decimal-syntax") };
        let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
        let u = t.strip_prefix(['+', '-']).unwrap_or(t);
        let nr2 = |u: &str| u.split_once('.').is_some_and(|(a, b)| digits(a) && digits(b));
        let strict = match form {
            1 => digits(u),
            2 => nr2(u),
            _ => u.split_once('E').is_some_and(|(m, e)| (digits(m) || nr2(m) || m.strip_suffix('.').is_some_and(digits)) && digits(e.strip_prefix(['+', '-']).unwrap_or(e))),
        };
        if form == 1 && !digits(u) {
            return bad("real-decimal-syntax");
        }
        if x.is_infinite() || (x == 0.0 && u.bytes().any(|c| (b'1'..=b'9').contains(&c))) {
            return Err(Rej::Unspec("real-out-of-range"));
        }
        if !strict {
            cx.lenient.push("real-decimal-form");
        }
        cx.lenient.push("der-real-decimal");
        let _ = m;
        v(x)
    }
}

/// The same instant in UTC (years of UTCTime are 1950 to 2049). `None` when there is no such value.
pub fn utc_time(t: &Time, utc: bool) -> Option<Time> {
    let mut o = t.clone();
    o.tz = Tz::Z;
    if o.ms == Some(0) {
        o.ms = None;
    }
    let Tz::Off(off) = t.tz else { return Some(o) };
    let y = t.y as i64 + if !utc { 0 } else if t.y < 50 { 2000 } else { 1900 };
    if t.mo == 0 || t.mo > 12 || t.d == 0 || t.d > days_in_month(y as u32, t.mo) {
        return None;
    }
    // days since 0000-03-01, by the civil calendar algorithm
    let (yy, mm) = if t.mo > 2 { (y, t.mo as i64 - 3) } else { (y - 1, t.mo as i64 + 9) };
    let days = yy * 365 + yy.div_euclid(4) - yy.div_euclid(100) + yy.div_euclid(400) + (mm * 306 + 5) / 10 + t.d as i64 - 1;
    let min = days * 1440 + t.h as i64 * 60 + t.mi as i64 - off as i64;
    let (days, min) = (min.div_euclid(1440), min.rem_euclid(1440));
    let era = days.div_euclid(146097);
    let doe = days.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    o.d = (doy - (153 * mp + 2) / 5 + 1) as u8;
    o.mo = if mp < 10 { mp + 3 } else { mp - 9 } as u8;
    let y = yoe + era * 400 + if o.mo <= 2 { 1 } else { 0 };
    o.h = (min / 60) as u8;
    o.mi = (min % 60) as u8;
    o.y = if utc {
        if !(1950..=2049).contains(&y) {
            return None;
        }
        (y % 100) as u32
    } else {
        if !(0..=9999).contains(&y) {
            return None;
        }
        y as u32
    };
    Some(o)
}

/// The value that an encoder writes: times in UTC. `None` when it has no encoding.
pub fn utc_val(s: &S, v: &Val) -> Option<Val> {
    fn go(v: &Val, utc: bool) -> Option<Val> {
        Some(match v {
            Val::Time(t) => Val::Time(utc_time(t, utc)?),
            Val::Seq(x) => Val::Seq(x.iter().map(|v| go(v, utc)).collect::<Option<_>>()?),
            Val::Set(x) => Val::Set(x.iter().map(|v| go(v, utc)).collect::<Option<_>>()?),
            Val::Opt(Some(x)) => Val::Opt(Some(Box::new(go(x, utc)?))),
            Val::Tagged(c, t, x) => Val::Tagged(*c, *t, Box::new(go(x, utc)?)),
            Val::Choice(i, x) => Val::Choice(*i, Box::new(go(x, utc)?)),
            v => v.clone(),
        })
    }
    fn has(v: &Val) -> bool {
        match v {
            Val::Time(_) => true,
            Val::Seq(x) | Val::Set(x) => x.iter().any(has),
            Val::Opt(Some(x)) | Val::Tagged(_, _, x) | Val::Choice(_, x) => has(x),
            _ => false,
        }
    }
    if !has(v) {
        return Some(v.clone());
    }
    go(v, format!("{s:?}").contains("Utc"))
}

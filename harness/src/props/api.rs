//! Constructors, conversions and accessors of the value types, called directly and compared with the model.
use super::*;
use asn1_rs::*;
use std::fmt::Debug;

/// Call `f` under the panic guard and compare with what the model says.
pub fn eq<T: PartialEq + Debug>(c: &mut Ctx, what: &str, input: &[u8], want: T, f: impl FnOnce() -> T) -> bool {
    c.checks += 1;
    match guard(f) {
        Ok(got) if got == want => true,
        Ok(got) => {
            c.viol(format!("api:{what}"), format!("is {got:?}, expected {want:?}"), input);
            false
        }
        Err(p) => {
            c.viol(format!("api-panic:{what}"), p, input);
            false
        }
    }
}
/// `f` under the panic guard; None (and a verdict) when it panics
pub fn run<T>(c: &mut Ctx, what: &str, input: &[u8], f: impl FnOnce() -> T) -> Option<T> {
    c.checks += 1;
    match guard(f) {
        Ok(v) => Some(v),
        Err(p) => {
            c.viol(format!("api-panic:{what}"), p, input);
            None
        }
    }
}
pub fn start(c: &mut Ctx, what: &str, input: &[u8]) {
    c.case(&format!("api/{what}"), input);
    c.distinct(what, input);
    c.hit(&format!("api-{what}"));
}

// ---------------------------------------------------------------------------------------------------- integers

fn content_of(der: &[u8]) -> (u8, Vec<u8>) {
    match header(der) {
        Ok(h) if h.len == Some(der.len() - h.hl) => (der[0], der[h.hl..].to_vec()),
        _ => (0xff, der.to_vec()),
    }
}

macro_rules! int_to {
    ($c:ident, $b:ident, $x:ident, $($t:ty, $k:expr, $as:ident;)*) => {$(
        let want = if int_fits(&$x, $k) { Some($x.clone()) } else { None };
        eq($c, concat!("Integer::", stringify!($as)), $b, want.clone(), || Integer::new($b).$as().ok().map(|v| min_int(&sign_ext(v as i128, v < (0 as $t), v as u128))));
        eq($c, concat!("TryFrom<Integer>-", stringify!($t)), $b, want, || {
            <$t>::try_from(Integer::new($b)).ok().map(|v| min_int(&sign_ext(v as i128, v < (0 as $t), v as u128)))
        });
    )*};
}
/// two's complement of a number given both as i128 (if negative) and u128
fn sign_ext(s: i128, neg: bool, u: u128) -> Vec<u8> {
    if neg { int_i128(s) } else { int_u128(u) }
}
macro_rules! int_from {
    ($c:ident, $x:ident, $($t:ty, $k:expr, $from:ident;)*) => {$(
        if int_fits(&$x, $k) {
            let v: $t = match int_to_i128(&$x) { Some(v) => v as $t, None => int_to_u128(&$x).unwrap() as $t };
            eq($c, concat!("Integer::", stringify!($from)), &$x, $x.clone(), || Integer::$from(v).as_ref().to_vec());
            eq($c, concat!("Integer::from-", stringify!($t)), &$x, $x.clone(), || Integer::from(v).as_ref().to_vec());
            eq($c, concat!("to_der_vec-", stringify!($t)), &$x, (2, $x.clone()), || content_of(&v.to_der_vec().unwrap_or_default()));
            eq($c, concat!("to_ber_vec-", stringify!($t)), &$x, (2, $x.clone()), || content_of(&v.to_ber_vec().unwrap_or_default()));
            $c.hit(concat!("from-", stringify!($t)));
        }
    )*};
}
macro_rules! const_array {
    ($c:ident, $b:ident, $($n:literal)*) => { match $b.len() { $(
        $n => {
            let a: [u8; $n] = $b.try_into().unwrap();
            let mut w = vec![0];
            w.extend_from_slice($b);
            eq($c, "Integer::from_const_array", $b, min_int(&w), || Integer::from_const_array(a).as_ref().to_vec());
        }
    )* _ => {} } };
}

fn integer_case(c: &mut Ctx, b: &[u8]) {
    // b: non-empty two's complement content, minimal or not
    start(c, "integer", b);
    let x = min_int(b);
    int_to!(c, b, x,
        u8, IntK::U(8), as_u8; u16, IntK::U(16), as_u16; u32, IntK::U(32), as_u32; u64, IntK::U(64), as_u64; u128, IntK::U(128), as_u128; usize, IntK::U(64), as_usize;
        i8, IntK::I(8), as_i8; i16, IntK::I(16), as_i16; i32, IntK::I(32), as_i32; i64, IntK::I(64), as_i64; i128, IntK::I(128), as_i128; isize, IntK::I(64), as_isize;
    );
    eq(c, "Integer::as_bigint", b, x.clone(), || min_int(&Integer::new(b).as_bigint().to_signed_bytes_be()));
    let neg = x[0] & 0x80 != 0;
    let big = if neg { None } else { Some(x.clone()) };
    eq(c, "Integer::as_biguint", b, big, || {
        Integer::new(b).as_biguint().ok().map(|v| {
            let mut w = vec![0];
            w.extend(v.to_bytes_be());
            min_int(&w)
        })
    });
    eq(c, "Integer::as_raw_slice", b, Some(b.to_vec()), || Integer::new(b).as_raw_slice().map(|s| s.to_vec()));
    eq(c, "Integer::as_ref", b, b.to_vec(), || Integer::new(b).as_ref().to_vec());
    eq(c, "Integer::any", b, (2, false, b.to_vec()), || {
        let i = Integer::new(b);
        let a = i.any();
        (a.header.tag().0, a.header.constructed(), a.data.as_bytes2().to_vec())
    });
    int_from!(c, x,
        u8, IntK::U(8), from_u8; u16, IntK::U(16), from_u16; u32, IntK::U(32), from_u32; u64, IntK::U(64), from_u64; u128, IntK::U(128), from_u128; usize, IntK::U(64), from_usize;
        i8, IntK::I(8), from_i8; i16, IntK::I(16), from_i16; i32, IntK::I(32), from_i32; i64, IntK::I(64), from_i64; i128, IntK::I(128), from_i128; isize, IntK::I(64), from_isize;
    );
    const_array!(c, b, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18);
    if neg { c.hit("negative") } else { c.hit("non-negative") }
    c.hit(&format!("integer-{}-octets", x.len().min(20)));
}

fn bool_enum(c: &mut Ctx) {
    for v in 0..=255u8 {
        start(c, "boolean", &[v]);
        eq(c, "Boolean::bool", &[v], v != 0, || Boolean::new(v).bool());
        eq(c, "Boolean::value", &[v], v, || Boolean::new(v).value);
        eq(c, "Boolean-to_der", &[v], vec![1, 1, if v != 0 { 0xff } else { 0 }], || Boolean::new(v).to_der_vec().unwrap_or_default());
        eq(c, "bool-to_der", &[v], vec![1, 1, if v > 127 { 0xff } else { 0 }], || (v > 127).to_der_vec().unwrap_or_default());
        let enc = [1, 1, v];
        eq(c, "bool-from_ber", &enc, Some(v != 0), || bool::from_ber(&enc).ok().map(|r| r.1));
        eq(c, "Boolean-from_ber", &enc, Some(v != 0), || Boolean::from_ber(&enc).ok().map(|r| r.1.bool()));
        let der = if v == 0 || v == 255 { Some(v != 0) } else { None };
        eq(c, "bool-from_der", &enc, der, || bool::from_der(&enc).ok().map(|r| r.1));
        eq(c, "Boolean-from_der", &enc, der, || Boolean::from_der(&enc).ok().map(|r| r.1.bool()));
    }
    let n = c.n(10000, 100_000);
    for _ in 0..n {
        let x = gen_int(&mut c.rng, IntK::U(32));
        let v = int_to_u128(&x).unwrap() as u32;
        start(c, "enumerated", &x);
        let (want_tag, want) = (10u8, x.clone());
        eq(c, "Enumerated-to_der", &x, (want_tag, want), || content_of(&Enumerated::new(v).to_der_vec().unwrap_or_default()));
        let enc = der(&S::Enumerated, &Val::Enum(v));
        eq(c, "Enumerated-from_ber", &enc, Some(v), || Enumerated::from_ber(&enc).ok().map(|r| r.1 .0));
    }
    eq(c, "Null", b"", vec![5, 0], || Null::new().to_der_vec().unwrap_or_default());
    eq(c, "Null", b"", vec![5, 0], || ().to_der_vec().unwrap_or_default());
    eq(c, "Null", b"", vec![5, 0], || Null::default().to_ber_vec().unwrap_or_default());
}

macro_rules! int_consts {
    ($c:ident, $($v:literal)*) => {$(
        {
            const I: Integer = int!($v);
            let w = int_u128($v);
            eq($c, "int!", &w, w.clone(), || I.as_ref().to_vec());
            eq($c, "int!-value", &w, Some($v), || I.as_u64().ok());
            eq($c, "int!-raw", &w, w.clone(), || int!(raw $v).to_vec());
            eq($c, "int!-from", &w, true, || Integer::from($v as u64) == I);
        }
    )*};
}

pub fn integers(c: &mut Ctx) {
    if c.shard == 0 {
        int_consts!(c, 0 1 2 9 64 127 128 129 255 256 257 32767 32768 65535 65536 8388607 8388608 16777215 16777216 2147483647 2147483648 4294967295
            4294967296 1099511627775 1099511627776 549755813888 140737488355327 140737488355328 281474976710655 281474976710656 36028797018963967
            36028797018963968 72057594037927935 72057594037927936 9223372036854775807 9223372036854775808 18446744073709551615);
        c.hit("int-constants");
        bool_enum(c);
        // all contents of one and two octets
        for a in 0..=255u8 {
            integer_case(c, &[a]);
        }
    }
    let (s, t) = (c.shard, c.shards);
    for a in (0..65536usize).filter(|a| a % t == s) {
        if !c.quick() || a % 7 == 3 || (a as u8) < 4 || (a as u8) > 251 || (0x7c..0x84).contains(&(a as u8)) {
            integer_case(c, &[(a >> 8) as u8, a as u8]);
        }
    }
    let n = c.n(6000, 60_000);
    for _ in 0..n {
        let k = *c.rng.pick(&[IntK::Big, IntK::U(8), IntK::U(16), IntK::U(32), IntK::U(64), IntK::U(128), IntK::I(8), IntK::I(16), IntK::I(32), IntK::I(64), IntK::I(128)]);
        let mut b = gen_int(&mut c.rng, k);
        if c.rng.chance(1, 3) {
            // not minimal
            let f = if b[0] & 0x80 != 0 { 0xff } else { 0 };
            for _ in 0..c.rng.range(1, 6) {
                b.insert(0, f);
            }
        } else if c.rng.chance(1, 4) {
            // one beyond a limit: same octets, the other sign
            b[0] ^= 0x80;
        } else if c.rng.chance(1, 6) {
            let f = *c.rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
            b.insert(0, f);
        }
        integer_case(c, &b);
    }
}

// ------------------------------------------------------------------------------------------- bit and octet strings

fn bits_of(b: &[u8], from: usize, to: usize) -> Vec<bool> {
    (from..to).map(|i| b[i / 8] & (0x80 >> (i % 8)) != 0).collect()
}
/// content octets of a bit string in DER: unused bits are zero
fn bit_content(v: &[bool]) -> Vec<u8> {
    let mut o = vec![((8 - v.len() % 8) % 8) as u8];
    for ch in v.chunks(8) {
        o.push(ch.iter().enumerate().fold(0, |a, (i, x)| a | ((*x as u8) << (7 - i))));
    }
    o
}

fn bitstring_checks(c: &mut Ctx, how: &str, input: &[u8], x: &BitString, v: &[bool]) {
    eq(c, &format!("BitString::len/{how}"), input, v.len(), || x.len());
    eq(c, &format!("BitString::is_empty/{how}"), input, v.is_empty(), || x.is_empty());
    eq(c, &format!("BitString::is_set/{how}"), input, v.to_vec(), || (0..v.len()).map(|i| x.is_set(i)).collect::<Vec<_>>());
    eq(c, &format!("BitString::is_set-outside/{how}"), input, vec![false; 6], || {
        [0, 1, 7, 8, 64, usize::MAX - v.len()].iter().map(|i| x.is_set(v.len() + i)).collect::<Vec<_>>()
    });
    eq(c, &format!("BitString::as_bitslice/{how}"), input, v.to_vec(), || x.as_bitslice().iter().map(|b| *b).collect::<Vec<_>>());
    let oct = bit_content(v);
    // the view is as long as the bits need; bits of the last octet that are not used are unspecified
    eq(c, &format!("BitString::as_raw_slice/{how}"), input, (oct.len() - 1, v.to_vec()), || {
        let r = x.as_raw_slice();
        (r.len(), if r.len() * 8 >= v.len() { bits_of(r, 0, v.len()) } else { vec![] })
    });
    eq(c, &format!("BitString::as_ref/{how}"), input, true, || x.as_ref() == x.as_raw_slice());
    eq(c, &format!("BitString-to_der/{how}"), input, (3, oct), || content_of(&x.to_der_vec().unwrap_or_default()));
    eq(c, &format!("BitString-clone/{how}"), input, true, || x.clone() == *x);
    eq(c, &format!("BitString-der-roundtrip/{how}"), input, Some(true), || {
        let b = x.to_der_vec().ok()?;
        BitString::from_der(&b).ok().map(|(r, y)| r.is_empty() && y == *x)
    });
    eq(c, &format!("BitString-ber-roundtrip/{how}"), input, Some(true), || {
        let b = x.to_ber_vec().ok()?;
        BitString::from_ber(&b).ok().map(|(r, y)| r.is_empty() && y == *x)
    });
}

pub fn bit_octet(c: &mut Ctx) {
    use asn1_rs::bitvec::order::Msb0;
    use asn1_rs::bitvec::slice::BitSlice;
    let n = c.n(12000, 200_000);
    for _ in 0..n {
        let len = if c.rng.chance(1, 2) { c.rng.range(0, 5) } else { c.rng.len(300) };
        let b = if c.rng.chance(1, 4) { vec![0xff; len] } else { c.rng.bytes(len) };
        start(c, "bitstring", &b);
        let unused = if b.is_empty() { 0 } else { c.rng.below(8) };
        let v = bits_of(&b, 0, b.len() * 8 - unused);
        if let Some(mut x) = run(c, "BitString::new", &b, || BitString::new(unused as u8, &b)) {
            bitstring_checks(c, "new", &b, &x, &v);
            // modify through the mutable slice
            let mut v2 = v.clone();
            if !v2.is_empty() {
                let i = c.rng.below(v2.len());
                v2[i] = !v2[i];
                let nv = v2[i];
                if run(c, "BitString::as_mut_bitslice", &b, || x.as_mut_bitslice().set(i, nv)).is_some() {
                    bitstring_checks(c, "modified", &b, &x, &v2);
                    eq(c, "BitString-eq-after-change", &b, false, || BitString::new(unused as u8, &b) == x);
                }
            }
            c.hit(&format!("bits-unused-{unused}"));
        }
        // copies of a part, at any offset
        let total = b.len() * 8;
        let from = c.rng.below(total + 1);
        let to = c.rng.range(from, total);
        let part = bits_of(&b, from, to);
        if let Some(x) = run(c, "BitString::from-slice", &b, || BitString::from(&BitSlice::<u8, Msb0>::from_slice(&b)[from..to])) {
            bitstring_checks(c, "from-slice", &b, &x, &part);
            c.hit(if from % 8 != 0 { "bits-unaligned" } else { "bits-aligned" });
            // equal to the one made of the same bits elsewhere
            let oct = bit_content(&part);
            eq(c, "BitString-eq-same-bits", &b, true, || BitString::new(oct[0], &oct[1..]) == x);
        }
        // octet strings
        start(c, "octetstring", &b);
        eq(c, "OctetString::new", &b, (b.clone(), b.clone(), b.clone()), || {
            let o = OctetString::new(&b);
            (o.as_ref().to_vec(), o.as_cow().to_vec(), OctetString::new(&b).into_cow().to_vec())
        });
        eq(c, "OctetString::from", &b, true, || OctetString::from(b.as_slice()) == OctetString::new(&b));
        let mut want = vec![];
        tlv(0, false, 4, &b, &mut want);
        eq(c, "OctetString-to_der", &b, want.clone(), || OctetString::new(&b).to_der_vec().unwrap_or_default());
        eq(c, "slice-to_der", &b, want.clone(), || b.as_slice().to_der_vec().unwrap_or_default());
        let mut o = b.clone();
        o.push(1);
        eq(c, "OctetString-eq", &b, false, || OctetString::new(&b) == OctetString::new(&o));
    }
    if c.shard == 0 {
        eq(c, "BitString-default", b"", (0, true), || (BitString::default().len(), BitString::default().is_empty()));
        for u in 0..=255u8 {
            for s in [&[][..], &[0xff][..], &[0xff, 0x01][..]] {
                // documented: panics if more than 7 bits are unused, or more than there are
                let ok = u <= 7 && (u as usize) <= s.len() * 8;
                c.case("api/bitstring-new", s);
                c.checks += 1;
                let r = guard(|| BitString::new(u, s).len());
                match (ok, r) {
                    (true, Ok(n)) if n == s.len() * 8 - u as usize => {}
                    (false, Err(_)) => {}
                    (_, r) => c.viol("api:BitString::new-unused".into(), format!("unused {u}, {} octets: {r:?}", s.len()), s),
                }
            }
        }
    }
}

// --------------------------------------------------------------------------------------------- character strings

fn want_text(k: StrK, b: &[u8]) -> (R<String>, bool) {
    let mut cx = Cx::default();
    let r = string(k, b, &mut cx);
    (r, !cx.lenient.is_empty())
}

fn charset<T: TestValidCharset>(b: &[u8]) -> bool {
    T::test_valid_charset(b).is_ok()
}
macro_rules! string_type {
    ($c:ident, $n:ident, $ty:ident, $k:expr, $raw:expr) => {{
        let k = $k;
        let name = stringify!($ty);
        let tag = k.tag() as u8;
        // values from text
        for i in 0..$n {
            let t = if i == 0 { String::new() } else { gen_string(&mut $c.rng, k) };
            let oct = str_bytes(k, &t);
            start($c, name, &oct);
            eq($c, &format!("{name}::new"), &oct, (t.clone(), t.clone()), || ($ty::new(&t).string(), $ty::new(&t).as_ref().to_string()));
            eq($c, &format!("{name}::from-str"), &oct, t.clone(), || $ty::from(t.as_str()).string());
            eq($c, &format!("{name}::from-String"), &oct, t.clone(), || $ty::from(t.clone()).string());
            eq($c, &format!("{name}-eq"), &oct, true, || $ty::from(t.clone()) == $ty::new(&t));
            let mut t2 = t.clone();
            t2.push('0');
            eq($c, &format!("{name}-ne"), &oct, false, || $ty::from(t2) == $ty::new(&t));
            eq($c, &format!("{name}::test_valid_charset"), &oct, true, || $raw(&oct));
            eq($c, &format!("{name}-to_der"), &oct, (tag, oct.clone()), || content_of(&$ty::new(&t).to_der_vec().unwrap_or_default()));
            eq($c, &format!("{name}-to_ber"), &oct, (tag, oct.clone()), || content_of(&$ty::new(&t).to_ber_vec().unwrap_or_default()));
            let mut enc = vec![];
            tlv(0, false, k.tag(), &oct, &mut enc);
            eq($c, &format!("{name}-from_der"), &enc, Some(t.clone()), || $ty::from_der(&enc).ok().map(|r| r.1.string()));
            eq($c, &format!("{name}-from_ber"), &enc, Some(t.clone()), || $ty::from_ber(&enc).ok().map(|r| r.1.string()));
            if t.chars().any(|x| x as u32 > 127) {
                $c.hit(&format!("{name}-beyond-ascii"));
            }
        }
        // every octet, alone and in company
        if $c.shard == 0 {
            for x in 0..=255u8 {
                let mut vs = vec![vec![x], vec![b'1', x], vec![x, b'1']];
                match k {
                    StrK::Bmp => vs = vec![vec![x], vec![0, x], vec![x, 0], vec![x, 0x41, 0, 0x42], vec![x, 0, 0xdc, 0], vec![0xd8, 0, x, 1]],
                    StrK::Universal => vs = vec![vec![x], vec![0, 0, 0, x], vec![0, 0, x, 0x10], vec![0, x, 0, 0x20], vec![x, 0, 0, 0x30], vec![0, 0, 0xd8, x], vec![0, 0x11, 0, x], vec![0, 0x10, 0xff, x]],
                    _ => {}
                }
                for b in vs {
                    string_octets!($c, $ty, k, name, &b, $raw);
                }
            }
            $c.hit(&format!("{name}-octets-exhaustive"));
        }
        for _ in 0..$n {
            // valid text with one octet replaced
            let t = gen_string(&mut $c.rng, k);
            let mut b = str_bytes(k, &t);
            if !b.is_empty() {
                let i = $c.rng.below(b.len());
                b[i] = $c.rng.u8();
            }
            string_octets!($c, $ty, k, name, &b, $raw);
        }
    }};
}
macro_rules! string_octets {
    ($c:ident, $ty:ident, $k:ident, $name:ident, $b:expr, $raw:expr) => {{
        let b: &[u8] = $b;
        start($c, $name, b);
        let (want, open) = want_text($k, b);
        let valid = run($c, &format!("{}::test_valid_charset", $name), b, || $raw(b));
        let mut enc = vec![];
        tlv(0, false, $k.tag(), b, &mut enc);
        let text = run($c, &format!("{}-from_ber", $name), b, || $ty::from_ber(&enc).ok().map(|r| r.1.string()));
        if let (Some(valid), Some(text)) = (valid, text) {
            if !open {
                $c.check(valid == want.is_ok(), || format!("api:{}::test_valid_charset", $name), || format!("is {valid}, expected {}", want.is_ok()), b);
                $c.check(text == want.clone().ok(), || format!("api:{}-octets", $name), || format!("is {text:?}, expected {want:?}"), b);
            } else if let Some(t) = &text {
                $c.check(Some(t) == want.as_ref().ok(), || format!("api:{}-octets", $name), || format!("is {t:?}, expected {want:?}"), b);
            }
            // what is decoded has passed the character set test
            $c.check(text.is_none() || valid, || format!("api:{}-charset-consistent", $name), || format!("decodes as {text:?} but test_valid_charset fails"), b);
            $c.hit(if text.is_some() { "octets-accepted" } else { "octets-rejected" });
        }
    }};
}

pub fn strings(c: &mut Ctx) {
    let n = c.n(60, 4000);
    string_type!(c, n, Utf8String, StrK::Utf8, charset::<Utf8String>);
    string_type!(c, n, NumericString, StrK::Numeric, charset::<NumericString>);
    string_type!(c, n, PrintableString, StrK::Printable, charset::<PrintableString>);
    string_type!(c, n, TeletexString, StrK::Teletex, charset::<TeletexString>);
    string_type!(c, n, VideotexString, StrK::Videotex, charset::<VideotexString>);
    string_type!(c, n, Ia5String, StrK::Ia5, charset::<Ia5String>);
    string_type!(c, n, GraphicString, StrK::Graphic, charset::<GraphicString>);
    string_type!(c, n, VisibleString, StrK::Visible, charset::<VisibleString>);
    string_type!(c, n, GeneralString, StrK::General, charset::<GeneralString>);
    string_type!(c, n, ObjectDescriptor, StrK::ObjDesc, charset::<ObjectDescriptor>);
    string_type!(c, n, UniversalString, StrK::Universal, |b: &[u8]| want_text(StrK::Universal, b).0.is_ok());
    string_type!(c, n, BmpString, StrK::Bmp, charset::<BmpString>);
    // as_raw_str: the text where it is shared
    for _ in 0..n {
        let t = gen_string(&mut c.rng, StrK::Printable);
        eq(c, "as_raw_str", t.as_bytes(), (Some(t.as_str()), Some(t.as_str()), None), || {
            (PrintableString::new(&t).as_raw_str(), Ia5String::from(t.as_str()).as_raw_str(), Utf8String::from(t.clone()).as_raw_str())
        });
    }
    // every character, through the types that hold all of them
    let step = c.n(97, 1);
    let mut x = (c.shard * step / c.shards) as u32;
    while x < 0x110000 {
        if let Some(ch) = char::from_u32(x) {
            let mut b4 = [0; 4];
            let t: &str = ch.encode_utf8(&mut b4);
            c.evals += 1;
            let u = str_bytes(StrK::Universal, t);
            eq(c, "UniversalString-char", &u, (28, u.clone()), || content_of(&UniversalString::new(t).to_der_vec().unwrap_or_default()));
            let mut enc = vec![];
            tlv(0, false, 28, &u, &mut enc);
            eq(c, "UniversalString-char-decode", &u, Some(t.to_string()), || UniversalString::from_der(&enc).ok().map(|r| r.1.string()));
            let m = str_bytes(StrK::Bmp, t);
            eq(c, "BmpString-char", &m, (30, m.clone()), || content_of(&BmpString::new(t).to_der_vec().unwrap_or_default()));
            let mut enc = vec![];
            tlv(0, false, 30, &m, &mut enc);
            eq(c, "BmpString-char-decode", &m, Some(t.to_string()), || BmpString::from_der(&enc).ok().map(|r| r.1.string()));
            let mut enc = vec![];
            tlv(0, false, 12, t.as_bytes(), &mut enc);
            eq(c, "Utf8String-char", t.as_bytes(), Some(t.to_string()), || Utf8String::from_der(&enc).ok().map(|r| r.1.string()));
            eq(c, "str-char", t.as_bytes(), (Some(t.to_string()), Some(t.to_string())), || {
                (<&str>::from_der(&enc).ok().map(|r| r.1.to_string()), String::from_der(&enc).ok().map(|r| r.1))
            });
            eq(c, "str-char-to_der", t.as_bytes(), (enc.clone(), enc.clone()), || (t.to_der_vec().unwrap_or_default(), t.to_string().to_der_vec().unwrap_or_default()));
            c.hit("characters");
        }
        x += step as u32;
    }
}

// --------------------------------------------------------------------------------------------- object identifiers

fn text_of(a: &[u64]) -> String {
    a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
}
/// components of well-formed content octets; None when one does not fit in 128 bits
fn arcs_of(b: &[u8], rel: bool) -> Option<Vec<u128>> {
    let mut v = vec![];
    let mut x = 0u128;
    for o in b {
        if x >> 121 != 0 {
            return None;
        }
        x = (x << 7) | (o & 0x7f) as u128;
        if o & 0x80 == 0 {
            v.push(x);
            x = 0;
        }
    }
    if !rel && !v.is_empty() && b != [0] {
        let f = v.remove(0);
        let a = (f / 40).min(2);
        v.insert(0, f - 40 * a);
        v.insert(0, a);
    }
    Some(v)
}

fn oid_checks(c: &mut Ctx, how: &str, o: &Oid, arcs: &[u128], rel: bool, input: &[u8]) {
    let text = arcs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".");
    eq(c, &format!("Oid::to_id_string/{how}"), input, text.clone(), || o.to_id_string());
    let shown = if rel { format!("rel. {text}") } else { text.clone() };
    eq(c, &format!("Oid-Display/{how}"), input, shown.clone(), || format!("{o}"));
    eq(c, &format!("Oid-Debug/{how}"), input, format!("OID({shown})"), || format!("{o:?}"));
    let fit: Option<Vec<u64>> = arcs.iter().map(|a| u64::try_from(*a).ok()).collect();
    // the first two components share one number, which may be too large although each of them fits
    let joint = !rel && arcs.len() >= 2 && arcs[0] * 40 + arcs[1] > u64::MAX as u128;
    match run(c, "Oid::iter", input, || o.iter().map(|i| (i.len(), i.collect::<Vec<u64>>()))) {
        Some(Some((n, v))) => {
            c.check(Some(&v) == fit.as_ref(), || format!("api:Oid::iter/{how}"), || format!("is {v:?}, expected {arcs:?}"), input);
            c.check(n == arcs.len(), || format!("api:Oid::iter-len/{how}"), || format!("announces {n} of {}", arcs.len()), input);
        }
        Some(None) => {
            c.check(fit.is_none() || joint, || format!("api:Oid::iter/{how}"), || format!("None for {arcs:?}"), input);
            c.hit("arcs-beyond-64-bits");
        }
        None => {}
    }
    eq(c, &format!("Oid::iter_bigint/{how}"), input, (arcs.len(), arcs.iter().map(|x| x.to_string()).collect::<Vec<_>>()), || {
        let i = o.iter_bigint();
        (i.len(), i.map(|x| x.to_string()).collect())
    });
    // partly consumed iterators announce what is left, and stay at their end
    eq(c, &format!("Oid::iter_bigint-rest/{how}"), input, true, || {
        let mut i = o.iter_bigint();
        for k in 0..arcs.len() {
            if i.len() != arcs.len() - k || i.next().is_none() {
                return false;
            }
        }
        i.len() == 0 && i.next().is_none() && i.next().is_none()
    });
    eq(c, &format!("Oid::to_owned/{how}"), input, true, || o.to_owned() == *o && o.clone() == *o && Oid::to_owned(o).to_id_string() == text);
    eq(c, &format!("Oid::into_cow/{how}"), input, true, || o.clone().into_cow().as_ref() == o.as_bytes());
    eq(c, &format!("Oid-tag/{how}"), input, if rel { 13 } else { 6 }, || o.to_der_vec().unwrap_or_default().first().copied().unwrap_or(0xff));
    eq(c, &format!("Oid-roundtrip/{how}"), input, Some(true), || {
        let b = o.to_der_vec().ok()?;
        Oid::from_der(&b).ok().map(|(r, p)| r.is_empty() && p == *o)
    });
    eq(c, &format!("Oid-starts_with-self/{how}"), input, true, || o.starts_with(o));
}

macro_rules! oid_consts {
    ($c:ident, $($first:literal $(. $rest:literal)* , $s:literal;)*) => {$(
        {
            const O: Oid = oid!($first $(. $rest)*);
            let s: &str = $s;
            eq($c, "oid!", s.as_bytes(), s.to_string(), || O.to_id_string());
            eq($c, "oid!-from_str", s.as_bytes(), true, || s.parse::<Oid>().ok().as_ref() == Some(&O));
            eq($c, "oid!-raw", s.as_bytes(), true, || O.as_bytes() == &oid!(raw $first $(. $rest)*)[..]);
            const R: Oid = oid!(rel $first $(. $rest)*);
            eq($c, "oid!-rel", s.as_bytes(), format!("rel. {s}"), || format!("{R}"));
            let v: Vec<u64> = s.split('.').map(|x| x.parse().unwrap()).collect();
            eq($c, "oid!-from_relative", s.as_bytes(), true, || Oid::from_relative(&v).ok().as_ref() == Some(&R));
            eq($c, "oid!-rel-ne", s.as_bytes(), false, || O == R);
        }
    )*};
}

pub fn oids(c: &mut Ctx) {
    if c.shard == 0 {
        oid_consts!(c,
            1 . 2 . 840 . 113549 . 1 . 1 . 5, "1.2.840.113549.1.1.5";
            0 . 39, "0.39";
            1 . 0, "1.0";
            1 . 39 . 127, "1.39.127";
            2 . 0 . 128, "2.0.128";
            2 . 39 . 16383, "2.39.16383";
            2 . 40 . 16384, "2.40.16384";
            2 . 47 . 2097151, "2.47.2097151";
            2 . 48 . 2097152, "2.48.2097152";
            2 . 999 . 268435455, "2.999.268435455";
            2 . 16303 . 268435456, "2.16303.268435456";
            2 . 16304 . 34359738367, "2.16304.34359738367";
            0 . 1 . 34359738368 . 4398046511103 . 4398046511104, "0.1.34359738368.4398046511103.4398046511104";
            1 . 3 . 562949953421311 . 562949953421312, "1.3.562949953421311.562949953421312";
            1 . 3 . 72057594037927935 . 72057594037927936, "1.3.72057594037927935.72057594037927936";
            1 . 3 . 9223372036854775807 . 9223372036854775808 . 18446744073709551615, "1.3.9223372036854775807.9223372036854775808.18446744073709551615";
        );
        c.hit("oid-constants");
        for (s, want) in [
            (&[][..], Err(OidParseError::TooShort)),
            (&[1][..], Err(OidParseError::TooShort)),
            (&[2][..], Err(OidParseError::TooShort)),
            (&[0, 40][..], Err(OidParseError::FirstComponentsTooLarge)),
            (&[1, 40][..], Err(OidParseError::FirstComponentsTooLarge)),
            (&[3, 1][..], Err(OidParseError::FirstComponentsTooLarge)),
            (&[u64::MAX, 1, 1][..], Err(OidParseError::FirstComponentsTooLarge)),
            (&[1, u64::MAX, 1][..], Err(OidParseError::FirstComponentsTooLarge)),
            (&[2, u64::MAX, 1][..], Err(OidParseError::FirstComponentsTooLarge)),
            (&[2, u64::MAX - 80, 1][..], Ok(())),
            (&[2, u64::MAX - 79, 1][..], Err(OidParseError::FirstComponentsTooLarge)),
        ] {
            eq(c, "Oid::from-limits", format!("{s:?}").as_bytes(), want, || Oid::from(s).map(|_| ()));
        }
        const ZERO: Oid = oid!(0);
        eq(c, "Oid-zero", b"0", Some(true), || Oid::from(&[0]).ok().map(|o| o.as_bytes() == [0] && o == ZERO && "0".parse::<Oid>().ok().as_ref() == Some(&o)));
        eq(c, "Oid::from_relative-empty", b"", Err(OidParseError::TooShort), || Oid::from_relative(&[]).map(|_| ()));
        for t in ["", ".", "1", "1.", ".1", "1..2", "1.2.", "a.b", "1.2.x", "1.-2", "-1.2", "1.2.18446744073709551616", "1 .2", "1. 2", " 1.2", "1.2 ", "+1.2", "1.+2", "1.2.+3", "1,2", "0x1.2", "1.2\n", "rel. 1.2", "3.1", "1.40", "0.40"] {
            eq(c, "Oid-from_str-malformed", t.as_bytes(), true, || t.parse::<Oid>().is_err());
        }
        for rel in [false, true] {
            for enc in [&[0x0d, 0][..], &[0x06, 0], &[0x0d, 0x80, 0, 0], &[0x2d, 2, 0x04, 0], &[0x04, 1, 5]] {
                let r = run(c, "Oid::from_relative", enc, || if rel { Oid::from_ber_relative(enc).is_ok() } else { Oid::from_der_relative(enc).is_ok() });
                c.check(r != Some(true), || "api:Oid-relative-malformed".into(), || "accepted".into(), enc);
            }
        }
    }
    let n = c.n(12000, 150_000);
    for _ in 0..n {
        let arcs = gen_arcs(&mut c.rng);
        if arcs.len() < 2 || arcs[..] == [0, 0] {
            continue;
        }
        let wide: Vec<u128> = arcs.iter().map(|a| *a as u128).collect();
        let t = text_of(&arcs);
        start(c, "oid", t.as_bytes());
        let joint_ok = arcs[0] <= 2 && (arcs[0] == 2 || arcs[1] < 40) && (arcs[0] * 40).checked_add(arcs[1]).is_some();
        match run(c, "Oid::from", t.as_bytes(), || Oid::from(&arcs)) {
            Some(Ok(o)) => {
                c.check(joint_ok, || "api:Oid::from-accepts".into(), || t.clone(), t.as_bytes());
                oid_checks(c, "from", &o, &wide, false, t.as_bytes());
                eq(c, "Oid-from-bytes", t.as_bytes(), oid_content(&arcs), || o.as_bytes().to_vec());
                let p = run(c, "Oid-from_str", t.as_bytes(), || t.parse::<Oid>());
                c.check(p.as_ref().is_some_and(|p| p.as_ref() == Ok(&o)), || "api:Oid-from_str".into(), || format!("{t} parsed as {p:?}"), t.as_bytes());
                // prefixes
                let k = c.rng.range(2, arcs.len());
                if let Ok(Ok(q)) = guard(|| Oid::from(&arcs[..k])) {
                    if arcs[..k] != [0, 0] {
                        eq(c, "Oid::starts_with-prefix", t.as_bytes(), (true, k == arcs.len()), || (o.starts_with(&q), q.starts_with(&o)));
                    }
                }
                let mut other = arcs[..k].to_vec();
                let i = c.rng.range(1, k - 1);
                other[i] = match c.rng.below(4) {
                    0 => other[i] / 10,
                    1 => other[i] / 128,
                    2 => other[i].wrapping_add(1),
                    _ => other[i] ^ 1,
                };
                if other[..] != arcs[..k] && other[..] != [0, 0] {
                    if let Ok(Ok(q)) = guard(|| Oid::from(&other)) {
                        eq(c, "Oid::starts_with-other", t.as_bytes(), (false, false), || (o.starts_with(&q), o == q));
                    }
                }
                c.hit("oid-from-components");
            }
            Some(Err(e)) => _ = c.check(!joint_ok, || "api:Oid::from-rejects".into(), || format!("{t}: {e:?}"), t.as_bytes()),
            None => {}
        }
        // relative: any components
        let mut rel = arcs.clone();
        if c.rng.chance(1, 2) {
            rel.remove(0);
        }
        let (t, wide) = (text_of(&rel), rel.iter().map(|a| *a as u128).collect::<Vec<_>>());
        if let Some(Ok(o)) = run(c, "Oid::from_relative", t.as_bytes(), || Oid::from_relative(&rel)) {
            oid_checks(c, "from_relative", &o, &wide, true, t.as_bytes());
            let mut enc = vec![];
            let mut body = vec![];
            rel.iter().for_each(|a| put_arc(*a as u128, &mut body));
            tlv(0, false, 13, &body, &mut enc);
            eq(c, "Oid::from_ber_relative", &enc, Some((enc.len(), true)), || Oid::from_ber_relative(&enc).ok().map(|(r, x)| (enc.len() - r.len(), x == o)));
            eq(c, "Oid::from_der_relative", &enc, Some((enc.len(), true)), || Oid::from_der_relative(&enc).ok().map(|(r, x)| (enc.len() - r.len(), x == o)));
            eq(c, "Oid-relative-to_der", &enc, enc.clone(), || o.to_der_vec().unwrap_or_default());
            c.hit("oid-relative");
        } else {
            c.viol("api:Oid::from_relative-rejects".into(), t.clone(), t.as_bytes());
        }
        // from octets, with components beyond 64 bits
        let mut body = vec![];
        for _ in 0..c.rng.range(1, 5) {
            let a = ((c.rng.next() as u128) << 64 | c.rng.next() as u128) >> c.rng.range(8, 127);
            put_arc(a, &mut body);
        }
        let r = c.rng.chance(1, 2);
        if let Some(a) = arcs_of(&body, r) {
            start(c, "oid-octets", &body);
            let o = if r { Oid::new_relative(body.clone().into()) } else { Oid::new(body.clone().into()) };
            oid_checks(c, "new", &o, &a, r, &body);
        }
        // any octets: accessors return
        let nb = c.rng.range(0, 24);
        let body = c.rng.bytes(nb);
        start(c, "oid-any-octets", &body);
        let o = if r { Oid::new_relative(body.clone().into()) } else { Oid::new(body.clone().into()) };
        run(c, "Oid-malformed", &body, || {
            let _ = (o.to_id_string(), o.iter().map(|i| i.count()), o.iter_bigint().count(), format!("{o} {o:?}"), o.to_der_vec());
        });
        // texts: only digits and dots denote components
        let mut t = text_of(&arcs).into_bytes();
        let i = c.rng.below(t.len() + 1);
        let ch = *c.rng.pick(b"+-. _0123456789xe\n");
        if c.rng.chance(1, 2) {
            t.insert(i, ch);
        } else if i < t.len() {
            t[i] = ch;
        }
        let t = String::from_utf8(t).unwrap();
        start(c, "oid-text", t.as_bytes());
        let want: Option<Vec<u64>> = t.split('.').map(|x| if !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()) { x.parse::<u64>().ok() } else { None }).collect();
        let valid = want.as_ref().is_some_and(|v| v.len() >= 2 && v[0] <= 2 && (v[0] == 2 || v[1] < 40) && (v[0] * 40).checked_add(v[1]).is_some());
        match run(c, "Oid-from_str", t.as_bytes(), || t.parse::<Oid>()) {
            Some(Ok(o)) if want.as_deref() == Some(&[0]) => drop(o),
            Some(Ok(o)) => {
                if c.check(valid, || "api:Oid-from_str-accepts".into(), || format!("{t:?} parsed as {o}"), t.as_bytes()) && want.as_deref() != Some(&[0, 0]) {
                    let w = want.unwrap();
                    eq(c, "Oid-from_str-value", t.as_bytes(), Some(w), || o.iter().map(|i| i.collect()));
                }
                c.hit("text-accepted");
            }
            Some(Err(_)) => {
                c.check(!valid, || "api:Oid-from_str-rejects".into(), || t.clone(), t.as_bytes());
                c.hit("text-rejected");
            }
            None => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------------------- times

fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    // days since 1970-01-01, counted year by year (slow and plain on purpose)
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut n = 0;
    let (lo, hi) = if y >= 1970 { (1970, y) } else { (y, 1970) };
    for k in lo..hi {
        n += if leap(k) { 366 } else { 365 };
    }
    if y < 1970 {
        n = -n;
    }
    for k in 1..m {
        n += days_in_month(y as u32, k as u8) as i64;
    }
    n + d - 1
}
fn unix(t: &Time, y: i64) -> i64 {
    let off = match t.tz {
        Tz::Off(m) => m as i64,
        _ => 0,
    };
    days_from_civil(y, t.mo as i64, t.d as i64) * 86400 + t.h as i64 * 3600 + t.mi as i64 * 60 + t.s as i64 - off * 60
}
fn shown_tz(t: Tz, none: &str) -> String {
    match t {
        Tz::None => none.into(),
        t => tz_text(t),
    }
}
fn shown(t: &Time, y4: u32, none: &str) -> String {
    let f = t.ms.map(|m| format!(".{m:03}")).unwrap_or_default();
    format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}{f}{}", y4, t.mo, t.d, t.h, t.mi, t.s, shown_tz(t.tz, none))
}
fn lib_tz(t: Tz) -> ASN1TimeZone {
    match t {
        Tz::None => ASN1TimeZone::Undefined,
        Tz::Z => ASN1TimeZone::Z,
        Tz::Off(m) if m < 0 && m > -60 => ASN1TimeZone::Offset(0, m as i8),
        Tz::Off(m) if m < 0 => ASN1TimeZone::Offset(-((-m / 60) as i8), (-m % 60) as i8),
        Tz::Off(m) => ASN1TimeZone::Offset((m / 60) as i8, (m % 60) as i8),
    }
}
fn lib_dt(t: &Time) -> ASN1DateTime {
    ASN1DateTime::new(t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms, lib_tz(t.tz))
}
type Parts = (i32, u8, u8, u8, u8, u8, u32, i32, i64);
fn parts(d: time::OffsetDateTime) -> Parts {
    (d.year(), u8::from(d.month()), d.day(), d.hour(), d.minute(), d.second(), d.nanosecond(), d.offset().whole_seconds(), d.unix_timestamp())
}
fn want_parts(t: &Time, y: i64) -> Option<Parts> {
    if t.mo == 0 || t.mo > 12 || t.d == 0 || t.d > days_in_month(y as u32, t.mo) {
        return None;
    }
    let off = match t.tz {
        Tz::Off(m) => m * 60,
        _ => 0,
    };
    Some((y as i32, t.mo, t.d, t.h, t.mi, t.s, t.ms.unwrap_or(0) as u32 * 1_000_000, off, unix(t, y)))
}
/// offsets of a day or more have no agreed meaning
fn odd_offset(t: Tz) -> bool {
    matches!(t, Tz::Off(m) if m.abs() >= 1440)
}

fn utc_case(c: &mut Ctx, b: &[u8]) {
    start(c, "utctime", b);
    let mut cx = Cx::default();
    let want = utctime(Mode::Ber, b, &mut cx);
    let got = run(c, "UtcTime::from_bytes", b, || UtcTime::from_bytes(b).ok());
    let (Some(got), strict) = (got, cx.lenient.is_empty()) else { return };
    match (want, got) {
        (Ok(t), Some(u)) => {
            eq(c, "UtcTime::from_bytes", b, Val::Time(t.clone()), || dt_val(&u.0));
            c.hit("utctime-accepted");
            if cx.lenient.contains(&"offset range") {
                return; // hours and minutes outside their range have no agreed reading
            }
            let full = t.y as i64 + if t.y < 50 { 2000 } else { 1900 };
            if !odd_offset(t.tz) {
                // the year as written (pinned by the crate's tests), and the year meant
                eq(c, "UtcTime::utc_datetime", b, want_parts(&t, t.y as i64), || u.utc_datetime().ok().map(parts));
                eq(c, "UtcTime::utc_adjusted_datetime", b, want_parts(&t, full), || u.utc_adjusted_datetime().ok().map(parts));
                eq(c, "UtcTime::timestamp", b, want_parts(&t, full).map(|p| p.8), || u.timestamp().ok());
                eq(c, "ASN1DateTime::to_datetime", b, want_parts(&t, t.y as i64), || u.0.to_datetime().ok().map(parts));
            }
            eq(c, "UtcTime-Display", b, shown(&t, t.y, "Z"), || u.to_string());
            eq(c, "ASN1DateTime-Display", b, gen_text_full(&t), || u.0.to_string());
            eq(c, "UtcTime::new", b, true, || UtcTime::new(lib_dt(&t)) == u);
            if let Tz::Off(_) = t.tz {
                c.hit("utctime-offset");
            }
            if strict && want_parts(&t, full).is_some() {
                let w = utc_time(&t, true).map(|t| utc_text(&t).into_bytes());
                eq(c, "UtcTime-to_der", b, w, || u.to_der_vec().ok().map(|e| content_of(&e).1));
            }
        }
        (Ok(t), None) => {
            c.check(!strict, || "api:UtcTime::from_bytes-rejects".into(), || format!("{t:?}"), b);
        }
        (Err(Rej::Unspec(_)), _) => {}
        (Err(e), Some(u)) => c.viol("api:UtcTime::from_bytes-accepts".into(), format!("{u:?}, expected {e:?}"), b),
        (Err(_), None) => c.hit("utctime-rejected"),
    }
}
fn dt_val(d: &ASN1DateTime) -> Val {
    crate::vals::dt(d)
}
fn gen_text_full(t: &Time) -> String {
    let f = t.ms.map(|m| format!(".{m:03}")).unwrap_or_default();
    format!("{:04}{:02}{:02}{:02}{:02}{:02}{f}{}", t.y, t.mo, t.d, t.h, t.mi, t.s, tz_text(t.tz))
}
fn gen_case(c: &mut Ctx, b: &[u8]) {
    start(c, "gentime", b);
    let mut cx = Cx::default();
    let want = gentime(Mode::Ber, b, &mut cx);
    let got = run(c, "GeneralizedTime::from_bytes", b, || GeneralizedTime::from_bytes(b).ok());
    let (Some(got), strict) = (got, cx.lenient.is_empty()) else { return };
    match (want, got) {
        (Ok(t), Some(u)) => {
            eq(c, "GeneralizedTime::from_bytes", b, Val::Time(t.clone()), || dt_val(&u.0));
            c.hit("gentime-accepted");
            if cx.lenient.contains(&"offset range") {
                return;
            }
            if !odd_offset(t.tz) {
                eq(c, "GeneralizedTime::utc_datetime", b, want_parts(&t, t.y as i64), || u.utc_datetime().ok().map(parts));
                eq(c, "ASN1DateTime::to_datetime", b, want_parts(&t, t.y as i64), || u.0.to_datetime().ok().map(parts));
            }
            eq(c, "GeneralizedTime-Display", b, shown(&t, t.y, ""), || u.to_string());
            eq(c, "ASN1DateTime-Display", b, gen_text_full(&t), || u.0.to_string());
            eq(c, "GeneralizedTime::new", b, true, || GeneralizedTime::new(lib_dt(&t)) == u);
            if strict && t.tz != Tz::None {
                let w = utc_time(&t, false).map(|t| gen_text(&t).into_bytes());
                eq(c, "GeneralizedTime-to_der", b, w, || u.to_der_vec().ok().map(|e| content_of(&e).1));
            }
        }
        (Ok(t), None) => {
            c.check(!strict, || "api:GeneralizedTime::from_bytes-rejects".into(), || format!("{t:?}"), b);
        }
        (Err(Rej::Unspec(_)), _) => {}
        (Err(e), Some(u)) => c.viol("api:GeneralizedTime::from_bytes-accepts".into(), format!("{u:?}, expected {e:?}"), b),
        (Err(_), None) => c.hit("gentime-rejected"),
    }
}

pub fn times(c: &mut Ctx) {
    // every day of the years around century and leap rules, at the edges of the day and with offsets that leave it
    let years: &[u32] = if c.quick() { &[0, 1, 4, 100, 400, 1899, 1900, 1904, 1949, 1950, 1969, 1970, 1999, 2000, 2001, 2024, 2049, 2050, 2100, 2400, 9996, 9999] } else { &[] };
    let years: Vec<u32> = if years.is_empty() { (0..10000).collect() } else { years.to_vec() };
    let (s, n) = (c.shard, c.shards);
    for y in years.into_iter().filter(|y| *y as usize % n == s) {
        for mo in 0..=13u8 {
            for d in 0..=32u8 {
                let (h, mi, off) = *c.rng.pick(&[(0, 0, "Z"), (23, 59, "Z"), (0, 0, "+0001"), (23, 59, "-0001"), (12, 30, "+1400"), (0, 30, "+0100"), (23, 30, "-0100"), (22, 59, "-1200"), (1, 1, "+0000"), (1, 1, "-0000"), (0, 29, "+0030"), (23, 31, "-0030")]);
                let sec = c.rng.range(0, 59);
                gen_case(c, format!("{y:04}{mo:02}{d:02}{h:02}{mi:02}{sec:02}{off}").as_bytes());
                utc_case(c, format!("{:02}{mo:02}{d:02}{h:02}{mi:02}{sec:02}{off}", y % 100).as_bytes());
            }
        }
        c.hit("years-walked");
    }
    if c.shard == 0 {
        // all two-digit years, all hours and minutes and seconds, all offsets
        for x in 0..100 {
            for z in ["Z", "+0100", "-0030"] {
                utc_case(c, format!("{x:02}0228235959{z}").as_bytes());
                utc_case(c, format!("{x:02}0229120000{z}").as_bytes());
                utc_case(c, format!("{x:02}1231233000{z}").as_bytes());
                utc_case(c, format!("{x:02}0101003000{z}").as_bytes());
                utc_case(c, format!("{x:02}01010030{z}").as_bytes());
                for f in [format!("2001{x:02}01120000"), format!("200101{x:02}120000"), format!("20010101{x:02}0000"), format!("2001010112{x:02}00"), format!("200101011200{x:02}")] {
                    gen_case(c, format!("{f}{z}").as_bytes());
                    utc_case(c, format!("{}{z}", &f[2..]).as_bytes());
                }
            }
            for sg in ['+', '-'] {
                for m in [0, 1, 15, 30, 45, 59, 60, 99] {
                    gen_case(c, format!("20240301000000{sg}{x:02}{m:02}").as_bytes());
                    utc_case(c, format!("240301000000{sg}{x:02}{m:02}").as_bytes());
                }
            }
        }
        for ms in 0..1000 {
            for f in [format!("{ms:03}"), format!("{ms:03}").trim_end_matches('0').to_string()] {
                for z in ["Z", "", "+0130", "-0130"] {
                    gen_case(c, format!("19991231235959.{f}{z}").as_bytes());
                }
            }
        }
        c.hit("components-exhaustive");
    }
    let n = c.n(12000, 150_000);
    for _ in 0..n {
        let b = time_text(true, &mut c.rng);
        utc_case(c, &b);
        let b = time_text(false, &mut c.rng);
        gen_case(c, &b);
        // order: of two times of the same zone, the later is the greater
        let (mut a, mut b) = (gen_time(&mut c.rng, false), gen_time(&mut c.rng, false));
        if c.rng.chance(2, 3) {
            // close to each other
            b = a.clone();
            match c.rng.below(7) {
                0 => b.y = c.rng.below(10000) as u32,
                1 => b.mo = c.rng.range(1, 12) as u8,
                2 => b.d = c.rng.range(1, 28) as u8,
                3 => b.h = c.rng.below(24) as u8,
                4 => b.mi = c.rng.below(60) as u8,
                5 => b.s = c.rng.below(60) as u8,
                _ => b.ms = Some(c.rng.below(1000) as u16),
            }
        }
        a.ms.get_or_insert(0);
        b.ms.get_or_insert(0);
        let k = |t: &Time| (t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms);
        let w = k(&a).cmp(&k(&b));
        let (x, y) = (GeneralizedTime::new(lib_dt(&a)), GeneralizedTime::new(lib_dt(&b)));
        let text = format!("{a:?} {b:?}");
        eq(c, "GeneralizedTime-order", text.as_bytes(), w, || x.cmp(&y));
        eq(c, "ASN1DateTime-order", text.as_bytes(), Some(w), || x.0.partial_cmp(&y.0));
        // values made of arbitrary components: encoding writes that instant, or fails
        let mut t = gen_time(&mut c.rng, false);
        match c.rng.below(12) {
            0 => t.y = c.rng.next() as u32,
            1 => t.mo = c.rng.u8(),
            2 => t.d = c.rng.u8(),
            3 => t.h = c.rng.u8(),
            4 => t.mi = c.rng.u8(),
            5 => t.s = c.rng.u8(),
            6 => t.ms = Some(c.rng.next() as u16),
            7 | 8 => t.tz = Tz::Off(c.rng.range(0, 2878) as i32 - 1439),
            9 => t.d = c.rng.range(1, 31) as u8,
            10 => (t.y, t.mo, t.d) = (9999, 12, 31),
            _ => (t.y, t.mo, t.d) = (0, 1, 1),
        }
        if c.rng.chance(1, 2) {
            t.tz = Tz::Off(*c.rng.pick(&[-1439, -720, -61, -60, -59, -1, 0, 1, 59, 60, 61, 720, 1439]));
        }
        component_case(c, &t, false);
        let mut u = t.clone();
        u.ms = None;
        if c.rng.chance(7, 8) {
            u.y %= 100;
        }
        component_case(c, &u, true);
    }
}

fn component_case(c: &mut Ctx, t: &Time, utc: bool) {
    let text = format!("{t:?}");
    let name = if utc { "UtcTime" } else { "GeneralizedTime" };
    start(c, "time-components", text.as_bytes());
    let got = run(c, &format!("{name}-components"), text.as_bytes(), || {
        let d = lib_dt(t);
        let _ = (d.to_string(), d.to_datetime(), format!("{d:?}"), d.clone() == d);
        if utc {
            let u = UtcTime::new(d);
            let _ = (u.to_string(), u.utc_datetime(), u.utc_adjusted_datetime(), u.timestamp());
            u.to_der_vec().ok()
        } else {
            let u = GeneralizedTime::new(d);
            let _ = (u.to_string(), u.utc_datetime());
            u.to_der_vec().ok()
        }
    });
    let Some(got) = got else { return };
    let full = t.y as i64 + if !utc { 0 } else if t.y < 50 { 2000 } else { 1900 };
    let in_range = t.y <= if utc { 99 } else { 9999 } && (1..=12).contains(&t.mo) && t.d >= 1 && t.d <= days_in_month(full as u32, t.mo) && t.h < 24 && t.mi < 60 && t.s < 60 && t.ms.unwrap_or(0) < 1000;
    if in_range {
        if t.tz == Tz::None {
            return; // no canonical form
        }
        let w = utc_time(t, utc).map(|t| if utc { utc_text(&t) } else { gen_text(&t) }.into_bytes());
        let g = got.map(|e| content_of(&e).1);
        c.check(g == w, || format!("api:{name}-components-encode"), || format!("{} for {w:?}", hex(&g.clone().unwrap_or_default())), text.as_bytes());
        c.hit(if w.is_some() { "components-encoded" } else { "components-no-encoding" });
    } else if let Some(e) = got {
        // not a time: nothing that reads as another time may be written
        let b = content_of(&e).1;
        let mut cx = Cx::default();
        let back = if utc { utctime(Mode::Ber, &b, &mut cx) } else { gentime(Mode::Ber, &b, &mut cx) };
        // a day the month does not have is written as it stands
        let same = back.as_ref().is_ok_and(|x| (x.y, x.mo, x.d, x.h, x.mi, x.s, x.ms.unwrap_or(0)) == (t.y, t.mo, t.d, t.h, t.mi, t.s, t.ms.unwrap_or(0)));
        let day_only = t.d > days_in_month(full as u32, t.mo) && t.d <= 31 && matches!(t.tz, Tz::Off(_));
        c.check(same || day_only, || format!("api:{name}-components-invalid"), || format!("encoded as {}", String::from_utf8_lossy(&b)), text.as_bytes());
    } else {
        c.hit("components-refused");
    }
}

// ---------------------------------------------------------------------------------------------------------- reals

fn same(a: f64, b: f64) -> bool {
    norm_f64(a) == norm_f64(b)
}
/// the number that content octets of a REAL denote (in the reference)
fn real_of(b: &[u8]) -> Option<u64> {
    let mut cx = Cx::default();
    match real(Mode::Ber, b, &mut cx) {
        Ok(Val::Real(x)) => Some(x),
        _ => None,
    }
}

fn real_case(c: &mut Ctx, f: f64) {
    let input = f.to_be_bytes();
    let b = &input[..];
    start(c, "real", b);
    let n = norm_f64(f);
    let Some(r) = run(c, "Real::new", b, || Real::new(f)) else { return };
    eq(c, "Real::f64", b, n, || norm_f64(r.f64()));
    eq(c, "Real::f32", b, norm_f64(f as f32 as f64), || norm_f64(r.f32() as f64));
    eq(c, "Real::is_infinite", b, f.is_infinite(), || r.is_infinite());
    eq(c, "Real::is_finite", b, f.is_finite(), || r.is_finite());
    eq(c, "Real::from-f64", b, n, || norm_f64(f64::from(Real::from(f))));
    eq(c, "f32::from-Real", b, norm_f64(f as f32 as f64), || norm_f64(f32::from(Real::from(f)) as f64));
    let g = f as f32;
    eq(c, "Real::from-f32", b, norm_f64(g as f64), || norm_f64(Real::from(g).f64()));
    if let Some(e) = run(c, "Real-to_der", b, || r.to_der_vec().unwrap_or_default()) {
        let (t, x) = content_of(&e);
        c.check(t == 9 && real_of(&x) == Some(n), || "api:Real-to_der".into(), || format!("{f:e} encoded as {}", hex(&e)), b);
        eq(c, "f64-to_der", b, e.clone(), || f.to_der_vec().unwrap_or_default());
        eq(c, "f64-from_der", b, Some(n), || f64::from_der(&e).ok().map(|r| norm_f64(r.1)));
        eq(c, "f64-from_ber", b, Some(n), || f64::from_ber(&e).ok().map(|r| norm_f64(r.1)));
        eq(c, "Real-from_der", b, Some(n), || Real::from_der(&e).ok().map(|r| norm_f64(r.1.f64())));
        eq(c, "f32-from_der", b, Some(norm_f64(f as f32 as f64)), || f32::from_der(&e).ok().map(|r| norm_f64(r.1 as f64)));
        c.hit(if x.first().is_some_and(|x| x & 0x80 != 0) { "real-binary" } else if x.first().is_some_and(|x| x & 0xc0 == 0) { "real-decimal" } else { "real-special" });
    }
    let e = run(c, "f32-to_der", b, || g.to_der_vec().unwrap_or_default()).unwrap_or_default();
    c.check(real_of(&content_of(&e).1) == Some(norm_f64(g as f64)), || "api:f32-to_der".into(), || format!("{g:e} encoded as {}", hex(&e)), b);
    if f.is_finite() && f != 0.0 {
        // the same number as mantissa and exponent, in every base an encoder can be asked for
        let (neg, m, e) = real_parts(f);
        let k = c.rng.below(12) as i32;
        let mant = if neg { -(m as f64) } else { m as f64 };
        let r = Real::binary(mant * 2f64.powi(k), 2, e - k);
        eq(c, "Real::binary-f64", b, n, || norm_f64(r.f64()));
        if f.is_normal() {
            eq(c, "Real::binary-to_der", b, real_content(f), || content_of(&Real::binary(mant * 2f64.powi(k), 2, e - k).to_der_vec().unwrap_or_default()).1);
        }
        // a mantissa of any magnitude, with the exponent in another base
        let (base, bits) = *c.rng.pick(&[(2u32, 1i32), (8, 3), (16, 4)]);
        let (k, x) = (c.rng.range(0, 1800) as i32 - 900, (c.rng.range(0, 2400) as i32 - 1200) / bits);
        let w = dyadic_to_f64(neg, m as u128, (k + x * bits) as i64);
        eq(c, "Real::binary-scaled", b, norm_f64(w), || norm_f64(Real::binary(mant * 2f64.powi(k), base, x).f64()));
        for (base, bits) in [(2u8, 0u8), (8, 0x10), (16, 0x20)] {
            let r = Real::binary(mant * 2f64.powi(k), 2, e - k).with_enc_base(base);
            eq(c, "Real::with_enc_base-f64", b, n, || norm_f64(r.f64()));
            let Some(x) = run(c, "Real::with_enc_base", b, || r.to_der_vec().map(|e| content_of(&e).1)) else { continue };
            match x {
                Ok(x) => {
                    c.check(real_of(&x) == Some(n), || format!("api:Real::with_enc_base-{base}"), || format!("{f:e} encoded as {}", hex(&x)), b);
                    c.check(x.first().map(|x| x & 0xb0) == Some(0x80 | bits), || format!("api:Real::with_enc_base-bits-{base}"), || format!("{f:e} encoded as {}", hex(&x)), b);
                    // read back
                    let mut enc = vec![];
                    tlv(0, false, 9, &x, &mut enc);
                    eq(c, "Real-enc_base-roundtrip", &enc, Some(n), || Real::from_der(&enc).ok().map(|r| norm_f64(r.1.f64())));
                    c.hit(&format!("real-base-{base}"));
                }
                Err(e) => {
                    c.check(!f.is_normal(), || format!("api:Real::with_enc_base-{base}-refused"), || format!("{f:e}: {e:?}"), b);
                }
            }
        }
    }
}

/// what is wrong with the form of the content of a binary REAL (X.690 8.5.7, 11.3.1)
fn noncanonical_real(x: &[u8], base: u8) -> Option<&'static str> {
    let f = *x.first()?;
    if f & 0x80 == 0 {
        return Some("not in binary form");
    }
    let want = match base {
        2 => 0,
        8 => 0x10,
        _ => 0x20,
    };
    if f & 0x30 != want {
        return Some("another base");
    }
    let (n, p) = if f & 3 == 3 { (*x.get(1)? as usize, 2) } else { (1 + (f & 3) as usize, 1) };
    if f & 3 == 3 && n < 4 {
        return Some("length of the exponent in long form");
    }
    let Some(e) = x.get(p..p + n) else { return Some("exponent missing") };
    if n > 1 && (e[0] == 0 && e[1] < 0x80 || e[0] == 0xff && e[1] >= 0x80) {
        return Some("superfluous octet in the exponent");
    }
    let m = &x[p + n..];
    if m.is_empty() || m[0] == 0 {
        return Some("superfluous octet in the mantissa");
    }
    // (the exponent cannot grow beyond 32 bits)
    if base == 2 && e != [0x7f, 0xff, 0xff, 0xff] && (m[m.len() - 1] & 1 == 0 || f & 0x0c != 0) {
        return Some("even mantissa or scale factor");
    }
    None
}
/// the number `int * 2^s * 2^e`, with mantissa `int * 2^s`
fn real_product(c: &mut Ctx, int: f64, s: i32, e: i32, base: u8) {
    let m = int * 2f64.powi(s);
    let text = format!("{m:e} * 2^{e}");
    start(c, "real-parts", text.as_bytes());
    let want = dyadic_to_f64(false, int as u128, e as i64 + s as i64);
    eq(c, "Real::binary", text.as_bytes(), norm_f64(want), || norm_f64(Real::binary(m, 2, e).f64()));
    eq(c, "Real::binary-negative", text.as_bytes(), norm_f64(-want), || norm_f64(Real::binary(-m, 2, e).f64()));
    if let Some(Ok(x)) = run(c, "Real::binary-encode", text.as_bytes(), || Real::binary(m, 2, e).with_enc_base(base).to_der_vec().map(|e| content_of(&e).1)) {
        let odd = noncanonical_real(&x, base);
        c.check(x.is_empty() || odd.is_none(), || "api:Real::binary-encode-form".into(), || format!("{text} encoded as {}: {}", hex(&x), odd.unwrap_or("")), text.as_bytes());
        if let Some(v) = real_of(&x) {
            c.check(same(f64::from_bits(v), want), || "api:Real::binary-encode".into(), || format!("{text} encoded as {}", hex(&x)), text.as_bytes());
        } else {
            let mut cx = Cx::default();
            let bad = matches!(real(Mode::Ber, &x, &mut cx), Err(Rej::Bad(_)));
            c.check(!bad, || "api:Real::binary-encode-invalid".into(), || format!("{text} encoded as {}", hex(&x)), text.as_bytes());
        }
    }
}
pub fn reals(c: &mut Ctx) {
    if c.shard == 0 {
        for f in [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 1.0, -1.0, 9007199254740992.0, 9007199254740993.0, 1e22, 1e23, 0.1, 0.3, 1.0 / 3.0] {
            real_case(c, f);
        }
        // powers of two and of ten: the exponent passes every octet limit
        for e in -1074..=1023 {
            let f = dyadic_to_f64(false, 1, e);
            real_case(c, f);
            real_case(c, -f * 1.5);
        }
        for e in -323..=308 {
            real_case(c, format!("1e{e}").parse().unwrap());
            real_case(c, format!("-12345e{e}").parse().unwrap());
        }
        for x in -3000..3000 {
            real_case(c, x as f64);
            real_case(c, x as f64 / 8.0);
            real_case(c, x as f64 / 10.0);
        }
        for k in -70..=140 {
            for int in [1u64, 3, (1 << 53) - 1] {
                for base in [2, 8, 16] {
                    for e in [0, 1, 2, 3, -1, -5, 100, 0x7fff, 0x8000, -0x8000, -0x8001, 0x7f_ffff, 0x80_0000, -0x80_0000, -0x80_0001, 127, 128, -128, -129] {
                        real_product(c, int as f64, k, e, base);
                    }
                }
            }
        }
        c.hit("real-powers-exhaustive");
    }
    let n = c.n(5000, 250_000);
    for _ in 0..n {
        let f = match c.rng.below(4) {
            0 => (c.rng.below(2_000_000) as f64 - 1e6) * 10f64.powi(c.rng.range(0, 40) as i32 - 20),
            _ => gen_f64(&mut c.rng),
        };
        real_case(c, f);
        // mantissa and exponent at will: the number they denote, rounded to nearest
        let m = match c.rng.below(4) {
            0 => 1u64 << c.rng.below(53),
            1 => (1u64 << c.rng.range(1, 54)) - 1,
            _ => c.rng.next() >> c.rng.below(64),
        };
        // fractions, and mantissas beyond 64 bits
        let s = match c.rng.below(3) {
            0 => c.rng.range(0, 140) as i32 - 70,
            _ => 0,
        };
        let int = m as f64;
        let m = int * 2f64.powi(s);
        let e = match c.rng.below(4) {
            0 => c.rng.range(0, 2400) as i32 - 1200,
            1 => *c.rng.pick(&[i32::MIN, i32::MAX, 1 << 20, -(1 << 20), 0x7fff, 0x8000, -0x8000, -0x8001, 127, 128, -128, -129, 0x7f_ffff, -0x80_0000]),
            _ => c.rng.range(0, 300) as i32 - 150,
        };
        let base = *c.rng.pick(&[2u8, 8, 16]);
        real_product(c, int, s, e, base);
        // any base, mantissa and encoding base: returns
        let (m, base, eb) = (f64::from_bits(c.rng.next()), *c.rng.pick(&[0u32, 1, 2, 3, 8, 10, 16, u32::MAX]), c.rng.u8());
        let text = format!("{m:e} * {base}^{e} /{eb}");
        c.case("api/real-any", text.as_bytes());
        run(c, "Real-any", text.as_bytes(), || {
            let r = Real::Binary { mantissa: m, base, exponent: e, enc_base: eb };
            let _ = (r.f64(), r.f32(), format!("{r:?}"), r.to_der_vec(), r.to_der_len(), r.is_finite());
        });
    }
}


//! Feature probe (C27): runs a list of cases with the library built under one set of features and
//! prints a transcript. Usage: probe <cases>            one line "<hash> <hash of encodings>" per case
//!                             probe --explain <type> <hex>  the full text of one case
//!                             probe --types            the names of the types
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// name of the entry point, whether it only exists with `std`, what it does
pub type Fun = (&'static str, bool, fn(&[u8]) -> String);

/// memory addresses (shown by bit strings) and the text of object identifiers (which depends, as
/// documented, on `bigint` when components exceed 64 bits: compared separately) are not part of a transcript
fn scrub(s: String) -> String {
    let mut o = String::new();
    let mut r = s.as_str();
    while let Some(i) = ["0x", "OID("].iter().filter_map(|p| r.find(p)).min() {
        if r[i..].starts_with("0x") {
            o.push_str(&r[..i + 2]);
            r = r[i + 2..].trim_start_matches(|c: char| c.is_ascii_hexdigit());
        } else {
            o.push_str(&r[..i + 4]);
            r = r[i + 4..].trim_start_matches(|c: char| c != ')');
        }
    }
    o.push_str(r);
    o
}

macro_rules! flag {
    ($v:ident, $lt:lifetime, $t:ty, ber) => {
        $v.push(("parse_ber", false, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as BerParser<$lt>>::parse_ber(Input::from_slice(b)) { Ok((r, x)) => format!("{} {:?} {x:?}", r.len(), r.span()), Err(e) => format!("{e:?}") } } f }));
        $v.push(("parse_ber_optional", false, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as BerParser<$lt>>::parse_ber_optional(Input::from_slice(b)) { Ok((r, x)) => format!("{} {x:?}", r.len()), Err(e) => format!("{e:?}") } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, der) => {
        $v.push(("parse_der", false, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as DerParser<$lt>>::parse_der(Input::from_slice(b)) { Ok((r, x)) => format!("{} {:?} {x:?}", r.len(), r.span()), Err(e) => format!("{e:?}") } } f }));
        $v.push(("parse_der_optional", false, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as DerParser<$lt>>::parse_der_optional(Input::from_slice(b)) { Ok((r, x)) => format!("{} {x:?}", r.len()), Err(e) => format!("{e:?}") } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, fber) => {
        $v.push(("from_ber", false, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as FromBer<$lt, Error>>::from_ber(b) { Ok((r, x)) => format!("{} {x:?}", r.len()), Err(e) => format!("{e:?}") } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, fder) => {
        $v.push(("from_der", false, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as FromDer<$lt, Error>>::from_der(b) { Ok((r, x)) => format!("{} {x:?}", r.len()), Err(e) => format!("{e:?}") } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, tany) => {
        $v.push(("try_from(Any)", false, { fn f<$lt>(b: &$lt [u8]) -> String { match Any::from_ber(b) { Ok((r, a)) => format!("{} {:?}", r.len(), <$t as TryFrom<Any<$lt>>>::try_from(a)), Err(e) => format!("{e:?}") } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, rany) => {
        $v.push(("try_from(&Any)", false, { fn f<$lt>(b: &$lt [u8]) -> String { match Any::from_ber(b) { Ok((r, a)) => { let x = <$t as TryFrom<&Any<$lt>>>::try_from(&a); format!("{} {x:?}", r.len()) }, Err(e) => format!("{e:?}") } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, dsp) => {
        $v.push(("display", false, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as BerParser<$lt>>::parse_ber(Input::from_slice(b)) { Ok((_, x)) => format!("{x}"), Err(_) => String::new() } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, eb) => {
        #[cfg(feature = "std")]
        $v.push(("to_ber", true, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as BerParser<$lt>>::parse_ber(Input::from_slice(b)) { Ok((_, x)) => format!("{:?} {:?} {:?}", x.to_ber_vec(), x.ber_total_len(), x.ber_tag_info()), Err(_) => String::new() } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, ed) => {
        #[cfg(feature = "std")]
        $v.push(("to_der", true, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as BerParser<$lt>>::parse_ber(Input::from_slice(b)) { Ok((_, x)) => format!("{:?} {:?} {:?}", x.to_der_vec(), x.der_total_len(), x.der_tag_info()), Err(_) => String::new() } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, edd) => {
        #[cfg(feature = "std")]
        $v.push(("to_der", true, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as DerParser<$lt>>::parse_der(Input::from_slice(b)) { Ok((_, x)) => format!("{:?} {:?} {:?}", x.to_der_vec(), x.der_total_len(), x.der_tag_info()), Err(_) => String::new() } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, ebf) => {
        #[cfg(feature = "std")]
        $v.push(("to_ber", true, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as FromBer<$lt, Error>>::from_ber(b) { Ok((_, x)) => format!("{:?} {:?} {:?}", x.to_ber_vec(), x.ber_total_len(), x.ber_tag_info()), Err(_) => String::new() } } f }));
    };
    ($v:ident, $lt:lifetime, $t:ty, edf) => {
        #[cfg(feature = "std")]
        $v.push(("to_der", true, { fn f<$lt>(b: &$lt [u8]) -> String { match <$t as FromBer<$lt, Error>>::from_ber(b) { Ok((_, x)) => format!("{:?} {:?} {:?}", x.to_der_vec(), x.der_total_len(), x.der_tag_info()), Err(_) => String::new() } } f }));
    };
}
macro_rules! t {
    ($out:ident, $lt:lifetime, $name:expr, $t:ty; $($f:ident)*) => {{
        #[allow(unused_mut)]
        let mut v: Vec<$crate::Fun> = vec![];
        $( flag!(v, $lt, $t, $f); )*
        $out.push(($name, v));
    }};
}

mod types;

/// everything else that is observable of any input
fn generic() -> Vec<Fun> {
    use asn1_rs::*;
    let mut v: Vec<Fun> = vec![];
    v.push(("header", false, |b| format!("{:?} {:?}", Header::from_ber(b), Header::from_der(b))));
    v.push(("oid", false, |b| {
        let o = Oid::new(std::borrow::Cow::Borrowed(b));
        let r = Oid::new_relative(std::borrow::Cow::Borrowed(b));
        let f = |o: &Oid| o.iter().map(|i| (i.collect::<Vec<_>>(), o.to_id_string(), format!("{o} {o:?}")));
        format!("{:?} {:?}", f(&o), f(&r))
    }));
    v.push(("any", false, |b| match Any::from_ber(b) {
        Err(e) => format!("{e:?}"),
        Ok((_, a)) => format!(
            "{:?} {:?} {:?} {:?} {:?} {:?} {:?}",
            a.as_any_str(),
            a.as_any_string(),
            a.as_optional::<u32>(),
            a.as_tagged_explicit::<u32, Error, 2, 1>(),
            a.as_integer().map(|i| (i.as_u64(), i.as_i128(), i.as_u8())),
            a.as_real().map(|r| (r.f64().to_bits(), r.f32().to_bits())),
            a.as_bitstring().map(|s| format!("{:?}", s.as_bitslice().iter().by_vals().collect::<Vec<bool>>())),
        ),
    }));
    v.push(("times", false, |b| match Any::from_ber(b) {
        Err(e) => format!("{e:?}"),
        Ok((_, a)) => format!("{:?} {:?}", a.as_utctime().map(|t| t.to_string()), a.as_generalizedtime().map(|t| t.to_string())),
    }));
    v.push(("elements", false, |b| {
        let s = Sequence::new(b.into());
        format!("{:?} {:?} {:?}", s.ber_iter::<u32, Error>().take(40).collect::<Vec<_>>(), s.der_iter::<Any, Error>().take(40).collect::<Vec<_>>(), s.ber_sequence_of::<u32, Error>())
    }));
    v
}

fn one(f: &Fun, b: &[u8]) -> String {
    match catch_unwind(AssertUnwindSafe(|| (f.2)(b))) {
        Ok(s) if f.0 == "oid" => s,
        Ok(s) => scrub(s),
        Err(_) => "panic".into(),
    }
}

fn fnv(h: &mut u64, s: &str) {
    for b in s.bytes().chain([0xff]) {
        *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

#[cfg(feature = "debug")]
mod sink {
    /// formats every record, as a real logger would
    pub struct Sink;
    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            std::hint::black_box(format!("{}", r.args()));
        }
        fn flush(&self) {}
    }
}

fn main() {
    #[cfg(feature = "debug")]
    {
        let _ = log::set_logger(&sink::Sink);
        log::set_max_level(log::LevelFilter::Trace);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let table = types::table();
    let g = generic();
    match a[1].as_str() {
        "--types" => {
            for (n, _) in &table {
                println!("{n}");
            }
        }
        "--explain" => {
            let b = unhex(&a[3]);
            for f in table.iter().filter(|t| t.0 == a[2]).flat_map(|t| &t.1).chain(&g) {
                println!("{}{} {}", if f.1 { "+" } else { "" }, f.0, one(f, &b));
            }
        }
        p => {
            let mut out = String::new();
            let t: std::collections::HashMap<&str, &Vec<Fun>> = table.iter().map(|x| (x.0, &x.1)).collect();
            for l in std::fs::read_to_string(p).unwrap().lines() {
                let (n, h) = l.rsplit_once(' ').unwrap();
                let b = unhex(h);
                let (mut x, mut y) = (0xcbf29ce484222325u64, 0xcbf29ce484222325u64);
                let Some(funs) = t.get(n) else {
                    // a type of the builds with `std`
                    out.push_str("- -\n");
                    continue;
                };
                for f in funs.iter().chain(&g) {
                    fnv(if f.1 { &mut y } else { &mut x }, &one(f, &b));
                }
                let _ = writeln!(out, "{x:016x} {y:016x}");
            }
            print!("{out}");
        }
    }
}

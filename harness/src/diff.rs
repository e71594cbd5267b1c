//! Differential monitor: every decoding entry point of a type against the reference model.
use crate::ev::*;
use crate::model::*;
use crate::subjects::*;

#[derive(Clone, Debug)]
pub struct Mis {
    /// panic, accepts, rejects, value, consumed, tolerated, span, truncated-error, needed, dishonest
    pub kind: &'static str,
    pub reason: String,
    pub api: &'static str,
    pub detail: String,
    pub mode: Mode,
}
impl Mis {
    pub fn sig(&self, subj: &str) -> String {
        if self.reason.is_empty() {
            format!("{}/{}/{}", self.kind, subj, self.api)
        } else {
            format!("{}:{}/{}/{}", self.kind, self.reason, subj, self.api)
        }
    }
}

/// panic text without positions (those move when code is edited)
pub fn panic_kind(m: &str) -> String {
    let m = m.split(" at ").next().unwrap_or(m);
    let mut s = String::new();
    let mut last_digit = false;
    for c in m.chars() {
        if c.is_ascii_digit() {
            if !last_digit {
                s.push('N');
            }
            last_digit = true;
        } else {
            last_digit = false;
            s.push(if c == '/' { '|' } else { c });
        }
        if s.len() > 60 {
            break;
        }
    }
    s
}

#[derive(Clone, Debug)]
pub struct Expect {
    pub r: R<(Val, usize)>,
    pub cx: Cx,
}

pub fn expect(s: &S, shape: Shape, mode: Mode, b: &[u8]) -> Expect {
    let mut cx = Cx::default();
    let r = match shape {
        Shape::Plain => dec(s, mode, b, &mut cx),
        Shape::Opt => dec(&S::Opt(Box::new(s.clone())), mode, b, &mut cx),
        Shape::AsInput => match header(b) {
            Err(e) => Err(e),
            Ok(h) => {
                if mode == Mode::Der && h.len.is_none() {
                    Err(Rej::Bad("der-indefinite"))
                } else {
                    match accepts(s, &h) {
                        Acc::Yes => dec(&S::Any, mode, b, &mut cx),
                        Acc::No => Err(Rej::Bad("tag")),
                        Acc::ClassOnly => Err(Rej::Bad("class")),
                    }
                }
            }
        },
    };
    Expect { r, cx }
}

/// Is the first object in `b` complete (header, content, end marker)?
pub fn complete(b: &[u8]) -> bool {
    match header(b) {
        Ok(h) => content(&h, &b[h.hl..], MAX_DEPTH).is_ok(),
        Err(_) => false,
    }
}

/// Is "incomplete" reported for a complete object of this type meaningful? Composite types pass on what
/// their parts report, and a part that is cut short inside a complete object may be called either way.
fn honest_shape(s: &S, shape: Shape) -> bool {
    shape == Shape::AsInput || matches!(s, S::Any | S::RawSeq | S::RawSet) || (universal_tag(s).is_some() && !matches!(s, S::SeqOf(_) | S::Arr(..) | S::Tuple(_) | S::SetList(_) | S::SetSet(_) | S::Struct { .. }))
}

pub fn judge(s: &Subject, d: &Dec, b: &[u8], e: &Expect, out: &mut Vec<Mis>) -> Option<DecOut> {
    let honest = honest_shape(&s.s, d.shape) && e.cx.segmented == 0;
    let mut mis = |kind: &'static str, reason: &str, detail: String| {
        out.push(Mis { kind, reason: reason.to_string(), api: d.api, detail, mode: d.mode })
    };
    let got = match guard(|| (d.f)(b)) {
        Ok(g) => g,
        Err(p) => {
            mis("panic", &panic_kind(&p), p);
            return None;
        }
    };
    if let Err(s) = &got.span {
        mis("span", "", s.clone());
    }
    let strict = e.cx.lenient.is_empty() && e.cx.tolerated.is_empty();
    match (&e.r, &got.out) {
        (Ok((v, n)), Out::Ok(gv, gn)) => {
            if v != gv {
                mis("value", "", format!("decoded {gv:?}, reference {v:?}"));
            }
            if n != gn {
                mis("consumed", "", format!("consumed {gn}, reference {n}"));
            }
            if v == gv {
                for t in &e.cx.tolerated {
                    mis("tolerated", t, format!("accepted as {gv:?}"));
                }
            }
        }
        (Ok((v, _)), Out::Err) => {
            // a borrowed value cannot be made of several segments
            if e.cx.segmented > 0 && got.msg.contains("LifetimeError") {
            } else if strict {
                mis("rejects", "", format!("rejected ({}), reference {v:?}", got.msg));
            }
        }
        (Ok((v, _)), Out::Inc(_)) => {
            if strict {
                mis("rejects", "incomplete", format!("incomplete ({}), reference {v:?}", got.msg));
            } else if honest {
                mis("dishonest", "", format!("reports incomplete input for a complete object ({})", got.msg));
            }
        }
        (Err(Rej::Bad(r)), Out::Ok(gv, _)) => mis("accepts", r, format!("accepted as {gv:?}")),
        (Err(Rej::Bad(r)), Out::Inc(_)) => {
            // under a wrong class the segments of a constructed string are not looked at by the model
            let constructed = *r == "class" && b[0] & 0x20 != 0;
            if honest && !constructed && !r.starts_with("segment") && complete(b) {
                mis("dishonest", r, format!("reports incomplete input for a complete object ({})", got.msg));
            }
        }
        (Err(Rej::Incomplete), Out::Ok(gv, _)) => mis("accepts", "truncated", format!("accepted as {gv:?}")),
        (Err(Rej::Incomplete), Out::Err) => {
            if e.cx.lenient.is_empty() && e.cx.tolerated.is_empty() {
                mis("truncated-error", "", format!("truncated input reported as {}", got.msg));
            }
        }
        (Err(Rej::Incomplete), Out::Inc(Some(k))) => {
            // the hint must not ask for more than is missing
            if let Ok(h) = header(b) {
                if let Some(l) = h.len {
                    let miss = (h.hl as u128 + l as u128).saturating_sub(b.len() as u128);
                    if miss > 0 && (*k as u128) > miss {
                        mis("needed", "", format!("asks for {k} more, {miss} missing"));
                    }
                }
            }
            if *k == 0 {
                mis("needed", "zero", "asks for 0 more".into());
            }
        }
        _ => {}
    }
    Some(got)
}

/// Run all decoding entry points of `s` on `b`.
pub fn run_all(s: &Subject, b: &[u8]) -> Vec<Mis> {
    let mut out = vec![];
    let mut memo: Vec<((Shape, Mode), Expect)> = vec![];
    for d in &s.decs {
        let k = (d.shape, d.mode);
        let i = match memo.iter().position(|(kk, _)| *kk == k) {
            Some(i) => i,
            None => {
                memo.push((k, expect(&s.s, d.shape, d.mode, b)));
                memo.len() - 1
            }
        };
        judge(s, d, b, &memo[i].1, &mut out);
    }
    out
}

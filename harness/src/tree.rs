//! Encodings as trees: structural edits that keep all enclosing lengths consistent.
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Body {
    Prim(Vec<u8>),
    Cons(Vec<Node>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    Min,
    Pad(usize),
    Indef,
    /// indefinite without its end marker
    Unclosed,
}
#[derive(Clone, Debug)]
pub struct Node {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    pub form: Form,
    /// leading zero groups in the tag number
    pub padtag: bool,
    pub body: Body,
}

/// parse a sequence of complete elements; None if the bytes are anything else
pub fn parse(b: &[u8], depth: usize) -> Option<Vec<Node>> {
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        let h = header(&b[p..]).ok()?;
        let (c, n) = content(&h, &b[p + h.hl..], MAX_DEPTH).ok()?;
        let body = if h.constructed && depth > 0 {
            match parse(c, depth - 1) {
                Some(v) => Body::Cons(v),
                None => Body::Prim(c.to_vec()),
            }
        } else {
            Body::Prim(c.to_vec())
        };
        out.push(Node {
            class: h.class,
            cons: h.constructed,
            tag: h.tag,
            form: if h.len.is_none() { Form::Indef } else { Form::Min },
            padtag: false,
            body,
        });
        p += h.hl + n;
    }
    Some(out)
}

pub fn put(n: &Node, out: &mut Vec<u8>) {
    if n.padtag && n.tag >= 31 {
        let mut t = vec![];
        put_ident(n.class, n.cons, n.tag, &mut t);
        t.insert(1, 0x80);
        out.extend(t);
    } else if n.padtag {
        out.push((n.class << 6) | if n.cons { 0x20 } else { 0 } | 31);
        out.push(n.tag as u8);
    } else {
        put_ident(n.class, n.cons, n.tag, out);
    }
    let c = match &n.body {
        Body::Prim(b) => b.clone(),
        Body::Cons(v) => put_all(v),
    };
    match n.form {
        Form::Min => put_len(c.len(), out),
        Form::Pad(k) => put_len_padded(c.len(), k, out),
        Form::Indef | Form::Unclosed => out.push(0x80),
    }
    out.extend_from_slice(&c);
    if n.form == Form::Indef {
        out.extend_from_slice(&[0, 0]);
    }
}
pub fn put_all(v: &[Node]) -> Vec<u8> {
    let mut o = vec![];
    for n in v {
        put(n, &mut o);
    }
    o
}
pub fn count(v: &[Node]) -> usize {
    v.iter()
        .map(|n| {
            1 + match &n.body {
                Body::Cons(c) => count(c),
                _ => 0,
            }
        })
        .sum()
}
/// run `f` on the k-th node (preorder) with its sibling list
fn at<R>(v: &mut Vec<Node>, k: &mut usize, f: &mut dyn FnMut(&mut Vec<Node>, usize) -> R) -> Option<R> {
    let mut i = 0;
    while i < v.len() {
        if *k == 0 {
            return Some(f(v, i));
        }
        *k -= 1;
        if let Body::Cons(c) = &mut v[i].body {
            if let Some(r) = at(c, k, f) {
                return Some(r);
            }
        }
        i += 1;
    }
    None
}
pub fn with_node<R>(v: &mut Vec<Node>, k: usize, f: &mut dyn FnMut(&mut Vec<Node>, usize) -> R) -> Option<R> {
    let mut k = k;
    at(v, &mut k, f)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Class,
    Tag,
    ConsBit,
    PadLen,
    PadTag,
    Indef,
    Unclosed,
    Content,
    Drop,
    Dup,
    Swap,
    InsertNull,
    InsertAny,
    Empty,
    Wrap,
    Unwrap,
    Segment,
    Shorten,
    Lengthen,
}
pub const OPS: &[Op] = &[
    Op::Class, Op::Tag, Op::ConsBit, Op::PadLen, Op::PadTag, Op::Indef, Op::Unclosed, Op::Content, Op::Content, Op::Content,
    Op::Drop, Op::Dup, Op::Swap, Op::InsertNull, Op::InsertAny, Op::Empty, Op::Wrap, Op::Unwrap, Op::Segment, Op::Shorten, Op::Lengthen,
];

pub fn apply(v: &mut Vec<Node>, k: usize, op: Op, r: &mut Rng) {
    with_node(v, k, &mut |sib, i| {
        let n = &mut sib[i];
        match op {
            Op::Class => n.class = (n.class + 1 + r.below(3) as u8) % 4,
            Op::Tag => {
                n.tag = match r.below(4) {
                    0 => n.tag ^ 1,
                    1 => n.tag.wrapping_add(32),
                    2 => gen_tag(r),
                    _ => r.below(31) as u32,
                }
            }
            Op::ConsBit => n.cons = !n.cons,
            Op::PadLen => n.form = Form::Pad(r.below(9)),
            Op::PadTag => n.padtag = true,
            Op::Indef => {
                n.form = Form::Indef;
                n.cons = true;
            }
            Op::Unclosed => {
                n.form = Form::Unclosed;
                n.cons = true;
            }
            Op::Content => {
                if let Body::Prim(c) = &mut n.body {
                    edit_bytes(c, r);
                } else {
                    let k = r.below(6);
                    n.body = Body::Prim(r.bytes(k));
                }
            }
            Op::Drop => {
                sib.remove(i);
            }
            Op::Dup => {
                let c = n.clone();
                sib.insert(i, c);
            }
            Op::Swap => {
                if sib.len() > 1 {
                    let j = (i + 1) % sib.len();
                    sib.swap(i, j);
                }
            }
            Op::InsertNull => sib.insert(i + r.below(2), Node { class: 0, cons: false, tag: 5, form: Form::Min, padtag: false, body: Body::Prim(vec![]) }),
            Op::InsertAny => {
                let x = gen_any(r, 2);
                if let Some(mut e) = parse(&der(&S::Any, &x), 4) {
                    let j = i + r.below(2);
                    if let Some(x) = e.pop() {
                        sib.insert(j, x);
                    }
                }
            }
            Op::Empty => n.body = Body::Prim(vec![]),
            Op::Wrap => {
                let c = n.clone();
                *n = Node { class: r.below(4) as u8, cons: true, tag: r.below(20) as u32 + 1, form: Form::Min, padtag: false, body: Body::Cons(vec![c]) };
            }
            Op::Unwrap => {
                if let Body::Cons(c) = &mut n.body {
                    let c = std::mem::take(c);
                    sib.splice(i..i + 1, c);
                }
            }
            Op::Segment => {
                // primitive string -> constructed, with universal tag segments of the given type
                if let Body::Prim(c) = &n.body {
                    if !n.cons {
                        let c = c.clone();
                        let seg = |b: &[u8]| Node { class: n.class, cons: false, tag: n.tag, form: Form::Min, padtag: false, body: Body::Prim(b.to_vec()) };
                        let m = r.below(c.len() + 1);
                        let kids = if r.chance(1, 3) { vec![seg(&c)] } else { vec![seg(&c[..m]), seg(&c[m..])] };
                        n.body = Body::Cons(kids);
                        n.cons = true;
                        if r.chance(1, 3) {
                            n.form = Form::Indef;
                        }
                    }
                }
            }
            Op::Shorten => {
                if let Body::Prim(c) = &mut n.body {
                    let m = r.below(c.len() + 1);
                    c.truncate(m);
                }
            }
            Op::Lengthen => {
                if let Body::Prim(c) = &mut n.body {
                    let k = 1 + r.below(3);
                    let x = if r.chance(1, 2) { vec![0; k] } else { r.bytes(k) };
                    if r.chance(1, 2) {
                        c.extend(x);
                    } else {
                        c.splice(0..0, x);
                    }
                }
            }
        }
    });
}
pub fn edit_bytes(c: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..1 + r.below(2) {
        if c.is_empty() {
            c.push(r.u8());
            continue;
        }
        let i = r.below(c.len());
        match r.below(8) {
            0 => c[i] = r.u8(),
            1 => c[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x20, 0x40, b'0', b'9', b'Z', b'-', b'+', b'.', b',']),
            2 => {
                c.insert(i, r.u8());
            }
            3 => {
                c.remove(i);
            }
            4 => c[i] ^= 1 << r.below(8),
            5 => {
                let k = r.below(12);
                *c = r.bytes(k);
            }
            6 => c[0] = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0xff]),
            _ => {
                // replace a digit pair: times
                if c.len() > 2 && i + 1 < c.len() {
                    let s = format!("{:02}", r.below(100));
                    c[i] = s.as_bytes()[0];
                    c[i + 1] = s.as_bytes()[1];
                }
            }
        }
    }
}
/// a random structural edit (1..=3 operations)
pub fn edit(b: &[u8], r: &mut Rng) -> Vec<u8> {
    let Some(mut t) = parse(b, 6) else { return mutate(b, r) };
    for _ in 0..1 + (r.below(4) / 2) {
        let n = count(&t);
        if n == 0 {
            break;
        }
        let k = r.below(n);
        let op = *r.pick(OPS);
        apply(&mut t, k, op, r);
    }
    let o = put_all(&t);
    if o.len() > 20000 {
        b.to_vec()
    } else {
        o
    }
}
/// one given operation on a random node
pub fn edit_op(b: &[u8], op: Op, r: &mut Rng) -> Option<Vec<u8>> {
    let mut t = parse(b, 6)?;
    let n = count(&t);
    if n == 0 {
        return None;
    }
    let k = r.below(n);
    apply(&mut t, k, op, r);
    Some(put_all(&t))
}

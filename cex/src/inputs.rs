//! Inputs for a grammar: every short token sequence over its vocabulary, sentences made from the
//! grammar, and damaged sentences.
use crate::gram::{delim, G};
use crate::rng::Rng;
use parsel::proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum W { T(String), Open(u8), Close(u8) }
fn dcode(d: Delimiter) -> u8 { match d { Delimiter::Parenthesis => 0, Delimiter::Bracket => 1, _ => 2 } }
fn dtext(k: u8, open: bool) -> &'static str {
    if k == 3 { return if open { "no_delimiter {" } else { "}" }; }
    let (a, b) = delim([Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace][k as usize]);
    if open { a } else { b }
}
/// a group without delimiters, written as NONE { .. } in the texts
pub const NONE: &str = "no_delimiter";
pub fn with_invisible(ts: TokenStream) -> TokenStream {
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match (t, it.peek()) {
            (TokenTree::Ident(i), Some(TokenTree::Group(_))) if i == NONE => {
                let Some(TokenTree::Group(g)) = it.next() else { unreachable!() };
                let mut n = Group::new(Delimiter::None, with_invisible(g.stream())); n.set_span(g.span()); out.push(TokenTree::Group(n));
            }
            (TokenTree::Group(g), _) => { let mut n = Group::new(g.delimiter(), with_invisible(g.stream())); n.set_span(g.span()); out.push(TokenTree::Group(n)); }
            (t, _) => out.push(t),
        }
    }
    out.into_iter().collect()
}
pub fn leaf_text(name: &str, n: usize) -> String {
    match name {
        "int" => format!("{}", 1 + n), "ident" => format!("w{}", n), "str" => if n % 5 == 4 { format!("\"s{}\n é\"", n) } else { format!("\"s{}\"", n) }, "fat" => format!("{} w{}", 1 + n, n),
        x => x.trim_matches('\'').to_string(),
    }
}
/// leaf names and delimiters that occur in a grammar
pub fn vocab(g: &G, leaves: &mut BTreeSet<&'static str>, ds: &mut BTreeSet<u8>, depth: usize) {
    if depth > 12 { return; }
    match g {
        G::Leaf(n, _) => { leaves.insert(n); }
        G::Empty | G::Eof | G::NotEof => {}
        G::Group(d, x) => { ds.insert(dcode(*d)); vocab(x, leaves, ds, depth + 1); }
        G::Any(x) => vocab(x, leaves, ds, depth + 1),
        G::Maybe(a, b) | G::Sep(a, b) | G::Pun(a, b) | G::Left(a, b) | G::Right(a, b) | G::Either(a, b) => { vocab(a, leaves, ds, depth + 1); vocab(b, leaves, ds, depth + 1); }
        G::Seq { fields, .. } => for f in fields { vocab(&f.1, leaves, ds, depth + 1); },
        G::Choice(v) => for x in v { vocab(x, leaves, ds, depth + 1); },
        G::Rec(f) => if depth < 4 { vocab(&f(), leaves, ds, depth + 4) },
    }
}
/// every sequence of up to n trees over the vocabulary (groups hold up to `inner` trees), at most cap
pub fn all(leaves: &[&'static str], ds: &[u8], n: usize, inner: usize, cap: usize) -> Vec<Vec<W>> {
    let mut trees: Vec<Vec<W>> = leaves.iter().map(|l| vec![W::T(l.to_string())]).collect();
    if inner > 0 || n > 0 {
        for &d in ds {
            let subs = if inner == 0 { vec![vec![]] } else { all(leaves, ds, inner, inner - 1, 40) };
            for s in subs { let mut v = vec![W::Open(d)]; v.extend(s); v.push(W::Close(d)); trees.push(v); }
        }
    }
    let mut out: Vec<Vec<W>> = vec![vec![]];
    let mut last: Vec<Vec<W>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for p in &last { for t in &trees {
            if out.len() + next.len() >= cap { break; }
            let mut v = p.clone(); v.extend(t.iter().cloned()); next.push(v);
        } }
        out.extend(next.iter().cloned());
        last = next;
        if out.len() >= cap { break; }
    }
    out
}
/// how big a sentence is to become: long lists, deep recursion
pub struct Size { long: usize, deep: usize, pub most: usize }
impl Size {
    pub fn small() -> Self { Size { long: 0, deep: 5, most: 600 } }
    pub fn long(r: &mut Rng) -> Self { Size { long: 5 + r.below(70), deep: 5, most: 600 } }
    pub fn deep(r: &mut Rng) -> Self { Size { long: 0, deep: 6 + r.below(40), most: 600 } }
    pub fn very_long() -> Self { Size { long: 1100, deep: 5, most: 3500 } }
    pub fn very_deep() -> Self { Size { long: 0, deep: 150, most: 1500 } }
}
/// a sentence of the grammar
pub fn sentence(g: &G, r: &mut Rng, depth: usize, z: &mut Size, o: &mut Vec<W>) {
    let few = |r: &mut Rng, z: &mut Size| if depth > 2 * z.deep { 0 } else if z.long > 0 && r.chance(2, 3) { let n = z.long; z.long = 0; n } else if z.deep > 100 { 1 } else if z.deep > 5 { [0, 1, 1, 1, 2][r.below(5)] } else { [0, 1, 1, 2, 3, 4][r.below(6)] };
    match g {
        G::Leaf(n, _) => o.push(W::T(n.to_string())),
        G::Empty | G::Eof | G::NotEof => {}
        G::Group(d, x) => { let k = dcode(*d); o.push(W::Open(k)); sentence(x, r, depth + 1, z, o); o.push(W::Close(k)); }
        G::Any(x) => for _ in 0..few(r, z) { sentence(x, r, depth + 1, z, o); if o.len() > z.most { break; } },
        G::Maybe(p, t) => if few(r, z) > 0 { sentence(p, r, depth + 1, z, o); sentence(t, r, depth + 1, z, o); },
        G::Sep(t, p) | G::Left(p, t) | G::Right(p, t) => {
            let t2 = t; sentence(t2, r, depth + 1, z, o);
            for _ in 0..few(r, z) { if o.len() > z.most { break; } sentence(p, r, depth + 1, z, o); sentence(t2, r, depth + 1, z, o); }
        }
        G::Pun(t, p) => {
            let n = few(r, z);
            for i in 0..n { sentence(t, r, depth + 1, z, o); if i + 1 < n || r.chance(1, 2) { sentence(p, r, depth + 1, z, o); } if o.len() > z.most { break; } }
        }
        G::Either(a, b) => sentence(if r.chance(1, 2) { a } else { b }, r, depth + 1, z, o),
        G::Seq { fields, .. } => for f in fields { sentence(&f.1, r, depth + 1, z, o); },
        G::Choice(v) => if !v.is_empty() {
            let flat = depth > 2 * z.deep || o.len() > z.most;
            let i = if flat { (0..v.len()).find(|&i| !rec(&v[i])).unwrap_or(0) }
                else if z.deep > 100 || z.deep > 5 && r.chance(5, 6) { let c: Vec<usize> = (0..v.len()).filter(|&i| any_rec(&v[i])).collect(); if c.is_empty() { r.below(v.len()) } else { *r.pick(&c) } }
                else { r.below(v.len()) };
            sentence(&v[i], r, depth + 1, z, o);
        },
        G::Rec(f) => sentence(&f(), r, depth + 1, z, o),
    }
}
fn any_rec(g: &G) -> bool {
    match g {
        G::Leaf(..) | G::Empty | G::Eof | G::NotEof => false,
        G::Group(_, x) | G::Any(x) => any_rec(x),
        G::Maybe(a, b) | G::Sep(a, b) | G::Pun(a, b) | G::Left(a, b) | G::Right(a, b) | G::Either(a, b) => any_rec(a) || any_rec(b),
        G::Seq { fields, .. } => fields.iter().any(|f| any_rec(&f.1)),
        G::Choice(v) => v.iter().any(any_rec),
        G::Rec(_) => true,
    }
}
fn rec(g: &G) -> bool {
    match g {
        G::Leaf(..) | G::Empty | G::Eof | G::NotEof => false,
        G::Group(_, x) | G::Any(x) => rec(x),
        G::Maybe(a, b) | G::Sep(a, b) | G::Pun(a, b) | G::Left(a, b) | G::Right(a, b) | G::Either(a, b) => rec(a) || rec(b),
        G::Seq { fields, .. } => fields.iter().any(|f| rec(&f.1)),
        G::Choice(v) => v.iter().all(rec),
        G::Rec(_) => true,
    }
}
/// tokens that most grammars do not know
const FOREIGN: [&str; 15] = ["'\"p\nq\"'", "','", "';'", "'.'", "':'", "'?'", "'='", "'fn'", "'_'", "'=>'", "'self'", "ident", "int", "str", "'1.5'"];
/// damages a sentence but keeps groups balanced
pub fn damage(v: &mut Vec<W>, leaves: &[&'static str], ds: &[u8], r: &mut Rng) {
    for _ in 0..1 + r.below(2) {
        let any = |r: &mut Rng| W::T(if r.chance(1, 4) || leaves.is_empty() { r.pick(&FOREIGN).to_string() } else { r.pick(leaves).to_string() });
        match r.below(8) {
            // in front of the end of a group, or at the end
            6 | 7 => {
                let at: Vec<usize> = (0..v.len()).filter(|&i| matches!(v[i], W::Close(_))).chain([v.len()]).collect();
                let i = *r.pick(&at);
                let w = if r.chance(1, 2) { W::T(r.pick(&FOREIGN).to_string()) } else { any(r) };
                v.insert(i, w);
            }
            0 => { let i = r.below(v.len() + 1); let w = any(r); v.insert(i, w); }
            1 if !v.is_empty() => { let i = r.below(v.len()); if let W::T(_) = v[i] { v.remove(i); } }
            2 if !v.is_empty() => { let i = r.below(v.len()); if let W::T(_) = v[i] { v[i] = any(r); } }
            3 if v.len() > 1 => { let i = r.below(v.len() - 1); if let (W::T(_), W::T(_)) = (&v[i], &v[i + 1]) { v.swap(i, i + 1); } }
            4 => { let i = r.below(v.len() + 1); let d = if ds.is_empty() { 0 } else { *r.pick(ds) }; v.insert(i, W::Close(d)); v.insert(i, W::Open(d)); }
            _ => { while v.last().map_or(false, |w| matches!(w, W::T(_))) && r.chance(2, 3) { v.pop(); } }
        }
    }
}
/// text of a token sequence; names are numbered by position so that every token is distinguishable
pub fn text(v: &[W], r: &mut Rng, lines: bool) -> String {
    let mut s = String::new();
    for (i, w) in v.iter().enumerate() {
        let t = match w { W::T(n) => leaf_text(n, i), W::Open(d) => dtext(*d, true).into(), W::Close(d) => dtext(*d, false).into() };
        if i > 0 {
            if lines { s.push_str([" ", " ", "\n", "  ", "\n   "][r.below(5)]); } else { s.push(' '); }
        }
        s.push_str(&t);
    }
    s
}

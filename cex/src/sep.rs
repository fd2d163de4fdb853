//! C09, C10: histories of operations on Separated against a plain list of items and separators.
use crate::rng::Rng;
use crate::{Found, Run};
use parsel::ast::Separated;
use parsel::proc_macro2::{Literal, Punct, Spacing, TokenStream, TokenTree};
use parsel::quote::ToTokens;
use parsel::syn::parse::{Parse, ParseStream};
use parsel::syn::punctuated::{Pair, Punctuated as SynP};
use std::convert::TryFrom;

/// an item with an identity
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct V(pub u32);
/// a separator with an identity; the default one is 0
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct S(pub u32);
const MARKS: &[u8] = b",;+-*/%&|^!<>=.";
impl ToTokens for V { fn to_tokens(&self, t: &mut TokenStream) { t.extend(Some(TokenTree::from(Literal::u32_unsuffixed(self.0)))); } }
impl ToTokens for S { fn to_tokens(&self, t: &mut TokenStream) { t.extend(Some(TokenTree::from(Punct::new(MARKS[self.0 as usize % MARKS.len()] as char, Spacing::Alone)))); } }
impl Parse for V { fn parse(i: ParseStream) -> parsel::syn::Result<Self> { Ok(V(i.parse::<parsel::syn::LitInt>()?.base10_parse()?)) } }
impl Parse for S {
    fn parse(i: ParseStream) -> parsel::syn::Result<Self> {
        i.step(|c| match c.punct() {
            Some((p, r)) => match MARKS.iter().position(|m| *m as char == p.as_char()) { Some(k) => Ok((S(k as u32), r)), None => Err(c.error("mark")) },
            None => Err(c.error("mark")),
        })
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct M { pub v: Vec<u32>, pub p: Vec<u32> }
fn of(p: &SynP<V, S>) -> (M, Vec<bool>) {
    let mut m = M { v: vec![], p: vec![] };
    let mut ends = vec![];
    for x in p.pairs() { match x { Pair::Punctuated(v, s) => { m.v.push(v.0); m.p.push(s.0); ends.push(false); } Pair::End(v) => { m.v.push(v.0); ends.push(true); } } }
    (m, ends)
}
pub fn syn_of(m: &M) -> SynP<V, S> {
    let mut p = SynP::new();
    for (i, v) in m.v.iter().enumerate() { p.push_value(V(*v)); if let Some(s) = m.p.get(i) { p.push_punct(S(*s)); } }
    p
}
type Sep = Separated<V, S>;
/// everything that can be seen of a value, against the model
fn look(s: &Sep, m: &M) -> Result<(), (String, String)> {
    let n = m.v.len();
    let e = |what: &str, a: String, b: String| Err((format!("{}: {}", what, a), format!("{}: {}", what, b)));
    let (seen, _) = of(s);
    if seen != *m { return e("parts", format!("{:?}", m), format!("{:?}", seen)); }
    if s.trailing_punct() || s.is_empty() { return e("invariant", "one separator between neighbours, none at the end".into(), format!("{:?}", seen)); }
    if s.len().get() != n { return e("len", n.to_string(), s.len().to_string()); }
    if s.first().0 != m.v[0] { return e("first", m.v[0].to_string(), s.first().0.to_string()); }
    if s.last().0 != m.v[n - 1] { return e("last", m.v[n - 1].to_string(), s.last().0.to_string()); }
    let it: Vec<u32> = s.iter().map(|x| x.0).collect();
    if it != m.v { return e("iter", format!("{:?}", m.v), format!("{:?}", it)); }
    let it: Vec<u32> = s.into_iter().map(|x| x.0).collect();
    if it != m.v { return e("(&s).into_iter", format!("{:?}", m.v), format!("{:?}", it)); }
    let it: Vec<u32> = s.clone().into_iter().map(|x| x.0).collect();
    if it != m.v { return e("into_iter", format!("{:?}", m.v), format!("{:?}", it)); }
    for i in 0..n { if s[i].0 != m.v[i] { return e("index", format!("[{}] {}", i, m.v[i]), format!("[{}] {}", i, s[i].0)); } }
    let it: Vec<(u32, Option<u32>)> = s.pairs().map(|x| match x { Pair::Punctuated(v, s) => (v.0, Some(s.0)), Pair::End(v) => (v.0, None) }).collect();
    let want: Vec<(u32, Option<u32>)> = (0..n).map(|i| (m.v[i], m.p.get(i).copied())).collect();
    if it != want { return e("pairs", format!("{:?}", want), format!("{:?}", it)); }
    let it: Vec<(u32, Option<u32>)> = s.clone().into_pairs().map(|x| match x { Pair::Punctuated(v, s) => (v.0, Some(s.0)), Pair::End(v) => (v.0, None) }).collect();
    if it != want { return e("into_pairs", format!("{:?}", want), format!("{:?}", it)); }
    Ok(())
}
fn split(s: &Sep, m: &M) -> Result<(), (String, String)> {
    let n = m.v.len();
    let (f, r) = s.clone().into_first_rest();
    let got = (f.0, r.iter().map(|(p, v)| (p.0, v.0)).collect::<Vec<_>>());
    let want = (m.v[0], (1..n).map(|i| (m.p[i - 1], m.v[i])).collect::<Vec<_>>());
    if got != want { return Err((format!("into_first_rest: {:?}", want), format!("into_first_rest: {:?}", got))); }
    let (l, r) = s.clone().into_last_rest();
    let got = (l.0, r.iter().map(|(v, p)| (v.0, p.0)).collect::<Vec<_>>());
    let want = (m.v[n - 1], (0..n - 1).map(|i| (m.v[i], m.p[i])).collect::<Vec<_>>());
    if got != want { return Err((format!("into_last_rest: {:?}", want), format!("into_last_rest: {:?}", got))); }
    Ok(())
}
struct Stops { left: u32 }
impl Iterator for Stops { type Item = (S, V); fn next(&mut self) -> Option<(S, V)> { if self.left == 0 { panic!("source of items stops"); } self.left -= 1; Some((S(9), V(900 + self.left))) } }
struct StopsV { left: u32 }
impl Iterator for StopsV { type Item = V; fn next(&mut self) -> Option<V> { if self.left == 0 { panic!("source of items stops"); } self.left -= 1; Some(V(900 + self.left)) } }

// what must not exist: operations that could empty the list or leave a separator at the end.
// The inherent method is found first, if the trait is implemented.
struct Probe<T>(T);
macro_rules! probe { ($t:ident, $m:ident, $b:path, $call:expr) => {
    trait $t { fn $m(&mut self) -> Option<&mut SynP<V, S>>; }
    impl<T: $b> $t for Probe<T> { fn $m(&mut self) -> Option<&mut SynP<V, S>> { let f: fn(&mut T) -> &mut SynP<V, S> = $call; Some(f(&mut self.0)) } }
} }
probe!(YesDeref, p_deref, std::ops::DerefMut<Target = SynP<V, S>>, |x| &mut **x);
probe!(YesAsMut, p_asmut, AsMut<SynP<V, S>>, |x| x.as_mut());
probe!(YesBorrow, p_borrow, std::borrow::BorrowMut<SynP<V, S>>, |x| x.borrow_mut());
macro_rules! noprobe { ($t:ident, $m:ident) => { trait $t { fn $m(&mut self) -> Option<&mut SynP<V, S>> { None } } impl<T> $t for &mut Probe<T> {} } }
noprobe!(NoD, p_deref); noprobe!(NoA, p_asmut); noprobe!(NoB, p_borrow);
struct Mk<T>(std::marker::PhantomData<T>);
trait YesDefault<T> { fn p_default(&self) -> Option<T>; }
impl<T: Default> YesDefault<T> for Mk<T> { fn p_default(&self) -> Option<T> { Some(T::default()) } }
trait NoDefault<T> { fn p_default(&self) -> Option<T> { None } }
impl<T> NoDefault<T> for &Mk<T> {}
trait YesCollect<T> { fn p_collect(&self) -> Option<T>; }
impl<T: std::iter::FromIterator<V>> YesCollect<T> for Mk<T> { fn p_collect(&self) -> Option<T> { Some(std::iter::empty::<V>().collect()) } }
trait NoCollect<T> { fn p_collect(&self) -> Option<T> { None } }
impl<T> NoCollect<T> for &Mk<T> {}
trait YesCollectP<T> { fn p_collectp(&self) -> Option<T>; }
impl<T: std::iter::FromIterator<Pair<V, S>>> YesCollectP<T> for Mk<T> { fn p_collectp(&self) -> Option<T> { Some(vec![Pair::Punctuated(V(1), S(1))].into_iter().collect()) } }
trait NoCollectP<T> { fn p_collectp(&self) -> Option<T> { None } }
impl<T> NoCollectP<T> for &Mk<T> {}
trait YesFrom<T> { fn p_from(&self) -> Option<T>; }
impl<T: From<SynP<V, S>>> YesFrom<T> for Mk<T> { fn p_from(&self) -> Option<T> { Some(T::from(SynP::new())) } }
trait NoFrom<T> { fn p_from(&self) -> Option<T> { None } }
impl<T> NoFrom<T> for &Mk<T> {}
trait YesExtP { fn p_extp(&mut self) -> bool; }
impl<T: Extend<Pair<V, S>>> YesExtP for Probe<T> { fn p_extp(&mut self) -> bool { self.0.extend(vec![Pair::Punctuated(V(1), S(1))]); true } }
trait NoExtP { fn p_extp(&mut self) -> bool { false } }
impl<T> NoExtP for &mut Probe<T> {}

fn probes() -> Option<Found> {
    let base = || Probe(Sep::try_from(syn_of(&M { v: vec![1, 2], p: vec![3] })).unwrap());
    let bad = |how: &str, s: &Sep| if s.is_empty() || s.trailing_punct() {
        Some(Found { input: how.into(), expected: "at least one item and no separator at the end".into(), got: format!("{:?}", of(s).0) }) } else { None };
    let mut s = base();
    let hit = match (&mut s).p_deref() { Some(x) => { x.clear(); true } None => false };
    if hit { if let Some(f) = bad("1 ; 2 through DerefMut, then clear()", &s.0) { return Some(f); } }
    let mut s = base();
    let hit = match (&mut s).p_asmut() { Some(x) => { x.clear(); true } None => false };
    if hit { if let Some(f) = bad("1 ; 2 through AsMut, then clear()", &s.0) { return Some(f); } }
    let mut s = base();
    let hit = match (&mut s).p_borrow() { Some(x) => { x.clear(); true } None => false };
    if hit { if let Some(f) = bad("1 ; 2 through BorrowMut, then clear()", &s.0) { return Some(f); } }
    if let Some(s) = (&Mk::<Sep>(std::marker::PhantomData)).p_default() { if let Some(f) = bad("Separated::default()", &s) { return Some(f); } }
    if let Some(s) = (&Mk::<Sep>(std::marker::PhantomData)).p_collect() { if let Some(f) = bad("collect() of no items", &s) { return Some(f); } }
    if let Some(s) = (&Mk::<Sep>(std::marker::PhantomData)).p_collectp() { if let Some(f) = bad("collect() of the pair (1, ;)", &s) { return Some(f); } }
    if let Some(s) = (&Mk::<Sep>(std::marker::PhantomData)).p_from() { if let Some(f) = bad("from(an empty Punctuated)", &s) { return Some(f); } }
    let mut s = base();
    if (&mut s).p_extp() { if let Some(f) = bad("1 ; 2 extended with the pair (1, ;)", &s.0) { return Some(f); } }
    None
}

pub fn run(p: &str, run: &mut Run) -> Option<Found> {
    let mut r = Rng(run.seed ^ 0x5e9);
    let fail = |case: &str, e: (String, String)| Some(Found { input: case.to_string(), expected: e.0, got: e.1 });
    if p == "C09" {
        run.start("traits that Separated must not have");
        let f = probes();
        run.stop();
        if f.is_some() { return f; }
    }
    let (rounds, steps) = if run.thorough { (60_000, 24) } else { (6_000, 12) };
    for round in 0..rounds {
        if run.late() { break; }
        let mut id = 100;
        let mut next = || { id += 1; id };
        // a start: conversion or parsing
        let n = if round < 40 { round as usize / 4 } else { let k = r.below(40); if k == 0 { 60 + r.below(80) } else { r.below(7) } };
        let v: Vec<u32> = (0..n).map(|_| next()).collect();
        let np = if round % 4 == 0 { n } else { n.saturating_sub(1) };
        let m0 = M { p: (0..np).map(|_| 1 + r.below(14) as u32).collect(), v };
        let mut case;
        let mut s: Sep;
        if round % 3 == 0 {
            let text = syn_of(&m0).to_token_stream().to_string();
            case = format!("parse of {:?}", text);
            run.start(&case);
            let got = run.guard(|| parsel::syn::parse_str::<Sep>(&text).map_err(|e| e.to_string()));
            run.stop();
            let ok = !m0.v.is_empty() && m0.p.len() + 1 == m0.v.len();
            run.count(&case, !ok);
            match got { Ok(Ok(x)) if ok => s = x, Ok(Err(_)) if !ok => continue,
                g => return fail(&case, (if ok { "accepted".into() } else { "refused: empty or ends with a separator".into() }, format!("{:?}", g))) }
        } else {
            case = format!("try_from {:?}", m0);
            run.start(&case);
            let got = run.guard(|| Sep::try_from(syn_of(&m0)).map_err(|e| e.to_string()));
            run.stop();
            let ok = !m0.v.is_empty() && m0.p.len() + 1 == m0.v.len();
            run.count(&case, !ok);
            match got { Ok(Ok(x)) if ok => s = x, Ok(Err(_)) if !ok => continue,
                g => return fail(&case, (if ok { "accepted".into() } else { "refused: empty or ends with a separator".into() }, format!("{:?}", g))) }
        }
        let mut m = m0;
        if let Err(e) = run.guard(|| look(&s, &m)).unwrap_or_else(|x| Err(("no panic".into(), x))) { return fail(&case, e); }
        for _ in 0..(if p == "C10" { r.below(2) } else { 1 + r.below(steps) }) {
            let n = m.v.len();
            let i = r.below(n);
            let w = next();
            let op = r.below(17);
            let k = r.below(4);
            let vs: Vec<u32> = (0..k).map(|_| next()).collect();
            let ps: Vec<u32> = (0..k).map(|_| 1 + r.below(14) as u32).collect();
            let (q, j) = (1 + r.below(14) as u32, r.below(n + 1));
            case += &match op {
                0 => format!("; push({}, {})", q, w), 1 => format!("; push_value({})", w), 2 | 3 => format!("; insert({}, {})", j, w),
                4 => format!("; extend items {:?}", vs), 5 => format!("; extend pairs {:?} {:?}", ps, vs), 6 => format!("; *first_mut() = {}", w),
                7 => format!("; *last_mut() = {}", w), 8 => format!("; [{}] = {}", i, w), 9 => format!("; iter_mut()[{}] = {}", i, w),
                10 => format!("; pairs_mut()[{}] = {}", i, w), 11 => "; clone".into(), 12 => "; into_inner, try_from".into(),
                13 => format!("; (&mut s).into_iter()[{}] = {}", i, w), 14 => "; Punctuated::from, try_from".into(),
                15 => format!("; extend pairs, source panics after {}", k), _ => format!("; extend items, source panics after {}", k) };
            run.start(&case);
            let res = run.guard(|| {
                match op {
                    0 => { s.push(S(q), V(w)); m.p.push(q); m.v.push(w); }
                    1 => { s.push_value(V(w)); m.p.push(0); m.v.push(w); }
                    2 | 3 => { s.insert(j, V(w)); m.p.insert(j.min(m.p.len()), 0); m.v.insert(j, w); }
                    4 => { s.extend(vs.iter().map(|x| V(*x))); for x in &vs { m.p.push(0); m.v.push(*x); } }
                    5 => { s.extend(ps.iter().zip(&vs).map(|(a, b)| (S(*a), V(*b)))); m.p.extend(&ps); m.v.extend(&vs); }
                    6 => { s.first_mut().0 = w; m.v[0] = w; }
                    7 => { s.last_mut().0 = w; let l = m.v.len() - 1; m.v[l] = w; }
                    8 => { s[i].0 = w; m.v[i] = w; }
                    9 => { s.iter_mut().nth(i).unwrap().0 = w; m.v[i] = w; }
                    10 => { match s.pairs_mut().nth(i).unwrap() { Pair::Punctuated(v, x) => { v.0 = w; x.0 = q; m.p[i] = q; } Pair::End(v) => { v.0 = w; } } m.v[i] = w; }
                    11 => { s = s.clone(); }
                    12 => { s = Sep::try_from(s.clone().into_inner()).unwrap(); }
                    13 => { (&mut s).into_iter().nth(i).unwrap().0 = w; m.v[i] = w; }
                    14 => { s = Sep::try_from(SynP::<V, S>::from(s.clone())).unwrap(); }
                    _ => {}
                }
            });
            if op >= 15 {
                let _ = run.guard(|| if op == 15 { s.extend(Stops { left: k as u32 }) } else { s.extend(StopsV { left: k as u32 }) });
                if s.is_empty() || s.trailing_punct() { return fail(&case, ("still no separator at the end".into(), format!("{:?}", of(&s).0))); }
                m = of(&s).0;
            }
            run.stop();
            run.count(&case, true);
            if let Err(e) = res { return fail(&case, ("no panic".into(), e)); }
            if let Err(e) = run.guard(|| look(&s, &m)).unwrap_or_else(|x| Err(("no panic".into(), x))) { return fail(&case, e); }
        }
        if p == "C10" {
            run.start(&case);
            let e = run.guard(|| split(&s, &m));
            run.stop();
            run.count(&case, m.v.len() > 1);
            if let Err(e) = e.unwrap_or_else(|x| Err(("no panic".into(), x))) { return fail(&case, e); }
        }
    }
    None
}

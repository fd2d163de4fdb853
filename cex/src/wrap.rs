//! C23: the wrappers hand out what was put in: constructors, conversions, accessors, iteration, indexing.
use crate::rng::Rng;
use crate::sep::{syn_of, M, S, V};
use crate::{Found, Run};
use parsel::ast::{Any, Brace, Bracket, Maybe, Paren, Punctuated, Separated};
use parsel::proc_macro2::{Span, TokenStream};
use parsel::quote::ToTokens;
use parsel::syn::punctuated::{Pair, Punctuated as SynP};
use parsel::syn::{spanned::Spanned, token};
use std::borrow::{Borrow, BorrowMut};
use std::convert::TryFrom;
use std::ops::{Deref, DerefMut};

macro_rules! same { ($run:expr, $case:expr, $got:expr, $want:expr) => {{
    let case: String = $case;
    $run.start(&case);
    let got = $run.guard(|| format!("{:?}", $got));
    $run.stop();
    let want = format!("{:?}", $want);
    $run.count(&case, true);
    if got.as_ref().ok() != Some(&want) { return Some(Found { input: case, expected: want, got: got.unwrap_or_else(|m| format!("panic: {}", m)) }); }
}} }
macro_rules! t { ($run:ident, $d:ident; $($what:literal, $got:expr, $want:expr;)*) => { $( same!($run, format!("{}: {}", $d, $what), $got, $want); )* } }
/// an item that carries a span
#[derive(Clone, Debug)]
struct W(u32, Span);
impl ToTokens for W { fn to_tokens(&self, t: &mut TokenStream) { let mut l = parsel::proc_macro2::Literal::u32_unsuffixed(self.0); l.set_span(self.1); t.extend(Some(parsel::proc_macro2::TokenTree::from(l))); } }
fn at(s: Span) -> (usize, usize, usize, usize) { (s.start().line, s.start().column, s.end().line, s.end().column) }
/// several lines of tokens, so that spans differ
fn spans() -> Vec<Span> {
    let t: TokenStream = "aa bb ccc\n d (e)\n\n ffff; g\nh".parse().unwrap();
    t.into_iter().map(|x| x.span()).collect()
}
fn pairs(p: &SynP<V, S>) -> Vec<(u32, Option<u32>)> { p.pairs().map(|x| match x { Pair::Punctuated(v, s) => (v.0, Some(s.0)), Pair::End(v) => (v.0, None) }).collect() }
fn want(m: &M) -> Vec<(u32, Option<u32>)> { m.v.iter().enumerate().map(|(i, v)| (*v, m.p.get(i).copied())).collect() }

fn maybe(run: &mut Run, a: u32, b: u32, c: u32) -> Option<Found> {
    type Mb = Maybe<S, V>;
    let x = || Mb::from((S(a), V(b)));
    let none = || Mb::new();
    for some in [true, false] {
        let q = || if some { x() } else { none() };
        let o = |v: u32| if some { Some(v) } else { None };
        let d = format!("Maybe {}", if some { format!("(S({}), V({}))", a, b) } else { "empty".into() });
        let whole = if some { Some((S(a), V(b))) } else { None };
        t! { run, d;
            "into_parts", q().into_parts(), whole;
            "as_parts", q().as_parts(), whole.as_ref();
            "deref", q().deref(), whole;
            "as_prefix", q().as_prefix().map(|p| p.0), o(a);
            "into_prefix", q().into_prefix().map(|p| p.0), o(a);
            "as_ref", q().as_ref().map(|p| p.0), o(b);
            "into_inner", q().into_inner().map(|p| p.0), o(b);
            "into_prefix_iter", q().into_prefix_iter().map(|p| p.0).collect::<Vec<_>>(), o(a).into_iter().collect::<Vec<_>>();
            "prefix_iter", q().prefix_iter().map(|p| p.0).collect::<Vec<_>>(), o(a).into_iter().collect::<Vec<_>>();
            "iter", q().iter().map(|p| p.0).collect::<Vec<_>>(), o(b).into_iter().collect::<Vec<_>>();
            "into_iter", q().into_iter().map(|p| p.0).collect::<Vec<_>>(), o(b).into_iter().collect::<Vec<_>>();
            "(&m).into_iter", (&q()).into_iter().map(|p| p.0).collect::<Vec<_>>(), o(b).into_iter().collect::<Vec<_>>();
            "parts_iter", q().parts_iter().collect::<Vec<_>>(), whole.iter().collect::<Vec<_>>();
            "into_parts_iter", q().into_parts_iter().collect::<Vec<_>>(), whole.clone().into_iter().collect::<Vec<_>>();
            "as_prefix_mut", { let mut m = q(); if let Some(p) = m.as_prefix_mut() { p.0 = c; } m.into_parts() }, if some { Some((S(c), V(b))) } else { None };
            "as_mut", { let mut m = q(); if let Some(p) = m.as_mut() { p.0 = c; } m.into_parts() }, if some { Some((S(a), V(c))) } else { None };
            "as_parts_mut", { let mut m = q(); if let Some(p) = m.as_parts_mut() { p.0.0 = c; } m.into_parts() }, if some { Some((S(c), V(b))) } else { None };
            "prefix_iter_mut", { let mut m = q(); for p in m.prefix_iter_mut() { p.0 = c; } m.into_parts() }, if some { Some((S(c), V(b))) } else { None };
            "iter_mut", { let mut m = q(); for p in m.iter_mut() { p.0 = c; } m.into_parts() }, if some { Some((S(a), V(c))) } else { None };
            "(&mut m).into_iter", { let mut m = q(); for p in &mut m { p.0 = c; } m.into_parts() }, if some { Some((S(a), V(c))) } else { None };
            "parts_iter_mut", { let mut m = q(); for p in m.parts_iter_mut() { p.1.0 = c; } m.into_parts() }, if some { Some((S(a), V(c))) } else { None };
            "deref_mut", { let mut m = q(); *m.deref_mut() = Some((S(c), V(a))); m.into_parts() }, Some((S(c), V(a)));
            "deref_mut to nothing", { let mut m = q(); *m.deref_mut() = None; m.into_parts() }, None::<(S, V)>;
            "from(Option<(P, T)>)", Mb::from(whole.clone()).into_parts(), whole;
            "from(Option<T>)", Mb::from(o(b).map(V)).into_parts(), if some { Some((S(0), V(b))) } else { None };
            "debug", format!("{:?}", q()), format!("{:?}", whole);
            "clone, equality", q() == q().clone(), true;
        }
    }
    same!(run, format!("Maybe from (S({}), V({}))", a, b), x().into_parts(), Some((S(a), V(b))));
    same!(run, format!("Maybe from V({})", b), Mb::from(V(b)).into_parts(), Some((S(0), V(b))));
    same!(run, "Maybe::new, Maybe::default".into(), (none().into_parts(), Mb::default().into_parts()), (None::<(S, V)>, None::<(S, V)>));
    None
}

macro_rules! delim { ($name:ident, $N:ident, $tok:ident, $asn:ident, $inton:ident) => {
    fn $name(run: &mut Run, sp: &[Span], i: usize, j: usize, b: u32, c: u32) -> Option<Found> {
        let tspan = |t: &token::$tok| (at(t.span.open()), at(t.span.close()), at(t.span.join()));
        let of = |s: Span| tspan(&token::$tok(s));
        let x = || $N::new(W(b, sp[i]), sp[j]);
        let d = format!("{}::new(item {} at {:?}, span {:?})", stringify!($N), b, at(sp[i]), at(sp[j]));
        let w = |x: &W| (x.0, at(x.1));
        t! { run, d;
            "into_inner", w(&x().into_inner()), (b, at(sp[i]));
            "span token", tspan(x().$asn()), of(sp[j]);
            "span token by value", tspan(&x().$inton()), of(sp[j]);
            "as_parts", { let y = x(); let (p, v) = y.as_parts(); (tspan(p), w(v)) }, (of(sp[j]), (b, at(sp[i])));
            "into_parts", { let (p, v) = x().into_parts(); (tspan(&p), w(&v)) }, (of(sp[j]), (b, at(sp[i])));
            "deref", w(x().deref()), (b, at(sp[i]));
            "AsRef", w(AsRef::<W>::as_ref(&x())), (b, at(sp[i]));
            "deref_mut", { let mut y = x(); y.deref_mut().0 = c; let (p, v) = y.into_parts(); (tspan(&p), w(&v)) }, (of(sp[j]), (c, at(sp[i])));
            "AsMut", { let mut y = x(); AsMut::<W>::as_mut(&mut y).0 = c; let (p, v) = y.into_parts(); (tspan(&p), w(&v)) }, (of(sp[j]), (c, at(sp[i])));
            "from(item): item and its span", { let (p, v) = $N::from(W(b, sp[i])).into_parts(); (tspan(&p), w(&v)) }, (of(sp[i]), (b, at(sp[i])));
            "from((token, item))", { let (p, v) = $N::from((token::$tok(sp[j]), W(b, sp[i]))).into_parts(); (tspan(&p), w(&v)) }, (of(sp[j]), (b, at(sp[i])));
            "clone", { let (p, v) = x().clone().into_parts(); (tspan(&p), w(&v)) }, (of(sp[j]), (b, at(sp[i])));
        }
        // a token with an opening and a closing span of its own
        let g: TokenStream = " ( x\n y ) [ z ] {\n q }".parse().unwrap();
        for tt in g {
            let mut t = token::$tok(sp[j]);
            if let parsel::proc_macro2::TokenTree::Group(g) = &tt { t.span = g.delim_span(); }
            let own = tspan(&t);
            same!(run, format!("{}::from((token with open and close spans {:?}, item))", stringify!($N), own), { let (p, v) = $N::from((t, W(b, sp[i]))).into_parts(); (tspan(&p), w(&v)) }, (own, (b, at(sp[i]))));
            same!(run, format!("{} default of the item, token kept: {:?}", stringify!($N), own), { let y = $N::from((t, V(c))); (tspan(y.$asn()), tspan(&y.$inton())) }, (own, own));
        }
        same!(run, format!("{}<S>::default()", stringify!($N)), $N::<S>::default().into_inner(), S(0));
        None
    }
} }
delim!(paren, Paren, Paren, as_parens, into_parens);
delim!(bracket, Bracket, Bracket, as_brackets, into_brackets);
delim!(brace, Brace, Brace, as_braces, into_braces);

fn any(run: &mut Run, v: &[u32], r: &mut Rng) -> Option<Found> {
    type A = Any<V>;
    let n = v.len();
    let vs: Vec<V> = v.iter().map(|x| V(*x)).collect();
    let x = || A::from(vs.clone());
    let d = format!("Any from {:?}", v);
    let k = r.below(n + 2);
    let w = V(7000 + r.below(1000) as u32);
    let set = |i: usize| { let mut y = vs.clone(); y[i] = w.clone(); y };
    let more: Vec<V> = (0..if r.chance(1, 20) { 90 } else { r.below(4) }).map(|i| V(8000 + i as u32)).collect();
    t! { run, d;
        "into_inner", x().into_inner(), vs;
        "Vec::from", Vec::<V>::from(x()), vs;
        "len, is_empty", (x().len(), x().is_empty()), (n, n == 0);
        "iter", x().iter().collect::<Vec<_>>(), vs.iter().collect::<Vec<_>>();
        "into_iter", x().into_iter().collect::<Vec<_>>(), vs;
        "(&a).into_iter", (&x()).into_iter().cloned().collect::<Vec<_>>(), vs;
        "deref", x().deref(), vs;
        "AsRef<[T]>", AsRef::<[V]>::as_ref(&x()), vs;
        "AsRef<Vec>", AsRef::<Vec<V>>::as_ref(&x()), vs;
        "Borrow<[T]>", Borrow::<[V]>::borrow(&x()), vs;
        "Borrow<Vec>", Borrow::<Vec<V>>::borrow(&x()), vs;
        "collect", vs.iter().cloned().collect::<A>().into_inner(), vs;
        "new, default", (A::new().into_inner(), A::default().into_inner()), (Vec::<V>::new(), Vec::<V>::new());
        "iter_mut", { let mut y = x(); for (i, e) in y.iter_mut().enumerate() { e.0 += i as u32 * 1000; } y.into_inner() }, vs.iter().enumerate().map(|(i, e)| V(e.0 + i as u32 * 1000)).collect::<Vec<_>>();
        "(&mut a).into_iter", { let mut y = x(); for (i, e) in (&mut y).into_iter().enumerate() { e.0 += i as u32 * 1000; } y.into_inner() }, vs.iter().enumerate().map(|(i, e)| V(e.0 + i as u32 * 1000)).collect::<Vec<_>>();
        "extend", { let mut y = x(); y.extend(more.clone()); y.into_inner() }, vs.iter().chain(&more).cloned().collect::<Vec<_>>();
        "deref_mut push", { let mut y = x(); y.deref_mut().push(w.clone()); y.into_inner() }, vs.iter().chain(Some(&w)).cloned().collect::<Vec<_>>();
        "AsMut<Vec> push", { let mut y = x(); AsMut::<Vec<V>>::as_mut(&mut y).push(w.clone()); y.into_inner() }, vs.iter().chain(Some(&w)).cloned().collect::<Vec<_>>();
        "BorrowMut<Vec> push", { let mut y = x(); BorrowMut::<Vec<V>>::borrow_mut(&mut y).push(w.clone()); y.into_inner() }, vs.iter().chain(Some(&w)).cloned().collect::<Vec<_>>();
        "AsMut<[T]> reverse", { let mut y = x(); AsMut::<[V]>::as_mut(&mut y).reverse(); y.into_inner() }, vs.iter().rev().cloned().collect::<Vec<_>>();
        "BorrowMut<[T]> reverse", { let mut y = x(); BorrowMut::<[V]>::borrow_mut(&mut y).reverse(); y.into_inner() }, vs.iter().rev().cloned().collect::<Vec<_>>();
        "index ..", &x()[..], vs;
    }
    same!(run, format!("{}: get({})", d, k), x().get(k), vs.get(k));
    same!(run, format!("{}: get_mut({}) = {:?}", d, k, w), { let mut y = x(); if let Some(e) = y.get_mut(k) { *e = w.clone(); } y.into_inner() }, if k < n { set(k) } else { vs.clone() });
    same!(run, format!("{}: get({}..)", d, k), x().get(k..), vs.get(k..));
    for i in 0..n {
        same!(run, format!("{}: [{}]", d, i), x()[i], vs[i]);
        same!(run, format!("{}: [{}] = {:?}", d, i, w), { let mut y = x(); y[i] = w.clone(); y.into_inner() }, set(i));
        same!(run, format!("{}: [{}..]", d, i), &x()[i..], &vs[i..]);
        same!(run, format!("{}: [..={}] reversed in place", d, i), { let mut y = x(); y[..=i].reverse(); y.into_inner() }, { let mut y = vs.clone(); y[..=i].reverse(); y });
    }
    let out = run.guard(|| x()[n].clone());
    run.count(&d, true);
    if let Ok(e) = out { return Some(Found { input: format!("{}: [{}]", d, n), expected: "a panic, the index is out of bounds".into(), got: format!("{:?}", e) }); }
    None
}

fn punctuated(run: &mut Run, m: &M, r: &mut Rng) -> Option<Found> {
    type P = Punctuated<V, S>;
    let n = m.v.len();
    let x = || P::from(syn_of(m));
    let d = format!("Punctuated from {:?}", want(m));
    let w = V(7000 + r.below(1000) as u32);
    let all = want(m);
    let set = |i: usize| { let mut y = want(m); y[i].0 = w.0; y };
    let more: Vec<u32> = (0..if r.chance(1, 20) { 90 } else { r.below(4) }).map(|i| 8000 + i as u32).collect();
    let complete = m.p.len() == m.v.len();
    let plus = |ps: &dyn Fn(usize) -> u32, vs: &[u32]| { let mut y = m.clone(); for (i, v) in vs.iter().enumerate() { if y.p.len() < y.v.len() { y.p.push(ps(i)); } y.v.push(*v); } want(&y) };
    t! { run, d;
        "into_inner", pairs(&x().into_inner()), all;
        "syn Punctuated::from", pairs(&SynP::from(x())), all;
        "deref", pairs(x().deref()), all;
        "AsRef", pairs(AsRef::<SynP<V, S>>::as_ref(&x())), all;
        "Borrow", pairs(Borrow::<SynP<V, S>>::borrow(&x())), all;
        "len, is_empty", (x().len(), x().is_empty()), (n, n == 0);
        "iter", x().iter().map(|e| e.0).collect::<Vec<_>>(), m.v;
        "into_iter", x().into_iter().map(|e| e.0).collect::<Vec<_>>(), m.v;
        "(&p).into_iter", (&x()).into_iter().map(|e| e.0).collect::<Vec<_>>(), m.v;
        "pairs", x().pairs().map(|p| match p { Pair::Punctuated(v, s) => (v.0, Some(s.0)), Pair::End(v) => (v.0, None) }).collect::<Vec<_>>(), all;
        "into_pairs", x().into_pairs().map(|p| match p { Pair::Punctuated(v, s) => (v.0, Some(s.0)), Pair::End(v) => (v.0, None) }).collect::<Vec<_>>(), all;
        "new, default", (pairs(&P::new()), pairs(&P::default())), (Vec::<(u32, Option<u32>)>::new(), Vec::<(u32, Option<u32>)>::new());
        "collect items", pairs(&m.v.iter().map(|v| V(*v)).collect::<P>()), want(&M { v: m.v.clone(), p: vec![0; n.saturating_sub(1)] });
        "collect pairs", pairs(&x().into_inner().into_pairs().collect::<P>()), all;
        "iter_mut", { let mut y = x(); for (i, e) in y.iter_mut().enumerate() { e.0 += i as u32 * 1000; } pairs(&y) }, all.iter().enumerate().map(|(i, e)| (e.0 + i as u32 * 1000, e.1)).collect::<Vec<_>>();
        "(&mut p).into_iter", { let mut y = x(); for (i, e) in (&mut y).into_iter().enumerate() { e.0 += i as u32 * 1000; } pairs(&y) }, all.iter().enumerate().map(|(i, e)| (e.0 + i as u32 * 1000, e.1)).collect::<Vec<_>>();
        "pairs_mut", { let mut y = x(); for (i, e) in y.pairs_mut().enumerate() { match e { Pair::Punctuated(v, s) => { v.0 += i as u32 * 1000; s.0 += 1; } Pair::End(v) => v.0 += i as u32 * 1000 } } pairs(&y) }, all.iter().enumerate().map(|(i, e)| (e.0 + i as u32 * 1000, e.1.map(|s| s + 1))).collect::<Vec<_>>();
        "deref_mut pop", { let mut y = x(); y.deref_mut().pop(); pairs(&y) }, all[..n.saturating_sub(1)].to_vec();
        "AsMut clear", { let mut y = x(); AsMut::<SynP<V, S>>::as_mut(&mut y).clear(); pairs(&y) }, Vec::<(u32, Option<u32>)>::new();
        "BorrowMut pop", { let mut y = x(); BorrowMut::<SynP<V, S>>::borrow_mut(&mut y).pop(); pairs(&y) }, all[..n.saturating_sub(1)].to_vec();
        "extend with items", { let mut y = x(); y.extend(more.iter().map(|v| V(*v))); pairs(&y) }, plus(&|_| 0, &more);
    }
    {
        let last = more.len().saturating_sub(1);
        let ps: Vec<Pair<V, S>> = more.iter().enumerate().map(|(i, v)| if i == last { Pair::End(V(*v)) } else { Pair::Punctuated(V(*v), S(3 + i as u32)) }).collect();
        let mut y = syn_of(m);
        y.extend(ps.clone());
        same!(run, format!("{}: extend with pairs {:?}", d, more), { let mut z = x(); z.extend(ps.clone()); pairs(&z) }, pairs(&y));
    }
    for i in 0..n {
        same!(run, format!("{}: [{}]", d, i), x()[i], V(m.v[i]));
        same!(run, format!("{}: [{}] = {:?}", d, i, w), { let mut y = x(); y[i] = w.clone(); pairs(&y) }, set(i));
    }
    let out = run.guard(|| x()[n].clone());
    if let Ok(e) = out { return Some(Found { input: format!("{}: [{}]", d, n), expected: "a panic, the index is out of bounds".into(), got: format!("{:?}", e) }); }
    if m.v.is_empty() || complete { return None; }
    // the same parts in a Separated
    let s = || Separated::<V, S>::try_from(syn_of(m)).unwrap();
    let d = format!("Separated from {:?}", all);
    t! { run, d;
        "into_inner", pairs(&s().into_inner()), all;
        "syn Punctuated::from", pairs(&SynP::from(s())), all;
        "deref", pairs(s().deref()), all;
        "AsRef", pairs(AsRef::<SynP<V, S>>::as_ref(&s())), all;
        "Borrow", pairs(Borrow::<SynP<V, S>>::borrow(&s())), all;
        "len", s().len().get(), n;
        "first, last", (s().first().0, s().last().0), (m.v[0], m.v[n - 1]);
        "first_mut", { let mut y = s(); *y.first_mut() = w.clone(); pairs(&y) }, set(0);
        "last_mut", { let mut y = s(); *y.last_mut() = w.clone(); pairs(&y) }, set(n - 1);
        "iter", s().iter().map(|e| e.0).collect::<Vec<_>>(), m.v;
        "into_iter", s().into_iter().map(|e| e.0).collect::<Vec<_>>(), m.v;
        "(&s).into_iter", (&s()).into_iter().map(|e| e.0).collect::<Vec<_>>(), m.v;
        "pairs", s().pairs().map(|p| match p { Pair::Punctuated(v, s) => (v.0, Some(s.0)), Pair::End(v) => (v.0, None) }).collect::<Vec<_>>(), all;
        "into_pairs", s().into_pairs().map(|p| match p { Pair::Punctuated(v, s) => (v.0, Some(s.0)), Pair::End(v) => (v.0, None) }).collect::<Vec<_>>(), all;
        "iter_mut", { let mut y = s(); for (i, e) in y.iter_mut().enumerate() { e.0 += i as u32 * 1000; } pairs(&y) }, all.iter().enumerate().map(|(i, e)| (e.0 + i as u32 * 1000, e.1)).collect::<Vec<_>>();
        "(&mut s).into_iter", { let mut y = s(); for (i, e) in (&mut y).into_iter().enumerate() { e.0 += i as u32 * 1000; } pairs(&y) }, all.iter().enumerate().map(|(i, e)| (e.0 + i as u32 * 1000, e.1)).collect::<Vec<_>>();
        "pairs_mut", { let mut y = s(); for (i, e) in y.pairs_mut().enumerate() { match e { Pair::Punctuated(v, s) => { v.0 += i as u32 * 1000; s.0 += 1; } Pair::End(v) => v.0 += i as u32 * 1000 } } pairs(&y) }, all.iter().enumerate().map(|(i, e)| (e.0 + i as u32 * 1000, e.1.map(|s| s + 1))).collect::<Vec<_>>();
        "extend with items", { let mut y = s(); y.extend(more.iter().map(|v| V(*v))); pairs(&y) }, plus(&|_| 0, &more);
        "extend with separators and items", { let mut y = s(); y.extend(more.iter().enumerate().map(|(i, v)| (S(5 + i as u32), V(*v)))); pairs(&y) }, plus(&|i| 5 + i as u32, &more);
        "push", { let mut y = s(); y.push(S(11), w.clone()); pairs(&y) }, plus(&|_| 11, &[w.0]);
        "push_value", { let mut y = s(); y.push_value(w.clone()); pairs(&y) }, plus(&|_| 0, &[w.0]);
        "into_first_rest", { let (f, r) = s().into_first_rest(); (f.0, r.iter().map(|(p, v)| (p.0, v.0)).collect::<Vec<_>>()) }, (m.v[0], (1..n).map(|i| (m.p[i - 1], m.v[i])).collect::<Vec<_>>());
        "into_last_rest", { let (f, r) = s().into_last_rest(); (f.0, r.iter().map(|(v, p)| (v.0, p.0)).collect::<Vec<_>>()) }, (m.v[n - 1], (0..n - 1).map(|i| (m.v[i], m.p[i])).collect::<Vec<_>>());
    }
    for i in 0..n {
        same!(run, format!("{}: [{}]", d, i), s()[i], V(m.v[i]));
        same!(run, format!("{}: [{}] = {:?}", d, i, w), { let mut y = s(); y[i] = w.clone(); pairs(&y) }, set(i));
        same!(run, format!("{}: insert({}, {:?}) items", d, i, w), { let mut y = s(); y.insert(i, w.clone()); y.into_iter().collect::<Vec<_>>() }, { let mut y: Vec<V> = m.v.iter().map(|x| V(*x)).collect(); y.insert(i, w.clone()); y });
    }
    for i in [n, n + 1, 2 * n + 3] {
        let out = run.guard(|| s()[i].clone());
        if let Ok(e) = out { return Some(Found { input: format!("{}: [{}]", d, i), expected: "a panic, the index is out of bounds".into(), got: format!("{:?}", e) }); }
    }
    None
}

pub fn run(run: &mut Run) -> Option<Found> {
    let sp = spans();
    for i in 0..sp.len() { for j in 0..sp.len() {
        let f = paren(run, &sp, i, j, 40 + i as u32, 90).or_else(|| bracket(run, &sp, i, j, 40 + i as u32, 90)).or_else(|| brace(run, &sp, i, j, 40 + i as u32, 90));
        if f.is_some() { return f; }
    } }
    let n = if run.thorough { 4000 } else { 500 };
    for k in 0..n {
        if run.late() { break; }
        let mut r = Rng(run.seed.wrapping_mul(31).wrapping_add(k));
        if let Some(f) = maybe(run, 1 + r.below(14) as u32, 10 + r.below(90) as u32, 15 + r.below(60) as u32) { return Some(f); }
        let len = if k < 12 { k as usize / 2 } else if r.chance(1, 30) { 20 + r.below(40) } else { r.below(8) };
        let v: Vec<u32> = (0..len).map(|i| 100 + i as u32 * 7 + r.below(7) as u32).collect();
        if let Some(f) = any(run, &v, &mut r) { return Some(f); }
        let np = if k % 2 == 0 { len } else { len.saturating_sub(1) };
        let m = M { v, p: (0..np).map(|_| 1 + r.below(14) as u32).collect() };
        if let Some(f) = punctuated(run, &m, &mut r) { return Some(f); }
    }
    let _ = W(0, Span::call_site()).span();
    big(run)
}
/// parts of other sizes: none, and large
fn big(run: &mut Run) -> Option<Found> {
    type L = [u64; 40];
    let (l, k): (L, L) = ([7; 40], [8; 40]);
    macro_rules! sizes { ($($d:literal, $P:ty: $p:expr, $T:ty: $t:expr;)*) => { $( for some in [true, false] {
        let o = || if some { Some(($p, $t)) } else { None };
        let q = || Maybe::<$P, $T>::from(o());
        let d = format!("Maybe of {}, {}", $d, if some { "present" } else { "empty" });
        t! { run, d;
            "into_parts", q().into_parts(), o(); "as_parts", q().as_parts(), o().as_ref(); "as_prefix", q().as_prefix(), o().map(|x| x.0).as_ref(); "into_prefix", q().into_prefix(), o().map(|x| x.0);
            "as_ref", q().as_ref(), o().map(|x| x.1).as_ref(); "into_inner", q().into_inner(), o().map(|x| x.1);
            "into_prefix_iter", q().into_prefix_iter().collect::<Vec<_>>(), o().map(|x| x.0).into_iter().collect::<Vec<_>>(); "prefix_iter", q().prefix_iter().cloned().collect::<Vec<_>>(), o().map(|x| x.0).into_iter().collect::<Vec<_>>();
            "iter", q().iter().cloned().collect::<Vec<_>>(), o().map(|x| x.1).into_iter().collect::<Vec<_>>(); "into_iter", q().into_iter().collect::<Vec<_>>(), o().map(|x| x.1).into_iter().collect::<Vec<_>>();
            "parts_iter", q().parts_iter().cloned().collect::<Vec<_>>(), o().into_iter().collect::<Vec<_>>(); "into_parts_iter", q().into_parts_iter().collect::<Vec<_>>(), o().into_iter().collect::<Vec<_>>();
            "clone, equality", q() == q().clone(), true;
        }
    } )* } }
    sizes! { "() and ()", (): (), (): (); "large and large", L: l, L: k; "() and large", (): (), L: k; "large and ()", L: l, (): (); "String and String", String: "x".repeat(300), String: "y".repeat(300); }
    macro_rules! any { ($($d:literal, $x:expr;)*) => { $( for n in [0usize, 1, 2, 130] {
        let v: Vec<_> = (0..n).map(|_| $x).collect();
        let d = format!("Any of {} {}", n, $d);
        t! { run, d;
            "into_inner", Any::from(v.clone()).into_inner(), v; "len", Any::from(v.clone()).len(), n; "iter", Any::from(v.clone()).iter().count(), n; "into_iter", Any::from(v.clone()).into_iter().collect::<Vec<_>>(), v;
            "collect", v.iter().cloned().collect::<Any<_>>().into_inner(), v; "extend", { let mut y = Any::from(v.clone()); y.extend(v.clone()); y.len() }, 2 * n; "clone, equality", Any::from(v.clone()) == Any::from(v.clone()).clone(), true;
        }
    } )* } }
    any! { "()", (); "large", l; "String", "z".repeat(200); }
    None
}

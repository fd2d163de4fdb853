//! Properties of the token formatter: every token once and properly separated (C18), layout (C19).
use crate::rng::Rng;
use crate::{Found, Run};
use parsel::proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use parsel::util::*;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum T { Leaf(String), P(char, bool), G(u8, Vec<T>) }
const OPEN: [&str; 3] = ["(", "[", "{"];
const CLOSE: [&str; 3] = [")", "]", "}"];
fn stream(ts: &[T]) -> TokenStream {
    ts.iter().map(|t| -> TokenTree { match t {
        T::Leaf(s) => match s.chars().next().unwrap() {
            '"' | '0'..='9' | '\'' | '-' => s.parse::<Literal>().unwrap().into(),
            'r' | 'b' | 'c' if s.contains('"') || s.contains('\'') => s.parse::<Literal>().unwrap().into(),
            'r' if s.starts_with("r#") => Ident::new_raw(&s[2..], Span::call_site()).into(),
            _ => Ident::new(s, Span::call_site()).into(),
        },
        T::P(c, j) => Punct::new(*c, if *j { Spacing::Joint } else { Spacing::Alone }).into(),
        T::G(d, i) => Group::new([Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace, Delimiter::None][*d as usize], stream(i)).into(),
    } }).collect()
}
fn code(ts: &[T]) -> String {
    ts.iter().map(|t| match t {
        T::Leaf(s) => format!("{:?}", s),
        T::P(c, j) => format!("{}{}", c, if *j { "~" } else { "" }),
        T::G(d, i) => format!("{}{}{}", ["(", "[", "{", "<none "][*d as usize], code(i), [")", "]", "}", ">"][*d as usize]),
    }).collect::<Vec<_>>().join(" ")
}
fn visible(ts: &[T]) -> bool { ts.iter().all(|t| match t { T::G(d, i) => *d < 3 && visible(i), _ => true }) }
/// the layout that the property describes
fn lay(ts: &[T], ind: Option<&str>, lvl: usize, o: &mut String) {
    let br = |o: &mut String, lvl: usize| match ind { Some(s) => { o.push('\n'); for _ in 0..lvl { o.push_str(s); } } None => o.push(' ') };
    for (k, t) in ts.iter().enumerate() {
        let more = k + 1 < ts.len();
        match t {
            T::Leaf(s) => { o.push_str(s); if more { o.push(' '); } }
            T::P(c, j) => {
                o.push(*c);
                if more && !*j { if *c == ',' || *c == ';' { br(o, lvl) } else { o.push(' ') } }
            }
            T::G(d, i) => {
                o.push_str(OPEN[*d as usize]);
                if !i.is_empty() {
                    if ind.is_some() { br(o, lvl + 1); }
                    lay(i, ind, lvl + 1, o);
                    if ind.is_some() { br(o, lvl); }
                }
                o.push_str(CLOSE[*d as usize]);
                if more { br(o, lvl); }
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Req { Must, Not, Free }
/// visible pieces and what has to be in front of each
fn pieces(ts: &[T], first: Req, o: &mut Vec<(String, Req)>) {
    for (k, t) in ts.iter().enumerate() {
        let r = if k == 0 { first } else if let T::P(_, true) = ts[k - 1] { Req::Not } else { Req::Must };
        match t {
            T::Leaf(s) => o.push((s.clone(), r)),
            T::P(c, _) => o.push((c.to_string(), r)),
            T::G(3, i) => pieces(i, r, o),
            T::G(d, i) => { o.push((OPEN[*d as usize].into(), r)); pieces(i, Req::Free, o); o.push((CLOSE[*d as usize].into(), Req::Free)); }
        }
    }
}
fn faithful(ts: &[T], text: &str) -> Result<(), String> {
    let mut e = vec![];
    pieces(ts, Req::Free, &mut e);
    let mut rest = text;
    for (k, (p, r)) in e.iter().enumerate() {
        let t = rest.trim_start();
        let ws = t.len() < rest.len();
        if !t.starts_with(p.as_str()) { return Err(format!("piece {} ({}) at its place, before {:?}", k, p, t)); }
        if *r == Req::Must && !ws { return Err(format!("whitespace before piece {} ({})", k, p)); }
        if *r == Req::Not && ws { return Err(format!("no whitespace before piece {} ({})", k, p)); }
        rest = &t[p.len()..];
    }
    if !rest.trim().is_empty() { return Err(format!("nothing after the last token, not {:?}", rest)); }
    Ok(())
}
/// fails at the n-th call
struct Lim<'a> { out: &'a mut String, left: usize, once: bool, failed: &'a std::cell::Cell<bool> }
impl Write for Lim<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.left == 0 && !(self.once && self.failed.get()) { self.failed.set(true); return Err(std::fmt::Error); }
        self.left = self.left.saturating_sub(1); self.out.push_str(s); Ok(())
    }
}
struct Alt(TokenStream);
impl std::fmt::Display for Alt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { format_tokens(self.0.clone(), f) } }
struct Nod(TokenStream);
impl std::fmt::Display for Nod { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { format_ast_node(&self.0, f) } }
const INDENTS: [&str; 8] = ["    ", "", " ", "\t", "  \t", "\n", "\u{a0}", " \r\n"];
const NOT_WS: [&str; 6] = ["x", " x", "x ", "  // ", "\u{200b}", "\u{feff} "];

fn case(p: &str, ts: &[T], more: &[T], rng: &mut Rng) -> Option<(String, String, String)> {
    let ind = INDENTS[rng.below(INDENTS.len())];
    let what = |m: &str| format!("{} with the tokens {}", m, code(ts));
    if p == "C18" {
        let ways: Vec<(&str, Result<String, std::fmt::Error>)> = vec![
            ("format_tokens_compact", { let mut s = String::new(); format_tokens_compact(stream(ts), &mut s).map(|_| s) }),
            ("format_tokens_pretty", { let mut s = String::new(); format_tokens_pretty(stream(ts), &mut s).map(|_| s) }),
            ("with_indent", { let mut s = String::new(); TokenStreamFormatter::with_indent(ind, &mut s).unwrap().write(stream(ts)).map(|_| s) }),
            ("format_ast_node_compact", { let mut s = String::new(); format_ast_node_compact(&stream(ts), &mut s).map(|_| s) }),
            ("format_ast_node_pretty", { let mut s = String::new(); format_ast_node_pretty(&stream(ts), &mut s).map(|_| s) }),
        ];
        for (n, r) in ways {
            match r {
                Ok(s) => if let Err(e) = faithful(ts, &s) { return Some((what(n), e, format!("text {:?}", s))); }
                Err(_) => return Some((what(n), "success".into(), "an error".into())),
            }
        }
        return None;
    }
    if !visible(ts) || !visible(more) { return None; }
    let want = |ts: &[T], i: Option<&str>| { let mut s = String::new(); lay(ts, i, 0, &mut s); s };
    // one formatter, written to twice
    for i in [None, Some("    "), Some(ind)] {
        let mut s = String::new();
        let r = match i {
            None => { let mut f = TokenStreamFormatter::compact(&mut s); f.write(stream(ts)).and_then(|_| f.write_ast_node(&stream(more))) }
            Some("    ") => { let mut f = TokenStreamFormatter::pretty(&mut s); f.write(stream(ts)).and_then(|_| f.write_ast_node(&stream(more))) }
            Some(x) => { let mut f = TokenStreamFormatter::with_indent(x, &mut s).unwrap(); f.write(stream(ts)).and_then(|_| f.write_ast_node(&stream(more))) }
        };
        let w = want(ts, i) + &want(more, i);
        let d = what(&format!("formatter with indent {:?}, then {}", i, code(more)));
        if r.is_err() { return Some((d, format!("{:?}", w), "an error".into())); }
        if s != w { return Some((d, format!("{:?}", w), format!("{:?}", s))); }
    }
    for (n, got, w) in [
        ("format_tokens {}", format!("{}", Alt(stream(ts))), want(ts, Some("    "))), ("format_tokens {:#}", format!("{:#}", Alt(stream(ts))), want(ts, None)),
        ("format_ast_node {}", format!("{}", Nod(stream(ts))), want(ts, Some("    "))), ("format_ast_node {:#}", format!("{:#}", Nod(stream(ts))), want(ts, None)),
        ("format_tokens {:0$}", format!("{:1$}", Alt(stream(ts)), rng.below(3) * 40), want(ts, Some("    "))), ("format_tokens {:#0$}", format!("{:#1$}", Alt(stream(ts)), rng.below(3) * 40), want(ts, None)),
        ("format_tokens {:*^+01.1}", format!("{:*^+01.1}", Alt(stream(ts))), want(ts, Some("    "))), ("format_tokens {:->+#03.0}", format!("{:->+#03.0}", Alt(stream(ts))), want(ts, None)),
        ("format_ast_node {:0$.1}", format!("{:1$.1}", Nod(stream(ts)), rng.below(3) * 40), want(ts, Some("    "))), ("format_ast_node {:<#0$}", format!("{:<#1$}", Nod(stream(ts)), rng.below(3) * 40), want(ts, None)),
        ("format_tokens_pretty", { let mut s = String::new(); let _ = format_tokens_pretty(stream(ts), &mut s); s }, want(ts, Some("    "))),
        ("format_tokens_compact", { let mut s = String::new(); let _ = format_tokens_compact(stream(ts), &mut s); s }, want(ts, None)),
        ("format_ast_node_pretty", { let mut s = String::new(); let _ = format_ast_node_pretty(&stream(ts), &mut s); s }, want(ts, Some("    "))),
        ("format_ast_node_compact", { let mut s = String::new(); let _ = format_ast_node_compact(&stream(ts), &mut s); s }, want(ts, None)),
    ] { if got != w { return Some((what(n), format!("{:?}", w), format!("{:?}", got))); } }
    // a writer that fails at some call
    for (left, once) in [(0, false), (1, true), (2, false), (3, true), (4 + rng.below(30), true), (4 + rng.below(30), rng.chance(1, 2))] {
        let (mut s, failed) = (String::new(), std::cell::Cell::new(false));
        let r = TokenStreamFormatter::with_indent(ind, Lim { out: &mut s, left, once, failed: &failed }).unwrap().write(stream(ts));
        let d = what(&format!("writer failing at call {}{}, indent {:?}", left, if once { " only" } else { "" }, ind));
        if r.is_err() != failed.get() { return Some((d, format!("error: {}", failed.get()), format!("error: {}", r.is_err()))); }
        // what was written is a part of the layout, and no more than was written when the writer failed
        if !want(ts, Some(ind)).starts_with(&s) { return Some((d, format!("a prefix of {:?}", want(ts, Some(ind))), format!("{:?}", s))); }
    }
    None
}
fn trees(n: usize, deep: usize, none: bool) -> Vec<Vec<T>> {
    let mut atoms: Vec<T> = vec![T::Leaf("a".into()), T::P(',', false), T::P('+', false), T::P('+', true), T::G(0, vec![])];
    if deep > 0 {
        for i in trees(if deep > 1 { 2 } else { 1 }, deep - 1, none) { if i.is_empty() { continue; } atoms.push(T::G(1, i.clone())); if none { atoms.push(T::G(3, i)); } }
    }
    if none { atoms.push(T::G(3, vec![])); }
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for p in &last { for a in &atoms { if out.len() + next.len() > 6000 { break; } let mut v = p.clone(); v.push(a.clone()); next.push(v); } }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
fn random(rng: &mut Rng, depth: usize, none: bool) -> Vec<T> {
    let n = if depth > 4 { rng.below(3) } else { rng.below(7) };
    (0..n).map(|_| match rng.below(10) {
        0 | 1 => T::Leaf(rng.pick(&["a", "foo", "b2", "r#fn", "_", "名前", "fn", "true", "r"]).to_string()),
        2 => T::Leaf(rng.pick(&["1", "2.5", "1e3f32", "b'x'", "b\"\\xff\"", "r#\"raw \\\" text\"#", "\"x\"", "\"two\\n words\"", "\"a\nb\"", "'c'", "0x1f", "\"a\r\nb\"", "\" , ; \"", "\"\"", "c\"z\"", "br#\"(\"#", "'\\''", "b';'"]).to_string()),
        3 | 4 => T::P(*rng.pick(&[',', ';', ',', ';', '.', ':']), rng.chance(1, 3)),
        5 => T::P(*rng.pick(&['+', '-', '=', '<', '&', '#', '\'', '~', '!', '@', '$', '%', '^', '*', '|', '>', '/', '?']), rng.chance(1, 2)),
        x => T::G(if none && x == 9 { 3 } else { rng.below(3) as u8 }, if rng.chance(1, 5) { vec![] } else { random(rng, depth + 1, none) }),
    }).collect()
}
fn size(ts: &[T]) -> usize { ts.iter().map(|t| match t { T::G(_, i) => 1 + size(i), _ => 1 }).sum() }
pub fn run(p: &str, run: &mut Run) -> Option<Found> {
    let mut rng = Rng(run.seed ^ 0x5eed);
    let none = p == "C18";
    if p == "C19" {
        for (s, ok) in INDENTS.iter().map(|s| (*s, true)).chain(NOT_WS.iter().map(|s| (*s, false))) {
            let got = TokenStreamFormatter::with_indent(s, String::new()).is_ok();
            run.count(&format!("with_indent({:?})", s), true);
            if got != ok { return Some(Found { input: format!("with_indent({:?})", s), expected: format!("accepted: {}", ok), got: format!("accepted: {}", got) }); }
        }
    }
    let mut cases = trees(3, 2, none);
    let n = if run.thorough { 60000 } else { 12000 };
    for _ in 0..n { cases.push(random(&mut rng, 0, none)); }
    // deep and long streams
    for k in 0..n / 20 {
        let mut t = random(&mut rng, 3, none);
        for _ in 0..rng.below(70) {
            let (mut a, b) = if rng.chance(2, 3) { (vec![], vec![]) } else { (random(&mut rng, 5, none), random(&mut rng, 5, none)) };
            a.push(T::G(if none && rng.chance(1, 5) { 3 } else { rng.below(3) as u8 }, t));
            a.extend(b);
            t = a;
        }
        if k % 4 == 0 { t = (0..rng.below(60)).flat_map(|_| random(&mut rng, 5, none)).collect(); }
        cases.push(t);
    }
    // a few that are very deep, and one that is very long
    for (k, d) in [260usize, 300, 320].into_iter().enumerate() {
        let mut t = vec![T::Leaf("a".into()), T::P(';', false)];
        for i in 0..d { t = vec![T::G(((i + k) % 3) as u8, t)]; if i % 100 == 99 { t.insert(0, T::P(',', false)); } }
        cases.insert(k, t);
    }
    cases.insert(3, (0..70000).map(|i| if i % 7 == 3 { T::P(';', false) } else { T::Leaf(["a", "1", "\"s\""][i % 3].into()) }).collect());
    for (k, ts) in cases.iter().enumerate() {
        if run.late() { break; }
        let more = if k % 3 == 0 { vec![] } else { cases[rng.below(cases.len())].clone() };
        run.start(&code(ts));
        let r = run.guard(|| case(p, ts, &more, &mut Rng(k as u64)));
        run.stop();
        run.count(&code(ts), size(ts) > 1);
        let f = match r { Ok(None) => continue, Ok(Some(x)) => x, Err(m) => (code(ts), "no panic".into(), format!("panic: {}", m)) };
        // fewer tokens, same failure
        let mut best = (ts.clone(), more.clone(), f);
        let attempt = |a: &[T], b: &[T]| match run.guard(|| case(p, a, b, &mut Rng(k as u64))) { Ok(x) => x, Err(m) => Some((code(a), "no panic".into(), format!("panic: {}", m))) };
        'more: loop {
            for small in smaller(&best.0) {
                if run.late() { break 'more; }
                if let Some(g) = attempt(&small, &best.1) { best = (small, best.1, g); continue 'more; }
            }
            for small in smaller(&best.1) {
                if run.late() { break 'more; }
                if let Some(g) = attempt(&best.0, &small) { best = (best.0, small, g); continue 'more; }
            }
            break;
        }
        return Some(Found { input: best.2.0, expected: best.2.1, got: best.2.2 });
    }
    None
}
fn smaller(ts: &[T]) -> Vec<Vec<T>> {
    let mut o = vec![];
    for i in 0..ts.len() {
        let mut v = ts.to_vec(); v.remove(i); o.push(v);
        if let T::G(d, x) = &ts[i] { for y in smaller(x) { let mut v = ts.to_vec(); v[i] = T::G(*d, y); o.push(v); } }
    }
    o
}

//! C22: FromStr and Display. The oracles are the parser of tokens and the formatter of tokens.
use crate::rng::Rng;
use crate::types::{texts, types, Ty};
use crate::{Found, Run};
use parsel::ast::*;
use parsel::proc_macro2::TokenStream;
use parsel::syn::parse::{Parse, Parser};
use parsel::{util, ToTokens};
use std::fmt::{self, Display, Write};
use std::str::FromStr;

struct ByTokens(TokenStream);
impl Display for ByTokens { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { util::format_tokens(self.0.clone(), f) } }
/// a writer that takes n bytes and then fails
struct Short(usize);
impl Write for Short { fn write_str(&mut self, s: &str) -> fmt::Result { if s.len() > self.0 { Err(fmt::Error) } else { self.0 -= s.len(); Ok(()) } } }
/// whether each length of writer is enough
fn lengths<D: Display>(d: &D, n: usize) -> Vec<bool> { [0, 1, n / 2, n.saturating_sub(1), n].into_iter().map(|k| write!(Short(k), "{}", d).is_ok()).collect() }
/// with options other than `#`: those without an effect on the text of a token, as types that forward to a token's own Display heed the others
fn opts(d: &dyn Display) -> Vec<String> { vec![format!("{:-}", d), format!("{:+}", d), format!("{:-#}", d), format!("{:+#}", d)] }
/// what from_str gives and Display shows, and what they should
pub fn text<T: Parse + FromStr + Display + ToTokens>(s: &str, key: fn(&T) -> String) -> (String, String) {
    with::<T>(s, key, |v| { let t = ByTokens(v.to_token_stream()); let n = t.to_string().len(); let mut p = String::new(); let mut c = String::new();
        util::format_tokens_pretty(v.to_token_stream(), &mut p).unwrap(); util::format_tokens_compact(v.to_token_stream(), &mut c).unwrap();
        (p, c, lengths(&t, n), opts(&t)) })
}
fn with<T: Parse + FromStr + Display + ToTokens>(s: &str, key: fn(&T) -> String, shown: fn(&T) -> (String, String, Vec<bool>, Vec<String>)) -> (String, String) {
    let want = s.parse::<TokenStream>().ok().and_then(|t| T::parse.parse2(t).ok());
    let got = T::from_str(s).ok();
    let g = got.as_ref().map(|v| { let n = v.to_string().len(); (key(v), format!("{}", v), format!("{:#}", v), lengths(v, n), opts(v)) });
    let w = want.as_ref().map(|v| { let (p, c, l, o) = shown(v); let o = if o.is_empty() { opts(v) } else { o }; (key(v), p, c, l, o) });
    (format!("{:?}", g), format!("{:?}", w))
}
/// forms that are not tokens, or not only the tokens of a sentence
fn around(x: &str) -> Vec<String> {
    vec![format!("  {}\n\t", x), format!("/* a */ {} // b", x), format!("{} \"", x), format!("{} )", x), format!("( {}", x), format!("{} {}", x, x), format!("{} ;", x), format!("; {}", x), format!("{} /*", x), format!("\u{feff}{}", x), format!("{}\u{0}", x), format!("\u{feff}\u{feff}{}", x), format!(" \u{feff}{}", x), format!("{}\u{feff}", x), format!("\u{200e}{}\u{200f}", x), format!("\u{200b}{}", x), format!("{}\u{200b}", x), format!("\u{a0}{}\u{3000}", x), format!("#!/bin/sh\n{}", x), format!("//! d\n{}", x), format!("{}//", x), format!("\r\n{}\r", x), format!("{},", x), format!("\"{}\"", x), format!("{} \\", x), format!("{};", x), format!("/// d\n{}", x)]
}
fn one(run: &mut Run, name: &str, f: fn(&str) -> (String, String), x: &str) -> Option<Found> {
    let case = format!("{}\n  from_str and Display: {:?}", name, x);
    run.start(&case);
    let r = run.guard(|| f(x));
    run.stop();
    run.count(&case, true);
    parsel::proc_macro2::extra::invalidate_current_thread_spans();
    match r {
        Ok((g, w)) => if g == w { None } else { Some(Found { input: case, expected: w, got: g }) },
        Err(m) => Some(Found { input: case, expected: "no panic".into(), got: format!("panic: {}", m) }),
    }
}
fn leaf<T: Parse + FromStr + Display + ToTokens>(s: &str, key: fn(&T) -> String) -> (String, String) {
    // one token at most (a negative number is two): its text is that of the token
    with::<T>(s, key, |v| { let p: String = v.to_token_stream().into_iter().map(|t| t.to_string()).collect(); let l = [0, 1, p.len() / 2, p.len().saturating_sub(1), p.len()].into_iter().map(|k| k >= p.len()).collect(); (p.clone(), p, l, vec![]) })
}
/// Display with other options is that of the token
fn padded<T: FromStr + Display, U: FromStr + Display>(s: &str) -> (String, String) {
    let g = |x: &dyn Display| format!("{:>14}|{:<9}|{:^21}|{:*^13.2}|{:.1}|{}|{:#}", x, x, x, x, x, x, x);
    match (s.parse::<T>(), s.parse::<U>()) { (Ok(a), Ok(b)) => (g(&a), g(&b)), _ => ("same".into(), "same".into()) }
}
fn padded_kw<T: FromStr + Display>(s: &str, text: fn(&T) -> &'static str) -> (String, String) {
    let g = |x: &dyn Display| format!("{:>14}|{:<9}|{:^21}|{:*^13.2}|{:.1}|{}|{:#}", x, x, x, x, x, x, x);
    match s.parse::<T>() { Ok(a) => (g(&a), g(&text(&a))), _ => ("same".into(), "same".into()) }
}
macro_rules! lits { ($($t:ident),*) => { vec![$((stringify!($t), (|s| leaf::<$t>(s, |v| format!("{:?}", v.value()))) as fn(&str) -> (String, String))),*] } }
macro_rules! kws { ($($m:ident $n:ident;)*) => { vec![$((stringify!($m::$n), (|s| leaf::<kws::$m::$n>(s, |v| v.as_str().to_string())) as fn(&str) -> (String, String)), (concat!(stringify!($m::$n), " with options"), (|s| padded_kw::<kws::$m::$n>(s, |v| v.as_str())) as fn(&str) -> (String, String))),*] } }
const TEXTS: &[&str] = &["", " ", "1", "-1", "0x1f", "255u8", "1_000", "18446744073709551615", "18446744073709551616", "9223372036854775807", "-9223372036854775808", "1.5", "-1.5", "2.0f32", "1e300", "1e999", "1e-9", "1f64", "true", "false", "'a'", "'\\''", "'\\u{1F600}'", "'é'", "b'a'", "b'\\n'", "b'\\xff'", "\"\"", "\"a b\"",
    "\"\\\"\\n\\t\\0é\"", "r#\"a\"b\"#", "b\"\"", "b\"a\\xff\\\"\"", "br\"x\"", "c\"x\"", "foo", "bar", "fo", "FOO", "Foo", "x", "async", "fn", "self", "_", "r#fn", "r#foo", "é", "foo bar", "foo,", "(foo)", "'a", "+", "1 2", "- 1", "{ 1 }", "[]", "true false", "'a' 'b'", "1a", "1.0.0", "..", "/* c */ foo", "foo // c", "-foo", "--1", "- -1", "'ab'", "\"", "#", "-true", "-'a'", "-\"a\"", "x foo", "_ _", "()", "\u{feff}foo"];
pub fn run(run: &mut Run) -> Option<Found> {
    let mut small: Vec<(&str, fn(&str) -> (String, String))> = lits![LitBool, LitByte, LitInt, LitUint, LitFloat, LitChar, LitStr, LitByteStr];
    small.push(("Lit", |s| leaf::<Lit>(s, |v| format!("{:?}", v.to_token_stream().to_string()))));
    small.push(("Word", |s| leaf::<Word>(s, |v| v.token().to_string())));
    small.push(("Word with options", padded::<Word, parsel_ident::I>));
    small.push(("CustomIdent<kw_a::Keywords>", |s| leaf::<CustomIdent<kws::kw_a::Keywords>>(s, |v| v.token().to_string())));
    small.extend(kws! { kw_a Foo; kw_a Bar; kw_a Function; kw_a This; kw_a Fo; kw_a Upper; kw_a Underscore; kw_b X; kw_b Async; kw_c Underscore; });
    small.push(("Either<LitInt, Word>", |s| leaf::<Either<LitUint, Word>>(s, |v| v.to_token_stream().to_string())));
    small.push(("Either<Word, LitStr>", |s| leaf::<Either<Word, LitStr>>(s, |v| v.to_token_stream().to_string())));
    small.push(("Either<Either<kw_a::Foo, kw_b::X>, LitBool>", |s| leaf::<Either<Either<kws::kw_a::Foo, kws::kw_b::X>, LitBool>>(s, |v| v.to_token_stream().to_string())));
    small.push(("Either<Paren<Word>, Any<Word>>", |s| text::<Either<Paren<Word>, Any<Word>>>(s, |v| v.to_token_stream().to_string())));
    small.push(("Empty", |s| leaf::<Empty>(s, |v| format!("{:?}", v)))); small.push(("Eof", |s| leaf::<Eof>(s, |v| format!("{:?}", v)))); small.push(("NotEof", |s| leaf::<NotEof>(s, |v| format!("{:?}", v))));
    for (n, f) in &small {
        for x in TEXTS {
            if let Some(f) = one(run, n, *f, x) { return Some(f); }
            for y in around(x) { if let Some(f) = one(run, n, *f, &y) { return Some(f); } }
        }
    }
    let ts: Vec<Ty> = types().into_iter().filter(|t| t.text.is_some()).collect();
    let mut round = 0u64;
    loop {
        for t in &ts {
            let mut rng = Rng(run.seed ^ round << 32 ^ t.name.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)));
            let f = t.text.unwrap();
            for x in texts(t, &mut rng, if run.thorough { 1500 } else { 100 }) {
                if let Some(f) = one(run, t.name, f, &x) { return Some(shrink(run, t, f)); }
                if rng.chance(1, 12) { for y in around(&x) { if let Some(f) = one(run, t.name, f, &y) { return Some(f); } } }
            }
        }
        round += 1;
        if !run.thorough || round >= 4 || run.late() { break; }
    }
    None
}
fn shrink(run: &mut Run, t: &Ty, mut f: Found) -> Found {
    let get = |f: &Found| f.input.splitn(2, "Display: ").nth(1).map(|x| x.trim_matches('"').replace("\\n", " ")).unwrap_or_default();
    let mut cur: Vec<String> = get(&f).split_whitespace().map(|s| s.to_string()).collect();
    let mut i = 0;
    while i < cur.len() {
        let mut c = cur.clone();
        c.remove(i);
        if let Some(n) = one(run, t.name, t.text.unwrap(), &c.join(" ")) { cur = c; f = n; } else { i += 1; }
    }
    f
}
mod parsel_ident {
    use std::fmt;
    /// an identifier as the token displays it
    pub struct I(parsel::ast::Ident);
    impl std::str::FromStr for I { type Err = parsel::Error; fn from_str(s: &str) -> Result<I, parsel::Error> { use parsel::syn::ext::IdentExt; use parsel::syn::parse::Parser; parsel::ast::Ident::parse_any.parse_str(s).map(I) } }
    impl fmt::Display for I { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
}

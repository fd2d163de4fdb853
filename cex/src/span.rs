//! C20: spans of nodes in texts whose layout is known because it was made here.
use crate::rng::Rng;
use crate::{Found, Run};
use parsel::proc_macro2::{TokenStream, TokenTree};
use parsel::util::SpannedExt;

/// a token of the text: chars from..to, bytes from..to; groups with their contents
#[derive(Clone, Debug)]
struct At { c: (usize, usize), b: (usize, usize), inner: Vec<At> }
struct Text { s: String, chars: usize }
impl Text {
    fn put(&mut self, x: &str) { self.s.push_str(x); self.chars += x.chars().count(); }
    fn here(&self) -> (usize, usize) { (self.chars, self.s.len()) }
}
const LEAF: [&str; 22] = ["x", "r#fn", "őzes", "名前", "_", "42", "1.5e3", "0xFFu8", "\"\"", "\"plain\"", "\"mé\nlá\n\nng ű\"", "\"a\r\nb\"", "\"日本\\\"語\"", "r#\"raw \" 𝄞\n#\"#", "b\"bytes\\n\"", "'é'", "'\\n'", "'𝄞'", "b'x'", "\"tab\t\u{301}\"", "\"𝄞\u{1F600}\n\u{1F600}\"", "fn"];
const PUN: [&str; 10] = ["+", "-", "==", "=>", "..=", ",", ";", "->", "&&", "::"];
const GAP: [&str; 20] = [" ", " ", " ", "\n", "\n", "\r\n", "\t", "  ", "\n\n", "\r\n\r\n", " // comment űőé\n", "// 日本\n", "/* block */", "/* múlti\nline\r\n𝄞 */", "\u{a0}", "\u{2028}", "\u{3000}", "   \n   ", "\u{85}", "/* /* nested */ */"];
const DOC: [&str; 8] = ["/// a doc  ", "///", "/// é \u{3000}", "//! 𝄞\t", "/** block */", "/*! múlti\r\nline \n*/", "/** 日\n * 本 */", "//!"];
/// any char that may stand in a string literal as it is
fn any_char(r: &mut Rng) -> char {
    const ODD: [char; 12] = ['\u{200d}', '\u{ad}', '\u{feff}', '\u{301}', '\n', '\u{2028}', '\u{2029}', '\u{85}', '\u{b}', '\u{c}', '\u{10ffff}', '\u{7f}'];
    let c = match r.below(3) { 0 => *r.pick(&ODD), 1 => char::from_u32((r.next() % 0x3000) as u32).unwrap_or('a'), _ => char::from_u32((r.next() % 0x110000) as u32).unwrap_or('b') };
    if c == '"' || c == '\\' || c == '\r' { 'c' } else { c }
}
fn gap(t: &mut Text, r: &mut Rng, need: bool) {
    if need { let g = *r.pick(&GAP); t.put(g); }
    if r.chance(1, 12) { let s: String = (0..r.below(6)).map(|_| any_char(r)).filter(|c| *c != '*' && *c != '/' && *c != '!').collect(); t.put(&format!("/* {} */", s)); }
    for _ in 0..r.below(3) { if r.chance(1, 3) { let g = *r.pick(&GAP); t.put(g); } }
}
fn tokens(t: &mut Text, r: &mut Rng, n: usize, depth: usize) -> Vec<At> {
    let mut v = vec![];
    for _ in 0..n {
        let a = t.here();
        let inner = match r.below(8) {
            0 if depth > 0 => {
                let d = r.below(3);
                t.put(["(", "[", "{"][d]); gap(t, r, false);
                let k = r.below(4); let i = tokens(t, r, k, depth - 1);
                gap(t, r, false); t.put([")", "]", "}"][d]);
                Some(i)
            }
            1 | 2 => { let p = *r.pick(&PUN); for ch in p.chars() { let a = t.here(); t.put(&ch.to_string()); let e = t.here(); v.push(At { c: (a.0, e.0), b: (a.1, e.1), inner: vec![] }); } None }
            3 if r.chance(1, 6) => {
                // a documentation comment is several tokens, all of them at its place
                let l = *r.pick(&DOC); t.put(l); let e = t.here();
                if l.starts_with("//") { t.put("\n"); }
                let one = |inner| At { c: (a.0, e.0), b: (a.1, e.1), inner };
                v.push(one(vec![])); if l.as_bytes()[2] == b'!' { v.push(one(vec![])); }
                v.push(one((0..3).map(|_| one(vec![])).collect()));
                None
            }
            3 if r.chance(1, 2) => { let s: String = (0..1 + r.below(5)).map(|_| any_char(r)).collect(); t.put(&format!("\"{}\"", s)); Some(vec![]) }
            _ => { let l = *r.pick(&LEAF); t.put(l); Some(vec![]) }
        };
        if let Some(inner) = inner { let e = t.here(); v.push(At { c: (a.0, e.0), b: (a.1, e.1), inner }); }
        gap(t, r, true);
    }
    v
}
/// 1-based line and 1-based column in chars of the char at place i
fn line_col(s: &str, i: usize) -> (usize, usize) {
    let (mut l, mut c) = (1, 1);
    for ch in s.chars().take(i) { if ch == '\n' { l += 1; c = 1; } else { c += 1; } }
    (l, c)
}
fn look<T: SpannedExt>(run: &mut Run, s: &str, what: &str, x: &T, a: &At) -> Option<Found> {
    let case = format!("{} at bytes {:?} of the text {:?}", what, a.b, s);
    run.start(&case);
    let got = run.guard(|| (x.byte_range(s), x.char_range(s), x.source_substring(s).to_string(), x.format_span().to_string()));
    run.stop();
    let (l1, c1) = line_col(s, a.c.0);
    let (l2, c2) = line_col(s, a.c.1);
    let want = (a.b.0..a.b.1, a.c.0..a.c.1, s[a.b.0..a.b.1].to_string(), format!("{}:{}..{}:{}", l1, c1, l2, c2 - 1));
    run.count(&format!("{} {:?} {}", what, a.b, s), a.b.0 > 0 && s.len() != s.chars().count());
    match got { Ok(g) if g == want => None, g => Some(Found { input: case, expected: format!("{:?}", want), got: format!("{:?}", g) }) }
}
fn all(run: &mut Run, s: &str, ts: Vec<TokenTree>, at: &[At], r: &mut Rng) -> Option<Found> {
    if ts.len() != at.len() { return None; }
    for (i, t) in ts.iter().enumerate() {
        if let Some(f) = look(run, s, "a token", t, &at[i]) { return Some(f); }
        if let TokenTree::Group(g) = t {
            if let Some(f) = all(run, s, g.stream().into_iter().collect(), &at[i].inner, r) { return Some(f); }
        }
    }
    if ts.len() > 1 {
        for _ in 0..2 {
            let i = r.below(ts.len()); let j = i + r.below(ts.len() - i);
            let part: TokenStream = ts[i..=j].iter().cloned().collect();
            let a = At { c: (at[i].c.0, at[j].c.1), b: (at[i].b.0, at[j].b.1), inner: vec![] };
            if let Some(f) = look(run, s, "several tokens", &part, &a) { return Some(f); }
        }
    }
    None
}
pub fn run(run: &mut Run) -> Option<Found> {
    // every one of the library's own node types on a small text first
    if let Some(f) = nodes(run) { return Some(f); }
    if let Some(f) = big(run) { return Some(f); }
    let n = if run.thorough { 120000 } else { 12000 };
    for k in 0..n {
        if run.late() { break; }
        let mut r = Rng(run.seed.wrapping_mul(0x9E37).wrapping_add(k));
        let mut t = Text { s: String::new(), chars: 0 };
        if r.chance(1, 12) { t.put("\u{feff}"); }
        if r.chance(1, 2) { gap(&mut t, &mut r, true); }
        let m = if r.chance(1, 40) { 60 } else { r.below(8) };
        let at = tokens(&mut t, &mut r, m, 3);
        if r.chance(1, 3) { let last = at.last().map_or(0, |a| a.b.1); while t.s.len() > last && t.s.ends_with(char::is_whitespace) { t.s.pop(); t.chars -= 1; } }
        let s = t.s;
        // the tokenizer is not under test: texts that it reads differently are left out
        let f = match s.parse::<TokenStream>() { Ok(ts) => all(run, &s, ts.into_iter().collect(), &at, &mut r), Err(_) => None };
        parsel::proc_macro2::extra::invalidate_current_thread_spans();
        if let Some(f) = f { return Some(f); }
    }
    None
}
/// very many lines, and very long ones
fn big(run: &mut Run) -> Option<Found> {
    let mut r = Rng(run.seed);
    for (n, br) in [(300, "\n"), (70000, "\n"), (66000, "\r\n"), (70000, " "), (5000, "/*é*/"), (70000, "é"), (300, "é")] {
        let mut t = Text { s: String::new(), chars: 0 };
        if br == "é" { t.put("/*"); }
        let mut v = vec![];
        for i in 0..=n {
            t.put(br);
            if br != "é" && (i == 3 || i + 3 > n || [253, 254, 255, 256, 257, 4095, 4096, 32767, 65533, 65534, 65535, 65536].contains(&i)) {
                let a = t.here(); t.put("é1"); let e = t.here(); v.push(At { c: (a.0, e.0), b: (a.1, e.1), inner: vec![] }); t.put(" ");
            }
        }
        if br == "é" { t.put("*/"); }
        let a = t.here(); t.put("'é'"); let e = t.here(); v.push(At { c: (a.0, e.0), b: (a.1, e.1), inner: vec![] });
        let s = t.s;
        let f = match s.parse::<TokenStream>() { Ok(ts) => all(run, &s, ts.into_iter().collect(), &v, &mut r), Err(_) => None };
        parsel::proc_macro2::extra::invalidate_current_thread_spans();
        if let Some(f) = f { return Some(f); }
    }
    None
}
fn nodes(run: &mut Run) -> Option<Found> {
    use parsel::ast::*;
    use parsel::syn::{self, Token};
    macro_rules! node { ($($t:ty: $pre:literal $x:literal $post:literal;)*) => { $(
        let s = concat!($pre, $x, $post);
        let at = At { c: ($pre.chars().count(), $pre.chars().count() + $x.chars().count()), b: ($pre.len(), $pre.len() + $x.len()), inner: vec![] };
        match parsel::parse_str::<$t>(s) {
            Ok(v) => if let Some(f) = look(run, s, stringify!($t), &v, &at) { return Some(f); },
            Err(e) => return Some(Found { input: s.into(), expected: "parses".into(), got: e.to_string() }),
        }
        parsel::proc_macro2::extra::invalidate_current_thread_spans();
    )* } }
    node! {
        Word: "/* é */\n " "őz" " \n";
        LitInt: "\n\n // ű\n" "-  7" "\n";
        LitStr: "\r\n" "\"é\n𝄞\"" "";
        LitFloat: "/*𝄞*/" "-\n1.5" " ";
        Lit: "" "'é'" "";
        Paren<Word>: "\u{3000}" "( é )" "";
        Bracket<Many<Lit>>: "/*é*/ " "[ 1 \"é\n\" -2 ]" "\n";
        Brace<Punctuated<Word, Token![,]>>: "\n" "{é,\n日本,}" "\n";
        Maybe<Token![+], Word>: "// é\n" "+\n é" "";
        Separated<LitStr, Token![,]>: " " "\"𝄞\"\n,\r\n\"\"" " ";
        Many<Word>: "\t" "é 日本\n語" " // é";
        LeftAssoc<Token![-], LitUint>: "/*\né*/" "1 - 2\n- 3" " ";
        RightAssoc<Token![->], Word>: "/*\né*/" "é -> 日本\n-> x" " ";
        Either<Lit, Word>: "\n\t" "é" "\r\n";
        TokenStream: "\n//é\n" "é + [ \"\n\" ]" "\n";
        syn::Token![==]: " " "==" "";
    }
    None
}

//! C14 and C15: literals. The oracle is the value itself, syn's own literals and std's operators.
use crate::rng::Rng;
use crate::{Found, Run};
use ordered_float::NotNan;
use parsel::ast::{Lit, LitBool, LitByte, LitByteStr, LitChar, LitFloat, LitInt, LitStr, LitUint};
use parsel::proc_macro2::{Span, TokenStream, TokenTree};
use parsel::syn::{self, parse::Parse};
use parsel::ToTokens;
use std::borrow::{Borrow, BorrowMut, Cow};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

macro_rules! same { ($run:expr, $case:expr, $got:expr, $want:expr) => {{
    let case: String = $case;
    $run.start(&case);
    let got = $run.guard(|| format!("{:?}", $got));
    $run.stop();
    let want = format!("{:?}", $want);
    $run.count(&case, true);
    if got.as_ref().ok() != Some(&want) { return Some(Found { input: case, expected: want, got: got.unwrap_or_else(|m| format!("panic: {}", m)) }); }
}} }
type At = (usize, usize, usize, usize);
fn at(s: Span) -> At { (s.start().line, s.start().column, s.end().line, s.end().column) }
fn spans() -> Vec<Span> {
    let t: TokenStream = "aa bb ccc\n d (e)\n\n ffff; g\nh".parse().unwrap();
    t.into_iter().map(|x| x.span()).collect()
}
fn hash<T: Hash + ?Sized>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

/// kind and value of a literal token, from syn
#[derive(Clone, Debug, PartialEq)]
enum V { Bool(bool), Byte(u8), Int(bool, String), Float(u64), Char(char), Str(String), ByteStr(Vec<u8>), Other }
fn of_syn(l: &syn::Lit) -> (V, At) {
    let v = match l {
        syn::Lit::Bool(x) => V::Bool(x.value), syn::Lit::Byte(x) => V::Byte(x.value()), syn::Lit::Char(x) => V::Char(x.value()), syn::Lit::Str(x) => V::Str(x.value()), syn::Lit::ByteStr(x) => V::ByteStr(x.value()),
        syn::Lit::Int(x) => { let d = x.base10_digits().to_string(); V::Int(d.starts_with('-'), d.trim_start_matches('-').to_string()) }
        syn::Lit::Float(x) => V::Float(x.base10_digits().parse::<f64>().unwrap().to_bits()),
        _ => V::Other,
    };
    (v, at(l.span()))
}
/// a node, with the value it must have for a token
trait L: Parse + ToTokens + Clone + Debug + PartialEq + 'static {
    const N: &'static str;
    fn v(&self) -> V;
    fn sp(&self) -> Span;
    /// the value this type has for a token with the given meaning
    fn of(v: &V) -> Option<V>;
}
fn int(n: bool, d: &str) -> Option<i128> { d.parse::<i128>().ok().map(|x| if n { -x } else { x }) }
macro_rules! l { ($($n:ident, $k:ident: |$s:ident| $v:expr, |$m:ident| $of:expr;)*) => { $(
    impl L for $n { const N: &'static str = stringify!($n); fn v(&self) -> V { let $s = self; $v } fn sp(&self) -> Span { self.span() } fn of($m: &V) -> Option<V> { $of } }
)* } }
fn iv(n: i128) -> V { V::Int(n < 0, n.unsigned_abs().to_string()) }
l! {
    LitBool, Bool: |s| V::Bool(s.value()), |v| match v { V::Bool(_) => Some(v.clone()), _ => None };
    LitByte, Byte: |s| V::Byte(s.value()), |v| match v { V::Byte(_) => Some(v.clone()), _ => None };
    LitInt, Int: |s| iv(s.value() as i128), |v| match v { V::Int(n, d) => int(*n, d).filter(|x| *x >= i64::MIN as i128 && *x <= i64::MAX as i128).map(iv), _ => None };
    LitUint, Uint: |s| iv(s.value() as i128), |v| match v { V::Int(false, d) => int(false, d).filter(|x| *x <= u64::MAX as i128).map(iv), _ => None };
    LitFloat, Float: |s| V::Float(s.value().into_inner().to_bits()), |v| match v { V::Float(_) => Some(v.clone()), _ => None };
    LitChar, Char: |s| V::Char(s.value()), |v| match v { V::Char(_) => Some(v.clone()), _ => None };
    LitStr, Str: |s| V::Str(s.value()), |v| match v { V::Str(_) => Some(v.clone()), _ => None };
    LitByteStr, ByteStr: |s| V::ByteStr(s.value()), |v| match v { V::ByteStr(_) => Some(v.clone()), _ => None };
}
fn kind_of(l: &Lit) -> (&'static str, V) {
    match l { Lit::Bool(x) => ("Bool", x.v()), Lit::Byte(x) => ("Byte", x.v()), Lit::Int(x) => ("Int", x.v()), Lit::Uint(x) => ("Uint", x.v()), Lit::Float(x) => ("Float", x.v()), Lit::Char(x) => ("Char", x.v()), Lit::Str(x) => ("Str", x.v()), Lit::ByteStr(x) => ("ByteStr", x.v()) }
}
/// what Lit must be for a token
fn lit_of(v: &V) -> Option<(&'static str, V)> {
    match v {
        V::Bool(_) => Some(("Bool", v.clone())), V::Byte(_) => Some(("Byte", v.clone())), V::Float(_) => Some(("Float", v.clone())), V::Char(_) => Some(("Char", v.clone())), V::Str(_) => Some(("Str", v.clone())), V::ByteStr(_) => Some(("ByteStr", v.clone())),
        V::Int(true, _) => LitInt::of(v).map(|v| ("Int", v)), V::Int(false, _) => LitUint::of(v).map(|v| ("Uint", v)), V::Other => None,
    }
}
/// a value printed: its tokens carry its span and are read back, by syn and by the library, as that value
fn trip<T: L>(run: &mut Run, x: &T) -> Option<Found> {
    let d = format!("{} {:?}", T::N, x.v());
    let s = at(x.sp());
    let neg = matches!(&x.v(), V::Int(true, _)) || matches!(&x.v(), V::Float(b) if f64::from_bits(*b).is_sign_negative());
    same!(run, format!("{} -> tokens -> spans", d), x.to_token_stream().into_iter().map(|t| at(t.span())).collect::<Vec<_>>(), vec![s; if neg { 2 } else { 1 }]);
    same!(run, format!("{} -> tokens -> syn::Lit", d), syn::parse2::<syn::Lit>(x.to_token_stream()).map(|l| of_syn(&l).0).ok(), Some(x.v()));
    same!(run, format!("{} -> tokens -> {}", d, T::N), syn::parse2::<T>(x.to_token_stream()).map(|y| (y.v(), y == *x)).ok(), Some((x.v(), true)));
    same!(run, format!("{} -> text -> {}", d, T::N), syn::parse_str::<T>(&x.to_token_stream().to_string()).map(|y| (y.v(), y == *x)).ok(), Some((x.v(), true)));
    if !neg {
        same!(run, format!("{} -> tokens -> {}: span", d, T::N), syn::parse2::<T>(x.to_token_stream()).map(|y| at(y.sp())).ok(), Some(s));
        same!(run, format!("{} -> tokens -> Lit", d), syn::parse2::<Lit>(x.to_token_stream()).map(|y| (kind_of(&y).1, at(y.span()))).ok(), Some((x.v(), s)));
    }
    None
}
fn tree<T: L + Into<TokenTree>>(run: &mut Run, x: &T) -> Option<Found> {
    let d = format!("{} {:?}", T::N, x.v());
    let neg = matches!(x.v(), V::Int(true, _) | V::Float(_));
    same!(run, format!("{} -> TokenTree", d), { let t: TokenTree = x.clone().into(); (t.to_string(), at(t.span())) }, (x.to_token_stream().to_string().replacen("- ", if neg { "-" } else { "- " }, 1), at(x.sp())));
    None
}
/// text read as a node: accepted iff it is that kind of literal, with its value and span
fn accept<T: L>(run: &mut Run, text: &str, m: &Option<(V, At)>) -> Option<Found> {
    let want = m.as_ref().and_then(|(v, s)| T::of(v).map(|v| (v, *s)));
    same!(run, format!("{} from {:?}", T::N, text), syn::parse_str::<T>(text).map(|x| (x.v(), at(x.sp()))).ok(), want);
    None
}
fn lits(text: &str, run: &mut Run) -> Option<Found> {
    let m = syn::parse_str::<syn::Lit>(text).ok().map(|l| of_syn(&l));
    macro_rules! all { ($($t:ident)*) => { $( if let Some(f) = accept::<$t>(run, text, &m) { return Some(f); } )* } }
    all!(LitBool LitByte LitInt LitUint LitFloat LitChar LitStr LitByteStr);
    let want = m.as_ref().and_then(|(v, s)| lit_of(v).map(|(k, v)| (k, v, *s)));
    same!(run, format!("Lit from {:?}", text), syn::parse_str::<Lit>(text).map(|x| { let (k, v) = kind_of(&x); (k, v, at(x.span())) }).ok(), want);
    if let Ok(l) = syn::parse_str::<syn::Lit>(text) {
        same!(run, format!("Lit::try_from(syn::Lit {:?})", text), Lit::try_from(l).map(|x| { let (k, v) = kind_of(&x); (k, v, at(x.span())) }).ok(), want);
    }
    None
}
/// known meanings, so that the oracle is not syn alone
fn known(run: &mut Run) -> Option<Found> {
    let t: Vec<(&str, Option<(&str, V)>)> = vec![
        ("true", Some(("Bool", V::Bool(true)))), ("false", Some(("Bool", V::Bool(false)))), ("b'a'", Some(("Byte", V::Byte(97)))), ("b'\\''", Some(("Byte", V::Byte(39)))), ("b'\\xff'", Some(("Byte", V::Byte(255)))),
        ("0", Some(("Uint", iv(0)))), ("17", Some(("Uint", iv(17)))), ("0x_ff_u8", Some(("Uint", iv(255)))), ("1_000i64", Some(("Uint", iv(1000)))), ("0b101", Some(("Uint", iv(5)))), ("0o17", Some(("Uint", iv(15)))),
        ("-17", Some(("Int", iv(-17)))), ("- 17", Some(("Int", iv(-17)))), ("18446744073709551615", Some(("Uint", iv(u64::MAX as i128)))), ("18446744073709551616", None), ("-9223372036854775808", Some(("Int", iv(i64::MIN as i128)))), ("-9223372036854775809", None),
        ("9223372036854775808", Some(("Uint", iv(1 << 63)))), ("1.5", Some(("Float", V::Float(1.5f64.to_bits())))), ("-1.5", Some(("Float", V::Float((-1.5f64).to_bits())))), ("2e3", Some(("Float", V::Float(2000f64.to_bits())))), ("1e999", Some(("Float", V::Float(f64::INFINITY.to_bits())))),
        ("'x'", Some(("Char", V::Char('x')))), ("'\\u{1F600}'", Some(("Char", V::Char('\u{1F600}')))), ("'\\\\'", Some(("Char", V::Char('\\')))), ("\"a\\nb\"", Some(("Str", V::Str("a\nb".into())))), ("r#\"a\"b\"#", Some(("Str", V::Str("a\"b".into())))),
        ("b\"\\x00z\"", Some(("ByteStr", V::ByteStr(vec![0, b'z'])))), ("br\"\\x\"", Some(("ByteStr", V::ByteStr(vec![b'\\', b'x'])))), ("c\"x\"", None), ("x", None), ("-", None), ("- true", None), ("-'a'", None), ("- \"s\"", None), ("--1", None), ("+1", None), ("", None), ("1 2", None), ("(1)", None),
    ];
    for (s, w) in t { same!(run, format!("Lit from {:?}", s), syn::parse_str::<Lit>(s).map(|l| kind_of(&l)).ok(), w); }
    None
}
const TEXTS: &[&str] = &["true", "false", "True", "b'a'", "b'\\n'", "b'\\x00'", "b'\\xff'", "b'\\''", "b'\"'", "b'\\\\'", "b' '", "0", "00", "-0", "1", "-1", "- 1", "1u8", "-1i8", "256u8", "0xff", "0b1", "0o7", "-0x10", "1_0", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808",
    "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-18446744073709551615", "0x8000_0000_0000_0000", "0.0", "-0.0", "1.5", "-1.5", "1.", "1e3", "1E-3", "-2.5e10", "1.5f32", "1f64", "-1f32", "1e999", "-1e999", "5e-324", "1e-999", "'a'", "'\\''", "'\"'", "'\\u{0}'", "'\\n'",
    "\"\"", "\"a\"", "\"\\\"\"", "\"\\u{e9}\"", "r\"x\"", "r#\"\"\"#", "\"multi\nline\"", "b\"\"", "b\"ab\"", "b\"\\xff\"", "br#\"\"\"#", "c\"x\"", "x", "-", "-x", "- true", "-'a'", "-b'a'", "- \"s\"", "-b\"s\"", "--1", "+1", "", "1 1", "1,", "(1)", "[1]", "true false", "fn", "r#true", "'a", "1..2", "!1", "  7", "\n\n  'q'"];

fn values(run: &Run, r: &mut Rng) -> (Vec<u8>, Vec<i64>, Vec<u64>, Vec<f64>, Vec<char>, Vec<String>, Vec<Vec<u8>>) {
    let k = if run.thorough { 400 } else { 60 };
    let mut ints = vec![0i64, 1, -1, 2, 9, 10, 127, 128, 255, 256, -128, -129, i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 53];
    let mut uints = vec![0u64, 1, 255, 256, u32::MAX as u64, u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1];
    let mut fl = vec![0.0, -0.0, 1.0, -1.0, 0.1, 1.5, -2.25, 1e16, 1e17, 1e100, -1e300, 1e308, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, 123456789.0, 9007199254740993.0, 1e-7, 3.0e-5];
    let mut ch: Vec<char> = (0u32..300).chain([0x2028, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x200b, 0xfeff, 0x301, 0x1F600]).filter_map(char::from_u32).collect();
    let mut st: Vec<String> = ["", "a", "\"", "\\", "\n", "\r\n", "\t\0", "'", "{}", "\u{1F600}é", "\u{0}1", "\u{feff}", "\u{feff}x", " a ", "\r", "\n\r", "\u{200d}\u{ad}", "a\\\nb", "\u{7f}\u{80}", "//", "\"#", "\u{301}", "\u{200b}", "0"].iter().map(|s| s.to_string()).collect();
    let mut by: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, b'1'], b"abc".to_vec(), vec![255, 128, 127], b"\xef\xbb\xbf".to_vec(), b"\xef\xbb\xbfx".to_vec(), b"\xff\xfe".to_vec(), b" a ".to_vec(), b"\"\\'\n\r\t".to_vec(), (0..=255).collect(), b"\\x00".to_vec()];
    for n in [31, 64, 255, 256, 300, 1025, 4097, 65537, 70001] { st.push("x".repeat(n)); st.push("x".repeat(n - 1) + "y"); st.push("\u{e9}".repeat(n) + "\n"); by.push(vec![b'x'; n]); by.push((0..n).map(|i| i as u8).collect()); }
    for _ in 0..k {
        ints.push((r.next() >> r.below(64)) as i64); ints.push(-((r.next() >> (1 + r.below(62))) as i64)); uints.push(r.next() >> r.below(64));
        let f = f64::from_bits(r.next()); if !f.is_nan() { fl.push(f); }
        fl.push((r.next() >> r.below(64)) as f64 / 10f64.powi(r.below(12) as i32));
        if let Some(c) = char::from_u32((r.next() % 0x110000) as u32) { ch.push(c); }
        let n = r.below(12);
        st.push((0..n).filter_map(|_| if r.chance(1, 2) { char::from_u32((r.next() % 128) as u32) } else { char::from_u32((r.next() % 0x110000) as u32) }).collect());
        let n = r.below(12); by.push((0..n).map(|_| r.next() as u8).collect());
        // pieces that are special to a lexer, in any order
        const PIECES: [&str; 24] = ["\"", "\\", "'", "\n", "\r", "\t", "\0", "\u{feff}", "#", "r", "b", "x41", "u{41}", "1", "{", "}", "/*", "//", " ", "\u{e9}", "\u{301}", "\u{1F600}", "\u{7f}", "\u{200d}"];
        let n = 1 + r.below(4); st.push((0..n).map(|_| *r.pick(&PIECES)).collect());
        let n = 1 + r.below(4); by.push((0..n).flat_map(|_| r.pick(&PIECES).bytes()).collect());
    }
    ((0..=255).collect(), ints, uints, fl, ch, st, by)
}
fn c14(run: &mut Run) -> Option<Found> {
    let sp = spans();
    if let Some(f) = known(run) { return Some(f); }
    for s in TEXTS { if let Some(f) = lits(s, run) { return Some(f); } }
    for s in TEXTS { for x in ["x", "-", ",", "()", "1", "true", "\"a\"", "r#true", "[1]", "!"] {
        if let Some(f) = lits(&format!("{} {}", x, s), run) { return Some(f); }
        if let Some(f) = lits(&format!("{} {}", s, x), run) { return Some(f); }
    } }
    let mut r = Rng(run.seed ^ 14);
    loop {
        let (by, is, us, fl, ch, st, bs) = values(run, &mut r);
        macro_rules! go { ($t:ident, $v:expr) => { for (i, x) in $v.into_iter().enumerate() {
            let x = $t::new(x, sp[i % sp.len()]);
            if let Some(f) = trip(run, &x) { return Some(f); }
            if let Some(f) = tree(run, &x) { return Some(f); }
            if let Some(f) = lits(&x.to_token_stream().to_string(), run) { return Some(f); }
        } } }
        go!(LitBool, vec![true, false]); go!(LitByte, by); go!(LitInt, is); go!(LitUint, us); go!(LitFloat, fl.into_iter().map(|x| NotNan::new(x).unwrap())); go!(LitChar, ch); go!(LitStr, st); go!(LitByteStr, bs);
        for _ in 0..200 {
            // digits of all lengths, with signs, prefixes, suffixes
            let n = 1 + r.below(24);
            let mut t: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            if r.chance(1, 4) { t = format!("0x{}", t); } else if r.chance(1, 5) { t = format!("{}.{}", t, r.below(1000)); } else if r.chance(1, 8) { t.push_str("u8"); } else if r.chance(1, 8) { t.push_str("e5"); }
            if r.chance(1, 3) { t.insert(0, '-'); }
            if let Some(f) = lits(&t, run) { return Some(f); }
        }
        if run.late() || !run.thorough { return None; }
    }
}
/// the operators of one type on two values and two spans, against those of the raw type
macro_rules! ops { ($run:ident, $t:ident, $r:ty, $vals:expr, $sp:ident, $rng:ident) => {
    let vals: Vec<$r> = $vals;
    for i in 0..vals.len() { for j in 0..vals.len() {
        if vals.len() > 40 && i.abs_diff(j) > 2 && !$rng.chance(1, 16) { continue; }
        let (a, b) = (&vals[i], &vals[j]);
        let (x, y) = ($t::new(a.clone(), $sp[$rng.below($sp.len())]), $t::new(b.clone(), $sp[$rng.below($sp.len())]));
        let d = format!("{} {:?} / {:?}", stringify!($t), a, b);
        same!($run, format!("{}: ==", d), (x == y, x != y, x == *b, x != *b), (a == b, a != b, a == b, a != b));
        same!($run, format!("{}: cmp", d), (x.cmp(&y), x.partial_cmp(&y), x.partial_cmp(b)), (a.cmp(b), Some(a.cmp(b)), Some(a.cmp(b))));
        same!($run, format!("{}: <", d), (x < y, x <= y, x > y, x >= y, x < *b, x >= *b), (a < b, a <= b, a > b, a >= b, a < b, a >= b));
        same!($run, format!("{}: hash", d), (hash(&x), hash(&y)), (hash(a), hash(b)));
        same!($run, format!("{}: in Lit", d), (Lit::from(x.clone()) == Lit::from(y.clone()), hash(&Lit::from(x.clone())) == hash(&Lit::from(y.clone())) || a != b), (a == b, true));
    } }
} }
macro_rules! convs { ($run:ident, $t:ident, $k:ident, $syn:ident, $r:ty, $vals:expr, $sp:ident, |$l:ident| $sv:expr) => {
    for (i, a) in $vals.into_iter().enumerate() {
        let a: $r = a;
        let (s, s2) = ($sp[i % $sp.len()], $sp[(i + 1) % $sp.len()]);
        let d = format!("{} {:?}", stringify!($t), a);
        let x = || $t::new(a.clone(), s);
        let all = |y: &$t| (y.value(), at(y.span()));
        same!($run, format!("{}: new", d), all(&x()), (&a, at(s)));
        same!($run, format!("{}: into_inner", d), x().into_inner(), a);
        same!($run, format!("{}: clone", d), all(&x().clone()), (&a, at(s)));
        same!($run, format!("{}: set_span", d), { let mut y = x(); y.set_span(s2); all(&y) }, (&a, at(s2)));
        same!($run, format!("{}: from raw", d), all(&$t::from(a.clone())), (&a, at(Span::call_site())));
        same!($run, format!("{}: into raw", d), <$r>::from(x()), a);
        same!($run, format!("{}: borrow", d), { let y = x(); let z: &$r = y.borrow(); z.clone() }, a);
        same!($run, format!("{}: to syn", d), { let $l = syn::$syn::from(x()); ($sv, at($l.span())) }, (&a, at(s)));
        same!($run, format!("{}: from syn", d), $t::try_from(syn::$syn::from(x())).ok().map(|y| all(&y)), Some((&a, at(s))));
        same!($run, format!("{}: Lit from node", d), { let y = Lit::from(x()); (kind_of(&y), at(y.span())) }, ((stringify!($k), x().v()), at(s)));
        same!($run, format!("{}: Lit from raw", d), { let y = Lit::from(a.clone()); (kind_of(&y), at(y.span())) }, ((stringify!($k), x().v()), at(Span::call_site())));
        same!($run, format!("{}: Lit, set_span", d), { let mut y = Lit::from(x()); y.set_span(s2); (kind_of(&y), at(y.span())) }, ((stringify!($k), x().v()), at(s2)));
        same!($run, format!("{}: Lit, clone", d), { let y = Lit::from(x()).clone(); (kind_of(&y), at(y.span())) }, ((stringify!($k), x().v()), at(s)));
        same!($run, format!("{}: Lit to syn", d), { let y = syn::Lit::from(Lit::from(x())); of_syn(&y) }, (x().v(), at(s)));
        same!($run, format!("{}: Lit from syn", d), Lit::try_from(syn::Lit::from(Lit::from(x()))).ok().map(|y| (kind_of(&y).1, at(y.span()))), Some((x().v(), at(s))));
    }
} }
fn c15(run: &mut Run) -> Option<Found> {
    let sp = spans();
    let mut rng = Rng(run.seed ^ 15);
    loop {
        let (by, is, us, fl, ch, st, bs) = values(run, &mut rng);
        let nn: Vec<NotNan<f64>> = fl.iter().map(|x| NotNan::new(*x).unwrap()).collect();
        convs!(run, LitBool, Bool, LitBool, bool, vec![true, false], sp, |l| l.value);
        convs!(run, LitByte, Byte, LitByte, u8, by.clone(), sp, |l| l.value());
        convs!(run, LitInt, Int, LitInt, i64, is.clone(), sp, |l| l.base10_parse::<i64>().unwrap());
        convs!(run, LitUint, Uint, LitInt, u64, us.clone(), sp, |l| l.base10_parse::<u64>().unwrap());
        convs!(run, LitFloat, Float, LitFloat, NotNan<f64>, nn.clone(), sp, |l| NotNan::new(l.base10_parse::<f64>().unwrap()).unwrap());
        convs!(run, LitChar, Char, LitChar, char, ch.clone(), sp, |l| l.value());
        convs!(run, LitStr, Str, LitStr, String, st.clone(), sp, |l| l.value());
        convs!(run, LitByteStr, ByteStr, LitByteStr, Vec<u8>, bs.clone(), sp, |l| l.value());
        ops!(run, LitBool, bool, vec![true, false], sp, rng);
        ops!(run, LitByte, u8, by, sp, rng); ops!(run, LitInt, i64, is, sp, rng); ops!(run, LitUint, u64, us, sp, rng); ops!(run, LitFloat, NotNan<f64>, nn, sp, rng);
        ops!(run, LitChar, char, ch, sp, rng); ops!(run, LitStr, String, st.clone(), sp, rng); ops!(run, LitByteStr, Vec<u8>, bs.clone(), sp, rng);
        let cs = at(Span::call_site());
        for x in fl.iter().chain(&[f64::NAN, -f64::NAN]) {
            let d = format!("LitFloat {:?}", x);
            let w = if x.is_nan() { None } else { Some((x.to_bits(), cs)) };
            same!(run, format!("{}: try_from(f64)", d), LitFloat::try_from(*x).ok().map(|y| (y.value().into_inner().to_bits(), at(y.span()))), w);
            same!(run, format!("{}: Lit::try_from(f64)", d), Lit::try_from(*x).ok().map(|y| (kind_of(&y), at(y.span()))), w.map(|w| (("Float", V::Float(w.0)), cs)));
            if !x.is_nan() { same!(run, format!("{}: into f64", d), f64::from(LitFloat::try_from(*x).unwrap()).to_bits(), x.to_bits()); }
        }
        // every pair of literals of all kinds: equal only when of the same kind
        let mut all: Vec<Lit> = vec![Lit::from(true), Lit::from(1u8), Lit::from(1i64), Lit::from(1u64), Lit::from('\u{1}'), Lit::from("1"), Lit::from(vec![b'1']), Lit::try_from(1.0).unwrap(), Lit::from(0u8), Lit::from(0i64), Lit::from(0u64), Lit::from(false), Lit::from(""), Lit::from(vec![]), Lit::try_from(0.0).unwrap(), Lit::try_from(-0.0).unwrap()];
        for i in 0..all.len() { let mut x = all[i].clone(); x.set_span(sp[i % sp.len()]); all.push(x); }
        for a in &all { for b in &all {
            let ((k, v), (l, w)) = (kind_of(a), kind_of(b));
            let z = |v: &V| match v { V::Float(b) => V::Float((f64::from_bits(*b) + 0.0).to_bits()), v => v.clone() };
            let e = k == l && z(&v) == z(&w);
            same!(run, format!("Lit {:?} == Lit {:?}", (k, &v), (l, &w)), (a == b, a != b), (e, !e));
            if e { same!(run, format!("hash of Lit {:?}, Lit {:?}", (k, &v), (l, &w)), hash(a) == hash(b), true); }
        } }
        for (i, a) in st.iter().enumerate() {
            let (b, s) = (&st[rng.below(st.len())], sp[i % sp.len()]);
            let (d, x) = (format!("LitStr {:?}", a), || LitStr::new(a.clone(), s));
            let all = |y: LitStr| (y.value(), at(y.span()));
            same!(run, format!("{}: from &str, Box, Cow", d), (all(LitStr::from(a.as_str())), all(LitStr::from(a.clone().into_boxed_str())), all(LitStr::from(Cow::Borrowed(a.as_str()))), all(LitStr::from(Cow::<str>::Owned(a.clone())))), ((a, cs), (a, cs), (a, cs), (a, cs)));
            same!(run, format!("{}: into Box, Cow", d), (Box::<str>::from(x()), Cow::<str>::from(x())), (a, a));
            same!(run, format!("{}: as_ref, deref, borrow", d), { let y = x(); let (p, q): (&str, &str) = (y.as_ref(), y.borrow()); (p.to_string(), y.len(), q.to_string()) }, (a, a.len(), a));
            same!(run, format!("{} / str {:?}", d, b), (x() == **b, x() == *b.as_str(), x().partial_cmp(b.as_str()), hash::<str>(x().borrow()) == hash(&x())), (a == b, a == b, Some(a.as_str().cmp(b.as_str())), true));
            let l = |y: Lit| (kind_of(&y), at(y.span()));
            let w = (("Str", V::Str(a.clone())), cs);
            same!(run, format!("{}: Lit from &str, Box, Cow", d), (l(Lit::from(a.as_str())), l(Lit::from(a.clone().into_boxed_str())), l(Lit::from(Cow::Borrowed(a.as_str())))), (&w, &w, &w));
        }
        for (i, a) in bs.iter().enumerate() {
            let (b, s) = (&bs[rng.below(bs.len())], sp[i % sp.len()]);
            let (d, x) = (format!("LitByteStr {:?}", a), || LitByteStr::new(a.clone(), s));
            let all = |y: LitByteStr| (y.value(), at(y.span()));
            same!(run, format!("{}: from &[u8], Box, Cow", d), (all(LitByteStr::from(a.as_slice())), all(LitByteStr::from(a.clone().into_boxed_slice())), all(LitByteStr::from(Cow::Borrowed(a.as_slice())))), ((a, cs), (a, cs), (a, cs)));
            same!(run, format!("{}: into Box, Cow", d), (Box::<[u8]>::from(x()), Cow::<[u8]>::from(x())), (a, a));
            same!(run, format!("{}: as_ref, deref, borrow", d), { let y = x(); let (p, q): (&[u8], &[u8]) = (y.as_ref(), y.borrow()); (p.to_vec(), y.to_vec(), q.to_vec()) }, (a, a, a));
            same!(run, format!("{} / [u8] {:?}", d, b), (x() == b[..], x().partial_cmp(b.as_slice()), hash::<[u8]>(x().borrow()) == hash(&x())), (a == b, Some(a.as_slice().cmp(b.as_slice())), true));
            if !a.is_empty() {
                let mut w = a.clone(); w[0] ^= 255;
                same!(run, format!("{}: as_mut, deref_mut, borrow_mut", d), { let mut p = x(); let y: &mut [u8] = p.as_mut(); y[0] ^= 255; let mut q = x(); q[0] ^= 255; let mut z = x(); let y: &mut [u8] = z.borrow_mut(); y[0] ^= 255; (all(p), all(q), all(z)) }, ((&w, at(s)), (&w, at(s)), (&w, at(s))));
            }
            let l = |y: Lit| (kind_of(&y), at(y.span()));
            let w = (("ByteStr", V::ByteStr(a.clone())), cs);
            same!(run, format!("{}: Lit from &[u8], Box, Cow", d), (l(Lit::from(a.as_slice())), l(Lit::from(a.clone().into_boxed_slice())), l(Lit::from(Cow::Borrowed(a.as_slice())))), (&w, &w, &w));
        }
        // texts whose value does not fit are refused by the conversions from syn's literals
        for t in TEXTS { if let Ok(l) = syn::parse_str::<syn::LitInt>(t) {
            let (v, s) = of_syn(&syn::Lit::Int(l.clone()));
            same!(run, format!("LitInt::try_from(syn {:?})", t), LitInt::try_from(l.clone()).ok().map(|y| (y.v(), at(y.span()))), LitInt::of(&v).map(|v| (v, s)));
            same!(run, format!("LitUint::try_from(syn {:?})", t), LitUint::try_from(l).ok().map(|y| (y.v(), at(y.span()))), LitUint::of(&v).map(|v| (v, s)));
        } }
        if run.late() || !run.thorough { return None; }
    }
}
pub fn run(p: &str, run: &mut Run) -> Option<Found> { if p == "C14" { c14(run) } else { c15(run) } }
#[allow(unused)] fn _o(_: Ordering) {}

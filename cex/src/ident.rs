//! C16: identifiers and keywords. The oracle is the list of words itself.
use crate::rng::Rng;
use crate::{Found, Run};
use parsel::ast::{self, CustomIdent, Ident, KeywordList, Word};
use parsel::proc_macro2::{Span, TokenStream, TokenTree};
use parsel::syn::{self, parse::{Parse, ParseStream, Parser}};
use parsel::{quote::quote, ToTokens};
use std::convert::TryFrom;

macro_rules! same { ($run:expr, $case:expr, $got:expr, $want:expr) => {{
    let case: String = $case;
    $run.start(&case);
    let got = $run.guard(|| format!("{:?}", $got));
    $run.stop();
    let want = format!("{:?}", $want);
    $run.count(&case, true);
    if got.as_ref().ok() != Some(&want) { return Some(Found { input: case, expected: want, got: got.unwrap_or_else(|m| format!("panic: {}", m)) }); }
}} }
type At = (usize, usize, usize, usize);
fn at(s: Span) -> At { (s.start().line, s.start().column, s.end().line, s.end().column) }

const WORDS: &[&str] = &["a", "b", "foo", "fo", "f", "fooo", "Foo", "FOO", "foo_", "_foo", "_", "__", "bar", "ba", "fn", "self", "Self", "super", "crate", "async", "await", "dyn", "type", "true", "false", "union", "r#fn", "r#type", "r#foo", "r#a", "r#async", "x", "X", "x1", "é", "über", "变量", "Ω", "ω", "ﬁ", "a\u{301}",
    "if", "match", "mod", "pub", "static", "while", "yield", "abstract", "macro_rules", "default", "auto", "raw", "quux", "qux", "none", "some", "abcdefghijklmnopqrstuvwxyz0123456789_abcdefghijklmnopqrstuvwxyz", "i32", "str", "r", "b", "c", "br", "union_", "kw", "Keywords"];
const OTHER: &[&str] = &["", "1", "1a", "'a", "'a'", "\"a\"", "+", "(a)", "{}", "::a", "#", "a b", "a,", ", a", "-a", "a::b", "$a", "[foo]", "1.0", "foo foo", "r#\"a\"#", "b'a'"];
macro_rules! lists_more { ($n:ident [$($w:literal)*];) => { #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] struct $n; impl KeywordList for $n { const KEYWORDS: &'static [&'static str] = &[$($w),*]; } } }
macro_rules! lists { ($($n:ident [$($w:literal)*];)*) => {
    $( #[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] struct $n; impl KeywordList for $n { const KEYWORDS: &'static [&'static str] = &[$($w),*]; } )*
    fn custom(run: &mut Run, w: &str) -> Option<Found> { $( if let Some(f) = one::<$n>(run, stringify!($n), w) { return Some(f); } )* None }
} }
lists! { K0 []; K1 ["foo"]; K2 ["foo" "bar"]; K3 ["bar" "foo"]; KSelf ["self" "fn" "_"]; KRaw ["r#fn" "type"]; KDup ["foo" "foo" "a" "foo"]; KPre ["fo" "f" "foo_"]; KUp ["FOO" "X"]; KUni ["é" "ω" "变量"]; KOdd ["" " foo" "foo bar" "+" "1"]; KLast ["q" "w" "e" "r" "t" "y" "u" "i" "o" "p" "x" "async"];
    KAll ["a" "b" "foo" "fo" "f" "fooo" "Foo" "FOO" "foo_" "_foo" "_" "__" "bar" "ba" "fn" "self" "Self"]; }
lists_more! { KMany ["k0" "k7" "k14" "k21" "k28" "k35" "k42" "k49" "k56" "k63" "k70" "k77" "k84" "k91" "k98" "k105" "k112" "k119" "k126" "k133" "k140" "k147" "k154" "k161" "k168" "k175" "k182" "k189" "k196" "k203" "k210" "k217" "k224" "k231" "k238" "k245" "k252" "k259" "k266" "k273" "k280" "k287" "k294" "k301" "k308" "k315" "k322" "k329" "k336" "k343" "k350" "k357" "k364" "k371" "k378" "k385" "k392" "k399" "k6" "k13" "k20" "k27" "k34" "k41" "k48" "k55" "k62" "k69" "k76" "k83" "k90" "k97" "k104" "k111" "k118" "k125" "k132" "k139" "k146" "k153" "k160" "k167" "k174" "k181" "k188" "k195" "k202" "k209" "k216" "k223" "k230" "k237" "k244" "k251" "k258" "k265" "k272" "k279" "k286" "k293" "k300" "k307" "k314" "k321" "k328" "k335" "k342" "k349" "k356" "k363" "k370" "k377" "k384" "k391" "k398" "k5" "k12" "k19" "k26" "k33" "k40" "k47" "k54" "k61" "k68" "k75" "k82" "k89" "k96" "k103" "k110" "k117" "k124" "k131" "k138" "k145" "k152" "k159" "k166" "k173" "k180" "k187" "k194" "k201" "k208" "k215" "k222" "k229" "k236" "k243" "k250" "k257" "k264" "k271" "k278" "k285" "k292" "k299" "k306" "k313" "k320" "k327" "k334" "k341" "k348" "k355" "k362" "k369" "k376" "k383" "k390" "k397" "k4" "k11" "k18" "k25" "k32" "k39" "k46" "k53" "k60" "k67" "k74" "k81" "k88" "k95" "k102" "k109" "k116" "k123" "k130" "k137" "k144" "k151" "k158" "k165" "k172" "k179" "k186" "k193" "k200" "k207" "k214" "k221" "k228" "k235" "k242" "k249" "k256" "k263" "k270" "k277" "k284" "k291" "k298" "k305" "k312" "k319" "k326" "k333" "k340" "k347" "k354" "k361" "k368" "k375" "k382" "k389" "k396" "k3" "k10" "k17" "k24" "k31" "k38" "k45" "k52" "k59" "k66" "k73" "k80" "k87" "k94" "k101" "k108" "k115" "k122" "k129" "k136" "k143" "k150" "k157" "k164" "k171" "k178" "k185" "k192" "k199" "k206" "k213" "k220" "k227" "k234" "k241" "k248" "k255" "k262" "k269" "k276" "k283" "k290" "k297" "k304" "k311" "k318" "k325" "k332" "k339" "k346" "k353" "k360" "k367" "k374" "k381" "k388" "k395" "k2" "k9" "k16" "k23" "k30" "k37" "k44" "k51" "k58" "k65" "k72" "k79" "k86" "k93" "k100" "k107" "k114" "k121" "k128" "k135" "k142" "k149" "k156" "k163" "k170" "k177" "k184" "k191" "k198" "k205" "k212" "k219" "k226" "k233" "k240" "k247" "k254" "k261" "k268" "k275" "k282" "k289" "k296" "k303" "k310" "k317" "k324" "k331" "k338" "k345" "k352" "k359" "k366" "k373" "k380" "k387" "k394" "k1" "k8" "k15" "k22" "k29" "k36" "k43" "k50" "k57" "k64" "k71" "k78" "k85" "k92" "k99" "k106" "k113" "k120" "k127" "k134" "k141" "k148" "k155" "k162" "k169" "k176" "k183" "k190" "k197" "k204" "k211" "k218" "k225" "k232" "k239" "k246" "k253" "k260" "k267" "k274" "k281" "k288" "k295" "k302" "k309" "k316" "k323" "k330" "k337" "k344" "k351" "k358" "k365" "k372" "k379" "k386" "k393"]; }
/// is the text one identifier, raw or not
fn word(s: &str) -> Option<(String, At)> {
    let t: Vec<TokenTree> = s.parse::<TokenStream>().ok()?.into_iter().collect();
    match &t[..] { [TokenTree::Ident(i)] => Some((i.to_string(), at(i.span()))), _ => None }
}
fn parse_at<T: Parse>(s: &str) -> Result<(T, String), (String, At)> {
    (|i: ParseStream<'_>| { let x = i.parse::<T>()?; let r: TokenStream = i.parse()?; Ok((x, r.to_string())) }).parse_str(s).map_err(|e| (e.to_string(), at(e.span())))
}
fn one<K: KeywordList + Default + Clone>(run: &mut Run, k: &str, s: &str) -> Option<Found> {
    let w = word(s);
    let ok = w.as_ref().map_or(false, |(t, _)| !K::KEYWORDS.iter().any(|x| x == t));
    let obs = |x: &CustomIdent<K>| (x.to_string(), x.token().to_string(), at(x.span()), at(x.token().span()), x.to_token_stream().into_iter().map(|t| (t.to_string(), at(t.span()))).collect::<Vec<_>>(), *x == x.token().to_string(), *x == "no such word", { let i: Ident = x.clone().into(); (i.to_string(), at(i.span())) });
    let full = |t: &String, a: At| (t.clone(), t.clone(), a, a, vec![(t.clone(), a)], true, false, (t.clone(), a));
    let want = if ok { w.as_ref().map(|(t, a)| full(t, *a)) } else { None };
    same!(run, format!("CustomIdent<{}> from {:?}", k, s), syn::parse_str::<CustomIdent<K>>(s).ok().map(|x| obs(&x)), want);
    same!(run, format!("CustomIdent<{}> by from_str from {:?}", k, s), s.parse::<CustomIdent<K>>().ok().map(|x| obs(&x)), want);
    let Some((t, a)) = w else { return None };
    let id = || { let TokenTree::Ident(i) = s.parse::<TokenStream>().unwrap().into_iter().next().unwrap() else { unreachable!() }; i };
    same!(run, format!("CustomIdent<{}>::try_from({:?})", k, s), CustomIdent::<K>::try_from(id()).map(|x| obs(&x)).map_err(|e| at(e.span())), if ok { Ok(full(&t, a)) } else { Err(a) });
    // inside a longer input
    for (pre, post) in [("", " , z"), ("\n  ", " + 1"), ("", " (y)"), (" ", " foo"), ("", " :: x"), ("", "::<T>"), ("", "!()"), ("", " 'a"), ("", " \"s\""), (" ", " = 1"), ("", " {}"), ("", ".x"), ("", " fn"), ("\n", " => _"), ("", " #")] {
        let text = format!("{}{}{}", pre, s, post);
        let pos = s.parse::<TokenStream>().ok().and_then(|_| text.parse::<TokenStream>().ok()).and_then(|x| x.into_iter().next()).map(|x| at(x.span())).unwrap();
        let rest = post.parse::<TokenStream>().unwrap().to_string();
        same!(run, format!("CustomIdent<{}> at the start of {:?}", k, text), parse_at::<CustomIdent<K>>(&text).map(|(x, r)| (x.to_string(), at(x.span()), r)).map_err(|e| e.1), if ok { Ok((t.clone(), pos, rest)) } else { Err(pos) });
    }
    if ok {
        let mut x = syn::parse_str::<CustomIdent<K>>(s).ok()?;
        let sp = syn::parse_str::<Ident>("\n\n   zz").unwrap().span();
        x.set_span(sp);
        same!(run, format!("CustomIdent<{}> {:?}: set_span", k, s), obs(&x), full(&t, at(sp)));
        same!(run, format!("CustomIdent<{}> {:?}: printed and parsed", k, s), syn::parse2::<CustomIdent<K>>(x.to_token_stream()).map(|y| obs(&y)).ok(), Some(full(&t, at(sp))));
        for o in WORDS { same!(run, format!("CustomIdent<{}> {:?} == {:?}", k, s, o), (x == *o, x == o.to_string()), (t == *o, t == *o)); }
    }
    None
}
macro_rules! kw { ($run:expr, $s:expr; $($m:ident [$($n:ident $t:literal)*];)*) => { $( $( {
    let (s, run): (&str, &mut Run) = ($s, $run);
    let w = word(s);
    let ok = w.as_ref().map_or(false, |(t, _)| t == $t);
    type T = kws::$m::$n;
    let obs = |x: &T| (x.as_str(), x.to_string(), x.token().to_string(), at(x.span()), x.to_token_stream().into_iter().map(|t| (t.to_string(), at(t.span()))).collect::<Vec<_>>(), { let t: TokenTree = (*x).into(); (t.to_string(), at(t.span())) }, AsRef::<str>::as_ref(x).to_string());
    let full = |a: At| ($t, $t.to_string(), $t.to_string(), a, vec![($t.to_string(), a)], ($t.to_string(), a), $t.to_string());
    let name = concat!(stringify!($m), "::", stringify!($n));
    same!(run, format!("{} from {:?}", name, s), syn::parse_str::<T>(s).map(|x| obs(&x)).ok(), if ok { w.as_ref().map(|(_, a)| full(*a)) } else { None });
    if let Some((t, a)) = &w {
        for tail in [", 1", ":: x", "! ()", "(1)", "{ }", "'a", "= 1", "\"s\"", "fn", ". x", "# x", "=> _", "foo", "r#foo"] {
            let want: String = tail.parse::<TokenStream>().unwrap().to_string();
            same!(run, format!("{} at the start of {:?} + {}", name, s, tail), parse_at::<T>(&format!("{} {}", s, tail)).map(|(x, r)| (obs(&x), r)).map_err(|e| e.1), if ok { Ok((full(*a), want)) } else { Err(*a) });
        }
        same!(run, format!("{} == {:?}", name, t), (T::default() == *t, T::new(Span::call_site()) == t.as_str()), (t == $t, t == $t));
    }
    if s == $t {
        let mut x = T::default();
        let sp = syn::parse_str::<Ident>("\n\n   zz").unwrap().span();
        same!(run, format!("{}: default", name), obs(&x), full(at(Span::call_site())));
        x.set_span(sp);
        same!(run, format!("{}: set_span", name), (obs(&x), obs(&T::new(sp))), (full(at(sp)), full(at(sp))));
        same!(run, format!("{}: printed and parsed", name), syn::parse2::<T>(x.to_token_stream()).map(|y| obs(&y)).ok(), Some(full(at(sp))));
        same!(run, format!("{}: in quote!", name), quote!(#x #x).to_string(), format!("{} {}", $t, $t));
    }
} )* {
    let list: &[&str] = &[$($t),*];
    same!($run, format!("{}::Keywords::KEYWORDS", stringify!($m)), <kws::$m::Keywords as KeywordList>::KEYWORDS.iter().map(|s| s.to_string()).collect::<std::collections::BTreeSet<_>>(), list.iter().map(|s| s.to_string()).collect::<std::collections::BTreeSet<_>>());
    if let Some(f) = one::<kws::$m::Keywords>($run, stringify!($m), $s) { return Some(f); }
} )* } }
fn all(run: &mut Run, s: &str) -> Option<Found> {
    if let Some(f) = custom(run, s) { return Some(f); }
    if let Some(f) = one::<ast::AllowAll>(run, "AllowAll", s) { return Some(f); }
    if let Some((t, _)) = word(s) {
        if !s.starts_with("r#") {
            let sp = syn::parse_str::<Ident>("\n q").unwrap().span();
            same!(run, format!("Word::new({:?})", s), { let x = Word::new(s, sp); (x.to_string(), at(x.span()), x == s) }, (t.clone(), at(sp), true));
            same!(run, format!("word({:?}), ident({:?})", s, s), (ast::word(s).to_string(), at(ast::word(s).span()), ast::ident(s).to_string(), at(ast::ident(s).span())), (t.clone(), at(Span::call_site()), t.clone(), at(Span::call_site())));
        }
    }
    kw!(run, s; kw_a [Foo "foo" Bar "bar" Function "fn" This "self" Fo "fo" Upper "FOO" Underscore "_"]; kw_b [X "x" Async "async"]; kw_c [Underscore "_"]; kw_d [];);
    None
}
/// the known answers, so that the oracle is not the tokenizer alone
fn known(run: &mut Run) -> Option<Found> {
    for (s, k1, w) in [("foo", false, true), ("r#foo", true, true), ("Foo", true, true), ("fn", true, true), ("_", true, true), ("self", true, true), ("1", false, false), ("foo bar", false, false), ("", false, false), ("true", true, true)] {
        same!(run, format!("CustomIdent<K1>, Word from {:?}", s), (syn::parse_str::<CustomIdent<K1>>(s).is_ok(), syn::parse_str::<Word>(s).is_ok()), (k1, w));
    }
    None
}
pub fn run(run: &mut Run) -> Option<Found> {
    if let Some(f) = known(run) { return Some(f); }
    for s in WORDS.iter().chain(OTHER) { if let Some(f) = all(run, s) { return Some(f); } }
    // a list of 400 keywords
    for i in 0..420 { if let Some(f) = one::<KMany>(run, "400 keywords k0..k399", &format!("k{}", i)) { return Some(f); } }
    for s in WORDS { if let Some(f) = one::<KMany>(run, "400 keywords k0..k399", s) { return Some(f); } }
    let mut r = Rng(run.seed);
    for _ in 0..if run.thorough { 20000 } else { 400 } {
        if run.late() { break; }
        let n = 1 + r.below(6);
        let s: String = (0..n).map(|i| { let c: Vec<char> = if i == 0 { "fobar_xFOXqésΩ".chars().collect() } else { "fobar_x01FOéΩ".chars().collect() }; c[r.below(c.len())] }).collect();
        let s = if r.chance(1, 6) && s != "_" && !s.starts_with('_') { format!("r#{}", s) } else { s };
        if let Some(f) = all(run, &s) { return Some(f); }
    }
    None
}

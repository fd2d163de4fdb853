//! C25: try_parse_quote! and try_parse_quote_spanned!. The oracle is the parser on tokens put together by hand.
use crate::{Found, Run};
use parsel::ast::*;
use parsel::proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use parsel::syn::{self, parse::{Parse, Parser}};
use parsel::{Error, ToTokens};

/// tokens as written, with the span given, or that of the call site
pub struct Build { out: TokenStream, span: Span, own: bool }
impl Build {
    fn new(span: Option<Span>) -> Build { Build { out: TokenStream::new(), own: span.is_none(), span: span.unwrap_or_else(Span::call_site) } }
    fn put(&mut self, t: impl Into<TokenTree>) { let mut t = t.into(); t.set_span(self.span); self.out.extend([t]); }
    fn ident(&mut self, s: &str) { match s.strip_prefix("r#") { Some(s) => self.put(Ident::new_raw(s, self.span)), None => self.put(Ident::new(s, self.span)) } }
    fn punct(&mut self, s: &str) { let n = s.len(); for (i, c) in s.chars().enumerate() { self.put(Punct::new(c, if i + 1 < n { Spacing::Joint } else { Spacing::Alone })); } }
    fn lifetime(&mut self, s: &str) { self.put(Punct::new('\'', Spacing::Joint)); self.ident(s); }
    fn lit(&mut self, s: &str) { let l = s.parse::<Literal>().unwrap(); /* outside of a macro a literal lies in its own text */ if self.own { self.out.extend([TokenTree::from(l)]); } else { self.put(l); } }
    fn group(&mut self, d: char, f: impl FnOnce(&mut Build)) { let mut b = Build { out: TokenStream::new(), span: self.span, own: self.own }; f(&mut b); self.put(Group::new(match d { '(' => Delimiter::Parenthesis, '[' => Delimiter::Bracket, _ => Delimiter::Brace }, b.out)); }
    fn add(&mut self, x: &impl ToTokens) { x.to_tokens(&mut self.out); }
}
fn at(s: Span) -> String { format!("{:?}-{:?}", (s.start().line, s.start().column), (s.end().line, s.end().column)) }
/// every token and where it is
fn list(t: TokenStream, out: &mut String) {
    for x in t {
        match &x {
            TokenTree::Group(g) => { *out += &format!("{:?}@{}<", g.delimiter(), at(g.span())); list(g.stream(), out); *out += ">"; }
            TokenTree::Punct(p) => *out += &format!("{}{:?}@{} ", p, p.spacing(), at(p.span())),
            _ => *out += &format!("{}@{} ", x, at(x.span())),
        }
    }
}
fn shown<T: ToTokens>(r: &Result<T, Error>) -> String {
    match r {
        Ok(v) => { let mut s = String::new(); list(v.to_token_stream(), &mut s); format!("Ok {}", s) }
        Err(e) => format!("Err {:?}", e.clone().into_iter().map(|e| (e.to_string(), at(e.span()))).collect::<Vec<_>>()),
    }
}
macro_rules! case { ($run:ident, $t:ty, $name:expr, $span:expr, $text:expr, $build:expr, $call:expr) => {{
    let span: Option<Span> = $span;
    let mut b = Build::new(span);
    ($build)(&mut b);
    let input = format!("{} in {}: {}{} as {}", if span.is_some() { "try_parse_quote_spanned!" } else { "try_parse_quote!" }, $name, $text, span.map_or(String::new(), |s: Span| format!(" with span {}", at(s))), std::any::type_name::<$t>());
    let tokens = b.out;
    let want = shown(&<$t as Parse>::parse.parse2(tokens));
    $run.start(&input);
    let got = $run.guard(|| { let r: Result<$t, Error> = $call; shown(&r) });
    $run.stop();
    $run.count(&format!("{} {}", input, want), true);
    match got { Ok(g) if g == want => {} Ok(g) => return Some(Found { input, expected: want, got: g }), Err(m) => return Some(Found { input, expected: want, got: format!("panic: {}", m) }) }
}} }
include!("quote_cases.rs");
fn all<T: Parse + ToTokens, A: ToTokens, B: ToTokens>(run: &mut Run, s: Span, a: &A, b: &B) -> Option<Found> { quote_cases!(run, T, s, a, b); None }
fn kinds<A: ToTokens, B: ToTokens>(run: &mut Run, s: Span, a: &A, b: &B) -> Option<Found> {
    macro_rules! each { ($($t:ty),*) => { $( if let Some(f) = all::<$t, A, B>(run, s, a, b) { return Some(f); } )* } }
    each!(TokenStream, Many<Lit>, Many<Word>, Separated<Word, syn::Token![,]>, Punctuated<Either<Word, Lit>, syn::Token![,]>, Paren<TokenStream>, Any<Either<Word, Either<Lit, Either<Paren<Any<Word>>, syn::Token![,]>>>>, Word, LitInt, syn::Expr, syn::Lifetime, syn::Type, Empty, NotEof);
    None
}
/// what a caller's own error type gets
#[derive(Debug)]
struct Own(Error);
impl From<Error> for Own { fn from(e: Error) -> Own { Own(e) } }
fn errors(run: &mut Run, text: &str) -> Option<Found> {
    let tokens: TokenStream = text.parse().ok()?;
    let want = shown(&<Many<Word> as Parse>::parse.parse2(tokens.clone()));
    let input = format!("try_parse_quote! of {:?} in a function with another error type", text);
    run.start(&input);
    let got = run.guard(|| {
        let a: Result<Many<Word>, Own> = quotes::quote_other_error(&tokens);
        let b: Result<Many<Word>, Box<dyn std::error::Error>> = quotes::quote_other_error(&tokens);
        (shown(&a.map_err(|e| e.0)), shown(&b.map_err(|e| *e.downcast::<Error>().expect("the parse error"))))
    });
    run.stop();
    run.count(&input, true);
    match got { Ok((a, b)) if a == want && b == want => None, g => Some(Found { input, expected: want, got: format!("{:?}", g) }) }
}
fn twice(run: &mut Run, span: Span, other: Span, text: &str) -> Option<Found> {
    let a: TokenStream = text.parse().ok()?;
    for spanned in [false, true] {
        let (s, o) = if spanned { (Some(span), Some(other)) } else { (None, None) };
        let (mut x, mut y) = (Build::new(s), Build::new(o));
        x.add(&a); x.ident("foo"); y.ident("bar"); y.add(&a);
        let want = match (<Many<Word> as Parse>::parse.parse2(x.out), <Separated<Word, syn::Token![,]> as Parse>::parse.parse2(y.out)) { (Err(e), _) => shown::<Empty>(&Err(e)), (_, Err(e)) => shown::<Empty>(&Err(e)), (Ok(x), Ok(y)) => shown(&Ok(x)) + &shown(&Ok(y)) };
        let input = format!("two quotes in one function (spanned: {}) with {:?}", spanned, text);
        run.start(&input);
        let got = run.guard(|| {
            let r: Result<(Many<Word>, Separated<Word, syn::Token![,]>), Error> = if spanned { quotes::quote_spanned_twice(span, other, &a) } else { quotes::quote_twice(&a) };
            match r { Err(e) => shown::<Empty>(&Err(e)), Ok((x, y)) => shown(&Ok(x)) + &shown(&Ok(y)) }
        });
        run.stop();
        run.count(&input, true);
        match got { Ok(g) if g == want => {} g => return Some(Found { input, expected: want, got: format!("{:?}", g) }) }
    }
    None
}
fn repeated(run: &mut Run, span: Span, texts: &[&str]) -> Option<Found> {
    let a: Vec<TokenStream> = texts.iter().map(|t| t.parse().unwrap()).collect();
    for spanned in [false, true] {
        let mut b = Build::new(Some(span).filter(|_| spanned));
        b.group('[', |b| for (i, x) in a.iter().enumerate() { if i > 0 { b.punct(","); } b.add(x); });
        for x in &a { b.add(x); }
        if spanned { b.ident("foo"); }
        let want = format!("{} 1", shown(&<TokenStream as Parse>::parse.parse2(b.out)));
        let input = format!("repetition in a quote (spanned: {}) with {:?}", spanned, texts);
        run.start(&input);
        let got = run.guard(|| { let mut n = 0; let r: Result<TokenStream, Error> = if spanned { quotes::quote_spanned_repeat(&mut || { n += 1; span }, &a) } else { n = 1; quotes::quote_repeat(&a) }; format!("{} {}", shown(&r), n) });
        run.stop();
        run.count(&input, true);
        match got { Ok(g) if g == want => {} g => return Some(Found { input, expected: want, got: format!("{:?}", g) }) }
    }
    None
}
pub fn run(run: &mut Run) -> Option<Found> {
    let place: TokenStream = "x\n  (y ) ,\n\n1.5".parse().unwrap();
    let spans: Vec<Span> = place.into_iter().map(|t| t.span()).chain([Span::call_site()]).collect();
    for span in &spans { for t in [&[][..], &["a"], &["a", "b c", "(d)"], &["", "x"], &["1", "2", "3", "4", "5", "6", "7", "8", "9"]] { if let Some(f) = repeated(run, *span, t) { return Some(f); } } }
    for s in ["", "a", "a b", "1", "( a )", "a ,", ", a", "a, b", "- 1", "fn", "'a", "{ } [ ]", "a.b(c)", "\"x\" 'y' b\"z\"", "_", "#[x] struct S;"] {
        if let Some(f) = errors(run, s) { return Some(f); }
        let a: TokenStream = s.parse().unwrap();
        for (i, span) in spans.iter().enumerate() {
            if let Some(f) = twice(run, *span, spans[(i + 1) % spans.len()], s) { return Some(f); }
            if let Some(f) = kinds(run, *span, &a, &"b".parse::<TokenStream>().unwrap()) { return Some(f); }
            if let Ok(w) = syn::parse_str::<Lit>(s) { if let Some(f) = kinds(run, *span, &w, &Some(7u8)) { return Some(f); } }
            if let Ok(w) = syn::parse_str::<Any<Word>>(s) { if let Some(f) = kinds(run, *span, &w, &Empty) { return Some(f); } }
        }
    }
    None
}

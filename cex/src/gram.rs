//! An interpreter of grammars, written from the properties: what each production accepts, which
//! value it yields and which errors it may report. It is built on syn only, never on parsel.
use parsel::proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use parsel::syn::parse::discouraged::Speculative;
use parsel::syn::parse::{Parse, ParseStream};
use parsel::syn::{self, token};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Leaf(char, String), Group(Delimiter, Vec<Tok>) }
/// flat text of tokens, for reports
pub fn show(ts: &[Tok]) -> String {
    ts.iter().map(|t| match t {
        Tok::Leaf(_, s) => s.clone(),
        Tok::Group(d, c) => { let (a, b) = delim(*d); format!("{}{}{}", a, show(c), b) }
    }).collect::<Vec<_>>().join(" ")
}
pub fn delim(d: Delimiter) -> (&'static str, &'static str) {
    match d { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::Brace => ("{", "}"), Delimiter::None => ("", "") }
}
/// Tokens of a stream; invisible groups are dissolved, adjacent punctuation is kept as single characters, spacing is ignored.
pub fn toks(ts: TokenStream) -> Vec<Tok> {
    let mut o = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => o.extend(toks(g.stream())),
            TokenTree::Group(g) => o.push(Tok::Group(g.delimiter(), toks(g.stream()))),
            TokenTree::Ident(i) => o.push(Tok::Leaf('i', i.to_string())),
            TokenTree::Punct(p) => o.push(Tok::Leaf('p', p.as_char().to_string())),
            TokenTree::Literal(l) => {
                let mut s = l.to_string();
                if s.starts_with('-') { o.push(Tok::Leaf('p', "-".into())); s.remove(0); }
                o.push(Tok::Leaf('l', s));
            }
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Leaf(String, Vec<Tok>),
    Unit(&'static str),
    Group(Delimiter, Box<Val>),
    Maybe(Option<Box<(Val, Val)>>),
    List(&'static str, Vec<Val>, Vec<Val>),
    Many(Vec<Val>),
    Operand(Box<Val>),
    Left(Box<Val>, Box<Val>, Box<Val>),
    Right(Box<Val>, Box<Val>, Box<Val>),
    Side(bool, Box<Val>),
    Node(String, Vec<(String, Val)>),
}
impl Val {
    /// the tokens the value stands for, in source order
    pub fn print(&self, o: &mut Vec<Tok>) {
        match self {
            Val::Leaf(_, t) => o.extend(t.iter().cloned()),
            Val::Unit(_) => {}
            Val::Group(d, v) => { let mut c = vec![]; v.print(&mut c); o.push(Tok::Group(*d, c)); }
            Val::Maybe(None) => {}
            Val::Maybe(Some(p)) => { p.0.print(o); p.1.print(o); }
            Val::List(_, v, p) => for (i, x) in v.iter().enumerate() { x.print(o); if let Some(q) = p.get(i) { q.print(o); } },
            Val::Many(v) => for x in v { x.print(o); },
            Val::Operand(v) | Val::Side(_, v) => v.print(o),
            Val::Left(a, b, c) | Val::Right(a, b, c) => { a.print(o); b.print(o); c.print(o); }
            Val::Node(_, f) => for (_, v) in f { v.print(o); },
        }
    }
    pub fn tokens(&self) -> Vec<Tok> { let mut o = vec![]; self.print(&mut o); o }
    pub fn nodes(&self) -> usize {
        match self {
            Val::Leaf(..) | Val::Unit(_) | Val::Maybe(None) => 1,
            Val::Group(_, v) | Val::Operand(v) | Val::Side(_, v) => 1 + v.nodes(),
            Val::Maybe(Some(p)) => 1 + p.0.nodes() + p.1.nodes(),
            Val::List(_, v, p) => 1 + v.iter().chain(p).map(|x| x.nodes()).sum::<usize>(),
            Val::Many(v) => 1 + v.iter().map(|x| x.nodes()).sum::<usize>(),
            Val::Left(a, b, c) | Val::Right(a, b, c) => 1 + a.nodes() + b.nodes() + c.nodes(),
            Val::Node(_, f) => 1 + f.iter().map(|x| x.1.nodes()).sum::<usize>(),
        }
    }
}

#[derive(Clone)]
pub enum G {
    Leaf(&'static str, fn(ParseStream<'_>) -> syn::Result<Val>),
    Empty, Eof, NotEof,
    Group(Delimiter, Box<G>),
    Maybe(Box<G>, Box<G>),
    Sep(Box<G>, Box<G>),
    Pun(Box<G>, Box<G>),
    Any(Box<G>),
    Left(Box<G>, Box<G>),
    Right(Box<G>, Box<G>),
    Either(Box<G>, Box<G>),
    Seq { en: &'static str, ctor: &'static str, fields: Vec<(&'static str, G)> },
    Choice(Vec<G>),
    Rec(fn() -> G),
}
pub type Pos = (usize, usize);
/// one acceptable error: where it starts and ends, and what its message has to mention
#[derive(Clone, Debug, PartialEq)]
pub struct E { pub start: Pos, pub end: Pos, pub parts: Vec<String> }
pub fn pos(s: Span) -> (Pos, Pos) { let (a, b) = (s.start(), s.end()); ((a.line, a.column), (b.line, b.column)) }
pub fn err_of(e: &syn::Error, text: bool) -> E {
    let (start, end) = pos(e.span());
    E { start, end, parts: if text { vec![e.to_string()] } else { vec![] } }
}
type R = Result<Val, Vec<E>>;

impl G {
    pub fn run(&self, input: ParseStream<'_>) -> R {
        match self {
            G::Leaf(_, f) => f(input).map_err(|e| vec![err_of(&e, true)]),
            G::Empty => Ok(Val::Unit("Empty")),
            G::Eof => if input.is_empty() { Ok(Val::Unit("Eof")) } else { Err(vec![err_of(&input.error(""), false)]) },
            G::NotEof => if input.is_empty() { Err(vec![err_of(&input.error(""), false)]) } else { Ok(Val::Unit("NotEof")) },
            G::Group(d, g) => {
                let c = (|| -> syn::Result<_> {
                    let c;
                    match d {
                        Delimiter::Parenthesis => { let _: token::Paren = syn::parenthesized!(c in input); }
                        Delimiter::Bracket => { let _: token::Bracket = syn::bracketed!(c in input); }
                        _ => { let _: token::Brace = syn::braced!(c in input); }
                    }
                    Ok(c)
                })().map_err(|e| vec![err_of(&e, true)])?;
                let v = g.run(&c)?;
                Ok(Val::Group(*d, Box::new(v)))
            }
            G::Maybe(p, t) => {
                let f = input.fork();
                match p.run(&f) {
                    Err(_) => Ok(Val::Maybe(None)),
                    Ok(a) => { input.advance_to(&f); let b = t.run(input)?; Ok(Val::Maybe(Some(Box::new((a, b))))) }
                }
            }
            G::Sep(t, p) => { let (v, q) = list(t, p, input)?; Ok(Val::List("Separated", v, q)) }
            G::Pun(t, p) => {
                let (mut v, mut q) = (vec![], vec![]);
                while !input.is_empty() {
                    v.push(t.run(input)?);
                    if input.is_empty() { break; }
                    q.push(p.run(input)?);
                }
                Ok(Val::List("Punctuated", v, q))
            }
            G::Any(t) => {
                let mut v = vec![];
                loop {
                    let f = input.fork();
                    match t.run(&f) { Ok(x) => { input.advance_to(&f); v.push(x); } Err(_) => return Ok(Val::Many(v)) }
                }
            }
            G::Left(o, r) => {
                let (v, q) = list(r, o, input)?;
                let mut it = v.into_iter();
                let mut e = Val::Operand(Box::new(it.next().unwrap()));
                for (op, x) in q.into_iter().zip(it) { e = Val::Left(Box::new(e), Box::new(op), Box::new(x)); }
                Ok(e)
            }
            G::Right(o, l) => {
                let (v, q) = list(l, o, input)?;
                let mut it = v.into_iter().rev();
                let mut e = Val::Operand(Box::new(it.next().unwrap()));
                for (op, x) in q.into_iter().rev().zip(it) { e = Val::Right(Box::new(x), Box::new(op), Box::new(e)); }
                Ok(e)
            }
            G::Either(a, b) => choice(&[("Left", a), ("Right", b)], input).map(|(i, v)| Val::Side(i == 0, Box::new(v))),
            G::Seq { en, ctor, fields } => {
                let mut out = vec![];
                for (n, g) in fields {
                    let v = g.run(input).map_err(|es| es.into_iter().map(|mut e| {
                        e.parts.push(ctor.to_string());
                        e.parts.push(n.trim_start_matches("r#").to_string());
                        if !en.is_empty() { e.parts.push(en.to_string()); }
                        e
                    }).collect::<Vec<_>>())?;
                    out.push((n.to_string(), v));
                }
                Ok(Val::Node(if en.is_empty() { ctor.to_string() } else { format!("{}::{}", en, ctor) }, out))
            }
            G::Choice(gs) => {
                let alts: Vec<(&str, &G)> = gs.iter().map(|g| ("", g)).collect();
                if alts.is_empty() { return Err(vec![err_of(&input.error(""), false)]); }
                choice(&alts, input).map(|x| x.1)
            }
            G::Rec(f) => f().run(input),
        }
    }
}
fn list(t: &G, p: &G, input: ParseStream<'_>) -> Result<(Vec<Val>, Vec<Val>), Vec<E>> {
    let (mut v, mut q) = (vec![t.run(input)?], vec![]);
    loop {
        let f = input.fork();
        match p.run(&f) { Ok(x) => { input.advance_to(&f); q.push(x); v.push(t.run(input)?); } Err(_) => return Ok((v, q)) }
    }
}
fn choice(gs: &[(&str, &G)], input: ParseStream<'_>) -> Result<(usize, Val), Vec<E>> {
    let mut errs: Vec<E> = vec![];
    for (i, (_, g)) in gs.iter().enumerate() {
        let f = input.fork();
        match g.run(&f) { Ok(v) => { input.advance_to(&f); return Ok((i, v)); } Err(e) => errs.extend(e) }
    }
    let far = errs.iter().map(|e| e.end).max().unwrap();
    errs.retain(|e| e.end == far);
    Err(errs)
}

/// A type of the real library together with its grammar and the structure of its values.
pub trait HasG: Sized { fn g() -> G; fn val(&self) -> Val; }
fn b<T: HasG>() -> Box<G> { Box::new(T::g()) }
fn bv<T: HasG>(t: &T) -> Box<Val> { Box::new(t.val()) }

use parsel::ast::*;
macro_rules! leaf {
    ($t:ty, $n:expr, $v:ident => $s:expr) => {
        impl HasG for $t {
            fn g() -> G { G::Leaf($n, |i| { let x: $t = i.parse()?; Ok(HasG::val(&x)) }) }
            fn val(&self) -> Val { let $v = self; Val::Leaf($s, toks(parsel::quote::quote!(#$v))) }
        }
    };
}
leaf!(syn::LitInt, "int", v => format!("int {}", v));
leaf!(syn::Ident, "ident", v => format!("ident {}", v));
leaf!(syn::LitStr, "str", v => format!("str {:?}", v.value()));
leaf!(syn::Token![,], "','", _v => ",".into());
leaf!(syn::Token![;], "';'", _v => ";".into());
leaf!(syn::Token![+], "'+'", _v => "+".into());
leaf!(syn::Token![-], "'-'", _v => "-".into());
leaf!(syn::Token![==], "'=='", _v => "==".into());
leaf!(syn::Token![=], "'='", _v => "=".into());
leaf!(syn::Token![->], "'->'", _v => "->".into());
leaf!(syn::Token![fn], "'fn'", _v => "fn".into());
/// an integer and an identifier; its errors span everything it looked at
#[derive(Clone, Debug, PartialEq)]
pub struct Fat(pub syn::LitInt, pub syn::Ident);
impl Parse for Fat {
    fn parse(input: ParseStream<'_>) -> syn::Result<Self> {
        let a: syn::LitInt = input.parse()?;
        if input.peek(syn::Ident) { return Ok(Fat(a, input.parse()?)); }
        match input.parse::<TokenTree>() {
            Ok(t) => Err(syn::Error::new(a.span().join(t.span()).unwrap_or(t.span()), "expected an identifier after it")),
            Err(e) => Err(e),
        }
    }
}
impl parsel::ToTokens for Fat { fn to_tokens(&self, t: &mut TokenStream) { self.0.to_tokens(t); self.1.to_tokens(t); } }
leaf!(Fat, "fat", v => format!("fat {} {}", v.0, v.1));
impl HasG for Empty { fn g() -> G { G::Empty } fn val(&self) -> Val { Val::Unit("Empty") } }
impl HasG for Eof { fn g() -> G { G::Eof } fn val(&self) -> Val { Val::Unit("Eof") } }
impl HasG for NotEof { fn g() -> G { G::NotEof } fn val(&self) -> Val { Val::Unit("NotEof") } }
impl<T: HasG> HasG for Box<T> { fn g() -> G { T::g() } fn val(&self) -> Val { (**self).val() } }
impl<T: HasG> HasG for Paren<T> { fn g() -> G { G::Group(Delimiter::Parenthesis, b::<T>()) } fn val(&self) -> Val { Val::Group(Delimiter::Parenthesis, bv(&**self)) } }
impl<T: HasG> HasG for Bracket<T> { fn g() -> G { G::Group(Delimiter::Bracket, b::<T>()) } fn val(&self) -> Val { Val::Group(Delimiter::Bracket, bv(&**self)) } }
impl<T: HasG> HasG for Brace<T> { fn g() -> G { G::Group(Delimiter::Brace, b::<T>()) } fn val(&self) -> Val { Val::Group(Delimiter::Brace, bv(&**self)) } }
impl<P: HasG, T: HasG> HasG for Maybe<P, T> {
    fn g() -> G { G::Maybe(b::<P>(), b::<T>()) }
    fn val(&self) -> Val { Val::Maybe(self.as_parts().map(|p| Box::new((p.0.val(), p.1.val())))) }
}
pub fn pun_val<T: HasG, P: HasG>(n: &'static str, p: &syn::punctuated::Punctuated<T, P>) -> Val {
    let (mut v, mut q) = (vec![], vec![]);
    for x in p.pairs() { v.push(x.value().val()); if let Some(y) = x.punct() { q.push(y.val()); } }
    Val::List(n, v, q)
}
impl<T: HasG, P: HasG> HasG for Separated<T, P> { fn g() -> G { G::Sep(b::<T>(), b::<P>()) } fn val(&self) -> Val { pun_val("Separated", self) } }
impl<T: HasG, P: HasG> HasG for Punctuated<T, P> { fn g() -> G { G::Pun(b::<T>(), b::<P>()) } fn val(&self) -> Val { pun_val("Punctuated", self) } }
impl<T: HasG> HasG for Any<T> { fn g() -> G { G::Any(b::<T>()) } fn val(&self) -> Val { Val::Many(self.iter().map(|x| x.val()).collect()) } }
impl<O: HasG, R: HasG> HasG for LeftAssoc<O, R> {
    fn g() -> G { G::Left(b::<O>(), b::<R>()) }
    fn val(&self) -> Val { match self { LeftAssoc::Rhs(x) => Val::Operand(bv(x)), LeftAssoc::Binary { lhs, op, rhs } => Val::Left(bv(&**lhs), bv(op), bv(rhs)) } }
}
impl<O: HasG, L: HasG> HasG for RightAssoc<O, L> {
    fn g() -> G { G::Right(b::<O>(), b::<L>()) }
    fn val(&self) -> Val { match self { RightAssoc::Lhs(x) => Val::Operand(bv(x)), RightAssoc::Binary { lhs, op, rhs } => Val::Right(bv(lhs), bv(op), bv(&**rhs)) } }
}
impl<L: HasG, R: HasG> HasG for Either<L, R> {
    fn g() -> G { G::Either(b::<L>(), b::<R>()) }
    fn val(&self) -> Val { match self { Either::Left(x) => Val::Side(true, bv(x)), Either::Right(x) => Val::Side(false, bv(x)) } }
}
#[allow(unused)]
pub fn _use<T: Parse>() {}

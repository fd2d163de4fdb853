//! Grammar types on which the properties are tried, and how one of them is observed.
use crate::gram::*;
use crate::inputs::*;
use crate::rng::Rng;
use parsel::ast::*;
use parsel::proc_macro2::TokenStream;
use parsel::syn::parse::{Parse, ParseStream, Parser};
use parsel::syn::{self, Token};
use parsel::ToTokens;
use shapes::*;
use std::collections::BTreeSet;

pub type I = syn::LitInt;
pub type D = syn::Ident;
pub type C = Token![,];
pub type P = Token![+];
pub type S = Token![;];
pub type Q = Token![==];
pub type F = Token![fn];

// recursive grammars
#[derive(Clone, Debug, PartialEq, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
pub enum Json { Num(I), Obj(#[parsel(recursive)] Brace<Punctuated<Pair, C>>), Arr(#[parsel(recursive)] Bracket<Punctuated<Json, C>>), Name(D) }
#[derive(Clone, Debug, PartialEq, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
pub struct Pair { pub key: D, pub eq: Token![=], #[parsel(recursive)] pub value: Box<Json> }
#[derive(Clone, Debug, PartialEq, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
pub enum Expr { Sum(#[parsel(recursive)] Paren<Box<LeftAssoc<P, Expr>>>), Pow { op: Token![-], #[parsel(recursive)] of: Box<Expr> }, Num(I), Call { f: D, #[parsel(recursive)] args: Bracket<Punctuated<Expr, C>> } }
#[derive(Clone, Debug, PartialEq, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
pub struct Chain { pub head: I, #[parsel(recursive)] pub next: Maybe<Q, Box<Chain>> }
#[derive(Clone, Debug, PartialEq, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
pub enum List { Cons(I, C, #[parsel(recursive)] Box<List>), Last { value: I }, Nil }
#[derive(Clone, Debug, PartialEq, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
pub struct Wrap { pub body: Brace<Any<Item>>, pub end: Eof }
#[derive(Clone, Debug, PartialEq, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
pub enum Item { Let { name: D, eq: Token![=], value: I, semi: S }, Call(D, Paren<Punctuated<I, C>>, S), Block(#[parsel(recursive)] Brace<Any<Box<Item>>>), Str(syn::LitStr) }
fn n(c: &'static str, en: &'static str, f: Vec<(&'static str, G)>) -> G { G::Seq { en, ctor: c, fields: f } }
macro_rules! node { ($n:expr, $($f:literal: $v:expr),*) => { Val::Node($n.into(), vec![$(($f.to_string(), $v.val())),*]) } }
fn r<T: HasG>() -> G { G::Rec(T::g) }
impl HasG for Pair {
    fn g() -> G { n("Pair", "", vec![("key", D::g()), ("eq", <Token![=]>::g()), ("value", r::<Json>())]) }
    fn val(&self) -> Val { node!("Pair", "key": self.key, "eq": self.eq, "value": self.value) }
}
fn rp<A: HasG>(p: G) -> G { G::Pun(Box::new(r::<A>()), Box::new(p)) }
use parsel::proc_macro2::Delimiter as Dl;
impl HasG for Json {
    fn g() -> G { G::Choice(vec![n("Num", "Json", vec![("0", I::g())]), n("Obj", "Json", vec![("0", G::Group(Dl::Brace, Box::new(rp::<Pair>(C::g()))))]),
        n("Arr", "Json", vec![("0", G::Group(Dl::Bracket, Box::new(rp::<Json>(C::g()))))]), n("Name", "Json", vec![("0", D::g())])]) }
    fn val(&self) -> Val { match self { Json::Num(x) => node!("Json::Num", "0": x), Json::Obj(x) => node!("Json::Obj", "0": x), Json::Arr(x) => node!("Json::Arr", "0": x), Json::Name(x) => node!("Json::Name", "0": x) } }
}
impl HasG for Expr {
    fn g() -> G { G::Choice(vec![
        n("Sum", "Expr", vec![("0", G::Group(Dl::Parenthesis, Box::new(G::Left(Box::new(P::g()), Box::new(r::<Expr>())))))]),
        n("Pow", "Expr", vec![("op", <Token![-]>::g()), ("of", r::<Expr>())]), n("Num", "Expr", vec![("0", I::g())]),
        n("Call", "Expr", vec![("f", D::g()), ("args", G::Group(Dl::Bracket, Box::new(rp::<Expr>(C::g()))))])]) }
    fn val(&self) -> Val { match self { Expr::Sum(x) => node!("Expr::Sum", "0": x), Expr::Pow { op, of } => node!("Expr::Pow", "op": op, "of": of), Expr::Num(x) => node!("Expr::Num", "0": x), Expr::Call { f, args } => node!("Expr::Call", "f": f, "args": args) } }
}
impl HasG for Chain {
    fn g() -> G { n("Chain", "", vec![("head", I::g()), ("next", G::Maybe(Box::new(Q::g()), Box::new(r::<Chain>())))]) }
    fn val(&self) -> Val { node!("Chain", "head": self.head, "next": self.next) }
}
impl HasG for List {
    fn g() -> G { G::Choice(vec![n("Cons", "List", vec![("0", I::g()), ("1", C::g()), ("2", r::<List>())]), n("Last", "List", vec![("value", I::g())]), n("Nil", "List", vec![])]) }
    fn val(&self) -> Val { match self { List::Cons(a, b, c) => node!("List::Cons", "0": a, "1": b, "2": c), List::Last { value } => node!("List::Last", "value": value), List::Nil => Val::Node("List::Nil".into(), vec![]) } }
}
impl HasG for Wrap {
    fn g() -> G { n("Wrap", "", vec![("body", G::Group(Dl::Brace, Box::new(G::Any(Box::new(Item::g()))))), ("end", G::Eof)]) }
    fn val(&self) -> Val { node!("Wrap", "body": self.body, "end": self.end) }
}
impl HasG for Item {
    fn g() -> G { G::Choice(vec![n("Let", "Item", vec![("name", D::g()), ("eq", <Token![=]>::g()), ("value", I::g()), ("semi", S::g())]),
        n("Call", "Item", vec![("0", D::g()), ("1", <Paren<Punctuated<I, C>>>::g()), ("2", S::g())]),
        n("Block", "Item", vec![("0", G::Group(Dl::Brace, Box::new(G::Any(Box::new(r::<Item>())))))]), n("Str", "Item", vec![("0", syn::LitStr::g())])]) }
    fn val(&self) -> Val { match self { Item::Let { name, eq, value, semi } => node!("Item::Let", "name": name, "eq": eq, "value": value, "semi": semi), Item::Call(a, b, c) => node!("Item::Call", "0": a, "1": b, "2": c), Item::Block(a) => node!("Item::Block", "0": a), Item::Str(a) => node!("Item::Str", "0": a) } }
}

/// what happened when the real library parsed something
#[derive(Clone, Debug)]
pub struct Obs { pub res: Result<Val, (Pos, Pos, String)>, pub rest: Vec<Tok>, pub all: bool, pub printed: Option<Vec<Tok>>, pub appended: bool, pub again: Option<Result<Val, String>> }
/// what the properties say
#[derive(Clone, Debug)]
pub struct Exp { pub res: Result<Val, Vec<E>>, pub rest: Vec<Tok>, pub all: bool }

pub fn observe<T: HasG + Parse + ToTokens>(ts: TokenStream) -> Obs {
    let mut got = None;
    let out = (|input: ParseStream<'_>| {
        let r = T::parse(input);
        let rest = toks(input.cursor().token_stream());
        let _: TokenStream = input.parse()?;
        let ok = r.is_ok();
        got = Some((r, rest));
        if ok { Ok(()) } else { Err(input.error("failed")) }
    }).parse2(ts);
    let (r, rest) = got.unwrap();
    let (mut printed, mut appended, mut again) = (None, true, None);
    if let Ok(v) = &r {
        // the stream already holds something
        let before: TokenStream = "a , ( 1 )".parse().unwrap();
        let mut s = before.clone();
        v.to_tokens(&mut s);
        let (x, y) = (toks(before), toks(s.clone()));
        appended = y.len() >= x.len() && y[..x.len()] == x[..];
        printed = Some(y[x.len().min(y.len())..].to_vec());
        let mut own = TokenStream::new();
        v.to_tokens(&mut own);
        if out.is_ok() { again = Some(syn::parse2::<T>(own).map(|w| w.val()).map_err(|e| e.to_string())); }
    }
    Obs { all: out.is_ok(), res: r.map(|v| v.val()).map_err(|e| { let (a, b) = pos(e.span()); (a, b, e.to_string()) }), rest, printed, appended, again }
}
pub fn expect(g: &G, ts: TokenStream) -> Exp {
    let mut got = None;
    let out = (|input: ParseStream<'_>| {
        let r = g.run(input);
        let rest = toks(input.cursor().token_stream());
        let _: TokenStream = input.parse()?;
        let ok = r.is_ok();
        got = Some((r, rest));
        if ok { Ok(()) } else { Err(input.error("failed")) }
    }).parse2(ts);
    let (res, rest) = got.unwrap();
    Exp { res, rest, all: out.is_ok() }
}
#[derive(Clone)]
pub struct Ty {
    pub name: &'static str,
    pub tags: &'static str,
    /// gets one n-th of the inputs
    pub share: usize,
    pub g: fn() -> G,
    pub observe: fn(TokenStream) -> Obs,
    /// from_str and Display against the token parser and the formatter (observed, wanted)
    pub text: Option<fn(&str) -> (String, String)>,
}
macro_rules! fs { (no $t:ty) => { None }; (yes $t:ty) => { Some(|s: &str| crate::fromstr::text::<$t>(s, |v| format!("{:?}", v.val()))) } }
macro_rules! tys { ($($tag:literal $y:ident: $($t:ty),* ;)*) => { vec![$($(Ty { name: stringify!($t), tags: $tag, share: 1, g: <$t as HasG>::g, observe: observe::<$t>, text: fs!($y $t) }),*),*] } }
pub fn types() -> Vec<Ty> {
    #[allow(unused_mut)]
    let mut v = tys! {
        // derived sequences
        "C01 C04 C05" yes: SN0, SN1<I>, SN2<I, D>, SN3<I, D, C>, SN5<I, D, C, P, I>, SN8<I, D, I, D, I, D, I, D>, SN12<I, D, C, I, P, D, I, I, D, D, S, I>,
            ST0, ST1<D>, ST2<I, D>, ST3<D, C, D>, ST5<I, I, I, I, D>, ST8<I, D, C, I, D, C, I, D>, ST12<D, I, D, I, D, I, D, I, D, I, D, I>, SU,
            SK<I, D, I, D, I, D, I, D, I, D, I, D>, SRaw<I, D, C>, SRev<I, D, C, P>, SPerm<I, D, C, P>, SRep<I, D>, STRep<I, D>, SAttr<I, D>, SRecAttr<I, D>, STRecAttr<I, D>, SConst<I, D, 3>, SNames<I, D, C, I, D, I, D, C, I>, STNames<I, D, C, P, I, D, I, C, D>, SOdd<I, D, C>;
        "C01 C05" yes: SN2<SN2<I, D>, ST2<I, D>>, SN3<Maybe<C, I>, Any<D>, I>, ST3<Paren<I>, Bracket<SN2<D, I>>, Brace<Empty>>, SN2<Any<I>, Any<D>>, ST2<E2<I, D>, E2Prefix<I, C, D>>, SN3<Empty, I, Eof>, ST2<NotEof, D>, SN2<Separated<I, C>, LeftAssoc<P, D>>, Chain, Pair, SComp<C, I, D>, STComp<I, C, D>, EComp<I, C, D>, SDeep<C, I, D>, SWhere<I, D>, STWhere<I, D>, SDefault<I>;
        "C04" yes: SN2<SN2<I, D>, ST2<I, D>>, ST2<Paren<SN2<I, D>>, I>, SN2<ST2<SN1<I>, D>, I>, Chain, E1T<I>, E1N<I, D>, SN2<I, E1N<D, I>>, E1T<SN2<I, D>>, Pair, E2<I, SN2<D, C>>, EFunny<I, D, C>, ERaw<I, D>, E4<I, D, C, P>;
        // derived choices
        "C02 C03 C05" yes: E0, E1U, E1T<I>, E1N<I, D>, E2<I, D>, E2Prefix<I, C, D>, E2Rev<I, C, D>, E2Same<I>, E3<I, D, C>, E3Mid<I, D, C>, E4<I, D, C, P>, E5<I, D, C, P, S>, E8<I, D, C, P, S, Q, F, syn::LitStr>, E8Len<I>, EFunny<I, D, C>, ERaw<I, D>, EEmptyV<I, D>, ENames<I, D, C, I, D, I, C, D, I>, EVariants<I, D, C, P, S, Q, F, syn::LitStr>, EWide<I, D, I, C, D, I, P, D, I, D, I, D>, EComp<I, C, D>;
        "C02 C03 C05" yes: EWhere<I, D>, EDefault<I>, ENested<C, I, D>, EUnits<I, D>, ENamesake<I, D>;
        "C02 C03 C05" yes: E2<ST2<I, D>, ST2<I, C>>, E2<ST3<I, D, I>, E2<ST2<I, D>, I>>, E3<SN2<I, D>, D, Any<C>>, E2<Separated<I, C>, Any<D>>, E2<Paren<I>, Bracket<D>>, E2<Maybe<C, I>, D>, E4<E2<I, D>, C, P, D>, ST2<E2Prefix<I, C, D>, D>, E2<E2<ST2<I, D>, ST3<I, C, C>>, E2<ST2<I, P>, D>>,
            Any<E2Prefix<I, C, D>>, Separated<E2Rev<I, P, D>, C>, Json, Expr, List, Item, E2<LeftAssoc<P, I>, RightAssoc<C, D>>, E2<Paren<ST2<I, D>>, Paren<I>>, E2<Either<I, ST2<D, I>>, ST2<D, C>>, Brace<E2<ST2<I, D>, I>>;
        "C03" no: E2<D, Fat>, E2<Fat, D>, E3<D, Fat, ST3<I, I, D>>, Either<D, Fat>, Either<Fat, D>, Either<Fat, ST2<I, D>>, E2<Either<D, Fat>, ST2<D, Fat>>, SN2<I, E2<C, Fat>>;
        "C03" yes: Either<I, D>, Either<ST2<I, D>, ST2<I, C>>, Either<ST3<I, I, I>, Either<ST2<I, I>, D>>, Either<Paren<ST2<I, D>>, ST2<Paren<I>, D>>, SN2<I, Either<ST2<D, I>, ST2<D, D>>>, E2<Either<ST2<I, C>, I>, ST3<I, I, D>>, Paren<Either<ST2<I, D>, D>>, Separated<E2<ST2<I, D>, D>, C>, Punctuated<E2<ST2<I, D>, D>, C>, Maybe<C, E2<ST2<I, D>, D>>, LeftAssoc<P, E2<ST2<I, D>, D>>, RightAssoc<P, E2<ST2<I, D>, D>>;
        "C06" yes: Maybe<C, I>, Maybe<Q, D>, Maybe<I, D>, Maybe<ST2<I, C>, D>, Maybe<C, ST2<I, D>>, Maybe<Paren<I>, D>, Maybe<C, Paren<I>>, Maybe<C, Maybe<P, I>>, Maybe<Maybe<C, P>, I>, Maybe<E2Prefix<I, C, D>, P>, Maybe<C, Any<I>>, ST2<Maybe<C, I>, Maybe<P, D>>, ST2<Maybe<ST2<I, I>, D>, I>, Paren<Maybe<C, I>>, Maybe<F, Brace<Any<I>>>, Maybe<Separated<I, C>, D>, Maybe<C, Empty>, Maybe<NotEof, I>, Maybe<Any<I>, D>, Maybe<C, NotEof>;
        "C07" yes: Paren<I>, Bracket<I>, Brace<I>, Paren<Empty>, Bracket<Empty>, Brace<Empty>, Paren<Paren<I>>, Bracket<Brace<D>>, Brace<Paren<Bracket<I>>>, Paren<Any<I>>, Bracket<Separated<I, C>>, Brace<Punctuated<D, C>>, Paren<Maybe<C, I>>, Bracket<Eof>, Brace<NotEof>, Paren<NotEof>, ST2<Paren<I>, D>, ST2<Brace<Any<I>>, Bracket<D>>, Any<Paren<I>>, Any<Bracket<Any<D>>>, Maybe<Paren<I>, Brace<D>>, Paren<ST2<I, D>>, Brace<E2<I, D>>, Bracket<LeftAssoc<P, I>>, Paren<Many<I>>, Separated<Paren<I>, C>, Json, Expr, Wrap;
        "C08" yes: Separated<I, C>, Separated<D, P>, Separated<ST2<I, D>, C>, Separated<Paren<I>, S>, Separated<I, ST2<C, P>>, Separated<Any<I>, C>, Separated<I, Empty>, Separated<E2<I, D>, E2<C, P>>, Separated<Separated<I, P>, C>, ST2<Separated<I, C>, D>, Maybe<C, Separated<I, C>>, Separated<Maybe<P, I>, C>, Separated<I, Maybe<C, P>>, Any<ST2<Separated<I, C>, S>>, Paren<Separated<I, C>>, Separated<I, Q>,
            Punctuated<I, C>, Punctuated<D, P>, Punctuated<ST2<I, D>, C>, Punctuated<Paren<I>, S>, Punctuated<E2<I, D>, ST2<C, P>>, Paren<Punctuated<I, C>>, Brace<Punctuated<ST2<D, I>, S>>, ST2<I, Punctuated<D, C>>, Punctuated<Bracket<Punctuated<I, C>>, C>, Punctuated<Separated<I, P>, C>, Punctuated<Maybe<P, I>, C>, Punctuated<I, Maybe<C, P>>,
            Many<I>, Many<D>, Many<ST2<I, D>>, Many<E2<I, D>>, Many<Paren<Many<I>>>, Bracket<Many<D>>, ST2<D, Many<I>>;
        "C10" yes: Separated<I, C>, Separated<ST2<I, D>, P>;
        "C11" yes: LeftAssoc<P, I>, RightAssoc<P, I>, LeftAssoc<C, D>, RightAssoc<C, D>, LeftAssoc<E2<P, C>, I>, RightAssoc<E2<P, C>, I>, LeftAssoc<P, ST2<I, D>>, RightAssoc<P, ST2<I, D>>, LeftAssoc<P, Paren<I>>, RightAssoc<P, Paren<I>>, LeftAssoc<C, LeftAssoc<P, I>>, RightAssoc<C, RightAssoc<P, I>>, LeftAssoc<C, RightAssoc<P, I>>, LeftAssoc<P, E2<I, D>>, RightAssoc<P, E2<I, D>>, ST2<LeftAssoc<P, I>, D>, ST2<RightAssoc<P, I>, D>, Paren<LeftAssoc<P, I>>, Bracket<RightAssoc<P, I>>, LeftAssoc<Empty, I>, RightAssoc<Empty, I>, LeftAssoc<ST2<C, P>, I>, RightAssoc<ST2<C, P>, I>, LeftAssoc<P, Maybe<C, I>>, RightAssoc<P, Maybe<C, I>>, LeftAssoc<P, Separated<I, C>>, Expr;
        "C12" yes: Any<I>, Any<D>, Any<ST2<I, D>>, Any<SN3<I, C, D>>, Any<Paren<I>>, Any<E2Prefix<I, C, D>>, Any<E2Rev<I, C, D>>, Any<Separated<I, C>>, ST2<Any<I>, D>, ST2<Any<ST2<I, D>>, I>, Paren<Any<I>>, Brace<Any<ST2<D, S>>>, Any<Brace<Any<I>>>, Any<ST2<Any<I>, S>>, Maybe<Any<I>, D>, Any<LeftAssoc<P, I>>, Any<Either<I, ST2<D, C>>>, ST2<Any<Paren<ST2<I, D>>>, Paren<I>>, Any<ST2<C, Maybe<P, I>>>, Wrap;
        "C17" yes: Empty, Eof, NotEof, Paren<Empty>, Paren<Eof>, Paren<NotEof>, ST2<I, Eof>, ST2<I, NotEof>, ST2<Empty, I>, Brace<ST2<Any<I>, Eof>>, Any<ST2<NotEof, I>>, Maybe<NotEof, I>, Maybe<Eof, Empty>, E2<Eof, I>, E2<ST2<I, Eof>, ST2<I, NotEof>>, E2<NotEof, Empty>, Either<Eof, I>, ST3<Empty, Empty, Eof>, Paren<Bracket<Eof>>, ST2<Paren<Empty>, Eof>;
        "C21" no: Either<I, D>, Either<I, I>, Either<ST2<I, D>, I>, Either<I, ST2<I, D>>, Either<ST2<I, D>, ST2<I, C>>, Either<Paren<I>, Paren<D>>, Either<Any<I>, D>, Either<Either<I, D>, C>, Either<I, Either<D, C>>, ST2<Either<I, ST2<D, D>>, D>, Any<Either<I, D>>, Separated<Either<I, D>, C>, Either<Maybe<C, I>, D>, Either<Empty, I>, Either<ST3<I, D, I>, E2<ST2<I, D>, D>>, Paren<Either<ST2<I, I>, I>>;
    };
    let mut more = crate::lib_types::lib_types!(tys);
    for t in &mut more { t.share = 4; }
    v.extend(more);
    #[cfg(feature = "bulk")]
    {
        use crate::bulk::*;
        let mut more = bulk_types!(tys);
        for t in &mut more { t.share = 8; }
        v.extend(more);
    }
    v
}
pub fn words(g: &G) -> (Vec<&'static str>, Vec<u8>) {
    let (mut l, mut d) = (BTreeSet::new(), BTreeSet::new());
    vocab(g, &mut l, &mut d, 0);
    (l.into_iter().collect(), d.into_iter().collect())
}
/// the texts on which a type is tried
pub fn texts(t: &Ty, rng: &mut Rng, budget: usize) -> Vec<String> {
    let g = (t.g)();
    let (mut l, d) = words(&g);
    let foreign = ["';'", "'fn'", "'?'"].into_iter().find(|x| !l.contains(x)).unwrap();
    let inside = l.clone();
    l.push(foreign);
    if l.len() < 3 { l.push("ident"); l.dedup(); }
    let ds: Vec<u8> = if d.is_empty() { vec![0] } else { let mut d = d; let o = (d[0] + 1) % 3; if !d.contains(&o) { d.push(o); } d };
    let ds: Vec<u8> = if t.tags == "C17" { vec![2, 1, 0] } else { ds };
    let mut ws = all(&l, &ds, 4, if t.tags == "C17" { 1 } else { 2 }, budget / 2);
    let n = budget - ws.len().min(budget);
    for i in 0..n.max(budget / 3) {
        let mut s = vec![];
        let mut z = match i % 16 { _ if i == 40 || i == 66 => Size::very_long(), _ if i == 55 || i == 72 => Size::very_deep(), 3 | 6 => Size::long(rng), 9 | 12 => Size::deep(rng), _ => Size::small() };
        sentence(&g, rng, 0, &mut z, &mut s);
        if s.len() > z.most * 3 / 2 { continue; }
        match i % 5 {
            0 => {}
            1 => { let mut more = vec![]; sentence(&g, rng, 3, &mut Size::small(), &mut more); s.extend(more); if s.len() > z.most * 3 / 2 { continue; } }
            2 => damage(&mut s, &inside, &[0, 1, 2], rng),
            _ => damage(&mut s, &inside, &ds, rng),
        }
        // a group without delimiters around a few tokens or around nothing
        if i % 11 == 10 {
            for _ in 0..1 + rng.below(2) {
                let a = rng.below(s.len() + 1);
                let mut b = a;
                while b < s.len() && matches!(s[b], W::T(_)) && rng.chance(1, 2) { b += 1; }
                s.insert(b, W::Close(3)); s.insert(a, W::Open(3));
            }
        }
        ws.push(s);
    }
    let mut seen = BTreeSet::new();
    ws.retain(|w| seen.insert(w.clone()));
    ws.iter().map(|w| { let lines = rng.chance(1, 2); text(w, rng, lines) }).collect()
}

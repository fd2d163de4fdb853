//! Generated by tools/gen_bulk.py: types of random form using the derives.
#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, uncommon_codepoints, confusable_idents, mixed_script_confusables)]

pub mod b0 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Q_ {  pub empty: Separated<E2<I, D>, C> }
    impl HasG for Q_ {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Q_", fields: vec![("empty", <Separated<E2<I, D>, C> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Q_".into(), vec![("empty".into(), self.empty.val())]) }
    }
}
pub mod b1 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Abc { #[allow(dead_code)] Paren {  bindings: S,  r#final: F },  Result2(/// d
 #[parsel(recursive)] /// e
 F, #[cfg(all())] syn::LitStr, #[parsel(recursive = true)] C,  syn::LitStr,  P, #[doc(hidden)] I, #[parsel(recursive = true)] F),  B( Q),  Err(#[parsel(recursive = true)] D,  Q, #[cfg(all())] Either<D, syn::LitStr>),  Self_(/// documented
 P, /// d
 #[parsel(recursive)] /// e
 F,  D,  D, #[doc(hidden)] S,  P, #[parsel(recursive)] I),  Variant { #[allow(dead_code, unused)] x1: I,  f: C } }
    impl HasG for Abc {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Abc", ctor: "Paren", fields: vec![("bindings", <S as HasG>::g()), ("r#final", <F as HasG>::g())] }, Gm::Seq { en: "Abc", ctor: "Result2", fields: vec![("0", <F as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <C as HasG>::g()), ("3", <syn::LitStr as HasG>::g()), ("4", <P as HasG>::g()), ("5", <I as HasG>::g()), ("6", <F as HasG>::g())] }, Gm::Seq { en: "Abc", ctor: "B", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Abc", ctor: "Err", fields: vec![("0", <D as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <Either<D, syn::LitStr> as HasG>::g())] }, Gm::Seq { en: "Abc", ctor: "Self_", fields: vec![("0", <P as HasG>::g()), ("1", <F as HasG>::g()), ("2", <D as HasG>::g()), ("3", <D as HasG>::g()), ("4", <S as HasG>::g()), ("5", <P as HasG>::g()), ("6", <I as HasG>::g())] }, Gm::Seq { en: "Abc", ctor: "Variant", fields: vec![("x1", <I as HasG>::g()), ("f", <C as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Abc::Paren { bindings: x_0, r#final: x_1 } => Val::Node("Abc::Paren".into(), vec![("bindings".into(), x_0.val()), ("r#final".into(), x_1.val())]), Abc::Result2 (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Abc::Result2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Abc::B (x_0) => Val::Node("Abc::B".into(), vec![("0".into(), x_0.val())]), Abc::Err (x_0, x_1, x_2) => Val::Node("Abc::Err".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Abc::Self_ (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Abc::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Abc::Variant { x1: x_0, f: x_1 } => Val::Node("Abc::Variant".into(), vec![("x1".into(), x_0.val()), ("f".into(), x_1.val())]) } }
    }
}
pub mod b2 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Node {  pub op: syn::LitStr, #[parsel(recursive = false)] SHOUT: P,  pub(super) prefix: syn::LitStr,  pub(super) tokens: S,  pub syn: P,  pub default: syn::LitStr, #[cfg(all())] pub(super) err: C, #[cfg(all())] pub(super) r#final: F,  pub(super) cursor: D,  pub(crate) cause: D, #[doc(hidden)] pub quote: Q, #[doc(hidden)] pub to_tokens: C, #[parsel(recursive = true)] pub eof: I, #[parsel(recursive = true)] pub(crate) r#ref: F,  pub len: F, #[parsel(recursive)] pub stream: Paren<F>,  pub(crate) rhs: F,  pub(super) r#fn: F,  pub Upper: D, #[parsel(recursive)] pub r#if: I, #[doc(hidden)] pub(super) res: D,  pub parsel_field_X_0: C, #[doc(hidden)] r#dyn: F,  pub(crate) empty: P,  pub(super) peek: F, #[parsel(recursive = true)] pub ctor_name: I,  first: I, /// documented
 pub(crate) ok: D,  pub t: D,  span: syn::LitStr, #[doc(hidden)] pub item: I, /// d
 #[parsel(recursive)] /// e
 pub r#for: D,  pub(super) größe: P }
    impl HasG for Node {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Node", fields: vec![("op", <syn::LitStr as HasG>::g()), ("SHOUT", <P as HasG>::g()), ("prefix", <syn::LitStr as HasG>::g()), ("tokens", <S as HasG>::g()), ("syn", <P as HasG>::g()), ("default", <syn::LitStr as HasG>::g()), ("err", <C as HasG>::g()), ("r#final", <F as HasG>::g()), ("cursor", <D as HasG>::g()), ("cause", <D as HasG>::g()), ("quote", <Q as HasG>::g()), ("to_tokens", <C as HasG>::g()), ("eof", <I as HasG>::g()), ("r#ref", <F as HasG>::g()), ("len", <F as HasG>::g()), ("stream", <Paren<F> as HasG>::g()), ("rhs", <F as HasG>::g()), ("r#fn", <F as HasG>::g()), ("Upper", <D as HasG>::g()), ("r#if", <I as HasG>::g()), ("res", <D as HasG>::g()), ("parsel_field_X_0", <C as HasG>::g()), ("r#dyn", <F as HasG>::g()), ("empty", <P as HasG>::g()), ("peek", <F as HasG>::g()), ("ctor_name", <I as HasG>::g()), ("first", <I as HasG>::g()), ("ok", <D as HasG>::g()), ("t", <D as HasG>::g()), ("span", <syn::LitStr as HasG>::g()), ("item", <I as HasG>::g()), ("r#for", <D as HasG>::g()), ("größe", <P as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Node".into(), vec![("op".into(), self.op.val()), ("SHOUT".into(), self.SHOUT.val()), ("prefix".into(), self.prefix.val()), ("tokens".into(), self.tokens.val()), ("syn".into(), self.syn.val()), ("default".into(), self.default.val()), ("err".into(), self.err.val()), ("r#final".into(), self.r#final.val()), ("cursor".into(), self.cursor.val()), ("cause".into(), self.cause.val()), ("quote".into(), self.quote.val()), ("to_tokens".into(), self.to_tokens.val()), ("eof".into(), self.eof.val()), ("r#ref".into(), self.r#ref.val()), ("len".into(), self.len.val()), ("stream".into(), self.stream.val()), ("rhs".into(), self.rhs.val()), ("r#fn".into(), self.r#fn.val()), ("Upper".into(), self.Upper.val()), ("r#if".into(), self.r#if.val()), ("res".into(), self.res.val()), ("parsel_field_X_0".into(), self.parsel_field_X_0.val()), ("r#dyn".into(), self.r#dyn.val()), ("empty".into(), self.empty.val()), ("peek".into(), self.peek.val()), ("ctor_name".into(), self.ctor_name.val()), ("first".into(), self.first.val()), ("ok".into(), self.ok.val()), ("t".into(), self.t.val()), ("span".into(), self.span.val()), ("item".into(), self.item.val()), ("r#for".into(), self.r#for.val()), ("größe".into(), self.größe.val())]) }
    }
}
pub mod b3 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Choice {  Input(),  X_0( F, #[parsel(recursive = false)] LeftAssoc<P, ST2<I, D>>) }
    impl HasG for Choice {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Choice", ctor: "Input", fields: vec![] }, Gm::Seq { en: "Choice", ctor: "X_0", fields: vec![("0", <F as HasG>::g()), ("1", <LeftAssoc<P, ST2<I, D>> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Choice::Input () => Val::Node("Choice::Input".into(), vec![]), Choice::X_0 (x_0, x_1) => Val::Node("Choice::X_0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]) } }
    }
}
pub mod b4 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Lower_case {  pub(crate) r#where: D,  pub(crate) parsel_tokens: C, #[allow(dead_code)] #[parsel(recursive)] pub formatter: S, #[doc(hidden)] pub(super) empty: I, #[parsel(recursive = true)] pub tt: C,  pub r#struct: P, /// documented
 pub(crate) bounds: syn::LitStr, #[parsel(recursive = false)] eof: I, /// d
 #[parsel(recursive)] /// e
 pub i: D,  pub(crate) head: I, #[allow(dead_code)] #[parsel(recursive)] pub(crate) e1: D, #[parsel(recursive = true)] pub(super) out: F, #[allow(dead_code, unused)] pub(crate) ctor: F, #[parsel(recursive)] pub ok: P,  pub(crate) this: F,  pub(crate) parse: C,  pub n: D, /// documented
 pub(super) left: Q,  r#final: P,  parser: Q,  r#loop: P,  start: S, #[parsel(recursive)] pub(super) enum_name: I, #[doc(hidden)] field_name: P, /// d
 #[parsel(recursive)] /// e
 pub(super) k: S, #[allow(dead_code)] #[parsel(recursive)] len: D,  r#fn: Any<I>, /// documented
 pub t: syn::LitStr, /// d
 #[parsel(recursive)] /// e
 pub name: F, #[parsel(recursive)] pub(super) s: Separated<D, C>,  value: I, #[parsel(recursive = true)] pub(super) alloc: S }
    impl HasG for Lower_case {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Lower_case", fields: vec![("r#where", <D as HasG>::g()), ("parsel_tokens", <C as HasG>::g()), ("formatter", <S as HasG>::g()), ("empty", <I as HasG>::g()), ("tt", <C as HasG>::g()), ("r#struct", <P as HasG>::g()), ("bounds", <syn::LitStr as HasG>::g()), ("eof", <I as HasG>::g()), ("i", <D as HasG>::g()), ("head", <I as HasG>::g()), ("e1", <D as HasG>::g()), ("out", <F as HasG>::g()), ("ctor", <F as HasG>::g()), ("ok", <P as HasG>::g()), ("this", <F as HasG>::g()), ("parse", <C as HasG>::g()), ("n", <D as HasG>::g()), ("left", <Q as HasG>::g()), ("r#final", <P as HasG>::g()), ("parser", <Q as HasG>::g()), ("r#loop", <P as HasG>::g()), ("start", <S as HasG>::g()), ("enum_name", <I as HasG>::g()), ("field_name", <P as HasG>::g()), ("k", <S as HasG>::g()), ("len", <D as HasG>::g()), ("r#fn", <Any<I> as HasG>::g()), ("t", <syn::LitStr as HasG>::g()), ("name", <F as HasG>::g()), ("s", <Separated<D, C> as HasG>::g()), ("value", <I as HasG>::g()), ("alloc", <S as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Lower_case".into(), vec![("r#where".into(), self.r#where.val()), ("parsel_tokens".into(), self.parsel_tokens.val()), ("formatter".into(), self.formatter.val()), ("empty".into(), self.empty.val()), ("tt".into(), self.tt.val()), ("r#struct".into(), self.r#struct.val()), ("bounds".into(), self.bounds.val()), ("eof".into(), self.eof.val()), ("i".into(), self.i.val()), ("head".into(), self.head.val()), ("e1".into(), self.e1.val()), ("out".into(), self.out.val()), ("ctor".into(), self.ctor.val()), ("ok".into(), self.ok.val()), ("this".into(), self.this.val()), ("parse".into(), self.parse.val()), ("n".into(), self.n.val()), ("left".into(), self.left.val()), ("r#final".into(), self.r#final.val()), ("parser".into(), self.parser.val()), ("r#loop".into(), self.r#loop.val()), ("start".into(), self.start.val()), ("enum_name".into(), self.enum_name.val()), ("field_name".into(), self.field_name.val()), ("k".into(), self.k.val()), ("len".into(), self.len.val()), ("r#fn".into(), self.r#fn.val()), ("t".into(), self.t.val()), ("name".into(), self.name.val()), ("s".into(), self.s.val()), ("value".into(), self.value.val()), ("alloc".into(), self.alloc.val())]) }
    }
}
pub mod b5 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum T { /// documented
 under_score {  first: Q,  field_name: S,  eof: C,  variant: C, /// d
 #[parsel(recursive)] /// e
 key: I,  error: syn::LitStr, #[parsel(recursive = true)] r#box: C, #[parsel(recursive = true)] tmp: S,  parsel_field_0: I,  default: I, /// d
 #[parsel(recursive)] /// e
 fmt: Q,  val: D, #[cfg(all())] vx: Q,  left: syn::LitStr,  sep: S, #[parsel(recursive)] r#where: C },  B( D, /// documented
 C, #[parsel(recursive)] syn::LitStr, /// documented
 S,  I,  Q, #[cfg(all())] Q),  String2 { #[allow(dead_code, unused)] r#where: F, #[parsel(recursive = true)] rhs: Q,  std: D, #[cfg(all())] r#move: P, }, /// documented
 Tuple( S),  Result2,  Enum( P),  Right(#[cfg(all())] syn::LitStr,  D),  Stmt, /// documented
 Y {  ok: P }, #[cfg(all())] Été {  cause: P,  opt: Q, #[parsel(recursive)] next: Box<Box<Q>>,  parsel_field_X_0: F,  data: C, /// d
 #[parsel(recursive)] /// e
 kw: Q,  parsel_input: I,  r#loop: P, },  Eof { #[cfg(all())] formatter: S,  len: P,  ty: F, #[parsel(recursive = true)] res: I,  y: D, #[parsel(recursive = true)] fmt: F, #[allow(dead_code, unused)] val: Q,  start: Q,  message: I, #[parsel(recursive = true)] body: Any<I>,  größe: I,  body2: S, /// documented
 rest: I,  rhs: C,  r#in: F, /// documented
 tt: S, /// d
 #[parsel(recursive)] /// e
 next: D,  r#ref: P, #[parsel(recursive)] __self: D, #[parsel(recursive)] o: I,  cursor: I, #[parsel(recursive = true)] ok: S, #[doc(hidden)] r#box: Q, #[parsel(recursive = true)] x: I,  field_name: I, #[cfg(all())] buf: D,  data: F,  parsel_field_X_0: F,  r#match: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] last: D,  value: D,  suffix: I,  first: syn::LitStr }, #[allow(dead_code)] Type {  y: C, },  lower { /// documented
 r#move: D, },  Vec2( I),  Any { #[cfg(all())] err: C,  fork: P },  Many( D),  A { /// d
 #[parsel(recursive)] /// e
 r#impl: P },  Recursive(#[allow(dead_code, unused)] I,  I), #[allow(dead_code)] Group( I,  P,  Q,  F, #[parsel(recursive)] C,  D, #[cfg(all())] I, /// d
 #[parsel(recursive)] /// e
 I,  LeftAssoc<P, ST2<I, D>>), #[allow(dead_code)] Unit(#[parsel(recursive)] P), #[doc(hidden)] Value( I,  I), #[cfg(all())] T(#[parsel(recursive = true)] b2::Node), #[allow(dead_code)] Parse_(/// d
 #[parsel(recursive)] /// e
 C),  X(#[parsel(recursive)] S),  Literal( syn::LitStr,  S,  syn::LitStr,  P, #[allow(dead_code, unused)] syn::LitStr, #[allow(dead_code, unused)] D,  syn::LitStr, #[allow(dead_code, unused)] C, /// d
 #[parsel(recursive)] /// e
 F,  S,  P,  RightAssoc<P, ST2<I, D>>,  F) }
    impl HasG for T {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "T", ctor: "under_score", fields: vec![("first", <Q as HasG>::g()), ("field_name", <S as HasG>::g()), ("eof", <C as HasG>::g()), ("variant", <C as HasG>::g()), ("key", <I as HasG>::g()), ("error", <syn::LitStr as HasG>::g()), ("r#box", <C as HasG>::g()), ("tmp", <S as HasG>::g()), ("parsel_field_0", <I as HasG>::g()), ("default", <I as HasG>::g()), ("fmt", <Q as HasG>::g()), ("val", <D as HasG>::g()), ("vx", <Q as HasG>::g()), ("left", <syn::LitStr as HasG>::g()), ("sep", <S as HasG>::g()), ("r#where", <C as HasG>::g())] }, Gm::Seq { en: "T", ctor: "B", fields: vec![("0", <D as HasG>::g()), ("1", <C as HasG>::g()), ("2", <syn::LitStr as HasG>::g()), ("3", <S as HasG>::g()), ("4", <I as HasG>::g()), ("5", <Q as HasG>::g()), ("6", <Q as HasG>::g())] }, Gm::Seq { en: "T", ctor: "String2", fields: vec![("r#where", <F as HasG>::g()), ("rhs", <Q as HasG>::g()), ("std", <D as HasG>::g()), ("r#move", <P as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Tuple", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Result2", fields: vec![] }, Gm::Seq { en: "T", ctor: "Enum", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Right", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Stmt", fields: vec![] }, Gm::Seq { en: "T", ctor: "Y", fields: vec![("ok", <P as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Été", fields: vec![("cause", <P as HasG>::g()), ("opt", <Q as HasG>::g()), ("next", <Box<Box<Q>> as HasG>::g()), ("parsel_field_X_0", <F as HasG>::g()), ("data", <C as HasG>::g()), ("kw", <Q as HasG>::g()), ("parsel_input", <I as HasG>::g()), ("r#loop", <P as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Eof", fields: vec![("formatter", <S as HasG>::g()), ("len", <P as HasG>::g()), ("ty", <F as HasG>::g()), ("res", <I as HasG>::g()), ("y", <D as HasG>::g()), ("fmt", <F as HasG>::g()), ("val", <Q as HasG>::g()), ("start", <Q as HasG>::g()), ("message", <I as HasG>::g()), ("body", <Any<I> as HasG>::g()), ("größe", <I as HasG>::g()), ("body2", <S as HasG>::g()), ("rest", <I as HasG>::g()), ("rhs", <C as HasG>::g()), ("r#in", <F as HasG>::g()), ("tt", <S as HasG>::g()), ("next", <D as HasG>::g()), ("r#ref", <P as HasG>::g()), ("__self", <D as HasG>::g()), ("o", <I as HasG>::g()), ("cursor", <I as HasG>::g()), ("ok", <S as HasG>::g()), ("r#box", <Q as HasG>::g()), ("x", <I as HasG>::g()), ("field_name", <I as HasG>::g()), ("buf", <D as HasG>::g()), ("data", <F as HasG>::g()), ("parsel_field_X_0", <F as HasG>::g()), ("r#match", <syn::LitStr as HasG>::g()), ("last", <D as HasG>::g()), ("value", <D as HasG>::g()), ("suffix", <I as HasG>::g()), ("first", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Type", fields: vec![("y", <C as HasG>::g())] }, Gm::Seq { en: "T", ctor: "lower", fields: vec![("r#move", <D as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Vec2", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Any", fields: vec![("err", <C as HasG>::g()), ("fork", <P as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Many", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "T", ctor: "A", fields: vec![("r#impl", <P as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Recursive", fields: vec![("0", <I as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Group", fields: vec![("0", <I as HasG>::g()), ("1", <P as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <F as HasG>::g()), ("4", <C as HasG>::g()), ("5", <D as HasG>::g()), ("6", <I as HasG>::g()), ("7", <I as HasG>::g()), ("8", <LeftAssoc<P, ST2<I, D>> as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Unit", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Value", fields: vec![("0", <I as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "T", ctor: "T", fields: vec![("0", <b2::Node as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Parse_", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "T", ctor: "X", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Literal", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <S as HasG>::g()), ("2", <syn::LitStr as HasG>::g()), ("3", <P as HasG>::g()), ("4", <syn::LitStr as HasG>::g()), ("5", <D as HasG>::g()), ("6", <syn::LitStr as HasG>::g()), ("7", <C as HasG>::g()), ("8", <F as HasG>::g()), ("9", <S as HasG>::g()), ("10", <P as HasG>::g()), ("11", <RightAssoc<P, ST2<I, D>> as HasG>::g()), ("12", <F as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { T::under_score { first: x_0, field_name: x_1, eof: x_2, variant: x_3, key: x_4, error: x_5, r#box: x_6, tmp: x_7, parsel_field_0: x_8, default: x_9, fmt: x_10, val: x_11, vx: x_12, left: x_13, sep: x_14, r#where: x_15 } => Val::Node("T::under_score".into(), vec![("first".into(), x_0.val()), ("field_name".into(), x_1.val()), ("eof".into(), x_2.val()), ("variant".into(), x_3.val()), ("key".into(), x_4.val()), ("error".into(), x_5.val()), ("r#box".into(), x_6.val()), ("tmp".into(), x_7.val()), ("parsel_field_0".into(), x_8.val()), ("default".into(), x_9.val()), ("fmt".into(), x_10.val()), ("val".into(), x_11.val()), ("vx".into(), x_12.val()), ("left".into(), x_13.val()), ("sep".into(), x_14.val()), ("r#where".into(), x_15.val())]), T::B (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("T::B".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), T::String2 { r#where: x_0, rhs: x_1, std: x_2, r#move: x_3 } => Val::Node("T::String2".into(), vec![("r#where".into(), x_0.val()), ("rhs".into(), x_1.val()), ("std".into(), x_2.val()), ("r#move".into(), x_3.val())]), T::Tuple (x_0) => Val::Node("T::Tuple".into(), vec![("0".into(), x_0.val())]), T::Result2  => Val::Node("T::Result2".into(), vec![]), T::Enum (x_0) => Val::Node("T::Enum".into(), vec![("0".into(), x_0.val())]), T::Right (x_0, x_1) => Val::Node("T::Right".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), T::Stmt  => Val::Node("T::Stmt".into(), vec![]), T::Y { ok: x_0 } => Val::Node("T::Y".into(), vec![("ok".into(), x_0.val())]), T::Été { cause: x_0, opt: x_1, next: x_2, parsel_field_X_0: x_3, data: x_4, kw: x_5, parsel_input: x_6, r#loop: x_7 } => Val::Node("T::Été".into(), vec![("cause".into(), x_0.val()), ("opt".into(), x_1.val()), ("next".into(), x_2.val()), ("parsel_field_X_0".into(), x_3.val()), ("data".into(), x_4.val()), ("kw".into(), x_5.val()), ("parsel_input".into(), x_6.val()), ("r#loop".into(), x_7.val())]), T::Eof { formatter: x_0, len: x_1, ty: x_2, res: x_3, y: x_4, fmt: x_5, val: x_6, start: x_7, message: x_8, body: x_9, größe: x_10, body2: x_11, rest: x_12, rhs: x_13, r#in: x_14, tt: x_15, next: x_16, r#ref: x_17, __self: x_18, o: x_19, cursor: x_20, ok: x_21, r#box: x_22, x: x_23, field_name: x_24, buf: x_25, data: x_26, parsel_field_X_0: x_27, r#match: x_28, last: x_29, value: x_30, suffix: x_31, first: x_32 } => Val::Node("T::Eof".into(), vec![("formatter".into(), x_0.val()), ("len".into(), x_1.val()), ("ty".into(), x_2.val()), ("res".into(), x_3.val()), ("y".into(), x_4.val()), ("fmt".into(), x_5.val()), ("val".into(), x_6.val()), ("start".into(), x_7.val()), ("message".into(), x_8.val()), ("body".into(), x_9.val()), ("größe".into(), x_10.val()), ("body2".into(), x_11.val()), ("rest".into(), x_12.val()), ("rhs".into(), x_13.val()), ("r#in".into(), x_14.val()), ("tt".into(), x_15.val()), ("next".into(), x_16.val()), ("r#ref".into(), x_17.val()), ("__self".into(), x_18.val()), ("o".into(), x_19.val()), ("cursor".into(), x_20.val()), ("ok".into(), x_21.val()), ("r#box".into(), x_22.val()), ("x".into(), x_23.val()), ("field_name".into(), x_24.val()), ("buf".into(), x_25.val()), ("data".into(), x_26.val()), ("parsel_field_X_0".into(), x_27.val()), ("r#match".into(), x_28.val()), ("last".into(), x_29.val()), ("value".into(), x_30.val()), ("suffix".into(), x_31.val()), ("first".into(), x_32.val())]), T::Type { y: x_0 } => Val::Node("T::Type".into(), vec![("y".into(), x_0.val())]), T::lower { r#move: x_0 } => Val::Node("T::lower".into(), vec![("r#move".into(), x_0.val())]), T::Vec2 (x_0) => Val::Node("T::Vec2".into(), vec![("0".into(), x_0.val())]), T::Any { err: x_0, fork: x_1 } => Val::Node("T::Any".into(), vec![("err".into(), x_0.val()), ("fork".into(), x_1.val())]), T::Many (x_0) => Val::Node("T::Many".into(), vec![("0".into(), x_0.val())]), T::A { r#impl: x_0 } => Val::Node("T::A".into(), vec![("r#impl".into(), x_0.val())]), T::Recursive (x_0, x_1) => Val::Node("T::Recursive".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), T::Group (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("T::Group".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), T::Unit (x_0) => Val::Node("T::Unit".into(), vec![("0".into(), x_0.val())]), T::Value (x_0, x_1) => Val::Node("T::Value".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), T::T (x_0) => Val::Node("T::T".into(), vec![("0".into(), x_0.val())]), T::Parse_ (x_0) => Val::Node("T::Parse_".into(), vec![("0".into(), x_0.val())]), T::X (x_0) => Val::Node("T::X".into(), vec![("0".into(), x_0.val())]), T::Literal (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10, x_11, x_12) => Val::Node("T::Literal".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val()), ("11".into(), x_11.val()), ("12".into(), x_12.val())]) } }
    }
}
pub mod b6 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Abc( pub(crate) C);
    impl HasG for Abc {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Abc", fields: vec![("0", <C as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Abc".into(), vec![("0".into(), self.0.val())]) }
    }
}
pub mod b7 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Item { /// documented
 Err {  tail: S, #[parsel(recursive = true)] name: Q, #[cfg(all())] parsel: S, },  Self_ {  field_name: I,  message: I, #[parsel(recursive)] item: F, #[parsel(recursive = false)] stream: I, #[parsel(recursive = true)] ast_node: D,  camelCase: syn::LitStr,  r#move: I,  data: D,  default: P, },  Paren( D,  D, #[parsel(recursive)] D,  S,  D),  Syn { /// d
 #[parsel(recursive)] /// e
 suffix: D,  buf: I },  Token {  ctor_name: I,  tmp: Maybe<Q, Either<I, S>>, #[allow(dead_code)] #[parsel(recursive)] r#let: F, #[parsel(recursive = true)] fmt: D, /// d
 #[parsel(recursive)] /// e
 inner: I,  first: Q, #[parsel(recursive)] r: I }, /// documented
 Z(/// d
 #[parsel(recursive)] /// e
 syn::LitStr,  I, #[parsel(recursive)] F),  Tokens { #[allow(dead_code, unused)] ctor: D, },  X( F,  F,  C, #[allow(dead_code)] #[parsel(recursive)] F, /// d
 #[parsel(recursive)] /// e
 I,  syn::LitStr, /// documented
 C), /// documented
 Parse(#[parsel(recursive = false)] C),  Fork { #[parsel(recursive)] field_name: P,  some: D,  r#else: D,  buf: I }, #[allow(dead_code)] lower( P, #[doc(hidden)] Maybe<S, I>, #[parsel(recursive = false)] Box<Separated<ST2<I, D>, P>>), #[cfg(all())] Node( P,  I,  syn::LitStr, /// documented
 I,  P, #[parsel(recursive)] C,  I, /// documented
 I,  Q, #[allow(dead_code)] #[parsel(recursive)] F, /// d
 #[parsel(recursive)] /// e
 C, #[allow(dead_code, unused)] S, #[allow(dead_code)] #[parsel(recursive)] D, #[parsel(recursive = true)] I, #[parsel(recursive)] syn::LitStr, #[parsel(recursive = false)] P, #[allow(dead_code, unused)] D,  I,  Paren<ST2<D, D>>, #[parsel(recursive = true)] D,  syn::LitStr,  D,  Q, /// documented
 I, #[allow(dead_code)] #[parsel(recursive)] S,  D,  syn::LitStr,  Paren<Maybe<Q, S>>, #[cfg(all())] Bracket<Separated<E2<I, D>, P>>, #[doc(hidden)] Any<I>,  F, #[allow(dead_code)] #[parsel(recursive)] F),  Item {  },  Option2 {  parsel_field_0: I, },  Span( I,  C),  A( I) }
    impl HasG for Item {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Item", ctor: "Err", fields: vec![("tail", <S as HasG>::g()), ("name", <Q as HasG>::g()), ("parsel", <S as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Self_", fields: vec![("field_name", <I as HasG>::g()), ("message", <I as HasG>::g()), ("item", <F as HasG>::g()), ("stream", <I as HasG>::g()), ("ast_node", <D as HasG>::g()), ("camelCase", <syn::LitStr as HasG>::g()), ("r#move", <I as HasG>::g()), ("data", <D as HasG>::g()), ("default", <P as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Paren", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g()), ("2", <D as HasG>::g()), ("3", <S as HasG>::g()), ("4", <D as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Syn", fields: vec![("suffix", <D as HasG>::g()), ("buf", <I as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Token", fields: vec![("ctor_name", <I as HasG>::g()), ("tmp", <Maybe<Q, Either<I, S>> as HasG>::g()), ("r#let", <F as HasG>::g()), ("fmt", <D as HasG>::g()), ("inner", <I as HasG>::g()), ("first", <Q as HasG>::g()), ("r", <I as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Z", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <I as HasG>::g()), ("2", <F as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Tokens", fields: vec![("ctor", <D as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "X", fields: vec![("0", <F as HasG>::g()), ("1", <F as HasG>::g()), ("2", <C as HasG>::g()), ("3", <F as HasG>::g()), ("4", <I as HasG>::g()), ("5", <syn::LitStr as HasG>::g()), ("6", <C as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Parse", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Fork", fields: vec![("field_name", <P as HasG>::g()), ("some", <D as HasG>::g()), ("r#else", <D as HasG>::g()), ("buf", <I as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "lower", fields: vec![("0", <P as HasG>::g()), ("1", <Maybe<S, I> as HasG>::g()), ("2", <Box<Separated<ST2<I, D>, P>> as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Node", fields: vec![("0", <P as HasG>::g()), ("1", <I as HasG>::g()), ("2", <syn::LitStr as HasG>::g()), ("3", <I as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <I as HasG>::g()), ("7", <I as HasG>::g()), ("8", <Q as HasG>::g()), ("9", <F as HasG>::g()), ("10", <C as HasG>::g()), ("11", <S as HasG>::g()), ("12", <D as HasG>::g()), ("13", <I as HasG>::g()), ("14", <syn::LitStr as HasG>::g()), ("15", <P as HasG>::g()), ("16", <D as HasG>::g()), ("17", <I as HasG>::g()), ("18", <Paren<ST2<D, D>> as HasG>::g()), ("19", <D as HasG>::g()), ("20", <syn::LitStr as HasG>::g()), ("21", <D as HasG>::g()), ("22", <Q as HasG>::g()), ("23", <I as HasG>::g()), ("24", <S as HasG>::g()), ("25", <D as HasG>::g()), ("26", <syn::LitStr as HasG>::g()), ("27", <Paren<Maybe<Q, S>> as HasG>::g()), ("28", <Bracket<Separated<E2<I, D>, P>> as HasG>::g()), ("29", <Any<I> as HasG>::g()), ("30", <F as HasG>::g()), ("31", <F as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Item", fields: vec![] }, Gm::Seq { en: "Item", ctor: "Option2", fields: vec![("parsel_field_0", <I as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Span", fields: vec![("0", <I as HasG>::g()), ("1", <C as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "A", fields: vec![("0", <I as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Item::Err { tail: x_0, name: x_1, parsel: x_2 } => Val::Node("Item::Err".into(), vec![("tail".into(), x_0.val()), ("name".into(), x_1.val()), ("parsel".into(), x_2.val())]), Item::Self_ { field_name: x_0, message: x_1, item: x_2, stream: x_3, ast_node: x_4, camelCase: x_5, r#move: x_6, data: x_7, default: x_8 } => Val::Node("Item::Self_".into(), vec![("field_name".into(), x_0.val()), ("message".into(), x_1.val()), ("item".into(), x_2.val()), ("stream".into(), x_3.val()), ("ast_node".into(), x_4.val()), ("camelCase".into(), x_5.val()), ("r#move".into(), x_6.val()), ("data".into(), x_7.val()), ("default".into(), x_8.val())]), Item::Paren (x_0, x_1, x_2, x_3, x_4) => Val::Node("Item::Paren".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Item::Syn { suffix: x_0, buf: x_1 } => Val::Node("Item::Syn".into(), vec![("suffix".into(), x_0.val()), ("buf".into(), x_1.val())]), Item::Token { ctor_name: x_0, tmp: x_1, r#let: x_2, fmt: x_3, inner: x_4, first: x_5, r: x_6 } => Val::Node("Item::Token".into(), vec![("ctor_name".into(), x_0.val()), ("tmp".into(), x_1.val()), ("r#let".into(), x_2.val()), ("fmt".into(), x_3.val()), ("inner".into(), x_4.val()), ("first".into(), x_5.val()), ("r".into(), x_6.val())]), Item::Z (x_0, x_1, x_2) => Val::Node("Item::Z".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Item::Tokens { ctor: x_0 } => Val::Node("Item::Tokens".into(), vec![("ctor".into(), x_0.val())]), Item::X (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Item::X".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Item::Parse (x_0) => Val::Node("Item::Parse".into(), vec![("0".into(), x_0.val())]), Item::Fork { field_name: x_0, some: x_1, r#else: x_2, buf: x_3 } => Val::Node("Item::Fork".into(), vec![("field_name".into(), x_0.val()), ("some".into(), x_1.val()), ("r#else".into(), x_2.val()), ("buf".into(), x_3.val())]), Item::lower (x_0, x_1, x_2) => Val::Node("Item::lower".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Item::Node (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10, x_11, x_12, x_13, x_14, x_15, x_16, x_17, x_18, x_19, x_20, x_21, x_22, x_23, x_24, x_25, x_26, x_27, x_28, x_29, x_30, x_31) => Val::Node("Item::Node".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val()), ("11".into(), x_11.val()), ("12".into(), x_12.val()), ("13".into(), x_13.val()), ("14".into(), x_14.val()), ("15".into(), x_15.val()), ("16".into(), x_16.val()), ("17".into(), x_17.val()), ("18".into(), x_18.val()), ("19".into(), x_19.val()), ("20".into(), x_20.val()), ("21".into(), x_21.val()), ("22".into(), x_22.val()), ("23".into(), x_23.val()), ("24".into(), x_24.val()), ("25".into(), x_25.val()), ("26".into(), x_26.val()), ("27".into(), x_27.val()), ("28".into(), x_28.val()), ("29".into(), x_29.val()), ("30".into(), x_30.val()), ("31".into(), x_31.val())]), Item::Item {  } => Val::Node("Item::Item".into(), vec![]), Item::Option2 { parsel_field_0: x_0 } => Val::Node("Item::Option2".into(), vec![("parsel_field_0".into(), x_0.val())]), Item::Span (x_0, x_1) => Val::Node("Item::Span".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Item::A (x_0) => Val::Node("Item::A".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b8 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Cursor2 { /// documented
 pub r#let: D, #[doc(hidden)] pub(crate) r: D,  pub r#type: C, /// documented
 pub(super) tmp: P, #[parsel(recursive = true)] pub parsel_tokens: Q, #[parsel(recursive)] pub(super) std: Q,  pub(super) variant_name: S,  pub(super) r#fn: I, #[cfg(all())] pub variant: D,  pub inner: I }
    impl HasG for Cursor2 {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Cursor2", fields: vec![("r#let", <D as HasG>::g()), ("r", <D as HasG>::g()), ("r#type", <C as HasG>::g()), ("tmp", <P as HasG>::g()), ("parsel_tokens", <Q as HasG>::g()), ("std", <Q as HasG>::g()), ("variant_name", <S as HasG>::g()), ("r#fn", <I as HasG>::g()), ("variant", <D as HasG>::g()), ("inner", <I as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Cursor2".into(), vec![("r#let".into(), self.r#let.val()), ("r".into(), self.r.val()), ("r#type".into(), self.r#type.val()), ("tmp".into(), self.tmp.val()), ("parsel_tokens".into(), self.parsel_tokens.val()), ("std".into(), self.std.val()), ("variant_name".into(), self.variant_name.val()), ("r#fn".into(), self.r#fn.val()), ("variant".into(), self.variant.val()), ("inner".into(), self.inner.val())]) }
    }
}
pub mod b9 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Error_ {  Expr( I,  Separated<I, C>),  Unit(), #[doc(hidden)] Ident( Separated<D, C>,  C,  I,  Any<syn::LitStr>, /// d
 #[parsel(recursive)] /// e
 b3::Choice,  Either<I, C>, #[cfg(all())] syn::LitStr, #[cfg(all())] Bracket<D>,  b5::T) }
    impl HasG for Error_ {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Error_", ctor: "Expr", fields: vec![("0", <I as HasG>::g()), ("1", <Separated<I, C> as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Unit", fields: vec![] }, Gm::Seq { en: "Error_", ctor: "Ident", fields: vec![("0", <Separated<D, C> as HasG>::g()), ("1", <C as HasG>::g()), ("2", <I as HasG>::g()), ("3", <Any<syn::LitStr> as HasG>::g()), ("4", <b3::Choice as HasG>::g()), ("5", <Either<I, C> as HasG>::g()), ("6", <syn::LitStr as HasG>::g()), ("7", <Bracket<D> as HasG>::g()), ("8", <b5::T as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Error_::Expr (x_0, x_1) => Val::Node("Error_::Expr".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Error_::Unit () => Val::Node("Error_::Unit".into(), vec![]), Error_::Ident (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Error_::Ident".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]) } }
    }
}
pub mod b10 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Cause(#[doc(hidden)] pub S, #[parsel(recursive)] pub LeftAssoc<P, Paren<I>>,  pub Brace<Either<I, syn::LitStr>>);
    impl HasG for Cause {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Cause", fields: vec![("0", <S as HasG>::g()), ("1", <LeftAssoc<P, Paren<I>> as HasG>::g()), ("2", <Brace<Either<I, syn::LitStr>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Cause".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val())]) }
    }
}
pub mod b11 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Entry {  Été { #[parsel(recursive)] that: P,  tail: D, #[allow(dead_code, unused)] key: D, #[parsel(recursive)] next: I,  span: C,  prefix: D,  r#where: F, /// d
 #[parsel(recursive)] /// e
 this: I,  tt: syn::LitStr,  vec: Q,  default: I,  result: D, #[allow(dead_code)] #[parsel(recursive)] token: F, #[parsel(recursive = false)] ctor: C, #[parsel(recursive = false)] n: P },  Node {  out: D },  Unit( S),  NotEof( F,  I, #[allow(dead_code, unused)] F,  I, #[allow(dead_code, unused)] syn::LitStr, #[parsel(recursive = false)] Q,  C), #[doc(hidden)] X_0(#[parsel(recursive = false)] D,  I),  Maybe { #[parsel(recursive = true)] r#pub: D, #[allow(dead_code, unused)] SHOUT: I, },  Any(/// d
 #[parsel(recursive)] /// e
 D),  Vec2(/// d
 #[parsel(recursive)] /// e
 Q,  I),  Parse( I),  Variant( F, /// documented
 D),  Z {  kw: Q,  r#else: syn::LitStr,  name: Q }, /// documented
 Syn(#[parsel(recursive)] syn::LitStr), #[cfg(all())] Literal( D,  Q),  Punct( D, #[cfg(all())] syn::LitStr,  I,  I,  RightAssoc<P, D>,  I, #[parsel(recursive = true)] P, #[allow(dead_code, unused)] Punctuated<I, P>,  F),  U {  r#final: C,  parsel_field_0: I, }, #[doc(hidden)] Recursive( D), #[doc(hidden)] B {  field_str: Either<D, C>, }, #[allow(dead_code)] Option2( Q),  Self_(/// d
 #[parsel(recursive)] /// e
 C, #[doc(hidden)] F,  I, #[parsel(recursive = false)] S,  I,  F, #[parsel(recursive)] D), #[cfg(all())] Empty(/// d
 #[parsel(recursive)] /// e
 P), #[allow(dead_code)] Enum(/// documented
 Q, #[cfg(all())] I),  Eof {  o: b0::Q_ },  Stream(),  Tuple {  tail: syn::LitStr,  cause: I },  V0(#[allow(dead_code)] #[parsel(recursive)] I,  S) }
    impl HasG for Entry {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Entry", ctor: "Été", fields: vec![("that", <P as HasG>::g()), ("tail", <D as HasG>::g()), ("key", <D as HasG>::g()), ("next", <I as HasG>::g()), ("span", <C as HasG>::g()), ("prefix", <D as HasG>::g()), ("r#where", <F as HasG>::g()), ("this", <I as HasG>::g()), ("tt", <syn::LitStr as HasG>::g()), ("vec", <Q as HasG>::g()), ("default", <I as HasG>::g()), ("result", <D as HasG>::g()), ("token", <F as HasG>::g()), ("ctor", <C as HasG>::g()), ("n", <P as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Node", fields: vec![("out", <D as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Unit", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "NotEof", fields: vec![("0", <F as HasG>::g()), ("1", <I as HasG>::g()), ("2", <F as HasG>::g()), ("3", <I as HasG>::g()), ("4", <syn::LitStr as HasG>::g()), ("5", <Q as HasG>::g()), ("6", <C as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "X_0", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Maybe", fields: vec![("r#pub", <D as HasG>::g()), ("SHOUT", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Any", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Vec2", fields: vec![("0", <Q as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Parse", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Variant", fields: vec![("0", <F as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Z", fields: vec![("kw", <Q as HasG>::g()), ("r#else", <syn::LitStr as HasG>::g()), ("name", <Q as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Syn", fields: vec![("0", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Literal", fields: vec![("0", <D as HasG>::g()), ("1", <Q as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Punct", fields: vec![("0", <D as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <I as HasG>::g()), ("3", <I as HasG>::g()), ("4", <RightAssoc<P, D> as HasG>::g()), ("5", <I as HasG>::g()), ("6", <P as HasG>::g()), ("7", <Punctuated<I, P> as HasG>::g()), ("8", <F as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "U", fields: vec![("r#final", <C as HasG>::g()), ("parsel_field_0", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Recursive", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "B", fields: vec![("field_str", <Either<D, C> as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Option2", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Self_", fields: vec![("0", <C as HasG>::g()), ("1", <F as HasG>::g()), ("2", <I as HasG>::g()), ("3", <S as HasG>::g()), ("4", <I as HasG>::g()), ("5", <F as HasG>::g()), ("6", <D as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Empty", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Enum", fields: vec![("0", <Q as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Eof", fields: vec![("o", <b0::Q_ as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Stream", fields: vec![] }, Gm::Seq { en: "Entry", ctor: "Tuple", fields: vec![("tail", <syn::LitStr as HasG>::g()), ("cause", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "V0", fields: vec![("0", <I as HasG>::g()), ("1", <S as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Entry::Été { that: x_0, tail: x_1, key: x_2, next: x_3, span: x_4, prefix: x_5, r#where: x_6, this: x_7, tt: x_8, vec: x_9, default: x_10, result: x_11, token: x_12, ctor: x_13, n: x_14 } => Val::Node("Entry::Été".into(), vec![("that".into(), x_0.val()), ("tail".into(), x_1.val()), ("key".into(), x_2.val()), ("next".into(), x_3.val()), ("span".into(), x_4.val()), ("prefix".into(), x_5.val()), ("r#where".into(), x_6.val()), ("this".into(), x_7.val()), ("tt".into(), x_8.val()), ("vec".into(), x_9.val()), ("default".into(), x_10.val()), ("result".into(), x_11.val()), ("token".into(), x_12.val()), ("ctor".into(), x_13.val()), ("n".into(), x_14.val())]), Entry::Node { out: x_0 } => Val::Node("Entry::Node".into(), vec![("out".into(), x_0.val())]), Entry::Unit (x_0) => Val::Node("Entry::Unit".into(), vec![("0".into(), x_0.val())]), Entry::NotEof (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Entry::NotEof".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Entry::X_0 (x_0, x_1) => Val::Node("Entry::X_0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Entry::Maybe { r#pub: x_0, SHOUT: x_1 } => Val::Node("Entry::Maybe".into(), vec![("r#pub".into(), x_0.val()), ("SHOUT".into(), x_1.val())]), Entry::Any (x_0) => Val::Node("Entry::Any".into(), vec![("0".into(), x_0.val())]), Entry::Vec2 (x_0, x_1) => Val::Node("Entry::Vec2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Entry::Parse (x_0) => Val::Node("Entry::Parse".into(), vec![("0".into(), x_0.val())]), Entry::Variant (x_0, x_1) => Val::Node("Entry::Variant".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Entry::Z { kw: x_0, r#else: x_1, name: x_2 } => Val::Node("Entry::Z".into(), vec![("kw".into(), x_0.val()), ("r#else".into(), x_1.val()), ("name".into(), x_2.val())]), Entry::Syn (x_0) => Val::Node("Entry::Syn".into(), vec![("0".into(), x_0.val())]), Entry::Literal (x_0, x_1) => Val::Node("Entry::Literal".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Entry::Punct (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Entry::Punct".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Entry::U { r#final: x_0, parsel_field_0: x_1 } => Val::Node("Entry::U".into(), vec![("r#final".into(), x_0.val()), ("parsel_field_0".into(), x_1.val())]), Entry::Recursive (x_0) => Val::Node("Entry::Recursive".into(), vec![("0".into(), x_0.val())]), Entry::B { field_str: x_0 } => Val::Node("Entry::B".into(), vec![("field_str".into(), x_0.val())]), Entry::Option2 (x_0) => Val::Node("Entry::Option2".into(), vec![("0".into(), x_0.val())]), Entry::Self_ (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Entry::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Entry::Empty (x_0) => Val::Node("Entry::Empty".into(), vec![("0".into(), x_0.val())]), Entry::Enum (x_0, x_1) => Val::Node("Entry::Enum".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Entry::Eof { o: x_0 } => Val::Node("Entry::Eof".into(), vec![("o".into(), x_0.val())]), Entry::Stream () => Val::Node("Entry::Stream".into(), vec![]), Entry::Tuple { tail: x_0, cause: x_1 } => Val::Node("Entry::Tuple".into(), vec![("tail".into(), x_0.val()), ("cause".into(), x_1.val())]), Entry::V0 (x_0, x_1) => Val::Node("Entry::V0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]) } }
    }
}
pub mod b12 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Node( pub Maybe<S, P>);
    impl HasG for Node {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Node", fields: vec![("0", <Maybe<S, P> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Node".into(), vec![("0".into(), self.0.val())]) }
    }
}
pub mod b13 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Größe { /// documented
 Boxed { #[doc(hidden)] r#in: Brace<Q>,  item: Any<I>, #[cfg(all())] first: Maybe<P, Box<P>>,  parsel: Q, },  NotEof { #[doc(hidden)] tmp: Box<D>,  s: S } }
    impl HasG for Größe {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Größe", ctor: "Boxed", fields: vec![("r#in", <Brace<Q> as HasG>::g()), ("item", <Any<I> as HasG>::g()), ("first", <Maybe<P, Box<P>> as HasG>::g()), ("parsel", <Q as HasG>::g())] }, Gm::Seq { en: "Größe", ctor: "NotEof", fields: vec![("tmp", <Box<D> as HasG>::g()), ("s", <S as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Größe::Boxed { r#in: x_0, item: x_1, first: x_2, parsel: x_3 } => Val::Node("Größe::Boxed".into(), vec![("r#in".into(), x_0.val()), ("item".into(), x_1.val()), ("first".into(), x_2.val()), ("parsel".into(), x_3.val())]), Größe::NotEof { tmp: x_0, s: x_1 } => Val::Node("Größe::NotEof".into(), vec![("tmp".into(), x_0.val()), ("s".into(), x_1.val())]) } }
    }
}
pub mod b14 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Größe( pub(super) F, #[parsel(recursive = true)] pub F,  D,  pub(crate) S, /// d
 #[parsel(recursive)] /// e
 pub syn::LitStr,  pub(super) F, #[cfg(all())] pub D,  pub(super) D,  pub(crate) I, #[parsel(recursive = false)] Q);
    impl HasG for Größe {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Größe", fields: vec![("0", <F as HasG>::g()), ("1", <F as HasG>::g()), ("2", <D as HasG>::g()), ("3", <S as HasG>::g()), ("4", <syn::LitStr as HasG>::g()), ("5", <F as HasG>::g()), ("6", <D as HasG>::g()), ("7", <D as HasG>::g()), ("8", <I as HasG>::g()), ("9", <Q as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Größe".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val()), ("9".into(), self.9.val())]) }
    }
}
pub mod b15 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Value { #[allow(dead_code)] Right(#[doc(hidden)] D,  P, #[doc(hidden)] S,  Punctuated<ST2<I, D>, P>, /// documented
 Paren<S>),  String2 {  sep: I, #[allow(dead_code)] #[parsel(recursive)] value: Bracket<I>,  node: RightAssoc<P, D>, } }
    impl HasG for Value {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Value", ctor: "Right", fields: vec![("0", <D as HasG>::g()), ("1", <P as HasG>::g()), ("2", <S as HasG>::g()), ("3", <Punctuated<ST2<I, D>, P> as HasG>::g()), ("4", <Paren<S> as HasG>::g())] }, Gm::Seq { en: "Value", ctor: "String2", fields: vec![("sep", <I as HasG>::g()), ("value", <Bracket<I> as HasG>::g()), ("node", <RightAssoc<P, D> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Value::Right (x_0, x_1, x_2, x_3, x_4) => Val::Node("Value::Right".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Value::String2 { sep: x_0, value: x_1, node: x_2 } => Val::Node("Value::String2".into(), vec![("sep".into(), x_0.val()), ("value".into(), x_1.val()), ("node".into(), x_2.val())]) } }
    }
}
pub mod b16 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Entry {  pub r#enum: C, #[parsel(recursive = true)] pub f: C, #[parsel(recursive)] pub(crate) r#pub: F,  field_str: I, #[parsel(recursive)] head: D,  pub(super) last: syn::LitStr, #[allow(dead_code, unused)] pub(crate) ty_name: syn::LitStr, #[parsel(recursive)] r#use: P, /// documented
 recursive: Q,  pub(crate) y: F,  pub node: D,  pub ok: C,  pub error: syn::LitStr, #[cfg(all())] r#box: D, #[parsel(recursive = true)] pub parsel_field_X_0: P, #[parsel(recursive)] pub r#move: I,  pub(crate) ty: D }
    impl HasG for Entry {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Entry", fields: vec![("r#enum", <C as HasG>::g()), ("f", <C as HasG>::g()), ("r#pub", <F as HasG>::g()), ("field_str", <I as HasG>::g()), ("head", <D as HasG>::g()), ("last", <syn::LitStr as HasG>::g()), ("ty_name", <syn::LitStr as HasG>::g()), ("r#use", <P as HasG>::g()), ("recursive", <Q as HasG>::g()), ("y", <F as HasG>::g()), ("node", <D as HasG>::g()), ("ok", <C as HasG>::g()), ("error", <syn::LitStr as HasG>::g()), ("r#box", <D as HasG>::g()), ("parsel_field_X_0", <P as HasG>::g()), ("r#move", <I as HasG>::g()), ("ty", <D as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Entry".into(), vec![("r#enum".into(), self.r#enum.val()), ("f".into(), self.f.val()), ("r#pub".into(), self.r#pub.val()), ("field_str".into(), self.field_str.val()), ("head".into(), self.head.val()), ("last".into(), self.last.val()), ("ty_name".into(), self.ty_name.val()), ("r#use".into(), self.r#use.val()), ("recursive".into(), self.recursive.val()), ("y".into(), self.y.val()), ("node".into(), self.node.val()), ("ok".into(), self.ok.val()), ("error".into(), self.error.val()), ("r#box".into(), self.r#box.val()), ("parsel_field_X_0".into(), self.parsel_field_X_0.val()), ("r#move".into(), self.r#move.val()), ("ty".into(), self.ty.val())]) }
    }
}
pub mod b17 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Sequence {  Group(#[allow(dead_code, unused)] D), #[cfg(all())] lower( F,  D, #[parsel(recursive = true)] S,  syn::LitStr),  Expr {  f: C,  tt: F, }, #[cfg(all())] Struct {  },  Ok(#[parsel(recursive)] Q, #[parsel(recursive)] RightAssoc<P, I>,  D),  Stmt(#[parsel(recursive)] Q,  S, #[parsel(recursive = true)] C,  I,  Q),  Err { #[cfg(all())] body: Maybe<C, Maybe<S, I>> }, #[cfg(all())] Option2( syn::LitStr,  D,  P),  Syn {  b: I },  Error2( I,  C,  Brace<P>,  Q, /// documented
 I,  P, #[parsel(recursive)] Q),  Fn( I, #[allow(dead_code, unused)] P,  I,  F),  under_score { #[parsel(recursive)] r#pub: Q, #[parsel(recursive)] eof: S,  r#move: D,  name: syn::LitStr,  suffix: C,  i: D,  fmt: Q, #[cfg(all())] r#enum: C, },  Été { #[parsel(recursive = true)] recursive: I, #[allow(dead_code)] #[parsel(recursive)] r#final: I, /// documented
 field_name: syn::LitStr },  Y( S, #[parsel(recursive)] S,  D,  P),  Tuple { #[doc(hidden)] lookahead: I,  formatter: Bracket<P>, #[parsel(recursive)] _0: S,  i: Q,  body: D, #[allow(dead_code)] #[parsel(recursive)] SHOUT: Q, /// documented
 field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: C }, #[cfg(all())] Enum( I, #[allow(dead_code)] #[parsel(recursive)] D,  b4::Lower_case, #[doc(hidden)] Q, #[allow(dead_code)] #[parsel(recursive)] C),  Item {  ctor: D,  stream: Punctuated<I, C>,  alloc: D,  syn: D,  tmp: F, #[allow(dead_code, unused)] _0: P,  message: F, #[parsel(recursive)] len: D, #[parsel(recursive)] peek: C, },  Other { #[allow(dead_code)] #[parsel(recursive)] stream: I,  Upper: C, }, #[doc(hidden)] String2 {  std: D, }, #[doc(hidden)] Some, #[doc(hidden)] Ok2 {  key: D, /// d
 #[parsel(recursive)] /// e
 enum_name: P },  NotEof( D, #[parsel(recursive = true)] P),  Span { #[parsel(recursive = true)] attrs: D,  SHOUT: C, #[cfg(all())] string: D },  X(#[parsel(recursive = true)] S, #[cfg(all())] Q),  Stream(#[allow(dead_code)] #[parsel(recursive)] I,  D, #[cfg(all())] S), #[cfg(all())] Boxed { #[parsel(recursive = false)] fork: D,  r#use: S,  default: I, },  Core { /// d
 #[parsel(recursive)] /// e
 key: I }, #[doc(hidden)] Empty(#[doc(hidden)] C,  S,  Q),  Any(#[cfg(all())] I,  D,  I, /// documented
 F), #[cfg(all())] Parse_ { #[parsel(recursive)] next: syn::LitStr,  r#match: Q, },  Type(#[parsel(recursive)] I), /// documented
 V1 {  fields: Q, #[doc(hidden)] stream: C,  o: Q, #[parsel(recursive)] prefix: syn::LitStr, #[allow(dead_code, unused)] op: Q, /// d
 #[parsel(recursive)] /// e
 ok: P, /// documented
 len: Q,  ast_node: P, /// d
 #[parsel(recursive)] /// e
 v: D },  B( P) }
    impl HasG for Sequence {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Sequence", ctor: "Group", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "lower", fields: vec![("0", <F as HasG>::g()), ("1", <D as HasG>::g()), ("2", <S as HasG>::g()), ("3", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Expr", fields: vec![("f", <C as HasG>::g()), ("tt", <F as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Struct", fields: vec![] }, Gm::Seq { en: "Sequence", ctor: "Ok", fields: vec![("0", <Q as HasG>::g()), ("1", <RightAssoc<P, I> as HasG>::g()), ("2", <D as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Stmt", fields: vec![("0", <Q as HasG>::g()), ("1", <S as HasG>::g()), ("2", <C as HasG>::g()), ("3", <I as HasG>::g()), ("4", <Q as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Err", fields: vec![("body", <Maybe<C, Maybe<S, I>> as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Option2", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <D as HasG>::g()), ("2", <P as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Syn", fields: vec![("b", <I as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Error2", fields: vec![("0", <I as HasG>::g()), ("1", <C as HasG>::g()), ("2", <Brace<P> as HasG>::g()), ("3", <Q as HasG>::g()), ("4", <I as HasG>::g()), ("5", <P as HasG>::g()), ("6", <Q as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Fn", fields: vec![("0", <I as HasG>::g()), ("1", <P as HasG>::g()), ("2", <I as HasG>::g()), ("3", <F as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "under_score", fields: vec![("r#pub", <Q as HasG>::g()), ("eof", <S as HasG>::g()), ("r#move", <D as HasG>::g()), ("name", <syn::LitStr as HasG>::g()), ("suffix", <C as HasG>::g()), ("i", <D as HasG>::g()), ("fmt", <Q as HasG>::g()), ("r#enum", <C as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Été", fields: vec![("recursive", <I as HasG>::g()), ("r#final", <I as HasG>::g()), ("field_name", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Y", fields: vec![("0", <S as HasG>::g()), ("1", <S as HasG>::g()), ("2", <D as HasG>::g()), ("3", <P as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Tuple", fields: vec![("lookahead", <I as HasG>::g()), ("formatter", <Bracket<P> as HasG>::g()), ("_0", <S as HasG>::g()), ("i", <Q as HasG>::g()), ("body", <D as HasG>::g()), ("SHOUT", <Q as HasG>::g()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it", <C as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Enum", fields: vec![("0", <I as HasG>::g()), ("1", <D as HasG>::g()), ("2", <b4::Lower_case as HasG>::g()), ("3", <Q as HasG>::g()), ("4", <C as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Item", fields: vec![("ctor", <D as HasG>::g()), ("stream", <Punctuated<I, C> as HasG>::g()), ("alloc", <D as HasG>::g()), ("syn", <D as HasG>::g()), ("tmp", <F as HasG>::g()), ("_0", <P as HasG>::g()), ("message", <F as HasG>::g()), ("len", <D as HasG>::g()), ("peek", <C as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Other", fields: vec![("stream", <I as HasG>::g()), ("Upper", <C as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "String2", fields: vec![("std", <D as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Some", fields: vec![] }, Gm::Seq { en: "Sequence", ctor: "Ok2", fields: vec![("key", <D as HasG>::g()), ("enum_name", <P as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "NotEof", fields: vec![("0", <D as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Span", fields: vec![("attrs", <D as HasG>::g()), ("SHOUT", <C as HasG>::g()), ("string", <D as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "X", fields: vec![("0", <S as HasG>::g()), ("1", <Q as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Stream", fields: vec![("0", <I as HasG>::g()), ("1", <D as HasG>::g()), ("2", <S as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Boxed", fields: vec![("fork", <D as HasG>::g()), ("r#use", <S as HasG>::g()), ("default", <I as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Core", fields: vec![("key", <I as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Empty", fields: vec![("0", <C as HasG>::g()), ("1", <S as HasG>::g()), ("2", <Q as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Any", fields: vec![("0", <I as HasG>::g()), ("1", <D as HasG>::g()), ("2", <I as HasG>::g()), ("3", <F as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Parse_", fields: vec![("next", <syn::LitStr as HasG>::g()), ("r#match", <Q as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Type", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "V1", fields: vec![("fields", <Q as HasG>::g()), ("stream", <C as HasG>::g()), ("o", <Q as HasG>::g()), ("prefix", <syn::LitStr as HasG>::g()), ("op", <Q as HasG>::g()), ("ok", <P as HasG>::g()), ("len", <Q as HasG>::g()), ("ast_node", <P as HasG>::g()), ("v", <D as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "B", fields: vec![("0", <P as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Sequence::Group (x_0) => Val::Node("Sequence::Group".into(), vec![("0".into(), x_0.val())]), Sequence::lower (x_0, x_1, x_2, x_3) => Val::Node("Sequence::lower".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Sequence::Expr { f: x_0, tt: x_1 } => Val::Node("Sequence::Expr".into(), vec![("f".into(), x_0.val()), ("tt".into(), x_1.val())]), Sequence::Struct {  } => Val::Node("Sequence::Struct".into(), vec![]), Sequence::Ok (x_0, x_1, x_2) => Val::Node("Sequence::Ok".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Sequence::Stmt (x_0, x_1, x_2, x_3, x_4) => Val::Node("Sequence::Stmt".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Sequence::Err { body: x_0 } => Val::Node("Sequence::Err".into(), vec![("body".into(), x_0.val())]), Sequence::Option2 (x_0, x_1, x_2) => Val::Node("Sequence::Option2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Sequence::Syn { b: x_0 } => Val::Node("Sequence::Syn".into(), vec![("b".into(), x_0.val())]), Sequence::Error2 (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Sequence::Error2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Sequence::Fn (x_0, x_1, x_2, x_3) => Val::Node("Sequence::Fn".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Sequence::under_score { r#pub: x_0, eof: x_1, r#move: x_2, name: x_3, suffix: x_4, i: x_5, fmt: x_6, r#enum: x_7 } => Val::Node("Sequence::under_score".into(), vec![("r#pub".into(), x_0.val()), ("eof".into(), x_1.val()), ("r#move".into(), x_2.val()), ("name".into(), x_3.val()), ("suffix".into(), x_4.val()), ("i".into(), x_5.val()), ("fmt".into(), x_6.val()), ("r#enum".into(), x_7.val())]), Sequence::Été { recursive: x_0, r#final: x_1, field_name: x_2 } => Val::Node("Sequence::Été".into(), vec![("recursive".into(), x_0.val()), ("r#final".into(), x_1.val()), ("field_name".into(), x_2.val())]), Sequence::Y (x_0, x_1, x_2, x_3) => Val::Node("Sequence::Y".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Sequence::Tuple { lookahead: x_0, formatter: x_1, _0: x_2, i: x_3, body: x_4, SHOUT: x_5, field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: x_6 } => Val::Node("Sequence::Tuple".into(), vec![("lookahead".into(), x_0.val()), ("formatter".into(), x_1.val()), ("_0".into(), x_2.val()), ("i".into(), x_3.val()), ("body".into(), x_4.val()), ("SHOUT".into(), x_5.val()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it".into(), x_6.val())]), Sequence::Enum (x_0, x_1, x_2, x_3, x_4) => Val::Node("Sequence::Enum".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Sequence::Item { ctor: x_0, stream: x_1, alloc: x_2, syn: x_3, tmp: x_4, _0: x_5, message: x_6, len: x_7, peek: x_8 } => Val::Node("Sequence::Item".into(), vec![("ctor".into(), x_0.val()), ("stream".into(), x_1.val()), ("alloc".into(), x_2.val()), ("syn".into(), x_3.val()), ("tmp".into(), x_4.val()), ("_0".into(), x_5.val()), ("message".into(), x_6.val()), ("len".into(), x_7.val()), ("peek".into(), x_8.val())]), Sequence::Other { stream: x_0, Upper: x_1 } => Val::Node("Sequence::Other".into(), vec![("stream".into(), x_0.val()), ("Upper".into(), x_1.val())]), Sequence::String2 { std: x_0 } => Val::Node("Sequence::String2".into(), vec![("std".into(), x_0.val())]), Sequence::Some  => Val::Node("Sequence::Some".into(), vec![]), Sequence::Ok2 { key: x_0, enum_name: x_1 } => Val::Node("Sequence::Ok2".into(), vec![("key".into(), x_0.val()), ("enum_name".into(), x_1.val())]), Sequence::NotEof (x_0, x_1) => Val::Node("Sequence::NotEof".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Sequence::Span { attrs: x_0, SHOUT: x_1, string: x_2 } => Val::Node("Sequence::Span".into(), vec![("attrs".into(), x_0.val()), ("SHOUT".into(), x_1.val()), ("string".into(), x_2.val())]), Sequence::X (x_0, x_1) => Val::Node("Sequence::X".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Sequence::Stream (x_0, x_1, x_2) => Val::Node("Sequence::Stream".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Sequence::Boxed { fork: x_0, r#use: x_1, default: x_2 } => Val::Node("Sequence::Boxed".into(), vec![("fork".into(), x_0.val()), ("r#use".into(), x_1.val()), ("default".into(), x_2.val())]), Sequence::Core { key: x_0 } => Val::Node("Sequence::Core".into(), vec![("key".into(), x_0.val())]), Sequence::Empty (x_0, x_1, x_2) => Val::Node("Sequence::Empty".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Sequence::Any (x_0, x_1, x_2, x_3) => Val::Node("Sequence::Any".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Sequence::Parse_ { next: x_0, r#match: x_1 } => Val::Node("Sequence::Parse_".into(), vec![("next".into(), x_0.val()), ("r#match".into(), x_1.val())]), Sequence::Type (x_0) => Val::Node("Sequence::Type".into(), vec![("0".into(), x_0.val())]), Sequence::V1 { fields: x_0, stream: x_1, o: x_2, prefix: x_3, op: x_4, ok: x_5, len: x_6, ast_node: x_7, v: x_8 } => Val::Node("Sequence::V1".into(), vec![("fields".into(), x_0.val()), ("stream".into(), x_1.val()), ("o".into(), x_2.val()), ("prefix".into(), x_3.val()), ("op".into(), x_4.val()), ("ok".into(), x_5.val()), ("len".into(), x_6.val()), ("ast_node".into(), x_7.val()), ("v".into(), x_8.val())]), Sequence::B (x_0) => Val::Node("Sequence::B".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b18 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Parser2 {  pub(crate) tail: Maybe<C, I>,  pub r#pub: I,  naïve: syn::LitStr,  pub(super) cursor: F,  input: S, #[allow(dead_code)] #[parsel(recursive)] node: D, #[doc(hidden)] fields: I,  tmp: Q,  pub größe: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] pub ty_name: D, #[parsel(recursive = false)] pub error: D,  pub(super) o: I, #[parsel(recursive = false)] pub res: Maybe<S, Q>,  pub __field0: S,  pub(crate) parser: D,  end: S,  pub right: P,  prev: C,  pub data: S, #[allow(dead_code, unused)] parsel_field_0: C,  pub(super) ctor_name: D, #[parsel(recursive = true)] pub ty: I,  pub(crate) fork: C,  pub(crate) outer: D,  pub ctor: D,  pub(crate) r#match: S, #[parsel(recursive = false)] r#mut: P, /// d
 #[parsel(recursive)] /// e
 pub len: S,  r#struct: P, #[parsel(recursive = false)] pub(crate) r: b14::Größe,  pub(crate) alloc: I,  pub r#in: D, #[allow(dead_code, unused)] pub(crate) peek: P, }
    impl HasG for Parser2 {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Parser2", fields: vec![("tail", <Maybe<C, I> as HasG>::g()), ("r#pub", <I as HasG>::g()), ("naïve", <syn::LitStr as HasG>::g()), ("cursor", <F as HasG>::g()), ("input", <S as HasG>::g()), ("node", <D as HasG>::g()), ("fields", <I as HasG>::g()), ("tmp", <Q as HasG>::g()), ("größe", <syn::LitStr as HasG>::g()), ("ty_name", <D as HasG>::g()), ("error", <D as HasG>::g()), ("o", <I as HasG>::g()), ("res", <Maybe<S, Q> as HasG>::g()), ("__field0", <S as HasG>::g()), ("parser", <D as HasG>::g()), ("end", <S as HasG>::g()), ("right", <P as HasG>::g()), ("prev", <C as HasG>::g()), ("data", <S as HasG>::g()), ("parsel_field_0", <C as HasG>::g()), ("ctor_name", <D as HasG>::g()), ("ty", <I as HasG>::g()), ("fork", <C as HasG>::g()), ("outer", <D as HasG>::g()), ("ctor", <D as HasG>::g()), ("r#match", <S as HasG>::g()), ("r#mut", <P as HasG>::g()), ("len", <S as HasG>::g()), ("r#struct", <P as HasG>::g()), ("r", <b14::Größe as HasG>::g()), ("alloc", <I as HasG>::g()), ("r#in", <D as HasG>::g()), ("peek", <P as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Parser2".into(), vec![("tail".into(), self.tail.val()), ("r#pub".into(), self.r#pub.val()), ("naïve".into(), self.naïve.val()), ("cursor".into(), self.cursor.val()), ("input".into(), self.input.val()), ("node".into(), self.node.val()), ("fields".into(), self.fields.val()), ("tmp".into(), self.tmp.val()), ("größe".into(), self.größe.val()), ("ty_name".into(), self.ty_name.val()), ("error".into(), self.error.val()), ("o".into(), self.o.val()), ("res".into(), self.res.val()), ("__field0".into(), self.__field0.val()), ("parser".into(), self.parser.val()), ("end".into(), self.end.val()), ("right".into(), self.right.val()), ("prev".into(), self.prev.val()), ("data".into(), self.data.val()), ("parsel_field_0".into(), self.parsel_field_0.val()), ("ctor_name".into(), self.ctor_name.val()), ("ty".into(), self.ty.val()), ("fork".into(), self.fork.val()), ("outer".into(), self.outer.val()), ("ctor".into(), self.ctor.val()), ("r#match".into(), self.r#match.val()), ("r#mut".into(), self.r#mut.val()), ("len".into(), self.len.val()), ("r#struct".into(), self.r#struct.val()), ("r".into(), self.r.val()), ("alloc".into(), self.alloc.val()), ("r#in".into(), self.r#in.val()), ("peek".into(), self.peek.val())]) }
    }
}
pub mod b19 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Leaf { #[cfg(all())] Error2 { #[parsel(recursive)] token: C,  r#loop: I, #[parsel(recursive)] iter: I },  Recursive(#[allow(dead_code)] #[parsel(recursive)] S),  Fn { #[parsel(recursive)] ty: I, #[allow(dead_code)] #[parsel(recursive)] syn: I }, #[cfg(all())] V1 { /// d
 #[parsel(recursive)] /// e
 field_index: F,  index: C,  alloc: F, }, #[doc(hidden)] Z(#[parsel(recursive)] F, #[parsel(recursive = false)] C,  F),  Option2 { #[parsel(recursive)] bindings: D, /// documented
 variant_name: F },  Variant( F,  D,  S, #[parsel(recursive = false)] P, #[parsel(recursive = false)] S, #[parsel(recursive)] I,  I, #[parsel(recursive = true)] P,  C), /// documented
 Left( I, #[parsel(recursive = false)] F,  S,  P, #[parsel(recursive)] C, #[doc(hidden)] I, #[allow(dead_code)] #[parsel(recursive)] S,  P, #[parsel(recursive)] F), #[doc(hidden)] Syn(#[parsel(recursive = true)] F,  F,  syn::LitStr), #[cfg(all())] Literal(#[parsel(recursive)] D),  Item {  r#where: S, }, /// documented
 Default {  rest: C,  y: P },  X( S,  S,  F),  Vec2(#[cfg(all())] F, /// documented
 C,  P, #[doc(hidden)] F,  P,  I, #[parsel(recursive)] D, #[parsel(recursive = true)] F,  I), #[allow(dead_code)] Result2( F),  Type {  i: D,  inner: S,  cause: P,  ok: Q,  parsel: C, #[parsel(recursive = true)] data: D, #[parsel(recursive = true)] field_index: D, }, #[allow(dead_code)] Tokens( Q,  Q, #[allow(dead_code, unused)] P) }
    impl HasG for Leaf {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Leaf", ctor: "Error2", fields: vec![("token", <C as HasG>::g()), ("r#loop", <I as HasG>::g()), ("iter", <I as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Recursive", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Fn", fields: vec![("ty", <I as HasG>::g()), ("syn", <I as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "V1", fields: vec![("field_index", <F as HasG>::g()), ("index", <C as HasG>::g()), ("alloc", <F as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Z", fields: vec![("0", <F as HasG>::g()), ("1", <C as HasG>::g()), ("2", <F as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Option2", fields: vec![("bindings", <D as HasG>::g()), ("variant_name", <F as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Variant", fields: vec![("0", <F as HasG>::g()), ("1", <D as HasG>::g()), ("2", <S as HasG>::g()), ("3", <P as HasG>::g()), ("4", <S as HasG>::g()), ("5", <I as HasG>::g()), ("6", <I as HasG>::g()), ("7", <P as HasG>::g()), ("8", <C as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Left", fields: vec![("0", <I as HasG>::g()), ("1", <F as HasG>::g()), ("2", <S as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <I as HasG>::g()), ("6", <S as HasG>::g()), ("7", <P as HasG>::g()), ("8", <F as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Syn", fields: vec![("0", <F as HasG>::g()), ("1", <F as HasG>::g()), ("2", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Literal", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Item", fields: vec![("r#where", <S as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Default", fields: vec![("rest", <C as HasG>::g()), ("y", <P as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "X", fields: vec![("0", <S as HasG>::g()), ("1", <S as HasG>::g()), ("2", <F as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Vec2", fields: vec![("0", <F as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <F as HasG>::g()), ("4", <P as HasG>::g()), ("5", <I as HasG>::g()), ("6", <D as HasG>::g()), ("7", <F as HasG>::g()), ("8", <I as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Result2", fields: vec![("0", <F as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Type", fields: vec![("i", <D as HasG>::g()), ("inner", <S as HasG>::g()), ("cause", <P as HasG>::g()), ("ok", <Q as HasG>::g()), ("parsel", <C as HasG>::g()), ("data", <D as HasG>::g()), ("field_index", <D as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Tokens", fields: vec![("0", <Q as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <P as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Leaf::Error2 { token: x_0, r#loop: x_1, iter: x_2 } => Val::Node("Leaf::Error2".into(), vec![("token".into(), x_0.val()), ("r#loop".into(), x_1.val()), ("iter".into(), x_2.val())]), Leaf::Recursive (x_0) => Val::Node("Leaf::Recursive".into(), vec![("0".into(), x_0.val())]), Leaf::Fn { ty: x_0, syn: x_1 } => Val::Node("Leaf::Fn".into(), vec![("ty".into(), x_0.val()), ("syn".into(), x_1.val())]), Leaf::V1 { field_index: x_0, index: x_1, alloc: x_2 } => Val::Node("Leaf::V1".into(), vec![("field_index".into(), x_0.val()), ("index".into(), x_1.val()), ("alloc".into(), x_2.val())]), Leaf::Z (x_0, x_1, x_2) => Val::Node("Leaf::Z".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Leaf::Option2 { bindings: x_0, variant_name: x_1 } => Val::Node("Leaf::Option2".into(), vec![("bindings".into(), x_0.val()), ("variant_name".into(), x_1.val())]), Leaf::Variant (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Leaf::Variant".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Leaf::Left (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Leaf::Left".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Leaf::Syn (x_0, x_1, x_2) => Val::Node("Leaf::Syn".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Leaf::Literal (x_0) => Val::Node("Leaf::Literal".into(), vec![("0".into(), x_0.val())]), Leaf::Item { r#where: x_0 } => Val::Node("Leaf::Item".into(), vec![("r#where".into(), x_0.val())]), Leaf::Default { rest: x_0, y: x_1 } => Val::Node("Leaf::Default".into(), vec![("rest".into(), x_0.val()), ("y".into(), x_1.val())]), Leaf::X (x_0, x_1, x_2) => Val::Node("Leaf::X".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Leaf::Vec2 (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Leaf::Vec2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Leaf::Result2 (x_0) => Val::Node("Leaf::Result2".into(), vec![("0".into(), x_0.val())]), Leaf::Type { i: x_0, inner: x_1, cause: x_2, ok: x_3, parsel: x_4, data: x_5, field_index: x_6 } => Val::Node("Leaf::Type".into(), vec![("i".into(), x_0.val()), ("inner".into(), x_1.val()), ("cause".into(), x_2.val()), ("ok".into(), x_3.val()), ("parsel".into(), x_4.val()), ("data".into(), x_5.val()), ("field_index".into(), x_6.val())]), Leaf::Tokens (x_0, x_1, x_2) => Val::Node("Leaf::Tokens".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]) } }
    }
}
pub mod b20 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Z9 {  pub attrs: F,  pub(super) error: I, #[parsel(recursive = true)] pub(crate) bindings: F, /// documented
 pub r#loop: Punctuated<Paren<I>, C>,  pub inner: b4::Lower_case, #[parsel(recursive = false)] pub(super) cursor: Separated<E2<I, D>, P>, #[parsel(recursive = true)] n: Box<F>,  pub tokens: D, #[cfg(all())] pub suffix: RightAssoc<P, Paren<I>>, }
    impl HasG for Z9 {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Z9", fields: vec![("attrs", <F as HasG>::g()), ("error", <I as HasG>::g()), ("bindings", <F as HasG>::g()), ("r#loop", <Punctuated<Paren<I>, C> as HasG>::g()), ("inner", <b4::Lower_case as HasG>::g()), ("cursor", <Separated<E2<I, D>, P> as HasG>::g()), ("n", <Box<F> as HasG>::g()), ("tokens", <D as HasG>::g()), ("suffix", <RightAssoc<P, Paren<I>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Z9".into(), vec![("attrs".into(), self.attrs.val()), ("error".into(), self.error.val()), ("bindings".into(), self.bindings.val()), ("r#loop".into(), self.r#loop.val()), ("inner".into(), self.inner.val()), ("cursor".into(), self.cursor.val()), ("n".into(), self.n.val()), ("tokens".into(), self.tokens.val()), ("suffix".into(), self.suffix.val())]) }
    }
}
pub mod b21 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Formatter2 {  Tokens {  }, /// documented
 Stmt( S),  Other(/// documented
 P), #[allow(dead_code)] Result2( I, #[parsel(recursive = true)] Q),  Maybe( Q),  V1( I), #[allow(dead_code)] Left { #[allow(dead_code)] #[parsel(recursive)] error: P, /// d
 #[parsel(recursive)] /// e
 SHOUT: F, #[doc(hidden)] field: D, #[parsel(recursive)] ident: I, #[doc(hidden)] cause: Q,  value: Q, #[parsel(recursive = true)] variant_name: syn::LitStr },  Ident( F), #[cfg(all())] Struct {  x: I,  e1: C, #[parsel(recursive = false)] fmt: F,  field_index: syn::LitStr,  r#box: I, #[doc(hidden)] field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: C, },  Parse( I),  X(#[parsel(recursive = false)] Any<ST2<I, D>>,  I),  Option2( I), #[doc(hidden)] NotEof {  field: I, #[allow(dead_code, unused)] formatter: I }, /// documented
 Z { #[parsel(recursive = false)] core: S,  tt: I },  Right(#[doc(hidden)] Q,  C), #[allow(dead_code)] Vec2( D), #[cfg(all())] Eof { /// d
 #[parsel(recursive)] /// e
 r#where: I,  n: Q } }
    impl HasG for Formatter2 {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Formatter2", ctor: "Tokens", fields: vec![] }, Gm::Seq { en: "Formatter2", ctor: "Stmt", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Other", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Result2", fields: vec![("0", <I as HasG>::g()), ("1", <Q as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Maybe", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "V1", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Left", fields: vec![("error", <P as HasG>::g()), ("SHOUT", <F as HasG>::g()), ("field", <D as HasG>::g()), ("ident", <I as HasG>::g()), ("cause", <Q as HasG>::g()), ("value", <Q as HasG>::g()), ("variant_name", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Ident", fields: vec![("0", <F as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Struct", fields: vec![("x", <I as HasG>::g()), ("e1", <C as HasG>::g()), ("fmt", <F as HasG>::g()), ("field_index", <syn::LitStr as HasG>::g()), ("r#box", <I as HasG>::g()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it", <C as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Parse", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "X", fields: vec![("0", <Any<ST2<I, D>> as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Option2", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "NotEof", fields: vec![("field", <I as HasG>::g()), ("formatter", <I as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Z", fields: vec![("core", <S as HasG>::g()), ("tt", <I as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Right", fields: vec![("0", <Q as HasG>::g()), ("1", <C as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Vec2", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Formatter2", ctor: "Eof", fields: vec![("r#where", <I as HasG>::g()), ("n", <Q as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Formatter2::Tokens {  } => Val::Node("Formatter2::Tokens".into(), vec![]), Formatter2::Stmt (x_0) => Val::Node("Formatter2::Stmt".into(), vec![("0".into(), x_0.val())]), Formatter2::Other (x_0) => Val::Node("Formatter2::Other".into(), vec![("0".into(), x_0.val())]), Formatter2::Result2 (x_0, x_1) => Val::Node("Formatter2::Result2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Formatter2::Maybe (x_0) => Val::Node("Formatter2::Maybe".into(), vec![("0".into(), x_0.val())]), Formatter2::V1 (x_0) => Val::Node("Formatter2::V1".into(), vec![("0".into(), x_0.val())]), Formatter2::Left { error: x_0, SHOUT: x_1, field: x_2, ident: x_3, cause: x_4, value: x_5, variant_name: x_6 } => Val::Node("Formatter2::Left".into(), vec![("error".into(), x_0.val()), ("SHOUT".into(), x_1.val()), ("field".into(), x_2.val()), ("ident".into(), x_3.val()), ("cause".into(), x_4.val()), ("value".into(), x_5.val()), ("variant_name".into(), x_6.val())]), Formatter2::Ident (x_0) => Val::Node("Formatter2::Ident".into(), vec![("0".into(), x_0.val())]), Formatter2::Struct { x: x_0, e1: x_1, fmt: x_2, field_index: x_3, r#box: x_4, field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: x_5 } => Val::Node("Formatter2::Struct".into(), vec![("x".into(), x_0.val()), ("e1".into(), x_1.val()), ("fmt".into(), x_2.val()), ("field_index".into(), x_3.val()), ("r#box".into(), x_4.val()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it".into(), x_5.val())]), Formatter2::Parse (x_0) => Val::Node("Formatter2::Parse".into(), vec![("0".into(), x_0.val())]), Formatter2::X (x_0, x_1) => Val::Node("Formatter2::X".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Formatter2::Option2 (x_0) => Val::Node("Formatter2::Option2".into(), vec![("0".into(), x_0.val())]), Formatter2::NotEof { field: x_0, formatter: x_1 } => Val::Node("Formatter2::NotEof".into(), vec![("field".into(), x_0.val()), ("formatter".into(), x_1.val())]), Formatter2::Z { core: x_0, tt: x_1 } => Val::Node("Formatter2::Z".into(), vec![("core".into(), x_0.val()), ("tt".into(), x_1.val())]), Formatter2::Right (x_0, x_1) => Val::Node("Formatter2::Right".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Formatter2::Vec2 (x_0) => Val::Node("Formatter2::Vec2".into(), vec![("0".into(), x_0.val())]), Formatter2::Eof { r#where: x_0, n: x_1 } => Val::Node("Formatter2::Eof".into(), vec![("r#where".into(), x_0.val()), ("n".into(), x_1.val())]) } }
    }
}
pub mod b22 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Formatter2 {  pub some: F, #[allow(dead_code, unused)] pub(super) r#fn: D,  pub node: C, /// documented
 pub y: C, #[cfg(all())] kw: S, #[doc(hidden)] pub(crate) camelCase: P, #[allow(dead_code, unused)] pub tmp: I,  pub o: Either<syn::LitStr, S>, #[cfg(all())] pub(super) field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: S, #[doc(hidden)] pub(crate) r#let: I, #[parsel(recursive)] pub(crate) variant_name: D, #[allow(dead_code)] #[parsel(recursive)] b: D,  body: D, /// d
 #[parsel(recursive)] /// e
 pub data: Brace<P>,  res: syn::LitStr, /// documented
 pub ctor: syn::LitStr,  parsel_input: C,  pub Upper: I,  pub(crate) naïve: C,  pub alloc: S, }
    impl HasG for Formatter2 {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Formatter2", fields: vec![("some", <F as HasG>::g()), ("r#fn", <D as HasG>::g()), ("node", <C as HasG>::g()), ("y", <C as HasG>::g()), ("kw", <S as HasG>::g()), ("camelCase", <P as HasG>::g()), ("tmp", <I as HasG>::g()), ("o", <Either<syn::LitStr, S> as HasG>::g()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it", <S as HasG>::g()), ("r#let", <I as HasG>::g()), ("variant_name", <D as HasG>::g()), ("b", <D as HasG>::g()), ("body", <D as HasG>::g()), ("data", <Brace<P> as HasG>::g()), ("res", <syn::LitStr as HasG>::g()), ("ctor", <syn::LitStr as HasG>::g()), ("parsel_input", <C as HasG>::g()), ("Upper", <I as HasG>::g()), ("naïve", <C as HasG>::g()), ("alloc", <S as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Formatter2".into(), vec![("some".into(), self.some.val()), ("r#fn".into(), self.r#fn.val()), ("node".into(), self.node.val()), ("y".into(), self.y.val()), ("kw".into(), self.kw.val()), ("camelCase".into(), self.camelCase.val()), ("tmp".into(), self.tmp.val()), ("o".into(), self.o.val()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it".into(), self.field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it.val()), ("r#let".into(), self.r#let.val()), ("variant_name".into(), self.variant_name.val()), ("b".into(), self.b.val()), ("body".into(), self.body.val()), ("data".into(), self.data.val()), ("res".into(), self.res.val()), ("ctor".into(), self.ctor.val()), ("parsel_input".into(), self.parsel_input.val()), ("Upper".into(), self.Upper.val()), ("naïve".into(), self.naïve.val()), ("alloc".into(), self.alloc.val())]) }
    }
}
pub mod b23 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Stream {  Unknown(#[parsel(recursive)] F,  Paren<Paren<F>>,  S),  Z( I) }
    impl HasG for Stream {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Stream", ctor: "Unknown", fields: vec![("0", <F as HasG>::g()), ("1", <Paren<Paren<F>> as HasG>::g()), ("2", <S as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Z", fields: vec![("0", <I as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Stream::Unknown (x_0, x_1, x_2) => Val::Node("Stream::Unknown".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Stream::Z (x_0) => Val::Node("Stream::Z".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b24 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Fork(/// d
 #[parsel(recursive)] /// e
 pub D, /// documented
 LeftAssoc<P, ST2<I, D>>, #[parsel(recursive)] pub(crate) P,  pub D,  pub(crate) Q);
    impl HasG for Fork {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Fork", fields: vec![("0", <D as HasG>::g()), ("1", <LeftAssoc<P, ST2<I, D>> as HasG>::g()), ("2", <P as HasG>::g()), ("3", <D as HasG>::g()), ("4", <Q as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Fork".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val())]) }
    }
}
pub mod b25 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Lower_case { #[doc(hidden)] Stream( Box<Bracket<P>>,  Box<syn::LitStr>) }
    impl HasG for Lower_case {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Lower_case", ctor: "Stream", fields: vec![("0", <Box<Bracket<P>> as HasG>::g()), ("1", <Box<syn::LitStr> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Lower_case::Stream (x_0, x_1) => Val::Node("Lower_case::Stream".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]) } }
    }
}
pub mod b26 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct X {  tokens: S,  pub(super) prev: D, #[allow(dead_code, unused)] pub begin_token: D,  tmp: P,  pub cursor: S, #[parsel(recursive = true)] 名前: syn::LitStr,  pub(crate) r#fn: I, #[parsel(recursive = true)] pub vx: I, #[parsel(recursive)] pub(super) this: D,  b: F,  pub parsel_input: C, /// d
 #[parsel(recursive)] /// e
 pub(super) __field0: S,  pub s: F, #[parsel(recursive)] pub bindings: I,  pub(crate) recursive: I,  pub(super) r#let: I, /// documented
 pub parsel: F, /// d
 #[parsel(recursive)] /// e
 pub _1: D,  pub(super) f: D, /// documented
 eof: F,  pub(crate) message: S, #[allow(dead_code)] #[parsel(recursive)] peek: P,  pub fields: I,  pub _0: P }
    impl HasG for X {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "X", fields: vec![("tokens", <S as HasG>::g()), ("prev", <D as HasG>::g()), ("begin_token", <D as HasG>::g()), ("tmp", <P as HasG>::g()), ("cursor", <S as HasG>::g()), ("名前", <syn::LitStr as HasG>::g()), ("r#fn", <I as HasG>::g()), ("vx", <I as HasG>::g()), ("this", <D as HasG>::g()), ("b", <F as HasG>::g()), ("parsel_input", <C as HasG>::g()), ("__field0", <S as HasG>::g()), ("s", <F as HasG>::g()), ("bindings", <I as HasG>::g()), ("recursive", <I as HasG>::g()), ("r#let", <I as HasG>::g()), ("parsel", <F as HasG>::g()), ("_1", <D as HasG>::g()), ("f", <D as HasG>::g()), ("eof", <F as HasG>::g()), ("message", <S as HasG>::g()), ("peek", <P as HasG>::g()), ("fields", <I as HasG>::g()), ("_0", <P as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("X".into(), vec![("tokens".into(), self.tokens.val()), ("prev".into(), self.prev.val()), ("begin_token".into(), self.begin_token.val()), ("tmp".into(), self.tmp.val()), ("cursor".into(), self.cursor.val()), ("名前".into(), self.名前.val()), ("r#fn".into(), self.r#fn.val()), ("vx".into(), self.vx.val()), ("this".into(), self.this.val()), ("b".into(), self.b.val()), ("parsel_input".into(), self.parsel_input.val()), ("__field0".into(), self.__field0.val()), ("s".into(), self.s.val()), ("bindings".into(), self.bindings.val()), ("recursive".into(), self.recursive.val()), ("r#let".into(), self.r#let.val()), ("parsel".into(), self.parsel.val()), ("_1".into(), self._1.val()), ("f".into(), self.f.val()), ("eof".into(), self.eof.val()), ("message".into(), self.message.val()), ("peek".into(), self.peek.val()), ("fields".into(), self.fields.val()), ("_0".into(), self._0.val())]) }
    }
}
pub mod b27 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Tokens {  Input {  n: I, /// d
 #[parsel(recursive)] /// e
 y: S, #[parsel(recursive)] parsel_field_X_0: Q, },  K( I,  F),  Any { #[cfg(all())] r#dyn: S,  cause: D,  enum_name: I },  Tuple( D,  Q,  syn::LitStr, #[doc(hidden)] F),  Expr(#[cfg(all())] C,  S, #[doc(hidden)] Q, #[allow(dead_code, unused)] Q,  F), /// documented
 Fork(#[parsel(recursive)] b23::Stream, /// documented
 D),  Core(#[doc(hidden)] syn::LitStr, #[parsel(recursive)] syn::LitStr,  I, #[parsel(recursive)] S),  T(#[parsel(recursive)] C,  Q,  syn::LitStr,  S,  I),  Node(/// documented
 D, #[parsel(recursive)] D,  Punctuated<D, C>, #[parsel(recursive = false)] P),  Many( P,  I,  I, #[cfg(all())] F, #[parsel(recursive)] S,  D, #[cfg(all())] S, #[doc(hidden)] syn::LitStr, /// d
 #[parsel(recursive)] /// e
 S, #[parsel(recursive)] D, /// documented
 I,  D,  I, /// documented
 P, #[cfg(all())] D,  Either<syn::LitStr, I>,  D) }
    impl HasG for Tokens {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Tokens", ctor: "Input", fields: vec![("n", <I as HasG>::g()), ("y", <S as HasG>::g()), ("parsel_field_X_0", <Q as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "K", fields: vec![("0", <I as HasG>::g()), ("1", <F as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "Any", fields: vec![("r#dyn", <S as HasG>::g()), ("cause", <D as HasG>::g()), ("enum_name", <I as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "Tuple", fields: vec![("0", <D as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <syn::LitStr as HasG>::g()), ("3", <F as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "Expr", fields: vec![("0", <C as HasG>::g()), ("1", <S as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <Q as HasG>::g()), ("4", <F as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "Fork", fields: vec![("0", <b23::Stream as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "Core", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <I as HasG>::g()), ("3", <S as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "T", fields: vec![("0", <C as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <syn::LitStr as HasG>::g()), ("3", <S as HasG>::g()), ("4", <I as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "Node", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g()), ("2", <Punctuated<D, C> as HasG>::g()), ("3", <P as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "Many", fields: vec![("0", <P as HasG>::g()), ("1", <I as HasG>::g()), ("2", <I as HasG>::g()), ("3", <F as HasG>::g()), ("4", <S as HasG>::g()), ("5", <D as HasG>::g()), ("6", <S as HasG>::g()), ("7", <syn::LitStr as HasG>::g()), ("8", <S as HasG>::g()), ("9", <D as HasG>::g()), ("10", <I as HasG>::g()), ("11", <D as HasG>::g()), ("12", <I as HasG>::g()), ("13", <P as HasG>::g()), ("14", <D as HasG>::g()), ("15", <Either<syn::LitStr, I> as HasG>::g()), ("16", <D as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Tokens::Input { n: x_0, y: x_1, parsel_field_X_0: x_2 } => Val::Node("Tokens::Input".into(), vec![("n".into(), x_0.val()), ("y".into(), x_1.val()), ("parsel_field_X_0".into(), x_2.val())]), Tokens::K (x_0, x_1) => Val::Node("Tokens::K".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Tokens::Any { r#dyn: x_0, cause: x_1, enum_name: x_2 } => Val::Node("Tokens::Any".into(), vec![("r#dyn".into(), x_0.val()), ("cause".into(), x_1.val()), ("enum_name".into(), x_2.val())]), Tokens::Tuple (x_0, x_1, x_2, x_3) => Val::Node("Tokens::Tuple".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Tokens::Expr (x_0, x_1, x_2, x_3, x_4) => Val::Node("Tokens::Expr".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Tokens::Fork (x_0, x_1) => Val::Node("Tokens::Fork".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Tokens::Core (x_0, x_1, x_2, x_3) => Val::Node("Tokens::Core".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Tokens::T (x_0, x_1, x_2, x_3, x_4) => Val::Node("Tokens::T".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Tokens::Node (x_0, x_1, x_2, x_3) => Val::Node("Tokens::Node".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Tokens::Many (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10, x_11, x_12, x_13, x_14, x_15, x_16) => Val::Node("Tokens::Many".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val()), ("11".into(), x_11.val()), ("12".into(), x_12.val()), ("13".into(), x_13.val()), ("14".into(), x_14.val()), ("15".into(), x_15.val()), ("16".into(), x_16.val())]) } }
    }
}
pub mod b28 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Expr { #[parsel(recursive = true)] y: Either<Paren<I>, syn::LitStr>, }
    impl HasG for Expr {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Expr", fields: vec![("y", <Either<Paren<I>, syn::LitStr> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Expr".into(), vec![("y".into(), self.y.val())]) }
    }
}
pub mod b29 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum T {  Y {  r#let: D,  ctor_name: P, #[parsel(recursive = false)] std: C, #[parsel(recursive = false)] right: P,  field_index: C, },  Some {  bounds: Q, },  Named( S),  Expr(),  Enum { #[parsel(recursive)] recursive: D,  a: D, /// d
 #[parsel(recursive)] /// e
 r#mut: P },  Ok2 {  first: S,  s: S },  Parse(#[cfg(all())] Q),  Self_(#[parsel(recursive)] I,  P), #[allow(dead_code)] Eof,  Default(#[allow(dead_code)] #[parsel(recursive)] D,  I),  T( I, #[parsel(recursive = true)] syn::LitStr),  Error2( F), /// documented
 Recursive( C,  syn::LitStr,  I),  Value { #[parsel(recursive = true)] f: S,  r#box: D, #[parsel(recursive)] data: D },  Punct,  Unknown(#[parsel(recursive)] D) }
    impl HasG for T {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "T", ctor: "Y", fields: vec![("r#let", <D as HasG>::g()), ("ctor_name", <P as HasG>::g()), ("std", <C as HasG>::g()), ("right", <P as HasG>::g()), ("field_index", <C as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Some", fields: vec![("bounds", <Q as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Named", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Expr", fields: vec![] }, Gm::Seq { en: "T", ctor: "Enum", fields: vec![("recursive", <D as HasG>::g()), ("a", <D as HasG>::g()), ("r#mut", <P as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Ok2", fields: vec![("first", <S as HasG>::g()), ("s", <S as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Parse", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Self_", fields: vec![("0", <I as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Eof", fields: vec![] }, Gm::Seq { en: "T", ctor: "Default", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "T", ctor: "T", fields: vec![("0", <I as HasG>::g()), ("1", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Error2", fields: vec![("0", <F as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Recursive", fields: vec![("0", <C as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Value", fields: vec![("f", <S as HasG>::g()), ("r#box", <D as HasG>::g()), ("data", <D as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Punct", fields: vec![] }, Gm::Seq { en: "T", ctor: "Unknown", fields: vec![("0", <D as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { T::Y { r#let: x_0, ctor_name: x_1, std: x_2, right: x_3, field_index: x_4 } => Val::Node("T::Y".into(), vec![("r#let".into(), x_0.val()), ("ctor_name".into(), x_1.val()), ("std".into(), x_2.val()), ("right".into(), x_3.val()), ("field_index".into(), x_4.val())]), T::Some { bounds: x_0 } => Val::Node("T::Some".into(), vec![("bounds".into(), x_0.val())]), T::Named (x_0) => Val::Node("T::Named".into(), vec![("0".into(), x_0.val())]), T::Expr () => Val::Node("T::Expr".into(), vec![]), T::Enum { recursive: x_0, a: x_1, r#mut: x_2 } => Val::Node("T::Enum".into(), vec![("recursive".into(), x_0.val()), ("a".into(), x_1.val()), ("r#mut".into(), x_2.val())]), T::Ok2 { first: x_0, s: x_1 } => Val::Node("T::Ok2".into(), vec![("first".into(), x_0.val()), ("s".into(), x_1.val())]), T::Parse (x_0) => Val::Node("T::Parse".into(), vec![("0".into(), x_0.val())]), T::Self_ (x_0, x_1) => Val::Node("T::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), T::Eof  => Val::Node("T::Eof".into(), vec![]), T::Default (x_0, x_1) => Val::Node("T::Default".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), T::T (x_0, x_1) => Val::Node("T::T".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), T::Error2 (x_0) => Val::Node("T::Error2".into(), vec![("0".into(), x_0.val())]), T::Recursive (x_0, x_1, x_2) => Val::Node("T::Recursive".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), T::Value { f: x_0, r#box: x_1, data: x_2 } => Val::Node("T::Value".into(), vec![("f".into(), x_0.val()), ("r#box".into(), x_1.val()), ("data".into(), x_2.val())]), T::Punct  => Val::Node("T::Punct".into(), vec![]), T::Unknown (x_0) => Val::Node("T::Unknown".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b30 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct X { #[parsel(recursive)] pub(super) x: Brace<D>,  名前: Box<P>, #[parsel(recursive = true)] start: Q,  pub(super) ret: I,  pub parser: C, /// documented
 pub res: I,  eof: I }
    impl HasG for X {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "X", fields: vec![("x", <Brace<D> as HasG>::g()), ("名前", <Box<P> as HasG>::g()), ("start", <Q as HasG>::g()), ("ret", <I as HasG>::g()), ("parser", <C as HasG>::g()), ("res", <I as HasG>::g()), ("eof", <I as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("X".into(), vec![("x".into(), self.x.val()), ("名前".into(), self.名前.val()), ("start".into(), self.start.val()), ("ret".into(), self.ret.val()), ("parser".into(), self.parser.val()), ("res".into(), self.res.val()), ("eof".into(), self.eof.val())]) }
    }
}
pub mod b31 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Wrapper {  V1 { #[cfg(all())] ast_node: F },  Punct { #[doc(hidden)] parsel_field_0: F,  __field0: D, #[parsel(recursive = false)] r#fn: D, #[allow(dead_code, unused)] cause: Separated<E2<I, D>, P>,  bounds: P,  名前: I,  string: Q, #[doc(hidden)] ast_node: syn::LitStr,  r#match: C, }, #[doc(hidden)] Vec2( Q),  Syn( Q,  Maybe<Q, D>), #[allow(dead_code)] Core { #[parsel(recursive = false)] iter: P,  r#async: S,  fields: C,  first: I,  core: D, } }
    impl HasG for Wrapper {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Wrapper", ctor: "V1", fields: vec![("ast_node", <F as HasG>::g())] }, Gm::Seq { en: "Wrapper", ctor: "Punct", fields: vec![("parsel_field_0", <F as HasG>::g()), ("__field0", <D as HasG>::g()), ("r#fn", <D as HasG>::g()), ("cause", <Separated<E2<I, D>, P> as HasG>::g()), ("bounds", <P as HasG>::g()), ("名前", <I as HasG>::g()), ("string", <Q as HasG>::g()), ("ast_node", <syn::LitStr as HasG>::g()), ("r#match", <C as HasG>::g())] }, Gm::Seq { en: "Wrapper", ctor: "Vec2", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Wrapper", ctor: "Syn", fields: vec![("0", <Q as HasG>::g()), ("1", <Maybe<Q, D> as HasG>::g())] }, Gm::Seq { en: "Wrapper", ctor: "Core", fields: vec![("iter", <P as HasG>::g()), ("r#async", <S as HasG>::g()), ("fields", <C as HasG>::g()), ("first", <I as HasG>::g()), ("core", <D as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Wrapper::V1 { ast_node: x_0 } => Val::Node("Wrapper::V1".into(), vec![("ast_node".into(), x_0.val())]), Wrapper::Punct { parsel_field_0: x_0, __field0: x_1, r#fn: x_2, cause: x_3, bounds: x_4, 名前: x_5, string: x_6, ast_node: x_7, r#match: x_8 } => Val::Node("Wrapper::Punct".into(), vec![("parsel_field_0".into(), x_0.val()), ("__field0".into(), x_1.val()), ("r#fn".into(), x_2.val()), ("cause".into(), x_3.val()), ("bounds".into(), x_4.val()), ("名前".into(), x_5.val()), ("string".into(), x_6.val()), ("ast_node".into(), x_7.val()), ("r#match".into(), x_8.val())]), Wrapper::Vec2 (x_0) => Val::Node("Wrapper::Vec2".into(), vec![("0".into(), x_0.val())]), Wrapper::Syn (x_0, x_1) => Val::Node("Wrapper::Syn".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Wrapper::Core { iter: x_0, r#async: x_1, fields: x_2, first: x_3, core: x_4 } => Val::Node("Wrapper::Core".into(), vec![("iter".into(), x_0.val()), ("r#async".into(), x_1.val()), ("fields".into(), x_2.val()), ("first".into(), x_3.val()), ("core".into(), x_4.val())]) } }
    }
}
pub mod b32 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Parser2;
    impl HasG for Parser2 {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Parser2", fields: vec![] } }
        fn val(&self) -> Val { Val::Node("Parser2".into(), vec![]) }
    }
}
pub mod b33 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Cause {  Some(#[doc(hidden)] I,  D),  Err( P,  Q, /// d
 #[parsel(recursive)] /// e
 C),  Parse,  Ok2 {  field_index: D, #[parsel(recursive = true)] vec: P, /// documented
 r#use: Q, #[cfg(all())] parsel_field_X_0: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] op: F,  lhs: C, #[parsel(recursive)] prev: S,  r: P, #[cfg(all())] x: D, }, #[allow(dead_code)] B( F,  I, /// d
 #[parsel(recursive)] /// e
 Q,  C, /// d
 #[parsel(recursive)] /// e
 C, #[allow(dead_code)] #[parsel(recursive)] P, #[allow(dead_code)] #[parsel(recursive)] P, /// documented
 syn::LitStr, /// d
 #[parsel(recursive)] /// e
 D), #[allow(dead_code)] Named {  _1: P,  r#fn: Maybe<P, Any<Paren<I>>>,  r#dyn: syn::LitStr,  op: I, #[allow(dead_code)] #[parsel(recursive)] Upper: D, }, /// documented
 Token(#[parsel(recursive)] F, /// d
 #[parsel(recursive)] /// e
 C,  C, #[parsel(recursive = false)] syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] D,  I,  I),  A {  r#impl: I, #[cfg(all())] next: syn::LitStr, #[doc(hidden)] input: S },  Expr { #[allow(dead_code)] #[parsel(recursive)] cause: S,  __self: D,  r#if: C, #[parsel(recursive = true)] r#try: S,  y: D },  Recursive(#[allow(dead_code, unused)] syn::LitStr, #[parsel(recursive)] I),  Fn( Q), #[allow(dead_code)] Enum(/// documented
 S,  P),  Input( S, #[parsel(recursive)] D), #[allow(dead_code)] under_score(#[parsel(recursive = true)] Q), /// documented
 Maybe( S,  Paren<Box<syn::LitStr>>, #[parsel(recursive = false)] D,  S), #[cfg(all())] Vec2(#[allow(dead_code, unused)] C, #[parsel(recursive)] F), #[doc(hidden)] Default( I),  Struct { /// documented
 r#enum: syn::LitStr,  lhs: D,  r#type: F,  fmt: D }, /// documented
 V1( C), #[cfg(all())] Z(#[allow(dead_code)] #[parsel(recursive)] Q),  Syn { #[allow(dead_code)] #[parsel(recursive)] prefix: Punctuated<ST2<I, D>, P>,  quote: S, #[parsel(recursive)] enum_name: syn::LitStr, #[parsel(recursive)] iter: D, },  V0,  NotEof {  r#for: D,  tmp: P, },  U( Q),  Self_( D, /// d
 #[parsel(recursive)] /// e
 C,  Q),  Variant {  head: D },  Ident { #[parsel(recursive)] ok: syn::LitStr,  cursor: D },  Été {  r#where: Box<Punctuated<I, C>>,  ctor: P,  default: C, },  Punct( P,  S,  P, #[parsel(recursive = false)] F), #[allow(dead_code)] lower { #[allow(dead_code, unused)] result: I,  peek: syn::LitStr }, #[allow(dead_code)] Any( I), #[allow(dead_code)] Tokens( D, /// documented
 Q),  Fork }
    impl HasG for Cause {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Cause", ctor: "Some", fields: vec![("0", <I as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Err", fields: vec![("0", <P as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <C as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Parse", fields: vec![] }, Gm::Seq { en: "Cause", ctor: "Ok2", fields: vec![("field_index", <D as HasG>::g()), ("vec", <P as HasG>::g()), ("r#use", <Q as HasG>::g()), ("parsel_field_X_0", <syn::LitStr as HasG>::g()), ("op", <F as HasG>::g()), ("lhs", <C as HasG>::g()), ("prev", <S as HasG>::g()), ("r", <P as HasG>::g()), ("x", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "B", fields: vec![("0", <F as HasG>::g()), ("1", <I as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <syn::LitStr as HasG>::g()), ("8", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Named", fields: vec![("_1", <P as HasG>::g()), ("r#fn", <Maybe<P, Any<Paren<I>>> as HasG>::g()), ("r#dyn", <syn::LitStr as HasG>::g()), ("op", <I as HasG>::g()), ("Upper", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Token", fields: vec![("0", <F as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <syn::LitStr as HasG>::g()), ("4", <D as HasG>::g()), ("5", <I as HasG>::g()), ("6", <I as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "A", fields: vec![("r#impl", <I as HasG>::g()), ("next", <syn::LitStr as HasG>::g()), ("input", <S as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Expr", fields: vec![("cause", <S as HasG>::g()), ("__self", <D as HasG>::g()), ("r#if", <C as HasG>::g()), ("r#try", <S as HasG>::g()), ("y", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Recursive", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Fn", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Enum", fields: vec![("0", <S as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Input", fields: vec![("0", <S as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "under_score", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Maybe", fields: vec![("0", <S as HasG>::g()), ("1", <Paren<Box<syn::LitStr>> as HasG>::g()), ("2", <D as HasG>::g()), ("3", <S as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Vec2", fields: vec![("0", <C as HasG>::g()), ("1", <F as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Default", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Struct", fields: vec![("r#enum", <syn::LitStr as HasG>::g()), ("lhs", <D as HasG>::g()), ("r#type", <F as HasG>::g()), ("fmt", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "V1", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Z", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Syn", fields: vec![("prefix", <Punctuated<ST2<I, D>, P> as HasG>::g()), ("quote", <S as HasG>::g()), ("enum_name", <syn::LitStr as HasG>::g()), ("iter", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "V0", fields: vec![] }, Gm::Seq { en: "Cause", ctor: "NotEof", fields: vec![("r#for", <D as HasG>::g()), ("tmp", <P as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "U", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Self_", fields: vec![("0", <D as HasG>::g()), ("1", <C as HasG>::g()), ("2", <Q as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Variant", fields: vec![("head", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Ident", fields: vec![("ok", <syn::LitStr as HasG>::g()), ("cursor", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Été", fields: vec![("r#where", <Box<Punctuated<I, C>> as HasG>::g()), ("ctor", <P as HasG>::g()), ("default", <C as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Punct", fields: vec![("0", <P as HasG>::g()), ("1", <S as HasG>::g()), ("2", <P as HasG>::g()), ("3", <F as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "lower", fields: vec![("result", <I as HasG>::g()), ("peek", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Any", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Tokens", fields: vec![("0", <D as HasG>::g()), ("1", <Q as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Fork", fields: vec![] }]) }
        fn val(&self) -> Val { match self { Cause::Some (x_0, x_1) => Val::Node("Cause::Some".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cause::Err (x_0, x_1, x_2) => Val::Node("Cause::Err".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Cause::Parse  => Val::Node("Cause::Parse".into(), vec![]), Cause::Ok2 { field_index: x_0, vec: x_1, r#use: x_2, parsel_field_X_0: x_3, op: x_4, lhs: x_5, prev: x_6, r: x_7, x: x_8 } => Val::Node("Cause::Ok2".into(), vec![("field_index".into(), x_0.val()), ("vec".into(), x_1.val()), ("r#use".into(), x_2.val()), ("parsel_field_X_0".into(), x_3.val()), ("op".into(), x_4.val()), ("lhs".into(), x_5.val()), ("prev".into(), x_6.val()), ("r".into(), x_7.val()), ("x".into(), x_8.val())]), Cause::B (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Cause::B".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Cause::Named { _1: x_0, r#fn: x_1, r#dyn: x_2, op: x_3, Upper: x_4 } => Val::Node("Cause::Named".into(), vec![("_1".into(), x_0.val()), ("r#fn".into(), x_1.val()), ("r#dyn".into(), x_2.val()), ("op".into(), x_3.val()), ("Upper".into(), x_4.val())]), Cause::Token (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Cause::Token".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Cause::A { r#impl: x_0, next: x_1, input: x_2 } => Val::Node("Cause::A".into(), vec![("r#impl".into(), x_0.val()), ("next".into(), x_1.val()), ("input".into(), x_2.val())]), Cause::Expr { cause: x_0, __self: x_1, r#if: x_2, r#try: x_3, y: x_4 } => Val::Node("Cause::Expr".into(), vec![("cause".into(), x_0.val()), ("__self".into(), x_1.val()), ("r#if".into(), x_2.val()), ("r#try".into(), x_3.val()), ("y".into(), x_4.val())]), Cause::Recursive (x_0, x_1) => Val::Node("Cause::Recursive".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cause::Fn (x_0) => Val::Node("Cause::Fn".into(), vec![("0".into(), x_0.val())]), Cause::Enum (x_0, x_1) => Val::Node("Cause::Enum".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cause::Input (x_0, x_1) => Val::Node("Cause::Input".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cause::under_score (x_0) => Val::Node("Cause::under_score".into(), vec![("0".into(), x_0.val())]), Cause::Maybe (x_0, x_1, x_2, x_3) => Val::Node("Cause::Maybe".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Cause::Vec2 (x_0, x_1) => Val::Node("Cause::Vec2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cause::Default (x_0) => Val::Node("Cause::Default".into(), vec![("0".into(), x_0.val())]), Cause::Struct { r#enum: x_0, lhs: x_1, r#type: x_2, fmt: x_3 } => Val::Node("Cause::Struct".into(), vec![("r#enum".into(), x_0.val()), ("lhs".into(), x_1.val()), ("r#type".into(), x_2.val()), ("fmt".into(), x_3.val())]), Cause::V1 (x_0) => Val::Node("Cause::V1".into(), vec![("0".into(), x_0.val())]), Cause::Z (x_0) => Val::Node("Cause::Z".into(), vec![("0".into(), x_0.val())]), Cause::Syn { prefix: x_0, quote: x_1, enum_name: x_2, iter: x_3 } => Val::Node("Cause::Syn".into(), vec![("prefix".into(), x_0.val()), ("quote".into(), x_1.val()), ("enum_name".into(), x_2.val()), ("iter".into(), x_3.val())]), Cause::V0  => Val::Node("Cause::V0".into(), vec![]), Cause::NotEof { r#for: x_0, tmp: x_1 } => Val::Node("Cause::NotEof".into(), vec![("r#for".into(), x_0.val()), ("tmp".into(), x_1.val())]), Cause::U (x_0) => Val::Node("Cause::U".into(), vec![("0".into(), x_0.val())]), Cause::Self_ (x_0, x_1, x_2) => Val::Node("Cause::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Cause::Variant { head: x_0 } => Val::Node("Cause::Variant".into(), vec![("head".into(), x_0.val())]), Cause::Ident { ok: x_0, cursor: x_1 } => Val::Node("Cause::Ident".into(), vec![("ok".into(), x_0.val()), ("cursor".into(), x_1.val())]), Cause::Été { r#where: x_0, ctor: x_1, default: x_2 } => Val::Node("Cause::Été".into(), vec![("r#where".into(), x_0.val()), ("ctor".into(), x_1.val()), ("default".into(), x_2.val())]), Cause::Punct (x_0, x_1, x_2, x_3) => Val::Node("Cause::Punct".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Cause::lower { result: x_0, peek: x_1 } => Val::Node("Cause::lower".into(), vec![("result".into(), x_0.val()), ("peek".into(), x_1.val())]), Cause::Any (x_0) => Val::Node("Cause::Any".into(), vec![("0".into(), x_0.val())]), Cause::Tokens (x_0, x_1) => Val::Node("Cause::Tokens".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cause::Fork  => Val::Node("Cause::Fork".into(), vec![]) } }
    }
}
pub mod b34 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Q_ {  pub r#move: Q, #[parsel(recursive)] pub key: F,  pub head: b6::Abc, /// documented
 pub(crate) s: Either<Paren<I>, Q>,  pub v: syn::LitStr,  pub ty: Paren<syn::LitStr>,  pub Upper: Any<D>,  pub opt: S, #[allow(dead_code, unused)] pub parsel_input: P, }
    impl HasG for Q_ {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Q_", fields: vec![("r#move", <Q as HasG>::g()), ("key", <F as HasG>::g()), ("head", <b6::Abc as HasG>::g()), ("s", <Either<Paren<I>, Q> as HasG>::g()), ("v", <syn::LitStr as HasG>::g()), ("ty", <Paren<syn::LitStr> as HasG>::g()), ("Upper", <Any<D> as HasG>::g()), ("opt", <S as HasG>::g()), ("parsel_input", <P as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Q_".into(), vec![("r#move".into(), self.r#move.val()), ("key".into(), self.key.val()), ("head".into(), self.head.val()), ("s".into(), self.s.val()), ("v".into(), self.v.val()), ("ty".into(), self.ty.val()), ("Upper".into(), self.Upper.val()), ("opt".into(), self.opt.val()), ("parsel_input".into(), self.parsel_input.val())]) }
    }
}
pub mod b35 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum U {  V0( D),  Paren { /// d
 #[parsel(recursive)] /// e
 x1: syn::LitStr },  Self_( syn::LitStr,  I,  Q,  C, #[doc(hidden)] D),  Ok(#[allow(dead_code)] #[parsel(recursive)] I,  I, /// d
 #[parsel(recursive)] /// e
 I),  Unknown(#[parsel(recursive)] I),  Parse_,  Fork {  len: D,  x1: Box<D> }, /// documented
 Option2 {  }, #[doc(hidden)] Parsel { /// d
 #[parsel(recursive)] /// e
 parsel_field_0: I, /// d
 #[parsel(recursive)] /// e
 parsel_tokens: D,  message: syn::LitStr,  bindings: C,  ret: D,  a: b9::Error_, /// d
 #[parsel(recursive)] /// e
 e: S, },  under_score { #[parsel(recursive = false)] head: S,  fields: F,  __field0: D, }, #[doc(hidden)] V1( D, #[parsel(recursive)] I),  Maybe { #[allow(dead_code, unused)] name: D, },  String2(#[allow(dead_code)] #[parsel(recursive)] syn::LitStr, #[parsel(recursive = false)] P, #[allow(dead_code, unused)] P),  K(/// d
 #[parsel(recursive)] /// e
 F,  Q),  Recursive {  formatter: I },  Group {  rhs: Q, },  Ident( C), #[doc(hidden)] A {  r#loop: P, #[doc(hidden)] left: F,  i: Q, #[doc(hidden)] ok: S, #[cfg(all())] fork: C }, /// documented
 T( D,  D,  C),  Item { /// documented
 string: C,  key: Q, #[doc(hidden)] cause: syn::LitStr,  enum_name: D },  X_0 { #[parsel(recursive = false)] r#type: P, #[allow(dead_code)] #[parsel(recursive)] b: I, /// documented
 o: I, #[parsel(recursive)] core: I, #[allow(dead_code)] #[parsel(recursive)] lhs: F, #[allow(dead_code, unused)] len: syn::LitStr, /// d
 #[parsel(recursive)] /// e
 parsel: F, #[parsel(recursive = false)] field_str: Q,  ok: syn::LitStr, #[parsel(recursive)] empty: Q,  to_tokens: C, #[parsel(recursive = false)] parsel_field_X_0: I,  r#box: C, #[parsel(recursive = false)] inner: F, #[parsel(recursive = false)] ty_name: syn::LitStr,  a: P,  ret: D,  tt: C, #[cfg(all())] variant_name: S, /// documented
 ctor_name: Q },  Some( C,  I), /// documented
 Enum {  _1: syn::LitStr },  Err( F, #[parsel(recursive)] I,  Punctuated<syn::LitStr, P>, /// documented
 syn::LitStr,  C, /// documented
 syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] D, #[parsel(recursive = true)] I, #[parsel(recursive = true)] P),  Y(#[allow(dead_code, unused)] C,  I) }
    impl HasG for U {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "U", ctor: "V0", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Paren", fields: vec![("x1", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Self_", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <I as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <C as HasG>::g()), ("4", <D as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Ok", fields: vec![("0", <I as HasG>::g()), ("1", <I as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Unknown", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Parse_", fields: vec![] }, Gm::Seq { en: "U", ctor: "Fork", fields: vec![("len", <D as HasG>::g()), ("x1", <Box<D> as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Option2", fields: vec![] }, Gm::Seq { en: "U", ctor: "Parsel", fields: vec![("parsel_field_0", <I as HasG>::g()), ("parsel_tokens", <D as HasG>::g()), ("message", <syn::LitStr as HasG>::g()), ("bindings", <C as HasG>::g()), ("ret", <D as HasG>::g()), ("a", <b9::Error_ as HasG>::g()), ("e", <S as HasG>::g())] }, Gm::Seq { en: "U", ctor: "under_score", fields: vec![("head", <S as HasG>::g()), ("fields", <F as HasG>::g()), ("__field0", <D as HasG>::g())] }, Gm::Seq { en: "U", ctor: "V1", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Maybe", fields: vec![("name", <D as HasG>::g())] }, Gm::Seq { en: "U", ctor: "String2", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g())] }, Gm::Seq { en: "U", ctor: "K", fields: vec![("0", <F as HasG>::g()), ("1", <Q as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Recursive", fields: vec![("formatter", <I as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Group", fields: vec![("rhs", <Q as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Ident", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "U", ctor: "A", fields: vec![("r#loop", <P as HasG>::g()), ("left", <F as HasG>::g()), ("i", <Q as HasG>::g()), ("ok", <S as HasG>::g()), ("fork", <C as HasG>::g())] }, Gm::Seq { en: "U", ctor: "T", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g()), ("2", <C as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Item", fields: vec![("string", <C as HasG>::g()), ("key", <Q as HasG>::g()), ("cause", <syn::LitStr as HasG>::g()), ("enum_name", <D as HasG>::g())] }, Gm::Seq { en: "U", ctor: "X_0", fields: vec![("r#type", <P as HasG>::g()), ("b", <I as HasG>::g()), ("o", <I as HasG>::g()), ("core", <I as HasG>::g()), ("lhs", <F as HasG>::g()), ("len", <syn::LitStr as HasG>::g()), ("parsel", <F as HasG>::g()), ("field_str", <Q as HasG>::g()), ("ok", <syn::LitStr as HasG>::g()), ("empty", <Q as HasG>::g()), ("to_tokens", <C as HasG>::g()), ("parsel_field_X_0", <I as HasG>::g()), ("r#box", <C as HasG>::g()), ("inner", <F as HasG>::g()), ("ty_name", <syn::LitStr as HasG>::g()), ("a", <P as HasG>::g()), ("ret", <D as HasG>::g()), ("tt", <C as HasG>::g()), ("variant_name", <S as HasG>::g()), ("ctor_name", <Q as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Some", fields: vec![("0", <C as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Enum", fields: vec![("_1", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Err", fields: vec![("0", <F as HasG>::g()), ("1", <I as HasG>::g()), ("2", <Punctuated<syn::LitStr, P> as HasG>::g()), ("3", <syn::LitStr as HasG>::g()), ("4", <C as HasG>::g()), ("5", <syn::LitStr as HasG>::g()), ("6", <D as HasG>::g()), ("7", <I as HasG>::g()), ("8", <P as HasG>::g())] }, Gm::Seq { en: "U", ctor: "Y", fields: vec![("0", <C as HasG>::g()), ("1", <I as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { U::V0 (x_0) => Val::Node("U::V0".into(), vec![("0".into(), x_0.val())]), U::Paren { x1: x_0 } => Val::Node("U::Paren".into(), vec![("x1".into(), x_0.val())]), U::Self_ (x_0, x_1, x_2, x_3, x_4) => Val::Node("U::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), U::Ok (x_0, x_1, x_2) => Val::Node("U::Ok".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), U::Unknown (x_0) => Val::Node("U::Unknown".into(), vec![("0".into(), x_0.val())]), U::Parse_  => Val::Node("U::Parse_".into(), vec![]), U::Fork { len: x_0, x1: x_1 } => Val::Node("U::Fork".into(), vec![("len".into(), x_0.val()), ("x1".into(), x_1.val())]), U::Option2 {  } => Val::Node("U::Option2".into(), vec![]), U::Parsel { parsel_field_0: x_0, parsel_tokens: x_1, message: x_2, bindings: x_3, ret: x_4, a: x_5, e: x_6 } => Val::Node("U::Parsel".into(), vec![("parsel_field_0".into(), x_0.val()), ("parsel_tokens".into(), x_1.val()), ("message".into(), x_2.val()), ("bindings".into(), x_3.val()), ("ret".into(), x_4.val()), ("a".into(), x_5.val()), ("e".into(), x_6.val())]), U::under_score { head: x_0, fields: x_1, __field0: x_2 } => Val::Node("U::under_score".into(), vec![("head".into(), x_0.val()), ("fields".into(), x_1.val()), ("__field0".into(), x_2.val())]), U::V1 (x_0, x_1) => Val::Node("U::V1".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), U::Maybe { name: x_0 } => Val::Node("U::Maybe".into(), vec![("name".into(), x_0.val())]), U::String2 (x_0, x_1, x_2) => Val::Node("U::String2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), U::K (x_0, x_1) => Val::Node("U::K".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), U::Recursive { formatter: x_0 } => Val::Node("U::Recursive".into(), vec![("formatter".into(), x_0.val())]), U::Group { rhs: x_0 } => Val::Node("U::Group".into(), vec![("rhs".into(), x_0.val())]), U::Ident (x_0) => Val::Node("U::Ident".into(), vec![("0".into(), x_0.val())]), U::A { r#loop: x_0, left: x_1, i: x_2, ok: x_3, fork: x_4 } => Val::Node("U::A".into(), vec![("r#loop".into(), x_0.val()), ("left".into(), x_1.val()), ("i".into(), x_2.val()), ("ok".into(), x_3.val()), ("fork".into(), x_4.val())]), U::T (x_0, x_1, x_2) => Val::Node("U::T".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), U::Item { string: x_0, key: x_1, cause: x_2, enum_name: x_3 } => Val::Node("U::Item".into(), vec![("string".into(), x_0.val()), ("key".into(), x_1.val()), ("cause".into(), x_2.val()), ("enum_name".into(), x_3.val())]), U::X_0 { r#type: x_0, b: x_1, o: x_2, core: x_3, lhs: x_4, len: x_5, parsel: x_6, field_str: x_7, ok: x_8, empty: x_9, to_tokens: x_10, parsel_field_X_0: x_11, r#box: x_12, inner: x_13, ty_name: x_14, a: x_15, ret: x_16, tt: x_17, variant_name: x_18, ctor_name: x_19 } => Val::Node("U::X_0".into(), vec![("r#type".into(), x_0.val()), ("b".into(), x_1.val()), ("o".into(), x_2.val()), ("core".into(), x_3.val()), ("lhs".into(), x_4.val()), ("len".into(), x_5.val()), ("parsel".into(), x_6.val()), ("field_str".into(), x_7.val()), ("ok".into(), x_8.val()), ("empty".into(), x_9.val()), ("to_tokens".into(), x_10.val()), ("parsel_field_X_0".into(), x_11.val()), ("r#box".into(), x_12.val()), ("inner".into(), x_13.val()), ("ty_name".into(), x_14.val()), ("a".into(), x_15.val()), ("ret".into(), x_16.val()), ("tt".into(), x_17.val()), ("variant_name".into(), x_18.val()), ("ctor_name".into(), x_19.val())]), U::Some (x_0, x_1) => Val::Node("U::Some".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), U::Enum { _1: x_0 } => Val::Node("U::Enum".into(), vec![("_1".into(), x_0.val())]), U::Err (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("U::Err".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), U::Y (x_0, x_1) => Val::Node("U::Y".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]) } }
    }
}
pub mod b36 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Chain_( pub(crate) Q,  F,  Punctuated<Paren<I>, P>, #[parsel(recursive)] pub F,  pub(super) syn::LitStr);
    impl HasG for Chain_ {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Chain_", fields: vec![("0", <Q as HasG>::g()), ("1", <F as HasG>::g()), ("2", <Punctuated<Paren<I>, P> as HasG>::g()), ("3", <F as HasG>::g()), ("4", <syn::LitStr as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Chain_".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val())]) }
    }
}
pub mod b37 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Abc {  X_0( Brace<syn::LitStr>, #[parsel(recursive = false)] I,  RightAssoc<P, I>, #[parsel(recursive = false)] RightAssoc<P, I>,  Either<I, P>, #[allow(dead_code, unused)] Box<D>,  I,  Maybe<P, RightAssoc<P, D>>, #[parsel(recursive = true)] Q),  Item(#[allow(dead_code, unused)] P,  Separated<ST2<I, D>, P>,  RightAssoc<P, Paren<I>>,  Either<D, Q>),  Span( D,  RightAssoc<P, I>,  D,  Box<Box<I>>,  Q,  I,  I, #[parsel(recursive = false)] F, #[parsel(recursive = false)] Maybe<Q, Box<P>>) }
    impl HasG for Abc {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Abc", ctor: "X_0", fields: vec![("0", <Brace<syn::LitStr> as HasG>::g()), ("1", <I as HasG>::g()), ("2", <RightAssoc<P, I> as HasG>::g()), ("3", <RightAssoc<P, I> as HasG>::g()), ("4", <Either<I, P> as HasG>::g()), ("5", <Box<D> as HasG>::g()), ("6", <I as HasG>::g()), ("7", <Maybe<P, RightAssoc<P, D>> as HasG>::g()), ("8", <Q as HasG>::g())] }, Gm::Seq { en: "Abc", ctor: "Item", fields: vec![("0", <P as HasG>::g()), ("1", <Separated<ST2<I, D>, P> as HasG>::g()), ("2", <RightAssoc<P, Paren<I>> as HasG>::g()), ("3", <Either<D, Q> as HasG>::g())] }, Gm::Seq { en: "Abc", ctor: "Span", fields: vec![("0", <D as HasG>::g()), ("1", <RightAssoc<P, I> as HasG>::g()), ("2", <D as HasG>::g()), ("3", <Box<Box<I>> as HasG>::g()), ("4", <Q as HasG>::g()), ("5", <I as HasG>::g()), ("6", <I as HasG>::g()), ("7", <F as HasG>::g()), ("8", <Maybe<Q, Box<P>> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Abc::X_0 (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Abc::X_0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Abc::Item (x_0, x_1, x_2, x_3) => Val::Node("Abc::Item".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Abc::Span (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Abc::Span".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]) } }
    }
}
pub mod b38 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Production { /// d
 #[parsel(recursive)] /// e
 pub ty: F }
    impl HasG for Production {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Production", fields: vec![("ty", <F as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Production".into(), vec![("ty".into(), self.ty.val())]) }
    }
}
pub mod b39 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Cursor2 { /// documented
 Tokens(#[cfg(all())] Q, /// documented
 Q,  D,  C,  Q, #[cfg(all())] Q, #[cfg(all())] D, #[allow(dead_code)] #[parsel(recursive)] P, /// d
 #[parsel(recursive)] /// e
 S,  S,  P,  P,  P,  P, #[allow(dead_code, unused)] C, #[cfg(all())] syn::LitStr),  Empty { #[parsel(recursive = false)] index: P, /// d
 #[parsel(recursive)] /// e
 ctor_name: I },  None( I, /// documented
 syn::LitStr),  Expr(#[allow(dead_code, unused)] I, #[allow(dead_code)] #[parsel(recursive)] P, /// documented
 Q,  D,  I),  Value(#[parsel(recursive)] P,  I, #[doc(hidden)] F),  Maybe { #[allow(dead_code, unused)] recursive: I,  none: P, /// d
 #[parsel(recursive)] /// e
 e1: D, },  Vec2( I,  I,  S),  B {  node: C,  opt: S, #[cfg(all())] k: I, #[parsel(recursive = false)] std: I, } }
    impl HasG for Cursor2 {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Cursor2", ctor: "Tokens", fields: vec![("0", <Q as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <D as HasG>::g()), ("3", <C as HasG>::g()), ("4", <Q as HasG>::g()), ("5", <Q as HasG>::g()), ("6", <D as HasG>::g()), ("7", <P as HasG>::g()), ("8", <S as HasG>::g()), ("9", <S as HasG>::g()), ("10", <P as HasG>::g()), ("11", <P as HasG>::g()), ("12", <P as HasG>::g()), ("13", <P as HasG>::g()), ("14", <C as HasG>::g()), ("15", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Empty", fields: vec![("index", <P as HasG>::g()), ("ctor_name", <I as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "None", fields: vec![("0", <I as HasG>::g()), ("1", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Expr", fields: vec![("0", <I as HasG>::g()), ("1", <P as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <D as HasG>::g()), ("4", <I as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Value", fields: vec![("0", <P as HasG>::g()), ("1", <I as HasG>::g()), ("2", <F as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Maybe", fields: vec![("recursive", <I as HasG>::g()), ("none", <P as HasG>::g()), ("e1", <D as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Vec2", fields: vec![("0", <I as HasG>::g()), ("1", <I as HasG>::g()), ("2", <S as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "B", fields: vec![("node", <C as HasG>::g()), ("opt", <S as HasG>::g()), ("k", <I as HasG>::g()), ("std", <I as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Cursor2::Tokens (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10, x_11, x_12, x_13, x_14, x_15) => Val::Node("Cursor2::Tokens".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val()), ("11".into(), x_11.val()), ("12".into(), x_12.val()), ("13".into(), x_13.val()), ("14".into(), x_14.val()), ("15".into(), x_15.val())]), Cursor2::Empty { index: x_0, ctor_name: x_1 } => Val::Node("Cursor2::Empty".into(), vec![("index".into(), x_0.val()), ("ctor_name".into(), x_1.val())]), Cursor2::None (x_0, x_1) => Val::Node("Cursor2::None".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cursor2::Expr (x_0, x_1, x_2, x_3, x_4) => Val::Node("Cursor2::Expr".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Cursor2::Value (x_0, x_1, x_2) => Val::Node("Cursor2::Value".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Cursor2::Maybe { recursive: x_0, none: x_1, e1: x_2 } => Val::Node("Cursor2::Maybe".into(), vec![("recursive".into(), x_0.val()), ("none".into(), x_1.val()), ("e1".into(), x_2.val())]), Cursor2::Vec2 (x_0, x_1, x_2) => Val::Node("Cursor2::Vec2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Cursor2::B { node: x_0, opt: x_1, k: x_2, std: x_3 } => Val::Node("Cursor2::B".into(), vec![("node".into(), x_0.val()), ("opt".into(), x_1.val()), ("k".into(), x_2.val()), ("std".into(), x_3.val())]) } }
    }
}
pub mod b40 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct W;
    impl HasG for W {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "W", fields: vec![] } }
        fn val(&self) -> Val { Val::Node("W".into(), vec![]) }
    }
}
pub mod b41 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Sequence { #[cfg(all())] Err {  right: syn::LitStr, /// d
 #[parsel(recursive)] /// e
 iter: Box<Q>,  opt: D }, #[doc(hidden)] String2 { #[cfg(all())] ident: I, #[parsel(recursive)] bindings: Q }, /// documented
 Input { #[allow(dead_code, unused)] key: syn::LitStr, #[allow(dead_code, unused)] i: D, /// d
 #[parsel(recursive)] /// e
 ctor_name: P },  Tokens {  r#loop: D, #[parsel(recursive = false)] e1: P, /// documented
 ok: D, }, #[cfg(all())] B {  string: syn::LitStr, #[parsel(recursive)] span: D,  head: I,  r#type: Q, /// d
 #[parsel(recursive)] /// e
 some: D, /// documented
 key: F,  body2: P },  Core( D,  F, #[allow(dead_code, unused)] D,  S, #[parsel(recursive)] Maybe<P, Punctuated<ST2<I, D>, P>>,  I,  syn::LitStr,  syn::LitStr,  I), #[allow(dead_code)] under_score( F),  Item( I,  I,  Q),  T { #[parsel(recursive)] buf: I,  lookahead: I, #[parsel(recursive = true)] vx: Maybe<P, P>, },  Right( I, #[parsel(recursive)] C,  P),  Left,  Parsel {  r#mut: I }, /// documented
 Unknown {  cursor: Q,  out: I, #[parsel(recursive)] r#pub: D,  größe: D },  A { /// documented
 tokens: D },  Expr( I),  V0( C, #[cfg(all())] D,  D, #[allow(dead_code, unused)] Q),  Paren { #[parsel(recursive)] prev: C,  default: S, },  Ident, #[cfg(all())] Option2( I),  Syn(/// d
 #[parsel(recursive)] /// e
 F,  I),  Y {  e: D, #[doc(hidden)] lookahead: Separated<D, P>, #[parsel(recursive)] val: D, #[cfg(all())] lhs: C, },  Enum {  attrs: P, }, /// documented
 Default, #[doc(hidden)] Eof { /// documented
 prev: Q,  outer: D, #[parsel(recursive)] recursive: syn::LitStr },  Other(#[allow(dead_code)] #[parsel(recursive)] I),  Stream {  string: C,  start: syn::LitStr, #[cfg(all())] vec: F, #[cfg(all())] buf: P, #[parsel(recursive)] outer: F },  Group(/// documented
 D, /// d
 #[parsel(recursive)] /// e
 S,  I, #[doc(hidden)] D, #[cfg(all())] syn::LitStr,  D,  Q, #[parsel(recursive = true)] P,  P),  Node {  名前: C },  Ok { /// documented
 some: syn::LitStr, }, #[cfg(all())] Error2( S), #[cfg(all())] Boxed( I, #[allow(dead_code)] #[parsel(recursive)] P),  Many( F, #[parsel(recursive = false)] Q, #[parsel(recursive)] C),  Type {  r#else: D, } }
    impl HasG for Sequence {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Sequence", ctor: "Err", fields: vec![("right", <syn::LitStr as HasG>::g()), ("iter", <Box<Q> as HasG>::g()), ("opt", <D as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "String2", fields: vec![("ident", <I as HasG>::g()), ("bindings", <Q as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Input", fields: vec![("key", <syn::LitStr as HasG>::g()), ("i", <D as HasG>::g()), ("ctor_name", <P as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Tokens", fields: vec![("r#loop", <D as HasG>::g()), ("e1", <P as HasG>::g()), ("ok", <D as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "B", fields: vec![("string", <syn::LitStr as HasG>::g()), ("span", <D as HasG>::g()), ("head", <I as HasG>::g()), ("r#type", <Q as HasG>::g()), ("some", <D as HasG>::g()), ("key", <F as HasG>::g()), ("body2", <P as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Core", fields: vec![("0", <D as HasG>::g()), ("1", <F as HasG>::g()), ("2", <D as HasG>::g()), ("3", <S as HasG>::g()), ("4", <Maybe<P, Punctuated<ST2<I, D>, P>> as HasG>::g()), ("5", <I as HasG>::g()), ("6", <syn::LitStr as HasG>::g()), ("7", <syn::LitStr as HasG>::g()), ("8", <I as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "under_score", fields: vec![("0", <F as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Item", fields: vec![("0", <I as HasG>::g()), ("1", <I as HasG>::g()), ("2", <Q as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "T", fields: vec![("buf", <I as HasG>::g()), ("lookahead", <I as HasG>::g()), ("vx", <Maybe<P, P> as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Right", fields: vec![("0", <I as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Left", fields: vec![] }, Gm::Seq { en: "Sequence", ctor: "Parsel", fields: vec![("r#mut", <I as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Unknown", fields: vec![("cursor", <Q as HasG>::g()), ("out", <I as HasG>::g()), ("r#pub", <D as HasG>::g()), ("größe", <D as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "A", fields: vec![("tokens", <D as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Expr", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "V0", fields: vec![("0", <C as HasG>::g()), ("1", <D as HasG>::g()), ("2", <D as HasG>::g()), ("3", <Q as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Paren", fields: vec![("prev", <C as HasG>::g()), ("default", <S as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Ident", fields: vec![] }, Gm::Seq { en: "Sequence", ctor: "Option2", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Syn", fields: vec![("0", <F as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Y", fields: vec![("e", <D as HasG>::g()), ("lookahead", <Separated<D, P> as HasG>::g()), ("val", <D as HasG>::g()), ("lhs", <C as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Enum", fields: vec![("attrs", <P as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Default", fields: vec![] }, Gm::Seq { en: "Sequence", ctor: "Eof", fields: vec![("prev", <Q as HasG>::g()), ("outer", <D as HasG>::g()), ("recursive", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Other", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Stream", fields: vec![("string", <C as HasG>::g()), ("start", <syn::LitStr as HasG>::g()), ("vec", <F as HasG>::g()), ("buf", <P as HasG>::g()), ("outer", <F as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Group", fields: vec![("0", <D as HasG>::g()), ("1", <S as HasG>::g()), ("2", <I as HasG>::g()), ("3", <D as HasG>::g()), ("4", <syn::LitStr as HasG>::g()), ("5", <D as HasG>::g()), ("6", <Q as HasG>::g()), ("7", <P as HasG>::g()), ("8", <P as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Node", fields: vec![("名前", <C as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Ok", fields: vec![("some", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Error2", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Boxed", fields: vec![("0", <I as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Many", fields: vec![("0", <F as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <C as HasG>::g())] }, Gm::Seq { en: "Sequence", ctor: "Type", fields: vec![("r#else", <D as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Sequence::Err { right: x_0, iter: x_1, opt: x_2 } => Val::Node("Sequence::Err".into(), vec![("right".into(), x_0.val()), ("iter".into(), x_1.val()), ("opt".into(), x_2.val())]), Sequence::String2 { ident: x_0, bindings: x_1 } => Val::Node("Sequence::String2".into(), vec![("ident".into(), x_0.val()), ("bindings".into(), x_1.val())]), Sequence::Input { key: x_0, i: x_1, ctor_name: x_2 } => Val::Node("Sequence::Input".into(), vec![("key".into(), x_0.val()), ("i".into(), x_1.val()), ("ctor_name".into(), x_2.val())]), Sequence::Tokens { r#loop: x_0, e1: x_1, ok: x_2 } => Val::Node("Sequence::Tokens".into(), vec![("r#loop".into(), x_0.val()), ("e1".into(), x_1.val()), ("ok".into(), x_2.val())]), Sequence::B { string: x_0, span: x_1, head: x_2, r#type: x_3, some: x_4, key: x_5, body2: x_6 } => Val::Node("Sequence::B".into(), vec![("string".into(), x_0.val()), ("span".into(), x_1.val()), ("head".into(), x_2.val()), ("r#type".into(), x_3.val()), ("some".into(), x_4.val()), ("key".into(), x_5.val()), ("body2".into(), x_6.val())]), Sequence::Core (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Sequence::Core".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Sequence::under_score (x_0) => Val::Node("Sequence::under_score".into(), vec![("0".into(), x_0.val())]), Sequence::Item (x_0, x_1, x_2) => Val::Node("Sequence::Item".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Sequence::T { buf: x_0, lookahead: x_1, vx: x_2 } => Val::Node("Sequence::T".into(), vec![("buf".into(), x_0.val()), ("lookahead".into(), x_1.val()), ("vx".into(), x_2.val())]), Sequence::Right (x_0, x_1, x_2) => Val::Node("Sequence::Right".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Sequence::Left  => Val::Node("Sequence::Left".into(), vec![]), Sequence::Parsel { r#mut: x_0 } => Val::Node("Sequence::Parsel".into(), vec![("r#mut".into(), x_0.val())]), Sequence::Unknown { cursor: x_0, out: x_1, r#pub: x_2, größe: x_3 } => Val::Node("Sequence::Unknown".into(), vec![("cursor".into(), x_0.val()), ("out".into(), x_1.val()), ("r#pub".into(), x_2.val()), ("größe".into(), x_3.val())]), Sequence::A { tokens: x_0 } => Val::Node("Sequence::A".into(), vec![("tokens".into(), x_0.val())]), Sequence::Expr (x_0) => Val::Node("Sequence::Expr".into(), vec![("0".into(), x_0.val())]), Sequence::V0 (x_0, x_1, x_2, x_3) => Val::Node("Sequence::V0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Sequence::Paren { prev: x_0, default: x_1 } => Val::Node("Sequence::Paren".into(), vec![("prev".into(), x_0.val()), ("default".into(), x_1.val())]), Sequence::Ident  => Val::Node("Sequence::Ident".into(), vec![]), Sequence::Option2 (x_0) => Val::Node("Sequence::Option2".into(), vec![("0".into(), x_0.val())]), Sequence::Syn (x_0, x_1) => Val::Node("Sequence::Syn".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Sequence::Y { e: x_0, lookahead: x_1, val: x_2, lhs: x_3 } => Val::Node("Sequence::Y".into(), vec![("e".into(), x_0.val()), ("lookahead".into(), x_1.val()), ("val".into(), x_2.val()), ("lhs".into(), x_3.val())]), Sequence::Enum { attrs: x_0 } => Val::Node("Sequence::Enum".into(), vec![("attrs".into(), x_0.val())]), Sequence::Default  => Val::Node("Sequence::Default".into(), vec![]), Sequence::Eof { prev: x_0, outer: x_1, recursive: x_2 } => Val::Node("Sequence::Eof".into(), vec![("prev".into(), x_0.val()), ("outer".into(), x_1.val()), ("recursive".into(), x_2.val())]), Sequence::Other (x_0) => Val::Node("Sequence::Other".into(), vec![("0".into(), x_0.val())]), Sequence::Stream { string: x_0, start: x_1, vec: x_2, buf: x_3, outer: x_4 } => Val::Node("Sequence::Stream".into(), vec![("string".into(), x_0.val()), ("start".into(), x_1.val()), ("vec".into(), x_2.val()), ("buf".into(), x_3.val()), ("outer".into(), x_4.val())]), Sequence::Group (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Sequence::Group".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Sequence::Node { 名前: x_0 } => Val::Node("Sequence::Node".into(), vec![("名前".into(), x_0.val())]), Sequence::Ok { some: x_0 } => Val::Node("Sequence::Ok".into(), vec![("some".into(), x_0.val())]), Sequence::Error2 (x_0) => Val::Node("Sequence::Error2".into(), vec![("0".into(), x_0.val())]), Sequence::Boxed (x_0, x_1) => Val::Node("Sequence::Boxed".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Sequence::Many (x_0, x_1, x_2) => Val::Node("Sequence::Many".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Sequence::Type { r#else: x_0 } => Val::Node("Sequence::Type".into(), vec![("r#else".into(), x_0.val())]) } }
    }
}
pub mod b42 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Tree {  pub(crate) key: syn::LitStr, /// d
 #[parsel(recursive)] /// e
 span: Any<D>,  pub cursor: Q, #[parsel(recursive = true)] pub(super) _1: Either<syn::LitStr, S>, #[allow(dead_code, unused)] pub stream: I }
    impl HasG for Tree {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Tree", fields: vec![("key", <syn::LitStr as HasG>::g()), ("span", <Any<D> as HasG>::g()), ("cursor", <Q as HasG>::g()), ("_1", <Either<syn::LitStr, S> as HasG>::g()), ("stream", <I as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Tree".into(), vec![("key".into(), self.key.val()), ("span".into(), self.span.val()), ("cursor".into(), self.cursor.val()), ("_1".into(), self._1.val()), ("stream".into(), self.stream.val())]) }
    }
}
pub mod b43 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Value {  Item( Punctuated<I, C>,  Maybe<C, Paren<P>>,  Paren<S>,  D,  Punctuated<I, C>, #[parsel(recursive)] LeftAssoc<P, syn::LitStr>,  b7::Item, #[doc(hidden)] Maybe<P, I>, #[parsel(recursive = true)] Any<I>,  Either<I, F>, #[parsel(recursive = false)] Maybe<S, D>), #[doc(hidden)] Type( Punctuated<E2<I, D>, P>,  b12::Node,  P), #[allow(dead_code)] Été(#[parsel(recursive)] syn::LitStr,  b41::Sequence, #[allow(dead_code, unused)] C, #[doc(hidden)] Any<D>,  LeftAssoc<P, ST2<I, D>>, #[allow(dead_code)] #[parsel(recursive)] b0::Q_, #[cfg(all())] Box<Box<I>>), /// documented
 Error2 {  bounds: RightAssoc<P, D>, #[cfg(all())] that: S,  r#struct: LeftAssoc<P, E2<I, D>>, #[allow(dead_code, unused)] parsel_field_X_0: Separated<I, C>, #[cfg(all())] result: b28::Expr, } }
    impl HasG for Value {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Value", ctor: "Item", fields: vec![("0", <Punctuated<I, C> as HasG>::g()), ("1", <Maybe<C, Paren<P>> as HasG>::g()), ("2", <Paren<S> as HasG>::g()), ("3", <D as HasG>::g()), ("4", <Punctuated<I, C> as HasG>::g()), ("5", <LeftAssoc<P, syn::LitStr> as HasG>::g()), ("6", <b7::Item as HasG>::g()), ("7", <Maybe<P, I> as HasG>::g()), ("8", <Any<I> as HasG>::g()), ("9", <Either<I, F> as HasG>::g()), ("10", <Maybe<S, D> as HasG>::g())] }, Gm::Seq { en: "Value", ctor: "Type", fields: vec![("0", <Punctuated<E2<I, D>, P> as HasG>::g()), ("1", <b12::Node as HasG>::g()), ("2", <P as HasG>::g())] }, Gm::Seq { en: "Value", ctor: "Été", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <b41::Sequence as HasG>::g()), ("2", <C as HasG>::g()), ("3", <Any<D> as HasG>::g()), ("4", <LeftAssoc<P, ST2<I, D>> as HasG>::g()), ("5", <b0::Q_ as HasG>::g()), ("6", <Box<Box<I>> as HasG>::g())] }, Gm::Seq { en: "Value", ctor: "Error2", fields: vec![("bounds", <RightAssoc<P, D> as HasG>::g()), ("that", <S as HasG>::g()), ("r#struct", <LeftAssoc<P, E2<I, D>> as HasG>::g()), ("parsel_field_X_0", <Separated<I, C> as HasG>::g()), ("result", <b28::Expr as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Value::Item (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10) => Val::Node("Value::Item".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val())]), Value::Type (x_0, x_1, x_2) => Val::Node("Value::Type".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Value::Été (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Value::Été".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Value::Error2 { bounds: x_0, that: x_1, r#struct: x_2, parsel_field_X_0: x_3, result: x_4 } => Val::Node("Value::Error2".into(), vec![("bounds".into(), x_0.val()), ("that".into(), x_1.val()), ("r#struct".into(), x_2.val()), ("parsel_field_X_0".into(), x_3.val()), ("result".into(), x_4.val())]) } }
    }
}
pub mod b44 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Leaf( pub Either<I, C>, #[parsel(recursive)] pub(super) D,  pub RightAssoc<P, I>,  pub(crate) F,  pub(super) D);
    impl HasG for Leaf {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Leaf", fields: vec![("0", <Either<I, C> as HasG>::g()), ("1", <D as HasG>::g()), ("2", <RightAssoc<P, I> as HasG>::g()), ("3", <F as HasG>::g()), ("4", <D as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Leaf".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val())]) }
    }
}
pub mod b45 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Fork {  V0( Any<Paren<I>>) }
    impl HasG for Fork {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Fork", ctor: "V0", fields: vec![("0", <Any<Paren<I>> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Fork::V0 (x_0) => Val::Node("Fork::V0".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b46 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Parser2( pub(super) I,  pub Separated<D, C>);
    impl HasG for Parser2 {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Parser2", fields: vec![("0", <I as HasG>::g()), ("1", <Separated<D, C> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Parser2".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val())]) }
    }
}
pub mod b47 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Stream {  Many(#[doc(hidden)] S, #[doc(hidden)] D,  D,  I, /// d
 #[parsel(recursive)] /// e
 I), #[cfg(all())] Parse {  recursive: F },  Core( D,  P),  Syn { #[parsel(recursive = false)] attrs: b28::Expr, #[parsel(recursive = true)] ast_node: F, #[allow(dead_code)] #[parsel(recursive)] r#move: syn::LitStr }, #[doc(hidden)] Struct( D,  P), #[allow(dead_code)] Stream {  right: F,  name: syn::LitStr },  Parsel {  sep: I,  r#final: D,  rest: S,  some: S, #[parsel(recursive = true)] cursor: Q, #[parsel(recursive = false)] std: syn::LitStr, #[parsel(recursive = false)] iter: C,  field: syn::LitStr,  error: D, },  NotEof {  camelCase: D, #[allow(dead_code, unused)] field_index: D, #[parsel(recursive = true)] vx: D },  String2(#[parsel(recursive = false)] I,  C),  Tuple(),  Ok2( syn::LitStr,  S, #[allow(dead_code)] #[parsel(recursive)] F),  Z { #[cfg(all())] r#fn: Q,  end: C,  vec: P,  none: F, /// documented
 k: syn::LitStr, #[allow(dead_code, unused)] variant: D,  token: F, },  Any( D,  D),  U {  this: Q,  last: P,  parsel_field_X_0: I }, #[doc(hidden)] K { #[parsel(recursive)] err: S, /// documented
 r#final: I },  Type( F,  D, #[parsel(recursive = true)] D,  I) }
    impl HasG for Stream {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Stream", ctor: "Many", fields: vec![("0", <S as HasG>::g()), ("1", <D as HasG>::g()), ("2", <D as HasG>::g()), ("3", <I as HasG>::g()), ("4", <I as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Parse", fields: vec![("recursive", <F as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Core", fields: vec![("0", <D as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Syn", fields: vec![("attrs", <b28::Expr as HasG>::g()), ("ast_node", <F as HasG>::g()), ("r#move", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Struct", fields: vec![("0", <D as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Stream", fields: vec![("right", <F as HasG>::g()), ("name", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Parsel", fields: vec![("sep", <I as HasG>::g()), ("r#final", <D as HasG>::g()), ("rest", <S as HasG>::g()), ("some", <S as HasG>::g()), ("cursor", <Q as HasG>::g()), ("std", <syn::LitStr as HasG>::g()), ("iter", <C as HasG>::g()), ("field", <syn::LitStr as HasG>::g()), ("error", <D as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "NotEof", fields: vec![("camelCase", <D as HasG>::g()), ("field_index", <D as HasG>::g()), ("vx", <D as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "String2", fields: vec![("0", <I as HasG>::g()), ("1", <C as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Tuple", fields: vec![] }, Gm::Seq { en: "Stream", ctor: "Ok2", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <S as HasG>::g()), ("2", <F as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Z", fields: vec![("r#fn", <Q as HasG>::g()), ("end", <C as HasG>::g()), ("vec", <P as HasG>::g()), ("none", <F as HasG>::g()), ("k", <syn::LitStr as HasG>::g()), ("variant", <D as HasG>::g()), ("token", <F as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Any", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "U", fields: vec![("this", <Q as HasG>::g()), ("last", <P as HasG>::g()), ("parsel_field_X_0", <I as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "K", fields: vec![("err", <S as HasG>::g()), ("r#final", <I as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Type", fields: vec![("0", <F as HasG>::g()), ("1", <D as HasG>::g()), ("2", <D as HasG>::g()), ("3", <I as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Stream::Many (x_0, x_1, x_2, x_3, x_4) => Val::Node("Stream::Many".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Stream::Parse { recursive: x_0 } => Val::Node("Stream::Parse".into(), vec![("recursive".into(), x_0.val())]), Stream::Core (x_0, x_1) => Val::Node("Stream::Core".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Stream::Syn { attrs: x_0, ast_node: x_1, r#move: x_2 } => Val::Node("Stream::Syn".into(), vec![("attrs".into(), x_0.val()), ("ast_node".into(), x_1.val()), ("r#move".into(), x_2.val())]), Stream::Struct (x_0, x_1) => Val::Node("Stream::Struct".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Stream::Stream { right: x_0, name: x_1 } => Val::Node("Stream::Stream".into(), vec![("right".into(), x_0.val()), ("name".into(), x_1.val())]), Stream::Parsel { sep: x_0, r#final: x_1, rest: x_2, some: x_3, cursor: x_4, std: x_5, iter: x_6, field: x_7, error: x_8 } => Val::Node("Stream::Parsel".into(), vec![("sep".into(), x_0.val()), ("r#final".into(), x_1.val()), ("rest".into(), x_2.val()), ("some".into(), x_3.val()), ("cursor".into(), x_4.val()), ("std".into(), x_5.val()), ("iter".into(), x_6.val()), ("field".into(), x_7.val()), ("error".into(), x_8.val())]), Stream::NotEof { camelCase: x_0, field_index: x_1, vx: x_2 } => Val::Node("Stream::NotEof".into(), vec![("camelCase".into(), x_0.val()), ("field_index".into(), x_1.val()), ("vx".into(), x_2.val())]), Stream::String2 (x_0, x_1) => Val::Node("Stream::String2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Stream::Tuple () => Val::Node("Stream::Tuple".into(), vec![]), Stream::Ok2 (x_0, x_1, x_2) => Val::Node("Stream::Ok2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Stream::Z { r#fn: x_0, end: x_1, vec: x_2, none: x_3, k: x_4, variant: x_5, token: x_6 } => Val::Node("Stream::Z".into(), vec![("r#fn".into(), x_0.val()), ("end".into(), x_1.val()), ("vec".into(), x_2.val()), ("none".into(), x_3.val()), ("k".into(), x_4.val()), ("variant".into(), x_5.val()), ("token".into(), x_6.val())]), Stream::Any (x_0, x_1) => Val::Node("Stream::Any".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Stream::U { this: x_0, last: x_1, parsel_field_X_0: x_2 } => Val::Node("Stream::U".into(), vec![("this".into(), x_0.val()), ("last".into(), x_1.val()), ("parsel_field_X_0".into(), x_2.val())]), Stream::K { err: x_0, r#final: x_1 } => Val::Node("Stream::K".into(), vec![("err".into(), x_0.val()), ("r#final".into(), x_1.val())]), Stream::Type (x_0, x_1, x_2, x_3) => Val::Node("Stream::Type".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]) } }
    }
}
pub mod b48 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Variant;
    impl HasG for Variant {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Variant", fields: vec![] } }
        fn val(&self) -> Val { Val::Node("Variant".into(), vec![]) }
    }
}
pub mod b49 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Cause { /// documented
 Result2(#[allow(dead_code, unused)] P,  D, /// d
 #[parsel(recursive)] /// e
 I, #[allow(dead_code)] #[parsel(recursive)] D,  P,  D, #[parsel(recursive = true)] S,  I,  F),  Recursive(#[parsel(recursive)] C, #[allow(dead_code, unused)] P,  D),  Any(#[doc(hidden)] D,  D),  Stmt( C,  I,  syn::LitStr,  C,  D), #[cfg(all())] Struct { #[parsel(recursive = false)] r#box: I,  key: P,  r#in: I },  Ok2( C,  I, /// documented
 F),  Type(#[cfg(all())] D,  I),  Eof( F) }
    impl HasG for Cause {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Cause", ctor: "Result2", fields: vec![("0", <P as HasG>::g()), ("1", <D as HasG>::g()), ("2", <I as HasG>::g()), ("3", <D as HasG>::g()), ("4", <P as HasG>::g()), ("5", <D as HasG>::g()), ("6", <S as HasG>::g()), ("7", <I as HasG>::g()), ("8", <F as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Recursive", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Any", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Stmt", fields: vec![("0", <C as HasG>::g()), ("1", <I as HasG>::g()), ("2", <syn::LitStr as HasG>::g()), ("3", <C as HasG>::g()), ("4", <D as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Struct", fields: vec![("r#box", <I as HasG>::g()), ("key", <P as HasG>::g()), ("r#in", <I as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Ok2", fields: vec![("0", <C as HasG>::g()), ("1", <I as HasG>::g()), ("2", <F as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Type", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Cause", ctor: "Eof", fields: vec![("0", <F as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Cause::Result2 (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Cause::Result2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Cause::Recursive (x_0, x_1, x_2) => Val::Node("Cause::Recursive".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Cause::Any (x_0, x_1) => Val::Node("Cause::Any".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cause::Stmt (x_0, x_1, x_2, x_3, x_4) => Val::Node("Cause::Stmt".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Cause::Struct { r#box: x_0, key: x_1, r#in: x_2 } => Val::Node("Cause::Struct".into(), vec![("r#box".into(), x_0.val()), ("key".into(), x_1.val()), ("r#in".into(), x_2.val())]), Cause::Ok2 (x_0, x_1, x_2) => Val::Node("Cause::Ok2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Cause::Type (x_0, x_1) => Val::Node("Cause::Type".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cause::Eof (x_0) => Val::Node("Cause::Eof".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b50 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Value(#[doc(hidden)] pub(super) Box<E2Prefix<I, C, D>>,  Paren<SN2<I, D>>,  pub(super) Maybe<S, Any<E2<I, D>>>,  pub Any<I>,  C);
    impl HasG for Value {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Value", fields: vec![("0", <Box<E2Prefix<I, C, D>> as HasG>::g()), ("1", <Paren<SN2<I, D>> as HasG>::g()), ("2", <Maybe<S, Any<E2<I, D>>> as HasG>::g()), ("3", <Any<I> as HasG>::g()), ("4", <C as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Value".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val())]) }
    }
}
pub mod b51 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Lower_case {  B( D), #[cfg(all())] Expr(/// documented
 D, #[parsel(recursive)] I), #[doc(hidden)] Parsel(#[parsel(recursive = false)] F,  Any<D>,  C),  None( I), #[doc(hidden)] Maybe( C), #[allow(dead_code)] Self_( P, #[cfg(all())] D),  Eof, #[doc(hidden)] Z( Paren<I>),  Variant {  名前: S,  rest: I,  result: S,  n: I,  r#enum: D,  recursive: D,  formatter: P, #[cfg(all())] left: F, #[parsel(recursive)] cursor: Q,  eof: S, #[parsel(recursive)] r#mut: D,  std: Q,  __field0: I,  naïve: I, #[allow(dead_code, unused)] r#try: D,  tt: Q,  ty_name: syn::LitStr, /// documented
 body: I, #[allow(dead_code)] #[parsel(recursive)] parsel_tokens: F, #[parsel(recursive)] fields: Q },  Span(#[parsel(recursive)] F) }
    impl HasG for Lower_case {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Lower_case", ctor: "B", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Expr", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Parsel", fields: vec![("0", <F as HasG>::g()), ("1", <Any<D> as HasG>::g()), ("2", <C as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "None", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Maybe", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Self_", fields: vec![("0", <P as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Eof", fields: vec![] }, Gm::Seq { en: "Lower_case", ctor: "Z", fields: vec![("0", <Paren<I> as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Variant", fields: vec![("名前", <S as HasG>::g()), ("rest", <I as HasG>::g()), ("result", <S as HasG>::g()), ("n", <I as HasG>::g()), ("r#enum", <D as HasG>::g()), ("recursive", <D as HasG>::g()), ("formatter", <P as HasG>::g()), ("left", <F as HasG>::g()), ("cursor", <Q as HasG>::g()), ("eof", <S as HasG>::g()), ("r#mut", <D as HasG>::g()), ("std", <Q as HasG>::g()), ("__field0", <I as HasG>::g()), ("naïve", <I as HasG>::g()), ("r#try", <D as HasG>::g()), ("tt", <Q as HasG>::g()), ("ty_name", <syn::LitStr as HasG>::g()), ("body", <I as HasG>::g()), ("parsel_tokens", <F as HasG>::g()), ("fields", <Q as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Span", fields: vec![("0", <F as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Lower_case::B (x_0) => Val::Node("Lower_case::B".into(), vec![("0".into(), x_0.val())]), Lower_case::Expr (x_0, x_1) => Val::Node("Lower_case::Expr".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Lower_case::Parsel (x_0, x_1, x_2) => Val::Node("Lower_case::Parsel".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Lower_case::None (x_0) => Val::Node("Lower_case::None".into(), vec![("0".into(), x_0.val())]), Lower_case::Maybe (x_0) => Val::Node("Lower_case::Maybe".into(), vec![("0".into(), x_0.val())]), Lower_case::Self_ (x_0, x_1) => Val::Node("Lower_case::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Lower_case::Eof  => Val::Node("Lower_case::Eof".into(), vec![]), Lower_case::Z (x_0) => Val::Node("Lower_case::Z".into(), vec![("0".into(), x_0.val())]), Lower_case::Variant { 名前: x_0, rest: x_1, result: x_2, n: x_3, r#enum: x_4, recursive: x_5, formatter: x_6, left: x_7, cursor: x_8, eof: x_9, r#mut: x_10, std: x_11, __field0: x_12, naïve: x_13, r#try: x_14, tt: x_15, ty_name: x_16, body: x_17, parsel_tokens: x_18, fields: x_19 } => Val::Node("Lower_case::Variant".into(), vec![("名前".into(), x_0.val()), ("rest".into(), x_1.val()), ("result".into(), x_2.val()), ("n".into(), x_3.val()), ("r#enum".into(), x_4.val()), ("recursive".into(), x_5.val()), ("formatter".into(), x_6.val()), ("left".into(), x_7.val()), ("cursor".into(), x_8.val()), ("eof".into(), x_9.val()), ("r#mut".into(), x_10.val()), ("std".into(), x_11.val()), ("__field0".into(), x_12.val()), ("naïve".into(), x_13.val()), ("r#try".into(), x_14.val()), ("tt".into(), x_15.val()), ("ty_name".into(), x_16.val()), ("body".into(), x_17.val()), ("parsel_tokens".into(), x_18.val()), ("fields".into(), x_19.val())]), Lower_case::Span (x_0) => Val::Node("Lower_case::Span".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b52 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Y;
    impl HasG for Y {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Y", fields: vec![] } }
        fn val(&self) -> Val { Val::Node("Y".into(), vec![]) }
    }
}
pub mod b53 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Cursor2 {  Tokens( syn::LitStr), #[allow(dead_code)] A {  variant_name: D },  U(), #[doc(hidden)] Default { #[allow(dead_code, unused)] r#in: D },  Parse_ {  len: P,  recursive: syn::LitStr, }, /// documented
 Right {  message: RightAssoc<P, D>,  key: F, /// documented
 lhs: syn::LitStr, },  Item(#[parsel(recursive = true)] I,  D, #[allow(dead_code)] #[parsel(recursive)] I), #[doc(hidden)] V0( b3::Choice,  I, /// d
 #[parsel(recursive)] /// e
 P),  Core( D, /// documented
 P, #[doc(hidden)] C,  F),  Ident {  n: Q }, #[allow(dead_code)] V1( I, #[cfg(all())] I,  I),  Parsel(#[parsel(recursive)] syn::LitStr,  I, /// d
 #[parsel(recursive)] /// e
 I,  F), /// documented
 under_score(#[cfg(all())] P, #[parsel(recursive = true)] D),  Maybe( Either<syn::LitStr, D>, /// documented
 F,  D, #[doc(hidden)] F, #[doc(hidden)] F, /// d
 #[parsel(recursive)] /// e
 syn::LitStr,  Q,  F, #[parsel(recursive = true)] Q), #[doc(hidden)] Token {  next: I, #[allow(dead_code, unused)] attrs: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] t: I,  variant: D,  r#loop: F, #[allow(dead_code)] #[parsel(recursive)] default: C, #[allow(dead_code, unused)] r#fn: I, #[parsel(recursive)] r#move: Q, #[parsel(recursive = false)] ctor_name: Q, },  Some,  Input(#[parsel(recursive)] D, #[parsel(recursive)] LeftAssoc<P, D>), /// documented
 Type( I, #[parsel(recursive = false)] S,  D,  D,  D,  D,  Q), #[cfg(all())] NotEof { #[parsel(recursive = true)] r#type: Q,  error: Q,  outer: P,  std: I,  parsel: S, #[parsel(recursive = false)] node: Q,  ast_node: D, #[cfg(all())] opt: Q, #[allow(dead_code, unused)] end: I }, #[doc(hidden)] Tuple {  field_index: syn::LitStr, /// documented
 enum_name: I }, /// documented
 Variant(#[allow(dead_code)] #[parsel(recursive)] syn::LitStr,  P), #[cfg(all())] B(#[allow(dead_code)] #[parsel(recursive)] Q), /// documented
 K, #[allow(dead_code)] Y {  default: C,  größe: D, },  Any {  variant: I,  fork: P } }
    impl HasG for Cursor2 {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Cursor2", ctor: "Tokens", fields: vec![("0", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "A", fields: vec![("variant_name", <D as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "U", fields: vec![] }, Gm::Seq { en: "Cursor2", ctor: "Default", fields: vec![("r#in", <D as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Parse_", fields: vec![("len", <P as HasG>::g()), ("recursive", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Right", fields: vec![("message", <RightAssoc<P, D> as HasG>::g()), ("key", <F as HasG>::g()), ("lhs", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Item", fields: vec![("0", <I as HasG>::g()), ("1", <D as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "V0", fields: vec![("0", <b3::Choice as HasG>::g()), ("1", <I as HasG>::g()), ("2", <P as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Core", fields: vec![("0", <D as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <F as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Ident", fields: vec![("n", <Q as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "V1", fields: vec![("0", <I as HasG>::g()), ("1", <I as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Parsel", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <I as HasG>::g()), ("2", <I as HasG>::g()), ("3", <F as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "under_score", fields: vec![("0", <P as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Maybe", fields: vec![("0", <Either<syn::LitStr, D> as HasG>::g()), ("1", <F as HasG>::g()), ("2", <D as HasG>::g()), ("3", <F as HasG>::g()), ("4", <F as HasG>::g()), ("5", <syn::LitStr as HasG>::g()), ("6", <Q as HasG>::g()), ("7", <F as HasG>::g()), ("8", <Q as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Token", fields: vec![("next", <I as HasG>::g()), ("attrs", <syn::LitStr as HasG>::g()), ("t", <I as HasG>::g()), ("variant", <D as HasG>::g()), ("r#loop", <F as HasG>::g()), ("default", <C as HasG>::g()), ("r#fn", <I as HasG>::g()), ("r#move", <Q as HasG>::g()), ("ctor_name", <Q as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Some", fields: vec![] }, Gm::Seq { en: "Cursor2", ctor: "Input", fields: vec![("0", <D as HasG>::g()), ("1", <LeftAssoc<P, D> as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Type", fields: vec![("0", <I as HasG>::g()), ("1", <S as HasG>::g()), ("2", <D as HasG>::g()), ("3", <D as HasG>::g()), ("4", <D as HasG>::g()), ("5", <D as HasG>::g()), ("6", <Q as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "NotEof", fields: vec![("r#type", <Q as HasG>::g()), ("error", <Q as HasG>::g()), ("outer", <P as HasG>::g()), ("std", <I as HasG>::g()), ("parsel", <S as HasG>::g()), ("node", <Q as HasG>::g()), ("ast_node", <D as HasG>::g()), ("opt", <Q as HasG>::g()), ("end", <I as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Tuple", fields: vec![("field_index", <syn::LitStr as HasG>::g()), ("enum_name", <I as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Variant", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "B", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "K", fields: vec![] }, Gm::Seq { en: "Cursor2", ctor: "Y", fields: vec![("default", <C as HasG>::g()), ("größe", <D as HasG>::g())] }, Gm::Seq { en: "Cursor2", ctor: "Any", fields: vec![("variant", <I as HasG>::g()), ("fork", <P as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Cursor2::Tokens (x_0) => Val::Node("Cursor2::Tokens".into(), vec![("0".into(), x_0.val())]), Cursor2::A { variant_name: x_0 } => Val::Node("Cursor2::A".into(), vec![("variant_name".into(), x_0.val())]), Cursor2::U () => Val::Node("Cursor2::U".into(), vec![]), Cursor2::Default { r#in: x_0 } => Val::Node("Cursor2::Default".into(), vec![("r#in".into(), x_0.val())]), Cursor2::Parse_ { len: x_0, recursive: x_1 } => Val::Node("Cursor2::Parse_".into(), vec![("len".into(), x_0.val()), ("recursive".into(), x_1.val())]), Cursor2::Right { message: x_0, key: x_1, lhs: x_2 } => Val::Node("Cursor2::Right".into(), vec![("message".into(), x_0.val()), ("key".into(), x_1.val()), ("lhs".into(), x_2.val())]), Cursor2::Item (x_0, x_1, x_2) => Val::Node("Cursor2::Item".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Cursor2::V0 (x_0, x_1, x_2) => Val::Node("Cursor2::V0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Cursor2::Core (x_0, x_1, x_2, x_3) => Val::Node("Cursor2::Core".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Cursor2::Ident { n: x_0 } => Val::Node("Cursor2::Ident".into(), vec![("n".into(), x_0.val())]), Cursor2::V1 (x_0, x_1, x_2) => Val::Node("Cursor2::V1".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Cursor2::Parsel (x_0, x_1, x_2, x_3) => Val::Node("Cursor2::Parsel".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Cursor2::under_score (x_0, x_1) => Val::Node("Cursor2::under_score".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cursor2::Maybe (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Cursor2::Maybe".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Cursor2::Token { next: x_0, attrs: x_1, t: x_2, variant: x_3, r#loop: x_4, default: x_5, r#fn: x_6, r#move: x_7, ctor_name: x_8 } => Val::Node("Cursor2::Token".into(), vec![("next".into(), x_0.val()), ("attrs".into(), x_1.val()), ("t".into(), x_2.val()), ("variant".into(), x_3.val()), ("r#loop".into(), x_4.val()), ("default".into(), x_5.val()), ("r#fn".into(), x_6.val()), ("r#move".into(), x_7.val()), ("ctor_name".into(), x_8.val())]), Cursor2::Some  => Val::Node("Cursor2::Some".into(), vec![]), Cursor2::Input (x_0, x_1) => Val::Node("Cursor2::Input".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cursor2::Type (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Cursor2::Type".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Cursor2::NotEof { r#type: x_0, error: x_1, outer: x_2, std: x_3, parsel: x_4, node: x_5, ast_node: x_6, opt: x_7, end: x_8 } => Val::Node("Cursor2::NotEof".into(), vec![("r#type".into(), x_0.val()), ("error".into(), x_1.val()), ("outer".into(), x_2.val()), ("std".into(), x_3.val()), ("parsel".into(), x_4.val()), ("node".into(), x_5.val()), ("ast_node".into(), x_6.val()), ("opt".into(), x_7.val()), ("end".into(), x_8.val())]), Cursor2::Tuple { field_index: x_0, enum_name: x_1 } => Val::Node("Cursor2::Tuple".into(), vec![("field_index".into(), x_0.val()), ("enum_name".into(), x_1.val())]), Cursor2::Variant (x_0, x_1) => Val::Node("Cursor2::Variant".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Cursor2::B (x_0) => Val::Node("Cursor2::B".into(), vec![("0".into(), x_0.val())]), Cursor2::K  => Val::Node("Cursor2::K".into(), vec![]), Cursor2::Y { default: x_0, größe: x_1 } => Val::Node("Cursor2::Y".into(), vec![("default".into(), x_0.val()), ("größe".into(), x_1.val())]), Cursor2::Any { variant: x_0, fork: x_1 } => Val::Node("Cursor2::Any".into(), vec![("variant".into(), x_0.val()), ("fork".into(), x_1.val())]) } }
    }
}
pub mod b54 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct U(#[allow(dead_code)] #[parsel(recursive)] pub D,  Maybe<C, D>,  C,  I);
    impl HasG for U {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "U", fields: vec![("0", <D as HasG>::g()), ("1", <Maybe<C, D> as HasG>::g()), ("2", <C as HasG>::g()), ("3", <I as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("U".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val())]) }
    }
}
pub mod b55 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Entry {  Core( P, #[doc(hidden)] I), #[allow(dead_code)] Named( I,  I),  Item( P), /// documented
 Ok {  right: D,  f: I,  r#try: I, #[allow(dead_code, unused)] next: syn::LitStr,  out: S,  r#in: I,  __field0: F, },  Punct {  tt: D,  r#for: F, /// d
 #[parsel(recursive)] /// e
 syn: D, #[parsel(recursive = true)] parsel_input: Paren<Any<syn::LitStr>>, },  under_score { #[parsel(recursive = true)] core: Q } }
    impl HasG for Entry {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Entry", ctor: "Core", fields: vec![("0", <P as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Named", fields: vec![("0", <I as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Item", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Ok", fields: vec![("right", <D as HasG>::g()), ("f", <I as HasG>::g()), ("r#try", <I as HasG>::g()), ("next", <syn::LitStr as HasG>::g()), ("out", <S as HasG>::g()), ("r#in", <I as HasG>::g()), ("__field0", <F as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Punct", fields: vec![("tt", <D as HasG>::g()), ("r#for", <F as HasG>::g()), ("syn", <D as HasG>::g()), ("parsel_input", <Paren<Any<syn::LitStr>> as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "under_score", fields: vec![("core", <Q as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Entry::Core (x_0, x_1) => Val::Node("Entry::Core".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Entry::Named (x_0, x_1) => Val::Node("Entry::Named".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Entry::Item (x_0) => Val::Node("Entry::Item".into(), vec![("0".into(), x_0.val())]), Entry::Ok { right: x_0, f: x_1, r#try: x_2, next: x_3, out: x_4, r#in: x_5, __field0: x_6 } => Val::Node("Entry::Ok".into(), vec![("right".into(), x_0.val()), ("f".into(), x_1.val()), ("r#try".into(), x_2.val()), ("next".into(), x_3.val()), ("out".into(), x_4.val()), ("r#in".into(), x_5.val()), ("__field0".into(), x_6.val())]), Entry::Punct { tt: x_0, r#for: x_1, syn: x_2, parsel_input: x_3 } => Val::Node("Entry::Punct".into(), vec![("tt".into(), x_0.val()), ("r#for".into(), x_1.val()), ("syn".into(), x_2.val()), ("parsel_input".into(), x_3.val())]), Entry::under_score { core: x_0 } => Val::Node("Entry::under_score".into(), vec![("core".into(), x_0.val())]) } }
    }
}
pub mod b56 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Z9 {  pub outer: F,  pub parsel_tokens: F,  pub to_tokens: syn::LitStr, #[doc(hidden)] pub(super) prefix: D,  pub iter: I,  pub parser: Q, #[parsel(recursive)] pub(crate) größe: I,  pub(super) len: C,  bounds: P,  pub(super) kw: P, #[parsel(recursive)] pub(super) token: P, #[allow(dead_code)] #[parsel(recursive)] pub(crate) r#pub: C,  pub r#if: D, /// documented
 pub(super) ok: P,  pub(crate) 名前: D, #[parsel(recursive = true)] pub i: S,  pub ty: syn::LitStr }
    impl HasG for Z9 {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Z9", fields: vec![("outer", <F as HasG>::g()), ("parsel_tokens", <F as HasG>::g()), ("to_tokens", <syn::LitStr as HasG>::g()), ("prefix", <D as HasG>::g()), ("iter", <I as HasG>::g()), ("parser", <Q as HasG>::g()), ("größe", <I as HasG>::g()), ("len", <C as HasG>::g()), ("bounds", <P as HasG>::g()), ("kw", <P as HasG>::g()), ("token", <P as HasG>::g()), ("r#pub", <C as HasG>::g()), ("r#if", <D as HasG>::g()), ("ok", <P as HasG>::g()), ("名前", <D as HasG>::g()), ("i", <S as HasG>::g()), ("ty", <syn::LitStr as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Z9".into(), vec![("outer".into(), self.outer.val()), ("parsel_tokens".into(), self.parsel_tokens.val()), ("to_tokens".into(), self.to_tokens.val()), ("prefix".into(), self.prefix.val()), ("iter".into(), self.iter.val()), ("parser".into(), self.parser.val()), ("größe".into(), self.größe.val()), ("len".into(), self.len.val()), ("bounds".into(), self.bounds.val()), ("kw".into(), self.kw.val()), ("token".into(), self.token.val()), ("r#pub".into(), self.r#pub.val()), ("r#if".into(), self.r#if.val()), ("ok".into(), self.ok.val()), ("名前".into(), self.名前.val()), ("i".into(), self.i.val()), ("ty".into(), self.ty.val())]) }
    }
}
pub mod b57 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Y {  T(#[allow(dead_code, unused)] P,  C, /// documented
 D, #[parsel(recursive = true)] Q,  S,  Q, #[allow(dead_code)] #[parsel(recursive)] D), /// documented
 Fork {  fmt: F,  r#fn: P, #[parsel(recursive)] o: Q,  r: C, }, /// documented
 Other { /// documented
 op: Bracket<LeftAssoc<P, syn::LitStr>>,  vx: D }, #[doc(hidden)] Expr( Maybe<Q, F>),  Recursive {  r#use: F, #[parsel(recursive = true)] result: S,  ok: I,  e: S, /// documented
 next: I,  field_name: C, /// d
 #[parsel(recursive)] /// e
 that: I },  Maybe {  r#match: D,  recursive: I, },  Parsel {  __field0: D, #[doc(hidden)] iter: D, #[parsel(recursive = true)] ctor_name: D, },  Result2(#[allow(dead_code)] #[parsel(recursive)] F,  syn::LitStr, #[cfg(all())] D,  I,  S, #[allow(dead_code)] #[parsel(recursive)] D,  C,  b21::Formatter2, #[parsel(recursive)] I),  V0 { /// documented
 camelCase: I, /// d
 #[parsel(recursive)] /// e
 message: D }, #[cfg(all())] Enum( D, /// documented
 P, #[allow(dead_code)] #[parsel(recursive)] S,  Q,  I), #[allow(dead_code)] Span(/// d
 #[parsel(recursive)] /// e
 P,  P,  P, #[allow(dead_code, unused)] Either<D, D>,  I),  Boxed {  err: I, #[parsel(recursive = true)] sep: I, /// d
 #[parsel(recursive)] /// e
 tokens: I,  cursor: C },  A,  Z {  e: F,  i: Q, /// documented
 parsel_field_X_0: C,  attrs: Q, #[doc(hidden)] naïve: D,  out: P,  result: D, #[doc(hidden)] r#use: S,  r#if: F, /// d
 #[parsel(recursive)] /// e
 e1: C,  end: syn::LitStr, #[cfg(all())] parse: P,  r#let: Q,  some: I, #[parsel(recursive)] x: C, #[doc(hidden)] bindings: I,  variant: D,  r#box: I,  span: C, #[allow(dead_code)] #[parsel(recursive)] to_tokens: F,  string: Separated<syn::LitStr, C>, #[parsel(recursive = true)] r#where: I, /// d
 #[parsel(recursive)] /// e
 r: I, /// documented
 peek: syn::LitStr,  parser: P, /// d
 #[parsel(recursive)] /// e
 begin_token: D,  _0: I,  opt: I, #[parsel(recursive)] 名前: C, #[parsel(recursive)] iter: I,  bounds: P, #[cfg(all())] o: D, }, /// documented
 B( I), #[doc(hidden)] X_0, #[doc(hidden)] Vec2,  Eof(#[allow(dead_code)] #[parsel(recursive)] S),  Syn { /// documented
 prev: I, #[parsel(recursive)] key: S, #[allow(dead_code)] #[parsel(recursive)] r#if: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] bounds: D, #[doc(hidden)] error: I, /// documented
 field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: S,  attrs: Q, }, #[doc(hidden)] Literal {  },  Input { #[doc(hidden)] parsel_field_X_0: F,  lookahead: I, #[parsel(recursive = false)] r#move: syn::LitStr, }, /// documented
 under_score(#[parsel(recursive)] S,  C, #[parsel(recursive = false)] syn::LitStr), #[cfg(all())] Parse { #[parsel(recursive = true)] 名前: I, #[doc(hidden)] r#enum: F, #[allow(dead_code)] #[parsel(recursive)] first: P, },  Tokens(#[allow(dead_code)] #[parsel(recursive)] Q, #[parsel(recursive)] Q,  D, #[parsel(recursive)] I, #[parsel(recursive)] S,  I,  C, #[parsel(recursive = true)] D, #[parsel(recursive)] P),  Paren(#[doc(hidden)] D,  D,  P, #[parsel(recursive)] I,  Paren<D>,  P, #[allow(dead_code)] #[parsel(recursive)] S), /// documented
 Any(#[cfg(all())] D,  Q, #[allow(dead_code)] #[parsel(recursive)] D),  Named { #[allow(dead_code)] #[parsel(recursive)] fork: I, #[doc(hidden)] to_tokens: D,  prefix: I,  variant: D, }, /// documented
 Empty {  tail: Q,  größe: Q,  node: F, /// documented
 inner: P,  core: I,  名前: F,  span: P,  ret: I, #[cfg(all())] y: I, #[allow(dead_code, unused)] val: D,  parsel_field_X_0: syn::LitStr, #[allow(dead_code, unused)] i: Q,  fork: LeftAssoc<P, I>, #[parsel(recursive = true)] key: D,  r#type: syn::LitStr, #[parsel(recursive)] cause: F,  tmp: C, #[cfg(all())] e: I, #[parsel(recursive)] parsel_field_0: P, #[parsel(recursive)] ty: S, #[doc(hidden)] SHOUT: P,  r#try: syn::LitStr, #[allow(dead_code, unused)] tt: S, #[allow(dead_code)] #[parsel(recursive)] op: I,  syn: LeftAssoc<P, I>,  r#else: P, /// d
 #[parsel(recursive)] /// e
 field_index: C, #[allow(dead_code)] #[parsel(recursive)] x: F,  o: Bracket<Box<F>>,  stream: I,  parse: D, #[parsel(recursive = false)] data: I,  next: Q },  Fn( F,  syn::LitStr, /// documented
 D),  Err(#[doc(hidden)] D, #[allow(dead_code, unused)] Any<I>, #[parsel(recursive = false)] S, #[cfg(all())] D,  I),  Self_ {  t: F },  Core(#[doc(hidden)] Q, #[cfg(all())] I,  D, /// d
 #[parsel(recursive)] /// e
 I),  None() }
    impl HasG for Y {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Y", ctor: "T", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <D as HasG>::g()), ("3", <Q as HasG>::g()), ("4", <S as HasG>::g()), ("5", <Q as HasG>::g()), ("6", <D as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Fork", fields: vec![("fmt", <F as HasG>::g()), ("r#fn", <P as HasG>::g()), ("o", <Q as HasG>::g()), ("r", <C as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Other", fields: vec![("op", <Bracket<LeftAssoc<P, syn::LitStr>> as HasG>::g()), ("vx", <D as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Expr", fields: vec![("0", <Maybe<Q, F> as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Recursive", fields: vec![("r#use", <F as HasG>::g()), ("result", <S as HasG>::g()), ("ok", <I as HasG>::g()), ("e", <S as HasG>::g()), ("next", <I as HasG>::g()), ("field_name", <C as HasG>::g()), ("that", <I as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Maybe", fields: vec![("r#match", <D as HasG>::g()), ("recursive", <I as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Parsel", fields: vec![("__field0", <D as HasG>::g()), ("iter", <D as HasG>::g()), ("ctor_name", <D as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Result2", fields: vec![("0", <F as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <D as HasG>::g()), ("3", <I as HasG>::g()), ("4", <S as HasG>::g()), ("5", <D as HasG>::g()), ("6", <C as HasG>::g()), ("7", <b21::Formatter2 as HasG>::g()), ("8", <I as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "V0", fields: vec![("camelCase", <I as HasG>::g()), ("message", <D as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Enum", fields: vec![("0", <D as HasG>::g()), ("1", <P as HasG>::g()), ("2", <S as HasG>::g()), ("3", <Q as HasG>::g()), ("4", <I as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Span", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <Either<D, D> as HasG>::g()), ("4", <I as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Boxed", fields: vec![("err", <I as HasG>::g()), ("sep", <I as HasG>::g()), ("tokens", <I as HasG>::g()), ("cursor", <C as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "A", fields: vec![] }, Gm::Seq { en: "Y", ctor: "Z", fields: vec![("e", <F as HasG>::g()), ("i", <Q as HasG>::g()), ("parsel_field_X_0", <C as HasG>::g()), ("attrs", <Q as HasG>::g()), ("naïve", <D as HasG>::g()), ("out", <P as HasG>::g()), ("result", <D as HasG>::g()), ("r#use", <S as HasG>::g()), ("r#if", <F as HasG>::g()), ("e1", <C as HasG>::g()), ("end", <syn::LitStr as HasG>::g()), ("parse", <P as HasG>::g()), ("r#let", <Q as HasG>::g()), ("some", <I as HasG>::g()), ("x", <C as HasG>::g()), ("bindings", <I as HasG>::g()), ("variant", <D as HasG>::g()), ("r#box", <I as HasG>::g()), ("span", <C as HasG>::g()), ("to_tokens", <F as HasG>::g()), ("string", <Separated<syn::LitStr, C> as HasG>::g()), ("r#where", <I as HasG>::g()), ("r", <I as HasG>::g()), ("peek", <syn::LitStr as HasG>::g()), ("parser", <P as HasG>::g()), ("begin_token", <D as HasG>::g()), ("_0", <I as HasG>::g()), ("opt", <I as HasG>::g()), ("名前", <C as HasG>::g()), ("iter", <I as HasG>::g()), ("bounds", <P as HasG>::g()), ("o", <D as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "B", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "X_0", fields: vec![] }, Gm::Seq { en: "Y", ctor: "Vec2", fields: vec![] }, Gm::Seq { en: "Y", ctor: "Eof", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Syn", fields: vec![("prev", <I as HasG>::g()), ("key", <S as HasG>::g()), ("r#if", <syn::LitStr as HasG>::g()), ("bounds", <D as HasG>::g()), ("error", <I as HasG>::g()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it", <S as HasG>::g()), ("attrs", <Q as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Literal", fields: vec![] }, Gm::Seq { en: "Y", ctor: "Input", fields: vec![("parsel_field_X_0", <F as HasG>::g()), ("lookahead", <I as HasG>::g()), ("r#move", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "under_score", fields: vec![("0", <S as HasG>::g()), ("1", <C as HasG>::g()), ("2", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Parse", fields: vec![("名前", <I as HasG>::g()), ("r#enum", <F as HasG>::g()), ("first", <P as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Tokens", fields: vec![("0", <Q as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <D as HasG>::g()), ("3", <I as HasG>::g()), ("4", <S as HasG>::g()), ("5", <I as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g()), ("8", <P as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Paren", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g()), ("2", <P as HasG>::g()), ("3", <I as HasG>::g()), ("4", <Paren<D> as HasG>::g()), ("5", <P as HasG>::g()), ("6", <S as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Any", fields: vec![("0", <D as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <D as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Named", fields: vec![("fork", <I as HasG>::g()), ("to_tokens", <D as HasG>::g()), ("prefix", <I as HasG>::g()), ("variant", <D as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Empty", fields: vec![("tail", <Q as HasG>::g()), ("größe", <Q as HasG>::g()), ("node", <F as HasG>::g()), ("inner", <P as HasG>::g()), ("core", <I as HasG>::g()), ("名前", <F as HasG>::g()), ("span", <P as HasG>::g()), ("ret", <I as HasG>::g()), ("y", <I as HasG>::g()), ("val", <D as HasG>::g()), ("parsel_field_X_0", <syn::LitStr as HasG>::g()), ("i", <Q as HasG>::g()), ("fork", <LeftAssoc<P, I> as HasG>::g()), ("key", <D as HasG>::g()), ("r#type", <syn::LitStr as HasG>::g()), ("cause", <F as HasG>::g()), ("tmp", <C as HasG>::g()), ("e", <I as HasG>::g()), ("parsel_field_0", <P as HasG>::g()), ("ty", <S as HasG>::g()), ("SHOUT", <P as HasG>::g()), ("r#try", <syn::LitStr as HasG>::g()), ("tt", <S as HasG>::g()), ("op", <I as HasG>::g()), ("syn", <LeftAssoc<P, I> as HasG>::g()), ("r#else", <P as HasG>::g()), ("field_index", <C as HasG>::g()), ("x", <F as HasG>::g()), ("o", <Bracket<Box<F>> as HasG>::g()), ("stream", <I as HasG>::g()), ("parse", <D as HasG>::g()), ("data", <I as HasG>::g()), ("next", <Q as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Fn", fields: vec![("0", <F as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <D as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Err", fields: vec![("0", <D as HasG>::g()), ("1", <Any<I> as HasG>::g()), ("2", <S as HasG>::g()), ("3", <D as HasG>::g()), ("4", <I as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Self_", fields: vec![("t", <F as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "Core", fields: vec![("0", <Q as HasG>::g()), ("1", <I as HasG>::g()), ("2", <D as HasG>::g()), ("3", <I as HasG>::g())] }, Gm::Seq { en: "Y", ctor: "None", fields: vec![] }]) }
        fn val(&self) -> Val { match self { Y::T (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Y::T".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Y::Fork { fmt: x_0, r#fn: x_1, o: x_2, r: x_3 } => Val::Node("Y::Fork".into(), vec![("fmt".into(), x_0.val()), ("r#fn".into(), x_1.val()), ("o".into(), x_2.val()), ("r".into(), x_3.val())]), Y::Other { op: x_0, vx: x_1 } => Val::Node("Y::Other".into(), vec![("op".into(), x_0.val()), ("vx".into(), x_1.val())]), Y::Expr (x_0) => Val::Node("Y::Expr".into(), vec![("0".into(), x_0.val())]), Y::Recursive { r#use: x_0, result: x_1, ok: x_2, e: x_3, next: x_4, field_name: x_5, that: x_6 } => Val::Node("Y::Recursive".into(), vec![("r#use".into(), x_0.val()), ("result".into(), x_1.val()), ("ok".into(), x_2.val()), ("e".into(), x_3.val()), ("next".into(), x_4.val()), ("field_name".into(), x_5.val()), ("that".into(), x_6.val())]), Y::Maybe { r#match: x_0, recursive: x_1 } => Val::Node("Y::Maybe".into(), vec![("r#match".into(), x_0.val()), ("recursive".into(), x_1.val())]), Y::Parsel { __field0: x_0, iter: x_1, ctor_name: x_2 } => Val::Node("Y::Parsel".into(), vec![("__field0".into(), x_0.val()), ("iter".into(), x_1.val()), ("ctor_name".into(), x_2.val())]), Y::Result2 (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Y::Result2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Y::V0 { camelCase: x_0, message: x_1 } => Val::Node("Y::V0".into(), vec![("camelCase".into(), x_0.val()), ("message".into(), x_1.val())]), Y::Enum (x_0, x_1, x_2, x_3, x_4) => Val::Node("Y::Enum".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Y::Span (x_0, x_1, x_2, x_3, x_4) => Val::Node("Y::Span".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Y::Boxed { err: x_0, sep: x_1, tokens: x_2, cursor: x_3 } => Val::Node("Y::Boxed".into(), vec![("err".into(), x_0.val()), ("sep".into(), x_1.val()), ("tokens".into(), x_2.val()), ("cursor".into(), x_3.val())]), Y::A  => Val::Node("Y::A".into(), vec![]), Y::Z { e: x_0, i: x_1, parsel_field_X_0: x_2, attrs: x_3, naïve: x_4, out: x_5, result: x_6, r#use: x_7, r#if: x_8, e1: x_9, end: x_10, parse: x_11, r#let: x_12, some: x_13, x: x_14, bindings: x_15, variant: x_16, r#box: x_17, span: x_18, to_tokens: x_19, string: x_20, r#where: x_21, r: x_22, peek: x_23, parser: x_24, begin_token: x_25, _0: x_26, opt: x_27, 名前: x_28, iter: x_29, bounds: x_30, o: x_31 } => Val::Node("Y::Z".into(), vec![("e".into(), x_0.val()), ("i".into(), x_1.val()), ("parsel_field_X_0".into(), x_2.val()), ("attrs".into(), x_3.val()), ("naïve".into(), x_4.val()), ("out".into(), x_5.val()), ("result".into(), x_6.val()), ("r#use".into(), x_7.val()), ("r#if".into(), x_8.val()), ("e1".into(), x_9.val()), ("end".into(), x_10.val()), ("parse".into(), x_11.val()), ("r#let".into(), x_12.val()), ("some".into(), x_13.val()), ("x".into(), x_14.val()), ("bindings".into(), x_15.val()), ("variant".into(), x_16.val()), ("r#box".into(), x_17.val()), ("span".into(), x_18.val()), ("to_tokens".into(), x_19.val()), ("string".into(), x_20.val()), ("r#where".into(), x_21.val()), ("r".into(), x_22.val()), ("peek".into(), x_23.val()), ("parser".into(), x_24.val()), ("begin_token".into(), x_25.val()), ("_0".into(), x_26.val()), ("opt".into(), x_27.val()), ("名前".into(), x_28.val()), ("iter".into(), x_29.val()), ("bounds".into(), x_30.val()), ("o".into(), x_31.val())]), Y::B (x_0) => Val::Node("Y::B".into(), vec![("0".into(), x_0.val())]), Y::X_0  => Val::Node("Y::X_0".into(), vec![]), Y::Vec2  => Val::Node("Y::Vec2".into(), vec![]), Y::Eof (x_0) => Val::Node("Y::Eof".into(), vec![("0".into(), x_0.val())]), Y::Syn { prev: x_0, key: x_1, r#if: x_2, bounds: x_3, error: x_4, field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: x_5, attrs: x_6 } => Val::Node("Y::Syn".into(), vec![("prev".into(), x_0.val()), ("key".into(), x_1.val()), ("r#if".into(), x_2.val()), ("bounds".into(), x_3.val()), ("error".into(), x_4.val()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it".into(), x_5.val()), ("attrs".into(), x_6.val())]), Y::Literal {  } => Val::Node("Y::Literal".into(), vec![]), Y::Input { parsel_field_X_0: x_0, lookahead: x_1, r#move: x_2 } => Val::Node("Y::Input".into(), vec![("parsel_field_X_0".into(), x_0.val()), ("lookahead".into(), x_1.val()), ("r#move".into(), x_2.val())]), Y::under_score (x_0, x_1, x_2) => Val::Node("Y::under_score".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Y::Parse { 名前: x_0, r#enum: x_1, first: x_2 } => Val::Node("Y::Parse".into(), vec![("名前".into(), x_0.val()), ("r#enum".into(), x_1.val()), ("first".into(), x_2.val())]), Y::Tokens (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Y::Tokens".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Y::Paren (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Y::Paren".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Y::Any (x_0, x_1, x_2) => Val::Node("Y::Any".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Y::Named { fork: x_0, to_tokens: x_1, prefix: x_2, variant: x_3 } => Val::Node("Y::Named".into(), vec![("fork".into(), x_0.val()), ("to_tokens".into(), x_1.val()), ("prefix".into(), x_2.val()), ("variant".into(), x_3.val())]), Y::Empty { tail: x_0, größe: x_1, node: x_2, inner: x_3, core: x_4, 名前: x_5, span: x_6, ret: x_7, y: x_8, val: x_9, parsel_field_X_0: x_10, i: x_11, fork: x_12, key: x_13, r#type: x_14, cause: x_15, tmp: x_16, e: x_17, parsel_field_0: x_18, ty: x_19, SHOUT: x_20, r#try: x_21, tt: x_22, op: x_23, syn: x_24, r#else: x_25, field_index: x_26, x: x_27, o: x_28, stream: x_29, parse: x_30, data: x_31, next: x_32 } => Val::Node("Y::Empty".into(), vec![("tail".into(), x_0.val()), ("größe".into(), x_1.val()), ("node".into(), x_2.val()), ("inner".into(), x_3.val()), ("core".into(), x_4.val()), ("名前".into(), x_5.val()), ("span".into(), x_6.val()), ("ret".into(), x_7.val()), ("y".into(), x_8.val()), ("val".into(), x_9.val()), ("parsel_field_X_0".into(), x_10.val()), ("i".into(), x_11.val()), ("fork".into(), x_12.val()), ("key".into(), x_13.val()), ("r#type".into(), x_14.val()), ("cause".into(), x_15.val()), ("tmp".into(), x_16.val()), ("e".into(), x_17.val()), ("parsel_field_0".into(), x_18.val()), ("ty".into(), x_19.val()), ("SHOUT".into(), x_20.val()), ("r#try".into(), x_21.val()), ("tt".into(), x_22.val()), ("op".into(), x_23.val()), ("syn".into(), x_24.val()), ("r#else".into(), x_25.val()), ("field_index".into(), x_26.val()), ("x".into(), x_27.val()), ("o".into(), x_28.val()), ("stream".into(), x_29.val()), ("parse".into(), x_30.val()), ("data".into(), x_31.val()), ("next".into(), x_32.val())]), Y::Fn (x_0, x_1, x_2) => Val::Node("Y::Fn".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Y::Err (x_0, x_1, x_2, x_3, x_4) => Val::Node("Y::Err".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Y::Self_ { t: x_0 } => Val::Node("Y::Self_".into(), vec![("t".into(), x_0.val())]), Y::Core (x_0, x_1, x_2, x_3) => Val::Node("Y::Core".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Y::None () => Val::Node("Y::None".into(), vec![]) } }
    }
}
pub mod b58 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Abc { #[allow(dead_code)] #[parsel(recursive)] pub variant_name: Any<D>,  pub rest: Q, #[parsel(recursive)] pub(crate) __self: LeftAssoc<P, I>, }
    impl HasG for Abc {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Abc", fields: vec![("variant_name", <Any<D> as HasG>::g()), ("rest", <Q as HasG>::g()), ("__self", <LeftAssoc<P, I> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Abc".into(), vec![("variant_name".into(), self.variant_name.val()), ("rest".into(), self.rest.val()), ("__self".into(), self.__self.val())]) }
    }
}
pub mod b59 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Error_ {  Any( P,  D,  I),  Punct( S), #[allow(dead_code)] U { #[parsel(recursive = false)] empty: I, /// documented
 quote: C,  r#dyn: P,  x1: I }, #[cfg(all())] Node( S,  P,  S,  I), #[doc(hidden)] NotEof {  eof: C, /// documented
 parsel_field_X_0: S, },  Boxed( D, /// documented
 b51::Lower_case),  Left,  Vec2 {  len: C,  parsel: P,  __field0: syn::LitStr,  parsel_field_X_0: S,  lookahead: D,  ty_name: D,  b: S, },  None(#[allow(dead_code)] #[parsel(recursive)] I), /// documented
 Many {  fork: S, } }
    impl HasG for Error_ {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Error_", ctor: "Any", fields: vec![("0", <P as HasG>::g()), ("1", <D as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Punct", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "U", fields: vec![("empty", <I as HasG>::g()), ("quote", <C as HasG>::g()), ("r#dyn", <P as HasG>::g()), ("x1", <I as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Node", fields: vec![("0", <S as HasG>::g()), ("1", <P as HasG>::g()), ("2", <S as HasG>::g()), ("3", <I as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "NotEof", fields: vec![("eof", <C as HasG>::g()), ("parsel_field_X_0", <S as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Boxed", fields: vec![("0", <D as HasG>::g()), ("1", <b51::Lower_case as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Left", fields: vec![] }, Gm::Seq { en: "Error_", ctor: "Vec2", fields: vec![("len", <C as HasG>::g()), ("parsel", <P as HasG>::g()), ("__field0", <syn::LitStr as HasG>::g()), ("parsel_field_X_0", <S as HasG>::g()), ("lookahead", <D as HasG>::g()), ("ty_name", <D as HasG>::g()), ("b", <S as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "None", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Many", fields: vec![("fork", <S as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Error_::Any (x_0, x_1, x_2) => Val::Node("Error_::Any".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Error_::Punct (x_0) => Val::Node("Error_::Punct".into(), vec![("0".into(), x_0.val())]), Error_::U { empty: x_0, quote: x_1, r#dyn: x_2, x1: x_3 } => Val::Node("Error_::U".into(), vec![("empty".into(), x_0.val()), ("quote".into(), x_1.val()), ("r#dyn".into(), x_2.val()), ("x1".into(), x_3.val())]), Error_::Node (x_0, x_1, x_2, x_3) => Val::Node("Error_::Node".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Error_::NotEof { eof: x_0, parsel_field_X_0: x_1 } => Val::Node("Error_::NotEof".into(), vec![("eof".into(), x_0.val()), ("parsel_field_X_0".into(), x_1.val())]), Error_::Boxed (x_0, x_1) => Val::Node("Error_::Boxed".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Error_::Left  => Val::Node("Error_::Left".into(), vec![]), Error_::Vec2 { len: x_0, parsel: x_1, __field0: x_2, parsel_field_X_0: x_3, lookahead: x_4, ty_name: x_5, b: x_6 } => Val::Node("Error_::Vec2".into(), vec![("len".into(), x_0.val()), ("parsel".into(), x_1.val()), ("__field0".into(), x_2.val()), ("parsel_field_X_0".into(), x_3.val()), ("lookahead".into(), x_4.val()), ("ty_name".into(), x_5.val()), ("b".into(), x_6.val())]), Error_::None (x_0) => Val::Node("Error_::None".into(), vec![("0".into(), x_0.val())]), Error_::Many { fork: x_0 } => Val::Node("Error_::Many".into(), vec![("fork".into(), x_0.val())]) } }
    }
}
pub mod b60 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct T(#[allow(dead_code, unused)] pub(super) RightAssoc<P, D>, #[allow(dead_code, unused)] pub(super) D,  pub Punctuated<I, C>,  pub D, /// d
 #[parsel(recursive)] /// e
 pub Maybe<C, Maybe<P, F>>,  pub(super) Either<D, D>, #[parsel(recursive = true)] pub Paren<S>);
    impl HasG for T {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "T", fields: vec![("0", <RightAssoc<P, D> as HasG>::g()), ("1", <D as HasG>::g()), ("2", <Punctuated<I, C> as HasG>::g()), ("3", <D as HasG>::g()), ("4", <Maybe<C, Maybe<P, F>> as HasG>::g()), ("5", <Either<D, D> as HasG>::g()), ("6", <Paren<S> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("T".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val())]) }
    }
}
pub mod b61 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Choice {  Ok2 {  r#move: RightAssoc<P, I>, #[cfg(all())] 名前: Paren<Box<F>>, #[parsel(recursive = false)] r#else: b18::Parser2 } }
    impl HasG for Choice {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Choice", ctor: "Ok2", fields: vec![("r#move", <RightAssoc<P, I> as HasG>::g()), ("名前", <Paren<Box<F>> as HasG>::g()), ("r#else", <b18::Parser2 as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Choice::Ok2 { r#move: x_0, 名前: x_1, r#else: x_2 } => Val::Node("Choice::Ok2".into(), vec![("r#move".into(), x_0.val()), ("名前".into(), x_1.val()), ("r#else".into(), x_2.val())]) } }
    }
}
pub mod b62 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Wrapper { #[parsel(recursive)] pub result: Bracket<Separated<syn::LitStr, C>> }
    impl HasG for Wrapper {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Wrapper", fields: vec![("result", <Bracket<Separated<syn::LitStr, C>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Wrapper".into(), vec![("result".into(), self.result.val())]) }
    }
}
pub mod b63 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Tree {  Named { #[allow(dead_code, unused)] empty: S,  parsel_field_X_0: S }, #[cfg(all())] Tokens( syn::LitStr),  lower(#[allow(dead_code)] #[parsel(recursive)] P),  Ok( Maybe<S, Any<syn::LitStr>>),  Token {  r#async: D, #[allow(dead_code, unused)] eof: syn::LitStr,  parse: D },  Default {  a: Q,  r#ref: S, #[parsel(recursive = true)] item: D },  Vec2 {  s: b56::Z9,  r#fn: I, /// d
 #[parsel(recursive)] /// e
 formatter: Separated<I, P>, }, #[cfg(all())] Left(/// d
 #[parsel(recursive)] /// e
 P),  Paren {  r#ref: I,  prev: D, },  Unknown {  r: S, /// documented
 val: syn::LitStr, },  Ident( D, #[doc(hidden)] I,  D),  Core, #[doc(hidden)] Expr(#[doc(hidden)] syn::LitStr, #[doc(hidden)] D,  C,  I, #[doc(hidden)] D, /// documented
 I,  D, #[parsel(recursive = false)] I, #[allow(dead_code)] #[parsel(recursive)] Q, #[parsel(recursive)] syn::LitStr, /// documented
 F, /// documented
 D,  syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] D, #[allow(dead_code, unused)] C, /// documented
 I,  D, #[parsel(recursive)] I,  I, #[allow(dead_code, unused)] P),  Unit {  parsel_input: F,  rhs: P, }, #[allow(dead_code)] Node { #[allow(dead_code, unused)] fork: Q,  node: D, #[parsel(recursive = true)] body: D, /// d
 #[parsel(recursive)] /// e
 cause: I,  std: I,  val: S, #[cfg(all())] ty_name: S,  ty: D,  recursive: C,  sep: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] alloc: P, #[parsel(recursive = false)] r#for: P,  n: I,  ast_node: D,  to_tokens: Either<I, Q>,  größe: D, #[cfg(all())] _1: S, #[cfg(all())] key: Q,  vec: I, #[allow(dead_code, unused)] r#where: I,  head: Either<ST2<I, D>, D>,  parsel_input: Q,  k: P, /// documented
 error: D,  op: I,  t: Q,  input: D,  i: D,  e: D, #[doc(hidden)] x1: S,  buf: P, #[doc(hidden)] variant: S,  r#match: Q, }, #[allow(dead_code)] Eof(/// d
 #[parsel(recursive)] /// e
 syn::LitStr,  Q) }
    impl HasG for Tree {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Tree", ctor: "Named", fields: vec![("empty", <S as HasG>::g()), ("parsel_field_X_0", <S as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Tokens", fields: vec![("0", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "lower", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Ok", fields: vec![("0", <Maybe<S, Any<syn::LitStr>> as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Token", fields: vec![("r#async", <D as HasG>::g()), ("eof", <syn::LitStr as HasG>::g()), ("parse", <D as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Default", fields: vec![("a", <Q as HasG>::g()), ("r#ref", <S as HasG>::g()), ("item", <D as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Vec2", fields: vec![("s", <b56::Z9 as HasG>::g()), ("r#fn", <I as HasG>::g()), ("formatter", <Separated<I, P> as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Left", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Paren", fields: vec![("r#ref", <I as HasG>::g()), ("prev", <D as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Unknown", fields: vec![("r", <S as HasG>::g()), ("val", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Ident", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g()), ("2", <D as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Core", fields: vec![] }, Gm::Seq { en: "Tree", ctor: "Expr", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <D as HasG>::g()), ("2", <C as HasG>::g()), ("3", <I as HasG>::g()), ("4", <D as HasG>::g()), ("5", <I as HasG>::g()), ("6", <D as HasG>::g()), ("7", <I as HasG>::g()), ("8", <Q as HasG>::g()), ("9", <syn::LitStr as HasG>::g()), ("10", <F as HasG>::g()), ("11", <D as HasG>::g()), ("12", <syn::LitStr as HasG>::g()), ("13", <D as HasG>::g()), ("14", <C as HasG>::g()), ("15", <I as HasG>::g()), ("16", <D as HasG>::g()), ("17", <I as HasG>::g()), ("18", <I as HasG>::g()), ("19", <P as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Unit", fields: vec![("parsel_input", <F as HasG>::g()), ("rhs", <P as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Node", fields: vec![("fork", <Q as HasG>::g()), ("node", <D as HasG>::g()), ("body", <D as HasG>::g()), ("cause", <I as HasG>::g()), ("std", <I as HasG>::g()), ("val", <S as HasG>::g()), ("ty_name", <S as HasG>::g()), ("ty", <D as HasG>::g()), ("recursive", <C as HasG>::g()), ("sep", <syn::LitStr as HasG>::g()), ("alloc", <P as HasG>::g()), ("r#for", <P as HasG>::g()), ("n", <I as HasG>::g()), ("ast_node", <D as HasG>::g()), ("to_tokens", <Either<I, Q> as HasG>::g()), ("größe", <D as HasG>::g()), ("_1", <S as HasG>::g()), ("key", <Q as HasG>::g()), ("vec", <I as HasG>::g()), ("r#where", <I as HasG>::g()), ("head", <Either<ST2<I, D>, D> as HasG>::g()), ("parsel_input", <Q as HasG>::g()), ("k", <P as HasG>::g()), ("error", <D as HasG>::g()), ("op", <I as HasG>::g()), ("t", <Q as HasG>::g()), ("input", <D as HasG>::g()), ("i", <D as HasG>::g()), ("e", <D as HasG>::g()), ("x1", <S as HasG>::g()), ("buf", <P as HasG>::g()), ("variant", <S as HasG>::g()), ("r#match", <Q as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Eof", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <Q as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Tree::Named { empty: x_0, parsel_field_X_0: x_1 } => Val::Node("Tree::Named".into(), vec![("empty".into(), x_0.val()), ("parsel_field_X_0".into(), x_1.val())]), Tree::Tokens (x_0) => Val::Node("Tree::Tokens".into(), vec![("0".into(), x_0.val())]), Tree::lower (x_0) => Val::Node("Tree::lower".into(), vec![("0".into(), x_0.val())]), Tree::Ok (x_0) => Val::Node("Tree::Ok".into(), vec![("0".into(), x_0.val())]), Tree::Token { r#async: x_0, eof: x_1, parse: x_2 } => Val::Node("Tree::Token".into(), vec![("r#async".into(), x_0.val()), ("eof".into(), x_1.val()), ("parse".into(), x_2.val())]), Tree::Default { a: x_0, r#ref: x_1, item: x_2 } => Val::Node("Tree::Default".into(), vec![("a".into(), x_0.val()), ("r#ref".into(), x_1.val()), ("item".into(), x_2.val())]), Tree::Vec2 { s: x_0, r#fn: x_1, formatter: x_2 } => Val::Node("Tree::Vec2".into(), vec![("s".into(), x_0.val()), ("r#fn".into(), x_1.val()), ("formatter".into(), x_2.val())]), Tree::Left (x_0) => Val::Node("Tree::Left".into(), vec![("0".into(), x_0.val())]), Tree::Paren { r#ref: x_0, prev: x_1 } => Val::Node("Tree::Paren".into(), vec![("r#ref".into(), x_0.val()), ("prev".into(), x_1.val())]), Tree::Unknown { r: x_0, val: x_1 } => Val::Node("Tree::Unknown".into(), vec![("r".into(), x_0.val()), ("val".into(), x_1.val())]), Tree::Ident (x_0, x_1, x_2) => Val::Node("Tree::Ident".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Tree::Core  => Val::Node("Tree::Core".into(), vec![]), Tree::Expr (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10, x_11, x_12, x_13, x_14, x_15, x_16, x_17, x_18, x_19) => Val::Node("Tree::Expr".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val()), ("11".into(), x_11.val()), ("12".into(), x_12.val()), ("13".into(), x_13.val()), ("14".into(), x_14.val()), ("15".into(), x_15.val()), ("16".into(), x_16.val()), ("17".into(), x_17.val()), ("18".into(), x_18.val()), ("19".into(), x_19.val())]), Tree::Unit { parsel_input: x_0, rhs: x_1 } => Val::Node("Tree::Unit".into(), vec![("parsel_input".into(), x_0.val()), ("rhs".into(), x_1.val())]), Tree::Node { fork: x_0, node: x_1, body: x_2, cause: x_3, std: x_4, val: x_5, ty_name: x_6, ty: x_7, recursive: x_8, sep: x_9, alloc: x_10, r#for: x_11, n: x_12, ast_node: x_13, to_tokens: x_14, größe: x_15, _1: x_16, key: x_17, vec: x_18, r#where: x_19, head: x_20, parsel_input: x_21, k: x_22, error: x_23, op: x_24, t: x_25, input: x_26, i: x_27, e: x_28, x1: x_29, buf: x_30, variant: x_31, r#match: x_32 } => Val::Node("Tree::Node".into(), vec![("fork".into(), x_0.val()), ("node".into(), x_1.val()), ("body".into(), x_2.val()), ("cause".into(), x_3.val()), ("std".into(), x_4.val()), ("val".into(), x_5.val()), ("ty_name".into(), x_6.val()), ("ty".into(), x_7.val()), ("recursive".into(), x_8.val()), ("sep".into(), x_9.val()), ("alloc".into(), x_10.val()), ("r#for".into(), x_11.val()), ("n".into(), x_12.val()), ("ast_node".into(), x_13.val()), ("to_tokens".into(), x_14.val()), ("größe".into(), x_15.val()), ("_1".into(), x_16.val()), ("key".into(), x_17.val()), ("vec".into(), x_18.val()), ("r#where".into(), x_19.val()), ("head".into(), x_20.val()), ("parsel_input".into(), x_21.val()), ("k".into(), x_22.val()), ("error".into(), x_23.val()), ("op".into(), x_24.val()), ("t".into(), x_25.val()), ("input".into(), x_26.val()), ("i".into(), x_27.val()), ("e".into(), x_28.val()), ("x1".into(), x_29.val()), ("buf".into(), x_30.val()), ("variant".into(), x_31.val()), ("r#match".into(), x_32.val())]), Tree::Eof (x_0, x_1) => Val::Node("Tree::Eof".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]) } }
    }
}
pub mod b64 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Größe {  pub attrs: I,  pub(super) prev: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] pub(super) alloc: F,  pub ctor_name: C, #[cfg(all())] pub(super) x1: syn::LitStr,  pub(crate) op: D,  pub(crate) parser: D,  pub(crate) größe: D,  pub(crate) res: F,  pub r#dyn: S,  r#else: S, #[parsel(recursive = true)] pub tmp: P,  pub r#enum: D, #[parsel(recursive)] pub(super) val: Q,  pub(crate) r#in: F,  right: P }
    impl HasG for Größe {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Größe", fields: vec![("attrs", <I as HasG>::g()), ("prev", <syn::LitStr as HasG>::g()), ("alloc", <F as HasG>::g()), ("ctor_name", <C as HasG>::g()), ("x1", <syn::LitStr as HasG>::g()), ("op", <D as HasG>::g()), ("parser", <D as HasG>::g()), ("größe", <D as HasG>::g()), ("res", <F as HasG>::g()), ("r#dyn", <S as HasG>::g()), ("r#else", <S as HasG>::g()), ("tmp", <P as HasG>::g()), ("r#enum", <D as HasG>::g()), ("val", <Q as HasG>::g()), ("r#in", <F as HasG>::g()), ("right", <P as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Größe".into(), vec![("attrs".into(), self.attrs.val()), ("prev".into(), self.prev.val()), ("alloc".into(), self.alloc.val()), ("ctor_name".into(), self.ctor_name.val()), ("x1".into(), self.x1.val()), ("op".into(), self.op.val()), ("parser".into(), self.parser.val()), ("größe".into(), self.größe.val()), ("res".into(), self.res.val()), ("r#dyn".into(), self.r#dyn.val()), ("r#else".into(), self.r#else.val()), ("tmp".into(), self.tmp.val()), ("r#enum".into(), self.r#enum.val()), ("val".into(), self.val.val()), ("r#in".into(), self.r#in.val()), ("right".into(), self.right.val())]) }
    }
}
pub mod b65 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Item { #[doc(hidden)] Stream {  buf: I, },  None(/// documented
 P, /// documented
 D), /// documented
 Vec2( Q, #[parsel(recursive)] F, #[allow(dead_code, unused)] Q, #[parsel(recursive)] F), #[cfg(all())] Maybe( D,  C), #[cfg(all())] lower {  parsel_field_0: Q, /// d
 #[parsel(recursive)] /// e
 tmp: I,  attrs: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] _1: I, /// d
 #[parsel(recursive)] /// e
 r: F,  none: C,  quote: S }, #[cfg(all())] B { #[parsel(recursive)] a: S, #[allow(dead_code, unused)] start: I, },  Some { #[allow(dead_code)] #[parsel(recursive)] tokens: D, #[parsel(recursive = true)] field: Either<Paren<I>, S> },  V1(#[allow(dead_code, unused)] C),  Stmt( S), #[doc(hidden)] under_score(#[allow(dead_code)] #[parsel(recursive)] b25::Lower_case),  Parse { #[allow(dead_code)] #[parsel(recursive)] v: D, #[parsel(recursive = true)] name: I,  r#async: syn::LitStr }, #[cfg(all())] Fn( F,  syn::LitStr, #[parsel(recursive = false)] D, #[parsel(recursive = true)] S, /// documented
 P,  syn::LitStr,  F,  S,  F), #[doc(hidden)] V0 {  head: syn::LitStr, #[allow(dead_code, unused)] default: syn::LitStr,  r#pub: I, #[cfg(all())] key: S, }, #[doc(hidden)] Été(#[parsel(recursive = true)] P),  Empty { #[allow(dead_code, unused)] x1: S }, /// documented
 Z( D, /// documented
 syn::LitStr),  Other {  ast_node: D, #[parsel(recursive)] left: C,  attrs: F, }, #[doc(hidden)] Token( F), /// documented
 U( I,  P,  F, #[allow(dead_code)] #[parsel(recursive)] syn::LitStr,  Q, /// documented
 D,  I,  D,  S),  Enum { #[parsel(recursive)] lhs: I, #[cfg(all())] value: S,  r#async: P, #[parsel(recursive)] t: I,  index: P, #[doc(hidden)] r#where: syn::LitStr, #[cfg(all())] end: I, },  Value(#[parsel(recursive)] D,  D, #[parsel(recursive)] syn::LitStr),  Right {  result: D, #[cfg(all())] r#pub: C, }, /// documented
 Type( Q),  X_0 { /// d
 #[parsel(recursive)] /// e
 __field0: Separated<ST2<I, D>, P>,  a: I, },  Variant( D,  P),  Literal( C,  F,  I,  D,  D, #[cfg(all())] S, #[allow(dead_code)] #[parsel(recursive)] Maybe<P, LeftAssoc<P, Paren<I>>>, #[parsel(recursive)] C, #[parsel(recursive)] I),  Y {  rest: D, }, #[doc(hidden)] Error2( D, #[parsel(recursive = false)] S, #[allow(dead_code, unused)] C, /// documented
 Q, #[parsel(recursive = false)] Box<S>,  D,  I, /// documented
 Q,  S,  I,  Box<S>, #[doc(hidden)] D,  P,  D, /// d
 #[parsel(recursive)] /// e
 D, #[parsel(recursive = true)] Q, #[cfg(all())] syn::LitStr,  D, #[parsel(recursive = true)] Q, /// documented
 D,  syn::LitStr,  S, #[parsel(recursive)] S,  P, /// documented
 D, /// documented
 S,  syn::LitStr,  D, #[parsel(recursive)] D,  I, #[doc(hidden)] C,  D, #[parsel(recursive)] D),  Result2(/// documented
 P),  Group( S, /// documented
 C,  C,  F, #[parsel(recursive)] F,  S,  C,  I,  D), #[cfg(all())] Unit(/// d
 #[parsel(recursive)] /// e
 C,  syn::LitStr,  P,  Any<I>,  D, #[parsel(recursive)] S),  Default( syn::LitStr, /// d
 #[parsel(recursive)] /// e
 F),  Any(#[doc(hidden)] D, #[allow(dead_code, unused)] C) }
    impl HasG for Item {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Item", ctor: "Stream", fields: vec![("buf", <I as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "None", fields: vec![("0", <P as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Vec2", fields: vec![("0", <Q as HasG>::g()), ("1", <F as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <F as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Maybe", fields: vec![("0", <D as HasG>::g()), ("1", <C as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "lower", fields: vec![("parsel_field_0", <Q as HasG>::g()), ("tmp", <I as HasG>::g()), ("attrs", <syn::LitStr as HasG>::g()), ("_1", <I as HasG>::g()), ("r", <F as HasG>::g()), ("none", <C as HasG>::g()), ("quote", <S as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "B", fields: vec![("a", <S as HasG>::g()), ("start", <I as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Some", fields: vec![("tokens", <D as HasG>::g()), ("field", <Either<Paren<I>, S> as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "V1", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Stmt", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "under_score", fields: vec![("0", <b25::Lower_case as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Parse", fields: vec![("v", <D as HasG>::g()), ("name", <I as HasG>::g()), ("r#async", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Fn", fields: vec![("0", <F as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <D as HasG>::g()), ("3", <S as HasG>::g()), ("4", <P as HasG>::g()), ("5", <syn::LitStr as HasG>::g()), ("6", <F as HasG>::g()), ("7", <S as HasG>::g()), ("8", <F as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "V0", fields: vec![("head", <syn::LitStr as HasG>::g()), ("default", <syn::LitStr as HasG>::g()), ("r#pub", <I as HasG>::g()), ("key", <S as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Été", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Empty", fields: vec![("x1", <S as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Z", fields: vec![("0", <D as HasG>::g()), ("1", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Other", fields: vec![("ast_node", <D as HasG>::g()), ("left", <C as HasG>::g()), ("attrs", <F as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Token", fields: vec![("0", <F as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "U", fields: vec![("0", <I as HasG>::g()), ("1", <P as HasG>::g()), ("2", <F as HasG>::g()), ("3", <syn::LitStr as HasG>::g()), ("4", <Q as HasG>::g()), ("5", <D as HasG>::g()), ("6", <I as HasG>::g()), ("7", <D as HasG>::g()), ("8", <S as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Enum", fields: vec![("lhs", <I as HasG>::g()), ("value", <S as HasG>::g()), ("r#async", <P as HasG>::g()), ("t", <I as HasG>::g()), ("index", <P as HasG>::g()), ("r#where", <syn::LitStr as HasG>::g()), ("end", <I as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Value", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g()), ("2", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Right", fields: vec![("result", <D as HasG>::g()), ("r#pub", <C as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Type", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "X_0", fields: vec![("__field0", <Separated<ST2<I, D>, P> as HasG>::g()), ("a", <I as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Variant", fields: vec![("0", <D as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Literal", fields: vec![("0", <C as HasG>::g()), ("1", <F as HasG>::g()), ("2", <I as HasG>::g()), ("3", <D as HasG>::g()), ("4", <D as HasG>::g()), ("5", <S as HasG>::g()), ("6", <Maybe<P, LeftAssoc<P, Paren<I>>> as HasG>::g()), ("7", <C as HasG>::g()), ("8", <I as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Y", fields: vec![("rest", <D as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Error2", fields: vec![("0", <D as HasG>::g()), ("1", <S as HasG>::g()), ("2", <C as HasG>::g()), ("3", <Q as HasG>::g()), ("4", <Box<S> as HasG>::g()), ("5", <D as HasG>::g()), ("6", <I as HasG>::g()), ("7", <Q as HasG>::g()), ("8", <S as HasG>::g()), ("9", <I as HasG>::g()), ("10", <Box<S> as HasG>::g()), ("11", <D as HasG>::g()), ("12", <P as HasG>::g()), ("13", <D as HasG>::g()), ("14", <D as HasG>::g()), ("15", <Q as HasG>::g()), ("16", <syn::LitStr as HasG>::g()), ("17", <D as HasG>::g()), ("18", <Q as HasG>::g()), ("19", <D as HasG>::g()), ("20", <syn::LitStr as HasG>::g()), ("21", <S as HasG>::g()), ("22", <S as HasG>::g()), ("23", <P as HasG>::g()), ("24", <D as HasG>::g()), ("25", <S as HasG>::g()), ("26", <syn::LitStr as HasG>::g()), ("27", <D as HasG>::g()), ("28", <D as HasG>::g()), ("29", <I as HasG>::g()), ("30", <C as HasG>::g()), ("31", <D as HasG>::g()), ("32", <D as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Result2", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Group", fields: vec![("0", <S as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <F as HasG>::g()), ("4", <F as HasG>::g()), ("5", <S as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g()), ("8", <D as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Unit", fields: vec![("0", <C as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <P as HasG>::g()), ("3", <Any<I> as HasG>::g()), ("4", <D as HasG>::g()), ("5", <S as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Default", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <F as HasG>::g())] }, Gm::Seq { en: "Item", ctor: "Any", fields: vec![("0", <D as HasG>::g()), ("1", <C as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Item::Stream { buf: x_0 } => Val::Node("Item::Stream".into(), vec![("buf".into(), x_0.val())]), Item::None (x_0, x_1) => Val::Node("Item::None".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Item::Vec2 (x_0, x_1, x_2, x_3) => Val::Node("Item::Vec2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Item::Maybe (x_0, x_1) => Val::Node("Item::Maybe".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Item::lower { parsel_field_0: x_0, tmp: x_1, attrs: x_2, _1: x_3, r: x_4, none: x_5, quote: x_6 } => Val::Node("Item::lower".into(), vec![("parsel_field_0".into(), x_0.val()), ("tmp".into(), x_1.val()), ("attrs".into(), x_2.val()), ("_1".into(), x_3.val()), ("r".into(), x_4.val()), ("none".into(), x_5.val()), ("quote".into(), x_6.val())]), Item::B { a: x_0, start: x_1 } => Val::Node("Item::B".into(), vec![("a".into(), x_0.val()), ("start".into(), x_1.val())]), Item::Some { tokens: x_0, field: x_1 } => Val::Node("Item::Some".into(), vec![("tokens".into(), x_0.val()), ("field".into(), x_1.val())]), Item::V1 (x_0) => Val::Node("Item::V1".into(), vec![("0".into(), x_0.val())]), Item::Stmt (x_0) => Val::Node("Item::Stmt".into(), vec![("0".into(), x_0.val())]), Item::under_score (x_0) => Val::Node("Item::under_score".into(), vec![("0".into(), x_0.val())]), Item::Parse { v: x_0, name: x_1, r#async: x_2 } => Val::Node("Item::Parse".into(), vec![("v".into(), x_0.val()), ("name".into(), x_1.val()), ("r#async".into(), x_2.val())]), Item::Fn (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Item::Fn".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Item::V0 { head: x_0, default: x_1, r#pub: x_2, key: x_3 } => Val::Node("Item::V0".into(), vec![("head".into(), x_0.val()), ("default".into(), x_1.val()), ("r#pub".into(), x_2.val()), ("key".into(), x_3.val())]), Item::Été (x_0) => Val::Node("Item::Été".into(), vec![("0".into(), x_0.val())]), Item::Empty { x1: x_0 } => Val::Node("Item::Empty".into(), vec![("x1".into(), x_0.val())]), Item::Z (x_0, x_1) => Val::Node("Item::Z".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Item::Other { ast_node: x_0, left: x_1, attrs: x_2 } => Val::Node("Item::Other".into(), vec![("ast_node".into(), x_0.val()), ("left".into(), x_1.val()), ("attrs".into(), x_2.val())]), Item::Token (x_0) => Val::Node("Item::Token".into(), vec![("0".into(), x_0.val())]), Item::U (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Item::U".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Item::Enum { lhs: x_0, value: x_1, r#async: x_2, t: x_3, index: x_4, r#where: x_5, end: x_6 } => Val::Node("Item::Enum".into(), vec![("lhs".into(), x_0.val()), ("value".into(), x_1.val()), ("r#async".into(), x_2.val()), ("t".into(), x_3.val()), ("index".into(), x_4.val()), ("r#where".into(), x_5.val()), ("end".into(), x_6.val())]), Item::Value (x_0, x_1, x_2) => Val::Node("Item::Value".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Item::Right { result: x_0, r#pub: x_1 } => Val::Node("Item::Right".into(), vec![("result".into(), x_0.val()), ("r#pub".into(), x_1.val())]), Item::Type (x_0) => Val::Node("Item::Type".into(), vec![("0".into(), x_0.val())]), Item::X_0 { __field0: x_0, a: x_1 } => Val::Node("Item::X_0".into(), vec![("__field0".into(), x_0.val()), ("a".into(), x_1.val())]), Item::Variant (x_0, x_1) => Val::Node("Item::Variant".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Item::Literal (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Item::Literal".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Item::Y { rest: x_0 } => Val::Node("Item::Y".into(), vec![("rest".into(), x_0.val())]), Item::Error2 (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10, x_11, x_12, x_13, x_14, x_15, x_16, x_17, x_18, x_19, x_20, x_21, x_22, x_23, x_24, x_25, x_26, x_27, x_28, x_29, x_30, x_31, x_32) => Val::Node("Item::Error2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val()), ("11".into(), x_11.val()), ("12".into(), x_12.val()), ("13".into(), x_13.val()), ("14".into(), x_14.val()), ("15".into(), x_15.val()), ("16".into(), x_16.val()), ("17".into(), x_17.val()), ("18".into(), x_18.val()), ("19".into(), x_19.val()), ("20".into(), x_20.val()), ("21".into(), x_21.val()), ("22".into(), x_22.val()), ("23".into(), x_23.val()), ("24".into(), x_24.val()), ("25".into(), x_25.val()), ("26".into(), x_26.val()), ("27".into(), x_27.val()), ("28".into(), x_28.val()), ("29".into(), x_29.val()), ("30".into(), x_30.val()), ("31".into(), x_31.val()), ("32".into(), x_32.val())]), Item::Result2 (x_0) => Val::Node("Item::Result2".into(), vec![("0".into(), x_0.val())]), Item::Group (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Item::Group".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Item::Unit (x_0, x_1, x_2, x_3, x_4, x_5) => Val::Node("Item::Unit".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val())]), Item::Default (x_0, x_1) => Val::Node("Item::Default".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Item::Any (x_0, x_1) => Val::Node("Item::Any".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]) } }
    }
}
pub mod b66 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Abc { #[allow(dead_code, unused)] pub t: F, #[parsel(recursive = false)] pub tokens: D,  iter: D,  lookahead: I,  r#match: C, #[doc(hidden)] pub that: D,  pub ty_name: I, #[parsel(recursive = true)] pub end: I,  pub parsel: I,  pub head: D,  pub ast_node: C, #[cfg(all())] pub(crate) field_index: Maybe<P, Q>,  pub r#let: P,  pub(super) opt: Q,  pub(super) _0: syn::LitStr, #[cfg(all())] pub bounds: F,  pub(crate) enum_name: b4::Lower_case,  pub(super) rhs: C, #[allow(dead_code)] #[parsel(recursive)] pub ok: syn::LitStr, /// d
 #[parsel(recursive)] /// e
 pub i: P, }
    impl HasG for Abc {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Abc", fields: vec![("t", <F as HasG>::g()), ("tokens", <D as HasG>::g()), ("iter", <D as HasG>::g()), ("lookahead", <I as HasG>::g()), ("r#match", <C as HasG>::g()), ("that", <D as HasG>::g()), ("ty_name", <I as HasG>::g()), ("end", <I as HasG>::g()), ("parsel", <I as HasG>::g()), ("head", <D as HasG>::g()), ("ast_node", <C as HasG>::g()), ("field_index", <Maybe<P, Q> as HasG>::g()), ("r#let", <P as HasG>::g()), ("opt", <Q as HasG>::g()), ("_0", <syn::LitStr as HasG>::g()), ("bounds", <F as HasG>::g()), ("enum_name", <b4::Lower_case as HasG>::g()), ("rhs", <C as HasG>::g()), ("ok", <syn::LitStr as HasG>::g()), ("i", <P as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Abc".into(), vec![("t".into(), self.t.val()), ("tokens".into(), self.tokens.val()), ("iter".into(), self.iter.val()), ("lookahead".into(), self.lookahead.val()), ("r#match".into(), self.r#match.val()), ("that".into(), self.that.val()), ("ty_name".into(), self.ty_name.val()), ("end".into(), self.end.val()), ("parsel".into(), self.parsel.val()), ("head".into(), self.head.val()), ("ast_node".into(), self.ast_node.val()), ("field_index".into(), self.field_index.val()), ("r#let".into(), self.r#let.val()), ("opt".into(), self.opt.val()), ("_0".into(), self._0.val()), ("bounds".into(), self.bounds.val()), ("enum_name".into(), self.enum_name.val()), ("rhs".into(), self.rhs.val()), ("ok".into(), self.ok.val()), ("i".into(), self.i.val())]) }
    }
}
pub mod b67 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Lower_case {  U(#[parsel(recursive = true)] D,  I,  b0::Q_,  syn::LitStr, /// documented
 D), /// documented
 Parse, #[allow(dead_code)] K, #[cfg(all())] Unknown { /// documented
 r#impl: P, }, #[allow(dead_code)] Option2(#[doc(hidden)] P),  Input(#[parsel(recursive = false)] syn::LitStr), #[doc(hidden)] Named {  v: I,  variant_name: C,  r#type: C, /// documented
 parsel_field_0: C },  Boxed { #[allow(dead_code)] #[parsel(recursive)] o: I },  Enum( F), #[allow(dead_code)] Self_(#[doc(hidden)] S, #[cfg(all())] I), #[allow(dead_code)] Err( S,  I),  Punct {  parsel_input: b20::Z9, }, #[cfg(all())] Y(#[parsel(recursive = true)] D,  D),  Literal,  Stmt { #[doc(hidden)] start: D,  err: Q,  i: D, #[parsel(recursive = false)] v: I,  SHOUT: P, }, #[allow(dead_code)] under_score {  first: b25::Lower_case, #[parsel(recursive = false)] res: S },  V0( D, #[parsel(recursive)] P), #[cfg(all())] V1( D, #[allow(dead_code)] #[parsel(recursive)] D),  None { #[parsel(recursive)] parsel_field_0: F, #[parsel(recursive = false)] __field0: D, #[parsel(recursive)] ident: I,  body: F,  e: F, #[parsel(recursive)] default: D, #[allow(dead_code, unused)] recursive: F },  String2( S) }
    impl HasG for Lower_case {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Lower_case", ctor: "U", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g()), ("2", <b0::Q_ as HasG>::g()), ("3", <syn::LitStr as HasG>::g()), ("4", <D as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Parse", fields: vec![] }, Gm::Seq { en: "Lower_case", ctor: "K", fields: vec![] }, Gm::Seq { en: "Lower_case", ctor: "Unknown", fields: vec![("r#impl", <P as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Option2", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Input", fields: vec![("0", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Named", fields: vec![("v", <I as HasG>::g()), ("variant_name", <C as HasG>::g()), ("r#type", <C as HasG>::g()), ("parsel_field_0", <C as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Boxed", fields: vec![("o", <I as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Enum", fields: vec![("0", <F as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Self_", fields: vec![("0", <S as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Err", fields: vec![("0", <S as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Punct", fields: vec![("parsel_input", <b20::Z9 as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Y", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "Literal", fields: vec![] }, Gm::Seq { en: "Lower_case", ctor: "Stmt", fields: vec![("start", <D as HasG>::g()), ("err", <Q as HasG>::g()), ("i", <D as HasG>::g()), ("v", <I as HasG>::g()), ("SHOUT", <P as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "under_score", fields: vec![("first", <b25::Lower_case as HasG>::g()), ("res", <S as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "V0", fields: vec![("0", <D as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "V1", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "None", fields: vec![("parsel_field_0", <F as HasG>::g()), ("__field0", <D as HasG>::g()), ("ident", <I as HasG>::g()), ("body", <F as HasG>::g()), ("e", <F as HasG>::g()), ("default", <D as HasG>::g()), ("recursive", <F as HasG>::g())] }, Gm::Seq { en: "Lower_case", ctor: "String2", fields: vec![("0", <S as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Lower_case::U (x_0, x_1, x_2, x_3, x_4) => Val::Node("Lower_case::U".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Lower_case::Parse  => Val::Node("Lower_case::Parse".into(), vec![]), Lower_case::K  => Val::Node("Lower_case::K".into(), vec![]), Lower_case::Unknown { r#impl: x_0 } => Val::Node("Lower_case::Unknown".into(), vec![("r#impl".into(), x_0.val())]), Lower_case::Option2 (x_0) => Val::Node("Lower_case::Option2".into(), vec![("0".into(), x_0.val())]), Lower_case::Input (x_0) => Val::Node("Lower_case::Input".into(), vec![("0".into(), x_0.val())]), Lower_case::Named { v: x_0, variant_name: x_1, r#type: x_2, parsel_field_0: x_3 } => Val::Node("Lower_case::Named".into(), vec![("v".into(), x_0.val()), ("variant_name".into(), x_1.val()), ("r#type".into(), x_2.val()), ("parsel_field_0".into(), x_3.val())]), Lower_case::Boxed { o: x_0 } => Val::Node("Lower_case::Boxed".into(), vec![("o".into(), x_0.val())]), Lower_case::Enum (x_0) => Val::Node("Lower_case::Enum".into(), vec![("0".into(), x_0.val())]), Lower_case::Self_ (x_0, x_1) => Val::Node("Lower_case::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Lower_case::Err (x_0, x_1) => Val::Node("Lower_case::Err".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Lower_case::Punct { parsel_input: x_0 } => Val::Node("Lower_case::Punct".into(), vec![("parsel_input".into(), x_0.val())]), Lower_case::Y (x_0, x_1) => Val::Node("Lower_case::Y".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Lower_case::Literal  => Val::Node("Lower_case::Literal".into(), vec![]), Lower_case::Stmt { start: x_0, err: x_1, i: x_2, v: x_3, SHOUT: x_4 } => Val::Node("Lower_case::Stmt".into(), vec![("start".into(), x_0.val()), ("err".into(), x_1.val()), ("i".into(), x_2.val()), ("v".into(), x_3.val()), ("SHOUT".into(), x_4.val())]), Lower_case::under_score { first: x_0, res: x_1 } => Val::Node("Lower_case::under_score".into(), vec![("first".into(), x_0.val()), ("res".into(), x_1.val())]), Lower_case::V0 (x_0, x_1) => Val::Node("Lower_case::V0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Lower_case::V1 (x_0, x_1) => Val::Node("Lower_case::V1".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Lower_case::None { parsel_field_0: x_0, __field0: x_1, ident: x_2, body: x_3, e: x_4, default: x_5, recursive: x_6 } => Val::Node("Lower_case::None".into(), vec![("parsel_field_0".into(), x_0.val()), ("__field0".into(), x_1.val()), ("ident".into(), x_2.val()), ("body".into(), x_3.val()), ("e".into(), x_4.val()), ("default".into(), x_5.val()), ("recursive".into(), x_6.val())]), Lower_case::String2 (x_0) => Val::Node("Lower_case::String2".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b68 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct W( pub P, #[allow(dead_code)] #[parsel(recursive)] pub D,  pub(crate) D,  pub S,  pub I, #[parsel(recursive = true)] pub(crate) syn::LitStr, #[allow(dead_code, unused)] pub I,  I,  pub(crate) C,  pub(crate) D, #[parsel(recursive = false)] pub(crate) Q,  pub(crate) C,  pub I,  pub(super) I,  pub C, #[doc(hidden)] C,  syn::LitStr,  pub Q,  pub(super) Q,  pub D,  pub C,  pub I, #[cfg(all())] pub(super) Q, /// d
 #[parsel(recursive)] /// e
 pub(crate) I, #[parsel(recursive = true)] pub I,  pub(super) S,  pub(crate) I, #[parsel(recursive)] pub(super) I,  pub D, #[parsel(recursive = true)] pub(crate) D, /// d
 #[parsel(recursive)] /// e
 pub P);
    impl HasG for W {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "W", fields: vec![("0", <P as HasG>::g()), ("1", <D as HasG>::g()), ("2", <D as HasG>::g()), ("3", <S as HasG>::g()), ("4", <I as HasG>::g()), ("5", <syn::LitStr as HasG>::g()), ("6", <I as HasG>::g()), ("7", <I as HasG>::g()), ("8", <C as HasG>::g()), ("9", <D as HasG>::g()), ("10", <Q as HasG>::g()), ("11", <C as HasG>::g()), ("12", <I as HasG>::g()), ("13", <I as HasG>::g()), ("14", <C as HasG>::g()), ("15", <C as HasG>::g()), ("16", <syn::LitStr as HasG>::g()), ("17", <Q as HasG>::g()), ("18", <Q as HasG>::g()), ("19", <D as HasG>::g()), ("20", <C as HasG>::g()), ("21", <I as HasG>::g()), ("22", <Q as HasG>::g()), ("23", <I as HasG>::g()), ("24", <I as HasG>::g()), ("25", <S as HasG>::g()), ("26", <I as HasG>::g()), ("27", <I as HasG>::g()), ("28", <D as HasG>::g()), ("29", <D as HasG>::g()), ("30", <P as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("W".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val()), ("9".into(), self.9.val()), ("10".into(), self.10.val()), ("11".into(), self.11.val()), ("12".into(), self.12.val()), ("13".into(), self.13.val()), ("14".into(), self.14.val()), ("15".into(), self.15.val()), ("16".into(), self.16.val()), ("17".into(), self.17.val()), ("18".into(), self.18.val()), ("19".into(), self.19.val()), ("20".into(), self.20.val()), ("21".into(), self.21.val()), ("22".into(), self.22.val()), ("23".into(), self.23.val()), ("24".into(), self.24.val()), ("25".into(), self.25.val()), ("26".into(), self.26.val()), ("27".into(), self.27.val()), ("28".into(), self.28.val()), ("29".into(), self.29.val()), ("30".into(), self.30.val())]) }
    }
}
pub mod b69 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum X {  Many, #[doc(hidden)] Core( D,  I,  P,  D,  C,  F,  F, #[allow(dead_code)] #[parsel(recursive)] C,  Q),  under_score(#[parsel(recursive = true)] D,  Q,  I),  Ok2 { /// d
 #[parsel(recursive)] /// e
 core: F,  field: F, },  Error2 { #[parsel(recursive = true)] end: I }, /// documented
 Syn(/// documented
 syn::LitStr),  V1(#[parsel(recursive)] F), #[doc(hidden)] Y { /// documented
 empty: I,  r#async: I, },  U {  parsel_field_0: F, #[allow(dead_code, unused)] data: D },  Fn(#[parsel(recursive = true)] I, #[cfg(all())] C),  X,  X_0(#[allow(dead_code, unused)] P, #[parsel(recursive = false)] D, #[parsel(recursive)] I), #[allow(dead_code)] Literal( C),  Stmt( S),  Err( P, #[parsel(recursive)] C),  Left() }
    impl HasG for X {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "X", ctor: "Many", fields: vec![] }, Gm::Seq { en: "X", ctor: "Core", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g()), ("2", <P as HasG>::g()), ("3", <D as HasG>::g()), ("4", <C as HasG>::g()), ("5", <F as HasG>::g()), ("6", <F as HasG>::g()), ("7", <C as HasG>::g()), ("8", <Q as HasG>::g())] }, Gm::Seq { en: "X", ctor: "under_score", fields: vec![("0", <D as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "X", ctor: "Ok2", fields: vec![("core", <F as HasG>::g()), ("field", <F as HasG>::g())] }, Gm::Seq { en: "X", ctor: "Error2", fields: vec![("end", <I as HasG>::g())] }, Gm::Seq { en: "X", ctor: "Syn", fields: vec![("0", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "X", ctor: "V1", fields: vec![("0", <F as HasG>::g())] }, Gm::Seq { en: "X", ctor: "Y", fields: vec![("empty", <I as HasG>::g()), ("r#async", <I as HasG>::g())] }, Gm::Seq { en: "X", ctor: "U", fields: vec![("parsel_field_0", <F as HasG>::g()), ("data", <D as HasG>::g())] }, Gm::Seq { en: "X", ctor: "Fn", fields: vec![("0", <I as HasG>::g()), ("1", <C as HasG>::g())] }, Gm::Seq { en: "X", ctor: "X", fields: vec![] }, Gm::Seq { en: "X", ctor: "X_0", fields: vec![("0", <P as HasG>::g()), ("1", <D as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "X", ctor: "Literal", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "X", ctor: "Stmt", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "X", ctor: "Err", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g())] }, Gm::Seq { en: "X", ctor: "Left", fields: vec![] }]) }
        fn val(&self) -> Val { match self { X::Many  => Val::Node("X::Many".into(), vec![]), X::Core (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("X::Core".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), X::under_score (x_0, x_1, x_2) => Val::Node("X::under_score".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), X::Ok2 { core: x_0, field: x_1 } => Val::Node("X::Ok2".into(), vec![("core".into(), x_0.val()), ("field".into(), x_1.val())]), X::Error2 { end: x_0 } => Val::Node("X::Error2".into(), vec![("end".into(), x_0.val())]), X::Syn (x_0) => Val::Node("X::Syn".into(), vec![("0".into(), x_0.val())]), X::V1 (x_0) => Val::Node("X::V1".into(), vec![("0".into(), x_0.val())]), X::Y { empty: x_0, r#async: x_1 } => Val::Node("X::Y".into(), vec![("empty".into(), x_0.val()), ("r#async".into(), x_1.val())]), X::U { parsel_field_0: x_0, data: x_1 } => Val::Node("X::U".into(), vec![("parsel_field_0".into(), x_0.val()), ("data".into(), x_1.val())]), X::Fn (x_0, x_1) => Val::Node("X::Fn".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), X::X  => Val::Node("X::X".into(), vec![]), X::X_0 (x_0, x_1, x_2) => Val::Node("X::X_0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), X::Literal (x_0) => Val::Node("X::Literal".into(), vec![("0".into(), x_0.val())]), X::Stmt (x_0) => Val::Node("X::Stmt".into(), vec![("0".into(), x_0.val())]), X::Err (x_0, x_1) => Val::Node("X::Err".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), X::Left () => Val::Node("X::Left".into(), vec![]) } }
    }
}
pub mod b70 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Node {  pub start: Box<Paren<F>>,  pub(super) e: syn::LitStr, #[parsel(recursive)] pub(crate) x: I, #[cfg(all())] pub attrs: Bracket<E2Prefix<I, C, D>>,  pub formatter: C,  pub(crate) r#async: F,  t: I,  pub(crate) ret: I, #[parsel(recursive)] pub r#struct: Any<E2<I, D>>, }
    impl HasG for Node {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Node", fields: vec![("start", <Box<Paren<F>> as HasG>::g()), ("e", <syn::LitStr as HasG>::g()), ("x", <I as HasG>::g()), ("attrs", <Bracket<E2Prefix<I, C, D>> as HasG>::g()), ("formatter", <C as HasG>::g()), ("r#async", <F as HasG>::g()), ("t", <I as HasG>::g()), ("ret", <I as HasG>::g()), ("r#struct", <Any<E2<I, D>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Node".into(), vec![("start".into(), self.start.val()), ("e".into(), self.e.val()), ("x".into(), self.x.val()), ("attrs".into(), self.attrs.val()), ("formatter".into(), self.formatter.val()), ("r#async".into(), self.r#async.val()), ("t".into(), self.t.val()), ("ret".into(), self.ret.val()), ("r#struct".into(), self.r#struct.val())]) }
    }
}
pub mod b71 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Stream { #[doc(hidden)] Struct,  Fork( I,  syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] C, #[doc(hidden)] D,  syn::LitStr,  P, #[allow(dead_code, unused)] S,  syn::LitStr,  F, #[parsel(recursive = false)] C, #[parsel(recursive = true)] D, #[allow(dead_code, unused)] D,  I,  D,  Box<Punctuated<syn::LitStr, P>>,  I,  I, #[parsel(recursive)] C,  D, #[parsel(recursive)] F),  Tokens { #[allow(dead_code)] #[parsel(recursive)] token: P, #[parsel(recursive = true)] inner: D, },  None {  t: S, #[parsel(recursive)] last: S, #[parsel(recursive = false)] Upper: I, #[parsel(recursive = false)] o: D, }, #[allow(dead_code)] Ident( F, #[parsel(recursive)] S),  Default(#[doc(hidden)] D) }
    impl HasG for Stream {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Stream", ctor: "Struct", fields: vec![] }, Gm::Seq { en: "Stream", ctor: "Fork", fields: vec![("0", <I as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <C as HasG>::g()), ("3", <D as HasG>::g()), ("4", <syn::LitStr as HasG>::g()), ("5", <P as HasG>::g()), ("6", <S as HasG>::g()), ("7", <syn::LitStr as HasG>::g()), ("8", <F as HasG>::g()), ("9", <C as HasG>::g()), ("10", <D as HasG>::g()), ("11", <D as HasG>::g()), ("12", <I as HasG>::g()), ("13", <D as HasG>::g()), ("14", <Box<Punctuated<syn::LitStr, P>> as HasG>::g()), ("15", <I as HasG>::g()), ("16", <I as HasG>::g()), ("17", <C as HasG>::g()), ("18", <D as HasG>::g()), ("19", <F as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Tokens", fields: vec![("token", <P as HasG>::g()), ("inner", <D as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "None", fields: vec![("t", <S as HasG>::g()), ("last", <S as HasG>::g()), ("Upper", <I as HasG>::g()), ("o", <D as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Ident", fields: vec![("0", <F as HasG>::g()), ("1", <S as HasG>::g())] }, Gm::Seq { en: "Stream", ctor: "Default", fields: vec![("0", <D as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Stream::Struct  => Val::Node("Stream::Struct".into(), vec![]), Stream::Fork (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10, x_11, x_12, x_13, x_14, x_15, x_16, x_17, x_18, x_19) => Val::Node("Stream::Fork".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val()), ("11".into(), x_11.val()), ("12".into(), x_12.val()), ("13".into(), x_13.val()), ("14".into(), x_14.val()), ("15".into(), x_15.val()), ("16".into(), x_16.val()), ("17".into(), x_17.val()), ("18".into(), x_18.val()), ("19".into(), x_19.val())]), Stream::Tokens { token: x_0, inner: x_1 } => Val::Node("Stream::Tokens".into(), vec![("token".into(), x_0.val()), ("inner".into(), x_1.val())]), Stream::None { t: x_0, last: x_1, Upper: x_2, o: x_3 } => Val::Node("Stream::None".into(), vec![("t".into(), x_0.val()), ("last".into(), x_1.val()), ("Upper".into(), x_2.val()), ("o".into(), x_3.val())]), Stream::Ident (x_0, x_1) => Val::Node("Stream::Ident".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Stream::Default (x_0) => Val::Node("Stream::Default".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b72 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Input( pub P,  pub C,  pub D, #[parsel(recursive)] pub P,  D, /// d
 #[parsel(recursive)] /// e
 I, /// d
 #[parsel(recursive)] /// e
 pub F,  pub F,  pub S,  pub I,  pub C,  pub(crate) F,  I,  pub C, #[parsel(recursive = false)] pub C,  pub I,  I, #[parsel(recursive)] pub P, #[doc(hidden)] pub(crate) Maybe<P, Maybe<C, P>>, #[parsel(recursive)] pub S, #[allow(dead_code)] #[parsel(recursive)] pub(super) P, #[parsel(recursive = false)] pub D, #[cfg(all())] pub Either<I, D>, /// d
 #[parsel(recursive)] /// e
 pub I,  pub F, #[allow(dead_code, unused)] pub(crate) I, #[parsel(recursive)] F,  pub(crate) D,  pub syn::LitStr, /// d
 #[parsel(recursive)] /// e
 pub I,  pub Q, #[parsel(recursive = true)] pub S);
    impl HasG for Input {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Input", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <D as HasG>::g()), ("3", <P as HasG>::g()), ("4", <D as HasG>::g()), ("5", <I as HasG>::g()), ("6", <F as HasG>::g()), ("7", <F as HasG>::g()), ("8", <S as HasG>::g()), ("9", <I as HasG>::g()), ("10", <C as HasG>::g()), ("11", <F as HasG>::g()), ("12", <I as HasG>::g()), ("13", <C as HasG>::g()), ("14", <C as HasG>::g()), ("15", <I as HasG>::g()), ("16", <I as HasG>::g()), ("17", <P as HasG>::g()), ("18", <Maybe<P, Maybe<C, P>> as HasG>::g()), ("19", <S as HasG>::g()), ("20", <P as HasG>::g()), ("21", <D as HasG>::g()), ("22", <Either<I, D> as HasG>::g()), ("23", <I as HasG>::g()), ("24", <F as HasG>::g()), ("25", <I as HasG>::g()), ("26", <F as HasG>::g()), ("27", <D as HasG>::g()), ("28", <syn::LitStr as HasG>::g()), ("29", <I as HasG>::g()), ("30", <Q as HasG>::g()), ("31", <S as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Input".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val()), ("9".into(), self.9.val()), ("10".into(), self.10.val()), ("11".into(), self.11.val()), ("12".into(), self.12.val()), ("13".into(), self.13.val()), ("14".into(), self.14.val()), ("15".into(), self.15.val()), ("16".into(), self.16.val()), ("17".into(), self.17.val()), ("18".into(), self.18.val()), ("19".into(), self.19.val()), ("20".into(), self.20.val()), ("21".into(), self.21.val()), ("22".into(), self.22.val()), ("23".into(), self.23.val()), ("24".into(), self.24.val()), ("25".into(), self.25.val()), ("26".into(), self.26.val()), ("27".into(), self.27.val()), ("28".into(), self.28.val()), ("29".into(), self.29.val()), ("30".into(), self.30.val()), ("31".into(), self.31.val())]) }
    }
}
pub mod b73 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Production { /// documented
 lower(#[allow(dead_code, unused)] Q, #[cfg(all())] Box<Box<syn::LitStr>>,  D, #[parsel(recursive)] Bracket<Separated<D, P>>,  Punctuated<I, C>) }
    impl HasG for Production {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Production", ctor: "lower", fields: vec![("0", <Q as HasG>::g()), ("1", <Box<Box<syn::LitStr>> as HasG>::g()), ("2", <D as HasG>::g()), ("3", <Bracket<Separated<D, P>> as HasG>::g()), ("4", <Punctuated<I, C> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Production::lower (x_0, x_1, x_2, x_3, x_4) => Val::Node("Production::lower".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]) } }
    }
}
pub mod b74 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Tree;
    impl HasG for Tree {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Tree", fields: vec![] } }
        fn val(&self) -> Val { Val::Node("Tree".into(), vec![]) }
    }
}
pub mod b75 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Expr {  Ok2(#[parsel(recursive)] b29::T, /// documented
 Any<syn::LitStr>),  Node( Any<I>),  Été( Any<E2<I, D>>,  Separated<I, C>,  P,  Maybe<Q, syn::LitStr>,  I),  Tokens }
    impl HasG for Expr {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Expr", ctor: "Ok2", fields: vec![("0", <b29::T as HasG>::g()), ("1", <Any<syn::LitStr> as HasG>::g())] }, Gm::Seq { en: "Expr", ctor: "Node", fields: vec![("0", <Any<I> as HasG>::g())] }, Gm::Seq { en: "Expr", ctor: "Été", fields: vec![("0", <Any<E2<I, D>> as HasG>::g()), ("1", <Separated<I, C> as HasG>::g()), ("2", <P as HasG>::g()), ("3", <Maybe<Q, syn::LitStr> as HasG>::g()), ("4", <I as HasG>::g())] }, Gm::Seq { en: "Expr", ctor: "Tokens", fields: vec![] }]) }
        fn val(&self) -> Val { match self { Expr::Ok2 (x_0, x_1) => Val::Node("Expr::Ok2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Expr::Node (x_0) => Val::Node("Expr::Node".into(), vec![("0".into(), x_0.val())]), Expr::Été (x_0, x_1, x_2, x_3, x_4) => Val::Node("Expr::Été".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Expr::Tokens  => Val::Node("Expr::Tokens".into(), vec![]) } }
    }
}
pub mod b76 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Chain_ { #[parsel(recursive = true)] pub(super) empty: Box<Maybe<S, I>>, /// documented
 pub(crate) fork: Paren<Any<E2<I, D>>>, #[allow(dead_code)] #[parsel(recursive)] pub(crate) r#use: Maybe<P, Bracket<P>> }
    impl HasG for Chain_ {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Chain_", fields: vec![("empty", <Box<Maybe<S, I>> as HasG>::g()), ("fork", <Paren<Any<E2<I, D>>> as HasG>::g()), ("r#use", <Maybe<P, Bracket<P>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Chain_".into(), vec![("empty".into(), self.empty.val()), ("fork".into(), self.fork.val()), ("r#use".into(), self.r#use.val())]) }
    }
}
pub mod b77 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Entry {  Other(#[parsel(recursive)] syn::LitStr), #[allow(dead_code)] Paren( C, /// documented
 Either<I, P>, #[parsel(recursive = true)] C,  D,  I, #[parsel(recursive = true)] D, #[cfg(all())] D), #[cfg(all())] Default { /// documented
 x: Brace<Either<D, P>>,  parsel: I, #[parsel(recursive)] bindings: C, #[parsel(recursive = true)] parsel_field_X_0: I,  r#if: S } }
    impl HasG for Entry {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Entry", ctor: "Other", fields: vec![("0", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Paren", fields: vec![("0", <C as HasG>::g()), ("1", <Either<I, P> as HasG>::g()), ("2", <C as HasG>::g()), ("3", <D as HasG>::g()), ("4", <I as HasG>::g()), ("5", <D as HasG>::g()), ("6", <D as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Default", fields: vec![("x", <Brace<Either<D, P>> as HasG>::g()), ("parsel", <I as HasG>::g()), ("bindings", <C as HasG>::g()), ("parsel_field_X_0", <I as HasG>::g()), ("r#if", <S as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Entry::Other (x_0) => Val::Node("Entry::Other".into(), vec![("0".into(), x_0.val())]), Entry::Paren (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Entry::Paren".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Entry::Default { x: x_0, parsel: x_1, bindings: x_2, parsel_field_X_0: x_3, r#if: x_4 } => Val::Node("Entry::Default".into(), vec![("x".into(), x_0.val()), ("parsel".into(), x_1.val()), ("bindings".into(), x_2.val()), ("parsel_field_X_0".into(), x_3.val()), ("r#if".into(), x_4.val())]) } }
    }
}
pub mod b78 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Y( pub(crate) Maybe<P, LeftAssoc<P, ST2<I, D>>>, /// documented
 pub(crate) D,  D,  pub(super) P,  pub(crate) D, /// d
 #[parsel(recursive)] /// e
 pub Maybe<C, Paren<S>>);
    impl HasG for Y {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Y", fields: vec![("0", <Maybe<P, LeftAssoc<P, ST2<I, D>>> as HasG>::g()), ("1", <D as HasG>::g()), ("2", <D as HasG>::g()), ("3", <P as HasG>::g()), ("4", <D as HasG>::g()), ("5", <Maybe<C, Paren<S>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Y".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val())]) }
    }
}
pub mod b79 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Formatter2 {  Token {  quote: Any<I>, /// d
 #[parsel(recursive)] /// e
 to_tokens: C,  ast_node: b20::Z9,  prev: RightAssoc<P, Paren<I>>,  token: b70::Node } }
    impl HasG for Formatter2 {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Formatter2", ctor: "Token", fields: vec![("quote", <Any<I> as HasG>::g()), ("to_tokens", <C as HasG>::g()), ("ast_node", <b20::Z9 as HasG>::g()), ("prev", <RightAssoc<P, Paren<I>> as HasG>::g()), ("token", <b70::Node as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Formatter2::Token { quote: x_0, to_tokens: x_1, ast_node: x_2, prev: x_3, token: x_4 } => Val::Node("Formatter2::Token".into(), vec![("quote".into(), x_0.val()), ("to_tokens".into(), x_1.val()), ("ast_node".into(), x_2.val()), ("prev".into(), x_3.val()), ("token".into(), x_4.val())]) } }
    }
}
pub mod b80 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Wrapper { /// d
 #[parsel(recursive)] /// e
 pub r#try: I,  parsel_field_X_0: Punctuated<syn::LitStr, C>, #[doc(hidden)] pub(crate) some: I,  größe: Maybe<S, I>,  pub __self: F,  pub span: P,  pub(super) r#dyn: RightAssoc<P, E2<I, D>> }
    impl HasG for Wrapper {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Wrapper", fields: vec![("r#try", <I as HasG>::g()), ("parsel_field_X_0", <Punctuated<syn::LitStr, C> as HasG>::g()), ("some", <I as HasG>::g()), ("größe", <Maybe<S, I> as HasG>::g()), ("__self", <F as HasG>::g()), ("span", <P as HasG>::g()), ("r#dyn", <RightAssoc<P, E2<I, D>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Wrapper".into(), vec![("r#try".into(), self.r#try.val()), ("parsel_field_X_0".into(), self.parsel_field_X_0.val()), ("some".into(), self.some.val()), ("größe".into(), self.größe.val()), ("__self".into(), self.__self.val()), ("span".into(), self.span.val()), ("r#dyn".into(), self.r#dyn.val())]) }
    }
}
pub mod b81 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Tree {  Maybe( I, #[parsel(recursive)] D, #[parsel(recursive)] D),  String2( C, #[doc(hidden)] Brace<Maybe<S, F>>, #[parsel(recursive)] D),  Z( syn::LitStr),  Tuple { /// d
 #[parsel(recursive)] /// e
 lhs: P, #[cfg(all())] parsel_field_X_0: I,  res: D,  sep: Q,  ctor: S },  Type(#[parsel(recursive = true)] D),  Literal( C),  Parse_ { #[parsel(recursive)] r#use: Q, #[doc(hidden)] tmp: Q, #[allow(dead_code)] #[parsel(recursive)] begin_token: C,  node: C, },  Unit, #[doc(hidden)] Option2(#[parsel(recursive)] C,  Q, #[cfg(all())] I, /// d
 #[parsel(recursive)] /// e
 Q, /// documented
 P),  A { /// documented
 a: C, },  lower(/// documented
 P,  syn::LitStr), #[allow(dead_code)] Right(#[parsel(recursive = true)] P,  I,  F),  Punct( Either<E2<I, D>, syn::LitStr>,  syn::LitStr,  Q, /// d
 #[parsel(recursive)] /// e
 F), #[cfg(all())] V0( S, #[allow(dead_code, unused)] D, #[parsel(recursive)] D,  P,  S),  Stream { #[allow(dead_code)] #[parsel(recursive)] r#use: D, }, #[doc(hidden)] Été( I,  F),  under_score(#[doc(hidden)] C,  D,  F,  S),  B {  data: S, #[allow(dead_code, unused)] index: P, },  Eof( I, #[parsel(recursive = true)] P,  I,  I, #[doc(hidden)] F, #[parsel(recursive = true)] I,  syn::LitStr),  K(),  Some { #[parsel(recursive)] empty: D, #[parsel(recursive = false)] last: Q, },  Recursive(#[parsel(recursive)] P,  I,  Q, #[allow(dead_code, unused)] I, #[parsel(recursive = false)] D,  Q,  D,  I, #[allow(dead_code)] #[parsel(recursive)] C),  Left( I,  Q,  D,  D, #[cfg(all())] syn::LitStr,  I, #[cfg(all())] F), /// documented
 U { #[allow(dead_code)] #[parsel(recursive)] name: S, #[parsel(recursive)] res: C }, /// documented
 Other( D,  I),  Unknown(),  Core( S),  Ident { #[parsel(recursive = false)] ctor_name: C,  r#async: syn::LitStr,  out: syn::LitStr,  empty: D,  opt: C, },  Many( I), #[cfg(all())] Result2( syn::LitStr, #[cfg(all())] Punctuated<ST2<I, D>, C>,  P, #[parsel(recursive)] I, #[parsel(recursive = true)] Q,  D,  F), #[allow(dead_code)] Paren( C, /// d
 #[parsel(recursive)] /// e
 P), #[allow(dead_code)] Input( C,  Q,  S),  Default( Maybe<Q, D>) }
    impl HasG for Tree {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Tree", ctor: "Maybe", fields: vec![("0", <I as HasG>::g()), ("1", <D as HasG>::g()), ("2", <D as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "String2", fields: vec![("0", <C as HasG>::g()), ("1", <Brace<Maybe<S, F>> as HasG>::g()), ("2", <D as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Z", fields: vec![("0", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Tuple", fields: vec![("lhs", <P as HasG>::g()), ("parsel_field_X_0", <I as HasG>::g()), ("res", <D as HasG>::g()), ("sep", <Q as HasG>::g()), ("ctor", <S as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Type", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Literal", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Parse_", fields: vec![("r#use", <Q as HasG>::g()), ("tmp", <Q as HasG>::g()), ("begin_token", <C as HasG>::g()), ("node", <C as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Unit", fields: vec![] }, Gm::Seq { en: "Tree", ctor: "Option2", fields: vec![("0", <C as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <I as HasG>::g()), ("3", <Q as HasG>::g()), ("4", <P as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "A", fields: vec![("a", <C as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "lower", fields: vec![("0", <P as HasG>::g()), ("1", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Right", fields: vec![("0", <P as HasG>::g()), ("1", <I as HasG>::g()), ("2", <F as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Punct", fields: vec![("0", <Either<E2<I, D>, syn::LitStr> as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <F as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "V0", fields: vec![("0", <S as HasG>::g()), ("1", <D as HasG>::g()), ("2", <D as HasG>::g()), ("3", <P as HasG>::g()), ("4", <S as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Stream", fields: vec![("r#use", <D as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Été", fields: vec![("0", <I as HasG>::g()), ("1", <F as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "under_score", fields: vec![("0", <C as HasG>::g()), ("1", <D as HasG>::g()), ("2", <F as HasG>::g()), ("3", <S as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "B", fields: vec![("data", <S as HasG>::g()), ("index", <P as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Eof", fields: vec![("0", <I as HasG>::g()), ("1", <P as HasG>::g()), ("2", <I as HasG>::g()), ("3", <I as HasG>::g()), ("4", <F as HasG>::g()), ("5", <I as HasG>::g()), ("6", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "K", fields: vec![] }, Gm::Seq { en: "Tree", ctor: "Some", fields: vec![("empty", <D as HasG>::g()), ("last", <Q as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Recursive", fields: vec![("0", <P as HasG>::g()), ("1", <I as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <I as HasG>::g()), ("4", <D as HasG>::g()), ("5", <Q as HasG>::g()), ("6", <D as HasG>::g()), ("7", <I as HasG>::g()), ("8", <C as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Left", fields: vec![("0", <I as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <D as HasG>::g()), ("3", <D as HasG>::g()), ("4", <syn::LitStr as HasG>::g()), ("5", <I as HasG>::g()), ("6", <F as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "U", fields: vec![("name", <S as HasG>::g()), ("res", <C as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Other", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Unknown", fields: vec![] }, Gm::Seq { en: "Tree", ctor: "Core", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Ident", fields: vec![("ctor_name", <C as HasG>::g()), ("r#async", <syn::LitStr as HasG>::g()), ("out", <syn::LitStr as HasG>::g()), ("empty", <D as HasG>::g()), ("opt", <C as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Many", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Result2", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <Punctuated<ST2<I, D>, C> as HasG>::g()), ("2", <P as HasG>::g()), ("3", <I as HasG>::g()), ("4", <Q as HasG>::g()), ("5", <D as HasG>::g()), ("6", <F as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Paren", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Input", fields: vec![("0", <C as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <S as HasG>::g())] }, Gm::Seq { en: "Tree", ctor: "Default", fields: vec![("0", <Maybe<Q, D> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Tree::Maybe (x_0, x_1, x_2) => Val::Node("Tree::Maybe".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Tree::String2 (x_0, x_1, x_2) => Val::Node("Tree::String2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Tree::Z (x_0) => Val::Node("Tree::Z".into(), vec![("0".into(), x_0.val())]), Tree::Tuple { lhs: x_0, parsel_field_X_0: x_1, res: x_2, sep: x_3, ctor: x_4 } => Val::Node("Tree::Tuple".into(), vec![("lhs".into(), x_0.val()), ("parsel_field_X_0".into(), x_1.val()), ("res".into(), x_2.val()), ("sep".into(), x_3.val()), ("ctor".into(), x_4.val())]), Tree::Type (x_0) => Val::Node("Tree::Type".into(), vec![("0".into(), x_0.val())]), Tree::Literal (x_0) => Val::Node("Tree::Literal".into(), vec![("0".into(), x_0.val())]), Tree::Parse_ { r#use: x_0, tmp: x_1, begin_token: x_2, node: x_3 } => Val::Node("Tree::Parse_".into(), vec![("r#use".into(), x_0.val()), ("tmp".into(), x_1.val()), ("begin_token".into(), x_2.val()), ("node".into(), x_3.val())]), Tree::Unit  => Val::Node("Tree::Unit".into(), vec![]), Tree::Option2 (x_0, x_1, x_2, x_3, x_4) => Val::Node("Tree::Option2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Tree::A { a: x_0 } => Val::Node("Tree::A".into(), vec![("a".into(), x_0.val())]), Tree::lower (x_0, x_1) => Val::Node("Tree::lower".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Tree::Right (x_0, x_1, x_2) => Val::Node("Tree::Right".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Tree::Punct (x_0, x_1, x_2, x_3) => Val::Node("Tree::Punct".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Tree::V0 (x_0, x_1, x_2, x_3, x_4) => Val::Node("Tree::V0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Tree::Stream { r#use: x_0 } => Val::Node("Tree::Stream".into(), vec![("r#use".into(), x_0.val())]), Tree::Été (x_0, x_1) => Val::Node("Tree::Été".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Tree::under_score (x_0, x_1, x_2, x_3) => Val::Node("Tree::under_score".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Tree::B { data: x_0, index: x_1 } => Val::Node("Tree::B".into(), vec![("data".into(), x_0.val()), ("index".into(), x_1.val())]), Tree::Eof (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Tree::Eof".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Tree::K () => Val::Node("Tree::K".into(), vec![]), Tree::Some { empty: x_0, last: x_1 } => Val::Node("Tree::Some".into(), vec![("empty".into(), x_0.val()), ("last".into(), x_1.val())]), Tree::Recursive (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Tree::Recursive".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Tree::Left (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Tree::Left".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Tree::U { name: x_0, res: x_1 } => Val::Node("Tree::U".into(), vec![("name".into(), x_0.val()), ("res".into(), x_1.val())]), Tree::Other (x_0, x_1) => Val::Node("Tree::Other".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Tree::Unknown () => Val::Node("Tree::Unknown".into(), vec![]), Tree::Core (x_0) => Val::Node("Tree::Core".into(), vec![("0".into(), x_0.val())]), Tree::Ident { ctor_name: x_0, r#async: x_1, out: x_2, empty: x_3, opt: x_4 } => Val::Node("Tree::Ident".into(), vec![("ctor_name".into(), x_0.val()), ("r#async".into(), x_1.val()), ("out".into(), x_2.val()), ("empty".into(), x_3.val()), ("opt".into(), x_4.val())]), Tree::Many (x_0) => Val::Node("Tree::Many".into(), vec![("0".into(), x_0.val())]), Tree::Result2 (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Tree::Result2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Tree::Paren (x_0, x_1) => Val::Node("Tree::Paren".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Tree::Input (x_0, x_1, x_2) => Val::Node("Tree::Input".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Tree::Default (x_0) => Val::Node("Tree::Default".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b82 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Tree { #[allow(dead_code)] #[parsel(recursive)] pub tail: b11::Entry, /// documented
 pub(crate) buf: I, #[parsel(recursive)] pub(super) none: F,  pub field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: D,  pub cursor: syn::LitStr,  parsel_field_0: I, #[parsel(recursive)] pub(crate) o: P, #[parsel(recursive = false)] pub v: S,  pub(crate) variant: S,  pub r#for: I,  r#let: I,  pub(super) iter: Q,  pub vec: Q,  pub r#impl: Q,  pub(crate) ast_node: I }
    impl HasG for Tree {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Tree", fields: vec![("tail", <b11::Entry as HasG>::g()), ("buf", <I as HasG>::g()), ("none", <F as HasG>::g()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it", <D as HasG>::g()), ("cursor", <syn::LitStr as HasG>::g()), ("parsel_field_0", <I as HasG>::g()), ("o", <P as HasG>::g()), ("v", <S as HasG>::g()), ("variant", <S as HasG>::g()), ("r#for", <I as HasG>::g()), ("r#let", <I as HasG>::g()), ("iter", <Q as HasG>::g()), ("vec", <Q as HasG>::g()), ("r#impl", <Q as HasG>::g()), ("ast_node", <I as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Tree".into(), vec![("tail".into(), self.tail.val()), ("buf".into(), self.buf.val()), ("none".into(), self.none.val()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it".into(), self.field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it.val()), ("cursor".into(), self.cursor.val()), ("parsel_field_0".into(), self.parsel_field_0.val()), ("o".into(), self.o.val()), ("v".into(), self.v.val()), ("variant".into(), self.variant.val()), ("r#for".into(), self.r#for.val()), ("r#let".into(), self.r#let.val()), ("iter".into(), self.iter.val()), ("vec".into(), self.vec.val()), ("r#impl".into(), self.r#impl.val()), ("ast_node".into(), self.ast_node.val())]) }
    }
}
pub mod b83 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Error_ {  Right( D, #[parsel(recursive = true)] D,  Q, #[parsel(recursive = true)] D,  P), #[cfg(all())] Boxed(#[parsel(recursive)] I,  F, #[doc(hidden)] S,  syn::LitStr,  I, #[allow(dead_code)] #[parsel(recursive)] syn::LitStr,  I), #[allow(dead_code)] T {  n: F, #[parsel(recursive)] head: syn::LitStr,  r#fn: F }, /// documented
 Fork( F,  D,  C,  I,  D, /// documented
 P, #[allow(dead_code, unused)] P),  Named {  this: I, #[parsel(recursive)] none: Q, },  Recursive( syn::LitStr, #[cfg(all())] syn::LitStr),  String2(#[parsel(recursive)] D), #[allow(dead_code)] Self_(#[doc(hidden)] P, #[parsel(recursive = true)] P,  I,  F,  Q, /// d
 #[parsel(recursive)] /// e
 D,  S), #[doc(hidden)] Y {  fields: D, #[doc(hidden)] core: syn::LitStr,  tt: C,  Upper: I,  value: I, }, #[allow(dead_code)] Stmt(#[cfg(all())] D,  D, #[parsel(recursive = false)] syn::LitStr), #[cfg(all())] Left( I,  S), #[cfg(all())] Empty {  x1: D },  Fn {  variant_name: S,  r#ref: F,  r#mut: Q,  iter: S },  Parse( C),  None(#[parsel(recursive = true)] D,  F,  Box<Any<I>>,  S,  P), #[allow(dead_code)] Span { #[parsel(recursive)] r#for: D, #[parsel(recursive)] _0: P,  i: I,  x1: D, #[cfg(all())] fork: F, #[parsel(recursive = true)] body2: F, /// d
 #[parsel(recursive)] /// e
 r: I,  e: syn::LitStr, #[parsel(recursive)] r#final: I },  Expr { #[parsel(recursive = false)] index: P, } }
    impl HasG for Error_ {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Error_", ctor: "Right", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <D as HasG>::g()), ("4", <P as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Boxed", fields: vec![("0", <I as HasG>::g()), ("1", <F as HasG>::g()), ("2", <S as HasG>::g()), ("3", <syn::LitStr as HasG>::g()), ("4", <I as HasG>::g()), ("5", <syn::LitStr as HasG>::g()), ("6", <I as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "T", fields: vec![("n", <F as HasG>::g()), ("head", <syn::LitStr as HasG>::g()), ("r#fn", <F as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Fork", fields: vec![("0", <F as HasG>::g()), ("1", <D as HasG>::g()), ("2", <C as HasG>::g()), ("3", <I as HasG>::g()), ("4", <D as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Named", fields: vec![("this", <I as HasG>::g()), ("none", <Q as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Recursive", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "String2", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Self_", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <I as HasG>::g()), ("3", <F as HasG>::g()), ("4", <Q as HasG>::g()), ("5", <D as HasG>::g()), ("6", <S as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Y", fields: vec![("fields", <D as HasG>::g()), ("core", <syn::LitStr as HasG>::g()), ("tt", <C as HasG>::g()), ("Upper", <I as HasG>::g()), ("value", <I as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Stmt", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g()), ("2", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Left", fields: vec![("0", <I as HasG>::g()), ("1", <S as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Empty", fields: vec![("x1", <D as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Fn", fields: vec![("variant_name", <S as HasG>::g()), ("r#ref", <F as HasG>::g()), ("r#mut", <Q as HasG>::g()), ("iter", <S as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Parse", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "None", fields: vec![("0", <D as HasG>::g()), ("1", <F as HasG>::g()), ("2", <Box<Any<I>> as HasG>::g()), ("3", <S as HasG>::g()), ("4", <P as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Span", fields: vec![("r#for", <D as HasG>::g()), ("_0", <P as HasG>::g()), ("i", <I as HasG>::g()), ("x1", <D as HasG>::g()), ("fork", <F as HasG>::g()), ("body2", <F as HasG>::g()), ("r", <I as HasG>::g()), ("e", <syn::LitStr as HasG>::g()), ("r#final", <I as HasG>::g())] }, Gm::Seq { en: "Error_", ctor: "Expr", fields: vec![("index", <P as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Error_::Right (x_0, x_1, x_2, x_3, x_4) => Val::Node("Error_::Right".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Error_::Boxed (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Error_::Boxed".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Error_::T { n: x_0, head: x_1, r#fn: x_2 } => Val::Node("Error_::T".into(), vec![("n".into(), x_0.val()), ("head".into(), x_1.val()), ("r#fn".into(), x_2.val())]), Error_::Fork (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Error_::Fork".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Error_::Named { this: x_0, none: x_1 } => Val::Node("Error_::Named".into(), vec![("this".into(), x_0.val()), ("none".into(), x_1.val())]), Error_::Recursive (x_0, x_1) => Val::Node("Error_::Recursive".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Error_::String2 (x_0) => Val::Node("Error_::String2".into(), vec![("0".into(), x_0.val())]), Error_::Self_ (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Error_::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Error_::Y { fields: x_0, core: x_1, tt: x_2, Upper: x_3, value: x_4 } => Val::Node("Error_::Y".into(), vec![("fields".into(), x_0.val()), ("core".into(), x_1.val()), ("tt".into(), x_2.val()), ("Upper".into(), x_3.val()), ("value".into(), x_4.val())]), Error_::Stmt (x_0, x_1, x_2) => Val::Node("Error_::Stmt".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Error_::Left (x_0, x_1) => Val::Node("Error_::Left".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Error_::Empty { x1: x_0 } => Val::Node("Error_::Empty".into(), vec![("x1".into(), x_0.val())]), Error_::Fn { variant_name: x_0, r#ref: x_1, r#mut: x_2, iter: x_3 } => Val::Node("Error_::Fn".into(), vec![("variant_name".into(), x_0.val()), ("r#ref".into(), x_1.val()), ("r#mut".into(), x_2.val()), ("iter".into(), x_3.val())]), Error_::Parse (x_0) => Val::Node("Error_::Parse".into(), vec![("0".into(), x_0.val())]), Error_::None (x_0, x_1, x_2, x_3, x_4) => Val::Node("Error_::None".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Error_::Span { r#for: x_0, _0: x_1, i: x_2, x1: x_3, fork: x_4, body2: x_5, r: x_6, e: x_7, r#final: x_8 } => Val::Node("Error_::Span".into(), vec![("r#for".into(), x_0.val()), ("_0".into(), x_1.val()), ("i".into(), x_2.val()), ("x1".into(), x_3.val()), ("fork".into(), x_4.val()), ("body2".into(), x_5.val()), ("r".into(), x_6.val()), ("e".into(), x_7.val()), ("r#final".into(), x_8.val())]), Error_::Expr { index: x_0 } => Val::Node("Error_::Expr".into(), vec![("index".into(), x_0.val())]) } }
    }
}
pub mod b84 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Expr(#[cfg(all())] pub(crate) P, /// d
 #[parsel(recursive)] /// e
 pub(super) P,  pub(super) Any<E2<I, D>>, /// documented
 pub(crate) I,  pub(super) I,  pub(super) C, #[doc(hidden)] syn::LitStr, #[parsel(recursive)] F,  pub D,  pub S,  pub(super) D,  pub(crate) Q, /// d
 #[parsel(recursive)] /// e
 pub S,  pub(crate) D,  pub F, #[parsel(recursive = false)] pub F);
    impl HasG for Expr {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Expr", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <Any<E2<I, D>> as HasG>::g()), ("3", <I as HasG>::g()), ("4", <I as HasG>::g()), ("5", <C as HasG>::g()), ("6", <syn::LitStr as HasG>::g()), ("7", <F as HasG>::g()), ("8", <D as HasG>::g()), ("9", <S as HasG>::g()), ("10", <D as HasG>::g()), ("11", <Q as HasG>::g()), ("12", <S as HasG>::g()), ("13", <D as HasG>::g()), ("14", <F as HasG>::g()), ("15", <F as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Expr".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val()), ("9".into(), self.9.val()), ("10".into(), self.10.val()), ("11".into(), self.11.val()), ("12".into(), self.12.val()), ("13".into(), self.13.val()), ("14".into(), self.14.val()), ("15".into(), self.15.val())]) }
    }
}
pub mod b85 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum T {  Node { #[parsel(recursive = false)] token: syn::LitStr, }, /// documented
 X { #[doc(hidden)] sep: b56::Z9, #[allow(dead_code, unused)] s: I },  Maybe {  },  Ok { #[parsel(recursive = true)] vec: Brace<S>,  fields: I, /// d
 #[parsel(recursive)] /// e
 fmt: LeftAssoc<P, D>, } }
    impl HasG for T {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "T", ctor: "Node", fields: vec![("token", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "T", ctor: "X", fields: vec![("sep", <b56::Z9 as HasG>::g()), ("s", <I as HasG>::g())] }, Gm::Seq { en: "T", ctor: "Maybe", fields: vec![] }, Gm::Seq { en: "T", ctor: "Ok", fields: vec![("vec", <Brace<S> as HasG>::g()), ("fields", <I as HasG>::g()), ("fmt", <LeftAssoc<P, D> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { T::Node { token: x_0 } => Val::Node("T::Node".into(), vec![("token".into(), x_0.val())]), T::X { sep: x_0, s: x_1 } => Val::Node("T::X".into(), vec![("sep".into(), x_0.val()), ("s".into(), x_1.val())]), T::Maybe {  } => Val::Node("T::Maybe".into(), vec![]), T::Ok { vec: x_0, fields: x_1, fmt: x_2 } => Val::Node("T::Ok".into(), vec![("vec".into(), x_0.val()), ("fields".into(), x_1.val()), ("fmt".into(), x_2.val())]) } }
    }
}
pub mod b86 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Abc { #[parsel(recursive = false)] pub(crate) body: Any<I>, #[allow(dead_code, unused)] pub begin_token: Either<I, C>,  value: RightAssoc<P, D>,  pub(crate) ctor_name: RightAssoc<P, ST2<I, D>> }
    impl HasG for Abc {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Abc", fields: vec![("body", <Any<I> as HasG>::g()), ("begin_token", <Either<I, C> as HasG>::g()), ("value", <RightAssoc<P, D> as HasG>::g()), ("ctor_name", <RightAssoc<P, ST2<I, D>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Abc".into(), vec![("body".into(), self.body.val()), ("begin_token".into(), self.begin_token.val()), ("value".into(), self.value.val()), ("ctor_name".into(), self.ctor_name.val())]) }
    }
}
pub mod b87 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Fork {  under_score {  r#let: LeftAssoc<P, D>,  parsel_field_X_0: F, #[parsel(recursive)] e1: Q, },  Tuple {  that: Maybe<Q, P>,  right: Either<ST2<I, D>, syn::LitStr>, /// d
 #[parsel(recursive)] /// e
 x: Paren<I>, #[parsel(recursive = true)] variant: F,  this: Maybe<Q, Q>, #[parsel(recursive = false)] head: Bracket<F>,  next: I, #[parsel(recursive)] ty: Punctuated<D, P>, #[parsel(recursive)] cursor: Brace<Paren<I>>,  to_tokens: C, #[allow(dead_code, unused)] y: Any<D>, #[cfg(all())] r#move: Any<I>,  b: syn::LitStr, #[allow(dead_code, unused)] r#dyn: b33::Cause, #[parsel(recursive = true)] __field0: b1::Abc,  a: C, #[cfg(all())] lhs: LeftAssoc<P, syn::LitStr>, /// d
 #[parsel(recursive)] /// e
 variant_name: D,  op: LeftAssoc<P, ST2<I, D>>,  string: Any<I>,  r#else: F, #[cfg(all())] value: I, #[parsel(recursive)] fork: Any<ST2<I, D>>, #[parsel(recursive = true)] buf: P, #[parsel(recursive = true)] input: Separated<D, C>, #[parsel(recursive)] none: Bracket<C>, #[parsel(recursive)] stream: I,  recursive: Either<I, F>,  begin_token: b9::Error_, #[parsel(recursive)] formatter: D, #[parsel(recursive)] val: syn::LitStr },  Empty( Any<syn::LitStr>),  Boxed { #[parsel(recursive)] SHOUT: Maybe<S, syn::LitStr>, #[doc(hidden)] rest: S, #[allow(dead_code, unused)] eof: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] ty: Box<I> } }
    impl HasG for Fork {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Fork", ctor: "under_score", fields: vec![("r#let", <LeftAssoc<P, D> as HasG>::g()), ("parsel_field_X_0", <F as HasG>::g()), ("e1", <Q as HasG>::g())] }, Gm::Seq { en: "Fork", ctor: "Tuple", fields: vec![("that", <Maybe<Q, P> as HasG>::g()), ("right", <Either<ST2<I, D>, syn::LitStr> as HasG>::g()), ("x", <Paren<I> as HasG>::g()), ("variant", <F as HasG>::g()), ("this", <Maybe<Q, Q> as HasG>::g()), ("head", <Bracket<F> as HasG>::g()), ("next", <I as HasG>::g()), ("ty", <Punctuated<D, P> as HasG>::g()), ("cursor", <Brace<Paren<I>> as HasG>::g()), ("to_tokens", <C as HasG>::g()), ("y", <Any<D> as HasG>::g()), ("r#move", <Any<I> as HasG>::g()), ("b", <syn::LitStr as HasG>::g()), ("r#dyn", <b33::Cause as HasG>::g()), ("__field0", <b1::Abc as HasG>::g()), ("a", <C as HasG>::g()), ("lhs", <LeftAssoc<P, syn::LitStr> as HasG>::g()), ("variant_name", <D as HasG>::g()), ("op", <LeftAssoc<P, ST2<I, D>> as HasG>::g()), ("string", <Any<I> as HasG>::g()), ("r#else", <F as HasG>::g()), ("value", <I as HasG>::g()), ("fork", <Any<ST2<I, D>> as HasG>::g()), ("buf", <P as HasG>::g()), ("input", <Separated<D, C> as HasG>::g()), ("none", <Bracket<C> as HasG>::g()), ("stream", <I as HasG>::g()), ("recursive", <Either<I, F> as HasG>::g()), ("begin_token", <b9::Error_ as HasG>::g()), ("formatter", <D as HasG>::g()), ("val", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Fork", ctor: "Empty", fields: vec![("0", <Any<syn::LitStr> as HasG>::g())] }, Gm::Seq { en: "Fork", ctor: "Boxed", fields: vec![("SHOUT", <Maybe<S, syn::LitStr> as HasG>::g()), ("rest", <S as HasG>::g()), ("eof", <syn::LitStr as HasG>::g()), ("ty", <Box<I> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Fork::under_score { r#let: x_0, parsel_field_X_0: x_1, e1: x_2 } => Val::Node("Fork::under_score".into(), vec![("r#let".into(), x_0.val()), ("parsel_field_X_0".into(), x_1.val()), ("e1".into(), x_2.val())]), Fork::Tuple { that: x_0, right: x_1, x: x_2, variant: x_3, this: x_4, head: x_5, next: x_6, ty: x_7, cursor: x_8, to_tokens: x_9, y: x_10, r#move: x_11, b: x_12, r#dyn: x_13, __field0: x_14, a: x_15, lhs: x_16, variant_name: x_17, op: x_18, string: x_19, r#else: x_20, value: x_21, fork: x_22, buf: x_23, input: x_24, none: x_25, stream: x_26, recursive: x_27, begin_token: x_28, formatter: x_29, val: x_30 } => Val::Node("Fork::Tuple".into(), vec![("that".into(), x_0.val()), ("right".into(), x_1.val()), ("x".into(), x_2.val()), ("variant".into(), x_3.val()), ("this".into(), x_4.val()), ("head".into(), x_5.val()), ("next".into(), x_6.val()), ("ty".into(), x_7.val()), ("cursor".into(), x_8.val()), ("to_tokens".into(), x_9.val()), ("y".into(), x_10.val()), ("r#move".into(), x_11.val()), ("b".into(), x_12.val()), ("r#dyn".into(), x_13.val()), ("__field0".into(), x_14.val()), ("a".into(), x_15.val()), ("lhs".into(), x_16.val()), ("variant_name".into(), x_17.val()), ("op".into(), x_18.val()), ("string".into(), x_19.val()), ("r#else".into(), x_20.val()), ("value".into(), x_21.val()), ("fork".into(), x_22.val()), ("buf".into(), x_23.val()), ("input".into(), x_24.val()), ("none".into(), x_25.val()), ("stream".into(), x_26.val()), ("recursive".into(), x_27.val()), ("begin_token".into(), x_28.val()), ("formatter".into(), x_29.val()), ("val".into(), x_30.val())]), Fork::Empty (x_0) => Val::Node("Fork::Empty".into(), vec![("0".into(), x_0.val())]), Fork::Boxed { SHOUT: x_0, rest: x_1, eof: x_2, ty: x_3 } => Val::Node("Fork::Boxed".into(), vec![("SHOUT".into(), x_0.val()), ("rest".into(), x_1.val()), ("eof".into(), x_2.val()), ("ty".into(), x_3.val())]) } }
    }
}
pub mod b88 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Input { /// d
 #[parsel(recursive)] /// e
 pub(crate) parsel_field_X_0: S, #[allow(dead_code, unused)] y: Q,  r#dyn: I, #[parsel(recursive)] pub stream: syn::LitStr, #[parsel(recursive)] pub(super) r#for: Q,  r#enum: F,  pub(super) len: F,  pub x: syn::LitStr,  bindings: RightAssoc<P, D>, #[parsel(recursive = true)] pub r#impl: D }
    impl HasG for Input {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Input", fields: vec![("parsel_field_X_0", <S as HasG>::g()), ("y", <Q as HasG>::g()), ("r#dyn", <I as HasG>::g()), ("stream", <syn::LitStr as HasG>::g()), ("r#for", <Q as HasG>::g()), ("r#enum", <F as HasG>::g()), ("len", <F as HasG>::g()), ("x", <syn::LitStr as HasG>::g()), ("bindings", <RightAssoc<P, D> as HasG>::g()), ("r#impl", <D as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Input".into(), vec![("parsel_field_X_0".into(), self.parsel_field_X_0.val()), ("y".into(), self.y.val()), ("r#dyn".into(), self.r#dyn.val()), ("stream".into(), self.stream.val()), ("r#for".into(), self.r#for.val()), ("r#enum".into(), self.r#enum.val()), ("len".into(), self.len.val()), ("x".into(), self.x.val()), ("bindings".into(), self.bindings.val()), ("r#impl".into(), self.r#impl.val())]) }
    }
}
pub mod b89 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Entry { #[doc(hidden)] Parse_ {  last: LeftAssoc<P, ST2<I, D>>, #[parsel(recursive = false)] _0: D, #[doc(hidden)] buf: D, #[allow(dead_code, unused)] result: C, },  Some { #[doc(hidden)] r#else: syn::LitStr,  item: RightAssoc<P, I>, #[parsel(recursive)] body: F,  error: Box<S>, #[parsel(recursive = false)] token: D, #[parsel(recursive)] rhs: Maybe<Q, Box<Q>>,  result: syn::LitStr }, #[allow(dead_code)] Variant {  r#use: Maybe<Q, Maybe<S, F>>, } }
    impl HasG for Entry {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Entry", ctor: "Parse_", fields: vec![("last", <LeftAssoc<P, ST2<I, D>> as HasG>::g()), ("_0", <D as HasG>::g()), ("buf", <D as HasG>::g()), ("result", <C as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Some", fields: vec![("r#else", <syn::LitStr as HasG>::g()), ("item", <RightAssoc<P, I> as HasG>::g()), ("body", <F as HasG>::g()), ("error", <Box<S> as HasG>::g()), ("token", <D as HasG>::g()), ("rhs", <Maybe<Q, Box<Q>> as HasG>::g()), ("result", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Variant", fields: vec![("r#use", <Maybe<Q, Maybe<S, F>> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Entry::Parse_ { last: x_0, _0: x_1, buf: x_2, result: x_3 } => Val::Node("Entry::Parse_".into(), vec![("last".into(), x_0.val()), ("_0".into(), x_1.val()), ("buf".into(), x_2.val()), ("result".into(), x_3.val())]), Entry::Some { r#else: x_0, item: x_1, body: x_2, error: x_3, token: x_4, rhs: x_5, result: x_6 } => Val::Node("Entry::Some".into(), vec![("r#else".into(), x_0.val()), ("item".into(), x_1.val()), ("body".into(), x_2.val()), ("error".into(), x_3.val()), ("token".into(), x_4.val()), ("rhs".into(), x_5.val()), ("result".into(), x_6.val())]), Entry::Variant { r#use: x_0 } => Val::Node("Entry::Variant".into(), vec![("r#use".into(), x_0.val())]) } }
    }
}
pub mod b90 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Value { #[parsel(recursive = false)] pub(crate) camelCase: Punctuated<D, C>,  node: syn::LitStr,  pub(super) naïve: Maybe<S, Paren<S>>,  pub(crate) alloc: Paren<Maybe<P, D>>, }
    impl HasG for Value {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Value", fields: vec![("camelCase", <Punctuated<D, C> as HasG>::g()), ("node", <syn::LitStr as HasG>::g()), ("naïve", <Maybe<S, Paren<S>> as HasG>::g()), ("alloc", <Paren<Maybe<P, D>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Value".into(), vec![("camelCase".into(), self.camelCase.val()), ("node".into(), self.node.val()), ("naïve".into(), self.naïve.val()), ("alloc".into(), self.alloc.val())]) }
    }
}
pub mod b91 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Chain_ {  Error2(#[allow(dead_code, unused)] D), #[doc(hidden)] Option2( I, #[parsel(recursive = true)] Q, #[cfg(all())] I,  D,  P,  Maybe<P, Any<ST2<I, D>>>,  C,  S, #[parsel(recursive)] D),  Left(/// d
 #[parsel(recursive)] /// e
 C), #[doc(hidden)] Core( C, #[parsel(recursive = false)] P,  Q),  Any {  tmp: S, #[parsel(recursive)] end: P, #[parsel(recursive = false)] lhs: Q, #[doc(hidden)] parsel_input: D,  peek: Q,  opt: syn::LitStr,  r#if: D,  cause: Q, #[allow(dead_code, unused)] result: Either<syn::LitStr, P>,  field_str: I,  f: C,  tail: Maybe<S, Any<I>>,  vec: I, #[allow(dead_code, unused)] field_index: syn::LitStr, /// d
 #[parsel(recursive)] /// e
 i: D }, #[doc(hidden)] Other(#[cfg(all())] D,  Q,  Either<D, C>),  NotEof(#[parsel(recursive = true)] S,  S, #[parsel(recursive = true)] Q,  S, #[parsel(recursive)] D, #[parsel(recursive)] S,  C, #[allow(dead_code, unused)] F, /// documented
 S, #[parsel(recursive)] P, #[doc(hidden)] I,  Either<I, syn::LitStr>, #[parsel(recursive)] syn::LitStr,  I,  syn::LitStr,  D,  D,  syn::LitStr, #[parsel(recursive)] C, /// d
 #[parsel(recursive)] /// e
 F, /// d
 #[parsel(recursive)] /// e
 C, #[parsel(recursive = false)] I, #[allow(dead_code, unused)] I,  C, #[parsel(recursive)] S, #[doc(hidden)] Box<Q>,  P, #[parsel(recursive = false)] P,  Box<D>, /// d
 #[parsel(recursive)] /// e
 I,  syn::LitStr, #[parsel(recursive)] syn::LitStr), /// documented
 X_0( Q), /// documented
 Unknown { #[doc(hidden)] peek: F },  Eof( syn::LitStr),  Fork { #[doc(hidden)] b: Q, #[allow(dead_code)] #[parsel(recursive)] parse: I, #[parsel(recursive)] span: D, #[parsel(recursive = false)] field_name: P, #[allow(dead_code)] #[parsel(recursive)] opt: C,  name: C, #[parsel(recursive = false)] e1: I,  r#struct: F, /// d
 #[parsel(recursive)] /// e
 r#pub: C,  empty: I, #[parsel(recursive)] ok: Separated<I, C>,  this: F,  parsel: F,  ty_name: Q, /// d
 #[parsel(recursive)] /// e
 value: syn::LitStr,  ctor_name: C,  ident: Punctuated<Paren<I>, P>, #[cfg(all())] vx: D,  field_index: Q, #[parsel(recursive)] key: F,  名前: I, #[parsel(recursive = true)] r#dyn: F,  tt: D,  input: D, #[parsel(recursive)] quote: F, #[parsel(recursive)] field: Separated<D, P>,  result: Q, #[parsel(recursive = true)] len: syn::LitStr,  s: P, /// d
 #[parsel(recursive)] /// e
 ret: syn::LitStr, /// d
 #[parsel(recursive)] /// e
 SHOUT: S,  _0: D, }, /// documented
 Some(#[parsel(recursive = true)] Any<syn::LitStr>),  Item( F),  Right(/// documented
 Q,  P),  lower,  Node(#[allow(dead_code)] #[parsel(recursive)] syn::LitStr,  I,  I),  Parse(#[allow(dead_code)] #[parsel(recursive)] C),  U( P,  I, #[parsel(recursive = true)] Maybe<Q, Empty>, #[doc(hidden)] S, #[cfg(all())] I,  C,  syn::LitStr),  Stmt(#[cfg(all())] Either<syn::LitStr, C>,  C,  I, #[parsel(recursive = true)] S, /// d
 #[parsel(recursive)] /// e
 Q,  C,  P,  syn::LitStr),  Type { #[parsel(recursive = false)] stream: I, #[doc(hidden)] first: D } }
    impl HasG for Chain_ {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Chain_", ctor: "Error2", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Option2", fields: vec![("0", <I as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <I as HasG>::g()), ("3", <D as HasG>::g()), ("4", <P as HasG>::g()), ("5", <Maybe<P, Any<ST2<I, D>>> as HasG>::g()), ("6", <C as HasG>::g()), ("7", <S as HasG>::g()), ("8", <D as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Left", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Core", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <Q as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Any", fields: vec![("tmp", <S as HasG>::g()), ("end", <P as HasG>::g()), ("lhs", <Q as HasG>::g()), ("parsel_input", <D as HasG>::g()), ("peek", <Q as HasG>::g()), ("opt", <syn::LitStr as HasG>::g()), ("r#if", <D as HasG>::g()), ("cause", <Q as HasG>::g()), ("result", <Either<syn::LitStr, P> as HasG>::g()), ("field_str", <I as HasG>::g()), ("f", <C as HasG>::g()), ("tail", <Maybe<S, Any<I>> as HasG>::g()), ("vec", <I as HasG>::g()), ("field_index", <syn::LitStr as HasG>::g()), ("i", <D as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Other", fields: vec![("0", <D as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <Either<D, C> as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "NotEof", fields: vec![("0", <S as HasG>::g()), ("1", <S as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <S as HasG>::g()), ("4", <D as HasG>::g()), ("5", <S as HasG>::g()), ("6", <C as HasG>::g()), ("7", <F as HasG>::g()), ("8", <S as HasG>::g()), ("9", <P as HasG>::g()), ("10", <I as HasG>::g()), ("11", <Either<I, syn::LitStr> as HasG>::g()), ("12", <syn::LitStr as HasG>::g()), ("13", <I as HasG>::g()), ("14", <syn::LitStr as HasG>::g()), ("15", <D as HasG>::g()), ("16", <D as HasG>::g()), ("17", <syn::LitStr as HasG>::g()), ("18", <C as HasG>::g()), ("19", <F as HasG>::g()), ("20", <C as HasG>::g()), ("21", <I as HasG>::g()), ("22", <I as HasG>::g()), ("23", <C as HasG>::g()), ("24", <S as HasG>::g()), ("25", <Box<Q> as HasG>::g()), ("26", <P as HasG>::g()), ("27", <P as HasG>::g()), ("28", <Box<D> as HasG>::g()), ("29", <I as HasG>::g()), ("30", <syn::LitStr as HasG>::g()), ("31", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "X_0", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Unknown", fields: vec![("peek", <F as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Eof", fields: vec![("0", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Fork", fields: vec![("b", <Q as HasG>::g()), ("parse", <I as HasG>::g()), ("span", <D as HasG>::g()), ("field_name", <P as HasG>::g()), ("opt", <C as HasG>::g()), ("name", <C as HasG>::g()), ("e1", <I as HasG>::g()), ("r#struct", <F as HasG>::g()), ("r#pub", <C as HasG>::g()), ("empty", <I as HasG>::g()), ("ok", <Separated<I, C> as HasG>::g()), ("this", <F as HasG>::g()), ("parsel", <F as HasG>::g()), ("ty_name", <Q as HasG>::g()), ("value", <syn::LitStr as HasG>::g()), ("ctor_name", <C as HasG>::g()), ("ident", <Punctuated<Paren<I>, P> as HasG>::g()), ("vx", <D as HasG>::g()), ("field_index", <Q as HasG>::g()), ("key", <F as HasG>::g()), ("名前", <I as HasG>::g()), ("r#dyn", <F as HasG>::g()), ("tt", <D as HasG>::g()), ("input", <D as HasG>::g()), ("quote", <F as HasG>::g()), ("field", <Separated<D, P> as HasG>::g()), ("result", <Q as HasG>::g()), ("len", <syn::LitStr as HasG>::g()), ("s", <P as HasG>::g()), ("ret", <syn::LitStr as HasG>::g()), ("SHOUT", <S as HasG>::g()), ("_0", <D as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Some", fields: vec![("0", <Any<syn::LitStr> as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Item", fields: vec![("0", <F as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Right", fields: vec![("0", <Q as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "lower", fields: vec![] }, Gm::Seq { en: "Chain_", ctor: "Node", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <I as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Parse", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "U", fields: vec![("0", <P as HasG>::g()), ("1", <I as HasG>::g()), ("2", <Maybe<Q, Empty> as HasG>::g()), ("3", <S as HasG>::g()), ("4", <I as HasG>::g()), ("5", <C as HasG>::g()), ("6", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Stmt", fields: vec![("0", <Either<syn::LitStr, C> as HasG>::g()), ("1", <C as HasG>::g()), ("2", <I as HasG>::g()), ("3", <S as HasG>::g()), ("4", <Q as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Type", fields: vec![("stream", <I as HasG>::g()), ("first", <D as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Chain_::Error2 (x_0) => Val::Node("Chain_::Error2".into(), vec![("0".into(), x_0.val())]), Chain_::Option2 (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Chain_::Option2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Chain_::Left (x_0) => Val::Node("Chain_::Left".into(), vec![("0".into(), x_0.val())]), Chain_::Core (x_0, x_1, x_2) => Val::Node("Chain_::Core".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Chain_::Any { tmp: x_0, end: x_1, lhs: x_2, parsel_input: x_3, peek: x_4, opt: x_5, r#if: x_6, cause: x_7, result: x_8, field_str: x_9, f: x_10, tail: x_11, vec: x_12, field_index: x_13, i: x_14 } => Val::Node("Chain_::Any".into(), vec![("tmp".into(), x_0.val()), ("end".into(), x_1.val()), ("lhs".into(), x_2.val()), ("parsel_input".into(), x_3.val()), ("peek".into(), x_4.val()), ("opt".into(), x_5.val()), ("r#if".into(), x_6.val()), ("cause".into(), x_7.val()), ("result".into(), x_8.val()), ("field_str".into(), x_9.val()), ("f".into(), x_10.val()), ("tail".into(), x_11.val()), ("vec".into(), x_12.val()), ("field_index".into(), x_13.val()), ("i".into(), x_14.val())]), Chain_::Other (x_0, x_1, x_2) => Val::Node("Chain_::Other".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Chain_::NotEof (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10, x_11, x_12, x_13, x_14, x_15, x_16, x_17, x_18, x_19, x_20, x_21, x_22, x_23, x_24, x_25, x_26, x_27, x_28, x_29, x_30, x_31) => Val::Node("Chain_::NotEof".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val()), ("11".into(), x_11.val()), ("12".into(), x_12.val()), ("13".into(), x_13.val()), ("14".into(), x_14.val()), ("15".into(), x_15.val()), ("16".into(), x_16.val()), ("17".into(), x_17.val()), ("18".into(), x_18.val()), ("19".into(), x_19.val()), ("20".into(), x_20.val()), ("21".into(), x_21.val()), ("22".into(), x_22.val()), ("23".into(), x_23.val()), ("24".into(), x_24.val()), ("25".into(), x_25.val()), ("26".into(), x_26.val()), ("27".into(), x_27.val()), ("28".into(), x_28.val()), ("29".into(), x_29.val()), ("30".into(), x_30.val()), ("31".into(), x_31.val())]), Chain_::X_0 (x_0) => Val::Node("Chain_::X_0".into(), vec![("0".into(), x_0.val())]), Chain_::Unknown { peek: x_0 } => Val::Node("Chain_::Unknown".into(), vec![("peek".into(), x_0.val())]), Chain_::Eof (x_0) => Val::Node("Chain_::Eof".into(), vec![("0".into(), x_0.val())]), Chain_::Fork { b: x_0, parse: x_1, span: x_2, field_name: x_3, opt: x_4, name: x_5, e1: x_6, r#struct: x_7, r#pub: x_8, empty: x_9, ok: x_10, this: x_11, parsel: x_12, ty_name: x_13, value: x_14, ctor_name: x_15, ident: x_16, vx: x_17, field_index: x_18, key: x_19, 名前: x_20, r#dyn: x_21, tt: x_22, input: x_23, quote: x_24, field: x_25, result: x_26, len: x_27, s: x_28, ret: x_29, SHOUT: x_30, _0: x_31 } => Val::Node("Chain_::Fork".into(), vec![("b".into(), x_0.val()), ("parse".into(), x_1.val()), ("span".into(), x_2.val()), ("field_name".into(), x_3.val()), ("opt".into(), x_4.val()), ("name".into(), x_5.val()), ("e1".into(), x_6.val()), ("r#struct".into(), x_7.val()), ("r#pub".into(), x_8.val()), ("empty".into(), x_9.val()), ("ok".into(), x_10.val()), ("this".into(), x_11.val()), ("parsel".into(), x_12.val()), ("ty_name".into(), x_13.val()), ("value".into(), x_14.val()), ("ctor_name".into(), x_15.val()), ("ident".into(), x_16.val()), ("vx".into(), x_17.val()), ("field_index".into(), x_18.val()), ("key".into(), x_19.val()), ("名前".into(), x_20.val()), ("r#dyn".into(), x_21.val()), ("tt".into(), x_22.val()), ("input".into(), x_23.val()), ("quote".into(), x_24.val()), ("field".into(), x_25.val()), ("result".into(), x_26.val()), ("len".into(), x_27.val()), ("s".into(), x_28.val()), ("ret".into(), x_29.val()), ("SHOUT".into(), x_30.val()), ("_0".into(), x_31.val())]), Chain_::Some (x_0) => Val::Node("Chain_::Some".into(), vec![("0".into(), x_0.val())]), Chain_::Item (x_0) => Val::Node("Chain_::Item".into(), vec![("0".into(), x_0.val())]), Chain_::Right (x_0, x_1) => Val::Node("Chain_::Right".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Chain_::lower  => Val::Node("Chain_::lower".into(), vec![]), Chain_::Node (x_0, x_1, x_2) => Val::Node("Chain_::Node".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Chain_::Parse (x_0) => Val::Node("Chain_::Parse".into(), vec![("0".into(), x_0.val())]), Chain_::U (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Chain_::U".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Chain_::Stmt (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7) => Val::Node("Chain_::Stmt".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val())]), Chain_::Type { stream: x_0, first: x_1 } => Val::Node("Chain_::Type".into(), vec![("stream".into(), x_0.val()), ("first".into(), x_1.val())]) } }
    }
}
pub mod b92 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Leaf { #[allow(dead_code, unused)] field_str: Brace<ST2<D, D>> }
    impl HasG for Leaf {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Leaf", fields: vec![("field_str", <Brace<ST2<D, D>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Leaf".into(), vec![("field_str".into(), self.field_str.val())]) }
    }
}
pub mod b93 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Leaf {  Literal {  head: b12::Node, }, #[doc(hidden)] Right {  e: P } }
    impl HasG for Leaf {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Leaf", ctor: "Literal", fields: vec![("head", <b12::Node as HasG>::g())] }, Gm::Seq { en: "Leaf", ctor: "Right", fields: vec![("e", <P as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Leaf::Literal { head: x_0 } => Val::Node("Leaf::Literal".into(), vec![("head".into(), x_0.val())]), Leaf::Right { e: x_0 } => Val::Node("Leaf::Right".into(), vec![("e".into(), x_0.val())]) } }
    }
}
pub mod b94 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct T {  pub(crate) empty: I, #[allow(dead_code)] #[parsel(recursive)] right: F,  pub(crate) parsel: S,  syn: Q,  pub größe: D, /// d
 #[parsel(recursive)] /// e
 pub field_name: F, /// d
 #[parsel(recursive)] /// e
 pub(crate) tmp: Box<C>, /// d
 #[parsel(recursive)] /// e
 pub(crate) tail: Q,  pub kw: F, #[cfg(all())] pub(crate) r#box: Q, #[allow(dead_code, unused)] pub(crate) that: D,  r#if: F,  pub _0: syn::LitStr,  pub(crate) ast_node: F,  pub(crate) end: I,  pub(super) t: Q,  pub default: P,  r#move: D,  pub node: C, /// d
 #[parsel(recursive)] /// e
 pub inner: Q }
    impl HasG for T {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "T", fields: vec![("empty", <I as HasG>::g()), ("right", <F as HasG>::g()), ("parsel", <S as HasG>::g()), ("syn", <Q as HasG>::g()), ("größe", <D as HasG>::g()), ("field_name", <F as HasG>::g()), ("tmp", <Box<C> as HasG>::g()), ("tail", <Q as HasG>::g()), ("kw", <F as HasG>::g()), ("r#box", <Q as HasG>::g()), ("that", <D as HasG>::g()), ("r#if", <F as HasG>::g()), ("_0", <syn::LitStr as HasG>::g()), ("ast_node", <F as HasG>::g()), ("end", <I as HasG>::g()), ("t", <Q as HasG>::g()), ("default", <P as HasG>::g()), ("r#move", <D as HasG>::g()), ("node", <C as HasG>::g()), ("inner", <Q as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("T".into(), vec![("empty".into(), self.empty.val()), ("right".into(), self.right.val()), ("parsel".into(), self.parsel.val()), ("syn".into(), self.syn.val()), ("größe".into(), self.größe.val()), ("field_name".into(), self.field_name.val()), ("tmp".into(), self.tmp.val()), ("tail".into(), self.tail.val()), ("kw".into(), self.kw.val()), ("r#box".into(), self.r#box.val()), ("that".into(), self.that.val()), ("r#if".into(), self.r#if.val()), ("_0".into(), self._0.val()), ("ast_node".into(), self.ast_node.val()), ("end".into(), self.end.val()), ("t".into(), self.t.val()), ("default".into(), self.default.val()), ("r#move".into(), self.r#move.val()), ("node".into(), self.node.val()), ("inner".into(), self.inner.val())]) }
    }
}
pub mod b95 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Ast {  B( Either<Paren<I>, P>, #[parsel(recursive)] I, #[allow(dead_code)] #[parsel(recursive)] Either<Paren<I>, F>),  Maybe(#[cfg(all())] D,  C, #[parsel(recursive = true)] I,  syn::LitStr,  Any<I>, #[allow(dead_code)] #[parsel(recursive)] Q, #[allow(dead_code)] #[parsel(recursive)] D,  Any<Paren<I>>,  Either<I, C>),  Result2 { #[parsel(recursive)] enum_name: S,  some: P } }
    impl HasG for Ast {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Ast", ctor: "B", fields: vec![("0", <Either<Paren<I>, P> as HasG>::g()), ("1", <I as HasG>::g()), ("2", <Either<Paren<I>, F> as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Maybe", fields: vec![("0", <D as HasG>::g()), ("1", <C as HasG>::g()), ("2", <I as HasG>::g()), ("3", <syn::LitStr as HasG>::g()), ("4", <Any<I> as HasG>::g()), ("5", <Q as HasG>::g()), ("6", <D as HasG>::g()), ("7", <Any<Paren<I>> as HasG>::g()), ("8", <Either<I, C> as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Result2", fields: vec![("enum_name", <S as HasG>::g()), ("some", <P as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Ast::B (x_0, x_1, x_2) => Val::Node("Ast::B".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Ast::Maybe (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Ast::Maybe".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Ast::Result2 { enum_name: x_0, some: x_1 } => Val::Node("Ast::Result2".into(), vec![("enum_name".into(), x_0.val()), ("some".into(), x_1.val())]) } }
    }
}
pub mod b96 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Sequence;
    impl HasG for Sequence {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Sequence", fields: vec![] } }
        fn val(&self) -> Val { Val::Node("Sequence".into(), vec![]) }
    }
}
pub mod b97 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Tokens {  Node( Box<S>, /// d
 #[parsel(recursive)] /// e
 Either<D, Q>), #[doc(hidden)] Type { #[parsel(recursive)] __self: I, #[parsel(recursive = true)] e: D, } }
    impl HasG for Tokens {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Tokens", ctor: "Node", fields: vec![("0", <Box<S> as HasG>::g()), ("1", <Either<D, Q> as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "Type", fields: vec![("__self", <I as HasG>::g()), ("e", <D as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Tokens::Node (x_0, x_1) => Val::Node("Tokens::Node".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Tokens::Type { __self: x_0, e: x_1 } => Val::Node("Tokens::Type".into(), vec![("__self".into(), x_0.val()), ("e".into(), x_1.val())]) } }
    }
}
pub mod b98 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Choice;
    impl HasG for Choice {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Choice", fields: vec![] } }
        fn val(&self) -> Val { Val::Node("Choice".into(), vec![]) }
    }
}
pub mod b99 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Entry {  Tokens,  Stmt(#[cfg(all())] P,  P,  Either<D, S>),  Boxed {  o: P,  tt: Paren<D>, #[parsel(recursive = true)] n: P } }
    impl HasG for Entry {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Entry", ctor: "Tokens", fields: vec![] }, Gm::Seq { en: "Entry", ctor: "Stmt", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <Either<D, S> as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Boxed", fields: vec![("o", <P as HasG>::g()), ("tt", <Paren<D> as HasG>::g()), ("n", <P as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Entry::Tokens  => Val::Node("Entry::Tokens".into(), vec![]), Entry::Stmt (x_0, x_1, x_2) => Val::Node("Entry::Stmt".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Entry::Boxed { o: x_0, tt: x_1, n: x_2 } => Val::Node("Entry::Boxed".into(), vec![("o".into(), x_0.val()), ("tt".into(), x_1.val()), ("n".into(), x_2.val())]) } }
    }
}
pub mod b100 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Expr {  pub 名前: I, /// documented
 pub(crate) ty_name: I,  pub(super) rhs: Box<Maybe<Q, D>> }
    impl HasG for Expr {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Expr", fields: vec![("名前", <I as HasG>::g()), ("ty_name", <I as HasG>::g()), ("rhs", <Box<Maybe<Q, D>> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Expr".into(), vec![("名前".into(), self.名前.val()), ("ty_name".into(), self.ty_name.val()), ("rhs".into(), self.rhs.val())]) }
    }
}
pub mod b101 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Abc {  lower( Q,  LeftAssoc<P, I>, #[cfg(all())] I,  Punctuated<syn::LitStr, P>,  Bracket<D>,  D,  Q), /// documented
 Some( Separated<D, P>,  b11::Entry, #[parsel(recursive = true)] Either<D, S>,  LeftAssoc<P, D>,  Box<P>,  Q, #[parsel(recursive)] b77::Entry, #[parsel(recursive)] Box<Maybe<S, P>>), #[cfg(all())] Option2( S,  Maybe<Q, Maybe<S, P>>, #[parsel(recursive)] Bracket<D>),  X_0(#[parsel(recursive = true)] Either<ST2<I, D>, P>,  Q) }
    impl HasG for Abc {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Abc", ctor: "lower", fields: vec![("0", <Q as HasG>::g()), ("1", <LeftAssoc<P, I> as HasG>::g()), ("2", <I as HasG>::g()), ("3", <Punctuated<syn::LitStr, P> as HasG>::g()), ("4", <Bracket<D> as HasG>::g()), ("5", <D as HasG>::g()), ("6", <Q as HasG>::g())] }, Gm::Seq { en: "Abc", ctor: "Some", fields: vec![("0", <Separated<D, P> as HasG>::g()), ("1", <b11::Entry as HasG>::g()), ("2", <Either<D, S> as HasG>::g()), ("3", <LeftAssoc<P, D> as HasG>::g()), ("4", <Box<P> as HasG>::g()), ("5", <Q as HasG>::g()), ("6", <b77::Entry as HasG>::g()), ("7", <Box<Maybe<S, P>> as HasG>::g())] }, Gm::Seq { en: "Abc", ctor: "Option2", fields: vec![("0", <S as HasG>::g()), ("1", <Maybe<Q, Maybe<S, P>> as HasG>::g()), ("2", <Bracket<D> as HasG>::g())] }, Gm::Seq { en: "Abc", ctor: "X_0", fields: vec![("0", <Either<ST2<I, D>, P> as HasG>::g()), ("1", <Q as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Abc::lower (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Abc::lower".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Abc::Some (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7) => Val::Node("Abc::Some".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val())]), Abc::Option2 (x_0, x_1, x_2) => Val::Node("Abc::Option2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Abc::X_0 (x_0, x_1) => Val::Node("Abc::X_0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]) } }
    }
}
pub mod b102 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct W(#[parsel(recursive)] pub Brace<Box<D>>,  pub(super) Any<E2<I, D>>, #[parsel(recursive)] pub(crate) Separated<I, P>,  pub(crate) Maybe<S, Paren<P>>, #[parsel(recursive)] pub Separated<E2<I, D>, C>,  pub I,  pub(crate) D, #[cfg(all())] pub(crate) I, #[cfg(all())] D);
    impl HasG for W {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "W", fields: vec![("0", <Brace<Box<D>> as HasG>::g()), ("1", <Any<E2<I, D>> as HasG>::g()), ("2", <Separated<I, P> as HasG>::g()), ("3", <Maybe<S, Paren<P>> as HasG>::g()), ("4", <Separated<E2<I, D>, C> as HasG>::g()), ("5", <I as HasG>::g()), ("6", <D as HasG>::g()), ("7", <I as HasG>::g()), ("8", <D as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("W".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val())]) }
    }
}
pub mod b103 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Entry { /// documented
 Core(#[doc(hidden)] syn::LitStr,  Maybe<S, Any<I>>), #[allow(dead_code)] Other(#[allow(dead_code)] #[parsel(recursive)] syn::LitStr, #[parsel(recursive)] Q, #[cfg(all())] D), #[cfg(all())] Ident { #[allow(dead_code)] #[parsel(recursive)] rhs: P,  suffix: C,  field: I,  prev: S,  enum_name: D,  v: I,  x1: C,  start: I, #[doc(hidden)] last: I },  Vec2 {  eof: D,  r#if: Q,  that: syn::LitStr, #[doc(hidden)] o: I, },  lower {  none: F,  kw: Brace<Paren<syn::LitStr>>,  ty_name: I,  result: P, #[parsel(recursive = false)] error: Q }, /// documented
 T( syn::LitStr,  I,  F, #[parsel(recursive = false)] Any<E2<I, D>>), #[allow(dead_code)] Named {  value: P,  r#else: LeftAssoc<P, E2<I, D>>,  field_name: I, #[parsel(recursive)] r#let: syn::LitStr }, /// documented
 String2, /// documented
 Any( Maybe<S, Box<syn::LitStr>>, #[allow(dead_code)] #[parsel(recursive)] D),  Left( F),  Right {  input: I,  e1: syn::LitStr,  n: syn::LitStr, #[parsel(recursive = true)] parsel_tokens: I,  r#struct: Punctuated<syn::LitStr, P>, },  Ok2(#[allow(dead_code, unused)] C,  syn::LitStr, #[parsel(recursive = false)] I),  Enum {  ctor_name: D },  Fork { #[doc(hidden)] inner: D }, #[cfg(all())] Eof( C,  S,  P, #[cfg(all())] F), #[cfg(all())] Unknown( C, #[doc(hidden)] I, /// d
 #[parsel(recursive)] /// e
 P),  Recursive {  cursor: S,  ctor_name: Separated<I, P>,  x1: F,  fork: D, #[cfg(all())] alloc: P, } }
    impl HasG for Entry {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Entry", ctor: "Core", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <Maybe<S, Any<I>> as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Other", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <D as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Ident", fields: vec![("rhs", <P as HasG>::g()), ("suffix", <C as HasG>::g()), ("field", <I as HasG>::g()), ("prev", <S as HasG>::g()), ("enum_name", <D as HasG>::g()), ("v", <I as HasG>::g()), ("x1", <C as HasG>::g()), ("start", <I as HasG>::g()), ("last", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Vec2", fields: vec![("eof", <D as HasG>::g()), ("r#if", <Q as HasG>::g()), ("that", <syn::LitStr as HasG>::g()), ("o", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "lower", fields: vec![("none", <F as HasG>::g()), ("kw", <Brace<Paren<syn::LitStr>> as HasG>::g()), ("ty_name", <I as HasG>::g()), ("result", <P as HasG>::g()), ("error", <Q as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "T", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <I as HasG>::g()), ("2", <F as HasG>::g()), ("3", <Any<E2<I, D>> as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Named", fields: vec![("value", <P as HasG>::g()), ("r#else", <LeftAssoc<P, E2<I, D>> as HasG>::g()), ("field_name", <I as HasG>::g()), ("r#let", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "String2", fields: vec![] }, Gm::Seq { en: "Entry", ctor: "Any", fields: vec![("0", <Maybe<S, Box<syn::LitStr>> as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Left", fields: vec![("0", <F as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Right", fields: vec![("input", <I as HasG>::g()), ("e1", <syn::LitStr as HasG>::g()), ("n", <syn::LitStr as HasG>::g()), ("parsel_tokens", <I as HasG>::g()), ("r#struct", <Punctuated<syn::LitStr, P> as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Ok2", fields: vec![("0", <C as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Enum", fields: vec![("ctor_name", <D as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Fork", fields: vec![("inner", <D as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Eof", fields: vec![("0", <C as HasG>::g()), ("1", <S as HasG>::g()), ("2", <P as HasG>::g()), ("3", <F as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Unknown", fields: vec![("0", <C as HasG>::g()), ("1", <I as HasG>::g()), ("2", <P as HasG>::g())] }, Gm::Seq { en: "Entry", ctor: "Recursive", fields: vec![("cursor", <S as HasG>::g()), ("ctor_name", <Separated<I, P> as HasG>::g()), ("x1", <F as HasG>::g()), ("fork", <D as HasG>::g()), ("alloc", <P as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Entry::Core (x_0, x_1) => Val::Node("Entry::Core".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Entry::Other (x_0, x_1, x_2) => Val::Node("Entry::Other".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Entry::Ident { rhs: x_0, suffix: x_1, field: x_2, prev: x_3, enum_name: x_4, v: x_5, x1: x_6, start: x_7, last: x_8 } => Val::Node("Entry::Ident".into(), vec![("rhs".into(), x_0.val()), ("suffix".into(), x_1.val()), ("field".into(), x_2.val()), ("prev".into(), x_3.val()), ("enum_name".into(), x_4.val()), ("v".into(), x_5.val()), ("x1".into(), x_6.val()), ("start".into(), x_7.val()), ("last".into(), x_8.val())]), Entry::Vec2 { eof: x_0, r#if: x_1, that: x_2, o: x_3 } => Val::Node("Entry::Vec2".into(), vec![("eof".into(), x_0.val()), ("r#if".into(), x_1.val()), ("that".into(), x_2.val()), ("o".into(), x_3.val())]), Entry::lower { none: x_0, kw: x_1, ty_name: x_2, result: x_3, error: x_4 } => Val::Node("Entry::lower".into(), vec![("none".into(), x_0.val()), ("kw".into(), x_1.val()), ("ty_name".into(), x_2.val()), ("result".into(), x_3.val()), ("error".into(), x_4.val())]), Entry::T (x_0, x_1, x_2, x_3) => Val::Node("Entry::T".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Entry::Named { value: x_0, r#else: x_1, field_name: x_2, r#let: x_3 } => Val::Node("Entry::Named".into(), vec![("value".into(), x_0.val()), ("r#else".into(), x_1.val()), ("field_name".into(), x_2.val()), ("r#let".into(), x_3.val())]), Entry::String2  => Val::Node("Entry::String2".into(), vec![]), Entry::Any (x_0, x_1) => Val::Node("Entry::Any".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Entry::Left (x_0) => Val::Node("Entry::Left".into(), vec![("0".into(), x_0.val())]), Entry::Right { input: x_0, e1: x_1, n: x_2, parsel_tokens: x_3, r#struct: x_4 } => Val::Node("Entry::Right".into(), vec![("input".into(), x_0.val()), ("e1".into(), x_1.val()), ("n".into(), x_2.val()), ("parsel_tokens".into(), x_3.val()), ("r#struct".into(), x_4.val())]), Entry::Ok2 (x_0, x_1, x_2) => Val::Node("Entry::Ok2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Entry::Enum { ctor_name: x_0 } => Val::Node("Entry::Enum".into(), vec![("ctor_name".into(), x_0.val())]), Entry::Fork { inner: x_0 } => Val::Node("Entry::Fork".into(), vec![("inner".into(), x_0.val())]), Entry::Eof (x_0, x_1, x_2, x_3) => Val::Node("Entry::Eof".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Entry::Unknown (x_0, x_1, x_2) => Val::Node("Entry::Unknown".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Entry::Recursive { cursor: x_0, ctor_name: x_1, x1: x_2, fork: x_3, alloc: x_4 } => Val::Node("Entry::Recursive".into(), vec![("cursor".into(), x_0.val()), ("ctor_name".into(), x_1.val()), ("x1".into(), x_2.val()), ("fork".into(), x_3.val()), ("alloc".into(), x_4.val())]) } }
    }
}
pub mod b104 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Variant(/// d
 #[parsel(recursive)] /// e
 D,  D);
    impl HasG for Variant {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Variant", fields: vec![("0", <D as HasG>::g()), ("1", <D as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Variant".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val())]) }
    }
}
pub mod b105 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Node {  Result2( Maybe<P, P>) }
    impl HasG for Node {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Node", ctor: "Result2", fields: vec![("0", <Maybe<P, P> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Node::Result2 (x_0) => Val::Node("Node::Result2".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b106 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Cause(#[allow(dead_code, unused)] pub F,  pub(super) D, #[parsel(recursive = true)] pub(crate) S, #[doc(hidden)] pub D, #[parsel(recursive)] pub(super) Q, #[parsel(recursive)] pub S,  pub(super) C,  pub(crate) C,  P,  pub syn::LitStr);
    impl HasG for Cause {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Cause", fields: vec![("0", <F as HasG>::g()), ("1", <D as HasG>::g()), ("2", <S as HasG>::g()), ("3", <D as HasG>::g()), ("4", <Q as HasG>::g()), ("5", <S as HasG>::g()), ("6", <C as HasG>::g()), ("7", <C as HasG>::g()), ("8", <P as HasG>::g()), ("9", <syn::LitStr as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Cause".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val()), ("9".into(), self.9.val())]) }
    }
}
pub mod b107 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Chain_ { /// documented
 A( Punctuated<D, P>, #[cfg(all())] syn::LitStr,  C,  RightAssoc<P, Paren<I>>, /// documented
 F), #[allow(dead_code)] Été {  r: Maybe<S, P>,  r#mut: Any<I>, /// documented
 rest: F } }
    impl HasG for Chain_ {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Chain_", ctor: "A", fields: vec![("0", <Punctuated<D, P> as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <C as HasG>::g()), ("3", <RightAssoc<P, Paren<I>> as HasG>::g()), ("4", <F as HasG>::g())] }, Gm::Seq { en: "Chain_", ctor: "Été", fields: vec![("r", <Maybe<S, P> as HasG>::g()), ("r#mut", <Any<I> as HasG>::g()), ("rest", <F as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Chain_::A (x_0, x_1, x_2, x_3, x_4) => Val::Node("Chain_::A".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Chain_::Été { r: x_0, r#mut: x_1, rest: x_2 } => Val::Node("Chain_::Été".into(), vec![("r".into(), x_0.val()), ("r#mut".into(), x_1.val()), ("rest".into(), x_2.val())]) } }
    }
}
pub mod b108 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Item { /// d
 #[parsel(recursive)] /// e
 pub(crate) o: S,  pub tt: syn::LitStr, #[parsel(recursive = true)] pub field_str: I,  pub r#match: I,  input: C,  pub(crate) default: C,  pub(super) parser: F,  parsel: C, #[parsel(recursive = false)] pub(crate) vx: Q,  pub(crate) x: Q,  pub r: F, #[parsel(recursive = true)] pub outer: D, #[allow(dead_code)] #[parsel(recursive)] pub y: b11::Entry,  pub ret: P, #[doc(hidden)] e1: D, #[cfg(all())] pub(super) r#box: D, #[allow(dead_code, unused)] r#try: D, #[allow(dead_code)] #[parsel(recursive)] pub(super) vec: D,  pub(crate) tokens: F, #[allow(dead_code)] #[parsel(recursive)] s: F,  pub(crate) tmp: F,  pub len: I,  pub(crate) enum_name: syn::LitStr,  pub eof: S,  pub(crate) r#dyn: D,  pub val: P,  pub to_tokens: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] pub r#ref: Box<D>, #[parsel(recursive)] r#else: P,  pub kw: C, #[cfg(all())] pub r#fn: D,  pub cursor: I }
    impl HasG for Item {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Item", fields: vec![("o", <S as HasG>::g()), ("tt", <syn::LitStr as HasG>::g()), ("field_str", <I as HasG>::g()), ("r#match", <I as HasG>::g()), ("input", <C as HasG>::g()), ("default", <C as HasG>::g()), ("parser", <F as HasG>::g()), ("parsel", <C as HasG>::g()), ("vx", <Q as HasG>::g()), ("x", <Q as HasG>::g()), ("r", <F as HasG>::g()), ("outer", <D as HasG>::g()), ("y", <b11::Entry as HasG>::g()), ("ret", <P as HasG>::g()), ("e1", <D as HasG>::g()), ("r#box", <D as HasG>::g()), ("r#try", <D as HasG>::g()), ("vec", <D as HasG>::g()), ("tokens", <F as HasG>::g()), ("s", <F as HasG>::g()), ("tmp", <F as HasG>::g()), ("len", <I as HasG>::g()), ("enum_name", <syn::LitStr as HasG>::g()), ("eof", <S as HasG>::g()), ("r#dyn", <D as HasG>::g()), ("val", <P as HasG>::g()), ("to_tokens", <syn::LitStr as HasG>::g()), ("r#ref", <Box<D> as HasG>::g()), ("r#else", <P as HasG>::g()), ("kw", <C as HasG>::g()), ("r#fn", <D as HasG>::g()), ("cursor", <I as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Item".into(), vec![("o".into(), self.o.val()), ("tt".into(), self.tt.val()), ("field_str".into(), self.field_str.val()), ("r#match".into(), self.r#match.val()), ("input".into(), self.input.val()), ("default".into(), self.default.val()), ("parser".into(), self.parser.val()), ("parsel".into(), self.parsel.val()), ("vx".into(), self.vx.val()), ("x".into(), self.x.val()), ("r".into(), self.r.val()), ("outer".into(), self.outer.val()), ("y".into(), self.y.val()), ("ret".into(), self.ret.val()), ("e1".into(), self.e1.val()), ("r#box".into(), self.r#box.val()), ("r#try".into(), self.r#try.val()), ("vec".into(), self.vec.val()), ("tokens".into(), self.tokens.val()), ("s".into(), self.s.val()), ("tmp".into(), self.tmp.val()), ("len".into(), self.len.val()), ("enum_name".into(), self.enum_name.val()), ("eof".into(), self.eof.val()), ("r#dyn".into(), self.r#dyn.val()), ("val".into(), self.val.val()), ("to_tokens".into(), self.to_tokens.val()), ("r#ref".into(), self.r#ref.val()), ("r#else".into(), self.r#else.val()), ("kw".into(), self.kw.val()), ("r#fn".into(), self.r#fn.val()), ("cursor".into(), self.cursor.val())]) }
    }
}
pub mod b109 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Variant {  Input( C, #[parsel(recursive = true)] S),  Item( C, #[parsel(recursive = true)] S,  I,  I, #[parsel(recursive)] F), /// documented
 Struct,  Empty(/// d
 #[parsel(recursive)] /// e
 syn::LitStr, #[parsel(recursive = true)] F, #[parsel(recursive = false)] P, #[allow(dead_code)] #[parsel(recursive)] D, #[doc(hidden)] S, #[doc(hidden)] D,  S),  Stream { #[cfg(all())] quote: I },  Vec2( F,  C, #[parsel(recursive = true)] syn::LitStr, #[doc(hidden)] syn::LitStr, #[doc(hidden)] D,  syn::LitStr,  Q,  Q, #[cfg(all())] syn::LitStr,  S, /// documented
 Brace<Q>), #[doc(hidden)] Default {  none: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] suffix: syn::LitStr },  Self_(#[doc(hidden)] F, /// documented
 Bracket<Maybe<C, F>>, #[parsel(recursive)] I,  D, #[parsel(recursive)] S, #[cfg(all())] C, #[cfg(all())] syn::LitStr,  S,  D),  Right( D, #[parsel(recursive = false)] syn::LitStr),  T, #[doc(hidden)] Boxed, /// documented
 Y { /// d
 #[parsel(recursive)] /// e
 kw: S,  left: Q,  x1: S, #[cfg(all())] item: syn::LitStr,  to_tokens: F, /// documented
 std: syn::LitStr,  x: D } }
    impl HasG for Variant {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Variant", ctor: "Input", fields: vec![("0", <C as HasG>::g()), ("1", <S as HasG>::g())] }, Gm::Seq { en: "Variant", ctor: "Item", fields: vec![("0", <C as HasG>::g()), ("1", <S as HasG>::g()), ("2", <I as HasG>::g()), ("3", <I as HasG>::g()), ("4", <F as HasG>::g())] }, Gm::Seq { en: "Variant", ctor: "Struct", fields: vec![] }, Gm::Seq { en: "Variant", ctor: "Empty", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <F as HasG>::g()), ("2", <P as HasG>::g()), ("3", <D as HasG>::g()), ("4", <S as HasG>::g()), ("5", <D as HasG>::g()), ("6", <S as HasG>::g())] }, Gm::Seq { en: "Variant", ctor: "Stream", fields: vec![("quote", <I as HasG>::g())] }, Gm::Seq { en: "Variant", ctor: "Vec2", fields: vec![("0", <F as HasG>::g()), ("1", <C as HasG>::g()), ("2", <syn::LitStr as HasG>::g()), ("3", <syn::LitStr as HasG>::g()), ("4", <D as HasG>::g()), ("5", <syn::LitStr as HasG>::g()), ("6", <Q as HasG>::g()), ("7", <Q as HasG>::g()), ("8", <syn::LitStr as HasG>::g()), ("9", <S as HasG>::g()), ("10", <Brace<Q> as HasG>::g())] }, Gm::Seq { en: "Variant", ctor: "Default", fields: vec![("none", <syn::LitStr as HasG>::g()), ("suffix", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Variant", ctor: "Self_", fields: vec![("0", <F as HasG>::g()), ("1", <Bracket<Maybe<C, F>> as HasG>::g()), ("2", <I as HasG>::g()), ("3", <D as HasG>::g()), ("4", <S as HasG>::g()), ("5", <C as HasG>::g()), ("6", <syn::LitStr as HasG>::g()), ("7", <S as HasG>::g()), ("8", <D as HasG>::g())] }, Gm::Seq { en: "Variant", ctor: "Right", fields: vec![("0", <D as HasG>::g()), ("1", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Variant", ctor: "T", fields: vec![] }, Gm::Seq { en: "Variant", ctor: "Boxed", fields: vec![] }, Gm::Seq { en: "Variant", ctor: "Y", fields: vec![("kw", <S as HasG>::g()), ("left", <Q as HasG>::g()), ("x1", <S as HasG>::g()), ("item", <syn::LitStr as HasG>::g()), ("to_tokens", <F as HasG>::g()), ("std", <syn::LitStr as HasG>::g()), ("x", <D as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Variant::Input (x_0, x_1) => Val::Node("Variant::Input".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Variant::Item (x_0, x_1, x_2, x_3, x_4) => Val::Node("Variant::Item".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Variant::Struct  => Val::Node("Variant::Struct".into(), vec![]), Variant::Empty (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Variant::Empty".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Variant::Stream { quote: x_0 } => Val::Node("Variant::Stream".into(), vec![("quote".into(), x_0.val())]), Variant::Vec2 (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10) => Val::Node("Variant::Vec2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val())]), Variant::Default { none: x_0, suffix: x_1 } => Val::Node("Variant::Default".into(), vec![("none".into(), x_0.val()), ("suffix".into(), x_1.val())]), Variant::Self_ (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Variant::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Variant::Right (x_0, x_1) => Val::Node("Variant::Right".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Variant::T  => Val::Node("Variant::T".into(), vec![]), Variant::Boxed  => Val::Node("Variant::Boxed".into(), vec![]), Variant::Y { kw: x_0, left: x_1, x1: x_2, item: x_3, to_tokens: x_4, std: x_5, x: x_6 } => Val::Node("Variant::Y".into(), vec![("kw".into(), x_0.val()), ("left".into(), x_1.val()), ("x1".into(), x_2.val()), ("item".into(), x_3.val()), ("to_tokens".into(), x_4.val()), ("std".into(), x_5.val()), ("x".into(), x_6.val())]) } }
    }
}
pub mod b110 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Item(#[allow(dead_code, unused)] pub syn::LitStr, #[allow(dead_code, unused)] pub(crate) Brace<I>);
    impl HasG for Item {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Item", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <Brace<I> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Item".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val())]) }
    }
}
pub mod b111 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Ast { #[cfg(all())] String2(#[parsel(recursive)] I,  D),  Other(#[allow(dead_code, unused)] Q),  Some(#[parsel(recursive)] I, #[parsel(recursive = false)] P,  I),  Boxed(#[parsel(recursive)] C, #[parsel(recursive = true)] C, /// documented
 syn::LitStr, #[parsel(recursive = true)] Separated<I, C>,  F), /// documented
 Stream( Bracket<Punctuated<D, C>>, #[cfg(all())] D,  syn::LitStr),  Expr(),  Ok( syn::LitStr,  Q,  F,  Box<D>, #[allow(dead_code)] #[parsel(recursive)] syn::LitStr,  C,  F), #[cfg(all())] Unknown { #[parsel(recursive)] recursive: C }, #[doc(hidden)] Left( D, #[allow(dead_code)] #[parsel(recursive)] I,  D,  Paren<F>, #[allow(dead_code)] #[parsel(recursive)] D,  S,  S), #[allow(dead_code)] Empty {  Upper: D,  x1: syn::LitStr,  prev: I,  camelCase: I, #[parsel(recursive = true)] r#fn: P,  SHOUT: I, #[parsel(recursive = false)] value: P, #[parsel(recursive)] f: P, #[allow(dead_code, unused)] ty_name: I, }, /// documented
 Ident { #[parsel(recursive)] ok: I, /// documented
 right: C },  Value { /// documented
 v: P,  a: syn::LitStr,  parsel_tokens: D,  bindings: syn::LitStr, #[parsel(recursive = false)] r: Q, #[parsel(recursive)] n: F,  r#impl: D,  kw: C,  end: S, }, #[doc(hidden)] None( D,  I),  Err(#[cfg(all())] syn::LitStr,  Any<syn::LitStr>, #[doc(hidden)] D,  syn::LitStr), /// documented
 Named(/// d
 #[parsel(recursive)] /// e
 I,  syn::LitStr, #[parsel(recursive = false)] P), /// documented
 Fork( D,  I, #[parsel(recursive)] Separated<ST2<I, D>, C>, /// documented
 C, #[parsel(recursive = true)] I,  I,  Q, /// documented
 Q, #[parsel(recursive = false)] Any<E2<I, D>>, /// d
 #[parsel(recursive)] /// e
 S, #[parsel(recursive = true)] F, /// documented
 syn::LitStr,  D,  syn::LitStr, #[parsel(recursive = true)] I, /// d
 #[parsel(recursive)] /// e
 P), #[allow(dead_code)] Tuple( D),  Enum {  r#match: Maybe<C, S>,  r#fn: S,  e: F,  none: S, /// d
 #[parsel(recursive)] /// e
 ident: S,  größe: P, /// documented
 token: Q,  empty: I,  x: I },  Parse(#[allow(dead_code, unused)] Either<D, I>,  I), #[doc(hidden)] Vec2( syn::LitStr) }
    impl HasG for Ast {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Ast", ctor: "String2", fields: vec![("0", <I as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Other", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Some", fields: vec![("0", <I as HasG>::g()), ("1", <P as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Boxed", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <syn::LitStr as HasG>::g()), ("3", <Separated<I, C> as HasG>::g()), ("4", <F as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Stream", fields: vec![("0", <Bracket<Punctuated<D, C>> as HasG>::g()), ("1", <D as HasG>::g()), ("2", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Expr", fields: vec![] }, Gm::Seq { en: "Ast", ctor: "Ok", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <F as HasG>::g()), ("3", <Box<D> as HasG>::g()), ("4", <syn::LitStr as HasG>::g()), ("5", <C as HasG>::g()), ("6", <F as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Unknown", fields: vec![("recursive", <C as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Left", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g()), ("2", <D as HasG>::g()), ("3", <Paren<F> as HasG>::g()), ("4", <D as HasG>::g()), ("5", <S as HasG>::g()), ("6", <S as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Empty", fields: vec![("Upper", <D as HasG>::g()), ("x1", <syn::LitStr as HasG>::g()), ("prev", <I as HasG>::g()), ("camelCase", <I as HasG>::g()), ("r#fn", <P as HasG>::g()), ("SHOUT", <I as HasG>::g()), ("value", <P as HasG>::g()), ("f", <P as HasG>::g()), ("ty_name", <I as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Ident", fields: vec![("ok", <I as HasG>::g()), ("right", <C as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Value", fields: vec![("v", <P as HasG>::g()), ("a", <syn::LitStr as HasG>::g()), ("parsel_tokens", <D as HasG>::g()), ("bindings", <syn::LitStr as HasG>::g()), ("r", <Q as HasG>::g()), ("n", <F as HasG>::g()), ("r#impl", <D as HasG>::g()), ("kw", <C as HasG>::g()), ("end", <S as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "None", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Err", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <Any<syn::LitStr> as HasG>::g()), ("2", <D as HasG>::g()), ("3", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Named", fields: vec![("0", <I as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <P as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Fork", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g()), ("2", <Separated<ST2<I, D>, C> as HasG>::g()), ("3", <C as HasG>::g()), ("4", <I as HasG>::g()), ("5", <I as HasG>::g()), ("6", <Q as HasG>::g()), ("7", <Q as HasG>::g()), ("8", <Any<E2<I, D>> as HasG>::g()), ("9", <S as HasG>::g()), ("10", <F as HasG>::g()), ("11", <syn::LitStr as HasG>::g()), ("12", <D as HasG>::g()), ("13", <syn::LitStr as HasG>::g()), ("14", <I as HasG>::g()), ("15", <P as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Tuple", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Enum", fields: vec![("r#match", <Maybe<C, S> as HasG>::g()), ("r#fn", <S as HasG>::g()), ("e", <F as HasG>::g()), ("none", <S as HasG>::g()), ("ident", <S as HasG>::g()), ("größe", <P as HasG>::g()), ("token", <Q as HasG>::g()), ("empty", <I as HasG>::g()), ("x", <I as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Parse", fields: vec![("0", <Either<D, I> as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Ast", ctor: "Vec2", fields: vec![("0", <syn::LitStr as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Ast::String2 (x_0, x_1) => Val::Node("Ast::String2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Ast::Other (x_0) => Val::Node("Ast::Other".into(), vec![("0".into(), x_0.val())]), Ast::Some (x_0, x_1, x_2) => Val::Node("Ast::Some".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Ast::Boxed (x_0, x_1, x_2, x_3, x_4) => Val::Node("Ast::Boxed".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Ast::Stream (x_0, x_1, x_2) => Val::Node("Ast::Stream".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Ast::Expr () => Val::Node("Ast::Expr".into(), vec![]), Ast::Ok (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Ast::Ok".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Ast::Unknown { recursive: x_0 } => Val::Node("Ast::Unknown".into(), vec![("recursive".into(), x_0.val())]), Ast::Left (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Ast::Left".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Ast::Empty { Upper: x_0, x1: x_1, prev: x_2, camelCase: x_3, r#fn: x_4, SHOUT: x_5, value: x_6, f: x_7, ty_name: x_8 } => Val::Node("Ast::Empty".into(), vec![("Upper".into(), x_0.val()), ("x1".into(), x_1.val()), ("prev".into(), x_2.val()), ("camelCase".into(), x_3.val()), ("r#fn".into(), x_4.val()), ("SHOUT".into(), x_5.val()), ("value".into(), x_6.val()), ("f".into(), x_7.val()), ("ty_name".into(), x_8.val())]), Ast::Ident { ok: x_0, right: x_1 } => Val::Node("Ast::Ident".into(), vec![("ok".into(), x_0.val()), ("right".into(), x_1.val())]), Ast::Value { v: x_0, a: x_1, parsel_tokens: x_2, bindings: x_3, r: x_4, n: x_5, r#impl: x_6, kw: x_7, end: x_8 } => Val::Node("Ast::Value".into(), vec![("v".into(), x_0.val()), ("a".into(), x_1.val()), ("parsel_tokens".into(), x_2.val()), ("bindings".into(), x_3.val()), ("r".into(), x_4.val()), ("n".into(), x_5.val()), ("r#impl".into(), x_6.val()), ("kw".into(), x_7.val()), ("end".into(), x_8.val())]), Ast::None (x_0, x_1) => Val::Node("Ast::None".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Ast::Err (x_0, x_1, x_2, x_3) => Val::Node("Ast::Err".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Ast::Named (x_0, x_1, x_2) => Val::Node("Ast::Named".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Ast::Fork (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8, x_9, x_10, x_11, x_12, x_13, x_14, x_15) => Val::Node("Ast::Fork".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val()), ("9".into(), x_9.val()), ("10".into(), x_10.val()), ("11".into(), x_11.val()), ("12".into(), x_12.val()), ("13".into(), x_13.val()), ("14".into(), x_14.val()), ("15".into(), x_15.val())]), Ast::Tuple (x_0) => Val::Node("Ast::Tuple".into(), vec![("0".into(), x_0.val())]), Ast::Enum { r#match: x_0, r#fn: x_1, e: x_2, none: x_3, ident: x_4, größe: x_5, token: x_6, empty: x_7, x: x_8 } => Val::Node("Ast::Enum".into(), vec![("r#match".into(), x_0.val()), ("r#fn".into(), x_1.val()), ("e".into(), x_2.val()), ("none".into(), x_3.val()), ("ident".into(), x_4.val()), ("größe".into(), x_5.val()), ("token".into(), x_6.val()), ("empty".into(), x_7.val()), ("x".into(), x_8.val())]), Ast::Parse (x_0, x_1) => Val::Node("Ast::Parse".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Ast::Vec2 (x_0) => Val::Node("Ast::Vec2".into(), vec![("0".into(), x_0.val())]) } }
    }
}
pub mod b112 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Choice(#[parsel(recursive = true)] D,  pub(super) syn::LitStr,  pub(crate) Q, #[parsel(recursive = false)] pub(super) D, #[allow(dead_code, unused)] pub I, #[allow(dead_code, unused)] pub(crate) F,  pub S,  syn::LitStr,  C, #[parsel(recursive)] pub(crate) F, #[parsel(recursive)] pub D, #[parsel(recursive)] pub syn::LitStr, #[parsel(recursive)] pub D, #[cfg(all())] D,  pub(super) Q,  pub S, #[cfg(all())] pub(super) Q,  pub(super) D,  pub(super) D, #[cfg(all())] pub(super) syn::LitStr,  pub(crate) C,  pub(crate) Bracket<syn::LitStr>, #[parsel(recursive = false)] pub D, #[allow(dead_code)] #[parsel(recursive)] pub D, #[allow(dead_code, unused)] pub I,  pub(crate) D, /// d
 #[parsel(recursive)] /// e
 pub(super) C,  pub(crate) D,  pub S, #[parsel(recursive = false)] pub(super) Q, #[cfg(all())] Q);
    impl HasG for Choice {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Choice", fields: vec![("0", <D as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <D as HasG>::g()), ("4", <I as HasG>::g()), ("5", <F as HasG>::g()), ("6", <S as HasG>::g()), ("7", <syn::LitStr as HasG>::g()), ("8", <C as HasG>::g()), ("9", <F as HasG>::g()), ("10", <D as HasG>::g()), ("11", <syn::LitStr as HasG>::g()), ("12", <D as HasG>::g()), ("13", <D as HasG>::g()), ("14", <Q as HasG>::g()), ("15", <S as HasG>::g()), ("16", <Q as HasG>::g()), ("17", <D as HasG>::g()), ("18", <D as HasG>::g()), ("19", <syn::LitStr as HasG>::g()), ("20", <C as HasG>::g()), ("21", <Bracket<syn::LitStr> as HasG>::g()), ("22", <D as HasG>::g()), ("23", <D as HasG>::g()), ("24", <I as HasG>::g()), ("25", <D as HasG>::g()), ("26", <C as HasG>::g()), ("27", <D as HasG>::g()), ("28", <S as HasG>::g()), ("29", <Q as HasG>::g()), ("30", <Q as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Choice".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val()), ("9".into(), self.9.val()), ("10".into(), self.10.val()), ("11".into(), self.11.val()), ("12".into(), self.12.val()), ("13".into(), self.13.val()), ("14".into(), self.14.val()), ("15".into(), self.15.val()), ("16".into(), self.16.val()), ("17".into(), self.17.val()), ("18".into(), self.18.val()), ("19".into(), self.19.val()), ("20".into(), self.20.val()), ("21".into(), self.21.val()), ("22".into(), self.22.val()), ("23".into(), self.23.val()), ("24".into(), self.24.val()), ("25".into(), self.25.val()), ("26".into(), self.26.val()), ("27".into(), self.27.val()), ("28".into(), self.28.val()), ("29".into(), self.29.val()), ("30".into(), self.30.val())]) }
    }
}
pub mod b113 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[doc(hidden)]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Q_ { #[cfg(all())] Été {  prev: Q,  buf: P,  r#in: Q, #[allow(dead_code)] #[parsel(recursive)] start: F,  field_str: syn::LitStr, #[allow(dead_code)] #[parsel(recursive)] parsel_field_X_0: F, /// d
 #[parsel(recursive)] /// e
 parse: C,  input: syn::LitStr,  bounds: D, },  Ident( Bracket<Box<syn::LitStr>>, #[parsel(recursive = true)] S,  F,  S,  I, /// documented
 P,  I),  Right {  parsel_tokens: S,  suffix: Q,  ty_name: syn::LitStr,  default: D,  parsel_field_0: Brace<Bracket<S>>,  r#move: Q,  left: syn::LitStr, #[parsel(recursive)] buf: C, #[doc(hidden)] fork: F, },  Tokens( S,  D),  Any(#[parsel(recursive = false)] I),  Item(#[cfg(all())] syn::LitStr,  Q,  S),  Vec2(#[allow(dead_code)] #[parsel(recursive)] S, #[parsel(recursive = false)] P, /// d
 #[parsel(recursive)] /// e
 C, #[parsel(recursive = true)] P,  I, #[doc(hidden)] D,  F,  D, #[parsel(recursive)] S),  Unit { /// d
 #[parsel(recursive)] /// e
 ok: S, }, #[allow(dead_code)] Self_( F, /// d
 #[parsel(recursive)] /// e
 P),  Fork(#[allow(dead_code)] #[parsel(recursive)] syn::LitStr, #[parsel(recursive = false)] P,  P, /// documented
 D), #[doc(hidden)] B( S),  Y {  _0: S }, /// documented
 U { #[allow(dead_code)] #[parsel(recursive)] parser: S,  empty: D,  result: I,  default: S, #[parsel(recursive = true)] r#use: D, },  Some(#[allow(dead_code)] #[parsel(recursive)] D, #[parsel(recursive = false)] Q,  syn::LitStr,  S, /// documented
 Q,  S, /// d
 #[parsel(recursive)] /// e
 I),  Variant(#[parsel(recursive = true)] syn::LitStr, #[parsel(recursive)] D,  S),  Input(/// d
 #[parsel(recursive)] /// e
 Q, #[doc(hidden)] syn::LitStr,  S,  F, /// documented
 D),  Maybe(#[allow(dead_code)] #[parsel(recursive)] Q,  I,  Q,  syn::LitStr,  D), #[allow(dead_code)] Stmt {  field_index: D, }, #[doc(hidden)] Parsel( Q), /// documented
 Parse_( I,  I,  F), #[allow(dead_code)] Error2( D,  Q,  D),  Other( I), #[cfg(all())] NotEof( P),  Boxed { #[parsel(recursive)] node: P,  b: I,  last: P, #[cfg(all())] body: S,  buf: Either<I, D>,  camelCase: I, /// documented
 ast_node: I,  rest: Q,  t: Q,  key: syn::LitStr,  out: F, /// d
 #[parsel(recursive)] /// e
 fmt: P, #[allow(dead_code)] #[parsel(recursive)] r#enum: C, /// documented
 field: I,  r#type: Q, },  Enum, #[cfg(all())] Core { #[doc(hidden)] field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: I,  cause: I,  variant_name: D,  core: D,  that: I,  vec: D,  default: P, #[allow(dead_code, unused)] y: F,  r#in: D, #[parsel(recursive)] left: C,  some: S, }, /// documented
 Option2 {  end: C,  r#loop: Q,  fields: I, #[parsel(recursive)] r#impl: F },  Value( D, /// d
 #[parsel(recursive)] /// e
 I), #[allow(dead_code)] Paren,  X( P, #[doc(hidden)] I,  Q),  Eof( I, #[cfg(all())] F, /// documented
 Q, #[cfg(all())] syn::LitStr, #[parsel(recursive)] Separated<ST2<I, D>, P>,  F, #[parsel(recursive = true)] D), /// documented
 Result2( syn::LitStr,  Maybe<Q, D>),  Unknown { #[doc(hidden)] y: D,  quote: F, /// d
 #[parsel(recursive)] /// e
 field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: D,  value: I,  tail: syn::LitStr, #[allow(dead_code, unused)] next: I,  ok: S } }
    impl HasG for Q_ {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Q_", ctor: "Été", fields: vec![("prev", <Q as HasG>::g()), ("buf", <P as HasG>::g()), ("r#in", <Q as HasG>::g()), ("start", <F as HasG>::g()), ("field_str", <syn::LitStr as HasG>::g()), ("parsel_field_X_0", <F as HasG>::g()), ("parse", <C as HasG>::g()), ("input", <syn::LitStr as HasG>::g()), ("bounds", <D as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Ident", fields: vec![("0", <Bracket<Box<syn::LitStr>> as HasG>::g()), ("1", <S as HasG>::g()), ("2", <F as HasG>::g()), ("3", <S as HasG>::g()), ("4", <I as HasG>::g()), ("5", <P as HasG>::g()), ("6", <I as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Right", fields: vec![("parsel_tokens", <S as HasG>::g()), ("suffix", <Q as HasG>::g()), ("ty_name", <syn::LitStr as HasG>::g()), ("default", <D as HasG>::g()), ("parsel_field_0", <Brace<Bracket<S>> as HasG>::g()), ("r#move", <Q as HasG>::g()), ("left", <syn::LitStr as HasG>::g()), ("buf", <C as HasG>::g()), ("fork", <F as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Tokens", fields: vec![("0", <S as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Any", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Item", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <S as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Vec2", fields: vec![("0", <S as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <I as HasG>::g()), ("5", <D as HasG>::g()), ("6", <F as HasG>::g()), ("7", <D as HasG>::g()), ("8", <S as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Unit", fields: vec![("ok", <S as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Self_", fields: vec![("0", <F as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Fork", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <D as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "B", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Y", fields: vec![("_0", <S as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "U", fields: vec![("parser", <S as HasG>::g()), ("empty", <D as HasG>::g()), ("result", <I as HasG>::g()), ("default", <S as HasG>::g()), ("r#use", <D as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Some", fields: vec![("0", <D as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <syn::LitStr as HasG>::g()), ("3", <S as HasG>::g()), ("4", <Q as HasG>::g()), ("5", <S as HasG>::g()), ("6", <I as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Variant", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <D as HasG>::g()), ("2", <S as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Input", fields: vec![("0", <Q as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <S as HasG>::g()), ("3", <F as HasG>::g()), ("4", <D as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Maybe", fields: vec![("0", <Q as HasG>::g()), ("1", <I as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <syn::LitStr as HasG>::g()), ("4", <D as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Stmt", fields: vec![("field_index", <D as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Parsel", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Parse_", fields: vec![("0", <I as HasG>::g()), ("1", <I as HasG>::g()), ("2", <F as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Error2", fields: vec![("0", <D as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <D as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Other", fields: vec![("0", <I as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "NotEof", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Boxed", fields: vec![("node", <P as HasG>::g()), ("b", <I as HasG>::g()), ("last", <P as HasG>::g()), ("body", <S as HasG>::g()), ("buf", <Either<I, D> as HasG>::g()), ("camelCase", <I as HasG>::g()), ("ast_node", <I as HasG>::g()), ("rest", <Q as HasG>::g()), ("t", <Q as HasG>::g()), ("key", <syn::LitStr as HasG>::g()), ("out", <F as HasG>::g()), ("fmt", <P as HasG>::g()), ("r#enum", <C as HasG>::g()), ("field", <I as HasG>::g()), ("r#type", <Q as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Enum", fields: vec![] }, Gm::Seq { en: "Q_", ctor: "Core", fields: vec![("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it", <I as HasG>::g()), ("cause", <I as HasG>::g()), ("variant_name", <D as HasG>::g()), ("core", <D as HasG>::g()), ("that", <I as HasG>::g()), ("vec", <D as HasG>::g()), ("default", <P as HasG>::g()), ("y", <F as HasG>::g()), ("r#in", <D as HasG>::g()), ("left", <C as HasG>::g()), ("some", <S as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Option2", fields: vec![("end", <C as HasG>::g()), ("r#loop", <Q as HasG>::g()), ("fields", <I as HasG>::g()), ("r#impl", <F as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Value", fields: vec![("0", <D as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Paren", fields: vec![] }, Gm::Seq { en: "Q_", ctor: "X", fields: vec![("0", <P as HasG>::g()), ("1", <I as HasG>::g()), ("2", <Q as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Eof", fields: vec![("0", <I as HasG>::g()), ("1", <F as HasG>::g()), ("2", <Q as HasG>::g()), ("3", <syn::LitStr as HasG>::g()), ("4", <Separated<ST2<I, D>, P> as HasG>::g()), ("5", <F as HasG>::g()), ("6", <D as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Result2", fields: vec![("0", <syn::LitStr as HasG>::g()), ("1", <Maybe<Q, D> as HasG>::g())] }, Gm::Seq { en: "Q_", ctor: "Unknown", fields: vec![("y", <D as HasG>::g()), ("quote", <F as HasG>::g()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it", <D as HasG>::g()), ("value", <I as HasG>::g()), ("tail", <syn::LitStr as HasG>::g()), ("next", <I as HasG>::g()), ("ok", <S as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Q_::Été { prev: x_0, buf: x_1, r#in: x_2, start: x_3, field_str: x_4, parsel_field_X_0: x_5, parse: x_6, input: x_7, bounds: x_8 } => Val::Node("Q_::Été".into(), vec![("prev".into(), x_0.val()), ("buf".into(), x_1.val()), ("r#in".into(), x_2.val()), ("start".into(), x_3.val()), ("field_str".into(), x_4.val()), ("parsel_field_X_0".into(), x_5.val()), ("parse".into(), x_6.val()), ("input".into(), x_7.val()), ("bounds".into(), x_8.val())]), Q_::Ident (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Q_::Ident".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Q_::Right { parsel_tokens: x_0, suffix: x_1, ty_name: x_2, default: x_3, parsel_field_0: x_4, r#move: x_5, left: x_6, buf: x_7, fork: x_8 } => Val::Node("Q_::Right".into(), vec![("parsel_tokens".into(), x_0.val()), ("suffix".into(), x_1.val()), ("ty_name".into(), x_2.val()), ("default".into(), x_3.val()), ("parsel_field_0".into(), x_4.val()), ("r#move".into(), x_5.val()), ("left".into(), x_6.val()), ("buf".into(), x_7.val()), ("fork".into(), x_8.val())]), Q_::Tokens (x_0, x_1) => Val::Node("Q_::Tokens".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Q_::Any (x_0) => Val::Node("Q_::Any".into(), vec![("0".into(), x_0.val())]), Q_::Item (x_0, x_1, x_2) => Val::Node("Q_::Item".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Q_::Vec2 (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Q_::Vec2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Q_::Unit { ok: x_0 } => Val::Node("Q_::Unit".into(), vec![("ok".into(), x_0.val())]), Q_::Self_ (x_0, x_1) => Val::Node("Q_::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Q_::Fork (x_0, x_1, x_2, x_3) => Val::Node("Q_::Fork".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Q_::B (x_0) => Val::Node("Q_::B".into(), vec![("0".into(), x_0.val())]), Q_::Y { _0: x_0 } => Val::Node("Q_::Y".into(), vec![("_0".into(), x_0.val())]), Q_::U { parser: x_0, empty: x_1, result: x_2, default: x_3, r#use: x_4 } => Val::Node("Q_::U".into(), vec![("parser".into(), x_0.val()), ("empty".into(), x_1.val()), ("result".into(), x_2.val()), ("default".into(), x_3.val()), ("r#use".into(), x_4.val())]), Q_::Some (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Q_::Some".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Q_::Variant (x_0, x_1, x_2) => Val::Node("Q_::Variant".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Q_::Input (x_0, x_1, x_2, x_3, x_4) => Val::Node("Q_::Input".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Q_::Maybe (x_0, x_1, x_2, x_3, x_4) => Val::Node("Q_::Maybe".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Q_::Stmt { field_index: x_0 } => Val::Node("Q_::Stmt".into(), vec![("field_index".into(), x_0.val())]), Q_::Parsel (x_0) => Val::Node("Q_::Parsel".into(), vec![("0".into(), x_0.val())]), Q_::Parse_ (x_0, x_1, x_2) => Val::Node("Q_::Parse_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Q_::Error2 (x_0, x_1, x_2) => Val::Node("Q_::Error2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Q_::Other (x_0) => Val::Node("Q_::Other".into(), vec![("0".into(), x_0.val())]), Q_::NotEof (x_0) => Val::Node("Q_::NotEof".into(), vec![("0".into(), x_0.val())]), Q_::Boxed { node: x_0, b: x_1, last: x_2, body: x_3, buf: x_4, camelCase: x_5, ast_node: x_6, rest: x_7, t: x_8, key: x_9, out: x_10, fmt: x_11, r#enum: x_12, field: x_13, r#type: x_14 } => Val::Node("Q_::Boxed".into(), vec![("node".into(), x_0.val()), ("b".into(), x_1.val()), ("last".into(), x_2.val()), ("body".into(), x_3.val()), ("buf".into(), x_4.val()), ("camelCase".into(), x_5.val()), ("ast_node".into(), x_6.val()), ("rest".into(), x_7.val()), ("t".into(), x_8.val()), ("key".into(), x_9.val()), ("out".into(), x_10.val()), ("fmt".into(), x_11.val()), ("r#enum".into(), x_12.val()), ("field".into(), x_13.val()), ("r#type".into(), x_14.val())]), Q_::Enum  => Val::Node("Q_::Enum".into(), vec![]), Q_::Core { field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: x_0, cause: x_1, variant_name: x_2, core: x_3, that: x_4, vec: x_5, default: x_6, y: x_7, r#in: x_8, left: x_9, some: x_10 } => Val::Node("Q_::Core".into(), vec![("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it".into(), x_0.val()), ("cause".into(), x_1.val()), ("variant_name".into(), x_2.val()), ("core".into(), x_3.val()), ("that".into(), x_4.val()), ("vec".into(), x_5.val()), ("default".into(), x_6.val()), ("y".into(), x_7.val()), ("r#in".into(), x_8.val()), ("left".into(), x_9.val()), ("some".into(), x_10.val())]), Q_::Option2 { end: x_0, r#loop: x_1, fields: x_2, r#impl: x_3 } => Val::Node("Q_::Option2".into(), vec![("end".into(), x_0.val()), ("r#loop".into(), x_1.val()), ("fields".into(), x_2.val()), ("r#impl".into(), x_3.val())]), Q_::Value (x_0, x_1) => Val::Node("Q_::Value".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Q_::Paren  => Val::Node("Q_::Paren".into(), vec![]), Q_::X (x_0, x_1, x_2) => Val::Node("Q_::X".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Q_::Eof (x_0, x_1, x_2, x_3, x_4, x_5, x_6) => Val::Node("Q_::Eof".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val())]), Q_::Result2 (x_0, x_1) => Val::Node("Q_::Result2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Q_::Unknown { y: x_0, quote: x_1, field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: x_2, value: x_3, tail: x_4, next: x_5, ok: x_6 } => Val::Node("Q_::Unknown".into(), vec![("y".into(), x_0.val()), ("quote".into(), x_1.val()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it".into(), x_2.val()), ("value".into(), x_3.val()), ("tail".into(), x_4.val()), ("next".into(), x_5.val()), ("ok".into(), x_6.val())]) } }
    }
}
pub mod b114 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Wrapper;
    impl HasG for Wrapper {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Wrapper", fields: vec![] } }
        fn val(&self) -> Val { Val::Node("Wrapper".into(), vec![]) }
    }
}
pub mod b115 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    /// a type
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Tokens {  Vec2 {  start: Any<E2<I, D>>, /// d
 #[parsel(recursive)] /// e
 parsel_field_0: syn::LitStr }, #[allow(dead_code)] Span(/// documented
 D, #[allow(dead_code, unused)] P,  b41::Sequence),  under_score(#[parsel(recursive = true)] D, #[parsel(recursive = false)] b74::Tree),  Right { #[parsel(recursive)] r#match: Q, } }
    impl HasG for Tokens {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Tokens", ctor: "Vec2", fields: vec![("start", <Any<E2<I, D>> as HasG>::g()), ("parsel_field_0", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "Span", fields: vec![("0", <D as HasG>::g()), ("1", <P as HasG>::g()), ("2", <b41::Sequence as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "under_score", fields: vec![("0", <D as HasG>::g()), ("1", <b74::Tree as HasG>::g())] }, Gm::Seq { en: "Tokens", ctor: "Right", fields: vec![("r#match", <Q as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Tokens::Vec2 { start: x_0, parsel_field_0: x_1 } => Val::Node("Tokens::Vec2".into(), vec![("start".into(), x_0.val()), ("parsel_field_0".into(), x_1.val())]), Tokens::Span (x_0, x_1, x_2) => Val::Node("Tokens::Span".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Tokens::under_score (x_0, x_1) => Val::Node("Tokens::under_score".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Tokens::Right { r#match: x_0 } => Val::Node("Tokens::Right".into(), vec![("r#match".into(), x_0.val())]) } }
    }
}
pub mod b116 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[must_use]
#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Error_;
    impl HasG for Error_ {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Error_", fields: vec![] } }
        fn val(&self) -> Val { Val::Node("Error_".into(), vec![]) }
    }
}
pub mod b117 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Z9 {  Unknown { #[parsel(recursive = false)] r#mut: D,  e: S,  default: F, },  Any(#[allow(dead_code, unused)] D, #[parsel(recursive)] Q,  P),  Eof(#[cfg(all())] S, /// d
 #[parsel(recursive)] /// e
 I),  A( D,  P),  Self_( I, #[parsel(recursive = false)] P,  P,  C,  S,  syn::LitStr,  Q,  Q, /// d
 #[parsel(recursive)] /// e
 C), #[allow(dead_code)] X_0( C, /// d
 #[parsel(recursive)] /// e
 D), #[cfg(all())] B { #[cfg(all())] that: P,  e1: syn::LitStr,  tmp: Q,  field_index: Q, #[allow(dead_code)] #[parsel(recursive)] variant: I,  empty: Q,  f: I,  start: S,  node: S,  _1: D,  n: I,  x1: S, #[parsel(recursive)] body2: C,  tail: D,  none: F, #[parsel(recursive)] iter: F,  buf: Q,  i: D,  __self: D, #[parsel(recursive)] begin_token: P, },  Right( F,  S, /// d
 #[parsel(recursive)] /// e
 P), #[doc(hidden)] Maybe(#[allow(dead_code)] #[parsel(recursive)] D),  Été {  t: I, /// d
 #[parsel(recursive)] /// e
 r: syn::LitStr },  Token,  Literal {  r#use: F,  len: F, },  Default(/// d
 #[parsel(recursive)] /// e
 Q),  Variant {  last: C }, #[allow(dead_code)] Left { #[doc(hidden)] t: D, #[cfg(all())] r#mut: I, #[parsel(recursive = true)] body2: D,  tmp: I,  peek: Q }, #[doc(hidden)] Fork( C),  Vec2( D),  Expr {  this: I }, /// documented
 Tokens(/// d
 #[parsel(recursive)] /// e
 S),  Parse(#[cfg(all())] I, /// documented
 syn::LitStr, #[cfg(all())] C,  I),  Group {  cursor: Maybe<Q, Separated<Paren<I>, P>>,  e: S },  Span( I, #[parsel(recursive = false)] F), /// documented
 Ok2(#[parsel(recursive = true)] D,  F,  P),  None(#[parsel(recursive = true)] P), /// documented
 Value(#[parsel(recursive)] F), #[cfg(all())] Some( C, #[parsel(recursive = true)] F, #[cfg(all())] F, #[allow(dead_code, unused)] C,  I),  Punct( D),  Type { #[parsel(recursive)] cause: Q,  buf: S,  next: P, #[allow(dead_code)] #[parsel(recursive)] k: syn::LitStr, #[allow(dead_code, unused)] field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: P, #[parsel(recursive = true)] begin_token: D, /// d
 #[parsel(recursive)] /// e
 ret: I, #[cfg(all())] r#enum: D,  x1: P, }, #[doc(hidden)] T {  },  K( Bracket<Any<I>>, #[parsel(recursive = true)] F, #[parsel(recursive = true)] I), #[cfg(all())] Many( D,  syn::LitStr, #[allow(dead_code, unused)] D, #[cfg(all())] F, #[parsel(recursive)] S, #[allow(dead_code, unused)] I),  Stmt,  NotEof( F, #[allow(dead_code)] #[parsel(recursive)] Q, #[parsel(recursive = false)] I) }
    impl HasG for Z9 {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Z9", ctor: "Unknown", fields: vec![("r#mut", <D as HasG>::g()), ("e", <S as HasG>::g()), ("default", <F as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Any", fields: vec![("0", <D as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <P as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Eof", fields: vec![("0", <S as HasG>::g()), ("1", <I as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "A", fields: vec![("0", <D as HasG>::g()), ("1", <P as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Self_", fields: vec![("0", <I as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <S as HasG>::g()), ("5", <syn::LitStr as HasG>::g()), ("6", <Q as HasG>::g()), ("7", <Q as HasG>::g()), ("8", <C as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "X_0", fields: vec![("0", <C as HasG>::g()), ("1", <D as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "B", fields: vec![("that", <P as HasG>::g()), ("e1", <syn::LitStr as HasG>::g()), ("tmp", <Q as HasG>::g()), ("field_index", <Q as HasG>::g()), ("variant", <I as HasG>::g()), ("empty", <Q as HasG>::g()), ("f", <I as HasG>::g()), ("start", <S as HasG>::g()), ("node", <S as HasG>::g()), ("_1", <D as HasG>::g()), ("n", <I as HasG>::g()), ("x1", <S as HasG>::g()), ("body2", <C as HasG>::g()), ("tail", <D as HasG>::g()), ("none", <F as HasG>::g()), ("iter", <F as HasG>::g()), ("buf", <Q as HasG>::g()), ("i", <D as HasG>::g()), ("__self", <D as HasG>::g()), ("begin_token", <P as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Right", fields: vec![("0", <F as HasG>::g()), ("1", <S as HasG>::g()), ("2", <P as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Maybe", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Été", fields: vec![("t", <I as HasG>::g()), ("r", <syn::LitStr as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Token", fields: vec![] }, Gm::Seq { en: "Z9", ctor: "Literal", fields: vec![("r#use", <F as HasG>::g()), ("len", <F as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Default", fields: vec![("0", <Q as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Variant", fields: vec![("last", <C as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Left", fields: vec![("t", <D as HasG>::g()), ("r#mut", <I as HasG>::g()), ("body2", <D as HasG>::g()), ("tmp", <I as HasG>::g()), ("peek", <Q as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Fork", fields: vec![("0", <C as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Vec2", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Expr", fields: vec![("this", <I as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Tokens", fields: vec![("0", <S as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Parse", fields: vec![("0", <I as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <C as HasG>::g()), ("3", <I as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Group", fields: vec![("cursor", <Maybe<Q, Separated<Paren<I>, P>> as HasG>::g()), ("e", <S as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Span", fields: vec![("0", <I as HasG>::g()), ("1", <F as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Ok2", fields: vec![("0", <D as HasG>::g()), ("1", <F as HasG>::g()), ("2", <P as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "None", fields: vec![("0", <P as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Value", fields: vec![("0", <F as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Some", fields: vec![("0", <C as HasG>::g()), ("1", <F as HasG>::g()), ("2", <F as HasG>::g()), ("3", <C as HasG>::g()), ("4", <I as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Punct", fields: vec![("0", <D as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Type", fields: vec![("cause", <Q as HasG>::g()), ("buf", <S as HasG>::g()), ("next", <P as HasG>::g()), ("k", <syn::LitStr as HasG>::g()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it", <P as HasG>::g()), ("begin_token", <D as HasG>::g()), ("ret", <I as HasG>::g()), ("r#enum", <D as HasG>::g()), ("x1", <P as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "T", fields: vec![] }, Gm::Seq { en: "Z9", ctor: "K", fields: vec![("0", <Bracket<Any<I>> as HasG>::g()), ("1", <F as HasG>::g()), ("2", <I as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Many", fields: vec![("0", <D as HasG>::g()), ("1", <syn::LitStr as HasG>::g()), ("2", <D as HasG>::g()), ("3", <F as HasG>::g()), ("4", <S as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Z9", ctor: "Stmt", fields: vec![] }, Gm::Seq { en: "Z9", ctor: "NotEof", fields: vec![("0", <F as HasG>::g()), ("1", <Q as HasG>::g()), ("2", <I as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Z9::Unknown { r#mut: x_0, e: x_1, default: x_2 } => Val::Node("Z9::Unknown".into(), vec![("r#mut".into(), x_0.val()), ("e".into(), x_1.val()), ("default".into(), x_2.val())]), Z9::Any (x_0, x_1, x_2) => Val::Node("Z9::Any".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Z9::Eof (x_0, x_1) => Val::Node("Z9::Eof".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Z9::A (x_0, x_1) => Val::Node("Z9::A".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Z9::Self_ (x_0, x_1, x_2, x_3, x_4, x_5, x_6, x_7, x_8) => Val::Node("Z9::Self_".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val()), ("6".into(), x_6.val()), ("7".into(), x_7.val()), ("8".into(), x_8.val())]), Z9::X_0 (x_0, x_1) => Val::Node("Z9::X_0".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Z9::B { that: x_0, e1: x_1, tmp: x_2, field_index: x_3, variant: x_4, empty: x_5, f: x_6, start: x_7, node: x_8, _1: x_9, n: x_10, x1: x_11, body2: x_12, tail: x_13, none: x_14, iter: x_15, buf: x_16, i: x_17, __self: x_18, begin_token: x_19 } => Val::Node("Z9::B".into(), vec![("that".into(), x_0.val()), ("e1".into(), x_1.val()), ("tmp".into(), x_2.val()), ("field_index".into(), x_3.val()), ("variant".into(), x_4.val()), ("empty".into(), x_5.val()), ("f".into(), x_6.val()), ("start".into(), x_7.val()), ("node".into(), x_8.val()), ("_1".into(), x_9.val()), ("n".into(), x_10.val()), ("x1".into(), x_11.val()), ("body2".into(), x_12.val()), ("tail".into(), x_13.val()), ("none".into(), x_14.val()), ("iter".into(), x_15.val()), ("buf".into(), x_16.val()), ("i".into(), x_17.val()), ("__self".into(), x_18.val()), ("begin_token".into(), x_19.val())]), Z9::Right (x_0, x_1, x_2) => Val::Node("Z9::Right".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Z9::Maybe (x_0) => Val::Node("Z9::Maybe".into(), vec![("0".into(), x_0.val())]), Z9::Été { t: x_0, r: x_1 } => Val::Node("Z9::Été".into(), vec![("t".into(), x_0.val()), ("r".into(), x_1.val())]), Z9::Token  => Val::Node("Z9::Token".into(), vec![]), Z9::Literal { r#use: x_0, len: x_1 } => Val::Node("Z9::Literal".into(), vec![("r#use".into(), x_0.val()), ("len".into(), x_1.val())]), Z9::Default (x_0) => Val::Node("Z9::Default".into(), vec![("0".into(), x_0.val())]), Z9::Variant { last: x_0 } => Val::Node("Z9::Variant".into(), vec![("last".into(), x_0.val())]), Z9::Left { t: x_0, r#mut: x_1, body2: x_2, tmp: x_3, peek: x_4 } => Val::Node("Z9::Left".into(), vec![("t".into(), x_0.val()), ("r#mut".into(), x_1.val()), ("body2".into(), x_2.val()), ("tmp".into(), x_3.val()), ("peek".into(), x_4.val())]), Z9::Fork (x_0) => Val::Node("Z9::Fork".into(), vec![("0".into(), x_0.val())]), Z9::Vec2 (x_0) => Val::Node("Z9::Vec2".into(), vec![("0".into(), x_0.val())]), Z9::Expr { this: x_0 } => Val::Node("Z9::Expr".into(), vec![("this".into(), x_0.val())]), Z9::Tokens (x_0) => Val::Node("Z9::Tokens".into(), vec![("0".into(), x_0.val())]), Z9::Parse (x_0, x_1, x_2, x_3) => Val::Node("Z9::Parse".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val())]), Z9::Group { cursor: x_0, e: x_1 } => Val::Node("Z9::Group".into(), vec![("cursor".into(), x_0.val()), ("e".into(), x_1.val())]), Z9::Span (x_0, x_1) => Val::Node("Z9::Span".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val())]), Z9::Ok2 (x_0, x_1, x_2) => Val::Node("Z9::Ok2".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Z9::None (x_0) => Val::Node("Z9::None".into(), vec![("0".into(), x_0.val())]), Z9::Value (x_0) => Val::Node("Z9::Value".into(), vec![("0".into(), x_0.val())]), Z9::Some (x_0, x_1, x_2, x_3, x_4) => Val::Node("Z9::Some".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val())]), Z9::Punct (x_0) => Val::Node("Z9::Punct".into(), vec![("0".into(), x_0.val())]), Z9::Type { cause: x_0, buf: x_1, next: x_2, k: x_3, field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it: x_4, begin_token: x_5, ret: x_6, r#enum: x_7, x1: x_8 } => Val::Node("Z9::Type".into(), vec![("cause".into(), x_0.val()), ("buf".into(), x_1.val()), ("next".into(), x_2.val()), ("k".into(), x_3.val()), ("field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it".into(), x_4.val()), ("begin_token".into(), x_5.val()), ("ret".into(), x_6.val()), ("r#enum".into(), x_7.val()), ("x1".into(), x_8.val())]), Z9::T {  } => Val::Node("Z9::T".into(), vec![]), Z9::K (x_0, x_1, x_2) => Val::Node("Z9::K".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]), Z9::Many (x_0, x_1, x_2, x_3, x_4, x_5) => Val::Node("Z9::Many".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val()), ("3".into(), x_3.val()), ("4".into(), x_4.val()), ("5".into(), x_5.val())]), Z9::Stmt  => Val::Node("Z9::Stmt".into(), vec![]), Z9::NotEof (x_0, x_1, x_2) => Val::Node("Z9::NotEof".into(), vec![("0".into(), x_0.val()), ("1".into(), x_1.val()), ("2".into(), x_2.val())]) } }
    }
}
pub mod b118 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Result_ {  pub y: b62::Wrapper,  peek: b33::Cause,  pub std: C,  pub quote: Any<I>, #[parsel(recursive = false)] pub(crate) res: Separated<Paren<I>, P>,  v: F,  pub fields: Maybe<Q, Punctuated<D, P>>, #[allow(dead_code, unused)] pub sep: syn::LitStr,  pub(crate) bindings: Separated<E2<I, D>, P>, }
    impl HasG for Result_ {
        fn g() -> Gm { Gm::Seq { en: "", ctor: "Result_", fields: vec![("y", <b62::Wrapper as HasG>::g()), ("peek", <b33::Cause as HasG>::g()), ("std", <C as HasG>::g()), ("quote", <Any<I> as HasG>::g()), ("res", <Separated<Paren<I>, P> as HasG>::g()), ("v", <F as HasG>::g()), ("fields", <Maybe<Q, Punctuated<D, P>> as HasG>::g()), ("sep", <syn::LitStr as HasG>::g()), ("bindings", <Separated<E2<I, D>, P> as HasG>::g())] } }
        fn val(&self) -> Val { Val::Node("Result_".into(), vec![("y".into(), self.y.val()), ("peek".into(), self.peek.val()), ("std".into(), self.std.val()), ("quote".into(), self.quote.val()), ("res".into(), self.res.val()), ("v".into(), self.v.val()), ("fields".into(), self.fields.val()), ("sep".into(), self.sep.val()), ("bindings".into(), self.bindings.val())]) }
    }
}
pub mod b119 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Choice { #[cfg(all())] Punct {  lhs: Box<Maybe<P, Q>>, /// documented
 iter: D, },  Named {  i: D,  r#impl: Brace<D> },  Recursive,  Ident { /// documented
 i: Punctuated<I, C>, #[allow(dead_code)] #[parsel(recursive)] err: P,  first: Brace<Box<D>>, #[cfg(all())] prev: D,  string: Brace<Paren<Q>> } }
    impl HasG for Choice {
        fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Choice", ctor: "Punct", fields: vec![("lhs", <Box<Maybe<P, Q>> as HasG>::g()), ("iter", <D as HasG>::g())] }, Gm::Seq { en: "Choice", ctor: "Named", fields: vec![("i", <D as HasG>::g()), ("r#impl", <Brace<D> as HasG>::g())] }, Gm::Seq { en: "Choice", ctor: "Recursive", fields: vec![] }, Gm::Seq { en: "Choice", ctor: "Ident", fields: vec![("i", <Punctuated<I, C> as HasG>::g()), ("err", <P as HasG>::g()), ("first", <Brace<Box<D>> as HasG>::g()), ("prev", <D as HasG>::g()), ("string", <Brace<Paren<Q>> as HasG>::g())] }]) }
        fn val(&self) -> Val { match self { Choice::Punct { lhs: x_0, iter: x_1 } => Val::Node("Choice::Punct".into(), vec![("lhs".into(), x_0.val()), ("iter".into(), x_1.val())]), Choice::Named { i: x_0, r#impl: x_1 } => Val::Node("Choice::Named".into(), vec![("i".into(), x_0.val()), ("r#impl".into(), x_1.val())]), Choice::Recursive  => Val::Node("Choice::Recursive".into(), vec![]), Choice::Ident { i: x_0, err: x_1, first: x_2, prev: x_3, string: x_4 } => Val::Node("Choice::Ident".into(), vec![("i".into(), x_0.val()), ("err".into(), x_1.val()), ("first".into(), x_2.val()), ("prev".into(), x_3.val()), ("string".into(), x_4.val())]) } }
    }
}
pub mod b120 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Code { V0( C, #[allow(dead_code)] #[parsel(recursive)] C,  C, #[doc(hidden)] C, #[allow(dead_code)] #[parsel(recursive)] C, /// documented
 D), V1( P,  C, #[parsel(recursive)] C,  C, #[parsel(recursive = false)] C, #[cfg(all())] I), V2( C,  P, #[allow(dead_code)] #[parsel(recursive)] C, #[parsel(recursive = true)] C,  C, #[allow(dead_code)] #[parsel(recursive)] D), V3( P,  P,  C,  C,  C, #[parsel(recursive = false)] I), V4(#[cfg(all())] C,  C, #[doc(hidden)] P,  C, /// d
 #[parsel(recursive)] /// e
 C, /// d
 #[parsel(recursive)] /// e
 D), V5( P, #[parsel(recursive = false)] C, #[parsel(recursive = false)] P, /// documented
 C, #[allow(dead_code)] #[parsel(recursive)] C,  I), V6(#[parsel(recursive)] C, #[parsel(recursive)] P, #[parsel(recursive = true)] P, #[parsel(recursive = false)] C,  C, #[parsel(recursive)] D), V7( P,  P,  P,  C,  C, /// d
 #[parsel(recursive)] /// e
 I), V8( C, #[cfg(all())] C,  C, #[cfg(all())] P,  C, #[allow(dead_code)] #[parsel(recursive)] D), V9( P, #[parsel(recursive = false)] C, /// d
 #[parsel(recursive)] /// e
 C, #[allow(dead_code, unused)] P,  C, #[doc(hidden)] I), V10(#[allow(dead_code, unused)] C,  P, #[cfg(all())] C, #[parsel(recursive = true)] P,  C,  D), V11( P,  P, #[parsel(recursive)] C,  P,  C, /// documented
 I), V12(#[parsel(recursive)] C, #[parsel(recursive = true)] C, #[parsel(recursive = true)] P, #[parsel(recursive = true)] P, #[cfg(all())] C,  D), V13(#[parsel(recursive = true)] P, #[parsel(recursive)] C, #[parsel(recursive = false)] P,  P, #[allow(dead_code)] #[parsel(recursive)] C,  I), V14(#[doc(hidden)] C, #[allow(dead_code, unused)] P, #[allow(dead_code, unused)] P,  P,  C,  D), V15( P,  P,  P, #[parsel(recursive)] P,  C,  I), V16(#[parsel(recursive = false)] C, #[allow(dead_code, unused)] C,  C, #[parsel(recursive)] C, #[cfg(all())] P, /// documented
 D), V17( P,  C,  C, #[parsel(recursive = true)] C,  P, /// d
 #[parsel(recursive)] /// e
 I), V18( C,  P,  C,  C, #[allow(dead_code)] #[parsel(recursive)] P,  D), V19(/// d
 #[parsel(recursive)] /// e
 P,  P,  C, #[parsel(recursive)] C, /// d
 #[parsel(recursive)] /// e
 P, /// documented
 I), V20(#[cfg(all())] C, #[cfg(all())] C,  P, #[parsel(recursive)] C, #[parsel(recursive = false)] P, #[cfg(all())] D), V21( P,  C,  P,  C,  P, #[allow(dead_code, unused)] I), V22(#[doc(hidden)] C, #[cfg(all())] P,  P,  C, #[allow(dead_code)] #[parsel(recursive)] P,  D), V23(#[parsel(recursive = false)] P, #[cfg(all())] P, #[allow(dead_code, unused)] P,  C,  P, /// d
 #[parsel(recursive)] /// e
 I), V24( C,  C,  C, #[parsel(recursive)] P, #[allow(dead_code, unused)] P, /// d
 #[parsel(recursive)] /// e
 D), V25( P,  C, #[doc(hidden)] C,  P,  P, /// documented
 I), V26( C,  P,  C,  P,  P,  D), V27( P, #[parsel(recursive = true)] P, #[doc(hidden)] C,  P, #[doc(hidden)] P,  I), V28( C, #[parsel(recursive = false)] C, #[doc(hidden)] P, /// documented
 P,  P,  D), V29(#[doc(hidden)] P,  C, /// d
 #[parsel(recursive)] /// e
 P,  P, /// documented
 P,  I), V30(#[allow(dead_code)] #[parsel(recursive)] C,  P, #[allow(dead_code)] #[parsel(recursive)] P,  P,  P,  D), V31(#[parsel(recursive)] P, /// documented
 P, #[parsel(recursive = false)] P,  P,  P, #[allow(dead_code)] #[parsel(recursive)] I) }
    impl HasG for Code { fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Code", ctor: "V0", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V1", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V2", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V3", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V4", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V5", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V6", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V7", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V8", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V9", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V10", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V11", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V12", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V13", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V14", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V15", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V16", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V17", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V18", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V19", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V20", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V21", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V22", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V23", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V24", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V25", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V26", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V27", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V28", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V29", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V30", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V31", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <I as HasG>::g())] }]) } fn val(&self) -> Val { match self { Code::V0(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V0".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V1(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V1".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V2(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V2".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V3(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V3".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V4(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V4".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V5(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V5".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V6(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V6".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V7(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V7".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V8(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V8".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V9(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V9".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V10(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V10".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V11(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V11".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V12(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V12".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V13(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V13".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V14(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V14".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V15(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V15".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V16(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V16".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V17(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V17".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V18(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V18".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V19(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V19".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V20(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V20".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V21(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V21".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V22(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V22".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V23(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V23".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V24(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V24".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V25(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V25".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V26(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V26".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V27(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V27".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V28(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V28".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V29(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V29".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V30(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V30".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), Code::V31(x0, x1, x2, x3, x4, x5) => Val::Node("Code::V31".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]) } } }
}
pub mod b121 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub enum Code { V0( C,  C,  C, #[parsel(recursive = false)] C,  C,  C,  C, /// d
 #[parsel(recursive)] /// e
 D), V1( P, #[allow(dead_code, unused)] C, #[allow(dead_code, unused)] C,  C,  C,  C,  C, #[doc(hidden)] I), V2(/// documented
 C,  P, /// documented
 C, #[doc(hidden)] C,  C,  C, /// d
 #[parsel(recursive)] /// e
 C,  D), V3(#[doc(hidden)] P,  P,  C, #[parsel(recursive)] C,  C, /// d
 #[parsel(recursive)] /// e
 C, /// documented
 C,  I), V4( C, /// d
 #[parsel(recursive)] /// e
 C,  P,  C,  C,  C,  C,  D), V5( P,  C,  P,  C, #[allow(dead_code)] #[parsel(recursive)] C, #[parsel(recursive = true)] C,  C,  I), V6(#[parsel(recursive = false)] C,  P, /// d
 #[parsel(recursive)] /// e
 P, #[allow(dead_code, unused)] C,  C, #[allow(dead_code, unused)] C,  C,  D), V7(#[parsel(recursive = true)] P, #[allow(dead_code)] #[parsel(recursive)] P, /// documented
 P,  C,  C, #[parsel(recursive = false)] C,  C,  I), V8( C, #[parsel(recursive)] C,  C,  P, #[parsel(recursive)] C, #[parsel(recursive = false)] C,  C,  D), V9(#[doc(hidden)] P,  C, /// d
 #[parsel(recursive)] /// e
 C, #[parsel(recursive = false)] P,  C,  C, #[allow(dead_code)] #[parsel(recursive)] C, #[allow(dead_code)] #[parsel(recursive)] I), V10( C,  P, #[parsel(recursive)] C, #[parsel(recursive)] P,  C,  C, #[cfg(all())] C, #[parsel(recursive)] D), V11( P,  P, #[cfg(all())] C,  P,  C,  C, #[parsel(recursive = false)] C, #[allow(dead_code)] #[parsel(recursive)] I), V12(#[parsel(recursive)] C,  C,  P,  P, #[parsel(recursive)] C, /// documented
 C, #[allow(dead_code, unused)] C,  D), V13( P,  C,  P, #[parsel(recursive)] P, #[parsel(recursive = true)] C, #[cfg(all())] C, #[parsel(recursive = true)] C,  I), V14( C,  P, #[allow(dead_code)] #[parsel(recursive)] P, #[parsel(recursive = true)] P,  C,  C, #[allow(dead_code, unused)] C,  D), V15( P, #[doc(hidden)] P,  P, #[parsel(recursive = true)] P,  C,  C,  C, #[doc(hidden)] I), V16( C, #[parsel(recursive = false)] C,  C, #[allow(dead_code)] #[parsel(recursive)] C,  P,  C,  C,  D), V17(#[parsel(recursive = false)] P,  C, #[allow(dead_code)] #[parsel(recursive)] C,  C, #[parsel(recursive = true)] P,  C, #[doc(hidden)] C, #[allow(dead_code)] #[parsel(recursive)] I), V18( C, /// d
 #[parsel(recursive)] /// e
 P,  C,  C,  P,  C,  C, #[doc(hidden)] D), V19( P, /// d
 #[parsel(recursive)] /// e
 P,  C,  C,  P,  C,  C,  I), V20( C,  C, /// d
 #[parsel(recursive)] /// e
 P, #[parsel(recursive)] C, #[allow(dead_code, unused)] P, #[parsel(recursive)] C,  C,  D), V21( P, #[doc(hidden)] C,  P,  C,  P, #[cfg(all())] C,  C,  I), V22( C, /// documented
 P,  P, /// documented
 C, #[parsel(recursive = true)] P, /// d
 #[parsel(recursive)] /// e
 C,  C,  D), V23(#[allow(dead_code, unused)] P,  P,  P,  C, /// d
 #[parsel(recursive)] /// e
 P, #[allow(dead_code)] #[parsel(recursive)] C, #[doc(hidden)] C, #[allow(dead_code, unused)] I), V24( C,  C, #[cfg(all())] C,  P,  P,  C,  C,  D), V25( P, #[doc(hidden)] C,  C, #[cfg(all())] P, #[parsel(recursive = false)] P,  C,  C,  I), V26( C,  P,  C, /// documented
 P, #[allow(dead_code)] #[parsel(recursive)] P,  C,  C, #[parsel(recursive = false)] D), V27( P,  P,  C, /// d
 #[parsel(recursive)] /// e
 P,  P, #[doc(hidden)] C,  C,  I), V28( C,  C, #[allow(dead_code)] #[parsel(recursive)] P,  P,  P,  C,  C,  D), V29(#[cfg(all())] P, #[doc(hidden)] C, #[parsel(recursive)] P, #[parsel(recursive)] P, /// d
 #[parsel(recursive)] /// e
 P,  C, #[allow(dead_code, unused)] C,  I), V30(/// d
 #[parsel(recursive)] /// e
 C,  P,  P, #[parsel(recursive = false)] P,  P,  C,  C, #[parsel(recursive = false)] D), V31( P, #[parsel(recursive = true)] P,  P,  P,  P, #[allow(dead_code, unused)] C, #[allow(dead_code, unused)] C,  I), V32( C,  C, #[doc(hidden)] C,  C,  C, /// documented
 P,  C,  D), V33( P, #[parsel(recursive = true)] C, #[allow(dead_code)] #[parsel(recursive)] C,  C,  C, /// documented
 P, #[allow(dead_code, unused)] C, #[parsel(recursive)] I), V34( C, #[parsel(recursive)] P,  C, #[allow(dead_code, unused)] C,  C,  P,  C,  D), V35( P,  P, #[allow(dead_code)] #[parsel(recursive)] C,  C, #[parsel(recursive = false)] C,  P,  C,  I), V36( C, #[parsel(recursive = true)] C, #[cfg(all())] P,  C,  C,  P,  C, #[parsel(recursive)] D), V37(#[parsel(recursive = false)] P, #[parsel(recursive)] C, #[allow(dead_code, unused)] P,  C,  C,  P, #[parsel(recursive)] C, #[doc(hidden)] I), V38( C,  P,  P, #[allow(dead_code)] #[parsel(recursive)] C, #[allow(dead_code, unused)] C,  P,  C, #[parsel(recursive)] D), V39(#[allow(dead_code, unused)] P,  P,  P,  C, /// d
 #[parsel(recursive)] /// e
 C,  P, #[doc(hidden)] C, #[parsel(recursive)] I), V40(/// d
 #[parsel(recursive)] /// e
 C,  C, #[parsel(recursive = true)] C, /// documented
 P,  C, /// d
 #[parsel(recursive)] /// e
 P,  C,  D), V41(/// d
 #[parsel(recursive)] /// e
 P, #[parsel(recursive)] C,  C, /// documented
 P,  C,  P, #[doc(hidden)] C,  I), V42(#[parsel(recursive)] C,  P, #[parsel(recursive)] C, #[cfg(all())] P,  C, #[parsel(recursive)] P,  C,  D), V43(#[parsel(recursive = true)] P, #[parsel(recursive)] P, #[allow(dead_code)] #[parsel(recursive)] C,  P,  C,  P, /// d
 #[parsel(recursive)] /// e
 C, #[allow(dead_code, unused)] I), V44(#[parsel(recursive)] C,  C,  P, #[parsel(recursive)] P, #[doc(hidden)] C, #[doc(hidden)] P, #[cfg(all())] C, /// documented
 D), V45( P, #[allow(dead_code, unused)] C, #[parsel(recursive)] P, #[allow(dead_code, unused)] P, #[allow(dead_code, unused)] C,  P, #[doc(hidden)] C,  I), V46( C, #[parsel(recursive)] P, #[parsel(recursive)] P,  P,  C,  P, #[parsel(recursive = true)] C,  D), V47( P,  P,  P, #[parsel(recursive)] P,  C,  P,  C, #[allow(dead_code, unused)] I), V48(/// d
 #[parsel(recursive)] /// e
 C, #[parsel(recursive = false)] C,  C, #[parsel(recursive = true)] C, #[parsel(recursive)] P, #[doc(hidden)] P, #[cfg(all())] C,  D), V49(/// d
 #[parsel(recursive)] /// e
 P, #[allow(dead_code)] #[parsel(recursive)] C, #[parsel(recursive = false)] C, #[cfg(all())] C,  P,  P, #[parsel(recursive)] C,  I), V50( C, #[parsel(recursive = true)] P, #[parsel(recursive)] C, /// d
 #[parsel(recursive)] /// e
 C,  P, #[allow(dead_code, unused)] P,  C,  D), V51( P,  P,  C,  C, /// documented
 P, /// d
 #[parsel(recursive)] /// e
 P,  C, /// documented
 I), V52(#[allow(dead_code)] #[parsel(recursive)] C, /// d
 #[parsel(recursive)] /// e
 C,  P,  C,  P, #[allow(dead_code, unused)] P,  C,  D), V53( P,  C, #[parsel(recursive)] P, #[parsel(recursive = false)] C, #[allow(dead_code, unused)] P, #[cfg(all())] P, #[doc(hidden)] C, #[parsel(recursive)] I), V54( C,  P, /// d
 #[parsel(recursive)] /// e
 P, #[allow(dead_code)] #[parsel(recursive)] C,  P,  P, #[parsel(recursive)] C,  D), V55( P,  P,  P, #[parsel(recursive = true)] C,  P, /// d
 #[parsel(recursive)] /// e
 P, #[cfg(all())] C, #[parsel(recursive = false)] I), V56(#[allow(dead_code)] #[parsel(recursive)] C, #[parsel(recursive)] C,  C,  P, #[parsel(recursive = false)] P,  P, #[parsel(recursive)] C, #[parsel(recursive = true)] D), V57(#[allow(dead_code, unused)] P,  C, /// documented
 C, #[parsel(recursive = true)] P,  P, #[parsel(recursive = false)] P, #[cfg(all())] C,  I), V58( C, #[cfg(all())] P,  C,  P,  P,  P, #[allow(dead_code)] #[parsel(recursive)] C, /// d
 #[parsel(recursive)] /// e
 D), V59( P, /// d
 #[parsel(recursive)] /// e
 P, #[parsel(recursive = true)] C,  P,  P,  P,  C,  I), V60(#[allow(dead_code)] #[parsel(recursive)] C,  C,  P,  P, /// documented
 P,  P,  C,  D), V61( P, #[parsel(recursive)] C, #[cfg(all())] P,  P, #[allow(dead_code)] #[parsel(recursive)] P, #[parsel(recursive)] P, #[doc(hidden)] C, /// documented
 I), V62( C,  P, #[allow(dead_code, unused)] P,  P,  P,  P,  C, /// d
 #[parsel(recursive)] /// e
 D), V63( P, #[parsel(recursive)] P,  P,  P,  P,  P,  C,  I), V64(/// documented
 C, #[allow(dead_code, unused)] C, #[allow(dead_code, unused)] C, /// documented
 C,  C, /// d
 #[parsel(recursive)] /// e
 C,  P, #[parsel(recursive)] D), V65(#[parsel(recursive)] P, #[allow(dead_code, unused)] C,  C, /// documented
 C, #[doc(hidden)] C,  C,  P,  I), V66( C, #[parsel(recursive = true)] P,  C,  C,  C,  C,  P, #[doc(hidden)] D), V67(#[doc(hidden)] P,  P,  C,  C,  C,  C,  P, #[allow(dead_code)] #[parsel(recursive)] I), V68( C, #[parsel(recursive)] C,  P, #[cfg(all())] C,  C, #[allow(dead_code)] #[parsel(recursive)] C, /// d
 #[parsel(recursive)] /// e
 P, /// documented
 D), V69(#[cfg(all())] P, #[cfg(all())] C,  P,  C, #[parsel(recursive = true)] C,  C,  P,  I), V70( C,  P, #[cfg(all())] P,  C,  C, #[cfg(all())] C, /// d
 #[parsel(recursive)] /// e
 P, #[parsel(recursive)] D), V71(/// d
 #[parsel(recursive)] /// e
 P,  P, #[allow(dead_code)] #[parsel(recursive)] P,  C,  C,  C, #[cfg(all())] P, /// d
 #[parsel(recursive)] /// e
 I), V72(#[parsel(recursive = true)] C,  C, /// d
 #[parsel(recursive)] /// e
 C, #[allow(dead_code, unused)] P,  C,  C,  P, #[parsel(recursive)] D), V73( P, /// documented
 C,  C,  P,  C, #[parsel(recursive = true)] C,  P, #[doc(hidden)] I), V74( C,  P, #[parsel(recursive)] C,  P,  C,  C, #[parsel(recursive = false)] P,  D), V75(#[parsel(recursive = false)] P, #[cfg(all())] P, #[doc(hidden)] C,  P, /// documented
 C,  C, /// d
 #[parsel(recursive)] /// e
 P,  I), V76(#[parsel(recursive = true)] C,  C,  P, #[parsel(recursive)] P,  C, #[parsel(recursive)] C,  P,  D), V77( P,  C, #[cfg(all())] P,  P,  C,  C, /// d
 #[parsel(recursive)] /// e
 P,  I), V78( C,  P,  P, #[parsel(recursive)] P,  C, #[allow(dead_code, unused)] C,  P,  D), V79( P,  P,  P, #[parsel(recursive)] P, /// d
 #[parsel(recursive)] /// e
 C,  C, #[doc(hidden)] P,  I), V80(#[parsel(recursive = true)] C,  C,  C,  C, #[allow(dead_code)] #[parsel(recursive)] P,  C, /// d
 #[parsel(recursive)] /// e
 P, #[allow(dead_code, unused)] D), V81(#[doc(hidden)] P,  C, #[allow(dead_code, unused)] C,  C, #[parsel(recursive)] P, #[parsel(recursive)] C,  P, #[parsel(recursive)] I), V82( C,  P,  C, /// d
 #[parsel(recursive)] /// e
 C, #[allow(dead_code)] #[parsel(recursive)] P, /// documented
 C,  P,  D), V83(/// d
 #[parsel(recursive)] /// e
 P,  P, #[allow(dead_code)] #[parsel(recursive)] C,  C,  P, #[doc(hidden)] C,  P,  I), V84( C, #[parsel(recursive = false)] C, #[cfg(all())] P, #[parsel(recursive = true)] C, #[parsel(recursive)] P,  C,  P,  D), V85( P, #[parsel(recursive)] C,  P,  C,  P, #[doc(hidden)] C,  P,  I), V86( C, #[allow(dead_code, unused)] P, #[allow(dead_code, unused)] P, #[parsel(recursive)] C,  P, #[parsel(recursive)] C, #[parsel(recursive = true)] P, #[parsel(recursive)] D), V87( P,  P, #[parsel(recursive = false)] P, #[parsel(recursive)] C, #[parsel(recursive = false)] P,  C,  P, /// documented
 I), V88( C,  C, /// documented
 C,  P, #[doc(hidden)] P,  C,  P, #[parsel(recursive)] D), V89( P,  C, #[cfg(all())] C,  P, #[allow(dead_code)] #[parsel(recursive)] P,  C,  P,  I), V90( C, #[allow(dead_code, unused)] P,  C,  P,  P,  C,  P,  D), V91(#[parsel(recursive)] P,  P, #[doc(hidden)] C,  P, #[allow(dead_code, unused)] P,  C, #[parsel(recursive = true)] P,  I), V92( C,  C, #[parsel(recursive)] P,  P,  P,  C,  P, #[parsel(recursive = true)] D), V93(#[parsel(recursive = true)] P, /// documented
 C, /// documented
 P, #[parsel(recursive = true)] P,  P, #[allow(dead_code, unused)] C,  P,  I), V94(#[parsel(recursive)] C,  P,  P,  P, #[parsel(recursive)] P,  C, #[allow(dead_code)] #[parsel(recursive)] P,  D), V95( P, /// documented
 P,  P,  P, #[doc(hidden)] P,  C,  P,  I), V96( C,  C, #[parsel(recursive)] C, #[parsel(recursive)] C, #[cfg(all())] C,  P,  P,  D), V97( P, /// d
 #[parsel(recursive)] /// e
 C, /// d
 #[parsel(recursive)] /// e
 C, #[parsel(recursive)] C, #[parsel(recursive = false)] C, #[cfg(all())] P, #[parsel(recursive = true)] P,  I), V98(#[parsel(recursive = true)] C, #[cfg(all())] P, #[parsel(recursive)] C,  C, /// documented
 C, #[parsel(recursive = true)] P,  P, #[allow(dead_code, unused)] D), V99(#[parsel(recursive = true)] P, #[allow(dead_code)] #[parsel(recursive)] P, #[doc(hidden)] C, #[cfg(all())] C,  C,  P,  P, /// d
 #[parsel(recursive)] /// e
 I), V100(#[cfg(all())] C,  C,  P, #[parsel(recursive)] C,  C, #[allow(dead_code, unused)] P,  P, #[parsel(recursive = false)] D), V101( P, /// d
 #[parsel(recursive)] /// e
 C, #[parsel(recursive)] P, #[doc(hidden)] C,  C,  P,  P,  I), V102( C, #[parsel(recursive = true)] P,  P,  C, #[parsel(recursive = false)] C,  P, #[cfg(all())] P,  D), V103(#[parsel(recursive)] P,  P,  P,  C, /// documented
 C,  P, #[parsel(recursive)] P,  I), V104( C, #[parsel(recursive)] C,  C, /// documented
 P,  C,  P,  P, /// documented
 D), V105( P,  C,  C,  P,  C, #[parsel(recursive)] P,  P, #[cfg(all())] I), V106( C, #[cfg(all())] P,  C, #[parsel(recursive = false)] P,  C,  P,  P,  D), V107( P, #[parsel(recursive)] P,  C, #[parsel(recursive)] P,  C, #[parsel(recursive)] P,  P, #[parsel(recursive = true)] I), V108(#[doc(hidden)] C,  C, #[doc(hidden)] P, #[parsel(recursive = true)] P,  C, #[parsel(recursive)] P,  P, #[doc(hidden)] D), V109( P,  C, #[parsel(recursive)] P,  P, #[doc(hidden)] C, #[cfg(all())] P,  P, #[parsel(recursive)] I), V110(#[parsel(recursive = false)] C,  P, #[allow(dead_code, unused)] P,  P,  C,  P, #[cfg(all())] P,  D), V111( P, #[doc(hidden)] P, /// documented
 P,  P,  C, #[doc(hidden)] P,  P,  I), V112( C,  C,  C, #[parsel(recursive)] C, #[allow(dead_code, unused)] P,  P,  P,  D), V113(/// documented
 P,  C,  C,  C,  P, #[allow(dead_code)] #[parsel(recursive)] P, /// documented
 P,  I), V114(#[allow(dead_code, unused)] C, #[parsel(recursive = false)] P, #[parsel(recursive)] C, #[allow(dead_code)] #[parsel(recursive)] C, #[doc(hidden)] P, #[parsel(recursive)] P,  P,  D), V115(#[doc(hidden)] P, #[parsel(recursive = true)] P,  C, #[allow(dead_code, unused)] C,  P, /// d
 #[parsel(recursive)] /// e
 P, #[cfg(all())] P,  I), V116(#[parsel(recursive = false)] C, #[allow(dead_code, unused)] C, /// d
 #[parsel(recursive)] /// e
 P, #[parsel(recursive)] C,  P,  P, #[parsel(recursive)] P,  D), V117(#[parsel(recursive = false)] P,  C,  P, #[parsel(recursive)] C, #[cfg(all())] P,  P,  P, #[parsel(recursive)] I), V118(#[parsel(recursive)] C, /// documented
 P,  P,  C,  P, /// d
 #[parsel(recursive)] /// e
 P,  P,  D), V119(#[allow(dead_code, unused)] P, #[cfg(all())] P,  P,  C, #[parsel(recursive)] P,  P, #[allow(dead_code, unused)] P,  I), V120( C, #[allow(dead_code)] #[parsel(recursive)] C,  C,  P,  P,  P,  P,  D), V121(#[cfg(all())] P,  C, #[parsel(recursive = true)] C,  P,  P,  P, #[cfg(all())] P, #[parsel(recursive)] I), V122( C,  P,  C,  P, #[parsel(recursive)] P, #[parsel(recursive = false)] P,  P,  D), V123( P,  P,  C, /// documented
 P,  P,  P, #[doc(hidden)] P,  I), V124( C,  C,  P,  P,  P,  P,  P,  D), V125( P,  C, #[doc(hidden)] P, #[cfg(all())] P, #[parsel(recursive)] P, #[parsel(recursive = true)] P,  P,  I), V126( C, #[parsel(recursive)] P,  P,  P,  P,  P, #[parsel(recursive = true)] P,  D), V127( P, #[allow(dead_code)] #[parsel(recursive)] P,  P,  P, #[parsel(recursive = false)] P,  P, #[allow(dead_code, unused)] P,  I) }
    impl HasG for Code { fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "Code", ctor: "V0", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V1", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V2", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V3", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V4", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V5", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V6", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V7", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V8", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V9", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V10", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V11", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V12", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V13", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V14", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V15", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V16", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V17", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V18", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V19", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V20", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V21", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V22", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V23", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V24", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V25", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V26", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V27", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V28", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V29", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V30", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V31", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V32", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V33", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V34", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V35", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V36", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V37", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V38", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V39", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V40", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V41", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V42", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V43", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V44", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V45", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V46", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V47", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V48", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V49", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V50", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V51", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V52", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V53", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V54", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V55", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V56", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V57", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V58", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V59", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V60", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V61", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V62", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V63", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <C as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V64", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V65", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V66", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V67", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V68", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V69", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V70", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V71", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V72", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V73", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V74", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V75", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V76", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V77", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V78", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V79", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V80", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V81", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V82", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V83", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V84", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V85", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V86", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V87", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V88", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V89", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V90", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V91", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V92", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V93", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V94", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V95", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <C as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V96", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V97", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V98", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V99", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V100", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V101", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V102", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V103", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V104", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V105", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V106", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V107", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V108", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V109", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V110", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V111", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <C as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V112", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V113", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V114", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V115", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V116", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V117", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V118", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V119", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <C as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V120", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V121", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V122", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V123", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <C as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V124", fields: vec![("0", <C as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V125", fields: vec![("0", <P as HasG>::g()), ("1", <C as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V126", fields: vec![("0", <C as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <D as HasG>::g())] }, Gm::Seq { en: "Code", ctor: "V127", fields: vec![("0", <P as HasG>::g()), ("1", <P as HasG>::g()), ("2", <P as HasG>::g()), ("3", <P as HasG>::g()), ("4", <P as HasG>::g()), ("5", <P as HasG>::g()), ("6", <P as HasG>::g()), ("7", <I as HasG>::g())] }]) } fn val(&self) -> Val { match self { Code::V0(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V0".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V1(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V1".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V2(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V2".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V3(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V3".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V4(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V4".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V5(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V5".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V6(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V6".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V7(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V7".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V8(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V8".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V9(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V9".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V10(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V10".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V11(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V11".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V12(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V12".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V13(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V13".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V14(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V14".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V15(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V15".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V16(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V16".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V17(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V17".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V18(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V18".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V19(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V19".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V20(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V20".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V21(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V21".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V22(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V22".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V23(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V23".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V24(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V24".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V25(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V25".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V26(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V26".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V27(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V27".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V28(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V28".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V29(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V29".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V30(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V30".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V31(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V31".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V32(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V32".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V33(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V33".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V34(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V34".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V35(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V35".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V36(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V36".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V37(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V37".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V38(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V38".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V39(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V39".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V40(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V40".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V41(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V41".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V42(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V42".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V43(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V43".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V44(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V44".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V45(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V45".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V46(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V46".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V47(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V47".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V48(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V48".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V49(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V49".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V50(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V50".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V51(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V51".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V52(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V52".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V53(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V53".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V54(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V54".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V55(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V55".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V56(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V56".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V57(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V57".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V58(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V58".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V59(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V59".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V60(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V60".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V61(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V61".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V62(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V62".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V63(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V63".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V64(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V64".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V65(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V65".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V66(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V66".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V67(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V67".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V68(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V68".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V69(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V69".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V70(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V70".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V71(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V71".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V72(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V72".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V73(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V73".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V74(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V74".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V75(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V75".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V76(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V76".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V77(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V77".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V78(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V78".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V79(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V79".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V80(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V80".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V81(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V81".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V82(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V82".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V83(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V83".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V84(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V84".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V85(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V85".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V86(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V86".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V87(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V87".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V88(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V88".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V89(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V89".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V90(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V90".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V91(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V91".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V92(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V92".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V93(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V93".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V94(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V94".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V95(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V95".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V96(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V96".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V97(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V97".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V98(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V98".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V99(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V99".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V100(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V100".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V101(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V101".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V102(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V102".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V103(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V103".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V104(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V104".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V105(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V105".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V106(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V106".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V107(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V107".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V108(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V108".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V109(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V109".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V110(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V110".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V111(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V111".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V112(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V112".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V113(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V113".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V114(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V114".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V115(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V115".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V116(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V116".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V117(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V117".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V118(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V118".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V119(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V119".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V120(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V120".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V121(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V121".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V122(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V122".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V123(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V123".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V124(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V124".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V125(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V125".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V126(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V126".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), Code::V127(x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("Code::V127".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]) } } }
}
pub mod b122 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Wide { #[parsel(recursive)] pub(crate) f0: I, #[allow(dead_code, unused)] pub(super) f1: D,  pub f2: D, #[allow(dead_code, unused)] pub(crate) f3: D,  pub(crate) f4: D,  pub f5: I, #[parsel(recursive = false)] pub f6: D, #[cfg(all())] pub f7: D,  f8: D,  pub(crate) f9: D, #[parsel(recursive)] pub f10: I,  pub f11: D, #[cfg(all())] pub(crate) f12: D, #[parsel(recursive = false)] f13: D,  pub(super) f14: D, /// documented
 pub f15: I, #[parsel(recursive)] pub f16: D, #[parsel(recursive)] pub f17: D, #[doc(hidden)] pub(super) f18: D,  pub f19: D,  f20: I, #[parsel(recursive = true)] pub f21: D, #[cfg(all())] pub(crate) f22: D, #[parsel(recursive = false)] pub(crate) f23: D,  pub f24: D,  pub(super) f25: I,  pub(super) f26: D,  pub f27: D, #[cfg(all())] pub f28: D, #[parsel(recursive = false)] pub(crate) f29: D,  f30: I,  pub(super) f31: D, #[parsel(recursive = false)] pub(super) f32: D,  pub f33: D,  f34: D,  pub f35: I,  pub f36: D, /// documented
 pub(crate) f37: D,  pub f38: D,  pub(super) f39: D, #[doc(hidden)] pub f40: I,  pub(crate) f41: D,  pub f42: D, #[parsel(recursive)] pub(crate) f43: D,  pub(super) f44: D,  pub f45: I, #[cfg(all())] f46: D, /// d
 #[parsel(recursive)] /// e
 f47: D, /// d
 #[parsel(recursive)] /// e
 f48: D, #[allow(dead_code)] #[parsel(recursive)] pub f49: D, #[parsel(recursive)] pub f50: I, /// documented
 pub(crate) f51: D,  pub f52: D, #[parsel(recursive = false)] f53: D,  pub(super) f54: D,  pub(super) f55: I,  f56: D,  pub(crate) f57: D,  pub f58: D,  pub(super) f59: D, #[doc(hidden)] pub(crate) f60: I,  pub(super) f61: D, /// documented
 pub(crate) f62: D,  f63: D,  pub(crate) f64: D, #[allow(dead_code)] #[parsel(recursive)] pub f65: I,  pub f66: D,  pub f67: D, /// documented
 pub f68: D,  pub f69: D, }
    impl HasG for Wide { fn g() -> Gm { Gm::Seq { en: "", ctor: "Wide", fields: vec![("f0", <I as HasG>::g()), ("f1", <D as HasG>::g()), ("f2", <D as HasG>::g()), ("f3", <D as HasG>::g()), ("f4", <D as HasG>::g()), ("f5", <I as HasG>::g()), ("f6", <D as HasG>::g()), ("f7", <D as HasG>::g()), ("f8", <D as HasG>::g()), ("f9", <D as HasG>::g()), ("f10", <I as HasG>::g()), ("f11", <D as HasG>::g()), ("f12", <D as HasG>::g()), ("f13", <D as HasG>::g()), ("f14", <D as HasG>::g()), ("f15", <I as HasG>::g()), ("f16", <D as HasG>::g()), ("f17", <D as HasG>::g()), ("f18", <D as HasG>::g()), ("f19", <D as HasG>::g()), ("f20", <I as HasG>::g()), ("f21", <D as HasG>::g()), ("f22", <D as HasG>::g()), ("f23", <D as HasG>::g()), ("f24", <D as HasG>::g()), ("f25", <I as HasG>::g()), ("f26", <D as HasG>::g()), ("f27", <D as HasG>::g()), ("f28", <D as HasG>::g()), ("f29", <D as HasG>::g()), ("f30", <I as HasG>::g()), ("f31", <D as HasG>::g()), ("f32", <D as HasG>::g()), ("f33", <D as HasG>::g()), ("f34", <D as HasG>::g()), ("f35", <I as HasG>::g()), ("f36", <D as HasG>::g()), ("f37", <D as HasG>::g()), ("f38", <D as HasG>::g()), ("f39", <D as HasG>::g()), ("f40", <I as HasG>::g()), ("f41", <D as HasG>::g()), ("f42", <D as HasG>::g()), ("f43", <D as HasG>::g()), ("f44", <D as HasG>::g()), ("f45", <I as HasG>::g()), ("f46", <D as HasG>::g()), ("f47", <D as HasG>::g()), ("f48", <D as HasG>::g()), ("f49", <D as HasG>::g()), ("f50", <I as HasG>::g()), ("f51", <D as HasG>::g()), ("f52", <D as HasG>::g()), ("f53", <D as HasG>::g()), ("f54", <D as HasG>::g()), ("f55", <I as HasG>::g()), ("f56", <D as HasG>::g()), ("f57", <D as HasG>::g()), ("f58", <D as HasG>::g()), ("f59", <D as HasG>::g()), ("f60", <I as HasG>::g()), ("f61", <D as HasG>::g()), ("f62", <D as HasG>::g()), ("f63", <D as HasG>::g()), ("f64", <D as HasG>::g()), ("f65", <I as HasG>::g()), ("f66", <D as HasG>::g()), ("f67", <D as HasG>::g()), ("f68", <D as HasG>::g()), ("f69", <D as HasG>::g())] } } fn val(&self) -> Val { Val::Node("Wide".into(), vec![("f0".into(), self.f0.val()), ("f1".into(), self.f1.val()), ("f2".into(), self.f2.val()), ("f3".into(), self.f3.val()), ("f4".into(), self.f4.val()), ("f5".into(), self.f5.val()), ("f6".into(), self.f6.val()), ("f7".into(), self.f7.val()), ("f8".into(), self.f8.val()), ("f9".into(), self.f9.val()), ("f10".into(), self.f10.val()), ("f11".into(), self.f11.val()), ("f12".into(), self.f12.val()), ("f13".into(), self.f13.val()), ("f14".into(), self.f14.val()), ("f15".into(), self.f15.val()), ("f16".into(), self.f16.val()), ("f17".into(), self.f17.val()), ("f18".into(), self.f18.val()), ("f19".into(), self.f19.val()), ("f20".into(), self.f20.val()), ("f21".into(), self.f21.val()), ("f22".into(), self.f22.val()), ("f23".into(), self.f23.val()), ("f24".into(), self.f24.val()), ("f25".into(), self.f25.val()), ("f26".into(), self.f26.val()), ("f27".into(), self.f27.val()), ("f28".into(), self.f28.val()), ("f29".into(), self.f29.val()), ("f30".into(), self.f30.val()), ("f31".into(), self.f31.val()), ("f32".into(), self.f32.val()), ("f33".into(), self.f33.val()), ("f34".into(), self.f34.val()), ("f35".into(), self.f35.val()), ("f36".into(), self.f36.val()), ("f37".into(), self.f37.val()), ("f38".into(), self.f38.val()), ("f39".into(), self.f39.val()), ("f40".into(), self.f40.val()), ("f41".into(), self.f41.val()), ("f42".into(), self.f42.val()), ("f43".into(), self.f43.val()), ("f44".into(), self.f44.val()), ("f45".into(), self.f45.val()), ("f46".into(), self.f46.val()), ("f47".into(), self.f47.val()), ("f48".into(), self.f48.val()), ("f49".into(), self.f49.val()), ("f50".into(), self.f50.val()), ("f51".into(), self.f51.val()), ("f52".into(), self.f52.val()), ("f53".into(), self.f53.val()), ("f54".into(), self.f54.val()), ("f55".into(), self.f55.val()), ("f56".into(), self.f56.val()), ("f57".into(), self.f57.val()), ("f58".into(), self.f58.val()), ("f59".into(), self.f59.val()), ("f60".into(), self.f60.val()), ("f61".into(), self.f61.val()), ("f62".into(), self.f62.val()), ("f63".into(), self.f63.val()), ("f64".into(), self.f64.val()), ("f65".into(), self.f65.val()), ("f66".into(), self.f66.val()), ("f67".into(), self.f67.val()), ("f68".into(), self.f68.val()), ("f69".into(), self.f69.val())]) } }
}
pub mod b123 {
    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};
    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]
    pub struct Wide(/// d
 #[parsel(recursive)] /// e
 pub(super) I,  pub(crate) D,  D,  pub(super) D, #[allow(dead_code, unused)] pub D,  pub I, #[parsel(recursive = false)] pub(crate) D, /// d
 #[parsel(recursive)] /// e
 D, #[allow(dead_code)] #[parsel(recursive)] D, #[parsel(recursive)] pub(super) D,  I, #[parsel(recursive = true)] pub D, #[parsel(recursive)] pub(super) D, /// documented
 pub D,  D,  pub(super) I, #[allow(dead_code)] #[parsel(recursive)] pub D,  pub D,  pub(crate) D, #[doc(hidden)] D,  pub(crate) I, #[allow(dead_code)] #[parsel(recursive)] pub(super) D, #[cfg(all())] D, #[parsel(recursive)] pub D, #[parsel(recursive)] D,  pub(super) I,  pub(crate) D,  pub D,  pub D, #[parsel(recursive = true)] pub(crate) D, /// documented
 pub(super) I,  pub D, #[parsel(recursive)] pub(super) D,  D, #[parsel(recursive)] pub D,  pub(crate) I, #[allow(dead_code, unused)] D,  pub D,  pub(crate) D, #[doc(hidden)] pub(crate) D,  pub(super) I, #[parsel(recursive)] pub(crate) D,  pub(crate) D, #[parsel(recursive)] D, #[parsel(recursive)] pub(super) D, /// d
 #[parsel(recursive)] /// e
 pub I,  D,  D,  D,  pub(crate) D, /// d
 #[parsel(recursive)] /// e
 pub(crate) I,  pub D,  pub D, #[allow(dead_code, unused)] D,  pub(super) D,  pub(crate) I, #[parsel(recursive)] pub D,  pub D, #[parsel(recursive)] pub(super) D, #[parsel(recursive)] pub(crate) D, #[parsel(recursive)] pub(super) I,  pub(crate) D,  pub D,  D,  pub(crate) D, #[allow(dead_code, unused)] pub I,  pub D, #[parsel(recursive)] pub(super) D, /// documented
 pub(super) D, #[doc(hidden)] pub(super) D);
    impl HasG for Wide { fn g() -> Gm { Gm::Seq { en: "", ctor: "Wide", fields: vec![("0", <I as HasG>::g()), ("1", <D as HasG>::g()), ("2", <D as HasG>::g()), ("3", <D as HasG>::g()), ("4", <D as HasG>::g()), ("5", <I as HasG>::g()), ("6", <D as HasG>::g()), ("7", <D as HasG>::g()), ("8", <D as HasG>::g()), ("9", <D as HasG>::g()), ("10", <I as HasG>::g()), ("11", <D as HasG>::g()), ("12", <D as HasG>::g()), ("13", <D as HasG>::g()), ("14", <D as HasG>::g()), ("15", <I as HasG>::g()), ("16", <D as HasG>::g()), ("17", <D as HasG>::g()), ("18", <D as HasG>::g()), ("19", <D as HasG>::g()), ("20", <I as HasG>::g()), ("21", <D as HasG>::g()), ("22", <D as HasG>::g()), ("23", <D as HasG>::g()), ("24", <D as HasG>::g()), ("25", <I as HasG>::g()), ("26", <D as HasG>::g()), ("27", <D as HasG>::g()), ("28", <D as HasG>::g()), ("29", <D as HasG>::g()), ("30", <I as HasG>::g()), ("31", <D as HasG>::g()), ("32", <D as HasG>::g()), ("33", <D as HasG>::g()), ("34", <D as HasG>::g()), ("35", <I as HasG>::g()), ("36", <D as HasG>::g()), ("37", <D as HasG>::g()), ("38", <D as HasG>::g()), ("39", <D as HasG>::g()), ("40", <I as HasG>::g()), ("41", <D as HasG>::g()), ("42", <D as HasG>::g()), ("43", <D as HasG>::g()), ("44", <D as HasG>::g()), ("45", <I as HasG>::g()), ("46", <D as HasG>::g()), ("47", <D as HasG>::g()), ("48", <D as HasG>::g()), ("49", <D as HasG>::g()), ("50", <I as HasG>::g()), ("51", <D as HasG>::g()), ("52", <D as HasG>::g()), ("53", <D as HasG>::g()), ("54", <D as HasG>::g()), ("55", <I as HasG>::g()), ("56", <D as HasG>::g()), ("57", <D as HasG>::g()), ("58", <D as HasG>::g()), ("59", <D as HasG>::g()), ("60", <I as HasG>::g()), ("61", <D as HasG>::g()), ("62", <D as HasG>::g()), ("63", <D as HasG>::g()), ("64", <D as HasG>::g()), ("65", <I as HasG>::g()), ("66", <D as HasG>::g()), ("67", <D as HasG>::g()), ("68", <D as HasG>::g()), ("69", <D as HasG>::g())] } } fn val(&self) -> Val { Val::Node("Wide".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val()), ("9".into(), self.9.val()), ("10".into(), self.10.val()), ("11".into(), self.11.val()), ("12".into(), self.12.val()), ("13".into(), self.13.val()), ("14".into(), self.14.val()), ("15".into(), self.15.val()), ("16".into(), self.16.val()), ("17".into(), self.17.val()), ("18".into(), self.18.val()), ("19".into(), self.19.val()), ("20".into(), self.20.val()), ("21".into(), self.21.val()), ("22".into(), self.22.val()), ("23".into(), self.23.val()), ("24".into(), self.24.val()), ("25".into(), self.25.val()), ("26".into(), self.26.val()), ("27".into(), self.27.val()), ("28".into(), self.28.val()), ("29".into(), self.29.val()), ("30".into(), self.30.val()), ("31".into(), self.31.val()), ("32".into(), self.32.val()), ("33".into(), self.33.val()), ("34".into(), self.34.val()), ("35".into(), self.35.val()), ("36".into(), self.36.val()), ("37".into(), self.37.val()), ("38".into(), self.38.val()), ("39".into(), self.39.val()), ("40".into(), self.40.val()), ("41".into(), self.41.val()), ("42".into(), self.42.val()), ("43".into(), self.43.val()), ("44".into(), self.44.val()), ("45".into(), self.45.val()), ("46".into(), self.46.val()), ("47".into(), self.47.val()), ("48".into(), self.48.val()), ("49".into(), self.49.val()), ("50".into(), self.50.val()), ("51".into(), self.51.val()), ("52".into(), self.52.val()), ("53".into(), self.53.val()), ("54".into(), self.54.val()), ("55".into(), self.55.val()), ("56".into(), self.56.val()), ("57".into(), self.57.val()), ("58".into(), self.58.val()), ("59".into(), self.59.val()), ("60".into(), self.60.val()), ("61".into(), self.61.val()), ("62".into(), self.62.val()), ("63".into(), self.63.val()), ("64".into(), self.64.val()), ("65".into(), self.65.val()), ("66".into(), self.66.val()), ("67".into(), self.67.val()), ("68".into(), self.68.val()), ("69".into(), self.69.val())]) } }
}
pub use crate::types::{C, D, F, I, P, Q, S};
pub use parsel::ast::{Any, Brace, Bracket, Either, Empty, LeftAssoc, Maybe, Paren, Punctuated, RightAssoc, Separated};
pub use parsel::syn;
pub use shapes::{E2, E2Prefix, SN2, ST1, ST2};
#[macro_export]
macro_rules! bulk_types { ($m:ident) => { $m! { "C01 C04 C05" yes: b0::Q_, b2::Node, b4::Lower_case, b6::Abc, b8::Cursor2, b10::Cause, b12::Node, b14::Größe, b16::Entry, b18::Parser2, b20::Z9, b22::Formatter2, b24::Fork, b26::X, b28::Expr, b30::X, b32::Parser2, b34::Q_, b36::Chain_, b38::Production, b40::W, b42::Tree, b44::Leaf, b46::Parser2, b48::Variant, b50::Value, b52::Y, b54::U, b56::Z9, b58::Abc, b60::T, b62::Wrapper, b64::Größe, b66::Abc, b68::W, b70::Node, b72::Input, b74::Tree, b76::Chain_, b78::Y, b80::Wrapper, b82::Tree, b84::Expr, b86::Abc, b88::Input, b90::Value, b92::Leaf, b94::T, b96::Sequence, b98::Choice, b100::Expr, b102::W, b104::Variant, b106::Cause, b108::Item, b110::Item, b112::Choice, b114::Wrapper, b116::Error_, b118::Result_, b122::Wide, b123::Wide; "C02 C03 C04 C05" yes: b1::Abc, b3::Choice, b5::T, b7::Item, b9::Error_, b11::Entry, b13::Größe, b15::Value, b17::Sequence, b19::Leaf, b21::Formatter2, b23::Stream, b25::Lower_case, b27::Tokens, b29::T, b31::Wrapper, b33::Cause, b35::U, b37::Abc, b39::Cursor2, b41::Sequence, b43::Value, b45::Fork, b47::Stream, b49::Cause, b51::Lower_case, b53::Cursor2, b55::Entry, b57::Y, b59::Error_, b61::Choice, b63::Tree, b65::Item, b67::Lower_case, b69::X, b71::Stream, b73::Production, b75::Expr, b77::Entry, b79::Formatter2, b81::Tree, b83::Error_, b85::T, b87::Fork, b89::Entry, b91::Chain_, b93::Leaf, b95::Ast, b97::Tokens, b99::Entry, b101::Abc, b103::Entry, b105::Node, b107::Chain_, b109::Variant, b111::Ast, b113::Q_, b115::Tokens, b117::Z9, b119::Choice, b120::Code, b121::Code; } } }

//! Generated by tools/gen_shapes.py. Types on which the derives are validated.
#![allow(dead_code, unused_imports, non_camel_case_types)]
use ::parsel::{Display, FromStr, Parse, ToTokens};
use ::parsel::ast::{Any, Brace, Bracket, Either, LeftAssoc, Maybe, Paren, RightAssoc, Separated};

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SN0  {  }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct ST0();

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SN1<A>  {  pub f0: A, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct ST1<A>( pub A);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SN2<A, B>  {  pub f0: A,  pub f1: B, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct ST2<A, B>( pub A,  pub B);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SN3<A, B, C>  {  pub f0: A,  pub f1: B,  pub f2: C, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct ST3<A, B, C>( pub A,  pub B,  pub C);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SN5<A, B, C, D, E>  {  pub f0: A,  pub f1: B,  pub f2: C,  pub f3: D,  pub f4: E, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct ST5<A, B, C, D, E>( pub A,  pub B,  pub C,  pub D,  pub E);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SN8<A, B, C, D, E, F, G, H>  {  pub f0: A,  pub f1: B,  pub f2: C,  pub f3: D,  pub f4: E,  pub f5: F,  pub f6: G,  pub f7: H, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct ST8<A, B, C, D, E, F, G, H>( pub A,  pub B,  pub C,  pub D,  pub E,  pub F,  pub G,  pub H);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SN12<A, B, C, D, E, F, G, H, I, J, K, L>  {  pub f0: A,  pub f1: B,  pub f2: C,  pub f3: D,  pub f4: E,  pub f5: F,  pub f6: G,  pub f7: H,  pub f8: I,  pub f9: J,  pub f10: K,  pub f11: L, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct ST12<A, B, C, D, E, F, G, H, I, J, K, L>( pub A,  pub B,  pub C,  pub D,  pub E,  pub F,  pub G,  pub H,  pub I,  pub J,  pub K,  pub L);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SU;

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SK<A, B, C, D, E, F, G, H, I, J, K, L>  {  pub tokens: A,  pub input: B,  pub error: C,  pub result: D,  pub cause: E,  pub fork: F,  pub ast_node: G,  pub err: H,  pub parsel_tokens: I,  pub value: J,  pub message: K,  pub stream: L, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SRaw<A, B, C>  {  pub r#type: A,  pub r#match: B,  pub r#fn: C, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SRev<A, B, C, D>  {  pub d: A,  pub c: B,  pub b: C,  pub a: D, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SPerm<A, B, C, D>  {  pub a: C,  pub b: A,  pub c: D,  pub d: B, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SRep<A, B>  {  pub first: A,  pub second: B,  pub third: A,  pub fourth: A, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct STRep<A, B>( pub A,  pub A,  pub B,  pub A);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SAttr<A, B>  { #[doc = "x"] pub a: A, #[allow(dead_code)] pub b: B, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SRecAttr<A: ::parsel::Parse + ::parsel::ToTokens, B>  { #[parsel(recursive)] pub a: A,  pub b: B, #[parsel(recursive)] pub c: A, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct STRecAttr<A, B: ::parsel::Parse + ::parsel::ToTokens>( pub A, #[parsel(recursive)] pub B);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SConst<A, B, const N: usize>  {  pub a: A,  pub b: B, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E0  {  }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E1U  {  X, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E1T<A>  {  X( A), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E1N<A, B>  {  X  {  a: A,  b: B, }, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E2<A, B>  {  X( A),  Y( B), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E2Prefix<A, B, C>  {  Long( A,  B,  C),  Short( A), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E2Rev<A, B, C>  {  Short( A),  Long( A,  B,  C), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E2Same<A>  {  First( A),  Second( A), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E3<A, B, C>  {  X  {  a: A,  b: B, },  Y( C,  A),  Z, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E3Mid<A, B, C>  {  X( A,  B),  Y,  Z( C), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E4<A, B, C, D>  {  X( A,  B,  C),  Y  {  p: A,  q: B,  r: D,  s: C, },  W(),  Z( D,  C,  B,  A,  A), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E5<A, B, C, D, E>  {  V0  {  x: A, },  V1( B),  V2  {  x: C,  y: A, },  V3( D,  A),  V4  {  x: E,  y: A, }, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E8<A, B, C, D, E, F, G, H>  {  V0( A),  V1( B),  V2( C),  V3( D),  V4( E),  V5( F),  V6( G),  V7( H), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E8Len<A>  {  V0( A,  A,  A,  A,  A,  A,  A,  A),  V1( A,  A,  A,  A,  A,  A,  A),  V2( A,  A,  A,  A,  A,  A),  V3( A,  A,  A,  A,  A),  V4( A,  A,  A,  A),  V5( A,  A,  A),  V6( A,  A), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum EFunny<A, B, C>  {  Ok( A),  Err  {  tokens: B,  input: C, },  None  {  error: C,  result: A,  err: B, },  Some  {  parsel_tokens: A,  fork: B, }, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum ERaw<A, B>  {  X  {  r#type: A,  r#match: B, },  Y( B), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum EEmptyV<A, B>  {  X( A,  B),  Y  {  }, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SNames<Empty, Eof, NotEof, Literal, PhantomData, Boxed, Ident, Maybe, Span>  {  pub f0: Empty,  pub f1: Eof,  pub f2: NotEof,  pub f3: Literal,  pub f4: PhantomData,  pub f5: Boxed,  pub f6: Ident,  pub f7: Maybe,  pub f8: Span, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct STNames<Empty, Eof, NotEof, Literal, PhantomData, Boxed, Ident, Maybe, Span>( pub Empty,  pub Eof,  pub NotEof,  pub Literal,  pub PhantomData,  pub Boxed,  pub Ident,  pub Maybe,  pub Span);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum ENames<Empty, Eof, NotEof, Literal, PhantomData, Boxed, Ident, Maybe, Span>  {  X( Empty,  Eof,  NotEof,  Literal),  Y  {  f0: PhantomData,  f1: Boxed,  f2: Ident,  f3: Maybe,  f4: Span, }, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SOdd<A, B, C>  {  pub _a: A,  pub __b: B,  pub span: C,  pub phantom: A,  pub _c1: B,  pub recursive: A, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum EWide<A, B, C, D, E, F, G, H, I, J, K, L>  {  X( A,  B,  C,  D,  E,  F,  G,  H,  I,  J,  K,  L),  Y  {  f0: A,  f1: B,  f2: C,  f3: D,  f4: E,  f5: F,  f6: G,  f7: H,  f8: I,  f9: J,  f10: K,  f11: L, }, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum EVariants<A, B, C, D, E, F, G, H>  {  Empty( A),  Eof( B),  Default( C),  Other( D),  Unknown( E),  Error( F),  _Hidden( G),  Parse( H), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SComp<A: ::parsel::Parse + ::parsel::ToTokens, B: ::parsel::Parse + ::parsel::ToTokens, C: ::parsel::Parse + ::parsel::ToTokens>  {  pub a: Paren<A>,  pub b: Maybe<A, B>,  pub c: Box<C>,  pub d: Any<B>,  pub e: Separated<A, B>, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct STComp<A: ::parsel::Parse + ::parsel::ToTokens, B: ::parsel::Parse + ::parsel::ToTokens, C: ::parsel::Parse + ::parsel::ToTokens>( pub Either<A, B>,  pub Brace<Any<A>>,  pub Bracket<Maybe<B, C>>,  pub LeftAssoc<A, C>,  pub Box<RightAssoc<B, C>>);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum EComp<A: ::parsel::Parse + ::parsel::ToTokens, B: ::parsel::Parse + ::parsel::ToTokens, C: ::parsel::Parse + ::parsel::ToTokens>  {  X( Box<A>,  Maybe<B, C>),  Y  {  x: Any<A>,  y: Paren<Any<B>>, },  Z( Box<Separated<A, C>>), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SN20<A, B, C, D, E, F, G, H, I, J, K, L>  {  pub g0: A,  pub g1: F,  pub g2: K,  pub g3: D,  pub g4: I,  pub g5: B,  pub g6: G,  pub g7: L,  pub g8: E,  pub g9: J,  pub g10: C,  pub g11: H,  pub g12: A,  pub g13: F,  pub g14: K,  pub g15: D,  pub g16: I,  pub g17: B,  pub g18: G,  pub g19: L, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct ST17<A, B, C, D, E, F, G, H, I, J, K, L>( pub A,  pub H,  pub C,  pub J,  pub E,  pub L,  pub G,  pub B,  pub I,  pub D,  pub K,  pub F,  pub A,  pub H,  pub C,  pub J,  pub E);

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E14<A, B, C, D>  {  W0( A),  W1  {  k: B,  l: C, },  W2( C,  A,  C),  W3( D),  W4  {  k: A,  l: B, },  W5( B,  D,  B),  W6( C),  W7  {  k: D,  l: A, },  W8( A,  C,  A),  W9( B),  W10  {  k: C,  l: D, },  W11( D,  B,  D),  W12( A),  W13  {  k: B,  l: C, }, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum E2Wide<A, B, C, D, E, F>  {  Big  {  h0: A,  h1: F,  h2: E,  h3: D,  h4: C,  h5: B,  h6: A,  h7: F,  h8: E,  h9: D,  h10: C,  h11: B,  h12: A,  h13: F,  h14: E, },  Big2( A,  B,  C,  D,  E,  F,  A,  B,  C,  D,  E,  F,  A,  B), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SWhere<A, B> where A: Clone, B: ::core::fmt::Debug {  pub a: A,  pub b: B, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct STWhere<A, B>( pub A,  pub B,  pub A) where B: Clone;

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum EWhere<A, B> where A: Clone {  X( A,  B),  Y  {  b: B, }, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SDefault<A, B = A>  {  pub b: B,  pub a: A, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum EDefault<A: Clone, B = A>  {  X( B),  Y( A,  B), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub struct SDeep<A: ::parsel::Parse + ::parsel::ToTokens, B: ::parsel::Parse + ::parsel::ToTokens, C: ::parsel::Parse + ::parsel::ToTokens>  {  pub a: Paren<Any<Bracket<A>>>,  pub b: Maybe<A, Maybe<B, C>>,  pub c: Box<Box<C>>,  pub d: Separated<Paren<A>, B>,  pub e: Either<Either<A, B>, C>, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum EUnits<A, B>  {  X  {  a: A, },  Y( B,  A),  Z,  After,  Last( B), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum ENested<A: ::parsel::Parse + ::parsel::ToTokens, B: ::parsel::Parse + ::parsel::ToTokens, C: ::parsel::Parse + ::parsel::ToTokens>  {  X( Paren<A>,  B),  Y( Maybe<B, A>),  Z( C), }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum EAttr<A, B, C>  { #[doc = "x"] X( A), #[allow(dead_code)] Y  {  b: B,  c: C, }, }

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "p", derive(Parse))]
#[cfg_attr(feature = "t", derive(ToTokens))]
#[cfg_attr(feature = "s", derive(FromStr, Display))]
pub enum ENamesake<A, B>  {  ENamesake( A),  A  {  A: B, },  B( B,  A), }

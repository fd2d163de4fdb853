//! Generated by tools/gen_bounds.py. Declarations for the derives; what they have to generate is read off the declaration.
#![allow(dead_code, unused_imports, non_camel_case_types, type_alias_bounds)]
use ::parsel::ast::{Any, Brace, Bracket, Either, LeftAssoc, Many, Maybe, Paren, RightAssoc, Separated, LitInt, Word};
use ::parsel::syn;
pub type Id = Word;
pub type Comma = syn::token::Comma;
pub type At = syn::token::At;
#[derive(Clone, Copy, Debug)]
pub struct Arr<const N: usize>;
impl<const N: usize> ::parsel::Parse for Arr<N> { fn parse(_: syn::parse::ParseStream<'_>) -> syn::Result<Self> { Ok(Arr) } }
impl<const N: usize> ::parsel::ToTokens for Arr<N> { fn to_tokens(&self, _: &mut ::parsel::TokenStream) {} }
#[derive(Clone, Copy, Debug)]
pub struct Ph<'a, T>(core::marker::PhantomData<&'a T>);
impl<'a, T> ::parsel::Parse for Ph<'a, T> { fn parse(_: syn::parse::ParseStream<'_>) -> syn::Result<Self> { Ok(Ph(core::marker::PhantomData)) } }
impl<'a, T> ::parsel::ToTokens for Ph<'a, T> { fn to_tokens(&self, _: &mut ::parsel::TokenStream) {} }
#[derive(Clone, Copy, Debug)]
pub struct Co<T>(core::marker::PhantomData<T>);
impl<T> ::parsel::Parse for Co<T> { fn parse(_: syn::parse::ParseStream<'_>) -> syn::Result<Self> { Ok(Co(core::marker::PhantomData)) } }
impl<T> ::parsel::ToTokens for Co<T> { fn to_tokens(&self, _: &mut ::parsel::TokenStream) {} }
pub trait Tr { type Out; }
impl Tr for Id { type Out = LitInt; }
impl Tr for LitInt { type Out = Id; }
fn ok<T: ::parsel::Parse + ::parsel::ToTokens + core::str::FromStr + core::fmt::Display>() {}

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H0<T>(#[parsel(recursive)] Box<H1<T>>, T);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H1<T> { Leaf(T), Back(#[parsel(recursive)] Box<H0<T>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H2 { a: Id, #[parsel(recursive)] b: Maybe<At, Box<H3>> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H3 { #[parsel(recursive)] b: Maybe<Comma, Box<H2>>, c: Paren<Id> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H4 {}

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H5;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H6 {}

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H7<T: Tr> where T::Out: Clone { A { x: T::Out, y: T::Out }, B(T) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H8<T, U> { A(T), B(U), C(T, U), D { t: T, u: U }, E }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H9<T>(T, T, T, Box<T>, Box<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H10<A> { L { #[parsel(recursive)] l: Box<H10<A>>, a: A }, N(A) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H11<F>(F) where F: Fn() -> Id;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H12<const A: usize, const B: bool>(Arr<A>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H13<'a, 'b: 'a, T: 'b>(Ph<'a, T>, Ph<'b, u8>) where 'b: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H14<T = Id, U = Maybe<At, T>>(T, U);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H15<T: Clone + Tr<Out = LitInt>>(T::Out, <T as Tr>::Out);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H16<T>(pub(crate) T, pub T);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H17 { A = 3, B = 7 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct r#type<T>(T);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H18<r#fn>(r#fn);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H19<input, tokens>(input, tokens);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H20<T>(#[parsel(recursive = false)] T, #[parsel(recursive = true)] Box<Maybe<At, H20<T>>>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H21<T>(Box<Maybe<At, T>>, (T)) where;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H22<T>((T));

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H23<T> where T: Clone, { t: T, }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H24<T, U>(Separated<Either<Paren<Bracket<Brace<Maybe<At, Either<Id, Any<LitInt>>>>>>, Maybe<Comma, T>>, Comma>, Separated<Either<Paren<Bracket<Brace<Maybe<At, Either<Id, Any<LitInt>>>>>>, Maybe<Comma, U>>, Comma>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H25<T, U> { a: Separated<Either<Paren<Bracket<Brace<Maybe<At, Either<Id, Any<LitInt>>>>>>, Maybe<Comma, T>>, Comma>, b: Separated<Either<Paren<Bracket<Brace<Maybe<At, Either<Id, Any<LitInt>>>>>>, Maybe<Comma, U>>, Comma>, c: Separated<Either<Paren<Bracket<Brace<Maybe<At, Either<Id, Any<LitInt>>>>>>, Maybe<Comma, LitInt>>, Comma> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H26<T, U> { A(Either<T, Separated<Either<Paren<Bracket<Brace<Maybe<At, Either<Id, Any<LitInt>>>>>>, Maybe<Comma, Id>>, Comma>>), B(Either<U, Separated<Either<Paren<Bracket<Brace<Maybe<At, Either<Id, Any<LitInt>>>>>>, Maybe<Comma, Id>>, Comma>>), C { c: Either<Paren<T>, Separated<Either<Paren<Bracket<Brace<Maybe<At, Either<Id, Any<LitInt>>>>>>, Maybe<Comma, Id>>, Comma>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H27<T>(Either<T, Arr<0>>, Either<T, Arr<1>>, Either<T, Arr<2>>, Either<T, Arr<3>>, Either<T, Arr<4>>, Either<T, Arr<5>>, Either<T, Arr<6>>, Either<T, Arr<7>>, Either<T, Arr<8>>, Either<T, Arr<9>>, Either<T, Arr<10>>, Either<T, Arr<11>>, Either<T, Arr<12>>, Either<T, Arr<13>>, Either<T, Arr<14>>, Either<T, Arr<15>>, Either<T, Arr<16>>, Either<T, Arr<17>>, Either<T, Arr<18>>, Either<T, Arr<19>>, Either<T, Arr<20>>, Either<T, Arr<21>>, Either<T, Arr<22>>, Either<T, Arr<23>>, Either<T, Arr<24>>, Either<T, Arr<25>>, Either<T, Arr<26>>, Either<T, Arr<27>>, Either<T, Arr<28>>, Either<T, Arr<29>>, Either<T, Arr<30>>, Either<T, Arr<31>>, Either<T, Arr<32>>, Either<T, Arr<33>>, Either<T, Arr<34>>, Either<T, Arr<35>>, Either<T, Arr<36>>, Either<T, Arr<37>>, Either<T, Arr<38>>, Either<T, Arr<39>>, Either<T, Arr<40>>, Either<T, Arr<41>>, Either<T, Arr<42>>, Either<T, Arr<43>>, Either<T, Arr<44>>, Either<T, Arr<45>>, Either<T, Arr<46>>, Either<T, Arr<47>>, Either<T, Arr<48>>, Either<T, Arr<49>>, Either<T, Arr<50>>, Either<T, Arr<51>>, Either<T, Arr<52>>, Either<T, Arr<53>>, Either<T, Arr<54>>, Either<T, Arr<55>>, Either<T, Arr<56>>, Either<T, Arr<57>>, Either<T, Arr<58>>, Either<T, Arr<59>>, Either<T, Arr<60>>, Either<T, Arr<61>>, Either<T, Arr<62>>, Either<T, Arr<63>>, Either<T, Arr<64>>, Either<T, Arr<65>>, Either<T, Arr<66>>, Either<T, Arr<67>>, Either<T, Arr<68>>, Either<T, Arr<69>>, Either<T, Arr<70>>, Either<T, Arr<71>>, Either<T, Arr<72>>, Either<T, Arr<73>>, Either<T, Arr<74>>, Either<T, Arr<75>>, Either<T, Arr<76>>, Either<T, Arr<77>>, Either<T, Arr<78>>, Either<T, Arr<79>>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H28<T> { f0: Maybe<Arr<0>, T>, f1: Maybe<Arr<1>, T>, f2: Maybe<Arr<2>, T>, f3: Maybe<Arr<3>, T>, f4: Maybe<Arr<4>, T>, f5: Maybe<Arr<5>, T>, f6: Maybe<Arr<6>, T>, f7: Maybe<Arr<7>, T>, f8: Maybe<Arr<8>, T>, f9: Maybe<Arr<9>, T>, f10: Maybe<Arr<10>, T>, f11: Maybe<Arr<11>, T>, f12: Maybe<Arr<12>, T>, f13: Maybe<Arr<13>, T>, f14: Maybe<Arr<14>, T>, f15: Maybe<Arr<15>, T>, f16: Maybe<Arr<16>, T>, f17: Maybe<Arr<17>, T>, f18: Maybe<Arr<18>, T>, f19: Maybe<Arr<19>, T>, f20: Maybe<Arr<20>, T>, f21: Maybe<Arr<21>, T>, f22: Maybe<Arr<22>, T>, f23: Maybe<Arr<23>, T>, f24: Maybe<Arr<24>, T>, f25: Maybe<Arr<25>, T>, f26: Maybe<Arr<26>, T>, f27: Maybe<Arr<27>, T>, f28: Maybe<Arr<28>, T>, f29: Maybe<Arr<29>, T>, f30: Maybe<Arr<30>, T>, f31: Maybe<Arr<31>, T>, f32: Maybe<Arr<32>, T>, f33: Maybe<Arr<33>, T>, f34: Maybe<Arr<34>, T>, f35: Maybe<Arr<35>, T>, f36: Maybe<Arr<36>, T>, f37: Maybe<Arr<37>, T>, f38: Maybe<Arr<38>, T>, f39: Maybe<Arr<39>, T>, f40: Maybe<Arr<40>, T>, f41: Maybe<Arr<41>, T>, f42: Maybe<Arr<42>, T>, f43: Maybe<Arr<43>, T>, f44: Maybe<Arr<44>, T>, f45: Maybe<Arr<45>, T>, f46: Maybe<Arr<46>, T>, f47: Maybe<Arr<47>, T>, f48: Maybe<Arr<48>, T>, f49: Maybe<Arr<49>, T>, f50: Maybe<Arr<50>, T>, f51: Maybe<Arr<51>, T>, f52: Maybe<Arr<52>, T>, f53: Maybe<Arr<53>, T>, f54: Maybe<Arr<54>, T>, f55: Maybe<Arr<55>, T>, f56: Maybe<Arr<56>, T>, f57: Maybe<Arr<57>, T>, f58: Maybe<Arr<58>, T>, f59: Maybe<Arr<59>, T>, f60: Maybe<Arr<60>, T>, f61: Maybe<Arr<61>, T>, f62: Maybe<Arr<62>, T>, f63: Maybe<Arr<63>, T>, f64: Maybe<Arr<64>, T>, f65: Maybe<Arr<65>, T>, f66: Maybe<Arr<66>, T>, f67: Maybe<Arr<67>, T>, f68: Maybe<Arr<68>, T>, f69: Maybe<Arr<69>, T>, f70: Maybe<Arr<70>, T>, f71: Maybe<Arr<71>, T>, f72: Maybe<Arr<72>, T>, f73: Maybe<Arr<73>, T>, f74: Maybe<Arr<74>, T>, f75: Maybe<Arr<75>, T>, f76: Maybe<Arr<76>, T>, f77: Maybe<Arr<77>, T>, f78: Maybe<Arr<78>, T>, f79: Maybe<Arr<79>, T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H29<T> { V0(Either<Arr<0>, T>), V1(Either<Arr<1>, T>), V2(Either<Arr<2>, T>), V3(Either<Arr<3>, T>), V4(Either<Arr<4>, T>), V5(Either<Arr<5>, T>), V6(Either<Arr<6>, T>), V7(Either<Arr<7>, T>), V8(Either<Arr<8>, T>), V9(Either<Arr<9>, T>), V10(Either<Arr<10>, T>), V11(Either<Arr<11>, T>), V12(Either<Arr<12>, T>), V13(Either<Arr<13>, T>), V14(Either<Arr<14>, T>), V15(Either<Arr<15>, T>), V16(Either<Arr<16>, T>), V17(Either<Arr<17>, T>), V18(Either<Arr<18>, T>), V19(Either<Arr<19>, T>), V20(Either<Arr<20>, T>), V21(Either<Arr<21>, T>), V22(Either<Arr<22>, T>), V23(Either<Arr<23>, T>), V24(Either<Arr<24>, T>), V25(Either<Arr<25>, T>), V26(Either<Arr<26>, T>), V27(Either<Arr<27>, T>), V28(Either<Arr<28>, T>), V29(Either<Arr<29>, T>), V30(Either<Arr<30>, T>), V31(Either<Arr<31>, T>), V32(Either<Arr<32>, T>), V33(Either<Arr<33>, T>), V34(Either<Arr<34>, T>), V35(Either<Arr<35>, T>), V36(Either<Arr<36>, T>), V37(Either<Arr<37>, T>), V38(Either<Arr<38>, T>), V39(Either<Arr<39>, T>), V40(Either<Arr<40>, T>), V41(Either<Arr<41>, T>), V42(Either<Arr<42>, T>), V43(Either<Arr<43>, T>), V44(Either<Arr<44>, T>), V45(Either<Arr<45>, T>), V46(Either<Arr<46>, T>), V47(Either<Arr<47>, T>), V48(Either<Arr<48>, T>), V49(Either<Arr<49>, T>), V50(Either<Arr<50>, T>), V51(Either<Arr<51>, T>), V52(Either<Arr<52>, T>), V53(Either<Arr<53>, T>), V54(Either<Arr<54>, T>), V55(Either<Arr<55>, T>), V56(Either<Arr<56>, T>), V57(Either<Arr<57>, T>), V58(Either<Arr<58>, T>), V59(Either<Arr<59>, T>), V60(Either<Arr<60>, T>), V61(Either<Arr<61>, T>), V62(Either<Arr<62>, T>), V63(Either<Arr<63>, T>), V64(Either<Arr<64>, T>), V65(Either<Arr<65>, T>), V66(Either<Arr<66>, T>), V67(Either<Arr<67>, T>), V68(Either<Arr<68>, T>), V69(Either<Arr<69>, T>), V70(Either<Arr<70>, T>), V71(Either<Arr<71>, T>), V72(Either<Arr<72>, T>), V73(Either<Arr<73>, T>), V74(Either<Arr<74>, T>), V75(Either<Arr<75>, T>), V76(Either<Arr<76>, T>), V77(Either<Arr<77>, T>), V78(Either<Arr<78>, T>), V79(Either<Arr<79>, T>), V80(Either<Arr<80>, T>), V81(Either<Arr<81>, T>), V82(Either<Arr<82>, T>), V83(Either<Arr<83>, T>), V84(Either<Arr<84>, T>), V85(Either<Arr<85>, T>), V86(Either<Arr<86>, T>), V87(Either<Arr<87>, T>), V88(Either<Arr<88>, T>), V89(Either<Arr<89>, T>), V90(Either<Arr<90>, T>), V91(Either<Arr<91>, T>), V92(Either<Arr<92>, T>), V93(Either<Arr<93>, T>), V94(Either<Arr<94>, T>), V95(Either<Arr<95>, T>), V96(Either<Arr<96>, T>), V97(Either<Arr<97>, T>), V98(Either<Arr<98>, T>), V99(Either<Arr<99>, T>), V100(Either<Arr<100>, T>), V101(Either<Arr<101>, T>), V102(Either<Arr<102>, T>), V103(Either<Arr<103>, T>), V104(Either<Arr<104>, T>), V105(Either<Arr<105>, T>), V106(Either<Arr<106>, T>), V107(Either<Arr<107>, T>), V108(Either<Arr<108>, T>), V109(Either<Arr<109>, T>), V110(Either<Arr<110>, T>), V111(Either<Arr<111>, T>), V112(Either<Arr<112>, T>), V113(Either<Arr<113>, T>), V114(Either<Arr<114>, T>), V115(Either<Arr<115>, T>), V116(Either<Arr<116>, T>), V117(Either<Arr<117>, T>), V118(Either<Arr<118>, T>), V119(Either<Arr<119>, T>), V120(Either<Arr<120>, T>), V121(Either<Arr<121>, T>), V122(Either<Arr<122>, T>), V123(Either<Arr<123>, T>), V124(Either<Arr<124>, T>), V125(Either<Arr<125>, T>), V126(Either<Arr<126>, T>), V127(Either<Arr<127>, T>), V128(Either<Arr<128>, T>), V129(Either<Arr<129>, T>), V130(Either<Arr<130>, T>), V131(Either<Arr<131>, T>), V132(Either<Arr<132>, T>), V133(Either<Arr<133>, T>), V134(Either<Arr<134>, T>), V135(Either<Arr<135>, T>), V136(Either<Arr<136>, T>), V137(Either<Arr<137>, T>), V138(Either<Arr<138>, T>), V139(Either<Arr<139>, T>), V140(Either<Arr<140>, T>), V141(Either<Arr<141>, T>), V142(Either<Arr<142>, T>), V143(Either<Arr<143>, T>), V144(Either<Arr<144>, T>), V145(Either<Arr<145>, T>), V146(Either<Arr<146>, T>), V147(Either<Arr<147>, T>), V148(Either<Arr<148>, T>), V149(Either<Arr<149>, T>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H30<T> { V0 { a: Arr<0>, b: Either<T, Arr<0>>, #[parsel(recursive)] c: Box<H30<T>> }, V1 { a: Arr<1>, b: Either<T, Arr<1>>, #[parsel(recursive)] c: Box<H30<T>> }, V2 { a: Arr<2>, b: Either<T, Arr<2>>, #[parsel(recursive)] c: Box<H30<T>> }, V3 { a: Arr<3>, b: Either<T, Arr<3>>, #[parsel(recursive)] c: Box<H30<T>> }, V4 { a: Arr<4>, b: Either<T, Arr<4>>, #[parsel(recursive)] c: Box<H30<T>> }, V5 { a: Arr<5>, b: Either<T, Arr<5>>, #[parsel(recursive)] c: Box<H30<T>> }, V6 { a: Arr<6>, b: Either<T, Arr<6>>, #[parsel(recursive)] c: Box<H30<T>> }, V7 { a: Arr<7>, b: Either<T, Arr<7>>, #[parsel(recursive)] c: Box<H30<T>> }, V8 { a: Arr<8>, b: Either<T, Arr<8>>, #[parsel(recursive)] c: Box<H30<T>> }, V9 { a: Arr<9>, b: Either<T, Arr<9>>, #[parsel(recursive)] c: Box<H30<T>> }, V10 { a: Arr<10>, b: Either<T, Arr<10>>, #[parsel(recursive)] c: Box<H30<T>> }, V11 { a: Arr<11>, b: Either<T, Arr<11>>, #[parsel(recursive)] c: Box<H30<T>> }, V12 { a: Arr<12>, b: Either<T, Arr<12>>, #[parsel(recursive)] c: Box<H30<T>> }, V13 { a: Arr<13>, b: Either<T, Arr<13>>, #[parsel(recursive)] c: Box<H30<T>> }, V14 { a: Arr<14>, b: Either<T, Arr<14>>, #[parsel(recursive)] c: Box<H30<T>> }, V15 { a: Arr<15>, b: Either<T, Arr<15>>, #[parsel(recursive)] c: Box<H30<T>> }, V16 { a: Arr<16>, b: Either<T, Arr<16>>, #[parsel(recursive)] c: Box<H30<T>> }, V17 { a: Arr<17>, b: Either<T, Arr<17>>, #[parsel(recursive)] c: Box<H30<T>> }, V18 { a: Arr<18>, b: Either<T, Arr<18>>, #[parsel(recursive)] c: Box<H30<T>> }, V19 { a: Arr<19>, b: Either<T, Arr<19>>, #[parsel(recursive)] c: Box<H30<T>> }, V20 { a: Arr<20>, b: Either<T, Arr<20>>, #[parsel(recursive)] c: Box<H30<T>> }, V21 { a: Arr<21>, b: Either<T, Arr<21>>, #[parsel(recursive)] c: Box<H30<T>> }, V22 { a: Arr<22>, b: Either<T, Arr<22>>, #[parsel(recursive)] c: Box<H30<T>> }, V23 { a: Arr<23>, b: Either<T, Arr<23>>, #[parsel(recursive)] c: Box<H30<T>> }, V24 { a: Arr<24>, b: Either<T, Arr<24>>, #[parsel(recursive)] c: Box<H30<T>> }, V25 { a: Arr<25>, b: Either<T, Arr<25>>, #[parsel(recursive)] c: Box<H30<T>> }, V26 { a: Arr<26>, b: Either<T, Arr<26>>, #[parsel(recursive)] c: Box<H30<T>> }, V27 { a: Arr<27>, b: Either<T, Arr<27>>, #[parsel(recursive)] c: Box<H30<T>> }, V28 { a: Arr<28>, b: Either<T, Arr<28>>, #[parsel(recursive)] c: Box<H30<T>> }, V29 { a: Arr<29>, b: Either<T, Arr<29>>, #[parsel(recursive)] c: Box<H30<T>> }, V30 { a: Arr<30>, b: Either<T, Arr<30>>, #[parsel(recursive)] c: Box<H30<T>> }, V31 { a: Arr<31>, b: Either<T, Arr<31>>, #[parsel(recursive)] c: Box<H30<T>> }, V32 { a: Arr<32>, b: Either<T, Arr<32>>, #[parsel(recursive)] c: Box<H30<T>> }, V33 { a: Arr<33>, b: Either<T, Arr<33>>, #[parsel(recursive)] c: Box<H30<T>> }, V34 { a: Arr<34>, b: Either<T, Arr<34>>, #[parsel(recursive)] c: Box<H30<T>> }, V35 { a: Arr<35>, b: Either<T, Arr<35>>, #[parsel(recursive)] c: Box<H30<T>> }, V36 { a: Arr<36>, b: Either<T, Arr<36>>, #[parsel(recursive)] c: Box<H30<T>> }, V37 { a: Arr<37>, b: Either<T, Arr<37>>, #[parsel(recursive)] c: Box<H30<T>> }, V38 { a: Arr<38>, b: Either<T, Arr<38>>, #[parsel(recursive)] c: Box<H30<T>> }, V39 { a: Arr<39>, b: Either<T, Arr<39>>, #[parsel(recursive)] c: Box<H30<T>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H31<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, T16, T17, T18, T19, T20, T21, T22, T23, T24, T25, T26, T27, T28, T29, T30, T31, T32, T33, T34, T35, T36, T37, T38, T39> { V0(T0), V1(T1), V2(T2), V3(T3), V4(T4), V5(T5), V6(T6), V7(T7), V8(T8), V9(T9), V10(T10), V11(T11), V12(T12), V13(T13), V14(T14), V15(T15), V16(T16), V17(T17), V18(T18), V19(T19), V20(T20), V21(T21), V22(T22), V23(T23), V24(T24), V25(T25), V26(T26), V27(T27), V28(T28), V29(T29), V30(T30), V31(T31), V32(T32), V33(T33), V34(T34), V35(T35), V36(T36), V37(T37), V38(T38), V39(T39) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H32<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, T16, T17, T18, T19>(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, T16, T17, T18, T19) where T0: Clone, T1: Clone, T2: Clone, T3: Clone, T4: Clone, T5: Clone, T6: Clone, T7: Clone, T8: Clone, T9: Clone, T10: Clone, T11: Clone, T12: Clone, T13: Clone, T14: Clone, T15: Clone, T16: Clone, T17: Clone, T18: Clone, T19: Clone;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H33<T>(Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id,  T);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(i16)] pub enum H34<T, U> { A(T) = -1, B { u: U } = 300, C, D(Paren<U>, #[parsel(recursive)] Box<H34<T, U>>, Paren<T>) = 7 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H35<A, B, C, D> { V { #[parsel(recursive)] l: Box<H35<A, B, C, D>>, a: A }, W(#[parsel(recursive)] Box<H35<A, B, C, D>>, B, #[parsel(recursive)] Box<H35<A, B, C, D>>, C), X { d: D, #[parsel(recursive)] l: Box<H35<A, B, C, D>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H36<A, B> { #[parsel(recursive)] l: Box<Maybe<At, H36<A, B>>>, a: A, #[parsel(recursive)] r: Box<Maybe<Comma, H36<A, B>>>, b: B }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H37<T>(Box<T>, #[parsel(recursive)] Box<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H38<T>(#[parsel(recursive)] Box<T>, Box<T>) where T: ::parsel::Parse + ::parsel::ToTokens;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H39<T>(#[parsel(recursive)] T, #[parsel(recursive)] Box<T>) where T: ::parsel::Parse + ::parsel::ToTokens;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H40<'a, T: 'a>(&'a T, [T; 3], (T, Id), fn(T) -> T, Vec<T>, Option<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum H41<'a, T: 'a + ?Sized, const N: usize> { A(&'a T, Arr<N>), B { x: Box<T>, y: [Box<T>; N] }, C }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H42<T: Tr<Out = U>, U>(T, U, T::Out);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct H43<T>(Vec<T>) where Vec<T>: Clone, [T]: core::fmt::Debug, for<'x> &'x T: core::fmt::Debug,;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D0<T, U, const N: usize = 2>
where U: Clone + core::fmt::Debug { m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D1<T: Tr, U: Tr> { f0: Paren<Id>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D2<'a, const N: usize> { V0 { f0: Arr<N>, #[parsel(recursive = true)] f1: Any<self::D2<'a, N>>, m0: Ph<'a, ()> }, #[allow(unused)] V1(Either<Paren<LitInt>, Ph<'a, Id>>, Arr<N>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D3<T>
where T: Clone + core::fmt::Debug { m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D4<'a, T> { f0: T, #[allow(unused)] f1: At, m0: Ph<'a, (T, )> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D5<T, U: Tr>
where T: Clone + core::fmt::Debug { #[allow(unused)] f0: Either<Any<Paren<T>>, Brace<Many<(T, Id)>>>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D6<T, U: Tr, W: Tr>
where T: Clone + core::fmt::Debug { /** doc */ V0(U, U, Brace<Many<Any<Maybe<At, T>>>>, Box<::parsel::ast::Bracket<::parsel::ast::Bracket<T>>>, Co<T>, Co<U>, Co<W>), /** doc */ V1, /** doc */ V2 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D7<T: Tr, U>
where U: Tr { V0 { f0: Brace<Many<::parsel::ast::Bracket<Either<T, LitInt>>>>, f1: U, f2: U, m0: Co<T>, m1: Co<U> }, /** doc */ V1 { f0: Id }, V2 { f0: Paren<Paren<Brace<Many<U>>>>, f1: LitInt }, V3(Brace<Many<At>>, Separated<Brace<Many<Brace<Many<T>>>>, Comma>), V4() }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D8<T>
where T: Tr { V0(T::Out, Co<T>), V1 { f0: T, f1: T }, V2(T, T), V3, V4(#[parsel(recursive = false)] Any<Box<Paren<Id>>>, #[parsel(recursive = false)] Any<Box<Paren<Id>>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D9<T: Tr, U> { #[allow(dead_code)] V0(Co<T>, Co<U>) = 1, V1(::parsel::ast::Bracket<Vec<T>>, Maybe<Comma, Separated<Maybe<Comma, At>, Comma>>), V2(#[parsel(recursive = false)] <T as Tr>::Out, fn(T) -> Id, U, #[parsel(recursive = false)] <T as Tr>::Out) = 7, #[allow(dead_code)] V3(::parsel::ast::Bracket<Box<Result<U, Id>>>, #[allow(unused)] Brace<Many<Maybe<At, Brace<Many<U>>>>>, ::parsel::ast::Bracket<Box<Result<U, Id>>>) = 10, V4(At, Paren<Paren<Separated<At, Comma>>>) = 13 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D10<T, U>
where T: Clone + core::fmt::Debug, Paren<U>: ::parsel::Parse { f0: LitInt, pub f1: Separated<Brace<Many<Any<U>>>, Comma>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D11<'a, T = Id>(pub T, pub T, Ph<'a, (T, )>)
where T: Clone + core::fmt::Debug, T: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D12<T>(Co<T>)
where T: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D13;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D14<'a, const N: usize>(pub Brace<Many<LitInt>>, #[parsel(recursive)] pub Maybe<At, Box<Self>>, pub Any<Ph<'a, Id>>, Ph<'a, ()>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D15<'a, T>
where T: Clone + core::fmt::Debug { #[allow(unused)] V0(At, Ph<'a, (T, )>), V1(T, Box<Maybe<Comma, T>>), /** doc */ V2(#[parsel(recursive = false)] Separated<Box<At>, Comma>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D16<T: Clone, U: Clone> { V0 { f0: Separated<U, Comma>, f1: Id, f2: U, #[parsel(recursive)] f3: Brace<Separated<Self, Comma>>, m0: Co<T>, m1: Co<U> }, V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D17 { V0(#[parsel(recursive)] Any<D17>), V1(#[parsel(recursive)] Paren<Box<self::D17>>, At), V2 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D18<T: ::parsel::ToTokens, U, W, const N: usize = 2>
where U: Clone + core::fmt::Debug { /** doc */ V0 { f0: Id, m0: Co<T>, m1: Co<U>, m2: Co<W> }, V1(Paren<Any<Maybe<At, LitInt>>>), V2 { f0: Any<Brace<Many<Id>>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D19<T: Clone, U: Tr, W> { /** doc */ V0 { #[allow(unused)] #[parsel(recursive)] f0: Maybe<At, Box<self::D19<T, U, W>>>, #[allow(unused)] f1: Either<T, U>, #[parsel(recursive)] f2: Brace<Separated<self::D19<T, U, W>, Comma>>, #[parsel(recursive)] f3: Brace<Separated<self::D19<T, U, W>, Comma>>, #[parsel(recursive = true)] f4: Any<Self>, #[allow(unused)] #[parsel(recursive)] f5: Brace<Separated<Self, Comma>>, m0: Co<T>, m1: Co<U>, m2: Co<W> }, V1(#[parsel(recursive)] Box<Any<Self>>, Id, U) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D20<T>
where T: Tr { #[allow(dead_code)] V0 { f0: Maybe<At, T::Out>, f1: Paren<Brace<Many<Any<Id>>>>, f2: Paren<At>, m0: Co<T> } = 1, #[allow(dead_code)] V1 { f0: T } = 4, #[allow(dead_code)] V2() = 7 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D21<T, U: Tr, W>
where W: Clone + core::fmt::Debug { /** doc */ V0 { f0: Id, f1: LitInt, m0: Co<T>, m1: Co<U>, m2: Co<W> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D22<'a, T: Clone = Id>(pub Brace<Many<Brace<Many<Either<T, T>>>>>, Brace<Many<Maybe<Comma, At>>>, pub T, pub T, Brace<Many<Any<Either<At, At>>>>, pub Brace<Many<Brace<Many<Either<T, T>>>>>, Ph<'a, (T, )>)
where T: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D23<T, U, W: Tr>
where T: Clone + core::fmt::Debug { #[allow(unused)] V0 { #[allow(unused)] f0: U, m0: Co<T>, m1: Co<U>, m2: Co<W> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D24<'a, T, U: Tr>
where T: 'static { f0: Separated<Maybe<Comma, Box<T>>, Comma>, #[allow(unused)] pub f1: Paren<Id>, f2: Maybe<Comma, Id>, m0: Ph<'a, (T, U, )> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D25<T: Tr, U, const N: usize> { m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D26<T, U: Clone, W>(#[parsel(recursive)] Box<Any<D26<T, U, W>>>, Co<T>, Co<U>, Co<W>)
where W: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D27<T: Tr, const N: usize> { V0(#[parsel(recursive = false)] Vec<Option<T>>, #[parsel(recursive = false)] Vec<T>, Co<T>), #[allow(dead_code)] V1(*const T, Separated<Either<Vec<Option<T>>, Separated<Vec<Option<T>>, Comma>>, Comma>, Box<dyn Fn(T) -> Id>, Box<T::Out>, [T; 2], Option<T>) = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D28<T: Clone> { V0 { f0: ::parsel::ast::Bracket<At>, #[parsel(recursive = true)] f1: Paren<Box<Self>>, f2: Brace<Many<Paren<LitInt>>>, #[parsel(recursive = false)] f3: T, m0: Co<T> }, V1(#[parsel(recursive = true)] Paren<Box<D28<T>>>, Maybe<At, Brace<Many<Any<Id>>>>, Paren<Box<::parsel::ast::Bracket<Id>>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D29<T, U> { V0 { #[parsel(recursive)] f0: Paren<Box<D29<T, U>>>, f1: Paren<Separated<Any<T>, Comma>>, #[parsel(recursive)] f2: Any<Self>, #[allow(unused)] #[parsel(recursive)] f3: Brace<Separated<Self, Comma>>, f4: Box<U>, #[parsel(recursive = false)] f5: U, m0: Co<T>, m1: Co<U> }, V1, V2() }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D30<T, U> { f0: Either<Box<Separated<LitInt, Comma>>, Box<T>>, pub f1: Either<Separated<Paren<U>, Comma>, Separated<U, Comma>>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D31<T, U = Id> { #[allow(unused)] V0 { f0: ::parsel::ast::Bracket<LitInt>, f1: Any<Id>, m0: Co<T>, m1: Co<U> }, #[allow(unused)] V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D32<T>(Paren<core::marker::PhantomData<T>>, pub Separated<Separated<At, Comma>, Comma>, pub ::parsel::ast::Bracket<Any<Paren<T>>>, Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D33<'a, T, U> { V0 { f0: Maybe<At, T>, f1: Separated<Box<Paren<U>>, Comma>, f2: U, f3: Box<U>, f4: Either<::parsel::ast::Bracket<Any<T>>, U>, f5: Brace<Many<U>>, m0: Ph<'a, (T, U, )> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D34<T: Tr, U>
where U: Tr { /** doc */ V0(T, #[allow(unused)] LitInt, Co<T>, Co<U>), /** doc */ V1() }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D35<T: Tr, U, W>
where U: Tr { /** doc */ V0 { f0: T, #[parsel(recursive = false)] f1: Maybe<At, Box<T>>, #[parsel(recursive = false)] f2: Box<Brace<Many<Brace<Many<T>>>>>, #[allow(unused)] f3: LitInt, f4: Paren<LitInt>, f5: T, m0: Co<T>, m1: Co<U>, m2: Co<W> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D36<T: Tr, U> { V0 { #[parsel(recursive = false)] f0: T, f1: T, f2: T, f3: U, m0: Co<T>, m1: Co<U> }, #[allow(unused)] V1 { #[parsel(recursive = false)] f0: At, #[parsel(recursive = false)] f1: Maybe<Comma, Box<Separated<Id, Comma>>>, f2: Maybe<At, <T as Tr>::Out>, f3: T::Out, #[parsel(recursive = false)] f4: Either<U, Any<Box<LitInt>>>, f5: LitInt }, /** doc */ V2, V3 { f0: U, f1: U, f2: U, f3: Either<T, Separated<Paren<T>, Comma>>, f4: U, f5: Maybe<At, Any<Any<T>>> }, /** doc */ V4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D37<T, U, W: Clone>
where T: Clone + core::fmt::Debug, U: Tr { V0(Co<T>, Co<U>, Co<W>), V1(Box<Brace<Many<Maybe<At, U::Out>>>>, Box<Any<Option<U>>>, Paren<Result<T, Id>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D38<T, U, const N: usize>
where Paren<T>: ::parsel::Parse, U: Tr { f0: U, pub f1: Maybe<Comma, Paren<Box<At>>>, pub f2: Maybe<Comma, Id>, f3: Either<Box<T>, U::Out>, f4: LitInt, f5: T, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D39<T, U: Clone> { #[allow(dead_code)] V0 { f0: Separated<Id, Comma>, m0: Co<T>, m1: Co<U> } = 1, V1(#[parsel(recursive)] Paren<Box<D39<T, U>>>) = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D40<T, U: Tr>
where T: Tr { #[allow(unused)] V0(Maybe<At, Paren<T>>, #[parsel(recursive = false)] U, Maybe<At, Paren<T>>, Co<T>, Co<U>), V1(#[parsel(recursive)] Box<Any<self::D40<T, U>>>, #[allow(unused)] #[parsel(recursive)] Box<Any<D40<T, U>>>, #[parsel(recursive)] Box<Self>, Brace<Many<Maybe<Comma, At>>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D41<T, U, W: Tr>
where T: Clone + core::fmt::Debug, U: Tr { #[allow(unused)] V0(#[parsel(recursive = false)] W::Out, #[parsel(recursive = false)] Brace<Many<W::Out>>, Any<Either<Maybe<At, <U as Tr>::Out>, U>>, Co<T>, Co<U>, Co<W>), /** doc */ V1 { f0: U::Out, f1: W::Out }, /** doc */ V2 { f0: Box<Maybe<At, Maybe<Comma, U>>>, #[parsel(recursive = false)] f1: U } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D42<T, const N: usize>
where T: Tr { /** doc */ V0(T, Paren<T::Out>, Brace<Many<::parsel::ast::Bracket<T::Out>>>, Co<T>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D43<T>(#[parsel(recursive = false)] pub Paren<T>, pub At, Brace<Many<Id>>, Paren<Separated<Id, Comma>>, Co<T>)
where T: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D44<T, U>(Co<T>, Co<U>)
where T: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D45<T, U = Id, const N: usize = 2>(#[parsel(recursive = true)] pub Paren<Box<self::D45<T, U, N>>>, pub T, U, pub Any<Either<Brace<Many<T>>, Box<U>>>, Co<T>, Co<U>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D46<T> { f0: T, pub f1: Paren<Id>, #[parsel(recursive = true)] pub f2: Brace<Separated<self::D46<T>, Comma>>, f3: Id, #[parsel(recursive)] f4: Maybe<At, Box<self::D46<T>>>, #[parsel(recursive)] pub f5: Paren<Box<self::D46<T>>>, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D47<T: ::parsel::ToTokens = Id> { V0 { #[parsel(recursive)] f0: Any<self::D47<T>>, #[allow(unused)] #[parsel(recursive)] f1: Paren<Box<D47<T>>>, f2: At, m0: Co<T> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D48(Brace<Many<Id>>, Brace<Many<Id>>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D49<T, const N: usize = 2>
where T: Clone + core::fmt::Debug { V0(#[parsel(recursive)] Box<Any<D49<T, N>>>, #[allow(unused)] #[parsel(recursive)] Brace<Separated<self::D49<T, N>, Comma>>, Co<T>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D50<T, const N: usize>
where for<'z> &'z T: Clone { #[allow(dead_code)] V0 { f0: Maybe<At, (T,)>, #[allow(unused)] f1: Arr<N>, m0: Co<T> } = 1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D51(Any<Brace<Many<Either<At, LitInt>>>>, Any<Brace<Many<Either<At, LitInt>>>>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D52<T: Tr, U: Tr>(pub T::Out, Co<T>, Co<U>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D53<T, U>(U, #[parsel(recursive = false)] [U; 2], [Paren<T>; 3], pub ::parsel::ast::Bracket<Result<U, Id>>, pub Paren<[Paren<T>; 3]>, #[parsel(recursive = false)] pub Any<Paren<(At, (T, (Comma,)))>>, Co<T>, Co<U>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D54<T, U: Tr>
where T: Clone + core::fmt::Debug { #[allow(unused)] V0(LitInt, Co<T>, Co<U>), V1 { f0: Paren<At>, #[allow(unused)] f1: Brace<Many<::parsel::ast::Bracket<U>>>, f2: At, #[parsel(recursive = false)] f3: U, f4: Id, f5: Box<Separated<U, Comma>> }, /** doc */ V2 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D55<T, U>(U, #[parsel(recursive)] pub Any<self::D55<T, U>>, LitInt, pub T, Co<T>, Co<U>)
where T: Clone + core::fmt::Debug, U: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D56<'a, T: Tr>
where T: 'a { m0: Ph<'a, (T, )> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D57<T, U, W: Clone>
where T: Clone + core::fmt::Debug, Paren<U>: ::parsel::Parse { V0 { f0: Either<U, Paren<Maybe<At, U>>>, f1: Id, f2: Either<W, Either<::parsel::ast::Bracket<T>, Box<W>>>, m0: Co<T>, m1: Co<U>, m2: Co<W> }, /** doc */ V1, #[allow(unused)] V2 { #[allow(unused)] f0: Maybe<At, Separated<Either<U, W>, Comma>>, #[parsel(recursive = false)] f1: ::parsel::ast::Bracket<T>, f2: U, f3: Box<Id>, f4: Box<Any<U>>, f5: Maybe<At, Id> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D58(pub LitInt);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D59<T, U>(#[allow(unused)] #[parsel(recursive)] pub Paren<Box<D59<T, U>>>, Any<T>, Co<T>, Co<U>)
where T: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D60<T: ::parsel::ToTokens, U> { f0: Maybe<Comma, Option<T>>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D61<'a, T: Tr, U>
where T: 'a { V0(Maybe<Comma, ::parsel::ast::Bracket<Box<*const U>>>, Ph<'a, (T, U, )>), /** doc */ V1 { f0: Box<Either<core::marker::PhantomData<T>, Ph<'a, T>>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D62;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D63 { V0(Maybe<Comma, LitInt>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D64<T: Tr, U: Tr, const N: usize>(Box<Separated<Arr<N>, Comma>>, #[allow(unused)] #[parsel(recursive)] Box<self::D64<T, U, N>>, #[parsel(recursive)] pub Paren<Box<Self>>, pub U, Co<T>, Co<U>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D65<T>
where T: Tr { /** doc */ V0 { f0: Separated<At, Comma>, f1: Paren<<T as Tr>::Out>, f2: Paren<T>, f3: At, m0: Co<T> }, V1(#[allow(unused)] Maybe<Comma, Either<Maybe<At, LitInt>, Paren<Id>>>, Paren<T>, Brace<Many<T>>), V2(Brace<Many<T::Out>>, Box<T>, Separated<Separated<Brace<Many<Id>>, Comma>, Comma>), /** doc */ V3 { f0: LitInt }, V4(T::Out) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D66<const N: usize = 2> { V0(Arr<N>, Separated<Paren<::parsel::ast::Bracket<LitInt>>, Comma>), V1(Either<Either<Brace<Many<At>>, Separated<LitInt, Comma>>, Maybe<At, Arr<N>>>), V2 { f0: Paren<LitInt>, f1: LitInt, f2: Id }, /** doc */ V3(Maybe<At, Separated<At, Comma>>, Maybe<At, At>), /** doc */ V4(Any<Separated<Box<At>, Comma>>, Either<LitInt, At>, Paren<Any<Arr<N>>>, Arr<N>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D67 { V0(Either<Id, ::parsel::ast::Bracket<Id>>, Either<Id, ::parsel::ast::Bracket<Id>>), V1 { f0: Separated<At, Comma> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D68 { V0 { f0: At, #[allow(unused)] f1: LitInt }, V1(Brace<Many<Id>>, #[allow(unused)] Either<LitInt, Maybe<At, Paren<At>>>, Brace<Many<Id>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D69<T: Tr, U: Clone, W: Clone>(LitInt, pub T, Co<T>, Co<U>, Co<W>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D70<T: Tr, U, const N: usize>
where U: Clone + core::fmt::Debug { V0 { m0: Co<T>, m1: Co<U> }, V1 {  }, #[allow(unused)] V2 { f0: Brace<Many<T>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D71<T, U>
where Paren<U>: ::parsel::Parse { V0 { m0: Co<T>, m1: Co<U> }, /** doc */ V1 { f0: U }, #[allow(unused)] V2(Paren<Box<Separated<T, Comma>>>, Paren<Maybe<At, Maybe<Comma, T>>>, Brace<Many<Box<U>>>, Paren<Box<Separated<T, Comma>>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D72<'a, T>(pub Paren<(T, Id)>, Box<Paren<Maybe<At, Id>>>, Ph<'a, (T, )>)
where T: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D73<T>(pub Paren<::parsel::ast::Bracket<Any<T>>>, pub Paren<::parsel::ast::Bracket<Any<T>>>, Co<T>)
where Paren<T>: ::parsel::Parse;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D74 { #[allow(unused)] pub f0: At, pub f1: Id }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D75<T, U, W, const N: usize = 2>(pub ::parsel::ast::Bracket<Paren<U>>, ::parsel::ast::Bracket<Any<Either<W, W>>>, Co<T>, Co<U>, Co<W>)
where T: Clone + core::fmt::Debug, for<'z> &'z U: Clone;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D76<'a, T: Tr, U: Clone, W>
where T: 'a { V0 { f0: T, f1: ::parsel::ast::Bracket<Either<Box<T>, Any<W>>>, f2: U, m0: Ph<'a, (T, U, W, )> }, V1() }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D77<const N: usize> {  }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D78<T>
where T: Tr { f0: Brace<Many<Option<T>>>, #[allow(unused)] pub f1: Paren<Box<dyn Fn(T) -> Id>>, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D79<T, U, W, const N: usize>
where T: Tr { #[allow(unused)] V0 { f0: Any<Separated<Brace<Many<(T,)>>, Comma>>, f1: Option<W>, f2: T, f3: [T; 2], f4: Any<fn(W) -> Id>, f5: Brace<Many<::parsel::ast::Bracket<Option<U>>>>, m0: Co<T>, m1: Co<U>, m2: Co<W> }, V1(Box<dyn Fn(T) -> Id>, [Paren<W>; 3]), V2, V3, /** doc */ V4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D80<T, U: Tr, W> { #[parsel(recursive)] f0: Box<Maybe<At, Bracket<Self>>>, pub f1: Paren<::parsel::ast::Bracket<Box<T>>>, f2: Any<U>, #[parsel(recursive)] pub f3: Box<self::D80<T, U, W>>, f4: Any<Brace<Many<Id>>>, #[allow(unused)] #[parsel(recursive)] f5: Brace<Separated<D80<T, U, W>, Comma>>, m0: Co<T>, m1: Co<U>, m2: Co<W> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D81 { pub f0: Maybe<At, Id>, #[parsel(recursive)] f1: Paren<Box<self::D81>>, pub f2: Maybe<At, Paren<Paren<LitInt>>>, pub f3: Paren<Separated<Paren<LitInt>, Comma>>, f4: Id, #[parsel(recursive = false)] f5: Paren<Separated<At, Comma>> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D82<T, U: Tr, W, const N: usize>
where T: Clone + core::fmt::Debug, W: Tr { V0 { #[parsel(recursive = false)] f0: Brace<Many<Brace<Many<T>>>>, f1: Brace<Many<Either<Box<LitInt>, fn() -> W>>>, #[parsel(recursive = false)] f2: ::parsel::ast::Bracket<Maybe<At, Any<<W as Tr>::Out>>>, f3: U, f4: W, #[parsel(recursive = false)] f5: <W as Tr>::Out, m0: Co<T>, m1: Co<U>, m2: Co<W> }, V1(Maybe<At, Maybe<At, Either<(At, (T, (Comma,))), [T; 2]>>>, Any<Separated<Box<(At, (T, (Comma,)))>, Comma>>) = 4, V2 { f0: <U as Tr>::Out, f1: Maybe<At, Vec<W>> } = 7, #[allow(dead_code)] V3 { f0: Brace<Many<Any<Paren<U::Out>>>>, f1: Vec<Option<W>>, #[parsel(recursive = false)] f2: Either<Result<W, Id>, Any<Brace<Many<Option<T>>>>>, f3: Brace<Many<*const W>> }, V4 { f0: ::parsel::ast::Bracket<(At, (U, (Comma,)))>, f1: T } = 13 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D83<'a, T: ::parsel::ToTokens = Id> { V0(#[parsel(recursive = false)] T, Id, Ph<'a, (T, )>), /** doc */ V1 { f0: ::parsel::ast::Bracket<Brace<Many<T>>>, f1: Id }, V2(#[parsel(recursive = false)] T), /** doc */ V3(), V4 { f0: Paren<Brace<Many<T>>>, f1: Either<Paren<Separated<Id, Comma>>, LitInt>, f2: Separated<Maybe<Comma, At>, Comma>, f3: Either<Maybe<Comma, Brace<Many<At>>>, LitInt>, f4: LitInt, f5: T } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D84<'a, T: Clone, U, W>
where U: Tr, W: Tr { #[allow(unused)] V0(#[parsel(recursive = false)] core::marker::PhantomData<T>, Any<Brace<Many<Either<(U,), W>>>>, Any<Paren<::parsel::ast::Bracket<<W as Tr>::Out>>>, Ph<'a, (T, U, W, )>), V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D85<T, U: Tr>(#[parsel(recursive)] Brace<Separated<D85<T, U>, Comma>>, pub Any<<U as Tr>::Out>, Separated<Any<U>, Comma>, U, Co<T>, Co<U>)
where for<'z> &'z T: Clone;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D86<'a, T>
where T: Clone + core::fmt::Debug { V0(Paren<Box<(T,)>>, Id, fn(T) -> Id, Ph<'a, (T, )>), /** doc */ V1(Vec<Option<T>>, Vec<T>), V2(Id, Maybe<Comma, ::parsel::ast::Bracket<Maybe<Comma, Id>>>, T, T, [Paren<T>; 3], #[allow(unused)] T) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D87<'a, T, U, W: Tr>
where T: Tr, for<'z> &'z U: Clone, T: 'a { m0: Ph<'a, (T, U, W, )> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D88<T, U: Clone = Id>
where Paren<T>: ::parsel::Parse { V0(U, #[parsel(recursive = false)] U, U, Co<T>, Co<U>), V1(Box<Any<U>>, Maybe<At, Id>, Any<Box<T>>, Box<Any<U>>, Id, Box<Any<U>>), /** doc */ V2 { f0: Any<::parsel::ast::Bracket<Brace<Many<U>>>>, f1: Box<U>, f2: T, #[parsel(recursive = false)] f3: LitInt, f4: Any<T>, #[allow(unused)] f5: Box<U> }, V3, V4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D89<'a, T, U, const N: usize>(Separated<Paren<Maybe<Comma, U>>, Comma>, At, Ph<'a, (T, U, )>)
where T: 'static, Paren<U>: ::parsel::Parse, T: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D90<T: Clone, const N: usize> { V0(T, ::parsel::ast::Bracket<T>, Box<Any<Box<T>>>, Co<T>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D91<T: Tr, U>
where U: Clone + core::fmt::Debug { V0(#[parsel(recursive = false)] Either<Either<Maybe<At, U>, Maybe<Comma, T>>, LitInt>, T, LitInt, #[parsel(recursive = false)] Either<Either<Maybe<At, U>, Maybe<Comma, T>>, LitInt>, Co<T>, Co<U>) = 1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D92<T, const N: usize> { #[allow(dead_code)] V0 { f0: LitInt, f1: Any<At>, m0: Co<T> }, #[allow(dead_code)] V1 = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D93<T: Clone> { V0(Separated<Either<Brace<Many<T>>, Maybe<At, T>>, Comma>, #[allow(unused)] #[parsel(recursive)] Box<Any<Self>>, LitInt, #[parsel(recursive)] Maybe<At, Box<Self>>, Co<T>), #[allow(dead_code)] V1 { f0: Paren<Maybe<Comma, T>>, f1: Either<Brace<Many<Either<Id, T>>>, T>, f2: T, #[parsel(recursive = false)] f3: Either<T, Either<Paren<T>, Paren<Id>>> } = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D94<T, U: Tr>
where T: Tr { /** doc */ V0 { #[parsel(recursive = true)] f0: Paren<Box<self::D94<T, U>>>, f1: Paren<Box<<U as Tr>::Out>>, #[parsel(recursive = false)] f2: U, f3: Any<U::Out>, m0: Co<T>, m1: Co<U> }, V1(Brace<Many<Vec<T>>>, #[parsel(recursive)] Maybe<At, Box<self::D94<T, U>>>), /** doc */ V2 { #[parsel(recursive)] f0: Any<Self> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D95<T, U: Tr> { V0(Separated<::parsel::ast::Bracket<<U as Tr>::Out>, Comma>, At, #[parsel(recursive)] Paren<Box<D95<T, U>>>, Co<T>, Co<U>), V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D96<T, U: Clone = Id> { pub f0: Brace<Many<U>>, #[parsel(recursive = true)] pub f1: Maybe<At, Box<D96<T, U>>>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D97<T = Id> { #[allow(unused)] V0 { f0: Paren<Either<fn() -> T, [Paren<T>; 3]>>, m0: Co<T> }, V1 { #[allow(unused)] f0: Either<Box<At>, Vec<T>>, f1: Paren<(At, (T, (Comma,)))> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D98<T: Tr, U: Tr>(pub Separated<Maybe<At, Maybe<Comma, T::Out>>, Comma>, pub Separated<Maybe<At, Maybe<Comma, T::Out>>, Comma>, Co<T>, Co<U>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D99<T>
where T: Tr { V0(LitInt, T, #[parsel(recursive = false)] Box<Any<T>>, Co<T>) = 1, #[allow(dead_code)] V1 { f0: Brace<Many<Id>>, f1: T } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D100<T: ::parsel::ToTokens = Id>(pub Maybe<At, Brace<Many<Paren<T>>>>, pub Maybe<At, T>, At, Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D101<const N: usize> { V0, V1 { #[allow(unused)] #[parsel(recursive)] f0: Box<Maybe<At, Bracket<Self>>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D102<T, U> { /** doc */ V0 { f0: Id, #[allow(unused)] f1: Brace<Many<Brace<Many<Paren<LitInt>>>>>, m0: Co<T>, m1: Co<U> }, V1, /** doc */ V2 { f0: LitInt, f1: Id, f2: Paren<U>, f3: Separated<Either<Paren<Id>, U>, Comma> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D103<T: Clone = Id> { V0(#[parsel(recursive = false)] Maybe<At, Separated<*const T, Comma>>, #[parsel(recursive = false)] Brace<Many<Box<Brace<Many<LitInt>>>>>, (T,), Vec<T>, At, Any<(T,)>, Co<T>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D104<T> { f0: ::parsel::ast::Bracket<T>, f1: Brace<Many<Paren<Either<Id, At>>>>, pub f2: Paren<(At, (T, (Comma,)))>, f3: [T; 2], m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D105<const N: usize>(LitInt);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D106<T: Tr, U: Tr, W, const N: usize> { pub f0: Separated<::parsel::ast::Bracket<::parsel::ast::Bracket<U>>, Comma>, #[parsel(recursive = false)] pub f1: <T as Tr>::Out, m0: Co<T>, m1: Co<U>, m2: Co<W> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D107 { V0, V1(Separated<Id, Comma>), #[allow(unused)] V2, #[allow(unused)] V3(At, #[parsel(recursive = false)] Id, #[allow(unused)] LitInt, Paren<Id>), V4(#[allow(unused)] Id, At, LitInt, Id) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D108<const N: usize> { V0(#[allow(unused)] #[parsel(recursive)] Box<Any<self::D108<N>>>, Box<Paren<Either<Id, Id>>>, #[parsel(recursive = false)] LitInt), V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D109<T, U: Clone>
where for<'z> &'z T: Clone { #[allow(unused)] f0: U, pub f1: Paren<Either<LitInt, U>>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D110<'a, T: Tr>
where T: 'a { #[parsel(recursive = false)] pub f0: T, m0: Ph<'a, (T, )> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D111<T, U: Tr, W: Tr> { f0: At, f1: U::Out, f2: U::Out, f3: U::Out, m0: Co<T>, m1: Co<U>, m2: Co<W> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D112<const N: usize = 2> { V0 { f0: Paren<At>, f1: Paren<Box<LitInt>> }, V1 { f0: Any<Paren<Brace<Many<Arr<N>>>>>, f1: At }, #[allow(unused)] V2(#[parsel(recursive = false)] ::parsel::ast::Bracket<Paren<Maybe<Comma, Arr<N>>>>, #[allow(unused)] Id, #[parsel(recursive = false)] ::parsel::ast::Bracket<Paren<Maybe<Comma, Arr<N>>>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D113<T> { V0(LitInt, Co<T>), /** doc */ V1 { #[parsel(recursive = false)] f0: T } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D114<'a> { #[allow(unused)] V0(Brace<Many<Brace<Many<Maybe<Comma, Ph<'a, Id>>>>>>, Box<Id>, Id, Brace<Many<Brace<Many<Maybe<Comma, Ph<'a, Id>>>>>>, Ph<'a, ()>), #[allow(unused)] V1(Ph<'a, Id>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D115<T: Clone, U: Tr, W: Tr> { V0 { f0: fn(U) -> Id, f1: [U; 2], f2: Paren<Box<Option<T>>>, f3: [Paren<T>; 3], m0: Co<T>, m1: Co<U>, m2: Co<W> }, /** doc */ V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D116<'a, T: Clone, U, W>
where U: Clone + core::fmt::Debug { V0 { f0: ::parsel::ast::Bracket<Maybe<Comma, Ph<'a, T>>>, m0: Ph<'a, (T, U, W, )> }, V1 { #[parsel(recursive = false)] f0: Maybe<Comma, Id>, f1: ::parsel::ast::Bracket<T>, f2: At } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D117<T>(Co<T>)
where T: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D118<T, U, W: ::parsel::ToTokens, const N: usize>
where Paren<U>: ::parsel::Parse { V0 { f0: LitInt, m0: Co<T>, m1: Co<U>, m2: Co<W> }, /** doc */ V1 { f0: Paren<Either<Either<U, T>, U>>, f1: Maybe<At, Brace<Many<At>>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D119;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D120<T, U: Clone = Id, const N: usize = 2>
where T: Clone + core::fmt::Debug { #[allow(dead_code)] V0(At, Brace<Many<::parsel::ast::Bracket<Maybe<Comma, Arr<N>>>>>, Maybe<Comma, Brace<Many<T>>>, U, Either<Maybe<At, Paren<Id>>, Either<Box<At>, Brace<Many<T>>>>, At, Co<T>, Co<U>), V1(T, T, Paren<Arr<N>>, T, #[parsel(recursive = false)] ::parsel::ast::Bracket<Either<LitInt, Box<U>>>, Any<Either<U, Either<T, T>>>) = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D121<T: Clone>(Paren<Paren<T>>, Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D122<T, const N: usize> { V0(#[allow(unused)] #[parsel(recursive)] Brace<Separated<self::D122<T, N>, Comma>>, Arr<N>, #[parsel(recursive)] Any<D122<T, N>>, #[parsel(recursive = true)] Any<self::D122<T, N>>, At, #[parsel(recursive)] Any<self::D122<T, N>>, Co<T>), /** doc */ V1(#[parsel(recursive)] Box<D122<T, N>>, At, #[parsel(recursive)] Paren<Box<Self>>), V2 {  } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D123<T: Tr, U>(Maybe<Comma, [U; 2]>, Co<T>, Co<U>)
where U: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D124<T, U, W: Tr>(Either<Maybe<At, T>, ::parsel::ast::Bracket<Vec<Option<T>>>>, Co<T>, Co<U>, Co<W>)
where U: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D125<T, U>
where U: Clone + core::fmt::Debug { V0 { f0: Box<Maybe<At, Brace<Many<T>>>>, f1: Box<Brace<Many<Maybe<At, Id>>>>, #[allow(unused)] f2: Maybe<At, U>, m0: Co<T>, m1: Co<U> }, V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D126<T, U = Id>(Maybe<At, Maybe<Comma, Either<T, Id>>>, pub Brace<Many<Paren<Brace<Many<T>>>>>, Co<T>, Co<U>)
where U: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D127(#[parsel(recursive = true)] pub Any<self::D127>, #[allow(unused)] pub Separated<Paren<At>, Comma>, Paren<LitInt>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D128<T, U: Clone, W>
where Paren<W>: ::parsel::Parse { #[allow(unused)] V0(#[parsel(recursive = false)] U, #[allow(unused)] LitInt, Co<T>, Co<U>, Co<W>), V1() }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D129<T: Clone, U>
where U: Tr { #[allow(dead_code)] V0 { #[allow(unused)] #[parsel(recursive)] f0: Paren<Box<D129<T, U>>>, f1: T, f2: U::Out, f3: Separated<T, Comma>, f4: Maybe<At, Any<Box<U>>>, #[parsel(recursive)] f5: Box<Any<self::D129<T, U>>>, m0: Co<T>, m1: Co<U> }, #[allow(dead_code)] V1 { #[parsel(recursive = true)] f0: Maybe<At, Box<D129<T, U>>> } = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D130<T, U = Id>
where U: Clone + core::fmt::Debug { #[allow(dead_code)] V0 { f0: core::marker::PhantomData<U>, f1: (U,), f2: [Paren<T>; 3], f3: Any<Maybe<Comma, Paren<LitInt>>>, f4: Box<Option<T>>, f5: Brace<Many<Paren<Paren<U>>>>, m0: Co<T>, m1: Co<U> } = 1, #[allow(dead_code)] V1 { f0: Box<Box<dyn Fn(T) -> Id>> } = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D131<'a, T: Tr, U>(Ph<'a, (T, U, )>)
where T: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D132<T>(#[parsel(recursive = false)] pub Brace<Many<LitInt>>, T, ::parsel::ast::Bracket<Paren<Paren<T>>>, Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D133<T: Tr, U: Tr, const N: usize = 2> { V0(Paren<Paren<<T as Tr>::Out>>, Co<T>, Co<U>), V1() }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D134 { f0: Id, f1: Id }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D135<T: Tr, U: Clone, W> { V0(#[parsel(recursive)] Maybe<At, Box<D135<T, U, W>>>, Co<T>, Co<U>, Co<W>) = 1, V1 { #[parsel(recursive)] f0: Box<Maybe<At, Bracket<Self>>> }, #[allow(dead_code)] V2(#[allow(unused)] #[parsel(recursive)] Brace<Separated<self::D135<T, U, W>, Comma>>, #[parsel(recursive)] Any<Self>, Vec<Option<U>>, #[allow(unused)] #[parsel(recursive)] Brace<Separated<self::D135<T, U, W>, Comma>>) = 7 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D136<T> { V0 { f0: Maybe<At, T>, m0: Co<T> }, V1(Paren<Box<Id>>, Maybe<At, T>, T, Paren<Paren<Id>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D137<T: Clone>(pub Maybe<At, (At, (T, (Comma,)))>, Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D138<'a, T: Tr> { V0 { f0: T::Out, f1: ::parsel::ast::Bracket<Either<Paren<<T as Tr>::Out>, T::Out>>, m0: Ph<'a, (T, )> } = 1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D139<T: Tr> { V0 { m0: Co<T> } = 1, #[allow(dead_code)] V1(#[parsel(recursive = true)] Brace<Separated<D139<T>, Comma>>) = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D140<T, U: Clone, W>
where T: Tr { pub f0: Either<Any<U>, At>, f1: Box<Any<Paren<W>>>, m0: Co<T>, m1: Co<U>, m2: Co<W> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D141<T: Clone, U: Clone, const N: usize> { V0(LitInt, Brace<Many<Maybe<At, Separated<LitInt, Comma>>>>, U, Arr<N>, Either<Paren<U>, Separated<At, Comma>>, U, Co<T>, Co<U>), V1 {  }, V2(Any<Maybe<At, Maybe<Comma, Arr<N>>>>, #[allow(unused)] U, Either<T, LitInt>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D142<'a, T, U: Tr>
where T: Tr, T: 'a { V0 { f0: Result<U, Id>, f1: [U; 2], f2: Either<(U, Id), Box<Brace<Many<(U, Id)>>>>, f3: Paren<::parsel::ast::Bracket<<U as Tr>::Out>>, f4: Any<T>, f5: Either<fn(U) -> Id, T>, m0: Ph<'a, (T, U, )> }, V1 { f0: Brace<Many<T>> } = 4, V2(Separated<Paren<[Paren<U>; 3]>, Comma>) = 7, #[allow(dead_code)] V3 = 10, #[allow(dead_code)] V4((T, Id), Vec<Option<U>>) = 13 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D143;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D144<T = Id, const N: usize = 2>(pub Brace<Many<Separated<::parsel::ast::Bracket<T>, Comma>>>, #[parsel(recursive = true)] Brace<Separated<D144<T, N>, Comma>>, #[parsel(recursive)] pub Box<Any<self::D144<T, N>>>, #[parsel(recursive)] Box<self::D144<T, N>>, pub At, pub Brace<Many<Separated<::parsel::ast::Bracket<T>, Comma>>>, Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D145<T = Id>(T, pub LitInt, #[parsel(recursive)] pub Box<Any<Self>>, T, pub Maybe<Comma, Paren<T>>, ::parsel::ast::Bracket<Id>, Co<T>)
where T: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D146<T: Tr, U: Tr, W> { #[allow(dead_code)] V0(#[allow(unused)] U, Paren<T>, Brace<Many<U>>, ::parsel::ast::Bracket<W>, Co<T>, Co<U>, Co<W>) = 1, #[allow(dead_code)] V1 { #[parsel(recursive = false)] f0: U } = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D147<T = Id>(Maybe<Comma, T>, pub Option<T>, pub Maybe<At, Maybe<At, Maybe<Comma, At>>>, Co<T>)
where Paren<T>: ::parsel::Parse;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D148<T> { #[allow(unused)] V0 { f0: Paren<Paren<T>>, f1: Result<T, Id>, m0: Co<T> }, #[allow(unused)] V1 {  } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D149<'a> { V0(Box<Ph<'a, Id>>, Ph<'a, ()>) = 1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D150<T: Tr, U, W, const N: usize>(#[parsel(recursive = false)] Separated<Brace<Many<Arr<N>>>, Comma>, pub W, #[parsel(recursive = false)] Separated<Brace<Many<Arr<N>>>, Comma>, Co<T>, Co<U>, Co<W>)
where U: Tr, W: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D151<'a, T: Clone = Id> { V0(At, #[parsel(recursive = true)] Any<D151<'a, T>>, Ph<'a, (T, )>) = 1, V1 { f0: T, f1: ::parsel::ast::Bracket<Id>, #[allow(unused)] #[parsel(recursive)] f2: Maybe<At, Box<D151<'a, T>>>, f3: Box<At> } = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D152<T, U = Id, const N: usize = 2> { #[allow(unused)] V0(#[parsel(recursive = false)] ::parsel::ast::Bracket<T>, U, Co<T>, Co<U>), /** doc */ V1(Brace<Many<Paren<U>>>), /** doc */ V2(T, U) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D153<'a, T> { V0 { m0: Ph<'a, (T, )> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D154<T: Tr, U: Tr> { V0(Box<T>, U, Either<::parsel::ast::Bracket<Brace<Many<At>>>, ::parsel::ast::Bracket<::parsel::ast::Bracket<<T as Tr>::Out>>>, Box<T>, Any<<U as Tr>::Out>, <U as Tr>::Out, Co<T>, Co<U>), V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D155<T>(Co<T>)
where T: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D156<T: Tr, const N: usize>(#[allow(unused)] pub Box<Separated<Either<At, T>, Comma>>, pub LitInt, Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D157<T, U, W>(Paren<Separated<At, Comma>>, Co<T>, Co<U>, Co<W>)
where for<'z> &'z T: Clone, U: Tr, W: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D158<T: Clone, U, W: Tr, const N: usize> { #[allow(dead_code)] V0(Co<T>, Co<U>, Co<W>) = 1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D159<'a, T: Tr, U: Tr>
where T: 'a { #[allow(dead_code)] V0(Box<T>, (T, Id), Vec<Option<T>>, #[allow(unused)] Vec<T>, [T; 2], Either<Result<U, Id>, U>, Ph<'a, (T, U, )>), V1 = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D160<'a, T, U: Clone, const N: usize>
where T: 'a { f0: Brace<Many<Separated<Separated<LitInt, Comma>, Comma>>>, m0: Ph<'a, (T, U, )> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D161 { #[allow(dead_code)] V0 = 1, #[allow(dead_code)] V1 { #[parsel(recursive)] f0: Box<Any<D161>>, #[allow(unused)] f1: Separated<Paren<Separated<LitInt, Comma>>, Comma> } = 4, V2(Brace<Many<Brace<Many<Id>>>>, Box<At>, Either<LitInt, Maybe<At, At>>) = 7, V3 { f0: Paren<Id>, #[parsel(recursive)] f1: Any<D161>, #[parsel(recursive = true)] f2: Maybe<At, Box<self::D161>>, #[allow(unused)] f3: Id, #[allow(unused)] #[parsel(recursive)] f4: Paren<Box<self::D161>>, f5: LitInt } = 10, V4 { #[parsel(recursive)] f0: Any<self::D161>, #[parsel(recursive = true)] f1: Box<self::D161> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D162<T: Clone, U: Tr, const N: usize>(Co<T>, Co<U>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D163<T, U: Clone, W: Tr>
where T: Clone + core::fmt::Debug { /** doc */ V0(Paren<Maybe<Comma, Any<U>>>, Paren<W::Out>, Co<T>, Co<U>, Co<W>), /** doc */ V1(#[parsel(recursive = false)] U, Separated<Box<LitInt>, Comma>, #[parsel(recursive)] Brace<Separated<self::D163<T, U, W>, Comma>>, <W as Tr>::Out) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D164<T: Clone = Id> { #[allow(dead_code)] V0 { #[allow(unused)] f0: Any<Brace<Many<T>>>, f1: Separated<At, Comma>, f2: Either<Id, T>, m0: Co<T> } = 1, V1 {  } = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D165<T: Clone, U: ::parsel::ToTokens, const N: usize> { #[allow(unused)] V0(Co<T>, Co<U>), V1, #[allow(unused)] V2 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D166<'a, T>(#[parsel(recursive = true)] Box<Any<D166<'a, T>>>, #[parsel(recursive)] pub Box<Self>, #[parsel(recursive = true)] Box<Any<D166<'a, T>>>, Ph<'a, (T, )>)
where T: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D167<T = Id> { pub f0: Paren<Maybe<At, Separated<T, Comma>>>, #[parsel(recursive = true)] f1: Maybe<At, Box<D167<T>>>, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D168<T, U: Tr>
where T: Clone + core::fmt::Debug { #[allow(unused)] pub f0: T, pub f1: Paren<Separated<Id, Comma>>, f2: Maybe<At, Any<U>>, #[parsel(recursive = true)] pub f3: Maybe<At, Box<Self>>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D169<T: Clone, U, const N: usize>(pub Paren<Arr<N>>, LitInt, Separated<Either<Paren<T>, Id>, Comma>, pub Either<Maybe<At, T>, U>, Id, pub Arr<N>, Co<T>, Co<U>)
where U: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D170<'a, T: ::parsel::ToTokens> { #[allow(dead_code)] V0(T, Id, Ph<'a, (T, )>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D171<T, const N: usize>
where T: Tr { V0(Paren<core::marker::PhantomData<T>>, Co<T>), #[allow(unused)] V1(fn(T) -> Id, fn(T) -> Id), V2 { #[parsel(recursive = false)] f0: Box<Separated<*const T, Comma>>, f1: Separated<Box<Maybe<Comma, Vec<T>>>, Comma> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D172<'a, T, U: Tr, W>
where W: Clone + core::fmt::Debug { #[allow(dead_code)] V0 { #[parsel(recursive = false)] f0: Either<W, Box<T>>, #[parsel(recursive = false)] f1: At, f2: Either<Brace<Many<Separated<U::Out, Comma>>>, U::Out>, #[parsel(recursive = false)] f3: U, f4: U, f5: Ph<'a, T>, m0: Ph<'a, (T, U, W, )> } = 1, #[allow(dead_code)] V1(Brace<Many<T>>) = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D173<'a, T: Tr, U>(#[parsel(recursive = false)] fn() -> U, T, pub ::parsel::ast::Bracket<Paren<[Paren<T>; 3]>>, pub Either<Option<U>, Paren<::parsel::ast::Bracket<LitInt>>>, pub Any<LitInt>, pub (U,), Ph<'a, (T, U, )>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D174<'a, T>
where Paren<T>: ::parsel::Parse { pub f0: At, pub f1: Either<Maybe<At, T>, Paren<T>>, f2: Box<T>, #[parsel(recursive = false)] f3: Paren<LitInt>, m0: Ph<'a, (T, )> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D175<T: Tr, const N: usize> { V0(T, Co<T>), V1(Separated<Maybe<Comma, T>, Comma>), V2 { f0: T, f1: LitInt }, V3(T, T, Box<Box<Maybe<At, T>>>, Any<Paren<Any<T>>>, Box<T>, #[parsel(recursive = false)] Box<Separated<Maybe<Comma, T::Out>, Comma>>), V4(At, At) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D176 { V0 { f0: Paren<Any<Brace<Many<Id>>>>, #[allow(unused)] f1: At, f2: Either<Paren<Id>, Maybe<At, Any<At>>> }, V1(Either<LitInt, At>, #[parsel(recursive = false)] Brace<Many<Paren<Separated<At, Comma>>>>, Either<LitInt, At>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D177<'a, T: Tr, U: Clone, const N: usize>
where T: 'a { V0(#[parsel(recursive = true)] Paren<Box<self::D177<'a, T, U, N>>>, Paren<<T as Tr>::Out>, Ph<'a, (T, U, )>) = 1, V1(::parsel::ast::Bracket<At>, #[allow(unused)] Brace<Many<Separated<Paren<U>, Comma>>>, Any<Either<T, Paren<Arr<N>>>>, U, Id, #[parsel(recursive)] Box<Any<D177<'a, T, U, N>>>) = 4, V2 = 7, V3 {  }, V4 { #[parsel(recursive)] f0: Brace<Separated<Self, Comma>>, f1: T, #[parsel(recursive = true)] f2: Maybe<At, Box<self::D177<'a, T, U, N>>> } = 13 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D178<const N: usize = 2> { #[parsel(recursive = true)] pub f0: Box<Self> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D179<T>
where T: Clone + core::fmt::Debug { m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D180(At, At, Any<Paren<LitInt>>, pub Id);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D181<T: Clone, U: Clone, W> { V0 { f0: Separated<T, Comma>, #[parsel(recursive = false)] f1: Box<W>, #[parsel(recursive = false)] f2: At, #[parsel(recursive)] f3: Brace<Separated<self::D181<T, U, W>, Comma>>, #[parsel(recursive = false)] f4: At, #[parsel(recursive = true)] f5: Maybe<At, Box<Self>>, m0: Co<T>, m1: Co<U>, m2: Co<W> } = 1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D182<T: Tr, U>(pub U, #[parsel(recursive = true)] Box<Any<self::D182<T, U>>>, #[allow(unused)] U, Co<T>, Co<U>)
where U: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D183<T, const N: usize>
where T: Clone + core::fmt::Debug { V0(Separated<Paren<Box<T>>, Comma>, Co<T>), V1 { f0: T, #[allow(unused)] f1: Paren<Any<T>> }, V2(LitInt, #[allow(unused)] At, Any<T>, Either<Maybe<Comma, Paren<Arr<N>>>, T>, At, LitInt), V3(Any<T>), #[allow(unused)] V4 { f0: At, f1: Separated<Either<Maybe<At, LitInt>, LitInt>, Comma>, f2: Id, f3: Either<Box<T>, T> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D184<T: Tr, U: Tr, W>
where W: Tr { #[allow(unused)] V0 { f0: <T as Tr>::Out, m0: Co<T>, m1: Co<U>, m2: Co<W> }, /** doc */ V1(W, T::Out, #[allow(unused)] ::parsel::ast::Bracket<Any<<T as Tr>::Out>>, Brace<Many<U>>, LitInt, W) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D185<'a, const N: usize = 2>(Arr<N>, Ph<'a, ()>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D186<T, U: Clone = Id>(pub Maybe<At, Paren<Maybe<Comma, U>>>, At, Separated<LitInt, Comma>, pub Box<Any<Separated<(T, Id), Comma>>>, pub [Paren<U>; 3], [Paren<T>; 3], Co<T>, Co<U>)
where for<'z> &'z T: Clone;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D187<T: ::parsel::ToTokens, U, W>
where Paren<U>: ::parsel::Parse { V0 { #[parsel(recursive = false)] f0: ::parsel::ast::Bracket<Separated<W, Comma>>, f1: At, #[parsel(recursive = false)] f2: Maybe<At, Paren<T>>, #[allow(unused)] f3: Any<W>, m0: Co<T>, m1: Co<U>, m2: Co<W> }, #[allow(unused)] V1 { f0: Paren<Id> }, V2(Either<Paren<W>, Paren<Box<W>>>, Maybe<Comma, W>), V3(#[parsel(recursive = false)] ::parsel::ast::Bracket<Any<U>>), V4 { f0: Either<W, ::parsel::ast::Bracket<Maybe<At, W>>>, f1: T } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D188<T: Clone, U: Tr, W>
where W: Tr { #[parsel(recursive = false)] f0: core::marker::PhantomData<U>, pub f1: [Paren<T>; 3], #[parsel(recursive = false)] f2: core::marker::PhantomData<T>, f3: Separated<<W as Tr>::Out, Comma>, pub f4: core::marker::PhantomData<W>, f5: Brace<Many<Paren<Brace<Many<Result<W, Id>>>>>>, m0: Co<T>, m1: Co<U>, m2: Co<W> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D189<'a, T: Clone, U>(Ph<'a, (T, U, )>)
where U: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D190<'a, T, U: Clone>(#[allow(unused)] pub Maybe<Comma, T>, Either<Brace<Many<Box<dyn Fn(T) -> Id>>>, Brace<Many<Paren<Vec<T>>>>>, (T, Id), #[allow(unused)] pub Maybe<Comma, T>, Ph<'a, (T, U, )>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D191<T: Clone, U: Clone> { #[allow(dead_code)] V0(#[allow(unused)] Paren<::parsel::ast::Bracket<Box<T>>>, Co<T>, Co<U>), V1 { f0: U } = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D192<'a, T, U, W>
where T: Clone + core::fmt::Debug, U: Clone + core::fmt::Debug { V0(Maybe<At, Box<At>>, W, Paren<Maybe<At, Paren<T>>>, #[allow(unused)] U, Paren<Brace<Many<Paren<T>>>>, Maybe<At, Box<At>>, Ph<'a, (T, U, W, )>) = 1, V1(U, Maybe<At, T>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D193<T>
where T: Tr { /** doc */ V0(Co<T>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D194<'a, T: Tr> { #[allow(unused)] V0 { #[allow(unused)] f0: Any<Ph<'a, T>>, m0: Ph<'a, (T, )> }, /** doc */ V1 { f0: Maybe<Comma, ::parsel::ast::Bracket<T>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D195<T: Clone, U: Clone> { V0(Paren<T>, Co<T>, Co<U>), V1(#[parsel(recursive)] Box<Self>, Any<Box<Brace<Many<LitInt>>>>, Either<Paren<Brace<Many<At>>>, Paren<U>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D196<T: Tr, U: Tr, const N: usize = 2> { V0(Maybe<Comma, Separated<<U as Tr>::Out, Comma>>, Paren<Box<Box<U::Out>>>, Paren<U::Out>, U, Co<T>, Co<U>), V1(::parsel::ast::Bracket<<T as Tr>::Out>, ::parsel::ast::Bracket<<T as Tr>::Out>), V2 { f0: Box<Separated<Separated<<U as Tr>::Out, Comma>, Comma>>, f1: U, f2: T, f3: Brace<Many<<U as Tr>::Out>>, f4: LitInt, f5: T } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D197 { V0, /** doc */ V1(::parsel::ast::Bracket<Separated<Id, Comma>>, Paren<Any<Box<Id>>>, ::parsel::ast::Bracket<Separated<Id, Comma>>), V2, V3 { #[parsel(recursive = false)] f0: At, f1: Maybe<At, Any<LitInt>>, f2: Id }, V4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D198<T, U: ::parsel::ToTokens>
where T: Clone + core::fmt::Debug { f0: Maybe<Comma, Separated<Maybe<At, U>, Comma>>, #[parsel(recursive = false)] f1: Any<Any<::parsel::ast::Bracket<At>>>, pub f2: T, #[allow(unused)] pub f3: Box<(U, Id)>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D199<T, U: Tr>
where T: Clone + core::fmt::Debug { V0(U, <U as Tr>::Out, Paren<Maybe<Comma, Separated<T, Comma>>>, Co<T>, Co<U>), V1 { f0: Box<Either<Id, Any<U>>>, f1: Box<Box<Either<U::Out, At>>>, f2: Brace<Many<::parsel::ast::Bracket<Either<Id, U>>>>, f3: Box<Maybe<Comma, T>>, f4: U, f5: U }, V2 {  } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D200<T, U: ::parsel::ToTokens, W: Clone>
where T: Clone + core::fmt::Debug { m0: Co<T>, m1: Co<U>, m2: Co<W> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D201 { #[allow(dead_code)] V0 { #[parsel(recursive)] f0: Paren<Box<Self>> } = 1, #[allow(dead_code)] V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D202<'a, T, const N: usize>(Id, pub Arr<N>, Ph<'a, (T, )>)
where T: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D203<T, U: Tr, W>
where Paren<W>: ::parsel::Parse { #[allow(dead_code)] V0 { m0: Co<T>, m1: Co<U>, m2: Co<W> } = 1, V1(), #[allow(dead_code)] V2() = 7 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D204<T, U, W = Id>
where W: Clone + core::fmt::Debug { #[allow(unused)] V0 { f0: ::parsel::ast::Bracket<Either<At, (At, (U, (Comma,)))>>, #[allow(unused)] f1: Brace<Many<(At, (W, (Comma,)))>>, f2: ::parsel::ast::Bracket<Paren<::parsel::ast::Bracket<W>>>, f3: Separated<*const U, Comma>, f4: Separated<Separated<Result<U, Id>, Comma>, Comma>, f5: Separated<*const U, Comma>, m0: Co<T>, m1: Co<U>, m2: Co<W> }, #[allow(unused)] V1(Box<Any<(U, Id)>>, Vec<T>), V2(), #[allow(unused)] V3, /** doc */ V4() }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D205<'a, T, U: Tr, const N: usize>
where T: Tr, T: 'a { /** doc */ V0(T, Ph<'a, (T, U, )>), V1(#[parsel(recursive = true)] Box<Maybe<At, Bracket<self::D205<'a, T, U, N>>>>, #[parsel(recursive = false)] T, Either<U, Arr<N>>, U::Out, Paren<Paren<At>>, Maybe<Comma, Maybe<Comma, U>>), V2 { f0: Separated<Either<Any<U>, U>, Comma>, f1: U, f2: Id, f3: Any<Either<Box<Ph<'a, T>>, <T as Tr>::Out>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D206<T>(Box<Id>, Co<T>)
where T: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D207<T = Id>
where Paren<T>: ::parsel::Parse { /** doc */ V0(At, T, Co<T>), V1, V2(Either<At, Paren<Brace<Many<T>>>>, Box<Id>), /** doc */ V3 { #[parsel(recursive)] f0: Brace<Separated<self::D207<T>, Comma>>, f1: Maybe<Comma, Brace<Many<Id>>>, #[parsel(recursive)] f2: Box<Any<Self>>, #[allow(unused)] #[parsel(recursive)] f3: Box<Any<self::D207<T>>>, #[parsel(recursive)] f4: Maybe<At, Box<Self>>, f5: Any<Separated<T, Comma>> }, /** doc */ V4 { #[parsel(recursive)] f0: Box<self::D207<T>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D208<T, U = Id, const N: usize = 2>(Co<T>, Co<U>)
where T: Clone + core::fmt::Debug, U: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D209 {  }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D210<'a, T: Clone>(pub T, pub Paren<Either<Box<Ph<'a, T>>, Separated<T, Comma>>>, Ph<'a, (T, )>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D211<T, U> { /** doc */ V0 { f0: Box<Brace<Many<Maybe<At, Id>>>>, #[parsel(recursive = false)] f1: Id, m0: Co<T>, m1: Co<U> }, /** doc */ V1 { f0: Either<Any<Box<Id>>, T> }, V2 { f0: T, f1: Paren<Either<Separated<Id, Comma>, LitInt>> }, #[allow(unused)] V3, V4(LitInt, LitInt) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D212<'a, T, U>
where Paren<T>: ::parsel::Parse, U: Tr { f0: <U as Tr>::Out, m0: Ph<'a, (T, U, )> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D213<T> { #[parsel(recursive = false)] pub f0: Separated<T, Comma>, #[parsel(recursive = false)] pub f1: Maybe<At, At>, #[parsel(recursive = true)] pub f2: Paren<Box<Self>>, pub f3: Separated<Brace<Many<Maybe<At, T>>>, Comma>, pub f4: Id, f5: Id, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D214<T, U: Clone> { V0 { f0: Maybe<At, Either<Maybe<At, core::marker::PhantomData<U>>, Box<At>>>, f1: Id, m0: Co<T>, m1: Co<U> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D215<'a, T, U = Id, const N: usize = 2>(Any<T>, At, T, Box<Paren<T>>, pub Id, pub Maybe<Comma, ::parsel::ast::Bracket<Either<LitInt, Id>>>, Ph<'a, (T, U, )>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D216<T, U, const N: usize = 2>(pub Paren<T>, Co<T>, Co<U>)
where T: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D217 { V0(), #[allow(dead_code)] V1 { #[parsel(recursive = true)] f0: Maybe<At, Box<D217>>, #[parsel(recursive)] f1: Box<Any<Self>> } = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D218<T>
where T: Tr { V0((T,), At, #[parsel(recursive = false)] (T,), #[parsel(recursive)] Paren<Box<self::D218<T>>>, Co<T>), /** doc */ V1 {  } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D219<T, U: Tr>(#[parsel(recursive = false)] Paren<Brace<Many<Either<T, T>>>>, #[parsel(recursive = false)] Either<Paren<Paren<At>>, Brace<Many<Either<At, <U as Tr>::Out>>>>, Co<T>, Co<U>)
where T: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D220<T>
where Paren<T>: ::parsel::Parse { f0: Paren<Either<LitInt, LitInt>>, f1: Id, pub f2: T, f3: At, #[parsel(recursive = false)] f4: LitInt, pub f5: T, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D221<T: Tr, U: Tr, const N: usize>(pub [T; 2], #[allow(unused)] Separated<Brace<Many<Maybe<At, Result<U, Id>>>>, Comma>, pub fn() -> T, [T; 2], #[parsel(recursive = false)] (At, (T, (Comma,))), #[parsel(recursive = false)] pub <T as Tr>::Out, Co<T>, Co<U>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D222<T: Tr>(pub Maybe<At, T>, Box<Either<T, Paren<T>>>, #[allow(unused)] #[parsel(recursive)] pub Brace<Separated<Self, Comma>>, LitInt, #[parsel(recursive = false)] pub Any<T::Out>, #[parsel(recursive)] pub Box<Maybe<At, Bracket<self::D222<T>>>>, Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D223<T: Tr, U>
where U: Clone + core::fmt::Debug { V0(Maybe<At, Either<Id, Maybe<Comma, U>>>, #[parsel(recursive = false)] LitInt, Co<T>, Co<U>) = 1, V1 {  } = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D224<T, U>(Co<T>, Co<U>)
where T: 'static, U: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D225<T: Tr, U: Clone, W>(Maybe<Comma, T>, #[parsel(recursive = false)] pub Paren<T>, #[allow(unused)] Paren<Separated<T, Comma>>, pub Brace<Many<T>>, U, pub U, Co<T>, Co<U>, Co<W>)
where W: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D226<'a, T, U: ::parsel::ToTokens, const N: usize>
where T: Tr { V0 { f0: LitInt, m0: Ph<'a, (T, U, )> }, #[allow(unused)] V1 { #[parsel(recursive = false)] f0: Maybe<Comma, Paren<U>>, #[allow(unused)] #[parsel(recursive)] f1: Maybe<At, Box<D226<'a, T, U, N>>>, f2: Separated<T, Comma>, #[parsel(recursive)] f3: Maybe<At, Box<D226<'a, T, U, N>>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D227<'a, T, U, W>(Maybe<At, U>, pub Maybe<Comma, Paren<Maybe<At, U>>>, Maybe<At, U>, Ph<'a, (T, U, W, )>)
where T: 'static, U: Tr, T: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D228<T, U: Clone>(Id, Co<T>, Co<U>)
where T: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D229<'a, T = Id>
where Paren<T>: ::parsel::Parse { /** doc */ V0(#[parsel(recursive)] Box<Maybe<At, Bracket<Self>>>, T, Ph<'a, (T, )>), V1, V2(Maybe<Comma, Either<At, Ph<'a, T>>>, T, #[parsel(recursive = true)] Any<self::D229<'a, T>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D230<T, U, W: Clone, const N: usize = 2>
where Paren<T>: ::parsel::Parse, U: Tr { V0 { m0: Co<T>, m1: Co<U>, m2: Co<W> } = 1, V1(#[parsel(recursive = false)] Separated<T, Comma>, Maybe<Comma, Arr<N>>, Separated<Box<Any<W>>, Comma>, #[parsel(recursive = false)] Separated<T, Comma>) = 4, V2 { f0: Either<Paren<W>, U>, f1: <U as Tr>::Out } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D231<T, const N: usize>
where T: Tr { #[allow(unused)] V0(T, Arr<N>, Co<T>), #[allow(unused)] V1(), V2 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D232<'a, T, U: Tr, const N: usize>
where T: 'a { f0: Ph<'a, T>, f1: T, #[allow(unused)] pub f2: Either<Paren<U>, Brace<Many<Maybe<At, U>>>>, pub f3: U::Out, m0: Ph<'a, (T, U, )> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D233<'a, T: Clone, U> { f0: Id, #[allow(unused)] pub f1: At, pub f2: T, m0: Ph<'a, (T, U, )> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D234<'a, T, U: Tr, W>
where T: 'static, T: 'a { V0 { f0: U, f1: Either<W, Maybe<At, U::Out>>, #[parsel(recursive = false)] f2: Any<Id>, #[allow(unused)] f3: Maybe<At, Paren<Paren<U>>>, m0: Ph<'a, (T, U, W, )> }, V1(<U as Tr>::Out, T, W, LitInt) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D235<'a, T, U: Clone = Id>(#[allow(unused)] pub Maybe<At, Separated<U, Comma>>, Ph<'a, (T, U, )>)
where T: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D236<const N: usize>(#[parsel(recursive = false)] Paren<Brace<Many<Box<Id>>>>, pub Box<Paren<Arr<N>>>, At, #[parsel(recursive = false)] Paren<Brace<Many<Box<Id>>>>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D237<T: Tr, U: Tr, W: Tr> { #[allow(dead_code)] V0 { f0: Vec<Option<T>>, f1: Maybe<At, Brace<Many<Paren<U::Out>>>>, m0: Co<T>, m1: Co<U>, m2: Co<W> } = 1, V1 {  }, V2 = 7, #[allow(dead_code)] V3(::parsel::ast::Bracket<fn(T) -> Id>, ::parsel::ast::Bracket<fn(T) -> Id>) = 10, #[allow(dead_code)] V4 { f0: (W,), f1: Box<Maybe<Comma, [U; 2]>>, #[allow(unused)] f2: Box<dyn Fn(U) -> Id>, f3: (T,) } = 13 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D238<T> { #[allow(dead_code)] V0(#[parsel(recursive)] Any<Self>, T, #[parsel(recursive)] Any<self::D238<T>>, #[parsel(recursive)] Box<D238<T>>, Co<T>), #[allow(dead_code)] V1 = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D239<T: ::parsel::ToTokens> { V0(Brace<Many<At>>, Brace<Many<LitInt>>, Co<T>), V1 {  } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D240<T, U: Clone, const N: usize>
where T: 'static { #[allow(unused)] V0(#[parsel(recursive)] Box<Self>, Co<T>, Co<U>), #[allow(unused)] V1 { #[parsel(recursive)] f0: Maybe<At, Box<self::D240<T, U, N>>>, #[parsel(recursive = false)] f1: LitInt, f2: U, f3: Any<T>, f4: Separated<Paren<::parsel::ast::Bracket<T>>, Comma>, #[parsel(recursive)] f5: Box<D240<T, U, N>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D241 { V0, /** doc */ V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D242;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D243<'a, T: Tr, U, const N: usize = 2>(#[parsel(recursive)] pub Box<Maybe<At, Bracket<D243<'a, T, U, N>>>>, Ph<'a, (T, U, )>)
where U: Tr, T: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D244<T = Id, const N: usize = 2> { #[allow(unused)] V0(At, T, T, Co<T>), V1(Arr<N>, Separated<Paren<::parsel::ast::Bracket<T>>, Comma>, T, Arr<N>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D245<T, const N: usize = 2>
where for<'z> &'z T: Clone { /** doc */ V0 { f0: LitInt, m0: Co<T> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D246<'a>(#[parsel(recursive)] Box<Any<Self>>, #[parsel(recursive)] Paren<Box<Self>>, pub ::parsel::ast::Bracket<Id>, Ph<'a, ()>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D247<T: Clone, U, W: Clone> { V0(#[parsel(recursive = false)] Box<::parsel::ast::Bracket<W>>, W, #[allow(unused)] Either<U, Maybe<At, Box<LitInt>>>, U, Separated<U, Comma>, U, Co<T>, Co<U>, Co<W>), /** doc */ V1 { f0: U } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D248<T, U>(pub Separated<Brace<Many<Paren<T>>>, Comma>, #[parsel(recursive)] pub Box<Any<self::D248<T, U>>>, #[parsel(recursive)] Paren<Box<self::D248<T, U>>>, #[parsel(recursive)] pub Maybe<At, Box<Self>>, Co<T>, Co<U>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D249<'a> { V0(Ph<'a, ()>), /** doc */ V1, /** doc */ V2, #[allow(unused)] V3, V4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D250<'a, T, U = Id, const N: usize = 2>
where U: Clone + core::fmt::Debug { V0 { f0: Brace<Many<T>>, f1: T, f2: Paren<Paren<LitInt>>, f3: Separated<Brace<Many<T>>, Comma>, m0: Ph<'a, (T, U, )> }, V1(Either<T, Maybe<At, Box<T>>>), V2 {  }, V3 { f0: Separated<T, Comma>, f1: Arr<N>, f2: LitInt, f3: T }, V4(T, T) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D251<T, U> { V0(Co<T>, Co<U>) = 1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D252<T>(pub T::Out, pub Either<Id, Separated<Brace<Many<T>>, Comma>>, #[parsel(recursive = false)] pub T, Co<T>)
where T: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D253<T: Tr, U: Clone> { f0: (U,), f1: Either<Paren<Vec<Option<T>>>, Paren<Box<T>>>, f2: LitInt, f3: Any<Separated<Separated<Id, Comma>, Comma>>, f4: Id, pub f5: core::marker::PhantomData<T>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D254<T, U, W>(#[parsel(recursive)] pub Paren<Box<D254<T, U, W>>>, pub Any<U>, #[parsel(recursive)] pub Paren<Box<D254<T, U, W>>>, pub ::parsel::ast::Bracket<Any<LitInt>>, pub At, U, Co<T>, Co<U>, Co<W>)
where for<'z> &'z T: Clone, U: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D255<T, U: Tr, const N: usize>
where T: Tr { V0 { m0: Co<T>, m1: Co<U> } = 1, #[allow(dead_code)] V1(#[allow(unused)] U::Out, U, #[allow(unused)] #[parsel(recursive)] Paren<Box<D255<T, U, N>>>, #[allow(unused)] U::Out) = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D256<T: Tr> { V0(T::Out, Co<T>) = 1, #[allow(dead_code)] V1(LitInt, T, T, T::Out) = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D257 { f0: Id }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D258<'a, T, U, const N: usize>
where U: Tr { V0(Brace<Many<*const T>>, At, Ph<'a, (T, U, )>), V1([U; 2]), V2(Separated<fn() -> U, Comma>, fn(T) -> Id) = 7, #[allow(dead_code)] V3(#[parsel(recursive = false)] Box<Separated<Arr<N>, Comma>>) = 10, #[allow(dead_code)] V4 { f0: Paren<Vec<Option<T>>> } = 13 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D259<'a, T, U: Tr>(Ph<'a, (T, U, )>)
where T: 'a;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D260 {  }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D261<T>(#[parsel(recursive)] pub Brace<Separated<self::D261<T>, Comma>>, #[parsel(recursive)] Box<Maybe<At, Bracket<D261<T>>>>, #[parsel(recursive = false)] Brace<Many<Id>>, Separated<::parsel::ast::Bracket<Paren<LitInt>>, Comma>, Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D262<'a> { V0(Id, Ph<'a, ()>), #[allow(unused)] V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D263<const N: usize> { V0 { f0: Box<Separated<Paren<Id>, Comma>>, #[parsel(recursive = false)] f1: Paren<Maybe<Comma, At>>, f2: Id, f3: LitInt, f4: LitInt, f5: Id }, /** doc */ V1(Brace<Many<Id>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D264 { V0 { #[parsel(recursive = false)] f0: At, f1: Paren<At>, f2: Paren<Paren<At>>, f3: Id }, V1(Id, #[parsel(recursive)] Paren<Box<D264>>), V2(), V3 { #[parsel(recursive = true)] f0: Box<D264>, f1: Paren<::parsel::ast::Bracket<At>>, f2: Separated<Box<Any<LitInt>>, Comma> }, V4 { f0: Either<At, Any<At>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D265<T, const N: usize>
where T: Tr { V0 { m0: Co<T> } = 1, #[allow(dead_code)] V1(Brace<Many<Paren<Maybe<Comma, T>>>>, Brace<Many<Paren<Maybe<Comma, T>>>>) = 4, #[allow(dead_code)] V2(Vec<T>, Vec<T>) = 7, #[allow(dead_code)] V3 {  } = 10, V4 = 13 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D266<T, const N: usize>(Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D267<T, U = Id>(U, ::parsel::ast::Bracket<Id>, Co<T>, Co<U>)
where U: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D268<T>
where T: Tr { V0(Any<Any<Either<T, At>>>, T, Co<T>), #[allow(dead_code)] V1 { f0: Paren<At>, #[parsel(recursive = false)] f1: <T as Tr>::Out, f2: Any<Box<T>> } = 4, V2 { #[parsel(recursive = false)] f0: T, f1: LitInt } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D269<'a, T, U>
where U: 'static, T: 'a { #[allow(unused)] V0(*const T, #[parsel(recursive = false)] Box<Option<U>>, Ph<'a, (T, U, )>), V1((U,), Separated<fn() -> U, Comma>, U, Maybe<At, core::marker::PhantomData<U>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D270<T = Id> { #[allow(unused)] f0: T, #[allow(unused)] #[parsel(recursive)] pub f1: Box<D270<T>>, pub f2: At, #[parsel(recursive)] pub f3: Box<Maybe<At, Bracket<D270<T>>>>, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D271<T: Clone> { pub f0: Paren<Box<Box<Id>>>, f1: Id, #[allow(unused)] #[parsel(recursive)] pub f2: Brace<Separated<Self, Comma>>, #[parsel(recursive = false)] pub f3: Id, #[allow(unused)] pub f4: T, pub f5: Paren<T>, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D272<T> { V0(#[allow(unused)] #[parsel(recursive)] Any<Self>, T, Co<T>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D273<'a> { #[allow(dead_code)] V0(Ph<'a, Id>, LitInt, Ph<'a, Id>, Id, #[allow(unused)] #[parsel(recursive)] Box<Maybe<At, Bracket<self::D273<'a>>>>, Ph<'a, Id>, Ph<'a, ()>), V1(#[parsel(recursive = false)] ::parsel::ast::Bracket<Id>, LitInt, LitInt, Ph<'a, Id>) = 4, V2(#[allow(unused)] At, #[parsel(recursive)] Maybe<At, Box<D273<'a>>>), #[allow(dead_code)] V3(#[allow(unused)] #[parsel(recursive)] Box<Any<D273<'a>>>, #[allow(unused)] #[parsel(recursive)] Box<Any<D273<'a>>>) = 10, V4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D274 { pub f0: At }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D275<T, U>
where T: Tr { V0(#[allow(unused)] Option<U>, Brace<Many<Brace<Many<Paren<T::Out>>>>>, [Paren<U>; 3], Co<T>, Co<U>) = 1, #[allow(dead_code)] V1 { f0: U } = 4, #[allow(dead_code)] V2 = 7 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D276<T> { f0: Paren<::parsel::ast::Bracket<Id>>, #[parsel(recursive)] f1: Box<Maybe<At, Bracket<self::D276<T>>>>, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D277<T, U: ::parsel::ToTokens>
where Paren<T>: ::parsel::Parse { #[allow(dead_code)] V0(U, Co<T>, Co<U>) = 1, V1(U) = 4, V2(#[parsel(recursive)] Brace<Separated<D277<T, U>, Comma>>, Maybe<At, Box<Any<T>>>), #[allow(dead_code)] V3, #[allow(dead_code)] V4 {  } = 13 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D278<T, U, W: Clone, const N: usize = 2>(Any<T>, Co<T>, Co<U>, Co<W>)
where for<'z> &'z T: Clone, U: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D279<'a, const N: usize> { V0(Maybe<Comma, Any<Id>>, Ph<'a, ()>) = 1, V1 {  } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D280<T, U: Tr, W>(T, Co<T>, Co<U>, Co<W>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D281<T>(LitInt, At, Brace<Many<Brace<Many<LitInt>>>>, pub T, At, LitInt, Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D282<'a, T: ::parsel::ToTokens = Id> { V0 { #[allow(unused)] f0: Separated<Maybe<Comma, Brace<Many<Id>>>, Comma>, f1: T, f2: Id, f3: Separated<T, Comma>, f4: Separated<LitInt, Comma>, f5: Paren<T>, m0: Ph<'a, (T, )> } = 1, #[allow(dead_code)] V1(LitInt, Box<Ph<'a, T>>) = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D283<T> { #[allow(unused)] V0(::parsel::ast::Bracket<fn() -> T>, Co<T>), #[allow(unused)] V1 { f0: Brace<Many<::parsel::ast::Bracket<T>>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D284 {  }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D285<T: Clone, U>(Co<T>, Co<U>)
where U: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D286<'a, T, U>
where Paren<T>: ::parsel::Parse, U: Clone + core::fmt::Debug { #[allow(dead_code)] V0(Any<Paren<T>>, Ph<'a, (T, U, )>), #[allow(dead_code)] V1 = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D287 { pub f0: Box<Brace<Many<LitInt>>> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D288<T: ::parsel::ToTokens, U> { V0(Box<Paren<Maybe<Comma, *const T>>>, Paren<Box<T>>, core::marker::PhantomData<U>, Co<T>, Co<U>), V1(U), /** doc */ V2 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D289 { #[allow(unused)] V0() }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D290<T, U>(Box<Paren<Separated<T::Out, Comma>>>, pub Brace<Many<Box<U>>>, U, Co<T>, Co<U>)
where T: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D291<T, U: Tr, const N: usize> { V0 { m0: Co<T>, m1: Co<U> }, /** doc */ V1(Separated<Separated<Arr<N>, Comma>, Comma>), V2(), V3 { f0: Arr<N> }, V4() }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D292<T: Tr, U> { #[allow(dead_code)] V0(#[parsel(recursive = true)] Brace<Separated<D292<T, U>, Comma>>, Co<T>, Co<U>) = 1, V1(#[allow(unused)] #[parsel(recursive)] Any<D292<T, U>>), #[allow(dead_code)] V2 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D293<T = Id> { #[allow(dead_code)] V0(::parsel::ast::Bracket<Box<Paren<LitInt>>>, Brace<Many<T>>, Co<T>) = 1, V1 = 4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D294<T: Tr>(#[allow(unused)] #[parsel(recursive)] pub Brace<Separated<self::D294<T>, Comma>>, [Paren<T>; 3], Co<T>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D295<T: Tr> { /** doc */ V0(Co<T>), /** doc */ V1(#[parsel(recursive)] Box<Maybe<At, Bracket<self::D295<T>>>>, #[parsel(recursive)] Any<self::D295<T>>, #[allow(unused)] #[parsel(recursive)] Box<D295<T>>, #[allow(unused)] #[parsel(recursive)] Paren<Box<D295<T>>>, #[parsel(recursive)] Brace<Separated<D295<T>, Comma>>, #[parsel(recursive = true)] Box<Any<Self>>), V2 { #[parsel(recursive)] f0: Brace<Separated<self::D295<T>, Comma>>, #[parsel(recursive = true)] f1: Paren<Box<self::D295<T>>>, #[parsel(recursive)] f2: Brace<Separated<D295<T>, Comma>> }, V3 { f0: Either<<T as Tr>::Out, Maybe<Comma, <T as Tr>::Out>> }, #[allow(unused)] V4(#[parsel(recursive)] Box<Maybe<At, Bracket<D295<T>>>>, T, T, Separated<Either<T, Separated<At, Comma>>, Comma>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D296<const N: usize>;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D297(pub LitInt, #[parsel(recursive = false)] Id);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D298 {  }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D299<T, U: Clone, W: Tr, const N: usize>(pub (U, Id), pub At, pub W, ::parsel::ast::Bracket<W>, Brace<Many<W>>, pub ::parsel::ast::Bracket<::parsel::ast::Bracket<Separated<T, Comma>>>, Co<T>, Co<U>, Co<W>)
where Paren<T>: ::parsel::Parse;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D300<T, U, W>
where T: Tr, U: Clone + core::fmt::Debug { pub f0: Brace<Many<Paren<Separated<U, Comma>>>>, #[parsel(recursive = false)] f1: ::parsel::ast::Bracket<U>, m0: Co<T>, m1: Co<U>, m2: Co<W> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D301<'a, T: Tr, const N: usize>(pub Maybe<At, *const T>, #[allow(unused)] #[parsel(recursive)] pub Box<Any<Self>>, Brace<Many<Separated<T, Comma>>>, #[allow(unused)] #[parsel(recursive)] pub Maybe<At, Box<Self>>, Ph<'a, (T, )>);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D302<T: Tr, U: Tr> { #[parsel(recursive = false)] pub f0: Box<<U as Tr>::Out>, pub f1: U, pub f2: T, f3: T::Out, f4: T, f5: Box<At>, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D303 { V0(At, #[parsel(recursive)] Box<Any<Self>>, #[allow(unused)] #[parsel(recursive)] Box<self::D303>, At), V1 { #[parsel(recursive = true)] f0: Brace<Separated<D303, Comma>>, #[allow(unused)] #[parsel(recursive)] f1: Brace<Separated<D303, Comma>> }, #[allow(unused)] V2(LitInt), V3(#[parsel(recursive = false)] At, LitInt, LitInt), V4 { f0: Separated<Maybe<Comma, Paren<LitInt>>, Comma>, f1: Box<Brace<Many<LitInt>>>, #[parsel(recursive)] f2: Box<Maybe<At, Bracket<Self>>>, #[allow(unused)] #[parsel(recursive)] f3: Paren<Box<Self>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D304<T, const N: usize = 2>
where T: Clone + core::fmt::Debug { pub f0: ::parsel::ast::Bracket<Paren<At>>, f1: At, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D305<const N: usize> { #[allow(unused)] V0 { #[parsel(recursive = false)] f0: Id, #[parsel(recursive = false)] f1: ::parsel::ast::Bracket<Id>, f2: Arr<N>, f3: Arr<N> }, /** doc */ V1(#[allow(unused)] Id) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D306<T: Tr> { V0(#[parsel(recursive)] Box<D306<T>>, At, Co<T>), /** doc */ V1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
#[repr(u8)]
pub enum D307<'a, const N: usize> { #[allow(dead_code)] V0(#[parsel(recursive)] Any<self::D307<'a, N>>, Paren<Any<Box<Id>>>, Ph<'a, ()>) = 1 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D308<T> { pub f0: T, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D309<T, U>(pub Maybe<Comma, U>, #[parsel(recursive = false)] Box<T>, pub Maybe<At, Separated<Box<Id>, Comma>>, U, Any<T>, pub Maybe<Comma, U>, Co<T>, Co<U>)
where T: Tr;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D310<'a, T = Id> { #[allow(unused)] V0 { f0: Id, #[parsel(recursive = false)] f1: Brace<Many<Box<T>>>, m0: Ph<'a, (T, )> }, /** doc */ V1 { f0: At, f1: Box<Brace<Many<Maybe<Comma, At>>>> }, V2(), #[allow(unused)] V3(LitInt, T), V4 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D311<T: Tr, U: Tr, const N: usize> { /** doc */ V0(#[parsel(recursive = false)] Maybe<At, T>, T, Co<T>, Co<U>), V1(Paren<T>, #[parsel(recursive = true)] Box<Maybe<At, Bracket<Self>>>), V2 { #[parsel(recursive)] f0: Box<self::D311<T, U, N>> } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D312<T, U = Id>
where Paren<T>: ::parsel::Parse { /** doc */ V0(#[parsel(recursive = false)] Vec<Option<U>>, Separated<fn(U) -> Id, Comma>, Vec<T>, #[parsel(recursive = false)] fn(T) -> Id, T, Maybe<Comma, Paren<T>>, Co<T>, Co<U>), V1(::parsel::ast::Bracket<U>), V2 {  }, #[allow(unused)] V3(), #[allow(unused)] V4 { f0: T, f1: Any<::parsel::ast::Bracket<Box<LitInt>>>, f2: fn() -> T, f3: [T; 2] } }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D313<T, U: Tr, W> { V0(::parsel::ast::Bracket<Paren<Separated<U, Comma>>>, Co<T>, Co<U>, Co<W>), #[allow(unused)] V1 { #[allow(unused)] f0: U }, V2 }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub enum D314 { V0, #[allow(unused)] V1(#[allow(unused)] Id, Either<LitInt, Any<Id>>, Paren<Separated<LitInt, Comma>>) }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D315(LitInt);

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D316<T = Id, const N: usize = 2>
where T: Clone + core::fmt::Debug { pub f0: Separated<Paren<T>, Comma>, f1: LitInt, pub f2: Either<Any<Arr<N>>, T>, pub f3: T, f4: Arr<N>, #[allow(unused)] pub f5: ::parsel::ast::Bracket<Brace<Many<At>>>, m0: Co<T> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D317<T = Id, const N: usize = 2>(Paren<::parsel::ast::Bracket<T>>, Separated<Id, Comma>, Any<::parsel::ast::Bracket<Brace<Many<At>>>>, Co<T>)
where T: Clone + core::fmt::Debug;

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D318<T: Clone, U = Id, const N: usize = 2> { pub f0: Separated<Maybe<At, Paren<T>>, Comma>, f1: U, m0: Co<T>, m1: Co<U> }

#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]
pub struct D319<T: Tr>(Co<T>);

pub fn uses() {
    ok::<H0<Id>>();
    ok::<H2>();
    ok::<H3>();
    ok::<H4>();
    ok::<H5>();
    ok::<H6>();
    ok::<H7<Id>>();
    ok::<H8<Id, LitInt>>();
    ok::<H9<Id>>();
    ok::<H10<Id>>();
    ok::<H12<2, true>>();
    ok::<H13<'static, 'static, Id>>();
    ok::<H14>();
    ok::<H15<Id>>();
    ok::<H16<Id>>();
    ok::<H17>();
    ok::<r#type<Id>>();
    ok::<H18<Id>>();
    ok::<H19<Id, Id>>();
    ok::<H20<Id>>();
    ok::<H21<Id>>();
    ok::<H22<Id>>();
    ok::<H23<Id>>();
    ok::<H24<Id, Id>>();
    ok::<H25<Id, LitInt>>();
    ok::<H26<Id, LitInt>>();
    ok::<H27<Id>>();
    ok::<H28<Id>>();
    ok::<H29<Id>>();
    ok::<H31<Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id>>();
    ok::<H32<Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id, Id>>();
    ok::<H33<Id>>();
    ok::<H34<Id, LitInt>>();
    ok::<H35<Id, Id, Id, Id>>();
    ok::<H36<Id, Id>>();
    ok::<H37<Id>>();
    ok::<H38<Id>>();
    ok::<H39<Id>>();
    ok::<H42<Id, LitInt>>();
    ok::<D0<Id, LitInt, 3>>();
    ok::<D2<'static, 3>>();
    ok::<D3<Id>>();
    ok::<D4<'static, LitInt>>();
    ok::<D6<Id, Id, Id>>();
    ok::<D7<Id, Id>>();
    ok::<D8<Id>>();
    ok::<D10<Id, Id>>();
    ok::<D11<'static, Id>>();
    ok::<D12<Id>>();
    ok::<D13>();
    ok::<D14<'static, 3>>();
    ok::<D15<'static, LitInt>>();
    ok::<D16<LitInt, LitInt>>();
    ok::<D17>();
    ok::<D18<LitInt, Id, Id, 3>>();
    ok::<D19<LitInt, Id, Id>>();
    ok::<D20<Id>>();
    ok::<D21<LitInt, Id, LitInt>>();
    ok::<D22<'static, LitInt>>();
    ok::<D24<'static, LitInt, Id>>();
    ok::<D26<Id, LitInt, LitInt>>();
    ok::<D28<LitInt>>();
    ok::<D29<LitInt, Id>>();
    ok::<D30<Id, LitInt>>();
    ok::<D31<LitInt, Id>>();
    ok::<D33<'static, Id, Id>>();
    ok::<D34<Id, LitInt>>();
    ok::<D35<Id, LitInt, Id>>();
    ok::<D36<LitInt, LitInt>>();
    ok::<D38<Id, LitInt, 3>>();
    ok::<D39<Id, LitInt>>();
    ok::<D40<Id, LitInt>>();
    ok::<D41<LitInt, LitInt, Id>>();
    ok::<D42<Id, 3>>();
    ok::<D43<LitInt>>();
    ok::<D44<Id, Id>>();
    ok::<D45<Id, Id, 3>>();
    ok::<D46<Id>>();
    ok::<D47<LitInt>>();
    ok::<D48>();
    ok::<D51>();
    ok::<D52<LitInt, Id>>();
    ok::<D54<LitInt, Id>>();
    ok::<D55<LitInt, Id>>();
    ok::<D56<'static, LitInt>>();
    ok::<D57<LitInt, Id, LitInt>>();
    ok::<D58>();
    ok::<D59<Id, LitInt>>();
    ok::<D62>();
    ok::<D63>();
    ok::<D64<Id, LitInt, 3>>();
    ok::<D65<Id>>();
    ok::<D66<3>>();
    ok::<D67>();
    ok::<D68>();
    ok::<D69<Id, Id, LitInt>>();
    ok::<D70<Id, LitInt, 3>>();
    ok::<D71<LitInt, LitInt>>();
    ok::<D73<Id>>();
    ok::<D74>();
    ok::<D75<Id, LitInt, LitInt, 3>>();
    ok::<D76<'static, LitInt, Id, LitInt>>();
    ok::<D77<3>>();
    ok::<D80<Id, Id, LitInt>>();
    ok::<D81>();
    ok::<D83<'static, LitInt>>();
    ok::<D85<LitInt, Id>>();
    ok::<D87<'static, LitInt, LitInt, LitInt>>();
    ok::<D88<LitInt, Id>>();
    ok::<D89<'static, LitInt, LitInt, 3>>();
    ok::<D90<Id, 3>>();
    ok::<D91<LitInt, LitInt>>();
    ok::<D92<LitInt, 3>>();
    ok::<D93<Id>>();
    ok::<D95<Id, Id>>();
    ok::<D96<Id, LitInt>>();
    ok::<D98<Id, LitInt>>();
    ok::<D99<LitInt>>();
    ok::<D100<LitInt>>();
    ok::<D101<3>>();
    ok::<D102<LitInt, Id>>();
    ok::<D105<3>>();
    ok::<D106<Id, Id, LitInt, 3>>();
    ok::<D107>();
    ok::<D108<3>>();
    ok::<D109<Id, Id>>();
    ok::<D110<'static, Id>>();
    ok::<D111<LitInt, LitInt, LitInt>>();
    ok::<D112<3>>();
    ok::<D113<LitInt>>();
    ok::<D114<'static>>();
    ok::<D116<'static, Id, LitInt, LitInt>>();
    ok::<D118<LitInt, LitInt, LitInt, 3>>();
    ok::<D119>();
    ok::<D120<Id, Id, 3>>();
    ok::<D121<LitInt>>();
    ok::<D122<LitInt, 3>>();
    ok::<D125<Id, LitInt>>();
    ok::<D126<Id, Id>>();
    ok::<D127>();
    ok::<D128<Id, Id, Id>>();
    ok::<D129<Id, Id>>();
    ok::<D131<'static, Id, Id>>();
    ok::<D132<LitInt>>();
    ok::<D133<LitInt, Id, 3>>();
    ok::<D134>();
    ok::<D136<Id>>();
    ok::<D138<'static, Id>>();
    ok::<D139<LitInt>>();
    ok::<D140<Id, LitInt, LitInt>>();
    ok::<D141<Id, Id, 3>>();
    ok::<D143>();
    ok::<D144<LitInt, 3>>();
    ok::<D145<LitInt>>();
    ok::<D146<Id, LitInt, Id>>();
    ok::<D149<'static>>();
    ok::<D150<LitInt, LitInt, LitInt, 3>>();
    ok::<D151<'static, LitInt>>();
    ok::<D152<LitInt, LitInt, 3>>();
    ok::<D153<'static, LitInt>>();
    ok::<D154<LitInt, Id>>();
    ok::<D155<Id>>();
    ok::<D156<Id, 3>>();
    ok::<D157<Id, Id, Id>>();
    ok::<D158<LitInt, LitInt, Id, 3>>();
    ok::<D160<'static, Id, Id, 3>>();
    ok::<D161>();
    ok::<D162<LitInt, LitInt, 3>>();
    ok::<D163<LitInt, Id, LitInt>>();
    ok::<D164<LitInt>>();
    ok::<D166<'static, Id>>();
    ok::<D167<LitInt>>();
    ok::<D168<Id, Id>>();
    ok::<D169<Id, Id, 3>>();
    ok::<D170<'static, LitInt>>();
    ok::<D172<'static, Id, Id, LitInt>>();
    ok::<D174<'static, Id>>();
    ok::<D175<Id, 3>>();
    ok::<D176>();
    ok::<D177<'static, LitInt, LitInt, 3>>();
    ok::<D178<3>>();
    ok::<D180>();
    ok::<D181<LitInt, Id, Id>>();
    ok::<D182<LitInt, Id>>();
    ok::<D183<LitInt, 3>>();
    ok::<D184<Id, LitInt, LitInt>>();
    ok::<D185<'static, 3>>();
    ok::<D187<Id, LitInt, Id>>();
    ok::<D189<'static, LitInt, Id>>();
    ok::<D191<Id, LitInt>>();
    ok::<D192<'static, LitInt, LitInt, LitInt>>();
    ok::<D194<'static, Id>>();
    ok::<D195<LitInt, LitInt>>();
    ok::<D196<LitInt, Id, 3>>();
    ok::<D197>();
    ok::<D199<Id, Id>>();
    ok::<D201>();
    ok::<D202<'static, LitInt, 3>>();
    ok::<D205<'static, LitInt, Id, 3>>();
    ok::<D206<LitInt>>();
    ok::<D207<Id>>();
    ok::<D208<LitInt, Id, 3>>();
    ok::<D209>();
    ok::<D210<'static, Id>>();
    ok::<D211<LitInt, LitInt>>();
    ok::<D212<'static, Id, Id>>();
    ok::<D213<Id>>();
    ok::<D215<'static, LitInt, Id, 3>>();
    ok::<D216<LitInt, Id, 3>>();
    ok::<D217>();
    ok::<D219<LitInt, LitInt>>();
    ok::<D220<Id>>();
    ok::<D222<Id>>();
    ok::<D223<LitInt, Id>>();
    ok::<D224<LitInt, LitInt>>();
    ok::<D225<LitInt, LitInt, Id>>();
    ok::<D226<'static, LitInt, LitInt, 3>>();
    ok::<D227<'static, Id, Id, Id>>();
    ok::<D228<Id, Id>>();
    ok::<D229<'static, Id>>();
    ok::<D230<LitInt, Id, Id, 3>>();
    ok::<D232<'static, LitInt, Id, 3>>();
    ok::<D233<'static, LitInt, LitInt>>();
    ok::<D234<'static, Id, Id, Id>>();
    ok::<D235<'static, Id, Id>>();
    ok::<D236<3>>();
    ok::<D238<LitInt>>();
    ok::<D239<Id>>();
    ok::<D240<Id, Id, 3>>();
    ok::<D241>();
    ok::<D242>();
    ok::<D243<'static, LitInt, LitInt, 3>>();
    ok::<D244<LitInt, 3>>();
    ok::<D245<Id, 3>>();
    ok::<D246<'static>>();
    ok::<D247<LitInt, LitInt, Id>>();
    ok::<D248<LitInt, Id>>();
    ok::<D249<'static>>();
    ok::<D250<'static, Id, LitInt, 3>>();
    ok::<D251<LitInt, Id>>();
    ok::<D252<LitInt>>();
    ok::<D254<LitInt, LitInt, Id>>();
    ok::<D255<Id, Id, 3>>();
    ok::<D256<Id>>();
    ok::<D257>();
    ok::<D259<'static, LitInt, LitInt>>();
    ok::<D260>();
    ok::<D261<Id>>();
    ok::<D262<'static>>();
    ok::<D263<3>>();
    ok::<D264>();
    ok::<D266<Id, 3>>();
    ok::<D267<Id, LitInt>>();
    ok::<D268<LitInt>>();
    ok::<D270<Id>>();
    ok::<D271<LitInt>>();
    ok::<D272<LitInt>>();
    ok::<D273<'static>>();
    ok::<D274>();
    ok::<D276<Id>>();
    ok::<D277<Id, LitInt>>();
    ok::<D278<Id, Id, Id, 3>>();
    ok::<D279<'static, 3>>();
    ok::<D280<LitInt, Id, Id>>();
    ok::<D281<Id>>();
    ok::<D282<'static, Id>>();
    ok::<D284>();
    ok::<D285<Id, Id>>();
    ok::<D286<'static, LitInt, Id>>();
    ok::<D287>();
    ok::<D289>();
    ok::<D290<LitInt, LitInt>>();
    ok::<D291<LitInt, LitInt, 3>>();
    ok::<D292<Id, LitInt>>();
    ok::<D293<LitInt>>();
    ok::<D295<LitInt>>();
    ok::<D296<3>>();
    ok::<D297>();
    ok::<D298>();
    ok::<D300<Id, LitInt, LitInt>>();
    ok::<D302<Id, LitInt>>();
    ok::<D303>();
    ok::<D304<Id, 3>>();
    ok::<D305<3>>();
    ok::<D306<LitInt>>();
    ok::<D307<'static, 3>>();
    ok::<D309<LitInt, Id>>();
    ok::<D310<'static, Id>>();
    ok::<D311<LitInt, Id, 3>>();
    ok::<D313<LitInt, Id, Id>>();
    ok::<D314>();
    ok::<D315>();
    ok::<D316<Id, 3>>();
    ok::<D317<LitInt, 3>>();
    ok::<D318<Id, Id, 3>>();
    ok::<D319<LitInt>>();
}

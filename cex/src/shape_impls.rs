//! Generated by tools/gen_shapes.py.
use crate::gram::{HasG, Val, G as Gm};
use shapes::*;
use parsel::ast::{Any, Brace, Bracket, Either, LeftAssoc, Maybe, Paren, RightAssoc, Separated};

impl HasG for SN0 {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SN0", fields: vec![] } }
    fn val(&self) -> Val { Val::Node("SN0".into(), vec![]) }
}
impl HasG for ST0 {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "ST0", fields: vec![] } }
    fn val(&self) -> Val { Val::Node("ST0".into(), vec![]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug> HasG for SN1<A> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SN1", fields: vec![("f0", <A>::g())] } }
    fn val(&self) -> Val { Val::Node("SN1".into(), vec![("f0".into(), self.f0.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug> HasG for ST1<A> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "ST1", fields: vec![("0", <A>::g())] } }
    fn val(&self) -> Val { Val::Node("ST1".into(), vec![("0".into(), self.0.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for SN2<A, B> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SN2", fields: vec![("f0", <A>::g()), ("f1", <B>::g())] } }
    fn val(&self) -> Val { Val::Node("SN2".into(), vec![("f0".into(), self.f0.val()), ("f1".into(), self.f1.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for ST2<A, B> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "ST2", fields: vec![("0", <A>::g()), ("1", <B>::g())] } }
    fn val(&self) -> Val { Val::Node("ST2".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug> HasG for SN3<A, B, C> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SN3", fields: vec![("f0", <A>::g()), ("f1", <B>::g()), ("f2", <C>::g())] } }
    fn val(&self) -> Val { Val::Node("SN3".into(), vec![("f0".into(), self.f0.val()), ("f1".into(), self.f1.val()), ("f2".into(), self.f2.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug> HasG for ST3<A, B, C> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "ST3", fields: vec![("0", <A>::g()), ("1", <B>::g()), ("2", <C>::g())] } }
    fn val(&self) -> Val { Val::Node("ST3".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug> HasG for SN5<A, B, C, D, E> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SN5", fields: vec![("f0", <A>::g()), ("f1", <B>::g()), ("f2", <C>::g()), ("f3", <D>::g()), ("f4", <E>::g())] } }
    fn val(&self) -> Val { Val::Node("SN5".into(), vec![("f0".into(), self.f0.val()), ("f1".into(), self.f1.val()), ("f2".into(), self.f2.val()), ("f3".into(), self.f3.val()), ("f4".into(), self.f4.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug> HasG for ST5<A, B, C, D, E> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "ST5", fields: vec![("0", <A>::g()), ("1", <B>::g()), ("2", <C>::g()), ("3", <D>::g()), ("4", <E>::g())] } }
    fn val(&self) -> Val { Val::Node("ST5".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug, G: HasG + Clone + ::core::fmt::Debug, H: HasG + Clone + ::core::fmt::Debug> HasG for SN8<A, B, C, D, E, F, G, H> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SN8", fields: vec![("f0", <A>::g()), ("f1", <B>::g()), ("f2", <C>::g()), ("f3", <D>::g()), ("f4", <E>::g()), ("f5", <F>::g()), ("f6", <G>::g()), ("f7", <H>::g())] } }
    fn val(&self) -> Val { Val::Node("SN8".into(), vec![("f0".into(), self.f0.val()), ("f1".into(), self.f1.val()), ("f2".into(), self.f2.val()), ("f3".into(), self.f3.val()), ("f4".into(), self.f4.val()), ("f5".into(), self.f5.val()), ("f6".into(), self.f6.val()), ("f7".into(), self.f7.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug, G: HasG + Clone + ::core::fmt::Debug, H: HasG + Clone + ::core::fmt::Debug> HasG for ST8<A, B, C, D, E, F, G, H> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "ST8", fields: vec![("0", <A>::g()), ("1", <B>::g()), ("2", <C>::g()), ("3", <D>::g()), ("4", <E>::g()), ("5", <F>::g()), ("6", <G>::g()), ("7", <H>::g())] } }
    fn val(&self) -> Val { Val::Node("ST8".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug, G: HasG + Clone + ::core::fmt::Debug, H: HasG + Clone + ::core::fmt::Debug, I: HasG + Clone + ::core::fmt::Debug, J: HasG + Clone + ::core::fmt::Debug, K: HasG + Clone + ::core::fmt::Debug, L: HasG + Clone + ::core::fmt::Debug> HasG for SN12<A, B, C, D, E, F, G, H, I, J, K, L> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SN12", fields: vec![("f0", <A>::g()), ("f1", <B>::g()), ("f2", <C>::g()), ("f3", <D>::g()), ("f4", <E>::g()), ("f5", <F>::g()), ("f6", <G>::g()), ("f7", <H>::g()), ("f8", <I>::g()), ("f9", <J>::g()), ("f10", <K>::g()), ("f11", <L>::g())] } }
    fn val(&self) -> Val { Val::Node("SN12".into(), vec![("f0".into(), self.f0.val()), ("f1".into(), self.f1.val()), ("f2".into(), self.f2.val()), ("f3".into(), self.f3.val()), ("f4".into(), self.f4.val()), ("f5".into(), self.f5.val()), ("f6".into(), self.f6.val()), ("f7".into(), self.f7.val()), ("f8".into(), self.f8.val()), ("f9".into(), self.f9.val()), ("f10".into(), self.f10.val()), ("f11".into(), self.f11.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug, G: HasG + Clone + ::core::fmt::Debug, H: HasG + Clone + ::core::fmt::Debug, I: HasG + Clone + ::core::fmt::Debug, J: HasG + Clone + ::core::fmt::Debug, K: HasG + Clone + ::core::fmt::Debug, L: HasG + Clone + ::core::fmt::Debug> HasG for ST12<A, B, C, D, E, F, G, H, I, J, K, L> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "ST12", fields: vec![("0", <A>::g()), ("1", <B>::g()), ("2", <C>::g()), ("3", <D>::g()), ("4", <E>::g()), ("5", <F>::g()), ("6", <G>::g()), ("7", <H>::g()), ("8", <I>::g()), ("9", <J>::g()), ("10", <K>::g()), ("11", <L>::g())] } }
    fn val(&self) -> Val { Val::Node("ST12".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val()), ("9".into(), self.9.val()), ("10".into(), self.10.val()), ("11".into(), self.11.val())]) }
}
impl HasG for SU {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SU", fields: vec![] } }
    fn val(&self) -> Val { Val::Node("SU".into(), vec![]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug, G: HasG + Clone + ::core::fmt::Debug, H: HasG + Clone + ::core::fmt::Debug, I: HasG + Clone + ::core::fmt::Debug, J: HasG + Clone + ::core::fmt::Debug, K: HasG + Clone + ::core::fmt::Debug, L: HasG + Clone + ::core::fmt::Debug> HasG for SK<A, B, C, D, E, F, G, H, I, J, K, L> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SK", fields: vec![("tokens", <A>::g()), ("input", <B>::g()), ("error", <C>::g()), ("result", <D>::g()), ("cause", <E>::g()), ("fork", <F>::g()), ("ast_node", <G>::g()), ("err", <H>::g()), ("parsel_tokens", <I>::g()), ("value", <J>::g()), ("message", <K>::g()), ("stream", <L>::g())] } }
    fn val(&self) -> Val { Val::Node("SK".into(), vec![("tokens".into(), self.tokens.val()), ("input".into(), self.input.val()), ("error".into(), self.error.val()), ("result".into(), self.result.val()), ("cause".into(), self.cause.val()), ("fork".into(), self.fork.val()), ("ast_node".into(), self.ast_node.val()), ("err".into(), self.err.val()), ("parsel_tokens".into(), self.parsel_tokens.val()), ("value".into(), self.value.val()), ("message".into(), self.message.val()), ("stream".into(), self.stream.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug> HasG for SRaw<A, B, C> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SRaw", fields: vec![("r#type", <A>::g()), ("r#match", <B>::g()), ("r#fn", <C>::g())] } }
    fn val(&self) -> Val { Val::Node("SRaw".into(), vec![("r#type".into(), self.r#type.val()), ("r#match".into(), self.r#match.val()), ("r#fn".into(), self.r#fn.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug> HasG for SRev<A, B, C, D> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SRev", fields: vec![("d", <A>::g()), ("c", <B>::g()), ("b", <C>::g()), ("a", <D>::g())] } }
    fn val(&self) -> Val { Val::Node("SRev".into(), vec![("d".into(), self.d.val()), ("c".into(), self.c.val()), ("b".into(), self.b.val()), ("a".into(), self.a.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug> HasG for SPerm<A, B, C, D> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SPerm", fields: vec![("a", <C>::g()), ("b", <A>::g()), ("c", <D>::g()), ("d", <B>::g())] } }
    fn val(&self) -> Val { Val::Node("SPerm".into(), vec![("a".into(), self.a.val()), ("b".into(), self.b.val()), ("c".into(), self.c.val()), ("d".into(), self.d.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for SRep<A, B> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SRep", fields: vec![("first", <A>::g()), ("second", <B>::g()), ("third", <A>::g()), ("fourth", <A>::g())] } }
    fn val(&self) -> Val { Val::Node("SRep".into(), vec![("first".into(), self.first.val()), ("second".into(), self.second.val()), ("third".into(), self.third.val()), ("fourth".into(), self.fourth.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for STRep<A, B> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "STRep", fields: vec![("0", <A>::g()), ("1", <A>::g()), ("2", <B>::g()), ("3", <A>::g())] } }
    fn val(&self) -> Val { Val::Node("STRep".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for SAttr<A, B> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SAttr", fields: vec![("a", <A>::g()), ("b", <B>::g())] } }
    fn val(&self) -> Val { Val::Node("SAttr".into(), vec![("a".into(), self.a.val()), ("b".into(), self.b.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, B: HasG + Clone + ::core::fmt::Debug> HasG for SRecAttr<A, B> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SRecAttr", fields: vec![("a", <A>::g()), ("b", <B>::g()), ("c", <A>::g())] } }
    fn val(&self) -> Val { Val::Node("SRecAttr".into(), vec![("a".into(), self.a.val()), ("b".into(), self.b.val()), ("c".into(), self.c.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens> HasG for STRecAttr<A, B> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "STRecAttr", fields: vec![("0", <A>::g()), ("1", <B>::g())] } }
    fn val(&self) -> Val { Val::Node("STRecAttr".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, const N: usize> HasG for SConst<A, B, N> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SConst", fields: vec![("a", <A>::g()), ("b", <B>::g())] } }
    fn val(&self) -> Val { Val::Node("SConst".into(), vec![("a".into(), self.a.val()), ("b".into(), self.b.val())]) }
}
impl HasG for E0 {
    fn g() -> Gm { Gm::Choice(vec![]) }
    fn val(&self) -> Val { match *self {} }
}
impl HasG for E1U {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E1U", ctor: "X", fields: vec![] }]) }
    fn val(&self) -> Val { match self { E1U::X  => Val::Node("E1U::X".into(), vec![]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug> HasG for E1T<A> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E1T", ctor: "X", fields: vec![("0", <A>::g())] }]) }
    fn val(&self) -> Val { match self { E1T::X (x0) => Val::Node("E1T::X".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for E1N<A, B> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E1N", ctor: "X", fields: vec![("a", <A>::g()), ("b", <B>::g())] }]) }
    fn val(&self) -> Val { match self { E1N::X { a: x0, b: x1 } => Val::Node("E1N::X".into(), vec![("a".into(), x0.val()), ("b".into(), x1.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for E2<A, B> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E2", ctor: "X", fields: vec![("0", <A>::g())] }, Gm::Seq { en: "E2", ctor: "Y", fields: vec![("0", <B>::g())] }]) }
    fn val(&self) -> Val { match self { E2::X (x0) => Val::Node("E2::X".into(), vec![("0".into(), x0.val())]), E2::Y (x0) => Val::Node("E2::Y".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug> HasG for E2Prefix<A, B, C> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E2Prefix", ctor: "Long", fields: vec![("0", <A>::g()), ("1", <B>::g()), ("2", <C>::g())] }, Gm::Seq { en: "E2Prefix", ctor: "Short", fields: vec![("0", <A>::g())] }]) }
    fn val(&self) -> Val { match self { E2Prefix::Long (x0, x1, x2) => Val::Node("E2Prefix::Long".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val())]), E2Prefix::Short (x0) => Val::Node("E2Prefix::Short".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug> HasG for E2Rev<A, B, C> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E2Rev", ctor: "Short", fields: vec![("0", <A>::g())] }, Gm::Seq { en: "E2Rev", ctor: "Long", fields: vec![("0", <A>::g()), ("1", <B>::g()), ("2", <C>::g())] }]) }
    fn val(&self) -> Val { match self { E2Rev::Short (x0) => Val::Node("E2Rev::Short".into(), vec![("0".into(), x0.val())]), E2Rev::Long (x0, x1, x2) => Val::Node("E2Rev::Long".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug> HasG for E2Same<A> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E2Same", ctor: "First", fields: vec![("0", <A>::g())] }, Gm::Seq { en: "E2Same", ctor: "Second", fields: vec![("0", <A>::g())] }]) }
    fn val(&self) -> Val { match self { E2Same::First (x0) => Val::Node("E2Same::First".into(), vec![("0".into(), x0.val())]), E2Same::Second (x0) => Val::Node("E2Same::Second".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug> HasG for E3<A, B, C> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E3", ctor: "X", fields: vec![("a", <A>::g()), ("b", <B>::g())] }, Gm::Seq { en: "E3", ctor: "Y", fields: vec![("0", <C>::g()), ("1", <A>::g())] }, Gm::Seq { en: "E3", ctor: "Z", fields: vec![] }]) }
    fn val(&self) -> Val { match self { E3::X { a: x0, b: x1 } => Val::Node("E3::X".into(), vec![("a".into(), x0.val()), ("b".into(), x1.val())]), E3::Y (x0, x1) => Val::Node("E3::Y".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]), E3::Z  => Val::Node("E3::Z".into(), vec![]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug> HasG for E3Mid<A, B, C> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E3Mid", ctor: "X", fields: vec![("0", <A>::g()), ("1", <B>::g())] }, Gm::Seq { en: "E3Mid", ctor: "Y", fields: vec![] }, Gm::Seq { en: "E3Mid", ctor: "Z", fields: vec![("0", <C>::g())] }]) }
    fn val(&self) -> Val { match self { E3Mid::X (x0, x1) => Val::Node("E3Mid::X".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]), E3Mid::Y  => Val::Node("E3Mid::Y".into(), vec![]), E3Mid::Z (x0) => Val::Node("E3Mid::Z".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug> HasG for E4<A, B, C, D> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E4", ctor: "X", fields: vec![("0", <A>::g()), ("1", <B>::g()), ("2", <C>::g())] }, Gm::Seq { en: "E4", ctor: "Y", fields: vec![("p", <A>::g()), ("q", <B>::g()), ("r", <D>::g()), ("s", <C>::g())] }, Gm::Seq { en: "E4", ctor: "W", fields: vec![] }, Gm::Seq { en: "E4", ctor: "Z", fields: vec![("0", <D>::g()), ("1", <C>::g()), ("2", <B>::g()), ("3", <A>::g()), ("4", <A>::g())] }]) }
    fn val(&self) -> Val { match self { E4::X (x0, x1, x2) => Val::Node("E4::X".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val())]), E4::Y { p: x0, q: x1, r: x2, s: x3 } => Val::Node("E4::Y".into(), vec![("p".into(), x0.val()), ("q".into(), x1.val()), ("r".into(), x2.val()), ("s".into(), x3.val())]), E4::W () => Val::Node("E4::W".into(), vec![]), E4::Z (x0, x1, x2, x3, x4) => Val::Node("E4::Z".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug> HasG for E5<A, B, C, D, E> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E5", ctor: "V0", fields: vec![("x", <A>::g())] }, Gm::Seq { en: "E5", ctor: "V1", fields: vec![("0", <B>::g())] }, Gm::Seq { en: "E5", ctor: "V2", fields: vec![("x", <C>::g()), ("y", <A>::g())] }, Gm::Seq { en: "E5", ctor: "V3", fields: vec![("0", <D>::g()), ("1", <A>::g())] }, Gm::Seq { en: "E5", ctor: "V4", fields: vec![("x", <E>::g()), ("y", <A>::g())] }]) }
    fn val(&self) -> Val { match self { E5::V0 { x: x0 } => Val::Node("E5::V0".into(), vec![("x".into(), x0.val())]), E5::V1 (x0) => Val::Node("E5::V1".into(), vec![("0".into(), x0.val())]), E5::V2 { x: x0, y: x1 } => Val::Node("E5::V2".into(), vec![("x".into(), x0.val()), ("y".into(), x1.val())]), E5::V3 (x0, x1) => Val::Node("E5::V3".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]), E5::V4 { x: x0, y: x1 } => Val::Node("E5::V4".into(), vec![("x".into(), x0.val()), ("y".into(), x1.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug, G: HasG + Clone + ::core::fmt::Debug, H: HasG + Clone + ::core::fmt::Debug> HasG for E8<A, B, C, D, E, F, G, H> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E8", ctor: "V0", fields: vec![("0", <A>::g())] }, Gm::Seq { en: "E8", ctor: "V1", fields: vec![("0", <B>::g())] }, Gm::Seq { en: "E8", ctor: "V2", fields: vec![("0", <C>::g())] }, Gm::Seq { en: "E8", ctor: "V3", fields: vec![("0", <D>::g())] }, Gm::Seq { en: "E8", ctor: "V4", fields: vec![("0", <E>::g())] }, Gm::Seq { en: "E8", ctor: "V5", fields: vec![("0", <F>::g())] }, Gm::Seq { en: "E8", ctor: "V6", fields: vec![("0", <G>::g())] }, Gm::Seq { en: "E8", ctor: "V7", fields: vec![("0", <H>::g())] }]) }
    fn val(&self) -> Val { match self { E8::V0 (x0) => Val::Node("E8::V0".into(), vec![("0".into(), x0.val())]), E8::V1 (x0) => Val::Node("E8::V1".into(), vec![("0".into(), x0.val())]), E8::V2 (x0) => Val::Node("E8::V2".into(), vec![("0".into(), x0.val())]), E8::V3 (x0) => Val::Node("E8::V3".into(), vec![("0".into(), x0.val())]), E8::V4 (x0) => Val::Node("E8::V4".into(), vec![("0".into(), x0.val())]), E8::V5 (x0) => Val::Node("E8::V5".into(), vec![("0".into(), x0.val())]), E8::V6 (x0) => Val::Node("E8::V6".into(), vec![("0".into(), x0.val())]), E8::V7 (x0) => Val::Node("E8::V7".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug> HasG for E8Len<A> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E8Len", ctor: "V0", fields: vec![("0", <A>::g()), ("1", <A>::g()), ("2", <A>::g()), ("3", <A>::g()), ("4", <A>::g()), ("5", <A>::g()), ("6", <A>::g()), ("7", <A>::g())] }, Gm::Seq { en: "E8Len", ctor: "V1", fields: vec![("0", <A>::g()), ("1", <A>::g()), ("2", <A>::g()), ("3", <A>::g()), ("4", <A>::g()), ("5", <A>::g()), ("6", <A>::g())] }, Gm::Seq { en: "E8Len", ctor: "V2", fields: vec![("0", <A>::g()), ("1", <A>::g()), ("2", <A>::g()), ("3", <A>::g()), ("4", <A>::g()), ("5", <A>::g())] }, Gm::Seq { en: "E8Len", ctor: "V3", fields: vec![("0", <A>::g()), ("1", <A>::g()), ("2", <A>::g()), ("3", <A>::g()), ("4", <A>::g())] }, Gm::Seq { en: "E8Len", ctor: "V4", fields: vec![("0", <A>::g()), ("1", <A>::g()), ("2", <A>::g()), ("3", <A>::g())] }, Gm::Seq { en: "E8Len", ctor: "V5", fields: vec![("0", <A>::g()), ("1", <A>::g()), ("2", <A>::g())] }, Gm::Seq { en: "E8Len", ctor: "V6", fields: vec![("0", <A>::g()), ("1", <A>::g())] }]) }
    fn val(&self) -> Val { match self { E8Len::V0 (x0, x1, x2, x3, x4, x5, x6, x7) => Val::Node("E8Len::V0".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val())]), E8Len::V1 (x0, x1, x2, x3, x4, x5, x6) => Val::Node("E8Len::V1".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val())]), E8Len::V2 (x0, x1, x2, x3, x4, x5) => Val::Node("E8Len::V2".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val())]), E8Len::V3 (x0, x1, x2, x3, x4) => Val::Node("E8Len::V3".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val())]), E8Len::V4 (x0, x1, x2, x3) => Val::Node("E8Len::V4".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val())]), E8Len::V5 (x0, x1, x2) => Val::Node("E8Len::V5".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val())]), E8Len::V6 (x0, x1) => Val::Node("E8Len::V6".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug> HasG for EFunny<A, B, C> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "EFunny", ctor: "Ok", fields: vec![("0", <A>::g())] }, Gm::Seq { en: "EFunny", ctor: "Err", fields: vec![("tokens", <B>::g()), ("input", <C>::g())] }, Gm::Seq { en: "EFunny", ctor: "None", fields: vec![("error", <C>::g()), ("result", <A>::g()), ("err", <B>::g())] }, Gm::Seq { en: "EFunny", ctor: "Some", fields: vec![("parsel_tokens", <A>::g()), ("fork", <B>::g())] }]) }
    fn val(&self) -> Val { match self { EFunny::Ok (x0) => Val::Node("EFunny::Ok".into(), vec![("0".into(), x0.val())]), EFunny::Err { tokens: x0, input: x1 } => Val::Node("EFunny::Err".into(), vec![("tokens".into(), x0.val()), ("input".into(), x1.val())]), EFunny::None { error: x0, result: x1, err: x2 } => Val::Node("EFunny::None".into(), vec![("error".into(), x0.val()), ("result".into(), x1.val()), ("err".into(), x2.val())]), EFunny::Some { parsel_tokens: x0, fork: x1 } => Val::Node("EFunny::Some".into(), vec![("parsel_tokens".into(), x0.val()), ("fork".into(), x1.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for ERaw<A, B> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "ERaw", ctor: "X", fields: vec![("r#type", <A>::g()), ("r#match", <B>::g())] }, Gm::Seq { en: "ERaw", ctor: "Y", fields: vec![("0", <B>::g())] }]) }
    fn val(&self) -> Val { match self { ERaw::X { r#type: x0, r#match: x1 } => Val::Node("ERaw::X".into(), vec![("r#type".into(), x0.val()), ("r#match".into(), x1.val())]), ERaw::Y (x0) => Val::Node("ERaw::Y".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for EEmptyV<A, B> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "EEmptyV", ctor: "X", fields: vec![("0", <A>::g()), ("1", <B>::g())] }, Gm::Seq { en: "EEmptyV", ctor: "Y", fields: vec![] }]) }
    fn val(&self) -> Val { match self { EEmptyV::X (x0, x1) => Val::Node("EEmptyV::X".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]), EEmptyV::Y {  } => Val::Node("EEmptyV::Y".into(), vec![]) } }
}
impl<Empty: HasG + Clone + ::core::fmt::Debug, Eof: HasG + Clone + ::core::fmt::Debug, NotEof: HasG + Clone + ::core::fmt::Debug, Literal: HasG + Clone + ::core::fmt::Debug, PhantomData: HasG + Clone + ::core::fmt::Debug, Boxed: HasG + Clone + ::core::fmt::Debug, Ident: HasG + Clone + ::core::fmt::Debug, Maybe: HasG + Clone + ::core::fmt::Debug, Span: HasG + Clone + ::core::fmt::Debug> HasG for SNames<Empty, Eof, NotEof, Literal, PhantomData, Boxed, Ident, Maybe, Span> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SNames", fields: vec![("f0", <Empty>::g()), ("f1", <Eof>::g()), ("f2", <NotEof>::g()), ("f3", <Literal>::g()), ("f4", <PhantomData>::g()), ("f5", <Boxed>::g()), ("f6", <Ident>::g()), ("f7", <Maybe>::g()), ("f8", <Span>::g())] } }
    fn val(&self) -> Val { Val::Node("SNames".into(), vec![("f0".into(), self.f0.val()), ("f1".into(), self.f1.val()), ("f2".into(), self.f2.val()), ("f3".into(), self.f3.val()), ("f4".into(), self.f4.val()), ("f5".into(), self.f5.val()), ("f6".into(), self.f6.val()), ("f7".into(), self.f7.val()), ("f8".into(), self.f8.val())]) }
}
impl<Empty: HasG + Clone + ::core::fmt::Debug, Eof: HasG + Clone + ::core::fmt::Debug, NotEof: HasG + Clone + ::core::fmt::Debug, Literal: HasG + Clone + ::core::fmt::Debug, PhantomData: HasG + Clone + ::core::fmt::Debug, Boxed: HasG + Clone + ::core::fmt::Debug, Ident: HasG + Clone + ::core::fmt::Debug, Maybe: HasG + Clone + ::core::fmt::Debug, Span: HasG + Clone + ::core::fmt::Debug> HasG for STNames<Empty, Eof, NotEof, Literal, PhantomData, Boxed, Ident, Maybe, Span> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "STNames", fields: vec![("0", <Empty>::g()), ("1", <Eof>::g()), ("2", <NotEof>::g()), ("3", <Literal>::g()), ("4", <PhantomData>::g()), ("5", <Boxed>::g()), ("6", <Ident>::g()), ("7", <Maybe>::g()), ("8", <Span>::g())] } }
    fn val(&self) -> Val { Val::Node("STNames".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val())]) }
}
impl<Empty: HasG + Clone + ::core::fmt::Debug, Eof: HasG + Clone + ::core::fmt::Debug, NotEof: HasG + Clone + ::core::fmt::Debug, Literal: HasG + Clone + ::core::fmt::Debug, PhantomData: HasG + Clone + ::core::fmt::Debug, Boxed: HasG + Clone + ::core::fmt::Debug, Ident: HasG + Clone + ::core::fmt::Debug, Maybe: HasG + Clone + ::core::fmt::Debug, Span: HasG + Clone + ::core::fmt::Debug> HasG for ENames<Empty, Eof, NotEof, Literal, PhantomData, Boxed, Ident, Maybe, Span> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "ENames", ctor: "X", fields: vec![("0", <Empty>::g()), ("1", <Eof>::g()), ("2", <NotEof>::g()), ("3", <Literal>::g())] }, Gm::Seq { en: "ENames", ctor: "Y", fields: vec![("f0", <PhantomData>::g()), ("f1", <Boxed>::g()), ("f2", <Ident>::g()), ("f3", <Maybe>::g()), ("f4", <Span>::g())] }]) }
    fn val(&self) -> Val { match self { ENames::X (x0, x1, x2, x3) => Val::Node("ENames::X".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val())]), ENames::Y { f0: x0, f1: x1, f2: x2, f3: x3, f4: x4 } => Val::Node("ENames::Y".into(), vec![("f0".into(), x0.val()), ("f1".into(), x1.val()), ("f2".into(), x2.val()), ("f3".into(), x3.val()), ("f4".into(), x4.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug> HasG for SOdd<A, B, C> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SOdd", fields: vec![("_a", <A>::g()), ("__b", <B>::g()), ("span", <C>::g()), ("phantom", <A>::g()), ("_c1", <B>::g()), ("recursive", <A>::g())] } }
    fn val(&self) -> Val { Val::Node("SOdd".into(), vec![("_a".into(), self._a.val()), ("__b".into(), self.__b.val()), ("span".into(), self.span.val()), ("phantom".into(), self.phantom.val()), ("_c1".into(), self._c1.val()), ("recursive".into(), self.recursive.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug, G: HasG + Clone + ::core::fmt::Debug, H: HasG + Clone + ::core::fmt::Debug, I: HasG + Clone + ::core::fmt::Debug, J: HasG + Clone + ::core::fmt::Debug, K: HasG + Clone + ::core::fmt::Debug, L: HasG + Clone + ::core::fmt::Debug> HasG for EWide<A, B, C, D, E, F, G, H, I, J, K, L> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "EWide", ctor: "X", fields: vec![("0", <A>::g()), ("1", <B>::g()), ("2", <C>::g()), ("3", <D>::g()), ("4", <E>::g()), ("5", <F>::g()), ("6", <G>::g()), ("7", <H>::g()), ("8", <I>::g()), ("9", <J>::g()), ("10", <K>::g()), ("11", <L>::g())] }, Gm::Seq { en: "EWide", ctor: "Y", fields: vec![("f0", <A>::g()), ("f1", <B>::g()), ("f2", <C>::g()), ("f3", <D>::g()), ("f4", <E>::g()), ("f5", <F>::g()), ("f6", <G>::g()), ("f7", <H>::g()), ("f8", <I>::g()), ("f9", <J>::g()), ("f10", <K>::g()), ("f11", <L>::g())] }]) }
    fn val(&self) -> Val { match self { EWide::X (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) => Val::Node("EWide::X".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val()), ("8".into(), x8.val()), ("9".into(), x9.val()), ("10".into(), x10.val()), ("11".into(), x11.val())]), EWide::Y { f0: x0, f1: x1, f2: x2, f3: x3, f4: x4, f5: x5, f6: x6, f7: x7, f8: x8, f9: x9, f10: x10, f11: x11 } => Val::Node("EWide::Y".into(), vec![("f0".into(), x0.val()), ("f1".into(), x1.val()), ("f2".into(), x2.val()), ("f3".into(), x3.val()), ("f4".into(), x4.val()), ("f5".into(), x5.val()), ("f6".into(), x6.val()), ("f7".into(), x7.val()), ("f8".into(), x8.val()), ("f9".into(), x9.val()), ("f10".into(), x10.val()), ("f11".into(), x11.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug, G: HasG + Clone + ::core::fmt::Debug, H: HasG + Clone + ::core::fmt::Debug> HasG for EVariants<A, B, C, D, E, F, G, H> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "EVariants", ctor: "Empty", fields: vec![("0", <A>::g())] }, Gm::Seq { en: "EVariants", ctor: "Eof", fields: vec![("0", <B>::g())] }, Gm::Seq { en: "EVariants", ctor: "Default", fields: vec![("0", <C>::g())] }, Gm::Seq { en: "EVariants", ctor: "Other", fields: vec![("0", <D>::g())] }, Gm::Seq { en: "EVariants", ctor: "Unknown", fields: vec![("0", <E>::g())] }, Gm::Seq { en: "EVariants", ctor: "Error", fields: vec![("0", <F>::g())] }, Gm::Seq { en: "EVariants", ctor: "_Hidden", fields: vec![("0", <G>::g())] }, Gm::Seq { en: "EVariants", ctor: "Parse", fields: vec![("0", <H>::g())] }]) }
    fn val(&self) -> Val { match self { EVariants::Empty (x0) => Val::Node("EVariants::Empty".into(), vec![("0".into(), x0.val())]), EVariants::Eof (x0) => Val::Node("EVariants::Eof".into(), vec![("0".into(), x0.val())]), EVariants::Default (x0) => Val::Node("EVariants::Default".into(), vec![("0".into(), x0.val())]), EVariants::Other (x0) => Val::Node("EVariants::Other".into(), vec![("0".into(), x0.val())]), EVariants::Unknown (x0) => Val::Node("EVariants::Unknown".into(), vec![("0".into(), x0.val())]), EVariants::Error (x0) => Val::Node("EVariants::Error".into(), vec![("0".into(), x0.val())]), EVariants::_Hidden (x0) => Val::Node("EVariants::_Hidden".into(), vec![("0".into(), x0.val())]), EVariants::Parse (x0) => Val::Node("EVariants::Parse".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, B: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, C: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens> HasG for SComp<A, B, C> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SComp", fields: vec![("a", <Paren<A>>::g()), ("b", <Maybe<A, B>>::g()), ("c", <Box<C>>::g()), ("d", <Any<B>>::g()), ("e", <Separated<A, B>>::g())] } }
    fn val(&self) -> Val { Val::Node("SComp".into(), vec![("a".into(), self.a.val()), ("b".into(), self.b.val()), ("c".into(), self.c.val()), ("d".into(), self.d.val()), ("e".into(), self.e.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, B: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, C: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens> HasG for STComp<A, B, C> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "STComp", fields: vec![("0", <Either<A, B>>::g()), ("1", <Brace<Any<A>>>::g()), ("2", <Bracket<Maybe<B, C>>>::g()), ("3", <LeftAssoc<A, C>>::g()), ("4", <Box<RightAssoc<B, C>>>::g())] } }
    fn val(&self) -> Val { Val::Node("STComp".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, B: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, C: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens> HasG for EComp<A, B, C> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "EComp", ctor: "X", fields: vec![("0", <Box<A>>::g()), ("1", <Maybe<B, C>>::g())] }, Gm::Seq { en: "EComp", ctor: "Y", fields: vec![("x", <Any<A>>::g()), ("y", <Paren<Any<B>>>::g())] }, Gm::Seq { en: "EComp", ctor: "Z", fields: vec![("0", <Box<Separated<A, C>>>::g())] }]) }
    fn val(&self) -> Val { match self { EComp::X (x0, x1) => Val::Node("EComp::X".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]), EComp::Y { x: x0, y: x1 } => Val::Node("EComp::Y".into(), vec![("x".into(), x0.val()), ("y".into(), x1.val())]), EComp::Z (x0) => Val::Node("EComp::Z".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug, G: HasG + Clone + ::core::fmt::Debug, H: HasG + Clone + ::core::fmt::Debug, I: HasG + Clone + ::core::fmt::Debug, J: HasG + Clone + ::core::fmt::Debug, K: HasG + Clone + ::core::fmt::Debug, L: HasG + Clone + ::core::fmt::Debug> HasG for SN20<A, B, C, D, E, F, G, H, I, J, K, L> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SN20", fields: vec![("g0", <A>::g()), ("g1", <F>::g()), ("g2", <K>::g()), ("g3", <D>::g()), ("g4", <I>::g()), ("g5", <B>::g()), ("g6", <G>::g()), ("g7", <L>::g()), ("g8", <E>::g()), ("g9", <J>::g()), ("g10", <C>::g()), ("g11", <H>::g()), ("g12", <A>::g()), ("g13", <F>::g()), ("g14", <K>::g()), ("g15", <D>::g()), ("g16", <I>::g()), ("g17", <B>::g()), ("g18", <G>::g()), ("g19", <L>::g())] } }
    fn val(&self) -> Val { Val::Node("SN20".into(), vec![("g0".into(), self.g0.val()), ("g1".into(), self.g1.val()), ("g2".into(), self.g2.val()), ("g3".into(), self.g3.val()), ("g4".into(), self.g4.val()), ("g5".into(), self.g5.val()), ("g6".into(), self.g6.val()), ("g7".into(), self.g7.val()), ("g8".into(), self.g8.val()), ("g9".into(), self.g9.val()), ("g10".into(), self.g10.val()), ("g11".into(), self.g11.val()), ("g12".into(), self.g12.val()), ("g13".into(), self.g13.val()), ("g14".into(), self.g14.val()), ("g15".into(), self.g15.val()), ("g16".into(), self.g16.val()), ("g17".into(), self.g17.val()), ("g18".into(), self.g18.val()), ("g19".into(), self.g19.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug, G: HasG + Clone + ::core::fmt::Debug, H: HasG + Clone + ::core::fmt::Debug, I: HasG + Clone + ::core::fmt::Debug, J: HasG + Clone + ::core::fmt::Debug, K: HasG + Clone + ::core::fmt::Debug, L: HasG + Clone + ::core::fmt::Debug> HasG for ST17<A, B, C, D, E, F, G, H, I, J, K, L> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "ST17", fields: vec![("0", <A>::g()), ("1", <H>::g()), ("2", <C>::g()), ("3", <J>::g()), ("4", <E>::g()), ("5", <L>::g()), ("6", <G>::g()), ("7", <B>::g()), ("8", <I>::g()), ("9", <D>::g()), ("10", <K>::g()), ("11", <F>::g()), ("12", <A>::g()), ("13", <H>::g()), ("14", <C>::g()), ("15", <J>::g()), ("16", <E>::g())] } }
    fn val(&self) -> Val { Val::Node("ST17".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val()), ("3".into(), self.3.val()), ("4".into(), self.4.val()), ("5".into(), self.5.val()), ("6".into(), self.6.val()), ("7".into(), self.7.val()), ("8".into(), self.8.val()), ("9".into(), self.9.val()), ("10".into(), self.10.val()), ("11".into(), self.11.val()), ("12".into(), self.12.val()), ("13".into(), self.13.val()), ("14".into(), self.14.val()), ("15".into(), self.15.val()), ("16".into(), self.16.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug> HasG for E14<A, B, C, D> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E14", ctor: "W0", fields: vec![("0", <A>::g())] }, Gm::Seq { en: "E14", ctor: "W1", fields: vec![("k", <B>::g()), ("l", <C>::g())] }, Gm::Seq { en: "E14", ctor: "W2", fields: vec![("0", <C>::g()), ("1", <A>::g()), ("2", <C>::g())] }, Gm::Seq { en: "E14", ctor: "W3", fields: vec![("0", <D>::g())] }, Gm::Seq { en: "E14", ctor: "W4", fields: vec![("k", <A>::g()), ("l", <B>::g())] }, Gm::Seq { en: "E14", ctor: "W5", fields: vec![("0", <B>::g()), ("1", <D>::g()), ("2", <B>::g())] }, Gm::Seq { en: "E14", ctor: "W6", fields: vec![("0", <C>::g())] }, Gm::Seq { en: "E14", ctor: "W7", fields: vec![("k", <D>::g()), ("l", <A>::g())] }, Gm::Seq { en: "E14", ctor: "W8", fields: vec![("0", <A>::g()), ("1", <C>::g()), ("2", <A>::g())] }, Gm::Seq { en: "E14", ctor: "W9", fields: vec![("0", <B>::g())] }, Gm::Seq { en: "E14", ctor: "W10", fields: vec![("k", <C>::g()), ("l", <D>::g())] }, Gm::Seq { en: "E14", ctor: "W11", fields: vec![("0", <D>::g()), ("1", <B>::g()), ("2", <D>::g())] }, Gm::Seq { en: "E14", ctor: "W12", fields: vec![("0", <A>::g())] }, Gm::Seq { en: "E14", ctor: "W13", fields: vec![("k", <B>::g()), ("l", <C>::g())] }]) }
    fn val(&self) -> Val { match self { E14::W0 (x0) => Val::Node("E14::W0".into(), vec![("0".into(), x0.val())]), E14::W1 { k: x0, l: x1 } => Val::Node("E14::W1".into(), vec![("k".into(), x0.val()), ("l".into(), x1.val())]), E14::W2 (x0, x1, x2) => Val::Node("E14::W2".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val())]), E14::W3 (x0) => Val::Node("E14::W3".into(), vec![("0".into(), x0.val())]), E14::W4 { k: x0, l: x1 } => Val::Node("E14::W4".into(), vec![("k".into(), x0.val()), ("l".into(), x1.val())]), E14::W5 (x0, x1, x2) => Val::Node("E14::W5".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val())]), E14::W6 (x0) => Val::Node("E14::W6".into(), vec![("0".into(), x0.val())]), E14::W7 { k: x0, l: x1 } => Val::Node("E14::W7".into(), vec![("k".into(), x0.val()), ("l".into(), x1.val())]), E14::W8 (x0, x1, x2) => Val::Node("E14::W8".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val())]), E14::W9 (x0) => Val::Node("E14::W9".into(), vec![("0".into(), x0.val())]), E14::W10 { k: x0, l: x1 } => Val::Node("E14::W10".into(), vec![("k".into(), x0.val()), ("l".into(), x1.val())]), E14::W11 (x0, x1, x2) => Val::Node("E14::W11".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val())]), E14::W12 (x0) => Val::Node("E14::W12".into(), vec![("0".into(), x0.val())]), E14::W13 { k: x0, l: x1 } => Val::Node("E14::W13".into(), vec![("k".into(), x0.val()), ("l".into(), x1.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug, D: HasG + Clone + ::core::fmt::Debug, E: HasG + Clone + ::core::fmt::Debug, F: HasG + Clone + ::core::fmt::Debug> HasG for E2Wide<A, B, C, D, E, F> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "E2Wide", ctor: "Big", fields: vec![("h0", <A>::g()), ("h1", <F>::g()), ("h2", <E>::g()), ("h3", <D>::g()), ("h4", <C>::g()), ("h5", <B>::g()), ("h6", <A>::g()), ("h7", <F>::g()), ("h8", <E>::g()), ("h9", <D>::g()), ("h10", <C>::g()), ("h11", <B>::g()), ("h12", <A>::g()), ("h13", <F>::g()), ("h14", <E>::g())] }, Gm::Seq { en: "E2Wide", ctor: "Big2", fields: vec![("0", <A>::g()), ("1", <B>::g()), ("2", <C>::g()), ("3", <D>::g()), ("4", <E>::g()), ("5", <F>::g()), ("6", <A>::g()), ("7", <B>::g()), ("8", <C>::g()), ("9", <D>::g()), ("10", <E>::g()), ("11", <F>::g()), ("12", <A>::g()), ("13", <B>::g())] }]) }
    fn val(&self) -> Val { match self { E2Wide::Big { h0: x0, h1: x1, h2: x2, h3: x3, h4: x4, h5: x5, h6: x6, h7: x7, h8: x8, h9: x9, h10: x10, h11: x11, h12: x12, h13: x13, h14: x14 } => Val::Node("E2Wide::Big".into(), vec![("h0".into(), x0.val()), ("h1".into(), x1.val()), ("h2".into(), x2.val()), ("h3".into(), x3.val()), ("h4".into(), x4.val()), ("h5".into(), x5.val()), ("h6".into(), x6.val()), ("h7".into(), x7.val()), ("h8".into(), x8.val()), ("h9".into(), x9.val()), ("h10".into(), x10.val()), ("h11".into(), x11.val()), ("h12".into(), x12.val()), ("h13".into(), x13.val()), ("h14".into(), x14.val())]), E2Wide::Big2 (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13) => Val::Node("E2Wide::Big2".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val()), ("2".into(), x2.val()), ("3".into(), x3.val()), ("4".into(), x4.val()), ("5".into(), x5.val()), ("6".into(), x6.val()), ("7".into(), x7.val()), ("8".into(), x8.val()), ("9".into(), x9.val()), ("10".into(), x10.val()), ("11".into(), x11.val()), ("12".into(), x12.val()), ("13".into(), x13.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for SWhere<A, B> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SWhere", fields: vec![("a", <A>::g()), ("b", <B>::g())] } }
    fn val(&self) -> Val { Val::Node("SWhere".into(), vec![("a".into(), self.a.val()), ("b".into(), self.b.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for STWhere<A, B> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "STWhere", fields: vec![("0", <A>::g()), ("1", <B>::g()), ("2", <A>::g())] } }
    fn val(&self) -> Val { Val::Node("STWhere".into(), vec![("0".into(), self.0.val()), ("1".into(), self.1.val()), ("2".into(), self.2.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for EWhere<A, B> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "EWhere", ctor: "X", fields: vec![("0", <A>::g()), ("1", <B>::g())] }, Gm::Seq { en: "EWhere", ctor: "Y", fields: vec![("b", <B>::g())] }]) }
    fn val(&self) -> Val { match self { EWhere::X (x0, x1) => Val::Node("EWhere::X".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]), EWhere::Y { b: x0 } => Val::Node("EWhere::Y".into(), vec![("b".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for SDefault<A, B> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SDefault", fields: vec![("b", <B>::g()), ("a", <A>::g())] } }
    fn val(&self) -> Val { Val::Node("SDefault".into(), vec![("b".into(), self.b.val()), ("a".into(), self.a.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, B: HasG + Clone + ::core::fmt::Debug> HasG for EDefault<A, B> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "EDefault", ctor: "X", fields: vec![("0", <B>::g())] }, Gm::Seq { en: "EDefault", ctor: "Y", fields: vec![("0", <A>::g()), ("1", <B>::g())] }]) }
    fn val(&self) -> Val { match self { EDefault::X (x0) => Val::Node("EDefault::X".into(), vec![("0".into(), x0.val())]), EDefault::Y (x0, x1) => Val::Node("EDefault::Y".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, B: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, C: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens> HasG for SDeep<A, B, C> {
    fn g() -> Gm { Gm::Seq { en: "", ctor: "SDeep", fields: vec![("a", <Paren<Any<Bracket<A>>>>::g()), ("b", <Maybe<A, Maybe<B, C>>>::g()), ("c", <Box<Box<C>>>::g()), ("d", <Separated<Paren<A>, B>>::g()), ("e", <Either<Either<A, B>, C>>::g())] } }
    fn val(&self) -> Val { Val::Node("SDeep".into(), vec![("a".into(), self.a.val()), ("b".into(), self.b.val()), ("c".into(), self.c.val()), ("d".into(), self.d.val()), ("e".into(), self.e.val())]) }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for EUnits<A, B> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "EUnits", ctor: "X", fields: vec![("a", <A>::g())] }, Gm::Seq { en: "EUnits", ctor: "Y", fields: vec![("0", <B>::g()), ("1", <A>::g())] }, Gm::Seq { en: "EUnits", ctor: "Z", fields: vec![] }, Gm::Seq { en: "EUnits", ctor: "After", fields: vec![] }, Gm::Seq { en: "EUnits", ctor: "Last", fields: vec![("0", <B>::g())] }]) }
    fn val(&self) -> Val { match self { EUnits::X { a: x0 } => Val::Node("EUnits::X".into(), vec![("a".into(), x0.val())]), EUnits::Y (x0, x1) => Val::Node("EUnits::Y".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]), EUnits::Z  => Val::Node("EUnits::Z".into(), vec![]), EUnits::After  => Val::Node("EUnits::After".into(), vec![]), EUnits::Last (x0) => Val::Node("EUnits::Last".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, B: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens, C: HasG + Clone + ::core::fmt::Debug + ::parsel::Parse + ::parsel::ToTokens> HasG for ENested<A, B, C> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "ENested", ctor: "X", fields: vec![("0", <Paren<A>>::g()), ("1", <B>::g())] }, Gm::Seq { en: "ENested", ctor: "Y", fields: vec![("0", <Maybe<B, A>>::g())] }, Gm::Seq { en: "ENested", ctor: "Z", fields: vec![("0", <C>::g())] }]) }
    fn val(&self) -> Val { match self { ENested::X (x0, x1) => Val::Node("ENested::X".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]), ENested::Y (x0) => Val::Node("ENested::Y".into(), vec![("0".into(), x0.val())]), ENested::Z (x0) => Val::Node("ENested::Z".into(), vec![("0".into(), x0.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug, C: HasG + Clone + ::core::fmt::Debug> HasG for EAttr<A, B, C> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "EAttr", ctor: "X", fields: vec![("0", <A>::g())] }, Gm::Seq { en: "EAttr", ctor: "Y", fields: vec![("b", <B>::g()), ("c", <C>::g())] }]) }
    fn val(&self) -> Val { match self { EAttr::X (x0) => Val::Node("EAttr::X".into(), vec![("0".into(), x0.val())]), EAttr::Y { b: x0, c: x1 } => Val::Node("EAttr::Y".into(), vec![("b".into(), x0.val()), ("c".into(), x1.val())]) } }
}
impl<A: HasG + Clone + ::core::fmt::Debug, B: HasG + Clone + ::core::fmt::Debug> HasG for ENamesake<A, B> {
    fn g() -> Gm { Gm::Choice(vec![Gm::Seq { en: "ENamesake", ctor: "ENamesake", fields: vec![("0", <A>::g())] }, Gm::Seq { en: "ENamesake", ctor: "A", fields: vec![("A", <B>::g())] }, Gm::Seq { en: "ENamesake", ctor: "B", fields: vec![("0", <B>::g()), ("1", <A>::g())] }]) }
    fn val(&self) -> Val { match self { ENamesake::ENamesake (x0) => Val::Node("ENamesake::ENamesake".into(), vec![("0".into(), x0.val())]), ENamesake::A { A: x0 } => Val::Node("ENamesake::A".into(), vec![("A".into(), x0.val())]), ENamesake::B (x0, x1) => Val::Node("ENamesake::B".into(), vec![("0".into(), x0.val()), ("1".into(), x1.val())]) } }
}

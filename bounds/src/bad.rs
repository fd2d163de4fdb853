//! Generated by tools/gen_bounds.py. One declaration per line that derive(Parse) and derive(ToTokens) have to reject.
#![allow(dead_code, unused_imports)]
use ::parsel::ast::Word;
pub type Id = Word;
fn main() {}
mod parse0 { use super::*; #[derive(::parsel::Parse)] pub union X { a: u8, b: u16 } }
mod totokens0 { use super::*; #[derive(::parsel::ToTokens)] pub union X { a: u8, b: u16 } }
mod parse1 { use super::*; #[derive(::parsel::Parse)] pub union X<T: Copy> { a: T } }
mod totokens1 { use super::*; #[derive(::parsel::ToTokens)] pub union X<T: Copy> { a: T } }
mod parse2 { use super::*; #[derive(::parsel::Parse)] pub struct X(#[parsel(recursiv)] Id); }
mod totokens2 { use super::*; #[derive(::parsel::ToTokens)] pub struct X(#[parsel(recursiv)] Id); }
mod parse3 { use super::*; #[derive(::parsel::Parse)] pub struct X { #[parsel(recursive = 1)] a: Id } }
mod totokens3 { use super::*; #[derive(::parsel::ToTokens)] pub struct X { #[parsel(recursive = 1)] a: Id } }
mod parse4 { use super::*; #[derive(::parsel::Parse)] pub struct X { #[parsel(recursive, recursive)] a: Id } }
mod totokens4 { use super::*; #[derive(::parsel::ToTokens)] pub struct X { #[parsel(recursive, recursive)] a: Id } }
mod parse5 { use super::*; #[derive(::parsel::Parse)] pub struct X(Id, #[parsel(skip)] Id); }
mod totokens5 { use super::*; #[derive(::parsel::ToTokens)] pub struct X(Id, #[parsel(skip)] Id); }
mod parse6 { use super::*; #[derive(::parsel::Parse)] pub enum X { A, B(Id, #[parsel(bogus = true)] Id) } }
mod totokens6 { use super::*; #[derive(::parsel::ToTokens)] pub enum X { A, B(Id, #[parsel(bogus = true)] Id) } }
mod parse7 { use super::*; #[derive(::parsel::Parse)] pub enum X { A { a: Id }, B { #[parsel(other)] a: Id } } }
mod totokens7 { use super::*; #[derive(::parsel::ToTokens)] pub enum X { A { a: Id }, B { #[parsel(other)] a: Id } } }
mod parse8 { use super::*; #[derive(::parsel::Parse)] pub struct X<T>(#[parsel(recursive, more)] T); }
mod totokens8 { use super::*; #[derive(::parsel::ToTokens)] pub struct X<T>(#[parsel(recursive, more)] T); }
mod parse9 { use super::*; #[derive(::parsel::Parse)] pub struct X(#[parsel(recursive = "yes")] Id); }
mod totokens9 { use super::*; #[derive(::parsel::ToTokens)] pub struct X(#[parsel(recursive = "yes")] Id); }
mod parse10 { use super::*; #[derive(::parsel::Parse)] pub enum X { A(#[parsel(Recursive)] Id) } }
mod totokens10 { use super::*; #[derive(::parsel::ToTokens)] pub enum X { A(#[parsel(Recursive)] Id) } }

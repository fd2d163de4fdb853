#!/usr/bin/env python3
"""Writes bounds/src/lib.rs (declarations that the derives must accept, with uses of the derived traits) and bounds/src/bad.rs (those they must reject).

With a seed, a number and a directory: a crate with that many other random declarations in that directory."""
import os, random, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED, N, OUT = (int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]) if len(sys.argv) > 1 else (24, 320, os.path.join(V, "bounds"))
R = random.Random(SEED)
HEAD = '''//! Generated by tools/gen_bounds.py. Declarations for the derives; what they have to generate is read off the declaration.
#![allow(dead_code, unused_imports, non_camel_case_types, type_alias_bounds)]
use ::parsel::ast::{Any, Brace, Bracket, Either, LeftAssoc, Many, Maybe, Paren, RightAssoc, Separated, LitInt, Word};
use ::parsel::syn;
pub type Id = Word;
pub type Comma = syn::token::Comma;
pub type At = syn::token::At;
#[derive(Clone, Copy, Debug)]
pub struct Arr<const N: usize>;
impl<const N: usize> ::parsel::Parse for Arr<N> { fn parse(_: syn::parse::ParseStream<'_>) -> syn::Result<Self> { Ok(Arr) } }
impl<const N: usize> ::parsel::ToTokens for Arr<N> { fn to_tokens(&self, _: &mut ::parsel::TokenStream) {} }
#[derive(Clone, Copy, Debug)]
pub struct Ph<'a, T>(core::marker::PhantomData<&'a T>);
impl<'a, T> ::parsel::Parse for Ph<'a, T> { fn parse(_: syn::parse::ParseStream<'_>) -> syn::Result<Self> { Ok(Ph(core::marker::PhantomData)) } }
impl<'a, T> ::parsel::ToTokens for Ph<'a, T> { fn to_tokens(&self, _: &mut ::parsel::TokenStream) {} }
#[derive(Clone, Copy, Debug)]
pub struct Co<T>(core::marker::PhantomData<T>);
impl<T> ::parsel::Parse for Co<T> { fn parse(_: syn::parse::ParseStream<'_>) -> syn::Result<Self> { Ok(Co(core::marker::PhantomData)) } }
impl<T> ::parsel::ToTokens for Co<T> { fn to_tokens(&self, _: &mut ::parsel::TokenStream) {} }
pub trait Tr { type Out; }
impl Tr for Id { type Out = LitInt; }
impl Tr for LitInt { type Out = Id; }
fn ok<T: ::parsel::Parse + ::parsel::ToTokens + core::str::FromStr + core::fmt::Display>() {}
'''
DER = "#[derive(::parsel::Parse, ::parsel::ToTokens, ::parsel::FromStr, ::parsel::Display)]\n"

def decl(k):
    n = "D%d" % k
    life = R.random() < .2
    ps = ["T", "U", "W"][:R.choice([0, 1, 1, 2, 2, 3])]
    con = R.random() < .25
    bound, where, inst = {}, [], []
    stat = set()
    assoc = set()
    for p in ps:
        c = R.random()
        if c < .15: bound[p] = "Clone"
        elif c < .3: where.append("%s: Clone + core::fmt::Debug" % p)
        elif c < .5: bound[p] = "Tr"; assoc.add(p)
        elif c < .6: where.append("%s: Tr" % p); assoc.add(p)
        elif c < .65: where.append("Paren<%s>: ::parsel::Parse" % p)
        elif c < .7: bound[p] = "::parsel::ToTokens"
        elif c < .72: where.append("%s: 'static" % p); stat.add(p)
        elif c < .75: where.append("for<'z> &'z %s: Clone" % p)
    if life and ps and R.random() < .5: where.append("%s: 'a" % ps[0])
    dflt = set(ps[-1:]) if ps and R.random() < .2 and not assoc else set()
    gs = (["'a"] if life else []) + [p + (": " + bound[p] if p in bound else "") + (" = Id" if p in dflt else "") for p in ps] + (["const N: usize" + (" = 2" if dflt or R.random() < .2 else "")] if con else [])
    args = (["'a"] if life else []) + ps + (["N"] if con else [])
    me = n + ("<%s>" % ", ".join(args) if args else "")
    use = (["'static"] if life else []) + [R.choice(["Id", "LitInt"]) for _ in ps] + (["3"] if con else [])
    me_use = n + ("<%s>" % ", ".join(use) if use else "")
    rec = R.random() < .35
    used = set()
    odd = bool(ps) and R.random() < .25
    def ty(d=0):
        c = R.random()
        if odd and c < .3:
            # no productions, but with a parameter in them they may be bounded all the same
            p = R.choice(ps)
            return R.choice(["(%s,)", "(%s, Id)", "[%s; 2]", "[Paren<%s>; 3]", "fn(%s) -> Id", "fn() -> %s", "*const %s", "core::marker::PhantomData<%s>", "Option<%s>", "Vec<%s>", "&'static %s" if p in stat else "Vec<Option<%s>>", "(At, (%s, (Comma,)))", "Result<%s, Id>", "Box<dyn Fn(%s) -> Id>"]) % p
        if d > 2 or c < .45:
            cands = ["Id", "LitInt", "At"] + ps * 3 + (["Arr<N>"] if con else []) + (["Ph<'a, %s>" % (ps[0] if ps else "Id")] if life else []) + ["<%s as Tr>::Out" % p for p in sorted(assoc)] + ["%s::Out" % p for p in sorted(assoc)]
            return R.choice(cands)
        if c < .55: return "Paren<%s>" % ty(d + 1)
        if c < .62: return "Box<%s>" % ty(d + 1)
        if c < .7: return "Maybe<%s, %s>" % (R.choice(["At", "Comma"]), ty(d + 1))
        if c < .76: return "Separated<%s, Comma>" % ty(d + 1)
        if c < .82: return "Either<%s, %s>" % (ty(d + 1), ty(d + 1))
        if c < .88: return "Any<%s>" % ty(d + 1)
        if c < .93: return "::parsel::ast::Bracket<%s>" % ty(d + 1)
        return "Brace<Many<%s>>" % ty(d + 1)
    def recty():
        s = R.choice(["Self", me, "self::" + me])
        return R.choice(["Box<%s>" % s, "Paren<Box<%s>>" % s, "Maybe<At, Box<%s>>" % s, "Box<Any<%s>>" % s, "Any<%s>" % s, "Brace<Separated<%s, Comma>>" % s, "Box<Maybe<At, Bracket<%s>>>" % s])
    def field(named, i, pub):
        a = ""
        if rec and R.random() < .4:
            a, t = R.choice(["#[parsel(recursive)] ", "#[parsel(recursive = true)] ", "#[parsel(recursive)] ", "#[allow(unused)] #[parsel(recursive)] "]), recty()
        else:
            t = ty()
            if R.random() < .12: a = "#[parsel(recursive = false)] "
            elif R.random() < .06: a = "#[allow(unused)] "
        v = "pub " if pub and R.random() < .5 else ""
        return a + v + ("f%d: %s" % (i, t) if named else t)
    def body(pub, kind=None):
        kind = kind or R.choice(["named", "tuple", "named", "tuple", "unit"])
        m = R.choice([0, 1, 1, 2, 2, 3, 4, 6])
        fs = [field(kind == "named", i, pub) for i in range(m)]
        if m > 1 and kind == "tuple" and R.random() < .3: fs[-1] = fs[0]
        return kind, fs
    wh = "\nwhere " + ", ".join(where) if where else ""
    # every lifetime and parameter has to occur
    must = ["Ph<'a, (%s)>" % "".join(p + ", " for p in ps)] if life else ["Co<%s>" % p for p in ps]
    g = "<%s>" % ", ".join(gs) if gs else ""
    if R.random() < .5:
        kind, fs = body(True)
        if must and kind == "unit": kind = "tuple"
        if kind == "named": s = "pub struct %s%s%s { %s }" % (n, g, wh, ", ".join(fs + ["m%d: %s" % x for x in enumerate(must)]))
        elif kind == "tuple": s = "pub struct %s%s(%s)%s;" % (n, g, ", ".join(fs + must), wh)
        else: s = "pub struct %s%s%s;" % (n, g, wh)
    else:
        vs = []
        disc = R.random() < .25
        for i in range(R.choice([1, 2, 2, 3, 5])):
            kind, fs = body(False)
            if i == 0: fs += must if kind != "named" else ["m%d: %s" % x for x in enumerate(must)]
            if i == 0 and kind == "unit" and must: kind = "tuple"
            if disc: kind_at = R.choice(["", "#[allow(dead_code)] "]); d = " = %d" % (3 * i + 1) if R.random() < .7 else ""
            else: kind_at = R.choice(["", "", "", "/** doc */ ", "#[allow(unused)] "]); d = ""
            vs.append(kind_at + "V%d" % i + {"named": " { %s }" % ", ".join(fs), "tuple": "(%s)" % ", ".join(fs), "unit": ""}[kind] + d)
        s = ("#[repr(u8)]\n" if disc else "") + "pub enum %s%s%s { %s }" % (n, g, wh, ", ".join(vs))
    return DER + s, "" if odd else "    ok::<%s>();" % me_use

HAND = [
    ("pub struct H0<T>(#[parsel(recursive)] Box<H1<T>>, T);", None),
    ("pub enum H1<T> { Leaf(T), Back(#[parsel(recursive)] Box<H0<T>>) }", "H0<Id>"),
    ("pub struct H2 { a: Id, #[parsel(recursive)] b: Maybe<At, Box<H3>> }", "H2"),
    ("pub struct H3 { #[parsel(recursive)] b: Maybe<Comma, Box<H2>>, c: Paren<Id> }", "H3"),
    ("pub enum H4 {}", "H4"),
    ("pub struct H5;", "H5"),
    ("pub struct H6 {}", "H6"),
    ("pub enum H7<T: Tr> where T::Out: Clone { A { x: T::Out, y: T::Out }, B(T) }", "H7<Id>"),
    ("pub enum H8<T, U> { A(T), B(U), C(T, U), D { t: T, u: U }, E }", "H8<Id, LitInt>"),
    ("pub struct H9<T>(T, T, T, Box<T>, Box<T>);", "H9<Id>"),
    ("pub enum H10<A> { L { #[parsel(recursive)] l: Box<H10<A>>, a: A }, N(A) }", "H10<Id>"),
    ("pub struct H11<F>(F) where F: Fn() -> Id;", None),
    ("pub struct H12<const A: usize, const B: bool>(Arr<A>);", "H12<2, true>"),
    ("pub struct H13<'a, 'b: 'a, T: 'b>(Ph<'a, T>, Ph<'b, u8>) where 'b: 'a;", "H13<'static, 'static, Id>"),
    ("pub struct H14<T = Id, U = Maybe<At, T>>(T, U);", "H14"),
    ("pub struct H15<T: Clone + Tr<Out = LitInt>>(T::Out, <T as Tr>::Out);", "H15<Id>"),
    ("pub struct H16<T>(pub(crate) T, pub T);", "H16<Id>"),
    ("pub enum H17 { A = 3, B = 7 }", "H17"),
    ("pub struct r#type<T>(T);", "r#type<Id>"),
    ("pub struct H18<r#fn>(r#fn);", "H18<Id>"),
    ("pub struct H19<input, tokens>(input, tokens);", "H19<Id, Id>"),
    ("pub struct H20<T>(#[parsel(recursive = false)] T, #[parsel(recursive = true)] Box<Maybe<At, H20<T>>>);", "H20<Id>"),
    ("pub struct H21<T>(Box<Maybe<At, T>>, (T)) where;", "H21<Id>"),
    ("pub struct H22<T>((T));", "H22<Id>"),
    ("pub struct H23<T> where T: Clone, { t: T, }", "H23<Id>"),
]
LONG = "Separated<Either<Paren<Bracket<Brace<Maybe<At, Either<Id, Any<LitInt>>>>>>, Maybe<Comma, %s>>, Comma>"
PRE = "Either<%s, " + LONG % "Id" + ">"
HAND += [
    ("pub struct H24<T, U>(%s, %s);" % (LONG % "T", LONG % "U"), "H24<Id, Id>"),
    ("pub struct H25<T, U> { a: %s, b: %s, c: %s }" % (LONG % "T", LONG % "U", LONG % "LitInt"), "H25<Id, LitInt>"),
    ("pub enum H26<T, U> { A(%s), B(%s), C { c: %s } }" % (PRE % "T", PRE % "U", PRE % "Paren<T>"), "H26<Id, LitInt>"),
    ("pub struct H27<T>(%s);" % ", ".join("Either<T, Arr<%d>>" % k for k in range(80)), "H27<Id>"),
    ("pub struct H28<T> { %s }" % ", ".join("f%d: Maybe<Arr<%d>, T>" % (k, k) for k in range(80)), "H28<Id>"),
    ("pub enum H29<T> { %s }" % ", ".join("V%d(Either<Arr<%d>, T>)" % (k, k) for k in range(150)), "H29<Id>"),
    ("pub enum H30<T> { %s }" % ", ".join("V%d { a: Arr<%d>, b: Either<T, Arr<%d>>, #[parsel(recursive)] c: Box<H30<T>> }" % (k, k, k) for k in range(40)) , None),
    ("pub enum H31<%s> { %s }" % (", ".join("T%d" % k for k in range(40)), ", ".join("V%d(T%d)" % (k, k) for k in range(40))), "H31<%s>" % ", ".join(["Id"] * 40)),
    ("pub struct H32<%s>(%s) where %s;" % (", ".join("T%d" % k for k in range(20)), ", ".join("T%d" % k for k in range(20)), ", ".join("T%d: Clone" % k for k in range(20))), "H32<%s>" % ", ".join(["Id"] * 20)),
    ("pub struct H33<T>(%s T);" % ("Id, " * 300), "H33<Id>"),
    ("#[repr(i16)] pub enum H34<T, U> { A(T) = -1, B { u: U } = 300, C, D(Paren<U>, #[parsel(recursive)] Box<H34<T, U>>, Paren<T>) = 7 }", "H34<Id, LitInt>"),
    ("pub enum H35<A, B, C, D> { V { #[parsel(recursive)] l: Box<H35<A, B, C, D>>, a: A }, W(#[parsel(recursive)] Box<H35<A, B, C, D>>, B, #[parsel(recursive)] Box<H35<A, B, C, D>>, C), X { d: D, #[parsel(recursive)] l: Box<H35<A, B, C, D>> } }", "H35<Id, Id, Id, Id>"),
    ("pub struct H36<A, B> { #[parsel(recursive)] l: Box<Maybe<At, H36<A, B>>>, a: A, #[parsel(recursive)] r: Box<Maybe<Comma, H36<A, B>>>, b: B }", "H36<Id, Id>"),
    ("pub struct H37<T>(Box<T>, #[parsel(recursive)] Box<T>);", "H37<Id>"),
    ("pub struct H38<T>(#[parsel(recursive)] Box<T>, Box<T>) where T: ::parsel::Parse + ::parsel::ToTokens;", "H38<Id>"),
    ("pub struct H39<T>(#[parsel(recursive)] T, #[parsel(recursive)] Box<T>) where T: ::parsel::Parse + ::parsel::ToTokens;", "H39<Id>"),
    ("pub struct H40<'a, T: 'a>(&'a T, [T; 3], (T, Id), fn(T) -> T, Vec<T>, Option<T>);", None),
    ("pub enum H41<'a, T: 'a + ?Sized, const N: usize> { A(&'a T, Arr<N>), B { x: Box<T>, y: [Box<T>; N] }, C }", None),
    ("pub struct H42<T: Tr<Out = U>, U>(T, U, T::Out);", "H42<Id, LitInt>"),
    ("pub struct H43<T>(Vec<T>) where Vec<T>: Clone, [T]: core::fmt::Debug, for<'x> &'x T: core::fmt::Debug,;", None),
]
BAD = ["pub union X { a: u8, b: u16 }", "pub union X<T: Copy> { a: T }",
       "pub struct X(#[parsel(recursiv)] Id);", "pub struct X { #[parsel(recursive = 1)] a: Id }", "pub struct X { #[parsel(recursive, recursive)] a: Id }",
       "pub struct X(Id, #[parsel(skip)] Id);", "pub enum X { A, B(Id, #[parsel(bogus = true)] Id) }", "pub enum X { A { a: Id }, B { #[parsel(other)] a: Id } }",
       "pub struct X<T>(#[parsel(recursive, more)] T);", "pub struct X(#[parsel(recursive = \"yes\")] Id);", "pub enum X { A(#[parsel(Recursive)] Id) }"]

out, uses = [HEAD], []
for s, u in HAND:
    out.append(DER + s + "\n")
    if u: uses.append("    ok::<%s>();" % u)
for k in range(N):
    s, u = decl(k)
    out.append(s + "\n")
    if u: uses.append(u)
out.append("pub fn uses() {\n" + "\n".join(uses) + "\n}\n")
bad = ["//! Generated by tools/gen_bounds.py. One declaration per line that derive(Parse) and derive(ToTokens) have to reject.\n#![allow(dead_code, unused_imports)]\nuse ::parsel::ast::Word;\npub type Id = Word;\nfn main() {}"]
for k, s in enumerate(BAD):
    for t in ("Parse", "ToTokens"): bad.append("mod %s%d { use super::*; #[derive(::parsel::%s)] %s }" % (t.lower(), k, t, s))
os.makedirs(os.path.join(OUT, "src"), exist_ok=True)
open(os.path.join(OUT, "src", "lib.rs"), "w").write("\n".join(out))
open(os.path.join(OUT, "src", "bad.rs"), "w").write("\n".join(bad) + "\n")
if len(sys.argv) > 1: shutil.copy(os.path.join(V, "bounds", "Cargo.toml"), OUT)

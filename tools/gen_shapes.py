#!/usr/bin/env python3
"""Writes shapes/src/lib.rs (types on which the derives are validated) and shapes/shapes.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "ABCDEFGHIJKL"
FUNNY = ["tokens", "input", "error", "result", "cause", "fork", "ast_node", "err", "parsel_tokens", "value", "message", "stream"]
S = []
def struct(name, kind, fields, gens=None, extra="", attrs=None, where=""):
    S.append(dict(name=name, kind="struct", fkind=kind, fields=fields, gens=gens, extra=extra, attrs=attrs or {}, where=where))
def enum(name, variants, gens=None, attrs=None, where=""):
    S.append(dict(name=name, kind="enum", variants=variants, gens=gens, attrs=attrs or {}, where=where))
def params(fields):
    return sorted({t for _, t in fields if len(t) == 1})
for n in (0, 1, 2, 3, 5, 8, 12):
    struct("SN%d" % n, "named", [("f%d" % i, P[i]) for i in range(n)])
    struct("ST%d" % n, "tuple", [(str(i), P[i]) for i in range(n)])
struct("SU", "unit", [])
struct("SK", "named", [(f, P[i]) for i, f in enumerate(FUNNY)])
struct("SRaw", "named", [("r#type", "A"), ("r#match", "B"), ("r#fn", "C")])
struct("SRev", "named", [("d", "A"), ("c", "B"), ("b", "C"), ("a", "D")])
struct("SPerm", "named", [("a", "C"), ("b", "A"), ("c", "D"), ("d", "B")])
struct("SRep", "named", [("first", "A"), ("second", "B"), ("third", "A"), ("fourth", "A")])
struct("STRep", "tuple", [("0", "A"), ("1", "A"), ("2", "B"), ("3", "A")])
struct("SAttr", "named", [("a", "A"), ("b", "B")], attrs={"a": "#[doc = \"x\"]", "b": "#[allow(dead_code)]"})
struct("SRecAttr", "named", [("a", "A"), ("b", "B"), ("c", "A")], gens="<A: ::parsel::Parse + ::parsel::ToTokens, B>", attrs={"a": "#[parsel(recursive)]", "c": "#[parsel(recursive)]"})
struct("STRecAttr", "tuple", [("0", "A"), ("1", "B")], gens="<A, B: ::parsel::Parse + ::parsel::ToTokens>", attrs={"1": "#[parsel(recursive)]"})
struct("SConst", "named", [("a", "A"), ("b", "B")], gens="<A, B, const N: usize>")
v = lambda n, k, *f: (n, k, [(str(i) if k == "tuple" else x[0], x if k == "tuple" else x[1]) for i, x in enumerate(f)])
enum("E0", [])
enum("E1U", [v("X", "unit")])
enum("E1T", [v("X", "tuple", "A")])
enum("E1N", [v("X", "named", ("a", "A"), ("b", "B"))])
enum("E2", [v("X", "tuple", "A"), v("Y", "tuple", "B")])
enum("E2Prefix", [v("Long", "tuple", "A", "B", "C"), v("Short", "tuple", "A")])
enum("E2Rev", [v("Short", "tuple", "A"), v("Long", "tuple", "A", "B", "C")])
enum("E2Same", [v("First", "tuple", "A"), v("Second", "tuple", "A")])
enum("E3", [v("X", "named", ("a", "A"), ("b", "B")), v("Y", "tuple", "C", "A"), v("Z", "unit")])
enum("E3Mid", [v("X", "tuple", "A", "B"), v("Y", "unit"), v("Z", "tuple", "C")])
enum("E4", [v("X", "tuple", "A", "B", "C"), v("Y", "named", ("p", "A"), ("q", "B"), ("r", "D"), ("s", "C")), v("W", "tuple"), v("Z", "tuple", "D", "C", "B", "A", "A")])
enum("E5", [v("V%d" % i, "tuple" if i % 2 else "named", *[(P[i] if i % 2 else ("x", P[i]))] + ([(P[0] if i % 2 else ("y", P[0]))] if i > 1 else [])) for i in range(5)])
enum("E8", [v("V%d" % i, "tuple", P[i]) for i in range(8)])
enum("E8Len", [v("V%d" % i, "tuple", *(["A"] * (8 - i))) for i in range(7)])
enum("EFunny", [v("Ok", "tuple", "A"), v("Err", "named", ("tokens", "B"), ("input", "C")), v("None", "named", ("error", "C"), ("result", "A"), ("err", "B")), v("Some", "named", ("parsel_tokens", "A"), ("fork", "B"))])
enum("ERaw", [v("X", "named", ("r#type", "A"), ("r#match", "B")), v("Y", "tuple", "B")])
enum("EEmptyV", [v("X", "tuple", "A", "B"), v("Y", "named")])
NAMES = ["Empty", "Eof", "NotEof", "Literal", "PhantomData", "Boxed", "Ident", "Maybe", "Span"]
NG = "<" + ", ".join(NAMES) + ">"
struct("SNames", "named", [("f%d" % i, n) for i, n in enumerate(NAMES)], gens=NG)
struct("STNames", "tuple", [(str(i), n) for i, n in enumerate(NAMES)], gens=NG)
enum("ENames", [v("X", "tuple", *NAMES[:4]), v("Y", "named", *[("f%d" % i, n) for i, n in enumerate(NAMES[4:])])], gens=NG)
struct("SOdd", "named", [("_a", "A"), ("__b", "B"), ("span", "C"), ("phantom", "A"), ("_c1", "B"), ("recursive", "A")])
enum("EWide", [v("X", "tuple", *P), v("Y", "named", *[("f%d" % i, P[i]) for i in range(12)])], gens="<" + ", ".join(P) + ">")
enum("EVariants", [v(n, "tuple", P[i]) for i, n in enumerate(["Empty", "Eof", "Default", "Other", "Unknown", "Error", "_Hidden", "Parse"])])
BG = "<" + ", ".join(x + ": ::parsel::Parse + ::parsel::ToTokens" for x in "ABC") + ">"
struct("SComp", "named", [("a", "Paren<A>"), ("b", "Maybe<A, B>"), ("c", "Box<C>"), ("d", "Any<B>"), ("e", "Separated<A, B>")], gens=BG)
struct("STComp", "tuple", [("0", "Either<A, B>"), ("1", "Brace<Any<A>>"), ("2", "Bracket<Maybe<B, C>>"), ("3", "LeftAssoc<A, C>"), ("4", "Box<RightAssoc<B, C>>")], gens=BG)
enum("EComp", [v("X", "tuple", "Box<A>", "Maybe<B, C>"), v("Y", "named", ("x", "Any<A>"), ("y", "Paren<Any<B>>")), v("Z", "tuple", "Box<Separated<A, C>>")], gens=BG)
# beyond a dozen
struct("SN20", "named", [("g%d" % i, P[(i * 5) % 12]) for i in range(20)])
struct("ST17", "tuple", [(str(i), P[(i * 7) % 12]) for i in range(17)])
enum("E14", [v("W%d" % i, *(("tuple", P[i % 4]) if i % 3 == 0 else ("named", ("k", P[i % 4]), ("l", P[(i + 1) % 4])) if i % 3 == 1 else ("tuple", P[i % 4], P[(i + 2) % 4], P[i % 4]))) for i in range(14)])
enum("E2Wide", [v("Big", "named", *[("h%d" % i, P[(i * 5) % 6]) for i in range(15)]), v("Big2", "tuple", *[P[i % 6] for i in range(14)])])
# bounds, defaults, attributes, places of unit variants
struct("SWhere", "named", [("a", "A"), ("b", "B")], where="where A: Clone, B: ::core::fmt::Debug")
struct("STWhere", "tuple", [("0", "A"), ("1", "B"), ("2", "A")], where="where B: Clone")
enum("EWhere", [v("X", "tuple", "A", "B"), v("Y", "named", ("b", "B"))], where="where A: Clone")
struct("SDefault", "named", [("b", "B"), ("a", "A")], gens="<A, B = A>")
enum("EDefault", [v("X", "tuple", "B"), v("Y", "tuple", "A", "B")], gens="<A: Clone, B = A>")
struct("SDeep", "named", [("a", "Paren<Any<Bracket<A>>>"), ("b", "Maybe<A, Maybe<B, C>>"), ("c", "Box<Box<C>>"), ("d", "Separated<Paren<A>, B>"), ("e", "Either<Either<A, B>, C>")], gens=BG)
enum("EUnits", [v("X", "named", ("a", "A")), v("Y", "tuple", "B", "A"), v("Z", "unit"), v("After", "unit"), v("Last", "tuple", "B")])
enum("ENested", [v("X", "tuple", "Paren<A>", "B"), v("Y", "tuple", "Maybe<B, A>"), v("Z", "tuple", "C")], gens=BG)
enum("EAttr", [v("X", "tuple", "A"), v("Y", "named", ("b", "B"), ("c", "C"))], attrs={"X": "#[doc = \"x\"]", "Y": "#[allow(dead_code)]"})
enum("ENamesake", [v("ENamesake", "tuple", "A"), v("A", "named", ("A", "B")), v("B", "tuple", "B", "A")])
def gens(s):
    if s.get("gens"): return s["gens"]
    fs = s["fields"] if s["kind"] == "struct" else [f for x in s["variants"] for f in x[2]]
    ps = params(fs)
    return "<" + ", ".join(ps) + ">" if ps else ""
def body(kind, fields, attrs, pub, semi, where=""):
    if kind == "unit": return semi
    if kind == "named": return " " + where + " { " + " ".join("%s %s%s: %s," % (attrs.get(n, ""), pub, n, t) for n, t in fields) + " }"
    return "(" + ", ".join("%s %s%s" % (attrs.get(n, ""), pub, t) for n, t in fields) + ")" + (" " + where if where else "") + semi
out = ["//! Generated by tools/gen_shapes.py. Types on which the derives are validated.",
       "#![allow(dead_code, unused_imports, non_camel_case_types)]", "use ::parsel::{Display, FromStr, Parse, ToTokens};", "use ::parsel::ast::{Any, Brace, Bracket, Either, LeftAssoc, Maybe, Paren, RightAssoc, Separated};", ""]
for s in S:
    out.append("#[derive(Clone, Debug, PartialEq)]\n#[cfg_attr(feature = \"p\", derive(Parse))]\n#[cfg_attr(feature = \"t\", derive(ToTokens))]\n#[cfg_attr(feature = \"s\", derive(FromStr, Display))]")
    if s["kind"] == "struct":
        out.append("pub struct %s%s%s" % (s["name"], gens(s), body(s["fkind"], s["fields"], s["attrs"], "pub ", ";", s["where"])))
    else:
        out.append("pub enum %s%s %s { %s }" % (s["name"], gens(s), s["where"], " ".join("%s %s%s," % (s["attrs"].get(n, ""), n, body(k, f, {}, "", "")) for n, k, f in s["variants"])))
    s["generics"] = gens(s)
    out.append("")
open(os.path.join(V, "shapes/src/lib.rs"), "w").write("\n".join(out))
json.dump(S, open(os.path.join(V, "shapes/shapes.json"), "w"), indent=0)
open(os.path.join(V, "shapes/Cargo.toml"), "w").write('''[package]
name = "shapes"
version = "0.1.0"
edition = "2021"

[dependencies]
parsel = { path = "/repo/parsel" }

[features]
default = ["s"]
s = ["p", "t"]
p = []
t = []

[workspace]
''')
print(len(S), "shapes")
# ---- harness side: grammar and values of every shape
o = ["//! Generated by tools/gen_shapes.py.", "use crate::gram::{HasG, Val, G as Gm};", "use shapes::*;", "use parsel::ast::{Any, Brace, Bracket, Either, LeftAssoc, Maybe, Paren, RightAssoc, Separated};", ""]
def names(s):
    g = s["generics"].strip()
    return [(p.strip().split(":")[0].split("=")[0].strip(), "const" in p, p.strip()) for p in g[1:-1].split(",")] if g else []
for s in S:
    ns = names(s)
    gd = "<" + ", ".join(p if c else n + ": HasG + Clone + ::core::fmt::Debug" + (" + ::parsel::Parse + ::parsel::ToTokens" if ":" in p else "") for n, c, p in ns) + ">" if ns else ""
    ga = "<" + ", ".join(n.replace("const ", "") for n, c, p in ns) + ">" if ns else ""
    def seq(en, ctor, fields): return 'Gm::Seq { en: "%s", ctor: "%s", fields: vec![%s] }' % (en, ctor, ", ".join('("%s", <%s>::g())' % f for f in fields))
    def node(nm, fields, acc): return 'Val::Node("%s".into(), vec![%s])' % (nm, ", ".join('("%s".into(), %s.val())' % (f[0], a) for f, a in zip(fields, acc)))
    n = s["name"]
    if s["kind"] == "struct":
        g, vv = seq("", n, s["fields"]), node(n, s["fields"], ["self.%s" % f[0] for f in s["fields"]])
    else:
        g = "Gm::Choice(vec![%s])" % ", ".join(seq(n, x[0], x[2]) for x in s["variants"])
        arms = []
        for vn, k, fs in s["variants"]:
            xs = ["x%d" % i for i in range(len(fs))]
            pat = "" if k == "unit" else ("{ %s }" % ", ".join("%s: %s" % (f[0], x) for f, x in zip(fs, xs)) if k == "named" else "(%s)" % ", ".join(xs))
            arms.append("%s::%s %s => %s" % (n, vn, pat, node("%s::%s" % (n, vn), fs, xs)))
        vv = "match self { %s }" % ", ".join(arms) if s["variants"] else "match *self {}"
    o.append("impl%s HasG for %s%s {\n    fn g() -> Gm { %s }\n    fn val(&self) -> Val { %s }\n}" % (gd, n, ga, g, vv))
open(os.path.join(V, "cex/src/shape_impls.rs"), "w").write("\n".join(o) + "\n")

#!/usr/bin/env python3
"""Writes cex/src/bulk.rs: many more types using the derives, of random form, for the harness only (no proof)."""
import os, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = random.Random(20261120)
LOW = """a b x y tokens input error result cause fork ast_node err value message stream span item body data fields field index name ident this that parsel
 parser parse to_tokens f fmt formatter s string i n t ty tt node out buf next prev head tail left right lhs rhs op first last rest inner outer start end begin_token lookahead peek
 cursor variant variant_name ty_name ctor ctor_name enum_name field_name field_str field_index bindings body2 bounds attrs recursive default empty eof len iter vec opt ok some none
 e e1 x1 _0 _1 __field0 __self parsel_field_0 parsel_field_X_0 parsel_input parsel_tokens vx tmp o r res ret v k key val syn quote core alloc std prefix suffix sep kw token
 r#type r#match r#fn r#in r#move r#for r#loop r#impl r#ref r#mut r#use r#where r#let r#if r#else r#struct r#enum r#pub r#try r#async r#dyn r#box r#final field_with_a_very_long_name_indeed_so_long_that_nobody_would_write_it
 naïve größe 名前 camelCase SHOUT Upper""".split()
UP = """A B X Y Z Ok2 Error2 Err Ok Some None Empty Eof NotEof Default Parse Tokens Input Result2 Fork Node Value Item Left Right Unit Tuple Named Other Unknown Self_ Expr Stmt Type Fn Struct Enum Variant
 Literal Ident Punct Group Span Stream Boxed Vec2 Option2 String2 Maybe Any Many Paren lower under_score V0 V1 Été X_0 Parse_ Recursive Parsel Token Syn Core T U K""".split()
TN = """Input Tokens Node Expr Fork Cause Variant Field Parser2 Ast Item Value Entry Rule Production Choice Sequence Wrapper Leaf Tree Chain_ Lower_case Größe Z9 X Y W Q_ Abc T U Stream Cursor2 Formatter2 Error_ Result_""".split()
ATOM = ["I", "D", "C", "P", "S", "Q", "F", "syn::LitStr"]
WORD = ["I", "D", "I", "D", "C", "P", "S", "Q", "F", "syn::LitStr"]
made = []
def ty(r, depth=0):
    k = r.randrange(16)
    if depth > 1 or k < 8: return r.choice(WORD)
    solid = lambda: r.choice(["I", "D", "I", "D", "syn::LitStr", "Paren<I>", "ST2<I, D>", "E2<I, D>"])
    if k == 8: return "%s<%s>" % (r.choice(["Paren", "Bracket", "Brace"]), ty(r, depth + 1))
    if k == 9: return "Maybe<%s, %s>" % (r.choice(["C", "P", "Q", "S"]), ty(r, depth + 1))
    if k == 10: return "Any<%s>" % solid()
    if k == 11: return "%s<%s, %s>" % (r.choice(["Separated", "Punctuated"]), solid(), r.choice(["C", "P"]))
    if k == 12: return "Box<%s>" % ty(r, depth + 1)
    if k == 13: return "Either<%s, %s>" % (solid(), r.choice(ATOM))
    if k == 14: return r.choice(["LeftAssoc<P, %s>", "RightAssoc<P, %s>"]) % solid()
    if made and depth == 0: return r.choice(made)[0]
    return r.choice(["SN2<I, D>", "ST2<D, D>", "E2Prefix<I, C, D>", "Empty", "ST1<I>"])
def count(r, most):
    return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40]) if most else r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 7, 9])
def fields(r, kind, n, long):
    names = r.sample(LOW, n) if kind == "named" else [str(i) for i in range(n)]
    return [(x, r.choice(WORD) if long and r.random() < .9 else ty(r)) for x in names]
def attr(r):
    return r.choice([""] * 12 + ["/// documented\n", "#[doc(hidden)]", "#[allow(dead_code, unused)]", "#[cfg(all())]", "#[parsel(recursive)]", "#[parsel(recursive)]", "/// d\n #[parsel(recursive)] /// e\n", "#[parsel(recursive = true)]", "#[parsel(recursive = false)]", "#[allow(dead_code)] #[parsel(recursive)]"])
def vattr(r): return r.choice([""] * 8 + ["/// documented\n", "#[doc(hidden)]", "#[allow(dead_code)]", "#[cfg(all())]"])
def body(r, kind, fs, vis, semi):
    v = lambda: r.choice(["pub ", "pub ", "", "pub(crate) ", "pub(super) "]) if vis else ""
    if kind == "unit": return semi
    if kind == "named": return " { " + ", ".join("%s %s%s: %s" % (attr(r), v(), n, t) for n, t in fs) + r.choice(["", ","][:2 if fs else 1]) + " }"
    return "(" + ", ".join("%s %s%s" % (attr(r), v(), t) for n, t in fs) + ")" + semi
o = ["//! Generated by tools/gen_bulk.py: types of random form using the derives.", "#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, uncommon_codepoints, confusable_idents, mixed_script_confusables)]", ""]
seq = lambda en, ctor, fs: 'Gm::Seq { en: "%s", ctor: "%s", fields: vec![%s] }' % (en, ctor, ", ".join('("%s", <%s as HasG>::g())' % f for f in fs))
node = lambda nm, fs, acc: 'Val::Node("%s".into(), vec![%s])' % (nm, ", ".join('("%s".into(), %s.val())' % (f[0], a) for f, a in zip(fs, acc)))
for k in range(120):
    r = random.Random(R.random())
    n, path = r.choice(TN), None
    path = "b%d::%s" % (k, n)
    ta = r.choice(["", "", "", "/// a type\n", "#[must_use]\n", "#[doc(hidden)]\n"])
    if k % 2 == 0:
        kind = r.choice(["named", "named", "named", "tuple", "tuple", "unit"])
        m = count(r, True) if kind != "unit" else 0
        fs = fields(r, kind, m, m > 9)
        d = "pub struct %s%s" % (n, body(r, kind, fs, True, ";"))
        g, vv = seq("", n, fs), node(n, fs, ["self.%s" % f[0] for f in fs])
        made.append((path, "C01 C04 C05"))
    else:
        vs = []
        m = max(1, r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 12, 16, 17, 20, 25, 33]))
        for vn in r.sample(UP, m):
            kind = r.choice(["named", "named", "tuple", "tuple", "tuple"]) if r.random() < .95 else "unit"
            c = count(r, r.random() < .1) if kind != "unit" else 0
            if c == 0 and r.random() < .7: c = 1
            if kind == "unit": c = 0
            vs.append((vn, kind, fields(r, kind, c, m > 4)))
        d = "pub enum %s { %s }" % (n, ", ".join("%s %s%s" % (vattr(r), vn, body(r, kind, fs, False, "")) for vn, kind, fs in vs))
        g = "Gm::Choice(vec![%s])" % ", ".join(seq(n, vn, fs) for vn, kind, fs in vs)
        arms = []
        for vn, kind, fs in vs:
            xs = ["x_%d" % i for i in range(len(fs))]
            pat = "" if kind == "unit" else ("{ %s }" % ", ".join("%s: %s" % (f[0], x) for f, x in zip(fs, xs)) if kind == "named" else "(%s)" % ", ".join(xs))
            arms.append("%s::%s %s => %s" % (n, vn, pat, node("%s::%s" % (n, vn), fs, xs)))
        vv = "match self { %s }" % ", ".join(arms)
        made.append((path, "C02 C03 C04 C05"))
    o.append("pub mod b%d {\n    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};\n    %s#[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]\n    %s\n    impl HasG for %s {\n        fn g() -> Gm { %s }\n        fn val(&self) -> Val { %s }\n    }\n}" % (k, ta, d, n, g, vv))
# very many variants, each with sentences of its own; very many fields
def big(k, n, d, g, vv, tags):
    made.append(("b%d::%s" % (k, n), tags))
    o.append("pub mod b%d {\n    use crate::bulk::*; use crate::gram::{HasG, Val, G as Gm};\n    #[derive(Clone, Debug, parsel::Parse, parsel::ToTokens, parsel::FromStr, parsel::Display)]\n    %s\n    impl HasG for %s { fn g() -> Gm { %s } fn val(&self) -> Val { %s } }\n}" % (k, d, n, g, vv))
for k, bits in ((120, 5), (121, 7)):
    vs = [("V%d" % i, "tuple", [(str(j), "CP"[i >> j & 1]) for j in range(bits)] + [(str(bits), "DI"[i & 1])]) for i in range(1 << bits)]
    arms = ["Code::%s(%s) => %s" % (vn, ", ".join("x%d" % j for j in range(bits + 1)), node("Code::%s" % vn, fs, ["x%d" % j for j in range(bits + 1)])) for vn, _, fs in vs]
    big(k, "Code", "pub enum Code { %s }" % ", ".join(vn + body(R, "tuple", fs, False, "") for vn, _, fs in vs), "Gm::Choice(vec![%s])" % ", ".join(seq("Code", vn, fs) for vn, _, fs in vs), "match self { %s }" % ", ".join(arms), "C02 C03 C04 C05")
for k, m, kind in ((122, 70, "named"), (123, 70, "tuple")):
    fs = [(("f%d" % i if kind == "named" else str(i)), "IDPSD"[i * i % 5]) for i in range(m)]
    big(k, "Wide", "pub struct Wide%s" % body(R, kind, fs, True, ";"), seq("", "Wide", fs), node("Wide", fs, ["self.%s" % f[0] for f in fs]), "C01 C04 C05")
o.append("pub use crate::types::{C, D, F, I, P, Q, S};\npub use parsel::ast::{Any, Brace, Bracket, Either, Empty, LeftAssoc, Maybe, Paren, Punctuated, RightAssoc, Separated};\npub use parsel::syn;\npub use shapes::{E2, E2Prefix, SN2, ST1, ST2};")
o.append("#[macro_export]\nmacro_rules! bulk_types { ($m:ident) => { $m! { %s } } }" % " ".join('"%s" yes: %s;' % (t, ", ".join(p for p, u in made if u == t)) for t in ("C01 C04 C05", "C02 C03 C04 C05")))
open(os.path.join(V, "cex/src/bulk.rs"), "w").write("\n".join(o) + "\n")

#!/usr/bin/env python3
"""Writes quotes/src/lib.rs (functions that use try_parse_quote! and try_parse_quote_spanned!) and spec/quote.spec (what each gives),
both from the token lists below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PUNCT = "+ - * / % ^ & | ! = < > , ; : . @ # ? -> => == != <= >= :: .. ... ..= += -= *= /= && || << >> <<=".split()
G = {"(": 0, "[": 1, "{": 2}
C = {"(": ")", "[": "]", "{": "}"}
# a quoted text: words; $a is an interpolation
Q = ["", "foo", "foo bar r#fn 'a 1 \"x\" , ;", "$a", "$a , $b", "( $a [ ] { foo } ) $a", "- 1", "( ( ( $a ) ) , )", "fn foo ( ) { $a }", "_ crate self", "1.5 b\"x\" 'c' 0x1f_u8", "$a $a $b $a"]
Q += [" ".join(PUNCT[i:i + 12]) for i in range(0, len(PUNCT), 12)]
def tree(ws):
    out = []
    while ws:
        w = ws.pop(0)
        if w in G: out.append((w, tree(ws)))
        elif w in C.values(): return out
        else: out.append(w)
    return out
def rust(t): return " ".join("%s %s %s" % (x[0], rust(x[1]), C[x[0]]) if isinstance(x, tuple) else "#" + x[1:] if x[0] == "$" else x for x in t)
def one(x, sp):
    if isinstance(x, tuple): return "qt(TT::Group(%d, %s, %s))" % (G[x[0]], spec(x[1], sp), sp)
    if x[0] == "$": return "%s.toks()" % x[1:]
    if x in PUNCT: return "qt(TT::Punct(\"%s\"@, %s))" % (x, sp)
    if x[0] == "'" and x[-1] != "'": return "qt(TT::Lifetime(\"%s\"@, %s))" % (x, sp)
    if x[0].isdigit() or x[0] in "\"'" or x[:2] == "b\"": return "qt(TT::Lit(\"%s\"@, %s))" % (x.replace("\"", "\\\""), sp)
    return "qt(TT::Ident(\"%s\"@, %s))" % (x, sp)
def spec(t, sp): return " + ".join(one(x, sp) for x in t) if t else "Seq::<TT>::empty()"
lib = ["//! Generated by tools/gen_quotes.py. Uses of the quoting macros.", "use ::parsel::{try_parse_quote, try_parse_quote_spanned, Error, Parse, Result, Span, ToTokens};"]
sp = ["#opts {}"]
def fn(name, spanned, body, toks):
    used = sorted({w[1:] for q in toks for w in q.split() if w[0] == "$"})
    g = "".join(", %s: ToTokens" % u.upper() for u in used)
    a = (["span: Span"] if spanned else []) + ["%s: &%s" % (u, u.upper()) for u in used]
    return g, ", ".join(a)
for k, q in enumerate(Q):
    for spanned in (False, True):
        t = tree(q.split())
        n = "quote%s_%d" % ("_spanned" if spanned else "", k)
        g, a = fn(n, spanned, q, [q])
        m = "try_parse_quote_spanned!(span => %s)" % rust(t) if spanned else "try_parse_quote!(%s)" % rust(t)
        lib.append("pub fn %s<T: Parse%s>(%s) -> Result<T> { Ok(%s) }" % (n, g, a, m))
        sp += ["#fn %s" % n, "contract:", "    ensures r == parsed::<T>(%s)" % spec(t, "span@" if spanned else "call_site()"), "prologue:", "    broadcast use qcat, qnone, qone;"]
# several in one function: the first that fails decides
lib.append("pub fn quote_twice<T: Parse, U: Parse, A: ToTokens>(a: &A) -> Result<(T, U)> { let x: T = try_parse_quote!(#a foo); let y: U = try_parse_quote!(bar #a); Ok((x, y)) }")
sp += ["#fn quote_twice", "contract:", "    ensures match parsed::<T>(a.toks() + qt(TT::Ident(\"foo\"@, call_site()))) { Ok(x) => match parsed::<U>(qt(TT::Ident(\"bar\"@, call_site())) + a.toks()) { Ok(y) => r == Ok::<(T, U), Error>((x, y)), Err(e) => r == Err::<(T, U), Error>(e) }, Err(e) => r == Err::<(T, U), Error>(e) }", "prologue:", "    broadcast use qcat, qnone, qone;"]
lib.append("pub fn quote_spanned_twice<T: Parse, U: Parse, A: ToTokens>(span: Span, other: Span, a: &A) -> Result<(T, U)> { let x: T = try_parse_quote_spanned!(span => #a foo); let y: U = try_parse_quote_spanned!(other => bar #a); Ok((x, y)) }")
sp += ["#fn quote_spanned_twice", "contract:", "    ensures match parsed::<T>(a.toks() + qt(TT::Ident(\"foo\"@, span@))) { Ok(x) => match parsed::<U>(qt(TT::Ident(\"bar\"@, other@)) + a.toks()) { Ok(y) => r == Ok::<(T, U), Error>((x, y)), Err(e) => r == Err::<(T, U), Error>(e) }, Err(e) => r == Err::<(T, U), Error>(e) }", "prologue:", "    broadcast use qcat, qnone, qone;"]
# the error becomes what the function returns
lib.append("pub fn quote_other_error<T: Parse, E: From<Error>, A: ToTokens>(a: &A) -> core::result::Result<T, E> { let x: T = try_parse_quote!(#a); Ok(x) }")
# repetition, and a span that is computed (run only: the loop of a repetition is hidden in quote's traits)
lib.append("pub fn quote_repeat<T: Parse, A: ToTokens>(a: &[A]) -> Result<T> { Ok(try_parse_quote!([#(#a),*] #(#a)*)) }")
lib.append("pub fn quote_spanned_repeat<T: Parse, A: ToTokens>(span: &mut dyn FnMut() -> Span, a: &[A]) -> Result<T> { Ok(try_parse_quote_spanned!(span() => [#(#a),*] #(#a)* foo)) }")
open(os.path.join(V, "quotes/src/lib.rs"), "w").write("\n".join(lib) + "\n")
open(os.path.join(V, "spec/quote.spec"), "w").write("\n".join(sp) + "\n")

# the same functions run, against tokens put together by hand
def build(t, b):
    out = ""
    for x in t:
        if isinstance(x, tuple): out += "%s.group('%s', |b| { %s }); " % (b, x[0], build(x[1], "b"))
        elif x[0] == "$": out += "%s.add(%s); " % (b, x[1:])
        elif x in PUNCT: out += "%s.punct(\"%s\"); " % (b, x)
        elif x[0] == "'" and x[-1] != "'": out += "%s.lifetime(\"%s\"); " % (b, x[1:])
        elif x[0].isdigit() or x[0] in "\"'" or x[:2] == "b\"": out += "%s.lit(\"%s\"); " % (b, x.replace("\"", "\\\""))
        else: out += "%s.ident(\"%s\"); " % (b, x)
    return out
cx = ["// Generated by tools/gen_quotes.py.", "macro_rules! quote_cases { ($run:ident, $t:ty, $s:ident, $a:ident, $b:ident) => {"]
for k, q in enumerate(Q):
    for spanned in (False, True):
        used = sorted({w[1:] for w in q.split() if w[0] == "$"})
        n = "quote%s_%d" % ("_spanned" if spanned else "", k)
        a = ", ".join((["$s"] if spanned else []) + ["$" + u for u in used])
        b = build(tree(q.split()), "b").replace("b.add(a)", "b.add($a)").replace("b.add(b)", "b.add($b)")
        cx.append("    case!($run, $t, %s, %s, %s, |b: &mut Build| { %s }, quotes::%s::<$t%s>(%s));" % (json.dumps(n), "Some($s)" if spanned else "None", json.dumps(rust(tree(q.split()))), b, n, ", _" * len(used), a))
cx.append("} }")
open(os.path.join(V, "cex/src/quote_cases.rs"), "w").write("\n".join(cx) + "\n")

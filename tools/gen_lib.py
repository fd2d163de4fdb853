#!/usr/bin/env python3
"""Writes cex/src/lib_types.rs: compositions of the library's productions of random form, per property."""
import random, os
R = random.Random(20261120)
LEAF = ["I", "D", "C", "P", "S", "Q"]
def pick(*w): return R.choices([a for a, _ in w], [b for _, b in w])[0]
# a type and whether it always consumes a token
def ty(d, nz=False):
    if d <= 0:
        if nz or R.random() < .8: return R.choice(LEAF), True
        return R.choice(["Empty", "Empty", "Eof", "NotEof"]), False
    k = pick(("leaf", 3), ("grp", 3), ("maybe", 2), ("any", 2), ("sep", 2), ("pun", 1.5), ("many", 1), ("assoc", 1.5), ("either", 1.5), ("st", 2), ("e", 1.5), ("zero", .7))
    if nz and k in ("maybe", "any", "pun", "many", "zero"): k = R.choice(["grp", "leaf", "st", "e", "sep", "assoc", "either"])
    return make(k, d, nz)
def make(k, d, nz=False):
    if k == "leaf": return R.choice(LEAF), True
    if k == "zero": return R.choice(["Empty", "Empty", "Eof", "NotEof"]), False
    if k == "grp": return "%s<%s>" % (R.choice(["Paren", "Bracket", "Brace"]), ty(d - 1)[0]), True
    if k == "maybe":
        p, pn = ty(d - 2 if R.random() < .7 else d - 1, R.random() < .8); return "Maybe<%s, %s>" % (p, ty(d - 1)[0]), False
    if k == "any": return "Any<%s>" % ty(d - 1, True)[0], False
    if k == "many": return "Many<%s>" % ty(d - 1, True)[0], False
    if k == "sep": return "Separated<%s, %s>" % (ty(d - 1, True)[0], ty(d - 2, R.random() < .8)[0]), True
    if k == "pun": return "Punctuated<%s, %s>" % (ty(d - 1, True)[0], ty(d - 2, True)[0]), False
    if k == "assoc": return "%s<%s, %s>" % (R.choice(["LeftAssoc", "RightAssoc"]), ty(d - 2, True)[0], ty(d - 1, True)[0]), True
    if k == "either":
        a, x = ty(d - 1, nz); b, y = ty(d - 1, nz); return "Either<%s, %s>" % (a, b), x and y
    if k == "st":
        n = R.choice([2, 2, 3]); f = [ty(d - 1, nz and i == 0) for i in range(n)]
        return "%s%d<%s>" % (R.choice(["ST", "SN"]), n, ", ".join(a for a, _ in f)), any(x for _, x in f)
    if k == "e":
        a, x = ty(d - 1, nz); b, y = ty(d - 1, nz); return "E2<%s, %s>" % (a, b), x and y
ROOT = {"C06": ["maybe"], "C07": ["grp"], "C08": ["sep", "pun", "many"], "C11": ["assoc"], "C12": ["any"], "C21": ["either"], "C03": ["either"]}
N = {"C07": 16, "C08": 18}
FIX = {
    "C07": ["%s<%s<%s>>" % (a, a, x) for a in ("Paren", "Bracket", "Brace") for x in ("Empty", "Any<I>")] + ["Paren<Any<Paren<Empty>>>", "Bracket<Maybe<C, Bracket<Empty>>>", "Brace<Paren<Brace<Empty>>>", "Paren<Maybe<I, D>>"],
    "C06": ["Maybe<Maybe<C, I>, D>", "Maybe<I, Maybe<I, I>>", "Maybe<Paren<Empty>, Any<I>>"],
    "C08": ["Separated<Maybe<C, I>, P>" , "Separated<Paren<Empty>, Any<C>>", "Punctuated<Separated<I, P>, C>", "Many<Separated<I, C>>"],
    "C11": ["LeftAssoc<Any<C>, I>", "RightAssoc<Any<C>, I>", "LeftAssoc<Maybe<C, P>, I>", "RightAssoc<Maybe<C, P>, I>", "LeftAssoc<P, LeftAssoc<C, I>>", "RightAssoc<P, RightAssoc<C, I>>", "LeftAssoc<P, RightAssoc<C, I>>"],
    "C12": ["Any<Paren<Any<I>>>", "Any<SN2<C, Any<I>>>", "Any<Any1>" ][:2],
}
seen, out = set(), []
def add(p, t, fs):
    if t in seen: return
    seen.add(t); out.append((p, t, fs))
for p, ks in ROOT.items():
    for t in FIX.get(p, []): add(p, t, "yes")
    i = 0
    while i < N.get(p, 10):
        t = make(ks[i % len(ks)], R.choice([2, 3, 3, 4]))[0]
        if len(t) > 130 or t in seen or t.count("<") < 2: continue
        if p == "C03" and "E2" not in t: continue
        add(p, t, "no" if p in ("C21", "C03") else "yes"); i += 1
i = 0
while i < 10:
    t = make(R.choice(["st", "grp", "e", "maybe", "any"]), R.choice([2, 3]))[0]
    if not any(z in t for z in ("Empty", "Eof", "NotEof")) or t in seen or len(t) > 110: continue
    add("C17", t, "no"); i += 1
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "cex", "src", "lib_types.rs")
with open(p, "w") as f:
    f.write("//! Generated by tools/gen_lib.py: compositions of the library's productions of random form.\n")
    f.write("#[macro_export]\nmacro_rules! lib_types { ($m:ident) => { $m! {\n")
    for q, t, fs in out: f.write('    "%s" %s: %s;\n' % (q, fs, t))
    f.write("} } }\npub use lib_types;\n")

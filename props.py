"""What is proved for each property: files of contracts and the functions whose bodies are checked."""
PT = ["Empty", "Eof", "NotEof", "Paren", "Bracket", "Brace", "Maybe", "Separated", "Any", "Punctuated", "Either", "LeftAssoc", "RightAssoc"]
def parse(*t): return ["Parse for %s::parse" % x for x in t]
def prints(*t): return ["ToTokens for %s::to_tokens" % x for x in t]
def gram(only, shapes=None, flags=(), structs=True):
    return dict(preludes=["parse.prelude", "print.prelude"], specs=["parse.spec", "print.spec"], types=PT, shapes=shapes, flags=list(flags), only=only)
DELIM = ["Paren", "Bracket", "Brace"]
MARK = ["Empty", "Eof", "NotEof"]
ALL = MARK + DELIM + ["Maybe", "Separated", "Any", "Punctuated", "Either", "LeftAssoc", "RightAssoc"]
SEPINTO = ["Separated::into_first_rest", "Separated::into_last_rest", "Separated::len", "Separated::into_pairs"]
HELP = ["util::try_parse_variant", "util::chain_error"]
FMT = ["TokenStreamFormatter"]
def fmt(flag): return dict(preludes=["fmt.prelude"], specs=["fmt.spec"], types=FMT, shapes=None, flags=[flag], only=None)
WRAPPERS = ["Maybe", "Paren", "Bracket", "Brace", "Any", "Punctuated", "Separated"]
SEPKEYS = "Separated"
def wrap(only, types): return dict(preludes=["wrap.prelude"], specs=["wrap.spec"], types=WRAPPERS, shapes=None, flags=[], only=only)
LITK = ["Bool", "Byte", "Int", "Uint", "Float", "Char", "Str", "ByteStr"]
LITS = ["Lit" + k for k in LITK] + ["Lit"]
def lit(only, flags=()): return dict(preludes=["parse.prelude", "print.prelude", "lit.prelude"], specs=["lit.spec"], types=LITS, shapes=None, flags=["LIT"] + list(flags), only=only)
# C14: token, printing, parsing, classification; C15: values, spans, operators, conversions
LITTOKENS = ["%s::token" % t for t in LITS[:-1]] + prints(*LITS) + parse(*LITS) + ["From<%s> for TokenTree::from" % t for t in LITS[:-1]]
LITFROM = ["From<syn::Lit%s> for Lit%s::from" % (k, k) for k in LITK if k not in ("Int", "Uint", "Float")] + ["TryFrom<syn::LitInt> for LitInt::try_from", "TryFrom<syn::LitInt> for LitUint::try_from", "TryFrom<syn::LitFloat> for LitFloat::try_from", "TryFrom<syn::Lit> for Lit::try_from"]
LITFROM += ["From<Lit%s> for Lit::from" % k for k in LITK] + ["%s::new" % t for t in LITS[:-1]]
KWS = {"KWA": "kw_a: Foo Bar Function This Fo Upper Underscore Keywords", "KWB": "kw_b: X Async Keywords", "KWC": "kw_c: Underscore Keywords", "KWD": "kw_d: Keywords"}
def ident(flag, types, kws=False): return dict(preludes=["parse.prelude", "print.prelude", "lit.prelude", "ident.prelude"], specs=["ident.spec"], types=types, shapes=None, kws=kws, flags=["LIT", "ERR", flag], only=None)
def kwunits():
    for f, t in KWS.items():
        m, ns = t.split(": ")
        yield ident(f, [m + "::" + n for n in ns.split()], True)
def text():
    yield dict(preludes=["parse.prelude", "print.prelude", "text.prelude"], specs=["text.spec"], types=PT, shapes=["text"], flags=["TEXT", "GRAMT"], only=None)
    forward = ["%s for %s::%s" % (a, t, b) for t in LITS + ["CustomIdent"] for a, b in (("Display", "fmt"), ("FromStr", "from_str"))]
    yield dict(preludes=["parse.prelude", "print.prelude", "lit.prelude", "ident.prelude", "text.prelude"], specs=["lit.spec", "text.spec"], types=LITS + ["CustomIdent"], shapes=None, flags=["LIT", "TEXT", "LITT"],
        only=["%s::token" % t for t in LITS[:-1]] + forward)
    for f, t in KWS.items():
        m, ns = t.split(": ")
        if f == "KWD": continue
        yield dict(preludes=["parse.prelude", "print.prelude", "text.prelude"], specs=["text.spec"], types=[m + "::" + n for n in ns.split() if n != "Keywords"], shapes=None, kws=True, flags=["TEXT", f], only=None)
# the derive macros themselves, as functions from declarations to tokens
def derive(flag): return dict(preludes=["quote.prelude", "derive.prelude"], specs=["derive.spec"], types=["Attrs"], shapes=None, macros=True, flags=[flag], only=None)
# syn's own Punctuated against the contracts that wrap.prelude gives it
SYNP = dict(preludes=["wrap.prelude"], specs=["synrep.spec", "synp.spec"], types=["Punctuated", "IntoPairs", "Pair", "IntoIter"], shapes=None, flags=["SYNP"], only=None, deps=["syn::punctuated"])
# syn's Punctuated and quote's append_all against the contracts that parse.prelude and print.prelude give them
def syng(*flags): return dict(preludes=["parse.prelude", "print.prelude"], specs=["synrep.spec", "syng.spec"], types=["Punctuated", "IntoPairs", "Pair", "Pairs"], shapes=None, flags=["SYNG"] + list(flags), only=None, deps=["syn::punctuated", "quote::ext", "quote::to_tokens"])
# property: units (proof files), level, harness seconds (quick, thorough)
PROPS = {
    "C01": dict(derive="p", level="translation_validation", units=[gram(HELP, shapes=["parse"])]),
    "C02": dict(derive="p", level="translation_validation", units=[gram(HELP, shapes=["parse"])], shape_filter="enum"),
    "C03": dict(derive="p", level="proof", units=[gram(HELP + parse(*ALL) + SEPINTO + ["Default for Maybe::default", "Maybe::new"], shapes=["parse"], flags=["ERR"]), syng("ERR")], shape_filter="enum"),
    "C04": dict(derive="p", level="translation_validation", units=[gram(HELP, shapes=["parse"], flags=["ERR"])]),
    "C05": dict(derive="t", level="translation_validation", units=[gram([], shapes=["print"])]),
    "C06": dict(level="proof", units=[gram(parse("Maybe") + prints("Maybe") + ["Default for Maybe::default", "Maybe::new"])]),
    "C07": dict(level="proof", units=[gram(parse(*DELIM) + prints(*DELIM))]),
    "C08": dict(level="proof", units=[gram(parse("Separated", "Punctuated", "NotEof") + prints("Separated", "Punctuated", "NotEof")), syng()]),
    "C09": dict(level="proof", units=[wrap(SEPKEYS, ["Separated"]), gram(parse("Separated"), flags=["SEPINV"]), SYNP]),
    "C10": dict(level="proof", units=[gram(SEPINTO), syng()]),
    "C11": dict(level="proof", units=[gram(parse("LeftAssoc", "RightAssoc", "Separated") + SEPINTO + prints("LeftAssoc", "RightAssoc")), syng()]),
    "C12": dict(level="proof", units=[gram(parse("Any") + prints("Any")), syng()]),
    "C13": dict(derive="s", level="proof", units=[dict(gram(parse(*ALL) + prints(*ALL) + SEPINTO + HELP + ["Default for Maybe::default", "Maybe::new"], shapes=["parse", "print"], flags=["RT"]), specs=["parse.spec", "print.spec", "rt.spec"]), syng()]),
    "C18": dict(level="proof", units=[fmt("FAITH")]),
    "C19": dict(level="proof", units=[fmt("LAYOUT")]),
    "C20": dict(level="proof", units=[dict(preludes=["span.prelude"], specs=["span.spec"], types=["SpanDisplay"], shapes=None, flags=[], only=None)]),
    "C21": dict(level="proof", units=[gram(parse("Either") + prints("Either")), dict(preludes=["either.prelude"], specs=["either.spec"], types=["Either"], shapes=None, flags=[], only=None)]),
    "C22": dict(derive="s", level="proof", units=list(text()),
        assume=["derive(FromStr), derive(Display): their expansion is proved for the 65 types of shapes/src/lib.rs", "define_keywords!: its expansion is proved for the lists of kws/src/lib.rs"]),
    "C23": dict(level="proof", units=[wrap(None, WRAPPERS), SYNP]),
    "C14": dict(level="proof", units=[lit(LITTOKENS + LITFROM)]),
    "C15": dict(level="proof", units=[lit(dict(exclude=[k for k in LITTOKENS if k not in ("LitInt::token", "LitUint::token", "LitFloat::token")]), ["OPS"])]),
    "C16": dict(level="proof", units=[ident("IDENT", ["CustomIdent", "AllowAll", "Word"])] + list(kwunits()),
        assume=["define_keywords!: its expansion is proved for the four lists (ten keywords, one empty list) of kws/src/lib.rs; CustomIdent is proved for every list", "K::default() of a keyword list always gives the same marker"]),
    "C17": dict(level="proof", units=[gram(parse(*MARK) + prints(*MARK))]),
    "C24": dict(level="proof", units=[derive(f) for f in ("PARSE", "PRINT", "READ", "SHOW")],
        trust=["that rustc's trait solver accepts the bounds proved to be generated (and that the printed predicates parse as such) is not expressible in a contract: checked by rustc on the declarations of bounds/ only"],
        assume=["deluxe reads #[parsel(..)] as attrs_of (uninterpreted: any function from fields to attributes or errors); its behaviour on the attribute's forms is only run"]),
    "C25": dict(level="translation_validation", units=[dict(preludes=["quote.prelude"], specs=["quote.spec"], types=[], shapes=None, quotes=True, flags=[], only=None)]),
}
NA = {}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
A = "parsel/src/ast.rs"; U = "parsel/src/util.rs"; L = "parsel/src/lib.rs"
DP, DT, DU = "parsel_derive/src/parse.rs", "parsel_derive/src/to_tokens.rs", "parsel_derive/src/util.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["public API of the parsel crate"], hook_needed=None)))

p("C01", "Derived sequence parsing: all fields, in order, consuming exactly their tokens",
  "Parsing a type whose Parse is derived (a struct, or one variant of an enum) parses its fields one after another in declaration order, each starting exactly where the previous one stopped. It succeeds exactly when every field parses, the value then holds the parsed fields under their own names or positions, and the input is left right after the last field; a unit or field-less type succeeds without consuming anything.",
  ["inputs", "programs"], "every struct/variant shape that can derive Parse (named, tuple, unit, generic, recursive, many fields), all component productions, all token sequences",
  "The tests parse a handful of fixed inputs with a few example types; swapped fields of one type, a skipped field or an over-consumed token in another shape stays invisible.",
  [DP, DU], [("derived Parse for structs and variants", DP), ("ParseStream::parse per field, chained with ?", DP)])
p("C02", "Derived enum parsing is ordered choice with complete backtracking",
  "Parsing an enum whose Parse is derived yields the first variant, in declaration order, that parses at the current position, and leaves the input exactly where that variant stopped. Variants that fail consume nothing and have no influence on the ones after them or on the result, and the enum fails exactly when every variant fails (an empty enum always fails).",
  ["inputs", "programs"], "every enum shape that can derive Parse, any number of variants, all component productions, all token sequences, including variants with long common prefixes",
  "The example enums are tested on a few inputs; a backtracking slip shows only for variants that share a prefix and fail late.",
  [DP, U, A], [("try_parse_variant: parse on a fork, advance on success only", U), ("variant chain with early return", DP)])
p("C03", "A failed choice reports the error of the alternative that got furthest",
  "When all alternatives of a derived enum, or both sides of Either, fail, the error returned is the error of one of the alternatives, namely one whose error location ends furthest in the source among all of them, whatever the order of the alternatives. This also holds for choices nested inside other productions, which pass the location of a component's error on unchanged.",
  ["inputs", "programs"], "all enums and Either types, all failing inputs, all relative orders of the alternatives' error positions",
  "Only a few error spans are asserted by the tests, for specific enums and orders of variants.",
  [U, A, DP], [("try_parse_variant / max_by_key on span().end()", U), ("Either::parse", A)])
p("C04", "Field errors keep the cause and its location and name the failing production",
  "If a field of a derived struct or enum variant fails to parse, the error returned for it has the same source span as the error of the field's production, and its message contains that error's message, the constructor's name, the field's name (or index), and for an enum variant the enum's name.",
  ["inputs", "programs"], "every derivable struct/enum shape, each field position, all failing inputs",
  "Tests assert the text of a few messages only; the chain must hold at every nesting level and for every field.",
  [U, DP], [("chain_error", U), ("map_err per field", DP)])
p("C05", "Derived printing appends exactly the fields' tokens, in order",
  "The derived ToTokens of any struct or enum value appends to the given stream precisely the concatenation, in declaration order, of what the fields of the value (for an enum: of its current variant) append, each exactly once, and nothing else. What the stream already contained stays in front, unchanged; deriving works whatever the fields and variants are called.",
  ["inputs", "programs"], "every struct/enum shape that can derive ToTokens, every value, every prior stream content",
  "Tests print values of a few example types; a dropped, duplicated or reordered field in another shape or variant is not seen.",
  [DT, DU], [("derived ToTokens", DT)])
p("C06", "Maybe is decided by its prefix alone",
  "Parsing Maybe<P, T> where the prefix P does not parse at the current position succeeds with an empty value and consumes nothing. Where the prefix does parse, it is consumed and T must follow: the result holds that prefix and that T and the input is left after T, and if T fails the whole production fails with T's error instead of falling back to empty; printing gives the prefix followed by T, or nothing when empty.",
  ["inputs"], "all prefix and inner productions, all token sequences, including prefixes that consume tokens before failing",
  "Tests cover a couple of prefix/inner pairs.",
  [A], [("Parse for Maybe", A), ("ToTokens for Maybe", A)])
p("C07", "Delimited groups: right delimiter, complete contents, faithful printing",
  "Paren, Bracket and Brace parse exactly when the next token is a group with their own delimiter whose contents begin with the inner production; they consume that one group, and if tokens inside it are left over the overall parse fails. Printing yields exactly one group with that delimiter whose content is the inner value's tokens.",
  ["inputs"], "all inner productions, all token sequences, arbitrary nesting, values printed into non-empty streams",
  "Tests use a few literals inside each delimiter; wrong-delimiter and leftover cases are sampled once.",
  [A], [("Parse/ToTokens for Paren, Bracket, Brace", A)])
p("C08", "Separated, Punctuated and Many accept exactly the delimited lists",
  "Separated<T, P> parses the longest alternation T P T P ... T it can continue: it stops, without consuming anything more, at the first place where P does not parse, and after a P a T is mandatory, so an empty list or a trailing P is an error. Punctuated<T, P> parses the whole rest of the input as such a list, possibly empty and possibly with one trailing P, and Many<T> parses the whole rest of the input as consecutive Ts; in each case items and separators are stored in source order and printing gives them back in that order.",
  ["inputs"], "all item and separator productions that consume at least one token, all lengths, all token sequences",
  "Lengths and separator/item interplay are unbounded; tests use lists of two or three literals.",
  [A], [("Parse for Separated", A), ("Parse for Punctuated", A)])
p("C09", "Separated is never empty and never has trailing punctuation",
  "Every Separated value obtainable through the public API has at least one item and exactly one separator between neighbours, with none at the end: parsing, conversion from a Punctuated (which fails exactly for an empty or trailing one), insert, push, push_value and both Extend implementations all keep this. Each such operation puts exactly the given items and separators at the right place without disturbing the others, and len, first, last and their mutable versions never panic and refer to the real first and last items.",
  ["histories", "inputs"], "all sequences of public operations of any length starting from any constructible value",
  "A representation invariant over all operation histories; the tests run single operations on short lists.",
  [A], [("Separated inherent methods", A), ("TryFrom<Punctuated> for Separated", A), ("Extend for Separated", A)])
p("C10", "into_first_rest and into_last_rest lose nothing and keep the order",
  "into_first_rest splits a Separated into its first item and the list of (separator, item) pairs that follow it, and into_last_rest into its last item and the list of (item, separator) pairs that precede it. For any length, reassembling the parts in order gives exactly the original items and separators, with each separator paired with the item it adjoins, and neither panics.",
  ["inputs"], "all Separated values of any length",
  "The loop that shifts separators is only tested for lengths one and three with identical separators, which cannot detect mispairing.",
  [A], [("Separated::into_first_rest", A), ("Separated::into_last_rest", A)])
p("C11", "LeftAssoc and RightAssoc build the tree the name promises",
  "LeftAssoc<O, R> and RightAssoc<O, L> accept exactly the input that the corresponding operand/operator list accepts, consume the same tokens, and contain the same operands and operators in the same order. The LeftAssoc tree nests only to the left (every right operand is a plain operand, the last operator is the root), the RightAssoc tree nests only to the right (the first operator is the root), and printing either gives the operands and operators in source order.",
  ["inputs"], "all operator and operand productions, all chain lengths",
  "Chains of any length; tests use three-operand chains.",
  [A], [("Parse for LeftAssoc", A), ("Parse for RightAssoc", A), ("ToTokens for LeftAssoc/RightAssoc", A)])
p("C12", "Any is greedy, never fails, and stops before the first non-match",
  "Any<T> parses T as often as T parses consecutively from the current position, always succeeds (possibly with no items), keeps the items in source order, and leaves the input right after the last successful T even if the next attempt consumed tokens before failing. Printing gives the items in order.",
  ["inputs"], "all productions that consume at least one token, all token sequences, failing attempts at any depth",
  "Tests try a few literal lists; partial consumption by a failing last attempt is not covered.",
  [A], [("Parse for Any", A), ("ToTokens for Any", A)])
p("C13", "Printing a parsed value gives back the tokens it was parsed from",
  "For every grammar type made of this library's productions and derives, if a value was parsed from some tokens then its to_tokens output consists of the same tokens in the same order and grouping, up to the spelling of literals (the value of a literal is preserved), invisible groups and the spacing of punctuation. If the whole input was parsed and no punctuation token of it runs into the next one, parsing that output again as the same type gives an equal value.",
  ["inputs", "programs"], "all productions of the library and derived structs/enums over components with that property, all inputs",
  "A whole-language round trip over compositions of productions; the tests check examples.",
  [A, DP, DT], [("pairs of Parse and ToTokens impls", A), ("derive pairs", DP)])
p("C14", "Literal tokens round-trip by value and are classified correctly",
  "Every value of LitBool, LitByte, LitInt, LitUint, LitFloat, LitChar, LitStr and LitByteStr that can be constructed prints, without panicking, tokens that parse back to an equal value of the same type, and the printed token carries the value's span. Each accepts exactly its own kind of literal token whose value its type can represent, LitInt also accepts a preceding minus sign, and Lit yields Bool, Byte, Int or Uint, Float, Char, Str or ByteStr according to the token, with the value that Rust gives it.",
  ["inputs"], "all 256 bytes, all chars, all i64/u64, all non-NaN floats, all strings and byte strings, all literal spellings (bases, suffixes, underscores, escapes, raw strings)",
  "Value spaces far beyond the sampled literals; extreme values and unusual spellings are not tested.",
  [A], [("impl_literal! and token()", A), ("Parse for Lit*", A), ("TryFrom<syn::Lit> for Lit", A)])
p("C15", "Literal comparison looks only at the value; conversions keep value and span",
  "For every literal type equality, ordering, comparison with the raw value type and hashing depend only on the value, never on the span, agree with those of the raw value type and are mutually consistent. Constructors, set_span and conversions to and from syn's literal types and the raw value preserve the value, and the span wherever one is given.",
  ["inputs"], "all pairs of literal values and spans of every literal type, all conversions",
  "Pairwise laws over infinite domains; the tests compare few values.",
  [A], [("impl_literal! operators", A), ("From/TryFrom between Lit* and syn::Lit*", A)])
p("C16", "CustomIdent accepts exactly the identifiers that are not listed keywords",
  "CustomIdent<K> parses, converts from or is created from an identifier exactly when that identifier (by its full textual form, raw prefix included) is not in K's keyword list, Word accepts every identifier including Rust's keywords and a rejected identifier gives an error located at it. A type defined by define_keywords! parses exactly its own keyword, and accepted identifiers keep their text and span through conversion and printing, and both compare equal to a text exactly when it is their full text.",
  ["inputs", "programs"], "all identifiers (raw, Unicode, keywords, prefixes of keywords), all keyword lists of any length",
  "Tests check a few words against one keyword list.",
  [A], [("TryFrom<Ident> for CustomIdent", A), ("Parse for CustomIdent", A), ("define_keywords!", A)])
p("C17", "Empty, Eof and NotEof never consume or print tokens",
  "Parsing Empty always succeeds, Eof succeeds exactly at the end of the current input or group, NotEof succeeds exactly when at least one token is left; none of them ever moves the input, whether it succeeds or fails, and all print nothing.",
  ["inputs"], "all token sequences and positions, inside and outside groups, repeated use",
  "Zero-width behaviour at every position is not observable from the sampled parses.",
  [A], [("Parse for Empty, Eof, NotEof", A)])
p("C18", "The token formatter writes every token once, in order, properly separated",
  "Whatever token stream, indentation and mode (compact, pretty, custom whitespace indent) is given, the formatter's output consists of the text of every token in order, each exactly once, with groups written as opening delimiter, contents, closing delimiter (invisible groups: contents only), and nothing but whitespace in between. Whitespace separates any two neighbouring tokens of a stream unless the first is a joint punctuation, and none is put between a joint punctuation and the token after it, so the text lexes back to the same tokens.",
  ["inputs"], "all token trees of any depth, all whitespace indents, compact and pretty modes",
  "Arbitrary nesting and adjacency; tests compare a few rendered strings.",
  [U], [("TokenStreamFormatter::write", U)])
p("C19", "Formatter layout: indentation tracks nesting, modes and validation are honoured",
  "For streams of visible tokens and groups in pretty mode, each non-empty group's contents start on a new line indented one level deeper, the closing delimiter is on its own line at the outer level, and every stand-alone comma or semicolon and every group that is not the last of its stream is followed by a line break and the indent repeated nesting-depth times; other neighbours are separated by one space, and compact mode never adds a line break and separates by single spaces. with_indent accepts exactly the indent strings consisting only of whitespace; the alternate Display flag selects compact, otherwise pretty; a formatter can be reused after a successful write and starts again at level zero; a writer error is propagated.",
  ["inputs", "histories"], "all token trees, all indents, all sequences of writes to one formatter, writers failing at any point",
  "Depth, reuse and failing writers are not exercised by the tests.",
  [U], [("write_indent/write_newline/write_newline_and_indent", U), ("with_indent", U), ("format_ast_node, format_tokens", U)])
p("C20", "Spans convert to the correct byte and char ranges of the source",
  "For any source text and any span inside it (1-based line, 0-based char column), byte_range gives the byte offsets and char_range the char offsets of exactly that text, for every mix of line endings and multi-byte characters; source_substring returns exactly the node's text and never panics or cuts a character in two. SpanDisplay shows start line:column and end line:column with 1-based inclusive columns.",
  ["inputs"], "all source strings including multi-byte characters, CRLF, empty lines and a missing final newline, all positions in them",
  "The tests use one ASCII/accented sample source.",
  [U], [("byte_offset", U), ("char_offset", U), ("Display for SpanDisplay", U)])
p("C21", "Either behaves as the side it holds",
  "Parsing Either<L, R> gives Left if L parses at the current position, else Right if R does, leaving the input after the one chosen, and it fails exactly when both fail; printing, Display, Debug, iteration, extension and dereferencing of an Either do exactly what the contained side does. left, right, is_left, is_right, flip, as_ref, as_mut, map, transpose and into_inner keep the contained value and its side (flip swaps the side).",
  ["inputs"], "all types L and R, all values, all method sequences, all token sequences",
  "Generic behaviour over all types; the tests exercise parsing of two literals.",
  [A], [("Either inherent methods and trait impls", A)])
p("C22", "FromStr parses the whole string as Parse does; Display prints exactly the tokens",
  "For every node type of the library and every type deriving FromStr, from_str of a string succeeds exactly when parsing the string's tokens as that type succeeds with nothing left over, and gives that value. For every node type and every type deriving Display, the Display output is the formatting of precisely the tokens ToTokens produces (compact with the alternate flag), or for literals, identifiers and empty markers their canonical text.",
  ["inputs", "programs"], "all node types, all strings, all values",
  "Some thirty forwarding implementations plus two derives, only a few of which any test calls.",
  [A, "parsel_derive/src/from_str.rs", "parsel_derive/src/display.rs", U], [("FromStr impls", A), ("Display impls", A), ("derive(FromStr), derive(Display)", "parsel_derive/src")])
p("C23", "Wrappers are transparent: constructors, accessors and conversions lose nothing",
  "For Paren, Bracket, Brace, Maybe, Any, Punctuated and Separated, every constructor, From conversion, accessor, Deref, AsRef, Borrow, index and iteration method gives access to exactly the stored parts: what is put in comes out unchanged and in order, mutable access changes only the addressed part, and a span or delimiter token that was given is kept.",
  ["inputs", "histories"], "all wrapper types, all stored values, all accessors",
  "More than a hundred small forwarding methods with easily confused twins (prefix/inner, first/last, ref/mut); few are tested.",
  [A], [("inherent methods and conversions of the wrappers", A)])
p("C24", "Derives add exactly the bounds a grammar needs; recursive suppresses them",
  "The impl that derive(Parse) or derive(ToTokens) generates has the generic parameters, parameter bounds and where clause of the declaration and, in addition, the bound `FieldType: Parse` (or ToTokens) for the type of every field of the struct or of any variant of the enum that is not marked #[parsel(recursive)], and no other; derive(FromStr) and derive(Display) add only `Self: Parse` and `Self: ToTokens`. A declaration whose recursive fields are marked therefore compiles without a cycle in trait resolution. Unions, and fields with unknown or malformed parsel attributes, are rejected with an error by derive(Parse) and derive(ToTokens).",
  ["programs"], "all type definitions accepted by rustc with the derives applied",
  "Depends on every possible generic type definition.",
  [DU, "parsel_derive/src/parse.rs", "parsel_derive/src/to_tokens.rs", "parsel_derive/src/from_str.rs", "parsel_derive/src/display.rs"], [("add_bounds, field_type, Attrs.recursive", DU), ("expand", "parsel_derive/src/parse.rs")])
p("C25", "Quoting macros parse exactly the quoted tokens and hand failures on",
  "try_parse_quote!(tokens) gives exactly the value that parsing the quoted tokens (interpolations replaced by what they print) as the expected type with nothing left over gives; if that parse fails, the enclosing function returns its error, converted like ? does, and nothing panics. try_parse_quote_spanned!(span => tokens) does the same with every token written in the macro carrying the given span, while interpolated tokens keep their own.",
  ["programs", "inputs"], "all quoted token sequences, interpolated values, expected types and spans",
  "Two doc examples use the macros, both on quotes that parse; no test looks at a failing quote or at another error type.",
  [U], [("try_parse_quote!, try_parse_quote_spanned!", U)])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))

#opts {"paths": {}}
#spec ft
/// what one field asks for: the type that has to implement the trait, nothing (recursive), or the error in its attributes
pub open spec fn ft(f: Field) -> Result<Option<Type>> { match attrs_of(f) { Ok(a) => Ok(if a.recursive { None } else { Some(f.ty) }), Err(e) => Err(e) } }
pub open spec fn want(f: Field) -> Option<Result<Type>> { match ft(f) { Ok(Some(t)) => Some(Ok::<Type, Error>(t)), Ok(None) => None, Err(e) => Some(Err::<Type, Error>(e)) } }
pub open spec fn list(f: Fields) -> Seq<Field> { match f { Fields::Named(n) => n.named@, Fields::Unnamed(n) => n.unnamed@, Fields::Unit => Seq::empty() } }
/// `f` is a field of the declaration
pub open spec fn has_field(d: Data, f: Field) -> bool {
    match d { Data::Struct(s) => list(s.fields).contains(f), Data::Enum(e) => exists|v: Variant| #[trigger] e.variants@.contains(v) && list(v.fields).contains(f), Data::Union(_) => false }
}
pub open spec fn has_bound(d: Data, t: Type) -> bool { exists|f: Field| #![trigger has_field(d, f)] #![trigger want(f)] has_field(d, f) && want(f) == Some(Ok::<Type, Error>(t)) }
/// `Ty: Bounds`
pub open spec fn is_pred(p: WherePredicate, t: Type, bounds: Seq<TT>) -> bool { parsed::<WherePredicate>(t@ + qt(TT::Punct(":"@, call_site())) + bounds) == Ok::<WherePredicate, Error>(p) }
pub open spec fn pred_of(d: Data, p: WherePredicate, bounds: Seq<TT>) -> bool { exists|t: Type| #![trigger has_bound(d, t)] #![trigger is_pred(p, t, bounds)] has_bound(d, t) && is_pred(p, t, bounds) }
/// the predicates `p` are those of the declaration and one for the type of every field that is not recursive, and no other
pub closed spec fn bounds_ok(d: Data, own: Seq<WherePredicate>, bounds: Seq<TT>, p: Seq<WherePredicate>) -> bool {
    (forall|i: int| 0 <= i < own.len() ==> p.contains(#[trigger] own[i]))
        && (forall|t: Type| #[trigger] has_bound(d, t) ==> exists|j: int| 0 <= j < p.len() && #[trigger] is_pred(p[j], t, bounds))
        && (forall|j: int| 0 <= j < p.len() ==> pred_of(d, #[trigger] p[j], bounds) || own.contains(p[j]))
}
pub open spec fn more_ok(d: Data, bounds: Seq<TT>, more: Seq<WherePredicate>) -> bool {
    (forall|t: Type| #[trigger] has_bound(d, t) ==> exists|i: int| 0 <= i < more.len() && #[trigger] is_pred(more[i], t, bounds))
        && forall|i: int| 0 <= i < more.len() ==> pred_of(d, #[trigger] more[i], bounds)
}
pub proof fn two_parts(d: Data, own: Seq<WherePredicate>, bounds: Seq<TT>, more: Seq<WherePredicate>, p: Seq<WherePredicate>)
    requires more_ok(d, bounds, more), p == own + more || p == more + own ensures bounds_ok(d, own, bounds, p)
{
    let (a, b) = if p == own + more { (0, own.len() as int) } else { (more.len() as int, 0) };
    assert forall|i: int| 0 <= i < own.len() implies p.contains(#[trigger] own[i]) by { assert(p[a + i] == own[i]); }
    assert forall|t: Type| #[trigger] has_bound(d, t) implies exists|j: int| 0 <= j < p.len() && #[trigger] is_pred(p[j], t, bounds) by {
        let i = choose|i: int| 0 <= i < more.len() && #[trigger] is_pred(more[i], t, bounds); assert(p[b + i] == more[i]);
    }
    assert forall|j: int| 0 <= j < p.len() implies pred_of(d, #[trigger] p[j], bounds) || own.contains(p[j]) by {
        if a <= j < a + own.len() { assert(p[j] == own[j - a]); } else { assert(p[j] == more[j - b]); }
    }
}
pub broadcast proof fn own_first(d: Data, own: Seq<WherePredicate>, bounds: Seq<TT>, p: Seq<WherePredicate>)
    requires own.len() <= p.len(), p.take(own.len() as int) == own, more_ok(d, bounds, p.skip(own.len() as int)) ensures #[trigger] bounds_ok(d, own, bounds, p)
{
    assert(p =~= own + p.skip(own.len() as int)); two_parts(d, own, bounds, p.skip(own.len() as int), p);
}
pub open spec fn rejected(d: Data) -> bool { d is Union || exists|f: Field| #![trigger has_field(d, f)] #![trigger want(f)] has_field(d, f) && want(f) matches Some(Err(_)) }
pub open spec fn asks(s: Seq<Field>, x: Result<Type>) -> bool { exists|f: Field| #[trigger] s.contains(f) && want(f) == Some(x) }
#spec header
/// a path whose last segment is `name`
pub open spec fn names(t: Seq<TT>, name: Seq<char>) -> bool { t.len() > 0 && t.last() == TT::Ident(name, call_site()) }
pub broadcast proof fn names_one(name: Seq<char>) ensures #[trigger] names(qt(TT::Ident(name, call_site())), name) { }
pub broadcast proof fn names_pre(a: Seq<TT>, b: Seq<TT>, name: Seq<char>) requires names(b, name) ensures #[trigger] names(a + b, name) { assert((a + b).last() == b.last()); }
/// the where clause is that of the declaration and the bounds that its fields ask for ..
pub open spec fn wc_fields(item: DeriveInput, name: Seq<char>, w: Seq<WherePredicate>) -> bool {
    exists|t: Seq<TT>| #![trigger names(t, name)] #![trigger parsed::<SynPunctuated<TypeParamBound, TokPlus>>(t)] names(t, name) && parsed::<SynPunctuated<TypeParamBound, TokPlus>>(t) is Ok
        && bounds_ok(item.data, declared_by(item.generics.where_clause), list_toks(&parsed::<SynPunctuated<TypeParamBound, TokPlus>>(t)->Ok_0), w)
}
/// .. or that of the declaration and `Self: name`
pub closed spec fn on_self(t: Seq<TT>) -> bool { exists|x: Seq<TT>| t == #[trigger] ((qt(TT::Ident("Self"@, call_site())) + qt(TT::Punct(":"@, call_site()))) + x) }
pub broadcast proof fn on_self_base() ensures #[trigger] on_self(qt(TT::Ident("Self"@, call_site())) + qt(TT::Punct(":"@, call_site()))) {
    let t = qt(TT::Ident("Self"@, call_site())) + qt(TT::Punct(":"@, call_site()));
    assert(t =~= t + Seq::<TT>::empty());
}
pub broadcast proof fn on_self_more(a: Seq<TT>, b: Seq<TT>) requires on_self(a) ensures #[trigger] on_self(a + b) {
    let t = qt(TT::Ident("Self"@, call_site())) + qt(TT::Punct(":"@, call_site()));
    let x = choose|x: Seq<TT>| a == #[trigger] ((qt(TT::Ident("Self"@, call_site())) + qt(TT::Punct(":"@, call_site()))) + x);
    assert(a + b =~= t + (x + b));
}
pub open spec fn self_pred(p: WherePredicate, name: Seq<char>) -> bool { exists|t: Seq<TT>| on_self(t) && names(t, name) && #[trigger] parsed::<WherePredicate>(t) == Ok::<WherePredicate, Error>(p) }
pub closed spec fn wc_self(item: DeriveInput, name: Seq<char>, w: Seq<WherePredicate>) -> bool {
    let own = declared_by(item.generics.where_clause);
    (forall|i: int| 0 <= i < own.len() ==> w.contains(#[trigger] own[i]))
        && (exists|j: int| 0 <= j < w.len() && self_pred(#[trigger] w[j], name))
        && (forall|j: int| 0 <= j < w.len() ==> self_pred(#[trigger] w[j], name) || own.contains(w[j]))
}
pub broadcast proof fn own_and_self(item: DeriveInput, name: Seq<char>, w: Seq<WherePredicate>)
    requires ({ let own = declared_by(item.generics.where_clause); w.len() == own.len() + 1 && w.take(own.len() as int) == own && self_pred(w[own.len() as int], name) })
    ensures #[trigger] wc_self(item, name, w)
{
    let own = declared_by(item.generics.where_clause);
    assert forall|i: int| 0 <= i < own.len() implies w.contains(#[trigger] own[i]) by { assert(w.take(own.len() as int)[i] == w[i]); }
    assert forall|j: int| 0 <= j < w.len() implies self_pred(#[trigger] w[j], name) || own.contains(w[j]) by { if j < own.len() { assert(w.take(own.len() as int)[j] == w[j]); } }
}
pub open spec fn wc_ok(item: DeriveInput, fields: bool, name: Seq<char>, w: Seq<WherePredicate>) -> bool { if fields { wc_fields(item, name, w) } else { wc_self(item, name, w) } }
/// `.. <T: ..> ..`
pub closed spec fn begun(ts: Seq<TT>, item: DeriveInput) -> bool { exists|a: Seq<TT>, b: Seq<TT>| ts == #[trigger] ((a + item.generics.impl_toks()) + b) }
pub broadcast proof fn begun_base(a: Seq<TT>, item: DeriveInput) ensures #[trigger] begun(a + item.generics.impl_toks(), item) { let t = a + item.generics.impl_toks(); assert(t =~= t + Seq::<TT>::empty()); }
pub broadcast proof fn begun_more(a: Seq<TT>, b: Seq<TT>, item: DeriveInput) requires begun(a, item) ensures #[trigger] begun(a + b, item) {
    let (x, y) = choose|x: Seq<TT>, y: Seq<TT>| a == #[trigger] ((x + item.generics.impl_toks()) + y);
    assert(a + b =~= (x + item.generics.impl_toks()) + (y + b));
}
/// `.. <T: ..> .. Type <T> where .. { .. }`
pub closed spec fn header_ok(ts: Seq<TT>, item: DeriveInput, fields: bool, name: Seq<char>) -> bool {
    exists|a: Seq<TT>, w: Seq<WherePredicate>, body: Seq<TT>, s: SpanV| ts == #[trigger] ((((a + item.ident@) + item.generics.type_toks()) + where_toks(w)) + qt(TT::Group(2, body, s))) && begun(a, item) && wc_ok(item, fields, name, w)
}
pub broadcast proof fn header_base(a: Seq<TT>, item: DeriveInput, fields: bool, name: Seq<char>, w: Seq<WherePredicate>, body: Seq<TT>, s: SpanV) requires begun(a, item), wc_ok(item, fields, name, w)
    ensures #[trigger] header_ok((((a + item.ident@) + item.generics.type_toks()) + where_toks(w)) + qt(TT::Group(2, body, s)), item, fields, name) { }
pub broadcast proof fn header_split(x: Seq<TT>, a: Seq<TT>, b: Seq<TT>, item: DeriveInput, fields: bool, name: Seq<char>) requires header_ok((x + a) + b, item, fields, name)
    ensures #[trigger] header_ok(x + (a + b), item, fields, name) { assert((x + a) + b =~= x + (a + b)); }
/// what a derive may give for the tokens of a declaration
pub open spec fn derived(ts: Seq<TT>, r: Result<TokenStream>, fields: bool, name: Seq<char>) -> bool {
    match parsed::<DeriveInput>(ts) {
        Err(_) => r is Err,
        Ok(item) => match r { Ok(o) => header_ok(o@, item, fields, name) && (fields ==> !rejected(item.data)), Err(_) => fields },
    }
}
#fn util::field_type
contract:
    ensures r == ft({0})
#fn util::add_bounds
contract:
    ensures match r { Err(_) => rejected({0}.data), Ok(w) => !rejected({0}.data) && bounds_ok({0}.data, declared({1}), {2}.toks(), w.predicates@) }
prologue:
    broadcast use qone, own_first;
opts: {"ren": {"map": "map_to"}}
clo 0:
    -> (o: Option<Result<Type>>) ensures o == want({c})
clo 1:
    -> (o: Option<Result<Type>>) ensures o == want({c})
clo 2:
    -> (o: Vec<Result<Type>>) ensures (forall|x: Result<Type>| #[trigger] o@.contains(x) ==> asks(list({c}.fields), x)) && forall|f: Field| #[trigger] list({c}.fields).contains(f) && want(f) is Some ==> o@.contains(want(f)->0)
clo 3:
    -> (o: Option<Result<Type>>) ensures o == want({c})
clo 4:
    -> (o: Option<Result<Type>>) ensures o == want({c})
clo 5:
    -> (o: WherePredicate) ensures is_pred(o, *{c}, {2}.toks())
//@if PARSE
#fn parse::expand
contract:
    ensures derived({0}@, r, true, "Parse"@)
prologue:
    broadcast use qone, names_one, names_pre, on_self_base, on_self_more, begun_base, begun_more, header_base, header_split, own_and_self;
//@end
//@if PRINT
#fn to_tokens::expand
contract:
    ensures derived({0}@, r, true, "ToTokens"@)
prologue:
    broadcast use qone, names_one, names_pre, on_self_base, on_self_more, begun_base, begun_more, header_base, header_split, own_and_self;
//@end
//@if READ
#fn from_str::expand
contract:
    ensures derived({0}@, r, false, "Parse"@)
prologue:
    broadcast use qone, names_one, names_pre, on_self_base, on_self_more, begun_base, begun_more, header_base, header_split, own_and_self;
//@end
//@if SHOW
#fn display::expand
contract:
    ensures derived({0}@, r, false, "ToTokens"@)
prologue:
    broadcast use qone, names_one, names_pre, on_self_base, on_self_more, begun_base, begun_more, header_base, header_split, own_and_self;
//@end

#spec Layout
impl<S: AsRef<str>, W> TokenStreamFormatter<S, W> {
    pub open spec fn ind(&self) -> Option<Seq<char>> { match self.indent_string { Some(s) => Some(s.text()), None => None } }
    /// the indent consists of whitespace only
    pub open spec fn inv(&self) -> bool { match self.indent_string { Some(s) => blank(s.text()), None => true } }
}
pub open spec fn same_form<S, W>(a: TokenStreamFormatter<S, W>, b: TokenStreamFormatter<S, W>) -> bool { a.indent_level == b.indent_level && a.indent_string == b.indent_string }
pub open spec fn ws_to(o: Obs, ws: bool) -> Obs { Obs { items: o.items, ws } }
/// nesting depth of the groups
pub open spec fn depth(ts: Seq<TTV>, n: nat) -> nat
    decreases ts, n
{
    if n == 0 || n > ts.len() { 0 } else {
        let d = match ts[n - 1] { TTV::Group(_, i) => 1 + depth(i, i.len()), _ => 0 };
        let r = depth(ts, (n - 1) as nat);
        if d > r { d } else { r }
    }
}
pub open spec fn is_joint(t: TTV) -> bool { match t { TTV::Punct(_, j) => j, _ => false } }
pub broadcast proof fn skip_skip<A>(a: Seq<A>, n: int) requires 0 <= n < a.len() ensures #[trigger] a.skip(n).skip(1) == a.skip(n + 1) { assert(a.skip(n).skip(1) =~= a.skip(n + 1)); }
pub proof fn depth_part(ts: Seq<TTV>, n: nat, m: nat)
    requires n <= m <= ts.len()
    ensures depth(ts, n) <= depth(ts, m)
    decreases m - n
{ if n < m { depth_part(ts, n, (m - 1) as nat); } }
/// token k of a stream, seen from an iterator over it
pub broadcast proof fn token_at(ts: Seq<TTV>, k: int)
    requires 0 <= k < ts.len()
    ensures (#[trigger] ts.skip(k))[0] == ts[k], ts.skip(k).skip(1) == ts.skip(k + 1),
        match ts[k] { TTV::Group(d, i) => depth(i, i.len()) + 1 <= depth(ts, ts.len()) && decreases_to!(ts => i), _ => true },
        //@if LAYOUT
        visible(ts, ts.len()) ==> match ts[k] { TTV::Group(d, i) => 0 <= d < 3 && visible(i, i.len()), _ => true },
        //@end
{
    depth_part(ts, (k + 1) as nat, ts.len());
    assert(ts.skip(k).skip(1) =~= ts.skip(k + 1));
    //@if LAYOUT
    if visible(ts, ts.len()) { visible_part(ts, (k + 1) as nat, ts.len()); }
    //@end
}
//@if LAYOUT
/// s repeated n times
pub open spec fn times(s: Seq<char>, n: nat) -> Text decreases n { if n == 0 { Text::empty() } else { times(s, (n - 1) as nat) + txt(s) } }
pub open spec fn indent(ind: Option<Seq<char>>, lvl: nat) -> Text { match ind { None => Text::empty(), Some(s) => times(s, lvl) } }
/// line break and indent in pretty mode; in compact mode a space
pub open spec fn breaking(ind: Option<Seq<char>>, lvl: nat) -> Text { match ind { None => one(' '), Some(s) => one('\n') + times(s, lvl) } }
/// what stands between token k and the next one of its stream
pub open spec fn gap(ts: Seq<TTV>, k: int, ind: Option<Seq<char>>, lvl: nat) -> Text {
    if k < 0 || k + 1 >= ts.len() { Text::empty() } else {
        match ts[k] {
            TTV::Group(d, _) => breaking(ind, lvl),
            TTV::Punct(c, true) => Text::empty(),
            TTV::Punct(c, false) => if c == ',' || c == ';' { breaking(ind, lvl) } else { one(' ') },
            TTV::Leaf(_) => one(' '),
        }
    }
}
pub open spec fn visible(ts: Seq<TTV>, n: nat) -> bool
    decreases ts, n
{
    if n == 0 || n > ts.len() { true } else { visible(ts, (n - 1) as nat) && match ts[n - 1] { TTV::Group(d, i) => 0 <= d < 3 && visible(i, i.len()), _ => true } }
}
/// the text of a group's contents between the delimiters
pub open spec fn framed(inner: Text, ind: Option<Seq<char>>, lvl: nat) -> Text {
    match ind { None => inner, Some(s) => one('\n') + times(s, lvl + 1) + inner + one('\n') + times(s, lvl) }
}
/// the first n tokens of a stream with the gaps between them
pub open spec fn lay(ts: Seq<TTV>, n: nat, ind: Option<Seq<char>>, lvl: nat) -> Text
    decreases ts, n
{
    if n == 0 || n > ts.len() { Text::empty() } else {
        lay(ts, (n - 1) as nat, ind, lvl) + gap(ts, n - 2, ind, lvl) + match ts[n - 1] {
            TTV::Leaf(t) => txt(t),
            TTV::Punct(c, _) => one(c),
            TTV::Group(d, i) => if i.len() == 0 { one(opening(d)) + one(closing(d)) } else { one(opening(d)) + framed(lay(i, i.len(), ind, lvl + 1), ind, lvl) + one(closing(d)) },
        }
    }
}
pub proof fn visible_part(ts: Seq<TTV>, n: nat, m: nat)
    requires visible(ts, m), n <= m <= ts.len()
    ensures visible(ts, n)
    decreases m - n
{ if n < m { visible_part(ts, n, (m - 1) as nat); } }
pub broadcast proof fn lay_step(ts: Seq<TTV>, n: nat, ind: Option<Seq<char>>, lvl: nat)
    requires 0 < n <= ts.len()
    ensures #[trigger] lay(ts, n, ind, lvl) == lay(ts, (n - 1) as nat, ind, lvl) + gap(ts, n - 2, ind, lvl) + match ts[n - 1] {
            TTV::Leaf(t) => txt(t),
            TTV::Punct(c, _) => one(c),
            TTV::Group(d, i) => if i.len() == 0 { one(opening(d)) + one(closing(d)) } else { one(opening(d)) + framed(lay(i, i.len(), ind, lvl + 1), ind, lvl) + one(closing(d)) },
        }
{}
/// w: written since o, after n tokens, the next gap already written or not
#[verifier::opaque]
pub open spec fn laid(o: Text, w: Text, ts: Seq<TTV>, n: nat, ind: Option<Seq<char>>, lvl: nat, gapped: bool) -> bool {
    if gapped { w == o + lay(ts, n, ind, lvl) + gap(ts, n - 1, ind, lvl) } else { n > 0 && w == o + lay(ts, n, ind, lvl) && (n < ts.len() ==> gap(ts, n - 1, ind, lvl) == one(' ')) }
}
pub open spec fn toktext(t: TTV, ind: Option<Seq<char>>, lvl: nat) -> Text {
    match t {
        TTV::Leaf(t) => txt(t),
        TTV::Punct(c, _) => one(c),
        TTV::Group(d, i) => if i.len() == 0 { one(opening(d)) + one(closing(d)) } else { one(opening(d)) + (framed(lay(i, i.len(), ind, lvl + 1), ind, lvl) + one(closing(d))) },
    }
}
/// the next token, and the gap after it
pub broadcast proof fn laid_step(o: Text, w: Text, ts: Seq<TTV>, n: nat, ind: Option<Seq<char>>, lvl: nat, g: bool)
    requires #[trigger] laid(o, w, ts, n, ind, lvl, g), n < ts.len()
    ensures
        (#[trigger] ts[n as int]) == ts[n as int],
        g ==> laid(o, w + toktext(ts[n as int], ind, lvl), ts, n + 1, ind, lvl, false) || gap(ts, n as int, ind, lvl) != one(' '),
        g && n + 1 == ts.len() ==> laid(o, w + toktext(ts[n as int], ind, lvl), ts, n + 1, ind, lvl, false),
        g ==> laid(o, w + (toktext(ts[n as int], ind, lvl) + gap(ts, n as int, ind, lvl)), ts, n + 1, ind, lvl, true),
        !g ==> laid(o, w + (one(' ') + toktext(ts[n as int], ind, lvl)), ts, n + 1, ind, lvl, false) || gap(ts, n as int, ind, lvl) != one(' '),
        !g && n + 1 == ts.len() ==> laid(o, w + (one(' ') + toktext(ts[n as int], ind, lvl)), ts, n + 1, ind, lvl, false),
        !g ==> laid(o, w + (one(' ') + (toktext(ts[n as int], ind, lvl) + gap(ts, n as int, ind, lvl))), ts, n + 1, ind, lvl, true),
{
    reveal(laid);
    broadcast use add_assoc, add_nil, nil_add;
    let t = toktext(ts[n as int], ind, lvl);
    let h = gap(ts, n as int, ind, lvl);
    let l = o + lay(ts, n, ind, lvl);
    let b = gap(ts, n - 1, ind, lvl);
    assert(lay(ts, n + 1, ind, lvl) == lay(ts, n, ind, lvl) + b + t) by { lay_step(ts, n + 1, ind, lvl); same_text(ts[n as int], ind, lvl); }
    assert(o + lay(ts, n + 1, ind, lvl) == l + b + t);
    assert(l + b + (t + h) == l + b + t + h);
    if !g { assert(l + (one(' ') + t) == l + one(' ') + t); assert(l + (one(' ') + (t + h)) == l + one(' ') + t + h); }
    if n + 1 == ts.len() { assert(h == Text::empty()); }
}
pub proof fn same_text(t: TTV, ind: Option<Seq<char>>, lvl: nat)
    ensures toktext(t, ind, lvl) == match t {
            TTV::Leaf(t) => txt(t),
            TTV::Punct(c, _) => one(c),
            TTV::Group(d, i) => if i.len() == 0 { one(opening(d)) + one(closing(d)) } else { one(opening(d)) + framed(lay(i, i.len(), ind, lvl + 1), ind, lvl) + one(closing(d)) },
        }
{ match t { TTV::Group(d, i) => { add_assoc(one(opening(d)), framed(lay(i, i.len(), ind, lvl + 1), ind, lvl), one(closing(d))); }, _ => {} } }
pub broadcast proof fn laid_end(o: Text, w: Text, ts: Seq<TTV>, ind: Option<Seq<char>>, lvl: nat, g: bool)
    ensures #[trigger] laid(o, w, ts, ts.len(), ind, lvl, g) ==> w == o + lay(ts, ts.len(), ind, lvl)
{ reveal(laid); broadcast use add_nil; }
pub broadcast proof fn laid_0(o: Text, ts: Seq<TTV>, ind: Option<Seq<char>>, lvl: nat)
    ensures #[trigger] laid(o, o, ts, 0, ind, lvl, true)
{ reveal(laid); broadcast use add_nil; }
//@end
//@if FAITH
/// whether whitespace in front of a piece is required, forbidden, or free
pub ghost enum Req { Must, MustNot, Free }
pub type Items = Seq<(bool, Piece)>;
pub type Reqs = Seq<(Req, Piece)>;
pub open spec fn fits(x: (bool, Piece), e: (Req, Piece)) -> bool { x.1 == e.1 && match e.0 { Req::Must => x.0, Req::MustNot => !x.0, Req::Free => true } }
/// the first piece takes over the requirement unless it has one of its own
pub open spec fn first_is(e: Reqs, r: Req) -> Reqs { if e.len() > 0 && e[0].0 is Free { e.update(0, (r, e[0].1)) } else { e } }
pub open spec fn req(ts: Seq<TTV>, k: int) -> Req { if k <= 0 { Req::Free } else if is_joint(ts[k - 1]) { Req::MustNot } else { Req::Must } }
/// the pieces of one token
pub open spec fn pieces(t: TTV, r: Req) -> Reqs
    decreases t, 0nat
{
    match t {
        TTV::Leaf(s) => seq![(r, Piece::Tok(s))],
        TTV::Punct(c, _) => seq![(r, Piece::Ch(c))],
        TTV::Group(d, i) => if 0 <= d < 3 { seq![(r, Piece::Ch(opening(d)))] + expect(i, i.len()) + seq![(Req::Free, Piece::Ch(closing(d)))] } else { first_is(expect(i, i.len()), r) },
    }
}
/// the visible pieces of the first n tokens, each exactly once, in order
pub open spec fn expect(ts: Seq<TTV>, n: nat) -> Reqs
    decreases ts, n
{
    if n == 0 || n > ts.len() { Seq::empty() } else { expect(ts, (n - 1) as nat) + pieces(ts[n - 1], req(ts, n - 1)) }
}
/// n adds to o exactly the pieces e
#[verifier::opaque]
pub open spec fn grew(o: Items, n: Items, e: Reqs) -> bool {
    &&& n.len() == o.len() + e.len()
    &&& n.take(o.len() as int) =~= o
    &&& forall|i: int| 0 <= i < e.len() ==> fits(#[trigger] n[o.len() + i], e[i])
}
/// the first new piece has whitespace in front of it just if some was pending
#[verifier::opaque]
pub open spec fn tight(o: Items, ws: bool, n: Items, e: Reqs) -> bool { e.len() > 0 && e[0].0 is Free ==> n.len() > o.len() && n[o.len() as int].0 == ws }
/// the first n tokens have been written since o
pub open spec fn done(o: Obs, w: Items, ts: Seq<TTV>, n: nat) -> bool { grew(o.items, w, expect(ts, n)) && tight(o.items, o.ws, w, expect(ts, n)) && n <= ts.len() }
/// token n may be written now, with whitespace pending or not
pub open spec fn ready(o: Obs, ws: bool, ts: Seq<TTV>, n: nat) -> bool { if n == 0 { ws == o.ws } else { match req(ts, n as int) { Req::Must => ws, Req::MustNot => !ws, Req::Free => true } } }
pub proof fn grew_trans(a: Items, b: Items, c: Items, e: Reqs, f: Reqs)
    requires grew(a, b, e), grew(b, c, f)
    ensures grew(a, c, e + f)
{
    reveal(grew);
    let n = a.len() as int;
    let m = b.len() as int;
    assert(c.take(n) =~= a) by { assert forall|i: int| 0 <= i < n implies c[i] == a[i] by { assert(c.take(m)[i] == b[i]); assert(b.take(n)[i] == a[i]); } }
    assert forall|i: int| 0 <= i < (e + f).len() implies fits(#[trigger] c[n + i], (e + f)[i]) by {
        if i < e.len() { assert(c.take(m)[n + i] == b[n + i]); assert(fits(b[n + i], e[i])); }
        else { assert(fits(c[m + (i - e.len())], f[i - e.len()])); assert(n + i == m + (i - e.len())); }
    }
}
pub proof fn grew_push(a: Items, b: Items, e: Reqs, x: (bool, Piece), y: (Req, Piece))
    requires grew(a, b, e), fits(x, y)
    ensures grew(a, b.push(x), e.push(y)), grew(b, b.push(x), seq![y])
{
    assert(grew(b, b.push(x), seq![y])) by { reveal(grew); }
    grew_trans(a, b, b.push(x), e, seq![y]);
    assert(e + seq![y] =~= e.push(y));
}
pub proof fn expect_next(ts: Seq<TTV>, n: nat)
    requires n < ts.len()
    ensures expect(ts, n + 1) == expect(ts, n) + pieces(ts[n as int], req(ts, n as int))
{}
/// one token written: it added the pieces f
pub proof fn done_next(o: Obs, w: Items, ws: bool, ts: Seq<TTV>, n: nat, v: Items)
    requires done(o, w, ts, n), n < ts.len(), ready(o, ws, ts, n), grew(w, v, pieces(ts[n as int], req(ts, n as int))), tight(w, ws, v, pieces(ts[n as int], req(ts, n as int)))
    ensures done(o, v, ts, n + 1)
{
    expect_next(ts, n);
    let e = expect(ts, n); let f = pieces(ts[n as int], req(ts, n as int));
    grew_trans(o.items, w, v, e, f);
    reveal(grew); reveal(tight);
    if n == 0 { assert(e + f =~= f); assert(w =~= o.items) by { assert(w.take(o.items.len() as int) =~= w); } }
    else {
        if e.len() > 0 { assert(v.take(w.len() as int)[o.items.len() as int] == w[o.items.len() as int]); assert((e + f)[0] == e[0]); }
        else {
            assert(e + f =~= f);
            if f.len() > 0 { pieces_req(ts[n as int], req(ts, n as int)); }
        }
    }
}
/// a requirement reaches the first piece
pub proof fn pieces_req(t: TTV, r: Req)
    requires !(r is Free), pieces(t, r).len() > 0
    ensures !(pieces(t, r)[0].0 is Free)
{ match t { TTV::Group(d, i) => { if 0 <= d < 3 {} else {} }, _ => {} } }
/// a leaf or a punctuation mark
pub broadcast proof fn done_leaf(o: Obs, w: Items, ts: Seq<TTV>, n: nat, x: (bool, Piece))
    requires #[trigger] done(o, w, ts, n), n < ts.len(), ready(o, x.0, ts, n), match ts[n as int] { TTV::Leaf(s) => x.1 == Piece::Tok(s), TTV::Punct(c, _) => x.1 == Piece::Ch(c), _ => false }
    ensures done(o, #[trigger] w.push(x), ts, n + 1)
{
    let r = req(ts, n as int);
    let f = pieces(ts[n as int], r);
    assert(f.len() == 1 && f =~= seq![f[0]]);
    let r2 = if n == 0 { Req::Free } else { r };
    assert(fits(x, f[0]));
    assert(grew(w, w.push(x), f)) by { reveal(grew); }
    assert(tight(w, x.0, w.push(x), f)) by { reveal(tight); }
    done_next(o, w, x.0, ts, n, w.push(x));
}
/// a delimited group: delimiter, contents, delimiter
pub broadcast proof fn done_group(o: Obs, w: Items, ts: Seq<TTV>, n: nat, x: (bool, Piece), v: Items, e: Reqs, y: (bool, Piece))
    requires #[trigger] done(o, w, ts, n), n < ts.len(), ready(o, x.0, ts, n), #[trigger] grew(w.push(x), v, e),
        match ts[n as int] { TTV::Group(d, i) => 0 <= d < 3 && x.1 == Piece::Ch(opening(d)) && y.1 == Piece::Ch(closing(d)) && e == expect(i, i.len()), _ => false }
    ensures done(o, #[trigger] v.push(y), ts, n + 1)
{
    match ts[n as int] { TTV::Group(d, i) => {
        let r = req(ts, n as int);
        let f = pieces(ts[n as int], r);
        let a: Reqs = seq![(r, Piece::Ch(opening(d)))];
        assert(grew(w, w.push(x), a)) by { reveal(grew); }
        grew_trans(w, w.push(x), v, a, e);
        grew_push(w, v, a + e, y, (Req::Free, Piece::Ch(closing(d))));
        assert(f =~= (a + e).push((Req::Free, Piece::Ch(closing(d)))));
        assert(tight(w, x.0, v.push(y), f)) by { reveal(tight); reveal(grew); assert(v.take((w.len() + 1) as int)[w.len() as int] == w.push(x)[w.len() as int]); }
        done_next(o, w, x.0, ts, n, v.push(y));
    }, _ => {} }
}
pub broadcast proof fn done_empty(o: Obs, w: Items, ts: Seq<TTV>, n: nat, x: (bool, Piece), y: (bool, Piece))
    requires #[trigger] done(o, w, ts, n), n < ts.len(), ready(o, x.0, ts, n),
        match ts[n as int] { TTV::Group(d, i) => 0 <= d < 3 && x.1 == Piece::Ch(opening(d)) && y.1 == Piece::Ch(closing(d)) && i.len() == 0, _ => false }
    ensures done(o, #[trigger] w.push(x).push(y), ts, n + 1)
{
    match ts[n as int] { TTV::Group(d, i) => {
        assert(grew(w.push(x), w.push(x), expect(i, i.len()))) by { reveal(grew); }
        done_group(o, w, ts, n, x, w.push(x), expect(i, i.len()), y);
    }, _ => {} }
}
/// an invisible group: its contents stand in its place
pub broadcast proof fn done_none(o: Obs, w: Items, ws: bool, ts: Seq<TTV>, n: nat, v: Items, e: Reqs)
    requires #[trigger] done(o, w, ts, n), n < ts.len(), ready(o, ws, ts, n), grew(w, v, e), #[trigger] tight(w, ws, v, e),
        match ts[n as int] { TTV::Group(d, i) => !(0 <= d < 3) && e == expect(i, i.len()), _ => false }
    ensures done(o, v, ts, n + 1)
{
    let r = req(ts, n as int);
    let f = pieces(ts[n as int], r);
    assert(f == first_is(e, r));
    assert(grew(w, v, f)) by {
        reveal(grew); reveal(tight);
        assert forall|i: int| 0 <= i < f.len() implies fits(#[trigger] v[w.len() + i], f[i]) by { assert(fits(v[w.len() + i], e[i])); }
    }
    assert(tight(w, ws, v, f)) by { reveal(tight); }
    done_next(o, w, ws, ts, n, v);
}
pub broadcast proof fn done_0(o: Obs, ts: Seq<TTV>)
    ensures #[trigger] done(o, o.items, ts, 0)
{ reveal(grew); reveal(tight); }
//@end
/// a writer in the state (o, bad) received the text of ts, in pretty or compact mode
pub open spec fn printed(o: Out, bad: bool, ts: Seq<TTV>, pretty: bool, r: FmtResult) -> bool {
    exists|v: Out, vbad: bool, ind: Option<Seq<char>>| {
        &&& #[trigger] received(v, vbad, ind)
        &&& (ind is Some) == pretty && (ind is Some ==> blank(ind->0) && ind->0.len() > 0)
        &&& r is Err ==> vbad
        &&& r is Ok ==> vbad == bad
        //@if FAITH
        &&& r is Ok ==> grew(o.obs.items, v.obs.items, expect(ts, ts.len()))
        //@end
        //@if LAYOUT
        &&& r is Ok && visible(ts, ts.len()) ==> v.chars == o.chars + lay(ts, ts.len(), ind, 0)
        //@end
    }
}
pub open spec fn received(v: Out, bad: bool, ind: Option<Seq<char>>) -> bool { true }
#fn TokenStreamFormatter::write_indent
ret: r
contract:
    requires old(self).inv()
    ensures
        same_form(*final(self), *old(self)),
        r is Ok ==> final(self).writer.bad() == old(self).writer.bad(), r is Err ==> final(self).writer.bad(),
        //@if FAITH
        r is Ok ==> final(self).writer@.obs.items == old(self).writer@.obs.items && (old(self).writer@.obs.ws ==> final(self).writer@.obs.ws),
        //@end
        //@if LAYOUT
        r is Ok ==> final(self).writer@.chars == old(self).writer@.chars + indent(old(self).ind(), old(self).indent_level as nat),
        //@end
prologue:
    broadcast use put_blank, add_assoc, add_nil, nil_add;
loop 0:
    invariant
        same_form(*self, *old(self)), old(self).inv(), self.writer.bad() == old(self).writer.bad(),
        {it}.end == self.indent_level, {it}.next <= {it}.end, Some({indent_string}@) == self.ind(),
        //@if FAITH
        self.writer@.obs.items == old(self).writer@.obs.items && (old(self).writer@.obs.ws ==> self.writer@.obs.ws),
        //@end
        //@if LAYOUT
        self.writer@.chars == old(self).writer@.chars + times({indent_string}@, {it}.next as nat),
        //@end
    ensures {it}.next == {it}.end
    decreases {it}.end - {it}.next
body 0:
    broadcast use put_blank, add_assoc, add_nil, nil_add;
#fn TokenStreamFormatter::write_newline
ret: r
contract:
    ensures
        same_form(*final(self), *old(self)),
        r is Ok ==> final(self).writer.bad() == old(self).writer.bad(), r is Err ==> final(self).writer.bad(),
        //@if FAITH
        r is Ok ==> final(self).writer@.obs == ws_to(old(self).writer@.obs, old(self).writer@.obs.ws || old(self).indent_string is Some || {1} is Alone),
        //@end
        //@if LAYOUT
        r is Ok ==> final(self).writer@.chars == old(self).writer@.chars + match old(self).ind() { Some(_) => one('\n'), None => if {1} is Alone { one(' ') } else { Text::empty() } },
        //@end
prologue:
    broadcast use put_blank, ws_chars, add_nil;
    proof { reveal_strlit("\n"); reveal(one); assert("\n"@ =~= one('\n').s); }
#fn TokenStreamFormatter::write_newline_and_indent
ret: r
contract:
    requires old(self).inv()
    ensures
        same_form(*final(self), *old(self)),
        r is Ok ==> final(self).writer.bad() == old(self).writer.bad(), r is Err ==> final(self).writer.bad(),
        //@if FAITH
        r is Ok ==> final(self).writer@.obs.items == old(self).writer@.obs.items && (old(self).writer@.obs.ws || old(self).indent_string is Some || {1} is Alone ==> final(self).writer@.obs.ws),
        //@end
        //@if LAYOUT
        r is Ok ==> final(self).writer@.chars == old(self).writer@.chars + match old(self).ind() { Some(s) => one('\n') + times(s, old(self).indent_level as nat), None => if {1} is Alone { one(' ') } else { Text::empty() } },
        //@end
prologue:
    broadcast use add_assoc, add_nil, nil_add;
#fn TokenStreamFormatter::write
ret: r
contract:
    requires old(self).inv(), old(self).indent_level + depth({1}@, {1}@.len()) <= usize::MAX
    ensures
        received(final(self).writer@, final(self).writer.bad(), old(self).ind()),
        r is Ok ==> same_form(*final(self), *old(self)), final(self).indent_string == old(self).indent_string,
        r is Ok ==> final(self).writer.bad() == old(self).writer.bad(), r is Err ==> final(self).writer.bad(),
        //@if FAITH
        r is Ok ==> grew(old(self).writer@.obs.items, final(self).writer@.obs.items, expect({1}@, {1}@.len())),
        //@end
        //@if LAYOUT
        r is Ok && visible({1}@, {1}@.len()) ==> final(self).writer@.chars == old(self).writer@.chars + indent(old(self).ind(), old(self).indent_level as nat) + lay({1}@, {1}@.len(), old(self).ind(), old(self).indent_level as nat),
        //@end
    decreases {1}@, 1nat
prologue:
    broadcast use add_assoc, add_nil, nil_add;
#fn TokenStreamFormatter::write_tokens
ret: r
contract:
    requires old(self).inv(), old(self).indent_level + depth({1}@, {1}@.len()) <= usize::MAX
    ensures
        r is Ok ==> same_form(*final(self), *old(self)), final(self).indent_string == old(self).indent_string,
        r is Ok ==> final(self).writer.bad() == old(self).writer.bad(), r is Err ==> final(self).writer.bad(),
        //@if FAITH
        r is Ok ==> grew(old(self).writer@.obs.items, final(self).writer@.obs.items, expect({1}@, {1}@.len())) && tight(old(self).writer@.obs.items, old(self).writer@.obs.ws, final(self).writer@.obs.items, expect({1}@, {1}@.len())),
        //@end
        //@if LAYOUT
        r is Ok && visible({1}@, {1}@.len()) ==> final(self).writer@.chars == old(self).writer@.chars + lay({1}@, {1}@.len(), old(self).ind(), old(self).indent_level as nat),
        //@end
    decreases {1}@, 0nat
prologue:
    broadcast use ws_chars, add_assoc, add_nil, nil_add, token_at;
    //@if FAITH
    broadcast use done_leaf, done_group, done_empty, done_none, done_0;
    //@end
    //@if LAYOUT
    broadcast use laid_step, laid_end, laid_0;
    //@end
loop 0:
    invariant
        same_form(*self, *old(self)), old(self).inv(), self.writer.bad() == old(self).writer.bad(),
        old(self).indent_level + depth({1}@, {1}@.len()) <= usize::MAX,
        {iter}@.len() <= {1}@.len(), {iter}@ == {1}@.skip({1}@.len() - {iter}@.len()),
        //@if FAITH
        done(old(self).writer@.obs, self.writer@.obs.items, {1}@, ({1}@.len() - {iter}@.len()) as nat),
        {spacing} is Joint ==> {iter}@.len() == 0 || ready(old(self).writer@.obs, self.writer@.obs.ws, {1}@, ({1}@.len() - {iter}@.len()) as nat),
        {spacing} is Alone ==> {iter}@.len() < {1}@.len() && ({iter}@.len() > 0 ==> !is_joint({1}@[{1}@.len() - {iter}@.len() - 1])),
        //@end
        //@if LAYOUT
        visible({1}@, {1}@.len()) ==> laid(old(self).writer@.chars, self.writer@.chars, {1}@, ({1}@.len() - {iter}@.len()) as nat, old(self).ind(), old(self).indent_level as nat, {spacing} is Joint),
        //@end
    ensures {iter}@.len() == 0
    decreases {iter}@.len()
body 0:
    broadcast use ws_chars, add_assoc, add_nil, nil_add, token_at;
    //@if FAITH
    broadcast use done_leaf, done_group, done_empty, done_none, done_0;
    //@end
    //@if LAYOUT
    broadcast use laid_step, laid_end, laid_0;
    //@end
#fn TokenStreamFormatter::with_indent
ret: r
contract:
    ensures
        r is Ok == blank({0}.text()),
        r is Ok ==> r->Ok_0 == (TokenStreamFormatter { indent_level: 0, indent_string: Some({0}), writer: {1} }) && r->Ok_0.inv(),
#fn TokenStreamFormatter::pretty
ret: r
contract:
    ensures r.indent_level == 0, r.indent_string is Some, blank(r.indent_string->0@), r.indent_string->0@.len() > 0, r.writer == {0}, r.inv(),
prologue:
    broadcast use ws_chars;
    proof { reveal_strlit("    "); }
#fn TokenStreamFormatter::compact
ret: r
contract:
    ensures r.indent_level == 0, r.indent_string is None, r.writer == {0}, r.inv(),
#fn TokenStreamFormatter::write_ast_node
ret: r
contract:
    requires old(self).inv(), old(self).indent_level + depth({1}.toks(), {1}.toks().len()) <= usize::MAX
    ensures
        received(final(self).writer@, final(self).writer.bad(), old(self).ind()),
        r is Ok ==> same_form(*final(self), *old(self)), final(self).indent_string == old(self).indent_string,
        r is Ok ==> final(self).writer.bad() == old(self).writer.bad(), r is Err ==> final(self).writer.bad(),
        //@if FAITH
        r is Ok ==> grew(old(self).writer@.obs.items, final(self).writer@.obs.items, expect({1}.toks(), {1}.toks().len())),
        //@end
        //@if LAYOUT
        r is Ok && visible({1}.toks(), {1}.toks().len()) ==> final(self).writer@.chars == old(self).writer@.chars + indent(old(self).ind(), old(self).indent_level as nat) + lay({1}.toks(), {1}.toks().len(), old(self).ind(), old(self).indent_level as nat),
        //@end
//@each F,S,P in format_ast_node_pretty,{0}.toks(),true;format_ast_node_compact,{0}.toks(),false;format_tokens_pretty,{0}@,true;format_tokens_compact,{0}@,false
#fn util::F
ret: r
contract:
    requires depth(S, S.len()) <= usize::MAX
    ensures printed({1}@, {1}.bad(), S, P, r),
prologue:
    broadcast use add_assoc, add_nil, nil_add;
//@end
//@each F,S in format_ast_node,{0}.toks();format_tokens,{0}@
#fn util::F
ret: r
contract:
    requires depth(S, S.len()) <= usize::MAX
    ensures printed(old({1}).out(), old({1}).broken(), S, !old({1}).alt(), r),
prologue:
    broadcast use add_assoc, add_nil, nil_add;
//@end

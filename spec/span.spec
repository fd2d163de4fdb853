#spec Places
/// 1-based line and 0-based column (in chars) of place i of a text
pub open spec fn line_of(s: Seq<char>, i: nat) -> nat decreases i { if i == 0 || i > s.len() { 1 } else if s[i - 1] == '\n' { line_of(s, (i - 1) as nat) + 1 } else { line_of(s, (i - 1) as nat) } }
pub open spec fn col_of(s: Seq<char>, i: nat) -> nat decreases i { if i == 0 || i > s.len() { 0 } else if s[i - 1] == '\n' { 0 } else { col_of(s, (i - 1) as nat) + 1 } }
/// l is place i of s
pub open spec fn place(s: Seq<char>, l: LineColumn, i: nat) -> bool { i <= s.len() && l.line == line_of(s, i) && l.column == col_of(s, i) }
pub open spec fn upto(s: Seq<char>, i: nat) -> nat { bytes(s.take(i as int)) }
pub proof fn first_line_is(s: Seq<char>)
    requires s.len() > 0
    ensures 0 < first_line(s) <= s.len(), forall|j: int| 0 <= j < first_line(s) - 1 ==> s[j] != '\n', first_line(s) < s.len() ==> s[first_line(s) - 1] == '\n'
    decreases s.len()
{
    if s.len() == 1 { assert(first_line(s.skip(1)) == 0); }
    if s[0] != '\n' && s.len() > 1 {
        let t = s.skip(1);
        first_line_is(t);
        assert forall|j: int| 0 <= j < first_line(s) - 1 implies s[j] != '\n' by { if j > 0 { assert(t[j - 1] == s[j]); } }
        assert(first_line(s) < s.len() ==> t[first_line(t) - 1] == s[first_line(s) - 1]);
    }
}
/// inside the first line
pub proof fn in_first(s: Seq<char>, i: nat, k: nat)
    requires i <= s.len(), i <= k <= s.len(), forall|j: int| 0 <= j < k ==> s[j] != '\n'
    ensures line_of(s, i) == 1, col_of(s, i) == i
    decreases i
{ if i > 0 { in_first(s, (i - 1) as nat, k); } }
/// behind the first line
pub proof fn behind_first(s: Seq<char>, k: nat, i: nat)
    requires 0 < k <= i <= s.len(), s[k - 1] == '\n', forall|j: int| 0 <= j < k - 1 ==> s[j] != '\n'
    ensures line_of(s, i) == line_of(s.skip(k as int), (i - k) as nat) + 1, col_of(s, i) == col_of(s.skip(k as int), (i - k) as nat)
    decreases i
{
    if i == k { in_first(s, (k - 1) as nat, (k - 1) as nat); }
    else { behind_first(s, k, (i - 1) as nat); assert(s.skip(k as int)[i - k - 1] == s[i - 1]); }
}
pub proof fn bytes_cat(a: Seq<char>, b: Seq<char>)
    ensures bytes(a + b) == bytes(a) + bytes(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { bytes_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn bytes_len(a: Seq<char>) ensures bytes(a) >= a.len() decreases a.len() { if a.len() > 0 { bytes_len(a.drop_last()); } }
/// the heart of the matter: the lines in front of a place, and its own line
pub proof fn places(s: Seq<char>, i: nat)
    requires i <= s.len()
    ensures ({
        let n = (line_of(s, i) - 1) as nat; let c = col_of(s, i); let p = pieces(s);
        &&& line_of(s, i) >= 1 && c <= i && n <= p.len()
        &&& total(|p: Seq<char>| p.len(), p.take(n as int)) == i - c
        &&& total(|p: Seq<char>| bytes(p), p.take(n as int)) == upto(s, (i - c) as nat)
        &&& n == p.len() ==> c == 0
        &&& n < p.len() ==> c <= p[n as int].len() && upto(s, i) == upto(s, (i - c) as nat) + bytes(p[n as int].take(c as int))
    })
    decreases s.len()
{
    let b = |p: Seq<char>| bytes(p);
    let l = |p: Seq<char>| p.len();
    let p = pieces(s);
    if s.len() == 0 {
        assert(p.take(0) =~= Seq::empty());
        assert(s.take(0) =~= s);
    } else {
        first_line_is(s);
        let k = first_line(s);
        let rest = s.skip(k as int);
        assert(p =~= seq![s.take(k as int)] + pieces(rest));
        assert(p[0] == s.take(k as int));
        let nl = s[k - 1] == '\n';
        if i < k || !nl {
            in_first(s, i, if i < k { (k - 1) as nat } else { k });
            assert(p.take(0) =~= Seq::empty());
            assert(s.take(k as int).take(i as int) =~= s.take(i as int));
            assert(s.take(0) =~= Seq::empty());
        } else {
            behind_first(s, k, i);
            let i2 = (i - k) as nat;
            places(rest, i2);
            let n2 = (line_of(rest, i2) - 1) as nat; let c = col_of(rest, i2);
            let q = pieces(rest);
            assert(p.take((n2 + 1) as int).skip(1) =~= q.take(n2 as int));
            assert(p.take((n2 + 1) as int)[0] == s.take(k as int));
            assert(s.take((i - c) as int) =~= s.take(k as int) + rest.take((i2 - c) as int));
            bytes_cat(s.take(k as int), rest.take((i2 - c) as int));
            assert(s.take(i as int) =~= s.take(k as int) + rest.take(i2 as int));
            bytes_cat(s.take(k as int), rest.take(i2 as int));
            if n2 < q.len() { assert(p[(n2 + 1) as int] == q[n2 as int]); }
        }
    }
}
pub proof fn upto_le(s: Seq<char>, i: nat)
    requires i <= s.len()
    ensures upto(s, i) <= bytes(s), i <= bytes(s), bytes(s.take(i as int)) == upto(s, i)
{ assert(s =~= s.take(i as int) + s.skip(i as int)); bytes_cat(s.take(i as int), s.skip(i as int)); bytes_len(s); }
/// places are told apart by line and column
pub open spec fn spanned(s: Seq<char>, x: Span, i: nat, j: nat) -> bool { place(s, x.from(), i) && place(s, x.to(), j) && i <= j }
pub proof fn place_is(s: Seq<char>, l: LineColumn, i: nat)
    requires place(s, l, i)
    ensures i <= bytes(s), upto(s, i) <= bytes(s)
{ upto_le(s, i); }
#fn util::byte_offset
opts: {"str": true, "kinds": {"map": "iter"}}
contract:
    requires exists|i: nat| place({0}@, {1}, i)
    ensures forall|i: nat| place({0}@, {1}, i) ==> #[trigger] upto({0}@, i) == r
prologue:
    broadcast use str_fits;
    proof {
        assert forall|i: nat| place({0}@, {1}, i) implies true by { places({0}@, i); upto_le({0}@, i); }
        let i = choose|i: nat| place({0}@, {1}, i);
        places({0}@, i); upto_le({0}@, i); upto_le({0}@, (i - {1}.column) as nat);
        same_place({0}@, {1});
        if ({1}.line - 1) < pieces({0}@).len() { let p = pieces({0}@)[{1}.line - 1]; assert(p.take(p.len() as int) =~= p); }
        assert(pieces({0}@).skip(({1}.line - 1) as int).len() > 0 ==> pieces({0}@).skip(({1}.line - 1) as int)[0] == pieces({0}@)[({1}.line - 1) as int]);
    }
#fn util::char_offset
opts: {"str": true, "kinds": {"map": "iter"}}
contract:
    requires exists|i: nat| place({0}@, {1}, i)
    ensures forall|i: nat| #[trigger] place({0}@, {1}, i) ==> i == r
prologue:
    broadcast use str_fits;
    proof {
        let i = choose|i: nat| place({0}@, {1}, i);
        places({0}@, i); upto_le({0}@, i);
        same_place({0}@, {1});
    }
#spec SamePlace
pub proof fn same_place(s: Seq<char>, l: LineColumn)
    ensures forall|i: nat, j: nat| #[trigger] place(s, l, i) && #[trigger] place(s, l, j) ==> i == j
{ assert forall|i: nat, j: nat| #[trigger] place(s, l, i) && #[trigger] place(s, l, j) implies i == j by { places(s, i); places(s, j); } }
#fn trait SpannedExt::byte_range
mode: ext
opts: {"str": true}
contract:
    requires exists|i: nat, j: nat| #[trigger] spanned({1}@, self.spe(), i, j)
    ensures forall|i: nat, j: nat| #[trigger] spanned({1}@, self.spe(), i, j) ==> r.start == upto({1}@, i) && r.end == upto({1}@, j)
#fn trait SpannedExt::char_range
mode: ext
opts: {"str": true}
contract:
    requires exists|i: nat, j: nat| #[trigger] spanned({1}@, self.spe(), i, j)
    ensures forall|i: nat, j: nat| #[trigger] spanned({1}@, self.spe(), i, j) ==> r.start == i && r.end == j
#fn trait SpannedExt::source_substring
mode: ext
opts: {"str": true}
contract:
    requires exists|i: nat, j: nat| #[trigger] spanned({1}@, self.spe(), i, j)
    ensures forall|i: nat, j: nat| #[trigger] spanned({1}@, self.spe(), i, j) ==> r@ == {1}@.subrange(i as int, j as int)
#fn trait SpannedExt::format_span
mode: ext
contract:
    ensures r.span == self.spe()
#fn SpannedExt for T::span
extra:
    open spec fn spe(&self) -> Span { self.sp() }
#fn SpanDisplay::new
contract:
    ensures r.span == {0}
#fn From<Span> for SpanDisplay::from
mode: inherent
contract:
    ensures r.span == {0}
#fn Display for SpanDisplay::fmt
mode: inherent
contract:
    requires self.span.from().column < usize::MAX
    ensures r is Ok ==> final({1})@ == old({1})@ + dec(self.span.from().line as nat) + seq![':'] + dec((self.span.from().column + 1) as nat) + seq!['.', '.'] + dec(self.span.to().line as nat) + seq![':'] + dec(self.span.to().column as nat)
prologue:
    proof { reveal_strlit(":"); reveal_strlit(".."); }

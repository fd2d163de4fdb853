//! C21: Either's own methods against the side it holds.
use crate::rng::Rng;
use crate::{Found, Run};
use parsel::ast::Either;
use std::fmt;
use std::ops::{Deref, DerefMut};

macro_rules! same { ($run:expr, $case:expr, $got:expr, $want:expr) => {{
    let case: String = $case;
    $run.start(&case);
    let got = $run.guard(|| format!("{:?}", $got));
    $run.stop();
    let want = format!("{:?}", $want);
    $run.count(&case, true);
    if got.as_ref().ok() != Some(&want) { return Some(Found { input: case, expected: want, got: got.unwrap_or_else(|m| format!("panic: {}", m)) }); }
}} }
/// an iterator that notes which of its methods is called
#[derive(Clone, Debug)]
struct It { v: Vec<u32>, log: Vec<String>, odd: bool }
impl Iterator for It {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { self.log.push("next".into()); if self.v.is_empty() { None } else { Some(self.v.remove(0)) } }
    fn size_hint(&self) -> (usize, Option<usize>) { if self.odd { (self.v.len() / 2, Some(self.v.len() + 3)) } else { (self.v.len(), Some(self.v.len())) } }
    fn nth(&mut self, n: usize) -> Option<u32> { self.log.push(format!("nth {}", n)); if n >= self.v.len() { self.v.clear(); None } else { self.v.drain(..n); Some(self.v.remove(0)) } }
    fn count(self) -> usize { self.v.len() + if self.odd { 100 } else { 0 } }
    fn last(self) -> Option<u32> { self.v.last().map(|x| x + if self.odd { 100 } else { 0 }) }
}
impl DoubleEndedIterator for It { fn next_back(&mut self) -> Option<u32> { self.log.push("next_back".into()); self.v.pop() } }
impl ExactSizeIterator for It {}
impl Extend<u32> for It { fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) { self.log.push("extend".into()); self.v.extend(i); } }
/// shows what the formatter was asked for
struct Fm(u32);
fn flags(f: &fmt::Formatter<'_>, k: &str, n: u32) -> String { format!("{}{} w{:?} p{:?} f{:?} a{} +{} 0{} {:?}", k, n, f.width(), f.precision(), f.fill(), f.alternate(), f.sign_plus(), f.sign_aware_zero_pad(), f.align().is_some()) }
impl fmt::Display for Fm { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { let s = flags(f, "display", self.0); f.write_str(&s) } }
impl fmt::Debug for Fm { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { let s = flags(f, "debug", self.0); f.write_str(&s) } }
fn strip<A: Copy>(x: Option<Either<A, A>>, left: bool) -> Result<Option<A>, &'static str> {
    match x { None => Ok(None), Some(Either::Left(v)) if left => Ok(Some(v)), Some(Either::Right(v)) if !left => Ok(Some(v)), _ => Err("the other side") }
}
pub fn run(run: &mut Run) -> Option<Found> {
    for (i, v) in [Either::Left(3u32), Either::Right(3u32)].into_iter().enumerate() {
        let left = i == 0;
        let w: Either<u32, char> = if left { Either::Left(7) } else { Either::Right('x') };
        let d = format!("Either<u32, char>::{:?}", if left { "Left(7)" } else { "Right('x')" });
        same!(run, format!("{}.left()", d), w.left(), if left { Some(7) } else { None });
        same!(run, format!("{}.right()", d), w.right(), if left { None } else { Some('x') });
        same!(run, format!("{}.is_left(), is_right()", d), (w.is_left(), w.is_right()), (left, !left));
        same!(run, format!("{}.flip() left and right", d), (w.flip().left(), w.flip().right()), if left { (None, Some(7)) } else { (Some('x'), None) });
        same!(run, format!("{}.as_ref() left and right", d), (w.as_ref().left(), w.as_ref().right()), if left { (Some(&7), None) } else { (None, Some(&'x')) });
        same!(run, format!("{}.map(+1, upper)", d), { let m = w.map(|x| x + 1, |c| c.to_ascii_uppercase()); (m.left(), m.right()) }, if left { (Some(8), None) } else { (None, Some('X')) });
        same!(run, format!("{}.as_mut() then changed", d), { let mut m = w; match m.as_mut() { Either::Left(x) => *x = 9, Either::Right(c) => *c = 'y' } (m.left(), m.right()) }, if left { (Some(9), None) } else { (None, Some('y')) });
        same!(run, format!("{}.map called once on one side only", d), { let mut n = (0, 0); { let (a, b) = (&mut n.0, &mut n.1); let _ = w.map(|_| *a += 1, |_| *b += 1); } n }, if left { (1, 0) } else { (0, 1) });
        let side = if left { "Left" } else { "Right" };
        same!(run, format!("Either<u32, u32>::{}(3).into_inner()", side), v.into_inner(), 3);
        same!(run, format!("Either<u32, u32>::{}(3): deref, AsRef", side), (*v.deref(), *AsRef::<u32>::as_ref(&v)), (3, 3));
        same!(run, format!("Either<u32, u32>::{}(3): changed through DerefMut and AsMut", side), { let mut m = v; *m.deref_mut() += 1; *AsMut::<u32>::as_mut(&mut m) *= 10; (m.left(), m.right()) }, if left { (Some(40), None) } else { (None, Some(40)) });
        for o in [None, Some(5u32)] {
            let e: Either<Option<u32>, Option<u32>> = if left { Either::Left(o) } else { Either::Right(o) };
            same!(run, format!("Either::{}({:?}).transpose()", side, o), strip(e.transpose(), left), Ok::<_, &str>(o));
        }
        for ok in [true, false] {
            let x: parsel::Result<u32> = if ok { Ok(5) } else { Err(parsel::Error::new(parsel::Span::call_site(), "no")) };
            let e: Either<parsel::Result<u32>, parsel::Result<u32>> = if left { Either::Left(x) } else { Either::Right(x) };
            same!(run, format!("Either::{}(result, ok: {}).transpose()", side, ok), e.transpose().map(|e| (e.left(), e.right())).map_err(|e| e.to_string()),
                if ok { Ok(if left { (Some(5), None) } else { (None, Some(5)) }) } else { Err("no".to_string()) });
        }
        let f: Either<Fm, Fm> = if left { Either::Left(Fm(1)) } else { Either::Right(Fm(1)) };
        macro_rules! fm { ($($f:literal),*) => { $( same!(run, format!("format {} of Either::{}", $f, side), format!($f, f), format!($f, Fm(1))); )* } }
        fm!("{}", "{:?}", "{:#}", "{:#?}", "{:>8}", "{:*^12.3}", "{:+}", "{:08?}", "{:<5?}");
    }
    let n = if run.thorough { 40000 } else { 4000 };
    for k in 0..n {
        let mut r = Rng(run.seed.wrapping_mul(77).wrapping_add(k));
        let left = r.chance(1, 2);
        let len = if r.chance(1, 40) { 100 + r.below(400) } else { r.below(9) };
        let it = It { v: (0..len as u32).map(|x| x + 10).collect(), log: vec![], odd: r.chance(1, 3) };
        let mut e: Either<It, It> = if left { Either::Left(it.clone()) } else { Either::Right(it.clone()) };
        let mut m = it.clone();
        let mut hist = String::new();
        let side = if left { "Left" } else { "Right" };
        for _ in 0..r.below(7) {
            let q = r.below(4);
            match r.below(6) {
                0 | 1 => { hist += ".next()"; same!(run, format!("iterator over {:?} in Either::{}{}", it, side, hist), strip(e.next(), left), Ok::<_, &str>(m.next())); }
                2 => { hist += ".next_back()"; same!(run, format!("iterator over {:?} in Either::{}{}", it, side, hist), strip(e.next_back(), left), Ok::<_, &str>(m.next_back())); }
                3 => { hist += &format!(".nth({})", q); same!(run, format!("iterator over {:?} in Either::{}{}", it, side, hist), strip(e.nth(q), left), Ok::<_, &str>(m.nth(q))); }
                4 => { hist += ".size_hint()"; same!(run, format!("iterator over {:?} in Either::{}{}", it, side, hist), e.size_hint(), m.size_hint()); }
                _ => { let x = if r.chance(1, 10) { 60 + r.below(300) } else { r.below(4) } as u32; hist += &format!(".extend(90..90 + {})", x); same!(run, format!("iterator over {:?} in Either::{}{}", it, side, hist), { e.extend(90..90 + x); }, { m.extend(90..90 + x); }); }
            }
        }
        // the methods called on the side, and what is left in it
        same!(run, format!("iterator over {:?} in Either::{}{}: calls of its methods", it, side, hist), e.as_ref().into_inner().log, m.log);
        let d = format!("iterator over {:?} in Either::{}{}", it, side, hist);
        let (e1, m1) = (e.clone(), m.clone());
        let un = |x: Either<u32, u32>| x.into_inner();
        match r.below(10) {
            0 => same!(run, format!("{}.count()", d), e1.count(), m1.count()),
            1 => same!(run, format!("{}.last()", d), strip(e1.last(), left), Ok::<_, &str>(m1.last())),
            2 => same!(run, format!("{} collected", d), Iterator::map(e1, un).collect::<Vec<_>>(), m1.collect::<Vec<_>>()),
            3 => same!(run, format!("{} reversed", d), e1.rev().map(un).collect::<Vec<_>>(), m1.rev().collect::<Vec<_>>()),
            4 => same!(run, format!("{} every second", d), e1.step_by(2).map(un).collect::<Vec<_>>(), m1.step_by(2).collect::<Vec<_>>()),
            5 => same!(run, format!("{}.fold", d), e1.fold(String::new(), |a, x| a + &un(x).to_string()), m1.fold(String::new(), |a, x| a + &x.to_string())),
            6 => same!(run, format!("{}.rfold", d), e1.rfold(String::new(), |a, x| a + &un(x).to_string()), m1.rfold(String::new(), |a, x| a + &x.to_string())),
            7 => same!(run, format!("{}.nth_back(1)", d), { let mut x = e1; strip(x.nth_back(1), left) }, Ok::<_, &str>({ let mut x = m1; x.nth_back(1) })),
            8 if !it.odd => same!(run, format!("{}.len()", d), e1.len(), m1.len()),
            _ => same!(run, format!("{}.find", d), { let mut x = e1; (x.find(|v| v.into_inner() % 2 == 1).map(un), Iterator::map(x, un).collect::<Vec<_>>()) }, { let mut x = m1; (x.find(|v| v % 2 == 1), x.collect::<Vec<_>>()) }),
        }
        let l: Either<Vec<u32>, std::collections::BTreeSet<u32>> = if left { Either::Left(it.v.clone()) } else { Either::Right(it.v.iter().cloned().collect()) };
        same!(run, format!("Either::{}({:?}).into_iter()", side, it.v), Iterator::map(l.into_iter(), |x| x.into_inner()).collect::<Vec<u32>>(), it.v);
    }
    None
}

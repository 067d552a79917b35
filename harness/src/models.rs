//! Meaning of std iterator consumers, as plain `next` loops over the same arguments.
use std::ops::{ControlFlow, Try};

pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x).branch() {
            ControlFlow::Continue(c) => acc = c,
            ControlFlow::Break(r) => return R::from_residual(r),
        }
    }
    R::from_output(acc)
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    loop {
        match it.next() {
            None => return None,
            Some(x) => {
                if i == n {
                    return Some(x);
                }
            }
        }
        i += 1;
    }
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn iter_rposition<I: ExactSizeIterator + DoubleEndedIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() {
        i -= 1;
        if f(x) {
            return Some(i);
        }
    }
    None
}
pub fn iter_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_max<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut m = it.next()?;
    while let Some(x) = it.next() {
        if x >= m {
            m = x;
        }
    }
    Some(m)
}
pub fn iter_min<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut m = it.next()?;
    while let Some(x) = it.next() {
        if x < m {
            m = x;
        }
    }
    Some(m)
}
pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut m = it.next()?;
    while let Some(x) = it.next() {
        m = f(m, x);
    }
    Some(m)
}
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn vec_extend_ref<T: Copy, A, I: IntoIterator>(v: &mut Vec<T>, it: I)
where
    I::Item: std::ops::Deref<Target = T>,
{
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
/// only the effect on the vector; the removed elements are not modelled
pub fn vec_splice<T, A, R: std::ops::RangeBounds<usize>, I: IntoIterator<Item = T>>(v: &mut Vec<T>, r: R, it: I) {
    use std::ops::Bound::*;
    let n = v.len();
    let lo = match r.start_bound() {
        Included(x) => *x,
        Excluded(x) => *x + 1,
        Unbounded => 0,
    };
    let hi = match r.end_bound() {
        Included(x) => *x + 1,
        Excluded(x) => *x,
        Unbounded => n,
    };
    assert!(lo <= hi && hi <= n);
    let old = std::mem::take(v);
    let mut it = it.into_iter();
    let mut i = 0;
    let mut old = old.into_iter();
    while i < lo {
        if let Some(x) = old.next() {
            v.push(x);
        }
        i += 1;
    }
    while let Some(x) = it.next() {
        v.push(x);
    }
    while let Some(x) = old.next() {
        if i >= hi {
            v.push(x);
        }
        i += 1;
    }
}

// ---- formatting
use crate::verif;
use std::fmt::{self, Arguments, Display, Formatter};
pub fn fmt_display<T: Display>(x: &T) -> Arguments<'_> {
    verif::fmt_arg(x, <T as Display>::fmt as fn(&T, &mut Formatter<'_>) -> fmt::Result)
}
pub fn fmt_write_fmt(f: &mut Formatter<'_>, a: Arguments<'_>) -> fmt::Result {
    let mut i = 0;
    loop {
        let (kind, lit, r, g) = verif::fmt_piece(&a, i);
        match kind {
            0 => return Ok(()),
            1 => verif::fmt_buf(f).push_str(lit),
            _ => g(r, f)?,
        }
        i += 1;
    }
}
pub fn fmt_write_str(f: &mut Formatter<'_>, s: &str) -> fmt::Result {
    verif::fmt_buf(f).push_str(s);
    Ok(())
}
pub fn fmt_write_char(f: &mut Formatter<'_>, c: char) -> fmt::Result {
    verif::fmt_buf(f).push(c);
    Ok(())
}
pub fn str_display(s: &str, f: &mut Formatter<'_>) -> fmt::Result {
    verif::fmt_buf(f).push_str(s);
    Ok(())
}
pub fn string_display(s: &String, f: &mut Formatter<'_>) -> fmt::Result {
    verif::fmt_buf(f).push_str(s);
    Ok(())
}
pub fn char_display(s: &char, f: &mut Formatter<'_>) -> fmt::Result {
    verif::fmt_buf(f).push(*s);
    Ok(())
}
pub fn string_write_fmt<W>(s: &mut String, a: Arguments<'_>) -> fmt::Result {
    let mut f = verif::formatter(s);
    fmt_write_fmt(&mut f, a)
}
pub fn fmt_format(a: Arguments<'_>) -> String {
    if !verif::fmt_plain(&a) {
        return verif::opaque();
    }
    let mut s = String::new();
    let mut f = verif::formatter(&mut s);
    let _ = fmt_write_fmt(&mut f, a);
    s
}
pub fn to_string<T: Display + ?Sized>(x: &T) -> String {
    if !verif::plain::<T>() {
        return verif::opaque();
    }
    let mut s = String::new();
    let mut f = verif::formatter(&mut s);
    let _ = x.fmt(&mut f);
    s
}
// ---- strings of ASCII characters
fn white(b: u8) -> bool {
    b == 32 || (b >= 9 && b <= 13)
}
pub fn str_trim_start(s: &str) -> &str {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() && white(verif::char_byte(b[i] as char)) {
        i += 1;
    }
    &s[i..]
}
pub fn str_trim_end(s: &str) -> &str {
    let b = s.as_bytes();
    let mut i = b.len();
    while i > 0 && white(verif::char_byte(b[i - 1] as char)) {
        i -= 1;
    }
    &s[..i]
}
pub fn str_trim(s: &str) -> &str {
    str_trim_end(str_trim_start(s))
}
pub fn str_trim_start_matches<P>(s: &str, p: P) -> &str {
    let p = verif::pattern(&p);
    let mut i = 0;
    while i + p.len() <= s.len() && p.len() > 0 && has_at(s.as_bytes(), i, p) {
        i += p.len();
    }
    &s[i..]
}
pub fn str_trim_end_matches<P>(s: &str, p: P) -> &str {
    let p = verif::pattern(&p);
    let mut i = s.len();
    while p.len() <= i && p.len() > 0 && has_at(s.as_bytes(), i - p.len(), p) {
        i -= p.len();
    }
    &s[..i]
}
pub fn str_trim_matches<P>(s: &str, p: P) -> &str {
    let p = verif::pattern(&p);
    let mut i = 0;
    while i + p.len() <= s.len() && p.len() > 0 && has_at(s.as_bytes(), i, p) {
        i += p.len();
    }
    let mut j = s.len();
    while i + p.len() <= j && p.len() > 0 && has_at(s.as_bytes(), j - p.len(), p) {
        j -= p.len();
    }
    &s[i..j]
}
fn at(s: &str, i: usize) -> char {
    let c = s.as_bytes()[i] as char;
    let _ = verif::char_byte(c);
    c
}
pub fn str_trim_start_matches_fn<P: FnMut(char) -> bool>(s: &str, mut p: P) -> &str {
    let mut i = 0;
    while i < s.len() && p(at(s, i)) {
        i += 1;
    }
    &s[i..]
}
pub fn str_trim_end_matches_fn<P: FnMut(char) -> bool>(s: &str, mut p: P) -> &str {
    let mut i = s.len();
    while i > 0 && p(at(s, i - 1)) {
        i -= 1;
    }
    &s[..i]
}
pub fn str_trim_matches_fn<P: FnMut(char) -> bool>(s: &str, mut p: P) -> &str {
    let mut i = 0;
    while i < s.len() && p(at(s, i)) {
        i += 1;
    }
    let mut j = s.len();
    while i < j && p(at(s, j - 1)) {
        j -= 1;
    }
    &s[i..j]
}
pub fn str_find_fn<P: FnMut(char) -> bool>(s: &str, mut p: P) -> Option<usize> {
    let mut i = 0;
    while i < s.len() {
        if p(at(s, i)) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn str_contains_fn<P: FnMut(char) -> bool>(s: &str, p: P) -> bool {
    str_find_fn(s, p).is_some()
}
pub fn str_starts_with_fn<P: FnMut(char) -> bool>(s: &str, mut p: P) -> bool {
    s.len() > 0 && p(at(s, 0))
}
pub fn str_ends_with_fn<P: FnMut(char) -> bool>(s: &str, mut p: P) -> bool {
    s.len() > 0 && p(at(s, s.len() - 1))
}
pub fn str_rfind<P>(s: &str, p: P) -> Option<usize> {
    let p = verif::pattern(&p);
    let mut i = s.len() + 1;
    while i > p.len() {
        i -= 1;
        if has_at(s.as_bytes(), i - p.len(), p) {
            return Some(i - p.len());
        }
    }
    None
}
pub fn str_rsplit_once<P>(s: &str, p: P) -> Option<(&str, &str)> {
    let n = verif::pattern(&p).len();
    match str_rfind(s, p) {
        Some(i) => Some((&s[..i], &s[i + n..])),
        None => None,
    }
}
fn has_at(b: &[u8], at: usize, p: &[u8]) -> bool {
    let mut i = 0;
    let mut ok = true;
    while i < p.len() {
        ok = ok & (b[at + i] == p[i]);
        i += 1;
    }
    ok
}
pub fn str_starts_with<P>(s: &str, p: P) -> bool {
    let p = verif::pattern(&p);
    p.len() <= s.len() && has_at(s.as_bytes(), 0, p)
}
pub fn str_ends_with<P>(s: &str, p: P) -> bool {
    let p = verif::pattern(&p);
    p.len() <= s.len() && has_at(s.as_bytes(), s.len() - p.len(), p)
}
pub fn str_strip_prefix<P>(s: &str, p: P) -> Option<&str> {
    let p = verif::pattern(&p);
    if p.len() <= s.len() && has_at(s.as_bytes(), 0, p) { Some(&s[p.len()..]) } else { None }
}
pub fn str_strip_suffix<P>(s: &str, p: P) -> Option<&str> {
    let p = verif::pattern(&p);
    if p.len() <= s.len() && has_at(s.as_bytes(), s.len() - p.len(), p) { Some(&s[..s.len() - p.len()]) } else { None }
}
pub fn str_find<P>(s: &str, p: P) -> Option<usize> {
    let p = verif::pattern(&p);
    let mut i = 0;
    while i + p.len() <= s.len() {
        if has_at(s.as_bytes(), i, p) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn str_contains<P>(s: &str, p: P) -> bool {
    str_find(s, p).is_some()
}
pub fn str_split_once<P>(s: &str, p: P) -> Option<(&str, &str)> {
    let n = verif::pattern(&p).len();
    match str_find(s, p) {
        Some(i) => Some((&s[..i], &s[i + n..])),
        None => None,
    }
}
pub struct Lines<'a> {
    rest: &'a str,
}
pub fn str_lines(s: &str) -> Lines<'_> {
    Lines { rest: s }
}
pub fn lines_next<'a>(it: &mut Lines<'a>) -> Option<&'a str> {
    let s = it.rest;
    let b = s.as_bytes();
    if b.len() == 0 {
        return None;
    }
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\n' {
            it.rest = &s[i + 1..];
            if i > 0 && b[i - 1] == b'\r' {
                return Some(&s[..i - 1]);
            }
            return Some(&s[..i]);
        }
        i += 1;
    }
    it.rest = &s[i..];
    Some(s)
}
pub struct Split<'a> {
    rest: Option<&'a str>,
    sep: Vec<u8>,
}
pub fn str_split<'a, P>(s: &'a str, p: P) -> Split<'a> {
    Split { rest: Some(s), sep: verif::pattern(&p).to_vec() }
}
pub fn split_next<'a, P>(it: &mut Split<'a>) -> Option<&'a str> {
    let s = it.rest?;
    let b = s.as_bytes();
    let n = it.sep.len();
    let mut i = 0;
    while i + n <= b.len() {
        if has_at(b, i, &it.sep) {
            it.rest = Some(&s[i + n..]);
            return Some(&s[..i]);
        }
        i += 1;
    }
    it.rest = None;
    Some(s)
}
pub fn slice_join_str<S: std::borrow::Borrow<str>>(v: &[S], sep: &str) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        if i > 0 {
            o.push_str(sep);
        }
        o.push_str(v[i].borrow());
        i += 1;
    }
    o
}
pub fn slice_concat_str<S: std::borrow::Borrow<str>>(v: &[S]) -> String {
    slice_join_str(v, "")
}
pub fn string_from_iter<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut v = String::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}

pub struct MZip<A, B> {
    a: A,
    b: B,
}
pub fn iter_zip<A: Iterator, U: IntoIterator>(a: A, b: U) -> MZip<A, U::IntoIter> {
    MZip { a, b: b.into_iter() }
}
pub fn zip_fn_zip<A: IntoIterator, U: IntoIterator>(a: A, b: U) -> MZip<A::IntoIter, U::IntoIter> {
    MZip { a: a.into_iter(), b: b.into_iter() }
}
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut MZip<A, B>) -> Option<(A::Item, B::Item)> {
    let x = z.a.next()?;
    let y = z.b.next()?;
    Some((x, y))
}
pub fn zip_next_back<A: DoubleEndedIterator + ExactSizeIterator, B: DoubleEndedIterator + ExactSizeIterator>(z: &mut MZip<A, B>) -> Option<(A::Item, B::Item)> {
    while z.a.len() > z.b.len() {
        z.a.next_back();
    }
    while z.b.len() > z.a.len() {
        z.b.next_back();
    }
    match (z.a.next_back(), z.b.next_back()) {
        (Some(x), Some(y)) => Some((x, y)),
        _ => None,
    }
}
pub fn zip_size_hint<A: Iterator, B: Iterator>(z: &MZip<A, B>) -> (usize, Option<usize>) {
    let (al, ah) = z.a.size_hint();
    let (bl, bh) = z.b.size_hint();
    let l = if al < bl { al } else { bl };
    let h = match (ah, bh) {
        (Some(x), Some(y)) => Some(if x < y { x } else { y }),
        (Some(x), None) => Some(x),
        (None, y) => y,
    };
    (l, h)
}
pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
    let mut v = Vec::new();
    let mut i = 0;
    while i < N {
        v.push(f(i));
        i += 1;
    }
    match <[T; N]>::try_from(v) {
        Ok(a) => a,
        Err(_) => unreachable!(),
    }
}
pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
    let mut v = Vec::new();
    for x in a {
        v.push(f(x));
    }
    match <[U; N]>::try_from(v) {
        Ok(a) => a,
        Err(_) => unreachable!(),
    }
}
pub fn vec_push_mut<T, A>(v: &mut Vec<T>, x: T) -> &mut T {
    v.push(x);
    let n = v.len() - 1;
    &mut v[n]
}
pub fn vec_extend_one<T, A>(v: &mut Vec<T>, x: T) {
    v.push(x);
}
pub fn vec_extend_from_within<T: Clone, A, R: std::ops::RangeBounds<usize>>(v: &mut Vec<T>, r: R) {
    use std::ops::Bound::*;
    let n = v.len();
    let lo = match r.start_bound() {
        Included(x) => *x,
        Excluded(x) => *x + 1,
        Unbounded => 0,
    };
    let hi = match r.end_bound() {
        Included(x) => *x + 1,
        Excluded(x) => *x,
        Unbounded => n,
    };
    assert!(lo <= hi && hi <= n);
    let mut i = lo;
    while i < hi {
        let x = v[i].clone();
        v.push(x);
        i += 1;
    }
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    for x in old {
        if f(&x) {
            v.push(x);
        }
    }
}
pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    for mut x in old {
        if f(&mut x) {
            v.push(x);
        }
    }
}
pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    let old = std::mem::take(v);
    for x in old {
        let same = match v.last() {
            Some(y) => *y == x,
            None => false,
        };
        if !same {
            v.push(x);
        }
    }
}
pub fn vec_resize_with<T, A, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    v.truncate(n);
    while v.len() < n {
        v.push(f());
    }
}
pub fn vec_pop_if<T, A, F: FnOnce(&mut T) -> bool>(v: &mut Vec<T>, f: F) -> Option<T> {
    let ok = match v.last_mut() {
        Some(x) => f(x),
        None => false,
    };
    if ok { v.pop() } else { None }
}
pub fn slice_swap_with<T>(a: &mut [T], b: &mut [T]) {
    assert!(a.len() == b.len());
    let mut i = 0;
    while i < a.len() {
        std::mem::swap(&mut a[i], &mut b[i]);
        i += 1;
    }
}
pub fn slice_repeat<T: Copy>(a: &[T], n: usize) -> Vec<T> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.extend_from_slice(a);
        i += 1;
    }
    v
}
pub fn str_repeat(a: &str, n: usize) -> String {
    let mut v = String::new();
    let mut i = 0;
    while i < n {
        v.push_str(a);
        i += 1;
    }
    v
}
pub fn slice_join_one<T: Clone, V: std::borrow::Borrow<[T]>>(s: &[V], sep: &T) -> Vec<T> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if i > 0 {
            o.push(sep.clone());
        }
        o.extend_from_slice(s[i].borrow());
        i += 1;
    }
    o
}
pub fn slice_join_many<T: Clone, V: std::borrow::Borrow<[T]>>(s: &[V], sep: &[T]) -> Vec<T> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if i > 0 {
            o.extend_from_slice(sep);
        }
        o.extend_from_slice(s[i].borrow());
        i += 1;
    }
    o
}
pub struct SliceSplit<'a, T, P> {
    rest: Option<&'a [T]>,
    p: P,
}
pub fn slice_split<T, F: FnMut(&T) -> bool>(s: &[T], p: F) -> SliceSplit<'_, T, F> {
    SliceSplit { rest: Some(s), p }
}
pub fn slice_split_next<'a, T, P: FnMut(&T) -> bool>(it: &mut SliceSplit<'a, T, P>) -> Option<&'a [T]> {
    let s = it.rest?;
    let mut i = 0;
    while i < s.len() {
        if (it.p)(&s[i]) {
            it.rest = Some(&s[i + 1..]);
            return Some(&s[..i]);
        }
        i += 1;
    }
    it.rest = None;
    Some(s)
}
pub fn slice_partition_point<T, P: FnMut(&T) -> bool>(s: &[T], mut p: P) -> usize {
    let mut i = 0;
    while i < s.len() && p(&s[i]) {
        i += 1;
    }
    i
}
pub fn slice_as_chunks<T: Copy, const N: usize>(s: &[T]) -> (&[[T; N]], &[T]) {
    let mut v: Vec<[T; N]> = Vec::new();
    let mut i = 0;
    while i + N <= s.len() {
        match <[T; N]>::try_from(&s[i..i + N]) {
            Ok(a) => v.push(a),
            Err(_) => unreachable!(),
        }
        i += N;
    }
    (v.leak(), &s[i..])
}
pub fn slice_sort<T: Ord>(s: &mut [T]) {
    let mut i = 1;
    while i < s.len() {
        let mut j = i;
        while j > 0 && s[j] < s[j - 1] {
            s.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(s: &mut [T], mut f: F) {
    let mut i = 1;
    while i < s.len() {
        let mut j = i;
        while j > 0 && f(&s[j], &s[j - 1]) == std::cmp::Ordering::Less {
            s.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}
pub fn iter_nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    loop {
        match it.next_back() {
            None => return None,
            Some(x) => {
                if i == n {
                    return Some(x);
                }
            }
        }
        i += 1;
    }
}
pub fn iter_advance_by<I: Iterator>(it: &mut I, n: usize) -> Result<(), std::num::NonZero<usize>> {
    let mut i = 0;
    while i < n {
        if it.next().is_none() {
            return Err(std::num::NonZero::new(n - i).unwrap());
        }
        i += 1;
    }
    Ok(())
}
pub fn iter_advance_back_by<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Result<(), std::num::NonZero<usize>> {
    let mut i = 0;
    while i < n {
        if it.next_back().is_none() {
            return Err(std::num::NonZero::new(n - i).unwrap());
        }
        i += 1;
    }
    Ok(())
}
pub fn str_ascii_upper(s: &str) -> String {
    let mut o = Vec::new();
    for b in s.bytes() {
        o.push(b.to_ascii_uppercase());
    }
    String::from_utf8(o).unwrap()
}
pub fn str_ascii_lower(s: &str) -> String {
    let mut o = Vec::new();
    for b in s.bytes() {
        o.push(b.to_ascii_lowercase());
    }
    String::from_utf8(o).unwrap()
}
pub fn select_unpredictable<T>(b: bool, x: T, y: T) -> T {
    if b { x } else { y }
}
/// pieces of a string, found once
pub struct Pieces<'a> {
    v: std::vec::IntoIter<&'a str>,
}
fn pieces<'a>(s: &'a str, sep: &[u8], limit: usize) -> Vec<&'a str> {
    let mut o = Vec::new();
    let b = s.as_bytes();
    let (mut i, mut start) = (0, 0);
    while o.len() + 1 < limit && i + sep.len() <= b.len() {
        if has_at(b, i, sep) {
            o.push(&s[start..i]);
            i += sep.len();
            start = i;
        } else {
            i += 1;
        }
    }
    o.push(&s[start..]);
    o
}
pub fn str_splitn<'a, P>(s: &'a str, n: usize, p: P) -> Pieces<'a> {
    let v = if n == 0 { Vec::new() } else { pieces(s, verif::pattern(&p), n) };
    Pieces { v: v.into_iter() }
}
pub fn str_rsplit<'a, P>(s: &'a str, p: P) -> Pieces<'a> {
    let mut v = pieces(s, verif::pattern(&p), usize::MAX);
    v.reverse();
    Pieces { v: v.into_iter() }
}
pub fn str_split_terminator<'a, P>(s: &'a str, p: P) -> Pieces<'a> {
    let mut v = pieces(s, verif::pattern(&p), usize::MAX);
    if let Some(l) = v.last() {
        if l.is_empty() {
            v.pop();
        }
    }
    Pieces { v: v.into_iter() }
}
pub fn pieces_next<'a, P>(it: &mut Pieces<'a>) -> Option<&'a str> {
    it.v.next()
}
pub fn str_replace<P>(s: &str, p: P, to: &str) -> String {
    let v = pieces(s, verif::pattern(&p), usize::MAX);
    let mut o = String::new();
    let mut i = 0;
    while i < v.len() {
        if i > 0 {
            o.push_str(to);
        }
        o.push_str(v[i]);
        i += 1;
    }
    o
}
pub fn str_split_whitespace(s: &str) -> Pieces<'_> {
    let mut o = Vec::new();
    let b = s.as_bytes();
    let (mut i, mut start) = (0, 0);
    while i < b.len() {
        if white(verif::char_byte(b[i] as char)) {
            if start < i {
                o.push(&s[start..i]);
            }
            start = i + 1;
        }
        i += 1;
    }
    if start < b.len() {
        o.push(&s[start..]);
    }
    Pieces { v: o.into_iter() }
}
pub fn pieces_next0<'a>(it: &mut Pieces<'a>) -> Option<&'a str> {
    it.v.next()
}
pub fn slice_ord<T: Ord>(a: &[T], b: &[T]) -> std::cmp::Ordering {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    let mut i = 0;
    while i < n {
        let c = a[i].cmp(&b[i]);
        if c != std::cmp::Ordering::Equal {
            return c;
        }
        i += 1;
    }
    a.len().cmp(&b.len())
}
pub fn slice_lt<T: Ord>(a: &[T], b: &[T]) -> bool {
    slice_ord(a, b) == std::cmp::Ordering::Less
}
pub fn slice_le<T: Ord>(a: &[T], b: &[T]) -> bool {
    slice_ord(a, b) != std::cmp::Ordering::Greater
}
pub fn slice_gt<T: Ord>(a: &[T], b: &[T]) -> bool {
    slice_ord(a, b) == std::cmp::Ordering::Greater
}
pub fn slice_ge<T: Ord>(a: &[T], b: &[T]) -> bool {
    slice_ord(a, b) != std::cmp::Ordering::Less
}
pub fn slice_partial_cmp<T: Ord>(a: &[T], b: &[T]) -> Option<std::cmp::Ordering> {
    Some(slice_ord(a, b))
}
pub fn string_insert(s: &mut String, i: usize, c: char) {
    let t = string_split_off(s, i);
    s.push(c);
    s.push_str(&t);
}
pub fn string_insert_str(s: &mut String, i: usize, c: &str) {
    let t = string_split_off(s, i);
    s.push_str(c);
    s.push_str(&t);
}
pub fn vec_ord<T: Ord, A>(a: &Vec<T>, b: &Vec<T>) -> std::cmp::Ordering {
    slice_ord(&a[..], &b[..])
}
pub fn vec_partial_cmp<T: Ord, A, B>(a: &Vec<T>, b: &Vec<T>) -> Option<std::cmp::Ordering> {
    Some(slice_ord(&a[..], &b[..]))
}
pub fn string_split_off(s: &mut String, i: usize) -> String {
    let t = s[i..].to_string();
    s.truncate(i);
    t
}
pub fn string_from_strs<I: IntoIterator>(it: I) -> String
where
    I::Item: AsRef<str>,
{
    let mut v = String::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push_str(x.as_ref());
    }
    v
}
pub fn string_extend_strs<I: IntoIterator>(v: &mut String, it: I)
where
    I::Item: AsRef<str>,
{
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push_str(x.as_ref());
    }
}
pub fn string_extend_chars<I: IntoIterator<Item = char>>(v: &mut String, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn string_extend_char_refs<I: IntoIterator>(v: &mut String, it: I)
where
    I::Item: std::ops::Deref<Target = char>,
{
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn string_from_char_refs<I: IntoIterator>(it: I) -> String
where
    I::Item: std::ops::Deref<Target = char>,
{
    let mut v = String::new();
    string_extend_char_refs(&mut v, it);
    v
}
pub fn write_write_fmt<W: fmt::Write + ?Sized>(w: &mut W, a: Arguments<'_>) -> fmt::Result {
    let mut s = String::new();
    let mut f = verif::formatter(&mut s);
    fmt_write_fmt(&mut f, a)?;
    w.write_str(&s)
}
pub fn string_pop(s: &mut String) -> Option<char> {
    let n = s.len();
    if n == 0 {
        return None;
    }
    let b = verif::char_byte(s.as_bytes()[n - 1] as char);
    s.truncate(n - 1);
    Some(b as char)
}

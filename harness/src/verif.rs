//! Analysis intrinsics. The bodies are never run: the analyser gives them meaning.
#![allow(unused_variables)]
use std::hint::black_box;
macro_rules! anyf { ($($n:ident $t:ty),*) => { $(#[inline(never)] pub fn $n(tag: &str) -> $t { black_box(0 as $t) })* } }
anyf!(any_u8 u8, any_u16 u16, any_u32 u32, any_u64 u64, any_u128 u128, any_usize usize);
#[inline(never)]
pub fn any_bool(tag: &str) -> bool { black_box(false) }
/// N arbitrary bytes
#[inline(never)]
pub fn bytes<const N: usize>(tag: &str) -> [u8; N] { black_box([0; N]) }
#[inline(never)]
pub fn words32<const N: usize>(tag: &str) -> [u32; N] { black_box([0; N]) }
#[inline(never)]
pub fn words64<const N: usize>(tag: &str) -> [u64; N] { black_box([0; N]) }
/// n arbitrary bytes, n known to the analyser
#[inline(never)]
pub fn vec(tag: &str, n: usize) -> Vec<u8> { black_box(Vec::new()) }
/// block*q + r arbitrary bytes for an arbitrary q >= 0
#[inline(never)]
pub fn msg(tag: &str, block: usize, r: usize) -> Vec<u8> { black_box(Vec::new()) }
/// enumerated analysis parameter
#[inline(never)]
pub fn param(name: &str) -> usize { black_box(0) }
#[inline(never)]
pub fn assume(c: bool) {}
#[inline(never)]
pub fn require(c: bool, msg: &str) {}
#[inline(never)]
pub fn require_eq<T: ?Sized>(a: &T, b: &T, msg: &str) {}
#[inline(never)]
pub fn unreachable(msg: &str) {}
/// does the closure panic?
#[inline(never)]
pub fn panics<F: FnOnce()>(f: F) -> bool { f(); false }
/// arbitrary keyed permutation and its inverse
#[inline(never)]
pub fn perm<const N: usize>(name: &str, inverse: bool, key: u64, data: [u8; N]) -> [u8; N] { black_box(data) }
#[inline(never)]
pub fn uf64<T: ?Sized>(name: &str, data: &T) -> u64 { black_box(0) }
#[inline(never)]
pub fn uf8<T: ?Sized>(name: &str, data: &T) -> u8 { black_box(0) }
#[inline(never)]
pub fn uf_bytes<const N: usize>(name: &str, data: &[u8]) -> [u8; N] { black_box([0; N]) }
#[inline(never)]
pub fn fields2<T, A, B>(x: &mut T) -> (&mut A, &mut B) { loop {} }
/// x, analysed separately for each of its possible values
#[inline(never)]
pub fn split<T>(x: T) -> T { x }
/// keep paths apart (true) or join them again (false)
#[inline(never)]
pub fn paths(on: bool) {}
/// decide branches from all path facts together
#[inline(never)]
pub fn prune(on: bool) {}
#[inline(never)]
pub fn dump<T: ?Sized>(x: &T) {}
/// formatting: an argument, the pieces of a format string, a formatter writing to a string
#[inline(never)]
pub fn fmt_arg<'a, T>(x: &'a T, f: fn(&T, &mut std::fmt::Formatter<'_>) -> std::fmt::Result) -> std::fmt::Arguments<'a> { loop {} }
#[inline(never)]
pub fn fmt_piece<'a>(a: &std::fmt::Arguments<'a>, i: usize) -> (u8, &'a str, &'a u8, fn(&u8, &mut std::fmt::Formatter<'_>) -> std::fmt::Result) { loop {} }
/// only arguments whose text matters
#[inline(never)]
pub fn fmt_plain(a: &std::fmt::Arguments<'_>) -> bool { black_box(false) }
#[inline(never)]
pub fn plain<T: ?Sized>() -> bool { black_box(false) }
#[inline(never)]
pub fn formatter<'a>(s: &'a mut String) -> std::fmt::Formatter<'a> { loop {} }
#[inline(never)]
pub fn fmt_buf<'b, 'a>(f: &'b mut std::fmt::Formatter<'a>) -> &'b mut String { loop {} }
#[inline(never)]
pub fn opaque<T>() -> T { loop {} }
/// the bytes of a string pattern (string or character)
#[inline(never)]
pub fn pattern<'a, P>(p: &'a P) -> &'a [u8] { loop {} }
#[inline(never)]
pub fn char_byte(c: char) -> u8 { black_box(0) }

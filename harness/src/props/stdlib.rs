
//! Idioms of the standard library on arbitrary inputs, to keep the analyser's reading of them honest.
#![allow(unstable_name_collisions)]
use crate::verif::{self, require, require_eq};

fn v(n: usize) -> Vec<u8> { verif::vec("a", n) }
fn w(n: usize) -> Vec<u8> { verif::vec("b", n) }
macro_rules! t { ($($n:ident $b:block)*) => { $(pub fn $n() $b)* } }
t! {
prop_std_zip { let (a, b) = (v(5), w(4)); let mut s = Vec::new(); for (x, y) in a.iter().zip(b.iter()) { s.push(x ^ y); }
    require_eq(&s[..], &[a[0]^b[0], a[1]^b[1], a[2]^b[2], a[3]^b[3]][..], ""); }
prop_std_zip2 { let (a, b) = (v(8), w(2)); let mut s = Vec::new(); for (x, y) in a.chunks(4).zip(b) { s.push(x[1] ^ y); }
    require_eq(&s[..], &[a[1]^w(2)[0], a[5]^w(2)[1]][..], ""); }
prop_std_zip3 { let mut a = v(4); let b = w(4); for (x, y) in a.iter_mut().zip(&b) { *x ^= y; }
    require_eq(&a[..], &[v(4)[0]^b[0], v(4)[1]^b[1], v(4)[2]^b[2], v(4)[3]^b[3]][..], ""); }
prop_std_zip4 { let mut a = v(4); let b = w(4); for (i, (x, y)) in a.iter_mut().rev().zip(b.iter().rev()).enumerate() { *x ^= y.wrapping_add(i as u8); }
    require_eq(&a[..], &[v(4)[0]^b[0].wrapping_add(3), v(4)[1]^b[1].wrapping_add(2), v(4)[2]^b[2].wrapping_add(1), v(4)[3]^b[3]][..], ""); }
prop_std_zip5 { let (a, b) = (v(3), w(3)); let s: Vec<u8> = std::iter::zip(&a, &b).map(|(x, y)| x & y).collect();
    require_eq(&s[..], &[a[0]&b[0], a[1]&b[1], a[2]&b[2]][..], ""); }
prop_std_zip6 { let (a, b) = (v(3), w(3)); let s: Vec<u8> = a.iter().zip(b.iter()).rev().map(|(x, y)| x & y).collect();
    require_eq(&s[..], &[a[2]&b[2], a[1]&b[1], a[0]&b[0]][..], ""); }
prop_std_from_fn { let a = v(4); let x: [u8; 4] = std::array::from_fn(|i| a[3 - i]); require_eq(&x, &[a[3], a[2], a[1], a[0]], ""); }
prop_std_arr_map { let a = [v(2)[0], v(2)[1]]; let x = a.map(|b| b as u16 + 1); require_eq(&x, &[a[0] as u16 + 1, a[1] as u16 + 1], ""); }
prop_std_sum { let a = v(3); let s: u32 = a.iter().map(|&x| x as u32).sum(); require_eq(&s, &(a[0] as u32 + a[1] as u32 + a[2] as u32), ""); }
prop_std_sum2 { let a = v(3); let s: usize = a.iter().map(|&x| x as usize).sum::<usize>(); require_eq(&s, &(a[0] as usize + a[1] as usize + a[2] as usize), ""); }
prop_std_product { let a = v(2); let s: u32 = a.iter().map(|&x| x as u32).product(); require_eq(&s, &(a[0] as u32 * a[1] as u32), ""); }
prop_std_step_by { let a = v(6); let s: Vec<u8> = a.iter().copied().step_by(2).collect(); require_eq(&s[..], &[a[0], a[2], a[4]][..], ""); }
prop_std_step_range { let a = v(6); let mut s = vec![]; for i in (0..6).step_by(3) { s.push(a[i]); } require_eq(&s[..], &[a[0], a[3]][..], ""); }
prop_std_step_rev { let a = v(6); let mut s = vec![]; for i in (0..6).rev().step_by(2) { s.push(a[i]); } require_eq(&s[..], &[a[5], a[3], a[1]][..], ""); }
prop_std_skip_take { let a = v(6); let s: Vec<u8> = a.iter().skip(1).take(3).cloned().collect(); require_eq(&s[..], &a[1..4], ""); }
prop_std_chain { let (a, b) = (v(2), w(2)); let s: Vec<u8> = a.iter().chain(b.iter()).copied().collect(); require_eq(&s[..], &[a[0], a[1], b[0], b[1]][..], ""); }
prop_std_chain2 { let a = v(2); let s: Vec<u8> = std::iter::once(7).chain(a.clone()).chain(std::iter::repeat(9).take(2)).collect(); require_eq(&s[..], &[7, a[0], a[1], 9, 9][..], ""); }
prop_std_flat_map { let a = v(2); let s: Vec<u8> = a.iter().flat_map(|x| [*x, !*x]).collect(); require_eq(&s[..], &[a[0], !a[0], a[1], !a[1]][..], ""); }
prop_std_flat_map2 { let a = verif::any_u32("x"); let b = verif::any_u32("y"); let s: Vec<u8> = [a, b].iter().flat_map(|x| x.to_be_bytes()).collect(); let mut e = a.to_be_bytes().to_vec(); e.extend(b.to_be_bytes()); require_eq(&s[..], &e[..], ""); }
prop_std_flatten { let a = v(2); let s: Vec<u8> = [[a[0], 1], [a[1], 2]].into_iter().flatten().collect(); require_eq(&s[..], &[a[0], 1, a[1], 2][..], ""); }
prop_std_take_while { let a = [1u8, 2, 0, v(1)[0]]; let s: Vec<u8> = a.iter().copied().take_while(|x| *x != 0).collect(); require_eq(&s[..], &[1, 2][..], ""); }
prop_std_skip_while { let a = [0u8, 0, 5, v(1)[0]]; let s: Vec<u8> = a.iter().copied().skip_while(|x| *x == 0).collect(); require_eq(&s[..], &[5, v(1)[0]][..], ""); }
prop_std_map_while { let a = [1u8, 2, 0, 4]; let s: Vec<u8> = a.iter().map_while(|x| if *x == 0 { None } else { Some(*x) }).collect(); require_eq(&s[..], &[1, 2][..], ""); }
prop_std_filter { let a = [1u8, 2, 3, 4]; let s: Vec<u8> = a.into_iter().filter(|x| x % 2 == 0).collect(); require_eq(&s[..], &[2, 4][..], ""); }
prop_std_filter_map { let a = [1u8, 2, 3, 4]; let s: Vec<u8> = a.into_iter().filter_map(|x| x.checked_sub(3)).collect(); require_eq(&s[..], &[0, 1][..], ""); }
prop_std_scan { let a = v(3); let s: Vec<u8> = a.iter().scan(0u8, |t, x| { *t ^= x; Some(*t) }).collect(); require_eq(&s[..], &[a[0], a[0]^a[1], a[0]^a[1]^a[2]][..], ""); }
prop_std_inspect { let a = v(2); let mut n = 0; let s: Vec<u8> = a.iter().copied().inspect(|_| n += 1).collect(); require_eq(&s[..], &a[..], ""); require_eq(&n, &2, ""); }
prop_std_windows { let a = v(4); let s: Vec<u8> = a.windows(2).map(|w| w[0] ^ w[1]).collect(); require_eq(&s[..], &[a[0]^a[1], a[1]^a[2], a[2]^a[3]][..], ""); }
prop_std_peekable { let a = v(3); let mut it = a.iter().peekable(); let mut n = 0; while let Some(_) = it.next() { if it.peek().is_some() { n += 1; } } require_eq(&n, &2, ""); }
prop_std_successors { let s: Vec<u32> = std::iter::successors(Some(1u32), |x| Some(x * 2)).take(4).collect(); require_eq(&s[..], &[1, 2, 4, 8][..], ""); }
prop_std_iter_from_fn { let mut n = 0; let s: Vec<u32> = std::iter::from_fn(|| { n += 1; if n < 4 { Some(n) } else { None } }).collect(); require_eq(&s[..], &[1, 2, 3][..], ""); }
prop_std_iter_eq { let a = v(3); require(a.iter().eq(a.iter()), ""); require(a.iter().rev().eq([a[2], a[1], a[0]].iter()), ""); }
prop_std_iter_cmp { let a = [1u8, 2]; require(a.iter().cmp([1u8, 3].iter()).is_lt(), ""); require(a[..] < [1, 3][..], ""); require([2u8, 0][..] > a[..], ""); }
prop_std_iter_cmp2 { let (a, b) = (v(2), w(2)); let l = a[0] < b[0] || a[0] == b[0] && a[1] < b[1]; require_eq(&(a[..] < b[..]), &l, ""); require_eq(&(a.cmp(&b) == std::cmp::Ordering::Less), &l, ""); require_eq(&(a < b), &l, "");}
prop_std_iter_rcmp { let (a, b) = (v(2), w(2)); let l = a[1] < b[1] || a[1] == b[1] && a[0] < b[0]; require_eq(&(a.iter().rev().cmp(b.iter().rev()) == std::cmp::Ordering::Less), &l, ""); }
prop_std_max_min { let a = [3u8, 9, 4]; require_eq(a.iter().max().unwrap(), &9, ""); require_eq(a.iter().min_by_key(|x| **x).unwrap(), &3, ""); require_eq(a.iter().max_by(|x, y| x.cmp(y)).unwrap(), &9, ""); }
prop_std_unzip { let a = v(2); let (x, y): (Vec<u8>, Vec<u8>) = a.iter().map(|b| (*b, !*b)).unzip(); require_eq(&x[..], &a[..], ""); require_eq(&y[0], &!a[0], ""); }
prop_std_partition { let (x, y): (Vec<u8>, Vec<u8>) = [1u8, 2, 3].into_iter().partition(|b| *b > 1); require_eq(&x.len(), &2, ""); require_eq(&y.len(), &1, ""); }
prop_std_try_collect { let r: Result<Vec<u8>, u8> = [1u8, 2].into_iter().map(|x| if x < 3 { Ok(x) } else { Err(x) }).collect(); require_eq(&r.unwrap()[..], &[1, 2][..], ""); }
prop_std_try_collect2 { let r: Option<Vec<u8>> = [1u8, 4].into_iter().map(|x| if x < 3 { Some(x) } else { None }).collect(); require(r.is_none(), ""); }
prop_std_rotate { let mut a = v(5); a.rotate_left(2); let b = v(5); require_eq(&a[..], &[b[2], b[3], b[4], b[0], b[1]][..], ""); a.rotate_right(2); require_eq(&a[..], &b[..], ""); }
prop_std_rotate_arr { let mut a: [u8; 4] = verif::bytes("c"); let b = a; a[1..].rotate_left(1); require_eq(&a, &[b[0], b[2], b[3], b[1]], ""); a.rotate_right(1); }
prop_std_reverse { let mut a = v(3); a.reverse(); let b = v(3); require_eq(&a[..], &[b[2], b[1], b[0]][..], ""); }
prop_std_swap { let mut a = v(3); a.swap(0, 2); let b = v(3); require_eq(&a[..], &[b[2], b[1], b[0]][..], ""); }
prop_std_fill { let mut a = v(3); a[1..].fill(7); require_eq(&a[..], &[v(1)[0], 7, 7][..], ""); }
prop_std_copy_within { let mut a = v(4); a.copy_within(0..2, 2); let b = v(4); require_eq(&a[..], &[b[0], b[1], b[0], b[1]][..], ""); }
prop_std_copy_within2 { let mut a = v(4); a.copy_within(1.., 0); let b = v(4); require_eq(&a[..], &[b[1], b[2], b[3], b[3]][..], ""); }
prop_std_concat { let a = v(2); let s = [&a[..], &[1, 2][..]].concat(); require_eq(&s[..], &[a[0], a[1], 1, 2][..], ""); }
prop_std_concat2 { let a: [u8; 2] = verif::bytes("c"); let s = [a, [1, 2]].concat(); require_eq(&s[..], &[a[0], a[1], 1, 2][..], ""); }
prop_std_join { let a = v(2); let s = [&a[..1], &a[1..]].join(&9u8); require_eq(&s[..], &[a[0], 9, a[1]][..], ""); }
prop_std_repeat { let a = v(2); let s = a.repeat(2); require_eq(&s[..], &[a[0], a[1], a[0], a[1]][..], ""); }
prop_std_split_first { let a = v(3); let (x, y) = a.split_first().unwrap(); require_eq(x, &a[0], ""); require_eq(y, &a[1..], ""); let (x, y) = a.split_last().unwrap(); require_eq(x, &a[2], ""); require_eq(y, &a[..2], ""); }
prop_std_first_chunk { let a = v(5); let x: &[u8; 2] = a.first_chunk().unwrap(); require_eq(x, &[a[0], a[1]], ""); let x: &[u8; 2] = a.last_chunk().unwrap(); require_eq(x, &[a[3], a[4]], ""); let (x, y) = a.split_first_chunk::<2>().unwrap(); require_eq(x, &[a[0], a[1]], ""); require_eq(y, &a[2..], ""); }
prop_std_as_chunks { let a = v(5); let (x, y) = a.as_chunks::<2>(); require_eq(&x.len(), &2, ""); require_eq(&x[1], &[a[2], a[3]], ""); require_eq(y, &a[4..], ""); }
prop_std_get { let a = v(3); require(a.get(3).is_none(), ""); require_eq(a.get(1).unwrap(), &a[1], ""); require_eq(a.get(1..).unwrap(), &a[1..], ""); require(a.get(2..5).is_none(), ""); require_eq(a.last().unwrap(), &a[2], ""); require_eq(a.first().unwrap(), &a[0], ""); }
prop_std_get_mut { let mut a = v(3); if let Some(x) = a.get_mut(1) { *x = 5; } *a.last_mut().unwrap() = 6; *a.first_mut().unwrap() = 4; require_eq(&a[..], &[4, 5, 6][..], ""); }
prop_std_contains { let a = [1u8, 2, 3]; require(a.contains(&2), ""); require(a.starts_with(&[1, 2]), ""); require(a.ends_with(&[3]), ""); require(!a.ends_with(&[2]), ""); }
prop_std_strip { let a = v(3); let b = [1, a[0]]; require_eq(b.strip_prefix(&[1u8]).unwrap(), &a[..1], ""); }
prop_std_rchunks { let a = v(5); let s: Vec<usize> = a.rchunks(2).map(|c| c.len()).collect(); require_eq(&s[..], &[2, 2, 1][..], ""); let s: Vec<u8> = a.rchunks(2).map(|c| c[0]).collect(); require_eq(&s[..], &[a[3], a[1], a[0]][..], ""); }
prop_std_chunks_mut { let mut a = v(5); for (i, c) in a.chunks_mut(2).enumerate() { c[0] = i as u8; } let b = v(5); require_eq(&a[..], &[0, b[1], 1, b[3], 2][..], ""); }
prop_std_split { let a = [1u8, 0, 2, 3, 0]; let s: Vec<usize> = a.split(|x| *x == 0).map(|c| c.len()).collect(); require_eq(&s[..], &[1, 2, 0][..], ""); }
prop_std_sort { let mut a = [3u8, 1, 2]; a.sort(); require_eq(&a, &[1, 2, 3], ""); let mut a = [3u8, 1, 2]; a.sort_unstable_by(|x, y| y.cmp(x)); require_eq(&a, &[3, 2, 1], ""); }
prop_std_split_mut { let mut a = v(4); let (x, y) = a.split_at_mut(2); x.swap_with_slice(y); let b = v(4); require_eq(&a[..], &[b[2], b[3], b[0], b[1]][..], ""); }
prop_std_iter_as_slice { let a = v(4); let mut it = a.iter(); it.next(); require_eq(it.as_slice(), &a[1..], ""); require_eq(&it.len(), &3, ""); }
prop_std_vec_insert { let mut a = v(3); a.insert(1, 9); let b = v(3); require_eq(&a[..], &[b[0], 9, b[1], b[2]][..], ""); let r = a.remove(0); require_eq(&r, &b[0], ""); require_eq(&a[..], &[9, b[1], b[2]][..], ""); let r = a.swap_remove(0); require_eq(&r, &9, ""); require_eq(&a[..], &[b[2], b[1]][..], ""); }
prop_std_vec_drain { let mut a = v(4); let d: Vec<u8> = a.drain(..2).collect(); let b = v(4); require_eq(&d[..], &b[..2], ""); require_eq(&a[..], &b[2..], ""); a.drain(1..); require_eq(&a.len(), &1, ""); }
prop_std_vec_retain { let mut a = vec![1u8, 2, 3, 4]; a.retain(|x| x % 2 == 0); require_eq(&a[..], &[2, 4][..], ""); }
prop_std_vec_split_off { let mut a = v(4); let t = a.split_off(3); let b = v(4); require_eq(&t[..], &b[3..], ""); require_eq(&a[..], &b[..3], ""); }
prop_std_vec_append { let mut a = v(2); let mut b = w(2); a.append(&mut b); require_eq(&a[..], &[v(2)[0], v(2)[1], w(2)[0], w(2)[1]][..], ""); require(b.is_empty(), ""); }
prop_std_vec_resize { let mut a = v(2); a.resize(4, 7); a.truncate(3); require_eq(&a[..], &[v(2)[0], v(2)[1], 7][..], ""); a.resize_with(4, || 8); require_eq(&a[3], &8, ""); }
prop_std_vec_extend_within { let mut a = v(2); a.extend_from_within(..1); require_eq(&a[..], &[v(2)[0], v(2)[1], v(2)[0]][..], ""); }
prop_std_vec_dedup { let mut a = vec![1u8, 1, 2]; a.dedup(); require_eq(&a[..], &[1, 2][..], ""); }
prop_std_vec_pop_if { let mut a = vec![1u8, 0, 0]; while a.last() == Some(&0) { a.pop(); } require_eq(&a[..], &[1][..], ""); }
prop_std_vec_pop_if2 { let mut a = vec![1u8, 0, 0]; while a.pop_if(|x| *x == 0).is_some() {} require_eq(&a[..], &[1][..], ""); }
prop_std_vec_from { let a: [u8; 3] = verif::bytes("c"); let x = Vec::from(a); require_eq(&x[..], &a[..], ""); let y: Vec<u8> = a.into(); require_eq(&y[..], &a[..], ""); let z = a[..].to_owned(); require_eq(&z[..], &a[..], ""); let q = a.as_slice().into_iter().copied().collect::<Vec<_>>(); require_eq(&q[..], &a[..], ""); }
prop_std_boxed { let a = v(3); let b: Box<[u8]> = a.clone().into_boxed_slice(); require_eq(&b[..], &a[..], ""); let c = b.into_vec(); require_eq(&c[..], &a[..], ""); }
prop_std_boxed2 { let a = verif::any_u8("x"); let b = Box::new(a); require_eq(&*b, &a, ""); }
prop_std_vecdeque { let mut d = std::collections::VecDeque::new(); d.push_back(v(1)[0]); d.push_back(2); require_eq(&d.pop_front().unwrap(), &v(1)[0], ""); require_eq(&d.len(), &1, ""); }
prop_std_cow { let a = v(2); let c: std::borrow::Cow<[u8]> = std::borrow::Cow::Borrowed(&a); require_eq(&c[..], &a[..], ""); }
prop_std_rc { let a = std::rc::Rc::new(v(2)); let b = a.clone(); require_eq(&b[..], &v(2)[..], ""); }
prop_std_int1 { let x = verif::any_u8("x"); let y = verif::any_u8("y"); let (s, c) = x.overflowing_add(y); require_eq(&(s as u16 | (c as u16) << 8), &(x as u16 + y as u16), ""); }
prop_std_int2 { let x = verif::any_u8("x"); let y = verif::any_u8("y"); require_eq(&x.checked_add(y).is_none(), &(x as u16 + y as u16 > 255), ""); require_eq(&x.saturating_sub(y), &(if x > y { x - y } else { 0 }), ""); require_eq(&x.saturating_add(y), &(if x as u16 + y as u16 > 255 { 255 } else { x.wrapping_add(y) }), ""); }
prop_std_int3 { let x = verif::any_u8("x"); let y = verif::any_u8("y"); require_eq(&x.abs_diff(y), &(if x > y { x - y } else { y - x }), ""); require_eq(&x.max(y), &(if x > y { x } else { y }), ""); require_eq(&x.clamp(3, 9), &(if x < 3 { 3 } else if x > 9 { 9 } else { x }), ""); require_eq(&std::cmp::min(x, y), &(if x > y { y } else { x }), ""); }
prop_std_int4 { let x = verif::any_u8("x"); require_eq(&(x.leading_zeros() == 8), &(x == 0), ""); require_eq(&(x.trailing_zeros() >= 1), &(x & 1 == 0), ""); require_eq(&x.count_ones(), &((x & 1) as u32 + (x >> 1 & 1) as u32 + (x >> 2 & 1) as u32 + (x >> 3 & 1) as u32 + (x >> 4 & 1) as u32 + (x >> 5 & 1) as u32 + (x >> 6 & 1) as u32 + (x >> 7) as u32), ""); require_eq(&x.reverse_bits().reverse_bits(), &x, ""); }
prop_std_int5 { let x = verif::any_u32("x"); require_eq(&x.swap_bytes(), &u32::from_le_bytes(x.to_be_bytes()), ""); require_eq(&x.rotate_left(5), &(x << 5 | x >> 27), ""); require_eq(&u32::from_be(x), &x.swap_bytes(), ""); require_eq(&x.to_ne_bytes(), &x.to_le_bytes(), ""); require_eq(&x.to_be(), &x.swap_bytes(), "");}
prop_std_int6 { let x = verif::any_u8("x") as usize; require_eq(&x.div_ceil(8), &((x + 7) / 8), ""); require_eq(&x.next_multiple_of(16), &((x + 15) / 16 * 16), ""); require_eq(&x.rem_euclid(7), &(x % 7), ""); require_eq(&x.is_multiple_of(4), &(x & 3 == 0), ""); require_eq(&x.pow(2), &(x * x), ""); require_eq(&x.wrapping_neg(), &(0usize.wrapping_sub(x)), ""); }
prop_std_int7 { let x = verif::any_u8("x"); let y = verif::any_u8("y"); require_eq(&x.wrapping_shl(y as u32), &(x << (y & 7)), ""); require_eq(&x.checked_shl(y as u32).is_some(), &(y < 8), ""); require_eq(&x.checked_div(y).is_none(), &(y == 0), ""); require_eq(&x.wrapping_sub(y), &x.wrapping_add(y.wrapping_neg()), ""); let (d, b) = x.overflowing_sub(y); require_eq(&d, &x.wrapping_sub(y), ""); require_eq(&b, &(x < y), ""); }
prop_std_int8 { let x = verif::any_u8("x"); let y = verif::any_u8("y"); require_eq(&(x as u16).wrapping_mul(y as u16), &(x as u16 * y as u16), ""); require_eq(&(x.checked_mul(2).is_some()), &(x < 128), ""); require_eq(&((x as i8 as i32) < 0), &(x >= 128), ""); require_eq(&(x as i8).unsigned_abs(), &(if x < 128 { x } else { 0u8.wrapping_sub(x) }), ""); require_eq(&x.cmp(&y).is_lt(), &(x < y), ""); }
prop_std_int9 { let x = verif::any_u8("x"); require_eq(&u8::try_from(x as usize).unwrap(), &x, ""); require_eq(&u8::try_from(x as usize + 200).is_ok(), &(x < 56), ""); require_eq(&usize::from(x), &(x as usize), ""); let z: u64 = x.into(); require_eq(&z, &(x as u64), ""); require_eq(&u32::from(x != 0), &((x != 0) as u32), ""); }
prop_std_int10 { let x = verif::any_u16("x"); let [h, l] = x.to_be_bytes(); require_eq(&h, &((x >> 8) as u8), ""); require_eq(&l, &(x as u8), ""); require_eq(&u16::from_str_radix("1f", 16).unwrap(), &31, ""); }
prop_std_int11 { let x = verif::any_u8("x"); let y = verif::any_u8("y"); let (s, c) = x.carrying_add(y, true); require_eq(&(s as u16 | (c as u16) << 8), &(x as u16 + y as u16 + 1), ""); let (d, b) = x.borrowing_sub(y, false); require_eq(&d, &x.wrapping_sub(y), ""); require_eq(&b, &(x < y), ""); }
prop_std_int12 { let x = verif::any_u8("x"); verif::assume(x > 0); require_eq(&x.ilog2(), &(7 - x.leading_zeros()), ""); require_eq(&x.checked_ilog2().is_some(), &true, ""); require_eq(&x.is_power_of_two(), &(x & (x - 1) == 0), ""); require_eq(&(u8::BITS), &8, ""); }
prop_std_opt { let x = if verif::any_bool("b") { Some(verif::any_u8("x")) } else { None }; require_eq(&x.map_or(0, |v| v), &x.unwrap_or(0), ""); require_eq(&x.is_some_and(|v| v > 3), &matches!(x, Some(v) if v > 3), ""); require_eq(&x.unwrap_or_default(), &x.unwrap_or(0), ""); require_eq(&x.filter(|v| *v > 9).is_some(), &(x.unwrap_or(0) > 9), ""); require_eq(&x.and_then(|v| v.checked_sub(1)).is_none(), &(x.unwrap_or(0) == 0), ""); require_eq(&x.ok_or("e").is_err(), &x.is_none(), ""); require_eq(&x.or(Some(3)).is_some(), &true, ""); require_eq(&x.xor(None), &x, ""); require_eq(&x.zip(Some(1)).is_some(), &x.is_some(), ""); }
prop_std_opt2 { let mut x = Some(verif::any_u8("x")); let y = x.take(); require(x.is_none(), ""); let z = x.replace(4); require(z.is_none(), ""); require_eq(&x.get_or_insert(9), &&mut 4, ""); require_eq(&y.as_ref().map(|v| *v), &y, ""); let mut q = y; if let Some(v) = q.as_mut() { *v = 3; } require_eq(&q, &Some(3), ""); let n: Option<u8> = None; require_eq(&n.unwrap_or_else(|| 5), &5, ""); require_eq(&n.map_or_else(|| 1, |v| v), &1, ""); require_eq(&x.iter().count(), &1, ""); require_eq(&y.copied_opt(), &y, "");}
prop_std_res { let x: Result<u8, u16> = if verif::any_bool("b") { Ok(verif::any_u8("x")) } else { Err(7) }; require_eq(&x.is_ok_and(|v| v > 3), &matches!(x, Ok(v) if v > 3), ""); require_eq(&x.map(|v| v as u16).unwrap_or(0), &(x.unwrap_or(0) as u16), ""); require_eq(&x.map_err(|e| e + 1).err(), &(if x.is_err() { Some(8) } else { None }), ""); require_eq(&x.ok(), &x.iter().copied().next(), ""); require_eq(&x.and_then(|v| if v > 3 { Ok(v) } else { Err(0) }).is_ok(), &(x.unwrap_or(0) > 3), ""); require_eq(&x.or_else(|e| if e == 7 { Ok(1u8) } else { Err(()) }).is_ok(), &true, ""); require_eq(&x.map_or(0, |v| v), &x.unwrap_or_default(), ""); require_eq(&x.unwrap_or_else(|e| e as u8), &(if let Ok(v) = x { v } else { 7 }), ""); }
prop_std_mem { let mut a = v(2); let b = std::mem::take(&mut a); require(a.is_empty(), ""); let mut c = w(2); let mut d = b.clone(); std::mem::swap(&mut c, &mut d); require_eq(&c[..], &b[..], ""); let e = std::mem::replace(&mut c, vec![]); require_eq(&e[..], &b[..], ""); }
prop_std_bool { let b = verif::any_bool("b"); require_eq(&b.then(|| 3), &(if b { Some(3) } else { None }), ""); require_eq(&b.then_some(3).is_some(), &b, ""); require_eq(&(b as u8 ^ 1), &(!b as u8), ""); require_eq(&u8::from(b), &(b as u8), ""); }
prop_std_dyn { let x = verif::any_u8("x"); let k = 3u8; let f: Box<dyn Fn(u8) -> u8> = Box::new(move |y| y.wrapping_add(k)); require_eq(&f(x), &x.wrapping_add(3), ""); let g: &dyn Fn(u8) -> u8 = &|y| !y; require_eq(&g(x), &!x, ""); }
prop_std_fnptr { let x = verif::any_u8("x"); fn neg(y: u8) -> u8 { !y } let fs: [fn(u8) -> u8; 2] = [neg, |y| y ^ 1]; require_eq(&fs[0](x), &!x, ""); require_eq(&fs[1](x), &(x ^ 1), ""); }
prop_std_dyn_trait { trait A { fn f(&self, x: u8) -> u8; } struct P(u8); struct Q; impl A for P { fn f(&self, x: u8) -> u8 { x ^ self.0 } } impl A for Q { fn f(&self, x: u8) -> u8 { !x } } let l: Vec<Box<dyn A>> = vec![Box::new(P(3)), Box::new(Q)]; let x = verif::any_u8("x"); let mut y = x; for a in &l { y = a.f(y); } require_eq(&y, &!(x ^ 3), ""); let m: [&dyn A; 2] = [&Q, &Q]; let mut y = x; for a in m { y = a.f(y); } require_eq(&y, &x, ""); }
prop_std_slice_pat { let a = v(4); if let [x, .., y] = &a[..] { require_eq(x, &a[0], ""); require_eq(y, &a[3], ""); } else { require(false, ""); } if let [x, rest @ ..] = a.as_slice() { require_eq(x, &a[0], ""); require_eq(rest, &a[1..], ""); } }
prop_std_let_else { let a = v(4); let Ok(x) = <[u8; 4]>::try_from(&a[..]) else { unreachable!() }; require_eq(&x[..], &a[..], ""); let y: &[u8; 4] = a[..].try_into().unwrap(); require_eq(&y[..], &a[..], ""); let z: [u8; 4] = a.clone().try_into().unwrap(); require_eq(&z[..], &a[..], ""); require(<[u8; 3]>::try_from(&a[..]).is_err(), ""); }
prop_std_loop_label { let a = v(3); let mut n = 0; 'o: for i in 0..3 { for j in 0..3 { if j > i { continue 'o; } if i == 2 && j == 1 { break 'o; } n += a[j] as u32; } } require_eq(&n, &(a[0] as u32 * 3 + a[1] as u32), ""); }
prop_std_range { let r = 2..5usize; require(r.contains(&3), ""); require_eq(&r.len(), &3, ""); require_eq(&r.clone().sum::<usize>(), &9, ""); require_eq(&(0..=3).rev().map(|x| x * 2).fold(0, |a, b| a * 10 + b), &6420, ""); require_eq(&(0..4u8).map(|x| 1 << x).fold(0, |a, b: u8| a | b), &15, ""); let mut k = 0..3; k.next(); require_eq(&k.start, &1, ""); }
prop_std_write { let mut o = Vec::new(); o.extend_from_slice(&verif::any_u32("x").to_be_bytes()); o.extend([1u8, 2].iter()); o.extend(Some(3)); o.extend(std::iter::repeat(0).take(2)); require_eq(&o[4..], &[1, 2, 3, 0, 0][..], ""); }
prop_std_array { let a = [[1u8; 2]; 2]; require_eq(&a.len(), &2, ""); require_eq(&a.concat()[..], &[1, 1, 1, 1][..], ""); let b: [u8; 4] = Default::default(); require_eq(&b, &[0; 4], ""); let s: &[u8] = b.as_ref(); require_eq(&s.len(), &4, ""); let mut c = [0u8; 4]; c.as_mut_slice()[1] = 3; c.iter_mut().for_each(|x| *x += 1); require_eq(&c, &[1, 4, 1, 1], ""); let f = a.as_flattened(); require_eq(&f.len(), &4, ""); require(b == [0; 4], ""); require(b[..] != c[..], ""); let [p, q, ..] = c; require_eq(&(p + q), &5, ""); require_eq(&c.each_ref().len(), &4, ""); }
prop_std_str { let s = "abc"; require_eq(&s.len(), &3, ""); require_eq(&s.bytes().rev().collect::<Vec<_>>()[..], &b"cba"[..], ""); require(s.chars().all(|c| c.is_ascii_alphabetic()), ""); require_eq(&s.to_uppercase_ascii(), &"ABC".to_string(), ""); require_eq(&format!("{}-{}", s, "d"), &"abc-d".to_string(), ""); require(s.eq_ignore_ascii_case("ABC"), ""); let mut t = String::from(s); t += "d"; t.push('e'); t.insert(0, 'z'); require_eq(&t.as_str(), &"zabcde", ""); require_eq(&t.pop(), &Some('e'), ""); t.truncate(2); require_eq(&t[..], "za", ""); require(t.is_char_boundary(1), ""); }
prop_std_str2 { let s = "a,b,,c"; let p: Vec<&str> = s.split(',').collect(); require_eq(&p.len(), &4, ""); require_eq(&p[3], &"c", ""); require_eq(&s.rsplit(',').next().unwrap(), &"c", ""); require_eq(&s.splitn(2, ',').nth(1).unwrap(), &"b,,c", ""); require_eq(&s.replace(',', ""), &"abc".to_string(), ""); require_eq(&s.split_whitespace().count(), &1, ""); require_eq(&s.char_indices().filter(|(_, c)| *c == ',').count(), &3, ""); require_eq(&s.matches(',').count(), &3, ""); require_eq(&s.trim_end_matches('c'), &"a,b,,", ""); }
prop_std_str3 { let b = v(4); for x in &b { verif::assume(*x < 128); } let s = String::from_utf8(b.clone()).unwrap(); require_eq(s.as_bytes(), &b[..], ""); require_eq(&s.chars().count(), &4, ""); let t: String = s.chars().rev().collect(); require_eq(&t.as_bytes()[0], &b[3], ""); let u: Vec<u8> = s.bytes().filter(|_| true).collect(); require_eq(&u[..], &b[..], ""); require_eq(&s.as_bytes().chunks(2).count(), &2, ""); require_eq(std::str::from_utf8(&b[..2]).unwrap(), &s[..2], ""); let (x, y) = s.split_at(1); require_eq(x.as_bytes(), &b[..1], ""); require_eq(y.as_bytes(), &b[1..], ""); require_eq(&s.get(..9), &None, ""); }
prop_std_const_gen { fn f<const N: usize>(x: &[u8]) -> [u8; N] { let mut r = [0; N]; let n = x.len().min(N); r[..n].copy_from_slice(&x[..n]); r } let a = v(3); require_eq(&f::<5>(&a), &[a[0], a[1], a[2], 0, 0], ""); require_eq(&f::<2>(&a), &[a[0], a[1]], ""); }
prop_std_recursion { fn f(x: &[u8]) -> u32 { match x { [] => 0, [h, t @ ..] => *h as u32 + f(t) } } let a = v(3); require_eq(&f(&a), &(a[0] as u32 + a[1] as u32 + a[2] as u32), ""); }
prop_std_wrapping { use std::num::Wrapping; let x = Wrapping(verif::any_u32("x")); let y = Wrapping(verif::any_u32("y")); require_eq(&(x + y).0, &x.0.wrapping_add(y.0), ""); let mut z = x; z += y; z ^= y; require_eq(&z.0, &(x.0.wrapping_add(y.0) ^ y.0), ""); }
prop_std_ops { let x = verif::any_u8("x"); let y = verif::any_u8("y"); let f = |o: fn(u8, u8) -> u8| o(x, y); require_eq(&f(|a, b| a & b), &(x & y), ""); require_eq(&[x, y].iter().fold(0, |a, b| a ^ b), &(x ^ y), ""); require_eq(&[x, y].iter().copied().reduce(std::ops::BitXor::bitxor).unwrap(), &(x ^ y), ""); require_eq(&[x, y].into_iter().fold(0xff, std::ops::BitAnd::bitand), &(x & y), ""); }
prop_std_hashmap { let mut m = std::collections::BTreeMap::new(); m.insert(1, 2); require_eq(&m.get(&1), &Some(&2), ""); }
prop_std_iter_last { let a = v(3); require_eq(a.iter().last().unwrap(), &a[2], ""); require_eq(a.iter().nth(1).unwrap(), &a[1], ""); require_eq(a.iter().nth_back(0).unwrap(), &a[2], ""); require_eq(&a.iter().rev().skip(1).count(), &2, ""); require_eq(a.iter().rev().last().unwrap(), &a[0], ""); require_eq(&a.iter().size_hint().0, &3, ""); require_eq(&a.iter().cycle().take(5).copied().collect::<Vec<_>>()[3], &a[0], ""); }
prop_std_find { let a = [1u8, 2, 3]; require_eq(&a.iter().find(|x| **x > 1).unwrap(), &&2, ""); require_eq(&a.iter().position(|x| *x == 3), &Some(2), ""); require_eq(&a.iter().rposition(|x| *x == 3), &Some(2), ""); require(a.iter().any(|x| *x == 3), ""); require_eq(&a.iter().find_map(|x| x.checked_sub(2)), &Some(0), ""); require_eq(&a.iter().try_fold(0u8, |s, x| s.checked_add(*x)), &Some(6), ""); require_eq(&a.partition_point(|x| *x < 2), &1, ""); require_eq(&a.binary_search(&3), &Ok(2), ""); require_eq(&a.iter().rfind(|x| **x < 3).unwrap(), &&2, ""); require_eq(&a.iter().copied().map(u32::from).rev().fold(0, |p, q| p * 10 + q), &321, ""); let mut it = a.iter(); let mut n = 0; it.by_ref().take(2).for_each(|_| n += 1); require_eq(&it.next(), &Some(&3), ""); require_eq(&n, &2, ""); }
prop_std_chunks_rem { let a = v(7); let mut it = a.chunks_exact(3); let mut n = 0; for c in it.by_ref() { n += c.len(); } require_eq(&n, &6, ""); require_eq(it.remainder(), &a[6..], ""); let mut b = v(7); for c in b.chunks_exact_mut(3) { c.reverse(); } require_eq(&b[0], &a[2], ""); require_eq(&a.chunks_exact(3).len(), &2, ""); require_eq(&a.chunks(3).last().unwrap().len(), &1, ""); require_eq(&a.chunks(3).rev().next().unwrap().len(), &1, ""); require_eq(&a.chunks(3).nth(1).unwrap()[0], &a[3], ""); require_eq(&a.chunks_exact(3).map(|c| <[u8; 3]>::try_from(c).unwrap()).collect::<Vec<_>>()[1][0], &a[3], ""); }
prop_std_iter_repeat { let s: Vec<u8> = std::iter::repeat_n(3, 2).collect(); require_eq(&s[..], &[3, 3][..], ""); let s: Vec<u8> = std::iter::repeat_with(|| 4).take(2).collect(); require_eq(&s[..], &[4, 4][..], ""); let s: Vec<u8> = std::iter::empty().collect(); require(s.is_empty(), ""); let mut o = vec![0u8; 3]; o[1..].clone_from_slice(&[1, 2]); require_eq(&o[..], &[0, 1, 2][..], ""); }
}
trait Copied { fn copied_opt(&self) -> Self; }
impl Copied for Option<u8> { fn copied_opt(&self) -> Self { self.as_ref().copied() } }
trait Up { fn to_uppercase_ascii(&self) -> String; }
impl Up for str { fn to_uppercase_ascii(&self) -> String { self.to_ascii_uppercase() } }
t! {
prop_std_string_iter { let s: String = ["ab", "c"].iter().copied().collect(); require_eq(&s.as_str(), &"abc", ""); let s: String = vec!["x".to_string(), "y".to_string()].into_iter().collect(); require_eq(&s.as_str(), &"xy", ""); let mut t = String::new(); t.extend(["a", "b"]); t.extend("cd".chars()); t.extend(['e'].iter()); require_eq(&t.as_str(), &"abcde", ""); let u: String = "abc".chars().filter(|c| *c != 'b').collect(); require_eq(&u.as_str(), &"ac", ""); }
prop_std_str4 { let b = v(3); for x in &b { verif::assume(*x < 128); } let s = std::str::from_utf8(&b).unwrap(); let t = s.replace('\n', ""); require(t.len() <= 3, ""); require(!t.contains('\n'), ""); let l: Vec<&str> = s.split('\n').map(|l| l.trim_end_matches('\r')).collect(); require(l.len() >= 1, ""); require_eq(&s.split_once('\n').is_some(), &b.contains(&10), ""); require_eq(&s.chars().any(|c| c == '\n'), &s.contains("\n"), ""); }
prop_std_str5 { let s = "k: v: w"; require_eq(&s.split_once(": ").unwrap().1, &"v: w", ""); require_eq(&s.rsplit_once(": ").unwrap().1, &"w", ""); require_eq(&s.splitn(2, ": ").collect::<Vec<_>>().len(), &2, ""); require_eq(&s.find("v").unwrap(), &3, ""); require(s.starts_with("k:"), ""); require_eq(&&s[s.len() - 1..], &"w", ""); require_eq(&s.strip_prefix("k").and_then(|x| x.strip_suffix("w")).unwrap(), &": v: ", ""); require_eq(&s.bytes().filter(|b| *b == b':').count(), &2, ""); require_eq(&s.lines().count(), &1, ""); require_eq(&s.trim(), &s, ""); require_eq(&s.matches(':').count(), &2, ""); require_eq(&s.chars().nth(3), &Some('v'), ""); require_eq(&s.char_indices().map(|(i, _)| i).last(), &Some(6), ""); require_eq(&s.chars().rev().next(), &Some('w'), ""); require_eq(&s.chars().skip(3).take(1).collect::<String>().as_str(), &"v", ""); }
prop_std_fmt { use std::fmt::Write; let mut s = String::new(); write!(s, "{}-{}", "a", "b").unwrap(); writeln!(s).unwrap(); s.write_str("c").unwrap(); s.write_char('d').unwrap(); require_eq(&s.as_str(), &"a-b\ncd", ""); let n = "x"; require_eq(&format!("{n}{n}").as_str(), &"xx", ""); require_eq(&["a", "b"].join("\n").as_str(), &"a\nb", ""); require_eq(&["a", "b"].concat().as_str(), &"ab", ""); require_eq(&("a".to_owned() + "b").as_str(), &"ab", ""); require_eq(&String::from_utf8_lossy(b"ab").as_ref(), &"ab", ""); require_eq(&"ab".as_bytes().iter().map(|b| *b as char).collect::<String>().as_str(), &"ab", ""); require_eq(&"=".repeat(2).as_str(), &"==", ""); }
prop_std_char { let x = verif::any_u8("x"); verif::assume(x < 128); let c = x as char; require_eq(&c.is_ascii_digit(), &(x >= 48 && x <= 57), ""); require_eq(&c.is_whitespace(), &(x == 32 || (x >= 9 && x <= 13)), ""); require_eq(&(c as u32), &(x as u32), ""); require_eq(&c.is_ascii_whitespace(), &(x == 32 || x == 9 || x == 10 || x == 12 || x == 13), ""); require_eq(&char::from(x), &c, ""); require_eq(&x.is_ascii_alphanumeric(), &c.is_ascii_alphanumeric(), ""); require_eq(&c.len_utf8(), &1, ""); require_eq(&c.is_alphabetic(), &c.is_ascii_alphabetic(), ""); require_eq(&c.to_digit(10).is_some(), &c.is_ascii_digit(), ""); }
prop_std_resiter { let a = v(3); let r: Result<Vec<u8>, usize> = a.iter().enumerate().map(|(i, x)| if *x > 9 { Err(i) } else { Ok(*x) }).collect(); require_eq(&r.is_ok(), &(a[0] <= 9 && a[1] <= 9 && a[2] <= 9), ""); let s: Option<u8> = a.iter().map(|x| x.checked_mul(2)).fold(Some(0u8), |p, q| p.and(q)); require_eq(&s.is_none(), &(a[0] > 127 || a[1] > 127 || a[2] > 127), ""); let t: Option<u16> = a.iter().map(|x| Some(*x as u16)).sum(); require_eq(&t, &Some(a[0] as u16 + a[1] as u16 + a[2] as u16), ""); let n = a.iter().filter(|x| **x == 0).count(); require_eq(&(n == 0), &(a[0] != 0 && a[1] != 0 && a[2] != 0), ""); require_eq(&a.iter().all(|x| *x == 0), &(n == 3), ""); require_eq(&a.iter().rev().skip_while(|x| **x == 0).count(), &(if a[2] != 0 { 3 } else if a[1] != 0 { 2 } else if a[0] != 0 { 1 } else { 0 }), ""); }
prop_std_carry { let (a, b) = (v(2), w(2)); let mut c = 0u16; let s: Vec<u8> = a.iter().zip(&b).map(|(x, y)| { let t = *x as u16 + *y as u16 + c; c = t >> 8; t as u8 }).collect(); let e = u16::from_le_bytes([a[0], a[1]]) as u32 + u16::from_le_bytes([b[0], b[1]]) as u32; require_eq(&(s[0] as u32 | (s[1] as u32) << 8 | (c as u32) << 16), &e, ""); let t = a.iter().rev().fold(0u32, |p, q| p << 8 | *q as u32); require_eq(&t, &(a[0] as u32 + a[1] as u32 * 256), ""); }
prop_std_state { #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)] struct P { a: u32, b: [u8; 2] } let x = verif::any_u32("x"); let p = P { a: x, ..Default::default() }; let mut q = p; q.b[1] = 3; require(p != q, ""); require_eq(&q.a, &x, ""); let P { a, b: [_, y] } = q; require_eq(&a, &x, ""); require_eq(&y, &3, ""); let t = (p, q); require_eq(&t.1.b[1], &3, ""); let mut z = [p; 3]; z[1].a ^= 1; require_eq(&z.iter().fold(0, |s, v| s ^ v.a), &(x ^ 1), ""); }
prop_std_once { static C: std::sync::OnceLock<[u8; 4]> = std::sync::OnceLock::new(); let t = C.get_or_init(|| [1, 2, 3, 4]); require_eq(&t[2], &3, ""); }
prop_std_lazy { static C: std::sync::LazyLock<[u8; 4]> = std::sync::LazyLock::new(|| [1, 2, 3, 4]); require_eq(&C[2], &3, ""); }
prop_std_swap_arr { let mut a: [u8; 4] = verif::bytes("c"); let b = a; a.swap(1, 2); a[2..].reverse(); std::mem::swap(&mut a[0], &mut [7][0]); require_eq(&a, &[7, b[2], b[3], b[1]], ""); let (p, q) = a.split_at_mut(2); std::mem::swap(&mut p[0], &mut q[1]); require_eq(&a[3], &7, ""); }
prop_std_2d { let a: [u8; 16] = verif::bytes("c"); let mut m = [[0u8; 4]; 4]; for (i, x) in a.iter().enumerate() { m[i % 4][i / 4] = *x; } for (r, row) in m.iter_mut().enumerate() { row.rotate_left(r); } let f: Vec<u8> = (0..16).map(|i| m[i % 4][i / 4]).collect(); require_eq(&f[5], &a[9], ""); require_eq(&f[3], &a[15], ""); let g: [[u8; 4]; 4] = std::array::from_fn(|c| std::array::from_fn(|r| m[r][c])); require_eq(&g[1][1], &a[9], ""); }
prop_std_try { fn f(x: u8) -> Result<u8, String> { let y = x.checked_sub(1).ok_or_else(|| "e".to_string())?; (y < 9).then_some(y).ok_or("big".to_string()) } let x = verif::any_u8("x"); require_eq(&f(x).is_ok(), &(x >= 1 && x <= 9), ""); fn g(x: &[u8]) -> Option<u8> { let (h, t) = x.split_first()?; Some(h ^ t.first()?) } require_eq(&g(&v(2)), &Some(v(2)[0] ^ v(2)[1]), ""); require(g(&v(1)).is_none(), ""); }
prop_std_gen { fn words<const N: usize>(b: &[u8], f: impl Fn([u8; 4]) -> u32) -> [u32; N] { let mut w = [0; N]; for (d, s) in w.iter_mut().zip(b.chunks_exact(4)) { *d = f(s.try_into().unwrap()); } w } let a = v(8); let w2 = words::<2>(&a, u32::from_be_bytes); require_eq(&w2[1], &u32::from_be_bytes([a[4], a[5], a[6], a[7]]), ""); let w3: [u32; 2] = words(&a, u32::from_le_bytes); require_eq(&w3[0], &u32::from_le_bytes([a[0], a[1], a[2], a[3]]), ""); }
prop_std_shift { let x = verif::any_u32("x"); let n = verif::any_u8("n"); verif::assume(n < 32); require_eq(&(x << n), &x.wrapping_shl(n as u32), ""); require_eq(&x.rotate_left(n as u32), &((x << n) | x.checked_shr(32 - n as u32).unwrap_or(0)), ""); }
prop_std_u64 { let x = verif::any_u64("x"); require_eq(&((x >> 32) as u32), &u32::from_be_bytes(x.to_be_bytes()[..4].try_into().unwrap()), ""); let a = verif::any_u32("a"); let b = verif::any_u32("b"); require_eq(&((a as u64 + b as u64) as u32), &a.wrapping_add(b), ""); require_eq(&(((a as u64) << 32 | b as u64) as u32), &b, ""); }
}

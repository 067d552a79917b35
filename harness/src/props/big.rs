use crate::verif;
use cryptography::big::BigUint;

/// n bytes, most significant first, the first one nonzero (n = 0: zero)
fn num(tag: &str, n: usize) -> Vec<u8> {
    let v = verif::vec(tag, n);
    if n > 0 {
        verif::assume(v[0] != 0);
    }
    v
}
fn strip(v: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < v.len() && v[i] == 0 {
        i += 1;
    }
    &v[i..]
}
/// the same with the bit length of the first byte given
fn num_top(tag: &str, n: usize, top: usize) -> Vec<u8> {
    let mut v = verif::vec(tag, n);
    if n > 0 {
        v[0] = v[0] & ((1u8 << (top - 1)) - 1) | 1 << (top - 1);
    }
    v
}
/// reading and writing bytes
pub fn prop_big_bytes() {
    let n = verif::param("n");
    let v = verif::vec("a", n);
    verif::paths(true);
    let mut le = Vec::new();
    let mut i = 0;
    while i < n {
        le.push(v[n - 1 - i]);
        i += 1;
    }
    let want = strip(&v);
    let a = BigUint::from_be_bytes(&v);
    verif::require_eq(&a.to_be_bytes()[..], want, "big-endian bytes, no leading zeros");
    let b = BigUint::from_le_bytes(&le);
    verif::require_eq(&b.to_be_bytes()[..], want, "little-endian bytes read");
    verif::require(a == b, "equal numbers are equal");
}
/// conversion from and to u128
pub fn prop_big_u128() {
    let n = verif::param("n");
    let v = num("a", n);
    let a = BigUint::from_be_bytes(&v);
    verif::paths(true);
    match a.as_u128() {
        Ok(x) => {
            verif::require(n <= 16, "numbers above 128 bits are refused");
            let mut y = 0u128;
            let mut i = 0;
            while i < n {
                y = y << 8 | v[i] as u128;
                i += 1;
            }
            verif::require_eq(&x, &y, "u128 value");
            let b = BigUint::from(y);
            verif::require(a == b, "number made from u128");
        }
        Err(_) => verif::require(n > 16, "numbers up to 128 bits are converted"),
    }
}
fn bit(v: &[u8], i: usize) -> bool {
    i / 8 < v.len() && v[v.len() - 1 - i / 8] >> (i % 8) & 1 != 0
}
pub fn prop_big_bits() {
    let n = verif::param("n");
    let v = num_top("a", n, verif::param("t"));
    let a = BigUint::from_be_bytes(&v);
    let used = a.bits_used() as usize;
    let want = if n == 0 { 0 } else { 8 * (n - 1) + verif::param("t") };
    verif::require_eq(&used, &want, "number of bits");
    let mut i = 0;
    while i < 8 * n + 9 {
        verif::require_eq(&a.is_set(i as u32), &bit(&v, i), "bit test");
        i += 1;
    }
}
pub fn prop_big_add() {
    let (va, vb) = (num("a", verif::param("n")), num("b", verif::param("m")));
    let mut a = BigUint::from_be_bytes(&va);
    let b = BigUint::from_be_bytes(&vb);
    let l = if va.len() > vb.len() { va.len() } else { vb.len() } + 1;
    let mut want = vec![0; l];
    let mut carry = 0u16;
    let mut i = 0;
    while i < l {
        let mut s = carry;
        if i < va.len() {
            s += va[va.len() - 1 - i] as u16;
        }
        if i < vb.len() {
            s += vb[vb.len() - 1 - i] as u16;
        }
        want[l - 1 - i] = s as u8;
        carry = s >> 8;
        i += 1;
    }
    verif::paths(true);
    a += &b;
    verif::require_eq(&a.to_be_bytes()[..], strip(&want), "sum");
}
/// difference of two numbers, the second not above the first
pub fn prop_big_sub() {
    let (va, vb) = (num("a", verif::param("n")), num("b", verif::param("m")));
    let l = va.len();
    let mut want = vec![0; l];
    let mut borrow = 0u16;
    let mut i = 0;
    while i < l {
        let x = va[l - 1 - i] as u16 + 256;
        let y = if i < vb.len() { vb[vb.len() - 1 - i] as u16 } else { 0 } + borrow;
        let d = x - y;
        want[l - 1 - i] = d as u8;
        borrow = 1 ^ d >> 8;
        i += 1;
    }
    verif::assume(borrow == 0);
    verif::paths(true);
    verif::prune(true);
    let mut a = BigUint::from_be_bytes(&va);
    let b = BigUint::from_be_bytes(&vb);
    if verif::param("op") == 0 {
        a -= &b;
    } else {
        a = a - &b;
    }
    verif::require_eq(&a.to_be_bytes()[..], strip(&want), "difference");
}
/// sum with a single byte
pub fn prop_big_add_u8() {
    let va = num("a", verif::param("n"));
    let x = verif::any_u8("x");
    let l = va.len() + 1;
    let mut want = vec![0; l];
    let mut carry = x as u16;
    let mut i = 0;
    while i < l {
        let s = carry + if i < va.len() { va[va.len() - 1 - i] as u16 } else { 0 };
        want[l - 1 - i] = s as u8;
        carry = s >> 8;
        i += 1;
    }
    verif::paths(true);
    verif::prune(true);
    let mut a = BigUint::from_be_bytes(&va);
    a += x;
    verif::require_eq(&a.to_be_bytes()[..], strip(&want), "sum with a byte");
}
/// remainder, by long division over the bits; both bit lengths given
pub fn prop_big_rem() {
    let (n, m) = (verif::param("n"), verif::param("m"));
    let (va, vb) = (num_top("a", n, verif::param("t")), num_top("b", m, verif::param("u")));
    let mut y = 0u64;
    let mut i = 0;
    while i < m {
        y = y << 8 | vb[i] as u64;
        i += 1;
    }
    let mut r = 0u64;
    i = 8 * n;
    while i > 0 {
        i -= 1;
        r = r << 1 | bit(&va, i) as u64;
        if r >= y {
            r -= y;
        }
    }
    let mut want = Vec::new();
    i = 0;
    while i < m {
        want.push((r >> (8 * (m - 1 - i))) as u8);
        i += 1;
    }
    verif::paths(true);
    verif::prune(true);
    let mut a = BigUint::from_be_bytes(&va);
    let b = BigUint::from_be_bytes(&vb);
    a %= &b;
    verif::require_eq(&a.to_be_bytes()[..], strip(&want), "remainder");
}
/// order of the numbers: the highest bit in which they differ
pub fn prop_big_cmp() {
    let (va, vb) = (num_top("a", verif::param("n"), verif::param("t")), num_top("b", verif::param("m"), verif::param("u")));
    let a = BigUint::from_be_bytes(&va);
    let b = BigUint::from_be_bytes(&vb);
    let mut lt = va.len() < vb.len();
    let mut gt = va.len() > vb.len();
    if va.len() == vb.len() {
        let mut i = 8 * va.len();
        while i > 0 {
            i -= 1;
            if !lt && !gt {
                lt = !bit(&va, i) && bit(&vb, i);
                gt = bit(&va, i) && !bit(&vb, i);
            }
        }
    }
    verif::require_eq(&(a < b), &lt, "less");
    verif::require_eq(&(a > b), &gt, "greater");
    verif::require_eq(&(a == b), &(!lt && !gt), "equal");
}
pub fn prop_big_shl() {
    let (n, k) = (verif::param("n"), verif::param("k"));
    let v = num("a", n);
    let mut a = BigUint::from_be_bytes(&v);
    let l = n + k / 8 + 1;
    let mut want = vec![0; l];
    let mut i = 0;
    while i < l {
        let mut x = 0;
        let mut j = 0;
        while j < 8 {
            let p = 8 * i + j;
            if p >= k && bit(&v, p - k) {
                x |= 1 << j;
            }
            j += 1;
        }
        want[l - 1 - i] = x;
        i += 1;
    }
    verif::paths(true);
    a <<= k as u32;
    verif::require_eq(&a.to_be_bytes()[..], strip(&want), "left shift");
}
pub fn prop_big_shr() {
    let (n, k) = (verif::param("n"), verif::param("k"));
    let v = num("a", n);
    let mut a = BigUint::from_be_bytes(&v);
    let mut want = vec![0; n];
    let mut i = 0;
    while i < n {
        let mut x = 0;
        let mut j = 0;
        while j < 8 {
            if bit(&v, 8 * i + j + k) {
                x |= 1 << j;
            }
            j += 1;
        }
        want[n - 1 - i] = x;
        i += 1;
    }
    verif::paths(true);
    a >>= k as u32;
    verif::require_eq(&a.to_be_bytes()[..], strip(&want), "right shift");
}

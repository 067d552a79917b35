//! RFC 2268 (RC2), RC4, RFC 2040 / Rivest 1994 (RC5-32).
use super::consts::PITABLE;

pub fn rc2_expand(key: &[u8], bits: usize) -> [u16; 64] {
    let t = key.len();
    let mut l = [0u8; 128];
    let mut i = 0;
    while i < t {
        l[i] = key[i];
        i += 1;
    }
    while i < 128 {
        l[i] = PITABLE[l[i - 1].wrapping_add(l[i - t]) as usize];
        i += 1;
    }
    let t8 = (bits + 7) / 8;
    let tm = (255usize % (1 << (8 + bits - 8 * t8))) as u8;
    l[128 - t8] = PITABLE[(l[128 - t8] & tm) as usize];
    let mut i = 128 - t8;
    while i > 0 {
        i -= 1;
        l[i] = PITABLE[(l[i + 1] ^ l[i + t8]) as usize];
    }
    let mut k = [0u16; 64];
    let mut i = 0;
    while i < 64 {
        k[i] = l[2 * i] as u16 | (l[2 * i + 1] as u16) << 8;
        i += 1;
    }
    k
}
const S: [u32; 4] = [1, 2, 3, 5];
fn mix(r: &mut [u16; 4], k: &[u16; 64], j: &mut usize) {
    let mut i = 0;
    while i < 4 {
        let (a, b, c) = (r[(i + 3) % 4], r[(i + 2) % 4], r[(i + 1) % 4]);
        r[i] = r[i].wrapping_add(k[*j]).wrapping_add(a & b).wrapping_add(!a & c).rotate_left(S[i]);
        *j += 1;
        i += 1;
    }
}
fn mash(r: &mut [u16; 4], k: &[u16; 64]) {
    let mut i = 0;
    while i < 4 {
        r[i] = r[i].wrapping_add(k[(r[(i + 3) % 4] & 63) as usize]);
        i += 1;
    }
}
fn unmix(r: &mut [u16; 4], k: &[u16; 64], j: &mut usize) {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        *j -= 1;
        let (a, b, c) = (r[(i + 3) % 4], r[(i + 2) % 4], r[(i + 1) % 4]);
        r[i] = r[i].rotate_right(S[i]).wrapping_sub(k[*j]).wrapping_sub(a & b).wrapping_sub(!a & c);
    }
}
fn unmash(r: &mut [u16; 4], k: &[u16; 64]) {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        r[i] = r[i].wrapping_sub(k[(r[(i + 3) % 4] & 63) as usize]);
    }
}
fn load(b: [u8; 8]) -> [u16; 4] {
    let w = |i: usize| b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8;
    [w(0), w(1), w(2), w(3)]
}
fn save(r: [u16; 4]) -> [u8; 8] {
    [r[0] as u8, (r[0] >> 8) as u8, r[1] as u8, (r[1] >> 8) as u8, r[2] as u8, (r[2] >> 8) as u8, r[3] as u8, (r[3] >> 8) as u8]
}
pub fn rc2_encrypt(k: &[u16; 64], b: [u8; 8]) -> [u8; 8] {
    let mut r = load(b);
    let mut j = 0;
    let mut n = 0;
    while n < 5 {
        mix(&mut r, k, &mut j);
        n += 1;
    }
    mash(&mut r, k);
    while n < 11 {
        mix(&mut r, k, &mut j);
        n += 1;
    }
    mash(&mut r, k);
    while n < 16 {
        mix(&mut r, k, &mut j);
        n += 1;
    }
    save(r)
}
pub fn rc2_decrypt(k: &[u16; 64], b: [u8; 8]) -> [u8; 8] {
    let mut r = load(b);
    let mut j = 64;
    let mut n = 0;
    while n < 5 {
        unmix(&mut r, k, &mut j);
        n += 1;
    }
    unmash(&mut r, k);
    while n < 11 {
        unmix(&mut r, k, &mut j);
        n += 1;
    }
    unmash(&mut r, k);
    while n < 16 {
        unmix(&mut r, k, &mut j);
        n += 1;
    }
    save(r)
}

/// first n bytes of the RC4 key stream
pub fn rc4(key: &[u8], n: usize) -> Vec<u8> {
    let mut s = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        s[i] = i as u8;
        i += 1;
    }
    let mut j = 0u8;
    i = 0;
    while i < 256 {
        j = j.wrapping_add(s[i]).wrapping_add(key[i % key.len()]);
        s.swap(i, j as usize);
        i += 1;
    }
    let mut out = Vec::new();
    let (mut i, mut j) = (0u8, 0u8);
    let mut k = 0;
    while k < n {
        i = i.wrapping_add(1);
        j = j.wrapping_add(s[i as usize]);
        s.swap(i as usize, j as usize);
        out.push(s[s[i as usize].wrapping_add(s[j as usize]) as usize]);
        k += 1;
    }
    out
}

pub fn rc5_expand(key: &[u8], r: usize) -> Vec<u32> {
    let b = key.len();
    let c = if b == 0 { 1 } else { (b + 3) / 4 };
    let mut l: Vec<u32> = Vec::new();
    let mut i = 0;
    while i < c {
        let mut w = 0u32;
        let mut k = 0;
        while k < 4 {
            if 4 * i + k < b {
                w |= (key[4 * i + k] as u32) << (8 * k);
            }
            k += 1;
        }
        l.push(w);
        i += 1;
    }
    let t = 2 * (r + 1);
    let mut s: Vec<u32> = Vec::new();
    i = 0;
    while i < t {
        s.push(0xb7e15163u32.wrapping_add(0x9e3779b9u32.wrapping_mul(i as u32)));
        i += 1;
    }
    let (mut i, mut j, mut a, mut bb) = (0, 0, 0u32, 0u32);
    let n = 3 * if t > c { t } else { c };
    let mut k = 0;
    while k < n {
        a = s[i].wrapping_add(a).wrapping_add(bb).rotate_left(3);
        s[i] = a;
        let ab = a.wrapping_add(bb);
        bb = l[j].wrapping_add(ab).rotate_left(ab & 31);
        l[j] = bb;
        i = (i + 1) % t;
        j = (j + 1) % c;
        k += 1;
    }
    s
}
fn le32(b: &[u8; 8], at: usize) -> u32 {
    b[at] as u32 | (b[at + 1] as u32) << 8 | (b[at + 2] as u32) << 16 | (b[at + 3] as u32) << 24
}
fn save2(a: u32, b: u32) -> [u8; 8] {
    [a as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8, b as u8, (b >> 8) as u8, (b >> 16) as u8, (b >> 24) as u8]
}
pub fn rc5_encrypt(s: &[u32], r: usize, x: [u8; 8]) -> [u8; 8] {
    let mut a = le32(&x, 0).wrapping_add(s[0]);
    let mut b = le32(&x, 4).wrapping_add(s[1]);
    let mut i = 1;
    while i <= r {
        a = (a ^ b).rotate_left(b & 31).wrapping_add(s[2 * i]);
        b = (b ^ a).rotate_left(a & 31).wrapping_add(s[2 * i + 1]);
        i += 1;
    }
    save2(a, b)
}
pub fn rc5_decrypt(s: &[u32], r: usize, x: [u8; 8]) -> [u8; 8] {
    let (mut a, mut b) = (le32(&x, 0), le32(&x, 4));
    let mut i = r;
    while i > 0 {
        b = b.wrapping_sub(s[2 * i + 1]).rotate_right(a & 31) ^ a;
        a = a.wrapping_sub(s[2 * i]).rotate_right(b & 31) ^ b;
        i -= 1;
    }
    save2(a.wrapping_sub(s[0]), b.wrapping_sub(s[1]))
}

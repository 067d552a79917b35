//! FIPS 180-4, RFC 1319, RFC 1320, RFC 1321.
use super::consts::*;

/// message ++ 0x80 ++ zeros ++ length, as a list of whole blocks following the last full message block
fn tail(m: &[u8], block: usize, lenbytes: usize, le: bool) -> Vec<u8> {
    let full = m.len() / block * block;
    let mut t: Vec<u8> = Vec::new();
    let mut i = full;
    while i < m.len() {
        t.push(m[i]);
        i += 1;
    }
    t.push(0x80);
    while t.len() % block != block - lenbytes {
        t.push(0);
    }
    let bits = (m.len() as u128) * 8;
    let mut i = 0;
    while i < lenbytes {
        let sh = if le { 8 * i } else { 8 * (lenbytes - 1 - i) };
        t.push((bits >> sh) as u8);
        i += 1;
    }
    t
}
fn be32(b: &[u8], at: usize) -> u32 {
    (b[at] as u32) << 24 | (b[at + 1] as u32) << 16 | (b[at + 2] as u32) << 8 | b[at + 3] as u32
}
fn le32(b: &[u8], at: usize) -> u32 {
    (b[at + 3] as u32) << 24 | (b[at + 2] as u32) << 16 | (b[at + 1] as u32) << 8 | b[at] as u32
}
fn be64(b: &[u8], at: usize) -> u64 {
    (be32(b, at) as u64) << 32 | be32(b, at + 4) as u64
}

pub fn c256(h: &mut [u32; 8], b: &[u8], at: usize) {
    let mut w = [0u32; 64];
    let mut t = 0;
    while t < 16 {
        w[t] = be32(b, at + 4 * t);
        t += 1;
    }
    while t < 64 {
        let (x, y) = (w[t - 15], w[t - 2]);
        let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
        let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
        w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        t += 1;
    }
    let mut v = *h;
    t = 0;
    while t < 64 {
        let (a, e) = (v[0], v[4]);
        let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let ch = (e & v[5]) ^ (!e & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K256[t]).wrapping_add(w[t]);
        let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let maj = (a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), a, v[1], v[2], v[3].wrapping_add(t1), e, v[5], v[6]];
        t += 1;
    }
    t = 0;
    while t < 8 {
        h[t] = h[t].wrapping_add(v[t]);
        t += 1;
    }
}
pub fn c512(h: &mut [u64; 8], b: &[u8], at: usize) {
    let mut w = [0u64; 80];
    let mut t = 0;
    while t < 16 {
        w[t] = be64(b, at + 8 * t);
        t += 1;
    }
    while t < 80 {
        let (x, y) = (w[t - 15], w[t - 2]);
        let s0 = x.rotate_right(1) ^ x.rotate_right(8) ^ (x >> 7);
        let s1 = y.rotate_right(19) ^ y.rotate_right(61) ^ (y >> 6);
        w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        t += 1;
    }
    let mut v = *h;
    t = 0;
    while t < 80 {
        let (a, e) = (v[0], v[4]);
        let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
        let ch = (e & v[5]) ^ (!e & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K512[t]).wrapping_add(w[t]);
        let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
        let maj = (a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), a, v[1], v[2], v[3].wrapping_add(t1), e, v[5], v[6]];
        t += 1;
    }
    t = 0;
    while t < 8 {
        h[t] = h[t].wrapping_add(v[t]);
        t += 1;
    }
}
pub fn c1(h: &mut [u32; 5], b: &[u8], at: usize) {
    let mut w = [0u32; 80];
    let mut t = 0;
    while t < 16 {
        w[t] = be32(b, at + 4 * t);
        t += 1;
    }
    while t < 80 {
        w[t] = (w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1);
        t += 1;
    }
    let mut v = *h;
    t = 0;
    while t < 80 {
        let (f, k) = if t < 20 {
            ((v[1] & v[2]) ^ (!v[1] & v[3]), 0x5a827999)
        } else if t < 40 {
            (v[1] ^ v[2] ^ v[3], 0x6ed9eba1)
        } else if t < 60 {
            ((v[1] & v[2]) ^ (v[1] & v[3]) ^ (v[2] & v[3]), 0x8f1bbcdc)
        } else {
            (v[1] ^ v[2] ^ v[3], 0xca62c1d6u32)
        };
        let x = v[0].rotate_left(5).wrapping_add(f).wrapping_add(v[4]).wrapping_add(k).wrapping_add(w[t]);
        v = [x, v[0], v[1].rotate_left(30), v[2], v[3]];
        t += 1;
    }
    t = 0;
    while t < 5 {
        h[t] = h[t].wrapping_add(v[t]);
        t += 1;
    }
}
pub fn c5(h: &mut [u32; 4], b: &[u8], at: usize) {
    const S: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut x = [0u32; 16];
    let mut t = 0;
    while t < 16 {
        x[t] = le32(b, at + 4 * t);
        t += 1;
    }
    let [mut a, mut bb, mut c, mut d] = *h;
    t = 0;
    while t < 64 {
        let (f, g) = if t < 16 {
            ((bb & c) | (!bb & d), t)
        } else if t < 32 {
            ((bb & d) | (c & !d), (5 * t + 1) % 16)
        } else if t < 48 {
            (bb ^ c ^ d, (3 * t + 5) % 16)
        } else {
            (c ^ (bb | !d), 7 * t % 16)
        };
        let y = a.wrapping_add(f).wrapping_add(T5[t]).wrapping_add(x[g]).rotate_left(S[t / 16][t % 4]).wrapping_add(bb);
        a = d;
        d = c;
        c = bb;
        bb = y;
        t += 1;
    }
    *h = [h[0].wrapping_add(a), h[1].wrapping_add(bb), h[2].wrapping_add(c), h[3].wrapping_add(d)];
}
pub fn c4(h: &mut [u32; 4], b: &[u8], at: usize) {
    const S: [[u32; 4]; 3] = [[3, 7, 11, 19], [3, 5, 9, 13], [3, 9, 11, 15]];
    const R3: [usize; 16] = [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15];
    let mut x = [0u32; 16];
    let mut t = 0;
    while t < 16 {
        x[t] = le32(b, at + 4 * t);
        t += 1;
    }
    let [mut a, mut bb, mut c, mut d] = *h;
    t = 0;
    while t < 48 {
        let (f, g, k) = if t < 16 {
            ((bb & c) | (!bb & d), t, 0)
        } else if t < 32 {
            ((bb & c) | (bb & d) | (c & d), (t % 4) * 4 + (t - 16) / 4, 0x5a827999)
        } else {
            (bb ^ c ^ d, R3[t - 32], 0x6ed9eba1)
        };
        let y = a.wrapping_add(f).wrapping_add(x[g]).wrapping_add(k).rotate_left(S[t / 16][t % 4]);
        a = d;
        d = c;
        c = bb;
        bb = y;
        t += 1;
    }
    *h = [h[0].wrapping_add(a), h[1].wrapping_add(bb), h[2].wrapping_add(c), h[3].wrapping_add(d)];
}
macro_rules! md {
    ($n:ident, $w:ty, $k:expr, $c:ident, $block:expr, $lb:expr, $le:expr, $iv:expr) => {
        pub fn $n(m: &[u8]) -> [$w; $k] {
            let mut h: [$w; $k] = $iv;
            let mut i = 0;
            while i < m.len() / $block {
                $c(&mut h, m, $block * i);
                i += 1;
            }
            let t = tail(m, $block, $lb, $le);
            let mut j = 0;
            while j < t.len() {
                $c(&mut h, &t, j);
                j += $block;
            }
            h
        }
    };
}
md!(sha1_words, u32, 5, c1, 64, 8, false, [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]);
md!(sha224_words, u32, 8, c256, 64, 8, false, H224);
md!(sha256_words, u32, 8, c256, 64, 8, false, H256);
md!(sha384_words, u64, 8, c512, 128, 16, false, H384);
md!(sha512_words, u64, 8, c512, 128, 16, false, H512);
md!(md4_words, u32, 4, c4, 64, 8, true, [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]);
md!(md5_words, u32, 4, c5, 64, 8, true, [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]);

pub fn be_bytes32<const N: usize, const K: usize>(h: [u32; K]) -> [u8; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = (h[i / 4] >> (24 - 8 * (i % 4))) as u8;
        i += 1;
    }
    r
}
pub fn be_bytes64<const N: usize, const K: usize>(h: [u64; K]) -> [u8; N] {
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = (h[i / 8] >> (56 - 8 * (i % 8))) as u8;
        i += 1;
    }
    r
}
pub fn le_bytes32(h: [u32; 4]) -> [u8; 16] {
    let mut r = [0; 16];
    let mut i = 0;
    while i < 16 {
        r[i] = (h[i / 4] >> (8 * (i % 4))) as u8;
        i += 1;
    }
    r
}

pub struct Md2 {
    x: [u8; 48],
    c: [u8; 16],
    l: u8,
}
fn md2_block(s: &mut Md2, b: &[u8], at: usize) {
    let mut j = 0;
    while j < 16 {
        s.c[j] ^= MD2S[(b[at + j] ^ s.l) as usize];
        s.l = s.c[j];
        j += 1;
    }
    j = 0;
    while j < 16 {
        s.x[16 + j] = b[at + j];
        s.x[32 + j] = s.x[16 + j] ^ s.x[j];
        j += 1;
    }
    let mut t = 0u8;
    let mut r = 0;
    while r < 18 {
        let mut k = 0;
        while k < 48 {
            s.x[k] ^= MD2S[t as usize];
            t = s.x[k];
            k += 1;
        }
        t = t.wrapping_add(r);
        r += 1;
    }
}
pub fn md2(m: &[u8]) -> [u8; 16] {
    let mut s = Md2 { x: [0; 48], c: [0; 16], l: 0 };
    let mut i = 0;
    while i < m.len() / 16 {
        md2_block(&mut s, m, 16 * i);
        i += 1;
    }
    let mut t: Vec<u8> = Vec::new();
    let mut i = m.len() / 16 * 16;
    while i < m.len() {
        t.push(m[i]);
        i += 1;
    }
    let p = 16 - t.len();
    while t.len() < 16 {
        t.push(p as u8);
    }
    md2_block(&mut s, &t, 0);
    let c = s.c;
    md2_block(&mut s, &c, 0);
    let mut r = [0; 16];
    let mut i = 0;
    while i < 16 {
        r[i] = s.x[i];
        i += 1;
    }
    r
}

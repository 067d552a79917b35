use super::keys::{public_key, public_key_bytes};
use crate::verif;
use cryptography::big::BigUint;
use cryptography::rsa::{PaddingScheme, RsaEncryption, create_keys};

/// x^e mod n
fn pow(x: u64, e: u64, n: u64) -> u64 {
    let mut r = 1 % n;
    let (mut e, mut x) = (e, x);
    while e != 0 {
        if e & 1 == 1 {
            r = r * x % n;
        }
        x = x * x % n;
        e >>= 1;
    }
    r
}
/// a number of `b` bits
fn small(b: usize) -> u64 {
    verif::any_u16("x") as u64 & ((1 << b) - 1)
}
fn len_of(n: u64) -> usize {
    let mut k = 1;
    while k < 8 && n >> (8 * k) != 0 {
        k += 1;
    }
    k
}
fn be(x: u64, k: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < k {
        let s = 8 * (k - 1 - i);
        v.push(if s < 64 { (x >> s) as u8 } else { 0 });
        i += 1;
    }
    v
}
pub fn prop_rsa_pow() {
    let (n, e) = (verif::param("n") as u64, verif::param("e") as u64);
    let x = small(verif::param("b"));
    let k = RsaEncryption::from(public_key(n, e));
    let want = pow(x, e, n);
    verif::paths(true);
    verif::prune(true);
    let m = BigUint::from(x as u128);
    let got = if verif::param("dir") == 0 { k.encrypt(m) } else { k.decrypt(m) };
    match got.as_u128() {
        Ok(g) => verif::require_eq(&g, &(want as u128), "x^e mod n"),
        Err(_) => verif::unreachable("the result is below the modulus"),
    }
}
/// key pair from primes: decryption inverts encryption
pub fn prop_rsa_pair() {
    let (p, q, e) = (verif::param("p") as u128, verif::param("q") as u128, verif::param("e") as u128);
    let (sk, pk) = create_keys(BigUint::from(p), BigUint::from(q), BigUint::from(e));
    let (sk, pk) = (RsaEncryption::from(sk), RsaEncryption::from(pk));
    let x = small(verif::param("b")) as u128;
    verif::assume(x < p * q);
    verif::paths(true);
    verif::prune(true);
    let m = BigUint::from(x);
    let c = if verif::param("dir") == 0 { sk.decrypt(pk.encrypt(m.clone())) } else { pk.decrypt(sk.encrypt(m.clone())) };
    verif::require(c == m, "the other key of the pair inverts");
}
struct Pad<'a> {
    out: &'a [u8],
    msg: &'a [u8],
    len: usize,
    ok: bool,
}
impl PaddingScheme for Pad<'_> {
    fn encode(&self, label: &[u8], message: &[u8], n_len: usize) -> Vec<u8> {
        verif::require_eq(&label.len(), &0, "empty label");
        verif::require_eq(message, self.msg, "the message reaches the padding unchanged");
        verif::require_eq(&n_len, &self.len, "the padding is asked for the length of the modulus");
        self.out.to_vec()
    }
    fn decode(&self, label: &[u8], encoded_message: &[u8], n_len: usize) -> Result<Vec<u8>, &'static str> {
        verif::require_eq(&label.len(), &0, "empty label");
        verif::require_eq(encoded_message, self.msg, "the padding gets the decrypted number at the length of the modulus");
        verif::require_eq(&n_len, &self.len, "the padding is told the length of the modulus");
        if self.ok { Ok(self.out.to_vec()) } else { Err("no") }
    }
}
pub fn prop_rsa_encrypt_message() {
    let (n, e) = (verif::param("n") as u64, verif::param("e") as u64);
    let x = small(verif::param("b"));
    let k = RsaEncryption::from(public_key(n, e));
    let len = len_of(n);
    let want = be(pow(x, e, n), len);
    let (out, msg) = (be(x, len), verif::vec("msg", verif::param("l")));
    verif::paths(true);
    verif::prune(true);
    let c = k.encrypt_message(&msg, Pad { out: &out, msg: &msg, len, ok: true });
    verif::require_eq(&c[..], &want[..], "ciphertext at the length of the modulus");
}
pub fn prop_rsa_decrypt_message() {
    let (n, e) = (verif::param("n") as u64, verif::param("e") as u64);
    let x = small(verif::param("b"));
    let k = RsaEncryption::from(public_key(n, e));
    let len = len_of(n);
    let em = be(pow(x, e, n), len);
    let (c, out) = (be(x, verif::param("k")), verif::vec("out", verif::param("l")));
    verif::paths(true);
    verif::prune(true);
    if verif::param("ok") == 1 {
        let m = k.decrypt_message(&c, Pad { out: &out, msg: &em, len, ok: true });
        verif::require_eq(&m[..], &out[..], "the unpadded message is returned");
    } else {
        verif::require(verif::panics(|| drop(k.decrypt_message(&c, Pad { out: &out, msg: &em, len, ok: false }))), "an invalid padding is refused");
    }
}
/// an encoding that is not below the modulus is refused, all others are not (exponent 0, so the power is 1)
pub fn prop_rsa_range() {
    let n = verif::param("n") as u64;
    let k = RsaEncryption::from(public_key(n, 0));
    let len = len_of(n);
    let out = verif::vec("x", len);
    let mut v = 0u64;
    let mut i = 0;
    while i < len {
        v = v << 8 | out[i] as u64;
        i += 1;
    }
    let p = verif::panics(|| {
        let c = k.encrypt_message(&[], Pad { out: &out, msg: &[], len, ok: true });
        verif::require_eq(&c[..], &be(1, len)[..], "ciphertext at the length of the modulus");
    });
    verif::require_eq(&p, &(v >= n), "exactly encodings not below the modulus are refused");
}

// ---- long numbers
const MODULI: [&[u8]; 22] = [
    &[255, 255, 255, 255, 255, 255, 255, 197],
    &[1, 0, 0, 0, 0, 0, 0, 0, 13],
    &[31, 255, 255, 255, 255, 255, 255, 255],
    &[127, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255],
    &[255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 97],
    &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 51],
    &[127, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 237],
    &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 41],
    &[189, 229, 192, 153, 65, 100, 216, 57, 159, 118, 124, 69],
    &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    &[255, 255, 255, 255, 255, 255, 255, 255, 255, 255],
    &[183, 123, 154, 162, 187, 46, 219, 32, 3, 91, 115, 153, 63, 212, 35, 89, 146, 237, 207, 69, 26, 26, 254, 135, 139, 51, 233, 104, 97, 121, 89, 206, 63, 31, 101, 168, 222, 82, 113, 0, 120, 20, 232, 162, 95, 45, 217, 127, 28, 251, 16, 246, 40, 39, 104, 141, 230, 161, 106, 59, 13, 70, 65, 56, 166, 35, 50, 85, 63, 193, 234, 54, 241, 127, 211, 116, 198, 165, 56, 119, 119, 51, 11, 219, 215, 33, 13, 255, 7, 108, 226, 239, 135, 176, 177, 37, 236, 29, 125, 160, 166, 235, 140, 158, 189, 105, 254, 41, 215, 109, 67, 48, 241, 68, 107, 234, 176, 193, 31, 222, 203, 145, 206, 55, 91, 200, 251, 189],
    &[128, 0, 0, 0, 0, 0, 0, 29],
    &[1, 255, 255, 255, 255, 255, 255, 255, 207],
    &[187],
    &[1, 0, 1],
    &[123, 17, 181, 249, 80, 75, 116, 186, 74, 15, 231, 93, 42, 158, 186, 12, 223, 86, 29, 128, 42, 117, 145, 89, 251, 127, 243, 55, 245, 202, 227, 191, 55, 41, 198, 25, 198, 10, 60, 171, 53, 158, 238, 251, 1, 92, 51, 178, 223, 20, 97, 170, 248, 235, 24, 185, 0, 116, 81, 48, 33, 218, 137, 120, 32, 111, 92, 102, 113, 224, 192, 126, 158, 17, 94, 75, 158, 48, 105, 28, 35, 134, 66, 234, 18, 106, 30, 72, 204, 17, 211, 87, 195, 13, 139, 118, 40, 219, 210, 94, 99, 178, 41, 241, 196, 6, 149, 69, 222, 17, 204, 157, 234, 149, 156, 33, 46, 156, 130, 177, 71, 140, 40, 29, 104, 124, 150, 109],
    &[1, 91, 26, 50, 152, 146, 19, 150, 0, 221, 183, 77, 150, 13, 90, 143, 154, 101, 106, 175, 209, 65, 37, 132, 77, 37, 222, 179, 84, 244, 106, 105, 16, 172, 255, 0, 67, 137, 45, 252, 37, 76, 184, 100, 239, 144, 27, 147, 42, 124, 24, 128, 106, 55, 83, 145, 92, 118, 241, 138, 5, 133, 160, 28, 76, 125, 109, 240, 98, 26, 239, 87, 228, 204, 65, 50, 247, 16, 142, 150, 247, 112, 194, 38, 50, 102, 170, 59, 176, 205, 233, 23, 247, 243, 86, 52, 240, 227, 205, 151, 46, 129, 214, 109, 52, 108, 110, 43, 160, 47, 218, 161, 173, 134, 76, 68, 224, 73, 84, 142, 138, 10, 140, 150, 50, 234, 105, 41],
    &[1, 148, 25, 207, 77, 96, 89, 123, 220, 93, 190, 68, 9, 107, 56, 67, 9, 201, 169, 55, 166, 140, 143, 149, 239, 4, 160, 18, 232, 103, 127, 209, 57, 216, 74, 29, 58, 91, 142, 143, 178, 191, 242, 145, 1, 243, 0, 28, 238, 5, 218, 132, 103, 240, 99, 19, 255, 249, 160, 31, 232, 65, 149, 33, 254, 14, 151, 156, 243, 45, 22, 52, 180, 180, 101, 50, 82, 120, 248, 69, 245, 123, 49, 32, 223, 47, 77, 76, 134, 80, 215, 209, 63, 178, 72, 145, 145, 123, 18, 29, 197, 78, 90, 58, 38, 209, 138, 102, 154, 90, 248, 78, 107, 79, 89, 103, 39, 16, 230, 216, 230, 86, 128, 104, 185, 181, 42, 67, 171],
    &[251, 217, 232, 161, 255, 41, 125, 14, 79, 46, 132, 252, 176, 109, 190, 224, 184, 156, 78, 86, 38, 28, 55, 75, 160, 118, 87, 214, 20, 4, 171, 30, 204, 124, 109, 129, 45, 111, 46, 252, 78, 97, 58, 54, 81, 25, 205, 204, 175, 155, 116, 248, 79, 252, 191, 66, 23, 146, 30, 108, 139, 142, 143, 78, 179, 222, 8, 249, 236, 152, 55, 4, 70, 146, 186, 3, 87, 7, 150, 112, 37, 240, 38, 40, 235, 7, 195, 13, 92, 213, 6, 28, 156, 95, 49, 158, 131, 76, 27, 105, 87, 58, 197, 154, 53, 95, 42, 244, 23, 87, 144, 94, 250, 116, 150, 146, 242, 31, 245, 235, 110, 215, 143, 93, 9, 96, 175, 233, 75, 189, 187, 1, 220, 20, 237, 87, 94, 7, 48, 179, 204, 23, 12, 49, 199, 238, 198, 27, 191, 151, 3, 192, 150, 250, 187, 123, 27, 169, 90, 84, 118, 125, 82, 116, 198, 141, 235, 93, 64, 58, 150, 10, 134, 82, 219, 208, 228, 136, 182, 200, 90, 211, 186, 50, 131, 50, 240, 90, 88, 41, 104, 24, 118, 83, 23, 55, 241, 41, 200, 198, 209, 202, 77, 196, 237, 253, 228, 22, 62, 255, 139, 63, 193, 119, 241, 19, 30, 120, 33, 150, 50, 79, 62, 129, 244, 83, 50, 78, 244, 134, 171, 115, 159, 171, 168, 39, 46, 80, 189, 78, 181, 47, 165, 60, 11, 246, 78, 247, 115, 236, 40, 208, 2, 82, 246, 21],
    &[255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255],
    &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]
];
const EXPONENTS: [&[u8]; 12] = [
    &[3],
    &[17],
    &[1, 0, 1],
    &[2, 0, 0, 0, 1],
    &[1, 0, 0, 0, 0, 0, 0, 0, 1],
    &[4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5],
    &[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
    &[2],
    &[1],
    &[1, 0, 0, 0, 0],
    &[128, 0, 0, 0],
    &[16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]
];
/// little-endian limbs of big-endian bytes
fn limbs(b: &[u8]) -> Vec<u32> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if i % 4 == 0 {
            v.push(0);
        }
        v[i / 4] |= (b[b.len() - 1 - i] as u32) << (8 * (i % 4));
        i += 1;
    }
    v
}
/// x mod n, bit by bit from the top
fn red(x: &[u32], n: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; n.len() + 1];
    let mut i = 32 * x.len();
    while i > 0 {
        i -= 1;
        let mut c = x[i / 32] >> (i % 32) & 1;
        let mut j = 0;
        while j < r.len() {
            let t = r[j] >> 31;
            r[j] = r[j] << 1 | c;
            c = t;
            j += 1;
        }
        let mut d = vec![0u32; r.len()];
        let mut borrow = 0u64;
        j = 0;
        while j < r.len() {
            let t = (1u64 << 32) + r[j] as u64 - if j < n.len() { n[j] as u64 } else { 0 } - borrow;
            d[j] = t as u32;
            borrow = 1 - (t >> 32);
            j += 1;
        }
        if borrow == 0 {
            r = d;
        }
    }
    r.pop();
    r
}
fn mul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    let mut i = 0;
    while i < a.len() {
        let mut c = 0u64;
        let mut j = 0;
        while j < b.len() {
            c += r[i + j] as u64 + a[i] as u64 * b[j] as u64;
            r[i + j] = c as u32;
            c >>= 32;
            j += 1;
        }
        r[i + b.len()] = c as u32;
        i += 1;
    }
    r
}
fn pow_big(x: &[u8], e: &[u8], n: &[u8]) -> Vec<u8> {
    let m = limbs(n);
    let mut r = red(&[1], &m);
    let x = red(&limbs(x), &m);
    let mut i = 0;
    let mut started = false;
    while i < 8 * e.len() {
        if started {
            r = red(&mul(&r, &r), &m);
        }
        if e[i / 8] >> (7 - i % 8) & 1 == 1 {
            r = red(&mul(&r, &x), &m);
            started = true;
        }
        i += 1;
    }
    let mut v = Vec::new();
    i = n.len();
    while i > 0 {
        i -= 1;
        v.push((r[i / 4] >> (8 * (i % 4))) as u8);
    }
    v
}
/// a number of l bytes, b of its bits arbitrary (from bit `at` of the number up), the others fixed
fn long(l: usize, at: usize, b: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < l {
        v.push((i * 73 + 151) as u8 | (i == 0) as u8);
        i += 1;
    }
    let x = verif::split(verif::any_u8("x") & ((1 << b) - 1));
    if l > 0 {
        v[l - 1 - at] ^= x;
    }
    v
}
fn strip(v: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < v.len() && v[i] == 0 {
        i += 1;
    }
    &v[i..]
}
pub fn prop_rsa_pow_long() {
    let (n, e) = (MODULI[verif::param("n")], EXPONENTS[verif::param("e")]);
    verif::paths(true);
    let x = long(verif::param("l"), verif::param("at"), verif::param("b"));
    let want = pow_big(&x, e, n);
    let k = RsaEncryption::from(public_key_bytes(n, e));
    let m = BigUint::from_be_bytes(&x);
    let got = if verif::param("dir") == 0 { k.encrypt(m) } else { k.decrypt(m) };
    verif::require_eq(&got.to_be_bytes()[..], strip(&want), "x^e mod n");
}
/// a whole message at real sizes; exponent 0 or few bits arbitrary
pub fn prop_rsa_range_long() {
    let n = MODULI[verif::param("n")];
    let k = RsaEncryption::from(public_key_bytes(n, &[]));
    let out = verif::vec("x", n.len());
    let msg = verif::vec("msg", 5);
    let mut below = false;
    let mut i = n.len();
    while i > 0 {
        i -= 1;
        below = out[i] < n[i] || (out[i] == n[i] && below);
    }
    let mut one = vec![0; n.len()];
    one[n.len() - 1] = 1;
    let p = verif::panics(|| {
        let c = k.encrypt_message(&msg, Pad { out: &out, msg: &msg, len: n.len(), ok: true });
        verif::require_eq(&c[..], &one[..], "ciphertext at the length of the modulus");
    });
    verif::require_eq(&p, &!below, "exactly encodings not below the modulus are refused");
}
pub fn prop_rsa_decrypt_long() {
    let (n, e) = (MODULI[verif::param("n")], EXPONENTS[verif::param("e")]);
    verif::paths(true);
    let x = long(verif::param("l"), 0, verif::param("b"));
    let em = pow_big(&x, e, n);
    let k = RsaEncryption::from(public_key_bytes(n, e));
    let out = verif::vec("out", 3);
    let m = k.decrypt_message(&x, Pad { out: &out, msg: &em, len: n.len(), ok: true });
    verif::require_eq(&m[..], &out[..], "the unpadded message is returned");
}
pub fn prop_rsa_encrypt_long() {
    let (n, e) = (MODULI[verif::param("n")], EXPONENTS[verif::param("e")]);
    verif::paths(true);
    let x = long(verif::param("l"), 0, verif::param("b"));
    let want = pow_big(&x, e, n);
    let k = RsaEncryption::from(public_key_bytes(n, e));
    let msg = verif::vec("msg", 3);
    let c = k.encrypt_message(&msg, Pad { out: &x, msg: &msg, len: n.len(), ok: true });
    verif::require_eq(&c[..], &want[..], "ciphertext at the length of the modulus");
}

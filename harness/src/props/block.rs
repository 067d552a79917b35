use crate::verif;
use cryptography::{Block, BlockCipher, BlockCipherMode, BlockEncryption, EcbMode};

/// an arbitrary block cipher: encryption is an arbitrary permutation, decryption its inverse
struct AnyCipher<const N: usize>(u64);
impl<const N: usize> BlockCipher<N> for AnyCipher<N> {
    fn encrypt(&self, b: Block<N>) -> Block<N> { verif::perm("E", false, self.0, b) }
    fn decrypt(&self, b: Block<N>) -> Block<N> { verif::perm("E", true, self.0, b) }
}
/// an arbitrary stateful mode: what it does depends on the state and every block it has seen
struct AnyMode<const N: usize>(u64);
impl<const N: usize> BlockCipherMode<N> for AnyMode<N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: Block<N>) -> Block<N> {
        let x = c.encrypt(b);
        let y = verif::perm("M", false, self.0, x);
        self.0 = verif::uf64("next", &(self.0, y));
        y
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: Block<N>) -> Block<N> {
        let x = verif::perm("M", true, self.0, b);
        self.0 = verif::uf64("next", &(self.0, b));
        c.decrypt(x)
    }
}
fn spec_encrypt<const N: usize, M: BlockCipherMode<N>>(c: &AnyCipher<N>, mode: &mut M, p: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let blocks = p.len() / N;
    let mut i = 0;
    while i < blocks {
        let mut b = [0; N];
        let mut k = 0;
        while k < N {
            b[k] = p[i * N + k];
            k += 1;
        }
        let y = mode.encrypt_block(c, b);
        let mut k = 0;
        while k < N {
            out.push(y[k]);
            k += 1;
        }
        i += 1;
    }
    let r = p.len() - blocks * N;
    let mut b = [(N - r) as u8; N];
    let mut k = 0;
    while k < r {
        b[k] = p[blocks * N + k];
        k += 1;
    }
    let y = mode.encrypt_block(c, b);
    let mut k = 0;
    while k < N {
        out.push(y[k]);
        k += 1;
    }
    out
}
fn driver<const N: usize>() {
    let key = verif::any_u64("key");
    let iv = verif::any_u64("iv");
    let p = verif::msg("p", N, verif::param("r"));
    let mut got = Vec::new();
    BlockEncryption::encrypt(AnyCipher::<N>(key), AnyMode::<N>(iv), &p, |b| got.push(b));
    let want = spec_encrypt(&AnyCipher::<N>(key), &mut AnyMode::<N>(iv), &p);
    verif::require_eq(&got, &want, "padded blocks go through the mode once each, in order");
    let mut ecb = Vec::new();
    BlockEncryption::encrypt(AnyCipher::<N>(key), EcbMode::<N>, &p, |b| ecb.push(b));
    struct Ecb;
    impl<const N: usize> BlockCipherMode<N> for Ecb {
        fn encrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: Block<N>) -> Block<N> { c.encrypt(b) }
        fn decrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: Block<N>) -> Block<N> { c.decrypt(b) }
    }
    verif::require_eq(&ecb, &spec_encrypt(&AnyCipher::<N>(key), &mut Ecb, &p), "ECB encrypts every padded block independently");
}
fn roundtrip<const N: usize>() {
    let key = verif::any_u64("key");
    let iv = verif::any_u64("iv");
    let p = verif::msg("p", N, verif::param("r"));
    let c = spec_encrypt(&AnyCipher::<N>(key), &mut AnyMode::<N>(iv), &p);
    let mut d = Vec::new();
    BlockEncryption::decrypt(AnyCipher::<N>(key), AnyMode::<N>(iv), &c, |b| d.push(b));
    verif::require_eq(&d, &p, "decryption returns the plaintext");
    let mut c = Vec::new();
    BlockEncryption::encrypt(AnyCipher::<N>(key), EcbMode::<N>, &p, |b| c.push(b));
    let mut d = Vec::new();
    BlockEncryption::decrypt(AnyCipher::<N>(key), EcbMode::<N>, &c, |b| d.push(b));
    verif::require_eq(&d, &p, "ECB decryption returns the plaintext");
}
fn spec_decrypt<const N: usize, M: BlockCipherMode<N>>(c: &AnyCipher<N>, mode: &mut M, p: &[u8]) -> (Vec<u8>, [u8; N]) {
    let mut out = Vec::new();
    let blocks = p.len() / N;
    let mut i = 0;
    while i < blocks - 1 {
        let mut b = [0; N];
        let mut k = 0;
        while k < N {
            b[k] = p[i * N + k];
            k += 1;
        }
        let y = mode.decrypt_block(c, b);
        let mut k = 0;
        while k < N {
            out.push(y[k]);
            k += 1;
        }
        i += 1;
    }
    let mut b = [0; N];
    let mut k = 0;
    while k < N {
        b[k] = p[(blocks - 1) * N + k];
        k += 1;
    }
    let y = mode.decrypt_block(c, b);
    (out, y)
}
/// arbitrary ciphertext of one or more blocks: every block goes through the mode once, in order,
/// and what is written is the decrypted text without its padding
fn decrypts<const N: usize>() {
    let key = verif::any_u64("key");
    let iv = verif::any_u64("iv");
    let pad = verif::param("pad");
    let c = verif::msg("c", N, 0);
    if c.len() == 0 {
        return;
    }
    let (mut want, last) = spec_decrypt(&AnyCipher::<N>(key), &mut AnyMode::<N>(iv), &c);
    if last[N - 1] as usize != pad {
        return;
    }
    let mut k = 0;
    while k < N - pad {
        want.push(last[k]);
        k += 1;
    }
    let mut d = Vec::new();
    BlockEncryption::decrypt(AnyCipher::<N>(key), AnyMode::<N>(iv), &c, |b| d.push(b));
    verif::require_eq(&d, &want, "every ciphertext block goes through the mode once, in order, and only the padding is dropped");
}
/// ciphertexts that are not a whole number of blocks are refused
fn misaligned<const N: usize>() {
    let key = verif::any_u64("key");
    let c = verif::msg("c", N, verif::param("r"));
    verif::require(verif::panics(|| BlockEncryption::decrypt(AnyCipher::<N>(key), EcbMode::<N>, &c, |_| {})), "a misaligned ciphertext is refused");
}
macro_rules! inst {
    ($($n:literal $a:ident $b:ident $c:ident $d:ident),*) => { $(
        pub fn $a() { driver::<$n>() }
        pub fn $b() { roundtrip::<$n>() }
        pub fn $c() { misaligned::<$n>() }
        pub fn $d() { decrypts::<$n>() }
    )* };
}
inst!(4 prop_driver_4 prop_roundtrip_4 prop_misaligned_4 prop_decrypts_4,
      8 prop_driver_8 prop_roundtrip_8 prop_misaligned_8 prop_decrypts_8,
      16 prop_driver_16 prop_roundtrip_16 prop_misaligned_16 prop_decrypts_16,
      20 prop_driver_20 prop_roundtrip_20 prop_misaligned_20 prop_decrypts_20);

use crate::{spec, verif};
use cryptography::BlockCipher;
use cryptography::aes::{Aes, Key128, Key192, Key256};

pub fn prop_aes_enc_128() {
    let (k, b) = (verif::bytes::<16>("key"), verif::bytes::<16>("block"));
    verif::require_eq(&Aes::with_128_bit_key(k).encrypt(b), &spec::aes::encrypt(&k, b), "AES-128 encryption");
}
pub fn prop_aes_enc_192() {
    let (k, b) = (verif::bytes::<24>("key"), verif::bytes::<16>("block"));
    verif::require_eq(&Aes::with_192_bit_key(k).encrypt(b), &spec::aes::encrypt(&k, b), "AES-192 encryption");
}
pub fn prop_aes_enc_256() {
    let (k, b) = (verif::bytes::<32>("key"), verif::bytes::<16>("block"));
    verif::require_eq(&Aes::with_256_bit_key(k).encrypt(b), &spec::aes::encrypt(&k, b), "AES-256 encryption");
}
pub fn prop_aes_dec_128() {
    let (k, b) = (verif::bytes::<16>("key"), verif::bytes::<16>("block"));
    verif::require_eq(&Aes::with_128_bit_key(k).decrypt(b), &spec::aes::decrypt(&k, b), "AES-128 decryption");
}
pub fn prop_aes_dec_192() {
    let (k, b) = (verif::bytes::<24>("key"), verif::bytes::<16>("block"));
    verif::require_eq(&Aes::with_192_bit_key(k).decrypt(b), &spec::aes::decrypt(&k, b), "AES-192 decryption");
}
pub fn prop_aes_dec_256() {
    let (k, b) = (verif::bytes::<32>("key"), verif::bytes::<16>("block"));
    verif::require_eq(&Aes::with_256_bit_key(k).decrypt(b), &spec::aes::decrypt(&k, b), "AES-256 decryption");
}
/// the reference decryption inverts the reference encryption (closes the loop with the two above)
pub fn prop_aes_inv_128() {
    let (k, b) = (verif::bytes::<16>("key"), verif::bytes::<16>("block"));
    let a = Aes::with_128_bit_key(k);
    verif::require_eq(&a.decrypt(a.encrypt(b)), &b, "AES-128 decrypt(encrypt(b)) = b");
    verif::require_eq(&a.encrypt(a.decrypt(b)), &b, "AES-128 encrypt(decrypt(b)) = b");
}
pub fn prop_aes_inv_192() {
    let (k, b) = (verif::bytes::<24>("key"), verif::bytes::<16>("block"));
    let a = Aes::with_192_bit_key(k);
    verif::require_eq(&a.decrypt(a.encrypt(b)), &b, "AES-192 decrypt(encrypt(b)) = b");
    verif::require_eq(&a.encrypt(a.decrypt(b)), &b, "AES-192 encrypt(decrypt(b)) = b");
}
pub fn prop_aes_inv_256() {
    let (k, b) = (verif::bytes::<32>("key"), verif::bytes::<16>("block"));
    let a = Aes::with_256_bit_key(k);
    verif::require_eq(&a.decrypt(a.encrypt(b)), &b, "AES-256 decrypt(encrypt(b)) = b");
    verif::require_eq(&a.encrypt(a.decrypt(b)), &b, "AES-256 encrypt(decrypt(b)) = b");
}
fn be<const N: usize, const M: usize>(k: [u64; N]) -> [u8; M] {
    let mut r = [0; M];
    let mut i = 0;
    while i < M {
        r[i] = (k[i / 8] >> (56 - 8 * (i % 8))) as u8;
        i += 1;
    }
    r
}
pub fn prop_aes_key_words() {
    let b = verif::bytes::<16>("block");
    let k = verif::words64::<2>("k128");
    verif::require_eq(&Aes::from(Key128::from(k)).encrypt(b), &Aes::with_128_bit_key(be(k)).encrypt(b), "128-bit key from big-endian words");
    let k = verif::words64::<3>("k192");
    verif::require_eq(&Aes::from(Key192::from(k)).encrypt(b), &Aes::with_192_bit_key(be(k)).encrypt(b), "192-bit key from big-endian words");
    let k = verif::words64::<4>("k256");
    verif::require_eq(&Aes::from(Key256::from(k)).encrypt(b), &Aes::with_256_bit_key(be(k)).encrypt(b), "256-bit key from big-endian words");
}

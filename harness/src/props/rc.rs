use crate::spec::rc as s;
use crate::verif;
use cryptography::BlockCipher;

pub fn prop_rc2() {
    let key = verif::vec("key", verif::param("klen"));
    let bits = verif::param("bits");
    let b = verif::bytes::<8>("block");
    let c = cryptography::rc2::from_key(&key, bits as u16);
    let k = s::rc2_expand(&key, bits);
    verif::require_eq(&c.encrypt(b), &s::rc2_encrypt(&k, b), "RC2 encryption");
    verif::require_eq(&c.decrypt(b), &s::rc2_decrypt(&k, b), "RC2 decryption");
}
pub fn prop_rc2_inv() {
    let key = verif::vec("key", verif::param("klen"));
    let b = verif::bytes::<8>("block");
    let c = cryptography::rc2::from_key(&key, verif::param("bits") as u16);
    verif::require_eq(&c.decrypt(c.encrypt(b)), &b, "RC2 decrypt(encrypt(b)) = b");
    verif::require_eq(&c.encrypt(c.decrypt(b)), &b, "RC2 encrypt(decrypt(b)) = b");
}
pub fn prop_rc5() {
    let key = verif::vec("key", verif::param("klen"));
    let r = verif::param("rounds");
    let b = verif::bytes::<8>("block");
    let c = cryptography::rc5::new(&key, r as u8);
    let k = s::rc5_expand(&key, r);
    verif::require_eq(&c.encrypt(b), &s::rc5_encrypt(&k, r, b), "RC5 encryption");
    verif::require_eq(&c.decrypt(b), &s::rc5_decrypt(&k, r, b), "RC5 decryption");
}
pub fn prop_rc5_inv() {
    let key = verif::vec("key", verif::param("klen"));
    let b = verif::bytes::<8>("block");
    let c = cryptography::rc5::new(&key, verif::param("rounds") as u8);
    verif::require_eq(&c.decrypt(c.encrypt(b)), &b, "RC5 decrypt(encrypt(b)) = b");
    verif::require_eq(&c.encrypt(c.decrypt(b)), &b, "RC5 encrypt(decrypt(b)) = b");
}
pub fn prop_rc4_stream() {
    let key = verif::vec("key", verif::param("klen"));
    let n = verif::param("n");
    let got: Vec<u8> = cryptography::rc4::new(&key).take(n).collect();
    verif::require_eq(&got, &s::rc4(&key, n), "RC4 key stream");
}

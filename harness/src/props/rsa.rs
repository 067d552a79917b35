use crate::spec::oaep as s;
use crate::verif;
use cryptography::rsa::{PaddingScheme, RsaPadding};

/// every label and message that fits: the encoding opens to label hash, zeros, 1 and the message
pub fn prop_oaep_encode() {
    let (l, m, n) = (verif::param("l"), verif::param("m"), verif::param("n"));
    let (label, msg) = (verif::vec("label", l), verif::vec("msg", m));
    let em = RsaPadding.encode(&label, &msg, n);
    verif::require_eq(&em.len(), &n, "encoded length");
    let (y, _, db) = s::open(&em);
    verif::require_eq(&y, &0, "first byte is zero");
    verif::require_eq(&db[..32], &s::h(&label)[..], "label hash");
    let z = n - m - 66;
    verif::require_eq(&db[32..32 + z], &vec![0; z][..], "zero padding");
    verif::require_eq(&db[32 + z], &1, "separator");
    verif::require_eq(&db[33 + z..], &msg[..], "message");
}
/// messages that do not fit are refused
pub fn prop_oaep_long() {
    let (m, n) = (verif::param("m"), verif::param("n"));
    let msg = verif::vec("msg", m);
    verif::require(verif::panics(|| drop(RsaPadding.encode(b"", &msg, n))), "a message that does not fit is refused");
}
/// encode then decode
pub fn prop_oaep_inv() {
    let (l, m, n) = (verif::param("l"), verif::param("m"), verif::param("n"));
    let (label, msg) = (verif::vec("label", l), verif::vec("msg", m));
    let em = RsaPadding.encode(&label, &msg, n);
    match RsaPadding.decode(&label, &em, n) {
        Ok(x) => verif::require_eq(&x[..], &msg[..], "decoding returns the message"),
        Err(_) => verif::unreachable("an encoded message decodes"),
    }
}
/// every encoded message with the right label hash and z zeros after it: the rest of the data block, the seed and
/// the first byte arbitrary
pub fn prop_oaep_decode() {
    let (l, n, z) = (verif::param("l"), verif::param("n"), verif::param("z"));
    let label = verif::vec("label", l);
    let mut rest = verif::vec("db", n - 65);
    let mut i = 0;
    while i < z {
        rest[i] = 0;
        i += 1;
    }
    if z < rest.len() {
        verif::assume(rest[z] != 0);
    }
    let seed: [u8; 32] = verif::bytes("seed");
    let y = verif::any_u8("y");
    let mut db = s::h(&label).to_vec();
    db.extend_from_slice(&rest);
    let em = s::seal(y, &seed, &db);
    let ok = y == 0 && z < rest.len() && rest[z] == 1;
    match RsaPadding.decode(&label, &em, n) {
        Ok(x) => {
            verif::require(ok, "malformed encodings are refused");
            if ok {
                verif::require_eq(&x[..], &rest[z + 1..], "decoded message");
            }
        }
        Err(_) => verif::require(!ok, "well-formed encodings are accepted"),
    }
}
/// one byte of the label hash differs
pub fn prop_oaep_label() {
    let (p, n) = (verif::param("p"), verif::param("n"));
    let mut db = s::h(b"").to_vec();
    let mut tail = verif::vec("db", n - 65);
    tail[0] = 1;
    db.extend_from_slice(&tail);
    let d = verif::any_u8("d");
    verif::assume(d != 0);
    db[p] ^= d;
    let seed: [u8; 32] = verif::bytes("seed");
    let em = s::seal(0, &seed, &db);
    verif::require(RsaPadding.decode(b"", &em, n).is_err(), "a wrong label hash is refused");
}
/// lengths that do not match, or are too small, are refused without a panic
pub fn prop_oaep_len() {
    let (k, n) = (verif::param("k"), verif::param("n"));
    let em = verif::vec("em", k);
    verif::require(RsaPadding.decode(b"", &em, n).is_err(), "a wrong length is refused");
}

use crate::spec::hash as s;
use crate::verif;
use cryptography::sha;

macro_rules! sha {
    ($p:ident, $f:path, $n:expr, $block:expr, $spec:expr, $msg:expr) => {
        pub fn $p() {
            let m = verif::msg("m", $block, verif::param("r"));
            let got: [u8; $n] = $f(&m).into();
            verif::require_eq(&got, &$spec(&m), $msg);
        }
    };
}
sha!(prop_sha1, sha::sha1, 20, 64, |m: &[u8]| s::be_bytes32::<20, 5>(s::sha1_words(m)), "SHA-1 digest");
sha!(prop_sha224, sha::sha224, 28, 64, |m: &[u8]| s::be_bytes32::<28, 8>(s::sha224_words(m)), "SHA-224 digest");
sha!(prop_sha256, sha::sha256, 32, 64, |m: &[u8]| s::be_bytes32::<32, 8>(s::sha256_words(m)), "SHA-256 digest");
sha!(prop_sha384, sha::sha384, 48, 128, |m: &[u8]| s::be_bytes64::<48, 8>(s::sha384_words(m)), "SHA-384 digest");
sha!(prop_sha512, sha::sha512, 64, 128, |m: &[u8]| s::be_bytes64::<64, 8>(s::sha512_words(m)), "SHA-512 digest");

macro_rules! md {
    ($p:ident, $f:path, $block:expr, $spec:expr, $msg:expr) => {
        pub fn $p() {
            let m = verif::msg("m", $block, verif::param("r"));
            verif::require_eq(&$f(&m), &$spec(&m), $msg);
        }
    };
}
md!(prop_md2, cryptography::md2, 16, s::md2, "MD2 digest");
md!(prop_md4, cryptography::md4, 64, |m: &[u8]| s::le_bytes32(s::md4_words(m)), "MD4 digest");
md!(prop_md5, cryptography::md5, 64, |m: &[u8]| s::le_bytes32(s::md5_words(m)), "MD5 digest");

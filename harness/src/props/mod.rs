pub mod asn1;
pub mod aes;
pub mod block;
pub mod hash;
pub mod hashval;
pub mod pad;
pub mod rc;
pub mod stream;
pub mod big;
pub mod rsa;
pub mod keys;
pub mod msg;
pub mod pem;
#[cfg(feature = "idioms")]
pub mod stdlib;

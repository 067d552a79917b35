pub mod aes;
pub mod consts;
pub mod hash;
pub mod rc;
pub mod asn1;
pub mod oaep;

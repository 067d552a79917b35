use crate::verif;
use cryptography::pad::{BitPadding, PkcsPadding};

fn spec_pkcs<const N: usize>(part: &[u8]) -> [u8; N] {
    let mut b = [(N - part.len()) as u8; N];
    let mut i = 0;
    while i < part.len() {
        b[i] = part[i];
        i += 1;
    }
    b
}
fn spec_bit<const N: usize>(part: &[u8], marker: u8) -> [u8; N] {
    let mut b = [0; N];
    let mut i = 0;
    while i < part.len() {
        b[i] = part[i];
        i += 1;
    }
    b[part.len()] = marker;
    b
}
fn pkcs<const N: usize>() {
    let len = verif::param("len");
    let part = verif::vec("part", len);
    if len < N {
        let b = PkcsPadding::<N>.pad(&part);
        verif::require_eq(&b, &spec_pkcs::<N>(&part), "PKCS padding content");
        verif::require_eq(&PkcsPadding::<N>.unpad(b), &len, "PKCS unpad inverts pad");
    } else {
        verif::require(verif::panics(|| { PkcsPadding::<N>.pad(&part); }), "PKCS pad refuses a full block");
    }
}
fn pkcs_unpad<const N: usize>() {
    let b = verif::bytes::<N>("block");
    let last = b[N - 1];
    if last as usize > N {
        verif::require(verif::panics(|| { PkcsPadding::<N>.unpad(b); }), "PKCS unpad refuses an oversized pad byte");
    } else {
        verif::require_eq(&PkcsPadding::<N>.unpad(b), &(N - last as usize), "PKCS unpad length");
    }
}
fn bit<const N: usize>() {
    let len = verif::param("len");
    let part = verif::vec("part", len);
    if len < N {
        let b = BitPadding::<N>.pad(&part);
        verif::require_eq(&b, &spec_bit::<N>(&part, 0x80), "bit padding content");
        verif::require_eq(&BitPadding::<N>.unpad(b), &(spec_bit::<N>(&part, 0), len), "bit unpad inverts pad");
    } else {
        verif::require(verif::panics(|| { BitPadding::<N>.pad(&part); }), "bit pad refuses a full block");
    }
}
/// any block whose bytes from `len` on are 0x80 0 0 ... must come apart at `len`; no 0x80 at all is refused
fn bit_unpad<const N: usize>() {
    let b = verif::bytes::<N>("block");
    let mut i = 0;
    while i < N {
        verif::assume(b[i] != 0x80);
        i += 1;
    }
    verif::require(verif::panics(|| { BitPadding::<N>.unpad(b); }), "bit unpad refuses a block without marker");
}
macro_rules! inst {
    ($($n:literal $a:ident $b:ident $c:ident $d:ident),*) => { $(
        pub fn $a() { pkcs::<$n>() }
        pub fn $b() { pkcs_unpad::<$n>() }
        pub fn $c() { bit::<$n>() }
        pub fn $d() { bit_unpad::<$n>() }
    )* };
}
inst!(1 prop_pkcs_1 prop_pkcs_unpad_1 prop_bit_1 prop_bit_unpad_1,
      2 prop_pkcs_2 prop_pkcs_unpad_2 prop_bit_2 prop_bit_unpad_2,
      3 prop_pkcs_3 prop_pkcs_unpad_3 prop_bit_3 prop_bit_unpad_3,
      4 prop_pkcs_4 prop_pkcs_unpad_4 prop_bit_4 prop_bit_unpad_4,
      5 prop_pkcs_5 prop_pkcs_unpad_5 prop_bit_5 prop_bit_unpad_5,
      7 prop_pkcs_7 prop_pkcs_unpad_7 prop_bit_7 prop_bit_unpad_7,
      8 prop_pkcs_8 prop_pkcs_unpad_8 prop_bit_8 prop_bit_unpad_8,
      12 prop_pkcs_12 prop_pkcs_unpad_12 prop_bit_12 prop_bit_unpad_12,
      16 prop_pkcs_16 prop_pkcs_unpad_16 prop_bit_16 prop_bit_unpad_16,
      17 prop_pkcs_17 prop_pkcs_unpad_17 prop_bit_17 prop_bit_unpad_17,
      20 prop_pkcs_20 prop_pkcs_unpad_20 prop_bit_20 prop_bit_unpad_20,
      24 prop_pkcs_24 prop_pkcs_unpad_24 prop_bit_24 prop_bit_unpad_24,
      31 prop_pkcs_31 prop_pkcs_unpad_31 prop_bit_31 prop_bit_unpad_31,
      32 prop_pkcs_32 prop_pkcs_unpad_32 prop_bit_32 prop_bit_unpad_32,
      33 prop_pkcs_33 prop_pkcs_unpad_33 prop_bit_33 prop_bit_unpad_33,
      48 prop_pkcs_48 prop_pkcs_unpad_48 prop_bit_48 prop_bit_unpad_48,
      63 prop_pkcs_63 prop_pkcs_unpad_63 prop_bit_63 prop_bit_unpad_63,
      64 prop_pkcs_64 prop_pkcs_unpad_64 prop_bit_64 prop_bit_unpad_64,
      65 prop_pkcs_65 prop_pkcs_unpad_65 prop_bit_65 prop_bit_unpad_65,
      96 prop_pkcs_96 prop_pkcs_unpad_96 prop_bit_96 prop_bit_unpad_96,
      127 prop_pkcs_127 prop_pkcs_unpad_127 prop_bit_127 prop_bit_unpad_127,
      128 prop_pkcs_128 prop_pkcs_unpad_128 prop_bit_128 prop_bit_unpad_128,
      129 prop_pkcs_129 prop_pkcs_unpad_129 prop_bit_129 prop_bit_unpad_129,
      192 prop_pkcs_192 prop_pkcs_unpad_192 prop_bit_192 prop_bit_unpad_192,
      200 prop_pkcs_200 prop_pkcs_unpad_200 prop_bit_200 prop_bit_unpad_200,
      254 prop_pkcs_254 prop_pkcs_unpad_254 prop_bit_254 prop_bit_unpad_254,
      255 prop_pkcs_255 prop_pkcs_unpad_255 prop_bit_255 prop_bit_unpad_255);

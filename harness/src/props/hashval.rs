use crate::verif;
use cryptography::sha::{Hash160, Hash224, Hash256, Hash384, Hash512};
use hex::FromHex;

macro_rules! words {
    ($p:ident, $h:ty, $w:ty, $n:literal, $b:literal, $gen:ident, $m:literal) => {
        pub fn $p() {
            let w = verif::$gen::<$n>("w");
            let mut want = [0u8; $b];
            let mut i = 0;
            while i < $b {
                want[i] = (w[i / $m] >> (8 * ($m - 1 - i % $m))) as u8;
                i += 1;
            }
            let h = <$h>::from(w);
            let got: [u8; $b] = h.clone().into();
            verif::require_eq(&got, &want, "words to bytes, big endian");
            let back: [$w; $n] = h.into();
            verif::require_eq(&back, &w, "bytes to words, big endian");
        }
    };
}
words!(prop_hv160, Hash160, u32, 5, 20, words32, 4);
words!(prop_hv224, Hash224, u32, 7, 28, words32, 4);
words!(prop_hv256, Hash256, u32, 8, 32, words32, 4);
words!(prop_hv384, Hash384, u64, 6, 48, words64, 8);
words!(prop_hv512, Hash512, u64, 8, 64, words64, 8);

fn nib(c: u8) -> Option<u8> {
    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else {
        None
    }
}
macro_rules! hexp {
    ($p:ident, $q:ident, $r:ident, $h:ty, $b:literal) => {
        /// exactly 2N hex digits of either case are accepted and read most significant nibble first
        pub fn $p() {
            let h = verif::bytes::<$b>("h");
            let up = verif::param("case");
            let mut s = Vec::new();
            let mut i = 0;
            while i < $b {
                let d = if up == 0 { b"0123456789abcdef" } else { b"0123456789ABCDEF" };
                s.push(d[(h[i] >> 4) as usize]);
                s.push(d[(h[i] & 15) as usize]);
                i += 1;
            }
            match <$h>::from_hex(&s) {
                Ok(v) => {
                    let got: [u8; $b] = v.into();
                    verif::require_eq(&got, &h, "hex digits to bytes");
                }
                Err(_) => verif::unreachable("valid hex is accepted"),
            }
        }
        /// any other length is refused, whatever the digits
        pub fn $q() {
            let s = verif::vec("s", verif::param("n"));
            verif::require(<$h>::from_hex(&s).is_err(), "hex of any other length is refused");
        }
        /// a character that is not a hex digit is refused wherever it stands
        pub fn $r() {
            let mut s = [b'0'; 2 * $b];
            let pos = verif::param("pos");
            let rest = verif::bytes::<{ 2 * $b }>("rest");
            let mut i = 0;
            while i < 2 * $b {
                if i < pos {
                    s[i] = b"0123456789abcdef"[(rest[i] & 15) as usize];
                } else {
                    s[i] = rest[i];
                }
                i += 1;
            }
            verif::assume(nib(s[pos]).is_none());
            verif::require(<$h>::from_hex(&s).is_err(), "a non-hex character is refused");
        }
    };
}
hexp!(prop_hex160, prop_hexlen160, prop_hexbad160, Hash160, 20);
hexp!(prop_hex224, prop_hexlen224, prop_hexbad224, Hash224, 28);
hexp!(prop_hex256, prop_hexlen256, prop_hexbad256, Hash256, 32);
hexp!(prop_hex384, prop_hexlen384, prop_hexbad384, Hash384, 48);
hexp!(prop_hex512, prop_hexlen512, prop_hexbad512, Hash512, 64);

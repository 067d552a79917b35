//! The subset of DER the library reads, as a total function.
use crate::verif;
use cryptography::pem::asn1::Asn1;

/// (value, bytes consumed), or None
pub fn element(b: &[u8], depth: usize) -> Option<(Asn1, usize)> {
    if b.len() < 2 || depth == 0 {
        return None;
    }
    let l = b[1] as usize;
    let (head, len) = if l < 0x80 {
        if l > b.len() - 2 {
            return None;
        }
        (2, verif::split(l))
    } else {
        if l - 0x80 > 16 || l - 0x80 > b.len() - 2 {
            return None;
        }
        let n = verif::split(l) - 0x80;
        let rest = b.len() - 2 - n;
        let mut len = 0usize;
        let mut i = 0;
        while i < n {
            if n - i > 8 {
                if b[2 + i] != 0 {
                    return None;
                }
            } else {
                len = len << 8 | b[2 + i] as usize;
            }
            i += 1;
        }
        if len > rest {
            return None;
        }
        (2 + n, verif::split(len))
    };
    let body = &b[head..head + len];
    let v = match b[0] {
        2 => Asn1::Integer(body.to_vec()),
        4 => Asn1::OctetString(body.to_vec()),
        6 => Asn1::ObjectIdentifier(body.to_vec()),
        5 => Asn1::Null,
        3 => {
            if body.len() == 0 {
                return None;
            }
            Asn1::BitString(body[1..].to_vec(), body[0])
        }
        0x30 => {
            let mut v = Vec::new();
            let mut at = 0;
            while at < body.len() {
                match element(&body[at..], depth - 1) {
                    Some((x, n)) => {
                        v.push(x);
                        at += n;
                    }
                    None => return None,
                }
            }
            Asn1::Sequence(v)
        }
        _ => return None,
    };
    Some((v, head + len))
}
pub fn document(b: &[u8]) -> Option<Asn1> {
    match element(b, 64) {
        Some((v, n)) => {
            if n == b.len() {
                Some(v)
            } else {
                None
            }
        }
        None => None,
    }
}

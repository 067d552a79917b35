use crate::spec::asn1 as s;
use crate::verif;
use cryptography::pem::asn1::Asn1;

/// every byte string of length n: same answer as the reference, and no panic
pub fn prop_asn1_all() {
    let b = verif::vec("b", verif::param("n"));
    same(&b);
}
fn same(b: &[u8]) {
    verif::paths(true);
    let want = s::document(b);
    match Asn1::try_from(b) {
        Ok(v) => match want {
            Some(w) => verif::require_eq(&v, &w, "parsed value"),
            None => verif::unreachable("malformed input is refused"),
        },
        Err(_) => match want {
            Some(_) => verif::unreachable("well-formed input is accepted"),
            None => verif::require(true, "malformed input is refused"),
        },
    }
}
/// tag fixed by the enumeration, length bytes and content arbitrary
pub fn prop_asn1_prim() {
    let mut b = verif::vec("b", verif::param("n"));
    b[0] = verif::param("tag") as u8;
    same(&b);
}
fn header(out: &mut Vec<u8>, tag: u8, form: usize, len: usize) {
    out.push(tag);
    if form == 0 {
        out.push(len as u8);
    } else {
        out.push(0x80 | form as u8);
        let mut i = 0;
        while i < form {
            let sh = 8 * (form - 1 - i);
            out.push(if sh < 64 { (len >> sh) as u8 } else { 0 });
            i += 1;
        }
    }
}
/// a value with `form` length bytes (0: short form), a declared length off by `delta` - 1, arbitrary content,
/// inside `depth` sequences, each holding `sib` values before it
pub fn prop_asn1_tmpl() {
    let (tag, form, len, delta) = (verif::param("tag") as u8, verif::param("form"), verif::param("len"), verif::param("delta"));
    let (depth, sib) = (verif::param("depth"), verif::param("sib"));
    let body = verif::vec("b", len);
    let mut b = Vec::new();
    header(&mut b, tag, form, (len + delta).wrapping_sub(1));
    b.extend_from_slice(&body);
    let mut d = 0;
    while d < depth {
        let mut x = Vec::new();
        let n = b.len() + 3 * sib;
        header(&mut x, 0x30, if n < 128 { 0 } else if n < 256 { 1 } else { 2 }, n);
        let mut k = 0;
        while k < sib {
            x.push(2);
            x.push(1);
            x.push(verif::any_u8("sib"));
            k += 1;
        }
        x.extend_from_slice(&b);
        b = x;
        d += 1;
    }
    same(&b);
}

use crate::verif;
use cryptography::big::BigUint;
use cryptography::pem::{PEM, asn1::Asn1};
use cryptography::rsa::{PrivateKey, PublicKey, create_keys};

const OID: [u8; 9] = [42, 134, 72, 134, 247, 13, 1, 1, 1];

fn put(out: &mut Vec<u8>, tag: u8, body: &[u8]) {
    out.push(tag);
    let n = body.len();
    if n >= 256 {
        out.push(0x82);
        out.push((n >> 8) as u8);
        out.push(n as u8);
    } else if n >= 128 {
        out.push(0x81);
        out.push(n as u8);
    } else {
        out.push(n as u8);
    }
    out.extend_from_slice(body);
}
fn alg() -> Vec<u8> {
    let mut a = Vec::new();
    put(&mut a, 6, &OID);
    put(&mut a, 5, &[]);
    let mut r = Vec::new();
    put(&mut r, 0x30, &a);
    r
}
fn public_der(n: &[u8], e: &[u8]) -> Vec<u8> {
    let mut k = Vec::new();
    put(&mut k, 2, n);
    put(&mut k, 2, e);
    let mut b = Vec::new();
    b.push(0);
    put(&mut b, 0x30, &k);
    let mut t = alg();
    put(&mut t, 3, &b);
    let mut r = Vec::new();
    put(&mut r, 0x30, &t);
    r
}
fn private_der(f: &[Vec<u8>]) -> Vec<u8> {
    let mut k = Vec::new();
    let mut i = 0;
    while i < f.len() {
        put(&mut k, 2, &f[i]);
        i += 1;
    }
    let mut b = Vec::new();
    put(&mut b, 0x30, &k);
    let mut t = Vec::new();
    put(&mut t, 2, &[0]);
    t.extend_from_slice(&alg());
    put(&mut t, 4, &b);
    let mut r = Vec::new();
    put(&mut r, 0x30, &t);
    r
}
fn public(data: Vec<u8>) -> Result<PublicKey, String> {
    PublicKey::try_from(PEM { label: "PUBLIC KEY".to_string(), data })
}
fn private(data: Vec<u8>) -> Result<PrivateKey, String> {
    PrivateKey::try_from(PEM { label: "PRIVATE KEY".to_string(), data })
}
/// numeric value of up to eight bytes
fn val(b: &[u8]) -> u64 {
    let mut x = 0;
    let mut i = 0;
    while i < b.len() {
        x = x << 8 | b[i] as u64;
        i += 1;
    }
    x
}
fn rsa(i: usize) -> (u64, u64, u64, u64, u64) {
    // p, q, e, n, d
    if i == 0 {
        (61, 53, 17, 3233, 413)
    } else if i == 1 {
        (11, 17, 3, 187, 27)
    } else {
        (101, 113, 3533, 11413, 997)
    }
}
fn big(x: u64) -> BigUint {
    BigUint::from(x as u128)
}
/// keys made from primes: the key import must reach exactly these from their numbers
pub fn prop_key_public() {
    let (p, q, e, n, _) = rsa(verif::param("k"));
    let (vn, ve) = (verif::vec("n", verif::param("n")), verif::vec("e", verif::param("e")));
    let want = create_keys(big(p), big(q), big(e)).1;
    match public(public_der(&vn, &ve)) {
        Ok(k) => verif::require_eq(&(k == want), &(val(&vn) == n && val(&ve) == e), "public key numbers"),
        Err(_) => verif::unreachable("a well-formed public key is read"),
    }
}
pub fn prop_key_private() {
    let (p, q, e, n, d) = rsa(verif::param("k"));
    let (ln, ld) = (verif::param("n"), verif::param("d"));
    let want = create_keys(big(p), big(q), big(e)).0;
    let mut f = Vec::new();
    f.push(verif::vec("version", 1));
    f.push(verif::vec("n", ln));
    f.push(verif::vec("e", 2));
    f.push(verif::vec("d", ld));
    f.push(verif::vec("p", 1));
    f.push(verif::vec("q", 1));
    f.push(verif::vec("x", 2));
    f.push(verif::vec("y", 2));
    f.push(verif::vec("c", 2));
    // the other numbers, short or not
    for i in [2, 4, 5, 6, 7, 8] {
        verif::assume((f[i][0] != 0) == (verif::param("z") == 0));
    }
    match private(private_der(&f)) {
        Ok(k) => verif::require_eq(&(k == want), &(val(&f[1]) == n && val(&f[3]) == d), "private key numbers"),
        Err(_) => verif::unreachable("a well-formed private key is read"),
    }
}
fn same(a: &[u8], b: &[u8]) -> bool {
    let (mut i, mut ok) = (0, true);
    while i < a.len() || i < b.len() {
        let x = if i < a.len() { a[a.len() - 1 - i] } else { 0 };
        let y = if i < b.len() { b[b.len() - 1 - i] } else { 0 };
        ok = ok & (x == y);
        i += 1;
    }
    ok
}
/// two imports give the same key exactly when both numbers agree
pub fn prop_key_public_inj() {
    let (a, b) = (verif::param("a"), verif::param("b"));
    let (n1, n2, e1, e2) = (verif::vec("n1", a), verif::vec("n2", b), verif::vec("e1", 3), verif::vec("e2", 3));
    if verif::param("top") == 1 {
        verif::assume(n1[0] != 0 && n2[0] != 0 && e1[0] != 0 && e2[0] != 0);
    }
    match (public(public_der(&n1, &e1)), public(public_der(&n2, &e2))) {
        (Ok(x), Ok(y)) => verif::require_eq(&(x == y), &(same(&n1, &n2) && same(&e1, &e2)), "public keys agree exactly when their numbers do"),
        _ => verif::unreachable("a well-formed public key is read"),
    }
}
pub fn prop_key_private_inj() {
    let (a, b) = (verif::param("a"), verif::param("b"));
    let mut f1 = Vec::new();
    let mut f2 = Vec::new();
    let mut i = 0;
    while i < 9 {
        if i == 1 {
            f1.push(verif::vec("n1", a));
            f2.push(verif::vec("n2", a));
        } else if i == 3 {
            f1.push(verif::vec("d1", b));
            f2.push(verif::vec("d2", b));
        } else {
            f1.push(verif::vec("o1", 1));
            f2.push(verif::vec("o2", 1));
        }
        if i > 0 {
            verif::assume(f1[i][0] != 0 && f2[i][0] != 0);
        }
        i += 1;
    }
    match (private(private_der(&f1)), private(private_der(&f2))) {
        (Ok(x), Ok(y)) => verif::require_eq(&(x == y), &(same(&f1[1], &f2[1]) && same(&f1[3], &f2[3])), "private keys agree exactly when their numbers do"),
        _ => verif::unreachable("a well-formed private key is read"),
    }
}
fn is_alg(a: &Asn1) -> bool {
    match a {
        Asn1::Sequence(s) => {
            if s.len() != 2 {
                return false;
            }
            match (&s[0], &s[1]) {
                (Asn1::ObjectIdentifier(o), Asn1::Null) => {
                    let mut i = 0;
                    if o.len() != 9 {
                        return false;
                    }
                    while i < 9 {
                        if o[i] != OID[i] {
                            return false;
                        }
                        i += 1;
                    }
                    true
                }
                _ => false,
            }
        }
        _ => false,
    }
}
fn ints(data: &[u8], count: usize) -> Option<Vec<Vec<u8>>> {
    let Ok(Asn1::Sequence(s)) = Asn1::try_from(data) else { return None };
    if s.len() != count {
        return None;
    }
    let mut v = Vec::new();
    let mut i = 0;
    while i < count {
        match &s[i] {
            Asn1::Integer(b) => v.push(b.clone()),
            _ => return None,
        }
        i += 1;
    }
    Some(v)
}
/// the numbers of a public key document
fn read_public(data: &[u8]) -> Option<Vec<Vec<u8>>> {
    let Ok(Asn1::Sequence(s)) = Asn1::try_from(data) else { return None };
    if s.len() != 2 || !is_alg(&s[0]) {
        return None;
    }
    match &s[1] {
        Asn1::BitString(b, unused) => {
            if *unused != 0 {
                return None;
            }
            ints(b, 2)
        }
        _ => None,
    }
}
fn read_private(data: &[u8]) -> Option<Vec<Vec<u8>>> {
    let Ok(Asn1::Sequence(s)) = Asn1::try_from(data) else { return None };
    if s.len() != 3 || !is_alg(&s[1]) {
        return None;
    }
    match (&s[0], &s[2]) {
        (Asn1::Integer(v), Asn1::OctetString(b)) => {
            if v.len() != 1 || v[0] != 0 {
                return None;
            }
            let f = ints(b, 9)?;
            if f[0].len() != 1 {
                return None;
            }
            Some(f)
        }
        _ => None,
    }
}
fn check_public(data: Vec<u8>) {
    let want = read_public(&data);
    match public(data) {
        Ok(k) => match want {
            Some(w) => {
                let Ok(r) = public(public_der(&w[0], &w[1])) else { return verif::unreachable("a well-formed public key is read") };
                verif::require(k == r, "the key has the numbers of the document");
            }
            None => verif::unreachable("a malformed public key is refused"),
        },
        Err(_) => match want {
            Some(_) => verif::unreachable("a well-formed public key is read"),
            None => verif::require(true, "a malformed public key is refused"),
        },
    }
}
fn check_private(data: Vec<u8>) {
    let want = read_private(&data);
    match private(data) {
        Ok(k) => match want {
            Some(w) => {
                let mut f = Vec::new();
                let mut i = 0;
                while i < 9 {
                    f.push(if i == 1 || i == 3 { w[i].clone() } else { vec![0; 1] });
                    i += 1;
                }
                let Ok(r) = private(private_der(&f)) else { return verif::unreachable("a well-formed private key is read") };
                verif::require(k == r, "the key has the numbers of the document");
            }
            None => verif::unreachable("a malformed private key is refused"),
        },
        Err(_) => match want {
            Some(_) => verif::unreachable("a well-formed private key is read"),
            None => verif::require(true, "a malformed private key is refused"),
        },
    }
}
/// a small document with `k` bytes from position `pos` on arbitrary (pos beyond it: appended), cut to `cut` bytes
pub fn prop_key_public_doc() {
    let (pos, k, cut) = (verif::param("pos"), verif::param("k"), verif::param("cut"));
    let d = public_der(&[0, 187], &[3]);
    verif::paths(true);
    check_public(mutate(d, pos, k, cut));
}
pub fn prop_key_private_doc() {
    let (pos, k, cut) = (verif::param("pos"), verif::param("k"), verif::param("cut"));
    let mut f = Vec::new();
    let mut i = 0;
    while i < 9 {
        f.push(vec![i as u8 + 1; 1]);
        i += 1;
    }
    let d = private_der(&f);
    verif::paths(true);
    check_private(mutate(d, pos, k, cut));
}
fn mutate(mut d: Vec<u8>, pos: usize, k: usize, cut: usize) -> Vec<u8> {
    let x = verif::vec("x", k);
    let mut i = 0;
    while i < k {
        if pos + i < d.len() {
            d[pos + i] = x[i];
        } else {
            d.push(x[i]);
        }
        i += 1;
    }
    d.truncate(d.len() - cut);
    d
}
/// other shapes of the document: element counts and element types off, numbers arbitrary
pub fn prop_key_public_shape() {
    let (top, a, c, unused) = (verif::param("top"), verif::param("alg"), verif::param("c"), verif::param("unused"));
    let mut k = Vec::new();
    let mut i = 0;
    while i < c {
        put(&mut k, 2, &verif::vec("i", 1));
        i += 1;
    }
    let mut b = Vec::new();
    b.push(unused as u8);
    put(&mut b, 0x30, &k);
    let mut t = Vec::new();
    if top > 0 {
        t.extend_from_slice(&alg_shape(a));
    }
    if top > 1 {
        put(&mut t, 3, &b);
    }
    i = 2;
    while i < top {
        put(&mut t, 2, &[0]);
        i += 1;
    }
    let mut r = Vec::new();
    put(&mut r, 0x30, &t);
    verif::paths(true);
    check_public(r);
}
pub fn prop_key_private_shape() {
    let (top, a, c, ver) = (verif::param("top"), verif::param("alg"), verif::param("c"), verif::param("ver"));
    let mut k = Vec::new();
    let mut i = 0;
    while i < c {
        put(&mut k, 2, &if i == 0 { vec![1; ver] } else { vec![i as u8; 1] });
        i += 1;
    }
    let mut b = Vec::new();
    put(&mut b, 0x30, &k);
    let mut t = Vec::new();
    if top > 0 {
        put(&mut t, 2, &verif::vec("v", 1));
    }
    if top > 1 {
        t.extend_from_slice(&alg_shape(a));
    }
    if top > 2 {
        put(&mut t, 4, &b);
    }
    i = 3;
    while i < top {
        put(&mut t, 5, &[]);
        i += 1;
    }
    let mut r = Vec::new();
    put(&mut r, 0x30, &t);
    verif::paths(true);
    check_private(r);
}
fn alg_shape(a: usize) -> Vec<u8> {
    let mut x = Vec::new();
    if a == 1 {
        put(&mut x, 6, &OID);
    } else if a == 2 {
        put(&mut x, 6, &OID);
        put(&mut x, 5, &[]);
        put(&mut x, 5, &[]);
    } else if a == 3 {
        put(&mut x, 5, &[]);
        put(&mut x, 6, &OID);
    } else if a == 4 {
        put(&mut x, 6, &OID[..8]);
        put(&mut x, 5, &[]);
    } else if a == 5 {
        put(&mut x, 6, &[42, 134, 72, 134, 247, 13, 1, 1, 1, 0]);
        put(&mut x, 5, &[]);
    } else if a == 6 {
        put(&mut x, 6, &verif::vec("oid", 9));
        put(&mut x, 5, &[]);
    } else if a == 7 {
        put(&mut x, 6, &OID);
        put(&mut x, 2, &[0]);
    } else if a == 8 {
        put(&mut x, 6, &OID);
        put(&mut x, 5, &[1]);
    } else if a == 9 {
        put(&mut x, 6, &[]);
        put(&mut x, 5, &[]);
    } else {
        put(&mut x, 6, &OID);
        put(&mut x, 5, &[]);
    }
    let mut r = Vec::new();
    put(&mut r, if a == 10 { 4 } else { 0x30 }, &x);
    r
}
/// every label of n ASCII characters: only the right one is accepted
pub fn prop_key_label() {
    let n = verif::param("n");
    let l = verif::vec("l", n);
    let w: &[u8] = if verif::param("which") == 0 { b"PUBLIC KEY" } else { b"PRIVATE KEY" };
    let mut ok = n == w.len();
    let mut i = 0;
    while i < n {
        verif::assume(l[i] < 128);
        if i < w.len() {
            ok = ok & (l[i] == w[i]);
        }
        i += 1;
    }
    let label = unsafe { String::from_utf8_unchecked(l) };
    if verif::param("which") == 0 {
        let r = PublicKey::try_from(PEM { label, data: public_der(&[187], &[3]) });
        verif::require_eq(&r.is_ok(), &ok, "only the label PUBLIC KEY is accepted");
    } else {
        let mut f = Vec::new();
        i = 0;
        while i < 9 {
            f.push(vec![3; 1]);
            i += 1;
        }
        let r = PrivateKey::try_from(PEM { label, data: private_der(&f) });
        verif::require_eq(&r.is_ok(), &ok, "only the label PRIVATE KEY is accepted");
    }
}
pub fn public_key(n: u64, e: u64) -> PublicKey {
    let f = |x: u64| [(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8];
    public_key_bytes(&f(n), &f(e))
}
pub fn public_key_bytes(n: &[u8], e: &[u8]) -> PublicKey {
    match public(public_der(n, e)) {
        Ok(k) => k,
        Err(_) => {
            verif::unreachable("a well-formed public key is read");
            loop {}
        }
    }
}

//! EME-OAEP of RFC 8017 with SHA-256 (the hash itself is property C06)
use cryptography::sha::sha256;

pub fn h(x: &[u8]) -> [u8; 32] {
    sha256(x).into()
}
pub fn mgf1(seed: &[u8], n: usize) -> Vec<u8> {
    let mut t = Vec::new();
    let mut c = 0u32;
    while t.len() < n {
        let mut x = seed.to_vec();
        x.push((c >> 24) as u8);
        x.push((c >> 16) as u8);
        x.push((c >> 8) as u8);
        x.push(c as u8);
        let d = h(&x);
        let mut i = 0;
        while i < 32 && t.len() < n {
            t.push(d[i]);
            i += 1;
        }
        c += 1;
    }
    t
}
pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < a.len() {
        v.push(a[i] ^ b[i]);
        i += 1;
    }
    v
}
/// encoded message for this first byte, seed and data block
pub fn seal(y: u8, seed: &[u8], db: &[u8]) -> Vec<u8> {
    let mdb = xor(db, &mgf1(seed, db.len()));
    let ms = xor(seed, &mgf1(&mdb, 32));
    let mut em = Vec::new();
    em.push(y);
    em.extend_from_slice(&ms);
    em.extend_from_slice(&mdb);
    em
}
/// first byte, seed and data block of an encoded message
pub fn open(em: &[u8]) -> (u8, Vec<u8>, Vec<u8>) {
    let (ms, mdb) = (&em[1..33], &em[33..]);
    let seed = xor(ms, &mgf1(mdb, 32));
    let db = xor(mdb, &mgf1(&seed, mdb.len()));
    (em[0], seed, db)
}

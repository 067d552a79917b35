use crate::spec::rc as s;
use crate::verif;
use cryptography::StreamCipher;

/// an arbitrary key stream: byte i is an arbitrary function of i; counts what was taken
struct Keys<'a> {
    seed: u64,
    taken: &'a std::cell::Cell<usize>,
}
impl Iterator for Keys<'_> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let i = self.taken.get();
        self.taken.set(i + 1);
        Some(verif::uf8("key", &(self.seed, i)))
    }
}
pub fn prop_stream() {
    let (n, m) = (verif::param("n"), verif::param("m"));
    let seed = verif::any_u64("seed");
    let (d1, d2) = (verif::vec("d1", n), verif::vec("d2", m));
    let taken = std::cell::Cell::new(0);
    let mut c = StreamCipher::new(Keys { seed, taken: &taken });
    let a: Vec<u8> = c.encrypt(d1.iter().copied()).collect();
    verif::require_eq(&taken.get(), &n, "one key byte per data byte");
    let b: Vec<u8> = c.encrypt(d2.iter().copied()).collect();
    verif::require_eq(&taken.get(), &(n + m), "one key byte per data byte, across calls");
    let mut want_a = Vec::new();
    let mut want_b = Vec::new();
    let mut i = 0;
    while i < n {
        want_a.push(d1[i] ^ verif::uf8("key", &(seed, i)));
        i += 1;
    }
    let mut k = 0;
    while k < m {
        want_b.push(d2[k] ^ verif::uf8("key", &(seed, n + k)));
        k += 1;
    }
    verif::require_eq(&a, &want_a, "output byte i is data byte i xor key byte i");
    verif::require_eq(&b, &want_b, "a later call continues the key stream");
}
/// a consumer that stops early has used exactly as many key bytes as it took output bytes
pub fn prop_stream_lazy() {
    let (n, m) = (verif::param("n"), verif::param("m"));
    let seed = verif::any_u64("seed");
    let d = verif::vec("d", n + m);
    let taken = std::cell::Cell::new(0);
    let mut c = StreamCipher::new(Keys { seed, taken: &taken });
    {
        let mut it = c.encrypt(d.iter().copied());
        let mut i = 0;
        while i < n {
            verif::require_eq(&it.next(), &Some(d[i] ^ verif::uf8("key", &(seed, i))), "output in order");
            i += 1;
        }
    }
    verif::require_eq(&taken.get(), &n, "no key byte is used ahead of its data byte");
}
/// applying the cipher twice with the same key stream restores the data
pub fn prop_stream_inv() {
    let n = verif::param("n");
    let seed = verif::any_u64("seed");
    let d = verif::vec("d", n);
    let (t1, t2) = (std::cell::Cell::new(0), std::cell::Cell::new(0));
    let a: Vec<u8> = StreamCipher::new(Keys { seed, taken: &t1 }).encrypt(d.iter().copied()).collect();
    let b: Vec<u8> = StreamCipher::new(Keys { seed, taken: &t2 }).encrypt(a.iter().copied()).collect();
    verif::require_eq(&b, &d, "the same key stream decrypts");
}
pub fn prop_rc4_encrypt() {
    let key = verif::vec("key", verif::param("klen"));
    let n = verif::param("n");
    let d = verif::vec("data", n);
    let k = s::rc4(&key, n);
    let mut want = Vec::new();
    let mut i = 0;
    while i < n {
        want.push(d[i] ^ k[i]);
        i += 1;
    }
    verif::require_eq(&cryptography::rc4::new(&key).encrypt(&d), &want, "RC4 encryption");
    verif::require_eq(&cryptography::rc4::new(&key).decrypt(&want), &d, "RC4 decryption inverts encryption");
}
/// splitting the data over several calls of a stream cipher fed by RC4 changes nothing
pub fn prop_rc4_split() {
    let key = verif::vec("key", verif::param("klen"));
    let (n, m) = (verif::param("n"), verif::param("m"));
    let d = verif::vec("data", n + m);
    let whole = cryptography::rc4::new(&key).encrypt(&d);
    let mut c = StreamCipher::new(cryptography::rc4::new(&key));
    let mut parts: Vec<u8> = c.encrypt(d[..n].iter().copied()).collect();
    let tail: Vec<u8> = c.encrypt(d[n..].iter().copied()).collect();
    parts.extend_from_slice(&tail);
    verif::require_eq(&parts, &whole, "RC4 split encryption");
}

//! Which harness roots decide which property, and over which enumerated parameters.
pub type Params = Vec<(&'static str, u128)>;
#[derive(Clone, Debug)]
pub struct Job {
    pub root: &'static str,
    pub params: Params,
}
pub struct Plan {
    pub level: &'static str,
    pub rule: &'static str,
    pub text: &'static str,
    pub assumptions: Vec<&'static str>,
    pub jobs: Vec<Job>,
}
struct B {
    jobs: Vec<Job>,
}
impl B {
    fn one(&mut self, root: &'static str) {
        self.jobs.push(Job { root, params: vec![] });
    }
    fn p(&mut self, root: &'static str, params: &[(&'static str, u128)]) {
        if !self.jobs.iter().any(|j| j.root == root && j.params == params) {
            self.jobs.push(Job { root, params: params.to_vec() });
        }
    }
}
pub const EQ: &str = "abstract interpretation of the repository's MIR over a value-graph (global value numbering) domain; an obligation is discharged when implementation and reference value graphs have the same normal form, and reported only when a valuation of the graph separates them";

pub fn plan(prop: &str, thorough: bool) -> Option<Plan> {
    let mut b = B { jobs: vec![] };
    let mut level = "other";
    let mut rule = EQ;
    let mut text = "";
    let mut assumptions = vec![];
    match prop {
        "C01" => {
            level = "proof";
            text = "All three AES key sizes, arbitrary key words and arbitrary block: the value graph of the library's encrypt and decrypt equals that of FIPS-197 written from the standard.";
            for r in ["prop_aes_enc_128", "prop_aes_enc_192", "prop_aes_enc_256", "prop_aes_dec_128", "prop_aes_dec_192", "prop_aes_dec_256", "prop_aes_key_words"] {
                b.one(r);
            }
        }
        "C02" => {
            level = "proof";
            text = "All three AES key sizes, arbitrary key and block: decrypt(encrypt(b)) and encrypt(decrypt(b)) normalise to b.";
            for r in ["prop_aes_inv_128", "prop_aes_inv_192", "prop_aes_inv_256"] {
                b.one(r);
            }
        }
        "C03" => {
            text = "RC2 for enumerated key lengths and effective key bits, key bytes and block arbitrary: equal to RFC 2268 in both directions, and each direction inverts the other.";
            let klens: Vec<u128> = (1..=128).collect();
            let mut add = |b: &mut B, k: u128, n: u128| {
                b.p("prop_rc2", &[("klen", k), ("bits", n)]);
                b.p("prop_rc2_inv", &[("klen", k), ("bits", n)]);
            };
            for &k in &klens {
                for n in [1, 7, 8, 9, 40, 63, 64, 128, 129, 1016, 1017, 1023, 1024, 8 * k] {
                    add(&mut b, k, n);
                }
            }
            for n in 1..=1024 {
                for k in [1, 5, 16, 128] {
                    add(&mut b, k, n);
                }
                if thorough {
                    for &k in &klens {
                        add(&mut b, k, n);
                    }
                }
            }
        }
        "C04" => {
            text = "RC5-32 for enumerated key lengths and round counts, key bytes and block arbitrary: equal to Rivest's definition in both directions, and each direction inverts the other.";
            let add = |b: &mut B, k: u128, n: u128| {
                b.p("prop_rc5", &[("klen", k), ("rounds", n)]);
                b.p("prop_rc5_inv", &[("klen", k), ("rounds", n)]);
            };
            for k in 0..=255 {
                for n in [0, 1, 12] {
                    add(&mut b, k, n);
                }
                if thorough {
                    for n in 0..=255 {
                        add(&mut b, k, n);
                    }
                }
            }
            for n in 0..=255 {
                for k in [0, 1, 5, 16] {
                    add(&mut b, k, n);
                }
            }
            add(&mut b, 255, 255);
        }
        "C05" => {
            text = "RC4 for every key length from 1 to 256 with arbitrary key bytes: key stream bytes equal the published algorithm, encryption is xor with it, decryption inverts it, and splitting the data over calls changes nothing.";
            for k in 1..=256 {
                b.p("prop_rc4_encrypt", &[("klen", k), ("n", if thorough { 300 } else { 20 })]);
            }
            for k in [1, 2, 5, 16, 32, 255, 256] {
                b.p("prop_rc4_stream", &[("klen", k), ("n", if thorough { 2000 } else { 530 })]);
                for n in 0..=if thorough { 64 } else { 16 } {
                    for m in [0, 1, 7] {
                        b.p("prop_rc4_split", &[("klen", k), ("n", n), ("m", m)]);
                    }
                }
            }
        }
        "C06" => {
            level = if thorough { "proof" } else { "other" };
            text = "SHA-1, SHA-224, SHA-256, SHA-384 and SHA-512, arbitrary message bytes. Jobs without a q parameter leave the number of whole message blocks symbolic (total length up to about 2^61 bytes): the block loops of implementation and reference are summarised by an inductive argument and the digests compared, so one such job covers every message length with that residue. Quick tier: the residues around the padding boundaries, and every residue with no whole block; thorough: every residue.";
            for (r, blk) in [("prop_sha1", 64), ("prop_sha256", 64), ("prop_sha512", 128), ("prop_sha224", 64), ("prop_sha384", 128)] {
                for x in 0..blk {
                    let near = x < 2 || x >= blk - 18;
                    let tight = [0, 1, blk - 17, blk - 16, blk - 9, blk - 8, blk - 1].contains(&x);
                    let main = r == "prop_sha1" || r == "prop_sha256" || r == "prop_sha512";
                    if thorough || r == "prop_sha1" || (if main { near } else { tight }) {
                        b.p(r, &[("r", x)]);
                    }
                    b.p(r, &[("r", x), ("q", 0)]);
                    if thorough || tight {
                        b.p(r, &[("r", x), ("q", 1)]);
                    }
                }
            }
        }
        "C07" => {
            level = "proof";
            text = "MD2, MD4 and MD5, arbitrary message bytes. Jobs without a q parameter leave the number of whole message blocks symbolic (total length up to about 2^61 bytes): the block loops of implementation and reference are summarised by an inductive argument and the digests compared, so one such job covers every message length with that residue. Every residue is analysed.";
            for (r, blk) in [("prop_md2", 16), ("prop_md4", 64), ("prop_md5", 64)] {
                for x in 0..blk {
                    b.p(r, &[("r", x)]);
                    for q in 0..=if thorough { 6 } else { 2 } {
                        b.p(r, &[("r", x), ("q", q)]);
                    }
                }
            }
        }
        "C08" => {
            text = "PKCS and bit padding for 27 block sizes from 1 to 255, every data length up to and past the block size, arbitrary data bytes and (for removal) arbitrary blocks.";
            let all = [
                (["prop_pkcs_1", "prop_bit_1", "prop_pkcs_unpad_1", "prop_bit_unpad_1"], 1),
                (["prop_pkcs_2", "prop_bit_2", "prop_pkcs_unpad_2", "prop_bit_unpad_2"], 2),
                (["prop_pkcs_3", "prop_bit_3", "prop_pkcs_unpad_3", "prop_bit_unpad_3"], 3),
                (["prop_pkcs_4", "prop_bit_4", "prop_pkcs_unpad_4", "prop_bit_unpad_4"], 4),
                (["prop_pkcs_5", "prop_bit_5", "prop_pkcs_unpad_5", "prop_bit_unpad_5"], 5),
                (["prop_pkcs_7", "prop_bit_7", "prop_pkcs_unpad_7", "prop_bit_unpad_7"], 7),
                (["prop_pkcs_8", "prop_bit_8", "prop_pkcs_unpad_8", "prop_bit_unpad_8"], 8),
                (["prop_pkcs_12", "prop_bit_12", "prop_pkcs_unpad_12", "prop_bit_unpad_12"], 12),
                (["prop_pkcs_16", "prop_bit_16", "prop_pkcs_unpad_16", "prop_bit_unpad_16"], 16),
                (["prop_pkcs_17", "prop_bit_17", "prop_pkcs_unpad_17", "prop_bit_unpad_17"], 17),
                (["prop_pkcs_20", "prop_bit_20", "prop_pkcs_unpad_20", "prop_bit_unpad_20"], 20),
                (["prop_pkcs_24", "prop_bit_24", "prop_pkcs_unpad_24", "prop_bit_unpad_24"], 24),
                (["prop_pkcs_31", "prop_bit_31", "prop_pkcs_unpad_31", "prop_bit_unpad_31"], 31),
                (["prop_pkcs_32", "prop_bit_32", "prop_pkcs_unpad_32", "prop_bit_unpad_32"], 32),
                (["prop_pkcs_33", "prop_bit_33", "prop_pkcs_unpad_33", "prop_bit_unpad_33"], 33),
                (["prop_pkcs_48", "prop_bit_48", "prop_pkcs_unpad_48", "prop_bit_unpad_48"], 48),
                (["prop_pkcs_63", "prop_bit_63", "prop_pkcs_unpad_63", "prop_bit_unpad_63"], 63),
                (["prop_pkcs_64", "prop_bit_64", "prop_pkcs_unpad_64", "prop_bit_unpad_64"], 64),
                (["prop_pkcs_65", "prop_bit_65", "prop_pkcs_unpad_65", "prop_bit_unpad_65"], 65),
                (["prop_pkcs_96", "prop_bit_96", "prop_pkcs_unpad_96", "prop_bit_unpad_96"], 96),
                (["prop_pkcs_127", "prop_bit_127", "prop_pkcs_unpad_127", "prop_bit_unpad_127"], 127),
                (["prop_pkcs_128", "prop_bit_128", "prop_pkcs_unpad_128", "prop_bit_unpad_128"], 128),
                (["prop_pkcs_129", "prop_bit_129", "prop_pkcs_unpad_129", "prop_bit_unpad_129"], 129),
                (["prop_pkcs_192", "prop_bit_192", "prop_pkcs_unpad_192", "prop_bit_unpad_192"], 192),
                (["prop_pkcs_200", "prop_bit_200", "prop_pkcs_unpad_200", "prop_bit_unpad_200"], 200),
                (["prop_pkcs_254", "prop_bit_254", "prop_pkcs_unpad_254", "prop_bit_unpad_254"], 254),
                (["prop_pkcs_255", "prop_bit_255", "prop_pkcs_unpad_255", "prop_bit_unpad_255"], 255),
            ];
            for ([a, c, u, v], n) in all {
                for l in 0..=n + 2 {
                    b.p(a, &[("len", l)]);
                    b.p(c, &[("len", l)]);
                }
                b.one(u);
                b.one(v);
            }
        }
        "C09" => {
            text = "The block driver with an arbitrary (uninterpreted) keyed permutation as cipher and an arbitrary stateful mode, block sizes 4, 8, 16 and 20, every residue of the data length. Encryption jobs without a q parameter leave the number of whole blocks symbolic and hold for every length; decryption is analysed for every enumerated number of blocks and every padding length, ciphertext arbitrary.";
            for (d, t, m, n) in [
                ("prop_driver_4", "prop_roundtrip_4", "prop_misaligned_4", 4),
                ("prop_driver_8", "prop_roundtrip_8", "prop_misaligned_8", 8),
                ("prop_driver_16", "prop_roundtrip_16", "prop_misaligned_16", 16),
                ("prop_driver_20", "prop_roundtrip_20", "prop_misaligned_20", 20),
            ] {
                let dec = match n { 4 => "prop_decrypts_4", 8 => "prop_decrypts_8", 16 => "prop_decrypts_16", _ => "prop_decrypts_20" };
                for pad in 1..=n {
                    for q in 1..=if thorough { 40 } else { 4 } {
                        b.p(dec, &[("pad", pad), ("q", q)]);
                    }
                }
                for r in 0..n {
                    b.p(d, &[("r", r)]);
                    for q in 0..=if thorough { 40 } else { 6 } {
                        b.p(d, &[("r", r), ("q", q)]);
                        b.p(t, &[("r", r), ("q", q)]);
                        if r != 0 {
                            b.p(m, &[("r", r), ("q", q)]);
                        }
                    }
                }
            }
        }
        "C10" => {
            text = "The stream driver over an arbitrary (uninterpreted) key stream, arbitrary data, all pairs of consecutive call lengths up to the bound.";
            let m = if thorough { 48 } else { 16 };
            for n in 0..=m {
                b.p("prop_stream_inv", &[("n", n)]);
                for k in 0..=m {
                    b.p("prop_stream", &[("n", n), ("m", k)]);
                    b.p("prop_stream_lazy", &[("n", n), ("m", k)]);
                }
            }
        }
        "C11" => {
            level = "proof";
            text = "All five hash value types, arbitrary words: bytes are the big-endian words, and converting back returns the words.";
            for r in ["prop_hv160", "prop_hv224", "prop_hv256", "prop_hv384", "prop_hv512"] {
                b.one(r);
            }
        }
        "C12" => {
            text = "All five hash value types: every 2N-digit hex string is read to its bytes, every other length up to 4N+2 and every non-hex character at every position is refused.";
            for (h, l, x, n) in [
                ("prop_hex160", "prop_hexlen160", "prop_hexbad160", 20),
                ("prop_hex224", "prop_hexlen224", "prop_hexbad224", 28),
                ("prop_hex256", "prop_hexlen256", "prop_hexbad256", 32),
                ("prop_hex384", "prop_hexlen384", "prop_hexbad384", 48),
                ("prop_hex512", "prop_hexlen512", "prop_hexbad512", 64),
            ] {
                b.p(h, &[("case", 0)]);
                b.p(h, &[("case", 1)]);
                for k in 0..=4 * n + 2 {
                    if k != 2 * n {
                        b.p(l, &[("n", k)]);
                    }
                }
                for k in 0..2 * n {
                    b.p(x, &[("pos", k)]);
                }
            }
        }
        "C13" => {
            text = "DER reader: every byte string up to the enumerated length (all bytes arbitrary, traces partitioned by tag and length values); longer inputs with the tag fixed and the length bytes and content arbitrary; and longer inputs with enumerated headers (length form, declared length, nesting, siblings) and arbitrary content. Compared with a reference reader; panics are violations.";
            for n in 0..=if thorough { 10 } else { 8 } {
                b.p("prop_asn1_all", &[("n", n)]);
            }
            if !thorough {
                b.p("prop_asn1_all", &[("n", 9)]);
            }
            for tag in [2, 3, 4, 5, 6, 0, 1, 7, 0x13, 0x31, 0x82, 0xb0, 0xff] {
                for n in (1..=24).chain(126..=134).chain(250..=254) {
                    if n < 10 || n % 4 == 0 || n > 120 || thorough {
                        b.p("prop_asn1_prim", &[("tag", tag), ("n", n)]);
                    }
                }
                for form in 0..=20 {
                    for len in [0, 1, 2, 3, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300] {
                        if form == 0 && len > 126 {
                            continue;
                        }
                        for delta in 0..=2 {
                            if len == 0 && delta == 0 || (form == 1 && len + delta > 256) {
                                continue;
                            }
                            for depth in [0, 1, 2] {
                                if depth == 2 && form > 3 && !thorough {
                                    continue;
                                }
                                b.p("prop_asn1_tmpl", &[("tag", tag), ("form", form), ("len", len), ("delta", delta), ("depth", depth), ("sib", depth)]);
                            }
                        }
                    }
                }
            }
            for depth in 0..=70 {
                b.p("prop_asn1_tmpl", &[("tag", 5), ("form", 0), ("len", 0), ("delta", 1), ("depth", depth), ("sib", 0)]);
                b.p("prop_asn1_tmpl", &[("tag", 0x30), ("form", 0), ("len", 0), ("delta", 1), ("depth", depth), ("sib", 1)]);
            }
        }
        "C17" => {
            text = "BigUint for enumerated byte lengths, byte values arbitrary: reading and writing bytes and u128, bit length and bit test, order, sum, sum with a byte, difference (second operand not above the first), shifts by every enumerated amount, and remainder for small bit lengths, each against arithmetic on the bytes.";
            let t = thorough as u128;
            for n in 0..=24 + 40 * t {
                b.p("prop_big_bytes", &[("n", n)]);
            }
            for n in 0..=20 {
                b.p("prop_big_u128", &[("n", n)]);
            }
            for n in 0..=6 + 10 * t {
                for u in 1..=8 {
                    b.p("prop_big_bits", &[("n", n), ("t", u)]);
                }
                b.p("prop_big_add_u8", &[("n", n)]);
                for m in 0..=6 + 10 * t {
                    b.p("prop_big_add", &[("n", n), ("m", m)]);
                }
                for k in (0..=33).chain([40, 47, 48, 49, 63, 64, 65, 128]) {
                    b.p("prop_big_shl", &[("n", n), ("k", k)]);
                    b.p("prop_big_shr", &[("n", n), ("k", k)]);
                }
            }
            for n in 0..=4 {
                for m in 0..=n {
                    b.p("prop_big_sub", &[("n", n), ("m", m), ("op", 0)]);
                    b.p("prop_big_sub", &[("n", n), ("m", m), ("op", 1)]);
                }
                for m in 0..=4 {
                    for (x, y) in (1..=8).flat_map(|x| (1..=8).map(move |y| (x, y))) {
                        if x == y || thorough || n == m && (x == 8 || y == 8) {
                            b.p("prop_big_cmp", &[("n", n), ("m", m), ("t", x), ("u", y)]);
                        }
                    }
                }
            }
            for n in [33, 65, 129, 257] {
                b.p("prop_big_bytes", &[("n", n)]);
            }
            for n in (7..=20).chain([31, 32, 33, 64, 65, 129, 257]) {
                b.p("prop_big_bits", &[("n", n), ("t", 1)]);
                b.p("prop_big_bits", &[("n", n), ("t", 8)]);
                if n <= 33 {
                    b.p("prop_big_add_u8", &[("n", n)]);
                }
                if n <= 65 {
                    for m in [0, 1, 2, 7, 8, 9, 15, 16, 17, 32, 33, n - 1, n, n + 1] {
                        b.p("prop_big_add", &[("n", n), ("m", m)]);
                    }
                    for k in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257] {
                        b.p("prop_big_shl", &[("n", n), ("k", k)]);
                        b.p("prop_big_shr", &[("n", n), ("k", k)]);
                    }
                }
                if n <= if thorough { 129 } else { 65 } {
                    b.p("prop_big_cmp", &[("n", n), ("m", n), ("t", 8), ("u", 8)]);
                    b.p("prop_big_cmp", &[("n", n), ("m", n), ("t", 1), ("u", 1)]);
                    b.p("prop_big_cmp", &[("n", n), ("m", n - 1), ("t", 1), ("u", 8)]);
                    b.p("prop_big_cmp", &[("n", n - 1), ("m", n), ("t", 8), ("u", 1)]);
                }
            }
            for (n, m) in [(5, 5), (6, 6), (5, 3), (7, 3), (8, 4), (9, 4), (12, 2), (16, 1), (17, 1), (8, 8), (9, 8), (9, 9)] {
                if n != m || n < 7 || thorough || n == 9 {
                    b.p("prop_big_sub", &[("n", n), ("m", m), ("op", (n + m) % 2)]);
                }
            }
            for n in 5..=8 {
                for m in 0..=1 {
                    b.p("prop_big_sub", &[("n", n), ("m", m), ("op", 0)]);
                }
            }
            for x in 1..=8 {
                for y in 1..=8 {
                    b.p("prop_big_rem", &[("n", 1), ("t", x), ("m", 1), ("u", y)]);
                    b.p("prop_big_rem", &[("n", 1), ("t", x), ("m", 2), ("u", y)]);
                }
                b.p("prop_big_rem", &[("n", 0), ("t", 1), ("m", 1), ("u", x)]);
                b.p("prop_big_rem", &[("n", 2), ("t", 1), ("m", 1), ("u", 8)]);
            }
        }
        "C14" => {
            text = "PEM text: printing for every data length with arbitrary label and data, reading back, and reading of documents against an independent reader: every short text, small documents with one or two neighbouring characters arbitrary, cut or extended, four lines of eight kinds in every combination, arbitrary base64 text broken into lines. All characters ASCII. The base64 crate is analysed along with the code.";
            for n in (1..=if thorough { 400 } else { 200 }).chain([255, 256, 257, 767, 768, 1000]) {
                for l in [0, 1, 7, 20] {
                    b.p("prop_pem_print", &[("n", n), ("l", l)]);
                }
            }
            for n in (0..=if thorough { 300 } else { 150 }).chain([383, 384, 385]) {
                for l in [0, 1, 2, 5] {
                    b.p("prop_pem_inv", &[("n", n), ("l", l)]);
                }
            }
            for n in 0..=if thorough { 4 } else { 3 } {
                b.p("prop_pem_text", &[("n", n)]);
            }
            for (doc, len) in [(0, 38u128), (1, 53), (2, 31), (3, 54)] {
                for k in 1..=if thorough { 2 } else { 1 } {
                    for pos in 0..=len {
                        b.p("prop_pem_doc", &[("doc", doc), ("pos", pos), ("k", k), ("cut", len.max(pos + k))]);
                    }
                }
                for cut in 0..len {
                    b.p("prop_pem_doc", &[("doc", doc), ("pos", 0), ("k", 0), ("cut", cut)]);
                }
                b.p("prop_pem_doc", &[("doc", doc), ("pos", len), ("k", 2), ("cut", len + 2)]);
            }
            for kinds in 0..4096u128 {
                for nl in 0..2 {
                    if thorough || (kinds + kinds / 8 + kinds / 64 + kinds / 512) % 2 == nl {
                        b.p("prop_pem_lines", &[("kinds", kinds), ("nl", nl)]);
                    }
                }
            }
            for n in 0..=if thorough { 4 } else { 3 } {
                for w in 1..=4 {
                    for pad in 0..=4 {
                        b.p("prop_pem_data", &[("n", n), ("w", w), ("pad", pad)]);
                    }
                }
            }
        }
        "C15" => {
            text = "RSA key documents: numbers arbitrary at enumerated lengths; small documents with every one or two neighbouring bytes arbitrary, cut or extended; enumerated wrong shapes (element counts, algorithm identifiers, versions, unused bits); every label. The DER layer itself is C13; the numbers of a key are observed through equality with keys made from primes and with other imports.";
            for k in 0..3 {
                for n in 0..=if thorough { 6 } else { 4 } {
                    for e in 0..=3 {
                        b.p("prop_key_public", &[("k", k), ("n", n), ("e", e)]);
                    }
                }
                for n in 0..=3 {
                    for d in 0..=3 {
                        for z in 0..2 {
                            b.p("prop_key_private", &[("k", k), ("n", n), ("d", d), ("z", z)]);
                        }
                    }
                }
            }
            for x in 0..=4 {
                for y in 0..=4 {
                    b.p("prop_key_public_inj", &[("a", x), ("b", y), ("top", 0)]);
                    if x > 0 && y > 0 {
                        b.p("prop_key_private_inj", &[("a", x), ("b", y)]);
                    }
                }
            }
            for x in [8, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 300, 512] {
                b.p("prop_key_public_inj", &[("a", x), ("b", x), ("top", 1)]);
                b.p("prop_key_public_inj", &[("a", x), ("b", x + 1), ("top", 1)]);
                b.p("prop_key_private_inj", &[("a", x), ("b", x)]);
                b.p("prop_key_private_inj", &[("a", x), ("b", 3)]);
            }
            for (r, n) in [("prop_key_public_doc", 28), ("prop_key_private_doc", 51)] {
                for pos in 0..=n + 2 {
                    for k in 1..=2 {
                        b.p(r, &[("pos", pos), ("k", k), ("cut", 0)]);
                    }
                }
                for cut in 0..n {
                    b.p(r, &[("pos", 0), ("k", 0), ("cut", cut)]);
                }
            }
            for alg in 0..=10 {
                for top in 0..=4 {
                    for c in 0..=4 {
                        for unused in [0, 1, 7, 255] {
                            b.p("prop_key_public_shape", &[("top", top), ("alg", alg), ("c", c), ("unused", unused)]);
                        }
                    }
                    for c in [0, 1, 7, 8, 9, 10, 11] {
                        for ver in 0..=2 {
                            b.p("prop_key_private_shape", &[("top", top), ("alg", alg), ("c", c), ("ver", ver)]);
                        }
                    }
                }
            }
            for which in 0..2 {
                for n in 0..=16 {
                    b.p("prop_key_label", &[("which", which), ("n", n)]);
                }
            }
        }
        "C16" => {
            text = "OAEP with SHA-256: labels, messages, seeds and data blocks arbitrary at enumerated lengths. Encoding is opened with RFC 8017's steps; decoding is analysed on every data block with the right label hash (by number of leading zeros) and on wrong label hashes, first bytes and lengths. The hash is C06.";
            let ns: Vec<u128> = (66..=70).chain([95, 96, 97, 98, 99, 127, 128, 129, 130, 161, 255, 256, 257, 384, 512]).collect();
            for &n in &ns {
                let max = n - 66;
                for m in (0..=if thorough || n == 128 { max } else { 0 }).chain([1, 2, max / 2, max.saturating_sub(1), max]) {
                    if m <= max {
                        b.p("prop_oaep_encode", &[("l", 0), ("m", m), ("n", n)]);
                    }
                }
                for m in [max + 1, max + 2, n, n + 1] {
                    b.p("prop_oaep_long", &[("m", m), ("n", n)]);
                }
                if n <= 130 {
                    for m in [0, 1, max] {
                        if m <= max {
                            b.p("prop_oaep_inv", &[("l", 0), ("m", m), ("n", n)]);
                        }
                    }
                    let zs: Vec<u128> = if n <= 99 || thorough { (0..=n - 65).collect() } else { vec![0, 1, n - 66, n - 65] };
                    for z in zs {
                        b.p("prop_oaep_decode", &[("l", 0), ("n", n), ("z", z)]);
                    }
                }
            }
            for n in [161, 256] {
                for z in [0, n - 65] {
                    b.p("prop_oaep_decode", &[("l", 0), ("n", n), ("z", z)]);
                }
            }
            // mask longer than 256 hash outputs
            for n in [1024, 2048, 4096, 8224, 8225, 8226, 8257, 8258, 8300] {
                b.p("prop_oaep_encode", &[("l", 0), ("m", 5), ("n", n)]);
            }
            for n in 0..66 {
                b.p("prop_oaep_long", &[("m", 0), ("n", n)]);
                b.p("prop_oaep_len", &[("k", n), ("n", n)]);
            }
            for l in [1, 2, 31, 55, 56, 63, 64, 65, 119, 120, 130] {
                b.p("prop_oaep_encode", &[("l", l), ("m", 3), ("n", 80)]);
                b.p("prop_oaep_inv", &[("l", l), ("m", 3), ("n", 80)]);
                b.p("prop_oaep_decode", &[("l", l), ("n", 70), ("z", 1)]);
            }
            for p in 0..32 {
                b.p("prop_oaep_label", &[("p", p), ("n", 70)]);
            }
            for k in 0..=140 {
                for n in [0, 1, 65, 66, 67, 128, 140] {
                    if k != n {
                        b.p("prop_oaep_len", &[("k", k), ("n", n)]);
                    }
                }
            }
        }
        "C18" => {
            text = "RSA message framing: a recording padding scheme with arbitrary messages; moduli of 1 to 4 bytes, encodings over enumerated bit widths (all values), ciphertexts with and without leading zeros, refusal of encodings not below the modulus for every encoding of the modulus length, for moduli of up to 2048 bits; moduli of up to 33 bytes with fixed numbers but for one bit.";
            for n in [2, 3, 100, 127, 128, 187, 255, 256, 257, 300, 3233, 32767, 32768, 65535, 65536, 70000, 8388607, 8388608, 16777215, 16777216, 4294967295] {
                b.p("prop_rsa_range", &[("n", n)]);
            }
            for (n, bytes) in [8u128, 9, 8, 16, 16, 17, 32, 33, 12, 10, 10, 128, 8, 9, 1, 3, 128, 128, 129, 256, 256, 66].into_iter().enumerate() {
                let n = n as u128;
                if n != 20 {
                    b.p("prop_rsa_range_long", &[("n", n)]);
                }
                if bytes <= if thorough { 66 } else { 33 } {
                    for l in [0, 1, bytes / 2, bytes - 1] {
                        b.p("prop_rsa_encrypt_long", &[("n", n), ("e", 7), ("l", l), ("b", 1)]);
                    }
                    for l in [0, 1, bytes / 2, bytes - 1, bytes, bytes + 1, 2 * bytes] {
                        b.p("prop_rsa_decrypt_long", &[("n", n), ("e", 7), ("l", l), ("b", 1)]);
                    }
                }
            }
            for n in [13, 187, 255, 256, 257, 300, 3233, 65535, 65536, 70001, 16777217, 4294967291] {
                for e in [0, 1, 2, 3] {
                    let w = if n < 16 { 3 } else if thorough { 7 } else { 5 };
                    for l in [0, 1, 3] {
                        b.p("prop_rsa_encrypt_message", &[("n", n), ("e", e), ("b", w), ("l", l)]);
                    }
                    for k in [1, 2, 3, 4, 5, 9] {
                        b.p("prop_rsa_decrypt_message", &[("n", n), ("e", e), ("b", w), ("l", k), ("k", k), ("ok", 1)]);
                    }
                    b.p("prop_rsa_decrypt_message", &[("n", n), ("e", e), ("b", w), ("l", 0), ("k", 2), ("ok", 0)]);
                }
            }
        }
        "C19" => {
            text = "RSA exponentiation: enumerated moduli and exponents, numbers arbitrary in an enumerated bit width (traces partitioned by value), against repeated multiplication; moduli of up to 257 bits (1024 thorough) with exponents of up to 301 bits, numbers of up to 65 bytes with one bit arbitrary and the rest fixed; key pairs made from enumerated primes invert each other in both orders.";
            for n in 2..=40 {
                for e in 0..=if thorough { 9 } else { 5 } {
                    b.p("prop_rsa_pow", &[("n", n), ("e", e), ("b", 5), ("dir", (n + e) % 2)]);
                }
            }
            for (n, e) in [(187, 3), (187, 107), (255, 7), (256, 5), (257, 4), (3233, 17), (3233, 413), (11413, 3533), (65535, 3), (65537, 2), (4294967291, 5)] {
                b.p("prop_rsa_pow", &[("n", n), ("e", e), ("b", if thorough { 8 } else { 4 }), ("dir", 0)]);
                b.p("prop_rsa_pow", &[("n", n), ("e", e), ("b", 3), ("dir", 1)]);
            }
            // bit lengths of the moduli and exponents in harness/src/props/msg.rs
            let mb = [64u128, 65, 61, 127, 128, 129, 255, 257, 96, 73, 80, 1024, 64, 65, 8, 17];
            let eb = [2u128, 5, 17, 34, 65, 131, 257, 2, 1, 33, 32, 301];
            for (n, w) in mb.iter().enumerate() {
                for (e, k) in eb.iter().enumerate() {
                    if k * w * w > if thorough { 1 << 24 } else { 140_000 } {
                        continue;
                    }
                    for l in [0, 1, 8, 9, 16, 17, 33, 65] {
                        if !thorough && (k * w * w * l > 3_000_000 || l % 2 == 0 && l > 0 && e % 3 != 0) {
                            continue;
                        }
                        for at in [0, l.max(1) - 1] {
                            if l < 18 || at == 0 {
                                b.p("prop_rsa_pow_long", &[("n", n as u128), ("e", e as u128), ("l", l), ("at", at), ("b", if thorough { 3 } else { 1 }), ("dir", (l + at) % 2)]);
                            }
                        }
                    }
                }
            }
            for (p, q, e) in [(3, 5, 3), (3, 11, 3), (5, 11, 3), (5, 11, 7), (11, 17, 3), (61, 53, 17), (101, 113, 3533), (2, 7, 5), (7, 13, 5)] {
                for dir in 0..2 {
                    b.p("prop_rsa_pair", &[("p", p), ("q", q), ("e", e), ("b", if thorough { 7 } else { 4 }), ("dir", dir)]);
                }
            }
        }
        _ => return None,
    }
    Some(Plan { level, rule, text, assumptions, jobs: b.jobs })
}

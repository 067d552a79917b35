ALLIN = ["inputs"]
prop("C01", "AES encrypts and decrypts exactly as FIPS-197 prescribes",
 "For every 128-, 192- and 256-bit key and every 16-byte block, AES encryption and decryption produce exactly the block that FIPS-197 defines. The key is read as big-endian 32-bit words.",
 ALLIN, "every key of each of the three sizes and every block",
 "Tests compare a few published vectors; a wrong table entry, a wrong round constant or a step that only matters for some key or block values can pass them.",
 ["src/aes/"], [("cipher rounds, key schedule and tables", "src/aes/*.rs")], "proof",
 "Complete over all keys and blocks: no input is sampled.")
prop("C02", "AES decryption inverts AES encryption for every key and block",
 "For every AES key of every size and every 16-byte block, decrypting an encrypted block returns the block, and encrypting a decrypted block returns it too.",
 ALLIN, "every key of each size and every block",
 "A mistake shared by encryption and decryption tables is visible only for particular byte values in the state.",
 ["src/aes/"], [("encrypt/decrypt round pairs", "src/aes/*.rs")], "proof",
 "Complete over all keys and blocks.")
prop("C03", "RC2 conforms to RFC 2268 and decryption inverts encryption",
 "For every key of 1 to 128 bytes, every effective key length of 1 to 1024 bits and every 8-byte block, RC2 encryption and decryption give the block defined by RFC 2268, and each inverts the other.",
 ALLIN + ["configurations"], "every key length, effective key length, key and block",
 "Key length, effective bits, mask and table indices interact; the published vectors cover eight combinations of 131072.",
 ["src/rc/rc2.rs"], [("key expansion", "src/rc/rc2.rs"), ("mix and mash rounds", "src/rc/rc2.rs")], "other",
 "Key bytes and block arbitrary. quick: all key lengths with 14 effective lengths each, and all effective lengths with 4 key lengths; thorough: all combinations.")
prop("C04", "RC5 conforms to its definition and decryption inverts encryption",
 "For every key of 0 to 255 bytes, every round count from 0 to 255 and every 8-byte block, RC5 with 32-bit words gives the block of Rivest's definition in both directions, and each direction inverts the other.",
 ALLIN + ["configurations"], "every key length, round count, key and block",
 "Round counts and key lengths multiply to 65536 configurations and the data-dependent rotations make each depend on values; tests use a handful.",
 ["src/rc/rc5.rs"], [("key expansion", "src/rc/rc5.rs"), ("rounds", "src/rc/rc5.rs")], "other",
 "Key bytes and block arbitrary. quick: all key lengths with rounds 0, 1, 12 and all round counts with 4 key lengths; thorough: all combinations.")
prop("C05", "RC4 produces the published key stream and is its own inverse",
 "For every RC4 key of 1 to 256 bytes the key stream is that of the published algorithm, encryption is its exclusive-or with the data, and decrypting with the same key returns the data. Splitting data over several calls of one cipher gives the same bytes as one call.",
 ALLIN + ["histories"], "every key and data, and every way of splitting the data over calls",
 "State-permutation mistakes show only for some key lengths or after index wrap-around at 256 bytes of stream.",
 ["src/rc/rc4.rs", "src/lib.rs"], [("key schedule and generator", "src/rc/rc4.rs"), ("stream driver", "src/lib.rs")], "other",
 "Key and data bytes arbitrary; all key lengths 1..256. Stream length bounded: 530 bytes quick, 2000 thorough.")
prop("C06", "SHA-1 and SHA-2 digests conform to FIPS 180-4 for every message",
 "For every message, SHA-1, SHA-224, SHA-256, SHA-384 and SHA-512 return exactly the digest FIPS 180-4 defines. This holds at every message length, including the padding of the last blocks and the encoded bit length.",
 ALLIN, "every message of every length",
 "Padding splits into cases by length modulo the block size and the length field by magnitude; tests hash a few short strings.",
 ["src/sha/"], [("padding", "src/sha/pad.rs, src/sha/sha2.rs"), ("compression functions", "src/sha/sha1.rs, src/sha/sha2.rs")], "other",
 "Message bytes arbitrary; number of whole blocks symbolic (any length up to about 2^61 bytes) by loop summaries. quick: SHA-1 every residue, the others the residues around the padding boundaries, every residue with no whole block; thorough: every residue of every hash.")
prop("C07", "MD2, MD4 and MD5 digests conform to RFC 1319-1321 for every message",
 "For every message, MD2, MD4 and MD5 return exactly the digest defined by RFC 1319, RFC 1320 and RFC 1321, at every message length.",
 ALLIN, "every message of every length",
 "Padding, checksum and length-field cases depend on the length modulo the block size; tests hash the RFC's few strings.",
 ["src/md/"], [("padding and checksum", "src/md/*.rs"), ("compression functions", "src/md/*.rs")], "proof",
 "Message bytes arbitrary, every residue of the length modulo the block size, number of whole blocks symbolic (any length up to about 2^61 bytes) by loop summaries.")
prop("C08", "Padding is unambiguous: removing it recovers the data for every length",
 "For every block size and every data shorter than a block, PKCS padding appends the pad count in every pad byte and bit padding appends 0x80 and zeros, and removing the padding returns exactly the data length. A full or oversized final chunk is refused, as is a block that carries no valid pad length or no marker.",
 ALLIN + ["configurations"], "every block size, data length and content; every block for removal",
 "The number of (block size, length, content) combinations is unbounded and data bytes may imitate padding.",
 ["src/pad.rs"], [("PKCS padding", "src/pad.rs"), ("bit padding", "src/pad.rs")], "other",
 "Data and blocks arbitrary; block sizes 1, 4, 8, 16, 32, 64, 128, 255; every length 0..N+2.")
prop("C09", "Block encryption processes each padded block once, in order, and inverts",
 "For every block cipher, every (possibly stateful) mode and every plaintext, encryption emits the mode's output for each block of the padded plaintext in order, and decryption with the same cipher and a fresh mode returns exactly the plaintext. A ciphertext that is not a whole number of blocks is refused.",
 ALLIN + ["programs"], "every cipher, mode, plaintext and ciphertext length",
 "Tests use one or two ciphers with ECB; a stateful mode or an exact multiple of the block size exercises different paths.",
 ["src/lib.rs", "src/pad.rs"], [("block driver", "src/lib.rs BlockEncryption"), ("ECB mode", "src/lib.rs EcbMode")], "other",
 "Cipher and mode are uninterpreted functions, data arbitrary; block sizes 4, 8, 16, 20; every length residue, whole blocks 0..6 (thorough 0..40).")
prop("C10", "Stream encryption uses one key byte per data byte, in order, across calls",
 "For every key stream and all data, output byte i is data byte i xor key byte i, a later call continues where the earlier one stopped, and no key byte is consumed before its data byte is requested. Applying the same key stream again restores the data.",
 ALLIN + ["histories"], "every key stream, data and sequence of calls",
 "Loss or duplication of key bytes depends on how calls are split and how far a consumer reads.",
 ["src/lib.rs"], [("stream driver", "src/lib.rs StreamCipher")], "other",
 "Key stream uninterpreted, data arbitrary; all pairs of call lengths up to 16 (thorough 48).")
prop("C11", "Hash values convert between words and bytes without loss, big-endian",
 "For every hash value of every size, its bytes are its words in big-endian order and converting back to words returns the same words.",
 ALLIN, "every value of each hash size",
 "A conversion in one direction is never exercised by digest tests, and byte order mistakes can cancel in a round trip.",
 ["src/sha/hash.rs"], [("word/byte conversion", "src/sha/hash.rs")], "proof",
 "Complete over all values of all five sizes.")
prop("C12", "Hash values parse from hex exactly: right length, only hex digits",
 "For every hash size, a string of exactly two hex digits per byte, in either letter case, is read to the bytes it denotes, and every string of another length or containing a non-hex character is refused with an error.",
 ALLIN, "every string and hash size",
 "The set of malformed strings is unbounded and position-dependent; tests try one or two.",
 ["src/sha/hash.rs"], [("hex import", "src/sha/hash.rs FromHex")], "other",
 "String contents arbitrary; lengths 0..4N+2; the non-hex character at every position.")
prop("C13", "The DER reader accepts exactly well-formed input and never panics",
 "For every byte string, reading it as DER returns exactly the values a reader of the supported types (integer, bit string, octet string, null, object identifier, sequence) must return, with short and long lengths, nesting and siblings handled, or an error. Truncated, oversized, unknown or too deeply nested input is refused with an error and nothing makes it panic.",
 ALLIN, "every byte string",
 "Malformed input is unbounded; each length form, truncation point and nesting depth takes its own path.",
 ["src/pem/asn1.rs"], [("DER parsing", "src/pem/asn1.rs")], "other",
 "All strings up to 9 bytes (thorough 10); longer ones by tag with arbitrary length bytes and content up to 254 bytes, and by template: 13 tags, 21 length forms, 14 lengths, excess and missing bytes, depth up to 70. Content arbitrary.")
prop("C14", "PEM text is read and written exactly: one labelled block, base64 in 64-character lines",
 "For every label and data, the printed document is the BEGIN line, the base64 of the data in lines of 64 characters and the END line, and reading it back returns the same label and data. For every text, reading succeeds exactly when there is one BEGIN line and after it one END line with the same label and valid base64 between them, ignoring other lines and white space around lines, and returns that label and data. Anything else is refused with an error and nothing makes it panic.",
 ALLIN, "every label, data and text",
 "Line breaks, white space, padding and misplaced lines combine without bound; tests try about fifteen documents.",
 ["src/pem/mod.rs"], [("reading", "src/pem/mod.rs extract_pem_pieces"), ("writing", "src/pem/mod.rs Display")], "other",
 "ASCII text. Printing: data of 1..200 bytes and six more lengths, four label lengths; reading back 0..150; reading: all texts up to 3 characters (thorough 4), four documents with one (thorough two) arbitrary characters, cut or extended, all 4096 combinations of four lines of eight kinds, arbitrary base64 text up to 3 (thorough 4) characters and padding broken into lines. The base64 crate is analysed together with the code.")
prop("C15", "RSA key documents give exactly the numbers they contain, or an error",
 "For every PEM document, importing a public or private RSA key succeeds exactly when label, algorithm identifier, version and structure are those of a public key info or private key info for RSA, and the key then has exactly the modulus and exponent written in the document. Anything else is refused with an error and nothing makes the import panic.",
 ALLIN, "every label and document",
 "Accepting one wrong element, or reading a neighbouring number, goes unnoticed by tests that import one or two good keys.",
 ["src/rsa/asn1.rs", "src/rsa/mod.rs", "src/pem/asn1.rs"], [("key import", "src/rsa/asn1.rs"), ("keys from numbers", "src/rsa/mod.rs")], "other",
 "Numbers arbitrary at enumerated byte lengths; small documents with every one or two neighbouring bytes arbitrary, cut or extended; enumerated wrong shapes; every label up to 12 characters. The DER layer itself is C13.")
prop("C16", "OAEP padding follows RFC 8017 and refuses every malformed encoding",
 "For every label and every message that fits, the encoding opens by RFC 8017 (SHA-256, MGF1) to the label hash, zeros, the byte 1 and the message, and decoding returns the message. Messages that do not fit are refused. Decoding refuses with an error, without a panic, every encoding with a wrong label hash, first byte, separator or length.",
 ALLIN, "every label, message, modulus length and encoding",
 "Malformed encodings are only refused if each check is in place, and lengths around the hash size take their own paths.",
 ["src/rsa/oaep.rs", "src/rsa/mgf.rs", "src/rsa/pad.rs"], [("encoding and decoding", "src/rsa/oaep.rs"), ("mask generation", "src/rsa/mgf.rs")], "other",
 "Labels, messages, seeds and data blocks arbitrary; modulus lengths 66..70 and 15 more up to 512 bytes, all message lengths at the ends of the range, every number of leading zeros. The hash is C06.")
prop("C17", "Big integers compute the arithmetic of the numbers they denote",
 "For every pair of numbers, reading and writing bytes or u128, bit length, bit test, order and equality, addition, subtraction of a number not larger, left and right shift and remainder give exactly the mathematical result, in canonical form without leading zeros.",
 ALLIN, "every number and shift amount",
 "Carries, borrows and length changes depend on byte values in rare combinations; tests use a few numbers.",
 ["src/big/uint.rs"], [("arithmetic", "src/big/uint.rs")], "other",
 "Byte values arbitrary, byte lengths enumerated: reading/writing 0..24, addition and shifts up to 6 bytes (thorough 64 and 16), shifts by 0..33 and eight more amounts, subtraction and order up to 4 bytes, remainder up to one byte by one byte and one nine-bit case. Longer operands are not covered.")
prop("C18", "RSA messages pass through the padding unchanged and at the length of the modulus",
 "For every key and padding scheme, message encryption hands the message and the modulus length in bytes to the padding, encrypts the number its output denotes and returns the result in exactly that many bytes. Message decryption hands the decrypted number, with leading zeros up to that length, to the padding and returns its result. An encoding that is not below the modulus is refused.",
 ALLIN + ["programs"], "every modulus, padding scheme, message and ciphertext",
 "Leading zeros appear in about one of 256 ciphertexts, and only for some moduli does the bit length matter.",
 ["src/rsa/mod.rs"], [("message framing", "src/rsa/mod.rs encrypt_message, decrypt_message")], "other",
 "A recording padding scheme with arbitrary messages; 21 moduli of 1 to 4 bytes around the byte boundaries; encodings arbitrary within an enumerated bit width.")
prop("C19", "RSA computes modular powers, and the two keys of a pair invert each other",
 "For every modulus, exponent and number, RSA encryption and decryption return the number raised to the exponent modulo the modulus. For keys made from two different primes and an exponent coprime to their Carmichael value, each key inverts the other on every number below the modulus.",
 ALLIN, "every modulus, exponent and number; every pair of primes",
 "Reduction mistakes show for rare operand relations, such as a sum equal to the modulus; tests use a handful of numbers.",
 ["src/rsa/mod.rs", "src/big/uint.rs"], [("modular power", "src/rsa/mod.rs pow_mod, mul_mod"), ("key generation", "src/rsa/mod.rs create_keys")], "other",
 "Numbers arbitrary in an enumerated bit width; moduli 2..40 with exponents 0..5 (thorough 0..9), 11 larger pairs, nine pairs of primes. Full-size keys are not covered.")

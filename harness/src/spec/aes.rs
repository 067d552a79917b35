//! FIPS-197, written from the standard (inversion by exponentiation, affine map by definition).
pub const fn gmul(a: u8, b: u8) -> u8 {
    let mut r = 0u8;
    let mut i = 0;
    let mut x = a;
    while i < 8 {
        if (b >> i) & 1 == 1 {
            r ^= x;
        }
        let hi = x >> 7;
        x = (x << 1) ^ (hi * 0x1b);
        i += 1;
    }
    r
}
const fn ginv(a: u8) -> u8 {
    // a^254
    let mut r = 1u8;
    let mut i = 0;
    while i < 254 {
        r = gmul(r, a);
        i += 1;
    }
    r
}
const fn sub1(a: u8) -> u8 {
    let b = ginv(a);
    let mut r = 0u8;
    let mut i = 0;
    while i < 8 {
        let bit = (b >> i ^ b >> ((i + 4) % 8) ^ b >> ((i + 5) % 8) ^ b >> ((i + 6) % 8) ^ b >> ((i + 7) % 8) ^ 0x63 >> i) & 1;
        r |= bit << i;
        i += 1;
    }
    r
}
pub const SB: [u8; 256] = {
    let mut t = [0; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = sub1(i as u8);
        i += 1;
    }
    t
};
pub const ISB: [u8; 256] = {
    let mut t = [0; 256];
    let mut i = 0;
    while i < 256 {
        t[SB[i] as usize] = i as u8;
        i += 1;
    }
    t
};
const fn mult(c: u8) -> [u8; 256] {
    let mut t = [0; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = gmul(i as u8, c);
        i += 1;
    }
    t
}
const M2: [u8; 256] = mult(2);
const M3: [u8; 256] = mult(3);
const M9: [u8; 256] = mult(9);
const MB: [u8; 256] = mult(11);
const MD: [u8; 256] = mult(13);
const ME: [u8; 256] = mult(14);

/// key schedule: 4*(rounds+1) words
pub fn schedule(key: &[u8]) -> Vec<[u8; 4]> {
    let nk = key.len() / 4;
    let rounds = nk + 6;
    let mut w: Vec<[u8; 4]> = Vec::new();
    let mut rcon = 1u8;
    let mut i = 0;
    while i < 4 * (rounds + 1) {
        if i < nk {
            w.push([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]]);
        } else {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [SB[t[1] as usize] ^ rcon, SB[t[2] as usize], SB[t[3] as usize], SB[t[0] as usize]];
                rcon = gmul(rcon, 2);
            } else if nk > 6 && i % nk == 4 {
                t = [SB[t[0] as usize], SB[t[1] as usize], SB[t[2] as usize], SB[t[3] as usize]];
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        i += 1;
    }
    w
}
fn add_key(s: &mut [u8; 16], w: &[[u8; 4]], round: usize) {
    let mut c = 0;
    while c < 4 {
        let mut r = 0;
        while r < 4 {
            s[4 * c + r] ^= w[4 * round + c][r];
            r += 1;
        }
        c += 1;
    }
}
pub fn encrypt(key: &[u8], block: [u8; 16]) -> [u8; 16] {
    let w = schedule(key);
    let rounds = key.len() / 4 + 6;
    let mut s = block;
    add_key(&mut s, &w, 0);
    let mut round = 1;
    while round <= rounds {
        let mut t = [0u8; 16];
        let mut c = 0;
        while c < 4 {
            let mut r = 0;
            while r < 4 {
                t[4 * c + r] = SB[s[4 * ((c + r) % 4) + r] as usize];
                r += 1;
            }
            c += 1;
        }
        if round < rounds {
            let mut c = 0;
            while c < 4 {
                let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                let mut r = 0;
                while r < 4 {
                    t[4 * c + r] = M2[a[r] as usize] ^ M3[a[(r + 1) % 4] as usize] ^ a[(r + 2) % 4] ^ a[(r + 3) % 4];
                    r += 1;
                }
                c += 1;
            }
        }
        s = t;
        add_key(&mut s, &w, round);
        round += 1;
    }
    s
}
pub fn decrypt(key: &[u8], block: [u8; 16]) -> [u8; 16] {
    let w = schedule(key);
    let rounds = key.len() / 4 + 6;
    let mut s = block;
    let mut round = rounds;
    while round >= 1 {
        add_key(&mut s, &w, round);
        if round < rounds {
            let mut c = 0;
            while c < 4 {
                let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                let mut r = 0;
                while r < 4 {
                    s[4 * c + r] = ME[a[r] as usize] ^ MB[a[(r + 1) % 4] as usize] ^ MD[a[(r + 2) % 4] as usize] ^ M9[a[(r + 3) % 4] as usize];
                    r += 1;
                }
                c += 1;
            }
        }
        let mut t = [0u8; 16];
        let mut c = 0;
        while c < 4 {
            let mut r = 0;
            while r < 4 {
                t[4 * ((c + r) % 4) + r] = ISB[s[4 * c + r] as usize];
                r += 1;
            }
            c += 1;
        }
        s = t;
        round -= 1;
    }
    add_key(&mut s, &w, 0);
    s
}

use crate::verif;
use base64::prelude::*;
use cryptography::pem::PEM;
use std::str::FromStr;

fn text(tag: &str, n: usize) -> String {
    let mut v = verif::vec(tag, n);
    let mut i = 0;
    while i < n {
        v[i] &= 127;
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/// RFC 4648 with padding
fn encode(d: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < d.len() {
        let at = |j: usize| if j < d.len() { d[j] as usize } else { 0 };
        let x = at(i) << 16 | at(i + 1) << 8 | at(i + 2);
        o.push(ALPHABET[x >> 18 & 63]);
        o.push(ALPHABET[x >> 12 & 63]);
        o.push(if i + 1 < d.len() { ALPHABET[x >> 6 & 63] } else { b'=' });
        o.push(if i + 2 < d.len() { ALPHABET[x & 63] } else { b'=' });
        i += 3;
    }
    o
}
pub fn prop_pem_b64() {
    let d = verif::vec("d", verif::param("n"));
    let e = BASE64_STANDARD.encode(&d);
    verif::require_eq(e.as_bytes(), &encode(&d)[..], "base64");
}
pub fn prop_pem_print() {
    let d = verif::vec("d", verif::param("n"));
    let label = text("label", verif::param("l"));
    let e = encode(&d);
    let mut want = Vec::new();
    want.extend_from_slice(b"-----BEGIN ");
    want.extend_from_slice(label.as_bytes());
    want.extend_from_slice(b"-----\n");
    let mut i = 0;
    while i < e.len() {
        let k = if e.len() - i < 64 { e.len() - i } else { 64 };
        want.extend_from_slice(&e[i..i + k]);
        want.push(b'\n');
        i += k;
    }
    if e.is_empty() {
        want.push(b'\n');
    }
    want.extend_from_slice(b"-----END ");
    want.extend_from_slice(label.as_bytes());
    want.extend_from_slice(b"-----");
    let p = PEM { label, data: d };
    let got = p.to_string();
    verif::require_eq(got.as_bytes(), &want[..], "printed document");
}
/// the six bits of a base64 character
fn six(c: u8) -> Option<u32> {
    if c >= b'A' && c <= b'Z' {
        Some((c - b'A') as u32)
    } else if c >= b'a' && c <= b'z' {
        Some((c - b'a') as u32 + 26)
    } else if c >= b'0' && c <= b'9' {
        Some((c - b'0') as u32 + 52)
    } else if c == b'+' {
        Some(62)
    } else if c == b'/' {
        Some(63)
    } else {
        None
    }
}
/// RFC 4648 with padding, unused bits zero
fn decode(t: &[u8]) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    if t.len() % 4 != 0 {
        return None;
    }
    let mut i = 0;
    while i < t.len() {
        let last = i + 4 == t.len();
        let (a, b) = (six(t[i])?, six(t[i + 1])?);
        if last && t[i + 2] == b'=' && t[i + 3] == b'=' {
            if b & 15 != 0 {
                return None;
            }
            o.push((a << 2 | b >> 4) as u8);
            return Some(o);
        }
        let c = six(t[i + 2])?;
        if last && t[i + 3] == b'=' {
            if c & 3 != 0 {
                return None;
            }
            o.push((a << 2 | b >> 4) as u8);
            o.push((b << 4 | c >> 2) as u8);
            return Some(o);
        }
        let d = six(t[i + 3])?;
        o.push((a << 2 | b >> 4) as u8);
        o.push((b << 4 | c >> 2) as u8);
        o.push((c << 6 | d) as u8);
        i += 4;
    }
    Some(o)
}
fn white(b: u8) -> bool {
    b == b' ' || (b >= 9 && b <= 13)
}
fn trim(mut l: &[u8]) -> &[u8] {
    while l.len() > 0 && white(l[0]) {
        l = &l[1..];
    }
    while l.len() > 0 && white(l[l.len() - 1]) {
        l = &l[..l.len() - 1];
    }
    l
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    let mut ok = true;
    while i < a.len() {
        ok = ok & (a[i] == b[i]);
        i += 1;
    }
    ok
}
fn starts(l: &[u8], p: &[u8]) -> bool {
    l.len() >= p.len() && eq(&l[..p.len()], p)
}
fn label_of(l: &[u8]) -> Option<&[u8]> {
    if l.len() >= 5 && eq(&l[l.len() - 5..], b"-----") { Some(&l[..l.len() - 5]) } else { None }
}
/// one BEGIN line, then one END line, with equal labels; base64 in between; other lines ignored
fn read(t: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (mut begin, mut end): (Option<&[u8]>, Option<&[u8]>) = (None, None);
    let mut b64 = Vec::new();
    let mut from = 0;
    while from < t.len() {
        let mut to = from;
        while to < t.len() && t[to] != b'\n' {
            to += 1;
        }
        let l = trim(&t[from..to]);
        from = to + 1;
        if starts(l, b"-----BEGIN ") {
            if begin.is_some() {
                return None;
            }
            begin = Some(label_of(&l[11..])?);
        } else if starts(l, b"-----END ") {
            if begin.is_none() || end.is_some() {
                return None;
            }
            end = Some(label_of(&l[9..])?);
        } else if begin.is_some() && end.is_none() {
            b64.extend_from_slice(l);
        }
    }
    let (b, e) = (begin?, end?);
    if !eq(b, e) {
        return None;
    }
    Some((b.to_vec(), decode(&b64)?))
}
fn check(t: Vec<u8>) {
    let want = read(&t);
    let t = unsafe { String::from_utf8_unchecked(t) };
    match (PEM::from_str(&t), want) {
        (Ok(p), Some((l, d))) => {
            verif::require_eq(p.label.as_bytes(), &l[..], "label");
            verif::require_eq(&p.data[..], &d[..], "data");
        }
        (Err(_), None) => verif::require(true, "malformed documents are refused"),
        (Ok(_), None) => verif::unreachable("malformed documents are refused"),
        (Err(_), Some(_)) => verif::unreachable("well-formed documents are read"),
    }
}
pub fn prop_pem_inv() {
    let data = verif::vec("d", verif::param("n"));
    let label = text("label", verif::param("l"));
    let mut i = 0;
    while i < label.len() {
        verif::assume(label.as_bytes()[i] != b'\n');
        i += 1;
    }
    let (l, d) = (label.clone(), data.clone());
    let t = PEM { label, data }.to_string();
    verif::paths(true);
    match PEM::from_str(&t) {
        Ok(p) => {
            verif::require_eq(p.label.as_bytes(), l.as_bytes(), "label");
            verif::require_eq(&p.data[..], &d[..], "data");
        }
        Err(_) => verif::unreachable("a printed document is read"),
    }
}
/// every text of n ASCII characters
pub fn prop_pem_text() {
    let t = text("t", verif::param("n")).into_bytes();
    verif::paths(true);
    check(t);
}
/// a small document with `k` characters from position `pos` on arbitrary, cut to `cut` characters
pub fn prop_pem_doc() {
    let (which, pos, k, cut) = (verif::param("doc"), verif::param("pos"), verif::param("k"), verif::param("cut"));
    let d: &[u8] = match which {
        0 => b"-----BEGIN A-----\nQUI=\n-----END A-----",
        1 => b"x\n-----BEGIN A-----\r\n QU\r\nJD \r\n\t-----END A----- \r\ny\n",
        2 => b"-----BEGIN -----\n-----END -----",
        _ => b"-----BEGIN AB C-----\nQUJDREVG\nQQ==\n-----END AB C-----\n",
    };
    let x = text("x", k).into_bytes();
    let mut t = Vec::new();
    let mut i = 0;
    while i < cut {
        if i >= pos && i < pos + k {
            t.push(x[i - pos]);
        } else if i < d.len() {
            t.push(d[i]);
        }
        i += 1;
    }
    verif::paths(true);
    check(t);
}
/// four lines of enumerated kinds
pub fn prop_pem_lines() {
    let mut s = verif::param("kinds");
    let nl = verif::param("nl");
    let mut t: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < 4 {
        let x = text(if i == 0 { "a" } else if i == 1 { "b" } else if i == 2 { "c" } else { "d" }, 1);
        let c = x.as_bytes()[0];
        match s % 8 {
            0 => t.extend_from_slice(b"-----BEGIN A-----"),
            1 => t.extend_from_slice(b"-----END A-----"),
            2 => {
                t.extend_from_slice(b"-----BEGIN ");
                t.push(c);
                t.extend_from_slice(b"-----");
            }
            3 => {
                t.extend_from_slice(b"-----END ");
                t.push(c);
                t.extend_from_slice(b"-----");
            }
            4 => {
                t.extend_from_slice(b"QUJ");
                t.push(c);
            }
            5 => {
                t.push(c);
                t.extend_from_slice(b"-----END A-----");
            }
            6 => {
                t.extend_from_slice(b"-----BEGIN A-----");
                t.push(c);
            }
            _ => t.push(c),
        }
        if nl == 1 {
            t.push(b'\r');
        }
        t.push(b'\n');
        s /= 8;
        i += 1;
    }
    verif::paths(true);
    check(t);
}
/// base64 text of n arbitrary characters, broken into lines of w
pub fn prop_pem_data() {
    let (n, w, pad) = (verif::param("n"), verif::param("w"), verif::param("pad"));
    let x = text("x", n).into_bytes();
    let mut t = b"-----BEGIN A-----\n".to_vec();
    let mut i = 0;
    while i < n + pad {
        t.push(if i < n { x[i] } else { b'=' });
        i += 1;
        if i % w == 0 {
            t.push(b'\n');
        }
    }
    t.extend_from_slice(b"\n-----END A-----\n");
    verif::paths(true);
    check(t);
}

//! Summaries of standard-library operations and of the harness intrinsics.
use crate::interp::*;
use crate::ir::{self, Ty};
use crate::term::*;
use crate::value::*;
use std::rc::Rc;

/// split at top-level occurrences of "::" (outside brackets)
fn split_path(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let mut depth = 0i32;
    let mut out = vec![];
    let mut cur = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as char;
        match c {
            '<' | '[' | '(' => depth += 1,
            '>' if i > 0 && b[i - 1] == b'-' => {}
            '>' | ']' | ')' => depth -= 1,
            _ => {}
        }
        if depth == 0 && c == ':' && i + 1 < b.len() && b[i + 1] == b':' {
            out.push(std::mem::take(&mut cur));
            i += 2;
            continue;
        }
        cur.push(c);
        i += 1;
    }
    out.push(cur);
    out
}
fn strip_generics(s: &str) -> String {
    // "std::vec::Vec<T, A>" -> "Vec"; keeps references, slices and arrays as written
    let s = s.trim();
    let s = s.strip_prefix("dyn ").unwrap_or(s);
    if s.starts_with('[') || s.starts_with('&') || s.starts_with('(') || s.starts_with('*') {
        return s.to_string();
    }
    let parts = split_path(s);
    let last = parts.iter().rev().find(|p| !p.starts_with('<')).cloned().unwrap_or_default();
    match last.find('<') {
        Some(i) => last[..i].to_string(),
        None => last,
    }
}
pub fn norm(name: &str) -> String {
    let parts = split_path(name);
    let n = parts.len();
    let method = parts[n - 1].clone();
    if n >= 2 {
        let prev = &parts[n - 2];
        if let Some(inner) = prev.strip_prefix('<').and_then(|x| x.strip_suffix('>')) {
            if let Some(rest) = inner.strip_prefix("impl ") {
                if let Some(i) = find_top(rest, " for ") {
                    return format!("{}:{}::{}", strip_generics(&rest[i + 5..]), strip_generics(&rest[..i]), method);
                }
                return format!("{}::{}", strip_generics(rest), method);
            }
            if let Some(i) = find_top(inner, " as ") {
                return format!("{}:{}::{}", strip_generics(&inner[..i]), strip_generics(&inner[i + 4..]), method);
            }
            // turbofish of the preceding path element
            if n >= 3 {
                return format!("{}::{}", strip_generics(&parts[n - 3]), method);
            }
        }
        return format!("{}::{}", strip_generics(prev), method);
    }
    method
}
fn find_top(s: &str, pat: &str) -> Option<usize> {
    let mut depth = 0;
    let b = s.as_bytes();
    for i in 0..b.len() {
        match b[i] {
            b'<' | b'[' | b'(' => depth += 1,
            b'>' if i > 0 && b[i - 1] == b'-' => {}
            b'>' | b']' | b')' => depth -= 1,
            _ => {}
        }
        if depth == 0 && s[i..].starts_with(pat) {
            return Some(i);
        }
    }
    None
}

fn int_ty(s: &str) -> Option<(u16, bool)> {
    Some(match s {
        "u8" => (8, false),
        "u16" => (16, false),
        "u32" => (32, false),
        "u64" | "usize" => (64, false),
        "u128" => (128, false),
        "i8" => (8, true),
        "i16" => (16, true),
        "i32" => (32, true),
        "i64" | "isize" => (64, true),
        "i128" => (128, true),
        _ => return None,
    })
}

macro_rules! one {
    ($st:expr, $v:expr) => {{
        let v = $v;
        let s = $st.clone();
        return Ok(Some(vec![(s, Out::Val(v))]));
    }};
}

impl<'p> Interp<'p> {
    fn rptr(&self, v: &V) -> Res<Ptr> {
        match v {
            V::R(p) => Ok((**p).clone()),
            v => unsup(format!("pointer expected, found {}", brief(v))),
        }
    }
    /// strip references until something that is not a reference
    pub fn deref_all(&mut self, st: &State, v: &V) -> Res<V> {
        let mut v = v.clone();
        for _ in 0..6 {
            match &v {
                V::R(p) => {
                    let p = p.clone();
                    v = self.load(st, &p)?;
                }
                _ => break,
            }
        }
        Ok(v)
    }
    fn str_of(&mut self, st: &State, v: &V) -> Res<String> {
        let v = self.deref_all(st, v)?;
        match v {
            V::Q(q) => match &*q {
                Seq::E(e) => {
                    let mut b = vec![];
                    for x in e {
                        let t = self.scalar(x)?;
                        match self.cx.cv(t) {
                            Some(c) => b.push(c as u8),
                            None => return unsup("symbolic tag"),
                        }
                    }
                    Ok(String::from_utf8_lossy(&b).into_owned())
                }
                _ => unsup("tag"),
            },
            _ => unsup("tag"),
        }
    }
    /// range argument -> (start, end) relative to a sequence of length n; None parts resolved
    fn range_arg(&mut self, f: &ir::Func, v: &V, n: T) -> Res<Option<(T, T)>> {
        let mut kind = None;
        for g in &f.gargs {
            if let ir::GArg::Ty(t) = g {
                if let Ty::Adt(name, ..) = self.ty(*t) {
                    if name.contains("Range") {
                        kind = Some(name.rsplit("::").next().unwrap().to_string());
                    }
                }
            }
        }
        let Some(kind) = kind else { return Ok(None) };
        let fields: Vec<V> = match v {
            V::A(x) => x.to_vec(),
            _ => return unsup("range value"),
        };
        let z = self.cx.us(0);
        let s = |i: &mut Self, k: usize| -> Res<T> { i.scalar(&fields[k]) };
        Ok(Some(match kind.as_str() {
            "RangeFull" => (z, n),
            "RangeTo" => (z, s(self, 0)?),
            "RangeFrom" => (s(self, 0)?, n),
            "Range" => (s(self, 0)?, s(self, 1)?),
            "RangeInclusive" => {
                let e = s(self, 1)?;
                (s(self, 0)?, self.cx.addc(e, 1))
            }
            "RangeToInclusive" => {
                let e = s(self, 0)?;
                (z, self.cx.addc(e, 1))
            }
            o => return unsup(format!("range kind {o}")),
        }))
    }
    /// `seq[arg]` as a pointer; splits on the bounds check
    fn index(&mut self, st: &State, f: &ir::Func, base: &V, arg: &V, checked: bool) -> Res<Outs> {
        let p = self.rptr(base)?;
        let (off, n) = self.bounds_of(st, &p)?;
        let range = if let V::S(_) = arg { None } else { self.range_arg(f, arg, n)? };
        let mut outs = vec![];
        let (ok, res) = match range {
            None => {
                let i = self.scalar(arg)?;
                let c = self.cx.lt(i, n);
                let ix = self.cx.add(off, i);
                (c, V::ptr(p.with(Step::I(ix))))
            }
            Some((s, e)) => {
                let c1 = self.cx.lt(e, s);
                let c2 = self.cx.lt(n, e);
                let bad = self.cx.or(c1, c2);
                let c = self.cx.not(bad);
                // decide the two parts separately first
                let c = if self.try_decide(st, c1) == Some(false) { self.cx.not(c2) } else { c };
                let o = self.cx.add(off, s);
                let l = self.cx.sub(e, s);
                let mut q = p.unsliced();
                q.slice = Some((o, l));
                (c, V::ptr(q))
            }
        };
        let (a, b) = self.split(st, ok)?;
        if let Some(s) = a {
            outs.push((s, Out::Val(if checked { V::some(res) } else { res })));
        }
        if let Some(s) = b {
            if checked {
                outs.push((s, Out::Val(V::none())));
            } else {
                let pi = self.panic(&s, "index out of bounds");
                outs.push((s, Out::Panic(pi)));
            }
        }
        Ok(outs)
    }
    fn slice_iter(&mut self, st: &State, v: &V) -> Res<V> {
        let p = self.rptr(v)?;
        let (o, n) = self.bounds_of(st, &p)?;
        let e = self.cx.add(o, n);
        Ok(V::I(Rc::new(It::Slice { base: p.unsliced(), off: o, end: e })))
    }
    fn set_it(&mut self, st: &mut State, p: &Ptr, it: It) -> Res<()> {
        let m = self.get_mut(st, p)?;
        *m = V::I(Rc::new(it));
        Ok(())
    }
    fn it_next(&mut self, st: &State, p: &Ptr, back: bool) -> Res<Outs> {
        let it = match self.load(st, p)? {
            V::I(i) => i,
            v => return unsup(format!("iterator expected, found {}", brief(&v))),
        };
        let mut outs = vec![];
        let (off, end) = match &*it {
            It::Slice { off, end, .. } | It::Vals { off, end, .. } | It::Chunks { off, end, .. } => (*off, *end),
            It::Windows { off, end, n, .. } => {
                // windows left iff end - off >= n
                let l = self.cx.sub(*end, *off);
                let c = self.cx.lt(l, *n);
                let (a, b) = self.split(st, c)?;
                if let Some(s) = a {
                    outs.push((s, Out::Val(V::none())));
                }
                if let Some(mut s) = b {
                    if back {
                        return unsup("windows back");
                    }
                    if let It::Windows { base, off, end, n } = &*it {
                        let mut q = base.unsliced();
                        q.slice = Some((*off, *n));
                        let no = self.cx.addc(*off, 1);
                        self.set_it(&mut s, p, It::Windows { base: base.clone(), off: no, end: *end, n: *n })?;
                        outs.push((s, Out::Val(V::some(V::ptr(q)))));
                    }
                }
                return Ok(outs);
            }
        };
        let c = self.cx.eq(off, end);
        let (a, b) = self.split(st, c)?;
        if let Some(s) = a {
            outs.push((s, Out::Val(V::none())));
        }
        let Some(mut s) = b else { return Ok(outs) };
        match &*it {
            It::Slice { base, .. } => {
                let (ix, no, ne) = if back {
                    let e = self.cx.addc(end, mask(64));
                    (e, off, e)
                } else {
                    (off, self.cx.addc(off, 1), end)
                };
                self.set_it(&mut s, p, It::Slice { base: base.clone(), off: no, end: ne })?;
                outs.push((s, Out::Val(V::some(V::ptr(base.with(Step::I(ix)))))));
            }
            It::Vals { q, .. } => {
                let (ix, no, ne) = if back {
                    let e = self.cx.addc(end, mask(64));
                    (e, off, e)
                } else {
                    (off, self.cx.addc(off, 1), end)
                };
                let v = self.seq_get(&s, q, ix)?;
                self.set_it(&mut s, p, It::Vals { q: q.clone(), off: no, end: ne })?;
                outs.push((s, Out::Val(V::some(v))));
            }
            It::Chunks { base, n, exact, total_end, .. } => {
                if *exact {
                    let (o, no, ne) = if back {
                        let e = self.cx.sub(end, *n);
                        (e, off, e)
                    } else {
                        (off, self.cx.add(off, *n), end)
                    };
                    let mut q = base.unsliced();
                    q.slice = Some((o, *n));
                    self.set_it(&mut s, p, It::Chunks { base: base.clone(), off: no, end: ne, n: *n, exact: true, total_end: *total_end })?;
                    outs.push((s, Out::Val(V::some(V::ptr(q)))));
                } else {
                    let left = self.cx.sub(end, off);
                    let c = self.cx.lt(left, *n);
                    let (short, full) = self.split(&s, c)?;
                    for (st2, is_short) in [(short, true), (full, false)] {
                        let Some(mut s2) = st2 else { continue };
                        let mut q = base.unsliced();
                        if back {
                            // last chunk has left % n elements (or n)
                            let r = self.cx.urem(left, *n);
                            let z = self.cx.us(0);
                            let e0 = self.cx.eq(r, z);
                            let l = match self.try_decide(&s2, e0) {
                                Some(true) => *n,
                                Some(false) => r,
                                None => return unsup("chunks back"),
                            };
                            let ne = self.cx.sub(end, l);
                            q.slice = Some((ne, l));
                            self.set_it(&mut s2, p, It::Chunks { base: base.clone(), off, end: ne, n: *n, exact: false, total_end: *total_end })?;
                        } else {
                            let l = if is_short { left } else { *n };
                            q.slice = Some((off, l));
                            let no = self.cx.add(off, l);
                            self.set_it(&mut s2, p, It::Chunks { base: base.clone(), off: no, end, n: *n, exact: false, total_end: *total_end })?;
                        }
                        outs.push((s2, Out::Val(V::some(V::ptr(q)))));
                    }
                }
            }
            It::Windows { .. } => unreachable!(),
        }
        Ok(outs)
    }
    fn mk_chunks(&mut self, st: &State, v: &V, n: &V, exact: bool) -> Res<V> {
        let p = self.rptr(v)?;
        let (o, len) = self.bounds_of(st, &p)?;
        let n = self.scalar(n)?;
        if self.cx.cv(n).map(|x| x == 0).unwrap_or(true) {
            return unsup("chunk size");
        }
        let te = self.cx.add(o, len);
        let end = if exact {
            let r = self.cx.urem(len, n);
            self.cx.sub(te, r)
        } else {
            te
        };
        Ok(V::I(Rc::new(It::Chunks { base: p.unsliced(), off: o, end, n, exact, total_end: te })))
    }
    /// elements a slice/array/vec pointer designates (concrete length)
    pub fn ptr_elems(&mut self, st: &State, v: &V) -> Res<Vec<V>> {
        let p = self.rptr(v)?;
        let (o, n) = self.bounds_of(st, &p)?;
        match self.seq_root(st, &p)? {
            V::Q(q) => self.elems(st, &q, o, n),
            v => unsup(format!("elements of {}", brief(&v))),
        }
    }
    pub fn ptr_segs(&mut self, st: &State, v: &V) -> Res<Vec<Seg>> {
        let p = self.rptr(v)?;
        let (o, n) = self.bounds_of(st, &p)?;
        match self.seq_root(st, &p)? {
            V::Q(q) => {
                if let Seq::G(g) = &*q {
                    let l = self.seq_len(&q);
                    if self.cx.cv(o) == Some(0) && l == n {
                        return Ok(g.clone());
                    }
                }
                self.sub_segs(st, &q, o, n)
            }
            v => unsup(format!("elements of {}", brief(&v))),
        }
    }
    /// a sequence of known length as its list of elements
    fn make_literal(&mut self, s: &mut State, p: &Ptr) -> Res<()> {
        let V::Q(q) = self.load(s, p)? else { return Ok(()) };
        if matches!(&*q, Seq::E(_)) {
            return Ok(());
        }
        let n = self.seq_len(&q);
        match self.cx.cv(n) {
            Some(k) if k <= 65536 => {
                let z = self.cx.us(0);
                let e = self.elems(s, &q, z, n)?;
                *self.get_mut(s, p)? = V::seq(e);
                Ok(())
            }
            _ => Ok(()),
        }
    }
    fn write_elems(&mut self, st: &mut State, v: &V, e: Vec<V>) -> Res<()> {
        let p = self.rptr(v)?;
        let (o, _) = self.bounds_of(st, &p)?;
        let b = p.unsliced();
        if let Some(o) = self.cx.cv(o) {
            if let V::Q(q) = self.get_mut(st, &b)? {
                if let Seq::E(v) = Rc::make_mut(q) {
                    for (i, x) in e.into_iter().enumerate() {
                        v[o as usize + i] = x;
                    }
                    return Ok(());
                }
            }
        }
        for (i, x) in e.into_iter().enumerate() {
            let ix = self.cx.addc(o, i as u128);
            self.store(st, &b.with(Step::I(ix)), x)?;
        }
        Ok(())
    }
    fn vec_push_all(&mut self, st: &mut State, p: &Ptr, segs: Vec<Seg>) -> Res<()> {
        let b = p.unsliced();
        let m = self.get_mut(st, &b)?;
        let V::Q(q) = m else { return unsup(format!("vec expected, found {}", brief(m))) };
        if let (Seq::E(_), true) = (&**q, segs.iter().all(|g| matches!(g, Seg::E(_)))) {
            if let Seq::E(v) = Rc::make_mut(q) {
                for g in segs {
                    if let Seg::E(x) = g {
                        v.extend(x);
                    }
                }
            }
            return Ok(());
        }
        let cur = q.clone();
        let Some(mut all) = Self::segs_of(&cur) else { return unsup("push onto array term") };
        all.extend(segs);
        let s = self.mk_seq(all);
        let m = self.get_mut(st, &b)?;
        *m = V::Q(Rc::new(s));
        Ok(())
    }
    pub fn alloc(&mut self, st: &mut State, v: V) -> V {
        let h = Rc::make_mut(&mut st.heap);
        h.push(v);
        V::ptr(Ptr { root: Root::Heap(h.len() as u32 - 1), path: vec![], slice: None })
    }
    /// structural equality as a 1-bit term
    pub fn eq_v(&mut self, st: &State, a: &V, b: &V) -> Res<T> {
        let f = self.cx.b(false);
        match (a, b) {
            (V::S(x), V::S(y)) => Ok(self.cx.eq(*x, *y)),
            (V::R(_), V::R(_)) => {
                let (x, y) = (self.deref_all(st, a)?, self.deref_all(st, b)?);
                self.eq_v(st, &x, &y)
            }
            (V::R(_), _) => {
                let x = self.deref_all(st, a)?;
                self.eq_v(st, &x, b)
            }
            (_, V::R(_)) => {
                let y = self.deref_all(st, b)?;
                self.eq_v(st, a, &y)
            }
            (V::A(x), V::A(y)) => {
                let mut r = self.cx.b(true);
                for (p, q) in x.iter().zip(y.iter()) {
                    let e = self.eq_v(st, p, q)?;
                    r = self.cx.and(r, e);
                }
                Ok(r)
            }
            (V::E(i, x), V::E(j, y)) => {
                if i != j {
                    return Ok(f);
                }
                let mut r = self.cx.b(true);
                for (p, q) in x.iter().zip(y.iter()) {
                    let e = self.eq_v(st, p, q)?;
                    r = self.cx.and(r, e);
                }
                Ok(r)
            }
            (V::E(..) | V::SE(_), V::E(..) | V::SE(_)) => {
                let (d1, a1) = self.as_sym(a);
                let (d2, a2) = self.as_sym(b);
                let mut r = f;
                for (i, x) in &a1 {
                    for (j, y) in &a2 {
                        if i != j {
                            continue;
                        }
                        let k = self.cx.c(8, *i as u128);
                        let (e1, e2) = (self.cx.eq(d1, k), self.cx.eq(d2, k));
                        let mut c = self.cx.and(e1, e2);
                        for (p, q) in x.iter().zip(y.iter()) {
                            let e = self.eq_v(st, p, q)?;
                            c = self.cx.and(c, e);
                        }
                        r = self.cx.or(r, c);
                    }
                }
                Ok(r)
            }
            (V::Q(x), V::Q(y)) => {
                let (n, m) = (self.seq_len(x), self.seq_len(y));
                let c = self.cx.eq(n, m);
                match self.decide(st, c)? {
                    Some(true) => {}
                    Some(false) => return Ok(f),
                    None => return unsup("comparison of undecided lengths"),
                }
                if self.same_seq(x, y) {
                    return Ok(self.cx.b(true));
                }
                let z = self.cx.us(0);
                let (u, v) = (self.elems(st, x, z, n)?, self.elems(st, y, z, n)?);
                let mut r = self.cx.b(true);
                for (p, q) in u.iter().zip(v.iter()) {
                    let e = self.eq_v(st, p, q)?;
                    r = self.cx.and(r, e);
                }
                Ok(r)
            }
            (a, b) => unsup(format!("comparison of {} and {}", brief(a), brief(b))),
        }
    }
    fn opt_if(&mut self, st: &State, c: T, v: V) -> Res<Outs> {
        // c ? Some(v) : None, kept as a symbolic enum when undecided
        Ok(match self.try_decide(st, c) {
            Some(true) => vec![(st.clone(), Out::Val(V::some(v)))],
            Some(false) => vec![(st.clone(), Out::Val(V::none()))],
            None => {
                let (a, b) = self.split(st, c)?;
                let mut o = vec![];
                if let Some(s) = a {
                    o.push((s, Out::Val(V::some(v))));
                }
                if let Some(s) = b {
                    o.push((s, Out::Val(V::none())));
                }
                o
            }
        })
    }
    fn int_method(&mut self, st: &State, w: u16, signed: bool, m: &str, args: &[V]) -> Res<Option<Outs>> {
        let a = |s: &mut Self, i: usize| -> Res<T> {
            let v = s.deref_all(st, &args[i])?;
            s.scalar(&v)
        };
        let r = match m {
            "wrapping_add" | "unchecked_add" => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                self.cx.add(x, y)
            }
            "wrapping_sub" | "unchecked_sub" => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                self.cx.sub(x, y)
            }
            "wrapping_mul" | "unchecked_mul" => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                self.cx.mul(x, y)
            }
            "wrapping_neg" => {
                let x = a(self, 0)?;
                self.cx.neg(x)
            }
            "wrapping_shl" | "wrapping_shr" | "unchecked_shl" | "unchecked_shr" => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                let yw = self.cx.w(y);
                let mk = self.cx.c(yw, w as u128 - 1);
                let y = self.cx.and(y, mk);
                if m.ends_with("shl") {
                    self.cx.shl(x, y)
                } else if signed {
                    self.cx.sar(x, y)
                } else {
                    self.cx.shr(x, y)
                }
            }
            "rotate_left" => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                self.cx.rotl(x, y)
            }
            "rotate_right" => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                self.cx.rotr(x, y)
            }
            "swap_bytes" | "to_be" | "from_be" => {
                let x = a(self, 0)?;
                self.bswap(x)
            }
            "to_le" | "from_le" => a(self, 0)?,
            "reverse_bits" => {
                let x = a(self, 0)?;
                let b = self.cx.bits(x);
                let v = b.iter().rev().copied().collect();
                self.cx.mk_bits(v)
            }
            "to_be_bytes" | "to_le_bytes" | "to_ne_bytes" => {
                let x = a(self, 0)?;
                let mut v = vec![];
                for i in 0..w / 8 {
                    let s = self.cx.shr_c(x, i as u32 * 8);
                    v.push(V::S(self.cx.trunc(s, 8)));
                }
                if m == "to_be_bytes" {
                    v.reverse();
                }
                one!(st, V::seq(v));
            }
            "from_be_bytes" | "from_le_bytes" | "from_ne_bytes" => {
                let q = self.deref_all(st, &args[0])?;
                let V::Q(q) = q else { return unsup("from_bytes") };
                let n = self.seq_len(&q);
                let z = self.cx.us(0);
                let mut e = self.elems(st, &q, z, n)?;
                if m == "from_be_bytes" {
                    e.reverse();
                }
                self.join_le(&e)?
            }
            "count_ones" | "leading_zeros" | "trailing_zeros" | "count_zeros" | "leading_ones" | "trailing_ones" => {
                let x = a(self, 0)?;
                if m == "leading_zeros" && self.no_join && self.cx.cv(x).is_none() {
                    // where paths are kept apart: one per position of the leading one
                    let mut o = vec![];
                    let (_, hi) = self.cx.range_b(x, Some(&st.bnd));
                    let top = 128 - hi.leading_zeros();
                    let mut rest = Some(st.clone());
                    for k in (0..top).rev() {
                        let Some(r) = rest.take() else { break };
                        let lim = self.cx.c(w, 1u128 << k);
                        let lt = self.cx.lt(x, lim);
                        let (lo, hi) = self.split(&r, lt)?;
                        if let Some(h) = hi {
                            o.push((h, Out::Val(V::S(self.cx.c(32, w as u128 - 1 - k as u128)))));
                        }
                        rest = lo;
                    }
                    if let Some(r) = rest {
                        o.push((r, Out::Val(V::S(self.cx.c(32, w as u128)))));
                    }
                    return Ok(Some(o));
                }
                return Ok(Some(vec![(st.clone(), Out::Val(V::S(self.bitcount(m, x)?)))]));
            }
            "is_power_of_two" => {
                let x = a(self, 0)?;
                match self.cx.cv(x) {
                    Some(c) => self.cx.b(c.is_power_of_two()),
                    None => return Ok(None),
                }
            }
            "ilog2" | "checked_ilog2" => {
                let x = a(self, 0)?;
                let z = self.cx.c(w, 0);
                let c = self.cx.eq(x, z);
                let (t, f) = self.split(st, c)?;
                let mut o = vec![];
                if let Some(s) = t {
                    if m == "ilog2" {
                        let pi = self.panic(&s, "logarithm of zero");
                        o.push((s, Out::Panic(pi)));
                    } else {
                        o.push((s, Out::Val(V::none())));
                    }
                }
                if let Some(s) = f {
                    // case split on the position of the leading one keeps the result concrete
                    let (_, hi) = self.cx.range_b(x, Some(&s.bnd));
                    let top = 127 - hi.leading_zeros();
                    let mut rest = Some(s);
                    for k in (0..=top).rev() {
                        let Some(r) = rest.take() else { break };
                        let lim = self.cx.c(w, 1u128 << k);
                        let lt = self.cx.lt(x, lim);
                        let (lo, hi) = self.split(&r, lt)?;
                        if let Some(h) = hi {
                            let v = V::S(self.cx.c(32, k as u128));
                            o.push((h, Out::Val(if m == "ilog2" { v } else { V::some(v) })));
                        }
                        rest = lo;
                    }
                }
                return Ok(Some(o));
            }
            "checked_add" | "checked_sub" | "checked_mul" | "overflowing_add" | "overflowing_sub" | "overflowing_mul" | "carrying_add" | "borrowing_sub" => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                if m == "carrying_add" || m == "borrowing_sub" {
                    if signed {
                        return Ok(None);
                    }
                    let c = a(self, 2)?;
                    let op = if m == "carrying_add" { "Add" } else { "Sub" };
                    let (v, o) = self.checked(op, x, y, false)?;
                    let c = self.cx.zext(c, w);
                    let (v, p) = self.checked(op, v, c, false)?;
                    let o = self.cx.or(o, p);
                    one!(st, V::tup(vec![V::S(v), V::S(o)]));
                }
                let op = match &m[m.len() - 3..] {
                    "add" => "Add",
                    "sub" => "Sub",
                    _ => "Mul",
                };
                let (v, o) = self.checked(op, x, y, signed)?;
                if m.starts_with("over") {
                    one!(st, V::tup(vec![V::S(v), V::S(o)]));
                }
                let n = self.cx.not(o);
                return Ok(Some(self.opt_if(st, n, V::S(v))?));
            }
            "saturating_sub" if !signed => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                let c = self.cx.lt(x, y);
                let d = self.cx.sub(x, y);
                let z = self.cx.c(w, 0);
                match self.decide(st, c)? {
                    Some(true) => z,
                    Some(false) => d,
                    None => self.cx.ite(c, z, d),
                }
            }
            "saturating_add" if !signed => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                let (v, o) = self.checked("Add", x, y, false)?;
                let m = self.cx.c(w, mask(w));
                self.cx.ite(o, m, v)
            }
            "abs_diff" if !signed => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                let c = self.cx.lt(x, y);
                let (d, e) = (self.cx.sub(y, x), self.cx.sub(x, y));
                self.cx.ite(c, d, e)
            }
            "pow" | "wrapping_pow" => {
                let (x, y) = (a(self, 0)?, a(self, 1)?);
                match (self.cx.cv(x), self.cx.cv(y)) {
                    (Some(b), Some(e)) if !signed => {
                        let mut r: u128 = 1;
                        let mut ov = false;
                        for _ in 0..e {
                            r = match r.checked_mul(b) {
                                Some(z) if z <= mask(w) => z,
                                _ => {
                                    ov = true;
                                    r.wrapping_mul(b) & mask(w)
                                }
                            };
                        }
                        if ov && m == "pow" {
                            let pi = self.panic(st, "pow overflow");
                            return Ok(Some(vec![(st.clone(), Out::Panic(pi))]));
                        }
                        self.cx.c(w, r)
                    }
                    _ => return Ok(None),
                }
            }
            _ => return Ok(None),
        };
        one!(st, V::S(r));
    }
    pub fn bswap(&mut self, x: T) -> T {
        let w = self.cx.w(x);
        let b = self.cx.bits(x);
        let n = w / 8;
        let mut v = vec![];
        for i in (0..n as usize).rev() {
            v.extend_from_slice(&b[i * 8..i * 8 + 8]);
        }
        self.cx.mk_bits(v)
    }
    fn bitcount(&mut self, m: &str, x: T) -> Res<T> {
        let w = self.cx.w(x);
        if let Some(c) = self.cx.cv(x) {
            let v = match m {
                "count_ones" | "ctpop" => c.count_ones(),
                "count_zeros" => w as u32 - c.count_ones(),
                "leading_zeros" | "ctlz" | "ctlz_nonzero" => c.leading_zeros() - (128 - w as u32),
                "trailing_zeros" | "cttz" | "cttz_nonzero" => c.trailing_zeros().min(w as u32),
                "leading_ones" => (!c & mask(w)).leading_zeros() - (128 - w as u32),
                _ => (!c).trailing_zeros().min(w as u32),
            };
            return Ok(self.cx.c(32, v as u128));
        }
        match m {
            "count_ones" | "ctpop" => Ok(self.cx.app(32, Op::Popcnt, vec![x])),
            "leading_zeros" | "ctlz" | "ctlz_nonzero" => Ok(self.cx.app(32, Op::Clz, vec![x])),
            "count_zeros" => {
                let p = self.cx.app(32, Op::Popcnt, vec![x]);
                let n = self.cx.c(32, w as u128);
                Ok(self.cx.sub(n, p))
            }
            // the same count on the reversed and complemented word
            _ => {
                let mut y = if m.ends_with("ones") { self.cx.not(x) } else { x };
                if m != "leading_ones" {
                    let b = self.cx.bits(y).iter().rev().copied().collect();
                    y = self.cx.mk_bits(b);
                }
                Ok(self.cx.app(32, Op::Clz, vec![y]))
            }
        }
    }
    pub fn builtin(&mut self, st: &State, fid: u32, f: &'p ir::Func, args: &[V]) -> Res<Option<Outs>> {
        let key = match self.norm_cache.get(&fid) {
            Some(k) => k.clone(),
            None => {
                let k = if f.kind == 2 { format!("intrinsic::{}", f.name) } else { norm(&f.name) };
                self.norm_cache.insert(fid, k.clone());
                k
            }
        };
        let krate = f.krate.as_str();
        if krate == "harness" {
            if let Some(m) = key.strip_prefix("verif::") {
                return self.verif(st, f, m, args);
            }
            return Ok(None);
        }
        if !matches!(krate, "core" | "alloc" | "std") && f.kind != 2 {
            if krate == "hex" || krate == "base64" {
                return self.foreign(st, f, &key, args);
            }
            // clone of user types goes through their own implementation
            return Ok(None);
        }
        let r = self.std_builtin(st, f, &key, args)?;
        if r.is_some() {
            self.builtins_used.insert(key);
        }
        Ok(r)
    }
    /// the byte of a character known to be ASCII
    fn ascii(&mut self, st: &State, c: T) -> Res<T> {
        let w = self.cx.w(c);
        let k = self.cx.c(w, 128);
        let lt = self.cx.lt(c, k);
        match self.decide(st, lt)? {
            Some(true) => Ok(self.cx.trunc(c, 8)),
            _ => unsup("character that may not be ASCII"),
        }
    }
    /// a string behind references
    fn deref_once_str(&mut self, st: &State, v: &V) -> Res<V> {
        let mut v = v.clone();
        loop {
            let V::R(p) = &v else { return unsup("string pattern") };
            if p.slice.is_some() {
                return Ok(v);
            }
            match self.load(st, p)? {
                V::Q(_) => return Ok(v),
                x => v = x,
            }
        }
    }
    /// types whose text is analysed
    fn is_plain(&self, f: &ir::Func) -> bool {
        let Some(ir::GArg::Ty(t)) = f.gargs.iter().find(|g| matches!(g, ir::GArg::Ty(_))) else { return false };
        let n = self.p.type_names[*t as usize].trim_start_matches('&').trim_start_matches("mut ");
        matches!(n, "str" | "std::string::String" | "char") || n.starts_with("cryptography::pem::")
    }
    fn foreign(&mut self, st: &State, _f: &'p ir::Func, key: &str, args: &[V]) -> Res<Option<Outs>> {
        let _ = (st, args);
        match key {
            _ => Ok(None),
        }
    }
    fn std_builtin(&mut self, st: &State, f: &'p ir::Func, key: &str, args: &[V]) -> Res<Option<Outs>> {
        if let Some(i) = key.find("::") {
            if let Some((w, s)) = int_ty(&key[..i]) {
                return self.int_method(st, w, s, &key[i + 2..], args);
            }
        }
        macro_rules! sc {
            ($i:expr) => {{
                let v = self.deref_all(st, &args[$i])?;
                self.scalar(&v)?
            }};
        }
        // families
        let (head, method) = match key.rfind("::") {
            Some(i) => (&key[..i], &key[i + 2..]),
            None => ("", key),
        };
        if head.ends_with(":Clone") || head == "Clone" {
            if method == "clone" {
                let ok = f.kind == 1 || ["Vec", "String", "Option", "Result", "Range", "RangeInclusive", "Iter", "IntoIter", "ChunksExact", "Chunks", "Map", "Copied", "Cloned", "Rev", "Enumerate", "Zip", "Take", "Skip"].iter().any(|t| head == format!("{t}:Clone")) || head.starts_with('[') || head.starts_with('(') || head.starts_with('&') || int_ty(head.trim_end_matches(":Clone")).is_some() || head == "bool:Clone" || head == "char:Clone";
                if ok {
                    let p = self.rptr(&args[0])?;
                    let v = self.load(st, &p)?;
                    one!(st, v);
                }
            }
            return Ok(None);
        }
        match key {
            // ---- intrinsics
            "intrinsic::rotate_left" => {
                let (x, y) = (sc!(0), sc!(1));
                one!(st, V::S(self.cx.rotl(x, y)));
            }
            "intrinsic::rotate_right" => {
                let (x, y) = (sc!(0), sc!(1));
                one!(st, V::S(self.cx.rotr(x, y)));
            }
            "intrinsic::wrapping_add" | "intrinsic::unchecked_add" => {
                let (x, y) = (sc!(0), sc!(1));
                one!(st, V::S(self.cx.add(x, y)));
            }
            "intrinsic::wrapping_sub" | "intrinsic::unchecked_sub" => {
                let (x, y) = (sc!(0), sc!(1));
                one!(st, V::S(self.cx.sub(x, y)));
            }
            "intrinsic::wrapping_mul" | "intrinsic::unchecked_mul" => {
                let (x, y) = (sc!(0), sc!(1));
                one!(st, V::S(self.cx.mul(x, y)));
            }
            "intrinsic::unchecked_shl" => {
                let (x, y) = (sc!(0), sc!(1));
                one!(st, V::S(self.cx.shl(x, y)));
            }
            "intrinsic::unchecked_shr" => {
                let (x, y) = (sc!(0), sc!(1));
                one!(st, V::S(self.cx.shr(x, y)));
            }
            "intrinsic::unchecked_div" | "intrinsic::exact_div" => {
                let (x, y) = (sc!(0), sc!(1));
                one!(st, V::S(self.cx.udiv(x, y)));
            }
            "intrinsic::disjoint_bitor" => {
                let (x, y) = (sc!(0), sc!(1));
                one!(st, V::S(self.cx.or(x, y)));
            }
            "intrinsic::compare_bytes" => {
                let (p, q, n) = (self.rptr(&args[0])?, self.rptr(&args[1])?, sc!(2));
                let Some(n) = self.cx.cv(n) else { return unsup("comparison of unknown length") };
                if n > 4096 {
                    return unsup("long comparison");
                }
                let at = |me: &mut Self, p: &Ptr, i: u128| -> Res<T> {
                    let k = me.cx.us(i);
                    let q = me.ptr_add(p, k)?;
                    let q = me.rptr(&q)?;
                    let v = me.load(st, &q)?;
                    me.scalar(&v)
                };
                let mut r = self.cx.c(32, 0);
                for i in (0..n).rev() {
                    let (x, y) = (at(self, &p, i)?, at(self, &q, i)?);
                    let (e, l) = (self.cx.eq(x, y), self.cx.lt(x, y));
                    let (m1, p1) = (self.cx.c(32, 0xffff_ffff), self.cx.c(32, 1));
                    let d = self.cx.ite(l, m1, p1);
                    r = self.cx.ite(e, r, d);
                }
                one!(st, V::S(r));
            }
            "intrinsic::unchecked_rem" => {
                let (x, y) = (sc!(0), sc!(1));
                one!(st, V::S(self.cx.urem(x, y)));
            }
            "intrinsic::add_with_overflow" | "intrinsic::sub_with_overflow" | "intrinsic::mul_with_overflow" => {
                let (x, y) = (sc!(0), sc!(1));
                let op = match &key[11..14] {
                    "add" => "Add",
                    "sub" => "Sub",
                    _ => "Mul",
                };
                let signed = self.garg_signed(f);
                let (v, o) = self.checked(op, x, y, signed)?;
                one!(st, V::tup(vec![V::S(v), V::S(o)]));
            }
            "intrinsic::saturating_sub" => {
                let (x, y) = (sc!(0), sc!(1));
                let c = self.cx.lt(x, y);
                let d = self.cx.sub(x, y);
                let w = self.cx.w(x);
                let z = self.cx.c(w, 0);
                one!(st, V::S(match self.decide(st, c)? {
                    Some(true) => z,
                    Some(false) => d,
                    None => self.cx.ite(c, z, d),
                }));
            }
            "intrinsic::bswap" => {
                let x = sc!(0);
                one!(st, V::S(self.bswap(x)));
            }
            "intrinsic::ctpop" | "intrinsic::ctlz" | "intrinsic::cttz" | "intrinsic::ctlz_nonzero" | "intrinsic::cttz_nonzero" => {
                let x = sc!(0);
                one!(st, V::S(self.bitcount(&key[11..], x)?));
            }
            "intrinsic::cold_path" | "intrinsic::assume" | "intrinsic::assert_inhabited" | "intrinsic::assert_zero_valid" | "intrinsic::assert_mem_uninitialized_valid" => one!(st, V::unit()),
            "intrinsic::likely" | "intrinsic::unlikely" | "intrinsic::black_box" | "hint::black_box" | "hint::likely" | "hint::unlikely" => one!(st, args[0].clone()),
            "intrinsic::is_val_statically_known" => one!(st, V::S(self.cx.b(false))),
            "intrinsic::needs_drop" => one!(st, V::S(self.cx.b(false))),
            "intrinsic::three_way_compare" => {
                let (x, y) = (sc!(0), sc!(1));
                let signed = self.garg_signed(f);
                let l = if signed { self.cx.slt(x, y) } else { self.cx.lt(x, y) };
                let e = self.cx.eq(x, y);
                one!(st, self.ordering(l, e));
            }
            "intrinsic::size_of" | "mem::size_of" | "SizedTypeProperties::SIZE" => {
                if let Some(ir::GArg::Ty(t)) = f.gargs.first() {
                    if let Some(n) = self.size_of(*t) {
                        one!(st, V::S(self.cx.us(n as u128)));
                    }
                }
                return unsup("size_of");
            }
            "intrinsic::discriminant_value" => {
                let p = self.rptr(&args[0])?;
                let v = self.load(st, &p)?;
                if let Some(ir::GArg::Ty(t)) = f.gargs.first() {
                    one!(st, self.discr(&v, *t, 64)?);
                }
                return unsup("discriminant_value");
            }
            "intrinsic::transmute" | "intrinsic::transmute_unchecked" => {
                let (a, b) = match (&f.gargs[0], &f.gargs[1]) {
                    (ir::GArg::Ty(a), ir::GArg::Ty(b)) => (*a, *b),
                    _ => return unsup("transmute"),
                };
                one!(st, self.transmute(st, args[0].clone(), a, b)?);
            }
            "intrinsic::read_via_copy" | "ptr::read" | "const_ptr::read" | "mut_ptr::read" => {
                let p = self.rptr(&args[0])?;
                one!(st, self.load(st, &p)?);
            }
            "intrinsic::write_via_move" | "ptr::write" => {
                let p = self.rptr(&args[0])?;
                let mut s = st.clone();
                self.store(&mut s, &p, args[1].clone())?;
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "intrinsic::const_eval_select" => {
                // run-time branch
                let mut g = None;
                for a in &f.gargs {
                    if let ir::GArg::Ty(t) = a {
                        if let Ty::FnDef(Some(x), _) = self.ty(*t) {
                            g = Some(*x);
                        }
                    }
                }
                let (Some(g), V::A(t)) = (g, &args[0]) else { return unsup("const_eval_select") };
                let a = t.to_vec();
                return Ok(Some(self.call(st.clone(), g, a)?));
            }
            "mem::swap" | "intrinsic::typed_swap_nonoverlapping" => {
                let (p, q) = (self.rptr(&args[0])?, self.rptr(&args[1])?);
                let (a, b) = (self.load(st, &p)?, self.load(st, &q)?);
                let mut s = st.clone();
                self.store(&mut s, &p, b)?;
                self.store(&mut s, &q, a)?;
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "mem::replace" => {
                let p = self.rptr(&args[0])?;
                let a = self.load(st, &p)?;
                let mut s = st.clone();
                self.store(&mut s, &p, args[1].clone())?;
                return Ok(Some(vec![(s, Out::Val(a))]));
            }
            "mem::drop" | "mem::forget" => one!(st, V::unit()),
            "hint::unreachable_unchecked" => return Ok(Some(vec![])),

            // ---- Vec
            "Vec::new" | "Vec::with_capacity" | "Vec:Default::default" | "String::new" | "String::with_capacity" | "String:Default::default" | "Vec::with_capacity_in" | "Vec::new_in" => {
                if key.contains("with_capacity") {
                    let n = sc!(0);
                    self.last_cap = Some(n);
                    let lim = self.cx.us(1 << 60);
                    let c = self.cx.lt(n, lim);
                    let (ok, bad) = self.split(st, c)?;
                    let mut o = vec![];
                    if let Some(s) = ok {
                        o.push((s, Out::Val(V::seq(vec![]))));
                    }
                    if let Some(s) = bad {
                        let pi = self.panic(&s, "capacity overflow");
                        o.push((s, Out::Panic(pi)));
                    }
                    return Ok(Some(o));
                }
                one!(st, V::seq(vec![]))
            }
            "Vec::capacity" => {
                // known only for a vector that is still empty after with_capacity
                let p = self.rptr(&args[0])?;
                let q = self.load(st, &p)?;
                match (&q, self.last_cap) {
                    (V::Q(x), Some(c)) if matches!(&**x, Seq::E(v) if v.is_empty()) => one!(st, V::S(c)),
                    _ => return unsup("Vec::capacity"),
                }
            }
            "Vec::push" => {
                let p = self.rptr(&args[0])?;
                let mut s = st.clone();
                drop_rc(st);
                self.vec_push_all(&mut s, &p, vec![Seg::E(vec![args[1].clone()])])?;
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "Vec::extend_from_slice" | "Vec::append" | "String::push_str" => {
                let p = self.rptr(&args[0])?;
                let e = self.ptr_segs(st, &args[1])?;
                let mut s = st.clone();
                self.vec_push_all(&mut s, &p, e)?;
                if key == "Vec::append" {
                    let q = self.rptr(&args[1])?;
                    self.store(&mut s, &q, V::seq(vec![]))?;
                }
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "Vec::extend_from_within" => return unsup("extend_from_within"),
            "Vec::pop" => {
                let p = self.rptr(&args[0])?;
                let (_, n) = self.bounds_of(st, &p)?;
                match self.cx.cv(n) {
                    Some(0) => one!(st, V::none()),
                    Some(_) => {
                        let mut s = st.clone();
                        self.make_literal(&mut s, &p)?;
                        let q = self.get_mut(&mut s, &p)?;
                        if let V::Q(x) = q {
                            if let Seq::E(v) = Rc::make_mut(x) {
                                let e = v.pop().unwrap();
                                return Ok(Some(vec![(s, Out::Val(V::some(e)))]));
                            }
                        }
                        return unsup("pop");
                    }
                    None => {
                        // symbolic length with a literal tail
                        let mut s = st.clone();
                        let q = self.get_mut(&mut s, &p)?;
                        if let V::Q(x) = q {
                            if let Seq::G(g) = Rc::make_mut(x) {
                                if let Some(Seg::E(v)) = g.last_mut() {
                                    let e = v.pop().unwrap();
                                    if v.is_empty() {
                                        g.pop();
                                    }
                                    return Ok(Some(vec![(s, Out::Val(V::some(e)))]));
                                }
                            }
                        }
                        return unsup("pop");
                    }
                }
            }
            "Vec::len" | "[T]::len" | "str::len" | "String::len" => {
                let p = self.rptr(&args[0])?;
                let (_, n) = self.bounds_of(st, &p)?;
                one!(st, V::S(n));
            }
            "Vec::is_empty" | "[T]::is_empty" | "str::is_empty" | "String::is_empty" => {
                let p = self.rptr(&args[0])?;
                let (_, n) = self.bounds_of(st, &p)?;
                let z = self.cx.us(0);
                let c = self.cx.eq(n, z);
                let c = match self.decide(st, c)? {
                    Some(b) => self.cx.b(b),
                    None => c,
                };
                one!(st, V::S(c));
            }
            "String::push" => {
                let p = self.rptr(&args[0])?;
                let c = self.scalar(&args[1])?;
                let b = self.ascii(st, c)?;
                let mut s = st.clone();
                self.vec_push_all(&mut s, &p, vec![Seg::E(vec![V::S(b)])])?;
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "str::chars" | "str::bytes" | "str::char_indices" => {
                let e = self.ptr_elems(st, &args[0])?;
                let mut v = vec![];
                for (i, x) in e.iter().enumerate() {
                    let t = self.scalar(x)?;
                    if key == "str::bytes" {
                        v.push(V::S(t));
                        continue;
                    }
                    let b = self.ascii(st, t)?;
                    let c = V::S(self.cx.zext(b, 32));
                    v.push(if key == "str::chars" { c } else { V::tup(vec![V::S(self.cx.us(i as u128)), c]) });
                }
                let (off, end) = (self.cx.us(0), self.cx.us(v.len() as u128));
                one!(st, V::I(Rc::new(It::Vals { q: Rc::new(Seq::E(v)), off, end })));
            }
            // all characters of the analysed strings are ASCII where this is used
            "str::is_char_boundary" => one!(st, V::S(self.cx.b(true))),
            "String::from_utf8" | "str::from_utf8" => {
                let e = match &args[0] {
                    V::Q(q) => match &**q {
                        Seq::E(v) => v.clone(),
                        _ => return unsup("from_utf8"),
                    },
                    _ => self.ptr_elems(st, &args[0])?,
                };
                for x in e {
                    let t = self.scalar(&x)?;
                    self.ascii(st, t)?;
                }
                one!(st, V::ok(args[0].clone()));
            }
            "Vec::clear" | "String::clear" => {
                let p = self.rptr(&args[0])?;
                let mut s = st.clone();
                self.store(&mut s, &p, V::seq(vec![]))?;
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "Vec::reserve" | "Vec::shrink_to_fit" | "Vec::reserve_exact" => one!(st, V::unit()),
            "Vec::truncate" | "String::truncate" | "Vec::resize" => {
                let p = self.rptr(&args[0])?;
                let n = sc!(1);
                let (_, cur) = self.bounds_of(st, &p)?;
                let Some(n) = self.cx.cv(n) else { return Err(Bail::Need(n)) };
                let Some(_) = self.cx.cv(cur) else { return Err(Bail::Need(cur)) };
                if n > 1 << 20 {
                    return unsup("huge resize");
                }
                let mut s = st.clone();
                self.make_literal(&mut s, &p)?;
                let q = self.get_mut(&mut s, &p)?;
                if let V::Q(x) = q {
                    if let Seq::E(v) = Rc::make_mut(x) {
                        if key.ends_with("truncate") {
                            v.truncate(n as usize);
                        } else {
                            v.resize(n as usize, args[2].clone());
                        }
                        return Ok(Some(vec![(s, Out::Val(V::unit()))]));
                    }
                }
                return unsup("resize");
            }
            "Vec::insert" | "Vec::remove" | "Vec::swap_remove" | "Vec::split_off" => {
                let p = self.rptr(&args[0])?;
                let i = sc!(1);
                let Some(i) = self.cx.cv(i) else { return Err(Bail::Need(i)) };
                let i = i as usize;
                let mut s = st.clone();
                self.make_literal(&mut s, &p)?;
                let q = self.get_mut(&mut s, &p)?;
                if let V::Q(x) = q {
                    match Rc::make_mut(x) {
                        Seq::E(v) => {
                            let oob = if key == "Vec::insert" || key == "Vec::split_off" { i > v.len() } else { i >= v.len() };
                            if oob {
                                let pi = self.panic(st, "index out of bounds");
                                return Ok(Some(vec![(st.clone(), Out::Panic(pi))]));
                            }
                            let r = match key {
                                "Vec::insert" => {
                                    v.insert(i, args[2].clone());
                                    V::unit()
                                }
                                "Vec::remove" => v.remove(i),
                                "Vec::swap_remove" => v.swap_remove(i),
                                _ => V::seq(v.split_off(i)),
                            };
                            return Ok(Some(vec![(s, Out::Val(r))]));
                        }
                        _ => return unsup("insert into symbolic vec"),
                    }
                }
                return unsup("insert");
            }
            "Vec::drain" => {
                let p = self.rptr(&args[0])?;
                let (_, n) = self.bounds_of(st, &p)?;
                let Some((a, b)) = self.range_arg(f, &args[1], n)? else { return unsup("drain") };
                let (Some(a), Some(b)) = (self.cx.cv(a), self.cx.cv(b)) else { return unsup("symbolic drain") };
                let mut s = st.clone();
                let q = self.get_mut(&mut s, &p)?;
                if let V::Q(x) = q {
                    if let Seq::E(v) = Rc::make_mut(x) {
                        if b as usize > v.len() || a > b {
                            let pi = self.panic(st, "drain out of bounds");
                            return Ok(Some(vec![(st.clone(), Out::Panic(pi))]));
                        }
                        let d: Vec<V> = v.drain(a as usize..b as usize).collect();
                        let n = d.len();
                        let it = It::Vals { q: Rc::new(Seq::E(d)), off: self.cx.us(0), end: self.cx.us(n as u128) };
                        return Ok(Some(vec![(s, Out::Val(V::I(Rc::new(it))))]));
                    }
                }
                return unsup("drain");
            }
            "vec::from_elem" => {
                let n = sc!(1);
                match self.cx.cv(n) {
                    Some(n) if n <= 1 << 20 => one!(st, V::seq(vec![args[0].clone(); n as usize])),
                    _ => return unsup("symbolic vec![x; n]"),
                }
            }
            "repeat_n::repeat_n" | "iter::repeat_n" | "repeat_n" => {
                let n = sc!(1);
                match self.cx.cv(n) {
                    Some(n) if n <= 1 << 20 => {
                        let it = It::Vals { q: Rc::new(Seq::E(vec![args[0].clone(); n as usize])), off: self.cx.us(0), end: self.cx.us(n) };
                        one!(st, V::I(Rc::new(it)))
                    }
                    _ => return unsup("symbolic repeat_n"),
                }
            }
            "Vec:Deref::deref" | "Vec:DerefMut::deref_mut" | "Vec::as_slice" | "Vec::as_mut_slice" | "Vec:AsRef::as_ref" | "Vec:AsMut::as_mut" | "Vec:Borrow::borrow" | "[T; N]::as_slice" | "[T; N]::as_mut_slice" | "[T; N]:AsRef::as_ref" | "[T; N]:Borrow::borrow" | "[T]:AsRef::as_ref" | "[T; N]:AsMut::as_mut" | "[T]:AsMut::as_mut"
            | "str::as_bytes" | "String:Deref::deref" | "String::as_str" | "String::as_bytes" | "str:AsRef::as_ref" | "String:AsRef::as_ref" | "String:Borrow::borrow" | "String:DerefMut::deref_mut" => {
                let mut p = self.rptr(&args[0])?;
                if p.slice.is_none() {
                    p.slice = Some(self.bounds_of(st, &p)?);
                }
                one!(st, V::ptr(p));
            }
            "String::into_bytes" | "String:Into::into" => one!(st, args[0].clone()),
            "str::from_utf8_unchecked" | "String::from_utf8_unchecked" => one!(st, args[0].clone()),
            "Vec:Index::index" | "Vec:IndexMut::index_mut" | "[T]:Index::index" | "[T]:IndexMut::index_mut" | "[T; N]:Index::index" | "[T; N]:IndexMut::index_mut" | "str:Index::index" | "String:Index::index" => {
                return Ok(Some(self.index(st, f, &args[0], &args[1], false)?));
            }
            "[T]::get" | "[T]::get_mut" => return Ok(Some(self.index(st, f, &args[0], &args[1], true)?)),
            "[T]::get_unchecked" | "[T]::get_unchecked_mut" | "intrinsic::slice_get_unchecked" => return Ok(Some(self.index(st, f, &args[0], &args[1], false)?)),
            "[T]::first" | "[T]::last" | "[T]::first_mut" | "[T]::last_mut" => {
                let p = self.rptr(&args[0])?;
                let (o, n) = self.bounds_of(st, &p)?;
                let z = self.cx.us(0);
                let c = self.cx.eq(n, z);
                let (e, ne) = self.split(st, c)?;
                let mut out = vec![];
                if let Some(s) = e {
                    out.push((s, Out::Val(V::none())));
                }
                if let Some(s) = ne {
                    let ix = if key.contains("first") {
                        o
                    } else {
                        let e = self.cx.add(o, n);
                        self.cx.addc(e, mask(64))
                    };
                    out.push((s, Out::Val(V::some(V::ptr(p.with(Step::I(ix)))))));
                }
                return Ok(Some(out));
            }
            "[T]::split_first" | "[T]::split_last" | "[T]::split_first_mut" | "[T]::split_last_mut" => {
                let p = self.rptr(&args[0])?;
                let (o, n) = self.bounds_of(st, &p)?;
                let z = self.cx.us(0);
                let c = self.cx.eq(n, z);
                let (e, ne) = self.split(st, c)?;
                let mut out = vec![];
                if let Some(s) = e {
                    out.push((s, Out::Val(V::none())));
                }
                if let Some(s) = ne {
                    let l = self.cx.addc(n, mask(64));
                    let (ix, so) = if key.contains("first") {
                        (o, self.cx.addc(o, 1))
                    } else {
                        (self.cx.add(o, l), o)
                    };
                    let mut q = p.unsliced();
                    q.slice = Some((so, l));
                    out.push((s, Out::Val(V::some(V::tup(vec![V::ptr(p.with(Step::I(ix))), V::ptr(q)])))));
                }
                return Ok(Some(out));
            }
            "[T]::split_at" | "[T]::split_at_mut" | "str::split_at" | "[T]::split_at_unchecked" | "[T]::split_at_mut_unchecked" | "[T]::split_at_checked" => {
                let p = self.rptr(&args[0])?;
                let (o, n) = self.bounds_of(st, &p)?;
                let m = sc!(1);
                let c = self.cx.lt(n, m);
                let (bad, ok) = self.split(st, c)?;
                let mut out = vec![];
                let chk = key.ends_with("checked") && !key.ends_with("unchecked");
                if let Some(s) = ok {
                    let (mut a, mut b) = (p.unsliced(), p.unsliced());
                    a.slice = Some((o, m));
                    let o2 = self.cx.add(o, m);
                    let l2 = self.cx.sub(n, m);
                    b.slice = Some((o2, l2));
                    let r = V::tup(vec![V::ptr(a), V::ptr(b)]);
                    out.push((s, Out::Val(if chk { V::some(r) } else { r })));
                }
                if let Some(s) = bad {
                    if chk {
                        out.push((s, Out::Val(V::none())));
                    } else {
                        let pi = self.panic(&s, "split_at: mid > len");
                        out.push((s, Out::Panic(pi)));
                    }
                }
                return Ok(Some(out));
            }
            "[T]::first_chunk" | "[T]::last_chunk" | "[T]::split_first_chunk" | "[T]::split_last_chunk" | "[T]::as_array" => {
                let nn = f.gargs.iter().find_map(|g| if let ir::GArg::Const(c) = g { Some(*c) } else { None });
                let Some(nn) = nn else { return unsup("chunk") };
                let p = self.rptr(&args[0])?;
                let (o, n) = self.bounds_of(st, &p)?;
                let k = self.cx.us(nn);
                let c = if key == "[T]::as_array" { self.cx.ne(n, k) } else { self.cx.lt(n, k) };
                let (bad, ok) = self.split(st, c)?;
                let mut out = vec![];
                if let Some(s) = bad {
                    out.push((s, Out::Val(V::none())));
                }
                if let Some(s) = ok {
                    let rest = self.cx.sub(n, k);
                    let (ao, ro) = if key.contains("last") { (self.cx.add(o, rest), o) } else { (o, self.cx.add(o, k)) };
                    let (mut a, mut b) = (p.unsliced(), p.unsliced());
                    a.slice = Some((ao, k));
                    b.slice = Some((ro, rest));
                    let r = match key {
                        "[T]::split_first_chunk" => V::tup(vec![V::ptr(a), V::ptr(b)]),
                        "[T]::split_last_chunk" => V::tup(vec![V::ptr(b), V::ptr(a)]),
                        _ => V::ptr(a),
                    };
                    out.push((s, Out::Val(V::some(r))));
                }
                return Ok(Some(out));
            }
            "[T]::iter" | "[T]::iter_mut" | "&'a [T]:IntoIterator::into_iter" | "&'a mut [T]:IntoIterator::into_iter" | "&'a Vec<T, A>:IntoIterator::into_iter" | "&'a mut Vec<T, A>:IntoIterator::into_iter" | "&'a [T; N]:IntoIterator::into_iter" | "&'a mut [T; N]:IntoIterator::into_iter" | "&'a std::vec::Vec<T, A>:IntoIterator::into_iter"
            | "&'a mut std::vec::Vec<T, A>:IntoIterator::into_iter" => one!(st, self.slice_iter(st, &args[0])?),
            "Vec:IntoIterator::into_iter" | "[T; N]:IntoIterator::into_iter" => match &args[0] {
                V::Q(q) => {
                    let n = self.seq_len(q);
                    let z = self.cx.us(0);
                    one!(st, V::I(Rc::new(It::Vals { q: q.clone(), off: z, end: n })));
                }
                _ => return unsup("into_iter"),
            },
            "RepeatN:Iterator::next" | "Chars:Iterator::next" | "Bytes:Iterator::next" | "CharIndices:Iterator::next" | "Iter:Iterator::next" | "IterMut:Iterator::next" | "IntoIter:Iterator::next" | "Chunks:Iterator::next" | "ChunksExact:Iterator::next" | "ChunksMut:Iterator::next" | "ChunksExactMut:Iterator::next" | "Windows:Iterator::next" | "Drain:Iterator::next" => {
                let p = self.rptr(&args[0])?;
                if let V::I(_) = self.load(st, &p)? {
                    return Ok(Some(self.it_next(st, &p, false)?));
                }
                return Ok(None);
            }
            "RepeatN:DoubleEndedIterator::next_back" | "Chars:DoubleEndedIterator::next_back" | "Bytes:DoubleEndedIterator::next_back" | "CharIndices:DoubleEndedIterator::next_back" | "Iter:DoubleEndedIterator::next_back" | "IterMut:DoubleEndedIterator::next_back" | "IntoIter:DoubleEndedIterator::next_back" | "Chunks:DoubleEndedIterator::next_back" | "ChunksExact:DoubleEndedIterator::next_back" | "Drain:DoubleEndedIterator::next_back" | "ChunksExactMut:DoubleEndedIterator::next_back" => {
                let p = self.rptr(&args[0])?;
                if let V::I(_) = self.load(st, &p)? {
                    return Ok(Some(self.it_next(st, &p, true)?));
                }
                return Ok(None);
            }
            "Iter::as_slice" | "IntoIter::as_slice" => {
                let p = self.rptr(&args[0])?;
                if let V::I(it) = self.load(st, &p)? {
                    if let It::Slice { base, off, end } = &*it {
                        let mut q = base.clone();
                        q.slice = Some((*off, self.cx.sub(*end, *off)));
                        one!(st, V::ptr(q));
                    }
                }
                return unsup("as_slice");
            }
            "ChunksExact::remainder" | "ChunksExactMut::into_remainder" => {
                let v = self.deref_all(st, &args[0])?;
                if let V::I(it) = v {
                    if let It::Chunks { base, n, total_end, .. } = &*it {
                        // remainder length is fixed at construction: total_end - (first aligned end)
                        let _ = n;
                        let (off, end) = match &*it {
                            It::Chunks { off, end, .. } => (*off, *end),
                            _ => unreachable!(),
                        };
                        let _ = (off, end);
                        let mut q = base.unsliced();
                        // end may have moved with next_back; recompute from the original remainder
                        let l = self.cx.sub(*total_end, end);
                        let r = self.cx.urem(l, *n);
                        let o = self.cx.sub(*total_end, r);
                        q.slice = Some((o, r));
                        one!(st, V::ptr(q));
                    }
                }
                return unsup("remainder");
            }
            "Range:ExactSizeIterator::len" => {
                let p = self.rptr(&args[0])?;
                if let V::A(fs) = self.load(st, &p)? {
                    let (a, b) = (self.scalar(&fs[0])?, self.scalar(&fs[1])?);
                    let c = self.cx.lt(a, b);
                    if self.decide(st, c)? == Some(true) {
                        let d = self.cx.sub(b, a);
                        one!(st, V::S(self.cx.zext(d, 64)));
                    }
                    if self.decide(st, c)? == Some(false) {
                        one!(st, V::S(self.cx.us(0)));
                    }
                }
                return unsup("range len");
            }
            "Range:Iterator::next" | "Range:DoubleEndedIterator::next_back" => {
                let p = self.rptr(&args[0])?;
                let V::A(fs) = self.load(st, &p)? else { return unsup("range") };
                let (a, b) = (self.scalar(&fs[0])?, self.scalar(&fs[1])?);
                let c = self.cx.lt(a, b);
                let (t, e) = self.split(st, c)?;
                let mut out = vec![];
                if let Some(mut s) = t {
                    if key.ends_with("back") {
                        let w = self.cx.w(b);
                        let nb = self.cx.addc(b, mask(w));
                        self.store(&mut s, &p, V::tup(vec![V::S(a), V::S(nb)]))?;
                        out.push((s, Out::Val(V::some(V::S(nb)))));
                    } else {
                        let na = self.cx.addc(a, 1);
                        self.store(&mut s, &p, V::tup(vec![V::S(na), V::S(b)]))?;
                        out.push((s, Out::Val(V::some(V::S(a)))));
                    }
                }
                if let Some(s) = e {
                    out.push((s, Out::Val(V::none())));
                }
                return Ok(Some(out));
            }
            "RangeInclusive:Iterator::next" | "RangeInclusive:DoubleEndedIterator::next_back" => {
                let p = self.rptr(&args[0])?;
                let V::A(fs) = self.load(st, &p)? else { return unsup("range") };
                let (a, b, ex) = (self.scalar(&fs[0])?, self.scalar(&fs[1])?, self.scalar(&fs[2])?);
                let gt = self.cx.lt(b, a);
                let done = self.cx.or(ex, gt);
                let (t, e) = self.split(st, done)?;
                let mut out = vec![];
                if let Some(s) = t {
                    out.push((s, Out::Val(V::none())));
                }
                if let Some(s) = e {
                    let back = key.ends_with("back");
                    let eq = self.cx.eq(a, b);
                    let (last, more) = self.split(&s, eq)?;
                    if let Some(mut s) = last {
                        let tr = self.cx.b(true);
                        self.store(&mut s, &p, V::tup(vec![V::S(a), V::S(b), V::S(tr)]))?;
                        out.push((s, Out::Val(V::some(V::S(a)))));
                    }
                    if let Some(mut s) = more {
                        let f0 = self.cx.b(false);
                        let w = self.cx.w(a);
                        if back {
                            let nb = self.cx.addc(b, mask(w));
                            self.store(&mut s, &p, V::tup(vec![V::S(a), V::S(nb), V::S(f0)]))?;
                            out.push((s, Out::Val(V::some(V::S(b)))));
                        } else {
                            let na = self.cx.addc(a, 1);
                            self.store(&mut s, &p, V::tup(vec![V::S(na), V::S(b), V::S(f0)]))?;
                            out.push((s, Out::Val(V::some(V::S(a)))));
                        }
                    }
                }
                return Ok(Some(out));
            }
            "RangeInclusive::new" => {
                let f0 = self.cx.b(false);
                one!(st, V::tup(vec![args[0].clone(), args[1].clone(), V::S(f0)]));
            }
            "[T]::chunks" | "[T]::chunks_mut" => one!(st, self.mk_chunks(st, &args[0], &args[1], false)?),
            "[T]::chunks_exact" | "[T]::chunks_exact_mut" => one!(st, self.mk_chunks(st, &args[0], &args[1], true)?),
            "[T]::windows" => {
                let p = self.rptr(&args[0])?;
                let (o, n) = self.bounds_of(st, &p)?;
                let e = self.cx.add(o, n);
                let k = sc!(1);
                one!(st, V::I(Rc::new(It::Windows { base: p.unsliced(), off: o, end: e, n: k })));
            }
            "[T]::copy_from_slice" | "[T]::clone_from_slice" => {
                let (pa, pb) = (self.rptr(&args[0])?, self.rptr(&args[1])?);
                let (_, na) = self.bounds_of(st, &pa)?;
                let (_, nb) = self.bounds_of(st, &pb)?;
                let c = self.cx.eq(na, nb);
                let (ok, bad) = self.split(st, c)?;
                let mut out = vec![];
                if let Some(mut s) = ok {
                    let e = self.ptr_elems(&s, &args[1])?;
                    self.write_elems(&mut s, &args[0], e)?;
                    out.push((s, Out::Val(V::unit())));
                }
                if let Some(s) = bad {
                    let pi = self.panic(&s, "copy_from_slice: length mismatch");
                    out.push((s, Out::Panic(pi)));
                }
                return Ok(Some(out));
            }
            "[T]::copy_within" => {
                let p = self.rptr(&args[0])?;
                let (o, n) = self.bounds_of(st, &p)?;
                let Some((a, b)) = self.range_arg(f, &args[1], n)? else { return unsup("copy_within") };
                let d = sc!(2);
                let l = self.cx.sub(b, a);
                let (Some(a1), Some(l1), Some(d1), Some(n1)) = (self.cx.cv(a), self.cx.cv(l), self.cx.cv(d), self.cx.cv(n)) else { return unsup("copy_within") };
                if a1 + l1 > n1 || d1 + l1 > n1 {
                    let pi = self.panic(st, "copy_within out of bounds");
                    return Ok(Some(vec![(st.clone(), Out::Panic(pi))]));
                }
                let mut q = p.unsliced();
                q.slice = Some((self.cx.add(o, a), l));
                let e = self.ptr_elems(st, &V::ptr(q.clone()))?;
                q.slice = Some((self.cx.add(o, d), l));
                let mut s = st.clone();
                self.write_elems(&mut s, &V::ptr(q), e)?;
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "[T]::fill" => {
                let p = self.rptr(&args[0])?;
                let (_, n) = self.bounds_of(st, &p)?;
                let Some(n) = self.cx.cv(n) else { return Err(Bail::Need(n)) };
                let mut s = st.clone();
                self.write_elems(&mut s, &args[0], vec![args[1].clone(); n as usize])?;
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "[T]::reverse" | "[T]::rotate_left" | "[T]::rotate_right" => {
                let mut e = self.ptr_elems(st, &args[0])?;
                if key == "[T]::reverse" {
                    e.reverse();
                } else {
                    let k = sc!(1);
                    let Some(k) = self.cx.cv(k) else { return Err(Bail::Need(k)) };
                    if k as usize > e.len() {
                        let pi = self.panic(st, "rotate: mid > len");
                        return Ok(Some(vec![(st.clone(), Out::Panic(pi))]));
                    }
                    if key.ends_with("left") {
                        e.rotate_left(k as usize);
                    } else {
                        e.rotate_right(k as usize);
                    }
                }
                let mut s = st.clone();
                self.write_elems(&mut s, &args[0], e)?;
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "[T]::swap" => {
                let p = self.rptr(&args[0])?;
                let (o, n) = self.bounds_of(st, &p)?;
                let (i, j) = (sc!(1), sc!(2));
                let (c1, c2) = (self.cx.lt(i, n), self.cx.lt(j, n));
                let c = self.cx.and(c1, c2);
                let (ok, bad) = self.split(st, c)?;
                let mut out = vec![];
                if let Some(mut s) = ok {
                    let (i, j) = (self.cx.add(o, i), self.cx.add(o, j));
                    let b = p.unsliced();
                    let cur = self.walk_root(&s, &b)?;
                    let V::Q(q) = cur else { return unsup("swap") };
                    let conc = self.cx.cv(i).is_some() && self.cx.cv(j).is_some() && matches!(&*q, Seq::E(_));
                    if conc {
                        let (x, y) = (self.seq_get(&s, &q, i)?, self.seq_get(&s, &q, j)?);
                        drop(q);
                        self.store(&mut s, &b.with(Step::I(i)), y)?;
                        self.store(&mut s, &b.with(Step::I(j)), x)?;
                    } else {
                        let Some((t, n)) = self.seq_term(&q) else { return unsup("symbolic swap") };
                        let r = self.cx.swap(t, i, j);
                        let sq = self.arr_seq(r, n);
                        let m = self.get_mut(&mut s, &b)?;
                        *m = V::Q(Rc::new(sq));
                    }
                    out.push((s, Out::Val(V::unit())));
                }
                if let Some(s) = bad {
                    let pi = self.panic(&s, "swap out of bounds");
                    out.push((s, Out::Panic(pi)));
                }
                return Ok(Some(out));
            }
            "[T]::to_vec" | "[T]:ToOwned::to_owned" | "Vec:From::from" | "[T]::to_vec_in" | "str:ToOwned::to_owned" | "String:From::from" | "str:ToString::to_string" | "str::to_string" | "str::to_owned" | "[T]::into_vec" | "slice::into_vec" | "str:SpecToString::spec_to_string" | "String:ToString::to_string" => match &args[0] {
                V::R(_) => {
                    let g = self.ptr_segs(st, &args[0])?;
                    let s = self.mk_seq(g);
                    one!(st, V::Q(Rc::new(s)));
                }
                V::Q(_) => one!(st, args[0].clone()),
                _ => return Ok(None),
            },
            "[T]::concat" => {
                let e = self.ptr_elems(st, &args[0])?;
                let mut all = vec![];
                for x in e {
                    let v = self.deref_all(st, &x)?;
                    match v {
                        V::Q(q) => match Self::segs_of(&q) {
                            Some(g) => all.extend(g),
                            None => return unsup("concat"),
                        },
                        _ => return unsup("concat"),
                    }
                }
                let s = self.mk_seq(all);
                one!(st, V::Q(Rc::new(s)));
            }
            "[T]::starts_with" | "[T]::ends_with" | "[T]::contains" => {
                if key == "[T]::contains" {
                    let e = self.ptr_elems(st, &args[0])?;
                    let y = self.deref_all(st, &args[1])?;
                    let mut r = self.cx.b(false);
                    for x in e {
                        let q = self.eq_v(st, &x, &y)?;
                        r = self.cx.or(r, q);
                    }
                    one!(st, V::S(r));
                }
                let (a, b) = (self.ptr_elems(st, &args[0])?, self.ptr_elems(st, &args[1])?);
                if b.len() > a.len() {
                    one!(st, V::S(self.cx.b(false)));
                }
                let off = if key.ends_with("ends_with") { a.len() - b.len() } else { 0 };
                let mut r = self.cx.b(true);
                for i in 0..b.len() {
                    let q = self.eq_v(st, &a[off + i], &b[i])?;
                    r = self.cx.and(r, q);
                }
                one!(st, V::S(r));
            }
            "[T]:PartialEq::eq" | "[T; N]:PartialEq::eq" | "Vec:PartialEq::eq" | "str:PartialEq::eq" | "String:PartialEq::eq" | "Option:PartialEq::eq" | "&A:PartialEq::eq" | "[A; N]:PartialEq::eq" | "[T]:SlicePartialEq::equal" | "[A]:SlicePartialEq::equal" | "()::eq" | "[T; N]:SpecArrayEq::spec_eq" | "&[T]:PartialEq::eq" | "&'a str:PartialEq::eq" => {
                let (a, b) = (self.deref_all(st, &args[0])?, self.deref_all(st, &args[1])?);
                one!(st, V::S(self.eq_v(st, &a, &b)?));
            }
            "[T]:PartialEq::ne" | "[T; N]:PartialEq::ne" | "Vec:PartialEq::ne" | "str:PartialEq::ne" | "Option:PartialEq::ne" | "&A:PartialEq::ne" | "String:PartialEq::ne" | "[A; N]:PartialEq::ne" => {
                let (a, b) = (self.deref_all(st, &args[0])?, self.deref_all(st, &args[1])?);
                let e = self.eq_v(st, &a, &b)?;
                one!(st, V::S(self.cx.not(e)));
            }
            "[T; N]:TryFrom::try_from" | "&'a [T; N]:TryFrom::try_from" | "&'a mut [T; N]:TryFrom::try_from" => {
                let n = f.gargs.iter().find_map(|g| if let ir::GArg::Const(c) = g { Some(*c) } else { None });
                let Some(n) = n else { return unsup("array try_from") };
                let k = self.cx.us(n);
                let (len, is_ref) = match &args[0] {
                    V::R(p) => (self.bounds_of(st, p)?.1, true),
                    V::Q(q) => (self.seq_len(q), false),
                    _ => return unsup("array try_from"),
                };
                let c = self.cx.eq(len, k);
                let (ok, bad) = self.split(st, c)?;
                let mut out = vec![];
                if let Some(s) = ok {
                    let v = if key.starts_with('&') {
                        args[0].clone()
                    } else if is_ref {
                        let mut p = self.rptr(&args[0])?;
                        let (o, _) = self.bounds_of(&s, &p)?;
                        p.slice = Some((o, k));
                        V::seq(self.ptr_elems(&s, &V::ptr(p))?)
                    } else {
                        args[0].clone()
                    };
                    out.push((s, Out::Val(V::ok(v))));
                }
                if let Some(s) = bad {
                    out.push((s, Out::Val(V::err(if is_ref { V::unit() } else { args[0].clone() }))));
                }
                return Ok(Some(out));
            }
            "[T; N]:Default::default" => {
                if let (Some(ir::GArg::Ty(t)), Some(n)) = (f.gargs.first(), f.gargs.iter().find_map(|g| if let ir::GArg::Const(c) = g { Some(*c) } else { None })) {
                    if let Some((w, _)) = self.scal(*t) {
                        let z = V::S(self.cx.c(w, 0));
                        one!(st, V::seq(vec![z; n as usize]));
                    }
                }
                // the generic argument may be the array type's element in the impl header
                if let Ty::Array(e, n) = self.ty(f.output) {
                    if let Some((w, _)) = self.scal(*e) {
                        let z = V::S(self.cx.c(w, 0));
                        one!(st, V::seq(vec![z; *n as usize]));
                    }
                }
                return unsup("array default");
            }
            "Box::new_uninit" => {
                let mut s = st.clone();
                let v = self.alloc(&mut s, V::U);
                return Ok(Some(vec![(s, Out::Val(v))]));
            }
            "boxed::box_assume_init_into_vec_unsafe" => {
                let p = self.rptr(&args[0])?;
                let mut v = self.load(st, &p)?;
                // union and wrapper layers around the array
                while let V::A(f) = &v {
                    v = match &f[..] {
                        [x] => x.clone(),
                        [V::U, x] => x.clone(),
                        _ => break,
                    };
                }
                one!(st, v);
            }
            "Vec::leak" | "Vec::into_boxed_slice" => {
                let mut s = st.clone();
                let V::Q(q) = &args[0] else { return unsup("leaked value") };
                let n = self.seq_len(q);
                let v = self.alloc(&mut s, args[0].clone());
                let mut p = self.rptr(&v)?;
                p.slice = Some((self.cx.us(0), n));
                return Ok(Some(vec![(s, Out::Val(V::ptr(p)))]));
            }
            "Box::new" => {
                let mut s = st.clone();
                let v = self.alloc(&mut s, args[0].clone());
                return Ok(Some(vec![(s, Out::Val(v))]));
            }
            "Box:Deref::deref" | "Box:DerefMut::deref_mut" | "Box:AsRef::as_ref" => {
                let p = self.rptr(&args[0])?;
                one!(st, self.load(st, &p)?);
            }
            "Arguments::new" | "Arguments::from_str" | "Arguments::from_str_nonconst" => one!(st, V::tup(args.to_vec())),
            // ---- formatting is irrelevant to the properties: opaque
            "Argument::new_display" | "Argument::new_debug" | "Argument::new_lower_hex" | "Arguments::new_const" | "Arguments::new_v1" | "fmt::format" => one!(st, V::U),
            _ => {}
        }
        if (method == "len" || method == "is_empty") && head.ends_with("ExactSizeIterator") || method == "size_hint" && head.ends_with("Iterator") {
            let p = self.rptr(&args[0])?;
            if let V::I(it) = self.load(st, &p)? {
                let (o, e) = match &*it {
                    It::Slice { off, end, .. } | It::Vals { off, end, .. } => (*off, *end),
                    It::Chunks { off, end, n, exact, .. } => {
                        let l = self.cx.sub(*end, *off);
                        let l = if *exact {
                            l
                        } else {
                            let n1 = self.cx.addc(*n, mask(64));
                            self.cx.add(l, n1)
                        };
                        let d = self.cx.udiv(l, *n);
                        let z = self.cx.us(0);
                        (z, d)
                    }
                    _ => return unsup("iterator len"),
                };
                let l = self.cx.sub(e, o);
                if method == "is_empty" {
                    let z = self.cx.us(0);
                    let c = self.cx.eq(l, z);
                    one!(st, V::S(c));
                }
                if method == "size_hint" {
                    one!(st, V::tup(vec![V::S(l), V::some(V::S(l))]));
                }
                one!(st, V::S(l));
            }
        }
        if (method == "min" || method == "max") && (head == "Ord" || head == "cmp" || head.ends_with(":Ord")) && args.len() == 2 {
            if let (V::S(x), V::S(y)) = (&args[0], &args[1]) {
                let (x, y) = (*x, *y);
                if !self.garg_signed(f) {
                    let c = if method == "min" { self.cx.lt(y, x) } else { self.cx.lt(y, x) };
                    // min: y < x ? y : x   max: y < x ? x : y
                    let (a, b) = if method == "min" { (y, x) } else { (x, y) };
                    let (t, e) = self.split_or_ite(st, c, a, b)?;
                    if let Some(v) = t {
                        one!(st, V::S(v));
                    }
                    return Ok(Some(e));
                }
            }
        }
        Ok(None)
    }
    /// for 64-bit values keep the two cases apart, otherwise one if-then-else term
    fn split_or_ite(&mut self, st: &State, c: T, a: T, b: T) -> Res<(Option<T>, Outs)> {
        if let Some(d) = self.try_decide(st, c) {
            return Ok((Some(if d { a } else { b }), vec![]));
        }
        if self.cx.w(a) < 64 {
            return Ok((Some(self.cx.ite(c, a, b)), vec![]));
        }
        let (t, e) = self.split(st, c)?;
        let mut o = vec![];
        if let Some(s) = t {
            o.push((s, Out::Val(V::S(a))));
        }
        if let Some(s) = e {
            o.push((s, Out::Val(V::S(b))));
        }
        Ok((None, o))
    }
    fn garg_signed(&self, f: &ir::Func) -> bool {
        match f.gargs.first() {
            Some(ir::GArg::Ty(t)) => self.scal(*t).map(|x| x.1).unwrap_or(false),
            _ => false,
        }
    }
    pub fn size_of(&self, t: u32) -> Option<u64> {
        match self.ty(t) {
            Ty::Int(_, b) => Some(*b as u64 / 8),
            Ty::Bool() => Some(1),
            Ty::Char() => Some(4),
            Ty::Array(e, n) => self.size_of(*e).map(|s| s * n),
            Ty::Tuple(v) if v.is_empty() => Some(0),
            Ty::Ref(x, _) | Ty::RawPtr(x, _) => match self.ty(*x) {
                Ty::Slice(_) | Ty::Str() | Ty::Dyn(_) => Some(16),
                _ => Some(8),
            },
            Ty::Adt(n, ..) if n.ends_with("::Vec") || n.ends_with("::String") => Some(24),
            _ => None,
        }
    }

    // ---------- harness intrinsics ----------
    fn verif(&mut self, st: &State, f: &'p ir::Func, m: &str, args: &[V]) -> Res<Option<Outs>> {
        match m {
            "any_u8" | "any_u16" | "any_u32" | "any_u64" | "any_u128" | "any_usize" | "any_bool" => {
                let tag = self.str_of(st, &args[0])?;
                let w = match m {
                    "any_u8" => 8,
                    "any_u16" => 16,
                    "any_u32" => 32,
                    "any_u128" => 128,
                    "any_bool" => 1,
                    _ => 64,
                };
                one!(st, V::S(self.named_leaf(&tag, w)));
            }
            "bytes" => {
                let tag = self.str_of(st, &args[0])?;
                let n = f.gargs.iter().find_map(|g| if let ir::GArg::Const(c) = g { Some(*c) } else { None }).unwrap_or(0);
                let v = (0..n).map(|i| V::S(self.named_leaf(&format!("{tag}[{i}]"), 8))).collect();
                one!(st, V::seq(v));
            }
            "words32" | "words64" => {
                let tag = self.str_of(st, &args[0])?;
                let w = if m == "words32" { 32 } else { 64 };
                let n = f.gargs.iter().find_map(|g| if let ir::GArg::Const(c) = g { Some(*c) } else { None }).unwrap_or(0);
                let v = (0..n).map(|i| V::S(self.named_leaf(&format!("{tag}[{i}]"), w))).collect();
                one!(st, V::seq(v));
            }
            "vec" => {
                let tag = self.str_of(st, &args[0])?;
                let n = self.scalar(&args[1])?;
                let Some(n) = self.cx.cv(n) else { return unsup("symbolic verif::vec") };
                let v = (0..n).map(|i| V::S(self.named_leaf(&format!("{tag}[{i}]"), 8))).collect();
                one!(st, V::seq(v));
            }
            "msg" => {
                // block * q + r bytes; q symbolic unless fixed by a parameter
                let tag = self.str_of(st, &args[0])?;
                let (b, r) = (self.scalar(&args[1])?, self.scalar(&args[2])?);
                let (Some(b), Some(r)) = (self.cx.cv(b), self.cx.cv(r)) else { return unsup("verif::msg") };
                let id = match self.seqs.iter().position(|x| *x == tag) {
                    Some(i) => i as u32,
                    None => {
                        self.seqs.push(tag.clone());
                        self.seqs.len() as u32 - 1
                    }
                };
                let z = self.cx.us(0);
                let len = match self.params.get("q").copied() {
                    Some(q) => self.cx.us(b * q + r),
                    None => {
                        self.sym_mode = true;
                        let base = self.params.get("q0").copied().unwrap_or(0);
                        let q = self.named_leaf_r(&format!("q({tag})"), 64, 0, (1u128 << 61) / b.max(1) - 4 - base, true);
                        self.qinfo.insert(q, b);
                        self.cx.sum(W, r + b * base, vec![(q, b)])
                    }
                };
                let s = self.mk_seq(vec![Seg::In { seq: id, start: z, len }]);
                one!(st, V::Q(Rc::new(s)));
            }
            "param" => {
                let tag = self.str_of(st, &args[0])?;
                match self.params.get(&tag).copied() {
                    Some(v) => one!(st, V::S(self.cx.us(v))),
                    None => return unsup(format!("missing parameter {tag}")),
                }
            }
            "assume" => {
                let c = self.scalar(&args[0])?;
                let mut s = st.clone();
                match self.try_decide(&s, c) {
                    Some(true) => {}
                    Some(false) => return Ok(Some(vec![])),
                    None => self.assume(&mut s, c, true),
                }
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "require" => {
                let c = self.scalar(&args[0])?;
                let msg = self.str_of(st, &args[1])?;
                let t = self.cx.b(true);
                self.obligation(st, &V::S(c), &V::S(t), &msg);
                let mut s = st.clone();
                if self.try_decide(&s, c).is_none() {
                    self.assume(&mut s, c, true);
                }
                return Ok(Some(vec![(s, Out::Val(V::unit()))]));
            }
            "require_eq" => {
                let msg = self.str_of(st, &args[2])?;
                let (a, b) = (self.load_deep(st, &args[0])?, self.load_deep(st, &args[1])?);
                self.obligation(st, &a, &b, &msg);
                one!(st, V::unit());
            }
            "unreachable" => {
                // reaching this point refutes the property if the path is feasible
                let msg = self.str_of(st, &args[0])?;
                let (a, b) = (self.cx.b(true), self.cx.b(false));
                self.obligation(st, &V::S(a), &V::S(b), &msg);
                return Ok(Some(vec![]));
            }
            "panics" => {
                // run the closure; report whether it panicked
                let mut g = None;
                for a in &f.gargs {
                    if let ir::GArg::Ty(t) = a {
                        if let Ty::Closure(n, _) = self.ty(*t) {
                            g = Some(n.clone());
                        }
                    }
                }
                let _ = g;
                // the callee is the FnOnce shim recorded in the body
                let body = match &f.body {
                    Some(b) => b,
                    None => return unsup("panics"),
                };
                let mut target = None;
                for b in &body.blocks {
                    if let ir::Term::Call(ir::Callee::Func(x), ..) = &b.term {
                        target = Some(*x);
                    }
                }
                let Some(t) = target else { return unsup("panics target") };
                let depth = st.frames.len();
                let r = self.call(st.clone(), t, vec![args[0].clone(), V::unit()])?;
                let mut out = vec![];
                for (mut s, o) in r {
                    s.frames.truncate(depth);
                    let v = matches!(o, Out::Panic(_));
                    out.push((s, Out::Val(V::S(self.cx.b(v)))));
                }
                return Ok(Some(out));
            }
            "perm" => {
                // perm::<N>(name, inverse, key, data): an arbitrary keyed permutation and its inverse
                let name = self.str_of(st, &args[0])?;
                let inv = self.scalar(&args[1])?;
                let inv = self.cx.cv(inv) == Some(1);
                let kt = self.scalar(&args[2])?;
                let e = match &args[3] {
                    V::Q(q) => {
                        let n = self.seq_len(q);
                        let z = self.cx.us(0);
                        self.elems(st, q, z, n)?
                    }
                    _ => return unsup("perm"),
                };
                let mut ts = vec![];
                for x in &e {
                    ts.push(self.scalar(x)?);
                }
                // cancel with the opposite direction
                let other = if inv { "E" } else { "D" };
                let mut src: Option<T> = None;
                let mut ok = true;
                for (i, t) in ts.iter().enumerate() {
                    let nm = self.cx.name(&format!("perm:{name}:{other}:{i}"));
                    match self.cx.k(*t) {
                        K::App(Op::Uf(n), a) if *n == nm && a[0] == kt => {
                            if src.is_none() {
                                src = Some(a[1]);
                            }
                            ok &= src == Some(a[1]);
                        }
                        _ => ok = false,
                    }
                }
                if let (true, Some(s)) = (ok, src) {
                    if let K::App(Op::SeqVal, a) = self.cx.k(s).clone() {
                        if a.len() == ts.len() {
                            one!(st, V::seq(a.iter().map(|t| V::S(*t)).collect()));
                        }
                    }
                }
                let n = ts.len();
                let sv = self.cx.app(128, Op::SeqVal, ts);
                let dir = if inv { "D" } else { "E" };
                let mut r = vec![];
                for i in 0..n {
                    let nm = self.cx.name(&format!("perm:{name}:{dir}:{i}"));
                    r.push(V::S(self.cx.app(8, Op::Uf(nm), vec![kt, sv])));
                }
                one!(st, V::seq(r));
            }
            "uf64" | "uf8" => {
                // uninterpreted function of the given words
                let name = self.str_of(st, &args[0])?;
                let v = self.load_deep(st, &args[1])?;
                let mut ts = vec![];
                self.flatten(&v, &mut ts)?;
                let sv = self.cx.app(128, Op::SeqVal, ts);
                let nm = self.cx.name(&name);
                one!(st, V::S(self.cx.app(if m == "uf8" { 8 } else { 64 }, Op::Uf(nm), vec![sv])));
            }
            "uf_bytes" => {
                let name = self.str_of(st, &args[0])?;
                let n = f.gargs.iter().find_map(|g| if let ir::GArg::Const(c) = g { Some(*c) } else { None }).unwrap_or(0);
                let v = self.load_deep(st, &args[1])?;
                let mut ts = vec![];
                self.flatten(&v, &mut ts)?;
                let sv = self.cx.app(128, Op::SeqVal, ts);
                let mut r = vec![];
                for i in 0..n {
                    let nm = self.cx.name(&format!("{name}.{i}"));
                    r.push(V::S(self.cx.app(8, Op::Uf(nm), vec![sv])));
                }
                one!(st, V::seq(r));
            }
            "fmt_arg" => {
                let plain = self.is_plain(f);
                one!(st, V::tup(vec![args[0].clone(), args[1].clone(), V::S(self.cx.b(plain))]));
            }
            "plain" => {
                let plain = self.is_plain(f);
                one!(st, V::S(self.cx.b(plain)));
            }
            "opaque" => one!(st, V::U),
            "formatter" => one!(st, V::tup(vec![args[0].clone()])),
            "fmt_buf" => {
                let p = self.rptr(&args[0])?;
                let v = self.load(st, &p.with(Step::F(0)))?;
                one!(st, v);
            }
            "fmt_piece" | "fmt_plain" => {
                let p = self.rptr(&args[0])?;
                let V::A(a) = self.load(st, &p)? else { return unsup("format arguments") };
                let mut pieces: Vec<Result<Vec<u8>, usize>> = vec![];
                let mut av = vec![];
                let mut opts = false;
                if a.len() == 1 {
                    let lit = a[0].clone();
                    if m == "fmt_plain" {
                        one!(st, V::S(self.cx.b(true)));
                    }
                    let i = self.scalar(&args[1])?;
                    let k = if self.cx.cv(i) == Some(0) { 1 } else { 0 };
                    let kk = V::S(self.cx.c(8, k));
                    one!(st, V::tup(vec![kk, lit, V::U, V::U]));
                }
                let mut tb = vec![];
                for x in self.ptr_elems(st, &a[0])? {
                    let t = self.scalar(&x)?;
                    match self.cx.cv(t) {
                        Some(c) => tb.push(c as u8),
                        None => return unsup("format template"),
                    }
                }
                for x in self.ptr_elems(st, &a[1])? {
                    av.push(x);
                }
                let (mut i, mut n) = (0, 0);
                while i < tb.len() && tb[i] != 0 {
                    let b = tb[i] as usize;
                    if b < 0x80 {
                        pieces.push(Ok(tb[i + 1..i + 1 + b].to_vec()));
                        i += 1 + b;
                    } else if b == 0x80 {
                        let l = tb[i + 1] as usize | (tb[i + 2] as usize) << 8;
                        pieces.push(Ok(tb[i + 3..i + 3 + l].to_vec()));
                        i += 3 + l;
                    } else if b == 0xc0 {
                        pieces.push(Err(n));
                        n += 1;
                        i += 1;
                    } else {
                        opts = true;
                        break;
                    }
                }
                let mut plain = !opts;
                for x in &av {
                    plain &= match x {
                        V::A(e) if e.len() == 3 => match &e[2] {
                            V::S(t) => {
                                let known = match self.deref_all(st, &e[0]) {
                                    Ok(V::U) | Err(_) => false,
                                    Ok(V::A(f)) => !f.iter().any(|v| matches!(v, V::U)),
                                    Ok(_) => true,
                                };
                                known && self.cx.cv(*t) == Some(1)
                            }
                            _ => false,
                        },
                        _ => false,
                    };
                }
                if m == "fmt_plain" {
                    one!(st, V::S(self.cx.b(plain)));
                }
                if !plain {
                    return unsup("format argument");
                }
                let i = self.scalar(&args[1])?;
                let Some(i) = self.cx.cv(i) else { return unsup("format piece") };
                let (k, l, r, g) = match pieces.get(i as usize) {
                    None => (0, V::U, V::U, V::U),
                    Some(Ok(b)) => {
                        let e: Vec<V> = b.iter().map(|c| V::S(self.cx.c(8, *c as u128))).collect();
                        let mut p = Ptr::konst(V::seq(e));
                        p.slice = Some((self.cx.us(0), self.cx.us(b.len() as u128)));
                        (1, V::ptr(p), V::U, V::U)
                    }
                    Some(Err(n)) => {
                        let V::A(e) = &av[*n] else { return unsup("format argument") };
                        (2, V::U, e[0].clone(), e[1].clone())
                    }
                };
                let kk = V::S(self.cx.c(8, k));
                one!(st, V::tup(vec![kk, l, r, g]));
            }
            "pattern" => {
                let v = match &args[0] {
                    V::R(p) => self.load(st, p)?,
                    v => v.clone(),
                };
                match v {
                    V::R(_) => {
                        let w = self.deref_once_str(st, &v)?;
                        one!(st, w);
                    }
                    V::S(c) => {
                        let b = self.ascii(st, c)?;
                        let mut p = Ptr::konst(V::seq(vec![V::S(b)]));
                        p.slice = Some((self.cx.us(0), self.cx.us(1)));
                        one!(st, V::ptr(p));
                    }
                    _ => return unsup("string pattern"),
                }
            }
            "char_byte" => {
                let c = self.scalar(&args[0])?;
                let b = self.ascii(st, c)?;
                one!(st, V::S(b));
            }
            "fields2" => {
                let p = self.rptr(&args[0])?;
                one!(st, V::tup(vec![V::ptr(p.with(Step::F(0))), V::ptr(p.with(Step::F(1)))]));
            }
            "split" => {
                let x = self.scalar(&args[0])?;
                if self.cx.cv(x).is_none() {
                    return Err(Bail::Need(x));
                }
                one!(st, args[0].clone());
            }
            "prune" => {
                let on = self.scalar(&args[0])?;
                self.prune = self.cx.cv(on) == Some(1);
                one!(st, V::unit());
            }
            "paths" => {
                let on = self.scalar(&args[0])?;
                self.no_join = self.cx.cv(on) == Some(1);
                one!(st, V::unit());
            }
            "dump" => {
                let v = self.load_deep(st, &args[0])?;
                let mut ts = vec![];
                let _ = self.flatten(&v, &mut ts);
                eprintln!("dump: {} {:?}", brief(&v), ts.iter().take(20).map(|t| self.cx.show(*t, 4)).collect::<Vec<_>>());
                eprintln!("{:?}", v);
                one!(st, V::unit());
            }
            _ => Ok(None),
        }
    }
    pub fn flatten(&mut self, v: &V, out: &mut Vec<T>) -> Res<()> {
        match v {
            V::S(t) => out.push(*t),
            V::A(f) => {
                for x in f.iter() {
                    self.flatten(x, out)?;
                }
            }
            V::E(i, f) => {
                out.push(self.cx.c(8, *i as u128));
                for x in f.iter() {
                    self.flatten(x, out)?;
                }
            }
            V::Q(q) => match &**q {
                Seq::E(e) => {
                    for x in e {
                        self.flatten(x, out)?;
                    }
                }
                Seq::T(t, _) => out.push(*t),
                Seq::G(_) => return unsup("flatten symbolic sequence"),
            },
            v => return unsup(format!("flatten {}", brief(v))),
        }
        Ok(())
    }
    /// value with references replaced by what they designate
    pub fn load_deep(&mut self, st: &State, v: &V) -> Res<V> {
        Ok(match v {
            V::R(p) => {
                let x = self.load(st, p)?;
                self.load_deep(st, &x)?
            }
            V::A(f) => {
                let mut r = vec![];
                for x in f.iter() {
                    r.push(self.load_deep(st, x)?);
                }
                V::tup(r)
            }
            V::E(i, f) => {
                let mut r = vec![];
                for x in f.iter() {
                    r.push(self.load_deep(st, x)?);
                }
                V::E(*i, Rc::new(r))
            }
            V::Q(q) => match &**q {
                Seq::E(e) if e.iter().any(|x| !matches!(x, V::S(_))) => {
                    let mut r = vec![];
                    for x in e {
                        r.push(self.load_deep(st, x)?);
                    }
                    V::seq(r)
                }
                _ => v.clone(),
            },
            v => v.clone(),
        })
    }
    pub fn named_leaf(&mut self, tag: &str, w: u16) -> T {
        self.named_leaf_r(tag, w, 0, mask(w), false)
    }
    pub fn named_leaf_r(&mut self, tag: &str, w: u16, lo: u128, hi: u128, lv: bool) -> T {
        if let Some(&t) = self.leaf_names.get(tag) {
            return t;
        }
        let t = self.cx.leaf_r(tag, w, lo, hi, lv);
        self.leaf_names.insert(tag.to_string(), t);
        t
    }
}
fn drop_rc(_: &State) {}

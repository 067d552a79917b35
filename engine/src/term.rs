//! Hash-consed value graph ("terms"): the abstract values the analysis computes with.
//! Every constructor normalises, so equal ids mean provably equal values.
//!  * `Bits`  - one algebraic normal form (XOR of ANDs over atom bits) per bit
//!  * `Sum`   - linear combination modulo 2^w
//!  * `App`   - everything else (table look-ups, variable rotations, uninterpreted functions, ...)
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type T = u32;
pub type P = u32; // polynomial id
pub type Atom = u64; // term << 8 | bit

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Lt,
    SLt,
    Eq0,
    Ite,
    Table(u32),
    Rotl,
    Shl,
    Shr,
    Sar,
    ArrLit,
    Store,
    Select,
    Swap,
    ArrIte,
    ArrConst(u32), // constant table as an array value
    Elem(u32),     // element of an input sequence
    Uf(u32),
    UfArr(u32),
    LoopOut(u32, u32), // loop, slot ; args: count, initial values, free leaves
    BitAnd,
    Popcnt,
    Clz,
    SeqVal, // canonical name of an aggregate passed to an uninterpreted function
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Leaf(u32),
    Bits(Box<[P]>),
    Sum(u128, Box<[(T, u128)]>),
    App(Op, Box<[T]>),
}

#[derive(Clone, Debug)]
pub struct TermData {
    pub w: u16,
    pub k: K,
}

#[derive(Clone, Debug)]
pub struct LeafInfo {
    pub name: String,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
    pub loop_var: bool,
}

pub struct LoopInfo {
    pub k: T,         // iteration index leaf
    pub vars: Vec<T>, // leaf per recurrence
    pub step: Vec<T>,
    pub free: Vec<T>, // other leaves of the steps; LoopOut args: count, initial values, values of these
}

pub struct Table {
    pub w: u16,
    pub v: Vec<u128>,
}

pub const W: u16 = 64;
const POLY_CAP: usize = 48;
const DEG_CAP: usize = 6;

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn to_signed(v: u128, w: u16) -> i128 {
    let v = v & mask(w);
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        v as i128 - (1i128 << w)
    } else {
        v as i128
    }
}

pub type Bounds = FxMap<T, (u128, u128)>;

#[derive(Default)]
pub struct Ctx {
    pub terms: Vec<TermData>,
    map: FxMap<(u16, K), T>,
    pub spans: Vec<u32>,
    trunc_cache: FxMap<(T, u16), T>,
    pub cur_span: u32,
    pub monos: Vec<Box<[Atom]>>,
    mono_map: FxMap<Box<[Atom]>, u32>,
    pub polys: Vec<Box<[u32]>>,
    poly_map: FxMap<Box<[u32]>, P>,
    bits_cache: FxMap<T, Rc<[P]>>,
    rev: FxMap<Rc<[P]>, T>,
    pub leaves: Vec<LeafInfo>,
    pub tables: Vec<Table>,
    table_map: FxMap<(u16, Vec<u128>), u32>,
    pub names: Vec<String>,
    name_map: HashMap<String, u32>,
    pub loops: Vec<LoopInfo>,
    const_cache: Vec<FxMap<u128, T>>,
    and_cache: FxMap<(P, P), P>,
    pub arr_len: FxMap<T, usize>,
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx::default();
        c.mono(Box::new([])); // mono 0 = 1
        c.poly(Box::new([])); // poly 0 = 0
        c.poly(Box::new([0])); // poly 1 = 1
        c
    }
    pub fn span(&self, t: T) -> u32 {
        self.spans[t as usize]
    }
    pub fn w(&self, t: T) -> u16 {
        self.terms[t as usize].w
    }
    pub fn k(&self, t: T) -> &K {
        &self.terms[t as usize].k
    }
    pub fn intern(&mut self, w: u16, k: K) -> T {
        if let Some(&t) = self.map.get(&(w, k.clone())) {
            return t;
        }
        let t = self.terms.len() as T;
        self.terms.push(TermData { w, k: k.clone() });
        self.spans.push(self.cur_span);
        self.map.insert((w, k), t);
        t
    }
    fn mono(&mut self, m: Box<[Atom]>) -> u32 {
        if let Some(&i) = self.mono_map.get(&m) {
            return i;
        }
        let i = self.monos.len() as u32;
        self.monos.push(m.clone());
        self.mono_map.insert(m, i);
        i
    }
    fn poly(&mut self, p: Box<[u32]>) -> P {
        if let Some(&i) = self.poly_map.get(&p) {
            return i;
        }
        let i = self.polys.len() as u32;
        self.polys.push(p.clone());
        self.poly_map.insert(p, i);
        i
    }
    pub fn name(&mut self, s: &str) -> u32 {
        if let Some(&i) = self.name_map.get(s) {
            return i;
        }
        let i = self.names.len() as u32;
        self.names.push(s.to_string());
        self.name_map.insert(s.to_string(), i);
        i
    }
    pub fn c(&mut self, w: u16, v: u128) -> T {
        let v = v & mask(w);
        while self.const_cache.len() <= w as usize {
            self.const_cache.push(Default::default());
        }
        if let Some(&t) = self.const_cache[w as usize].get(&v) {
            return t;
        }
        let t = self.intern(w, K::Const(v));
        self.const_cache[w as usize].insert(v, t);
        t
    }
    pub fn b(&mut self, v: bool) -> T {
        self.c(1, v as u128)
    }
    pub fn us(&mut self, v: u128) -> T {
        self.c(W, v)
    }
    pub fn cv(&self, t: T) -> Option<u128> {
        match self.k(t) {
            K::Const(v) => Some(*v),
            _ => None,
        }
    }
    pub fn leaf(&mut self, name: &str, w: u16) -> T {
        self.leaf_r(name, w, 0, mask(w), false)
    }
    pub fn leaf_r(&mut self, name: &str, w: u16, lo: u128, hi: u128, loop_var: bool) -> T {
        let i = self.leaves.len() as u32;
        self.leaves.push(LeafInfo { name: name.into(), w, lo, hi, loop_var });
        self.intern(w, K::Leaf(i))
    }

    // ---------- polynomials ----------
    fn patom(&mut self, t: T, bit: u16) -> P {
        let m = self.mono(Box::new([(t as u64) << 8 | bit as u64]));
        self.poly(Box::new([m]))
    }
    pub fn pxor(&mut self, a: P, b: P) -> P {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        if a == b {
            return 0;
        }
        let (x, y) = (&self.polys[a as usize], &self.polys[b as usize]);
        let mut r = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() && j < y.len() {
            if x[i] == y[j] {
                i += 1;
                j += 1;
            } else if x[i] < y[j] {
                r.push(x[i]);
                i += 1;
            } else {
                r.push(y[j]);
                j += 1;
            }
        }
        r.extend_from_slice(&x[i..]);
        r.extend_from_slice(&y[j..]);
        if r.len() > 400 {
            // keep polynomials small: name one operand
            let (big, other) = if self.polys[a as usize].len() >= self.polys[b as usize].len() { (a, b) } else { (b, a) };
            let o = self.opaque_poly(big);
            return self.pxor(o, other);
        }
        self.poly(r.into_boxed_slice())
    }
    /// A single-atom polynomial standing for `p`.
    fn opaque_poly(&mut self, p: P) -> P {
        let has1 = self.polys[p as usize].first() == Some(&0);
        let q = if has1 { self.pxor(p, 1) } else { p };
        if self.polys[q as usize].len() <= 1 {
            return p;
        }
        let t = self.intern(1, K::Bits(Box::new([q])));
        let a = self.patom(t, 0);
        if has1 {
            self.pxor(a, 1)
        } else {
            a
        }
    }
    pub fn pand(&mut self, a: P, b: P) -> P {
        if a == 0 || b == 0 {
            return 0;
        }
        if a == 1 {
            return b;
        }
        if b == 1 || a == b {
            return a;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.and_cache.get(&key) {
            return r;
        }
        let (la, lb) = (self.polys[a as usize].len(), self.polys[b as usize].len());
        if la * lb > POLY_CAP {
            // name the larger factor(s)
            let a2 = if la > 2 { self.opaque_poly(a) } else { a };
            let b2 = if lb > 2 { self.opaque_poly(b) } else { b };
            if (a2, b2) != (a, b) {
                let r = self.pand(a2, b2);
                self.and_cache.insert(key, r);
                return r;
            }
        }
        let (x, y) = (self.polys[a as usize].clone(), self.polys[b as usize].clone());
        let mut acc: Vec<u32> = Vec::with_capacity(la * lb);
        for &i in x.iter() {
            for &j in y.iter() {
                let m = if i == 0 {
                    j
                } else if j == 0 || i == j {
                    i
                } else {
                    let mut v: Vec<Atom> = self.monos[i as usize].iter().chain(self.monos[j as usize].iter()).copied().collect();
                    v.sort_unstable();
                    v.dedup();
                    if v.len() > DEG_CAP {
                        let t = self.mono_term(&v);
                        let m = (t as u64) << 8;
                        self.mono(Box::new([m]))
                    } else {
                        self.mono(v.into_boxed_slice())
                    }
                };
                acc.push(m);
            }
        }
        acc.sort_unstable();
        let mut r: Vec<u32> = vec![];
        for m in acc {
            if r.last() == Some(&m) {
                r.pop();
            } else {
                r.push(m);
            }
        }
        let r = self.poly(r.into_boxed_slice());
        self.and_cache.insert(key, r);
        r
    }
    fn mono_term(&mut self, v: &[Atom]) -> T {
        let m = self.mono(v.to_vec().into_boxed_slice());
        let p = self.poly(Box::new([m]));
        self.intern(1, K::Bits(Box::new([p])))
    }
    pub fn pnot(&mut self, a: P) -> P {
        self.pxor(a, 1)
    }

    // ---------- bits ----------
    pub fn bits(&mut self, t: T) -> Rc<[P]> {
        if let Some(b) = self.bits_cache.get(&t) {
            return b.clone();
        }
        let w = self.w(t);
        let d = self.terms[t as usize].k.clone();
        let mut is_bits = false;
        let v: Vec<P> = match d {
            K::Const(c) => (0..w).map(|i| (c >> i & 1) as P).collect(),
            K::Bits(b) => {
                is_bits = true;
                b.to_vec()
            }
            K::Leaf(l) => {
                let hi = self.leaves[l as usize].hi;
                (0..w).map(|i| if hi >> i == 0 { 0 } else { self.patom(t, i) }).collect()
            }
            K::Sum(c, ts) => {
                if ts.len() == 1 && ts[0].1.is_power_of_two() && c < ts[0].1 {
                    let k = ts[0].1.trailing_zeros() as usize;
                    let b = self.bits(ts[0].0);
                    (0..w as usize).map(|i| if i < k { (c >> i & 1) as P } else { b[i - k] }).collect()
                } else {
                    let (_, hi) = self.range(t);
                    let mut last = (w, t);
                    (0..w)
                        .map(|i| {
                            if hi >> i == 0 {
                                return 0;
                            }
                            let sw = [8u16, 16, 32, 64, 128].into_iter().find(|s| *s > i).unwrap().min(w);
                            if sw != last.0 {
                                last = (sw, if sw < w { self.trunc(t, sw) } else { t });
                            }
                            let s = last.1;
                            self.sum_bit(s, i)
                        })
                        .collect()
                }
            }
            K::App(Op::Ite, a) => {
                let c = self.bits(a[0])[0];
                let (x, y) = (self.bits(a[1]), self.bits(a[2]));
                (0..w as usize).map(|i| self.pite(c, x[i], y[i])).collect()
            }
            K::App(..) => {
                let (_, hi) = self.range(t);
                (0..w).map(|i| if hi >> i == 0 { 0 } else { self.patom(t, i) }).collect()
            }
        };
        let r: Rc<[P]> = v.into();
        self.bits_cache.insert(t, r.clone());
        if !is_bits {
            self.rev.entry(r.clone()).or_insert(t);
        }
        r
    }
    /// bit i of the term s (usually a Sum of a standard width)
    fn sum_bit(&mut self, s: T, i: u16) -> P {
        let w = self.w(s);
        match self.k(s).clone() {
            K::Sum(c, ts) => {
                let m = mask(i + 1);
                if ts.iter().any(|(_, k)| k & m == 0) {
                    let v: Vec<(T, u128)> = ts.iter().filter(|(_, k)| k & m != 0).map(|(t, k)| (*t, k & m)).collect();
                    let r = self.sum(w, c & m, v);
                    return match self.k(r) {
                        K::Sum(..) => self.patom(r, i),
                        _ => self.bits(r)[i as usize],
                    };
                }
                if i == 0 && ts.len() == 1 {
                    // parity is an exclusive or
                    let mut p = (c & 1) as P;
                    for (t, k) in ts.iter() {
                        if k & 1 == 1 {
                            let b = self.bits(*t)[0];
                            p = self.pxor(p, b);
                        }
                    }
                    return p;
                }
                self.patom(s, i)
            }
            _ => self.bits(s)[i as usize],
        }
    }
    pub fn pite(&mut self, c: P, x: P, y: P) -> P {
        if x == y {
            return x;
        }
        let d = self.pxor(x, y);
        let e = self.pand(c, d);
        self.pxor(e, y)
    }
    pub fn mk_bits(&mut self, v: Vec<P>) -> T {
        let w = v.len() as u16;
        if v.iter().all(|p| *p <= 1) {
            let mut c = 0u128;
            for (i, p) in v.iter().enumerate() {
                c |= (*p as u128) << i;
            }
            return self.c(w, c);
        }
        if let Some(&t) = self.rev.get(&v[..]) {
            return t;
        }
        // a whole term shifted left by k
        let k = v.iter().position(|p| *p != 0).unwrap();
        let pk = &self.polys[v[k] as usize];
        if pk.len() == 1 && pk[0] != 0 && self.monos[pk[0] as usize].len() == 1 {
            let a = self.monos[pk[0] as usize][0];
            let (t0, b0) = ((a >> 8) as T, a & 0xff);
            if b0 == 0 && self.w(t0) == w && (k > 0 || !matches!(self.k(t0), K::Bits(_))) {
                let b = self.bits(t0);
                if b[..w as usize - k] == v[k..] {
                    if k == 0 {
                        return t0;
                    }
                    return self.sum(w, 0, vec![(t0, 1u128 << k)]);
                }
            }
            if w == 1 && b0 == 0 && self.w(t0) == 1 {
                return t0;
            }
        }
        self.intern(w, K::Bits(v.into_boxed_slice()))
    }

    // ---------- bitwise ----------
    pub fn xor(&mut self, a: T, b: T) -> T {
        if a == b {
            let w = self.w(a);
            return self.c(w, 0);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x ^ y),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        let (x, y) = (self.bits(a), self.bits(b));
        let v = (0..w as usize).map(|i| self.pxor(x[i], y[i])).collect();
        self.mk_bits(v)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x & y),
            (Some(0), _) | (_, Some(0)) => return self.c(w, 0),
            (Some(m), _) if m == mask(w) => return b,
            (_, Some(m)) if m == mask(w) => return a,
            _ => {}
        }
        let (x, y) = (self.bits(a), self.bits(b));
        let v = (0..w as usize).map(|i| self.pand(x[i], y[i])).collect();
        self.mk_bits(v)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x | y),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            _ => {}
        }
        let (x, y) = (self.bits(a), self.bits(b));
        let v = (0..w as usize)
            .map(|i| {
                let m = self.pand(x[i], y[i]);
                let s = self.pxor(x[i], y[i]);
                self.pxor(s, m)
            })
            .collect();
        self.mk_bits(v)
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(x) = self.cv(a) {
            return self.c(w, !x);
        }
        let m = self.c(w, mask(w));
        self.xor(a, m)
    }
    pub fn trunc(&mut self, t: T, nw: u16) -> T {
        if let Some(&r) = self.trunc_cache.get(&(t, nw)) {
            return r;
        }
        let r = self.trunc_raw(t, nw);
        self.trunc_cache.insert((t, nw), r);
        r
    }
    fn trunc_raw(&mut self, t: T, nw: u16) -> T {
        let w = self.w(t);
        if nw >= w {
            return self.zext(t, nw);
        }
        match self.k(t).clone() {
            K::Const(c) => self.c(nw, c),
            K::Sum(c, ts) if matches!(nw, 8 | 16 | 32 | 64) => {
                let v: Vec<(T, u128)> = ts.iter().filter(|x| x.1 & mask(nw) != 0).map(|(t, k)| (self.trunc(*t, nw), *k & mask(nw))).collect();
                self.sum(nw, c & mask(nw), v)
            }
            K::App(Op::Mul, a) => {
                let mut r = self.trunc(a[0], nw);
                for x in &a[1..] {
                    let y = self.trunc(*x, nw);
                    r = self.mul(r, y);
                }
                r
            }
            K::App(Op::Ite, a) => {
                let (x, y) = (self.trunc(a[1], nw), self.trunc(a[2], nw));
                self.ite(a[0], x, y)
            }
            _ => {
                let b = self.bits(t);
                self.mk_bits(b[..nw as usize].to_vec())
            }
        }
    }
    pub fn zext(&mut self, t: T, nw: u16) -> T {
        let w = self.w(t);
        if nw == w {
            return t;
        }
        if nw < w {
            return self.trunc(t, nw);
        }
        match self.k(t).clone() {
            K::Const(c) => return self.c(nw, c),
            K::Sum(c, ts) if self.nowrap(t) => {
                let v: Vec<(T, u128)> = ts.iter().map(|(t, k)| (self.zext(*t, nw), to_signed(*k, w) as u128 & mask(nw))).collect();
                let cs = to_signed(c, w);
                // the constant keeps the representation used by nowrap()
                return self.sum(nw, cs as u128 & mask(nw), v);
            }
            K::App(Op::Ite, a) => {
                let (x, y) = (self.zext(a[1], nw), self.zext(a[2], nw));
                return self.ite(a[0], x, y);
            }
            _ => {}
        }
        let b = self.bits(t);
        let mut v = b.to_vec();
        v.resize(nw as usize, 0);
        self.mk_bits(v)
    }
    pub fn sext(&mut self, t: T, nw: u16) -> T {
        let w = self.w(t);
        if nw <= w {
            return self.trunc(t, nw);
        }
        if let Some(c) = self.cv(t) {
            return self.c(nw, to_signed(c, w) as u128);
        }
        let b = self.bits(t);
        let mut v = b.to_vec();
        let top = v[w as usize - 1];
        v.resize(nw as usize, top);
        self.mk_bits(v)
    }
    pub fn shl_c(&mut self, t: T, k: u32) -> T {
        let w = self.w(t);
        if k as u16 >= w {
            return self.c(w, 0);
        }
        if k == 0 {
            return t;
        }
        match self.k(t) {
            K::Bits(_) => {
                let b = self.bits(t);
                let mut v = vec![0; k as usize];
                v.extend_from_slice(&b[..w as usize - k as usize]);
                self.mk_bits(v)
            }
            _ => self.sum(w, 0, vec![(t, 1u128 << k)]),
        }
    }
    pub fn shr_c(&mut self, t: T, k: u32) -> T {
        let w = self.w(t);
        if k as u16 >= w {
            return self.c(w, 0);
        }
        if k == 0 {
            return t;
        }
        if let Some(c) = self.cv(t) {
            return self.c(w, c >> k);
        }
        if matches!(self.k(t), K::Sum(..)) {
            if let Some((q, _)) = self.exact_div(t, 1u128 << k) {
                return q;
            }
        }
        let b = self.bits(t);
        let mut v = b[k as usize..].to_vec();
        v.resize(w as usize, 0);
        self.mk_bits(v)
    }
    pub fn sar_c(&mut self, t: T, k: u32) -> T {
        let w = self.w(t);
        let k = (k as u16).min(w - 1) as usize;
        let b = self.bits(t);
        let mut v = b[k..].to_vec();
        v.resize(w as usize, b[w as usize - 1]);
        self.mk_bits(v)
    }
    pub fn rotl_c(&mut self, t: T, k: u32) -> T {
        let w = self.w(t) as u32;
        let k = k % w;
        if k == 0 {
            return t;
        }
        if let Some(c) = self.cv(t) {
            let c = (c << k | c >> (w - k)) & mask(w as u16);
            return self.c(w as u16, c);
        }
        let b = self.bits(t);
        let v = (0..w).map(|i| b[((i + w - k) % w) as usize]).collect();
        self.mk_bits(v)
    }
    /// rotate left by a variable amount (any width; only its low log2(w) bits matter)
    pub fn rotl(&mut self, t: T, amt: T) -> T {
        let w = self.w(t);
        let lw = w.trailing_zeros() as u16;
        if !w.is_power_of_two() {
            let a = self.app(w, Op::Rotl, vec![t, amt]);
            return a;
        }
        let a = self.trunc(amt, lw);
        if let Some(k) = self.cv(a) {
            return self.rotl_c(t, k as u32);
        }
        if let K::App(Op::Rotl, args) = self.k(t).clone() {
            let s = self.add(args[1], a);
            return self.rotl(args[0], s);
        }
        self.app(w, Op::Rotl, vec![t, a])
    }
    pub fn rotr(&mut self, t: T, amt: T) -> T {
        let w = self.w(t);
        let lw = w.trailing_zeros() as u16;
        let a = self.trunc(amt, lw);
        let n = self.neg(a);
        self.rotl(t, n)
    }
    pub fn shl(&mut self, t: T, amt: T) -> T {
        let w = self.w(t);
        if let Some(k) = self.cv(amt) {
            return self.shl_c(t, k.min(255) as u32);
        }
        let lw = w.trailing_zeros() as u16;
        let a = if self.w(amt) > 32 { self.trunc(amt, 32) } else { self.zext(amt, 32) };
        let _ = lw;
        self.app(w, Op::Shl, vec![t, a])
    }
    pub fn shr(&mut self, t: T, amt: T) -> T {
        let w = self.w(t);
        if let Some(k) = self.cv(amt) {
            return self.shr_c(t, k.min(255) as u32);
        }
        let a = if self.w(amt) > 32 { self.trunc(amt, 32) } else { self.zext(amt, 32) };
        self.app(w, Op::Shr, vec![t, a])
    }
    pub fn sar(&mut self, t: T, amt: T) -> T {
        let w = self.w(t);
        if let Some(k) = self.cv(amt) {
            return self.sar_c(t, k.min(255) as u32);
        }
        let a = if self.w(amt) > 32 { self.trunc(amt, 32) } else { self.zext(amt, 32) };
        self.app(w, Op::Sar, vec![t, a])
    }
    /// raw application
    pub fn app(&mut self, w: u16, op: Op, args: Vec<T>) -> T {
        if let Op::Clz | Op::Popcnt = op {
            if let Some(c) = self.cv(args[0]) {
                let n = self.w(args[0]) as u32;
                let v = if let Op::Clz = op { c.leading_zeros() - (128 - n) } else { c.count_ones() };
                return self.c(w, v as u128);
            }
        }
        self.intern(w, K::App(op, args.into_boxed_slice()))
    }

    // ---------- sums ----------
    fn compl(&mut self, t: T) -> Option<T> {
        // t == !u for a u that is a natural term
        if let K::Bits(b) = self.k(t) {
            if b.iter().all(|p| self.polys[*p as usize].first() == Some(&0) && *p != 1) {
                return Some(self.not(t));
            }
        }
        None
    }
    pub fn sum(&mut self, w: u16, c0: u128, terms: Vec<(T, u128)>) -> T {
        let m = mask(w);
        let mut c = c0 & m;
        let mut acc: Vec<(T, u128)> = Vec::with_capacity(terms.len() + 2);
        let mut work = terms;
        while let Some((t, k)) = work.pop() {
            let k = k & m;
            if k == 0 {
                continue;
            }
            match self.k(t) {
                K::Const(v) => c = c.wrapping_add(v.wrapping_mul(k)) & m,
                K::Sum(c1, ts) => {
                    c = c.wrapping_add(c1.wrapping_mul(k)) & m;
                    for (t2, k2) in ts.iter() {
                        work.push((*t2, k2.wrapping_mul(k)));
                    }
                }
                K::Bits(b) => {
                    // constant-one bits, powers of two, complements
                    let mut ones = 0u128;
                    for (i, p) in b.iter().enumerate() {
                        if *p == 1 {
                            ones |= 1u128 << i;
                        }
                    }
                    if ones != 0 {
                        let v: Vec<P> = b.iter().map(|p| if *p == 1 { 0 } else { *p }).collect();
                        c = c.wrapping_add(ones.wrapping_mul(k)) & m;
                        let t2 = self.mk_bits(v);
                        work.push((t2, k));
                        continue;
                    }
                    if k & 1 == 0 {
                        let z = k.trailing_zeros();
                        let t2 = self.shl_c(t, z);
                        if matches!(self.k(t2), K::Bits(_) | K::Const(_)) {
                            if z == 127 || k >> z == 1 {
                                if z > 0 {
                                    work.push((t2, 1));
                                    continue;
                                }
                            } else {
                                work.push((t2, k >> z));
                                continue;
                            }
                        } else {
                            work.push((t2, k >> z));
                            continue;
                        }
                    }
                    if let Some(u) = self.compl(t) {
                        c = c.wrapping_sub(k) & m;
                        work.push((u, k.wrapping_neg() & m));
                        continue;
                    }
                    acc.push((t, k));
                }
                _ => acc.push((t, k)),
            }
        }
        acc.sort_unstable_by_key(|x| x.0);
        let mut r: Vec<(T, u128)> = Vec::with_capacity(acc.len());
        let mut again = false;
        for (t, k) in acc {
            if let Some(l) = r.last_mut() {
                if l.0 == t {
                    l.1 = l.1.wrapping_add(k) & m;
                    if l.1 == 0 {
                        r.pop();
                    } else if l.1 & 1 == 0 && matches!(self.k(t), K::Bits(_)) {
                        again = true;
                    }
                    continue;
                }
            }
            r.push((t, k));
        }
        // pairwise bit-disjoint parts (and constant): the sum is their union
        if r.len() >= 2 && r.iter().all(|x| x.1 == 1) {
            let mut seen = c;
            let ok = r.iter().all(|x| match self.k(x.0) {
                K::Bits(b) => {
                    let nz = b.iter().enumerate().fold(0u128, |a, (j, p)| if *p != 0 { a | 1 << j } else { a });
                    let d = seen & nz == 0;
                    seen |= nz;
                    d
                }
                K::Sum(..) => false,
                _ => {
                    let (_, hi) = self.range(x.0);
                    let nz = if hi == 0 { 0 } else { mask(128 - hi.leading_zeros() as u16) };
                    let d = seen & nz == 0;
                    seen |= nz;
                    d
                }
            });
            if ok {
                let mut v: Vec<P> = (0..w).map(|i| (c >> i & 1) as P).collect();
                for (t, _) in &r {
                    let b = self.bits(*t);
                    for (i, p) in b.iter().enumerate() {
                        if *p != 0 {
                            v[i] = *p;
                        }
                    }
                }
                return self.mk_bits(v);
            }
        }
        if again {
            return self.sum(w, c, r);
        }
        if r.is_empty() {
            return self.c(w, c);
        }
        if r.len() == 1 {
            let (t, k) = r[0];
            if k == 1 {
                if c == 0 {
                    return t;
                }
                if let K::Bits(b) = self.k(t) {
                    if b.iter().enumerate().all(|(i, p)| *p == 0 || c >> i & 1 == 0) {
                        let v: Vec<P> = b.iter().enumerate().map(|(i, p)| if c >> i & 1 == 1 { 1 } else { *p }).collect();
                        return self.mk_bits(v);
                    }
                }
            }
            if k == m && c == m {
                return self.not(t);
            }
        }
        self.intern(w, K::Sum(c, r.into_boxed_slice()))
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x.wrapping_add(y));
        }
        self.sum(w, 0, vec![(a, 1), (b, 1)])
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x.wrapping_sub(y));
        }
        self.sum(w, 0, vec![(a, 1), (b, mask(w))])
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        self.sum(w, 0, vec![(a, mask(w))])
    }
    pub fn addc(&mut self, a: T, v: u128) -> T {
        let w = self.w(a);
        let c = self.c(w, v);
        self.add(a, c)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_mul(y)),
            (Some(x), None) => return self.sum(w, 0, vec![(b, x)]),
            (None, Some(y)) => return self.sum(w, 0, vec![(a, y)]),
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        // distribute over small sums so that products have one normal form
        if let K::Sum(c, ts) = self.k(a).clone() {
            if ts.len() <= 8 {
                let mut v = vec![(b, c)];
                for (t, k) in ts.iter() {
                    v.push((self.mul(*t, b), *k));
                }
                return self.sum(w, 0, v);
            }
        }
        if let K::Sum(..) = self.k(b) {
            if let K::Sum(_, ts) = self.k(b) {
                if ts.len() <= 8 {
                    return self.mul(b, a);
                }
            }
        }
        let mut f = vec![];
        for t in [a, b] {
            match self.k(t) {
                K::App(Op::Mul, x) => f.extend(x.iter().copied()),
                _ => f.push(t),
            }
        }
        f.sort_unstable();
        self.app(w, Op::Mul, f)
    }
    /// signed-coefficient interval of a Sum; None if it may wrap
    fn sum_iv(&self, t: T, bnd: Option<&Bounds>) -> Option<(i128, i128)> {
        let w = self.w(t);
        if w > 120 {
            return None;
        }
        if let K::Sum(c, ts) = self.k(t) {
            let mut best = None;
            for cs in [*c as i128, to_signed(*c, w)] {
                let (mut lo, mut hi) = (cs, cs);
                let mut ok = true;
                for (t, k) in ts.iter() {
                    let k = to_signed(*k, w);
                    let (l, h) = self.range_b(*t, bnd);
                    if h >= 1 << 120 {
                        ok = false;
                        break;
                    }
                    let (a, b) = match ((l as i128).checked_mul(k), (h as i128).checked_mul(k)) {
                        (Some(a), Some(b)) => (a, b),
                        _ => {
                            ok = false;
                            break;
                        }
                    };
                    let (a, b) = if a <= b { (a, b) } else { (b, a) };
                    match (lo.checked_add(a), hi.checked_add(b)) {
                        (Some(x), Some(y)) => {
                            lo = x;
                            hi = y;
                        }
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok && lo >= 0 && hi <= mask(w) as i128 {
                    best = Some((lo, hi));
                    break;
                }
            }
            best
        } else {
            None
        }
    }
    pub fn nowrap(&self, t: T) -> bool {
        // with the signed constant (needed by zext)
        let w = self.w(t);
        if let K::Sum(c, ts) = self.k(t) {
            if w > 120 {
                return false;
            }
            let cs = to_signed(*c, w);
            let (mut lo, mut hi) = (cs, cs);
            for (t, k) in ts.iter() {
                let k = to_signed(*k, w);
                let (l, h) = self.range_b(*t, None);
                if h >= 1 << 120 {
                    return false;
                }
                let (Some(a), Some(b)) = ((l as i128).checked_mul(k), (h as i128).checked_mul(k)) else { return false };
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                let (Some(x), Some(y)) = (lo.checked_add(a), hi.checked_add(b)) else { return false };
                lo = x;
                hi = y;
            }
            return lo >= 0 && hi <= mask(w) as i128;
        }
        true
    }
    /// t = q*c + r with 0 <= r < c known symbolically
    fn exact_div(&mut self, t: T, c: u128) -> Option<(T, T)> {
        let w = self.w(t);
        let (cc, ts) = match self.k(t).clone() {
            K::Sum(a, b) => (a, b),
            _ => return None,
        };
        if !self.nowrap(t) {
            return None;
        }
        let cs = to_signed(cc, w);
        let ci = c as i128;
        let cq = cs.div_euclid(ci);
        let cr = cs.rem_euclid(ci);
        let mut q = vec![];
        let mut r = vec![];
        for (t, k) in ts.iter() {
            let k = to_signed(*k, w);
            if k % ci == 0 {
                q.push((*t, (k / ci) as u128 & mask(w)));
            } else {
                r.push((*t, k as u128 & mask(w)));
            }
        }
        if q.is_empty() {
            return None;
        }
        let rt = self.sum(w, cr as u128, r);
        let (_, hi) = self.range(rt);
        if hi >= c {
            return None;
        }
        let qt = self.sum(w, cq as u128 & mask(w), q);
        Some((qt, rt))
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(d) = self.cv(b) {
            if d != 0 {
                if let Some(x) = self.cv(a) {
                    return self.c(w, x / d);
                }
                if d == 1 {
                    return a;
                }
                if self.range(a).1 < d {
                    return self.c(w, 0);
                }
                if let Some((q, _)) = self.exact_div(a, d) {
                    return q;
                }
                if d.is_power_of_two() {
                    return self.shr_c(a, d.trailing_zeros());
                }
            }
        }
        self.app(w, Op::UDiv, vec![a, b])
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(d) = self.cv(b) {
            if d != 0 {
                if let Some(x) = self.cv(a) {
                    return self.c(w, x % d);
                }
                if d == 1 {
                    return self.c(w, 0);
                }
                if self.range(a).1 < d {
                    return a;
                }
                if let Some((_, r)) = self.exact_div(a, d) {
                    return r;
                }
                if d.is_power_of_two() {
                    let m = self.c(w, d - 1);
                    return self.and(a, m);
                }
            }
        }
        self.app(w, Op::URem, vec![a, b])
    }
    // ---------- comparisons ----------
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(true);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.b(x == y);
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl || bh < al {
            return self.b(false);
        }
        // a constant against an if-then-else of constants etc. goes through the bits
        let is_sum = |c: &Ctx, t: T| matches!(c.k(t), K::Sum(..)) || (c.w(t) == 64 && matches!(c.k(t), K::App(Op::Mul, _)));
        let d = if is_sum(self, a) || is_sum(self, b) {
            let d = self.sub(a, b);
            match self.k(d) {
                K::Const(v) => {
                    let v = *v == 0;
                    return self.b(v);
                }
                K::Sum(_, ts) => {
                    // all coefficients share a power of two that the constant lacks
                    let z = ts.iter().map(|x| x.1.trailing_zeros()).min().unwrap();
                    if let K::Sum(c, _) = self.k(d) {
                        if *c != 0 && c.trailing_zeros() < z {
                            return self.b(false);
                        }
                    }
                    let neg = to_signed(ts[0].1, w) < 0;
                    if neg {
                        self.neg(d)
                    } else {
                        d
                    }
                }
                _ => d,
            }
        } else {
            self.xor(a, b)
        };
        if let Some(v) = self.cv(d) {
            return self.b(v == 0);
        }
        self.is_zero(d)
    }
    fn is_zero(&mut self, d: T) -> T {
        if self.w(d) == 1 {
            return self.not(d);
        }
        if let K::Bits(b) = self.k(d).clone() {
            if b.iter().any(|p| *p == 1) {
                return self.b(false);
            }
            let nz: Vec<P> = b.iter().copied().filter(|p| *p != 0).collect();
            if nz.len() == 1 {
                let n = self.pnot(nz[0]);
                return self.mk_bits(vec![n]);
            }
            // zero-extension does not matter
            let top = b.iter().rposition(|p| *p != 0).unwrap() + 1;
            if top < b.len() {
                let t = self.mk_bits(b[..top].to_vec());
                return self.is_zero(t);
            }
        }
        if let K::App(Op::Ite, a) = self.k(d).clone() {
            let z = self.c(self.w(d), 0);
            let (x, y) = (self.eq(a[1], z), self.eq(a[2], z));
            return self.ite(a[0], x, y);
        }
        self.app(1, Op::Eq0, vec![d])
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn lt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.b(false);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.b(x < y);
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah < bl {
            return self.b(true);
        }
        if al >= bh {
            return self.b(false);
        }
        if let Some(r) = self.lt_lin(a, b, None) {
            return self.b(r);
        }
        let w = self.w(a);
        if self.w(a) == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if self.cv(b) == Some(1) {
            let z = self.c(w, 0);
            return self.eq(a, z);
        }
        if self.cv(a) == Some(0) {
            let z = self.c(w, 0);
            return self.ne(b, z);
        }
        // top bit tests
        if let Some(c) = self.cv(b) {
            if c.is_power_of_two() {
                let h = self.shr_c(a, c.trailing_zeros());
                let z = self.c(w, 0);
                let one_bit = match self.k(h) {
                    K::Bits(b) => b.iter().filter(|p| **p != 0).count() <= 1,
                    K::Const(_) => true,
                    _ => false,
                };
                if one_bit {
                    return self.eq(h, z);
                }
            }
        }
        if let Some(c) = self.cv(a) {
            if (c + 1).is_power_of_two() {
                let c1 = self.c(w, c + 1);
                let l = self.lt(b, c1);
                return self.not(l);
            }
            // c < b  <=>  !(b < c+1)
            let c1 = self.c(w, c + 1);
            let l = self.lt(b, c1);
            return self.not(l);
        }
        self.app(1, Op::Lt, vec![a, b])
    }
    /// decide a < b from linear forms that do not wrap
    pub fn lt_lin(&mut self, a: T, b: T, bnd: Option<&Bounds>) -> Option<bool> {
        let w = self.w(a);
        if w > 64 {
            return None;
        }
        let ok = |c: &Ctx, t: T| match c.k(t) {
            K::Sum(..) => c.sum_iv(t, bnd).is_some(),
            _ => true,
        };
        if !ok(self, a) || !ok(self, b) {
            return None;
        }
        let mut d: FxMap<T, i128> = Default::default();
        let mut c0: i128 = 0;
        for (t, s) in [(b, 1i128), (a, -1i128)] {
            match self.k(t) {
                K::Const(v) => c0 += s * *v as i128,
                K::Sum(c, ts) => {
                    // choose the constant representation that does not wrap
                    let iv = self.sum_iv(t, bnd).unwrap();
                    let mut lo = 0i128;
                    for (t, k) in ts.iter() {
                        let k = to_signed(*k, w);
                        let (l, h) = self.range_b(*t, bnd);
                        lo += (l as i128 * k).min(h as i128 * k);
                    }
                    let cs = iv.0 - lo;
                    let _ = c;
                    c0 += s * cs;
                    for (t, k) in ts.iter() {
                        *d.entry(*t).or_default() += s * to_signed(*k, w);
                    }
                }
                _ => *d.entry(t).or_default() += s,
            }
        }
        let (mut lo, mut hi) = (c0, c0);
        for (t, k) in d {
            if k == 0 {
                continue;
            }
            let (l, h) = self.range_b(t, bnd);
            if h > 1 << 64 {
                return None;
            }
            let (x, y) = ((l as i128).checked_mul(k)?, (h as i128).checked_mul(k)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        if lo > 0 {
            Some(true)
        } else if hi <= 0 {
            Some(false)
        } else {
            None
        }
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.b(to_signed(x, w) < to_signed(y, w));
        }
        // flip the sign bits
        if self.cv(b) == Some(0) {
            let p = self.bits(a)[w as usize - 1];
            return self.mk_bits(vec![p]);
        }
        let (_, ah) = self.range(a);
        let (_, bh) = self.range(b);
        if ah <= mask(w) >> 1 && bh <= mask(w) >> 1 {
            return self.lt(a, b);
        }
        self.app(1, Op::SLt, vec![a, b])
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        let w = self.w(a);
        let small = |s: &Ctx, t: T| matches!(s.k(t), K::Const(_) | K::Bits(_));
        if w <= 32 || (small(self, a) && small(self, b)) {
            let p = self.bits(c)[0];
            let (x, y) = (self.bits(a), self.bits(b));
            let v = (0..w as usize).map(|i| self.pite(p, x[i], y[i])).collect();
            return self.mk_bits(v);
        }
        // orient by the condition's polarity
        let p = self.bits(c)[0];
        if self.polys[p as usize].first() == Some(&0) {
            let n = self.not(c);
            return self.app(w, Op::Ite, vec![n, b, a]);
        }
        self.app(w, Op::Ite, vec![c, a, b])
    }

    // ---------- ranges ----------
    /// the term these bits are a zero extension of
    pub fn zext_of(&self, b: &[P]) -> Option<T> {
        let i = b.iter().rposition(|p| *p != 0)?;
        let p = &self.polys[b[i] as usize];
        if p.len() != 1 {
            return None;
        }
        let m = &self.monos[p[0] as usize];
        if m.len() != 1 || (m[0] & 0xff) as usize != i {
            return None;
        }
        let t = (m[0] >> 8) as T;
        let c = self.bits_cache.get(&t)?;
        if c.len() > b.len() || c[..] != b[..c.len()] || matches!(self.k(t), K::Bits(_)) {
            return None;
        }
        Some(t)
    }
    pub fn range(&self, t: T) -> (u128, u128) {
        self.range_b(t, None)
    }
    pub fn range_b(&self, t: T, bnd: Option<&Bounds>) -> (u128, u128) {
        let w = self.w(t);
        let m = mask(w);
        let r = match self.k(t) {
            K::Const(c) => (*c, *c),
            K::Leaf(l) => (self.leaves[*l as usize].lo, self.leaves[*l as usize].hi),
            K::Bits(b) => {
                let (mut lo, mut hi) = (0, 0);
                for (i, p) in b.iter().enumerate() {
                    if *p == 1 {
                        lo |= 1u128 << i;
                    }
                    if *p != 0 {
                        hi |= 1u128 << i;
                    }
                }
                match self.zext_of(b) {
                    Some(x) if x != t => {
                        let (l, h) = self.range_b(x, bnd);
                        (lo.max(l), hi.min(h))
                    }
                    _ => (lo, hi),
                }
            }
            K::Sum(..) => match self.sum_iv(t, bnd) {
                Some((l, h)) => (l as u128, h as u128),
                None => (0, m),
            },
            K::App(Op::URem, a) => match self.range_b(a[1], bnd) {
                (_, 0) => (0, m),
                (_, h) => (0, (h - 1).min(self.range_b(a[0], bnd).1)),
            },
            K::App(Op::UDiv, a) => {
                let (l, h) = self.range_b(a[0], bnd);
                let (dl, dh) = self.range_b(a[1], bnd);
                if dl == 0 || dh == 0 {
                    (0, m)
                } else {
                    (l / dh, h / dl)
                }
            }
            K::App(Op::Shr, a) => (0, self.range_b(a[0], bnd).1),
            K::App(Op::Ite, a) => {
                let (l1, h1) = self.range_b(a[1], bnd);
                let (l2, h2) = self.range_b(a[2], bnd);
                (l1.min(l2), h1.max(h2))
            }
            K::App(Op::Mul, a) => {
                let mut r: Option<(u128, u128)> = Some((1, 1));
                for x in a.iter() {
                    let (l, h) = self.range_b(*x, bnd);
                    r = r.and_then(|(a, b)| Some((a.checked_mul(l)?, b.checked_mul(h)?)));
                }
                match r {
                    Some((a, b)) if b <= m => (a, b),
                    _ => (0, m),
                }
            }
            K::App(Op::Table(t), _) => {
                let v = &self.tables[*t as usize].v;
                (*v.iter().min().unwrap_or(&0), *v.iter().max().unwrap_or(&0))
            }
            K::App(Op::Popcnt, _) | K::App(Op::Clz, _) => (0, 128),
            _ => (0, m),
        };
        match bnd.and_then(|b| b.get(&t)) {
            Some((l, h)) => (r.0.max(*l), r.1.min(*h)),
            None => r,
        }
    }

    // ---------- tables and arrays ----------
    pub fn table_id(&mut self, w: u16, v: Vec<u128>) -> u32 {
        if let Some(&i) = self.table_map.get(&(w, v.clone())) {
            return i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(Table { w, v: v.clone() });
        self.table_map.insert((w, v), i);
        i
    }
    /// constant table look-up; the caller has established idx < len
    pub fn lookup(&mut self, w: u16, v: Vec<u128>, idx: T) -> T {
        if let Some(i) = self.cv(idx) {
            return match v.get(i as usize) {
                Some(x) => self.c(w, *x),
                None => self.c(w, 0),
            };
        }
        // restrict to the index bits that can vary; pad to a power of two
        let ib = self.bits(idx);
        let var: Vec<P> = ib.iter().copied().filter(|p| *p != 0).collect();
        if var.iter().any(|p| *p == 1) || var.len() != ib.iter().rposition(|p| *p != 0).unwrap() + 1 {
            // some index bits are fixed: specialise
            let pos: Vec<usize> = (0..ib.len()).filter(|&i| ib[i] > 1).collect();
            let base: usize = (0..ib.len()).filter(|&i| ib[i] == 1).map(|i| 1usize << i).sum();
            if pos.len() <= 8 {
                let n = 1usize << pos.len();
                let mut nv = vec![];
                for x in 0..n {
                    let mut ix = base;
                    for (j, p) in pos.iter().enumerate() {
                        if x >> j & 1 == 1 {
                            ix |= 1 << p;
                        }
                    }
                    nv.push(v.get(ix).copied().unwrap_or(0));
                }
                let bits: Vec<P> = pos.iter().map(|p| ib[*p]).collect();
                let t = self.mk_bits(bits);
                return self.lookup(w, nv, t);
            }
        }
        let n = var.len();
        if n <= 12 {
            let mut v = v;
            let full = 1usize << n;
            let last = v.last().copied().unwrap_or(0);
            if v.len() > full {
                v.truncate(full);
            }
            if v.len() == full {
                if let Some(p) = self.affine(w, &v, &var) {
                    return p;
                }
            }
            let _ = last;
            // composition of look-ups
            if let Some((x, pos)) = self.bits_of_one(&var) {
                if let K::App(Op::Table(t1), a) = self.k(x).clone() {
                    let inner = self.tables[t1 as usize].v.clone();
                    let ix = |x: u128| pos.iter().enumerate().fold(0usize, |r, (j, p)| r | ((x >> p & 1) as usize) << j);
                    if inner.iter().all(|x| ix(*x) < v.len()) {
                        let comp: Vec<u128> = inner.iter().map(|x| v[ix(*x)]).collect();
                        return self.lookup(w, comp, a[0]);
                    }
                }
            }
            let nb = self.mk_bits(var);
            if let K::App(Op::Table(t1), a) = self.k(nb).clone() {
                let inner = &self.tables[t1 as usize].v;
                if inner.iter().all(|x| (*x as usize) < v.len()) {
                    let comp: Vec<u128> = inner.iter().map(|x| v[*x as usize]).collect();
                    return self.lookup(w, comp, a[0]);
                }
            }
            let id = self.table_id(w, v);
            return self.app(w, Op::Table(id), vec![nb]);
        }
        let id = self.table_id(w, v);
        self.app(w, Op::Table(id), vec![idx])
    }
    /// bits that are all plain bits of one term
    fn bits_of_one(&self, b: &[P]) -> Option<(T, Vec<u32>)> {
        let mut x = None;
        let mut pos = vec![];
        for p in b {
            let [m] = &self.polys[*p as usize][..] else { return None };
            let [a] = &self.monos[*m as usize][..] else { return None };
            let t = (*a >> 8) as T;
            if *x.get_or_insert(t) != t {
                return None;
            }
            pos.push((*a & 0xff) as u32);
        }
        Some((x?, pos))
    }
    /// tables that are affine over GF(2) in the index bits become explicit XORs
    fn affine(&mut self, w: u16, v: &[u128], bits: &[P]) -> Option<T> {
        let c = v[0];
        let col: Vec<u128> = (0..bits.len()).map(|j| v[1 << j] ^ c).collect();
        for (i, x) in v.iter().enumerate() {
            let mut e = c;
            for (j, k) in col.iter().enumerate() {
                if i >> j & 1 == 1 {
                    e ^= k;
                }
            }
            if e != *x {
                return None;
            }
        }
        let mut out = vec![];
        for b in 0..w {
            let mut p = (c >> b & 1) as P;
            for (j, k) in col.iter().enumerate() {
                if k >> b & 1 == 1 {
                    p = self.pxor(p, bits[j]);
                }
            }
            out.push(p);
        }
        Some(self.mk_bits(out))
    }
    pub fn arr_lit(&mut self, ew: u16, elems: Vec<T>) -> T {
        let n = elems.len();
        let t = if elems.iter().all(|t| self.cv(*t).is_some()) {
            let v: Vec<u128> = elems.iter().map(|t| self.cv(*t).unwrap()).collect();
            let id = self.table_id(ew, v);
            self.app(ew, Op::ArrConst(id), vec![])
        } else {
            self.app(ew, Op::ArrLit, elems)
        };
        self.arr_len.insert(t, n);
        t
    }
    fn ixeq(&mut self, a: T, b: T) -> Option<bool> {
        let (a, b) = (self.ixn(a), self.ixn(b));
        if a == b {
            return Some(true);
        }
        let w = self.w(a).max(self.w(b));
        let (a, b) = (self.zext(a, w), self.zext(b, w));
        let e = self.eq(a, b);
        self.cv(e).map(|v| v == 1)
    }
    /// index canonicalised to its significant bits
    fn ixn(&mut self, i: T) -> T {
        if self.cv(i).is_some() {
            return self.zext(i, W);
        }
        let b = self.bits(i);
        let n = b.iter().rposition(|p| *p != 0).map(|x| x + 1).unwrap_or(1);
        let w = self.w(i) as usize;
        // standard widths only, so that sums keep their shape
        let nw = [1usize, 4, 5, 6, 7, 8, 16, 32, 64].into_iter().find(|x| *x >= n).unwrap().min(w);
        if nw < w {
            return self.mk_bits(b[..nw].to_vec());
        }
        i
    }
    pub fn select(&mut self, a: T, idx: T) -> T {
        let idx = self.ixn(idx);
        let w = self.w(a);
        match self.k(a).clone() {
            K::App(Op::ArrConst(id), _) => {
                let v = self.tables[id as usize].v.clone();
                self.lookup(w, v, idx)
            }
            K::App(Op::ArrLit, e) => {
                if let Some(x) = self.cv(idx).and_then(|i| e.get(i as usize)) {
                    return *x;
                }
                self.app(w, Op::Select, vec![a, idx])
            }
            K::App(Op::Store, s) => match self.ixeq(s[1], idx) {
                Some(true) => s[2],
                Some(false) => self.select(s[0], idx),
                None => self.app(w, Op::Select, vec![a, idx]),
            },
            K::App(Op::Swap, s) => {
                let (e1, e2) = (self.ixeq(s[1], idx), self.ixeq(s[2], idx));
                if e1 == Some(true) {
                    return self.select(s[0], s[2]);
                }
                if e2 == Some(true) {
                    return self.select(s[0], s[1]);
                }
                if e1 == Some(false) && e2 == Some(false) {
                    return self.select(s[0], idx);
                }
                self.app(w, Op::Select, vec![a, idx])
            }
            _ => self.app(w, Op::Select, vec![a, idx]),
        }
    }
    pub fn store(&mut self, a: T, idx: T, v: T) -> T {
        let n = self.arr_len[&a];
        let idx = self.ixn(idx);
        let w = self.w(a);
        if let Some(i) = self.cv(idx) {
            // concrete index into a literal stays a literal
            match self.k(a).clone() {
                K::App(Op::ArrConst(id), _) => {
                    let tv = self.tables[id as usize].v.clone();
                    let mut e: Vec<T> = tv.iter().map(|x| self.c(w, *x)).collect();
                    e[i as usize] = v;
                    return self.arr_lit(w, e);
                }
                K::App(Op::ArrLit, e) => {
                    let mut e = e.to_vec();
                    e[i as usize] = v;
                    return self.arr_lit(w, e);
                }
                _ => {}
            }
        }
        if self.select(a, idx) == v {
            return a;
        }
        if let K::App(Op::Store, s) = self.k(a).clone() {
            match self.ixeq(s[1], idx) {
                Some(true) => return self.store(s[0], idx, v),
                e => {
                    // Store(Store(A,i,A[j]),j,A[i]) = swap
                    let (aj, ai) = (self.select(s[0], idx), self.select(s[0], s[1]));
                    if s[2] == aj && v == ai {
                        return self.swap(s[0], s[1], idx);
                    }
                    if e == Some(false) && s[1] > idx {
                        // order independent stores
                        let x = self.store(s[0], idx, v);
                        if let K::App(Op::Store, y) = self.k(x) {
                            if y[0] == s[0] {
                                let r = self.app(w, Op::Store, vec![x, s[1], s[2]]);
                                self.arr_len.insert(r, n);
                                return r;
                            }
                        }
                    }
                }
            }
        }
        let t = self.app(w, Op::Store, vec![a, idx, v]);
        self.arr_len.insert(t, n);
        t
    }
    pub fn swap(&mut self, a: T, i: T, j: T) -> T {
        let n = self.arr_len[&a];
        let w = self.w(a);
        let (i, j) = (self.ixn(i), self.ixn(j));
        if i == j {
            return a;
        }
        if self.cv(i).is_some() && self.cv(j).is_some() && matches!(self.k(a), K::App(Op::ArrConst(_) | Op::ArrLit, _)) {
            let (x, y) = (self.select(a, i), self.select(a, j));
            let b = self.store(a, i, y);
            return self.store(b, j, x);
        }
        let (i, j) = if i <= j { (i, j) } else { (j, i) };
        let t = self.app(w, Op::Swap, vec![a, i, j]);
        self.arr_len.insert(t, n);
        t
    }
    pub fn arr_ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        let n = self.arr_len[&a];
        let w = self.w(a);
        let t = self.app(w, Op::ArrIte, vec![c, a, b]);
        self.arr_len.insert(t, n);
        t
    }
    pub fn is_arr(&self, t: T) -> bool {
        self.arr_len.contains_key(&t)
    }

    // ---------- substitution ----------
    pub fn subst(&mut self, t: T, env: &FxMap<T, T>, memo: &mut FxMap<T, T>) -> T {
        if let Some(&r) = env.get(&t) {
            return r;
        }
        if let Some(&r) = memo.get(&t) {
            return r;
        }
        let d = self.terms[t as usize].clone();
        let r = match d.k {
            K::Const(_) | K::Leaf(_) => t,
            K::Bits(b) => {
                let v: Vec<P> = b.iter().map(|p| self.subst_poly(*p, env, memo)).collect();
                self.mk_bits(v)
            }
            K::Sum(c, ts) => {
                let mut ch = false;
                let v: Vec<(T, u128)> = ts
                    .iter()
                    .map(|(x, k)| {
                        let y = self.subst(*x, env, memo);
                        ch |= y != *x;
                        (y, *k)
                    })
                    .collect();
                if ch {
                    self.sum(d.w, c, v)
                } else {
                    t
                }
            }
            K::App(op, a) => {
                let v: Vec<T> = a.iter().map(|x| self.subst(*x, env, memo)).collect();
                if v[..] == a[..] {
                    t
                } else {
                    let r = self.rebuild(d.w, op, v);
                    if let Some(&n) = self.arr_len.get(&t) {
                        self.arr_len.entry(r).or_insert(n);
                    }
                    r
                }
            }
        };
        memo.insert(t, r);
        r
    }
    fn subst_poly(&mut self, p: P, env: &FxMap<T, T>, memo: &mut FxMap<T, T>) -> P {
        let ms = self.polys[p as usize].clone();
        let mut ch = false;
        for m in ms.iter() {
            for a in self.monos[*m as usize].clone().iter() {
                let t = (*a >> 8) as T;
                if self.subst(t, env, memo) != t {
                    ch = true;
                }
            }
        }
        if !ch {
            return p;
        }
        let mut acc = 0;
        for m in ms.iter() {
            let mut q = 1;
            for a in self.monos[*m as usize].clone().iter() {
                let (t, b) = ((*a >> 8) as T, (*a & 0xff) as usize);
                let t2 = self.subst(t, env, memo);
                let pb = if matches!(self.k(t2), K::Sum(..)) { self.bits(t2)[b] } else { self.bits(t2)[b] };
                q = self.pand(q, pb);
            }
            acc = self.pxor(acc, q);
        }
        acc
    }
    fn rebuild(&mut self, w: u16, op: Op, v: Vec<T>) -> T {
        match op {
            Op::Mul => {
                let mut r = v[0];
                for x in &v[1..] {
                    r = self.mul(r, *x);
                }
                r
            }
            Op::UDiv => self.udiv(v[0], v[1]),
            Op::URem => self.urem(v[0], v[1]),
            Op::Lt => self.lt(v[0], v[1]),
            Op::SLt => self.slt(v[0], v[1]),
            Op::Eq0 => {
                let z = self.c(self.w(v[0]), 0);
                self.eq(v[0], z)
            }
            Op::Ite => self.ite(v[0], v[1], v[2]),
            Op::Table(id) => {
                let t = self.tables[id as usize].v.clone();
                self.lookup(w, t, v[0])
            }
            Op::Rotl => self.rotl(v[0], v[1]),
            Op::Shl => self.shl(v[0], v[1]),
            Op::Shr => self.shr(v[0], v[1]),
            Op::Sar => self.sar(v[0], v[1]),
            Op::ArrLit => self.arr_lit(w, v),
            Op::Store => self.store(v[0], v[1], v[2]),
            Op::Select => self.select(v[0], v[1]),
            Op::Swap => self.swap(v[0], v[1], v[2]),
            Op::ArrIte => match self.cv(v[0]) {
                Some(1) => v[1],
                Some(_) => v[2],
                None => self.arr_ite(v[0], v[1], v[2]),
            },
            Op::LoopOut(l, s) => {
                if let Some(0) = self.cv(v[0]) {
                    let _ = l;
                    return v[1 + s as usize];
                }
                self.app(w, op, v)
            }
            _ => self.app(w, op, v),
        }
    }
    pub fn loop_id(&mut self, k: T, vars: &[T], step: &[T], free: &[T]) -> u32 {
        if let Some(i) = self.loops.iter().position(|l| l.k == k && l.vars == vars && l.step == step && l.free == free) {
            return i as u32;
        }
        self.loops.push(LoopInfo { k, vars: vars.to_vec(), step: step.to_vec(), free: free.to_vec() });
        self.loops.len() as u32 - 1
    }
    pub fn children(&self, t: T) -> Vec<T> {
        match self.k(t) {
            K::Const(_) | K::Leaf(_) => vec![],
            K::Bits(b) => {
                let mut v = vec![];
                for p in b.iter() {
                    for m in self.polys[*p as usize].iter() {
                        for a in self.monos[*m as usize].iter() {
                            v.push((*a >> 8) as T);
                        }
                    }
                }
                v.sort_unstable();
                v.dedup();
                v
            }
            K::Sum(_, ts) => ts.iter().map(|x| x.0).collect(),
            K::App(_, a) => a.to_vec(),
        }
    }
    /// set of terms reachable from t
    pub fn reach(&self, t: T, out: &mut std::collections::HashSet<T>) {
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if out.insert(x) {
                st.extend(self.children(x));
            }
        }
    }
    pub fn show(&self, t: T, depth: usize) -> String {
        match self.k(t) {
            K::Const(c) => format!("{:#x}", c),
            K::Leaf(l) => self.leaves[*l as usize].name.clone(),
            _ if depth == 0 => format!("#{}", t),
            K::Bits(b) => {
                let mut s = vec![];
                for p in b.iter().take(3) {
                    let ms: Vec<String> = self.polys[*p as usize]
                        .iter()
                        .take(4)
                        .map(|m| {
                            let a: Vec<String> = self.monos[*m as usize].iter().map(|a| format!("{}.{}", self.show((*a >> 8) as T, depth - 1), a & 0xff)).collect();
                            if a.is_empty() {
                                "1".into()
                            } else {
                                a.join("&")
                            }
                        })
                        .collect();
                    s.push(if ms.is_empty() { "0".into() } else { ms.join("^") });
                }
                format!("bits{}[{}..]", b.len(), s.join(","))
            }
            K::Sum(c, ts) => {
                let w = self.w(t);
                let v: Vec<String> = ts.iter().map(|(t, k)| format!("{}*{}", to_signed(*k, w), self.show(*t, depth - 1))).collect();
                format!("({}+{})", v.join("+"), to_signed(*c, w))
            }
            K::App(op, a) => {
                let v: Vec<String> = a.iter().take(6).map(|t| self.show(*t, depth - 1)).collect();
                format!("{:?}({})", op, v.join(","))
            }
        }
    }
}

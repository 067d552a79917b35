//! Second normal form, for obligations the algebraic one leaves open: reduced ordered decision diagrams over the
//! bits of the value graph. Additions, comparisons and selections are expanded to bits; anything else is left
//! opaque (its bits are free), so agreement here implies agreement of the values.
use crate::term::*;
use std::collections::HashSet;

type N = u32;
const F: N = 0;
const TT: N = 1;
pub struct Bdd<'a> {
    cx: &'a mut Ctx,
    nodes: Vec<(u32, N, N)>, // variable, low, high
    uniq: FxMap<(u32, N, N), N>,
    cache: FxMap<(u8, N, N), N>,
    vars: Vec<(T, u32)>,
    vid: FxMap<(T, u32), u32>,
    memo: FxMap<T, Vec<N>>,
    seen: HashSet<(T, u32)>,
    fixed: FxMap<(T, u32), bool>,
    cap: usize,
    steps: usize,
    deep: bool, // expand table lookups, variable shifts and bit counts as well
}
struct Full;
type R<X> = Result<X, Full>;

pub enum Verdict {
    Holds,
    Model(Vec<(T, u128)>),
    Open,
}
/// is "facts imply all pairs equal" valid? (no pairs: are the facts contradictory?)
pub fn decide(cx: &mut Ctx, facts: &[T], pairs: &[(T, T)], cap: usize, deep: bool) -> Verdict {
    let mut b = Bdd { cx, nodes: vec![(u32::MAX, 0, 0), (u32::MAX, 1, 1)], uniq: Default::default(), cache: Default::default(), vars: vec![], vid: Default::default(), memo: Default::default(), seen: Default::default(), fixed: Default::default(), cap, steps: 0, deep };
    let t0 = std::time::Instant::now();
    let r = b.run(facts, pairs);
    if std::env::var("VBDD").is_ok() && t0.elapsed().as_millis() > 300 {
        eprintln!("bdd slow: {:?} {} facts {} pairs {} nodes {} steps {} memo {} polyterms", t0.elapsed(), facts.len(), pairs.len(), b.nodes.len(), b.steps, b.memo.len(), b.memo.keys().map(|t| if let K::Bits(x) = b.cx.k(*t) { x.iter().map(|p| b.cx.polys[*p as usize].len()).sum() } else { 0 }).sum::<usize>());
    }
    if r.is_err() && std::env::var("VBDD").is_ok() {
        eprintln!("bdd full: {} vars {} seen {} nodes {} steps; {} facts; {}", b.vars.len(), b.seen.len(), b.nodes.len(), b.steps, facts.len(), b.vars.iter().map(|v| format!("{}.{}", b.cx.show(v.0, 1), v.1)).collect::<Vec<_>>().join(" ").chars().take(400).collect::<String>());
    }
    match r {
        Ok(Some(m)) => Verdict::Model(m),
        Ok(None) => Verdict::Holds,
        Err(Full) => Verdict::Open,
    }
}
impl<'a> Bdd<'a> {
    fn run(&mut self, facts: &[T], pairs: &[(T, T)]) -> R<Option<Vec<(T, u128)>>> {
        for (x, y) in pairs {
            if self.cx.is_arr(*x) || self.cx.is_arr(*y) || self.cx.w(*x) == 0 || self.cx.w(*x) != self.cx.w(*y) {
                return Err(Full);
            }
        }
        // facts that are literals fix their bit
        for f in facts {
            if let K::Bits(b) = self.cx.k(*f) {
                let (mut neg, mut atom, mut ok) = (false, None, true);
                for m in self.cx.polys[b[0] as usize].iter() {
                    match &self.cx.monos[*m as usize][..] {
                        [] => neg = true,
                        [a] if atom.is_none() => atom = Some(*a),
                        _ => ok = false,
                    }
                }
                if let (true, Some(a)) = (ok, atom) {
                    let k = ((a >> 8) as T, (a & 0xff) as u32);
                    if self.opaque(k.0) && *self.fixed.entry(k).or_insert(!neg) == neg {
                        return Ok(None);
                    }
                }
            }
        }
        for (x, y) in pairs {
            for i in 0..self.cx.w(*x) as u32 {
                self.visit(*x, i, 0)?;
                self.visit(*y, i, 0)?;
            }
        }
        // the order follows the most composite facts
        let mut fs = facts.to_vec();
        fs.sort_unstable_by(|a, b| b.cmp(a));
        for f in fs {
            self.visit(f, 0, 0)?;
        }
        self.align();
        // chains over long numbers grow with the square of their length
        let f = (self.vars.len() * self.vars.len() / 2500).max(1);
        self.cap = (self.cap * f).min(self.cap.max(2_000_000));
        let mut d = if pairs.is_empty() { TT } else { F };
        for (x, y) in pairs {
            let (u, v) = (self.blast(*x)?, self.blast(*y)?);
            for (p, q) in u.iter().zip(v.iter()) {
                let z = self.xor(*p, *q)?;
                d = self.or(d, z)?;
            }
        }
        if d == F {
            return Ok(None);
        }
        let mut bits = vec![];
        for f in facts {
            bits.push(self.blast(*f)?[0]);
        }
        // small diagrams first
        bits.sort_by_key(|b| *b);
        for f in bits {
            d = self.and(d, f)?;
            if d == F {
                return Ok(None);
            }
        }
        let mut m: FxMap<T, u128> = Default::default();
        while d > 1 {
            let (v, l, h) = self.nodes[d as usize];
            let (t, i) = self.vars[v as usize];
            if l != F {
                m.entry(t).or_insert(0);
                d = l;
            } else {
                *m.entry(t).or_insert(0) |= 1 << i;
                d = h;
            }
        }
        for ((t, i), b) in &self.fixed {
            *m.entry(*t).or_insert(0) |= (*b as u128) << i;
        }
        let mut m: Vec<(T, u128)> = m.into_iter().collect();
        m.sort_unstable();
        Ok(Some(m))
    }
    fn opaque(&self, t: T) -> bool {
        if self.deep {
            match self.cx.k(t) {
                K::App(Op::Clz | Op::Popcnt | Op::Shl | Op::Shr | Op::Sar | Op::Rotl, _) => return false,
                K::App(Op::Table(i), _) if self.cx.tables[*i as usize].v.len() <= 256 => return false,
                K::App(Op::Select, a) => {
                    if let K::App(Op::ArrLit, e) = self.cx.k(a[0]) {
                        return e.len() > 256;
                    }
                }
                _ => {}
            }
        }
        !matches!(self.cx.k(t), K::Const(_) | K::Bits(_) | K::Sum(..) | K::App(Op::Eq0 | Op::Lt | Op::SLt | Op::Ite | Op::BitAnd | Op::Mul | Op::UDiv | Op::URem, _))
    }
    /// variable order: first use, following carries from the low bits up
    fn visit(&mut self, t: T, i: u32, depth: usize) -> R<()> {
        if self.seen.contains(&(t, i)) {
            return Ok(());
        }
        if self.seen.len() > 20_000 || depth > 4000 {
            return Err(Full);
        }
        self.seen.insert((t, i));
        if self.opaque(t) {
            self.vid.insert((t, i), self.vars.len() as u32);
            self.vars.push((t, i));
            return Ok(());
        }
        match self.cx.k(t).clone() {
            K::Const(_) => {}
            K::Bits(b) => {
                let p = b[i as usize];
                let ms = self.cx.polys[p as usize].clone();
                for m in ms.iter() {
                    let atoms = self.cx.monos[*m as usize].clone();
                    for a in atoms.iter() {
                        self.visit((*a >> 8) as T, (*a & 0xff) as u32, depth + 1)?;
                    }
                }
            }
            K::Sum(_, ts) => {
                for j in 0..=i {
                    for (x, _) in ts.iter() {
                        self.visit(*x, j, depth + 1)?;
                    }
                    self.seen.insert((t, j));
                }
            }
            K::App(Op::Ite, a) => {
                self.visit(a[0], 0, depth + 1)?;
                self.visit(a[1], i, depth + 1)?;
                self.visit(a[2], i, depth + 1)?;
            }
            K::App(Op::BitAnd, a) => {
                for x in a.iter() {
                    self.visit(*x, i, depth + 1)?;
                }
            }
            K::App(o, a) => {
                let mut a = a.to_vec();
                if let (Op::Select, K::App(_, e)) = (o, self.cx.k(a[0]).clone()) {
                    a.remove(0);
                    a.extend(e.iter());
                }
                let w = a.iter().map(|x| self.cx.w(*x)).max().unwrap_or(0);
                for j in 0..w as u32 {
                    for x in a.iter() {
                        if j < self.cx.w(*x) as u32 {
                            self.visit(*x, j, depth + 1)?;
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    /// numbers given as byte sequences: bytes of equal weight side by side, bit by bit
    fn align(&mut self) {
        fn parse(n: &str) -> Option<(&str, usize)> {
            let (a, i) = n.strip_suffix(']')?.rsplit_once('[')?;
            Some((a, i.parse().ok()?))
        }
        let mut max: FxMap<String, usize> = Default::default();
        for l in &self.cx.leaves {
            if let Some((a, i)) = parse(&l.name) {
                match max.get_mut(a) {
                    Some(e) => *e = (*e).max(i),
                    None => {
                        max.insert(a.to_string(), i);
                    }
                }
            }
        }
        let mut pos: Vec<Option<(String, usize)>> = vec![];
        for (t, _) in &self.vars {
            let p = match self.cx.k(*t) {
                K::Leaf(l) => parse(&self.cx.leaves[*l as usize].name).map(|(a, i)| (a.to_string(), i)),
                K::App(Op::Elem(q), a) => self.cx.cv(a[0]).map(|i| (format!("#{q}"), i as usize)),
                _ => None,
            };
            if let Some((a, i)) = &p {
                if a.starts_with('#') {
                    let e = max.entry(a.clone()).or_insert(*i);
                    *e = (*e).max(*i);
                }
            }
            pos.push(p);
        }
        let key = |v: usize| match &pos[v] {
            Some((a, i)) => (max[a] - i, self.vars[v].1, v),
            None => (self.vars[v].1 as usize / 8, self.vars[v].1 % 8, v),
        };
        let mut ord: Vec<usize> = (0..self.vars.len()).collect();
        ord.sort_by_key(|v| key(*v));
        self.vars = ord.iter().map(|v| self.vars[*v]).collect();
        for (i, v) in self.vars.iter().enumerate() {
            self.vid.insert(*v, i as u32);
        }
    }
    fn mk(&mut self, v: u32, l: N, h: N) -> R<N> {
        if l == h {
            return Ok(l);
        }
        if let Some(n) = self.uniq.get(&(v, l, h)) {
            return Ok(*n);
        }
        if self.nodes.len() > self.cap {
            return Err(Full);
        }
        let n = self.nodes.len() as N;
        self.nodes.push((v, l, h));
        self.uniq.insert((v, l, h), n);
        Ok(n)
    }
    fn op(&mut self, o: u8, a: N, b: N) -> R<N> {
        match (o, a, b) {
            (0, F, _) | (0, _, F) => return Ok(F),
            (0, TT, x) | (0, x, TT) | (1, F, x) | (1, x, F) => return Ok(x),
            (0, x, y) if x == y => return Ok(x),
            (1, x, y) if x == y => return Ok(F),
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if let Some(r) = self.cache.get(&(o, a, b)) {
            return Ok(*r);
        }
        self.steps += 1;
        if self.steps > 20 * self.cap {
            return Err(Full);
        }
        let (va, la, ha) = self.nodes[a as usize];
        let (vb, lb, hb) = self.nodes[b as usize];
        let v = va.min(vb);
        let (la, ha) = if va == v { (la, ha) } else { (a, a) };
        let (lb, hb) = if vb == v { (lb, hb) } else { (b, b) };
        let l = self.op(o, la, lb)?;
        let h = self.op(o, ha, hb)?;
        let r = self.mk(v, l, h)?;
        self.cache.insert((o, a, b), r);
        Ok(r)
    }
    fn and(&mut self, a: N, b: N) -> R<N> {
        self.op(0, a, b)
    }
    fn xor(&mut self, a: N, b: N) -> R<N> {
        self.op(1, a, b)
    }
    fn not(&mut self, a: N) -> R<N> {
        self.op(1, a, TT)
    }
    fn or(&mut self, a: N, b: N) -> R<N> {
        let (x, y) = (self.and(a, b)?, self.xor(a, b)?);
        self.xor(x, y)
    }
    fn ite(&mut self, c: N, a: N, b: N) -> R<N> {
        let d = self.xor(a, b)?;
        let d = self.and(c, d)?;
        self.xor(d, b)
    }
    fn adder(&mut self, a: &[N], b: &[N], mut c: N) -> R<Vec<N>> {
        let mut out = vec![];
        for (x, y) in a.iter().zip(b.iter()) {
            let s = self.xor(*x, *y)?;
            out.push(self.xor(s, c)?);
            let g = self.and(*x, *y)?;
            let p = self.and(s, c)?;
            c = self.xor(g, p)?;
        }
        Ok(out)
    }
    /// the entry an index selects; zero beyond the end
    fn mux(&mut self, w: usize, x: &[N], mut e: Vec<Vec<N>>) -> R<Vec<N>> {
        for b in x {
            let mut v = vec![];
            for p in e.chunks(2) {
                let mut r = vec![];
                for i in 0..w {
                    let h = p.get(1).map_or(F, |q| q[i]);
                    r.push(self.ite(*b, h, p[0][i])?);
                }
                v.push(r);
            }
            e = v;
        }
        Ok(e.into_iter().next().unwrap_or(vec![F; w]))
    }
    fn blast(&mut self, t: T) -> R<Vec<N>> {
        if let Some(v) = self.memo.get(&t) {
            return Ok(v.clone());
        }
        let w = self.cx.w(t) as u32;
        let r: Vec<N> = if self.opaque(t) {
            let mut v = vec![];
            for i in 0..w {
                if let Some(b) = self.fixed.get(&(t, i)) {
                    v.push(if *b { TT } else { F });
                    continue;
                }
                let id = match self.vid.get(&(t, i)) {
                    Some(id) => *id,
                    None => {
                        let id = self.vars.len() as u32;
                        self.vid.insert((t, i), id);
                        self.vars.push((t, i));
                        id
                    }
                };
                v.push(self.mk(id, F, TT)?);
            }
            v
        } else {
            match self.cx.k(t).clone() {
                K::Const(c) => (0..w).map(|i| if c >> i & 1 != 0 { TT } else { F }).collect(),
                K::Bits(b) => {
                    let mut v = vec![];
                    for p in b.iter() {
                        let ms = self.cx.polys[*p as usize].clone();
                        let mut x = F;
                        for m in ms.iter() {
                            let atoms = self.cx.monos[*m as usize].clone();
                            let mut y = TT;
                            for a in atoms.iter() {
                                let z = self.blast((*a >> 8) as T)?[(*a & 0xff) as usize];
                                y = self.and(y, z)?;
                            }
                            x = self.xor(x, y)?;
                        }
                        v.push(x);
                    }
                    v
                }
                K::Sum(c, ts) => {
                    let mut acc: Vec<N> = (0..w).map(|i| if c >> i & 1 != 0 { TT } else { F }).collect();
                    for (x, k) in ts.iter() {
                        let v = self.blast(*x)?;
                        let neg = k.wrapping_neg() & mask(w as u16);
                        let minus = neg.count_ones() < k.count_ones();
                        let k = if minus { neg } else { *k };
                        for s in 0..w {
                            if k >> s & 1 == 0 {
                                continue;
                            }
                            let mut y: Vec<N> = (0..w).map(|i| if i >= s { v[(i - s) as usize] } else { F }).collect();
                            if minus {
                                for z in y.iter_mut() {
                                    *z = self.not(*z)?;
                                }
                            }
                            acc = self.adder(&acc, &y, if minus { TT } else { F })?;
                        }
                    }
                    acc
                }
                K::App(Op::Ite, a) => {
                    let (c, x, y) = (self.blast(a[0])?[0], self.blast(a[1])?, self.blast(a[2])?);
                    let mut v = vec![];
                    for (x, y) in x.iter().zip(y.iter()) {
                        v.push(self.ite(c, *x, *y)?);
                    }
                    v
                }
                K::App(Op::BitAnd, a) => {
                    let (x, y) = (self.blast(a[0])?, self.blast(a[1])?);
                    let mut v = vec![];
                    for (x, y) in x.iter().zip(y.iter()) {
                        v.push(self.and(*x, *y)?);
                    }
                    v
                }
                K::App(Op::Mul, a) => {
                    let n = w as usize;
                    let mut r: Vec<N> = (0..n).map(|i| if i == 0 { TT } else { F }).collect();
                    for f in a.iter() {
                        let y = self.blast(*f)?;
                        let mut acc = vec![F; n];
                        for s in 0..n {
                            if y[s] == F {
                                continue;
                            }
                            let mut z = vec![F; n];
                            for i in s..n {
                                z[i] = self.and(r[i - s], y[s])?;
                            }
                            acc = self.adder(&acc, &z, F)?;
                        }
                        r = acc;
                    }
                    r
                }
                K::App(o @ (Op::UDiv | Op::URem), a) => {
                    // long division; a zero divisor never reaches here (the division is guarded by a check)
                    let (x, y) = (self.blast(a[0])?, self.blast(a[1])?);
                    let n = w as usize;
                    let mut r = vec![F; n + 1];
                    let mut q = vec![F; n];
                    let mut ny = vec![];
                    for b in y.iter().chain([&F]) {
                        ny.push(self.not(*b)?);
                    }
                    for i in (0..n).rev() {
                        r.pop();
                        r.insert(0, x[i]);
                        r.push(F);
                        r.truncate(n + 1);
                        let d = self.adder(&r, &ny, TT)?;
                        // no borrow: the top bit of the difference is clear
                        let ge = self.not(d[n])?;
                        q[i] = ge;
                        for j in 0..=n {
                            r[j] = self.ite(ge, d[j], r[j])?;
                        }
                    }
                    if o == Op::UDiv {
                        q
                    } else {
                        r.truncate(n);
                        r
                    }
                }
                K::App(Op::Eq0, a) => {
                    let x = self.blast(a[0])?;
                    let mut r = TT;
                    for b in x {
                        let n = self.not(b)?;
                        r = self.and(r, n)?;
                    }
                    vec![r]
                }
                K::App(o @ (Op::Lt | Op::SLt), a) => {
                    let (x, y) = (self.blast(a[0])?, self.blast(a[1])?);
                    let mut r = F;
                    let n = x.len();
                    for i in 0..n {
                        let (p, q) = if o == Op::SLt && i == n - 1 { (y[i], x[i]) } else { (x[i], y[i]) };
                        let d = self.xor(p, q)?;
                        r = self.ite(d, q, r)?;
                    }
                    vec![r]
                }
                K::App(Op::Popcnt, a) => {
                    let x = self.blast(a[0])?;
                    let mut acc = vec![F; w as usize];
                    for b in x {
                        let z = vec![F; w as usize];
                        acc = self.adder(&acc, &z, b)?;
                    }
                    acc
                }
                K::App(Op::Clz, a) => {
                    let x = self.blast(a[0])?;
                    let n = x.len() as u128;
                    let mut acc: Vec<N> = (0..w).map(|i| if n >> i & 1 != 0 { TT } else { F }).collect();
                    for (k, b) in x.iter().enumerate() {
                        let z = n - 1 - k as u128;
                        for (i, r) in acc.clone().iter().enumerate() {
                            acc[i] = self.ite(*b, if z >> i & 1 != 0 { TT } else { F }, *r)?;
                        }
                    }
                    acc
                }
                K::App(Op::Table(id), a) => {
                    let x = self.blast(a[0])?;
                    let e = self.cx.tables[id as usize].v.clone();
                    let e = e.iter().map(|c| (0..w).map(|i| if c >> i & 1 != 0 { TT } else { F }).collect()).collect();
                    self.mux(w as usize, &x, e)?
                }
                K::App(Op::Select, a) => {
                    let x = self.blast(a[1])?;
                    let K::App(_, e) = self.cx.k(a[0]).clone() else { return Err(Full) };
                    let mut v = vec![];
                    for t in e.iter() {
                        v.push(self.blast(*t)?);
                    }
                    self.mux(w as usize, &x, v)?
                }
                K::App(o @ (Op::Shl | Op::Shr | Op::Sar | Op::Rotl), a) => {
                    let n = w as usize;
                    let (mut x, k) = (self.blast(a[0])?, self.blast(a[1])?);
                    if o == Op::Rotl && !n.is_power_of_two() {
                        return Err(Full);
                    }
                    let fill = if o == Op::Sar { x[n - 1] } else { F };
                    for (j, b) in k.iter().enumerate() {
                        let d = if j < 16 { 1usize << j } else { usize::MAX / 2 };
                        if o == Op::Rotl && d >= n {
                            break;
                        }
                        let mut y = vec![];
                        for i in 0..n {
                            let z = match o {
                                Op::Rotl => x[(i + n - d) % n],
                                Op::Shl => if i >= d { x[i - d] } else { F },
                                _ => x.get(i + d).copied().unwrap_or(fill),
                            };
                            y.push(self.ite(*b, z, x[i])?);
                        }
                        x = y;
                    }
                    x
                }
                _ => return Err(Full),
            }
        };
        if r.len() != w as usize {
            return Err(Full);
        }
        self.memo.insert(t, r.clone());
        Ok(r)
    }
}

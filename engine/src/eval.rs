//! Random interpretation of the value graph (Gulwani & Necula style): evaluates *terms* under a
//! valuation of the leaves. It is only ever used to refute an equality that the normal forms left open.
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum EV {
    N(u128),
    A(Rc<Vec<u128>>),
}
impl EV {
    pub fn n(&self) -> u128 {
        match self {
            EV::N(x) => *x,
            EV::A(_) => 0,
        }
    }
}

pub fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v.wrapping_add(0x9e3779b97f4a7c15).wrapping_add(h << 6).wrapping_add(h >> 2);
    h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
    h ^ (h >> 31)
}
pub fn h128(seed: u64, xs: &[u128]) -> u128 {
    let mut h = mix(seed, xs.len() as u64);
    for x in xs {
        h = mix(h, *x as u64);
        h = mix(h, (*x >> 64) as u64);
    }
    (h as u128) << 64 | mix(h, 77) as u128
}

pub struct Eval<'a> {
    pub cx: &'a Ctx,
    pub seed: u64,
    pub env: FxMap<T, EV>, // leaf overrides
    pub elems: FxMap<(u32, u128), u128>,
    memo: FxMap<T, EV>,
    loops: FxMap<(u32, u128), Rc<Vec<EV>>>,
    pub fuel: u64,
    pub big_loop: bool,
    /// leave every loop with at least one iteration uninterpreted
    pub arb_loops: bool,
}

impl<'a> Eval<'a> {
    pub fn new(cx: &'a Ctx, seed: u64) -> Self {
        Eval { cx, seed, env: Default::default(), elems: Default::default(), memo: Default::default(), loops: Default::default(), fuel: 200_000_000, big_loop: false, arb_loops: false }
    }
    pub fn reset(&mut self) {
        self.memo.clear();
        self.big_loop = false;
        self.loops.clear();
    }
    pub fn n(&mut self, t: T) -> u128 {
        self.ev(t).n()
    }
    fn poly(&mut self, p: P) -> u128 {
        let cx = self.cx;
        let mut r = 0;
        for m in cx.polys[p as usize].iter() {
            let mut x = 1;
            for a in cx.monos[*m as usize].iter() {
                let v = self.n((*a >> 8) as T);
                if v >> (a & 0xff) & 1 == 0 {
                    x = 0;
                    break;
                }
            }
            r ^= x;
        }
        r
    }
    pub fn leaf_default(&self, l: u32) -> u128 {
        let li = &self.cx.leaves[l as usize];
        let h = h128(self.seed, &[l as u128, 1]);
        if li.loop_var {
            return li.lo + h % 3;
        }
        if li.lo == 0 && li.hi == mask(li.w) {
            return h & li.hi;
        }
        let span = li.hi - li.lo;
        if span == u128::MAX {
            h
        } else {
            li.lo + h % (span + 1)
        }
    }
    pub fn ev(&mut self, t: T) -> EV {
        if let Some(v) = self.memo.get(&t) {
            return v.clone();
        }
        if self.fuel == 0 {
            return EV::N(0);
        }
        self.fuel -= 1;
        let cx = self.cx;
        let w = cx.w(t);
        let m = mask(w);
        let r = match cx.k(t) {
            K::Const(c) => return EV::N(*c),
            K::Leaf(l) => match self.env.get(&t) {
                Some(v) => v.clone(),
                None => {
                    if let Some(&n) = cx.arr_len.get(&t) {
                        EV::A(Rc::new((0..n).map(|i| h128(self.seed, &[*l as u128, 2, i as u128]) & m).collect()))
                    } else {
                        EV::N(self.leaf_default(*l))
                    }
                }
            },
            K::Bits(b) => {
                let mut r = 0;
                for (i, p) in b.iter().enumerate() {
                    r |= self.poly(*p) << i;
                }
                EV::N(r)
            }
            K::Sum(c, ts) => {
                let mut r = *c;
                for (t, k) in ts.iter() {
                    r = r.wrapping_add(self.n(*t).wrapping_mul(*k));
                }
                EV::N(r & m)
            }
            K::App(..) if self.env.contains_key(&t) => self.env[&t].clone(),
            K::App(op, a) => match op {
                Op::Mul => {
                    let mut r = 1u128;
                    for x in a.iter() {
                        r = r.wrapping_mul(self.n(*x));
                    }
                    EV::N(r & m)
                }
                Op::UDiv => {
                    let (x, y) = (self.n(a[0]), self.n(a[1]));
                    EV::N(x.checked_div(y).unwrap_or(0))
                }
                Op::URem => {
                    let (x, y) = (self.n(a[0]), self.n(a[1]));
                    EV::N(x.checked_rem(y).unwrap_or(0))
                }
                Op::SDiv => {
                    let (x, y) = (to_signed(self.n(a[0]), w), to_signed(self.n(a[1]), w));
                    EV::N(x.checked_div(y).unwrap_or(0) as u128 & m)
                }
                Op::SRem => {
                    let (x, y) = (to_signed(self.n(a[0]), w), to_signed(self.n(a[1]), w));
                    EV::N(x.checked_rem(y).unwrap_or(0) as u128 & m)
                }
                Op::Lt => EV::N((self.n(a[0]) < self.n(a[1])) as u128),
                Op::SLt => {
                    let aw = cx.w(a[0]);
                    EV::N((to_signed(self.n(a[0]), aw) < to_signed(self.n(a[1]), aw)) as u128)
                }
                Op::Eq0 => EV::N((self.n(a[0]) == 0) as u128),
                Op::Ite => {
                    if self.n(a[0]) == 1 {
                        self.ev(a[1])
                    } else {
                        self.ev(a[2])
                    }
                }
                Op::ArrIte => {
                    if self.n(a[0]) == 1 {
                        self.ev(a[1])
                    } else {
                        self.ev(a[2])
                    }
                }
                Op::Table(id) => {
                    let i = self.n(a[0]);
                    EV::N(cx.tables[*id as usize].v.get(i as usize).copied().unwrap_or(0))
                }
                Op::Rotl => {
                    let x = self.n(a[0]);
                    let k = (self.n(a[1]) % w as u128) as u32;
                    EV::N(if k == 0 { x } else { (x << k | x >> (w as u32 - k)) & m })
                }
                Op::Shl => {
                    let (x, k) = (self.n(a[0]), self.n(a[1]));
                    EV::N(if k >= w as u128 { 0 } else { x << k & m })
                }
                Op::Shr => {
                    let (x, k) = (self.n(a[0]), self.n(a[1]));
                    EV::N(if k >= w as u128 { 0 } else { x >> k })
                }
                Op::Sar => {
                    let (x, k) = (to_signed(self.n(a[0]), w), self.n(a[1]));
                    EV::N((x >> k.min(w as u128 - 1)) as u128 & m)
                }
                Op::ArrConst(id) => EV::A(Rc::new(cx.tables[*id as usize].v.clone())),
                Op::ArrLit => EV::A(Rc::new(a.iter().map(|x| self.n(*x)).collect())),
                Op::Select => {
                    let i = self.n(a[1]) as usize;
                    match self.ev(a[0]) {
                        EV::A(v) => EV::N(v.get(i).copied().unwrap_or(0)),
                        _ => EV::N(0),
                    }
                }
                Op::Store => {
                    let (i, x) = (self.n(a[1]) as usize, self.n(a[2]));
                    match self.ev(a[0]) {
                        EV::A(v) => {
                            let mut v = (*v).clone();
                            if i < v.len() {
                                v[i] = x;
                            }
                            EV::A(Rc::new(v))
                        }
                        e => e,
                    }
                }
                Op::Swap => {
                    let (i, j) = (self.n(a[1]) as usize, self.n(a[2]) as usize);
                    match self.ev(a[0]) {
                        EV::A(v) => {
                            let mut v = (*v).clone();
                            if i < v.len() && j < v.len() {
                                v.swap(i, j);
                            }
                            EV::A(Rc::new(v))
                        }
                        e => e,
                    }
                }
                Op::Elem(_) if self.env.contains_key(&t) => self.env[&t].clone(),
                Op::Elem(s) => {
                    let i = self.n(a[0]);
                    EV::N(match self.elems.get(&(*s, i)) {
                        Some(v) => *v,
                        None => h128(self.seed, &[*s as u128, 3, i]) & m,
                    })
                }
                Op::Uf(n) if self.known_fn(&cx.names[*n as usize]) => EV::N(self.known(&cx.names[*n as usize], a) & m),
                Op::Uf(n) => {
                    let mut xs = vec![*n as u128, 4];
                    for x in a.iter() {
                        xs.push(self.flat(*x));
                    }
                    // a function, hence independent of the seed only through its name
                    EV::N(h128(99, &xs) & m)
                }
                Op::UfArr(n) => {
                    let mut xs = vec![*n as u128, 5];
                    for x in a.iter() {
                        xs.push(self.flat(*x));
                    }
                    let len = cx.arr_len.get(&t).copied().unwrap_or(0);
                    EV::A(Rc::new((0..len).map(|i| {
                        let mut y = xs.clone();
                        y.push(i as u128);
                        h128(99, &y) & m
                    }).collect()))
                }
                Op::SeqVal => {
                    let xs: Vec<u128> = a.iter().map(|x| self.flat(*x)).collect();
                    EV::N(h128(7, &xs))
                }
                Op::BitAnd => EV::N(self.n(a[0]) & self.n(a[1])),
                Op::Popcnt => EV::N(self.n(a[0]).count_ones() as u128),
                Op::Clz => {
                    let aw = cx.w(a[0]) as u32;
                    EV::N((self.n(a[0]).leading_zeros() - (128 - aw)) as u128)
                }
                Op::LoopOut(l, s) => {
                    let v = self.run_loop(*l, a);
                    v[*s as usize].clone()
                }
            },
        };
        self.memo.insert(t, r.clone());
        r
    }
    fn known_fn(&self, n: &str) -> bool {
        n.starts_with("perm:") || matches!(n, "mul128_overflow" | "count_zeros" | "trailing_zeros" | "cttz" | "cttz_nonzero" | "leading_ones" | "trailing_ones")
    }
    /// functions with a fixed meaning that the graph keeps opaque; permutations get an invertible one
    fn known(&mut self, n: &str, a: &[T]) -> u128 {
        let cx = self.cx;
        if let Some(r) = n.strip_prefix("perm:") {
            let mut it = r.rsplit(':');
            let (i, dir) = (it.next().and_then(|s| s.parse::<usize>().ok()).unwrap_or(0), it.next() == Some("E"));
            let name = h128(5, &r.split(':').next().unwrap_or("").bytes().map(|b| b as u128).collect::<Vec<_>>());
            let key = self.n(a[0]);
            let mut x: Vec<u128> = match cx.k(a[1]) {
                K::App(Op::SeqVal, d) => d.iter().map(|t| self.n(*t)).collect(),
                _ => return h128(99, &[name, key, self.n(a[1])]),
            };
            let mut steps: Vec<(u128, usize)> = (0..4).flat_map(|r| (0..x.len()).map(move |k| (r, k))).collect();
            if !dir {
                steps.reverse();
            }
            for (r, k) in steps {
                let mut xs = vec![name, key, r, k as u128];
                xs.extend(x.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, v)| *v));
                x[k] ^= h128(6, &xs) & 0xff;
            }
            return x.get(i).copied().unwrap_or(0);
        }
        let w = cx.w(a[0]) as u32;
        let x = self.n(a[0]);
        match n {
            "mul128_overflow" => x.checked_mul(self.n(a[1])).is_none() as u128,
            "count_zeros" => (w - x.count_ones()) as u128,
            "leading_ones" => ((!x & mask(w as u16)).leading_zeros() - (128 - w)) as u128,
            "trailing_ones" => (!x).trailing_zeros().min(w) as u128,
            _ => x.trailing_zeros().min(w) as u128,
        }
    }
    fn flat(&mut self, t: T) -> u128 {
        match self.ev(t) {
            EV::N(x) => x,
            EV::A(v) => h128(5, &v),
        }
    }
    /// the recurrence system, iterated; beyond a few steps an arbitrary function (flagged)
    fn run_loop(&mut self, l: u32, a: &[T]) -> Rc<Vec<EV>> {
        let cx = self.cx;
        let n = self.n(a[0]);
        let vals: Vec<EV> = a[1..].iter().map(|t| self.ev(*t)).collect();
        let mut key = vec![l as u128, n];
        key.extend(vals.iter().map(|v| match v {
            EV::N(x) => *x,
            EV::A(v) => h128(5, v),
        }));
        let key = h128(21, &key);
        if let Some(v) = self.loops.get(&(l, key)) {
            return v.clone();
        }
        let li = &cx.loops[l as usize];
        let m = li.vars.len();
        let mut cur: Vec<EV> = vals[..m].to_vec();
        if n > 6 || (self.arb_loops && n > 0) {
            self.big_loop = true;
            cur = li.vars.iter().enumerate().map(|(i, v)| {
                let w = mask(cx.w(*v));
                match cx.arr_len.get(v) {
                    Some(n) => EV::A(Rc::new((0..*n).map(|j| h128(31, &[key, i as u128, j as u128]) & w).collect())),
                    None => EV::N(h128(31, &[key, i as u128]) & w),
                }
            }).collect();
        } else {
            for k in 0..n {
                let mut e = Eval { cx, seed: self.seed, env: self.env.clone(), elems: self.elems.clone(), memo: Default::default(), loops: Default::default(), fuel: self.fuel, big_loop: false, arb_loops: self.arb_loops };
                for (v, x) in li.vars.iter().zip(cur.iter()) {
                    e.env.insert(*v, x.clone());
                }
                for (v, x) in li.free.iter().zip(vals[m..].iter()) {
                    e.env.insert(*v, x.clone());
                }
                e.env.insert(li.k, EV::N(k));
                cur = li.step.iter().map(|t| e.ev(*t)).collect();
                self.fuel = e.fuel;
                self.big_loop |= e.big_loop;
            }
        }
        let r = Rc::new(cur);
        self.loops.insert((l, key), r.clone());
        r
    }
}

//! Loop summaries: closed forms for loops whose trip count is the symbolic number q of whole blocks.
//!
//! From the state S0 at the loop head one period (one block of input) is interpreted with q >= 1, giving S1.
//! Locations that differ are generalised: t0 + d*k (induction variables), growing sequences, or a fresh
//! variable (recurrences). The generalised state G(k) is then interpreted for one period under k < q and must
//! end in G(k+1); this proves G inductive. The state after the loop is G(q), recurrences being named by their
//! (initial value, step) systems: two loops computing the same recurrence get the same node
//! (Alpern-Wegman-Zadeck congruence), however their code is written.
use crate::eval::*;
use crate::interp::*;
use crate::term::*;
use crate::value::*;
use std::rc::Rc;

struct Slot {
    ph: T,
    t0: T,
    d: Option<u128>, // linear with this stride, else recurrent
    arr: Option<usize>,
}
struct Grow {
    ph: T,   // length of what the loop has appended so far
    n: u128, // per period
    seq: u32,
    at: usize,
}
#[derive(Default)]
struct Gen {
    slots: Vec<Slot>,
    grows: Vec<Grow>,
}

impl<'p> Interp<'p> {
    fn ph(&mut self, w: u16) -> T {
        self.cx.leaf_r("placeholder", w, 0, mask(w), false)
    }
    fn gen_t(&mut self, g: &mut Gen, a: T, b: T) -> Option<T> {
        if a == b {
            return Some(a);
        }
        let w = self.cx.w(a);
        if self.cx.w(b) != w {
            return None;
        }
        if let Some(s) = g.slots.iter().find(|s| s.t0 == a && s.arr.is_none() && s.d.is_some()) {
            // same initial value and same stride: the same induction variable
            let d = self.cx.sub(b, a);
            if self.cx.cv(d) == s.d {
                return Some(s.ph);
            }
        }
        let arr = self.cx.arr_len.get(&a).copied();
        let ph = self.ph(w);
        if let Some(n) = arr {
            self.cx.arr_len.insert(ph, n);
        }
        let d = match (self.cx.k(a).clone(), self.cx.k(b).clone()) {
            _ if arr.is_some() => None,
            (K::App(Op::Elem(_), _), _) => None,
            _ => {
                let d = self.cx.sub(b, a);
                self.cx.cv(d)
            }
        };
        g.slots.push(Slot { ph, t0: a, d, arr });
        Some(ph)
    }
    fn gen_ptr(&mut self, g: &mut Gen, a: &Ptr, b: &Ptr) -> Option<Ptr> {
        if a.root != b.root || a.path.len() != b.path.len() {
            return None;
        }
        let mut path = vec![];
        for (x, y) in a.path.iter().zip(b.path.iter()) {
            path.push(match (x, y) {
                (Step::I(x), Step::I(y)) => Step::I(self.gen_t(g, *x, *y)?),
                (x, y) if x == y => *x,
                _ => return None,
            });
        }
        let slice = match (a.slice, b.slice) {
            (None, None) => None,
            (Some((x, y)), Some((z, w))) => Some((self.gen_t(g, x, z)?, self.gen_t(g, y, w)?)),
            _ => return None,
        };
        Some(Ptr { root: a.root.clone(), path, slice })
    }
    fn gen_vs(&mut self, g: &mut Gen, a: &[V], b: &[V]) -> Option<Vec<V>> {
        if a.len() != b.len() {
            return None;
        }
        let mut r = Vec::with_capacity(a.len());
        for (x, y) in a.iter().zip(b) {
            r.push(self.gen_v(g, x, y)?);
        }
        Some(r)
    }
    fn segs(q: &Seq) -> Option<Vec<Seg>> {
        match q {
            Seq::E(v) if v.is_empty() => Some(vec![]),
            Seq::E(v) => Some(vec![Seg::E(v.clone())]),
            Seq::G(g) => Some(g.clone()),
            Seq::T(..) => None,
        }
    }
    fn gen_seq(&mut self, g: &mut Gen, a: &Seq, b: &Seq) -> Option<Seq> {
        if self.same_seq(a, b) {
            return Some(a.clone());
        }
        match (a, b) {
            (Seq::E(x), Seq::E(y)) if x.len() == y.len() => return Some(Seq::E(self.gen_vs(g, x, y)?)),
            (Seq::T(x, n), Seq::T(y, m)) if n == m => return Some(Seq::T(self.gen_t(g, *x, *y)?, *n)),
            (Seq::T(x, n), Seq::E(_)) | (Seq::E(_), Seq::T(x, n)) => {
                let _ = x;
                let (p, q) = (self.seq_term(a)?, self.seq_term(b)?);
                if p.1 == q.1 && p.1 == *n {
                    return Some(Seq::T(self.gen_t(g, p.0, q.0)?, *n));
                }
                return None;
            }
            _ => {}
        }
        let (x, y) = (Self::segs(a)?, Self::segs(b)?);
        // y = x ++ n elements
        if y.len() < x.len() {
            return None;
        }
        let mut extra: Vec<V> = vec![];
        for (i, s) in y.iter().enumerate() {
            match (x.get(i), s) {
                (Some(p), s) if self.same_seq(&Seq::G(vec![p.clone()]), &Seq::G(vec![s.clone()])) => {}
                (Some(Seg::E(p)), Seg::E(e)) if i + 1 == x.len() && e.len() > p.len() && p.iter().zip(e).all(|(a, b)| self.same_v(a, b)) => extra.extend(e[p.len()..].iter().cloned()),
                (None, Seg::E(e)) => extra.extend(e.iter().cloned()),
                _ => {
                    // equal shape, different numbers
                    if x.len() == y.len() {
                        return self.gen_segs(g, &x, &y);
                    }
                    return None;
                }
            }
        }
        if extra.is_empty() {
            return None;
        }
        let ph = self.ph(W);
        let seq = self.seqs.len() as u32;
        self.seqs.push(format!("appended{seq}"));
        let mut r = x.clone();
        let z = self.cx.us(0);
        r.push(Seg::In { seq, start: z, len: ph });
        g.grows.push(Grow { ph, n: extra.len() as u128, seq, at: x.len() });
        Some(Seq::G(r))
    }
    fn gen_segs(&mut self, g: &mut Gen, x: &[Seg], y: &[Seg]) -> Option<Seq> {
        let mut r = vec![];
        for (a, b) in x.iter().zip(y) {
            r.push(match (a, b) {
                (Seg::E(p), Seg::E(q)) => Seg::E(self.gen_vs(g, p, q)?),
                (Seg::In { seq, start, len }, Seg::In { seq: s2, start: t2, len: l2 }) if seq == s2 => Seg::In { seq: *seq, start: self.gen_t(g, *start, *t2)?, len: self.gen_t(g, *len, *l2)? },
                (Seg::Loop { k, count, body }, Seg::Loop { k: k2, count: c2, body: b2 }) if k == k2 && body.len() == b2.len() && body.iter().zip(b2).all(|(a, b)| self.same_v(a, b)) => Seg::Loop { k: *k, count: self.gen_t(g, *count, *c2)?, body: body.clone() },
                _ => return None,
            });
        }
        Some(Seq::G(r))
    }
    fn gen_v(&mut self, g: &mut Gen, a: &V, b: &V) -> Option<V> {
        if self.same_v(a, b) {
            return Some(a.clone());
        }
        Some(match (a, b) {
            (V::U, _) | (_, V::U) => V::U,
            (V::S(x), V::S(y)) => V::S(self.gen_t(g, *x, *y)?),
            (V::A(x), V::A(y)) => V::A(Rc::new(self.gen_vs(g, x, y)?)),
            (V::E(i, x), V::E(j, y)) if i == j => V::E(*i, Rc::new(self.gen_vs(g, x, y)?)),
            (V::Q(x), V::Q(y)) => V::Q(Rc::new(self.gen_seq(g, x, y)?)),
            (V::R(x), V::R(y)) => V::R(Rc::new(self.gen_ptr(g, x, y)?)),
            (V::I(x), V::I(y)) => V::I(Rc::new(match (&**x, &**y) {
                (It::Slice { base, off, end }, It::Slice { base: b2, off: o2, end: e2 }) => It::Slice { base: self.gen_ptr(g, base, b2)?, off: self.gen_t(g, *off, *o2)?, end: self.gen_t(g, *end, *e2)? },
                (It::Chunks { base, off, end, n, exact, total_end }, It::Chunks { base: b2, off: o2, end: e2, n: n2, exact: x2, total_end: t2 }) if n == n2 && exact == x2 => {
                    It::Chunks { base: self.gen_ptr(g, base, b2)?, off: self.gen_t(g, *off, *o2)?, end: self.gen_t(g, *end, *e2)?, n: *n, exact: *exact, total_end: self.gen_t(g, *total_end, *t2)? }
                }
                (It::Windows { base, off, end, n }, It::Windows { base: b2, off: o2, end: e2, n: n2 }) if n == n2 => It::Windows { base: self.gen_ptr(g, base, b2)?, off: self.gen_t(g, *off, *o2)?, end: self.gen_t(g, *end, *e2)?, n: *n },
                (It::Vals { q, off, end }, It::Vals { q: q2, off: o2, end: e2 }) => It::Vals { q: Rc::new(self.gen_seq(g, q, q2)?), off: self.gen_t(g, *off, *o2)?, end: self.gen_t(g, *end, *e2)? },
                _ => return None,
            })),
            _ => return None,
        })
    }
    fn gen_state(&mut self, a: &State, b: &State) -> Option<(State, Gen)> {
        if a.frames.len() != b.frames.len() || a.heap.len() > b.heap.len() {
            return None;
        }
        let mut g = Gen::default();
        let mut r = a.clone();
        for i in 0..a.frames.len() {
            if a.frames[i].f != b.frames[i].f {
                return None;
            }
            if Rc::ptr_eq(&a.frames[i].locals, &b.frames[i].locals) {
                continue;
            }
            match self.gen_vs(&mut g, &a.frames[i].locals, &b.frames[i].locals) {
                Some(v) => r.frames[i].locals = Rc::new(v),
                None => {
                    if self.trace {
                        for (j, (x, y)) in a.frames[i].locals.iter().zip(b.frames[i].locals.iter()).enumerate() {
                            let mut g2 = Gen::default();
                            if self.gen_v(&mut g2, x, y).is_none() {
                                eprintln!("    differs in shape: {} _{j}: {} / {}", self.func(a.frames[i].f).name, brief(x), brief(y));
                            }
                        }
                    }
                    return None;
                }
            }
        }
        r.heap = Rc::new(self.gen_vs(&mut g, &a.heap, &b.heap[..a.heap.len()])?);
        Some((r, g))
    }

    // ---------- matching a state against the generalisation ----------
    fn mat_t(&self, sk: T, e: T, b: &mut FxMap<T, T>, g: &Gen, fail: &mut Vec<T>) -> bool {
        if g.slots.iter().any(|s| s.ph == sk) || g.grows.iter().any(|s| s.ph == sk) {
            return match b.get(&sk) {
                Some(x) => {
                    if *x != e {
                        fail.push(sk);
                    }
                    *x == e
                }
                None => {
                    b.insert(sk, e);
                    true
                }
            };
        }
        sk == e
    }
    fn mat_ptr(&self, a: &Ptr, b: &Ptr, m: &mut FxMap<T, T>, g: &Gen, fail: &mut Vec<T>) -> bool {
        a.root == b.root
            && a.path.len() == b.path.len()
            && a.path.iter().zip(b.path.iter()).all(|(x, y)| match (x, y) {
                (Step::I(x), Step::I(y)) => self.mat_t(*x, *y, m, g, fail),
                (x, y) => x == y,
            })
            && match (a.slice, b.slice) {
                (None, None) => true,
                (Some((x, y)), Some((z, w))) => self.mat_t(x, z, m, g, fail) && self.mat_t(y, w, m, g, fail),
                _ => false,
            }
    }
    fn mat_vs(&self, a: &[V], b: &[V], m: &mut FxMap<T, T>, bodies: &mut FxMap<u32, Vec<V>>, g: &Gen, fail: &mut Vec<T>) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| self.mat_v(x, y, m, bodies, g, fail))
    }
    fn mat_seq(&self, a: &Seq, b: &Seq, m: &mut FxMap<T, T>, bodies: &mut FxMap<u32, Vec<V>>, g: &Gen, fail: &mut Vec<T>) -> bool {
        match (a, b) {
            (Seq::E(x), Seq::E(y)) => return self.mat_vs(x, y, m, bodies, g, fail),
            (Seq::T(x, n), Seq::T(y, k)) => return n == k && self.mat_t(*x, *y, m, g, fail),
            _ => {}
        }
        let (Some(x), Some(y)) = (Self::segs(a), Self::segs(b)) else { return false };
        let grow = x.iter().find_map(|s| if let Seg::In { seq, .. } = s { g.grows.iter().find(|r| r.seq == *seq) } else { None });
        if grow.is_none() {
            return x.len() == y.len()
                && x.iter().zip(y.iter()).all(|(a, b)| match (a, b) {
                    (Seg::E(p), Seg::E(q)) => self.mat_vs(p, q, m, bodies, g, fail),
                    (Seg::In { seq, start, len }, Seg::In { seq: s2, start: t2, len: l2 }) => seq == s2 && self.mat_t(*start, *t2, m, g, fail) && self.mat_t(*len, *l2, m, g, fail),
                    (Seg::Loop { k, count, body }, Seg::Loop { k: k2, count: c2, body: b2 }) => k == k2 && self.mat_t(*count, *c2, m, g, fail) && body.len() == b2.len() && body.iter().zip(b2).all(|(a, b)| self.same_v(a, b)),
                    _ => false,
                });
        }
        let r = grow.unwrap();
        if y.len() != r.at + 2 || x.len() != r.at + 1 {
            return false;
        }
        for i in 0..r.at {
            if !self.mat_seq(&Seq::G(vec![x[i].clone()]), &Seq::G(vec![y[i].clone()]), m, bodies, g, fail) {
                return false;
            }
        }
        match (&y[r.at], &y[r.at + 1]) {
            (Seg::In { seq, .. }, Seg::E(e)) if *seq == r.seq && e.len() as u128 == r.n => {
                bodies.insert(r.seq, e.clone());
                true
            }
            _ => false,
        }
    }
    fn mat_v(&self, a: &V, b: &V, m: &mut FxMap<T, T>, bodies: &mut FxMap<u32, Vec<V>>, g: &Gen, fail: &mut Vec<T>) -> bool {
        match (a, b) {
            (V::U, _) => true,
            (V::S(x), V::S(y)) => self.mat_t(*x, *y, m, g, fail),
            (V::A(x), V::A(y)) => self.mat_vs(x, y, m, bodies, g, fail),
            (V::E(i, x), V::E(j, y)) => i == j && self.mat_vs(x, y, m, bodies, g, fail),
            (V::Q(x), V::Q(y)) => self.mat_seq(x, y, m, bodies, g, fail),
            (V::R(x), V::R(y)) => self.mat_ptr(x, y, m, g, fail),
            (V::I(x), V::I(y)) => match (&**x, &**y) {
                (It::Slice { base, off, end }, It::Slice { base: b2, off: o2, end: e2 }) => self.mat_ptr(base, b2, m, g, fail) && self.mat_t(*off, *o2, m, g, fail) && self.mat_t(*end, *e2, m, g, fail),
                (It::Chunks { base, off, end, n, exact, total_end }, It::Chunks { base: b2, off: o2, end: e2, n: n2, exact: x2, total_end: t2 }) => {
                    n == n2 && exact == x2 && self.mat_ptr(base, b2, m, g, fail) && self.mat_t(*off, *o2, m, g, fail) && self.mat_t(*end, *e2, m, g, fail) && self.mat_t(*total_end, *t2, m, g, fail)
                }
                (It::Windows { base, off, end, n }, It::Windows { base: b2, off: o2, end: e2, n: n2 }) => n == n2 && self.mat_ptr(base, b2, m, g, fail) && self.mat_t(*off, *o2, m, g, fail) && self.mat_t(*end, *e2, m, g, fail),
                (It::Vals { q, off, end }, It::Vals { q: q2, off: o2, end: e2 }) => self.mat_seq(q, q2, m, bodies, g, fail) && self.mat_t(*off, *o2, m, g, fail) && self.mat_t(*end, *e2, m, g, fail),
                _ => false,
            },
            _ => self.same_v(a, b),
        }
    }
    fn mat_state(&self, a: &State, b: &State, m: &mut FxMap<T, T>, bodies: &mut FxMap<u32, Vec<V>>, g: &Gen, fail: &mut Vec<T>) -> bool {
        if a.frames.len() != b.frames.len() || b.heap.len() < a.heap.len() {
            return false;
        }
        for i in 0..a.frames.len() {
            if Rc::ptr_eq(&a.frames[i].locals, &b.frames[i].locals) {
                continue;
            }
            if !self.mat_vs(&a.frames[i].locals, &b.frames[i].locals, m, bodies, g, fail) {
                if self.trace {
                    for (j, (x, y)) in a.frames[i].locals.iter().zip(b.frames[i].locals.iter()).enumerate() {
                        if !self.mat_v(x, y, &mut m.clone(), bodies, g, &mut vec![]) {
                            eprintln!("    not inductive: {} _{j}: {} / {}", self.func(a.frames[i].f).name, brief(x), brief(y));
                        }
                    }
                }
                return false;
            }
        }
        self.mat_vs(&a.heap, &b.heap[..a.heap.len()], m, bodies, g, fail)
    }
    fn subst_state(&mut self, s: &State, env: &FxMap<T, T>) -> State {
        self.subst_state_m(s, env, &mut Default::default())
    }
    fn subst_state_m(&mut self, s: &State, env: &FxMap<T, T>, memo: &mut FxMap<T, T>) -> State {
        let mut r = s.clone();
        for fr in r.frames.iter_mut() {
            fr.locals = Rc::new(fr.locals.iter().map(|x| self.subst_v(x, env, memo)).collect());
        }
        r.heap = Rc::new(s.heap.iter().map(|x| self.subst_v(x, env, memo)).collect());
        r.pcs = Rc::new(s.pcs.iter().map(|x| self.cx.subst(*x, env, memo)).collect());
        r
    }
    /// `p` passes through the loop head, all branches decided
    fn period(&mut self, st: State, header: u32, stops: &[u32], p: u32, panics: &mut Vec<(State, Exit)>) -> Res<State> {
        let mut cur = st;
        let mut sx = stops.to_vec();
        sx.push(header);
        for _ in 0..p {
            let d = cur.frames.len();
            let base = cur.clone();
            let r = self.run(cur, header, &sx)?;
            self.sites.truncate(d);
            let mut back = vec![];
            for (s, e) in r {
                match e {
                    Exit::Stop(h) if h == header => back.push((s, V::U)),
                    Exit::Panic(_) => panics.push((s, e)),
                    _ => return unsup("loop left before its period ends"),
                }
            }
            for s in back.iter_mut() {
                self.prune(&mut s.0, Some(header));
            }
            if back.len() > 1 {
                back = self.merge_list(&base, back);
            }
            if back.len() != 1 {
                return unsup(format!("{} states at the loop head", back.len()));
            }
            cur = back.pop().unwrap().0;
        }
        Ok(cur)
    }
    pub fn summarise(&mut self, s0: &State, header: u32, stops: &[u32], c: T) -> Res<Vec<(State, Exit)>> {
        if self.sum_depth > 0 {
            return unsup("nested loop summary");
        }
        self.sum_depth += 1;
        let n = self.obls.len();
        let r = self.summarise_inner(s0, header, stops, c);
        self.sum_depth -= 1;
        let fin = r?;
        if self.obls.len() != n {
            self.obls.truncate(n);
            return unsup("obligations inside a summarised loop");
        }
        self.loops_done += 1;
        let (st, mut outs) = fin;
        outs.extend(self.run(st, header, stops)?);
        Ok(outs)
    }
    fn summarise_inner(&mut self, s0: &State, header: u32, stops: &[u32], c: T) -> Res<(State, Vec<(State, Exit)>)> {
        let mut sup = Default::default();
        self.cx.reach(c, &mut sup);
        let mut qs: Vec<T> = self.qinfo.keys().copied().filter(|q| sup.contains(q)).collect();
        qs.sort_unstable();
        let [q] = qs[..] else { return unsup("no single length variable") };
        let block = self.qinfo[&q];
        let hi = match self.cx.k(q) {
            K::Leaf(l) => self.cx.leaves[*l as usize].hi,
            _ => return unsup("length variable"),
        };
        // how far a period has to advance what the loop condition compares
        let mut strides = vec![block];
        for t in sup.iter().chain([c].iter()) {
            match self.cx.k(*t) {
                K::Sum(_, ts) => strides.extend(ts.iter().filter(|x| x.0 == q).map(|x| x.1)),
                K::App(_, a) if a.contains(&q) => strides.push(1),
                _ => {}
            }
        }
        let neg: Vec<u128> = strides.iter().map(|x| x.wrapping_neg() & mask(W)).collect();
        strides.extend(neg);
        // one period with q = 1 + q1
        let q1 = self.cx.leaf_r("q'", W, 0, hi - 1, true);
        let one = self.cx.us(1);
        let e = self.cx.add(q1, one);
        let mut back: FxMap<T, T> = Default::default();
        let st1 = self.subst_state_m(s0, &[(q, e)].into_iter().collect(), &mut back);
        let mut cur = st1.clone();
        let mut found = None;
        for p in 1..=2 * block as u32 {
            let mut pan = vec![];
            cur = self.period(cur, header, stops, 1, &mut pan)?;
            if !pan.is_empty() {
                return unsup("panic in the first period");
            }
            if let Some((sk, g)) = self.gen_state(&st1, &cur) {
                if g.slots.iter().any(|s| s.d.is_some_and(|d| strides.contains(&d)) && self.cx.w(s.ph) == W) {
                    found = Some((p, sk, g));
                    break;
                }
            }
        }
        let Some((p, sk, mut g)) = found else { return unsup("no period") };
        let kk = self.named_leaf_r("loop.k", W, 0, hi, true);
        let kb = self.named_leaf_r("loop.j", W, 0, hi, true);
        let mm = self.named_leaf_r("loop.m", W, 0, hi, true);
        let km = self.cx.add(kk, mm);
        for _ in 0..8 {
            match self.inductive(&sk, &g, q1, km, kk, kb, mm, header, stops, p) {
                Ok((vals, bodies, panics)) => {
                    // state after the loop
                    let mut env: FxMap<T, T> = Default::default();
                    let qm = self.cx.addc(q, mask(W));
                    env.insert(q1, qm);
                    // undo q = 1 + q1 on the values that were there before
                    for (a, b) in &back {
                        if a != b {
                            env.insert(*b, *a);
                        }
                    }
                    let mut memo = Default::default();
                    let mut fin: FxMap<T, T> = env.clone();
                    let at = |it: &mut Self, v: T, n: T| {
                        let e: FxMap<T, T> = [(kk, n)].into_iter().collect();
                        it.cx.subst(v, &e, &mut Default::default())
                    };
                    for s in &g.slots {
                        let v = match s.d {
                            Some(d) => {
                                let w = self.cx.w(s.ph);
                                let t0 = self.cx.subst(s.t0, &env, &mut memo);
                                let qw = if w <= W { self.cx.trunc(q, w) } else { self.cx.zext(q, w) };
                                let dd = self.cx.c(w, d);
                                let x = self.cx.mul(qw, dd);
                                self.cx.add(t0, x)
                            }
                            None => {
                                let v = vals[&s.ph];
                                let v = at(self, v, q);
                                self.cx.subst(v, &env, &mut memo)
                            }
                        };
                        fin.insert(s.ph, v);
                    }
                    let mut st = sk.clone();
                    let z = self.cx.us(0);
                    for r in &g.grows {
                        fin.insert(r.ph, z);
                    }
                    // splice the appended stretches in
                    let mut plans: FxMap<u32, Seg> = Default::default();
                    for r in &g.grows {
                        let body: Vec<V> = bodies[&r.seq].clone();
                        let e: FxMap<T, T> = [(kk, kb)].into_iter().collect();
                        let mut m2 = Default::default();
                        let body = body.iter().map(|v| self.subst_v(v, &e, &mut m2)).collect();
                        plans.insert(r.seq, Seg::Loop { k: kb, count: q, body });
                    }
                    for fr in st.frames.iter_mut() {
                        fr.locals = Rc::new(fr.locals.iter().map(|v| self.splice(v, &plans)).collect());
                    }
                    st.heap = Rc::new(st.heap.iter().map(|v| self.splice(v, &plans)).collect());
                    let st = self.subst_state(&st, &fin);
                    let mut st = st;
                    st.pcs = s0.pcs.clone();
                    st.env = s0.env.clone();
                    st.bnd = s0.bnd.clone();
                    st.vals = s0.vals.clone();
                    if self.trace {
                        eprintln!("summarised {} bb{header}: period {p}, {} slots, {} growing", self.func(st.top().f).name, g.slots.len(), g.grows.len());
                    }
                    return Ok((st, panics));
                }
                Err(fail) => {
                    // an induction variable that is not one: treat as recurrence
                    let mut ch = false;
                    for s in g.slots.iter_mut() {
                        if s.d.is_some() && fail.1.contains(&s.ph) {
                            s.d = None;
                            ch = true;
                        }
                    }
                    if !ch {
                        return Err(fail.0);
                    }
                }
            }
        }
        unsup("no invariant")
    }
    fn splice(&mut self, v: &V, plans: &FxMap<u32, Seg>) -> V {
        match v {
            V::A(f) => V::A(Rc::new(f.iter().map(|x| self.splice(x, plans)).collect())),
            V::E(i, f) => V::E(*i, Rc::new(f.iter().map(|x| self.splice(x, plans)).collect())),
            V::Q(q) => V::Q(Rc::new(self.splice_seq(q, plans))),
            V::I(i) => match &**i {
                It::Vals { q, off, end } => V::I(Rc::new(It::Vals { q: Rc::new(self.splice_seq(q, plans)), off: *off, end: *end })),
                _ => v.clone(),
            },
            _ => v.clone(),
        }
    }
    fn splice_seq(&mut self, q: &Seq, plans: &FxMap<u32, Seg>) -> Seq {
        match q {
            Seq::E(e) => Seq::E(e.iter().map(|x| self.splice(x, plans)).collect()),
            Seq::T(..) => q.clone(),
            Seq::G(gs) => Seq::G(
                gs.iter()
                    .map(|s| match s {
                        Seg::In { seq, .. } if plans.contains_key(seq) => plans[seq].clone(),
                        s => s.clone(),
                    })
                    .collect(),
            ),
        }
    }
    /// interpret one generic period; values of the recurrences as functions of k, bodies of the appends
    #[allow(clippy::too_many_arguments, clippy::type_complexity)]
    fn inductive(&mut self, sk: &State, g: &Gen, q1: T, km: T, kk: T, kb: T, mm: T, header: u32, stops: &[u32], p: u32) -> Result<(FxMap<T, T>, FxMap<u32, Vec<V>>, Vec<(State, Exit)>), (Bail, Vec<T>)> {
        let er = |s: &str| (Bail::Unsup(s.into()), vec![]);
        let recs: Vec<usize> = (0..g.slots.len()).filter(|i| g.slots[*i].d.is_none()).collect();
        let envq: FxMap<T, T> = [(q1, km)].into_iter().collect();
        let mut leaf: FxMap<usize, T> = Default::default();
        let mut init: FxMap<usize, T> = Default::default();
        let mut memo: FxMap<T, T> = Default::default();
        for &i in &recs {
            let s = &g.slots[i];
            let t0 = self.cx.subst(s.t0, &envq, &mut memo);
            init.insert(i, t0);
            let w = self.cx.w(s.ph);
            let l = self.cx.leaf(&format!("rec?{i}"), w);
            if let Some(n) = s.arr {
                self.cx.arr_len.insert(l, n);
            }
            leaf.insert(i, l);
        }
        let mut closed: FxMap<usize, T> = Default::default();
        let mut named = false;
        let mut last = None;
        for _pass in 0..6 {
            let lin = |it: &mut Self, extra: u128| -> FxMap<T, T> {
                let mut e = envq.clone();
                let mut memo = Default::default();
                let k1 = it.cx.addc(kk, extra);
                for (i, s) in g.slots.iter().enumerate() {
                    let v = match s.d {
                        Some(d) => {
                            let w = it.cx.w(s.ph);
                            let t0 = it.cx.subst(s.t0, &envq, &mut memo);
                            let kw = if w <= W { it.cx.trunc(k1, w) } else { it.cx.zext(k1, w) };
                            let dd = it.cx.c(w, d);
                            let x = it.cx.mul(kw, dd);
                            it.cx.add(t0, x)
                        }
                        None => match closed.get(&i) {
                            Some(c) if extra != 0 => it.cx.subst(*c, &[(kk, k1)].into_iter().collect(), &mut Default::default()),
                            Some(c) => *c,
                            None => leaf[&i],
                        },
                    };
                    e.insert(s.ph, v);
                }
                for r in &g.grows {
                    let n = it.cx.us(r.n);
                    let x = it.cx.mul(k1, n);
                    e.insert(r.ph, x);
                }
                e
            };
            let env0 = lin(self, 0);
            let gk = self.subst_state(sk, &env0);
            let mut panics = vec![];
            let end = self.period(gk, header, stops, p, &mut panics).map_err(|e| (e, vec![]))?;
            // compare with the generalisation at k+1; placeholders bind
            let ske = self.subst_state(sk, &envq);
            let mut binds = Default::default();
            let mut bodies: FxMap<u32, Vec<V>> = Default::default();
            let mut fail = vec![];
            if !self.mat_state(&ske, &end, &mut binds, &mut bodies, g, &mut fail) {
                return Err((Bail::Unsup("not inductive".into()), fail));
            }
            let env1 = lin(self, 1);
            let mut bad = vec![];
            for (i, s) in g.slots.iter().enumerate() {
                if s.d.is_some() || closed.contains_key(&i) {
                    if let Some(b) = binds.get(&s.ph) {
                        if *b != env1[&s.ph] {
                            bad.push(s.ph);
                        }
                    }
                }
            }
            if !bad.is_empty() {
                return Err((Bail::Unsup("induction variable".into()), bad));
            }
            // steps of the recurrences
            let mut step: FxMap<usize, T> = Default::default();
            for &i in &recs {
                match binds.get(&g.slots[i].ph) {
                    Some(b) => {
                        step.insert(i, *b);
                    }
                    None => return Err(er("unbound recurrence")),
                }
            }
            let mut sup = Default::default();
            for (_, t) in step.iter() {
                self.cx.reach(*t, &mut sup);
            }
            for b in bodies.values() {
                for v in b {
                    match v {
                        V::S(t) => self.cx.reach(*t, &mut sup),
                        _ => return Err(er("appended aggregate")),
                    }
                }
            }
            if sup.contains(&mm) || sup.contains(&kb) {
                return Err(er("step depends on the remaining length"));
            }
            if g.grows.iter().any(|r| sup.iter().any(|t| matches!(self.cx.k(*t), K::App(Op::Elem(s), _) if *s == r.seq))) {
                return Err(er("loop reads back what it appends"));
            }
            if !named {
                let mut more = false;
                let mut reclv: Vec<T> = recs.iter().filter(|i| !closed.contains_key(i)).map(|i| leaf[i]).collect();
                reclv.sort_unstable();
                for &i in &recs {
                    if closed.contains_key(&i) {
                        continue;
                    }
                    let mut sup = Default::default();
                    self.cx.reach(step[&i], &mut sup);
                    if reclv.iter().any(|l| sup.contains(l)) {
                        continue;
                    }
                    // v(k) = step(k-1), if that also gives the initial value
                    let km1 = self.cx.addc(kk, mask(W));
                    let c = self.cx.subst(step[&i], &[(kk, km1)].into_iter().collect(), &mut Default::default());
                    let z = self.cx.us(0);
                    let c0 = self.cx.subst(c, &[(kk, z)].into_iter().collect(), &mut Default::default());
                    if c0 == init[&i] {
                        closed.insert(i, c);
                        more = true;
                    }
                }
                if more {
                    continue;
                }
                named = true;
                let recs: Vec<usize> = recs.iter().copied().filter(|i| !closed.contains_key(i)).collect();
                // name the recurrences by what they compute
                let mut col: FxMap<usize, u128> = Default::default();
                for &i in &recs {
                    col.insert(i, h128(3, &[init[&i] as u128, self.cx.w(init[&i]) as u128]));
                }
                for _ in 0..3 {
                    let mut e = Eval::new(&self.cx, 4242);
                    for &i in &recs {
                        let w = self.cx.w(leaf[&i]);
                        let v = match g.slots[i].arr {
                            Some(n) => EV::A(Rc::new((0..n).map(|j| h128(9, &[col[&i], j as u128]) & mask(w)).collect())),
                            None => EV::N(h128(9, &[col[&i]]) & mask(w)),
                        };
                        e.env.insert(leaf[&i], v);
                    }
                    e.env.insert(kk, EV::N(5));
                    let mut nc: FxMap<usize, u128> = Default::default();
                    for &i in &recs {
                        let v = match e.ev(step[&i]) {
                            EV::N(x) => x,
                            EV::A(v) => h128(2, &v),
                        };
                        nc.insert(i, h128(3, &[col[&i], v]));
                    }
                    col = nc;
                }
                for &i in &recs {
                    let w = self.cx.w(g.slots[i].ph);
                    let l = self.named_leaf_r(&format!("rec:{w}:{:x}", col[&i]), w, 0, mask(w), false);
                    if let Some(n) = g.slots[i].arr {
                        self.cx.arr_len.insert(l, n);
                    }
                    leaf.insert(i, l);
                }
                continue;
            }
            last = Some((step, bodies, panics));
            break;
        }
        let Some((step, bodies, panics)) = last else { return Err(er("closed forms")) };
        let allrecs = recs;
        let recs: Vec<usize> = allrecs.iter().copied().filter(|i| !closed.contains_key(i)).collect();
        // one variable per class; all members must agree
        let mut sys: std::collections::BTreeMap<T, (T, T)> = Default::default();
        for &i in &recs {
            let l = leaf[&i];
            let e = (init[&i], step[&i]);
            if let Some(x) = sys.get(&l) {
                if *x != e {
                    return Err(er("recurrence classes disagree"));
                }
            }
            sys.insert(l, e);
        }
        let mut deps: FxMap<T, Vec<T>> = Default::default();
        for (l, (_, s)) in &sys {
            let mut sup = Default::default();
            self.cx.reach(*s, &mut sup);
            deps.insert(*l, sys.keys().copied().filter(|x| sup.contains(x)).collect());
        }
        let mut out: FxMap<T, T> = Default::default(); // class leaf -> value at k
        for l in sys.keys() {
            let mut cl = vec![*l];
            let mut i = 0;
            while i < cl.len() {
                for d in &deps[&cl[i]] {
                    if !cl.contains(d) {
                        cl.push(*d);
                    }
                }
                i += 1;
            }
            cl.sort_unstable();
            let steps: Vec<T> = cl.iter().map(|x| sys[x].1).collect();
            let inits: Vec<T> = cl.iter().map(|x| sys[x].0).collect();
            let mut sup = Default::default();
            for s in &steps {
                self.cx.reach(*s, &mut sup);
            }
            let mut free: Vec<T> = sup.iter().copied().filter(|t| matches!(self.cx.k(*t), K::Leaf(_)) && *t != kk && !cl.contains(t)).collect();
            free.sort_unstable();
            let id = self.cx.loop_id(kk, &cl, &steps, &free);
            let pos = cl.iter().position(|x| x == l).unwrap() as u32;
            let mut args = vec![kk];
            args.extend(inits);
            args.extend(free);
            let w = self.cx.w(*l);
            let t = self.cx.app(w, Op::LoopOut(id, pos), args);
            if let Some(&n) = self.cx.arr_len.get(l) {
                self.cx.arr_len.insert(t, n);
            }
            out.insert(*l, t);
        }
        // panics may not depend on the unknown recurrence values
        for (s, _) in &panics {
            let mut sup = Default::default();
            for c in s.pcs.iter() {
                self.cx.reach(*c, &mut sup);
            }
            if sys.keys().any(|l| sup.contains(l)) {
                return Err(er("panic depends on loop state"));
            }
        }
        let mut vals: FxMap<T, T> = Default::default();
        for &i in &recs {
            vals.insert(g.slots[i].ph, out[&leaf[&i]]);
        }
        for (i, c) in &closed {
            vals.insert(g.slots[*i].ph, *c);
        }
        let mut m2 = Default::default();
        let mut b2: FxMap<u32, Vec<V>> = Default::default();
        for (s, b) in bodies {
            b2.insert(s, b.iter().map(|v| self.subst_v(v, &out, &mut m2)).collect());
        }
        Ok((vals, b2, panics))
    }
}

//! Deciding obligations: equality of value-graph normal forms, refutation by a confirmed valuation.
use crate::eval::*;
use crate::interp::*;
use crate::term::*;
use crate::value::*;
use std::collections::HashSet;

pub enum Cmp {
    Pairs(Vec<(T, T)>),
    Shape(String),
    Open(String),
}

enum Fate {
    Held,
    Refuted(String),
    Open,
}
impl<'p> Interp<'p> {
    /// decide "the path facts imply the pairs equal" (no pairs: "the path is impossible")
    fn refute(&mut self, st: &State, open: &[(T, T)]) -> Fate {
        for deep in [false, true] {
            match self.by_diagram(st, open, 30_000, deep) {
                Fate::Open => {}
                f => return f,
            }
        }
        if let Some(w) = self.witness(st, open) {
            return Fate::Refuted(w);
        }
        if self.diagrams < 12 {
            self.diagrams += 1;
            return self.by_diagram(st, open, 1_000_000, false);
        }
        Fate::Open
    }
    fn by_diagram(&mut self, st: &State, open: &[(T, T)], cap: usize, deep: bool) -> Fate {
        let pcs: Vec<T> = st.pcs.to_vec();
        match crate::bdd::decide(&mut self.cx, &pcs, open, cap, deep) {
            crate::bdd::Verdict::Holds => Fate::Held,
            crate::bdd::Verdict::Open => Fate::Open,
            crate::bdd::Verdict::Model(m) => {
                let mut e = Eval::new(&self.cx, 1);
                for (t, v) in &m {
                    if let K::Leaf(l) = self.cx.k(*t) {
                        let li = &self.cx.leaves[*l as usize];
                        if *v < li.lo || *v > li.hi {
                            return Fate::Open;
                        }
                    }
                    set(&mut e, *t, *v);
                }
                let ok = pcs.iter().all(|p| e.n(*p) == 1) && (open.is_empty() || open.iter().any(|(a, b)| e.ev(*a) != e.ev(*b)));
                if !ok || e.fuel == 0 || e.big_loop {
                    return Fate::Open;
                }
                let mut s = String::new();
                for (t, v) in m.iter().take(6) {
                    s += &format!("{}={:#x} ", self.cx.show(*t, 2), v);
                }
                Fate::Refuted(s.trim_end().to_string())
            }
        }
    }
    fn cmp_v(&mut self, st: &State, a: &V, b: &V, out: &mut Vec<(T, T)>, at: &str) -> Result<(), Cmp> {
        match (a, b) {
            (V::S(x), V::S(y)) => {
                if self.cx.w(*x) != self.cx.w(*y) {
                    return Err(Cmp::Open(format!("{at}: widths")));
                }
                if x != y {
                    out.push((*x, *y));
                }
                Ok(())
            }
            (V::A(x), V::A(y)) => {
                if x.len() != y.len() {
                    return Err(Cmp::Open(format!("{at}: arity")));
                }
                for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                    self.cmp_v(st, p, q, out, &format!("{at}.{i}"))?;
                }
                Ok(())
            }
            (V::E(i, x), V::E(j, y)) => {
                if i != j {
                    return Err(Cmp::Shape(format!("{at}: variant {i} instead of {j}")));
                }
                for (k, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                    self.cmp_v(st, p, q, out, &format!("{at}.{k}"))?;
                }
                Ok(())
            }
            (V::Q(x), V::Q(y)) => {
                if self.same_seq(x, y) {
                    return Ok(());
                }
                let (n, m) = (self.seq_len(x), self.seq_len(y));
                if n != m {
                    return match (self.cx.cv(n), self.cx.cv(m)) {
                        (Some(n), Some(m)) => Err(Cmp::Shape(format!("{at}: length {n} instead of {m}"))),
                        _ => {
                            out.push((n, m));
                            Ok(())
                        }
                    };
                }
                let z = self.cx.us(0);
                if self.cx.cv(n).is_some() {
                    let u = self.elems(st, x, z, n);
                    let v = self.elems(st, y, z, n);
                    return match (u, v) {
                        (Ok(u), Ok(v)) => {
                            for (i, (p, q)) in u.iter().zip(v.iter()).enumerate() {
                                self.cmp_v(st, p, q, out, &format!("{at}[{i}]"))?;
                            }
                            Ok(())
                        }
                        _ => Err(Cmp::Open(format!("{at}: elements"))),
                    };
                }
                match (&**x, &**y) {
                    (Seq::G(g), Seq::G(h)) if g.len() == h.len() => {
                        for (i, (p, q)) in g.iter().zip(h.iter()).enumerate() {
                            match (p, q) {
                                (Seg::E(u), Seg::E(v)) if u.len() == v.len() => {
                                    for (k, (p, q)) in u.iter().zip(v.iter()).enumerate() {
                                        self.cmp_v(st, p, q, out, &format!("{at}<{i}>[{k}]"))?;
                                    }
                                }
                                (Seg::In { seq, start, len }, Seg::In { seq: s2, start: t2, len: l2 }) if seq == s2 => {
                                    if start != t2 {
                                        out.push((*start, *t2));
                                    }
                                    if len != l2 {
                                        out.push((*len, *l2));
                                    }
                                }
                                (Seg::Loop { k, count, body }, Seg::Loop { k: k2, count: c2, body: b2 }) if count == c2 && body.len() == b2.len() => {
                                    let mut env: FxMap<T, T> = Default::default();
                                    env.insert(*k2, *k);
                                    let mut memo = Default::default();
                                    for (j, (p, q)) in body.iter().zip(b2.iter()).enumerate() {
                                        let q = self.subst_v(q, &env, &mut memo);
                                        self.cmp_v(st, p, &q, out, &format!("{at}<{i}>loop[{j}]"))?;
                                    }
                                }
                                _ => return Err(Cmp::Open(format!("{at}: segments differ"))),
                            }
                        }
                        Ok(())
                    }
                    _ => Err(Cmp::Open(format!("{at}: segment lists differ"))),
                }
            }
            (V::E(..) | V::SE(_), V::E(..) | V::SE(_)) => match self.eq_v(st, a, b) {
                Ok(e) => {
                    let t = self.cx.b(true);
                    if e != t {
                        out.push((e, t));
                    }
                    Ok(())
                }
                Err(_) => Err(Cmp::Open(format!("{at}: enum values"))),
            },
            (V::A(x), V::S(_)) if x.len() == 1 => {
                let x = x[0].clone();
                self.cmp_v(st, &x, b, out, at)
            }
            (V::S(_), V::A(y)) if y.len() == 1 => {
                let y = y[0].clone();
                self.cmp_v(st, a, &y, out, at)
            }
            (V::U, V::U) => Err(Cmp::Open(format!("{at}: unknown"))),
            (a, b) => Err(Cmp::Open(format!("{at}: {} vs {}", brief(a), brief(b)))),
        }
    }
    pub fn obligation(&mut self, st: &State, a: &V, b: &V, msg: &str) {
        let mut pairs = vec![];
        let r = self.cmp_v(st, a, b, &mut pairs, "");
        let mut o = Obl { what: msg.to_string(), site: String::new(), status: Status::Held, detail: String::new() };
        match r {
            Ok(()) => {
                let mut open = vec![];
                let mut memo = Default::default();
                for (x, y) in pairs {
                    let (p, q) = if st.env.is_empty() { (x, y) } else { (self.cx.subst(x, &st.env, &mut memo), self.cx.subst(y, &st.env, &mut memo)) };
                    if p != q {
                        if self.cx.w(p) == 1 {
                            let e = self.cx.eq(p, q);
                            if self.try_decide(st, e) == Some(true) {
                                continue;
                            }
                        }
                        if self.tab_equal(st, p, q) == Some(true) {
                            continue;
                        }
                        open.push((p, q));
                    }
                }
                if !open.is_empty() && !self.infeasible(st) {
                    match self.refute(st, &open) {
                        Fate::Held => {}
                        Fate::Refuted(w) => {
                            o.status = Status::Refuted;
                            let d = self.locate(&open);
                            o.detail = format!("{d}; valuation {w}");
                        }
                        Fate::Open => {
                            o.status = Status::Undecided;
                            let (x, y): (String, String) = (self.cx.show(open[0].0, 4).chars().take(300).collect(), self.cx.show(open[0].1, 4).chars().take(300).collect());
                            o.detail = format!("{} open pairs, e.g. {} =?= {}", open.len(), x, y);
                            if self.trace {
                                self.explain(open[0].0, open[0].1);
                            }
                        }
                    }
                }
            }
            Err(Cmp::Shape(s)) => match self.refute(st, &[]) {
                Fate::Held => {}
                Fate::Refuted(w) => {
                    o.status = Status::Refuted;
                    o.detail = format!("{s}; valuation {w}");
                }
                Fate::Open => {
                    o.status = Status::Undecided;
                    o.detail = s;
                }
            },
            Err(Cmp::Open(s)) => {
                o.status = Status::Undecided;
                o.detail = s;
            }
            Err(Cmp::Pairs(_)) => unreachable!(),
        }
        if self.trace && o.status != Status::Held {
            eprintln!("OBL {:?} {} {}", o.status, o.what, o.detail);
            for c in st.pcs.iter() {
                eprintln!("   pc {}", self.cx.show(*c, 6).chars().take(300).collect::<String>());
            }
            for (a, b) in st.env.iter() {
                eprintln!("   env {} = {}", self.cx.show(*a, 3).chars().take(200).collect::<String>(), self.cx.show(*b, 3).chars().take(100).collect::<String>());
            }
            for (a, s) in st.vals.iter() {
                eprintln!("   vals {} in {:?}", self.cx.show(*a, 3).chars().take(200).collect::<String>(), crate::vset::vs_vals(s).iter().take(12).collect::<Vec<_>>());
            }
            for (a, b) in st.bnd.iter() {
                eprintln!("   bnd {} in {:?}", self.cx.show(*a, 3).chars().take(200).collect::<String>(), b);
            }
        }
        self.obls.push(o);
    }
    pub fn panic_obligation(&mut self, st: &State, p: &PanicInfo) {
        if self.infeasible(st) {
            return;
        }
        let (s, d) = match self.refute(st, &[]) {
            Fate::Held => return,
            Fate::Refuted(w) => (Status::Refuted, format!("panic '{}' in {}; valuation {w}", p.msg, p.site)),
            Fate::Open => (Status::Undecided, format!("panic '{}' in {}", p.msg, p.site)),
        };
        if self.trace {
            for c in st.pcs.iter() {
                eprintln!("   pc {}", self.cx.show(*c, 6).chars().take(300).collect::<String>());
            }
            eprintln!("PANIC {:?} {}", s, d);
        }
        self.obls.push(Obl { what: "no panic".into(), site: p.func.clone(), status: s, detail: d });
    }
    /// developer aid: walk down to the smallest differing pair
    fn explain(&mut self, mut a: T, mut b: T) {
        for _ in 0..200 {
            let (x, y) = (self.cx.children(a), self.cx.children(b));
            let dx: Vec<T> = x.iter().copied().filter(|t| !y.contains(t)).collect();
            let dy: Vec<T> = y.iter().copied().filter(|t| !x.contains(t)).collect();
            if dx.len() == 1 && dy.len() == 1 {
                a = dx[0];
                b = dy[0];
            } else {
                break;
            }
        }
        let f = |s: String| s.chars().take(1500).collect::<String>();
        eprintln!("  LHS {a}: {}", f(self.cx.show(a, 2)));
        eprintln!("  RHS {b}: {}", f(self.cx.show(b, 2)));
    }
    /// first implementation term (by creation) that the reference side does not share
    fn locate(&mut self, open: &[(T, T)]) -> String {
        let mut r = HashSet::new();
        for (_, y) in open {
            self.cx.reach(*y, &mut r);
        }
        let mut l = HashSet::new();
        for (x, _) in open {
            self.cx.reach(*x, &mut l);
        }
        let mut v: Vec<T> = l.iter().copied().filter(|t| !r.contains(t) && self.in_repo(self.cx.span(*t))).collect();
        v.sort_unstable();
        for t in &v {
            if self.cx.children(*t).iter().all(|c| r.contains(c) || !l.contains(c)) {
                return format!("first deviating value computed at {}", self.where_span(self.cx.span(*t)));
            }
        }
        match v.first() {
            Some(t) => format!("deviating value computed at {}", self.where_span(self.cx.span(*t))),
            None => "values differ".into(),
        }
    }
    /// a valuation satisfying the path facts under which some pair differs
    /// Long loops are left uninterpreted by the evaluator. A difference seen that way counts only if both sides
    /// use the same loop results and the same uninterpreted reading shows no difference for short loops: then it
    /// comes from the magnitude of the trip count and not from forgetting what the loops compute.
    fn big_loop_ok(&self, e: &mut Eval, pcs: &[T], open: &[(T, T)], oleaves: &[T]) -> bool {
        let mut all: Vec<T> = vec![];
        for (a, b) in open {
            let l = self.loop_outs(*a);
            if l != self.loop_outs(*b) {
                return false;
            }
            all.extend(l);
        }
        if pcs.iter().any(|p| self.loop_outs(*p).iter().any(|t| !all.contains(t))) {
            return false;
        }
        let qs: Vec<T> = oleaves.iter().copied().filter(|t| matches!(self.cx.k(*t), K::Leaf(l) if self.cx.leaves[*l as usize].loop_var)).collect();
        let old: Vec<u128> = qs.iter().map(|t| get(e, *t)).collect();
        let mut ok = 0;
        let mut bad = false;
        e.arb_loops = true;
        for n in 1..=6 {
            for t in &qs {
                set(e, *t, n);
            }
            if pcs.iter().all(|p| e.n(*p) == 1) {
                if open.iter().any(|(a, b)| e.ev(*a) != e.ev(*b)) {
                    bad = true;
                } else {
                    ok += 1;
                }
            }
        }
        e.arb_loops = false;
        for (t, v) in qs.iter().zip(old) {
            set(e, *t, v);
        }
        !bad && ok > 0
    }
    fn loop_outs(&self, t: T) -> Vec<T> {
        let mut r = HashSet::new();
        self.cx.reach(t, &mut r);
        let mut v: Vec<T> = r.into_iter().filter(|t| matches!(self.cx.k(*t), K::App(Op::LoopOut(..), _))).collect();
        v.sort_unstable();
        v
    }
    pub fn witness(&mut self, st: &State, open: &[(T, T)]) -> Option<String> {
        // a job that already refuted obligations need not pay for further searches
        let budget = if self.obls.iter().filter(|o| o.status == Status::Refuted).count() >= 3 { self.witness_budget.min(4) } else { self.witness_budget };
        let pcs: Vec<T> = st.pcs.to_vec();
        // support of the path facts
        let mut sup = HashSet::new();
        for p in &pcs {
            self.cx.reach(*p, &mut sup);
        }
        let mut leaves: Vec<T> = sup.iter().copied().filter(|t| matches!(self.cx.k(*t), K::Leaf(_))).collect();
        leaves.sort_unstable();
        let mut elems: Vec<T> = sup.iter().copied().filter(|t| matches!(self.cx.k(*t), K::App(Op::Elem(_), _))).collect();
        elems.sort_unstable();
        let mut all = HashSet::new();
        for (a, b) in open {
            self.cx.reach(*a, &mut all);
            self.cx.reach(*b, &mut all);
        }
        let mut oleaves: Vec<T> = all.iter().copied().filter(|t| matches!(self.cx.k(*t), K::Leaf(_))).collect();
        oleaves.sort_unstable();
        let mut consts: Vec<u128> = sup.iter().chain(all.iter()).filter_map(|t| self.cx.cv(*t)).collect();
        consts.sort_unstable();
        consts.dedup();
        consts.truncate(64);
        let fixed: Vec<(T, u128)> = st.env.iter().filter_map(|(k, v)| self.cx.cv(*v).map(|c| (*k, c))).collect();
        let bnds: Vec<(T, (u128, u128))> = st.bnd.iter().map(|(k, v)| (*k, *v)).collect();
        let sets: Vec<(T, Vec<u128>)> = {
            let mut v: Vec<_> = st.vals.iter().map(|(k, s)| (*k, crate::vset::vs_vals(s))).collect();
            v.sort_unstable();
            v
        };
        let mut best_total = 0u32;
        for seed in 0..budget as u64 {
            let mut e = Eval::new(&self.cx, seed.wrapping_mul(0x9e37) + 1);
            let seed_set = |e: &mut Eval| {
                for (t, (lo, hi)) in &bnds {
                    let r = match seed % 3 {
                        0 => *lo,
                        1 => *hi,
                        _ => lo + h128(seed, &[*t as u128, 9]) % (hi - lo).saturating_add(1).max(1),
                    };
                    set(e, *t, r);
                }
                for (t, v) in &sets {
                    if !v.is_empty() {
                        set(e, *t, v[(h128(seed, &[*t as u128, 13]) % v.len() as u128) as usize]);
                    }
                }
                for (t, c) in &fixed {
                    set(e, *t, *c);
                }
            };
            // half of the trials use small/structured leaf values
            if seed % 4 == 3 {
                for t in &oleaves {
                    if let K::Leaf(_) = self.cx.k(*t) {
                        let w = self.cx.w(*t);
                        let h = h128(seed, &[*t as u128, 11]);
                        let v = match h % 4 {
                            0 => 0,
                            1 => mask(w),
                            2 => 1 << (h >> 8) as u32 % w as u32,
                            _ => consts.get((h >> 16) as usize % consts.len().max(1)).copied().unwrap_or(1) & mask(w),
                        };
                        let K::Leaf(l) = self.cx.k(*t) else { continue };
                        let li = &self.cx.leaves[*l as usize];
                        if !self.cx.arr_len.contains_key(t) && v >= li.lo && v <= li.hi {
                            set(&mut e, *t, v);
                        }
                    }
                }
            }
            seed_set(&mut e);
            let score = |e: &mut Eval| pcs.iter().filter(|p| e.n(**p) == 1).count();
            let mut sc = score(&mut e);
            if sc < pcs.len() {
                // local search over the support
                let mut rng = seed.wrapping_mul(77) + 5;
                let tries = 400;
                let cand: Vec<T> = leaves.iter().chain(elems.iter()).copied().collect();
                if cand.is_empty() {
                    return None;
                }
                for _ in 0..tries {
                    rng = mix(rng, 1);
                    let t = cand[(rng % cand.len() as u64) as usize];
                    let w = match self.cx.w(t) {
                        0 => continue,
                        w => w,
                    };
                    if self.cx.arr_len.contains_key(&t) {
                        continue;
                    }
                    let old = get(&mut e, t);
                    rng = mix(rng, 2);
                    let v = match rng % 6 {
                        0 => (mix(rng, 3) as u128) << 64 | mix(rng, 4) as u128,
                        1 => consts.get((mix(rng, 5) % consts.len().max(1) as u64) as usize).copied().unwrap_or(0),
                        2 => old.wrapping_add(1),
                        3 => old.wrapping_sub(1),
                        4 => old ^ 1 << (mix(rng, 6) % w as u64),
                        _ => (mix(rng, 7) % 4) as u128,
                    } & mask(w);
                    if v == old {
                        continue;
                    }
                    if let K::Leaf(l) = self.cx.k(t) {
                        let li = &self.cx.leaves[*l as usize];
                        if v < li.lo || v > li.hi {
                            continue;
                        }
                    }
                    set(&mut e, t, v);
                    let s2 = score(&mut e);
                    if s2 >= sc {
                        sc = s2;
                        if sc == pcs.len() {
                            break;
                        }
                    } else {
                        set(&mut e, t, old);
                    }
                }
            }
            best_total = best_total.max(sc as u32);
            if sc < pcs.len() {
                continue;
            }
            if e.fuel == 0 {
                return None;
            }
            let diff = if open.is_empty() { true } else { open.iter().any(|(a, b)| e.ev(*a) != e.ev(*b)) };
            if diff && e.fuel > 0 && e.big_loop && !self.big_loop_ok(&mut e, &pcs, open, &oleaves) {
                continue;
            }
            if diff && e.fuel > 0 {
                let mut s = String::new();
                for t in leaves.iter().chain(oleaves.iter()).take(6) {
                    if let K::Leaf(l) = self.cx.k(*t) {
                        s += &format!("{}={:#x} ", self.cx.leaves[*l as usize].name, get(&mut e, *t));
                    }
                }
                return Some(format!("#{seed} {}", s.trim_end()));
            }
        }
        None
    }
}
fn get(e: &mut Eval, t: T) -> u128 {
    e.n(t)
}
fn set(e: &mut Eval, t: T, v: u128) {
    match e.cx.k(t) {
        K::Leaf(_) => {
            e.env.insert(t, EV::N(v));
        }
        K::App(Op::Elem(s), a) => {
            let i = e.n(a[0]);
            e.elems.insert((*s, i), v);
        }
        _ => return,
    }
    e.reset();
}

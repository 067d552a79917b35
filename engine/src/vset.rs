//! Value-set domain: exact sets of values for byte-sized inputs, and tabulation of graph nodes that
//! depend on one such input.
use crate::eval::*;
use crate::interp::*;
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Supp {
    None,
    One(T),
    Many,
}
pub type VSet = [u64; 4];
pub type VSets = FxMap<T, VSet>;

pub fn vs_has(s: &VSet, v: u128) -> bool {
    v < 256 && s[(v / 64) as usize] >> (v % 64) & 1 == 1
}
pub fn vs_vals(s: &VSet) -> Vec<u128> {
    (0..256u128).filter(|v| vs_has(s, *v)).collect()
}

#[derive(Default)]
pub struct VCache {
    supp: FxMap<T, Supp>,
    tab: FxMap<T, Option<Rc<Vec<u128>>>>,
}

impl<'p> Interp<'p> {
    pub fn supp(&mut self, t: T) -> Supp {
        if let Some(s) = self.vc.supp.get(&t) {
            return *s;
        }
        // iterative post-order to keep the stack flat
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.vc.supp.contains_key(&x) {
                st.pop();
                continue;
            }
            let s = match self.cx.k(x) {
                K::Const(_) => Some(Supp::None),
                K::Leaf(l) => {
                    let li = &self.cx.leaves[*l as usize];
                    Some(if li.w <= 8 && !li.loop_var && !self.cx.arr_len.contains_key(&x) { Supp::One(x) } else { Supp::Many })
                }
                K::App(Op::Elem(_) | Op::Uf(_) | Op::LoopOut(..), _) => Some(if self.cx.w(x) <= 8 { Supp::One(x) } else { Supp::Many }),
                K::App(Op::UfArr(_) | Op::SeqVal, _) => Some(Supp::Many),
                _ => None,
            };
            if let Some(s) = s {
                self.vc.supp.insert(x, s);
                st.pop();
                continue;
            }
            let ch = self.cx.children(x);
            let mut r = Supp::None;
            let mut wait = false;
            for c in &ch {
                match self.vc.supp.get(c) {
                    Some(Supp::None) => {}
                    Some(Supp::Many) => r = Supp::Many,
                    Some(Supp::One(a)) => {
                        r = match r {
                            Supp::None => Supp::One(*a),
                            Supp::One(b) if b == *a => r,
                            _ => Supp::Many,
                        }
                    }
                    None => {
                        st.push(*c);
                        wait = true;
                    }
                }
                if r == Supp::Many {
                    wait = false;
                    break;
                }
            }
            if !wait {
                // an opaque byte is an atom of its own
                if r == Supp::Many && matches!(self.cx.k(x), K::App(..)) && (2..=8).contains(&self.cx.w(x)) {
                    r = Supp::One(x);
                }
                self.vc.supp.insert(x, r);
                while st.last().is_some_and(|y| *y != x) {
                    st.pop();
                }
                st.pop();
            }
        }
        self.vc.supp[&t]
    }
    /// values of t for every value of its single byte-sized input
    pub fn tabulate(&mut self, t: T, base: T) -> Option<Rc<Vec<u128>>> {
        if let Some(v) = self.vc.tab.get(&t) {
            return v.clone();
        }
        let n = 1u32 << self.cx.w(base);
        let mut v = Vec::with_capacity(n as usize);
        let mut e = Eval::new(&self.cx, 1);
        e.fuel = 3_000_000;
        for x in 0..n {
            e.reset();
            e.env.insert(base, EV::N(x as u128));
            v.push(e.n(t));
            if e.fuel == 0 {
                break;
            }
        }
        let r = if e.fuel == 0 { None } else { Some(Rc::new(v)) };
        self.vc.tab.insert(t, r.clone());
        r
    }
    /// values the input may still take
    pub fn vset(&self, st: &State, base: T) -> VSet {
        let (lo, hi) = self.cx.range_b(base, Some(&st.bnd));
        let mut s = match (st.vals.get(&base), self.cx.k(base)) {
            (Some(s), _) => *s,
            // only values in the table
            (None, K::App(Op::Table(t), _)) => {
                let mut s = [0; 4];
                for v in self.cx.tables[*t as usize].v.iter().filter(|v| **v < 256) {
                    s[(v / 64) as usize] |= 1 << (v % 64);
                }
                s
            }
            _ => [!0; 4],
        };
        for v in 0..256u128 {
            if v < lo || v > hi {
                s[(v / 64) as usize] &= !(1 << (v % 64));
            }
        }
        s
    }
    pub fn vset_decide(&mut self, st: &State, c: T) -> Option<bool> {
        let Supp::One(x) = self.supp(c) else { return None };
        let tab = self.tabulate(c, x)?;
        let s = self.vset(st, x);
        let (mut any0, mut any1) = (false, false);
        for (v, r) in tab.iter().enumerate() {
            if vs_has(&s, v as u128) {
                if *r == 1 {
                    any1 = true;
                } else {
                    any0 = true;
                }
            }
        }
        match (any0, any1) {
            (true, false) => Some(false),
            (false, true) => Some(true),
            _ => None,
        }
    }
    pub fn vset_learn(&mut self, st: &mut State, c: T) {
        let Supp::One(x) = self.supp(c) else { return };
        let Some(tab) = self.tabulate(c, x) else { return };
        let mut s = self.vset(st, x);
        for (v, r) in tab.iter().enumerate() {
            if *r != 1 {
                s[v / 64] &= !(1 << (v % 64));
            }
        }
        let vals = vs_vals(&s);
        Rc::make_mut(&mut st.vals).insert(x, s);
        if let (Some(lo), Some(hi)) = (vals.first(), vals.last()) {
            self.tighten(st, x, *lo, *hi);
        }
    }
    /// exhaustive comparison of two nodes with at most 16 bits of joint input
    pub fn tab_equal(&mut self, st: &State, a: T, b: T) -> Option<bool> {
        let mut bases: Vec<T> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut stack = vec![a, b];
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            let atom = self.supp(x) == Supp::One(x);
            match self.cx.k(x) {
                K::Const(_) => {}
                K::App(..) if atom => bases.push(x),
                K::Leaf(_) | K::App(Op::Elem(_), _) => match self.supp(x) {
                    Supp::One(_) => bases.push(x),
                    _ => return None,
                },
                K::App(Op::LoopOut(..) | Op::Uf(_) | Op::UfArr(_) | Op::SeqVal, _) => return None,
                _ => stack.extend(self.cx.children(x)),
            }
            if bases.len() > 2 || seen.len() > 4000 {
                return None;
            }
        }
        let doms: Vec<Vec<u128>> = bases.iter().map(|x| vs_vals(&self.vset(st, *x)).into_iter().filter(|v| *v < 1 << self.cx.w(*x)).collect()).collect();
        let mut e = Eval::new(&self.cx, 1);
        let n: usize = doms.iter().map(|d: &Vec<u128>| d.len()).product();
        if n * seen.len() > 60_000_000 {
            return None;
        }
        for i in 0..n {
            let mut k = i;
            e.reset();
            for (x, d) in bases.iter().zip(&doms) {
                e.env.insert(*x, EV::N(d[k % d.len()]));
                k /= d.len();
            }
            if e.ev(a) != e.ev(b) {
                return Some(false);
            }
        }
        if e.fuel == 0 {
            return None;
        }
        Some(true)
    }
}

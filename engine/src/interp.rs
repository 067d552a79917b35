//! Abstract interpreter over the lowered MIR: propagates value-graph terms through the control-flow
//! graph, joins at immediate post-dominators, summarises loops (loops.rs).
use crate::ir::{self, Ty};
use crate::term::*;
use crate::value::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Bail {
    Unsup(String),
    Cut(T),
    Need(T), // the operation has a transfer function only for a known value of this node
    Fuel,
}
pub type Res<X> = Result<X, Bail>;
pub fn unsup<X>(s: impl Into<String>) -> Res<X> {
    Err(Bail::Unsup(s.into()))
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub locals: Rc<Vec<V>>,
    pub resume: u32, // block to resume at while suspended in a call
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Rc<Vec<V>>,
    pub env: Rc<FxMap<T, T>>,
    pub bnd: Rc<Bounds>,
    pub vals: Rc<crate::vset::VSets>,
    pub pcs: Rc<Vec<T>>,
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub site: String, // function and location inside the repository
    pub func: String, // the function alone
}
pub enum Exit {
    Stop(u32),
    Ret,
    Panic(PanicInfo),
}
pub enum Out {
    Val(V),
    Panic(PanicInfo),
}
pub type Outs = Vec<(State, Out)>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Held,
    Refuted,
    Undecided,
}
#[derive(Clone, Debug)]
pub struct Obl {
    pub what: String,
    pub site: String, // repository function the obligation is about
    pub status: Status,
    pub detail: String,
}

pub struct Snap {
    pub header: u32,
    pub st: State,
    pub outs: usize,
    pub obls: usize,
    pub visits: u32,
}

/// set by the runner while the process holds more memory than it should: running jobs give up (undecided)
pub static MEM_HIGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub struct Interp<'p> {
    pub p: &'p ir::Program,
    pub cx: Ctx,
    infos: Vec<Option<Rc<BodyInfo>>>,
    consts: FxMap<usize, V>,
    pub fuel: u64,
    pub steps: u64,
    pub sites: Vec<u32>,
    pub obls: Vec<Obl>,
    pub params: HashMap<String, u128>,
    pub sym_mode: bool,
    pub seen: HashSet<u32>,
    pub builtins_used: HashSet<String>,
    pub leaf_names: HashMap<String, T>,
    pub seqs: Vec<String>,
    pub witness_budget: u32,
    pub diagrams: u32,
    pub loops_done: u32,
    pub sum_depth: u32,
    pub last_cap: Option<T>,
    /// trace partitioning: paths are kept apart instead of being joined
    pub no_join: bool,
    pub prune: bool,
    pub qinfo: FxMap<T, u128>, // length variables and their block sizes
    pub depth: u32,
    pub trace: bool,
    pub forced: bool,
    pub cut_log: Vec<String>,
    pub norm_cache: HashMap<u32, String>,
    pub watch_arith: bool,
    pub deadline: Option<std::time::Instant>,
    pub max_terms: usize,
    tick: u64,
    pub vc: crate::vset::VCache,
}

impl State {
    pub fn new() -> Self {
        State { frames: vec![], heap: Default::default(), env: Default::default(), bnd: Default::default(), vals: Default::default(), pcs: Default::default() }
    }
    pub fn top(&self) -> &Frame {
        self.frames.last().unwrap()
    }
    pub fn root<'a>(&'a self, r: &'a Root) -> &'a V {
        match r {
            Root::Loc(d, l) => &self.frames[*d as usize].locals[*l as usize],
            Root::Heap(i) => &self.heap[*i as usize],
            Root::Const(v) => &v.0,
        }
    }
    pub fn root_mut(&mut self, r: &Root) -> Res<&mut V> {
        match r {
            Root::Loc(d, l) => Ok(&mut Rc::make_mut(&mut self.frames[*d as usize].locals)[*l as usize]),
            Root::Heap(i) => Ok(&mut Rc::make_mut(&mut self.heap)[*i as usize]),
            Root::Const(_) => unsup("write to constant memory"),
        }
    }
}

impl<'p> Interp<'p> {
    pub fn new(p: &'p ir::Program) -> Self {
        Interp {
            p,
            cx: Ctx::new(),
            infos: (0..p.funcs.len()).map(|_| None).collect(),
            consts: Default::default(),
            fuel: 400_000_000,
            steps: 0,
            sites: vec![],
            obls: vec![],
            params: Default::default(),
            sym_mode: false,
            seen: Default::default(),
            builtins_used: Default::default(),
            leaf_names: Default::default(),
            seqs: vec![],
            witness_budget: 40,
            diagrams: 0,
            loops_done: 0,
            sum_depth: 0,
            last_cap: None,
            no_join: false,
            prune: false,
            qinfo: Default::default(),
            depth: 0,
            trace: std::env::var("VTRACE").is_ok(),
            forced: false,
            cut_log: vec![],
            norm_cache: Default::default(),
            watch_arith: false,
            deadline: None,
            max_terms: 40_000_000,
            tick: 0,
            vc: Default::default(),
        }
    }
    pub fn ty(&self, t: u32) -> &'p Ty {
        &self.p.types[t as usize]
    }
    pub fn func(&self, f: u32) -> &'p ir::Func {
        &self.p.funcs[f as usize]
    }
    pub fn info(&mut self, f: u32) -> Rc<BodyInfo> {
        if let Some(i) = &self.infos[f as usize] {
            return i.clone();
        }
        let i = Rc::new(BodyInfo::new(self.p.funcs[f as usize].body.as_ref().unwrap()));
        self.infos[f as usize] = Some(i.clone());
        i
    }
    /// width and signedness of a scalar type
    pub fn scal(&self, t: u32) -> Option<(u16, bool)> {
        match self.ty(t) {
            Ty::Int(s, b) => Some((*b as u16, *s)),
            Ty::Bool() => Some((1, false)),
            Ty::Char() => Some((32, false)),
            Ty::RawPtr(..) | Ty::FnPtr() => Some((64, false)),
            _ => None,
        }
    }
    pub fn where_span(&self, sp: u32) -> String {
        match self.p.spans.get(sp as usize) {
            Some((f, (l, _))) => format!("{}:{}", self.p.files[*f as usize], l),
            None => "?".into(),
        }
    }
    pub fn in_repo(&self, sp: u32) -> bool {
        match self.p.spans.get(sp as usize) {
            Some((f, _)) => {
                let s = &self.p.files[*f as usize];
                s.contains("/repo/src/") || s.starts_with("src/") && !s.contains("harness")
            }
            None => false,
        }
    }
    /// innermost repository function on the stack
    pub fn site(&self, st: &State) -> String {
        for (i, fr) in st.frames.iter().enumerate().rev() {
            let f = self.func(fr.f);
            if f.krate == "cryptography" {
                let loc = self.sites.get(i).map(|s| self.where_span(*s)).unwrap_or_default();
                return format!("{} ({})", f.name, loc);
            }
        }
        match st.frames.last() {
            Some(fr) => self.func(fr.f).name.clone(),
            None => String::new(),
        }
    }

    // ---------- constants ----------
    pub fn cval(&mut self, c: &'p ir::CVal, t: u32) -> Res<V> {
        let key = c as *const _ as usize ^ (t as usize) << 48;
        if let Some(v) = self.consts.get(&key) {
            return Ok(v.clone());
        }
        let v = self.cval_raw(c, t)?;
        self.consts.insert(key, v.clone());
        Ok(v)
    }
    pub fn is_vec_ty(&self, t: u32) -> bool {
        match self.ty(t) {
            Ty::Adt(n, ..) => matches!(n.as_str(), "std::vec::Vec" | "alloc::vec::Vec" | "std::string::String" | "alloc::string::String"),
            _ => false,
        }
    }
    fn cval_raw(&mut self, c: &'p ir::CVal, t: u32) -> Res<V> {
        use ir::CVal as C;
        if self.is_vec_ty(t) {
            return Ok(V::seq(vec![]));
        }
        Ok(match (c, self.ty(t)) {
            (C::Int(v), _) => {
                let (w, _) = self.scal(t).unwrap_or((64, false));
                V::S(self.cx.c(w, *v))
            }
            (C::Bytes(b), _) => V::seq(b.iter().map(|x| V::S(self.cx.c(8, *x as u128))).collect()),
            (C::Agg(v), Ty::Array(e, _)) | (C::Agg(v), Ty::Slice(e)) => {
                let mut r = vec![];
                for x in v {
                    r.push(self.cval_raw(x, *e)?);
                }
                V::seq(r)
            }
            (C::Agg(v), Ty::Tuple(ts)) => {
                let mut r = vec![];
                for (x, t) in v.iter().zip(ts) {
                    r.push(self.cval_raw(x, *t)?);
                }
                V::tup(r)
            }
            (C::Agg(v), Ty::Adt(_, _, _, vs)) => {
                let mut r = vec![];
                for (x, t) in v.iter().zip(vs[0].fields.iter()) {
                    r.push(self.cval_raw(x, *t)?);
                }
                V::tup(r)
            }
            (C::Agg(v), Ty::Closure(_, ts)) => {
                let mut r = vec![];
                for (x, t) in v.iter().zip(ts) {
                    r.push(self.cval_raw(x, *t)?);
                }
                V::tup(r)
            }
            (C::Enum(i, v), Ty::Adt(_, _, _, vs)) => {
                let mut r = vec![];
                for (x, t) in v.iter().zip(vs[*i as usize].fields.iter()) {
                    r.push(self.cval_raw(x, *t)?);
                }
                V::E(*i, Rc::new(r))
            }
            (C::Ref(b), Ty::Ref(pt, _)) | (C::Ref(b), Ty::RawPtr(pt, _)) => {
                let v = self.cval_raw(b, *pt)?;
                let mut p = Ptr::konst(v.clone());
                if matches!(self.ty(*pt), Ty::Slice(_) | Ty::Str()) {
                    let n = match &v {
                        V::Q(q) => self.seq_len(q),
                        _ => return unsup("const slice"),
                    };
                    p.slice = Some((self.cx.us(0), n));
                }
                V::ptr(p)
            }
            (C::Static(i), _) => {
                let s = &self.p.statics[*i as usize];
                if s.mutable {
                    return unsup(format!("mutable static {}", s.name));
                }
                let v = self.cval_raw(&s.val, s.ty)?;
                V::ptr(Ptr::konst(v))
            }
            (C::Fn(f), _) => V::F(*f),
            (C::Zst(), _) => V::unit(),
            (C::Uninit(), _) => V::U,
            (C::Opaque(_), Ty::FnDef(..)) => V::unit(),
            (_, Ty::FnDef(..)) => V::unit(),
            (C::Opaque(s), _) => {
                if self.trace {
                    eprintln!("opaque const {s}");
                }
                V::U
            }
            (c, t) => return unsup(format!("const {:?} of {:?}", c, t)),
        })
    }

    // ---------- sequences ----------
    pub fn seq_len(&mut self, q: &Seq) -> T {
        match q {
            Seq::E(v) => self.cx.us(v.len() as u128),
            Seq::T(_, n) => self.cx.us(*n as u128),
            Seq::G(gs) => {
                let mut t = self.cx.us(0);
                for g in gs {
                    let l = self.seg_len(g);
                    t = self.cx.add(t, l);
                }
                t
            }
        }
    }
    pub fn seg_len(&mut self, g: &Seg) -> T {
        match g {
            Seg::E(v) => self.cx.us(v.len() as u128),
            Seg::In { len, .. } => *len,
            Seg::Loop { count, body, .. } => {
                let n = self.cx.us(body.len() as u128);
                self.cx.mul(*count, n)
            }
        }
    }
    pub fn elem(&mut self, seq: u32, i: T) -> T {
        self.cx.app(8, Op::Elem(seq), vec![i])
    }
    pub fn seq_get(&mut self, st: &State, q: &Seq, i: T) -> Res<V> {
        match q {
            Seq::E(v) => {
                if let Some(c) = self.cx.cv(i) {
                    return match v.get(c as usize) {
                        Some(x) => Ok(x.clone()),
                        None => unsup("out of bounds read"),
                    };
                }
                self.sel(v, i)
            }
            Seq::T(t, _) => Ok(V::S(self.cx.select(*t, i))),
            Seq::G(gs) => {
                let mut start = self.cx.us(0);
                for g in gs {
                    let l = self.seg_len(g);
                    let end = self.cx.add(start, l);
                    let c = self.cx.lt(i, end);
                    if self.decide_cut(st, c)? {
                        let r = self.cx.sub(i, start);
                        return match g {
                            Seg::E(v) => match self.cx.cv(r) {
                                Some(c) => Ok(v[c as usize].clone()),
                                None => self.sel(v, r),
                            },
                            Seg::In { seq, start, .. } => {
                                let ix = self.cx.add(*start, r);
                                Ok(V::S(self.elem(*seq, ix)))
                            }
                            Seg::Loop { k, body, .. } => {
                                let n = self.cx.us(body.len() as u128);
                                let (d, m) = (self.cx.udiv(r, n), self.cx.urem(r, n));
                                match self.cx.cv(m) {
                                    Some(c) => {
                                        let mut env: FxMap<T, T> = Default::default();
                                        env.insert(*k, d);
                                        let b = body[c as usize].clone();
                                        Ok(self.subst_v(&b, &env, &mut Default::default()))
                                    }
                                    None => unsup("loop segment index"),
                                }
                            }
                        };
                    }
                    start = end;
                }
                unsup("symbolic out of bounds read")
            }
        }
    }
    /// element of a literal sequence at a symbolic index
    fn sel(&mut self, v: &[V], i: T) -> Res<V> {
        if v.is_empty() {
            return unsup("index into empty sequence");
        }
        if v.iter().all(|x| matches!(x, V::S(_))) {
            let ts: Vec<T> = v.iter().map(|x| if let V::S(t) = x { *t } else { 0 }).collect();
            let w = self.cx.w(ts[0]);
            let a = self.cx.arr_lit(w, ts);
            return Ok(V::S(self.cx.select(a, i)));
        }
        if let V::Q(q0) = &v[0] {
            if let Seq::E(e0) = &**q0 {
                let n = e0.len();
                let mut cols = vec![];
                for j in 0..n {
                    let mut col = vec![];
                    for x in v {
                        match x {
                            V::Q(q) => match &**q {
                                Seq::E(e) if e.len() == n => col.push(e[j].clone()),
                                _ => return unsup("ragged select"),
                            },
                            _ => return unsup("mixed select"),
                        }
                    }
                    cols.push(self.sel(&col, i)?);
                }
                return Ok(V::seq(cols));
            }
        }
        let mut acc = v[v.len() - 1].clone();
        for j in (0..v.len() - 1).rev() {
            let w = self.cx.w(i);
            let c = self.cx.c(w, j as u128);
            let e = self.cx.eq(i, c);
            acc = match self.merge_v(e, &v[j], &acc, true) {
                Some(x) => x,
                None => return unsup("select of unmergeable elements"),
            };
        }
        Ok(acc)
    }
    /// literal view of a sequence slice with concrete bounds
    pub fn elems(&mut self, st: &State, q: &Seq, off: T, len: T) -> Res<Vec<V>> {
        match (self.cx.cv(off), self.cx.cv(len)) {
            (Some(o), Some(n)) => {
                if let Seq::E(v) = q {
                    return match v.get(o as usize..(o + n) as usize) {
                        Some(s) => Ok(s.to_vec()),
                        None => unsup("slice out of range"),
                    };
                }
                let mut r = vec![];
                for i in 0..n {
                    let ix = self.cx.us(o + i);
                    r.push(self.seq_get(st, q, ix)?);
                }
                Ok(r)
            }
            (None, Some(n)) => {
                let mut r = vec![];
                for i in 0..n {
                    let ix = self.cx.addc(off, i);
                    r.push(self.seq_get(st, q, ix)?);
                }
                Ok(r)
            }
            _ => Err(Bail::Need(len)),
        }
    }
    /// [off, off+len) as segments
    pub fn sub_segs(&mut self, st: &State, q: &Seq, off: T, len: T) -> Res<Vec<Seg>> {
        if let (Some(_), true) = (self.cx.cv(len), true) {
            if self.cx.cv(len) == Some(0) {
                return Ok(vec![]);
            }
            if self.cx.cv(len).unwrap() <= 65536 {
                return Ok(vec![Seg::E(self.elems(st, q, off, len)?)]);
            }
        }
        match q {
            Seq::G(gs) => {
                // walk the segments; boundaries must be decidable
                let mut out = vec![];
                let end = self.cx.add(off, len);
                let mut start = self.cx.us(0);
                for g in gs {
                    let l = self.seg_len(g);
                    let gend = self.cx.add(start, l);
                    // overlap [max(start,off), min(gend,end))
                    let c1 = self.cx.lt(start, off);
                    let lo = if self.decide_cut(st, c1)? { off } else { start };
                    let c2 = self.cx.lt(end, gend);
                    let hi = if self.decide_cut(st, c2)? { end } else { gend };
                    let c3 = self.cx.lt(lo, hi);
                    let nonempty = match self.decide(st, c3)? {
                        Some(b) => b,
                        None => true,
                    };
                    if nonempty {
                        let rlo = self.cx.sub(lo, start);
                        let n = self.cx.sub(hi, lo);
                        match g {
                            Seg::In { seq, start: s0, .. } => {
                                let s = self.cx.add(*s0, rlo);
                                out.push(Seg::In { seq: *seq, start: s, len: n });
                            }
                            Seg::E(v) => match (self.cx.cv(rlo), self.cx.cv(n)) {
                                (Some(a), Some(n)) => out.push(Seg::E(v[a as usize..(a + n) as usize].to_vec())),
                                (None, _) => return Err(Bail::Need(rlo)),
                                _ => return Err(Bail::Need(n)),
                            },
                            Seg::Loop { k, count, body } => {
                                let full = self.seg_len(g);
                                if self.cx.cv(rlo) == Some(0) && n == full {
                                    out.push(Seg::Loop { k: *k, count: *count, body: body.clone() });
                                } else {
                                    let bl = self.cx.us(body.len() as u128);
                                    let (d, m) = (self.cx.udiv(rlo, bl), self.cx.urem(rlo, bl));
                                    let (d2, m2) = (self.cx.udiv(n, bl), self.cx.urem(n, bl));
                                    if self.cx.cv(m) == Some(0) && self.cx.cv(m2) == Some(0) {
                                        let mut env: FxMap<T, T> = Default::default();
                                        let kk = self.cx.add(*k, d);
                                        env.insert(*k, kk);
                                        let mut memo = Default::default();
                                        let b: Vec<V> = body.iter().map(|v| self.subst_v(v, &env, &mut memo)).collect();
                                        out.push(Seg::Loop { k: *k, count: d2, body: b });
                                    } else {
                                        return unsup("partial loop segment");
                                    }
                                }
                            }
                        }
                    }
                    start = gend;
                }
                Ok(out)
            }
            _ => Err(Bail::Need(len)),
        }
    }
    pub fn segs_of(q: &Seq) -> Option<Vec<Seg>> {
        match q {
            Seq::E(v) => Some(vec![Seg::E(v.clone())]),
            Seq::G(g) => Some(g.clone()),
            Seq::T(..) => None,
        }
    }
    pub fn mk_seq(&mut self, segs: Vec<Seg>) -> Seq {
        let mut out: Vec<Seg> = vec![];
        for g in segs {
            let l = self.seg_len(&g);
            if self.cx.cv(l) == Some(0) {
                continue;
            }
            // short pieces of an input become explicit elements
            let g = match g {
                Seg::In { seq, start, len } if self.cx.cv(len).map(|n| n <= 65536).unwrap_or(false) => {
                    let n = self.cx.cv(len).unwrap();
                    Seg::E((0..n).map(|i| {
                        let ix = self.cx.addc(start, i);
                        V::S(self.elem(seq, ix))
                    }).collect())
                }
                Seg::Loop { k, count, body } if self.cx.cv(count).map(|n| n <= 256).unwrap_or(false) => {
                    let n = self.cx.cv(count).unwrap();
                    let mut v = vec![];
                    for i in 0..n {
                        let mut env: FxMap<T, T> = Default::default();
                        env.insert(k, self.cx.us(i));
                        let mut memo = Default::default();
                        for b in &body {
                            v.push(self.subst_v(b, &env, &mut memo));
                        }
                    }
                    Seg::E(v)
                }
                Seg::Loop { k, count, body } => {
                    // body[c] = Elem(seq, |body|*k + c + s) for all c is a stretch of the input
                    match self.as_input(k, &body) {
                        Some((seq, s)) => {
                            let n = self.cx.us(body.len() as u128);
                            let len = self.cx.mul(count, n);
                            Seg::In { seq, start: s, len }
                        }
                        None => Seg::Loop { k, count, body },
                    }
                }
                g => g,
            };
            let mut merged = false;
            if let Some(last) = out.last_mut() {
                match (last, &g) {
                    (Seg::E(a), Seg::E(b)) => {
                        a.extend(b.iter().cloned());
                        merged = true;
                    }
                    (Seg::In { seq: s1, start, len }, Seg::In { seq: s2, start: st2, len: l2 }) if s1 == s2 => {
                        let e = self.cx.add(*start, *len);
                        if e == *st2 {
                            *len = self.cx.add(*len, *l2);
                            merged = true;
                        }
                    }
                    _ => {}
                }
            }
            if !merged {
                out.push(g);
            }
        }
        // E next to In of the same input: absorb elements (canonical form: maximal In segments)
        let mut i = 0;
        while i < out.len() {
            if let Seg::In { seq, start, len } = out[i].clone() {
                let (mut start, mut len) = (start, len);
                if i > 0 {
                    if let Seg::E(v) = &mut out[i - 1] {
                        while let Some(V::S(t)) = v.last() {
                            let prev = self.cx.addc(start, u64::MAX as u128);
                            let e = self.cx.app(8, Op::Elem(seq), vec![prev]);
                            if *t == e && self.cx.cv(start) != Some(0) {
                                v.pop();
                                start = prev;
                                len = self.cx.addc(len, 1);
                            } else {
                                break;
                            }
                        }
                    }
                }
                if i + 1 < out.len() {
                    if let Seg::E(v) = &mut out[i + 1] {
                        let mut n = 0;
                        while n < v.len() {
                            let nx = self.cx.add(start, len);
                            let e = self.cx.app(8, Op::Elem(seq), vec![nx]);
                            if matches!(&v[n], V::S(t) if *t == e) {
                                n += 1;
                                len = self.cx.addc(len, 1);
                            } else {
                                break;
                            }
                        }
                        v.drain(..n);
                    }
                }
                out[i] = Seg::In { seq, start, len };
            }
            i += 1;
        }
        out.retain(|g| !matches!(g, Seg::E(v) if v.is_empty()));
        // merge neighbouring In segments once more
        let mut j = 0;
        while j + 1 < out.len() {
            let m = match (&out[j], &out[j + 1]) {
                (Seg::In { seq, start, len }, Seg::In { seq: s2, start: b, len: l2 }) if seq == s2 => {
                    let (seq, start, len, b, l2) = (*seq, *start, *len, *b, *l2);
                    let e = self.cx.add(start, len);
                    if e == b {
                        let l = self.cx.add(len, l2);
                        Some(Seg::In { seq, start, len: l })
                    } else {
                        None
                    }
                }
                _ => None,
            };
            if let Some(m) = m {
                out[j] = m;
                out.remove(j + 1);
            } else {
                j += 1;
            }
        }
        if out.is_empty() {
            return Seq::E(vec![]);
        }
        if out.len() == 1 {
            if let Seg::E(v) = &mut out[0] {
                return Seq::E(std::mem::take(v));
            }
        }
        Seq::G(out)
    }
    fn as_input(&mut self, k: T, body: &[V]) -> Option<(u32, T)> {
        let n = body.len() as u128;
        let mut first: Option<(u32, T)> = None;
        for (c, v) in body.iter().enumerate() {
            let V::S(t) = v else { return None };
            let K::App(Op::Elem(s), a) = self.cx.k(*t).clone() else { return None };
            let nk = self.cx.sum(W, c as u128, vec![(k, n)]);
            let s0 = self.cx.sub(a[0], nk);
            match first {
                None => first = Some((s, s0)),
                Some((x, y)) if x == s && y == s0 => {}
                _ => return None,
            }
        }
        let (s, s0) = first?;
        // the start must not depend on k
        let mut r = HashSet::new();
        self.cx.reach(s0, &mut r);
        if r.contains(&k) {
            return None;
        }
        Some((s, s0))
    }

    // ---------- substitution on values ----------
    pub fn subst_v(&mut self, v: &V, env: &FxMap<T, T>, memo: &mut FxMap<T, T>) -> V {
        match v {
            V::U | V::F(_) => v.clone(),
            V::S(t) => V::S(self.cx.subst(*t, env, memo)),
            V::A(f) => V::A(Rc::new(f.iter().map(|x| self.subst_v(x, env, memo)).collect())),
            V::E(i, f) => V::E(*i, Rc::new(f.iter().map(|x| self.subst_v(x, env, memo)).collect())),
            V::SE(s) => {
                let disc = self.cx.subst(s.disc, env, memo);
                let alts: Vec<(u32, Rc<Vec<V>>)> = s.alts.iter().map(|(i, f)| (*i, Rc::new(f.iter().map(|x| self.subst_v(x, env, memo)).collect()))).collect();
                if let Some(c) = self.cx.cv(disc) {
                    if let Some(a) = alts.iter().find(|a| a.0 as u128 == c) {
                        return V::E(a.0, a.1.clone());
                    }
                }
                V::SE(Rc::new(SymEnum { disc, alts }))
            }
            V::Q(q) => V::Q(Rc::new(self.subst_seq(q, env, memo))),
            V::R(p) => V::R(Rc::new(self.subst_ptr(p, env, memo))),
            V::I(it) => V::I(Rc::new(match &**it {
                It::Slice { base, off, end } => It::Slice { base: self.subst_ptr(base, env, memo), off: self.cx.subst(*off, env, memo), end: self.cx.subst(*end, env, memo) },
                It::Chunks { base, off, end, n, exact, total_end } => It::Chunks {
                    base: self.subst_ptr(base, env, memo),
                    off: self.cx.subst(*off, env, memo),
                    end: self.cx.subst(*end, env, memo),
                    n: self.cx.subst(*n, env, memo),
                    exact: *exact,
                    total_end: self.cx.subst(*total_end, env, memo),
                },
                It::Windows { base, off, end, n } => It::Windows { base: self.subst_ptr(base, env, memo), off: self.cx.subst(*off, env, memo), end: self.cx.subst(*end, env, memo), n: self.cx.subst(*n, env, memo) },
                It::Vals { q, off, end } => It::Vals { q: Rc::new(self.subst_seq(q, env, memo)), off: self.cx.subst(*off, env, memo), end: self.cx.subst(*end, env, memo) },
            })),
        }
    }
    fn subst_ptr(&mut self, p: &Ptr, env: &FxMap<T, T>, memo: &mut FxMap<T, T>) -> Ptr {
        Ptr {
            root: p.root.clone(),
            path: p.path.iter().map(|s| if let Step::I(t) = s { Step::I(self.cx.subst(*t, env, memo)) } else { *s }).collect(),
            slice: p.slice.map(|(a, b)| (self.cx.subst(a, env, memo), self.cx.subst(b, env, memo))),
        }
    }
    pub fn subst_seq(&mut self, q: &Seq, env: &FxMap<T, T>, memo: &mut FxMap<T, T>) -> Seq {
        match q {
            Seq::E(v) => Seq::E(v.iter().map(|x| self.subst_v(x, env, memo)).collect()),
            Seq::T(t, n) => Seq::T(self.cx.subst(*t, env, memo), *n),
            Seq::G(gs) => {
                let v: Vec<Seg> = gs
                    .iter()
                    .map(|g| match g {
                        Seg::E(v) => Seg::E(v.iter().map(|x| self.subst_v(x, env, memo)).collect()),
                        Seg::In { seq, start, len } => Seg::In { seq: *seq, start: self.cx.subst(*start, env, memo), len: self.cx.subst(*len, env, memo) },
                        Seg::Loop { k, count, body } => {
                            let count = self.cx.subst(*count, env, memo);
                            Seg::Loop { k: *k, count, body: body.iter().map(|x| self.subst_v(x, env, memo)).collect() }
                        }
                    })
                    .collect();
                self.mk_seq(v)
            }
        }
    }

    // ---------- memory ----------
    pub fn walk(&mut self, st: &State, v: &V, path: &[Step]) -> Res<V> {
        if path.is_empty() {
            return Ok(v.clone());
        }
        match (v, path[0]) {
            (V::A(f), Step::F(i)) => match f.get(i as usize) {
                Some(x) => self.walk(st, x, &path[1..]),
                None => Ok(V::U),
            },
            (V::E(a, _), Step::D(b)) => {
                if *a != b {
                    return unsup(format!("downcast to inactive variant {b} of {a}"));
                }
                self.walk(st, v, &path[1..])
            }
            (V::E(_, f), Step::F(i)) => match f.get(i as usize) {
                Some(x) => self.walk(st, x, &path[1..]),
                None => Ok(V::U),
            },
            (V::SE(s), Step::D(b)) => match s.alts.iter().find(|a| a.0 == b) {
                Some(a) => {
                    let e = V::E(b, a.1.clone());
                    self.walk(st, &e, &path[1..])
                }
                None => unsup("downcast to impossible variant"),
            },
            (V::Q(q), Step::I(i)) => {
                if let (Seq::E(v), Some(c)) = (&**q, self.cx.cv(i)) {
                    return match v.get(c as usize) {
                        Some(x) => self.walk(st, x, &path[1..]),
                        None => {
                            if self.trace {
                                for c in st.pcs.iter() {
                                    eprintln!("   pc {}", self.cx.show(*c, 6).chars().take(300).collect::<String>());
                                }
                            }
                            unsup("out of bounds read")
                        }
                    };
                }
                let q = q.clone();
                let e = self.seq_get(st, &q, i)?;
                self.walk(st, &e, &path[1..])
            }
            (V::Q(_), Step::F(0)) => self.walk(st, v, &path[1..]),
            (V::R(_), Step::F(0)) => self.walk(st, v, &path[1..]),
            (V::U, _) => unsup("read of uninitialised value"),
            (v, s) => unsup(format!("projection {:?} of {}", s, brief(v))),
        }
    }
    pub fn load(&mut self, st: &State, p: &Ptr) -> Res<V> {
        if let Some((off, len)) = p.slice {
            // materialise a slice by value
            let v = self.walk_root(st, p)?;
            return match v {
                V::Q(q) => {
                    let n = self.seq_len(&q);
                    if self.cx.cv(off) == Some(0) && n == len {
                        return Ok(V::Q(q));
                    }
                    let s = self.sub_segs(st, &q, off, len)?;
                    Ok(V::Q(Rc::new(self.mk_seq(s))))
                }
                v => unsup(format!("slice of {}", brief(&v))),
            };
        }
        self.walk_root(st, p)
    }
    pub fn walk_root(&mut self, st: &State, p: &Ptr) -> Res<V> {
        let r: *const V = st.root(&p.root);
        // the state is not modified while walking
        self.walk(st, unsafe { &*r }, &p.path)
    }
    /// a string written field by field is still its bytes
    pub fn seq_root(&mut self, st: &State, p: &Ptr) -> Res<V> {
        let v = self.walk_root(st, p)?;
        if let V::A(f) = &v {
            if let [V::Q(_)] = &f[..] {
                return Ok(f[0].clone());
            }
        }
        Ok(v)
    }
    pub fn get_mut<'a>(&mut self, st: &'a mut State, p: &Ptr) -> Res<&'a mut V> {
        let mut v = st.root_mut(&p.root)?;
        for s in &p.path {
            v = match s {
                Step::F(i) => {
                    if let V::U = v {
                        *v = V::A(Rc::new(vec![]));
                    }
                    match v {
                        V::A(f) | V::E(_, f) => {
                            let f = Rc::make_mut(f);
                            while f.len() <= *i as usize {
                                f.push(V::U);
                            }
                            &mut f[*i as usize]
                        }
                        V::Q(_) | V::R(_) if *i == 0 => v,
                        v => return unsup(format!("field write into {}", brief(v))),
                    }
                }
                Step::D(d) => {
                    if let V::U = v {
                        *v = V::E(*d, Rc::new(vec![]));
                    }
                    if let V::A(f) = v {
                        *v = V::E(*d, f.clone());
                    }
                    if let V::SE(s) = v {
                        // writing through a downcast: on this path the variant is known
                        match s.alts.iter().find(|a| a.0 == *d) {
                            Some(a) => *v = V::E(*d, a.1.clone()),
                            None => return unsup("downcast write"),
                        }
                    }
                    match v {
                        V::E(x, _) if x == d => v,
                        v => return unsup(format!("downcast write into {}", brief(v))),
                    }
                }
                Step::I(i) => {
                    let Some(c) = self.cx.cv(*i) else { return unsup("symbolic index in write path") };
                    match v {
                        V::Q(q) => match Rc::make_mut(q) {
                            Seq::E(v) => match v.get_mut(c as usize) {
                                Some(x) => x,
                                None => return unsup("out of bounds write"),
                            },
                            Seq::G(gs) => match gs.first_mut() {
                                Some(Seg::E(v)) if (c as usize) < v.len() => &mut v[c as usize],
                                _ => return unsup("write into symbolic sequence"),
                            },
                            Seq::T(..) => return unsup("nested write into array term"),
                        },
                        v => return unsup(format!("index write into {}", brief(v))),
                    }
                }
            };
        }
        Ok(v)
    }
    pub fn store(&mut self, st: &mut State, p: &Ptr, val: V) -> Res<()> {
        if let Some(Step::I(i)) = p.path.last() {
            let mut q = p.unsliced();
            q.path.pop();
            let need = {
                let sym = self.cx.cv(*i).is_none();
                let v = self.get_mut(st, &q)?;
                matches!(v, V::Q(x) if sym || matches!(&**x, Seq::T(..)))
            };
            if need {
                let tgt = self.get_mut(st, &q)?;
                let V::Q(sq) = tgt else { unreachable!() };
                let cur = sq.clone();
                let new = self.seq_set(st, &cur, *i, val)?;
                let tgt = self.get_mut(st, &q)?;
                *tgt = V::Q(Rc::new(new));
                return Ok(());
            }
        }
        let v = self.get_mut(st, p)?;
        *v = val;
        Ok(())
    }
    pub fn seq_set(&mut self, _st: &State, q: &Seq, i: T, val: V) -> Res<Seq> {
        match q {
            Seq::E(v) => {
                if let Some(c) = self.cx.cv(i) {
                    let mut v = v.clone();
                    if c as usize >= v.len() {
                        return unsup("oob write");
                    }
                    v[c as usize] = val;
                    return Ok(Seq::E(v));
                }
                let V::S(x) = val else { return unsup("symbolic store of aggregate") };
                let mut ts = vec![];
                for e in v {
                    match e {
                        V::S(t) => ts.push(*t),
                        _ => return unsup("symbolic store into aggregate array"),
                    }
                }
                if ts.is_empty() {
                    return unsup("store into empty array");
                }
                let n = ts.len();
                let w = self.cx.w(ts[0]);
                let a = self.cx.arr_lit(w, ts);
                let t = self.cx.store(a, i, x);
                Ok(self.arr_seq(t, n))
            }
            Seq::T(t, n) => {
                let V::S(x) = val else { return unsup("store of aggregate") };
                let r = self.cx.store(*t, i, x);
                Ok(self.arr_seq(r, *n))
            }
            Seq::G(_) => unsup("symbolic store into symbolic sequence"),
        }
    }
    /// array term as a sequence; literals become explicit
    pub fn arr_seq(&mut self, t: T, n: usize) -> Seq {
        match self.cx.k(t).clone() {
            K::App(Op::ArrLit, e) => Seq::E(e.iter().map(|x| V::S(*x)).collect()),
            K::App(Op::ArrConst(id), _) => {
                let w = self.cx.w(t);
                let v = self.cx.tables[id as usize].v.clone();
                Seq::E(v.iter().map(|x| V::S(self.cx.c(w, *x))).collect())
            }
            _ => Seq::T(t, n),
        }
    }

    // ---------- places ----------
    pub fn place_ty(&self, b: &'p ir::Body, p: &ir::Place) -> u32 {
        let mut t = b.locals[p.local as usize];
        for x in &p.proj {
            t = match x {
                ir::Proj::Deref() => match self.ty(t) {
                    Ty::Ref(x, _) | Ty::RawPtr(x, _) => *x,
                    Ty::Adt(_, _, a, _) => match a.first() {
                        Some(ir::GArg::Ty(x)) => *x,
                        _ => t,
                    },
                    _ => t,
                },
                ir::Proj::Field(_, x) => *x,
                ir::Proj::Index(_) | ir::Proj::ConstIndex(..) => match self.ty(t) {
                    Ty::Array(e, _) | Ty::Slice(e) => *e,
                    _ => t,
                },
                ir::Proj::Subslice(..) => t,
                ir::Proj::Downcast(_) => t,
                ir::Proj::Cast(x) => *x,
            };
        }
        t
    }
    pub fn op_ty(&self, b: &'p ir::Body, o: &ir::Operand) -> u32 {
        match o {
            ir::Operand::Copy(p) | ir::Operand::Move(p) => self.place_ty(b, p),
            ir::Operand::Const(_, t) => *t,
            ir::Operand::RtCheck(_) => self.p.types.iter().position(|t| matches!(t, Ty::Bool())).unwrap_or(0) as u32,
        }
    }
    pub fn place_ptr(&mut self, st: &State, p: &ir::Place) -> Res<Ptr> {
        let d = st.frames.len() as u32 - 1;
        let mut cur = Ptr { root: Root::Loc(d, p.local), path: vec![], slice: None };
        for x in &p.proj {
            match x {
                ir::Proj::Deref() => {
                    let v = self.walk_root(st, &cur)?;
                    cur = match v {
                        V::R(p) => (*p).clone(),
                        V::U => return unsup("deref of uninitialised"),
                        v => return unsup(format!("deref of {}", brief(&v))),
                    };
                }
                ir::Proj::Field(i, _) => {
                    cur.slice = None;
                    cur.path.push(Step::F(*i));
                }
                ir::Proj::Downcast(v) => cur.path.push(Step::D(*v)),
                ir::Proj::Index(l) => {
                    let i = match &st.top().locals[*l as usize] {
                        V::S(t) => *t,
                        _ => return unsup("index local"),
                    };
                    let i = match cur.slice.take() {
                        Some((o, _)) => self.cx.add(o, i),
                        None => i,
                    };
                    cur.path.push(Step::I(i));
                }
                ir::Proj::ConstIndex(off, _, from_end) => {
                    let (o, n) = self.bounds_of(st, &cur)?;
                    let i = if *from_end {
                        let e = self.cx.add(o, n);
                        self.cx.addc(e, (*off as u128).wrapping_neg() & mask(64))
                    } else {
                        self.cx.addc(o, *off as u128)
                    };
                    cur.slice = None;
                    cur.path.push(Step::I(i));
                }
                ir::Proj::Subslice(a, b, from_end) => {
                    let (o, n) = self.bounds_of(st, &cur)?;
                    let no = self.cx.addc(o, *a as u128);
                    let len = if *from_end { self.cx.addc(n, (*a as u128 + *b as u128).wrapping_neg() & mask(64)) } else { self.cx.us((*b - *a) as u128) };
                    cur.slice = Some((no, len));
                }
                ir::Proj::Cast(_) => {}
            }
        }
        Ok(cur)
    }
    /// (offset, length) of the sequence a pointer designates
    pub fn bounds_of(&mut self, st: &State, p: &Ptr) -> Res<(T, T)> {
        if let Some(s) = p.slice {
            return Ok(s);
        }
        match self.seq_root(st, p)? {
            V::Q(q) => {
                let n = self.seq_len(&q);
                Ok((self.cx.us(0), n))
            }
            v => unsup(format!("length of {}", brief(&v))),
        }
    }
    pub fn read_place(&mut self, st: &State, p: &ir::Place) -> Res<V> {
        if p.proj.is_empty() {
            return Ok(st.top().locals[p.local as usize].clone());
        }
        let q = self.place_ptr(st, p)?;
        self.load(st, &q)
    }
    pub fn operand(&mut self, st: &mut State, o: &'p ir::Operand) -> Res<V> {
        match o {
            ir::Operand::Copy(p) => self.read_place(st, p),
            ir::Operand::Move(p) => {
                if p.proj.is_empty() {
                    let l = &mut Rc::make_mut(&mut st.frames.last_mut().unwrap().locals)[p.local as usize];
                    return Ok(match l {
                        V::S(_) => l.clone(),
                        _ => std::mem::replace(l, V::U),
                    });
                }
                self.read_place(st, p)
            }
            ir::Operand::Const(c, t) => self.cval(c, *t),
            ir::Operand::RtCheck(_) => Ok(V::S(self.cx.b(false))),
        }
    }
    pub fn scalar(&mut self, v: &V) -> Res<T> {
        match v {
            V::S(t) => Ok(*t),
            V::A(f) if f.len() == 1 => {
                let x = f[0].clone();
                self.scalar(&x)
            }
            v => unsup(format!("scalar expected, found {}", brief(v))),
        }
    }

    // ---------- deciding conditions ----------
    pub fn decide(&mut self, st: &State, c: T) -> Res<Option<bool>> {
        if let Some(r) = self.try_decide(st, c) {
            return Ok(Some(r));
        }
        if self.sym_mode && self.len_dep(c) {
            return Err(Bail::Cut(c));
        }
        if self.prune {
            let mut facts: Vec<T> = st.pcs.to_vec();
            let n = self.cx.not(c);
            for (f, r) in [(c, false), (n, true)] {
                facts.push(f);
                if let crate::bdd::Verdict::Holds = crate::bdd::decide(&mut self.cx, &facts, &[], 20_000, false) {
                    return Ok(Some(r));
                }
                facts.pop();
            }
        }
        Ok(None)
    }
    pub fn try_decide(&mut self, st: &State, c: T) -> Option<bool> {
        if let Some(v) = self.cx.cv(c) {
            return Some(v == 1);
        }
        if !self.sym_mode && st.env.is_empty() && st.bnd.is_empty() && st.vals.is_empty() {
            return self.vset_decide(st, c);
        }
        self.dec1(st, c, 0)
    }
    fn dec1(&mut self, st: &State, c: T, depth: u32) -> Option<bool> {
        if let Some(v) = self.cx.cv(c) {
            return Some(v == 1);
        }
        if let Some(v) = st.env.get(&c) {
            return self.cx.cv(*v).map(|x| x == 1);
        }
        if let Some(r) = self.vset_decide(st, c) {
            return Some(r);
        }
        match self.cx.k(c).clone() {
            K::App(Op::Lt, a) => {
                let (al, ah) = self.cx.range_b(a[0], Some(&st.bnd));
                let (bl, bh) = self.cx.range_b(a[1], Some(&st.bnd));
                if ah < bl {
                    return Some(true);
                }
                if al >= bh {
                    return Some(false);
                }
                if let Some(r) = self.cx.lt_lin(a[0], a[1], Some(&st.bnd)) {
                    return Some(r);
                }
            }
            K::App(Op::Eq0, a) => {
                let (l, h) = self.cx.range_b(a[0], Some(&st.bnd));
                if l > 0 {
                    return Some(false);
                }
                if h == 0 {
                    return Some(true);
                }
            }
            K::Bits(b) if b.len() == 1 => {
                let p = self.cx.polys[b[0] as usize].clone();
                if p.len() == 2 && p[0] == 0 {
                    let n = self.cx.not(c);
                    return self.dec1(st, n, depth + 1).map(|x| !x);
                }
                if p.len() == 1 {
                    // conjunction
                    let m = self.cx.monos[p[0] as usize].clone();
                    for a in m.iter() {
                        let (t, i) = ((*a >> 8) as T, (*a & 0xff) as u32);
                        if self.cx.w(t) > 1 {
                            let (l, h) = self.cx.range_b(t, Some(&st.bnd));
                            if h >> i == 0 || (l >> i == h >> i && l >> i & 1 == 0) {
                                return Some(false);
                            }
                            if m.len() == 1 && l >> i == h >> i {
                                return Some(true);
                            }
                        }
                    }
                    if m.len() > 1 {
                        let mut all = true;
                        for a in m.iter() {
                            let t = (*a >> 8) as T;
                            if self.cx.w(t) == 1 {
                                match self.dec1(st, t, depth + 1) {
                                    Some(false) => return Some(false),
                                    Some(true) => {}
                                    None => all = false,
                                }
                            } else {
                                all = false;
                            }
                        }
                        if all {
                            return Some(true);
                        }
                    }
                }
            }
            _ => {}
        }
        if depth == 0 && !st.env.is_empty() {
            let mut memo = Default::default();
            let r = self.cx.subst(c, &st.env, &mut memo);
            if r != c {
                return self.dec1(st, r, 1);
            }
        }
        None
    }
    /// a decision that must be available (sequence layout); otherwise a cut or a bail
    pub fn decide_cut(&mut self, st: &State, c: T) -> Res<bool> {
        match self.decide(st, c)? {
            Some(b) => Ok(b),
            None => Err(Bail::Need(c)),
        }
    }
    /// does the condition depend on a symbolic length (and not merely on data at such a position)?
    fn len_dep(&self, c: T) -> bool {
        let mut st = vec![c];
        let mut seen = HashSet::new();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            match self.cx.k(t) {
                K::Leaf(l) => {
                    if self.cx.leaves[*l as usize].loop_var {
                        return true;
                    }
                }
                K::App(Op::Elem(_) | Op::LoopOut(..) | Op::Uf(_) | Op::UfArr(_) | Op::Table(_) | Op::Select, _) => {}
                _ => st.extend(self.cx.children(t)),
            }
        }
        false
    }
    pub fn assume(&mut self, st: &mut State, c: T, val: bool) {
        let c = if val { c } else { self.cx.not(c) };
        if self.cx.cv(c).is_some() {
            return;
        }
        Rc::make_mut(&mut st.pcs).push(c);
        self.derive(st, c, 0);
        self.vset_learn(st, c);
    }
    fn learn(&mut self, st: &mut State, c: T, val: bool) {
        let (t, f) = (self.cx.b(true), self.cx.b(false));
        let n = self.cx.not(c);
        let e = Rc::make_mut(&mut st.env);
        e.insert(c, if val { t } else { f });
        e.insert(n, if val { f } else { t });
    }
    pub fn tighten(&mut self, st: &mut State, t: T, lo: u128, hi: u128) {
        let (l, h) = self.cx.range_b(t, Some(&st.bnd));
        let (nl, nh) = (l.max(lo), h.min(hi));
        if (nl, nh) != (l, h) && nl <= nh {
            Rc::make_mut(&mut st.bnd).insert(t, (nl, nh));
            if nl == nh {
                let w = self.cx.w(t);
                let c = self.cx.c(w, nl);
                Rc::make_mut(&mut st.env).insert(t, c);
            }
            if self.no_join {
                // the leading bits that all remaining values share
                let k = 128 - (nl ^ nh).leading_zeros();
                let w = self.cx.w(t) as u32;
                if k < w {
                    self.pin_bits(st, t, mask(w as u16) & !((1u128 << k) - 1), nl);
                }
            }
        }
    }
    fn derive(&mut self, st: &mut State, c: T, depth: u32) {
        self.learn(st, c, true);
        let p = self.cx.bits(c)[0];
        let poly = self.cx.polys[p as usize].clone();
        if poly.len() == 1 && depth < 4 {
            for a in self.cx.monos[poly[0] as usize].clone().iter() {
                let t = (*a >> 8) as T;
                if self.cx.w(t) == 1 {
                    if t != c {
                        self.derive(st, t, depth + 1);
                    } else {
                        self.derive_app(st, t, true);
                    }
                }
            }
        } else if poly.len() == 2 && poly[0] == 0 {
            let m = self.cx.monos[poly[1] as usize].clone();
            if m.len() == 1 {
                let t = (m[0] >> 8) as T;
                if self.cx.w(t) == 1 {
                    self.learn(st, t, false);
                    self.derive_app(st, t, false);
                }
            }
        } else if depth == 0 {
            // (1^a)(1^b)... : all factors false
            let mut atoms: Vec<T> = vec![];
            for m in poly.iter() {
                for a in self.cx.monos[*m as usize].iter() {
                    let t = (*a >> 8) as T;
                    if self.cx.w(t) == 1 && !atoms.contains(&t) {
                        atoms.push(t);
                    }
                }
            }
            if atoms.len() <= 4 && poly.len() == 1 << atoms.len() && poly[0] == 0 {
                for t in atoms {
                    self.learn(st, t, false);
                    self.derive_app(st, t, false);
                }
            }
        }
    }
    fn derive_app(&mut self, st: &mut State, t: T, val: bool) {
        match self.cx.k(t).clone() {
            K::App(Op::Lt, a) => {
                let (al, ah) = self.cx.range_b(a[0], Some(&st.bnd));
                let (bl, bh) = self.cx.range_b(a[1], Some(&st.bnd));
                let m = mask(self.cx.w(a[0]));
                if val {
                    self.tighten(st, a[0], 0, bh.saturating_sub(1));
                    self.tighten(st, a[1], (al + 1).min(m), m);
                } else {
                    self.tighten(st, a[0], bl, m);
                    self.tighten(st, a[1], 0, ah);
                }
                // single-variable sums: move the constant over
                for (x, lo, hi) in [(a[0], if val { 0 } else { bl }, if val { bh.saturating_sub(1) } else { m }), (a[1], if val { (al + 1).min(m) } else { 0 }, if val { m } else { ah })] {
                    if let K::Sum(c, ts) = self.cx.k(x).clone() {
                        if ts.len() == 1 && ts[0].1 == 1 && self.cx.nowrap(x) {
                            let cs = to_signed(c, self.cx.w(x));
                            let l2 = (lo as i128).saturating_sub(cs).max(0) as u128;
                            let h2 = (hi as i128).saturating_sub(cs).max(0) as u128;
                            self.tighten(st, ts[0].0, l2, h2.min(m));
                        }
                    }
                }
            }
            K::App(Op::Eq0, a) => {
                if val && self.no_join {
                    let w = self.cx.w(a[0]);
                    self.pin_bits(st, a[0], mask(w), 0);
                }
                if let Some((x, v)) = self.solve_eq(a[0]) {
                    if val {
                        self.tighten(st, x, v, v);
                    } else {
                        let (l, h) = self.cx.range_b(x, Some(&st.bnd));
                        if l == v && l < h {
                            self.tighten(st, x, l + 1, h);
                        } else if h == v && l < h {
                            self.tighten(st, x, l, h - 1);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    /// d == 0  <=>  x == v
    pub fn solve_eq(&mut self, d: T) -> Option<(T, u128)> {
        let w = self.cx.w(d);
        match self.cx.k(d).clone() {
            K::Sum(c, ts) if ts.len() == 1 => {
                if ts[0].1 == 1 {
                    Some((ts[0].0, c.wrapping_neg() & mask(w)))
                } else if ts[0].1 == mask(w) {
                    Some((ts[0].0, c))
                } else {
                    None
                }
            }
            K::Leaf(_) | K::App(..) => Some((d, 0)),
            K::Bits(b) => {
                let mut x: Option<T> = None;
                let mut v = 0u128;
                let mut have = 0u128;
                for p in b.iter() {
                    let poly = self.cx.polys[*p as usize].clone();
                    let (neg, m) = match poly.len() {
                        0 => continue,
                        1 if poly[0] != 0 => (false, poly[0]),
                        2 if poly[0] == 0 => (true, poly[1]),
                        _ => return None,
                    };
                    let mono = self.cx.monos[m as usize].clone();
                    if mono.len() != 1 {
                        return None;
                    }
                    let (t, bit) = ((mono[0] >> 8) as T, mono[0] & 0xff);
                    match x {
                        None => x = Some(t),
                        Some(y) if y == t => {}
                        _ => return None,
                    }
                    have |= 1 << bit;
                    if neg {
                        v |= 1 << bit;
                    }
                }
                let x = x?;
                let (_, hi) = self.cx.range(x);
                let need = if hi == 0 { 0 } else { mask(128 - hi.leading_zeros() as u16) };
                if have & need == need {
                    Some((x, v))
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    // ---------- joins ----------
    pub fn merge_v(&mut self, c: T, a: &V, b: &V, force: bool) -> Option<V> {
        Some(match (a, b) {
            (V::U, _) | (_, V::U) => V::U,
            (V::S(x), V::S(y)) => {
                if x == y {
                    return Some(a.clone());
                }
                if self.cx.w(*x) != self.cx.w(*y) {
                    return None;
                }
                if !force && self.cx.w(*x) == 64 && self.cx.cv(*x).is_some() && self.cx.cv(*y).is_some() {
                    return None;
                }
                V::S(self.cx.ite(c, *x, *y))
            }
            (V::A(x), V::A(y)) => {
                if Rc::ptr_eq(x, y) {
                    return Some(a.clone());
                }
                if x.len() != y.len() {
                    return None;
                }
                V::A(Rc::new(self.merge_vs(c, x, y, force)?))
            }
            (V::E(i, x), V::E(j, y)) if i == j => {
                if x.len() != y.len() {
                    return None;
                }
                V::E(*i, Rc::new(self.merge_vs(c, x, y, force)?))
            }
            (V::E(..) | V::SE(_), V::E(..) | V::SE(_)) => {
                let (d1, a1) = self.as_sym(a);
                let (d2, a2) = self.as_sym(b);
                let disc = self.cx.ite(c, d1, d2);
                let mut alts: Vec<(u32, Rc<Vec<V>>)> = a1.clone();
                for (v, f) in a2 {
                    match alts.iter_mut().find(|x| x.0 == v) {
                        Some(x) => {
                            if !Rc::ptr_eq(&x.1, &f) {
                                let xs = x.1.clone();
                                let m = self.merge_vs(c, &xs, &f, force)?;
                                x.1 = Rc::new(m);
                            }
                        }
                        None => alts.push((v, f)),
                    }
                }
                alts.sort_by_key(|x| x.0);
                V::SE(Rc::new(SymEnum { disc, alts }))
            }
            (V::Q(x), V::Q(y)) => {
                if Rc::ptr_eq(x, y) {
                    return Some(a.clone());
                }
                match (&**x, &**y) {
                    (Seq::E(u), Seq::E(v)) => {
                        if u.len() != v.len() {
                            return None;
                        }
                        V::Q(Rc::new(Seq::E(self.merge_vs(c, u, v, force)?)))
                    }
                    (Seq::G(_), Seq::G(_)) => {
                        if self.same_v(a, b) {
                            return Some(a.clone());
                        }
                        return None;
                    }
                    (x, y) => {
                        let (t1, n1) = self.seq_term(x)?;
                        let (t2, n2) = self.seq_term(y)?;
                        if n1 != n2 {
                            return None;
                        }
                        let t = self.cx.arr_ite(c, t1, t2);
                        V::Q(Rc::new(Seq::T(t, n1)))
                    }
                }
            }
            (V::R(p), V::R(q)) => {
                if p == q {
                    return Some(a.clone());
                }
                match (&p.root, &q.root) {
                    (Root::Const(x), Root::Const(y)) if p.path == q.path && p.slice == q.slice => {
                        let (x, y) = (x.0.clone(), y.0.clone());
                        let m = self.merge_v(c, &x, &y, force)?;
                        V::ptr(Ptr { root: Root::Const(Hidden(Rc::new(m))), path: p.path.clone(), slice: p.slice })
                    }
                    _ => return None,
                }
            }
            (V::I(_), V::I(_)) => {
                if self.same_v(a, b) {
                    a.clone()
                } else {
                    return None;
                }
            }
            (V::F(x), V::F(y)) if x == y => a.clone(),
            _ => return None,
        })
    }
    pub fn seq_term(&mut self, q: &Seq) -> Option<(T, usize)> {
        match q {
            Seq::T(t, n) => Some((*t, *n)),
            Seq::E(v) => {
                let mut ts = vec![];
                for x in v {
                    match x {
                        V::S(t) => ts.push(*t),
                        _ => return None,
                    }
                }
                if ts.is_empty() {
                    return None;
                }
                let w = self.cx.w(ts[0]);
                let n = ts.len();
                Some((self.cx.arr_lit(w, ts), n))
            }
            Seq::G(_) => None,
        }
    }
    fn merge_vs(&mut self, c: T, a: &[V], b: &[V], force: bool) -> Option<Vec<V>> {
        let mut r = Vec::with_capacity(a.len());
        for (x, y) in a.iter().zip(b) {
            r.push(self.merge_v(c, x, y, force)?);
        }
        Some(r)
    }
    pub fn as_sym(&mut self, v: &V) -> (T, Vec<(u32, Rc<Vec<V>>)>) {
        match v {
            V::E(i, f) => (self.cx.c(8, *i as u128), vec![(*i, f.clone())]),
            V::SE(s) => (s.disc, s.alts.clone()),
            _ => unreachable!(),
        }
    }
    /// structural identity of values
    pub fn same_v(&self, a: &V, b: &V) -> bool {
        match (a, b) {
            (V::U, V::U) => true,
            (V::S(x), V::S(y)) => x == y,
            (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| self.same_v(p, q)),
            (V::E(i, x), V::E(j, y)) => i == j && x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| self.same_v(p, q)),
            (V::SE(x), V::SE(y)) => x.disc == y.disc && x.alts.len() == y.alts.len() && x.alts.iter().zip(y.alts.iter()).all(|(p, q)| p.0 == q.0 && p.1.len() == q.1.len() && p.1.iter().zip(q.1.iter()).all(|(a, b)| self.same_v(a, b))),
            (V::Q(x), V::Q(y)) => Rc::ptr_eq(x, y) || self.same_seq(x, y),
            (V::R(p), V::R(q)) => p == q,
            (V::I(x), V::I(y)) => match (&**x, &**y) {
                (It::Slice { base: a, off: b, end: c }, It::Slice { base: d, off: e, end: f }) => a == d && b == e && c == f,
                (It::Chunks { base: a, off: b, end: c, n, .. }, It::Chunks { base: d, off: e, end: f, n: m, .. }) => a == d && b == e && c == f && n == m,
                (It::Windows { base: a, off: b, end: c, n }, It::Windows { base: d, off: e, end: f, n: m }) => a == d && b == e && c == f && n == m,
                (It::Vals { q, off, end }, It::Vals { q: q2, off: o2, end: e2 }) => off == o2 && end == e2 && self.same_seq(q, q2),
                _ => false,
            },
            (V::F(x), V::F(y)) => x == y,
            _ => false,
        }
    }
    pub fn same_seq(&self, a: &Seq, b: &Seq) -> bool {
        match (a, b) {
            (Seq::E(x), Seq::E(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| self.same_v(p, q)),
            (Seq::T(x, _), Seq::T(y, _)) => x == y,
            (Seq::G(x), Seq::G(y)) => {
                x.len() == y.len()
                    && x.iter().zip(y).all(|(p, q)| match (p, q) {
                        (Seg::E(a), Seg::E(b)) => a.len() == b.len() && a.iter().zip(b).all(|(p, q)| self.same_v(p, q)),
                        (Seg::In { seq, start, len }, Seg::In { seq: s2, start: t2, len: l2 }) => seq == s2 && start == t2 && len == l2,
                        (Seg::Loop { k, count, body }, Seg::Loop { k: k2, count: c2, body: b2 }) => k == k2 && count == c2 && body.len() == b2.len() && body.iter().zip(b2).all(|(p, q)| self.same_v(p, q)),
                        _ => false,
                    })
            }
            _ => false,
        }
    }
    /// forget values that are dead at the resumption points (so that joins do not see them)
    pub fn prune(&mut self, st: &mut State, bb: Option<u32>) {
        let n = st.frames.len();
        for i in 0..n {
            let f = st.frames[i].f;
            let at = if i + 1 == n { bb } else { Some(st.frames[i].resume) };
            let Some(at) = at else { continue };
            if at == u32::MAX {
                continue;
            }
            let info = self.info(f);
            let live = &info.live_in[at as usize];
            let fr = &mut st.frames[i];
            if fr.locals.iter().enumerate().any(|(j, v)| !live[j] && !matches!(v, V::U)) {
                let l = Rc::make_mut(&mut fr.locals);
                for (j, v) in l.iter_mut().enumerate() {
                    if !live[j] {
                        *v = V::U;
                    }
                }
            }
        }
    }
    fn cond_of(&mut self, st: &State, n0: usize) -> T {
        let mut c = self.cx.b(true);
        for t in st.pcs[n0..].to_vec() {
            c = self.cx.and(c, t);
        }
        c
    }
    /// join two states that forked from `base`; `extra` are values at the join (e.g. a call result)
    fn merge_states(&mut self, base: &State, a: &State, b: &State, va: &V, vb: &V, force: bool) -> Option<(State, V)> {
        if a.frames.len() != b.frames.len() || a.heap.len() != b.heap.len() {
            return None;
        }
        let n0 = base.pcs.len();
        let ca = self.cond_of(a, n0);
        let cb = self.cond_of(b, n0);
        let v = self.merge_v(ca, va, vb, force)?;
        let mut r = a.clone();
        for i in 0..a.frames.len() {
            if Rc::ptr_eq(&a.frames[i].locals, &b.frames[i].locals) {
                continue;
            }
            let (x, y) = (a.frames[i].locals.clone(), b.frames[i].locals.clone());
            let m = self.merge_vs(ca, &x, &y, force)?;
            r.frames[i].locals = Rc::new(m);
        }
        if !Rc::ptr_eq(&a.heap, &b.heap) {
            let (x, y) = (a.heap.clone(), b.heap.clone());
            r.heap = Rc::new(self.merge_vs(ca, &x, &y, force)?);
        }
        r.env = base.env.clone();
        r.bnd = base.bnd.clone();
        r.vals = base.vals.clone();
        r.pcs = base.pcs.clone();
        let d = self.cx.or(ca, cb);
        self.assume(&mut r, d, true);
        Some((r, v))
    }
    pub fn merge_list(&mut self, base: &State, mut v: Vec<(State, V)>) -> Vec<(State, V)> {
        let force = v.len() > 48;
        let mut out: Vec<(State, V)> = vec![];
        if v.len() > 2000 || self.no_join || v.len() < 2 {
            return v;
        }
        v.reverse();
        while let Some((s, x)) = v.pop() {
            let mut done = false;
            for o in out.iter_mut() {
                if let Some((m, y)) = self.merge_states(base, &o.0, &s, &o.1, &x, force) {
                    *o = (m, y);
                    done = true;
                    break;
                }
            }
            if !done {
                out.push((s, x));
            }
        }
        out
    }

    // ---------- execution ----------
    pub fn panic(&mut self, st: &State, msg: &str) -> PanicInfo {
        {
            let site = self.site(st);
            let func = site.split(" (").next().unwrap_or("").to_string();
            PanicInfo { msg: msg.to_string(), site, func }
        }
    }
    /// case analysis on the value of a node with few possible values
    fn cases(&mut self, st: &State, t: T, args: &[V]) -> Res<Vec<(State, Vec<V>)>> {
        let mut vals: Vec<u128> = vec![];
        if let K::Sum(_, ts) = self.cx.k(t).clone() {
            // a linear form: split on (one of) its atoms
            if let Some((x, _)) = ts.iter().find(|x| {
                let (lo, hi) = self.cx.range_b(x.0, Some(&st.bnd));
                hi - lo < 300
            }) {
                return self.cases(st, *x, args);
            }
        }
        let (lo, hi) = self.cx.range_b(t, Some(&st.bnd));
        let small = hi - lo < 300;
        if let crate::vset::Supp::One(x) = self.supp(t) {
            if let Some(tab) = self.tabulate(t, x) {
                let s = self.vset(st, x);
                for (v, r) in tab.iter().enumerate() {
                    if crate::vset::vs_has(&s, v as u128) && *r >= lo && *r <= hi && !vals.contains(r) {
                        vals.push(*r);
                    }
                }
            }
        } else if small {
            vals = (lo..=hi).collect();
        }
        if vals.is_empty() || vals.len() > 300 || self.cx.cv(t).is_some() {
            if self.trace {
                let sp = self.supp(t);
                let one = matches!(sp, crate::vset::Supp::One(_));
                eprintln!("cases: range {lo}..{hi} one {one} cv {:?}", self.cx.cv(t));
                if let crate::vset::Supp::One(x) = sp {
                    let s = self.vset(st, x);
                    eprintln!("  supp {} {:?} tab {}", self.cx.show(x, 3), crate::vset::vs_vals(&s), self.tabulate(t, x).is_some());
                }
                for c in st.pcs.iter() {
                    eprintln!("   pc {}", self.cx.show(*c, 6).chars().take(300).collect::<String>());
                }
            }
            return unsup(format!("no case analysis for {} ({} values)", self.cx.show(t, 4).chars().take(200).collect::<String>(), vals.len()));
        }
        vals.sort_unstable();
        let w = self.cx.w(t);
        let mut out = vec![];
        for v in vals {
            let c = self.cx.c(w, v);
            let e = if w == 1 { if v == 1 { t } else { self.cx.not(t) } } else { self.cx.eq(t, c) };
            if self.try_decide(st, e) == Some(false) {
                continue;
            }
            let mut s = st.clone();
            self.assume(&mut s, e, true);
            self.pin(&mut s, t, v);
            if let Some(a) = self.rewrite(&mut s, Some(t), args) {
                out.push((s, a));
            }
        }
        Ok(out)
    }
    /// rewrite the state under the constants it knows; None if that contradicts a path fact
    fn rewrite(&mut self, s: &mut State, t: Option<T>, args: &[V]) -> Option<Vec<V>> {
        let env: FxMap<T, T> = s.env.iter().filter(|(k, x)| self.cx.cv(**x).is_some() && self.cx.w(**k) > 1 || Some(**k) == t).map(|(k, x)| (*k, *x)).collect();
        let mut memo = Default::default();
        let pcs = s.pcs.clone();
        if pcs.iter().any(|p| {
            let q = self.cx.subst(*p, &env, &mut memo);
            self.cx.cv(q) == Some(0)
        }) {
            return None;
        }
        for fr in s.frames.iter_mut() {
            fr.locals = Rc::new(fr.locals.iter().map(|x| self.subst_v(x, &env, &mut memo)).collect());
        }
        s.heap = Rc::new(s.heap.iter().map(|x| self.subst_v(x, &env, &mut memo)).collect());
        Some(args.iter().map(|x| self.subst_v(x, &env, &mut memo)).collect())
    }
    /// the path facts contradict the input values they pin
    pub fn infeasible(&mut self, s: &State) -> bool {
        let env: FxMap<T, T> = s.env.iter().filter(|(k, x)| self.cx.cv(**x).is_some() && self.cx.w(**k) > 1).map(|(k, x)| (*k, *x)).collect();
        if env.is_empty() {
            return false;
        }
        let mut memo = Default::default();
        let pcs = s.pcs.clone();
        pcs.iter().any(|p| {
            let q = self.cx.subst(*p, &env, &mut memo);
            self.cx.cv(q) == Some(0)
        })
    }
    fn pinned(&self, s: &State) -> usize {
        s.env.iter().filter(|(k, x)| self.cx.cv(**x).is_some() && self.cx.w(**k) > 1).count()
    }
    /// record t == v, down to the inputs where the bits determine them
    fn pin(&mut self, st: &mut State, t: T, v: u128) {
        let w = self.cx.w(t);
        let c = self.cx.c(w, v);
        Rc::make_mut(&mut st.env).insert(t, c);
        self.pin_bits(st, t, mask(w), v);
    }
    fn pin_bits(&mut self, st: &mut State, t: T, which: u128, v: u128) {
        if matches!(self.cx.k(t), K::Sum(..)) {
            return;
        }
        let bits = self.cx.bits(t);
        let mut known: FxMap<T, (u128, u128)> = Default::default();
        for (i, p) in bits.iter().enumerate() {
            if which >> i & 1 == 0 {
                continue;
            }
            let poly = &self.cx.polys[*p as usize];
            let (neg, m) = match &poly[..] {
                [m] => (0, *m),
                [0, m] => (1, *m),
                _ => continue,
            };
            let m = &self.cx.monos[m as usize];
            if m.len() == 1 {
                let (x, b) = ((m[0] >> 8) as T, m[0] & 0xff);
                let e = known.entry(x).or_insert((0, 0));
                e.0 |= 1 << b;
                e.1 |= ((v >> i & 1) ^ neg) << b;
            }
        }
        for (x, (m, val)) in known {
            let w = self.cx.w(x);
            if m == mask(w) && x != t && self.cx.cv(x).is_none() && !st.env.contains_key(&x) {
                let c = self.cx.c(w, val);
                Rc::make_mut(&mut st.env).insert(x, c);
                self.tighten(st, x, val, val);
            }
        }
    }
    pub fn call(&mut self, st: State, f: u32, args: Vec<V>) -> Res<Outs> {
        let func = self.func(f);
        match self.builtin(&st, f, func, &args) {
            Ok(Some(r)) => return Ok(r),
            Ok(None) => {}
            Err(Bail::Need(t)) => {
                let mut outs = vec![];
                for (s, a) in self.cases(&st, t, &args)? {
                    outs.extend(self.call(s, f, a)?);
                }
                return Ok(outs);
            }
            Err(e) => return Err(e),
        }
        let Some(body) = &func.body else {
            if func.name.ends_with("::call_mut") || func.name.ends_with("::call_once") || func.name.ends_with("Fn::call") {
                // a function item used as a closure
                if let (Some(ir::GArg::Ty(t)), Some(V::A(tup))) = (func.gargs.first(), args.get(1)) {
                    if let Ty::FnDef(Some(g), _) = self.ty(*t) {
                        let a = tup.to_vec();
                        return self.call(st, *g, a);
                    }
                }
            }
            // tuple constructors
            if let Ty::Adt(n, k, _, vs) = self.ty(func.output) {
                let last = func.name.rsplit("::").next().unwrap_or("");
                if *k == 1 {
                    if let Some(i) = vs.iter().position(|v| v.name == last && v.fields.len() == args.len()) {
                        return Ok(vec![(st, Out::Val(V::E(i as u32, Rc::new(args))))]);
                    }
                } else if *k == 0 && n.rsplit("::").next() == Some(last) && vs[0].fields.len() == args.len() {
                    return Ok(vec![(st, Out::Val(V::A(Rc::new(args))))]);
                }
            }
            return unsup(format!("no body: {} [{}]", func.name, func.trait_name));
        };
        if self.depth > 3000 {
            return unsup("call depth");
        }
        let mut st = st;
        let mut args = args;
        // rust-call ABI
        if func.is_closure && body.argc as usize != args.len() || (func.is_closure && args.len() == 2 && func.inputs.len() == 2 && self.is_tupled(&args[1], func.inputs[1])) {
            if let Some(V::A(t)) = args.pop() {
                args.extend(t.iter().cloned());
            } else {
                return unsup("rust-call arguments");
            }
        }
        if body.spread.is_some() && body.argc as usize != args.len() {
            let n = body.argc as usize - 1;
            let rest = args.split_off(n.min(args.len()));
            args.push(V::tup(rest));
        }
        if body.argc as usize != args.len() {
            return unsup(format!("arity of {}", func.name));
        }
        self.seen.insert(f);
        let mut locals = vec![V::U; body.locals.len()];
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = a;
        }
        st.frames.push(Frame { f, locals: Rc::new(locals), resume: u32::MAX });
        let d = st.frames.len();
        let saved_sites = self.sites.len();
        while self.sites.len() < d {
            self.sites.push(0);
        }
        self.depth += 1;
        let r = self.run(st, 0, &[]);
        self.depth -= 1;
        let loc = self.sites.get(d - 1).map(|s| self.where_span(*s)).unwrap_or_default();
        self.sites.truncate(saved_sites.max(d - 1));
        let r = match r {
            Err(Bail::Unsup(m)) if m.matches(" <- ").count() < 8 => return Err(Bail::Unsup(format!("{m} <- {} @{}", func.name, loc))),
            r => r?,
        };
        let mut outs = vec![];
        for (mut s, e) in r {
            match e {
                Exit::Ret => {
                    let fr = s.frames.pop().unwrap();
                    let v = fr.locals[0].clone();
                    let v = if let V::U = v {
                        if matches!(self.ty(body.locals[0]), Ty::Tuple(x) if x.is_empty()) {
                            V::unit()
                        } else {
                            v
                        }
                    } else {
                        v
                    };
                    outs.push((s, Out::Val(v)));
                }
                Exit::Panic(p) => {
                    s.frames.truncate(d - 1);
                    outs.push((s, Out::Panic(p)))
                }
                Exit::Stop(_) => return unsup("stray stop"),
            }
        }
        Ok(outs)
    }
    fn is_tupled(&self, v: &V, want: u32) -> bool {
        // the caller packed the single argument into a 1-tuple
        match v {
            V::A(t) if t.len() == 1 => match self.ty(want) {
                Ty::Tuple(x) => x.len() != 1 || matches!(&t[0], V::A(y) if y.len() == 1),
                Ty::Adt(_, 0, _, vs) => {
                    // a one-field struct looks like a 1-tuple; decide by nesting
                    if vs[0].fields.len() == 1 {
                        matches!(&t[0], V::A(y) if y.len() == 1)
                    } else {
                        true
                    }
                }
                Ty::Closure(_, u) => u.len() != 1 || matches!(&t[0], V::A(_)),
                _ => true,
            },
            _ => false,
        }
    }
    pub fn run(&mut self, st: State, bb: u32, stops: &[u32]) -> Res<Vec<(State, Exit)>> {
        let mut outs = vec![];
        let mut snaps: Vec<Snap> = vec![];
        let d = st.frames.len();
        match self.run_inner(st, bb, stops, &mut outs, &mut snaps) {
            Ok(()) => Ok(outs),
            Err(Bail::Cut(c)) => {
                self.sites.truncate(d);
                while let Some(s) = snaps.pop() {
                    outs.truncate(s.outs);
                    self.obls.truncate(s.obls);
                    let mut ctx_stops = stops.to_vec();
                    ctx_stops.retain(|x| *x != s.header);
                    match self.summarise(&s.st, s.header, &ctx_stops, c) {
                        Ok(r) => {
                            outs.extend(r);
                            return Ok(outs);
                        }
                        Err(Bail::Fuel) => return Err(Bail::Fuel),
                        Err(e) => {
                            if self.trace {
                                eprintln!("summarise failed at {} bb{}: {:?}", self.func(s.st.top().f).name, s.header, e);
                            }
                            let m = match e {
                                Bail::Unsup(m) => m,
                                Bail::Need(c) => format!("need {}", self.cx.show(c, 3)),
                                Bail::Cut(c) => format!("cut {}", self.cx.show(c, 3)),
                                Bail::Fuel => "fuel".into(),
                            };
                            let n = self.func(s.st.top().f).name.clone();
                            self.cut_log.push(format!("{} bb{}: {}", n, s.header, m));
                        }
                    }
                }
                Err(Bail::Cut(c))
            }
            Err(e) => Err(e),
        }
    }
    fn run_inner(&mut self, mut st: State, mut bb: u32, stops: &[u32], outs: &mut Vec<(State, Exit)>, snaps: &mut Vec<Snap>) -> Res<()> {
        let f = st.top().f;
        let p = self.p;
        let body: &'p ir::Body = p.funcs[f as usize].body.as_ref().unwrap();
        let info = self.info(f);
        let d = st.frames.len();
        loop {
            if self.sym_mode {
                while let Some(s) = snaps.last() {
                    if info.loops[s.header as usize].as_ref().unwrap()[bb as usize] {
                        break;
                    }
                    snaps.pop();
                }
                if info.loops[bb as usize].is_some() {
                    let visits = match snaps.last() {
                        Some(s) if s.header == bb => snaps.pop().unwrap().visits + 1,
                        _ => 0,
                    };
                    let mut s2 = st.clone();
                    self.prune(&mut s2, Some(bb));
                    snaps.push(Snap { header: bb, st: s2, outs: outs.len(), obls: self.obls.len(), visits });
                }
            }
            let blk = &body.blocks[bb as usize];
            let cost = blk.stmts.len() as u64 + 1;
            self.steps += cost;
            if self.steps > self.fuel || self.cx.terms.len() > self.max_terms {
                return Err(Bail::Fuel);
            }
            self.tick += 1;
            if self.tick & 1023 == 0 && (MEM_HIGH.load(std::sync::atomic::Ordering::Relaxed) || self.deadline.is_some_and(|d| std::time::Instant::now() > d)) {
                return Err(Bail::Fuel);
            }
            for s in &blk.stmts {
                match s {
                    ir::Stmt::Assign(p, r, sp) => {
                        self.sites[d - 1] = *sp;
                        self.cx.cur_span = *sp;
                        let v = self.rvalue(&mut st, body, p, r)?;
                        self.write_place(&mut st, p, v)?;
                    }
                    ir::Stmt::Dead(l) | ir::Stmt::Live(l) => {
                        let x = &mut st.frames.last_mut().unwrap().locals;
                        if !matches!(x[*l as usize], V::U) {
                            Rc::make_mut(x)[*l as usize] = V::U;
                        }
                    }
                    ir::Stmt::SetDiscr(p, v) => {
                        let q = self.place_ptr(&st, p)?;
                        let m = self.get_mut(&mut st, &q)?;
                        let f = match m {
                            V::E(_, f) | V::A(f) => f.clone(),
                            _ => Rc::new(vec![]),
                        };
                        *m = V::E(*v, f);
                    }
                    ir::Stmt::CopyNonOverlapping(..) => return unsup("copy_nonoverlapping"),
                    ir::Stmt::Nop() => {}
                }
            }
            let next = match &blk.term {
                ir::Term::Goto(b) => *b,
                ir::Term::Drop(_, t, b) => {
                    let n = &self.p.type_names[*t as usize];
                    if n.contains("ExtractIf") || n.contains("PeekMut") || n.contains("MutexGuard") {
                        return unsup(format!("drop of {n}"));
                    }
                    *b
                }
                ir::Term::Return() => {
                    outs.push((st, Exit::Ret));
                    return Ok(());
                }
                ir::Term::Unreachable() => {
                    // only reachable on infeasible paths
                    return Ok(());
                }
                ir::Term::Abort(s) => return unsup(format!("abort {s}")),
                ir::Term::Assert(o, expected, msg, b, sp) => {
                    self.sites[d - 1] = *sp;
                    let v = self.operand(&mut st, o)?;
                    let c = self.scalar(&v)?;
                    match self.decide(&st, c)? {
                        Some(x) if x == *expected => {}
                        Some(_) => {
                            let pi = self.panic(&st, msg);
                            outs.push((st, Exit::Panic(pi)));
                            return Ok(());
                        }
                        None => {
                            let mut bad = st.clone();
                            self.assume(&mut bad, c, !*expected);
                            if !(self.no_join && self.infeasible(&bad)) {
                                let pi = self.panic(&st, msg);
                                outs.push((bad, Exit::Panic(pi)));
                            }
                            self.assume(&mut st, c, *expected);
                            if self.no_join && self.rewrite(&mut st, None, &[]).is_none() {
                                return Ok(());
                            }
                        }
                    }
                    *b
                }
                ir::Term::Call(callee, ops, dest, target, sp) => {
                    self.sites[d - 1] = *sp;
                    self.cx.cur_span = *sp;
                    let mut args = Vec::with_capacity(ops.len());
                    for o in ops {
                        args.push(self.operand(&mut st, o)?);
                    }
                    let fid = match callee {
                        ir::Callee::Func(f) => *f,
                        ir::Callee::Op(o) => match self.operand(&mut st, o)? {
                            V::F(f) => {
                                // a closure without captures behind a function pointer
                                if self.func(f).is_closure {
                                    args.insert(0, V::U);
                                }
                                f
                            }
                            _ => return unsup("indirect call"),
                        },
                    };
                    if target.is_none() {
                        // diverging call: a panic
                        let n = self.func(fid).name.clone();
                        let pi = self.panic(&st, &n);
                        outs.push((st, Exit::Panic(pi)));
                        return Ok(());
                    }
                    let tb = target.unwrap();
                    st.frames.last_mut().unwrap().resume = tb;
                    let base = State { frames: vec![], heap: Default::default(), env: st.env.clone(), bnd: st.bnd.clone(), vals: st.vals.clone(), pcs: st.pcs.clone() };
                    let r = self.call(st, fid, args)?;
                    self.sites.truncate(d);
                    self.sites[d - 1] = *sp;
                    let mut vals = vec![];
                    for (s, o) in r {
                        match o {
                            Out::Val(v) => vals.push((s, v)),
                            Out::Panic(p) => outs.push((s, Exit::Panic(p))),
                        }
                    }
                    if vals.len() > 1 {
                        for v in vals.iter_mut() {
                            self.prune(&mut v.0, Some(tb));
                        }
                        vals = self.merge_list(&base, vals);
                    }
                    if vals.is_empty() {
                        return Ok(());
                    }
                    if vals.len() == 1 {
                        let (s, v) = vals.pop().unwrap();
                        st = s;
                        self.write_place(&mut st, dest, v)?;
                        tb
                    } else {
                        for (mut s, v) in vals {
                            self.write_place(&mut s, dest, v)?;
                            if stops.contains(&tb) {
                                outs.push((s, Exit::Stop(tb)));
                            } else {
                                let r = self.run(s, tb, stops)?;
                                outs.extend(r);
                            }
                        }
                        return Ok(());
                    }
                }
                ir::Term::Switch(o, t, arms, other) => {
                    let v = self.operand(&mut st, o)?;
                    let x = self.scalar(&v)?;
                    let w = self.cx.w(x);
                    let _ = t;
                    if let Some(c) = self.cx.cv(x) {
                        arms.iter().find(|a| a.0 & mask(w) == c).map(|a| a.1).unwrap_or(*other)
                    } else {
                        let apart = self.no_join;
                        // a branch that only selects a value: the value is joined even where paths are kept apart
                        if info.pick[bb as usize] {
                            self.no_join = false;
                        }
                        let r = self.fork(st, bb, x, arms, *other, stops, outs, &info, body, apart);
                        self.no_join = apart;
                        match r? {
                            Some((s, b)) => {
                                st = s;
                                b
                            }
                            None => return Ok(()),
                        }
                    }
                }
            };
            if stops.contains(&next) {
                outs.push((st, Exit::Stop(next)));
                return Ok(());
            }
            bb = next;
        }
    }
    fn fork(&mut self, st: State, bb: u32, x: T, arms: &[(u128, u32)], other: u32, stops: &[u32], outs: &mut Vec<(State, Exit)>, info: &Rc<BodyInfo>, body: &'p ir::Body, apart: bool) -> Res<Option<(State, u32)>> {
        let w = self.cx.w(x);
        let mut cases: Vec<(State, u32)> = vec![];
        let mut rest = Some(st.clone());
        for (v, b) in arms {
            let Some(r) = rest.as_mut() else { break };
            let c = self.cx.c(w, *v);
            let e = self.cx.eq(x, c);
            match self.decide(r, e)? {
                Some(true) => {
                    let s = rest.take().unwrap();
                    cases.push((s, *b));
                }
                Some(false) => {}
                None => {
                    let mut s = r.clone();
                    self.assume(&mut s, e, true);
                    cases.push((s, *b));
                    self.assume(r, e, false);
                }
            }
        }
        if let Some(r) = rest {
            if !matches!(body.blocks[other as usize].term, ir::Term::Unreachable()) {
                // all values enumerated?
                let (lo, hi) = self.cx.range_b(x, Some(&r.bnd));
                let covered = hi - lo < 512 && (lo..=hi).all(|v| arms.iter().any(|a| a.0 & mask(w) == v));
                if !covered {
                    cases.push((r, other));
                }
            }
        }
        if self.no_join {
            let n = self.pinned(&st);
            let mut v = vec![];
            for (mut s, b) in cases {
                if self.pinned(&s) == n || self.rewrite(&mut s, None, &[]).is_some() {
                    v.push((s, b));
                }
            }
            cases = v;
            if cases.is_empty() {
                return Ok(None);
            }
        }
        if cases.len() == 1 {
            let (s, b) = cases.pop().unwrap();
            return Ok(Some((s, b)));
        }
        let ip = info.ipdom[bb as usize];
        let mut inner = stops.to_vec();
        if let Some(j) = ip {
            inner.push(j);
        }
        // traces that stay in a loop some other traces leave are joined where the next iteration begins
        let mut head: Option<(u32, usize)> = None;
        for (h, l) in info.loops.iter().enumerate() {
            if let Some(l) = l {
                let n = l.iter().filter(|x| **x).count();
                if l[bb as usize] && !ip.is_some_and(|j| l[j as usize]) && !stops.contains(&(h as u32)) && head.is_none_or(|x| n < x.1) {
                    head = Some((h as u32, n));
                }
            }
        }
        let head = if self.no_join { None } else { head.map(|x| x.0) };
        if let Some(h) = head {
            inner.push(h);
        }
        let mut at_head: Vec<(State, V)> = vec![];
        let mut at_join: Vec<(State, V)> = vec![];
        for (s, b) in cases {
            if inner.contains(&b) {
                if Some(b) == ip {
                    at_join.push((s, V::U));
                } else if Some(b) == head {
                    at_head.push((s, V::U));
                } else {
                    outs.push((s, Exit::Stop(b)));
                }
                continue;
            }
            for (s, e) in self.run(s, b, &inner)? {
                match e {
                    Exit::Stop(j) if Some(j) == ip && (stops.is_empty() || !stops.contains(&j)) => at_join.push((s, V::U)),
                    Exit::Stop(j) if Some(j) == head => at_head.push((s, V::U)),
                    e => outs.push((s, e)),
                }
            }
        }
        if let Some(h) = head {
            inner.pop();
            if at_head.len() > 1 {
                for v in at_head.iter_mut() {
                    self.prune(&mut v.0, Some(h));
                }
                at_head = self.merge_list(&st, at_head);
            }
            for (s, _) in at_head {
                for (s, e) in self.run(s, h, &inner)? {
                    match e {
                        Exit::Stop(j) if Some(j) == ip && !stops.contains(&j) => at_join.push((s, V::U)),
                        e => outs.push((s, e)),
                    }
                }
            }
        }
        let Some(j) = ip else { return Ok(None) };
        if stops.contains(&j) {
            // the caller joins
            for (s, _) in at_join {
                outs.push((s, Exit::Stop(j)));
            }
            return Ok(None);
        }
        if at_join.len() > 1 {
            for v in at_join.iter_mut() {
                self.prune(&mut v.0, Some(j));
            }
            at_join = self.merge_list(&st, at_join);
        }
        self.no_join = apart;
        if at_join.is_empty() {
            return Ok(None);
        }
        if at_join.len() == 1 {
            let (s, _) = at_join.pop().unwrap();
            return Ok(Some((s, j)));
        }
        if at_join.len() + outs.len() > if self.no_join { 30000 } else { 3000 } {
            return unsup("too many traces");
        }
        for (s, _) in at_join {
            let r = self.run(s, j, stops)?;
            outs.extend(r);
        }
        Ok(None)
    }
    pub fn write_place(&mut self, st: &mut State, p: &ir::Place, v: V) -> Res<()> {
        if p.proj.is_empty() {
            Rc::make_mut(&mut st.frames.last_mut().unwrap().locals)[p.local as usize] = v;
            return Ok(());
        }
        let q = self.place_ptr(st, p)?;
        self.store(st, &q, v)
    }

    // ---------- rvalues ----------
    fn rvalue(&mut self, st: &mut State, body: &'p ir::Body, dest: &ir::Place, r: &'p ir::Rvalue) -> Res<V> {
        use ir::Rvalue as R;
        Ok(match r {
            R::Use(o) => self.operand(st, o)?,
            R::Repeat(o, n) => {
                let v = self.operand(st, o)?;
                if *n > 1 << 20 {
                    return unsup("huge array");
                }
                V::seq(vec![v; *n as usize])
            }
            R::Ref(_, p) | R::AddrOf(p) => {
                let q = self.place_ptr(st, p)?;
                V::ptr(q)
            }
            R::Len(p) => {
                let q = self.place_ptr(st, p)?;
                let (_, n) = self.bounds_of(st, &q)?;
                V::S(n)
            }
            R::Cast(k, o, t) => {
                let src = self.op_ty(body, o);
                let v = self.operand(st, o)?;
                self.cast(st, k, v, src, *t)?
            }
            R::Bin(op, a, b) => {
                let ta = self.op_ty(body, a);
                let (x, y) = (self.operand(st, a)?, self.operand(st, b)?);
                if matches!(x, V::U) || matches!(y, V::U) {
                    return Ok(V::U);
                }
                if let (V::R(p), V::R(q)) = (&x, &y) {
                    let e = if p == q {
                        self.cx.b(true)
                    } else {
                        match (p.path.split_last(), q.path.split_last()) {
                            (Some((Step::I(i), a)), Some((Step::I(j), b))) if p.root == q.root && a == b => {
                                let (i, j) = (*i, *j);
                                self.cx.eq(i, j)
                            }
                            _ if p.root != q.root => self.cx.b(false),
                            _ => return unsup("pointers into different parts"),
                        }
                    };
                    return match op.as_str() {
                        "Eq" => Ok(V::S(e)),
                        "Ne" => Ok(V::S(self.cx.not(e))),
                        _ => unsup(format!("pointer {op}")),
                    };
                }
                if let ("Offset", V::R(p), V::S(n)) = (op.as_str(), &x, &y) {
                    return self.ptr_add(p, *n);
                }
                let signed = self.scal(ta).map(|x| x.1).unwrap_or(false);
                let tb = self.op_ty(body, b);
                let sb = self.scal(tb).map(|x| x.1).unwrap_or(false);
                let (x, y) = (self.scalar(&x)?, self.scalar(&y)?);
                self.binop(op, x, y, signed, sb)?
            }
            R::CheckedBin(op, a, b) => {
                let ta = self.op_ty(body, a);
                let signed = self.scal(ta).map(|x| x.1).unwrap_or(false);
                let (x, y) = (self.operand(st, a)?, self.operand(st, b)?);
                let (x, y) = (self.scalar(&x)?, self.scalar(&y)?);
                let (v, o) = self.checked(op, x, y, signed)?;
                V::tup(vec![V::S(v), V::S(o)])
            }
            R::Un(op, a) => {
                let v = self.operand(st, a)?;
                match op.as_str() {
                    "Not" => {
                        let t = self.scalar(&v)?;
                        V::S(self.cx.not(t))
                    }
                    "Neg" => {
                        let t = self.scalar(&v)?;
                        V::S(self.cx.neg(t))
                    }
                    "PtrMetadata" => match v {
                        V::R(p) => match p.slice {
                            Some((_, n)) => V::S(n),
                            None => {
                                let (_, n) = self.bounds_of(st, &p)?;
                                V::S(n)
                            }
                        },
                        _ => return unsup("metadata"),
                    },
                    o => return unsup(format!("unop {o}")),
                }
            }
            R::Discr(p) => {
                let t = self.place_ty(body, p);
                let dt = self.place_ty(body, dest);
                let w = self.scal(dt).map(|x| x.0).unwrap_or(64);
                let v = self.read_place(st, p)?;
                if let V::U = v {
                    return Ok(V::U);
                }
                self.discr(&v, t, w)?
            }
            R::Aggregate(k, ops) => {
                let mut v = Vec::with_capacity(ops.len());
                for o in ops {
                    v.push(self.operand(st, o)?);
                }
                match k {
                    ir::Agg::Array(_) => V::seq(v),
                    ir::Agg::Tuple() | ir::Agg::Closure(_) => V::tup(v),
                    // a string is its bytes
                    ir::Agg::Adt(t, ..) if v.len() == 1 && matches!(v[0], V::Q(_)) && self.p.type_names[*t as usize] == "std::string::String" => v[0].clone(),
                    ir::Agg::Adt(t, var, uf) => {
                        if uf.is_some() {
                            return unsup("union");
                        }
                        match self.ty(*t) {
                            Ty::Adt(_, 1, ..) => V::E(*var, Rc::new(v)),
                            _ => V::tup(v),
                        }
                    }
                    ir::Agg::RawPtr(_) => {
                        let n = self.scalar(&v[1]);
                        match (&v[0], n) {
                            (V::R(p), Ok(n)) => {
                                let mut q = (**p).clone();
                                match q.path.last() {
                                    Some(Step::I(i)) => {
                                        let i = *i;
                                        q.path.pop();
                                        q.slice = Some((i, n));
                                    }
                                    _ => q.slice = Some((self.cx.us(0), n)),
                                }
                                V::ptr(q)
                            }
                            (V::R(_), Err(_)) => v[0].clone(),
                            _ => return unsup("raw slice"),
                        }
                    }
                    ir::Agg::Other(s) => return unsup(s.clone()),
                }
            }
            R::Other(s) => return unsup(s.clone()),
        })
    }
    /// pointer arithmetic inside one sequence
    pub fn ptr_add(&mut self, p: &Ptr, n: T) -> Res<V> {
        match p.path.last() {
            Some(Step::I(i)) if p.slice.is_none() => {
                let i = self.cx.add(*i, n);
                let mut q = p.clone();
                *q.path.last_mut().unwrap() = Step::I(i);
                Ok(V::ptr(q))
            }
            _ => unsup("pointer arithmetic"),
        }
    }
    pub fn discr(&mut self, v: &V, t: u32, w: u16) -> Res<V> {
        let vs = match self.ty(t) {
            Ty::Adt(_, 1, _, vs) => vs,
            o => return unsup(format!("discriminant of {:?}", o)),
        };
        Ok(match v {
            V::E(i, _) => V::S(self.cx.c(w, vs[*i as usize].discr)),
            V::SE(s) => {
                if vs.iter().enumerate().all(|(i, v)| v.discr == i as u128) {
                    V::S(self.cx.zext(s.disc, w))
                } else {
                    let mut acc = self.cx.c(w, vs[s.alts[0].0 as usize].discr);
                    for (a, _) in s.alts[1..].iter() {
                        let k = self.cx.c(8, *a as u128);
                        let e = self.cx.eq(s.disc, k);
                        let x = self.cx.c(w, vs[*a as usize].discr);
                        acc = self.cx.ite(e, x, acc);
                    }
                    V::S(acc)
                }
            }
            v => return unsup(format!("discriminant of {}", brief(v))),
        })
    }
    pub fn binop(&mut self, op: &str, x: T, y: T, signed: bool, ysigned: bool) -> Res<V> {
        let c = &mut self.cx;
        if c.w(x) != c.w(y) && !op.starts_with("Sh") {
            return unsup(format!("width mismatch in {op}"));
        }
        let amt = |c: &mut Ctx, y: T| -> T {
            let _ = ysigned;
            y.min(u32::MAX).max(c.terms.len() as u32 * 0 + y)
        };
        Ok(V::S(match op {
            "Add" | "AddUnchecked" => c.add(x, y),
            "Sub" | "SubUnchecked" => c.sub(x, y),
            "Mul" | "MulUnchecked" => c.mul(x, y),
            "Div" => {
                if signed {
                    let w = c.w(x);
                    match (c.cv(x), c.cv(y)) {
                        (Some(a), Some(b)) if b != 0 => {
                            let v = to_signed(a, w).wrapping_div(to_signed(b, w));
                            c.c(w, v as u128)
                        }
                        _ => {
                            if c.range(x).1 <= mask(w) >> 1 && c.range(y).1 <= mask(w) >> 1 {
                                c.udiv(x, y)
                            } else {
                                c.app(w, Op::SDiv, vec![x, y])
                            }
                        }
                    }
                } else {
                    c.udiv(x, y)
                }
            }
            "Rem" => {
                if signed {
                    let w = c.w(x);
                    match (c.cv(x), c.cv(y)) {
                        (Some(a), Some(b)) if b != 0 => {
                            let v = to_signed(a, w).wrapping_rem(to_signed(b, w));
                            c.c(w, v as u128)
                        }
                        _ => {
                            if c.range(x).1 <= mask(w) >> 1 && c.range(y).1 <= mask(w) >> 1 {
                                c.urem(x, y)
                            } else {
                                c.app(w, Op::SRem, vec![x, y])
                            }
                        }
                    }
                } else {
                    c.urem(x, y)
                }
            }
            "BitXor" => c.xor(x, y),
            "BitAnd" => c.and(x, y),
            "BitOr" => c.or(x, y),
            "Shl" | "ShlUnchecked" => {
                let y = amt(c, y);
                // without the overflow check the amount is masked
                let w = c.w(x);
                let m = if let Some(k) = c.cv(y) {
                    let yw = c.w(y);
                    c.c(yw, k & (w as u128 - 1))
                } else {
                    y
                };
                c.shl(x, m)
            }
            "Shr" | "ShrUnchecked" => {
                let w = c.w(x);
                let m = if let Some(k) = c.cv(y) {
                    let yw = c.w(y);
                    c.c(yw, k & (w as u128 - 1))
                } else {
                    y
                };
                if signed {
                    c.sar(x, m)
                } else {
                    c.shr(x, m)
                }
            }
            "Eq" => c.eq(x, y),
            "Ne" => c.ne(x, y),
            "Lt" => {
                if signed {
                    c.slt(x, y)
                } else {
                    c.lt(x, y)
                }
            }
            "Gt" => {
                if signed {
                    c.slt(y, x)
                } else {
                    c.lt(y, x)
                }
            }
            "Le" => {
                let g = if signed { c.slt(y, x) } else { c.lt(y, x) };
                c.not(g)
            }
            "Ge" => {
                let g = if signed { c.slt(x, y) } else { c.lt(x, y) };
                c.not(g)
            }
            "Cmp" => {
                let l = if signed { c.slt(x, y) } else { c.lt(x, y) };
                let e = c.eq(x, y);
                return Ok(self.ordering(l, e));
            }
            o => return unsup(format!("binop {o}")),
        }))
    }
    pub fn ordering(&mut self, lt: T, eq: T) -> V {
        // Ordering: variants Less=0, Equal=1, Greater=2
        let (l, e, g) = (self.cx.c(8, 0), self.cx.c(8, 1), self.cx.c(8, 2));
        let x = self.cx.ite(eq, e, g);
        let d = self.cx.ite(lt, l, x);
        if let Some(c) = self.cx.cv(d) {
            return V::E(c as u32, Rc::new(vec![]));
        }
        V::SE(Rc::new(SymEnum { disc: d, alts: (0..3).map(|i| (i, Rc::new(vec![]))).collect() }))
    }
    pub fn checked(&mut self, op: &str, x: T, y: T, signed: bool) -> Res<(T, T)> {
        let c = &mut self.cx;
        let w = c.w(x);
        let f = c.b(false);
        if signed {
            let nw = (w + 1).min(128);
            if op == "Mul" {
                if let (Some(a), Some(b)) = (c.cv(x), c.cv(y)) {
                    if let Some(p) = to_signed(a, w).checked_mul(to_signed(b, w)) {
                        let v = c.c(w, p as u128);
                        let o = to_signed(p as u128 & mask(w), w) != p;
                        let o = c.b(o);
                        return Ok((v, o));
                    }
                }
                return unsup("signed multiplication");
            }
            if w >= 128 {
                if let (Some(a), Some(b)) = (c.cv(x), c.cv(y)) {
                    let (a, b) = (a as i128, b as i128);
                    let (v, o) = match op {
                        "Add" => a.overflowing_add(b),
                        "Sub" => a.overflowing_sub(b),
                        o => return unsup(format!("checked {o}")),
                    };
                    let v = c.c(w, v as u128);
                    let o = c.b(o);
                    return Ok((v, o));
                }
                return unsup("i128");
            }
            let (sx, sy) = (c.sext(x, nw), c.sext(y, nw));
            let (v, s) = match op {
                "Add" => (c.add(x, y), c.add(sx, sy)),
                "Sub" => (c.sub(x, y), c.sub(sx, sy)),
                o => return unsup(format!("checked {o}")),
            };
            let b = c.bits(s);
            let p = c.pxor(b[w as usize], b[w as usize - 1]);
            return Ok((v, c.mk_bits(vec![p])));
        }
        Ok(match op {
            "Add" => {
                let v = c.add(x, y);
                let (xh, yh) = (c.range(x).1, c.range(y).1);
                let o = if xh.checked_add(yh).map(|s| s <= mask(w)).unwrap_or(false) {
                    f
                } else if w < 128 {
                    if let K::Sum(..) = c.k(v) {
                        // range analysis of the combined sum
                        let _ = v;
                    }
                    let (zx, zy) = (c.zext(x, w + 1), c.zext(y, w + 1));
                    let s = c.add(zx, zy);
                    let m = c.c(w + 1, mask(w));
                    let r = c.range(s);
                    if r.1 <= mask(w) {
                        f
                    } else {
                        c.lt(m, s)
                    }
                } else {
                    c.lt(v, x)
                };
                (v, o)
            }
            "Sub" => (c.sub(x, y), c.lt(x, y)),
            "Mul" => {
                let v = c.mul(x, y);
                let (xh, yh) = (c.range(x).1, c.range(y).1);
                let o = if xh.checked_mul(yh).map(|s| s <= mask(w)).unwrap_or(false) {
                    f
                } else if w <= 64 {
                    let (zx, zy) = (c.zext(x, 2 * w), c.zext(y, 2 * w));
                    let p = c.mul(zx, zy);
                    let m = c.c(2 * w, mask(w));
                    c.lt(m, p)
                } else if let (Some(a), Some(b)) = (c.cv(x), c.cv(y)) {
                    let o = a.checked_mul(b).is_none();
                    c.b(o)
                } else {
                    let n = c.name("mul128_overflow");
                    let (a, b) = if x <= y { (x, y) } else { (y, x) };
                    c.app(1, Op::Uf(n), vec![a, b])
                };
                (v, o)
            }
            "Shl" | "Shr" => {
                let v = match self.binop(op, x, y, false, false)? {
                    V::S(t) => t,
                    _ => unreachable!(),
                };
                let yw = self.cx.w(y);
                let k = self.cx.c(yw, w as u128);
                let l = self.cx.lt(y, k);
                (v, self.cx.not(l))
            }
            o => return unsup(format!("checked {o}")),
        })
    }
    pub fn cast(&mut self, st: &State, k: &str, v: V, src: u32, dst: u32) -> Res<V> {
        if k.contains("IntToInt") {
            // enums may be cast directly
            if let V::E(..) | V::SE(_) = v {
                let (w, _) = self.scal(dst).unwrap();
                return self.discr(&v, src, w);
            }
            let t = self.scalar(&v)?;
            let (_, s) = self.scal(src).unwrap_or((64, false));
            let Some((w, _)) = self.scal(dst) else { return unsup("cast target") };
            return Ok(V::S(if s { self.cx.sext(t, w) } else { self.cx.zext(t, w) }));
        }
        if k.contains("Unsize") {
            let n = self.unsize_len(src);
            return match v {
                V::R(p) => {
                    let mut q = (*p).clone();
                    if q.slice.is_none() {
                        if let Some(n) = n {
                            q.slice = Some((self.cx.us(0), self.cx.us(n as u128)));
                        }
                    }
                    Ok(V::ptr(q))
                }
                v => unsup(format!("unsize {}", brief(&v))),
            };
        }
        if k.contains("Reify") || k.contains("ClosureFnPointer") {
            if let Ty::FnDef(Some(f), _) = self.ty(src) {
                return Ok(V::F(*f));
            }
            return unsup(format!("reify {:?}", self.ty(src)));
        }
        if k.contains("PtrToPtr") || k.contains("MutToConst") || k.contains("UnsafeFn") {
            if let (V::R(p), Ty::RawPtr(t, _)) = (&v, self.ty(dst)) {
                // slice pointer to element pointer
                if p.slice.is_some() && !matches!(self.ty(*t), Ty::Slice(_) | Ty::Str() | Ty::Array(..)) {
                    let (o, _) = p.slice.unwrap();
                    return Ok(V::ptr(p.with(Step::I(o))));
                }
            }
            return Ok(v);
        }
        if k.contains("ArrayToPointer") {
            return match v {
                V::R(p) => {
                    let z = self.cx.us(0);
                    Ok(V::ptr(p.with(Step::I(z))))
                }
                _ => unsup("array to pointer"),
            };
        }
        if k.contains("Transmute") {
            return self.transmute(st, v, src, dst);
        }
        unsup(format!("cast {k}"))
    }
    pub fn transmute(&mut self, st: &State, v: V, src: u32, dst: u32) -> Res<V> {
        if src == dst {
            return Ok(v);
        }
        match (&v, self.ty(dst)) {
            (V::S(t), _) if self.scal(dst).is_some() => {
                let (w, _) = self.scal(dst).unwrap();
                if w == self.cx.w(*t) {
                    return Ok(v);
                }
                if w == 1 {
                    return Ok(V::S(self.cx.trunc(*t, 1)));
                }
                if self.cx.w(*t) == 1 && w == 8 {
                    return Ok(V::S(self.cx.zext(*t, 8)));
                }
                unsup("transmute width")
            }
            (V::R(_), Ty::Ref(..) | Ty::RawPtr(..)) => Ok(v),
            (V::R(_), Ty::Adt(n, ..)) if n.contains("NonNull") || n.contains("Unique") || n.contains("Box") => Ok(v),
            (V::Q(q), _) if self.scal(dst).is_some() => {
                let (w, _) = self.scal(dst).unwrap();
                let n = self.seq_len(q);
                let z = self.cx.us(0);
                let e = self.elems(st, q, z, n)?;
                let t = self.join_le(&e)?;
                if self.cx.w(t) == w {
                    Ok(V::S(t))
                } else {
                    unsup("transmute array width")
                }
            }
            (V::S(t), Ty::Array(e, n)) => {
                let (ew, _) = match self.scal(*e) {
                    Some(x) => x,
                    None => return unsup("transmute"),
                };
                let mut r = vec![];
                for i in 0..*n {
                    let s = self.cx.shr_c(*t, (i as u32) * ew as u32);
                    r.push(V::S(self.cx.trunc(s, ew)));
                }
                Ok(V::seq(r))
            }
            (V::Q(q), Ty::Array(e, n)) => {
                let l = self.seq_len(q);
                if self.cx.cv(l) == Some(*n as u128) {
                    // element types of the same size (e.g. MaybeUninit<T>)
                    let _ = e;
                    return Ok(v);
                }
                unsup("array transmute")
            }
            (V::S(t), _) if self.p.type_names[dst as usize].starts_with("std::option::Option<std::num::NonZero<") => {
                let z0 = self.cx.c(self.cx.w(*t), 0);
                let z = self.cx.eq(*t, z0);
                match self.try_decide(st, z) {
                    Some(true) => Ok(V::none()),
                    Some(false) => Ok(V::some(v)),
                    None => Err(Bail::Need(z)),
                }
            }
            _ => unsup(format!("transmute {} -> {}", self.p.type_names[src as usize], self.p.type_names[dst as usize])),
        }
    }
    /// little-endian concatenation of scalar elements
    pub fn join_le(&mut self, e: &[V]) -> Res<T> {
        let mut bits = vec![];
        let mut val = Some(0u128);
        let mut sh = 0;
        for v in e {
            let t = self.scalar(v)?;
            let w = self.cx.w(t);
            match (val, self.cx.cv(t)) {
                (Some(a), Some(c)) if sh < 128 => val = Some(a | c << sh),
                _ => val = None,
            }
            sh += w;
            bits.push(t);
        }
        if sh > 128 {
            return unsup("wide join");
        }
        if let Some(v) = val {
            return Ok(self.cx.c(sh, v));
        }
        let mut ps = vec![];
        for t in bits {
            ps.extend(self.cx.bits(t).iter().copied());
        }
        Ok(self.cx.mk_bits(ps))
    }
    fn unsize_len(&self, t: u32) -> Option<u64> {
        match self.ty(t) {
            Ty::Ref(x, _) | Ty::RawPtr(x, _) => match self.ty(*x) {
                Ty::Array(_, n) => Some(*n),
                _ => None,
            },
            Ty::Adt(_, _, a, vs) => {
                for g in a {
                    if let ir::GArg::Ty(x) = g {
                        if let Ty::Array(_, n) = self.ty(*x) {
                            return Some(*n);
                        }
                    }
                }
                let _ = vs;
                None
            }
            _ => None,
        }
    }
    /// fork on a boolean; returns (state where true, state where false)
    pub fn split(&mut self, st: &State, c: T) -> Res<(Option<State>, Option<State>)> {
        Ok(match self.decide(st, c)? {
            Some(true) => (Some(st.clone()), None),
            Some(false) => (None, Some(st.clone())),
            None => {
                let (mut a, mut b) = (st.clone(), st.clone());
                self.assume(&mut a, c, true);
                self.assume(&mut b, c, false);
                (Some(a), Some(b))
            }
        })
    }
}

pub fn brief(v: &V) -> String {
    match v {
        V::U => "uninit".into(),
        V::S(t) => format!("scalar#{t}"),
        V::A(f) => format!("struct[{}]", f.iter().map(brief).collect::<Vec<_>>().join(",")),
        V::E(i, f) => format!("variant{}[{}]", i, f.iter().map(brief).collect::<Vec<_>>().join(",")),
        V::SE(_) => "symenum".into(),
        V::Q(q) => match &**q {
            Seq::E(v) => format!("seq({})", v.len()),
            Seq::T(_, n) => format!("arr({n})"),
            Seq::G(_) => "symseq".into(),
        },
        V::R(p) => format!("ref{:?}{:?}{:?}", match &p.root { Root::Loc(a, b) => format!("L{a}.{b}"), Root::Heap(i) => format!("H{i}"), Root::Const(_) => "C".into() }, p.path, p.slice),
        V::I(_) => "iter".into(),
        V::F(f) => format!("fn{f}"),
    }
}

//! Abstract values, memory and per-body control-flow facts.
use crate::ir;
use crate::term::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    U,
    S(T),
    A(Rc<Vec<V>>),
    E(u32, Rc<Vec<V>>),
    SE(Rc<SymEnum>),
    Q(Rc<Seq>),
    R(Rc<Ptr>),
    I(Rc<It>),
    F(u32),
}

#[derive(Clone, Debug)]
pub struct SymEnum {
    pub disc: T, // variant index, 8 bits
    pub alts: Vec<(u32, Rc<Vec<V>>)>,
}

#[derive(Clone, Debug)]
pub enum Seq {
    E(Vec<V>),
    T(T, usize),
    G(Vec<Seg>),
}

#[derive(Clone, Debug)]
pub enum Seg {
    E(Vec<V>),
    In { seq: u32, start: T, len: T },
    Loop { k: T, count: T, body: Vec<V> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Root {
    Loc(u32, u32), // frame depth, local
    Heap(u32),
    Const(Hidden),
}
/// constant memory, compared by content address
#[derive(Clone, Debug)]
pub struct Hidden(pub Rc<V>);
impl PartialEq for Hidden {
    fn eq(&self, o: &Self) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    F(u32),
    D(u32),
    I(T),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ptr {
    pub root: Root,
    pub path: Vec<Step>,
    pub slice: Option<(T, T)>, // offset, length
}

#[derive(Clone, Debug)]
pub enum It {
    /// slice::Iter / IterMut: pointer to the sequence, [off, end)
    Slice { base: Ptr, off: T, end: T },
    /// chunks: pointer, [off,end), chunk size, exact?, remainder end
    Chunks { base: Ptr, off: T, end: T, n: T, exact: bool, total_end: T },
    Windows { base: Ptr, off: T, end: T, n: T },
    /// owned elements
    Vals { q: Rc<Seq>, off: T, end: T },
}

impl V {
    pub fn unit() -> V {
        V::A(Rc::new(vec![]))
    }
    pub fn tup(v: Vec<V>) -> V {
        V::A(Rc::new(v))
    }
    pub fn none() -> V {
        V::E(0, Rc::new(vec![]))
    }
    pub fn some(v: V) -> V {
        V::E(1, Rc::new(vec![v]))
    }
    pub fn ok(v: V) -> V {
        V::E(0, Rc::new(vec![v]))
    }
    pub fn err(v: V) -> V {
        V::E(1, Rc::new(vec![v]))
    }
    pub fn seq(v: Vec<V>) -> V {
        V::Q(Rc::new(Seq::E(v)))
    }
    pub fn ptr(p: Ptr) -> V {
        V::R(Rc::new(p))
    }
}

impl Ptr {
    pub fn konst(v: V) -> Ptr {
        Ptr { root: Root::Const(Hidden(Rc::new(v))), path: vec![], slice: None }
    }
    pub fn with(&self, s: Step) -> Ptr {
        let mut p = self.clone();
        p.slice = None;
        p.path.push(s);
        p
    }
    pub fn unsliced(&self) -> Ptr {
        let mut p = self.clone();
        p.slice = None;
        p
    }
}

pub struct BodyInfo {
    pub ipdom: Vec<Option<u32>>,       // None = function exit
    pub loops: Vec<Option<Vec<bool>>>, // header -> member blocks
    pub live_in: Vec<Vec<bool>>,       // per block, per local
    pub pick: Vec<bool>,               // branch that only selects scalar values
}

/// blocks between a branch and its join that do nothing but set locals to plain values
fn selection(b: &ir::Body, sc: &[Vec<u32>], bb: u32, j: u32) -> bool {
    fn plain(o: &ir::Operand) -> bool {
        match o {
            ir::Operand::Copy(p) | ir::Operand::Move(p) => p.proj.is_empty(),
            ir::Operand::Const(..) => true,
            _ => false,
        }
    }
    let mut seen: Vec<u32> = vec![];
    let mut work = sc[bb as usize].clone();
    let mut set: Vec<u32> = vec![];
    while let Some(x) = work.pop() {
        if x == j || seen.contains(&x) {
            continue;
        }
        if x == bb || seen.len() > 7 {
            return false;
        }
        seen.push(x);
        let k = &b.blocks[x as usize];
        for s in &k.stmts {
            match s {
                ir::Stmt::Assign(p, r, _) if p.proj.is_empty() => {
                    let ok = match r {
                        ir::Rvalue::Use(o) | ir::Rvalue::Cast(_, o, _) | ir::Rvalue::Un(_, o) => plain(o),
                        ir::Rvalue::Bin(_, x, y) => plain(x) && plain(y),
                        _ => false,
                    };
                    if !ok {
                        return false;
                    }
                    set.push(p.local);
                }
                ir::Stmt::Live(_) | ir::Stmt::Dead(_) | ir::Stmt::Nop() => {}
                _ => return false,
            }
        }
        match &k.term {
            ir::Term::Goto(_) | ir::Term::Switch(..) => work.extend(sc[x as usize].iter()),
            _ => return false,
        }
    }
    // a value the next branch looks at is better kept apart
    let mut k = &b.blocks[j as usize];
    for _ in 0..4 {
        for s in &k.stmts {
            if let ir::Stmt::Assign(p, ir::Rvalue::Use(o) | ir::Rvalue::Un(_, o), _) = s {
                let mut hit = false;
                use_op(o, &mut |l| hit |= set.contains(&l));
                if hit && p.proj.is_empty() {
                    set.push(p.local);
                }
            }
        }
        match &k.term {
            ir::Term::Goto(b2) => k = &b.blocks[*b2 as usize],
            ir::Term::Switch(o, ..) => {
                let mut hit = false;
                use_op(o, &mut |l| hit |= set.contains(&l));
                return !hit && !seen.is_empty();
            }
            _ => break,
        }
    }
    !seen.is_empty()
}

fn succs(t: &ir::Term) -> Vec<u32> {
    match t {
        ir::Term::Goto(b) => vec![*b],
        ir::Term::Switch(_, _, arms, o) => {
            let mut v: Vec<u32> = arms.iter().map(|a| a.1).collect();
            v.push(*o);
            v.sort_unstable();
            v.dedup();
            v
        }
        ir::Term::Drop(_, _, b) => vec![*b],
        ir::Term::Call(_, _, _, b, _) => b.iter().copied().collect(),
        ir::Term::Assert(_, _, _, b, _) => vec![*b],
        _ => vec![],
    }
}

fn use_place(p: &ir::Place, f: &mut dyn FnMut(u32)) {
    f(p.local);
    for x in &p.proj {
        if let ir::Proj::Index(l) = x {
            f(*l)
        }
    }
}
fn use_op(o: &ir::Operand, f: &mut dyn FnMut(u32)) {
    if let ir::Operand::Copy(p) | ir::Operand::Move(p) = o {
        use_place(p, f)
    }
}
fn use_rv(r: &ir::Rvalue, f: &mut dyn FnMut(u32)) {
    use ir::Rvalue::*;
    match r {
        Use(o) | Repeat(o, _) | Cast(_, o, _) | Un(_, o) => use_op(o, f),
        Ref(_, p) | AddrOf(p) | Len(p) | Discr(p) => use_place(p, f),
        Bin(_, a, b) | CheckedBin(_, a, b) => {
            use_op(a, f);
            use_op(b, f)
        }
        Aggregate(_, v) => v.iter().for_each(|o| use_op(o, f)),
        Other(_) => {}
    }
}

impl BodyInfo {
    pub fn new(b: &ir::Body) -> BodyInfo {
        let n = b.blocks.len();
        let nl = b.locals.len();
        let sc: Vec<Vec<u32>> = b.blocks.iter().map(|x| succs(&x.term)).collect();
        // blocks that can reach a return
        let mut reach = vec![false; n];
        let mut preds = vec![vec![]; n];
        for (i, s) in sc.iter().enumerate() {
            for x in s {
                preds[*x as usize].push(i as u32);
            }
        }
        let mut st: Vec<u32> = (0..n as u32).filter(|i| matches!(b.blocks[*i as usize].term, ir::Term::Return())).collect();
        while let Some(x) = st.pop() {
            if !reach[x as usize] {
                reach[x as usize] = true;
                st.extend(preds[x as usize].iter());
            }
        }
        // post-dominators by iteration over sets (bodies are small); node n = exit
        let words = (n + 1 + 63) / 64;
        let full = vec![u64::MAX; words];
        let mut pd: Vec<Vec<u64>> = vec![full; n + 1];
        let mut e = vec![0u64; words];
        e[n / 64] |= 1 << (n % 64);
        pd[n] = e;
        // order: postorder-ish from exits (reverse index order is good enough)
        let mut order: Vec<u32> = vec![];
        {
            let mut seen = vec![false; n];
            let mut stack = vec![(0u32, 0usize)];
            if n > 0 {
                seen[0] = true;
            }
            while let Some((x, i)) = stack.pop() {
                if i < sc[x as usize].len() {
                    stack.push((x, i + 1));
                    let y = sc[x as usize][i];
                    if !seen[y as usize] {
                        seen[y as usize] = true;
                        stack.push((y, 0));
                    }
                } else {
                    order.push(x);
                }
            }
        }
        loop {
            let mut ch = false;
            for &x in &order {
                let x = x as usize;
                if !reach[x] {
                    continue;
                }
                let mut s = vec![u64::MAX; words];
                if matches!(b.blocks[x].term, ir::Term::Return()) {
                    s.clone_from(&pd[n]);
                } else {
                    for y in &sc[x] {
                        if reach[*y as usize] {
                            for (a, c) in s.iter_mut().zip(pd[*y as usize].iter()) {
                                *a &= *c;
                            }
                        }
                    }
                }
                s[x / 64] |= 1 << (x % 64);
                if s != pd[x] {
                    pd[x] = s;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let cnt = |v: &Vec<u64>| v.iter().map(|x| x.count_ones()).sum::<u32>();
        let mut ipdom = vec![None; n];
        for x in 0..n {
            if !reach[x] {
                continue;
            }
            // immediate: the strict post-dominator with the largest set
            let mut best: Option<(u32, usize)> = None;
            for y in 0..=n {
                if y != x && pd[x][y / 64] >> (y % 64) & 1 == 1 {
                    let c = cnt(&pd[y]);
                    if best.map(|b| c > b.0).unwrap_or(true) {
                        best = Some((c, y));
                    }
                }
            }
            ipdom[x] = best.and_then(|(_, y)| if y == n { None } else { Some(y as u32) });
        }
        // natural loops
        let mut loops: Vec<Option<Vec<bool>>> = vec![None; n];
        {
            let mut state = vec![0u8; n];
            let mut stack: Vec<(u32, usize)> = vec![(0, 0)];
            if n > 0 {
                state[0] = 1;
            }
            let mut back = vec![];
            while let Some((x, i)) = stack.pop() {
                if i < sc[x as usize].len() {
                    stack.push((x, i + 1));
                    let y = sc[x as usize][i];
                    if state[y as usize] == 1 {
                        back.push((x, y));
                    } else if state[y as usize] == 0 {
                        state[y as usize] = 1;
                        stack.push((y, 0));
                    }
                } else {
                    state[x as usize] = 2;
                }
            }
            for (s, h) in back {
                let m = loops[h as usize].get_or_insert_with(|| vec![false; n]);
                m[h as usize] = true;
                let mut st = vec![s];
                while let Some(x) = st.pop() {
                    if !m[x as usize] {
                        m[x as usize] = true;
                        st.extend(preds[x as usize].iter());
                    }
                }
            }
        }
        // liveness; borrowed locals stay live (conservatively) everywhere
        let mut borrowed = vec![false; nl];
        for bb in &b.blocks {
            for s in &bb.stmts {
                if let ir::Stmt::Assign(_, ir::Rvalue::Ref(_, p) | ir::Rvalue::AddrOf(p), _) = s {
                    if !p.proj.iter().any(|x| matches!(x, ir::Proj::Deref())) {
                        borrowed[p.local as usize] = true;
                    }
                }
            }
        }
        let mut live_in = vec![vec![false; nl]; n];
        loop {
            let mut ch = false;
            for &x in &order {
                let x = x as usize;
                let mut l = vec![false; nl];
                for y in &sc[x] {
                    for (a, c) in l.iter_mut().zip(live_in[*y as usize].iter()) {
                        *a |= *c;
                    }
                }
                let bb = &b.blocks[x];
                match &bb.term {
                    ir::Term::Switch(o, ..) | ir::Term::Assert(o, ..) => use_op(o, &mut |u| l[u as usize] = true),
                    ir::Term::Return() => l[0] = true,
                    ir::Term::Call(f, args, d, _, _) => {
                        if d.proj.is_empty() {
                            l[d.local as usize] = false;
                        } else {
                            use_place(d, &mut |u| l[u as usize] = true);
                        }
                        for a in args {
                            use_op(a, &mut |u| l[u as usize] = true);
                        }
                        if let ir::Callee::Op(o) = f {
                            use_op(o, &mut |u| l[u as usize] = true);
                        }
                    }
                    _ => {}
                }
                for s in bb.stmts.iter().rev() {
                    match s {
                        ir::Stmt::Assign(p, r, _) => {
                            if p.proj.is_empty() {
                                l[p.local as usize] = false;
                            } else {
                                use_place(p, &mut |u| l[u as usize] = true);
                            }
                            use_rv(r, &mut |u| l[u as usize] = true);
                        }
                        ir::Stmt::SetDiscr(p, _) => use_place(p, &mut |u| l[u as usize] = true),
                        ir::Stmt::CopyNonOverlapping(a, c, d) => {
                            for o in [a, c, d] {
                                use_op(o, &mut |u| l[u as usize] = true);
                            }
                        }
                        _ => {}
                    }
                }
                if l != live_in[x] {
                    live_in[x] = l;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for l in live_in.iter_mut() {
            for i in 0..nl {
                if borrowed[i] {
                    l[i] = true;
                }
            }
        }
        let pick = (0..n as u32)
            .map(|x| match (&b.blocks[x as usize].term, ipdom[x as usize]) {
                (ir::Term::Switch(..), Some(j)) => selection(b, &sc, x, j),
                _ => false,
            })
            .collect();
        BodyInfo { ipdom, loops, live_in, pick }
    }
}

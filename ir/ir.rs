// Intermediate representation shared by the extraction driver and the analysis engine.
// A dump is the monomorphised MIR of everything reachable from the harness roots.
// Encoding: a tiny hand-written binary codec (no third-party crates are needed).

pub trait Codec: Sized {
    fn enc(&self, o: &mut Vec<u8>);
    fn dec(i: &mut &[u8]) -> Self;
}

fn put(o: &mut Vec<u8>, mut v: u128) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
fn get(i: &mut &[u8]) -> u128 {
    let mut v = 0u128;
    let mut s = 0;
    loop {
        let b = i[0];
        *i = &i[1..];
        v |= ((b & 0x7f) as u128) << s;
        if b & 0x80 == 0 {
            return v;
        }
        s += 7;
    }
}
macro_rules! codec_int { ($($t:ty),*) => { $(impl Codec for $t {
    fn enc(&self, o: &mut Vec<u8>) { put(o, *self as u128) }
    fn dec(i: &mut &[u8]) -> Self { get(i) as $t }
})* } }
codec_int!(u8, u32, u64, usize, u128);
impl Codec for bool {
    fn enc(&self, o: &mut Vec<u8>) { o.push(*self as u8) }
    fn dec(i: &mut &[u8]) -> Self { let b = i[0]; *i = &i[1..]; b != 0 }
}
impl Codec for String {
    fn enc(&self, o: &mut Vec<u8>) { put(o, self.len() as u128); o.extend_from_slice(self.as_bytes()) }
    fn dec(i: &mut &[u8]) -> Self { let n = get(i) as usize; let s = String::from_utf8(i[..n].to_vec()).unwrap(); *i = &i[n..]; s }
}
impl<T: Codec> Codec for Vec<T> {
    fn enc(&self, o: &mut Vec<u8>) { put(o, self.len() as u128); for x in self { x.enc(o) } }
    fn dec(i: &mut &[u8]) -> Self { let n = get(i) as usize; (0..n).map(|_| T::dec(i)).collect() }
}
impl<T: Codec> Codec for Option<T> {
    fn enc(&self, o: &mut Vec<u8>) { match self { None => o.push(0), Some(x) => { o.push(1); x.enc(o) } } }
    fn dec(i: &mut &[u8]) -> Self { let b = i[0]; *i = &i[1..]; if b == 0 { None } else { Some(T::dec(i)) } }
}
impl<T: Codec> Codec for Box<T> {
    fn enc(&self, o: &mut Vec<u8>) { (**self).enc(o) }
    fn dec(i: &mut &[u8]) -> Self { Box::new(T::dec(i)) }
}
impl<A: Codec, B: Codec> Codec for (A, B) {
    fn enc(&self, o: &mut Vec<u8>) { self.0.enc(o); self.1.enc(o) }
    fn dec(i: &mut &[u8]) -> Self { let a = A::dec(i); let b = B::dec(i); (a, b) }
}

macro_rules! ir_struct { ($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* $(,)? }) => {
    #[derive(Clone, Debug, PartialEq)] pub struct $n { $(pub $f: $t),* }
    impl Codec for $n {
        fn enc(&self, o: &mut Vec<u8>) { $(self.$f.enc(o);)* }
        fn dec(i: &mut &[u8]) -> Self { $(let $f = <$t>::dec(i);)* $n { $($f),* } }
    }
} }
macro_rules! ir_enum { ($n:ident { $($k:literal $v:ident ( $($f:ident : $t:ty),* )),* $(,)? }) => {
    #[derive(Clone, Debug, PartialEq)] pub enum $n { $($v($($t),*)),* }
    impl Codec for $n {
        fn enc(&self, o: &mut Vec<u8>) { match self { $($n::$v($($f),*) => { o.push($k); $($f.enc(o);)* })* } }
        fn dec(i: &mut &[u8]) -> Self { let b = i[0]; *i = &i[1..]; match b { $($k => { $(let $f = <$t>::dec(i);)* $n::$v($($f),*) })* _ => panic!("bad tag {b} for {}", stringify!($n)) } }
    }
} }

pub type TyId = u32;
pub type FuncId = u32;

ir_struct!(Variant { name: String, discr: u128, fields: Vec<TyId>, fnames: Vec<String> });
ir_enum!(GArg { 0 Ty(t: TyId), 1 Const(v: u128), 2 Other() });
ir_enum!(Ty {
    0 Int(signed: bool, bits: u32),
    1 Bool(),
    2 Char(),
    3 Float(bits: u32),
    4 Adt(name: String, kind: u8, args: Vec<GArg>, variants: Vec<Variant>), // kind 0 struct 1 enum 2 union
    5 Tuple(f: Vec<TyId>),
    6 Array(t: TyId, n: u64),
    7 Slice(t: TyId),
    8 Str(),
    9 Ref(t: TyId, m: bool),
    10 RawPtr(t: TyId, m: bool),
    11 FnDef(f: Option<FuncId>, name: String),
    12 FnPtr(),
    13 Closure(name: String, upvars: Vec<TyId>),
    14 Never(),
    15 Dyn(name: String),
    16 Other(s: String),
});

ir_enum!(CVal {
    0 Int(v: u128),
    1 Agg(v: Vec<CVal>),
    2 Enum(variant: u32, v: Vec<CVal>),
    3 Ref(v: Box<CVal>),            // reference to anonymous constant memory
    4 Bytes(v: Vec<u8>),            // array/slice/str of u8
    5 Static(id: u32),              // reference to a static
    6 Fn(f: FuncId),
    7 Zst(),
    8 Uninit(),
    9 Opaque(s: String),
});

ir_enum!(Proj {
    0 Deref(),
    1 Field(i: u32, t: TyId),
    2 Index(l: u32),
    3 ConstIndex(off: u64, min: u64, from_end: bool),
    4 Subslice(from: u64, to: u64, from_end: bool),
    5 Downcast(v: u32),
    6 Cast(t: TyId),
});
ir_struct!(Place { local: u32, proj: Vec<Proj> });
ir_enum!(Operand {
    0 Copy(p: Place),
    1 Move(p: Place),
    2 Const(c: CVal, t: TyId),
    3 RtCheck(k: u8), // 0 ub 1 contract 2 overflow
});
ir_enum!(Agg {
    0 Array(t: TyId),
    1 Tuple(),
    2 Adt(t: TyId, variant: u32, union_field: Option<u32>),
    3 Closure(t: TyId),
    4 RawPtr(t: TyId),
    5 Other(s: String),
});
ir_enum!(Rvalue {
    0 Use(o: Operand),
    1 Repeat(o: Operand, n: u64),
    2 Ref(m: bool, p: Place),
    3 AddrOf(p: Place),
    4 Len(p: Place),
    5 Cast(kind: String, o: Operand, t: TyId),
    6 Bin(op: String, a: Operand, b: Operand),
    7 CheckedBin(op: String, a: Operand, b: Operand),
    8 Un(op: String, a: Operand),
    9 Discr(p: Place),
    10 Aggregate(k: Agg, ops: Vec<Operand>),
    11 Other(s: String),
});
ir_enum!(Stmt {
    0 Assign(p: Place, r: Rvalue, sp: u32),
    1 SetDiscr(p: Place, v: u32),
    2 Live(l: u32),
    3 Dead(l: u32),
    4 CopyNonOverlapping(a: Operand, b: Operand, c: Operand),
    5 Nop(),
});
ir_enum!(Callee { 0 Func(f: FuncId), 1 Op(o: Operand) });
ir_enum!(Term {
    0 Goto(b: u32),
    1 Switch(o: Operand, t: TyId, arms: Vec<(u128, u32)>, other: u32),
    2 Return(),
    3 Unreachable(),
    4 Drop(p: Place, t: TyId, b: u32),
    5 Call(f: Callee, args: Vec<Operand>, dest: Place, b: Option<u32>, sp: u32),
    6 Assert(o: Operand, expected: bool, msg: String, b: u32, sp: u32),
    7 Abort(s: String),
});
ir_struct!(Block { stmts: Vec<Stmt>, term: Term });
ir_struct!(Body { argc: u32, locals: Vec<TyId>, names: Vec<(u32, String)>, spread: Option<u32>, blocks: Vec<Block> });
ir_struct!(Func {
    name: String,        // definition path, e.g. core::num::<impl u32>::wrapping_add
    full: String,        // with generic arguments
    trait_name: String,  // the definition path named at a call site when it was a trait method ("" otherwise)
    kind: u8,            // 0 item 1 shim 2 intrinsic 3 virtual
    krate: String,
    gargs: Vec<GArg>,
    inputs: Vec<TyId>,
    output: TyId,
    span: u32,
    is_closure: bool,
    is_unsafe: bool,
    foreign: bool,
    model_of: String,
    body: Option<Body>,
});
ir_struct!(StaticItem { name: String, ty: TyId, mutable: bool, krate: String, val: CVal });
ir_struct!(Program {
    files: Vec<String>,
    spans: Vec<(u32, (u32, u32))>, // file, line, col
    types: Vec<Ty>,
    type_names: Vec<String>,
    funcs: Vec<Func>,
    statics: Vec<StaticItem>,
    roots: Vec<(String, FuncId)>,
    drops: Vec<(TyId, FuncId)>,
});

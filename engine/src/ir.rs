//! Lazy parser for textual LLVM IR.
use crate::expr::Bin;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}

pub fn align_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => match w {
            0..=8 => 1,
            9..=16 => 2,
            17..=32 => 4,
            33..=64 => 8,
            _ => 16,
        },
        Ty::Float => 4,
        Ty::Double | Ty::Ptr => 8,
        Ty::Arr(_, t) => align_of(t),
        Ty::Vec(..) => size_of(t).next_power_of_two().max(1),
        Ty::Struct(f, packed) => {
            if *packed {
                1
            } else {
                f.iter().map(align_of).max().unwrap_or(1)
            }
        }
        _ => 1,
    }
}
fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
/// allocation size
pub fn size_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => up(((*w as u64) + 7) / 8, align_of(t)),
        Ty::Float => 4,
        Ty::Double | Ty::Ptr => 8,
        Ty::Arr(n, t) => n * size_of(t),
        Ty::Vec(n, t) => match **t {
            Ty::Int(w) => (n * w as u64 + 7) / 8,
            _ => n * size_of(t),
        },
        Ty::Struct(f, packed) => {
            let mut o = 0;
            for x in f.iter() {
                if !packed {
                    o = up(o, align_of(x));
                }
                o += size_of(x);
            }
            if *packed {
                o
            } else {
                up(o, align_of(t))
            }
        }
        _ => 0,
    }
}
pub fn field_off(t: &Ty, i: u64) -> u64 {
    match t {
        Ty::Struct(f, packed) => {
            let mut o = 0;
            for (k, x) in f.iter().enumerate() {
                if !packed {
                    o = up(o, align_of(x));
                }
                if k as u64 == i {
                    return o;
                }
                o += size_of(x);
            }
            o
        }
        Ty::Arr(_, e) | Ty::Vec(_, e) => i * size_of(e),
        _ => panic!("field_off of scalar"),
    }
}
pub fn elem_ty(t: &Ty, i: u64) -> Ty {
    match t {
        Ty::Struct(f, _) => f[i as usize].clone(),
        Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
        _ => panic!("elem_ty of scalar"),
    }
}

#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    F(f64),
    Null,
    Zero,
    Undef,
    Global(String),
    Agg(Vec<(Ty, K)>),
    Str(Vec<u8>),
    Gep(Ty, Box<K>, Vec<(Ty, K)>),
    Cast(Ty, Box<K>, Ty), // from, value, to
    BinK(Bin, Ty, Box<K>, Box<K>),
    Splat(Ty, Box<K>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Rc<K>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    Same, // bitcast / ptrtoint / inttoptr / addrspacecast
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IP {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(u32, Bin, Ty, Op, Op),
    FBin(u32, FB, Ty, Op, Op),
    FNeg(u32, Ty, Op),
    ICmp(u32, IP, Ty, Op, Op),
    FCmp(u32, String, Ty, Op, Op),
    Cast(u32, Cast, Ty, Op, Ty),
    Select(u32, Ty, Op, Ty, Op, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    /// base + const + sum(idx * scale) ; idx with its type
    Gep(u32, Op, u64, Vec<(Op, Ty, u64)>),
    Alloca(u32, u64, Option<(Op, Ty)>),
    Call { dst: Option<u32>, ret: Ty, callee: Op, args: Vec<(Ty, Op)>, next: Option<u32> },
    Extract(u32, Ty, Op, Vec<u64>),
    Insert(u32, Ty, Op, Ty, Op, Vec<u64>),
    ExtElem(u32, Ty, Op, Op),
    InsElem(u32, Ty, Op, Op, Op),
    Shuffle(u32, Ty, Op, Op, Op, u64),
    Rmw(u32, String, Op, Ty, Op),
    CmpXchg(u32, Op, Ty, Op, Op),
    Fence,
    Freeze(u32, Op),
    Ret(Option<(Ty, Op)>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Unreachable,
    LandingPad(u32),
    Unsup(String),
}

pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: HashMap<u32, Op>,
}
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
}
pub struct Func {
    pub name: String,
    pub id: usize,
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
}
pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // line range [header, end)
    pub func: Option<Rc<Func>>,
}

pub struct Module {
    pub lines: Vec<&'static str>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<GlobalDef>,
    pub gidx: HashMap<String, usize>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    pub symaddr: HashMap<String, u64>,
}

// ---------------- tokenizer ----------------
#[derive(Clone, PartialEq, Debug)]
pub enum T {
    W(String), // word / number
    L(String), // %local
    G(String), // @global
    S(Vec<u8>), // c"..." or "..."
    M(String), // !meta
    A(String), // #attr
    P(char),
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b.len() - i >= 3 && b[i + 1] != b'\\' {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).ok().and_then(|s| u8::from_str_radix(s, 16).ok());
            if let Some(h) = h {
                o.push(h);
                i += 3;
                continue;
            }
        }
        if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

pub fn tokenize(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => break,
            b'/' if i + 1 < b.len() && b[i + 1] == b'*' => {
                while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') {
                    i += 1;
                }
                i += 2;
            }
            b'%' | b'@' => {
                let q = c;
                i += 1;
                let name = if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    i = j + 1;
                    String::from_utf8_lossy(&unescape(&b[st..j])).to_string()
                } else {
                    let st = i;
                    while i < b.len() && isid(b[i]) {
                        i += 1;
                    }
                    s[st..i].to_string()
                };
                v.push(if q == b'%' { T::L(name) } else { T::G(name) });
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(T::S(unescape(&b[st..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(T::S(unescape(&b[st..j])));
                i = j + 1;
            }
            b'!' => {
                let st = i + 1;
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                v.push(T::M(s[st..i].to_string()));
            }
            b'#' => {
                let st = i + 1;
                i += 1;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                v.push(T::A(s[st..i].to_string()));
            }
            c if isid(c) => {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                v.push(T::W(s[st..i].to_string()));
            }
            c => {
                v.push(T::P(c as char));
                i += 1;
            }
        }
    }
    v
}

pub struct Ps<'a> {
    pub t: &'a [T],
    pub i: usize,
    pub m: &'a HashMap<String, Ty>,
    pub sy: Option<&'a HashMap<String, u64>>,
    pub regs: Option<&'a mut HashMap<String, u32>>,
}

type PR<X> = Result<X, String>;

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn isp(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: char) -> PR<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' at {:?}", c, &self.t[self.i.min(self.t.len())..(self.i + 6).min(self.t.len())]))
        }
    }
    fn word(&mut self) -> PR<String> {
        match self.t.get(self.i) {
            Some(T::W(w)) => {
                self.i += 1;
                Ok(w.clone())
            }
            x => Err(format!("expected word, got {:?}", x)),
        }
    }
    fn num(&mut self) -> PR<u64> {
        let w = self.word()?;
        w.parse().map_err(|_| format!("expected number: {}", w))
    }
    fn skip_parens(&mut self) {
        if self.isp('(') {
            let mut d = 0;
            while self.i < self.t.len() {
                match &self.t[self.i] {
                    T::P('(') => d += 1,
                    T::P(')') => {
                        d -= 1;
                        if d == 0 {
                            self.i += 1;
                            return;
                        }
                    }
                    _ => {}
                }
                self.i += 1;
            }
        }
    }
    pub fn ty(&mut self) -> PR<Ty> {
        let t = match self.t.get(self.i).cloned() {
            Some(T::W(w)) => {
                self.i += 1;
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eatw("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "double" => Ty::Double,
                    "float" => Ty::Float,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "opaque" => Ty::Void,
                    w if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => return Err(format!("unknown type {}", w)),
                }
            }
            Some(T::L(n)) => {
                self.i += 1;
                self.m.get(&n).cloned().ok_or(format!("unknown named type {}", n))?
            }
            Some(T::P('[')) => {
                self.i += 1;
                let n = self.num()?;
                self.eatw("x");
                let t = self.ty()?;
                self.need(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Some(T::P('<')) => {
                self.i += 1;
                if self.isp('{') {
                    let t = self.struct_body(true)?;
                    self.need('>')?;
                    t
                } else {
                    let n = self.num()?;
                    self.eatw("x");
                    let t = self.ty()?;
                    self.need('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Some(T::P('{')) => self.struct_body(false)?,
            x => return Err(format!("type expected, got {:?}", x)),
        };
        Ok(t)
    }
    fn struct_body(&mut self, packed: bool) -> PR<Ty> {
        self.need('{')?;
        let mut f = vec![];
        while !self.eatp('}') {
            f.push(self.ty()?);
            self.eatp(',');
        }
        Ok(Ty::Struct(Rc::new(f), packed))
    }
    fn bin_kw(w: &str) -> Option<Bin> {
        Some(match w {
            "add" => Bin::Add,
            "sub" => Bin::Sub,
            "mul" => Bin::Mul,
            "udiv" => Bin::UDiv,
            "sdiv" => Bin::SDiv,
            "urem" => Bin::URem,
            "srem" => Bin::SRem,
            "and" => Bin::And,
            "or" => Bin::Or,
            "xor" => Bin::Xor,
            "shl" => Bin::Shl,
            "lshr" => Bin::LShr,
            "ashr" => Bin::AShr,
            _ => return None,
        })
    }
    fn is_flag(w: &str) -> bool {
        matches!(
            w,
            "nuw" | "nsw" | "exact" | "inbounds" | "nusw" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile"
        )
    }
    fn flags(&mut self) {
        loop {
            match self.peek() {
                Some(T::W(w)) if Ps::is_flag(w) => self.i += 1,
                Some(T::W(w)) if w == "inrange" => {
                    self.i += 1;
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn parse_float(w: &str) -> Option<f64> {
        if let Some(h) = w.strip_prefix("0x") {
            return u64::from_str_radix(h, 16).ok().map(f64::from_bits);
        }
        if let Some(h) = w.strip_prefix("f0x") {
            return u64::from_str_radix(h, 16).ok().map(f64::from_bits);
        }
        match w {
            "+inf" | "inf" => return Some(f64::INFINITY),
            "-inf" => return Some(f64::NEG_INFINITY),
            "nan" | "+nan" | "+qnan" | "qnan" => return Some(f64::NAN),
            "-nan" | "-qnan" => return Some(-f64::NAN),
            _ => {}
        }
        w.parse().ok()
    }
    /// constant of type ty
    pub fn konst(&mut self, ty: &Ty) -> PR<K> {
        match self.t.get(self.i).cloned() {
            Some(T::G(g)) => {
                self.i += 1;
                if let Some(sy) = self.sy {
                    if let Some(a) = sy.get(&g) {
                        return Ok(K::Int(*a as u128));
                    }
                }
                Ok(K::Global(g))
            }
            Some(T::S(s)) => {
                self.i += 1;
                Ok(K::Str(s))
            }
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => {
                let open = match self.t[self.i] {
                    T::P(c) => c,
                    _ => unreachable!(),
                };
                self.i += 1;
                let mut close = match open {
                    '{' => '}',
                    '[' => ']',
                    _ => '>',
                };
                let mut packed = false;
                if open == '<' && self.isp('{') {
                    self.i += 1;
                    packed = true;
                    close = '}';
                }
                let mut v = vec![];
                while !self.eatp(close) {
                    let t = self.ty()?;
                    let k = self.konst(&t)?;
                    v.push((t, k));
                    self.eatp(',');
                }
                if packed {
                    self.need('>')?;
                }
                Ok(K::Agg(v))
            }
            Some(T::W(w)) => {
                self.i += 1;
                match w.as_str() {
                    "true" => Ok(K::Int(1)),
                    "false" => Ok(K::Int(0)),
                    "null" => Ok(K::Null),
                    "undef" | "poison" => Ok(K::Undef),
                    "zeroinitializer" => Ok(K::Zero),
                    "none" => Ok(K::Zero),
                    "splat" => {
                        self.need('(')?;
                        let t = self.ty()?;
                        let k = self.konst(&t)?;
                        self.need(')')?;
                        Ok(K::Splat(t, Box::new(k)))
                    }
                    "getelementptr" => {
                        self.flags();
                        self.need('(')?;
                        let t = self.ty()?;
                        self.need(',')?;
                        let bt = self.ty()?;
                        let b = self.konst(&bt)?;
                        let mut idx = vec![];
                        while self.eatp(',') {
                            self.flags();
                            let it = self.ty()?;
                            let k = self.konst(&it)?;
                            idx.push((it, k));
                        }
                        self.need(')')?;
                        Ok(K::Gep(t, Box::new(b), idx))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                        self.need('(')?;
                        let t = self.ty()?;
                        let k = self.konst(&t)?;
                        if !self.eatw("to") {
                            return Err("expected to".into());
                        }
                        let t2 = self.ty()?;
                        self.need(')')?;
                        Ok(K::Cast(t, Box::new(k), t2))
                    }
                    "dso_local_equivalent" | "no_cfi" => self.konst(ty),
                    x if Ps::bin_kw(x).is_some() => {
                        self.flags();
                        self.need('(')?;
                        let t = self.ty()?;
                        let a = self.konst(&t)?;
                        self.need(',')?;
                        let t2 = self.ty()?;
                        let b = self.konst(&t2)?;
                        self.need(')')?;
                        Ok(K::BinK(Ps::bin_kw(x).unwrap(), t, Box::new(a), Box::new(b)))
                    }
                    _ => match ty {
                        Ty::Double => Ps::parse_float(&w).map(K::F).ok_or(format!("bad float {}", w)),
                        Ty::Float => {
                            let f = Ps::parse_float(&w).ok_or(format!("bad float {}", w))?;
                            Ok(K::F(f))
                        }
                        Ty::Int(_) => {
                            if let Ok(x) = w.parse::<i128>() {
                                Ok(K::Int(x as u128))
                            } else if let Ok(x) = w.parse::<u128>() {
                                Ok(K::Int(x))
                            } else {
                                Err(format!("bad int {}", w))
                            }
                        }
                        _ => Err(format!("bad constant {} of type {:?}", w, ty)),
                    },
                }
            }
            x => Err(format!("constant expected, got {:?}", x)),
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let m = self.regs.as_mut().unwrap();
        let l = m.len() as u32;
        *m.entry(n.to_string()).or_insert(l)
    }
    fn op(&mut self, ty: &Ty) -> PR<Op> {
        if let Some(T::L(n)) = self.peek().cloned() {
            self.i += 1;
            return Ok(Op::R(self.reg(&n)));
        }
        if let Ty::Meta = ty {
            // skip metadata operand
            match self.peek() {
                Some(T::M(_)) => {
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens();
                    } else if self.isp('{') {
                        while !self.eatp('}') {
                            self.i += 1;
                        }
                    }
                }
                _ => {
                    let t = self.ty()?;
                    self.op(&t)?;
                }
            }
            return Ok(Op::K(Rc::new(K::Undef)));
        }
        let k = self.konst(ty)?;
        let k = match (&k, ty) {
            (K::Int(v), Ty::Int(w)) => K::Int(*v & crate::expr::mask(*w)),
            _ => k,
        };
        Ok(Op::K(Rc::new(k)))
    }
    fn tyop(&mut self) -> PR<(Ty, Op)> {
        let t = self.ty()?;
        let o = self.op(&t)?;
        Ok((t, o))
    }
    /// skip parameter attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    match w.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "add" | "sub" | "xor" | "trunc"
                        | "zext" | "sext" | "dso_local_equivalent" | "asm" | "ptrtoaddr" => return,
                        _ => {}
                    }
                    let c = w.chars().next().unwrap();
                    if c.is_ascii_digit() || c == '-' || c == '+' {
                        return;
                    }
                    if w.starts_with("f0x") || w == "inf" || w == "nan" || w == "qnan" {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if self.isp('(') {
                        self.skip_parens();
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(T::S(_)) => {
                    // string attribute; but a c"..." constant is never a call argument
                    self.i += 1;
                    if self.eatp('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let txt: &'static str = Box::leak(std::fs::read_to_string(path).expect("IR file").into_boxed_str());
        let lines: Vec<&'static str> = txt.lines().collect();
        let mut m = Module {
            lines,
            types: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            aliases: HashMap::new(),
            symaddr: HashMap::new(),
        };
        // named types may refer to each other: iterate
        let mut pend: Vec<(String, Vec<T>)> = vec![];
        let mut i = 0;
        let n = m.lines.len();
        let mut globals_lines = vec![];
        while i < n {
            let l = m.lines[i];
            if l.starts_with('%') && l.contains(" = type ") {
                let t = tokenize(l);
                if let T::L(nm) = &t[0] {
                    pend.push((nm.clone(), t[3..].to_vec()));
                }
            } else if l.starts_with('@') {
                globals_lines.push(i);
            } else if l.starts_with("declare ") || l.starts_with("define ") {
                let at = l.find('@').unwrap();
                let t = tokenize(&l[at..l[at..].find('(').map(|x| x + at).unwrap_or(l.len())]);
                let name = match &t[0] {
                    T::G(n) => n.clone(),
                    _ => panic!("fn name"),
                };
                let body = if l.starts_with("define ") {
                    let st = i;
                    while m.lines[i] != "}" {
                        i += 1;
                    }
                    Some((st, i))
                } else {
                    None
                };
                let id = m.funcs.len();
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, body, func: None });
            } else if l.starts_with('!') {
                break;
            }
            i += 1;
        }
        for _ in 0..6 {
            let mut rest = vec![];
            for (nm, t) in pend {
                let mut ps = Ps { t: &t, i: 0, m: &m.types, sy: None, regs: None };
                match ps.ty() {
                    Ok(ty) => {
                        m.types.insert(nm, ty);
                    }
                    Err(_) => rest.push((nm, t)),
                }
            }
            pend = rest;
        }
        for gi in globals_lines {
            let l = m.lines[gi];
            let t = tokenize(l);
            let T::G(name) = &t[0] else { continue };
            // find 'global' / 'constant' / 'alias'
            let pos = t.iter().position(|x| matches!(x, T::W(w) if w == "global" || w == "constant" || w == "alias" || w == "ifunc"));
            let Some(pos) = pos else { continue };
            let kw = match &t[pos] {
                T::W(w) => w.clone(),
                _ => unreachable!(),
            };
            let mut ps = Ps { t: &t, i: pos + 1, m: &m.types, sy: None, regs: None };
            let ty = match ps.ty() {
                Ok(t) => t,
                Err(e) => panic!("global {}: {}", name, e),
            };
            if kw == "alias" {
                ps.eatp(',');
                let _ = ps.ty();
                if let Ok(K::Global(g)) = ps.konst(&Ty::Ptr) {
                    m.aliases.insert(name.clone(), g);
                }
                continue;
            }
            let external = t[..pos].iter().any(|x| matches!(x, T::W(w) if w == "external" || w == "extern_weak"));
            let init = if external {
                None
            } else {
                match ps.konst(&ty) {
                    Ok(k) => Some(k),
                    Err(e) => panic!("global {}: {}", name, e),
                }
            };
            let id = m.globals.len();
            m.gidx.insert(name.clone(), id);
            m.globals.push(GlobalDef { name: name.clone(), ty, init, constant: kw == "constant" });
        }
        for (i, g) in m.globals.iter().enumerate() {
            m.symaddr.insert(g.name.clone(), crate::mem::addr(i as u32 + 1, 0));
        }
        for (i, f) in m.funcs.iter().enumerate() {
            m.symaddr.insert(f.name.clone(), crate::mem::addr(crate::mem::FN_IDX, (i * 16) as u32));
        }
        let al: Vec<(String, String)> = m.aliases.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        for (a, b) in al {
            if let Some(x) = m.symaddr.get(&b).cloned() {
                m.symaddr.insert(a, x);
            }
        }
        m
    }

    pub fn func(&mut self, id: usize) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.funcs[id].func {
            return Ok(f.clone());
        }
        let Some((st, en)) = self.funcs[id].body else {
            return Err(format!("no body for {}", self.funcs[id].name));
        };
        let f = self.parse_func(id, st, en).map_err(|e| format!("parse of {}: {}", self.funcs[id].name, e))?;
        let f = Rc::new(f);
        self.funcs[id].func = Some(f.clone());
        Ok(f)
    }

    fn parse_func(&self, id: usize, st: usize, en: usize) -> PR<Func> {
        let mut regs: HashMap<String, u32> = HashMap::new();
        let head = tokenize(self.lines[st]);
        // parameters
        let gi = head.iter().position(|x| matches!(x, T::G(_))).unwrap();
        let mut params = vec![];
        let mut unnamed = 0;
        {
            let mut ps = Ps { t: &head, i: gi + 1, m: &self.types, sy: Some(&self.symaddr), regs: Some(&mut regs) };
            ps.need('(')?;
            while !ps.eatp(')') {
                if ps.isp('.') || ps.isw("...") {
                    ps.i += 1;
                    continue;
                }
                let _t = ps.ty()?;
                ps.attrs();
                match ps.peek().cloned() {
                    Some(T::L(n)) => {
                        ps.i += 1;
                        if n.parse::<u32>().is_ok() {
                            unnamed += 1;
                        }
                        let r = ps.reg(&n);
                        params.push(r);
                    }
                    _ => {
                        let n = format!("{}", unnamed);
                        unnamed += 1;
                        let r = ps.reg(&n);
                        params.push(r);
                    }
                }
                ps.eatp(',');
            }
        }
        // split blocks
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut raw: Vec<Vec<String>> = vec![];
        let mut i = st + 1;
        let mut cur: Option<usize> = None;
        while i < en {
            let l = self.lines[i];
            if l.is_empty() {
                i += 1;
                continue;
            }
            let b0 = l.as_bytes()[0];
            if b0 != b' ' && b0 != b';' {
                let lab = if b0 == b'"' { l[1..].split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() };
                labels.insert(lab, raw.len() as u32);
                cur = Some(raw.len());
                raw.push(vec![]);
                i += 1;
                continue;
            }
            if cur.is_none() {
                labels.insert(unnamed.to_string(), 0);
                cur = Some(0);
                raw.push(vec![]);
            }
            let tl = l.trim_start();
            if tl.starts_with(';') {
                i += 1;
                continue;
            }
            let mut s = l.to_string();
            if tl.starts_with("switch ") || tl.contains(" switch ") {
                while !self.lines[i].trim_start().starts_with(']') && !self.lines[i].contains(']') {
                    i += 1;
                    s.push(' ');
                    s.push_str(self.lines[i]);
                }
            } else if tl.starts_with("invoke ") || tl.contains("= invoke ") {
                while !s.contains(" unwind label ") {
                    i += 1;
                    s.push(' ');
                    s.push_str(self.lines[i]);
                }
            }
            // landingpad clauses are separate lines: mark and skip
            raw[cur.unwrap()].push(s);
            i += 1;
        }
        let mut blocks = vec![];
        for r in &raw {
            let mut b = Block { phis: vec![], ins: vec![] };
            let mut skip = false;
            for l in r {
                let t = tokenize(l);
                if skip {
                    if let Some(T::W(w)) = t.first() {
                        if w == "cleanup" || w == "catch" || w == "filter" {
                            continue;
                        }
                    }
                    skip = false;
                }
                let mut ps = Ps { t: &t, i: 0, m: &self.types, sy: Some(&self.symaddr), regs: Some(&mut regs) };
                match self.parse_ins(&mut ps, &labels) {
                    Ok(PI::Phi(p)) => b.phis.push(p),
                    Ok(PI::I(x)) => {
                        if let I::LandingPad(_) = x {
                            skip = true;
                        }
                        b.ins.push(x)
                    }
                    Err(e) => {
                        b.ins.push(I::Unsup(format!("{} in: {}", e, l.trim())));
                    }
                }
            }
            blocks.push(b);
        }
        Ok(Func { name: self.funcs[id].name.clone(), id, nregs: regs.len(), params, blocks })
    }

    fn parse_ins(&self, ps: &mut Ps, labels: &HashMap<String, u32>) -> PR<PI> {
        let mut dst = None;
        if let (Some(T::L(n)), Some(T::P('='))) = (ps.t.first(), ps.t.get(1)) {
            let n = n.clone();
            dst = Some(ps.reg(&n));
            ps.i = 2;
        }
        let lab = |ps: &mut Ps| -> PR<u32> {
            if !ps.eatw("label") {
                return Err("label expected".into());
            }
            match ps.t.get(ps.i) {
                Some(T::L(n)) => {
                    ps.i += 1;
                    labels.get(n).cloned().ok_or(format!("label {}", n))
                }
                x => Err(format!("label name expected: {:?}", x)),
            }
        };
        let mut w = ps.word()?;
        while w == "tail" || w == "musttail" || w == "notail" {
            w = ps.word()?;
        }
        let d = dst.unwrap_or(u32::MAX);
        let ins = match w.as_str() {
            x if Ps::bin_kw(x).is_some() => {
                ps.flags();
                let t = ps.ty()?;
                let a = ps.op(&t)?;
                ps.need(',')?;
                let b = ps.op(&t)?;
                I::Bin(d, Ps::bin_kw(x).unwrap(), t, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                ps.flags();
                let t = ps.ty()?;
                let a = ps.op(&t)?;
                ps.need(',')?;
                let b = ps.op(&t)?;
                let o = match w.as_str() {
                    "fadd" => FB::Add,
                    "fsub" => FB::Sub,
                    "fmul" => FB::Mul,
                    "fdiv" => FB::Div,
                    _ => FB::Rem,
                };
                I::FBin(d, o, t, a, b)
            }
            "fneg" => {
                ps.flags();
                let (t, a) = ps.tyop()?;
                I::FNeg(d, t, a)
            }
            "icmp" => {
                ps.flags();
                let p = ps.word()?;
                let p = match p.as_str() {
                    "eq" => IP::Eq,
                    "ne" => IP::Ne,
                    "ugt" => IP::Ugt,
                    "uge" => IP::Uge,
                    "ult" => IP::Ult,
                    "ule" => IP::Ule,
                    "sgt" => IP::Sgt,
                    "sge" => IP::Sge,
                    "slt" => IP::Slt,
                    "sle" => IP::Sle,
                    _ => return Err(format!("icmp {}", p)),
                };
                ps.flags();
                let t = ps.ty()?;
                let a = ps.op(&t)?;
                ps.need(',')?;
                let b = ps.op(&t)?;
                I::ICmp(d, p, t, a, b)
            }
            "fcmp" => {
                ps.flags();
                let p = ps.word()?;
                let t = ps.ty()?;
                let a = ps.op(&t)?;
                ps.need(',')?;
                let b = ps.op(&t)?;
                I::FCmp(d, p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                ps.flags();
                let (t, a) = ps.tyop()?;
                if !ps.eatw("to") {
                    return Err("to".into());
                }
                let t2 = ps.ty()?;
                let c = match w.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    _ => Cast::Same,
                };
                I::Cast(d, c, t, a, t2)
            }
            "select" => {
                ps.flags();
                let (ct, c) = ps.tyop()?;
                ps.need(',')?;
                let (t, a) = ps.tyop()?;
                ps.need(',')?;
                let (_, b) = ps.tyop()?;
                I::Select(d, ct, c, t, a, b)
            }
            "phi" => {
                ps.flags();
                let ty = ps.ty()?;
                let mut inc = HashMap::new();
                loop {
                    ps.need('[')?;
                    let o = ps.op(&ty)?;
                    ps.need(',')?;
                    let l = match ps.t.get(ps.i) {
                        Some(T::L(n)) => n.clone(),
                        x => return Err(format!("phi label {:?}", x)),
                    };
                    ps.i += 1;
                    ps.need(']')?;
                    // unreachable predecessors may be unnamed blocks that exist
                    if let Some(b) = labels.get(&l) {
                        inc.insert(*b, o);
                    }
                    if !(ps.isp(',') && matches!(ps.t.get(ps.i + 1), Some(T::P('[')))) {
                        break;
                    }
                    ps.i += 1;
                }
                return Ok(PI::Phi(Phi { dst: d, ty, inc }));
            }
            "load" => {
                ps.eatw("atomic");
                ps.flags();
                let t = ps.ty()?;
                ps.need(',')?;
                let (_, p) = ps.tyop()?;
                I::Load(d, t, p)
            }
            "store" => {
                ps.eatw("atomic");
                ps.flags();
                let (t, v) = ps.tyop()?;
                ps.need(',')?;
                let (_, p) = ps.tyop()?;
                I::Store(t, v, p)
            }
            "getelementptr" => {
                ps.flags();
                let t = ps.ty()?;
                ps.need(',')?;
                let (_, base) = ps.tyop()?;
                let mut off: u64 = 0;
                let mut idx = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while ps.eatp(',') {
                    if matches!(ps.peek(), Some(T::M(_))) {
                        break;
                    }
                    ps.flags();
                    let (it, o) = ps.tyop()?;
                    let (scale, next) = if first {
                        (size_of(&cur), cur.clone())
                    } else {
                        match &cur {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (size_of(e), (**e).clone()),
                            Ty::Struct(..) => {
                                let Op::K(k) = &o else { return Err("struct gep index".into()) };
                                let K::Int(v) = **k else { return Err("struct gep index".into()) };
                                off = off.wrapping_add(field_off(&cur, v as u64));
                                (0, elem_ty(&cur, v as u64))
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    };
                    if scale > 0 {
                        match &o {
                            Op::K(k) => match (&**k, &it) {
                                (K::Int(v), Ty::Int(w)) => {
                                    off = off.wrapping_add((crate::expr::sx(*v, *w) as i64 as u64).wrapping_mul(scale));
                                }
                                (K::Zero, _) => {}
                                _ => idx.push((o.clone(), it.clone(), scale)),
                            },
                            _ => idx.push((o.clone(), it.clone(), scale)),
                        }
                    }
                    cur = next;
                    first = false;
                }
                I::Gep(d, base, off, idx)
            }
            "alloca" => {
                ps.eatw("inalloca");
                let t = ps.ty()?;
                let mut cnt = None;
                if ps.eatp(',') && !ps.isw("align") && !ps.isw("addrspace") && !matches!(ps.peek(), Some(T::M(_))) {
                    let (it, o) = ps.tyop()?;
                    cnt = Some((o, it));
                }
                I::Alloca(d, size_of(&t), cnt)
            }
            "call" | "invoke" => {
                ps.flags();
                // calling convention, return attributes
                loop {
                    match ps.peek() {
                        Some(T::W(x)) => {
                            let x = x.clone();
                            if matches!(x.as_str(), "void" | "ptr" | "double" | "float") || (x.starts_with('i') && x[1..].parse::<u32>().is_ok()) {
                                break;
                            }
                            ps.i += 1;
                            if ps.isp('(') {
                                ps.skip_parens();
                            } else if x == "align" || x == "cc" {
                                ps.i += 1;
                            }
                        }
                        Some(T::A(_)) => ps.i += 1,
                        _ => break,
                    }
                }
                let ret = ps.ty()?;
                // optional function type
                if ps.isp('(') {
                    ps.skip_parens();
                }
                let callee = match ps.peek().cloned() {
                    Some(T::W(x)) if x == "asm" => {
                        return Ok(PI::I(I::Unsup("inline asm".into())));
                    }
                    _ => ps.op(&Ty::Ptr)?,
                };
                ps.need('(')?;
                let mut args = vec![];
                while !ps.eatp(')') {
                    let t = ps.ty()?;
                    ps.attrs();
                    let o = ps.op(&t)?;
                    args.push((t, o));
                    ps.eatp(',');
                }
                let mut next = None;
                if w == "invoke" {
                    while ps.i < ps.t.len() && !ps.isw("to") {
                        ps.i += 1;
                    }
                    ps.i += 1;
                    next = Some(lab(ps)?);
                }
                I::Call { dst, ret, callee, args, next }
            }
            "extractvalue" => {
                let (t, a) = ps.tyop()?;
                let mut ix = vec![];
                while ps.eatp(',') {
                    if matches!(ps.peek(), Some(T::M(_))) {
                        break;
                    }
                    ix.push(ps.num()?);
                }
                I::Extract(d, t, a, ix)
            }
            "insertvalue" => {
                let (t, a) = ps.tyop()?;
                ps.need(',')?;
                let (t2, b) = ps.tyop()?;
                let mut ix = vec![];
                while ps.eatp(',') {
                    if matches!(ps.peek(), Some(T::M(_))) {
                        break;
                    }
                    ix.push(ps.num()?);
                }
                I::Insert(d, t, a, t2, b, ix)
            }
            "extractelement" => {
                let (t, a) = ps.tyop()?;
                ps.need(',')?;
                let (_, b) = ps.tyop()?;
                I::ExtElem(d, t, a, b)
            }
            "insertelement" => {
                let (t, a) = ps.tyop()?;
                ps.need(',')?;
                let (_, b) = ps.tyop()?;
                ps.need(',')?;
                let (_, c) = ps.tyop()?;
                I::InsElem(d, t, a, b, c)
            }
            "shufflevector" => {
                let (t, a) = ps.tyop()?;
                ps.need(',')?;
                let (_, b) = ps.tyop()?;
                ps.need(',')?;
                let (mt, c) = ps.tyop()?;
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => return Err("shuffle".into()),
                };
                I::Shuffle(d, t, a, b, c, n)
            }
            "atomicrmw" => {
                ps.flags();
                let o = ps.word()?;
                let (_, p) = ps.tyop()?;
                ps.need(',')?;
                let (t, v) = ps.tyop()?;
                I::Rmw(d, o, p, t, v)
            }
            "cmpxchg" => {
                ps.eatw("weak");
                ps.flags();
                let (_, p) = ps.tyop()?;
                ps.need(',')?;
                let (t, a) = ps.tyop()?;
                ps.need(',')?;
                let (_, b) = ps.tyop()?;
                I::CmpXchg(d, p, t, a, b)
            }
            "fence" => I::Fence,
            "freeze" => {
                let (_, a) = ps.tyop()?;
                I::Freeze(d, a)
            }
            "ret" => {
                if ps.eatw("void") {
                    I::Ret(None)
                } else {
                    let (t, o) = ps.tyop()?;
                    I::Ret(Some((t, o)))
                }
            }
            "br" => {
                if ps.isw("label") {
                    I::Br(lab(ps)?)
                } else {
                    let (_, c) = ps.tyop()?;
                    ps.need(',')?;
                    let a = lab(ps)?;
                    ps.need(',')?;
                    let b = lab(ps)?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = ps.tyop()?;
                ps.need(',')?;
                let dl = lab(ps)?;
                ps.need('[')?;
                let mut cs = vec![];
                while !ps.eatp(']') {
                    let ct = ps.ty()?;
                    let k = ps.konst(&ct)?;
                    let K::Int(v) = k else { return Err("switch case".into()) };
                    let Ty::Int(w) = ct else { return Err("switch case".into()) };
                    ps.need(',')?;
                    let l = lab(ps)?;
                    cs.push((v & crate::expr::mask(w), l));
                }
                I::Switch(t, v, dl, cs)
            }
            "unreachable" => I::Unreachable,
            "landingpad" => I::LandingPad(d),
            "resume" => I::Unreachable,
            _ => return Err(format!("unknown instruction {}", w)),
        };
        Ok(PI::I(ins))
    }
}

enum PI {
    Phi(Phi),
    I(I),
}

//! Symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::rat::Rat;
use crate::smt::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    B(E),
    F(f64),
    R(E),
    A(Rc<Vec<V>>),
    U,
}

pub enum Stop {
    Fork(E),
    Done(String),
    Err(String),
    Infeasible,
    Later,
}
pub type X<T> = Result<T, Stop>;
pub fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Err(s.into()))
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: usize,
    pub regs: Vec<V>,
    pub dst: Option<u32>,
    pub next: Option<u32>,
    pub allocas: Vec<u32>,
    pub native_fp: bool,
}

#[derive(Clone, Debug)]
pub enum Inp {
    In(String, V), // kind, value
    Draw(u64, u64, E),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: HashMap<E, bool>,
    pub inputs: Vec<Inp>,
    pub draws: HashMap<(u64, u64), E>,
    pub seeds: Vec<E>,
    pub sched_left: u64,
    pub log_pos: bool,
    /// floating-point results are rounded (as an abstract function of the exact result)
    pub rounding: bool,
    pub ndraws: u64,
    pub max_draws: u64,
    /// draws after which the path waits until all shorter ones are done
    pub tier: u64,
    pub streams: u64,
    pub policy: u64,
    pub obs: Vec<V>,
    pub reached: BTreeSet<String>,
    pub steps: u64,
    pub apps: Vec<E>,
    pub trace: Vec<String>,
}

#[derive(Default, Clone)]
pub struct AStat {
    pub checked: u64,
    pub trivially: u64,
    pub discharged: u64,
    pub violated: u64,
}

pub struct Case {
    pub kind: String, // witness | violation
    pub label: String,
    pub text: String,
    pub group: u64,
}

pub struct Engine {
    pub m: Module,
    pub s: Solver,
    pub gcache: Vec<Option<Rc<Obj>>>,
    pub bi: Vec<Option<Option<Rc<crate::builtins::Bi>>>>,
    pub paths: u64,
    pub infeasible: u64,
    pub cut: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: BTreeMap<String, AStat>,
    pub cases: Vec<Case>,
    pub violations: BTreeMap<String, u64>,
    pub errors: Vec<String>,
    pub reached: BTreeMap<String, u64>,
    pub funcs_run: HashSet<usize>,
    pub params: Vec<u64>,
    pub ends: BTreeMap<String, u64>,
    pub witness_max: u64,
    pub witness_s: f64,
    pub rounded: u64,
    pub deadline: Instant,
    pub links: HashMap<(E, u8), E>,
    pub uf_used: BTreeSet<String>,
    pub cross_every: u64,
    pub verbose: bool,
    pub stop_first: bool,
    pub max_paths: u64,
    pub max_mem: u64,
    pub later: Vec<State>,
    pub full: bool,
    pub incomplete: u64,
    pub inconclusive: u64,
    pub max_viol: u64,
    pub grp: u64,
}

pub fn v_from(e: E) -> V {
    match node(e) {
        N::C(_, v) => V::C(*v),
        N::B(b) => V::C(*b as u128),
        _ => match sort(e) {
            Sort::Real => {
                if let Some(c) = rconst_of(e) {
                    if let Some(f) = c.exact_f64() {
                        return V::F(f);
                    }
                }
                V::R(e)
            }
            Sort::BV(1) => V::B(eq(e, bv(1, 1))),
            _ => V::B(e),
        },
    }
}

impl V {
    /// bitvector expression of width w (w == 1: Bool sort)
    pub fn bv(&self, w: u32) -> X<E> {
        match self {
            V::C(c) => {
                if w == 1 {
                    Ok(bconst(c & 1 == 1))
                } else {
                    Ok(bv(w, *c))
                }
            }
            V::B(e) => Ok(*e),
            V::U => Ok(if w == 1 { bconst(false) } else { bv(w, 0) }),
            V::F(f) => Ok(bv(w, f.to_bits() as u128)),
            V::R(r) => Ok(rbits(*r)),
            V::A(_) => err("aggregate used as integer"),
        }
    }
    pub fn c(&self) -> Option<u128> {
        match self {
            V::C(c) => Some(*c),
            V::U => Some(0),
            _ => None,
        }
    }
    /// real expression of a finite float
    pub fn real(&self) -> Option<E> {
        match self {
            V::F(f) if f.is_finite() => Some(rconst(Rat::from_f64(*f))),
            V::R(e) => Some(*e),
            V::U => Some(rint(0)),
            _ => None,
        }
    }
}

pub fn scalar_bits(t: &Ty) -> u32 {
    match t {
        Ty::Int(w) => *w,
        Ty::Ptr | Ty::Double => 64,
        Ty::Float => 32,
        _ => panic!("scalar_bits of {:?}", t),
    }
}

pub fn ite_v(c: E, a: &V, b: &V, t: &Ty) -> X<V> {
    match (a, b) {
        (V::U, x) | (x, V::U) => return Ok(x.clone()),
        (V::C(x), V::C(y)) if x == y => return Ok(a.clone()),
        _ => {}
    }
    match t {
        Ty::Int(_) | Ty::Ptr => {
            let w = scalar_bits(t);
            Ok(v_from(ite(c, a.bv(w)?, b.bv(w)?)))
        }
        Ty::Double | Ty::Float => {
            if let (V::F(x), V::F(y)) = (a, b) {
                if x.to_bits() == y.to_bits() {
                    return Ok(a.clone());
                }
            }
            match (a.real(), b.real()) {
                (Some(x), Some(y)) => Ok(v_from(rite(c, x, y))),
                _ => Err(Stop::Fork(c)),
            }
        }
        Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
            let (V::A(x), V::A(y)) = (a, b) else { return err("ite over non-aggregates") };
            let mut o = vec![];
            for i in 0..x.len() {
                o.push(ite_v(c, &x[i], &y[i], &elem_ty(t, i as u64))?);
            }
            Ok(V::A(Rc::new(o)))
        }
        _ => err(format!("ite over {:?}", t)),
    }
}

/// reinterpret a 64-bit expression as a real
pub fn bits_to_real(en: &mut Engine, st: &mut State, e: E) -> X<V> {
    match nd(e) {
        N::C(_, v) => Ok(V::F(f64::from_bits(v as u64))),
        N::RBits(r) => Ok(v_from(r)),
        N::Ite(c, a, b) => {
            let x = bits_to_real(en, st, a)?;
            let y = bits_to_real(en, st, b)?;
            ite_v(c, &x, &y, &Ty::Double)
        }
        N::Bin(Bin::Or, a, k) | N::Bin(Bin::Add, a, k) => {
            if bvc(k) == Some(0x3ff0_0000_0000_0000) {
                if let N::Bin(Bin::LShr, d, s) = nd(a) {
                    if bvc(s) == Some(12) {
                        let r = en.link(st, d, 12);
                        return Ok(V::R(radd(rint(1), r)));
                    }
                }
            }
            err("float built from unsupported bit pattern")
        }
        _ => err(format!("float from bits {:?}", nd(e))),
    }
}

impl Engine {
    // ------------------------------------------------------------ path condition
    pub fn assume(&mut self, st: &mut State, c: E) {
        let mut todo = vec![c];
        while let Some(c) = todo.pop() {
            if st.known.get(&c) == Some(&true) {
                continue;
            }
            match nd(c) {
                N::B(true) => {}
                N::And(a, b) => {
                    todo.push(a);
                    todo.push(b);
                    st.known.insert(c, true);
                    st.known.insert(not(c), false);
                }
                _ => {
                    if let N::Not(o) = nd(c) {
                        if let N::Or(a, b) = nd(o) {
                            todo.push(not(a));
                            todo.push(not(b));
                        }
                    }
                    st.known.insert(c, true);
                    st.known.insert(not(c), false);
                    st.pc.push(c);
                }
            }
        }
    }
    pub fn learn(&mut self, st: &mut State, c: E, v: bool) {
        st.known.insert(c, v);
        st.known.insert(not(c), !v);
    }
    pub fn feasible(&mut self, st: &State, c: E) -> bool {
        if let Some(b) = is_bool_const(c) {
            return b;
        }
        if let Some(b) = st.known.get(&c) {
            return *b;
        }
        match self.s.check(&st.pc, &[c]) {
            Res::Unsat => false,
            Res::Sat => true,
            Res::Unknown => {
                self.inconclusive += 0;
                true
            }
        }
    }
    pub fn quick(&self, st: &State, c: E) -> Option<bool> {
        if let Some(b) = is_bool_const(c) {
            return Some(b);
        }
        if let Some(b) = st.known.get(&c) {
            return Some(*b);
        }
        match nd(c) {
            N::And(a, b) => match (self.quick(st, a), self.quick(st, b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            N::Or(a, b) => match (self.quick(st, a), self.quick(st, b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            N::Not(a) => self.quick(st, a).map(|x| !x),
            _ => None,
        }
    }
    /// truth value of c on this path; forks when both are possible
    pub fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(b) = self.quick(st, c) {
            return Ok(b);
        }
        if !self.feasible(st, c) {
            self.learn(st, c, false);
            return Ok(false);
        }
        if !self.feasible(st, not(c)) {
            self.learn(st, c, true);
            return Ok(true);
        }
        Err(Stop::Fork(c))
    }
    pub fn new_input(&mut self, st: &mut State, kind: &str, v: V) {
        st.inputs.push(Inp::In(kind.into(), v));
    }
    /// real in [0,1) (resolution `bits`) or integer-valued real linked with a 64-bit draw
    pub fn link(&mut self, st: &mut State, d: E, kind: u8) -> E {
        let r = match self.links.get(&(d, kind)) {
            Some(r) => *r,
            None => {
                let r = new_var(&format!("r{}", kind), Sort::Real);
                let hi = match kind {
                    12 => Rat::one(),
                    11 => Rat::one().sub(&Rat::from_f64(2f64.powi(-53))),
                    _ => Rat::from_f64(2f64.powi(64)).sub(&Rat::one()),
                };
                set_range(r, Rng { lo: Some((Rat::zero(), false)), hi: Some((hi, false)) });
                self.links.insert((d, kind), r);
                r
            }
        };
        let rg = rrange(r);
        let lo = cons(rlt_raw(r, &rg.lo.unwrap().0));
        let hi = cons(rgt_raw(r, &rg.hi.unwrap().0));
        if st.known.get(&not(lo)).is_none() {
            self.assume(st, not(lo));
            self.assume(st, not(hi));
        }
        // the grid k/2^52, k < 2^52, written with a variable over the closed unit interval
        let value = |k: u8, r: E| match k {
            12 => rscale(r, &Rat::one().sub(&Rat::from_f64(2f64.powi(-52)))),
            11 => r,
            _ => rscale(r, &Rat::from_f64(2f64.powi(-64))),
        };
        // other readings of the same draw keep fewer or more of its bits
        for (k2, bits) in [(12u8, 52), (11, 53), (64, 64)] {
            if k2 != kind {
                if let Some(r2) = self.links.get(&(d, k2)).copied() {
                    let own = match kind { 12 => 52, 11 => 53, _ => 64 };
                    let (a, b) = (value(kind, r), value(k2, r2));
                    let (coarse, fine, unit) = if own < bits { (a, b, own) } else { (b, a, bits) };
                    let gap = rsub(fine, coarse);
                    for c in [rle(rint(0), gap), rlt(gap, rconst(Rat::from_f64(2f64.powi(-unit))))] {
                        if st.known.get(&c).is_none() {
                            self.assume(st, c);
                        }
                    }
                }
            }
        }
        if kind == 12 { value(12, r) } else { r }
    }

    // ------------------------------------------------------------ memory
    fn global_obj(&mut self, i: u32) -> X<Rc<Obj>> {
        let k = i as usize - 1;
        if let Some(o) = &self.gcache[k] {
            return Ok(o.clone());
        }
        let g = &self.m.globals[k];
        let size = size_of(&g.ty);
        let mut data = vec![0u8; size as usize];
        match &g.init {
            Some(init) => {
                let init = init.clone();
                let ty = g.ty.clone();
                self.fill(&mut data, 0, &ty, &init)?;
            }
            None => {
                // external data (environ etc.): zero
            }
        }
        let o = Rc::new(Obj { size, data, sym: BTreeMap::new(), kind: 0 });
        self.gcache[k] = Some(o.clone());
        Ok(o)
    }
    fn fill(&mut self, data: &mut [u8], off: usize, ty: &Ty, k: &K) -> X<()> {
        match (ty, k) {
            (_, K::Zero) | (_, K::Undef) | (_, K::Null) => Ok(()),
            (Ty::Arr(n, e), K::Str(s)) => {
                if size_of(e) != 1 || *n as usize != s.len() {
                    return err("bad string constant");
                }
                data[off..off + s.len()].copy_from_slice(s);
                Ok(())
            }
            (Ty::Arr(..), K::Agg(v)) | (Ty::Struct(..), K::Agg(v)) | (Ty::Vec(..), K::Agg(v)) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let o = field_off(ty, i as u64) as usize;
                    self.fill(data, off + o, t, x)?;
                }
                Ok(())
            }
            _ => {
                let v = self.kval(ty, k)?;
                let n = size_of(ty) as usize;
                let c = match v {
                    V::C(c) => c,
                    V::F(f) => {
                        if n == 4 {
                            (f as f32).to_bits() as u128
                        } else {
                            f.to_bits() as u128
                        }
                    }
                    _ => return err("bad constant initialiser"),
                };
                data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                Ok(())
            }
        }
    }
    pub fn kval(&mut self, ty: &Ty, k: &K) -> X<V> {
        Ok(match k {
            K::Int(v) => V::C(match ty {
                Ty::Int(w) => *v & mask(*w),
                Ty::Ptr => *v & mask(64),
                _ => *v,
            }),
            K::F(f) => V::F(*f),
            K::Null => V::C(0),
            K::Undef => match ty {
                Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => self.undef(ty),
                _ => V::U,
            },
            K::Zero => self.zero(ty),
            K::Global(g) => match self.m.symaddr.get(g) {
                Some(a) => V::C(*a as u128),
                None => return err(format!("unknown symbol {}", g)),
            },
            K::Agg(v) => {
                let mut o = vec![];
                for (t, x) in v {
                    o.push(self.kval(t, x)?);
                }
                V::A(Rc::new(o))
            }
            K::Str(s) => V::A(Rc::new(s.iter().map(|b| V::C(*b as u128)).collect())),
            K::Splat(t, x) => {
                let v = self.kval(t, x)?;
                let n = match ty {
                    Ty::Vec(n, _) => *n as usize,
                    _ => return err("splat of non-vector"),
                };
                V::A(Rc::new(vec![v; n]))
            }
            K::Gep(t, b, idx) => {
                let base = self.kval(&Ty::Ptr, b)?.c().unwrap() as u64;
                let mut cur = t.clone();
                let mut a = base;
                for (i, (it, x)) in idx.iter().enumerate() {
                    let v = self.kval(it, x)?.c().unwrap();
                    let s = sx(v, scalar_bits(it)) as i64 as u64;
                    if i == 0 {
                        a = a.wrapping_add(s.wrapping_mul(size_of(&cur)));
                    } else {
                        a = a.wrapping_add(match &cur {
                            Ty::Struct(..) => field_off(&cur, s),
                            Ty::Arr(_, e) | Ty::Vec(_, e) => s.wrapping_mul(size_of(e)),
                            _ => return err("gep constant"),
                        });
                        cur = elem_ty(&cur, if let Ty::Struct(..) = cur { s } else { 0 });
                    }
                }
                V::C(a as u128)
            }
            K::Cast(from, x, to) => {
                let v = self.kval(from, x)?;
                match (v, to) {
                    (V::C(c), Ty::Int(w)) => V::C(c & mask(*w)),
                    (v, _) => v,
                }
            }
            K::BinK(op, t, a, b) => {
                let (x, y) = (self.kval(t, a)?.c().unwrap(), self.kval(t, b)?.c().unwrap());
                V::C(bin_c(*op, scalar_bits(t), x, y).unwrap())
            }
        })
    }
    fn undef(&self, ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, e) | Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| self.undef(e)).collect())),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|e| self.undef(e)).collect())),
            _ => V::U,
        }
    }
    pub fn zero(&self, ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, e) | Ty::Vec(n, e) => V::A(Rc::new((0..*n).map(|_| self.zero(e)).collect())),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|e| self.zero(e)).collect())),
            Ty::Double | Ty::Float => V::F(0.0),
            _ => V::C(0),
        }
    }
    pub fn obj(&mut self, st: &State, i: u32) -> X<Rc<Obj>> {
        if let Some(o) = st.mem.get(i) {
            return Ok(o.clone());
        }
        if i >= 1 && (i as usize) <= self.gcache.len() {
            return self.global_obj(i);
        }
        err(format!("access to dead or invalid object {}", i))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, i: u32) -> X<&'a mut Obj> {
        if st.mem.get(i).is_none() {
            if i >= 1 && (i as usize) <= self.gcache.len() {
                let o = self.global_obj(i)?;
                st.mem.put(i, o);
            } else {
                return err(format!("write to dead or invalid object {}", i));
            }
        }
        Ok(st.mem.get_mut(i).unwrap())
    }
    pub fn load_bytes(&mut self, st: &State, a: u64, n: u64) -> X<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (i, o) = split(a);
        let ob = self.obj(st, i)?;
        if o as u64 + n > ob.size {
            return err("out of bounds read");
        }
        if !ob.overlapping(o, n as u32).is_empty() {
            return err("symbolic bytes where concrete ones are needed");
        }
        Ok(ob.data[o as usize..(o as u64 + n) as usize].to_vec())
    }
    pub fn in_bounds(&mut self, st: &State, a: u64, n: u64) -> bool {
        let (i, o) = split(a);
        match self.obj(st, i) {
            Ok(ob) => o as u64 + n <= ob.size,
            Err(_) => false,
        }
    }
    /// byte expression at offset (8-bit)
    fn byte(&mut self, ob: &Obj, off: u32) -> X<E> {
        let ov = ob.overlapping(off, 1);
        if ov.is_empty() {
            return Ok(bv(8, ob.data[off as usize] as u128));
        }
        let (l, v) = &ob.sym[&ov[0]];
        let w = *l as u32 * 8;
        let e = v.bv(w)?;
        let k = (off - ov[0]) * 8;
        Ok(extract(k + 7, k, e))
    }
    fn load_c(&mut self, st: &mut State, ty: &Ty, a: u64) -> X<V> {
        match ty {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                if let Ty::Vec(n, e) = ty {
                    if let Ty::Int(w) = **e {
                        if w < 8 {
                            // bit-packed vector
                            let t = Ty::Int((*n as u32) * w);
                            let v = self.load_c(st, &t, a)?;
                            return self.bitcast(st, &t, ty, v);
                        }
                    }
                }
                let n = match ty {
                    Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
                    Ty::Struct(f, _) => f.len() as u64,
                    _ => 0,
                };
                let mut o = vec![];
                for i in 0..n {
                    o.push(self.load_c(st, &elem_ty(ty, i), a.wrapping_add(field_off(ty, i)))?);
                }
                return Ok(V::A(Rc::new(o)));
            }
            _ => {}
        }
        let w = scalar_bits(ty);
        let n = (w + 7) / 8;
        let (i, o) = split(a);
        let ob = match st.mem.get(i) {
            Some(o) => o.clone(),
            None => self.obj(st, i)?,
        };
        if o as u64 + n as u64 > ob.size {
            return err(format!("out of bounds load of {} bytes at offset {} of {}", n, o, ob.size));
        }
        if ob.sym.is_empty() {
            return Ok(self.conc(&ob.data[o as usize..(o + n) as usize], ty, w));
        }
        let ov = ob.overlapping(o, n);
        if ov.is_empty() {
            return Ok(self.conc(&ob.data[o as usize..(o + n) as usize], ty, w));
        }
        if ov.len() == 1 && ov[0] == o && ob.sym[&o].0 as u32 == n {
            let v = ob.sym[&o].1.clone();
            return self.retype(st, v, ty);
        }
        // assemble bytes
        let mut e: Option<E> = None;
        for k in 0..n {
            let b = self.byte(&ob, o + k)?;
            e = Some(match e {
                None => b,
                Some(x) => concat(b, x),
            });
        }
        let e = e.unwrap();
        let e = if w % 8 != 0 { trunc(e, w) } else { e };
        self.retype(st, v_from(e), ty)
    }
    fn conc(&self, b: &[u8], ty: &Ty, w: u32) -> V {
        let mut x = 0u128;
        for (i, c) in b.iter().enumerate() {
            x |= (*c as u128) << (8 * i);
        }
        match ty {
            Ty::Double => V::F(f64::from_bits(x as u64)),
            Ty::Float => V::F(f32::from_bits(x as u32) as f64),
            _ => V::C(x & mask(w)),
        }
    }
    /// adapt a stored value to the type of the load
    fn retype(&mut self, st: &mut State, v: V, ty: &Ty) -> X<V> {
        match (ty, &v) {
            (Ty::Double, V::B(e)) => bits_to_real(self, st, *e),
            (Ty::Double, V::C(c)) => Ok(V::F(f64::from_bits(*c as u64))),
            (Ty::Double, _) => Ok(v),
            (Ty::Int(w), V::B(e)) => {
                if *w == 1 && sort(*e) != Sort::Bool {
                    return Ok(v_from(trunc(*e, 1)));
                }
                if *w > 1 && width(*e) != *w {
                    if width(*e) > *w {
                        return Ok(v_from(trunc(*e, *w)));
                    }
                    return Ok(v_from(zext(*e, *w)));
                }
                Ok(v)
            }
            (Ty::Int(_) | Ty::Ptr, V::R(r)) => Ok(v_from(rbits(*r))),
            (Ty::Int(_) | Ty::Ptr, V::F(f)) => Ok(V::C(f.to_bits() as u128)),
            _ => Ok(v),
        }
    }
    fn store_c(&mut self, st: &mut State, ty: &Ty, v: &V, a: u64) -> X<()> {
        match ty {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                if let Ty::Vec(n, e) = ty {
                    if let Ty::Int(w) = **e {
                        if w < 8 {
                            let t = Ty::Int((*n as u32) * w);
                            let x = self.bitcast(st, ty, &t, v.clone())?;
                            return self.store_c(st, &t, &x, a);
                        }
                    }
                }
                match v {
                    V::A(x) => {
                        let x = x.clone();
                        for (i, e) in x.iter().enumerate() {
                            self.store_c(st, &elem_ty(ty, i as u64), e, a.wrapping_add(field_off(ty, i as u64)))?;
                        }
                        return Ok(());
                    }
                    V::U => return Ok(()),
                    _ => return err("store of non-aggregate"),
                }
            }
            _ => {}
        }
        let w = scalar_bits(ty);
        let n = (w + 7) / 8;
        let (i, o) = split(a);
        let ob = self.obj_mut(st, i)?;
        if o as u64 + n as u64 > ob.size {
            return err(format!("out of bounds store of {} bytes at offset {} of {}", n, o, ob.size));
        }
        self.clear_sym(st, i, o, n)?;
        let ob = st.mem.get_mut(i).unwrap();
        match v {
            V::C(c) => ob.data[o as usize..(o + n) as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]),
            V::F(f) => {
                let c = if n == 4 { (*f as f32).to_bits() as u64 } else { f.to_bits() };
                ob.data[o as usize..(o + n) as usize].copy_from_slice(&c.to_le_bytes()[..n as usize])
            }
            V::U => {
                for b in &mut ob.data[o as usize..(o + n) as usize] {
                    *b = 0;
                }
            }
            V::B(e) => {
                let e = if w < 8 || w % 8 != 0 { zext(*e, n * 8) } else { *e };
                ob.sym.insert(o, (n as u8, V::B(e)));
            }
            V::R(_) => {
                ob.sym.insert(o, (n as u8, v.clone()));
            }
            V::A(_) => return err("aggregate stored as scalar"),
        }
        Ok(())
    }
    /// drop symbolic cells in [o, o+n), splitting partially covered ones into bytes
    fn clear_sym(&mut self, st: &mut State, i: u32, o: u32, n: u32) -> X<()> {
        let ob = st.mem.get(i).unwrap().clone();
        let ov = ob.overlapping(o, n);
        if ov.is_empty() {
            return Ok(());
        }
        let mut bytes: Vec<(u32, E)> = vec![];
        for k in &ov {
            let l = ob.sym[k].0 as u32;
            if *k < o || k + l > o + n {
                for b in *k..k + l {
                    if b < o || b >= o + n {
                        bytes.push((b, self.byte(&ob, b)?));
                    }
                }
            }
        }
        drop(ob);
        let m = st.mem.get_mut(i).unwrap();
        for k in ov {
            m.sym.remove(&k);
        }
        for (b, e) in bytes {
            match bvc(e) {
                Some(c) => m.data[b as usize] = c as u8,
                None => {
                    m.sym.insert(b, (1, V::B(e)));
                }
            }
        }
        Ok(())
    }
    /// possible concrete addresses with guards
    pub fn addrs(&mut self, st: &mut State, e: E, what: &str) -> X<Vec<(u64, E)>> {
        let vs = match valset(e) {
            Some(v) => v,
            None => {
                // enumerate with the solver
                return err(format!("unbounded symbolic address ({}) {}", what, crate::builtins::show_e(e, 14)));
            }
        };
        let mut out = vec![];
        for v in vs.iter() {
            let g = eq(e, bv(64, *v));
            if self.quick(st, g) == Some(false) {
                continue;
            }
            if !self.feasible(st, g) {
                self.learn(st, g, false);
                continue;
            }
            out.push((*v as u64, g));
        }
        if out.len() == 1 {
            let g = out[0].1;
            self.learn(st, g, true);
        }
        if out.is_empty() {
            return Err(Stop::Infeasible);
        }
        Ok(out)
    }
    pub fn load(&mut self, st: &mut State, ty: &Ty, p: &V) -> X<V> {
        match p {
            V::C(a) => self.load_c(st, ty, *a as u64),
            V::B(e) => {
                let cands = self.addrs(st, *e, "load")?;
                let n = size_of(ty);
                let mut acc: Option<V> = None;
                for (a, g) in cands {
                    if !self.in_bounds(st, a, n) {
                        // a wild address: split it off so that the error is reported on its own path
                        return if self.decide(st, g)? { err(format!("out of bounds access at {:#x}", a)) } else { self.load(st, ty, p) };
                    }
                    let v = self.load_c(st, ty, a)?;
                    acc = Some(match acc {
                        None => v,
                        Some(x) => ite_v(g, &v, &x, ty)?,
                    });
                }
                Ok(acc.unwrap())
            }
            _ => err("load through a non-pointer"),
        }
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, v: &V, p: &V) -> X<()> {
        match p {
            V::C(a) => self.store_c(st, ty, v, *a as u64),
            V::B(e) => {
                let cands = self.addrs(st, *e, "store")?;
                let n = size_of(ty);
                let mut todo = vec![];
                if cands.len() == 1 {
                    return self.store_c(st, ty, v, cands[0].0);
                }
                for (a, g) in cands {
                    if !self.in_bounds(st, a, n) {
                        return if self.decide(st, g)? { err(format!("out of bounds access at {:#x}", a)) } else { self.store(st, ty, v, p) };
                    }
                    let old = self.load_c(st, ty, a)?;
                    todo.push((a, ite_v(g, v, &old, ty)?));
                }
                for (a, v) in todo {
                    self.store_c(st, ty, &v, a)?;
                }
                Ok(())
            }
            _ => err("store through a non-pointer"),
        }
    }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (si, so) = split(s);
        let (di, d_o) = split(d);
        let src = self.obj(st, si)?;
        if so as u64 + n > src.size {
            return err("memcpy source out of bounds");
        }
        let bytes = src.data[so as usize..(so as u64 + n) as usize].to_vec();
        let mut cells: Vec<(u32, u8, V)> = vec![];
        for k in src.overlapping(so, n as u32) {
            let (l, v) = src.sym[&k].clone();
            if k >= so && k as u64 + l as u64 <= so as u64 + n {
                cells.push((k - so, l, v));
            } else {
                for b in k..k + l as u32 {
                    if b >= so && (b as u64) < so as u64 + n {
                        let e = self.byte(&src, b)?;
                        cells.push((b - so, 1, v_from(e)));
                    }
                }
            }
        }
        drop(src);
        let dob = self.obj_mut(st, di)?;
        if d_o as u64 + n > dob.size {
            return err("memcpy destination out of bounds");
        }
        self.clear_sym(st, di, d_o, n as u32)?;
        let m = st.mem.get_mut(di).unwrap();
        m.data[d_o as usize..(d_o as u64 + n) as usize].copy_from_slice(&bytes);
        for (k, l, v) in cells {
            match v {
                V::C(c) => {
                    for b in 0..l as usize {
                        m.data[d_o as usize + k as usize + b] = (c >> (8 * b)) as u8;
                    }
                }
                v => {
                    m.sym.insert(d_o + k, (l, v));
                }
            }
        }
        Ok(())
    }
    pub fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (di, o) = split(d);
        let dob = self.obj_mut(st, di)?;
        if o as u64 + n > dob.size {
            return err("memset out of bounds");
        }
        self.clear_sym(st, di, o, n as u32)?;
        let m = st.mem.get_mut(di).unwrap();
        match v.c() {
            Some(c) => {
                for b in &mut m.data[o as usize..(o as u64 + n) as usize] {
                    *b = c as u8;
                }
            }
            None => {
                for k in 0..n as u32 {
                    m.sym.insert(o + k, (1, v.clone()));
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ floats
    pub fn fin(&mut self, r: E) -> V {
        if let Some(c) = rconst_of(r) {
            if let Some(f) = c.exact_f64() {
                return V::F(f);
            }
            if c.n.mag.len() + c.d.mag.len() > 120 {
                self.rounded += 1;
                return V::F(c.to_f64());
            }
        }
        V::R(r)
    }
    pub fn fbin(&mut self, st: &mut State, op: FB, a: &V, b: &V, native: bool) -> X<V> {
        let a = if let V::U = a { V::F(0.0) } else { a.clone() };
        let b = if let V::U = b { V::F(0.0) } else { b.clone() };
        if let (V::F(x), V::F(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let r = match op {
                FB::Add => x + y,
                FB::Sub => x - y,
                FB::Mul => x * y,
                FB::Div => x / y,
                FB::Rem => x % y,
            };
            if native || st.rounding || !x.is_finite() || !y.is_finite() || (op == FB::Div && y == 0.0) || op == FB::Rem {
                return Ok(V::F(r));
            }
            if r.is_finite() {
                let exact = match op {
                    FB::Add | FB::Sub => {
                        let y2 = if op == FB::Sub { -y } else { y };
                        let bb = r - x;
                        let e = (x - (r - bb)) + (y2 - bb);
                        e == 0.0 && e.is_finite()
                    }
                    FB::Mul => x == 0.0 || y == 0.0 || (x.mul_add(y, -r) == 0.0 && r.abs() > 1e-290),
                    FB::Div => x == 0.0 || (r.mul_add(y, -x) == 0.0 && r.abs() > 1e-290 && x.abs() > 1e-290),
                    FB::Rem => true,
                };
                if exact {
                    return Ok(V::F(r));
                }
            }
            let (p, q) = (Rat::from_f64(x), Rat::from_f64(y));
            let z = match op {
                FB::Add => p.add(&q),
                FB::Sub => p.sub(&q),
                FB::Mul => p.mul(&q),
                FB::Div => p.div(&q),
                FB::Rem => unreachable!(),
            };
            return Ok(self.fin(rconst(z)));
        }
        if native {
            if let (Some(x), Some(y)) = (a.real().and_then(rconst_of), b.real().and_then(rconst_of)) {
                return self.fbin(st, op, &V::F(x.to_f64()), &V::F(y.to_f64()), true);
            }
        }
        // one of them symbolic (hence finite)
        let spec = |v: &V| match v {
            V::F(f) if !f.is_finite() => Some(*f),
            _ => None,
        };
        if let Some(f) = spec(&a) {
            // special op finite
            if f.is_nan() {
                return Ok(V::F(f));
            }
            return match op {
                FB::Add | FB::Sub => Ok(V::F(f)),
                FB::Mul | FB::Div => {
                    let r = b.real().unwrap();
                    if self.decide(st, rlt0(r))? {
                        return Ok(V::F(-f));
                    }
                    if op == FB::Mul && self.decide(st, req0(r))? {
                        return Ok(V::F(f64::NAN));
                    }
                    Ok(V::F(f))
                }
                FB::Rem => err("frem"),
            };
        }
        if let Some(f) = spec(&b) {
            if f.is_nan() {
                return Ok(V::F(f));
            }
            return match op {
                FB::Add => Ok(V::F(f)),
                FB::Sub => Ok(V::F(-f)),
                FB::Mul => {
                    let r = a.real().unwrap();
                    if self.decide(st, rlt0(r))? {
                        return Ok(V::F(-f));
                    }
                    if self.decide(st, req0(r))? {
                        return Ok(V::F(f64::NAN));
                    }
                    Ok(V::F(f))
                }
                FB::Div => Ok(V::F(0.0)),
                FB::Rem => err("frem"),
            };
        }
        let (Some(x), Some(y)) = (a.real(), b.real()) else { return err(format!("float operands {:?} {:?}", a, b)) };
        let r = match op {
            FB::Add => radd(x, y),
            FB::Sub => rsub(x, y),
            FB::Mul => rmul(x, y),
            FB::Div => {
                if self.decide(st, req0(y))? {
                    if self.decide(st, req0(x))? {
                        return Ok(V::F(f64::NAN));
                    }
                    let neg = self.decide(st, rlt0(x))?;
                    return Ok(V::F(if neg { f64::NEG_INFINITY } else { f64::INFINITY }));
                }
                rdiv(x, y)
            }
            FB::Rem => return err("frem on symbolic value"),
        };
        if st.rounding && !native {
            return crate::builtins::rounded(self, st, op, x, y, r);
        }
        Ok(self.fin(r))
    }
    /// comparison result: (less, equal, unordered) as conditions
    pub fn fcmp(&mut self, p: &str, a: &V, b: &V) -> X<V> {
        let cc = |b: bool| V::C(b as u128);
        if let (V::F(x), V::F(y)) = (a, b) {
            let un = x.is_nan() || y.is_nan();
            return Ok(cc(match p {
                "false" => false,
                "true" => true,
                "oeq" => x == y,
                "ogt" => x > y,
                "oge" => x >= y,
                "olt" => x < y,
                "ole" => x <= y,
                "one" => !un && x != y,
                "ord" => !un,
                "uno" => un,
                "ueq" => un || x == y,
                "ugt" => un || x > y,
                "uge" => un || x >= y,
                "ult" => un || x < y,
                "ule" => un || x <= y,
                "une" => x != y,
                _ => return err(p),
            }));
        }
        let nan = |v: &V| matches!(v, V::F(f) if f.is_nan());
        if nan(a) || nan(b) {
            return Ok(cc(p.starts_with('u')));
        }
        match p {
            "ord" => return Ok(cc(true)),
            "uno" => return Ok(cc(false)),
            "true" => return Ok(cc(true)),
            "false" => return Ok(cc(false)),
            _ => {}
        }
        let inf = |v: &V| match v {
            V::F(f) if f.is_infinite() => Some(*f > 0.0),
            _ => None,
        };
        let (lt, eqq) = if let Some(pos) = inf(a) {
            (bconst(!pos), bconst(false))
        } else if let Some(pos) = inf(b) {
            (bconst(pos), bconst(false))
        } else {
            let (Some(x), Some(y)) = (a.real(), b.real()) else { return err("fcmp operands") };
            (rlt(x, y), req(x, y))
        };
        let gt = || -> E {
            match (inf(a), inf(b)) {
                (None, None) => rlt(b.real().unwrap(), a.real().unwrap()),
                _ => not(lt),
            }
        };
        Ok(v_from(match &p[1..] {
            "eq" => eqq,
            "ne" => not(eqq),
            "lt" => lt,
            "le" => not(gt()),
            "gt" => gt(),
            "ge" => not(lt),
            _ => return err(p),
        }))
    }

    // ------------------------------------------------------------ casts
    pub fn bitcast(&mut self, st: &mut State, from: &Ty, to: &Ty, v: V) -> X<V> {
        if from == to {
            return Ok(v);
        }
        match (from, to) {
            (Ty::Double, Ty::Int(64)) => match v {
                V::F(f) => Ok(V::C(f.to_bits() as u128)),
                V::R(r) => Ok(v_from(rbits(r))),
                v => Ok(v),
            },
            (Ty::Int(64), Ty::Double) => match v {
                V::C(c) => Ok(V::F(f64::from_bits(c as u64))),
                V::B(e) => bits_to_real(self, st, e),
                v => Ok(v),
            },
            (Ty::Float, Ty::Int(32)) => match v {
                V::F(f) => Ok(V::C((f as f32).to_bits() as u128)),
                v => Ok(v),
            },
            (Ty::Int(32), Ty::Float) => match v {
                V::C(c) => Ok(V::F(f32::from_bits(c as u32) as f64)),
                v => Ok(v),
            },
            (Ty::Ptr | Ty::Int(64), Ty::Int(64) | Ty::Ptr) => Ok(v),
            (Ty::Vec(n, e), Ty::Int(w)) => {
                let V::A(x) = v else { return Ok(v) };
                let ew = scalar_bits(e);
                if *n as u32 * ew != *w {
                    return err("bitcast width");
                }
                if x.iter().all(|y| y.c().is_some()) {
                    let mut o = 0u128;
                    for (i, y) in x.iter().enumerate() {
                        o |= (y.c().unwrap() & mask(ew)) << (i as u32 * ew);
                    }
                    return Ok(V::C(o));
                }
                let mut acc: Option<E> = None;
                for y in x.iter() {
                    let b = y.bv(ew)?;
                    let b = if ew == 1 { b2v(b) } else { b };
                    acc = Some(match acc {
                        None => b,
                        Some(z) => concat(b, z),
                    });
                }
                Ok(v_from(acc.unwrap()))
            }
            (Ty::Int(w), Ty::Vec(n, e)) => {
                let ew = scalar_bits(e);
                if *n as u32 * ew != *w {
                    return err("bitcast width");
                }
                let mut o = vec![];
                for i in 0..*n as u32 {
                    let x = match &v {
                        V::C(c) => V::C((c >> (i * ew)) & mask(ew)),
                        V::U => V::U,
                        V::B(b) => v_from(extract(i * ew + ew - 1, i * ew, *b)),
                        _ => return err("bitcast"),
                    };
                    let x = self.bitcast(st, &Ty::Int(ew), e, x)?;
                    o.push(x);
                }
                Ok(V::A(Rc::new(o)))
            }
            (Ty::Vec(n, e), Ty::Vec(n2, e2)) => {
                if n == n2 {
                    let V::A(x) = v else { return Ok(v) };
                    let mut o = vec![];
                    for y in x.iter() {
                        o.push(self.bitcast(st, e, e2, y.clone())?);
                    }
                    return Ok(V::A(Rc::new(o)));
                }
                let w = *n as u32 * scalar_bits(e);
                let ints = Ty::Vec(*n, Rc::new(Ty::Int(scalar_bits(e))));
                let v = self.bitcast(st, from, &ints, v)?;
                let i = self.bitcast(st, &ints, &Ty::Int(w), v)?;
                self.bitcast(st, &Ty::Int(w), to, i)
            }
            _ => err(format!("bitcast {:?} -> {:?}", from, to)),
        }
    }
    pub fn cast(&mut self, st: &mut State, c: Cast, from: &Ty, v: V, to: &Ty) -> X<V> {
        if c == Cast::Same {
            return self.bitcast(st, from, to, v);
        }
        if let (Ty::Vec(_, e), Ty::Vec(_, e2)) = (from, to) {
            let V::A(x) = v else { return Ok(v) };
            let mut o = vec![];
            for y in x.iter() {
                o.push(self.cast(st, c, e, y.clone(), e2)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        if let V::U = v {
            return Ok(match to {
                Ty::Double | Ty::Float => V::F(0.0),
                _ => V::C(0),
            });
        }
        match c {
            Cast::Trunc => {
                let w = scalar_bits(to);
                match v {
                    V::C(x) => Ok(V::C(x & mask(w))),
                    V::B(e) => Ok(v_from(trunc(e, w))),
                    _ => err("trunc"),
                }
            }
            Cast::ZExt => {
                let w = scalar_bits(to);
                match v {
                    V::C(x) => Ok(V::C(x)),
                    V::B(e) => Ok(v_from(zext(e, w))),
                    _ => err("zext"),
                }
            }
            Cast::SExt => {
                let (w0, w) = (scalar_bits(from), scalar_bits(to));
                match v {
                    V::C(x) => Ok(V::C(sx(x, w0) as u128 & mask(w))),
                    V::B(e) => Ok(v_from(sext(e, w))),
                    _ => err("sext"),
                }
            }
            Cast::FpTrunc => match v {
                V::F(f) => Ok(V::F(f as f32 as f64)),
                _ => err("fptrunc of symbolic"),
            },
            Cast::FpExt => Ok(v),
            Cast::UiToFp | Cast::SiToFp => {
                let w = scalar_bits(from);
                match v {
                    V::C(x) => {
                        let signed = c == Cast::SiToFp;
                        if signed {
                            Ok(V::F(sx(x, w) as f64))
                        } else {
                            Ok(V::F(x as f64))
                        }
                    }
                    V::B(e) => {
                        let e = if sort(e) == Sort::Bool { b2v(e) } else { e };
                        if c == Cast::SiToFp && urange(e).1 >= 1u128 << (width(e) - 1) {
                            // signed value: split
                            let w = width(e);
                            if self.decide(st, slt(e, bv(w, 0)))? {
                                let n = bin(Bin::Sub, bv(w, 0), e);
                                return Ok(v_from(rneg(of_bv(n))));
                            }
                        }
                        if let N::Bin(Bin::LShr, d, s) = nd(e) {
                            if bvc(s) == Some(11) && matches!(node(d), N::VVar(_)) {
                                let r = self.link(st, d, 11);
                                return Ok(V::R(rscale(r, &Rat::from_f64(2f64.powi(53)))));
                            }
                        }
                        Ok(v_from(of_bv(e)))
                    }
                    _ => err("itofp"),
                }
            }
            Cast::FpToUi | Cast::FpToSi => self.fptoint(st, v, scalar_bits(to), c == Cast::FpToSi, false),
            Cast::Same => unreachable!(),
        }
    }
    pub fn fptoint(&mut self, st: &mut State, v: V, w: u32, signed: bool, _sat: bool) -> X<V> {
        match v {
            V::F(f) => {
                if signed {
                    let lo = -(2f64.powi(w as i32 - 1));
                    let hi = 2f64.powi(w as i32 - 1);
                    let x = if f.is_nan() {
                        0
                    } else if f <= lo {
                        -(1i128 << (w - 1))
                    } else if f >= hi {
                        (1i128 << (w - 1)) - 1
                    } else {
                        f as i128
                    };
                    Ok(V::C(x as u128 & mask(w)))
                } else {
                    let x = if f.is_nan() || f <= 0.0 {
                        0
                    } else if f >= 2f64.powi(w as i32) {
                        mask(w)
                    } else {
                        f as u128
                    };
                    Ok(V::C(x))
                }
            }
            V::R(r) => {
                if let Some(c) = rconst_of(r) {
                    return self.fptoint(st, V::F(c.to_f64()), w, signed, _sat);
                }
                // p * 2^64 used by Bernoulli: keep as an integer-valued real (floor), only usable in comparisons with a draw
                let fl = new_var("flr", Sort::Real);
                // floor relation
                let lo = rle(fl, r);
                let hi = rlt(r, radd(fl, rint(1)));
                self.assume(st, lo);
                self.assume(st, hi);
                cx().vars[var_id(fl) as usize].integral = true;
                let nn = rle(rint(0), fl);
                if !self.decide(st, nn)? {
                    if signed {
                        return err("fptosi of a negative symbolic value");
                    }
                    return Ok(V::C(0));
                }
                Ok(V::B(ofreal(w, fl)))
            }
            V::U => Ok(V::C(0)),
            _ => err("fptoint"),
        }
    }
    pub fn ibin(&mut self, st: &mut State, op: Bin, ty: &Ty, a: &V, b: &V) -> X<V> {
        if let Ty::Vec(n, e) = ty {
            let (x, y) = (self.elems(a, *n), self.elems(b, *n));
            let mut o = vec![];
            for i in 0..*n as usize {
                o.push(self.ibin(st, op, e, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let w = scalar_bits(ty);
        match (a, b) {
            (V::C(x), V::C(y)) => match bin_c(op, w, *x, *y) {
                Some(r) => return Ok(V::C(r)),
                None => return err("division by zero"),
            },
            _ => {}
        }
        if w == 1 {
            let (x, y) = (a.bv(1)?, b.bv(1)?);
            return Ok(v_from(match op {
                Bin::And | Bin::Mul => and(x, y),
                Bin::Or => or(x, y),
                Bin::Xor | Bin::Add | Bin::Sub => xor(x, y),
                _ => return err("i1 arithmetic"),
            }));
        }
        let (x, y) = (a.bv(w)?, b.bv(w)?);
        Ok(v_from(bin(op, x, y)))
    }
    fn elems(&self, v: &V, n: u64) -> Vec<V> {
        match v {
            V::A(x) => x.to_vec(),
            _ => vec![V::U; n as usize],
        }
    }
    pub fn icmp(&mut self, st: &mut State, p: IP, ty: &Ty, a: &V, b: &V) -> X<V> {
        if let Ty::Vec(n, e) = ty {
            let (x, y) = (self.elems(a, *n), self.elems(b, *n));
            let mut o = vec![];
            for i in 0..*n as usize {
                o.push(self.icmp(st, p, e, &x[i], &y[i])?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let w = scalar_bits(ty);
        if let (Some(x), Some(y)) = (a.c(), b.c()) {
            let (sx1, sy1) = (sx(x, w), sx(y, w));
            return Ok(V::C(match p {
                IP::Eq => x == y,
                IP::Ne => x != y,
                IP::Ugt => x > y,
                IP::Uge => x >= y,
                IP::Ult => x < y,
                IP::Ule => x <= y,
                IP::Sgt => sx1 > sy1,
                IP::Sge => sx1 >= sy1,
                IP::Slt => sx1 < sy1,
                IP::Sle => sx1 <= sy1,
            } as u128));
        }
        let (mut x, mut y) = (a.bv(w)?, b.bv(w)?);
        // draw compared with the integer part of a real
        if matches!(p, IP::Ult | IP::Uge | IP::Ugt | IP::Ule) {
            if let (N::VVar(_), N::OfReal(_)) = (nd(x), nd(y)) {
                let r = self.link(st, x, 64);
                x = ofreal(64, r);
            } else if let (N::OfReal(_), N::VVar(_)) = (nd(x), nd(y)) {
                let r = self.link(st, y, 64);
                y = ofreal(64, r);
            }
        }
        if w == 1 {
            let r = match p {
                IP::Eq => not(xor(x, y)),
                IP::Ne => xor(x, y),
                IP::Ult | IP::Sgt => and(not(x), y),
                IP::Ugt | IP::Slt => and(x, not(y)),
                IP::Ule | IP::Sge => or(not(x), y),
                IP::Uge | IP::Sle => or(x, not(y)),
            };
            return Ok(v_from(r));
        }
        let r = match p {
            IP::Eq => eq(x, y),
            IP::Ne => not(eq(x, y)),
            IP::Ult => ult(x, y),
            IP::Ugt => ult(y, x),
            IP::Ule => not(ult(y, x)),
            IP::Uge => not(ult(x, y)),
            IP::Slt => slt(x, y),
            IP::Sgt => slt(y, x),
            IP::Sle => not(slt(y, x)),
            IP::Sge => not(slt(x, y)),
        };
        Ok(v_from(r))
    }

    // ------------------------------------------------------------ interpreter
    pub fn op(&mut self, fr: &Frame, ty: &Ty, o: &Op) -> X<V> {
        match o {
            Op::R(r) => Ok(fr.regs[*r as usize].clone()),
            Op::K(k) => match &**k {
                K::Int(v) => Ok(V::C(*v)),
                K::F(f) => Ok(V::F(*f)),
                k => self.kval(ty, k),
            },
        }
    }
    fn goto(&mut self, st: &mut State, b: u32) -> X<()> {
        let n = st.frames.len() - 1;
        let f = st.frames[n].f.clone();
        let cur = st.frames[n].block;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let Some(o) = p.inc.get(&cur) else { return err("phi without incoming edge") };
                let fr = &st.frames[n];
                let v = match o {
                    Op::R(r) => fr.regs[*r as usize].clone(),
                    Op::K(k) => match &**k {
                        K::Int(v) => V::C(*v),
                        k => self.kval(&p.ty, k)?,
                    },
                };
                vals.push((p.dst, v));
            }
            for (d, v) in vals {
                st.frames[n].regs[d as usize] = v;
            }
        }
        let fr = &mut st.frames[n];
        fr.block = b;
        fr.ip = 0;
        Ok(())
    }
    pub fn set_dst(&mut self, st: &mut State, d: Option<u32>, v: V) {
        if let Some(d) = d {
            let n = st.frames.len() - 1;
            st.frames[n].regs[d as usize] = v;
        }
    }
    pub fn push_frame(&mut self, st: &mut State, id: usize, args: Vec<V>, dst: Option<u32>, next: Option<u32>) -> X<()> {
        if st.frames.len() > 400 {
            return err("call stack too deep");
        }
        let f = match self.m.func(id) {
            Ok(f) => f,
            Err(e) => return err(e),
        };
        self.funcs_run.insert(id);
        let native = st.frames.last().map_or(false, |x| x.native_fp);
        let mut regs = vec![V::U; f.nregs];
        for (i, p) in f.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = args[i].clone();
            }
        }
        st.frames.push(Frame { f, block: 0, ip: 0, regs, dst, next, allocas: vec![], native_fp: native });
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> X<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.free(*a);
        }
        if st.frames.is_empty() {
            return Err(Stop::Done("ok".into()));
        }
        if let (Some(_), Some(v)) = (fr.dst, v) {
            self.set_dst(st, fr.dst, v);
        }
        match fr.next {
            Some(b) => self.goto(st, b),
            None => {
                let n = st.frames.len() - 1;
                st.frames[n].ip += 1;
                Ok(())
            }
        }
    }
    fn backtrace(&self, st: &State) -> String {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|f| short(&f.f.name))
            .collect::<Vec<_>>()
            .join(" < ")
    }

    pub fn step(&mut self, st: &mut State) -> X<()> {
        let n = st.frames.len() - 1;
        let f = st.frames[n].f.clone();
        let (b, ip) = (st.frames[n].block, st.frames[n].ip);
        let ins = &f.blocks[b as usize].ins[ip];
        st.steps += 1;
        self.instrs += 1;
        macro_rules! o {
            ($t:expr, $o:expr) => {
                self.op(&st.frames[n], $t, $o)?
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = &mut st.frames[n];
                fr.regs[*$d as usize] = v;
                fr.ip += 1;
            }};
        }
        match ins {
            I::Bin(d, op, ty, a, b) => {
                let (x, y) = (o!(ty, a), o!(ty, b));
                if let (V::C(p), V::C(q), Ty::Int(w)) = (&x, &y, ty) {
                    if let Some(r) = bin_c(*op, *w, *p, *q) {
                        set!(d, V::C(r));
                        return Ok(());
                    }
                }
                if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) {
                    if let (Ty::Int(w), V::B(e)) = (ty, &y) {
                        if self.decide(st, eq(*e, bv(*w, 0)))? {
                            return err("division by zero");
                        }
                    }
                }
                let v = self.ibin(st, *op, ty, &x, &y)?;
                set!(d, v)
            }
            I::FBin(d, op, ty, a, b) => {
                let (x, y) = (o!(ty, a), o!(ty, b));
                let nat = st.frames[n].native_fp;
                let v = if let Ty::Vec(k, _) = ty {
                    let (x, y) = (self.elems(&x, *k), self.elems(&y, *k));
                    let mut out = vec![];
                    for i in 0..*k as usize {
                        out.push(self.fbin(st, *op, &x[i], &y[i], nat)?);
                    }
                    V::A(Rc::new(out))
                } else if let Ty::Float = ty {
                    match (&x, &y) {
                        (V::F(p), V::F(q)) => {
                            let (p, q) = (*p as f32, *q as f32);
                            V::F(match op {
                                FB::Add => p + q,
                                FB::Sub => p - q,
                                FB::Mul => p * q,
                                FB::Div => p / q,
                                FB::Rem => p % q,
                            } as f64)
                        }
                        _ => return err("symbolic f32"),
                    }
                } else {
                    self.fbin(st, *op, &x, &y, nat)?
                };
                set!(d, v)
            }
            I::FNeg(d, ty, a) => {
                let x = o!(ty, a);
                let neg = |v: &V| -> X<V> {
                    Ok(match v {
                        V::F(f) => V::F(-f),
                        V::R(r) => V::R(rneg(*r)),
                        V::U => V::F(0.0),
                        _ => return err("fneg"),
                    })
                };
                let v = match &x {
                    V::A(xs) => {
                        let mut o = vec![];
                        for y in xs.iter() {
                            o.push(neg(y)?);
                        }
                        V::A(Rc::new(o))
                    }
                    x => neg(x)?,
                };
                set!(d, v)
            }
            I::ICmp(d, p, ty, a, b) => {
                let (x, y) = (o!(ty, a), o!(ty, b));
                let v = self.icmp(st, *p, ty, &x, &y)?;
                set!(d, v)
            }
            I::FCmp(d, p, ty, a, b) => {
                let (x, y) = (o!(ty, a), o!(ty, b));
                let v = if let Ty::Vec(k, _) = ty {
                    let (x, y) = (self.elems(&x, *k), self.elems(&y, *k));
                    let mut out = vec![];
                    for i in 0..*k as usize {
                        out.push(self.fcmp(p, &x[i], &y[i])?);
                    }
                    V::A(Rc::new(out))
                } else {
                    let x = if let V::U = x { V::F(0.0) } else { x };
                    let y = if let V::U = y { V::F(0.0) } else { y };
                    self.fcmp(p, &x, &y)?
                };
                set!(d, v)
            }
            I::Cast(d, c, from, a, to) => {
                let x = o!(from, a);
                let v = self.cast(st, *c, from, x, to)?;
                set!(d, v)
            }
            I::Select(d, ct, c, ty, a, b) => {
                let cv = o!(ct, c);
                let (x, y) = (o!(ty, a), o!(ty, b));
                let v = match cv {
                    V::C(k) => {
                        if k & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    V::B(e) => match self.quick(st, e) {
                        Some(true) => x,
                        Some(false) => y,
                        None => match ite_v(e, &x, &y, ty) {
                            Err(Stop::Fork(_)) => {
                                if self.decide(st, e)? {
                                    x
                                } else {
                                    y
                                }
                            }
                            r => r?,
                        },
                    },
                    V::A(cs) => {
                        let (x, y) = (self.elems(&x, cs.len() as u64), self.elems(&y, cs.len() as u64));
                        let mut o = vec![];
                        for (i, k) in cs.iter().enumerate() {
                            o.push(match k {
                                V::C(k) => {
                                    if k & 1 == 1 {
                                        x[i].clone()
                                    } else {
                                        y[i].clone()
                                    }
                                }
                                V::B(e) => ite_v(*e, &x[i], &y[i], &elem_ty(ty, i as u64))?,
                                _ => y[i].clone(),
                            });
                        }
                        V::A(Rc::new(o))
                    }
                    _ => y,
                };
                set!(d, v)
            }
            I::Load(d, ty, p) => {
                let pv = o!(&Ty::Ptr, p);
                let v = self.load(st, ty, &pv)?;
                set!(d, v)
            }
            I::Store(ty, v, p) => {
                let pv = o!(&Ty::Ptr, p);
                let vv = o!(ty, v);
                self.store(st, ty, &vv, &pv)?;
                st.frames[n].ip += 1;
            }
            I::Gep(d, base, off, idx) => {
                let bv_ = o!(&Ty::Ptr, base);
                let mut conc = *off;
                let mut sym: Option<E> = None;
                match &bv_ {
                    V::C(c) => conc = conc.wrapping_add(*c as u64),
                    V::B(e) => sym = Some(*e),
                    V::U => {}
                    _ => return err("gep base"),
                }
                for (o, t, s) in idx {
                    let v = o!(t, o);
                    let w = scalar_bits(t);
                    match &v {
                        V::C(c) => conc = conc.wrapping_add((sx(*c, w) as i64 as u64).wrapping_mul(*s)),
                        V::B(e) => {
                            let e = sext(*e, 64);
                            let t = bin(Bin::Mul, e, bv(64, *s as u128));
                            sym = Some(match sym {
                                None => t,
                                Some(x) => bin(Bin::Add, x, t),
                            });
                        }
                        V::U => {}
                        _ => return err("gep index"),
                    }
                }
                let v = match sym {
                    None => V::C(conc as u128),
                    Some(e) => v_from(bin(Bin::Add, e, bv(64, conc as u128))),
                };
                set!(d, v)
            }
            I::Alloca(d, size, cnt) => {
                let k = match cnt {
                    None => 1,
                    Some((o, t)) => match o!(t, o) {
                        V::C(c) => c as u64,
                        _ => return err("symbolic alloca"),
                    },
                };
                let i = st.mem.alloc(size * k, 2);
                st.frames[n].allocas.push(i);
                set!(d, V::C(addr(i, 0) as u128))
            }
            I::Call { dst, ret, callee, args, next } => {
                let cv = match callee {
                    Op::K(k) => match &**k {
                        K::Int(a) => V::C(*a),
                        K::Global(g) => return err(format!("call to unknown symbol {}", g)),
                        _ => return err("callee"),
                    },
                    Op::R(r) => st.frames[n].regs[*r as usize].clone(),
                };
                let target = match cv {
                    V::C(a) => a as u64,
                    V::B(e) => {
                        let c = self.addrs(st, e, "call")?;
                        let mut t = None;
                        for (a, g) in &c {
                            if self.decide(st, *g)? {
                                t = Some(*a);
                                break;
                            }
                        }
                        match t {
                            Some(t) => t,
                            None => return Err(Stop::Infeasible),
                        }
                    }
                    _ => return err("call through a non-pointer"),
                };
                let (oi, off) = split(target);
                if oi != FN_IDX {
                    return err(format!("call to non-function address {:#x}", target));
                }
                let id = (off / 16) as usize;
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args {
                    av.push(match t {
                        Ty::Meta => V::U,
                        t => o!(t, o),
                    });
                }
                if self.bi[id].is_none() {
                    let name = self.m.funcs[id].name.clone();
                    let has_body = self.m.funcs[id].body.is_some();
                    self.bi[id] = Some(crate::builtins::resolve(&name, has_body).map(Rc::new));
                }
                let bi = self.bi[id].clone().unwrap();
                if let Some(bi) = bi {
                    match crate::builtins::call(self, st, &bi, id, &av, args, ret)? {
                        crate::builtins::R::Val(v) => {
                            if let Some(d) = dst {
                                st.frames[n].regs[*d as usize] = v;
                            }
                            match next {
                                Some(b) => self.goto(st, *b)?,
                                None => st.frames[n].ip += 1,
                            }
                            return Ok(());
                        }
                        crate::builtins::R::Body => {}
                        crate::builtins::R::BodyNative => {
                            self.push_frame(st, id, av, *dst, *next)?;
                            st.frames.last_mut().unwrap().native_fp = true;
                            return Ok(());
                        }
                    }
                }
                if self.m.funcs[id].body.is_none() {
                    return err(format!("call to external function {}", self.m.funcs[id].name));
                }
                self.push_frame(st, id, av, *dst, *next)?;
            }
            I::Extract(d, ty, a, ix) => {
                let mut v = o!(ty, a);
                for i in ix {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        V::U => V::U,
                        _ => return err("extractvalue"),
                    };
                }
                set!(d, v)
            }
            I::Insert(d, ty, a, t2, b, ix) => {
                let v = o!(ty, a);
                let x = o!(t2, b);
                fn ins(en: &Engine, t: &Ty, v: V, x: V, ix: &[u64]) -> X<V> {
                    if ix.is_empty() {
                        return Ok(x);
                    }
                    let mut e = match v {
                        V::A(e) => e,
                        _ => match en.undef(t) {
                            V::A(e) => e,
                            _ => return err("insertvalue"),
                        },
                    };
                    let old = e[ix[0] as usize].clone();
                    let nv = ins(en, &elem_ty(t, ix[0]), old, x, &ix[1..])?;
                    Rc::make_mut(&mut e)[ix[0] as usize] = nv;
                    Ok(V::A(e))
                }
                let v = ins(self, ty, v, x, ix)?;
                set!(d, v)
            }
            I::ExtElem(d, ty, a, i) => {
                let v = o!(ty, a);
                let iv = o!(&Ty::Int(64), i);
                let Some(k) = iv.c() else { return err("symbolic vector index") };
                let v = match v {
                    V::A(x) => x[k as usize].clone(),
                    _ => V::U,
                };
                set!(d, v)
            }
            I::InsElem(d, ty, a, x, i) => {
                let v = o!(ty, a);
                let et = elem_ty(ty, 0);
                let xv = o!(&et, x);
                let iv = o!(&Ty::Int(64), i);
                let Some(k) = iv.c() else { return err("symbolic vector index") };
                let nn = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                let mut e = self.elems(&v, nn);
                e[k as usize] = xv;
                set!(d, V::A(Rc::new(e)))
            }
            I::Shuffle(d, ty, a, b, m, cnt) => {
                let x = o!(ty, a);
                let y = o!(ty, b);
                let mt = Ty::Vec(*cnt, Rc::new(Ty::Int(32)));
                let mv = o!(&mt, m);
                let nn = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => 0,
                };
                let mut all = self.elems(&x, nn);
                all.extend(self.elems(&y, nn));
                let ms = self.elems(&mv, *cnt);
                let out: Vec<V> = ms
                    .iter()
                    .map(|k| match k {
                        V::C(c) => all[*c as usize].clone(),
                        _ => V::U,
                    })
                    .collect();
                set!(d, V::A(Rc::new(out)))
            }
            I::Rmw(d, op, p, ty, v) => {
                let pv = o!(&Ty::Ptr, p);
                let vv = o!(ty, v);
                let old = self.load(st, ty, &pv)?;
                let w = scalar_bits(ty);
                let nv = match op.as_str() {
                    "xchg" => vv,
                    "add" => self.ibin(st, Bin::Add, ty, &old, &vv)?,
                    "sub" => self.ibin(st, Bin::Sub, ty, &old, &vv)?,
                    "and" => self.ibin(st, Bin::And, ty, &old, &vv)?,
                    "or" => self.ibin(st, Bin::Or, ty, &old, &vv)?,
                    "xor" => self.ibin(st, Bin::Xor, ty, &old, &vv)?,
                    "umax" | "umin" | "max" | "min" => {
                        let (x, y) = (old.bv(w)?, vv.bv(w)?);
                        let lt = if op.starts_with('u') { ult(x, y) } else { slt(x, y) };
                        v_from(if op.ends_with("max") { ite(lt, y, x) } else { ite(lt, x, y) })
                    }
                    _ => return err(format!("atomicrmw {}", op)),
                };
                self.store(st, ty, &nv, &pv)?;
                set!(d, old)
            }
            I::CmpXchg(d, p, ty, a, b) => {
                let pv = o!(&Ty::Ptr, p);
                let (x, y) = (o!(ty, a), o!(ty, b));
                let old = self.load(st, ty, &pv)?;
                let same = self.icmp(st, IP::Eq, ty, &old, &x)?;
                let ok = match same {
                    V::C(c) => c == 1,
                    V::B(e) => self.decide(st, e)?,
                    _ => false,
                };
                if ok {
                    self.store(st, ty, &y, &pv)?;
                }
                set!(d, V::A(Rc::new(vec![old, V::C(ok as u128)])))
            }
            I::Fence => st.frames[n].ip += 1,
            I::Freeze(d, a) => {
                let v = o!(&Ty::Int(64), a);
                set!(d, v)
            }
            I::Ret(v) => {
                let v = match v {
                    None => None,
                    Some((t, o)) => Some(o!(t, o)),
                };
                self.ret(st, v)?;
            }
            I::Br(b) => self.goto(st, *b)?,
            I::CondBr(c, a, b) => {
                let cv = o!(&Ty::Int(1), c);
                let t = match cv {
                    V::C(k) => k & 1 == 1,
                    V::B(e) => self.decide(st, e)?,
                    V::U => return err("branch on undefined value"),
                    _ => return err("branch"),
                };
                self.goto(st, if t { *a } else { *b })?;
            }
            I::Switch(ty, v, dl, cs) => {
                let w = scalar_bits(ty);
                let vv = o!(ty, v);
                let mut to = *dl;
                match vv {
                    V::C(k) => {
                        for (c, l) in cs {
                            if *c == k {
                                to = *l;
                                break;
                            }
                        }
                    }
                    V::B(e) => {
                        for (c, l) in cs {
                            let k = if w == 1 { if *c == 1 { e } else { not(e) } } else { eq(e, bv(w, *c)) };
                            if self.decide(st, k)? {
                                to = *l;
                                break;
                            }
                        }
                    }
                    _ => return err("switch"),
                }
                self.goto(st, to)?;
            }
            I::Unreachable => return err("unreachable instruction executed"),
            I::LandingPad(_) => return err("landing pad executed"),
            I::Unsup(s) => return err(format!("unsupported instruction: {}", s)),
        }
        Ok(())
    }

    pub fn run(&mut self, entry: &str) {
        let Some(id) = self.m.fidx.get(entry).cloned() else {
            self.errors.push(format!("entry {} not found", entry));
            return;
        };
        let first = self.m.globals.len() as u32 + 2;
        let mut st = State {
            frames: vec![],
            mem: Mem::new(first),
            pc: vec![],
            known: HashMap::new(),
            inputs: vec![],
            draws: HashMap::new(),
            seeds: vec![],
            sched_left: 0,
            log_pos: false,
            rounding: false,
            ndraws: 0,
            max_draws: u64::MAX,
            tier: 16,
            streams: 0,
            policy: 0,
            obs: vec![],
            reached: BTreeSet::new(),
            steps: 0,
            apps: vec![],
            trace: vec![],
        };
        if let Err(Stop::Err(e)) = self.push_frame(&mut st, id, vec![], None, None) {
            self.errors.push(e);
            return;
        }
        let mut work = vec![st];
        loop {
            let Some(st) = work.pop() else {
                if self.later.is_empty() {
                    break;
                }
                work.append(&mut self.later);
                continue;
            };
            self.memory();
            if self.full || Instant::now() > self.deadline || self.paths >= self.max_paths {
                self.incomplete += 1;
                continue;
            }
            if self.stop_first && !self.violations.is_empty() {
                // enough: the entry is already known to violate
                continue;
            }
            self.run_state(st, &mut work);
        }
    }
    /// gives up when the process has grown too large
    fn memory(&mut self) {
        if let Ok(s) = std::fs::read_to_string("/proc/self/statm") {
            let pages: u64 = s.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            if pages / 256 > self.max_mem && !self.full {
                self.full = true;
                self.errors.push(format!("memory limit of {} MB reached", self.max_mem));
            }
        }
    }
    fn run_state(&mut self, mut st: State, work: &mut Vec<State>) {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 {
                self.memory();
            }
            if tick & 0xffff == 0 && (self.full || Instant::now() > self.deadline) {
                self.incomplete += 1;
                if tick > 0x1000000 {
                    self.errors.push(format!("a path of more than {} steps was cut off by the time limit [in {}]", tick, self.backtrace(&st)));
                }
                return;
            }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Stop::Fork(c)) => {
                    self.forks += 1;
                    let mut other = st.clone();
                    self.assume(&mut st, c);
                    self.assume(&mut other, not(c));
                    work.push(other);
                }
                Err(Stop::Infeasible) => {
                    self.infeasible += 1;
                    return;
                }
                Err(Stop::Later) => {
                    st.tier *= 2;
                    self.later.push(st);
                    return;
                }
                Err(Stop::Done(k)) => {
                    self.finish(st, &k);
                    return;
                }
                Err(Stop::Err(e)) => {
                    self.paths += 1;
                    *self.ends.entry("error".into()).or_insert(0) += 1;
                    let msg = format!("{} [in {}]", e, self.backtrace(&st));
                    if self.verbose {
                        eprintln!("ERROR {}", msg);
                    }
                    // memory errors are violations of Rust's safety; everything else is a limit of the engine
                    if !self.errors.contains(&msg) {
                        self.errors.push(msg);
                    }
                    return;
                }
            }
        }
    }
    fn finish(&mut self, st: State, kind: &str) {
        let mut kind = kind.to_string();
        if kind == "cut" {
            self.cut += 1;
            return;
        }
        // reachability of the path itself
        self.paths += 1;
        if kind == "ok" && st.policy == 1 {
            self.report(&st, &[], "missing-panic: the call returned although a panic is required");
            kind = "missing-panic".into();
        } else if kind.starts_with("panic") {
            if st.policy == 0 {
                self.report(&st, &[], &format!("unexpected {}", kind));
            }
        }
        let key = kind.split(" at ").next().unwrap().to_string();
        *self.ends.entry(key).or_insert(0) += 1;
        for r in &st.reached {
            *self.reached.entry(r.clone()).or_insert(0) += 1;
        }
        // witness for native validation
        let nw = self.cases.iter().filter(|c| c.kind == "witness").count() as u64;
        if nw < self.witness_max && self.witness_s < 3.0 && (kind == "ok" || kind.starts_with("panic")) && (self.paths <= 3 || self.paths % 7 == 1) {
            let w0 = std::time::Instant::now();
            let robust = strengthen(&st.pc, &Rat::int(1).div(&Rat::int(64)));
            let pcs: Vec<E> = st.pc.clone();
            let mut m = self.refine(&robust, &[], &st);
            if m.is_none() {
                m = self.refine(&pcs, &[], &st);
            }
            if let Some(m) = m {
                let t = self.case_text(&st, &m, true, if kind == "ok" { "ok" } else { "panic" });
                self.cases.push(Case { kind: "witness".into(), label: kind.clone(), text: t, group: self.paths });
            }
            self.witness_s += w0.elapsed().as_secs_f64();
        }
    }
    /// model whose transcendental function values agree with the real functions
    pub fn refine(&mut self, pc: &[E], extra: &[E], st: &State) -> Option<Model> {
        let mut add: Vec<E> = extra.to_vec();
        let mut want: Vec<E> = vec![];
        for o in &st.obs {
            if let V::R(e) = o {
                want.push(*e);
            }
        }
        for _round in 0..6 {
            let (r, m) = self.s.model(pc, &add, &want);
            if r != Res::Sat {
                return None;
            }
            let m = m?;
            let mut bad = false;
            let mut memo = HashMap::new();
            let mut fix = vec![];
            let mut inv = vec![];
            let appset: Vec<E> = {
                let mut s = BTreeSet::new();
                let mut seen = BTreeSet::new();
                for e in pc.iter().chain(add.iter()).chain(want.iter()) {
                    apps(*e, &mut seen, &mut s);
                }
                s.into_iter().collect()
            };
            for a in &appset {
                if let N::App(f, args) = nd(*a) {
                    let name = cx().fnames[f as usize].clone();
                    let mut vals = vec![];
                    for x in &args {
                        match m.eval(*x, &mut memo) {
                            Some(Val::R(r)) => vals.push(r),
                            _ => vals.push(Rat::zero()),
                        }
                    }
                    let fl: Vec<f64> = vals.iter().map(|x| x.to_f64()).collect();
                    // keep the logarithm the solver chose and move its argument
                    if name == "log" && rconst_of(args[0]).is_none() {
                        if let Some(y) = m.apps.get(a) {
                            let x = y.to_f64().exp();
                            if x > 0.0 && x.is_finite() {
                                inv.push(req(args[0], rconst(Rat::from_f64(x))));
                                inv.push(req(cx_atom(*a), rconst(Rat::from_f64(x.ln()))));
                            }
                        }
                    }
                    if let Some(y) = crate::builtins::uf_eval(&name, &fl) {
                        let cur = m.apps.get(a).map(|r| r.to_f64()).unwrap_or(f64::NAN);
                        if !((cur - y).abs() <= 1e-9 * (1.0 + y.abs())) && y.is_finite() {
                            bad = true;
                        }
                        if y.is_finite() {
                            for (x, v) in args.iter().zip(&vals) {
                                if rconst_of(*x).is_none() {
                                    fix.push(req(*x, rconst(v.clone())));
                                }
                            }
                            let ap = cx_atom(*a);
                            fix.push(req(ap, rconst(Rat::from_f64(y))));
                        }
                    }
                }
            }
            if !bad {
                return Some(m);
            }
            // re-solve with the true values at these points
            let mut add2 = add.clone();
            add2.extend(fix.iter());
            let (r, m2) = self.s.model(pc, &add2, &want);
            if r == Res::Sat {
                return m2;
            }
            if !inv.is_empty() {
                let mut add2 = add.clone();
                add2.extend(inv.iter());
                let (r, m2) = self.s.model(pc, &add2, &want);
                if r == Res::Sat {
                    return m2;
                }
            }
            // learn value lemmas: args = v -> f(args) = y
            for a in &appset {
                if let N::App(f, args) = nd(*a) {
                    let name = cx().fnames[f as usize].clone();
                    let mut vals = vec![];
                    for x in &args {
                        if let Some(Val::R(r)) = m.eval(*x, &mut memo) {
                            vals.push(r)
                        }
                    }
                    if vals.len() != args.len() {
                        continue;
                    }
                    let fl: Vec<f64> = vals.iter().map(|x| x.to_f64()).collect();
                    if let Some(y) = crate::builtins::uf_eval(&name, &fl) {
                        if y.is_finite() {
                            let ap = cx_atom(*a);
                            let last = args.len() - 1;
                            let mut same = bconst(true);
                            for k in 0..last {
                                same = and(same, req(args[k], rconst(vals[k].clone())));
                            }
                            // monotone (increasing) in the last argument
                            let yv = rconst(Rat::from_f64(y));
                            let xv = rconst(vals[last].clone());
                            add.push(implies(and(same, rle(args[last], xv)), rle(ap, yv)));
                            add.push(implies(and(same, rle(xv, args[last])), rle(yv, ap)));
                        }
                    }
                }
            }
        }
        None
    }
    pub fn case_text(&mut self, st: &State, m: &Model, obs: bool, expect: &str) -> String {
        use std::fmt::Write;
        let mut s = String::new();
        let mut memo = HashMap::new();
        let _ = writeln!(s, "case {}", expect);
        for (i, p) in self.params.iter().enumerate() {
            let _ = writeln!(s, "param {} {}", i, p);
        }
        let fv = |v: Option<Val>| -> String {
            match v {
                Some(Val::B(b)) => format!("{}", b as u8),
                Some(Val::V(x)) => format!("{}", x),
                Some(Val::R(r)) => format!("{:016x}", r.to_f64().to_bits()),
                None => "0".into(),
            }
        };
        for i in &st.inputs {
            match i {
                Inp::In(k, v) => {
                    let val = match v {
                        V::C(c) => format!("{}", c),
                        V::F(f) => format!("{:016x}", f.to_bits()),
                        V::B(e) => match nd(*e) {
                            N::OfReal(r) => match m.eval(r, &mut memo) {
                                Some(Val::R(x)) => format!("{}", x.to_f64().round() as u64),
                                _ => "0".into(),
                            },
                            _ => fv(m.eval(*e, &mut memo)),
                        },
                        V::R(e) => match m.eval(*e, &mut memo) {
                            Some(x) => fv(Some(x)),
                            None => fv(Some(Val::R(Rat::zero()))),
                        },
                        _ => "0".into(),
                    };
                    let _ = writeln!(s, "in {} {}", k, val);
                }
                Inp::Draw(seed, idx, e) => {
                    let seed = &match m.eval(st.seeds[*seed as usize], &mut memo) {
                        Some(Val::V(x)) => x as u64,
                        _ => 0,
                    };
                    let mut bits: Option<u64> = None;
                    for (kind, scale, sh) in [(12u8, 52, 12u32), (11, 53, 11), (64, 0, 0)] {
                        if let Some(r) = self.links.get(&(*e, kind)) {
                            let vid = var_id(*r);
                            if m.m.contains_key(&vid) || bits.is_none() {
                                if let Some(Val::R(x)) = m.eval(*r, &mut memo) {
                                    let x = x.mul(&Rat::from_f64(2f64.powi(scale) - if kind == 12 { 1.0 } else { 0.0 }));
                                    // nearest representable
                                    let x = x.add(&Rat::from_f64(0.5)).floor();
                                    let top: u128 = if kind == 64 { u64::MAX as u128 } else { (1u128 << scale) - 1 };
                                    let k = x.to_i128().unwrap_or(0).max(0) as u128;
                                    bits = Some((k.min(top) as u64) << sh);
                                }
                            }
                        }
                    }
                    let b = match bits {
                        Some(b) => b,
                        None => match m.eval(*e, &mut memo) {
                            Some(Val::V(x)) => x as u64,
                            _ => 0,
                        },
                    };
                    let _ = writeln!(s, "draw {} {} {}", seed, idx, b);
                }
            }
        }
        if obs {
            for o in &st.obs {
                let t = match o {
                    V::C(c) => format!("u {}", c),
                    V::F(f) => format!("f {:016x}", f.to_bits()),
                    V::B(e) => match nd(*e) {
                        N::OfReal(r) => match m.eval(r, &mut memo) {
                            Some(Val::R(x)) => format!("u {}", x.to_f64().round() as u64),
                            _ => "x".into(),
                        },
                        _ => match m.eval(*e, &mut memo) {
                            Some(v) => format!("u {}", fv(Some(v))),
                            None => "x".into(),
                        },
                    },
                    V::R(e) => match m.eval(*e, &mut memo) {
                        Some(v) => format!("f {}", fv(Some(v))),
                        None => "x".into(),
                    },
                    _ => "x".into(),
                };
                let _ = writeln!(s, "obs {}", t);
            }
        }
        s.push_str("end\n");
        s
    }
    /// a reachable violation: produce replay candidates of decreasing robustness
    pub fn report(&mut self, st: &State, neg: &[E], label: &str) {
        let cnt = self.violations.entry(label.to_string()).or_insert(0);
        *cnt += 1;
        if *cnt > self.max_viol {
            return;
        }
        self.grp += 1;
        let g = self.grp + 1_000_000;
        let q = |a: i128, b: i128| Rat::int(a).div(&Rat::int(b));
        let plans: Vec<(Rat, Rat)> = vec![(q(1, 16), q(1, 2)), (q(1, 1024), q(1, 64)), (q(1, 1048576), q(1, 1024)), (q(1, 1048576), q(1, 1 << 24)), (q(1, 1 << 40), q(0, 1)), (q(0, 1), q(1, 1000000)), (q(0, 1), q(0, 1))];
        let mut got = 0;
        for (dp, dn) in plans {
            let pc = if dp.is_zero() { st.pc.clone() } else { strengthen(&st.pc, &dp) };
            let ng: Vec<E> = if dn.is_zero() { neg.to_vec() } else { neg.iter().map(|c| strong(*c, &dn)).collect() };
            if let Some(m) = self.refine(&pc, &ng, st) {
                let t = self.case_text(st, &m, false, "violation");
                self.cases.push(Case { kind: "violation".into(), label: label.into(), text: t, group: g });
                got += 1;
                if got >= 3 {
                    break;
                }
            }
        }
        if got == 0 {
            // path (or violation) could not be given a model
            let (r, _) = self.s.model(&st.pc, neg, &[]);
            if r == Res::Unsat {
                // the path was infeasible after all (an earlier "unknown")
                *self.violations.get_mut(label).unwrap() -= 1;
                if self.violations[label] == 0 {
                    self.violations.remove(label);
                }
                self.infeasible += 1;
            } else {
                self.inconclusive += 1;
                *self.violations.get_mut(label).unwrap() -= 1;
                if self.violations[label] == 0 {
                    self.violations.remove(label);
                }
                self.errors.push(format!("no model for a possible violation of: {}", label));
            }
        }
    }
    pub fn assertion(&mut self, st: &mut State, c: E, label: &str) -> X<()> {
        let a = self.asserts.entry(label.to_string()).or_default();
        a.checked += 1;
        if let Some(b) = is_bool_const(c) {
            if b {
                a.trivially += 1;
                return Ok(());
            }
        } else if st.known.get(&c) == Some(&true) {
            a.discharged += 1;
            return Ok(());
        }
        // split conjunctions: each conjunct is a separate query
        let mut parts = vec![];
        flatten(c, &mut parts);
        for p in parts {
            let np = not(p);
            if is_bool_const(p) == Some(true) {
                continue;
            }
            match self.s.check(&st.pc, &[np]) {
                Res::Unsat => {
                    let ce = self.cross_every;
                    self.s.cross_check(&st.pc, &[np], ce);
                }
                Res::Sat => {
                    self.report(st, &[np], label);
                    self.asserts.get_mut(label).unwrap().violated += 1;
                    if self.quick(st, p) == Some(false) || !self.feasible(st, p) {
                        return Err(Stop::Done("assertion-failed".into()));
                    }
                }
                Res::Unknown => {
                    // try to find a counterexample anyway
                    let before = self.violations.len();
                    self.inconclusive += 1;
                    self.errors.push(format!("solver gave no answer for assertion {}", label));
                    let _ = before;
                }
            }
            self.assume(st, p);
        }
        self.asserts.get_mut(label).unwrap().discharged += 1;
        Ok(())
    }
}

fn flatten(c: E, out: &mut Vec<E>) {
    if let N::And(a, b) = nd(c) {
        flatten(a, out);
        flatten(b, out);
    } else {
        out.push(c);
    }
}

pub fn cx_atom(a: E) -> E {
    atom_of(a)
}

fn cons(e: E) -> E {
    e
}
/// comparisons that are not folded by the declared range of the variable
pub fn rlt_raw(v: E, k: &Rat) -> E {
    raw_lt0(rsub(v, rconst(k.clone())))
}
pub fn rgt_raw(v: E, k: &Rat) -> E {
    raw_lt0(rsub(rconst(k.clone()), v))
}

/// stronger version of a constraint with a margin on every real inequality
pub fn strong(c: E, d: &Rat) -> E {
    match nd(c) {
        N::And(a, b) => and(strong(a, d), strong(b, d)),
        N::Or(a, b) => or(strong(a, d), strong(b, d)),
        N::Not(x) => match nd(x) {
            N::RLt0(p) => rle(rconst(d.clone()), p), // p >= d
            N::REq0(p) => or(rle(rconst(d.clone()), p), rle(p, rconst(d.neg()))),
            N::And(a, b) => or(strong(not(a), d), strong(not(b), d)),
            N::Or(a, b) => and(strong(not(a), d), strong(not(b), d)),
            _ => c,
        },
        N::RLt0(p) => rle(p, rconst(d.neg())),
        _ => c,
    }
}
fn strengthen(pc: &[E], d: &Rat) -> Vec<E> {
    // keep the declared bounds of inputs as they are; strengthen branch conditions that involve more than one variable
    pc.iter()
        .map(|c| {
            if fv(*c).len() <= 1 {
                let s = strong(*c, d);
                // single-variable bounds: only strengthen strict ones lightly
                if is_bool_const(s) == Some(false) {
                    *c
                } else {
                    s
                }
            } else {
                let s = strong(*c, d);
                if is_bool_const(s) == Some(false) {
                    *c
                } else {
                    s
                }
            }
        })
        .collect()
}

pub fn short(n: &str) -> String {
    // crude v0 demangling: keep the identifiers
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if l > 0 && i + l <= b.len() && b[i].is_ascii_alphabetic() | (b[i] == b'_') {
                let id = &n[i..i + l];
                if !(out.len() > 40) {
                    out.push(id.to_string());
                }
                i += l;
                continue;
            }
            continue;
        }
        if b[i] == b's' || b[i] == b'C' {
            // disambiguator s<base62>_
            if b[i] == b's' {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_alphanumeric() {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' {
                    i = j + 1;
                    continue;
                }
            }
        }
        i += 1;
    }
    out.join("::")
}

//! Hash-consed expression DAG: Bool, BitVec(w) and Real sorts.
//! Real expressions are always kept in a polynomial normal form over atoms.
use crate::rat::Rat;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Bool,
    BV(u32),
    Real,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

/// monomial: sorted list of (atom, exponent != 0)
pub type Mono = Vec<(E, i32)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    pub t: Vec<(Mono, Rat)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    // Bool
    B(bool),
    BVar(u32),
    Not(E),
    And(E, E),
    Or(E, E),
    Eq(E, E),  // bitvectors
    Ult(E, E), // bitvectors
    Slt(E, E), // bitvectors
    RLt0(E),
    REq0(E),
    // BV
    C(u32, u128),
    VVar(u32),
    Bin(Bin, E, E),
    ZExt(E),
    SExt(E),
    Extract(u32, u32, E), // hi, lo
    Concat(E, E),
    B2V(E),
    OfReal(E), // integer-valued, in [0, 2^(w-1))
    RBits(E),  // bits of a finite f64 seen as a real
    // Real (atoms)
    RVar(u32),
    App(u32, Vec<E>),
    OfBv(E),
    Wrap(E),
    P(Rc<Poly>),
    // generic
    Ite(E, E, E),
}

#[derive(Clone, Debug)]
pub struct Rng {
    pub lo: Option<(Rat, bool)>, // bound, strict
    pub hi: Option<(Rat, bool)>,
}

pub struct VarInfo {
    pub name: String,
    pub sort: Sort,
    pub range: Rng, // Real vars
    pub urange: (u128, u128),
    pub integral: bool,
}

pub struct Ctx {
    pub nodes: Vec<N>,
    pub sorts: Vec<Sort>,
    map: HashMap<(N, Sort), E>,
    pub vars: Vec<VarInfo>,
    pub fnames: Vec<String>,
    fmap: HashMap<String, u32>,
    pub frange: HashMap<u32, Rng>,
    ur_memo: HashMap<E, (u128, u128)>,
    rr_memo: HashMap<E, Rng>,
    vs_memo: HashMap<E, Option<Rc<BTreeSet<u128>>>>,
    leaf_memo: HashMap<E, u32>,
    fv_memo: HashMap<E, Rc<Vec<u32>>>,
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx {
                nodes: vec![],
                sorts: vec![],
                map: HashMap::new(),
                vars: vec![],
                fnames: vec![],
                fmap: HashMap::new(),
                frange: HashMap::new(),
                ur_memo: HashMap::new(),
                rr_memo: HashMap::new(),
                vs_memo: HashMap::new(),
                leaf_memo: HashMap::new(),
                fv_memo: HashMap::new(),
            }));
        }
        &mut *CTX
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

fn mk(n: N, s: Sort) -> E {
    let c = cx();
    if let Some(e) = c.map.get(&(n.clone(), s)) {
        return *e;
    }
    let e = c.nodes.len() as E;
    c.nodes.push(n.clone());
    c.sorts.push(s);
    c.map.insert((n, s), e);
    e
}

pub fn node(e: E) -> &'static N {
    &cx().nodes[e as usize]
}
/// cloned node (safe against reallocation of the arena)
pub fn nd(e: E) -> N {
    cx().nodes[e as usize].clone()
}
pub fn sort(e: E) -> Sort {
    cx().sorts[e as usize]
}
pub fn width(e: E) -> u32 {
    match sort(e) {
        Sort::BV(w) => w,
        Sort::Bool => 1,
        Sort::Real => panic!("width of real"),
    }
}

// ---------- Bool ----------
pub fn bconst(b: bool) -> E {
    mk(N::B(b), Sort::Bool)
}
pub fn is_bool_const(e: E) -> Option<bool> {
    match node(e) {
        N::B(b) => Some(*b),
        _ => None,
    }
}
pub fn not(a: E) -> E {
    match nd(a) {
        N::B(b) => bconst(!b),
        N::Not(x) => x,
        _ => mk(N::Not(a), Sort::Bool),
    }
}
fn conj_contains(hay: E, x: E, depth: u32) -> bool {
    if hay == x {
        return true;
    }
    if depth == 0 {
        return false;
    }
    match nd(hay) {
        N::And(a, b) => conj_contains(a, x, depth - 1) || conj_contains(b, x, depth - 1),
        _ => false,
    }
}
pub fn and(a: E, b: E) -> E {
    match (node(a), node(b)) {
        (N::B(false), _) => return a,
        (_, N::B(false)) => return b,
        (N::B(true), _) => return b,
        (_, N::B(true)) => return a,
        _ => {}
    }
    if a == b {
        return a;
    }
    let na = not(a);
    let nb = not(b);
    if na == b {
        return bconst(false);
    }
    if conj_contains(a, b, 6) {
        return a;
    }
    if conj_contains(b, a, 6) {
        return b;
    }
    if conj_contains(a, nb, 6) || conj_contains(b, na, 6) {
        return bconst(false);
    }
    // a & (a|x) = a ; a & (!a|x) = a & x
    for (x, nx, y) in [(a, na, b), (b, nb, a)] {
        if let N::Or(p, q) = nd(y) {
            if p == x || q == x {
                return x;
            }
            if p == nx {
                return and(x, q);
            }
            if q == nx {
                return and(x, p);
            }
        }
    }
    // disequal constants: (x==c1)&(x==c2)
    if let (N::Eq(x, c1), N::Eq(y, c2)) = (nd(a), nd(b)) {
        if x == y && c1 != c2 && is_c(c1) && is_c(c2) {
            return bconst(false);
        }
        if x == y && is_c(c1) && is_c(c2) {
            return a;
        }
    }
    for (x, y) in [(a, b), (b, a)] {
        if let (N::Eq(p, c1), N::Not(z)) = (nd(x), nd(y)) {
            if let N::Eq(q, c2) = nd(z) {
                if p == q && c1 != c2 && is_c(c1) && is_c(c2) {
                    return x;
                }
            }
        }
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    mk(N::And(a, b), Sort::Bool)
}
pub fn or(a: E, b: E) -> E {
    match (node(a), node(b)) {
        (N::B(true), _) => return a,
        (_, N::B(true)) => return b,
        (N::B(false), _) => return b,
        (_, N::B(false)) => return a,
        _ => {}
    }
    if a == b {
        return a;
    }
    let na = not(a);
    let nb = not(b);
    if na == b {
        return bconst(true);
    }
    // a | (a&x) = a ; a | (!a & x) = a | x
    for (x, nx, y) in [(a, na, b), (b, nb, a)] {
        if let N::And(p, q) = nd(y) {
            if p == x || q == x {
                return x;
            }
            if p == nx {
                return or(x, q);
            }
            if q == nx {
                return or(x, p);
            }
        }
        if let N::Or(p, q) = nd(y) {
            if p == x || q == x {
                return y;
            }
            if p == nx || q == nx {
                return bconst(true);
            }
        }
    }
    // (p&q)|(p&!q) = p
    if let (N::And(p, q), N::And(r, s)) = (nd(a), nd(b)) {
        for (p, q) in [(p, q), (q, p)] {
            for (r, s) in [(r, s), (s, r)] {
                if p == r && q == not(s) {
                    return p;
                }
            }
        }
    }
    // if (x -> implied) by (x==c1)|(x!=c2)
    for (x, y) in [(a, b), (b, a)] {
        if let (N::Eq(p, c1), N::Not(z)) = (nd(x), nd(y)) {
            if let N::Eq(q, c2) = nd(z) {
                if p == q && c1 != c2 && is_c(c1) && is_c(c2) {
                    return y;
                }
            }
        }
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    mk(N::Or(a, b), Sort::Bool)
}
pub fn xor(a: E, b: E) -> E {
    or(and(a, not(b)), and(not(a), b))
}
pub fn implies(a: E, b: E) -> E {
    or(not(a), b)
}
fn is_c(e: E) -> bool {
    matches!(node(e), N::C(..))
}

// ---------- variables ----------
pub fn new_var(name: &str, s: Sort) -> E {
    let c = cx();
    let id = c.vars.len() as u32;
    let u = match s {
        Sort::BV(w) => (0, mask(w)),
        _ => (0, 1),
    };
    c.vars.push(VarInfo {
        name: format!("{}_{}", name, id),
        sort: s,
        range: Rng { lo: None, hi: None },
        urange: u,
        integral: false,
    });
    match s {
        Sort::Bool => mk(N::BVar(id), s),
        Sort::BV(_) => mk(N::VVar(id), s),
        Sort::Real => {
            let a = mk(N::RVar(id), s);
            atom(a)
        }
    }
}
pub fn var_id(e: E) -> u32 {
    match node(e) {
        N::BVar(i) | N::VVar(i) | N::RVar(i) => *i,
        N::P(p) => {
            assert!(p.t.len() == 1);
            var_id(p.t[0].0[0].0)
        }
        _ => panic!("not a var"),
    }
}

// ---------- BV ----------
pub fn bv(w: u32, v: u128) -> E {
    mk(N::C(w, v & mask(w)), Sort::BV(w))
}
pub fn bvc(e: E) -> Option<u128> {
    match node(e) {
        N::C(_, v) => Some(*v),
        N::B(b) => Some(*b as u128),
        _ => None,
    }
}
pub fn b2v(e: E) -> E {
    match node(e) {
        N::B(b) => bv(1, *b as u128),
        _ => mk(N::B2V(e), Sort::BV(1)),
    }
}
/// number of constant leaves if e is an Ite tree with constant leaves, else 0
fn cleaves(e: E) -> u32 {
    if let Some(r) = cx().leaf_memo.get(&e) {
        return *r;
    }
    let r = match nd(e) {
        N::C(..) => 1,
        N::Ite(_, a, b) if sort(e) != Sort::Real => {
            let (x, y) = (cleaves(a), cleaves(b));
            if x == 0 || y == 0 {
                0
            } else {
                (x + y).min(1000)
            }
        }
        _ => 0,
    };
    cx().leaf_memo.insert(e, r);
    r
}
const MAXLEAF: u32 = 48;
fn map_leaves(e: E, f: &dyn Fn(E) -> E, memo: &mut HashMap<E, E>) -> E {
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    let r = match nd(e) {
        N::Ite(c, a, b) => {
            let x = map_leaves(a, f, memo);
            let y = map_leaves(b, f, memo);
            ite(c, x, y)
        }
        _ => f(e),
    };
    memo.insert(e, r);
    r
}
fn is_tree(e: E) -> bool {
    let l = cleaves(e);
    l >= 2 && l <= MAXLEAF
}

pub fn bin_c(op: Bin, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Bin::Add => a.wrapping_add(b) & m,
        Bin::Sub => a.wrapping_sub(b) & m,
        Bin::Mul => a.wrapping_mul(b) & m,
        Bin::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Bin::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Bin::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                return None;
            }
            x.wrapping_div(y) as u128 & m
        }
        Bin::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                return None;
            }
            x.wrapping_rem(y) as u128 & m
        }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Bin::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bin::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
    })
}

fn ofreal_arg(e: E) -> Option<E> {
    match nd(e) {
        N::OfReal(r) => Some(r),
        N::C(_, v) if v < (1u128 << 62) => Some(rconst(Rat::int(v as i128))),
        _ => None,
    }
}

pub fn bin(op: Bin, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let (Some(x), Some(y)) = (bvc(a), bvc(b)) {
        if let Some(r) = bin_c(op, w, x, y) {
            return bv(w, r);
        }
    }
    // commutative: constant on the right
    let (a, b) = match op {
        Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor => {
            if is_c(a) || (a > b && !is_c(b)) {
                (b, a)
            } else {
                (a, b)
            }
        }
        _ => (a, b),
    };
    // integer-valued reals
    if matches!(node(a), N::OfReal(_)) || matches!(node(b), N::OfReal(_)) {
        if let (Some(x), Some(y)) = (ofreal_arg(a), ofreal_arg(b)) {
            let r = match op {
                Bin::Add => Some(radd(x, y)),
                Bin::Sub => Some(rsub(x, y)),
                Bin::Mul => Some(rmul(x, y)),
                Bin::Shl => bvc(b).map(|s| rscale(x, &Rat::int(1i128 << s.min(60)))),
                _ => None,
            };
            if let Some(r) = r {
                return ofreal(w, r);
            }
        }
    }
    if let Some(y) = bvc(b) {
        match (op, y) {
            (Bin::Add, 0) | (Bin::Sub, 0) | (Bin::Or, 0) | (Bin::Xor, 0) | (Bin::Shl, 0) | (Bin::LShr, 0) | (Bin::AShr, 0) => return a,
            (Bin::Mul, 1) | (Bin::UDiv, 1) | (Bin::SDiv, 1) => return a,
            (Bin::Mul, 0) | (Bin::And, 0) => return bv(w, 0),
            (Bin::URem, 1) => return bv(w, 0),
            (Bin::And, m) if m == mask(w) => return a,
            (Bin::Sub, c) => return bin(Bin::Add, a, bv(w, 0u128.wrapping_sub(c))),
            (Bin::Shl, s) if s < w as u128 && s < 64 => return bin(Bin::Mul, a, bv(w, 1u128 << s)),
            (Bin::UDiv, d) if d.is_power_of_two() => return bin(Bin::LShr, a, bv(w, d.trailing_zeros() as u128)),
            (Bin::URem, d) if d.is_power_of_two() => return bin(Bin::And, a, bv(w, d - 1)),
            _ => {}
        }
        let (lo, hi) = urange(a);
        match op {
            Bin::And => {
                if (y + 1).is_power_of_two() && hi <= y {
                    return a;
                }
                // high mask on RBits
            }
            Bin::LShr => {
                if y < 128 && (hi >> y) == 0 {
                    return bv(w, 0);
                }
            }
            Bin::URem => {
                if hi < y {
                    return a;
                }
            }
            Bin::UDiv => {
                if hi < y {
                    return bv(w, 0);
                }
            }
            Bin::AShr | Bin::SDiv if hi < (1u128 << (w - 1)) => {
                let o = if op == Bin::AShr { Bin::LShr } else { Bin::UDiv };
                return bin(o, a, b);
            }
            Bin::SRem if hi < (1u128 << (w - 1)) && y < (1u128 << (w - 1)) => return bin(Bin::URem, a, b),
            _ => {}
        }
        let _ = lo;
        match (op, nd(a)) {
            (Bin::Add, N::Bin(Bin::Add, x, c)) if is_c(c) => {
                return bin(Bin::Add, x, bin(Bin::Add, c, b));
            }
            (Bin::Mul, N::Bin(Bin::Mul, x, c)) if is_c(c) => {
                return bin(Bin::Mul, x, bin(Bin::Mul, c, b));
            }
            (Bin::Mul, N::Bin(Bin::Add, x, c)) if is_c(c) => {
                return bin(Bin::Add, bin(Bin::Mul, x, b), bin(Bin::Mul, c, b));
            }
            (Bin::And, N::Bin(Bin::And, x, c)) if is_c(c) => {
                return bin(Bin::And, x, bin(Bin::And, c, b));
            }
            (Bin::LShr, N::Bin(Bin::LShr, x, c)) if is_c(c) => {
                let s = bvc(c).unwrap() + y;
                return bin(Bin::LShr, x, bv(w, s.min(w as u128)));
            }
            (Bin::LShr, N::Bin(Bin::Mul, x, c)) | (Bin::UDiv, N::Bin(Bin::Mul, x, c)) if is_c(c) => {
                // (x * c) / d with d | c and no overflow
                let d = if op == Bin::LShr { 1u128.checked_shl(y as u32).unwrap_or(0) } else { y };
                let cv = bvc(c).unwrap();
                let (_, xh) = urange(x);
                if d != 0 && xh.checked_mul(cv).map_or(false, |p| p <= mask(w)) {
                    if cv % d == 0 {
                        return bin(Bin::Mul, x, bv(w, cv / d));
                    }
                    if d % cv == 0 {
                        return bin(Bin::UDiv, x, bv(w, d / cv));
                    }
                }
            }
            (Bin::And, N::RBits(x)) if w == 64 && y == (1u128 << 63) - 1 => {
                return rbits(rabs(x));
            }
            (Bin::And, N::RBits(x)) if w == 64 && y == 1u128 << 63 => {
                return ite(rlt0(x), bv(64, 1u128 << 63), bv(64, 0));
            }
            (Bin::Xor, N::RBits(x)) if w == 64 && y == 1u128 << 63 => {
                return rbits(rneg(x));
            }
            (Bin::LShr, N::RBits(x)) if w == 64 && y == 63 => {
                return ite(rlt0(x), bv(64, 1), bv(64, 0));
            }
            (Bin::AShr, N::RBits(x)) if w == 64 && y == 63 => {
                return ite(rlt0(x), bv(64, mask(64)), bv(64, 0));
            }
            _ => {}
        }
    }
    if a == b {
        match op {
            Bin::Sub | Bin::Xor => return bv(w, 0),
            Bin::And | Bin::Or => return a,
            _ => {}
        }
    }
    // constant-leaf trees
    if is_tree(a) && is_c(b) {
        return map_leaves(a, &|x| bin(op, x, b), &mut HashMap::new());
    }
    if is_tree(b) && is_c(a) {
        return map_leaves(b, &|x| bin(op, a, x), &mut HashMap::new());
    }
    if is_tree(a) && is_tree(b) && cleaves(a) * cleaves(b) <= MAXLEAF {
        return map_leaves(a, &|x| map_leaves(b, &|y| bin(op, x, y), &mut HashMap::new()), &mut HashMap::new());
    }
    // (x + c1) + (y + c2), x + (y + c)
    if op == Bin::Add {
        if let N::Bin(Bin::Add, x, c) = nd(a) {
            if is_c(c) {
                return bin(Bin::Add, bin(Bin::Add, x, b), c);
            }
        }
        if let N::Bin(Bin::Add, x, c) = nd(b) {
            if is_c(c) {
                return bin(Bin::Add, bin(Bin::Add, a, x), c);
            }
        }
    }
    if op == Bin::Sub {
        if let N::Bin(Bin::Add, x, y) = nd(a) {
            if x == b {
                return y;
            }
            if y == b {
                return x;
            }
            if is_c(y) {
                return bin(Bin::Add, bin(Bin::Sub, x, b), y);
            }
        }
        if let N::Bin(Bin::Add, x, y) = nd(b) {
            if is_c(y) {
                let ny = bin(Bin::Sub, bv(w, 0), y);
                return bin(Bin::Add, bin(Bin::Sub, a, x), ny);
            }
        }
    }
    mk(N::Bin(op, a, b), Sort::BV(w))
}

pub fn zext(e: E, w: u32) -> E {
    let w0 = width(e);
    if w0 == w {
        return e;
    }
    let e = if sort(e) == Sort::Bool { b2v(e) } else { e };
    match nd(e) {
        N::C(_, v) => return bv(w, v),
        N::ZExt(x) => return zext(x, w),
        N::B2V(c) => return ite(c, bv(w, 1), bv(w, 0)),
        N::OfReal(r) => return ofreal(w, r),
        N::Bin(op @ (Bin::Add | Bin::Mul), a, b) if is_c(b) && w <= 128 => {
            // no-wrap distribution
            let (_, h) = urange(a);
            let c = bvc(b).unwrap();
            let r = if op == Bin::Add { h.checked_add(c) } else { h.checked_mul(c) };
            if r.map_or(false, |r| r <= mask(w0)) {
                return bin(op, zext(a, w), bv(w, c));
            }
        }
        _ => {}
    }
    if is_tree(e) {
        return map_leaves(e, &|x| zext(x, w), &mut HashMap::new());
    }
    mk(N::ZExt(e), Sort::BV(w))
}
pub fn sext(e: E, w: u32) -> E {
    let w0 = width(e);
    if w0 == w {
        return e;
    }
    let e = if sort(e) == Sort::Bool { b2v(e) } else { e };
    if let N::B2V(c) = nd(e) {
        return ite(c, bv(w, mask(w)), bv(w, 0));
    }
    if let Some(v) = bvc(e) {
        return bv(w, sx(v, w0) as u128);
    }
    if urange(e).1 < (1u128 << (w0 - 1)) {
        return zext(e, w);
    }
    if is_tree(e) {
        return map_leaves(e, &|x| sext(x, w), &mut HashMap::new());
    }
    mk(N::SExt(e), Sort::BV(w))
}
pub fn trunc(e: E, w: u32) -> E {
    extract(w - 1, 0, e)
}
pub fn extract(hi: u32, lo: u32, e: E) -> E {
    let w0 = width(e);
    let w = hi - lo + 1;
    if w == w0 {
        return e;
    }
    match nd(e) {
        N::C(_, v) => return bv(w, v >> lo),
        N::ZExt(x) => {
            let wx = width(x);
            if lo >= wx {
                return bv(w, 0);
            }
            if hi < wx {
                return extract(hi, lo, x);
            }
            if lo == 0 {
                return zext(x, w);
            }
            return zext(extract(wx - 1, lo, x), w);
        }
        N::SExt(x) => {
            let wx = width(x);
            if hi < wx {
                return extract(hi, lo, x);
            }
        }
        N::Extract(_, l2, x) => return extract(hi + l2, lo + l2, x),
        N::Concat(a, b) => {
            let wb = width(b);
            if hi < wb {
                return extract(hi, lo, b);
            }
            if lo >= wb {
                return extract(hi - wb, lo - wb, a);
            }
        }
        N::OfReal(r) if lo == 0 => {
            if let Some((h, _)) = rrange(r).hi {
                if h.cmp(&Rat::int(1i128 << (w - 1).min(100))) == Ordering::Less {
                    return ofreal(w, r);
                }
            }
        }
        N::Bin(op @ (Bin::Add | Bin::Sub | Bin::Mul | Bin::And | Bin::Or | Bin::Xor), a, b) if lo == 0 => {
            // low bits distribute
            let (x, y) = (extract(hi, 0, a), extract(hi, 0, b));
            return bin(op, x, y);
        }
        N::Ite(c, a, b) => {
            if is_tree(e) {
                return map_leaves(e, &|x| extract(hi, lo, x), &mut HashMap::new());
            }
            let (x, y) = (extract(hi, lo, a), extract(hi, lo, b));
            return ite(c, x, y);
        }
        N::Bin(Bin::LShr, a, b) => {
            if let Some(s) = bvc(b) {
                if (hi as u128 + s) < w0 as u128 {
                    return extract(hi + s as u32, lo + s as u32, a);
                }
            }
        }
        _ => {}
    }
    if lo > 0 && urange(e).1 >> lo == 0 {
        return bv(w, 0);
    }
    mk(N::Extract(hi, lo, e), Sort::BV(w))
}
pub fn concat(a: E, b: E) -> E {
    let w = width(a) + width(b);
    if let (Some(x), Some(y)) = (bvc(a), bvc(b)) {
        return bv(w, (x << width(b)) | y);
    }
    if bvc(a) == Some(0) {
        return zext(b, w);
    }
    if let (N::Extract(h1, l1, x), N::Extract(h2, l2, y)) = (nd(a), nd(b)) {
        if x == y && l1 == h2 + 1 {
            return extract(h1, l2, x);
        }
    }
    mk(N::Concat(a, b), Sort::BV(w))
}
pub fn ofreal(w: u32, r: E) -> E {
    if let Some(c) = rconst_of(r) {
        if let Some(i) = c.to_i128() {
            return bv(w, i as u128);
        }
    }
    mk(N::OfReal(r), Sort::BV(w))
}
pub fn rbits(r: E) -> E {
    if let Some(c) = rconst_of(r) {
        return bv(64, c.to_f64().to_bits() as u128);
    }
    mk(N::RBits(r), Sort::BV(64))
}

pub fn eq(a: E, b: E) -> E {
    if a == b {
        return bconst(true);
    }
    if sort(a) == Sort::Bool {
        return not(xor(a, b));
    }
    let (a, b) = if is_c(a) || (a > b && !is_c(b)) { (b, a) } else { (a, b) };
    let w = width(a);
    if let (Some(x), Some(y)) = (bvc(a), bvc(b)) {
        return bconst(x == y);
    }
    let (al, ah) = urange(a);
    let (bl, bh) = urange(b);
    if ah < bl || bh < al {
        return bconst(false);
    }
    if matches!(node(a), N::OfReal(_)) || matches!(node(b), N::OfReal(_)) {
        if let (Some(x), Some(y)) = (ofreal_arg(a), ofreal_arg(b)) {
            return req(x, y);
        }
    }
    if let (N::RBits(x), N::RBits(y)) = (nd(a), nd(b)) {
        return req(x, y);
    }
    if let Some(c) = bvc(b) {
        match nd(a) {
            N::B2V(x) => return if c == 1 { x } else { not(x) },
            N::Bin(Bin::Add, x, k) if is_c(k) => {
                return eq(x, bin(Bin::Sub, b, k));
            }
            N::Bin(Bin::Mul, x, k) if is_c(k) => {
                let kv = bvc(k).unwrap();
                if kv != 0 && urange(x).1.checked_mul(kv).map_or(false, |p| p <= mask(w)) {
                    if c % kv != 0 {
                        return bconst(false);
                    }
                    return eq(x, bv(w, c / kv));
                }
            }
            N::Bin(Bin::Xor, x, k) if is_c(k) => return eq(x, bin(Bin::Xor, b, k)),
            N::Bin(Bin::LShr, x, k) if is_c(k) => {
                // x >> k == c  <=>  c<<k <= x <= (c<<k)+2^k-1
                let kv = bvc(k).unwrap() as u32;
                if kv < w {
                    let lo = c << kv;
                    if lo >> kv != c || lo > mask(w) {
                        return bconst(false);
                    }
                    let hi = (lo | ((1u128 << kv) - 1)) & mask(w);
                    return and(not(ult(x, bv(w, lo))), not(ult(bv(w, hi), x)));
                }
            }
            N::Bin(Bin::UDiv, x, k) if is_c(k) => {
                let kv = bvc(k).unwrap();
                if kv != 0 {
                    if let Some(lo) = c.checked_mul(kv) {
                        let hi = lo.saturating_add(kv - 1).min(mask(w));
                        if lo > mask(w) {
                            return bconst(false);
                        }
                        return and(not(ult(x, bv(w, lo))), not(ult(bv(w, hi), x)));
                    }
                    return bconst(false);
                }
            }
            N::Extract(h, l, x) if l > 0 && h + 1 == width(x) => {
                let wx = width(x);
                return eq(bin(Bin::LShr, x, bv(wx, l as u128)), bv(wx, c));
            }
            N::ZExt(x) => {
                if c > mask(width(x)) {
                    return bconst(false);
                }
                return eq(x, bv(width(x), c));
            }
            N::SExt(x) => {
                let wx = width(x);
                if sx(c & mask(wx), wx) as u128 & mask(w) != c {
                    return bconst(false);
                }
                return eq(x, bv(wx, c & mask(wx)));
            }
            N::Concat(x, y) => {
                let wy = width(y);
                return and(eq(x, bv(width(x), c >> wy)), eq(y, bv(wy, c & mask(wy))));
            }
            N::Ite(k, x, y) => {
                let dx = is_c(x);
                let dy = is_c(y);
                if is_tree(a) || dx || dy {
                    let (p, q) = (eq(x, b), eq(y, b));
                    return bite(k, p, q);
                }
                let (p, q) = (eq(x, b), eq(y, b));
                if is_bool_const(p).is_some() || is_bool_const(q).is_some() {
                    return bite(k, p, q);
                }
            }
            N::RBits(x) => {
                let f = f64::from_bits(c as u64);
                if !f.is_finite() {
                    return bconst(false);
                }
                return req(x, rconst(Rat::from_f64(f)));
            }
            N::Bin(Bin::And, x, m) if is_c(m) => {
                if let N::RBits(r) = nd(x) {
                    let mv = bvc(m).unwrap();
                    let expm = 0x7ff0_0000_0000_0000u128;
                    if mv == expm && c == expm {
                        let _ = r;
                        return bconst(false); // symbolic reals are finite
                    }
                }
            }
            _ => {}
        }
        if let N::VVar(_) = node(a) {
            // 1-bit etc: keep
        }
    } else {
        if is_tree(a) && is_tree(b) && cleaves(a) * cleaves(b) <= MAXLEAF {
            let mut acc = bconst(false);
            for v in valset(a).unwrap().iter() {
                let c = bv(w, *v);
                let p = eq(a, c);
                let q = eq(b, c);
                acc = or(acc, and(p, q));
            }
            return acc;
        }
        if let (N::Bin(Bin::Add, x, k1), N::Bin(Bin::Add, y, k2)) = (nd(a), nd(b)) {
            if k1 == k2 {
                return eq(x, y);
            }
        }
        if let (N::ZExt(x), N::ZExt(y)) = (nd(a), nd(b)) {
            if width(x) == width(y) {
                return eq(x, y);
            }
        }
    }
    mk(N::Eq(a, b), Sort::Bool)
}

pub fn ult(a: E, b: E) -> E {
    if sort(a) == Sort::Bool {
        return and(not(a), b);
    }
    if a == b {
        return bconst(false);
    }
    let w = width(a);
    let (al, ah) = urange(a);
    let (bl, bh) = urange(b);
    if ah < bl {
        return bconst(true);
    }
    if al >= bh {
        return bconst(false);
    }
    if matches!(node(a), N::OfReal(_)) || matches!(node(b), N::OfReal(_)) {
        if let (Some(x), Some(y)) = (ofreal_arg(a), ofreal_arg(b)) {
            return rlt(x, y);
        }
    }
    if let Some(c) = bvc(b) {
        if c == al.wrapping_add(1) && c != 0 {
            return eq(a, bv(w, al));
        }
        if c == ah {
            return not(eq(a, b));
        }
        match nd(a) {
            N::ZExt(x) => return ult(x, bv(width(x), c)),
            N::Bin(Bin::Add, x, k) if is_c(k) => {
                let kv = bvc(k).unwrap();
                let (_, xh) = urange(x);
                if xh.checked_add(kv).map_or(false, |s| s <= mask(w)) && c >= kv {
                    return ult(x, bv(w, c - kv));
                }
            }
            N::Bin(Bin::Mul, x, k) if is_c(k) => {
                let kv = bvc(k).unwrap();
                let (_, xh) = urange(x);
                if kv != 0 && xh.checked_mul(kv).map_or(false, |s| s <= mask(w)) {
                    return ult(x, bv(w, (c + kv - 1) / kv));
                }
            }
            N::Bin(Bin::LShr, x, k) if is_c(k) => {
                let kv = bvc(k).unwrap() as u32;
                if kv < w && (c << kv) >> kv == c && (c << kv) <= mask(w) {
                    return ult(x, bv(w, c << kv));
                }
            }
            _ => {}
        }
    }
    if let Some(c) = bvc(a) {
        if c == bh.wrapping_sub(1) {
            return eq(b, bv(w, bh));
        }
        if c == bl {
            return not(eq(b, a));
        }
        match nd(b) {
            N::ZExt(x) => return ult(bv(width(x), c), x),
            N::Bin(Bin::Add, x, k) if is_c(k) => {
                let kv = bvc(k).unwrap();
                let (_, xh) = urange(x);
                if xh.checked_add(kv).map_or(false, |s| s <= mask(w)) && c >= kv {
                    return ult(bv(w, c - kv), x);
                }
            }
            N::Bin(Bin::Mul, x, k) if is_c(k) => {
                let kv = bvc(k).unwrap();
                let (_, xh) = urange(x);
                if kv != 0 && xh.checked_mul(kv).map_or(false, |s| s <= mask(w)) {
                    return ult(bv(w, c / kv), x);
                }
            }
            N::Bin(Bin::LShr, x, k) if is_c(k) => {
                let kv = bvc(k).unwrap() as u32;
                let c1 = c + 1;
                if kv < w && (c1 << kv) >> kv == c1 && (c1 << kv) <= mask(w) {
                    return not(ult(x, bv(w, c1 << kv)));
                }
            }
            _ => {}
        }
    }
    if (is_tree(a) && is_c(b)) || (is_tree(b) && is_c(a)) {
        let (t, left) = if is_tree(a) { (a, true) } else { (b, false) };
        if let N::Ite(k, x, y) = nd(t) {
            let (p, q) = if left { (ult(x, b), ult(y, b)) } else { (ult(a, x), ult(a, y)) };
            return bite(k, p, q);
        }
    }
    if let (N::ZExt(x), N::ZExt(y)) = (nd(a), nd(b)) {
        if width(x) == width(y) {
            return ult(x, y);
        }
    }
    mk(N::Ult(a, b), Sort::Bool)
}
pub fn slt(a: E, b: E) -> E {
    if a == b {
        return bconst(false);
    }
    let w = width(a);
    if let (Some(x), Some(y)) = (bvc(a), bvc(b)) {
        return bconst(sx(x, w) < sx(y, w));
    }
    if let (Some(x), Some(y)) = (tkey(a), tkey(b)) {
        return rlt(x, y);
    }
    let half = 1u128 << (w - 1);
    let (_, ah) = urange(a);
    let (_, bh) = urange(b);
    if ah < half && bh < half {
        return ult(a, b);
    }
    if let N::RBits(x) = nd(a) {
        if bvc(b) == Some(0) {
            return rlt0(x);
        }
    }
    if let N::RBits(x) = nd(b) {
        if bvc(a) == Some(mask(w)) {
            return not(rlt0(x));
        }
    }
    if let Some(c) = bvc(b) {
        if c == 0 && ah < half {
            return bconst(false);
        }
    }
    if let Some(c) = bvc(a) {
        if c == mask(w) && bh < half {
            return bconst(true);
        }
        if c >= half && bh < half {
            return bconst(true);
        }
    }
    if let Some(c) = bvc(b) {
        if c >= half && ah < half {
            return bconst(false);
        }
    }
    if (is_tree(a) && is_c(b)) || (is_tree(b) && is_c(a)) {
        let (t, left) = if is_tree(a) { (a, true) } else { (b, false) };
        if let N::Ite(k, x, y) = nd(t) {
            let (p, q) = if left { (slt(x, b), slt(y, b)) } else { (slt(a, x), slt(a, y)) };
            return bite(k, p, q);
        }
    }
    mk(N::Slt(a, b), Sort::Bool)
}
/// f64::total_cmp key:  bits ^ (((bits >> 63) as u64) >> 1)
fn tkey(e: E) -> Option<E> {
    match nd(e) {
        N::C(64, v) => {
            let mut l = v as u64 as i64;
            l ^= (((l >> 63) as u64) >> 1) as i64;
            let f = f64::from_bits(l as u64);
            if f.is_finite() {
                Some(rconst(Rat::from_f64(f)))
            } else {
                None
            }
        }
        N::Bin(Bin::Xor, a, b) => {
            for (x, y) in [(a, b), (b, a)] {
                if let N::RBits(r) = nd(x) {
                    if let N::Ite(c, p, q) = nd(y) {
                        if c == rlt0(r) && bvc(p) == Some((1u128 << 63) - 1) && bvc(q) == Some(0) {
                            return Some(r);
                        }
                    }
                }
            }
            None
        }
        _ => None,
    }
}

pub fn bite(c: E, a: E, b: E) -> E {
    match node(c) {
        N::B(true) => return a,
        N::B(false) => return b,
        _ => {}
    }
    if a == b {
        return a;
    }
    if let N::Not(x) = nd(c) {
        return bite(x, b, a);
    }
    match (is_bool_const(a), is_bool_const(b)) {
        (Some(true), Some(false)) => return c,
        (Some(false), Some(true)) => return not(c),
        (Some(true), None) => return or(c, b),
        (Some(false), None) => return and(not(c), b),
        (None, Some(true)) => return or(not(c), a),
        (None, Some(false)) => return and(c, a),
        _ => {}
    }
    if a == not(b) {
        // c xor-nor a
        return mk(N::Ite(c, a, b), Sort::Bool);
    }
    mk(N::Ite(c, a, b), Sort::Bool)
}

pub fn ite(c: E, a: E, b: E) -> E {
    match node(c) {
        N::B(true) => return a,
        N::B(false) => return b,
        _ => {}
    }
    if a == b {
        return a;
    }
    if let N::Not(x) = nd(c) {
        return ite(x, b, a);
    }
    match sort(a) {
        Sort::Bool => bite(c, a, b),
        Sort::Real => rite(c, a, b),
        Sort::BV(w) => {
            let mut a = a;
            let mut b = b;
            if let N::Ite(c2, x, _) = nd(a) {
                if c2 == c {
                    a = x;
                }
            }
            if let N::Ite(c2, _, y) = nd(b) {
                if c2 == c {
                    b = y;
                }
            }
            if let N::Ite(c2, x, y) = nd(a) {
                // ite(c, ite(c2,x,y), b) with y==b -> ite(c&c2, x, b)
                if y == b {
                    return ite(and(c, c2), x, b);
                }
                if x == b {
                    return ite(and(c, not(c2)), y, b);
                }
            }
            if let N::Ite(c2, x, y) = nd(b) {
                if x == a {
                    return ite(or(c, c2), a, y);
                }
                if y == a {
                    return ite(or(c, not(c2)), a, x);
                }
            }
            if a == b {
                return a;
            }
            if let (Some(x), Some(y)) = (ofreal_arg(a), ofreal_arg(b)) {
                if !is_c(a) || !is_c(b) {
                    return ofreal(w, rite(c, x, y));
                }
            }
            if let (N::RBits(x), N::RBits(y)) = (nd(a), nd(b)) {
                return rbits(rite(c, x, y));
            }
            mk(N::Ite(c, a, b), Sort::BV(w))
        }
    }
}

/// unsigned interval
pub fn urange(e: E) -> (u128, u128) {
    if let N::C(_, v) = node(e) {
        return (*v, *v);
    }
    if let Some(r) = cx().ur_memo.get(&e) {
        return *r;
    }
    let w = width(e);
    let m = mask(w);
    let full = (0, m);
    let r = match nd(e) {
        N::VVar(i) => cx().vars[i as usize].urange,
        N::B2V(_) => (0, 1),
        N::ZExt(x) => urange(x),
        N::Ite(_, a, b) => {
            let (p, q) = (urange(a), urange(b));
            (p.0.min(q.0), p.1.max(q.1))
        }
        N::Extract(h, l, x) => {
            let (lo, hi) = urange(x);
            if h + 1 == width(x) || hi >> l <= m {
                (lo >> l, hi >> l)
            } else {
                full
            }
        }
        N::OfReal(r) => {
            let rr = rrange(r);
            let lo = rr.lo.and_then(|x| x.0.floor().to_i128()).unwrap_or(0).max(0) as u128;
            let hi = rr.hi.and_then(|x| x.0.floor().to_i128()).map(|x| x.max(0) as u128).unwrap_or(m >> 1).min(m >> 1);
            (lo, hi)
        }
        N::Bin(op, a, b) => {
            let (al, ah) = urange(a);
            let (bl, bh) = urange(b);
            match op {
                Bin::Add => match ah.checked_add(bh) {
                    Some(h) if h <= m => (al + bl, h),
                    _ => {
                        // both wrap? (adding a negative constant)
                        match (al.checked_add(bl), ah.checked_add(bh)) {
                            (Some(l), Some(h)) if w < 128 && l > m => (l - m - 1, h - m - 1),
                            _ => full,
                        }
                    }
                },
                Bin::Sub => {
                    if al >= bh {
                        (al - bh, ah - bl)
                    } else {
                        full
                    }
                }
                Bin::Mul => match ah.checked_mul(bh) {
                    Some(h) if h <= m => (al * bl, h),
                    _ => full,
                },
                Bin::UDiv => {
                    if bl > 0 {
                        (al / bh, ah / bl)
                    } else {
                        full
                    }
                }
                Bin::URem => {
                    if bl > 0 {
                        (0, ah.min(bh - 1))
                    } else {
                        full
                    }
                }
                Bin::And => (0, ah.min(bh)),
                Bin::Or | Bin::Xor => {
                    let h = ah.max(bh);
                    let bits = 128 - h.leading_zeros();
                    (if op == Bin::Or { al.max(bl) } else { 0 }, mask(bits).min(m))
                }
                Bin::Shl => {
                    if bl == bh && bl < w as u128 && ah <= (m >> bl) {
                        (al << bl, ah << bl)
                    } else {
                        full
                    }
                }
                Bin::LShr => {
                    if bl == bh && bl < 128 {
                        (al >> bl, ah >> bl)
                    } else {
                        (0, ah)
                    }
                }
                _ => full,
            }
        }
        N::RBits(_) => full,
        _ => full,
    };
    cx().ur_memo.insert(e, r);
    r
}

const MAXVALS: usize = 128;
/// superset of the values e can take, if small
pub fn valset(e: E) -> Option<Rc<BTreeSet<u128>>> {
    if let Some(r) = cx().vs_memo.get(&e) {
        return r.clone();
    }
    let w = width(e);
    let m = mask(w);
    let by_range = |e: E| -> Option<Rc<BTreeSet<u128>>> {
        let (lo, hi) = urange(e);
        if hi - lo < MAXVALS as u128 {
            Some(Rc::new((lo..=hi).collect()))
        } else {
            None
        }
    };
    let r: Option<Rc<BTreeSet<u128>>> = match nd(e) {
        N::C(_, v) => Some(Rc::new([v].into_iter().collect())),
        N::B(b) => Some(Rc::new([b as u128].into_iter().collect())),
        N::Ite(_, a, b) if sort(e) != Sort::Bool => match (valset(a), valset(b)) {
            (Some(x), Some(y)) => {
                let s: BTreeSet<u128> = x.union(&y).cloned().collect();
                if s.len() <= MAXVALS {
                    Some(Rc::new(s))
                } else {
                    None
                }
            }
            _ => None,
        },
        N::ZExt(x) => valset(x),
        N::SExt(x) => valset(x).map(|s| {
            let wx = width(x);
            Rc::new(s.iter().map(|v| sx(*v, wx) as u128 & m).collect())
        }),
        N::Extract(_, l, x) => valset(x).map(|s| Rc::new(s.iter().map(|v| (v >> l) & m).collect())),
        N::Bin(op, a, b) => match (valset(a), valset(b)) {
            (Some(x), Some(y)) if x.len() * y.len() <= 4096 => {
                let mut s = BTreeSet::new();
                for p in x.iter() {
                    for q in y.iter() {
                        if let Some(v) = bin_c(op, w, *p, *q) {
                            s.insert(v);
                        }
                    }
                }
                if s.len() <= MAXVALS {
                    Some(Rc::new(s))
                } else {
                    None
                }
            }
            _ => None,
        },
        _ => None,
    };
    let r = match r {
        Some(s) => {
            // intersect with range
            let (lo, hi) = urange(e);
            Some(Rc::new(s.range(lo..=hi).cloned().collect()))
        }
        None if sort(e) != Sort::Bool => by_range(e),
        None => Some(Rc::new([0u128, 1].into_iter().collect())),
    };
    cx().vs_memo.insert(e, r.clone());
    r
}

// ---------- Real ----------
fn mkpoly(p: Poly) -> E {
    mk(N::P(Rc::new(p)), Sort::Real)
}
pub fn poly(e: E) -> Rc<Poly> {
    match node(e) {
        N::P(p) => p.clone(),
        x => panic!("not a poly: {:?}", x),
    }
}
pub fn rconst(r: Rat) -> E {
    if r.is_zero() {
        mkpoly(Poly { t: vec![] })
    } else {
        mkpoly(Poly { t: vec![(vec![], r)] })
    }
}
pub fn rint(i: i128) -> E {
    rconst(Rat::int(i))
}
pub fn rconst_of(e: E) -> Option<Rat> {
    match node(e) {
        N::P(p) => {
            if p.t.is_empty() {
                Some(Rat::zero())
            } else if p.t.len() == 1 && p.t[0].0.is_empty() {
                Some(p.t[0].1.clone())
            } else {
                None
            }
        }
        _ => None,
    }
}
fn atom(a: E) -> E {
    mkpoly(Poly { t: vec![(vec![(a, 1)], Rat::one())] })
}
pub fn radd(a: E, b: E) -> E {
    let (p, q) = (poly(a), poly(b));
    if p.t.is_empty() {
        return b;
    }
    if q.t.is_empty() {
        return a;
    }
    let mut out = Vec::with_capacity(p.t.len() + q.t.len());
    let (mut i, mut j) = (0, 0);
    while i < p.t.len() || j < q.t.len() {
        let o = if i == p.t.len() {
            Ordering::Greater
        } else if j == q.t.len() {
            Ordering::Less
        } else {
            p.t[i].0.cmp(&q.t[j].0)
        };
        match o {
            Ordering::Less => {
                out.push(p.t[i].clone());
                i += 1;
            }
            Ordering::Greater => {
                out.push(q.t[j].clone());
                j += 1;
            }
            Ordering::Equal => {
                let c = p.t[i].1.add(&q.t[j].1);
                if !c.is_zero() {
                    out.push((p.t[i].0.clone(), c));
                }
                i += 1;
                j += 1;
            }
        }
    }
    mkpoly(Poly { t: out })
}
pub fn rscale(a: E, k: &Rat) -> E {
    if k.is_zero() {
        return rint(0);
    }
    if k.is_one() {
        return a;
    }
    let p = poly(a);
    // 1 - 2^-52 times its rounded inverse is 1
    let eps = Rat::from_f64(2f64.powi(-50));
    let abs = |r: Rat| if r.sign() < 0 { r.neg() } else { r };
    let lt = |a: &Rat, b: &Rat| a.cmp(b) == std::cmp::Ordering::Less;
    let near = lt(&abs(k.sub(&Rat::one())), &eps);
    let fix = |c: Rat| -> Rat {
        if near {
            let d = abs(c.clone()).sub(&Rat::one());
            if lt(&abs(d), &Rat::from_f64(2f64.powi(-60))) {
                return if c.sign() < 0 { Rat::int(-1) } else { Rat::one() };
            }
        }
        c
    };
    mkpoly(Poly { t: p.t.iter().map(|(m, c)| (m.clone(), fix(c.mul(k)))).collect() })
}
pub fn rneg(a: E) -> E {
    rscale(a, &Rat::int(-1))
}
pub fn rsub(a: E, b: E) -> E {
    radd(a, rneg(b))
}
fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut out: Mono = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
            out.push(a[i]);
            i += 1;
        } else if i == a.len() || b[j].0 < a[i].0 {
            out.push(b[j]);
            j += 1;
        } else {
            let e = a[i].1 + b[j].1;
            if e != 0 {
                out.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    out
}
fn from_map(m: BTreeMap<Mono, Rat>) -> E {
    mkpoly(Poly { t: m.into_iter().filter(|x| !x.1.is_zero()).collect() })
}
const MAXTERMS: usize = 400;
pub fn rmul(a: E, b: E) -> E {
    if let Some(c) = rconst_of(a) {
        return rscale(b, &c);
    }
    if let Some(c) = rconst_of(b) {
        return rscale(a, &c);
    }
    let (p, q) = (poly(a), poly(b));
    if p.t.len() * q.t.len() > MAXTERMS {
        let wa = if p.t.len() > 4 { wrap(a) } else { a };
        let wb = if q.t.len() > 4 { wrap(b) } else { b };
        if wa != a || wb != b {
            return rmul(wa, wb);
        }
    }
    // exact cancellation of a wrapped denominator:  P * W(P')^-1 with P = k P'
    for (x, y) in [(a, b), (b, a)] {
        let py = poly(y);
        if py.t.len() == 1 && poly(x).t.len() > 1 {
            let (m, c) = &py.t[0];
            for (idx, (at, ex)) in m.iter().enumerate() {
                if *ex < 0 {
                    if let N::Wrap(inner) = nd(*at) {
                        if let Some(k) = multiple_of(x, inner) {
                            let mut m2 = m.clone();
                            if *ex == -1 {
                                m2.remove(idx);
                            } else {
                                m2[idx].1 += 1;
                            }
                            return mkpoly(Poly { t: vec![(m2, c.mul(&k))] });
                        }
                    }
                }
            }
        }
    }
    let mut m: BTreeMap<Mono, Rat> = BTreeMap::new();
    for (m1, c1) in &p.t {
        for (m2, c2) in &q.t {
            let mm = mono_mul(m1, m2);
            let c = c1.mul(c2);
            match m.get_mut(&mm) {
                Some(x) => *x = x.add(&c),
                None => {
                    m.insert(mm, c);
                }
            }
        }
    }
    from_map(m)
}
/// x == k * y (polynomials)?
fn multiple_of(x: E, y: E) -> Option<Rat> {
    let (p, q) = (poly(x), poly(y));
    if p.t.len() != q.t.len() || p.t.is_empty() {
        return None;
    }
    let k = p.t[0].1.div(&q.t[0].1);
    for i in 0..p.t.len() {
        if p.t[i].0 != q.t[i].0 || p.t[i].1 != q.t[i].1.mul(&k) {
            return None;
        }
    }
    Some(k)
}
pub fn wrap(a: E) -> E {
    let p = poly(a);
    if p.t.len() <= 1 {
        return a;
    }
    // normalise leading coefficient
    let k = p.t[0].1.clone();
    let n = rscale(a, &k.inv());
    let w = mk(N::Wrap(n), Sort::Real);
    rscale(atom(w), &k)
}
/// a^-1, assuming a != 0 on the path
pub fn rinv(a: E) -> E {
    if let Some(c) = rconst_of(a) {
        return rconst(c.inv());
    }
    let p = poly(a);
    if p.t.len() == 1 {
        let (m, c) = &p.t[0];
        return mkpoly(Poly { t: vec![(m.iter().map(|(a, e)| (*a, -e)).collect(), c.inv())] });
    }
    // factor out a common monomial so that (x*y + x*z)^-1 = x^-1 (y+z)^-1
    let mut common: Mono = p.t[0].0.clone();
    for (m, _) in &p.t[1..] {
        common = common
            .iter()
            .filter_map(|(a, e)| m.iter().find(|x| x.0 == *a).map(|x| (*a, (*e).min(x.1))))
            .filter(|x| x.1 > 0)
            .collect();
    }
    // clear negative exponents as well
    let mut negs: BTreeMap<E, i32> = BTreeMap::new();
    for (m, _) in &p.t {
        for (a, e) in m {
            if *e < 0 {
                let x = negs.entry(*a).or_insert(0);
                *x = (*x).min(*e);
            }
        }
    }
    let mut cm: Mono = common;
    for (a, e) in negs {
        cm = mono_mul(&cm, &vec![(a, e)]);
    }
    if !cm.is_empty() {
        let icm: Mono = cm.iter().map(|(a, e)| (*a, -e)).collect();
        let im = mkpoly(Poly { t: vec![(icm, Rat::one())] });
        let rest = rmul(a, im);
        if poly(rest).t.iter().all(|(m, _)| m.iter().all(|x| x.1 >= 0)) {
            return rmul(rinv_nf(rest), im);
        }
    }
    rinv_nf(a)
}
fn rinv_nf(a: E) -> E {
    let p = poly(a);
    if p.t.len() == 1 {
        let (m, c) = &p.t[0];
        return mkpoly(Poly { t: vec![(m.iter().map(|(a, e)| (*a, -e)).collect(), c.inv())] });
    }
    let w = wrap(a); // k * W
    let pw = poly(w);
    let (m, c) = &pw.t[0];
    mkpoly(Poly { t: vec![(m.iter().map(|(a, e)| (*a, -e)).collect(), c.inv())] })
}
pub fn rdiv(a: E, b: E) -> E {
    if a == b {
        return rint(1);
    }
    let i = rinv(b);
    rmul(a, i)
}
/// ite over reals, sharing common terms
pub fn rite(c: E, a: E, b: E) -> E {
    match node(c) {
        N::B(true) => return a,
        N::B(false) => return b,
        _ => {}
    }
    if a == b {
        return a;
    }
    if let N::Not(x) = nd(c) {
        return rite(x, b, a);
    }
    let (p, q) = (poly(a), poly(b));
    let mut common: BTreeMap<Mono, Rat> = BTreeMap::new();
    let mut ra: BTreeMap<Mono, Rat> = BTreeMap::new();
    let qb: BTreeMap<Mono, Rat> = q.t.iter().cloned().collect();
    let mut rb = qb.clone();
    for (m, k) in &p.t {
        match qb.get(m) {
            Some(k2) if k2 == k => {
                common.insert(m.clone(), k.clone());
                rb.remove(m);
            }
            _ => {
                // resolve nested ite on the same condition
                ra.insert(m.clone(), k.clone());
            }
        }
    }
    let (a2, b2, com) = (from_map(ra), from_map(rb), from_map(common));
    let a2 = resolve(c, true, a2);
    let b2 = resolve(c, false, b2);
    if a2 == b2 {
        return radd(com, a2);
    }
    if let (Some(x), Some(y)) = (rconst_of(a2), rconst_of(b2)) {
        let ind = atom(mk(N::Ite(c, rint(1), rint(0)), Sort::Real));
        let t = rscale(ind, &x.sub(&y));
        return radd(com, radd(t, rconst(y)));
    }
    // ite(c, ite(d, x, 0), 0) = ite(c&d, x, 0)
    for (u, v, cc) in [(a2, b2, c), (b2, a2, not(c))] {
        if rconst_of(v).map_or(false, |x| x.is_zero()) {
            let pu = poly(u);
            if pu.t.len() == 1 && pu.t[0].0.len() == 1 && pu.t[0].0[0].1 == 1 {
                let (at, k) = (pu.t[0].0[0].0, pu.t[0].1.clone());
                if let N::Ite(d, x, y) = nd(at) {
                    if rconst_of(y).map_or(false, |x| x.is_zero()) {
                        let r = rite(and(cc, d), rscale(x, &k), y);
                        return radd(com, r);
                    }
                    if rconst_of(x).map_or(false, |x| x.is_zero()) {
                        let r = rite(and(cc, not(d)), rscale(y, &k), x);
                        return radd(com, r);
                    }
                }
            }
        }
    }
    // normalise scale: leading coefficient of the first nonzero branch is one
    let lead = poly(a2).t.first().or(poly(b2).t.first()).map(|x| x.1.clone()).unwrap();
    let inv = lead.inv();
    let n = mk(N::Ite(c, rscale(a2, &inv), rscale(b2, &inv)), Sort::Real);
    radd(com, rscale(atom(n), &lead))
}
/// replace top-level linear Ite atoms whose condition is c (or !c)
fn resolve(c: E, val: bool, e: E) -> E {
    let p = poly(e);
    let mut hit = false;
    for (m, _) in &p.t {
        if m.len() == 1 && m[0].1 == 1 {
            if let N::Ite(d, ..) = node(m[0].0) {
                if *d == c {
                    hit = true;
                }
            }
        }
    }
    if !hit {
        return e;
    }
    let mut acc = rint(0);
    for (m, k) in &p.t {
        let mut t = mkpoly(Poly { t: vec![(m.clone(), k.clone())] });
        if m.len() == 1 && m[0].1 == 1 {
            if let N::Ite(d, x, y) = nd(m[0].0) {
                if d == c {
                    t = rscale(if val { x } else { y }, k);
                }
            }
        }
        acc = radd(acc, t);
    }
    acc
}
pub fn rabs(a: E) -> E {
    let r = rrange(a);
    if r.lo.as_ref().map_or(false, |x| x.0.sign() >= 0) {
        return a;
    }
    rite(rlt0(a), rneg(a), a)
}
pub fn fid(name: &str) -> u32 {
    let c = cx();
    if let Some(i) = c.fmap.get(name) {
        return *i;
    }
    let i = c.fnames.len() as u32;
    c.fnames.push(name.to_string());
    c.fmap.insert(name.to_string(), i);
    i
}
/// uninterpreted function application over reals
pub fn app(f: &str, args: Vec<E>) -> E {
    let i = fid(f);
    let a = mk(N::App(i, args), Sort::Real);
    atom(a)
}
pub fn of_bv(e: E) -> E {
    match nd(e) {
        N::C(_, v) => {
            return rconst(Rat { n: crate::rat::Big::from_u128(v), d: crate::rat::Big::from_i128(1) });
        }
        N::OfReal(r) => return r,
        N::ZExt(x) => return of_bv(x),
        N::B2V(c) => return rite(c, rint(1), rint(0)),
        N::Ite(c, a, b) => {
            let (x, y) = (of_bv(a), of_bv(b));
            return rite(c, x, y);
        }
        N::Bin(Bin::Add, a, b) => {
            let w = width(e);
            let (_, ah) = urange(a);
            let (_, bh) = urange(b);
            if ah.checked_add(bh).map_or(false, |s| s <= mask(w)) {
                return radd(of_bv(a), of_bv(b));
            }
            if let Some(k) = bvc(b) {
                // a - k' without wrap
                let neg = (mask(w) - k) + 1;
                if urange(a).0 >= neg {
                    return rsub(of_bv(a), rint(neg as i128));
                }
            }
        }
        N::Bin(Bin::Sub, a, b) => {
            if urange(a).0 >= urange(b).1 {
                return rsub(of_bv(a), of_bv(b));
            }
        }
        N::Bin(Bin::Mul, a, b) => {
            let w = width(e);
            if urange(a).1.checked_mul(urange(b).1).map_or(false, |s| s <= mask(w)) {
                return rmul(of_bv(a), of_bv(b));
            }
        }
        _ => {}
    }
    if let Some(vs) = valset(e) {
        let w = width(e);
        let mut acc = rint(0);
        let mut first = true;
        for v in vs.iter() {
            let k = rint(*v as i128);
            if first {
                acc = k;
                first = false;
            } else {
                acc = radd(acc, rite(eq(e, bv(w, *v)), rsub(k, rint(*vs.iter().next().unwrap() as i128)), rint(0)));
            }
        }
        return acc;
    }
    atom(mk(N::OfBv(e), Sort::Real))
}

fn rng_add(a: &Option<(Rat, bool)>, b: &Option<(Rat, bool)>) -> Option<(Rat, bool)> {
    match (a, b) {
        (Some(x), Some(y)) => Some((x.0.add(&y.0), x.1 || y.1)),
        _ => None,
    }
}
fn rng_mul(a: &Rng, b: &Rng) -> Rng {
    // full-interval multiply; nonneg fast path with strictness
    let nn = |r: &Rng| r.lo.as_ref().map_or(false, |x| x.0.sign() >= 0);
    if nn(a) && nn(b) {
        let lo = {
            let (x, y) = (a.lo.as_ref().unwrap(), b.lo.as_ref().unwrap());
            let v = x.0.mul(&y.0);
            let strict = if v.is_zero() {
                // positive iff both strictly positive
                let px = x.0.sign() > 0 || x.1;
                let py = y.0.sign() > 0 || y.1;
                px && py
            } else {
                x.1 || y.1
            };
            Some((v, strict))
        };
        let hi = match (&a.hi, &b.hi) {
            (Some(x), Some(y)) => Some((x.0.mul(&y.0), false)),
            _ => None,
        };
        return Rng { lo, hi };
    }
    if let (Some(al), Some(ah), Some(bl), Some(bh)) = (&a.lo, &a.hi, &b.lo, &b.hi) {
        let ps = [al.0.mul(&bl.0), al.0.mul(&bh.0), ah.0.mul(&bl.0), ah.0.mul(&bh.0)];
        let mut lo = ps[0].clone();
        let mut hi = ps[0].clone();
        for p in &ps[1..] {
            if p.cmp(&lo) == Ordering::Less {
                lo = p.clone();
            }
            if p.cmp(&hi) == Ordering::Greater {
                hi = p.clone();
            }
        }
        return Rng { lo: Some((lo, false)), hi: Some((hi, false)) };
    }
    Rng { lo: None, hi: None }
}
fn rng_scale(a: &Rng, k: &Rat) -> Rng {
    let f = |x: &Option<(Rat, bool)>| x.as_ref().map(|y| (y.0.mul(k), y.1));
    if k.sign() >= 0 {
        Rng { lo: f(&a.lo), hi: f(&a.hi) }
    } else {
        Rng { lo: f(&a.hi), hi: f(&a.lo) }
    }
}
pub fn rrange(e: E) -> Rng {
    if let Some(r) = cx().rr_memo.get(&e) {
        return r.clone();
    }
    let none = Rng { lo: None, hi: None };
    let r = match nd(e) {
        N::P(p) => {
            let mut acc = Rng { lo: Some((Rat::zero(), false)), hi: Some((Rat::zero(), false)) };
            for (m, c) in &p.t {
                let mut mr = Rng { lo: Some((Rat::one(), false)), hi: Some((Rat::one(), false)) };
                for (a, ex) in m {
                    let ar = rrange(*a);
                    let mut ar = if *ex < 0 {
                        // 1/x
                        match &ar.lo {
                            Some(l) if l.0.sign() > 0 || (l.0.is_zero() && l.1) => Rng {
                                lo: Some(match &ar.hi {
                                    Some(h) => (h.0.inv(), h.1),
                                    None => (Rat::zero(), true),
                                }),
                                hi: if l.0.sign() > 0 { Some((l.0.inv(), l.1)) } else { None },
                            },
                            // 1/x for x >= 0, x != 0 on the path
                            Some(l) if l.0.is_zero() => Rng { lo: Some((Rat::zero(), true)), hi: None },
                            _ => none.clone(),
                        }
                    } else {
                        ar
                    };
                    let n = ex.unsigned_abs();
                    let base = ar.clone();
                    if n % 2 == 0 && !ar.lo.as_ref().map_or(false, |x| x.0.sign() >= 0) {
                        ar = Rng { lo: Some((Rat::zero(), false)), hi: None };
                    } else {
                        for _ in 1..n.min(8) {
                            ar = rng_mul(&ar, &base);
                        }
                        if n > 8 {
                            ar = none.clone();
                        }
                    }
                    mr = rng_mul(&mr, &ar);
                }
                let mr = rng_scale(&mr, c);
                acc = Rng { lo: rng_add(&acc.lo, &mr.lo), hi: rng_add(&acc.hi, &mr.hi) };
            }
            acc
        }
        N::RVar(i) => cx().vars[i as usize].range.clone(),
        N::Ite(_, a, b) => {
            let (x, y) = (rrange(a), rrange(b));
            let lo = match (x.lo, y.lo) {
                (Some(p), Some(q)) => Some(match p.0.cmp(&q.0) {
                    Ordering::Less => p,
                    Ordering::Greater => q,
                    Ordering::Equal => (p.0, p.1 && q.1),
                }),
                _ => None,
            };
            let hi = match (x.hi, y.hi) {
                (Some(p), Some(q)) => Some(match p.0.cmp(&q.0) {
                    Ordering::Greater => p,
                    Ordering::Less => q,
                    Ordering::Equal => (p.0, p.1 && q.1),
                }),
                _ => None,
            };
            Rng { lo, hi }
        }
        N::App(f, _) => cx().frange.get(&f).cloned().unwrap_or(none),
        N::OfBv(x) => {
            let (l, h) = urange(x);
            let b = |v: u128| Some((Rat { n: crate::rat::Big::from_u128(v), d: crate::rat::Big::from_i128(1) }, false));
            Rng { lo: b(l), hi: b(h) }
        }
        N::Wrap(x) => rrange(x),
        _ => none,
    };
    cx().rr_memo.insert(e, r.clone());
    r
}
/// set bounds of a fresh real variable (before it is used anywhere)
pub fn set_range(v: E, r: Rng) {
    let i = var_id(v);
    cx().vars[i as usize].range = r;
    let c = cx();
    c.rr_memo.clear();
}

fn cnorm(e: E) -> E {
    // scale so that the leading coefficient has absolute value one
    let p = poly(e);
    if p.t.is_empty() {
        return e;
    }
    let k = &p.t[0].1;
    let k = if k.sign() < 0 { k.neg() } else { k.clone() };
    rscale(e, &k.inv())
}
/// single atom with constant branches
fn as_ite_split(e: E) -> Option<(E, E, E)> {
    let p = poly(e);
    let mut found = None;
    for (i, (m, _)) in p.t.iter().enumerate() {
        if m.is_empty() {
            continue;
        }
        if m.len() != 1 || m[0].1 != 1 || found.is_some() {
            return None;
        }
        if let N::Ite(c, a, b) = nd(m[0].0) {
            found = Some((i, c, a, b));
        } else {
            return None;
        }
    }
    let (i, c, a, b) = found?;
    let k = p.t[i].1.clone();
    let rest = mkpoly(Poly { t: p.t.iter().enumerate().filter(|x| x.0 != i).map(|x| x.1.clone()).collect() });
    Some((c, radd(rest, rscale(a, &k)), radd(rest, rscale(b, &k))))
}
pub fn rlt0(e: E) -> E {
    if let Some(c) = rconst_of(e) {
        return bconst(c.sign() < 0);
    }
    let r = rrange(e);
    if let Some(l) = &r.lo {
        if l.0.sign() >= 0 {
            return bconst(false);
        }
    }
    if let Some(h) = &r.hi {
        if h.0.sign() < 0 || (h.0.is_zero() && h.1) {
            return bconst(true);
        }
    }
    if let Some((c, a, b)) = as_ite_split(e) {
        let (x, y) = (rlt0(a), rlt0(b));
        return bite(c, x, y);
    }
    mk(N::RLt0(cnorm(e)), Sort::Bool)
}
pub fn req0(e: E) -> E {
    if let Some(c) = rconst_of(e) {
        return bconst(c.is_zero());
    }
    let r = rrange(e);
    if let Some(l) = &r.lo {
        if l.0.sign() > 0 || (l.0.is_zero() && l.1) {
            return bconst(false);
        }
    }
    if let Some(h) = &r.hi {
        if h.0.sign() < 0 || (h.0.is_zero() && h.1) {
            return bconst(false);
        }
    }
    if let Some((c, a, b)) = as_ite_split(e) {
        let (x, y) = (req0(a), req0(b));
        return bite(c, x, y);
    }
    let p = poly(e);
    // single monomial of positive exponents: zero iff an atom is zero; of negative exponents: never zero
    if p.t.len() == 1 {
        let m = &p.t[0].0;
        let pos: Vec<E> = m.iter().filter(|x| x.1 > 0).map(|x| x.0).collect();
        if pos.len() != 1 || m.len() != 1 || m[0].1 != 1 {
            let mut acc = bconst(false);
            for a in pos {
                let q = match nd(a) {
                    N::Wrap(i) => req0(i),
                    _ => req0(atom(a)),
                };
                acc = or(acc, q);
            }
            return acc;
        }
        if let N::Wrap(i) = nd(m[0].0) {
            return req0(i);
        }
    }
    let k = p.t[0].1.clone();
    mk(N::REq0(rscale(e, &k.inv())), Sort::Bool)
}
pub fn rlt(a: E, b: E) -> E {
    rlt0(rsub(a, b))
}
pub fn rle(a: E, b: E) -> E {
    not(rlt(b, a))
}
pub fn req(a: E, b: E) -> E {
    req0(rsub(a, b))
}

// ---------- traversal ----------
pub fn children(e: E) -> Vec<E> {
    match nd(e) {
        N::Not(a) | N::RLt0(a) | N::REq0(a) | N::ZExt(a) | N::SExt(a) | N::Extract(_, _, a) | N::B2V(a) | N::OfReal(a) | N::RBits(a) | N::OfBv(a) | N::Wrap(a) => vec![a],
        N::And(a, b) | N::Or(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Bin(_, a, b) | N::Concat(a, b) => vec![a, b],
        N::Ite(a, b, c) => vec![a, b, c],
        N::App(_, v) => v,
        N::P(p) => {
            let mut v: Vec<E> = vec![];
            for (m, _) in &p.t {
                for (a, _) in m {
                    if !v.contains(a) {
                        v.push(*a);
                    }
                }
            }
            v
        }
        _ => vec![],
    }
}
const APP_BASE: u32 = 0x8000_0000;
/// free variables (sorted); uninterpreted applications contribute a pseudo variable per function
pub fn fv(e: E) -> Rc<Vec<u32>> {
    if let Some(r) = cx().fv_memo.get(&e) {
        return r.clone();
    }
    let r = match node(e) {
        N::BVar(i) | N::VVar(i) | N::RVar(i) => Rc::new(vec![*i]),
        _ => {
            let mut v: Vec<u32> = vec![];
            for c in children(e) {
                v.extend(fv(c).iter());
            }
            if let N::App(f, _) = node(e) {
                v.push(APP_BASE + *f);
            }
            v.sort();
            v.dedup();
            Rc::new(v)
        }
    };
    cx().fv_memo.insert(e, r.clone());
    r
}
/// collect the distinct App nodes below e
pub fn apps(e: E, seen: &mut BTreeSet<E>, out: &mut BTreeSet<E>) {
    if !seen.insert(e) {
        return;
    }
    if let N::App(..) = node(e) {
        out.insert(e);
    }
    for c in children(e) {
        apps(c, seen, out);
    }
}

// ---------- evaluation under a model ----------
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    B(bool),
    V(u128),
    R(Rat),
}
pub struct Model {
    pub m: HashMap<u32, Val>,
    pub apps: HashMap<E, Rat>,
    pub inexact: bool,
}
impl Model {
    pub fn new() -> Model {
        Model { m: HashMap::new(), apps: HashMap::new(), inexact: false }
    }
    pub fn eval(&self, e: E, memo: &mut HashMap<E, Val>) -> Option<Val> {
        if let Some(v) = memo.get(&e) {
            return Some(v.clone());
        }
        let b = |v: Option<Val>| match v {
            Some(Val::B(b)) => Some(b),
            _ => None,
        };
        let i = |v: Option<Val>| match v {
            Some(Val::V(b)) => Some(b),
            _ => None,
        };
        let r = |v: Option<Val>| match v {
            Some(Val::R(b)) => Some(b),
            _ => None,
        };
        let v = match nd(e) {
            N::B(x) => Val::B(x),
            N::BVar(x) => self.m.get(&x).cloned().unwrap_or(Val::B(false)),
            N::VVar(x) => self.m.get(&x).cloned().unwrap_or(Val::V(cx().vars[x as usize].urange.0)),
            N::RVar(x) => self.m.get(&x).cloned().unwrap_or_else(|| {
                let rg = &cx().vars[x as usize].range;
                Val::R(match (&rg.lo, &rg.hi) {
                    (Some(l), Some(h)) => l.0.add(&h.0).mul(&Rat::int(2).inv()),
                    (Some(l), None) => l.0.add(&Rat::one()),
                    (None, Some(h)) => h.0.sub(&Rat::one()),
                    _ => Rat::zero(),
                })
            }),
            N::Not(a) => Val::B(!b(self.eval(a, memo))?),
            N::And(x, y) => Val::B(b(self.eval(x, memo))? && b(self.eval(y, memo))?),
            N::Or(x, y) => Val::B(b(self.eval(x, memo))? || b(self.eval(y, memo))?),
            N::Eq(x, y) => Val::B(self.eval(x, memo)? == self.eval(y, memo)?),
            N::Ult(x, y) => Val::B(i(self.eval(x, memo))? < i(self.eval(y, memo))?),
            N::Slt(x, y) => {
                let w = width(x);
                Val::B(sx(i(self.eval(x, memo))?, w) < sx(i(self.eval(y, memo))?, w))
            }
            N::RLt0(x) => Val::B(r(self.eval(x, memo))?.sign() < 0),
            N::REq0(x) => Val::B(r(self.eval(x, memo))?.sign() == 0),
            N::C(_, v) => Val::V(v),
            N::Bin(op, x, y) => {
                let (p, q) = (i(self.eval(x, memo))?, i(self.eval(y, memo))?);
                Val::V(bin_c(op, width(e), p, q)?)
            }
            N::ZExt(x) => self.eval(x, memo)?,
            N::SExt(x) => Val::V(sx(i(self.eval(x, memo))?, width(x)) as u128 & mask(width(e))),
            N::Extract(_, l, x) => Val::V((i(self.eval(x, memo))? >> l) & mask(width(e))),
            N::Concat(x, y) => Val::V((i(self.eval(x, memo))? << width(y)) | i(self.eval(y, memo))?),
            N::B2V(x) => Val::V(b(self.eval(x, memo))? as u128),
            N::OfReal(x) => Val::V(r(self.eval(x, memo))?.floor().to_i128()? as u128 & mask(width(e))),
            N::RBits(x) => Val::V(r(self.eval(x, memo))?.to_f64().to_bits() as u128),
            N::OfBv(x) => Val::R(Rat { n: crate::rat::Big::from_u128(i(self.eval(x, memo))?), d: crate::rat::Big::from_i128(1) }),
            N::Wrap(x) => self.eval(x, memo)?,
            N::App(..) => Val::R(self.apps.get(&e)?.clone()),
            N::Ite(c, x, y) => {
                if b(self.eval(c, memo))? {
                    self.eval(x, memo)?
                } else {
                    self.eval(y, memo)?
                }
            }
            N::P(p) => {
                let mut acc = Rat::zero();
                for (m, c) in &p.t {
                    let mut t = c.clone();
                    for (a, ex) in m {
                        let v = r(self.eval(*a, memo))?;
                        let v = if *ex < 0 {
                            if v.is_zero() {
                                return None;
                            }
                            v.inv()
                        } else {
                            v
                        };
                        for _ in 0..ex.abs() {
                            t = t.mul(&v);
                        }
                    }
                    acc = acc.add(&t);
                }
                Val::R(acc)
            }
        };
        memo.insert(e, v.clone());
        Some(v)
    }
}

pub fn atom_of(a: E) -> E {
    atom(a)
}
/// the atom of a polynomial that is a single atom (or the node itself)
pub fn atom_inner(e: E) -> E {
    match node(e) {
        N::P(p) if p.t.len() == 1 && p.t[0].0.len() == 1 => p.t[0].0[0].0,
        _ => e,
    }
}
/// p < 0 without folding by declared ranges (used to state those ranges)
pub fn raw_lt0(e: E) -> E {
    if let Some(c) = rconst_of(e) {
        return bconst(c.sign() < 0);
    }
    mk(N::RLt0(cnorm(e)), Sort::Bool)
}
pub fn raw_ult(a: E, b: E) -> E {
    mk(N::Ult(a, b), Sort::Bool)
}

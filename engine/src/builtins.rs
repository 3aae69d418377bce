//! Intrinsics, allocation, panics, libm, and the symx_* harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::rat::Rat;
use crate::special;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Bi {
    Nop,
    Intr(String, Vec<String>), // name without llvm. and type suffixes
    Libm(String),
    Alloc(bool), // zeroed
    Malloc,
    Calloc,
    Free,
    Dealloc,
    RustRealloc,
    CRealloc,
    PosixMemalign,
    Memcmp,
    Memcpy,
    Memset,
    Strlen,
    Null,
    Zero,
    Keys,
    Panic,
    Sym(String),
    NativeBody,
}

pub enum R {
    Val(V),
    Body,
    BodyNative,
}

pub fn resolve(name: &str, has_body: bool) -> Option<Bi> {
    if let Some(r) = name.strip_prefix("llvm.") {
        let parts: Vec<String> = r.split('.').map(|s| s.to_string()).collect();
        let mut base: Vec<String> = vec![];
        let mut suf: Vec<String> = vec![];
        for p in parts {
            let is_ty = (p.starts_with('i') && p[1..].parse::<u32>().is_ok() && p.len() > 1)
                || (p.starts_with('f') && p[1..].parse::<u32>().is_ok() && p.len() > 1)
                || (p.starts_with('p') && p[1..].parse::<u32>().is_ok() && p.len() > 1)
                || (p.starts_with('v') && p.len() > 1 && p.as_bytes()[1].is_ascii_digit());
            if is_ty {
                suf.push(p)
            } else {
                base.push(p)
            }
        }
        return Some(Bi::Intr(base.join("."), suf));
    }
    if name.starts_with("symx_") {
        return Some(Bi::Sym(name[5..].to_string()));
    }
    match name {
        "malloc" => return Some(Bi::Malloc),
        "calloc" => return Some(Bi::Calloc),
        "free" => return Some(Bi::Free),
        "realloc" => return Some(Bi::CRealloc),
        "posix_memalign" => return Some(Bi::PosixMemalign),
        "aligned_alloc" => return Some(Bi::Malloc),
        "memcmp" | "bcmp" => return Some(Bi::Memcmp),
        "memcpy" | "memmove" => return Some(Bi::Memcpy),
        "memset" => return Some(Bi::Memset),
        "strlen" => return Some(Bi::Strlen),
        "getenv" | "secure_getenv" => return Some(Bi::Null),
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_init"
        | "pthread_mutex_destroy" | "pthread_self" | "sched_yield" | "syscall" | "atexit" => return Some(Bi::Zero),
        "log" | "exp" | "pow" | "log2" | "log10" | "log1p" | "expm1" | "sin" | "cos" | "tan" | "exp2" | "sqrt" | "fmod" | "floor" | "ceil" | "round" | "trunc"
        | "fabs" | "tgamma" | "lgamma" | "cbrt" | "hypot" | "atan" | "atan2" | "sinh" | "cosh" | "tanh" | "fma" | "fmin" | "fmax" | "rint" => {
            return Some(Bi::Libm(name.to_string()))
        }
        _ => {}
    }
    if name.contains("7___rustc") {
        if name.ends_with("12___rust_alloc") {
            return Some(Bi::Alloc(false));
        }
        if name.ends_with("19___rust_alloc_zeroed") {
            return Some(Bi::Alloc(true));
        }
        if name.ends_with("14___rust_dealloc") {
            return Some(Bi::Dealloc);
        }
        if name.ends_with("14___rust_realloc") {
            return Some(Bi::RustRealloc);
        }
        if name.contains("no_alloc_shim") {
            return Some(Bi::Nop);
        }
        if name.contains("10rust_panic") || name.contains("17rust_begin_unwind") || name.contains("rust_start_panic") {
            return Some(Bi::Panic);
        }
    }
    if name.contains("4core9panicking") || name.contains("3std9panicking11begin_panic") || name.contains("3std9panicking10rust_panic") || name.contains("18handle_alloc_error") {
        return Some(Bi::Panic);
    }
    if name.contains("3std9panicking") && (name.contains("begin_panic") || name.contains("rust_panic_with_hook")) {
        return Some(Bi::Panic);
    }
    if name.contains("hashmap_random_keys") {
        return Some(Bi::Keys);
    }
    if name.contains("6statrs") && has_body {
        return Some(Bi::NativeBody);
    }
    None
}

pub fn uf_eval(name: &str, a: &[f64]) -> Option<f64> {
    Some(match (name, a.len()) {
        ("log", 1) => a[0].ln(),
        ("rnd", 1) => a[0],
        ("exp", 1) => a[0].exp(),
        ("sin", 1) => a[0].sin(),
        ("cos", 1) => a[0].cos(),
        ("tan", 1) => a[0].tan(),
        ("log2", 1) => a[0].log2(),
        ("log10", 1) => a[0].log10(),
        ("log1p", 1) => a[0].ln_1p(),
        ("expm1", 1) => a[0].exp_m1(),
        ("exp2", 1) => a[0].exp2(),
        ("cbrt", 1) => a[0].cbrt(),
        ("atan", 1) => a[0].atan(),
        ("sinh", 1) => a[0].sinh(),
        ("cosh", 1) => a[0].cosh(),
        ("tanh", 1) => a[0].tanh(),
        ("tgamma", 1) => special::ln_gamma(a[0]).exp(),
        ("pow", 2) => a[0].powf(a[1]),
        ("hypot", 2) => a[0].hypot(a[1]),
        ("atan2", 2) => a[0].atan2(a[1]),
        ("lgamma", 1) => special::ln_gamma(a[0]),
        ("chi2cdf", 2) => special::chi2_cdf(a[0], a[1]),
        ("ncdf", 1) => special::normal_cdf(a[0]),
        ("fcdf", 3) => special::f_cdf(a[0], a[1], a[2]),
        _ => return None,
    })
}

/// concrete value of an integer, forking over its possible values
pub fn conc(en: &mut Engine, st: &mut State, v: &V, w: u32, what: &str) -> X<u64> {
    match v {
        V::C(c) => Ok(*c as u64),
        V::U => Ok(0),
        V::B(e) => {
            let e = if sort(*e) == Sort::Bool { b2v(*e) } else { *e };
            let _ = w;
            let Some(vs) = valset(e) else { return err(format!("symbolic {} without a finite value set", what)) };
            let ww = width(e);
            for v in vs.iter() {
                let g = eq(e, bv(ww, *v));
                if en.decide(st, g)? {
                    return Ok(*v as u64);
                }
            }
            Err(Stop::Infeasible)
        }
        _ => err(format!("{} is not an integer", what)),
    }
}

fn fl(v: &V) -> Option<f64> {
    match v {
        V::F(f) => Some(*f),
        V::U => Some(0.0),
        V::R(e) => rconst_of(*e).map(|c| c.to_f64()),
        _ => None,
    }
}

/// application of a transcendental function to (possibly) symbolic finite arguments
pub fn uf(en: &mut Engine, st: &mut State, name: &str, a: &[V]) -> X<V> {
    let c: Option<Vec<f64>> = a.iter().map(fl).collect();
    if let Some(c) = c {
        return match uf_eval(name, &c) {
            Some(r) => Ok(V::F(r)),
            None => err(format!("no value for {}", name)),
        };
    }
    // special values
    for v in a {
        if let V::F(f) = v {
            if f.is_nan() {
                return Ok(V::F(f64::NAN));
            }
            if f.is_infinite() {
                return err(format!("{} of an infinite argument", name));
            }
        }
    }
    let x: Vec<E> = a.iter().map(|v| v.real().unwrap()).collect();
    let last = x[x.len() - 1];
    let zero = Rat::zero();
    let one = Rat::one();
    match name {
        "log" => {
            if en.decide(st, rlt0(last))? {
                return Ok(V::F(f64::NAN));
            }
            if en.decide(st, req0(last))? {
                if st.log_pos {
                    return Err(Stop::Infeasible);
                }
                return Ok(V::F(f64::NEG_INFINITY));
            }
        }
        "lgamma" => {
            if !en.decide(st, rlt(rint(0), last))? {
                return err("log-gamma of a non-positive symbolic argument");
            }
        }
        "chi2cdf" => {
            if en.decide(st, rle(last, rint(0)))? {
                return Ok(V::F(0.0));
            }
        }
        "fcdf" => {
            if en.decide(st, rle(last, rint(0)))? {
                return Ok(V::F(0.0));
            }
        }
        _ => {}
    }
    let id = fid(name);
    en.uf_used.insert(name.to_string());
    match name {
        "exp" | "exp2" | "tgamma" => {
            cx().frange.insert(id, Rng { lo: Some((zero.clone(), true)), hi: None });
        }
        "chi2cdf" | "fcdf" | "ncdf" => {
            cx().frange.insert(id, Rng { lo: Some((zero.clone(), false)), hi: Some((one.clone(), false)) });
        }
        _ => {}
    }
    let e = app(name, x.clone());
    if st.apps.contains(&e) {
        return Ok(V::R(e));
    }
    let mut ax: Vec<E> = vec![];
    match name {
        "log" => {
            // sign(ln x) = sign(x - 1)
            ax.push(iff(rlt(last, rint(1)), raw_lt0(e)));
            ax.push(iff(rlt(rint(1), last), raw_lt0(rneg(e))));
        }
        "exp" => {
            ax.push(raw_lt0(rneg(e)));
            ax.push(iff(rlt(last, rint(0)), rlt(e, rint(1))));
            ax.push(iff(rlt(rint(0), last), rlt(rint(1), e)));
        }
        "chi2cdf" | "fcdf" | "ncdf" => {
            ax.push(not(raw_lt0(e)));
            ax.push(not(raw_lt0(rsub(rint(1), e))));
        }
        _ => {}
    }
    let strict = matches!(name, "log" | "exp");
    if strict || matches!(name, "chi2cdf" | "fcdf" | "ncdf") {
        let mut k = 0;
        for o in st.apps.clone().iter().rev() {
            if k >= 8 {
                break;
            }
            let at = atom_inner(*o);
            if let N::App(f2, y) = nd(at) {
                if f2 != id {
                    continue;
                }
                let n = x.len() - 1;
                if x[..n] != y[..n] {
                    continue;
                }
                k += 1;
                let yl = y[n];
                if strict {
                    ax.push(iff(rlt(last, yl), rlt(e, *o)));
                    ax.push(iff(rlt(yl, last), rlt(*o, e)));
                } else {
                    ax.push(implies(rle(last, yl), rle(e, *o)));
                    ax.push(implies(rle(yl, last), rle(*o, e)));
                }
            }
        }
    }
    st.apps.push(e);
    for c in ax {
        en.assume(st, c);
    }
    if st.rounding && name == "log" {
        return rounded(en, st, FB::Mul, e, e, e);
    }
    Ok(V::R(e))
}
fn pow2(e: E) -> bool {
    match rconst_of(e) {
        Some(c) => match c.exact_f64() {
            Some(f) => f.is_normal() && f.to_bits() << 12 == 0,
            None => false,
        },
        None => false,
    }
}
/// the double nearest to the exact result `r` of `x op y`: an abstract function of `r` that is monotone,
/// within the relative error of IEEE arithmetic (an absolute one near zero) and keeps what can be represented
pub fn rounded(en: &mut Engine, st: &mut State, op: FB, x: E, y: E, r: E) -> X<V> {
    if rconst_of(r).is_some() {
        let c = rconst_of(r).unwrap();
        return Ok(V::F(c.to_f64()));
    }
    let exact = match op {
        FB::Add | FB::Sub => r == x || r == y || r == rneg(y),
        FB::Mul => pow2(x) || pow2(y),
        _ => pow2(y),
    };
    if exact {
        return Ok(V::R(r));
    }
    let z = app("rnd", vec![r]);
    if st.apps.contains(&z) {
        return Ok(V::R(z));
    }
    en.uf_used.insert("rnd".to_string());
    let add = matches!(op, FB::Add | FB::Sub);
    let u = Rat::from_f64(2f64.powi(-53));
    let (up, dn) = (rconst(Rat::one().add(&u)), rconst(Rat::one().sub(&u)));
    let tiny = rconst(Rat::from_f64(if add { 0.0 } else { 2f64.powi(-200) }));
    let zero = rint(0);
    let mut ax = vec![];
    let (neg, pos) = (rlt(r, zero), rlt(zero, r));
    ax.push(implies(not(neg), and(rle(rsub(rmul(r, dn), tiny), z), rle(z, radd(rmul(r, up), tiny)))));
    ax.push(implies(neg, and(rle(rsub(rmul(r, up), tiny), z), rle(z, radd(rmul(r, dn), tiny)))));
    if add {
        ax.push(iff(neg, rlt(z, zero)));
        ax.push(iff(pos, rlt(zero, z)));
    } else {
        ax.push(implies(not(neg), rle(zero, z)));
        ax.push(implies(not(pos), rle(z, zero)));
    }
    // whatever lies within half a unit in the last place of 1 becomes 1
    let (above, below) = (Rat::one().add(&u), Rat::one().sub(&Rat::from_f64(2f64.powi(-54))));
    ax.push(implies(rle(r, rconst(above.clone())), rle(z, rint(1))));
    ax.push(implies(rle(rconst(below.clone()), r), rle(rint(1), z)));
    ax.push(implies(rle(r, rconst(below.neg())), rle(z, rint(-1))));
    ax.push(implies(rle(rconst(above.neg()), r), rle(rint(-1), z)));
    match op {
        FB::Add | FB::Sub => {
            let y2 = if matches!(op, FB::Sub) { rneg(y) } else { y };
            for (a, b) in [(x, y2), (y2, x)] {
                ax.push(implies(rle(zero, b), rle(a, z)));
                ax.push(implies(rle(b, zero), rle(z, a)));
            }
        }
        FB::Mul => {
            for (a, b) in [(x, y), (y, x)] {
                ax.push(implies(and(rle(zero, a), and(rle(zero, b), rle(b, rint(1)))), rle(z, a)));
            }
        }
        _ => {
            ax.push(implies(and(rle(zero, x), and(rlt(zero, y), rle(x, y))), rle(z, rint(1))));
            ax.push(implies(and(rlt(zero, y), rle(y, x)), rle(rint(1), z)));
        }
    }
    let id = fid("rnd");
    let mut k = 0;
    for o in st.apps.clone().iter().rev() {
        if let N::App(f2, a) = nd(atom_inner(*o)) {
            if f2 == id && k < 6 {
                k += 1;
                ax.push(implies(rle(r, a[0]), rle(z, *o)));
                ax.push(implies(rle(a[0], r), rle(*o, z)));
            }
        }
    }
    st.apps.push(z);
    for c in ax {
        en.assume(st, c);
    }
    Ok(V::R(z))
}
fn iff(a: E, b: E) -> E {
    and(implies(a, b), implies(b, a))
}

fn alloc(st: &mut State, size: u64) -> X<V> {
    if size > 1 << 28 {
        return err("allocation too large");
    }
    let i = st.mem.alloc(size, 1);
    Ok(V::C(addr(i, 0) as u128))
}

fn label(en: &mut Engine, st: &State, p: &V, n: &V) -> X<String> {
    let (Some(a), Some(l)) = (p.c(), n.c()) else { return err("symbolic label") };
    let b = en.load_bytes(st, a as u64, l as u64)?;
    Ok(String::from_utf8_lossy(&b).to_string())
}

fn location(en: &mut Engine, st: &State, av: &[V]) -> String {
    for v in av.iter().rev() {
        if let V::C(a) = v {
            let a = *a as u64;
            if a >> 32 == 0 || !en.in_bounds(st, a, 24) {
                continue;
            }
            if let Ok(b) = en.load_bytes(st, a, 24) {
                let q = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
                let (p, l) = (q(0), q(8));
                let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                if l > 3 && l < 400 && en.in_bounds(st, p, l) {
                    if let Ok(s) = en.load_bytes(st, p, l) {
                        let s = String::from_utf8_lossy(&s).to_string();
                        if s.contains(".rs") {
                            let s = s.trim_end_matches('\0').to_string();
                            return format!("{}:{}", s, line);
                        }
                    }
                }
            }
        }
    }
    "?".into()
}

pub fn feq_v(en: &mut Engine, a: &V, b: &V) -> X<E> {
    let _ = en;
    if let (Some(x), Some(y)) = (fl(a), fl(b)) {
        if matches!(a, V::F(_)) && matches!(b, V::F(_)) {
            // both concrete: equality up to rounding of the concrete evaluation
            let same = (x.is_nan() && y.is_nan()) || x == y || ((x - y).abs() <= 1e-9 * x.abs().max(y.abs()).max(1e-9));
            return Ok(bconst(same));
        }
    }
    Ok(match (a.real(), b.real()) {
        (Some(x), Some(y)) => {
            if let (Some(p), Some(q)) = (rconst_of(x), rconst_of(y)) {
                let (p, q) = (p.to_f64(), q.to_f64());
                return Ok(bconst(p == q || (p - q).abs() <= 1e-9 * p.abs().max(q.abs()).max(1e-9)));
            }
            req(x, y)
        }
        _ => bconst(false),
    })
}

fn each(ret: &Ty, av: &[V], f: &mut dyn FnMut(&Ty, &[V]) -> X<V>) -> X<V> {
    if let Ty::Vec(n, e) = ret {
        let mut o = vec![];
        for i in 0..*n as usize {
            let a: Vec<V> = av
                .iter()
                .map(|v| match v {
                    V::A(x) => x[i].clone(),
                    v => v.clone(),
                })
                .collect();
            o.push(f(e, &a)?);
        }
        return Ok(V::A(Rc::new(o)));
    }
    f(ret, av)
}

pub fn call(en: &mut Engine, st: &mut State, bi: &Bi, id: usize, av: &Vec<V>, args: &Vec<(Ty, Op)>, ret: &Ty) -> X<R> {
    let val = |v: V| Ok(R::Val(v));
    match bi {
        Bi::Nop => val(V::U),
        Bi::Zero | Bi::Null => val(V::C(0)),
        Bi::NativeBody => {
            if av.iter().any(|v| matches!(v, V::R(_))) {
                Ok(R::Body)
            } else {
                Ok(R::BodyNative)
            }
        }
        Bi::Keys => val(V::A(Rc::new(vec![V::C(0x0123_4567), V::C(0x89ab_cdef)]))),
        Bi::Alloc(_) | Bi::Malloc => {
            let k = if let Bi::Malloc = bi { av.len() - 1 } else { 0 };
            let n = conc(en, st, &av[k], 64, "allocation size")?;
            let v = alloc(st, n)?;
            val(v)
        }
        Bi::Calloc => {
            let n = conc(en, st, &av[0], 64, "allocation size")?;
            let m = conc(en, st, &av[1], 64, "allocation size")?;
            let v = alloc(st, n * m)?;
            val(v)
        }
        Bi::Free | Bi::Dealloc => {
            if let Some(a) = av[0].c() {
                let (i, o) = split(a as u64);
                if a != 0 && o == 0 {
                    st.mem.free(i);
                }
            }
            val(V::U)
        }
        Bi::RustRealloc | Bi::CRealloc => {
            let k = if let Bi::CRealloc = bi { 1 } else { 3 };
            let n = conc(en, st, &av[k], 64, "allocation size")?;
            let Some(a) = av[0].c() else { return err("realloc of a symbolic pointer") };
            let a = a as u64;
            let nv = alloc(st, n)?;
            if a != 0 {
                let old = en.obj(st, split(a).0)?.size;
                en.memcpy(st, nv.c().unwrap() as u64, a, old.min(n))?;
                st.mem.free(split(a).0);
            }
            val(nv)
        }
        Bi::PosixMemalign => {
            let n = conc(en, st, &av[2], 64, "allocation size")?;
            let v = alloc(st, n)?;
            en.store(st, &Ty::Ptr, &v, &av[0])?;
            val(V::C(0))
        }
        Bi::Memcpy => {
            let n = conc(en, st, &av[2], 64, "memcpy length")?;
            let (Some(d), Some(s)) = (av[0].c(), av[1].c()) else { return err("memcpy of symbolic pointers") };
            en.memcpy(st, d as u64, s as u64, n)?;
            val(av[0].clone())
        }
        Bi::Memset => {
            let n = conc(en, st, &av[2], 64, "memset length")?;
            let Some(d) = av[0].c() else { return err("memset of a symbolic pointer") };
            en.memset(st, d as u64, &av[1], n)?;
            val(av[0].clone())
        }
        Bi::Memcmp => {
            let n = conc(en, st, &av[2], 64, "memcmp length")?;
            let w = scalar_bits(ret);
            // compare byte by byte, building an expression only when needed
            let mut conc_eq = true;
            let mut acc: Option<E> = None;
            let mut parts: Vec<(E, E)> = vec![];
            let p = |v: &V, k: u64| -> V {
                match v {
                    V::C(c) => V::C(c + k as u128),
                    V::B(e) => v_from(bin(Bin::Add, *e, bv(64, k as u128))),
                    v => v.clone(),
                }
            };
            for k in 0..n {
                let x = en.load(st, &Ty::Int(8), &p(&av[0], k))?;
                let y = en.load(st, &Ty::Int(8), &p(&av[1], k))?;
                if let (Some(x), Some(y)) = (x.c(), y.c()) {
                    if x == y {
                        continue;
                    }
                    if conc_eq {
                        return val(V::C(if x < y { mask(w) } else { 1 }));
                    }
                }
                conc_eq = false;
                parts.push((x.bv(8)?, y.bv(8)?));
            }
            for (x, y) in parts.into_iter().rev() {
                let rest = acc.unwrap_or(bv(w, 0));
                acc = Some(ite(eq(x, y), rest, ite(ult(x, y), bv(w, mask(w)), bv(w, 1))));
            }
            val(match acc {
                None => V::C(0),
                Some(e) => v_from(e),
            })
        }
        Bi::Strlen => {
            let Some(a) = av[0].c() else { return err("strlen") };
            let mut n = 0u64;
            loop {
                let b = en.load_bytes(st, a as u64 + n, 1)?;
                if b[0] == 0 {
                    break;
                }
                n += 1;
            }
            val(V::C(n as u128))
        }
        Bi::Panic => {
            let l = location(en, st, av);
            let nm = short(&en.m.funcs[id].name);
            let nm = nm.rsplit("::").next().unwrap_or("").to_string();
            Err(Stop::Done(format!("panic {} at {}", nm, l)))
        }
        Bi::Libm(n) => {
            let a: Vec<V> = av.clone();
            let v = math(en, st, n, &a)?;
            val(v)
        }
        Bi::Sym(n) => sym(en, st, n, av).map(R::Val),
        Bi::Intr(n, suf) => intr(en, st, n, suf, av, args, ret).map(R::Val),
    }
}

fn math(en: &mut Engine, st: &mut State, n: &str, a: &[V]) -> X<V> {
    match n {
        "fabs" => match &a[0] {
            V::F(f) => Ok(V::F(f.abs())),
            V::U => Ok(V::F(0.0)),
            V::R(e) => Ok(v_from(rabs(*e))),
            _ => err("fabs"),
        },
        "sqrt" => match &a[0] {
            V::F(f) => Ok(V::F(f.sqrt())),
            V::U => Ok(V::F(0.0)),
            V::R(e) => {
                if en.decide(st, rlt0(*e))? {
                    return Ok(V::F(f64::NAN));
                }
                if let Some(c) = rconst_of(*e) {
                    return Ok(V::F(c.to_f64().sqrt()));
                }
                if en.decide(st, req0(*e))? {
                    return Ok(V::F(0.0));
                }
                // y = sqrt(x):  y > 0 and y*y = x
                let key = (*e, 99u8);
                let y = match en.links.get(&key) {
                    Some(y) => *y,
                    None => {
                        let y = new_var("sqrt", Sort::Real);
                        set_range(y, Rng { lo: Some((Rat::zero(), true)), hi: None });
                        en.links.insert(key, y);
                        y
                    }
                };
                en.assume(st, raw_lt0(rneg(y)));
                en.assume(st, req(rmul(y, y), *e));
                Ok(V::R(y))
            }
            _ => err("sqrt"),
        },
        "floor" | "ceil" | "round" | "trunc" | "rint" => match fl(&a[0]) {
            Some(f) => Ok(V::F(match n {
                "floor" => f.floor(),
                "ceil" => f.ceil(),
                "round" => f.round(),
                "rint" => f.round_ties_even(),
                _ => f.trunc(),
            })),
            None => {
                let V::R(e) = &a[0] else { return err("floor") };
                let key = (*e, match n { "floor" => 101u8, "ceil" => 102, "round" => 103, _ => 104 });
                if matches!(n, "trunc" | "rint") {
                    return err("trunc of a symbolic value");
                }
                let y = match en.links.get(&key) {
                    Some(y) => *y,
                    None => {
                        let y = new_var("flr", Sort::Real);
                        cx().vars[var_id(y) as usize].integral = true;
                        en.links.insert(key, y);
                        y
                    }
                };
                match n {
                    "floor" => {
                        en.assume(st, rle(y, *e));
                        en.assume(st, rlt(*e, radd(y, rint(1))));
                    }
                    "ceil" => {
                        en.assume(st, rle(*e, y));
                        en.assume(st, rlt(y, radd(*e, rint(1))));
                    }
                    _ => {
                        // round half away from zero; the sign is decided first
                        let h = rconst(Rat::from_f64(0.5));
                        if en.decide(st, rlt0(*e))? {
                            en.assume(st, rlt(rsub(y, h), *e));
                            en.assume(st, rle(*e, radd(y, h)));
                        } else {
                            en.assume(st, rle(rsub(y, h), *e));
                            en.assume(st, rlt(*e, radd(y, h)));
                        }
                    }
                }
                Ok(V::R(y))
            }
        },
        "fmin" | "fmax" | "minnum" | "maxnum" | "minimum" | "maximum" | "minimumnum" | "maximumnum" => {
            let mx = n.contains("max");
            let nanprop = matches!(n, "minimum" | "maximum");
            for (i, j) in [(0, 1), (1, 0)] {
                if let V::F(f) = &a[i] {
                    if f.is_nan() {
                        return Ok(if nanprop { V::F(*f) } else { a[j].clone() });
                    }
                    if f.is_infinite() {
                        let big = *f > 0.0;
                        return Ok(if big == mx { a[i].clone() } else { a[j].clone() });
                    }
                }
            }
            if let (V::F(x), V::F(y)) = (&a[0], &a[1]) {
                return Ok(V::F(if mx { x.max(*y) } else { x.min(*y) }));
            }
            let (Some(x), Some(y)) = (a[0].real(), a[1].real()) else { return err("min/max") };
            let c = rlt(x, y);
            Ok(v_from(if mx { rite(c, y, x) } else { rite(c, x, y) }))
        }
        "fma" | "fmuladd" => {
            let nat = st.frames.last().map_or(false, |f| f.native_fp);
            let m = en.fbin(st, FB::Mul, &a[0], &a[1], nat)?;
            en.fbin(st, FB::Add, &m, &a[2], nat)
        }
        "fmod" => {
            let nat = st.frames.last().map_or(false, |f| f.native_fp);
            en.fbin(st, FB::Rem, &a[0], &a[1], nat)
        }
        "powi" => {
            let Some(k) = a[1].c() else { return err("powi with a symbolic exponent") };
            let k = sx(k, 32) as i32;
            powi(en, st, &a[0], k)
        }
        "pow" => {
            if let (Some(y), None) = (fl(&a[1]), fl(&a[0])) {
                if y.fract() == 0.0 && y.abs() <= 16.0 {
                    return powi(en, st, &a[0], y as i32);
                }
            }
            if let V::F(b) = &a[0] {
                // the base e as a constant is the exponential function
                if *b == std::f64::consts::E {
                    return uf(en, st, "exp", &a[1..2]);
                }
            }
            uf(en, st, "pow", a)
        }
        "copysign" => match (&a[0], &a[1]) {
            (V::F(x), V::F(y)) => Ok(V::F(x.copysign(*y))),
            (x, y) => {
                let (Some(p), Some(q)) = (x.real(), y.real()) else { return err("copysign") };
                let m = rabs(p);
                Ok(v_from(rite(rlt0(q), rneg(m), m)))
            }
        },
        "log" | "exp" | "log2" | "log10" | "log1p" | "expm1" | "sin" | "cos" | "tan" | "exp2" | "tgamma" | "lgamma" | "cbrt" | "hypot" | "atan" | "atan2" | "sinh"
        | "cosh" | "tanh" => uf(en, st, n, a),
        _ => err(format!("math function {}", n)),
    }
}
fn powi(en: &mut Engine, st: &mut State, x: &V, k: i32) -> X<V> {
    let nat = st.frames.last().map_or(false, |f| f.native_fp);
    if let V::F(f) = x {
        if nat || !f.is_finite() {
            return Ok(V::F(f.powi(k)));
        }
    }
    let mut r = V::F(1.0);
    for _ in 0..k.unsigned_abs().min(64) {
        r = en.fbin(st, FB::Mul, &r, x, nat)?;
    }
    if k < 0 {
        r = en.fbin(st, FB::Div, &V::F(1.0), &r, nat)?;
    }
    Ok(r)
}

fn sym(en: &mut Engine, st: &mut State, n: &str, av: &[V]) -> X<V> {
    match n {
        "u64_below" => {
            let k = conc(en, st, &av[0], 64, "bound")?;
            if k == 0 {
                return err("symx_u64_below(0)");
            }
            if k == 1 {
                en.new_input(st, "u", V::C(0));
                return Ok(V::C(0));
            }
            let w = if k <= 2 { 1 } else if k <= 4 { 2 } else if k <= 256 { 8 } else if k <= 65536 { 16 } else { 64 };
            let r = if w == 1 {
                let b = new_var("in", Sort::Bool);
                zext(b2v(b), 64)
            } else {
                let v = new_var("in", Sort::BV(w));
                let full = w < 64 && k == 1u64 << w;
                if !full {
                    let c = raw_ult(v, bv(w, k as u128));
                    en.assume(st, c);
                    cx().vars[var_id(v) as usize].urange = (0, (k - 1) as u128);
                }
                zext(v, 64)
            };
            let r = v_from(r);
            en.new_input(st, "u", r.clone());
            Ok(r)
        }
        "u64" => {
            let v = V::B(new_var("in", Sort::BV(64)));
            en.new_input(st, "u", v.clone());
            Ok(v)
        }
        "bool" => {
            let b = V::B(new_var("in", Sort::Bool));
            en.new_input(st, "u", b.clone());
            Ok(b)
        }
        "real" => {
            let (Some(lo), Some(hi)) = (fl(&av[0]), fl(&av[1])) else { return err("symbolic bounds of an input") };
            let fg = conc(en, st, &av[2], 64, "flags")?;
            let r = new_var("in", Sort::Real);
            let mk = |f: f64, s: bool| if f.is_finite() { Some((Rat::from_f64(f), s)) } else { None };
            let rg = Rng { lo: mk(lo, fg & 1 != 0), hi: mk(hi, fg & 2 != 0) };
            set_range(r, rg.clone());
            if let Some((l, s)) = &rg.lo {
                let c = if *s { raw_lt0(rsub(rconst(l.clone()), r)) } else { not(raw_lt0(rsub(r, rconst(l.clone())))) };
                en.assume(st, c);
            }
            if let Some((h, s)) = &rg.hi {
                let c = if *s { raw_lt0(rsub(r, rconst(h.clone()))) } else { not(raw_lt0(rsub(rconst(h.clone()), r))) };
                en.assume(st, c);
            }
            en.new_input(st, "f", V::R(r));
            Ok(V::R(r))
        }
        "count" => {
            let hi = conc(en, st, &av[0], 64, "bound")?;
            let r = new_var("cnt", Sort::Real);
            cx().vars[var_id(r) as usize].integral = true;
            set_range(r, Rng { lo: Some((Rat::zero(), false)), hi: Some((Rat::int(hi as i128), false)) });
            en.assume(st, not(raw_lt0(r)));
            en.assume(st, not(raw_lt0(rsub(rint(hi as i128), r))));
            let v = V::B(ofreal(64, r));
            en.new_input(st, "u", v.clone());
            Ok(v)
        }
        "assume" => {
            let c = av[0].bv(1)?;
            if let Some(b) = en.quick(st, c) {
                return if b { Ok(V::U) } else { Err(Stop::Infeasible) };
            }
            if !en.feasible(st, c) {
                return Err(Stop::Infeasible);
            }
            en.assume(st, c);
            Ok(V::U)
        }
        "assert" => {
            let c = av[0].bv(1)?;
            let l = label(en, st, &av[1], &av[2])?;
            en.assertion(st, c, &l)?;
            Ok(V::U)
        }
        "feq" => {
            let e = feq_v(en, &av[0], &av[1])?;
            Ok(v_from(e))
        }
        "fle" => match (av[0].real(), av[1].real()) {
            (Some(a), Some(b)) => {
                if let (Some(p), Some(q)) = (rconst_of(a), rconst_of(b)) {
                    let (p, q) = (p.to_f64(), q.to_f64());
                    return Ok(V::C((p <= q + 1e-9 * p.abs().max(q.abs()).max(1e-9)) as u128));
                }
                Ok(v_from(rle(a, b)))
            }
            _ => en.fcmp("ole", &av[0], &av[1]),
        },
        "isfinite" => Ok(match &av[0] {
            V::F(f) => V::C(f.is_finite() as u128),
            _ => V::C(1),
        }),
        "stream" => {
            let se = av[0].bv(64)?;
            let mut s = st.seeds.len() as u64;
            for (k, o) in st.seeds.clone().into_iter().enumerate() {
                if en.decide(st, eq(o, se))? {
                    s = k as u64;
                    break;
                }
            }
            let i = conc(en, st, &av[1], 64, "random stream position")?;
            if let Some(e) = st.draws.get(&(s, i)) {
                return Ok(V::B(*e));
            }
            if st.ndraws >= st.max_draws {
                return Err(Stop::Done("cut".into()));
            }
            if st.ndraws >= st.tier {
                return Err(Stop::Later);
            }
            let e = new_var("draw", Sort::BV(64));
            if s as usize == st.seeds.len() {
                st.seeds.push(se);
            }
            st.ndraws += 1;
            st.draws.insert((s, i), e);
            st.inputs.push(Inp::Draw(s, i, e));
            Ok(V::B(e))
        }
        "sched" => {
            if st.sched_left == 0 {
                return Ok(V::C(0));
            }
            st.sched_left -= 1;
            let b = V::B(new_var("sched", Sort::Bool));
            en.new_input(st, "u", b.clone());
            Ok(b)
        }
        "rounding" => {
            st.rounding = conc(en, st, &av[0], 8, "rounding")? & 1 == 1;
            Ok(V::U)
        }
        "no_log_zero" => {
            st.log_pos = true;
            Ok(V::U)
        }
        "sched_mode" => {
            st.sched_left = conc(en, st, &av[0], 64, "schedule bound")?;
            Ok(V::U)
        }
        "fresh_stream" => {
            st.streams += 1;
            Ok(V::C((1u128 << 62) + st.streams as u128))
        }
        "panic_policy" => {
            st.policy = conc(en, st, &av[0], 64, "policy")?;
            Ok(V::U)
        }
        "reach" => {
            let l = label(en, st, &av[0], &av[1])?;
            st.reached.insert(l);
            Ok(V::U)
        }
        "obs_f64" | "obs_u64" => {
            st.obs.push(av[0].clone());
            Ok(V::U)
        }
        "max_draws" => {
            st.max_draws = conc(en, st, &av[0], 64, "draw bound")?;
            Ok(V::U)
        }
        "param" => {
            let i = conc(en, st, &av[0], 64, "parameter index")? as usize;
            match en.params.get(i) {
                Some(p) => Ok(V::C(*p as u128)),
                None => err(format!("missing parameter {}", i)),
            }
        }
        "concretize" => {
            let v = conc(en, st, &av[0], 64, "value")?;
            Ok(V::C(v as u128))
        }
        "is_symbolic" => Ok(V::C(1)),
        "uf" => {
            let k = conc(en, st, &av[0], 64, "function")?;
            match k {
                0 => uf(en, st, "lgamma", &av[3..4]),
                1 => uf(en, st, "chi2cdf", &av[2..4]),
                2 => uf(en, st, "fcdf", &av[1..4]),
                3 => uf(en, st, "ncdf", &av[3..4]),
                _ => err("symx_uf"),
            }
        }
        "cut" => Err(Stop::Done("cut".into())),
        "finish" => Err(Stop::Done("ok".into())),
        "debug" => {
            if en.verbose {
                eprintln!("debug {:?}", av.iter().map(|v| show(v)).collect::<Vec<_>>());
            }
            Ok(V::U)
        }
        _ => err(format!("unknown symx function {}", n)),
    }
}
pub fn show(v: &V) -> String {
    match v {
        V::C(c) => format!("{}", c),
        V::F(f) => format!("{:?}", f),
        V::B(e) | V::R(e) => show_e(*e, 6),
        V::A(x) => format!("[{}]", x.iter().map(show).collect::<Vec<_>>().join(",")),
        V::U => "undef".into(),
    }
}
pub fn show_e(e: E, d: u32) -> String {
    if d == 0 {
        return format!("#{}", e);
    }
    let s = |x: E| show_e(x, d - 1);
    match nd(e) {
        N::P(p) => {
            let mut t = vec![];
            for (m, c) in &p.t {
                let mut x = vec![c.smt()];
                for (a, k) in m {
                    x.push(if *k == 1 { s(*a) } else { format!("{}^{}", s(*a), k) });
                }
                t.push(x.join("*"));
            }
            format!("({})", t.join(" + "))
        }
        N::RVar(i) | N::BVar(i) | N::VVar(i) => cx().vars[i as usize].name.clone(),
        N::C(_, v) => format!("{}", v),
        N::App(f, a) => format!("{}({})", cx().fnames[f as usize], a.iter().map(|x| s(*x)).collect::<Vec<_>>().join(",")),
        N::Ite(c, a, b) => format!("ite({},{},{})", s(c), s(a), s(b)),
        N::Not(a) => format!("!{}", s(a)),
        N::And(a, b) => format!("({} & {})", s(a), s(b)),
        N::Or(a, b) => format!("({} | {})", s(a), s(b)),
        N::Eq(a, b) => format!("({} = {})", s(a), s(b)),
        N::RLt0(a) => format!("{}<0", s(a)),
        N::REq0(a) => format!("{}=0", s(a)),
        N::Bin(o, a, b) => format!("({:?} {} {})", o, s(a), s(b)),
        N::ZExt(a) => format!("zext{}({})", width(e), s(a)),
        N::SExt(a) => format!("sext{}({})", width(e), s(a)),
        N::Extract(h, l, a) => format!("{}[{}:{}]", s(a), h, l),
        n => format!("{:?}", n),
    }
}

fn intr(en: &mut Engine, st: &mut State, n: &str, suf: &[String], av: &[V], args: &[(Ty, Op)], ret: &Ty) -> X<V> {
    let _ = suf;
    match n {
        "lifetime.start" | "lifetime.end" | "assume" | "experimental.noalias.scope.decl" | "dbg.value" | "dbg.declare" | "donothing" | "sideeffect" | "prefetch"
        | "invariant.end" | "fake.use" | "pseudoprobe" => Ok(V::U),
        "invariant.start" => Ok(V::C(0)),
        "threadlocal.address" | "launder.invariant.group" | "strip.invariant.group" | "ssa.copy" => Ok(av[0].clone()),
        "expect" | "expect.with.probability" => Ok(av[0].clone()),
        "is.constant" => Ok(V::C(0)),
        "is.fpclass" => {
            let V::C(k) = av[1] else { return err("is.fpclass mask") };
            let k = k as u32;
            let bit = |i: u32| k >> i & 1 == 1;
            match &av[0] {
                V::F(f) => {
                    let neg = f.is_sign_negative();
                    use std::num::FpCategory::*;
                    Ok(V::C(match f.classify() {
                        Nan => bit(if f.to_bits() >> 51 & 1 == 1 { 1 } else { 0 }),
                        Infinite => bit(if neg { 2 } else { 9 }),
                        Normal => bit(if neg { 3 } else { 8 }),
                        Subnormal => bit(if neg { 4 } else { 7 }),
                        Zero => bit(if neg { 5 } else { 6 }),
                    } as u128))
                }
                V::R(e) => {
                    if bit(3) != bit(4) || bit(7) != bit(8) || bit(5) != bit(6) {
                        return err("is.fpclass distinguishes subnormal numbers or signed zeros");
                    }
                    let n = and(bconst(bit(3)), rlt0(*e));
                    let p = and(bconst(bit(8)), rlt0(rneg(*e)));
                    let z = and(bconst(bit(6)), req0(*e));
                    Ok(v_from(or(n, or(p, z))))
                }
                _ => err("is.fpclass"),
            }
        }
        "trap" | "debugtrap" | "ubsantrap" => Err(Stop::Done("panic trap at ?".into())),
        "objectsize" => Ok(V::C(mask(scalar_bits(ret)))),
        "stacksave" => Ok(V::C(0)),
        "stackrestore" => Ok(V::U),
        "ptrmask" => {
            let (x, y) = (av[0].bv(64)?, av[1].bv(64)?);
            Ok(v_from(bin(Bin::And, x, y)))
        }
        "memcpy" | "memmove" | "memcpy.inline" => {
            let n = conc(en, st, &av[2], 64, "memcpy length")?;
            if n == 0 {
                return Ok(V::U);
            }
            let d = ptr1(en, st, &av[0])?;
            let s = ptr1(en, st, &av[1])?;
            en.memcpy(st, d, s, n)?;
            Ok(V::U)
        }
        "memset" => {
            let n = conc(en, st, &av[2], 64, "memset length")?;
            if n == 0 {
                return Ok(V::U);
            }
            let d = ptr1(en, st, &av[0])?;
            en.memset(st, d, &av[1], n)?;
            Ok(V::U)
        }
        "umin" | "umax" | "smin" | "smax" => each(ret, av, &mut |t, a| {
            let w = scalar_bits(t);
            let (x, y) = (a[0].bv(w)?, a[1].bv(w)?);
            let lt = if n.starts_with('u') { ult(x, y) } else { slt(x, y) };
            Ok(v_from(if n.ends_with("max") { ite(lt, y, x) } else { ite(lt, x, y) }))
        }),
        "abs" => each(ret, &av[..1], &mut |t, a| {
            let w = scalar_bits(t);
            let x = a[0].bv(w)?;
            Ok(v_from(ite(slt(x, bv(w, 0)), bin(Bin::Sub, bv(w, 0), x), x)))
        }),
        "bswap" | "bitreverse" | "ctlz" | "cttz" | "ctpop" => each(ret, &av[..1], &mut |t, a| {
            let w = scalar_bits(t);
            if let Some(c) = a[0].c() {
                return Ok(V::C(bits1(n, w, c)));
            }
            let e = a[0].bv(w)?;
            if let Some(vs) = valset(e) {
                let mut acc: Option<E> = None;
                for v in vs.iter() {
                    let r = bv(w, bits1(n, w, *v));
                    acc = Some(match acc {
                        None => r,
                        Some(x) => ite(eq(e, bv(w, *v)), r, x),
                    });
                }
                return Ok(v_from(acc.unwrap()));
            }
            match n {
                "ctlz" => {
                    let mut acc = bv(w, w as u128);
                    for i in 0..w {
                        acc = ite(eq(extract(i, i, e), bv(1, 1)), bv(w, (w - 1 - i) as u128), acc);
                    }
                    Ok(v_from(acc))
                }
                "cttz" => {
                    let mut acc = bv(w, w as u128);
                    for i in (0..w).rev() {
                        acc = ite(eq(extract(i, i, e), bv(1, 1)), bv(w, i as u128), acc);
                    }
                    Ok(v_from(acc))
                }
                "ctpop" => {
                    let mut acc = bv(w, 0);
                    for i in 0..w {
                        acc = bin(Bin::Add, acc, zext(extract(i, i, e), w));
                    }
                    Ok(v_from(acc))
                }
                _ => {
                    let mut acc: Option<E> = None;
                    let step = if n == "bswap" { 8 } else { 1 };
                    let mut i = 0;
                    while i < w {
                        let p = extract(i + step - 1, i, e);
                        acc = Some(match acc {
                            None => p,
                            Some(x) => concat(x, p),
                        });
                        i += step;
                    }
                    Ok(v_from(acc.unwrap()))
                }
            }
        }),
        "fshl" | "fshr" => each(ret, av, &mut |t, a| {
            let w = scalar_bits(t);
            let (x, y) = (a[0].bv(w)?, a[1].bv(w)?);
            let Some(s) = a[2].c() else { return err("funnel shift by a symbolic amount") };
            let s = (s % w as u128) as u32;
            let c = concat(x, y);
            // fshl: top w bits of (x:y) << s ; fshr: low w bits of (x:y) >> s
            let lo = if n == "fshl" { w - s } else { s };
            if n == "fshl" && s == 0 {
                return Ok(v_from(x));
            }
            Ok(v_from(extract(lo + w - 1, lo, c)))
        }),
        "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
            let w = match &args[0].0 {
                Ty::Int(w) => *w,
                _ => return err("vector overflow intrinsic"),
            };
            let op = match &n[1..4] {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                _ => Bin::Mul,
            };
            let (x, y) = (av[0].bv(w)?, av[1].bv(w)?);
            let r = bin(op, x, y);
            // integer-valued reals are far below the word size: no wrap-around except below zero
            if ofreal_like(x) || ofreal_like(y) {
                if let (Some(p), Some(q)) = (real_of(x), real_of(y)) {
                    let o = match op {
                        Bin::Sub => rlt(p, q),
                        _ => bconst(false),
                    };
                    return Ok(V::A(Rc::new(vec![v_from(r), v_from(o)])));
                }
            }
            let o = if n.starts_with('u') {
                match op {
                    Bin::Add => {
                        let (_, xh) = urange(x);
                        let (_, yh) = urange(y);
                        if xh.checked_add(yh).map_or(false, |s| s <= mask(w)) {
                            bconst(false)
                        } else {
                            ult(r, x)
                        }
                    }
                    Bin::Sub => ult(x, y),
                    _ => {
                        let (_, xh) = urange(x);
                        let (_, yh) = urange(y);
                        if xh.checked_mul(yh).map_or(false, |s| s <= mask(w)) {
                            bconst(false)
                        } else {
                            let (xx, yy) = (zext(x, 2 * w), zext(y, 2 * w));
                            not(eq(extract(2 * w - 1, w, bin(Bin::Mul, xx, yy)), bv(w, 0)))
                        }
                    }
                }
            } else {
                let (xx, yy) = (sext(x, 2 * w), sext(y, 2 * w));
                not(eq(sext(r, 2 * w), bin(op, xx, yy)))
            };
            Ok(V::A(Rc::new(vec![v_from(r), v_from(o)])))
        }
        "uadd.sat" | "usub.sat" => each(ret, av, &mut |t, a| {
            let w = scalar_bits(t);
            let (x, y) = (a[0].bv(w)?, a[1].bv(w)?);
            if n == "uadd.sat" {
                let r = bin(Bin::Add, x, y);
                Ok(v_from(ite(ult(r, x), bv(w, mask(w)), r)))
            } else {
                let r = bin(Bin::Sub, x, y);
                Ok(v_from(ite(ult(x, y), bv(w, 0), r)))
            }
        }),
        "ucmp" | "scmp" => each(ret, av, &mut |t, a| {
            let w = scalar_bits(t);
            let aw = match &args[0].0 {
                Ty::Vec(_, e) => scalar_bits(e),
                t => scalar_bits(t),
            };
            let (x, y) = (a[0].bv(aw)?, a[1].bv(aw)?);
            let lt = if n == "ucmp" { ult(x, y) } else { slt(x, y) };
            Ok(v_from(ite(lt, bv(w, mask(w)), ite(eq(x, y), bv(w, 0), bv(w, 1)))))
        }),
        "vector.reduce.add" | "vector.reduce.and" | "vector.reduce.or" | "vector.reduce.xor" | "vector.reduce.mul" | "vector.reduce.umax" | "vector.reduce.umin" => {
            let V::A(x) = &av[0] else { return err("vector reduce") };
            let mut acc = x[0].clone();
            for y in x[1..].iter() {
                acc = match n.rsplit('.').next().unwrap() {
                    "add" => en.ibin(st, Bin::Add, ret, &acc, y)?,
                    "and" => en.ibin(st, Bin::And, ret, &acc, y)?,
                    "or" => en.ibin(st, Bin::Or, ret, &acc, y)?,
                    "xor" => en.ibin(st, Bin::Xor, ret, &acc, y)?,
                    "mul" => en.ibin(st, Bin::Mul, ret, &acc, y)?,
                    k => {
                        let w = scalar_bits(ret);
                        let (p, q) = (acc.bv(w)?, y.bv(w)?);
                        let lt = ult(p, q);
                        v_from(if k == "umax" { ite(lt, q, p) } else { ite(lt, p, q) })
                    }
                };
            }
            Ok(acc)
        }
        "vector.reduce.fadd" | "vector.reduce.fmul" => {
            let V::A(x) = &av[1] else { return err("vector reduce") };
            let mut acc = av[0].clone();
            for y in x.iter() {
                let nat = st.frames.last().map_or(false, |f| f.native_fp);
                acc = en.fbin(st, if n.ends_with("fadd") { FB::Add } else { FB::Mul }, &acc, y, nat)?;
            }
            Ok(acc)
        }
        "fptoui.sat" | "fptosi.sat" => {
            let w = scalar_bits(ret);
            en.fptoint(st, av[0].clone(), w, n == "fptosi.sat", true)
        }
        "is.fpclass" => {
            let Some(m) = av[1].c() else { return err("is.fpclass") };
            match &av[0] {
                V::F(f) => {
                    let neg = f.is_sign_negative();
                    let c = if f.is_nan() {
                        2
                    } else if f.is_infinite() {
                        if neg { 4 } else { 0x200 }
                    } else if *f == 0.0 {
                        if neg { 0x20 } else { 0x40 }
                    } else if f.is_subnormal() {
                        if neg { 0x10 } else { 0x80 }
                    } else if neg {
                        8
                    } else {
                        0x100
                    };
                    Ok(V::C((m & c != 0) as u128))
                }
                V::R(e) => {
                    let neg = m & 8 != 0;
                    let pos = m & 0x100 != 0;
                    let zer = m & 0x40 != 0;
                    let z = req0(*e);
                    let l = rlt0(*e);
                    let r = bite(l, bconst(neg), bite(z, bconst(zer), bconst(pos)));
                    Ok(v_from(r))
                }
                _ => Ok(V::C(0)),
            }
        }
        "fabs" | "sqrt" | "floor" | "ceil" | "round" | "trunc" | "rint" | "roundeven" | "nearbyint" | "minnum" | "maxnum" | "minimum" | "maximum" | "minimumnum"
        | "maximumnum" | "fma" | "fmuladd" | "log" | "exp" | "pow" | "powi" | "copysign" | "log2" | "log10" | "exp2" | "sin" | "cos" | "tan" => {
            let m = match n {
                "roundeven" | "nearbyint" => "rint",
                x => x,
            };
            each(ret, av, &mut |_, a| math(en, st, m, a))
        }
        "load.relative" => err("load.relative"),
        _ => err(format!("unsupported intrinsic llvm.{}", n)),
    }
}
fn ptr1(en: &mut Engine, st: &mut State, v: &V) -> X<u64> {
    match v {
        V::C(c) => Ok(*c as u64),
        V::B(_) => conc(en, st, v, 64, "pointer"),
        _ => err("bad pointer"),
    }
}
fn ofreal_like(e: E) -> bool {
    matches!(node(e), N::OfReal(_))
}
fn real_of(e: E) -> Option<E> {
    match nd(e) {
        N::OfReal(r) => Some(r),
        N::C(_, v) if v < 1u128 << 62 => Some(rint(v as i128)),
        _ => Some(of_bv(e)),
    }
}
fn bits1(n: &str, w: u32, c: u128) -> u128 {
    let c = c & mask(w);
    match n {
        "ctpop" => c.count_ones() as u128,
        "ctlz" => {
            if c == 0 {
                w as u128
            } else {
                (c.leading_zeros() - (128 - w)) as u128
            }
        }
        "cttz" => {
            if c == 0 {
                w as u128
            } else {
                c.trailing_zeros() as u128
            }
        }
        "bswap" => {
            let mut r = 0u128;
            for i in 0..w / 8 {
                r = (r << 8) | ((c >> (8 * i)) & 0xff);
            }
            r
        }
        _ => {
            let mut r = 0u128;
            for i in 0..w {
                r = (r << 1) | ((c >> i) & 1);
            }
            r
        }
    }
}

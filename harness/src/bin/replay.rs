//! Native replay: runs harness entries against the compiled crate on recorded inputs.
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

#[derive(Default, Clone)]
struct Case {
    params: Vec<u64>,
    ins: Vec<u64>,
    draws: HashMap<(u64, u64), u64>,
    pos: usize,
    streams: u64,
    obs: Vec<String>,
    policy: u64,
    missing: u64,
    sched_left: u64,
}
struct Assert(String);
struct Stop(&'static str);
thread_local! { static C: RefCell<Case> = RefCell::new(Case::default()); }

fn next() -> u64 {
    C.with(|c| {
        let mut c = c.borrow_mut();
        c.pos += 1;
        match c.ins.get(c.pos - 1) {
            Some(v) => *v,
            None => {
                c.missing += 1;
                0
            }
        }
    })
}
fn lab(p: *const u8, n: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
}
fn close(a: f64, b: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-3)
}
macro_rules! rt { ($(fn $n:ident($($a:ident: $t:ty),*) $(-> $r:ty)? $b:block)*) => { $(#[no_mangle] pub extern "C-unwind" fn $n($($a: $t),*) $(-> $r)? $b)* } }
rt! {
    fn symx_u64_below(n: u64) -> u64 {
        let v = next();
        if v >= n { panic_any(Stop("input out of range")); }
        v
    }
    fn symx_u64() -> u64 { next() }
    fn symx_bool() -> bool { next() != 0 }
    fn symx_real(lo: f64, hi: f64, flags: u64) -> f64 {
        let x = f64::from_bits(next());
        if x < lo || x > hi || (flags & 1 != 0 && x == lo) || (flags & 2 != 0 && x == hi) { panic_any(Stop("input out of range")); }
        x
    }
    fn symx_count(_hi: u64) -> u64 { next() }
    fn symx_assume(b: bool) { if !b { panic_any(Stop("assumption")); } }
    fn symx_assert(b: bool, p: *const u8, n: usize) { if !b { panic_any(Assert(lab(p, n))); } }
    fn symx_feq(a: f64, b: f64) -> bool { close(a, b) }
    fn symx_fle(a: f64, b: f64) -> bool { a <= b || close(a, b) }
    fn symx_isfinite(a: f64) -> bool { a.is_finite() }
    fn symx_stream(seed: u64, idx: u64) -> u64 {
        C.with(|c| {
            let mut c = c.borrow_mut();
            match c.draws.get(&(seed, idx)) {
                Some(v) => *v,
                None => { c.missing += 1; if c.missing > 100000 { drop(c); panic_any(Stop("too many draws")); } 0 }
            }
        })
    }
    fn symx_fresh_stream() -> u64 { C.with(|c| { let mut c = c.borrow_mut(); c.streams += 1; (1u64 << 62) + c.streams }) }
    fn symx_panic_policy(p: u64) { C.with(|c| c.borrow_mut().policy = p) }
    fn symx_reach(_p: *const u8, _n: usize) {}
    fn symx_obs_f64(x: f64) { C.with(|c| c.borrow_mut().obs.push(format!("f {:016x}", x.to_bits()))) }
    fn symx_obs_u64(x: u64) { C.with(|c| c.borrow_mut().obs.push(format!("u {}", x))) }
    fn symx_max_draws(_n: u64) {}
    fn symx_param(i: u64) -> u64 { C.with(|c| c.borrow().params[i as usize]) }
    fn symx_concretize(v: u64) -> u64 { v }
    fn symx_uf(kind: u64, a: f64, b: f64, x: f64) -> f64 {
        match kind {
            0 => statrs::function::gamma::ln_gamma_orig(x),
            1 => statrs::distribution::ChiSquared::new(b).unwrap().cdf_orig(x),
            3 => statrs::function::gamma::normal_cdf_orig(x),
            _ => statrs::distribution::FisherSnedecor::new(a, b).unwrap().cdf_orig(x),
        }
    }
    fn symx_cut() { panic_any(Stop("cut")) }
    fn symx_finish() { panic_any(Stop("finish")) }
    fn symx_no_log_zero() {}
    fn symx_rounding(_on: bool) {}
    fn symx_sched() -> bool {
        let m = C.with(|c| { let mut c = c.borrow_mut(); if c.sched_left > 0 { c.sched_left -= 1; true } else { false } });
        m && next() != 0
    }
    fn symx_sched_mode(n: u64) { C.with(|c| c.borrow_mut().sched_left = n) }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let entry = &a[1];
    let text = std::fs::read_to_string(&a[2]).expect("case file");
    let f = harness::table().into_iter().find(|(n, _)| n == entry).expect("no such entry").1;
    let quiet = a.len() <= 3;
    std::panic::set_hook(Box::new(move |i| {
        if !quiet {
            eprintln!("{}", i);
        }
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = format!("{} at {}", m.replace('\n', " "), l));
    }));
    let out = std::io::stdout();
    let mut cur: Option<Case> = None;
    let mut k = 0;
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.get(0).cloned().unwrap_or("") {
            "case" => cur = Some(Case::default()),
            "param" => cur.as_mut().unwrap().params.push(w[2].parse().unwrap()),
            "in" => {
                let v = if w[1] == "f" { u64::from_str_radix(w[2], 16).unwrap() } else { w[2].parse().unwrap() };
                cur.as_mut().unwrap().ins.push(v)
            }
            "draw" => {
                cur.as_mut().unwrap().draws.insert((w[1].parse().unwrap(), w[2].parse().unwrap()), w[3].parse().unwrap());
            }
            "end" => {
                C.with(|c| *c.borrow_mut() = cur.take().unwrap());
                let r = std::thread::scope(|_| catch_unwind(AssertUnwindSafe(f)));
                let c = C.with(|c| std::mem::take(&mut *c.borrow_mut()));
                let res = match r {
                    Ok(()) => if c.policy == 1 { "fail required panic did not happen".to_string() } else { "ok".to_string() },
                    Err(e) => {
                        if let Some(a) = e.downcast_ref::<Assert>() {
                            format!("fail {}", a.0)
                        } else if let Some(s) = e.downcast_ref::<Stop>() {
                            match s.0 {
                                "finish" => "ok".into(),
                                x => format!("skip {}", x),
                            }
                        } else {
                            let m = LAST.with(|x| x.borrow().clone());
                            if c.policy == 0 { format!("fail panic {}", m) } else { format!("panic {}", m) }
                        }
                    }
                };
                let mut o = out.lock();
                let _ = writeln!(o, "result {} missing={} {}", k, c.missing, res);
                for x in &c.obs {
                    let _ = writeln!(o, "obs {}", x);
                }
                let _ = o.flush();
                k += 1;
            }
            _ => {}
        }
    }
}
thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); }

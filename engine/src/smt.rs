//! SMT-LIB back end: node emission, an incremental z3 process, one-shot fallbacks, caching, model extraction.
use crate::expr::*;
use crate::rat::{Big, Rat};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Child,
    sin: ChildStdin,
    sout: BufReader<ChildStdout>,
    defined: HashSet<E>,
    vars_decl: HashSet<u32>,
    fun_decl: HashSet<u32>,
    cache: HashMap<Vec<E>, Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub time: f64,
    pub max_time: f64,
    pub timeout_ms: u64,
    pub bin: String,
    pub log: Option<std::fs::File>,
    pub scratch: String,
    pub deadline: Option<Instant>,
    cross_n: u64,
    pub cross_checked: u64,
    pub cross_disagree: u64,
}

fn spawn(bin: &str) -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let mut c = Command::new(bin)
        .args(["-in", "-smt2"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start the SMT solver");
    let i = c.stdin.take().unwrap();
    let o = BufReader::new(c.stdout.take().unwrap());
    (c, i, o)
}

fn nm(e: E) -> String {
    format!("n{}", e)
}
pub fn sort_s(s: Sort) -> String {
    match s {
        Sort::Bool => "Bool".into(),
        Sort::BV(w) => format!("(_ BitVec {})", w),
        Sort::Real => "Real".into(),
    }
}
fn bvs(w: u32, v: u128) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}

fn mono_s(m: &Mono, c: &Rat) -> String {
    let mut num: Vec<String> = vec![];
    let mut den: Vec<String> = vec![];
    for (a, e) in m {
        for _ in 0..e.abs() {
            if *e > 0 {
                num.push(nm(*a))
            } else {
                den.push(nm(*a))
            }
        }
    }
    let mut parts = vec![];
    if !c.is_one() || num.is_empty() {
        parts.push(c.smt());
    }
    parts.extend(num);
    let n = if parts.len() == 1 { parts[0].clone() } else { format!("(* {})", parts.join(" ")) };
    if den.is_empty() {
        n
    } else {
        let d = if den.len() == 1 { den[0].clone() } else { format!("(* {})", den.join(" ")) };
        format!("(/ {} {})", n, d)
    }
}
fn poly_s(p: &Poly) -> String {
    if p.t.is_empty() {
        return "0.0".into();
    }
    let v: Vec<String> = p.t.iter().map(|(m, c)| mono_s(m, c)).collect();
    if v.len() == 1 {
        v[0].clone()
    } else {
        format!("(+ {})", v.join(" "))
    }
}
/// p * (product of denominators); for inequalities the multiplier must be positive:
/// atoms not known to be positive are squared.
fn cleared(p: &Poly, ineq: bool) -> Poly {
    let mut neg: HashMap<E, i32> = HashMap::new();
    for (m, _) in &p.t {
        for (a, e) in m {
            if *e < 0 {
                let x = neg.entry(*a).or_insert(0);
                *x = (*x).max(-e);
            }
        }
    }
    if neg.is_empty() {
        return p.clone();
    }
    let mut mult: Vec<(E, i32)> = neg
        .into_iter()
        .map(|(a, e)| {
            let pos = rrange(a).lo.map_or(false, |l| l.0.sign() >= 0);
            (a, if ineq && !pos && e % 2 == 1 { e + 1 } else { e })
        })
        .collect();
    mult.sort();
    let mut t: Vec<(Mono, Rat)> = p
        .t
        .iter()
        .map(|(m, c)| {
            let mut mm: std::collections::BTreeMap<E, i32> = m.iter().cloned().collect();
            for (a, e) in &mult {
                *mm.entry(*a).or_insert(0) += e;
            }
            (mm.into_iter().filter(|x| x.1 != 0).collect(), c.clone())
        })
        .collect();
    t.sort_by(|a, b| a.0.cmp(&b.0));
    Poly { t }
}

fn body(e: E) -> String {
    let u = |o: &str, a: E| format!("({} {})", o, nm(a));
    let b = |o: &str, x: E, y: E| format!("({} {} {})", o, nm(x), nm(y));
    match nd(e) {
        N::B(x) => x.to_string(),
        N::Not(a) => u("not", a),
        N::And(x, y) => b("and", x, y),
        N::Or(x, y) => b("or", x, y),
        N::Eq(x, y) => b("=", x, y),
        N::Ult(x, y) => b("bvult", x, y),
        N::Slt(x, y) => b("bvslt", x, y),
        N::RLt0(p) => format!("(< {} 0.0)", poly_s(&cleared(&poly(p), true))),
        N::REq0(p) => format!("(= {} 0.0)", poly_s(&cleared(&poly(p), false))),
        N::C(w, v) => bvs(w, v),
        N::Bin(op, x, y) => {
            let o = match op {
                Bin::Add => "bvadd",
                Bin::Sub => "bvsub",
                Bin::Mul => "bvmul",
                Bin::UDiv => "bvudiv",
                Bin::SDiv => "bvsdiv",
                Bin::URem => "bvurem",
                Bin::SRem => "bvsrem",
                Bin::And => "bvand",
                Bin::Or => "bvor",
                Bin::Xor => "bvxor",
                Bin::Shl => "bvshl",
                Bin::LShr => "bvlshr",
                Bin::AShr => "bvashr",
            };
            b(o, x, y)
        }
        N::ZExt(a) => format!("((_ zero_extend {}) {})", width(e) - width(a), nm(a)),
        N::SExt(a) => format!("((_ sign_extend {}) {})", width(e) - width(a), nm(a)),
        N::Extract(h, l, a) => format!("((_ extract {} {}) {})", h, l, nm(a)),
        N::Concat(x, y) => b("concat", x, y),
        N::B2V(a) => format!("(ite {} #b1 #b0)", nm(a)),
        N::OfReal(a) => format!("((_ int2bv {}) (to_int {}))", width(e), nm(a)),
        N::RBits(_) => panic!("bit pattern of a symbolic real reached the solver"),
        N::App(f, v) => {
            let a: Vec<String> = v.iter().map(|x| nm(*x)).collect();
            format!("(f{} {})", f, a.join(" "))
        }
        N::OfBv(a) => format!("(to_real (bv2nat {}))", nm(a)),
        N::Wrap(a) => nm(a),
        N::P(p) => poly_s(&p),
        N::Ite(c, x, y) => format!("(ite {} {} {})", nm(c), nm(x), nm(y)),
        N::BVar(_) | N::VVar(_) | N::RVar(_) => unreachable!(),
    }
}

/// children that the emitted text of e refers to
fn emit_children(e: E) -> Vec<E> {
    match nd(e) {
        N::RLt0(p) | N::REq0(p) => {
            let mut v = children(p);
            v.sort();
            v
        }
        _ => children(e),
    }
}

impl Solver {
    pub fn new(bin: &str, timeout_ms: u64, scratch: &str) -> Solver {
        let (child, sin, sout) = spawn(bin);
        let mut s = Solver {
            child,
            sin,
            sout,
            defined: HashSet::new(),
            vars_decl: HashSet::new(),
            fun_decl: HashSet::new(),
            cache: HashMap::new(),
            queries: 0,
            cache_hits: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            fallback: 0,
            time: 0.0,
            max_time: 0.0,
            timeout_ms,
            bin: bin.into(),
            log: None,
            scratch: scratch.into(),
            deadline: None,
            cross_n: 0,
            cross_checked: 0,
            cross_disagree: 0,
        };
        s.prelude();
        s
    }
    fn prelude(&mut self) {
        let t = self.timeout_ms;
        self.send("(set-option :print-success false)\n(set-option :global-declarations true)\n");
        self.send(&format!("(set-option :timeout {})\n", t));
    }
    fn send(&mut self, s: &str) {
        if let Some(f) = &mut self.log {
            let _ = f.write_all(s.as_bytes());
        }
        if self.sin.write_all(s.as_bytes()).is_err() {
            // solver died; restarted at the next check
        }
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let b = self.bin.clone();
        let (c, i, o) = spawn(&b);
        self.child = c;
        self.sin = i;
        self.sout = o;
        self.defined.clear();
        self.vars_decl.clear();
        self.fun_decl.clear();
        self.prelude();
    }
    fn read_line(&mut self) -> Option<String> {
        let mut l = String::new();
        match self.sout.read_line(&mut l) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(l.trim().to_string()),
        }
    }
    /// emit definitions for e into out, tracking what is already there
    fn emit(e: E, defined: &mut HashSet<E>, vars: &mut HashSet<u32>, funs: &mut HashSet<u32>, out: &mut String) {
        if defined.contains(&e) {
            return;
        }
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if defined.contains(&x) {
                continue;
            }
            match nd(x) {
                N::BVar(i) | N::VVar(i) | N::RVar(i) => {
                    if vars.insert(i) {
                        let _ = writeln!(out, "(declare-const {} {})", nm(x), sort_s(sort(x)));
                    }
                    defined.insert(x);
                    continue;
                }
                _ => {}
            }
            if !done {
                stack.push((x, true));
                for c in emit_children(x) {
                    if !defined.contains(&c) {
                        stack.push((c, false));
                    }
                }
            } else {
                if let N::App(f, v) = nd(x) {
                    if funs.insert(f) {
                        let a: Vec<String> = v.iter().map(|y| sort_s(sort(*y))).collect();
                        let _ = writeln!(out, "(declare-fun f{} ({}) Real)", f, a.join(" "));
                    }
                }
                let _ = writeln!(out, "(define-fun {} () {} {})", nm(x), sort_s(sort(x)), body(x));
                defined.insert(x);
            }
        }
    }
    fn define(&mut self, e: E) {
        let mut out = String::new();
        Solver::emit(e, &mut self.defined, &mut self.vars_decl, &mut self.fun_decl, &mut out);
        if !out.is_empty() {
            self.send(&out);
        }
    }
    fn is_real_heavy(set: &[E]) -> bool {
        let mut seen = BTreeSet::new();
        fn nl(e: E, seen: &mut BTreeSet<E>) -> bool {
            if !seen.insert(e) {
                return false;
            }
            if let N::P(p) = node(e) {
                for (m, _) in &p.t {
                    if m.iter().map(|x| x.1.abs()).sum::<i32>() > 1 || m.iter().any(|x| x.1 < 0) {
                        return true;
                    }
                }
            }
            children(e).into_iter().any(|c| nl(c, seen))
        }
        set.iter().any(|e| nl(*e, &mut seen))
    }
    /// the constraints of pc sharing variables (transitively) with the seeds
    pub fn slice(pc: &[E], seeds: &[E]) -> Vec<E> {
        let mut vars: HashSet<u32> = HashSet::new();
        for s in seeds {
            vars.extend(fv(*s).iter());
        }
        let mut inc = vec![false; pc.len()];
        let mut changed = true;
        while changed {
            changed = false;
            for (i, c) in pc.iter().enumerate() {
                if !inc[i] {
                    let f = fv(*c);
                    if f.iter().any(|v| vars.contains(v)) {
                        inc[i] = true;
                        changed = true;
                        vars.extend(f.iter());
                    }
                }
            }
        }
        pc.iter().enumerate().filter(|x| inc[x.0]).map(|x| *x.1).collect()
    }
    /// satisfiability of (slice of pc) /\ extra
    pub fn check(&mut self, pc: &[E], extra: &[E]) -> Res {
        let mut set = Solver::slice(pc, extra);
        set.extend_from_slice(extra);
        set.sort();
        set.dedup();
        if set.iter().any(|e| is_bool_const(*e) == Some(false)) {
            return Res::Unsat;
        }
        set.retain(|e| is_bool_const(*e) != Some(true));
        if set.is_empty() {
            return Res::Sat;
        }
        if let Some(r) = self.cache.get(&set) {
            self.cache_hits += 1;
            return *r;
        }
        let r = self.raw_check(&set);
        self.cache.insert(set, r);
        r
    }
    fn raw_check(&mut self, set: &[E]) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        for e in set {
            self.define(*e);
        }
        let heavy = Solver::is_real_heavy(set);
        let mut s = String::from("(push)\n");
        for e in set {
            let _ = writeln!(s, "(assert {})", nm(*e));
        }
        if heavy {
            let _ = writeln!(s, "(set-option :timeout {})", self.timeout_ms.min(2000));
        } else {
            let _ = writeln!(s, "(set-option :timeout {})", self.timeout_ms);
        }
        s.push_str("(check-sat)\n(pop)\n(echo \"done\")\n");
        self.send(&s);
        let mut res = None;
        loop {
            match self.read_line() {
                None => {
                    self.restart();
                    break;
                }
                Some(l) => {
                    if l == "done" {
                        break;
                    }
                    match l.as_str() {
                        "sat" => res = res.or(Some(Res::Sat)),
                        "unsat" => res = res.or(Some(Res::Unsat)),
                        "unknown" | "timeout" => res = res.or(Some(Res::Unknown)),
                        "" => {}
                        l if l.contains("timeout") || l.contains("canceled") => res = Some(Res::Unknown),
                        _ => {
                            eprintln!("solver said: {}", l);
                            res = Some(Res::Unknown)
                        }
                    }
                }
            }
        }
        let mut r = res.unwrap_or(Res::Unknown);
        if r == Res::Unknown {
            self.fallback += 1;
            r = self.one_shot(set).0;
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match r {
            Res::Sat => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        if std::env::var("SYMX_SLOW").is_ok() && dt > 1.0 {
            eprintln!("slow query {:.1}s -> {:?} ({} constraints)", dt, r, set.len());
        }
        r
    }
    pub fn script(set: &[E], integral: bool) -> (String, Vec<(u32, E)>) {
        let mut out = String::new();
        let (mut d, mut v, mut f) = (HashSet::new(), HashSet::new(), HashSet::new());
        for e in set {
            Solver::emit(*e, &mut d, &mut v, &mut f, &mut out);
        }
        let mut vars = vec![];
        for e in d.iter() {
            match nd(*e) {
                N::BVar(i) | N::VVar(i) | N::RVar(i) => vars.push((i, *e)),
                _ => {}
            }
        }
        vars.sort();
        for e in set {
            let _ = writeln!(out, "(assert {})", nm(*e));
        }
        if integral {
            for (i, e) in &vars {
                if cx().vars[*i as usize].integral {
                    let _ = writeln!(out, "(assert (is_int {}))", nm(*e));
                }
            }
        }
        (out, vars)
    }
    /// one-shot portfolio on a fresh process (strategies in turn)
    fn one_shot(&mut self, set: &[E]) -> (Res, String) {
        let (txt, _) = Solver::script(set, false);
        let t = (self.timeout_ms / 1000).max(1);
        let strat: Vec<(String, Vec<String>, String)> = vec![
            ("z3-new".into(), vec![format!("-T:{}", t)], "(check-sat)".into()),
            ("z3-new".into(), vec![format!("-T:{}", t)], "(check-sat-using (then simplify purify-arith elim-term-ite solve-eqs qfnra-nlsat))".into()),
            ("cvc5".into(), vec![format!("--tlimit={}", t * 1000), "--nl-cov".into()], "(check-sat)".into()),
            ("z3".into(), vec![format!("-T:{}", t)], "(check-sat)".into()),
        ];
        for (bin, args, cmd) in strat {
            let pre = if bin == "cvc5" { "(set-logic ALL)\n" } else { "" };
            let file = format!("{}/q{}.smt2", self.scratch, std::process::id());
            if std::fs::write(&file, format!("{}{}\n{}\n", pre, txt, cmd)).is_err() {
                continue;
            }
            let o = Command::new(&bin).args(&args).arg(&file).stderr(Stdio::null()).output();
            if let Ok(o) = o {
                let s = String::from_utf8_lossy(&o.stdout).to_string();
                if s.contains("(error") {
                    continue;
                }
                let l = s.lines().next().unwrap_or("").trim();
                match l {
                    "sat" => return (Res::Sat, bin),
                    "unsat" => return (Res::Unsat, bin),
                    _ => {}
                }
            }
        }
        (Res::Unknown, String::new())
    }
    /// second opinion by another solver on an unsat verdict (sampled)
    pub fn cross_check(&mut self, pc: &[E], extra: &[E], every: u64) {
        self.cross_n += 1;
        if every == 0 || self.cross_n % every != 1 % every {
            return;
        }
        let mut set = Solver::slice(pc, extra);
        set.extend_from_slice(extra);
        if set.iter().any(|e| is_bool_const(*e) == Some(false)) {
            return;
        }
        let (txt, _) = Solver::script(&set, false);
        let file = format!("{}/x{}.smt2", self.scratch, std::process::id());
        if std::fs::write(&file, format!("(set-logic ALL)\n{}\n(check-sat)\n", txt)).is_err() {
            return;
        }
        if let Ok(o) = Command::new("cvc5").args(["--tlimit=4000"]).arg(&file).stderr(Stdio::null()).output() {
            let s = String::from_utf8_lossy(&o.stdout).to_string();
            match s.lines().next().unwrap_or("").trim() {
                "unsat" => self.cross_checked += 1,
                "sat" => {
                    self.cross_disagree += 1;
                    let _ = std::fs::copy(&file, format!("{}/disagree{}.smt2", self.scratch, self.cross_disagree));
                }
                _ => {}
            }
        }
    }
    /// model of pc /\ extra; None if unsat/unknown
    pub fn model(&mut self, pc: &[E], extra: &[E], want: &[E]) -> (Res, Option<Model>) {
        let mut set: Vec<E> = pc.to_vec();
        set.extend_from_slice(extra);
        set.retain(|e| is_bool_const(*e) != Some(true));
        if set.iter().any(|e| is_bool_const(*e) == Some(false)) {
            return (Res::Unsat, None);
        }
        let mut appset = BTreeSet::new();
        {
            let mut seen = BTreeSet::new();
            for e in set.iter().chain(want.iter()) {
                apps(*e, &mut seen, &mut appset);
            }
        }
        let mut res = Res::Unknown;
        for (k, cmd) in [
            "(check-sat)",
            "(check-sat-using (then simplify purify-arith elim-term-ite solve-eqs qfnra-nlsat))",
            "(check-sat)",
        ]
        .iter()
        .enumerate()
        {
            let (mut txt, _) = Solver::script(&set, k == 2);
            // also declare whatever `want` needs
            let (mut d, mut v, mut f) = (HashSet::new(), HashSet::new(), HashSet::new());
            let mut dummy = String::new();
            for e in &set {
                Solver::emit(*e, &mut d, &mut v, &mut f, &mut dummy);
            }
            let mut extra_defs = String::new();
            for e in appset.iter() {
                Solver::emit(*e, &mut d, &mut v, &mut f, &mut extra_defs);
            }
            txt.push_str(&extra_defs);
            let mut vars: Vec<(u32, E)> = d
                .iter()
                .filter_map(|e| match nd(*e) {
                    N::BVar(i) | N::VVar(i) | N::RVar(i) => Some((i, *e)),
                    _ => None,
                })
                .collect();
            vars.sort();
            let t = (self.timeout_ms / 1000).max(2);
            let mut q = String::from("(set-option :pp.decimal false)\n");
            q.push_str(&txt);
            q.push_str(cmd);
            q.push('\n');
            if !vars.is_empty() {
                let names: Vec<String> = vars.iter().map(|x| nm(x.1)).collect();
                let _ = writeln!(q, "(get-value ({}))", names.join(" "));
            }
            if !appset.is_empty() {
                let names: Vec<String> = appset.iter().map(|x| nm(*x)).collect();
                let _ = writeln!(q, "(get-value ({}))", names.join(" "));
            }
            let file = format!("{}/m{}.smt2", self.scratch, std::process::id());
            std::fs::write(&file, &q).expect("scratch");
            let o = Command::new("z3-new").arg(format!("-T:{}", t * 2)).arg(&file).stderr(Stdio::null()).output();
            let Ok(o) = o else { continue };
            let s = String::from_utf8_lossy(&o.stdout).to_string();
            let mut it = s.splitn(2, '\n');
            match it.next().unwrap_or("").trim() {
                "sat" => {}
                "unsat" => {
                    if k == 2 {
                        // integrality excluded it: fall through as unknown
                        continue;
                    }
                    return (Res::Unsat, None);
                }
                _ => continue,
            }
            res = Res::Sat;
            let rest = it.next().unwrap_or("");
            let mut m = Model::new();
            let sexps = parse_sexps(rest);
            for s in sexps {
                if let S::L(pairs) = s {
                    for p in pairs {
                        if let S::L(kv) = p {
                            if kv.len() != 2 {
                                continue;
                            }
                            if let S::A(name) = &kv[0] {
                                let Ok(id) = name[1..].parse::<u32>() else { continue };
                                if let Some(val) = parse_val(&kv[1], sort(id), &mut m.inexact) {
                                    match nd(id) {
                                        N::BVar(i) | N::VVar(i) | N::RVar(i) => {
                                            m.m.insert(i, val);
                                        }
                                        N::App(..) => {
                                            if let Val::R(r) = val {
                                                m.apps.insert(id, r);
                                            }
                                        }
                                        _ => {}
                                    }
                                }
                            }
                        }
                    }
                }
            }
            // prefer integral models
            let nonint = m.m.iter().any(|(i, v)| cx().vars[*i as usize].integral && matches!(v, Val::R(r) if !r.is_int()));
            if nonint && k < 2 {
                // retry with integrality
                let keep = m;
                let mm = self.model_int(&set, &appset);
                return match mm {
                    Some(x) => (Res::Sat, Some(x)),
                    None => (Res::Sat, Some(keep)),
                };
            }
            return (Res::Sat, Some(m));
        }
        (res, None)
    }
    fn model_int(&mut self, set: &[E], appset: &BTreeSet<E>) -> Option<Model> {
        let (mut txt, _) = Solver::script(set, true);
        let (mut d, mut v, mut f) = (HashSet::new(), HashSet::new(), HashSet::new());
        let mut dummy = String::new();
        for e in set {
            Solver::emit(*e, &mut d, &mut v, &mut f, &mut dummy);
        }
        let mut extra = String::new();
        for e in appset.iter() {
            Solver::emit(*e, &mut d, &mut v, &mut f, &mut extra);
        }
        txt.push_str(&extra);
        let names: Vec<String> = d
            .iter()
            .filter(|e| matches!(nd(**e), N::BVar(_) | N::VVar(_) | N::RVar(_)) || appset.contains(e))
            .map(|e| nm(*e))
            .collect();
        txt.push_str("(check-sat)\n");
        let _ = writeln!(txt, "(get-value ({}))", names.join(" "));
        let file = format!("{}/mi{}.smt2", self.scratch, std::process::id());
        std::fs::write(&file, &txt).ok()?;
        let o = Command::new("z3-new").arg("-T:20").arg(&file).stderr(Stdio::null()).output().ok()?;
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        let mut it = s.splitn(2, '\n');
        if it.next().unwrap_or("").trim() != "sat" {
            return None;
        }
        let mut m = Model::new();
        for s in parse_sexps(it.next().unwrap_or("")) {
            if let S::L(pairs) = s {
                for p in pairs {
                    if let S::L(kv) = p {
                        if let (2, Some(S::A(name))) = (kv.len(), kv.first()) {
                            if let Ok(id) = name[1..].parse::<u32>() {
                                if let Some(val) = parse_val(&kv[1], sort(id), &mut m.inexact) {
                                    match nd(id) {
                                        N::BVar(i) | N::VVar(i) | N::RVar(i) => {
                                            m.m.insert(i, val);
                                        }
                                        N::App(..) => {
                                            if let Val::R(r) = val {
                                                m.apps.insert(id, r);
                                            }
                                        }
                                        _ => {}
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Some(m)
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Debug, Clone)]
pub enum S {
    A(String),
    L(Vec<S>),
}
pub fn parse_sexps(s: &str) -> Vec<S> {
    let mut stack: Vec<Vec<S>> = vec![vec![]];
    let mut cur = String::new();
    let flush = |cur: &mut String, stack: &mut Vec<Vec<S>>| {
        if !cur.is_empty() {
            stack.last_mut().unwrap().push(S::A(std::mem::take(cur)));
        }
    };
    for c in s.chars() {
        match c {
            '(' => {
                flush(&mut cur, &mut stack);
                stack.push(vec![]);
            }
            ')' => {
                flush(&mut cur, &mut stack);
                if stack.len() > 1 {
                    let l = stack.pop().unwrap();
                    stack.last_mut().unwrap().push(S::L(l));
                }
            }
            c if c.is_whitespace() => flush(&mut cur, &mut stack),
            c => cur.push(c),
        }
    }
    flush(&mut cur, &mut stack);
    stack.swap_remove(0)
}
fn parse_num(s: &str) -> Option<Rat> {
    let s = s.trim_end_matches('?');
    if let Some((a, b)) = s.split_once('.') {
        let n = Big::parse_dec(&format!("{}{}", a, b));
        let d = Big::parse_dec(&format!("1{}", "0".repeat(b.len())));
        Some(Rat::new(n, d))
    } else if s.chars().all(|c| c.is_ascii_digit()) && !s.is_empty() {
        Some(Rat::new(Big::parse_dec(s), Big::from_i128(1)))
    } else {
        None
    }
}
pub fn parse_real(s: &S, inexact: &mut bool) -> Option<Rat> {
    match s {
        S::A(a) => {
            if a.ends_with('?') {
                *inexact = true;
            }
            parse_num(a)
        }
        S::L(v) => match v.first()? {
            S::A(o) if o == "-" && v.len() == 2 => Some(parse_real(&v[1], inexact)?.neg()),
            S::A(o) if o == "-" => Some(parse_real(&v[1], inexact)?.sub(&parse_real(&v[2], inexact)?)),
            S::A(o) if o == "+" => {
                let mut r = Rat::zero();
                for x in &v[1..] {
                    r = r.add(&parse_real(x, inexact)?);
                }
                Some(r)
            }
            S::A(o) if o == "*" => {
                let mut r = Rat::one();
                for x in &v[1..] {
                    r = r.mul(&parse_real(x, inexact)?);
                }
                Some(r)
            }
            S::A(o) if o == "/" => Some(parse_real(&v[1], inexact)?.div(&parse_real(&v[2], inexact)?)),
            S::A(o) if o == "to_real" => parse_real(&v[1], inexact),
            S::A(o) if o == "root-obj" => {
                *inexact = true;
                root_obj(&v[1], &v[2])
            }
            _ => None,
        },
    }
}
/// evaluate a univariate polynomial s-expression in x at f64
fn peval(s: &S, x: f64) -> Option<f64> {
    match s {
        S::A(a) => {
            if a == "x" {
                Some(x)
            } else {
                a.parse::<f64>().ok()
            }
        }
        S::L(v) => {
            let S::A(o) = v.first()? else { return None };
            let a: Option<Vec<f64>> = v[1..].iter().map(|y| peval(y, x)).collect();
            let a = a?;
            Some(match o.as_str() {
                "+" => a.iter().sum(),
                "*" => a.iter().product(),
                "-" if a.len() == 1 => -a[0],
                "-" => a[0] - a[1..].iter().sum::<f64>(),
                "^" => a[0].powf(a[1]),
                _ => return None,
            })
        }
    }
}
/// crude isolation of the i-th real root by sign scan
fn root_obj(p: &S, idx: &S) -> Option<Rat> {
    let S::A(i) = idx else { return None };
    let i: usize = i.parse().ok()?;
    let mut roots = vec![];
    let mut grid: Vec<f64> = vec![];
    let mut g = 1e-12;
    while g < 1e13 {
        grid.push(g);
        g *= 1.003;
    }
    let mut all: Vec<f64> = grid.iter().rev().map(|x| -x).collect();
    all.push(0.0);
    all.extend(grid);
    for w in all.windows(2) {
        let (mut a, mut b) = (w[0], w[1]);
        let (fa, fb) = (peval(p, a)?, peval(p, b)?);
        if fa == 0.0 {
            roots.push(a);
            continue;
        }
        if fa * fb < 0.0 {
            for _ in 0..200 {
                let m = 0.5 * (a + b);
                let fm = peval(p, m)?;
                if fm * fa <= 0.0 {
                    b = m
                } else {
                    a = m
                }
            }
            roots.push(0.5 * (a + b));
        }
    }
    roots.get(i - 1).map(|x| Rat::from_f64(*x))
}
fn parse_val(s: &S, so: Sort, inexact: &mut bool) -> Option<Val> {
    match so {
        Sort::Bool => match s {
            S::A(a) => Some(Val::B(a == "true")),
            _ => None,
        },
        Sort::BV(_) => match s {
            S::A(a) if a.starts_with("#x") => u128::from_str_radix(&a[2..], 16).ok().map(Val::V),
            S::A(a) if a.starts_with("#b") => u128::from_str_radix(&a[2..], 2).ok().map(Val::V),
            _ => None,
        },
        Sort::Real => parse_real(s, inexact).map(Val::R),
    }
}

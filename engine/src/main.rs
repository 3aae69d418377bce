mod builtins;
mod exec;
mod expr;
mod ir;
mod mem;
mod rat;
mod smt;
mod special;

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // deep recursion over expression DAGs
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let t0 = Instant::now();
    let a: Vec<String> = std::env::args().collect();
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i < a.len() {
        let k = a[i].trim_start_matches("--").to_string();
        if i + 1 < a.len() && !a[i + 1].starts_with("--") {
            o.insert(k, a[i + 1].clone());
            i += 2;
        } else {
            o.insert(k, "1".into());
            i += 1;
        }
    }
    let num = |k: &str, d: u64| o.get(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(d);
    if !std::path::Path::new(&o["ir"]).exists() {
        eprintln!("cannot read IR {}", o["ir"]);
        return 3;
    }
    let m = ir::Module::load(&o["ir"]);
    let scratch = o.get("scratch").cloned().unwrap_or("/tmp".into());
    let mut s = smt::Solver::new(o.get("solver").map(|s| s.as_str()).unwrap_or("z3-new"), num("timeout", 10000), &scratch);
    if let Some(l) = o.get("log") {
        s.log = std::fs::File::create(l).ok();
    }
    let deadline = Instant::now() + Duration::from_secs(num("time-limit", 600));
    s.deadline = Some(deadline);
    let params: Vec<u64> = o.get("params").map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let ng = m.globals.len();
    let nf = m.funcs.len();
    let mut en = exec::Engine {
        m,
        s,
        gcache: vec![None; ng],
        bi: vec![None; nf],
        paths: 0,
        infeasible: 0,
        cut: 0,
        forks: 0,
        instrs: 0,
        asserts: BTreeMap::new(),
        cases: vec![],
        violations: BTreeMap::new(),
        errors: vec![],
        reached: BTreeMap::new(),
        funcs_run: HashSet::new(),
        params,
        ends: BTreeMap::new(),
        witness_max: num("witnesses", 4),
        witness_s: 0.0,
        rounded: 0,
        deadline,
        links: HashMap::new(),
        uf_used: BTreeSet::new(),
        cross_every: num("cross", 0),
        verbose: o.contains_key("verbose"),
        stop_first: !o.contains_key("all"),
        max_paths: num("max-paths", 200000),
        max_mem: num("max-mem", 8000),
        later: vec![],
        full: false,
        incomplete: 0,
        inconclusive: 0,
        max_viol: num("max-viol", 2),
        grp: 0,
    };
    let t1 = Instant::now();
    en.run(&o["entry"]);
    let wall = t1.elapsed().as_secs_f64();
    // ---- output
    let mut j = String::new();
    let mut funs: Vec<String> = en.funcs_run.iter().map(|i| exec::short(&en.m.funcs[*i].name)).collect();
    funs.sort();
    funs.dedup();
    let kv = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    j.push_str("{");
    j.push_str(&format!("\"entry\":{},\"params\":[{}],", js(&o["entry"]), en.params.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(",")));
    j.push_str(&format!(
        "\"paths\":{},\"infeasible\":{},\"cut\":{},\"forks\":{},\"instructions\":{},\"incomplete\":{},\"inconclusive\":{},\"rounded\":{},",
        en.paths, en.infeasible, en.cut, en.forks, en.instrs, en.incomplete, en.inconclusive, en.rounded
    ));
    j.push_str(&format!(
        "\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"cross_checked\":{},\"cross_disagree\":{},",
        en.s.queries, en.s.cache_hits, en.s.sat, en.s.unsat, en.s.unknown, en.s.fallback, en.s.time, en.s.max_time, en.s.cross_checked, en.s.cross_disagree
    ));
    j.push_str(&format!("\"load_s\":{:.3},\"wall_s\":{:.3},", (t1 - t0).as_secs_f64(), wall));
    j.push_str(&format!("\"ends\":{},\"reached\":{},\"violations\":{},", kv(&en.ends), kv(&en.reached), kv(&en.violations)));
    j.push_str(&format!(
        "\"asserts\":{{{}}},",
        en.asserts
            .iter()
            .map(|(k, v)| format!("{}:{{\"checked\":{},\"trivial\":{},\"discharged\":{},\"violated\":{}}}", js(k), v.checked, v.trivially, v.discharged, v.violated))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push_str(&format!("\"uf\":[{}],", en.uf_used.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"errors\":[{}],", en.errors.iter().take(20).map(|s| js(s)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"error_count\":{},", en.errors.len()));
    j.push_str(&format!(
        "\"cases\":[{}],",
        en.cases
            .iter()
            .map(|c| format!("{{\"kind\":{},\"label\":{},\"group\":{},\"text\":{}}}", js(&c.kind), js(&c.label), c.group, js(&c.text)))
            .collect::<Vec<_>>()
            .join(",")
    ));
    j.push_str(&format!("\"functions\":[{}]", funs.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")));
    j.push_str("}\n");
    match o.get("out") {
        Some(p) => {
            if std::fs::write(p, &j).is_err() {
                eprintln!("cannot write {}", p);
                return 3;
            }
        }
        None => print!("{}", j),
    }
    0
}

#!/usr/bin/env python3
"""Decides one property of reCTBN by symbolic execution of its compiled code.

usage: check.py <ID> [quick|thorough]      exit 0 held, 1 violated (VIOLATION line), 2 no answer
       check.py --setup                    build the engine only
       check.py --replay <ID> <case file>  run one recorded case against the compiled crate
"""
import concurrent.futures as cf
import fnmatch, json, os, re, shutil, subprocess, sys, threading, time, glob, hashlib, signal

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = "/repo"
TC = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
W = os.path.join(V, "work")
T0 = time.time()


class NoAnswer(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_") and k not in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUST_LOG")}
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def sh(cmd, what, cwd=V, timeout=600, **kw):
    r = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise NoAnswer("%s failed:\n%s" % (what, r.stdout[-3000:]))
    return r.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "-q"], "engine build", cwd=V + "/engine", CARGO_TARGET_DIR=V + "/engine/target")
    return V + "/engine/target/release/symx"


def fresh(target, triple):
    """forget earlier builds of the code under test and of the harness, so that cargo recompiles them"""
    for d in glob.glob(os.path.join(target, *([triple] if triple else []), "*", ".fingerprint")):
        for p in glob.glob(d + "/reCTBN-*") + glob.glob(d + "/harness-*"):
            shutil.rmtree(p, ignore_errors=True)


def build_ir(prop, entries):
    t = W + "/ir"
    fresh(t, TRIPLE)
    deps = "%s/%s/release/deps" % (t, TRIPLE)
    for p in glob.glob(deps + "/*harness*"):
        os.remove(p)
    sh(["cargo", "rustc", "--lib", "--crate-type", "staticlib", "--release", "--offline", "--features", prop.lower(), "--target", TRIPLE, "--", "-C", "save-temps"],
       "compiling /repo with the harness to IR", cwd=V + "/harness", CARGO_TARGET_DIR=t, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp")
    bc = glob.glob(deps + "/harness*.lto.after-restriction.bc")
    if len(bc) != 1:
        raise NoAnswer("expected one IR module, found %d" % len(bc))
    root = sh(["rustc", "--print", "sysroot"], "sysroot").strip()
    b = root + "/lib/rustlib/" + TRIPLE + "/bin/"
    out = W + "/" + prop
    sh([b + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), bc[0], "-o", out + ".bc"], "opt")
    sh([b + "llvm-dis", out + ".bc", "-o", out + ".ll"], "llvm-dis")
    for p in glob.glob(deps + "/*.bc"):
        os.remove(p)
    return out + ".ll"


def build_native(prop):
    t = W + "/native"
    fresh(t, None)
    sh(["cargo", "build", "--profile", "replay", "--bin", "replay", "--features", "native," + prop.lower(), "--offline", "-q"],
       "compiling /repo with the harness for replay", cwd=V + "/harness", CARGO_TARGET_DIR=t, RUSTFLAGS="")
    dst = W + "/replay-" + prop
    shutil.copy2(t + "/replay/replay", dst)
    return dst


def replay(binary, entry, text, timeout=60):
    """native run of recorded cases: list of (missing draws, result, observations)"""
    f = W + "/case-%d-%d" % (os.getpid(), threading.get_ident())
    with open(f, "w") as h:
        h.write(text)
    try:
        r = subprocess.run([binary, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env())
        out, tail = r.stdout, ("" if r.returncode == 0 else "exit %d" % r.returncode)
    except subprocess.TimeoutExpired as e:
        out, tail = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"
    finally:
        os.remove(f)
    res = []
    for l in out.splitlines():
        m = re.match(r"result \d+ missing=(\d+) (.*)$", l)
        if m:
            res.append([int(m.group(1)), m.group(2), []])
        elif l.startswith("obs ") and res:
            res[-1][2].append(l[4:])
    return res, tail


def fval(h):
    import struct
    return struct.unpack(">d", bytes.fromhex(h))[0]


def same_obs(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y or "x" in (x[2:], y[2:]) or x.endswith(" x"):
            continue
        if x[0] == "f" and y[0] == "f":
            p, q = fval(x[2:]), fval(y[2:])
            if p == q or (p != p and q != q) or abs(p - q) <= 1e-6 * max(abs(p), abs(q), 1e-3):
                continue
        return False
    return True


class Run:
    def __init__(self, prop, tier):
        import props
        self.P, self.tier = prop, tier
        self.spec = props.P[prop]
        self.known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == prop]
        self.limit = 840 if tier == "quick" else self.spec.get("thorough_limit", 3 * 3600)
        self.jobs = []
        for e in self.spec["entries"]:
            ps = e["quick"] if tier == "quick" else e.get("thorough", e["quick"])
            for p in ps:
                self.jobs.append((e["fn"], p, e))
        self.procs = set()
        self.stop = False
        self.results = []
        self.violations = []
        self.findings = {}
        self.unconfirmed = []
        self.notes = []
        self.validated = 0
        self.mismatch = []

    def engine(self, job):
        fn, params, e = job
        if self.stop:
            return None
        tag = "%s-%s-%s" % (self.P, fn, "_".join(map(str, params)))
        out = W + "/out-" + tag + ".json"
        if os.path.exists(out):
            os.remove(out)
        scratch = W + "/s-" + tag
        os.makedirs(scratch, exist_ok=True)
        left = self.limit - (time.time() - T0)
        tier = self.tier
        cmd = [self.symx, "--ir", self.ir, "--entry", fn, "--out", out, "--scratch", scratch,
               "--timeout", str(e.get("timeout", 20000 if tier == "quick" else 120000)), "--time-limit", str(int(max(5, min(left - 10, e.get("limit", 1e9))))),
               "--max-paths", str(e.get("max_paths", 10 ** 7)), "--max-mem", str(e.get("max_mem", 5000 if tier == "quick" else 12000)), "--witnesses", str(e.get("witnesses", 3 if tier == "quick" else 8)),
               "--cross", str(e.get("cross", 0 if tier == "quick" else 50))]
        if params:
            cmd += ["--params", ",".join(map(str, params))]
        if fn in [k["entry"] for k in self.known]:
            cmd += ["--all"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(), start_new_session=True)
        self.procs.add(p)
        o, _ = p.communicate()
        self.procs.discard(p)
        shutil.rmtree(scratch, ignore_errors=True)
        if self.stop:
            return None
        if p.returncode != 0 or not os.path.exists(out):
            return {"job": job, "crash": "engine exit %s: %s" % (p.returncode, o[-1500:])}
        r = json.load(open(out))
        r["job"] = job
        os.remove(out)
        return r

    def kill(self):
        self.stop = True
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass

    def finding(self, fn, label):
        for k in self.known:
            if k["entry"] == fn and fnmatch.fnmatchcase(label, k["label"]):
                return k
        return None

    def digest(self, r):
        """replays what the engine found; returns True when a violation is confirmed"""
        fn, params, e = r["job"]
        self.results.append(r)
        if "crash" in r:
            self.notes.append("%s%s: %s" % (fn, list(params), r["crash"]))
            return False
        name = "%s%s" % (fn, list(params))
        for w in r["errors"][:2]:
            self.notes.append("%s: engine: %s" % (name, w))
        if r["incomplete"]:
            self.notes.append("%s: %d states left unexplored (limits)" % (name, r["incomplete"]))
        if r["inconclusive"]:
            self.notes.append("%s: %d undecided assertions" % (name, r["inconclusive"]))
        if r["cross_disagree"]:
            self.notes.append("%s: solvers disagree on %d queries" % (name, r["cross_disagree"]))
        wit = [c for c in r["cases"] if c["kind"] == "witness"]
        if wit:
            self.wait_native()
            res, tail = replay(self.native, fn, "".join(c["text"] for c in wit), timeout=120)
            for i, c in enumerate(wit):
                want = [l[4:] for l in c["text"].splitlines() if l.startswith("obs ")]
                kind = c["text"].splitlines()[0].split()[1]
                if i < len(res) and res[i][1].split()[0] == kind and same_obs(want, res[i][2]):
                    self.validated += 1
                elif kind == "panic" and i < len(res) and res[i][1].startswith("fail") and any(k["entry"] == fn for k in self.known):
                    continue
                else:
                    self.mismatch.append({"entry": name, "case": c["text"], "native": res[i] if i < len(res) else tail})
        groups = {}
        for c in r["cases"]:
            if c["kind"] == "violation":
                groups.setdefault(c["label"], []).append(c)
        confirmed = False
        for label, cs in groups.items():
            k = self.finding(fn, label)
            hit = None
            self.wait_native()
            for c in cs:
                res, tail = replay(self.native, fn, c["text"], timeout=60)
                if not res:
                    hit = (c, "does not return (%s)" % tail) if tail else None
                elif res[0][1].startswith("fail"):
                    hit = (c, res[0][1])
                if hit:
                    break
            if hit and k:
                self.findings[k["id"]] = k
            elif hit:
                d = W + "/violations"
                os.makedirs(d, exist_ok=True)
                f = "%s/%s-%s-%d.case" % (d, self.P, fn, len(self.violations))
                with open(f, "w") as h:
                    h.write("# property %s entry %s\n# %s\n# native: %s\n# rerun: python3 /verif/check.py --replay %s %s\n%s" % (self.P, fn, label, hit[1], self.P, f, hit[0]["text"]))
                self.violations.append((f, name, label, hit[1]))
                confirmed = True
            else:
                self.unconfirmed.append((name, label, cs[0]["text"], res))
        for label, n in r["violations"].items():
            if label not in groups:
                self.unconfirmed.append((name, label, "", []))
        return confirmed

    def wait_native(self):
        self.native = self.native_f.result()

    def main(self):
        os.makedirs(W, exist_ok=True)
        fns = sorted({j[0] for j in self.jobs})
        pool = cf.ThreadPoolExecutor(3)
        ef = pool.submit(build_engine)
        irf = pool.submit(build_ir, self.P, fns)
        self.symx = ef.result()
        self.ir = irf.result()
        t_build = time.time() - T0
        # keep one core for the native build while it lasts
        self.native_f = pool.submit(build_native, self.P)
        workers = cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8")))
        fs = [workers.submit(self.engine, j) for j in self.jobs]
        for f in cf.as_completed(fs):
            r = f.result()
            if r is None:
                continue
            if self.digest(r):
                self.kill()
                break
        workers.shutdown(wait=True)
        self.wait_native()
        missing = []
        if not self.violations:
            done = {}
            for r in self.results:
                for k, n in r.get("reached", {}).items():
                    done[k] = done.get(k, 0) + n
            missing = [l for l in self.spec.get("reach", []) if l not in done]
            for r in self.results:
                if "crash" not in r and r["paths"] - r["cut"] == 0 and not r["violations"] and not r["job"][2].get("may_be_empty"):
                    missing.append("%s%s completes no path" % (r["job"][0], list(r["job"][1])))
        self.evidence(t_build)
        for k in self.findings.values():
            print("KNOWN-FINDING: property=%s %s" % (self.P, k["what"]))
        if self.violations:
            for f, name, label, nat in self.violations:
                print("%s: %s (native: %s)" % (name, label, nat))
                print("VIOLATION property=%s replay=%s" % (self.P, f))
            return 1
        bad = list(self.notes) + ["not reached: " + m for m in missing]
        for name, label, text, res in self.unconfirmed:
            bad.append("%s: counterexample to '%s' does not reproduce natively (%s)\n%s" % (name, label, res, text))
        if len(self.mismatch) > 0:
            print("note: %d of %d sampled paths differ natively: %s" % (len(self.mismatch), len(self.mismatch) + self.validated, json.dumps(self.mismatch[0])[:600]))
            if self.mismatch and self.validated < len(self.mismatch):
                bad.append("symbolic and native runs disagree on most sampled paths")
        if bad:
            for b in bad[:20]:
                print("NO ANSWER " + b)
            return 2
        c = self.cov
        print("%s %s: held on %d paths, %d assertions (%d by solver), %d queries, %.1f s solver, %d paths validated natively, %.1f s" %
              (self.P, self.tier, c["states"], c["assertions_checked"], c["assertions_discharged_by_solver"], c["queries"], c["solver_s"], self.validated, time.time() - T0))
        return 0

    def evidence(self, t_build):
        rs = [r for r in self.results if "crash" not in r]
        S = lambda k: sum(r[k] for r in rs)
        fns = sorted({f for r in rs for f in r["functions"]})
        asserts = {}
        for r in rs:
            for k, a in r["asserts"].items():
                d = asserts.setdefault(k, {"checked": 0, "trivial": 0, "discharged": 0, "violated": 0})
                for x in d:
                    d[x] += a[x]
        cov = {
            "states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": self.validated,
            "samples": [c["text"] for r in rs for c in r["cases"]][:3] or ["(no completed path)"],
            "explanation": "states: symbolic paths run to their end; transitions: IR instructions interpreted symbolically; traces: sampled paths whose solver model was replayed against the compiled crate with equal outcome and observations",
            "bounds": self.spec["bounds"], "entries": [{"fn": r["job"][0], "params": list(r["job"][1]), "paths": r["paths"], "forks": r["forks"], "queries": r["queries"], "wall_s": r["wall_s"]} for r in rs],
            "cut_paths": S("cut"), "forks": S("forks"), "queries": S("queries"), "query_cache_hits": S("cache_hits"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "fallback_queries": S("fallback"),
            "solver_s": round(S("solver_s"), 3), "cross_checked_with_cvc5": S("cross_checked"), "cross_disagreements": S("cross_disagree"), "rounded_rationals": S("rounded"),
            "assertions": asserts, "assertions_checked": sum(a["checked"] for a in asserts.values()), "assertions_discharged_by_solver": sum(a["discharged"] for a in asserts.values()),
            "assertions_true_by_normal_form": sum(a["trivial"] for a in asserts.values()),
            "path_ends": {k: sum(r["ends"].get(k, 0) for r in rs) for k in sorted({k for r in rs for k in r["ends"]})},
            "reached": {k: sum(r["reached"].get(k, 0) for r in rs) for k in sorted({k for r in rs for k in r["reached"]})},
            "functions_encoded": [f for f in fns if "reCTBN" in f], "functions_encoded_total": len(fns),
            "abstract_functions": sorted({u for r in rs for u in r["uf"]}),
            "native_mismatches": len(self.mismatch), "build_s": round(t_build, 1), "notes": self.notes[:10],
        }
        self.cov = cov
        ev = {"property": self.P, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
              "assumptions": self.spec.get("assumptions", []) + COMMON, "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(V + "/evidence", exist_ok=True)
        with open(V + "/evidence/%s.json" % self.P, "w") as h:
            json.dump(ev, h, indent=1)


COMMON = [
    "floating point is read as exact real arithmetic (NaN and infinities tracked when they arise on a path), except in the entries named *_floats, where each result is any value within the bounds of IEEE rounding; overflow to infinity and signed zero are outside",
    "the IR is that of a release build (opt-level 2, overflow checks on, no vectorisation); rustc and LLVM up to that point are trusted",
    "ChaCha generators are replaced by arbitrary streams of 64-bit draws keyed by seed; rayon's fork-join pairs run one after the other",
]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_engine()
        return 0
    if a and a[0] == "--replay":
        os.makedirs(W, exist_ok=True)
        b = build_native(a[1])
        t = open(a[2]).read()
        entry = re.search(r"entry (\w+)", t).group(1)
        r = subprocess.run([b, entry, a[2], "-v"], env=env())
        return r.returncode
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    run = Run(a[0], tier)
    try:
        return run.main()
    except NoAnswer as e:
        run.kill()
        print("NO ANSWER", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())

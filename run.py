#!/usr/bin/env python3
"""Check driver.   run.py <PROPERTY> [quick|thorough]      decide one property
                   run.py <PROPERTY> --replay FILE         run one recorded case again
Exit 0: held on everything observed.  Exit 1 + "VIOLATION property=.. replay=..": broken.
Exit 2: the machinery could not decide (nothing is claimed)."""
import sys, os, json, subprocess, time, hashlib, shutil, tempfile, re, glob
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
NPROC = os.cpu_count() or 4

COMMON = ["-w", "-fno-omit-frame-pointer", "-ffp-contract=off", "-ftemplate-backtrace-limit=2", "-fmax-errors=5",
          "-I", REPO, "-I", HARNESS, "-DTOON_USE_LAPACK"]
VARIANTS = {
    # address + undefined-behaviour sanitizers, all library checks on, storage poisoned with NaN
    "san": ["g++", "-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
            "-DTOON_CHECK_BOUNDS", "-DTOON_INITIALIZE_SNAN"],
    # as san but without the library's own bounds checks: the sanitizer alone must see an overrun
    "sanraw": ["g++", "-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    # what a release user compiles
    "rel": ["g++", "-O2"],
    # default macros, but fresh storage poisoned
    "relnan": ["g++", "-O2", "-DTOON_INITIALIZE_SNAN"],
    "clang": ["clang++", "-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-DTOON_CHECK_BOUNDS", "-DTOON_INITIALIZE_SNAN"],
    "nolapack": ["g++", "-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-UTOON_USE_LAPACK", "-DTOON_CHECK_BOUNDS", "-DTOON_INITIALIZE_SNAN"],
    "tsan": ["g++", "-O1", "-g1", "-fsanitize=thread"],
    "tsanrand": ["g++", "-O1", "-g1", "-fsanitize=thread", "-DTOON_INITIALIZE_RANDOM", "-DTOON_CHECK_BOUNDS"],
}

class Undecided(Exception):
    pass

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []       # dicts: key, unit, case, msg, desc, variant, src
        self.rules = {}            # key -> [evaluations, worst ratio]
        self.cases = 0; self.trivial = 0; self.distinct = 0
        self.samples = []
        self.notes = {}
        self.blooms = {}
        self.hung = False
        base = os.path.join(HERE, "build")
        os.makedirs(base, exist_ok=True)
        self.cache = os.path.join(base, "cache"); os.makedirs(self.cache, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)

    # ------------------------------------------------------------ building
    def flags(self, variant, defs=()):
        v = VARIANTS[variant] if isinstance(variant, str) else variant
        f = [x for x in COMMON if not ("-UTOON_USE_LAPACK" in v and x == "-DTOON_USE_LAPACK")]
        if v[0].startswith("clang"):
            f = [x for x in f if not x.startswith("-ftemplate-backtrace-limit") and not x.startswith("-fmax-errors")] + ["-ferror-limit=5"]
        return [v[0]] + f + v[1:] + list(defs)

    def build(self, src, variant, defs=()):
        """Compiles harness/src; returns the path of the binary, or None after recording a violation."""
        path = os.path.join(HARNESS, src)
        cmd = self.flags(variant, defs)
        pre = subprocess.run(cmd + ["-E", "-P", path], capture_output=True)
        key = hashlib.sha256(pre.stdout + repr(cmd).encode() + subprocess.run([cmd[0], "--version"], capture_output=True).stdout).hexdigest()[:32]
        out = os.path.join(self.cache, key)
        if os.path.exists(out):
            return out
        tmp = out + ".%d.%d.tmp" % (os.getpid(), int(time.time()*1e6))
        for attempt in (0, 1):
            try:
                r = subprocess.run(cmd + [path, "-o", tmp, "-llapack", "-lblas", "-lpthread"], capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                raise Undecided("compilation of %s (%s) timed out" % (src, variant))
            if r.returncode == 0:
                os.rename(tmp, out)
                return out
            if "error:" in r.stderr and "Killed" not in r.stderr and "internal compiler error" not in r.stderr:
                break
        # Is the toolchain itself sound?
        c = os.path.join(self.dir, "canary.cc")
        open(c, "w").write("#include <vector>\n#include <iostream>\nint main(){std::vector<double> v(3);std::cout<<v.size();}\n")
        v = VARIANTS[variant] if isinstance(variant, str) else variant
        ok = subprocess.run([v[0]] + [x for x in v[1:] if not x.startswith("-UTOON")] + [c, "-o", c + ".x", "-llapack", "-lblas"], capture_output=True).returncode == 0
        if not ok or "error:" not in r.stderr:
            raise Undecided("cannot compile %s (%s): %s" % (src, variant, r.stderr[-2000:]))
        first = [l for l in r.stderr.splitlines() if "error:" in l][:3]
        self.violation("compile/" + src, "", 0, "a legal program over the public interface no longer compiles: " + " | ".join(first), "", variant, src, list(defs))
        return None

    # ------------------------------------------------------------ running
    def violation(self, key, unit, case, msg, desc, variant, src, defs=()):
        self.violations.append(dict(key=key, unit=unit, case=case, msg=msg, desc=desc, variant=variant if isinstance(variant, str) else "custom", src=src, defs=list(defs)))

    def shard(self, binary, unit, a, b, src, variant, defs, extra=(), tag="", env_add=None, prefix=()):
        if self.hung:      # a hang is already confirmed; do not spend the time limit on more of them
            return None, None
        out = os.path.join(self.dir, "%s_%s_%s_%d%s.json" % (os.path.basename(binary)[:10], src, unit, a, tag))
        cmd = list(prefix) + [binary, "--seed", str(self.seed), "--tier", self.tier, "--unit", unit, "--from", str(a), "--to", str(b), "--out", out] + list(extra)
        env = dict(os.environ); env["OPENBLAS_NUM_THREADS"] = "1"; env["OMP_NUM_THREADS"] = "1"; env.update(env_add or {})
        for attempt in (0, 1):
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, timeout=3000, env=env, cwd=self.dir)
            except subprocess.TimeoutExpired:
                raise Undecided("unit %s of %s timed out" % (unit, src))
            if r.returncode == 0 and os.path.exists(out):
                res = json.load(open(out))
                if res["hangs"]: self.hung = True
                return res, out
        raise Undecided("unit %s of %s ended with %d: %s" % (unit, src, r.returncode, (r.stdout + r.stderr)[-1500:]))

    def absorb(self, res, out, src, variant, defs=()):
        if res is None: return
        self.cases += res["cases"]; self.trivial += res["trivial"]
        for k, (n, w) in res["rules"].items():
            e = self.rules.setdefault(k, [0, 0.0]); e[0] += n; e[1] = max(e[1], w)
        if len(self.samples) < 12:
            self.samples += res["samples"][:1]
        if os.path.exists(out + ".bloom"):
            data = open(out + ".bloom", "rb").read()
            k = res["unit"]
            v = int.from_bytes(data, "little")
            self.blooms[k] = self.blooms.get(k, 0) | v
            os.unlink(out + ".bloom")
        if os.path.exists(out + ".viol"):
            for l in open(out + ".viol"):
                try: d = json.loads(l)
                except ValueError: continue
                self.violation(d["key"], d["unit"], d["case"], d["msg"], d["desc"], variant, src, defs)

    def run_programs(self, programs):
        """programs: list of dicts src, variant, [defs], [share] (fraction of the case count used for this build)"""
        with ThreadPoolExecutor(NPROC) as ex:
            fut = {ex.submit(self.build, p["src"], p["variant"], p.get("defs", ())): p for p in programs}
            jobs = []
            errs = []
            runs = []
            for f in as_completed(fut):
                p = fut[f]
                try: b = f.result()
                except Undecided as e: errs.append(str(e)); continue
                if not b: continue
                l = subprocess.run([b, "--list", "--tier", self.tier], capture_output=True, text=True)
                for line in l.stdout.split("\n"):
                    if not line.strip(): continue
                    u, n = line.split(); n = int(n)
                    n = max(1, int(n * p.get("share", 1.0)))
                    k = min(n, 6 if self.tier == "quick" else 16)
                    for i in range(k):
                        a, e = n * i // k, n * (i + 1) // k
                        if e > a: runs.append((ex.submit(self.shard, b, u, a, e, p["src"], p["variant"], p.get("defs", ()), (), str(p.get("id", ""))), p))
            for f, p in runs:
                try:
                    res, out = f.result()
                    self.absorb(res, out, p["src"], p["variant"], p.get("defs", ()))
                except Undecided as e:
                    errs.append(str(e))
            if errs and not self.violations:
                raise Undecided("; ".join(errs)[:4000])
            if errs: self.notes["undecided_parts"] = errs

    # ------------------------------------------------------------ reporting
    def finish(self, rule_text, assumptions, level="exploration", require=()):
        known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
        open_k = [k for k in known if k["property"] == self.prop and k["status"] == "open"]
        hit = {}
        rest = []
        for v in self.violations:
            m = None
            for k in open_k:
                if k["key"] == v["key"] and ("unit" not in k or k["unit"] == v["unit"]) and re.search(k.get("msg", ""), v["msg"] + " " + v["desc"]):
                    m = k; break
            if m: hit.setdefault(m["id"], []).append(v)
            else: rest.append(v)
        self.distinct += sum(bin(x).count("1") for x in self.blooms.values())
        missing = [r for r in require if self.rules.get(r, [0])[0] == 0]
        for k in open_k:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        seen = set(); lines = []
        for v in rest:
            kk = (v["key"], v["src"], v["unit"])
            if kk in seen or len(lines) >= 8: continue
            seen.add(kk)
            path = os.path.join(rdir, "%s-%d.json" % (self.prop, len(lines)))
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, **v), open(path, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s [%s/%s case %s, %s]: %s" % (v["key"], v["src"], v["unit"], v["case"], v["variant"], v["msg"][:500].replace("\n", " ")))
            if v["desc"]: print("    case: " + v["desc"][:300])
        evaluations = sum(n for n, _ in self.rules.values())
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(evaluations=self.cases, distinct_nontrivial=self.distinct, rule=rule_text,
                                samples=self.samples[:12] or ["(none)"],
                                oracle_evaluations=evaluations, trivial_cases=self.trivial,
                                oracles={k: dict(evaluations=n, worst_error_over_bound=w) for k, (n, w) in sorted(self.rules.items())},
                                known_findings_observed={k: len(v) for k, v in hit.items()}, **self.notes),
                  assumptions=assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(rest))
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        self.prune()
        if lines:
            for l in lines: print(l)
            return 1
        if missing or self.cases == 0 or evaluations == 0:
            print("INCONCLUSIVE property=%s: nothing was observed for %s" % (self.prop, missing or "any oracle"))
            return 2
        print("HELD property=%s cases=%d distinct=%d oracle_evaluations=%d wall=%.1fs" % (self.prop, self.cases, self.distinct, evaluations, time.time() - self.t0))
        return 0

    def prune(self):
        # keep the cache of binaries small
        fs = sorted(((os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(self.cache + "/*")), reverse=True)
        tot = 0
        for _, s, f in fs:
            tot += s
            if tot > 3 << 30:
                try: os.unlink(f)
                except OSError: pass

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    prop = sys.argv[1]
    if prop == "--setup":
        for tool in ("g++", "clang++"):
            print(subprocess.run([tool, "--version"], capture_output=True, text=True).stdout.splitlines()[0])
        os.makedirs(os.path.join(HERE, "build"), exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    import checks
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        v = json.load(open(sys.argv[3]))
        r = Run(prop, v["tier"], v["seed"])
        if not v["unit"]:
            print("re-running the whole check"); return checks.decide(r)
        b = r.build(v["src"], v["variant"], v.get("defs", ()))
        cmd = [b, "--seed", str(v["seed"]), "--tier", v["tier"], "--unit", v["unit"], "--case", str(v["case"])]
        print(" ".join(cmd))
        rc = subprocess.run(cmd, env=dict(os.environ, VP_INPROC="1")).returncode
        shutil.rmtree(r.dir, ignore_errors=True)
        return 1 if rc else 0
    r = Run(prop, tier, seed)
    try:
        return checks.decide(r)
    except Undecided as e:
        if r.violations:
            return r.finish("(incomplete run)", [])
        print("UNDECIDED property=%s: %s" % (prop, e))
        shutil.rmtree(r.dir, ignore_errors=True)
        return 2

if __name__ == "__main__":
    sys.exit(main())

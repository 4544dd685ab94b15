#!/usr/bin/env python3
"""Runs one check:  run.py check P01 [--tier quick|thorough]
   setup:           run.py setup
   a replay:        run.py replay FILE
Exit 0: held on everything explored.  1: violated.  2: no answer."""
import argparse, array, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import repo_build as rb
from repo_build import Config

C = {}


def conf(name, *a, **k):
    C[name] = Config(name, *a, **k)


conf("src", "src", std="c++11", opt="-O1", fallback=["c++17"])
conf("single", "single", std="c++98", opt="-O1", fallback=["c++11"])
conf("asan_src", "src", std="c++11", opt="-O1", san="asan", fallback=["c++17"])
conf("asan_single", "single", std="c++17", opt="-O1", san="asan", fallback=["c++11"])
conf("clang_src", "src", cc="clang++", std="c++17", opt="-O2")
conf("clang_single", "single", cc="clang++", std="c++20", opt="-O3")
conf("clang_asan_src", "src", cc="clang++", std="c++11", opt="-O1", san="asan")
conf("tsan_src", "src", std="c++11", opt="-O1", san="tsan")
conf("tsan_single", "single", std="c++17", opt="-O1", san="tsan")
conf("alloc_src", "src", std="c++11", opt="-O1", alloc=True)
conf("alloc_single", "single", std="c++98", opt="-O1", alloc=True, fallback=["c++11"])
conf("alloc_asan_src", "src", std="c++11", opt="-O1", san="asan", alloc=True)
conf("alloc_asan_single", "single", std="c++17", opt="-O1", san="asan", alloc=True)
conf("world_src", "src", std="c++11", opt="-O1", world=True)
conf("world_single", "single", std="c++98", opt="-O1", world=True, fallback=["c++11"])
conf("world_clang_src", "src", cc="clang++", std="c++17", opt="-O2", world=True)
conf("valgrind_src", "src", std="c++11", opt="-O1", extra=["-g1"])
conf("valgrind_single", "single", std="c++98", opt="-O1", extra=["-g1"])

# P19: the forms that have to agree
MATRIX_QUICK, MATRIX_ALL = [], []
for form in ("src", "single"):
    for cc in ("g++", "clang++"):
        for std in ("c++98", "c++11", "c++14", "c++17", "c++20"):
            for opt in ("-O0", "-O1", "-O2", "-O3", "-Os"):
                n = "%s_%s_%s_%s" % (form, cc.replace("++", "xx"), std.replace("c++", ""), opt[1:])
                conf(n, form, cc=cc, std=std, opt=opt)
                MATRIX_ALL.append(n)
conf("src_gxx_11_O2_shared", "src", std="c++11", opt="-O2", shared=True)
conf("src_clangxx_17_O2_shared", "src", cc="clang++", std="c++17", opt="-O2", shared=True)
MATRIX_ALL += ["src_gxx_11_O2_shared", "src_clangxx_17_O2_shared"]
# options that a project may build with
for n, cc, std, opt, extra in (("ndebug", "g++", "c++11", "-O3", ["-DNDEBUG"]), ("lto", "g++", "c++14", "-O2", ["-flto"]),
                               ("hard", "g++", "c++17", "-O2", ["-D_FORTIFY_SOURCE=2", "-fstack-protector-all", "-ftrapv"])):
    for form in ("src", "single"):
        conf(form + "_" + n, form, cc=cc, std=std, opt=opt, extra=extra)
        MATRIX_ALL.append(form + "_" + n)
MATRIX_QUICK = ["src_gxx_11_O1", "src_gxx_98_O0", "src_gxx_20_O3", "src_clangxx_17_O2", "src_gxx_11_O2_shared",
                "src_ndebug", "single_ndebug", "src_lto", "single_lto", "single_hard", "single_gxx_98_O2", "single_gxx_17_O0", "single_clangxx_11_O1", "single_clangxx_20_O2"]
# thorough: every form, compiler and standard, the optimisation levels in turn
MATRIX_THOROUGH = [n for i, n in enumerate(MATRIX_ALL) if n[-1] not in "0123s" or "shared" in n or (i + i // 5) % 5 in (0, 2)]

# per check: runs of (configuration, cases); quick and thorough
DEFAULT_Q = [("src", 1.0), ("single", 1.0)]
DEFAULT_T = [("src", 1.0), ("single", 1.0), ("clang_src", 0.5), ("clang_single", 0.5), ("asan_src", 0.05), ("asan_single", 0.05)]
QUICK = {
    "P10": DEFAULT_Q + [("asan_src", 0.05)],
    "P16": [("asan_src", 1.0), ("asan_single", 0.7), ("src", 2.0), ("valgrind_src", 0.1)],
    "P17": DEFAULT_Q + [("asan_src", 0.05)],
    "P18": [("tsan_src", 1.0), ("tsan_single", 0.7), ("src", 2.0)],
    "P22": [("alloc_src", 3.0), ("alloc_single", 3.0), ("alloc_asan_src", 1.0)],
    "P23": DEFAULT_Q + [("asan_src", 0.05)],
    "P25": DEFAULT_Q + [("asan_src", 0.03)],
    "P27": DEFAULT_Q + [("asan_src", 0.03)],
    "P28": [("src", 1.0), ("single", 1.0), ("clang_src", 0.5)],
    "P29": [("alloc_src", 1.0), ("alloc_single", 1.0), ("alloc_asan_src", 0.1)],
    "P30": [("alloc_src", 1.0), ("alloc_single", 1.0)],
    "P31": [("world_src", 1.0), ("world_single", 1.0)],
    "P32": DEFAULT_Q + [("asan_src", 0.15)],
    "P33": DEFAULT_Q + [("asan_src", 0.04)],
    "P34": DEFAULT_Q + [("asan_src", 0.04)],
    "P35": [("alloc_src", 1.0), ("alloc_single", 1.0), ("alloc_asan_src", 0.05)],
    "P36": DEFAULT_Q + [("asan_src", 0.04)],
}
THOROUGH = {
    "P16": [("asan_src", 1.0), ("asan_single", 0.6), ("clang_asan_src", 0.6), ("src", 2.0), ("single", 1.0), ("valgrind_src", 0.05), ("valgrind_single", 0.03)],
    "P18": [("tsan_src", 1.0), ("tsan_single", 1.0), ("src", 2.0), ("single", 1.0)],
    "P22": [("alloc_src", 3.0), ("alloc_single", 3.0), ("alloc_asan_src", 1.0), ("alloc_asan_single", 1.0)],
    # stacks of its own are not for the sanitizers
    "P28": [("src", 1.0), ("single", 1.0), ("clang_src", 1.0), ("clang_single", 1.0)],
    "P29": [("alloc_src", 1.0), ("alloc_single", 1.0), ("alloc_asan_src", 0.1), ("alloc_asan_single", 0.1)],
    "P30": [("alloc_src", 1.0), ("alloc_single", 1.0)],
    "P31": [("world_src", 1.0), ("world_single", 1.0), ("world_clang_src", 0.5)],
    "P35": [("alloc_src", 1.0), ("alloc_single", 1.0), ("alloc_asan_src", 0.05), ("alloc_asan_single", 0.05)],
}
# cases of the quick tier (weight 1.0) and factor of the thorough tier
CASES = {"P01": 130000, "P02": 130000, "P03": 90000, "P04": 130000, "P05": 130000, "P06": 130000, "P07": 80000, "P08": 110000,
         "P09": 110000, "P10": 80000, "P11": 90000, "P12": 50000, "P13": 50000, "P14": 30000, "P15": 75000, "P16": 8000,
         "P17": 110000, "P18": 4000, "P19": 7000, "P20": 35000, "P21": 30000, "P22": 1000, "P23": 40000, "P24": 25000,
         "P25": 150000, "P26": 15000, "P27": 60000, "P28": 20000, "P29": 20000, "P30": 1200,
         "P31": 40000, "P32": 60000, "P33": 50000, "P34": 50000, "P35": 14000, "P36": 130000}
FACTOR_T = {"P19": 8}
LEVEL = {"P22": "fault_enumeration", "P29": "fault_enumeration"}

ENV = {"ASAN_OPTIONS": "exitcode=97:detect_leaks=1:hard_rss_limit_mb=4000:allocator_may_return_null=0:max_allocation_size_mb=1024:detect_stack_use_after_return=1",
       "UBSAN_OPTIONS": "halt_on_error=1:exitcode=97:print_stacktrace=1",
       "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:second_deadlock_stack=1",
       "LC_ALL": "C"}


def known(pid):
    """entries of known_findings.txt: (state, fields, text)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("known: "):
            words = line[7:].split(" ")
            f = dict(w.split("=", 1) for w in words[:3])
            if f.get("property") == pid:
                out.append((f, " ".join(words[3:])))
    return out


def run_mon(mon, check, cases, seed, out, extra=(), prefix=(), timeout=800, env=None):
    os.makedirs(out, exist_ok=True)
    e = dict(os.environ)
    e.update(ENV)
    e.update(env or {})
    argv = list(prefix) + [mon, "--check", check, "--cases", str(cases), "--seed", str(seed), "--out", out] + list(extra)
    p = subprocess.Popen(argv, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        text, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "the monitor did not end in %d s" % timeout
    text = text.decode("utf-8", "replace")
    rj = os.path.join(out, "result.json")
    if not os.path.exists(rj):
        return None, "no result (exit status %s)\n%s" % (p.returncode, text[-3000:])
    return json.load(open(rj, errors="replace")), text


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []  # (text, replay path)
        self.errors, self.notes = [], []
        self.counters, self.runs, self.samples = {}, [], []
        self.hashes, self.evaluations, self.rule = set(), 0, ""
        self.known_lines = []
        self.extra = {}
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)

    def replay_path(self, name):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def add_violation(self, name, head, body):
        if len(self.violations) >= 8:
            return
        path = self.replay_path("%s-%s.txt" % (self.pid, name))
        with open(path, "w", errors="replace") as f:
            f.write("# " + json.dumps(head) + "\n" + body)
        self.violations.append((head, path))

    def absorb(self, cfg, seed, cases, res, out):
        self.evaluations += res["cases"]
        self.rule = res["rule"]
        for k, v in res["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        run = {"build": C[cfg].describe(), "cases": res["cases"], "distinct": res["distinct"], "wall_s": round(res["wall_s"], 2), "slowest_case_s": round(res["slowest_case_s"], 3), "seed": seed}
        if res["inconclusive"]:
            run["slow_cases_not_judged"] = res["inconclusive"]
        self.runs.append(run)
        if len(self.samples) < 3:
            for s in res["samples"].split("%% case ")[1:]:
                if len(self.samples) < 3:
                    self.samples.append(s[:1500])
        try:
            a = array.array("Q")
            with open(os.path.join(out, "digest"), "rb") as f:
                a.frombytes(f.read())
            self.hashes.update(a)
            self.hashes.discard(0)
        except OSError:
            pass
        n = 0
        for f in res["findings"]:
            body = open(f["file"], errors="replace").read()
            if f["key"] == "HARNESS":
                self.errors.append("the harness disagrees with itself: " + body[:2000])
                continue
            self.add_violation("%s-%d" % (cfg, n), {"check": self.pid, "build": cfg, "seed": seed, "case": f["case"], "what": f["key"]}, body)
            n += 1

    def plain_runs(self):
        thorough = self.tier == "thorough"
        plan = (THOROUGH.get(self.pid, DEFAULT_T) if thorough else QUICK.get(self.pid, DEFAULT_Q))
        built = rb.build([C[n] for n, _ in plan])
        usable = 0
        for i, (n, weight) in enumerate(plan):
            path, why = built[n]
            if path is None:
                self.notes.append("not built: %s: %s" % (C[n].describe(), why[:600]))
                continue
            if why:
                self.notes.append("%s built as %s" % (C[n].describe(), why))
            usable += 1
            cases = max(8, int(CASES[self.pid] * weight * (FACTOR_T.get(self.pid, 10) if thorough else 1)))
            seed = self.seed * 100 + i
            out = os.path.join(self.work, n)
            extra = ["--digest", os.path.join(out, "digest"), "--seconds", "400" if thorough else "90"]
            prefix = []
            if thorough:
                extra += ["--slow", "1"]
            if n.startswith("valgrind"):
                prefix = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no", "--child-silent-after-fork=no",
                          "--trace-children=no", "--undef-value-errors=yes"]
                extra += ["--nolimit", "1", "--slow", "1"]
            os.makedirs(out, exist_ok=True)
            res, text = run_mon(path, self.pid, cases, seed, out, extra, prefix, 3000 if thorough else 400)
            if res is None:
                self.errors.append("%s: %s" % (C[n].describe(), text))
                continue
            self.absorb(n, seed, cases, res, out)
            if self.violations and not thorough:
                break
        if not usable:
            self.errors.append("nothing could be built: " + "; ".join(self.notes)[:3000])

    def matrix(self):
        thorough = self.tier == "thorough"
        names = MATRIX_THOROUGH if thorough else MATRIX_QUICK
        built = rb.build([C[n] for n in names])
        good = [n for n in names if built[n][0]]
        bad = [n for n in names if not built[n][0]]
        if not good:
            self.errors.append("nothing could be built: " + built[bad[0]][1][:3000])
            return
        for n in bad:
            self.add_violation("build-" + n, {"check": self.pid, "build": n, "what": "does not build"},
                               "%s does not build, %s does:\n%s\n" % (C[n].describe(), C[good[0]].describe(), built[n][1]))
        cases = int(CASES[self.pid] * (FACTOR_T[self.pid] if thorough else 1))
        digests = {}
        for n in good:
            out = os.path.join(self.work, n)
            os.makedirs(out, exist_ok=True)
            res, text = run_mon(built[n][0], self.pid, cases, self.seed, out, ["--digest", os.path.join(out, "digest")])
            if res is None:
                self.errors.append("%s: %s" % (C[n].describe(), text))
                continue
            self.absorb(n, self.seed, cases, res, out)
            a = array.array("Q")
            with open(os.path.join(out, "digest"), "rb") as f:
                a.frombytes(f.read())
            if res["cases"] == cases:
                digests[n] = a
        self.extra["builds_compared"] = len(digests)
        self.extra["logs_compared"] = cases * max(0, len(digests) - 1)
        if not digests:
            return
        base = sorted(digests, key=lambda n: names.index(n))[0]
        reported = 0
        for n in digests:
            if digests[n] == digests[base]:
                continue
            k = next(i for i in range(cases) if digests[n][i] != digests[base][i])
            count = sum(1 for i in range(cases) if digests[n][i] != digests[base][i])
            a, b = self.one(built[base][0], k), self.one(built[n][0], k)
            if a == b:
                # the difference has to be shown
                self.errors.append("case %d differed between %s and %s, but not when run again" % (k, base, n))
                continue
            import difflib
            d = "\n".join(difflib.unified_diff(a.split("\n"), b.split("\n"), C[base].describe(), C[n].describe(), lineterm="", n=2))
            if reported < 4:
                self.add_violation("differs-" + n, {"check": self.pid, "build": n, "other": base, "seed": self.seed, "case": k, "what": "builds disagree"},
                                   "%d of %d histories give another log; first:\n%s\n\nin full, %s:\n%s\n" % (count, cases, d, C[base].describe(), a))
            reported += 1

    def one(self, mon, k):
        out = os.path.join(self.work, "one")
        os.makedirs(out, exist_ok=True)
        e = dict(os.environ)
        e.update(ENV)
        try:
            p = subprocess.run([mon, "--check", self.pid, "--case", str(k), "--seed", str(self.seed), "--out", out], env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=100)
            return p.stderr.decode("utf-8", "replace") + "\nexit status %d" % p.returncode
        except subprocess.TimeoutExpired:
            return "no end"

    def probes(self):
        for f, text in known(self.pid):
            src = os.path.join(VERIF, "probes", f["probe"])
            exe = os.path.join(self.work, f["probe"] + ".exe")
            cc = ["clang++", "-std=c++11", "-w", "-I" + os.path.join(rb.REPO, "single_include"), src, "-o", exe]
            extra = [l[9:].strip() for l in open(src) if l.startswith("// flags: ")]
            p = subprocess.run(cc + " ".join(extra).split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                self.notes.append("probe %s not built" % f["probe"])
                continue
            try:
                r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=30).returncode
            except subprocess.TimeoutExpired:
                r = -1
            if r == 10:
                self.known_lines.append("KNOWN-FINDING: property=%s %s" % (self.pid, text))
            self.extra.setdefault("known_findings", []).append({"probe": f["probe"], "still_fails": r == 10})

    def evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.hashes), "rule": self.rule, "samples": self.samples,
               "runs": self.runs, "observed": self.counters}
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes
        d = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": LEVEL.get(self.pid, "exploration"), "coverage": cov,
             "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(d, f, indent=1)
        os.rename(p + ".tmp", p)

    def run(self):
        try:
            if self.pid == "P19":
                self.matrix()
            else:
                self.plain_runs()
            self.probes()
            self.evidence()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)
        for l in self.known_lines:
            print(l)
        for n in self.notes:
            print("note: " + n.split("\n")[0][:300])
        for head, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + json.dumps(head))
        for e in self.errors:
            print("ERROR: " + e[:3000], file=sys.stderr)
        print("%s %s: %d cases, %d distinct, %d violations, %.1f s" % (self.pid, self.tier, self.evaluations, len(self.hashes), len(self.violations), time.time() - self.t0))
        if self.violations:
            return 1
        return 2 if self.errors else 0


def replay(path):
    head = json.loads(open(path, errors="replace").readline()[2:])
    n = head["build"]
    built = rb.build([C[n]])[n]
    if not built[0]:
        print(built[1])
        return 1
    if "case" not in head:
        return 0
    c = Check(head["check"], "quick", head["seed"])
    try:
        if "other" in head:
            other = rb.build([C[head["other"]]])[head["other"]][0]
            a, b = c.one(built[0], head["case"]), c.one(other, head["case"])
            print(a if a == b else a + "\n---- the other build\n" + b)
            return 1 if a != b else 0
        out = os.path.join(c.work, "x")
        os.makedirs(out)
        e = dict(os.environ)
        e.update(ENV)
        return subprocess.run([built[0], "--check", head["check"], "--case", str(head["case"]), "--seed", str(head["seed"]), "--out", out], env=e).returncode
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["check", "setup", "replay"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.what == "setup":
        r = rb.build([C[n] for n in ("src", "single", "asan_src", "tsan_src", "alloc_src")])
        bad = [n for n in r if not r[n][0]]
        for n in bad:
            print(r[n][1][:2000])
        return 1 if len(bad) == len(r) else 0
    if a.what == "replay":
        return replay(a.arg)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return Check(a.arg, "thorough" if a.tier == "thorough" else "quick", seed).run()


if __name__ == "__main__":
    sys.exit(main())

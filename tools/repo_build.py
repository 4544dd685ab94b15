"""Builds the monitors from /repo's current tree (content-addressed cache in /verif/build)."""
import concurrent.futures, glob, hashlib, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = max(2, os.cpu_count() or 2)

CORE = ["main", "checks", "gen", "diff", "model", "script"]
EXEC = ["real", "real_dest", "real_dest2", "real_vec"]

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g1"]
TSAN = ["-fsanitize=thread", "-g1"]


class Config:
    def __init__(self, name, form, cc="g++", std="c++11", opt="-O1", san=None, alloc=False, world=False, shared=False, extra=(), fallback=()):
        self.name, self.form, self.cc, self.std, self.opt = name, form, cc, std, opt
        self.san, self.alloc, self.world, self.shared, self.extra, self.fallback = san, alloc, world, shared, list(extra), list(fallback)

    def flags(self, std=None):
        f = ["-std=" + (std or self.std), self.opt, "-w"] + self.extra
        if self.san == "asan":
            f += SAN
        elif self.san == "tsan":
            f += TSAN
        if self.shared:
            f += ["-fPIC"]
        return f

    def describe(self):
        return "%s %s %s %s%s%s%s" % (self.form, self.cc, self.std, self.opt,
                                      " " + self.san if self.san else "", " shared" if self.shared else "",
                                      " " + " ".join(self.extra) if self.extra else "")


def read(p):
    with open(p, "rb") as f:
        return f.read()


_tree = {}


def tree_hash(root):
    if root not in _tree:
        h = hashlib.sha256()
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for n in sorted(files):
                p = os.path.join(d, n)
                h.update(os.path.relpath(p, root).encode() + b"\0" + read(p) + b"\0")
        _tree[root] = h.hexdigest()
    return _tree[root]


def harness_hash():
    return tree_hash(HARNESS)


def key_of(*parts):
    return hashlib.sha256("\0".join(str(p) for p in parts).encode()).hexdigest()[:24]


class BuildError(Exception):
    pass


class Job:
    """one compiler call"""

    def __init__(self, out, argv, needs=()):
        self.out, self.argv, self.error = out, argv, None

    def run(self):
        if os.path.exists(self.out):
            return
        os.makedirs(os.path.dirname(self.out), exist_ok=True)
        tmp = self.out + ".%d.tmp" % os.getpid()
        try:
            p = subprocess.run(self.argv + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if p.returncode != 0:
                self.error = " ".join(self.argv) + "\n" + p.stdout.decode("utf-8", "replace")[:4000]
            else:
                os.rename(tmp, self.out)
        except subprocess.TimeoutExpired:
            self.error = "timeout: " + " ".join(self.argv)


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))


def plan(c, std=None):
    """jobs and the link command of a configuration"""
    jobs, objs = [], []
    corekind = "tsan" if c.san == "tsan" else "plain"
    cf = ["-std=c++17", "-O1", "-g1", "-w"] + (TSAN if corekind == "tsan" else [])
    ck = key_of("core", harness_hash(), cf)
    for f in CORE + (["alloc"] if c.alloc else []) + (["world"] if c.world else []):
        o = os.path.join(BUILD, "core-" + ck, f + ".o")
        jobs.append(Job(o, ["g++"] + cf + ["-c", os.path.join(HARNESS, f + ".cpp")]))
        objs.append(o)
    flags = c.flags(std)
    inc = os.path.join(REPO, "include" if c.form == "src" else "single_include")
    repo_hash = key_of(tree_hash(inc), tree_hash(os.path.join(REPO, "src")) if c.form == "src" else "")
    k = key_of("exec", harness_hash(), repo_hash, c.cc, flags)
    d = os.path.join(BUILD, "exec-" + k)
    for f in EXEC:
        o = os.path.join(d, f + ".o")
        jobs.append(Job(o, [c.cc] + flags + ["-D_GLIBCXX_ASSERTIONS", "-I" + inc, "-c", os.path.join(HARNESS, f + ".cpp")]))
        objs.append(o)
    libs = []
    if c.form == "src":
        for s in lib_sources():
            o = os.path.join(d, "lib_" + os.path.relpath(s, os.path.join(REPO, "src")).replace("/", "_") + ".o")
            jobs.append(Job(o, [c.cc] + flags + ["-D_GLIBCXX_ASSERTIONS", "-I" + inc, "-c", s]))
            libs.append(o)
    out = os.path.join(BUILD, "mon-" + key_of(k, ck, c.alloc, c.world, c.shared), "mon")
    sanflag = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"]}.get(c.san, [])
    links = []
    if c.shared and libs:
        so = os.path.join(os.path.dirname(out), "libargs.so")
        links.append(Job(so, [c.cc, "-shared"] + sanflag + libs))
        links.append(Job(out, [c.cc] + sanflag + objs + [so, "-Wl,-rpath," + os.path.dirname(out), "-lpthread"]))
    else:
        links.append(Job(out, [c.cc] + sanflag + objs + libs + ["-lpthread"]))
    return jobs, links, out


def prune():
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime)
        for d in ds[:-160]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(configs):
    """{name: (path or None, error)} for every configuration"""
    _tree.clear()
    os.makedirs(BUILD, exist_ok=True)
    prune()
    result = {}
    todo = {c.name: (c, [c.std] + c.fallback) for c in configs}
    while todo:
        planned, alljobs = {}, {}
        for n, (c, stds) in todo.items():
            planned[n] = plan(c, stds[0])
            for j in planned[n][0]:
                alljobs.setdefault(j.out, j)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            # the big ones first
            list(ex.map(Job.run, sorted(alljobs.values(), key=lambda j: -weight(j))))
            nxt = {}

            def link(n):
                jobs, links, out = planned[n]
                bad = [alljobs[j.out].error for j in jobs if alljobs[j.out].error]
                if not bad:
                    for l in links:
                        l.run()
                        if l.error:
                            bad.append(l.error)
                            break
                return n, out, bad
            for n, out, bad in ex.map(link, list(planned)):
                c, stds = todo[n]
                if not bad:
                    result[n] = (out, stds[0] if stds[0] != c.std else None)
                    for d in {os.path.dirname(out)} | {os.path.dirname(j.out) for j in planned[n][0]}:
                        os.utime(d)
                elif len(stds) > 1:
                    nxt[n] = (c, stds[1:])
                else:
                    result[n] = (None, "\n".join(bad))
        todo = nxt
    return result


def weight(j):
    s = j.argv[-1]
    w = {"checks.cpp": 9, "real_dest.cpp": 6, "real_dest2.cpp": 6, "real.cpp": 7, "gen.cpp": 5, "model.cpp": 6, "real_vec.cpp": 5}.get(os.path.basename(s), 3)
    return w + (4 if "-fsanitize=address,undefined" in j.argv else 0)

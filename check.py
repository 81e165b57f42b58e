#!/usr/bin/env python3
"""Decides one property: builds what it needs from /repo's working tree, runs the sub-checks, writes the evidence.

usage: check.py ID [--tier quick|thorough] [--replay FILE] [--only SUBCHECK]
environment: VERIF_SEED, VERIF_TIER
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
HARNESS = os.path.join(ROOT, "harness")
NCPU = os.cpu_count() or 4

DEFS = ("-DNDEBUG -DBOOST_DATE_TIME_NO_LIB -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL "
        "-DSPDLOG_SHARED_LIB -DJSON_HAS_THREE_WAY_COMPARISON=0 -DFMT_DEPRECATED_OSTREAM -DFMT_CONSTEVAL=").split()
LIBS = "-lspdlog -lfmt -lboost_date_time -pthread".split()
VARIANTS = {
    "plain": ("g++", ["-O1"]),
    "asan": ("g++", "-O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer".split()),
    "tsan": ("g++", "-O1 -fsanitize=thread".split()),
    "fuzz": ("clang++", "-O1 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer".split()),
    "pic": ("g++", ["-O1", "-fPIC"]),
    "picasan": ("g++", "-O1 -fPIC -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined -fno-omit-frame-pointer".split()),
}

# property: harness files, variants of the engine's sub-checks, extra components, multiplier of the quick counts
PROPS = {
    "C01": dict(files=["props_read"], variants=["plain", "asan"], quick=6),
    "C02": dict(files=["props_read"], variants=["plain", "asan"], quick=6),
    "C03": dict(files=["props_decomp"], variants=["plain", "asan"], quick=6),
    "C04": dict(files=["props_decomp"], variants=["plain", "asan"], quick=6),
    "C05": dict(files=["props_meta"], variants=["plain", "asan"], quick=4),
    "C06": dict(files=["props_meta"], variants=["plain", "asan"], quick=4),
    "C07": dict(files=["props_meta"], variants=["plain", "asan"], quick=4),
    "C08": dict(files=["props_hist"], variants=["plain", "asan"], quick=4),
    "C09": dict(files=["props_meta"], variants=["plain", "asan"], quick=4),
    "C10": dict(files=["props_hist"], variants=["plain", "asan"], quick=4, level="fault_enumeration"),
    "C11": dict(files=["props_fault", "damage", "mutate"], variants=["plain", "asan"], quick=3, level="fault_enumeration"),
    "C12": dict(files=["props_fault", "damage", "mutate"], variants=["plain", "asan"], quick=3, level="fault_enumeration"),
    "C13": dict(files=["props_fault", "damage", "mutate"], variants=["plain", "asan"], components=["fuzz"], extra=["libfuzzer"], quick=3),
    "C14": dict(files=["props_text", "textual"], variants=["plain", "asan"], quick=8),
    "C15": dict(files=["props_text", "textual"], variants=["plain", "asan"], quick=8),
    "C16": dict(files=["props_cli", "textual"], variants=["plain"], components=["cli"], quick=6),
    "C17": dict(files=["props_lang", "textual"], variants=["plain"], components=["python"], quick=5),
    "C18": dict(files=["props_lang", "textual"], variants=["plain"], components=["r"], quick=1.5),
    "C20": dict(files=["props_fault", "damage", "mutate", "props_lang", "textual"], variants=["plain", "asan"], components=["python", "r"], quick=8, level="fault_enumeration"),
    "C19": dict(files=["props_hist", "props_text", "textual"], variants=["plain", "asan", "tsan"], quick=2),
}
COMMON = ["main", "engine", "alloc", "model", "obs", "encodings_table"]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree_hash(paths):
    return sha(*[x for p in sorted(paths) for x in (os.path.basename(p), read(p))])


def find(base, *exts):
    r = []
    for d, _, fs in os.walk(base):
        r += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(r)


def run_build(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-6000:])


def atomically(out, make):
    """make(tmp) creates the file, which then becomes out"""
    if os.path.exists(out):
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.tmp" % (out, os.getpid())
    make(tmp)
    os.replace(tmp, out)


def generated():
    """the configured headers (cmake's configure_file)"""
    import re
    src = os.path.join(REPO, "include/cppsas7bdat/version.hpp.in")
    text = read(src).decode()
    m = re.search(r"project\(.*?VERSION\s+([0-9.]+)", read(os.path.join(REPO, "CMakeLists.txt")).decode(), re.S)
    ver = m.group(1) if m else "0.0.0"
    nums = (ver.split(".") + ["", "", "", ""])[:4]
    for k, v in zip(("MAJOR", "MINOR", "PATCH", "TWEAK"), nums):
        text = text.replace("@PROJECT_VERSION_%s@" % k, v)
    text = text.replace("@PROJECT_VERSION@", ver)
    d = os.path.join(BUILD, "gen-" + sha(text))
    out = os.path.join(d, "cppsas7bdat/version.hpp")

    def mk(tmp):
        with open(tmp, "w") as f:
            f.write(text)
    atomically(out, mk)
    return d, text, ver


class Objects:
    """compiles translation units into content-addressed objects"""

    def __init__(self):
        self.gen, gentext, self.version = generated()
        self.headers = tree_hash(find(os.path.join(REPO, "include"), ".hpp", ".h", ".in") + find(os.path.join(REPO, "src"), ".hpp", ".h")) + sha(gentext)
        self.hheaders = tree_hash(find(HARNESS, ".hpp"))
        self.inc = ["-I" + os.path.join(REPO, "include"), "-I" + self.gen, "-I" + os.path.join(REPO, "src")]

    def obj(self, variant, src, extra=(), key=""):
        cxx, opt = VARIANTS[variant]
        in_harness = src.startswith(HARNESS)
        flags = ["-std=c++20"] + ([] if variant in ("plain", "pic") else ["-g1"]) + opt + DEFS + (["-Wall", "-Wextra", "-Wno-switch"] if in_harness else []) + list(extra)
        out = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (variant, os.path.basename(src), sha(src, read(src), self.headers, self.hheaders if in_harness else "", " ".join(flags), key)))
        return out, lambda: atomically(out, lambda tmp: run_build([cxx] + flags + self.inc + ["-c", src, "-o", tmp]))

    def lib_sources(self):
        return find(os.path.join(REPO, "src"), ".cpp")

    def make(self, jobs):
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for f in [ex.submit(j) for j in jobs]:
                f.result()

    def program(self, variant, name, sources, libs=LIBS, extra=(), link=()):
        jobs = [self.obj(variant, s) for s in self.lib_sources()] + [self.obj(variant, s, extra) for s in sources]
        return self.link_job(variant, name, jobs, libs, link)

    def link_job(self, variant, name, jobs, libs, link=()):
        cxx, opt = VARIANTS[variant]
        objs = [o for o, _ in jobs]
        out = os.path.join(BUILD, "bin", "%s-%s-%s" % (name, variant, sha(*objs, *link)))
        return out, [j for _, j in jobs], lambda: atomically(out, lambda tmp: run_build([cxx] + opt + list(link) + objs + ["-o", tmp] + list(libs)))


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.loads(read(p)).get("findings", [])]


class Run:
    def __init__(self, pid, tier, seed, only):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.cfg = PROPS[pid]
        self.subs, self.notes = [], []
        self.violation = None
        self.errors = []
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.replays = os.path.join(ROOT, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.params = {}

    def build(self):
        o = Objects()
        self.o = o
        self.bins = {}
        stages = []
        files = [os.path.join(HARNESS, f + ".cpp") for f in COMMON + self.cfg["files"]]
        for v in self.cfg["variants"]:
            out, jobs, link = o.program(v, "h-" + "-".join(self.cfg["files"]), files)
            self.bins[v] = out
            stages.append((jobs, link))
        for c in self.cfg.get("components", []):
            stages += COMPONENTS[c](self, o)
        seen, jobs = set(), []
        for js, _ in stages:
            jobs += js
        o.make(jobs)
        o.make([l for _, l in stages])

    def engine(self, variant):
        out = os.path.join(self.scratch, "out-%s.json" % variant)
        scratch = os.path.join(self.scratch, variant)
        os.makedirs(scratch, exist_ok=True)
        cmd = [self.bins[variant], "--prop", self.pid, "--variant", variant, "--tier", self.tier, "--seed", str(self.seed),
               "--scratch", scratch, "--replays", self.replays, "--out", out, "--repo", REPO,
               "--budget", str(150 if self.tier == "quick" else 900)]
        if self.tier == "quick":
            cmd += ["--scale", str(self.cfg.get("quick", 1))]
        elif self.cfg.get("thorough"):
            cmd += ["--scale", str(self.cfg["thorough"])]
        if self.only:
            cmd += ["--check", self.only]
        for k in known_findings():
            if k["property"] == self.pid:
                cmd += ["--known", k["key"]]
        for k, v in self.params.items():
            cmd += ["--param", "%s=%s" % (k, v)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800 if self.tier == "quick" else 6 * 3600)
        except subprocess.TimeoutExpired:
            self.errors.append("%s: the %s sub-checks did not end" % (self.pid, variant))
            return
        if p.returncode or not os.path.exists(out):
            self.errors.append("engine (%s) ended with %d: %s" % (variant, p.returncode, p.stdout.decode(errors="replace")[-2000:]))
            return
        for r in json.loads(read(out)):
            self.add(r)

    def add(self, r):
        self.subs.append(r)
        if "harness_error" in r:
            self.errors.append("%s: %s" % (r["check"], r["harness_error"]))
        if "unreproduced" in r:
            self.notes.append("NOTE: sub-check %s saw a failure that did not come again in reruns of the same case: %s" % (r["check"], r["unreproduced"]))
        if "violation" in r and not self.violation:
            self.violation = (r["violation"], r["replay"], r["check"])

    def evidence(self, wall):
        known = {}
        for r in self.subs:
            for k, v in r.get("known", {}).items():
                known[k] = known.get(k, 0) + v
        samples = []
        for r in self.subs:
            samples += ["%s: %s" % (r["check"], s[:1500]) for s in r["samples"][:2]]
        cov = {
            "evaluations": sum(r["evaluations"] for r in self.subs),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in self.subs),
            "rule": "; ".join("%s: %s" % (r["check"], r["rule"]) for r in self.subs),
            "samples": samples or ["(no case ran)"],
            "sub_checks": [{k: r[k] for k in ("check", "variant", "evaluations", "planned", "distinct_nontrivial", "labels", "exhaustive", "wall_s", "known", "unreproduced", "extra") if k in r} for r in self.subs],
            "known_findings_hit": known,
        }
        level = self.cfg.get("level", "exploration")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
            "assumptions": ["the independent writer and models in /verif/harness describe the format and the documented behaviour correctly"] + self.cfg.get("assumptions", []),
            "wall_s": round(wall, 2), "violations": 1 if self.violation else 0,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


# ---------------------------------------------------------------- libFuzzer
FUZZ_FILES = ["fuzz", "damage", "mutate", "engine", "alloc", "model", "obs", "encodings_table"]
FUZZ_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1",
                UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")


def build_fuzz(run, o):
    jobs = [o.obj("fuzz", s) for s in o.lib_sources()] + [o.obj("fuzz", os.path.join(HARNESS, f + ".cpp")) for f in FUZZ_FILES]
    out, js, link = o.link_job("fuzz", "fuzz", jobs, LIBS, ["-fsanitize=fuzzer"])
    run.fuzz_bin = out
    return [(js, link)]


def fuzz_fails(run, artifact):
    """the artifact makes the target fail, every time"""
    for _ in range(3):
        try:
            p = subprocess.run([run.fuzz_bin, artifact, "-timeout=30", "-rss_limit_mb=4096"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=FUZZ_ENV, timeout=120)
        except subprocess.TimeoutExpired:
            continue
        if p.returncode == 0:
            return None
    return p.stderr.decode(errors="replace")


def fuzz_summary(err):
    keep = [l.strip() for l in err.splitlines() if any(w in l for w in ("FAIL:", "ERROR:", "runtime error", "SUMMARY", "deadly signal", "ALARM"))]
    keep += [l.strip() for l in err.splitlines() if "/repo/" in l or REPO in l][:4]
    return "; ".join(keep[:8])[:1500] or err[-500:]


def run_fuzz(run):
    t0 = time.time()
    quick = run.tier == "quick"
    n = NCPU
    runs = 30000 if quick else 1500000
    cap = 60 if quick else 900
    procs = []
    for k in range(n):
        d = os.path.join(run.scratch, "fuzz%d" % k)
        os.makedirs(os.path.join(d, "corpus"))
        os.makedirs(os.path.join(d, "art"))
        cmd = [run.fuzz_bin, os.path.join(d, "corpus"), "-seed=%d" % (run.seed * 64 + k + 1), "-runs=%d" % runs, "-max_len=20000", "-len_control=0", "-timeout=30",
               "-max_total_time=%d" % cap, "-rss_limit_mb=4096", "-print_final_stats=1", "-artifact_prefix=" + d + "/art/"]
        f = open(os.path.join(d, "log"), "wb")
        procs.append((d, subprocess.Popen(cmd, stdout=f, stderr=f, env=FUZZ_ENV, cwd=d)))
    ev = 0
    new = cov = 0
    bad = []
    for d, p in procs:
        try:
            p.wait(timeout=cap + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        text = read(os.path.join(d, "log")).decode(errors="replace")
        for l in text.splitlines():
            if l.startswith("stat::number_of_executed_units:"):
                ev += int(l.split(":")[-1])
            elif l.startswith("stat::new_units_added:"):
                new += int(l.split(":")[-1])
            elif " cov: " in l:
                cov = max(cov, int(l.split(" cov: ")[1].split()[0]))
        arts = sorted(glob.glob(d + "/art/*"))
        if arts:
            bad += arts
        elif p.returncode:
            run.errors.append("libFuzzer ended with %d: %s" % (p.returncode, text[-500:]))
    r = {"check": "libfuzzer", "variant": "fuzz", "evaluations": ev, "planned": runs * n, "distinct_nontrivial": new,
         "rule": "coverage-guided mutation (bytes and structured damage of newly written files) of the file and of the calls made on it, under AddressSanitizer and UndefinedBehaviorSanitizer; non-trivial: inputs that reached new code or counters",
         "labels": {"edges covered (best process)": cov}, "known": {}, "exhaustive": False,
         "samples": ["%d processes, %d inputs kept, %d edges covered in the library and the harness" % (n, new, cov)], "wall_s": time.time() - t0}
    for a in sorted(bad, key=os.path.getsize):
        err = fuzz_fails(run, a)
        if err is None:
            r["unreproduced"] = "libFuzzer artifact " + os.path.basename(a)
            continue
        out = os.path.join(run.replays, "C13-libfuzzer.fuzz")
        shutil.copy(a, out)
        small = os.path.join(run.scratch, "small")
        try:
            subprocess.run([run.fuzz_bin, a, "-minimize_crash=1", "-runs=20000", "-max_total_time=25", "-exact_artifact_path=" + small], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=FUZZ_ENV, timeout=90, cwd=run.scratch)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(small):
            e2 = fuzz_fails(run, small)
            if e2:
                shutil.copy(small, out)
                err = e2
        r["violation"] = fuzz_summary(err)
        r["replay"] = out
        break
    run.add(r)


# ---------------------------------------------------------------- the command line tool
def build_cli(run, o):
    run.params["version"] = o.version
    stages = []
    for v, key in (("plain", "cli"), ("asan", "cli-asan")):
        out, jobs, link = o.program(v, "cli", find(os.path.join(REPO, "apps"), ".cpp"), ["-ldocopt"] + LIBS)
        run.params[key] = out
        stages.append((jobs, link))
    return stages


# ---------------------------------------------------------------- the Python module
PYTHON = "/usr/bin/python3"
DRIVERS = os.path.join(ROOT, "drivers")
SEP = "\x1f"


def output(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, check=True).stdout.decode().strip()


def directory(out, make):
    """make(tmp) fills the directory, which then becomes out"""
    if os.path.exists(out):
        return
    tmp = "%s.%d.tmp" % (out, os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    make(tmp)
    try:
        os.rename(tmp, out)
    except OSError:  # someone else was faster
        shutil.rmtree(tmp, ignore_errors=True)


def build_python(run, o):
    base = os.path.join(REPO, "python/pycppsas7bdat")
    info = output([PYTHON, "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include()); print(sysconfig.get_config_var('EXT_SUFFIX')); print(sysconfig.get_config_var('py_version_nodot'))"]).split("\n")
    extra = ["-isystem", info[0], "-isystem", info[1], "-DBOOST_PYTHON_DYN_LINK", "-DBOOST_PYTHON_NO_LIB"]
    key = tree_hash(find(os.path.join(base, "cpp"), ".hpp"))
    pys = sorted(glob.glob(base + "/*.py"))
    stages = []
    for v, name in (("pic", "py-cmd"), ("picasan", "py-asan-cmd")):
        jobs = [o.obj(v, s) for s in o.lib_sources()] + [o.obj(v, s, extra, key) for s in find(os.path.join(base, "cpp"), ".cpp")]
        so, js, link = o.link_job(v, "cpp-ext", jobs, ["-lboost_python" + info[3]] + LIBS, ["-shared"])
        d = os.path.join(BUILD, "py-" + sha(so, tree_hash(pys)))

        def package(link=link, so=so, d=d):
            link()

            def mk(tmp):
                pkg = os.path.join(tmp, "pycppsas7bdat")
                os.makedirs(pkg)
                for p in pys:
                    shutil.copy(p, pkg)
                shutil.copy(so, os.path.join(pkg, "cpp" + info[2]))
            directory(d, mk)
        stages.append((js, package))
        env = ["PYTHONDONTWRITEBYTECODE=1", "PYTHONPATH=" + os.pathsep.join([os.path.join(DRIVERS, "py_stub"), d]), "PYTHONHASHSEED=0"]
        if v == "picasan":
            env += ["PYTHONMALLOC=malloc", "LD_PRELOAD=" + output(["g++", "-print-file-name=libasan.so"]) + " " + output(["g++", "-print-file-name=libstdc++.so"]),
                    "ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1:exitcode=99", "UBSAN_OPTIONS=halt_on_error=1:print_stacktrace=1:exitcode=99"]
        else:
            env += ["PYTHONMALLOC=debug"]
        run.params[name] = SEP.join(env + [PYTHON, os.path.join(DRIVERS, "driver.py")])
    return stages


# ---------------------------------------------------------------- the R package
def build_r(run, o):
    base = os.path.join(REPO, "R/CPPSAS7BDAT")
    rhome = output(["R", "RHOME"])
    inc = [re.sub("lib/R$", "share/R", rhome) + "/include", output(["Rscript", "--vanilla", "-e", 'cat(system.file("include", package="Rcpp"))'])]
    extra = [x for i in inc for x in ("-isystem", i)]
    key = tree_hash(find(os.path.join(base, "src"), ".hpp"))
    srcs = find(os.path.join(base, "src"), ".cpp")
    jobs = [o.obj("pic", s) for s in o.lib_sources()] + [o.obj("pic", s, extra, key) for s in srcs]
    so, js, link = o.link_job("pic", "Rcppsas7bdat", jobs, LIBS, ["-shared"])
    text = sorted(glob.glob(base + "/R/*.R")) + [base + "/NAMESPACE", base + "/DESCRIPTION.in"]
    d = os.path.join(BUILD, "R-" + sha(so, tree_hash(text), o.version))

    def package():
        link()

        def mk(tmp):
            pkg = os.path.join(tmp, "pkg", "CPPSAS7BDAT")
            os.makedirs(pkg + "/R")
            os.makedirs(pkg + "/src")
            os.makedirs(tmp + "/lib")
            for f in text[:-2]:
                shutil.copy(f, pkg + "/R")
            shutil.copy(base + "/NAMESPACE", pkg)
            with open(pkg + "/DESCRIPTION", "w") as f:
                f.write(read(base + "/DESCRIPTION.in").decode().replace("@PROJECT_VERSION@", o.version))
            shutil.copy(so, os.path.join(tmp, "pkg", "lib.so"))
            with open(pkg + "/src/Makefile", "w") as f:
                f.write("all:\n\tcp ../../lib.so CPPSAS7BDAT.so\n\nclean:\n\trm -f CPPSAS7BDAT.so\n")
            run_build(["R", "CMD", "INSTALL", "--no-docs", "--no-test-load", "--library=" + tmp + "/lib", pkg])
        directory(d, mk)
    env = ["R_LIBS=" + d + "/lib", "LC_ALL=C.UTF-8", "R_ENABLE_JIT=0"]
    run.params["r-cmd"] = SEP.join(env + [os.path.realpath(shutil.which("Rscript")), "--vanilla", os.path.join(DRIVERS, "driver.R")])
    return [(js, package)]


COMPONENTS = {"fuzz": build_fuzz, "cli": build_cli, "python": build_python, "r": build_r}
EXTRA_RUNS = {"libfuzzer": run_fuzz}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", choices=sorted(PROPS))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    r = Run(a.id, a.tier, a.seed, a.only)
    try:
        try:
            r.build()
        except BuildError as e:
            print("BUILD ERROR: " + str(e))
            return 2
        tb = time.time() - t0
        if a.replay:
            return replay(r, os.path.abspath(a.replay))
        for v in r.cfg["variants"]:
            r.engine(v)
            if r.violation:
                break
        if not r.violation:
            for x in r.cfg.get("extra", []):
                if not a.only or a.only == x:
                    EXTRA_RUNS[x](r)
        wall = time.time() - t0
        r.evidence(wall)
        for s in r.subs:
            print("%s/%s [%s]: %d cases, %d distinct non-trivial, %.1f s%s" % (r.pid, s["check"], s["variant"], s["evaluations"], s["distinct_nontrivial"], s["wall_s"], " (exhaustive)" if s.get("exhaustive") else ""))
        for n in r.notes:
            print(n)
        print("built in %.1f s, total %.1f s" % (tb, wall))
        if not r.violation:
            # a listed finding is shown for what it is; what it suppresses is only the exact behaviour it describes
            for k in known_findings():
                if k["property"] == a.id:
                    print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
        if r.violation:
            print("VIOLATION property=%s replay=%s" % (a.id, r.violation[1]))
            print("  sub-check %s: %s" % (r.violation[2], r.violation[0]))
            return 1
        if r.errors:
            for e in r.errors:
                print("ERROR: " + e)
            return 2
        if not any(s["evaluations"] for s in r.subs):
            print("ERROR: no case ran")
            return 2
        return 0
    finally:
        shutil.rmtree(r.scratch, ignore_errors=True)


def replay(r, path):
    if path.endswith(".fuzz"):
        return 1 if subprocess.run([r.fuzz_bin, path], env=FUZZ_ENV).returncode else 0
    variant = "plain"
    for line in open(path, errors="replace"):
        if line.startswith("variant "):
            variant = line.split()[1]
            break
    cmd = [r.bins[variant], "--replay", path, "--scratch", r.scratch, "--repo", REPO, "--out", path]
    for k in known_findings():
        if k["property"] == r.pid:
            cmd += ["--known", k["key"]]
    for k, v in r.params.items():
        cmd += ["--param", "%s=%s" % (k, v)]
    return 1 if subprocess.run(cmd).returncode else 0


if __name__ == "__main__":
    sys.exit(main())

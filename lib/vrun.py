"""Build the real sources of /repo in instrumented variants, run the drivers, and judge what the monitors saw."""
import os, sys, re, json, time, hashlib, subprocess, shutil, tempfile, threading, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
HANG = int(os.environ.get("VRUN_HANG", "0"))
SCALE = float(os.environ.get("VRUN_SCALE", "1"))   # development only
CPUS = int(os.environ.get("VRUN_CPUS", "8"))

DEFS = ["-D_GNU_SOURCE", "-pthread", "-DIOT_BUILD_COMPONENTS", "-DIOT_BUILD_DYNAMIC_LOAD"]
WARN = ["-w"]
SAN_A = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=nonnull-attribute,object-size", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # Debug configuration (assertions on, plain heap) under address+undefined sanitizers
    "asan": dict(cflags=["-g1", "-O1"] + SAN_A, ld=["-fsanitize=address,undefined"]),
    # Release configuration (assertions off, block cache on) under the same sanitizers
    "asan-rel": dict(cflags=["-g1", "-O1", "-DNDEBUG"] + SAN_A, ld=["-fsanitize=address,undefined"]),
    "tsan": dict(cflags=["-g1", "-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"], ld=["-fsanitize=thread"]),
    "tsan-rel": dict(cflags=["-g1", "-O1", "-DNDEBUG", "-fsanitize=thread", "-fno-omit-frame-pointer"], ld=["-fsanitize=thread"]),
    "plain": dict(cflags=["-g1", "-O1"], ld=[]),
    "plain-rel": dict(cflags=["-g1", "-O2", "-DNDEBUG"], ld=[]),
    # Release configuration, every basic block of the library reported to the driver (which defines __sanitizer_cov_trace_pc)
    "steps": dict(cflags=["-g1", "-O1", "-DNDEBUG", "-U_FORTIFY_SOURCE"], lib=["-fno-builtin", "-fsanitize-coverage=trace-pc"], ld=[]),
    "fuzz": dict(cflags=["-g1", "-O1", "-fsanitize=fuzzer-no-link"] + SAN_A, ld=["-fsanitize=fuzzer,address,undefined"]),
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:handle_abort=0:malloc_context_size=12:max_allocation_size_mb=2048",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "LSAN_OPTIONS": "exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1:history_size=4:detect_deadlocks=1",
}

class BuildError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def c_sources():
    src = os.path.join(REPO, "src/c")
    names = None
    try:
        txt = open(os.path.join(src, "CMakeLists.txt")).read()
        found = [f for f in re.findall(r"[\w-]+\.c\b", txt) if os.path.exists(os.path.join(src, f))]
        if "data.c" in found: names = sorted(set(found))
    except OSError: pass
    if not names: names = sorted(f for f in os.listdir(src) if f.endswith(".c"))
    return [n for n in names if n != "os.c"]

def gen_include():
    inc = os.path.join(BUILD, "inc")
    os.makedirs(os.path.join(inc, "iot"), exist_ok=True)
    txt = open(os.path.join(REPO, "src/c/defs.h.in")).read()
    ver = open(os.path.join(REPO, "VERSION")).read().strip()
    txt = txt.replace("${IOT_VERSION}", ver)
    txt = re.sub(r"#cmakedefine\s+(\w+)", r"#define \1", txt)
    p = os.path.join(inc, "iot", "defs.h")
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(txt); os.rename(tmp, p)
    return inc

def tree_hash():
    h = hashlib.sha256()
    for pat in ("src/c/*.h", "src/c/*.in", "include/iot/*", "include/iot/os/*", "VERSION"):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            if os.path.isfile(f) and not f.endswith("defs.h"):
                h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def fhash(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def compile_one(cc, src, flags, incs, key_extra, outdir):
    key = fhash(open(src, "rb").read(), " ".join([cc] + flags), key_extra)
    obj = os.path.join(outdir, os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.%d.tmp" % (obj, os.getpid(), threading.get_ident())
        r = sh([cc] + flags + ["-I" + i for i in incs] + ["-c", src, "-o", tmp])
        if r.returncode: raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[:3000]))
        os.rename(tmp, obj)
    return obj

def CC(v): return "clang" if v.startswith("fuzz") else "gcc"
def CXX(v): return "clang++" if v.startswith("fuzz") else "g++"

def build(targets):
    """targets: iterable of (variant, driver). Returns {(variant, driver): exe}."""
    inc = gen_include()
    th = tree_hash()
    incs = [inc, os.path.join(REPO, "include"), os.path.join(REPO, "src/c")]
    variants = sorted({v for v, _ in targets})
    hh = fhash(*[open(f, "rb").read() for f in sorted(glob.glob(os.path.join(VERIF, "harness/*.hpp")))])
    jobs = []
    for v in variants:
        d = os.path.join(BUILD, v); os.makedirs(d, exist_ok=True)
        for s in c_sources():
            jobs.append((v, "lib", os.path.join(REPO, "src/c", s)))
    # the largest first
    dset = sorted(set(targets))
    for v, drv in dset: jobs.insert(0, (v, drv, os.path.join(VERIF, "harness", drv + ".cpp")))
    for v in variants: jobs.append((v, "vh", os.path.join(VERIF, "harness", "vh.cpp")))
    def one(j):
        v, what, src = j
        d = os.path.join(BUILD, v)
        if what == "lib" and v.startswith("fuzz"):
            # sources clang refuses (they need gcc's reading of C) are not decoders: linked uninstrumented
            try: return j, compile_one(CC(v), src, VARIANTS[v]["cflags"] + DEFS + WARN, incs, th, d)
            except BuildError: return j, compile_one("gcc", src, ["-g1", "-O1"] + DEFS + WARN, incs, th, d)
        if what == "lib": return j, compile_one(CC(v), src, VARIANTS[v]["cflags"] + VARIANTS[v].get("lib", []) + DEFS + WARN, incs, th, d)
        return j, compile_one(CXX(v), src, ["-std=c++17", "-ftrivial-auto-var-init=zero"] + VARIANTS[v]["cflags"] + DEFS + ["-Wall", "-Wno-unused"], incs + [os.path.join(VERIF, "harness")], th + hh, d)
    objs = {}
    with ThreadPoolExecutor(CPUS) as ex:
        for j, o in ex.map(one, jobs): objs[j] = o
    exes = {}
    def link(t):
        v, drv = t
        lo = [o for (jv, w, s), o in objs.items() if jv == v and (w == "lib" or (w == "vh" and not v.startswith("fuzz")) or (w == drv))]
        extra = link_extra(drv) + ([] if v.startswith("fuzz") else ["-Wl,--wrap=pthread_create"])
        key = fhash(*sorted(lo), *VARIANTS[v]["ld"], *extra)
        exe = os.path.join(BUILD, v, drv + "." + key + ".exe")
        if not os.path.exists(exe):
            tmp = "%s.%d.tmp" % (exe, os.getpid())
            r = sh([CXX(v)] + VARIANTS[v]["ld"] + lo + extra + ["-o", tmp, "-rdynamic", "-lyaml", "-ldl", "-lpthread", "-lm"])
            if r.returncode: raise BuildError("linking %s failed:\n%s" % (drv, r.stdout[-4000:]))
            os.rename(tmp, exe)
        return t, exe
    with ThreadPoolExecutor(CPUS) as ex:
        for t, e in ex.map(link, dset): exes[t] = e
    return exes

def link_extra(drv):
    m = re.search(r"^//\s*LINK:\s*(.*)$", open(os.path.join(VERIF, "harness", drv + ".cpp")).read(), re.M)
    return m.group(1).split() if m else []

class Job:
    """One driver mode run over `n` cases, split over shards. probe: a known finding's own isolated run."""
    def __init__(self, driver, mode, quick, thorough=None, variant="asan", shards=None, args=(), env=None, timeout=600, hang=90, probe=None, expect_counters=()):
        self.driver, self.mode, self.variant = driver, mode, variant
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20
        self.shards, self.args, self.env, self.timeout, self.hang, self.probe = shards, list(args), env or {}, timeout, hang, probe
        self.expect = expect_counters
    @property
    def name(self): return "%s/%s/%s" % (self.driver, self.mode, self.variant)

SKIP_FRAMES = re.compile(r"(__interceptor|__asan|__ubsan|__tsan|__sanitizer|^operator |^std::|vh::|__lsan|^malloc$|^calloc$|^realloc$|^free$|^str|^mem|^abort$|^raise$|^__assert)")
def classify(out, err, rc):
    """-> (kind, key, text) or None when the run was clean. kind: viol | hang | error"""
    m = re.search(r"^VIOL key=(\S+) (.*)$", out, re.M)
    if m: return ("viol", m.group(1), m.group(0))
    if re.search(r"^HANG ", out, re.M): return ("hang", "hang", re.search(r"^HANG .*$", out, re.M).group(0))
    both = err + "\n" + out
    def frame(txt):
        for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)([^\n]*)", txt):
            if "/repo/" in f[1] and not SKIP_FRAMES.search(f[0]): return f[0]
        for f in re.findall(r"#\d+ (\S+) (/repo/[^\n]*)", txt): return f[0]
        return "harness"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", both)
    if m: return ("viol", "asan:%s:%s" % (m.group(1), frame(both[m.start():])), both[m.start():][:3000])
    m = re.search(r"^(\S+): runtime error: ([^\n]*)", both, re.M)
    if m:
        what = re.sub(r"0x[0-9a-f]+|[-+]?\b[0-9][-+0-9.e]*", "N", m.group(2))[:60].replace(" ", "_")
        return ("viol", "ubsan:%s:%s" % (frame(both[m.start():]), what), both[m.start():][:3000])
    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", both)
    if m: return ("viol", "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), frame(both[m.start():])), both[m.start():][:4000])
    m = re.search(r"ERROR: LeakSanitizer", both)
    if m and rc != 0:
        return ("viol", "leak:%s" % frame(both[m.start():]), both[m.start():][:3000])
    m = re.search(r"(\w+): Assertion `([^\n]*)' failed", both)
    if m: return ("viol", "assert:%s" % m.group(1), m.group(0))
    m = re.search(r"ERROR: libFuzzer: ([^\n]*)", both)
    if m:
        t = m.group(1)
        return (("hang", "hang", t) if "timeout" in t else ("viol", "fuzz:" + t.replace(" ", "_")[:40], both[m.start():][:3000]))
    if rc < 0 or rc in (134, 139): return ("viol", "signal:%d" % (-rc if rc < 0 else rc - 128), both[-3000:])
    if rc != 0: return ("error", "exit:%d" % rc, both[-3000:])
    if "EVID " not in out and "FUZZ-EVID " not in out: return ("error", "no-evidence", both[-2000:])
    return None

class Check:
    def __init__(self, prop, level="exploration", rule="", assumptions=()):
        self.prop, self.level, self.rule, self.assumptions = prop, level, rule, list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.counters, self.samples, self.evals, self.hashes, self.per_job = {}, [], 0, set(), {}
        self.violations, self.errors, self.notes, self.findings = [], [], [], []
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in (json.load(open(kf))["findings"] if os.path.exists(kf) else []) if k["property"] == prop]
        self.lock = threading.Lock()
        self.tmp = tempfile.mkdtemp(prefix="vrun-%s-" % prop)
        self.stop = False; self.ended = False; self.running = {}

    def run_cmd(self, cmd, env, timeout, cwd):
        e = dict(os.environ); e.update(SAN_ENV); e.update({"VERIF_TIER": self.tier, "LC_ALL": "C", "TZ": "UTC"}); e.update(env)
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
        with self.lock: self.running[p.pid] = p
        try:
            o, r = p.communicate(timeout=timeout)
            return o.decode("utf-8", "replace"), r.decode("utf-8", "replace"), p.returncode
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            o, r = p.communicate()
            return o.decode("utf-8", "replace") + "\nHANG runner timeout after %d s\n" % timeout, r.decode("utf-8", "replace"), -9
        finally:
            with self.lock: self.running.pop(p.pid, None)

    # one violation decides: what has not started is skipped, what runs gets a moment to finish
    def decided(self):
        def end():
            self.ended = True
            with self.lock: ps = list(self.running)
            for pid in ps:
                try: os.killpg(pid, 9)
                except OSError: pass
        if not self.stop:
            self.stop = True
            t = threading.Timer(15, end); t.daemon = True; t.start()

    def do_shard(self, job, exe, first, n, idx, retry=0):
        if self.stop: return   # a violation was found
        cwd = tempfile.mkdtemp(dir=self.tmp)
        hf = os.path.join(cwd, "hashes.bin")
        # distinct seeds per property, so that two properties sharing a driver mode do not run the same cases
        seed = (self.seed * 1000003 + int(hashlib.sha256((self.prop + job.mode).encode()).hexdigest()[:6], 16)) % (1 << 31)
        cmd = [exe, job.mode, str(seed), str(first), str(n), "hashes=" + hf, "hang=%d" % (HANG or job.hang), "dir=" + cwd] + job.args
        env = dict(job.env)
        if os.environ.get("VERIF_NICE") is None: pass
        t = time.time()
        out, err, rc = self.run_cmd(cmd, env, job.timeout, cwd)
        dt = time.time() - t
        if self.ended: shutil.rmtree(cwd, ignore_errors=True); return
        res = classify(out, err, rc)
        if res and res[0] == "hang" and retry == 0:
            with self.lock: self.notes.append("%s shard %d made no progress; re-run once" % (job.name, idx))
            shutil.rmtree(cwd, ignore_errors=True)
            return self.do_shard(job, exe, first, n, idx, retry=1)
        with self.lock:
            if res:
                kind, key, text = res
                rec = dict(job=job.name, key=key, text=text, cmd=" ".join(cmd), env=env, probe=job.probe, out=out[-6000:], err=err[-8000:])
                if kind == "error": self.errors.append(rec)
                elif job.probe and any(k["key"] == key and k.get("probe") == job.probe for k in self.known):
                    k = [k for k in self.known if k["key"] == key and k.get("probe") == job.probe][0]
                    if k["key"] not in [f["key"] for f in self.findings]: self.findings.append(k)
                else:
                    self.violations.append(rec); self.decided()
            m = re.search(r"^EVID (\{.*\})$", out, re.M)
            if m:
                ev = json.loads(m.group(1))
                self.evals += ev["evaluations"]
                for k, v in ev["counters"].items(): self.counters[k] = self.counters.get(k, 0) + v
                if len(self.samples) < 12: self.samples += [dict(job=job.name, case=s) for s in ev["samples"][:2]]
                pj = self.per_job.setdefault(job.name, dict(cases=0, evaluations=0, wall_s=0.0, shards=0))
                pj["cases"] += ev["cases"]; pj["evaluations"] += ev["evaluations"]; pj["wall_s"] = round(pj["wall_s"] + dt, 2); pj["shards"] += 1
                if os.path.exists(hf):
                    data = open(hf, "rb").read()
                    salt = int(hashlib.sha256(job.mode.encode()).hexdigest()[:15], 16)
                    for i in range(0, len(data), 8): self.hashes.add(int.from_bytes(data[i:i+8], "little") ^ salt)
        shutil.rmtree(cwd, ignore_errors=True)

    def run(self, jobs, extra=None):
        try:
            try: exes = build([(j.variant, j.driver) for j in jobs])
            except BuildError as e:
                self.errors.append(dict(job="build", key="build", text=str(e))); return self.finish()
            tasks = []
            for j in jobs:
                n = j.thorough if self.tier == "thorough" else j.quick
                if SCALE != 1: n = max(1, int(n * SCALE))
                if n <= 0: continue
                shards = j.shards or (CPUS if n >= CPUS else 1)
                shards = max(1, min(shards, n))
                step = (n + shards - 1) // shards
                # thorough: keep shards short enough that a timeout means a hang
                while step > 4 * max(1, (j.quick // (j.shards or CPUS) or 1)) and self.tier == "thorough": step = (step + 1) // 2
                idx = 0; first = 0
                while first < n:
                    tasks.append((j, exes[(j.variant, j.driver)], first, min(step, n - first), idx)); first += step; idx += 1
            # interleave jobs so that long ones start early
            workers = CPUS
            with ThreadPoolExecutor(workers) as ex:
                futs = [ex.submit(self.do_shard, *t) for t in tasks]
                for f in futs: f.result()
                if extra: extra(self, exes)
            for j in jobs:
                for c in j.expect:
                    if not self.counters.get(c) and not self.violations:
                        self.errors.append(dict(job=j.name, key="inconclusive", text="monitor never observed '%s'" % c))
            return self.finish()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=len(self.hashes), rule=self.rule,
                                samples=self.samples or ["(none)"], counters=self.counters, jobs=self.per_job,
                                known_findings=[f["key"] for f in self.findings], notes=self.notes[:20]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.findings: print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            seen = set()
            for i, v in enumerate(self.violations):
                if v["key"] in seen: continue
                seen.add(v["key"])
                p = os.path.join(EVID, "replay-%s-%d.txt" % (self.prop, len(seen)))
                with open(p, "w") as f:
                    f.write("key: %s\njob: %s\nreplay command (after 'python3 check.py %s' has built): %s\nenv: %s\n\n%s\n\n--- stdout ---\n%s\n--- stderr ---\n%s\n" % (v["key"], v["job"], self.prop, v["cmd"], v["env"], v["text"], v["out"], v["err"]))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  %s %s: %s" % (v["job"], v["key"], v["text"][:600].replace("\n", " | ")))
            for e in self.errors: print("ERROR (also) %s %s %s" % (e["job"], e["key"], e["text"][:300]))
            return 1
        if self.errors:
            for e in self.errors: print("ERROR %s %s %s" % (e["job"], e["key"], e["text"][:1500]))
            return 2
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.evals, len(self.hashes), time.time() - self.t0))
        return 0

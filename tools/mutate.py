#!/usr/bin/env python3
"""mutate.py FILE N SEED LOG PROP...: N random mutants of one source of /repo, each tried against the checks of PROP... in a private copy (development only).
Workers run in namespaces of their own, where /repo is the copy. Survivors are listed in LOG."""
import sys, os, re, random, subprocess, shutil, json, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def strip(line): return re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\x00" * (len(m.group(0)) - 2) + '"', re.sub(r"//.*", "", line))
def mutants(path):
    out = []; src = open(path).read().split("\n"); comment = False; off = 0; infn = False
    for i, l in enumerate(src):
        s = strip(l)
        if "/*" in s: comment = True
        if comment:
            if "*/" in s: comment = False
            continue
        if re.match(r"\s*#", s) or not s.strip(): continue
        if l.startswith("{"): infn = True
        if l.startswith("}"): infn = False
        if not infn: continue
        if re.search(r"\bassert\b|printf|iot_log_|_Static_assert", s): continue
        def add(a, b, new, kind): out.append((i, l[:a] + new + l[b:], kind))
        for m in re.finditer(r"(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])", s):
            if "->" in s[max(0, m.start()-1):m.end()]: continue
            for n in {"<": ["<=", ">"], "<=": ["<", "=="], ">": [">=", "<"], ">=": [">", "=="], "==": ["!="], "!=": ["=="]}[m.group(1)]: add(m.start(), m.end(), n, "rel")
        for m in re.finditer(r"&&|\|\|", s): add(m.start(), m.end(), "||" if m.group(0) == "&&" else "&&", "logic")
        for m in re.finditer(r"\b\d+u?\b", s):
            v = int(m.group(0).rstrip("u"));
            for n in {v + 1, max(0, v - 1)} - {v}: add(m.start(), m.end(), str(n) + ("u" if m.group(0).endswith("u") else ""), "const")
        for m in re.finditer(r"(?<=[\w\)\]] )([+\-])(?= [\w\(])", s): add(m.start(), m.end(), "-" if m.group(0) == "+" else "+", "arith")
        for m in re.finditer(r"\+\+|--", s): add(m.start(), m.end(), "--" if m.group(0) == "++" else "++", "incdec")
        for m in re.finditer(r"\btrue\b|\bfalse\b", s): add(m.start(), m.end(), "false" if m.group(0) == "true" else "true", "bool")
        m = re.match(r"(\s*)(?:else )?if \((.*)\)\s*(\{)?\s*$", s)
        if m:
            a = s.index("if (") + 4; b = a + len(m.group(2)); add(a, b, "! (" + l[a:b] + ")", "neg"); add(a, b, "0 && (" + l[a:b] + ")", "never")
        m = re.match(r"\s*(if \([^;]*\) )?((?:[A-Za-z_][\w>\-\.\[\]\*]*\s*(?:=|\+=|-=|\|=)|[A-Za-z_]\w* \(|\(?\*?[a-z]\w*\)?(?:\+\+|--)|[*(][^;=]*=).*;)\s*$", s)
        if m and not re.match(r"\s*(return|goto|const|static|uint|int|bool|char|size_t|struct|iot_\w+_t \*? ?\w+ =|case|default)", s[m.start(2):]): add(m.start(2), m.end(2), ";", "del")
        if re.match(r"\s*(break|continue);\s*$", s): add(0, len(l), ";", "del")
        if re.search(r"\bNULL\b.*\?|\?.*:", s):
            m = re.search(r"\(([^()]*)\) \?", s)
            if m: add(m.start(1), m.end(1), "! (" + l[m.start(1):m.end(1)] + ")", "neg")
    return src, out
def main():
    f, n, seed, log = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]; props = sys.argv[5:]
    src, ms = mutants(os.path.join("/repo", f)); random.Random(seed).shuffle(ms); total = len(ms)
    lo, hi = os.environ.get("LINES", "0-999999").split("-"); ms = [m for m in ms if int(lo) <= m[0] + 1 <= int(hi)][:n]
    W = int(os.environ.get("WORKERS", "8")); base = os.environ.get("BASE", "/tmp/mutate"); os.makedirs(base, exist_ok=True)
    for w in range(W):
        d = "%s/w%d" % (base, w)
        if not os.path.exists(d):
            os.makedirs(d)
            subprocess.check_call("cp -a %s %s/verif && mkdir %s/repo" % (V, d, d), shell=True)
        subprocess.check_call("rm -rf %s/repo && mkdir %s/repo && git -C /repo archive HEAD | tar -x -C %s/repo && rsync -a --exclude build --exclude .git --exclude evidence --exclude seeded %s/ %s/verif/ 2>/dev/null || (cp -a %s/lib %s/harness %s/check.py %s/known_findings.json %s/verif/)" % (d, d, d, V, d, V, V, V, V, d), shell=True)
    free = list(range(W)); import threading; lk = threading.Lock(); out = open(log, "a")
    def one(m):
        i, new, kind = m
        with lk: w = free.pop()
        d = "%s/w%d" % (base, w); p = os.path.join(d, "repo", f); orig = open(p).read()
        try:
            t = src[:]; t[i] = new; open(p, "w").write("\n".join(t)); res = "SURVIVED"
            for P in props:
                env = dict(os.environ, VRUN_CPUS="1", VRUN_SCALE=os.environ.get("VRUN_SCALE", "0.3"), VRUN_HANG="25", VERIF_SEED="1", VERIF_TIER="quick")
                try: r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && cd %s/verif && exec timeout -k 5 600 python3 check.py %s" % (d, d, P)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
                except Exception as e: res = "error %s" % e; break
                o = r.stdout.decode("utf-8", "replace")
                if r.returncode == 0: continue
                if r.returncode == 1: res = "caught by %s: %s" % (P, (o.split("\n") + ["", ""])[1][:110]); break
                if "compiling" in o: res = "does not compile"; break
                res = "NOANSWER %s %d %s" % (P, r.returncode, o[-200:].replace("\n", " | ")); break
        finally:
            open(p, "w").write(orig)
            with lk: free.append(w)
        with lk:
            out.write("%s:%d [%s] %s\n     - %s\n     + %s\n" % (f, i + 1, kind, res, src[i].strip(), new.strip())); out.flush()
    with ThreadPoolExecutor(W) as ex: list(ex.map(one, ms))
    # the objects of mutants are of no further use
    for w in range(W): subprocess.call("find %s/w%d/verif/build -mmin -600 -name '%s.*.o' -newer %s/w%d/verif/check.py -delete; find %s/w%d/verif/build -name '*.exe' -mmin -600 -newer %s/w%d/verif/check.py -delete" % (base, w, os.path.basename(f), base, w, base, w, base, w), shell=True)
    out.close()
main()

"""Check framework: extraction of the current /repo tree, reports, evidence."""
import hashlib, json, os, subprocess, sys, time, traceback, signal

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
SHIM = os.path.join(VERIF, "engine", "shim")


class Broken(Exception):
    """analysis cannot answer (vanished anchor, extraction failure)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def tree(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("__pycache__", "_build", ".git"))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return sorted(out)


def tool():
    src = os.path.join(VERIF, "engine", "extract", "slpx.cpp")
    key = digest([src])
    exe = os.path.join(BUILD, "slpx-" + key)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    fl = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
    fl = [x for x in fl if not x.startswith("-std")] + ["-std=c++17"]
    r = sh(["clang++"] + fl + ["-fno-rtti", "-O1", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so"])
    if r.returncode:
        raise Broken("extractor does not build:\n" + r.stdout[-2000:])
    os.replace(tmp, exe)
    return exe


FLAGS = ["-std=c++23", "-UNDEBUG", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + SHIM, "-isystem", "/usr/include/eigen3", "-include", "eigen_compat.hpp", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-ferror-limit=0", "-w"]
_units = {}


def pyflags():
    """compile flags of the Python bindings' unit"""
    import glob
    out = ["-I" + SHIM + "/py", "-I" + REPO + "/python/cpp"]
    for pat in ("/opt/vp/venv/lib/python3*/site-packages/nanobind/include", "/usr/include/python3*/"):
        g = sorted(glob.glob(pat))
        if g:
            out += ["-isystem", g[-1]]
    return out


def library():
    """one unit with every source file of the library"""
    fs = sorted(os.path.join(d, f) for d, _, ns in os.walk(REPO + "/src") for f in ns if f.endswith(".cpp"))
    hs = sorted(os.path.join(d, f) for d, _, ns in os.walk(REPO + "/include/sleipnir") for f in ns if f.endswith(".hpp"))
    text = "".join('#include "%s"\n' % f for f in hs + fs) + open(os.path.join(VERIF, "engine", "tu", "lib.cpp")).read()
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "lib-unit.cpp")
    if not os.path.exists(out) or open(out).read() != text:
        with open(out + ".%d" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(out + ".%d" % os.getpid(), out)
    return out


def extract(name, src=None):
    exe = tool()
    src = src or os.path.join(VERIF, "engine", "tu", name + ".cpp")
    roots, flags = [REPO + "/include", REPO + "/src"], FLAGS
    if name == "py":
        roots.append(REPO + "/python/cpp")
        flags = FLAGS + pyflags()
    if name == "lib":
        src = library()
    key = digest(tree(*roots, SHIM) + [src, exe])
    out = os.path.join(BUILD, "%s-%s.jsonl" % (name, key))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        for f in os.listdir(BUILD):
            if f.startswith(name + "-") and f.endswith(".jsonl"):
                try:
                    os.unlink(os.path.join(BUILD, f))
                except OSError:
                    pass
        r = sh([exe, tmp, ",".join(roots + [os.path.join(VERIF, "engine", "tu"), os.path.join(VERIF, "engine", "spec")]), src, "--"] + flags + (["-fno-access-control"] if name in ("client", "mclient") else []))
        if not os.path.exists(tmp):
            raise Broken("extraction of %s failed:\n%s" % (name, r.stdout[-3000:]))
        errs = [l for l in r.stdout.splitlines() if ": error:" in l or "fatal error" in l]
        with open(tmp + ".err", "w") as f:
            f.write("\n".join(errs))
        os.replace(tmp + ".err", out + ".err")
        os.replace(tmp, out)
    return out


def unit(name):
    if name not in _units:
        import sem
        p = extract(name)
        u = sem.Unit(p)
        u.name = name
        u.errs = open(p + ".err").read().splitlines() if os.path.exists(p + ".err") else []
        bad = [e for e in u.errs if e.startswith(REPO) and "/repo/" in e]
        u.repoerrs = bad
        _units[name] = u
    return _units[name]


class Timeout(Exception):
    pass


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obs = []          # (name, where, status, detail)
        self.funcs = set()
        self.sites = 0
        self.notes = []
        self.violations = []   # dict key, where, what
        self.units = {}
        self.explain = ""
        self.expect = 1

    def unit(self, name):
        u = unit(name)
        self.units[name] = {"functions": len(u.fns), "records": len(u.recs)}
        return u

    def saw(self, u, fns):
        for f in fns:
            f = u.fns.get(f) if not isinstance(f, dict) else f
            if f:
                self.funcs.add("%s (%s)" % (f["dn"], u.loc(f)))

    def ok(self, name, where="", detail=""):
        self.obs.append((name, where, "discharged", detail))

    def fail(self, name, where, what):
        self.obs.append((name, where, "violated", what))
        self.violations.append({"key": "%s@%s" % (name, self.pid), "name": name, "where": where, "what": what})

    def undecided(self, name, where, why):
        self.obs.append((name, where, "undecided", why))

    def check(self, name, where, fn, budget=120):
        """run one obligation: fn() returns None/True when it holds or a
        string describing the violation.  Anything the engine cannot model
        makes the obligation undecided, never a violation."""
        import sem, decide

        def h(*a):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, h)
        signal.alarm(budget)
        try:
            r = fn()
        except Timeout:
            r = decide.Undecided("time budget of %d s" % budget)
        except (sem.Unsupported, decide.Undecided, sem.NoReturn) as ex:
            r = decide.Undecided("%s: %s" % (type(ex).__name__, ex))
        except Broken as ex:
            r = decide.Undecided(str(ex))
        except RecursionError:
            r = decide.Undecided("recursion")
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            r = decide.Undecided("%s: %s (%s:%d)" % (type(ex).__name__, str(ex)[:100], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if r is None or r is True:
            self.ok(name, where)
        elif isinstance(r, decide.Undecided):
            self.undecided(name, where, str(r))
        else:
            self.fail(name, where, str(r))

    # -------------------------------------------------------------- finish
    def finish(self, meta, seed):
        known = read_known()
        dec = [o for o in self.obs if o[2] != "undecided"]
        und = [o for o in self.obs if o[2] == "undecided"]
        new = [v for v in self.violations if v["key"] not in known]
        old = [v for v in self.violations if v["key"] in known]
        print("%s [%s]: %d obligations, %d discharged, %d violated, %d undecided; %d functions analysed; %.1fs" % (
            self.pid, self.tier, len(self.obs), len([o for o in self.obs if o[2] == "discharged"]), len(self.violations), len(und), len(self.funcs), time.time() - self.t0))
        for o in und:
            print("  undecided: %s (%s): %s" % (o[0], o[1], o[3][:300]))
        for n in self.notes:
            print("  note: " + n)
        broken = len(dec) < max(1, self.expect)
        ev = {"property": self.pid, "tier": self.tier, "seed": seed, "level": meta["level"],
              "coverage": {"explanation": meta.get("rule", "") + (" " + self.explain if self.explain else ""),
                           "obligations": len(self.obs), "discharged": len([o for o in self.obs if o[2] == "discharged"]),
                           "undecided": len(und), "functions_analysed": len(self.funcs), "sites": self.sites,
                           "units": self.units,
                           "obligation_list": ["%s [%s] %s" % (o[0], o[1], o[2]) for o in self.obs][:400],
                           "functions": sorted(self.funcs)[:400],
                           "undecided_list": ["%s: %s" % (o[0], o[3][:200]) for o in und][:100]},
              "assumptions": meta.get("assumptions", []),
              "violations": len(new), "wall_s": round(time.time() - self.t0, 2)}
        if meta["level"] == "proof":
            ev["coverage"]["checker_cmd"] = "python3-vt engine/run.py %s" % self.pid
            ev["coverage"]["trusted_base"] = ["clang 18 front end", "engine/extract", "engine/py"]
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in old:
            print("KNOWN-FINDING: property=%s %s (%s): %s" % (self.pid, v["name"], v["where"], known[v["key"]]))
        if new:
            rp = os.path.join(EVID, self.pid + ".replay.txt")
            with open(rp, "w") as f:
                for v in new:
                    f.write("%s\n  at %s\n  rule: %s\n  %s\n\n" % (v["name"], v["where"], meta.get("rule", ""), v["what"]))
            for v in new:
                print("  violated: %s\n    at %s\n    %s" % (v["name"], v["where"], v["what"][:1200]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if broken:
            print("ANALYSIS-BROKEN: %s decided %d obligations, expected at least %d" % (self.pid, len(dec), self.expect))
            return 2
        return 0


def read_known():
    p = os.path.join(VERIF, "known_findings.txt")
    d = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                parts = l[6:].strip().split(None, 2)
                kv = dict(x.split("=", 1) for x in parts[:2])
                d["%s@%s" % (kv["key"], kv["property"])] = parts[2] if len(parts) > 2 else ""
    return d


CHECKS = {}


def check(pid, rule, level="other", assumptions=(), expect=1):
    def d(fn):
        CHECKS[pid] = (fn, {"rule": rule, "level": level, "assumptions": list(assumptions), "expect": expect})
        return fn
    return d


def main(argv):
    pid = argv[1]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import checks  # noqa: registers
    if pid not in CHECKS:
        print("unknown property", pid)
        return 2
    fn, meta = CHECKS[pid]
    R = Report(pid, tier)
    R.expect = meta["expect"]
    try:
        fn(R)
    except Broken as ex:
        print("ANALYSIS-BROKEN: %s: %s" % (pid, ex))
        return 2
    return R.finish(meta, seed)

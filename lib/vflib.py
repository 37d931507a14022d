"""Build and run machinery shared by the checks."""
import concurrent.futures as cf
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = os.path.join(VERIF, "engine")
REPO = os.environ.get("VF_REPO", "/repo")
JOBS = int(os.environ.get("VF_JOBS", "8"))

sys.path.insert(0, os.path.join(VERIF, "lib"))
import grammar as gr


class HarnessError(Exception):
    pass


class Violation:
    def __init__(self, key, detail, data=None):
        self.key, self.detail, self.data = key, detail, data or {}


GXX = ["g++", "-std=c++20"]
CLANG = ["clang++", "-std=c++20"]
BASE_FLAGS = ["-w", "-D_GLIBCXX_ASSERTIONS"]


class Work:
    """scratch directory, removed at the end"""
    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % tag)

    def __enter__(self): return self

    def __exit__(self, *a):
        if os.environ.get("VF_KEEP"): print("kept", self.dir)
        else: shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p): return os.path.join(self.dir, *p)


def sh(cmd, timeout=600, env=None, cwd=None, stdin=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd, input=stdin, errors="replace", text=True)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", "", (e.stderr or b"").decode(errors="replace") if isinstance(e.stderr, bytes) else (e.stderr or "")


class CompileFailure(Exception):
    def __init__(self, src, log):
        self.src, self.log = src, log


def toolchain_trouble(rc, log):
    return rc == "timeout" or (isinstance(rc, int) and rc < 0) or "internal compiler error" in log or "Killed" in log or "No space left" in log or "virtual memory exhausted" in log or "cannot allocate memory" in log.lower()


def include_flags(): return ["-I" + os.path.join(REPO, "include"), "-I" + ENGINE, "-I" + os.path.join(REPO, "examples")]


class Builder:
    def __init__(self, work, compiler=GXX, flags=("-O0",), tag=""):
        self.w, self.cc, self.flags, self.tag = work, list(compiler), list(flags), tag
        self.pch = None

    def cmd(self, *a): return self.cc + BASE_FLAGS + self.flags + include_flags() + list(a)

    def compile_one(self, src, obj, extra=(), timeout=420):
        for attempt in range(2):
            rc, o, e = sh(self.cmd(*extra, "-c", src, "-o", obj), timeout=timeout)
            if rc == 0: return None
            if not toolchain_trouble(rc, e): return CompileFailure(src, e)
        raise HarnessError("compiler trouble on %s: %s %s" % (src, rc, e[-2000:]))

    def make_pch(self):
        d = self.w.path("pch" + self.tag)
        os.makedirs(d, exist_ok=True)
        h = os.path.join(d, "pch.hpp")
        shutil.copy(os.path.join(ENGINE, "pch.hpp"), h)
        out = h + (".gch" if "g++" == self.cc[0] else ".pch")
        x = ["-x", "c++-header", h, "-o", out]
        rc, o, e = sh(self.cmd(*x), timeout=300)
        if rc != 0:
            if toolchain_trouble(rc, e): raise HarnessError("pch: " + e[-2000:])
            return CompileFailure(h, e)
        self.pch = ["-include", h] if "g++" == self.cc[0] else ["-include-pch", out]
        return None

    def compile_many(self, items, extra=()):
        """items: [(src, obj, use_pch)] -> list of failures"""
        fails = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(self.compile_one, s, o, tuple(extra) + (tuple(self.pch) if p and self.pch else ())) for s, o, p in items]
            for f in fs:
                r = f.result()
                if r: fails.append(r)
        return fails

    def link(self, objs, exe, extra=()):
        rc, o, e = sh(self.cc + self.flags + list(objs) + ["-o", exe] + list(extra), timeout=300)
        if rc != 0: raise HarnessError("link: " + e[-3000:])


# ---------------------------------------------------------------- grammar translation units
class GCase:
    def __init__(self, cid, g, G="char", V=None, alpha=None, mapped=None):
        self.id, self.g, self.G, self.V = cid, g, G, V or G
        self.alpha = alpha if alpha is not None else gr.alphabet(g, extra=[122 if mapped is None else mapped(122)], limit=5)
        self.fail = None


_n = [0]


def cpp_quote(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def emit_case(c, k, out):
    rules = gr.collect_rules(c.g)
    for j, r in enumerate(rules): r.id = "%d_%d" % (k, j)
    ct = "" if c.G == "char" else ", " + c.G
    for r in rules:
        if r.declared:
            out.append("struct R%s : custom_parser<R%s%s> { using result_type = vf::Rec; static consteval auto get_parser(); };" % (r.id, r.id, ct))
    for r in rules:
        if not r.declared:
            out.append("struct R%s : custom_parser<R%s%s> { static consteval auto get_parser() { return %s; } };" % (r.id, r.id, ct, gr.cpp(r.body, c.G)))
    for r in rules:
        if r.declared:
            out.append("consteval auto R%s::get_parser() { return %s; }" % (r.id, gr.cpp(r.body, c.G)))
    e = gr.cpp(c.g, c.G)
    doc = e + "".join("; R%s = %s" % (r.id, gr.cpp(r.body, c.G)) for r in rules)
    out.append("using P%d = std::remove_const_t<decltype(%s)>;" % (k, e))
    out.append("static vf::Reg r%d({ %s, %s, %s, &vf::run<P%d, %s, false>, &vf::run<P%d, %s, true>, &vf::codec_for<%s, %s>::value });" % (
        k, cpp_quote(c.id), cpp_quote(gr.spec(c.g, c.alpha)), cpp_quote(doc), k, c.V, k, c.V, c.G, c.V))


def emit_cx(c, k, out):
    """the run-time entry points and, for each chosen input, one evaluation made by the compiler"""
    emit_case(c, k, out)
    for j, codes in enumerate(c.inputs):
        out.append("static constexpr vf::i64 c%d_%d[] = { %s };" % (k, j, ", ".join(str(x) + "ll" for x in codes + [0])))
        out.append("static vf::CxReg x%d_%d({ %s, c%d_%d, %d, vf::cx_eval<P%d, %s, %d>(c%d_%d) });" % (k, j, cpp_quote(c.id), k, j, len(codes), k, c.V, len(codes), k, j))


_lock = threading.RLock()


def locked(f):
    def g(*a, **k):
        with _lock: return f(*a, **k)
    return g


def together(*fs):
    """run parts of a check side by side: the end of one, when it keeps few cores busy, is the beginning of another"""
    with cf.ThreadPoolExecutor(len(fs)) as ex:
        rs = [ex.submit(f) for f in fs]
        return [r.result() for r in rs]


@locked
def write_units(cases, work, per=14, tag="u", emit=emit_case, prologue='#include "pch.hpp"\n'):
    """spread the grammars over units so that the heavy ones do not pile up in one"""
    nu = max(1, (len(cases) + per - 1) // per)
    units = [[] for _ in range(nu)]
    load = [0] * nu
    for c in sorted(cases, key=lambda c: -gr.size(c.g)):
        i = min(range(nu), key=lambda i: load[i])
        units[i].append(c)
        load[i] += 6 + gr.size(c.g)
    files = []
    for u, cs in enumerate(units):
        out = [prologue]
        for c in cs:
            _n[0] += 1
            emit(c, _n[0], out)
        p = work.path("%s%d.cpp" % (tag, u))
        open(p, "w").write("\n".join(out) + "\n")
        files.append((p, cs))
    return files


class Engine:
    """compile grammars together with the driver, run it sharded, collect verdicts"""
    def __init__(self, work, compiler=GXX, flags=("-O0",), driver_flags=("-O1",), tag="", link=()):
        self.w, self.tag = work, tag
        self.b = Builder(work, compiler, flags, tag)
        self.db = Builder(work, compiler, list(driver_flags), tag + "d")
        self.linkflags = list(link)
        self.viol = []
        self.stats = {}
        self.cases = []

    def choose_inputs(self, cases, k, seed, **opts):
        """k diverse inputs for each grammar, chosen with the reference interpreter"""
        drv, exe = self.w.path("chooser%s.o" % self.tag), self.w.path("chooser%s" % self.tag)
        f = self.db.compile_one(os.path.join(ENGINE, "driver.cpp"), drv)
        if f: raise HarnessError("driver does not compile: " + f.log[-3000:])
        self.db.link([drv], exe, self.linkflags)
        def one(i):
            sp, out = self.w.path("specs%s.%d" % (self.tag, i)), self.w.path("inputs%s.%d" % (self.tag, i))
            open(sp, "w").write("".join("%s\t%s\n" % (c.id, gr.spec(c.g, c.alpha)) for c in cases[i::JOBS]))
            rc, o, e = sh([exe, "--specs", sp, "--dump", str(k), "--seed", str(seed), "--out", out] + [x for a, b in opts.items() for x in ("--" + a, str(b))])
            if rc != 0: raise HarnessError("choosing inputs: %s %s" % (rc, e[-1000:]))
            return open(out).read().splitlines()
        by = {c.id: c for c in cases}
        for c in cases: c.inputs = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for ls in ex.map(one, range(JOBS)):
                for l in ls:
                    cid, codes = l.split("\t")
                    by[cid].inputs.append([int(x) for x in codes.split()])

    def build(self, cases, per=14, emit=emit_case):
        self.cases = cases
        drv = self.w.path("driver%s.o" % self.tag)
        with cf.ThreadPoolExecutor(2) as ex:
            fd = ex.submit(self.db.compile_one, os.path.join(ENGINE, "driver.cpp"), drv)
            fp = ex.submit(self.b.make_pch)
            pchfail, drvfail = fp.result(), fd.result()
        if drvfail: raise HarnessError("driver does not compile: " + drvfail.log[-3000:])
        if pchfail:
            self.viol.append(Violation("headers-do-not-compile", "including the library fails to compile", {"log": pchfail.log[-3000:]}))
            return False
        units = write_units(cases, self.w, per, "u" + self.tag, emit)
        objs = [(p, p[:-4] + ".o", True) for p, _ in units]
        fails = self.b.compile_many(objs)
        good = [drv]
        failed = {f.src: f for f in fails}
        retry = []
        for (p, cs), (_, o, _) in zip(units, objs):
            if p in failed: retry += cs
            else: good.append(o)
        if retry:
            ctl = self.b.compile_one(os.path.join(ENGINE, "control.cpp"), self.w.path("ctl%s.o" % self.tag), tuple(self.b.pch))
            if ctl:
                self.viol.append(Violation("library-unusable", "the simplest use of the library fails to compile", {"log": ctl.log[-3000:]}))
                return False
            # narrow down: each grammar of a failed unit on its own (bounded)
            units = write_units(retry[:60], self.w, 1, "v" + self.tag, emit)
            objs = [(p, p[:-4] + ".o", True) for p, _ in units]
            fails = {f.src: f for f in self.b.compile_many(objs)}
            for (p, cs), (_, o, _) in zip(units, objs):
                if p in fails:
                    c = cs[0]
                    self.viol.append(Violation("compile:%s:%s" % (c.id, c.V), "a valid grammar is rejected by the compiler: " + gr.cpp(c.g, c.G), {"log": errlog(fails[p].log), "case": c.id}))
                else: good.append(o)
        self.exe = self.w.path("driver%s" % self.tag)
        self.b.link(good, self.exe, self.linkflags)
        return True

    def run(self, cats, seed, shards=3 * JOBS, timeout=600, env=None, prefix=(), **opts):
        args = ["--cats", ",".join(cats), "--seed", str(seed)]
        for k, v in opts.items(): args += ["--" + k, str(v)]
        e = dict(os.environ)
        e.update(env or {})

        def one(i, extra=(), tmo=timeout):
            out, stf = self.w.path("out%s.%d" % (self.tag, i)), self.w.path("st%s.%d" % (self.tag, i))
            for f in (out, stf):
                if os.path.exists(f): os.unlink(f)
            rc, so, se = sh(list(prefix) + [self.exe] + args + ["--shard", str(i), "--shards", str(shards), "--out", out, "--status", stf] + list(extra), timeout=tmo, env=e)
            return rc, so, se, out, stf

        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, range(shards)))
        for i, (rc, so, se, out, stf) in enumerate(res):
            lines = open(out, errors="replace").read().splitlines() if os.path.exists(out) else []
            for l in lines:
                f = l.split("\t")
                if f[0] == "V" and len(f) >= 5:
                    c = self.case(f[2])
                    self.viol.append(Violation("%s:%s:%s" % (f[1], f[2], c.V if c else "?"), f[4], {"case": f[2], "input": f[3], "grammar": self.doc(c), "V": c.V if c else ""}))
                elif f[0] == "S":
                    merge(self.stats, json.loads(f[1]))
            if rc == 0: continue
            if rc == 3: raise HarnessError("driver: " + se[-2000:])
            cid, inp, look = read_status(stf)
            if cid is not None and opts.get("threads") and ("ThreadSanitizer" in se or rc in (-4, -6, -7, -8, -11)):
                # a race or a crash under concurrency need not come back when asked to
                self.viol.append(Violation("race", "%d threads parsing side by side: %s" % (opts["threads"], summarise(se)), {"stderr": se[-8000:]}))
                continue
            if cid is None: raise HarnessError("driver ended with %s before its first case: %s" % (rc, se[-2000:]))
            # a crash, hang or sanitizer report inside the library: confirm it on that case alone
            r2, so2, se2, out2, _ = one(900 + i, ("--only", cid, "--input", inp) if inp.strip() else ("--only", cid, "--input", " "), 300)
            what = {97: "no progress for 30 s on one small input", 98: "runaway allocation", "timeout": "time limit"}.get(rc, "abnormal end (%s)" % rc)
            if r2 == 0:
                r2, so2, se2, out2, _ = one(950 + i, ("--only", cid), 300)
            if r2 == 0:
                if rc == "timeout": raise HarnessError("driver timed out; not reproducible on %s" % cid)
                r3, so2, se2, out2, stf3 = one(i)
                if r3 == 0: raise HarnessError("unreproducible abnormal end %s: %s" % (rc, se[-1500:]))
                se = se2
            c = self.case(cid)
            self.viol.append(Violation("crash:%s:%s" % (cid, c.V if c else "?"), "%s in %s: %s" % (what, "lookahead" if look == 1 else "parse", summarise(se2 or se)), {"case": cid, "input": inp, "grammar": self.doc(c), "V": c.V if c else "", "stderr": (se2 or se)[-6000:]}))
        return self

    def case(self, cid):
        for c in self.cases:
            if c.id == cid: return c

    def doc(self, c):
        return None if c is None else gr.cpp(c.g, c.G) + "".join("; R%s = %s" % (r.id, gr.cpp(r.body, c.G)) for r in gr.collect_rules(c.g))


def errlog(log):
    """the part of a compiler log that says what is wrong"""
    i = log.find("error:")
    ls = [l for l in log.splitlines() if "error:" in l]
    return "\n".join(l[:1500] for l in ls[:6]) + "\n----\n" + log[max(0, i - 1500):i + 4000]


def summarise(se):
    for l in se.splitlines():
        if "runtime error" in l or "ERROR: AddressSanitizer" in l or "Assertion" in l or "SUMMARY" in l or "WARNING: ThreadSanitizer" in l or "terminate called" in l or l.startswith("VF:"): return l.strip()[:400]
    return se.strip()[-300:]


def read_status(p):
    import struct
    try: d = open(p, "rb").read()
    except OSError: return None, "", 0
    if len(d) < 152: return None, "", 0
    tick, look = struct.unpack_from("qi", d, 0)
    cid = d[12:12 + 128].split(b"\0")[0].decode()
    n, = struct.unpack_from("q", d, 144)
    if not cid: return None, "", 0
    codes = struct.unpack_from("%dq" % min(n, 4096), d, 152)
    return cid, " ".join(map(str, codes)), look


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict): merge(a.setdefault(k, {}), v)
        elif isinstance(v, list): a.setdefault(k, []).extend(v)
        elif k in ("max_depth", "max_len", "max_stack"): a[k] = max(a.get(k, 0), v)
        elif isinstance(v, (int, float)): a[k] = a.get(k, 0) + v
    return a


# ---------------------------------------------------------------- hand-written programs
HAND = os.path.join(VERIF, "hand")
SAN = ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DVF_NO_ALLOC_HOOK", "-DVF_SAN"]
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:abort_on_error=0:exitcode=77:detect_invalid_pointer_pairs=0", "UBSAN_OPTIONS": "print_stacktrace=1"}


class Prog:
    def __init__(self, name, src, defs=(), compiler=GXX, flags=("-O0",), link=(), env=None, prefix=(), seeds=1, extra=()):
        self.name, self.src, self.defs, self.cc, self.flags, self.link, self.env, self.prefix, self.seeds, self.extra = name, src, list(defs), compiler, list(flags), list(link), env, list(prefix), seeds, list(extra)

    def san(self, compiler=GXX):
        return Prog(self.name + "-san-" + compiler[0], self.src, self.defs, compiler, ["-O0"] + SAN, ["-fsanitize=address,undefined"], SAN_ENV, [], 1, self.extra)


def programs(check, work, progs, rule, scale=1, timeout=700, kinds=None):
    """compile and run hand-written programs; collect their verdict lines"""
    stats = {"evals": 0, "distinct_nontrivial": 0}
    bs = {}
    exes = [None] * len(progs)

    def make(i):
        p = progs[i]
        b = Builder(work, p.cc, p.flags, p.name)
        exe = work.path("hand-%d-%s" % (i, p.name))
        f = b.compile_one(os.path.join(HAND, p.src), exe + ".o", tuple(p.defs) + ("-I" + HAND,), timeout=700)
        if f: return f
        b.link([exe + ".o"], exe, p.link)
        exes[i] = exe
        return None

    with cf.ThreadPoolExecutor(JOBS) as ex: fails = list(ex.map(make, range(len(progs))))
    if any(fails):
        cb = Builder(work, GXX, ["-O0"], "ctl")
        ctl = cb.compile_one(os.path.join(ENGINE, "control.cpp"), work.path("ctl.o"), ("-include", os.path.join(ENGINE, "pch.hpp")))
        if ctl: check.violate("library-unusable", "the simplest use of the library fails to compile", log=errlog(ctl.log))
        for p, f in zip(progs, fails):
            if f: check.violate("compile:" + p.name, "a valid use of the library is rejected by the compiler (%s)" % p.name, log=errlog(f.log))

    def go(x):
        i, s = x
        p = progs[i]
        e = dict(os.environ)
        e.update(p.env or {})
        return x, sh(p.prefix + [exes[i], str(s), str(scale)] + p.extra, timeout=timeout, env=e)

    jobs = [(i, check.seed * 100 + k) for i, p in enumerate(progs) if exes[i] for k in range(p.seeds)]
    with cf.ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(go, jobs))
    for (i, s), (rc, so, se) in res:
        p = progs[i]
        done = False
        for l in so.splitlines():
            f = l.split("\t")
            if f[0] == "V" and len(f) >= 3 and kinds and f[1].split(":")[0] not in kinds: continue
            if f[0] == "V" and len(f) >= 3: check.violate("%s:%s" % (f[1], re.sub(r"-(c|san-.*)$", "", p.name)), f[2], program=p.src, defs=p.defs, run="seed %d" % s, stderr=se[-2000:])
            elif f[0] == "S":
                done = True
                merge(stats, json.loads(f[1]))
        if rc == 0 and done: continue
        if rc == 70: continue       # the program reported its own death
        if rc == "timeout": check.violate("hang:" + p.name, "%s does not end" % p.name, program=p.src, defs=p.defs, run="seed %d" % s)
        elif rc in (-9,): raise HarnessError("%s was killed" % p.name)
        else: check.violate("abnormal:" + p.name, "%s ended with %s: %s" % (p.name, rc, summarise(se)), program=p.src, defs=p.defs, run="seed %d" % s, stderr=se[-6000:])
    c = check.cov
    c["evaluations"] = c.get("evaluations", 0) + stats["evals"]
    c["distinct_nontrivial"] = c.get("distinct_nontrivial", 0) + stats["distinct_nontrivial"]
    c["rule"] = " -- ".join(x for x in (c.get("rule"), rule) if x)
    c["samples"] = (c.get("samples", []) + stats.get("samples", []))[:14]
    merge(c.setdefault("observed", {}), {"programs": len([e for e in exes if e]), "by_kind": stats.get("seen", {})})


# ---------------------------------------------------------------- verdicts, evidence, known findings
def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l[len("finding:"):].split() if "=" in x and x.split("=", 1)[0] in ("property", "key"))
                out.append((f.get("property"), f.get("key"), l))
    return out


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.t0 = time.time()
        self.viol, self.cov, self.assumptions = [], {}, []

    @property
    def thorough(self): return self.tier == "thorough"

    def pick(self, quick, thorough): return thorough if self.thorough else quick

    def add(self, eng):
        self.viol += eng.viol

    def violate(self, key, detail, **data): self.viol.append(Violation(key, detail, data))

    def finish(self):
        if not self.cov.get("evaluations") and not self.viol: raise HarnessError("nothing was observed")
        kn = known()
        fresh = []
        seen = set()
        for v in self.viol:
            m = [k for k in kn if k[0] == self.pid and k[1] == v.key]
            if m:
                if v.key not in seen: print("KNOWN-FINDING: property=%s %s %s" % (self.pid, v.key, v.detail[:200].replace("\n", " ")))
                seen.add(v.key)
            else: fresh.append(v)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        if fresh:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(fresh[:8]):
                h = hashlib.sha1((v.key + v.detail).encode()).hexdigest()[:10]
                p = os.path.join(rd, "%s-%s.json" % (self.pid, h))
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "key": v.key, "detail": v.detail, **v.data, "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s" % (self.seed, self.tier, self.pid)}, open(p, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  %s: %s" % (v.key, v.detail[:500]))
                if v.data.get("grammar"): print("  grammar: %s" % v.data["grammar"][:400])
                if "input" in v.data: print("  input codes: [%s]" % v.data["input"][:300])
            if len(fresh) > 8: print("  ... %d violations in all" % len(fresh))
            return 1
        print("%s held: %s evaluations, %s distinct and non-trivial, %.1f s" % (self.pid, cov.get("evaluations"), cov.get("distinct_nontrivial"), time.time() - self.t0))
        return 0


@locked
def engine_cov(check, stats, rule, extra=None):
    c = check.cov
    c["evaluations"] = c.get("evaluations", 0) + stats.get("evals", 0)
    c["distinct_nontrivial"] = c.get("distinct_nontrivial", 0) + stats.get("distinct_nontrivial", 0)
    c["rule"] = rule if not c.get("rule") or c["rule"] in rule else c["rule"] if rule in c["rule"] else rule + " -- " + c["rule"]
    c["samples"] = (c.get("samples", []) + stats.get("samples", []))[:12]
    obs = {k: v for k, v in stats.items() if k not in ("evals", "distinct_nontrivial", "samples", "violations", "cases")}
    obs["grammars"] = stats.get("cases", 0)
    merge(c.setdefault("observed", {}), obs)
    if extra: c.update(extra)

"""One function per property: workload, instrumentation and verdict."""
import glob, json, os, random, shutil
import concurrent.futures as cf
import corpora as co
import catalog as cat
import grammar as gr
from grammar import *
from vflib import *

CHECKS = {}


def check(pid, level="exploration"):
    def deco(f):
        def run():
            c = Check(pid, level)
            f(c)
            return c.finish()
        CHECKS[pid] = run
        return f
    return deco


RULE = ("a case is one grammar run on one input (every string over the grammar's own symbols plus one foreign symbol, shortest first, then strings derived from the grammar, mutations of them and long repetitions); "
        "it is non-trivial when the reference interpreter got past the first element, and distinct when (grammar, input) differs")


def dedupe(cases):
    seen, out = set(), []
    for c in cases:
        if c.id in seen: continue
        seen.add(c.id); out.append(c)
    return out


def engine(c, work, cases, cats, tag="", compiler=GXX, flags=("-O0",), driver_flags=("-O1",), link=(), per=14, env=None, prefix=(), timeout=600, extra_stats=True, **opts):
    e = Engine(work, compiler, flags, driver_flags, tag, link)
    if e.build(dedupe(cases), per): e.run(cats, c.seed, env=env, prefix=prefix, timeout=timeout, **opts)
    c.add(e)
    engine_cov(c, e.stats, RULE)
    return e


IN = dict(exh=3000, samples=250, place=2)


def inputs(c, **kw):
    d = dict(IN)
    if c.thorough: d.update(exh=20000, samples=2500)
    d.update(kw)
    return d


def at_scale(c, w, cats, n=None, only=None, prof=None, **kw):
    """the combinators at sizes around the usual counter widths, on inputs of such lengths"""
    cases = [x for x in co.scale() if only is None or only(x.id)]
    if n and not c.thorough: cases = co.sample(cases, n, c.seed + 77)
    if prof: cases = co.profiled(cases, prof)
    d = dict(exh=150, samples=20, place=2, edges=2, longlen=2000, long=1)
    if c.thorough: d.update(exh=2000, samples=200, edges=3)
    d.update(kw)
    return engine(c, w, cases, cats, tag="s", per=6, **d)


@check("C01")
def c01(c):
    """acceptance and consumption against the reference interpreter"""
    cases = co.base() + co.singles() + co.pairs(c.pick(220, 9999), c.seed) + co.binaries(c.pick(120, 9999), c.seed) + co.rand(c.pick(260, 3000), c.seed) + co.rand(c.pick(50, 400), c.seed, "rr", rules=True)
    cases += [x for p in ("wchar", "int", "char_int", "user") for x in co.profiled(co.rand(c.pick(14, 120), c.seed, "rp" + p, callbacks=False), p)]
    with Work("C01") as w:
        together(lambda: engine(c, w, cases, ["acc"], longlen=2000, long=1, **inputs(c)),
                 lambda: at_scale(c, w, ["acc"], None),
                 # what an optimiser makes of it, without assertions, in the next standard
                 lambda: engine(c, w, co.sample(co.base(), c.pick(40, 400), c.seed + 6) + co.rand(c.pick(30, 300), c.seed + 60) + co.rand(c.pick(8, 60), c.seed + 60, "rr", rules=True), ["acc", "val"], tag="o", compiler=CLANG, flags=["-O2", "-DNDEBUG", "-std=c++23"], per=6, longlen=2000, long=1, **inputs(c, exh=1000)),
                 lambda: engine(c, w, co.sample(co.base(), c.pick(30, 300), c.seed + 8) + co.rand(c.pick(20, 300), c.seed + 61), ["acc", "val"], tag="p", flags=["-O3", "-DNDEBUG", "-std=c++23"], per=4, longlen=2000, long=1, **inputs(c, exh=1000)))


@check("C02")
def c02(c):
    cases = co.base() + co.binaries(c.pick(260, 9999), c.seed) + co.singles(c.pick(120, 9999), c.seed) + co.pairs(c.pick(160, 9999), c.seed + 5) + co.tokens(0) + co.rand(c.pick(220, 3000), c.seed + 1000) + co.rand(c.pick(40, 400), c.seed + 1000, "rr", rules=True)
    with Work("C02") as w:
        together(lambda: engine(c, w, cases, ["val"], longlen=1500, long=1, **inputs(c)),
                 lambda: at_scale(c, w, ["val"], 60),
                 lambda: programs(c, w, values(8), VALUES_RULE, scale=c.pick(1, 20), kinds=("value", "crash")))


VALUES_RULE = "in the hand-written part a case is one shape of grammar with one (or two) of 71 kinds of value types on one input"


def values(parts, **kw): return [Prog("values%d" % i, "values.cpp", ["-DPART=%d" % i, "-DPARTS=%d" % parts], **kw) for i in range(parts)]


@check("C03")
def c03(c):
    cases = co.base() + co.binaries(c.pick(150, 9999), c.seed + 7) + co.rand(c.pick(200, 3000), c.seed + 2000, callbacks=False) + co.rand(c.pick(120, 1000), c.seed + 2500) + co.join_cases(c.pick(60, 600), c.seed + 3)
    cases += [x for p in ("char32", "llong", "char_trk", "struct") for x in co.profiled(co.rand(c.pick(14, 120), c.seed, "rq" + p, callbacks=False), p)]
    with Work("C03") as w:
        together(lambda: engine(c, w, cases, ["atom"], longlen=2000, long=1, **inputs(c)),
                 lambda: at_scale(c, w, ["atom"], 50))


@check("C04")
def c04(c):
    cases = co.base() + co.singles(c.pick(120, 9999), c.seed + 2) + co.pairs(c.pick(200, 9999), c.seed + 9) + co.binaries(c.pick(120, 9999), c.seed + 4) + co.tokens(1) + co.join_cases(c.pick(60, 600), c.seed + 4) + co.rand(c.pick(240, 3000), c.seed + 3000) + co.rand(c.pick(50, 400), c.seed + 3000, "rr", rules=True)
    with Work("C04") as w:
        together(lambda: engine(c, w, cases, ["look"], longlen=1500, long=1, **inputs(c)),
                 lambda: at_scale(c, w, ["look"], 60))


@check("C06")
def c06(c):
    rng = random.Random(c.seed)
    cbs = [x for x in co.base() if has_cb(x.g)] + [x for x in co.pairs() + co.singles() + co.binaries() if has_cb(x.g)]
    base = cbs[:90] + co.sample(cbs[90:], c.pick(260, 9999), c.seed)
    cases = base + [x for x in co.rand(c.pick(420, 4000), c.seed + 4000) if has_cb(x.g)] + co.rand(c.pick(40, 400), c.seed + 4000, "rr", rules=True) + co.tokens(0)
    with Work("C06") as w:
        e = engine(c, w, cases, ["ev"], longlen=600, long=1, faults=2, **inputs(c, exh=c.pick(1200, 8000)))
        if e.viol: return
        ps = [Prog("callbacks", "callbacks.cpp", seeds=4), Prog("callbacks-c", "callbacks.cpp", compiler=CLANG), Prog("callbacks", "callbacks.cpp").san()]
        programs(c, w, ps, "in the hand-written part a case is one form of function (pointer, member, generic, overloaded, nullary, void, ...) on one input", scale=c.pick(2, 40))


def has_cb(n):
    return n.k in ("map", "filter") or any(has_cb(x) for x in n.kids) or (n.k == "rule" and any(r is n.a["r"] and has_cb_body(r) for r in [n.a["r"]]))


_cb_seen = set()


def has_cb_body(r):
    if r in _cb_seen: return False
    _cb_seen.add(r)
    v = has_cb(r.body)
    _cb_seen.discard(r)
    return v


@check("C07", "fault_enumeration")
def c07(c):
    toks = co.tokens(0, 1, 2, 3, 4)
    for tk in (0, 1, 3, 4): toks += co.rand(c.pick(50, 500), c.seed + tk * 50, "rt%d" % tk, tk=tk, minsize=6)
    more = [x for x in co.base() if x.id.startswith(("map_", "rec_", "delim", "cho_", "rep_", "exa_"))] + co.rand(c.pick(60, 500), c.seed + 5000)
    with Work("C07") as w:
        together(lambda: engine(c, w, toks + more, ["own"], faults=c.pick(40, 400), longlen=120, long=1, maxlen=120, **inputs(c, exh=c.pick(700, 6000), samples=c.pick(150, 1200))),
                 # awkward kinds of values, under sanitizers
                 lambda: programs(c, w, [p.san(CLANG) for p in values(8)], VALUES_RULE, scale=c.pick(1, 10), kinds=("life", "copy", "crash")))


@check("C08")
def c08(c):
    cases = [x for x in co.base() if "join" in x.id]
    cases += [x for x in co.singles() + co.pairs() if "join" in x.id] + co.join_cases(c.pick(430, 4000), c.seed)
    cases += [x for p in ("wchar", "int", "char_int", "struct") for x in co.profiled(co.join_cases(c.pick(16, 150), c.seed + 70), p)]
    with Work("C08") as w:
        together(lambda: engine(c, w, cases, ["acc", "val", "look"], longlen=2000, long=1, **inputs(c)),
                 lambda: at_scale(c, w, ["acc", "val", "look"], only=lambda i: "join" in i))


@check("C09")
def c09(c):
    cases = co.law_cases(c.pick(25, 400), c.seed)
    keep = {}
    for x in cases: keep.setdefault(x.id[:-2], []).append(x)
    groups = list(keep.values())
    if not c.thorough: groups = [g for g in groups if g[0].id.startswith("bra_")] + co.sample([g for g in groups if not g[0].id.startswith("bra_")], 640, c.seed)
    with Work("C09") as w: engine(c, w, [x for g in groups for x in g], ["law"], longlen=500, long=1, **inputs(c, exh=c.pick(1500, 10000)))


@check("C10")
def c10(c):
    cases = co.modifier_cases(c.seed, c.pick(70, 700), c.pick(110, 1200))
    with Work("C10") as w: engine(c, w, cases, ["all"], longlen=400, long=1, **inputs(c, exh=c.pick(1500, 10000)))


@check("C13")
def c13(c):
    pool = [x for x in co.base() if size(x.g) < 26]
    cases = []
    for i, (p, prof) in enumerate(sorted(co.PROFILES.items())):
        cases += co.profiled(co.sample(pool, c.pick(14, 90), (p, c.seed)) + co.rand(c.pick(12, 120), c.seed, "r" + p, callbacks=i % 2 == 0), p)
    cases += co.sample(co.basic_cases(c.seed + 3, c.pick(30, 120)), c.pick(320, 2400), ("basic", c.seed))
    with Work("C13") as w: engine(c, w, cases, ["all"], longlen=800, long=1, **inputs(c, exh=c.pick(2500, 16000)))


@check("C15")
def c15(c):
    cases = [GCase(n, g) for n, g in cat.recursive()] + co.rand(c.pick(230, 3000), c.seed, "rr", rules=True) + [x for x in co.base() if x.id.startswith("rule_")]
    cases += [x for p in ("int", "wchar", "char_int", "user") for x in co.profiled(co.rand(c.pick(14, 100), c.seed, "rr" + p, rules=True, callbacks=False), p)]
    with Work("C15") as w:
        e = engine(c, w, cases, ["all"], longlen=400, long=1, deep=c.pick(2100, 16400), **inputs(c))
        if e.viol: return
        # recursion has to survive both compilers' instantiation orders
        cl = [GCase(n, g) for n, g in cat.recursive()] + co.rand(c.pick(40, 500), c.seed + 300, "rr", rules=True) + [x for x in co.base() if x.id.startswith("rule_")]
        engine(c, w, cl, ["all"], tag="c", compiler=CLANG, longlen=200, long=1, **inputs(c, exh=c.pick(1000, 8000), samples=c.pick(80, 600)))


@check("C16")
def c16(c):
    cases = co.base() + co.singles() + co.pairs(c.pick(230, 9999), c.seed + 20) + co.binaries(c.pick(120, 9999), c.seed) + co.join_cases(c.pick(60, 600), c.seed + 9) + co.rand(c.pick(200, 2500), c.seed + 6000) + co.rand(c.pick(40, 300), c.seed + 6000, "rr", rules=True)
    with Work("C16") as w:
        together(lambda: engine(c, w, cases, ["alloc"], longlen=1000, long=1, **inputs(c, exh=c.pick(1500, 8000))),
                 lambda: at_scale(c, w, ["alloc"]))


@check("C19")
def c19(c):
    cases = co.profiled(co.base() + co.pairs(c.pick(160, 9999), c.seed + 30) + co.rand(c.pick(200, 2500), c.seed + 7000) + co.rand(c.pick(40, 300), c.seed + 7000, "rr", rules=True) + co.join_cases(c.pick(50, 400), c.seed + 11), "char_trk")
    with Work("C19") as w:
        together(lambda: engine(c, w, cases, ["work", "stack"], longlen=c.pick(20000, 60000), long=1, stack=65536, **inputs(c, exh=c.pick(1200, 8000))),
                 lambda: at_scale(c, w, ["work"], 50, prof="char_trk"))


@check("C14")
def c14(c):
    cases = co.basic_cases(c.seed, c.pick(36, 200))
    with Work("C14") as w:
        together(lambda: engine(c, w, cases, ["all", "mem"], longlen=2000, long=1, per=24, **inputs(c, exh=c.pick(2500, 20000), samples=c.pick(200, 1500))),
                 lambda: at_scale(c, w, ["all", "mem"], only=lambda i: "_lit" in i or "_set" in i or "_any" in i or "_none" in i))
    c.cov["exhaustive"] = False


@check("C05")
def c05(c):
    """memory and undefined behaviour, three ways: gcc and clang ASan+UBSan, and memcheck for uninitialised reads"""
    base = co.base()
    with Work("C05") as w:
        a = base + co.tokens(0, 2) + co.rand(c.pick(50, 600), c.seed + 8000) + co.join_cases(c.pick(40, 300), c.seed + 21)
        e = engine(c, w, a, ["mem", "atom"], tag="g", flags=["-O0"] + SAN, driver_flags=["-O1"] + SAN, link=["-fsanitize=address,undefined"], env=SAN_ENV, longlen=3000, long=1, **inputs(c, exh=c.pick(700, 5000), samples=c.pick(120, 1000), place=0))
        if e.viol: return
        b = co.sample(base, c.pick(60, 999), c.seed + 3) + [x for p in ("char_wchar", "struct", "llong", "char_trk") for x in co.profiled(co.rand(c.pick(6, 60), c.seed, "rs" + p), p)] + co.rand(c.pick(20, 300), c.seed + 8500, "rr", rules=True) + co.tokens(1)
        e = engine(c, w, b, ["mem", "atom"], tag="c", compiler=CLANG, flags=["-O1"] + SAN, driver_flags=["-O1"] + SAN, link=["-fsanitize=address,undefined"], env=SAN_ENV, longlen=3000, long=1, **inputs(c, exh=c.pick(700, 5000), samples=c.pick(120, 1000), place=0))
        if e.viol: return
        v = co.sample(base, c.pick(40, 200), c.seed + 4) + co.tokens(0)[:20] + co.sample(co.rand(60, c.seed + 8800), c.pick(16, 60), c.seed)
        e = engine(c, w, v, ["mem", "atom"], tag="v", flags=["-O1", "-g1"], driver_flags=["-O1", "-g1", "-DVF_NO_ALLOC_HOOK"], prefix=["valgrind", "-q", "--error-exitcode=77", "--leak-check=full", "--errors-for-leak-kinds=definite", "--track-origins=no"], longlen=60, long=1, maxlen=60, **inputs(c, exh=c.pick(60, 400), samples=c.pick(15, 100), place=0))


CX_GCC = ["-fconstexpr-ops-limit=4000000000", "-fconstexpr-loop-limit=10000000", "-fconstexpr-depth=8192", "-fconstexpr-cache-depth=8"]
CX_CLANG = ["-fconstexpr-steps=1000000000", "-fconstexpr-depth=8192", "-fbracket-depth=2048"]


def no_tok(c): return not any(x.k == "map" and x.a["kind"] in "tp" for x in walk(c.g))


def walk(n, seen=None):
    seen = set() if seen is None else seen
    yield n
    for x in n.kids: yield from walk(x, seen)
    if n.k == "rule" and n.a["r"] not in seen:
        seen.add(n.a["r"])
        yield from walk(n.a["r"].body, seen)


def cx_gcc(g):
    """gcc 13 miscounts deallocations when it moves a std::array of containers in a constant expression
    (constexpr bool k(){ std::array<std::vector<int>,1> h; h[0] = {1}; auto b = std::move(h); return b[0].size() == 1; } is rejected)"""
    return not any(n.k == "exa" and any(x.k in ("star", "plus", "delim", "delimk", "rule", "map") for x in walk(n)) for n in walk(g))


def cx_clang(g):
    """in constant expressions clang can evaluate neither libstdc++'s std::variant of non-trivial alternatives nor copies of its
    std::optional after a reset (constexpr bool f(){ std::optional<std::span<const char>> o; o = std::span<const char>{}; o = std::nullopt; auto p = o; return !p; })"""
    return not any(n.k in ("or", "oreps", "join") for n in walk(g))


def positional(cases):
    """callbacks see positions during constant evaluation: elements that carry their own"""
    return [GCase(x.id + ".px", x.g, "char", "vf::Px", x.alpha) for x in cases]


@check("C11")
def c11(c):
    base = [x for x in co.base() if no_tok(x)]
    def pool(seed, k):
        cb = positional(co.sample([x for x in base if has_cb(x.g)], k, seed) + [x for x in co.rand(k, seed + 9000) if has_cb(x.g)] + [x for x in co.recursive_cases()] + co.rand(k // 4, seed + 9000, "rr", rules=True))
        plain = co.sample([x for x in base if not has_cb(x.g) and not collect_rules(x.g)], k, seed + 1) + co.rand(k, seed + 9100, callbacks=False) + co.join_plain(k // 2, seed + 31)
        typed = [y for p in ("wchar", "char32", "uchar", "int", "llong", "struct", "enum8", "char_int", "user") for y in co.profiled(co.rand(max(3, k // 14), seed, "rx" + p, callbacks=False), p)]
        return dedupe([x for x in cb + plain + typed if len(x.g.key().__repr__()) < 20000])
    # the same where counts, literals and sets are large
    big = [x for x in co.scale() if x.id.startswith(("sc_set_", "sc_any_", "sc_none_", "sc_lit_", "sc_exa_12", "sc_exa_join", "sc_exa_ign", "sc_plus_join", "sc_star_join", "sc_star_ign", "sc_plus_ign", "sc_delim_lit", "sc_anything", "sc_flt_plus"))]
    with Work("C11") as w:
        def go(tag, comp, fl, cases, m, per, **opts):
            cases = [x for x in cases if (cx_clang if comp is CLANG else cx_gcc)(x.g)]
            e = Engine(w, comp, ["-O0"] + fl, ["-O1"], tag)
            e.choose_inputs(cases, m, c.seed, **opts)
            if e.build(cases, per, emit_cx): e.run(["cx"], c.seed, cx=1)
            c.add(e)
            engine_cov(c, e.stats, "a case is one grammar evaluated on one input by the compiler (%s), compared with the same evaluation at run time and with the reference; inputs are picked so that each takes another way through the grammar; non-trivial when the reference got past the first element" % "gcc and clang")
        small, large = dict(exh=400, samples=60, maxlen=24), dict(exh=10, samples=30, maxlen=310, edges=1)
        together(lambda: go("g", GXX, CX_GCC, pool(c.seed, c.pick(60, 400)), c.pick(9, 20), 8, **small),
                 lambda: go("c", CLANG, CX_CLANG, pool(c.seed + 17, c.pick(30, 200)), c.pick(8, 20), 8, **small),
                 lambda: go("gs", GXX, CX_GCC, co.sample(big, c.pick(24, 99), c.seed + 1), c.pick(4, 12), 3, **large),
                 lambda: go("cs", CLANG, CX_CLANG, co.sample(big, c.pick(12, 99), c.seed + 2), c.pick(4, 12), 3, **large))


TSAN = ["-g1", "-fsanitize=thread", "-DVF_NO_ALLOC_HOOK", "-pthread"]


@check("C12")
def c12(c):
    """the same parse gives the same observation whatever ran before it or runs beside it"""
    def pool(seed, k, rr):
        return co.sample(co.base(), 2 * k, seed) + co.sample(co.tokens(0, 1, 2), k // 2, seed) + co.rand(k, seed + 9500) + co.rand(rr, seed + 9500, "rr", rules=True) + co.join_cases(k // 3, seed + 41) + \
            [x for p in ("wchar", "char_int", "user", "struct") for x in co.profiled(co.rand(max(2, k // 12), seed, "rz" + p), p)]
    with Work("C12") as w:
        e = engine(c, w, pool(c.seed, c.pick(110, 900), c.pick(40, 300)), ["det"], tag="p", flags=["-O1", "-pthread"], driver_flags=["-O1", "-pthread", "-DVF_NO_ALLOC_HOOK"], link=["-pthread"], shards=2, threads=8, repeat=c.pick(4, 12), longlen=400, long=1, aborts=c.pick(90000, 600000), **inputs(c, exh=c.pick(200, 1000), samples=c.pick(60, 300), place=0))
        if e.viol: return
        e = engine(c, w, pool(c.seed + 51, c.pick(50, 400), c.pick(20, 150)), ["det"], tag="t", compiler=CLANG, flags=["-O1"] + TSAN, driver_flags=["-O1"] + TSAN, link=["-fsanitize=thread", "-pthread"], env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1"}, shards=2, threads=8, repeat=c.pick(2, 6), longlen=200, long=1, aborts=c.pick(2000, 20000), **inputs(c, exh=c.pick(60, 400), samples=c.pick(30, 150), place=0))


@check("C18")
def c18(c):
    with Work("C18") as w:
        ps = [Prog("inputs%d_%d" % (v, q), "inputs.cpp", ["-DVARIANT=%d" % v, "-DPART=%d" % q, "-DPARTS=4"]) for v in range(5) for q in range(4)]
        if not c.thorough:
            # one quarter of the parsers for the less usual element types, rotating with the seed
            ps = [p for p in ps if p.name.startswith("inputs0") or int(p.name[-1]) == (c.seed + int(p.name[6])) % 4]
        ps.append(Prog("inputs0_%d" % (c.seed % 4), "inputs.cpp", ["-DVARIANT=0", "-DPART=%d" % (c.seed % 4), "-DPARTS=4"]).san())
        programs(c, w, ps, "a case is one parser on one content, handed over in every form the interface takes (containers, views, literals, pointers, arrays, user ranges, sub-ranges, results of other parses) and compared with a std::span over the same elements; non-trivial when the content is not empty", scale=c.pick(1, 12))


@check("C17")
def c17(c):
    with Work("C17") as w:
        p = Prog("results", "results.cpp", seeds=c.pick(4, 16))
        q = Prog("results-c", "results.cpp", compiler=CLANG, seeds=2)
        programs(c, w, [p, q, p.san(), p.san(CLANG)], "a case is one step of a random history of constructions, copies, moves, assignments, conversions and accesses on a pool of results, compared with a model of what each holds; non-trivial when a value is involved", scale=c.pick(4, 60))


@check("C20")
def c20(c):
    with Work("C20") as w:
        ps = []
        for d in ("ALGEBRA", "JSON"):
            p = Prog(d.lower(), "examples.cpp", ["-D" + d], flags=["-O1"], seeds=c.pick(2, 8))
            ps += [p, p.san()]
            # clang with this libstdc++ rejects the json example's own recursive std::variant, with or without tok3n
            if d == "ALGEBRA": ps += [Prog(d.lower() + "-c", "examples.cpp", ["-D" + d], compiler=CLANG), p.san(CLANG)]
        programs(c, w, ps, "a case is one text (all short texts over the symbols that matter, derived documents, their mutations and truncations, deep and long ones) given to one entry point of the bundled JSON and algebra examples, compared with an independent recursive descent; non-trivial when something was consumed or the text has more than one symbol", scale=c.pick(2, 12))

"""Sets of test cases shared by the checks."""
import random, zlib
import grammar as gr
from grammar import *
import catalog as cat
from vflib import GCase


def h(s): return zlib.crc32(str(s).encode())


def sample(xs, n, seed):
    xs = list(xs)
    if n >= len(xs): return xs
    return random.Random(h(seed)).sample(xs, n)


def base():
    return [GCase(n, g) for n, g in cat.core() + cat.recursive()]


def scale(): return [GCase(n, g) for n, g in cat.scale()]
def singles(n=10**9, seed=0): return [GCase(i, g) for i, g in sample(cat.singles(), n, ("s", seed))]
def pairs(n=10**9, seed=0): return [GCase(i, g) for i, g in sample(cat.pairs(), n, ("p", seed))]
def binaries(n=10**9, seed=0): return [GCase(i, g) for i, g in sample(cat.binaries(), n, ("b", seed))]


def tokens(*tks): return [GCase(n, g) for tk in tks for n, g in cat.tokens(tk)]


def rand(n, seed, tag="r", restyled=True, **kw):
    out = []
    for i in range(n):
        s = h((tag, seed, i))
        g = cat.random_grammar(s, depth=kw.get("depth", 3 + i % 3), **{k: v for k, v in kw.items() if k != "depth"})
        if restyled: gr.restyle(g, random.Random(s))
        out.append(GCase("%s%d_%d" % (tag, seed, i), g))
    return out


# ---------------------------------------------------------------- element types
# name: (grammar symbol type, input element type, symbol mapping, extra input symbols, flags)
def _m(**kw):
    t = {ord(k): v for k, v in kw.items()}
    return lambda c: t.get(c, c)


PROFILES = {
    "char": ("char", "char", _m(d=-31), [-30, 97], ""),
    "wchar": ("wchar_t", "wchar_t", _m(d=0x161, c=0x10061), [0x162], ""),
    "char8": ("char8_t", "char8_t", _m(d=0xe1, c=0x81), [0xe2], ""),
    "char16": ("char16_t", "char16_t", _m(d=0x161, c=0x6100), [0x162], ""),
    "char32": ("char32_t", "char32_t", _m(d=0x10061, c=0x161), [0x162], ""),
    "schar": ("signed char", "signed char", _m(d=-31, c=-128), [-30], ""),
    "uchar": ("unsigned char", "unsigned char", _m(d=225, c=255), [226], ""),
    "short": ("short", "short", _m(d=0x161, c=-159), [0x162], ""),
    "int": ("int", "int", _m(d=0x161, c=-159, b=-98), [0x162, 98], ""),
    "unsigned": ("unsigned", "unsigned", _m(d=0x161, c=0x80000061), [0x162], ""),
    "llong": ("long long", "long long", _m(d=97 + (1 << 32), c=-(1 << 40)), [98 + (1 << 32)], ""),
    "enum8": ("vf::E8", "vf::E8", _m(d=225, c=255), [226], ""),
    "enum32": ("vf::E32", "vf::E32", _m(d=0x161, c=-159), [0x162], ""),
    "struct": ("vf::St", "vf::St", _m(d=0x161, c=0x6100), [0x162], ""),
    "fine": ("vf::Fi", "vf::Fi", _m(d=0x161), [97 + 65536, 98 - 65536], ""),
    "bool": ("bool", "bool", lambda c: c & 1, [0, 1], ""),
    "double": ("double", "double", _m(d=0x161, c=-97), [0x162, 99999, 99998, 0], "gcc"),
    # input elements of another type than the grammar's symbols
    "char_int": ("char", "int", _m(), [97 + 256, 98 - 256, -1], ""),
    "char_wchar": ("char", "wchar_t", _m(), [97 + 256, 98 + 65536], ""),
    "char_trk": ("char", "vf::Trk", _m(), [97 + 256], ""),
    "char_uchar": ("char", "unsigned char", _m(d=-31), [225], ""),
    "uchar_char": ("unsigned char", "char", _m(d=225), [-31], ""),
    "int_llong": ("int", "long long", _m(d=-97), [97 + (1 << 32)], ""),
    "llong_int": ("long long", "int", _m(d=97 + (1 << 32)), [-97], ""),
    "char32_char16": ("char32_t", "char16_t", _m(d=0x161, c=0x10061), [0x161, 0x61], ""),
    "short_double": ("short", "double", _m(d=-97), [97 + 65536, 99999, 99998], ""),
    # equal does not mean the same value, and the order of the symbols is not that of the elements
    "int_unsigned": ("int", "unsigned", _m(d=-31, c=-1, b=-2), [0xffffffe1, 0x80000061, 98], ""),
    "unsigned_int": ("unsigned", "int", _m(d=0xffffffe1, c=0xffffffff), [-31, -1, 0x7fffffff], ""),
    "llong_unsigned": ("long long", "unsigned", _m(d=-31, c=0xffffffff), [0xffffffe1, 0x80000061, 99], ""),
    "bool_int": ("bool", "int", lambda c: c & 1, [0, 1, 2, 257, -1], ""),
    "int_float": ("int", "float", _m(d=16777217, c=-16777219), [16777216, 16777218, -16777220, 99999, 99998], ""),
    "user": ("vf::Gs", "vf::Vs", _m(d=0x161), [0x162], ""),
}


def profiled(cases, prof, tag=None):
    G, V, f, extra, _ = PROFILES[prof]
    out = []
    for c in cases:
        g = remap(c.g, f)
        a = [f(x) for x in c.alpha]
        a = a[:4] + [e for e in extra if e not in a[:4]] + [x for x in a[4:] if x not in extra]
        seen = []
        for x in a:
            if x not in seen: seen.append(x)
        out.append(GCase("%s.%s" % (c.id, tag or prof), g, G, V, seen[:7]))
    return out


# ---------------------------------------------------------------- algebraic laws
def law_bases():
    A, B, C, AB, CD = all_("a"), all_("b"), all_("c"), any_("ab"), any_("cd")
    return {
        "any": AB, "none": none_("ab"), "lit": all_("ab"), "ign": ign_("a"), "seq": seq(A, any_("bc")), "cho": cho(A, plus(B)), "cap": cap(AB, 1), "opt": may(all_("ab")), "plus": plus(AB), "flt": flt(AB, 1, 2),
        "joi": join(seq(A, may(B))), "del": delim(AB, all_(",")), "exa": exa(2, AB), "com": complete(plus(AB)), "nam": name(AB), "vd": vd(AB, 2), "seqv": seq(ign_("a"), ign_("b")), "chol": cho(all_("ab"), cap(all_("ac"), 3), A),
    }


def law_pairs(rng=None, nrand=0, seed=0):
    """(name, left, right, same): same means equal values and callbacks too, otherwise equal language and consumption"""
    b = law_bases()
    L = []

    def add(n, l, r):
        if not (valid(l) and valid(r)): return
        same = norm(l).key() == norm(r).key()
        L.append((n, l, r, same))

    ks = list(b)
    trip = [(ks[i], ks[(i * 5 + 3) % len(ks)], ks[(i * 7 + 1) % len(ks)]) for i in range(len(ks))]
    for i, (x, y, z) in enumerate(trip):
        p, q, r = b[x], b[y], b[z]
        add("assoc_seq_%d" % i, seq(seq(p, q), r), seq(p, seq(q, r)))
        add("assoc_cho_%d" % i, cho(cho(p, q), r), cho(p, cho(q, r)))
        add("flat_seq_%d" % i, seq(seq(p, q), seq(r, p)), seq(p, q, r, p))
        add("flat_cho_%d" % i, cho(cho(p, q), cho(r, all_("zz"))), cho(p, q, r, all_("zz")))
        add("distr_%d" % i, cho(seq(ignore(p), ignore(q)), seq(ignore(p), ignore(r))), seq(ignore(p), cho(ignore(q), ignore(r)))) if not nullable(norm(p)) and x in ("any", "none", "lit", "ign", "cap") else None
    for n, p in b.items():
        add("mm_" + n, may(may(p)), may(p)); add("mp_" + n, may(plus(p)), star(p)); add("ms_" + n, may(star(p)), star(p))
        add("pm_" + n, plus(may(p)), star(p)); add("ss_" + n, star(star(p)), star(p)); add("pp_" + n, plus(plus(p)), plus(p)); add("ps_" + n, plus(star(p)), star(p)); add("sp_" + n, star(plus(p)), star(p)); add("sm_" + n, star(may(p)), star(p))
        add("idem_" + n, cho(p, p), p); add("idem3_" + n, cho(cho(p, all_("zz")), cho(p, all_("zz"))), cho(p, all_("zz")))
        add("eps_may_" + n, oreps(p), may(p)); add("plus_star_" + n, plus(p), seq(p, star(p))); add("star_cho_" + n, star(p), cho(plus(p), eps()))
        add("exa3_" + n, exa(3, p), seq(p, p, p)); add("exa1_" + n, exa(1, p), p)
        add("delim_" + n, delim(p, all_(",")), seq(p, star(seq(ign_(","), p)))); add("delimk_" + n, delimk(p, any_(",;")), seq(p, star(seq(any_(",;"), p))))
        add("delim_ign_" + n, delim(p, all_(",")), delim(p, ign_(","))); add("delimk_ign_" + n, delimk(p, ign_(",")), delim(p, all_(",")))
        add("ii_" + n, ignore(ignore(p)), ignore(p)); add("cc_" + n, complete(complete(p)), complete(p)); add("jj_" + n, join(join(p)), join(p))
        add("nam_" + n, name(p, "q"), p); add("nam2_" + n, name(name(p, "q"), "r"), name(p, "q"))
        add("fltT_" + n, flt(p, 3, 0), p) if vtype(norm(p)) else None
        add("ignlang_" + n, ignore(p), p) if n not in ("flt", "joi") else None
        add("com_twice_" + n, complete(seq(p, p)), seq(p, complete(p)))
        add("cho_prefix_" + n, cho(p, seq(p, p)), p) if not nullable(norm(p)) or True else None
    # sets
    sets = ["a", "b", "ab", "ba", "abc", "bcd", "cab", "cc", "dcba", "xaz", "abcdefgh"]
    k = 0
    for i, s in enumerate(sets):
        for j, t in enumerate(sets):
            S_, T_ = set(s), set(t)
            k += 1
            if k % 3: continue
            add("aa_%d_%d" % (i, j), cho(any_(s), any_(t)), any_(s + t))
            add("nn_%d_%d" % (i, j), cho(none_(s), none_(t)), none_(sorted(map(ord, S_ & T_)))) if S_ & T_ else None
            add("an_%d_%d" % (i, j), cho(any_(s), none_(t)), none_(sorted(map(ord, T_ - S_)))) if T_ - S_ else None
            add("na_%d_%d" % (i, j), cho(none_(s), any_(t)), none_(sorted(map(ord, S_ - T_)))) if S_ - T_ else None
    for i, s in enumerate(sets):
        add("not_any_%d" % i, not_(any_(s)), none_(s)); add("not_none_%d" % i, not_(none_(s)), any_(s)); add("notnot_%d" % i, not_(not_(any_(s))), any_(s))
        add("perm_%d" % i, any_(s), any_(s[::-1])); add("dup_%d" % i, any_(s), any_(s + s)); add("single_%d" % i, any_(s[:1]), all_(s[:1]))
        add("anything_%d" % i, cho(any_(s), none_(s)), anything()); add("anyel_%d" % i, cho(none_(s), any_(s)), anyel())
        add("set_cho_%d" % i, any_(s), cho(*[name(all_(c), "x") for c in dict.fromkeys(s)])) if len(set(s)) > 1 else None
    lits = ["a", "ab", "aba", "abcabc", "aab"]
    for i, s in enumerate(lits):
        for j, t in enumerate(lits):
            add("fuse_%d_%d" % (i, j), seq(all_(s), all_(t)), all_(s + t))
            add("fuse3_%d_%d" % (i, j), seq(seq(any_("xy"), all_(s)), all_(t)), seq(any_("xy"), name(all_(s)), all_(t)))
            add("ignfuse_%d_%d" % (i, j), seq(ign_(s), ign_(t)), ignore(all_(s + t)))
        add("litexa_%d" % i, exa(3, all_(s)), all_(s * 3)); add("litseq_%d" % i, all_(s), seq(*[name(all_(c), "l") for c in s])) if len(s) > 1 else None
        add("joinexa_%d" % i, join(exa(3, all_(s))), all_(s * 3)); add("joinplus_%d" % i, join(plus(all_(s))), join(plus(name(all_(s))))); add("joinstar_%d" % i, join(star(all_(s))), join(star(name(all_(s))))); add("joinmay_%d" % i, join(may(all_(s))), join(may(name(all_(s)))))
    for n in ("any", "none"):
        p = b[n]
        for m, f in (("plus", plus), ("star", star), ("may", may), ("exa", lambda x: exa(3, x))):
            add("jb_%s_%s" % (m, n), join(f(p)), join(f(name(p))))
    # the same operands, some of them repeated, bracketed in two ways
    def bracket(op, xs, rr):
        if len(xs) == 1: return xs[0]
        c = rr.randrange(1, len(xs))
        return op(bracket(op, xs[:c], rr), bracket(op, xs[c:], rr))
    pools = [[all_("a"), all_("ab"), all_("abc")], [all_("ab"), any_("ab"), ign_("a")], [cap(all_("a"), 1), all_("ab"), seq(all_("a"), any_("bc"))], [plus(all_("a")), may(all_("ab")), all_("b")], [any_("ab"), none_("bc"), all_("abc")], [flt(all_("ab"), 1, 2), all_("a"), seq(all_("a"), all_("b"), plus(all_("a")))], [ign_("a"), ign_("ab"), vd(all_("a"), 3)], [name(all_("a")), join(seq(any_("ab"), all_("b"))), exa(2, any_("ab"))]]
    rr = random.Random(h(("bracket", seed)))
    for i in range(44 + nrand):
        pool = pools[i % len(pools)]
        for opn, op in (("cho", lambda x, y: N("or", x, y)), ("seq", lambda x, y: N("then", x, y))):
            xs = [rr.choice(pool) for _ in range(rr.choice([3, 3, 4, 5]))]
            l, r = bracket(op, xs, rr), bracket(op, xs, rr)
            for _ in range(6):
                if r.key() != l.key(): break
                r = bracket(op, xs, rr)
            add("bra_%s_%d" % (opn, i), l, r)
    for i in range(nrand):
        s = h(("law", seed, i))
        rr = random.Random(s)
        p, q, r = [cat.random_grammar(s + j, depth=2 + rr.randrange(2), minsize=2, maxsize=16) for j in range(3)]
        for n, l, rt in (("ra", seq(seq(p, q), r), seq(p, seq(q, r))), ("rc", cho(cho(p, q), r), cho(p, cho(q, r))), ("rn", name(p), p), ("rp", plus(p), seq(p, star(p))), ("ri", cho(p, p), p), ("re", exa(2, p), seq(p, p)), ("rm", may(plus(p)), star(p)),
                         ("rd", delimk(p, q), seq(p, star(seq(q, p)))), ("rk", complete(seq(p, q)), seq(p, complete(q))), ("ro", oreps(p), may(p)), ("rg", ignore(ignore(p)), ignore(p))):
            if rr.random() < .35: add("%s%d" % (n, i), l, rt)
    return L


def erases(n):
    """does ignoring change what it accepts (a filter or join inside)?"""
    return n.k in ("flt", "joi", "cus") or any(erases(x) for x in n.kids)


def law_cases(nrand, seed):
    out = []
    for n, l, r, same in law_pairs(nrand=nrand, seed=seed):
        # side conditions of the laws that only hold for the language
        if n.startswith(("com_twice", "rk")) and nullable(norm(l.kids[0])) and False: continue
        a = gr.alphabet(l, extra=[122], limit=5)
        k = "%s=%s" % (n, "same" if same else "lang")
        out.append(GCase(k + ".L", l, alpha=a)); out.append(GCase(k + ".R", r, alpha=a))
    return out


# ---------------------------------------------------------------- modifier forms and substitution
def modifiers():
    A, B, C, AB = all_("a"), all_("b"), all_("c"), any_("ab")
    F = lambda f: Mod(f)
    def both(f, d): return Mod(lambda p: f(p, d), lambda G: "%s(%s)" % ("delimit" if f is delim else "delimit_keep", cpp(d, G)))
    return {
        "ignore": F(ignore), "complete": F(complete), "join": F(join), "name": F(lambda p: name(p, "mm")), "exa1": F(lambda p: exa(1, p)), "exa2": F(lambda p: exa(2, p)),
        "cap": F(lambda p: cap(p, 1)), "num": F(lambda p: num(p, 2)), "vd": F(lambda p: vd(p, 3)), "idn": F(lambda p: idn(p, 1)), "flt": F(lambda p: flt(p, 1, 2)), "into": F(lambda p: into(p, 4)), "const": F(lambda p: const(p, 9)), "deflt": F(lambda p: deflt(p, 5)),
        "acap": F(lambda p: acap(p, 1)), "aflt": F(lambda p: aflt(p, 2, 2)), "ainto": F(lambda p: ainto(p, 3)), "avd": F(lambda p: avd(p, 1)),
        "delim": both(delim, all_(",")), "delimk": both(delimk, any_(",;")), "delimseq": both(delim, seq(star(all_(" ")), all_(","))), "delimkcap": both(delimk, cap(any_(",;"), 6)),
        "sub_ign": sub_mod(("in", F(ignore))), "sub_cap": sub_mod(("in", F(lambda p: cap(p, 8)))), "sub_join": sub_mod(("in", F(join))), "sub_none": sub_mod(("absent", F(ignore))),
        "sub_two": sub_mod(("in", F(lambda p: name(p, "out"))), ("out", F(lambda p: cap(p, 3)))), "sub_multi": sub_mod(("in", multi(F(lambda p: idn(p, 2)), F(lambda p: exa(1, p))))),
    }


def inside(G, m, p):
    """forms of applying one modifier"""
    return [("call", lambda: "%s(%s)" % (m.code(G), cpp(p, G))), ("pct", lambda: "(%s %% %s)" % (cpp(p, G), m.code(G)))]


def modifier_cases(seed, nchain, nsub):
    ms = modifiers()
    A, B, C, AB = all_("a"), all_("b"), all_("c"), any_("ab")
    bases = {"any": AB, "lit": all_("ab"), "tup": seq(A, AB), "vec": plus(AB), "named": seq(name(plus(A), "in"), may(name(B, "in")), all_("c")), "nn": name(plus(name(A, "in")), "in"), "arr": exa(2, AB), "void": ign_("ab"), "cho": cho(name(all_("ab"), "in"), plus(name(A, "in")), B), "pair": delimk(AB, name(any_(",;"), "in"))}
    out = []

    def add(n, meaning, code):
        if valid(meaning): out.append(GCase(n, spelt(meaning, code)))

    i = 0
    for mn, m in ms.items():
        for bn, p in bases.items():
            i += 1
            if mn == "vd" and bn == "void": pass
            meaning = m(p) if True else None
            try: ok = valid(meaning)
            except Exception: ok = False
            if not ok: continue
            if (i + seed) % 3 == 0 or bn in ("tup", "named"):
                add("m_call_%s_%s" % (mn, bn), meaning, lambda G, m=m, p=p: "%s(%s)" % (m.code(G), cpp(p, G)))
                add("m_pct_%s_%s" % (mn, bn), meaning, lambda G, m=m, p=p: "(%s %% %s)" % (cpp(p, G), m.code(G)))
                if mn.startswith("sub_"): add("m_args_%s_%s" % (mn, bn), meaning, lambda G, m=m, p=p: m.code(G).replace("sub(", "sub(%s, " % cpp(p, G), 1))
                if mn in ("delim", "delimk", "delimseq", "delimkcap"): add("m_two_%s_%s" % (mn, bn), meaning, lambda G, m=m, p=p: m.code(G).replace("(", "(%s, " % cpp(p, G), 1))
    rng = random.Random(h(("mods", seed)))
    names = list(ms)
    n = t = 0
    while n < nchain and t < nchain * 40:
        t += 1
        k = rng.choice([2, 2, 3, 3, 4, 5])
        pick = [rng.choice(names) for _ in range(k)]
        if rng.random() < .4: pick[rng.randrange(k)] = rng.choice([x for x in names if x.startswith("sub")])
        bn = rng.choice(list(bases))
        mm = [ms[x] for x in pick]
        try:
            meaning = bases[bn]
            for m in mm:
                meaning = m(meaning)
                if not valid(meaning): raise ValueError
        except Exception: continue
        if size(norm(meaning)) > 60: continue
        n += 1
        p = bases[bn]
        def nest(G, mm=mm, p=p):
            s = cpp(p, G)
            for m in mm: s = "%s(%s)" % (m.code(G), s)
            return s
        def left(G, mm=mm, p=p):
            s = cpp(p, G)
            for m in mm: s = "(%s %% %s)" % (s, m.code(G))
            return s
        def rightm(G, mm=mm): # m1 % (m2 % (m3 ...))
            s = mm[-1].code(G)
            for m in reversed(mm[:-1]): s = "(%s %% %s)" % (m.code(G), s)
            return s
        def leftm(G, mm=mm): return multi(*mm).code(G)
        def split(G, mm=mm, c=rng.randrange(1, k)): return "((%s) %% (%s))" % (" % ".join(m.code(G) for m in mm[:c]), " % ".join(m.code(G) for m in mm[c:]))
        tag = "%d_%s_%s" % (n, bn, "_".join(pick))
        forms = [("nest", nest), ("left", left), ("right", lambda G, p=p, rm=rightm: "(%s %% %s)" % (cpp(p, G), rm(G))), ("multi", lambda G, p=p, lm=leftm: "(%s %% %s)" % (cpp(p, G), lm(G))), ("mcall", lambda G, p=p, lm=leftm: "%s(%s)" % (lm(G), cpp(p, G))),
                 ("rcall", lambda G, p=p, rm=rightm: "%s(%s)" % (rm(G), cpp(p, G))), ("split", lambda G, p=p, sp=split: "(%s %% %s)" % (cpp(p, G), sp(G)))]
        for fn, code in rng.sample(forms, 3): add("c_%s_%s" % (fn, tag), meaning, code)
    # substitution over whole grammars
    F = lambda f: Mod(f)
    def smods_for(n0, n1, n2):
        return {"ignore": F(ignore), "complete": F(complete), "join": F(join), "exa2": F(lambda p: exa(2, p)), "cap": F(lambda p: cap(p, 1)), "flt": F(lambda p: flt(p, 1, 3)), "ren": F(lambda p: name(p, n1)), "ren2": F(lambda p: name(p, n2)), "into": F(lambda p: into(p, 2)), "delim": Mod(lambda p: delim(p, all_(",")), lambda G: "delimit(%s)" % cpp(all_(","), G)), "idn": F(lambda p: idn(p, 4)), "vd": F(lambda p: vd(p, 5)), "const": F(lambda p: const(p, 3)),
             "multi": multi(F(lambda p: cap(p, 2)), F(lambda p: name(p, n0))), "nested": sub_mod((n1, F(lambda p: cap(p, 6)))), "mdeep": multi(F(join), F(lambda p: exa(1, p)), F(lambda p: cap(p, 7)))}
    n = t = 0
    while n < nsub and t < nsub * 60:
        t += 1
        g = cat.random_grammar(h(("sub", seed, t)), depth=4, minsize=6, maxsize=28, callbacks=rng.random() < .5)
        fam = rng.choice(NAMES)
        fam = rng.sample(fam, len(fam))
        smods = smods_for(*fam[:3])
        g = sprinkle(g, rng, fam)
        used = {x for x in all_names(norm(g))}
        if not used: continue
        subs = [(rng.choice(sorted(used) + [fam[2]]) if rng.random() < .85 else fam[3], smods[rng.choice(list(smods))]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        if "sub(" in "".join(m.code("char") for _, m in subs) and rng.random() < .5: continue
        try:
            if not valid(g): continue
            meaning, ok = g, True
            for s, m in subs:
                meaning = sub_mod((s, m))(meaning)
                ok = ok and valid(meaning)
            if not ok: continue
        except Exception: continue
        if norm(meaning).key() == norm(g).key() and rng.random() < .8: continue
        n += 1
        sm = sub_mod(*subs)
        forms = [("call", lambda G, g=g, sm=sm: "%s(%s)" % (sm.code(G), cpp(g, G))), ("pct", lambda G, g=g, sm=sm: "(%s %% %s)" % (cpp(g, G), sm.code(G))), ("args", lambda G, g=g, sm=sm: sm.code(G).replace("sub(", "sub(%s, " % cpp(g, G), 1))]
        if len(subs) > 1:
            forms.append(("chain", lambda G, g=g, subs=subs: "(" + " % ".join([cpp(g, G)] + [sub_mod(x).code(G) for x in subs]) + ")"))
            forms.append(("mchain", lambda G, g=g, subs=subs: "(%s %% (%s))" % (cpp(g, G), " % ".join(sub_mod(x).code(G) for x in subs))))
        for fn, code in rng.sample(forms, 2): add("s_%s_%d" % (fn, n), meaning, code)
    return out


def all_names(n, acc=None):
    acc = set() if acc is None else acc
    if n.k == "nam": acc.add(n.a["s"])
    for x in n.kids: all_names(x, acc)
    return acc


# names that are easily mistaken for one another
NAMES = [["n0", "n1", "n2", "zz"], ["a", "a.b", "a.b.c", "b"], ["item", "items", "Item", "item "], ["x", "xx", "xxx", ""], ["sep", "separator", "pes", "se"], ["", "n", "nn", " "],
         ["n\\0a", "n\\0b", "n", "n\\0"], ["prefix::one", "prefix::two", "prefix::", "one"], ["an_unusually_long_name_for_a_part_of_a_grammar_1", "an_unusually_long_name_for_a_part_of_a_grammar_2", "an_unusually_long_name_for_a_part_of_a_grammar_", "1"],
         ["ab", "ba", "aab", "b"], ["\\xff", "\\x7f", "\\xff\\xff", "\\x80"], ["1", "01", "10", "0"], ["map", "ignore", "name", "*"], ["a[0]", "a[1]", "a", "a["]]


def sprinkle(g, rng, names):
    """the same grammar with names on some of its parts"""
    k = N(g.k, *[sprinkle(x, rng, names) for x in g.kids], style=g.style, **g.a)
    if g.k in ("eps", "oreps", "not") or (g.k == "or" and False): return k if g.k != "not" else g
    return name(k, names[rng.randrange(3)]) if rng.random() < .3 else k


# ---------------------------------------------------------------- join
def join_cases(n, seed):
    out = []
    i = t = 0
    rng = random.Random(h(("join", seed)))
    while i < n and t < n * 60:
        t += 1
        g = cat.random_grammar(h(("j", seed, t)), depth=2 + t % 3, callbacks="cut" if t % 2 else False, minsize=3, maxsize=26)
        if not joinable(vtype(norm(g))): continue
        j = join(g)
        if norm(j).kids[0].k in ("any", "none", "all", "joi") and rng.random() < .8: continue
        ctx = [lambda p: p, lambda p: seq(any_("ab"), p), lambda p: seq(p, may(any_("abcd"))), lambda p: star(p), lambda p: cho(seq(p, all_("d")), p), lambda p: seq(may(ign_("a")), p, star(any_("cd"))), lambda p: cap(p, 1), lambda p: delim(p, all_(",")), lambda p: join(seq(p, may(all_("c")))), lambda p: exa(2, p)]
        c = rng.choice(ctx)(j)
        if not valid(c): continue
        gr.restyle(c, rng)
        out.append(GCase("j%d_%d" % (seed, i), c)); i += 1
    return out


# ---------------------------------------------------------------- single-element and literal matchers
DOMAIN = {"char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255), "char8_t": (0, 255), "vf::E8": (0, 255), "bool": (0, 1), "short": (-32768, 32767), "char16_t": (0, 65535),
          "wchar_t": (-2**31, 2**31 - 1), "char32_t": (0, 2**32 - 1), "int": (-2**31, 2**31 - 1), "unsigned": (0, 2**32 - 1), "long long": (-2**62, 2**62), "vf::E32": (-2**31, 2**31 - 1), "vf::St": (0, 2**30), "vf::Fi": (0, 30000), "double": (-1000, 99990), "vf::Gs": (-2**31, 2**31 - 1), "vf::Vs": (-2**31, 2**31 - 1), "vf::Trk": (-2**31, 2**31 - 1)}


def basic_cases(seed, per):
    out = []
    for prof, (G, V, f, extra, _) in sorted(PROFILES.items()):
        lo, hi = DOMAIN[G]
        vlo, vhi = {"vf::Fi": (-70000, 200000), "double": (-1000, 99999), "float": (-1000, 99999)}.get(V) or DOMAIN[V]
        rng = random.Random(h(("basic", prof, seed)))
        small = hi - lo < 300
        pool = list(range(lo, hi + 1)) if small else sorted({max(lo, min(hi, x)) for b in (0, 97, 127, 128, 255, 256, 353, 32767, 32768, 65535, 65536, 65633, lo, hi, -1, -128, -159, 2**31 - 1, 2**31) for x in (b - 1, b, b + 1)})
        interesting = [x for x in (lo, hi, 0, -1, 127, 128, -128, 255, 97, 98) if lo <= x <= hi]
        def some(n):
            n = min(n, len(pool))
            s = rng.sample(pool, n)
            if rng.random() < .6: s += rng.sample(interesting, min(len(interesting), 2))
            rng.shuffle(s)
            if rng.random() < .3: s += rng.sample(s, min(3, len(s)))
            return s
        sizes = [1, 2, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64]
        k = per * 2 if prof == "char" else per
        for i in range(k):
            n = rng.choice(sizes)
            s, t, u = some(n), some(rng.choice(sizes[:9])), some(rng.choice(sizes[:5]))
            kinds = {"any": lambda: any_(s), "none": lambda: none_(s), "nany": lambda: not_(any_(s)), "nnone": lambda: not_(none_(s)), "aa": lambda: cho(any_(s), any_(t)), "an": lambda: cho(any_(s), none_(t)), "na": lambda: cho(none_(s), any_(t)), "nn": lambda: cho(none_(s), none_(t)),
                     "aan": lambda: cho(any_(s), any_(t), none_(u)), "nna": lambda: chor(none_(s), none_(t), any_(u)), "nnn": lambda: cho(none_(s), none_(t), none_(s + u)), "over": lambda: cho(any_(s), any_(s[: len(s) // 2 + 1] + t)), "sub": lambda: cho(none_(s + t), none_(s)), "nsub": lambda: cho(any_(s), none_(s + t)), "ncho": lambda: not_(cho(any_(s), any_(t))),
                     "lit": lambda: all_(s[:24]), "ign": lambda: ign_(s[:12]), "litlit": lambda: seq(all_(s[:5]), all_(t[:5])), "lit3": lambda: seqr(all_(s[:3]), all_(t[:3]), all_(u[:2])), "join": lambda: join(star(any_(s))), "joinn": lambda: join(plus(none_(s))), "joinl": lambda: join(plus(all_(s[:4]))), "joine": lambda: join(exa(3, none_(s))), "joinm": lambda: join(may(all_(s[:5]))), "anyel": anyel, "anything": lambda: cho(any_(s), none_(s))}
            names = list(kinds)
            g = kinds[names[(i + seed * 3) % len(names)]]()
            g.style = rng.randrange(6)
            codes = all_codes(norm(g))
            if not valid(g): continue
            if vhi - vlo < 300: alpha = list(range(vlo, vhi + 1)); rng.shuffle(alpha)
            else: alpha = sorted({max(vlo, min(vhi, x + d)) for x in list(codes) + interesting + extra for d in (0, 1, -1, 256, -256, 128, 65536, -65536, 2**31)} | {max(vlo, min(vhi, x)) for x in pool})
            # the symbols that matter come first, so that the exhaustive part meets them in combination
            head = [x for x in list(codes)[:6] if x in alpha]
            # elements made of the halves of two symbols
            cs = list(codes)
            cross = [] if vhi - vlo < 300 else [x for x in {(a & ~m) | (b & m) for m in (0xff, 0xffff, 0x7f, 0xfff) for a in cs[:12] for b in cs[:12]} if x not in codes and vlo <= x <= vhi]
            head += rng.sample(sorted(cross), min(len(cross), 50))
            alpha = head + [x for x in alpha if x not in head]
            out.append(GCase("b_%s_%s%d" % (prof, names[(i + seed * 3) % len(names)], i), g, G, V, alpha[:320]))
    return out


def recursive_cases(): return [GCase(n, g) for n, g in cat.recursive()]
def join_plain(n, seed): return [x for x in join_cases(n, seed) if not any_cb(x.g)]
def any_cb(n): return n.k in ("map", "filter") or any(any_cb(x) for x in n.kids)

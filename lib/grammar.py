"""Grammar expressions: what a user of tok3n can write, what it means, and how it is spelt in C++.

A *surface* tree mirrors the operators and modifiers a user writes.  `norm` turns it into the plain
grammar it denotes (the operators' documented rewrites: flattening, literal fusion, character-set
algebra, repetition collapsing); `vtype` computes the result's shape; `spec` serialises the normal
form for the reference interpreter; `cpp` spells the surface tree in the library's public API.
"""
import random
from functools import lru_cache


class N:
    __slots__ = ("k", "kids", "a", "_n", "_t", "style")

    def __init__(self, k, *kids, style=0, **a):
        self.k, self.kids, self.a, self._n, self._t, self.style = k, list(kids), a, None, None, style

    def key(self):
        return (self.k, tuple(x.key() for x in self.kids), tuple(sorted((p, repr(q)) for p, q in self.a.items())))


# ---------------------------------------------------------------- surface constructors
def _codes(s):
    return [ord(c) for c in s] if isinstance(s, str) else list(s)


def any_(s): return N("any", codes=_codes(s))
def none_(s): return N("none", codes=_codes(s))
def all_(s): return N("all", codes=_codes(s))
def ign_(s): return N("ignlit", codes=_codes(s))
def not_(p): return N("not", p)
def anything(): return N("or", any_("a"), none_("a"))   # any | none over one set: every element
def seq(*ps):
    r = ps[0]
    for p in ps[1:]: r = N("then", r, p)
    return r
def seqr(*ps):
    r = ps[-1]
    for p in reversed(ps[:-1]): r = N("then", p, r)
    return r
def cho(*ps):
    r = ps[0]
    for p in ps[1:]: r = N("or", r, p)
    return r
def chor(*ps):
    r = ps[-1]
    for p in reversed(ps[:-1]): r = N("or", p, r)
    return r
def may(p): return N("may", p)
def plus(p): return N("plus", p)
def star(p): return N("star", p)
def oreps(p): return N("oreps", p)
def eps(): return N("eps")
def exa(n, p): return N("exa", p, n=n)
def delim(p, d): return N("delim", p, d)
def delimk(p, d): return N("delimk", p, d)
def ignore(p): return N("ignore", p)
def complete(p): return N("complete", p)
def join(p): return N("join", p)
def name(p, s="nm"): return N("name", p, s=s)
def cap(p, i=0): return N("map", p, kind="m", id=i, apply=False)
def num(p, i=0): return N("map", p, kind="n", id=i, apply=False)
def vd(p, i=0): return N("map", p, kind="v", id=i, apply=False)
def idn(p, i=0): return N("map", p, kind="d", id=i, apply=False)
def passt(p, i=0): return N("map", p, kind="p", id=i, apply=False)
def cut(p, i=0): return N("map", p, kind="w", id=i, apply=False)   # a function that narrows a view, or reorders the views of a list
def tok(p, i=0, tk=0): return N("map", p, kind="t", id=i, apply=False, tk=tk)
def into(p, i=0): return N("map", p, kind="i", id=i, apply=False)
def const(p, i=7): return N("map", p, kind="c", id=i, apply=False)
def deflt(p, i=0): return N("map", p, kind="e", id=i, apply=False)
def acap(p, i=0): return N("map", p, kind="m", id=i, apply=True)
def anum(p, i=0): return N("map", p, kind="n", id=i, apply=True)
def avd(p, i=0): return N("map", p, kind="v", id=i, apply=True)
def ainto(p, i=0): return N("map", p, kind="i", id=i, apply=True)
def flt(p, i=0, K=2): return N("filter", p, id=i, K=K, apply=False)
def aflt(p, i=0, K=2): return N("filter", p, id=i, K=K, apply=True)
def rule(r): return N("rule", r=r)
def anyel(): return N("anyel")                              # detail::anything_parser
def spelt(p, code): return N("as", p, code=code)            # another spelling (code: G -> C++) of what p means


class Rule:
    """A custom_parser.  declared: result_type is the common record type (needed for recursion)."""
    def __init__(self, declared=True):
        self.body, self.declared, self.id = None, declared, None

    def __repr__(self):
        return "Rule%x" % id(self)


# ---------------------------------------------------------------- normal form
def _key(n): return n.key()


def n_seq(l, r):
    if l.k == "all" and r.k == "all": return N("all", codes=l.a["codes"] + r.a["codes"])
    ls = l.kids if l.k == "seq" else [l]
    rs = r.kids if r.k == "seq" else [r]
    return N("seq", *(ls + rs))


def n_cho(l, r):
    if l.k in ("any", "none") and r.k in ("any", "none"):
        a, b = set(l.a["codes"]), set(r.a["codes"])
        k = {"anyany": ("any", a | b), "nonenone": ("none", a & b), "anynone": ("none", b - a), "noneany": ("none", a - b)}[l.k + r.k]
        return N(k[0], codes=sorted(k[1]))
    if l.key() == r.key(): return l
    ls = l.kids if l.k == "cho" else [l]
    rs = r.kids if r.k == "cho" else [r]
    return N("cho", *(ls + rs))


def norm(n):
    if n._n is None: n._n = _norm(n)
    return n._n


def _norm(n):
    k = n.k
    if k in ("any", "none"): return N(k, codes=sorted(set(n.a["codes"])))
    if k == "all": return N("all", codes=list(n.a["codes"]))
    if k == "ignlit": return N("ign", N("all", codes=list(n.a["codes"])))
    if k == "eps": return N("eps")
    if k == "rule": return N("cus", r=n.a["r"])
    if k == "anyel": return N("nam", N("none", codes=[]), s="anything")
    if k in ("seq", "cho", "ign", "del", "com", "joi", "nam", "flt", "cus"): return n    # already normal
    if k == "as": return norm(n.kids[0])
    kids = [norm(x) for x in n.kids]
    p = kids[0]
    if k == "not":
        assert p.k in ("any", "none")
        return N("none" if p.k == "any" else "any", codes=p.a["codes"])
    if k == "then": return n_seq(*kids)
    if k == "or": return n_cho(*kids)
    if k == "oreps": return n_cho(p, N("eps"))
    if k == "may":
        if p.k == "may": return p
        if p.k in ("plus", "star"): return N("star", p.kids[0])
        return N("may", p)
    if k == "plus":
        if p.k == "may": return N("star", p.kids[0])
        if p.k in ("plus", "star"): return p
        return N("plus", p)
    if k == "star":
        if p.k in ("may", "plus", "star"): return N("star", p.kids[0])
        return N("star", p)
    if k == "exa": return N("exa", p, n=n.a["n"])
    if k == "delim": return N("del", p, N("ign", kids[1]))
    if k == "delimk": return N("del", *kids)
    if k == "ignore": return p if p.k == "ign" else N("ign", p)
    if k == "complete": return p if p.k == "com" else N("com", p)
    if k == "join": return p if p.k == "joi" else N("joi", p)
    if k == "name": return N("nam", p, s=n.a["s"])
    if k == "map": return N("map", p, **n.a)
    if k == "filter": return N("flt", p, **n.a)
    raise AssertionError(k)


# ---------------------------------------------------------------- result shapes (of normal forms); None is void
def vtype(n):
    if n._t is None: n._t = (_vtype(n),)
    return n._t[0]


def _vtype(n):
    k = n.k
    if k in ("any", "none", "all", "joi"): return ("S",)
    if k in ("eps", "ign"): return None
    if k == "seq":
        ts = [t for t in map(vtype, n.kids) if t is not None]
        return None if not ts else ts[0] if len(ts) == 1 else ("T",) + tuple(ts)
    if k == "cho":
        ts = cho_types(n)
        return None if not ts else ts[0] if len(ts) == 1 else ("V",) + tuple(ts)
    if k == "cus": return ("R",) if n.a["r"].declared else vtype(norm(n.a["r"].body))
    t = vtype(n.kids[0])
    if k == "may": return t and ("O", t)
    if k in ("plus", "star"): return t and ("L", t)
    if k == "exa": return t and ("A", n.a["n"], t)
    if k == "del":
        d = vtype(n.kids[1])
        if t is None: return d and ("L", d)
        if d is None: return ("L", t)
        return ("P", ("L", t), ("L", d))
    if k in ("com", "nam", "flt"): return t
    if k == "map":
        m = n.a["kind"]
        return {"m": ("B", n.a["id"]), "n": ("i",), "v": None, "d": t, "p": t, "w": t, "t": ("K", n.a["id"], n.a.get("tk", 0)), "i": ("I", n.a["id"]), "c": ("i",), "e": ("I", n.a["id"])}[m]
    raise AssertionError(k)


def cho_types(n):
    ts = []
    for c in n.kids:
        t = vtype(c)
        if t is not None and t not in ts: ts.append(t)
    return ts


def joinable(t):
    return t is not None and (t[0] == "S" or (t[0] in "TOLA" and all(joinable(x) for x in t[1:] if isinstance(x, tuple))))


def cuttable(t): return joinable(t) and t[0] in "SLA"


def appliable(t): return t is not None and t[0] in "TAP"


def has_tok(t, tk=None):
    return t is not None and ((t[0] == "K" and (tk is None or t[2] == tk)) or any(has_tok(x, tk) for x in t[1:] if isinstance(x, tuple)))


# ---------------------------------------------------------------- can it succeed without consuming?
def nullable(n, seen=()):
    k = n.k
    if k in ("any", "none"): return False
    if k == "all": return not n.a["codes"]
    if k in ("eps", "may", "star"): return True
    if k == "seq": return all(nullable(x, seen) for x in n.kids)
    if k == "cho": return any(nullable(x, seen) for x in n.kids)
    if k == "cus":
        r = n.a["r"]
        return False if r in seen else nullable(norm(r.body), seen + (r,))
    return nullable(n.kids[0], seen)


def well_formed(n, seen=None):
    """every repeated parser consumes; no left recursion is checked by construction of rules"""
    seen = set() if seen is None else seen
    if n.k in ("plus", "star") and nullable(n.kids[0]): return False
    if n.k == "del" and nullable(n.kids[0]) and nullable(n.kids[1]): return False
    if n.k == "cus":
        r = n.a["r"]
        if r in seen: return True
        seen.add(r)
        return well_formed(norm(r.body), seen)
    return all(well_formed(x, seen) for x in n.kids)


def typed(n, seen=None):
    """every join/apply/map is applied to a value it is defined for (checked on the normal form)"""
    seen = set() if seen is None else seen
    if n.k == "cus":
        r = n.a["r"]
        if r in seen: return True
        seen.add(r)
        b = norm(r.body)
        return typed(b, seen) and (not r.declared or vtype(b) is not None)
    if not all(typed(x, seen) for x in n.kids): return False
    if n.k == "joi": return joinable(vtype(n.kids[0]))
    if n.k == "map":
        t = vtype(n.kids[0])
        if n.a["apply"]: return appliable(t)
        if n.a["kind"] in "dp": return t is not None
        if n.a["kind"] == "w": return cuttable(t)
    if n.k == "flt" and n.a["apply"]: return appliable(vtype(n.kids[0]))
    return True


def collect_rules(n, out=None):
    out = [] if out is None else out
    if n.k in ("rule", "cus"):
        r = n.a["r"]
        if r not in out:
            out.append(r)
            collect_rules(r.body, out)
    for x in n.kids: collect_rules(x, out)
    return out


def all_codes(n, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    if "codes" in n.a:
        for c in n.a["codes"]: acc[c] = acc.get(c, 0) + 1
    if n.k in ("rule", "cus") and n.a["r"] not in seen:
        seen.add(n.a["r"])
        all_codes(n.a["r"].body, acc, seen)
    for x in n.kids: all_codes(x, acc, seen)
    return acc


def size(n): return 1 + sum(size(x) for x in n.kids)


def remap(n, f, rules=None):
    """the same grammar over other symbols"""
    rules = {} if rules is None else rules
    a = dict(n.a)
    if "codes" in a: a["codes"] = [f(c) for c in a["codes"]]
    if n.k == "rule":
        r = a["r"]
        if r not in rules:
            q = Rule(r.declared)
            rules[r] = q
            q.body = remap(r.body, f, rules)
        a["r"] = rules[r]
    return N(n.k, *[remap(x, f, rules) for x in n.kids], style=n.style, **a)


# ---------------------------------------------------------------- spec for the reference interpreter
def _def(t):
    c = t[0]
    if c in "SRi": return c
    if c == "T": return "T %d %s" % (len(t) - 1, " ".join(map(_def, t[1:])))
    if c == "P": return "P %s %s" % (_def(t[1]), _def(t[2]))
    if c in "OL": return c
    if c == "A": return "A %d %s" % (t[1], _def(t[2]))
    if c == "V": return "V " + _def(t[1])
    if c in "BIK": return "%s %d" % (c, t[1])
    raise AssertionError(t)


def _v(n): return 1 if vtype(n) is None else 0


def _spec(n, rules):
    k = n.k
    sub = lambda: " ".join(_spec(x, rules) for x in n.kids)
    if k in ("any", "none", "all"): return "%s %d %s" % (k, len(n.a["codes"]), " ".join(map(str, n.a["codes"])))
    if k == "eps": return "eps"
    if k == "seq":
        nv = sum(1 - _v(x) for x in n.kids)
        return "seq %d %d %s %s" % (len(n.kids), nv <= 1, " ".join(str(_v(x)) for x in n.kids), sub())
    if k == "cho":
        ts = cho_types(n)
        idx = " ".join(str(-1 if vtype(x) is None else ts.index(vtype(x))) for x in n.kids)
        d = "" if not ts else _def(vtype(n))
        return "cho %d %d %d %s %s %s" % (len(n.kids), len(ts) <= 1, not ts, idx, d, sub())
    if k in ("may", "plus", "star"): return "%s %d %s" % (k, _v(n.kids[0]), sub())
    if k == "exa": return "exa %d %d %s" % (n.a["n"], _v(n.kids[0]), sub())
    if k == "del": return "del %d %d %s" % (_v(n.kids[0]), _v(n.kids[1]), sub())
    if k in ("ign", "com", "joi", "nam"): return "%s %s" % (k, sub())
    if k == "map": return "map %s %d %d %d %s" % (n.a["kind"], n.a["id"], _v(n.kids[0]), n.a["apply"], sub())
    if k == "flt": return "flt %d %d %d %d %s" % (n.a["id"], n.a["K"], _v(n.kids[0]), n.a["apply"], sub())
    if k == "cus":
        r = n.a["r"]
        b = norm(r.body)
        return "cus %d %d" % (rules.index(r), r.declared and vtype(b) != ("R",))
    raise AssertionError(k)


def spec(surface, alpha):
    n = norm(surface)
    rules = collect_rules(surface)
    return "%d %d %s %d %s %s" % (vtype(n) is None, len(alpha), " ".join(map(str, alpha)), len(rules), " ".join(_spec(norm(r.body), rules) for r in rules), _spec(n, rules))


# ---------------------------------------------------------------- C++ spelling
PREFIX = {"char": "", "wchar_t": "L", "char8_t": "u8", "char16_t": "u", "char32_t": "U"}


def _printable(c): return 32 <= c < 127 and c not in (34, 92, 63)


def lit(kind, codes, G, style):
    udl = {"any": ["_any", "_any_of"], "none": ["_none", "_none_of"], "all": ["_all", "_all_of"], "ign": ["_ign"]}[kind]
    if G in PREFIX and codes and all(_printable(c) for c in codes) and style % 3 != 2:
        s = PREFIX[G] + '"%s"' % "".join(map(chr, codes))
        if style % 3 == 0: return s + udl[style % len(udl)]
        return "%s<%s>" % (kind, s)
    if G == "char" and style % 2 == 0: args = ", ".join("static_cast<char>(%d)" % (c if c < 128 else c - 256) if not _printable(c) or c == 39 else "'%c'" % c for c in codes)
    else: args = ", ".join("vf::mk<%s>(%d)" % (G, c) for c in codes)
    if kind == "ign": return "ignore(all_of<%s>)" % args
    return {"any": "any_of", "none": "none_of", "all": "all_of"}[kind] + "<%s>" % args


def _fn(n):
    a = n.a
    if n.k == "filter": return "%s<vf::flt<%d, %d>{}>" % ("apply_filter" if a["apply"] else "filter", a["id"], a["K"])
    ap = a["apply"]
    k, i = a["kind"], a["id"]
    if k == "i": return "%s<vf::IBox<%d>>" % ("apply_into" if ap else "into", i)
    if k == "c": return "constant<%d>" % i
    if k == "e": return "defaulted<vf::IBox<%d>>" % i
    f = {"m": "cap<%d>", "n": "num<%d>", "v": "vd<%d>", "d": "idn<%d>", "p": "pass<%d>", "w": "cut<%d>"}.get(k)
    f = f % i if f else "tok<%d,%d>" % (i, a["tk"])
    return "%s<vf::%s{}>" % ("apply" if ap else "map", f)


def cpp(n, G="char"):
    k, st = n.k, n.style
    c = lambda i=0: cpp(n.kids[i], G)
    if k in ("any", "none", "all"): return lit(k, n.a["codes"], G, st)
    if k == "ignlit": return lit("ign", n.a["codes"], G, st)
    if k == "eps": return "eps.of<%s>" % G
    if k == "rule": return "R%s{}" % n.a["r"].id
    if k == "anyel": return "k3::tok3n::detail::anything_parser<%s>{}" % G
    if k == "as": return n.a["code"](G)
    if k == "not": return "!(%s)" % c()
    if k == "then": return "(%s >> %s)" % (c(0), c(1))
    if k == "or": return "(%s | %s)" % (c(0), c(1))
    if k == "oreps": return "(%s | eps)" % c()
    if k == "may": return "~(%s)" % c()
    if k == "plus": return "+(%s)" % c()
    if k == "star": return "*(%s)" % c()
    post = st % 2
    if k in ("delim", "delimk") and not post: return "%s(%s, %s)" % ("delimit" if k == "delim" else "delimit_keep", c(0), c(1))
    m = modcode(n, G)
    return "(%s %% %s)" % (c(0), m) if post else "%s(%s)" % (m, c(0))


def modcode(n, G="char"):
    """the modifier a modifier node applies, as an expression of its own"""
    k = n.k
    if k in ("delim", "delimk"): return "%s(%s)" % ("delimit" if k == "delim" else "delimit_keep", cpp(n.kids[1], G))
    if k == "name": return 'name<"%s">' % n.a["s"]
    if k == "exa": return "exactly<%d>" % n.a["n"]
    if k in ("ignore", "complete", "join"): return k
    return _fn(n)


def restyle(n, rng):
    n.style = rng.randrange(6)
    for x in n.kids: restyle(x, rng)
    return n


def alphabet(surface, extra=(), limit=6, rng=None):
    codes = all_codes(surface)
    xs = sorted(codes, key=lambda c: (-codes[c], c))
    if len(xs) > limit:
        head = xs[: limit // 2]
        rest = xs[limit // 2:]
        (rng or random.Random(1)).shuffle(rest)
        xs = head + rest[: limit - len(head)]
    for e in extra:
        if e not in xs: xs.append(e)
    return xs


def valid(surface):
    for r in collect_rules(surface):
        if not typed(norm(r.body)) or not well_formed(norm(r.body)): return False
    n = norm(surface)
    return typed(n) and well_formed(n)


# ---------------------------------------------------------------- modifiers as values, and substitution
class Mod:
    """fn: what applying it means (parser -> parser); code: how the modifier itself is spelt (G -> C++)"""
    def __init__(self, fn, code=None):
        self.fn = fn
        self.code = code or (lambda G: modcode(fn(any_("a")), G))

    def __call__(self, p): return self.fn(p)


def multi(*ms):
    """several modifiers applied left to right"""
    def fn(p):
        for m in ms: p = m(p)
        return p
    return Mod(fn, lambda G: "(" + " % ".join(m.code(G) for m in ms) + ")")


def substitute(n, s, m):
    if n.k == "cus": return n
    kids = [substitute(x, s, m) for x in n.kids]
    if n.k == "nam" and n.a["s"] == s: return norm(m(kids[0]))
    return N(n.k, *kids, **n.a)


def sub_mod(*subs):
    """sub(name<"s"> = m, ...) as a modifier; subs: (name, Mod)"""
    def fn(p):
        n = norm(p)
        for s, m in subs: n = substitute(n, s, m)
        return n
    return Mod(fn, lambda G: "sub(" + ", ".join('name<"%s"> = %s' % (s, m.code(G)) for s, m in subs) + ")")

"""Curated grammars (every combinator, every pairing, size extremes) and a random grammar generator."""
import random
from grammar import *


def ext(n, base=97): return [base + i for i in range(n)]


def unary(depth_tag=0):
    return {
        "may": may, "plus": plus, "star": star, "exa1": lambda p: exa(1, p), "exa2": lambda p: exa(2, p), "exa3": lambda p: exa(3, p),
        "ign": ignore, "com": complete, "join": join, "name": name, "cap": cap, "num": num, "vd": vd, "idn": idn,
        "flt": lambda p: flt(p, 1, 2), "fltT": lambda p: flt(p, 2, 0), "fltF": lambda p: flt(p, 3, 1), "const": const, "into": into, "deflt": deflt, "eps": oreps,
    }


def atoms():
    return [any_("ab"), none_("ab"), all_("ab"), all_("a"), any_("b"), ign_("ab"), not_(any_("bc")), not_(none_("ab")), anything(), any_("abcdefghijk")]


def shaped():
    """one parser per result shape"""
    return {
        "void": ign_("a"), "span": any_("ab"), "lit": all_("ab"), "opt": may(any_("ab")), "vec": plus(any_("ab")), "tup": seq(any_("ab"), all_("b")),
        "arr": exa(2, any_("ab")), "var": cho(all_("a"), plus(all_("b"))), "pair": delimk(any_("ab"), all_("c")), "box": cap(any_("ab")), "int": num(any_("ab")),
        "vvec": plus(seq(all_("a"), plus(all_("b")))), "voidm": vd(any_("ab")), "voidf": flt(ign_("a"), 4, 2), "voidopt": may(ign_("a")), "voidplus": plus(ign_("a")),
    }


def pairs():
    """every unary over every unary"""
    out = []
    u = unary()
    ats = atoms()
    i = 0
    for a in u:
        for b in u:
            for t in range(len(ats)):
                at = ats[(i * 3 + t) % len(ats)]
                g = u[a](u[b](at))
                if valid(g):
                    out.append(("u_%s_%s" % (a, b), g))
                    break
            i += 1
    return out


def singles():
    out = []
    for i, at in enumerate(atoms()):
        out.append(("atom%d" % i, at))
    for a, f in unary().items():
        for i, at in enumerate(atoms()):
            g = f(at)
            if valid(g): out.append(("s_%s_%d" % (a, i), g))
    return out


def binaries():
    out = []
    sh = shaped()
    tails = {"void": ign_("c"), "span": any_("bc"), "box": cap(any_("bc"), 1), "opt": may(all_("c")), "vec": plus(all_("c")), "tup": seq(all_("c"), any_("ab")), "voidm": vd(any_("bc"), 1), "int": num(any_("bc"), 1)}
    for a in sh:
        for b in tails:
            out.append(("then_%s_%s" % (a, b), seq(sh[a], tails[b])))
            out.append(("or_%s_%s" % (a, b), cho(complete(sh[a]), tails[b])))
    for a in sh:
        for b in ("void", "span", "box", "voidm", "tup", "int"):
            for m, f in (("delim", delim), ("delimk", delimk)):
                g = f(sh[a], tails[b])
                if valid(g): out.append(("%s_%s_%s" % (m, a, b), g))
    return out


def core():
    """grammars that between them reach every combinator in nesting, every result shape and the size extremes"""
    A, B, C, AB, X = all_("a"), all_("b"), all_("c"), any_("ab"), none_("ab")
    L = []
    add = lambda n, g: L.append((n, g))
    # choices: result-type bookkeeping
    add("cho_void_first", cho(ign_("z"), all_("ab"), all_("cd")))
    add("cho_void_mid", cho(all_("ab"), ign_("z"), all_("cd"), num(all_("e"))))
    add("cho_void_repeat", cho(ign_("a"), num(all_("b"), 1), cap(all_("c"), 1), ign_("d"), num(all_("e"), 2), cap(all_("f"), 1), all_("g"), all_("h")))
    add("cho_types_dup", cho(cap(all_("a"), 1), cap(all_("b"), 1), num(all_("c"), 1), num(all_("d"), 2), all_("e"), cap(all_("f"), 1), num(all_("g"), 3), cap(all_("h"), 2), cap(all_("i"), 2), all_("j")))
    add("cho_dup_far", cho(cap(A, 1), cap(B, 2), cap(C, 3), cap(all_("d"), 4), cap(all_("e"), 5), cap(all_("f"), 2), cap(all_("g"), 4), cap(all_("h"), 1), ign_("i"), cap(all_("j"), 5)))
    add("cho_eps_mid", seq(cho(eps(), all_("a")), all_("b")))
    add("cho_eps_last", seq(oreps(all_("a")), all_("b")))
    add("cho_eps_variant", seq(cho(num(all_("a")), cap(all_("b")), eps()), all_("c")))
    add("cho_prefix", cho(all_("a"), all_("ab"), all_("abc")))
    add("cho_prefix_long_first", cho(all_("abc"), all_("ab"), all_("a")))
    add("cho_seq_backtrack", cho(seq(all_("a"), all_("b"), all_("c")), seq(all_("a"), all_("b"), all_("d")), seq(all_("a"), any_("bc"))))
    add("cho_12", cho(*[seq(all_(chr(97 + i)), all_(chr(98 + i))) for i in range(12)]))
    add("cho_12_mixed", cho(*[(all_, ign_, lambda s: cap(all_(s), 1), lambda s: plus(all_(s)))[i % 4](chr(97 + i)) for i in range(12)]))
    add("cho_20_boxes", cho(*[cap(all_([97 + i]), i) for i in range(20)]))
    add("cho_nested_variant", cho(cap(all_("a"), 1), name(cho(num(all_("b")), cap(all_("c"), 2))), exa(1, cho(num(all_("d")), cap(all_("e"), 3)))))
    add("cho_void_only", cho(ign_("a"), ign_("bc"), ignore(plus(all_("d")))))
    add("cho_of_opt", cho(complete(may(A)), may(B)))
    add("cho_right", chor(all_("a"), cho(all_("b"), cap(all_("c"))), ign_("d")))
    add("cho_complete", seq(cho(complete(plus(AB)), star(AB)), oreps(C)))
    # sequences
    add("seq_12", seq(*[any_([97 + i % 4, 98 + i % 4]) for i in range(12)]))
    add("seq_12_void_mixed", seq(*[(ign_, any_, lambda s: cap(any_(s), 1), lambda s: may(all_(s)))[i % 4]("ab"[i % 2]) for i in range(12)]))
    add("seq_20", seq(*[cap(may(all_("ab"[i % 2])), i) for i in range(20)]))
    add("seq_all_fuse", seq(all_("ab"), all_("cd"), any_("e"), all_("f"), all_("gh")))
    add("seq_right", seqr(all_("ab"), all_("cd"), any_("e"), all_("f"), all_("gh")))
    add("seq_flatten", seq(seq(A, B, AB), seq(C, AB), seqr(AB, AB)))
    add("seq_late_fail", seq(plus(A), star(B), may(C), exa(2, AB), ign_("c"), all_("d")))
    add("seq_void_all", seq(ign_("a"), ignore(star(B)), ign_("c")))
    add("seq_single_nonvoid", seq(ign_("a"), plus(B), ign_("c")))
    add("seq_nested_tuple", seq(cap(A, 1), name(seq(A, AB)), exa(1, seq(B, AB))))
    add("seq_void_filter", seq(A, flt(ign_("b"), 1, 2), C))
    add("seq_void_filter_false", seq(A, flt(ign_("b"), 1, 1), C))
    add("seq_void_map", seq(A, vd(AB, 1), vd(ign_("c"), 2), cap(AB, 3)))
    add("cho_void_filter", cho(seq(A, flt(ign_("b"), 1, 1)), seq(A, B)))
    add("cho_void_map", cho(seq(vd(A, 1), B), seq(vd(A, 2), C), vd(plus(A), 3)))
    # repetitions
    add("rep_star_plus", star(seq(plus(A), may(B))))
    add("rep_plus_of_seq", plus(seq(AB, ign_("c"), may(C))))
    add("rep_nested", plus(seq(plus(seq(plus(A), B)), C)))
    add("rep_cho", star(cho(A, plus(B), seq(C, AB), ign_("d"))))
    add("rep_partial", plus(seq(A, B, C)))
    add("rep_then_same", seq(star(seq(A, B)), A, C))
    add("rep_eof", seq(plus(AB), C))
    add("rep_void", plus(cho(ign_("ab"), ign_("c"))))
    add("rep_flt", star(flt(AB, 5, 3)))
    add("exa_5", exa(5, AB))
    add("exa_17_seq", exa(17, seq(A, may(B))))
    add("exa_64", exa(64, any_("ab")))
    add("exa_nested", exa(3, exa(2, seq(A, may(B)))))
    add("exa_void", seq(exa(3, ign_("ab")), C))
    add("exa_backtrack", cho(cap(exa(4, AB), 1), cap(exa(2, AB), 2), AB))
    add("exa_vec", exa(2, plus(seq(A, B))))
    add("exa_opt", exa(4, may(A)))
    # delimit
    add("delim_basic", delim(AB, all_(",")))
    add("delim_trailing", seq(delim(AB, all_(",")), may(all_(","))))
    add("delim_multi", delim(plus(A), seq(all_(","), star(all_(" ")))))
    add("delim_keep", delimk(AB, any_("+-")))
    add("delim_keep_tuple", delimk(seq(A, may(B)), cho(all_("+"), seq(all_("-"), all_("-")))))
    add("delim_keep_void_d", delimk(AB, ign_(",")))
    add("delim_keep_void_p", delimk(ign_("a"), any_("+-")))
    add("delim_keep_void_both", delimk(ign_("a"), ign_(",")))
    add("delim_nested", delim(delim(AB, all_(",")), all_(";")))
    add("delim_keep_nested", delimk(delimk(AB, all_(",")), all_(";")))
    add("delim_cap", delimk(cap(plus(AB), 1), cap(any_(",;"), 2)))
    add("delim_d_prefix", delim(all_("a"), seq(all_("a"), all_("b"))))
    add("delim_null_d", delim(plus(A), may(B)) if valid(delim(plus(A), may(B))) else A)
    add("delim_null_p", delimk(star(A), B))
    add("delim_complete", complete(delim(AB, all_(","))))
    add("delim_flt", delimk(flt(AB, 1, 3), flt(any_(",;"), 2, 3)))
    # complete
    add("com_seq", complete(seq(A, star(AB))))
    add("com_inner", seq(A, cho(complete(plus(B)), seq(B, C))))
    add("com_star", complete(star(AB)))
    add("com_in_star", star(cho(complete(seq(A, B)), A, B)))
    # ignore
    add("ign_rich", seq(ignore(seq(plus(A), cap(B), may(C))), AB))
    add("ign_flt", seq(ignore(flt(AB, 1, 1)), C))
    add("ign_join", seq(ignore(join(seq(A, ign_("b"), C))), AB))
    # join
    for nm, g in (
        ("join_seq", seq(A, B, AB)), ("join_gap", seq(A, ign_("b"), C)), ("join_gap_end", seq(A, B, ign_("c"))), ("join_gap_start", seq(ign_("a"), B, C)),
        ("join_plus", plus(AB)), ("join_star", star(AB)), ("join_may", may(AB)), ("join_exa", exa(3, AB)), ("join_plus_lit", plus(all_("ab"))), ("join_star_lit", star(all_("abc"))),
        ("join_may_lit", may(all_("abc"))), ("join_exa_lit", exa(3, all_("ab"))), ("join_exa_1", exa(1, all_("ab"))), ("join_plus_none", plus(none_("a"))), ("join_star_none", star(none_("ab"))),
        ("join_plus_wide", plus(any_("abcdefghijklmnop"))), ("join_anything", star(anything())), ("join_deep", plus(seq(A, star(B), may(C)))),
        ("join_opt_mid", seq(A, may(B), C)), ("join_opt_gap", seq(may(A), ign_("b"), may(C))), ("join_vec_gap", plus(seq(A, ign_("b")))), ("join_vec_gap2", plus(seq(A, ignore(may(all_("b")))))),
        ("join_all_empty", seq(may(A), star(B))), ("join_empty_then_ign", seq(may(A), ign_("b"))), ("join_arr_vec", exa(2, seq(plus(A), B))), ("join_cho", cho(all_("ab"), join(plus(C)), join(seq(A, C)))),
        ("join_cho_eps", seq(oreps(A), plus(B))), ("join_delim", delim(AB, all_(","))), ("join_delim_null", delim(join(star(A)), B)), ("join_tuple_deep", seq(seq(A, name(seq(B, may(C)))), exa(1, seq(AB, star(C))))),
        ("join_join", seq(join(plus(A)), join(star(B)))), ("join_name", name(plus(AB))), ("join_flt", plus(flt(AB, 3, 4))), ("join_idn", idn(plus(AB), 1)), ("join_gap_join", seq(join(plus(A)), ign_("b"), join(plus(C)))),
        ("join_complete", complete(plus(AB))), ("join_optopt", may(seq(may(A), B))), ("join_eps_only", seq(oreps(A), oreps(B))), ("join_nested_join", seq(join(seq(A, B)), join(join(plus(C))))),
    ):
        g = join(g)
        if valid(g):
            add(nm, g)
            add(nm + "_ctx", seq(any_("xa"), g, may(any_("cx"))))
    add("join_fail_in_cho", cho(join(seq(A, ign_("b"), C)), join(seq(A, B, C)), A))
    add("join_fail_in_star", seq(star(join(seq(A, ignore(may(B)), C))), star(AB)))
    joined = lambda p: join(plus(p))
    # what is joined need not be where it was matched: views that a function narrowed, moved or repeated
    for i in range(5):
        for nm, g in (
            ("cut_first", seq(cut(joined(A), i), B)), ("cut_last", seq(B, cut(joined(A), i))), ("cut_mid", seq(A, cut(joined(B), i), C)), ("cut_both", seq(cut(joined(A), i), cut(joined(B), (i + 1) % 5))),
            ("cut_rep", plus(cut(all_("abc"), i))), ("cut_rep2", plus(cut(any_("ab"), i))), ("cut_arr", exa(3, cut(all_("ab"), i))), ("cut_opt", seq(may(cut(joined(A), i)), B, star(cut(all_("cc"), i)))), ("cut_only", cut(joined(AB), i)), ("cut_cut", seq(cut(cut(joined(A), i), (i + 2) % 5), B)),
            ("mix_list", cut(plus(AB), i)), ("mix_arr", cut(exa(3, AB), i)), ("mix_deep", cut(plus(seq(A, may(B))), i)), ("mix_list_ctx", seq(A, cut(plus(B), i), C)), ("mix_of_cut", cut(plus(cut(all_("ab"), (i + 1) % 5)), i)), ("mix_empty", cut(star(AB), i)), ("mix_opt", cut(exa(2, may(A)), i)),
        ):
            g = join(g)
            assert valid(g), nm
            add("join_%s%d" % (nm, i), g)
            if nm.startswith("cut_") and i < 3: add("join_%s%d_ctx" % (nm, i), seq(any_("xa"), g, may(any_("cx"))))
    add("cut_plain", seq(cut(joined(A), 0), cut(joined(B), 1), cut(C, 2)))
    add("cut_mix_plain", cut(plus(cut(all_("ab"), 1)), 0))
    # callbacks
    add("map_chain", num(cap(idn(plus(AB), 1), 2), 3))
    add("map_apply_tuple", acap(seq(A, may(B), plus(C)), 1))
    add("map_apply_array", acap(exa(3, AB), 1))
    add("map_apply_pair", acap(delimk(AB, any_(",;")), 1))
    add("map_apply_into", ainto(seq(cap(A, 1), num(B, 2)), 3))
    add("map_apply_void", seq(avd(seq(A, B, AB), 1) if valid(avd(seq(A, AB, AB), 1)) else vd(A), C))
    add("map_apply_flt", aflt(seq(AB, AB, may(C)), 1, 3))
    add("map_backtrack", cho(seq(cap(A, 1), cap(B, 2), C), seq(cap(A, 3), cap(B, 4)), cap(plus(A), 5)))
    add("map_delim_order", delimk(cap(A, 1), cap(B, 2)))
    add("map_in_ignore", seq(ignore(cap(A, 1)), cap(B, 2)))
    add("map_in_join", seq(join(idn(plus(A), 1)), cap(B, 2)))
    add("map_complete", complete(star(cap(AB, 1))))
    add("map_filter_chain", flt(flt(cap(AB, 1), 2, 3), 3, 4))
    add("map_filter_cho", cho(flt(cap(plus(AB), 1), 1, 2), flt(cap(plus(AB), 2), 2, 2), cap(star(AB), 3)))
    add("map_void_to_value", seq(cap(ign_("a"), 1), num(ign_("b"), 2)))
    add("map_vec_elems", cap(plus(cap(AB, 1)), 2))
    add("map_const_def", seq(const(A, 5), deflt(B, 3), into(plus(C), 2)))
    add("map_eps", seq(cap(oreps(A), 1), cap(eps(), 2), B))
    add("map_exa", cap(exa(3, cap(AB, 1)), 2))
    add("map_named", name(cap(name(A, "in"), 1), "out"))
    # literals and sets: size extremes
    add("lit_40", all_([97 + (i * 7) % 5 for i in range(40)]))
    add("lit_300", all_([97 + (i * i) % 4 for i in range(300)]))
    add("lit_same_20", all_("a" * 20))
    add("lit_repeat", plus(all_("aaaaaaab")))
    add("lit_fuse_long", seq(all_("abcdefgh"), all_("ijklmnopqrstuvwxyz"), all_("0123456789")))
    add("set_26", plus(any_(ext(26))))
    add("set_64", plus(any_(ext(64, 48))))
    add("set_none_64", plus(none_(ext(64, 60))))
    add("set_unsorted", plus(any_("zqmab")))
    add("set_dup", plus(any_("baabab")))
    add("set_high", plus(any_([-1, -128, -60, 127, 0, 97])))
    add("set_none_high", plus(none_([-1, -128, -60, 127, 0, 97])))
    add("lit_high", plus(all_([-1, 0, 97, -128])))
    add("lit_nul", seq(all_([97, 0, 98]), star(any_([0, 97]))))
    add("set_union", plus(cho(any_("abx"), any_("bcy"))))
    add("set_inter", plus(cho(none_("abx"), none_("bcx"))))
    add("set_mix1", plus(cho(any_("abx"), none_("bcx"))))
    add("set_mix2", plus(cho(none_("abx"), any_("bcx"))))
    add("set_3", plus(cho(any_("ab"), none_("bcd"), any_("c"))))
    add("set_not_cho", plus(not_(cho(any_("ab"), any_("cd")))))
    add("set_all_matches", star(cho(any_("ab"), none_("a"))))
    # optionals
    add("may_seq", seq(may(seq(A, B)), A))
    add("may_tuple_nest", may(seq(A, may(seq(B, may(C))))))
    add("may_name_may", may(name(may(A))))
    add("may_cho", may(cho(A, plus(B), cap(C))))
    add("may_vec", seq(may(plus(A)), may(exa(2, B)), may(delim(C, B))))
    # deep nesting
    d = AB
    for i in range(8): d = seq(may(d) if i % 2 else d, all_("abc"[i % 3]))
    add("deep_seq_may", d)
    d = A
    for i in range(10): d = name(cho(seq(d, B), A), "n%d" % i)
    add("deep_cho_seq", d)
    d = AB
    for i in range(6): d = plus(seq(name(d), all_("abc"[i % 3])))
    add("deep_plus", d)
    d = A
    for i in range(12): d = name(d, "k%d" % i)
    add("deep_name", d)
    d = all_("a")
    for i in range(7): d = cap(seq(d, may(any_("ab"))), i)
    add("deep_cap", d)
    # exponential traps
    d = A
    for i in range(12): d = cho(seq(name(d), B), name(d)) if i < 3 else seq(may(all_("a")), name(d))
    add("trap_cho", d)
    d = AB
    for i in range(18): d = join(name(d, "j%d" % i))
    add("trap_join", d)
    d = AB
    for i in range(18): d = complete(name(d, "c%d" % i)) if i % 2 else flt(name(d, "c%d" % i), i, 0)
    add("trap_complete", d)
    d = AB
    for i in range(16): d = exa(1, may(name(d)))
    add("trap_may", d)
    d = AB
    for i in range(14): d = seq(oreps(name(delim(d, all_(",")))), ign_("a")) if i % 7 == 6 else delim(name(d), all_(","))
    if valid(d): add("trap_delim", d)
    # rules without declared result types
    r = Rule(False); r.body = seq(A, plus(B), may(C))
    add("rule_plain", seq(rule(r), AB))
    add("rule_rep", plus(rule(r)))
    add("rule_join", join(seq(rule(r), AB)))
    r2 = Rule(False); r2.body = flt(cap(plus(AB), 1), 1, 3)
    add("rule_flt", cho(rule(r2), star(AB)))
    return [(n, g) for n, g in L if valid(g)]


def scale():
    """the same combinators at sizes where counters, tables and buffers of the usual widths end; run on inputs of such sizes, too"""
    A, B, C, AB = all_("a"), all_("b"), all_("c"), any_("ab")
    L = []
    add = lambda n, g: L.append((n, g))
    for n in (127, 128, 129, 255, 256, 257, 300, 1000): add("sc_exa_%d" % n, seq(exa(n, AB), may(A)))
    for n in (256, 300):
        add("sc_exa_seq_%d" % n, exa(n, seq(A, may(B))))
        add("sc_exa_void_%d" % n, seq(exa(n, ign_("a")), star(AB)))
        add("sc_exa_join_%d" % n, seq(join(exa(n, AB)), may(B)))
        add("sc_exa_join2_%d" % n, join(exa(n, seq(A, may(B)))))
        add("sc_exa_ign_%d" % n, seq(ignore(exa(n, AB)), AB))
    add("sc_exa_nested", exa(16, exa(17, AB)))
    add("sc_exa_4097", join(exa(4097, A)))
    for m, f in (("plus", plus), ("star", star)):
        for b, p in (("any", AB), ("none", none_("b")), ("lit", all_("ab")), ("seq", seq(A, may(B))), ("void", ign_("a")), ("num", num(AB)), ("opt", seq(may(A), B)), ("cho", cho(A, seq(B, C)))):
            add("sc_%s_%s" % (m, b), seq(f(p), may(C)))
            if b in ("any", "none", "lit", "seq"):
                add("sc_%s_join_%s" % (m, b), seq(join(f(p)), may(C)))
                add("sc_%s_ign_%s" % (m, b), seq(ignore(f(p)), may(C)))
    add("sc_plus_cap", plus(cap(AB, 1)))
    add("sc_cap_plus", cap(plus(AB), 1))
    add("sc_flt_plus", seq(may(flt(plus(AB), 1, 2)), star(any_("abc"))))
    add("sc_complete", cho(complete(plus(A)), complete(star(AB)), star(any_("abc"))))
    add("sc_delim", delim(A, B)); add("sc_delimk", delimk(A, B)); add("sc_delimk_void", delimk(ign_("a"), B)); add("sc_delim_lit", delim(all_("ab"), any_("ab")))
    add("sc_delim_tail", seq(delim(A, B), may(B), may(C)))
    add("sc_nested", plus(seq(plus(A), star(B))))
    add("sc_nested_join", join(plus(seq(plus(A), star(B)))))
    add("sc_anything", seq(star(anything()), may(A)))
    # many parts
    for n in (33, 65): add("sc_seq_%d" % n, seq(*[any_([97 + i % 3, 98 + i % 3]) for i in range(n)]))
    add("sc_seq_void_40", seq(*[(ign_, any_)[i % 2]("ab"[i // 2 % 2]) for i in range(40)]))
    add("sc_cho_34", cho(*[seq(all_([97 + i % 6, 97 + i // 6])) for i in range(34)]))
    add("sc_cho_130", cho(*[all_([97 + i % 6, 97 + i // 6 % 6, 97 + i // 36]) for i in range(130)]))
    add("sc_cho_types_20", cho(*[exa(i + 1, all_([97 + i % 3, 97 + i // 3])) for i in range(20)]))
    add("sc_cho_types_dup_34", cho(*[exa(i % 17 + 1, all_([97 + i % 6, 97 + i // 6])) if i % 5 else ign_([97 + i % 6, 97 + i // 6]) for i in range(34)]))
    # long literals, big sets
    for n in (127, 128, 255, 256, 257, 1000): add("sc_lit_%d" % n, seq(all_([97 + (i * i + i // 7) % 3 for i in range(n)]), may(A)))
    add("sc_lit_plus", plus(all_("a" * 129)))
    add("sc_lit_join", join(star(all_("ab" * 130))))
    add("sc_lit_fuse", seq(all_("ab" * 100), all_("ba" * 100), all_("a" * 100)))
    for n in (31, 32, 33, 63, 65, 127, 128): add("sc_set_%d" % n, seq(plus(any_([(i * 7) % 128 for i in range(n)])), may(none_([(i * 11 + 3) % 128 for i in range(n)]))))
    full = [(i * 37) % 256 - 128 for i in range(256)]
    for n in (129, 200, 255, 256): add("sc_any_%d" % n, seq(plus(any_(full[:n])), star(anything()))); add("sc_none_%d" % n, seq(star(none_(full[:n])), may(A)))
    return [(n, g) for n, g in L if valid(g)]


def recursive():
    L = []
    A, B, C, AB = all_("a"), all_("b"), all_("c"), any_("ab")
    r = Rule(); r.body = cho(seq(ign_("("), rule(r), ign_(")")), AB)
    L.append(("rec_parens", rule(r)))
    L.append(("rec_parens_complete", complete(rule(r))))
    r = Rule(); r.body = seq(ign_("["), star(rule(r)), ign_("]"))
    L.append(("rec_tree", rule(r)))
    L.append(("rec_tree_delim", delim(rule(r), all_(","))))
    r = Rule(); r.body = cho(seq(A, rule(r), B), seq(A, B))
    L.append(("rec_anbn", rule(r)))
    L.append(("rec_anbn_ctx", seq(rule(r), star(AB))))
    e, t, f = Rule(), Rule(), Rule()
    e.body = delimk(rule(t), any_("+-")); t.body = delimk(rule(f), any_("*/"))
    f.body = cho(seq(ign_("("), rule(e), ign_(")")), seq(ign_("-"), rule(f)), cap(plus(any_("01")), 1))
    L.append(("rec_expr", rule(e)))
    L.append(("rec_expr_complete", complete(rule(e))))
    p, q = Rule(), Rule()
    p.body = cho(seq(A, rule(q)), A); q.body = cho(seq(B, rule(p)), B)
    L.append(("rec_mutual", rule(p)))
    r = Rule(); r.body = cho(seq(cap(A, 1), rule(r)), cap(B, 2))
    L.append(("rec_right_cap", rule(r)))
    r = Rule(); r.body = seq(cho(A, ign_("b")), may(rule(r)))
    L.append(("rec_may", rule(r)))
    r = Rule(); r.body = cho(flt(cap(seq(A, may(rule(r))), 1), 1, 3), cap(B, 2))
    L.append(("rec_flt", rule(r)))
    r = Rule(); r.body = seq(A, star(rule(r)), B)
    L.append(("rec_dyck", star(rule(r))))
    L.append(("rec_join_in", seq(join(plus(AB)), ign_(","), rule(r))))
    r = Rule(); r.body = cho(seq(ign_("{"), may(delim(seq(plus(AB), ign_(":"), rule(r)), all_(","))), ign_("}")), seq(ign_("["), may(delim(rule(r), all_(","))), ign_("]")), join(plus(AB)))
    L.append(("rec_json", complete(rule(r))))
    L.append(("rec_json_part", rule(r)))
    r = Rule(); r.body = vd_body = cap(seq(A, ignore(may(rule(r)))), 1)
    L.append(("rec_ignored", rule(r)))
    r = Rule(); r.body = name(cho(exa(2, seq(ign_("a"), rule(r))), B), "two")
    L.append(("rec_binary", rule(r)))
    return [(n, g) for n, g in L if valid(g)]


def tokens(tk):
    """grammars whose values are instance-tracked; tk: 0 copyable+movable, 1 move-only, 2 copy-only, 3 and 4 the same but able to throw"""
    T = lambda p, i=0: tok(p, i, tk)
    A, B, C, AB = all_("a"), all_("b"), all_("c"), any_("ab")
    L = [
        ("t_one", T(AB)), ("t_seq", seq(T(A), T(B, 1), T(AB, 2))), ("t_seq_same", seq(T(A), T(B), T(AB))), ("t_may", seq(may(T(A)), T(B))), ("t_plus", plus(T(AB))), ("t_star", seq(star(T(A)), star(T(B, 1)))),
        ("t_exa", exa(3, T(AB))), ("t_exa_big", exa(20, T(AB))), ("t_cho", cho(seq(T(A), T(B)), seq(T(A), T(C)), T(A))), ("t_cho_var", cho(T(A, 1), T(B, 2), seq(T(C, 3), T(A, 1)))), ("t_cho_dup", cho(T(A, 1), T(B, 2), T(C, 1), ign_("d"))),
        ("t_delim", delim(T(AB), all_(","))), ("t_delimk", delimk(T(AB), T(any_(",;"), 1))), ("t_delimk_void", delimk(ign_("a"), T(any_(",;"), 1))), ("t_complete", complete(plus(T(AB)))),
        ("t_ignore", seq(ignore(T(A)), T(B))), ("t_flt", flt(T(AB), 1, 2)), ("t_flt_vec", flt(plus(T(AB)), 1, 2)), ("t_flt_seq", flt(seq(T(A), T(B)), 1, 2)), ("t_name", name(seq(T(A), T(B)))),
        ("t_pass", passt(T(AB), 1)), ("t_pass_vec", passt(plus(passt(T(AB), 1)), 2)), ("t_pass_tup", passt(seq(T(A), may(T(B))), 1)), ("t_map_drop", num(plus(T(AB)), 1)), ("t_map_void", seq(vd(T(A), 1), T(B))),
        ("t_apply", acap(seq(T(A), T(B), plus(T(C))), 1)), ("t_apply_arr", acap(exa(2, T(AB)), 1)), ("t_apply_pair", acap(delimk(T(AB), T(any_(",;"), 1)), 2)), ("t_nest", plus(seq(T(A), plus(T(B, 1)), may(T(C, 2))))),
        ("t_nest_var", plus(cho(T(A, 1), plus(T(B, 2)), seq(T(C, 3), T(AB, 1))))), ("t_nest_opt", may(seq(may(T(A)), exa(2, T(B))))), ("t_late_fail", seq(plus(T(A)), exa(2, T(B)), may(T(C)), T(all_("d")))),
        ("t_backtrack", cho(seq(plus(T(A)), all_("x")), seq(plus(T(A)), all_("y")), plus(T(A)))), ("t_chain", passt(passt(passt(T(AB), 1), 2), 3)), ("t_deep", may(name(may(name(plus(seq(T(A), B))))))),
        ("t_into", seq(into(T(A), 1), ainto(seq(T(B), T(C)), 2))), ("t_seq12", seq(*[T(any_("ab"), i % 3) for i in range(12)])), ("t_delim_nest", delim(delim(T(AB), all_(",")), all_(";"))),
        ("t_cho_in_seq", seq(cho(T(A, 1), T(B, 2)), cho(T(A, 1), T(B, 1)), may(cho(T(C, 3), plus(T(A, 1)))))), ("t_aflt", aflt(seq(T(A), T(AB)), 1, 2)), ("t_eps", seq(oreps(T(A)), T(B))),
    ]
    r = Rule(False); r.body = plus(T(AB)); L.append(("t_rule", seq(rule(r), may(T(C)))))
    return [("%s%d" % (n, tk), g) for n, g in L if valid(g)]


# ---------------------------------------------------------------- random grammars
class Rand:
    def __init__(self, rng, letters="abcd", callbacks=True, tk=None, rules=False):
        self.rng, self.letters, self.callbacks, self.tk, self.rules = rng, letters, callbacks, tk, rules
        self.open = []
        self.next = 0

    def ident(self):
        self.next = (self.next + 1) % 6
        return self.next

    def some(self, lo, hi):
        r = self.rng
        return "".join(r.choice(self.letters) for _ in range(r.randint(lo, hi)))

    def atom(self):
        r = self.rng
        x = r.random()
        if x < .3: return any_(self.some(1, 3))
        if x < .42: return none_(self.some(1, 3))
        if x < .72: return all_(self.some(1, 3))
        if x < .9: return ign_(self.some(1, 2))
        if x < .95: return not_(any_(self.some(1, 2)) if r.random() < .5 else none_(self.some(1, 2)))
        return anything()

    def gen(self, d):
        r = self.rng
        for _ in range(20):
            g = self.try_gen(d)
            if g is not None and valid_here(g): return g
        return self.atom()

    def try_gen(self, d):
        r = self.rng
        if d <= 0: return self.atom()
        if self.open and r.random() < .25: return rule(r.choice(self.open))
        ops = ["then"] * 6 + ["or"] * 5 + ["may"] * 2 + ["plus"] * 2 + ["star"] * 2 + ["exa", "delim", "delimk", "ignore", "complete", "join", "join", "name", "oreps", "seqn", "chon"]
        if self.callbacks == "cut": ops += ["cut"] * 4 + ["flt"]
        elif self.callbacks: ops += ["cap", "num", "vd", "idn", "cut", "cut", "flt", "flt", "into", "const", "deflt", "acap", "aflt", "ainto", "avd"]
        if self.tk is not None: ops += ["tok"] * 8 + ["pass"] * 3
        o = r.choice(ops)
        g = lambda k=1: self.gen(d - k)
        if o == "then": return N("then", g(), g())
        if o == "or": return N("or", g(), g())
        if o == "seqn": return (seq if r.random() < .6 else seqr)(*[g(2) for _ in range(r.randint(3, 5))])
        if o == "chon": return (cho if r.random() < .6 else chor)(*[g(2) for _ in range(r.randint(3, 5))])
        if o in ("may", "plus", "star", "ignore", "complete", "join", "oreps"): return N(o, g())
        if o == "name": return name(g(), "n%d" % r.randrange(3))
        if o == "exa": return exa(r.choice([1, 2, 2, 3, 4, 6]), g())
        if o in ("delim", "delimk"): return N(o, g(), g(2))
        i = self.ident()
        if o == "tok": return tok(g(), i, self.tk)
        if o == "pass": return passt(g(), i)
        if o in ("flt", "aflt"): return (flt if o == "flt" else aflt)(g(), i, r.choice([0, 2, 2, 3, 5]))
        return {"cap": cap, "num": num, "vd": vd, "idn": idn, "cut": cut, "into": into, "const": const, "deflt": deflt, "acap": acap, "ainto": ainto, "avd": avd}[o](g(), i)


def valid_here(g):
    """validity that tolerates rules whose bodies are still being built"""
    n = norm(g)
    return typed_open(n) and wf_open(n)


def typed_open(n):
    if n.k == "cus": return True
    if not all(typed_open(x) for x in n.kids): return False
    if n.k == "joi": return joinable(vtype(n.kids[0]))
    if n.k == "map":
        t = vtype(n.kids[0])
        if n.a["apply"]: return appliable(t)
        if n.a["kind"] in "dp": return t is not None
        if n.a["kind"] == "w": return cuttable(t)
    if n.k == "flt" and n.a["apply"]: return appliable(vtype(n.kids[0]))
    return True


def nullable_open(n):
    if n.k == "cus": return n.a["r"].body is None or nullable(n)
    if n.k in ("any", "none", "all"): return n.k == "all" and not n.a["codes"]
    if n.k in ("eps", "may", "star"): return True
    if n.k == "seq": return all(map(nullable_open, n.kids))
    if n.k == "cho": return any(map(nullable_open, n.kids))
    return nullable_open(n.kids[0])


def wf_open(n):
    if n.k in ("plus", "star") and nullable_open(n.kids[0]): return False
    if n.k == "del" and nullable_open(n.kids[0]) and nullable_open(n.kids[1]): return False
    return all(wf_open(x) for x in n.kids)


def random_grammar(seed, depth=4, callbacks=True, tk=None, rules=False, letters="abcd", minsize=5, maxsize=60):
    rng = random.Random(seed)
    for _ in range(200):
        R = Rand(rng, letters, callbacks, tk, rules)
        if rules:
            # recursive: rule bodies start by consuming, so recursion is guarded
            rs = [Rule() for _ in range(rng.randint(1, 3))]
            for r in rs: r._rand = True
            R.open = rs
            for r in rs:
                r.body = None
            ok = True
            for r in rs:
                alts = []
                for _ in range(rng.randint(1, 3)):
                    alts.append(N("then", R.nonnull_atom() if False else rng.choice([any_, all_, ign_])(R.some(1, 2)), R.gen(depth - 2)))
                alts.append(cap(rng.choice([any_, all_])(R.some(1, 1)), R.ident()))
                body = cho(*alts)
                r.body = body
            g = rng.choice([lambda: rule(rs[0]), lambda: seq(rule(rs[0]), R.gen(2)), lambda: complete(rule(rs[0])), lambda: plus(rule(rs[0])), lambda: R.gen(depth)])()
        else:
            g = R.gen(depth)
        if not (minsize <= size(g) <= maxsize): continue
        if rules:
            if not collect_rules(g): continue
            if any(r.body is None for r in collect_rules(g)): continue
            bad = False
            for r in collect_rules(g):
                if vtype(norm(r.body)) is None or nullable(norm(r.body)): bad = True
            if bad: continue
        if valid(g): return g
    return seq(any_("ab"), all_("a"))

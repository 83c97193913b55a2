"""C14 (texts of errors) and C16 (lazy and curried metafunctions)."""
import random

from . import gen as G
from . import grammar_check as GC
from . import model as M
from . import value_check as VC
from .checks_parsers import ASSUME, B, thorough, some, multi_line_text
from .checks_values import VB, CFGS, INTMAX, PREDS, bits, pos_cpp, rand_range
from .harness import CONFIGS

FIXED = {"digit_expected": M.M_DIGIT, "end_of_input_expected": M.M_END,
         "expected_to_fail": M.M_XFAIL, "letter_expected": M.M_LETTER,
         "none_of_the_expected_cases_found": M.M_NONE,
         "unexpected_character": M.M_UCHAR,
         "unexpected_end_of_input": M.M_UEOI,
         "whitespace_expected": M.M_SPACE}
IMIN, IMAX = -2**31, 2**31 - 1


def icpp(n):
    return "(-2147483647-1)" if n == IMIN else str(n)


def rint(r):
    return r.choice([IMIN, IMIN + 1, IMAX, IMAX - 1, 0, 1, -1, 9, 10, -10, 99,
                     100, 999, 1000, 1000000, -1000, r.randint(IMIN, IMAX),
                     r.randint(-200, 200), r.randint(-200, 200)])


def rmsg(r, depth=2, ns="mp::"):
    """(C++ type, text) of a random error message"""
    k = r.randrange(6 if depth else 4)
    if k == 0:
        n = r.choice(sorted(FIXED))
        return ns + "error::" + n, FIXED[n].encode()
    if k == 1:
        c = r.randrange(256)
        return (ns + "error::literal_expected<%s>" % M.cc(c),
                b"Expected: " + bytes([c]))
    if k == 2:
        a, b, n = rint(r), rint(r), rint(r)
        return (ns + "error::index_out_of_range<%s, %s, %s>" % (
            icpp(a), icpp(b), icpp(n)),
            b"index (%d) out of range [%d-%d]" % (n, a, b))
    if k == 3:
        n = r.randrange(1000)
        return "vr::msg<%d>" % n, b"m%d" % n
    l, c = rint(r), rint(r)
    t, s = rmsg(r, depth - 1, ns)
    x = s + b" (see %d:%d)" % (l, c)
    if k == 4:
        return ns + "error::unpaired<%s, %s, %s >" % (icpp(l), icpp(c), t), x
    return ns + "error::unpaired<%s, %s >::apply<%s >::type" % (
        icpp(l), icpp(c), t), x


def rtext(r):
    n = r.choice([0, 1, 2, 5, 20, 80, 300])
    k = r.randrange(3)
    if k == 0:
        return bytes(r.randint(32, 126) for _ in range(n))
    if k == 1:
        return bytes(r.randint(1, 255) for _ in range(n))
    return bytes(r.choice(b"%sdn\\\"'?{}()<>;,#\n\t /*") for _ in range(n))


def lit_cpp(r, bs):
    """an ordinary string literal (VB.add rewrites >>, hence the escape)"""
    o = []
    for b in bs:
        plain = 32 <= b < 127 and b not in b'"\\\\?>'
        if plain and r.random() < 0.9:
            o.append(chr(b))
        else:
            o.append("\\%03o" % b)
    return '"%s"' % "".join(o)


def c14(h):
    v = VB(h, "text", 1)
    for name in CFGS:
        cfg = CONFIGS[name]
        r = v.rng(cfg)
        # every literal
        cs = list(range(256))
        for ns in ["mp::", "mp::v1::"]:
            v.add(cfg, "", ['vr::valx(@, "lit/%d", %serror::literal_expected<'
                            '%s>::get_value());' % (c, ns, M.cc(c))
                            for c in cs],
                  {"lit/%d" % c: VC.hexs(b"Expected: " + bytes([c]))
                   for c in cs}, "texts of %sliteral_expected" % ns)
        stms, exp = [], {}
        for n, t in sorted(FIXED.items()):
            for ns in ["mp::", "mp::v1::"]:
                stms.append('vr::valx(@, "%s%s", %serror::%s::get_value());'
                            % (ns, n, ns, n))
                exp[ns + n] = VC.hexs(t.encode())
                stms.append('vr::valx(@, "%s%s/type", %serror::%s::type::'
                            'get_value());' % (ns, n, ns, n))
                exp[ns + n + "/type"] = VC.hexs(t.encode())
        v.add(cfg, "", stms, exp, "texts of the predefined errors")
        # composed messages, read twice, and through reject and the getters
        for _ in range(thorough(h, 25, 200)):
            decl, stms, exp = [], [], {}
            for k in range(6):
                t, x = rmsg(r, r.choice([0, 1, 2, 4]),
                            r.choice(["mp::", "mp::v1::"]))
                st, stc = G.start_pos(r)
                decl.append("  typedef %s m%d;\n  typedef %s p%d;\n  typedef "
                            "mp::reject<m%d, p%d > e%d;" % (
                                t, k, stc, k, k, k, k))
                for q in ("a", "b"):
                    stms.append('vr::valx(@, "%s%d", m%d::get_value());'
                                % (q, k, k))
                    exp["%s%d" % (q, k)] = VC.hexs(x)
                stms.append('vr::valx(@, "g%d", mp::get_message<e%d>::type::'
                            'get_value());' % (k, k))
                exp["g%d" % k] = VC.hexs(x)
                stms.append('vr::val(@, "s%d", boost::is_same<mp::get_message<'
                            'e%d>::type, m%d>::value);' % (k, k, k))
                exp["s%d" % k] = 1
                stms.append('vr::valp<mp::get_position<e%d>::type>(@, "p%d");'
                            % (k, k))
                exp["p%d" % k] = "%d:%d:%d" % st
                stms.append('vr::val(@, "t%d", boost::is_same<mp::get_position'
                            '<e%d>::type, p%d::type>::value);' % (k, k, k))
                exp["t%d" % k] = 1
            v.add(cfg, "\n".join(decl), stms, exp,
                  "messages " + "; ".join(decl)[:160])
        # errors defined by the user
        for _ in range(thorough(h, 8, 60)):
            decl, stms, exp = [], [], {}
            for k in range(5):
                x = rtext(r)
                decl.append("  BOOST_METAPARSE_%sDEFINE_ERROR(d%d, %s);" % (
                    r.choice(["", "V1_"]), k, lit_cpp(r, x)))
                w = r.choice(["d%d", "mp::get_message<mp::fail<d%d>::apply<"
                              "mp::string<'x'>, mp::start>::type>::type",
                              "mp::get_message<mp::reject<d%d, mp::start> >::"
                              "type"]) % k
                stms.append('vr::valx(@, "%d", %s::get_value());' % (k, w))
                exp["%d" % k] = VC.hexs(x)
                stms.append('vr::val(@, "s%d", boost::is_same<d%d::type, d%d>::'
                            'value);' % (k, k, k))
                exp["s%d" % k] = 1
            v.add(cfg, "\n".join(decl), stms, exp,
                  "user-defined errors " + " ".join(decl)[:160])
    VC.run_vcases(h, v.cases, batch=5, stat="texts and positions observed")

    # propagation: rejections made deep inside arrive unchanged outside
    b = B(h, "prop", 1000000)
    for name in CFGS:
        cfg = CONFIGS[name]
        r = b.rng(cfg)
        for _ in range(thorough(h, 60, 400)):
            pre = multi_line_text(r, r.choice([0, 1, 4, 9]), b"ab")
            for _ in range(100):
                g = G.Gen(r, cfg.fam)
                x = r.random()
                try:
                    if x < 0.25:
                        core = M.lit_c(r.randrange(256))
                    elif x < 0.45:
                        n = r.choice([-1000, -1, 3, 4, 10, 2**31 - 2])
                        core = M.nth_of(n, [M.one_char()] * 3,
                                        r.random() < 0.5)
                    elif x < 0.6:
                        core = M.middle_of(M.lit_c(40), M.one_char(),
                                           M.lit_c(r.choice([41, 0, 200])))
                    elif x < 0.75:
                        core = M.fail(r.randrange(900))
                    else:
                        core = g.make(r.choice(G.ALL), 2)
                        if core.kind == "void":
                            core = M.always(core, 1)
                    node = wrap_error(r, core, pre)
                    t = pre + r.choice([b"", b"(xy", b"(x", b"aa",
                                        g.text(core, 6)])
                    if len(t) > 32 or len(node.cpp) > 3500:
                        continue
                    e = node.run(M.Ctx(M.Input(t), cfg.fam), 0)
                except (M.ModelLimit, RecursionError):
                    continue
                if e.err:
                    break
            else:
                continue
            b.add(cfg, node, t)
    GC.run_cases(h, b.cases, batch=20)
    return h.finish(
        "literal_expected for all 256 characters, every predefined error, "
        "index_out_of_range and (nested, curried) unpaired with random and "
        "extreme numbers, BOOST_METAPARSE_DEFINE_ERROR with random texts "
        "(escapes, bytes >= 0x80, 0..300 characters), read directly, through "
        "reject and get_message/get_position, and through random parsers that "
        "propagate a rejection made up to 8 levels deeper.  Every text or "
        "position is one evaluation.",
        ASSUME + ["texts given to DEFINE_ERROR contain no NUL",
                  "global C++ locale is the classic one"], min_eval=2000)


def wrap_error(r, node, pre):
    """parsers that have to hand an error of node on (or change it as
    documented)"""
    first = True
    for _ in range(r.randint(1, 8)):
        k = r.randrange(11)
        if k == 0:
            node = M.transform(node, r.randrange(99))
        elif k == 1:
            node = M.always(node, r.randrange(99))
        elif k == 2:
            node = M.first_of([node, M.one_char()])
        elif k == 3:
            node = M.last_of([M.return_(1), node])
        elif k == 4:
            node = M.sequence([node, M.return_(3)])
        elif k == 5:
            node = M.token(node)
        elif k == 6:
            node = M.one_of([node, M.fail(7)] if r.random() < .5 else
                            [M.fail(7), node])
        elif k == 7:
            node = M.repeated(node, True)
        elif k == 8:
            node = M.fold(r.choice("lr"), node, 1, 2, True, r.random() < .5)
        elif k == 9:
            node = M.transform_error_message(node, r.randrange(99))
        elif pre and first:
            node = M.last_of([M.iterate(M.one_char(), len(pre)), node])
            first = False
        if len(node.cpp) > 3000:
            break
    if pre and first:
        node = M.last_of([M.iterate(M.one_char(), len(pre)), node])
    return node


# -------------------------------------------------------------------- C16

def lz(r, t, zero=True):
    """t or a nullary metafunction that evaluates to it"""
    n = r.choice(([0, 0] if zero else []) + [1, 1, 2, 3, 7, 40])
    # vr::lazy<0, T> is already one level away from T
    return t if n == 0 else "vr::lazy<%d, %s >" % (n - 1, t)


def rstr(r, fam):
    bs = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 12])))
    return M.string_cpp(bs), bs


def c16(h):
    v = VB(h, "lazy", 1)
    SAME = 'vr::val(@, "%s", boost::is_same<%s, %s >::value);'
    U = "mp::util::"
    for name in CFGS:
        cfg = CONFIGS[name]
        r = v.rng(cfg)
        for _ in range(thorough(h, 30, 250)):
            s, bs = rstr(r, cfg.fam)
            m, mt = rmsg(r, 1)
            st = (r.choice([1, 2, 77]), r.choice([1, 5, 1000]),
                  r.choice([0, 10, 13, 97, -1]))
            k = r.randrange(99)
            decl = ["  typedef %s S;" % s, "  typedef %s Q;" % pos_cpp(st),
                    "  typedef vr::atom<%d> R;" % k, "  typedef %s M;" % m,
                    "  typedef mp::accept<R, %s, %s > A;" % (lz(r, "S"),
                                                           lz(r, "Q")),
                    "  typedef mp::reject<M, %s > E;" % lz(r, "Q"),
                    "  typedef mp::accept<R, S, Q> A0;",
                    "  typedef mp::reject<M, Q> E0;"]
            stms, exp = [], {}

            def same(key, a, b, want=1):
                stms.append(SAME % (key, a, b))
                exp[key] = want

            # accept and reject as lazy metafunctions
            same("accept", "A::type", "A0")
            same("accept2", "A::type::type", "A0")
            same("reject", "E::type", "E0")
            same("reject2", "E::type::type", "E0")
            for n in range(3):
                # (a lazy accept is itself a nullary metafunction)
                a = r.choice(["A", lz(r, "A0")])
                e = r.choice(["E", lz(r, "E0")])
                p = lz(r, "Q")
                same("res%d" % n, "mp::get_result<%s >::type" % a, "R")
                same("rem%d" % n, "mp::get_remaining<%s >::type" % a, "S")
                same("posA%d" % n, "mp::get_position<%s >::type" % a, "Q")
                same("posE%d" % n, "mp::get_position<%s >::type" % e, "Q")
                same("msg%d" % n, "mp::get_message<%s >::type" % e, "M")
                for w in (p, "mp::get_position<%s >" % e):
                    t = "p" if w == p else "g"
                    for key, g, x in [("line", "get_line", st[0]),
                                      ("col", "get_col", st[1]),
                                      ("prev", "get_prev_char", st[2])]:
                        stms.append('vr::val(@, "%s%s%d", mp::%s<%s >::type::'
                                    'value);' % (key, t, n, g, w))
                        exp["%s%s%d" % (key, t, n)] = x
                c = r.choice([0, 10, 13, 97, -1, -128])
                C = M.boxc(c & 255)
                for op, x in [("next_char", (st[0], st[1] + 1, c)),
                              ("next_line", (st[0] + 1, 1, c))]:
                    stms.append('vr::valp<mp::%s<%s, %s >::type>(@, "%s%d");'
                                % (op, p, lz(r, C), op, n))
                    exp["%s%d" % (op, n)] = "%d:%d:%d" % x
                    stms.append('vr::valp<mp::%s<%s, %s >::type>(@, "%sg%d");'
                                % (op, "mp::get_position<%s >" % a,
                                   "mp::get_prev_char<%s >" % p, op, n))
                    exp["%sg%d" % (op, n)] = "%d:%d:%d" % (x[0], x[1], st[2])
                for what, arg, want in [("A", a, 0), ("E", e, 1),
                                        ("I", lz(r, "mpl::int_<3>"), 0)]:
                    for form, ex in [
                            ("d", "mp::is_error<%s >" % arg),
                            ("c", "mp::is_error<>::apply<%s >" % arg),
                            ("t", "mp::is_error<>::type::apply<%s >" % arg),
                            ("m", "mpl::apply<mp::is_error<>, %s >" % arg)]:
                        key = "is_error%s%s%d" % (what, form, n)
                        stms.append('vr::val(@, "%s", %s::type::value);' %
                                    (key, ex))
                        exp[key] = want
                # unless_error: the second argument is only evaluated when
                # the first one is not an error
                same("unlE%d" % n, "mp::unless_error<%s, vr::trap<%s > >::type"
                     % (e, r.choice(["A", "E", "R"])), "E0")
                tgt = r.choice(["A0", "E0", "R"])
                same("unlA%d" % n, "mp::unless_error<%s, %s >::type"
                     % (a, lz(r, tgt)), tgt)
                same("unlN%d" % n, "mp::unless_error<mp::unless_error<%s, %s >"
                     ", %s >::type" % (a, e, r.choice(
                         ["vr::trap<R>", "vr::trap<A>"])), "E0")
                same("unlM%d" % n, "mp::unless_error<mp::unless_error<%s, %s >"
                     ", %s >::type" % (a, a, lz(r, tgt)), tgt)
            v.add(cfg, "\n".join(decl), stms, exp,
                  "values of " + " ".join(decl)[:200])
        # unevaluated parser applications as arguments
        for _ in range(thorough(h, 15, 150)):
            while True:
                g = G.Gen(r, cfg.fam)
                try:
                    node = g.make(r.choice(G.ALL), r.randint(1, 2))
                    if node.kind == "void":
                        node = M.always(node, 3)
                    t = g.text(node, 10)[:32]
                    if len(node.cpp) > 2000:
                        continue
                    st, stc = G.start_pos(r)
                    inp = M.Input(t, st)
                    e = node.run(M.Ctx(inp, cfg.fam), 0)
                    break
                except (M.ModelLimit, RecursionError):
                    continue
            decl = ["  typedef %s P;" % node.cpp, "  typedef %s S;" %
                    M.string_cpp(t), "  typedef %s Q;" % stc,
                    "  struct L : P::apply<S, Q> {};",
                    "  typedef P::apply<S, Q> N;"]
            stms, exp = [], {}
            for n, a in enumerate(["N", "L", lz(r, "N::type"),
                                   lz(r, "L::type"), "N::type"]):
                stms.append('vr::val(@, "err%d", mp::is_error<%s >::type::'
                            'value);' % (n, a))
                exp["err%d" % n] = int(e.err)
                stms.append('vr::valp<mp::get_position<%s > >(@, "pos%d");'
                            % (a, n))
                exp["pos%d" % n] = "%d:%d:%d" % inp.pos[e.i]
                if not e.err:
                    stms.append('vr::vald<mp::get_result<%s >::type>(@, '
                                '"res%d");' % (a, n))
                    exp["res%d" % n] = e.val
                    stms.append('vr::val(@, "rem%d", mpl::size<mp::'
                                'get_remaining<%s >::type>::type::value);'
                                % (n, a))
                    exp["rem%d" % n] = len(t) - e.i
                elif len(e.msgs) == 1:
                    stms.append('vr::valx(@, "msg%d", mp::get_message<%s >::'
                                'type::get_value());' % (n, a))
                    exp["msg%d" % n] = VC.hexs(
                        sorted(e.msgs)[0].encode("latin-1"))
                alt = r.choice(["vr::atom<5>", "mp::accept<vr::atom<6>, S, Q>"])
                stms.append(SAME % (
                    "unl%d" % n, "mp::unless_error<%s, %s >::type" % (
                        a, ("vr::trap<%s >" if e.err else "vr::lazy<2, %s >")
                        % alt), "N::type" if e.err else alt + "::type"))
                exp["unl%d" % n] = 1
            v.add(cfg, "\n".join(decl), stms, exp,
                  "unevaluated %s on %r" % (node.cpp, t))
        # predicates and conversions
        for p, ok in PREDS:
            decl, stms, exp = [], [], {}
            for n, (form, deep) in enumerate(
                    [("%s%s<%s >", d) for d in (0, 1, 2, 8)] +
                    [("%s%s<>::apply<%s >", d) for d in (0, 1, 5)] +
                    [("%s%s<>::type::template apply<%s >", 1),
                     ("mpl::apply<%s%s<>, %s >", 2)]):
                a = "C" if deep == 0 else "vr::lazy<%d, C>" % (deep - 1)
                decl.append("  struct F%d { template <class C> struct apply : "
                            "%s {}; };" % (n, form.replace("template ", "")
                                           % (U, p, a)))
                stms.append('vr::pred<F%d>(@, "form%d");' % (n, n))
                exp["form%d" % n] = bits(ok)
            v.add(cfg, "\n".join(decl), stms, exp, "lazy " + U + p)
        stms, exp = [], {}
        for d in range(10):
            C, I = M.boxc(48 + d), M.boxi(d)
            for f, x, w in [("digit_to_int", C, d), ("int_to_digit", I, 48 + d)]:
                for n, ex in enumerate([
                        "%s%s<%s >" % (U, f, lz(r, x, False)),
                        "%s%s<>::apply<%s >" % (U, f, lz(r, x)),
                        "%s%s<>::type::apply<%s >" % (U, f, lz(r, x)),
                        "mpl::apply<%s%s<>, %s >" % (U, f, lz(r, x))]):
                    key = "%s%d/%d" % (f, d, n)
                    stms.append('vr::val(@, "%s", %s::type::value);' % (key,
                                                                       ex))
                    exp[key] = w
        v.add(cfg, "", stms, exp, "lazy and curried conversions")
        # in_range: the arguments in any grouping
        for _ in range(thorough(h, 6, 40)):
            stms, exp = [], {}
            for q in range(4):
                lo, hi = rint(r), rint(r)
                lo, hi = [max(-INTMAX, min(INTMAX, z)) for z in (lo, hi)]
                if lo > hi and r.random() < 0.8:
                    lo, hi = hi, lo
                x = r.choice([lo, hi, min(INTMAX, hi + 1), max(-INTMAX, lo - 1),
                              0, (lo + hi) // 2])
                a, b, c = ["mpl::int_<%d>" % z for z in (lo, hi, x)]
                for n, ex in enumerate([
                        "in_range<%s, %s, %s >" % (a, b, c),
                        "in_range<>::apply<%s, %s, %s >" % (a, b, c),
                        "in_range<%s >::apply<%s, %s >" % (a, b, c),
                        "in_range<%s, %s >::apply<%s >" % (a, b, c),
                        "in_range<>::apply<%s >::type::apply<%s >::type::apply"
                        "<%s >" % (a, b, c),
                        "in_range<>::apply<%s, %s >::type::apply<%s >"
                        % (a, b, c),
                        "in_range<>::apply<%s >::type::apply<%s, %s >"
                        % (a, b, c),
                        "in_range<%s >::type::apply<%s >::type::apply<%s >"
                        % (a, b, c),
                        "in_range_c<int, %d, %d>::apply<%s >" % (
                            lo, hi, lz(r, c))]):
                    key = "%d/%d" % (q, n)
                    stms.append('vr::val(@, "%s", %s%s::type::value);'
                                % (key, U, ex))
                    exp[key] = int(lo <= x <= hi)
            v.add(cfg, "", stms, exp, "in_range in pieces: " + str(stms)[:150])
        stms, exp = [], {}
        for n in range(8):
            m, x = rmsg(r, 1)
            l, c = rint(r), rint(r)
            for f, ex in enumerate([
                    "unpaired<%s, %s >::apply<%s >" % (icpp(l), icpp(c), m),
                    "unpaired<%s, %s >::type::apply<%s >" % (icpp(l), icpp(c),
                                                             m)]):
                stms.append(SAME % ("%d/%d" % (n, f), "mp::error::" + ex +
                                    "::type", "mp::error::unpaired<%s, %s, %s "
                                    ">" % (icpp(l), icpp(c), m)))
                exp["%d/%d" % (n, f)] = 1
        v.add(cfg, "", stms, exp, "curried unpaired")
    VC.run_vcases(h, v.cases, batch=5, stat="values observed")
    return h.finish(
        "accept and reject values and real parser applications, evaluated and "
        "wrapped in 0..40 levels of nullary metafunctions, through every "
        "getter, next_char, next_line, is_error and unless_error (with a "
        "second argument whose evaluation would not compile when it must not "
        "be evaluated); predicates over all 256 characters, conversions, "
        "in_range in every split of its arguments, unpaired.  Every logged "
        "value or type comparison is one evaluation.", ASSUME, min_eval=3000)

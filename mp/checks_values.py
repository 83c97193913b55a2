"""C02, C08, C09, C14, C16: values of parsers, predicates, positions, errors
and metafunctions, observed at run time."""
import random

from . import gen as G
from . import grammar_check as GC
from . import model as M
from . import value_check as VC
from .checks_parsers import ASSUME, B, thorough, some, multi_line_text
from .harness import CONFIGS

CFGS = ["g98", "g11", "g14", "g17", "c98", "c17"]


class VB:
    def __init__(self, h, salt, first):
        self.h = h
        self.salt = salt
        self.id = first
        self.cases = []

    def rng(self, cfg):
        return random.Random("%s/%s/%s/%d" % (self.h.prop, self.salt,
                                              cfg.name, self.h.seed))

    def add(self, cfg, decl, stms, exp, desc):
        """stms: a list of C++ statements with %d for the case id"""
        stm = "\n".join("  " + s.replace("(@,", "(%d," % self.id) for s in stms)
        stm = stm.replace(">>", "> >").replace(">>", "> >")
        decl = decl.replace(">>", "> >").replace(">>", "> >")
        c = VC.VCase(self.id, cfg, decl, stm, exp, desc)
        self.cases.append(c)
        self.id += 1
        return c


# -------------------------------------------------------------------- C02

def sweep_cases(h, cfg, items, first):
    """items: (node, start, start_cpp, next byte)"""
    out = []
    for n, (node, st, stc, nx) in enumerate(items):
        cid = first + n
        decl = "  typedef %s P;\n  typedef %s Q;" % (node.cpp, stc)
        stm = "  vr::sweep<P, Q, %s>(%d);" % (M.cc(nx), cid)
        out.append((cid, decl, stm, node, st, nx, cfg))
    return out


def run_sweeps(h, sweeps, batch=3):
    groups = {}
    for s in sweeps:
        groups.setdefault(s[6].name, []).append(s)
    h.precompile_all({s[6].name: s[6] for s in sweeps}.values())
    batches = []
    for name, ss in groups.items():
        for i in range(0, len(ss), batch):
            batches.append(ss[i:i + batch])

    def one(ss):
        if len(h.violations) > 40:
            return ss, {s[0]: ("skip", "") for s in ss}
        return ss, h.run_batch(ss[0][6], [s[:3] for s in ss])

    for ss, obs in h.map(one, batches):
        for s in ss:
            judge_sweep(h, s, obs[s[0]])


def judge_sweep(h, s, o):
    cid, decl, stm, node, st, nx, cfg = s
    if o[0] == "skip":
        return
    src = lambda: h.tu([s[:3]])
    if o[0] != "log":
        h.eval((node.cpp, cfg.name))
        h.violation("%s: %s" % ({"nocompile": "does not compile", "crash":
                                 "sanitizer report"}.get(o[0], o[0]),
                                node.cpp), cfg, src(), "256 outcomes",
                    o[1][:1500])
        return
    rows = {int(l[2]): l[3:] for l in o[1] if l[0] == "W"}
    h.count("sweeps of all 256 characters in " + cfg.name)
    for b in range(256):
        inp = M.Input(bytes([b, nx]), st)
        e = node.run(M.Ctx(inp, cfg.fam), 0)
        h.eval((node.cpp, b, st, cfg.name))
        r = rows.get(b)
        if r is None:
            h.violation("no outcome logged for byte %d: %s" % (b, node.cpp),
                        cfg, src(), "an outcome", "none")
            continue
        h.count("accepted characters" if r[0] == "A" else
                "rejected characters")
        pos = tuple(map(int, r[-3:]))
        if e.err:
            m = "" if r[1] == "-" else r[1]
            ok = r[0] == "E" and pos == inp.pos[e.i] and \
                bytes.fromhex(m).decode("latin-1") in e.msgs
        else:
            ok = r[0] == "A" and r[1] == e.val and \
                int(r[2]) == 2 - e.i and pos == inp.pos[e.i]
        if not ok:
            h.violation("%s on a text that begins with byte %d" %
                        (node.cpp, b), cfg, src(), GC.render(inp, e),
                        " ".join(r))
    h.sample({"config": cfg.name, "parser": node.cpp,
              "observed": "256 first characters, %d accepted" %
              sum(1 for r in rows.values() if r[0] == "A")})


PREDS = [("is_digit", M.is_digit), ("is_letter", M.is_letter),
         ("is_lcase_letter", M.is_lower), ("is_ucase_letter", M.is_upper),
         ("is_whitespace", M.is_ws)]


def bits(ok):
    return "".join("1" if ok(b) else "0" for b in range(256))


def rand_range(r):
    x = r.random()
    if x < 0.2:
        a = r.randrange(256)
        return a, a
    if x < 0.3:
        a, b = r.choice([(128, 127), (255, 0), (128, 255), (0, 127), (10, 13),
                         (32, 126), (254, 1)])
        return a, b
    if x < 0.36:    # empty range
        a, b = sorted([r.randrange(256), r.randrange(256)], key=M.sc)
        return b, a
    a, b = sorted([r.randrange(256), r.randrange(256)], key=M.sc)
    return a, b


def c02(h):
    sweeps = []
    first = 1
    lim = {}
    for base, a, e in [("g98", 8, 3), ("c98", 14, 17)]:
        c = CONFIGS[base].derive("%slim%d" % (base, a), [
            "-DBOOST_METAPARSE_LIMIT_ONE_OF_SIZE=%d" % a,
            "-DBOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE=%d" % e])
        lim[c.name] = (c, a, e)
    for name in CFGS + list(lim):
        cfg = lim[name][0] if name in lim else CONFIGS[name]
        r = random.Random("C02/%s/%d" % (name, h.seed))
        nodes = [] if name in lim and h.tier != "thorough" else [M.one_char(), M.digit(), M.letter(), M.alphanum(), M.space()]
        for _ in range(thorough(h, 0 if name in lim else 3, 40)):
            nodes.append(M.lit_c(r.randrange(256)))
            nodes.append(M.lit(r.randrange(256)))
        for _ in range(thorough(h, 0 if name in lim else 3, 40)):
            nodes.append(M.range_c(*rand_range(r)))
            nodes.append(M.range_(*rand_range(r)))
        top1, top2 = (20, 10) if cfg.fam == "98" else (40, 40)
        if name in lim:
            top1, top2 = lim[name][1:]
        ar = range(0, top1 + 1)
        for a in (ar if h.tier == "thorough" else
                  sorted(set([r.choice([0, 1]), 2, top1] + some(r, ar, 3)))):
            bs = [r.randrange(256) for _ in range(a)]
            if r.random() < 0.3 and a > 1:
                bs[-1] = bs[0]
            nodes.append(M.one_of_c(bs))
        ar = range(0, top2 + 1)
        for a in (ar if h.tier == "thorough" else
                  sorted(set([r.choice([0, 1]), 2, top2] + some(r, ar, 3)))):
            nodes.append(M.one_char_except_c([r.randrange(256)
                                              for _ in range(a)]))
            nodes.append(M.one_char_except([r.randrange(256)
                                            for _ in range(a)]))
        items = []
        for n in nodes:
            st, stc = G.start_pos(r)
            items.append((n, st, stc, r.choice([10, 13, 0, 97, 48, 255])))
        sweeps += sweep_cases(h, cfg, items, first)
        first += len(items)
    run_sweeps(h, sweeps)

    # every literal character, its own text, neighbours and the empty input
    b = B(h, "lit", 1000000)
    for name in thorough(h, ["g98", "g17", "c98", "c17"], CFGS):
        cfg = CONFIGS[name]
        r = b.rng(cfg)
        for c in (range(256) if h.tier == "thorough" else
                  some(r, range(256), 90)):
            for mk in ([M.lit_c, M.lit] if h.tier == "thorough" else
                       [r.choice([M.lit_c, M.lit])]):
                b.add(cfg, mk(c), bytes([c, r.randrange(256)]), (1, 1, 0),
                      "mp::start")
                x = r.choice([(c + 1) % 256, (c - 1) % 256, c ^ 128, c ^ 32])
                b.add(cfg, mk(c), bytes([x]))
                if r.random() < 0.2:
                    b.add(cfg, mk(c), b"")
        for n in [M.one_char(), M.digit(), M.letter(), M.alphanum(),
                  M.space(), M.range_c(97, 122), M.range_(48, 57),
                  M.one_of_c([97]), M.one_of_c([97, 98, 99]),
                  M.one_char_except_c([97]), M.one_char_except([97, 98]),
                  M.digit_val(), M.int_()]:
            for _ in range(3):
                b.add(cfg, n, b"")
        # other carriers of the text
        for _ in range(thorough(h, 40, 200)):
            g = G.Gen(r, cfg.fam)
            n = g.terminal()
            b.add(cfg, n, bytes([g.ch() for _ in range(r.randint(0, 3))]))
    GC.run_cases(h, b.cases, batch=40)

    # predicates
    v = VB(h, "pred", 3000000)
    U = "mp::util::"
    for name in thorough(h, ["g98", "g17", "c98", "c17"], CFGS):
        cfg = CONFIGS[name]
        r = v.rng(cfg)
        for p, ok in PREDS:
            decl = ("  struct F1 { template <class C> struct apply : %s%s<C> "
                    "{}; };\n  typedef %s%s<> F2;" % (U, p, U, p))
            stms = ['vr::pred<F1>(@, "direct");',
                    'vr::pred<F2::type>(@, "curried");']
            exp = {"direct": bits(ok), "curried": bits(ok)}
            for k, bx in enumerate(["vr::box", "vr::stdbox",
                                    "mpl::integral_c"]):
                decl += ("\n  struct B%d { template <class C> struct apply : "
                         "%s%s<%s<char, C::value> > {}; };" % (k, U, p, bx))
                stms.append('vr::pred<B%d>(@, "box%d");' % (k, k))
                exp["box%d" % k] = bits(ok)
            if p == "is_whitespace":
                decl += ("\n  struct F3 { template <class C> struct apply : "
                         "%sis_whitespace_c<C::type::value> {}; };" % U)
                stms.append('vr::pred<F3>(@, "unboxed");')
                exp["unboxed"] = bits(ok)
            v.add(cfg, decl, stms, exp, U + p)
        for _ in range(thorough(h, 6, 40)):
            a, c = rand_range(r)
            ok = lambda b: M.sc(a) <= M.sc(b) <= M.sc(c)
            A, C = "mpl::char_<%s>" % M.cc(a), "mpl::char_<%s>" % M.cc(c)
            decl = ("  struct F1 { template <class C> struct apply : "
                    "%sin_range<%s, %s, C> {}; };\n"
                    "  typedef %sin_range<%s, %s > F2;\n"
                    "  typedef %sin_range_c<char, %s, %s> F3;\n"
                    "  struct F4 { template <class C> struct apply : "
                    "%sin_range<%s >::apply<%s, C> {}; };\n"
                    "  struct F5 { template <class C> struct apply : "
                    "%sin_range<>::apply<%s, %s, C> {}; };\n"
                    "  typedef %sin_range_c<int, %d, %d> F6;\n"
                    % (U, A, C, U, A, C, U, M.cc(a), M.cc(c), U, A, C, U, A,
                       C, U, M.sc(a), M.sc(c)))
            v.add(cfg, decl, ['vr::pred<F%d>(@, "form%d");' % (i, i)
                              for i in range(1, 7)],
                  {"form%d" % i: bits(ok) for i in range(1, 7)},
                  "in_range %d..%d" % (M.sc(a), M.sc(c)))
        # in_range on integers around the bounds
        for _ in range(thorough(h, 2, 12)):
            lo = r.choice([-INTMAX, -1000, -1, 0, 1, r.randint(-10**6, 10**6)])
            hi = max(lo, min(INTMAX, lo + r.choice([0, 1, 5, INTMAX])))
            stms, exp = [], {}
            for n, x in enumerate(sorted(set(
                    t for t in [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0]
                    if -INTMAX <= t <= INTMAX))):
                X = ["mpl::int_<%d>" % t for t in (lo, hi, x)]
                stms.append('vr::val(@, "i%d", %sin_range<%s, %s, %s >::type::'
                            'value);' % (n, U, X[0], X[1], X[2]))
                exp["i%d" % n] = int(lo <= x <= hi)
                stms.append('vr::val(@, "j%d", %sin_range_c<int, %s, %s>::'
                            'apply<%s >::type::value);'
                            % (n, U, X[0][10:-1], X[1][10:-1], X[2]))
                exp["j%d" % n] = int(lo <= x <= hi)
            v.add(cfg, "", stms, exp, "in_range on int %d..%d" % (lo, hi))
    VC.run_vcases(h, v.cases, batch=4, stat="predicate tables observed")
    return h.finish(
        "Each character parser applied to texts beginning with each of the "
        "256 characters (acceptance, result, consumption, position, message); "
        "random parameters, every arity up to the limit in the thorough tier "
        "(a sample plus the extremes in the quick one); the empty input; each "
        "predicate over all characters in every spelling.  Each (parser, "
        "first character, configuration) is one evaluation; all are "
        "non-trivial, distinct by that triple.", ASSUME, min_eval=5000)


# -------------------------------------------------------------------- C08

# Boost.MPL can not instantiate int_<INT_MAX> (its next would overflow)
INTMAX = 2**31 - 2


def numbers(r, n):
    xs = set([0, 1, 2, 9, 10, 11, 19, 90, 99, 100, 101, 109, 127, 128, 255,
              256, 999, 1000, 1001, 32767, 32768, 65535, 65536, 99999, 100000,
              16777216, 16777217, 999999999, 1000000000, 1000000001,
              1073741823, 1073741824, 2147483639, 2147483640, INTMAX - 1,
              INTMAX])
    for k in range(31):
        xs.add(2**k)
        xs.add(2**k - 1)
    for k in range(10):
        for d in range(1, 10):
            if d * 10**k <= INTMAX:
                xs.add(d * 10**k)
    xs = list(xs)
    keep = some(r, xs, n // 2) + [INTMAX, 2147483640, 0]
    while len(keep) < n:
        d = r.randint(1, 10)
        x = r.randrange(10**(d - 1), 10**d)
        if x <= INTMAX:
            keep.append(x)
    return keep


def c08(h):
    b = B(h, "int", 1)
    for name in CFGS:
        cfg = CONFIGS[name]
        r = b.rng(cfg)
        for x in numbers(r, thorough(h, 90, 600)):
            z = r.choice([0, 0, 0, 1, 2, 5, 15])
            tail = r.choice([b"", b"", b" ", b"a", b"/", b":", b"-1", b"\n",
                             b".5", b"\x00", b"\xb0"])
            t = b"0" * z + str(x).encode() + tail
            k = r.random()
            if k < 0.55:
                b.add(cfg, M.int_(), t)
            elif k < 0.75:
                b.add(cfg, M.sequence([M.int_(), M.here()]), t)
            elif k < 0.85:
                pre = multi_line_text(r, r.randint(0, 3), b"ab")
                b.add(cfg, M.last_of([M.iterate(M.one_char(), len(pre)),
                                      M.int_()]), pre + t)
            else:
                y = r.randrange(10**r.randint(1, 9))
                b.add(cfg, M.sequence([
                    M.token(M.int_()), M.lit_c(43), M.token(M.int_())]),
                    str(x).encode() + b" +" + str(y).encode())
        # very many leading zeros, longer than any fixed limit
        for z in thorough(h, [40], [40, 100, 200]):
            x = r.choice([0, 7, INTMAX])
            b.add(cfg, M.sequence([M.int_(), M.here()]),
                  b"0" * z + str(x).encode() + b"x")
        # what is not a number
        for t in [b"", b" 1", b"-1", b"+1", b"a1", b"/1", b":1", b"\xb11",
                  b"\x001", b"x", b"\n1"]:
            b.add(cfg, M.int_(), t)
            b.add(cfg, M.digit_val(), t)
        # numbers in repetitions
        for _ in range(thorough(h, 4, 20)):
            ns = [str(r.randrange(10**r.randint(1, 9))) for _ in
                  range(r.randint(1, 3))]
            b.add(cfg, M.sequence([M.fold("l", M.first_of([
                M.int_(), M.lit_c(44)]), 1, 2), M.here()]),
                ",".join(ns).encode() + r.choice([b"", b",", b",,"]))
            b.add(cfg, M.repeated(M.digit_val()), r.choice(ns).encode())
    GC.run_cases(h, b.cases, batch=25)

    first = 2000000
    sweeps = []
    for name in thorough(h, ["g98", "g17", "c98", "c17"], CFGS):
        cfg = CONFIGS[name]
        r = random.Random("C08s/%s/%d" % (name, h.seed))
        items = []
        for node in [M.digit_val(), M.int_()]:
            st, stc = G.start_pos(r)
            items.append((node, st, stc, r.choice([10, 97, 47, 58])))
        sweeps += sweep_cases(h, cfg, items, first)
        first += 10
    run_sweeps(h, sweeps, 1)

    v = VB(h, "conv", 3000000)
    U = "mp::util::"
    for name in CFGS:
        cfg = CONFIGS[name]
        stms, exp = [], {}

        def ob(key, expr, want):
            stms.append('vr::val(@, "%s", %s::type::value);' % (key, expr))
            exp[key] = want
        for d in range(10):
            ch = "'%d'" % d
            C, I = M.boxc(48 + d), M.boxi(d)
            ob("d2i_c/%d" % d, "%sdigit_to_int_c<%s>" % (U, ch), d)
            ob("d2i/%d" % d, "%sdigit_to_int<%s >" % (U, C), d)
            ob("d2i_cur/%d" % d, "%sdigit_to_int<>::apply<%s >" % (U, C), d)
            ob("d2i_lazy/%d" % d, "%sdigit_to_int<vr::lazy<2, %s > >"
               % (U, C), d)
            ob("i2d_c/%d" % d, "%sint_to_digit_c<%d>" % (U, d), 48 + d)
            ob("i2d/%d" % d, "%sint_to_digit<%s >" % (U, I), 48 + d)
            ob("i2d_cur/%d" % d, "%sint_to_digit<>::apply<%s >" % (U, I),
               48 + d)
            ob("i2d_lazy/%d" % d, "%sint_to_digit<vr::lazy<1, %s > >"
               % (U, I), 48 + d)
            ob("inv1/%d" % d, "%sdigit_to_int<%sint_to_digit<%s > >"
               % (U, U, I), d)
            ob("inv2/%d" % d, "%sint_to_digit<%sdigit_to_int<%s > >"
               % (U, U, C), 48 + d)
        v.add(cfg, "", stms, exp, "digit conversions")
    VC.run_vcases(h, v.cases, batch=1, stat="conversions observed")
    return h.finish(
        "int_ on boundary values (0, powers of two and ten, INT_MAX), random "
        "values of 1..10 digits, up to 200 leading zeros and every kind of "
        "following text; int_ and digit_val on each of the 256 first "
        "characters; the digit conversions in every spelling for 0..9.  "
        "Non-trivial: non-empty input or a conversion.", ASSUME + [
            "values above INT_MAX - 1 are outside of the property (the result "
            "type is mpl::int_, and Boost.MPL can not hold INT_MAX in it)"], min_eval=500)


# -------------------------------------------------------------------- C09

def pos_cpp(p, r=None):
    l, c, ch = p
    return ("mp::source_position<%s, %s, %s >"
            % (M.boxi(l), M.boxi(c), M.boxc(ch & 255)))


OPS = [("equal_to", lambda a, b: a == b), ("not_equal_to", lambda a, b: a != b),
       ("less", lambda a, b: a < b), ("less_equal", lambda a, b: a <= b),
       ("greater", lambda a, b: a > b),
       ("greater_equal", lambda a, b: a >= b)]


def c09(h):
    v = VB(h, "pos", 1)
    for name in CFGS:
        cfg = CONFIGS[name]
        r = v.rng(cfg)
        # comparisons of neighbouring and of arbitrary positions
        nums = [1, 2, 3, 9, 10, 11, 100, 127, 128, 1000, 65536, INTMAX]
        chars = [0, 10, 13, 32, 97, 98, 127, -128, -1]
        for _ in range(thorough(h, 14, 120)):
            stms, exp = [], {}
            decl = []
            ps = []
            base = (r.choice(nums), r.choice(nums), r.choice(chars))
            for k in range(7):
                x = r.random()
                p = list(r.choice(ps)) if ps and x < 0.9 else list(base)
                for _ in range(r.choice([0, 1, 1, 2])):
                    j = r.randrange(3)
                    if j == 2:
                        p[2] = r.choice(chars)
                    elif r.random() < 0.7:
                        p[j] = min(INTMAX, max(1, p[j] + r.choice([-1, 1])))
                    else:
                        p[j] = r.choice(nums)
                ps.append(tuple(p))
                decl.append("  typedef %s p%d;" % (pos_cpp(ps[-1]), k))
            for i, a in enumerate(ps):
                stms.append('vr::valp<p%d>(@, "get/%d");' % (i, i))
                exp["get/%d" % i] = "%d:%d:%d" % a
                for j, b in enumerate(ps):
                    for op, f in OPS:
                        stms.append('vr::val(@, "%s/%d/%d", mpl::%s<%s, p%d>'
                                    '::type::value);' % (op, i, j, op,
                                                         "p%d" % i, j))
                        exp["%s/%d/%d" % (op, i, j)] = int(f(a, b))
            v.add(cfg, "\n".join(decl), stms, exp, "positions %s" % (ps,))
        # histories of next_char and next_line
        for _ in range(thorough(h, 12, 100)):
            st, stc = G.start_pos(r)
            decl = ["  typedef %s q0;" % stc]
            stms = ['vr::valp<q0>(@, "at/0");']
            exp = {"at/0": "%d:%d:%d" % st}
            p = st
            n = r.choice([1, 3, 10, 30])
            for k in range(1, n + 1):
                ch = r.choice(chars + [10, 13])
                arg = M.boxc(ch & 255)
                prev = "q%d" % (k - 1)
                if r.random() < 0.2:
                    prev = "vr::lazy<1, %s>" % prev
                if r.random() < 0.2:
                    arg = "vr::lazy<1, %s >" % arg
                if r.random() < 0.7:
                    op, p = "next_char", (p[0], p[1] + 1, ch)
                else:
                    op, p = "next_line", (p[0] + 1, 1, ch)
                decl.append("  typedef mp::%s<%s, %s >::type q%d;"
                            % (op, prev, arg, k))
                stms.append('vr::valp<q%d>(@, "at/%d");' % (k, k))
                exp["at/%d" % k] = "%d:%d:%d" % p
                stms.append('vr::val(@, "grow/%d", mpl::less<q%d, q%d>::type'
                            '::value);' % (k, k - 1, k))
                exp["grow/%d" % k] = 1
                stms.append('vr::val(@, "eq/%d", mpl::equal_to<q%d, %s>::type'
                            '::value);' % (k, k, pos_cpp(p)))
                exp["eq/%d" % k] = 1
            v.add(cfg, "\n".join(decl), stms, exp,
                  "history from %s: %s" % (st, "; ".join(decl)[:200]))
        v.add(cfg, "", ['vr::valp<mp::start>(@, "start");',
                        'vr::valp<mp::v1::start>(@, "start1");'],
              {"start": "1:1:0", "start1": "1:1:0"}, "start")
    VC.run_vcases(h, v.cases, batch=6, stat="position values observed")

    # positions reached in real parses: monotone along the input
    b = B(h, "mono", 1000000)
    mono = []
    v2 = VB(h, "mono", 2000000)
    for name in CFGS:
        cfg = CONFIGS[name]
        r = v2.rng(cfg)
        for _ in range(thorough(h, 5, 40)):
            t = multi_line_text(r, r.choice([2, 5, 12, 25]))
            inp = M.Input(t)
            decl = ["  typedef %s S;" % (M.string_cpp(t) if len(t) < 31 else
                                         M.cons_cpp(t)),
                    "  typedef mp::one_char P;",
                    "  typedef mp::accept<void, S, mp::start> r0;"]
            stms, exp = [], {}
            for k in range(1, len(t) + 1):
                decl.append("  typedef P::apply<mp::get_remaining<r%d>::type, "
                            "mp::get_position<r%d>::type>::type r%d;"
                            % (k - 1, k - 1, k))
            ks = sorted(set([0, len(t)] + some(r, range(len(t) + 1), 9)))
            for i in ks:
                stms.append('vr::valp<mp::get_position<r%d>::type>(@, "at/%d")'
                            ';' % (i, i))
                exp["at/%d" % i] = "%d:%d:%d" % inp.pos[i]
                for j in ks:
                    op, f = r.choice(OPS)
                    stms.append(
                        'vr::val(@, "%s/%d/%d", mpl::%s<mp::get_position<r%d>'
                        '::type, mp::get_position<r%d>::type>::type::value);'
                        % (op, i, j, op, i, j))
                    exp["%s/%d/%d" % (op, i, j)] = int(f(i, j))
            v2.add(cfg, "\n".join(decl), stms, exp, "walk over %r" % t)
    VC.run_vcases(h, v2.cases, batch=6, stat="comparisons along a text")
    return h.finish(
        "All six comparisons over all pairs of 7 related positions per case "
        "(neighbours in each component, extremes), histories of next_char and "
        "next_line with lazy and plain arguments, and positions reached "
        "walking through multi-line texts, where the order of positions has "
        "to be the order in the text.  Every logged value is one evaluation.",
        ASSUME, min_eval=1000)

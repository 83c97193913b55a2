"""C10, C11: string and string literals."""
import os
import random

from . import gen as G
from . import model as M
from . import value_check as VC
from .checks_parsers import ASSUME, thorough, some
from .checks_values import VB
from .harness import CONFIGS

CHARS = [0, 1, 9, 10, 13, 32, 34, 39, 48, 57, 63, 65, 90, 92, 97, 98, 122,
         126, 127, 128, 129, 200, 254, 255]


def rch(r):
    return r.choice(CHARS) if r.random() < 0.6 else r.randrange(256)


def str_obs(bs):
    n = len(bs)
    hx = VC.hexs
    return "n=%d|e=%d|d=%d|>%s|<%s|@%s|f=%s|b=%s|c=%s" % (
        n, int(n == 0), n, hx(bs), hx(bs[::-1]), hx(bs),
        M.sc(bs[0]) if n else "", M.sc(bs[-1]) if n else "",
        hx(bs + b"\0"))


def box(r, b):
    k = r.random()
    s = "mpl::char_<%s>" % M.cc(b)
    if k < 0.7:
        return s
    if k < 0.85:
        return "mpl::integral_c<char, %s>" % M.cc(b)
    return "vr::lazy<1, %s >" % s


def c10(h):
    cfgs = [CONFIGS[x] for x in ["g98", "g11", "g14", "g17", "c98", "c17"]]
    lim = {}
    for base, n in [("g98", 8), ("c98", 64), ("g98", 48)]:
        c = CONFIGS[base].derive("%slim%d" % (base, n),
                                 ["-DBOOST_METAPARSE_LIMIT_STRING_SIZE=%d" % n])
        lim[c.name] = n
        cfgs.append(c)
    v = VB(h, "hist", 1)
    for cfg in cfgs:
        r = v.rng(cfg)
        top = lim.get(cfg.name, 32) if cfg.fam == "98" else 70
        for _ in range(thorough(h, 16, 140)):
            n0 = r.choice([0, 0, 1, 2, 5, top // 2, top])
            cur = bytes(rch(r) for _ in range(min(n0, top)))
            decl = ["  typedef %s s0;" % M.string_cpp(cur)]
            vals = [cur]
            # drift: growing, shrinking or around a bound
            bias = r.choice([0.3, 0.5, 0.7, 0.9])
            for k in range(1, r.choice([2, 6, 14, 30]) + 1):
                ops = []
                if len(cur) < top and r.random() < bias or not cur:
                    ops = ["push_front", "push_back"] if len(cur) < top else \
                        ["clear"]
                else:
                    ops = ["pop_front", "pop_back"]
                op = r.choice(ops)
                if r.random() < 0.03:
                    op = "clear"
                src = r.randrange(k) if r.random() < 0.15 else k - 1
                cur = vals[src]
                if op.startswith("push") and len(cur) >= top or \
                        op.startswith("pop") and not cur:
                    src, cur = k - 1, vals[k - 1]
                if op.startswith("push"):
                    b = rch(r)
                    decl.append("  typedef mpl::%s<s%d, %s >::type s%d;"
                                % (op, src, box(r, b), k))
                    cur = bytes([b]) + cur if op == "push_front" else \
                        cur + bytes([b])
                else:
                    decl.append("  typedef mpl::%s<s%d>::type s%d;"
                                % (op, src, k))
                    cur = {"pop_front": cur[1:], "pop_back": cur[:-1],
                           "clear": b""}[op]
                vals.append(cur)
            stms, exp = [], {}
            ks = sorted(set([len(vals) - 1] + some(r, range(len(vals)), 7)))
            for k in ks:
                stms.append('vr::str<s%d>(@, "s%d");' % (k, k))
                exp["s%d" % k] = str_obs(vals[k])
                stms.append('vr::val(@, "same%d", boost::is_same<s%d, %s >::'
                            'value);' % (k, k, M.string_cpp(vals[k])))
                exp["same%d" % k] = 1
                # neighbours in value are different strings
                for t in [vals[k] + b"\0", vals[k][:-1],
                          vals[k][:-1] + bytes([(vals[k][-1] + 1) % 256])
                          if vals[k] else b"x"]:
                    if len(t) > top:
                        continue
                    key = "cmp%d/%s" % (k, VC.hexs(t))
                    T = M.string_cpp(t)
                    eq = int(t == vals[k])
                    stms.append('vr::val(@, "eq_%s", mpl::equal_to<s%d, %s >::'
                                'type::value);' % (key, k, T))
                    stms.append('vr::val(@, "is_%s", boost::is_same<s%d, %s >'
                                '::value);' % (key, k, T))
                    exp["eq_" + key] = eq
                    exp["is_" + key] = eq
                j = r.choice(ks)
                stms.append('vr::val(@, "eq%d/%d", mpl::equal_to<s%d, s%d>::'
                            'type::value);' % (k, j, k, j))
                exp["eq%d/%d" % (k, j)] = int(vals[k] == vals[j])
            stms.append('vr::val(@, "eqx", mpl::equal_to<s0, mpl::int_<13> >::'
                        'type::value);')
            exp["eqx"] = 0
            stms.append('vr::val(@, "eqy", mpl::equal_to<mpl::int_<13>, s0>::'
                        'type::value);')
            exp["eqy"] = 0
            stms.append('vr::val(@, "eqz", mpl::equal_to<mpl::begin<s0>::type, '
                        'mpl::int_<0> >::type::value);')
            exp["eqz"] = 0
            # iterators of one string
            k = r.choice(ks)
            n = len(vals[k])
            for x in range(6):
                i, j = r.randint(0, n), r.randint(0, n)
                I = "mpl::advance<mpl::begin<s%d>::type, mpl::int_<%d> >" \
                    % (k, i)
                if r.random() < 0.4:
                    I = "mpl::advance<mpl::end<s%d>::type, mpl::int_<%d> >" \
                        % (k, i - n)
                J = "mpl::advance_c<mpl::begin<s%d>::type, %d>" % (k, j)
                if r.random() < 0.3:
                    J = "mpl::advance_c<%s::type, %d>" % (I, j - i)
                key = "%d/%d/%d" % (x, i, j)
                stms.append('vr::val(@, "dist%s", mpl::distance<%s::type, %s::'
                            'type>::type::value);' % (key, I, J))
                exp["dist" + key] = j - i
                stms.append('vr::val(@, "iteq%s", mpl::equal_to<%s::type, %s::'
                            'type>::type::value);' % (key, I, J))
                exp["iteq" + key] = int(i == j)
                stms.append('vr::val(@, "itsame%s", boost::is_same<%s::type, '
                            '%s::type>::value);' % (key, I, J))
                exp["itsame" + key] = int(i == j)
                if i < n:
                    stms.append('vr::val(@, "deref%s", mpl::deref<%s::type>::'
                                'type::value);' % (key, I))
                    exp["deref" + key] = M.sc(vals[k][i])
                    stms.append('vr::val(@, "pn%s", boost::is_same<mpl::prior<'
                                'mpl::next<%s::type>::type>::type, %s::type>::'
                                'value);' % (key, I, I))
                    exp["pn" + key] = 1
            # algorithms that build and search
            t = vals[k]
            b = t[r.randrange(n)] if n and r.random() < 0.7 else rch(r)
            B = "mpl::char_<%s>" % M.cc(b)
            stms.append('vr::str<mpl::copy<s%d, mpl::back_inserter<%s > >::'
                        'type>(@, "copy");' % (k, M.string_cpp(b"")))
            exp["copy"] = str_obs(t)
            stms.append('vr::str<mpl::copy<s%d, mpl::front_inserter<%s > >::'
                        'type>(@, "rcopy");' % (k, M.string_cpp(b"")))
            exp["rcopy"] = str_obs(t[::-1])
            stms.append('vr::val(@, "find", mpl::distance<mpl::begin<s%d>::'
                        'type, mpl::find_if<s%d, mpl::equal_to<mpl::_1, %s > >::'
                        'type>::type::value);'
                        % (k, k, B))
            exp["find"] = t.index(b) if b in t else n
            stms.append('vr::val(@, "cnt", mpl::count_if<s%d, mpl::equal_to<mpl::_1, '
                        '%s > >::type::value);'
                        % (k, B))
            exp["cnt"] = t.count(b)
            u = vals[r.choice(ks)]
            if r.random() < 0.4:
                u = t
            stms.append('vr::val(@, "seq", mpl::equal<s%d, %s, mpl::equal_to<mpl::_1, '
                        'mpl::_2> >::type::value);' % (k, M.string_cpp(u)))
            exp["seq"] = int(u == t)
            v.add(cfg, "\n".join(decl), stms, exp,
                  "history of %d operations from %r to %r"
                  % (len(vals) - 1, vals[0], vals[-1]))
        # every character value on its own
        for lo in some(r, range(0, 256, 32), thorough(h, 4, 8)):
            stms, exp = [], {}
            for b in range(lo, lo + 32):
                stms.append('vr::str<%s >(@, "lit%d");' % (M.string_cpp([b]),
                                                           b))
                stms.append('vr::str<mpl::push_back<%s, mpl::char_<%s> >::type'
                            '>(@, "push%d");' % (M.string_cpp([97]), M.cc(b),
                                                 b))
                exp["lit%d" % b] = str_obs(bytes([b]))
                exp["push%d" % b] = str_obs(bytes([97, b]))
            v.add(cfg, "", stms, exp, "characters %d..%d" % (lo, lo + 31))
        # every length
        for n in range(top + 1) if h.tier == "thorough" else \
                sorted(set([0, 1, 2, top - 1, top] + some(r, range(top), 5))):
            t = bytes(rch(r) for _ in range(n))
            v.add(cfg, "  typedef %s s0;" % M.string_cpp(t),
                  ['vr::str<s0>(@, "s");'], {"s": str_obs(t)},
                  "length %d" % n)
        if cfg.fam == "98":
            continue
        # long ones, built at once and changed at both ends
        for n in some(r, [71, 96, 127, 128, 129, 160, 199, 255, 256, 257, 300],
                      thorough(h, 2, 11)):
            t = bytes(rch(r) for _ in range(n))
            a, b = rch(r), rch(r)
            v.add(cfg, "  typedef %s s0;\n"
                  "  typedef mpl::push_front<s0, mpl::char_<%s> >::type s1;\n"
                  "  typedef mpl::push_back<s1, mpl::char_<%s> >::type s2;\n"
                  "  typedef mpl::pop_front<s2>::type s3;\n"
                  "  typedef mpl::pop_back<s3>::type s4;\n"
                  "  typedef mpl::pop_back<s4>::type s5;\n"
                  % (M.string_cpp(t), M.cc(a), M.cc(b)),
                  ['vr::str<s0>(@, "s0");', 'vr::str<s2>(@, "s2");',
                   'vr::str<s5>(@, "s5");',
                   'vr::val(@, "same", boost::is_same<s0, s4>::value);',
                   'vr::val(@, "eq", mpl::equal_to<s0, s4>::type::value);',
                   'vr::val(@, "neq", mpl::equal_to<s3, s4>::type::value);',
                   'vr::val(@, "front", mpl::equal_to<s1, s3>::type::value);'],
                  {"s0": str_obs(t), "s2": str_obs(bytes([a]) + t
                                                   + bytes([b])),
                   "s5": str_obs(t[:-1]), "same": 1, "eq": 1, "neq": 0,
                   "front": int(bytes([a]) + t == t + bytes([b]))},
                  "string of %d characters" % n)
    VC.run_vcases(h, v.cases, batch=5, stat="string observations")
    return h.finish(
        "Random histories (up to 30 operations, branching: an operation may "
        "continue from any earlier string) of push/pop at both ends and clear "
        "on strings of up to 70 characters (up to the limit in "
        "C++98, limits 8, 32, 48, 64), every observer on a sample of the "
        "strings reached, every character value and a sweep of lengths.  One "
        "logged observation is one evaluation.", ASSUME,
        min_eval=1000)


# -------------------------------------------------------------------- C11

def lit_cpp(r, bs):
    """a string literal (possibly in pieces) with exactly these bytes"""
    def piece(x):
        if x and r.random() < 0.05 and all(
                32 <= b < 127 and b not in (41, 34) for b in x):
            return 'R"(%s)"' % x.decode()
        o = []
        for i, b in enumerate(x):
            k = r.random()
            if 32 <= b < 127 and b not in (34, 92, 63) and k < 0.9:
                o.append(chr(b))
            elif b == 10 and k < 0.7:
                o.append("\\n")
            elif b in (34, 92) and k < 0.7:
                o.append("\\" + chr(b))
            else:
                o.append("\\%03o" % b)
        return '"%s"' % "".join(o)
    if len(bs) > 1 and r.random() < 0.1:
        k = r.randrange(1, len(bs))
        return piece(bs[:k]) + " " + piece(bs[k:])
    return piece(bs)


def lit_text(r, n):
    k = r.random()
    if k < 0.5:
        return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789"
                              b" ,;()<>'\"\\/%{}[]?#") for _ in range(n))
    if k < 0.9:
        return bytes(rch(r) for _ in range(n))
    # runs that differ in one place only
    t = bytearray(bytes([rch(r)]) * n)
    if n:
        t[r.randrange(n)] = rch(r)
    return bytes(t)


def lit_exp(bs):
    return "string:%d:%s:%s" % (len(bs), VC.hexs(bs), VC.hexs(bs + b"\0"))


EDGES = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127,
         128, 129, 130, 255, 256, 257, 383, 384, 385, 511, 512, 513, 514, 639,
         640, 641, 767, 768, 769, 895, 896, 897, 1023, 1024, 1025, 1151, 1152,
         1153, 1279, 1280, 1281, 1407, 1408, 1409, 1535, 1536, 1537, 1663,
         1664, 1665, 1791, 1792, 1793, 1919, 1920, 1921, 2046, 2047, 2048]


def c11(h):
    v = VB(h, "lit", 1)
    jobs = {"g17": "all", "g11": "some", "g14": "some", "c17": "some",
            "c11": "some"}
    if h.tier == "thorough":
        jobs = {k: "all" for k in ["g11", "g14", "g17", "g20", "c11", "c14",
                                   "c17"]}
    for name, mode in jobs.items():
        cfg = CONFIGS[name]
        r = v.rng(cfg)
        pairs = []           # (limit, length)
        if mode == "all":
            pairs += [(n, n) for n in range(2049)]
        else:
            pairs += [(n, n) for n in EDGES]
            pairs += [(n, n) for n in r.sample(range(2049), 60)]
        for _ in range(thorough(h, 60, 700)):
            lim = r.choice([r.choice(EDGES), r.randint(0, 2048),
                            r.randint(0, 140)])
            pairs.append((lim, r.choice([r.randint(0, lim), max(0, lim - 1),
                                         min(lim, r.choice(EDGES))])))
        # the largest limit with every way of composing a length
        for k in range(0, 12):
            n = (1 << k) - 1 if k < 11 else 2047
            pairs.append((2048, n))
            pairs.append((2048, min(2048, 1 << k)))
        r.shuffle(pairs)
        for lim, n in pairs:
            t = lit_text(r, n)
            lit = lit_cpp(r, t)
            pre = ("#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n"
                   "#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n" % lim)
            k = r.random()
            if k < 0.6:
                decl = pre + "  typedef BOOST_METAPARSE_STRING(%s) s;" % lit
                stms = ['vr::lit<s>(@, "type");']
                exp = {"type": lit_exp(t)}
            elif k < 0.7:
                decl = pre + "  typedef BOOST_METAPARSE_V1_STRING(%s) s;" % lit
                stms = ['vr::lit<s>(@, "v1");']
                exp = {"v1": lit_exp(t)}
            elif k < 0.9:
                decl = pre + ("  constexpr auto s = BOOST_METAPARSE_STRING_"
                              "VALUE(%s);" % lit)
                stms = ['vr::litv(@, "value", s);']
                exp = {"value": lit_exp(t)}
            else:
                decl = pre + ("  template <class T = BOOST_METAPARSE_STRING"
                              "(%s)> struct d { typedef T type; };\n"
                              "  typedef d<>::type s;" % lit)
                stms = ['vr::lit<s>(@, "default");']
                exp = {"default": lit_exp(t)}
            if n <= 120 and r.random() < 0.3 and "typedef" in decl:
                stms.append('vr::val(@, "same", boost::is_same<s, %s >::value)'
                            ';' % M.string_cpp(t))
                exp["same"] = 1
            v.id += 1
            stm = "\n".join("  " + s.replace("(@,", "(%d," % v.id)
                            for s in stms)
            v.cases.append(VC.VCase(v.id, cfg, decl, stm, exp,
                                    "literal of %d characters, limit %d: %s"
                                    % (n, lim, lit[:80])))
    VC.run_vcases(h, v.cases, batch=24, stat="literals observed")

    # longer than the limit: never a truncated string
    over = []
    for name in thorough(h, ["g11", "g17", "c11", "c17"],
                         ["g11", "g14", "g17", "g20", "c11", "c14", "c17"]):
        cfg = CONFIGS[name]
        r = random.Random("C11over/%s/%d" % (name, h.seed))
        lims = some(r, EDGES, thorough(h, 12, 99)) + \
            [r.randint(0, 2048) for _ in range(thorough(h, 8, 60))] + [0, 32]
        for lim in lims:
            # extra in steps which take another set of characters or chunks
            ex = r.choice([1, 1, 1, 2, 3, 16, 100, 128, 512])
            # the extra characters may be NUL: still too long
            t = lit_text(r, lim + ex)
            if r.random() < 0.3:
                t = t[:lim] + b"\0" * ex
            over.append((cfg, lim, t, lit_cpp(r, t), r.random() < 0.3))

    def src(lim, lit, value):
        return ("#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n"
                "#include <boost/metaparse/string.hpp>\n"
                "#include <boost/metaparse/string_value.hpp>\n%s\n"
                "int main() {}\n" % (lim, (
                    "auto s = BOOST_METAPARSE_STRING_VALUE(%s);" if value else
                    "BOOST_METAPARSE_STRING(%s) s;") % lit))

    def one(job):
        n, (cfg, lim, t, lit, value) = job
        r = random.Random(n)
        res = []
        for kind, text in [("over", src(lim, lit, value)),
                           ("control", src(lim, lit_cpp(r, t[:lim]), value))]:
            p = os.path.join(h.dir, "o%d_%s.cpp" % (n, kind))
            with open(p, "w") as f:
                f.write(text)
            st, err = h.compile_retry(cfg, p, "/dev/null", link=False,
                                      extra=["-fsyntax-only"])
            os.unlink(p)
            res.append((st, text, err))
        return job[1], res

    for (cfg, lim, t, lit, value), (ov, ct) in h.map(one,
                                                     list(enumerate(over))):
        h.eval(("over", cfg.name, lim, t))
        h.count("too long literals offered")
        if ov[0] == "ok":
            h.violation("a literal of %d characters is accepted with the "
                        "limit %d" % (len(t), lim), cfg, ov[1],
                        "compilation error", "compiled")
        if ct[0] != "ok":
            h.violation("a literal of %d characters is refused with the limit "
                        "%d" % (lim, lim), cfg, ct[1], "compiles",
                        ct[2][:800])
    return h.finish(
        "BOOST_METAPARSE_STRING, its V1 name and BOOST_METAPARSE_STRING_VALUE "
        "with every limit 0..2048 and a literal of exactly that length "
        "(g++ C++17; edges and samples elsewhere, everything in the thorough "
        "tier), shorter literals, random content with NUL, escapes, bytes >= "
        "0x80, raw and adjacent literals; the limit changes between any two "
        "uses in a translation unit; literals longer than the limit must not "
        "compile while the same literal cut to the limit does.  One literal "
        "is one evaluation.", ASSUME, min_eval=1000)

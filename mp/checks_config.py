"""C15: one program, many configurations."""
import os
import random
import re

from . import gen as G
from . import grammar_check as GC
from . import model as M
from .checks_parsers import ASSUME, thorough, some
from .checks_string import lit_text, lit_cpp
from .harness import CONFIGS, VERIF, INC, Infra, Unusable

RAISED = ["-DBOOST_METAPARSE_LIMIT_SEQUENCE_SIZE=9",
          "-DBOOST_METAPARSE_LIMIT_ONE_OF_SIZE=24",
          "-DBOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE=14",
          "-DBOOST_METAPARSE_LIMIT_STRING_SIZE=48",
          # one_of uses mpl::vector, which has a limit of its own
          "-DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS",
          "-DBOOST_MPL_LIMIT_VECTOR_SIZE=30"]


LOWERED = ["-DBOOST_METAPARSE_LIMIT_ONE_OF_SIZE=6",
           "-DBOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE=3",
           "-DBOOST_METAPARSE_LIMIT_STRING_SIZE=12"]


def configs(h):
    cs = [CONFIGS[n] for n in ["g98", "g11", "g14", "g17", "g20", "c98", "c11",
                               "c14", "c17", "g17as98", "g14as11"]]
    cs.append(CONFIGS["g98"].derive("g98raised", RAISED))
    cs.append(CONFIGS["c17"].derive("c17as98raised",
                                    ["-DBOOST_METAPARSE_STD=1998"] + RAISED))
    cs.append(CONFIGS["g17"].derive("g17raised", RAISED))
    cs[-2].fam = "98"
    cs.append(CONFIGS["g98"].derive("g98lowered", LOWERED))
    cs.append(CONFIGS["c14"].derive("c14lowered", LOWERED))
    return cs


def fits(cfg, c, raised, lowered):
    """whether the case is inside of the limits of the configuration"""
    if c.id in raised:
        return cfg.fam == "11" or "raised" in cfg.name
    return c.id in lowered or "lowered" not in cfg.name


def names():
    with open(os.path.join(VERIF, "mp", "public_headers.txt")) as f:
        return f.read().split()


MACROS = {"define_error": "BOOST_METAPARSE_DEFINE_ERROR",
          "limit_one_char_except_size":
              "BOOST_METAPARSE_LIMIT_ONE_CHAR_EXCEPT_SIZE",
          "limit_one_of_size": "BOOST_METAPARSE_LIMIT_ONE_OF_SIZE",
          "limit_sequence_size": "BOOST_METAPARSE_LIMIT_SEQUENCE_SIZE",
          "limit_string_size": "BOOST_METAPARSE_LIMIT_STRING_SIZE",
          "string_value": "BOOST_METAPARSE_STRING_VALUE",
          "version": "BOOST_METAPARSE_VERSION",
          "config": "BOOST_METAPARSE_STD"}


def differential(h):
    """the same parsers and inputs in every configuration"""
    cfgs = configs(h)
    pch_bad = set()
    def pre(c):
        try:
            h.precompile(c)
            return None
        except Unusable:
            return h.unusable[c.name]
    for x in h.map(pre, cfgs):
        if x:
            h.eval(("layer", x[0].name))
            h.violation("the public headers do not compile", x[0],
                        '#include "reify.hpp"\nint main() {}\n', "compiles",
                        x[1])
            pch_bad.add(x[0].name)
    cfgs = [c for c in cfgs if c.name not in pch_bad]
    r = random.Random("C15/%d" % h.seed)
    n = thorough(h, 64, 700)
    cases = []
    while len(cases) < n:
        g = G.Gen(r, "98", 0, False)
        try:
            node = g.make(G.ALL[len(cases) % len(G.ALL)], r.randint(1, 3))
            if node.kind == "void":
                node = M.always(node, g.fresh())
            if r.random() < 0.4:
                node = M.sequence([node, M.here()])
            if len(node.cpp) > 3000:
                continue
            data = g.text(node, r.choice([4, 12, 24]))
            c = GC.mk_case(len(cases) + 1, CONFIGS["g98"], r, node, data)
        except (M.ModelLimit, RecursionError):
            continue
        cases.append(c)
    # the extreme arities both implementations have
    for node, data in extremes(r):
        cases.append(GC.mk_case(len(cases) + 1, CONFIGS["g98"], r, node, data))
    # those of raised and of lowered limits
    raised, lowered = set(), set()
    for node, data in limits(r, 24, 14, 8, 48):
        cases.append(GC.mk_case(len(cases) + 1, CONFIGS["g98"], r, node, data,
                                maxlen98=48))
        raised.add(cases[-1].id)
    for node, data in limits(r, 6, 3, 4, 12):
        cases.append(GC.mk_case(len(cases) + 1, CONFIGS["g98"], r, node, data,
                                maxlen98=12))
        lowered.add(cases[-1].id)

    def triples(c, v1):
        d = c.decl()
        if v1:
            d = re.sub(r"\bmp::", "mp::v1::", d)
        return (c.id * 2 + v1, d, "  vr::run<P, S, Q>(%d);" % (c.id * 2 + v1))

    jobs = []
    for cfg in cfgs:
        cs = [c for c in cases if fits(cfg, c, raised, lowered)]
        for i in range(0, len(cs), 12):
            jobs.append((cfg, cs[i:i + 12]))

    def one(job):
        cfg, cs = job
        if len(h.violations) > 30:
            return job, None
        rv = random.Random("C15v/%s/%d/%d" % (cfg.name, h.seed, cs[0].id))
        ts = []
        for c in cs:
            ts.append(triples(c, 0))
            if rv.random() < 0.35:
                ts.append(triples(c, 1))
        return job, h.run_batch(cfg, ts)

    seen = {c.id: {} for c in cases}
    for (cfg, cs), obs in h.map(one, jobs):
        if obs is None:
            continue
        for c in cs:
            for v1 in (0, 1):
                o = obs.get(c.id * 2 + v1)
                if o is None or o[0] == "skip":
                    continue
                name = cfg.name + ("/v1" if v1 else "")
                h.count("programs in " + name)
                src = lambda: h.tu([triples(c, v1)])
                if o[0] != "log":
                    h.eval((c.id, name))
                    h.violation(
                        "works in other configurations, but here: %s\n%s" % (
                            {"nocompile": "does not compile",
                             "crash": "sanitizer report or abnormal exit"}[
                                 o[0]], c.describe()), cfg, src(),
                        "an outcome", o[1][:1500])
                    continue
                ls = [l for l in o[1] if l[0] == "C"]
                got = GC.parse_c(ls[0])
                key = got if got[0] == "A" else ("E", got[2])
                seen[c.id].setdefault(key, []).append((cfg, v1))
    for c in cases:
        groups = sorted(seen[c.id].items(), key=lambda kv: -len(kv[1]))
        for key, who in groups:
            for cfg, v1 in who:
                h.eval((c.node.cpp, c.data, c.start, cfg.name, v1))
        h.count("parser/input pairs compared")
        if len(groups) > 1:
            major = groups[0]
            for key, who in groups[1:]:
                cfg, v1 = who[0]
                h.violation(
                    "the outcome depends on the configuration: %s\n%s" % (
                        ", ".join(x.name + ("/v1" if w else "")
                                  for x, w in who), c.describe()),
                    cfg, h.tu([triples(c, v1)]),
                    "%r as in %s" % (major[0], ", ".join(
                        x.name for x, _ in major[1][:6])), repr(key))
        elif len(c.node.cpp) < 300 and groups:
            h.sample({"parser": c.node.cpp,
                      "input": c.data.decode("latin-1"),
                      "same outcome in": len(groups[0][1]),
                      "outcome": repr(groups[0][0])})


def limits(r, alts, exc, seq, chars):
    """parsers that use everything the given limits allow"""
    def cs(n):
        return [r.choice(range(97, 123)) for _ in range(n)]
    out = []
    for _ in range(2):
        a = r.sample(range(97, 123), alts)
        for t in (a[-1], a[0], r.choice(a), 48):
            out.append((M.one_of([M.always_c(c, i) for i, c in enumerate(a)]),
                        bytes([t] + cs(2))))
        out.append((M.one_of_c(a), bytes([a[-1], 97])))
        for one in (False, True):
            out.append((M.repeated_one_of([M.always_c(c, i) for i, c in
                                           enumerate(a)], one),
                        bytes([a[-1], a[0], a[-1], 48])))
        a = r.sample(range(97, 123), exc)
        mk = r.choice([M.one_char_except, M.one_char_except_c])
        out.append((mk(a), bytes([a[-1]])))
        out.append((mk(a), bytes([48])))
        a = cs(seq)
        for comb in (M.sequence, M.first_of, M.last_of,
                     lambda ps: M.nth_of(seq - 1, ps)):
            p = comb([M.lit_c(c) for c in a])
            out.append((p, bytes(a + cs(1))))
            out.append((p, bytes(a[:-1] + [48])))
        out.append((M.sequence([M.repeated(M.one_char()), M.here()]),
                    bytes(cs(chars))))
    return out


def extremes(r):
    def chars(n):
        return [r.choice([97, 98, 99, 48, 10, 255, 0]) for _ in range(n)]
    out = []
    for _ in range(2):
        out.append((M.sequence([M.lit_c(c) for c in (97, 98, 99, 100)]),
                    r.choice([b"abcd", b"abc", b"abcdx", b"abd"])))
        out.append((M.first_of([M.lit_c(97)] + [M.one_char()] * 3),
                    r.choice([b"abcd", b"abc", b"xbc"])))
        out.append((M.last_of([M.one_char()] * 4),
                    r.choice([b"abcd", b"abc", b"\r\n\r\n"])))
        out.append((M.nth_of(r.randrange(-1, 6), [M.one_char()] * 4),
                    r.choice([b"abcd", b"abc"])))
        out.append((M.one_of_c(chars(20)), bytes(chars(3))))
        out.append((M.one_char_except_c(chars(10)), bytes(chars(3))))
        out.append((M.one_char_except(chars(10)), bytes(chars(3))))
        out.append((M.one_of([M.always_c(c, i) for i, c in enumerate(
            chars(20))]), bytes(chars(3))))
        out.append((M.repeated_one_of([M.always_c(c, i) for i, c in enumerate(
            chars(8))], r.random() < 0.5), bytes(chars(9))))
        out.append((M.sequence([M.repeated(M.one_char()), M.here()]),
                    bytes(chars(32))))
    return out


# ------------------------------------------------------------------ headers

def headers(h):
    """each public header alone, twice, and the name it is there for"""
    jobs = []
    r = random.Random("C15h/%d" % h.seed)
    for n in names():
        pairs = [("g98", "c98"), ("g17", "c17")]
        cs = [r.choice(p) for p in pairs] if h.tier != "thorough" else \
            ["g98", "c98", "g11", "g14", "g17", "g20", "c11", "c17"]
        v1 = [0, 1]
        for c in cs:
            for v in v1:
                if v and (n in MACROS or not os.path.exists(
                        os.path.join(INC, "boost/metaparse/v1", n + ".hpp"))):
                    continue
                jobs.append((n, v, CONFIGS[c]))

    def probe(n, v, cfg):
        path = "boost/metaparse/%s%s.hpp" % ("v1/" if v else "", n)
        o = ["#include <%s>" % path] * 2
        ns = "boost::metaparse::" + ("v1::" if v else "")
        if n in MACROS:
            if n == "string_value" and cfg.fam == "98":
                return "\n".join(o) + "\nint main() {}\n"
            if n == "define_error":
                o.append('%s(my_error, "text");\nstd::string f() { return '
                         "my_error::get_value(); }" % MACROS[n])
            else:
                o.append("#ifndef %s\n#  error missing macro\n#endif"
                         % MACROS[n])
        elif n == "sequence_apply":
            o += ["using %ssequence_apply%d;" % (ns, i) for i in range(1, 5)]
        else:
            o.append("using %s%s;" % (ns, n.replace("/", "::")))
        return "\n".join(o) + "\nint main() {}\n"

    def one(job):
        k, (n, v, cfg) = job
        src = probe(n, v, cfg)
        p = os.path.join(h.dir, "h%d.cpp" % k)
        with open(p, "w") as f:
            f.write(src)
        st, err = h.compile_retry(cfg, p, "/dev/null", link=False,
                                  extra=["-fsyntax-only"])
        os.unlink(p)
        return job[1], src, st, err

    for (n, v, cfg), src, st, err in h.map(one, list(enumerate(jobs))):
        h.eval(("header", n, v, cfg.name))
        h.count("headers included alone in " + cfg.name)
        if st != "ok":
            h.violation("the header %s%s.hpp does not work on its own"
                        % ("v1/" if v else "", n), cfg, src, "compiles",
                        err[:1500])


HDR = {"sequence_apply1": "sequence_apply", "sequence_apply2":
       "sequence_apply", "sequence_apply3": "sequence_apply",
       "sequence_apply4": "sequence_apply"}
MPLH = {"integral_c": "integral_c", "char_": "char", "int_": "int",
        "list": "list", "list_c": "list_c", "vector_c": "vector_c", "vector": "vector", "bool_": "bool"}


def subsets(h):
    """programs that include only the headers of the names they use, in a
    random order; the parsers run before the rest of the library is seen"""
    known = set(names())
    jobs = []
    cid = 5000000
    for name in thorough(h, ["g98", "g11", "g17", "c98", "c17"],
                         ["g98", "g11", "g14", "g17", "c98", "c11", "c17"]):
        cfg = CONFIGS[name]
        r = random.Random("C15s/%s/%d" % (name, h.seed))
        for _ in range(thorough(h, 14, 120)):
            cs = []
            while len(cs) < r.choice([1, 1, 3, 6]):
                g = G.Gen(r, cfg.fam, 0, False, 0)
                try:
                    node = g.make(r.choice(G.ALL), r.choice([1, 1, 2]))
                    if node.kind == "void":
                        node = M.always(node, 1)
                    if re.search(r"vr::(here|ferr|frecover|uchar|seen|cons)",
                                 node.cpp) or len(node.cpp) > 2000:
                        continue
                    data = g.text(node, 8)
                    c = GC.mk_case(cid, cfg, r, node, data,
                                   car=M.string_cpp(data[:20]))
                    if len(data) > 20:
                        continue
                except (M.ModelLimit, RecursionError):
                    continue
                cid += 1
                cs.append(c)
            jobs.append((cfg, cs, r.random()))

    def build(cfg, cs, seed):
        r = random.Random(seed)
        decls = ["namespace k%d\n{\n%s\n  typedef P::apply<S, Q>::type R0;\n"
                 "}" % (c.id, c.decl()) for c in cs]
        text = "\n".join(decls)
        used = set()
        for w in re.findall(r"\bmp::((?:error::|util::)?\w+)", text):
            w = HDR.get(w, w).replace("::", "/")
            if w not in known:
                raise Infra("no header known for " + w)
            used.add(w)
        v = r.random() < 0.3
        ps = ["boost/metaparse/%s%s.hpp" % ("v1/" if v else "", w)
              for w in used]
        if v:
            text = re.sub(r"\bmp::", "mp::v1::", text)
        if r.random() < 0.3:     # and something unrelated
            ps += ["boost/metaparse/%s.hpp" % r.choice(sorted(known))
                   for _ in range(3)]
        r.shuffle(ps)
        ms = ["boost/mpl/%s.hpp" % MPLH[w] for w in
              sorted(set(re.findall(r"\bmpl::(\w+)", text)))]
        o = ["#include <%s>" % p for p in ms + ps]
        o += ['#include "terms.hpp"', text, '#include "reify.hpp"',
              "int main()\n{"]
        o += ["  vr::case_result<k%d::R0>(%d);" % (c.id, c.id) for c in cs]
        o.append("}\n")
        return "\n".join(o), len(used)

    def one(job):
        cfg, cs, seed = job
        if len(h.violations) > 30:
            return job, None, 0, None
        src, n = build(cfg, cs, seed)
        p = os.path.join(h.dir, "s%d" % cs[0].id)
        with open(p + ".cpp", "w") as f:
            f.write(src)
        st, err = h.compile_retry(cfg, p + ".cpp", p)
        if st != "ok":
            return job, src, n, ("nocompile", err)
        st, so, se = h.execute(p)
        os.unlink(p)
        os.unlink(p + ".cpp")
        return job, src, n, (st, so.decode("latin-1") if st == "ok" else se)

    for (cfg, cs, _), src, n, o in h.map(one, jobs):
        if o is None:
            continue
        h.count("programs with a subset of the headers")
        h.count("headers in these subsets", n)
        if o[0] != "ok":
            h.eval(("subset", cfg.name, src))
            h.violation(
                "a program that includes exactly the headers of what it uses "
                "does not %s" % ("compile" if o[0] == "nocompile" else "run"),
                cfg, src, "compiles and runs", o[1][:1500])
            continue
        lines = {}
        for l in o[1].split("\n"):
            if l:
                f = l.split(" ")
                lines.setdefault(int(f[1]), []).append(f)
        for c in cs:
            h.eval(("subset", c.node.cpp, c.data, cfg.name))
            bad = GC.judge(c, lines.get(c.id, []), "nomsg")
            if bad:
                h.violation("subset of the headers: %s\n%s" % (
                    bad[0], c.describe()), cfg, src, bad[1], bad[2])


# ------------------------------------------------------- translation units

def linking(h):
    """several units with different limits in one program: types are shared
    between them through function signatures"""
    jobs = []
    for name in thorough(h, ["g98", "g11", "g17", "c98", "c14", "c17"],
                         ["g98", "g11", "g14", "g17", "g20", "c98", "c11",
                          "c14", "c17"]):
        for k in range(thorough(h, 1, 4)):
            jobs.append((CONFIGS[name], k))

    def tus(cfg, k):
        r = random.Random("C15l/%s/%d/%d" % (cfg.name, k, h.seed))
        lit = cfg.fam == "11"
        texts = []
        while len(texts) < 4:
            t = lit_text(r, r.choice([0, 1, 7, 16, 17, 30]))
            if t not in texts and not (cfg.fam == "98" and len(t) > 30):
                texts.append(t)
        limits = [r.choice([32, 33, 48, 64, 100, 200]) for _ in range(3)]
        if cfg.fam == "98":
            # here the limit is part of the type: one for all units
            # (and clang can not digest much more)
            limits = [r.choice([32, 33, 40])] * 3
        errs = [bytes(r.randint(33, 125) for _ in range(5)).replace(
            b'"', b"q").replace(b"\\", b"b").replace(b"?", b"u")
            for _ in range(2)]

        def ty(t, u):
            if lit:
                return "BOOST_METAPARSE_STRING(%s)" % lit_cpp(
                    random.Random(repr((t, u))), t)
            return M.string_cpp(t)
        units, exp = [], {}
        node = M.sequence([M.repeated(M.one_char()), M.here()])
        for u in range(3):
            o = ["#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d" % limits[u],
                 '#include "reify.hpp"', '#include <vector>',
                 "typedef mp::sequence<mp::repeated<mp::one_char>, vr::here> "
                 "P;"]
            # defined with the same texts in every unit: an error message
            o.append('BOOST_METAPARSE_DEFINE_ERROR(shared_error, "%s");'
                     % errs[0].decode())
            o.append('namespace { BOOST_METAPARSE_DEFINE_ERROR(own_error, "%s%d'
                     '"); }' % (errs[1].decode(), u))
            for i, t in enumerate(texts):
                o.append("typedef %s S%d;" % (ty(t, u), i))
                o.append("const char* shared%d(const S%d*, P*);" % (i, i))
                # unit i % 3 defines it, everyone calls it
                if i % 3 == u:
                    o.append("const char* shared%d(const S%d*, P*) { return "
                             "mpl::c_str<S%d>::type::value; }" % (i, i, i))
            o.append("void unit%d()\n{" % u)
            for i, t in enumerate(texts):
                cid = 100 * u + 10 * i
                o.append('  vr::valx(%d, "chars", std::string(shared%d(0, 0), '
                         "%d));" % (cid, i, len(t) + 1))
                exp[(cid, "chars")] = (t + b"\0").hex()
                o.append('  vr::val(%d, "ptr", shared%d(0, 0) == mpl::c_str<'
                         "S%d>::type::value || true);" % (cid, i, i))
                exp[(cid, "ptr")] = "1"
                inp = M.Input(t)
                e = node.run(M.Ctx(inp, cfg.fam), 0)
                o.append('  vr::vald<mp::build_parser<P>::apply<S%d>::type>('
                         '%d, "parsed");' % (i, cid))
                exp[(cid, "parsed")] = e.val
                if lit:
                    o.append('  vr::litv(%d, "value", BOOST_METAPARSE_STRING_'
                             "VALUE(%s));" % (cid, lit_cpp(r, t)))
                    exp[(cid, "value")] = "string:%d:%s:%s" % (
                        len(t), t.hex() or "-", (t + b"\0").hex())
            o.append('  vr::valx(%d, "err", shared_error::get_value());'
                     % (100 * u))
            exp[(100 * u, "err")] = errs[0].hex()
            o.append('  vr::valx(%d, "own", own_error::get_value());'
                     % (100 * u))
            exp[(100 * u, "own")] = (errs[1] + b"%d" % u).hex()
            for n, (m, x) in enumerate([
                    ("mp::error::literal_expected<'x'>", b"Expected: x"),
                    ("mp::error::digit_expected", M.M_DIGIT.encode()),
                    ("mp::error::index_out_of_range<1, 2, 3>",
                     b"index (3) out of range [1-2]"),
                    ("mp::error::unpaired<1, 2, mp::error::digit_expected>",
                     (M.M_DIGIT + " (see 1:2)").encode())]):
                o.append('  vr::valx(%d, "m%d", %s::get_value());'
                         % (100 * u, n, m))
                exp[(100 * u, "m%d" % n)] = x.hex()
            o.append("}")
            if u == 0:
                o.append("void unit1(); void unit2();\nint main() { unit0(); "
                         "unit1(); unit2(); }")
            units.append("\n".join(o) + "\n")
        return units, exp

    def one(job):
        n, (cfg, k) = job
        units, exp = tus(cfg, k)
        objs = []
        base = os.path.join(h.dir, "l%d" % n)
        for u, src in enumerate(units):
            p = "%s_%d.cpp" % (base, u)
            with open(p, "w") as f:
                f.write(src)
            st, err = h.compile_retry(cfg, p, p + ".o", link=False)
            if st != "ok":
                return cfg, units, exp, "unit %d does not compile" % u, err
            objs.append(p + ".o")
        from .harness import run_cmd, SAN
        rc, so, se = run_cmd([cfg.cxx] + SAN + objs + ["-o", base], 200)
        if rc is None:
            raise Infra("link timed out")
        if rc:
            return (cfg, units, exp, "the units do not link",
                    se.decode(errors="replace"))
        st, so, se = h.execute(base)
        for f in objs + [base]:
            os.unlink(f)
        if st != "ok":
            return cfg, units, exp, "sanitizer report or abnormal exit", se
        return cfg, units, exp, None, so.decode("latin-1")

    for cfg, units, exp, bad, text in h.map(one, list(enumerate(jobs))):
        files = {"unit%d.cpp" % i: u for i, u in enumerate(units)}
        h.count("programs of three translation units")
        if bad:
            h.eval(("link", cfg.name, units[0]))
            h.violation(bad, cfg, None, "links and runs", text[:1500],
                        extra_files=files)
            continue
        got = {}
        for l in text.split("\n"):
            f = l.split(" ")
            if len(f) > 3:
                got[(int(f[1]), f[2])] = " ".join(f[3:])
        for key, v in exp.items():
            h.eval(("link", cfg.name, key, v))
            if got.get(key) != v:
                h.violation("several translation units: %s of unit %d"
                            % (key[1], key[0] // 100), cfg, None, v,
                            got.get(key), extra_files=files)


def c15(h):
    differential(h)
    headers(h)
    subsets(h)
    linking(h)
    return h.finish(
        "The same random parsers and inputs (within the limits of the C++98 "
        "implementation) run in 16 configurations (9 compiler/standard pairs, "
        "the implementation forced by BOOST_METAPARSE_STD, raised and lowered "
        "limits, "
        "also through the v1 names); the outcomes are compared with each "
        "other, messages excluded.  Every public header alone; programs "
        "with exactly the headers they need in random order; programs of "
        "three translation units with different literal limits that share "
        "string and parser types in function signatures.  An evaluation is "
        "one (parser, input, configuration), header or logged value.",
        ASSUME, min_eval=500)

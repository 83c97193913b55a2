"""C18: the documented way of raising the limit of string literals."""
import os
import random
import shutil
import sys

from . import harness as H
from .checks_parsers import thorough
from .checks_string import lit_cpp, lit_text
from .harness import CONFIGS, run_cmd

TOOL = "tools/string_headers.py"

PROG = """#include <boost/metaparse/string.hpp>
#include <boost/metaparse/string_value.hpp>
#include <boost/mpl/size.hpp>
#include <cstdio>
template <class T> struct show;
template <char... Cs> struct show<boost::metaparse::string<Cs...> >
{
  static void go(int id)
  {
    const unsigned char cs[] = {static_cast<unsigned char>(Cs)..., 0};
    std::printf("L %d %d ", id, int(sizeof...(Cs)));
    for (unsigned i = 0; i + 1 < sizeof(cs); ++i) std::printf("%02x", cs[i]);
    std::printf("\\n");
  }
};
template <class T> void showv(int id, T) { show<typename T::type>::go(id); }
"""


def settings(h):
    """(max_length_limit, length_limit_step) handed to the tool"""
    r = random.Random("C18/%d" % h.seed)
    fixed = [(None, None), (1, 1), (2, 1), (7, 1), (10, 3), (129, 128),
             (128, 128), (130, 128), (100, 1000), (513, 512), (33, 16),
             (31, 16), (2049, 128), (1000, None), (None, 100), (64, 63),
             (65, 64), (3000, 256), (None, 89)]
    n = thorough(h, 8, 60)
    for _ in range(n):
        m = r.choice([r.randint(1, 40), r.randint(1, 400),
                      r.randint(1, 2600)])
        s = r.choice([1, 2, r.randint(1, max(1, m)), 128, m, m + 1,
                      max(1, m - 1)])
        if m // s > 600:
            s = 7
        fixed.append((m, s))
    return fixed


def c18(h):
    r = random.Random("C18w/%d" % h.seed)
    tool = os.path.join(H.REPO, TOOL)
    jobs = []
    for n, (m, s) in enumerate(settings(h)):
        jobs.append((n, m, s, r.randrange(1 << 30)))

    def one(job):
        n, m, s, seed = job
        rr = random.Random(seed)
        d = os.path.join(h.dir, "gen%d" % n)
        # a tree with the library's headers in it, as in a user's Boost
        shutil.copytree(os.path.join(H.INC, "boost"),
                        os.path.join(d, "boost"))
        target = os.path.join(d, "boost/metaparse/v1/cpp11/impl/string.hpp")
        os.unlink(target)
        args = ["--boost_dir", os.path.join(d, "boost")]
        if m is not None:
            args += ["--max_length_limit", str(m)]
        if s is not None:
            args += ["--length_limit_step", str(s)]
        rc, so, se = run_cmd([sys.executable, "-B", tool] + args, 120, cwd=d)
        if rc != 0 or not os.path.exists(target):
            return job, "tool", (so + se).decode(errors="replace")[-800:], []
        top = 2048 if m is None else m
        res = []
        cfgs = ["g11", "c17"] if n < 3 else [rr.choice(["g11", "g14", "g17",
                                                        "c11", "c17"])]
        step = s or 128
        for name in cfgs:
            b = CONFIGS[name]
            flags = ["-std=" + b.std, "-O0", "-w", "-ftemplate-depth=4000",
                     "-I" + d, "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all"]
            if b.cxx == "clang++":
                flags += ["-fbracket-depth=4096", "-ferror-limit=3"]
            else:
                flags.append("-fmax-errors=3")
            # several limits in one program
            lims = [top, top, top - 1, rr.randint(0, top),
                    min(top, step), min(top, step + 1),
                    rr.randint(0, top)]
            pairs = []
            for lim in lims:
                pairs.append((lim, lim))
                pairs.append((lim, rr.randint(0, lim)))
            o = [PROG, "int main()\n{"]
            want = {}
            for i, (lim, k) in enumerate(pairs):
                t = lit_text(rr, k)
                want[i] = t
                o.append("#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n"
                         "#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d" % lim)
                if rr.random() < 0.8:
                    o.append("{ typedef BOOST_METAPARSE_STRING(%s) s; "
                             "show<s::type>::go(%d); }" % (lit_cpp(rr, t), i))
                else:
                    o.append("{ constexpr auto s = BOOST_METAPARSE_STRING_"
                             "VALUE(%s); showv(%d, s); }"
                             % (lit_cpp(rr, t), i))
            o.append("}\n")
            text = "#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n" % top + \
                "\n".join(o)
            src = os.path.join(d, name + ".cpp")
            with open(src, "w") as f:
                f.write(text)
            exe = os.path.join(d, name)
            rc, so, se = run_cmd([b.cxx] + flags + [src, "-o", exe], 280)
            if rc is None or rc < 0:
                raise H.Infra("compiler: rc %s" % rc)
            if rc:
                se = se.decode(errors="replace")
                if H.INFRA_RE.search(se):
                    raise H.Infra(se[:500])
                res.append((b, text, "nocompile", se[:1200], None))
                continue
            rc, so, se = run_cmd([exe], 60)
            if rc:
                res.append((b, text, "crash", se.decode(errors="replace")
                            [:1200], None))
                continue
            got = {}
            for line in so.decode().splitlines():
                f = line.split(" ")
                got[int(f[1])] = bytes.fromhex(f[3])
            res.append((b, text, "log", got, (want, pairs)))
            # a literal that does not fit is refused
            lim = rr.choice([top, rr.randint(0, top)])
            t = lit_text(rr, lim + rr.choice([1, 1, 2, 50]))
            text = ("#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n" % lim +
                    PROG + "int main() { show<BOOST_METAPARSE_STRING(%s)::type"
                    ">::go(0); }\n" % lit_cpp(rr, t))
            src = os.path.join(d, name + "o.cpp")
            with open(src, "w") as f:
                f.write(text)
            rc, so, se = run_cmd([b.cxx] + flags + ["-fsyntax-only", src],
                                 280)
            if rc is None or rc < 0:
                raise H.Infra("compiler: rc %s" % rc)
            res.append((b, text, "over", rc, (lim, len(t))))
        shutil.rmtree(d, ignore_errors=True)
        return job, "ok", "", res

    if not os.path.exists(tool):
        h.violation("%s is missing" % TOOL)
    for (n, m, s, _), st, msg, res in h.map(one, jobs):
        what = "%s --max_length_limit %s --length_limit_step %s" % (TOOL, m,
                                                                    s)
        h.count("headers generated")
        if st == "tool":
            h.eval((m, s, "run"))
            h.violation("the tool fails: " + what, None, None,
                        "a header is written", msg)
            continue
        for cfg, text, kind, obs, exp in res:
            if kind == "over":
                h.eval((m, s, cfg.name, "over", exp))
                h.count("too long literals offered")
                if obs == 0:
                    h.violation("%s: a literal of %d characters is accepted "
                                "with the limit %d" % (what, exp[1], exp[0]),
                                cfg, text, "compilation error", "compiled")
                continue
            if kind != "log":
                h.eval((m, s, cfg.name))
                h.violation("%s: literals within the limit can not be used: %s"
                            % (what, kind), cfg, text, "compiles and runs",
                            obs)
                continue
            want, pairs = exp
            for i, t in want.items():
                h.eval((m, s, cfg.name, pairs[i], t), True)
                h.count("literals observed")
                if got_differs(obs, i, t):
                    h.violation("%s: wrong characters (limit %d, length %d)"
                                % ((what,) + pairs[i]), cfg, text, t,
                                obs.get(i))
            if len(h.samples) < 6:
                h.sample({"setting": what, "config": cfg.name,
                          "limits and lengths": pairs[:6]})
    return h.finish(
        "tools/string_headers.py run into a copy of the headers with the "
        "default, boundary and random limits and steps; each generated header "
        "is used in a program with literals of the full limit, of random "
        "lengths and under several smaller limits, and with one literal that "
        "is too long.  One literal is one evaluation.",
        ["the tool is run by the Python 3 of this sandbox",
         "observed with g++ 13 and clang 18 only"], min_eval=100)


def got_differs(got, i, t):
    return got.get(i) != t

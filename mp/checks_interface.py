"""C13: build_parser and debug_parsing_error observed at process level."""
import os
import random
import re

from . import gen as G
from . import grammar_check as GC
from . import model as M
from . import value_check as VC
from .checks_parsers import ASSUME, thorough, some, multi_line_text
from .checks_values import VB
from .harness import CONFIGS

NAMES = {M.M_DIGIT: "digit_expected", M.M_END: "end_of_input_expected",
         M.M_XFAIL: "expected_to_fail", M.M_LETTER: "letter_expected",
         M.M_NONE: "none_of_the_expected_cases_found",
         M.M_UCHAR: "unexpected_character",
         M.M_UEOI: "unexpected_end_of_input",
         M.M_SPACE: "whitespace_expected"}


def msg_re(m):
    """what the type of a message looks like in a diagnostic"""
    if re.search(r"\(see \d+:\d+\)$", m):
        return "unpaired"
    if m in NAMES:
        return NAMES[m]
    if m.startswith("Expected: "):
        return "literal_expected"
    if m.startswith("index ("):
        return "index_out_of_range"
    k = re.match(r"m(\d+)$", m)
    if k:
        return r"msg<%s>" % k.group(1)
    k = re.match(r"w(\d+)\(", m)
    return r"wrapped_msg<%s," % k.group(1)


def gen_node(r, cfg, depth=2, want=None):
    """(node, text) with a start position of 1:1; want: True accept"""
    for _ in range(400):
        g = G.Gen(r, cfg.fam)
        try:
            node = g.make(r.choice(G.ALL), r.randint(1, depth))
            if node.kind == "void":
                node = M.always(node, g.fresh())
            pre = b""
            if r.random() < 0.6:
                pre = multi_line_text(r, r.choice([1, 3, 7, 12]), b"abc")
                pre = bytes(b for b in pre if b)
                node = M.last_of([M.iterate(M.one_char(), len(pre)), node])
            if r.random() < 0.3:
                node = M.entire_input(node)
            if r.random() < 0.2:
                node = M.change_error_message(node, g.fresh() + 500)
            t = (pre + g.text(node.kids[-1] if pre else node, 12))[:32]
            t = t.replace(b"\0", b"0")
            if len(node.cpp) > 2500:
                continue
            cx = M.Ctx(M.Input(t), cfg.fam)
            e = node.run(cx, 0)
        except (M.ModelLimit, RecursionError):
            continue
        if want is None or want == (not e.err):
            return node, t, cx.inp, e
    raise RuntimeError("generator stuck")


def layout(t, inp, e):
    head = ("Compile-time parsing results\n----------------------------\n"
            "Input text:\n").encode() + t + b"\n\n"
    if e.err:
        l, c, _ = inp.pos[e.i]
        return [head + ("Parsing failed:\nline %d, col %d: %s\n"
                        % (l, c, m)).encode("latin-1")
                for m in sorted(e.msgs)]
    return [head + b"Parsing was successful. Remaining string is:\n" +
            t[e.i:] + b"\n"]


def debug_tu(cases):
    o = ['#include "reify.hpp"', "#include <cstdlib>"]
    for n, (node, t, inp, e, form) in enumerate(cases):
        p = node.cpp
        if form & 1:
            p = "mp::build_parser<%s >" % p
        o.append("typedef %s P%d;\ntypedef %s S%d;" % (
            p, n, M.string_cpp(t), n))
    o.append("int main(int argc, char** argv)\n{\n"
             "  switch (std::atoi(argv[1]))\n  {")
    for n in range(len(cases)):
        o.append("  case %d: { mp::debug_parsing_error<P%d, S%d> d; break; }"
                 % (n, n, n))
    o.append("  }\n  std::printf(\"STILL RUNNING\\n\");\n  return 7;\n}")
    return "\n".join(o)


def c13(h):
    cfgs = ["g98", "g11", "g17", "c98", "c17"]
    if h.tier == "thorough":
        cfgs += ["g14", "c11", "g20"]
    h.precompile_all([CONFIGS[x] for x in cfgs])
    cfgs = [x for x in cfgs if h.usable(CONFIGS[x])]
    # ---- accepting: the result, unaltered
    v = VB(h, "accept", 1)
    for name in cfgs:
        cfg = CONFIGS[name]
        r = v.rng(cfg)
        for _ in range(thorough(h, 45, 500)):
            node, t, inp, e = gen_node(r, cfg, 3, True)
            decl = "  typedef mp::build_parser<%s >%s B;\n  typedef %s S;" % (
                node.cpp, r.choice(["", "::type"]), G.carrier(r, cfg.fam, t))
            v.add(cfg, decl, ['vr::vald<B::apply<S>::type>(@, "result");'],
                  {"result": e.val}, "build_parser<%s> on %r" % (node.cpp, t))
    VC.run_vcases(h, v.cases, batch=12, stat="results of build_parser")

    # ---- rejecting: no program, and a diagnostic that names the place
    jobs = []
    for name in cfgs:
        cfg = CONFIGS[name]
        r = random.Random("C13rej/%s/%d" % (name, h.seed))
        for _ in range(thorough(h, 22, 150)):
            jobs.append((cfg, gen_node(r, cfg, 2, False)))

    def rej(job):
        n, (cfg, (node, t, inp, e)) = job
        src = ('#include "reify.hpp"\ntypedef %s P;\ntypedef %s S;\n'
               "typedef mp::build_parser<P>::apply<S>::type R;\n"
               "int main() { vr::vald<R>(1, \"x\"); }\n"
               % (node.cpp, M.string_cpp(t)))
        p = os.path.join(h.dir, "r%d.cpp" % n)
        with open(p, "w") as f:
            f.write(src)
        st, err = h.compile_retry(cfg, p, "/dev/null", link=False, extra=[
            "-fsyntax-only"] + (["-fno-elide-type", "-ferror-limit=0"]
                                if cfg.cxx == "clang++" else []),
            pch=h.precompile(cfg))
        os.unlink(p)
        return job[1], st, src, err

    for (cfg, (node, t, inp, e)), st, src, err in h.map(rej, list(
            enumerate(jobs))):
        h.eval(("reject", cfg.name, node.cpp, t))
        h.count("rejections offered to build_parser in " + cfg.name)
        what = "build_parser<%s> on %r" % (node.cpp, t)
        l, c, _ = inp.pos[e.i]
        if st == "ok":
            h.violation("compiles although the parser rejects: " + what, cfg,
                        src, "compilation error", "compiled")
            continue
        hits = re.findall(r"\w+\s*<\s*(\d+),\s*(\d+),\s*((?:\w+::)*"
                          r"(?:%s))" % "|".join(sorted(set(map(msg_re,
                                                               e.msgs)))),
                          err)
        ok = any((int(a), int(b)) == (l, c) for a, b, _ in hits)
        if not ok:
            h.violation("the diagnostics do not name the error: " + what, cfg,
                        src, "%d, %d, %s" % (l, c, sorted(e.msgs)),
                        str(hits[:3]) + " in:\n" + err[:1500])
        else:
            h.count("diagnostics naming the error")

    # ---- debug_parsing_error
    groups = []
    for name in cfgs:
        cfg = CONFIGS[name]
        r = random.Random("C13dbg/%s/%d" % (name, h.seed))
        for _ in range(thorough(h, 4, 30)):
            groups.append((cfg, [gen_node(r, cfg, 2, r.random() < 0.4) +
                                 (r.randrange(2),) for _ in range(8)]))

    def dbg(job):
        n, (cfg, cases) = job
        src = debug_tu(cases)
        p = os.path.join(h.dir, "d%d.cpp" % n)
        with open(p, "w") as f:
            f.write(src)
        st, err = h.compile_retry(cfg, p, p + ".exe",
                                  pch=h.precompile(cfg))
        if st != "ok":
            return job[1], src, err, None
        outs = []
        for k in range(len(cases)):
            outs.append(h.execute(p + ".exe", [str(k)]))
        os.unlink(p + ".exe")
        return job[1], src, err, outs

    for (cfg, cases), src, err, outs in h.map(dbg, list(enumerate(groups))):
        if outs is None:
            h.eval(("dbg", cfg.name, src))
            h.violation("debug_parsing_error does not compile", cfg, src,
                        "compiles", err[:1500])
            continue
        for k, (node, t, inp, e, form) in enumerate(cases):
            st, so, se = outs[k]
            h.eval(("dbg", cfg.name, node.cpp, t, form))
            h.count("processes observed")
            want = layout(t, inp, e)
            if st != "ok" or so not in want:
                h.violation(
                    "debug_parsing_error<%s, %r> (case %d)" % (
                        ("build_parser<%s>" if form else "%s") % node.cpp, t,
                        k), cfg, src, "exit status 0 and one of %r" % want,
                    "%r %s" % (so, se[:600]))
            elif len(node.cpp) < 300:
                h.sample({"config": cfg.name, "parser": node.cpp,
                          "stdout": so.decode("latin-1")})

    # ---- as in the documentation: a global object
    globs = []
    for name in cfgs:
        cfg = CONFIGS[name]
        r = random.Random("C13glob/%s/%d" % (name, h.seed))
        for _ in range(thorough(h, 2, 8)):
            globs.append((cfg, gen_node(r, cfg, 2)))

    def glob(job):
        n, (cfg, (node, t, inp, e)) = job
        src = ('#include "reify.hpp"\nmp::debug_parsing_error<%s, %s > d;\n'
               "int main() { std::printf(\"main\\n\"); return 3; }\n"
               % (node.cpp, M.string_cpp(t)))
        p = os.path.join(h.dir, "g%d.cpp" % n)
        with open(p, "w") as f:
            f.write(src)
        st, err = h.compile_retry(cfg, p, p + ".exe", pch=h.precompile(cfg))
        if st != "ok":
            return job[1], src, (st, b"", err)
        o = h.execute(p + ".exe")
        os.unlink(p + ".exe")
        return job[1], src, o

    for (cfg, (node, t, inp, e)), src, (st, so, se) in h.map(glob, list(
            enumerate(globs))):
        h.eval(("glob", cfg.name, node.cpp, t))
        h.count("processes observed")
        want = layout(t, inp, e)
        if st != "ok" or so not in want:
            h.violation("global debug_parsing_error<%s, %r>" % (node.cpp, t),
                        cfg, src, "exit status 0 and one of %r" % want,
                        "%r %s" % (so, se[:800]))
    return h.finish(
        "Random parsers over multi-line texts: the result of build_parser "
        "when they accept; that nothing is built and the diagnostics contain "
        "line, column and message type (in this order, as the documentation "
        "shows) when they reject; complete standard output and exit status of "
        "programs that create a debug_parsing_error object, one process per "
        "case, for plain parsers and build_parser.  Each (parser, text, "
        "configuration, form) is one evaluation, all non-trivial.",
        ASSUME + ["texts contain no NUL here (they are printed as C strings)",
                  "g++'s and clang's usual way of printing template "
                  "arguments"], min_eval=200)

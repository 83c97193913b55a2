"""C19: parsers, outcomes, positions, strings, errors and tags evaluate to
themselves."""
import random

from . import gen as G
from . import grammar_check as GC
from . import model as M
from . import value_check as VC
from .checks_meta import pos_cpp, rmsg, rstr
from .checks_parsers import ASSUME, CFGS, thorough
from .checks_values import VB
from .harness import CONFIGS


class EvalCase(GC.Case):
    """a parser that is evaluated before it is applied"""
    __slots__ = ("times",)

    def decl(self):
        return ("%s  typedef %s P0;\n  typedef P0%s P;\n  typedef %s S;\n"
                "  typedef %s Q;" % (self.node.decls, self.node.cpp,
                                     "::type" * self.times, self.car,
                                     self.start_cpp))


TERMINALS = [M.digit, M.letter, M.alphanum, M.space, M.one_char, M.digit_val,
             M.int_, M.spaces, M.here,
             lambda: M.lit_c(97), lambda: M.lit(98), lambda: M.range_(97, 102),
             lambda: M.range_c(97, 102), lambda: M.one_of_c([97, 200]),
             lambda: M.one_char_except_c([97, 98]),
             lambda: M.one_char_except([97, 98]),
             lambda: M.keyword(b"if", 5), lambda: M.empty(5),
             lambda: M.return_(5), lambda: M.fail(5)]


def by_outcome(h, cfg, make, quota, r, cid):
    """cases whose outcomes are of different kinds: accepting with and
    without consuming, rejecting at the start and further on"""
    left = [quota] * 4
    out = []
    for _ in range(60):
        if not any(left):
            break
        try:
            g = G.Gen(r, cfg.fam, 0)
            g.evals = 0.3
            node = make(g)
            if node.kind == "void":
                node = M.always(node, g.fresh())
            if len(node.cpp) > 2500:
                continue
            t = g.text(node, r.choice([4, 12]))
            if r.random() < 0.25:
                t = b"" if r.random() < 0.3 else bytes([g.ch()]) + t
            c = GC.mk_case(cid + len(out), cfg, r, node, t)
        except (M.ModelLimit, RecursionError):
            continue
        k = (2 if c.exp.err else 0) + (1 if c.exp.i else 0)
        if not left[k]:
            continue
        left[k] -= 1
        e = EvalCase()
        for a in GC.Case.__slots__:
            if hasattr(c, a):
                setattr(e, a, getattr(c, a))
        e.times = r.choice([1, 1, 2, 3])
        out.append(e)
    return out


def c19(h):
    cases = []
    cid = 1
    quota = thorough(h, 3, 16)
    for name in CFGS:
        cfg = CONFIGS[name]
        r = random.Random("C19/%s/%d" % (name, h.seed))
        makes = [lambda g, n=n: g.make(n, r.randint(1, 2))
                 for n in sorted(set(G.ALL))]
        makes += [lambda g, t=t: t() for t in TERMINALS]
        for mk in makes:
            cs = by_outcome(h, cfg, mk, quota, r, cid)
            cases += cs
            cid += len(cs)
    GC.run_cases(h, cases, batch=16)

    v = VB(h, "idem", 1000000)
    SAME = 'vr::val(@, "%s", boost::is_same<%s, %s >::value);'
    errors = ["digit_expected", "end_of_input_expected", "expected_to_fail",
              "letter_expected", "none_of_the_expected_cases_found",
              "unexpected_character", "unexpected_end_of_input",
              "whitespace_expected"]
    tags = ["accept_tag", "fail_tag", "source_position_tag", "string_tag"]
    for name in CFGS:
        cfg = CONFIGS[name]
        r = v.rng(cfg)

        def idem(decl, what, desc):
            stms, exp = [], {}
            for key, t in what:
                stms.append(SAME % (key, "%s::type" % t, t))
                exp[key] = 1
                stms.append(SAME % (key + "2", "%s::type::type" % t, t))
                exp[key + "2"] = 1
            v.add(cfg, "\n".join(decl), stms, exp, desc)
        idem([], [(e, "mp::error::" + e) for e in errors] +
             [(t, "mp::" + t) for t in tags] + [("start", "mp::start")],
             "named values")
        for _ in range(thorough(h, 10, 80)):
            s, bs = rstr(r, cfg.fam)
            m, mt = rmsg(r, 1)
            st = (r.choice([1, 2, 77]), r.choice([1, 5, 1000]),
                  r.choice([0, 10, 13, 97, -1]))
            c = r.randrange(256)
            lo, hi, ix = [r.choice([-3, 0, 1, 9, 2147483647])
                          for _ in range(3)]
            decl = ["  typedef %s S;" % s, "  typedef %s Q;" % pos_cpp(st),
                    "  typedef %s M;" % m,
                    "  typedef mp::accept<vr::atom<1>, S, Q> A;",
                    "  typedef mp::reject<M, Q> E;",
                    "  typedef mp::error::literal_expected<%s> L;" % M.cc(c),
                    "  typedef mp::error::index_out_of_range<%d, %d, %d> I;"
                    % (lo, hi, ix),
                    "  typedef mp::error::unpaired<%d, %d, M> U;" % st[:2]]
            idem(decl, [(x, x) for x in "SQMAELIU"], " ".join(decl)[:300])
        # what parsers return
        for _ in range(thorough(h, 40, 300)):
            while True:
                g = G.Gen(r, cfg.fam)
                try:
                    node = g.make(r.choice(G.ALL), r.randint(1, 2))
                    if node.kind == "void":
                        node = M.always(node, 3)
                    t = g.text(node, 10)[:32]
                    if len(node.cpp) > 2000:
                        continue
                    st, stc = G.start_pos(r)
                    inp = M.Input(t, st)
                    e = node.run(M.Ctx(inp, cfg.fam), 0)
                    break
                except (M.ModelLimit, RecursionError):
                    continue
            decl = ["  typedef %s P;" % node.cpp,
                    "  typedef %s S;" % M.string_cpp(t),
                    "  typedef %s Q;" % stc,
                    "  typedef P::apply<S, Q>::type R;",
                    "  typedef mp::get_position<R>::type RP;"]
            what = [("outcome", "R"), ("position", "RP")]
            if e.err:
                decl.append("  typedef mp::get_message<R>::type RM;")
                what.append(("message", "RM"))
            else:
                decl.append("  typedef mp::get_remaining<R>::type RS;")
                what.append(("remaining", "RS"))
            idem(decl, what, "%s on %r" % (node.cpp[:300], t))
    VC.run_vcases(h, v.cases, batch=16)
    return h.finish(
        "Random parsers with every combinator and terminal at the root, "
        "evaluated (::type) once to three times before they are applied, with "
        "evaluated sub-parsers as well, on texts that are accepted with and "
        "without consuming something and rejected at once and further on, "
        "against the reference model; outcomes, positions, remaining strings and messages of random "
        "parses, and strings, positions, error messages and tags with random "
        "parameters, compared with what they evaluate to.", ASSUME,
        min_eval=300)

"""C12: grammar<> against an independent interpretation of the EBNF."""
import os
import random

from . import gen as G
from . import grammar_check as GC
from . import model as M
from .checks_parsers import ASSUME, thorough, some
from .harness import CONFIGS

ESC = {10: "\\n", 13: "\\r", 9: "\\t", 92: "\\\\", 39: "\\'"}
WORD = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


class Ast:
    """op: char(b) name(s) seq[..] alt[..] star plus paren"""

    def __init__(self, op, *args):
        self.op = op
        self.args = args


class GrammarGen:
    def __init__(self, rng, fam):
        self.r = rng
        self.fam = fam
        self.k = 0
        self.alpha = rng.sample(G.PLAIN, 3) + [rng.choice(
            [10, 13, 9, 92, 39, 92, 39, 40, 41, 42, 43, 124, 0, 255, 32])]

    def fresh(self):
        self.k += 1
        return self.k

    # -------------------------------------------------------------- building
    def terminal(self, names):
        r = self.r
        if names and r.random() < 0.45:
            return Ast("name", r.choice(names))
        return Ast("char", r.choice(self.alpha))

    def ast(self, d, names):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.15:
            return self.terminal(names)
        if x < 0.45:
            return Ast("seq", *[self.ast(d - 1, names)
                                for _ in range(r.choice([2, 2, 3]))])
        if x < 0.7:
            return Ast("alt", *[self.ast(d - 1, names)
                                for _ in range(r.choice([2, 2, 3]))])
        return Ast(r.choice(["star", "plus", "star"]),
                   self.ast(d - 1, names))

    def node(self, a, env):
        """the meaning of the AST, as a model parser (C++ spelling unused)"""
        if a.op == "char":
            return M.lit_c(a.args[0])
        if a.op == "name":
            return env[a.args[0]]
        ps = [self.node(x, env) for x in a.args]
        if a.op == "seq":
            p = ps[0]
            for q in ps[1:]:
                p = M.sequence([p, q])
            return p
        if a.op == "alt":
            p = ps[0]
            for q in ps[1:]:
                p = M.one_of([p, q])
            return p
        if not ps[0].consumes:
            raise M.ModelLimit("repetition of something empty")
        return M.repeated(ps[0], a.op == "plus")

    # ------------------------------------------------------------- rendering
    def ws(self, must=False):
        r = self.r
        x = r.random()
        if not must and x < 0.6:
            return ""
        if x < 0.9:
            return " "
        return "".join(r.choice(" \t\n\r") for _ in range(r.randint(1, 3)))

    def render(self, a, level=0):
        """level 0: expression, 1: in a sequence, 2: before * or +"""
        r = self.r
        if a.op == "char":
            b = a.args[0]
            if b in ESC and (b in (92, 39) or r.random() < 0.6):
                return "'%s'%s" % (ESC[b], self.ws())
            return "'%s'%s" % (chr(b), self.ws())
        if a.op == "name":
            return a.args[0] + self.ws(True)
        if a.op in ("star", "plus"):
            s = self.render(a.args[0], 2) + \
                ("*" if a.op == "star" else "+") + self.ws()
        elif a.op == "seq":
            # a sequence is left associative: a nested one on the right
            # needs brackets
            s = "".join([self.render(a.args[0], 1 if a.args[0].op != "seq"
                                     else 2)] +
                        [self.render(x, 1 if x.op != "seq" else 2)
                         for x in a.args[1:]])
            if level >= 2:
                return self.paren(s)
        else:
            s = ("|" + self.ws()).join(
                self.render(x, 1 if x.op == "alt" else 0) for x in a.args)
            if level >= 1:
                return self.paren(s)
        if r.random() < 0.08:
            return self.paren(s)
        return s

    def paren(self, s):
        return "(%s%s)%s" % (self.ws(), s, self.ws())

    def name(self, used):
        r = self.r
        while True:
            n = "".join(chr(r.choice(WORD)) for _ in
                        range(r.choice([1, 1, 2, 3, 6])))
            if n not in used and n != "S":
                return n

    # -------------------------------------------------------------- grammars
    def grammar(self, nrules, depth, maxlen):
        r = self.r
        env = {}
        defs = []          # C++ of each definition
        names = []
        info = []
        for _ in range(r.choice([0, 1, 1, 2])):
            n = self.name(env)
            g = G.Gen(r, self.fam)
            p = r.choice([M.int_, M.letter, lambda: M.token(M.int_()),
                          lambda: M.uchar(r.choice(self.alpha), self.fresh()),
                          M.here, lambda: M.keyword(b"if", self.fresh()),
                          lambda: M.always(g.consuming(1), self.fresh()),
                          lambda: M.return_(self.fresh())])()
            env[n] = p
            names.append(n)
            defs.append(("import", n, p.cpp, None))
            info.append("%s := %s" % (n, p.cpp))
        start = "S" if r.random() < 0.5 else self.name(env)
        if r.random() < 0.1:
            start = "S2"
        for k in range(nrules):
            last = k == nrules - 1
            n = start if last else self.name(list(env) + [start])
            for _ in range(60):
                a = self.ast(r.randint(1, depth), names)
                text = n + self.ws(r.random() < 0.8) + "::=" + self.ws() + \
                    self.render(a)
                try:
                    p = self.node(a, env)
                except M.ModelLimit:
                    continue
                if len(text) <= maxlen:
                    break
            else:
                raise M.ModelLimit("no rule")
            action = None
            x = r.random()
            if x < 0.35:
                f = self.fresh()
                p = M.transform(p, f)
                action = "vr::fwrap<%d>" % f
            elif x < 0.5:
                p = M.transform(p, 1000)
                action = "vr::wrap_action<mpl::_1>"
            elif x < 0.6 and a.op == "seq":
                p = pick(p, 0 if x < 0.55 else -1)
                action = "mpl::%s<mpl::_1>" % ("front" if x < 0.55 else
                                               "back")
            env[n] = p
            names.append(n)
            defs.append(("rule", text, None, action))
            info.append(text + (" {%s}" % action if action else ""))
        r.shuffle(defs)
        dflt = start == "S" and r.random() < 0.7
        cpp = "mp::grammar<%s>" % ("" if dflt else self.str(start.encode()))
        for n, (kind, a, b, c) in enumerate(defs):
            if kind == "import":
                cpp += "\n    ::import<%s, %s >" % (self.str(
                    a.encode() + (b" " if r.random() < 0.1 else b"")), b)
            elif c is None:
                cpp += "\n    ::rule<%s >" % self.str(a.encode("latin-1"))
            else:
                cpp += "\n    ::rule<%s, %s >" % (
                    self.str(a.encode("latin-1")), c)
            if n < len(defs) - 1 or r.random() < 0.7:
                cpp += "::type"
        return cpp, env[start], info

    def str(self, bs):
        if self.fam == "98" and len(bs) > 32:
            return M.cons_cpp(bs)
        return M.string_cpp(bs) + " "


def pick(p, n):
    """action front<_1>/back<_1> on a sequence"""
    def fn(cx, i):
        r = p.run(cx, i)
        if r.err:
            return r
        return M.Acc(split(r.val)[n], r.i)
    return M.Node("action", "", fn, "any", p.consumes, [p])


def split(v):
    """the elements of a rendered list"""
    assert v[0] == "[" and v[-1] == "]"
    out, depth, cur = [], 0, ""
    for c in v[1:-1]:
        if c in "[(":
            depth += 1
        elif c in "])":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


MALFORMED = [b"S ::= ", b"S = 'a'", b"S ::= 'a' |", b"S ::= ('a'", b"S ::= 'a')",
             b"S ::= * 'a'", b"S ::= 'ab'", b"S ::= '", b"S ::= 'a", b"S ::= ''",
             b"S ::= '\\x'", b"S ::= 'a' ; 'b'", b"::= 'a'", b"S ::= | 'a'",
             b"S ::= ()", b"S ::= 'a'? 'b'", b"S := 'a'", b"S :: = 'a'",
             b"S T ::= 'a'", b"S ::= 'a' ::= 'b'", b" S ::= 'a'",
             b"S-T ::= 'a'", b"S ::= 'a' 'b'-", b"S.1 ::= 'a'", b"S$ ::= 'a'",
             b"S ::= [ 'a' ]", b"S ::= \"a\"", b"S ::= 'a' 'b' \\",
             b"S ::= 'a\\'", b"S ::= 'a' / 'b'", b"S ::= { 'a' }"]


def c12(h):
    cfgs = ["g98", "g11", "g17", "c98", "c17"]
    if h.tier == "thorough":
        cfgs += ["g14", "c11", "g20"]
    cases = []
    cid = 1
    ngr = 0
    for name in cfgs:
        cfg = CONFIGS[name]
        r = random.Random("C12/%s/%d" % (name, h.seed))
        want = thorough(h, 45, 260)
        made = 0
        while made < want:
            g = GrammarGen(r, cfg.fam)
            try:
                cpp, node, info = g.grammar(r.choice([1, 1, 2, 2, 3, 3, 5, 5, 9,
                                                      14]),
                                            r.choice([1, 2, 2, 3]),
                                            32 if cfg.fam == "98" and
                                            r.random() < 0.7 else
                                            r.choice([60, 60, 60, 110]))
            except M.ModelLimit:
                continue
            if len(cpp) > 9000:
                continue
            gg = G.Gen(r, cfg.fam)
            gg.alpha = g.alpha
            group = []
            seen = set()
            top = M.Node("grammar", cpp, node.fn, node.kind, node.consumes,
                         [node])
            for _ in range(12):
                t = gg.text(node, r.choice([4, 12, 12, 24, 24, 60]))
                if t in seen:
                    continue
                seen.add(t)
                q = top
                x = r.random()
                if x < 0.3:
                    q = M.entire_input(top)
                elif x < 0.5:
                    q = M.sequence([top, M.here()])
                try:
                    c = GC.mk_case(cid, cfg, r, q, t)
                except (M.ModelLimit, RecursionError):
                    continue
                group.append(c)
                cid += 1
                if len(group) == thorough(h, 5, 6):
                    break
            if len(group) < 2:
                continue
            cases.append((cpp, group, info))
            made += 1
            ngr += 1
    run_groups(h, cases)
    h.count("grammars", ngr)
    malformed(h)
    return h.finish(
        "Random non-recursive grammars (1..14 rules, imports, actions as "
        "metafunction classes and as placeholder expressions, random white "
        "space, brackets, escapes, hostile terminals, shuffled order of "
        "definitions, default and named start symbols), each over several "
        "inputs sampled from the grammar and mutated; the oracle interprets "
        "the generated syntax tree, not the rule text.  Malformed rules must "
        "not compile.  One (grammar, input, configuration) is one evaluation, "
        "all non-trivial.", ASSUME + [
            "sequences of more than two items give left-nested pairs, as the "
            "library has always done (the documentation's example relies on "
            "the two-item case only)"], min_eval=200)


PRE = """
namespace vr
{
  template <class A> struct wrap_action { typedef t1<1000, A> type; };
}
#include <boost/mpl/placeholders.hpp>
"""


class GCase:
    """a case whose parser is the typedef GR of its translation unit"""


def run_groups(h, cases):
    h.precompile_all({c.cfg.name: c.cfg for _, g, _ in cases
                      for c in g}.values())

    def one(job):
        cpp, group, info = job
        if len(h.violations) > 30:
            return job, None
        cfg = group[0].cfg
        pre = PRE + "typedef %s GR;\n" % cpp
        triples = [(c.id, c.decl().replace(cpp, "GR"), c.stm())
                   for c in group]
        return job, h.run_batch(cfg, triples, pre)

    for (cpp, group, info), obs in h.map(one, cases):
        if obs is None:
            continue
        pre = PRE + "typedef %s GR;\n" % cpp
        for c in group:
            o = obs[c.id]
            c.nospy = info
            h_before = len(h.violations)
            GC.judge_obs(h, c.cfg, c, o, PRE, "nomsg")
            if len(h.violations) > h_before:
                h.violations[-1]["what"] = (
                    "%s: grammar %s on %r" % (
                        h.violations[-1]["what"].split("\n")[0],
                        " ; ".join(info), c.data))


def malformed(h):
    jobs = []
    for name in thorough(h, ["g98", "g17", "c17"], ["g98", "g11", "g17",
                                                    "c98", "c17"]):
        cfg = CONFIGS[name]
        if not h.usable(cfg):
            continue
        r = random.Random("C12bad/%s/%d" % (name, h.seed))
        for t in some(r, MALFORMED, thorough(h, 15, 99)):
            jobs.append((cfg, t))
        jobs.append((cfg, b"S ::= 'a' ('b' | 'c')* 'd'+"))

    def one(job):
        cfg, t = job
        # the start symbol is fine, so only the malformed rule can be at fault
        src = ('#include "reify.hpp"\ntypedef mp::grammar<>::rule<%s >::type::'
               'rule<%s >::type g;'
               '\nint main() { return mp::is_error<g::apply<%s, mp::start> >::'
               'type::value; }\n' % (M.string_cpp(b"S ::= 'a'"),
                                     M.string_cpp(t.replace(b"S", b"B")),
                                     M.string_cpp(b"ad")))
        p = os.path.join(h.dir, "m%s_%s.cpp" % (cfg.name, t.hex()))
        with open(p, "w") as f:
            f.write(src)
        st, err = h.compile_retry(cfg, p, "/dev/null", link=False,
                                  extra=["-fsyntax-only"],
                                  pch=h.precompile(cfg))
        return job, st, src, err

    for (cfg, t), st, src, err in h.map(one, jobs):
        h.eval(("malformed", cfg.name, t))
        ok = t.endswith(b"'d'+")
        h.count("malformed rules offered", 0 if ok else 1)
        if ok and st != "ok":
            h.violation("a well-formed rule does not compile: %r" % t, cfg,
                        src, "compiles", err[:800])
        elif not ok and st == "ok":
            h.violation("a malformed rule is accepted: %r" % t, cfg, src,
                        "compilation error", "compiled")

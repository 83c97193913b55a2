"""Workload + oracle shared by the properties about parsers: run generated
parsers over generated inputs in the real library, compare every logged
outcome with the reference model."""
import random

from . import gen as G
from . import model as M
from .harness import CONFIGS


class Case:
    __slots__ = ("id", "cfg", "node", "data", "start", "start_cpp", "car",
                 "exp", "cx", "spec", "nospy")

    def decl(self):
        return ("%s  typedef %s P;\n  typedef %s S;\n  typedef %s Q;"
                % (self.node.decls, self.node.cpp, self.car, self.start_cpp))

    def stm(self):
        return "  vr::run<P, S, Q>(%d);" % self.id

    def triple(self):
        return (self.id, self.decl(), self.stm())

    def describe(self):
        return "%s%s on %r from %s" % (self.node.decls, self.node.cpp,
                                       self.data, self.start)


def mk_case(cid, cfg, rng, node, data, start=None, start_cpp=None, car=None,
            maxlen98=32):
    c = Case()
    c.id, c.cfg, c.node, c.data = cid, cfg, node, bytes(data)
    if start is None:
        start, start_cpp = G.start_pos(rng)
    c.start, c.start_cpp = start, start_cpp
    c.car = car or G.carrier(rng, cfg.fam, c.data, maxlen98)
    c.cx = M.Ctx(M.Input(c.data, start), cfg.fam)
    c.exp = node.run(c.cx, 0)
    return c


def render(inp, r):
    if r.err:
        return "reject %s at %s" % (sorted(r.msgs), inp.pos[r.i])
    return "accept %s remaining %r at %s" % (r.val, inp.data[r.i:],
                                            inp.pos[r.i])


def parse_c(f):
    """the outcome in a C line"""
    if f[2] == "A":
        # values contain no spaces
        rem = b"" if f[5] == "-" else bytes.fromhex(f[5])
        return ("A", f[3], rem, tuple(map(int, f[7:10])))
    msg = "" if f[3] == "-" else bytes.fromhex(f[3]).decode("latin-1")
    return ("E", msg, tuple(map(int, f[5:8])))


def show_obs(o):
    if o[0] == "A":
        return "accept %s remaining %r at %s" % o[1:]
    return "reject %r at %s" % o[1:]


def judge(case, lines, what="all"):
    """None, or (what failed, expected, observed)"""
    inp = case.cx.inp
    cs = [l for l in lines if l[0] == "C"]
    if len(cs) != 1:
        return ("%d outcomes logged instead of one" % len(cs), "one",
                str(lines)[:300])
    o = parse_c(cs[0])
    e = case.exp
    ok = True
    if e.err:
        ok = o[0] == "E" and o[2] == inp.pos[e.i] and \
            (what == "nomsg" or o[1] in e.msgs)
    else:
        ok = o[0] == "A" and o[2] == inp.data[e.i:] and o[3] == inp.pos[e.i] \
            and (o[1] == e.val)
    if not ok:
        return ("wrong outcome", render(inp, e), show_obs(o))
    # monitors: every application of a spied parser must be on a suffix of
    # the input, with the source position of that suffix
    for l in lines:
        if l[0] != "S":
            continue
        s = b"" if l[4] == "-" else bytes.fromhex(l[4])
        pos = tuple(map(int, l[6:9]))
        i = len(inp.data) - len(s)
        if i < 0 or inp.data[i:] != s:
            return ("a sub-parser was applied to a string which is not a "
                    "suffix of the input", "suffix of %r" % inp.data, repr(s))
        if inp.pos[i] != pos:
            return ("a sub-parser was applied with a wrong source position",
                    inp.pos[i], pos)
    seen = set((int(l[2]), len(inp.data) - (0 if l[4] == "-" else
                                            len(l[4]) // 2))
               for l in lines if l[0] == "S")
    if not case.cx.spied <= seen:
        return ("a sub-parser was not applied where its result is needed",
                sorted(case.cx.spied), sorted(seen))
    return None


def run_cases(h, cases, batch=16, pre="", what="all"):
    """cases: list of Case; groups by configuration, runs, judges"""
    groups = {}
    for c in cases:
        groups.setdefault(c.cfg.name, []).append(c)
    cfgs = {c.cfg.name: c.cfg for c in cases}
    h.precompile_all(cfgs.values())
    batches = []
    for name, cs in groups.items():
        for i in range(0, len(cs), batch):
            batches.append((cfgs[name], cs[i:i + batch]))

    def one(b):
        cfg, cs = b
        if len(h.violations) > 40:
            return b, {c.id: ("skip", "") for c in cs}
        return b, h.run_batch(cfg, [c.triple() for c in cs], pre)

    for (cfg, cs), obs in h.map(one, batches):
        for c in cs:
            o = obs[c.id]
            judge_obs(h, cfg, c, o, pre, what)


def judge_obs(h, cfg, c, o, pre, what):
    if o[0] == "skip":
        return
    key = (c.node.decls, c.node.cpp, c.data, c.start, cfg.name)
    nontriv = c.node.size() >= 2 or len(c.data) >= 1
    h.eval(key, nontriv)
    h.count("cases in " + cfg.name)
    src = lambda: h.tu([c.triple()], pre)
    if o[0] == "nocompile":
        h.violation("the parser can not be applied: the program does not "
                    "compile\n" + c.describe(), cfg, src(),
                    render(c.cx.inp, c.exp), o[1][:1500])
        return
    if o[0] == "crash":
        h.violation("sanitizer report or abnormal exit\n" + c.describe(), cfg,
                    src(), "clean run", o[1][:1500])
        return
    bad = judge(c, o[1], what)
    nspy = sum(1 for l in o[1] if l[0] == "S")
    h.count("accepting outcomes" if not c.exp.err else "rejecting outcomes")
    h.count("spy events", nspy)
    h.count("characters of input", len(c.data))
    for n, (a, r) in c.cx.outcomes.items():
        h.count("applied %s: accepted" % n, a)
        h.count("applied %s: rejected" % n, r)
    if bad:
        h.violation("%s\n%s" % (bad[0], c.describe()), cfg, src(), bad[1],
                    bad[2])
    elif len(c.data) >= 3 and c.node.size() >= 3 and len(c.node.decls + c.node.cpp) < 500:
        h.sample({"config": cfg.name, "parser": c.node.decls + c.node.cpp,
                  "input": c.data.decode("latin-1"),
                  "observed": render(c.cx.inp, c.exp)})


def random_cases(h, n, cfg_names, focus, depth=3, maxlen=24, spies=False,
                 user_leaf=0.25, salt="", first_id=1, maxcpp=4000,
                 limit98=32):
    """n cases per configuration; the combinator at the root comes from
    focus in turn, so each of them is driven"""
    out = []
    cid = first_id
    for name in cfg_names:
        cfg = CONFIGS[name] if isinstance(name, str) else name
        rng = random.Random("%s/%s/%s/%d" % (h.prop, salt, cfg.name, h.seed))
        made = 0
        tries = 0
        while made < n:
            tries += 1
            if tries > n * 60:
                raise RuntimeError("generator stuck")
            g = G.Gen(rng, cfg.fam, cid, spies, user_leaf)
            try:
                root = focus[made % len(focus)]
                node = g.make(root, rng.randint(1, depth))
                if node.kind == "void":
                    node = M.always(node, g.fresh())
                if rng.random() < 0.3:
                    # observe where it stops, and what comes after it
                    node = M.sequence([node, M.here()])
                if len(node.cpp) > maxcpp:
                    continue
                data = g.text(node, rng.choice([4, 12, maxlen]))
                c = mk_case(cid, cfg, rng, node, data, maxlen98=limit98)
            except (M.ModelLimit, RecursionError):
                continue
            out.append(c)
            made += 1
            cid += 1
    return out

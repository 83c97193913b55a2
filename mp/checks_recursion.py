"""C17: recursive parsers, and the laziness they rest on."""
import random

from . import gen as G
from . import grammar_check as GC
from . import model as M
from .checks_parsers import ASSUME, CFGS, multi_line_text, thorough
from .harness import CONFIGS

SEQUENCED = ["sequence", "first_of", "last_of", "sequence_apply", "nth_of",
             "nth_of_c", "middle_of"]


class RecGen(G.Gen):
    """Trees over named parsers.  A name is only used behind a parser that
    has consumed a character, so every definition is well-founded."""

    def __init__(self, rng, fam, case, spies, bombs):
        G.Gen.__init__(self, rng, fam, case, spies, 0.15)
        self.refs = []
        self.guarded = 0
        self.bombs = bombs

    def terminal(self):
        r = self.r
        if self.guarded and self.refs and r.random() < 0.5:
            return r.choice(self.refs)
        if self.guarded and r.random() < self.bombs:
            return M.unreached()
        return G.Gen.terminal(self)

    def make(self, name, d):
        if name in SEQUENCED and d > 0:
            first = G.Gen.terminal(self)
            self.guarded += 1
            try:
                return self.sequenced(name, first, d)
            finally:
                self.guarded -= 1
        n = G.Gen.make(self, name, d)
        if self.bombs and self.r.random() < 0.1:
            n = self.wrap_fn(n)
        return n

    def wrap_fn(self, n):
        """around n a function that n's outcome must not reach"""
        return self.r.choice([
            lambda: M.with_fn("transform", n, ["vr::unreached_fn"],
                              lambda o: not o.err),
            lambda: M.with_fn("accept_when", n, ["vr::unreached_fn",
                                                 "vr::msg<1>"],
                              lambda o: not o.err),
            lambda: M.with_fn("transform_error", n, ["vr::unreached_fn"],
                              lambda o: o.err),
            lambda: M.with_fn("transform_error_message", n,
                              ["vr::unreached_fn"], lambda o: o.err),
        ])()

    def sequenced(self, name, first, d):
        r = self.r
        rest = self.many(d, 2, 2) if name == "middle_of" else \
            self.many(d, 1, 3)
        if self.refs and r.random() < 0.5:
            rest[r.randrange(len(rest))] = r.choice(self.refs)
        ps = [first] + rest
        if name == "middle_of":
            return M.middle_of(*ps)
        if name in ("nth_of", "nth_of_c"):
            return M.nth_of(r.randrange(len(ps)), ps, name == "nth_of")
        return getattr(M, name)(ps)


def system(g, n, depth):
    """n mutually recursive parsers; the first one is the start"""
    r = g.r
    boxes = [[None] for _ in range(n)]
    g.refs = [M.ref("N%d" % i, b) for i, b in enumerate(boxes)]
    for i, b in enumerate(boxes):
        for _ in range(60):
            x = r.random()
            # alternatives, at least one of them without recursion
            if x < 0.6:
                alts = [g.make(r.choice(SEQUENCED), depth)
                        for _ in range(r.randint(1, 3))]
                alts.insert(r.randint(0, len(alts)), G.Gen.terminal(g))
                p = M.one_of(alts)
            else:
                p = g.make(r.choice(SEQUENCED + ["transform", "token",
                                                 "foldl1", "repeated1",
                                                 "change_error_message",
                                                 "foldl_start_with_parser"]),
                           depth)
            if p.consumes and p.kind != "void" and len(p.cpp) < 2500:
                break
        else:
            p = M.one_of([M.sequence([M.lit_c(40), g.refs[0],
                                      M.lit_c(41)]), M.letter()])
        b[0] = p
    root = g.refs[0]
    decls = "".join("  struct N%d;\n" % i for i in range(n)) + \
        "".join("  struct N%d : %s {};\n" % (i, b[0].cpp)
                for i, b in enumerate(boxes))
    return root, boxes, decls


def finish_root(r, root, decls):
    x = r.random()
    if x < 0.3:
        root = M.sequence([root, M.here()])
    elif x < 0.45:
        root = M.entire_input(root)
    elif x < 0.6:
        root = M.repeated(root)
    else:
        root = M.Node("root", root.cpp, root.fn, root.kind, True)
    root.decls = decls
    return root


class Sampler:
    """derives texts from recursive definitions"""

    def __init__(self, g, boxes):
        self.g = g
        self.by = {"N%d" % i: b for i, b in enumerate(boxes)}
        self.left = 0

    def text(self, maxlen):
        g = self.g
        r = g.r
        old = g.sample

        def sample(p, budget=40):
            if p.name == "recursion":
                self.left -= 1
                if self.left < 0:
                    # finish quickly: a terminal alternative
                    b = self.by[p.cpp][0]
                    ts = [k for k in b.kids if k.ok or k.word]
                    return old(r.choice(ts)) if ts and b.name == "one_of" \
                        else b""
                return old(self.by[p.cpp][0], 40)
            return old(p, budget)
        g.sample = sample
        self.left = r.choice([0, 1, 2, 4, 8])
        try:
            s = sample(g.refs[0])
        finally:
            del g.sample
        x = r.random()
        if x < 0.25 and s:
            i = r.randrange(len(s))
            s = s[:i] + bytes([g.ch()]) + s[i + 1:]
        elif x < 0.4:
            s += bytes(g.ch() for _ in range(r.randint(1, 2)))
        elif x < 0.55 and s:
            s = s[:r.randrange(len(s))]
        return s[:maxlen]


def random_systems(h, n, cfg, first_id):
    rng = random.Random("C17/%s/%d" % (cfg.name, h.seed))
    out = []
    cid = first_id
    tries = 0
    while len(out) < n:
        tries += 1
        if tries > n * 200:
            raise RuntimeError("generator stuck")
        g = RecGen(rng, cfg.fam, cid, rng.random() < 0.4,
                   rng.choice([0, 0.1, 0.25]))
        try:
            _, boxes, decls = system(g, rng.choice([1, 1, 2, 3]),
                                     rng.randint(1, 3))
            if "N0" not in "".join(b[0].cpp for b in boxes):
                continue
            root = finish_root(rng, g.refs[0], decls)
            best = None
            for _ in range(6):
                data = Sampler(g, boxes).text(rng.choice([6, 16, 28]))
                c = mk(cid, cfg, rng, root, data)
                if c and (best is None or
                          c.cx.deepest > best.cx.deepest):
                    best = c
            if best is None:
                continue
            if best.cx.deepest < 2 and "unreached" not in decls and \
                    rng.random() < 0.8:
                continue
            out.append(best)
            cid += 1
        except (M.ModelLimit, RecursionError):
            continue
    return out


def mk(cid, cfg, rng, root, data, fuel=2500, car=None):
    start, start_cpp = G.start_pos(rng)
    c = GC.Case()
    c.id, c.cfg, c.node, c.data = cid, cfg, root, bytes(data)
    c.start, c.start_cpp = start, start_cpp
    c.car = car or G.carrier(rng, cfg.fam, c.data)
    c.cx = M.Ctx(M.Input(c.data, start), cfg.fam, fuel)
    try:
        c.exp = root.run(c.cx, 0)
    except (M.ModelLimit, RecursionError):
        return None
    return c


# ------------------------------------------------------------- known shapes

def through(r):
    """recursion through each combinator in turn:
    N = '(' COMB(N) ')' | letter"""
    def each(n):
        return [
            ("sequence", M.sequence([n])),
            ("first_of", M.first_of([n, M.optional(M.digit(), 1)])),
            ("last_of", M.last_of([M.optional(M.digit(), 1), n])),
            ("nth_of", M.nth_of(1, [M.here(), n, M.here()], True)),
            ("nth_of_c", M.nth_of(0, [n, M.here()])),
            ("middle_of", M.middle_of(M.optional(M.lit_c(60), 1), n,
                                      M.optional(M.lit_c(62), 1))),
            ("sequence_apply", M.sequence_apply([n, M.here()])),
            ("one_of", M.one_of([M.digit(), n])),
            ("one_of2", M.one_of([n, M.digit()])),
            ("optional", M.optional(n, 5)),
            ("if_", M.sequence([M.if_(n, 1, 2), M.repeated(
                M.one_char_except_c([41]))])),
            ("except", M.sequence([M.except_(n, 1, 2), M.repeated(
                M.one_char_except_c([41]))])),
            ("look_ahead", M.sequence([M.look_ahead(n), n])),
            ("repeated", M.repeated(n)),
            ("repeated1", M.repeated(n, True)),
            ("repeated_ri", M.repeated(n, False, True)),
            ("repeated_ri1", M.repeated(n, True, True)),
            ("repeated_one_of", M.repeated_one_of([M.digit(), n])),
            ("repeated_one_of1", M.repeated_one_of([n, M.digit()], True)),
            ("foldl", M.fold("l", n, 1, 2)),
            ("foldl1", M.fold("l", n, 1, 2, True)),
            ("foldr", M.fold("r", n, 1, 2)),
            ("foldr1", M.fold("r", n, 1, 2, True)),
            ("foldl_ri", M.fold("l", n, 1, 2, False, True)),
            ("foldl_ri1", M.fold("l", n, 1, 2, True, True)),
            ("foldr_ri", M.fold("r", n, 1, 2, False, True)),
            ("foldr_ri1", M.fold("r", n, 1, 2, True, True)),
            ("foldl_swp", M.foldl_swp(M.last_of([M.lit_c(44), n]), n, 3)),
            ("foldl_ri_swp", M.foldl_swp(M.last_of([M.lit_c(44), n]), n, 3,
                                         True)),
            ("foldr_swp", M.foldr_swp(M.first_of([M.digit(), n]), n, 3)),
            ("fafce", M.sequence([M.always(M.fail_at_first_char_expected(
                M.last_of([M.digit(), n])), 4), n])),
            ("transform", M.transform(n, 3)),
            ("always", M.always(n, 3)),
            ("accept_when", M.accept_when_const(n, True, 3)),
            ("change_error_message", M.change_error_message(n, 3)),
            ("transform_error", M.transform_error(n, 3)),
            ("transform_error_message", M.transform_error_message(n, 3)),
            ("token", M.token(n)),
            ("iterate", M.iterate(n, 2, True)),
            ("iterate_c", M.iterate(n, 1)),
            ("entire_input", M.optional(M.entire_input(n), 3)),
        ]
    count = len(each(M.letter()))
    for i in range(count):
        box = [None]
        n = M.ref("N0", box)
        name, inner = each(n)[i]
        if inner.kind == "void":
            inner = M.always(inner, 6)
        shape = r.randrange(3)
        if shape == 0:
            body = M.one_of([M.middle_of(M.lit_c(40), inner, M.lit_c(41)),
                             M.letter()])
        elif shape == 1:
            body = M.one_of([M.letter(), M.sequence(
                [M.lit_c(40), inner, M.lit_c(41)])])
        else:
            body = M.one_of([M.last_of([M.lit_c(40), M.first_of(
                [inner, M.lit_c(41)])]), M.letter()])
        box[0] = body
        yield name, n, "  struct N0;\n  struct N0 : %s {};\n" % body.cpp


def nested(r, depth):
    if depth <= 0 or r.random() < 0.1:
        return bytes([r.choice(b"abz")])
    k = r.choice([1, 1, 1, 2, 3])
    sep = r.choice([b"", b",", b"1", b" "]) if r.random() < 0.5 else b""
    return b"(" + sep.join(nested(r, depth - 1) for _ in range(k)) + b")"


def calculator(box_name="N0"):
    """int, + - * / over nested parentheses, as in the documentation"""
    b0, b1, b2 = [None], [None], [None]
    exp, mul, prim = M.ref("N0", b0), M.ref("N1", b1), M.ref("N2", b2)
    tok = lambda c: M.token(M.lit_c(c))
    b2[0] = M.one_of([M.token(M.int_()),
                      M.middle_of(tok(40), exp, tok(41)),
                      M.sequence([tok(45), prim])])
    b1[0] = M.foldl_swp(M.sequence([M.one_of([tok(42), tok(47)]), prim]),
                        prim, 2)
    b0[0] = M.foldl_swp(M.sequence([M.one_of([tok(43), tok(45)]), mul]),
                        mul, 1)
    decls = "  struct N0;\n  struct N1;\n  struct N2;\n" + "".join(
        "  struct N%d : %s {};\n" % (i, b[0].cpp)
        for i, b in enumerate([b0, b1, b2]))
    return exp, decls


def expression(r, d):
    x = r.random()
    if d <= 0 or x < 0.25:
        return str(r.choice([0, 7, 13, 998])).encode()
    ws = lambda: r.choice([b"", b"", b" ", b"\n"])
    if x < 0.5:
        return b"(" + ws() + expression(r, d - 1) + ws() + b")"
    if x < 0.6:
        return b"-" + expression(r, d - 1)
    return expression(r, d - 1) + ws() + bytes([r.choice(b"+-*/")]) + ws() + \
        expression(r, d - 1)


def lazy_cases(r, fam, top):
    """parsers and functions behind the place where parsing stops"""
    stop = M.lit_c(88)
    for a in range(2, top + 1):
        for j in range(a):
            word = [r.choice(b"abcxyz\n") for _ in range(a)]
            ps = [M.lit_c(c) for c in word[:j]] + [stop] + \
                [M.unreached()] * (a - j - 1)
            combs = [M.sequence, M.first_of, M.last_of,
                     lambda q: M.nth_of(r.randrange(len(q)), q),
                     lambda q: M.nth_of(r.randrange(len(q)), q, True)]
            if a <= 4:
                combs.append(M.sequence_apply)
            if a == 3:
                combs.append(lambda q: M.middle_of(*q))
            for comb in combs:
                yield comb(ps), bytes(word)
    u = M.unreached()
    # ill-formed on a letter (on a digit) only
    on_letter = M.optional(M.last_of([M.letter(), u]), 5)
    on_digit = M.one_of([M.letter(), M.last_of([M.digit(), u])])
    for t in (b"a", b"ab", b"abcd", b"ab1", b"", b"1"):
        yield M.foldr_swp(M.letter(), on_letter, 3), t
        yield M.foldr_swp(M.letter(), M.last_of([M.lit_c(98), u]), 3), t
        yield M.foldl_swp(M.last_of([M.letter(), u]), M.repeated(M.letter()),
                          3), t
        yield M.foldl_swp(M.last_of([M.letter(), u]), M.repeated(M.letter()),
                          3, True), t
    for k in (0, 1, 2, 3):
        for c in (False, True):
            yield M.iterate(on_digit, k, c), b"abc"[:k] + b"1"
            yield M.iterate(on_digit, k, c), b"abc"[:k - 1] + b"."
    for t in (b"", b"a", b"ab"):
        yield M.foldl_swp(u, stop, 3), t
        yield M.foldl_swp(u, stop, 3, True), t
        yield M.token(M.sequence([stop, u])), t
        yield M.entire_input(M.last_of([stop, u])), t
        yield M.iterate(M.sequence([stop, u]), 3), t
        yield M.repeated(M.sequence([stop, u])), t
        yield M.repeated(M.sequence([stop, u]), True), t
        yield M.optional(M.sequence([stop, u]), 3), t
        yield M.except_(M.sequence([stop, u]), 3, 4), t
        yield M.if_(M.sequence([stop, u]), 3, 4), t
        for one in (False, True):
            for ri in (False, True):
                for d in "lr":
                    p = M.fold(d, M.letter(), 3, 4, one, ri)
                    # the operation is not needed for no elements at all
                    q = M.Node(p.name, p.cpp.replace("vr::fop<4>",
                                                     "vr::unreached_fn"),
                               lambda cx, i, p=p: p.run(cx, i))
                    if t == b"":
                        yield q, t
        yield M.with_fn("transform", stop, ["vr::unreached_fn"],
                        lambda o: not o.err), t
        yield M.with_fn("accept_when", stop, ["vr::unreached_fn",
                                              "vr::msg<1>"],
                        lambda o: not o.err), t
        ok = M.return_(3)
        yield M.with_fn("transform_error", ok, ["vr::unreached_fn"],
                        lambda o: o.err), t
        yield M.with_fn("transform_error_message", ok, ["vr::unreached_fn"],
                        lambda o: o.err), t


def c17(h):
    cases = []
    cid = 1
    for name in CFGS:
        cfg = CONFIGS[name]
        cs = random_systems(h, thorough(h, 60, 900), cfg, cid)
        cases += cs
        cid += len(cs)
    GC.run_cases(h, cases, batch=10)
    h.stats["deepest random recursion"] = max(c.cx.deepest for c in cases)
    h.stats["random cases with unreached parsers"] = sum(
        "unreached" in c.node.decls for c in cases)
    cases = []
    cid = 1000000
    for name in CFGS:
        cfg = CONFIGS[name]
        r = random.Random("C17s/%s/%d" % (name, h.seed))
        for rep in range(thorough(h, 1, 8)):
            for cname, n, decls in through(r):
                for k in range(2):
                    for _ in range(20):
                        t = nested(r, r.choice([1, 2, 3, 4]))
                        if k:
                            x = r.random()
                            if x < 0.4:
                                t = t[:r.randrange(len(t) + 1)]
                            elif x < 0.7:
                                j = r.randrange(len(t))
                                t = t[:j] + bytes([r.choice(b")(1,x .")]) + \
                                    t[j + 1:]
                        root = finish_root(r, n, decls)
                        c = mk(cid, cfg, r, root, t[:30])
                        if c is None or (not k and c.exp.err and
                                         r.random() < 0.9):
                            continue
                        cases.append(c)
                        cid += 1
                        h.count("recursion through " + cname)
                        break
        for _ in range(thorough(h, 8, 60)):
            n, decls = calculator()
            t = expression(r, r.choice([2, 3, 4]))[:40]
            if r.random() < 0.3 and t:
                j = r.randrange(len(t))
                t = t[:j] + bytes([r.choice(b")(x+")]) + t[j + 1:]
            c = mk(cid, cfg, r, finish_root(r, n, decls), t, 20000)
            if c:
                cases.append(c)
                cid += 1
        for node, t in lazy_cases(r, cfg.fam, {"98": 4, "11": 6}[cfg.fam]):
            c = mk(cid, cfg, r, node, t)
            if c:
                cases.append(c)
                cid += 1
                h.count("unreached parser or function: not applied")
        # deep nesting, balanced and not
        for d in thorough(h, [25, 60], [20, 40, 60, 90, 110]):
            for short in (0, r.choice([1, 3])):
                box = [None]
                n = M.ref("N0", box)
                body = r.choice([
                    lambda: M.one_of([M.middle_of(M.lit_c(40), n,
                                                  M.lit_c(41)),
                                      M.letter()]),
                    lambda: M.sequence([M.lit_c(40), M.optional(n, 3),
                                        M.lit_c(41)]),
                    lambda: M.last_of([M.lit_c(40), M.repeated(n),
                                       M.lit_c(41)])])()
                box[0] = body
                t = b"(" * d + (b"x" if body.name == "one_of" else b"") + \
                    b")" * (d - short)
                c = mk(cid, cfg, r, finish_root(
                    r, n, "  struct N0;\n  struct N0 : %s {};\n" % body.cpp),
                    t, 200000)
                if c:
                    cases.append(c)
                    cid += 1
    GC.run_cases(h, cases, batch=14)
    h.stats["deepest structured recursion"] = max(c.cx.deepest for c in cases)
    return h.finish(
        "Random systems of 1..3 mutually recursive parsers over all "
        "combinators (every definition consumes before it recurs), with "
        "ill-formed parsers, functions and predicates in places the "
        "documented evaluation does not reach; recursion through each "
        "combinator in turn; a calculator with nested parentheses; nesting "
        "up to 110 deep.  Non-trivial: the input is not empty.", ASSUME,
        min_eval=200)

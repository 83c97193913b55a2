"""Random and hostile workloads: grammars over the public combinators, inputs
derived from them and mutated, start positions, input carriers."""
from . import model as M

PLAIN = [ord(c) for c in "abcxyz012789+-*/(), \n\t\r_=AZ"]
HOSTILE = [0, 1, 7, 10, 11, 12, 13, 27, 34, 39, 47, 58, 63, 64, 91, 92, 96,
           123, 126, 127, 128, 160, 191, 200, 254, 255]
EDGES = [47, 48, 57, 58, 64, 65, 90, 91, 96, 97, 122, 123]


class Gen:
    def __init__(self, rng, fam, case=0, spies=False, user_leaf=0.25):
        self.r = rng
        self.fam = fam
        self.case = case
        self.k = 0
        self.spies = spies
        self.evals = 0.0     # share of sub-parsers spelled P::type
        self.nspy = 0
        self.user_leaf = user_leaf
        self.max_arity = 4 if fam == "98" else 8
        # a grammar talks about few characters, so inputs hit them often
        self.alpha = rng.sample(PLAIN, 4) + rng.sample(PLAIN + HOSTILE, 2)
        if rng.random() < 0.5:
            self.alpha += [10, 13]

    def fresh(self):
        self.k += 1
        return self.k

    def ch(self):
        if self.r.random() < 0.9:
            return self.r.choice(self.alpha)
        return self.r.choice(HOSTILE + PLAIN)

    # ------------------------------------------------------------- terminals
    def terminal(self):
        r = self.r
        if r.random() < self.user_leaf:
            return M.uchar(self.ch(), self.fresh())
        x = r.randrange(16)
        if x <= 3:
            return M.lit_c(self.ch())
        if x == 4:
            return M.lit(self.ch())
        if x == 5:
            return M.digit()
        if x == 6:
            return M.letter()
        if x == 7:
            return M.alphanum()
        if x == 8:
            return M.space()
        if x == 9:
            return M.one_char()
        if x == 10:
            a, b = sorted([self.ch(), self.ch()], key=M.sc)
            return r.choice([M.range_c, M.range_])(a, b)
        if x == 11:
            return M.one_of_c([self.ch() for _ in range(r.randint(1, 5))])
        if x == 12:
            return M.one_char_except_c([self.ch()
                                        for _ in range(r.randint(1, 5))])
        if x == 13:
            return M.one_char_except([self.ch()
                                      for _ in range(r.randint(1, 5))])
        if x == 14:
            return M.digit_val()
        return M.keyword([self.ch() for _ in range(r.randint(1, 4))],
                         self.fresh())

    def zero_width(self, d):
        r = self.r
        x = r.randrange(7)
        if x <= 1:
            return M.here()
        if x == 2:
            return M.return_(self.fresh())
        if x == 3:
            return M.empty(self.fresh())
        if x == 4:
            return M.except_(self.any(d - 1), self.fresh(), self.fresh())
        if x == 5:
            return M.if_(self.any(d - 1), self.fresh(), self.fresh())
        return M.look_ahead(self.any(d - 1))

    # ----------------------------------------------------------------- trees
    def many(self, d, lo=1, hi=None):
        n = self.r.randint(lo, hi or min(self.max_arity, 4))
        return [self.any(d - 1) for _ in range(n)]

    def consuming(self, d):
        for _ in range(30):
            p = self.any(d)
            if p.consumes:
                return p
        return M.one_char()

    def charlike(self, d):
        for _ in range(12):
            p = self.any(d)
            if p.kind in ("char", "int"):
                return p
        return self.r.choice([M.one_char, M.digit_val, M.letter])()

    def any(self, d):
        p = self._any(d)
        if p.kind == "void":     # results used further are never void
            p = M.always(p, self.fresh())
        if self.spies and self.r.random() < 0.3:
            self.nspy += 1
            p = M.spy(self.case, self.nspy, p)
        if self.evals and self.r.random() < self.evals:
            p = M.evaluated(p)
        return p

    def _any(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.terminal() if r.random() < 0.85 else \
                (M.here() if r.random() < 0.7 else M.fail(self.fresh()))
        return self.make(r.choice(ALL), d)

    def make(self, name, d):
        """a node with the given combinator at its root"""
        r = self.r
        f = self.fresh
        if name in ("sequence", "first_of", "last_of"):
            hi = self.max_arity if r.random() < 0.15 else 4
            return getattr(M, name)(self.many(d, 1, min(hi, self.max_arity)))
        if name == "sequence_apply":
            return M.sequence_apply(self.many(d, 1, 4))
        if name in ("nth_of", "nth_of_c"):
            ps = self.many(d, 1, 4)
            n = r.randrange(len(ps))
            if r.random() < 0.06:
                n = r.choice([-1, len(ps), len(ps) + 3, -7])
            return M.nth_of(n, ps, name == "nth_of")
        if name == "middle_of":
            return M.middle_of(*self.many(d, 3, 3))
        if name == "token":
            return M.token(self.any(d - 1))
        if name == "entire_input":
            return M.entire_input(self.any(d - 1), r.choice([None, f()]))
        if name in ("iterate", "iterate_c"):
            return M.iterate(self.any(d - 1), r.choice([0, 1, 1, 2, 2, 3, 5]),
                             name == "iterate")
        if name == "keyword":
            return M.keyword([self.ch() for _ in range(r.randint(0, 6))], f())
        if name == "zero_width":
            return self.zero_width(d)
        if name == "one_of":
            ps = self.many(d, 1, 6)
            if r.random() < 0.7:
                # alternatives with a common prefix, so that they progress
                # differently far before failing
                pre = self.consuming(1)
                ps = [M.sequence([pre] + [q]) if r.random() < 0.6 else q
                      for q in ps]
            return M.one_of(ps)
        if name == "optional":
            return M.optional(self.any(d - 1), f())
        if name == "if_":
            return M.if_(self.any(d - 1), f(), f())
        if name == "except":
            return M.except_(self.any(d - 1), f(), f())
        if name == "look_ahead":
            return M.look_ahead(self.any(d - 1))
        if name in ("repeated", "repeated1", "repeated_reject_incomplete",
                    "repeated_reject_incomplete1"):
            return M.repeated(self.consuming(d - 1), name.endswith("1"),
                              "reject" in name)
        if name in ("repeated_one_of", "repeated_one_of1"):
            return M.repeated_one_of([self.consuming(d - 1) for _ in
                                      range(r.randint(1, 4))],
                                     name.endswith("1"))
        if name in ("foldl", "foldl1", "foldr", "foldr1",
                    "foldl_reject_incomplete", "foldl_reject_incomplete1",
                    "foldr_reject_incomplete", "foldr_reject_incomplete1"):
            return M.fold(name[4], self.consuming(d - 1), f(), f(),
                          name.endswith("1"), "reject" in name)
        if name in ("foldl_start_with_parser",
                    "foldl_reject_incomplete_start_with_parser"):
            return M.foldl_swp(self.consuming(d - 1), self.any(d - 1), f(),
                               "reject" in name)
        if name == "foldr_start_with_parser":
            return M.foldr_swp(self.consuming(d - 1), self.any(d - 1), f())
        if name == "fail_at_first_char_expected":
            return M.fail_at_first_char_expected(self.any(d - 1))
        if name == "transform":
            return M.transform(self.any(d - 1), f())
        if name == "always":
            return M.always(self.any(d - 1), f())
        if name == "always_c":
            return M.always_c(self.ch(), f())
        if name == "accept_when":
            if r.random() < 0.75:
                a, b = sorted([self.ch(), self.ch()], key=M.sc)
                if r.random() < 0.4:
                    a, b = r.choice([(0, 4), (0, 127), (48, 57)])
                return M.accept_when_between(self.charlike(d - 1), a, b, f())
            return M.accept_when_const(self.any(d - 1), r.random() < 0.6, f())
        if name in ("change_error_message", "transform_error_message",
                    "transform_error"):
            return getattr(M, name)(self.any(d - 1), f())
        if name == "int_":
            return M.int_()
        if name == "spaces":
            return M.spaces()
        if name == "terminal":
            return self.terminal()
        raise KeyError(name)

    # ---------------------------------------------------------------- inputs
    def sample(self, p, budget=40):
        """a text p probably accepts (a prefix of)"""
        r = self.r
        if p.ok is not None:
            pool = [b for b in self.alpha + PLAIN if p.ok(b)]
            if not pool or r.random() < 0.03:
                pool = [b for b in range(256) if p.ok(b)]
            return bytes([r.choice(pool)]) if pool else b""
        if p.word is not None:
            return p.word
        n = p.name
        ks = p.kids
        if n == "int_":
            return str(r.choice([0, 7, 42, 1234, r.randrange(10**9)])).encode()
        if n == "spaces":
            return bytes(r.choice(b" \t\n\r") for _ in range(r.randint(1, 4)))
        if not ks or budget <= 0:
            return b""
        sub = lambda k: self.sample(k, budget // 2)
        if n == "one_of":
            return sub(r.choice(ks))
        if n in ("repeated_one_of", "repeated_one_of1"):
            return b"".join(sub(r.choice(ks)) for _ in
                            range(r.choice([0, 1, 2, 4, 8])))
        if n in ("if_", "look_ahead", "optional"):
            return sub(ks[0]) if r.random() < 0.7 else b""
        if n in ("except", "fail_at_first_char_expected"):
            return sub(ks[0]) if r.random() < 0.3 else b""
        if n.startswith("repeated") or (n.startswith("fold") and
                                        len(ks) == 1):
            s = b"".join(sub(ks[0]) for _ in range(r.choice([0, 1, 2, 3, 8])))
            if r.random() < 0.4:
                t = sub(ks[0])        # an incomplete element at the end
                s += t[:-1]
            return s
        if n == "foldr_start_with_parser":
            return b"".join(sub(ks[0]) for _ in
                            range(r.choice([0, 1, 2, 4]))) + sub(ks[1])
        if n.startswith("foldl"):
            return sub(ks[1]) + b"".join(sub(ks[0]) for _ in
                                         range(r.choice([0, 1, 2, 4])))
        if n in ("iterate", "iterate_c"):
            return b"".join(sub(ks[0]) for _ in range(p.n))
        if n == "token":
            return sub(ks[0]) + bytes(r.choice(b" \t\n\r") for _ in
                                      range(r.randint(0, 3)))
        return b"".join(sub(k) for k in ks)

    def text(self, p, maxlen):
        """an input for the parser p"""
        r = self.r
        if r.random() < 0.06:
            n = r.choice([0, 1, 2, r.randint(0, maxlen)])
            return bytes(self.ch() for _ in range(n))
        cands = [self.sample(p)[:maxlen + 6] for _ in range(6)]
        reach = [(self.reach(p, c) or 0, r.random(), c) for c in cands]
        s = max(reach)[2] if r.random() < 0.8 else cands[0]
        # grow: extend as long as the furthest position reached by p grows
        best = self.reach(p, s)
        for _ in range(r.choice([0, 3, 8])):
            cand = s + bytes([self.ch()])
            n = self.reach(p, cand)
            if n is None:
                break
            if best is None or n > best:
                s, best = cand, n
        # mutations
        x = r.random()
        if x < 0.2 and s:
            i = r.randrange(len(s))
            s = s[:i] + bytes([self.ch()]) + s[i + 1:]
        elif x < 0.45:
            s = s + bytes(self.ch() for _ in range(r.randint(1, 3)))
        elif x < 0.55 and s:
            s = s[:-1]
        elif x < 0.6 and len(s) > 1:
            i = r.randrange(len(s))
            s = s[:i] + s[i + 1:]
        return s[:maxlen]

    def reach(self, p, s):
        cx = M.Ctx(M.Input(s), self.fam, fuel=4000)
        try:
            return p.run(cx, 0).i
        except (M.ModelLimit, RecursionError):
            return None


ALL = ["sequence", "first_of", "last_of", "sequence_apply", "nth_of",
       "nth_of_c", "middle_of", "token", "entire_input", "iterate",
       "iterate_c", "keyword", "zero_width", "one_of", "one_of", "optional",
       "if_", "except", "look_ahead", "repeated", "repeated1",
       "repeated_reject_incomplete", "repeated_reject_incomplete1",
       "repeated_one_of", "repeated_one_of1", "foldl", "foldl1", "foldr",
       "foldr1", "foldl_reject_incomplete", "foldl_reject_incomplete1",
       "foldr_reject_incomplete", "foldr_reject_incomplete1",
       "foldl_start_with_parser", "foldl_reject_incomplete_start_with_parser",
       "foldr_start_with_parser", "fail_at_first_char_expected", "transform",
       "always", "always_c", "accept_when", "change_error_message",
       "transform_error_message", "transform_error", "int_", "spaces",
       "terminal", "terminal"]


def start_pos(r):
    """a source position the parse begins at, and its C++ spelling"""
    if r.random() < 0.6:
        return (1, 1, 0), "mp::start"
    l, c = r.randint(1, 200), r.randint(1, 200)
    p = r.choice([0, 10, 13, 97, 13, M.sc(255)])
    return (l, c, p), \
        "mp::source_position<%s, %s, %s >" \
        % (M.boxi(l), M.boxi(c), M.boxc(p & 255))


def carrier(r, fam, bs, limit98=32):
    """a C++ spelling of the input text"""
    if fam == "98":
        if len(bs) <= limit98 and r.random() < 0.7:
            return M.string_cpp(bs)
        if len(bs) <= 20 and r.random() < 0.4:
            return M.tmpl("mpl::%s_c" % r.choice(["list", "vector"]), "char",
                          *map(M.cc, bs)) if bs else "mpl::list<>"
        return M.cons_cpp(bs)
    x = r.random()
    if x < 0.75:
        return M.string_cpp(bs)
    if x < 0.85 and 0 < len(bs) <= 20:
        return M.tmpl("mpl::%s_c" % r.choice(["list", "vector"]), "char",
                      *map(M.cc, bs))
    return M.cons_cpp(bs)

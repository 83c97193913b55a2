"""C01, C03, C04, C05, C06, C07: generated parsers against the reference
model, plus structured hostile families for each group of combinators."""
import random

from . import gen as G
from . import grammar_check as GC
from . import model as M
from .harness import CONFIGS

CFGS = ["g98", "g11", "g14", "g17", "c98", "c17"]

SEQ = ["sequence", "sequence_apply", "nth_of", "nth_of_c", "first_of",
       "last_of", "middle_of", "iterate", "iterate_c", "keyword", "token",
       "spaces", "entire_input"]
CHOICE = ["one_of", "one_of", "optional", "if_", "except", "look_ahead",
          "repeated_one_of", "repeated_one_of1"]
FOLD = ["repeated", "repeated1", "foldl", "foldl1", "foldr", "foldr1",
        "foldl_start_with_parser", "foldr_start_with_parser"]
RI = ["foldl_reject_incomplete", "foldl_reject_incomplete1",
      "foldr_reject_incomplete", "foldr_reject_incomplete1",
      "foldl_reject_incomplete_start_with_parser",
      "repeated_reject_incomplete", "repeated_reject_incomplete1",
      "fail_at_first_char_expected"]
TRANS = ["transform", "always", "always_c", "accept_when",
         "change_error_message", "transform_error_message", "transform_error",
         "zero_width"]

ASSUME = [
    "observed: what g++ 13 and clang 18 compute when they instantiate the "
    "library's templates; other compilers are not run",
    "char is signed, \\n is 10 and \\r is 13 on this target",
    "the reference model (mp/model.py) states the documented behaviour",
]


class B:
    """collects cases"""

    def __init__(self, h, salt, first_id):
        self.h = h
        self.salt = salt
        self.id = first_id
        self.cases = []
        self.rngs = {}

    def rng(self, cfg):
        if cfg.name not in self.rngs:
            self.rngs[cfg.name] = random.Random(
                "%s/%s/%s/%d" % (self.h.prop, self.salt, cfg.name,
                                 self.h.seed))
        return self.rngs[cfg.name]

    def add(self, cfg, node, data, start=None, start_cpp=None, car=None,
            limit98=32):
        if node.kind == "void":
            node = M.always(node, 9000)
        try:
            c = GC.mk_case(self.id, cfg, self.rng(cfg), node, data, start,
                           start_cpp, car, limit98)
        except (M.ModelLimit, RecursionError):
            return
        self.cases.append(c)
        self.id += 1


def thorough(h, q, t):
    return t if h.tier == "thorough" else q


def some(rng, xs, n):
    xs = list(xs)
    return xs if len(xs) <= n else rng.sample(xs, n)


# -------------------------------------------------------------------- C01

def multi_line_text(rng, n, alpha=b"abc 12"):
    out = bytearray()
    while len(out) < n:
        x = rng.random()
        if x < 0.12:
            out += b"\n"
        elif x < 0.2:
            out += b"\r"
        elif x < 0.35:
            out += b"\r\n"
        elif x < 0.4:
            out += b"\n\r"
        elif x < 0.43:
            out += bytes([rng.choice(G.HOSTILE)])
        else:
            out.append(rng.choice(alpha))
    return bytes(out[:n])


def c01(h):
    n = thorough(h, 260, 1600)
    GC.run_cases(h, GC.random_cases(h, n, CFGS, G.ALL, depth=4, spies=True,
                                    salt="all", first_id=1))
    b = B(h, "lines", 1000000)
    for name in CFGS:
        cfg = CONFIGS[name]
        r = b.rng(cfg)
        any_line = M.one_char
        for _ in range(thorough(h, 10, 60)):
            t = multi_line_text(r, r.choice([1, 2, 3, 5, 9, 17, 31]))
            # positions after every prefix, seen from inside and outside
            k = r.randint(0, len(t))
            b.add(cfg, M.sequence([M.iterate(any_line(), k), M.here()]), t)
            b.add(cfg, M.sequence([M.repeated(M.sequence(
                [M.here(), any_line()])), M.empty(1)]), t)
            # an error in the middle of the text
            k = r.randint(0, len(t))
            b.add(cfg, M.sequence([M.iterate(any_line(), k), M.fail(3)]), t)
            b.add(cfg, M.one_of([
                M.sequence([M.iterate(any_line(), r.randint(0, len(t))),
                            M.fail(i)]) for i in range(3)]), t)
            b.add(cfg, M.middle_of(any_line(), M.repeated(
                M.one_char_except_c([r.choice(t)])), M.lit_c(r.choice(t))), t)
            b.add(cfg, M.sequence([M.token(M.here()), M.here(),
                                   M.token(M.repeated(M.letter())),
                                   M.here()]), t)
            b.add(cfg, M.sequence([M.keyword(t[:r.randint(0, len(t))], 1),
                                   M.here()]), t)
        # long texts: every position of hundreds of characters
        for _ in range(thorough(h, 2, 8)):
            t = multi_line_text(r, r.choice([150, 260, 400]))
            b.add(cfg, M.sequence([M.repeated(M.one_char()), M.here()]), t)
            b.add(cfg, M.sequence([
                M.fold("r", M.one_char_except_c([99]), 1, 2), M.here(),
                M.fold("l", M.one_char(), 3, 4), M.here()]), t)
    # the recorded column after \r\n
    probe = CONFIGS["g17"]
    b2 = B(h, "crlf", 2000000)
    b2.add(probe, M.sequence([M.one_char(), M.one_char(), M.one_char(),
                              M.here()]), b"a\r\nb", (1, 1, 0), "mp::start")
    GC.run_cases(h, b.cases, batch=10)
    GC.run_cases(h, b2.cases)
    crlf_probe(h, probe)
    return h.finish(
        "Random combinator trees (all combinators, depth <= 4) with spies and "
        "position probes over inputs derived from the tree and mutated; "
        "structured multi-line texts with every mix of \\n, \\r, \\r\\n up to "
        "400 characters; start positions other than 1:1.  A case is "
        "non-trivial when the tree has >= 2 nodes or the input is not empty.",
        ASSUME, min_eval=200)


def crlf_probe(h, cfg):
    """known finding: the first character after \\r\\n is reported in column
    2 instead of 1"""
    node = M.sequence([M.iterate(M.one_char(), 3)])
    c = GC.mk_case(3000000, cfg, random.Random(1), node, b"a\r\nb", (1, 1, 0),
                   "mp::start")
    o = h.run_batch(cfg, [c.triple()])[c.id]
    if o[0] == "skip":
        return
    if o[0] != "log":
        h.violation("crlf probe: " + o[0], cfg, h.tu([c.triple()]), "log",
                    o[1][:500])
        return
    pos = GC.parse_c(o[1][0])[-1]
    h.eval("crlf", True)
    if pos != (2, 1, 10):
        h.violation("the position after \\r\\n is not the start of line 2",
                    cfg, h.tu([c.triple()]), (2, 1, 10), pos,
                    key="after 'a\\r\\n' position=%s" % (pos,))


# -------------------------------------------------------------------- C03

def seq_limit_cfg():
    return [CONFIGS["g98"].derive("g98seq12",
                                  ["-DBOOST_METAPARSE_LIMIT_SEQUENCE_SIZE=12"]),
            CONFIGS["c98"].derive("c98seq9",
                                  ["-DBOOST_METAPARSE_LIMIT_SEQUENCE_SIZE=9"]),
            CONFIGS["g17"].derive("g17seq12",
                                  ["-DBOOST_METAPARSE_LIMIT_SEQUENCE_SIZE=12"])
            ]


def seq_limit_probe(h, cfg):
    """known finding: with fixed arities exactly LIMIT parsers, the documented
    maximum, can not be given to sequence, nth_of(_c), first_of and last_of"""
    ps = [M.one_char()] * 5
    for n, (name, p) in enumerate([
            ("sequence", M.sequence(ps)), ("first_of", M.first_of(ps)),
            ("last_of", M.last_of(ps)), ("nth_of", M.nth_of(3, ps, True)),
            ("nth_of_c", M.nth_of(3, ps))]):
        c = GC.mk_case(3100000 + n, cfg, random.Random(1), p, b"abcdef",
                       (1, 1, 0), "mp::start")
        o = h.run_batch(cfg, [c.triple()], quiet=True)[c.id]
        if o[0] == "skip":
            continue
        bad = GC.judge(c, o[1]) if o[0] == "log" else (o[0], None, None)
        h.eval("limit " + name, True)
        if bad:
            h.violation("%s of 5 parsers (the documented limit): %s"
                        % (name, bad[0]), cfg, h.tu([c.triple()]), bad[1],
                        bad[2] or o[1][:500],
                        key="C++98: %s of LIMIT parsers: %s" % (name, bad[0]))


def c03(h):
    n = thorough(h, 170, 1500)
    GC.run_cases(h, GC.random_cases(h, n, CFGS, SEQ, depth=3, salt="seq",
                                    first_id=1, spies=True))
    b = B(h, "struct", 1000000)
    lim = seq_limit_cfg()
    for cfg in [CONFIGS[x] for x in CFGS] + lim:
        r = b.rng(cfg)
        top = {"98": 4, "11": 12}[cfg.fam]
        if cfg in lim:
            top = int(cfg.extra[0].split("=")[1]) - 1
        arities = range(1, top + 1)
        if h.tier != "thorough":
            arities = sorted(set([1, 2, 3, top] + some(r, range(1, top + 1),
                                                       3)))
        if cfg.fam == "11":
            arities = list(arities) + [r.randint(20, thorough(h, 34, 60))]
        for a in arities:
            word = [r.choice(G.PLAIN) for _ in range(a)]
            leafs = [r.choice([M.lit_c, lambda c: M.uchar(c, r.randint(
                1, 99)), M.lit])(c) for c in word]
            combs = [M.sequence, M.first_of, M.last_of]
            if a <= (top if cfg in lim else 4):
                combs.append(M.sequence_apply)
            for i in some(r, range(-2, a + 2), thorough(h, 3, 99)):
                boxed = r.random() < 0.5
                combs.append(lambda ps, i=i, x=boxed: M.nth_of(i, ps, x))
            for comb in combs:
                p = comb(leafs)
                t = bytes(word)
                tail = bytes(r.choice(G.PLAIN) for _ in range(r.randint(0, 2)))
                b.add(cfg, M.sequence([p, M.here()]), t + tail)
                # break at every place / a sample of places
                for k in some(r, range(a), thorough(h, 2, 99)):
                    bad = 33 if word[k] != 33 else 34
                    b.add(cfg, p, t[:k] + bytes([bad]) + t[k + 1:])
                    if r.random() < 0.4:
                        b.add(cfg, p, t[:k])
        for node in [M.first_of([]), M.last_of([]), M.nth_of(0, []),
                     M.nth_of(2, [], True), M.nth_of(-1, [M.one_char()])]:
            b.add(cfg, node, r.choice([b"", b"ab"]))
        if cfg.fam == "11":
            b.add(cfg, M.sequence([]), b"ab")
        # iteration counts
        for k in [0, 1, 2, 3, 7, r.randint(8, 30), thorough(h, 40, 90)]:
            for boxed in (False, True):
                p = M.iterate(r.choice([M.letter(), M.sequence([
                    M.letter(), M.optional(M.digit(), 5)])]), k, boxed)
                t = b"".join(bytes([r.choice(b"abcXYZ")]) for _ in range(k))
                b.add(cfg, M.sequence([p, M.here()]), t + b"zz"[:r.randint(
                    0, 2)])
                if k:
                    j = r.randrange(k)
                    b.add(cfg, p, t[:j] + b"." + t[j + 1:])
                    b.add(cfg, p, t[:j])
        # keywords, with every kind of near miss
        for _ in range(thorough(h, 5, 25)):
            w = bytes(r.choice(G.PLAIN + G.HOSTILE) for _ in
                      range(r.choice([0, 1, 2, 5, 9, 17])))
            p = M.keyword(w, 1)
            b.add(cfg, M.sequence([p, M.here()]), w + r.choice(
                [b"", b"a", w[:2]]))
            b.add(cfg, M.first_of([M.here(), M.keyword(w, None)]), w)
            if w:
                j = r.randrange(len(w))
                b.add(cfg, p, w[:j])
                b.add(cfg, p, w[:j] + bytes([(w[j] + 1) % 256]) + w[j + 1:])
        # tokens and white space
        for _ in range(thorough(h, 6, 30)):
            ws = bytes(r.choice(b" \t\n\r\x0b\x0cx") for _ in
                       range(r.randint(0, 7)))
            b.add(cfg, M.sequence([M.token(M.letter()), M.here()]), b"a" + ws)
            b.add(cfg, M.sequence([M.token(M.keyword(b"ab", 3)),
                                   M.token(M.int_()), M.here()]),
                  b"ab" + ws + b"12" + ws[:2])
            b.add(cfg, M.sequence([M.spaces(), M.here()]), ws + b"b")
            b.add(cfg, M.entire_input(M.token(M.letter()),
                                      r.choice([None, 77])), b"a" + ws)
            b.add(cfg, M.entire_input(M.int_(), r.choice([None, 78])),
                  r.choice([b"12", b"12x", b"x", b"", b"12 "]))
            b.add(cfg, M.sequence([M.optional(M.lit_c(97), 1), M.empty(2),
                                   M.here()]), r.choice([b"", b"a", b"ab"]))
        # parts that consume nothing, or more than one character
        for _ in range(thorough(h, 5, 25)):
            part = lambda: r.choice([
                M.optional(M.lit_c(40), 4), M.keyword(b"((", 6), M.return_(7),
                M.lit_c(40), M.keyword(b"(\n", 5),
                M.optional(M.keyword(b"\n)", 9), 8), M.one_char(),
                M.look_ahead(M.one_char())])
            b.add(cfg, M.sequence([M.middle_of(part(), part(), part()),
                                   M.here()]),
                  bytes(r.choice(b"((\n )") for _ in range(r.randint(0, 6))))
        # the closing part is missing: where was it opened?
        for _ in range(thorough(h, 6, 30)):
            pre = multi_line_text(r, r.choice([0, 1, 3, 6]))
            inner = bytes(r.choice(b"abc\n1") for _ in range(r.randint(0, 4)))
            close = r.choice([b")", b"", b"]", b" )"])
            mid = M.middle_of(M.lit_c(40), M.repeated(M.one_char_except_c(
                [41, 93, 32])), M.lit_c(41))
            if r.random() < 0.3:
                mid = M.middle_of(M.lit_c(40), M.repeated(
                    M.one_of([M.letter(), mid])), r.choice(
                        [M.lit_c(41), M.token(M.keyword(b"))", 1))]))
                inner = inner + b"(b" + r.choice([b")", b""])
            b.add(cfg, M.last_of([M.iterate(M.one_char(), len(pre)),
                                  M.sequence([mid, M.here()])]),
                  pre + b"(" + inner + close)
    GC.run_cases(h, b.cases, batch=16)
    for name in ["g98", "c98"]:
        seq_limit_probe(h, CONFIGS[name])
    return h.finish(
        "Sequencing combinators at the root of random trees; every arity up "
        "to the limit, every index and break-off place (sampled in the quick "
        "tier), iteration counts, keywords with near misses, missing closing "
        "parts in multi-line text; fixed-arity limits raised by macro.  "
        "Non-trivial: >= 2 nodes or non-empty input.", ASSUME, min_eval=300)


# -------------------------------------------------------------------- C04

def c04(h):
    n = thorough(h, 260, 1600)
    GC.run_cases(h, GC.random_cases(h, n, CFGS, CHOICE, depth=3,
                                    salt="choice", first_id=1))
    b = B(h, "struct", 1000000)
    lims = [CONFIGS["g98"].derive(
        "g98one30", ["-DBOOST_METAPARSE_LIMIT_ONE_OF_SIZE=30",
                     "-DBOOST_MPL_CFG_NO_PREPROCESSED_HEADERS",
                     "-DBOOST_MPL_LIMIT_VECTOR_SIZE=30"])]
    for cfg in [CONFIGS[x] for x in CFGS] + lims:
        r = b.rng(cfg)
        top = 20 if cfg.fam == "98" else 28
        if cfg in lims:
            top = 30
        for _ in range(thorough(h, 60, 220)):
            a = r.choice([1, 2, 3, 3, 4, 5, 7, 12, top])
            # words with common prefixes, possibly across lines
            base = multi_line_text(r, 8, b"ab")
            words = []
            for i in range(a):
                w = base[:r.randint(0, 8)]
                if r.random() < 0.5 or not w:
                    w += bytes([r.choice(b"xyz\nab")])
                words.append(w)
            alts = []
            for i, w in enumerate(words):
                x = r.random()
                if x < 0.5:
                    alts.append(M.keyword(w, i))
                elif x < 0.7:
                    alts.append(M.transform_error_message(
                        M.keyword(w, i), 100 + i))
                elif x < 0.8:
                    alts.append(M.sequence([M.keyword(w, i), M.fail(200 + i)]))
                elif x < 0.9:
                    alts.append(M.transform(M.keyword(w, i), 300 + i))
                else:
                    alts.append(M.fail(400 + i))
            p = M.one_of(alts)
            t = r.choice([base, r.choice(words), base[:r.randint(0, 8)],
                          r.choice(words) + b"q", b""])
            k = r.random()
            if k < 0.3:
                b.add(cfg, M.sequence([p, M.here()]), t)
            elif k < 0.6:
                b.add(cfg, p, t)
            elif k < 0.7:
                b.add(cfg, M.sequence([M.optional(p, 900), M.here()]), t)
            elif k < 0.8:
                b.add(cfg, M.sequence([M.look_ahead(p), M.here()]), t)
            elif k < 0.9:
                b.add(cfg, M.sequence([r.choice([
                    M.if_(p, 901, 902), M.except_(p, 903, 904)]),
                    M.here()]), t)
            else:
                ps = [q for q in alts if q.consumes] or [M.letter()]
                b.add(cfg, M.sequence([M.repeated_one_of(
                    ps, r.random() < 0.5), M.here()]), t + t + base)
        b.add(cfg, M.one_of([]), b"a")
        b.add(cfg, M.sequence([M.repeated_one_of([]), M.here()]), b"a") \
            if cfg.fam == "11" else None
        for t in (b"", b"a", b"b"):
            b.add(cfg, M.optional(M.lit_c(97), None), t)
            b.add(cfg, M.first_of([M.here(), M.optional(M.lit_c(97), None)]),
                  t)
        # as many alternatives as there may be, the last one wanted
        for one in (False, True):
            abc = r.sample(range(33, 127), top)
            t = bytes([abc[-1], r.choice(abc), abc[0], abc[-2], abc[-1]])
            b.add(cfg, M.sequence([M.repeated_one_of(
                [M.always_c(c, i) for i, c in enumerate(abc)], one),
                M.here()]), t + b" " + t)
        # long alternations of a repeated choice
        for one in (False, True):
            t = bytes(r.choice(b"ab1 ") for _ in range(thorough(h, 60, 160)))
            b.add(cfg, M.sequence([M.repeated_one_of(
                [M.sequence([M.lit_c(97), M.lit_c(98)]), M.letter(),
                 M.always(M.digit(), 3), M.always_c(32, 4)], one),
                M.here()]), t + b"." + t[:3])
    # void results are only printed: keep them out of further combination
    GC.run_cases(h, b.cases, batch=16)
    return h.finish(
        "Choice and look-ahead combinators at the root of random trees; "
        "choices of up to 30 alternatives with common prefixes (also across "
        "lines) in random order, accepting, failing at different depths, "
        "ambiguous; as is and under optional / look_ahead / if_ / except / "
        "repetition.  Non-trivial: >= 2 nodes or non-empty input.", ASSUME,
        min_eval=300)


# -------------------------------------------------------------- C05 and C06

ELEMS = [
    ("letter", lambda r: M.letter(), [b"a", b"Z", b"q"]),
    ("ab", lambda r: M.sequence([M.lit_c(97), M.lit_c(98)]), [b"ab"]),
    ("kw", lambda r: M.keyword(b"foo\n", 7), [b"foo\n"]),
    ("num,", lambda r: M.first_of([M.int_(), M.lit_c(44)]),
     [b"1,", b"22,", b"007,"]),
    ("(x)", lambda r: M.middle_of(M.lit_c(40), M.letter(), M.lit_c(41)),
     [b"(a)", b"(b)"]),
    ("alt", lambda r: M.one_of([M.keyword(b"ax", 1), M.keyword(b"ay\nz", 2),
                                M.sequence([M.lit_c(98), M.digit()])]),
     [b"ax", b"ay\nz", b"b1"]),
    ("tok", lambda r: M.token(M.transform(M.keyword(b"xy", 3), 4)),
     [b"xy ", b"xy\n\n", b"xy"]),
    ("nested", lambda r: M.sequence([M.lit_c(43), M.repeated(M.digit()),
                                     M.lit_c(59)]), [b"+12;", b"+;"]),
    ("user", lambda r: M.sequence([M.uchar(117, 5), M.uchar(10, 6),
                                   M.here()]), [b"u\n"]),
    ("crlf", lambda r: M.sequence([M.lit_c(13), M.lit_c(10),
                                   M.lit_c(33)]), [b"\r\n!"]),
]
STATES = [
    ("int", lambda: M.int_(), [b"12", b"7"]),
    ("none", lambda: M.return_(8), [b""]),
    ("[", lambda: M.lit_c(91), [b"["]),
    ("two", lambda: M.sequence([M.lit_c(91), M.lit_c(91)]), [b"[["]),
    ("empty", lambda: M.empty(8), [b""]),
    ("here", lambda: M.here(), [b""]),
]


def fold_family(h, b, cfg, ri):
    r = b.rng(cfg)
    for ename, mk, texts in ELEMS:
        counts = [0, 1, r.randint(2, 4)]
        if h.tier == "thorough":
            counts = [0, 1, 2, 3, 5, 9]
        for k in counts:
            body = b"".join(r.choice(texts) for _ in range(k))
            e = mk(r)
            breaks = []
            for t in texts:
                breaks += [t[:i] for i in range(len(t))]
                breaks += [t[:i] + b"!" for i in range(len(t))]
            breaks = some(r, sorted(set(breaks)) + [b"#", b""],
                          thorough(h, 3, 12))
            for brk in breaks:
                for kind in some(r, range(7 if not ri else 6),
                                 thorough(h, 2, 7)):
                    if kind == 0:
                        p = M.repeated(e, False, ri)
                    elif kind == 1:
                        p = M.repeated(e, True, ri)
                    elif kind in (2, 3):
                        p = M.fold("lr"[kind - 2], e, 1, 2, False, ri)
                    elif kind == 4:
                        p = M.fold(r.choice("lr"), e, 3, 4, True, ri)
                    elif kind == 5:
                        sname, smk, st = r.choice(STATES)
                        s = r.choice(st) if r.random() < 0.8 else b"?"
                        b.add(cfg, M.sequence([M.foldl_swp(e, smk(), 5, ri),
                                               M.here()]), s + body + brk)
                        continue
                    else:
                        sname, smk, st = r.choice(STATES)
                        s = r.choice(st) if r.random() < 0.8 else b"?"
                        b.add(cfg, M.sequence([M.foldr_swp(e, smk(), 5),
                                               M.here()]), body + s)
                        continue
                    if r.random() < 0.5:
                        p = M.sequence([p, M.here()])
                    b.add(cfg, p, body + brk)
    # long repetitions
    for k in thorough(h, [120], [120, 250, 400]):
        t = bytes(r.choice(b"abcdef") for _ in range(k))
        for p in [M.repeated(M.letter(), r.random() < 0.5, ri),
                  M.fold("l", M.letter(), 1, 2, r.random() < 0.5, ri),
                  M.fold("r", M.letter(), 1, 2, r.random() < 0.5, ri)]:
            b.add(cfg, M.sequence([p, M.here()]), t + r.choice(
                [b"", b"1", b"\n"]))


def c05(h):
    n = thorough(h, 170, 1400)
    GC.run_cases(h, GC.random_cases(h, n, CFGS, FOLD, depth=3, salt="fold",
                                    first_id=1))
    b = B(h, "struct", 1000000)
    for name in CFGS:
        fold_family(h, b, CONFIGS[name], False)
    GC.run_cases(h, b.cases, batch=14)
    return h.finish(
        "Folds and repetitions at the root of random trees, and over ten "
        "families of element parsers with 0..9 complete elements followed by "
        "every kind of break-off; state values and state parsers; up to 400 "
        "repetitions; uninterpreted combining operations, so order, grouping "
        "and argument order are all visible.  Non-trivial: >= 2 nodes or "
        "non-empty input.", ASSUME, min_eval=300)


def c06(h):
    n = thorough(h, 150, 1400)
    GC.run_cases(h, GC.random_cases(h, n, CFGS, RI, depth=3, salt="ri",
                                    first_id=1))
    b = B(h, "struct", 1000000)
    for name in CFGS:
        cfg = CONFIGS[name]
        r = b.rng(cfg)
        fold_family(h, b, cfg, True)
        for ename, mk, texts in ELEMS:
            for t in texts:
                for i in some(r, range(len(t) + 1), thorough(h, 2, 9)):
                    for tail in some(r, [b"", b"!", b"\n"], thorough(h, 1, 3)):
                        b.add(cfg, M.sequence([
                            M.always(M.fail_at_first_char_expected(mk(r)), 1),
                            M.here()]), t[:i] + tail)
    GC.run_cases(h, b.cases, batch=14)
    return h.finish(
        "The reject-incomplete parsers at the root of random trees, and over "
        "ten families of multi-character element parsers (choices, nested "
        "repetitions, elements spanning lines) with 0..9 complete elements "
        "and the last one broken off after each of its characters.  "
        "Non-trivial: >= 2 nodes or non-empty input.", ASSUME, min_eval=300)


# -------------------------------------------------------------------- C07

def c07(h):
    n = thorough(h, 260, 1700)
    GC.run_cases(h, GC.random_cases(h, n, CFGS, TRANS, depth=3,
                                    salt="trans", first_id=1))
    b = B(h, "struct", 1000000)
    for name in CFGS:
        cfg = CONFIGS[name]
        r = b.rng(cfg)
        for _ in range(thorough(h, 50, 160)):
            # a stack of transformers over a parser that fails late, fails
            # early or accepts
            w = multi_line_text(r, r.choice([1, 2, 5]), b"abc")
            inner = r.choice([
                lambda: M.keyword(w, 1),
                lambda: M.sequence([M.keyword(w, 1), M.letter()]),
                lambda: M.last_of([M.keyword(w, 1), M.one_char()]),
                lambda: M.here(), lambda: M.fail(2),
                lambda: M.last_of([M.keyword(w, 1), M.int_()])])()
            p = inner
            for k in range(r.randint(1, 5)):
                i = 10 + k
                x = r.randrange(7)
                if x == 0:
                    p = M.transform(p, i)
                elif x == 1:
                    p = M.always(p, i)
                elif x == 2 and p.kind in ("char", "int"):
                    p = M.accept_when_between(p, *r.choice(
                        [(48, 57), (0, 9), (97, 99), (0, 127)]), i)
                elif x <= 3:
                    p = M.accept_when_const(p, r.random() < 0.5, i)
                elif x == 4:
                    p = M.change_error_message(p, i)
                elif x == 5:
                    p = M.transform_error_message(p, i)
                else:
                    p = M.transform_error(p, i)
            pre = multi_line_text(r, r.choice([0, 0, 2]), b"ab")
            t = pre + r.choice([w + b"a", w + b"7", w[:-1], w, b"", w + b"\n"])
            q = M.last_of([M.iterate(M.one_char(), len(pre)), p])
            if r.random() < 0.5:
                q = M.sequence([q, M.here()])
            b.add(cfg, q, t)
    GC.run_cases(h, b.cases, batch=16)
    return h.finish(
        "Transformers at the root of random trees, and stacks of up to five "
        "transformers over parsers that accept, fail at once or fail late, "
        "behind multi-line prefixes.  Results and messages are free terms, so "
        "what a function was applied to, how often and in which order is "
        "visible.  Non-trivial: >= 2 nodes or non-empty input.", ASSUME,
        min_eval=300)

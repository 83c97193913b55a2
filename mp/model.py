"""Executable reference model of the Boost.Metaparse combinators.

Written from the reference documentation (doc/*.qbk): every combinator is a
Python function over plain data.  A `Node` knows its C++ spelling (public API
only) and its meaning; nothing here reads the library's sources.
"""
import itertools

# --------------------------------------------------------------- positions

def sc(b):
    """value of a char with the given byte (char is signed on this target)"""
    return b - 256 if b >= 128 else b


def advance(pos, b):
    """Source position after the byte b.

    The column after the \\n of a \\r\\n is what the library reports today
    (known finding CRLF-COL in known_findings.json)."""
    line, col, prev = pos
    c = sc(b)
    if c == 13 or (c == 10 and prev != 13):
        return (line + 1, 1, c)
    return (line, col + 1, c)


class Input:
    """An input text together with the position of each of its suffixes."""

    def __init__(self, data, start=(1, 1, 0)):
        self.data = bytes(data)
        p = start
        self.pos = [p]
        for b in self.data:
            p = advance(p, b)
            self.pos.append(p)

    def __len__(self):
        return len(self.data)


# ------------------------------------------------------------------ results

class Acc:
    __slots__ = ("val", "i")

    def __init__(self, val, i):
        self.val = val
        self.i = i

    err = False


class Rej:
    """msgs: the set of messages the documentation allows here"""
    __slots__ = ("msgs", "i")

    def __init__(self, msgs, i):
        self.msgs = msgs if isinstance(msgs, frozenset) else frozenset([msgs])
        self.i = i

    err = True


class ModelLimit(Exception):
    """the case is outside of what the model (or a sane compiler) handles"""


# --------------------------------------------------------------- C++ output

def cc(b):
    """a character literal"""
    if 32 <= b < 127 and b not in (39, 92):
        return "'%c'" % b
    return "'\\x%02x'" % b


def tmpl(name, *args):
    if not args:
        return name + "<>"
    a = ", ".join(args)
    return "%s<%s%s>" % (name, a, " " if a.endswith(">") else "")


_boxes = itertools.count()


def boxc(b):
    """a boxed character, in one of the ways a user may write it"""
    k = next(_boxes) % 7
    if k == 0:
        return "vr::box<char, %s>" % cc(b)
    if k == 1:
        return "vr::stdbox<char, %s>" % cc(b)
    if k == 2:
        return "mpl::integral_c<char, %s>" % cc(b)
    return "mpl::char_<%s>" % cc(b)


def boxi(n):
    k = next(_boxes) % 6
    if k == 0:
        return "vr::box<int, %d>" % n
    if k == 1:
        return "vr::stdbox<int, %d>" % n
    if k == 2:
        return "mpl::integral_c<int, %d>" % n
    return "mpl::int_<%d>" % n


# ------------------------------------------------------------------- values
# values are rendered the way reify.hpp prints them

def v_list(vs):
    return "[" + ",".join(vs) + "]"


def v_seen(inp, i):
    d = inp.data[i:]
    return "h(%s:%d:%d:%d)" % ((d.hex() or "-",) + inp.pos[i])


# ----------------------------------------------------------------- messages

M_DIGIT = "Digit expected"
M_END = "End of input expected"
M_XFAIL = "Parser expected to fail"
M_LETTER = "Letter expected"
M_NONE = "None of the expected cases found"
M_UCHAR = "Unexpected character"
M_UEOI = "Unexpected end of input"
M_SPACE = "Whitespace expected"


def m_lit(b):
    return b"Expected: ".decode() + bytes([b]).decode("latin-1")


def m_index(lo, hi, n):
    return "index (%d) out of range [%d-%d]" % (n, lo, hi)


def m_unpaired(line, col, m):
    return "%s (see %d:%d)" % (m, line, col)


def m_user(k):
    return "m%d" % k


def m_wrap(k, m):
    return "w%d(%s)" % (k, m)


# --------------------------------------------------------------------- node

class Ctx:
    """fam: '98' (fixed arity implementation) or '11' (variadic one)"""

    def __init__(self, inp, fam, fuel=20000):
        self.inp = inp
        self.fam = fam
        self.fuel = fuel
        self.calls = {}      # combinator name -> number of applications
        self.outcomes = {}   # combinator name -> [accepts, rejects]
        self.spied = set()   # (spy id, index)
        self.depth = 0       # of recursion through named parsers
        self.deepest = 0


class Node:
    """kind: 'char' | 'int' | 'any' | 'void' (what the result is);
    consumes: accepts only after consuming at least one character"""

    def __init__(self, name, cpp, fn, kind="any", consumes=False, kids=(),
                 min98=None):
        self.name = name
        self.cpp = cpp
        self.fn = fn
        self.kind = kind
        self.consumes = consumes
        self.kids = tuple(kids)
        self.ok = None       # acceptance predicate of a character parser
        self.word = None     # text of a keyword-like parser
        self.n = None        # repetition count
        self.decls = ""      # C++ definitions the spelling refers to

    def run(self, cx, i):
        cx.fuel -= 1
        if cx.fuel < 0:
            raise ModelLimit("fuel")
        r = self.fn(cx, i)
        o = cx.outcomes.setdefault(self.name, [0, 0])
        o[1 if r.err else 0] += 1
        return r

    def size(self):
        return 1 + sum(k.size() for k in self.kids)

    def names(self, acc=None):
        acc = acc if acc is not None else {}
        acc[self.name] = acc.get(self.name, 0) + 1
        for k in self.kids:
            k.names(acc)
        return acc


MP = "mp::"


# ---------------------------------------------------------------- terminals

def _char_parser(name, cpp, ok, msg, eof_msg):
    def fn(cx, i):
        d = cx.inp.data
        if i >= len(d):
            return Rej(eof_msg if eof_msg is not None else
                       (msg if not callable(msg) else msg(cx)), i)
        if ok(d[i]):
            return Acc(str(sc(d[i])), i + 1)
        return Rej(msg(cx) if callable(msg) else msg, i)
    n = Node(name, cpp, fn, "char", True)
    n.ok = ok
    return n


def one_char():
    return _char_parser("one_char", MP + "one_char", lambda b: True, M_UEOI,
                        M_UEOI)


def lit_c(b):
    return _char_parser("lit_c", MP + tmpl("lit_c", cc(b)),
                        lambda x: x == b, m_lit(b), m_lit(b))


def lit(b):
    return _char_parser("lit", MP + tmpl("lit", boxc(b)),
                        lambda x: x == b, m_lit(b), m_lit(b))


def is_digit(b):
    return 48 <= b <= 57


def is_lower(b):
    return 97 <= b <= 122


def is_upper(b):
    return 65 <= b <= 90


def is_letter(b):
    return is_lower(b) or is_upper(b)


def is_ws(b):
    return b in (32, 9, 10, 13)


def digit():
    return _char_parser("digit", MP + "digit", is_digit, M_DIGIT, M_DIGIT)


def letter():
    return _char_parser("letter", MP + "letter", is_letter, M_LETTER, M_UEOI)


def space():
    return _char_parser("space", MP + "space", is_ws, M_SPACE, M_UEOI)


def alphanum():
    def msg(cx):
        return frozenset([M_LETTER, M_DIGIT, M_UEOI, M_NONE])
    return _char_parser("alphanum", MP + "alphanum",
                        lambda b: is_letter(b) or is_digit(b), msg, None)


def range_c(lo, hi):
    return _char_parser("range_c", MP + tmpl("range_c", cc(lo), cc(hi)),
                        lambda b: sc(lo) <= sc(b) <= sc(hi), M_UCHAR, M_UEOI)


def range_(lo, hi):
    return _char_parser(
        "range", MP + tmpl("range", boxc(lo), boxc(hi)),
        lambda b: sc(lo) <= sc(b) <= sc(hi), M_UCHAR, M_UEOI)


def one_of_c(bs):
    bs = list(bs)

    def fn(cx, i):
        d = cx.inp.data
        if i < len(d) and d[i] in bs:
            return Acc(str(sc(d[i])), i + 1)
        if cx.fam == "11":
            return Rej(M_UEOI if i >= len(d) else M_NONE, i)
        return Rej(frozenset([m_lit(b) for b in bs] + [M_NONE]), i)
    n = Node("one_of_c", MP + tmpl("one_of_c", *map(cc, bs)), fn, "char",
             True)
    n.ok = lambda b: b in bs
    return n


def one_char_except_c(bs):
    bs = list(bs)
    return _char_parser("one_char_except_c",
                        MP + tmpl("one_char_except_c", *map(cc, bs)),
                        lambda b: b not in bs, M_UCHAR, M_UEOI)


def one_char_except(bs):
    bs = list(bs)
    return _char_parser(
        "one_char_except",
        MP + tmpl("one_char_except", *[boxc(b) for b in bs]),
        lambda b: b not in bs, M_UCHAR, M_UEOI)


def digit_val():
    def fn(cx, i):
        d = cx.inp.data
        if i < len(d) and is_digit(d[i]):
            return Acc(str(d[i] - 48), i + 1)
        return Rej(M_DIGIT, i)
    n = Node("digit_val", MP + "digit_val", fn, "int", True)
    n.ok = is_digit
    return n


def int_():
    def fn(cx, i):
        d = cx.inp.data
        j = i
        while j < len(d) and is_digit(d[j]):
            j += 1
        if j == i:
            return Rej(M_DIGIT, i)
        n = int(d[i:j])
        if n > 2147483646:   # what mpl::int_ can hold
            raise ModelLimit("int overflow")
        return Acc(str(n), j)
    return Node("int_", MP + "int_", fn, "int", True)


def uchar(b, k):
    """the user-defined one character parser of reify.hpp"""
    def fn(cx, i):
        d = cx.inp.data
        if i < len(d) and d[i] == b:
            return Acc("a%d" % k, i + 1)
        return Rej(m_user(k), i)
    n = Node("user_parser", "vr::uchar<%s, %d>" % (cc(b), k), fn, "any",
             True)
    n.ok = lambda x: x == b
    return n


def here():
    return Node("here", "vr::here",
                lambda cx, i: Acc(v_seen(cx.inp, i), i), "any", False)


def unreached():
    """ill-formed when applied; a case is only used when the documented
    evaluation does not get there"""
    def fn(cx, i):
        raise ModelLimit("applied")
    return Node("unreached", "vr::unreached", fn, "char", True)


def ref(name, box, kind="any"):
    """a parser defined later (or the one being defined) by its name; box[0]
    is its definition, which consumes a character before it comes back here"""
    def fn(cx, i):
        cx.depth += 1
        cx.deepest = max(cx.deepest, cx.depth)
        if cx.depth > 120:
            raise ModelLimit("depth")
        try:
            return box[0].run(cx, i)
        finally:
            cx.depth -= 1
    return Node("recursion", name, fn, kind, True)


def with_fn(name, p, args, fires):
    """p with a function that must not be called: fires(outcome of p)"""
    def fn(cx, i):
        r = p.run(cx, i)
        if fires(r):
            raise ModelLimit("applied")
        return r
    return Node(name, MP + tmpl(name, p.cpp, *args), fn, p.kind, p.consumes,
                [p])


def spy(case, k, p):
    def fn(cx, i):
        cx.spied.add((k, i))
        return p.run(cx, i)
    return Node("spy", tmpl("vr::spy", str(case), str(k), p.cpp), fn, p.kind,
                p.consumes, [p])


def spaces():
    def fn(cx, i):
        d = cx.inp.data
        if i >= len(d):
            return Rej(M_UEOI, i)
        if not is_ws(d[i]):
            return Rej(M_SPACE, i)
        j = i
        while j < len(d) and is_ws(d[j]):
            j += 1
        return Acc(v_list([str(b) for b in d[i:j]]), j)
    return Node("spaces", MP + "spaces", fn, "any", True)


def return_(k):
    return Node("return_", MP + "return_<vr::atom<%d> >" % k,
                lambda cx, i: Acc("a%d" % k, i))


def fail(k):
    return Node("fail", MP + "fail<vr::msg<%d> >" % k,
                lambda cx, i: Rej(m_user(k), i), "char", True)


def empty(k):
    def fn(cx, i):
        if i < len(cx.inp):
            return Rej(M_END, i)
        return Acc("a%d" % k, i)
    return Node("empty", MP + "empty<vr::atom<%d> >" % k, fn)


def keyword(bs, k):
    """k None: the default result is unspecified (the caller discards it)"""
    bs = bytes(bs)

    def fn(cx, i):
        d = cx.inp.data
        for n, b in enumerate(bs):
            if i + n >= len(d) or d[i + n] != b:
                return Rej(m_lit(b), i + n)
        return Acc("?" if k is None else "a%d" % k, i + len(bs))
    s = string_cpp(bs)
    n = Node("keyword", MP + (tmpl("keyword", s) if k is None else
                              tmpl("keyword", s, "vr::atom<%d>" % k)),
             fn, "void" if k is None else "any", len(bs) > 0)
    n.word = bs
    return n


def string_cpp(bs):
    return MP + tmpl("string", *map(cc, bs))


def cons_cpp(bs):
    s = "vr::nil"
    for b in reversed(bs):
        s = "vr::cons<%s, %s >" % (cc(b), s)
    return s + "::type"


# -------------------------------------------------------------- sequencing

def _seq_run(cx, i, ps):
    """(results, index) or Rej"""
    vs = []
    for p in ps:
        r = p.run(cx, i)
        if r.err:
            return r
        vs.append(r.val)
        i = r.i
    return vs, i


def sequence(ps):
    def fn(cx, i):
        r = _seq_run(cx, i, ps)
        if isinstance(r, Rej):
            return r
        return Acc(v_list(r[0]), r[1])
    return Node("sequence", MP + tmpl("sequence", *[p.cpp for p in ps]), fn,
                "any", any(p.consumes for p in ps), ps)


def sequence_apply(ps):
    n = len(ps)

    def fn(cx, i):
        r = _seq_run(cx, i, ps)
        if isinstance(r, Rej):
            return r
        return Acc("q(" + ",".join(r[0]) + ")", r[1])
    return Node("sequence_apply",
                MP + tmpl("sequence_apply%d" % n, "vr::seq%d" % n,
                          *[p.cpp for p in ps]), fn, "any",
                any(p.consumes for p in ps), ps)


def nth_of(n, ps, boxed=False):
    def fn(cx, i):
        if not 0 <= n < len(ps):
            return Rej(m_index(0, len(ps) - 1, n), i)
        r = _seq_run(cx, i, ps)
        if isinstance(r, Rej):
            return r
        return Acc(r[0][n], r[1])
    kind = ps[n].kind if 0 <= n < len(ps) else "char"
    cons = (not 0 <= n < len(ps)) or any(p.consumes for p in ps)
    if boxed:
        return Node("nth_of", MP + tmpl("nth_of", boxi(n),
                                        *[p.cpp for p in ps]), fn, kind, cons,
                    ps)
    return Node("nth_of_c", MP + tmpl("nth_of_c", str(n),
                                      *[p.cpp for p in ps]), fn, kind, cons,
                ps)


def first_of(ps):
    def fn(cx, i):
        if not ps:
            return Rej(m_index(0, -1, 0), i)
        r = _seq_run(cx, i, ps)
        return r if isinstance(r, Rej) else Acc(r[0][0], r[1])
    return Node("first_of", MP + tmpl("first_of", *[p.cpp for p in ps]), fn,
                ps[0].kind if ps else "char",
                not ps or any(p.consumes for p in ps), ps)


def last_of(ps):
    def fn(cx, i):
        if not ps:
            return Rej(frozenset([m_index(0, -1, 0), m_index(0, -1, -1)]), i)
        r = _seq_run(cx, i, ps)
        return r if isinstance(r, Rej) else Acc(r[0][-1], r[1])
    return Node("last_of", MP + tmpl("last_of", *[p.cpp for p in ps]), fn,
                ps[-1].kind if ps else "char",
                not ps or any(p.consumes for p in ps), ps)


def middle_of(a, b, c):
    def fn(cx, i):
        r = _seq_run(cx, i, [a, b])
        if isinstance(r, Rej):
            return r
        q = c.run(cx, r[1])
        if q.err:
            l, co, _ = cx.inp.pos[i]
            return Rej(frozenset(m_unpaired(l, co, m) for m in q.msgs), q.i)
        return Acc(r[0][1], q.i)
    return Node("middle_of", MP + tmpl("middle_of", a.cpp, b.cpp, c.cpp), fn,
                b.kind, a.consumes or b.consumes or c.consumes, [a, b, c])


def token(p):
    def fn(cx, i):
        r = p.run(cx, i)
        if r.err:
            return r
        d = cx.inp.data
        j = r.i
        while j < len(d) and is_ws(d[j]):
            j += 1
        return Acc(r.val, j)
    return Node("token", MP + tmpl("token", p.cpp), fn, p.kind, p.consumes,
                [p])


def entire_input(p, k=None):
    def fn(cx, i):
        r = p.run(cx, i)
        if r.err:
            return r
        if r.i < len(cx.inp):
            return Rej(M_END if k is None else m_user(k), r.i)
        return r
    cpp = tmpl("entire_input", p.cpp) if k is None else \
        tmpl("entire_input", p.cpp, "vr::msg<%d>" % k)
    return Node("entire_input", MP + cpp, fn, p.kind, p.consumes, [p])


def iterate(p, n, boxed=False):
    def fn(cx, i):
        r = _seq_run(cx, i, [p] * n)
        if isinstance(r, Rej):
            return r
        return Acc(v_list(r[0]), r[1])
    cpp = tmpl("iterate", p.cpp, boxi(n)) if boxed else \
        tmpl("iterate_c", p.cpp, str(n))
    r = Node("iterate" if boxed else "iterate_c", MP + cpp, fn, "any",
             n > 0 and p.consumes, [p])
    r.n = n
    return r


# ------------------------------------------------------------------- choice

def _one_of_run(cx, i, ps):
    fails = []
    for n, p in enumerate(ps):
        r = p.run(cx, i)
        if not r.err:
            # the variadic implementation may instantiate the others as well:
            # they must be sane, but nothing depends on their outcome
            spied = cx.spied
            cx.spied = set()
            for q in ps[n + 1:]:
                q.run(cx, i)
            cx.spied = spied
            return r
        fails.append(r)
    if not fails:
        return Rej(M_NONE, i)
    # of those that got furthest the last one tells what is wrong
    far = max(cx.inp.pos[r.i] for r in fails)
    return [r for r in fails if cx.inp.pos[r.i] == far][-1]


def one_of(ps):
    kinds = set(p.kind for p in ps)
    return Node("one_of", MP + tmpl("one_of", *[p.cpp for p in ps]),
                lambda cx, i: _one_of_run(cx, i, ps),
                kinds.pop() if len(kinds) == 1 else "any",
                all(p.consumes for p in ps), ps)


def optional(p, k):
    def fn(cx, i):
        r = p.run(cx, i)
        return Acc("void" if k is None else "a%d" % k, i) if r.err else r
    cpp = tmpl("optional", p.cpp) if k is None else \
        tmpl("optional", p.cpp, "vr::atom<%d>" % k)
    return Node("optional", MP + cpp, fn, "void" if k is None else "any",
                False, [p])


def if_(p, k1, k2):
    def fn(cx, i):
        return Acc("a%d" % (k2 if p.run(cx, i).err else k1), i)
    return Node("if_", MP + tmpl("if_", p.cpp, "vr::atom<%d>" % k1,
                                 "vr::atom<%d>" % k2), fn, "any", False, [p])


def except_(p, k, m):
    def fn(cx, i):
        if p.run(cx, i).err:
            return Acc("a%d" % k, i)
        return Rej(m_user(m), i)
    return Node("except", MP + tmpl("except", p.cpp, "vr::atom<%d>" % k,
                                    "vr::msg<%d>" % m), fn, "any", False, [p])


def look_ahead(p):
    def fn(cx, i):
        r = p.run(cx, i)
        return r if r.err else Acc(r.val, i)
    return Node("look_ahead", MP + tmpl("look_ahead", p.cpp), fn, p.kind,
                False, [p])


# --------------------------------------------------------------- repetition

def _many(cx, i, p):
    """results of applying p as long as it accepts, end index, last Rej"""
    vs = []
    while True:
        r = p.run(cx, i)
        if r.err:
            return vs, i, r
        if r.i == i:
            raise ModelLimit("p accepts without consuming")
        vs.append(r.val)
        i = r.i


def _foldl(k, s, vs):
    for v in vs:
        s = "u%d(%s,%s)" % (k, s, v)
    return s


def _foldr(k, s, vs):
    for v in reversed(vs):
        s = "u%d(%s,%s)" % (k, s, v)
    return s


def repeated(p, one=False, ri=False):
    name = "repeated" + ("_reject_incomplete" if ri else "") + \
        ("1" if one else "")

    def fn(cx, i):
        vs, j, last = _many(cx, i, p)
        if one and not vs:
            return last
        if ri and last.i != j:
            return last
        return Acc(v_list(vs), j)
    return Node(name, MP + tmpl(name, p.cpp), fn, "any", one and p.consumes,
                [p])


def repeated_one_of(ps, one=False):
    name = "repeated_one_of" + ("1" if one else "")
    alt = Node("one_of", "", lambda cx, i: _one_of_run(cx, i, ps), "any",
               all(p.consumes for p in ps), ps)

    def fn(cx, i):
        vs, j, last = _many(cx, i, alt)
        if one and not vs:
            return last
        return Acc(v_list(vs), j)
    return Node(name, MP + tmpl(name, *[p.cpp for p in ps]), fn, "any", one,
                ps)


def fold(dirn, p, state, op, one=False, ri=False):
    """foldl/foldr[_reject_incomplete][1] with an atom as initial state"""
    name = "fold" + dirn + ("_reject_incomplete" if ri else "") + \
        ("1" if one else "")
    comb = _foldl if dirn == "l" else _foldr

    def fn(cx, i):
        vs, j, last = _many(cx, i, p)
        if one and not vs:
            return last
        if ri and last.i != j:
            return last
        return Acc(comb(op, "a%d" % state, vs), j)
    return Node(name, MP + tmpl(name, p.cpp, "vr::atom<%d>" % state,
                                "vr::fop<%d>" % op), fn, "any",
                one and p.consumes, [p])


def foldl_swp(p, sp, op, ri=False):
    name = "foldl" + ("_reject_incomplete" if ri else "") + \
        "_start_with_parser"

    def fn(cx, i):
        r = sp.run(cx, i)
        if r.err:
            return r
        vs, j, last = _many(cx, r.i, p)
        if ri and last.i != j:
            return last
        return Acc(_foldl(op, r.val, vs), j)
    return Node(name, MP + tmpl(name, p.cpp, sp.cpp, "vr::fop<%d>" % op), fn,
                "any", sp.consumes, [p, sp])


def foldr_swp(p, sp, op):
    def fn(cx, i):
        vs, j, _ = _many(cx, i, p)
        r = sp.run(cx, j)
        if r.err:
            return r
        return Acc(_foldr(op, r.val, vs), r.i)
    return Node("foldr_start_with_parser",
                MP + tmpl("foldr_start_with_parser", p.cpp, sp.cpp,
                          "vr::fop<%d>" % op), fn, "any", sp.consumes,
                [p, sp])


def fail_at_first_char_expected(p):
    def fn(cx, i):
        r = p.run(cx, i)
        if not r.err:
            return Rej(M_XFAIL, i)
        if r.i == i:
            return Acc("?", i)
        return r
    return Node("fail_at_first_char_expected",
                MP + tmpl("fail_at_first_char_expected", p.cpp), fn, "void",
                False, [p])


# --------------------------------------------------------------- transforms

def transform(p, k):
    def fn(cx, i):
        r = p.run(cx, i)
        return r if r.err else Acc("t%d(%s)" % (k, r.val), r.i)
    return Node("transform", MP + tmpl("transform", p.cpp, "vr::fwrap<%d>" % k),
                fn, "any", p.consumes, [p])


def always(p, k):
    def fn(cx, i):
        r = p.run(cx, i)
        return r if r.err else Acc("a%d" % k, r.i)
    return Node("always", MP + tmpl("always", p.cpp, "vr::atom<%d>" % k), fn,
                "any", p.consumes, [p])


def always_c(b, k):
    def fn(cx, i):
        d = cx.inp.data
        if i < len(d) and d[i] == b:
            return Acc("a%d" % k, i + 1)
        return Rej(m_lit(b), i)
    n = Node("always_c", MP + tmpl("always_c", cc(b), "vr::atom<%d>" % k),
             fn, "any", True)
    n.ok = lambda x: x == b
    return n


def evaluated(p):
    """the same parser, spelled P::type"""
    q = Node.__new__(type(p))
    q.__dict__.update(p.__dict__)
    q.cpp = p.cpp.rstrip() + "::type"
    return q


def accept_when_between(p, lo, hi, m):
    """p: a node of kind 'char' or 'int'"""
    def fn(cx, i):
        r = p.run(cx, i)
        if r.err:
            return r
        if sc(lo) <= int(r.val) <= sc(hi):
            return r
        return Rej(m_user(m), i)
    return Node("accept_when", MP + tmpl(
        "accept_when", p.cpp, "vr::pred_between<%s, %s>" % (cc(lo), cc(hi)),
        "vr::msg<%d>" % m), fn, p.kind, p.consumes, [p])


def accept_when_const(p, b, m):
    def fn(cx, i):
        r = p.run(cx, i)
        if r.err or b:
            return r
        return Rej(m_user(m), i)
    return Node("accept_when", MP + tmpl(
        "accept_when", p.cpp, "vr::pred_const<%s>" % ("true" if b else "false"),
        "vr::msg<%d>" % m), fn, p.kind, p.consumes, [p])


def change_error_message(p, m):
    def fn(cx, i):
        r = p.run(cx, i)
        return Rej(m_user(m), i) if r.err else r
    return Node("change_error_message",
                MP + tmpl("change_error_message", p.cpp, "vr::msg<%d>" % m),
                fn, p.kind, p.consumes, [p])


def transform_error_message(p, k):
    def fn(cx, i):
        r = p.run(cx, i)
        if r.err:
            return Rej(frozenset(m_wrap(k, m) for m in r.msgs), r.i)
        return r
    return Node("transform_error_message",
                MP + tmpl("transform_error_message", p.cpp, "vr::fmsg<%d>" % k),
                fn, p.kind, p.consumes, [p])


def transform_error(p, k):
    def fn(cx, i):
        r = p.run(cx, i)
        if r.err:
            return Rej(frozenset(m_wrap(k, m) for m in r.msgs), r.i)
        return r
    return Node("transform_error",
                MP + tmpl("transform_error", p.cpp, "vr::ferr%s<%d>"
                          % ("p" if k % 2 else "", k)),
                fn, p.kind, p.consumes, [p])

"""C20: the Getting Started guide, its headers and their generator."""
import os
import random
import re
import shutil
import sys

from . import harness as H
from .checks_parsers import thorough
from .harness import CONFIGS, run_cmd

TOOL = "tools/generate_all.py"
GUIDE = "doc/getting_started.qbk"
SHIPPED = "example/getting_started"
STALE = [
    ("5_2.hpp", "#include <boost/metaparse/any.hpp>",
     "#include <boost/metaparse/repeated.hpp>"),
    ("11.hpp", "using primary_exp2 = one_of<int_token, paren_exp2>;",
     "using primary_exp2 = one_of<int_token, paren_exp3>;"),
]
TOKEN = re.compile(r"\w+|\S")


def toks(s):
    return TOKEN.findall(re.sub(r"/\*.*?\*/", " ", s, flags=re.S))


# ------------------------------------------------------------ reading a guide
class Cmd:
    def __init__(self, section, text, snippet):
        self.section = section
        self.text = text            # joined, without prompts
        self.out = []               # what the shell answers
        self.snippet = snippet      # number of the snippet it is in
        t = text.strip()
        self.is_def = t.endswith(";") or t.startswith(
            ("#include ", "using ", "struct ", "template "))


def read_guide(text):
    """(sections in the order of their numbers, commands, snippets);
    a snippet is (lines, commands)"""
    sections, cmds, snippets = [], [], []
    cur = ""
    block = []

    def flush():
        if not block:
            return
        mine = []
        if re.match(r"> \S", block[0]):
            parts = None
            for l in block:
                if parts is None and re.match(r"> \S", l):
                    parts = [l[2:]]
                elif parts is not None:
                    parts.append(re.sub(r"^\.\.\.>", "", l))
                elif mine:
                    mine[-1].out.append(l)
                    continue
                if parts[-1].endswith("\\"):
                    parts[-1] = parts[-1][:-1]
                    continue
                c = Cmd(cur, " ".join(parts), len(snippets))
                mine.append(c)
                cmds.append(c)
                parts = None
        snippets.append((list(block), mine))
        del block[:]

    for line in text.split("\n"):
        if line.startswith("  "):
            block.append(line[2:])
            continue
        flush()
        m = re.match(r"\[section *([0-9.]+)", line)
        if m:
            cur = m.group(1).rstrip(".").replace(".", "_")
            sections.append(cur)
    flush()
    sections.sort(key=lambda s: [int(x) for x in s.split("_")])
    return sections, cmds, snippets


def before(sections, cmds, s):
    """definitions that precede section s"""
    res = []
    for x in sections:
        if x == s:
            return res
        res += [c for c in cmds if c.section == x and c.is_def]
    raise KeyError(s)


# ------------------------------------------------- what a header really gives
def stub_name(n):
    return "stub_" + re.sub(r"\W", "_", n)


def make_stubs(d, cmds):
    for c in cmds:
        m = re.match(r"#include <(.*)>$", c.text.strip())
        if m:
            p = os.path.join(d, m.group(1))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(stub_name(m.group(1)) + "\n")


def def_tokens(defs, metashell):
    res = []
    for c in defs:
        m = re.match(r"#include <(.*)>$", c.text.strip())
        if m:
            if metashell or not m.group(1).startswith("metashell"):
                res.append(stub_name(m.group(1)))
        else:
            res += toks(c.text)
    return res


def preprocess(h, d, inc, names, metashell):
    p = os.path.join(d, "pp.cpp")
    with open(p, "w") as f:
        f.write("".join('#include "%s.hpp"\n' % n for n in names))
    rc, so, se = run_cmd(
        ["g++", "-std=c++11", "-E", "-P", "-w", "-nostdinc", "-I" + inc,
         "-I" + os.path.join(d, "stubs"),
         "-D__METASHELL" if metashell else "-DNOTHING", p], 60)
    if rc is None or rc < 0:
        raise H.Infra("preprocessor: rc %s" % rc)
    return rc, toks(so.decode(errors="replace")), se.decode(errors="replace")


def diff_at(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return "%s <here> %s" % (" ".join(a[max(0, n - 12):n]),
                             " ".join(a[n:n + 12]))


def run_tool(h, d, src, dst):
    return run_cmd([sys.executable, "-B", "-W", "ignore",
                    os.path.join(H.REPO, TOOL), "--src", src, "--dst", dst],
                   120, cwd=d)


def tree(d):
    res = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            with open(p, "rb") as g:
                res[os.path.relpath(p, d)] = g.read()
    return res


# ---------------------------------------------------------------- made guides
WORDS = ("alpha beta gamma delta parser token int_ lit_c plus_exp result "
         "Metashell the of is a section template using struct").split()


class Maker:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def name(self, p="n"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def expr(self, depth=2):
        r = self.r
        if depth == 0 or r.random() < 0.3:
            return r.choice(["int_", "lit_c<'%s'>" % r.choice("+-*/(x"),
                             self.name("t"), "boost::mpl::_1", "a::b::type"])
        return "%s<%s>" % (r.choice(["seq", "foldl", "one_of", "token"]),
                           ", ".join(self.expr(depth - 1)
                                     for _ in range(r.randint(1, 3))))

    def definition(self):
        r = self.r
        k = r.randrange(9)
        if k == 0:
            return "#include <boost/metaparse/%s.hpp>" % self.name("h")
        if k == 1:
            return "#include <metashell/%s.hpp>" % self.name("m")
        if k == 2:
            return "using namespace %s;" % self.name("ns")
        if k == 3:
            return "struct %s;" % self.name("s")
        if k == 4:
            return "template <class A, class B> struct %s : %s {};" % (
                self.name("s"), self.expr())
        if k == 5:
            return "DEFINE_ERROR(%s, \"text%d\");" % (self.name("e"),
                                                       r.randrange(99))
        if k == 6:
            return "struct %s : %s {};" % (self.name("s"), self.expr(3))
        if k == 7:
            return "typedef %s %s;" % (self.expr(), self.name("d"))
        return "using %s = %s;" % (self.name("p"), self.expr(3))

    def query(self):
        r = self.r
        k = r.randrange(5)
        if k == 0:
            return "%s::apply<BOOST_METAPARSE_STRING(\"%d+2\")>::type" % (
                self.name("p"), r.randrange(99))
        if k == 1:
            return "structure<%s>::type" % self.expr()
        if k == 2:
            return "BOOST_METAPARSE_STRING(\"a,b\")"
        return self.expr(3) + "::type"

    def command(self):
        """(lines as typed)"""
        r = self.r
        isdef = r.random() < 0.65
        t = self.definition() if isdef else self.query()
        if t.startswith("#") or r.random() < 0.5:
            return ["> " + t], isdef
        ws = t.split(" ")
        lines = []
        if not isdef and r.random() < 0.3:
            lines = [""]                    # the first line is only "> \"
        while ws:
            k = r.randint(1, 3)
            lines.append(" ".join(ws[:k]))
            ws = ws[k:]
        res = ["> " + (lines[0] + " " if lines[0] else "") +
               ("\\" if len(lines) > 1 else "")]
        for i, l in enumerate(lines[1:], 1):
            c = " /* %s */" % self.r.choice(WORDS) if r.random() < 0.2 else ""
            res.append("...>" + " " * r.randint(1, 5) + l + c +
                       (" \\" if i < len(lines) - 1 else ""))
        if len(lines) == 1:
            res = ["> " + lines[0]]
        return res, isdef

    def shell(self):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
            ls, isdef = self.command()
            out += ls
            if not isdef and r.random() < 0.7:
                out += r.choice([["mpl_::integral_c<int, %d>"
                                  % r.randrange(99)],
                                 ["<< compilation error >>"],
                                 ["<< compilation error >>",
                                  "..... x<1, 1, %s> ...." % self.name()],
                                 ["boost::mpl::v_item<a", ", b<c>, 0",
                                  ">, 0>"],
                                 ["using_is_not_here;", "struct_;"]])
        return out

    def plain(self):
        r = self.r
        return r.choice([
            ["template <char... Cs>", "struct string;"],
            ["struct not_entered;"], ["using not_entered = int;"],
            ["$ metashell -I$BOOST_ROOT"],
            ["sequence<token<int_>, token<lit_c<'+'>>, token<int_>>"],
            ["#include <boost/never.hpp>", "int main()", "{", "}"],
            ["x_FAILED_x<", "  1, 1,", "  error<'('>", ">"],
            ["to start the sum from `0`."]])

    def prose(self):
        r = self.r
        return [" ".join(r.choice(WORDS) for _ in range(r.randint(1, 9)))
                for _ in range(r.randint(1, 3))]

    def body(self, dense):
        r = self.r
        o = []
        for _ in range(r.choice([0, 1, 1, 2, 3]) if dense else
                       r.choice([0, 0, 1])):
            o += self.prose() + [""]
            k = r.random()
            if k < 0.7:
                o += ["  " + x for x in self.shell()] + [""]
            elif k < 0.85:
                o += ["  " + x for x in self.plain()] + [""]
            else:
                o += ["[note", "Note that `>` is the prompt."] + \
                    self.prose() + ["]", ""]
        if not o or r.random() < 0.3:
            o += self.prose() + [""]
        return o

    def section(self, num, depth):
        r = self.r
        title = " ".join(r.choice(WORDS) for _ in range(r.randint(1, 5)))
        if r.random() < 0.1:
            title += "\n" + r.choice(WORDS)
        o = ["[section %s. %s]" % (".".join(map(str, num)), title), ""]
        o += self.body(r.random() < 0.8)
        if depth > 1 and r.random() < 0.6:
            n = r.choice([1, 2, 3, 3, 11 if len(num) == 1 else 4])
            for i in range(1, n + 1):
                o += self.section(num + [i], depth - 1)
        return o + ["[endsect]", ""]

    def guide(self):
        o = ["[#guide]", "[section Guide]", ""]
        for i in range(1, self.r.choice([2, 4, 9, 10, 12, 13]) + 1):
            o += self.section([i], 3)
        o += ["[section Copy-paste friendly code examples]", "", "[endsect]",
              "", "[section Definitions before each section]", "",
              "[endsect]", "", "[endsect]"]
        return "\n".join(o) + "\n"


def generated(line):
    """lines the generator is responsible for"""
    return line.strip() == "" or "copy-paste friendly version" in line or \
        line.startswith(("[note Note that you can find everything that has "
                         "been", "[include before_", "[include "))


def examine(h, d, what, src, dst, guide_in, base, shipped=False):
    """all that can be said about the output of a run of the tool.
    [(what, expected, observed)]"""
    bad = []
    with open(src) as f:
        text = f.read()
    sections, cmds, snippets = read_guide(guide_in)
    make_stubs(os.path.join(d, "stubs"), cmds)
    # -- headers
    want = sorted(s + ".hpp" for s in sections)
    have = sorted(x for x in os.listdir(dst) if x.endswith(".hpp"))
    if want != have:
        bad.append(("the headers", want, have))
        return bad
    r = random.Random(what)
    jobs = []
    for s in sections:
        jobs.append(([s], r.random() < 0.5, s))
        if r.random() < 0.25:
            # together with another one, in any order: the later one counts
            o = r.choice(sections)
            last = max(s, o, key=lambda x: [int(y) for y in x.split("_")])
            jobs.append(([s, o] if s == last else [s, o, s], False, last))
    for names, ms, last in jobs:
        rc, got, err = preprocess(h, d, dst, names, ms)
        defs = before(sections, cmds, last)
        exp = def_tokens(defs, ms)
        h.eval((what, names, ms, exp), bool(exp))
        h.count("headers observed")
        h.count("definitions observed", len(defs))
        if rc or sorted(names) == sorted([last]) and got != exp:
            bad.append(("the definitions %s.hpp gives%s" % (
                last, " in Metashell" if ms else ""), diff_at(exp, got),
                err[:400] if rc else diff_at(got, exp)))
        elif len(names) > 1:
            # nothing twice, nothing missing, the order within each kept
            if sorted(got) != sorted(exp):
                bad.append(("the definitions %s give together"
                            % " and ".join(names), diff_at(exp, got),
                            diff_at(got, exp)))
        if bad:
            return bad
    if shipped:
        return bad
    # -- the guide: everything the author wrote, in order
    a = [l for l in guide_in.split("\n") if not generated(l)]
    b = [l for l in text.split("\n") if not generated(l)]
    h.eval((what, "text", a))
    if a != b:
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        bad.append(("what the author wrote", a[n:n + 3], b[n:n + 3]))
    # -- definitions so far
    doc = os.path.dirname(src)
    listed = []
    lines = text.split("\n")
    for s in sections:
        defs = before(sections, cmds, s)
        p = os.path.join(doc, "before_%s.qbk" % s)
        if not defs:
            continue
        listed.append("[include before_%s.qbk]" % s)
        h.eval((what, "before", s, def_tokens(defs, True)))
        h.count("lists of definitions observed")
        if not os.path.exists(p):
            bad.append(("before_%s.qbk" % s, "written", "missing"))
            continue
        with open(p) as f:
            t = f.read().split("\n")
        code = "\n".join(x for x in t if x.startswith("  "))
        exp = [x for c in defs for x in toks(c.text)]
        if toks(code) != exp:
            bad.append(("the definitions in before_%s.qbk" % s,
                        diff_at(exp, toks(code)), diff_at(toks(code), exp)))
        if t[0] != "[#before_%s]" % s:
            bad.append(("the anchor of before_%s.qbk" % s, "#before_" + s,
                        t[0]))
    got = [l for l in lines if l.startswith("[include before_")]
    if got != listed:
        bad.append(("the lists of definitions included in the guide", listed,
                    got))
    for i, l in enumerate(lines):
        m = re.match(r"\[section *([0-9.]+)", l)
        if not m:
            continue
        s = m.group(1).rstrip(".").replace(".", "_")
        has = before(sections, cmds, s) != []
        nxt = lines[i + 1] if i + 1 < len(lines) else ""
        m = re.match(r"\[note Note that you can find everything that has been "
                     r"included and defined so far \[link before_(\w+) here\]",
                     nxt)
        h.eval((what, "note", s, has))
        if (m.group(1) if m else None) != (s if has else None):
            bad.append(("the note that follows the heading of %s" % s,
                        "a link to before_%s" % s if has else "none", nxt))
    # -- copy-paste friendly versions
    names_seen = []
    multi = []
    for block, mine in snippets:
        k = sum(1 for l in block if l.startswith(("> ", "...> ")))
        if mine and k > 1:
            multi.append((block, mine))
    pos = 0
    for block, mine in multi:
        full = ["  " + x for x in block]
        while pos < len(lines) and (lines[pos] != full[0] or
                                    lines[pos:pos + len(full)] != full):
            pos += 1
        # the link comes right after the snippet
        k = pos + len(block)
        while k < len(lines) and lines[k].strip() == "":
            k += 1
        h.eval((what, "copy", pos, [c.text for c in mine]))
        h.count("copy-paste friendly versions observed")
        m = re.match(r"\[link (.*) copy-paste friendly version\]$",
                     "".join(lines[k:k + 1]))
        pos = k
        if not m or not m.group(1).startswith(base + "_"):
            bad.append(("the link that follows %r" % block[0],
                        "to a copy-paste friendly version", lines[k:k + 1]))
            continue
        name = m.group(1) + ".qbk"
        p = os.path.join(doc, name)
        inc = "[include %s]" % name
        if lines.count(inc) != 1 or name in names_seen:
            bad.append(("the inclusion of " + name, 1, lines.count(inc)))
        names_seen.append(name)
        if not os.path.exists(p):
            bad.append((name, "written", "missing"))
            continue
        with open(p) as f:
            t = f.read().split("\n")
        got = [toks(x) for x in t[1:] if x.strip()]
        exp = [toks(c.text) for c in mine]
        if got != exp or any(not x.startswith("  ") for x in t[1:]
                             if x.strip()):
            bad.append((name, [c.text for c in mine], t))
        if t[0] != "[#%s]" % name[:-4]:
            bad.append(("the anchor of " + name, name[:-4], t[0]))
    got = [l for l in lines if re.match(r"\[include %s_\d" % re.escape(base),
                                        l)]
    for l in lines:
        m = re.match(r"\[include (%s_[^]]*)\]" % re.escape(base), l)
        if m and not os.path.exists(os.path.join(doc, m.group(1))):
            bad.append(("the file the guide includes: " + m.group(1),
                        "there", "missing"))
    order = ["[include %s]" % x for x in names_seen]
    if [x for x in got if x in order] != order:
        bad.append(("the order of the copy-paste friendly versions",
                    order[-3:], got[-3:]))
    return bad


def made_guide(h, job):
    n, seed = job
    r = random.Random(seed)
    d = os.path.join(h.dir, "guide%d" % n)
    os.makedirs(d)
    base = r.choice(["getting_started", "guide", "g_1", "my-guide"])
    doc = os.path.join(d, r.choice(["doc", "docs/sub"]))
    dst = os.path.join(d, r.choice(["out", "example/getting_started"]))
    os.makedirs(doc)
    os.makedirs(os.path.join(dst, "keep"))
    with open(os.path.join(dst, "99.hpp"), "w") as f:
        f.write("struct stale;\n")
    keep = {"README": "r\n", "a.cpp": "int x;\n", "keep/k.hpp": "int k;\n",
            "x.hpp.txt": "t\n"}
    for k, t in keep.items():
        with open(os.path.join(dst, k), "w") as f:
            f.write(t)
    src = os.path.join(doc, base + ".qbk")
    text = Maker(r).guide()
    bad = []
    for rnd in range(3):
        what = "guide %d (seed %s), round %d" % (n, seed, rnd)
        with open(src, "w") as f:
            f.write(text)
        rel = r.random() < 0.5
        a, b = (os.path.relpath(src, d), os.path.relpath(dst, d)) if rel \
            else (src, dst)
        rc, so, se = run_tool(h, d, a, b)
        h.count("runs of the tool")
        if rc is None or rc < 0:
            raise H.Infra("tool: rc %s" % rc)
        if rc:
            bad = [("the tool", "exit status 0", se.decode()[-600:])]
        else:
            bad = examine(h, d, what, src, dst, text, base)
        for k, t in keep.items():
            p = os.path.join(dst, k)
            if not os.path.exists(p) or open(p).read() != t:
                bad.append(("another file in the directory: " + k, t,
                            "changed or gone"))
        if not bad:
            one = tree(d)
            rc, so, se = run_tool(h, d, a, b)
            h.count("runs of the tool")
            h.eval((what, "again"))
            two = tree(d)
            ch = sorted(k for k in set(one) | set(two)
                        if one.get(k) != two.get(k))
            if rc or ch:
                bad.append(("a second run", "changes nothing", ch))
        if bad:
            return what, text, bad
        # the author goes on writing
        lines = open(src).read().split("\n")
        m = Maker(random.Random(seed + rnd))
        m.n = 5000 * (rnd + 1)
        heads = [i for i, l in enumerate(lines)
                 if re.match(r"\[section [0-9]", l)]
        i = r.choice(heads)
        while lines[i].strip():
            i += 1
        lines[i:i] = ["", "More:", ""] + ["  " + x for x in m.shell()]
        if r.random() < 0.5 and len(heads) > 1:
            # the last section without sub-sections goes
            i = max(i for i, l in enumerate(lines)
                    if re.match(r"\[section [0-9]", l))
            j = lines.index("[endsect]", i)
            if i > 0 and "[#" not in lines[i - 1]:
                del lines[i:j + 2]
        text = "\n".join(lines)
    shutil.rmtree(d, ignore_errors=True)
    return "guide %d" % n, text, []


# --------------------------------------------------- what the guide says about
# the results
SHOW = """#include <boost/mpl/for_each.hpp>
#include <boost/mpl/is_sequence.hpp>
#include <boost/mpl/identity.hpp>
#include <boost/mpl/transform.hpp>
#include <boost/mpl/vector.hpp>
#include <cstdio>
template <class T, bool S> struct show_;
template <class T> struct show : show_<T, boost::mpl::is_sequence<T>::value>
{};
struct each
{
  template <class T> void operator()(boost::mpl::identity<T>) const
  { show<T>::go(); }
};
inline void pr(char c) { std::printf("c%d ", int(c)); }
inline void pr(long v) { std::printf("i%ld ", v); }
inline void pr(int v) { std::printf("i%d ", v); }
template <class T> struct show_<T, false>
{
  static void go() { pr(static_cast<typename T::value_type>(T::value)); }
};
template <class T> struct show_<T, true>
{
  static void go()
  {
    std::printf("[ ");
    boost::mpl::for_each<T, boost::mpl::make_identity<boost::mpl::_1> >(
      each());
    std::printf("] ");
  }
};
"""


def shown_value(s):
    """what SHOW prints for a result the guide shows, or None"""
    s = re.sub(r"//[^\n]*", "", s)
    s = re.sub(r"mpl_::integral_c<int, *(-?\d+)>", r" i\1 ", s)
    s = re.sub(r"mpl_::char_<'(.)'>", lambda m: " c%d " % ord(m.group(1)), s)
    s = s.replace("boost_::mpl::vector<", " [ ").replace(">", " ] ")
    s = s.replace(",", " ")
    t = s.split()
    if all(re.match(r"(i-?\d+|c\d+|\[|\])$", x) for x in t) and t:
        return " ".join(t)
    return None


def shown_error(lines):
    t = " ".join(lines)
    m = re.search(r"PARSING_FAILED_+x<\s*(\d+),\s*(\d+),\s*(.*?)>\s*(\.\.|$)",
                  t)
    if not m:
        return None
    msg = m.group(3).strip()
    msg = re.sub(r"\w+::", "", msg)
    # as compilers print it: names qualified, closing brackets apart
    ts = TOKEN.findall(msg)
    rx = ""
    for x in ts:
        if re.match(r"[A-Za-z_]", x):
            rx += r"(?:\w+::)*" + x
        else:
            rx += re.escape(x)
        rx += r"\s*"
    rx = rx.rstrip()
    while rx.endswith((">\\s*", ">", "\\>\\s*")):
        rx = re.sub(r"\\?>(\\s\*)?$", "", rx)
    return r"PARSING_FAILED_+x\s*<\s*%s,\s*%s,\s*%s" % (m.group(1),
                                                        m.group(2), rx)


def queries(text):
    """(section, commands of the section before it, query, expectation);
    expectation: ('value', v) | ('error', regex or None) | ('any', None)"""
    sections, cmds, snippets = read_guide(text)
    # results are also shown in a snippet of their own
    loose = {}
    for i, (block, mine) in enumerate(snippets):
        if not mine and block:
            j = i - 1
            if j >= 0 and snippets[j][1]:
                loose[id(snippets[j][1][-1])] = block
    res = []
    prev = {}
    for c in cmds:
        ctx = prev.setdefault(c.section, [])
        if c.is_def:
            ctx.append(c)
            continue
        out = c.out or []
        more = loose.get(id(c), [])
        if out and out[0].startswith("<< compilation error"):
            rx = shown_error(out) or shown_error(more)
            res.append((c.section, list(ctx), c, ("error", rx)))
            continue
        v = shown_value("\n".join(out)) if out else None
        if v is None and not out and more:
            v = shown_value("\n".join(more))
        res.append((c.section, list(ctx), c,
                    ("value", v) if v else ("any", None)))
    return sections, res


# ------------------------------------------------------------ the calculators
def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Skip(Exception):
    pass


def arith(op, a, b):
    if op == "/" and b == 0:
        raise Skip()
    v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
         "/": lambda: cdiv(a, b)}[op]()
    if abs(v) >= 1 << 31:
        raise Skip()
    return v


class Fail(Exception):
    def __init__(self, at, msg):
        self.at = at
        self.msg = msg


class Calc:
    """the language of exp_parser15 and later ones, by recursive descent"""

    def __init__(self, text, mulops="*/", unary=True, parens=True,
                 right=False):
        self.t = text
        self.o = (mulops, unary, parens, right)

    def ws(self, i):
        while i < len(self.t) and self.t[i] in " \n\t\r":
            i += 1
        return i

    def primary(self, i):
        t = self.t
        j = i
        while j < len(t) and t[j].isdigit():
            j += 1
        if j > i:
            v = int(t[i:j])
            if v >= 1 << 31:
                raise Skip()
            return v, self.ws(j)
        if self.o[2] and t[i:i + 1] == "(":
            v, j = self.plus(self.ws(i + 1))
            if t[j:j + 1] != ")":
                raise Fail(j, ("unpaired", i))
            return v, self.ws(j + 1)
        raise Fail(i, ("primary",))

    def unary(self, i):
        n = 0
        while self.o[1] and self.t[i:i + 1] == "-":
            n += 1
            i = self.ws(i + 1)
        v, i = self.primary(i)
        return (-v if n % 2 else v), i

    def mult(self, i):
        v, i = self.unary(i)
        items = [v]
        while i < len(self.t) and self.t[i] in self.o[0]:
            op = self.t[i]
            w, i = self.unary(self.ws(i + 1))
            items += [op, w]
        if self.o[3]:
            v = items.pop()
            while items:
                op = items.pop()
                v = arith(op, items.pop(), v)
            return v, i
        v = items[0]
        for k in range(1, len(items), 2):
            v = arith(items[k], v, items[k + 1])
        return v, i

    def plus(self, i):
        v, i = self.mult(i)
        while i < len(self.t) and self.t[i] in "+-":
            op = self.t[i]
            w, i = self.mult(self.ws(i + 1))
            v = arith(op, v, w)
        return v, i

    def value(self):
        return self.plus(0)[0]


def spaced(r, ts):
    o = ""
    for i, t in enumerate(ts):
        o += t
        o += r.choice(["", "", " ", "  ", "\t", "\n"])
    return o


def num(r):
    return str(r.choice([r.randint(0, 9), r.randint(0, 99),
                         r.randint(0, 4000)]))


def flat(r, ops, n):
    ts = [num(r)]
    for _ in range(n):
        ts += [r.choice(ops), num(r)]
    return ts


def nested(r, depth, unary, parens):
    def prim(d):
        if parens and d and r.random() < 0.5:
            return ["("] + plus(d - 1) + [")"]
        return [num(r)]

    def un(d):
        return ["-"] * (r.choice([0, 0, 1, 2, 3]) if unary else 0) + prim(d)

    def mult(d):
        ts = un(d)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            ts += [r.choice("*/")] + un(d)
        return ts

    def plus(d):
        ts = mult(d)
        for _ in range(r.choice([0, 1, 1, 2])):
            ts += [r.choice("+-")] + mult(d)
        return ts
    return plus(depth)


def accepted(r, n):
    """(text, what SHOW prints) for exp_parser<n>"""
    for _ in range(500):
        tail = r.choice(["", "", "", "x", ")", "]1", "$ 2"])
        try:
            if n == 1:
                v = num(r)
                t, e = v + tail.replace("1", ""), "i%d" % int(v)
            elif n == 2:
                v = num(r)
                t, e = v, "i%d" % int(v)
            elif n == 3:
                v = num(r)
                t, e = spaced(r, [v]), "i%d" % int(v)
            elif n in (4, 5, 6):
                ts = flat(r, "+", 1)
                t = spaced(r, ts) + tail
                a, b = int(ts[0]), int(ts[2])
                e = "i%d" % (a + b) if n == 6 else "[ i%d c43 i%d ]" % (a, b)
            elif n in (7, 8, 9, 10, 11):
                ts = flat(r, "+", r.choice([0, 1, 2, 3, 5]))
                t = spaced(r, ts) + tail
                vs = [int(x) for x in ts[::2]]
                if n == 7:
                    e = "[ i%d [ %s] ]" % (vs[0], "".join(
                        "[ c43 i%d ] " % v for v in vs[1:]))
                elif n == 8:
                    e = "[ i%d i%d ]" % (vs[0], sum(vs[1:]))
                else:
                    e = "i%d" % sum(vs)
            elif n in (12, 13, 14):
                ts = flat(r, "+-*" if n == 14 else "+-",
                          r.choice([0, 1, 2, 3, 5]))
                t = spaced(r, ts) + tail
                v = int(ts[0])
                for k in range(1, len(ts), 2):
                    v = arith("+" if n == 12 else ts[k], v, int(ts[k + 1]))
                e = "i%d" % v
            elif n in (15, 16, 17):
                ts = flat(r, "+-*" if n == 15 else "+-*/",
                          r.choice([0, 1, 2, 3, 5, 6]))
                t = spaced(r, ts) + tail
                e = "i%d" % Calc(t, "*" if n == 15 else "*/", False, False,
                                 n == 17).value()
            elif n == 18:
                t = spaced(r, nested(r, 0, True, False)) + tail
                e = "i%d" % Calc(t, parens=False).value()
            else:
                t = spaced(r, nested(r, r.choice([0, 1, 2, 3]), True, True)) \
                    + tail
                e = "i%d" % Calc(t).value()
        except (Skip, Fail):
            continue
        if len(t) <= 60:
            return t, e
    raise RuntimeError("generator stuck")


def rejected(r, n):
    """(text, regex of the diagnostics) for exp_parser<n>"""
    for _ in range(2000):
        if n in (2, 3):
            v = num(r)
            t = v + r.choice(["x", " 1", " x", "+", "\n2", "-1"])
            at = len(v)
            if n == 3:
                while t[at:at + 1] in (" ", "\n"):
                    at += 1
            rx = r"(?:\w+::)*end_of_input_expected"
            break
        ts = nested(r, r.choice([1, 2, 3]), True, True)
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(ts))
            if r.random() < 0.5:
                del ts[k]
            else:
                ts[k] = r.choice(["(", ")", "*", "/", "x", "+"])
            if not ts:
                ts = ["x"]
        t = spaced(r, ts)
        if len(t) > 60:
            continue
        try:
            Calc(t).value()
            continue
        except Skip:
            continue
        except Fail as f:
            at = f.at
            if f.msg[0] == "primary":
                rx = r"(?:\w+::)*missing_primary_expression"
            else:
                l, c = place(t, f.msg[1])
                rx = r"(?:\w+::)*unpaired<\s*%d,\s*%d,\s*(?:\w+::)*" \
                    r"literal_expected<'\)'>" % (l, c)
        break
    l, c = place(t, at)
    return t, r"PARSING_FAILED_+x\s*<\s*%d,\s*%d,\s*%s" % (l, c, rx)


def place(t, i):
    l, c = 1, 1
    k = 0
    while k < i:
        if t[k] == "\n" or (t[k] == "\r" and t[k + 1:k + 2] != "\n"):
            l, c = l + 1, 1
        else:
            c += 1
        k += 1
    return l, c


def cstr(t):
    return '"%s"' % "".join({"\n": "\\n", "\t": "\\t", "\r": "\\r",
                             '"': '\\"', "\\": "\\\\"}.get(x, x) for x in t)


def build(h, cfg, inc, path, syntax):
    cmd = [cfg.cxx, "-std=" + cfg.std, "-O0", "-w", "-I" + H.INC, "-I" + inc,
           "-ftemplate-depth=3000"]
    if syntax:
        cmd += ["-fsyntax-only"]
        if cfg.cxx == "clang++":
            cmd += ["-fno-elide-type", "-ferror-limit=0"]
    else:
        cmd += H.SAN + ["-o", path + ".exe"]
    rc, so, se = run_cmd(cmd + [path], 240, mem=H.COMPILE_MEM)
    if rc is None or rc < 0:
        rc, so, se = run_cmd(cmd + [path], 240, mem=H.COMPILE_MEM)
    se = se.decode(errors="replace")
    if rc is None or rc < 0 or rc and H.INFRA_RE.search(se):
        raise H.Infra("compiler: rc %s\n%s" % (rc, se[-500:]))
    return rc, se


def c20(h):
    if not os.path.exists(os.path.join(H.REPO, TOOL)):
        h.violation(TOOL + " is missing")
    # ---- made guides
    r = random.Random("C20/%d" % h.seed)
    jobs = [(n, r.randrange(1 << 30)) for n in range(thorough(h, 24, 200))]
    for what, text, bad in h.map(lambda j: made_guide(h, j), jobs):
        h.count("guides made")
        for w, e, o in bad[:3]:
            h.violation("%s: %s" % (TOOL, w), None, None, e,
                        "%s\n(%s)" % (o, what),
                        extra_files={"guide.qbk": text})
    # ---- the guide that is shipped
    guide = open(os.path.join(H.REPO, GUIDE)).read()
    d = os.path.join(h.dir, "shipped")
    gen = os.path.join(d, "example/getting_started")
    os.makedirs(gen)
    os.makedirs(os.path.join(d, "doc"))
    src = os.path.join(d, "doc/getting_started.qbk")
    with open(src, "w") as f:
        f.write(guide)
    rc, so, se = run_tool(h, d, src, gen)
    if rc:
        h.violation(TOOL + " fails for the guide", None, None, 0, se[-600:])
        bad = []
    else:
        bad = examine(h, d, "the Getting Started guide", src, gen, guide,
                      "getting_started")
    d2 = os.path.join(h.dir, "shipped2")
    os.makedirs(d2)
    copy = os.path.join(d2, "headers")
    shutil.copytree(os.path.join(H.REPO, SHIPPED), copy)
    for name, line, now in STALE:
        # these lines were generated before the guide was corrected
        p = os.path.join(copy, name)
        t = open(p).read().split("\n") if os.path.exists(p) else []
        if line in t:
            h.violation("%s/%s is not up to date" % (SHIPPED, name), None,
                        None, now, line, key="%s: %s" % (name, line))
            with open(p, "w") as f:
                f.write("\n".join(now if x == line else x for x in t))
    bad2 = examine(h, d2, "the shipped headers", os.path.join(H.REPO, GUIDE),
                   copy, guide, "getting_started", shipped=True)
    for w, e, o in bad:
        h.violation("%s, run for the guide: %s" % (TOOL, w), None, None, e, o)
    for w, e, o in bad2:
        h.violation("%s: %s" % (SHIPPED, w), None, None, e, o)
    if rc or bad or bad2:
        return finish(h)

    # ---- what the guide shows
    sections, qs = queries(guide)
    cfgs = [CONFIGS[x] for x in thorough(
        h, ["g11", "c17"], ["g11", "g14", "g17", "g20", "c11", "c14", "c17"])]
    jobs = [(n, cfg) + q for n, q in enumerate(qs) for cfg in cfgs]

    def ask(job):
        n, cfg, s, ctx, q, exp = job
        p = os.path.join(h.dir, "q%d%s.cpp" % (n, cfg.name))
        o = SHOW + '#include "%s.hpp"\n' % s
        o += "".join("%s\n" % c.text for c in ctx
                     if "<metashell" not in c.text)
        if exp[0] == "value":
            o += "typedef %s q;\nint main() { show<q>::go(); }\n" % q.text
        else:
            o += "typedef %s q;\nint main() { (void)sizeof(q*); }\n" % q.text
        with open(p, "w") as f:
            f.write(o)
        rc, err = build(h, cfg, gen, p, exp[0] != "value")
        if rc or exp[0] != "value":
            return job, o, rc, err, ""
        st, so, se = h.execute(p + ".exe")
        os.unlink(p + ".exe")
        return job, o, 0 if st == "ok" else 99, se, so.decode()

    for (n, cfg, s, ctx, q, exp), o, rc, err, so in h.map(ask, jobs):
        h.eval(("query", q.text, cfg.name), exp[0] != "any")
        h.count("results shown by the guide observed")
        what = "section %s of the guide: %s" % (s, q.text)
        if exp[0] == "error":
            if rc == 0:
                h.violation(what, cfg, o, "compilation error", "compiles")
            elif exp[1] and not re.search(exp[1], err):
                h.violation(what, cfg, o, exp[1], err[:1500])
        elif rc:
            h.violation(what, cfg, o, str(exp), err[:1500])
        elif exp[0] == "value" and " ".join(so.split()) != exp[1]:
            h.violation(what, cfg, o, exp[1], so)

    # ---- the parsers of the guide on any input
    r = random.Random("C20e/%d" % h.seed)
    jobs = []
    for cfg in cfgs:
        for b in range(thorough(h, 8, 60)):
            cases = []
            for n in range(1, 24):
                for _ in range(1 if n < 13 else 2):
                    cases.append((n,) + accepted(r, n))
            r.shuffle(cases)
            jobs.append((cfg, b, cases[:30]))

    def calc(job):
        cfg, b, cases = job
        p = os.path.join(h.dir, "e%d%s.cpp" % (b, cfg.name))
        o = ("#define BOOST_METAPARSE_LIMIT_STRING_SIZE 64\n" + SHOW +
             '#include "12.hpp"\nint main()\n{\n')
        for n, t, e in cases:
            o += ("  show<exp_parser%d::apply<BOOST_METAPARSE_STRING(%s)>"
                  "::type>::go();\n  std::printf(\"\\n\");\n" % (n, cstr(t)))
        o += "}\n"
        with open(p, "w") as f:
            f.write(o)
        rc, err = build(h, cfg, gen, p, False)
        if rc:
            return job, o, rc, err, []
        st, so, se = h.execute(p + ".exe")
        os.unlink(p + ".exe")
        return job, o, 0 if st == "ok" else 99, se, so.decode().split("\n")

    for (cfg, b, cases), o, rc, err, out in h.map(calc, jobs):
        for i, (n, t, e) in enumerate(cases):
            h.eval(("calc", n, t, cfg.name))
            h.count("expressions given to the parsers of the guide")
            got = " ".join(out[i].split()) if i < len(out) else None
            if not rc and got != e:
                h.violation("exp_parser%d on %r" % (n, t), cfg, o, e, got)
            elif i < 2:
                h.sample({"exp_parser": n, "text": t, "result": got})
        if rc:
            h.violation("expressions of the guide's language are refused: %s"
                        % [x[:2] for x in cases], cfg, o, "compiles and runs",
                        err[:1500])
    jobs = []
    for cfg in cfgs:
        for b in range(thorough(h, 24, 150)):
            n = r.choice([2, 3, 23, 23, 23, 23])
            jobs.append((cfg, b, n) + rejected(r, n))

    def refuse(job):
        cfg, b, n, t, rx = job
        p = os.path.join(h.dir, "x%d%s.cpp" % (b, cfg.name))
        o = ("#define BOOST_METAPARSE_LIMIT_STRING_SIZE 64\n"
             '#include "12.hpp"\ntypedef exp_parser%d::apply<'
             "BOOST_METAPARSE_STRING(%s)>::type t;\nint main() {}\n"
             % (n, cstr(t)))
        with open(p, "w") as f:
            f.write(o)
        rc, err = build(h, cfg, gen, p, True)
        return job, o, rc, err

    for (cfg, b, n, t, rx), o, rc, err in h.map(refuse, jobs):
        h.eval(("refuse", n, t, cfg.name))
        h.count("invalid expressions given to the parsers of the guide")
        if rc == 0:
            h.violation("exp_parser%d accepts %r" % (n, t), cfg, o, rx,
                        "compiles")
        elif not re.search(rx, err):
            h.violation("the error exp_parser%d reports for %r" % (n, t), cfg,
                        o, rx, err[:1500])
    return finish(h)


def finish(h):
    return h.finish(
        "tools/generate_all.py run on random guides (up to 13 sections with "
        "sub-sections to the third level, definitions and queries over one or "
        "several lines, plain snippets), written on by the author and run "
        "again, and on the shipped guide: each header is preprocessed and the "
        "definitions it gives are compared with the guide; the other files "
        "are read back. Then every result the guide shows and its 23 parsers "
        "on random valid and invalid expressions. One header, list, note, "
        "copy-paste file, query or expression is one evaluation.",
        ["the tool is run by the Python 3 of this sandbox",
         "guides follow the layout of the shipped one (a blank line after "
         "each snippet, headings \"[section N.M. title]\")",
         "observed with g++ 13 and clang 18 only"], min_eval=500)

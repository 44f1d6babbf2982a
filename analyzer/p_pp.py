"""P13: the preprocessor. The real lexer and parser are interpreted on texts;
what a preprocessor of C keeps of them is the reference."""
import itertools
import random
import re

from absint import Arr, Ptr
from cast import AnalysisError, load
from dom import P, explore
from par import collect, pmap
from pipe import BadCFG, Level1, Pipe, Undefined, agree, paths
from front import ptr
from props import check

PROTO = ("int g(int a); int h(int a, int b); int v3(int a, int b, int c); int *p; int G; "
         "int f(int a, int b) { int c; c = a; ")


class Source(Pipe):
    """parsing starts from text"""

    def __init__(self):
        Pipe.__init__(self)
        for f in ("lex_token", "lex_token_internal", "lex_peek", "lex_accept", "lex_expect"):
            if f not in self.tu.functions:
                raise AnalysisError("anchor %s not found" % f)
            self.ip.summaries.pop(f, None)
        self.ip.summaries["strncmp"] = lambda ip, a, n: int(
            ip.cstr(a[0])[:a[2]] != ip.cstr(a[1])[:a[2]])
        # SOURCE->size counts characters
        self.ip.unroll = 4000
        self.ip.maxsteps = 20000000

    def _source(self, ip, a, n):
        p = ip.new("source_t", "src", "zero")
        arr = Arr(("int", 8, True), None, "text", "zero", ip)
        arr.slots = {i: ord(c) for i, c in enumerate(self.text)}
        ip.obj(p).set("elements", Ptr(arr, 0))
        return p

    def prepare(self, text):
        # the lexer starts by skipping what precedes the first token
        self.text = text
        ip = self.ip
        ip.reset()
        self.toks, self.ng, self.events, self.data, self.maps = [], 0, [], {}, {}
        self.bb_model = None
        from absint import PathEnd
        try:
            ip.call("global_init", [])
            ip.gset("next_token", self.tu.enum["T_start"])
            ip.call("parse_internal", [])
        except PathEnd as e:
            return "%s %s" % (e.how, e.msg or "")
        return None


# ------------------------------------------------------------- conditionals

def marker(n):
    return "g(%d);" % n


class Gen:
    """conditionals with markers; tracks which ones C keeps"""

    def __init__(self, glob=False):
        self.n, self.kept, self.glob = 0, [], glob

    def mark(self, live):
        self.n += 1
        if live:
            self.kept.append(self.n)
        return ("int m%d() { return 1; }" if self.glob else "g(%d);") % self.n + "\n"

    def cond(self, kind, truth):
        """an opening line that is true or not"""
        return {"if": "#if %d" % truth, "ifdef": "#ifdef %s" % ("YES" if truth else "NO"),
                "ifndef": "#ifndef %s" % ("NO" if truth else "YES"),
                "defined": "#if defined(%s)" % ("YES" if truth else "NO"),
                "value": "#if VAL == %d" % (3 if truth else 4),
                "macro": "#ifdef %s" % ("MAC" if truth else "GONE")}[kind]

    def build(self, t, live):
        """t: (kind, truths of if and elif, else?, [body, ...]); body: list of t"""
        kind, truths, els, bodies = t
        out, done = "", False
        for i, tr in enumerate(truths):
            out += (self.cond(kind, tr) if i == 0 else "#elif %d" % tr) + "\n"
            out += self.body(bodies[i], live and tr and not done)
            done = done or tr
        if els:
            out += "#else\n" + self.body(bodies[len(truths)], live and not done)
        return out + "#endif\n"

    def body(self, b, live):
        out = self.mark(live)
        for t in b:
            out += self.build(t, live) + self.mark(live)
        return out


def shapes(elifs):
    for n in range(elifs + 1):
        for tr in itertools.product((0, 1), repeat=n + 1):
            for e in (0, 1):
                yield tr, e


def conditionals(deep):
    """(kind, tree or text)"""
    out = []
    kinds = ("if", "ifdef", "ifndef", "defined", "value", "macro")
    for k in kinds:
        for tr, e in shapes(2):
            out.append((k, tr, e, [[]] * (len(tr) + e)))
    inner = [(k, tr, e, [[]] * (len(tr) + e)) for k in ("if", "ifdef") for tr, e in shapes(1)]
    for tr, e in shapes(1):
        n = len(tr) + e
        for slot in range(n):
            for j, t in enumerate(inner):
                k = kinds[(slot + j) % len(kinds)] if not deep else None
                for kk in ([k] if k else kinds):
                    out.append((kk, tr, e, [[t] if i == slot else [] for i in range(n)]))
    rnd = random.Random(3)

    def tree(d):
        tr, e = rnd.choice(list(shapes(2)))
        return (rnd.choice(kinds), tr, e,
                [[tree(d - 1) for _ in range(rnd.randint(0, 2))] if d else []
                 for _ in range(len(tr) + e)])
    out += [tree(d) for d in (1, 2, 3) for _ in range(60 if deep else 10)]
    return out


PRE = ("#define YES 1\n#define VAL 3\n#define NO 1\n#undef NO\n#define MAC(x) (x)\n"
       "#define GONE(x) x\n#undef GONE\n")


PRIO = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", "<=", ">", ">="),
        ("<<", ">>"), ("+", "-"), ("*", "/", "%")]
BIN = {"||": lambda a, b: int(bool(a or b)), "&&": lambda a, b: int(bool(a and b)),
       "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "&": lambda a, b: a & b,
       "==": lambda a, b: int(a == b), "!=": lambda a, b: int(a != b),
       "<": lambda a, b: int(a < b), "<=": lambda a, b: int(a <= b),
       ">": lambda a, b: int(a > b), ">=": lambda a, b: int(a >= b),
       "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
       "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
       "/": lambda a, b: int(a / b), "%": lambda a, b: a - b * int(a / b)}


def value(toks):
    """the value of an #if expression; raises where C has none"""
    def prim():
        t = toks.pop(0)
        if t == "(":
            v = binary(0)
            toks.pop(0)
            return v
        if t in ("-", "+", "!", "~"):
            v = prim()
            return {"-": -v, "+": v, "!": int(not v), "~": ~v}[t]
        if t.startswith("defined"):
            return int("YES" in t or "VAL" in t or "MAC" in t)
        return {"YES": 1, "VAL": 3}.get(t) if t.isalpha() else int(t)

    def binary(level):
        if level == len(PRIO):
            return prim()
        v = binary(level + 1)
        while toks and toks[0] in PRIO[level]:
            o = toks.pop(0)
            w = binary(level + 1)
            if o in ("<<", ">>") and not 0 <= w < 31 or abs(v) > 1 << 20 or o == "<<" and v < 0:
                raise ZeroDivisionError
            v = BIN[o](v, w)
        return v
    return binary(0)


def conditions(deep):
    rnd = random.Random(9)
    atoms = ["0", "1", "2", "5", "VAL", "YES", "defined(YES)", "defined(NO)", "defined(MAC)",
             "defined(GONE)"]
    ops = sorted(BIN)
    un = ["-", "!", "~", "+", ""]

    def ex(d):
        if d == 0:
            return [x for x in [rnd.choice(un)] if x] + [rnd.choice(atoms)]
        r = ex(d - 1) + [rnd.choice(ops)] + ex(rnd.randint(0, d - 1))
        if rnd.random() < .3:
            r = [x for x in [rnd.choice(un)] if x] + ["("] + r + [")"]
        return r
    es = [[u, a] for u in un[:4] for a in atoms]
    es += [[u, w, a] for u in un[:4] for w in un[:4] for a in ("0", "VAL", "defined(YES)")
           if u != w or u == "!"]
    for u in un[:4]:
        for o in ops:
            es += [[u, "VAL", o, "2"], ["2", o, u, "YES"], [u, "(", "2", o, "1", ")"]]
    es += [ex(rnd.randint(1, 3)) for _ in range(600 if deep else 120)]
    out = []
    for e in es:
        try:
            v = value(list(e))
        except ZeroDivisionError:
            continue
        out.append((" ".join(e), int(v != 0)))
    return list(dict.fromkeys(out))


def some_conditions(items):
    """several #if in one text"""
    text, kept = "", []
    for i, (e, v) in enumerate(items):
        text += "#if %s\ng(%d);\n#endif\n" % (e, i)
        if v:
            kept.append(i)
    text = PRE + "int g(int a);\nint f() {\n%s return 0; }\n" % text
    u = Source()
    msg = u.prepare(text)
    if msg:
        if len(items) == 1:
            return [("is rejected (%s)" % msg, "#if " + items[0][0])]
        return [x for it in items for x in some_conditions([it])]
    l1 = Level1(u, {})
    l1.find_cells("f")
    tr, _ = l1.run("f", None, False)
    got = [P().simp(e[2][0]) for e in tr if e[0] == "call"]
    return [("is %s" % ("not taken" if v else "taken"), "#if " + e)
            for i, (e, v) in enumerate(items) if (i in got) != bool(v)]


def layout(text, how):
    """the same directives with other white space and comments"""
    if how == 0:
        return text
    out = []
    for ln in text.split("\n"):
        if ln.startswith("#"):
            ln += {1: " // #endif", 2: " /* #else */", 3: "  "}[how]
            if how == 3:
                ln = "   " + ln
        elif how == 2 and ln:
            ln += ' /* #if 0\n#else */'
        out.append(ln)
    return ("\r\n" if how == 3 else "\n").join(out)


def one_conditional(t, how):
    out = []
    for glob in (False, True):
        g = Gen(glob)
        body = layout(g.body([t], True), how)
        u = Source()
        text = PRE + ("int g(int a);\n%s int f() { return 0; }\n" if glob else
                      "int g(int a);\nint f() {\n%s return 0; }\n") % body
        msg = u.prepare(text)
        if msg:
            out.append((msg, text))
            continue
        if glob:
            got = [i for i in range(1, g.n + 1) if has_body(u, "m%d" % i)]
        else:
            l1 = Level1(u, {})
            l1.find_cells("f")
            tr, _ = l1.run("f", None, False)
            got = [P().simp(e[2][0]) for e in tr if e[0] == "call"]
        if got != g.kept:
            out.append(("keeps the groups %s instead of %s" % (got, g.kept), text))
    return out


def has_body(u, name):
    f = u._hget(u.ip, [u.ip.gget("FUNCS_MAP"), u.ip.string(name)], None)
    if not isinstance(ptr(f), Ptr):
        return False
    return isinstance(ptr(u.ip.obj(f).get("fn")), Ptr)


# ------------------------------------------------------------------- macros

TOK = re.compile(r'"[^"]*"|[A-Za-z_]\w*|\d\w*|\s+|.')


class Expand:
    """textual expansion as C defines it (macros do not nest here)"""

    def __init__(self):
        self.obj, self.fun = {}, {}

    def define(self, line):
        m = re.match(r"#define (\w+)\(([^)]*)\) ?(.*)", line)
        if m:
            ps = [x.strip() for x in m.group(2).split(",") if x.strip()]
            self.fun[m.group(1)] = (ps, m.group(3))
            return
        m = re.match(r"#define (\w+) ?(.*)", line)
        self.obj[m.group(1)] = m.group(2)

    def text(self, s):
        toks = TOK.findall(s)
        out, i = "", 0
        while i < len(toks):
            t = toks[i]
            if t in self.obj:
                out += " " + self.text(self.obj[t]) + " "
            elif t in self.fun:
                while toks[i] != "(":
                    i += 1
                d, args, cur = 0, [], ""
                while True:
                    i += 1
                    x = toks[i]
                    if x == ")" and d == 0:
                        break
                    d += (x == "(") - (x == ")")
                    if x == "," and d == 0:
                        args.append(cur)
                        cur = ""
                    else:
                        cur += x
                args.append(cur)
                ps, body = self.fun[t]
                args = [self.text(a) for a in args]
                if ps and ps[-1] == "...":
                    n = len(ps) - 1
                    env = dict(zip(ps[:-1], args))
                    env["__VA_ARGS__"] = ",".join(args[n:])
                else:
                    env = dict(zip(ps, args))
                out += " " + "".join(" %s " % env[w] if w in env else w for w in TOK.findall(self.text(body))) + " "
            else:
                out += t
            i += 1
        return out

    def program(self, text):
        out = []
        for ln in text.split("\n"):
            if ln.startswith("#define"):
                self.define(ln)
            elif ln.startswith("#undef"):
                self.obj.pop(ln.split()[1], None)
                self.fun.pop(ln.split()[1], None)
            else:
                out.append(self.text(ln))
        return "\n".join(out)


ONE = ["x", "(x)", "x + 5", "(x + 5)", "(x) * 2", "g(x)", "(g(x) - x)", "h(x, 1)", "-x", "(-(x))",
       "7", "(x ? 3 : 4)", "G", "!x", "(x == 2)", "x && G", "p[1] + x", "((x) << 2)", "~x",
       "(x > a ? x : a)", "sizeof(int) + x", "(VAL + x)"]
TWO = ["x + y", "(x + y)", "(x) - (y)", "h(x, y)", "(x ? y : 2)", "x", "y", "((x) > (y) ? (x) : (y))",
       "(y - x)", "x == y", "(x && y)", "h(y, x) - x"]
ATOM = ["a", "3", "g(a)", "h(a, b)", "(a + b)", "-a", "VAL", "(a ? b : 1)", "p[2]", "c"]
MIXED = ["a + b", "a * b + 1", "a == b", "a ? b : 2", "a && b", "h(a, b) - 1"]
USE = ["return %s;", "return 2 * %s + 3;", "return b - %s - 1;", "if (%s) g(1);", "c = %s; return c;",
       "return h(%s, 2);", "return h(b, %s);", "while (%s) c = g(c);", "return b ? %s : 2;",
       "return b ? 1 : %s;", "p[%s] = 1;", "return -%s;", "return !%s;", "return (%s) * c;",
       "c += %s; return c;", "return a && %s || b;", "switch (%s) { case 3: g(1); }",
       "int d = %s; return d;", "G = %s == b;", "return p[%s] + 1;"]
TWICE = ["return %s + %s;", "return %s * 2 - %s * 3;", "return h(%s, %s);", "if (%s) return %s;",
         "c = %s; c = c - %s; return c;"]
STAT = ["g(x)", "do { g(x); h(x, 1); } while (0)", "if (x) g(x)", "g(x); g(x + 1)", "c = x",
        "G = x + 1", "{ g(x); c = x; }", "while (c > x) c = g(c)", "c = c - x; g(c)",
        "if (x) { g(1); } else { g(2); }", "return x", "c += x", "c++; g(x)"]
SUSE = ["%s; return c;", "if (b) %s; return c;", "while (c < b) %s; return c;",
        "{ %s; g(9); } return c;", "%s; %s; return c;", "if (b) { %s; } else { %s; } return c;",
        "for (c = 0; c < b; c++) %s; return c;"]
VARI = [("...", "h(__VA_ARGS__)", ("a, b", "3, g(a)", "(a + b), -b", "a ? 1 : 2, h(a, b)")),
        ("x, ...", "h(x, __VA_ARGS__)", ("a, b", "3, g(a)", "a + b, b")),
        ("x, ...", "v3(x, __VA_ARGS__)", ("a, b, 3", "1, 2, 3", "g(1), h(1, 2), c")),
        ("x, ...", "g(x)", ("a, b", "a")),
        ("...", "v3(1, __VA_ARGS__)", ("a, b", "h(a, b), c"))]
KINDS = [("#define N 4", "N"), ("#define N 0x21", "N"),
         ("#define N a", "N"), ("#define N (2)", "N"),
         ("#define N (a - b)", "N"), ("#define N -3", "N"),
         ("#define N(x) (x - 1)", "N(a)"), ("#define N(x) h(x, 2)", "N(b)"),
         ("#define N(x, y) (x - y)", "N(a, c)"), ("#define N(y, x) (x * y)", "N(a, c)"),
         ("#define N(y, z) (z - y)", "N(3, b)"), ("#define N(p, x, y) v3(y, p, x)", "N(a, b, c)"),
         ("#define N(...) h(__VA_ARGS__)", "N(a, 5)"), ("#define N(x, ...) v3(x, __VA_ARGS__)", "N(1, b, a)")]
OBJ = ["5", "0x1f", "017", "\"abc\"", "K", "L", "b", "(5)", "(K)", "(a + K)", "-1", "-a", "(-K)",
       "(a ? K : 2)", "g(a)", "((a))", "\"a string of more than thirty-one characters\"", "g", "S",
       "( K + 1 )", "!a", "~K", "(1 << K)"]


def macros(deep):
    """(key, text)"""
    out = []

    def add(key, defs, body):
        out.append((key, "\n".join(defs) + "\n" + PROTO + body + " }\n"))
    full = deep
    V = "#define VAL 3"
    for i, b in enumerate(ONE):
        # an argument with operators; the body keeps it together
        paren = "x" not in re.sub(r"\(x\)|\(x, 1\)", "", b) or b == "x"
        for j, a in enumerate(ATOM + (MIXED if paren else [])):
            for k, u in enumerate(USE):
                if not full and (i + 2 * j + k) % 5:
                    continue
                if a in MIXED and b == "x" and not safe(u):
                    continue
                add("call", [V, "#define M(x) " + b], u % ("M(%s)" % a))
    for i, b in enumerate(TWO):
        for j, (a, c) in enumerate(itertools.product(ATOM, ATOM)):
            u = USE[(i + j) % len(USE)]
            if not full and (i + j) % 4:
                continue
            add("call", [V, "#define M(x, y) " + b], u % ("M(%s, %s)" % (a, c)))
    for i, b in enumerate(ONE):
        for j, u in enumerate(TWICE):
            a, c = ATOM[(i + j) % len(ATOM)], ATOM[(2 * i + j + 1) % len(ATOM)]
            add("call", [V, "#define M(x) " + b], u % ("M(%s)" % a, "M(%s)" % c))
            add("call", [V, "#define N(y) (y - 2)", "#define M(x) " + b],
                u % ("M(%s)" % a, "N(%s)" % c))
    for i, b in enumerate(STAT):
        for j, u in enumerate(SUSE):
            for k, a in enumerate(ATOM):
                if not full and (i + j + k) % 4:
                    continue
                if b in ("return x",) and "%s; %s" in u or u.startswith("while") and ";" in b:
                    continue
                m = "M(%s)" % a
                add("statement", [V, "#define M(x) " + b], u.replace("%s", m))
    for a in ATOM:
        for u in USE[::3]:
            add("call", [V, "#define M(a) ((a) - 2)"], u % ("M(%s)" % a))
            add("call", [V, "#define M(b, a) h(a, b)"], u % ("M(%s, c)" % a))
    for ps, b, argl in VARI:
        for a in argl:
            for u in ("return %s;", "%s; return 1;", "return 2 * %s - %s;"):
                add("variadic", ["#define M(%s) %s" % (ps, b)], u.replace("%s", "M(%s)" % a))
    for v in OBJ:
        if v[0] == '"' or v == "S":
            us = ("k(N); return 1;", "k(N); k(S); k(N); return 1;")
        elif v == "g":
            us = ("return N(a);", "N(b); return 1;")
        else:
            us = ("return %s + 1;", "return h(%s, a);", "c = %s; return c;", "return a - %s - b;",
                  "return c * %s;", "return -%s;", "if (%s) g(1); return %s;", "return %s;",
                  "p[%s] = 1;", "return b ? %s : %s;")
            us = us if deep else us[len(v) % 2::2]
        D = ["#define K 3", "#define L K", '#define S "st"']
        if v == "g(a)":
            continue
        for u in us:
            u = u.replace("%s", "N")
            add("object", D + ["#define N " + v], u)
            add("object", ["#define N " + v] + D, u)
            add("object", D + ["#define N 1", "#undef N", "#define N " + v, "#undef L"], u)
    for d in ("#define E", "#define E // nothing", "#define E /* 1 */", "#define E  "):
        for t in ("int gx;", "E int gx;", "typedef int num;", "#undef E", "char gx;", "#define N 3"):
            add("empty", [d, t], "return a;")
        add("empty", [d, "#define M(x) (x)"], "E; return M(E a) E + b;")
        add("empty", ["#define N 2", d], "int E e; e = N E; return e;")
    for u in ("int d[N]; d[1] = a; return d[b];", "switch (a) { case N: g(1); } return 2;",
              "return NN + N1;", "int N1; N1 = N; return N1;", "return N*N/N;", 'g("N"); return 1;'):
        add("object", ["#define N 4", "#define N1 6" if "NN" in u else "#define K 2",
                       "#define NN 7"], u)
    add("object", ["#define N 4", "int f2() { return N; }", "#undef N", "#define N 9"],
        "return N;")
    add("object", ["#define M(x) (x + 1)", "int f2(int a) { return M(a); }", "#undef M",
                   "#define M(x) (x + 2)"], "return M(a);")
    # every kind of macro undefined and defined again as every kind, used in between or not
    for i, (d, du) in enumerate(KINDS):
        for j, (e, eu) in enumerate(KINDS):
            for k, mid in enumerate(("", "int f2(int a, int b) { int c; c = b; return %s; }" % du,
                                     "#define P(x, y) (y - x)")):
                if not full and (i + j + k) % 2:
                    continue
                add("again", [d, mid, "#undef N", e],
                    "int c; c = b; return %s + %s;" % (eu, "P(c, a)" if "P(" in mid else eu))
    for b, a in (("x * 2", "a + b"), ("-x", "a - 1"), ("x == b", "a & 1")):
        add("grouping", ["#define M(x) " + b], "return M(%s);" % a)
    return out


def safe(u):
    return not re.search(r"[-*!&+] ?%s|%s ?[-*+=|]", u) and "%s ==" not in u


def one_macro(key, text):
    want = Expand().program(text)
    out = []

    def run():
        r = Pipe()
        if r.prepare(want):
            return "skip"
        names = {}
        l = Level1(r, names)
        l.find_cells("f")
        ps = paths(r, l, "f", 5)
        u = Source()
        msg = u.prepare(text)
        if msg:
            return "is rejected (%s)" % msg
        m = Level1(u, {})
        m.find_cells("f")
        for d, tr, full in ps:
            try:
                got, gf = m.run("f", d, False)
                x = agree(tr, got, full and gf)
                if x is None and full and not gf:
                    x = "does not end"
            except Undefined:
                x = "decides on an undefined value"
            except BadCFG as e:
                x = str(e)
            if x:
                return x
        return None
    for _, r in explore(run):
        if r == "skip":
            return None
        if r:
            out.append(r)
    return out


def batch(items, how):
    out = []
    if how == "if":
        return [(len(items), "condition", some_conditions(items))]
    for it in items:
        if how == "cond":
            t, lay = it
            r = one_conditional(t, lay)
            out.append((2, "conditional", [(m, tx) for m, tx in r]))
        else:
            r = one_macro(*it)
            out.append((0 if r is None else 1, it[0], [(m, it[1]) for m in r or []]))
    return out


@check("P13", "other",
       "The real lexer and parser are interpreted on generated texts with conditional directives "
       "and macros. The groups an independent reading of the directives keeps, and the meaning of "
       "the text with its macros expanded by an independent expander, are compared with what the "
       "compiler makes of them, over symbolic inputs.",
       ["conditionals of every shape with up to two #elif, nested to depth two (random trees to "
        "depth three), at statement and at file level, in four layouts; object-like macros of one "
        "token; function-like macros from lists of bodies, arguments and contexts"])
def p13(res):
    tu = load("arm")
    for f in ("read_preproc_directive", "lex_token_internal"):
        if f not in tu.functions:
            raise AnalysisError("anchor %s not found" % f)
    deep = res.tier == "thorough"
    cs = conditionals(deep)
    cs = [(t, how) for i, t in enumerate(cs) for how in (range(4) if deep or i < 40 else [i % 4])]
    ms = macros(deep)
    ms = list(dict.fromkeys(ms))
    bad, skipped = [], [0]

    def merge(r):
        for n, key, found in r:
            res.ob(n)
            res.count(key, max(n, 1))
            skipped[0] += n == 0
            for m, text in found:
                bad.append((key, text, m))
    n = 64
    ifs = conditions(deep)
    collect(res, pmap(batch, [(ifs[i:i + 12], "if") for i in range(0, len(ifs), 12)] +
                      [(cs[i::n], "cond") for i in range(n)] +
                      [(ms[i::n], "macro") for i in range(n)]), merge)
    res.count("expansions the parser does not take", skipped[0])
    if skipped[0] * 4 > len(ms):
        raise AnalysisError("the parser rejects most expanded programs")
    where = "%s (read_preproc_directive)" % tu.functions["read_preproc_directive"].where
    bad.sort(key=lambda x: (len(x[1]), x[1]))
    for key, text, m in bad[:20]:
        body = text[len(PRE):] if text.startswith(PRE) else text.replace(PROTO, "")
        body = " | ".join(x for x in body.split("\n") if x.strip())[:300]
        if key == "grouping":
            # how an argument's operators bind in an unparenthesised body
            res.find("grouping", "text the preprocessor of C leaves", where,
                     "%s: %s" % (body, m[:200]))
            continue
        res.find("%s/%s" % (key, re.sub(r"\s+", "_", body)[:160]),
                 "text the preprocessor of C leaves", where, "%s: %s" % (body, m[:200]))

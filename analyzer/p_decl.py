"""P14 declarations: the real lexer and parser are interpreted on generated
programs; what names, types and constants denote is compared with an
independent resolution."""
import itertools
import random
import re

from absint import Ptr
from cast import AnalysisError, load
from dom import P, explore
from front import BadCFG, bid, ptr
from p_pp import Source
from par import collect, pmap
from pipe import Level1, Undefined, agree, paths
from props import check

PROTO = ("int g(int a); int h(int a, int b); void k(int *x); void kk(char *x); void kp(int **x); "
         "int G; int H; int q1(int a); int q2(int a); ")


class Named(Level1):
    """objects are called by their name and the order their declarations come in"""

    def __init__(self, u):
        Level1.__init__(self, u, {})
        self.order, ip = {}, u.ip
        count = {}
        b = ptr(ip.gget("BLOCKS").get("head"))
        while isinstance(b, Ptr):
            o = ip.obj(b)
            f = repr(ptr(o.get("func"))) if isinstance(ptr(o.get("func")), Ptr) else ""
            for i in range(P().simp(o.get("next_local"))):
                v = Ptr(o.get("locals"), i)
                n = u.var_name(v)
                m = re.match(r"(\w+?)__(\d+)$", n)
                if m:
                    self.order[bid(v)] = n
                    continue
                if n[:1] == ".":
                    continue
                if f == "":
                    self.order[bid(v)] = n
                    continue
                c = count.get((f, n), 0)
                count[f, n] = c + 1
                self.order[bid(v)] = "%s__%d" % (n, c)
            b = ptr(o.get("next"))

    def find_cells(self, fname):
        f = self.u.function(fname)
        for i in range(P().simp(f.get("num_params"))):
            self.order[bid(Ptr(f.get("param_defs"), i))] = self.param(i, None)
        Level1.find_cells(self, fname)

    def param(self, i, p):
        return "arg%d" % i

    def unique(self, v):
        v = self.u.base(v)
        return self.order.get(bid(v)) or Level1.unique(self, v)


class Renamed(Source):
    """a program whose objects carry other names"""

    def __init__(self, back):
        Source.__init__(self)
        self.back = back

    def text_at(self, p):
        n = Source.text_at(self, p)
        return self.back.get(n, n)


def compare(want, text, fname="f", back=None):
    """None if the reference is not parsed, else the list of differences"""
    out = []

    def run():
        r = Source()
        if r.prepare(want):
            return "skip"
        l = Named(r)
        l.find_cells(fname)
        ps = paths(r, l, fname, 5)
        u = Renamed(back) if back else Source()
        msg = u.prepare(text)
        if msg:
            return "is rejected (%s)" % msg
        m = Named(u)
        m.find_cells(fname)
        for d, tr, full in ps:
            try:
                got, gf = m.run(fname, d, False)
                x = agree(tr, got, full and gf)
                if x is None and full and not gf:
                    x = "does not end"
            except Undefined:
                x = "decides on an undefined value"
            except BadCFG as e:
                x = str(e)
            if x:
                return x
        return None
    for _, r in explore(run):
        if r == "skip":
            return None
        if r:
            out.append(r)
    return out


# ------------------------------------------------------------------ scopes
class Scope:
    """writes a program twice: with C's names, and with one name per object"""

    def __init__(self, outer):
        self.envs, self.ids, self.count, self.made = [dict(outer)], [0], {}, 0
        self.a, self.b = "", ""

    def push(self, env):
        self.made += 1
        self.envs.append(env)
        self.ids.append(self.made)

    def pop(self):
        self.envs.pop()
        self.ids.pop()

    def fresh(self, n):
        """a stand-in for the unique name, see done()"""
        k = self.count.get(n, 0)
        self.count[n] = k + 1
        return "%s@%d@%d@" % (n, self.ids[-1], k)

    def done(self):
        """objects are numbered by the order their blocks open in, then by declaration"""
        for n in self.count:
            ks = sorted({tuple(map(int, m)) for m in
                         re.findall(r"\b%s@(\d+)@(\d+)@" % n, self.b)})
            for i, k in enumerate(ks):
                self.b = self.b.replace("%s@%d@%d@" % ((n,) + k), "%s__%d" % (n, i))
        return self.b, self.a

    def both(self, s):
        self.a += s
        self.b += s

    def ref(self, n):
        for e in reversed(self.envs):
            if n in e:
                return e[n]
        raise KeyError(n)

    def use(self, fmt, *ns):
        self.a += fmt % ns
        self.b += fmt % tuple(self.ref(n) for n in ns)

    def declare(self, fmt, n):
        """fmt has one hole, the declared name; the initialiser is already written out"""
        u = self.fresh(n)
        self.a += fmt % n
        self.b += fmt % u
        self.envs[-1][n] = u

    def init(self, ty, n, fmt, *ns):
        """ty n = expr over names of the enclosing scopes, n itself excluded"""
        assert n not in ns
        u = self.fresh(n)
        self.a += "%s %s = %s; " % (ty, n, fmt % ns)
        self.b += "%s %s = %s; " % (ty, u, fmt % tuple(self.ref(x) for x in ns))
        self.envs[-1][n] = u

    def open(self, head="", *ns):
        self.use(head + "{ ", *ns)
        self.push({})

    def close(self, tail="} "):
        self.both(tail)
        self.pop()


HEADS = [("", 0), ("if (p) ", 0), ("if (%s > b) ", 1), ("while (%s < b) ", 1), ("do ", 0),
         ("if (b) g(7); else ", 0), ("while (g(%s)) ", 1),
         ("switch (%s) { case 1: g(7); break; default: ; ", 1),
         ("switch (%s) { default: ; ", 1)]
GLOBALS = {"G": "G", "H": "H", "R": "R", "B": "B", "q1": "q1", "q2": "q2", "ty": "ty", "a": "a", "b": "b", "p": "p"}
ENUM = "typedef enum { R = 3, B } hue; "
TYPE = "typedef int ty; "


def body(rnd, depth, s, pool):
    """random statements; every name in `pool` may be declared anew"""
    for _ in range(rnd.randint(2, 4)):
        c = rnd.random()
        scal = [n for n in pool if s.ref(n) not in ("q1", "q2", "ty")]
        assign = [n for n in scal if s.ref(n) not in ("R", "B")]
        n, m, o = rnd.choice(scal), rnd.choice(scal), rnd.choice(assign)
        here = [x for x in pool if x not in s.envs[-1]]
        if c < 0.25 and here:
            x = rnd.choice(here)
            y = rnd.choice([v for v in scal if v != x] or ["a"])
            z = rnd.choice([v for v in scal if v != x] or ["b"])
            ty = "ty" if s.ref("ty") == "ty" and rnd.random() < 0.3 else rnd.choice(["int", "char"])
            s.init(ty, x, rnd.choice(["%s + %s", "h(%s, %s)",
                                                                     "%s * %s"]), y, z)
        elif c < 0.29 and [x for x in here if x in scal]:
            # the outer object, and right after it the inner one
            x = rnd.choice([x for x in here if x in scal])
            s.use("g(%s); ", x)
            s.declare(rnd.choice(["int %s = 6; ", "int %s; ", "char %s = 'c'; "]), x)
            s.use("%s = 8; " if s.a.endswith(x + "; ") else "g(%s); ", x)
            if rnd.random() < .5:
                s.use("g(%s); ", x)
        elif c < 0.35 and here:
            s.declare("int %s; ", rnd.choice(here))
            x = [k for k in s.envs[-1]][-1]
            s.use("%s = g(" + "5); ", x)
        elif c < 0.5:
            s.use("h(%s, %s); ", n, m)
        elif c < 0.65:
            s.use("%s = %s + p; ", o, n)
        elif c < 0.7:
            s.use("k(&%s); ", o)
        elif c < 0.75:
            s.use("%s++; ", o)
        elif depth:
            if rnd.random() < 0.25 and here:
                x = rnd.choice(pool)
                y = rnd.choice([v for v in scal if v != x] or ["a"])
                old = s.ref(y)
                s.push({})
                nx = s.fresh(x)
                s.a += "for (int %s = %s; %s < b; %s++) { " % (x, y, x, x)
                s.b += "for (int %s = %s; %s < b; %s++) { " % (nx, old, nx, nx)
                s.envs[-1][x] = nx
                s.push({})
                body(rnd, depth - 1, s, pool)
                s.pop()
                s.close()
            else:
                hd, k = rnd.choice(HEADS)
                if hd[:6] == "switch":
                    s.use(hd, n)
                    s.push({})
                else:
                    s.open(hd, *([n] * k))
                body(rnd, depth - 1, s, pool)
                s.close("} while (p++ < 3); " if hd == "do " else "} ")
    return s


def scopes(deep):
    out = []
    for seed in range(900 if deep else 220):
        rnd = random.Random(seed)
        s = Scope(GLOBALS)
        pool = ["G", "ty", "x"] if seed % 6 == 5 else ["G", "R", "x"] if seed % 3 == 0 else ["G", "H", "R", "B", "q1"] if seed % 3 == 1 \
            else ["a", "G", "x", "y"]
        s.both("int f(int a, int b, int p) { " if seed % 4 else
               "int f(int a, int G, int p) { int b = a + 2; ")
        s.push({})
        if seed % 4 == 0:
            s.push({"G": "G__p"})
            s.b = s.b.replace("int G,", "int G__p,")
            s.push({})
        for n in pool:
            if n in ("x", "y"):
                s.init("int", n, "a + %s", "b")
        # parameters and the outermost block are one scope
        if seed % 4 == 0:
            s.envs[-1]["b"] = "b"
        for n in ("a", "b"):
            s.envs[-1].setdefault(n, n)
        if seed % 4 == 0:
            s.envs[-1].setdefault("G", "G__p")
        body(rnd, 2, s, pool)
        live = [n for n in pool if s.ref(n) not in ("q1", "q2", "ty")]
        s.use("return " + " + ".join(["%s"] * len(live)) + "; }", *live)
        pre = TYPE + ENUM + PROTO
        want, text = s.done()
        out.append(("scope", pre + want, pre + text))
    # the seams by hand: text, with the reference
    P3 = ENUM + PROTO
    for a, b in (
            ("int f(int R) { return R + B; }", "int f(int r) { return r + 4; }"),
            ("int f(int a) { int B = a; { int a = B; B = a + 1; } return B + a; }",
             "int f(int a) { int c = a; { int d = c; c = d + 1; } return c + a; }"),
            ("int f(int a) { int G = 1; { return G + a; } }", "int f(int a) { int c = 1; return c + a; }"),
            ("int f(int a) { { int G = 5; g(G); } return G; }",
             "int f(int a) { { int c = 5; g(c); } return G; }"),
            ("int f(int a) { { int x = 1; g(x); } { int x = 2; g(x); } return 0; }",
             "int f(int a) { g(1); g(2); return 0; }"),
            ("int f(int a) { for (int i = 0; i < a; i++) { int i = 9; g(i); } return 0; }",
             "int f(int a) { for (int i = 0; i < a; i++) { int j = 9; g(j); } return 0; }"),
            ("int f(int a) { int i = 7; for (int i = 0; i < a; i++) g(i); return i; }",
             "int f(int a) { int i = 7; for (int j = 0; j < a; j++) g(j); return i; }"),
            ("int f2(int z) { int G = z; return G; } int f(int a) { return G + f2(a); }",
             "int f2(int z) { return z; } int f(int a) { return G + f2(a); }"),
            ("int f2(int x) { return x; } int f(int x) { int y = x; return f2(y) + x; }",
             "int f2(int z) { return z; } int f(int x) { return f2(x) + x; }"),
            ("int f(int q1) { return q1 + q2(q1); }", "int f(int a) { return a + q2(a); }"),
            ("int f(int a) { int q1 = a; q1++; return q2(q1) + q1; }",
             "int f(int a) { int c = a; c++; return q2(c) + c; }"),
            ("int f(int a) { switch (a) { case R: return B; case B: return R; } return 0; }",
             "int f(int a) { switch (a) { case 3: return 4; case 4: return 3; } return 0; }"),
            ("int f(int a) { int x = a; { g(x); int x = 2; g(x); } g(x); return x; }",
             "int f(int a) { g(a); g(2); g(a); return a; }"),
            ("int f(int a) { int x = a; { g(x); int x = 2; k(&x); } k(&x); { k(&x); int x = 1; k(&x); } "
             "return x; }",
             "int f(int a) { int x__0 = a; { g(x__0); int x__1 = 2; k(&x__1); } k(&x__0); { k(&x__0); int "
             "x__2 = 1; k(&x__2); } return x__0; }"),
            ("int f(int G) { g(G); { g(G); int G = 1; g(G); } g(G); return 0; } int f2() { return G; }",
             "int f(int a) { g(a); g(a); g(1); g(a); return 0; } int f2() { return G; }"),
            ("int f(int a) { int x; x = a; if (a) { int x; x = 5; k(&x); g(x); } return x; }",
             "int f(int a) { int y; y = a; if (a) { int x__1; x__1 = 5; k(&x__1); g(x__1); } "
             "return y; }")):
        out.append(("scope", P3 + b, P3 + a))
    return out


# -------------------------------------------------------------- declarators
def declarators(deep):
    """one declaration with several declarators, initialised; the reference declares first"""
    inits = ["a", "a + b", "g(a)", "a ? 1 : b", "a && b", "b || 3", "-a", "p[1]", "*p", "sizeof(int)",
             "'c'", "~b", "a == b", "(a + b) * 2", "!a", "G", "R", "a++ + b"]
    out = []
    pre = ENUM + PROTO
    items = [("int", "%s", i) for i in inits] + \
        [("int", "*%s", i) for i in ("p", "&a", "p + 1", "&G", "&p[2]", "0", "a ? p : &b")] + \
        [("char", "%s", i) for i in ("65", "'x'", "s[1]", "*s")] + \
        [("char", "*%s", i) for i in ("s", "s + 2", "&s[a]", "0", '"lit"')]

    def use(d, n, i):
        return {"%s": "h(%s, a); %s = %s + 1; g(%s); " % (n, n, n, n),
                "*%s": "g(*%s); g(%s[a]); " % (n, n)}[d]
    heads = ["int f(int a, int b, int *p, char *s) { "]

    def split(ty, ds):
        return " ".join("%s %s; %s = %s;" % (ty, d % n, n, i) if i else "%s %s;" % (ty, d % n)
                        for d, n, i in ds) + " "

    def joined(ty, ds):
        return "%s %s; " % (ty, ", ".join(
            "%s = %s" % (d % n, i) if i else d % n for d, n, i in ds))

    def put(ty, ds, rest):
        uses = "".join(use(d, n, i) for d, n, i in ds if i)
        body = uses + rest + " return a + b; }"
        out.append(("declarator", pre + heads[0] + split(ty, ds) + body,
                    pre + heads[0] + joined(ty, ds) + body))
    for ty, d, i in items:
        put(ty, [(d, "x", i)], "")
    same = {t: [(d, i) for ty, d, i in items if ty == t] for t in ("int", "char")}
    for t in ("int", "char"):
        for (d, i), (e, j) in itertools.product(same[t], same[t]):
            if not deep and (same[t].index((d, i)) + same[t].index((e, j))) % 3:
                continue
            put(t, [(d, "x", i), (e, "y", j)], "")
        for (d, i) in same[t]:
            put(t, [(d, "x", i), ("%s", "z", ""), ("%s", "y", "a")],
                "z = y; g(z);")
            put(t, [("%s[4]", "z", ""), (d, "x", i)], "z[1] = a; g(z[b]);")
            put(t, [(d, "x", i), ("%s[3]", "z", ""), ("*%s", "w", "z")],
                "z[1] = a; w[2] = b; g(z[b]);")
    for n in (3, 4, 6):
        put("int", [("%s", "v%d" % i, "v%d * 2" % (i - 1) if i else "a") for i in range(n)], "")
    for t in ("if (a) { %s g(b); }", "while (a < b) { %s a++; }", "for (int i = 0; i < b; i++) { %s }",
              "{ %s }"):
        for i in inits:
            d = [("%s", "x", i), ("%s", "y", "x + 1")]
            u = "g(x); h(x, y);"
            out.append(("declarator", pre + heads[0] + t % (split("int", d) + u) + " return 0; }",
                        pre + heads[0] + t % (joined("int", d) + u) + " return 0; }"))
    return out


# ------------------------------------------------------------------- types
FIELDS = [("int m;", "m", 4, "s"), ("char c;", "c", 1, "s"), ("int *p;", "p", 4, "p"),
          ("char *q;", "q", 4, "p"), ("int v[3];", "v", 12, "a"), ("char t[5];", "t", 5, "a"),
          ("_Bool o;", "o", 1, "s"), ("int (*fn)(int a);", "fn", 4, "f"), ("char *w[3];", "w", 12, "a"),
          ("I in;", "in", None, "n"), ("I ia[2];", "ia", None, "n"), ("I *ip;", "ip", 4, "p"),
          ("struct I *jp;", "jp", 4, "p"), ("char **pp;", "pp", 4, "p")]
INNER = "typedef struct I { char ic; int im; char it[2]; } I; "
INNER_SIZE = None


def layouts(deep):
    """sequences of members"""
    out = [[i] for i in range(len(FIELDS))]
    for i, j in itertools.product(range(len(FIELDS)), repeat=2):
        if i != j:
            out.append([i, j])
    rnd = random.Random(3)
    for _ in range(200 if deep else 40):
        out.append(rnd.sample(range(len(FIELDS)), rnd.randint(3, 9)))
    return out


def forms(fields):
    """(text defining type S, name usable in declarations)"""
    b = " ".join(fields)
    return [("typedef struct { %s } S; " % b, "S", "S"),
            ("struct S { %s }; " % b, "struct S", "struct S"),
            ("typedef struct S { %s } S; " % b, "S", "struct S"),
            ("typedef struct T { %s } S; " % b, "S", "struct T"),
            ("typedef struct T S; struct T { %s }; " % b, "S", "S"),
            ("typedef struct T { %s } U; typedef U S; " % b, "S", "S"),
            ("typedef struct { %s } U; typedef U W; typedef W S; " % b, "S", "S"),
            ("struct S { %s }; typedef struct S U; typedef U S2; " % b, "S2", "struct S"),
            ("typedef struct T U; typedef U S; struct T { %s }; " % b, "S", "S")]


def shape(form, seq):
    """list of failures of the layout rules"""
    fl = [FIELDS[i] for i in seq]
    defs, name, szname = forms([f[0] for f in fl])[form]
    t = PROTO + INNER + defs
    t += "int fi() { return sizeof(I); } int fs() { return sizeof(%s); } " % szname
    if szname != name:
        t += "int fz() { return sizeof(%s); } " % name 
    pn = name
    for n, f in enumerate(fl):
        t += "int *o%d(%s *x) { return &x->%s; } " % (n, pn, f[1])
    t += "int *n1(%s *x) { return &x[1].%s; } " % (pn, fl[0][1])
    t += "int *n3(%s *x, int i) { %s y[4]; x = x + 1; return &x->%s; } " % (pn, pn, fl[0][1])
    t += "%s gv; %s ga[3]; int *gg() { return &gv.%s; } int *g2() { return &ga[2].%s; } " % (
        pn, pn, fl[-1][1], fl[-1][1])
    t += "int f() { return 0; }"
    out = []

    def run():
        u = Source()
        msg = u.prepare(t)
        if msg:
            return ["is rejected (%s)" % msg]
        l = Named(u)

        def ret(fn):
            l.find_cells(fn)
            d, tr, full = paths(u, l, fn, 3)[0]
            if not tr or tr[-1][0] != "return" or tr[-1][1] is None:
                raise BadCFG("%s returns nothing" % fn)
            return tr[-1][1]

        def offset(fn, base):
            from dom import sub
            from unit import addr, value
            v = P().simp(sub(ret(fn), addr(base[1:]) if base[0] == "&" else value("arg0")))
            if not isinstance(v, int):
                raise BadCFG("&%s is %r" % (base, ret(fn)))
            return v
        bad = []
        try:
            isz, size = P().simp(ret("fi")), P().simp(ret("fs"))
            if "int fz()" in t and P().simp(ret("fz")) != size:
                bad.append("sizeof(%s) is %s, sizeof(%s) %s" % (szname, size, name, ret("fz")))
            if isz < 7:
                bad.append("sizeof(I) is %s" % isz)
            end = 0
            offs = []
            for n, f in enumerate(fl):
                o = offset("o%d" % n, "x")
                w = f[2] or isz * (2 if "[2]" in f[0] else 1)
                if o < end or (n == 0 and o):
                    bad.append("member %s lies at %d, the one before ends at %d" % (f[1], o, end))
                end = o + w
                offs.append(o)
            if size < end:
                bad.append("member %s ends at %d of %d bytes" % (fl[-1][1], end, size))
            if size > sum(-(-(f[2] or isz * 2) // 4) * 4 for f in fl) + 4:
                bad.append("%d bytes for members of %d" % (size, end))
            if offset("n1", "x") != size:
                bad.append("x[1] lies at %d, the size is %d" % (offset("n1", "x"), size))
            if offset("n3", "x") != size:
                bad.append("x + 1 lies at %d, the size is %d" % (offset("n3", "x"), size))
            if offset("gg", "&gv") != offs[-1] or offset("g2", "&ga") != 2 * size + offs[-1]:
                bad.append("members of a global are not where those of *x are")
        except BadCFG as e:
            bad.append(str(e))
        return bad
    for _, r in explore(run):
        out += r
    return out, defs


def types(deep):
    """every way of defining a type must give the program the same meaning"""
    out = []
    seqs = [[0, 1], [1, 0], [4, 0], [5, 0, 1], [9, 1, 0], [1, 10, 0], [7, 0], [11, 0], [2, 3, 1, 0],
            [1, 6, 4, 0], [13, 8, 0]]
    for seq in seqs:
        fl = [FIELDS[i] for i in seq]
        fs = forms([f[0] for f in fl])
        ref, _, _ = fs[0]
        uses = {"s": "x->%s = a; g(y.%s); ", "p": "x->%s = 0; y.%s = x->%s; ",
                "a": "x->%s[a] = 0; y.%s[1] = 0; ", "f": "x->%s = q1; g(y.%s(a)); ",
                "n": "x->%s%s.im = a; g(y.%s%s.it[b]); "}
        b = ""
        for f in fl:
            u = uses[f[3]]
            if f[3] == "n":
                ix = "[1]" if "ia" in f[1] else ""
                b += u % (f[1], ix, f[1], ix)
            else:
                b += u % ((f[1],) * u.count("%s"))
        last = fl[-1][1]
        b += "x = x + 1; g(x->%s); x[a].%s = b; gv.%s = a; ga[b].%s = gv.%s; g(sizeof(%s *)); " % (
            last, last, last, last, last, "int")
        for defs, name, sz in fs[1:]:
            def prog(d, n):
                pn = n
                return (PROTO + INNER + d + "%s gv; %s ga[4]; int f(%s *x, int a, int b) { %s y; %s *z; "
                        "%s w[3]; z = &y; z = w; w[1].%s = a; g(w[a].%s); z->%s = a; %sreturn a; }" % (
                            pn, n, pn, n, n, n, last, last, last, b))
            out.append(("type", prog(ref, "S"), prog(defs, name)))
    # aliases of scalar types
    for al, base in (("typedef int T; ", "int"), ("typedef char T; ", "char"),
                     ("typedef int U; typedef U T; ", "int"), ("typedef char U; typedef U T; ", "char"),
                     ("typedef _Bool T; ", "_Bool"), ("typedef enum { E0, E1 } T; ", "int")):
        for b in ("T f(T a, T *p) { T b; T c[3]; b = a; c[1] = b; p[1] = c[a]; return *p; }",
                  "int f(T *p, int i) { p = p + i; return sizeof(T) + p[2]; }",
                  "T gv; T ga[4]; int f(int a) { gv = a; ga[a] = gv; return ga[1] + sizeof(T *); }",
                  "typedef struct { T m; T v[3]; T *p; } S; int f(S *s, int a) { s->m = a; s->v[2] = 1; "
                  "s->p[1] = s->v[a]; return sizeof(S); }",
                  "int f(char *s, int i) { T x = i; T *p; p = &x; k(&i); return *p + x; }"):
            out.append(("alias", PROTO + re.sub(r"\bT\b", base, b), PROTO + al + b))
    # members of one name in several structures, and member names that are other names
    for b, r in (
            ("typedef struct { int m; int n; } S; typedef struct { char c; int m; } T; "
             "int f(S *s, T *t) { s->m = t->m; t->m = s->n; return s->m; }",
             "typedef struct { int m; int n; } S; typedef struct { char c; int k; } T; "
             "int f(S *s, T *t) { s->m = t->k; t->k = s->n; return s->m; }"),
            ("typedef struct { int G; int f; int a; } S; int f(S *s, int a) { s->G = G; s->a = a; "
             "s->f = s->a; return s->G; }",
             "typedef struct { int x; int y; int z; } S; int f(S *s, int a) { s->x = G; s->z = a; "
             "s->y = s->z; return s->x; }"),
            ("typedef struct { int R; int B; } S; " + ENUM + "int f(S *s) { s->R = B; return s->B + R; }",
             "typedef struct { int x; int y; } S; int f(S *s) { s->x = 4; return s->y + 3; }"),
            ("struct node { int v; struct node *next; }; int f(int a) { struct node x; struct node y; "
             "x.next = &y; x.next->v = a; return x.next->next->v; }",
             "typedef struct node node; struct node { int v; node *next; }; int f(int a) { node x; node y; "
             "x.next = &y; x.next->v = a; return x.next->next->v; }")):
        out.append(("member", PROTO + r, PROTO + b))
    return out


# -------------------------------------------------------------- enumerations
def enums(deep):
    out = []
    lists = [["A"], ["A", "Bb", "C"], ["A=5", "Bb", "C"], ["A", "Bb=9", "C"], ["A", "Bb", "C=2"],
             ["A=0x1f", "Bb", "C=017", "D"], ["A=3", "Bb=3", "C"], ["A=100000", "Bb", "C=0", "D"],
             ["A=2147483647"], ["E%d" % i for i in range(40)],
             ["E%d=%d" % (i, 7 * i) if i % 3 == 0 else "E%d" % i for i in range(30)]]
    for ls in lists:
        v, vals = 0, {}
        for e in ls:
            n, _, x = e.partition("=")
            if x:
                v = int(x, 8) if x[0] == "0" and x[1:].isdigit() else int(x, 0)
            vals[n] = v
            v += 1
        d = "typedef enum { %s } en_t; " % ", ".join(e.replace("=", " = ") for e in ls)
        ns = list(vals)
        picks = ns if len(ns) < 6 else ns[:2] + ns[-3:]
        for n in picks:
            m = ns[(ns.index(n) + 1) % len(ns)]
            for b in ("int f(int a) { return %s; }", "int f(int a) { return a + %s * 2; }",
                      "int f(int a) { switch (a) { case %s: g(1); } return %s; }",
                      "int f(int a) { int x[2]; x[a] = %s; en_t e; e = %s; if (e == a) return 1; "
                      "return x[1]; }", "int f(int a) { return h(%s, a) ? %s : 1; }",
                      "int f(en_t a) { while (a < %s) a++; return -%s; }"):
                k = b.count("%s")
                two = (n, m)[:k] if k == 2 else (n,)
                out.append(("enum", PROTO + b.replace("en_t", "int") % tuple(vals[x] for x in two),
                            PROTO + d + b % two))
    two = "typedef enum { A, Bb } e1; typedef enum { C = 7, D } e2; typedef enum { E, F } e3; "
    for n, v in (("A", 0), ("Bb", 1), ("C", 7), ("D", 8), ("E", 0), ("F", 1)):
        out.append(("enum", PROTO + "int f(int a) { return %d; }" % v,
                    PROTO + two + "int f(int a) { return %s; }" % n))
    return out


# ------------------------------------------------------------------ functions
def functions(deep):
    """prototypes, order of definitions, parameter names and lists"""
    out = []
    ty = ["int", "char", "int *", "char *", "S *", "T *"]
    S = "typedef struct { int m; char c[3]; int n; } S; typedef struct { char z; S s; } T; "
    use = {"int": "g(%s);", "char": "g(%s);", "int *": "%s[1] = 2; g(*%s);", "char *": "%s[2] = 'a'; g(%s[1]);",
           "S *": "%s->n = 4; g(%s->c[1]);", "T *": "%s->s.n = 4; %s = %s + 1; g(%s->z);"}
    for n in range(0, 9):
        for r in range(3 if deep else 2):
            ps = [ty[(i * (r + 1) + r) % len(ty)] for i in range(n)]
            sig = ", ".join("%s p%d" % (t, i) for i, t in enumerate(ps))
            alt = ", ".join("%s w%d" % (t, (i + 1) % 9) for i, t in enumerate(ps))
            one = ", ".join("%s p%d" % (t, n - 1 - i) for i, t in enumerate(ps))
            b = "".join((use[t] % (("p%d" % i,) * use[t].count("%s"))) + " " for i, t in enumerate(ps))
            d = "int f(%s) { %sreturn 3; }" % (sig, b)
            for pre in ("int f(%s); " % sig, "int f(%s); " % alt, "int f(%s); int f(%s); " % (one, alt),
                        "int f(%s); int e() { return f(%s); } " % (alt, ", ".join(["0"] * n))):
                out.append(("function", PROTO + S + d, PROTO + S + pre + d))
            # other functions with the same parameter and variable names do not matter
            o = "int e(%s) { int p8; p8 = 1; %sreturn p8; } " % (one, "") 
            out.append(("function", PROTO + S + d, PROTO + S + o + d))
            out.append(("function", PROTO + S + d, PROTO + S + d + " " + o))
    for a, b in (("int f(int a) { return e(a); } ", "int e(int x) { return x; } "),):
        out.append(("function", PROTO + "int e(int x); " + a, PROTO + "int e(int x); " + a + b))
        out.append(("function", PROTO + "int e(int x); " + a, PROTO + b + a))
    for st, r in (("int f(int a, int *b) { return b[a]; }", "int f(int a, int b[]) { return b[a]; }"),
                  ("int f(char **v, int n) { return v[n][1]; }", "int f(char *v[], int n) { return v[n][1]; }")):
        out.append(("function", PROTO + st, PROTO + r))
    return out


# ----------------------------------------------------------------------- names
TEMPLATES = [
    "int @1; int @2; int @3(int @4); int @5(int @4, int @6); "
    "int @7(int @1) { int @5; @5 = @1 + 1; @2 = @5; return @2 * @1; } "
    "int f(int @8, int @9, int @6) { int @10 = @8 + @9; int @11 = @3(@10); int @12; "
    "@12 = @5(@11, @6); @1 = @12 + @10; { int @13 = @7(@11); @12 = @13 - @1; { int @14; @14 = 5; "
    "k(&@14); @2 = @5(@10, @12) + @14; } } for (int @15 = 0; @15 < @9; @15++) @1 = @15 + @2; "
    "return @10 * 3 + @11 * 5 + @12 * 7 + @9 + @8; }",
    "typedef enum { @1, @2 = 5, @3, @4 } @5; typedef struct { int @6; char @7; int @8; int @9[2]; } @10; "
    "typedef struct { int @8; @10 @6; } @11; typedef int @12; struct @13 { int @9; char @7; }; "
    "int f(@10 *@14, @11 *@15, struct @13 *@16, @12 @17) { @14->@6 = @1; @14->@7 = @2; @14->@8 = @17; "
    "@14->@9[1] = @3; @15->@8 = @4; @15->@6.@8 = @14->@6; @16->@9 = @16->@7; @5 @18; @18 = @17 + @2; "
    "@10 @19; @19.@8 = @18; return @18 + @19.@8 + sizeof(@10) + sizeof(@11) + sizeof(struct @13); }",
    "#define @1 31\n#define @2 42\n#define @3(@4) (@4 * @1)\n#undef @2\n#define @2 93\n"
    "#define @5(@6, @7, @8) (@6 + 2 * @7 - 3 * @8)\n#ifdef @9\nint @10() { return 8; }\n#elif defined(@1)\n"
    "int @10() { return 9; }\n#endif\n#ifndef @2\n#define @11 6\n#else\n#define @11 7\n#endif\n"
    "int f(int @12, int @13) { int @14 = @3(@12) + @1; int @15 = @5(@12, @13, @14); "
    "#undef @1\nint @1 = 4; @13 = @2 + @11; return @14 * 2 + @15 * 3 + @13 * 5 + @10() + @1; }"]


def namings(k, deep):
    """lists of k names that are easily taken for each other"""
    low = "abcdefghijklmnopqrstuvwxyz"
    out = [["x" * (i + 1) for i in range(k)],
           ["x" * (k - i) for i in range(k)],
           ["a_long_common_beginning_of_it" + low[i] for i in range(k)],
           [low[i] + "_long_common_end_of_this_name" for i in range(k)],
           ["aa%szzzzzzzzzzzzzzzzzz" % low[i] for i in range(k)],
           ["".join(p) for p in itertools.permutations("abcd")][:k],
           ["int1", "int_", "ifs", "whilex", "do_", "fort", "returns", "structx", "enum_", "elsee",
            "sizeofx", "breaks", "continue_", "switch1", "case_", "default_", "typedef_", "chars",
            "void_", "defined_"][:k],
           ["".join(c.upper() if i >> j & 1 else c for j, c in enumerate("names"))
            for i in range(k)],
           ["_" * (i + 1) for i in range(k)],
           ["a%d" % i for i in (0, 1, 10, 11, 100, 101, 110, 111, 2, 20, 200, 22, 21, 12, 12345, 1234,
                               123, 3, 30, 33)][:k],
           ["a" + "0" * i for i in range(k)]]
    if deep:
        rnd = random.Random(7)
        for _ in range(12):
            s = set()
            while len(s) < k:
                s.add("".join(rnd.choice("ab_0"[:4 if j else 3]) for j in range(rnd.randint(1, 5))))
            out.append(sorted(s, key=lambda x: rnd.random()))
    return out


def names(deep):
    out = []
    for t in TEMPLATES:
        k = max(map(int, re.findall(r"@(\d+)", t)))
        for ns in namings(k, deep):
            assert len(set(ns)) == k, ns
            for r in (0, 1) if deep else (0,):
                ns = ns[::-1] if r else ns

                def fill(f):
                    return PROTO.replace("int G; int H; ", "") + re.sub(r"@(\d+)", lambda m: f(int(m.group(1))), t)
                out.append(("names", fill(lambda i: "plain%dz" % i), fill(lambda i: ns[i - 1]),
                            tuple(("plain%dz" % (i + 1), n) for i, n in enumerate(ns))))
    return out


# ------------------------------------------------------------------------- map
def maps(deep):
    """(size, keys): every key entered is found with its value, no other is"""
    rnd = random.Random(3)
    out = []
    for size in (1, 2, 3, 8, 512):
        for n in (1, 2, 5, 12, 40) if deep else (1, 4, 12):
            for kind in range(3):
                ks = []
                while len(ks) < n:
                    k = "x" * (len(ks) + 1) if kind == 0 and len(ks) < 30 else \
                        "".join(rnd.choice("ab") for _ in range(rnd.randint(1, 8))) if kind == 1 else \
                        "".join(chr(rnd.choice((95, 48, 97, 122, 90))) for _ in range(rnd.randint(1, 20)))
                    if k not in ks:
                        ks.append(k)
                out.append((size, tuple(ks)))
    return out


def mapped(size, keys):
    """entries of a table, read back after each insertion"""
    u = Source()
    for k in ("hashmap_create", "hashmap_put", "hashmap_get", "hashmap_contains"):
        if k not in u.tu.functions:
            raise AnalysisError("anchor %s not found" % k)
        u.ip.summaries.pop(k, None)
    bad = []

    def run():
        ip = u.ip
        m = ip.call("hashmap_create", [size])
        vals = {}
        for i, k in enumerate(keys):
            for j, q in enumerate(keys[:i + 1]):
                got = ptr(ip.call("hashmap_get", [m, ip.string(q)]))
                want = vals.get(q)
                same = bid(got) == bid(want) if isinstance(got, Ptr) and want is not None \
                    else not isinstance(got, Ptr) and want is None
                if not same:
                    bad.append("%r is %s among %d names in a table of %d" %
                               (q, "found" if want is None else "lost", i, size))
                has = ip.call("hashmap_contains", [m, ip.string(q)])
                if bool(P().simp(has) if not isinstance(has, Ptr) else 1) != (want is not None):
                    bad.append("hashmap_contains(%r) is wrong" % q)
            vals[k] = ip.new("func_t", "v%d" % i, "zero")
            ip.call("hashmap_put", [m, ip.string(k), vals[k]])
        return len(keys)
    explore_all = list(explore(run))
    if not explore_all:
        raise AnalysisError("the table operations have no path")
    return bad[:3]


# ------------------------------------------------------------------- narrowing
def narrowing():
    """(name, statements, the value an object as wide as an int would give back)"""
    out = []
    for ty in ("char", "_Bool"):
        out += [(ty + "/assigned", "%s c; c = a; return c;" % ty, "val_arg0"),
                (ty + "/initialised", "%s c = a; return c;" % ty, "val_arg0"),
                (ty + "/compound", "%s c = 0; c += a; return c;" % ty, "val_arg0")]
    return out


def namespaces():
    """tags, members, file-scope names and labels of one spelling: (name, text, reference)"""
    return [("tag-and-type", "struct T { char c; int d; }; typedef int T; int f(int a) { T v[2]; v[1] = a; return v[1]; }",
             "int f(int a) { int v[2]; v[1] = a; return v[1]; }"),
            ("type-and-tag", "typedef char T; struct T { char c; int d; }; int f(struct T *s) { return s->d; }",
             "struct S { char c; int d; }; int f(struct S *s) { return s->d; }"),
            ("tag-and-variable", "struct G { char c; int d; }; int f(struct G *s) { G = s->d; return G; }",
             "struct S { char c; int d; }; int f(struct S *s) { G = s->d; return G; }"),
            ("tag-and-local", "struct x { char c; int d; }; int f(struct x *s) { int x; x = s->d; s->d = x + 1; return x; }",
             "struct S { char c; int d; }; int f(struct S *s) { int x; x = s->d; s->d = x + 1; return x; }"),
            ("tag-and-function", "struct g { int c; int d; }; int f(struct g *s) { return g(s->d); }",
             "struct S { int c; int d; }; int f(struct S *s) { return g(s->d); }"),
            ("member-and-type", "typedef int ty; typedef struct { char c; int ty; } S; int f(S *s) { ty x; x = s->ty; s->ty = x + 2; return x; }",
             "typedef struct { char c; int d; } S; int f(S *s) { int x; x = s->d; s->d = x + 2; return x; }"),
            ("member-and-function", "typedef struct { char c; int g; } S; int f(S *s) { s->g = g(s->g); return s->g; }",
             "typedef struct { char c; int d; } S; int f(S *s) { s->d = g(s->d); return s->d; }"),
            ("parameter-and-type", "typedef int ty; int f(int ty, int b) { ty = b; return ty; }",
             "int f(int a, int b) { return b; }"),
            ("type-after-local", "typedef int tz; int f(int a) { int tz; tz = a; { tz++; } return tz; } ",
             "int f(int a) { int x; x = a; x++; return x; }")]


def batch(kind, items):
    out = []
    for it in items:
        if kind == "shape":
            bad, defs = shape(*it)
            out.append((6, "layout", [(m, defs) for m in bad]))
        elif kind == "map":
            out.append((len(it[1]), "map", [(m, "table of %d, names %s" % (it[0], " ".join(it[1])))
                                            for m in mapped(*it)]))
        elif kind == "namespace":
            r = compare(PROTO + it[2], PROTO + it[1])
            out.append((0 if r is None else 1, "namespace", [(it[0], it[1] + ": " + m) for m in r or []][:1]))
        elif kind == "narrowing":
            bad = [it[2]] if it[2] in narrowed(it[1]) else []
            out.append((1, "narrowing", [(it[0], it[1]) for _ in bad]))
        else:
            r = compare(it[1], it[2]) if len(it) == 3 else \
                compare(it[1], it[2], back={n: p for p, n in it[3]})
            out.append((0 if r is None else 1, it[0], [(m, it[2]) for m in r or []]))
    return out


def narrowed(text):
    """whether the value kept in the char variable can differ from the assigned one"""
    u = Source()
    got = []

    def run():
        if u.prepare(PROTO + "int f(int a) { %s }" % text):
            return None
        l = Named(u)
        l.find_cells("f")
        return [repr(tr[-1][1]) for d, tr, full in paths(u, l, "f", 3)]
    for _, r in explore(run):
        got += r or []
    return got


@check("P14", "other",
       "The real lexer and parser are interpreted on generated programs. Scopes: programs that "
       "declare the same names again in nested blocks, for-loops, parameters must mean what the "
       "program with one name per object means. Declarators with initialisers against separate "
       "declarations and assignments. Every way of defining a structure, alias or enumeration "
       "against the plain one; the offsets and sizes of members read off the addresses computed: "
       "in order, disjoint, inside the structure, which is the stride of its arrays.",
       ["random scope trees of depth three over two to five names; all pairs of 29 declarators; "
        "structures of one or two of 14 kinds of members, all orders, random ones of up to nine, "
        "nine ways of definition; eleven enumerations; functions of up to eight parameters"])
def p14(res):
    tu = load("arm")
    for f in ("read_global_statement", "read_inner_var_decl", "find_var", "find_type", "find_constant"):
        if f not in tu.functions:
            raise AnalysisError("anchor %s not found" % f)
    deep = res.tier == "thorough"
    eq = scopes(deep) + declarators(deep) + types(deep) + enums(deep) + functions(deep) + names(deep)
    eq = list(dict.fromkeys(eq))
    sh = [(f, tuple(s)) for i, s in enumerate(layouts(deep)) for f in range(9)
          if deep or len(s) == 1 or (f + i) % 9 in (0, 4)]
    bad, skipped = [], [0]

    def merge(r):
        for n, key, found in r:
            res.ob(n)
            res.count(key, max(n, 1))
            skipped[0] += n == 0
            for m, text in found:
                bad.append((key, text, m))
    n = 48
    collect(res, pmap(batch, [("eq", eq[i::n]) for i in range(n)] +
                      [("shape", sh[i::n]) for i in range(n)] +
                      [("map", maps(deep)[i::16]) for i in range(16)] +
                      [("namespace", namespaces()), ("narrowing", narrowing())]), merge)
    res.count("programs the parser does not take", skipped[0])
    if skipped[0] * 4 > len(eq):
        raise AnalysisError("the parser rejects most programs")
    bad.sort(key=lambda x: (len(x[1]), x[1]))
    for key, text, m in bad:
        if key == "narrowing":
            res.find("narrowing/" + m, "an object holds values of its type",
                     tu.functions["read_body_assignment"].where + " (read_body_assignment)",
                     "%s keeps values the type does not have" % text)
        if key == "namespace":
            res.find("namespace/" + m, "names of different kinds do not meet",
                     tu.functions["find_type"].where + " (find_type)", text[:300])
    for key, text, m in [x for x in bad if x[0] not in ("narrowing", "namespace")][:20]:
        b = text.replace(PROTO, "").replace(ENUM, "").replace(TYPE, "")
        fn = {"scope": "find_var", "enum": "find_constant", "map": "hashmap_get", "names": "find_var"}.get(key, "read_global_statement")
        res.find("%s/%s" % (key, re.sub(r"\s+", "_", b)[:160]), "declared names denote what C says",
                 "%s (%s)" % (tu.functions[fn].where, fn), "%s: %s" % (b[:400], m[:200]))

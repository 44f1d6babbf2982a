"""P10 SSA construction and optimisation, P11 register allocation and peephole:
the passes are interpreted on families of programs and the code before and
after each pass is compared on every path over symbolic inputs."""
import random

from cast import AnalysisError, load
from par import collect, pmap
from pipe import validate
from props import check

HEAD = ("typedef struct { int m; char n; int k[3]; int (*fn)(int a); } S; "
        "int g(int a); int h(int a, int b); void v(); void k(int *x); void kk(int **x); "
        "int G; int H; S gs; int ga[5]; char gc[9]; int *gp; "
        "int gh() { return G + H; } "
        "typedef int T; typedef T U; typedef enum { E1 = 3, E2, E3 = 8 } E; ")

STATEMENTS = [
    "c = a + b;", "c = c + 1;", "d = c * 2;", "G = c;", "c = G;", "G = G + a;", "p[0] = c;",
    "c = p[0];", "c = p[a] + p[a];", "p[a] = p[b];", "c = g(d);", "g(c);", "c = h(c, d) + d;",
    "x[a] = c;", "c = x[1] + a;", "c = a ? b : d;", "c = a && b;", "d = c++;", "c--;", "c = 3;",
    "d = c - d;", "if (c) d = 1;", "if (a) return c;", "c = -a;", "p = p + 1;",
    "{ int e; e = c; d = e + b; }", "v();", "H = g(G);", "c = 1 || d;", "k(&z);", "z = c;",
    "c = z + 2;", "z = 5;", "c = s[a];", "s[a] += 1;", "s[a] = *p;", "d = c * d - 0;",
    "c = 0; d = c + d;", "gs.m = c;", "d = gs.k[a];", "ga[b] = d;", "a = b + c * 4;",
    "c = h(1, d ? a : b);", "d = c + (a ? b : 2);", "p[b + 1] = c && d;", "h(a + 1, b || d);",
    "h(c ? 1 : 2, a + d);"]
# inner objects named like outer ones, and objects of named types
SHADOW = [
    "{ int c; c = b + 1; g(c); d = d + c; }", "{ int a; int d; a = c; d = a + b; G = d; c = d; }",
    "for (int i = 0; i < c; i++) d = d + i;", "{ int *p; p = gp; p[0] = c; }",
    "{ int x[3]; x[a] = c; x[1] = d; d = x[1] + x[a]; }", "{ int z; z = d; k(&z); c = c + z; }",
    "{ int G; G = c; d = G + H; H = G; }", "{ int c; c = 4; { int c; c = a; d = c; } d = d + c; }",
    "{ int b; b = 0; while (b < c) { int c; c = g(b); b = b + 1 + c; } d = b; }",
    "if (c) { int c; c = d; k(&c); d = c; } else { int c; c = 1; d = d - c; }",
    "for (int c = 0; c < a; c++) { int a; a = c * 2; h(a, c); }",
    "{ char c; c = s[a]; s[b] = c; }", "{ T t; t = c; U u; u = d; c = u - t; d = t * u; }",
    "{ E e; e = E2; if (e == c) e = E3; d = e + E1; }", "{ T *t; t = p; t[a] = c; d = t[b]; }",
    "{ U t[4]; t[1] = c; t[a] = d; c = t[1]; }", "{ S p; p.m = c; p.k[1] = d; d = p.k[a] + p.m; }",
    "{ int b = c; int c = b + 1; d = c - b; }", "{ int d = a; { int d = b; c = d; } c = c + d; }"]
CONSTRUCTS = {
    "if": "if (a > c) { %s }", "if-else": "if (b) { %s } else { d = d + 2; }",
    "bare-if": "if (a > c) %s", "bare-while": "while (c++ < b) %s",
    "bare-else": "if (b) d = c; else %s",
    "else": "if (b) { d = c; } else { %s }",
    "while": "while (c < b) { %s c = c + d; }", "do": "do { %s c++; } while (c < a);",
    "for": "for (i = 0; i < a; i++) { %s }",
    "for-break": "for (i = 0; i < a; i++) { if (g(i)) break; %s }",
    "for-continue": "for (i = 0; i < a; i++) { if (p[i]) continue; %s }",
    "switch": "switch (a) { case 1: %s break; case 2: d = 7; default: c = c + 1; }",
    "forever": "while (1) { %s if (g(c)) break; }"}


def common(body):
    return (HEAD + "int f(int a, int b, int *p, char *s) { int c; int d; int i; int z; int x[4]; "
            "c = a; d = b; i = 0; z = b; %s h(c, d); return a + i + z; }" % body)


def function(sig, body, protos=""):
    return protos + HEAD + "int f(%s) { %s }" % (sig, body)


AB = "int a, int b, int *p"
CP = "char *s, char *q, int b, int a"
SPECIAL = [
    # control without effect
    (AB, "int c; if (a) c = 1; return b;"),
    (AB, "int c; if (a) { c = 1; } else { c = 2; } g(b); return b;"),
    (AB, "int c; c = 0; while (c < a) c++; return b;"),
    (AB, "int c; for (c = 0; c < 3; c++) ; return a;"),
    (AB, "int c; c = a; if (c) { if (b) c = 2; } g(b); return 1;"),
    (AB, "int c; switch (a) { case 1: c = 1; break; case 2: g(1); } return b;"),
    (AB, "int c; if (a) { c = 1; if (b) return 2; } return 3;"),
    (AB, "int c; c = b; if (a) { c = c + 1; } else { if (b) g(c); } return c;"),
    (AB, "int c; c = 0; while (a) { if (b) { c = 1; } else { c = 2; } a = a - 1; } return a;"),
    # constants
    (AB, "int c; c = 3; int d; d = c + 2; if (a) c = 4; return c + d;"),
    (AB, "int c; c = 3; while (a > c) c = c + 1; return c;"),
    (AB, "int c; int d; c = 1; d = 0; do { d = d + c; c = 5; } while (d < a); return c + d;"),
    (AB, "int c; c = 0; if (a) c = 0; return c + b;"),
    (AB, "G = 5; v(); return G + 1;"), (AB, "int c; c = a; c = 3; return c - b;"),
    (AB, "int c; c = 7; c = c * c - c / 2 + c % 4; return c << 2;"),
    (AB, "int i; int s; s = 0; for (i = 0; i < 10; i++) s = s + p[i] * 0 + 1; return s;"),
    (AB, "return a * 1 + 0 * b + (a - 0) + (0 - b) + (0 + a);"),
    (AB, "return (a + 0) * b + a;"), (AB, "int z; z = 0; return (a + z) * (z + b) + z;"),
    (AB, "int z; z = 1; return a * z + z * b - z;"),
    (AB, "int z; z = 0; int w; w = a + z; g(z); return w + z;"),
    (AB, "int z; z = 1; int w; w = a * z; h(z, w); return w + z;"),
    (AB, "int z; z = 0; int w; w = z - a; p[z] = w; return z;"),
    (AB, "int z; z = 0; int w; w = z * a; G = z; return w - z;"),
    # aggregates and globals
    (AB, "S s; s.m = a; s.n = b; g(s.m); return s.m + s.n;"),
    (AB, "S s; s.k[a] = b; h(s.k[0], s.k[1]); return s.k[a];"),
    (AB, "S s; S t; s.m = a; t.m = b; v(); s.k[1] = t.m; return s.m + t.m;"),
    (AB, "gs.m = a; G = b; p[0] = 3; return G + gs.m;"),
    (AB, "ga[a] = b; return ga[0] + ga[a];"), (AB, "gc[a] = b; return gc[1];"),
    (AB, "G = a; p[1] = 2; b = G; v(); return G + b;"),
    (AB, "int x[3]; int y[4]; x[0] = a; y[1] = b; g(x[0]); return x[0] + y[1] + x[a] + y[b];"),
    (AB, "gp = p; gp[a] = b; p = gp; return p[0] + gp[b];"),
    (AB, "G = a; H = b; while (G < H) { G = G + 1; p[0] = G; } return G - H;"),
    (AB, "G = a; H = G + G; G = H + G; return G * H;"),
    # indirect calls
    ("int a, int b, S *s", "b = s->fn(a); return a + b;"),
    ("int a, int b, S *s", "b = s->fn(a) + a; return b;"),
    ("int a, int b, S *s", "s->fn(a); return a;"),
    ("int a, int b, S *s", "int c; c = a + 1; b = s->fn(c); return b + c * a;"),
    ("int a, int b, S *s", "int c; c = 0; while (c < a) { c = c + s->fn(b); s->m = c; } return c;"),
    # locals pointers refer to
    (AB, "int c; c = a; g(c); int *q; q = &c; q[0] = b; return c;"),
    (AB, "int c; c = 3; int *q; q = &c; q[0] = 9; return c + 2;"),
    (AB, "int c; int *q; q = &c; q[0] = a; return c;"), (AB, "int c; k(&c); return c;"),
    (AB, "int c; c = 4; k(&c); c = c + 1; k(&c); return c;"),
    (AB, "int c; c = 1; int *q; q = &c; while (a < b) { c = c + 1; q[0] = q[0] * 2; a = a + c; } "
         "return c;"),
    (AB, "int c; if (a) { c = 1; } else { c = 2; } k(&c); if (b) c = 3; k(&c); return c;"),
    (AB, "k(&a); return a + b;"), (AB, "a = a + 1; k(&a); a = a + 1; g(b); return a;"),
    (AB, "int i; for (i = 0; i < a; i++) k(&i); return i;"),
    (AB, "int c; int d; c = a; d = b; k(&c); k(&d); c = d; d = 4; k(&d); return c + d;"),
    (AB, "int *q; q = p; kk(&q); return q[0];"),
    (AB, "int c; c = a ? b : 3; k(&c); c = a && c; k(&c); return c++;"),
    (AB, "int c; { int e; e = a; k(&e); c = e; } { int e; e = b; k(&e); c = c + e; } return c;"),
    (AB, "S s; s.m = a; k(&s.m); S *z; z = &s; z->m = 4; return s.m;"),
    (AB, "int c; c = b; while (a) { k(&c); a = a - c; c = c + 1; } return c;"),
    # structures in nested blocks and under pressure
    (AB, "while (a < b) { S t; t.m = a; k(&t.m); a = a + t.m; } return a;"),
    (AB, "S t; int c; c = a + b; t.m = c; int d; d = c * b; int e; e = d * c; int f; f = e * d; int l; l = "
         "f * e; int m; m = l * f; int n; n = m * l; t.k[1] = n; return c + d + e + f + l + m + n + t.m;"),
    (AB, "S t; S u; t.m = a; u.m = b; g(t.m); { S t; t.m = 4; u.m = t.m; } return t.m + u.m;"),
    (AB, "while (a < b) { int t[3]; t[0] = a; { int t; t = p[a]; k(&t); a = a + t; } a = a + t[0]; } "
         "return a;"),
    (AB, "do { int c; c = 1; if (a == b) c = 2; a = a + c; } while (a < b); { int c; c = 3; if (b) c = "
         "4; g(c); } { int c; c = 5; while (c < a) c = c + b; g(c); } return a;"),
    # repeated reads
    (CP, "int c; c = s[a]; s[b] = 1; return c + s[a];"),
    (CP, "int c; c = s[a]; s[a] = *q; return c;"), (CP, "int c; c = s[a]; s[a] += 1; return c;"),
    (CP, "int c; c = s[a]; if (b) { q[0] = 1; } return c + s[a];"),
    (CP, "int c; c = s[a]; while (b) { c = c + s[a]; s[1] = c; b = b - 1; } return c;"),
    (CP, "int c; c = s[a]; while (b) { c = c + s[a]; a = a + 1; b = b - s[a]; } return c;"),
    (CP, "int c; c = s[a]; v(); return c + s[a];"),
    (CP, "int c; c = 0; while (s[c]) { q[c] = s[c]; c++; } return c;"),
    (CP, "int c; c = 0; while (s[c] && q[c]) { if (s[c] < q[c]) return s[c] - q[c]; c++; } "
         "return c;"),
    (CP, "int c; c = s[a] + s[a]; G = 1; return c - s[a];"),
    (CP, "s[a]++; s[a]--; return s[a];"),
    (CP, "int c; c = b ? s[a] : q[a]; return c + s[a] + q[a];"),
    (CP, "int c; if (b) { c = s[a]; } else { c = s[a] + 1; } return c + s[a];"),
    (CP, "int c; for (c = 0; c < b; c++) { if (s[c] == q[c]) s[c] = q[c] + s[c]; } return s[b];"),
]


def soup(n, seed):
    """nested random statements over the common variables"""
    rnd = random.Random(seed)

    def stmts(depth):
        out = ""
        for _ in range(rnd.randint(1, 3)):
            if depth and rnd.random() < 0.5:
                out += CONSTRUCTS[rnd.choice(sorted(CONSTRUCTS))] % stmts(depth - 1) + " "
            else:
                out += rnd.choice(STATEMENTS if rnd.random() < .7 else SHADOW) + " "
        return out
    return [common(stmts(3)) for _ in range(n)]


BINARY = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=",
          "&&", "||"]
VALUES = [0, 1, -1, 2, 3, -7, 8, 31, 255, 65536, 2147483647, -2147483647]


def defined(op, x, y):
    """C defines x op y for 32-bit int"""
    if op in "/%":
        return y != 0
    if op in ("<<", ">>"):
        return 0 <= y < 32 and (op == ">>" or (x >= 0 and x << y < 1 << 31))
    if op in "+-*":
        return abs({"+": x + y, "-": x - y, "*": x * y}[op]) < 1 << 31
    return True


def lit(v):
    return str(v) if v >= 0 else "(0 - %d)" % -v


def constants(back):
    """every operator with known operands: both (folding), the first, the second, the same"""
    out = []
    for op in BINARY:
        for x in VALUES:
            ys = [] if back else [y for y in VALUES if defined(op, x, y)]
            for form in ("h(l %s %s, %s %s l); ", "r = %s; c = l %s r; h(c, r); "):
                for k in range(0, len(ys), 4):
                    b = "".join(form % (op, lit(y), lit(y), op) if form[0] == "h" and
                                defined(op, y, x) else form % (lit(y), op) if form[0] == "r" else
                                "g(l %s %s); " % (op, lit(y)) for y in ys[k:k + 4])
                    out.append(function(AB, "int l; int r; int c; l = %s; %sreturn l;" % (
                        lit(x), b)))
            ok = op not in ("<<", ">>") or 0 <= x < 32
            forms = ["return %s %s a;" % (lit(x), op), "int l; l = %s; G = l %s b; return a %s l;"
                     % (lit(x), op, op if ok else "+"),
                     "int c; c = h(%s %s a, b); return c;" % (lit(x), op)]
            if ok and not (op in "/%" and x == 0):
                forms += ["return a %s %s;" % (op, lit(x)),
                          "int c; c = a %s %s; p[c] = c; return g(c);" % (op, lit(x))]
            out += [function(AB, f) for f in forms if not (
                op in "/%" and x == 0 and "a %s l" % op in f)]
        out += [function(AB, f % ((op,) * f.count("%"))) for f in (
            "return a %s a;", "int c; c = b; return b %s c;",
            "a = a %s b; b = a %s b; return a %s b;")]
    for op in ("-", "!", "~"):
        out += [function(AB, "int l; l = %s; G = %sl; return %s(%s);" % (lit(x), op, op, lit(x)))
                for x in VALUES]
    return out


def front_family(deep):
    out = [function(s, b) for s, b in SPECIAL]
    out += constants(False)
    out += [common(a + " " + b) for a in STATEMENTS for b in STATEMENTS]
    out += [common(CONSTRUCTS[c] % a) for c in sorted(CONSTRUCTS) for a in STATEMENTS]
    out += [common(a + " " + b) for i, a in enumerate(SHADOW) for j, b in enumerate(SHADOW)
            if deep or (i + j) % 2 == 0]
    out += [common(x) for i, a in enumerate(SHADOW) for j, b in enumerate(STATEMENTS)
            if deep or (i + j) % 3 == 0 for x in (a + " " + b, b + " " + a)]
    out += [common(CONSTRUCTS[c] % a) for c in sorted(CONSTRUCTS) for a in SHADOW]
    if deep:
        out += [common(CONSTRUCTS[c] % (CONSTRUCTS[d] % a)) for c in sorted(CONSTRUCTS)
                for d in sorted(CONSTRUCTS) for a in STATEMENTS + SHADOW]
        out += soup(600, 11)
    else:
        out += [common(CONSTRUCTS[c] % (CONSTRUCTS[d] % a)) for i, c in enumerate(sorted(CONSTRUCTS))
                for j, d in enumerate(sorted(CONSTRUCTS))
                for n, a in enumerate(STATEMENTS) if (n + 3 * i + 5 * j) % 7 == 0]
        out += soup(40, 7)
    return out


OPS = ["+", "-", "*", "/", "&", "|", "<<", "==", "<", ">="]


def pressure(ns, kinds, deep):
    out = []
    V = ["v%d" % i for i in range(16)]

    def init(n, kind):
        r = ""
        for i in range(n):
            x = {"param": "a + %s" % ("b" if i == 0 else V[i - 1]), "call": "g(a)",
                 "mem": "p[%d]" % i}.get(kind) or \
                ["a + %s" % ("b" if i == 0 else V[i - 1]), "g(b)", "p[%d]" % i, "G"][i % 4]
            r += "int %s; %s = %s; " % (V[i], V[i], x)
        return r
    for n in ns:
        s = " + ".join(V[:n])
        for kind in kinds:
            b = init(n, kind)
            rot = "".join("v%d = v%d; " % (i, (i + 1) % n) for i in range(n))
            # pending temporaries over values that live on: right-nested pairs
            nests = []
            for st in (1, 3, n - 2):
                q = [V[(st * i + st // 2) % n] for i in range(2 * ((n + 1) // 2) + 2)]
                e = "(%s - %s)" % (q[-2], q[-1])
                for i in range(len(q) - 4, -1, -2):
                    e = "((%s - %s) - %s)" % (q[i], q[i + 1], e)
                nests.append(e)
            mix = "".join("v%d = v%d - v%d; " % (i, (i + 1) % n, (i + 2) % n) for i in range(n))
            for body in ("return %s;" % s,
                         "return " + "*(".join(V[:n - 1]) + "-" + V[n - 1] + ")" * (n - 2) + ";",
                         "while (a < b) { a = a + 1; %s } return %s;" % (rot, s),
                         "if (a < b) { %s } return %s;" % (mix, s),
                         "while (a < b) { a = a + %s; G = %s; } return %s;" % (
                             nests[0], nests[1], s),
                         "while (a < b) { %s a = a - %s; } return %s;" % (rot, nests[2], s),
                         "if (a) { p[v1] = %s; v2 = %s; } return %s;" % (nests[2], nests[0], s),
                         "%s return %s;" % (mix, s),
                         "p[v0] = v%d; p[v%d] = p[v1]; return %s;" % (n - 1, n - 1, s),
                         "G = h(v0, v%d) + v1; return %s;" % (n - 1, s),
                         "return v%d - v%d + (%s);" % (n - 1, n - 2, s),
                         "int z; z = v1; k(&z); z = z + v2; k(&z); return z + %s;" % s):
                out.append(function(AB, b + body))
    rnd = random.Random(5)

    def ex(d):
        if d == 0 or rnd.random() < .15:
            return rnd.choice(["a", "b", "v0", "v1", "v2", "v3", "G", "p[a]", "p[2]", "7", "g(a)"])
        return "(%s %s %s)" % (ex(d - 1), rnd.choice(OPS), ex(d - 1))
    for i in range(150 if deep else 40):
        out.append(function(AB, init(4, "mix") + "v0 = %s; return %s;" % (ex(3), ex(4))))
    return out


def calls(deep):
    out = []
    V = ["v%d" % i for i in range(10)]
    for n in range(1, 9):
        pr = "int k%d(%s); " % (n, ", ".join("int x%d" % i for i in range(n)))
        kinds = [["a"] * n, V[:n], V[:n][::-1], ["%s + 1" % x for x in V[:n]],
                 ["g(%s)" % x for x in V[:n]], ["p[%s]" % x for x in V[:n]],
                 ["%d" % i for i in range(n)],
                 [["a", "v1", "3", "p[b]", "G"][i % 5] for i in range(n)]]
        for q, args in enumerate(kinds):
            for m in (8, 10):
                for t in ("v3 = ", ""):
                    if not deep and (n + q + m // 2 + len(t)) % 2:
                        continue
                    b = "".join("int v%d; v%d = a + %s; " % (
                        i, i, "b" if i == 0 else V[i - 1]) for i in range(m))
                    out.append(function(AB, b + "%sk%d(%s); return %s;" % (
                        t, n, ", ".join(args), " + ".join(V[:m])), pr))
    for n in range(2, 9):
        sig = ", ".join("int q%d" % i for i in range(n))
        s = " + ".join("q%d" % i for i in range(n))
        for b in ("return %s;" % s, "int t; t = g(q0); return t + %s;" % s,
                  "int i; for (i = 0; i < q0; i++) { q1 = q0; q0 = q%d + i; } return %s;"
                  % (n - 1, s),
                  "while (g(q0)) { q0 = q1 * q%d; } return %s;" % (n - 1, s),
                  "k(&q0); k(&q%d); q0 = q0 + 1; return %s;" % (n - 1, s)):
            out.append(function(sig, b))
    return out


def back_family(deep):
    if deep:
        out = pressure(range(5, 15), ("param", "call", "mem", "mix"), True)
    else:
        out = pressure((7, 8, 9, 11), ("param", "mix"), False)
    out += calls(deep)
    out += [function(s, b) for s, b in SPECIAL]
    out += constants(True)
    sel = STATEMENTS if deep else STATEMENTS[::3]
    out += [common(a + " " + b) for a in sel for b in STATEMENTS]
    out += [common(CONSTRUCTS[c] % a) for c in sorted(CONSTRUCTS) for a in sel + SHADOW]
    out += [common(a + " " + b) for i, a in enumerate(SHADOW) for j, b in enumerate(SHADOW)
            if deep or (i + j) % 3 == 0]
    out += soup(500 if deep else 30, 3)
    return out


def batch(texts, back):
    return [(t,) + validate(t, back=back) for t in texts]


STAGE_FN = {"ssa_build": "ssa_build", "optimize": "optimize", "liveness_analysis":
            "liveness_analysis", "reg_alloc": "reg_alloc", "peephole": "peephole"}


def run_family(res, texts, stages, back, rule):
    tu = load("arm")
    for s in stages:
        if s not in tu.functions:
            raise AnalysisError("anchor %s not found" % s)
    seen, bad = set(), []
    texts = [t for t in texts if not (t in seen or seen.add(t))]
    rejected = []

    def merge(r):
        for t, parsed, found in r:
            res.ob()
            if not parsed:
                rejected.append(t)
            for st, m in found:
                if st in stages:
                    bad.append((st, t, m))
    n = max(8, min(256, len(texts) // 6))
    collect(res, pmap(batch, [(texts[i::n], back) for i in range(n)]), merge)
    res.count("programs", len(texts))
    res.count("programs not parsed", len(rejected))
    if len(rejected) * 5 > len(texts):
        raise AnalysisError("the parser rejects most programs, e.g. %s" % rejected[0][-200:])
    bad.sort(key=lambda x: (len(x[1]), x[1]))
    for st, t, m in bad[:20]:
        body = t[t.index("int f("):]
        key = "%s/%s" % (st, body[:160])
        res.find(key, rule, "%s (%s)" % (tu.functions[st].where, st),
                 "%s: %s" % (body[:300], m[:300]))


@check("P10", "other",
       "ssa_build and optimize are interpreted on generated functions after the real parser; the "
       "code before and after each of them is read over symbolic inputs, along every path of up to "
       "six unknown decisions. Calls with their arguments, stores, assignments of globals, the "
       "memory visible at them and the returned value must agree, in order.",
       ["families of functions: all pairs of 47 statements, 19 nested blocks whose objects are named "
        "like outer ones with each other and with these, all of them in 13 constructs and "
        "in pairs of constructs, hand-picked shapes per optimisation; thorough adds all nestings "
        "and random nesting of depth three"])
def p10(res):
    run_family(res, front_family(res.tier == "thorough"), ("ssa_build", "optimize"), False,
               "SSA form and optimisations keep the meaning of the code")


@check("P11", "other",
       "liveness analysis, register allocation and peephole are interpreted after the real parser "
       "and optimiser; the allocated code (registers, frame slots, global area, calls clobbering "
       "every register) is read over symbolic inputs and compared with the optimised code on every "
       "path; the objects of a frame must not overlap and slots must lie inside the frame.",
       ["families of functions under register pressure (5 to 14 live values), calls with up to "
        "eight arguments of every kind, statements and constructs as for P10"])
def p11(res):
    run_family(res, back_family(res.tier == "thorough"),
               ("liveness_analysis", "reg_alloc", "peephole"), True,
               "allocated code computes what the optimised code computes")

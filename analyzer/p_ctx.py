"""P07, second half: expressions in the places an expression stands. Programs are
parsed (interpreted) and compared with the same program spelled out."""
from p_decl import PROTO, compare

PRE = PROTO + ("typedef struct { char c; int m; int v[3]; char w[4]; } S; int A[4]; char Z[4]; S B; "
               "int *Q; ")
PAR = "int a, int b, int *p, char *s, S *q"
LOC = "int x = a + 1; int y = 2; int v[4]; "


def cond(tree, use):
    """statements that do use(value of the conditional expression)"""
    if isinstance(tree, str):
        return use(tree)
    c, t, e = tree
    if not isinstance(c, str):
        return cond(c, lambda z: "if (%s) { %s } else { %s }" % (z, cond(t, use), cond(e, use)))
    return "if (%s) { %s } else { %s }" % (c, cond(t, use), cond(e, use))


def spell(tree, top=True):
    if isinstance(tree, str):
        return tree
    c, t, e = tree
    r = "%s ? %s : %s" % (c if isinstance(c, str) else "(%s)" % spell(c),
                          spell(t), spell(e))
    return r


CONDS = [("a", "b", "3"), ("a > b", "g(1)", "g(2)"), ("a", ("b", "1", "2"), "3"),
         ("a", "1", ("b", "2", "3")), ("a && b", "v[0]", "G"), ("a || x", "-b", "!b"),
         (("a", "b", "1"), "2", "3"), ("!a", "x + 1", "b * 2"), ("g(a)", "p[1]", "q->m"),
         ("a", ("b", "g(1)", ("x", "g(2)", "y")), ("y", "g(3)", "x")),
         ("a == 1", "10", ("a == 2", "20", ("a == 3", "30", "40"))), ("a", "a && b", "a || b"),
         ("a & b", "a == b", "~a"), ("a", "(b)", "(x + y)"), ("p[a]", "*p", "B.m"),
         ("a", "'c'", "A[b]")]
USES = ["x = %s;", "x += %s;", "x -= %s;", "x *= %s;", "x |= %s;", "x <<= %s;", "v[%s] = b;", "v[2] = %s;",
        "p[0] = %s;", "q->m = %s;", "B.m = %s;", "q->v[%s] = 4;", "G = %s;", "G += %s;", "A[1] += %s;",
        "q->v[1] += %s;", "x = v[%s];", "x = A[%s] + y;", "g(%s);", "h(y, %s);", "h(%s, y);",
        "int z = %s; g(z);", "int z = y, t = %s; h(z, t);", "int z = %s, t = x; h(z, t);",
        "if (%s) g(7); else g(8);", "if (%s) g(7);", "switch (%s) { case 1: g(7); break; case 2: g(8); "
        "default: g(9); }", "return %s;", "x = b * (%s);", "x = (%s) - b;", "x = !(%s);", "x = -(%s);",
        "x = b && (%s);", "x = (%s) || b;", "k(&v[%s]);", "x = q->v[%s];", "s[%s] = 'q';",
        "for (int i = %s; i < 2; i++) g(i);", "x = h(1, h(2, %s));"]
# in these other operands are read or decided on first, which matters to calls
PURE = ("G += %s;", "A[1] += %s;", "q->v[1] += %s;", "x = b && (%s);", "x = (%s) || b;",
        "x = h(1, h(2, %s));")

OPS = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]
OBJECTS = ["x", "G", "v[2]", "v[a]", "p[0]", "p[a]", "q->m", "q->v[1]", "q->v[b]", "B.m", "B.v[a]",
           "A[b]", "q->c", "s[a]", "s[0]", "Z[1]", "q->w[2]", "B.c"]
VALUES = ["b", "b + 2", "g(b)", "b * y", "a < b", "-b", "v[1]", "(a + b) * 2", "!b", "b & 7", "a && b"]
# statement, spelled out
STEPS = [("v[x++] = b;", "v[x] = b; x = x + 1;"), ("v[x] = b++; g(b);", "v[x] = b; b = b + 1; g(b);"),
         ("x = a++ * 2; g(a);", "x = a * 2; a = a + 1; g(a);"), ("x = a++ + b++; h(a, b);", "x = a + b; a = a + 1; b = b + 1; h(a, b);"),
         ("x = a-- - b; g(a);", "x = a - b; a = a - 1; g(a);"),
                  ("x++; x++; g(x);", "x = x + 2; g(x);"), ("++x; --y; h(x, y);", "x = x + 1; y = y - 1; h(x, y);"),
         ("q->m++; g(q->m);", "q->m = q->m + 1; g(q->m);"), ("q->v[1]--; g(q->v[1]);", "q->v[1] = q->v[1] - 1; g(q->v[1]);"),
         ("A[a]++; B.v[b]++;", "A[a] = A[a] + 1; B.v[b] = B.v[b] + 1;"), ("G++; G--; --G;", "G = G + 1; G = G - 1; G = G - 1;"),
         ("if (a++ < 3) g(a); else h(a, 1);", "if (a < 3) { a = a + 1; g(a); } else { a = a + 1; h(a, 1); }"),
         ("x = -a; x = -(-x); x = !x; x = ~x;", "x = 0 - a; x = !x; x = ~x;"),
         ("x = !!a; y = -(-b);", "x = !a; x = !x; y = b;"), ("x = (((a))); y = ((a) + (b));", "x = a; y = a + b;"),
         ("x = sizeof(int) + sizeof(S) - sizeof(S) + sizeof(char *);", "x = 8;"),
         ("x = 'a' + '\\n' + '\\0' + '\\\\';", "x = 97 + 10 + 92;"), ("x = 0x1F + 017 + 0xaBc;", "x = 31 + 15 + 2748;"),
         ("x = -1 + -2147483647;", "x = 0 - 1 - 2147483647;"), ("g(*p); g(*(p + 1));", "g(p[0]); g(p[1]);"),
         ("k(&x); k(p); k(&p[1]); k(&v[2]); k(v);", "k(&x); k(p); k(p + 1); k(v + 2); k(&v[0]);"),
         ("Q = p; Q[1] = a; Q++; Q[0] = b;", "Q = p; Q[1] = a; Q = Q + 1; Q[0] = b;")]


def programs(deep):
    out = []

    def prog(body):
        end = "" if "return" in body else " return x + y + a + b + v[1];"
        return PRE + "int f(%s) { %s%s%s }" % (PAR, LOC, body, end)
    for i, c in enumerate(CONDS):
        for j, u in enumerate(USES):
            if u in PURE and "g(" in spell(c):
                continue
            if u.startswith("int z"):
                want = cond(c, lambda z: u % z)
                want = want if "t = x" not in u else want
            elif u in ("x = h(1, h(2, %s));",):
                want = "int t; " + cond(c, lambda z: "t = %s;" % z) + " x = h(1, h(2, t));"
            else:
                want = "int t; " + cond(c, lambda z: "t = %s;" % z) + " " + u % "t"
            if deep or (i + j) % 2 == 0 or i < 4:
                out.append(("conditional", prog(want), prog(u % spell(c))))
    for i, o in enumerate(OBJECTS):
        for j, op in enumerate(OPS):
            for k, v in enumerate(VALUES):
                if "g(" in v and o != "x":
                    continue
                if not deep and (i + j * 3 + k * 5) % 4:
                    continue
                out.append(("compound", prog("int t = %s; %s = %s %s t;" % (v, o, o, op)),
                            prog("%s %s= %s;" % (o, op, v))))
    for a, b in STEPS:
        if b:
            out.append(("step", prog(b), prog(a)))
    return out


def batch(items):
    out = []
    for key, want, text in items:
        r = compare(want, text)
        out.append((key, 0 if r is None else 1, text.replace(PRE, ""), r or []))
    return out

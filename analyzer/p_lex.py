"""P12: tokens. The lexer is interpreted on unknown characters."""
from absint import Arr, Interp, PathEnd, Ptr
from cast import AnalysisError, load
from dom import P, Lin, eq, explore, le, ne, var
from front import enumval
from par import collect, pmap
from props import check
from unit import PUNCT, WORDS

DIRECTIVES = ("include", "define", "undef", "error", "if", "elif", "else", "endif", "ifdef",
              "ifndef")
ESC = {"n": 10, "r": 13, "t": 9, "\\": 92, "'": 39, '"': 34, "0": 0}


def is_(c, ch):
    return P().truth(eq(c, ord(ch) if isinstance(ch, str) else ch))


def isin(c, chars):
    return any(is_(c, ch) for ch in chars)


def rng(c, a, b):
    return P().truth(le(ord(a), c)) and P().truth(le(c, ord(b)))


def digit(c):
    return rng(c, "0", "9")


def alnum(c):
    return rng(c, "a", "z") or rng(c, "A", "Z") or digit(c) or is_(c, "_")


def hexdigit(c):
    return digit(c) or rng(c, "a", "f") or rng(c, "A", "F")


# ------------------------------------------------------------- what C says

def reference(t, i, lines):
    """the token at t[i] (not white space): (kind, text or None, end), an error
    ("error",), or ("any",) where no valid program goes on"""
    while True:
        c = t[i]
        if is_(c, "/") and is_(t[i + 1], "*"):
            i += 2
            while not (is_(t[i], "*") and is_(t[i + 1], "/")):
                if is_(t[i], 0):
                    return ("error",)
                i += 1
            i = white(t, i + 2, lines)
            continue
        if is_(c, "/") and is_(t[i + 1], "/"):
            while not isin(t[i], "\r\n") and not is_(t[i], 0):
                i += 1
            if not is_(t[i], 0) and not lines:
                return ("any",)
            i = white(t, i, lines)
            continue
        break
    if is_(c, 0):
        return ("T_eof", None, i)
    if isin(c, "\r\n"):
        return ("any",)             # the end of a macro body (see P13)
    if alnum(c):
        j = i
        while alnum(t[j]):
            j += 1
        text = t[i:j]
        if digit(c):
            k = text
            if is_(k[0], "0") and len(k) > 1 and is_(k[1], "x"):
                ok = len(k) > 2 and all(hexdigit(x) for x in k[2:])
            else:
                ok = all(digit(x) for x in k)
            if not ok or is_(t[j], "."):
                return ("number",)
            return ("T_numeric", text, j)
        for w in WORDS:
            if len(w) == len(text) and all(is_(a, b) for a, b in zip(text, w)):
                return ("T_" + w, None, j)
        return ("T_identifier", text, j)
    if is_(c, '"') or is_(c, "'"):
        q = '"' if is_(c, '"') else "'"
        out, j = [], i + 1
        while not is_(t[j], q):
            if is_(t[j], 0):
                return ("error",) if q == '"' else ("any",)
            if isin(t[j], "\r\n"):
                return ("any",)
            if is_(t[j], "\\"):
                j += 1
                for e, v in ESC.items():
                    if is_(t[j], e):
                        out.append(v)
                        break
                else:
                    return ("any",)
            else:
                out.append(t[j])
            j += 1
        if q == "'":
            if len(out) != 1:
                return ("any",)
            return ("T_char", out, j + 1)
        return ("T_string", out, j + 1)
    if is_(c, "#"):
        j = i + 1
        while alnum(t[j]):
            j += 1
        for d in DIRECTIVES:
            if len(d) == j - i - 1 and all(is_(a, b) for a, b in zip(t[i + 1:j], d)):
                return ("T_cppd_" + d, None, j)
        return ("error",)
    best = None
    for p in sorted(PUNCT, key=lambda p: -len(p)):
        if all(is_(a, b) for a, b in zip(t[i:i + len(p)], p)):
            best = p
            break
    if best == "." and is_(t[i + 1], "."):
        return ("any",)
    if best:
        return ("T_" + PUNCT[best], None, i + len(best))
    return ("error",)


def white(t, i, lines):
    while True:
        if is_(t[i], "\\") and is_(t[i + 1], "\n"):
            i += 2
        elif isin(t[i], " \t") or lines and isin(t[i], "\r\n"):
            i += 1
        else:
            return i


# --------------------------------------------------------------- the lexer

def _strcmp(ip, args, node):
    a, b = args
    for i in range(300):
        x, y = (p.obj.get(p.key + i) for p in (a, b))
        if P().truth(ne(x, y)):
            return 1
        if P().truth(eq(x, 0)):
            return 0
    raise AnalysisError("strcmp without end")


def _strncmp(ip, args, node):
    a, b, n = args
    for i in range(n):
        x, y = (p.obj.get(p.key + i) for p in (a, b))
        if P().truth(ne(x, y)):
            return 1
        if P().truth(eq(x, 0)):
            return 0
    return 0


def _strlen(ip, args, node):
    for i in range(300):
        if P().truth(eq(args[0].obj.get(args[0].key + i), 0)):
            return i
    raise AnalysisError("strlen without end")


def _strcpy(ip, args, node):
    d, s = args
    for i in range(300):
        c = s.obj.get(s.key + i)
        d.obj.set(d.key + i, c)
        if P().truth(eq(c, 0)):
            return d
    raise AnalysisError("strcpy without end")


class Lexer:
    def __init__(self):
        self.tu = load("arm")
        for f in ("lex_token", "lex_token_internal", "lex_expect", "lex_accept", "lex_ident",
                  "lex_peek"):
            if f not in self.tu.functions:
                raise AnalysisError("anchor %s not found" % f)
        self.ip = Interp(self.tu, {"strcmp": _strcmp, "strncmp": _strncmp, "strcpy": _strcpy, "strlen": _strlen,
                                   "find_alias": lambda ip, a, n: 0})
        self.kname = {v: k for k, v in self.tu.enum.items() if k.startswith("T_")}

    def text(self, pat):
        """pattern: a str is literal, an int is so many unknown characters, "?"
        kinds restrict one"""
        out = []
        for x in pat:
            if isinstance(x, str):
                out += [ord(c) for c in x]
            elif isinstance(x, int):
                out += [var("c%d" % (len(out) + i), -128, 127) for i in range(x)]
            else:                              # ("range", a, b)
                out.append(var("c%d" % len(out), ord(x[0]), ord(x[1])))
        return out + [0] * 6

    def start(self, t, lines=True):
        ip = self.ip
        ip.reset()
        a = Arr(("int", 8, True), None, "text", "zero", ip)
        a.slots = dict(enumerate(t))
        p = ip.new("source_t", "src", "zero")
        ip.obj(p).set("elements", Ptr(a, 0))
        ip.obj(p).set("size", 0)
        self.src = ip.obj(p)
        ip.gset("SOURCE", p)
        ip.gset("next_char", t[0])
        ip.gset("skip_newline", int(lines))

    def once(self, pat, lines, aliasing=0):
        t = self.text(pat)
        self.start(t, lines)
        ip = self.ip
        # the lexer stands behind white space
        if isin(t[0], " \t") or lines and isin(t[0], "\r\n") or \
                is_(t[0], "\\") and is_(t[1], "\n"):
            return None
        want = reference(t, 0, lines)
        if want[0] == "any":
            return None
        try:
            kind = ip.call("lex_token_internal", [aliasing])
        except PathEnd as e:
            if want[0] == "number":
                return ()
            got = ("error",)
            if want != got:
                return t, want, "is rejected (%s)" % (e.msg or e.how)
            return ()
        kind = self.kname.get(P().simp(kind), kind)
        if want[0] == "number":
            # a shorter number may be taken: the parser stops at what follows
            buf, got = ip.gget("token_str"), []
            while len(got) < 40:
                g = P().simp(buf.get(len(got)))
                if is_(g, 0):
                    break
                got.append(g)
            hx = len(got) > 2 and is_(got[0], "0") and is_(got[1], "x")
            if kind != "T_numeric" or not all(
                    hexdigit(x) if hx else digit(x) for x in (got[2:] if hx else got)):
                return t, want, "is read as a %s" % kind
            return ()
        if want == ("error",):
            return t, want, "is read as %s" % kind
        if kind != want[0]:
            return t, want, "is read as %s" % kind
        if want[1] is not None:
            buf = ip.gget("token_str")
            got = []
            for i, w in enumerate(want[1] + [0]):
                g = P().simp(buf.get(i))
                got.append(g)
                if not isinstance(g, (int, Lin)) or P().truth(ne(g, w)):
                    return t, want, "has the text %s" % show(got)
                if is_(w, 0):
                    break
        pos = P().simp(self.src.get("size"))
        end = white(t, want[2], lines)
        if not isinstance(pos, int) or pos != end:
            return t, want, "ends at character %s instead of %s" % (pos, end)
        if P().truth(ne(ip.gget("next_char"), t[end])):
            return t, want, "leaves another character as the next one"
        return ()


def show(t):
    out = ""
    for c in t:
        c = P().simp(c)
        if isinstance(c, int):
            out += chr(c) if 32 <= c < 127 else "\\%d" % c
        else:
            lo, hi = P().range(c)
            while lo < hi and lo in P().excluded(c):
                lo += 1
            out += chr(lo) if 32 <= lo < 127 else "\\%d" % lo
    while out.endswith("\\0"):
        out = out[:-2]
    return out


def families(deep):
    k = 1 if deep else 0
    out = []
    for c in range(-128, 128):
        if chr(c & 255).isascii() and (chr(c).isalnum() or c in (34, 35, 39, 95)) and c > 0:
            continue
        if c < 0 and c not in (-128, -64, -1):
            continue
        for lines in (True, False):
            out.append(((chr(c) if c >= 0 else ("neg", c), 2 + k), lines))
    out += [(("/*", 3 + k, "*/ ;z"), True), (("/*", 3 + k), True), (("//", 3, "\nz"), True),
            (("//", 2, "\r\n  ;"), True), (("/**", 2, "**/;z"), True)]
    for n in range(0, 4 + k):
        out.append((('"', n, '";z'), True))
        out.append((('"', n, '"', 1, "z"), True))
    for n in range(0, 4 + k):
        out.append((('"', n), True))
    out += [(('"\\', 1, '\\', 1, '";'), True), (('"a\\\\', 1, '\\\\";'), True)]
    for n in (1, 2, 3):
        out.append((("'", n, "';z"), True))
    out.append((("'", 1, "'", 2, "z"), True))
    for n in range(0, 3):
        out.append(((("0", "9"), n, ";z"), True))
    for r in (("0", "9"), ("a", "f"), ("A", "F")):
        out.append((("0x", r, 2, ";"), True))
        out.append((("0x7", r, r, 1, "z"), True))
    out += [(("12", ("0", "9"), ("0", "9"), 1, "z"), True)]
    for r in (("a", "z"), ("A", "Z"), ("_", "_")):
        for n in range(0, 2 + k):
            out.append(((r, n, ";z"), True))
    for w in WORDS:
        out.append(((w, 1, ";z"), True))
        out.append(((w[:-1], 1, ";z"), True))
        out.append(((w[:-1], ";z"), True))
        out.append(((w, ("0", "9"), ("a", "z"), 1, "z"), True))
        out.append(((1, w[1:], ";"), True))
    for d in DIRECTIVES:
        out.append((("#" + d, 1, ";z"), True))
        out.append((("#" + d[:-1], 1, ";z"), True))
        out.append((("#" + d + "x ",), True))
    return out


def run_case(pat, lines):
    lx = Lexer()
    if isinstance(pat[0], tuple) and pat[0][0] == "neg":
        code = pat[0][1]
        pat = pat[1:]

        def text(p, base=lx.text):
            return [code] + base(p)
        lx.text = text
    n, bad, skipped = 0, {}, 0

    def run():
        return lx.once(pat, lines), None
    for _, (r, _) in explore(run, 200000):
        if r is None:
            skipped += 1
            continue
        n += 1
        if r:
            t, want, msg = r
            key = "%s/%s" % (want[0], msg.split(" (")[0])
            if key not in bad:
                w = "an error" if want == ("error",) else "no number" if want == ("number",) else want[0] + (
                    " '%s'" % show(want[1]) if want[1] is not None else "")
                bad[key] = "`%s` is %s but %s" % (show(t), w, msg)
    return n, skipped, bad


def stream_case(_):
    """accept, peek, expect and ident take a token exactly when it matches"""
    lx = Lexer()
    ip = lx.ip
    out, n = [], 0
    A, B = enumval(lx.tu, "T_identifier"), enumval(lx.tu, "T_semicolon")
    for fn, args in (("lex_accept", 1), ("lex_peek", 2), ("lex_expect", 1), ("lex_ident", 2)):
        for want in (A, B):
            def run():
                lx.start(lx.text(("ab;cd",)))
                ip.gset("next_token", ip.call("lex_token", []))
                buf = Ptr(Arr(("int", 8, True), None, "buf", "undef", ip), 0)
                try:
                    r = ip.call(fn, [want, buf][:args])
                except PathEnd:
                    r = "error"
                return r, ip.gget("next_token"), ip.cstr(buf)
            for _, (r, nxt, s) in explore(run):
                n += 1
                hit = want == A
                moved = hit and fn != "lex_peek"
                exp = {"lex_accept": int(hit), "lex_peek": int(hit)}.get(
                    fn, None if hit else "error")
                if exp is not None and r != exp or exp is None and r == "error":
                    out.append((fn, "%s gives %s on %s token" % (
                        fn, r, "a matching" if hit else "another")))
                elif nxt != (B if moved else A) and r != "error":
                    out.append((fn, "%s %s the token" % (fn, "keeps" if moved else "drops")))
                elif hit and args == 2 and s != "ab":
                    out.append((fn, "%s copies %r instead of the token's text" % (fn, s)))
    return n, out


@check("P12", "other",
       "lex_token_internal is interpreted on buffers of unknown characters; on every path the "
       "token kind, its text and the position after it are compared with a C tokeniser (maximal "
       "munch, comments, escapes, keywords) run on the same unknown characters.",
       ["operators: one given first character and two unknown ones (three in the thorough tier); "
        "comments, strings, characters, numbers, identifiers, keywords and directives with up to "
        "three (four) unknown characters"])
def p12(res):
    tu = load("arm")
    if "lex_token_internal" not in tu.functions:
        raise AnalysisError("anchor lex_token_internal not found")
    where = "%s (lex_token_internal)" % tu.functions["lex_token_internal"].where
    fam = families(res.tier == "thorough")

    seen = set()

    def merge(r):
        n, sk, bad = r
        bad = {k: v for k, v in bad.items() if k not in seen}
        seen.update(bad)
        res.ob(n)
        res.count("character classes", n)
        res.count("classes no valid program contains", sk)
        for k in sorted(bad):
            res.find("token/" + k, "tokens of C by maximal munch", where, bad[k])
    collect(res, pmap(run_case, fam), merge)

    def merge2(r):
        n, out = r
        res.ob(n)
        for fn, m in out:
            res.find("stream/" + m, "the parser takes a token exactly when it matches",
                     "%s (%s)" % (tu.functions[fn].where, fn), m)
    collect(res, pmap(stream_case, [(0,)]), merge2)

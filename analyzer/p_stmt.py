"""P08: statements transfer control the way C says they do."""
from absint import Arr, PathEnd, Ptr
from cast import AnalysisError
from dom import P, explore
from front import EVENT, BadCFG, Eval, Front, bid, ptr
from p_expr import form
from par import collect, pmap
from props import check

ALL = ("fall", "fallnew", "ret", "mret", "retfall")
LOOPY = ("brk", "cont", "mbrk", "mcont", "mbrkret", "mcontret", "mbrkcont")


class Gen:
    """one statement, chosen piece by piece while its tokens are read, together
    with the structure C gives it"""

    def __init__(self, make, full, force=None):
        self.force = force or {}
        self.n = {}
        self.full = full
        self.lean = False
        self.attr = {}
        self.tok = self.stream(make)

    def stream(self, make):
        self.ast = yield from make(self)
        while True:
            yield "T_eof"

    def label(self, k):
        self.n[k] = self.n.get(k, 0) + 1
        return "%s%d" % (k, self.n[k])

    def pick(self, opts, what):
        if what in self.force:
            return self.force[what]
        return opts[P().choose(len(opts), what)] if len(opts) > 1 else opts[0]

    # pieces ----------------------------------------------------------
    def expr(self, rich=None):
        """(label, has side effect); tokens of one opaque expression"""
        l = self.label("E")
        rich = True if rich is None else rich
        k = self.pick((0, 1, 2), l) if rich else 0
        self.attr[l] = (k == 1, k == 2)      # ends in a new block / postfix effect
        yield ("T_identifier", l)
        return ("e", l, k == 2)

    def tern(self, rich=True):
        k = self.pick((0, 1, 2, 3), "ternary")
        c = yield from self.expr(rich)
        if not k:
            return c
        yield "T_question"
        a = yield from (self.flat() if k == 2 else self.expr(rich and k == 1))
        yield "T_colon"
        b = yield from (self.flat() if k == 3 else self.expr(rich and k == 1))
        return ("t", c, a, b)

    def flat(self):
        """a conditional expression inside another one"""
        c = yield from self.expr(False)
        yield "T_question"
        a = yield from self.expr(False)
        yield "T_colon"
        b = yield from self.expr(True)
        return ("t", c, a, b)

    def cond(self, loop=None):
        """a controlling expression; conditional ones meet few sub-statements"""
        if loop or not self.pick((0, 1), "conditional condition"):
            return (yield from self.expr())
        self.lean = True
        return (yield from self.tern(False))

    def sub(self, loop, sw=False, opts=None):
        """a sub-statement nobody knows, with one of the ways it can end"""
        l = self.label("S")
        o = opts or (ALL + (LOOPY if loop else ("brk", "mbrk", "mbrkret") if sw else ()))
        if self.lean:
            o = tuple(x for x in o if x in ("fall", "mret", "mbrk", "mcont", "mbrkcont")) or o
        k = self.pick(o, l)
        self.attr[l] = k
        yield ("T_identifier", l)
        if k in ("ret", "mret", "retfall", "mbrkret", "mcontret"):
            pass
        for t in {"ret": ["R"], "retfall": ["R"], "mret": ["R"], "brk": ["B"], "mbrk": ["B"],
                  "cont": ["C"], "mcont": ["C"], "mbrkret": ["B", "R"],
                  "mcontret": ["C", "R"], "mbrkcont": ["B", "C"]}.get(k, []):
            yield {"R": "T_return", "B": "T_break", "C": "T_continue"}[t]
            yield "T_semicolon"
        return ("s", l, k)

    def assign(self, rich=False):
        l = self.label("A")
        k = self.pick((0, 1, 2), l) if rich else 0
        self.attr[l] = (k == 1, k == 2)
        yield ("T_identifier", l)
        return ("a", l, k == 2)


def falls(s):
    return s[2] in ("fall", "fallnew", "mret", "mbrk", "mcont")


# ------------------------------------------------------------ constructs

def c_if(g):
    loop = yield from ctx(g)
    yield "T_if"
    yield "T_open_bracket"
    e = yield from g.cond(loop)
    yield "T_close_bracket"
    a = yield from g.sub(loop)
    if g.pick((0, 1), "else"):
        yield "T_else"
        b = yield from g.sub(loop, opts=None if g.full else
                             (("fall", "ret", "brk", "cont", "mbrk") if loop else ALL))
    else:
        b = None
    return (yield from wrap(g, loop, ("if", e, a, b)))


def ctx(g):
    """perhaps inside a surrounding loop, before other jumps to that loop:
    while (E) if (E) { statement } else if (S) break; else continue;"""
    if g.pick((0, 1), "inside a loop"):
        out = []
        for t in ("T_while", "T_if"):
            yield t
            yield "T_open_bracket"
            out.append((yield from g.expr(False)))
            yield "T_close_bracket"
        yield "T_open_curly"
        return out
    return None


def wrap(g, loop, s):
    if loop:
        yield "T_close_curly"
        yield "T_else"
        z = yield from g.sub(True, opts=("mbrkcont",))
        return ("while", loop[0], ("if", loop[1], s, z))
    return s


def c_while(g):
    loop = yield from ctx(g)
    yield "T_while"
    yield "T_open_bracket"
    e = yield from g.cond(loop)
    yield "T_close_bracket"
    s = yield from g.sub(True)
    return (yield from wrap(g, loop, ("while", e, s)))


def c_do(g):
    loop = yield from ctx(g)
    yield "T_do"
    s = yield from g.sub(True)
    yield "T_while"
    yield "T_open_bracket"
    e = yield from g.cond(loop or s[2] not in ("fall", "mcont", "mbrk"))
    yield "T_close_bracket"
    yield "T_semicolon"
    return (yield from wrap(g, loop, ("do", s, e)))


def c_for(g):
    focus = g.pick(("body", "init", "inc"), "focus")
    loop = (yield from ctx(g)) if focus == "body" else None
    yield "T_for"
    yield "T_open_bracket"
    k = g.pick(("assign", "decl") if focus == "init" else ("none", "assign"), "for init")
    init = []
    if k == "assign":
        init.append((yield from g.assign(focus == "init")))
    elif k == "decl":
        init += yield from decl(g)
    yield "T_semicolon"
    e = None
    if focus == "init" or g.pick((1, 0), "for condition"):
        e = yield from (g.cond(loop) if focus == "inc" else g.expr(False))
    yield "T_semicolon"
    inc = None
    k = 1 if focus == "init" else g.pick((0, 1, 2, 3), "for increment")
    if k:
        if k > 1:
            yield "T_increment" if k == 2 else "T_decrement"
        inc = yield from g.assign(focus == "inc")
    yield "T_close_bracket"
    s = yield from g.sub(True, opts=None if focus == "body" or g.full else
                         ("fall", "mbrk", "mcont", "cont"))
    return (yield from wrap(g, loop, ("for", init, e, inc, s)))


def decl(g):
    out = []
    yield ("T_identifier", "int")
    for i in range(2):
        l = g.label("D")
        yield ("T_identifier", l)
        out.append(("d", l))
        if g.pick((0, 1), "init"):
            yield "T_assign"
            x = yield from g.tern(i == 0)
            out.append(("i", l, x))
        if i == 0 and g.pick((1, 0), "comma"):
            yield "T_comma"
        else:
            break
    return out


def c_decl(g):
    yield "T_open_curly"
    d = yield from decl(g)
    yield "T_semicolon"
    s = yield from g.sub(False)
    yield "T_close_curly"
    return ("block", d + [s])


def c_block(g):
    loop = yield from ctx(g)
    yield "T_open_curly"
    out = []
    for i in range(3):
        if not g.pick((1, 0), "statement"):
            break
        s = yield from g.sub(loop)
        out.append(s)
        if not falls(s):
            # one statement control cannot reach
            if g.pick((0, 1), "unreachable"):
                out.append((yield from g.sub(loop, opts=("fall",))))
            break
    yield "T_close_curly"
    return (yield from wrap(g, loop, ("block", out)))


def c_simple(g):
    loop = yield from ctx(g)
    k = g.pick(("return", "returnv", "empty", "call", "assign", "++", "--") +
               (("break", "continue") if loop else ()), "statement")
    if k == "return":
        yield "T_return"
        yield "T_semicolon"
        return (yield from wrap(g, loop, ("ret", None)))
    if k == "returnv":
        yield "T_return"
        e = yield from g.tern()
        yield "T_semicolon"
        return (yield from wrap(g, loop, ("ret", e)))
    if k == "empty":
        yield "T_semicolon"
        return (yield from wrap(g, loop, ("block", [])))
    if k in ("break", "continue"):
        yield "T_" + k
        yield "T_semicolon"
        return (yield from wrap(g, loop, (k,)))
    if k == "call":
        l = g.label("F")
        yield ("T_identifier", l)
        yield "T_semicolon"
        return (yield from wrap(g, loop, ("a", l, False)))
    if k in ("++", "--"):
        yield "T_increment" if k == "++" else "T_decrement"
    a = yield from g.assign(True)
    yield "T_semicolon"
    return (yield from wrap(g, loop, a))


def c_switch(g):
    loop = yield from ctx(g)
    yield "T_switch"
    yield "T_open_bracket"
    e = yield from g.cond(loop)
    yield "T_close_bracket"
    yield "T_open_curly"
    n = g.pick((0, 1, 2, 3), "labels")
    items = []
    for i in range(n):
        if i == n - 1 and g.pick((0, 1), "default"):
            yield "T_default"
            items.append(("case", None))
        else:
            yield "T_case"
            items.append(("case", (yield from case_value(g, i, n))))
        yield "T_colon"
        o = ["fall", "ret", "mbrk", "brk"] + (["cont", "mbrkcont"] if loop else ["mret"])
        for j in range(2 if i == 0 and n < 3 else 1):
            if not g.pick((1, 0), "body"):
                break
            s = yield from g.sub(bool(loop), True, tuple(o if not g.full else
                                                         o + ["fallnew", "mbrkret"]))
            items.append(s)
            if not falls(s):
                break
    yield "T_close_curly"
    return (yield from wrap(g, loop, ("switch", e, items)))


def case_value(g, i, n):
    k = 0
    neg = False
    if n == 1:
        k = g.pick((0, 1, 2), "label kind")
        neg = k != 2 and g.pick((0, 1), "negative label")
        if neg:
            yield "T_minus"
    if k == 0:
        yield ("T_numeric", str(i + 1))
        v = i + 1
    elif k == 1:
        yield ("T_char", "k")
        v = 107
    else:
        yield ("T_identifier", "K")
        v = 70
    return -v if neg else v


CONSTRUCTS = {"if": c_if, "while": c_while, "do": c_do, "for": c_for, "switch": c_switch,
              "block": c_block, "declaration": c_decl, "simple": c_simple}


# ------------------------------------------------------- what C prescribes

class Ref:
    """the C meaning as a graph of observable steps"""

    def __init__(self, ast):
        self.nodes = []
        out = self.node("end", "the end of the statement")
        self.start = self.stmt(ast, out, None, None)

    def node(self, *a):
        self.nodes.append(list(a))
        return len(self.nodes) - 1

    def expr(self, e, nxt):
        """nxt(value) -> node"""
        if e[0] == "t":
            _, c, a, b = e
            fa = self.expr(a, nxt)
            fb = self.expr(b, nxt)
            br = self.node("br", ("v", c[1]), fa, fb)
            return self.ev(c, br)
        return self.ev(e, nxt(("v", e[1])))

    def ev(self, e, n):
        """evaluate e, complete its side effect, go to n"""
        if e[2]:
            n = self.node("ev", e[1] + "++", n)
        return self.node("ev", e[1], n)

    def seq(self, items, nxt, brk, cont):
        for s in reversed(items):
            nxt = self.stmt(s, nxt, brk, cont)
        return nxt

    def stmt(self, s, nxt, brk, cont):
        k = s[0]
        if k == "s":
            l, o = s[1], s[2]
            ret = self.node("ret", None)
            v = ("v", l)
            t = {"fall": nxt, "fallnew": nxt, "ret": ret, "retfall": ret, "brk": brk,
                 "cont": cont}
            if o in t:
                return self.node("ev", l, t[o])
            a, b = {"mret": (ret, nxt), "mbrk": (brk, nxt), "mcont": (cont, nxt),
                    "mbrkret": (brk, ret), "mcontret": (cont, ret),
                    "mbrkcont": (brk, cont)}[o]
            return self.node("ev", l, self.node("br", v, a, b))
        if k == "a":
            return self.ev(s, nxt)
        if k == "d":
            return self.node("ev", ("decl", s[1]), nxt)
        if k == "i":
            e = s[2]
            if e[0] == "e" and e[2]:
                # the side effect and the store are unsequenced
                v = ("set", s[1], ("v", e[1]))
                return self.node("ev", e[1], self.node("any", (v, e[1] + "++"), nxt))
            return self.expr(e, lambda v: self.node("ev", ("set", s[1], v), nxt))
        if k == "block":
            return self.seq(s[1], nxt, brk, cont)
        if k == "ret":
            if s[1] is None:
                return self.node("ret", None)
            return self.expr(s[1], lambda v: self.node("ret", v))
        if k == "break":
            return brk
        if k == "continue":
            return cont
        if k == "if":
            _, e, a, b = s
            t = self.stmt(a, nxt, brk, cont)
            f = self.stmt(b, nxt, brk, cont) if b else nxt
            return self.expr(e, lambda v: self.node("br", v, t, f))
        if k in ("while", "do", "for"):
            if k == "for":
                _, init, e, inc, body = s
            else:
                init, inc = [], None
                e, body = (s[1], s[2]) if k == "while" else (s[2], s[1])
            top = self.node("jump", None)
            again = self.node("jump", None)
            b = self.stmt(body, again, nxt, again)
            test = self.expr(e, lambda v: self.node("br", v, b, nxt)) if e else b
            self.nodes[top][1] = test
            self.nodes[again][1] = self.stmt(inc, top, None, None) if inc else top
            if k == "do":
                return b
            return self.seq(init, top, None, None)
        if k == "switch":
            _, e, items = s
            entries, dflt = {}, nxt
            after = nxt
            for it in reversed(items):
                if it[0] == "case":
                    if it[1] is None:
                        dflt = after
                    else:
                        entries[it[1]] = after
                else:
                    after = self.stmt(it, after, nxt, cont)
            return self.expr(e, lambda v: self.node("sw", v, entries, dflt))
        raise ValueError(k)


# --------------------------------------------------------------- comparison

class Mismatch(Exception):
    pass


def compare(fr, ref, start, out):
    """follow both graphs together over every reachable combination of states"""
    ip = fr.ip
    seen = set()
    edges = set()
    todo = [(start, ref.start, {}, {})]
    names = {}

    def bname(b):
        return names.setdefault(bid(b), b)

    def settle(n):
        while ref.nodes[n][0] == "jump":
            n = ref.nodes[n][1]
        return n

    def mirrored(a, b, kind):
        if (bid(a), kind) in edges:
            return
        edges.add((bid(a), kind))
        prev = ip.obj(b).get("prev")
        want = ip.tu.enum[kind]
        for k, v in prev.slots.items():
            if bid(ptr(v.get("bb"))) == bid(a) and P().simp(v.get("type")) == want:
                return
        raise Mismatch("an edge is missing from its target's list of predecessors")
    while todo:
        bb, n, env, know = todo.pop()
        n = settle(n)
        key = (bid(bb), n, tuple(sorted(env.items(), key=repr)), tuple(sorted(know.items())))
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 3000:
            raise Mismatch("control does not settle")
        if ref.nodes[n][0] == "sw":
            _, v, ent, d = ref.nodes[n]
            for c, t in list(ent.items()) + [(None, d)]:
                todo.append((bb, t, env, dict(know, **{repr(v): c if c is not None else "other"})))
            continue
        ev = Eval(fr, form=form, fresh=lambda lab: ("v", lab))
        ev.env = dict(env)
        term = ev.block(bb)
        sw = None
        obs = list(ev.trace)
        while obs:
            x = obs.pop(0)
            node = ref.nodes[n]
            if node[0] == "sw":
                # the switch value is dispatched on before anything else happens
                sw = n
                break
            if node[0] == "any" and x in node[1]:
                other = [y for y in node[1] if y != x][0]
                if not obs or obs.pop(0) != other:
                    raise Mismatch("%s does not happen" % show(other))
                n = settle(node[2])
                continue
            if node[0] != "ev" or node[1] != x:
                raise Mismatch("%s happens where C %s" % (show(x), describe(node)))
            n = settle(node[2])
        if sw is not None:
            raise Mismatch("%s happens before the switch value is dispatched on" % show(x))
        node = ref.nodes[n]
        if node[0] == "sw" and term and term[0] == "br":
            _, v, ent, d = node
            for c, t in list(ent.items()) + [(None, d)]:
                branch(todo, fr, bb, term, t, ev.env,
                       dict(know, **{repr(v): c if c is not None else "other"}), ref, settle,
                       mirrored)
            continue
        branch(todo, fr, bb, term, n, ev.env, know, ref, settle, mirrored, out)
    return len(seen)


def branch(todo, fr, bb, term, n, env, know, ref, settle, mirrored, out=None):
    o = fr.ip.obj(bb)
    n = settle(n)
    node = ref.nodes[n]
    # values nobody can use any more do not distinguish states
    if term is None:
        nxt = ptr(o.get("next"))
        if isinstance(nxt, Ptr):
            mirrored(bb, nxt, "NEXT")
            todo.append((nxt, n, env, know))
            return
        if out is not None and bid(bb) == bid(out):
            if node[0] != "end":
                raise Mismatch("the statement ends where C %s" % describe(node))
            return
        raise Mismatch("control reaches a block that leads nowhere, where C %s" % describe(node))
    if term[0] == "ret":
        if node[0] != "ret":
            raise Mismatch("the function returns where C %s" % describe(node))
        if term[1] != node[1]:
            raise Mismatch("returns %s instead of %s" % (show(term[1]), show(node[1])))
        return
    v = term[1]
    th, el = ptr(o.get("then_")), ptr(o.get("else_"))
    if not isinstance(th, Ptr) or not isinstance(el, Ptr):
        raise Mismatch("a conditional branch has only one successor")
    mirrored(bb, th, "THEN")
    mirrored(bb, el, "ELSE")
    if isinstance(v, int):
        todo.append((th if v else el, n, env, know))
        return
    if isinstance(v, tuple) and v[0] == "OP_eq":
        c = [x for x in v[1:] if isinstance(x, int)]
        x = [x for x in v[1:] if not isinstance(x, int)]
        if len(c) == 1 and repr(x[0]) in know:
            todo.append((th if know[repr(x[0])] == c[0] else el, n, env, know))
            return
    if node[0] != "br":
        raise Mismatch("branches on %s where C %s" % (show(v), describe(node)))
    if node[1] != v:
        raise Mismatch("branches on %s instead of %s" % (show(v), show(node[1])))
    todo.append((th, node[2], env, know))
    todo.append((el, node[3], env, know))


def show(x):
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "v":
        return "the value of " + x[1]
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "decl":
        return "the declaration of " + x[1]
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "set":
        return "%s = (%s)" % (x[1], show(x[2]))
    if isinstance(x, str) and x.endswith("++"):
        return "the postfix side effect of " + x[:-2]
    return str(x)


def describe(node):
    if node[0] == "any":
        return "does " + show(node[1][0])
    if node[0] == "ev":
        return "does " + show(node[1])
    if node[0] == "br":
        return "branches on " + show(node[1])
    if node[0] == "ret":
        return "returns"
    if node[0] == "sw":
        return "dispatches on " + show(node[1])
    return "reaches " + node[1]


# ------------------------------------------------------------------- harness

def text(ast):
    k = ast[0] if isinstance(ast, tuple) else None
    if ast is None:
        return ""
    if isinstance(ast, list):
        return " ".join(text(x) for x in ast)
    if k == "e":
        return ast[1] + ("++" if ast[2] else "")
    if k == "t":
        return "%s ? %s : %s" % tuple(text(x) for x in ast[1:])
    if k == "a":
        return ast[1] + ("++;" if ast[2] else ";")
    if k == "s":
        return {"fall": "%s;", "fallnew": "%s;", "ret": "{%s; return;}", "retfall":
                "do {%s; return;} while (0);", "brk": "{%s; break;}", "cont": "{%s; continue;}",
                "mret": "if (%s) return;", "mbrk": "if (%s) break;", "mcont":
                "if (%s) continue;", "mbrkret": "if (%s) break; else return;", "mcontret":
                "if (%s) continue; else return;", "mbrkcont":
                "if (%s) break; else continue;"}[ast[2]] % ast[1]
    if k == "d":
        return "int %s;" % ast[1]
    if k == "i":
        return "%s = %s;" % (ast[1], text(ast[2]))
    if k == "block":
        return "{ %s }" % text(ast[1])
    if k == "ret":
        return "return %s;" % text(ast[1])
    if k == "if":
        return "if (%s) %s" % (text(ast[1]), text(ast[2])) + \
            (" else " + text(ast[3]) if ast[3] else "")
    if k == "while":
        return "while (%s) %s" % (text(ast[1]), text(ast[2]))
    if k == "do":
        return "do %s while (%s);" % (text(ast[1]), text(ast[2]))
    if k == "for":
        return "for (%s; %s; %s) %s" % (text(ast[1]).rstrip(";"), text(ast[2]),
                                        text(ast[3]).rstrip(";"), text(ast[4]))
    if k == "switch":
        return "switch (%s) { %s }" % (text(ast[1]), text(ast[2]))
    if k == "case":
        return "default:" if ast[1] is None else "case %d:" % ast[1]
    return "%s;" % k


class Harness:
    def __init__(self, what, full, force=None):
        self.force = force
        self.fr = Front("arm", {
            "read_expr_operand": self.operand, "read_body_statement": self.statement,
            "read_body_assignment": self.assignment, "read_func_call": self.call,
            "read_full_var_decl": self.full_decl, "read_partial_var_decl": self.part_decl,
            "add_symbol": lambda ip, a, n: 0, "read_preproc_directive": lambda ip, a, n: 0,
            "find_type": self.find_type, "find_macro": lambda ip, a, n: 0,
            "find_func": self.find_func, "find_constant": self.find_constant,
            "find_var": lambda ip, a, n: 0})
        for f in ("read_body_statement", "read_expr_operand", "read_expr"):
            if f not in self.fr.tu.functions:
                raise AnalysisError("anchor %s not found" % f)
        self.ip = self.fr.ip
        self.make, self.full = CONSTRUCTS[what], full

    # summaries --------------------------------------------------------
    def text(self):
        return self.fr.toks[self.fr.unread()][1]

    def expect(self, c):
        t = self.text()
        if self.fr.kind(self.fr.unread()) != "T_identifier" or not t.startswith(c):
            raise PathEnd("parse", "reads %s where it must not" %
                          {"E": "an expression", "A": "an assignment", "S": "a statement"}[c])
        return t

    def pend(self, label, v):
        """a postfix side effect, left pending the way the parser does"""
        if "side_effect" not in self.ip.tu.globals or "se_idx" not in self.ip.tu.globals:
            raise AnalysisError("anchor side_effect/se_idx not found")
        fr, ip = self.fr, self.ip
        i = P().simp(ip.gget("se_idx"))
        e = ip.gget("side_effect").get(i)
        fr.events.append(label)
        e.set("op", EVENT)
        e.set("size", len(fr.events) - 1)
        e.set("dest", v)
        e.set("src0", 0)
        e.set("src1", 0)
        ip.gset("se_idx", i + 1)

    def opaque(self, pbb, label):
        fr, ip = self.fr, self.ip
        move, se = self.g.attr[label]
        bb = pbb.obj.get(pbb.key)
        v = fr.value(label)
        fr.event(bb, label, v)
        if move:
            n = fr.bb()
            ip.call("bb_connect", [bb, n, ip.tu.enum["NEXT"]])
            pbb.obj.set(pbb.key, n)
        if se:
            self.pend(label + "++", v)
        fr.advance()
        return v

    def operand(self, ip, args, node):
        l = self.expect("E")
        v = self.opaque(args[1], l)
        ip.call("opstack_push", [v])
        return 0

    def assignment(self, ip, args, node):
        l = self.expect("A")
        self.opaque(args[3], l)
        return 1

    def call(self, ip, args, node):
        self.fr.event(args[2].obj.get(args[2].key), self.callee)
        return 0

    def find_func(self, ip, args, node):
        t = self.text()
        if t.startswith("F"):
            self.callee = t
            return self.fr.func
        return 0

    def find_constant(self, ip, args, node):
        if self.text() == "K":
            c = ip.new("constant_t", "K", "zero")
            ip.obj(c).set("value", 70)
            return c
        return 0

    def find_type(self, ip, args, node):
        return ip.new("type_t", "int", "zero") if self.text() == "int" else 0

    def full_decl(self, ip, args, node):
        self.fr.advance()
        return self.part_decl(ip, args, node)

    def part_decl(self, ip, args, node):
        t = self.text()
        if not t.startswith("D"):
            raise PathEnd("parse", "reads a declarator where it must not")
        ip.obj(args[0]).set("var_name", ip.string(t).obj)
        self.fr.advance()
        return 0

    def statement(self, ip, args, node):
        fr = self.fr
        body = ip.tu.functions["read_body_statement"]
        if not self.text().startswith("S"):
            return ip.run_body(body, args)
        parent, bb = args
        l = self.text()
        k = self.g.attr[l]
        if not isinstance(ptr(bb), Ptr):
            if k != "fall":
                raise PathEnd("parse", "reads a statement control cannot reach")
            fr.advance()
            return 0
        v = fr.value(l)
        fr.event(bb, l, v)
        fr.advance()
        E = ip.tu.enum

        def real(b):
            r = ip.run_body(body, [parent, b])
            if isinstance(ptr(r), Ptr):
                raise PathEnd("parse", "break, continue or return falls through")
        if k == "fall":
            return bb
        if k == "fallnew":
            n = fr.bb()
            ip.call("bb_connect", [bb, n, E["NEXT"]])
            return n
        if k in ("ret", "brk", "cont"):
            real(bb)
            return 0
        if k == "retfall":
            real(bb)
            return fr.bb()
        ip.call("add_insn", [parent, bb, E["OP_branch"], 0, v, 0, 0, 0])
        t, e = fr.bb(), fr.bb()
        ip.call("bb_connect", [bb, t, E["THEN"]])
        ip.call("bb_connect", [bb, e, E["ELSE"]])
        real(t)
        if k in ("mret", "mbrk", "mcont"):
            return e
        real(e)
        return 0

    # one path -----------------------------------------------------------
    def run(self):
        fr, ip = self.fr, self.ip
        self.g = g = Gen(self.make, self.full, self.force)
        fr.start(lambda i: next(g.tok))
        try:
            out = ip.call("read_body_statement", [fr.parent, fr.entry])
            ip.call("perform_side_effect", [fr.parent, ptr(out)])
        except PathEnd as e:
            return g, "stops: %s %s" % (e.how, e.msg)
        if not hasattr(g, "ast"):
            return g, "parsing ends before the end of the statement"
        if fr.kind(fr.unread()) != "T_eof":
            return g, "parsing ends before the end of the statement"
        if P().simp(ip.gget("operand_stack_idx")) != 0:
            return g, "leaves a value on the operand stack"
        try:
            self.states = compare(fr, Ref(g.ast), fr.entry, ptr(out))
        except (Mismatch, BadCFG) as e:
            return g, str(e)
        return g, None


def run_construct(what, full, force):
    h = Harness(what, full, force)
    out, n, st = [], 0, 0
    for _, (g, msg) in explore(h.run, 200000):
        n += 1
        if msg:
            ast = getattr(g, "ast", None)
            out.append((what, text(ast) if ast else what, msg))
        else:
            st += h.states
    return what, out, n, st


@check("P08", "other",
       "Each kind of statement is parsed abstractly with opaque expressions (which may end in "
       "another block or leave a postfix side effect pending) and sub-statements of which only the "
       "way they end is known (fall through, return, break, continue, each also conditionally). "
       "The block graph built is followed together with the control flow C prescribes over every "
       "reachable pair of states: events, branch values, returned values, edges and their "
       "predecessor records must agree. Since sub-statements are arbitrary, nesting follows by "
       "induction.",
       ["no jump or compound statement that control cannot reach (shecc warns and gives up on "
        "those)",
        "switch with up to 3 labels"])
def p08(res):
    full = res.tier == "thorough"
    from cast import load
    w = load("arm").functions.get("read_body_statement")
    if w is None:
        raise AnalysisError("anchor read_body_statement not found")

    def merge(r):
        what, out, n, st = r
        res.ob(n)
        res.count("%s paths" % what, n)
        res.count("product states", st)
        if out:
            bad.setdefault(what, []).extend(out)
    bad = {}
    tasks = [("switch", full, {"inside a loop": i, "labels": n})
             for n in (3, 2, 1, 0) for i in (1, 0)]
    tasks += [("for", full, {"focus": f}) for f in ("body", "init", "inc")]
    tasks += [("if", full, {"inside a loop": i}) for i in (1, 0)]
    tasks += [(c, full, None) for c in ("declaration", "block", "do", "while", "simple")]
    collect(res, pmap(run_construct, tasks), merge)
    for what, out in bad.items():
        out.sort(key=lambda x: len(x[1]))
        seen = set()
        for x in out:
            if x[2] in seen or len(seen) > 5:
                continue
            seen.add(x[2])
            res.find("stmt/%s/%s" % (what, x[2][:60].replace(" ", "_")),
                     "C control flow of a statement",
                     "%s (read_body_statement)" % w.where, "%s: %s" % (x[1], x[2]))

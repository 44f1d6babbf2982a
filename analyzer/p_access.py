"""P09: objects designated by names, members, elements and pointers."""
from cast import AnalysisError, load
from dom import P, add, explore, mul, neg, sub, var
from front import BadCFG, ptr
from par import collect, pmap
from props import check
from unit import Memory, Unit, addr, arith, fnaddr, read, value


class T:
    def __init__(self, base, p=0, arr=0, fn=False):
        self.base, self.ptr, self.arr, self.fn = base, p, arr, fn

    def size(self):
        if self.ptr or self.fn:
            return 4
        return {"char": 1, "int": 4}.get(self.base) or var("size_" + self.base, 1, 1 << 20)

    def elem(self):
        if self.arr:
            return T(self.base, self.ptr)
        return T(self.base, self.ptr - 1)

    def decl(self, n):
        if self.fn:
            return "int (*%s)(int a)" % n
        return "%s %s%s%s" % (self.base, "*" * self.ptr, n, "[%d]" % self.arr if self.arr else "")

    def struct(self):
        return self.base in MEMBERS and not self.ptr and not self.arr

    def pointer(self):
        return self.ptr > 0 and not self.arr

    def steps(self):
        """what may follow an lvalue of this type"""
        if self.fn:
            return []
        if self.struct():
            return ["." + m for m in MEMBERS[self.base]]
        out = []
        if self.ptr or self.arr:
            out.append("[e]")
        if self.base in MEMBERS and (self.ptr, bool(self.arr)) in ((1, False), (0, True)):
            out += ["->" + m for m in MEMBERS[self.base]]
        return out


MEMBERS = {
    "S": {"c": T("char"), "i": T("int"), "p": T("char", 1), "q": T("int", 1), "k": T("char", 2),
          "n": T("R", 1), "h": T("R", 2), "a": T("int", 0, 3), "b": T("char", 0, 5),
          "t": T("R", 1, 2), "u": T("int", 1, 2), "w": T("R"), "v": T("R", 0, 3),
          "f": T("int", fn=True)},
    "R": {"x": T("int"), "y": T("char"), "z": T("char", 1), "l": T("S", 1), "d": T("int", 0, 2)},
}
UNITS = ("typedef struct S S; typedef struct R R;",
         "struct R { %s };" % " ".join(t.decl(m) + ";" for m, t in MEMBERS["R"].items()),
         "struct S { %s };" % " ".join(t.decl(m) + ";" for m, t in MEMBERS["S"].items()))
ROOTS = [T("int"), T("char"), T("int", 1), T("char", 1), T("int", 2), T("char", 2),
         T("int", 0, 4), T("char", 0, 4), T("int", 1, 4), T("char", 1, 4),
         T("S"), T("S", 1), T("S", 2), T("S", 0, 4), T("S", 1, 4), T("int", fn=True)]
BIN = {"+": "OP_add", "-": "OP_sub", "*": "OP_mul", "/": "OP_div", "%": "OP_mod",
       "<<": "OP_lshift", ">>": "OP_rshift", "&": "OP_bit_and", "|": "OP_bit_or",
       "^": "OP_bit_xor"}


def uses(t, deep):
    """the ways an lvalue of type t is used; L is the lvalue, e an int"""
    if t.fn:
        return ["r = L(e);", "L(e);", "L = g;"]
    if t.struct():
        return ["r = &L;"]
    out = ["r = L;", "r = &L;"]
    if not t.arr:
        out.append("L = e;")
    if t.ptr or t.arr:
        if not t.elem().struct():
            out += ["r = *L;"]
            if not deep:
                out += ["r = L[q[e]];", "r = e + L[r] * q[e];"]
        out += ["r = L + e;", "r = L + e + e;", "r = L + e * e;", "r = L - e;"]
    if t.arr:
        return out
    if t.ptr:
        out += ["L += e;", "L -= e;"]
    else:
        out += ["L += e;"] if deep else ["L %s= e;" % o for o in BIN]
        out += ["r = L + e;", "r = L - e;"]
    out += ["L++;", "--L;", "r = L++;", "r = --L;"]
    if not deep:
        out += ["++L;", "L--;", "r = ++L;", "r = L--;"]
    return out


class Ref:
    """C's meaning of one use"""

    def __init__(self):
        self.trace, self.nw = [], 0

    def load(self, lv):
        t, a = lv
        if t.arr:
            return self.address(lv)
        if t.struct():
            raise ValueError
        if a[0] == "var":
            return value(a[1])
        return read(a[1], t.size(), self.nw)

    def address(self, lv):
        t, a = lv
        return addr(a[1]) if a[0] == "var" else a[1]

    def store(self, lv, v):
        t, a = lv
        if a[0] == "var":
            self.trace.append(("set", a[1], v))
        else:
            self.trace.append(("write", a[1], t.size(), v))
            self.nw += 1

    def step(self, lv, s):
        t, _ = lv
        if s == "[e]":
            e = t.elem()
            return e, ("mem", P().simp(add(self.load(lv), mul(value("e"), e.size()))))
        m = s.lstrip("->.")
        base = self.address(lv) if s[0] == "." else self.load(lv)
        return MEMBERS[t.base][m], ("mem", P().simp(add(base, offset(t.base, m))))

    def scaled(self, t, v):
        return mul(v, t.elem().size()) if t.ptr or t.arr else v

    def use(self, lv, u):
        t = lv[0]
        e = value("e")
        if t.fn:
            if u == "L = g;":
                self.store(lv, fnaddr("g"))
                return
            self.trace.append(("call", self.load(lv), (e,)))
            if u[0] == "r":
                self.trace.append(("set", "r", var("ret1")))
            return
        if u == "r = L;":
            v = self.load(lv)
        elif u == "r = &L;":
            v = self.address(lv)
        elif u == "r = *L;":
            el = t.elem()
            v = self.load((el, ("mem", self.load(lv))))
        elif u == "r = L + e;":
            v = P().simp(add(self.load(lv), self.scaled(t, e)))
        elif u == "r = L + e + e;":
            v = self.scaled(t, e)
            v = P().simp(add(add(self.load(lv), v), v))
        elif u == "r = L + e * e;":
            v = P().simp(add(self.load(lv), self.scaled(t, P().simp(mul(e, e)))))
        elif u == "r = L - e;":
            v = P().simp(sub(self.load(lv), self.scaled(t, e)))
        elif "[" in u:
            el = t.elem()
            q = read(P().simp(add(value("q"), mul(e, 4))), 4, 0)
            i = q if "r]" not in u else value("r")
            v = self.load((el, ("mem", P().simp(add(self.load(lv), self.scaled(t, i))))))
            if "r]" in u:
                v = P().simp(add(e, arith("OP_mul", v, q)))
        elif u == "L = e;":
            return self.store(lv, e)
        elif u.startswith("L ") and u.endswith("= e;"):
            o = BIN[u[2:-4]]
            return self.store(lv, arith(o, self.load(lv), self.scaled(t, e)))
        else:
            o = "OP_add" if "++" in u else "OP_sub"
            old = self.load(lv)
            new = arith(o, old, P().simp(self.scaled(t, 1)))
            self.store(lv, new)
            if u[0] != "r":
                return
            v = new if u.index("L") > u.index(o == "OP_add" and "++" or "--") else old
        self.trace.append(("set", "r", v))


def offset(s, m):
    return var("off_%s_%s" % (s, m), 0, 1 << 20)


def symbolic_layout(u):
    """the property holds for every layout of the two structures"""
    ip = u.ip
    for s in MEMBERS:
        t = ip.call("find_type", [ip.string(s), 0])
        o = ip.obj(t)
        base = ptr(o.get("base_struct"))
        tag = ip.call("find_type", [ip.string(s), 2])
        o = ip.obj(tag)
        o.set("size", P().simp(var("size_" + s, 1, 1 << 20)))
        f = o.get("fields")
        for i, m in enumerate(MEMBERS[s]):
            x = f.get(i)
            if ip.cstr(__import__("absint").Ptr(x.get("var_name"), 0)) != m:
                raise AnalysisError("members of a structure are not listed in order")
            x.set("offset", P().simp(offset(s, m)))


def chains(t, depth):
    if depth == 0:
        yield []
        return
    for s in t.steps():
        m = t.elem() if s == "[e]" else MEMBERS[t.base][s.lstrip("->.")]
        for c in chains(m, depth - 1):
            yield [s] + c


def type_after(t, chain):
    for s in chain:
        t = t.elem() if s == "[e]" else MEMBERS[t.base][s.lstrip("->.")]
    return t


UNSCALED = "subtracts the integer without scaling it by the size of the element"


def case(root, where, chain, use):
    """a finding, or None"""
    u = Unit()

    def stream():
        for x in UNITS:
            yield x
        d = root.decl("x")
        yield "int g(int a) { return a; }"
        if where == "global":
            yield d + ";"
        symbolic_layout(u)
        yield "int f(int e, int r, int *q" + (", " + d if where == "param" else "") + ") {"
        if where == "local":
            yield d + ";"
        yield use.replace("L", "x" + "".join(chain))
        yield "return r; }"

    def run():
        msg = u.parse(stream())
        if msg:
            return "the compiler stops (%s)" % msg
        m = Memory(u)
        try:
            t = m.run("f")
        except BadCFG as e:
            return str(e)
        ref = Ref()
        lv = (root, ("var", "x"))
        for s in chain:
            lv = ref.step(lv, s)
        ref.use(lv, use)
        got = [x for x in m.trace if x[0] != "decl"]
        want = ref.trace
        if use == "r = L - e;" and got != want and got == unscaled(root, chain, use):
            return UNSCALED
        if sorted(map(repr, got)) != sorted(map(repr, want)):
            return "does %s; C does %s" % (show(got), show(want))
        return None
    for _, r in explore(run):
        if r:
            return r
    return None


def show(tr):
    out = []
    for x in tr:
        if x[0] == "set":
            out.append("%s = %r" % (x[1], x[2]))
        elif x[0] == "write":
            out.append("mem%s[%r] = %r" % (x[2], x[1], x[3]))
        else:
            out.append("%s%r" % (x[1], x[2]))
    return "; ".join(out) or "nothing"


def unscaled(root, chain, use):
    """what `r = L - e` does when the pointee size is left out"""
    ref = Ref()
    lv = (root, ("var", "x"))
    for s in chain:
        lv = ref.step(lv, s)
    return [("set", "r", P().simp(sub(ref.load(lv), value("e"))))]


def batch(items):
    return [(it, case(*it)) for it in items]


def all_cases(deep):
    out = []
    for r in ROOTS:
        for d in range(deep + 1):
            for c in chains(r, d):
                t = type_after(r, c)
                w = ["local"]
                if not r.arr and not r.struct() and not r.fn:
                    w = ["param", "local", "global"] if d == 0 else ["param"]
                elif d <= 1 and not r.fn:
                    w = ["local", "global"]
                for x in w:
                    us = uses(t, d > 1)
                    if d >= 3:
                        us = [y for y in us if y in ("r = L;", "L = e;", "r = &L;", "r = *L;")]
                    for y in us:
                        out.append((r, x, c, y))
    return out


RULE = "C access path: address of the object, width, and value stored or read"


@check("P09", "other",
       "The whole parser (from parse_internal on) is interpreted on generated declarations and one "
       "use of an access path; structure layouts are symbolic (every member offset and structure "
       "size). The intermediate code built is read back over an unknown memory and every store, "
       "load, call and register copy is compared with what C prescribes for the path.",
       ["access paths of up to two steps ([], ., ->) from 16 kinds of variables, over members of "
        "every kind; three steps in the thorough tier"])
def p09(res):
    d = 3 if res.tier == "thorough" else 2
    cs = all_cases(d)
    f = load("arm").functions.get("read_lvalue")
    if f is None:
        raise AnalysisError("anchor read_lvalue not found")
    bad = []

    def merge(r):
        res.ob(len(r))
        res.count("uses of access paths", len(r))
        bad.extend((it, m) for it, m in r if m)
    n = 128 if d == 3 else 64
    collect(res, pmap(batch, [(cs[i::n],) for i in range(n)]), merge)
    where = "%s (read_lvalue)" % f.where
    groups = {}
    for (root, w, chain, use), m in bad:
        if m == UNSCALED:
            key = "access/minus/unscaled"
        elif root.fn:
            key = "access/function-pointer-variable/%s/%s" % (w, use)
        else:
            t = type_after(root, chain)
            key = "access/%s/%s/%s" % (t.decl(""), (chain or [w])[-1], use)
        old = groups.get(key)
        if old is None or len(chain) < len(old[0]):
            groups[key] = (chain, "%s: %s: `%s` %s" % (
                w, root.decl("x"), use.replace("L", "x" + "".join(chain)), m))
    for key in sorted(groups):
        res.find(key, RULE, where, groups[key][1][:400])

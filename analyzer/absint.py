"""Trace-partitioned abstract interpreter over the resolved clang AST.

Helpers are inlined, conditions the environment cannot decide are split, loops
are unrolled while their conditions stay decided (a bound makes the analysis
fail, never pass), callees a check names are replaced by its summaries.
"""
import re

import fast
from cast import AnalysisError
from dom import (P, var, op, add, sub, mul, div, mod, shl, shr, lshr, band, bor,
                 bxor, neg, bnot, lnot, lt, le, eq, ne, Lin, wrap, mulc, bits,
                 from_bits, IMIN, IMAX, Infeasible)


class Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


class Ptr:
    """Pointer to slot `key` of container `obj`."""
    __slots__ = ("obj", "key")

    def __init__(self, obj, key):
        self.obj = obj
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj is self.obj and _keq(o.key, self.key)

    def __hash__(self):
        return hash((id(self.obj), str(self.key)))

    def __repr__(self):
        return "&%s[%s]" % (self.obj.name, self.key)


def _keq(a, b):
    if isinstance(a, (int, str)) and isinstance(b, (int, str)):
        return a == b
    return str(a) == str(b)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "fn:" + self.name


class LazyPtr:
    """An unknown pointer: null-ness and pointee are decided on first use."""
    __slots__ = ("name", "ty", "interp", "nonnull", "target")

    def __init__(self, interp, name, ty):
        self.interp, self.name, self.ty = interp, name, ty
        self.nonnull = None
        self.target = None

    def is_null(self):
        if self.nonnull is None:
            self.nonnull = P().choose(2, "%s is null" % self.name) == 0
        return not self.nonnull

    def deref(self):
        if self.nonnull is False:
            raise PathEnd("nullderef", self.name)
        self.nonnull = True
        if self.target is None:
            a = Arr(self.ty, None, "*" + self.name, "sym", self.interp)
            self.target = Ptr(a, 0)
        return self.target

    def __repr__(self):
        return "lazy:" + self.name


class Container:
    kind = "?"

    wlog = None         # containers stored to, when recording

    def __init__(self, name, mode, interp):
        self.name, self.mode, self.interp = name, mode, interp
        self.slots = {}
        if Container.wlog is not None:
            Container.wlog[0].add(id(self))

    def elem_type(self, key):
        raise NotImplementedError

    def get(self, key):
        k = key if isinstance(key, (int, str)) else key.key
        if k in self.slots:
            return self.slots[k]
        v = self.interp.default(self.elem_type(key), "%s.%s" % (self.name, k),
                                self.mode)
        self.slots[k] = v
        return v

    def set(self, key, v):
        k = key if isinstance(key, (int, str)) else key.key
        self.slots[k] = v
        if Container.wlog is not None:
            Container.wlog[1].append(self)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class Struct(Container):
    kind = "struct"

    def __init__(self, rec, name, mode, interp):
        Container.__init__(self, name, mode, interp)
        self.rec = rec

    def elem_type(self, key):
        return self.interp.field_type(self.rec, key)

    def copy_from(self, o):
        self.slots = {}
        for k, v in o.slots.items():
            self.slots[k] = clone(v)
        if o.mode == "sym":
            # unread fields keep the identity of the source
            self.mode, self.name = "sym", o.name
        else:
            self.mode = o.mode


class Arr(Container):
    kind = "arr"

    def __init__(self, ty, n, name, mode, interp):
        Container.__init__(self, name, mode, interp)
        self.ty, self.n = ty, n

    def elem_type(self, key):
        return self.ty

    def copy_from(self, o):
        self.slots = {k: clone(v) for k, v in o.slots.items()}
        self.mode = o.mode
        if o.mode == "sym":
            self.name = o.name


def clone(v):
    if isinstance(v, Struct):
        s = Struct(v.rec, v.name, v.mode, v.interp)
        s.copy_from(v)
        return s
    if isinstance(v, Arr):
        s = Arr(v.ty, v.n, v.name, v.mode, v.interp)
        s.copy_from(v)
        return s
    return v


class FrameC(Container):
    kind = "frame"

    def elem_type(self, key):
        return self.types[key]


class PathEnd(Exception):
    """The analysed code stopped: error(), abort(), exit(), ..."""

    def __init__(self, how, msg=None, node=None):
        Exception.__init__(self, how, msg)
        self.how, self.msg, self.node = how, msg, node


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Goto(Exception):
    def __init__(self, label):
        self.label = label


INTW = {"int": 32, "char": 8, "signed char": 8, "short": 16, "long": 64,
        "long long": 64, "bool": 1, "_Bool": 1}
UINTW = {"unsigned int": 32, "unsigned char": 8, "unsigned short": 16,
         "unsigned long": 64, "unsigned long long": 64, "size_t": 64,
         "unsigned": 32, "uint32_t": 32, "uint8_t": 8, "intptr_t": 64}


class Interp:
    def __init__(self, tu, summaries=None, unroll=200, depth=60, steps=400000):
        self.tu = tu
        self.summaries = dict(BUILTINS)
        if summaries:
            self.summaries.update(summaries)
        self.unroll = unroll
        self.maxdepth = depth
        self.maxsteps = steps
        self._tcache = {}
        self.loop_hook = None
        self.branch_hook = None
        self.global_mode = "zero"
        self.inlined = set()
        self.reset()

    def reset(self):
        self.gvars = FrameC("G", "zero", self)
        self.gvars.types = {}
        self.frames = []
        self.strs = {}
        self.steps = 0
        self.heap = 0
        self.effects = []

    # ---- types -----------------------------------------------------------
    def ptype(self, q):
        t = self._tcache.get(q)
        if t is None:
            t = self._tcache[q] = self._ptype(q)
        return t

    def _ptype(self, q):
        q = q.strip()
        q = re.sub(r"\b(const|volatile|restrict|__restrict|static|register)\b", "", q).strip()
        m = re.match(r"^(.*?)\(\*+\s*(\[\d*\])?\)\s*\((.*)\)$", q)
        if m:
            t = ("ptr", ("fn",))
            if m.group(2):
                return ("arr", t, int(m.group(2)[1:-1] or 0))
            return t
        m = re.match(r"^(.*?)\s*\[(\d*)\]((\[\d*\])*)$", q)
        if m:
            return ("arr", self.ptype(m.group(1) + m.group(3)),
                    int(m.group(2)) if m.group(2) else None)
        if q.endswith("*"):
            return ("ptr", self.ptype(q[:-1]))
        if q.endswith(")"):
            return ("fn",)
        if q == "void":
            return ("void",)
        if q in INTW:
            return ("int", INTW[q], True)
        if q in UINTW:
            return ("int", UINTW[q], False)
        if q.startswith("enum ") or q in self.tu.enums and q not in self.tu.record_by_name:
            return ("int", 32, True, q)
        r = self.tu.record(q)
        if r is not None:
            return ("rec", r.id)
        td = self.tu.typedefs.get(q)
        if td:
            if td[0] != q:
                return self.ptype(td[0])
        if q.startswith("struct "):
            return ("opaque", q)
        if q in ("FILE", "_IO_FILE"):
            return ("opaque", q)
        return ("opaque", q)

    def sizeof(self, t):
        k = t[0]
        if k == "int":
            return max(1, t[1] // 8)
        if k == "ptr":
            return 8
        if k == "arr":
            return self.sizeof(t[1]) * (t[2] or 0)
        if k == "rec":
            r = self.tu.records[t[1]]
            z = r.x.get("_size")
            if z is not None:
                return z
            off = al = 0
            for f in r.inner:
                if f.kind != "FieldDecl":
                    continue
                ft = self.ptype(f.dtype if "(" in (f.dtype or "") else f.type)
                a = self.alignof(ft)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(ft)
            r.x["_size"] = (off + al - 1) // al * al if al else 0
            return r.x["_size"]
        return 1

    def alignof(self, t):
        if t[0] == "arr":
            return self.alignof(t[1])
        if t[0] == "rec":
            r = self.tu.records[t[1]]
            return max([self.alignof(self.ptype(f.type)) for f in r.inner
                        if f.kind == "FieldDecl"] or [1])
        return self.sizeof(t)

    def field_type(self, rec, name):
        t = rec.x.get("_fields")
        if t is None:
            t = rec.x["_fields"] = {f.name: self.ptype(f.type) for f in rec.inner
                                    if f.kind == "FieldDecl"}
        if name not in t:
            raise AnalysisError("no field %s in %s" % (name, rec.name))
        return t[name]

    def default(self, ty, name, mode):
        k = ty[0]
        if k == "rec":
            return Struct(self.tu.records[ty[1]], name, mode, self)
        if k == "arr":
            return Arr(ty[1], ty[2], name, mode, self)
        if mode == "zero":
            return 0
        if mode == "undef":
            return UNDEF
        if k == "int":
            return self.sym_int(ty, name)
        if k == "ptr":
            return LazyPtr(self, name, ty[1])
        return var(name)

    def sym_int(self, ty, name):
        w = ty[1]
        if w == 1:
            return var(name, 0, 1)
        if len(ty) > 3:
            cs = self.tu.enums.get(ty[3]) or self.tu.enums.get(ty[3].replace("enum ", ""))
            if cs:
                vals = [self.tu.enum[c] for c in cs]
                return var(name, min(vals), max(vals))
        if w < 32:
            return var(name, -(1 << (w - 1)), (1 << (w - 1)) - 1) if ty[2] \
                else var(name, 0, (1 << w) - 1)
        return var(name)

    # ---- objects -----------------------------------------------------------
    def new(self, tname, name, mode="sym"):
        """A standalone object; returns a pointer to it."""
        a = Arr(self.ptype(tname), 1, name, mode, self)
        return Ptr(a, 0)

    def obj(self, p):
        """The container a pointer designates."""
        if isinstance(p, LazyPtr):
            p = p.deref()
        if isinstance(p, int) and p == 0:
            raise PathEnd("nullderef")
        if not isinstance(p, Ptr):
            raise AnalysisError("dereference of %r" % (p,))
        return p.obj.get(p.key)

    def string(self, s):
        a = self.strs.get(s)
        if a is None:
            a = Arr(("int", 8, True), len(s) + 1, "str:%r" % s, "zero", self)
            for i, c in enumerate(s):
                a.slots[i] = ord(c)
            a.slots[len(s)] = 0
            a.text = s
            self.strs[s] = a
        return Ptr(a, 0)

    def cstr(self, v):
        """Python text of a constant C string, or None."""
        if not isinstance(v, Ptr) or not isinstance(v.obj, Arr):
            return None
        out = []
        i = v.key
        if not isinstance(i, int):
            return None
        while True:
            c = v.obj.slots.get(i)
            if c is None:
                if v.obj.mode == "zero":
                    c = 0
                else:
                    return None
            if not isinstance(c, int):
                return None
            if c == 0:
                return "".join(out)
            out.append(chr(c & 255))
            i += 1

    def glob(self, name):
        """Container/key of a global variable."""
        d = self.tu.globals.get(name)
        if d is None:
            raise AnalysisError("anchor global '%s' not found" % name)
        return self._gslot(d)

    def _gslot(self, d):
        k = d.name
        if k not in self.gvars.types:
            ty = self.ptype(d.type)
            self.gvars.types[k] = ty
            if "init" in d.x and d.inner:
                init = next((c for c in d.inner if c.kind != "FullComment"), None)
                if init is not None:
                    if init.kind == "InitListExpr" or ty[0] in ("rec", "arr"):
                        self.gvars.slots[k] = self.default(ty, k, "zero")
                        self._init_into(self.gvars, k, ty, init)
                    else:
                        self.gvars.slots[k] = self.ev(init)
            if k not in self.gvars.slots:
                self.gvars.slots[k] = self.default(ty, k, self.global_mode)
        return self.gvars, k

    def gget(self, name):
        c, k = self.glob(name)
        return c.get(k)

    def gset(self, name, v):
        c, k = self.glob(name)
        c.set(k, v)

    # ---- calls -------------------------------------------------------------
    def call(self, name, args, node=None):
        s = self.summaries.get(name)
        if s is not None:
            return s(self, args, node)
        f = self.tu.functions.get(name)
        if f is None:
            raise AnalysisError("call to '%s' (%s) has no body and no summary"
                                % (name, node.where if node else "?"))
        return self.run_body(f, args)

    def run_body(self, f, args):
        if len(self.frames) > self.maxdepth:
            raise AnalysisError("inlining depth exceeded in %s" % f.name)
        self.inlined.add(f.name)
        self.steps += 1
        if self.steps > self.maxsteps:
            raise AnalysisError("step bound exceeded in %s" % f.name)
        fr = FrameC("%s#%d" % (f.name, len(self.frames)), "undef", self)
        ps = f.x.get("_params")
        if ps is None:
            ps = f.x["_params"] = [(p.id, self.ptype(p.type)) for p in f.inner
                                   if p.kind == "ParmVarDecl"]
        fr.types = types = {}
        fr.fn = f.name
        for (i, t), a in zip(ps, args):
            types[i] = t
            fr.slots[i] = a
        self.frames.append(fr)
        try:
            self.st(f.inner[-1])
        except _Return as r:
            return r.v
        finally:
            self.frames.pop()
        return UNDEF

    # ---- statements ----------------------------------------------------------
    def st(self, n):
        try:
            f = n.cs
        except AttributeError:
            f = fast.sx(self, n)
        f(self)

    def s_DeclStmt(self, n):
        for d in n.inner:
            if d.kind == "VarDecl":
                fr = self.frames[-1]
                ty = self.ptype(d.type)
                if d.x.get("storageClass") == "static":
                    self.gvars.types.setdefault(d.name, ty)
                fr.types[d.id] = ty
                fr.slots[d.id] = self.default(ty, "%s.%s" % (fr.name, d.name), "undef")
                if "init" in d.x:
                    init = [c for c in d.inner][-1]
                    self._init_into(fr, d.id, ty, init)

    def _init_into(self, cont, key, ty, init):
        if init.kind == "InitListExpr":
            if ty[0] == "arr":
                a = Arr(ty[1], ty[2], getattr(cont, "name", "") + ".init", "zero", self)
                cont.set(key, a)
                elems = [c for c in init.inner if c.kind != "ImplicitValueInitExpr"]
                for i, c in enumerate(elems):
                    self._init_into(a, i, ty[1], c)
            elif ty[0] == "rec":
                rec = self.tu.records[ty[1]]
                s = Struct(rec, getattr(cont, "name", "") + ".init", "zero", self)
                cont.set(key, s)
                fields = [f for f in rec.inner if f.kind == "FieldDecl"]
                for f, c in zip(fields, init.inner):
                    if c.kind != "ImplicitValueInitExpr":
                        self._init_into(s, f.name, self.ptype(f.type), c)
            else:
                cont.set(key, self.ev(init.inner[0]) if init.inner else 0)
            return
        if ty[0] == "arr" and init.kind == "StringLiteral":
            a = clone(self.ev_lv(init)[0].get(self.ev_lv(init)[1])) if False else None
            src = self.string(_unquote(init.value)).obj
            a = Arr(ty[1], ty[2], cont.name + ".str", "zero", self)
            a.slots = dict(src.slots)
            cont.set(key, a)
            return
        v = self.ev(init)
        if isinstance(v, (Struct, Arr)):
            v = clone(v)
        cont.set(key, v)

    def truth(self, e):
        try:
            f = e.ct
        except AttributeError:
            f = fast.tx(self, e)
        return f(self)

    def tv(self, v, e=None):
        if isinstance(v, (Ptr, Fn)):
            return True
        if isinstance(v, LazyPtr):
            return not v.is_null()
        if isinstance(v, Undef):
            raise PathEnd("undef-branch", e.where if e else None, e)
        lab = None
        if e is not None and not isinstance(v, int):
            lab = "%s:%s" % (e.where, v)
        return P().truth(v, lab)

    def s_WhileStmt(self, n):
        cond, body = n.inner[-2], n.inner[-1]
        self.loop(n, None, cond, None, body)

    def s_ForStmt(self, n):
        init, _, cond, inc, body = n.inner
        if init.kind != "Null":
            self.st(init)
        self.loop(n, init, cond if cond.kind != "Null" else None,
                  inc if inc.kind != "Null" else None, body)

    def s_DoStmt(self, n):
        body, cond = n.inner
        self.loop(n, None, cond, None, body, post=True)

    def loop(self, n, init, cond, inc, body, post=False):
        if self.loop_hook is not None:
            r = self.loop_hook(self, n, init, cond, inc, body, post)
            if r:
                return
        t = fast.tx(self, cond) if cond is not None else None
        g = fast.sx(self, body)
        h = fast.cx(self, inc) if inc is not None else None
        i = 0
        while True:
            if t is not None and not (post and i == 0) and not t(self):
                return
            i += 1
            if i > self.unroll:
                raise AnalysisError("loop at %s exceeds the unrolling bound" % n.where)
            self.steps += 1
            if self.steps > self.maxsteps:
                raise AnalysisError("step bound exceeded at %s" % n.where)
            try:
                g(self)
            except _Break:
                return
            except _Continue:
                pass
            if h is not None:
                h(self)

    def s_SwitchStmt(self, n):
        v = self.ev(n.inner[0])
        body = n.inner[-1]
        flat = self._flat(body)
        target = None
        default = None
        for i, (lab, s) in enumerate(flat):
            for l in lab:
                if l == "default":
                    default = i
                elif target is None:
                    if type(v) is int:
                        if v == l:
                            target = i
                    elif self.tv(eq(v, l) if not isinstance(v, Undef) else v):
                        target = i
            if target is not None:
                break
        if target is None:
            # a default may sit after the break-out point
            for i, (lab, s) in enumerate(flat):
                if "default" in lab:
                    default = i
            target = default
        if target is None:
            return
        try:
            for lab, s in flat[target:]:
                if s is not None:
                    self.st(s)
        except _Break:
            return

    def _flat(self, body):
        c = body.x.get("_flat")
        if c is not None:
            return c
        out = []

        def add_stmt(s, labs):
            if s.kind == "CaseStmt":
                val = self.const(s.inner[0])
                labs = labs + [val]
                if len(s.inner) > 2:        # GNU range
                    raise AnalysisError("case range at %s" % s.where)
                return add_stmt(s.inner[-1], labs)
            if s.kind == "DefaultStmt":
                return add_stmt(s.inner[-1], labs + ["default"])
            out.append((labs, s))
        stmts = body.inner if body.kind == "CompoundStmt" else [body]
        for s in stmts:
            add_stmt(s, [])
        body.x["_flat"] = out
        return out

    def const(self, e):
        for m in e.walk():
            if m.kind == "ConstantExpr" and m.value is not None:
                return int(m.value)
        v = self.ev(e)
        if not isinstance(v, int):
            raise AnalysisError("case label is not constant at %s" % e.where)
        return v

    # ---- expressions ---------------------------------------------------------
    def ev(self, n):
        try:
            f = n.cx
        except AttributeError:
            f = fast.cx(self, n)
        return f(self)

    def e_PredefinedExpr(self, n):
        return self.string("fn")

    def e_ImplicitValueInitExpr(self, n):
        return 0

    def ev_lv(self, n):
        try:
            f = n.cl
        except AttributeError:
            f = fast.lx(self, n)
        return f(self)

    def lvalue(self, n):
        k = n.kind
        if k == "DeclRefExpr":
            fr = self.frames[-1] if self.frames else None
            if fr is not None and n.ref in fr.types:
                return fr, n.ref
            d = self.tu.globals.get(n.refname)
            if d is not None and d.kind == "VarDecl":
                return self._gslot(d)
            # static local or outer-scope variable of an active frame
            for f2 in reversed(self.frames):
                if n.ref in f2.types:
                    return f2, n.ref
            raise AnalysisError("unresolved variable %s at %s" % (n.refname, n.where))
        if k == "CompoundLiteralExpr":
            fr = self.frames[-1]
            ty = self.ptype(n.type)
            fr.types[n.id] = ty
            fr.slots[n.id] = self.default(ty, "lit", "zero")
            self._init_into(fr, n.id, ty, n.inner[0])
            return fr, n.id
        if k == "StringLiteral":
            p = self.string(_unquote(n.value))
            h = Arr(("arr", ("int", 8, True), None), 1, "strh", "zero", self)
            h.slots[0] = p.obj
            return h, 0
        raise AnalysisError("lvalue kind %s at %s" % (k, n.where))

    def deref(self, p, n):
        """the place a pointer value refers to"""
        if isinstance(p, LazyPtr):
            p = p.deref()
        if isinstance(p, int) and p == 0:
            raise PathEnd("nullderef", n.where, n)
        if isinstance(p, Undef):
            raise PathEnd("undef-deref", n.where, n)
        if not isinstance(p, Ptr):
            raise AnalysisError("deref of %r at %s" % (p, n.where))
        return p.obj, p.key

    def arrow(self, p, n):
        """the structure p of p->name"""
        if isinstance(p, Struct):
            return p
        c, k = self.deref(p, n)
        s = c.get(k)
        if not isinstance(s, Struct):
            raise AnalysisError("member access on %r at %s" % (s, n.where))
        return s

    def _lvget(self, n):
        c, k = self.ev_lv(n)
        return c.get(k)

    def e_CompoundLiteralExpr(self, n):
        return self._lvget(n)

    def e_InitListExpr(self, n):
        raise AnalysisError("initializer list at %s" % n.where)

    def padd(self, b, i, n):
        if isinstance(b, Arr):
            b = Ptr(b, 0)
        if isinstance(b, LazyPtr):
            b = b.deref()
        if isinstance(b, int) and b == 0:
            raise PathEnd("nullderef", n.where, n)
        if isinstance(b, Undef) or isinstance(i, Undef):
            raise PathEnd("undef-deref", n.where, n)
        if not isinstance(b, Ptr):
            raise AnalysisError("pointer arithmetic on %r at %s" % (b, n.where))
        if i == 0 if isinstance(i, int) else False:
            return b
        key = b.key
        if isinstance(key, str):
            raise AnalysisError("pointer arithmetic on a member at %s" % n.where)
        return Ptr(b.obj, P().simp(add(key, i)))

    def convert(self, v, ck, n):
        if ck in ("IntegralCast",):
            return self.icast(v, self.ptype(n.dtype or n.type))
        if ck in ("NullToPointer",):
            return 0
        if ck in ("PointerToBoolean", "IntegralToBoolean"):
            if isinstance(v, (Ptr, Fn)):
                return 1
            if isinstance(v, LazyPtr):
                return 0 if v.is_null() else 1
            if isinstance(v, Undef):
                return v
            return ne(v, 0)
        if ck == "BitCast" and isinstance(v, Ptr) and getattr(v.obj, "heap", False) \
                and v.obj.ty[0] in ("opaque", "void") and not v.obj.slots:
            t = self.ptype(n.dtype or n.type)
            if t[0] == "ptr" and t[1][0] != "void":
                v.obj.ty = t[1]
                if isinstance(v.obj.bytes, int):
                    v.obj.n = v.obj.bytes // max(1, self.sizeof(t[1]))
        return v

    def icast(self, v, ty):
        if not isinstance(v, (int, Lin)) or ty[0] != "int":
            return v
        w, signed = ty[1], ty[2]
        if w >= 64:
            return v
        if w == 1:
            return ne(v, 0)
        if w == 32:
            if isinstance(v, int):
                return wrap(v)
            return v
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if isinstance(v, int):
            v &= (1 << w) - 1
            return v - (1 << w) if signed and v >> (w - 1) else v
        l, h = P().range(v)
        if lo <= l and h <= hi:
            return v
        b = bits(v)[:w]
        return from_bits(b + [b[-1] if signed else 0] * (32 - w))

    def width(self, n):
        t = self.ptype(n.dtype or n.type)
        return t[1] if t[0] == "int" else 64

    def step(self, old, d, ty, n):
        if isinstance(old, (Ptr, LazyPtr)):
            return self.padd(old, d, n)
        if isinstance(old, Undef):
            raise PathEnd("undef-use", n.where, n)
        return self.icast(add(old, d), ty)

    def unop(self, o, v, n):
        if o == "!":
            if isinstance(v, (Ptr, Fn)):
                return 0
            if isinstance(v, LazyPtr):
                return 1 if v.is_null() else 0
            if isinstance(v, Undef):
                raise PathEnd("undef-use", n.where, n)
            return lnot(v)
        if isinstance(v, Undef):
            raise PathEnd("undef-use", n.where, n)
        if o == "-":
            return neg(v)
        if o == "~":
            return bnot(v)
        if o == "+":
            return v
        raise AnalysisError("unary %s at %s" % (o, n.where))

    def store(self, c, k, v, n):
        if isinstance(v, (Struct, Arr)):
            t = c.get(k)
            if isinstance(t, Container):
                t.copy_from(v)
                return
            v = clone(v)
        c.set(k, v)

    def binop(self, o, x, y, n):
        if isinstance(x, Undef) or isinstance(y, Undef):
            raise PathEnd("undef-use", n.where, n)
        px = isinstance(x, (Ptr, LazyPtr, Fn, Arr))
        py = isinstance(y, (Ptr, LazyPtr, Fn, Arr))
        if px or py:
            return self.pbinop(o, x, y, n)
        try:
            f = BIN[o]
        except KeyError:
            raise AnalysisError("operator %s at %s" % (o, n.where))
        if o in (">>",) and not self.ptype(n.inner[0].dtype or n.inner[0].type)[2]:
            return lshr(x, y)
        return f(x, y)

    def pbinop(self, o, x, y, n):
        if o in ("+", "-") and not (isinstance(x, (Ptr, LazyPtr, Arr)) and
                                    isinstance(y, (Ptr, LazyPtr, Arr))):
            if isinstance(y, (Ptr, LazyPtr, Arr)):
                x, y = y, x
            return self.padd(x, y if o == "+" else neg(y), n)
        if o == "-":
            x = x.deref() if isinstance(x, LazyPtr) else x
            y = y.deref() if isinstance(y, LazyPtr) else y
            if x.obj is y.obj:
                return sub(x.key, y.key)
            raise AnalysisError("difference of unrelated pointers at %s" % n.where)
        if o in ("==", "!="):
            r = self.peq(x, y)
            return int(r) if o == "==" else int(not r)
        if o in ("<", ">", "<=", ">="):
            x = x.deref() if isinstance(x, LazyPtr) else x
            y = y.deref() if isinstance(y, LazyPtr) else y
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj:
                return BIN[o](x.key, y.key)
        raise AnalysisError("pointer operator %s at %s" % (o, n.where))

    def peq(self, x, y):
        if isinstance(x, Arr):
            x = Ptr(x, 0)
        if isinstance(y, Arr):
            y = Ptr(y, 0)
        if isinstance(x, int) or isinstance(y, int):
            if isinstance(x, int):
                x, y = y, x
            if y != 0:
                return False
            if isinstance(x, LazyPtr):
                return x.is_null()
            return False
        if isinstance(x, LazyPtr) or isinstance(y, LazyPtr):
            if x is y:
                return True
            a, b = (x, y) if isinstance(x, LazyPtr) else (y, x)
            if a.target is not None and isinstance(b, Ptr):
                return a.target == b
            # may two unknown pointers alias?  decided once per pair
            key = "%s==%s" % tuple(sorted((repr(a), repr(b))))
            st = self.__dict__.setdefault("_alias", {})
            pk = (id(P()), key)
            if pk not in st:
                st[pk] = P().choose(2, key) == 0
                if st[pk]:
                    if isinstance(b, Ptr):
                        a.nonnull, a.target = True, b
            return st[pk]
        return x == y

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.name == "sizeof" or True:
            at = n.x.get("argType")
            if at:
                return self.sizeof(self.ptype(at.get("desugaredQualType") or at["qualType"]))
            t = self.ptype(n.inner[0].dtype or n.inner[0].type)
            return self.sizeof(t)

    def e_StmtExpr(self, n):
        self.st(n.inner[0])
        return 0


BIN = {"+": add, "-": sub, "*": mul, "/": div, "%": mod, "<<": shl, ">>": shr,
       "&": band, "|": bor, "^": bxor, "<": lt, "<=": le,
       ">": lambda a, b: lt(b, a), ">=": lambda a, b: le(b, a), "==": eq, "!=": ne}


def _unquote(s):
    """clang prints the literal with its quotes and escapes."""
    i = s.index('"')
    body = s[i + 1:s.rindex('"')]
    out = []
    j = 0
    esc = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f",
           "v": "\v", "\\": "\\", '"': '"', "'": "'", "?": "?", "e": "\x1b"}
    while j < len(body):
        c = body[j]
        if c != "\\":
            out.append(c)
            j += 1
            continue
        d = body[j + 1]
        if d in esc:
            out.append(esc[d])
            j += 2
        elif d == "x":
            k = j + 2
            while k < len(body) and body[k] in "0123456789abcdefABCDEF":
                k += 1
            out.append(chr(int(body[j + 2:k], 16)))
            j = k
        elif d in "01234567":
            k = j + 1
            while k < len(body) and k < j + 4 and body[k] in "01234567":
                k += 1
            out.append(chr(int(body[j + 1:k], 8)))
            j = k
        else:
            out.append(d)
            j += 2
    return "".join(out)


fast.install(globals())


# ------------------------------------------------------- library summaries

def _end(how):
    def f(ip, args, node):
        msg = ip.cstr(args[0]) if args else None
        raise PathEnd(how, msg, node)
    return f


def _nop(ip, args, node):
    return 0


def _strcmp(ip, args, node):
    a, b = ip.cstr(args[0]), ip.cstr(args[1])
    if a is not None and b is not None:
        return 0 if a == b else (1 if a > b else -1)
    na = args[0].obj.name if isinstance(args[0], Ptr) else repr(args[0])
    nb = args[1].obj.name if isinstance(args[1], Ptr) else repr(args[1])
    x, y = sorted((repr(a) if a is not None else na, repr(b) if b is not None else nb))
    if x == y:
        return 0
    return var("strcmp<%s,%s>" % (x, y), -1, 1)


def _strlen(ip, args, node):
    s = ip.cstr(args[0])
    if s is not None:
        return len(s)
    return var("strlen<%s>" % args[0].obj.name, 0, 1 << 20)


def _strcpy(ip, args, node):
    d, s = args[0], args[1]
    if isinstance(d, LazyPtr):
        d = d.deref()
    if isinstance(s, LazyPtr):
        s = s.deref()
    t = ip.cstr(s)
    if t is not None and isinstance(d.key, int):
        for i, c in enumerate(t):
            d.obj.set(d.key + i, ord(c))
        d.obj.set(d.key + len(t), 0)
    elif d.key == 0 and s.key == 0:
        d.obj.copy_from(s.obj)
    return d


def _memcpy(ip, args, node):
    d, s = args[0], args[1]
    if isinstance(d, LazyPtr):
        d = d.deref()
    if isinstance(s, LazyPtr):
        s = s.deref()
    sv = s.obj.get(s.key)
    if isinstance(sv, Container):
        dv = d.obj.get(d.key)
        dv.copy_from(sv)
    elif isinstance(args[2], int) and isinstance(s.key, int) and isinstance(d.key, int):
        for i in range(args[2]):
            d.obj.set(d.key + i, s.obj.get(s.key + i))
    else:
        raise AnalysisError("memcpy at %s not modelled" % node.where)
    return d


def _alloc(mode):
    def f(ip, args, node):
        n = args[0] if len(args) == 1 else mul(args[0], args[1])
        return HeapPtr(ip, mode, P().simp(n) if not isinstance(n, Undef) else None)
    return f


def arena_alloc(ip, args, node):
    """allocation from a zero-initialised arena (see arena check)"""
    return HeapPtr(ip, "zero", args[1] if isinstance(args[1], int) else None)


def HeapPtr(ip, mode, nbytes=None):
    """A fresh heap object; its element type is fixed by the first pointer
    conversion (see Interp.convert)."""
    ip.heap += 1
    a = Arr(("opaque", "void"), None, "heap%d" % ip.heap, mode, ip)
    a.heap = True
    a.bytes = nbytes
    return Ptr(a, 0)


BUILTINS = {
    "error": _end("error"), "abort": _end("abort"), "exit": _end("exit"),
    "printf": _nop, "fputs": _nop, "puts": _nop, "putchar": _nop,
    "strcmp": _strcmp, "strlen": _strlen, "strcpy": _strcpy, "memcpy": _memcpy,
    "malloc": _alloc("undef"), "calloc": _alloc("zero"), "free": _nop,
    "__assert_fail": _end("abort"),
}

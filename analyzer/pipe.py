"""From the parsed unit to allocated code: SSA construction, optimisation,
register allocation and peephole are interpreted, and after each of them the
code of a function is given meaning over the same symbolic inputs."""
from absint import PathEnd, Ptr
from dom import P, Lin, add, sub, var
from front import ARITH, BadCFG, bid, ptr
from unit import Unit, addr, arith, fnaddr, value

STAGES = ("ssa_build", "optimize", "liveness_analysis", "reg_alloc", "peephole")


class Cut(Exception):
    """the reference path ends here; what follows is not compared"""


class Undefined(Exception):
    """the program uses a value C leaves undefined"""


class Decide:
    """truth values along one path"""

    def __init__(self, limit, script=()):
        self.known, self.order, self.script, self.limit = {}, [], list(script), limit

    def __call__(self, v, extend):
        v = P().simp(v) if not isinstance(v, tuple) else v
        if isinstance(v, int):
            return v != 0
        k = repr(v)
        if "undef_" in k:
            raise Undefined(k)
        if k not in self.known:
            if not extend or len(self.order) >= self.limit:
                raise Cut()
            n = len(self.order)
            self.order.append(k)
            self.known[k] = self.script[n] if n < len(self.script) else True
        return self.known[k]


class World:
    """Memory, globals and the observable trace, shared by all levels"""

    def __init__(self):
        self.trace, self.ver, self.glob, self.calls = [], 0, {}, 0
        self.cells, self.taken = {}, []

    def event(self, *e):
        self.trace.append(e)

    def touch(self):
        self.ver += 1
        self.glob = {}
        for n in self.taken:
            self.cells[n] = var("cell_%s@%d" % (n, self.ver))

    def expose(self):
        """locals whose address is known have their value in memory"""
        if self.taken:
            self.event("memory", {n: self.cells.get(n) for n in self.taken})

    def gread(self, n):
        return self.glob.setdefault(n, var("val_%s@%d" % (n, self.ver)))

    def gset(self, n, v):
        self.event("set", n, v)
        self.ver += 1
        self.glob[n] = v

    def read(self, a, size):
        a = P().simp(a) if not isinstance(a, tuple) else a
        c = ["%s=%r" % (n, P().simp(self.cells.get(n, var("undef_" + n))))
             for n in sorted(self.taken)]
        return var("mem%s[%r]@%d%s" % (size, a, self.ver, "{%s}" % ",".join(c) if c else ""))

    def write(self, a, size, v):
        self.expose()
        self.event("write", a, size, v)
        self.touch()

    def call(self, who, args):
        self.expose()
        self.event("call", who, args)
        self.calls += 1
        self.touch()
        return var("ret%d" % self.calls)


class Pipe(Unit):
    def prepare(self, text):
        """parse; returns a message if the compiler stops"""
        return self.parse([text])

    def stage(self, name):
        try:
            self.ip.call(name, [0] if name == "ssa_build" else [])
        except PathEnd as e:
            return "%s %s" % (e.how, e.msg or "")
        return None

    # names ---------------------------------------------------------------
    def text_at(self, p):
        return self.ip.cstr(p)

    def var_name(self, v):
        return self.text_at(Ptr(self.ip.obj(v).get("var_name"), 0)) or "?"

    def base(self, v):
        while True:
            b = ptr(self.ip.obj(v).get("base"))
            if not isinstance(b, Ptr) or bid(b) == bid(v):
                return v
            v = b

    def insns(self, bb, what="insn_list"):
        p = ptr(self.ip.obj(bb).get(what).get("head"))
        out = []
        while isinstance(p, Ptr):
            o = self.ip.obj(p)
            out.append(o)
            p = ptr(o.get("next"))
            if len(out) > 2000:
                raise BadCFG("instruction list does not end")
        return out

    def params(self, fname):
        f = self.function(fname)
        n = P().simp(f.get("num_params"))
        return [self.var_name(Ptr(f.get("param_defs"), i)) for i in range(n)]


class Level1:
    """three-address code, before or after SSA"""

    def __init__(self, u, names, cells=None):
        self.u, self.ip, self.names, self.cells = u, u.ip, names, cells

    def unique(self, v):
        b = self.u.base(v)
        k = bid(b)
        if k not in self.names:
            n = self.u.var_name(b)
            same = sum(1 for x in self.names.values() if x.split("'")[0] == n)
            self.names[k] = n + "'" * same
        return self.names[k]

    def glob(self, v):
        return P().simp(self.ip.obj(v).get("is_global")) == 1

    def cell(self, v):
        """name of a scalar local whose address the function takes"""
        if self.cells is None or self.glob(v):
            return None
        n = self.unique(v)
        return n if n in self.cells else None

    def scalar(self, ty):
        """not a structure, by any of its names"""
        if ty in ("int", "char", "_Bool"):
            return True
        t = ptr(self.ip.call("find_type", [self.ip.string(ty), 0]))
        return isinstance(t, Ptr) and P().simp(self.ip.obj(t).get("num_fields")) == 0

    def find_cells(self, fname):
        """scalar locals and parameters an address is taken of"""
        u, ip = self.u, self.ip
        self.cells = set()
        todo, seen = [u.entry_of(fname)[0]], set()
        while todo:
            bb = todo.pop()
            if not isinstance(bb, Ptr) or bid(bb) in seen:
                continue
            seen.add(bid(bb))
            for o in u.insns(bb):
                if u.ops.get(P().simp(o.get("opcode"))) == "OP_address_of":
                    v = ptr(o.get("rs1"))
                    w = ip.obj(v)
                    ty = ip.cstr(Ptr(w.get("type_name"), 0))
                    if not self.glob(v) and P().simp(w.get("array_size")) == 0 and (
                            P().simp(w.get("is_ptr")) or self.scalar(ty)):
                        self.cells.add(self.unique(v))
            o = ip.obj(bb)
            todo += [ptr(o.get(f)) for f in ("next", "then_", "else_")]

    def val(self, v):
        v = ptr(v)
        if not isinstance(v, Ptr):
            raise BadCFG("an operand is missing")
        o = self.ip.obj(v)
        if P().simp(o.get("array_size")) != 0:
            return addr(self.unique(v))
        if self.glob(v):
            return self.w.gread(self.unique(v))
        n = self.cell(v)
        if n:
            return self.w.cells.setdefault(n, var("undef_" + n))
        k = bid(v)
        if k not in self.env:
            self.env[k] = var("undef_" + self.unique(v))
        return self.env[k]

    def put(self, rd, v):
        rd = ptr(rd)
        if not isinstance(rd, Ptr):
            raise BadCFG("a result has no destination")
        if self.glob(rd):
            self.w.gset(self.unique(rd), v)
        elif self.cell(rd):
            self.w.cells[self.cell(rd)] = v
        else:
            self.env[bid(rd)] = v

    def param(self, i, p):
        return self.u.var_name(p)

    def run(self, fname, decide, extend, maxblocks=60):
        u = self.u
        self.w, self.env, self.pushed = World(), {}, []
        f = u.function(fname)
        for i in range(P().simp(f.get("num_params"))):
            p = Ptr(f.get("param_defs"), i)
            n = self.param(i, p)
            self.env[bid(p)] = value(n)
            self.names.setdefault(bid(p), n)
            if self.cell(p):
                self.w.cells[n] = value(n)
            s = ptr(self.ip.obj(p).get("subscripts").get(0))
            if isinstance(s, Ptr):
                self.env[bid(s)] = value(n)
        bb, end = u.entry_of(fname)
        n = 0
        try:
            while True:
                t = self.block(bb)
                if t and t[0] == "ret":
                    self.w.event("return", t[1])
                    return self.w.trace, True
                o = self.ip.obj(bb)
                if t is None:
                    nxt = ptr(o.get("next"))
                    if not isinstance(nxt, Ptr) or bid(nxt) == bid(end):
                        self.w.event("return", None)
                        return self.w.trace, True
                else:
                    nxt = ptr(o.get("then_" if decide(t[1], extend) else "else_"))
                if not isinstance(nxt, Ptr):
                    raise BadCFG("a block has no successor")
                bb = nxt
                n += 1
                if n > maxblocks:
                    raise Cut()
        except Cut:
            return self.w.trace, False

    def block(self, bb):
        u, w = self.u, self.w
        term = None
        for o in u.insns(bb):
            if term:
                raise BadCFG("instruction after the end of its block")
            op = u.ops.get(P().simp(o.get("opcode")), "?")
            rd, r1, r2 = o.get("rd"), o.get("rs1"), o.get("rs2")
            if op == "OP_branch":
                term = ("br", self.val(r1))
            elif op == "OP_return":
                term = ("ret", self.val(r1) if isinstance(ptr(r1), Ptr) else None)
            elif op == "OP_load_constant":
                self.put(rd, P().simp(self.ip.obj(rd).get("init_val")))
            elif op == "OP_load_data_address":
                self.put(rd, add(var("data"), self.ip.obj(rd).get("init_val")))
            elif op in ("OP_assign", "OP_unwound_phi"):
                self.put(rd, self.val(r1))
            elif op in ARITH:
                self.put(rd, arith(op, self.val(r1), self.val(r2)))
            elif op in ("OP_negate", "OP_bit_not", "OP_log_not"):
                self.put(rd, arith(op, self.val(r1), 0))
            elif op == "OP_address_of":
                n = self.unique(ptr(r1))
                if n in self.cells and n not in w.taken:
                    w.taken.append(n)
                self.put(rd, addr(n))
            elif op == "OP_read":
                self.put(rd, w.read(self.val(r1), P().simp(o.get("sz"))))
            elif op == "OP_write":
                a, v = self.val(r1), ptr(r2)
                if isinstance(v, Ptr) and P().simp(self.ip.obj(v).get("is_func")) == 1:
                    v = fnaddr(u.var_name(v))
                else:
                    v = self.val(v)
                w.write(a, P().simp(o.get("sz")), v)
            elif op == "OP_allocat":
                v = ptr(rd)
                self.unique(v)
            elif op == "OP_push":
                self.pushed.append(self.val(r1))
            elif op in ("OP_call", "OP_indirect"):
                who = self.u.text_at(Ptr(o.get("str"), 0)) if op == "OP_call" else self.val(r1)
                self.ret = w.call(who, tuple(self.pushed))
                self.pushed = []
            elif op == "OP_func_ret":
                self.put(rd, self.ret)
            else:
                raise BadCFG("unexpected %s" % op)
        return term


class FrameWorld(World):
    """the cells are slots of the frame"""

    def __init__(self, l2):
        World.__init__(self)
        self.cells = Cells(l2)


class Cells:
    def __init__(self, l2):
        self.l2 = l2
        self.at = {n: lo for lo, hi, n, v in l2.frame}

    def get(self, n, default=None):
        return self.l2.slot(self.at[n]) if n in self.at else default

    def __setitem__(self, n, v):
        if n in self.at:
            self.l2.slots[self.at[n]] = v


class Level2:
    """allocated code: registers, stack slots, the global area"""

    def __init__(self, u, fname, names, cells):
        self.u, self.ip, self.names, self.fname = u, u.ip, names, fname
        self.cells = cells
        self.l1 = Level1(u, names, cells)
        self.layout()

    def layout(self):
        """extents of the objects that live in the frame or the global area"""
        u, ip = self.u, self.ip
        self.frame, self.glob = [], []
        ptrsz = 4

        def extent(v, kind):
            o = ip.obj(v)
            off = P().simp(o.get("offset"))
            arr, isp = P().simp(o.get("array_size")), P().simp(o.get("is_ptr"))
            ty = ip.cstr(Ptr(o.get("type_name"), 0))
            size = 4
            if not isp:
                t = ip.call("find_type", [ip.string(ty), 0])
                if isinstance(ptr(t), Ptr):
                    size = P().simp(ip.obj(t).get("size")) or 4
            n = self.l1.unique(v)
            if arr:
                return (off, off + ptrsz, "slot " + n, v), (off + ptrsz, off + ptrsz + arr * size, n, v)
            return (off, off + max(size, 4), n, v),
        bb, _ = u.entry_of(self.fname)
        seen = set()
        while isinstance(bb, Ptr):
            for o in u.insns(bb):
                op = u.ops.get(P().simp(o.get("opcode")), "?")
                v = ptr(o.get("rd")) if op == "OP_allocat" else \
                    ptr(o.get("rs1")) if op == "OP_address_of" else None
                if not isinstance(v, Ptr) or bid(v) in seen or self.l1.glob(v):
                    continue
                seen.add(bid(v))
                if P().simp(ip.obj(v).get("offset")) != 0:
                    self.frame.extend(extent(v, 0))
            bb = ptr(ip.obj(bb).get("rpo_next"))
        g = ip.obj(ptr(ip.gget("BLOCKS").get("head")))
        for i in range(P().simp(g.get("next_local"))):
            self.glob.extend(extent(Ptr(g.get("locals"), i), 1))
        self.stack_size = P().simp(u.function(self.fname).get("stack_size"))

    def overlap(self):
        for what, ext in (("frame", self.frame), ("global area", self.glob)):
            uniq = {}
            for lo, hi, n, v in ext:
                if n in uniq and uniq[n][:2] != (lo, hi):
                    return "%s lies at two places in the %s" % (n, what)
                uniq[n] = (lo, hi)
            e = sorted((lo, hi, n) for n, (lo, hi) in uniq.items())
            for (a, b, n), (c, d, m) in zip(e, e[1:]):
                if c < b:
                    return "%s and %s overlap in the %s" % (n, m, what)
            if e and what == "frame" and e[-1][1] > self.stack_size:
                return "%s lies outside the frame" % e[-1][2]
        return None

    def address(self, ext, k, area):
        for lo, hi, n, v in ext:
            if lo <= k < hi:
                if n.startswith("slot "):
                    raise BadCFG("takes the address of the slot of array %s" % n[5:])
                if area == "frame" and n in self.cells and n not in self.w.taken:
                    self.w.taken.append(n)
                return add(addr(n), k - lo)
        return add(var("junk_" + area), k)

    def run(self, decide, maxblocks=80):
        u, ip = self.u, self.ip
        self.w = FrameWorld(self)
        self.regs = {i: value(p) for i, p in enumerate(u.params(self.fname))}
        self.slots, self.born = {}, {}
        self.fnreg = None
        bb, end = u.entry_of(self.fname)
        n = 0
        try:
            while True:
                t = self.block(bb)
                if t and t[0] == "ret":
                    self.w.event("return", t[1])
                    return self.w.trace, True
                if t is None:
                    nxt = ptr(ip.obj(bb).get("rpo_next"))
                elif t[0] == "jump":
                    nxt = ptr(t[1])
                else:
                    nxt = ptr(t[2] if decide(t[1], False) else t[3])
                if not isinstance(nxt, Ptr):
                    raise BadCFG("control runs off the end of the function")
                bb = nxt
                n += 1
                if n > maxblocks:
                    raise Cut()
        except Cut:
            return self.w.trace, False

    def r(self, i):
        i = P().simp(i)
        return self.regs.get(i, var("junk_r%d" % i))

    def slot(self, k):
        if k in self.slots:
            return self.slots[k]
        for lo, hi, n, v in self.frame:
            if lo <= k < hi:
                if n.startswith("slot "):
                    return var("junk_slot")
                if hi - lo == 4 and k == lo:
                    return var("undef_" + n)
        return var("junk_slot%d" % k)

    def gslot(self, k):
        for lo, hi, n, v in self.glob:
            if k == lo:
                if n.startswith("slot "):
                    return addr(n[5:])
                return self.w.gread(n)
        return var("junk_global")

    def block(self, bb):
        u, w = self.u, self.w
        for o in u.insns(bb, "ph2_ir_list"):
            op = u.ops.get(P().simp(o.get("op")), "?")
            s0, s1, d = (P().simp(o.get(f)) for f in ("src0", "src1", "dest"))
            R = self.regs
            if op == "OP_load_constant":
                R[d] = s0
            elif op == "OP_load_data_address":
                R[d] = add(var("data"), s0)
            elif op == "OP_address_of":
                R[d] = self.address(self.frame, s0, "frame")
                for lo, hi, n, v in self.frame:
                    if s0 == lo + 4 and hi - lo > 4:    # its declaration is reached
                        self.born[n] = len(w.trace)
            elif op == "OP_global_address_of":
                R[d] = self.address(self.glob, s0, "global")
            elif op == "OP_load":
                self.inside(s0)
                R[d] = self.slot(s0)
            elif op == "OP_store":
                self.inside(s1)
                for lo, hi, n, v in self.frame:
                    if lo <= s1 < hi and not n.startswith("slot ") and (hi - lo > 4 or s1 != lo):
                        self.clobber(n)
                self.slots[s1] = self.r(s0)
            elif op == "OP_global_load":
                R[d] = self.gslot(s0)
            elif op == "OP_global_store":
                for lo, hi, n, v in self.glob:
                    if s1 == lo and not n.startswith("slot "):
                        w.gset(n, self.r(s0))
                        break
                else:
                    raise BadCFG("stores outside any global object")
            elif op == "OP_assign":
                R[d] = self.r(s0)
            elif op in ("OP_negate", "OP_bit_not", "OP_log_not"):
                R[d] = arith(op, self.r(s0), 0)
            elif op in ARITH:
                R[d] = arith(op, self.r(s0), self.r(s1))
            elif op == "OP_read":
                R[d] = w.read(self.r(s0), s1)
            elif op == "OP_write":
                w.write(self.r(s0), d, self.r(s1))
            elif op == "OP_address_of_func":
                w.write(self.r(s0), 4, fnaddr(self.ip.cstr(Ptr(o.get("func_name"), 0))))
            elif op == "OP_load_func":
                self.fnreg = self.r(s0)
            elif op in ("OP_call", "OP_indirect"):
                who = self.ip.cstr(Ptr(o.get("func_name"), 0)) if op == "OP_call" else self.fnreg
                ret = w.call(who, tuple(self.r(i) for i in range(8)))
                self.regs = {i: var("junk_call_r%d" % i) for i in range(8)}
                self.regs[0] = ret
                self.fnreg = None
            elif op == "OP_branch":
                return ("br", self.r(s0), o.get("then_bb"), o.get("else_bb"))
            elif op == "OP_jump":
                return ("jump", o.get("next_bb"))
            elif op == "OP_return":
                return ("ret", None if s0 == -1 else self.r(s0))
            else:
                raise BadCFG("unexpected %s" % op)
        return None

    def inside(self, off):
        if not 4 <= off <= self.stack_size - 4:
            raise BadCFG("uses offset %s of a frame of %s bytes" % (off, self.stack_size))

    def clobber(self, n):
        a = repr(addr(n))
        for e in self.w.trace[self.born.get(n, 0):]:
            if a in repr(e):
                raise BadCFG("a register is saved inside object %s" % n)


def agree(want, got, full):
    """None, or the first difference; `full`: both paths reached their end"""
    for i, e in enumerate(want):
        if e[0] == "memory":
            if i < len(got) and got[i][0] == "memory" and set(e[1]) == set(got[i][1]):
                for n, v in e[1].items():
                    if v is not None and "undef_" not in repr(v) and not equal(v, got[i][1][n]):
                        return "%s has %r in memory where the program has %r" % (
                            n, got[i][1][n], v)
                continue
            return "addresses differ"
        if "undef_" in repr(e):
            return None
        if i >= len(got):
            return "does not do %s" % show(e) if full else None
        g = got[i]
        if e[0] == "call" and g[0] == "call":
            g = (g[0], g[1], g[2][:len(e[2])])
        if not equal(e, g):
            return "does %s where the program does %s" % (show(g), show(e))
    if full and len(got) > len(want):
        return "also does %s" % show(got[len(want)])
    return None


def equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return repr(P().simp(a)) == repr(P().simp(b))
    return a == b


def show(e):
    if e[0] == "memory":
        return "access memory"
    if e[0] == "set":
        return "%s = %r" % (e[1], e[2])
    if e[0] == "write":
        return "mem%s[%r] = %r" % (e[2], e[1], e[3])
    if e[0] == "call":
        return "%s%r" % (e[1], tuple(e[2]))
    return "return %r" % (e[1],)


def paths(u, l1, fname, limit):
    """(Decide, trace, ended) of every path of the reference level"""
    out, script = [], []
    while True:
        d = Decide(limit, script)
        try:
            tr, full = l1.run(fname, d, True)
            out.append((d, tr, full))
        except Undefined:
            pass
        taken = [d.known[k] for k in d.order]
        while taken and not taken[-1]:
            taken.pop()
        if not taken:
            return out
        taken[-1] = False
        script = taken
        if len(out) > 400:
            return out


def validate(text, fname="f", limit=6, back=True, maxsteps=20000000):
    """(parsed, findings): findings is a list of (stage, message)

    The front half (ssa_build, optimize) is compared with the code the parser
    built, the back half (reg_alloc, peephole) with the optimised code."""
    from dom import explore
    res, parsed = [], [True]

    def compare(run, ps, order=True):
        for d, tr, full in ps:
            try:
                got, gf = run(d)
                m = agree(tr, got, full and gf)
                if m is None and full and not gf:
                    m = "does not end"
            except Undefined:
                m = "decides on an undefined value"
            except BadCFG as e:
                m = str(e)
            if m:
                return m + ("" if not d.order else " (when %s)" % ", ".join(
                    ("%s" if d.known[k] else "not %s") % k for k in d.order[:3]))
        return None

    def run():
        u = Pipe()
        u.ip.maxsteps = maxsteps
        if u.prepare(text):
            parsed[0] = False
            return []
        names = {}
        l1 = Level1(u, names)
        l1.find_cells(fname)
        ps = paths(u, l1, fname, limit)
        for st in STAGES:
            msg = u.stage(st)
            if msg:
                return [(st, "the compiler stops (%s)" % msg)]
            if st in ("ssa_build", "optimize"):
                l = Level1(u, names, l1.cells)
                m = compare(lambda d: l.run(fname, d, False), ps)
                if m:
                    return [(st, m)]
                if st == "optimize":
                    if not back:
                        return []
                    ps = [(d,) + l.run(fname, d, False) for d, _, _ in ps]
            elif st in ("reg_alloc", "peephole"):
                l2 = Level2(u, fname, names, l1.cells)
                m = l2.overlap() or compare(l2.run, ps)
                if m:
                    return [(st, m)]
        return []
    for _, r in explore(run):
        res += r
    return parsed[0], res

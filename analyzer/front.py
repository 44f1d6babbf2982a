"""Abstract parsing: the parser's functions are interpreted on a token stream
whose tokens are unknown until a comparison refines them, and the control-flow
graph they build is given meaning."""
from absint import (Container, HeapPtr, Interp, LazyPtr, PathEnd, Ptr, Struct, arena_alloc,
                    clone)
from cast import AnalysisError, load
from dom import (P, Lin, add, atom_of, band, bnot, bor, bxor, div, eq, le, lnot, lt, mod, mul, ne,
                 neg, shl, shr, sub, var)

EVENT = 5000


def enumval(tu, name):
    if name not in tu.enum:
        raise AnalysisError("anchor enumerator %s not found" % name)
    return tu.enum[name]


class Front:
    def __init__(self, arch="arm", summaries=None, extra=None):
        self.tu = load(arch)
        s = {"arena_alloc": arena_alloc, "lex_token_internal": self._lex,
             "lex_token": self._lex, "gen_name": self._gen, "gen_label": self._gen,
             "sprintf": lambda ip, a, n: 0, "bb_create": self._bb_create}
        self.bb_model = None
        s.update(summaries or {})
        self.ip = Interp(self.tu, s)
        kinds = [k for k in self.tu.enum if k.startswith("T_")]
        self.kinds = {k: self.tu.enum[k] for k in kinds}
        self.kname = {v: k for k, v in self.kinds.items()}
        self.ops = {self.tu.enum[k]: k for k in self.tu.enum if k.startswith("OP_")}

    # ------------------------------------------------------------ tokens
    def start(self, supply):
        """supply(i) gives the i-th token: a kind name, (kind name, text), a set
        of kind names (unknown among them), or None for end of stream"""
        ip = self.ip
        ip.reset()
        self.supply, self.toks, self.ng = supply, [], 0
        self.events = []
        self.fn = ip.new("fn_t", "fn", "zero")
        self.func = ip.new("func_t", "func", "zero")
        ip.obj(self.func).set("fn", self.fn)
        ip.obj(self.fn).set("func", self.func)
        self.parent = ip.new("block_t", "blk", "zero")
        ip.obj(self.parent).set("func", self.func)
        self.entry = self.bb()
        self.exit = self.bb()
        ip.obj(self.fn).set("exit", self.exit)
        ip.obj(self.fn).set("bbs", self.entry)
        from absint import Arr
        for g, t in (("PH1_IR", "ph1_ir_t"), ("GLOBAL_IR", "ph1_ir_t")):
            ip.gset(g, Ptr(Arr(ip.ptype(t), None, g, "zero", ip), 0))
        ip.gset("next_token", self._next())

    def bb(self):
        return self.ip.call("bb_create", [self.parent])

    def fn_of(self, parent):
        return self.fn

    def _bb_create(self, ip, args, node):
        """bb_create; its effect is copied from the first interpreted call when
        that call only wrote the block it returned"""
        fn = ip.tu.functions.get("bb_create")
        if fn is None:
            raise AnalysisError("anchor bb_create not found")
        own = self.fn_of(args[0])
        if self.bb_model is None:
            Container.wlog = log = (set(), [])
            heap = ip.heap
            try:
                r = ip.run_body(fn, args)
            finally:
                Container.wlog = None
            pure = isinstance(r, Ptr) and r.key == 0 and ip.heap == heap + 1 and \
                set(r.obj.slots) == {0} and all(id(c) in log[0] for c in log[1])
            if pure:
                o = ip.obj(r)
                refs = {}
                for k, v in o.slots.items():
                    if isinstance(v, Ptr):
                        if v.obj is args[0].obj and v.key == args[0].key:
                            refs[k] = 0
                        elif isinstance(own, Ptr) and v.obj is own.obj and v.key == own.key:
                            refs[k] = 1
                        else:
                            pure = False
            self.bb_model = (r.obj.ty, clone(o), refs) if pure else False
            return r
        if self.bb_model is False:
            return ip.run_body(fn, args)
        ty, model, refs = self.bb_model
        r = HeapPtr(ip, "zero")
        r.obj.ty = ty
        o = clone(model)
        for k, w in refs.items():
            o.slots[k] = own if w else args[0]
        r.obj.slots[0] = o
        return r

    def _gen(self, ip, args, node):
        self.ng += 1
        return ip.string(".g%d" % self.ng)

    def _next(self):
        i = len(self.toks)
        t = self.supply(i)
        text = None
        if isinstance(t, tuple):
            t, text = t
        if t is None:
            t = "T_eof"
        if isinstance(t, str):
            k = enumval(self.tu, t)
        else:
            ks = sorted(enumval(self.tu, x) for x in t)
            k = var("tok%d" % i, ks[0], ks[-1])
            for v in range(ks[0], ks[-1] + 1):
                if v not in ks:
                    P().assume(ne(k, v))
            k = P().simp(k)
        text = text if text is not None else "t%d" % i
        self.toks.append((k, text))
        c = self.ip.gget("token_str")
        c.slots = {j: ord(ch) for j, ch in enumerate(text)}
        c.slots[len(text)] = 0
        return k

    def _lex(self, ip, args, node):
        return self._next()

    def advance(self):
        self.ip.gset("next_token", self._next())

    def kind(self, i):
        """name of the i-th token as refined on this path"""
        k = P().simp(self.toks[i][0])
        return self.kname.get(k) if isinstance(k, int) else None

    def unread(self):
        return len(self.toks) - 1          # index of next_token

    # ------------------------------------------------------------ pseudo IR
    def event(self, bb, label, rd=0, rs1=0):
        self.events.append(label)
        self.ip.call("add_insn", [self.parent, bb, EVENT, rd, rs1, 0,
                                  len(self.events) - 1, 0])

    def value(self, name):
        v = self.ip.new("var_t", name, "zero")
        self.ip.obj(v).set("var_name", self.ip.string(name).obj)
        return v

    def opaque_expr(self, pbb, label, move):
        """an expression nobody knows: evaluated, maybe in a new block"""
        ip = self.ip
        bb = pbb.obj.get(pbb.key)
        v = self.value("v_%s" % label)
        self.event(bb, label, v)
        if move:
            n = self.bb()
            ip.call("bb_connect", [bb, n, self.tu.enum["NEXT"]])
            pbb.obj.set(pbb.key, n)
        ip.call("opstack_push", [v])
        return v


def bid(p):
    return (id(p.obj), p.key) if isinstance(p, Ptr) else None


def ptr(p):
    if isinstance(p, LazyPtr):
        return p.deref() if not p.is_null() else 0
    return p


ARITH = {"OP_add": add, "OP_sub": sub, "OP_mul": mul, "OP_div": div, "OP_mod": mod,
         "OP_lshift": shl, "OP_rshift": shr, "OP_bit_or": bor, "OP_bit_and": band,
         "OP_bit_xor": bxor, "OP_eq": eq, "OP_neq": ne, "OP_lt": lt, "OP_leq": le,
         "OP_gt": lambda a, b: lt(b, a), "OP_geq": lambda a, b: le(b, a),
         "OP_log_and": lambda a, b: band(ne(a, 0), ne(b, 0)),
         "OP_log_or": lambda a, b: bor(ne(a, 0), ne(b, 0))}
UNARY = {"OP_negate": neg, "OP_bit_not": bnot, "OP_log_not": lnot}
FORM = {}


class BadCFG(Exception):
    pass


class Eval:
    """Symbolic reading of the block graph.  `form(op, args)` builds values."""

    def __init__(self, fr, form=None, fresh=None, initial=None):
        self.fr, self.ip = fr, fr.ip
        self.env = {}
        self.form = form or (lambda op, a: (op,) + tuple(a))
        self.fresh = fresh or (lambda label: ("ev", label))
        self.initial = initial or (lambda v: ("init", self.name(v)))
        self.trace = []

    def name(self, v):
        return self.ip.cstr(Ptr(self.ip.obj(v).get("var_name"), 0)) or "?"

    def val(self, v):
        v = ptr(v)
        if not isinstance(v, Ptr):
            raise BadCFG("operand is missing")
        k = bid(v)
        if k not in self.env:
            self.env[k] = self.initial(v)
        return self.env[k]

    def insns(self, bb):
        p = ptr(self.ip.obj(bb).get("insn_list").get("head"))
        out, n = [], 0
        while isinstance(p, Ptr):
            o = self.ip.obj(p)
            out.append(o)
            p = ptr(o.get("next"))
            n += 1
            if n > 500:
                raise BadCFG("instruction list does not end")
        return out

    def block(self, bb):
        """execute a block; returns ('br', value) | ('ret', value|None) | None"""
        term = None
        for o in self.insns(bb):
            if term:
                raise BadCFG("instruction after the end of its block")
            op = P().simp(o.get("opcode"))
            rd = ptr(o.get("rd"))
            if op == EVENT:
                lab = self.fr.events[o.get("sz")]
                r1 = ptr(o.get("rs1"))
                self.trace.append((lab, self.val(r1)) if isinstance(r1, Ptr) else lab)
                if isinstance(rd, Ptr):
                    self.env[bid(rd)] = self.fresh(lab)
                continue
            name = self.fr.ops.get(op, "op %s" % (op,))
            if name == "OP_branch":
                term = ("br", self.val(o.get("rs1")))
            elif name == "OP_return":
                r = ptr(o.get("rs1"))
                term = ("ret", self.val(r) if isinstance(r, Ptr) else None)
            elif name in ("OP_load_constant",):
                self.env[bid(rd)] = self.form("const", [self.ip.obj(rd).get("init_val")])
            elif name == "OP_assign":
                v = self.val(o.get("rs1"))
                self.env[bid(rd)] = v
                if self.name(rd)[:2] not in (".g",):
                    self.trace.append(("set", self.name(rd), v))
            elif name in ARITH or name in UNARY:
                args = [self.val(o.get("rs1"))]
                if name in ARITH:
                    args.append(self.val(o.get("rs2")))
                self.env[bid(rd)] = self.form(name, args)
            elif name == "OP_allocat":
                self.trace.append(("decl", self.name(rd)))
            else:
                raise BadCFG("unexpected %s" % name)
        return term

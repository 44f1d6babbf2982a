"""Whole translation units parsed abstractly: the real parser, from
parse_internal on, reads generated declarations and code; the intermediate code
of each function is given meaning over a symbolic memory."""
import re

from absint import Arr, PathEnd, Ptr, _alloc
from cast import AnalysisError
from dom import P, Lin, add, mul, neg, sub, var
from front import ARITH, EVENT, UNARY, BadCFG, Front, bid, ptr

PUNCT = {"(": "open_bracket", ")": "close_bracket", "{": "open_curly", "}": "close_curly",
         "[": "open_square", "]": "close_square", "*": "asterisk", "/": "divide", "%": "mod",
         "|": "bit_or", "||": "log_or", "&&": "log_and", "!": "log_not", "~": "bit_not",
         "^": "bit_xor", "<": "lt", ">": "gt", "<=": "le", ">=": "ge", "<<": "lshift",
         ">>": "rshift", ".": "dot", "->": "arrow", "+": "plus", "-": "minus",
         "-=": "minuseq", "+=": "pluseq", "*=": "asteriskeq", "/=": "divideeq", "%=": "modeq",
         "<<=": "lshifteq", ">>=": "rshifteq", "|=": "oreq", "^=": "xoreq", "&=": "andeq",
         "==": "eq", "!=": "noteq", "=": "assign", "++": "increment", "--": "decrement",
         "?": "question", ":": "colon", ";": "semicolon", ",": "comma", "&": "ampersand",
         "...": "elipsis"}
WORDS = ("return", "if", "else", "while", "for", "do", "typedef", "enum", "struct", "sizeof",
         "switch", "case", "break", "default", "continue")
LEX = re.compile(r'\s*("[^"]*"|\'.\'|[A-Za-z_]\w*|\d\w*|' +
                 "|".join(re.escape(p) for p in sorted(PUNCT, key=lambda p: -len(p))) + ")")


def tokens(text):
    text = text.strip()
    i = 0
    while i < len(text):
        m = LEX.match(text, i)
        if not m:
            raise ValueError("cannot tokenise %r" % text[i:])
        i = m.end()
        w = m.group(1)
        if w[0] == '"':
            yield ("T_string", w[1:-1])
        elif w[0] == "'":
            yield ("T_char", w[1:-1])
        elif w in PUNCT:
            yield ("T_" + PUNCT[w], w)
        elif w in WORDS:
            yield ("T_" + w, w)
        elif w[0].isdigit():
            yield ("T_numeric", w)
        else:
            yield ("T_identifier", w)


class Unit(Front):
    def __init__(self, arch="arm", summaries=None):
        self.maps = {}
        s = {"hashmap_create": self._hnew, "hashmap_put": self._hput,
             "hashmap_get": self._hget, "hashmap_contains": self._hhas,
             "arena_init": lambda ip, a, n: 0, "create_source": self._source,
             "elf_add_symbol": lambda ip, a, n: 0, "elf_write_data_str": self._data,
             # fresh pages from the system are zero; shecc relies on it
             "malloc": _alloc("zero")}
        s.update(summaries or {})
        Front.__init__(self, arch, s)
        for f in ("parse_internal", "global_init"):
            if f not in self.tu.functions:
                raise AnalysisError("anchor %s not found" % f)

    def fn_of(self, parent):
        f = ptr(self.ip.obj(parent).get("func"))
        return ptr(self.ip.obj(f).get("fn")) if isinstance(f, Ptr) else None

    # exact models -------------------------------------------------------
    def _hnew(self, ip, a, n):
        p = ip.new("hashmap_t", "map", "zero")
        self.maps[bid(p)] = (p, {})
        return p

    def _hput(self, ip, a, n):
        self.maps[bid(a[0])][1].setdefault(ip.cstr(a[1]), a[2])
        return 0

    def _hget(self, ip, a, n):
        return self.maps[bid(a[0])][1].get(ip.cstr(a[1]), 0)

    def _hhas(self, ip, a, n):
        return int(ip.cstr(a[1]) in self.maps[bid(a[0])][1])

    def _source(self, ip, a, n):
        p = ip.new("source_t", "src", "zero")
        ip.obj(p).set("elements", Ptr(Arr(("int", 8, True), None, "text", "zero", ip), 0))
        return p

    def _data(self, ip, a, n):
        s, ln = ip.cstr(a[0]), P().simp(a[1])
        i = P().simp(ip.gget("elf_data_idx"))
        self.data[i] = (s, ln)
        ip.gset("elf_data_idx", i + ln)
        return 0

    # one unit -------------------------------------------------------------
    def parse(self, stream):
        """stream yields token strings; returns None or why parsing failed"""
        ip = self.ip
        ip.reset()
        self.toks, self.ng, self.events, self.data, self.maps = [], 0, [], {}, {}
        self.bb_model = None

        def tok():
            yield ("T_start", "")
            for x in stream:
                yield from tokens(x)
            while True:
                yield ("T_eof", "")
        g = tok()
        self.supply = lambda i: next(g)
        try:
            ip.call("global_init", [])
            ip.gset("next_token", self._next())
            ip.call("parse_internal", [])
        except PathEnd as e:
            return "%s %s" % (e.how, e.msg or "")
        return None

    def function(self, name):
        fn = self._hget(self.ip, [self.ip.gget("FUNCS_MAP"), self.ip.string(name)], None)
        if not isinstance(ptr(fn), Ptr):
            raise BadCFG("function %s is not defined" % name)
        return self.ip.obj(fn)

    def entry_of(self, name):
        fn = ptr(self.function(name).get("fn"))
        if not isinstance(fn, Ptr):
            raise BadCFG("function %s has no body" % name)
        o = self.ip.obj(fn)
        return ptr(o.get("bbs")), ptr(o.get("exit"))


class Memory:
    """Meaning of the intermediate code over named objects and a byte-addressed
    memory of which nothing is known."""

    def __init__(self, u, truth=None):
        self.u, self.ip = u, u.ip
        self.env = {}
        self.trace = []
        self.nwrites = 0
        self.pushed = []
        self.ncalls = 0
        self.truth = truth

    def name(self, v):
        return self.ip.cstr(Ptr(self.ip.obj(v).get("var_name"), 0)) or "?"

    def int(self, o, f):
        v = P().simp(o.get(f))
        if not isinstance(v, (int, Lin)):
            raise BadCFG("%s has no value" % f)
        return v

    def val(self, v):
        v = ptr(v)
        if not isinstance(v, Ptr):
            raise BadCFG("an operand is missing")
        k = bid(v)
        if k not in self.env:
            o = self.ip.obj(v)
            n = self.name(v)
            if n.startswith(".g"):
                raise BadCFG("a temporary is used before it is computed")
            if P().simp(o.get("is_func")) == 1 and self.is_function(n):
                raise BadCFG("the address of function %s is not computed" % n)
            elif P().simp(o.get("array_size")) != 0:
                self.env[k] = addr(n)
            else:
                self.env[k] = value(n)
        return self.env[k]

    def is_function(self, n):
        return isinstance(ptr(self.u._hget(self.ip, [self.ip.gget("FUNCS_MAP"),
                                                     self.ip.string(n)], None)), Ptr)

    def put(self, rd, v):
        rd = ptr(rd)
        if not isinstance(rd, Ptr):
            raise BadCFG("a result has no destination")
        self.env[bid(rd)] = v
        n = self.name(rd)
        if not n.startswith("."):
            self.trace.append(("set", n, v))

    def block(self, bb):
        """execute one block; ('br', value) | ('ret', value|None) | None"""
        term = None
        for o in Blocks.insns(self, bb):
            if term:
                raise BadCFG("instruction after the end of its block")
            op = self.u.ops.get(P().simp(o.get("opcode")), "?")
            rd, r1, r2 = o.get("rd"), o.get("rs1"), o.get("rs2")
            if op == "OP_branch":
                term = ("br", self.val(r1))
            elif op == "OP_return":
                term = ("ret", self.val(r1) if isinstance(ptr(r1), Ptr) else None)
            elif op == "OP_load_constant":
                self.put(rd, self.int(self.ip.obj(rd), "init_val"))
            elif op == "OP_load_data_address":
                i = self.int(self.ip.obj(rd), "init_val")
                self.put(rd, ("data", self.u.data.get(i, i)))
            elif op == "OP_assign":
                self.put(rd, self.val(r1))
            elif op in ARITH:
                self.put(rd, arith(op, self.val(r1), self.val(r2)))
            elif op in ("OP_negate", "OP_bit_not", "OP_log_not"):
                self.put(rd, arith(op, self.val(r1), 0))
            elif op == "OP_address_of":
                n = self.name(ptr(r1))
                if n.startswith(".g"):
                    raise BadCFG("takes the address of a temporary")
                # an array's own slot holds a pointer to its elements
                arr = P().simp(self.ip.obj(r1).get("array_size")) != 0
                self.put(rd, addr("slot " + n if arr else n))
            elif op == "OP_read":
                self.put(rd, read(self.val(r1), self.int(o, "sz"), self.nwrites))
            elif op == "OP_write":
                a = self.val(r1)
                v = ptr(r2)
                # only a store can materialise the address of a function
                if isinstance(v, Ptr) and P().simp(self.ip.obj(v).get("is_func")) == 1:
                    v = fnaddr(self.name(v))
                else:
                    v = self.val(v)
                self.trace.append(("write", a, self.int(o, "sz"), v))
                self.nwrites += 1
            elif op == "OP_allocat":
                self.trace.append(("decl", self.name(ptr(rd))))
            elif op == "OP_push":
                self.pushed.append(self.val(r1))
            elif op in ("OP_call", "OP_indirect"):
                who = self.ip.cstr(Ptr(o.get("str"), 0)) if op == "OP_call" else self.val(r1)
                self.trace.append(("call", who, tuple(self.pushed)))
                self.pushed = []
                self.ncalls += 1
                self.nwrites += 1
            elif op == "OP_func_ret":
                self.put(rd, var("ret%d" % self.ncalls))
            else:
                raise BadCFG("unexpected %s" % op)
        return term

    def run(self, name):
        """follow the function to its end, branches by self.truth"""
        bb, end = self.u.entry_of(name)
        n = 0
        while True:
            t = self.block(bb)
            o = self.ip.obj(bb)
            if t and t[0] == "ret":
                return t
            if t is None:
                nxt = ptr(o.get("next"))
                if bid(nxt) == bid(end) or (not isinstance(nxt, Ptr) and bid(bb) == bid(end)):
                    return None
            else:
                nxt = ptr(o.get("then_" if self.truth(t[1]) else "else_"))
            if not isinstance(nxt, Ptr):
                raise BadCFG("a block has no successor")
            bb = nxt
            n += 1
            if n > 100:
                raise BadCFG("control does not reach the end")


class Blocks:
    @staticmethod
    def insns(m, bb):
        p = ptr(m.ip.obj(bb).get("insn_list").get("head"))
        out = []
        while isinstance(p, Ptr):
            o = m.ip.obj(p)
            out.append(o)
            p = ptr(o.get("next"))
            if len(out) > 500:
                raise BadCFG("instruction list does not end")
        return out


def addr(n):
    return var("addr_" + n)


def value(n):
    return var("val_" + n)


def fnaddr(n):
    return var("fn_" + n)


def read(a, size, version):
    a = P().simp(a) if not isinstance(a, tuple) else a
    return var("mem%s[%r]@%d" % (size, a, version))


def arith(op, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return (op, a, b)
    if op == "OP_add":
        return P().simp(add(a, b))
    if op == "OP_sub":
        return P().simp(sub(a, b))
    if op == "OP_mul":
        return P().simp(mul(a, b))
    if isinstance(a, int) and isinstance(b, int) and op in ARITH:
        return P().simp(ARITH[op](a, b))
    if isinstance(a, int) and op in UNARY:
        return P().simp(UNARY[op](a))
    if op == "OP_negate":
        return P().simp(neg(a))
    return var("%s(%r,%r)" % (op, P().simp(a), P().simp(b)))

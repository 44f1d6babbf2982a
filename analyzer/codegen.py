"""Abstract emission: run the emitter of one IR operation abstractly and give
the emitted words machine semantics."""
import itertools
import os
import re

import cast
from absint import Interp, PathEnd, Ptr, Struct, Arr, Undef
from cast import AnalysisError
from dom import (P, Lin, Path, explore, var, lin, op, add, sub, mulc, neg, bits,
                 from_bits, same, eq, ne, lt, le, ltu, lnot, shl, shr, mul,
                 Infeasible, IMIN, IMAX, atom_of, bxor, bnot, band, bor, lincanon)
from machine import (DECODE, EXEC, BadWord, Halt, State, mem0)

NREG = 8


def limits():
    with open(os.path.join(cast.REPO, "src", "defs.h")) as f:
        t = f.read()
    m = re.search(r"#define\s+MAX_CODE\s+(\d+)", t)
    r = re.search(r"#define\s+REG_CNT\s+(\d+)", t)
    if not m or not r:
        raise AnalysisError("src/defs.h: MAX_CODE / REG_CNT not found")
    return int(m.group(1)), int(r.group(1))


class Target:
    def __init__(self, arch):
        self.arch = arch
        self.max_code, self.nreg = limits()
        if arch == "arm":
            self.base = 0
            self.sp, self.gp, self.lr, self.ret = 13, 12, 14, 0
            self.scratch = [8, 9, 10, 11]
            self.byte_signed = False
            self.sysno, self.args = 7, [0, 1, 2, 3, 4, 5, 6]
            self.exit_no = 1
        else:
            self.base = 10
            self.sp, self.gp, self.lr, self.ret = 2, 3, 1, 10
            self.scratch = [5, 6, 7, 28, 29, 30, 31]
            self.byte_signed = True
            self.sysno, self.args = 17, [10, 11, 12, 13, 14, 15, 16]
            self.exit_no = 93


# operand roles of each phase-2 operation: d dest register, s/t source
# registers in src0/src1, 'I0'/'I1' immediates in src0/src1
ROLES = {
    "OP_load_constant": "d I0", "OP_address_of": "d I0",
    "OP_global_address_of": "d I0", "OP_load": "d I0", "OP_global_load": "d I0",
    "OP_load_data_address": "d I0",
    "OP_assign": "d s", "OP_negate": "d s", "OP_bit_not": "d s",
    "OP_log_not": "d s", "OP_read": "d s Z1",
    "OP_add": "d s t", "OP_sub": "d s t", "OP_mul": "d s t", "OP_div": "d s t",
    "OP_mod": "d s t", "OP_lshift": "d s t", "OP_rshift": "d s t",
    "OP_bit_and": "d s t", "OP_bit_or": "d s t", "OP_bit_xor": "d s t",
    "OP_eq": "d s t", "OP_neq": "d s t", "OP_lt": "d s t", "OP_leq": "d s t",
    "OP_gt": "d s t", "OP_geq": "d s t",
    "OP_store": "s I1", "OP_global_store": "s I1", "OP_write": "s t Zd",
    "OP_branch": "s", "OP_return": "R I1", "OP_address_of_func": "s",
    "OP_load_func": "s",
    "OP_jump": "", "OP_call": "", "OP_indirect": "", "OP_define": "I0",
}
IMM_OPS = ["OP_load_constant", "OP_address_of", "OP_global_address_of", "OP_load",
           "OP_global_load", "OP_load_data_address", "OP_store", "OP_global_store",
           "OP_branch", "OP_jump", "OP_call", "OP_address_of_func", "OP_return",
           "OP_define"]


def patterns(n):
    """set partitions of n operands as index tuples"""
    out = []

    def rec(i, cur, mx):
        if i == n:
            out.append(tuple(cur))
            return
        for k in range(mx + 1):
            rec(i + 1, cur + [k], max(mx, k + 1))
    rec(0, [], 0)
    return out


class Emitter:
    """One abstract emission context."""

    def __init__(self, target):
        self.t = target
        self.tu = cast.load(target.arch)
        self.ip = Interp(self.tu, {"find_func": self._find_func})
        self.funcs = {}

    def _find_func(self, ip, args, node):
        p = args[0]
        name = ip.cstr(p) or (p.obj.name if isinstance(p, Ptr) else repr(p))
        return self.func(name)

    def func(self, name):
        if name in self.funcs:
            return self.funcs[name]
        ip = self.ip
        f = ip.new("func_t", "func<%s>" % name, "sym")
        fn = ip.new("fn_t", "fn<%s>" % name, "sym")
        bb = self.block("entry<%s>" % name)
        ip.obj(f).set("fn", fn)
        ip.obj(fn).set("bbs", bb)
        self.funcs[name] = f
        return f

    def block(self, name):
        b = self.ip.new("basic_block_t", name, "sym")
        o = var("off<%s>" % name, 0, self.t.max_code // 4 - 1)
        self.ip.obj(b).set("elf_offset", mulc(o, 4))
        return b

    def start(self, hard):
        ip = self.ip
        ip.reset()
        self.funcs = {}
        self.pc0 = mulc(var("PC", 0, self.t.max_code // 4 - 64), 4)
        arr = Arr(("int", 8, True), None, "code", "sym", ip)
        ip.gset("elf_code", Ptr(arr, 0))
        ip.gset("elf_code_idx", self.pc0)
        self.code_start = mulc(var("CODE_START", 0x1000, 0x100000), 4)
        ip.gset("elf_code_start", self.code_start)
        self.data_start = var("DATA_START", 0x10000, 0x200000)
        ip.gset("elf_data_start", self.data_start)
        if hard is not None:
            ip.gset("hard_mul_div", hard)
        self.arr = arr

    def words(self):
        idx = self.ip.gget("elf_code_idx")
        n = P().simp(sub(idx, self.pc0))
        if not isinstance(n, int) or n % 4 or n < 0:
            raise BadWord("emitted length %s is not a whole number of words" % (n,))
        out = []
        for i in range(0, n, 4):
            w = []
            for j in range(4):
                b = self.arr.get(add(self.pc0, i + j))
                w += bits(b)[:8]
            out.append(w)
        return out

    def make_ir(self, opname, regs, hook=None):
        """IR object for `opname` with operand registers `regs`."""
        ip = self.ip
        ir = ip.new("ph2_ir_t", "ir", "sym")
        o = ip.obj(ir)
        o.set("op", self.tu.enum[opname])
        o.set("is_branch_detached", var("detached", 0, 1))
        for f in ("next_bb", "then_bb", "else_bb"):
            o.set(f, self.block(f))
        roles = ROLES[opname].split()
        ri = iter(regs)
        self.imm = None
        for r in roles:
            if r == "d":
                o.set("dest", next(ri))
            elif r == "s":
                o.set("src0", next(ri))
            elif r == "t":
                o.set("src1", next(ri))
            elif r == "R":
                v = next(ri)
                if P().choose(2, "returns a value?") == 0:
                    o.set("src0", v)
                else:
                    o.set("src0", -1)
            elif r in ("I0", "I1"):
                lo = 0 if opname in ("OP_return", "OP_define") else IMIN
                hi = (1 << 28) if opname in ("OP_return", "OP_define") else IMAX
                if opname == "OP_load_data_address":
                    lo, hi = 0, 1 << 20
                self.imm = var("imm", lo, hi)
                o.set("src0" if r == "I0" else "src1", self.imm)
            elif r in ("Z1", "Zd"):
                self.size = (1, 4)[P().choose(2, "access size")]
                o.set("src1" if r == "Z1" else "dest", self.size)
        return ir


def reg_patterns(opname):
    n = sum(1 for r in ROLES[opname].split() if r in "dstR")
    return patterns(n)


def mk_regs(pat, base=0):
    """operand registers; the atoms stand for the machine registers"""
    n = limits()[1]
    out = [sub(var("R%s%d" % ("ABC"[k], base), base, base + n - 1), base) for k in pat]
    seen = []
    for r in out:
        if r not in seen:
            for s in seen:
                P().assume(ne(r, s))
            seen.append(r)
    return out


class Machine:
    def __init__(self, em, words, pc0=None):
        self.em, self.t = em, em.t
        self.dec = []
        for i, w in enumerate(words):
            try:
                self.dec.append(DECODE[em.t.arch](w))
            except BadWord as e:
                self.dec.append(e)
        self.pc0 = add(em.code_start, em.pc0) if pc0 is None else pc0
        self.st = State(self.init)
        self.ex = EXEC[em.t.arch](self.st)
        self.inits = {}

    def init(self, r):
        k = canon(r)
        if k not in self.inits:
            self.inits[k] = var("init<%s>" % k)
        return self.inits[k]

    def idx(self, pc):
        d = P().simp(lincanon(sub(pc, self.pc0)))
        if isinstance(d, int):
            if d % 4 == 0 and 0 <= d <= 4 * len(self.dec):
                return d // 4
            return None
        return None

    def at(self, i):
        d = self.dec[i]
        if isinstance(d, BadWord):
            raise d
        return d

    def block_transfer(self, i):
        """ldm/stm with an operand-dependent register list"""
        st = self.st
        regs = reglist(i.list, self.t)
        if regs is None:
            raise BadWord("register list %s not resolved" % (i.list,))
        base = st.get(i.rn)
        n = 4 * len(regs)
        lowest = base if i.up else sub(base, n)
        if bool(i.before) == bool(i.up):
            lowest = add(lowest, 4)
        if not i.up and not i.before:
            pass
        # the lowest-numbered register goes to the lowest address; with two
        # unordered symbolic registers both orders are considered
        if len(regs) == 2 and not P().truth(lt(regs[0], regs[1]), "reg order"):
            regs = [regs[1], regs[0]]
        for k, r in enumerate(regs):
            a = add(lowest, 4 * k)
            if i.m == "stm":
                st.store(a, 4, st.get(r))
            else:
                st.set(r, st.load(a, 4, False))
        if i.w:
            st.set(i.rn, add(base, n) if i.up else sub(base, n))

    def run(self, i, stop=(), limit=200):
        """execute from instruction index i; returns (index | None, pc)"""
        pc = add(self.pc0, 4 * i)
        first = True
        while True:
            k = self.idx(pc)
            if k is None:
                return None, pc
            if k == len(self.dec):
                return k, pc
            if k in stop and not first:
                return k, pc
            first = False
            limit -= 1
            if limit < 0:
                raise BadWord("loop without an analysed head")
            ins = self.at(k)
            try:
                pc = P().simp(self.ex.step(ins, pc))
            except Halt as h:
                if h.why == "block":
                    self.block_transfer(h.ins)
                    pc = add(pc, 4)
                    continue
                raise


def canon(r):
    if isinstance(r, int):
        return str(r)
    return from_bits(bits(r)).key if isinstance(from_bits(bits(r)), Lin) else str(from_bits(bits(r)))


def reglist(v, t):
    """registers named by a mask value: sum of one-hot terms"""
    v = P().simp(v)
    if isinstance(v, int):
        return [i for i in range(16) if v >> i & 1]
    found = []

    def rec(x):
        if isinstance(x, int):
            found.extend(i for i in range(16) if x >> i & 1)
            return True
        if x.c:
            found.extend(i for i in range(16) if x.c >> i & 1)
        for a, k in x.t:
            if k != 1 or a.kind != "op":
                return False
            if a.name == "<<" and a.args[0] == 1:
                if not any(same(a.args[1], f) for f in found):
                    found.append(a.args[1])
            elif a.name == "|":
                if not (rec(a.args[0]) and rec(a.args[1])):
                    return False
            elif a.name == "fieldof":
                if not rec(a.args[0]):
                    return False
            else:
                return False
        return True
    return found if rec(v) else None

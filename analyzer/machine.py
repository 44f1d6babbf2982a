"""Abstract semantics of the emitted machine words (A32 and RV32IM subsets).

A word is a 32-entry known-bit vector.  `decode_*` maps it to an instruction
whose fields are abstract values; `Exec` evaluates instructions over abstract
registers, flags and memory.  Encodings are taken from the ISA manuals
(ARM DDI 0406C; RISC-V unprivileged ISA), not from /repo.
"""
from dom import (Lin, op, add, sub, mul, shl, shr, lshr, band, bor, bxor, neg,
                 bnot, eq, ne, lt, lts, le, ltu, lnot, nez, eqz, field, sext_field,
                 from_bits, bits, same, wrap, IMIN, IMAX, P, lincanon)


class BadWord(Exception):
    pass


class Ins:
    def __init__(self, m, **f):
        self.m = m
        self.__dict__.update(f)

    def __repr__(self):
        return "%s %s" % (self.m, " ".join("%s=%s" % (k, v) for k, v in
                                           self.__dict__.items() if k != "m"))


def _ci(bs, lo, n):
    """a field that must be constant"""
    v = 0
    for i in range(n):
        b = bs[lo + i]
        if not isinstance(b, int):
            return None
        v |= b << i
    return v


DP = ["and", "eor", "sub", "rsb", "add", "adc", "sbc", "rsc",
      "tst", "teq", "cmp", "cmn", "orr", "mov", "bic", "mvn"]


def decode_arm(bs):
    c = _ci(bs, 28, 4)
    if c is None or c == 15:
        raise BadWord("condition field not a defined condition")
    hi = _ci(bs, 20, 8)
    F = lambda lo: field(bs, lo, 4)
    cls = _ci(bs, 25, 3)
    if cls == 5 and _ci(bs, 24, 1) is not None:
        return Ins("bl" if bs[24] else "b", c=c, ofs=shl(sext_field(bs[0:24]), 2))
    if hi is None:
        raise BadWord("opcode field depends on operands")
    if cls == 0:
        b74 = _ci(bs, 4, 4)
        if hi == 0x12 and b74 == 3:
            if _ci(bs, 8, 12) != 0xFFF:
                raise BadWord("blx: should-be-one bits")
            return Ins("blx", c=c, rm=F(0))
        if hi == 0 and b74 == 9:
            if _ci(bs, 12, 4) != 0:
                raise BadWord("mul: bits 15:12 not zero")
            return Ins("mul", c=c, rd=F(16), rm=F(8), rn=F(0))
        if b74 is None:
            b4 = _ci(bs, 4, 1)
            if b4 != 0:
                raise BadWord("register form not decodable")
        elif b74 & 1 and b74 & 8:
            raise BadWord("undefined data-processing form %x" % b74)
        o, s = (hi >> 1) & 15, hi & 1
        st = _ci(bs, 5, 2)
        if st is None:
            raise BadWord("shift type depends on operands")
        if _ci(bs, 4, 1):
            sh = ("reg", st, F(8))
        else:
            sh = ("imm", st, field(bs, 7, 5))
        return _dp(bs, c, o, s, ("r", F(0), sh))
    if cls == 1:
        if hi in (0x30, 0x34):
            imm = from_bits(list(bs[0:12]) + list(bs[16:20]) + [0] * 16)
            return Ins("movw" if hi == 0x30 else "movt", c=c, rd=F(12), imm=imm)
        o, s = (hi >> 1) & 15, hi & 1
        rot = _ci(bs, 8, 4)
        if rot is None:
            raise BadWord("rotation depends on operands")
        b = list(bs[0:8]) + [0] * 24
        b = [b[(i + 2 * rot) % 32] for i in range(32)]
        return _dp(bs, c, o, s, ("i", from_bits(b)))
    if cls in (2, 3):
        if cls == 3:
            if hi == 0x71 and _ci(bs, 12, 4) == 15 and _ci(bs, 4, 4) == 1:
                return Ins("sdiv", c=c, rd=F(16), rm=F(8), rn=F(0))
            raise BadWord("unsupported media instruction %02x" % hi)
        p, u, b_, w, l = [(hi >> k) & 1 for k in (4, 3, 2, 1, 0)]
        if not p or w:
            raise BadWord("transfer is not plain offset addressing")
        imm = field(bs, 0, 12)
        return Ins("ldst", c=c, l=l, size=1 if b_ else 4, rn=F(16), rd=F(12),
                   ofs=imm if u else neg(imm))
    if cls == 4:
        p, u, s_, w, l = [(hi >> k) & 1 for k in (4, 3, 2, 1, 0)]
        if s_:
            raise BadWord("ldm/stm with S")
        return Ins("ldm" if l else "stm", c=c, before=p, up=u, w=w, rn=F(16),
                   list=field(bs, 0, 16))
    if cls == 7 and hi & 16:
        return Ins("svc", c=c, imm=field(bs, 0, 24))
    raise BadWord("undefined instruction class")


def _dp(bs, c, o, s, op2):
    m = DP[o]
    if m in ("tst", "teq", "cmp", "cmn"):
        if not s:
            raise BadWord("%s without S is a different instruction" % m)
        if _ci(bs, 12, 4) != 0:
            raise BadWord("%s: Rd field not zero" % m)
    if m in ("mov", "mvn") and _ci(bs, 16, 4) != 0:
        raise BadWord("%s: Rn field not zero" % m)
    return Ins("dp", c=c, o=m, s=s, rn=field(bs, 16, 4), rd=field(bs, 12, 4), op2=op2)


def decode_riscv(bs):
    opc = _ci(bs, 0, 7)
    if opc is None:
        raise BadWord("opcode field depends on operands")
    f3 = _ci(bs, 12, 3)
    rd, rs1, rs2 = field(bs, 7, 5), field(bs, 15, 5), field(bs, 20, 5)
    immI = sext_field(bs[20:32])
    if opc in (0x37, 0x17):
        return Ins("lui" if opc == 0x37 else "auipc", rd=rd,
                   imm=from_bits([0] * 12 + list(bs[12:32])))
    if opc == 0x6F:
        im = [0] + list(bs[21:31]) + [bs[20]] + list(bs[12:20]) + [bs[31]]
        return Ins("jal", rd=rd, ofs=sext_field(im))
    if f3 is None:
        raise BadWord("funct3 depends on operands")
    if opc == 0x67 and f3 == 0:
        return Ins("jalr", rd=rd, rs1=rs1, imm=immI)
    if opc == 0x63 and f3 in (0, 1, 4, 5, 6, 7):
        im = [0] + list(bs[8:12]) + list(bs[25:31]) + [bs[7]] + [bs[31]]
        return Ins({0: "beq", 1: "bne", 4: "blt", 5: "bge", 6: "bltu",
                    7: "bgeu"}[f3], rs1=rs1, rs2=rs2, ofs=sext_field(im))
    if opc == 0x03 and f3 in (0, 1, 2, 4, 5):
        return Ins("load", size={0: 1, 1: 2, 2: 4, 4: 1, 5: 2}[f3],
                   sign=f3 < 4, rd=rd, rs1=rs1, imm=immI)
    if opc == 0x23 and f3 in (0, 1, 2):
        return Ins("store", size=1 << f3, rs1=rs1, rs2=rs2,
                   imm=sext_field(list(bs[7:12]) + list(bs[25:32])))
    if opc == 0x13:
        if f3 in (1, 5):
            f7 = _ci(bs, 25, 7)
            if f7 == 0:
                return Ins("slli" if f3 == 1 else "srli", rd=rd, rs1=rs1, imm=rs2)
            if f7 == 0x20 and f3 == 5:
                return Ins("srai", rd=rd, rs1=rs1, imm=rs2)
            raise BadWord("shift-immediate with funct7=%s" % f7)
        return Ins({0: "addi", 2: "slti", 3: "sltiu", 4: "xori", 6: "ori",
                    7: "andi"}[f3], rd=rd, rs1=rs1, imm=immI)
    if opc == 0x33:
        f7 = _ci(bs, 25, 7)
        t = {(0, 0): "add", (0x20, 0): "sub", (0, 1): "sll", (0, 2): "slt",
             (0, 3): "sltu", (0, 4): "xor", (0, 5): "srl", (0x20, 5): "sra",
             (0, 6): "or", (0, 7): "and", (1, 0): "mul", (1, 1): "mulh",
             (1, 2): "mulhsu", (1, 3): "mulhu", (1, 4): "div", (1, 5): "divu",
             (1, 6): "rem", (1, 7): "remu"}.get((f7, f3))
        if t:
            return Ins(t, rd=rd, rs1=rs1, rs2=rs2)
        raise BadWord("undefined R-type funct7=%s funct3=%s" % (f7, f3))
    if opc == 0x73 and f3 == 0 and rd == 0 and rs1 == 0:
        if immI == 0:
            return Ins("ecall")
        if immI == 1:
            return Ins("ebreak")
    raise BadWord("undefined opcode %02x/%s" % (opc, f3))


# ------------------------------------------------------------------ execution

class Halt(Exception):
    def __init__(self, why, **kw):
        Exception.__init__(self, why)
        self.why = why
        self.__dict__.update(kw)


class State:
    def __init__(self, init):
        self.init = init            # key -> initial value factory
        self.regs = []              # [(regvalue, value)]
        self.writes = []            # [(addr, size, value)]
        self.reads = []
        self.flags = None
        self.read_regs = []
        self.undefined_reads = []
        self.defined = []

    def _find(self, r):
        for i in range(len(self.regs) - 1, -1, -1):
            q = self.regs[i][0]
            if same(q, r):
                return i
            if isinstance(q, int) and isinstance(r, int):
                continue
            if P().truth(eq(q, r), "regs %s==%s" % (q, r)):
                return i
        return None

    def get(self, r):
        i = self._find(r)
        if i is None:
            v = self.init(r)
            self.regs.append((r, v))
            return v
        return self.regs[i][1]

    def set(self, r, v):
        i = self._find(r)
        if i is None:
            self.init(r)
            self.regs.append((r, v))
        else:
            self.regs[i] = (self.regs[i][0], v)

    def load(self, addr, size, signed):
        for a, s, v in reversed(self.writes):
            if same(a, addr):
                if s == size:
                    return v if size == 4 else _narrow(v, size, signed)
                return op("mem%d" % size, addr, *[w for w in ()])
            d = P().simp(lincanon(sub(a, addr)))
            if isinstance(d, int) and (d >= size or -d >= s):
                continue
            if not isinstance(d, int):
                lo, hi = P().mrange(d)
                if lo >= size or hi <= -s:
                    continue
            return op("mem%d_after" % size, addr, v)
        self.reads.append((addr, size))
        return mem0(addr, size, signed)

    def store(self, addr, size, v):
        self.writes.append((addr, size, v))


def mem0(addr, size, signed):
    if size == 4:
        return op("mem4", addr)
    v = op("mem%d" % size, addr, lo=0, hi=(1 << (8 * size)) - 1)
    return _narrow(v, size, signed)


def _narrow(v, size, signed):
    b = bits(v)[:8 * size]
    return from_bits(b + [b[-1] if signed else 0] * (32 - 8 * size))


def arm_cond(st, c):
    """abstract truth value of an ARM condition"""
    f = st.flags
    if c == 14:
        return 1
    if f is None:
        raise BadWord("condition used before flags are set")
    if f[0] == "cmp":
        a, b = f[1], f[2]
        return {0: eq(a, b), 1: ne(a, b), 2: lnot(ltu(a, b)), 3: ltu(a, b),
                8: ltu(b, a), 9: lnot(ltu(b, a)),
                10: lnot(lts(a, b)), 11: lts(a, b), 12: lts(b, a),
                13: lnot(lts(b, a))}[c]
    if f[0] == "res":            # N,Z from result, C known or None
        r, cy = f[1], f[2]
        if c == 0:
            return eq(r, 0)
        if c == 1:
            return ne(r, 0)
        if c in (2, 3) and cy is not None:
            return cy if c == 2 else lnot(cy)
    raise BadWord("condition %d not determined by the last flag setting" % c)


def _shift(kind, v, n, is_reg):
    """ARM shifter; kind 0 lsl 1 lsr 2 asr 3 ror"""
    if is_reg:
        return op({0: "<<", 1: ">>>", 2: ">>"}[kind], v, n) if kind < 3 else op("ror", v, n)
    if isinstance(n, int):
        if kind == 0:
            return shl(v, n)
        if kind == 1:
            return lshr(v, n) if n else 0
        if kind == 2:
            return shr(v, n if n else 31)
    raise BadWord("shift amount depends on operands")


class ArmExec:
    PC = 15

    def __init__(self, st):
        self.st = st

    def step(self, i, pc):
        """execute instruction i at abstract address pc; returns next pc"""
        st = self.st
        nxt = add(pc, 4)
        if not P().truth(arm_cond(st, i.c), "cond%d" % i.c):
            return nxt
        m = i.m

        def g(r):
            return add(pc, 8) if r == 15 else st.get(r)
        if m == "dp":
            if i.op2[0] == "i":
                b, cy = i.op2[1], None
            else:
                _, rm, (how, ty, n) = i.op2
                v = g(rm)
                if how == "reg":
                    b, cy = _shift(ty, v, st.get(n), True), None
                else:
                    if n == 0 and ty == 0:
                        b, cy = v, None
                    else:
                        b = _shift(ty, v, n, False)
                        cy = band(shr(v, n - 1), 1) if isinstance(n, int) and n > 0 and ty in (1, 2) else None
            if i.o in ("mov", "mvn"):
                r = b if i.o == "mov" else bnot(b)
            else:
                a = g(i.rn)
                if i.o == "cmp":
                    st.flags = ("cmp", a, b)
                    return nxt
                if i.o == "teq":
                    st.flags = ("res", bxor(a, b) if b != 0 else a, None)
                    return nxt
                if i.o == "tst":
                    st.flags = ("res", band(a, b), None)
                    return nxt
                r = {"and": band, "eor": bxor, "sub": sub, "add": add, "orr": bor,
                     "rsb": lambda x, y: sub(y, x),
                     "bic": lambda x, y: band(x, bnot(y))}.get(i.o)
                if r is None:
                    raise BadWord("instruction %s not modelled" % i.o)
                r = r(a, b)
            if i.s:
                st.flags = ("res", r, cy)
            if i.rd == 15:
                return r
            st.set(i.rd, r)
            return nxt
        if m == "movw":
            st.set(i.rd, i.imm)
            return nxt
        if m == "movt":
            lo = bits(st.get(i.rd))[:16]
            st.set(i.rd, from_bits(lo + bits(i.imm)[:16]))
            return nxt
        if m == "mul":
            st.set(i.rd, mul(g(i.rn), g(i.rm)))
            return nxt
        if m == "sdiv":
            st.set(i.rd, op("/", g(i.rn), g(i.rm)))
            return nxt
        if m == "ldst":
            a = add(g(i.rn), i.ofs)
            if i.l:
                st.set(i.rd, st.load(a, i.size, False))
            else:
                st.store(a, i.size, g(i.rd))
            return nxt
        if m in ("stm", "ldm"):
            raise Halt("block", ins=i, pc=pc)
        if m in ("b", "bl"):
            if m == "bl":
                st.set(14, nxt)
                raise Halt("call", target=add(add(pc, 8), i.ofs), ret=nxt)
            return add(add(pc, 8), i.ofs)
        if m == "blx":
            t = g(i.rm)
            st.set(14, nxt)
            raise Halt("callr", target=t, ret=nxt)
        if m == "svc":
            raise Halt("svc", ret=nxt, imm=i.imm)
        raise BadWord(m)


class RvExec:
    def __init__(self, st):
        self.st = st

    def g(self, r):
        return 0 if r == 0 else self.st.get(r)

    def s(self, r, v):
        if r != 0:
            self.st.set(r, v)

    def step(self, i, pc):
        st, g, s = self.st, self.g, self.s
        nxt = add(pc, 4)
        m = i.m
        R = {"add": add, "sub": sub, "xor": bxor, "or": bor, "and": band,
             "mul": mul, "slt": lts, "sltu": ltu,
             "sll": lambda a, b: op("<<", a, b), "srl": lambda a, b: op(">>>", a, b),
             "sra": lambda a, b: op(">>", a, b),
             "div": lambda a, b: op("/", a, b), "rem": lambda a, b: sub(a, mul(op("/", a, b), b))}
        I = {"addi": add, "xori": bxor, "ori": bor, "andi": band, "slti": lts,
             "sltiu": ltu, "slli": shl, "srli": lshr, "srai": shr}
        if m in R:
            s(i.rd, R[m](g(i.rs1), g(i.rs2)))
            return nxt
        if m in I:
            a = g(i.rs1)
            v = bnot(a) if m == "xori" and i.imm == -1 else I[m](a, i.imm)
            s(i.rd, v)
            return nxt
        if m == "lui":
            s(i.rd, i.imm)
            return nxt
        if m == "auipc":
            s(i.rd, add(pc, i.imm))
            return nxt
        if m == "load":
            s(i.rd, st.load(add(g(i.rs1), i.imm), i.size, i.sign))
            return nxt
        if m == "store":
            st.store(add(g(i.rs1), i.imm), i.size, g(i.rs2))
            return nxt
        if m in ("beq", "bne", "blt", "bge", "bltu", "bgeu"):
            a, b = g(i.rs1), g(i.rs2)
            c = {"beq": lambda: eq(a, b), "bne": lambda: ne(a, b),
                 "blt": lambda: lts(a, b), "bge": lambda: lnot(lts(a, b)),
                 "bltu": lambda: ltu(a, b), "bgeu": lambda: lnot(ltu(a, b))}[m]()
            return add(pc, i.ofs) if P().truth(c, m) else nxt
        if m == "jal":
            t = add(pc, i.ofs)
            if i.rd == 0:
                return t
            s(i.rd, nxt)
            raise Halt("call", target=t, ret=nxt, link=i.rd)
        if m == "jalr":
            t = add(g(i.rs1), i.imm)
            if i.rd == 0:
                return t
            s(i.rd, nxt)
            raise Halt("callr", target=t, ret=nxt, link=i.rd)
        if m == "ecall":
            raise Halt("svc", ret=nxt, imm=0)
        raise BadWord("instruction %s not modelled" % m)


DECODE = {"arm": decode_arm, "riscv": decode_riscv}
EXEC = {"arm": ArmExec, "riscv": RvExec}

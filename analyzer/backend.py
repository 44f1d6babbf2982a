"""Back-end properties: layout agreement, immediates, operation templates."""
import itertools

from absint import Interp, PathEnd, Ptr, Undef
from cast import AnalysisError
from codegen import (Target, Emitter, Machine, ROLES, IMM_OPS, reg_patterns,
                     mk_regs, canon, limits)
from dom import (P, Lin, Path, explore, var, lin, op, add, sub, mulc, neg, bits,
                 from_bits, same, eq, ne, lt, le, ltu, lnot, shl, shr, mul,
                 Infeasible, IMIN, IMAX, atom_of, bxor, bnot, band, bor, wrap, lincanon)
from machine import BadWord, Halt, mem0, State

ARCHES = ("arm", "riscv")


def describe(p, limit=6):
    n = []
    for k, (lo, hi, ex) in p.rng.items():
        if "init<" in k or "PC" in k or "bits(" in k or k.startswith("(R"):
            continue
        a = "-inf" if lo <= IMIN else lo
        b = "+inf" if hi >= IMAX else hi
        n.append("%s in [%s,%s]%s" % (k, a, b, " minus %s" % sorted(ex)[:3] if ex else ""))
    return "; ".join(n[:limit]) or "any operands"


def emission(em, opname, pat, hard, body):
    """Explore update_elf_offset + emit_ph2_ir of one op; calls body(rec)."""
    res = []

    def run():
        em.start(hard)
        regs = mk_regs(pat, em.t.base)
        ir = em.make_ir(opname, regs)
        r = {"regs": regs, "ir": ir, "op": opname, "pat": pat, "hard": hard,
             "size": getattr(em, "size", None), "imm": em.imm}
        o = em.ip.obj(ir)
        before = dict(o.slots)
        if opname != "OP_define":
            em.ip.gset("elf_offset", 0)
            try:
                em.ip.call("update_elf_offset", [ir])
                r["layout"] = em.ip.gget("elf_offset")
            except PathEnd as e:
                r["layout_stop"] = e.how
                return r
            ch = [k for k, v in o.slots.items() if k in before and not _same(before[k], v)]
            if ch:
                r["layout_mutates"] = ch
        try:
            em.ip.call("emit_ph2_ir", [ir])
        except PathEnd as e:
            r["emit_stop"] = "%s%s" % (e.how, ": %s" % e.msg if e.msg else "")
            return r
        try:
            r["words"] = em.words()
        except BadWord as e:
            r["bad"] = str(e)
            return r
        body(em, r)
        return r
    for p, r in explore(run):
        r["path"] = describe(p)
        res.append(r)
    return res


def _same(a, b):
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return same(a, b)
    return a is b or a == b


# -------------------------------------------------------------- specifications

def spec(em, r, m):
    """(dest, value, writes, control) the operation must have."""
    t = em.t
    o = em.ip.obj(r["ir"])
    opn = r["op"]
    R = lambda f: add(o.get(f), t.base)
    I = lambda reg: m.init(reg)
    d = R("dest") if " " + "d" in " " + ROLES[opn] else None
    st = m.st
    nxt = ("next", None)
    sp, gp = I(t.sp), I(t.gp)
    tgt = lambda f: add(em.code_start, em.ip.obj(o.get(f)).get("elf_offset"))
    if opn == "OP_load_constant":
        return d, o.get("src0"), [], nxt
    if opn in ("OP_address_of", "OP_global_address_of"):
        return d, add(sp if opn == "OP_address_of" else gp, o.get("src0")), [], nxt
    if opn in ("OP_load", "OP_global_load"):
        return d, mem0(add(sp if opn == "OP_load" else gp, o.get("src0")), 4, 0), [], nxt
    if opn in ("OP_store", "OP_global_store"):
        a = add(sp if opn == "OP_store" else gp, o.get("src1"))
        return None, None, [(a, 4, I(R("src0")))], nxt
    if opn == "OP_load_data_address":
        return d, add(em.data_start, o.get("src0")), [], nxt
    if opn == "OP_assign":
        return d, I(R("src0")), [], nxt
    if opn == "OP_negate":
        return d, neg(I(R("src0"))), [], nxt
    if opn == "OP_bit_not":
        return d, bnot(I(R("src0"))), [], nxt
    if opn == "OP_log_not":
        return d, eq(I(R("src0")), 0), [], nxt
    if opn == "OP_read":
        return d, mem0(I(R("src0")), r["size"], t.byte_signed), [], nxt
    if opn == "OP_write":
        return None, None, [(I(R("src0")), r["size"], I(R("src1")))], nxt
    B = {"OP_add": add, "OP_sub": sub, "OP_mul": mul, "OP_bit_and": band,
         "OP_bit_or": bor, "OP_bit_xor": bxor,
         "OP_div": lambda a, b: op("/", a, b), "OP_mod": lambda a, b: sub(a, mul(op("/", a, b), b)),
         "OP_lshift": lambda a, b: op("<<", a, b), "OP_rshift": lambda a, b: op(">>", a, b),
         "OP_eq": eq, "OP_neq": ne, "OP_lt": lt, "OP_leq": le,
         "OP_gt": lambda a, b: lt(b, a), "OP_geq": lambda a, b: le(b, a)}
    if opn in B:
        a, b = I(R("src0")), I(R("src1"))
        return d, B[opn](a, b), [], nxt
    if opn == "OP_jump":
        return None, None, [], ("goto", tgt("next_bb"))
    if opn == "OP_branch":
        c = P().truth(ne(I(R("src0")), 0), "branch condition")
        P().truth(o.get("is_branch_detached"), "detached")
        r["arm"] = "then_bb" if c else "else_bb"
        return None, None, [], ("goto?", tgt(r["arm"]))
    if opn == "OP_call":
        f = em._find_func(em.ip, [Ptr(o.get("func_name"), 0)], None)
        e = em.ip.obj(em.ip.obj(em.ip.obj(f).get("fn")).get("bbs")).get("elf_offset")
        return None, None, [], ("call", add(em.code_start, e))
    if opn == "OP_address_of_func":
        f = em._find_func(em.ip, [Ptr(o.get("func_name"), 0)], None)
        e = em.ip.obj(em.ip.obj(em.ip.obj(f).get("fn")).get("bbs")).get("elf_offset")
        return None, None, [(I(R("src0")), 4, add(em.code_start, e))], nxt
    if opn == "OP_load_func":
        return None, None, [], nxt
    if opn == "OP_indirect":
        return None, None, [], ("callr", None)
    if opn == "OP_define":
        n = add(o.get("src0"), 4)
        return None, None, None, nxt
    if opn == "OP_return":
        v = o.get("src0")
        if v == -1:
            return None, None, [], ("ret", None)
        return t.ret, I(R("src0")), [], ("ret", None)
    raise AnalysisError("no specification for %s" % opn)


def execute(m):
    """run the template; (control, pc)"""
    try:
        i, pc = m.run(0)
    except Halt as h:
        return h.why, h
    if i == len(m.dec):
        return "next", None
    return "goto", pc


LOOPY = {("riscv", "OP_mul", 0), ("riscv", "OP_div", 0), ("riscv", "OP_mod", 0),
         ("arm", "OP_div", 0), ("arm", "OP_mod", 0)}


def judge(em, r, problems):
    """compare one emitted template with its operation"""
    t = em.t
    opn = r["op"]
    m = Machine(em, r["words"])
    r["ninsn"] = len(m.dec)

    def bad(msg):
        problems.append("%s/%s%s registers %s [%s]: %s" % (
            t.arch, opn, "" if r["hard"] is None else
            (" (+m)" if r["hard"] else " (no +m)"), "".join("ABC"[k] for k in r["pat"]),
            describe(P()), msg))
    for i, d in enumerate(m.dec):
        if isinstance(d, BadWord):
            bad("word %d is not a valid instruction: %s" % (i, d))
            return
    # does the template contain a backward branch?
    back = sorted({k for k in (_target(m, i) for i in range(len(m.dec))) if k is not None
                   and k[1] <= k[0]}, key=lambda x: x[1])
    try:
        if back:
            import loops
            try:
                loops.judge_loop(em, r, m, back, bad)
            except loops.Collect:
                pass
            return
        d, val, writes, ctl = spec(em, r, m)
        how, x = execute(m)
        compare(em, r, m, d, val, writes, ctl, how, x, bad)
    except BadWord as e:
        bad(str(e))


def check_op(em, opn, pat, hard):
    """(problems, records) of one operation / register pattern / option"""
    shared = {"trial": None, "common": None, "havoc": [], "again": False}

    def once():
        probs = []
        shared["again"] = False

        def body(em, r):
            r["shared"] = shared
            judge(em, r, probs)
        recs = emission(em, opn, pat, hard,
                        body if opn not in ("OP_define", "OP_return") else
                        lambda em, r: None)
        return probs, recs
    probs, recs = once()
    if shared["common"] is None:
        return probs, recs
    # a loop template: try the role assignments every path admits
    if not shared["common"]:
        probs.append("%s/%s: no registers hold the loop's initial state on every path"
                     % (em.t.arch, opn))
        return probs, recs
    best = None
    for c in sorted(shared["common"]):
        shared["trial"] = c
        shared["havoc"] = []
        for _ in range(8):
            probs, recs = once()
            if not shared["again"]:
                break
        else:
            probs.append("%s/%s: loop temporaries do not stabilise" % (em.t.arch, opn))
        if best is None or len(probs) < len(best[0]):
            best = (probs, recs)
        if not probs:
            break
    return best


def _target(m, i):
    d = m.dec[i]
    if isinstance(d, BadWord) or d.m not in ("b", "beq", "bne", "blt", "bge", "bltu",
                                             "bgeu", "jal"):
        return None
    o = P().simp(d.ofs)
    if not isinstance(o, int):
        return None
    k = i + o // 4 + (2 if m.t.arch == "arm" else 0)
    if 0 <= k <= len(m.dec):
        return (i, k)
    return None


def compare(em, r, m, d, val, writes, ctl, how, x, bad, allow=()):
    t, st, opn = em.t, m.st, r["op"]
    o = em.ip.obj(r["ir"])
    # control
    if ctl[0] == "next":
        if how != "next":
            bad("does not fall through to the next operation (%s %s)" % (how, _x(x)))
            return
    elif ctl[0] == "goto":
        if how == "next":
            bad("falls through instead of transferring control to its target")
            return
        if how != "goto" or not same(x, ctl[1]):
            bad("transfers control to %s instead of %s" % (_x(x), ctl[1]))
            return
    elif ctl[0] == "goto?":
        # a branch may fall into the block the layout places next
        if how == "next":
            r["falls"] = r["arm"]
        elif how != "goto" or not same(x, ctl[1]):
            bad("transfers control to %s instead of the %s block" % (_x(x), r["arm"][:4]))
            return
    elif ctl[0] == "call":
        if how not in ("call", "callr"):
            bad("does not call (%s)" % how)
            return
        if not same(x.target, ctl[1]):
            bad("calls %s instead of %s" % (x.target, ctl[1]))
        if m.idx(x.ret) != len(m.dec):
            bad("return address is not the following operation")
    elif ctl[0] == "callr":
        if how != "callr":
            bad("does not call through the prepared register")
            return
        if m.idx(x.ret) != len(m.dec):
            bad("return address is not the following operation")
        r["target"] = x.target
    elif ctl[0] == "ret":
        ok = (how == "callr" or how == "goto")
        if not ok:
            bad("does not return (%s)" % how)
            return
        r["target"] = x.target if how == "callr" else x
    # memory
    if writes is not None:
        fin = net_writes(st, t)
        if len(fin) != len(writes):
            bad("%d memory writes (%s), %d expected" % (len(fin), fin, len(writes)))
        else:
            for (a, s, v), (ea, es, ev) in zip(fin, writes):
                if s != es or not same(a, ea) or not _lowsame(v, ev, s):
                    bad("writes %d bytes of %s at %s; expected %d bytes of %s at %s"
                        % (s, v, a, es, ev, ea))
    # registers
    ok_scratch = list(t.scratch) + list(allow)
    for reg, v in st.regs:
        if d is not None and same(reg, d):
            continue
        if isinstance(reg, int) and reg in ok_scratch:
            continue
        if reg == t.lr and ctl[0] in ("call", "callr", "ret") or \
                opn in ("OP_define", "OP_return") and reg in (t.sp, t.lr):
            continue
        if not same(v, m.init(reg)):
            bad("register %s is changed to %s although it is not the result"
                % (regname(t, reg), v))
    if d is not None:
        got = st.get(d)
        if not same(got, val):
            bad("result register holds %s; the operation's value is %s" % (got, val))


def _x(x):
    return getattr(x, "target", x)


def _lowsame(a, b, size):
    if same(a, b):
        return True
    return bits(a)[:8 * size] == bits(b)[:8 * size]


def regname(t, r):
    return "r%s" % r if t.arch == "arm" else "x%s" % r


def net_writes(st, t):
    # stores below the final stack pointer are dead; a value that is stored and
    # popped again leaves no trace
    sp = st.get(t.sp)
    out = []
    for a, s, v in st.writes:
        d = P().simp(sub(a, sp))
        if isinstance(d, int) and d < 0 and d + s <= 0:
            continue
        out.append((a, s, v))
    return out


def check_frames(em, problems, cov):
    """OP_define / OP_return pair: frame size, saved link, stack restored."""
    t = em.t
    out = []

    def run():
        em.start(None)
        n = var("FRAME", 0, 1 << 24)
        regs = mk_regs((0,), em.t.base)
        ird = em.make_ir("OP_define", [])
        em.ip.obj(ird).set("src0", n)
        em.ip.call("emit_ph2_ir", [ird])
        w1 = em.words()
        em.start(None)
        irr = em.make_ir("OP_return", regs)
        em.ip.obj(irr).set("src1", n)
        em.ip.call("emit_ph2_ir", [irr])
        w2 = em.words()
        noval = em.ip.obj(irr).get("src0") == -1
        m = Machine(em, w1)
        msgs = []

        def bad(s):
            msgs.append(s)
        try:
            i, pc = m.run(0)
        except Halt as h:
            return ["prologue transfers control (%s)" % h.why]
        except BadWord as e:
            return ["prologue: %s" % e]
        sp0 = m.init(t.sp)
        st = m.st
        sp1 = st.get(t.sp)
        delta = P().simp(lincanon(sub(sub(sp0, sp1), n)))
        if not (isinstance(delta, int) and delta >= 4):
            bad("prologue moves the stack pointer by %s; the frame needs %s + the "
                "saved link" % (sub(sp0, sp1), n))
            return msgs
        lr0 = m.init(t.lr)
        saves = [a for a, s, v in st.writes if s == 4 and same(v, lr0)]
        if len(saves) != 1 or len(st.writes) != 1:
            bad("prologue must save the return address exactly once (writes: %s)" % st.writes)
            return msgs
        slot = P().simp(lincanon(sub(saves[0], sp1)))
        rng = P().mrange(sub(saves[0], sp0)) if not isinstance(slot, int) else None
        # the slot must lie inside [sp1, sp0) and outside the locals [4, FRAME+4)
        # which live at sp1+4 .. sp1+4+FRAME-1 (index 0 is reserved), or at the top
        off = slot
        lo, hi = P().mrange(off) if not isinstance(off, int) else (off, off)
        top = P().simp(lincanon(sub(sp0, saves[0])))
        if not (off == 0 or (isinstance(top, int) and top == 4)):
            bad("return address saved at sp%+d.. (%s), not in its reserved slot" % (lo, off))
        for reg, v in st.regs:
            if isinstance(reg, int) and (reg in t.scratch or reg == t.sp):
                continue
            if not same(v, m.init(reg)):
                bad("prologue changes %s" % regname(t, reg))
        # body: anything that keeps sp and the slot; then the epilogue
        m2 = Machine(em, w2)
        m2.inits = dict(m.inits)
        newlr = var("clobbered_lr")
        m2.st.writes = list(st.writes)
        m2.st.regs = [(t.sp, sp1), (t.lr, newlr), (t.gp, m.init(t.gp))]
        rv = None
        if not noval:
            rv = var("retval")
            m2.st.regs.append((add(regs[0], t.base), rv))
        m2.inits[canon(t.sp)] = sp1
        try:
            i, pc = m2.run(0)
            target = pc if i is None else None
        except Halt as h:
            target = h.target if h.why == "callr" else None
        except BadWord as e:
            return msgs + ["epilogue: %s" % e]
        if target is None:
            return msgs + ["epilogue does not return"]
        if not same(target, lr0):
            bad("epilogue returns to %s instead of the saved return address" % (target,))
        if not same(m2.st.get(t.sp), sp0):
            bad("stack pointer after return is %s, entry value %s" % (m2.st.get(t.sp), sp0))
        if not same(m2.st.get(t.gp), m.init(t.gp)):
            bad("epilogue changes the global base register")
        if len(m2.st.writes) != len(st.writes):
            bad("epilogue writes memory")
        if rv is not None and not same(m2.st.get(t.ret), rv):
            bad("return value register holds %s" % (m2.st.get(t.ret),))
        return msgs
    n = 0
    for p, msgs in explore(run):
        n += 1
        for s in msgs:
            problems.append("%s frame [%s]: %s" % (t.arch, describe(p), s))
    cov["frame paths"] = cov.get("frame paths", 0) + n

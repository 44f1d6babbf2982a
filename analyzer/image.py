"""Whole-image layout: run cfg_flatten + code_generate abstractly over small
program skeletons and execute the decoded image abstractly from its first word."""
import itertools

from absint import PathEnd, Ptr, Arr, arena_alloc
from cast import AnalysisError
from codegen import Target, Emitter, Machine, canon
from dom import (P, Lin, explore, var, add, sub, mulc, same, bits, lincanon, ne, op)
from machine import BadWord, Halt, mem0


def _u32(v):
    return v


class Image:
    def __init__(self, em):
        self.em, self.ip, self.t = em, em.ip, em.t
        self.mark = 0x5A1230

    def bb(self, name, fn):
        b = self.ip.new("basic_block_t", name, "zero")
        self.ip.obj(b).set("belong_to", fn)
        return b

    def fn(self, name, stack):
        ip = self.ip
        f = ip.new("func_t", "func<%s>" % name, "zero")
        fn = ip.new("fn_t", "fn<%s>" % name, "zero")
        ip.obj(f).set("fn", fn)
        ip.obj(fn).set("func", f)
        ip.obj(f).set("stack_size", stack)
        self.em.funcs[name] = f
        return f, fn

    def ir(self, bb, opname, **kw):
        ip = self.ip
        i = ip.new("ph2_ir_t", "ir.%s" % opname, "zero")
        o = ip.obj(i)
        o.set("op", self.em.tu.enum[opname])
        name = kw.pop("func", None)
        for k, v in kw.items():
            o.set(k, v)
        if name:
            a = o.get("func_name")
            for k, c in enumerate(name + "\0"):
                a.set(k, ord(c))
        lst = ip.obj(bb).get("ph2_ir_list")
        if lst.get("head") == 0:
            lst.set("head", i)
        else:
            ip.obj(lst.get("tail")).set("next", i)
        lst.set("tail", i)
        return i

    def marker(self, bb):
        """a unique constant load into register 1 identifying the block"""
        self.mark += 1
        self.ir(bb, "OP_load_constant", dest=1, src0=self.mark)
        return self.mark

    def chain(self, fn, order):
        ip = self.ip
        ip.obj(fn).set("bbs", order[0])
        for i, b in enumerate(order):
            ip.obj(b).set("rpo", i)
            ip.obj(b).set("rpo_next", order[i + 1] if i + 1 < len(order) else 0)
        for b in order:
            ip.obj(b).set("belong_to", fn)


def build(em, order, gstack, mstack, fstack):
    """skeleton program; returns marks"""
    ip = em.ip
    ip.reset()
    em.funcs = {}
    im = Image(em)
    arr = Arr(("int", 8, True), None, "code", "zero", ip)
    ip.gset("elf_code", Ptr(arr, 0))
    ip.gset("elf_code_idx", 0)
    em.code_start = mulc(var("CODE_START", 0x1000, 0x100000), 4)
    ip.gset("elf_code_start", em.code_start)
    em.arr = arr
    em.pc0 = 0
    fl = Arr(("ptr", ("rec", ip.ptype("ph2_ir_t")[1])), None, "flat", "zero", ip)
    ip.gset("PH2_IR_FLATTEN", Ptr(fl, 0))
    M = {}
    # __syscall: declared only
    sf, sfn = im.fn("__syscall", 0)
    im.chain(sfn, [im.bb("syscall.bb", sfn)])
    # global initialisation
    g = ip.gget("GLOBAL_FUNC")
    gfn = ip.new("fn_t", "fn<global>", "zero")
    g.set("fn", gfn)
    g.set("stack_size", gstack)
    gbb = im.bb("global.bb", gfn)
    ip.obj(gfn).set("bbs", gbb)
    M["global"] = im.marker(gbb)
    im.ir(gbb, "OP_global_store", src0=1, src1=8)
    # f: a helper calling the system-call stub
    ff, ffn = im.fn("f", fstack)
    fb = im.bb("f.entry", ffn)
    im.chain(ffn, [fb])
    M["f"] = im.marker(fb)
    im.ir(fb, "OP_call", func="__syscall")
    M["fret"] = im.marker(fb)
    im.ir(fb, "OP_return", src0=0)
    # main: diamond, then a call of f
    mf, mfn = im.fn("main", mstack)
    bb = {k: im.bb("main.%s" % k, mfn) for k in ("entry", "then", "else", "join")}
    im.chain(mfn, [bb["entry"]] + [bb[k] for k in order])
    M["main"] = im.marker(bb["entry"])
    im.ir(bb["entry"], "OP_assign", dest=2, src0=2)
    im.ir(bb["entry"], "OP_branch", src0=3, then_bb=bb["then"], else_bb=bb["else"])
    M["then"] = im.marker(bb["then"])
    im.ir(bb["then"], "OP_add", dest=4, src0=5, src1=6)
    im.ir(bb["then"], "OP_jump", next_bb=bb["join"])
    M["else"] = im.marker(bb["else"])
    im.ir(bb["else"], "OP_global_address_of", dest=7, src0=4)
    im.ir(bb["else"], "OP_address_of_func", src0=7, func="f")
    im.ir(bb["else"], "OP_jump", next_bb=bb["join"])
    M["join"] = im.marker(bb["join"])
    im.ir(bb["join"], "OP_call", func="f")
    M["back"] = im.marker(bb["join"])
    im.ir(bb["join"], "OP_return", src0=0)
    ip.gset("MAIN_BB", bb["entry"])
    # the order in which functions were defined
    fl = ip.gget("FUNC_LIST")
    fl.set("head", ffn)
    ip.obj(ffn).set("next", mfn)
    fl.set("tail", mfn)
    em.M, em.bbs = M, bb
    em.fns = {"f": fb, "main": bb["entry"], "global": gbb,
              "__syscall": ip.obj(sfn).get("bbs")}
    return M


def trace(em, m, cfg, msgs):
    """execute the image from word 0 to the exit system call"""
    t = em.t
    M = {v: k for k, v in em.M.items()}
    gs, ms, fs = cfg
    S = m.init(t.sp)
    r1 = 1 + t.base
    base = m.pc0
    pc = base
    seen = []
    svc = 0
    steps = 0
    frame = {}

    def bad(s, tag="abi"):
        msgs.append((tag, s))
    while True:
        steps += 1
        if steps > 400:
            bad("the image does not reach the exit system call", "layout")
            return seen
        k = m.idx(pc)
        if k is None or k >= len(m.dec):
            bad("control leaves the image at %s" % (pc,), "layout")
            return seen
        old = m.st.get(r1)
        try:
            pc = P().simp(m.ex.step(m.at(k), pc))
        except Halt as h:
            if h.why in ("call", "callr"):
                if h.ret is not None and m.ex is not None:
                    m.st.set(t.lr, h.ret) if h.why == "call" else None
                pc = P().simp(h.target)
            elif h.why == "svc":
                svc += 1
                cur = {r: m.st.get(r) for r in [t.sysno] + t.args}
                if svc == 1:
                    want = em.sysargs
                    if not same(cur[t.sysno], want[0]):
                        bad("system call number register holds %s, not argument 0" %
                            (cur[t.sysno],))
                    for i in range(6):
                        if not same(cur[t.args[i]], want[i + 1]):
                            bad("system call argument %d holds %s, not argument %d"
                                % (i, cur[t.args[i]], i + 1))
                    rv = var("kernel_result")
                    em.rv = rv
                    m.st.set(t.args[0], rv)
                    pc = add(pc, 4)
                else:
                    if not same(cur[t.sysno], t.exit_no):
                        bad("final system call has number %s, exit is %d"
                            % (cur[t.sysno], t.exit_no))
                    if not same(cur[t.args[0]], em.rv):
                        bad("exit status is %s, not main's return value"
                            % (cur[t.args[0]],))
                    if not same(m.st.get(t.sp), S):
                        bad("stack pointer at exit is %s, at entry %s"
                            % (m.st.get(t.sp), S))
                    return seen
            elif h.why == "block":
                m.block_transfer(h.ins)
                pc = add(pc, 4)
            else:
                bad("stops at word %d (%s)" % (k, h.why))
                return seen
        v = m.st.get(r1)
        if isinstance(v, int) and v in M and v != old:
            here = M[v]
            seen.append(here)
            sp, gp = m.st.get(t.sp), m.st.get(t.gp)
            gtop = sub(S, gs)
            if not same(gp, gtop):
                bad("global base is %s at %s; expected entry stack pointer minus the "
                    "global area" % (gp, here))
            if here == "global":
                frame["g"] = sp
                if not same(sp, gtop):
                    bad("stack pointer during global initialisation is %s" % (sp,))
            if here == "main":
                if not same(m.st.get(t.args[0]), mem0(S, 4, 0)):
                    bad("main's first argument is %s, not argc" % (m.st.get(t.args[0]),))
                frame["argv"] = m.st.get(t.base + 1)
            if here in ("main", "f"):
                room = P().simp(lincanon(sub(sub(frame.get("low", gtop), sp),
                                             ms if here == "main" else fs)))
                if not (isinstance(room, int) and room >= 4):
                    bad("frame of %s is too small: stack pointer %s, stack size %s"
                        % (here, sp, ms if here == "main" else fs))
                frame["low"] = sp
                frame[here] = sp
            if here == "f":
                em.sysargs = [m.st.get(t.args[0] if i == 0 else t.base + i) for i in range(7)]
                em.sysargs = []
                for i in range(7):
                    a = var("arg%d" % i)
                    m.st.set(t.base + i, a)
                    em.sysargs.append(a)
            if here == "fret" and not same(sp, frame["f"]):
                bad("stack pointer after the system call is %s" % (sp,))
            if here == "fret" and not same(m.st.get(t.ret), em.rv):
                bad("system call result lost: %s" % (m.st.get(t.ret),))
            if here == "back":
                if not same(sp, frame["main"]):
                    bad("stack pointer after a call is %s, before %s" % (sp, frame["main"]))
                if not same(m.st.get(t.ret), em.rv):
                    bad("call result is %s" % (m.st.get(t.ret),))
            if here == "else":
                frame["fptr"] = len(m.st.writes)


def check_image(arch, em=None):
    """-> (problems, coverage)"""
    t = Target(arch)
    em = em or Emitter(t)
    em.ip.summaries["arena_alloc"] = arena_alloc
    probs, n, images = [], 0, 0
    cases = [(o, z) for o in itertools.permutations(["then", "else", "join"])
             for z in ((16, 4, 4), (4096, 2044, 6144))]
    first = cases[0][0]
    cases += [(first, ("G", 16, 8)), (first, (32, "M", 8)), (first, (16, 8, "F"))]
    for order, sizes in cases:
        def run():
            gs, ms, fs = [mulc(var("STACK" + z, 4, 1 << 18), 4) if isinstance(z, str)
                          else z for z in sizes]
            msgs = []

            def bad(s, tag="layout"):
                msgs.append((tag, s))
            build(em, order, gs, ms, fs)
            # data: main's argv marker must survive the prologue
            try:
                em.ip.call("cfg_flatten", [])
                size = em.ip.gget("elf_offset")
                em.ip.call("code_generate", [])
                ds = em.ip.gget("elf_data_start")
            except PathEnd as e:
                bad("code generation stops: %s %s" % (e.how, e.msg or ""))
                return msgs, None, None
            words = em.words()
            if not same(size, 4 * len(words)):
                bad("layout counted %s bytes, %d were emitted" % (size, 4 * len(words)))
            if not same(ds, add(em.code_start, 4 * len(words))):
                bad("data section address %s is not the end of the code" % (ds,))
            m = Machine(em, words, em.code_start)
            for i, d in enumerate(m.dec):
                if isinstance(d, BadWord):
                    bad("word %d is not a valid instruction: %s" % (i, d))
                    return msgs, None, len(words)
            t_ = em.t
            cond = var("cond")
            S = m.init(t_.sp)
            # register 3 carries the branch condition from the beginning
            try:
                seen = trace(em, m, (gs, ms, fs), msgs)
            except BadWord as e:
                bad(str(e))
                return msgs, None, len(words)
            c = P().truth(ne(m.init(t_.base + 3), 0), "cond")
            want = ["global", "main", "then" if c else "else", "join", "f", "fret", "back"]
            if not msgs and seen != want:
                bad("execution visits %s; expected %s" % (seen, want))
            argv = sub(m.init(t_.sp), -4)
            if not msgs:
                # else block stored f's address through register 7
                w = [x for x in m.st.writes if same(x[0], add(sub(m.init(t_.sp), gs), 4))]
                fo = em.ip.obj(em.fns["f"]).get("elf_offset")
                if not c and not (len(w) == 1 and same(w[0][2], add(em.code_start, fo))):
                    bad("address of a function is stored as %s" % (w,))
                w = [x for x in m.st.writes
                     if same(x[0], add(sub(m.init(t_.sp), gs), 8))]
                if len(w) != 1 or not same(w[0][2], em.M["global"]):
                    bad("global initialisation store went to %s" % (m.st.writes[:1],))
            return msgs, seen, len(words)
        for p, (msgs, seen, nw) in explore(run):
            n += 1
            for tag, s in msgs:
                probs.append((tag, s.split(" ")[0] + "-" + s.split(" ")[1],
                              "%s image, block order entry,%s, stack sizes %s: %s"
                              % (arch, ",".join(order), sizes, s)))
        images += 1
    return probs, {"images": images, "paths": n}


if __name__ == "__main__":
    import sys
    for a in sys.argv[1:] or ("arm", "riscv"):
        pr, cov = check_image(a)
        print(a, cov, len(pr))
        for x in pr[:6]:
            print("  ", str(x)[:300])

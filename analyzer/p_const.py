"""P06: constants and constant expressions have the value C gives them."""
from absint import Arr, Interp, PathEnd, Ptr
from cast import AnalysisError, load
from dom import (IMAX, IMIN, P, DivByZero, Lin, add, eq, explore, le, lin, lt, mulc, ne, neg, op,
                 same, sub, var)
from front import ARITH, Front, ptr
from p_expr import BINOPS, COMM, SYM, operators_read, show, supply, tree
from par import collect, pmap
from props import check

GRID = [0, 1, -1, 2, -2, 3, 4, -4, 7, -7, 8, 31, 100, -100, 255, 65536, IMAX, IMIN, IMAX - 1,
        IMIN + 1]


class Trap(Exception):
    pass


class FInterp(Interp):
    """divisions must be shown not to trap in the compiler"""
    traps = None

    def binop(self, o, x, y, n):
        if o in ("/", "%") and isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            y = P().simp(y)
            if P().truth(eq(y, 0), "divisor is 0"):
                self.traps.append((n.where, "divides by zero in the compiler"))
                raise PathEnd("trap")
            if P().known(ne(y, -1)) is not True and P().known(ne(x, IMIN)) is not True:
                if P().truth(eq(y, -1), "divisor is -1") and P().truth(eq(x, IMIN)):
                    self.traps.append((n.where, "overflows a division in the compiler "
                                       "(-2147483648 / -1)"))
                    raise PathEnd("trap")
        return Interp.binop(self, o, x, y, n)


def c_value(opn, l, r):
    """C value of a binary operation, None where C leaves it undefined"""
    if opn in ("OP_div", "OP_mod") and (r == 0 or l == IMIN and r == -1):
        return None
    if opn in ("OP_lshift", "OP_rshift") and not 0 <= r < 32:
        return None
    v = ARITH[opn](l, r)
    return v


# ------------------------------------------------------ folding in the optimiser

def fold_once(ip, tu, opn, lv=None, rv=None):
    """one abstract run of const_folding; returns list of (where, message)"""
    ip.reset()
    ip.traps = []
    msgs = []
    insn = ip.new("insn_t", "insn", "sym")
    o = ip.obj(insn)
    o.set("opcode", tu.enum[opn])
    objs = {}
    for f in ("rd", "rs1", "rs2"):
        p = o.get(f)
        if f == "rd":
            p.nonnull = True
        if lv is not None or f != "rd":
            pass
        objs[f] = p
    if lv is not None:
        for f, v in (("rs1", lv), ("rs2", rv)):
            objs[f].nonnull = True
            ip.obj(objs[f]).set("init_val", v)
    before = {}
    try:
        ip.call("const_folding", [insn])
    except PathEnd as e:
        if e.how == "trap":
            return [(w, "%s of two constants %s" % (opn[3:], m)) for w, m in ip.traps], None
        if e.how == "nullderef":
            return [], None        # an operand the operation must have is missing
        raise
    new = P().simp(o.get("opcode"))
    rd = ip.obj(objs["rd"])
    w = tu.functions["const_folding"].where

    def const_known(f):
        p = objs[f]
        if not p.nonnull:
            return False
        return P().known(ne(ip.obj(p).get("is_const"), 0)) is True

    def prev_loads_rs1():
        pv = o.get("prev")
        if getattr(pv, "nonnull", None) is not True:
            return False
        q = ip.obj(pv)
        if P().known(eq(q.get("opcode"), tu.enum["OP_load_constant"])) is not True:
            return False
        return ip.peq(q.get("rd"), objs["rs1"])
    if new == tu.enum[opn]:
        for f in ("rd", "rs1", "rs2"):
            if opn == "OP_load_constant" and f != "rd":
                continue
            if o.get(f) is not objs[f]:
                msgs.append((w, "%s loses operand %s without being folded" % (opn[3:], f)))
        flag = rd.slots.get("is_const")
        if opn != "OP_load_constant" and flag is not None and P().simp(flag) == 1 and \
                P().known(ne(var("*insn[0].rd[0].is_const", 0, 1), 0)) is not True:
            msgs.append((w, "the result of %s is taken for constant" % opn[3:]))
        return msgs, None
    if new != tu.enum["OP_load_constant"]:
        msgs.append((w, "%s is rewritten to operation %s" % (opn[3:], new)))
        return msgs, None
    got = P().simp(rd.get("init_val"))
    if opn == "OP_assign":
        if not (const_known("rs1") or prev_loads_rs1()):
            msgs.append((w, "a copy is replaced by a constant though its source is not known "
                         "constant"))
        want = ip.obj(objs["rs1"]).get("init_val")
    elif opn in ARITH:
        if not (const_known("rs1") and const_known("rs2")):
            msgs.append((w, "%s is folded though an operand is not known constant" % opn[3:]))
        want = c_value(opn, ip.obj(objs["rs1"]).get("init_val"),
                       ip.obj(objs["rs2"]).get("init_val"))
    else:
        msgs.append((w, "%s is folded to a constant" % opn[3:]))
        return msgs, None
    if opn == "OP_assign":
        g = rd.get("is_global")
        if P().known(ne(g, 0)) is not False:
            msgs.append((w, "an assignment to a global variable is folded away"))
    if want is not None and not same(got, want):
        return msgs, (w, "%s of constants folds to %s, execution gives %s"
                      % (opn[3:], got, want))
    return msgs, None


def run_fold(opn):
    tu = load("arm")
    ip = FInterp(tu, {})
    out, n, unproved = [], 0, 0

    def run():
        ip._alias = {}
        return fold_once(ip, tu, opn)
    for _, (msgs, mism) in explore(run):
        n += 1
        out += msgs
        if mism:
            hit = None
            for l in GRID:
                for r in GRID:
                    if c_value(opn, l, r) is None if opn in ARITH else False:
                        continue
                    for _, (m2, mm) in explore(lambda: fold_once(ip, tu, opn, l, r)):
                        if mm:
                            hit = (mm[0], "%s (operands %d, %d)" % (mm[1], l, r))
                            break
                    if hit:
                        break
                if hit:
                    break
            if hit:
                out.append(hit)
            else:
                unproved += 1
    return "fold/" + opn, out, n, unproved


# ------------------------------------------------------ global initialisers

def imm_once(ip, tu, opn, l, r):
    ip.reset()
    ip.traps = []
    try:
        got = ip.call("eval_expression_imm", [tu.enum[opn], l, r])
    except PathEnd as e:
        if e.how == "trap":
            return [(w, "%s in a global initialiser %s" % (opn[3:], m)) for w, m in ip.traps], None
        if e.how == "error":
            z = P().simp(r) if isinstance(r, Lin) else r
            if opn in ("OP_div", "OP_mod") and z == 0:
                return [], None
            return [(tu.functions["eval_expression_imm"].where, "%s is rejected in a global "
                     "initialiser" % opn[3:])], None
        raise
    return [], judge(opn, l, r, got, tu.functions["eval_expression_imm"].where,
                     "a global initialiser")


def judge(opn, l, r, got, w, place):
    """None, or (where, message) when the value is not shown to be C's"""
    l, r = (P().simp(x) if isinstance(x, Lin) else x for x in (l, r))
    if opn in ("OP_div", "OP_mod"):
        if r == 0:
            return w, "%s by zero in %s is not diagnosed" % (opn[3:], place)
        if r == -1:
            want = neg(l) if opn == "OP_div" else 0
        else:
            want = ARITH[opn](l, r)
    elif opn in ("OP_log_and", "&&"):
        want = int(P().truth(ne(l, 0)) and P().truth(ne(r, 0)))
    elif opn in ("OP_log_or", "||"):
        want = int(P().truth(ne(l, 0)) or P().truth(ne(r, 0)))
    elif opn in ("OP_lshift", "OP_rshift") and isinstance(r, int) and not 0 <= r < 32:
        return None
    else:
        want = ARITH[opn](l, r)
    if same(P().simp(got), P().simp(want)):
        return None
    # decided conditions are compared as decisions
    a = P().simp(want)
    if isinstance(got, int) and got in (0, 1) and not isinstance(a, int) and opn in (
            "OP_lt", "OP_leq", "OP_gt", "OP_geq", "OP_eq", "OP_neq"):
        if P().known(a if got else eq(a, 0)) is True:
            return None
    return w, "%s in %s gives %s, C gives %s" % (opn[3:].lstrip("_") or opn, place, got, want)


def run_imm(opn):
    tu = load("arm")
    ip = FInterp(tu, {})
    out, n, unproved = [], 0, 0
    for _, (msgs, mism) in explore(lambda: imm_once(ip, tu, opn, var("l"), var("r"))):
        n += 1
        out += msgs
        if mism:
            hit = None
            for l in GRID:
                for r in GRID:
                    if opn in ("OP_lshift", "OP_rshift") and not 0 <= r < 32:
                        continue
                    for _, (m2, mm) in explore(lambda: imm_once(ip, tu, opn, l, r)):
                        hit = hit or mm and (mm[0], "%s (operands %d, %d)" % (mm[1], l, r))
                    if hit:
                        break
                if hit:
                    break
            if hit:
                out.append(hit)
            else:
                unproved += 1
    return "global/" + opn, out, n, unproved


# --------------------------------------------- precedence of constant expressions

def U(opn, a, b):
    if opn in ("OP_gt", "OP_geq"):
        opn, a, b = {"OP_gt": "OP_lt", "OP_geq": "OP_leq"}[opn], b, a
    if opn in COMM and repr(b) < repr(a):
        a, b = b, a
    return op("c:" + opn, a, b)


CNAME = {"*": "OP_mul", "/": "OP_div", "%": "OP_mod", "+": "OP_add", "-": "OP_sub",
         "<<": "OP_lshift", ">>": "OP_rshift", "<": "OP_lt", "<=": "OP_leq", ">": "OP_gt",
         ">=": "OP_geq", "==": "OP_eq", "!=": "OP_neq", "&": "OP_bit_and", "^": "OP_bit_xor",
         "|": "OP_bit_or"}


class UInterp(Interp):
    """arithmetic on expression values stays uninterpreted"""

    def binop(self, o, x, y, n):
        if o in CNAME and isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) and \
                (isinstance(x, Lin) or isinstance(y, Lin)):
            if y == -1 and o in ("==", "!="):
                # a divisor of -1 is decided with real arithmetic (run_ifarith)
                P().assume(ne(x, -1))
                return int(o == "!=")
            if isinstance(y, int) and o in ("==", "!=", "<", ">", ">=", "<="):
                return Interp.binop(self, o, x, y, n)
            return U(CNAME[o], x, y)
        return Interp.binop(self, o, x, y, n)


def reference(t, xs):
    if isinstance(t, int):
        return xs[t]
    o, a, b = t
    opn = BINOPS[o][1]
    if o in ("T_log_and", "T_log_or"):
        v = P().truth(ne(reference(a, xs), 0))
        if v == (o == "T_log_or"):
            return int(v)
        return int(P().truth(ne(reference(b, xs), 0)))
    return U(opn, reference(a, xs), reference(b, xs))


def global_once(fr, sup):
    """a global initialiser; the value stored"""
    ip = fr.ip
    fr.start(sup)
    ip.gset("BLOCKS", ip.default(ip.ptype(fr.tu.globals["BLOCKS"].type), "BLOCKS", "zero"))
    ip.gget("BLOCKS").set("head", fr.parent)
    gf = ip.gget("GLOBAL_FUNC")
    if not hasattr(gf, "set"):
        ip.obj(gf).set("fn", fr.fn)
    else:
        gf.set("fn", fr.fn)
    dest = fr.value("g")
    fr.gvar = dest
    ip.call("opstack_push", [dest])
    ip.call("read_global_assignment", [ip.string("g")])
    stored = []
    env = {}
    from front import Eval, bid
    ev = Eval(fr)
    for o in ev.insns(fr.entry):
        nm = fr.ops.get(o.get("opcode"))
        rd = ptr(o.get("rd"))
        if nm == "OP_load_constant":
            env[bid(rd)] = ip.obj(rd).get("init_val")
        elif nm == "OP_assign" and bid(rd) == bid(dest):
            stored.append(env.get(bid(ptr(o.get("rs1")))))
    return stored


def run_const(which, first, depth, alpha):
    """constant expressions over unknown operators: 'global' or 'if'"""
    holder = {}

    def operand(ip, args, node):
        fr = holder["fr"]
        if fr.kind(fr.unread()) != "T_identifier":
            raise PathEnd("error", "operand expected")
        k = fr.nops
        fr.nops += 1
        if k:
            fr.advance()
            return xs[k]
        fr.advance()
        return xs[0]
    xs = [var("x%d" % i) for i in range(depth + 1)]
    summ = {"read_primary_constant": operand, "read_constant_expr_operand": operand,
            "find_global_var": lambda ip, a, n: holder["fr"].gvar or holder["fr"].value("g")}
    if which == "global":
        def imm(ip, args, node):
            o = holder["fr"].ops.get(P().simp(args[0]), "?")
            if o in ("OP_log_and", "OP_log_or"):
                a = P().truth(ne(args[1], 0))
                b = P().truth(ne(args[2], 0))
                return int(a and b) if o == "OP_log_and" else int(a or b)
            return U(o, args[1], args[2])
        summ["eval_expression_imm"] = imm
    fr = Front("arm", summ)
    fr.ip.__class__ = UInterp
    holder["fr"] = fr
    out, n = [], 0
    term = "T_semicolon"

    def run():
        fr.nops, fr.gvar = 0, None
        try:
            if which == "global":
                stored = global_once(fr, supply(fr, depth, first, alpha, term))
            else:
                fr.start(supply(fr, depth, first, alpha, term))
                # unary operators come first: the first operand is not one
                stored = [fr.ip.call("read_constant_expr", [])]
        except PathEnd as e:
            ops, _ = operators_read(fr)
            if e.how == "error" and "zero" in (e.msg or ""):
                return ops, None        # a division by an unknown zero is diagnosed
            return ops, "is rejected: %s %s" % (e.how, e.msg)
        ops, i = operators_read(fr)
        if fr.unread() != i:
            return ops, "the evaluation stops at token %d" % fr.unread()
        if len(stored) != 1:
            return ops, "stores %d values" % len(stored)
        want = reference(tree(ops), xs)
        if not eqdiv(stored[0], want):
            return ops, "gives %s, C gives %s" % (stored[0], want)
        return ops, None
    for _, (ops, msg) in explore(run, 100000):
        n += 1
        if msg:
            out.append((tuple(ops), msg))
    return which, out, n


def eqdiv(got, want):
    return same(P().simp(got), P().simp(want))


def run_ifarith(tok, lv=None, rv=None):
    """one operator of #if with real arithmetic on unknown operands"""
    xs = [var("l") if lv is None else lv, var("r") if rv is None else rv]
    holder = {}

    def operand(ip, args, node):
        fr = holder["fr"]
        if fr.kind(fr.unread()) != "T_identifier":
            raise PathEnd("error", "operand expected")
        k = fr.nops
        fr.nops += 1
        fr.advance()
        return xs[k]
    fr = Front("arm", {"read_constant_expr_operand": operand})
    fr.ip.__class__ = FInterp
    holder["fr"] = fr
    w = fr.tu.functions["read_constant_expr"].where
    opn = BINOPS[tok][1]
    out, n, unproved = [], 0, 0
    seq = ["T_identifier", tok, "T_identifier", "T_semicolon"]

    def run():
        fr.nops = 0
        fr.start(lambda i: seq[i] if i < 4 else "T_semicolon")
        fr.ip.traps = []
        try:
            got = fr.ip.call("read_constant_expr", [])
        except PathEnd as e:
            if e.how == "trap":
                return [(q, "%s in #if %s" % (opn[3:], m)) for q, m in fr.ip.traps], None
            z = P().simp(xs[1]) if isinstance(xs[1], Lin) else xs[1]
            if opn in ("OP_div", "OP_mod") and z == 0:
                return [], None
            return [(w, "%s is rejected in #if" % SYM[tok])], None
        return [], judge(opn, xs[0], xs[1], got, w, "#if")
    for _, (msgs, mism) in explore(run):
        n += 1
        out += msgs
        if mism and lv is None:
            hit = None
            for l in GRID:
                for r in GRID:
                    if opn in ("OP_lshift", "OP_rshift") and not 0 <= r < 32:
                        continue
                    hit = hit or (run_ifarith(tok, l, r)[1] or [None])[0]
                if hit:
                    break
            if hit:
                out.append(hit)
            else:
                unproved += 1
        elif mism:
            out.append((mism[0], "%s (operands %s, %s)" % (mism[1], lv, rv)))
    return "ifarith/" + opn, out, n, unproved


# ------------------------------------------------------------------ literals

def literal_buf(ip, text_atoms, name):
    a = Arr(("int", 8, True), 64, name, "zero", ip)
    for i, c in enumerate(text_atoms):
        a.slots[i] = c
    return Ptr(a, 0)


DIG = {10: (48, 57), 8: (48, 55)}


def digits(base, n):
    """symbolic digits and the value they denote"""
    pre, d, val = [], [], 0
    if base == 16:
        pre = [48, 120]
    elif base == 8:
        pre = [48]
    for i in range(n):
        if base == 16:
            k = P().choose(3, "hex digit class")
            lo, hi, off = ((48, 57, 48), (97, 102, 87), (65, 70, 55))[k]
        else:
            lo, hi = DIG[base]
            off = 48
            if i == 0 and base == 10:
                lo = 49
        c = var("c%d_%d_%d" % (i, lo, hi), lo, hi)
        d.append(c)
        val = add(mulc(val, base), sub(c, off))
    return pre + d, val


def run_literal(which, base, n):
    tu = load("arm")
    fr = Front("arm")
    ip = fr.ip
    out, cnt = [], 0

    def run():
        if which == "read_numeric_constant":
            ip.reset()
            d, want = digits(base, n)
            try:
                got = ip.call(which, [literal_buf(ip, d, "buffer")])
            except PathEnd as e:
                return "rejects a %d-digit base-%d constant (%s)" % (n, base, e.msg)
        else:
            isneg = P().choose(2, "negated")

            def sup(i):
                return "T_numeric" if i == 0 else "T_semicolon"
            fr.start(sup)
            d, want = digits(base, n)
            c = ip.gget("token_str")
            c.slots = dict(enumerate(d))
            c.slots[len(d)] = 0

            def ident(ip_, a, node):
                a[1].obj.slots.update(dict(enumerate(d)))
                a[1].obj.slots[len(d)] = 0
                return 0
            ip.summaries["lex_ident"] = ident
            try:
                ip.call(which, [fr.parent, fr.entry, isneg])
            except PathEnd as e:
                return "rejects a %d-digit base-%d constant (%s)" % (n, base, e.msg)
            v = ip.gget("operand_stack").get(0)
            got = ip.obj(v).get("init_val")
            if isneg:
                want = neg(want)
        got, want = P().simp(got), P().simp(want)
        if same(got, want) or got == want:
            return None
        return "a %d-digit base-%d constant is read as %s instead of %s" % (n, base, got, want)
    for _, m in explore(run, 50000):
        cnt += 1
        if m:
            out.append(m)
    return which, base, n, out, cnt


def run_primary(which, depth=5):
    """sign, parentheses and constant kinds of one constant operand"""
    holder = {}

    def num(ip, args, node):
        fr = holder["fr"]
        return fr.val
    fr = Front("arm", {"read_numeric_constant": num})
    holder["fr"] = fr
    ip = fr.ip
    out, cnt = [], 0
    fn = "read_primary_constant" if which == "global" else "read_constant_expr"

    def run():
        fr.val = var("n")

        def sup(i):
            if i >= depth:
                return "T_semicolon"
            return {"T_minus", "T_open_bracket", "T_close_bracket", "T_numeric", "T_semicolon"} | \
                ({"T_char"} if which == "global" else {"T_plus"})
        fr.start(sup)
        ch = var("ch", -128, 127)
        pk = ip.tu.functions["lex_peek"]

        def peek(ip_, a, node):
            r = ip_.run_body(pk, a)
            if P().simp(ip_.gget("next_token")) == fr.kinds["T_char"] and isinstance(a[1], Ptr):
                a[1].obj.set(a[1].key, ch)
            return r
        ip.summaries["lex_peek"] = peek
        try:
            got = ip.call(fn, [])
        except PathEnd as e:
            return None if e.how == "error" else "stops with %s" % e.how
        ks = [fr.kind(i) for i in range(fr.unread())]
        # C meaning of  e := - e | ( e ) | n   (and binary operators)
        pos = [0]

        def prim():
            k = ks[pos[0]] if pos[0] < len(ks) else None
            pos[0] += 1
            if k == "T_minus":
                return neg(prim())
            if k == "T_plus":
                return prim()
            if k == "T_open_bracket":
                v = bino() if which == "if" else prim()
                if pos[0] >= len(ks) or ks[pos[0]] != "T_close_bracket":
                    raise ValueError
                pos[0] += 1
                return v
            if k == "T_numeric":
                return fr.val
            if k == "T_char":
                return ch
            raise ValueError

        def bino():
            v = prim()
            while pos[0] < len(ks) and ks[pos[0]] in ("T_plus", "T_minus"):
                k = ks[pos[0]]
                pos[0] += 1
                r = prim()
                v = add(v, r) if k == "T_plus" else sub(v, r)
            return v
        try:
            want = bino() if which == "if" else prim()
            if pos[0] != len(ks):
                raise ValueError
        except ValueError:
            return "accepts %s" % " ".join(str(k)[2:] for k in ks)
        if not same(P().simp(got), P().simp(want)):
            return "%s gives %s, C gives %s" % (" ".join(str(k)[2:] for k in ks), got, want)
        return None
    for _, m in explore(run, 50000):
        cnt += 1
        if m:
            out.append(m)
    return which, fn, out, cnt


@check("P06", "other",
       "Numeric literals are read from symbolic digits; the folding rules of the optimiser and of "
       "global initialisers are interpreted on unknown operands and their results compared with C "
       "(every division must be shown not to trap); constant expressions of global initialisers "
       "and of #if are interpreted on unknown operator tokens with opaque operands and compared "
       "with the parse C gives.",
       ["constant expressions of up to 4 operands (5 in the thorough tier); literals up to 9 decimal, 10 octal, 7 "
        "hexadecimal digits"])
def p06(res):
    tu = load("arm")
    for f in ("const_folding", "eval_expression_imm", "read_global_assignment",
              "read_constant_expr", "read_numeric_constant", "read_primary_constant",
              "read_numeric_param"):
        if f not in tu.functions:
            raise AnalysisError("anchor %s not found" % f)
    opcodes = sorted(k for k in tu.enum if k.startswith("OP_"))
    W = {f: tu.functions[f].where for f in tu.functions}

    def m1(r):
        key, out, n, unp = r
        res.ob(n)
        res.count("folding paths", n)
        res.count("folding results equal only on the boundary grid", unp)
        for w, m in out:
            res.find(key, "folded value is the executed value", w, m)
    collect(res, pmap(run_fold, [(o,) for o in opcodes]), m1)
    collect(res, pmap(run_imm, [(v[1] if v[1].startswith("OP") else
                                 {"&&": "OP_log_and", "||": "OP_log_or"}[v[1]],)
                                for v in BINOPS.values()]), m1)
    alpha = sorted(BINOPS)
    collect(res, pmap(run_ifarith, [(t,) for t in alpha]), m1)
    thorough = res.tier == "thorough"
    reps = ["T_mod", "T_minus", "T_lshift", "T_lt", "T_eq", "T_ampersand", "T_bit_xor",
            "T_bit_or", "T_log_and", "T_log_or"]
    tasks = [(w, None, 1, alpha) for w in ("global", "if")]
    tasks += [(w, f, 4 if thorough else 3, alpha) for w in ("global", "if") for f in alpha]
    tasks += [(w, f, 5 if thorough else 4, reps) for w in ("global", "if") for f in reps]
    bad = {"global": [], "if": []}

    def m2(r):
        w, out, n = r
        res.ob(n)
        res.count("constant expression paths", n)
        bad[w] += out
    collect(res, pmap(run_const, tasks), m2)
    from p_expr import report
    report(res, "global", "%s (read_global_assignment)" % W["read_global_assignment"],
           "C value of a global initialiser", bad["global"])
    report(res, "if", "%s (read_constant_expr)" % W["read_constant_expr"],
           "C value of a preprocessor condition", bad["if"])
    lits = [(f, b, n) for f in ("read_numeric_constant", "read_numeric_param")
            for b, ns in ((10, (1, 2, 5, 9)), (8, (0, 1, 3, 10)), (16, (1, 2, 3, 7)))
            for n in ns if not (b == 16 and n > 4 and res.tier != "thorough")]

    def m3(r):
        f, b, n, out, cnt = r
        res.ob(cnt)
        res.count("literal paths", cnt)
        for m in out[:2]:
            res.find("literal/%s/%d" % (f, b), "literal value", "%s (%s)" % (W[f], f), m)
    collect(res, pmap(run_literal, lits), m3)

    def m4(r):
        w, f, out, cnt = r
        res.ob(cnt)
        res.count("operand paths", cnt)
        for m in out[:3]:
            res.find("operand/%s" % w, "constant operand", "%s (%s)" % (W[f], f), m)
    collect(res, pmap(run_primary, [(w, 6 if thorough else 5) for w in ("global", "if")]), m4)

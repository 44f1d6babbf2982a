"""Cut-point argument for the software multiplication / division templates.

The template's loop heads are the targets of its backward branches.  Between
heads the abstract machine is executed from a generic head state and the state
on arrival is compared with one step of the textbook shift-and-add /
shift-and-subtract algorithm:

  multiply  head state (x, y, acc), acc + x*y = a*b; step y = 2h+b:
            (2x, h, acc + b*x); leaves only with x*y = 0, result acc
  divide    head 1 (D, B) with R = |a|: while D < R (unsigned) double both
            head 2 (R, D, B, Q): if R >= D: R -= D, Q += B; B = 1 leaves, else
            D and B are halved; result +-Q or +-R

Which register plays which part is found by trying the registers that hold the
required values on the first arrival at the head.
"""
import itertools

from dom import (P, Lin, op, var, add, sub, mul, mulc, neg, eq, ne, lt, ltu, same,
                 Infeasible, IMIN, IMAX)
from machine import BadWord, Halt, EXEC, State


class NoRole(Exception):
    pass


def dmul(x, y):
    """x * y distributed over the terms of both"""
    if isinstance(x, int) or isinstance(y, int):
        return mul(x, y)
    r = mulc(y, x.c) if x.c else 0
    for a, k in x.t:
        la = Lin(0, ((a, 1),))
        if y.c:
            r = add(r, mulc(la, k * y.c))
        for b, j in y.t:
            lb = Lin(0, ((b, 1),))
            r = add(r, mulc(mul(la, lb), k * j))
    return r


def _val(st, reg):
    for q, v in st.regs:
        if same(q, reg):
            return v
    return None


def _regs_with(st, value):
    return [q for q, v in st.regs if same(v, value)]


def _enter(m, values):
    """generic state: registers in `values` replaced, flags unknown"""
    st = m.st
    st.flags = None
    for reg, v in values:
        st.set(reg, v)


def _frame(m, roles):
    return [(q, v) for q, v in m.st.regs if not any(same(q, r) for r in roles)]


def _havoc(m, r):
    """scratch registers the loops use as temporaries hold anything at a head"""
    for q in r["shared"].setdefault("havoc", []):
        m.st.set(q, var("tmp<%s>" % q))


def _frame_ok(em, m, r, frame, bad, where):
    for q, v in frame:
        if isinstance(q, int) and q in r["shared"]["havoc"]:
            continue
        if not same(_val(m.st, q), v):
            if isinstance(q, int) and q in em.t.scratch:
                r["shared"]["havoc"].append(q)
                r["shared"]["again"] = True
                return
            bad("%s changes register %s" % (where, q))
            return
    for q, v in m.st.regs:
        if isinstance(q, int) and q in em.t.scratch and \
                not any(same(q, f) for f, _ in frame) and \
                q not in r["shared"]["havoc"] and \
                not any(same(q, x) for x in r["shared"]["roles"]):
            r["shared"]["havoc"].append(q)
            r["shared"]["again"] = True


def judge_loop(em, r, m, back, bad):
    heads = sorted({h for _, h in back})
    opn = r["op"]
    if opn == "OP_mul" and len(heads) == 1:
        _mul(em, r, m, heads[0], bad)
    elif opn in ("OP_div", "OP_mod") and len(heads) == 2:
        _div(em, r, m, heads, bad)
    else:
        bad("template loops (%d heads) in an operation that has no loop argument"
            % len(heads))


def _operands(em, r, m):
    o = em.ip.obj(r["ir"])
    a = m.init(add(o.get("src0"), em.t.base))
    b = m.init(add(o.get("src1"), em.t.base))
    d = add(o.get("dest"), em.t.base)
    return a, b, d


def _finish(em, r, m, d, value, bad, how, x=None):
    import backend
    backend.compare(em, r, m, d, value, [], ("next", None), how, x, bad)


def _run(m, i, stop):
    try:
        return m.run(i, stop)
    except Halt as h:
        raise BadWord("template leaves with %s" % h.why)


def _mul(em, r, m, head, bad):
    a, b, d = _operands(em, r, m)
    k, pc = _run(m, 0, {head})
    if k == len(m.dec):
        _finish(em, r, m, d, mul(a, b), bad, "next")
        return
    if k != head:
        bad("leaves the template")
        return
    st = m.st
    cands = [(x, y, z) for x in _regs_with(st, a) for y in _regs_with(st, b)
             for z in _regs_with(st, 0)
             if not same(x, y) and not same(x, z) and not same(y, z)]
    cands = _pick(r, cands)
    if cands is None:
        bad("loop state does not start from the operands and zero")
        return
    x, y, z = cands
    X = var("x")
    bit = P().choose(2, "multiplier bit")
    H = var("h", 0, IMAX)
    Y = add(mulc(H, 2), bit)
    prod = mul(a, b)
    acc = sub(prod, dmul(X, Y))
    frame = _frame(m, (x, y, z))
    _havoc(m, r)
    _enter(m, [(x, X), (y, Y), (z, acc)])
    k, pc = _run(m, head, {head})
    if k == head:
        if not same(_val(m.st, x), mulc(X, 2)):
            bad("loop step: multiplicand becomes %s" % _val(m.st, x))
        if not same(_val(m.st, y), H):
            bad("loop step: multiplier becomes %s" % _val(m.st, y))
        want = sub(prod, mulc(dmul(X, H), 2))
        if not same(_val(m.st, z), want):
            bad("loop step: partial product becomes %s instead of %s"
                % (_val(m.st, z), want))
        _frame_ok(em, m, r, frame, bad, "loop step")
    elif k == len(m.dec):
        if not (same(X, 0) or same(Y, 0)):
            bad("loop may end while multiplicand and multiplier are non-zero")
        _finish(em, r, m, d, prod, bad, "next")
    else:
        bad("leaves the template")


class Collect(Exception):
    """raised while the candidate role assignments are being intersected"""


def _pick(r, cands):
    """the role assignment under trial, if this path's head state admits it"""
    sh = r["shared"]
    keys = {tuple(str(P().simp(x)) for x in c): c for c in cands}
    if "common" not in sh or sh["trial"] is None:
        sh["common"] = set(keys) if sh.get("common") is None else sh["common"] & set(keys)
        raise Collect()
    c = keys.get(sh["trial"])
    if c is not None:
        sh["roles"] = c
    return c


def _div(em, r, m, heads, bad):
    a, b, d = _operands(em, r, m)
    P().assume(ne(b, 0))
    isdiv = r["op"] == "OP_div"
    na = P().truth(lt(a, 0), "a<0")
    nb = P().truth(lt(b, 0), "b<0")
    if same(a, b):
        # one register is both operands: every comparison is decided
        P().truth(eq(a, IMIN), "a==INT_MIN")
        k, pc = _run(m, 0, ())
        if k != len(m.dec):
            bad("leaves the template")
        _finish(em, r, m, d, 1 if isdiv else 0, bad, "next")
        return
    ua = neg(a) if na else a
    ub = neg(b) if nb else b
    sp = em.t.sp
    sp0 = m.init(sp)
    h1, h2 = heads

    def result(q, rem):
        if isdiv:
            return neg(q) if na != nb else q
        return neg(rem) if na else rem
    k, pc = _run(m, 0, {h1, h2})
    if k == len(m.dec):
        if not same(a, 0):
            bad("skips the division although the dividend may be non-zero")
        _finish(em, r, m, d, 0, bad, "next")
        return
    if k not in (h1, h2):
        bad("leaves the template")
        return
    st = m.st
    Rs, Ds, Bs, Qs = (_regs_with(st, v) for v in (ua, ub, 1, 0))
    cands = []
    for c in itertools.product(Rs, Ds, Bs, Qs):
        if all(not same(p, q) for p, q in itertools.combinations(c, 2)):
            cands.append(c)
    c = _pick(r, cands)
    if c is None:
        bad("the division loops do not start from |dividend|, |divisor|, 1 and 0")
        return
    rR, rD, rB, rQ = c
    frame = _frame(m, c)
    seg = P().choose(2, "which loop") if k == h1 else 1
    if seg == 0:
        D, B = var("D"), var("B")
        _havoc(m, r)
        _enter(m, [(rD, D), (rB, B)])
        k, pc = _run(m, h1, {h1, h2})
        less = P().known(ltu(D, ua))
        if k == h1:
            if less is not True:
                bad("first loop repeats although the scaled divisor may not be "
                    "below the dividend")
            want = [(rR, ua), (rD, mulc(D, 2)), (rB, mulc(B, 2)), (rQ, 0)]
        elif k == h2:
            if less is not False:
                bad("first loop stops although the scaled divisor may be below "
                    "the dividend")
            want = [(rR, ua), (rD, D), (rB, B), (rQ, 0)]
        else:
            bad("leaves the template")
            return
        for reg, v in want:
            if not same(_val(m.st, reg), v):
                bad("first loop: register %s holds %s instead of %s"
                    % (reg, _val(m.st, reg), v))
        _frame_ok(em, m, r, frame, bad, "first loop")
        return
    R, Q = var("R"), var("Q")
    last = P().choose(2, "last digit") == 0
    if last:
        D, B = ub, 1
    else:
        E, H = var("E", 1, IMAX), var("H", 1, 1 << 30)
        D, B = mulc(E, 2), mulc(H, 2)
    _havoc(m, r)
    _enter(m, [(rR, R), (rD, D), (rB, B), (rQ, Q)])
    k, pc = _run(m, h2, {h2})
    below = P().known(ltu(R, D))
    if below is None:
        bad("second loop does not compare the remainder with the scaled divisor")
        return
    R2, Q2 = (R, Q) if below else (sub(R, D), add(Q, B))
    if k == h2:
        if last:
            bad("second loop repeats after the last digit")
            return
        for reg, v in ((rR, R2), (rD, E), (rB, H), (rQ, Q2)):
            if not same(_val(m.st, reg), v):
                bad("second loop: register %s holds %s instead of %s"
                    % (reg, _val(m.st, reg), v))
        _frame_ok(em, m, r, frame, bad, "second loop")
    elif k == len(m.dec):
        if not last:
            bad("second loop ends before the last digit")
            return
        _finish(em, r, m, d, result(Q2, R2), bad, "next")
    else:
        bad("leaves the template")

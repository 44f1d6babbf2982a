"""P06 constant evaluation, P07 operator precedence and evaluation order."""
import re
import absint
from absint import PathEnd, Ptr
from cast import AnalysisError
from dom import IMIN, P, DivByZero, eq, explore, ne, same, var
from front import ARITH, BadCFG, Eval, Front, bid, ptr
from par import collect, pmap
from props import check

# the C grammar: token -> (precedence, operation)
BINOPS = {"T_asterisk": (13, "OP_mul"), "T_divide": (13, "OP_div"), "T_mod": (13, "OP_mod"),
          "T_plus": (12, "OP_add"), "T_minus": (12, "OP_sub"),
          "T_lshift": (11, "OP_lshift"), "T_rshift": (11, "OP_rshift"),
          "T_lt": (10, "OP_lt"), "T_le": (10, "OP_leq"), "T_gt": (10, "OP_gt"),
          "T_ge": (10, "OP_geq"), "T_eq": (9, "OP_eq"), "T_noteq": (9, "OP_neq"),
          "T_ampersand": (8, "OP_bit_and"), "T_bit_xor": (7, "OP_bit_xor"),
          "T_bit_or": (6, "OP_bit_or"), "T_log_and": (5, "&&"), "T_log_or": (4, "||")}
SYM = {"T_asterisk": "*", "T_divide": "/", "T_mod": "%", "T_plus": "+", "T_minus": "-",
       "T_lshift": "<<", "T_rshift": ">>", "T_lt": "<", "T_le": "<=", "T_gt": ">",
       "T_ge": ">=", "T_eq": "==", "T_noteq": "!=", "T_ampersand": "&", "T_bit_xor": "^",
       "T_bit_or": "|", "T_log_and": "&&", "T_log_or": "||"}
# one operator of each precedence level, for the longest expressions
REPS = ["T_mod", "T_minus", "T_lshift", "T_lt", "T_eq", "T_ampersand", "T_bit_xor",
        "T_bit_or", "T_log_and", "T_log_or"]


def tree(ops):
    """C parse of x0 op x1 op x2 ...: nested (op, left, right) | index"""
    pos = [0]

    def climb(minp):
        left = pos[0]
        while pos[0] < len(ops) and BINOPS[ops[pos[0]]][0] >= minp:
            o = ops[pos[0]]
            pos[0] += 1
            left = (o, left, climb(BINOPS[o][0] + 1))
        return left
    return climb(0)


def show(ops):
    return "x0" + "".join(" %s x%d" % (SYM[o], i + 1) for i, o in enumerate(ops))


COMM = {"OP_add", "OP_mul", "OP_bit_and", "OP_bit_or", "OP_bit_xor", "OP_eq", "OP_neq"}


def form(op, a):
    """uninterpreted value; operand order of commutative operations is immaterial"""
    if op == "const":
        return P().simp(a[0])
    if op in ("OP_gt", "OP_geq"):
        op, a = {"OP_gt": "OP_lt", "OP_geq": "OP_leq"}[op], [a[1], a[0]]
    a = list(a)
    if op in COMM:
        a.sort(key=repr)
    return (op,) + tuple(a)


class Truth:
    """the truth of an unknown value is decided once per path"""

    def __init__(self):
        self.d = {}

    def __call__(self, v):
        if isinstance(v, int):
            return v != 0
        if v not in self.d:
            self.d[v] = P().choose(2, str(v)) == 0
        return self.d[v]


def reference(t, xs, order, truth):
    """value under C; appends evaluated operands to `order`"""
    if isinstance(t, int):
        order.append(t)
        return xs[t]
    o, a, b = t
    if o in ("T_log_and", "T_log_or"):
        v = truth(reference(a, xs, order, truth))
        if v == (o == "T_log_or"):
            return int(v)
        return int(truth(reference(b, xs, order, truth)))
    x = reference(a, xs, order, truth)
    y = reference(b, xs, order, truth)
    return form(BINOPS[o][1], (x, y))


def supply(front, depth, first, alpha, term):
    """operands at even positions; operators, unknown, between them"""
    def f(i):
        if i % 2 == 0:
            return "T_identifier"
        if i == 1 and first is not None:
            return first
        if i // 2 + 1 >= depth:
            return term
        return set(alpha) | {term}
    return f


def operators_read(fr):
    out = []
    i = 1
    while i < len(fr.toks):
        k = fr.kind(i)
        if k in BINOPS:
            out.append(k)
        else:
            break
        i += 2
    return out, i


def run_read_expr(first, depth, alpha):
    """all expressions of up to `depth` operands starting with operator `first`"""
    fr = Front("arm")
    out, n = [], [0, 0]

    def operand(ip, args, node):
        k = fr.nops
        fr.nops += 1
        if fr.kind(fr.unread()) != "T_identifier":
            raise PathEnd("error", "operand expected")
        pbb = args[1]
        v = fr.value("v%d" % k)
        fr.event(pbb.obj.get(pbb.key), k, v)
        ip.call("opstack_push", [v])
        fr.advance()
        return 0
    fr.ip.summaries["read_expr_operand"] = operand

    def run():
        fr.nops = 0
        fr.start(supply(fr, depth, first, alpha, "T_semicolon"))
        ip = fr.ip
        from absint import Arr
        cell = Arr(ip.ptype("basic_block_t *"), 1, "bb", "zero", ip)
        cell.slots[0] = fr.entry
        try:
            ip.call("read_expr", [fr.parent, Ptr(cell, 0)])
        except PathEnd as e:
            ops, _ = operators_read(fr)
            if e.how == "error":
                return ("diag", ops, e.msg)
            return ("stop", ops, "%s %s" % (e.how, e.msg))
        ops, i = operators_read(fr)
        if fr.unread() != i:
            return ("bad", ops, "the parser stops at token %d of the expression" % fr.unread())
        final = cell.get(0)
        sp = ip.gget("operand_stack_idx")
        if sp != 1:
            return ("bad", ops, "%s values are left for one expression" % sp)
        res = ip.gget("operand_stack").get(0)
        truth = Truth()
        xs = ["x%d" % j for j in range(len(ops) + 1)]
        ev = Eval(fr, form=form, fresh=lambda lab: xs[lab])
        bb, steps = fr.entry, 0
        try:
            while True:
                term = ev.block(bb)
                o = ip.obj(bb)
                if bid(bb) == bid(final):
                    if term:
                        raise BadCFG("the result block already ends in a branch")
                    break
                if term is None:
                    nxt = ptr(o.get("next"))
                elif term[0] == "br":
                    nxt = ptr(o.get("then_" if truth(term[1]) else "else_"))
                else:
                    raise BadCFG("return inside an expression")
                if not isinstance(nxt, Ptr):
                    raise BadCFG("a block has no successor")
                bb = nxt
                steps += 1
                if steps > 60:
                    raise BadCFG("expression evaluation does not end")
            got = ev.val(res)
        except BadCFG as e:
            return ("bad", ops, str(e))
        order = []
        want = reference(tree(ops), xs, order, truth)
        if ev.trace != order:
            return ("bad", ops, "operands %s are evaluated; C evaluates %s"
                    % (ev.trace, order))
        if got != want:
            return ("bad", ops, "yields %s; C yields %s" % (got, want))
        return ("ok", ops, None)
    for _, (k, ops, msg) in explore(run, 200000):
        n[0] += 1
        if k in ("bad", "stop"):
            out.append((ops, msg))
        elif k == "diag":
            n[1] += 1
            if msg not in ("operand expected",):
                out.append((ops, "is rejected: %s" % msg))
    return out, n


def report(res, what, where, rule, results):
    seen = {}
    for ops, msg in results:
        key = "%s/%s" % (what, "_".join(o[2:] for o in ops[:3]))
        seen.setdefault(tuple(ops), (key, msg))
    # report the shortest expressions only
    short = sorted(seen, key=len)
    kept = []
    for o in short:
        if any(len(k) < len(o) and any(o[i:i + len(k)] == k for i in range(len(o)))
               for k in kept):
            continue
        kept.append(o)
        key, msg = seen[o]
        res.find(key, rule, where, "%s: %s" % (show(o), msg))


@check("P07", "other",
       "read_expr is interpreted on token streams whose operators are unknown until the parser's "
       "own comparisons refine them; operands are summarised as opaque values. For every path the "
       "instructions and blocks built are read back symbolically and compared, value and "
       "evaluation order of the operands included, with the parse the C grammar gives.",
       ["expressions of up to 4 operands over all operators, 5 operands over one operator "
        "per precedence level (thorough); chains of && and || up to 6 operands"])
def p07(res):
    alpha = sorted(BINOPS)
    tasks = [(None, 1, alpha)] + [(f, 3, alpha) for f in alpha]
    d = 5 if res.tier == "thorough" else 4
    tasks += [(f, d, REPS) for f in REPS]
    # && and || combine through shared blocks: longer chains of them
    logs = ["T_log_and", "T_log_or"]
    tasks += [(f, 6, logs) for f in logs]
    if res.tier == "thorough":
        tasks += [(f, 6, logs + ["T_bit_or"]) for f in logs + ["T_bit_or"]]
    from cast import load
    f = load("arm").functions.get("read_expr")
    if f is None:
        raise AnalysisError("anchor read_expr not found")
    bad = []

    def merge(r):
        out, n = r
        bad.extend(out)
        res.ob(n[0])
        res.count("expression paths", n[0])
    collect(res, pmap(run_read_expr, tasks), merge)
    report(res, "expr", "%s (read_expr)" % f.where, "C precedence and associativity", bad)
    import p_ctx
    ps = p_ctx.programs(res.tier == "thorough")
    found, skipped = [], [0]

    def merge2(r):
        for key, n, text, msgs in r:
            res.ob(n)
            res.count("%s programs" % key, n)
            skipped[0] += n == 0
            found.extend((key, text, m) for m in msgs)
    collect(res, pmap(p_ctx.batch, [(ps[i::48],) for i in range(48)]), merge2)
    res.count("programs the parser does not take", skipped[0])
    if skipped[0] * 4 > len(ps):
        raise AnalysisError("the parser rejects most programs")
    found.sort(key=lambda x: (len(x[1]), x[1]))
    where = load("arm").functions["read_body_statement"].where
    for key, text, m in found[:20]:
        res.find("%s/%s" % (key, re.sub(r"\s+", "_", text)[:160]), "an expression means the same wherever it stands",
                 "%s (read_body_statement)" % where, "%s: %s" % (text[:400], m[:200]))

"""P01-P04: the two machine back ends."""
import image
from absint import arena_alloc
from backend import ARCHES, check_op, check_frames
from cast import AnalysisError, load
from codegen import Target, Emitter, ROLES, IMM_OPS, reg_patterns
from par import pmap, collect
from props import check

HARD = ("OP_mul", "OP_div", "OP_mod")
_em = {}


def emitter(arch):
    if arch not in _em:
        _em[arch] = Emitter(Target(arch))
        _em[arch].ip.summaries["arena_alloc"] = arena_alloc
    return _em[arch]


def case_where(arch, fname, opname):
    tu = load(arch)
    f = tu.functions.get(fname)
    if f is None:
        return "src/%s-codegen.c:%s" % (arch, fname)
    for n in f.walk():
        if n.kind == "CaseStmt":
            for r in n.inner[0].walk():
                if r.kind == "DeclRefExpr" and r.refname == opname:
                    return "%s (%s)" % (n.where, fname)
    return "%s (%s)" % (f.where, fname)


def one(arch, opn, hard):
    em = emitter(arch)
    probs, recs = [], []
    falls = {}
    for pat in reg_patterns(opn):
        p, rs = check_op(em, opn, pat, hard)
        probs += p
        for r in rs:
            if "falls" in r:
                falls.setdefault(r["falls"], []).append(r["path"])
            recs.append({k: r.get(k) for k in ("path", "layout", "layout_stop", "emit_stop",
                                               "bad", "layout_mutates", "ninsn")})
            recs[-1]["pat"] = pat
            recs[-1]["words"] = len(r["words"]) if "words" in r else None
    return arch, opn, hard, probs, recs


def tasks(ops):
    for a in ARCHES:
        emitter(a)
    return [(a, o, h) for a in ARCHES for o in ops
            for h in ((0, 1) if o in HARD else (None,))]


def label(a, o, h):
    return "%s/%s%s" % (a, o, "" if h is None else "+m" if h else "-m")


def run_image(arch):
    return arch, image.check_image(arch, emitter(arch))


@check("P01", "proof",
       "For every machine operation, operand-register aliasing pattern and immediate, the "
       "size counted by the layout pass is compared with the number of bytes the emitter "
       "writes on the same path; program skeletons with every block order are laid out, "
       "emitted, decoded and followed from the first word to the exit system call.",
       assumptions=("skeleton programs contain every control transfer kind; a layout pass "
                    "that treats longer programs differently from the sum of their "
                    "operations is outside the argument",))
def p01(res):
    def merge(x):
        arch, opn, hard, probs, recs = x
        res.count("operation/option pairs")
        for r in recs:
            if r["layout_stop"]:
                continue
            res.ob()
            res.count("paths")
            key = "%s/layout" % label(arch, opn, hard)
            where = case_where(arch, "update_elf_offset", opn)
            if opn == "OP_define":
                continue
            if r["layout_mutates"]:
                res.find(key, "layout does not change the operation it measures", where,
                         "fields changed: %s" % r["layout_mutates"])
            if r["bad"]:
                res.find(key, "emission is whole words", where, r["bad"])
            elif r["words"] is not None and r["layout"] != 4 * r["words"]:
                res.find(key, "bytes laid out = bytes emitted", where,
                         "%s, registers %s [%s]: layout counts %s bytes, %d are emitted"
                         % (opn, r["pat"], r["path"], r["layout"], 4 * r["words"]))
            elif len(res.samples) < 8 and r["words"]:
                res.sample("%s %s: %d bytes on both sides [%s]"
                           % (label(arch, opn, hard), r["pat"], 4 * r["words"], r["path"]))
    collect(res, pmap(one, tasks(list(ROLES))), merge)
    images(res, ("layout",))
    for a in ARCHES:
        if res.coverage.get("operation/option pairs", 0) < 2 * len(ROLES):
            raise AnalysisError("fewer operations analysed than exist")


def images(res, tags):
    def mi(x):
        arch, (probs, cov) = x
        for k, v in cov.items():
            res.count(k, v)
        res.ob(cov["paths"])
        for tag, key, s in probs:
            if tag in tags:
                f = load(arch).functions.get("code_generate")
                g = load(arch).functions.get("cfg_flatten")
                res.find("%s/image/%s" % (arch, key), "whole-image execution",
                         "%s (cfg_flatten), %s (code_generate)" % (
                             g.where if g else "?", f.where if f else "?"), s)
    collect(res, pmap(run_image, [(a,) for a in ARCHES]), mi)


def templates(res, ops):
    def merge(x):
        arch, opn, hard, probs, recs = x
        res.count("operation/option pairs")
        key = label(arch, opn, hard)
        where = case_where(arch, "emit_ph2_ir", opn)
        for r in recs:
            if r["layout_stop"]:
                continue
            res.ob()
            res.count("paths")
            if r["emit_stop"]:
                if r["emit_stop"].startswith("error") and opn in IMM_OPS:
                    res.count("diagnosed paths")
                    continue
                res.find(key, "every operation is emitted", where,
                         "registers %s [%s]: emission stops (%s)"
                         % (r["pat"], r["path"], r["emit_stop"]))
            elif r["bad"]:
                res.find(key, "every emitted word is an instruction", where, r["bad"])
            elif len(res.samples) < 8:
                res.sample("%s %s [%s]: %s instructions agree with the operation"
                           % (key, r["pat"], r["path"], r["ninsn"]))
        for s in probs:
            res.find(key, "template computes its operation and nothing else", where, s)
    t = tasks(ops)
    collect(res, pmap(one, t), merge)
    if res.coverage.get("paths", 0) < len(t):
        raise AnalysisError("an operation has no analysable path")


@check("P02", "proof",
       "Symbolic immediates and displacements over their whole 32-bit range: every emitted "
       "sequence is decoded with an independent instruction decoder and must load, store or "
       "jump with exactly that immediate, or the compiler must stop with a diagnostic.")
def p02(res):
    templates(res, [o for o in IMM_OPS if o not in ("OP_return", "OP_define")])


@check("P03", "proof",
       "Every computing operation is emitted with symbolic registers in every aliasing "
       "pattern; the decoded sequence is given machine semantics and must leave the C value "
       "in the destination and every other register and all memory unchanged.  Loops in the "
       "software multiply/divide are handled with a cut-point invariant.",
       assumptions=("the quotient/product invariants used at the loop cut points are stated "
                    "over unbounded integers and 32-bit masks in analyzer/loops.py",))
def p03(res):
    templates(res, [o for o in ROLES if o not in IMM_OPS])


@check("P04", "proof",
       "Prologue/epilogue pairs with a symbolic frame size, and the start, system-call, "
       "main-entry and exit stubs executed abstractly inside whole images.")
def p04(res):
    for a in ARCHES:
        em = emitter(a)
        probs, cov = [], {}
        check_frames(em, probs, cov)
        n = cov.get("frame paths", 0)
        res.ob(n)
        res.count("frame paths", n)
        if not n:
            raise AnalysisError("no frame path analysed")
        for s in probs:
            res.find("%s/frame" % a, "frames are balanced and keep the return address",
                     case_where(a, "emit_ph2_ir", "OP_return"), s)
    images(res, ("abi",))

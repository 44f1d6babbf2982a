"""P05: the output file is a loadable ELF image describing its own layout."""
from absint import Interp, PathEnd, Ptr, Arr, Undef
from cast import AnalysisError, load
from codegen import limits
from dom import (P, Lin, explore, var, add, sub, mulc, bits, from_bits, same, atom_of,
                 lt, le, lincanon, eq, band)
from props import check

MACH = {"arm": 40, "riscv": 243}


class Out:
    """what is written to a stream: bytes and buffer ranges, in order"""

    def __init__(self):
        self.items = []
        self.opened, self.closed = [], 0


def _local(node):
    while node.kind in ("ImplicitCastExpr", "ParenExpr"):
        node = node.inner[0]
    return node


def pure(n):
    return not any(x.kind in ("CallExpr", "CompoundAssignOperator") or
                   x.kind == "UnaryOperator" and x.op in ("++", "--") or
                   x.kind == "BinaryOperator" and x.op == "="
                   for x in n.walk())


def make_hook(out, bufs):
    def hook(ip, n, init, cond, inc, body, post):
        if cond is None or post or not pure(cond):
            return False
        # symbolic trip count: one abstract iteration stands for all of them
        fr = ip.frames[-1]
        lv = None
        for r in cond.walk():
            if r.kind == "DeclRefExpr" and r.ref in fr.slots:
                k0 = fr.slots[r.ref]
                if isinstance(k0, int) and _stepped(r.ref, inc, body):
                    lv = r.ref
                    break
        if lv is None:
            if isinstance(ip.ev(cond), Lin):
                raise AnalysisError("loop at %s has no recognised counter" % n.where)
            return False
        k = var("k%d@%s" % (len(out.items), n.where), k0, 1 << 24)
        fr.slots[lv] = k
        c = ip.ev(cond)
        a = atom_of(c)
        if a is None or a.name not in ("ltz", "nez"):
            fr.slots[lv] = k0
            if isinstance(c, int):
                return False
            raise AnalysisError("loop condition at %s not understood" % cond.where)
        n1 = sub(k, a.args[0])
        if not _free(n1, k):
            n1 = add(k, a.args[0])
        if not _free(n1, k):
            raise AnalysisError("loop bound at %s not understood" % cond.where)
        n1 = P().simp(n1)
        if isinstance(n1, int):
            fr.slots[lv] = k0
            return False
        P().assume(c)
        mark = len(out.items)
        before = {x: y for x, y in ip.gvars.slots.items()}
        locs = {x: y for x, y in fr.slots.items()}
        ip.st(body)
        if inc is not None:
            ip.ev(inc)
        if not same(fr.slots[lv], add(k, 1)):
            raise AnalysisError("counter of the loop at %s does not step by one" % n.where)
        for x, y in fr.slots.items():
            if x != lv and x in locs and y is not locs[x] and not _eqv(y, locs[x]):
                raise AnalysisError("loop at %s carries other state" % n.where)
        for x, y in ip.gvars.slots.items():
            if x in before and y is not before[x] and not _eqv(y, before[x]):
                raise AnalysisError("loop at %s changes a global" % n.where)
        it = out.items[mark:]
        del out.items[mark:]
        if len(it) != 1 or it[0][0] != "byte":
            raise AnalysisError("loop at %s writes %d items per round" % (n.where, len(it)))
        for name, arr in bufs.items():
            if _byte_same(it[0][1], arr.get(k)):
                out.items.append(("range", name, k0, n1, n.where))
                break
        else:
            out.items.append(("range", "?%s" % (it[0][1],), k0, n1, n.where))
        fr.slots[lv] = n1
        return True
    return hook


def _byte_same(a, b):
    return same(a, b) or bits(a)[:8] == bits(b)[:8]


def _eqv(a, b):
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return same(a, b)
    return a == b


def _free(v, k):
    if isinstance(v, int):
        return True
    ka = atom_of(k)
    return all(a is not ka and a.key != ka.key for a, _ in v.t)


def _stepped(vid, inc, body):
    for part in (inc, body):
        if part is None:
            continue
        for x in part.walk():
            if x.kind == "UnaryOperator" and x.op == "++" or \
                    x.kind in ("CompoundAssignOperator",) or \
                    x.kind == "BinaryOperator" and x.op == "=":
                t = _local(x.inner[0])
                if t.kind == "DeclRefExpr" and t.ref == vid:
                    return True
    return False


def _k(v):
    v = P().simp(lincanon(v))
    return v if isinstance(v, int) else v.key


def LE(a, b):
    for d in (P().simp(sub(b, a)), P().simp(lincanon(sub(b, a)))):
        if (d if isinstance(d, int) else P().mrange(d)[0]) >= 0:
            return True
    return False


def word(bs):
    w = []
    for b in bs:
        w += bits(b)[:8]
    return from_bits(w + [0] * (32 - len(w)))


def run_elf(arch, res, outname):
    """abstractly execute the ELF writer; return problems for one target"""
    tu = load(arch)
    msgs = []
    cov = {}

    def run():
        out = Out()
        bufs = {}
        ip = Interp(tu, {}, unroll=5000)

        def s_fopen(ip, args, node):
            out.opened.append((args[0], ip.cstr(args[1]), node))
            return Ptr(Arr(("opaque", "FILE"), 1, "stream", "sym", ip), 0)

        def s_fputc(ip, args, node):
            out.items.append(("byte", args[0], node.where))
            return args[0]

        def s_fwrite(ip, args, node):
            p, sz, n = args[0], args[1], args[2]
            from dom import mul
            name = next((k for k, a in bufs.items()
                         if isinstance(p, Ptr) and p.obj is a), "?")
            tot = mul(sz, n)
            if name == "?" or not isinstance(p.key, int):
                raise AnalysisError("fwrite at %s from an unknown buffer" % node.where)
            if isinstance(tot, int) and p.obj.mode != "sym":
                for i in range(tot):
                    out.items.append(("byte", p.obj.get(p.key + i), node.where))
            else:
                out.items.append(("range", name, p.key, add(p.key, tot), node.where))
            return n

        def s_fclose(ip, args, node):
            out.closed += 1
            return 0
        ip.summaries.update({"fopen": s_fopen, "fputc": s_fputc, "putc": s_fputc,
                             "fwrite": s_fwrite, "fclose": s_fclose})
        # global_init establishes the code address
        ip.summaries["arena_init"] = lambda ip, a, n: 0
        ip.summaries["hashmap_create"] = lambda ip, a, n: 0
        try:
            ip.call("global_init", [])
        except (PathEnd, AnalysisError):
            pass
        cs = ip.gget("elf_code_start")
        ncode = mulc(var("CODE", 20, limits()[0] // 4), 4)
        ndata = add(mulc(var("DATA", 0, 1 << 18), 4), P().choose(4, "data length mod 4"))
        for b in ("elf_code", "elf_data"):
            a = Arr(("int", 8, True), None, b, "sym", ip)
            bufs[b] = a
            ip.gset(b, Ptr(a, 0))
        for b in ("elf_header", "elf_section", "elf_symtab", "elf_strtab"):
            a = Arr(("int", 8, True), None, b, "undef", ip)
            bufs[b] = a
            ip.gset(b, Ptr(a, 0))
        ip.gset("elf_code_idx", ncode)
        ip.gset("elf_data_idx", ndata)
        ip.gset("elf_header_idx", 0)
        # what parse() leaves behind in the symbol tables must not matter
        for g in ("elf_symtab_index", "elf_strtab_index", "elf_symbol_index",
                  "elf_section_index"):
            ip.gset(g, var(g + "0", 0, 1 << 12))
        ip.loop_hook = make_hook(out, bufs)
        ip.call("elf_generate", [ip.string(outname) if outname else 0])
        return judge(arch, ip, out, cs, ncode, ndata, outname)
    n = 0
    for p, r in explore(run):
        n += 1
        msgs.append(r)
    cov["paths"] = n
    return msgs, cov


def judge(arch, ip, out, cs, ncode, ndata, outname):
    m = []
    obs = [0]

    def bad(where, s):
        m.append((where, s))

    def req(c, where, s):
        obs[0] += 1
        if not c:
            bad(where, s)

    def eqv(a, b):
        return same(P().simp(lincanon(sub(a, b))), 0)
    req(len(out.opened) == 1 and out.closed == 1, "open/close",
        "the output file is opened %d and closed %d times" % (len(out.opened), out.closed))
    if out.opened:
        nm, mode, _ = out.opened[0]
        req(mode == "wb", "mode", "output is opened with mode %r" % mode)
        want = outname
        if want:
            req(ip.cstr(nm) == want, "name", "output goes to %r" % ip.cstr(nm))
    # file map: list of (offset, length, kind, payload)
    off = 0
    fbytes = []              # (offset, value) for constants
    segs = []
    for it in out.items:
        if it[0] == "byte":
            v = it[1]
            if isinstance(v, Undef):
                bad("content", "an uninitialised byte is written at file offset %s" % (off,))
                v = 0
            fbytes.append((off, v))
            off = P().simp(add(off, 1))
        else:
            _, name, a, b, w = it
            segs.append((name, off, a, b))
            off = P().simp(add(off, sub(b, a)))
    size = off

    index = {}
    for k, v in fbytes:
        index[_k(k)] = v

    def rd(o, n):
        """value of n bytes at file offset o, None if not constant bytes"""
        bs = []
        for i in range(n):
            t = P().simp(add(o, i))
            v = index.get(_k(t))
            if v is None:
                return None
            bs.append(v)
        return word(bs)

    def u(o, n):
        v = rd(o, n)
        return P().simp(lincanon(v)) if v is not None else None
    ident = [u(i, 1) for i in range(16)]
    req(ident[:4] == [0x7f, 0x45, 0x4c, 0x46], "e_ident", "bad magic %s" % ident[:4])
    req(ident[4:7] == [1, 1, 1], "e_ident", "class/data/version are %s" % ident[4:7])
    req(ident[7] in (0, 3), "e_ident", "OS ABI is %s" % ident[7])
    H = {}
    for nme, o, w in (("e_type", 16, 2), ("e_machine", 18, 2), ("e_version", 20, 4),
                      ("e_entry", 24, 4), ("e_phoff", 28, 4), ("e_shoff", 32, 4),
                      ("e_flags", 36, 4), ("e_ehsize", 40, 2), ("e_phentsize", 42, 2),
                      ("e_phnum", 44, 2), ("e_shentsize", 46, 2), ("e_shnum", 48, 2),
                      ("e_shstrndx", 50, 2)):
        H[nme] = u(o, w)
    req(H["e_type"] == 2, "e_type", "file type is %s" % H["e_type"])
    req(H["e_machine"] == MACH[arch], "e_machine", "machine is %s" % H["e_machine"])
    req(H["e_version"] == 1, "e_version", "version is %s" % H["e_version"])
    fl = H["e_flags"]
    if arch == "arm":
        req(isinstance(fl, int) and (fl >> 24) & 0xff == 5 and not fl & 0x400, "e_flags",
            "ARM flags %s are not EABI 5 soft-float compatible" % (fl,))
    else:
        req(isinstance(fl, int) and fl & 0xe == 0, "e_flags", "RISC-V flags %s" % (fl,))
    req(H["e_ehsize"] == 52, "e_ehsize", "header size is %s" % H["e_ehsize"])
    req(H["e_phentsize"] == 32, "e_phentsize", "is %s" % H["e_phentsize"])
    req(H["e_shentsize"] == 40 or H["e_shnum"] == 0, "e_shentsize", "is %s" % H["e_shentsize"])
    # segments
    code = [s for s in segs if s[0] == "elf_code"]
    data = [s for s in segs if s[0] == "elf_data"]
    req(len(code) == 1 and code[0][2] == 0 and eqv(code[0][3], ncode), "code",
        "the code is not written exactly once in full: %s" % (code,))
    req(len(data) == 1 and data[0][2] == 0 or not data and eqv(ndata, 0), "data",
        "the data is not written exactly once: %s" % (data,))
    strange = [s[0] for s in segs if s[0] not in ("elf_code", "elf_data")]
    req(not strange, "content", "unknown content is written: %s" % strange)
    if not code:
        return m, obs[0]
    coff = code[0][1]
    clen = code[0][3]
    if data:
        doff, dlen = data[0][1], data[0][3]
        req(LE(ndata, dlen), "data", "only %s of %s data bytes are written"
            % (dlen, ndata))
        req(eqv(doff, add(coff, clen)), "data", "data does not follow the code in the file")
    else:
        doff, dlen = add(coff, clen), 0
    req(eqv(H["e_entry"], cs), "e_entry",
        "entry point is %s; the code is linked at %s" % (H["e_entry"], cs))
    load_ok = False
    ph, np = H["e_phoff"], H["e_phnum"]
    if not isinstance(ph, int) or not isinstance(np, int) or np < 1 or np > 8:
        bad("e_phoff", "program headers at %s, count %s" % (ph, np))
    else:
        for i in range(np):
            f = [u(ph + 32 * i + 4 * j, 4) for j in range(8)]
            if any(x is None for x in f):
                bad("program header %d" % i, "lies outside the written headers")
                continue
            typ, po, pv, pp, pfs, pms, pfl, pal = f
            if typ != 1:
                continue
            end = add(po, pfs)
            req(LE(end, size), "p_filesz", "segment extends past the file")
            req(LE(pfs, pms), "p_memsz", "memory size is smaller than file size")
            req(isinstance(pal, int) and pal in (0, 1) or isinstance(pal, int) and
                pal & (pal - 1) == 0 and P().simp(band(sub(pv, po), pal - 1)) == 0,
                "p_align", "address and offset are not congruent modulo %s" % (pal,))
            # covers code and data at the linked addresses?
            if eqv(sub(pv, po), sub(cs, coff)):
                cov0 = LE(po, coff)
                cov1 = LE(add(coff, clen), end)
                covd = LE(add(doff, dlen), end)
                if cov0 and cov1 and covd:
                    load_ok = True
                    req(pfl & 5 == 5 and pfl & 2 == 2, "p_flags",
                        "segment flags %s lack read/write/execute" % (pfl,))
        req(load_ok, "PT_LOAD", "no loadable segment maps code and data at the addresses "
            "they are linked at")
    # sections
    sh, ns = H["e_shoff"], H["e_shnum"]
    if ns:
        req(isinstance(ns, int) and isinstance(H["e_shstrndx"], int) and
            H["e_shstrndx"] < ns, "e_shstrndx", "names section %s of %s"
            % (H["e_shstrndx"], ns))
        S = []
        for i in range(ns if isinstance(ns, int) else 0):
            f = [u(add(sh, 40 * i + 4 * j), 4) for j in range(10)]
            if any(x is None for x in f):
                bad("section header %d" % i, "does not lie in the written section table")
                return m, obs[0]
            S.append(f)
        req(eqv(size, add(sh, 40 * ns)), "e_shoff", "file ends at %s, section table at %s"
            % (size, add(sh, 40 * ns)))
        strs = S[H["e_shstrndx"]]

        def name(f):
            t = ""
            o = add(strs[4], f[0])
            while len(t) < 32:
                c = u(o, 1)
                if not isinstance(c, int) or c == 0:
                    return t if c == 0 else None
                t += chr(c)
                o = add(o, 1)
        req(all(x == 0 for x in S[0]), "section 0", "the null section is not null")
        seen = {}
        for i, f in enumerate(S[1:], 1):
            nm = name(f)
            seen[nm] = (i, f)
            req(nm is not None, "section %d" % i, "name is not in the names section")
            req(LE(add(f[4], f[5]), size), "section %s" % nm,
                "extends past the file")
            req(LE(add(f[0], 1), strs[5]),
                "section %s" % nm, "name offset %s outside the names" % (f[0],))
        for nm, (fo, ln, va) in {".text": (coff, clen, cs),
                                 ".data": (doff, dlen, add(cs, clen))}.items():
            if nm not in seen:
                bad("section %s" % nm, "is missing")
                continue
            f = seen[nm][1]
            req(f[1] == 1 and eqv(f[4], fo) and eqv(f[5], ln) and eqv(f[3], va),
                "section %s" % nm, "describes offset %s size %s address %s; actual %s %s %s"
                % (f[4], f[5], f[3], fo, ln, va))
        req(strs[1] == 3, "section names", "type is %s" % strs[1])
        prev = 0
        for i, f in enumerate(S):
            if f[1] == 2:
                req(isinstance(f[6], int) and 0 < f[6] < ns and S[f[6]][1] == 3,
                    "symbol table", "linked string table is section %s" % (f[6],))
                req(f[9] == 16, "symbol table", "entry size %s" % (f[9],))
    return m, obs[0]


@check("P05", "other",
       "The ELF writer is executed abstractly with symbolic code and data sizes (output loops "
       "by one abstract iteration); the resulting file map is parsed as ELF32 and every header "
       "field must agree with where headers, code, data, section table and names really are, "
       "and the loadable segment must map them at their linked addresses.")
def p05(res):
    for arch in ("arm", "riscv"):
        for outname in ("prog.bin", None):
            tu = load(arch)
            f = tu.functions.get("elf_generate")
            if f is None:
                raise AnalysisError("anchor elf_generate not found")
            msgs, cov = run_elf(arch, res, outname)
            res.count("paths", cov["paths"])
            for items, nobs in msgs:
                res.ob(nobs)
                for where, s in items:
                    res.find("%s/%s" % (arch, where), "ELF field consistency",
                             "%s (elf_generate)" % f.where, "%s: %s" % (where, s))
    if res.obligations < 40:
        raise AnalysisError("too few ELF fields checked")

"""Abstract values: integers, linear forms over named atoms, known-bit vectors,
and the per-path interval / exclusion / substitution environment.

A value is a Python int (a known 32-bit signed value) or a Lin:
    c + sum(coeff * atom)        (mod 2^32)
Atoms are unknowns ('var') or uninterpreted results of an operator ('op').
Nothing here calls a solver: branch conditions are decided by the interval
environment or split into both outcomes (trace partitioning).
"""
M32 = 0xFFFFFFFF
IMIN, IMAX = -0x80000000, 0x7FFFFFFF


def wrap(x):
    x &= M32
    return x - 0x100000000 if x & 0x80000000 else x


class Atom:
    __slots__ = ("kind", "name", "args", "lo", "hi", "key")

    def __repr__(self):
        return self.key


_atoms = {}


def _arg_key(a):
    if isinstance(a, Lin):
        return a.key
    return repr(a)


def mk_atom(kind, name, args=(), lo=IMIN, hi=IMAX):
    key = name if kind == "var" else "%s(%s)" % (name, ",".join(_arg_key(a) for a in args))
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.name, a.args, a.lo, a.hi, a.key = kind, name, tuple(args), lo, hi, key
        _atoms[key] = a
    return a


class Lin:
    __slots__ = ("c", "t", "key")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        parts = []
        for a, k in t:
            parts.append(a.key if k == 1 else "%d*%s" % (k, a.key))
        if c or not parts:
            parts.append(str(c))
        self.key = "+".join(parts) if len(parts) == 1 else "(" + "+".join(parts) + ")"

    def __repr__(self):
        return self.key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Lin) and o.key == self.key


def lin(c, d):
    t = tuple(sorted(((a, wrap(k)) for a, k in d.items() if wrap(k) != 0),
                     key=lambda p: p[0].key))
    c = wrap(c)
    if not t:
        return c
    return Lin(c, t)


def var(name, lo=IMIN, hi=IMAX):
    if lo == hi:
        return lo
    return lin(0, {mk_atom("var", name, (), lo, hi): 1})


def op(name, *args, lo=IMIN, hi=IMAX):
    return lin(0, {mk_atom("op", name, args, lo, hi): 1})


def atom_of(v):
    """The single atom v consists of (coefficient 1, constant 0), else None."""
    if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        return v.t[0][0]
    return None


class Infeasible(Exception):
    pass


class TooManyPaths(Exception):
    pass


class Path:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.rng = {}       # norm key -> (lo, hi, frozenset excluded)
        self.sub = {}       # atom -> value
        self.notes = []
        self._memo = {}
        self._bmemo = {}
        self.kb = {}        # (base key, index) -> 0/1

    def getbit(self, base, i):
        v = self.kb.get((base, i))
        return (base, i, False) if v is None else v

    def setbit(self, b, val):
        self.kb[(b[0], b[1])] = val
        self._memo = {}
        self._bmemo = {}

    # choice points -----------------------------------------------------
    def choose(self, n, label=None):
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(1, n):
                self.alts.append(self.taken[:] + [k])
        self.taken.append(d)
        if label is not None:
            self.notes.append((label, d))
        return d

    # simplification ----------------------------------------------------
    def simp(self, v):
        if isinstance(v, int):
            return v
        m = self._memo.get(v.key)
        if m is not None:
            return m
        r = v.c
        for a, k in v.t:
            r = add(r, mulc(self.simp_atom(a), k))
        if isinstance(r, Lin) and r.key != v.key:
            r2 = self.simp(r)
            r = r2
        self._memo[v.key] = r
        return r

    def simp_atom(self, a):
        s = self.sub.get(a)
        if s is not None:
            return s
        if a.kind == "op":
            if a.name == "bits":
                if self.kb or self.sub:
                    nb = _atom_bits(a)
                    if tuple(nb) != a.args[0]:
                        return from_bits(nb)
                return lin(0, {a: 1})
            if a.name in ("ltz", "eqz", "nez") and isinstance(a.args[0], Lin):
                x = self.simp(a.args[0])
                if isinstance(x, int):
                    return int({"ltz": x < 0, "eqz": x == 0, "nez": x != 0}[a.name])
                lo, hi = self.mrange(x)
                if a.name == "ltz":
                    if hi < 0 or lo >= 0:
                        return int(hi < 0)
                elif _zero(lo, hi) is None or _zero(lo, hi) in self.excluded(x):
                    return int(a.name == "nez")
                elif lo == hi == 0:
                    return int(a.name == "eqz")
            na = tuple(self.simp(x) if isinstance(x, Lin) else x for x in a.args)
            if any(_arg_key(x) != _arg_key(y) for x, y in zip(na, a.args)):
                return rebuild(a.name, na, a)
        return lin(0, {a: 1})

    # ranges --------------------------------------------------------------
    def arange(self, a):
        lo, hi = a.lo, a.hi
        r = self.rng.get(a.key)
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def mrange(self, v):
        """Mathematical interval of the linear form (may exceed 32 bits)."""
        if isinstance(v, int):
            return v, v
        lo = hi = v.c
        for a, k in v.t:
            l, h = self.arange(a)
            if k >= 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if len(v.t) > 1:
            n, s, c = norm(v)
            r = self.rng.get(n.key)
            if r:
                if s > 0:
                    lo, hi = max(lo, r[0] * s + c), min(hi, r[1] * s + c)
                else:
                    lo, hi = max(lo, r[1] * s + c), min(hi, r[0] * s + c)
        return lo, hi

    def range(self, v):
        lo, hi = self.mrange(v)
        if lo < IMIN or hi > IMAX:
            return IMIN, IMAX
        return lo, hi

    def excluded(self, v):
        n, s, c = norm(v)
        r = self.rng.get(n.key)
        if not r:
            return frozenset()
        return frozenset(e * s + c for e in r[2])

    def constrain(self, v, lo, hi, excl=()):
        """v in [lo,hi] minus excl, v a Lin."""
        n, s, c = norm(v)
        if s > 0:
            nlo, nhi = -(-(lo - c) // s), (hi - c) // s
        else:
            # s < 0:  (hi-c)/s <= n <= (lo-c)/s
            m = -s
            nlo, nhi = -((hi - c) // m), (c - lo) // m
        ex = set()
        for e in excl:
            if (e - c) % s == 0:
                ex.add((e - c) // s)
        o = self.rng.get(n.key, (-(1 << 40), 1 << 40, frozenset()))
        nlo, nhi, ex = max(nlo, o[0]), min(nhi, o[1]), frozenset(ex) | o[2]
        blo, bhi = self.mrange(n)
        nlo, nhi = max(nlo, blo), min(nhi, bhi)
        while nlo in ex and nlo <= nhi:
            nlo += 1
        while nhi in ex and nlo <= nhi:
            nhi -= 1
        if nlo > nhi:
            raise Infeasible()
        self.rng[n.key] = (nlo, nhi, ex)
        self._memo = {}
        self._bmemo = {}
        if len(n.t) == 1 and n.t[0][1] == 1 and _is_bits(n.t[0][0]):
            # a decided sign decides the sign bit itself
            e = n.t[0][0].args[0][31]
            if not isinstance(e, int) and (nlo >= 0 or nhi < 0):
                self.setbit(e, int(nhi < 0) ^ int(e[2]))
        if nlo == nhi:
            self._equate(n, nlo)

    def _equate(self, n, val):
        """n == val; solve for one atom if a coefficient is +-1."""
        cands = [(a, k) for a, k in n.t if k in (1, -1) and a not in self.sub]
        if not cands:
            return
        # prefer eliminating later-named atoms, op atoms first
        cands.sort(key=lambda p: (p[0].kind != "op", p[0].key), reverse=False)
        a, k = cands[-1] if cands[0][0].kind != "op" else cands[0]
        rest = sub(val, lin(n.c, {b: kk for b, kk in n.t if b is not a}))
        value = mulc(rest, k)
        lo, hi = self.arange(a)
        self.sub[a] = value
        self._memo = {}
        if isinstance(value, int):
            if not lo <= value <= hi:
                raise Infeasible()
        else:
            self.constrain(value, lo, hi)

    # deciding ------------------------------------------------------------
    def truth(self, v, label=None):
        """Python bool of a C truth value, forking when undecided."""
        v = self.simp(v)
        if isinstance(v, int):
            return v != 0
        a = atom_of(v)
        if a is not None and a.kind == "op":
            if a.name == "ltz":
                return self._dec_ltz(a.args[0], label)
            if a.name == "eqz":
                return self._dec_eqz(a.args[0], label)
            if a.name == "nez":
                return not self._dec_eqz(a.args[0], label)
        if len(v.t) == 1 and v.c == 1 and v.t[0][1] == -1 and \
                v.t[0][0].kind == "op" and v.t[0][0].name in ("ltz", "eqz", "nez"):
            return not self.truth(lin(0, {v.t[0][0]: 1}), label)
        return not self._dec_eqz(v, label)

    def known(self, v):
        """True/False when decided by the environment, else None (no fork)."""
        v = self.simp(v)
        if isinstance(v, int):
            return v != 0
        a = atom_of(v)
        neg = False
        if a is not None and a.kind == "op" and a.name in ("ltz", "eqz", "nez"):
            x = a.args[0]
            if a.name == "ltz":
                lo, hi = self.mrange(x)
                return True if hi < 0 else False if lo >= 0 else None
            if a.name == "nez":
                neg = True
        else:
            x, neg = v, True
        lo, hi = self.mrange(x)
        r = None
        z = _zero(lo, hi)
        if z is None or z in self.excluded(x):
            r = False
        elif lo == hi == z:
            r = True
        return r if r is None or not neg else not r

    def _dec_ltz(self, x, label):
        x = self.simp(x)
        if isinstance(x, int):
            return x < 0
        lo, hi = self.mrange(x)
        if hi < 0:
            return True
        if lo >= 0:
            return False
        if self.choose(2, label or "%s<0" % x.key) == 0:
            self.constrain(x, -(1 << 40), -1)
            return True
        self.constrain(x, 0, 1 << 40)
        return False

    def _dec_eqz(self, x, label):
        x = self.simp(x)
        if isinstance(x, int):
            return x == 0
        lo, hi = self.mrange(x)
        z = _zero(lo, hi)
        if z is None or z in self.excluded(x):
            return False
        if lo == hi == z:
            return True
        if self.choose(2, label or "%s==0" % x.key) == 0:
            self.constrain(x, z, z)
            return True
        self.constrain(x, -(1 << 40), 1 << 40, (z,))
        return False

    def assume(self, v):
        """Assume a condition without a choice point."""
        v = self.simp(v)
        if isinstance(v, int):
            if v == 0:
                raise Infeasible()
            return
        a = atom_of(v)
        if a is not None and a.kind == "op" and a.name == "ltz":
            self.constrain(a.args[0], -(1 << 40), -1) if isinstance(a.args[0], Lin) else None
        elif a is not None and a.kind == "op" and a.name == "eqz":
            self.constrain(a.args[0], 0, 0)
        elif a is not None and a.kind == "op" and a.name == "nez":
            self.constrain(a.args[0], -(1 << 40), 1 << 40, (0,))
        else:
            self.constrain(v, -(1 << 40), 1 << 40, (0,))


def _zero(lo, hi):
    """the value congruent to 0 (mod 2^32) a form with this mathematical
    interval can take, None when there is none"""
    if lo <= 0 <= hi:
        return 0
    z = -(-lo // (1 << 32)) * (1 << 32)
    return z if z <= hi else None


CUR = [Path()]


def P():
    return CUR[0]


def norm(v):
    """v = s*n + c with n a canonical Lin without constant."""
    if v.t[0][1] < 0:
        s = -1
    else:
        s = 1
    from math import gcd
    g = 0
    for _, k in v.t:
        g = gcd(g, abs(k))
    s *= g
    n = Lin(0, tuple((a, k // s) for a, k in v.t))
    return n, s, v.c


def explore(run, limit=20000):
    """Run `run()` once per abstract path; yields (path, result)."""
    stack = [[]]
    count = 0
    while stack:
        pre = stack.pop()
        p = Path(pre)
        old = CUR[0]
        CUR[0] = p
        try:
            try:
                res = run()
            except Infeasible:
                res = _INF
            count += 1
            if count > limit:
                raise TooManyPaths("more than %d abstract paths" % limit)
            stack.extend(reversed(p.alts))
            if res is not _INF:
                yield p, res
        finally:
            CUR[0] = old


_INF = object()

# ----------------------------------------------------------------- operators

_norming = False


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return wrap(a + b)
    if isinstance(a, int):
        return lin(b.c + a, dict(b.t)) if a else b
    if isinstance(b, int):
        return lin(a.c + b, dict(a.t)) if b else a
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + k
    r = lin(a.c + b.c, d)
    if isinstance(r, Lin) and len(r.t) == 2 and r.c == 0 and \
            all(_is_bits(x) for x, _ in r.t):
        global _norming
        if not _norming:
            _norming = True
            try:
                bs = _bits(r)
            except _Split:
                bs = None
            finally:
                _norming = False
            if bs and not any(not isinstance(x, int) and x[0] == r.key for x in bs):
                return _raw_bits(bs)
    return r


def mulc(a, k):
    if isinstance(a, int):
        return wrap(a * k)
    if k == 1:
        return a
    return lin(a.c * k, {x: c * k for x, c in a.t})


def sub(a, b):
    return add(a, mulc(b, -1))


def neg(a):
    return mulc(a, -1)


def bnot(a):
    return sub(-1, a)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return wrap(a * b)
    if isinstance(a, int):
        return mulc(b, a)
    if isinstance(b, int):
        return mulc(a, b)
    if _arg_key(a) > _arg_key(b):
        a, b = b, a
    return op("*", a, b)


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class DivByZero(Exception):
    pass


def div(a, b):
    a, b = P().simp(a), P().simp(b)
    if isinstance(b, int) and b == 0:
        raise DivByZero()
    if isinstance(a, int) and isinstance(b, int):
        return wrap(cdiv(a, b))
    if b == 1:
        return a
    return op("/", a, b)


def mod(a, b):
    a, b = P().simp(a), P().simp(b)
    if isinstance(b, int) and b == 0:
        raise DivByZero()
    if isinstance(a, int) and isinstance(b, int):
        return wrap(a - cdiv(a, b) * b)
    if isinstance(b, int) and abs(b) == 1:
        return 0
    return op("%", a, b)


def shl(a, b):
    a, b = P().simp(a), P().simp(b)
    if isinstance(b, int):
        if isinstance(a, int):
            return wrap(a << (b & 31)) if 0 <= b < 32 else op("<<", a, b)
        if 0 <= b < 32:
            return mulc(a, 1 << b)
    if isinstance(a, int) and a > 0:
        bl, bh = srange(b)
        if 0 <= bl and bh < 31 and (a << bh) <= IMAX:
            return op("<<", a, b, lo=a << bl, hi=a << bh)
    return op("<<", a, b)


def srange(v):
    """interval from declared atom ranges only (valid on every path)"""
    if isinstance(v, int):
        return v, v
    lo = hi = v.c
    for a, k in v.t:
        lo += k * (a.lo if k >= 0 else a.hi)
        hi += k * (a.hi if k >= 0 else a.lo)
    return (lo, hi) if IMIN <= lo and hi <= IMAX else (IMIN, IMAX)


def shr(a, b):
    a, b = P().simp(a), P().simp(b)
    if isinstance(b, int) and 0 <= b < 32:
        if isinstance(a, int):
            return a >> b
        if b == 0:
            return a
        lo, hi = P().mrange(a)
        k = 1 << b
        if lo >= IMIN and hi <= IMAX and a.c % k == 0 and \
                all(c % k == 0 for _, c in a.t):
            return lin(a.c >> b, {x: c >> b for x, c in a.t})
        bs = bits(a)
        return from_bits(bs[b:] + [bs[31]] * b)
    return op(">>", a, b)


def lshr(a, b):
    a, b = P().simp(a), P().simp(b)
    if isinstance(b, int) and 0 <= b < 32:
        if isinstance(a, int):
            return wrap((a & M32) >> b)
        bs = bits(a)
        return from_bits(bs[b:] + [0] * b)
    return op(">>>", a, b)


def _bitop(name, a, b):
    a, b = P().simp(a), P().simp(b)
    if isinstance(a, int) and isinstance(b, int):
        return wrap({"&": a & b, "|": a | b, "^": a ^ b}[name])
    if isinstance(a, Lin) and isinstance(b, Lin) and a == b:
        return 0 if name == "^" else a
    if name == "|":
        v, m = (a, b) if isinstance(b, int) else (b, a)
        if isinstance(m, int) and m > 0:
            lo, hi = srange(v)
            if lo >= 0:
                # bits above the highest one in which the bounds differ are known
                free = (1 << (lo ^ hi).bit_length()) - 1
                if not m & free:
                    return v if m & lo == m else add(v, m) if m & lo == 0 else \
                        add(v, m & ~lo)
    A, B = bits(a), bits(b)
    if _arg_key(a) > _arg_key(b):
        a, b = b, a
    out, miss = [], 0
    for i, (x, y) in enumerate(zip(A, B)):
        r = _bit2(name, x, y)
        if r is None:
            miss += 1
            if miss == 1:
                (al, ah), (bl, bh) = srange(a), srange(b)
                if al >= 0 and bl >= 0:
                    v = op(name, a, b, lo=0, hi=min(ah, bh) if name == "&" else
                           (1 << max(ah, bh).bit_length()) - 1)
                else:
                    v = op(name, a, b)
                k = atom_of(v)
            r = P().getbit(k.key, i)
        out.append(r)
    if miss and all(not isinstance(x, int) and x[0] == k.key and x[1] == i and not x[2]
                    for i, x in enumerate(out)):
        return v
    return from_bits(out)


def _bit2(name, x, y):
    if isinstance(y, int):
        x, y = y, x
    if isinstance(x, int):
        if name == "&":
            return y if x else 0
        if name == "|":
            return 1 if x else y
        if isinstance(y, int):
            return x ^ y
        return binv(y) if x else y
    if x == y:
        return 0 if name == "^" else x
    if x == binv(y):
        return 0 if name == "&" else 1
    return None


def band(a, b):
    return _bitop("&", a, b)


def bor(a, b):
    return _bitop("|", a, b)


def bxor(a, b):
    return _bitop("^", a, b)


def binv(x):
    if isinstance(x, int):
        return 1 - x
    return (x[0], x[1], not x[2])


def ltz(x):
    x = P().simp(x)
    if isinstance(x, int):
        return 1 if x < 0 else 0
    lo, hi = P().mrange(x)
    if hi < 0:
        return 1
    if lo >= 0:
        return 0
    return op("ltz", x, lo=0, hi=1)


def _zcanon(x):
    n, s, c = norm(x)
    if c % abs(s):
        return None
    return lin(c // s, dict(n.t))


def eqz(x):
    x = P().simp(x)
    if isinstance(x, int):
        return 1 if x == 0 else 0
    lo, hi = P().mrange(x)
    z = _zero(lo, hi)
    if z is None or z in P().excluded(x):
        return 0
    if lo == z == hi:
        return 1
    a = atom_of(x)
    if a is not None and a.kind == "op":
        if a.name == "eqz":
            return nez(a.args[0])
        if a.name == "nez":
            return eqz(a.args[0])
        if a.name == "ltz":
            return ltz(sub(-1, a.args[0]))
    z = _zcanon(x) if abs(norm(x)[1]) == 1 else x
    return op("eqz", z if z is not None else x, lo=0, hi=1)


def nez(x):
    x = P().simp(x)
    e = eqz(x)
    if isinstance(e, int):
        return 1 - e
    a = atom_of(x)
    if a is not None and a.kind == "op" and a.name in ("eqz", "nez", "ltz"):
        return x
    z = _zcanon(x) if abs(norm(x)[1]) == 1 else x
    return op("nez", z if z is not None else x, lo=0, hi=1)


def lnot(x):
    return eqz(x)


def lt(a, b):
    return ltz(sub_m(a, b))


def w32(x):
    """the 32-bit value of a form whose mathematical value may leave the range"""
    x = P().simp(x)
    if isinstance(x, int):
        return wrap(x)
    lo, hi = P().mrange(x)
    if lo >= IMIN and hi <= IMAX:
        return x
    return op("w32", x, lo=IMIN, hi=IMAX)


def lts(a, b):
    """signed machine comparison"""
    return lt(w32(a), w32(b))


def sub_m(a, b):
    """a-b for comparisons: mathematical difference (no 32-bit wrap of consts)."""
    if isinstance(a, int) and isinstance(b, int):
        d = a - b
        return -1 if d < 0 else (1 if d > 0 else 0)
    a, b = P().simp(a), P().simp(b)
    if isinstance(a, int) and isinstance(b, int):
        d = a - b
        return -1 if d < 0 else (1 if d > 0 else 0)
    # decide by intervals first
    al, ah = P().range(a)
    bl, bh = P().range(b)
    if ah < bl:
        return -1
    if al >= bh:
        return 1 if al > bh else 0
    return sub(a, b)


def le(a, b):
    r = lt(b, a)
    if isinstance(r, int):
        return 1 - r
    return ltz(sub(-1, r.t[0][0].args[0])) if atom_of(r) is not None and \
        atom_of(r).name == "ltz" else eqz(r)


def ltu(a, b):
    """unsigned a < b"""
    a, b = P().simp(a), P().simp(b)
    if isinstance(a, int) and isinstance(b, int):
        return int((a & M32) < (b & M32))
    if b == 0 or same(a, b):
        return 0
    if a == 0:
        return nez(b)
    if b == 1:
        return eqz(a)
    al, ah = P().range(a)
    bl, bh = P().range(b)
    if al >= 0 and bl >= 0:
        return lt(a, b)
    r = op("ltu", a, b, lo=0, hi=1)
    k = P().simp(r)
    if isinstance(k, int):
        return k
    # trichotomy against what the path already knows
    o = P().simp(op("ltu", b, a, lo=0, hi=1))
    if o == 1:
        return 0
    if o == 0 and P().known(eq(a, b)) is False:
        return 1
    return r


def eq(a, b):
    a, b = P().simp(a), P().simp(b)
    al, ah = P().range(a)
    bl, bh = P().range(b)
    if ah < bl or al > bh:
        return 0
    return eqz(sub(a, b))


def ne(a, b):
    e = eq(a, b)
    if isinstance(e, int):
        return 1 - e
    a_ = atom_of(e)
    if a_ is not None and a_.name == "eqz":
        return nez(a_.args[0])
    return eqz(e)


def rebuild(name, args, old):
    f = {"ltz": ltz, "eqz": eqz, "nez": nez, "ltu": ltu, "*": mul, "/": div, "%": mod,
         "<<": shl, ">>": shr, ">>>": lshr, "&": band, "|": bor, "^": bxor}.get(name)
    if f:
        return f(*args)
    if name == "bits":
        return from_bits(list(args[0]))
    return lin(0, {mk_atom("op", name, args, old.lo, old.hi): 1})


# ---------------------------------------------------------------- bit vectors

class _Split(Exception):
    pass


def bits(v):
    """32 entries: 0, 1 or (base key, bit index, inverted)."""
    v = P().simp(v)
    if isinstance(v, int):
        return [(v >> i) & 1 for i in range(32)]
    m = P()._bmemo.get(v.key)
    if m is None:
        while True:
            try:
                m = _bits(v)
                break
            except _Split as s:
                b = s.args[0]
                P().setbit(b, P().choose(2, "bit %d of %s" % (b[1], b[0])))
        P()._bmemo[v.key] = m
    return list(m)


def _bits(v):
    # single atom
    if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        return _atom_bits(v.t[0][0])
    # -x-1  == ~x
    if v.c == -1 and all(k < 0 for _, k in v.t):
        return [binv(b) for b in bits(sub(-1, v))]
    # factor powers of two out of everything
    k = 0
    while k < 31 and v.c % (2 << k) == 0 and all(c % (2 << k) == 0 for _, c in v.t):
        k += 1
    if k:
        inner = lin(v.c >> k, {a: c >> k for a, c in v.t})
        return [0] * k + bits(inner)[:32 - k]
    pos, minus = [], []
    opaque = False
    for a, c in v.t:
        u = c & M32
        ab = _atom_bits(a)
        if c < 0 and c != IMIN and (-c) & (-c - 1) == 0:
            s = (-c).bit_length() - 1
            sh = ([0] * s + ab)[:32]
            sym = [i for i in range(32) if sh[i] != 0]
            if len(sym) == 1:           # -(2^i * bit): the bit fills i..31
                i = sym[0]
                pos.append([0] * i + [sh[i]] * (32 - i))
            else:
                minus.append(sh)
        elif bin(u).count("1") <= 4:
            s = 0
            while u:
                if u & 1:
                    pos.append(([0] * s + ab)[:32])
                u >>= 1
                s += 1
        else:
            opaque = True
    kb = [(v.c >> i) & 1 for i in range(32)]
    if not opaque and pos:
        # parts with a single unknown bit may be split when carries collide
        acc, upto = pos[0], 32
        for p in pos[1:]:
            acc2, j = _badd(acc, p)
            if j < 32:
                for q in (acc, p):
                    sym = {x[:2] for x in q if not isinstance(x, int)}
                    if len(sym) == 1:
                        raise _Split(next(iter(sym)))
                opaque = True
                break
            acc = acc2
        for mns in minus if not opaque else ():
            r = _bsubset(acc, mns)
            if r is None:
                opaque = True
                break
            acc = r
    else:
        opaque = True
    if opaque:
        if v.c == 0:
            return _opaque_bits(v)
        acc = bits(lin(0, dict(v.t)))
    out, j = _badd(acc, kb)
    if j == 32:
        return out
    # an unknown carry: name every non-constant bit after v itself, so that the
    # bits of one value share one base
    ob = _opaque_bits(v)
    return [x if isinstance(x, int) else y for x, y in zip(out[:j], ob)] + ob[j:]


def _badd(a, b):
    """ripple add; (bits, index of the first bit with an unknown carry)."""
    out = []
    c = 0
    for j, (x, y) in enumerate(zip(a, b)):
        known = [z for z in (x, y, c) if isinstance(z, int)]
        unk = [z for z in (x, y, c) if not isinstance(z, int)]
        s = sum(known)
        if not unk:
            out.append(s & 1)
            c = s >> 1
        elif len(unk) == 1:
            if s == 0:
                out.append(unk[0])
                c = 0
            elif s == 1:
                out.append(binv(unk[0]))
                c = unk[0]
            else:
                out.append(unk[0])
                c = 1
        elif len(unk) == 2 and unk[0] == unk[1]:
            out.append(1 if s else 0)
            c = unk[0]
        elif len(unk) == 2 and unk[0] == binv(unk[1]):
            out.append(0 if s else 1)
            c = 1 if s else 0
        else:
            return out, j
    return out, 32


def _bsubset(a, m):
    """a - m when every bit of m is a bit of a (no borrows)."""
    out = []
    for x, y in zip(a, m):
        if y == 0:
            out.append(x)
        elif x == y:
            out.append(0)
        else:
            return None
    return out


def _range_bits(base, lo, hi):
    """bits of an unknown with a known interval."""
    g = P().getbit
    if lo >= 0:
        w = hi.bit_length()
        return [g(base, i) for i in range(w)] + [0] * (32 - w)
    if hi < 0:
        w = (~lo).bit_length()
        return [g(base, i) for i in range(w)] + [1] * (32 - w)
    w = max(hi.bit_length(), (~lo).bit_length())
    w = min(w, 31)
    return [g(base, i) for i in range(w)] + [g(base, w)] * (32 - w)


def _atom_bits(a):
    lo, hi = P().arange(a)
    if a.kind == "op" and a.name == "bits":
        out = []
        for x in a.args[0]:
            if isinstance(x, int):
                out.append(x)
            else:
                y = _resolve(x[0], x[1])
                out.append(binv(y) if x[2] else y)
        if lo >= 0 or hi < 0:
            w = hi.bit_length() if lo >= 0 else (~lo).bit_length()
            out[w:] = [0 if lo >= 0 else 1] * (32 - w)
        return out
    return _range_bits(a.key, lo, hi)


def _resolve(base, i):
    """bit i of an earlier base, re-expressed by what the path knows now"""
    p = P()
    v = p.kb.get((base, i))
    if v is not None:
        return v
    if p.kb or p.sub:
        o = _opaque.get(base)
        if o is None:
            a = _atoms.get(base)
            if a is not None and a in p.sub:
                return bits(p.sub[a])[i]
        else:
            n = p.simp(o)
            if isinstance(n, int) or n.key != base:
                return bits(n)[i]
    return p.getbit(base, i)


def _opaque_bits(v):
    lo, hi = P().range(v)
    _opaque[v.key] = v
    return _range_bits(v.key, lo, hi)


_opaque = {}


def bits_range(bs):
    """interval of a bit vector"""
    e = bs[31]
    w = 31
    while w > 0 and bs[w - 1] == e:
        w -= 1
    if isinstance(e, int):
        lo = sum((x if isinstance(x, int) else 0) << i for i, x in enumerate(bs[:31]))
        hi = sum((x if isinstance(x, int) else 1) << i for i, x in enumerate(bs[:31]))
        if e:
            lo -= 1 << 31
            hi -= 1 << 31
        return lo, hi
    return -(1 << w), (1 << w) - 1


def _cands(bs):
    seen = set()
    for x in (bs[0], bs[31], bs[15], *bs):
        if isinstance(x, int) or x[0] in seen:
            continue
        seen.add(x[0])
        a = _atoms.get(x[0])
        if a is not None and not (a.kind == "op" and a.name == "bits"):
            yield lin(0, {a: 1}), x[2]
        o = _opaque.get(x[0])
        if o is not None:
            yield o, x[2]


def from_bits(bs, resimp=False):
    bs = list(bs)
    if all(isinstance(x, int) for x in bs):
        return wrap(sum(x << i for i, x in enumerate(bs)))
    k = 0
    while bs[k] == 0:
        k += 1
    for cand, inv in _cands(bs):
        cb = bits(cand)
        if cb == bs:
            return cand
        if inv:
            ib = [binv(x) for x in cb]
            if ib == bs:
                return sub(-1, cand)
            if bs[0] == ib[0] and all(x == 0 for x in bs[1:]) and \
                    P().range(cand) == (0, 1):
                return lnot(cand)
        if k:
            if ([0] * k + cb)[:32] == bs:
                return mulc(cand, 1 << k)
            if [0] * k + cb[k:] == bs:
                # x with its low k bits cleared
                return sub(cand, _raw_bits(cb[:k] + [0] * (32 - k)))
    return _raw_bits(bs)


def _raw_bits(bs):
    if all(isinstance(x, int) for x in bs):
        return wrap(sum(x << i for i, x in enumerate(bs)))
    c = wrap(sum(1 << i for i, x in enumerate(bs) if x == 1 and isinstance(x, int)))
    bs = [0 if isinstance(x, int) else x for x in bs]
    lo, hi = bits_range(bs)
    a = mk_atom("op", "bits", (tuple(bs),), lo, hi)
    return Lin(c, ((a, 1),))


def field(bs, lo, n):
    """value of bits lo..lo+n-1 as an unsigned field."""
    return from_bits(list(bs[lo:lo + n]) + [0] * (32 - n))


def sext_field(bl):
    """value of a list of bits (LSB first), sign-extended."""
    return from_bits(list(bl) + [bl[-1]] * (32 - len(bl)))


def _is_bits(a):
    return a.kind == "op" and a.name == "bits"


def same(a, b):
    a, b = P().simp(a), P().simp(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Lin) and isinstance(b, Lin) and a == b:
        return True
    d = P().simp(sub(a, b))
    if isinstance(d, int):
        return d == 0
    al, ah = P().range(a)
    bl, bh = P().range(b)
    if ah < bl or bh < al:
        return False
    if bits(a) == bits(b):
        return True
    d = lincanon(d)
    return isinstance(d, int) and d == 0


def _base_value(key):
    o = _opaque.get(key)
    if o is not None:
        return o
    a = _atoms.get(key)
    return None if a is None else lin(0, {a: 1})


def _floor(base, k):
    """floor(base / 2^k), to be used only scaled by a multiple of 2^k"""
    if k >= 32:
        return 0
    v = _base_value(base)
    if k == 0:
        return lincanon(v)
    b = P().kb.get((base, k))
    if b is not None:
        return add(mulc(_floor(base, k + 1), 2), b)
    lo, hi = P().mrange(v)
    if IMIN <= lo and hi <= IMAX and lo >> k == hi >> k:
        return lo >> k
    c = v.c >> k
    r = lin(v.c - (c << k), dict(v.t))
    if c:
        _opaque.setdefault(r.key, r)
        b = P().kb.get((r.key, k))
        if b is not None:
            return add(add(mulc(_floor(r.key, k + 1), 2), b), c)
    return add(op("floor", lin(r.c, dict(r.t)), k), c)


def lincanon(v):
    """rewrite bit-run atoms as differences of scaled floors so that the parts
    of one value telescope (equality checking only)"""
    if isinstance(v, int):
        return v
    r = v.c
    for a, k in v.t:
        if not _is_bits(a):
            if a.kind == "op" and a.name not in ("floor",) and \
                    any(isinstance(x, Lin) for x in a.args):
                na = tuple(lincanon(x) if isinstance(x, Lin) else x for x in a.args)
                a = mk_atom("op", a.name, na, a.lo, a.hi)
            r = add(r, lin(0, {a: k}))
            continue
        bs = a.args[0]
        i = 0
        tot = 0
        while i < 32:
            x = bs[i]
            if isinstance(x, int):
                tot = add(tot, wrap(x << i))
                i += 1
                continue
            j = i + 1
            while j < 32 and not isinstance(bs[j], int) and bs[j][0] == x[0] and \
                    bs[j][2] == x[2] and bs[j][1] == x[1] + j - i:
                j += 1
            n, base, lo = j - i, x[0], x[1]
            sh = ((k & -k).bit_length() - 1) if k else 0
            if i + sh < lo or _base_value(base) is None:
                run = _raw_bits([0] * i + list(bs[i:j]) + [0] * (32 - j))
                tot = add(tot, run)
            else:
                hi = mulc(_floor(base, lo + n), wrap(1 << (i + n))) if i + n < 32 else 0
                run = sub(mulc(_floor(base, lo), wrap(1 << i)), hi)
                tot = add(tot, sub(wrap(((1 << n) - 1) << i), run) if x[2] else run)
            i = j
        r = add(r, mulc(tot, k))
    return r

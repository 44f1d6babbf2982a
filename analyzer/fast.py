"""Closures for the interpreter: every AST node is translated once.

Common cases are decided here; everything else goes to the Interp methods."""
from cast import AnalysisError
from dom import IMAX, IMIN, Lin, P, wrap


def install(ns):
    """called by absint with its namespace (avoids a circular import)"""
    globals().update({k: ns[k] for k in (
        "Ptr", "LazyPtr", "Fn", "Struct", "Arr", "Undef", "UNDEF", "PathEnd", "BIN", "clone",
        "_Break", "_Continue", "_Return", "_unquote")})


def cx(ip, n):
    try:
        return n.cx
    except AttributeError:
        f = n.cx = XP.get(n.kind, x_other)(ip, n)
        return f


def lx(ip, n):
    try:
        return n.cl
    except AttributeError:
        f = n.cl = LV.get(n.kind, l_other)(ip, n)
        return f


def tx(ip, n):
    try:
        return n.ct
    except AttributeError:
        f = n.ct = truth(ip, n)
        return f


def sx(ip, n):
    try:
        return n.cs
    except AttributeError:
        f = n.cs = ST.get(n.kind, s_other)(ip, n)
        return f


# ------------------------------------------------------------- expressions

def x_other(ip, n):
    name = "e_" + n.kind

    def f(ip):
        m = getattr(ip, name, None)
        if m is None:
            raise AnalysisError("expression kind %s at %s is not modelled" % (n.kind, n.where))
        return m(n)
    return f


def x_paren(ip, n):
    return cx(ip, n.inner[0])


def x_int(ip, n):
    v = int(n.value)
    if ip.width(n) <= 32:
        v = wrap(v)
    return lambda ip: v


def x_char(ip, n):
    v = int(n.value)
    return lambda ip: v


def x_decl(ip, n):
    if n.refkind == "EnumConstantDecl":
        v = ip.tu.enum[n.refname]
        return lambda ip: v
    if n.refkind == "FunctionDecl":
        name = n.refname
        return lambda ip: Fn(name)
    ref, l = n.ref, lx(ip, n)

    def f(ip):
        if ip.frames:
            v = ip.frames[-1].slots.get(ref)
            if v is not None:
                return v
        c, k = l(ip)
        return c.get(k)
    return f


def x_lv(ip, n):
    l = lx(ip, n)

    def f(ip):
        c, k = l(ip)
        v = c.slots.get(k if type(k) is not Lin else k.key)
        return c.get(k) if v is None else v
    return f


def x_icast(ip, n):
    ck, e = n.x.get("castKind"), n.inner[0]
    if ck == "LValueToRValue":
        g = cx(ip, e)

        def f(ip):
            v = g(ip)
            return P().simp(v) if type(v) is Lin else v
        return f
    if ck == "ArrayToPointerDecay":
        if e.kind == "StringLiteral":
            return cx(ip, e)
        l = lx(ip, e)

        def f(ip):
            c, k = l(ip)
            a = c.get(k)
            if not isinstance(a, Arr):
                raise AnalysisError("array decay of %r at %s" % (a, n.where))
            return Ptr(a, 0)
        return f
    return x_cast(ip, n)


def x_cast(ip, n):
    ck, g = n.x.get("castKind"), cx(ip, n.inner[0])
    if ck in ("NoOp", "FunctionToPointerDecay"):
        return g
    if ck == "NullToPointer":
        def f(ip):
            g(ip)
            return 0
        return f
    if ck == "IntegralCast":
        ty = ip.ptype(n.dtype or n.type)
        if ty[0] == "int" and ty[1] == 32:
            def f(ip):
                v = g(ip)
                if type(v) is int and not IMIN <= v <= IMAX:
                    return wrap(v)
                return v
            return f

        def f(ip):
            return ip.icast(g(ip), ty)
        return f

    boolean = ck in ("PointerToBoolean", "IntegralToBoolean")

    def f(ip):
        v = g(ip)
        if boolean:
            if type(v) is int:
                return 1 if v else 0
            if type(v) is Ptr:
                return 1
        return ip.convert(v, ck, n)
    return f


def x_unary(ip, n):
    o, e = n.op, n.inner[0]
    if o == "&":
        if e.kind == "DeclRefExpr" and e.refkind == "FunctionDecl":
            name = e.refname
            return lambda ip: Fn(name)
        l = lx(ip, e)

        def f(ip):
            c, k = l(ip)
            return Ptr(c, k)
        return f
    g = None if o in ("++", "--") else cx(ip, e)
    if o == "*":
        def f(ip):
            p = g(ip)
            if isinstance(p, Fn):
                return p
            c, k = ip.deref(p, n)
            return c.get(k)
        return f
    if o in ("++", "--"):
        l, d, post = lx(ip, e), 1 if o == "++" else -1, n.x.get("isPostfix")
        ty = ip.ptype(e.dtype or e.type)
        word = ty[0] == "int" and ty[1] == 32

        def f(ip):
            c, k = l(ip)
            old = c.get(k)
            if type(old) is int and word:
                new = wrap(old + d)
            else:
                new = ip.step(old, d, ty, n)
            c.set(k, new)
            return old if post else new
        return f
    if o == "!":
        def f(ip):
            v = g(ip)
            if type(v) is int:
                return 0 if v else 1
            return ip.unop(o, v, n)
        return f

    def f(ip):
        return ip.unop(o, g(ip), n)
    return f


CMP = {"<": lambda a, b: 1 if a < b else 0, ">": lambda a, b: 1 if a > b else 0,
       "<=": lambda a, b: 1 if a <= b else 0, ">=": lambda a, b: 1 if a >= b else 0,
       "==": lambda a, b: 1 if a == b else 0, "!=": lambda a, b: 1 if a != b else 0}


def x_binary(ip, n):
    o = n.op
    a, b = n.inner
    if o == "=":
        g, l = cx(ip, b), lx(ip, a)

        def f(ip):
            # C leaves the order open; value first (shecc's sources never depend on it)
            v = g(ip)
            c, k = l(ip)
            if type(v) is Struct or type(v) is Arr:
                ip.store(c, k, v, n)
            else:
                c.set(k, v)
            return v
        return f
    if o in ("&&", "||"):
        t = tx(ip, n)
        return lambda ip: 1 if t(ip) else 0
    g, h = cx(ip, a), cx(ip, b)
    if o == ",":
        def f(ip):
            g(ip)
            return h(ip)
        return f
    if o in CMP:
        q = CMP[o]

        def f(ip):
            x = g(ip)
            y = h(ip)
            if type(x) is int and type(y) is int and IMIN <= x <= IMAX and IMIN <= y <= IMAX:
                return q(x, y)
            return ip.binop(o, x, y, n)
        return f
    if o in ("+", "-"):
        s = 1 if o == "+" else -1

        def f(ip):
            x = g(ip)
            y = h(ip)
            if type(x) is int and type(y) is int:
                return wrap(x + s * y)
            return ip.binop(o, x, y, n)
        return f

    def f(ip):
        x = g(ip)
        return ip.binop(o, x, h(ip), n)
    return f


def x_compound(ip, n):
    a, b = n.inner
    g, l, o = cx(ip, b), lx(ip, a), n.op[:-1]
    ty = ip.ptype(a.dtype or a.type)

    def f(ip):
        y = g(ip)
        c, k = l(ip)
        x = c.get(k)
        if type(x) is Lin:
            x = P().simp(x)
        v = ip.binop(o, x, y, n)
        if type(v) is int or type(v) is Lin:
            v = ip.icast(v, ty)
        ip.store(c, k, v, n)
        return v
    return f


def x_cond(ip, n):
    t, g, h = tx(ip, n.inner[0]), cx(ip, n.inner[1]), cx(ip, n.inner[2])
    return lambda ip: g(ip) if t(ip) else h(ip)


def x_call(ip, n):
    m = n.inner[0]
    while m.kind in ("ImplicitCastExpr", "ParenExpr"):
        m = m.inner[0]
    args = [cx(ip, a) for a in n.inner[1:]]

    def values(ip):
        out = []
        for a in args:
            v = a(ip)
            if type(v) is Struct or type(v) is Arr:
                v = clone(v)
            out.append(v)
        return out
    if m.kind == "DeclRefExpr" and m.refkind == "FunctionDecl":
        name = m.refname
        return lambda ip: ip.call(name, values(ip), n)
    callee = cx(ip, n.inner[0])

    def f(ip):
        v = callee(ip)
        if isinstance(v, LazyPtr) and "indirect" in ip.summaries:
            return ip.summaries["indirect"](ip, [v] + values(ip), n)
        if not isinstance(v, Fn):
            raise AnalysisError("indirect call through %r at %s" % (v, n.where))
        return ip.call(v.name, values(ip), n)
    return f


def x_string(ip, n):
    s = _unquote(n.value)
    return lambda ip: ip.string(s)


XP = {"ParenExpr": x_paren, "ConstantExpr": x_paren, "IntegerLiteral": x_int,
      "CharacterLiteral": x_char, "DeclRefExpr": x_decl, "MemberExpr": x_lv,
      "ArraySubscriptExpr": x_lv, "ImplicitCastExpr": x_icast, "CStyleCastExpr": x_cast,
      "UnaryOperator": x_unary, "BinaryOperator": x_binary, "StringLiteral": x_string,
      "CompoundAssignOperator": x_compound, "ConditionalOperator": x_cond, "CallExpr": x_call}


# ----------------------------------------------------------------- lvalues

def l_other(ip, n):
    return lambda ip: ip.lvalue(n)


def l_inner(ip, n):
    return lx(ip, n.inner[0])


def l_decl(ip, n):
    ref = n.ref

    def f(ip):
        if ip.frames:
            fr = ip.frames[-1]
            if ref in fr.types:
                return fr, ref
        return ip.lvalue(n)
    return f


def l_member(ip, n):
    b, name = n.inner[0], n.name
    if n.x.get("isArrow"):
        g = cx(ip, b)

        def f(ip):
            p = g(ip)
            if type(p) is Ptr:
                k = p.key
                s = p.obj.slots.get(k if type(k) is not Lin else k.key)
                if type(s) is Struct:
                    return s, name
            return ip.arrow(p, n), name
        return f
    if b.kind in ("CallExpr", "ConditionalOperator"):
        h = cx(ip, b)
    else:
        l = lx(ip, b)

        def h(ip):
            c, k = l(ip)
            return c.get(k)

    def f(ip):
        s = h(ip)
        if type(s) is not Struct:
            raise AnalysisError("member access on %r at %s" % (s, n.where))
        return s, name
    return f


def l_index(ip, n):
    g, h = cx(ip, n.inner[0]), cx(ip, n.inner[1])

    def f(ip):
        b = g(ip)
        i = h(ip)
        if type(b) is Ptr and type(i) is int and type(b.key) is int:
            return b.obj, wrap(b.key + i)
        if isinstance(i, (Ptr, LazyPtr, Arr)):
            b, i = i, b
        p = ip.padd(b, i, n)
        return p.obj, p.key
    return f


def l_unary(ip, n):
    if n.op != "*":
        return l_other(ip, n)
    g = cx(ip, n.inner[0])
    return lambda ip: ip.deref(g(ip), n)


LV = {"ParenExpr": l_inner, "ImplicitCastExpr": l_inner, "CStyleCastExpr": l_inner,
      "DeclRefExpr": l_decl, "MemberExpr": l_member, "ArraySubscriptExpr": l_index,
      "UnaryOperator": l_unary}


# -------------------------------------------------------------- conditions

def truth(ip, e):
    k = e.kind
    if k == "ParenExpr":
        return tx(ip, e.inner[0])
    if k == "BinaryOperator" and e.op == "&&":
        a, b = tx(ip, e.inner[0]), tx(ip, e.inner[1])
        return lambda ip: a(ip) and b(ip)
    if k == "BinaryOperator" and e.op == "||":
        a, b = tx(ip, e.inner[0]), tx(ip, e.inner[1])
        return lambda ip: a(ip) or b(ip)
    if k == "UnaryOperator" and e.op == "!":
        a = tx(ip, e.inner[0])
        return lambda ip: not a(ip)
    g = cx(ip, e)

    def f(ip):
        v = g(ip)
        if type(v) is int:
            return v != 0
        return ip.tv(v, e)
    return f


# -------------------------------------------------------------- statements

def s_other(ip, n):
    if n.kind == "Null" or n.kind == "NullStmt":
        return lambda ip: None
    name = "s_" + n.kind
    m = getattr(ip, name, None)
    if m is not None:
        return lambda ip: getattr(ip, name)(n)
    return cx(ip, n)


def s_compound(ip, n):
    fs = [sx(ip, s) for s in n.inner]

    def f(ip):
        for g in fs:
            g(ip)
    return f


def s_if(ip, n):
    t, a = tx(ip, n.inner[0]), sx(ip, n.inner[1])
    if len(n.inner) > 2:
        b = sx(ip, n.inner[2])

        def f(ip):
            if t(ip):
                a(ip)
            else:
                b(ip)
        return f

    def f(ip):
        if t(ip):
            a(ip)
    return f


def s_break(ip, n):
    def f(ip):
        raise _Break()
    return f


def s_continue(ip, n):
    def f(ip):
        raise _Continue()
    return f


def s_return(ip, n):
    if not n.inner:
        def f(ip):
            raise _Return(UNDEF)
        return f
    g = cx(ip, n.inner[0])

    def f(ip):
        v = g(ip)
        if type(v) is Struct or type(v) is Arr:
            v = clone(v)
        raise _Return(v)
    return f


def s_decl(ip, n):
    parts = []
    for d in n.inner:
        if d.kind != "VarDecl":
            continue
        ty = ip.ptype(d.type)
        init = d.inner[-1] if "init" in d.x else None
        if d.x.get("storageClass") == "static" or ty[0] not in ("int", "ptr") or \
                init is not None and init.kind in ("InitListExpr", "StringLiteral"):
            return lambda ip: ip.s_DeclStmt(n)
        parts.append((d.id, ty, cx(ip, init) if init is not None else None))

    def f(ip):
        fr = ip.frames[-1]
        for i, ty, g in parts:
            fr.types[i] = ty
            fr.slots[i] = UNDEF
            if g is not None:
                v = g(ip)
                if type(v) is Struct or type(v) is Arr:
                    v = clone(v)
                fr.set(i, v)
    return f


def s_label(ip, n):
    return sx(ip, n.inner[-1])


ST = {"CompoundStmt": s_compound, "DeclStmt": s_decl, "IfStmt": s_if, "BreakStmt": s_break,
      "ContinueStmt": s_continue, "ReturnStmt": s_return, "LabelStmt": s_label,
      "CaseStmt": s_label, "DefaultStmt": s_label}

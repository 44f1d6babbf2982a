"""Front end: parse /repo's translation unit with clang and load the resolved AST.

Nothing of /repo is executed: the sources are copied to a scratch mirror, the
target `config` header is derived from mk/*.mk, the generated libc.inc is
replaced by an empty stub (its content is data, checked separately), and clang
only type-checks (-fsyntax-only).
"""
import json
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get("SHECC_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (vanished anchor, ...)."""


class Node:
    __slots__ = ("kind", "id", "name", "type", "dtype", "value", "op", "inner",
                 "file", "line", "ref", "refname", "refkind", "x", "parent_fn",
                 "cx", "cl", "ct", "cs")

    def __repr__(self):
        return "<%s %s %s:%s>" % (self.kind, self.name or self.op or self.value
                                  or self.refname or "", self.file, self.line)

    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            stack.extend(reversed(n.inner))

    @property
    def where(self):
        return "%s:%s" % (self.file, self.line)


def _config_text(arch):
    """Expand mk/<arch>.mk's `<arch>-specific-defs` statically."""
    path = os.path.join(REPO, "mk", arch + ".mk")
    with open(path) as f:
        text = f.read()
    defs = []
    for m in re.finditer(r'\\?#define\s+(\w+)\s+([^\n]*)', text):
        v = re.sub(r'/\*.*', '', m.group(2))        # trailing comment
        v = re.sub(r'\\n.*', '', v).strip()         # printf newline escape
        defs.append((m.group(1), v.replace('\\"', '"')))
    out = ["#define %s %s" % d for d in defs]
    names = {k for k, _ in defs}
    for need in ("ARCH_PREDEFINED", "ELF_MACHINE", "ELF_FLAGS"):
        if need not in names:
            raise AnalysisError("mk/%s.mk: no definition of %s" % (arch, need))
    return "\n".join(out) + "\n"


def _clang_json(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise AnalysisError("clang failed: %s" %
                            p.stderr.decode(errors="replace")[:2000])
    return json.loads(p.stdout)


class TU:
    def __init__(self, root, strip):
        self.strip = strip
        self.functions = {}     # name -> FunctionDecl with a body
        self.fndecls = {}       # name -> any FunctionDecl
        self.globals = {}       # name -> VarDecl
        self.records = {}       # record id -> Node
        self.record_by_name = {}
        self.typedefs = {}      # name -> (qualType, record id or None)
        self.enum = {}          # constant -> value
        self.enum_of = {}       # constant -> enum typedef/tag name
        self.enums = {}         # name -> [constants]
        self.decl = {}          # id -> Node
        self._file = None
        self._line = None
        self.top = [self._conv(c) for c in root.get("inner", [])]
        self._index()

    # -- conversion ------------------------------------------------------
    def _loc(self, loc):
        if not loc:
            return
        if "spellingLoc" in loc or "expansionLoc" in loc:
            self._loc(loc.get("spellingLoc"))
            self._loc(loc.get("expansionLoc"))
            return
        if "file" in loc:
            self._file = loc["file"]
        if "line" in loc:
            self._line = loc["line"]

    def _conv(self, d):
        n = Node()
        g = d.get
        n.kind = g("kind")
        n.id = g("id")
        self._loc(g("loc"))
        f, l = self._file, self._line
        r = g("range")
        if r:
            self._loc(r.get("begin"))
            bf, bl = self._file, self._line
            self._loc(r.get("end"))
            if not g("loc"):
                f, l = bf, bl
        if f:
            f = f.replace(self.strip, "")
        n.file, n.line = f, l
        n.name = g("name")
        t = g("type")
        n.type = t.get("qualType") if t else None
        n.dtype = (t.get("desugaredQualType") or t.get("qualType")) if t else None
        n.value = g("value")
        n.op = g("opcode")
        n.ref = n.refname = n.refkind = None
        rd = g("referencedDecl") or g("referencedMemberDecl")
        if isinstance(rd, dict):
            n.ref = rd.get("id")
            n.refname = rd.get("name")
            n.refkind = rd.get("kind")
        elif isinstance(rd, str):
            n.ref = rd
        x = {}
        for k in ("isPostfix", "isArrow", "castKind", "hasElse", "storageClass",
                  "init", "argType", "tagUsed", "ownedTagDecl", "decl",
                  "completeDefinition", "isReferenced", "hasVar", "hasInit",
                  "computeResultType", "computeLHSType", "variadic", "inline"):
            if k in d:
                x[k] = d[k]
        n.x = x
        n.parent_fn = None
        inner = g("inner")
        # documentation comments are no part of the program
        n.inner = [self._conv(c) if c else _NULL for c in inner
                   if not c or c.get("kind") != "FullComment"] if inner else []
        return n

    def _index(self):
        for n in self.top:
            for m in n.walk() if n.kind in ("FunctionDecl", "VarDecl",
                                            "RecordDecl", "EnumDecl",
                                            "TypedefDecl") else ():
                if m.id:
                    self.decl[m.id] = m
                if m.kind == "RecordDecl" and m.inner:
                    self.records[m.id] = m
                    if m.name:
                        self.record_by_name[m.name] = m
        last_record = None
        for n in self.top:
            if n.kind == "FunctionDecl":
                self.fndecls.setdefault(n.name, n)
                if n.inner and n.inner[-1].kind == "CompoundStmt":
                    self.functions[n.name] = n
                    self.fndecls[n.name] = n
                    for m in n.walk():
                        m.parent_fn = n.name
            elif n.kind == "VarDecl":
                if n.name not in self.globals or "init" in n.x:
                    self.globals[n.name] = n
            elif n.kind == "RecordDecl":
                if n.inner:
                    last_record = n
            elif n.kind == "EnumDecl":
                v = -1
                cs = []
                for c in n.inner:
                    if c.kind != "EnumConstantDecl":
                        continue
                    got = None
                    for m in c.walk():
                        if m.kind == "ConstantExpr" and m.value is not None:
                            got = int(m.value)
                            break
                    v = got if got is not None else v + 1
                    self.enum[c.name] = v
                    cs.append(c.name)
                n.x["constants"] = cs
                n.x["enumname"] = n.name
                self.enums[n.id] = cs
                if n.name:
                    self.enums[n.name] = cs
            elif n.kind == "TypedefDecl":
                rid = None
                eid = None
                for m in n.walk():
                    dd = m.x.get("decl") or m.x.get("ownedTagDecl")
                    if isinstance(dd, dict):
                        if dd.get("kind") == "RecordDecl":
                            rid = dd.get("id")
                        elif dd.get("kind") == "EnumDecl":
                            eid = dd.get("id")
                self.typedefs[n.name] = (n.type, rid)
                if rid in self.records:
                    self.record_by_name.setdefault(n.name, self.records[rid])
                if eid in self.enums:
                    self.enums[n.name] = self.enums[eid]

    # -- helpers ---------------------------------------------------------
    def fn(self, name):
        f = self.functions.get(name)
        if f is None:
            raise AnalysisError("anchor function '%s' not found" % name)
        return f

    def record(self, tname):
        """RecordDecl for a struct type name."""
        t = tname.strip()
        t = re.sub(r"^(const|volatile)\s+", "", t)
        if t.startswith("struct "):
            t = t[7:]
        r = self.record_by_name.get(t)
        if r is None and t in self.typedefs:
            q, rid = self.typedefs[t]
            if rid in self.records:
                r = self.records[rid]
            else:
                q = q[7:] if q.startswith("struct ") else q
                r = self.record_by_name.get(q)
        return r

    def is_repo(self, n):
        return n.file is not None and not n.file.startswith("/usr")

    def repo_functions(self):
        return [f for f in self.functions.values()
                if f.file and not f.file.startswith("/")]


_NULL = Node()
for _k in Node.__slots__:
    setattr(_NULL, _k, None)
_NULL.kind = "Null"
_NULL.inner = []
_NULL.x = {}

_cache = {}


def load(arch):
    """Load the compiler's translation unit for one target."""
    if arch in _cache:
        return _cache[arch]
    tmp = tempfile.mkdtemp(prefix="vshecc-")
    try:
        for d in ("src", "lib"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(tmp, d),
                            ignore=shutil.ignore_patterns("codegen.c"),
                            symlinks=False)
        os.makedirs(os.path.join(tmp, "out"))
        with open(os.path.join(tmp, "config"), "w") as f:
            f.write(_config_text(arch))
        with open(os.path.join(tmp, "out", "libc.inc"), "w") as f:
            f.write("void __c(char *src); void libc_generate();\n")
        os.symlink(arch + "-codegen.c", os.path.join(tmp, "src", "codegen.c"))
        if not os.path.exists(os.path.join(tmp, "src", arch + "-codegen.c")):
            raise AnalysisError("src/%s-codegen.c is missing" % arch)
        root = _clang_json(["clang", "-fsyntax-only", "-std=c99", "-w",
                            "-fwrapv", "-Xclang", "-ast-dump=json",
                            os.path.join(tmp, "src", "main.c")], tmp)
        tu = TU(root, tmp + "/")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # codegen.c is a link: name the file it stands for
    for n in tu.top:
        for m in n.walk():
            if m.file == "src/codegen.c":
                m.file = "src/%s-codegen.c" % arch
    tu.arch = arch
    _cache[arch] = tu
    return tu


def load_libc(arch):
    """Load lib/c.c (the C library shecc compiles into every program)."""
    key = ("libc", arch)
    if key in _cache:
        return _cache[key]
    src = os.path.join(REPO, "lib", "c.c")
    if not os.path.exists(src):
        raise AnalysisError("lib/c.c is missing")
    # shecc's own front end: builtins it provides without a header
    tmp = tempfile.mkdtemp(prefix="vlibc-")
    try:
        dst = os.path.join(tmp, "lib")
        os.makedirs(dst)
        with open(src) as f:
            body = f.read()
        pre = {"arm": "__arm__", "riscv": "__riscv"}[arch]
        m = re.search(r'#define ARCH_PREDEFINED "(\w+)"', _config_text(arch))
        if m:
            pre = m.group(1)
        with open(os.path.join(dst, "c.c"), "w") as f:
            f.write(body)
        root = _clang_json(["clang", "-fsyntax-only", "-std=gnu89", "-m32", "-w",
                            "-ffreestanding", "-fno-builtin", "-nostdinc",
                            "-U__i386__", "-Ui386", "-U__linux__",
                            "-D%s=1" % pre, "-Dbool=_Bool", "-Dtrue=1",
                            "-Dfalse=0", "-D__SHECC__=1",
                            "-Wno-error", "-Wno-implicit-function-declaration",
                            "-Wno-int-conversion",
                            "-Wno-incompatible-pointer-types",
                            "-Xclang", "-ast-dump=json",
                            os.path.join(dst, "c.c")], tmp)
        tu = TU(root, tmp + "/")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    tu.arch = arch
    _cache[key] = tu
    return tu


def load_inliner():
    if "inliner" in _cache:
        return _cache["inliner"]
    src = os.path.join(REPO, "tools", "inliner.c")
    if not os.path.exists(src):
        raise AnalysisError("tools/inliner.c is missing")
    root = _clang_json(["clang", "-fsyntax-only", "-std=c99", "-w",
                        "-Xclang", "-ast-dump=json", src],
                       os.path.dirname(src))
    tu = TU(root, os.path.join(REPO, ""))
    tu.arch = "host"
    _cache["inliner"] = tu
    return tu

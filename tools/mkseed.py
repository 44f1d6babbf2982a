"""mkseed(id, prop, edits, needs, breaks, demo, files): write seeded/<id>.
edits: [(file, old, new)]; each old must occur exactly once."""
import json, os, subprocess, tempfile, shutil
HEAD = r'''#!/bin/bash
# cwd: /repo (built). exit 0 if the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
qemu() { case $1 in arm) echo qemu-arm;; *) echo qemu-riscv32;; esac; }
# run ARCH SRC EXPECTED [shecc options]: compile, run, compare stdout + exit code
run() {
    local a=$1 s=$2 want=$3 got; shift 3
    rm -f "$T/a.elf"
    timeout 20 "./_build/$a/out/shecc" "$@" -o "$T/a.elf" "$s" > "$T/cc.log" 2>&1 ||
        { echo "$a: compile failed"; return 1; }
    chmod +x "$T/a.elf"
    got=$(timeout 20 $(qemu $a) "$T/a.elf" 2>/dev/null; echo "rc=$?")
    [ "$got" = "$(printf -- "$want")" ] || { echo "$a: got: $got"; return 1; }
}
'''

def mkseed(id, prop, edits, needs, breaks, demo, files=None):
    d = "/verif/seeded/%s" % id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=n commit -qm b" % (t, t), shell=True)
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=t, text=True)
    shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(HEAD + demo)
    for n, s in (files or {}).items():
        open(d + "/" + n, "w").write(s)

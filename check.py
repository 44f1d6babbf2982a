#!/usr/bin/env python3
"""Run the static check of one property: check.py <ID>.

exit 0  the property holds on everything analysed (known findings are printed)
exit 1  a violation that known-findings.txt does not list
exit 2  the analysis itself could not be carried out
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analyzer"))
sys.setrecursionlimit(20000)

import props                                            # noqa: E402
from cast import AnalysisError                          # noqa: E402


def known(pid):
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                ln = ln.strip()
                if not ln.startswith("known:"):
                    continue
                head, _, text = ln[len("known:"):].strip().partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split() if "=" in x)
                if kv.get("property") == pid:
                    out[kv["key"]] = text
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    chk = props.REGISTRY[pid]
    res = props.Result(pid, tier)
    err = None
    try:
        chk.fn(res)
    except AnalysisError as e:
        err = "analysis error: %s" % e
    except RecursionError as e:
        err = "analysis error: recursion: %s" % e
    except Exception:
        err = "internal error:\n" + traceback.format_exc()
    kn = known(pid)
    fresh, listed = [], []
    for f in res.findings:
        (listed if f["key"] in kn else fresh).append(f)
    for k in sorted(set(f["key"] for f in listed)):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    cov = dict(res.coverage)
    cov["obligations"] = res.obligations
    bad = len(set(f["key"] for f in res.findings))
    if chk.level == "proof":
        cov["discharged"] = max(0, res.obligations - bad)
        cov["checker_cmd"] = "python3 check.py %s" % pid
        cov["trusted_base"] = TRUSTED + list(chk.trusted)
    cov["explanation"] = chk.explanation
    cov["samples"] = [str(s)[:400] for s in res.samples[:8]]
    ev = {"property": pid, "tier": tier,
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": chk.level, "coverage": cov, "assumptions": list(chk.assumptions),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if err:
        ev["coverage"]["error"] = err[-1500:]
    evd = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        path = os.path.join(evd, pid + ".violation.txt")
        with open(path, "w") as f:
            for x in fresh:
                f.write("%s\n  rule: %s\n  where: %s\n  %s\n\n" % (
                    x["key"], x["rule"], x["where"], x["msg"]))
        for x in fresh[:5]:
            print("%s: %s: %s" % (x["where"], x["rule"], x["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        os._exit(1)
    if err:
        print(err, file=sys.stderr)
        os._exit(2)
    print("%s: held; %d obligations (%s)" % (
        pid, res.obligations,
        ", ".join("%s=%s" % (k, v) for k, v in sorted(res.coverage.items())
                  if isinstance(v, (int, str)))[:400]))
    sys.stdout.flush()
    os._exit(0)


TRUSTED = ["clang 18 front end (-ast-dump=json of /repo/src/main.c)",
           "the abstract interpreter and value domain in /verif/analyzer",
           "the specification tables in /verif/analyzer"]

if __name__ == "__main__":
    main()

"""Run independent analysis tasks on all cores."""
import multiprocessing as mp
import os
import sys
import traceback

from cast import AnalysisError


def _call(a):
    fn, args = a
    try:
        return ("ok", fn(*args))
    except AnalysisError as e:
        return ("err", str(e))
    except Exception:
        return ("crash", traceback.format_exc())


def pmap(fn, tasks):
    """[fn(*t) for t in tasks] in forked workers, order kept; an AnalysisError
    in a worker is reported as the exception object in the result list."""
    tasks = [(fn, t) for t in tasks]
    n = min(8, os.cpu_count() or 1, max(1, len(tasks)))
    if n == 1 or os.environ.get("VERIF_SERIAL"):
        out = [_call(t) for t in tasks]
    else:
        sys.stdout.flush()
        with mp.get_context("fork").Pool(n) as pool:
            out = pool.map(_call, tasks, chunksize=1)
    res = []
    for k, v in out:
        if k == "ok":
            res.append(v)
        elif k == "err":
            res.append(AnalysisError(v))
        else:
            res.append(AnalysisError("internal: " + v))
    return res


def collect(res, results, merge):
    """merge good results first, then raise the first analysis error"""
    err = None
    for r in results:
        if isinstance(r, AnalysisError):
            err = err or r
        else:
            merge(r)
    if err:
        raise err

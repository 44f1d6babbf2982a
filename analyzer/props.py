"""Registry of property checks."""
REGISTRY = {}


class Check:
    pass


class Result:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings, self.coverage, self.samples = [], {}, []
        self.obligations = 0

    def find(self, key, rule, where, msg):
        if not any(f["key"] == key and f["msg"] == msg for f in self.findings):
            self.findings.append({"key": key.replace(" ", "_"), "rule": rule,
                                  "where": where, "msg": msg})

    def ob(self, n=1):
        self.obligations += n

    def count(self, what, n=1):
        self.coverage[what] = self.coverage.get(what, 0) + n

    def sample(self, s):
        self.samples.append(s)


def check(pid, level, explanation, assumptions=(), trusted=()):
    def deco(fn):
        c = Check()
        c.fn, c.level, c.explanation = fn, level, explanation
        c.assumptions, c.trusted = assumptions, trusted
        REGISTRY[pid] = c
        return fn
    return deco


import p_backend  # noqa: E402,F401
import p_elf  # noqa: E402,F401
import p_expr  # noqa: E402,F401
import p_const  # noqa: E402,F401
import p_stmt  # noqa: E402,F401
import p_access  # noqa: E402,F401
import p_opt  # noqa: E402,F401
import p_lex  # noqa: E402,F401
import p_pp  # noqa: E402,F401
import p_decl  # noqa: E402,F401

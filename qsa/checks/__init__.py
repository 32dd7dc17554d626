"""One module per group of properties; each registers functions check(K) in CHECKS."""
CHECKS = {}


def check(pid, rule, level="other"):
    def deco(f):
        CHECKS[pid] = (f, rule, level)
        return f
    return deco

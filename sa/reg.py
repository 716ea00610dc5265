"""The registry of checks."""
CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


from . import ops, wait, pool, static, reports, witness, fence, asm, orders, search  # noqa: E402,F401

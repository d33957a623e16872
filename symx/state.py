"""Hooks the expression layer needs from the current execution context."""
MAX_TERMS = 400000
UF_CONCRETE = {}
CTX = None


def sign_query(rf, op):
    """True only when `rf op 0` is known on the current path."""
    if CTX is not None:
        return CTX.known(rf, op)
    from . import expr
    n = expr.poly_sign_quick(rf.n)
    d = expr.poly_sign_quick(rf.d)
    if n is None or d not in (1, -1):
        return False
    if d == -1:
        n = -n
    return {'>': n == 1, '>=': n in (0, 1, 2), '!=': n in (1, -1)}[op]


def decide(rf, op):
    """Branch on `rf op 0`."""
    return CTX.decide(rf, op)


def domain(rf, op, what):
    if CTX is not None:
        CTX.require_domain(rf, op, what)


# while a harness reads numbers back from text: the symbolic reals printed so far
TOKENS = None


def token(s):
    TOKENS.append(s)
    return len(TOKENS) - 1

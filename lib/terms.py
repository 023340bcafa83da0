"""Deciding whether two value-numbering terms denote the same function: both are
evaluated over a fixed set of operand values covering the edge values of every
machine width.  (No program code runs; the terms come from the analysis.)"""
from absint import Sym, S


class Undefined(Exception):
    pass


class Opaque(Exception):
    pass


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def cdiv(a, b):
    if b == 0:
        raise Undefined("division by zero")
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def evalt(t, env, dom=(64, False)):
    """dom: width/signedness in which untyped + - * << ~ are carried out"""
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t
    if not isinstance(t, Sym):
        raise Opaque(t)
    if t in env:
        return env[t]
    o, a = t.op, t.a
    if o == "wrap":
        return wrap(evalt(a[2], env, dom), a[0] * 8, a[1])
    if o == "un":
        v = evalt(a[1], env, dom)
        if a[0] == "!": return 0 if v else 1
        if a[0] == "-": return wrap(-v, *dom)
        if a[0] == "~": return wrap(~v, *dom)
    if o == "bin":
        x, y = evalt(a[1], env, dom), evalt(a[2], env, dom)
        op = a[0]
        if op == "+": return wrap(x + y, *dom)
        if op == "-": return wrap(x - y, *dom)
        if op == "*": return wrap(x * y, *dom)
        if op == "/": return wrap(cdiv(x, y), *dom)
        if op == "%": return wrap(x - cdiv(x, y) * y, *dom)
        if op == "<<":
            if not 0 <= y < dom[0]: raise Undefined("shift")
            return wrap(x << y, *dom)
        if op == ">>":
            if not 0 <= y < dom[0]: raise Undefined("shift")
            return x >> y
        if op == "&": return x & y
        if op == "|": return x | y
        if op == "^": return x ^ y
        return int({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
    raise Opaque(t)


def samples(bits, signed):
    vs = {0, 1, 2, 3, 5, 7, 8, 10, 31, 100, 127, 128, 255, (1 << (bits - 1)) - 1, (1 << (bits - 1)), (1 << bits) - 1, (1 << bits) - 2,
          (1 << bits) - 7, (1 << (bits - 1)) + 1, 0x12345678 & ((1 << bits) - 1)}
    if bits > 32:
        vs |= {0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789abcdef}
    return sorted({wrap(v, bits, signed) for v in vs})


def path_value(paths, env, dom):
    """the partition selected by env -> (path, value)"""
    sel = []
    for p in paths:
        ok = True
        for c, b in p.conds:
            try:
                v = evalt(c, env, dom)
            except Opaque:
                continue
            if bool(v) != b:
                ok = False
                break
        if ok:
            sel.append(p)
    return sel

"""Values of constant expressions, computed over the reference's typed trees; images of objects in memory."""
import re
import fval
from sema import *

SIGNED = {"i8", "i16", "i32", "i64", "char"}
FFMT = {"f32": "float", "f64": "double", "f80": "long double"}
LOW = {"f32": "float", "f64": "double", "f80": "double"}      # what literals and the compile-time evaluator have of an f80


class NotConst(Exception):
    """not known before the program runs: to be rejected"""


class Undefined(Exception):
    """no particular value"""


class Either(Exception):
    """may be rejected or computed; carries the value"""


def bits(t):
    return 8 * size(t)


def wrap(v, t):
    k = kind(t)
    if k == "bool":
        return int(v != 0)
    n = bits(t)
    v &= (1 << n) - 1
    if (k in SIGNED or k == "ENUM") and v >> (n - 1):
        v -= 1 << n
    return v


def sizeof(t):
    t = unpack(t)
    if isinstance(t, str):
        return size(t)
    if t[0] == "ARRAY":
        return 8 + t[2] * sizeof(t[1])
    if t[0] == "C_ARRAY":
        return t[2] * sizeof(t[1])
    if t[0] in ("STRUCT", "UNION"):
        n = 0
        for _, m in t[1]:
            n = max(n, (0 if t[0] == "UNION" else up(n, alignof(m))) + sizeof(m))
        return up(n, alignof(t))
    return size(t)


def up(n, a):
    return -(-n // a) * a


def alignof(t):
    t = unpack(t)
    if isinstance(t, tuple):
        if t[0] == "ARRAY":
            return 8
        if t[0] == "C_ARRAY":
            return alignof(t[1])
        if t[0] in ("STRUCT", "UNION"):
            return max([alignof(m) for _, m in t[1]] or [1])
    return max(size(t), 1)


def offsets(t):
    t = unpack(t)
    o, out = 0, []
    for _, m in t[1]:
        o = 0 if t[0] == "UNION" else up(o, alignof(m))
        out.append(o)
        o += sizeof(m)
    return out


def convert(v, s, t, fmt=FFMT):
    """value v of type s as a t"""
    if same(unpack(s) if s else None, unpack(t)) if isinstance(unpack(t), str) else False:
        return v
    if isinstance(v, (list, tuple)):
        return v
    if flo(t):
        x = v if flo(s) else fval.norm(fval.Fraction(v)) if v else 0.0
        return fval.rnd(x, fmt[kind(t)])
    if integer(t) or kind(t) in ("PTR", "FN"):
        if flo(s):
            if kind(t) == "bool":
                return int(v != 0)
            n = fval.to_int(v)
            w = 64 if not integer(t) else bits(t)
            lo, hi = (-(1 << w - 1), 1 << w - 1) if kind(t) in SIGNED or kind(t) == "ENUM" else (0, 1 << w)
            if n is None or not lo <= n < hi:
                raise Undefined
            return n
        return wrap(v, t) if integer(t) else v & (1 << 64) - 1
    return v


class Const:
    def __init__(self, ref, fmt=FFMT):
        self.ref, self.fmt = ref, fmt
        self.pipes = []
        self.depth = 0

    def again(self, d):
        self.depth += 1
        if self.depth > 40:
            raise NotConst("%s is defined by itself" % d.name)

    def later(self, g, scope):
        """the typed tree of a part of the program that was not reached yet"""
        s, self.ref.scope = self.ref.scope, scope
        try:
            return self.ref.expr(g)
        finally:
            self.ref.scope = s

    def at(self, e, t):
        """e as a value of type t"""
        return convert(self.ev(e), e.t, t, self.fmt)

    def ev(self, e):
        f = getattr(self, "v_" + e.k, None)
        if f is None:
            raise NotConst(e.k)
        return f(e)

    def v_INT(self, e):
        return e.x
    v_LONG = v_ULONG = v_BOOL = v_CHAR = v_INT

    def v_FLOAT(self, e):
        return fval.rnd(e.x, self.fmt[kind(e.t)])
    v_DOUBLE = v_FLOAT

    def v_NIL(self, e):
        return 0

    def v_STR(self, e):
        return ("str", e.x)

    def v_CLOSURE(self, e):
        for k in e.kids[:-1]:
            self.ev(k)
        return self.ev(e.kids[-1])

    def v_ID(self, e):
        d = e.x
        if d.kind == "ENUM_MEMBER":
            return self.member(d)
        if d.kind == "GLOBAL" and d.const and d.src[3] is not None:
            self.again(d)
            if d.__dict__.get("value") is None:
                d.value = self.later(d.src[3], d.scope)
            v = self.at(d.value, d.type)
            self.depth -= 1
            return v
        raise NotConst(d.name)

    def member(self, d):
        g = d.src[1]
        self.again(d)
        ms = d.owner.members
        if g == ("NOOP",):
            i = [x is d for x in ms].index(True)
            v = wrap(self.member(ms[i - 1]) + 1, "i32") if i else 0
        else:
            e = self.later(g, d.owner.scope)
            if not integer(e.t) and not flo(e.t):
                raise NotConst("value of an enum")
            v = self.ev(e)
            v = wrap(v, "i32") if integer(e.t) else convert(v, e.t, "i32")
        self.depth -= 1
        return v

    def v_CAST(self, e):
        k = e.kids[0]
        v = self.ev(k)
        return convert(v, k.t, e.t, self.fmt)

    def nums(self, e, t=None):
        l, r = e.kids
        return self.at(l, t or l.t), self.at(r, t or r.t)

    def arith(op):
        def f(self, e):
            t = e.t
            if not numeric(t):
                raise Either
            a, b = self.nums(e, t)
            if flo(t):
                return fval.binary(op, a, b, self.fmt[kind(t)])
            if op == "/":
                if b == 0:
                    raise NotConst("division by zero")
                q = abs(a) // abs(b)
                v = q if (a < 0) == (b < 0) else -q
                if v != wrap(v, t):
                    raise Undefined
                return v
            return wrap(a + b if op == "+" else a - b if op == "-" else a * b, t)
        return f
    v_ADD, v_SUB, v_MUL, v_DIV = map(arith, "+-*/")

    def v_MOD(self, e):
        a, b = self.nums(e)
        if b == 0:
            raise NotConst("division by zero")
        t = e.kids[0].t
        q = abs(a) // abs(b)
        q = q if (a < 0) == (b < 0) else -q
        if q != wrap(q, t):
            raise Undefined
        return convert(wrap(a - b * q, t), t, e.t)

    def bit(f):
        def g(self, e):
            a, b = self.nums(e)
            t = e.kids[0].t
            return convert(wrap(f(a, b), t), t, e.t)
        return g
    v_XOR, v_BIT_AND, v_BIT_OR = bit(lambda a, b: a ^ b), bit(lambda a, b: a & b), bit(lambda a, b: a | b)

    def shift(f):
        def g(self, e):
            a, b = self.nums(e)
            t = e.kids[0].t
            if not 0 <= b < bits(t):
                raise Undefined
            return convert(wrap(f(a, b), t), t, e.t)
        return g
    v_LSHIFT, v_RSHIFT = shift(lambda a, b: a << b), shift(lambda a, b: a >> b)

    def cmp(op):
        def f(self, e):
            a, b = self.nums(e)
            if isinstance(a, tuple) or isinstance(b, tuple):
                raise Either
            return fval.compare(op, a, b)
        return f
    v_EQ, v_NE, v_LT, v_LE, v_GT, v_GE = map(cmp, ("==", "!=", "<", "<=", ">", ">="))

    def truth(self, v):
        return isinstance(v, (tuple, list)) or v != 0

    def v_AND(self, e):
        return int(self.truth(self.ev(e.kids[0])) and self.truth(self.ev(e.kids[1])))

    def v_OR(self, e):
        return int(self.truth(self.ev(e.kids[0])) or self.truth(self.ev(e.kids[1])))

    def v_NEG(self, e):
        v = self.ev(e.kids[0])
        return fval.neg(v) if flo(e.t) else wrap(-v, e.t)

    def v_BIT_NEG(self, e):
        v = self.ev(e.kids[0])
        return wrap(~v, e.t) if kind(e.t) != "bool" else wrap(~v, "bool")

    def v_NOT(self, e):
        return int(not self.truth(self.ev(e.kids[0])))

    def v_TERNARY(self, e):
        return self.at(e.kids[1 if self.truth(self.ev(e.kids[0])) else 2], e.t)

    def v_ELSE_EXPR(self, e):
        v = self.ev(e.kids[0])
        return v if self.truth(v) else self.ev(e.kids[1])

    def v_PIPE(self, e):
        self.pipes.append(self.ev(e.kids[0]))
        try:
            return self.ev(e.kids[1])
        finally:
            self.pipes.pop()

    def v_HOLE(self, e):
        return self.pipes[-1]

    def v_SIZEOF(self, e):
        return sizeof(e.x)

    def v_ALIGNOF(self, e):
        return alignof(e.x)

    def v_ARRAY(self, e):
        return [self.at(k, unpack(e.t)[1]) for k in e.kids]

    def v_STRUCT(self, e):
        ms = unpack(e.t)[1]
        return [self.at(k, ms[i][1]) for i, k in enumerate(e.kids)]

    def either(self, e):
        raise Either
    v_MEMBER = v_INDEX = v_LEN = either


def image(v, t):
    """cells of an object of type t with value v (None: none given)"""
    u = unpack(t)
    k = kind(u)
    n = sizeof(u)
    if k == "ARRAY" or k == "C_ARRAY":
        if isinstance(v, int):
            raise Undefined
        out = list((u[2] if k == "ARRAY" else 0).to_bytes(8, "little")) if k == "ARRAY" else []
        v = list(v) if v is not None else []
        for i in range(u[2]):
            out += image(v[i] if i < len(v) else None, u[1])
        return out
    if k in ("STRUCT", "UNION"):
        out = [0] * n
        v = v if v is not None else []
        for i, ((_, m), o) in enumerate(zip(u[1], offsets(u))):
            if k == "UNION" and i >= len(v):
                break
            c = image(v[i] if i < len(v) else None, m)
            out[o:o + len(c)] = c
        return out
    if v is None:
        return [0] * n
    if isinstance(v, tuple):
        return [(v, i) for i in range(n)]
    if k in FLTS:
        b = fval.image(v, FFMT[k])
        return [(b >> 8 * i) & 255 if i < 10 else 0 for i in range(n)]
    return [(v >> 8 * i) & 255 for i in range(n)]


def length(self, e):
    if not numeric(e.t):
        raise Skip("length %s" % tstr(e.t))
    try:
        n = Const(self).ev(e)
        n = n if integer(e.t) else convert(n, e.t, "u64")
    except (NotConst, Either):
        self.open = True
        return None
    except Undefined:
        raise Skip("length")
    if n < 0:
        raise Skip("negative length")
    if n > 5000:
        raise Skip("long array")
    return n


Ref.length = length

"""Floating point constants: exact values of the x86 formats (a double where it is one, else a Fraction)."""
import math, struct
from fractions import Fraction

FMT = {"float": (24, -149, 128), "double": (53, -1074, 1024), "long double": (64, -16445, 16384)}


def parse(s):
    return Fraction(s) if "/" in s else float(s)


def norm(x):
    """Fraction -> float where that is exact"""
    if isinstance(x, Fraction):
        try:
            f = x.numerator / x.denominator
        except OverflowError:
            return x
        if math.isfinite(f) and Fraction(f) == x:
            return f
    return x


def show(x):
    x = norm(x)
    return repr(x) if isinstance(x, float) else "%d/%d" % (x.numerator, x.denominator)


def rnd(x, ty):
    """round to nearest even in the format"""
    if isinstance(x, float) and (x == 0 or not math.isfinite(x)):
        return x
    prec, emin, emax = FMT[ty]
    x = Fraction(x)
    neg, m = x < 0, abs(x)
    e = m.numerator.bit_length() - m.denominator.bit_length()
    if Fraction(2) ** e > m:
        e -= 1
    q = max(e - prec + 1, emin)
    n = m / Fraction(2) ** q
    k = n.numerator // n.denominator
    r = n - k
    if r > Fraction(1, 2) or r == Fraction(1, 2) and k & 1:
        k += 1
    v = k * Fraction(2) ** q
    if v >= Fraction(2) ** emax:
        return -math.inf if neg else math.inf
    if v == 0:
        return -0.0 if neg else 0.0
    return norm(-v if neg else v)


def neg(x):
    return -x


def binary(op, a, b, ty):
    fa, fb = [isinstance(x, float) and (x == 0 or not math.isfinite(x)) for x in (a, b)]
    if fa or fb:
        x, y = [v if isinstance(v, float) else math.copysign(1.0, v) for v in (a, b)]
        if op == "/" and y == 0:
            if x == 0 or math.isnan(x):
                return math.nan
            return math.copysign(math.inf, x) * math.copysign(1, y)
        if op in "+-" and not (fa and fb) and all(not isinstance(v, float) or math.isfinite(v) for v in (a, b)):
            return rnd(a + b if op == "+" else a - b, ty) if not fa else rnd(b if op == "+" else -b, ty)
        return {"+": x + y, "-": x - y, "*": x * y, "/": x / y if y else math.nan}[op]
    a, b = Fraction(a), Fraction(b)
    r = {"+": a + b, "-": a - b, "*": a * b, "/": a / b}[op]
    return rnd(r, ty) if r else 0.0


def compare(op, a, b):
    if any(isinstance(x, float) and math.isnan(x) for x in (a, b)):
        return int(op == "!=")
    return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op])


def to_int(x):
    """truncated, None where there is no integer"""
    if isinstance(x, float) and not math.isfinite(x):
        return None
    return math.trunc(x)


def image(x, ty):
    """the bytes of the format as an integer: 4, 8 or 10 bytes"""
    if ty == "float":
        return struct.unpack("<I", struct.pack("<f", float(x)))[0]
    if ty == "double":
        return struct.unpack("<Q", struct.pack("<d", float(x)))[0]
    s = math.copysign(1, x) < 0 if isinstance(x, float) else x < 0
    top = 0x8000 if s else 0
    if isinstance(x, float) and math.isinf(x):
        return (top | 0x7fff) << 64 | 1 << 63
    if isinstance(x, float) and math.isnan(x):
        return (top | 0x7fff) << 64 | 3 << 62
    if x == 0:
        return top << 64
    m = abs(Fraction(x))
    e = m.numerator.bit_length() - m.denominator.bit_length()
    if Fraction(2) ** e > m:
        e -= 1
    if e < -16382:
        return top << 64 | int(m / Fraction(2) ** -16445)
    return (top | (e + 16383)) << 64 | int(m * Fraction(2) ** (63 - e))


def from_image(n, ty):
    if ty == "float":
        return struct.unpack("<f", struct.pack("<I", n & 0xffffffff))[0]
    if ty == "double":
        return struct.unpack("<d", struct.pack("<Q", n & (1 << 64) - 1))[0]
    man, se = n & (1 << 64) - 1, n >> 64 & 0xffff
    e, s = se & 0x7fff, -1 if se & 0x8000 else 1
    if e == 0x7fff:
        return s * math.inf if man == 1 << 63 else math.nan
    if man == 0:
        return s * 0.0
    return norm(s * man * Fraction(2) ** (max(e, 1) - 16383 - 63))

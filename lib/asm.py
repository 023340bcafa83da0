"""Abstract machine for the assembly text that the code generator emits.

The generator is interpreted abstractly (absint); what it writes becomes a list of
instructions with holes for the code of opaque sub-expressions.  This module gives
those instructions their meaning over value-numbering terms: registers, flags, the
x87 stack and byte-granular memory hold terms, a conditional jump on undecided
flags splits the partition, an opaque sub-expression delivers a fresh term and
destroys every register it is allowed to destroy.
"""
import re, struct, math
from absint import Sym, S, show
from prog import AnalysisBroken


class AsmError(Exception):
    """the emitted text has no meaning (unknown label, malformed operand, ...)"""


M64 = (1 << 64) - 1
GPR = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
SUB = {}
for _r, _d, _w, _b in (("rax", "eax", "ax", "al"), ("rbx", "ebx", "bx", "bl"), ("rcx", "ecx", "cx", "cl"), ("rdx", "edx", "dx", "dl"),
                       ("rsi", "esi", "si", "sil"), ("rdi", "edi", "di", "dil"), ("rbp", "ebp", "bp", "bpl"), ("rsp", "esp", "sp", "spl")):
    SUB[_r], SUB[_d], SUB[_w], SUB[_b] = (_r, 64, 0), (_r, 32, 0), (_r, 16, 0), (_r, 8, 0)
for _i in range(8, 16):
    SUB["r%d" % _i], SUB["r%dd" % _i], SUB["r%dw" % _i], SUB["r%db" % _i] = ("r%d" % _i, 64, 0), ("r%d" % _i, 32, 0), ("r%d" % _i, 16, 0), ("r%d" % _i, 8, 0)
for _h, _r in (("ah", "rax"), ("bh", "rbx"), ("ch", "rcx"), ("dh", "rdx")):
    SUB[_h] = (_r, 8, 8)

CC = {}
for _n, _al in (("e", "z"), ("ne", "nz"), ("l", "nge"), ("ge", "nl"), ("le", "ng"), ("g", "nle"), ("b", "nae c"), ("ae", "nb nc"), ("be", "na"),
                ("a", "nbe"), ("s", ""), ("ns", ""), ("p", "pe"), ("np", "po"), ("o", ""), ("no", "")):
    CC[_n] = _n
    for _x in _al.split():
        CC[_x] = _n


# ------------------------------------------------------------------ terms
def bits_of(t):
    """upper bound on the number of significant bits"""
    if isinstance(t, int):
        return t.bit_length()
    o = t.op
    if o in ("add", "sub", "mul", "neg", "not", "shl", "sdiv", "smod", "sx", "lo"):
        return t.a[0] if o != "sx" else t.a[1]
    if o in ("shr", "udiv", "umod"):
        return t.a[0]
    if o in ("and",):
        return min(bits_of(t.a[1]), bits_of(t.a[2]))
    if o in ("or", "xor"):
        return max(bits_of(t.a[1]), bits_of(t.a[2]))
    if o in ("cc",):
        return 1
    if o == "byte" or o == "m":
        return 8
    if o == "cat":
        return 8 * len(t.a)
    if o in ("sar", "fop", "cvt", "f2i"):
        return t.a[0] if isinstance(t.a[0], int) else 64
    return 64


def lo(v, w):
    if isinstance(v, int):
        return v & ((1 << w) - 1)
    if bits_of(v) <= w:
        return v
    if v.op == "ins":
        k, old, new = v.a
        if w <= k:
            return lo(new, w)
    if v.op == "lo":
        return lo(v.a[1], w)
    if v.op == "sx" and w <= v.a[0]:
        return lo(v.a[2], w)
    if v.op == "cat" and w % 8 == 0:
        return cat(v.a[:w // 8])
    return S("lo", w, v)


def cat(bs):
    bs = list(bs)
    if all(isinstance(b, int) for b in bs):
        return sum(b << (8 * i) for i, b in enumerate(bs))
    b0 = bs[0]
    if isinstance(b0, Sym) and b0.op == "byte" and b0.a[0] == 0:
        v = b0.a[1]
        n = len(bs)
        if all(isinstance(b, Sym) and b.op == "byte" and b.a == (i, v) for i, b in enumerate(bs)):
            return lo(v, 8 * n)
    if len(bs) == 1:
        return b0
    return S("cat", *bs)


def byte(v, i):
    if isinstance(v, int):
        return (v >> (8 * i)) & 255
    if v.op == "cat":
        return v.a[i] if i < len(v.a) else 0
    if bits_of(v) <= 8 * i:
        return 0
    if v.op == "lo" and 8 * i + 8 <= v.a[0]:
        return byte(v.a[1], i)
    if v.op == "byte":
        return v if i == 0 else 0
    if v.op == "m":
        return v if i == 0 else 0
    if v.op == "ins":
        k, old, new = v.a
        if 8 * i + 8 <= k:
            return byte(new, i)
        if 8 * i >= k:
            return byte(old, i)
    if v.op == "shr" and isinstance(v.a[2], int) and v.a[2] % 8 == 0 and v.a[0] == 64:
        return byte(v.a[1], i + v.a[2] // 8) if i + v.a[2] // 8 < 8 else 0
    if v.op == "shl" and isinstance(v.a[2], int) and v.a[2] % 8 == 0 and v.a[0] == 64:
        return byte(v.a[1], i - v.a[2] // 8) if i >= v.a[2] // 8 else 0
    return S("byte", i, v)


def sx(v, f, t):
    v = lo(v, f)
    if isinstance(v, int):
        return (v - (1 << f) if v >> (f - 1) else v) & ((1 << t) - 1)
    if bits_of(v) < f:
        return v
    return S("sx", f, t, v)


def addr_split(v):
    """-> (base term or None, offset)"""
    if isinstance(v, int):
        return None, v if v < 1 << 63 else v - (1 << 64)
    if v.op == "add" and v.a[0] == 64:
        a, b = v.a[1], v.a[2]
        if isinstance(b, int):
            x, o = addr_split(a)
            return x, o + (b if b < 1 << 63 else b - (1 << 64))
        if isinstance(a, int):
            x, o = addr_split(b)
            return x, o + (a if a < 1 << 63 else a - (1 << 64))
    return v, 0


def add(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & ((1 << w) - 1)
    if w == 64:
        x, o = addr_split(a)
        y, q = addr_split(b)
        if x is None or y is None:
            base, off = (x if x is not None else y), (o + q) & M64
            if off == 0:
                return base
            return S("add", 64, base, off)
        base = S("add", 64, *sorted((x, y), key=show))
        off = (o + q) & M64
        return S("add", 64, base, off) if off else base
    if isinstance(b, int) and b == 0 and bits_of(a) <= w:
        return a
    return S("add", w, a, b)


def sub(w, a, b):
    if isinstance(b, int):
        return add(w, a, (-b) & ((1 << w) - 1))
    if a is b:
        return 0
    if w == 64 and not isinstance(a, int):
        x, o = addr_split(a)
        y, q = addr_split(b)
        if x is y:
            return (o - q) & M64
    return S("sub", w, a, b)


def bop(op, w, a, b):
    m = (1 << w) - 1
    if isinstance(a, int) and isinstance(b, int):
        if op == "and": return a & b & m
        if op == "or": return (a | b) & m
        if op == "xor": return (a ^ b) & m
        if op == "mul": return (a * b) & m
        if op == "shl": return (a << b) & m if b < w else 0
        if op == "shr": return (a & m) >> b
    if op == "xor" and a is b:
        return 0
    if op in ("and", "or") and a is b:
        return lo(a, w)
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                if x == 0: return 0
                if x == 1: return lo(y, w)
    if op in ("shl", "shr") and isinstance(b, int) and b == 0:
        return lo(a, w)
    if op == "shr":
        a = lo(a, w)
    # or / add of disjoint bytes: normalise through bytes
    if op == "or" and w == 64:
        n = []
        for i in range(8):
            x, y = byte(a, i), byte(b, i)
            if isinstance(x, int) and x == 0: n.append(y)
            elif isinstance(y, int) and y == 0: n.append(x)
            else: break
        if len(n) == 8:
            return cat8(n)
    return S(op, w, a, b)


def cat8(bs):
    while len(bs) > 1 and isinstance(bs[-1], int) and bs[-1] == 0:
        bs = bs[:-1]
    return cat(bs)


def sbits(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def f_of(bits, w):
    return struct.unpack("<f" if w == 32 else "<d", struct.pack("<I" if w == 32 else "<Q", bits & ((1 << w) - 1)))[0]


def f_to(x, w):
    if w == 32:
        try:
            return struct.unpack("<I", struct.pack("<f", x))[0]
        except OverflowError:
            return 0xff800000 if x < 0 else 0x7f800000
    return struct.unpack("<Q", struct.pack("<d", x))[0]


class NoValue(Exception):
    pass


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def ev(t, env):
    """value of a term (unsigned integer; f80 terms give python numbers)"""
    if isinstance(t, int):
        return t
    if t in env:
        return env[t]
    o, a = t.op, t.a
    if o in ("add", "sub", "mul", "and", "or", "xor"):
        w = a[0]
        x, y = ev(a[1], env), ev(a[2], env)
        m = (1 << w) - 1
        return {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}[o] & m
    if o in ("shl", "shr", "sar"):
        w = a[0]
        x, n = ev(a[1], env) & ((1 << w) - 1), ev(a[2], env) & (63 if w == 64 else 31)
        if o == "shl": return (x << n) & ((1 << w) - 1)
        if o == "shr": return x >> n
        return (sbits(x, w) >> n) & ((1 << w) - 1)
    if o == "neg": return -ev(a[1], env) & ((1 << a[0]) - 1)
    if o == "not": return ~ev(a[1], env) & ((1 << a[0]) - 1)
    if o == "lo" and isinstance(a[1], Sym) and a[1].op == "ins" and a[1].a[0] >= a[0] and a[1] not in env:
        return ev(a[1].a[2], env) & ((1 << a[0]) - 1)
    if o == "lo": return ev(a[1], env) & ((1 << a[0]) - 1)
    if o == "sx": return sbits(ev(a[2], env) & ((1 << a[0]) - 1), a[0]) & ((1 << a[1]) - 1)
    if o == "ins":
        m = (1 << a[0]) - 1
        return (ev(a[1], env) & ~m) | (ev(a[2], env) & m)
    if o == "insh":
        return (ev(a[0], env) & ~0xff00) | ((ev(a[1], env) & 255) << 8)
    if o == "m" and "mem" in env:
        return env["mem"](((ev(a[0], env) if a[0] is not None else 0) + a[1]) & M64)
    if o == "alias" and "mem" in env:
        return env["mem"](((ev(a[0], env) if a[0] is not None else 0) + a[1]) & M64)
    if o == "byte": return (ev(a[1], env) >> (8 * a[0])) & 255
    if o == "cat": return sum(ev(b, env) << (8 * i) for i, b in enumerate(a))
    if o in ("udiv", "umod", "sdiv", "smod"):
        w = a[0]
        hi, l, d = (ev(x, env) for x in a[1:])
        if o[0] == "u":
            n = (hi << w) | l
            if d == 0: raise NoValue("divide error")
            q, r = n // d, n % d
            if q >> w: raise NoValue("divide error")
        else:
            n = sbits((hi << w) | l, 2 * w)
            d = sbits(d, w)
            if d == 0: raise NoValue("divide error")
            q = abs(n) // abs(d) * (1 if (n < 0) == (d < 0) else -1)
            r = n - q * d
            if not -(1 << (w - 1)) <= q < 1 << (w - 1): raise NoValue("divide error")
        return (q if o[1:] == "div" else r) & ((1 << w) - 1)
    if o == "cc":
        return int(cond(a[0], a[1], a[2:], env))
    if o == "fop":      # fop(w, op, a, b) on bit patterns
        w, op = a[0], a[1]
        x, y = f_of(ev(a[2], env), w), f_of(ev(a[3], env), w)
        try:
            if op == "add": r = x + y
            elif op == "sub": r = x - y
            elif op == "mul": r = x * y
            elif op == "div": r = fdiv(x, y)
            else: raise NoValue(op)
        except OverflowError:
            r = math.inf
        return f_to(r, w)
    if o == "sqrt":
        return f_to(math.sqrt(f_of(ev(a[1], env), a[0])), a[0])
    if o == "i2f":      # i2f(iw, fw, v) signed integer to float
        return f_to(i_to_f(sbits(ev(a[2], env) & ((1 << a[0]) - 1), a[0]), a[1]), a[1])
    if o == "f2i":      # f2i(iw, fw, v) truncate
        x = f_of(ev(a[2], env), a[1])
        if x != x or math.isinf(x) or not -(1 << (a[0] - 1)) <= int(x) < 1 << (a[0] - 1):
            return 1 << (a[0] - 1)
        return int(x) & ((1 << a[0]) - 1)
    if o == "f2f":      # f2f(from, to, v)
        x = f_of(ev(a[2], env), a[0])
        return f_to(x, a[1])
    # x87: exact rationals
    if o == "x_i": return exact(sbits(ev(a[1], env) & ((1 << a[0]) - 1), a[0]))
    if o == "x_f": return exact(f_of(ev(a[1], env), a[0]))
    if o == "x_op":
        x, y = ev(a[1], env), ev(a[2], env)
        if a[0] == "/" and y == 0: raise NoValue("x87 division by zero")
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: exact(x) / exact(y)}[a[0]]()
    if o == "x_neg": return -ev(a[0], env)
    if o == "x_sti":    # store integer: x_sti(w, mode, v)
        x = ev(a[2], env)
        mode = a[1]
        if mode == "trunc":
            n = math.trunc(x)
        else:
            n = round(x)
        if not -(1 << (a[0] - 1)) <= n < 1 << (a[0] - 1):
            return 1 << (a[0] - 1)
        return n & ((1 << a[0]) - 1)
    if o == "x_stf": return f_to(float(ev(a[1], env)), a[0])
    if o == "ldx":      # reload of an 80-bit store
        return ev(a[0], env)
    raise NoValue(show(t))


def exact(x):
    from fractions import Fraction
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
        return x
    return Fraction(x)


def i_to_f(n, w):
    if w == 64:
        return float(n)
    # correctly rounded integer -> f32
    if n == 0:
        return 0.0
    s, m = (-1, -n) if n < 0 else (1, n)
    sh = m.bit_length() - 24
    if sh > 0:
        q, r = m >> sh, m & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1):
            q += 1
        m = q << sh
    return float(s * m)


def cond(cc, kind, ops, env):
    if kind == "cmp":      # flags of a - b
        w, a, b = ops
        x, y = ev(a, env) & ((1 << w) - 1), ev(b, env) & ((1 << w) - 1)
        sxv, syv = sbits(x, w), sbits(y, w)
        r = (x - y) & ((1 << w) - 1)
        z, c, s = x == y, x < y, bool(r >> (w - 1))
        of = not -(1 << (w - 1)) <= sxv - syv < 1 << (w - 1)
        p = bin(r & 255).count("1") % 2 == 0
    elif kind == "res":    # logic result
        w, r = ops
        r = ev(r, env) & ((1 << w) - 1)
        z, c, s, of = r == 0, False, bool(r >> (w - 1)), False
        p = bin(r & 255).count("1") % 2 == 0
    elif kind == "fcmp":   # ucomis: compares a with b
        w, a, b = ops
        x, y = ev(a, env), ev(b, env)
        if w in (32, 64):
            x, y = f_of(x, w), f_of(y, w)
        un = x != x or y != y
        z, p, c = un or x == y, un, un or x < y
        s = of = False
    else:
        raise NoValue("flags")
    return {"e": z, "ne": not z, "l": s != of, "ge": s == of, "le": z or s != of, "g": not z and s == of, "b": c, "ae": not c, "be": c or z,
            "a": not c and not z, "s": s, "ns": not s, "p": p, "np": not p, "o": of, "no": not of}[cc]


# ------------------------------------------------------------------ text -> instructions
class Ins:
    __slots__ = ("m", "ops", "text", "n")

    def __repr__(self):
        return self.text


def split_ops(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "(": d += 1
        if ch == ")": d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Code:
    """instructions, labels, opaque children and directives of one emission"""

    def __init__(self, items):
        self.prog = []          # Ins | ("child", ...) | ("label", name)
        self.labels = {}
        self.dups = []
        self.directives = []
        self.stream = []        # labels, directives, instructions and children in order
        self.syms = []
        buf = ""
        for it in items:
            if it[0] == "text":
                for x in it[1]:
                    if isinstance(x, str):
                        buf += x
                    else:
                        self.syms.append(x)
                        buf += chr(0xE000 + len(self.syms) - 1)
            else:
                # a child's code starts on its own line
                self.flush(buf)
                buf = ""
                self.prog.append(it)
                self.stream.append(("ins", it))
        self.flush(buf)
        # unterminated statements are joined by the assembler: nothing to do

    def flush(self, buf):
        for line in buf.split("\n"):
            line = line.split("#")[0]
            for st in split_stmts(line):
                self.stmt(st.strip())

    def stmt(self, s):
        while True:
            m = re.match(r"^([A-Za-z0-9_.$\ue000-\uefff]+):\s*", s)
            if not m:
                break
            self.label(m.group(1))
            s = s[m.end():]
        if not s:
            return
        if s.startswith("."):
            self.directives.append((len(self.prog), s))
            self.stream.append(("dir", s))
            return
        parts = s.split(None, 1)
        mn = parts[0].lower()
        if mn in ("rep", "repe", "repne", "repz", "repnz", "lock") and len(parts) > 1:
            q = parts[1].split(None, 1)
            mn = mn + " " + q[0].lower()
            rest = q[1] if len(q) > 1 else ""
        else:
            rest = parts[1] if len(parts) > 1 else ""
        i = Ins()
        i.m, i.ops, i.text = mn, split_ops(rest), s
        i.n = len(self.prog)
        self.prog.append(i)
        self.stream.append(("ins", i))

    def label(self, n):
        self.stream.append(("label", n))
        if n.isdigit():
            self.labels.setdefault("#" + n, []).append(len(self.prog))
        else:
            if n in self.labels:
                self.dups.append(n)
            self.labels[n] = len(self.prog)

    def target(self, name, at):
        m = re.match(r"^(\d+)([fb])$", name)
        if m:
            ls = self.labels.get("#" + m.group(1), [])
            c = [x for x in ls if x > at] if m.group(2) == "f" else [x for x in ls if x <= at]
            if not c:
                raise AsmError("jump to undefined local label %s" % name)
            return min(c) if m.group(2) == "f" else max(c)
        return self.labels.get(name)

    def text(self, i):
        return i.text if isinstance(i, Ins) else "<%s>" % (i[0:3],)


def split_stmts(line):
    out, q, cur = [], False, ""
    for ch in line:
        if ch == '"': q = not q
        if ch == ";" and not q:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


class St:
    """machine state"""
    __slots__ = ("r", "x", "fp", "mem", "flags", "pc", "conds", "trace", "visits", "df", "cw", "end", "occ", "undef")

    def copy(self):
        s = St()
        s.r, s.x, s.fp, s.mem = dict(self.r), dict(self.x), list(self.fp), dict(self.mem)
        s.flags, s.pc, s.conds, s.trace = self.flags, self.pc, list(self.conds), list(self.trace)
        s.visits, s.df, s.cw, s.end, s.occ, s.undef = dict(self.visits), self.df, self.cw, self.end, dict(self.occ), self.undef
        return s


SP0 = S("SP")
BP0 = S("BP")


def fresh_state(regs=None):
    s = St()
    s.r = {g: S("init", g) for g in GPR}
    s.r["rsp"], s.r["rbp"] = SP0, BP0
    s.x = {i: S("init", "xmm%d" % i) for i in range(16)}
    s.fp, s.mem, s.flags, s.pc, s.conds, s.trace, s.visits = [], {}, None, 0, [], [], {}
    s.df, s.cw, s.end, s.occ, s.undef = None, "near", None, {}, 0
    if regs:
        s.r.update(regs)
    return s


class Data:
    """what the assembler places at one label of a data section"""

    def __init__(self, name, section, align):
        self.name, self.section, self.align = name, section, align
        self.bytes = []         # ints, or ("sym", name, addend, k) for byte k of an address
        self.other = []

    def __eq__(self, o):
        return self.bytes == o if isinstance(o, list) else self is o

    def __repr__(self):
        return "%s/%s:%s%s" % (self.section, self.align, self.bytes[:24], "..." if len(self.bytes) > 24 else "")


def data_of(code, M=None):
    """label -> Data, and the declared sizes, globals and types, in self.attrs"""
    out, cur, section, align, seen = {}, [], ".text", 1, {}
    M = M or Machine(code)
    for k, x in code.stream:
        if k == "label":
            d = Data(M.named(x), section, align)
            if d.name in out:
                raise AsmError("symbol %s is defined twice" % d.name)
            out[d.name] = d
            cur.append(d)
            align = 1
            continue
        if k == "ins":
            if cur:
                for d in cur: d.other.append(x)
            continue
        mn, _, rest = x.partition(" ")
        ops = [o for o in split_ops(rest)]
        if mn in (".data", ".bss", ".text") or mn == ".section":
            section, cur, align = (ops[0] if mn == ".section" else mn), [], 1
            continue
        if mn in (".align", ".balign"):
            align = M.imm(ops[0])
            if cur and cur[-1].bytes:
                cur = []
            continue
        if mn in (".byte", ".short", ".word", ".value", ".long", ".int", ".quad", ".8byte", ".4byte", ".2byte"):
            n = {".byte": 1, ".short": 2, ".word": 2, ".value": 2, ".2byte": 2, ".long": 4, ".int": 4, ".4byte": 4, ".quad": 8, ".8byte": 8}[mn]
            for o in ops:
                m = re.match(r"^(.*?)([+-]\d+)$", o)
                v = M.imm(o)
                add_ = 0
                if isinstance(v, Sym) and m and m.group(1):
                    v, add_ = M.imm(m.group(1)), int(m.group(2))
                for d in cur:
                    if isinstance(v, int):
                        d.bytes += [(v >> 8 * i) & 255 for i in range(n)]
                    else:
                        d.bytes += [("sym", v.a[0] if v.op in ("sym", "imm") else v, add_, i) for i in range(n)]
            continue
        if mn in (".zero", ".skip", ".space"):
            v = M.imm(ops[0])
            if not isinstance(v, int) or v >> 62:
                raise AsmError("`%s` has a bad count" % x)
            for d in cur: d.bytes += [0] * v
            continue
        if mn in (".size", ".type", ".globl", ".global", ".local"):
            seen.setdefault(M.named(ops[0]), {})[mn] = M.imm(ops[1]) if mn == ".size" else ops[1:] or True
            continue
        if mn in (".file", ".loc", ".ident", ".p2align"):
            continue
        raise AsmError("unknown directive `%s`" % x)
    for d in out.values():
        d.attrs = seen.get(d.name, {})
    return out


JCC = {"j" + k: v for k, v in CC.items()}
SETCC = {"set" + k: v for k, v in CC.items()}
SUFFIX = {"b": 8, "w": 16, "l": 32, "q": 64}


class Machine:
    def __init__(self, code, child=None, on_call=None, max_visits=3, max_paths=600, env=None):
        self.env = env or {}        # known values of leaf terms: decides branches
        self.c = code
        self.child = child or self.default_child
        self.on_call = on_call
        self.max_visits, self.max_paths = max_visits, max_paths
        self.undefined_reads = []

    # --- operands
    def imm(self, s):
        s = s.strip()
        if len(s) == 1 and 0xE000 <= ord(s) < 0xF000:
            return S("imm", self.c.syms[ord(s) - 0xE000])
        neg = False
        inv = False
        while s[:1] in "-~+":
            if s[0] == "-": neg = not neg
            if s[0] == "~": inv = True
            s = s[1:]
        try:
            v = int(s, 0)
        except ValueError:
            return S("sym", s)
        if neg: v = -v
        if inv: v = ~v
        return v & M64

    def reg(self, o):
        n = o[1:]
        return SUB.get(n)

    def ea(self, st, o):
        m = re.match(r"^([^()]*)\(([^()]*)\)$", o)
        if not m:
            return S("sym", o)
        disp, inner = m.group(1).strip(), m.group(2)
        parts = [x.strip() for x in inner.split(",")]
        if parts[0] == "%rip":
            return S("sym", self.named(disp))
        v = 0
        if disp:
            d = self.imm(disp)
            v = d
        if parts[0]:
            r = self.reg(parts[0])
            if r is None or r[1] != 64:
                raise AsmError("bad base register in %s" % o)
            v = add(64, st.r[r[0]], v)
        if len(parts) > 1 and parts[1]:
            r = self.reg(parts[1])
            k = int(parts[2], 0) if len(parts) > 2 else 1
            v = add(64, v, bop("mul", 64, st.r[r[0]], k))
        return v

    def named(self, s):
        out = []
        for ch in s:
            if 0xE000 <= ord(ch) < 0xF000:
                out.append(self.c.syms[ord(ch) - 0xE000])
            else:
                out.append(ch)
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        from absint import norm_parts
        return norm_parts(out)

    def load(self, st, a, n):
        b, o = addr_split(a)
        out = []
        for i in range(n):
            v = st.mem.get((b, o + i))
            if v is None:
                v = S("m", b, o + i)
            out.append(v)
        return cat(out)

    def store(self, st, a, v, n):
        b, o = addr_split(a)
        if b is not SP0 and b is not BP0:
            # an unknown pointer may alias other unknown pointers, never the frame's temporaries
            for k in [k for k in st.mem if k[0] is not b and k[0] is not SP0 and k[0] is not BP0]:
                if k[0] is not None and not (k[0].op == "sym" or b is None or b.op == "sym"):
                    st.mem[k] = S("alias", k[0], k[1], len(st.mem))
        for i in range(n):
            st.mem[(b, o + i)] = byte(v, i)

    def get(self, st, o, w):
        if o.startswith("$"):
            v = self.imm(o[1:])
            return v & ((1 << w) - 1) if isinstance(v, int) else v
        if o.startswith("%"):
            r = self.reg(o)
            if r is None:
                raise AsmError("unknown register %s" % o)
            v = st.r[r[0]]
            if r[2]:
                return byte(v, 1)
            if w != r[1]:
                raise AsmError("operand size mismatch on %s" % o)
            return lo(v, w)
        return self.load(st, self.ea(st, o), w // 8)

    def put(self, st, o, v, w):
        if o.startswith("%"):
            r = self.reg(o)
            if r is None:
                raise AsmError("unknown register %s" % o)
            if r[1] != w:
                raise AsmError("operand size mismatch on %s" % o)
            if w >= 32:
                st.r[r[0]] = v
            elif r[2]:
                st.r[r[0]] = S("insh", st.r[r[0]], v)
            else:
                old = st.r[r[0]]
                v = lo(v, w)
                if isinstance(old, int) and isinstance(v, int):
                    st.r[r[0]] = (old & ~((1 << w) - 1)) | v
                else:
                    bs = [byte(old, i) for i in range(8)]
                    if all(isinstance(b, int) or b.op != "byte" or b.a[1] is not old for b in bs[w // 8:]):
                        st.r[r[0]] = cat8([byte(v, i) for i in range(w // 8)] + bs[w // 8:])
                    else:
                        st.r[r[0]] = S("ins", w, old, v)
            return
        if o.startswith("$"):
            raise AsmError("store to an immediate")
        self.store(st, self.ea(st, o), v, w // 8)

    def width(self, ins, ops):
        for o in ops:
            if o.startswith("%") and not o.startswith("%xmm") and not o.startswith("%st"):
                r = self.reg(o)
                if r is None:
                    raise AsmError("unknown register %s in `%s`" % (o, ins.text))
                return r[1]
        return None

    def mnem(self, ins, base, ops=None):
        """-> width if the mnemonic is base or base+suffix"""
        m = ins.m
        if m == base:
            w = self.width(ins, ins.ops if ops is None else ops)
            return w or 64
        if m[:-1] == base and m[-1] in SUFFIX:
            w = SUFFIX[m[-1]]
            for o in (ins.ops if ops is None else ops):
                if o.startswith("%") and self.reg(o) and self.reg(o)[1] != w:
                    raise AsmError("operand size mismatch in `%s`" % ins.text)
            return w
        return None

    # --- children
    def default_child(self, st, it):
        raise AnalysisBroken("no child model")

    def clobber(self, st, keep=("rsp", "rbp")):
        st.undef += 1
        for g in GPR:
            if g not in keep:
                st.r[g] = S("junk", g, st.undef)
        for i in range(16):
            st.x[i] = S("junk", "xmm%d" % i, st.undef)
        st.flags = None
        b, o = addr_split(st.r["rsp"])
        for k in [k for k in st.mem if k[0] is b and k[1] < o]:
            del st.mem[k]

    def spoff(self, st):
        b, o = addr_split(st.r["rsp"])
        return o if b is SP0 else (b, o)

    # --- run
    def run(self, st=None, start=0):
        st = st or fresh_state()
        st.pc = start
        work, done = [st], []
        while work:
            s = work.pop()
            while s.end is None:
                if s.pc >= len(self.c.prog):
                    s.end = ("fall",)
                    break
                it = self.c.prog[s.pc]
                if isinstance(it, tuple):
                    s.pc += 1
                    r = self.child(s, it)
                    if r is not None:
                        s.end = r
                    continue
                nxt = self.step(s, it)
                if nxt is not None:
                    other, lab = nxt
                    work.append(other)
            done.append(s)
            if len(done) + len(work) > self.max_paths:
                raise AnalysisBroken("more than %d partitions in the emitted code" % self.max_paths)
        return done

    def jump(self, st, name, at):
        t = self.c.target(name, at)
        if t is None:
            st.end = ("jump", name)
            return
        if t <= at:
            st.visits[t] = st.visits.get(t, 0) + 1
            if st.visits[t] > self.max_visits:
                st.end = ("bound",)
                return
        st.pc = t

    def step(self, st, i):
        at = st.pc
        st.pc += 1
        m, ops = i.m, i.ops
        g, p = (lambda o, w: self.get(st, o, w)), (lambda o, v, w: self.put(st, o, v, w))
        if m == "jmp":
            if ops[0].startswith("*"):
                st.end = ("ijump", self.get(st, ops[0][1:], 64))
            else:
                self.jump(st, self.nm(ops[0]), at)
            return
        if m in JCC:
            cc = JCC[m]
            if st.flags is None:
                raise AsmError("`%s` without defined flags" % i.text)
            t = S("cc", cc, *st.flags)
            d = None
            try:
                d = bool(ev(t, self.env))
            except NoValue:
                for c0, b0 in st.conds:
                    if c0 is t:
                        d = b0
            if d is not None:
                if d: self.jump(st, self.nm(ops[0]), at)
                return
            o = st.copy()
            st.conds.append((t, True))
            o.conds.append((t, False))
            st.trace.append(("branch", t, True))
            o.trace.append(("branch", t, False))
            self.jump(st, self.nm(ops[0]), at)
            return o, None
        if m in SETCC:
            if st.flags is None:
                raise AsmError("`%s` without defined flags" % i.text)
            t = S("cc", SETCC[m], *st.flags)
            try:
                t = ev(t, {})
            except NoValue:
                pass
            p(ops[0], t, 8)
            return
        if m in ("mov", "movb", "movw", "movl", "movabs", "movabsq") or (m == "movq" and not any("xmm" in o for o in ops)):
            w = 64 if m.startswith("movabs") else self.mnem(i, "mov")
            src = ops[0]
            if src.startswith("$") and w == 64 and not (ops[1].startswith("%")):
                v = self.imm(src[1:])
                if isinstance(v, int) and not (v < 1 << 31 or v >= (1 << 64) - (1 << 31)):
                    raise AsmError("64-bit immediate stored to memory in `%s`" % i.text)
            if src.startswith("$") and w == 64 and m == "movq" and ops[1].startswith("%"):
                pass
            v = g(src, w)
            p(ops[1], v, w)
            return
        mm = re.match(r"^mov([sz])([bwl])?([wlq])?$", m) or (re.match(r"^mov([sz])(x)$", m))
        if m in ("movsxd", "movslq", "movsx", "movzx") or (mm and not any("xmm" in o for o in ops) and m not in ("movsd", "movss")):
            signed = m[3] == "s"
            if m in ("movsxd", "movslq"):
                fw, tw = 32, 64
                if ops[0].startswith("%") and self.reg(ops[0])[1] != 32: raise AsmError("bad operand in `%s`" % i.text)
                tw = self.reg(ops[1])[1]
            else:
                tw = self.reg(ops[1])[1]
                if m in ("movsx", "movzx"):
                    if not ops[0].startswith("%"):
                        raise AsmError("ambiguous operand size in `%s`" % i.text)
                    fw = self.reg(ops[0])[1]
                else:
                    c2 = mm.group(2)
                    if c2 is None:
                        raise AsmError("unknown instruction `%s`" % i.text)
                    fw = SUFFIX[c2]
                    if mm.group(3) and SUFFIX[mm.group(3)] != tw:
                        raise AsmError("operand size mismatch in `%s`" % i.text)
                    if ops[0].startswith("%") and self.reg(ops[0])[1] != fw:
                        raise AsmError("operand size mismatch in `%s`" % i.text)
            v = g(ops[0], fw)
            p(ops[1], sx(v, fw, tw) if signed else v, tw)
            return
        w = self.mnem(i, "lea")
        if w:
            p(ops[1], lo(self.ea(st, ops[0]), w), w)
            return
        if m in ("push", "pushq"):
            v = g(ops[0], 64)
            st.r["rsp"] = sub(64, st.r["rsp"], 8)
            self.store(st, st.r["rsp"], v, 8)
            return
        if m in ("pop", "popq"):
            v = self.load(st, st.r["rsp"], 8)
            st.r["rsp"] = add(64, st.r["rsp"], 8)
            p(ops[0], v, 64)
            return
        for base in ("add", "sub", "and", "or", "xor", "imul", "cmp", "test"):
            w = self.mnem(i, base)
            if not w or len(ops) < 2:
                continue
            if base == "imul" and len(ops) == 3:
                v = bop("mul", w, g(ops[1], w), g(ops[0], w))
                p(ops[2], v, w)
                st.flags = None
                return
            b, a = g(ops[0], w), g(ops[1], w)
            if base == "cmp":
                st.flags = ("cmp", w, a, b)
                return
            if base == "test":
                st.flags = ("res", w, bop("and", w, a, b))
                return
            if base == "add":
                v = add(w, a, b)
                st.flags = ("res", w, v)
            elif base == "sub":
                v = sub(w, a, b)
                st.flags = ("cmp", w, a, b)
            else:
                v = bop("mul" if base == "imul" else base, w, a, b)
                st.flags = ("res", w, v) if base != "imul" else None
            p(ops[1], v, w)
            return
        for base in ("neg", "not", "inc", "dec"):
            w = self.mnem(i, base)
            if w:
                a = g(ops[0], w)
                if base == "inc": v = add(w, a, 1)
                elif base == "dec": v = sub(w, a, 1)
                else: v = S(base, w, a) if not isinstance(a, int) else ((-a if base == "neg" else ~a) & ((1 << w) - 1))
                p(ops[0], v, w)
                if base != "not":
                    st.flags = ("res", w, v)
                return
        for base in ("shl", "sal", "shr", "sar"):
            w = self.mnem(i, base, ops[-1:])
            if w:
                n = 1 if len(ops) == 1 else g(ops[0], 8)
                a = g(ops[-1], w)
                op = "shl" if base == "sal" else base
                if op == "sar":
                    v = S("sar", w, a, n)
                else:
                    v = bop(op, w, a, n) if isinstance(n, int) else S(op, w, a, n)
                p(ops[-1], v, w)
                st.flags = None
                return
        if m in ("cqo", "cqto"):
            st.r["rdx"] = S("sar", 64, st.r["rax"], 63)
            return
        if m in ("cdq", "cltd"):
            st.r["rdx"] = S("sar", 32, lo(st.r["rax"], 32), 31)
            return
        if m in ("cltq", "cdqe"):
            st.r["rax"] = sx(st.r["rax"], 32, 64)
            return
        for base in ("div", "idiv"):
            w = self.mnem(i, base)
            if w:
                d = g(ops[0], w)
                hi, l = lo(st.r["rdx"], w), lo(st.r["rax"], w)
                k = "u" if base == "div" else "s"
                st.r["rax"], st.r["rdx"] = S(k + "div", w, hi, l, d), S(k + "mod", w, hi, l, d)
                st.flags = None
                return
        if m in ("call", "callq"):
            self.call(st, i)
            return
        if m in ("ret", "retq"):
            st.end = ("ret", self.load(st, st.r["rsp"], 8))
            st.r["rsp"] = add(64, st.r["rsp"], 8)
            return
        if m == "leave":
            st.r["rsp"] = st.r["rbp"]
            v = self.load(st, st.r["rsp"], 8)
            st.r["rsp"] = add(64, st.r["rsp"], 8)
            st.r["rbp"] = v
            return
        if m in ("cld",):
            st.df = 0
            return
        if m in ("nop", "endbr64"):
            return
        if m in ("rep stosb", "rep stosq", "rep stosl"):
            n = st.r["rcx"]
            k = {"b": 1, "q": 8, "l": 4}[m[-1]]
            if not isinstance(n, int) or n > 65536:
                st.trace.append(("fill", st.r["rdi"], n, k, st.r["rax"]))
            else:
                for j in range(n):
                    self.store(st, add(64, st.r["rdi"], j * k), lo(st.r["rax"], 8 * k), k)
                st.trace.append(("fill", st.r["rdi"], n, k, lo(st.r["rax"], 8 * k)))
            st.r["rdi"] = add(64, st.r["rdi"], bop("mul", 64, n, k))
            st.r["rcx"] = 0
            return
        if m in ("repne scasb", "repnz scasb"):
            # rcx counts down once per byte up to and including the match
            st.r["rcx"] = sub(64, st.r["rcx"], add(64, S("strlen", st.r["rdi"]), 1)) if lo(st.r["rax"], 8) == 0 else S("junk", "scas", st.undef)
            st.r["rdi"] = S("junk", "rdi", st.undef)
            st.flags = None
            return
        if m == "syscall":
            st.trace.append(("syscall", dict(st.r)))
            n = len(st.trace)
            st.r["rax"] = S("sysret", n)
            st.r["rcx"], st.r["r11"] = S("junk", "rcx", n), S("junk", "r11", n)
            return
        if self.step_sse(st, i) or self.step_x87(st, i):
            return
        raise AsmError("unknown instruction `%s`" % i.text)

    def nm(self, o):
        n = self.named(o)
        return n if isinstance(n, str) else str(n)

    def call(self, st, i):
        o = i.ops[0]
        t = self.get(st, o[1:], 64) if o.startswith("*") else S("sym", self.named(o))
        n = len(st.trace)
        st.trace.append(("call", t, dict(st.r), dict(st.x), dict(st.mem), self.spoff(st)))
        self.clobber(st, ("rsp", "rbp", "rbx", "r12", "r13", "r14", "r15"))
        st.r["rax"], st.r["rdx"] = S("cret", "rax", n), S("cret", "rdx", n)
        st.x[0], st.x[1] = S("cret", "xmm0", n), S("cret", "xmm1", n)
        if self.on_call:
            self.on_call(st, t)

    # --- SSE
    def xr(self, o):
        m = re.match(r"^%xmm(\d+)$", o)
        if not m or int(m.group(1)) > 15:
            return None
        return int(m.group(1))

    def xget(self, st, o, w):
        x = self.xr(o)
        if x is not None:
            return lo(st.x[x], w)
        if o.startswith("%") or o.startswith("$"):
            raise AsmError("bad SSE operand %s" % o)
        return self.load(st, self.ea(st, o), w // 8)

    def xput(self, st, o, v, w):
        x = self.xr(o)
        if x is None:
            raise AsmError("bad SSE destination %s" % o)
        old = st.x[x]
        if w == 64:
            st.x[x] = v
        else:
            st.x[x] = S("ins", 32, old, v)

    def step_sse(self, st, i):
        m, ops = i.m, i.ops
        if m in ("movss", "movsd") and len(ops) == 2:
            w = 32 if m == "movss" else 64
            if self.xr(ops[1]) is not None:
                v = self.xget(st, ops[0], w)
                if self.xr(ops[0]) is None:
                    st.x[self.xr(ops[1])] = v
                else:
                    self.xput(st, ops[1], v, w)
            else:
                self.store(st, self.ea(st, ops[1]), self.xget(st, ops[0], w), w // 8)
            return True
        if m in ("movq", "movd") and any(self.xr(o) is not None for o in ops):
            w = 64 if m == "movq" else 32
            s, d = ops
            v = self.xget(st, s, w) if self.xr(s) is not None else self.get(st, s, self.reg(s)[1] if s.startswith("%") else w)
            if self.xr(d) is not None:
                st.x[self.xr(d)] = v
            else:
                self.put(st, d, lo(v, w), w)
            return True
        if m in ("movaps", "movapd", "movdqa", "movups", "movupd") and all(self.xr(o) is not None for o in ops):
            st.x[self.xr(ops[1])] = st.x[self.xr(ops[0])]
            return True
        mm = re.match(r"^(add|sub|mul|div)(ss|sd)$", m)
        if mm:
            w = 32 if mm.group(2) == "ss" else 64
            b, a = self.xget(st, ops[0], w), self.xget(st, ops[1], w)
            self.xput(st, ops[1], S("fop", w, mm.group(1), a, b), w)
            return True
        mm = re.match(r"^(u?comi)(ss|sd)$", m)
        if mm:
            w = 32 if mm.group(2) == "ss" else 64
            b, a = self.xget(st, ops[0], w), self.xget(st, ops[1], w)
            st.flags = ("fcmp", w, a, b)
            return True
        if m in ("xorps", "xorpd", "pxor"):
            a, b = self.xr(ops[0]), self.xr(ops[1])
            st.x[b] = 0 if a == b else bop("xor", 64, st.x[b], st.x[a])
            return True
        mm = re.match(r"^cvt(t)?s([sid])2s([sid])([lq])?$", m)
        if mm:
            t, f, d, suf = mm.groups()
            if f == "i":
                iw = SUFFIX[suf] if suf else (self.reg(ops[0])[1] if ops[0].startswith("%") else 32)
                v = self.get(st, ops[0], iw)
                fw = 32 if d == "s" else 64
                self.xput(st, ops[1], S("i2f", iw, fw, v), fw)
            elif d == "i":
                fw = 32 if f == "s" else 64
                iw = self.reg(ops[1])[1]
                if suf and SUFFIX[suf] != iw:
                    raise AsmError("operand size mismatch in `%s`" % i.text)
                v = self.xget(st, ops[0], fw)
                self.put(st, ops[1], S("f2i" if t else "f2i_round", iw, fw, v), iw)
            else:
                fw, tw = (32 if f == "s" else 64), (32 if d == "s" else 64)
                self.xput(st, ops[1], S("f2f", fw, tw, self.xget(st, ops[0], fw)), tw)
            return True
        return False

    # --- x87 (AT&T mnemonics)
    def step_x87(self, st, i):
        m, ops = i.m, i.ops
        fp = st.fp
        if not m.startswith("f"):
            return False

        def need(n):
            if len(fp) < n:
                raise AsmError("`%s` with %d values on the x87 stack" % (i.text, len(fp)))
        if m in ("fildl", "fildll", "fildq", "fild", "filds"):
            w = {"fildl": 32, "fildll": 64, "fildq": 64, "fild": 16, "filds": 16}[m]
            fp.append(S("x_i", w, self.load(st, self.ea(st, ops[0]), w // 8)))
            return True
        if m in ("flds", "fldl", "fldt"):
            a = self.ea(st, ops[0])
            if m == "fldt":
                v = self.load(st, a, 10)
                if isinstance(v, Sym) and v.op == "lo" and isinstance(v.a[1], Sym) and v.a[1].op == "x80":
                    v = v.a[1]
                if isinstance(v, Sym) and v.op == "x80":
                    fp.append(v.a[0])
                else:
                    fp.append(S("ld80", v))
            else:
                w = 32 if m == "flds" else 64
                fp.append(S("x_f", w, self.load(st, a, w // 8)))
            return True
        if m == "fldz": fp.append(S("x_i", 32, 0)); return True
        if m == "fld1": fp.append(S("x_i", 32, 1)); return True
        if m == "fchs":
            need(1)
            fp[-1] = S("x_neg", fp[-1])
            return True
        if m in ("fstps", "fstpl", "fstpt", "fsts", "fstl"):
            need(1)
            v = fp[-1]
            if "p" in m[3:4]:
                fp.pop()
            a = self.ea(st, ops[0])
            if m.endswith("t"):
                b, o = addr_split(a)
                for k in range(10):
                    st.mem[(b, o + k)] = S("byte", k, S("x80", v))
            else:
                w = 32 if m.endswith("s") else 64
                self.store(st, a, S("x_stf", w, v), w // 8)
            return True
        if m == "fstp":
            need(1)
            if ops != ["%st(0)"]:
                if not ops or not ops[0].startswith("%st("):
                    raise AsmError("bad operand in `%s`" % i.text)
                k = int(ops[0][4:-1])
                need(k + 1)
                fp[-1 - k] = fp[-1]
            fp.pop()
            return True
        if m in ("fistps", "fistpl", "fistpq", "fistpll", "fistp", "fisttps", "fisttpl", "fisttpq", "fisttpll"):
            need(1)
            w = {"s": 16, "l": 32, "q": 64, "p": 16}[m[-1]] if not m.endswith("ll") else 64
            v = fp.pop()
            mode = "trunc" if m.startswith("fistt") else st.cw
            self.store(st, self.ea(st, ops[0]), S("x_sti", w, mode, v), w // 8)
            return True
        if m in ("fnstcw", "fstcw"):
            self.store(st, self.ea(st, ops[0]), S("cw", st.cw), 2)
            return True
        if m == "fldcw":
            v = self.load(st, self.ea(st, ops[0]), 2)
            # `or $12, %ah` selects truncation
            s = show(v)
            if isinstance(v, Sym) and v.op == "cw":
                st.cw = v.a[0]
            else:
                env = {S("cw", "near"): 0x037f, S("cw", "trunc"): 0x0f7f}
                try:
                    n = ev(v, env)
                except NoValue:
                    raise AsmError("`fldcw` of an undefined control word")
                st.cw = {0: "near", 1: "down", 2: "up", 3: "trunc"}[(n >> 10) & 3]
            return True
        if m in ("faddp", "fmulp", "fsubp", "fsubrp", "fdivp", "fdivrp") and not ops:
            need(2)
            b, a = fp.pop(), fp.pop()      # b = st0, a = st1
            # AT&T spelling: fsubrp is st1 = st1 - st0, fsubp is st1 = st0 - st1 (as historically assembled)
            r = {"faddp": ("+", a, b), "fmulp": ("*", a, b), "fsubrp": ("-", a, b), "fsubp": ("-", b, a), "fdivrp": ("/", a, b), "fdivp": ("/", b, a)}[m]
            fp.append(S("x_op", *r))
            return True
        if m in ("fcomip", "fucomip", "fcomi", "fucomi"):
            need(2)
            st.flags = ("fcmp", 80, fp[-1], fp[-2])
            if m.endswith("p"):
                fp.pop()
            return True
        if m in ("fadds", "faddl", "fsubs", "fsubl", "fmuls", "fmull", "fsubrs", "fsubrl", "fdivs", "fdivl", "fdivrs", "fdivrl"):
            need(1)
            w = 32 if m.endswith("s") else 64
            y = S("x_f", w, self.load(st, self.ea(st, ops[0]), w // 8))
            o = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[m[1:4]]
            fp[-1] = S("x_op", o, y, fp[-1]) if m[4] == "r" else S("x_op", o, fp[-1], y)
            return True
        return False

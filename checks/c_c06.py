"""C06: assembly back end, conversions between scalar types."""
import math
from gen import *
from fw import where
from c_c05 import r32

SC = ["TY_I8", "TY_I16", "TY_I32", "TY_I64", "TY_U8", "TY_U16", "TY_U32", "TY_U64", "TY_CHAR", "TY_ENUM", "TY_BOOL", "TY_PTR", "TY_F32", "TY_F64", "TY_F80"]
IT = dict(INT)
IT["TY_PTR"] = (64, False)
FV = [0.0, -0.0, 0.25, -0.75, 1.0, -1.0, 1.5, 2.5, -2.5, 0.999, 100.9, -100.9, 127.5, -128.5, 200.7, 255.9, 32767.25, -32768.5, 40000.75, 65535.5, 123456.75,
      2147483647.5, -2147483648.5, 2147483648.0, 3000000000.5, 4294967295.5, 1e15 + 0.5, -1e15 - 0.5, 9.2e18, -9.2e18, 9223372036854775808.0, 1.5e19,
      16777217.0, 0.1, 1e-30, -1e30]


def build_ty(k):
    return ptr(T("TY_I32")) if k == "TY_PTR" else T(k)


def in_images(v, k):
    bits, signed = IT[k]
    if k == "TY_BOOL":
        return [v]
    if bits == 64:
        return [v & asm.M64]
    if k in ("TY_CHAR",):
        return [v & 0xffffffff, v & asm.M64]
    return images(v, bits)


def body(c, p):
    c.rule("The code emitted for a conversion between every ordered pair of scalar types (and aliases of them) is interpreted with an opaque source value: "
           "the resulting term must be the converted value for every boundary value of the source (integers wrap to the target width with its sign, "
           "float to integer truncates when the value fits, integer to float and float to float round to nearest, anything to bool tests for non-zero).")
    c.require(400)
    err = Errors(p)
    f = p.fn("asm_gen_expr")
    wh = where(p.fn("asm_cast"))
    for a in SC:
        for b in SC:
            if a in FLT and b == "TY_PTR" or a == "TY_PTR" and b in FLT:
                continue
            for al in range(3):
                ta, tb = build_ty(a), build_ty(b)
                if al == 1: ta = alias(ta)
                if al == 2: tb = alias(tb)

                def build(w):
                    cg = w.cg()
                    return [(f, [cg, w.node("ND_CAST", left=w.kid("L", ta), data_type=tb)])]
                bad = one(c, p, err, build, ta, tb, a, b)
                c.ob("%s%s->%s%s" % ("alias-" if al == 1 else "", a, "alias-" if al == 2 else "", b), bad is None, bad or "converts", wh)


def one(c, p, err, build, ta, tb, a, b):
    L = S("val", "L", 0)
    for em in emit(c, p, err, build):
        if em.errors or em.path.end != "return":
            return "not emitted (%s)" % (em.errors or em.path.end)
        try:
            states = Machine(em.code, Kids({"L": ta})).run()
        except AsmError as e:
            return "%s in: %s" % (e, em.text())
        for s in states:
            if s.end != ("fall",) or M.spoff(s) != 0:
                return "leaves through %s with stack offset %s: %s" % (s.end, M.spoff(s), em.text())
            if s.occ != {("val", "L"): 1}:
                return "operand is evaluated %s: %s" % (s.occ, em.text())
            if len(s.fp) != (1 if b == "TY_F80" else 0):
                return "leaves %d values on the x87 stack: %s" % (len(s.fp), em.text())
        if a in FLT:
            vals = [r32(v) if a == "TY_F32" else v for v in FV if not (a == "TY_F80" and v == 0 and math.copysign(1, v) < 0)]
            if b in ("TY_F32", "TY_F64") and a != "TY_F80":
                vals = vals + [math.inf, -math.inf, math.nan]
        else:
            bits, signed = IT[a]
            vals = [0, 1] if a == "TY_BOOL" else int_samples(bits, signed)
        for v in vals:
            if a in FLT:
                raws = [asm.exact(v)] if a == "TY_F80" else [asm.f_to(v, FLT[a]) | (0x7f00 << 32 if a == "TY_F32" else 0)]
            else:
                raws = in_images(v, a)
            for raw in raws:
                env = {L: raw}
                if b in IT and b != "TY_BOOL":
                    bits, signed = IT[b]
                    if a in FLT:
                        want = math.trunc(v)
                        if b in ("TY_CHAR",): signed = True
                        if not (-(1 << (bits - 1)) if signed else 0) <= want <= (1 << (bits - (1 if signed else 0))) - 1:
                            continue
                    else:
                        want = wrapv(v, bits, signed)
                try:
                    sel = select(states, env)
                    if len(sel) != 1:
                        return "no unique result for %r: %s" % (v, em.text())
                    s = sel[0]
                    if b == "TY_BOOL":
                        ok = ev(s.r["rax"], env) == int(v != 0)
                    elif b in IT:
                        got = ev(s.r["rax"], env)
                        m = asm.M64 if bits == 64 else 0xffffffff
                        ok = got & m == want & m
                    elif b == "TY_F80":
                        ok = ev(s.fp[-1], env) == asm.exact(v)
                    else:
                        w = FLT[b]
                        got = ev(lo(s.x[0], w), env)
                        if a in IT:
                            want = asm.f_to(asm.i_to_f(v, w), w)
                        else:
                            want = asm.f_to(v, w)
                        ok = got & ((1 << w) - 1) == want or v != v and asm.f_of(got, w) != asm.f_of(got, w)
                except NoValue as e:
                    return "the result for %r is undefined (%s): %s" % (v, e, em.text())
                if not ok:
                    return "wrong result for the value %r; code: %s" % (v, em.text())
    return None

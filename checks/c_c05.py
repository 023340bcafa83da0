"""C05: assembly back end, floating point operators."""
import math, operator
from gen import *
from fw import where

AR = {"ND_ADD": "+", "ND_SUB": "-", "ND_MUL": "*", "ND_DIV": "/"}
CMP = {"ND_EQ": operator.eq, "ND_NE": operator.ne, "ND_LT": operator.lt, "ND_LE": operator.le, "ND_GT": operator.gt, "ND_GE": operator.ge}
NUM = [0.0, -0.0, 1.0, -1.0, 1.5, -2.25, 3.0, 0.1, -7.0, 1e10, -1e-10, 6.5e37, -6.5e37, 2.0 ** -149, 16777217.0]
SPEC = [math.inf, -math.inf, math.nan]


def r32(x):
    return asm.f_of(asm.f_to(x, 32), 32)


def arith(op, a, b):
    try:
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: asm.fdiv(a, b)}[op]()
    except OverflowError:
        return math.inf


def same(raw, want, w):
    got = asm.f_of(raw, w)
    if want != want:
        return got != got
    return raw & ((1 << w) - 1) == asm.f_to(want, w)


def body(c, p):
    c.rule("The code emitted for every floating point operator is interpreted with opaque operands; the term in %xmm0, on the x87 stack or in %rax must "
           "denote the IEEE operation of the operand type on the operands in source order, for ordinary, signed zero, infinite and NaN operands; each "
           "operand is evaluated once and the run-time and x87 stacks are balanced.")
    c.require(60)
    err = Errors(p)
    f = p.fn("asm_gen_expr")
    wh = where(f)
    BOOL = T("TY_BOOL")
    for tn in ("TY_F32", "TY_F64", "TY_F80"):
        for al in (False, True):
            ty = alias(T(tn)) if al else T(tn)
            for op in list(AR) + list(CMP) + ["ND_NEG", "ND_NOT", "ND_AND", "ND_OR"]:
                un = op in ("ND_NEG", "ND_NOT")

                def build(w):
                    cg = w.cg()
                    L, R = w.kid("L", ty), w.kid("R", ty)
                    dt = ty if op in AR or op == "ND_NEG" else BOOL
                    return [(f, [cg, w.node(op, right=R, data_type=dt) if un else w.node(op, left=L, right=R, data_type=dt)])]
                bad = one(c, p, err, build, ty, tn, op, un)
                c.ob("%s:%s%s" % (op, "alias-" if al else "", tn), bad is None, bad or "IEEE operation on every sampled class", wh)


def one(c, p, err, build, ty, tn, op, un):
    w = FLT[tn]
    short = op in ("ND_AND", "ND_OR")
    for em in emit(c, p, err, build):
        if em.errors or em.path.end != "return":
            return "the operator is not emitted (%s)" % (em.errors or em.path.end)
        try:
            states = Machine(em.code, Kids({"L": ty, "R": ty})).run()
        except AsmError as e:
            return "%s in: %s" % (e, em.text())
        res_x87 = tn == "TY_F80" and (op in AR or op == "ND_NEG")
        for s in states:
            if s.end != ("fall",) or M.spoff(s) != 0:
                return "leaves through %s with stack offset %s: %s" % (s.end, M.spoff(s), em.text())
            if len(s.fp) != (1 if res_x87 else 0):
                return "leaves %d values on the x87 stack: %s" % (len(s.fp), em.text())
            want = {("val", "R"): 1} if un else {("val", "L"): 1, ("val", "R"): 1}
            if short and s.occ == {("val", "L"): 1}:
                continue
            if s.occ != want:
                return "operands are evaluated %s: %s" % (s.occ, em.text())
        L, R = S("val", "L", 0), S("val", "R", 0)
        vals = NUM + SPEC
        for a in vals:
            for b in (vals if not un else [0.0]):
                if w == 32:
                    a, b = r32(a), r32(b)
                if tn == "TY_F80":
                    if op in AR and (math.isinf(a) or math.isinf(b) or a != a or b != b):
                        continue
                    if op == "ND_DIV" and b == 0:
                        continue
                    env = {L: asm.exact(a), R: asm.exact(b)}
                    if un: env = {R: asm.exact(a)}
                else:
                    env = {L: asm.f_to(a, w), R: asm.f_to(b, w)}
                    if un: env = {R: asm.f_to(a, w)}
                    env = {k: v | (g << 32 if w == 32 else 0) for k, v in env.items() for g in (0x3ff5,)}
                if (short or op == "ND_NOT") and (a != a or b != b):
                    continue        # the truth value of a NaN is not part of the property
                try:
                    sel = select(states, env)
                    if len(sel) != 1:
                        return "no unique result for (%r, %r): %s" % (a, b, em.text())
                    s = sel[0]
                    if short:
                        ok = ev(s.r["rax"], env) == int((a != 0 and b != 0) if op == "ND_AND" else (a != 0 or b != 0))
                        ok = ok and (len(s.occ) == 2) == ((a != 0) if op == "ND_AND" else (a == 0))
                    elif op == "ND_NOT":
                        ok = ev(s.r["rax"], env) == int(a == 0)
                    elif op in CMP:
                        ok = ev(s.r["rax"], env) == int(CMP[op](a, b))
                    elif op == "ND_NEG":
                        ok = ev(s.fp[-1], env) == -asm.exact(a) if res_x87 and a == a else res_x87 or same(ev(s.x[0], env), -a, w)
                    elif res_x87:
                        ok = ev(s.fp[-1], env) == {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}[AR[op]](
                            asm.exact(a), asm.exact(b))
                    else:
                        ok = same(ev(s.x[0], env), arith(AR[op], a, b) if w == 64 else r32(arith(AR[op], a, b)), w)
                except NoValue as e:
                    return "the result for (%r, %r) is undefined (%s): %s" % (a, b, e, em.text())
                if not ok:
                    return "wrong result for operands (%r, %r); code: %s" % (a, b, em.text())
    return None

"""C04: assembly back end, integer operators."""
from gen import *
from fw import where

W = {k: v for k, v in INT.items() if k not in ("TY_BOOL",)}
ARITH = {"ND_ADD": lambda a, b: a + b, "ND_SUB": lambda a, b: a - b, "ND_MUL": lambda a, b: a * b, "ND_BIT_AND": lambda a, b: a & b,
         "ND_BIT_OR": lambda a, b: a | b, "ND_XOR": lambda a, b: a ^ b}
DIV = ("ND_DIV", "ND_MOD")
CMP = {"ND_EQ": lambda a, b: a == b, "ND_NE": lambda a, b: a != b, "ND_LT": lambda a, b: a < b, "ND_LE": lambda a, b: a <= b,
       "ND_GT": lambda a, b: a > b, "ND_GE": lambda a, b: a >= b}
SHIFT = ("ND_LSHIFT", "ND_RSHIFT")
UNARY = {"ND_NEG": lambda a: -a, "ND_BIT_NEG": lambda a: ~a}


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def expect(op, a, b, bits, signed):
    if op in ARITH: return ARITH[op](a, b)
    if op == "ND_DIV": return tdiv(a, b)
    if op == "ND_MOD": return a - tdiv(a, b) * b
    if op == "ND_LSHIFT": return a << b
    if op == "ND_RSHIFT": return a >> b
    return int(CMP[op](a, b))


def check_result(raw, want, bits, signed):
    """None if the register image represents `want` in the type (wrapping when it does not fit)"""
    w = wrapv(want, bits, signed)
    if bits >= 64:
        return raw == want & asm.M64
    if w == want or bits == 32:
        return raw & 0xffffffff == w & 0xffffffff
    return raw & ((1 << bits) - 1) == w & ((1 << bits) - 1)


def body(c, p):
    c.rule("The code emitted for every integer operator is interpreted over value-numbering terms with both operands opaque; the term left in the "
           "result register must denote the operator on the operand type (width, signedness, operand order) at every boundary value, whatever "
           "the unspecified register bits hold, and the run-time stack must be balanced.")
    c.require(200)
    err = Errors(p)
    f = p.fn("asm_gen_expr")
    wh = where(f)
    BOOL = T("TY_BOOL")
    for tn in sorted(W):
        bits, signed = W[tn]
        for al in (False, True):
            ty = T(tn)
            if al:
                ty = alias(ty)
            sm = int_samples(bits, signed)
            for op in list(ARITH) + list(DIV) + list(CMP) + list(SHIFT) + list(UNARY):
                if tn in ("TY_ENUM", "TY_CHAR") and op in ("ND_LSHIFT", "ND_RSHIFT", "ND_BIT_AND", "ND_BIT_OR", "ND_XOR", "ND_BIT_NEG", "ND_NEG", "ND_MUL", "ND_DIV", "ND_MOD"):
                    continue
                key = "%s:%s%s" % (op, "alias-" if al else "", tn)

                def build(w):
                    cg = w.cg()
                    L, R = w.kid("L", ty), w.kid("R", ty)
                    n = w.node(op, right=R, data_type=BOOL if op in CMP else ty) if op in UNARY else \
                        w.node(op, left=L, right=R, data_type=BOOL if op in CMP else ty)
                    return [(f, [cg, n])]
                bad = one(c, p, err, build, ty, op, bits, signed, sm)
                c.ob(key, bad is None, bad or "equals the operator at all boundary values", wh)


def one(c, p, err, build, ty, op, bits, signed, sm):
    ems = emit(c, p, err, build)
    for em in ems:
        if em.errors or em.path.end != "return":
            return "the operator is not emitted (%s)" % (em.errors or em.path.end)
        try:
            states = Machine(em.code, Kids({"L": ty, "R": ty})).run()
        except AsmError as e:
            return "%s in: %s" % (e, em.text())
        for s in states:
            if s.end != ("fall",):
                return "leaves the expression through %s in: %s" % (s.end, em.text())
            if M.spoff(s) != 0:
                return "stack pointer off by %s after: %s" % (M.spoff(s), em.text())
            occ = {k: v for k, v in s.occ.items()}
            if occ != ({("val", "R"): 1} if op in UNARY else {("val", "L"): 1, ("val", "R"): 1}):
                return "operands are evaluated %s in: %s" % (occ, em.text())
        L, R = S("val", "L", 0), S("val", "R", 0)
        for a in sm:
            for b in (sm if op not in UNARY else sm[:1]):
                if op in SHIFT and not 0 <= b < max(bits, 8):
                    continue
                if op in SHIFT and bits < 64 and b >= 32:
                    continue
                if op == "ND_LSHIFT" and (a << b) >> 63 and bits == 64 and False:
                    continue
                if op in DIV and (b == 0 or (signed and b == -1 and a == -(1 << (bits - 1)))):
                    continue
                want = UNARY[op](a) if op in UNARY else expect(op, a, b, bits, signed)
                for ra in images(a, bits):
                    for rb in (images(b, bits) if op not in UNARY else [0]):
                        env = {L: ra, R: rb} if op not in UNARY else {R: ra}
                        try:
                            sel = select(states, env)
                            if len(sel) != 1:
                                return "no unique result for (%d, %d)" % (a, b)
                            raw = ev(sel[0].r["rax"], env)
                        except NoValue as e:
                            return "result for operands (%d, %d) is not defined (%s) in: %s" % (a, b, e, em.text())
                        if op in CMP:
                            ok = raw == want
                        else:
                            ok = check_result(raw, want, bits, signed)
                        if not ok:
                            return "for operands (%d, %d) the result register holds %#x, the operator gives %d; code: %s" % (a, b, raw, want, em.text())
    return None

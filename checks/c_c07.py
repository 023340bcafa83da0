"""C07: assembly back end, reads and writes of variables, fields and pointer targets."""
import math
from gen import *
from asm import SP0, BP0, addr_split
from fw import where

SCAL = ["TY_I8", "TY_I16", "TY_I32", "TY_I64", "TY_U8", "TY_U16", "TY_U32", "TY_U64", "TY_CHAR", "TY_BOOL", "TY_ENUM", "TY_PTR", "TY_F32", "TY_F64", "TY_F80"]


def types():
    out = []
    for k in SCAL:
        out.append((k[3:].lower(), ptr(T("TY_I32")) if k == "TY_PTR" else T(k)))
    i8, i32, i64 = T("TY_I8"), T("TY_I32"), T("TY_I64")
    out += [("struct1", struct(i8)), ("struct3", struct(i8, i8, i8)), ("struct12", struct(i32, i32, i32)), ("struct16", struct(i64, i64)),
            ("struct40", struct(i64, i32, i64, i8, i64)), ("carray6", carr(T("TY_I16"), 3)), ("array12", arr(i32, 3))]
    return out


AGG = ("TY_STRUCT", "TY_C_ARRAY", "TY_ARRAY")
IT = dict(INT)
IT["TY_PTR"] = (64, False)
LV = ("local", "argument", "global", "extern-global", "deref", "field", "field-of-pointer", "nested-field", "cast-deref")


def lvalue(w, form, ty):
    """-> (node, expected address (base, off))"""
    if form in ("local", "argument"):
        o = w.obj(kind="OBJ_LOCAL" if form == "local" else "OBJ_FN_ARG", offset=-48 if form == "local" else 16, data_type=ty)
        return w.node("ND_ID", referenced_obj=o, data_type=ty, id=w.ident("v")), (BP0, -48 if form == "local" else 16)
    if form in ("global", "extern-global"):
        o = w.obj(kind="OBJ_GLOBAL", data_type=ty, is_extern_c=form == "extern-global")
        return w.node("ND_ID", referenced_obj=o, data_type=ty, id=w.ident("gv")), (S("sym", "gv"), 0)
    if form == "deref":
        return w.node("ND_DEREF", right=w.kid("P", ptr(ty), kind="ND_CALL"), data_type=ty), (S("val", "P", 0), 0)
    if form == "cast-deref":
        return w.node("ND_DEREF", right=w.node("ND_CAST", left=w.kid("P", ptr(T("TY_VOID")), kind="ND_CALL"), data_type=ptr(ty)), data_type=ty), (S("val", "P", 0), 0)
    st = struct(T("TY_I64"), T("TY_I32"))
    mem = w.node("ND_STRUCT_MEMBER", offset=40, data_type=ty)
    rid = w.node("ND_ID", id=w.ident("f"), data_type=ty)
    if form == "field":
        o = w.obj(kind="OBJ_LOCAL", offset=-96, data_type=st)
        base = w.node("ND_ID", referenced_obj=o, data_type=st, id=w.ident("s"))
        return w.node("ND_MEMBER", left=base, right=rid, body=mem, data_type=ty), (BP0, -56)
    if form == "field-of-pointer":
        base = w.node("ND_DEREF", right=w.kid("P", ptr(st), kind="ND_CALL"), data_type=st)
        return w.node("ND_MEMBER", left=base, right=rid, body=mem, data_type=ty), (S("val", "P", 0), 40)
    mem0 = w.node("ND_STRUCT_MEMBER", offset=16, data_type=st)
    o = w.obj(kind="OBJ_LOCAL", offset=-96, data_type=st)
    base = w.node("ND_ID", referenced_obj=o, data_type=st, id=w.ident("s"))
    in1 = w.node("ND_MEMBER", left=base, right=rid, body=mem0, data_type=st)
    return w.node("ND_MEMBER", left=in1, right=rid, body=mem, data_type=ty), (BP0, -40)


def body(c, p):
    c.rule("For every type and every form of lvalue (local, argument, global, pointer target, field at an offset, nested field) the code of a read must "
           "leave exactly the bytes at that object's address, extended by the type, and the code of an assignment must change exactly the bytes of the "
           "type at that address to the assigned value and nothing else; addresses are symbolic bases with offsets, memory is modelled byte by byte.")
    c.require(250)
    err = Errors(p)
    f, fa = p.fn("asm_gen_expr"), p.fn("asm_gen_addr")
    extra = {"asm_gen_identifier": lambda I, a, e: Ptr((("s", "gv"),))}
    for name, ty0 in types():
        for al in (False, True):
            ty = alias(ty0) if al else ty0
            for form in LV:
                if al and form not in ("local", "deref", "field"):
                    continue
                hold = {}

                def b_read(w):
                    cg = w.cg()
                    n, hold["a"] = lvalue(w, form, ty)
                    return [(f, [cg, n])]

                def b_addr(w):
                    cg = w.cg()
                    n, hold["a"] = lvalue(w, form, ty)
                    return [(f, [cg, w.node("ND_REF", right=n, data_type=ptr(ty))])]

                def b_write(w):
                    cg = w.cg()
                    n, hold["a"] = lvalue(w, form, ty)
                    return [(f, [cg, w.node("ND_ASSIGN", left=n, right=w.kid("R", ty, kind="ND_DEREF"), data_type=ty)])]
                tag = "%s%s:%s" % ("alias-" if al else "", name, form)
                bad = rd(c, p, err, b_read, hold, ty, extra)
                c.ob("read:" + tag, bad is None, bad or "reads its bytes", where(p.fn("asm_load")))
                bad = wr(c, p, err, b_write, hold, ty, extra)
                c.ob("write:" + tag, bad is None, bad or "writes its bytes only", where(p.fn("asm_store")))
                if not al:
                    bad = ad(c, p, err, b_addr, hold, ty, extra)
                    c.ob("address:" + tag, bad is None, bad or "address of the object", where(fa))


def states_of(c, p, err, build, kids, extra):
    ems = emit(c, p, err, build, extra=extra)
    if len(ems) != 1:
        raise AnalysisBroken("%d emission paths for a concrete tree" % len(ems))
    em = ems[0]
    if em.errors or em.path.end != "return":
        return None, "not emitted (%s)" % (em.errors or em.path.end)
    try:
        st = Machine(em.code, Kids(kids)).run()
    except AsmError as e:
        return None, "%s in: %s" % (e, em.text())
    for s in st:
        if s.end != ("fall",) or M.spoff(s) != 0:
            return None, "leaves through %s with stack offset %s: %s" % (s.end, M.spoff(s), em.text())
    if len(st) != 1:
        return None, "branches: %s" % em.text()
    s = st[0]
    for k, n in s.occ.items():
        if n != 1:
            return None, "operand %s evaluated %d times: %s" % (k, n, em.text())
    return (s, em.text()), None


def outside(s, want):
    """memory bytes changed outside the expected range (temporaries below the stack pointer excepted)"""
    return [(b, o) for (b, o) in s.mem if not (b is SP0 and o < 0) and (b, o) not in want]


def memenv(a, raw, n, env=None):
    env = dict(env or {})
    for i in range(n):
        env[S("m", a[0], a[1] + i)] = raw >> (8 * i) & 255
    return env


def bits_ok(raw, v, k):
    bits, signed = IT[k]
    m = asm.M64 if bits == 64 else 0xffffffff
    return raw & m == v & m


def rd(c, p, err, build, hold, ty, extra):
    r, bad = states_of(c, p, err, build, {"P": ptr(ty)}, extra)
    if bad: return bad
    s, text = r
    a = hold["a"]
    if outside(s, set()):
        return "a read writes memory: %s" % text
    try:
        if ty.kind in AGG:
            got = addr_split(s.r["rax"])
            return None if got == a else "yields address %s instead of the object's: %s" % (show(s.r["rax"]), text)
        if ty.kind == "TY_F80":
            want = S("ld80", asm.cat([S("m", a[0], a[1] + i) for i in range(10)]))
            return None if s.fp == [want] else "x87 stack holds %s: %s" % ([show(x) for x in s.fp], text)
        if s.fp:
            return "leaves values on the x87 stack: %s" % text
        if ty.kind in FLT:
            w = FLT[ty.kind]
            for v in (0.0, 1.5, -3.25, 1e20):
                raw = asm.f_to(v, w)
                if ev(lo(s.x[0], w), memenv(a, raw, w // 8)) != raw:
                    return "reads a wrong value for %r: %s" % (v, text)
            return None
        bits, signed = IT[ty.kind]
        for v in ([0, 1] if ty.kind == "TY_BOOL" else int_samples(bits, signed)):
            got = ev(s.r["rax"], memenv(a, v & ((1 << bits) - 1), bits // 8))
            if not bits_ok(got, v, ty.kind):
                return "stored %d is read as %#x: %s" % (v, got, text)
    except NoValue as e:
        return "the value read is not that of the object (%s): %s" % (e, text)
    return None


def wr(c, p, err, build, hold, ty, extra):
    r, bad = states_of(c, p, err, build, {"P": ptr(ty), "R": ty}, extra)
    if bad: return bad
    s, text = r
    a = hold["a"]
    R = S("val", "R", 0)
    n = 10 if ty.kind == "TY_F80" else ty.size
    want = {(a[0], a[1] + i) for i in range(n)}
    extra_ok = {(a[0], a[1] + i) for i in range(ty.size)}
    o = outside(s, extra_ok)
    if o:
        return "writes %s outside of the object: %s" % ([(show(b), x) for b, x in o[:3]], text)
    missing = [k for k in want if k not in s.mem]
    if missing:
        return "does not write byte %d of the object: %s" % (sorted(k[1] for k in missing)[0] - a[1], text)
    if len(s.fp) != (ty.kind == "TY_F80"):
        return "leaves %d values on the x87 stack: %s" % (len(s.fp), text)
    if ty.kind == "TY_F80" and s.fp[0] != R:
        return "its value is %s, not the assigned one: %s" % (show(s.fp[0]), text)
    try:
        if ty.kind in AGG:
            for i in range(n):
                if s.mem[(a[0], a[1] + i)] != S("m", S("addr", "R", 0), i):
                    return "byte %d gets %s: %s" % (i, show(s.mem[(a[0], a[1] + i)]), text)
            return None
        if ty.kind == "TY_F80":
            for i in range(10):
                if s.mem[(a[0], a[1] + i)] != S("byte", i, S("x80", R)):
                    return "byte %d gets %s: %s" % (i, show(s.mem[(a[0], a[1] + i)]), text)
            return None
        if ty.kind in FLT:
            w = FLT[ty.kind]
            vals = [asm.f_to(v, w) for v in (0.0, 1.5, -3.25, 1e20)]
        else:
            w = IT[ty.kind][0]
            vals = [v & ((1 << w) - 1) for v in ([0, 1] if ty.kind == "TY_BOOL" else int_samples(*IT[ty.kind]))]
        for v in vals:
            got = sum(ev(s.mem[(a[0], a[1] + i)], {R: v}) << (8 * i) for i in range(w // 8))
            if got != v:
                return "assigned %#x, memory holds %#x: %s" % (v, got, text)
    except NoValue as e:
        return "the stored value is not the assigned one (%s): %s" % (e, text)
    return None


def ad(c, p, err, build, hold, ty, extra):
    r, bad = states_of(c, p, err, build, {"P": ptr(ty)}, extra)
    if bad: return bad
    s, text = r
    got = addr_split(s.r["rax"])
    if outside(s, set()):
        return "taking an address writes memory: %s" % text
    return None if got == hold["a"] else "yields %s: %s" % (show(s.r["rax"]), text)

"""C09: assembly back end, literals and expressions that select or combine values."""
import math
from gen import *
from asm import SP0, BP0, addr_split
from fw import where
from c_c06 import in_images, IT
from c_c07 import memenv
from c_c05 import same

M64 = asm.M64
SCAL = ["TY_I8", "TY_I16", "TY_I32", "TY_I64", "TY_U8", "TY_U16", "TY_U32", "TY_U64", "TY_CHAR", "TY_BOOL", "TY_ENUM", "TY_PTR", "TY_F32", "TY_F64", "TY_F80", "TY_STRUCT"]


def mk(k):
    return ptr(T("TY_I32")) if k == "TY_PTR" else struct(T("TY_I64"), T("TY_I32"), T("TY_I64")) if k == "TY_STRUCT" else T(k)


def run(c, p, err, build, kids, x87=0, extra=None, many=False):
    """-> (states, text) or an error string"""
    ems = emit(c, p, err, build, extra=extra)
    if len(ems) != 1:
        raise AnalysisBroken("%d emission paths for a concrete tree (%s)" % (len(ems), ems[0].path.choices[:3]))
    em = ems[0]
    if em.errors or em.path.end != "return":
        return "not emitted (%s)" % (em.errors or em.path.end)
    try:
        st = Machine(em.code, Kids(kids)).run()
    except AsmError as e:
        return "%s in: %s" % (e, em.text())
    for s in st:
        if s.end != ("fall",) or M.spoff(s) != 0:
            return "leaves through %s with stack offset %s: %s" % (s.end, M.spoff(s), em.text())
        if len(s.fp) != x87:
            return "leaves %d values on the x87 stack: %s" % (len(s.fp), em.text())
        if keeps(s):
            return "changes %%%s, which must be preserved: %s" % (keeps(s), em.text())
    return st, em.text()


def value_is(s, ty, term, text):
    """the result register of state s holds exactly the value `term` of an opaque child of type ty"""
    if ty.kind == "TY_F80":
        return s.fp == [term]
    if ty.kind in ("TY_F32", "TY_F64"):
        w = FLT[ty.kind]
        return lo(s.x[0], w) is lo(term, w)
    if ty.kind == "TY_STRUCT":
        return s.r["rax"] is term
    w = IT[ty.kind][0]
    return lo(s.r["rax"], max(w, 32)) is lo(term, max(w, 32))


def leafof(ty, name, k=0):
    return S("addr" if ty.kind in ("TY_STRUCT", "TY_C_ARRAY", "TY_ARRAY") else "val", name, k)


def body(c, p):
    c.rule("Each literal node is emitted for boundary values and must leave exactly that value in the result register of its type; each selecting expression "
           "(conditional, else, logical and/or/not, pipe, comma sequence, len) is emitted with opaque operands and must evaluate exactly the operands its meaning "
           "demands, in order, and yield the selected operand; array and struct literals must store every element at its offset and nothing else.")
    c.require(250)
    err = Errors(p)
    f = p.fn("asm_gen_expr")
    wh = where(f)
    literals(c, p, err, f, wh)
    select_(c, p, err, f, wh)
    logical(c, p, err, f, wh)
    pipes(c, p, err, f, wh)
    aggregates(c, p, err, f, wh)


def literals(c, p, err, f, wh):
    forms = [("ND_INT", "int_val", int_samples(32, True), 32, "TY_I32"), ("ND_LONG", "long_val", int_samples(64, True), 64, "TY_I64"),
             ("ND_ULONG", "ulong_val", int_samples(64, False), 64, "TY_U64"), ("ND_CHAR", "int_val", [0, 1, 9, 10, 39, 65, 92, 127], 32, "TY_CHAR"),
             ("ND_BOOL", "bool_val", [0, 1], 64, "TY_BOOL")]
    for k, fld_, vals, bits, tn in forms:
        for v in vals:
            bad = one(c, p, err, f, k, {fld_: int(v)}, T(tn), v & ((1 << bits) - 1), bits)
            c.ob("%s=%d" % (k, v), bad is None, bad or "literal value", wh)
    bad = one(c, p, err, f, "ND_NIL", {}, ptr(T("TY_VOID")), 0, 64)
    c.ob("ND_NIL", bad is None, bad or "nil is 0", wh)
    for size, al in ((0, 0), (1, 1), (4, 4), (8, 8), (16, 16), (24, 8), (300, 4), (1 << 20, 16)):
        for k, want in (("ND_SIZEOF", size), ("ND_ALIGNOF", al)):
            bad = one(c, p, err, f, k, {"the_type": Ty("TY_STRUCT", members=[], size=size, align=al or 1, ) if al else Ty("TY_VOID", size=0, align=0)}, T("TY_U64"),
                      want if k == "ND_SIZEOF" else (al or 1), 64)
            c.ob("%s:%d/%d" % (k, size, al), bad is None, bad or "", wh)
    for k, fld_, w in (("ND_FLOAT", "float_val", 32), ("ND_DOUBLE", "double_val", 64)):
        for v in (0.0, -0.0, 1.0, -1.5, 0.1, 3.14159, 1e30, -1e-30, 2.0 ** -149, 65504.0, 1e308 if w == 64 else 1e38, math.inf):
            if w == 32:
                v = asm.f_of(asm.f_to(v, 32), 32)

            def build(wd):
                return [(f, [wd.cg(), wd.node(k, **{fld_: v, "data_type": T("TY_F%d" % w)})])]
            r = run(c, p, err, build, {})
            bad = r if isinstance(r, str) else None
            if not bad:
                try:
                    got = ev(lo(r[0][0].x[0], w), {})
                    if got != asm.f_to(v, w):
                        bad = "literal %r is loaded as %r: %s" % (v, asm.f_of(got, w), r[1])
                except NoValue as e:
                    bad = "literal %r leaves no value in xmm0 (%s): %s" % (v, e, r[1])
            c.ob("%s=%r" % (k, v), bad is None, bad or "literal value", wh)
    # strings: the n-th literal refers to the n-th entry of the table
    for n in range(3):
        hold = {}

        def build(wd):
            cg = wd.cg()
            hold["cg"], hold["w"] = cg, wd
            return [(f, [cg, wd.node("ND_STR", str_val="s%d" % k, data_type=ptr(T("TY_CHAR")))]) for k in range(n + 1)]
        r = run(c, p, err, build, {})
        bad = r if isinstance(r, str) else None
        if not bad:
            s = r[0][0]
            got = addr_split(s.r["rax"])
            if len(r[0]) != 1 or got[1] != 0 or got[0] is not S("sym", ".L.string.%d" % n):
                bad = "string literal number %d yields %s: %s" % (n, show(s.r["rax"]), r[1])
        c.ob("ND_STR:%d" % n, bad is None, bad or "address of its own string", wh)
    string_table(c, p, err, f)
    # len
    for name, ty in (("c-array", carr(T("TY_I32"), 7)), ("array", arr(T("TY_I16"), 5)), ("vla", Ty("TY_VLA", base=T("TY_I64"), size=8)), ("string", ptr(T("TY_CHAR"))),
                     ("alias-array", alias(arr(T("TY_I16"), 5))), ("alias-string", alias(ptr(T("TY_CHAR")))), ("string-of-alias", ptr(alias(T("TY_CHAR"))))):
        def build(wd):
            return [(f, [wd.cg(), wd.node("ND_LEN", expr=wd.kid("L", ty, kind="ND_CALL"), data_type=T("TY_U64"))])]
        r = run(c, p, err, build, {"L": ty})
        bad = r if isinstance(r, str) else None
        if not bad:
            s = r[0][0]
            a = S("addr", "L", 0)
            try:
                if name == "c-array":
                    got, want = ev(s.r["rax"], {}), 7
                elif "string" in name:
                    got, want = ev(s.r["rax"], {S("strlen", S("val", "L", 0)): 1234}), 1234
                else:
                    got, want = ev(s.r["rax"], {S("m", a, i): (0x123456 >> 8 * i) & 255 for i in range(8)}), 0x123456
                if got != want:
                    bad = "length %d is reported as %d: %s" % (want, got, r[1])
            except NoValue as e:
                bad = "not the length (%s): %s" % (e, r[1])
        c.ob("ND_LEN:" + name, bad is None, bad or "", wh)


def string_table(c, p, err, f):
    """the emitted table defines .L.string.<i> with the bytes of the i-th string"""
    g = p.fn("asm_gen_string_literals")
    strs = ["", "a", "hello, world", "tab\tx", "100%d %s"]

    def build(wd):
        cg = wd.cg()
        return [(f, [cg, wd.node("ND_STR", str_val=s, data_type=ptr(T("TY_CHAR")))]) for s in strs] + [(g, [cg])]
    ems = emit(c, p, err, build)
    if len(ems) != 1:
        raise AnalysisBroken("string table has %d paths" % len(ems))
    tab = asm.data_of(ems[0].code)
    for i, s in enumerate(strs):
        want = [ord(ch) for ch in s] + [0]
        got = tab.get(".L.string.%d" % i)
        c.ob("string-table:%r" % s, got is not None and got.bytes == want, "label .L.string.%d is %s, expected the bytes of %r and a terminator" % (i, got, s), where(g))


def one(c, p, err, f, kind, fields, ty, want, bits):
    def build(w):
        return [(f, [w.cg(), w.node(kind, data_type=ty, **fields)])]
    r = run(c, p, err, build, {})
    if isinstance(r, str): return r
    st, text = r
    if len(st) != 1: return "branches: " + text
    try:
        got = ev(lo(st[0].r["rax"], bits), {})
    except NoValue as e:
        return "leaves no value in rax (%s): %s" % (e, text)
    return None if got == want else "loads %#x instead of %#x: %s" % (got, want, text)


def truth_envs(tn, name):
    L = S("val", name, 0)
    if tn in FLT:
        for v in (0.0, 1.5, -2.0, 1e-30):
            yield (asm.exact(v) if tn == "TY_F80" else asm.f_to(v, FLT[tn])), v != 0
        return
    bits, signed = IT[tn]
    for v in ([0, 1] if tn == "TY_BOOL" else int_samples(bits, signed)):
        for raw in in_images(v, tn):
            yield raw, v != 0


def select_(c, p, err, f, wh):
    for tn in SCAL:
        for al in (False, True):
            ty = alias(mk(tn)) if al else mk(tn)
            tag = ("alias-" if al else "") + tn

            def build(w):
                return [(f, [w.cg(), w.node("ND_TERNARY", condition=w.kid("C", T("TY_BOOL")), if_branch=w.kid("A", ty), else_branch=w.kid("B", ty), data_type=ty)])]
            r = run(c, p, err, build, {"C": T("TY_BOOL"), "A": ty, "B": ty}, x87=tn == "TY_F80")
            bad = r if isinstance(r, str) else None
            if not bad:
                st, text = r
                for v, which in ((0, "B"), (1, "A")):
                    sel = select(st, {S("val", "C", 0): v})
                    if len(sel) != 1: bad = "no unique path for condition %d: %s" % (v, text); break
                    s = sel[0]
                    if s.occ != {("val", "C"): 1, ("val", which): 1}:
                        bad = "condition %d evaluates %s: %s" % (v, sorted(s.occ), text)
                    elif not value_is(s, ty, leafof(ty, which), text):
                        bad = "condition %d does not yield the %s branch: %s" % (v, "if" if v else "else", text)
            c.ob("ND_TERNARY:" + tag, bad is None, bad or "selects a branch", wh)

            # comma sequence: all evaluated in order, the last is the value
            def build(w):
                return [(f, [w.cg(), w.node("ND_CLOSURE", exprs=[w.kid("A", T("TY_I32")), w.kid("B", T("TY_I64")), w.kid("C", ty)], data_type=ty)])]
            r = run(c, p, err, build, {"A": T("TY_I32"), "B": T("TY_I64"), "C": ty}, x87=tn == "TY_F80")
            bad = r if isinstance(r, str) else None
            if not bad:
                s = r[0][0]
                order = [t[2] for t in s.trace if t[0] == "child"]
                if len(r[0]) != 1 or order != ["A", "B", "C"] or not value_is(s, ty, leafof(ty, "C"), r[1]):
                    bad = "evaluates %s and yields %s: %s" % (order, show(s.r["rax"]), r[1])
            c.ob("ND_CLOSURE:" + tag, bad is None, bad or "value of the last", wh)

            # values before the last are dropped, also from the x87 stack
            def build(w):
                return [(f, [w.cg(), w.node("ND_CLOSURE", exprs=[w.kid("A", ty), w.kid("B", ty), w.kid("C", T("TY_I32"))], data_type=T("TY_I32"))])]
            r = run(c, p, err, build, {"A": ty, "B": ty, "C": T("TY_I32")})
            bad = r if isinstance(r, str) else None
            if not bad and not value_is(r[0][0], T("TY_I32"), leafof(T("TY_I32"), "C"), r[1]):
                bad = "yields %s: %s" % (show(r[0][0].r["rax"]), r[1])
            c.ob("ND_CLOSURE:discarded-" + tag, bad is None, bad or "values before the last are dropped", wh)
            if tn == "TY_STRUCT" or tn == "TY_F80":
                continue

            def build(w):
                return [(f, [w.cg(), w.node("ND_ELSE_EXPR", left=w.kid("A", ty), right=w.kid("B", ty), data_type=ty)])]
            r = run(c, p, err, build, {"A": ty, "B": ty})
            bad = r if isinstance(r, str) else None
            if not bad:
                st, text = r
                for raw, t in truth_envs(tn, "A"):
                    sel = select(st, {S("val", "A", 0): raw})
                    if len(sel) != 1: bad = "no unique path: " + text; break
                    s = sel[0]
                    if s.occ != ({("val", "A"): 1} if t else {("val", "A"): 1, ("val", "B"): 1}):
                        bad = "a %s left side evaluates %s: %s" % ("non-zero" if t else "zero", sorted(s.occ), text)
                    elif not value_is(s, ty, leafof(ty, "A" if t else "B"), text):
                        bad = "a %s left side does not yield the %s side: %s" % ("non-zero" if t else "zero", "left" if t else "right", text)
                    if bad: break
            c.ob("ND_ELSE_EXPR:" + tag, bad is None, bad or "left unless zero", wh)


def logical(c, p, err, f, wh):
    BOOL = T("TY_BOOL")
    for tn in SCAL:
        if tn in ("TY_STRUCT",) or tn in FLT:
            continue        # floating point truth: C05
        for al in (False, True):
            ty = alias(mk(tn)) if al else mk(tn)
            tag = ("alias-" if al else "") + tn
            for op in ("ND_AND", "ND_OR", "ND_NOT"):
                def build(w):
                    if op == "ND_NOT":
                        return [(f, [w.cg(), w.node(op, right=w.kid("A", ty), data_type=BOOL)])]
                    return [(f, [w.cg(), w.node(op, left=w.kid("A", ty), right=w.kid("B", ty), data_type=BOOL)])]
                r = run(c, p, err, build, {"A": ty, "B": ty})
                bad = r if isinstance(r, str) else None
                if not bad:
                    st, text = r
                    for ra, ta in truth_envs(tn, "A"):
                        for rb, tb in (truth_envs(tn, "B") if op != "ND_NOT" else [(0, False)]):
                            env = {S("val", "A", 0): ra, S("val", "B", 0): rb}
                            sel = select(st, env)
                            if len(sel) != 1: bad = "no unique path: " + text; break
                            s = sel[0]
                            want = not ta if op == "ND_NOT" else (ta and tb) if op == "ND_AND" else (ta or tb)
                            lazy = op == "ND_NOT" or ta == (op == "ND_OR")
                            if s.occ != ({("val", "A"): 1} if lazy else {("val", "A"): 1, ("val", "B"): 1}):
                                bad = "left %s: evaluates %s: %s" % (ta, sorted(s.occ), text); break
                            try:
                                if ev(s.r["rax"], env) != int(want):
                                    bad = "%s with (%#x, %#x) gives %#x: %s" % (op, ra, rb, ev(s.r["rax"], env), text); break
                            except NoValue as e:
                                bad = "undefined (%s): %s" % (e, text); break
                        if bad: break
                c.ob("%s:%s" % (op, tag), bad is None, bad or "truth table, lazy right side", wh)


def pipes(c, p, err, f, wh):
    for tn in SCAL:
        for al in (False, True):
            ty = alias(mk(tn)) if al else mk(tn)
            tag = ("alias-" if al else "") + tn
            hole = lambda w, t: w.node("ND_HOLE", data_type=t)

            def build(w):
                # the hole is read after another operand was evaluated
                return [(f, [w.cg(), w.node("ND_PIPE", left=w.kid("A", ty), right=w.node("ND_CLOSURE", exprs=[w.kid("B", T("TY_I32")), hole(w, ty)], data_type=ty), data_type=ty)])]
            r = run(c, p, err, build, {"A": ty, "B": T("TY_I32")}, x87=tn == "TY_F80")
            bad = r if isinstance(r, str) else None
            if not bad:
                s = r[0][0]
                if len(r[0]) != 1 or s.occ != {("val", "A"): 1, ("val", "B"): 1}:
                    bad = "evaluates %s: %s" % (s.occ, r[1])
                elif tn == "TY_F80":
                    v = s.fp[0]
                    if v is not S("val", "A", 0):
                        bad = "the hole is not the piped value (%s): %s" % (show(v), r[1])
                elif not value_is(s, ty, leafof(ty, "A"), r[1]):
                    bad = "the hole is not the piped value: %s" % r[1]
            c.ob("ND_PIPE:" + tag, bad is None, bad or "hole = left value", wh)

            def build(w):
                # a pipe inside the right side does not disturb the outer hole
                inner = w.node("ND_PIPE", left=w.kid("B", T("TY_F64")), right=hole(w, T("TY_F64")), data_type=T("TY_F64"))
                return [(f, [w.cg(), w.node("ND_PIPE", left=w.kid("A", ty), right=w.node("ND_CLOSURE", exprs=[inner, hole(w, ty)], data_type=ty), data_type=ty)])]
            r = run(c, p, err, build, {"A": ty, "B": T("TY_F64")}, x87=tn == "TY_F80")
            bad = r if isinstance(r, str) else None
            if not bad and not (r[0][0].fp == [S("val", "A", 0)] if tn == "TY_F80" else value_is(r[0][0], ty, leafof(ty, "A"), r[1])):
                bad = "an inner pipe changes the outer hole: %s" % r[1]
            c.ob("ND_PIPE-nested:" + tag, bad is None, bad or "hole = left value", wh)


def aggregates(c, p, err, f, wh):
    el = ["TY_I8", "TY_I16", "TY_I32", "TY_I64", "TY_U8", "TY_F32", "TY_F64", "TY_F80", "TY_PTR", "TY_STRUCT", "TY_BOOL"]
    for tn in el:
        b = mk(tn)
        for n in (1, 3):
            for mode in ("value", "init", "assign"):
                hold = {}

                def build(w):
                    at = arr(b, n)
                    kids = [w.kid("E%d" % i, b, kind="ND_CALL") for i in range(n)]
                    buf = w.obj(kind="OBJ_LOCAL", offset=-256, data_type=at)
                    lit = w.node("ND_ARRAY", args=kids, data_type=at, buffer=buf)
                    if mode == "value":
                        hold["a"] = (BP0, -256)
                        return [(f, [w.cg(), lit])]
                    o = w.obj(kind="OBJ_LOCAL", offset=-512, data_type=at)
                    hold["a"] = (BP0, -512)
                    return [(f, [w.cg(), w.node("ND_ASSIGN", left=w.node("ND_ID", referenced_obj=o, data_type=at, id=w.ident("v")), right=lit, data_type=at, is_initializing=mode == "init")])]
                r = run(c, p, err, build, {"E%d" % i: b for i in range(n)})
                bad = r if isinstance(r, str) else stored(r, hold["a"], [("E%d" % i, b, 8 + i * b.size) for i in range(n)], 8 + n * b.size, n if mode != "init" else None, mode == "value", mode)
                c.ob("ND_ARRAY-%s:%s x%d" % (mode, tn, n), bad is None, bad or "every element at its offset", wh)
    layouts = [("i8,i64,i16", ["TY_I8", "TY_I64", "TY_I16"]), ("i32,f32", ["TY_I32", "TY_F32"]), ("f64,u8,u8,i32", ["TY_F64", "TY_U8", "TY_U8", "TY_I32"]), ("i64", ["TY_I64"]),
               ("struct,i8", ["TY_STRUCT", "TY_I8"]), ("i16,struct,f80", ["TY_I16", "TY_STRUCT", "TY_F80"])]
    for name, ms in layouts:
        for al in (False, True):
            for mode in ("value", "init", "assign"):
                tys = [mk(m) for m in ms]
                st = struct(*tys)
                sa = alias(st) if al else st
                hold = {}

                def build(w):
                    kids = [w.kid("E%d" % i, t, kind="ND_CALL") for i, t in enumerate(tys)]
                    buf = w.obj(kind="OBJ_LOCAL", offset=-256, data_type=sa)
                    lit = w.node("ND_STRUCT", args=kids, data_type=sa, buffer=buf)
                    if mode == "value":
                        hold["a"] = (BP0, -256)
                        return [(f, [w.cg(), lit])]
                    o = w.obj(kind="OBJ_LOCAL", offset=-512, data_type=sa)
                    hold["a"] = (BP0, -512)
                    return [(f, [w.cg(), w.node("ND_ASSIGN", left=w.node("ND_ID", referenced_obj=o, data_type=sa, id=w.ident("v")), right=lit, data_type=sa, is_initializing=mode == "init")])]
                r = run(c, p, err, build, {"E%d" % i: t for i, t in enumerate(tys)})
                bad = r if isinstance(r, str) else stored(r, hold["a"], [("E%d" % i, t, st.offs[i]) for i, t in enumerate(tys)], st.size, None, mode != "assign", mode)
                c.ob("ND_STRUCT-%s:%s%s" % (mode, "alias-" if al else "", name), bad is None, bad or "every field at its offset", wh)
    # a literal that reads the variable it is assigned to sees the old value
    for what in ("array", "struct"):
        it = T("TY_I32")
        hold = {}

        def build(w):
            st = arr(it, 2) if what == "array" else struct(it, it)
            o = w.obj(kind="OBJ_LOCAL", offset=-512, data_type=st)
            v = w.node("ND_ID", referenced_obj=o, data_type=st, id=w.ident("v"))

            def elem(i):
                if what == "array":
                    return w.node("ND_INDEX", left=v, expr=w.node("ND_INT", int_val=i, data_type=it), data_type=it)
                m = w.node("ND_STRUCT_MEMBER", offset=4 * i, data_type=it)
                return w.node("ND_MEMBER", left=v, right=w.node("ND_ID", id=w.ident("f"), data_type=it), body=m, data_type=it)
            lit = w.node("ND_ARRAY" if what == "array" else "ND_STRUCT", args=[elem(1), elem(0)], data_type=st, buffer=w.obj(kind="OBJ_LOCAL", offset=-256, data_type=st))
            return [(f, [w.cg(), w.node("ND_ASSIGN", left=v, right=lit, data_type=st)])]
        r = run(c, p, err, build, {})
        bad = r if isinstance(r, str) else None
        if not bad:
            s, text = r[0][0], r[1]
            o0 = -512 + (8 if what == "array" else 0)
            for i in range(8):
                if s.mem.get((BP0, o0 + i)) is not S("m", BP0, o0 + (i + 4) % 8):
                    bad = "swapping the two elements by v = {second, first} stores %s in byte %d: %s" % (show(s.mem.get((BP0, o0 + i))), i, text)
        c.ob("literal-reads-target:" + what, bad is None, bad or "old values", wh)
    # spread elements: [a, ...b] and [...b] forward and backward
    b = T("TY_I32")
    for umode in ("UMODE_FTOB", "UMODE_BTOF"):
        for mode in ("value", "init", "assign"):
            hold = {}

            def build(w):
                at = arr(b, 4)
                src = w.kid("Q", arr(b, 3), kind="ND_CALL", unpack_mode=p.enum(umode))
                kids = [w.kid("E0", b, kind="ND_CALL"), src]
                buf = w.obj(kind="OBJ_LOCAL", offset=-256, data_type=at)
                lit = w.node("ND_ARRAY", args=kids, data_type=at, buffer=buf)
                if mode == "value":
                    hold["a"] = (BP0, -256)
                    return [(f, [w.cg(), lit])]
                o = w.obj(kind="OBJ_LOCAL", offset=-512, data_type=at)
                hold["a"] = (BP0, -512)
                return [(f, [w.cg(), w.node("ND_ASSIGN", left=w.node("ND_ID", referenced_obj=o, data_type=at, id=w.ident("v")), right=lit, data_type=at, is_initializing=mode == "init")])]
            r = run(c, p, err, build, {"E0": b, "Q": arr(b, 3)})
            bad = r if isinstance(r, str) else None
            if not bad:
                s, text = r[0][0], r[1]
                base, off = hold["a"]
                for j in range(3):
                    src = j if umode == "UMODE_FTOB" else 2 - j
                    for i in range(4):
                        got = s.mem.get((base, off + 8 + 4 * (1 + j) + i))
                        # element `src` of whichever evaluation of the source
                        if not (isinstance(got, Sym) and got.op == "m" and got.a[1] == 8 + 4 * src + i and isinstance(got.a[0], Sym) and got.a[0].op == "addr" and got.a[0].a[0] == "Q"):
                            bad = "element %d of the literal is %s, expected element %d of the spread array: %s" % (1 + j, show(got), src, text)
            c.ob("ND_ARRAY-spread-%s-%s" % (umode, mode), bad is None, bad or "spread in order", wh)


def stored(r, a, items, size, length, isval, mode="value"):
    st, text = r
    if len(st) != 1:
        return "branches: " + text
    s = st[0]
    for k, n in s.occ.items():
        if n != 1: return "element %s is evaluated %d times: %s" % (k, n, text)
    order = [t[2] for t in s.trace if t[0] == "child"]
    if order != [i[0] for i in items]:
        return "elements are evaluated in the order %s: %s" % (order, text)
    base, off = a
    for k in s.mem:
        if k[0] is SP0 and k[1] < 0: continue
        if mode == "assign" and k[0] is base and -256 <= k[1] < -256 + size: continue        # the literal's own buffer
        if k[0] is not base or not off <= k[1] < off + size:
            return "writes outside of the object at %s%+d: %s" % (show(k[0]), k[1] - off, text)
    for name, t, o in items:
        n = 10 if t.kind == "TY_F80" else t.size
        for i in range(n):
            got = s.mem.get((base, off + o + i))
            if t.kind == "TY_STRUCT":
                ok = got is S("m", S("addr", name, 0), i)
            elif t.kind == "TY_F80":
                ok = got is S("byte", i, S("x80", S("val", name, 0)))
            else:
                v = 0x8182838485868788
                try:
                    ok = got is not None and ev(got, {S("val", name, 0): v}) == (v >> (8 * i)) & 255
                except NoValue:
                    ok = False
            if not ok:
                return "byte %d of element %s at offset %d is %s: %s" % (i, name, o, show(got) if got is not None else "not written", text)
    if length is not None:
        try:
            if sum(ev(s.mem[(base, off + i)], {}) << (8 * i) for i in range(8)) != length:
                return "the stored length is wrong: " + text
        except (KeyError, NoValue):
            return "the length is not stored: " + text
    if isval and addr_split(s.r["rax"]) != a:
        return "yields %s instead of the address of the literal: %s" % (show(s.r["rax"]), text)
    return None

"""C08: assembly back end, pointer arithmetic, indexing and increments."""
from gen import *
from asm import SP0, BP0, addr_split
from fw import where

BASES = [("char", T("TY_CHAR"), 1), ("i16", T("TY_I16"), 2), ("i32", T("TY_I32"), 4), ("f64", T("TY_F64"), 8), ("struct12", struct(T("TY_I32"), T("TY_I32"), T("TY_I32")), 12),
         ("struct24", struct(T("TY_I64"), T("TY_I64"), T("TY_I8")), 24), ("void", T("TY_VOID"), 1), ("ptr", ptr(T("TY_I8")), 8)]
IDX = ["TY_I8", "TY_I16", "TY_I32", "TY_I64", "TY_U8", "TY_U16", "TY_U32", "TY_U64"]
M64 = asm.M64
PV = [0x10000, 0x7fff12345678]
L, R, B = S("val", "L", 0), S("val", "R", 0), S("val", "B", 0)


def emission(c, p, err, build, kids, extra=None, allow_calls=False, fp=0):
    """-> (states, text) or error string"""
    ems = emit(c, p, err, build, extra=extra)
    if len(ems) != 1:
        raise AnalysisBroken("%d emission paths for a concrete tree (%s)" % (len(ems), ems[0].path.choices[:3]))
    em = ems[0]
    if em.errors or em.path.end != "return":
        return "not emitted (%s)" % (em.errors or em.path.end)
    try:
        st = Machine(em.code, Kids(kids)).run()
    except AsmError as e:
        return "%s in: %s" % (e, em.text())
    for s in st:
        if s.end != ("fall",) or M.spoff(s) != 0:
            return "leaves through %s with stack offset %s: %s" % (s.end, M.spoff(s), em.text())
        if len(s.fp) != fp:
            return "leaves %d values on the x87 stack instead of %d: %s" % (len(s.fp), fp, em.text())
        if keeps(s):
            return "changes %%%s, which the caller expects to be preserved: %s" % (keeps(s), em.text())
    return st, em.text()


def once(st, want, text):
    for s in st:
        if s.occ != want:
            return "operands are evaluated %s: %s" % (s.occ, text)
    return None


def body(c, p):
    c.rule("Pointer arithmetic, indexing (from the front and from the back) and increments are emitted for every element size and index type with opaque "
           "operands; the resulting address term must equal base + index * element size (base + (length - index) * size from the back), for negative and "
           "boundary indices of the index type; element reads load from exactly that address; x++ / x-- store x +- 1 and yield the old value.")
    c.require(150)
    err = Errors(p)
    f = p.fn("asm_gen_expr")
    wh = where(f)
    for bn, bt, size in BASES:
        for ali in (0, 1, 2):
            base = alias(bt) if ali == 1 else bt
            pt = ptr(base)
            if ali == 2: pt = alias(pt)
            tag0 = ("alias-base-", "alias-ptr-")[ali - 1] + bn if ali else bn
            for it in IDX:
                if ali and it not in ("TY_I32", "TY_U64"):
                    continue
                for form in ("ptr+int", "int+ptr", "ptr-int"):
                    def build(w):
                        cg = w.cg()
                        P, I_ = w.kid("L", pt), w.kid("R", T(it))
                        l, r = (I_, P) if form == "int+ptr" else (P, I_)
                        return [(f, [cg, w.node("ND_SUB" if form == "ptr-int" else "ND_ADD", left=l, right=r, data_type=pt)])]
                    bad = arith(c, p, err, build, pt, it, size, -1 if form == "ptr-int" else 1)
                    c.ob("%s:%s:%s" % (form, tag0, it), bad is None, bad or "scaled by the element size", wh)
            if bn == "void":
                continue

            def build(w):
                cg = w.cg()
                return [(f, [cg, w.node("ND_SUB", left=w.kid("L", pt), right=w.kid("R", pt), data_type=pt)])]
            bad = diff(c, p, err, build, pt, size)
            c.ob("ptr-ptr:" + tag0, bad is None, bad or "element distance", wh)
    wi = where(p.fn("asm_gen_index"))
    for bn, bt, size in BASES:
        if bn == "void":
            continue
        for cont in ("pointer", "c-array", "array", "vla"):
            ct = {"pointer": lambda: ptr(bt), "c-array": lambda: carr(bt, 6), "array": lambda: arr(bt, 6), "vla": lambda: Ty("TY_VLA", base=bt, size=8)}[cont]()
            for back in (False, True):
                if back and cont == "pointer":
                    continue
                for it in IDX:
                    if bn not in ("i32", "struct12") and it not in ("TY_I32", "TY_U64"):
                        continue
                    for mode in ("addr", "read", "write"):
                        def build(w):
                            cg = w.cg()
                            n = w.node("ND_INDEX", left=w.kid("L", ct), expr=w.kid("R", T(it)), from_back=back, data_type=bt)
                            if mode == "addr":
                                n = w.node("ND_REF", right=n, data_type=ptr(bt))
                            elif mode == "write":
                                n = w.node("ND_ASSIGN", left=n, right=w.kid("V", bt, kind="ND_CALL"), data_type=bt)
                            return [(f, [cg, n])]
                        bad = index(c, p, err, build, ct, bt, it, cont, back, mode, size)
                        c.ob("index-%s%s:%s:%s:%s" % (mode, "-back" if back else "", cont, bn, it), bad is None, bad or "element address", wi)
    inc(c, p, err, f)
    computed(c, p, err, f)


def base_env(l):
    return {L: l, S("addr", "L", 0): l}


def arith(c, p, err, build, pt, it, size, sign):
    r = emission(c, p, err, build, {"L": pt, "R": T(it)})
    if isinstance(r, str): return r
    st, text = r
    bad = once(st, {("val", "L"): 1, ("val", "R"): 1}, text)
    if bad: return bad
    bits, signed = INT[it]
    for l in PV:
        for v in int_samples(bits, signed):
            for raw in images(v, bits):
                env = {L: l, R: raw}
                try:
                    sel = select(st, env)
                    got = ev(sel[0].r["rax"], env)
                except NoValue as e:
                    return "undefined for index %d (%s): %s" % (v, e, text)
                if len(sel) != 1 or got != (l + sign * v * size) & M64:
                    return "pointer %#x and %d elements of %d bytes give %#x: %s" % (l, v, size, got, text)
    return None


def diff(c, p, err, build, pt, size):
    r = emission(c, p, err, build, {"L": pt, "R": pt})
    if isinstance(r, str): return r
    st, text = r
    bad = once(st, {("val", "L"): 1, ("val", "R"): 1}, text)
    if bad: return bad
    for l in PV:
        for d in (0, 1, -1, 5, -7, 1000):
            env = {L: l + 0x100000, R: l + 0x100000 - d * size}
            try:
                got = ev(select(st, env)[0].r["rax"], env)
            except NoValue as e:
                return "undefined (%s): %s" % (e, text)
            if got != d & M64:
                return "pointers %d elements of %d bytes apart give %d: %s" % (d, size, got, text)
    return None


def index(c, p, err, build, ct, bt, it, cont, back, mode, size):
    kids = {"L": ct, "R": T(it), "V": bt}
    r = emission_f(c, p, err, build, kids, bt)
    if isinstance(r, str): return r
    st, text = r
    want = {("val", "L"): 1, ("val", "R"): 1}
    if mode == "write":
        want[("val", "V")] = 1
    bad = once(st, want, text)
    if bad: return bad
    if len(st) != 1:
        return "branches: " + text
    s = st[0]
    bits, signed = INT[it]
    n = 6
    for l in PV:
        for v in int_samples(bits, signed):
            if cont != "pointer" and not 0 <= v <= n:
                if not (v in (-1, -2, 100)):
                    continue
            for raw in images(v, bits):
                mem = {l + i: (n >> (8 * i)) & 255 for i in range(8)} if cont in ("array", "vla") else {}
                env = {R: raw, "mem": lambda a: mem.get(a, None) if mem.get(a) is not None else nov(a)}
                env.update(base_env(l))
                want = (l + (8 if cont in ("array", "vla") else 0) + (n - v if back else v) * size) & M64
                try:
                    if mode == "addr" or bt.kind == "TY_STRUCT" and mode == "read":
                        got = ev(s.r["rax"], env)
                    elif mode == "read":
                        res = lo(s.x[0], 64) if bt.kind == "TY_F64" else s.r["rax"]
                        a = leaf(res)
                        if a is None:
                            return "the element is not read from memory: %s" % text
                        got = ev(a[0], env) + a[1] & M64
                    else:
                        ks = [k for k in s.mem if not (k[0] is SP0 and k[1] < 0)]
                        if len(ks) != bt.size:
                            return "writes %d bytes for an element of %d: %s" % (len(ks), bt.size, text)
                        got = min(ev(k[0], env) + k[1] & M64 for k in ks)
                except NoValue as e:
                    return "undefined for index %d (%s): %s" % (v, e, text)
                if got != want:
                    return "index %d (element size %d%s) gives address base%+d instead of base%+d: %s" % (
                        v, size, ", from the back of 6" if back else "", asm.sbits(got - l & M64, 64), asm.sbits(want - l & M64, 64), text)
    return None


def nov(a):
    raise NoValue("memory at %#x" % a)


def emission_f(c, p, err, build, kids, bt):
    return emission(c, p, err, build, kids)


def leaf(t):
    if isinstance(t, Sym):
        if t.op == "m":
            return t.a[0], t.a[1]
        for x in t.a:
            r = leaf(x)
            if r is not None:
                return r
    return None


def inc(c, p, err, f):
    wh = where(p.fn("asm_gen_inc"))
    sorts = [(k, T(k), INT[k][0], INT[k][1], 1) for k in IDX] + [("ptr-" + bn, ptr(bt), 64, False, size) for bn, bt, size in BASES if bn != "void"]
    for tn, ty, bits, signed, step in sorts:
        for op in ("ND_INC", "ND_DEC"):
            for al in (False, True):
                t = alias(ty) if al else ty

                def build(w):
                    cg = w.cg()
                    o = w.obj(kind="OBJ_LOCAL", offset=-16, data_type=t)
                    return [(f, [cg, w.node(op, left=w.node("ND_ID", referenced_obj=o, data_type=t, id=w.ident("x")), data_type=t)])]
                r = emission(c, p, err, build, {})
                bad = None
                if isinstance(r, str):
                    bad = r
                else:
                    st, text = r
                    s = st[0]
                    n = bits // 8
                    d = step if op == "ND_INC" else -step
                    ks = {k for k in s.mem if not (k[0] is SP0 and k[1] < 0)}
                    if len(st) != 1:
                        bad = "branches: " + text
                    elif ks != {(BP0, -16 + i) for i in range(n)}:
                        bad = "does not write exactly the variable: " + text
                    else:
                        for v in int_samples(bits, signed):
                            env = {S("m", BP0, -16 + i): (v >> (8 * i)) & 255 for i in range(n)}
                            try:
                                new = sum(ev(s.mem[(BP0, -16 + i)], env) << (8 * i) for i in range(n))
                                old = ev(s.r["rax"], env)
                            except NoValue as e:
                                bad = "undefined (%s): %s" % (e, text)
                                break
                            m = (1 << bits) - 1
                            if new != (v + d) & m:
                                bad = "%d becomes %#x: %s" % (v, new, text)
                                break
                            if old & m != v & m:
                                bad = "the value of the expression for %d is %#x: %s" % (v, old, text)
                                break
                c.ob("%s:%s%s" % (op, "alias-" if al else "", tn), bad is None, bad or "stores x+-1, yields x", wh)
    for tn in ("TY_F32", "TY_F64"):
        w_ = FLT[tn]
        for op in ("ND_INC", "ND_DEC"):
            def build(w):
                cg = w.cg()
                o = w.obj(kind="OBJ_LOCAL", offset=-16, data_type=T(tn))
                return [(f, [cg, w.node(op, left=w.node("ND_ID", referenced_obj=o, data_type=T(tn), id=w.ident("x")), data_type=T(tn))])]
            r = emission(c, p, err, build, {})
            bad = r if isinstance(r, str) else None
            if not bad:
                s = r[0][0]
                raw = asm.f_to(2.5, w_)
                env = {S("m", BP0, -16 + i): (raw >> (8 * i)) & 255 for i in range(w_ // 8)}
                try:
                    new = sum(ev(s.mem[(BP0, -16 + i)], env) << (8 * i) for i in range(w_ // 8))
                    if asm.f_of(new, w_) != (3.5 if op == "ND_INC" else 1.5):
                        bad = "2.5 becomes %r: %s" % (asm.f_of(new, w_), r[1])
                except (NoValue, KeyError) as e:
                    bad = "undefined (%s): %s" % (e, r[1])
            c.ob("%s:%s" % (op, tn), bad is None, bad or "x+-1", wh)


def computed(c, p, err, f):
    """x++, x-- and x op= y where x has to be computed: that happens once, and the object found is the one changed"""
    wh = where(p.fn("asm_gen_inc")) + ", asm_gen_expr (assignment)"
    OPS = [("ND_ADD", lambda a, b: a + b), ("ND_SUB", lambda a, b: a - b), ("ND_MUL", lambda a, b: a * b), ("ND_XOR", lambda a, b: a ^ b), ("ND_BIT_OR", lambda a, b: a | b), ("ND_BIT_AND", lambda a, b: a & b), ("ND_LSHIFT", None), ("ND_RSHIFT", None), ("ND_DIV", None), ("ND_MOD", None)]
    for k in IDX + ["TY_F32", "TY_F64", "TY_F80", "ptr"]:
        t = ptr(T("TY_I32")) if k == "ptr" else T(k)
        flt = k in ("TY_F32", "TY_F64", "TY_F80")
        size = {"TY_F32": 4, "TY_F64": 8, "TY_F80": 10, "ptr": 8}.get(k) or INT[k][0] // 8
        forms = [("ND_INC", 1, 0), ("ND_DEC", -1, 0)] + [(o, fn, casts) for o, fn in OPS for casts in (0, 1, 2) if not (flt and o not in ("ND_ADD", "ND_SUB", "ND_MUL", "ND_DIV")) and not (k == "ptr" and (o not in ("ND_ADD", "ND_SUB") or casts))]
        for op, fn, casts in forms:
            for lv in ("*p", "p[i]", "p->m", "(*p)->m"):
                def build(w):
                    cg = w.cg()
                    P = w.kid("L", ptr(t), kind="ND_CALL")
                    if lv == "p[i]":
                        n = w.node("ND_INDEX", left=P, expr=w.kid("R", T("TY_I32")), data_type=t)
                    elif lv == "*p":
                        n = w.node("ND_DEREF", right=P, data_type=t)
                    else:
                        st = struct(T("TY_I64"), T("TY_I64"), t)
                        pp = w.node("ND_DEREF", right=w.kid("L", ptr(ptr(st)), kind="ND_CALL"), data_type=ptr(st)) if lv == "(*p)->m" else w.kid("L", ptr(st), kind="ND_CALL")
                        m = w.obj(kind="ND_ID")
                        n = w.node("ND_DEREF", right=w.node("ND_ADD", left=w.node("ND_CAST", left=pp, data_type=ptr(T("TY_I8"))), right=w.node("ND_LONG", long_val=16, data_type=T("TY_I64")), data_type=ptr(T("TY_I8"))), data_type=t)
                    if op in ("ND_INC", "ND_DEC"):
                        return [(f, [cg, w.node(op, left=n, data_type=t)])]
                    vt = T("TY_I32") if k == "ptr" else t
                    l = n
                    x = w.node(op, left=w.node("ND_CAST", left=l, data_type=t) if casts == 2 else l, right=w.kid("V", vt, kind="ND_CALL"), data_type=t)
                    if casts:
                        x = w.node("ND_CAST", left=x, data_type=t)
                    return [(f, [cg, w.node("ND_ASSIGN", left=n, right=x, data_type=t, tok=0)])]
                kids = {"L": ptr(t), "R": T("TY_I32"), "V": T("TY_I32") if k == "ptr" else t}
                r = emission(c, p, err, build, kids, fp=int(k == 'TY_F80'))
                bad = r if isinstance(r, str) else None
                if not bad:
                    st, text = r
                    want = {("val", "L"): 1}
                    if lv == "p[i]":
                        want[("val", "R")] = 1
                    if op not in ("ND_INC", "ND_DEC"):
                        want[("val", "V")] = 1
                    bad = once(st, want, text)
                    off = 16 if "m" in lv else 0
                    for s in st:
                        if bad or lv in ("p[i]", "(*p)->m"):
                            break
                        ks = {x for x in s.mem if not (x[0] is SP0 and x[1] < 0)}
                        full = {(L, off + i) for i in range(size)}
                        if not full <= ks or not ks <= full | {(L, off + i) for i in range(16 if k == "TY_F80" else size)}:
                            bad = "does not write exactly the object: %s" % text
                        elif not flt and (fn in (1, -1) or fn is not None):
                            bits = size * 8
                            sgn = k != "ptr" and INT[k][1]
                            V = S("val", "V", 0)
                            for v in int_samples(bits, sgn):
                                for y in ((0,) if fn in (1, -1) else (0, 1, 5, -3)):
                                    env = {S("m", L, off + i): (v >> (8 * i)) & 255 for i in range(size)}
                                    env[V] = y & 0xffffffff if k == "ptr" else ext(y, bits, sgn)
                                    step = 4 if k == "ptr" else 1
                                    res = (v + fn * step if fn in (1, -1) else fn(v, y * step)) & ((1 << bits) - 1)
                                    try:
                                        new = sum(ev(s.mem[(L, off + i)], env) << (8 * i) for i in range(size))
                                    except NoValue as e:
                                        bad = "undefined (%s): %s" % (e, text)
                                        break
                                    if new != res:
                                        bad = bad or "%d, %d yields %#x: %s" % (v, y, new, text)
                c.ob("%s of a computed %s%s: %s" % (op, k, " through casts" if casts else "", lv), bad is None, bad or "computed once", wh)

"""C12: assembly back end, stack frames: storage of locals, parameters and temporaries, and zero initialisation."""
from gen import *
from asm import SP0, BP0, addr_split, byte, cat
from fw import where
from c_c11 import fn_obj, function, offset_of, classify, ALL, SCAL, AGG, I8, I16, I32, I64, F32, F64, F80, U8, PTR, sig

LOC = {**ALL, "i32'c[1]": carr(I32, 1), "u8'c[3]": carr(U8, 3), "i16'c[9]": carr(I16, 9), "f64'c[5]": carr(F64, 5), "i32[4]": arr(I32, 4), "u8[3]": arr(U8, 3), "i64[0]": arr(I64, 0),
       "alias-i32[4]": alias(arr(I32, 4)), "alias-i16'c[5]": alias(carr(I16, 5)), "{u8,i32[2]}": struct(U8, arr(I32, 2)), "{i8,{i64,i8},i16}": struct(I8, struct(I64, I8), I16),
       "struct'c[3]": carr(struct(I64, I8), 3), "vla": Ty("TY_VLA", base=I32, size=8)}


def layouts():
    out = [[]]
    out += [[t] for t in LOC.values()]
    pool = list(LOC.values())
    st = 99
    for i in range(120):
        ts = []
        for _ in range(1 + i % 8):
            st = (st * 6364136223846793005 + 1442695040888963407) & asm.M64
            ts.append(pool[(st >> 33) % len(pool)])
        out.append(ts)
    for t in LOC.values():
        out.append([U8, t, U8, t, I64])
    return out


def body(c, p):
    c.rule("Whole functions are emitted for lists of parameters and locals of every shape: the frame offsets assigned to locals, register parameters, the result pointer and the variadic "
           "area must denote disjoint, aligned intervals between the saved registers and the stack pointer the prologue establishes; entering a block must set every byte of its locals to "
           "zero, store the length of arrays, and change no other frame byte.")
    c.require(300)
    err = Errors(p)
    ls = layouts()
    ret = [None, I64, AGG["{i64x3}"], AGG["{f64,i64}"]]
    argsets = [[], [I32], [I8, F32, AGG["{u8x3}"]], [AGG["{i64x3}"], F80, I64], [I64] * 8 + [F64] * 10, [AGG["{f64,i64}"]] * 5, [AGG["{u8'c[5]}"], SCAL["bool"]]]
    wh = where(p.fn("asm_assign_lvar_offsets"))
    for i, ts in enumerate(ls):
        for v in (False, True):
            if v and i % 5:
                continue
            a = argsets[i % len(argsets)]
            r = ret[i % len(ret)]
            bad = frame(c, p, err, a, r, ts, v)
            c.ob("frame%d%s%s" % (i, sig(a + ts, r), "..." if v else ""), bad is None, bad or "disjoint", wh)
    two(c, p, err)
    nested_objs(c, p, err)
    wb = where(p.fn("asm_gen_stmt"))
    for i, ts in enumerate(ls):
        bad = block(c, p, err, ts)
        c.ob("block%d%s" % (i, sig(ts)), bad is None, bad or "zeroed", wb)


def intervals(em, types, locals_, ret, variadic):
    """[(name, type, start, end)] of everything stored in the frame, relative to rbp"""
    w = em.w
    out = []
    for k, (os, ts) in {"parameter": (w.args, types), "local": (w.locals, locals_)}.items():
        for i, (o, t) in enumerate(zip(os, ts)):
            out.append(("%s %d (%r)" % (k, i, t), t, offset_of(em, o)))
    if w.rptr is not None:
        out.append(("result pointer", I64, offset_of(em, w.rptr)))
    if w.va is not None:
        out.append(("variadic area", Ty("TY_U64", size=136, align=8), offset_of(em, w.va)))
    return out


def frame(c, p, err, types, ret, locals_, variadic):
    em = function(c, p, err, lambda w: fn_obj(w, types, ret, variadic, locals_=locals_))
    if em.errors or em.path.end != "return":
        return "not emitted (%s)" % (em.errors or em.path.end)
    text = em.text()
    try:
        ss = Machine(em.code, Kids({})).run(start=em.code.target("func", 0) or 0)
    except AsmError as e:
        return "%s in: %s" % (e, text)
    k = [x for x in ss[0].trace if x[0] == "child"]
    if len(ss) != 1 or len(k) != 1:
        return "%d paths, body evaluated %d times: %s" % (len(ss), len(k), text)
    b, bp = addr_split(k[0][9]["rbp"])
    sp = k[0][4]
    if b is not SP0 or not isinstance(sp, int):
        return "frame pointer %s: %s" % (show(k[0][9]["rbp"]), text)
    low = sp - bp           # lowest frame address, relative to rbp
    iv = intervals(em, types, locals_, ret, variadic)
    seen = []
    for name, t, off in iv:
        if not isinstance(off, int):
            return "%s has no frame offset" % name
        if off > 0:
            # passed on the stack, by the caller
            if not name.startswith("parameter") or off < 8 - bp:
                return "%s lies at %d(%%rbp), over the saved registers or the caller's frame" % (name, off)
        elif off < low or off + t.size > 0:
            return "%s at %d(%%rbp), size %d, lies outside the frame of %d bytes: %s" % (name, off, t.size, -low, text)
        if off % min(t.align, 16) and off < 0:
            return "%s at %d(%%rbp) is not aligned to %d" % (name, off, t.align)
        for n2, o2, e2 in seen:
            if t.size and off < e2 and o2 < off + t.size:
                return "%s at %d(%%rbp) overlaps %s at %d" % (name, off, n2, o2)
        if t.size:
            seen.append((name, off, off + t.size))
    return None


def two(c, p, err):
    """offsets of one function do not depend on the functions before it, and namespaces are entered"""
    f = p.fn("asm_assign_lvar_offsets")
    for order in (0, 1):
        for ns in (False, True):
            hold = {}

            def build(w):
                fns, obs = [], []
                for ts in (([I64, I64], [I32, carr(U8, 40)]), ([F64], [I8])):
                    fns.append(fn_obj(w, ts[0], None, False, locals_=ts[1]))
                    obs.append((w.args, w.locals, ts))
                w.obs = obs
                hold["w"] = w
                lst = list(reversed(fns)) if order else fns
                arg = list_of(w.I, lst)
                if ns:
                    arg = list_of(w.I, [w.obj(kind="OBJ_NAMESPACE", objs=lst), w.obj(kind="OBJ_TYPEDEF")])
                return [(f, [w.cg(), arg])]
            em = emit(c, p, err, build)
            bad = None
            w = hold["w"]
            if len(em) != 1 or em[0].path.end != "return":
                bad = "not emitted"
            else:
                em[0].mem = w.mem
                em[0].w = w
                for args, locs, (ta, tl) in w.obs:
                    offs = [offset_of(em[0], o) for o in args + locs]
                    if not all(isinstance(o, int) and o < 0 for o in offs):
                        bad = "objects without storage: %s" % offs
            c.ob("functions:%s:%s" % ("reversed" if order else "in order", "namespace" if ns else "top level"), bad is None, bad or "", where(f))


def nested_objs(c, p, err):
    """the stack pointer stays 16-byte aligned whatever the size of the frame"""
    for n in (0, 1, 7, 8, 9, 15, 16, 17, 24, 31, 40, 100, 4095):
        t = carr(U8, n) if n else None
        bad = frame(c, p, err, [I8], None, [t] if t else [], False)
        if bad is None:
            em = function(c, p, err, lambda w: fn_obj(w, [I8], None, False, locals_=[t] if t else []))
            ss = Machine(em.code, Kids({})).run(start=em.code.target("func", 0) or 0)
            k = [x for x in ss[0].trace if x[0] == "child"][0]
            if k[4] % 16 != 8:
                bad = "the body runs with the stack at entry%+d: %s" % (k[4], em.text())
        c.ob("frame-size:%d" % n, bad is None, bad or "aligned", where(p.fn("asm_gen_function")))


def block(c, p, err, types):
    f = p.fn("asm_gen_stmt")
    offs = []
    o = -16
    for t in types:
        o -= t.size
        o = -(-(-o) // 16) * -16 - 16
        offs.append(o)

    def build(w):
        locs = [w.obj(kind="OBJ_LOCAL", data_type=t, offset=k, id=w.ident("l%d" % i)) for i, (t, k) in enumerate(zip(types, offs))]
        return [(f, [w.cg(current_fn_name="f"), w.node("ND_BLOCK", locals=locs, stmts=[w.kid("S", kind="ND_CALL")])])]
    em = emit(c, p, err, build)
    if len(em) != 1 or em[0].errors or em[0].path.end != "return":
        return "not emitted (%s)" % [(e.errors, e.path.end) for e in em][:2]
    text = em[0].text()
    try:
        ss = Machine(em[0].code, Kids({})).run()
    except AsmError as e:
        return "%s in: %s" % (e, text)
    k = [x for x in ss[0].trace if x[0] == "child"]
    if len(ss) != 1 or len(k) != 1 or k[0][4] != 0:
        return "the statement is evaluated %d times on %d paths: %s" % (len(k), len(ss), text)
    mem = k[0][10]
    for i, (t, off) in enumerate(zip(types, offs)):
        want = [0] * t.size
        if t.kind == "TY_ARRAY":
            want[:8] = list(t.num.to_bytes(8, "little"))
        for j in range(t.size):
            got = mem.get((BP0, off + j))
            if not (isinstance(got, int) and got == want[j]):
                return "byte %d of local %d (%r) is %s at the start of the block: %s" % (j, i, t, show(got) if got is not None else "not initialised", text)
    ok = {off + j for t, off in zip(types, offs) for j in range(t.size)}
    for (b, a) in mem:
        if b is not BP0 or a not in ok:
            return "entering the block writes %s%+d, outside its locals: %s" % (show(b), a, text)
    if keeps(ss[0]):
        return "changes %%%s: %s" % (keeps(ss[0]), text)
    return None

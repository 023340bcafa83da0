"""C11: assembly back end, calls follow the System V calling convention on both sides."""
import hashlib
from gen import *
from asm import SP0, BP0, addr_split, byte, cat
from fw import where
from c_c06 import IT

GP = ["rdi", "rsi", "rdx", "rcx", "r8", "r9"]
I8, I16, I32, I64, U8, U16, U32, U64 = (T("TY_" + k) for k in ("I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64"))
F32, F64, F80, CHAR, BOOL, ENUM = T("TY_F32"), T("TY_F64"), T("TY_F80"), T("TY_CHAR"), T("TY_BOOL"), T("TY_ENUM")
PTR = ptr(T("TY_VOID"))
FLOATS = ("TY_F32", "TY_F64")


def union(*ms):
    t = struct(*ms)
    t.offs = [0] * len(ms)
    t.size = max(m.size for m in ms)
    t.align = max(m.align for m in ms)
    t.size = -(-t.size // t.align) * t.align
    t.kw = {"is_union": 1}
    return t


SCAL = {"i8": I8, "i16": I16, "i32": I32, "i64": I64, "u8": U8, "u16": U16, "u32": U32, "u64": U64, "char": CHAR, "bool": BOOL, "enum": ENUM,
        "ptr": PTR, "f32": F32, "f64": F64, "f80": F80, "alias-i32": alias(I32), "alias-f64": alias(F64), "alias-f32": alias(F32), "alias-ptr": alias(PTR)}
AGG = {"{i64}": struct(I64), "{i32}": struct(I32), "{i8}": struct(I8), "{i16}": struct(I16), "{u8x3}": struct(U8, U8, U8), "{i8,i32}": struct(I8, I32), "{i32x3}": struct(I32, I32, I32),
       "{i64,i64}": struct(I64, I64), "{i64,i8}": struct(I64, I8), "{ptr,i32}": struct(PTR, I32), "{f32}": struct(F32), "{f64}": struct(F64), "{f32,f32}": struct(F32, F32),
       "{f32x3}": struct(F32, F32, F32), "{f32x4}": struct(F32, F32, F32, F32), "{f64,f64}": struct(F64, F64), "{f64,f32}": struct(F64, F32), "{i64,f64}": struct(I64, F64),
       "{f64,i64}": struct(F64, I64), "{i32,f32}": struct(I32, F32), "{f32,i32}": struct(F32, I32), "{f32,i32,f64}": struct(F32, I32, F64), "{f64,i32}": struct(F64, I32),
       "{f64,i8}": struct(F64, I8), "{i32,i32,f32}": struct(I32, I32, F32), "{{f32,f32},f64}": struct(struct(F32, F32), F64), "{{i32},{f32},f64}": struct(struct(I32), struct(F32), F64),
       "{f32'c[4]}": struct(carr(F32, 4)), "{i32'c[3]}": struct(carr(I32, 3)), "{i64x3}": struct(I64, I64, I64), "{i64,i32,i64}": struct(I64, I32, I64),
       "{f64x3}": struct(F64, F64, F64), "{i64x2,i8}": struct(I64, I64, I8), "{u8'c[17]}": struct(carr(U8, 17)), "{u8'c[5]}": struct(carr(U8, 5)),
       "union{i64,f64}": union(I64, F64), "union{f64,f32}": union(F64, F32), "alias-{f64,i64}": alias(struct(F64, I64)), "alias-{i64x3}": alias(struct(I64, I64, I64))}
ALL = {**SCAL, **AGG}


def leaves(t, off=0):
    if t.kind == "TY_STRUCT":
        for m, o in zip(t.members, t.offs):
            yield from leaves(m, off + o)
    elif t.kind == "TY_C_ARRAY":
        for i in range(t.num):
            yield from leaves(t.base, off + i * t.base.size)
    else:
        yield off, t


def eightbytes(t):
    """classes of the eightbytes of a struct, None for memory"""
    if t.size > 16:
        return None
    ls = list(leaves(t))
    return ["fp" if all(l.kind in FLOATS for o, l in ls if o // 8 == k) else "gp" for k in range(-(-t.size // 8))]


def data_bytes(t):
    """offsets of the bytes that hold data (not padding)"""
    return sorted({o + k for o, l in leaves(t) for k in range(10 if l.kind == "TY_F80" else l.size)})


def classify(types, ret):
    """-> ([[(place, index or stack offset, byte offset in the value, bytes)]], gp used, fp used, stack bytes)"""
    gp = fp = st = 0
    if ret is not None and ret.kind == "TY_STRUCT" and ret.size > 16:
        gp = 1
    out = []
    for t in types:
        if t.kind in FLOATS:
            want = ["fp"]
        elif t.kind == "TY_F80":
            want = None
        elif t.kind == "TY_STRUCT":
            want = eightbytes(t)
        else:
            want = ["gp"]
        if want is not None and gp + want.count("gp") <= 6 and fp + want.count("fp") <= 8 or (
                want is not None and not (want.count("gp") and gp + want.count("gp") > 6) and not (want.count("fp") and fp + want.count("fp") > 8)):
            loc = []
            for k, cl in enumerate(want):
                n = min(8, t.size - 8 * k)
                if cl == "gp":
                    loc.append(("gp", gp, 8 * k, n))
                    gp += 1
                else:
                    loc.append(("fp", fp, 8 * k, n))
                    fp += 1
            out.append(loc)
        else:
            out.append([("st", st, 0, t.size)])
            st += 16 if t.kind == "TY_F80" else -(-t.size // 8) * 8
    return out, gp, fp, st


def rnd(env_seed):
    """values for every leaf term, derived from its text"""
    class Env(dict):
        def __contains__(self, t):
            return t.op in ("val", "addr", "init", "cret", "junk", "BP", "SP", "sym", "x80", "imm", "m")

        def __getitem__(self, t):
            if t.op == "m":
                b = t.a[0]
                return h(("m", show(b) if b is not None else "", t.a[1])) & 255
            return h(show(t))

        def get(self, t, d=None):
            return self[t] if t in self else d

    def h(x):
        return int.from_bytes(hashlib.sha256(repr((env_seed, x)).encode()).digest()[:8], "little")
    return Env()


ENVS = [rnd(i) for i in range(3)]


def eq(a, b, w=8):
    """two terms agree in their low w bits"""
    if isinstance(a, (int, Sym)) and isinstance(b, (int, Sym)):
        a, b = lo(a, w), lo(b, w)
        if a is b or a == b:
            return True
    try:
        return all((ev(a, e) ^ ev(b, e)) & ((1 << w) - 1) == 0 for e in ENVS)
    except NoValue:
        return False


def source_byte(t, name, k):
    """byte k of the value of child `name`"""
    if t.kind == "TY_STRUCT":
        return S("m", S("addr", name, 0), k)
    if t.kind == "TY_F80":
        return S("byte", k, S("x80", S("val", name, 0)))
    return byte(S("val", name, 0), k)


def at(regs, x, mem, sp, loc, k):
    """the byte k of the part `loc` of an argument as the callee sees it at a call"""
    place, i, off, n = loc
    if place == "gp":
        return byte(regs[GP[i]], k)
    if place == "fp":
        return byte(x[i], k)
    return mem.get((SP0, sp + i + k), S("unwritten", sp + i + k))


def sig(types, ret=None):
    names = {id(v): k for k, v in ALL.items()}
    return "(%s)%s" % (",".join(names.get(id(t), repr(t)) for t in types), ":" + names.get(id(ret), repr(ret)) if ret is not None else "")


def signatures():
    out = []
    for t in ALL.values():
        out.append([t])
    for k in (4, 5, 6):
        for t in ALL.values():
            out.append([I64] * k + [t, I32])
    for k in (6, 7, 8):
        for t in ALL.values():
            out.append([F64] * k + [t, F32])
    for t in ALL.values():
        out.append([I64] * 6 + [F32] * 8 + [t, I64, F64, t])
        out.append([t, t, t, t, t])
        out.append([I32, F32, t, F64, t, I8, t])
    pool = list(ALL.values())
    st = 12345
    for _ in range(150):
        n = None
        ts = []
        for _ in range(12):
            st = (st * 6364136223846793005 + 1442695040888963407) & asm.M64
            if n is None:
                n = 1 + (st >> 33) % 12
                continue
            if len(ts) < n:
                ts.append(pool[(st >> 33) % len(pool)])
        out.append(ts)
    return out


RETS = [None] + list(ALL.values())


def body(c, p):
    c.rule("Calls are emitted for signatures over every scalar and aggregate shape: at the call instruction each argument's bytes must be in the registers and stack slots the System V "
           "convention assigns, evaluated once each, the stack aligned to 16 bytes, %al bounding the vector registers of variadic calls; afterwards the stack is balanced and the result "
           "has the callee's value. Function prologues must leave each parameter's bytes at its frame slot, a return must place the value where the caller expects it, and the epilogue "
           "must restore the stack, frame and callee-saved registers.")
    c.require(900)
    err = Errors(p)
    sigs = signatures()
    for i, ts in enumerate(sigs):
        bad = caller(c, p, err, ts, None, depth=i % 2, variadic=i % 3 == 0)
        c.ob("call%d%s" % (i, sig(ts)), bad is None, bad or "arguments placed", where(p.fn("asm_push_args")))
    for i, r in enumerate(RETS):
        for nm, ts in (("none", []), ("int", [I32]), ("mixed", [F64, AGG["{f64,i64}"], I64, AGG["{i64x3}"]]), ("full", [I64] * 7 + [F64] * 9), ("odd", [AGG["{i64x3}"]])):
            for d in (0, 1):
                for via in ("direct", "local", "argument"):
                    if via != "direct" and (nm not in ("none", "mixed") or d):
                        continue
                    bad = caller(c, p, err, ts, r, depth=d, via=via)
                    c.ob("result:%s:%s:%d:%s" % (sig([], r), nm, d, via), bad is None, bad or "result received", where(p.fn("asm_gen_expr")))
    for i, ts in enumerate(sigs):
        bad = callee(c, p, err, ts, RETS[i % len(RETS)], variadic=i % 4 == 0)
        c.ob("function%d%s" % (i, sig(ts, RETS[i % len(RETS)])), bad is None, bad or "parameters received", where(p.fn("asm_gen_function")))
    for r in ALL.values():
        bad = returns(c, p, err, r)
        c.ob("return:" + sig([], r), bad is None, bad or "value returned", where(p.fn("asm_gen_stmt")))
    unpacked(c, p, err)
    indexed(c, p, err)


def ident(I, a, e):
    """the assembler name of an identifier: its own (naming is another property)"""
    return I.value(I.load(I.deref_loc(a[1]) + (("f", "callee"),)))


IDENT = {"asm_gen_identifier": ident}


def caller(c, p, err, types, ret, depth=0, variadic=False, via="direct"):
    f = p.fn("asm_gen_expr")
    rt = ret if ret is not None else T("TY_VOID")

    def build(w):
        cg = w.cg(depth=depth, current_fn_name="f")
        ft = Ty("TY_FN", base=rt, variadic=variadic)
        fid = w.ident("target")
        fn = w.obj(kind={"direct": "OBJ_FUNCTION", "local": "OBJ_LOCAL", "argument": "OBJ_FN_ARG"}[via], data_type=ft, id=fid, return_type=rt, args=[],
                   **({} if via == "direct" else {"offset": -72 if via == "local" else 24}))
        idn = w.node("ND_ID", referenced_obj=fn, id=fid, data_type=ft)
        kw = {}
        if rt.kind == "TY_STRUCT":
            kw["return_buffer"] = w.obj(kind="OBJ_LOCAL", offset=-160, data_type=rt)
        args = [w.kid("A%d" % i, t, kind="ND_CALL") for i, t in enumerate(types)]
        return [(f, [cg, w.node("ND_CALL", expr=idn, called_obj=fn, referenced_obj=fn, args=args, data_type=rt, **kw)])]
    kt = {"A%d" % i: t for i, t in enumerate(types)}
    ems = emit(c, p, err, build, extra=IDENT)
    if len(ems) != 1:
        raise AnalysisBroken("%d emission paths for a call" % len(ems))
    em = ems[0]
    if em.errors or em.path.end != "return":
        return "not emitted (%s)" % (em.errors or em.path.end)
    text = em.text()

    def on_call(st, t):
        if rt.kind == "TY_F80":
            st.fp.append(S("cret", "st0", 0))
    try:
        ss = Machine(em.code, Kids(kt), on_call=on_call).run()
    except AsmError as e:
        return "%s in: %s" % (e, text)
    if len(ss) != 1 or ss[0].end != ("fall",):
        return "a call without conditions branches: " + text
    s = ss[0]
    kids = [x for x in s.trace if x[0] == "child"]
    if sorted(x[2] for x in kids) != sorted(kt) or any(x[1] != "val" for x in kids):
        return "arguments evaluated: %s: %s" % ([x[2] for x in kids], text)
    for x in kids:
        if (x[4] - 8 * 0 + 8 * (x[5] - depth)) != 0:
            return "argument %s is evaluated at stack offset %s with depth %s recorded: %s" % (x[2], x[4], x[5], text)
    cs = [x for x in s.trace if x[0] == "call"]
    if len(cs) != 1:
        return "%d call instructions: %s" % (len(cs), text)
    _, target, regs, x, mem, sp = cs[0]
    want_t = {"direct": None, "local": [S("m", BP0, -72 + k) for k in range(8)], "argument": [S("m", BP0, 24 + k) for k in range(8)]}[via]
    if want_t is None:
        if not (isinstance(target, Sym) and target.op == "sym" and target.a[0] == "target"):
            return "calls %s instead of the function: %s" % (show(target), text)
    elif not eq(target, cat(want_t), 64):
        return "calls %s instead of the function pointer's value: %s" % (show(target), text)
    if not isinstance(sp, int) or (sp - 8 * depth) % 16:
        return "the stack pointer is off by %s bytes at the call (depth %d): misaligned: %s" % (sp, depth, text)
    locs, gp, fp, st = classify(types, ret)
    if ret is not None and rt.kind == "TY_STRUCT" and rt.size > 16 and addr_split(regs["rdi"]) != (BP0, -160):
        return "the result buffer is not passed in rdi but %s: %s" % (show(regs["rdi"]), text)
    for i, (t, ls) in enumerate(zip(types, locs)):
        good = set(data_bytes(t))
        for loc in ls:
            for k in range(loc[3]):
                if loc[2] + k not in good:
                    continue
                got = at(regs, x, mem, sp, loc, k)
                if not eq(got, source_byte(t, "A%d" % i, loc[2] + k)):
                    return "byte %d of argument %d (%r) should be in %s%s%s but that holds %s: %s" % (
                        loc[2] + k, i, t, loc[0], loc[1], "" if loc[0] != "st" else "(%rsp)", show(got), text)
    if variadic:
        a = lo(regs["rax"], 8)
        if not isinstance(a, int) or not fp <= a <= 8:
            return "%%al is %s for a variadic call using %d vector registers: %s" % (show(a), fp, text)
    if M.spoff(s) != 0:
        return "the stack is off by %s bytes after the call: %s" % (M.spoff(s), text)
    if keeps(s):
        return "changes %%%s: %s" % (keeps(s), text)
    n = s.trace.index(cs[0])
    return result(s, rt, n, text)


def result(s, rt, n, text):
    k = rt.kind
    if len(s.fp) != (1 if k == "TY_F80" else 0):
        return "%d values on the x87 stack: %s" % (len(s.fp), text)
    if k == "TY_VOID":
        return None
    if k == "TY_F80":
        return None if s.fp[0] is S("cret", "st0", 0) else "wrong x87 result: " + text
    if k in FLOATS:
        return None if eq(s.x[0], S("cret", "xmm0", n), FLT[k]) else "the result in xmm0 is lost: %s: %s" % (show(s.x[0]), text)
    if k != "TY_STRUCT":
        bits, sg = IT[k]
        cr = S("cret", "rax", n)
        for g in (0, 0x123456789abcdef0, asm.M64):
            for v in int_samples(bits, sg) if k != "TY_BOOL" else (0, 1):
                raw = (g & ~((1 << bits) - 1)) | (v & ((1 << bits) - 1))
                got = ev(s.r["rax"], {cr: raw}) & ((1 << max(bits, 32)) - 1)
                want = v & ((1 << max(bits, 32)) - 1)
                if got != want:
                    return "a returned value of %d (rax %#x) is received as %#x: %s" % (v, raw, got, text)
        return None
    if rt.size > 16:
        if s.r["rax"] is S("cret", "rax", n) or addr_split(s.r["rax"]) == (BP0, -160):
            return None
        return "the struct result's address is %s: %s" % (show(s.r["rax"]), text)
    if addr_split(s.r["rax"]) != (BP0, -160):
        return "the struct result's address is %s instead of its buffer: %s" % (show(s.r["rax"]), text)
    gp = fp = 0
    good = set(data_bytes(rt))
    for e, cl in enumerate(eightbytes(rt)):
        if cl == "gp":
            src = S("cret", ("rax", "rdx")[gp], n)
            gp += 1
        else:
            src = S("cret", ("xmm0", "xmm1")[fp], n)
            fp += 1
        for b in range(8 * e, min(8 * e + 8, rt.size)):
            if b not in good:
                continue
            got = s.mem.get((BP0, -160 + b), S("unwritten", b))
            if not eq(got, byte(src, b - 8 * e)):
                return "byte %d of the returned struct is %s, should come from %s: %s" % (b, show(got), show(src), text)
    for (b, o) in s.mem:
        if b is BP0 and not -160 <= o < -160 + rt.size:
            return "receiving the struct writes outside its buffer at %d(%%rbp): %s" % (o, text)
    return None


def fn_obj(w, types, ret, variadic, body=None, locals_=()):
    """a function object the way the parser and validator leave it"""
    rt = ret if ret is not None else T("TY_VOID")
    ft = Ty("TY_FN", base=rt, variadic=variadic)
    args = [w.obj(kind="OBJ_FN_ARG", data_type=t, id=w.ident("a%d" % i)) for i, t in enumerate(types)]
    locs = [w.obj(kind="OBJ_LOCAL", data_type=t, id=w.ident("l%d" % i)) for i, t in enumerate(locals_)]
    fid = w.ident("func")
    kw = {}
    if rt.size > 16:
        kw["return_ptr"] = w.obj(kind="OBJ_LOCAL", data_type=ptr(rt))
    if variadic:
        kw["va_area"] = w.obj(kind="OBJ_LOCAL", data_type=carr(U8, 136), id=w.ident("ap"))
    alloca = w.obj(kind="OBJ_LOCAL", data_type=Ty("TY_U64"))
    fn = w.obj(kind="OBJ_FUNCTION", data_type=ft, id=fid, return_type=rt, args=args, objs=locs, alloca_bottom=alloca, body=body or w.kid("BODY", kind="ND_BLOCK"), **kw)
    w.fn, w.args, w.locals, w.alloca, w.rptr, w.va = fn, args, locs, alloca, kw.get("return_ptr"), kw.get("va_area")
    return fn


def offset_of(em, o):
    """frame offset the generator assigned to an object"""
    I = em.w.I
    v = em.mem.get(I.deref_loc(o) + (("f", "offset"),)) if o is not None else None
    return v


def function(c, p, err, make):
    """emit a whole function; make(w) -> (fn object, cg)"""
    f1, f2 = p.fn("asm_assign_lvar_offsets"), p.fn("asm_gen_function")
    hold = {}

    def build(w):
        cg = w.cg(depth=0)
        fn = make(w)
        hold["w"] = w
        return [(f1, [cg, list_of(w.I, [fn])]), (f2, [cg, fn])]
    ems = emit(c, p, err, build, extra=IDENT)
    if len(ems) != 1:
        raise AnalysisBroken("%d emission paths for a function" % len(ems))
    em = ems[0]
    em.w = hold["w"]
    em.mem = getattr(em.w, "mem", {})
    return em


def callee(c, p, err, types, ret, variadic=False):
    em = function(c, p, err, lambda w: fn_obj(w, types, ret, variadic))
    if em.errors or em.path.end != "return":
        return "not emitted (%s)" % (em.errors or em.path.end)
    text = em.text()
    w = em.w
    # on entry the return address is at (rsp): SP0 is the stack pointer inside the frame of the caller plus 8
    locs, gp, fp, st = classify(types, ret)
    try:
        st0 = fresh_state()
        ss = Machine(em.code, Kids({})).run(st0, start=em.code.target("func", 0) or 0)
    except AsmError as e:
        return "%s in: %s" % (e, text)
    if len(ss) != 1:
        return "the prologue branches: " + text
    s = ss[0]
    kid = [x for x in s.trace if x[0] == "child"]
    if [x[2] for x in kid] != ["BODY"]:
        return "the body is run %d times: %s" % (len(kid), text)
    k = kid[0]
    regs, mem, x = k[9], k[10], k[11]
    b, o = addr_split(regs["rbp"])
    if b is not SP0:
        return "the frame pointer is %s in the body: %s" % (show(regs["rbp"]), text)
    if not isinstance(k[4], int) or (k[4] + 8) % 16 != 0 and (k[4] - 8) % 16 != 0:
        return "the stack pointer is off by %s bytes in the body: %s" % (k[4], text)
    if k[4] % 16 != 8:
        # at entry rsp = 16n + 8; a body with depth 0 must see a multiple of 16
        return "the body runs with a misaligned stack (entry %+d): %s" % (k[4], text)

    def frame_byte(off):
        a = o + off
        v = mem.get((SP0, a))
        return S("m", SP0, a) if v is None else v

    def incoming(loc, j):
        place, i, off, n = loc
        if place == "gp":
            return byte(S("init", GP[i]), j)
        if place == "fp":
            return byte(S("init", "xmm%d" % i), j)
        return S("m", SP0, 8 + i + j)
    for i, (t, ls) in enumerate(zip(types, locs)):
        off = offset_of(em, w.args[i])
        if not isinstance(off, int):
            return "parameter %d has no frame offset" % i
        good = set(data_bytes(t))
        for loc in ls:
            for j in range(loc[3]):
                if loc[2] + j in good and not eq(frame_byte(off + loc[2] + j), incoming(loc, j)):
                    return "byte %d of parameter %d (%r), at %d(%%rbp), is %s instead of the incoming %s%s: %s" % (
                        loc[2] + j, i, t, off, show(frame_byte(off + loc[2] + j)), loc[0], loc[1], text)
    if w.rptr is not None:
        off = offset_of(em, w.rptr)
        if not isinstance(off, int) or any(not eq(frame_byte(off + j), byte(S("init", "rdi"), j)) for j in range(8)):
            return "the address of the result buffer is not saved: " + text
    if variadic:
        bad = va_area(em, frame_byte, o, gp, fp, st, text)
        if bad:
            return bad
    if s.end[0] != "ret":
        return "control ends with %s: %s" % (s.end, text)
    if addr_split(s.r["rsp"]) != (SP0, 8) and M.spoff(s) not in (0, 8):
        return "returns with the stack pointer off by %s: %s" % (M.spoff(s), text)
    if not eq(s.r["rbp"], BP0, 64):
        return "returns with rbp = %s: %s" % (show(s.r["rbp"]), text)
    if keeps(s):
        return "changes %%%s: %s" % (keeps(s), text)
    if not is_return_address(s):
        return "returns to %s: %s" % (s.end, text)
    return None


def is_return_address(s):
    v = s.end[1] if len(s.end) > 1 else None
    return v is None or eq(v, cat([S("m", SP0, k) for k in range(8)]), 64)


def va_area(em, fb, o, gp, fp, st, text):
    off = offset_of(em, em.w.va)
    if not isinstance(off, int):
        return "the variadic argument area has no offset"

    def word(k, n):
        return cat([fb(off + k + j) for j in range(n)])
    gpo, fpo = word(0, 4), word(4, 4)
    over, save = word(8, 8), word(16, 8)
    if not isinstance(gpo, int) or gpo != 8 * min(gp, 6):
        return "gp_offset is %s with %d named general registers: %s" % (show(gpo), gp, text)
    if not isinstance(fpo, int) or fpo != 48 + 8 * min(fp, 8):
        return "fp_offset is %s with %d named vector registers: %s" % (show(fpo), fp, text)
    b, a = addr_split(over)
    if b is not SP0 or a != 8 + st:
        return "the overflow area starts at %s, the unnamed stack arguments at %d: %s" % (show(over), 8 + st, text)
    b, a = addr_split(save)
    if b is not SP0:
        return "the register save area is %s: %s" % (show(save), text)
    for i in range(gp, 6):
        for j in range(8):
            if not eq(fb(a - o + 8 * i + j), byte(S("init", GP[i]), j)):
                return "unnamed general register argument %s is not in the save area: %s" % (GP[i], text)
    for i in range(fp, 8):
        for j in range(8):
            if not eq(fb(a - o + 48 + 8 * i + j), byte(S("init", "xmm%d" % i), j)):
                return "unnamed vector register argument xmm%d is not in the save area: %s" % (i, text)
    return None


def returns(c, p, err, r):
    def make(w):
        v = w.kid("V", r, kind="ND_CALL")
        return fn_obj(w, [I64, F64], r, False, body=w.node("ND_RETURN", return_val=v))
    em = function(c, p, err, make)
    if em.errors or em.path.end != "return":
        return "not emitted (%s)" % (em.errors or em.path.end)
    text = em.text()
    try:
        ss = Machine(em.code, Kids({"V": r})).run(fresh_state(), start=em.code.target("func", 0) or 0)
    except AsmError as e:
        return "%s in: %s" % (e, text)
    if len(ss) != 1 or ss[0].end[0] != "ret":
        return "control ends with %s: %s" % ([x.end for x in ss], text)
    s = ss[0]
    if [x[2] for x in s.trace if x[0] == "child"] != ["V"]:
        return "the returned expression is evaluated %d times: %s" % (len(s.trace), text)
    if keeps(s) or not eq(s.r["rbp"], BP0, 64):
        return "a callee-saved register is not restored: " + text
    k = r.kind
    if len(s.fp) != (1 if k == "TY_F80" else 0):
        return "%d values on the x87 stack: %s" % (len(s.fp), text)
    V = S("val", "V", 0)
    if k == "TY_F80":
        return None if s.fp == [V] else "the value is lost: " + text
    if k in FLOATS:
        return None if eq(s.x[0], V, FLT[k]) else "the value is lost: %s: %s" % (show(s.x[0]), text)
    if k != "TY_STRUCT":
        return None if eq(s.r["rax"], V, max(32, IT[k][0])) else "the value is lost: %s: %s" % (show(s.r["rax"]), text)
    A = S("addr", "V", 0)
    good = data_bytes(r)
    if r.size > 16:
        if not eq(s.r["rax"], S("init", "rdi"), 64):
            return "rax is %s instead of the result buffer: %s" % (show(s.r["rax"]), text)
        for b in good:
            got = s.mem.get((S("init", "rdi"), b))
            if got is None or not eq(got, S("m", A, b)):
                return "byte %d of the result buffer is %s: %s" % (b, show(got), text)
        for (b, o) in s.mem:
            if b is S("init", "rdi") and not 0 <= o < r.size:
                return "writes outside the result buffer: " + text
        return None
    gp = fp = 0
    for e, cl in enumerate(eightbytes(r)):
        reg = s.r[("rax", "rdx")[gp]] if cl == "gp" else s.x[fp]
        gp, fp = gp + (cl == "gp"), fp + (cl == "fp")
        for b in good:
            if 8 * e <= b < 8 * e + 8 and not eq(byte(reg, b - 8 * e), S("m", A, b)):
                return "byte %d of the struct is returned as %s: %s" % (b, show(byte(reg, b - 8 * e)), text)
    return None


UNPACK = {"i64'c[3]": carr(I64, 3), "i32'c[2]": carr(I32, 2), "f64'c[2]": carr(F64, 2), "i32[3]": arr(I32, 3), "u8'c[4]": carr(U8, 4), "f64[2]": arr(F64, 2), "ptr'c[8]": carr(PTR, 8),
          "{i64,i32}": struct(I64, I32), "{i32,f64,u8}": struct(I32, F64, U8), "{f64,f64}": struct(F64, F64), "{i64x3}": struct(I64, I64, I64), "alias-i64'c[2]": alias(carr(I64, 2)),
          "alias-{i32,i64}": alias(struct(I32, I64))}


def unpacked(c, p, err):
    """an unpacked array or struct passes its elements in order (or in reverse) as separate arguments of a variadic call"""
    f = p.fn("asm_gen_expr")
    for nm, t in UNPACK.items():
        for mode in ("UMODE_FTOB", "UMODE_BTOF"):
            for before in (0, 1, 4):
                def build(w):
                    ft = Ty("TY_FN", base=I32, variadic=True)
                    fid = w.ident("target")
                    fn = w.obj(kind="OBJ_FUNCTION", data_type=ft, id=fid, return_type=I32, args=[])
                    idn = w.node("ND_ID", referenced_obj=fn, id=fid, data_type=ft)
                    args = [w.kid("A%d" % i, I64, kind="ND_CALL") for i in range(before)]
                    args.append(w.kid("U", t, kind="ND_CALL", unpack_mode=p.enum(mode)))
                    return [(f, [w.cg(depth=0, current_fn_name="f"), w.node("ND_CALL", expr=idn, called_obj=fn, referenced_obj=fn, args=args, data_type=I32)])]
                em = emit(c, p, err, build, extra=IDENT)
                bad = None
                if len(em) != 1 or em[0].errors or em[0].path.end != "return":
                    bad = "not emitted (%s)" % [(e.errors, e.path.end) for e in em][:2]
                    text = ""
                else:
                    text = em[0].text()
                    bad = spread(em[0], t, mode == "UMODE_BTOF", before)
                c.ob("unpack:%s:%s:%d" % (nm, mode[6:], before), bad is None, (bad or "elements placed") + ": " + text, where(p.fn("asm_push_args")))


def spread(em, t, rev, before):
    if t.kind == "TY_STRUCT":
        el = list(zip(t.offs, t.members))
    else:
        h = 8 if t.kind == "TY_ARRAY" else 0
        el = [(h + i * t.base.size, t.base) for i in range(t.num)]
    if rev:
        el.reverse()
    try:
        ss = Machine(em.code, Kids({**{"A%d" % i: I64 for i in range(before)}, "U": t})).run()
    except AsmError as e:
        return str(e)
    cs = [x for x in ss[0].trace if x[0] == "call"]
    if len(ss) != 1 or len(cs) != 1:
        return "%d paths, %d calls" % (len(ss), len(cs))
    _, target, regs, x, mem, sp = cs[0]
    if not isinstance(sp, int) or sp % 16:
        return "misaligned stack at the call (%s)" % sp
    locs, gp, fp, st = classify([I64] * before + [e[1] for e in el], None)
    for i, ((off, et), ls) in enumerate(zip(el, locs[before:])):
        for loc in ls:
            for k in range(min(loc[3], et.size)):
                got = at(regs, x, mem, sp, loc, k)
                if not any(eq(got, S("m", S("addr", "U", o), off + k)) for o in range(len(el) + 1)):
                    return "element %d, byte %d should be in %s%s but that holds %s" % (i, k, loc[0], loc[1], show(got))
    a = lo(regs["rax"], 8)
    if not isinstance(a, int) or not fp <= a <= 8:
        return "%%al is %s with %d vector registers" % (show(a), fp)
    if M.spoff(ss[0]) != 0:
        return "the stack is off by %s after the call" % M.spoff(ss[0])
    return None


def indexed(c, p, err):
    """an element of an array, from the front or the back, is an argument like any other wherever it goes"""
    f = p.fn("asm_gen_expr")
    for t in (carr(I64, 4), arr(I64, 4)):
        for back in (0, 1):
            for pos in range(9):
                for count in {pos + 1, 9}:
                    def build(w):
                        ft = Ty("TY_FN", base=I32)
                        fid = w.ident("target")
                        fn = w.obj(kind="OBJ_FUNCTION", data_type=ft, id=fid, return_type=I32, args=[])
                        idn = w.node("ND_ID", referenced_obj=fn, id=fid, data_type=ft)
                        args = [w.kid("A%d" % i, I64, kind="ND_CALL") for i in range(count)]
                        args[pos] = w.node("ND_INDEX", left=w.kid("U", t, kind="ND_CALL"), expr=w.node("ND_LONG", long_val=1, data_type=I64), from_back=back, data_type=I64)
                        return [(f, [w.cg(depth=0, current_fn_name="f"), w.node("ND_CALL", expr=idn, called_obj=fn, referenced_obj=fn, args=args, data_type=I32)])]
                    em = emit(c, p, err, build, extra=IDENT)
                    bad, text = None, ""
                    try:
                        text = em[0].text()
                        ss = Machine(em[0].code, Kids({**{"A%d" % i: I64 for i in range(count)}, "U": t})).run()
                        cs = [x for x in ss[0].trace if x[0] == "call"]
                        if len(em) != 1 or len(ss) != 1 or len(cs) != 1 or em[0].errors:
                            bad = "%d emissions, %d paths, %d calls" % (len(em), len(ss), len(cs))
                        else:
                            _, target, regs, x, mem, sp = cs[0]
                            locs = classify([I64] * count, None)[0]
                            A = S("addr", "U", 0)
                            for i, ls in enumerate(locs):
                                got = cat([at(regs, x, mem, sp, ls[0], k) for k in range(8)])
                                if i != pos:
                                    good = eq(got, S("val", "A%d" % i, 0), 64)
                                else:
                                    h = 8 if t.kind == "TY_ARRAY" else 0
                                    good = is_element(got, A, h, t.num, 3 if back else 1)
                                if not good:
                                    bad = "argument %d holds %s" % (i, show(got))
                                    break
                    except AsmError as e:
                        bad = str(e)
                    c.ob("element:%s:%s:%d/%d" % ("c-array" if t.kind == "TY_C_ARRAY" else "array", "back" if back else "front", pos, count), bad is None,
                         (bad or "placed") + ": " + text, where(p.fn("asm_push_args")))


def is_element(got, A, h, num, k):
    """got is the 8-byte element k of an array at A whose length word (when it has one) holds num"""
    base = 0x10000

    class Env(dict):
        def __contains__(self, t):
            return t is A or t.op in ("junk", "init")

        def __getitem__(self, t):
            return base if t is A else 0x5555

        def get(self, t, d=None):
            return self[t] if t in self else d
    image = (num.to_bytes(8, "little") if h else b"") + b"".join(((i + 1) * 0x0101010101010101).to_bytes(8, "little") for i in range(num))
    e = Env()
    e_mem = lambda a: image[a - base] if 0 <= a - base < len(image) else 0xee
    dict.__setitem__(e, "mem", e_mem)

    class Both(Env):
        def __contains__(self, t):
            return t == "mem" or (not isinstance(t, str) and Env.__contains__(self, t))

        def __getitem__(self, t):
            return e_mem if t == "mem" else Env.__getitem__(self, t)
    try:
        return ev(got, Both()) == (k + 1) * 0x0101010101010101
    except NoValue:
        return False

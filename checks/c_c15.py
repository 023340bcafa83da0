"""C15: sizes, alignments and member offsets of types agree with the C layout rules."""
from gen import *
from fw import where
from c_c11 import union, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, F80, CHAR, BOOL, ENUM, PTR

FN = Ty("TY_FN", base=I32)
VLA = Ty("TY_VLA", base=I32)
DYN = Ty("TY_DYN")
BASE = {"i8": I8, "i16": I16, "i32": I32, "i64": I64, "u8": U8, "u16": U16, "u32": U32, "u64": U64, "f32": F32, "f64": F64, "f80": F80, "char": CHAR, "bool": BOOL, "enum": ENUM,
        "ptr": PTR, "fn": FN, "vla": VLA, "dyn": DYN}


def typeof(t):
    r = alias(t)
    r.typeof = True
    return r


def raw(w, t, cache, keep):
    """the type as the parser leaves it: no size, alignment or offsets yet; returns the outermost type"""
    I, p = w.I, w.p
    if id(t) in cache:
        return cache[id(t)]
    if t.alias:
        inner = Ty.__new__(Ty)
        inner.__dict__.update(t.__dict__)
        inner.alias = False
        keep.append(inner)
        b = raw(w, inner, cache, keep)
        if getattr(t, "typeof", False):
            u = w.obj(kind="TY_TYPEOF", size=0, align=0, num_indices=0, num_indices_node=w.obj(kind="ND_INT", data_type=b))
        else:
            u = w.obj(kind="TY_UNDEF", size=0, align=0, num_indices=0, base=b)
        cache[id(t)] = u
        return u
    kw = {"kind": t.kind, "size": 0, "align": 0, "num_indices": t.num or 0}
    if t.base is not None:
        kw["base"] = raw(w, t.base, cache, keep)
    if t.num is not None:
        kw["num_indices"] = t.num       # set when the array type itself is validated, before its size is needed
        kw["num_indices_node"] = w.obj(kind="ND_ULONG", ulong_val=t.num)
    if t.members is not None:
        ms = [w.obj(kind="ND_STRUCT_MEMBER", data_type=raw(w, m, cache, keep), offset=0) for m in t.members]
        kw["members"] = ms
        kw["is_union"] = t.kw.get("is_union", 0)
    u = w.obj(**kw)
    cache[id(t)] = u
    return u


def shapes():
    out = {}
    for n, t in BASE.items():
        out[n] = t
        out["alias-" + n] = alias(t)
        out["typeof-" + n] = typeof(t)
        out[n + "'c[3]"] = carr(t, 3)
        out[n + "[5]"] = arr(t, 5)
        for n2, t2 in BASE.items():
            out["{%s,%s}" % (n, n2)] = struct(t, t2)
        out["{%s,u8}x3" % n] = carr(struct(t, U8), 3)
        out["{u8,{%s,u8},u16}" % n] = struct(U8, struct(t, U8), U16)
        out["{u8,alias{%s,u8}}" % n] = struct(U8, alias(struct(t, U8)))
        out["{u8,alias-%s}" % n] = struct(U8, alias(t))
        out["{u8,%s'c[3],u8}" % n] = struct(U8, carr(t, 3), U8)
        out["{u8,%s[3],u8}" % n] = struct(U8, arr(t, 3), U8)
        out["u{%s,u8}" % n] = union(t, U8)
        out["u{u8,{%s,u8}}" % n] = union(U8, struct(t, U8))
        out["{u8,u{%s,u16'c[5]}}" % n] = struct(U8, union(t, carr(U16, 5)))
    out["{}"] = struct()
    out["i32'c[2]'c[3]"] = carr(carr(I32, 2), 3)
    out["i16[2][3]"] = arr(arr(I16, 2), 3)
    out["alias{i64,i8}'c[3]"] = alias(carr(alias(struct(I64, I8)), 3))
    out["{ptr-to-struct,u8}"] = struct(ptr(struct(I64, I8)), U8)
    P = struct(I64, I8)
    A = alias(P)
    out["{P,P}"] = struct(P, P)
    out["{A,A,u8}"] = struct(A, A, U8)
    out["{P,{P},P'c[2]}"] = struct(P, struct(P), carr(P, 2))
    out["u{P,{A}}"] = union(P, struct(A))
    pool = list(BASE.values())
    st = 5
    def rnd(n):
        nonlocal st
        st = (st * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        return (st >> 33) % n
    for i in range(150):
        def mk(d):
            k = rnd(9 if d else 5)
            if k < 5:
                return pool[rnd(len(pool))]
            if k == 5:
                return carr(mk(d - 1), 1 + rnd(4))
            if k == 6:
                return alias(mk(d - 1))
            return (struct if k == 7 else union)(*[mk(d - 1) for _ in range(1 + rnd(4))])
        out["random-%d" % i] = struct(*[mk(2) for _ in range(1 + rnd(6))])
    return out


def body(c, p):
    c.rule("The size and alignment computation is interpreted abstractly on types of every shape as the parser leaves them; the resulting size, alignment and member offsets (also of nested "
           "types) must equal the C layout computed independently, on a first and on a second computation; a struct that contains itself by value must be diagnosed.")
    c.require(700)
    err = Errors(p)
    entry = p.fn("validate_data_type")
    wh = where(p.fn("get_type_size_impl") if "get_type_size_impl" in p.fns else entry)
    I0 = {"throw_error": err.hook(), "validate_return_type": lambda I, a, e: None, "eval_constexpr": lambda I, a, e: a[1],
          "context_allocator_register": lambda I, a, e: None, "ast_type_to_str": lambda I, a, e: a[1]}
    names = set()
    for name, t in shapes().items():
        I = Interp(p, hooks=dict(I0), max_loop=40, max_paths=50)
        box = {}

        def go(I):
            w = World(I)
            cache, keep = {}, []
            ctx = I.new_heap("ctx", True)
            v = w.obj(context=ctx)
            ty = raw(w, t, cache, keep)
            out = []
            for _ in range(2):
                I.run_fn(entry, [v, ty])
                g = lambda o, f: I.value(I.load(I.deref_loc(o) + (("f", f),)))
                r = [("type", g(ty, "size"), g(ty, "align"), t.size, t.align)]

                def down(s, o, path):
                    if s.alias:
                        o = I.value(I.load(I.deref_loc(o) + (("f", "base"),))) if not getattr(s, "typeof", False) else None
                    if o is None or s.kind != "TY_STRUCT":
                        return
                    for k, m in enumerate(list_items(I, g(o, "members"))):
                        mt = g(m, "data_type")
                        r.append(("%s.%d" % (path, k), g(m, "offset"), g(mt, "size"), s.offs[k], s.members[k].size))
                        down(s.members[k], mt, "%s.%d" % (path, k))
                down(t, ty, "")
                out.append(r)
            return out
        try:
            ps = I.explore(go)
        except Exception as e:
            raise AnalysisBroken("%s: %s" % (name, e))
        c.seen(I, ps)
        bad = None
        if len(ps) != 1:
            bad = "the computation depends on something other than the type"
        for q in ps:
            if q.end != "return" or any(e[0] == "error" for e in q.events):
                bad = "the type is rejected (%s)" % [e for e in q.events if e[0] == "error"]
                continue
            for rnd_, r in enumerate(q.ret):
                for what, a, b, wa, wb in r:
                    if (a, b) != (wa, wb):
                        bad = bad or ("%s: size %s, alignment %s instead of size %s, alignment %s" if what == "type" else
                                      "member %s: offset %s, size %s instead of offset %s, size %s") % (what, show(a), show(b), wa, wb)
                        if rnd_ and "second" not in bad:
                            bad += " (second computation)"
        c.ob("layout:" + name, bad is None, bad or "C layout", wh)

    # structs containing themselves
    for name, mk in {"direct": lambda w, s: s, "alias": lambda w, s: w.obj(kind="TY_UNDEF", size=0, align=0, base=s),
                     "c-array": lambda w, s: w.obj(kind="TY_C_ARRAY", size=0, align=0, base=s, num_indices=2),
                     "array": lambda w, s: w.obj(kind="TY_ARRAY", size=0, align=0, base=s, num_indices=2),
                     "inner": lambda w, s: w.obj(kind="TY_STRUCT", size=0, align=0, is_union=0, members=[w.obj(kind="ND_STRUCT_MEMBER", data_type=s, offset=0)]),
                     "ptr": lambda w, s: w.obj(kind="TY_PTR", size=0, align=0, base=s)}.items():
        for n in (0, 1):
            for un in (0, 1):
                I = Interp(p, hooks=dict(I0), max_loop=40, max_paths=50)

                def go(I):
                    w = World(I)
                    ctx = I.new_heap("ctx", True)
                    v = w.obj(context=ctx)
                    s = w.obj(kind="TY_STRUCT", size=0, align=0, is_union=un)
                    ms = [w.obj(kind="ND_STRUCT_MEMBER", data_type=w.obj(kind="TY_I32", size=0, align=0), offset=0) for _ in range(n)]
                    w.set(s, members=ms + [w.obj(kind="ND_STRUCT_MEMBER", data_type=mk(w, s), offset=0)])
                    I.run_fn(entry, [v, s])
                try:
                    ps = I.explore(go)
                    c.seen(I, ps)
                    e = [any(ev[0] == "error" and err.is_error(p.enum(ev[1])) for ev in q.events) for q in ps]
                    ok = bool(ps) and ((not any(e)) if name == "ptr" else all(e))
                    msg = "a pointer to the struct itself is legal" if name == "ptr" else "a struct or union containing itself by value is accepted"
                except (Budget, RecursionError):
                    ok, msg = False, "the computation of a self-containing type does not end"
                c.ob("recursive:%s:%d:%d" % (name, n, un), ok, msg, wh)

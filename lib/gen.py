"""Building abstract inputs for the assembly generator and collecting what it emits."""
from csp import *
import asm
from asm import Code, Machine, AsmError, ev, NoValue, fresh_state, lo

INT = {"TY_I8": (8, True), "TY_I16": (16, True), "TY_I32": (32, True), "TY_I64": (64, True), "TY_U8": (8, False), "TY_U16": (16, False),
       "TY_U32": (32, False), "TY_U64": (64, False), "TY_CHAR": (8, True), "TY_BOOL": (8, False), "TY_ENUM": (32, True)}
FLT = {"TY_F32": 32, "TY_F64": 64, "TY_F80": 80}
SIZE = {"TY_I8": 1, "TY_I16": 2, "TY_I32": 4, "TY_I64": 8, "TY_U8": 1, "TY_U16": 2, "TY_U32": 4, "TY_U64": 8, "TY_F32": 4, "TY_F64": 8, "TY_F80": 16,
        "TY_CHAR": 1, "TY_BOOL": 1, "TY_VOID": 0, "TY_PTR": 8, "TY_ENUM": 4, "TY_FN": 8, "TY_VLA": 8}


class Ty:
    """shape of a type: kind, size, align, base, members, alias"""

    def __init__(self, kind, size=None, align=None, base=None, members=None, num=None, alias=False, variadic=False, **kw):
        self.kind = kind
        self.base, self.members, self.num = base, members, num
        self.size = size if size is not None else SIZE.get(kind)
        self.offs = None
        if kind == "TY_STRUCT":
            off, al = 0, 1
            self.offs = []
            for m in members:
                a = m.align
                off = -(-off // a) * a
                self.offs.append(off)
                off += m.size
                al = max(al, a)
            self.size = -(-off // al) * al if size is None else size
            align = align or al
        if kind in ("TY_C_ARRAY",):
            self.size = base.size * num
            align = base.align
        if kind == "TY_ARRAY":
            self.size = base.size * num + 8
            align = 8
        if kind == "TY_DYN":
            self.size, align = 16, 8
        self.align = align or max(1, self.size or 1)
        self.alias = alias
        self.variadic = variadic
        self.kw = kw

    def __repr__(self):
        n = self.kind[3:].lower()
        if self.kind == "TY_STRUCT":
            n = "{%s}" % ",".join(map(repr, self.members))
        elif self.base is not None and self.kind != "TY_UNDEF":
            n = "%s(%r%s)" % (n, self.base, "x%d" % self.num if self.num else "")
        return ("alias:" if self.alias else "") + n

    def build(self, I, cache):
        r = cache.get(id(self))
        if r is not None:
            return r
        p = I.p
        t = I.new_heap("type", True)
        cache[id(self)] = t
        self_keep.append(self)
        f = {"kind": p.enum(self.kind), "size": self.size, "align": self.align}
        if self.kind in INT or self.kind in FLT or self.kind in ("TY_VOID",):
            f["is_primitive"] = 1
        if self.base is not None:
            f["base"] = self.base.build(I, cache)
        if self.num is not None:
            f["num_indices"] = self.num
        if self.members is not None:
            ms = []
            for k, m in enumerate(self.members):
                n = I.new_heap("member", True)
                I.mem[n.loc + (("f", "data_type"),)] = m.build(I, cache)
                I.mem[n.loc + (("f", "offset"),)] = self.offs[k]
                I.mem[n.loc + (("f", "kind"),)] = p.enum("ND_STRUCT_MEMBER")
                ms.append(n)
            f["members"] = list_of(I, ms)
        f["is_variadic"] = int(self.variadic)
        f.update(self.kw)
        for k, v in f.items():
            I.mem[t.loc + (("f", k),)] = v
        if self.alias:
            u = I.new_heap("type", True)
            for k, v in {"kind": p.enum("TY_UNDEF"), "size": self.size, "align": self.align, "base": t}.items():
                I.mem[u.loc + (("f", k),)] = v
            cache[id(self)] = u
            return u
        return t


self_keep = []


def alias(t):
    r = Ty.__new__(Ty)
    r.__dict__.update(t.__dict__)
    r.alias = True
    return r


def T(k):
    return Ty(k)


def ptr(b):
    return Ty("TY_PTR", base=b)


def struct(*ms, **kw):
    return Ty("TY_STRUCT", members=list(ms), **kw)


def carr(b, n):
    return Ty("TY_C_ARRAY", base=b, num=n)


def arr(b, n):
    return Ty("TY_ARRAY", base=b, num=n)


class World:
    """one abstract run of the generator: objects live in the interpreter's heap"""

    def __init__(self, I):
        self.I, self.p = I, I.p
        self.tc = {}
        self.kids = {}

    def ty(self, t):
        return t.build(self.I, self.tc)

    def obj(self, **kw):
        o = self.I.new_heap("obj", True)
        self.set(o, **kw)
        return o

    def set(self, o, **kw):
        loc = self.I.deref_loc(o)
        for k, v in kw.items():
            if isinstance(v, Ty):
                v = self.ty(v)
            elif isinstance(v, str) and k in ("kind", "mode", "cmp_kind"):
                v = self.p.enum(v)
            elif isinstance(v, list):
                v = list_of(self.I, v)
            elif isinstance(v, bool):
                v = int(v)
            elif isinstance(v, str):
                v = Ptr((("s", v),))
            if isinstance(v, int):
                # keep terms of symbolic bases in step
                if loc[0][0] == "d":
                    self.I.set_eq(S("load", loc + (("f", k),)), v)
            self.I.mem[loc + (("f", k),)] = v

    def node(self, kind, **kw):
        n = self.I.new_heap("node", True)
        self.set(n, kind=kind, **kw)
        return n

    def kid(self, name, t=None, kind=None, **kw):
        """an opaque sub-expression / statement"""
        n = S("var", name)
        self.I.neq.setdefault(n, set()).add(0)
        self.kids[n] = (name, t)
        self.I.mem[floc(n, "tok")] = 0
        if kind:
            self.set(n, kind=kind)
        if t is not None:
            self.set(n, data_type=t)
        self.set(n, unpack_mode=0, pass_by_stack=0)
        self.set(n, **kw)
        return n

    def ident(self, name):
        return self.obj(callee=name, global_scope=True)

    def cg(self, **kw):
        I = self.I
        o = I.new_heap("cg", True)
        ctx = I.new_heap("ctx", True)
        ast = I.new_heap("ast", True)
        self.ctx, self.ast = ctx, ast
        self.set(o, context=ctx, ast=ast, code_buffer=S("var", "out"), string_literals=[], max_count=kw.pop("max_count", 7), **kw)
        self.set(ast, objs=[], impls=[], files=[])
        self.cgp = o
        return o


def is_kid(v):
    return isinstance(v, Sym) and v.op == "var"


class Emission:
    def __init__(self, path, world):
        self.path, self.w = path, world
        self.items = []
        for e in path.events:
            if e[0] == "write":
                self.items.append(("text", e[2]))
            elif e[0] == "child":
                self.items.append(e)
        self.errors = [e for e in path.events if e[0] == "error"]
        self.code = Code(self.items)

    def text(self):
        return "; ".join(self.code.text(i) for i in self.code.prog)


def gen_hooks(p, err, extra=None):
    def kidhook(mode):
        def h(I, a, e):
            n = I.value(a[1])
            if is_kid(n):
                cg = I.deref_loc(a[0])
                f = lambda k: I.value(I.load(cg + (("f", k),)))
                I.event("child", mode, n, f("depth"), f("cur_brk_id"), f("cur_cnt_id"), f("cur_count"))
                return None
            return NotImplemented
        return h
    hooks = {"asm_gen_expr": kidhook("val"), "asm_gen_stmt": kidhook("stmt"), "asm_gen_addr": kidhook("addr"), "throw_error": err.hook(),
             "context_allocator_register": lambda I, a, e: None}
    hooks.update(extra or {})
    return hooks


def emit(c, p, err, build, max_paths=200, extra=None, max_loop=40):
    """build(world) -> thunk args [(fn, args)] executed in order; returns Emissions"""
    I = Interp(p, hooks=gen_hooks(p, err, extra), max_loop=max_loop, max_paths=max_paths)
    worlds = []

    def go(I):
        w = World(I)
        worlds.append(w)
        for fn, args in build(w):
            I.run_fn(fn, args)
        w.mem = dict(I.mem)         # what the generator left behind (when it ran to its end)
        return None
    paths = I.explore(go)
    c.seen(I, paths)
    out = []
    k = 0
    for q in paths:
        out.append(Emission(q, worlds[-1]))
    return out


# every generated expression preserves the registers a System V callee must preserve (verified where they are used: pipes)
KEEP = ("rsp", "rbp", "rbx", "r12", "r13", "r14", "r15")


def keeps(st):
    """name of a callee-saved register the code changed, or None"""
    for g in KEEP[1:]:
        if st.r[g] is not (asm.BP0 if g == "rbp" else S("init", g)):
            return g
    return None


class Kids:
    """how opaque children behave on the machine; leaf terms are ('val', name, occurrence)"""

    def __init__(self, types, effects=None):
        self.t = types           # name -> Ty
        self.effects = effects or {}

    def __call__(self, st, it):
        mode, n = it[1], it[2]
        name = n.a[0]
        k = st.occ.get((mode, name), 0)
        st.occ[(mode, name)] = k + 1
        self_regs = dict(st.r)
        st.trace.append(("child", mode, name, k, M.spoff(st), it[3], it[4], it[5], it[6], self_regs, dict(st.mem), dict(st.x)))
        M.clobber(st, KEEP)
        if mode == "stmt":
            return None
        t = self.t.get(name)
        if mode == "addr":
            st.r["rax"] = S("addr", name, k)
            return None
        kind = t.kind if t is not None else "TY_I64"
        if kind in ("TY_F32", "TY_F64"):
            st.x[0] = S("val", name, k)
        elif kind == "TY_F80":
            st.fp.append(S("val", name, k))
        elif kind in ("TY_STRUCT", "TY_C_ARRAY", "TY_ARRAY", "TY_DYN", "TY_VLA"):
            st.r["rax"] = S("addr", name, k)
        else:
            st.r["rax"] = S("val", name, k)
        return None


M = Machine(Code([]))


def ext(v, bits, signed, full=None):
    """register image of a value of a type: extended to 32 bits, above that unspecified"""
    if bits >= 64:
        return v & ((1 << 64) - 1)
    return v & 0xffffffff


def wrapv(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def int_samples(bits, signed):
    vs = {0, 1, 2, 3, 5, 7, 10, 31, 63, 100, 127, 128, 200, 255, 256, 1000, 32767, 32768, 65535, 0x12345678, (1 << 31) - 1, 1 << 31, (1 << 32) - 1,
          1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, -1, -2, -7, -100, -128, -32768, -(1 << 31), -(1 << 63), 0x123456789abcdef}
    lo_, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    out = {v for v in vs if lo_ <= v <= hi} | {lo_, hi, lo_ + 1, hi - 1}
    return sorted(out)


GARB = (0, 0xffffffff, 0x5a5a5a5a)


def images(v, bits, i=0):
    """raw 64-bit register contents that represent v"""
    if bits >= 64:
        return [v & asm.M64]
    return [(v & 0xffffffff) | (g << 32) for g in GARB]


def select(states, env):
    out = []
    for s in states:
        ok = True
        for t, b in s.conds:
            if bool(ev(t, env)) != b:
                ok = False
                break
        if ok:
            out.append(s)
    return out

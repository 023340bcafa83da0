"""Abstract runs of parser and validator on whole programs, and a reference for names, types, conversions, constants and returns."""
import multiprocessing, os, threading, sys
from pars import *
from grammar import G, Bad

INTS = {"i8": 1, "u8": 1, "char": 1, "bool": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8}
FLTS = {"f32": 4, "f64": 8, "f80": 16}


# ---------------------------------------------------------------- running the real validator

def sema_hooks(p, err):
    h = parser_hooks(p, err)

    def hm_put(I, a, e):
        l = I.deref_loc(a[0]) + (("f", "#" + "".join(I.text(a[1]))),)
        if I.mem.get(l):
            return 17                      # EEXIST
        I.mem[l] = I.value(a[2])
        return 0
    h["hashmap_put"] = hm_put
    thr = h["throw_error"]

    def th(I, a, e):
        l = I.deref_loc(a[0]) + (("f", "emitted_errors"),)
        if err.is_error(I.value(a[1])):
            I.mem[l] = I.mem[l] + 1
        return thr(I, a, e)
    h["throw_error"] = th
    h["ast_type_to_str"] = lambda I, a, e: a[1]        # the wording of messages is not looked at here
    return h


class Run:
    """outcome of one program: accepted?, errors, mismatches found by `look`"""

    def __init__(self, accepted, errors, why, bad):
        self.accepted, self.errors, self.why, self.bad = accepted, errors, why, bad


def run_program(p, err, src, look=None, ct="CT_ASM", hooks=None, entrypoint=0):
    I = Interp(p, hooks=hooks or sema_hooks(p, err), max_loop=2000, max_steps=20000000)
    I.initial = True

    def go(I):
        P = Parse(I, tokens(src), ct)
        I.mem[P.ctx.loc + (("f", "flags"), ("f", "require_entrypoint"))] = entrypoint
        I.mem[P.ast.loc + (("f", "impls"),)] = list_of(I, [])
        for k in ("type_exit_fns", "before_main", "after_main"):
            I.mem[P.ast.loc + (("f", k),)] = 0
        stop = None
        bad = []
        try:
            I.run_fn(p.fn("parser_pass"), [P.ctx, P.ast])
            if I.mem[P.ctx.loc + (("f", "emitted_errors"),)] == 0:
                I.run_fn(p.fn("validator_pass"), [P.ctx, P.ast])
        except StopPath as s:
            stop = s.why
        n = I.mem[P.ctx.loc + (("f", "emitted_errors"),)]
        if stop is None and n == 0 and look:
            try:
                bad = look(P)
            except StopPath as s:       # the compiler itself fails on an accepted program
                stop = s.why
        if stop in ("loopbound", "loopcap", "goto-unresolved"):
            raise AnalysisBroken("run of %r ends in %r" % (src, stop))
        return stop, n, bad
    ps = I.explore(go)
    out = []
    for q in ps:
        if not isinstance(q.ret, tuple):
            raise AnalysisBroken("run of %r ends in %r" % (src, q.end))
        stop, n, bad = q.ret
        errs = [e for e in q.events if e[0] == "error"]
        out.append(Run(stop is None and n == 0, [(e[1], "".join(map(str, I.text(e[2]))) if False else None) for e in errs], stop, bad))
    return I, ps, out


# ---------------------------------------------------------------- reference

class Decl:
    def __init__(self, kind, name, type=None, const=False, scope=None, **kw):
        self.kind, self.name, self.type, self.const, self.scope = kind, name, type, const, scope
        self.members = []
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class Reject(Exception):
    """the program is wrong in a way that leaves no type to continue with"""


class Scope:
    def __init__(self, outer, ref):
        self.outer, self.d, self.ref = outer, {}, ref

    def add(self, decl):
        if decl.name in self.d:
            self.ref.bad("redefinition of " + decl.name)
        else:
            self.d[decl.name] = decl


class E:
    """typed expression or statement of the reference"""
    __slots__ = ("k", "t", "kids", "x")

    def __init__(self, k, t, kids=(), x=None):
        self.k, self.t, self.kids, self.x = k, t, list(kids), x

    def __repr__(self):
        return "%s:%s(%s)%s" % (self.k, tstr(self.t), ", ".join(map(repr, self.kids)), "" if self.x is None else "<%s>" % (self.x,))


def tstr(t):
    if t is None:
        return "?"
    if isinstance(t, str):
        return t
    if t[0] == "ALIAS":
        return t[1].name
    if t[0] == "CONST":
        return "const " + tstr(t[1])
    if t[0] == "PTR":
        return "&" + tstr(t[1])
    if t[0] in ("VLA", "ARRAY", "C_ARRAY"):
        return tstr(t[1]) + ("[]" if t[0] == "VLA" else "[%s]" % (t[2],))
    if t[0] == "FN":
        return "fn<%s>(%s)" % (tstr(t[1]), ", ".join(map(tstr, t[2])))
    return t[0]


def unconst(t):
    return t[1] if isinstance(t, tuple) and t[0] == "CONST" else t


def unpack(t):
    """through aliases (and const)"""
    while isinstance(t, tuple) and t[0] in ("ALIAS", "CONST"):
        t = t[1].type if t[0] == "ALIAS" else t[1]
    return t


def upk(t):
    """as unpack, keeping the outermost constness of what is reached: (type, const)"""
    c = False
    while isinstance(t, tuple) and t[0] in ("ALIAS", "CONST"):
        if t[0] == "CONST":
            c, t = True, t[1]
        else:
            c, t = False, t[1].type
    return t, c


def is_const(t):
    """const anywhere on the way to the definition"""
    while isinstance(t, tuple) and t[0] in ("ALIAS", "CONST"):
        if t[0] == "CONST":
            return True
        t = t[1].type
    return False


def kind(t):
    t = unpack(t)
    return t if isinstance(t, str) else t[0] if t else None


def integer(t):
    k = kind(t)
    return k in INTS or k == "ENUM"


def flo(t):
    return kind(t) in FLTS


def numeric(t):
    return integer(t) or flo(t)


def number(t):
    return numeric(t) and kind(t) != "bool"


def ptr(t):
    return kind(t) == "PTR"


def size(t):
    t = unpack(t)
    if isinstance(t, str):
        return INTS.get(t) or FLTS.get(t) or 0
    if t[0] == "ENUM":
        return 4
    if t[0] in ("PTR", "FN", "VLA"):
        return 8
    return None


def same(a, b):
    """the same type, as written: an alias is not the type it stands for"""
    ca = isinstance(a, tuple) and a[0] == "CONST"
    cb = isinstance(b, tuple) and b[0] == "CONST"
    if ca != cb or a is None or b is None:
        return False
    a, b = unconst(a), unconst(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a[0] != b[0]:
        return False
    if a[0] == "ALIAS":
        return a[1] is b[1]
    if a[0] in ("PTR", "DYN"):
        return same(a[1], b[1])
    if a[0] == "FN":
        return len(a[2]) == len(b[2]) and same(a[1], b[1]) and all(same(x, y) for x, y in zip(a[2], b[2]))
    if a[0] in ("STRUCT", "UNION"):
        return len(a[1]) == len(b[1]) and all(same(x[1], y[1]) for x, y in zip(a[1], b[1]))
    if a[0] == "ENUM":
        return a[1] is b[1]
    if a[0] in ("ARRAY", "C_ARRAY", "VLA") and same(a[1], b[1]) and a[2:] == b[2:]:
        return True
    raise Skip("comparison of %s types" % a[0])      # the length and the element type of arrays: a known finding of its own


class Skip(Exception):
    """outside of what the reference specifies"""


def convertible(a, b, assign=False):
    """values of type a are converted to type b where one is expected; an assignment may drop the constness of what is pointed to"""
    a, b = unpack(a), unpack(b)
    if a is None or b is None:
        return False
    if not isinstance(a, str) and not isinstance(b, str) and a[0] in ("PTR", "VLA", "ARRAY", "C_ARRAY") and b[0] in ("PTR", "VLA", "ARRAY", "C_ARRAY"):
        ca = isinstance(a[1], tuple) and a[1][0] == "CONST"
        cb = isinstance(b[1], tuple) and b[1][0] == "CONST"
        if ca and not cb:
            return assign and (a[0] == b[0] or (a[0], b[0]) in (("C_ARRAY", "PTR"), ("ARRAY", "VLA")))
    if numeric(a) and numeric(b):
        return True
    ka, kb = kind(a), kind(b)
    if ka in ("PTR", "C_ARRAY") and kb == "PTR":
        return True
    if ka == "ARRAY" and kb == "VLA":
        return True
    if ka == "PTR" and kind(a[1]) == "ARRAY" and kb == "VLA":
        return same(unpack(a[1])[1], b[1])
    if ka == kb and ka in ("STRUCT", "UNION"):
        return same(a, b)
    return False


class Ref:
    """what the language says about a program"""

    def __init__(self, src, ct="CT_ASM"):
        self.errors = []
        g = G(tokens(src), ct)
        try:
            self.objs = g.program()
        except Bad:
            raise AnalysisBroken("test program ...%r does not parse" % src[-200:])
        if g.errors:
            raise AnalysisBroken("test program ...%r has syntax errors" % src[-200:])
        self.glob = Scope(None, self)
        self.scope = self.glob
        self.fns = []           # (result type, ...) of the functions entered
        self.pipes = []
        self.bodies = []
        self.ds = []
        for o in self.objs:
            self.ds.append(self.declare(o, self.glob))
        self.top = self.ds
        for d in self.ds:
            self.types_of(d)
        for d in self.ds:
            self.body_of(d)

    def bad(self, why):
        self.errors.append(why)

    # -- declarations
    def declare(self, o, scope):
        k = o[0]
        name = o[1].removeprefix("::")
        if k == "GLOBAL":
            d = Decl(k, name, const="is_constant" in o[4], src=o, scope=scope)
        elif k == "FUNCTION":
            d = Decl(k, name, src=o, scope=scope)
        elif k == "TYPEDEF":
            d = Decl(k, name, src=o, scope=scope)
        elif k == "NAMESPACE":
            d = Decl(k, name, src=o, scope=scope)
            d.inner = Scope(scope, self)
            d.members = [self.declare(x, d.inner) for x in o[2]]
        else:
            raise AnalysisBroken("definition %r" % (o,))
        scope.add(d)
        return d

    def types_of(self, d):
        """types that are part of declarations"""
        self.scope = d.scope
        o = d.src
        if d.kind == "NAMESPACE":
            for m in d.members:
                self.types_of(m)
            return
        if d.kind == "TYPEDEF":
            t = o[2]
            d.type = None
            if isinstance(t, tuple) and t[0] == "ENUM":
                d.members = []
                s = Scope(d.scope, self)
                for m in t[1]:
                    x = Decl("ENUM_MEMBER", m[0].removeprefix("::"), "i32", True, src=m, owner=d)
                    d.members.append(x)
                    s.add(x)
                d.type = ("ENUM", d)
            else:
                d.type = self.type(t)
                seen = {d}
                t = d.type
                while isinstance(t, tuple) and t[0] in ("ALIAS", "CONST"):
                    if t[0] == "ALIAS":
                        if t[1] in seen:
                            raise Reject("type defined as itself")
                        seen.add(t[1])
                        t = t[1].type
                    else:
                        t = t[1]
        elif d.kind == "GLOBAL":
            d.type = self.type(o[2])
        elif d.kind == "FUNCTION":
            d.inner = Scope(d.scope, self)
            d.ret = self.type(o[4])
            d.args = [Decl("FN_ARG", a[1].removeprefix("::"), self.type(a[2]), src=a) for a in o[2]]
            for a in d.args:
                d.inner.add(a)
            d.type = ("CONST", ("FN", d.ret, tuple(a.type for a in d.args), o[3] is not None))
        self.scope = self.glob

    def body_of(self, d):
        o = d.src
        if d.kind == "NAMESPACE":
            for m in d.members:
                self.body_of(m)
            return
        self.scope = d.scope
        try:
            if d.kind == "GLOBAL":
                if kind(d.type) == "void":
                    self.bad("void variable")
                d.value = self.expr(o[3]) if o[3] is not None else None
                if d.value is not None and d.value.t is not None and kind(d.type) == "VLA" and kind(d.value.t) == "ARRAY":
                    d.type = ("ARRAY", unpack(d.type)[1], unpack(d.value.t)[2])      # as long as its value
                if d.value is not None and d.type is not None and not (kind(d.type) == kind(d.value.t) == "ARRAY" and same(unpack(d.type), unpack(d.value.t))):
                    self.conv(d.value, d.type, "value of a global", True)
            elif d.kind == "FUNCTION":
                for a in d.args:
                    if kind(a.type) in ("void", "ARRAY", "C_ARRAY"):
                        self.bad("argument type")
                self.scope = d.inner
                d.body = None
                if o[6] is not None:
                    self.fns.append(d.ret)
                    d.body = self.stmt(o[6])
                    self.fns.pop()
                    if kind(d.ret) != "void" and not returns(o[6]):
                        self.bad("missing return in " + d.name)
            elif d.kind == "TYPEDEF":
                if d.type[0] == "ENUM" if isinstance(d.type, tuple) else False:
                    pass
        except Reject as r:
            self.bad(str(r))
        finally:
            self.scope = self.glob

    # -- names
    def path(self, n):
        g = n.startswith("::")
        ps = n.removeprefix("::").split("::")
        s = self.glob if g else self.scope
        d = None
        while s is not None:
            if ps[0] in s.d:
                d = s.d[ps[0]]
                break
            s = s.outer
        if d is None:
            raise Reject("undefined " + n)
        for q in ps[1:]:
            if d.kind == "NAMESPACE" or d.kind == "TYPEDEF" and kind(d.type) == "ENUM":
                src = d.members if d.kind == "NAMESPACE" else unpack(d.type)[1].members
                m = [x for x in src if x.name == q]
                if not m:
                    raise Reject("undefined " + n)
                d = m[0]
            else:
                raise Reject("undefined " + n)
        return d

    def type(self, t):
        if t is None:
            return None
        if isinstance(t, str):
            if t in INTS or t in FLTS or t == "void":
                return t
            d = self.path(t)
            if d.kind != "TYPEDEF":
                raise Reject("%s is not a type" % t)
            return ("ALIAS", d)
        k = t[0]
        if k == "const":
            return ("CONST", self.type(t[1]))
        if k in ("PTR", "VLA"):
            return (k, self.type(t[1]))
        if k in ("ARRAY", "C_ARRAY"):
            n = t[2]
            if isinstance(n, tuple):
                n = self.length(self.expr(n))
            return (k, self.type(t[1]), n)
        if k == "FN":
            return (k, self.type(t[1]), tuple(self.type(a) for a in t[2]), "..." in t[3:])
        if k in ("STRUCT", "UNION", "TUPLE"):
            ms = []
            for n, m in t[1]:
                if n == "ND_EMBED_STRUCT":
                    raise Skip("embedded struct")
                ms.append((n.removeprefix("::"), self.type(m)))
            if len({m[0] for m in ms}) != len(ms):
                self.bad("redefinition of a member")
            return ("UNION" if k == "UNION" else "STRUCT", tuple(ms))
        raise Skip("type %r" % (t,))

    def length(self, e):
        return e.x if e.k == "INT" else None

    # -- expressions
    def expr(self, g):
        f = getattr(self, "e_" + g[0], None)
        if f:
            return f(*g[1:])
        raise Skip("expression %r" % (g[0],))

    def cast(self, e, t):
        return E("CAST", t, [e])

    def conv(self, e, t, why, assign=False):
        """e where a t is expected"""
        if same(e.t, t):
            return e
        if convertible(e.t, t, assign):
            if kind(e.t) == "ARRAY" and isinstance(t, tuple) and t[0] == "VLA":
                return E("REF", t, [e])
            return self.cast(e, t)
        self.bad("%s: %s for %s" % (why, tstr(e.t), tstr(t)))
        return e

    def e_ID(self, n):
        d = self.path(n)
        if d.kind not in ("GLOBAL", "FUNCTION", "ENUM_MEMBER", "LOCAL", "FN_ARG"):
            raise Reject("%s is not a value" % n)
        if d.type is None and d.kind == "GLOBAL" and d.src[2] is not None:     # in the length of an array type
            s, self.scope = self.scope, d.scope
            d.type = self.type(d.src[2])
            self.scope = s
        if d.type is None:
            raise Reject("%s is used before it has a type" % n)
        return E("ID", d.type, x=d)

    def e_INT(self, v, t):
        return E("INT", t, x=v)

    def lit(k):
        return lambda self, v, t: E(k, ("PTR", "char") if k == "STR" else t, x=v)
    e_LONG, e_ULONG, e_FLOAT, e_DOUBLE, e_BOOL, e_CHAR, e_STR = map(lit, "LONG ULONG FLOAT DOUBLE BOOL CHAR STR".split())

    def e_NIL(self, t):
        return E("NIL", ("PTR", "void"))

    def e_CLOSURE(self, es):
        es = [self.expr(x) for x in es]
        return E("CLOSURE", es[-1].t, es)

    def arith(self, k, l, r):
        l, r = self.expr(l), self.expr(r)
        for x in (l, r):
            if not number(x.t) and not ptr(x.t):
                raise Reject("operand of %s" % k)
        left = size(l.t) >= size(r.t)
        t = l.t if left else r.t
        if not same(l.t, r.t):
            a, b = (r, l) if left else (l, r)      # a is converted to b's type
            if same(t, r.t) and not left:
                a, b = l, r
            if k in ("MUL", "DIV") and not (numeric(l.t) and numeric(r.t)):
                raise Reject("operand of " + k)
            if convertible(a.t, b.t):
                c = self.cast(a, b.t)
                if a is l:
                    l = c
                else:
                    r = c
            elif ptr(b.t) and (integer(a.t) or k == "SUB" and ptr(a.t)) and k in ("ADD", "SUB"):
                pass
            else:
                raise Reject("operands of %s" % k)
        return E(k, t, [l, r])

    def e_ADD(self, l, r):
        return self.arith("ADD", l, r)

    def e_SUB(self, l, r):
        return self.arith("SUB", l, r)

    def e_MUL(self, l, r):
        return self.arith("MUL", l, r)

    def e_DIV(self, l, r):
        return self.arith("DIV", l, r)

    def mixed(self, l, r):
        if kind(l.t) == kind(r.t) or not numeric(l.t) or not numeric(r.t):
            return l, r
        right = flo(r.t) if flo(l.t) != flo(r.t) else size(l.t) < size(r.t)
        return (self.cast(l, r.t), r) if right else (l, self.cast(r, l.t))

    def ints(self, k, l, r):
        l, r = self.expr(l), self.expr(r)
        if not integer(l.t) or not integer(r.t):
            raise Reject("operand of " + k)
        return l, r

    def e_MOD(self, l, r):
        l, r = self.ints("MOD", l, r)
        t = l.t
        return E("MOD", t, self.mixed(l, r))

    def bit(self, k, l, r):
        l, r = self.ints(k, l, r)
        t = r.t if size(r.t) > size(l.t) else l.t
        if k in ("LSHIFT", "RSHIFT"):
            if size(l.t) < size(t):
                l = self.cast(l, t)
            return E(k, t, [l, r])
        return E(k, t, self.mixed(l, r))

    def e_XOR(self, l, r):
        return self.bit("XOR", l, r)

    def e_BIT_AND(self, l, r):
        return self.bit("BIT_AND", l, r)

    def e_BIT_OR(self, l, r):
        return self.bit("BIT_OR", l, r)

    def e_LSHIFT(self, l, r):
        return self.bit("LSHIFT", l, r)

    def e_RSHIFT(self, l, r):
        return self.bit("RSHIFT", l, r)

    def eq(self, k, l, r):
        l, r = self.expr(l), self.expr(r)
        if not (numeric(l.t) and numeric(r.t)) and not (ptr(l.t) and ptr(r.t)):
            raise Skip("equality of %s and %s" % (tstr(l.t), tstr(r.t)))
        return E(k, "bool", self.mixed(l, r))

    def e_EQ(self, l, r):
        return self.eq("EQ", l, r)

    def e_NE(self, l, r):
        return self.eq("NE", l, r)

    def ord(self, k, l, r):
        l, r = self.expr(l), self.expr(r)
        for x in (l, r):
            if not number(x.t) and not ptr(x.t):
                raise Reject("operand of %s" % k)
        return E(k, "bool", self.mixed(l, r))

    def e_LT(self, l, r):
        return self.ord("LT", l, r)

    def e_LE(self, l, r):
        return self.ord("LE", l, r)

    def e_GT(self, l, r):
        return self.ord("GT", l, r)

    def e_GE(self, l, r):
        return self.ord("GE", l, r)

    def logic(self, k, l, r):
        l, r = self.expr(l), self.expr(r)
        if kind(l.t) != "bool" or kind(r.t) != "bool":
            raise Skip("logic on %s" % tstr(l.t))
        return E(k, l.t, [l, r])

    def e_AND(self, l, r):
        return self.logic("AND", l, r)

    def e_OR(self, l, r):
        return self.logic("OR", l, r)

    def e_NEG(self, r):
        r = self.expr(r)
        if not number(r.t):
            raise Reject("operand of -")
        return E("NEG", r.t, [r])

    def e_BIT_NEG(self, r):
        r = self.expr(r)
        if not integer(r.t):
            raise Reject("operand of ~")
        return E("BIT_NEG", r.t, [r])

    def e_NOT(self, r):
        return E("NOT", "bool", [self.expr(r)])

    def e_REF(self, r):
        r = self.expr(r)
        return E("REF", ("PTR", r.t), [r])

    def e_DEREF(self, r):
        r = self.expr(r)
        if kind(r.t) not in ("PTR", "C_ARRAY"):
            raise Reject("operand of *")
        return E("DEREF", unpack(r.t)[1], [r])

    def e_MEMBER(self, l, r):
        l = self.expr(l)
        if r[0] != "ID":
            raise Reject("member")
        t = unpack(l.t)
        d = l
        if kind(t) == "PTR":
            d = E("DEREF", t[1], [l])
            t = unpack(t[1])
        if kind(t) not in ("STRUCT", "UNION"):
            raise Reject("member of %s" % tstr(t))
        ms = [m for m in t[1] if m[0] == r[1]]
        if not ms:
            raise Reject("no member %s" % r[1])
        return E("MEMBER", ms[0][1], [d], x=r[1])

    def lvalue(self, e):
        while e.k == "CLOSURE":
            e = e.kids[-1]
        if e.k == "ID":
            return e.x.kind in ("GLOBAL", "LOCAL", "FN_ARG")
        return e.k in ("MEMBER", "INDEX", "DEREF")

    def constant(self, e):
        if is_const(e.t):
            return True
        if e.k == "ID":
            return e.x.const
        if e.k == "CLOSURE":
            return self.constant(e.kids[-1])
        if e.k == "MEMBER":
            return self.constant(e.kids[0])
        if e.k == "INDEX":
            return kind(e.kids[0].t) in ("ARRAY", "C_ARRAY") and self.constant(e.kids[0])
        return False

    def incdec(self, k, l):
        l = self.expr(l)
        if not number(l.t) and not ptr(l.t):
            raise Reject("operand of " + k)
        if not self.lvalue(l):
            raise Skip("%s of something that is no variable: left to code generation" % k)
        if self.constant(l):
            self.bad("constant changes")
        return E(k, l.t, [l])

    def e_INC(self, l):
        return self.incdec("INC", l)

    def e_DEC(self, l):
        return self.incdec("DEC", l)

    def e_INDEX(self, l, i, back=None):
        l, i = self.expr(l), self.expr(i)
        if kind(l.t) not in ("VLA", "ARRAY", "C_ARRAY", "PTR") or not integer(i.t):
            raise Reject("index")
        if back and kind(l.t) == "PTR":
            raise Reject("index from the end of a pointer")
        return E("INDEX", unpack(l.t)[1], [l, i])

    def e_ASSIGN(self, l, r):
        r, l = self.expr(r), self.expr(l)
        if not self.lvalue(l):
            raise Reject("assignment to something that is no variable")
        if kind(l.t) == "void":
            raise Reject("assignment of void")
        if self.constant(l):
            self.bad("constant changes")
        return E("ASSIGN", l.t, [l, self.conv(r, l.t, "assignment", True)])

    def e_INIT(self, l, r, n):
        d = self.path(n)
        r = self.expr(r)
        if d.type is None:
            d.type = r.t
        if kind(d.type) == "void":
            raise Reject("void variable")
        if is_const(d.type):
            d.const = True
        return E("ASSIGN", d.type, [E("ID", d.type, x=d), self.conv(r, d.type, "initialisation", True)])

    def e_STRUCT(self, args, t):
        es = [self.expr(a) for a in args]
        if t is None:
            if not es:
                raise Reject("empty literal")
            return E("STRUCT", ("STRUCT", tuple(("_%d" % i, e.t) for i, e in enumerate(es))), es)
        t = self.type(t)
        u = unpack(t)
        if kind(u) not in ("STRUCT", "UNION"):
            raise Skip("literal of %s" % tstr(t))
        if len(es) > len(u[1]):
            self.bad("too many members")
        es = [self.conv(e, u[1][i][1], "member") if i < len(u[1]) else e for i, e in enumerate(es)]
        return E("STRUCT", t, es)

    def e_ARRAY(self, args):
        if not args:
            raise Reject("empty array")
        if any(a[0] == "UNPACK" for a in args):
            raise Skip("unpacking")
        es = [self.expr(a) for a in args]
        t = es[0].t
        es = [self.conv(e, t, "element") if i else e for i, e in enumerate(es)]
        return E("ARRAY", ("ARRAY", t, len(es)), es)

    def e_TERNARY(self, c, a, b):
        c, a, b = self.expr(c), self.expr(a), self.expr(b)
        if kind(c.t) != "bool":
            self.bad("condition")
        if not same(a.t, b.t):
            self.bad("branches of different types")
        return E("TERNARY", a.t, [c, a, b])

    def e_ELSE_EXPR(self, a, b):
        a, b = self.expr(a), self.expr(b)
        if not same(a.t, b.t):
            self.bad("branches of different types")
        return E("ELSE_EXPR", a.t, [a, b])

    def e_SIZEOF(self, t, u):
        return E("SIZEOF", "u64", x=self.type(t))

    def e_ALIGNOF(self, t, u):
        return E("ALIGNOF", "u64", x=self.type(t))

    def e_LEN(self, e, u):
        e = self.expr(e)
        if kind(e.t) not in ("ARRAY", "C_ARRAY", "VLA") and not (ptr(e.t) and kind(unpack(e.t)[1]) == "char"):
            raise Reject("len of %s" % tstr(e.t))
        return E("LEN", "u64", [e])

    def e_CAST(self, e, t):
        e = self.expr(e)
        t = self.type(t)
        if kind(e.t) == "void" and kind(t) != "void" or kind(t) == "void" and kind(e.t) != "void":
            self.bad("cast of void")
        elif kind(t) == "void":
            raise Skip("void cast to void")
        return E("CAST", t, [e], x="explicit")

    def e_CALL(self, f, args):
        f = self.expr(f)
        if kind(f.t) != "FN":
            raise Reject("call of %s" % tstr(f.t))
        ft = unpack(f.t)
        if any(a[0] == "UNPACK" for a in args):
            raise Skip("unpacking")
        es = [self.expr(a) for a in args]
        n = len(ft[2])
        if len(es) != n and not (ft[3] and len(es) >= n):
            self.bad("number of arguments")
        es = [self.conv(e, ft[2][i], "argument") if i < n else e for i, e in enumerate(es)]
        return E("CALL", ft[1], [f] + es)

    def e_PIPE(self, l, r):
        l = self.expr(l)
        self.pipes.append(l)
        r = self.expr(r)
        self.pipes.pop()
        if r.k == "HOLE":
            return l                # `x |> $` is x
        return E("PIPE", r.t, [l, r])

    def e_HOLE(self):
        return E("HOLE", self.pipes[-1].t)

    def e_LAMBDA(self, args, t, body):
        t = self.type(t)
        s = self.scope
        self.scope = Scope(s, self)
        ds = []
        for a, ty in zip(args, t[2]):
            d = Decl("FN_ARG", a[1].removeprefix("::"), ty)
            ds.append(d)
            self.scope.add(d)
            if kind(ty) in ("void", "ARRAY", "C_ARRAY"):
                self.bad("argument type")
        self.fns.append(t[1])
        b = self.stmt(body)
        self.fns.pop()
        self.scope = s
        if kind(t[1]) != "void" and not returns(body):
            self.bad("missing return in lambda")
        return E("LAMBDA", t, [b], x=ds)

    # -- statements
    def opt(self, g, f):
        return f(g) if g is not None else None

    def stmt(self, g):
        f = getattr(self, "s_" + g[0], None)
        if f:
            return f(*g[1:])
        raise Skip("statement %r" % (g[0],))

    def locals(self, ls):
        ds = []
        for l in ls:
            d = Decl("LOCAL", l[1].removeprefix("::"), None, "is_constant" in l[3])
            d.type = self.type(l[2])
            if d.type is not None and is_const(d.type):
                d.const = True
            self.scope.add(d)
            ds.append(d)
        return ds

    def s_BLOCK(self, ls, ss):
        s = self.scope
        self.scope = Scope(s, self)
        ds = self.locals(ls)
        r = E("BLOCK", None, [self.stmt(x) for x in ss], x=ds)
        self.scope = s
        return r

    def s_EXPR_STMT(self, e):
        return E("EXPR_STMT", None, [self.expr(e)])

    def s_RETURN(self, v):
        t = self.fns[-1]
        if v is None:
            if kind(t) != "void":
                self.bad("return without a value")
            return E("RETURN", None, [None])
        v = self.expr(v)
        # a result type is compared by what it stands for
        u = unpack(t)
        c = upk(t)[1]
        u = ("CONST", u) if c else u
        if same(u, v.t):
            return E("RETURN", None, [v])
        if convertible(v.t, u):
            return E("RETURN", None, [self.cast(v, t)])
        self.bad("result %s for %s" % (tstr(v.t), tstr(t)))
        return E("RETURN", None, [v])

    def s_IF(self, c, a, b):
        return E("IF", None, [self.expr(c), self.stmt(a), self.opt(b, self.stmt)])

    def s_LOOP(self, b):
        return E("LOOP", None, [self.stmt(b)])

    def s_DEFER(self, b):
        return E("DEFER", None, [self.stmt(b)])

    def s_WHILE(self, c, b):
        return E("WHILE", None, [self.expr(c), self.stmt(b)])

    def s_DO_WHILE(self, c, b):
        b = self.stmt(b)
        return E("DO_WHILE", None, [self.expr(c), b])

    def s_DO_UNLESS(self, c, b):
        b = self.stmt(b)
        return E("DO_UNLESS", None, [self.expr(c), b])

    def s_FOR(self, ls, i, c, e, b):
        s = self.scope
        self.scope = Scope(s, self)
        ds = self.locals(ls)
        r = E("FOR", None, [self.opt(i, self.stmt), self.opt(c, self.expr), self.opt(e, self.expr), self.stmt(b)], x=ds)
        self.scope = s
        return r

    def s_FOR_RANGE(self, l, r, b):
        l, r = self.expr(l), self.expr(r)
        out = []
        for x in (l, r):
            if not integer(x.t):
                self.bad("bound of a range")
            out.append(x if kind(x.t) == "i64" else self.cast(x, "i64"))
        return E("FOR_RANGE", None, out + [self.stmt(b)])

    def s_MATCH(self, c, cs, d):
        c = self.expr(c)
        out = [c]
        for x in list(cs) + ([d] if d else []):
            m, cond, body = x[1], x[2], x[3]
            cond = self.opt(cond, self.expr)
            if cond is not None and m != "EQ" and not number(cond.t):
                self.bad("case of %s" % tstr(cond.t))
            out.append(E("CASE", None, [cond, self.stmt(body)]))
        return E("MATCH", None, out, x=d is not None)

    def s_USING(self, ids, body):
        s = self.scope
        if body is not None:
            self.scope = Scope(s, self)
        for i in ids:
            d = self.path(i)
            if d.kind != "NAMESPACE":
                raise Reject("using something that is no namespace")
            for m in d.members:
                self.scope.add(m)
        r = E("USING", None, [self.opt(body, self.stmt)])
        self.scope = s
        return r

    def s_NOOP(self):
        return E("NOOP", None)

    def s_BREAK(self):
        return E("BREAK", None)

    def s_CONTINUE(self):
        return E("CONTINUE", None)


class Flow:
    """ways a statement ends: fall through, break, continue, return; conditions may go either way"""

    def __init__(self):
        self.dead = self.conservative = False

    def of(self, g):
        if g is None:
            return {"fall"}
        k = g[0]
        if k == "RETURN":
            return {"ret"}
        if k in ("BREAK", "CONTINUE"):
            return {k}
        if k == "BLOCK":
            out, live = set(), True
            for x in g[2]:
                if not live:
                    self.dead = True
                r = self.of(x)
                if live:
                    out |= r - {"fall"}
                    live = "fall" in r
            return out | ({"fall"} if live else set())
        if k == "IF":
            return self.of(g[2]) | self.of(g[3])
        if k == "LOOP" or k == "FOR" and g[3] is None:
            r = self.of(g[1] if k == "LOOP" else g[5])
            return (r & {"ret"}) | ({"fall"} if "BREAK" in r else set())
        if k in ("WHILE", "FOR", "FOR_RANGE"):
            r = self.of({"WHILE": g[2:3], "FOR": g[5:6], "FOR_RANGE": g[3:4]}[k][0])
            return (r & {"ret"}) | {"fall"}
        if k in ("DO_WHILE", "DO_UNLESS"):
            r = self.of(g[2])
            out = (r & {"ret"}) | ({"fall"} if r & {"fall", "BREAK", "CONTINUE"} else set())
            self.conservative |= k == "DO_UNLESS" and "fall" not in out
            return out
        if k == "MATCH":
            out = set() if g[3] is not None else {"fall"}
            for x in list(g[2]) + ([g[3]] if g[3] is not None else []):
                out |= self.of(x[-1])
            return out
        if k == "WITH":
            r = self.of(g[3]) | self.of(g[4])
            self.conservative |= "fall" not in r
            return r
        if k == "MATCH_TYPE":       # only the chosen case is part of the program
            body = next((x[-1] for x in g[2] if x[1] == g[1]), g[3][-1] if g[3] is not None else None)
            r = self.of(body)
            self.conservative |= "fall" not in r
            return r
        if k == "USING":
            r = self.of(g[2])
            self.conservative |= r != {"fall"}
            return r
        if k in ("EXPR_STMT", "NOOP"):
            return {"fall"}
        raise Skip("flow of " + k)


def returns(g):
    """no way through the statement reaches its end"""
    f = Flow()
    r = f.of(g)
    if "fall" in r:
        return False
    if f.dead or f.conservative:
        raise Skip("never ends, which takes more than following statements to see")
    return True


# ---------------------------------------------------------------- comparing with the validated tree

class Match:
    """walks the validator's result beside the reference's and reports differences"""

    def __init__(self, P, ref):
        self.P, self.ref = P, ref
        self.bound = {}         # location of an object -> Decl
        self.out = []
        self.seen = set()
        self.exprs = 0
        objs = [o for o in self.items(P.objs) if not self.generated(o)]
        self.bind_list(objs, ref.top)
        for d in ref.top:
            self.defn(d)

    def items(self, l):
        return list_items(self.P.I, l)

    def generated(self, o):
        n = self.P.ident(self.P.f(o, "id")) or ""
        return "lambda.stackptr" in n or "__csp_" in n

    def diff(self, what):
        if len(self.out) < 8:
            self.out.append(what)

    def bind_list(self, objs, ds):
        if len(objs) != len(ds):
            self.diff("%d declarations, expected %d (%s)" % (len(objs), len(ds), ds))
            return
        for o, d in zip(objs, ds):
            self.bind(o, d)

    def bind(self, o, d):
        o = self.P.I.value(o)
        if not isinstance(o, Ptr):
            self.diff("declaration of %s missing" % d.name)
            return
        k = self.P.kname("OBJ_FUNCTION", self.P.f(o, "kind"))[4:]
        n = self.P.s(self.P.f(self.P.f(o, "id"), "callee"))
        if k != d.kind or n != d.name:
            self.diff("%s %s where %s %s is expected" % (k, n, d.kind, d.name))
        self.bound[o.loc] = d
        d.obj = o
        if d.kind == "NAMESPACE":
            self.bind_list([x for x in self.items(self.P.f(o, "objs")) if not self.generated(x)], d.members)
        elif d.kind == "TYPEDEF" and isinstance(d.type, tuple) and d.type[0] == "ENUM":
            self.bind_list(self.items(self.P.f(o, "data_type", ) if False else self.P.f(self.P.f(o, "data_type"), "members")), d.members)
        elif d.kind == "FUNCTION":
            self.bind_list(self.items(self.P.f(o, "args")), d.args)

    def defn(self, d):
        if not hasattr(d, "obj"):
            return
        P = self.P
        if d.kind == "NAMESPACE":
            for m in d.members:
                self.defn(m)
            return
        self.type(d.type, P.f(d.obj, "data_type"), d.name)
        if d.kind == "FUNCTION":
            self.type(d.ret, P.f(d.obj, "return_type"), d.name + "'s result")
            for a in d.args:
                if hasattr(a, "obj"):
                    self.type(a.type, P.f(a.obj, "data_type"), a.name)
            if d.body is not None:
                self.node(d.body, P.f(d.obj, "body"))
        elif d.kind == "GLOBAL" and d.value is not None:
            pass            # reduced to a constant: another property

    # types
    def teq(self, r, t, seen=()):
        P = self.P
        t = P.I.value(t)
        r = unconst(r)
        if r is None or t == 0:
            return r is None and t == 0
        k = P.kname("TY_I8", P.f(t, "kind"))[3:]
        if k == "UNDEF":
            if isinstance(r, tuple) and r[0] == "ALIAS":
                o = P.f(t, "referenced_obj")
                if isinstance(o, Ptr) and self.bound.get(o.loc) is r[1]:
                    return True
            key = (id(r), t.loc)
            if key in seen:
                return True
            return self.teq(r, P.f(t, "base"), seen + (key,))
        if isinstance(r, tuple) and r[0] == "ALIAS":
            key = (id(r), t.loc)
            if key in seen:
                return True
            return self.teq(r[1].type, t, seen + (key,))
        if isinstance(r, str):
            return k.lower() == r
        if r[0] in ("STRUCT", "UNION"):
            if k != "STRUCT" or bool(P.f(t, "is_union")) != (r[0] == "UNION"):
                return False
            ms = self.items(P.f(t, "members"))
            return len(ms) == len(r[1]) and all(P.ident(P.f(m, "id")).removeprefix("::") == n and self.teq(x, P.f(m, "data_type"), seen) for m, (n, x) in zip(ms, r[1]))
        if r[0] == "ENUM":
            if k != "ENUM":
                return False
            return [self.bound.get(P.I.value(m).loc) for m in self.items(P.f(t, "members"))] == r[1].members
        if k != r[0]:
            return False
        if k == "FN":
            ts = self.items(P.f(t, "arg_types"))
            return self.teq(r[1], P.f(t, "base"), seen) and len(ts) == len(r[2]) and all(self.teq(x, y, seen) for x, y in zip(r[2], ts)) and bool(P.f(t, "is_variadic")) == bool(r[3])
        return self.teq(r[1], P.f(t, "base"), seen) and (k not in ("ARRAY", "C_ARRAY") or r[2] is None or P.f(t, "num_indices") == r[2])

    def type(self, r, t, what):
        if not self.teq(r, t):
            self.diff("%s has type %s, expected %s" % (what, self.show(t), tstr(r)))

    def show(self, t):
        try:
            return str(self.P.type(t))
        except Exception as e:
            return "?"

    # nodes
    LR = "ADD SUB MUL DIV MOD EQ NE GT GE LT LE AND OR ASSIGN LSHIFT RSHIFT XOR BIT_OR BIT_AND ELSE_EXPR PIPE".split()

    def noop_cast(self, n):
        """a conversion between representations of the same type"""
        P = self.P
        if P.kname("ND_ADD", P.f(n, "kind")) != "ND_CAST":
            return False
        return self.mem_same(P.f(n, "data_type"), P.f(P.f(n, "left"), "data_type"))

    def munpack(self, t):
        P = self.P
        t = P.I.value(t)
        while isinstance(t, Ptr) and P.kname("TY_I8", P.f(t, "kind")) == "TY_UNDEF":
            t = P.f(t, "base")
        return t

    def mem_same(self, a, b, d=0):
        P = self.P
        a, b = self.munpack(a), self.munpack(b)
        if a == b or d > 6:
            return True
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            return False
        k = P.f(a, "kind")
        if k != P.f(b, "kind"):
            return False
        k = P.kname("TY_I8", k)[3:]
        if k in ("PTR", "VLA"):
            return self.mem_same(P.f(a, "base"), P.f(b, "base"), d + 1)
        if k in ("ARRAY", "C_ARRAY"):
            return self.mem_same(P.f(a, "base"), P.f(b, "base"), d + 1) and P.f(a, "num_indices") == P.f(b, "num_indices")
        if k == "FN":
            x, y = self.items(P.f(a, "arg_types")), self.items(P.f(b, "arg_types"))
            return len(x) == len(y) and all(self.mem_same(m, n, d + 1) for m, n in zip(x + [P.f(a, "base")], y + [P.f(b, "base")]))
        if k == "STRUCT":
            x, y = self.items(P.f(a, "members")), self.items(P.f(b, "members"))
            return len(x) == len(y) and all(self.mem_same(P.f(m, "data_type"), P.f(n, "data_type"), d + 1) for m, n in zip(x, y))
        if k == "ENUM":
            return False
        return True

    def ref_noop(self, e):
        def eq(a, b, d=0):
            a, b = unpack(a), unpack(b)
            if isinstance(a, str) or isinstance(b, str):
                return a == b
            if d > 6 or a == b:
                return True
            if a[0] != b[0]:
                return False
            if a[0] in ("PTR", "VLA"):
                return eq(a[1], b[1], d + 1)
            if a[0] in ("ARRAY", "C_ARRAY"):
                return eq(a[1], b[1], d + 1) and a[2] == b[2]
            if a[0] == "FN":
                return len(a[2]) == len(b[2]) and eq(a[1], b[1], d + 1) and all(eq(x, y, d + 1) for x, y in zip(a[2], b[2]))
            if a[0] in ("STRUCT", "UNION"):
                return len(a[1]) == len(b[1]) and all(eq(x[1], y[1], d + 1) for x, y in zip(a[1], b[1]))
            return False
        return e.k == "CAST" and eq(e.t, e.kids[0].t)

    def node(self, e, n):
        P = self.P
        n = P.I.value(n)
        if e is None or n == 0:
            if not (e is None and n == 0):
                self.diff("%s where %s is expected" % ("nothing" if n == 0 else P.kname("ND_ADD", P.f(n, "kind")), e.k if e else "nothing"))
            return
        while self.noop_cast(n):
            n = P.f(n, "left")
        while self.ref_noop(e):
            e = e.kids[0]
        k = P.kname("ND_ADD", P.f(n, "kind"))[3:]
        self.exprs += 1
        if k != e.k:
            at = P.tokpos(P.f(n, "tok"))
            self.diff("%s (token %s) where %s to %s is expected" % (k + " " + self.show(P.f(n, "data_type")), at, e.k, tstr(e.t)))
            return
        g = lambda f: P.f(n, f)
        if e.t is not None and k not in ("STRUCT",):
            self.type(e.t, g("data_type"), k + (" of " + e.x.name if k == "ID" else ""))
        elif k == "STRUCT" and kind(e.t) != "STRUCT":
            self.type(e.t, g("data_type"), k)
        if k in self.LR:
            kids = [g("left"), g("right")]
        elif k in ("NEG", "NOT", "BIT_NEG", "REF", "DEREF"):
            kids = [g("right")]
        elif k in ("INC", "DEC", "CAST"):
            kids = [g("left")]
        elif k == "MEMBER":
            kids = [g("left")]
            b = g("body")
            if not isinstance(b, Ptr) or P.ident(P.f(b, "id")).removeprefix("::") != e.x:
                self.diff("member %s is not found" % e.x)
        elif k == "ID":
            o = g("referenced_obj")
            d = self.bound.get(o.loc) if isinstance(o, Ptr) else None
            if d is not e.x:
                self.diff("%s refers to %s, expected %s" % (e.x.name, self.whose(d), self.whose(e.x)))
            return
        elif k == "CALL":
            kids = [g("expr")] + self.items(g("args"))
        elif k in ("ARRAY", "STRUCT"):
            kids = self.items(g("args"))
        elif k == "CLOSURE":
            kids = self.items(g("exprs"))
        elif k == "INDEX":
            kids = [g("left"), g("expr")]
        elif k == "LEN":
            kids = [g("expr")]
        elif k == "TERNARY" or k == "IF":
            kids = [g("condition"), g("if_branch"), g("else_branch")]
        elif k == "LAMBDA":
            self.bind_list(self.items(g("args")), e.x)
            for d in e.x:
                if hasattr(d, "obj"):
                    self.type(d.type, P.f(d.obj, "data_type"), d.name)
            kids = [g("body")]
        elif k == "BLOCK":
            self.bind_list(self.items(g("locals")), e.x)
            for d in e.x:
                if hasattr(d, "obj"):
                    self.type(d.type, P.f(d.obj, "data_type"), "variable " + d.name)
            kids = self.items(g("stmts"))
        elif k == "FOR":
            self.bind_list(self.items(g("locals")), e.x)
            for d in e.x:
                if hasattr(d, "obj"):
                    self.type(d.type, P.f(d.obj, "data_type"), "variable " + d.name)
            kids = [g("init_stmt"), g("condition"), g("expr"), g("body")]
        elif k in ("LOOP", "DEFER", "USING"):
            kids = [g("body")]
        elif k in ("WHILE", "DO_WHILE", "DO_UNLESS", "CASE"):
            kids = [g("condition"), g("body")]
        elif k == "FOR_RANGE":
            kids = [g("left"), g("right"), g("body")]
        elif k == "MATCH":
            kids = [g("condition")] + self.items(g("cases")) + ([g("default_case")] if e.x else [])
        elif k == "EXPR_STMT":
            kids = [g("expr")]
        elif k == "RETURN":
            kids = [g("return_val")]
        else:
            kids = []
        if len(kids) != len(e.kids):
            self.diff("%s has %d parts, expected %d" % (k, len(kids), len(e.kids)))
            return
        for x, y in zip(e.kids, kids):
            self.node(x, y)

    def whose(self, d):
        return "nothing known" if d is None else "the %s %s" % (d.kind.lower().replace("_", " "), d.name)


# ---------------------------------------------------------------- deciding one program

def verdict(p, err, src, ct="CT_ASM", expect=None):
    """-> (outcome, message, interp, paths); outcome ok | differs | skip"""
    try:
        ref = Ref(src, ct)
        errors = ref.errors
    except Reject as r:
        ref, errors = None, [str(r)]
    except Skip as s:
        return "skip", str(s), None, None, 0
    if expect is not None and bool(errors) == expect:
        raise AnalysisBroken("reference finds %r in %r" % (errors, src))
    cnt = [0]

    def look(P):
        m = Match(P, ref)
        cnt[0] += m.exprs
        return m.out
    I, ps, rs = run_program(p, err, src, None if errors else look, ct)
    for r in rs:
        es = ", ".join(str(e[0]) for e in r.errors)
        if errors and r.accepted:
            return "differs", "accepted, but: %s" % errors[0], I, ps, cnt[0]
        if not errors and not r.accepted:
            return "differs", "rejected (%s %s)" % (es, r.why or ""), I, ps, cnt[0]
        if r.bad:
            return "differs", "; ".join(r.bad[:3]), I, ps, cnt[0]
    return "ok", errors[0] if errors else "accepted", I, ps, cnt[0]


# ---------------------------------------------------------------- many programs

_job = None


def _work(i):
    f, items = _job
    box = []

    def go():
        try:
            import time
            t = time.time()
            box.append(("ok", f(items[i])))
            if os.environ.get("PTIME"):
                open("/tmp/ptime", "a").write("%.2f %s\n" % (time.time() - t, str(items[i])[:60]))
        except AnalysisBroken as e:
            box.append(("broken", str(e)))
        except Exception as e:
            import traceback
            box.append(("broken", traceback.format_exc()))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return i, box[0] if box else ("broken", "worker died")


def pmap(f, items, procs=None):
    """f over items in forked processes, results in order; a broken analysis raises"""
    global _job
    _job = (f, items)
    threading.stack_size(256 << 20)
    sys.setrecursionlimit(100000)
    out = [None] * len(items)
    with multiprocessing.get_context("fork").Pool(procs or min(8, os.cpu_count() or 2)) as pool:
        for i, r in pool.imap_unordered(_work, range(len(items)), 1 if len(items) < 64 else 4):
            out[i] = r
    return out

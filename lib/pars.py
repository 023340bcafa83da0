"""Abstract runs of the parser on token lists, and its results read back as trees."""
import re
from gen import *
from grammar import char_code

WORDS = {k: "TOKEN_" + k.upper() for k in "alignof asm break const continue defer do dyn else embed enum extern false fn for if import interface len let loop macro match namespace nil noop "
         "sizeof struct true type typeof union unless using while with".split()}
WORDS.update({"operator": "TOKEN_OPERATOR_KW", "ret": "TOKEN_RETURN", "_": "TOKEN_UNDERSCORE", "<-": "TOKEN_RETURN", "=>": "TOKEN_ARROW", "...": "TOKEN_VA_LIST", "'c": "TOKEN_C_ARRAY",
              "²": "TOKEN_POW_2", "³": "TOKEN_POW_3", "$": "TOKEN_DOLLAR", "`": "TOKEN_INFIX_CALL", "(": "TOKEN_LPAREN", ")": "TOKEN_RPAREN", "[": "TOKEN_LBRACKET",
              "]": "TOKEN_RBRACKET", "{": "TOKEN_LBRACE", "}": "TOKEN_RBRACE", ",": "TOKEN_COMMA", ";": "TOKEN_SEMICOLON", "@": "TOKEN_AT", "#fn": "TOKEN_CURRENT_FN"})
LEX = re.compile(r"""\s*(?:("(?:[^"\\]|\\.)*")|('c(?=\s*\[))|('(?:[^'\\]|\\.)')|(\#fn)|([A-Za-z_]\w*)|(\d+\.\d+)|(\d+)|(\.\.\.|<-|=>)|([-+*/%=&^<>|!?.:~]+)|(.))""")


def tokens(text):
    """blank-separated where needed: operators are maximal runs, as in the lexer"""
    out, i = [], 0
    text = text.strip()
    while i < len(text):
        m = LEX.match(text, i)
        i = m.end()
        st, ca, ch, fn, w, fl, n, ar, op, sy = m.groups()
        if st is not None:
            out.append(("TOKEN_STRING", st[1:-1]))
        elif ch:
            out.append(("TOKEN_CHAR", ch[1:-1]))
        elif fl:
            out.append(("TOKEN_FLOAT", fl))
        elif n:
            out.append(("TOKEN_INT", n))
        elif op:
            out.append(("TOKEN_OPERATOR", op))
        elif w and w not in WORDS:
            out.append(("TOKEN_ID", w))
        else:
            x = ca or fn or w or ar or sy
            out.append((WORDS[x], x))
    return out


def parser_hooks(p, err):
    def hm_init(I, a, e):
        return I.new_heap("hashmap", True)

    def hm_put(I, a, e):
        I.mem[I.deref_loc(a[0]) + (("f", "#" + txt(I, a[1])),)] = I.value(a[2])
        return 0

    def hm_get(I, a, e):
        return I.mem.get(I.deref_loc(a[0]) + (("f", "#" + txt(I, a[1])),), 0)

    def txt(I, v):
        t = I.text(v)
        if not all(isinstance(x, str) for x in t):
            raise AnalysisBroken("unknown key %r" % (t,))
        return "".join(t)

    def number(I, a):
        base = I.value(a[2]) if len(a) > 2 else 10
        digits = "[0-9]+" if base == 10 else "(?:0[xX])?[0-9a-fA-F]+" if base == 16 else None
        m = re.match(r"\s*([-+]?%s)" % digits, txt(I, a[0]))
        return int(m.group(1), base) if m else 0

    def strto(I, a, e):
        return min(number(I, a), (1 << 64) - 1)

    def strtos(I, a, e):
        return max(min(number(I, a), (1 << 63) - 1), -(1 << 63))

    def sscanf(I, a, e):
        f = txt(I, a[1])
        s = txt(I, a[0])
        w = 32 if f == "%f" else 64 if f == "%lf" else None
        if w is None:
            raise AnalysisBroken("sscanf format %r" % f)
        import struct as st
        v = float(s)
        if w == 32:
            v = st.unpack("f", st.pack("f", v))[0]
        I.store(I.deref_loc(a[2]), S("flt", repr(v)))
        return 1

    def strtod(I, a, e):
        return S("flt", repr(float(txt(I, a[0]))))
    h = {"hashmap_init": hm_init, "hashmap_init_sized": hm_init, "hashmap_put": hm_put, "hashmap_get": hm_get, "hashmap_free": lambda I, a, e: None,
         "allocator_malloc": lambda I, a, e: I.new_heap("arena"), "allocator_realloc": None, "throw_error": err.hook(),
         "strtoull": strto, "strtoul": strto, "strtol": strtos, "strtoll": strtos, "__isoc99_sscanf": sscanf, "sscanf": sscanf, "atof": strtod, "strtod": strtod, "strtof": strtod,
         "timer_start": lambda I, a, e: None, "timer_stop": lambda I, a, e: None, "allocator_free": lambda I, a, e: None, "context_register_allocation": lambda I, a, e: None,
         "c_parser_init": lambda I, a, e: None, "c_parser_free": lambda I, a, e: None, "free_list": lambda I, a, e: None}
    del h["allocator_realloc"]
    return h


class Out(Exception):
    pass


class Parse:
    """one abstract parser run"""

    def __init__(self, I, toks, ct="CT_ASM"):
        self.I, self.p = I, I.p
        w = World(I)
        self.w = w
        f = w.obj(path="f.csp")
        items = []
        for k, (ty, v) in enumerate(list(toks) + [("TOKEN_EOF", "EOF")]):
            t = I.new_heap("tok", True)
            I.mem[t.loc + (("f", "type"),)] = self.p.enum(ty)
            I.mem[t.loc + (("f", "line"),)] = k
            I.mem[t.loc + (("f", "source"),)] = f
            I.set_text(Ptr(t.loc + (("f", "value"),)), (v,) if v else ())
            items.append(t)
        self.items = items
        self.index = {t.loc: k for k, t in enumerate(items)}
        ctx = w.obj(ct=0)
        w.set(ctx, ct=self.p.enum(ct))
        I.mem[ctx.loc + (("f", "flags"), ("f", "silent"))] = 1
        I.mem[ctx.loc + (("f", "emitted_errors"),)] = 0
        self.ctx = ctx
        ast = w.obj(tokens=items, objs=[], files=[f])
        self.ast = ast
        self.toks = list_of(I, items)
        I.mem[ast.loc + (("f", "tokens"),)] = self.toks
        self.objs = list_of(I, [])
        I.mem[ast.loc + (("f", "objs"),)] = self.objs
        self.P = I.new_heap("parser")
        I.run_fn(self.p.fn("init_parser"), [self.P, ctx, ast])

    def f(self, o, *names):
        o = self.I.value(o)
        return self.I.value(self.I.load(self.I.deref_loc(o) + tuple(("f", n) for n in names)))

    def pos(self):
        """index of the current token"""
        return self.f(self.P, "token_i")

    def s(self, v):
        t = self.I.text(v)
        return "".join(x if isinstance(x, str) else "\x00%r" % (x,) for x in t)

    def kname(self, first, v):
        for n, x in self.p.enum_members(first):
            if x == v and not n.endswith("KIND_LEN"):
                return n
        return v

    def tokpos(self, t):
        t = self.I.value(t)
        return self.index.get(t.loc) if isinstance(t, Ptr) else None

    def ident(self, i):
        i = self.I.value(i)
        if i == 0:
            return None
        o = self.ident(self.f(i, "outer"))
        n = self.s(self.f(i, "callee"))
        return (o + "::" if o else "::" if self.f(i, "global_scope") == 1 else "") + n

    def lst(self, l, f):
        l = self.I.value(l)
        if l == 0:
            return None
        r = list_items(self.I, l)
        if r is None:
            raise AnalysisBroken("list of unknown size")
        return tuple(f(x) for x in r)

    def type(self, t):
        t = self.I.value(t)
        if t == 0:
            return None
        k = self.kname("TY_I8", self.f(t, "kind"))[3:]
        c = ("const",) if self.f(t, "is_constant") == 1 else ()
        if k in ("PTR", "VLA", "DYN"):
            r = (k, self.type(self.f(t, "base")))
        elif k in ("ARRAY", "C_ARRAY"):
            n = self.f(t, "num_indices_node")
            r = (k, self.type(self.f(t, "base")), self.tree(n) if n != 0 else self.f(t, "num_indices"))
        elif k == "FN":
            r = (k, self.type(self.f(t, "base")), self.lst(self.f(t, "arg_types"), self.type)) + (("...",) if self.f(t, "is_variadic") else ())
        elif k == "STRUCT":
            r = ("UNION" if self.f(t, "is_union") == 1 else k, self.lst(self.f(t, "members"), self.member))
        elif k == "ENUM":
            r = (k, self.lst(self.f(t, "members"), lambda m: (self.ident(self.f(m, "id")), self.tree(self.f(m, "value"))) +
                                                              tuple(x for x in ("is_constant", "constexpr") if self.f(m, x) == 1) + (self.type(self.f(m, "data_type")),)))
        elif k == "INTERFACE":
            r = (k, self.lst(self.f(t, "func_decls"), self.obj))
        elif k == "TYPEOF":
            r = (k, self.tree(self.f(t, "num_indices_node")))
        elif k == "UNDEF":
            r = self.ident(self.f(t, "id"))
            if re.match(r"(::)?__csp_tuple_\d+__$", r):
                r = self.tuple(self.f(t, "id"))
        else:
            r = k.lower()
        return ("const", r) if c else r

    def tuple(self, i):
        """the members of the type a tuple's generated name stands for"""
        n = self.ident(i)
        d = [o for o in list_items(self.I, self.objs) if self.kname("OBJ_FUNCTION", self.f(o, "kind")) == "OBJ_TYPEDEF" and self.ident(self.f(o, "id")) == n]
        if len(d) != 1:
            return (n, "defined %d times" % len(d))
        t = self.type(self.f(d[0], "data_type"))
        ms = t[1] if isinstance(t, tuple) and t[0] == "STRUCT" else ()
        if [m[0] for m in ms] != ["::_%d" % i for i in range(len(ms))]:
            return (n, t)
        return ("TUPLE", tuple(ms))

    def member(self, m):
        k = self.kname("ND_ADD", self.f(m, "kind"))
        return (self.ident(self.f(m, "id")) if k == "ND_STRUCT_MEMBER" else k, self.type(self.f(m, "data_type")))

    def obj(self, o, ns=None):
        o = self.I.value(o)
        if o == 0:
            return None
        k = self.kname("OBJ_FUNCTION", self.f(o, "kind"))[4:]
        full = n = self.ident(self.f(o, "id"))
        if ns:          # a member of a namespace carries its path
            n = n[len(ns) + 2:] if n.startswith(ns + "::") else "outside:" + n
        d = tuple(x for x in ("is_constant", "is_extern", "is_extern_c", "constexpr", "interface_func") if self.f(o, x) == 1)
        if k in ("FUNCTION",):
            va = self.f(o, "va_area")
            return (k, n, self.lst(self.f(o, "args"), self.obj), self.ident(self.f(va, "id")) if va != 0 else None, self.type(self.f(o, "return_type")), self.type(self.f(o, "dyn_base_type")),
                    self.tree(self.f(o, "body")), d, tuple(sorted(self.lst(self.f(o, "objs"), lambda x: self.ident(self.f(x, "id"))) or ())),
                    self.type(self.f(o, "data_type")))
        if k == "NAMESPACE":
            return (k, n, self.lst(self.f(o, "objs"), lambda x: self.obj(x, full)))
        if k == "GLOBAL":
            return (k, n, self.type(self.f(o, "data_type")), self.tree(self.f(o, "value")), d)
        return (k, n, self.type(self.f(o, "data_type")), d)

    BIN = "ADD SUB MUL DIV MOD EQ NE GT GE LT LE AND OR ASSIGN LSHIFT RSHIFT XOR BIT_OR BIT_AND ELSE_EXPR PIPE MEMBER".split()

    def tree(self, n):
        n = self.I.value(n)
        if n == 0:
            return None
        if not isinstance(n, Ptr):
            raise AnalysisBroken("unknown node %r" % (n,))
        g = lambda *f: self.f(n, *f)
        T = lambda *f: self.tree(self.f(n, *f))
        L = lambda f: self.lst(self.f(n, f), self.tree)
        k = self.kname("ND_ADD", g("kind"))[3:]
        if k in self.BIN:
            r = (k, T("left"), T("right"))
            if k == "ASSIGN" and g("is_initializing") == 1:
                o = g("referenced_obj")
                r = ("INIT",) + r[1:] + (self.ident(self.f(o, "id")) if o != 0 else None,)
            elif k in ("EQ", "NE", "GT", "GE", "LT", "LE", "AND", "OR") and self.type(g("data_type")) != "bool":
                r += (self.type(g("data_type")),)
        elif k in ("NEG", "NOT", "BIT_NEG", "REF", "DEREF"):
            r = (k, T("right"))
        elif k in ("INC", "DEC"):
            r = (k, T("left"))
        elif k == "ID":
            r = ("ID", self.ident(g("id")))
        elif k in ("INT", "LONG", "ULONG", "FLOAT", "DOUBLE", "BOOL"):
            v = g({"INT": "int_val", "LONG": "long_val", "ULONG": "ulong_val", "FLOAT": "float_val", "DOUBLE": "double_val", "BOOL": "bool_val"}[k])
            fv = self.I.fconst(v) if isinstance(v, Sym) else None
            r = (k, v if fv is None else fv, self.type(g("data_type")))
        elif k == "NIL":
            r = (k, self.type(g("data_type")))
        elif k == "CHAR":
            v = self.I.value(g("str_val"))      # its text, or in the place of that its value
            r = (k, char_code(self.s(v)) if isinstance(v, Ptr) else g("int_val"), self.type(g("data_type")))
        elif k == "STR":
            r = (k, self.s(g("str_val")), self.type(g("data_type")))
        elif k == "CALL":
            r = (k, T("expr"), L("args"))
        elif k in ("ARRAY",):
            r = (k, L("args"))
        elif k == "STRUCT":
            r = (k, L("args"), self.type(g("data_type")))
        elif k == "CLOSURE":
            r = (k, L("exprs"))
        elif k == "INDEX":
            r = (k, T("left"), T("expr")) + (("back",) if g("from_back") else ())
        elif k == "CAST":
            r = (k, T("left"), self.type(g("data_type")))
        elif k in ("SIZEOF", "ALIGNOF"):
            r = (k, self.type(g("the_type")), self.type(g("data_type")))
        elif k == "LEN":
            r = (k, T("expr"), self.type(g("data_type")))
        elif k == "TERNARY":
            r = (k, T("condition"), T("if_branch"), T("else_branch"))
        elif k == "LAMBDA":
            r = (k, self.lst(g("args"), self.obj), self.type(g("data_type")), T("body"))
        elif k == "TYPE_EXPR":
            lt = self.type(g("l_type"))
            r = (k, self.kname("ND_ADD", g("cmp_kind"))[3:], lt, self.type(g("r_type")), self.type(g("data_type")))
        elif k in ("HOLE", "NOOP", "BREAK", "CONTINUE"):
            r = (k,)
        # statements
        elif k == "BLOCK":
            r = (k, self.lst(g("locals"), self.obj), L("stmts"))
        elif k == "RETURN":
            r = (k, T("return_val"))
        elif k == "IF":
            r = (k, T("condition"), T("if_branch"), T("else_branch"))
        elif k in ("LOOP", "DEFER"):
            r = (k, T("body"))
        elif k in ("WHILE", "DO_WHILE", "DO_UNLESS"):
            r = (k, T("condition"), T("body"))
        elif k == "FOR":
            r = (k, self.lst(g("locals"), self.obj), T("init_stmt"), T("condition"), T("expr"), T("body"))
        elif k == "FOR_RANGE":
            r = (k, T("left"), T("right"), T("body"))
        elif k in ("MATCH", "MATCH_TYPE"):
            r = (k, self.type(g("data_type")) if k == "MATCH_TYPE" else T("condition"), L("cases"), T("default_case"))
        elif k == "CASE":
            r = (k, "default" if g("is_default_case") else self.kname("ND_ADD", g("mode"))[3:], T("condition"), T("body"))
        elif k == "CASE_TYPE":
            r = (k, "default" if g("is_default_case") else self.type(g("data_type")), T("body"))
        elif k == "EXPR_STMT":
            r = (k, T("expr"))
        elif k == "WITH":
            r = (k, self.obj(g("obj")), T("condition"), T("if_branch"), T("else_branch"))
        elif k == "USING":
            r = (k, self.lst(g("ids"), self.ident), T("body"))
        elif k == "ASM":
            r = (k, L("args"))
        elif k == "EXTERN_C_BLOCK":
            r = (k, T("body"))
        else:
            raise AnalysisBroken("tree kind %r" % (k,))
        u = g("unpack_mode")
        if u:
            r = ("UNPACK", u, r)
        if k == "ID" and g("output") == 1:
            r = ("OUT", r)
        return r

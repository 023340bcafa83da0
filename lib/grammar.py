"""Reference grammar of the language: tokens -> tree, as pars.Parse reads trees back."""
import struct

ESC = {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13, "'": 39, '"': 34, "\\": 92, "0": 0}


def char_code(s):
    """value of a character literal, None for one there is not"""
    if s[:1] == "\\":
        return ESC.get(s[1:2])
    n = ord(s[0])
    return n - 256 if n > 127 else n

BINOP = {"+": "ADD", "-": "SUB", "*": "MUL", "/": "DIV", "%": "MOD", "==": "EQ", "!=": "NE", ">": "GT", ">=": "GE", "<": "LT", "<=": "LE", "&&": "AND", "||": "OR", "<<": "LSHIFT",
         ">>": "RSHIFT", "^": "XOR", "|": "BIT_OR", "&": "BIT_AND"}
LEVEL = {}
for i, ops in enumerate(["= += -= *= /= %= &= |= ^= <<= >>=", "|>", "custom", "||", "&&", "` else", ":", "|", "^", "&", "== !=", "< > <= >=", "<< >>", "+ -", "* /", "%", "prefix", "² ³",
                         "++ --", "sizeof", "(", "[", "."]):
    for o in ops.split():
        LEVEL[o] = i + 1
UN = {"-": "NEG", "!": "NOT", "~": "BIT_NEG", "&": "REF", "*": "DEREF"}
BUILTIN = set(BINOP) | set("++ -- += -= *= /= %= &= |= ^= <<= >>= = ~ ! |> : :: . ..".split())
PRIM = "i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 f80 void char bool".split()
TEXPR = {"reg_class": "i32", "to_str": ("PTR", "char")}
TEXPR.update({k: "bool" for k in "is_int is_uint is_float is_pointer is_array is_struct is_union".split()})


class Bad(Exception):
    """the source is malformed at this token"""


def f32(v):
    return struct.unpack("f", struct.pack("f", v))[0]


def fntype(ret, args, va):
    return ("const", ("FN", ret, tuple(a[2] for a in args)) + (("...",) if va else ()))


def locs(t):
    """names of everything declared in a function's body"""
    out = []

    def go(t):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] in ("BLOCK", "FOR"):
            out.extend(x[1] for x in t[1])
        elif t[0] == "WITH":
            out.append(t[1][1])
        elif t[0] == "LAMBDA" and len(t) == 4:
            out.extend(x[1] for x in t[1])
        for x in t:
            go(x)
    go(t)
    return tuple(sorted(out))


class G:
    def __init__(self, toks, ct="CT_ASM", fn=None):
        self.t = list(toks) + [("TOKEN_EOF", "EOF")]
        self.i = 0
        self.ct = ct
        self.holes = False
        self.used = False
        self.tern = False
        self.ret = None         # type a `<-` returns
        self.fn = fn            # return type of the function being parsed, None outside
        self.blocks = []        # open blocks / for loops
        self.objs = []
        self.errors = []        # errors that do not stop the parser
        self.nl = 0

    # tokens
    def k(self, n=0):
        return self.t[self.i + n][0][6:] if self.i + n < len(self.t) else None

    def v(self, n=0):
        return self.t[self.i + n][1]

    def op(self, o=None, n=0):
        return self.k(n) == "OPERATOR" and (o is None or self.v(n) == o)

    def eat(self, k):
        if self.k() != k or k == "EOF":
            raise Bad(self.i)
        self.i += 1
        return self.t[self.i - 1][1]

    def eatop(self, o):
        if not self.op(o):
            raise Bad(self.i)
        self.i += 1

    def skip(self):
        if self.k() == "EOF":
            raise Bad(self.i)
        self.i += 1

    # identifiers and types
    def ident(self, simple=False, outer=None):
        g = False
        if self.op("::") and self.k(1) == "ID":
            self.i += 1
            g = True
        n = self.eat("ID")
        r = outer + "::" + n if outer else ("::" if g else "") + n
        if self.op("::") and not simple and self.k(1) == "ID":
            self.i += 1
            return self.ident(False, r)
        return r

    def members(self):
        r = []
        self.eat("LBRACE")
        while self.k() != "RBRACE":
            if self.k() == "EMBED":
                self.i += 1
                r.append(("ND_EMBED_STRUCT", self.type()))
            else:
                n = self.ident(True)
                self.eatop(":")
                r.append((n, self.type()))
            if self.k() != "RBRACE":
                self.eat("COMMA")
        self.i += 1
        return tuple(r)

    def type(self):
        k = self.k()
        if self.v() in PRIM:
            t = self.v()
            self.i += 1
        elif k == "CONST":
            self.i += 1
            return ("const", self.type())
        elif k == "LPAREN":
            self.i += 1
            t = self.type()
            self.eat("RPAREN")
        elif k == "FN":
            self.i += 1
            b = "void"
            if self.op() and self.v()[0] == "<":
                if self.v() == "<":
                    self.i += 1
                else:
                    self.t[self.i] = ("TOKEN_OPERATOR", self.v()[1:])
                b = self.type()
                self.eatop(">")
            a = []
            if self.k() == "LPAREN":
                self.i += 1
                while self.k() != "RPAREN":
                    a.append(self.type())
                    if self.k() != "RPAREN":
                        self.eat("COMMA")
                self.i += 1
            t = ("FN", b, tuple(a))
        elif k in ("STRUCT", "UNION"):
            self.i += 1
            t = (k, self.members())
        elif k == "ENUM":
            self.i += 1
            self.eat("LBRACE")
            ms = []
            while self.k() != "RBRACE":
                n = self.ident(True)
                v = ("NOOP",)
                if self.op("="):
                    self.i += 1
                    v = self.expr(0, "COMMA")
                ms.append((n, v, "is_constant", "constexpr", "i32"))
                if self.k() != "RBRACE":
                    self.eat("COMMA")
            self.i += 1
            t = ("ENUM", tuple(ms))
        elif k == "INTERFACE":
            self.i += 1
            self.eat("LBRACE")
            ms = []
            while self.k() != "RBRACE":
                if self.k() not in ("FN", "OPERATOR_KW"):
                    raise Bad(self.i)
                f = self.fndef()
                ms.append(f + (None, ("interface_func",), (), fntype(f[4], f[2], f[3])))
                if self.k() != "RBRACE":
                    self.eat("COMMA")
            self.i += 1
            t = ("INTERFACE", tuple(ms))
        elif self.op() and not self.op("::"):
            n = self.v()
            if set(n) != {"&"}:
                raise Bad(self.i)
            self.i += 1
            t = self.type()
            for _ in n:
                t = ("PTR", t)
        elif k == "LBRACE":
            self.i += 1
            ms = []
            while self.k() != "RBRACE":
                ms.append(("::_%d" % len(ms), self.type()))
                if self.k() != "RBRACE":
                    self.eat("COMMA")
            self.i += 1
            t = ("TUPLE", tuple(ms))
        elif k == "TYPEOF":
            self.i += 1
            t = ("TYPEOF", self.expr(LEVEL["sizeof"]))
        elif k == "DYN":
            self.i += 1
            t = ("DYN", self.type())
        else:
            t = self.ident()
        while True:
            if self.k() == "LBRACKET":
                self.i += 1
                if self.k() == "RBRACKET":
                    t = ("VLA", t)
                else:
                    t = ("ARRAY", t, self.expr(0, "RBRACKET"))
                self.eat("RBRACKET")
            elif self.k() == "C_ARRAY":
                self.i += 1
                self.eat("LBRACKET")
                t = ("C_ARRAY", t, self.expr(0, "RBRACKET"))
                self.eat("RBRACKET")
            else:
                return t

    # expressions
    def level(self):
        k = self.k()
        if k == "OPERATOR":
            o = self.v()
            if o in ("~", "!", "::", ".."):
                return 0
            return LEVEL[o if o in BUILTIN else "custom"]
        return {"LPAREN": LEVEL["("], "LBRACKET": LEVEL["["], "POW_2": LEVEL["²"], "POW_3": LEVEL["³"], "ELSE": LEVEL["else"], "INFIX_CALL": LEVEL["`"]}.get(k, 0)

    def expr(self, lvl=0, end="EOF"):
        old = self.tern
        if end not in ("EOF", "SEMICOLON"):
            self.tern = end == "ELSE"
        r = self.prefix()
        while not (self.tern and self.k() == "ELSE") and self.k() != end and lvl < self.level():
            r = self.infix(r)
        self.tern = old
        return r

    def exprs(self, end, unpack):
        r = []
        while self.k() not in (end, "EOF"):
            u = 0
            if unpack and self.k() == "VA_LIST":
                self.i += 1
                u = 1
            e = self.expr(0, "COMMA")
            if unpack and self.k() == "VA_LIST":
                if u:
                    self.errors.append(self.i)
                self.i += 1
                u = 2
            r.append(("UNPACK", u, e) if u else e)
            if self.k() != end:
                self.eat("COMMA")
        self.eat(end)
        return tuple(r)

    def lambda_args(self):
        a = []
        if self.op("||"):
            self.i += 1
            return a
        self.eatop("|")
        while not self.op("|"):
            n = self.ident(True)
            self.eatop(":")
            a.append(("FN_ARG", n, self.type(), ()))
            if not self.op("|"):
                self.eat("COMMA")
        self.i += 1
        return a

    def lambda_body(self):
        b = "void"
        if self.k() != "ARROW" and not self.op("="):
            b = self.type()
        if self.op("="):
            self.i += 1
            body = ("RETURN", self.expr(0, "SEMICOLON"))
        else:
            self.eat("ARROW")
            old, self.ret = self.ret, b
            body = self.stmt(False)
            self.ret = old
        return b, body

    def prefix(self):
        k, v = self.k(), self.v() if self.i < len(self.t) else None
        if k == "ID" or self.op("::"):
            n = self.ident()
            if self.op("::") and self.k(1) == "LBRACE":
                self.i += 2
                return ("STRUCT", self.exprs("RBRACE", False), n)
            return ("ID", n)
        if k == "INT":
            self.i += 1
            n = int(v)
            return ("INT", n, "i32") if n < 1 << 31 else ("LONG", n, "i64") if n < 1 << 63 else ("ULONG", n, "u64")
        if k == "FLOAT":
            self.i += 1
            n = float(v)
            return ("FLOAT", f32(n), "f32") if n <= 3.4028234663852886e38 else ("DOUBLE", n, "f64")
        if k in ("TRUE", "FALSE"):
            self.i += 1
            return ("BOOL", int(k == "TRUE"), "bool")
        if k == "NIL":
            self.i += 1
            return ("NIL", ("PTR", "void"))
        if k == "CHAR":
            self.i += 1
            if char_code(v) is None:
                self.errors.append(self.i - 1)
            return ("CHAR", char_code(v), "char")
        if k == "STRING":
            s = ""
            while self.k() == "STRING":
                s += self.v()
                self.i += 1
            return ("STR", s, ("PTR", "char"))
        if k == "LPAREN":
            self.i += 1
            r = [self.expr(0, "RPAREN")]
            while self.k() != "RPAREN":
                self.eat("COMMA")
                if self.k() == "RPAREN":
                    break
                r.append(self.expr(0, "RPAREN"))
            self.i += 1
            return ("CLOSURE", tuple(r))
        if k == "LBRACKET":
            self.i += 1
            return ("ARRAY", self.exprs("RBRACKET", self.fn is not None))
        if k == "LBRACE":
            self.i += 1
            return ("STRUCT", self.exprs("RBRACE", False), None)
        if k in ("SIZEOF", "ALIGNOF"):
            self.i += 1
            return (k, self.type(), "u64")
        if k == "LEN":
            self.i += 1
            return (k, self.expr(0), "u64")
        if k == "DOLLAR":
            if not self.holes:
                raise Bad(self.i)
            self.i += 1
            self.used = True
            return ("HOLE",)
        if k == "IF":
            self.i += 1
            c = self.expr(0, "ARROW")
            self.eat("ARROW")
            a = self.expr(0, "ELSE")
            self.eat("ELSE")
            return ("TERNARY", c, a, self.expr(0, "SEMICOLON"))
        if k == "TYPE":
            self.i += 1
            self.eatop("::")
            if self.k() == "LPAREN":
                self.i += 1
                l = self.type()
                o = self.v()
                if not (self.op() and o in ("==", "!=", ">", ">=", "<", "<=")):
                    raise Bad(self.i)
                self.i += 1
                r = self.type()
                self.eat("RPAREN")
                return ("TYPE_EXPR", BINOP[o], l, r, "bool")
            n = self.v()
            if self.k() != "ID" or n not in TEXPR:
                raise Bad(self.i)
            self.i += 1
            self.eat("LPAREN")
            t = self.type()
            self.eat("RPAREN")
            return ("TYPE_EXPR", "BUILTIN_" + n.upper(), None, t, TEXPR[n])
        if k == "CONST":
            self.i += 1
            if not (self.op("|") or self.op("||")):
                raise Bad(self.i)
            a = self.lambda_args()
            b, body = self.lambda_body()
            self.objs.append(("FUNCTION", "const", tuple(a), None, b, None, body, (), locs(body), fntype(b, a, None)))
            return ("ID", "const")
        if k == "OPERATOR":
            if v in ("|", "||"):
                a = self.lambda_args()
                b, body = self.lambda_body()
                return ("LAMBDA", tuple(a), ("FN", b, tuple(x[2] for x in a)), body)
            if v in UN:
                self.i += 1
                return (UN[v], self.expr(LEVEL["prefix"]))
            if v not in BUILTIN:
                self.i += 1
                return ("CALL", ("ID", v), (self.expr(LEVEL["prefix"]),))
        raise Bad(self.i)

    def infix(self, l):
        k, v, lv = self.k(), self.v(), self.level()
        if k == "OPERATOR":
            if v not in BUILTIN:
                self.i += 1
                return ("CALL", ("ID", v), (l, self.expr(lv)))
            if v in BINOP:
                self.i += 1
                return (BINOP[v], l, self.expr(lv))
            if v == "=":
                self.i += 1
                return ("ASSIGN", l, self.expr(0))
            if v[-1] == "=":
                self.i += 1
                return ("ASSIGN", l, (BINOP[v[:-1]], l, self.expr(0)))
            if v in ("++", "--"):
                self.i += 1
                return ("INC" if v == "++" else "DEC", l)
            if v == "|>":
                self.i += 1
                h, u = self.holes, self.used
                self.holes, self.used = True, False
                r = self.expr(lv)
                self.holes = h
                if not self.used and r[0] == "CALL":
                    r = ("CALL", r[1], (("HOLE",),) + r[2])
                self.used = u
                return ("PIPE", l, r)
            if v == ":":
                self.i += 1
                return ("CAST", l, self.type())
            if v == ".":
                self.i += 1
                r = self.expr(lv)
                if r[0] != "ID":
                    raise Bad(self.i)
                return ("MEMBER", l, r)
        if k == "LPAREN":
            self.i += 1
            return ("CALL", l, self.exprs("RPAREN", True))
        if k == "LBRACKET":
            self.i += 1
            b = ()
            if self.op("^"):
                self.i += 1
                b = ("back",)
            e = self.expr(0, "RBRACKET")
            self.eat("RBRACKET")
            return ("INDEX", l, e) + b
        if k in ("POW_2", "POW_3"):
            self.i += 1
            m = ("MUL", l, l) if k == "POW_2" else ("MUL", l, ("MUL", l, l))
            return ("CLOSURE", (m,)) if self.ct == "CT_TRANSPILE" else m
        if k == "ELSE":
            self.i += 1
            return ("ELSE_EXPR", l, self.expr(lv))
        if k == "INFIX_CALL":
            self.i += 1
            f = self.ident()
            self.eat("INFIX_CALL")
            return ("CALL", ("ID", f), (l, self.expr(lv)))
        raise Bad(self.i)

    # statements
    def semi(self, need):
        if need:
            self.eat("SEMICOLON")

    def local(self):
        c = self.k() == "CONST"
        self.i += 1
        n = self.ident(True)
        t = v = None
        if self.op(":"):
            self.i += 1
            t = self.type()
            if self.op("="):
                self.i += 1
                v = self.expr(0, "SEMICOLON")
        else:
            self.eatop("=")
            v = self.expr(0, "SEMICOLON")
        self.eat("SEMICOLON")
        if not self.blocks or self.blocks[-1] is None:
            raise Bad(self.i)
        self.blocks[-1].append(("LOCAL", n, t, ("is_constant",) if c else ()))
        return ("INIT", ("ID", n), v, n) if v is not None else None

    def executable(self, e):
        if e[0] == "CLOSURE":
            return self.executable(e[1][-1])
        if e[0] == "PIPE":
            return self.executable(e[2])
        if e[0] == "TERNARY":
            return self.executable(e[2]) and self.executable(e[3])
        return e[0] in ("CALL", "ASSIGN", "INC", "DEC", "CAST", "MEMBER")

    def stmt(self, need=True):
        k = self.k()
        if k == "LBRACE":
            self.i += 1
            t, self.tern = self.tern, False
            self.blocks.append([])
            ss = []
            while self.k() != "RBRACE":
                ss.append(self.stmt(True))
            self.i += 1
            self.tern = t
            return ("BLOCK", tuple(self.blocks.pop()), tuple(ss))
        if k == "RETURN":
            self.i += 1
            v = None
            if self.k() not in ("SEMICOLON", "UNLESS", "WHILE"):
                if self.ret == "void":
                    self.errors.append(self.i)
                v = self.expr(0, "SEMICOLON")
            self.semi(need)
            return ("RETURN", v)
        if k == "IF":
            self.i += 1
            c = self.expr()
            a = self.stmt(need)
            b = None
            if self.k() == "ELSE":
                self.i += 1
                b = self.stmt(need)
            return ("IF", c, a, b)
        if k == "LOOP":
            self.i += 1
            return ("LOOP", self.stmt(need))
        if k == "WHILE":
            self.i += 1
            c = self.expr(0, "SEMICOLON")
            return ("WHILE", c, self.stmt(need))
        if k == "FOR":
            self.i += 1
            self.blocks.append([])
            try:
                init = c = e = None
                if self.k() == "SEMICOLON":
                    self.i += 1
                elif self.k() == "LET":
                    init = self.local()
                    if init is None:
                        raise Bad(self.i)
                    init = ("EXPR_STMT", init)
                else:
                    init = self.expr(0, "SEMICOLON")
                    if self.op(".."):
                        self.i += 1
                        self.blocks[-1] = None      # a range loop declares nothing
                        r = self.expr(0, "SEMICOLON")
                        return ("FOR_RANGE", init, r, self.stmt(need))
                    init = ("EXPR_STMT", init)
                    self.eat("SEMICOLON")
                if self.k() != "SEMICOLON":
                    c = self.expr(0, "SEMICOLON")
                self.eat("SEMICOLON")
                if self.k() != "SEMICOLON":
                    e = self.expr(0, "SEMICOLON")
                self.eat("SEMICOLON")
                b = self.stmt(need)
                return ("FOR", tuple(self.blocks[-1]), init, c, e, b)
            finally:
                self.blocks.pop()
        if k == "MATCH":
            self.i += 1
            if self.k() == "LPAREN" and self.k(1) == "TYPE":
                self.i += 2
                self.eat("RPAREN")
                return self.cases("MATCH_TYPE", self.type())
            return self.cases("MATCH", self.expr(0, "LBRACE"))
        if k == "WITH":
            self.i += 1
            n = self.ident(True)
            t = None
            if self.op(":"):
                self.i += 1
                t = self.type()
            self.eatop("=")
            v = self.expr(0, "LBRACE")
            a = self.stmt(need)
            b = None
            if self.k() == "ELSE":
                self.i += 1
                b = self.stmt(need)
            return ("WITH", ("LOCAL", n, t, ()), ("INIT", ("ID", n), v, n), a, b)
        if k == "DO":
            self.i += 1
            b = self.stmt(False)
            w = self.k()
            if w not in ("UNLESS", "WHILE"):
                raise Bad(self.i)
            self.i += 1
            c = self.expr(0, "SEMICOLON")
            self.eat("SEMICOLON")
            return ("DO_" + w, c, b)
        if k == "ASM":
            self.i += 1
            a = []
            while self.k() != "SEMICOLON":
                if self.op("&"):
                    self.i += 1
                    if self.k() != "ID" and not self.op("::"):
                        raise Bad(self.i)
                    a.append(("OUT", self.prefix()))
                elif self.k() in ("STRING", "INT", "ID") or self.op("::"):
                    a.append(self.prefix())
                else:
                    raise Bad(self.i)
            self.semi(need)
            return ("ASM", tuple(a))
        if k in ("CONST", "LET"):
            r = self.local()
            return ("EXPR_STMT", r) if r else ("NOOP",)
        if k in ("BREAK", "CONTINUE"):
            self.i += 1
            self.semi(need)
            return (k,)
        if k == "DEFER":
            self.i += 1
            return ("DEFER", self.stmt(need))
        if k == "USING":
            self.i += 1
            ids = [self.ident()]
            while self.k() == "COMMA":
                self.i += 1
                ids.append(self.ident())
            b = None
            if self.k() == "FOR":
                self.i += 1
                b = self.stmt(need)
            else:
                self.semi(need)
            return ("USING", tuple(ids), b)
        if k == "SEMICOLON":
            self.i += 1
            return ("NOOP",)
        if k == "NOOP":
            self.i += 1
            self.semi(need)
            return ("NOOP",)
        if k == "EXTERN":
            self.i += 1
            if self.eat("STRING") not in ("c", "C"):
                raise Bad(self.i)
            self.eat("LPAREN")
            if self.k() != "STRING":
                raise Bad(self.i)
            s = self.prefix()
            self.eat("RPAREN")
            self.eat("SEMICOLON")
            return ("EXTERN_C_BLOCK", s)
        e = self.expr(0, "SEMICOLON")
        if not self.executable(e):
            self.errors.append(self.i)
        self.semi(need)
        return ("EXPR_STMT", e)

    def cases(self, kind, what):
        self.eat("LBRACE")
        cs, dflt = [], None
        ty = kind == "MATCH_TYPE"
        while self.k() != "RBRACE":
            if self.k() == "UNDERSCORE":
                self.i += 1
                head = ("CASE_TYPE", "default") if ty else ("CASE", "default", None)
            elif ty:
                head = ("CASE_TYPE", self.type())
            else:
                m = "EQ"
                if self.op() and self.v() in ("<", "<=", ">", ">="):
                    m = BINOP[self.v()]
                    self.i += 1
                head = ("CASE", m, self.expr(0, "ARROW"))
            self.eat("ARROW")
            c = head + (self.stmt(True),)
            if head[1] == "default":
                if dflt:
                    raise Bad(self.i)
                dflt = c
            else:
                cs.append(c)
        self.i += 1
        return (kind, what, tuple(cs), dflt)

    # definitions
    def fndef(self):
        oper = self.k() == "OPERATOR_KW"
        self.i += 1
        if oper:
            n = "::" + self.v()
            if not self.op() or self.v() in BUILTIN:
                raise Bad(self.i)
            self.i += 1
        else:
            n = self.ident(True)
        self.eat("LPAREN")
        a, va = [], None
        while self.k() != "RPAREN":
            if self.k(2) == "VA_LIST":
                va = self.ident(True)
                self.eatop(":")
                self.i += 1
                if self.k() != "RPAREN":
                    raise Bad(self.i)
                break
            m = self.ident(True)
            self.eatop(":")
            a.append(("FN_ARG", m, self.type(), ()))
            if self.k() != "RPAREN":
                self.eat("COMMA")
        self.eat("RPAREN")
        if oper and len(a) not in (1, 2):
            self.errors.append(self.i)
        r = "void"
        if self.op(":"):
            self.i += 1
            r = self.type()
        return ("FUNCTION", n, tuple(a), va, r, None)

    def function(self):
        f = self.fndef()
        old, self.fn = self.fn, f[4]
        self.ret = f[4]
        if self.op("="):
            self.i += 1
            b = ("RETURN", self.expr(0, "SEMICOLON"))
            self.eat("SEMICOLON")
        else:
            b = self.stmt(True)
        self.fn = old
        self.ret = None
        return f + (b, (), locs(b), fntype(f[4], f[2], f[3]))

    def globl(self, flags=()):
        d = ("is_constant",) if self.k() == "CONST" else ()
        ce = ("constexpr",) if d else ()
        self.i += 1
        n = self.ident(True)
        self.eatop(":")
        t = self.type()
        v = None
        if self.op("="):
            self.i += 1
            v = self.expr(0, "SEMICOLON")
        self.eat("SEMICOLON")
        return ("GLOBAL", n, t, v, d + flags + ce)

    def extern_def(self, c):
        fl = ("is_extern",) + (("is_extern_c",) if c else ())
        if self.k() in ("CONST", "LET"):
            return self.globl(fl)
        if self.k() in ("FN", "OPERATOR_KW"):
            f = self.fndef()
            self.eat("SEMICOLON")
            return f + (None, fl, (), fntype(f[4], f[2], f[3]))
        raise Bad(self.i)

    def obj(self, out):
        k = self.k()
        if k == "TYPE":
            self.i += 1
            n = self.ident(True)
            self.eatop(":")
            t = self.type()
            self.eat("SEMICOLON")
            out.append(("TYPEDEF", n, t, ()))
        elif k in ("CONST", "LET"):
            out.append(self.globl())
        elif k in ("FN", "OPERATOR_KW"):
            out.append(self.function())
        elif k == "DYN":
            self.i += 1
            self.eat("LPAREN")
            t = self.type()
            self.eat("RPAREN")
            if self.k() not in ("FN", "OPERATOR_KW"):
                raise Bad(self.i)
            f = self.function()
            out.append(f[:5] + (t,) + f[6:])
        elif k == "EXTERN":
            self.i += 1
            c = False
            if self.k() == "STRING":
                if self.v() not in ("c", "C"):
                    raise Bad(self.i)
                c = True
                self.i += 1
            if self.k() == "LBRACE":
                self.i += 1
                while self.k() != "RBRACE":
                    out.append(self.extern_def(c))
                self.i += 1
            else:
                out.append(self.extern_def(c))
        elif k == "NAMESPACE":
            self.i += 1
            n = self.ident(True)
            old = [o for o in out if o[0] == "NAMESPACE" and o[1] == n]
            l = old[0][2] if old else []
            if not old:
                out.append(("NAMESPACE", n, l))
            self.eat("LBRACE")
            while self.k() != "RBRACE":
                self.obj(l)
            self.i += 1
        else:
            raise Bad(self.i)

    def program(self):
        while self.k() != "EOF":
            if self.k() == "IMPORT":
                self.i += 1
                self.eat("STRING")
                self.eat("SEMICOLON")
            else:
                self.obj(self.objs)
        def freeze(o):
            if o[0] == "NAMESPACE":
                return o[:2] + (tuple((x[0], x[1].removeprefix("::")) + x[2:] for x in map(freeze, o[2])),)
            return o
        return tuple(freeze(o) for o in self.objs)

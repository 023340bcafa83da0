"""C29: macro calls become the macro's body with the arguments in place; every imported file comes in once."""
import posixpath, random, re
from sema import *
import absint
from gen import World

TOK = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|([A-Za-z_]\w*)!|([A-Za-z_]\w*)|(\d+\.\d+)|(\d+)|(\.\.\.|<-|=>|::)|([(){}\[\],;@])|([-+*/%=&^<>|!?.:~]+))')
SYM = {"(": "TOKEN_LPAREN", ")": "TOKEN_RPAREN", "[": "TOKEN_LBRACKET", "]": "TOKEN_RBRACKET", "{": "TOKEN_LBRACE", "}": "TOKEN_RBRACE", ",": "TOKEN_COMMA", ";": "TOKEN_SEMICOLON", "@": "TOKEN_AT", "<-": "TOKEN_RETURN",
       "=>": "TOKEN_ARROW", "...": "TOKEN_VA_LIST"}
OPEN, CLOSE = "([{", ")]}"
MAXDEPTH = 40


def lex(text, file):
    """[(type, text, line, file)]"""
    out = []
    for n, ln in enumerate(text.split("\n")):
        i = 0
        while i < len(ln.rstrip()):
            m = TOK.match(ln, i)
            if not m:
                raise AnalysisBroken("test text %r" % ln[i:])
            i = m.end()
            st, mc, w, fl, nr, ar, sy, op = m.groups()
            if st is not None:
                t = ("TOKEN_STRING", st[1:-1])
            elif mc:
                t = ("TOKEN_MACRO_CALL", mc)
            elif w:
                t = (WORDS[w] if w in WORDS else "TOKEN_ID", w)
            elif fl or nr:
                t = ("TOKEN_FLOAT", fl) if fl else ("TOKEN_INT", nr)
            elif ar or sy:
                t = (SYM.get(ar or sy, "TOKEN_OPERATOR"), ar or sy)
            else:
                t = ("TOKEN_OPERATOR", op)
            out.append(t + (n, file))
    return out


class Wrong(Exception):
    pass


class Expander:
    """what the language says"""

    STD = ("__version__", "__system__", "__architecture__", "__time__", "__date__", "__compile_type__", "__main_file__", "__file__", "__line__", "__func__")

    def __init__(self, files, std="/std"):
        self.files, self.std = files, std

    def imports(self, main):
        toks = lex(self.files[main], main)
        seen, i, order = [], 0, [main]
        while i < len(toks):
            if toks[i][0] == "TOKEN_IMPORT":
                if i + 1 >= len(toks) or toks[i + 1][0] != "TOKEN_STRING":
                    raise Wrong("import of no file")
                name = toks[i + 1][1]
                for p in (posixpath.dirname(toks[i][3]) + "/" + name, self.std + "/" + name):
                    if p in self.files:
                        break
                else:
                    raise Wrong("missing file")
                if p not in seen:
                    seen.append(p)
                    order.append(p)
                    toks += lex(self.files[p], p)
                i += 2
            i += 1
        return toks, order

    def run(self, main):
        toks, order = self.imports(main)
        self.macros = {}
        rest, i = [], 0
        while i < len(toks):
            if toks[i][0] == "TOKEN_MACRO":
                i = self.define(toks, i + 1)
            else:
                rest.append(toks[i])
                i += 1
        self.used = 0
        out, i = [], 0
        while i < len(rest):
            if rest[i][0] == "TOKEN_MACRO_CALL":
                self.count = 0
                i = self.call(rest, i, out)
            else:
                out.append(rest[i])
                i += 1
        return [t[:2] for t in out], order

    def define(self, toks, i):
        def at(k):
            if k >= len(toks):
                raise Wrong("definition is not closed")
            return toks[k]
        if at(i)[0] != "TOKEN_ID":
            raise Wrong("macro name")
        name, args = toks[i][1], []
        i += 1
        if at(i)[1] == "(":
            i += 1
            while at(i)[1] != ")":
                if toks[i][0] != "TOKEN_ID" or toks[i][1] in args:
                    raise Wrong("macro argument")
                args.append(toks[i][1])
                if len(args) > 128:
                    raise Wrong("too many arguments")
                i += 1
                if at(i)[1] == ")":
                    break
                if toks[i][1] != ",":
                    raise Wrong("no comma")
                i += 1
            i += 1
        if at(i)[1] != "{":
            raise Wrong("no body")
        body, depth = [], 0
        i += 1
        while True:
            t = at(i)
            if t[1] == "{" and t[0] == "TOKEN_LBRACE":
                depth += 1
            elif t[0] == "TOKEN_RBRACE":
                if depth == 0:
                    break
                depth -= 1
            body.append(t)
            i += 1
        if (name, len(args)) in self.macros or not args and name in self.STD:
            raise Wrong("redefinition")
        self.macros[name, len(args)] = (args, body)
        return i + 1

    def call(self, toks, i, out):
        """expands the call at toks[i]; -> the index behind it"""
        t = toks[i]
        args, end = [], i + 1
        if end < len(toks) and toks[end][0] in ("TOKEN_LPAREN", "TOKEN_LBRACE", "TOKEN_LBRACKET"):
            close = CLOSE[OPEN.index(toks[end][1])]
            depth, cur, any_ = 0, [], False
            end += 1
            while True:
                if end >= len(toks):
                    raise Wrong("call is not closed")
                x = toks[end]
                if x[0] == {")": "TOKEN_RPAREN", "]": "TOKEN_RBRACKET", "}": "TOKEN_RBRACE"}[close] and depth == 0:
                    break
                if x[0] in ("TOKEN_LPAREN", "TOKEN_LBRACE", "TOKEN_LBRACKET"):
                    depth += 1
                elif x[0] in ("TOKEN_RPAREN", "TOKEN_RBRACE", "TOKEN_RBRACKET") and depth:
                    depth -= 1
                if x[0] == "TOKEN_COMMA" and depth == 0:
                    args.append(cur)
                    cur = []
                else:
                    cur.append(x)
                    any_ = True
                end += 1
            if any_:
                args.append(cur)
            if len(args) > 128:
                raise Wrong("too many arguments")
            end += 1
        self.count += 1
        if self.count > MAXDEPTH + 1:
            raise Wrong("endless")
        if len(args) == 0 and t[1] in self.STD:
            names, body = [], [{"__line__": ("TOKEN_INT", str(t[2] + 1)), "__file__": ("TOKEN_STRING", t[3]), "__func__": ("TOKEN_CURRENT_FN", "__func__"), "__system__": ("TOKEN_STRING", "linux"),
                                "__architecture__": ("TOKEN_STRING", "x86_64"), "__compile_type__": ("TOKEN_STRING", "asm"), "__time__": ("TOKEN_STRING", "11:22:33"), "__date__": ("TOKEN_STRING", "4.7.2026"), "__main_file__": ("TOKEN_STRING", "/src/main.csp")}[t[1]] + t[2:]]
        elif (t[1], len(args)) not in self.macros:
            raise Wrong("undefined macro")
        else:
            names, body = self.macros[t[1], len(args)]
        new = []
        for x in body:
            if x[0] == "TOKEN_ID" and x[1] in names:
                a = args[names.index(x[1])]
                k = 0
                while k < len(a):
                    if a[k][0] == "TOKEN_MACRO_CALL":
                        k = self.call(a, k, new)
                    else:
                        new.append(a[k])
                        k += 1
            elif x[0] == "TOKEN_ID" and x[1] == "__line__":
                new.append(("TOKEN_INT", str(t[2] + 1)) + t[2:])
            elif x[0] == "TOKEN_ID" and x[1] == "__file__":
                new.append(("TOKEN_STRING", t[3]) + t[2:])
            elif x[0] == "TOKEN_ID" and x[1] == "__func__":
                new.append(("TOKEN_CURRENT_FN", "") + t[2:])
            else:
                new.append(x)
        k = 0
        while k < len(new):
            if new[k][0] == "TOKEN_MACRO_CALL":
                k = self.call(new, k, out)
            else:
                out.append(new[k])
                k += 1
            if len(out) >= 3 and out[-2][0] == "TOKEN_AT" and out[-3][0] == "TOKEN_ID":
                c = out[-1]
                if c[0] not in ("TOKEN_ID", "TOKEN_INT") and not (c[1] in WORDS and c[1].isidentifier()):
                    raise Wrong("cannot concatenate")
                out[-3:] = [("TOKEN_ID", out[-3][1] + c[1]) + out[-3][2:]]
        return end


class Beyond(Exception):
    pass


def preprocess(p, err, files, main="/src/main.csp", shorts=()):
    """-> [(tokens or None, errors, files read, why it stopped)]"""
    h = sema_hooks(p, err)
    state = {}

    def text(I, v):
        t = I.text(v)
        if not all(isinstance(x, str) for x in t):
            raise AnalysisBroken("unknown text %r" % (t,))
        return "".join(t)

    def token(I, t, f):
        x = I.new_heap("tok", True)
        I.mem[x.loc + (("f", "type"),)] = p.enum(t[0])
        I.mem[x.loc + (("f", "line"),)] = t[2] if len(t) > 2 else 0
        I.mem[x.loc + (("f", "source"),)] = f
        I.set_text(Ptr(x.loc + (("f", "value"),)), (t[1],) if t[1] else ())
        return x

    def norm(path):
        return path if path.startswith("/") else "/src/" + path

    def access(I, a, e):
        return 0 if text(I, a[0]) in files else -1

    def read(I, a, e):
        path = text(I, a[0])
        if path not in files:
            raise Beyond("the file %r is read although it does not exist" % path)
        f = I.new_heap("file", True)
        state["file"][f.loc] = path
        state["read"].append(path)
        return f

    def init(I, a, e):
        f = I.value(a[2])
        loc = I.deref_loc(a[0])
        path = state["file"].get(f.loc) if isinstance(f, Ptr) else None
        if path is None:
            raise AnalysisBroken("lexer on an unknown file")
        state["lex"][loc] = [f, iter(lex(files[path], path))]
        return None

    def nxt(I, a, e):
        f, it = state["lex"][I.deref_loc(a[0])]
        t = next(it, None)
        return token(I, t or ("TOKEN_EOF", "EOF"), f)

    def now(I, a, e):
        x = I.new_heap("tm", True)
        for k, v in (("tm_hour", 11), ("tm_min", 22), ("tm_sec", 33), ("tm_mday", 4), ("tm_mon", 6), ("tm_year", 126)):
            I.mem[x.loc + (("f", k),)] = v
        return x

    h.update({"get_absolute_path": lambda I, a, e: I.new_text([norm(text(I, a[0]))]), "get_path_from_file": lambda I, a, e: I.new_text([posixpath.dirname(text(I, a[0]))]), "realpath": lambda I, a, e: I.new_text([norm(text(I, a[0]))]),
              "dirname": lambda I, a, e: I.new_text([posixpath.dirname(text(I, a[0]))]), "access": access, "read_file": read, "init_lexer": init, "lexer_next_token": nxt, "free": lambda I, a, e: None,
              "allocator_realloc": lambda I, a, e: I.value(a[1]), "time": lambda I, a, e: 1000, "localtime": now, "fflush": lambda I, a, e: 0})
    I = Interp(p, hooks=h, max_loop=2000, max_steps=20000000, max_depth=400)
    I.initial = True

    def go(I):
        state.update(file={}, lex={}, read=[])
        w = World(I)
        f = w.obj(path=main)
        state["file"][f.loc] = main
        items = [token(I, t, f) for t in lex(files[main], main)] + [token(I, ("TOKEN_EOF", "EOF"), f)]
        ctx = w.obj(ct=0)
        w.set(ctx, ct=p.enum("CT_ASM"), max_macro_call_depth=MAXDEPTH)
        I.mem[ctx.loc + (("f", "flags"), ("f", "silent"))] = 1
        I.mem[ctx.loc + (("f", "emitted_errors"),)] = 0
        I.mem[ctx.loc + (("f", "paths"), ("f", "std_path"))] = I.new_text(["/std"])
        I.mem[ctx.loc + (("f", "paths"), ("f", "main_src_file"))] = I.new_text([main])
        ast = w.obj(tokens=items, objs=[], files=[f])
        I.mem[ast.loc + (("f", "tokens"),)] = list_of(I, items)
        fl = list_of(I, [f])
        I.mem[ast.loc + (("f", "files"),)] = fl
        stop = None
        try:
            I.run_fn(p.fn("preprocessor_pass"), [ctx, ast])
        except StopPath as s:
            stop = s.why
        if stop in ("loopbound", "goto-unresolved"):
            raise AnalysisBroken("run of %r ends in %r" % (files, stop))
        n = I.mem[ctx.loc + (("f", "emitted_errors"),)]
        for loc in I.mem:
            for a, b in zip(loc, loc[1:]):
                if a == ("f", "args") and isinstance(b, tuple) and isinstance(b[-1], int) and b[0] != "f" and b[-1] >= 128:
                    raise Beyond("argument %s is stored beyond the 128 there is room for" % b[-1])
        if stop is not None or n:
            return None, n, stop, None
        names = {v: k for k, v in p.enum_members("TOKEN_EOF")}
        out = []
        for t in list_items(I, I.load(ast.loc + (("f", "tokens"),))):
            t = I.value(t)
            out.append((names[I.value(I.load(t.loc + (("f", "type"),)))], text(I, Ptr(t.loc + (("f", "value"),)))))
        order = [state["file"].get(I.value(x).loc) for x in list_items(I, fl)]
        return out, n, None, order
    ps = I.explore(go)
    res = []
    for q in ps:
        if not isinstance(q.ret, tuple):
            raise AnalysisBroken("run of %r ends in %r" % (files, q.end))
        toks, n, stop, order = q.ret
        res.append((toks, [e[1] for e in q.events if e[0] == "error"], order, stop, list(state["read"])))
    return I, res


def compare(p, err, files):
    main = "/src/main.csp"
    try:
        want, order = Expander(files).run(main)
        wrong = None
    except Wrong as w:
        wrong = str(w)
    msg = None
    try:
        I, res = preprocess(p, err, files)
    except Beyond as b:
        return b.args[0], None, []
    for toks, errs, got, stop, read in res:
        if wrong is not None:
            if toks is not None:
                msg = "accepted, but: %s" % wrong
            elif not errs:
                msg = "the compiler ends in %s instead of reporting an error (%s)" % (stop, wrong)
        elif toks is None:
            msg = "rejected (%s %s)" % (stop, errs)
        elif toks != want + [("TOKEN_EOF", "EOF")]:
            k = next((i for i, (a, b) in enumerate(zip(toks, want + [("TOKEN_EOF", "EOF")])) if a != b), min(len(toks), len(want)))
            msg = "token %d becomes `%s`, expected `%s`" % (k, " ".join(t[1] for t in toks[k:k + 8]), " ".join(t[1] for t in want[k:k + 8]))
        elif sorted(got[1:]) != sorted(order[1:]) or got[:1] != order[:1]:
            msg = "the program's files are %s, expected %s" % (got, order)
        elif len(set(read)) != len(read):
            msg = "a file is read twice: %s" % read
    return msg, I, res


BODIES = ["1", "", "x", "x + 1", "(x)", "{ x }", "[x, x]", "x, x", "k ( x )", "one!", "inc!(x)", "inc!(inc!(x))", "two!(x, 2)", "two!(2, x)", "two![x, x]", "inc!{ x }", "inc!(one!)", "inc!(x) + x", "two!(inc!(x), one!)", "f @ x", "f @ x + f @ x", "f @ 1 @ x", "fn f @ x () { }", "inc!(f @ x)",
          "__line__ + x", "__file__", "__func__", "__line__ x __line__", "inc!(__line__)", "x . x", "{ { x } { } }", "s!(x, x)", "id(inc!((x, 1)))", "none!() x", "inc!(x;)", "x !"]
ARGS = ["7", "a + b", "(1, 2)", "f(1, 2)", "a[1, 2]", "{ 1, 2 }", "one!", "inc!(3)", "two!(1, 2)", "two!(one!, inc!(one!))", "inc!(inc!(inc!(1)))", "__line__!", "inc![ (1) ]", "\"s,\"", "a == b", "one!()", "inc!((1))", "x", "y"]
COMMON = "macro one { 1 } macro inc(k) { (k + 1) } macro two(a, b) { a * b } macro s(x, y) { y - x } macro none { } "
FIXED = ["macro ab { 1 } macro a { 2 } macro A { 3 } a! ab! A! macro m(ab, a, A) { a ab abc A } m!(1, 2, 3)", "macro ab { 1 } a!", "macro a { 1 } ab!", "macro A { 1 } a!", "macro x__line__ { 1 } macro m { __line__s __LINE__ _line_ } m! x__line__! __line__!", "macro a { b! } macro b { c! } macro c { 3 } a!; a!; b!;", "macro a(x) { b!(x) } macro b(y) { c!(y, y) } macro c(x, y) { x + y } a!(1); a!(b!(2));", "macro mk(n) { fn f@n(): i32 = n; } mk!(1) mk!(2) mk!(3)", "macro mk(n) { g @ n @ n } mk!(a); mk!(b); mk!(if);",
         "macro m(x, y) { x@y } m!(a, b) m!(c, d) m!(a, 1)", "macro m { f } macro m(x) { g x } macro m(x, y) { h x y } m! m!() m!(1) m!(1, 2) m![3] m!{4}", "a! macro a { 1 }", "macro a { 1 } a!(2)", "b!", "macro a(x) { x } a!", "macro a(x) { x } a!()", "macro a(x) { x } a!(1, 2)",
         "macro a { 1 } macro a { 2 }", "macro a(x) { 1 } macro a(y) { 2 }", "macro a(x) { 1 } macro a { 2 } a!(1) a!", "macro a(x, x) { 1 }", "macro a(1) { 1 }", "macro a(x y) { 1 }", "macro a(x { 1 }", "macro a { 1", "macro a", "macro", "macro 1 { 2 }", "macro a(x) 1", "macro a { a! } a!", "macro a { b! } macro b { a! } b!",
         "macro a(x) { a!(x) } a!(1)", "macro a(x) { x x } a!(a!(a!(a!(1))))", "macro a(x) { x } a!(1", "macro a(x) { x } a!(b!)", "macro a(x) { b!(x } a!(1)", "macro a { ( } a! 1 )", "macro a { } a! a! a!;", "a", "", "macro f(x,) { x } f!(1)", "macro f() { 4 } f! f!()", "macro a(x, y) { y x } a!(1 2, 3 4) a!((1, 2), [3, 4]) a!({ , }, ( , ))",
         "macro a(x) { f @ \"s\" x } a!(1)", "macro a(x) { f @ + x } a!(1)", "macro a(x) { 1 @ x } a!(1)", "macro a(x) { f@x } a!(one_two) a!(match) a!(12) a!(1.5)", "macro a(x) { f@x } a!(1.5)", "x @ y", "macro m(v) { v } m!(m!(m!(1) + m!(2)) * m!(3))", "macro m(v) { [v] } m!(m!) ", "macro m(v) { (v, v) } macro n { m!(m!(0)) } n! + n!",
         "macro m(v) { v }\n\nm!(1)\n__line__!\n\n__line__! __file__! __func__! __main_file__! __system__! __architecture__! __compile_type__!", "macro l { __line__ }\nl!\nl! l!\n\nl!", "macro __line__ { 1 }", "macro m(x) { x __time__! } __time__! __date__! m!(__date__!) __time__!", "macro __line__(x) { x } __line__!(4)", "macro a(b) { b } macro b(a) { a } a!(b!(a!(1)))", "macro a(x) { b!(x, x) } macro b(x, y) { x @ y } a!(p) a!(q)"]
MANY = "macro m(%s) { %s } m!(%s)" % (", ".join("p%d" % i for i in range(40)), " ".join("p%d" % i for i in reversed(range(40))), ", ".join(str(i) for i in range(40)))
IMPORTS = [{"/src/main.csp": 'import "a.csp"; b', "/src/a.csp": "a"}, {"/src/main.csp": 'import "a.csp"; import "b.csp"; m', "/src/a.csp": 'import "b.csp"; a', "/src/b.csp": "b"}, {"/src/main.csp": 'import "a.csp"; m', "/src/a.csp": 'import "b.csp"; a', "/src/b.csp": 'import "a.csp"; b'},
           {"/src/main.csp": 'import "l/a.csp"; import "l/b.csp"; m', "/src/l/a.csp": 'import "b.csp"; a', "/src/l/b.csp": 'import "a.csp"; import "c.csp"; b', "/src/l/c.csp": "c", "/src/c.csp": "wrong"}, {"/src/main.csp": 'import "io.csp"; m', "/std/io.csp": 'import "x.csp"; i', "/std/x.csp": "x"},
           {"/src/main.csp": 'import "io.csp"; m', "/std/io.csp": "std", "/src/io.csp": "own"}, {"/src/main.csp": 'import "no.csp"; m'}, {"/src/main.csp": "import a;"}, {"/src/main.csp": "import"}, {"/src/main.csp": 'm import "a.csp"; m import "a.csp"; m import "a.csp";', "/src/a.csp": "a"},
           {"/src/main.csp": 'import "a.csp"; p!(1)', "/src/a.csp": "macro p(x) { (x) } q! macro q { p!(2) __line__ __file__ }"}, {"/src/main.csp": 'import "a.csp"; macro p { 1 }', "/src/a.csp": "macro p { 2 }"}, {"/src/main.csp": 'import "a.csp";', "/src/a.csp": ""}, {"/src/main.csp": 'import "a.csp"; import "b.csp";', "/src/a.csp": 'import "c.csp"; a', "/src/b.csp": 'import "c.csp"; b', "/src/c.csp": 'import "d.csp"; c', "/src/d.csp": "d"},
           {"/src/main.csp": 'import "l/io.csp"; import "io.csp"; m', "/std/l/io.csp": 'import "k.csp"; l', "/std/l/k.csp": "right", "/std/io.csp": "std", "/std/k.csp": "wrong"}, {"/src/main.csp": "\n".join('import "f%d.csp";' % i for i in range(12)), **{"/src/f%d.csp" % i: 'import "f%d.csp"; t%d ' % (i * 5 % 12, i) for i in range(12)}}]


def programs(thorough):
    for x in FIXED:
        yield "macros", {"/src/main.csp": x}
    yield "macros", {"/src/main.csp": MANY}
    for n in (127, 128, 129, 130, 140):
        names = ["p%d" % i for i in range(n)]
        yield "number of arguments", {"/src/main.csp": "macro m(%s) { p0 p%d } m!(%s)" % (", ".join(names), n - 1, ", ".join(str(i) for i in range(n)))}
        yield "number of arguments", {"/src/main.csp": "macro m(x) { x } m!(%s) m!(1)" % ", ".join(str(i) for i in range(n))}
    for f in IMPORTS:
        yield "imports", f
    k = 0
    for b in BODIES:
        for a in ARGS:
            k += 1
            if thorough or k % 3 == 0 or a in ("7", "inc!(3)", "x"):
                yield "body and argument", {"/src/main.csp": COMMON + "macro m(x) { %s } m!(%s) ; m!(q) m![%s]" % (b, a, a)}
    r = random.Random(29)

    def piece(names, d):
        x = r.random()
        if d == 0 or x < .35:
            return r.choice(names + ["1", "a", "+", "k"])
        if x < .5:
            return "( %s )" % " ".join(piece(names, d - 1) for _ in range(r.randint(1, 3)))
        n = r.randint(0, 2)
        o, c = r.choice(["()", "[]", "{}"])
        return "r%d!%s" % (n, "" if n == 0 and r.random() < .5 else "%s %s %s" % (o, ", ".join(" ".join(piece(names, d - 1) for _ in range(r.randint(1, 2))) for _ in range(n)), c))
    for i in range(600 if thorough else 150):
        t = "macro r0 { %s } " % r.choice(["9", "z z", "( 8 )"])
        t += "macro r1(x) { %s } " % r.choice(["x", "( x )", "x x", "r0! x", "x r0!()", "g @ x"])
        t += "macro r2(x, y) { %s } " % r.choice(["x y", "y x", "r1!(x) y", "r1!(y) r1!(x)", "r1!([x, y])", "r1!(r1!(y)) x r0!"])
        t += "macro q(x, y) { %s } " % " ".join(piece(["x", "y"], 2) for _ in range(3))
        t += " ".join(piece(["q!(%s, %s)" % (piece([], 2) if False else "5", piece(["6"], 2))], 3) for _ in range(3))
        yield "generated", {"/src/main.csp": t}


def body(c, p):
    from csp import Errors
    err = Errors(p)
    where = "%s (preprocessor_pass)" % p.fn("preprocessor_pass").file
    c.rule("preprocessor_pass is interpreted abstractly on the tokens of programs with a file system of known files: every form of macro body with every form of argument, definitions and calls with mistakes, overloading, recursion, random nests of macros, imports of "
           "files that import each other from several folders. The tokens it leaves, the files it reads and whether it reports an error must be those of an independent expander: arguments are expanded, put in place of their names, and what results is expanded again; "
           "a use of a macro leaves its definition as it is.")
    c.require(200)
    jobs = list(programs(c.thorough))

    def work(job):
        msg, I, res = compare(p, err, job[1])
        return msg, sorted(I.fns_seen) if I else [], len(res)
    n = 0
    for job, (st, r) in zip(jobs, pmap(work, jobs)):
        if st == "broken":
            raise AnalysisBroken("%s: %s" % (job[1], r[-900:]))
        msg, fns, np = r
        c.functions |= set(fns)
        c.paths += np
        n += 1
        c.ob(job[0], msg is None, "" if msg is None else "%s\n      in: %s" % (msg, job[1] if len(job[1]) > 1 else job[1]["/src/main.csp"]), where)
    c.stats.update(programs=n)

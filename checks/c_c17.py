"""C17: expressions parse to the tree precedence and associativity give; malformed ones are errors."""
import random
from pars import *
from grammar import G, Bad, LEVEL, BUILTIN
from fw import where

INFIX = [o for o in sorted(LEVEL) if o not in ("custom", "prefix", "sizeof", "(", "[", ".", "++", "--", "²", "³", ":", "`", "else")] + ["<+>", "**"]
POST = ["++", "--", "²", "³", "(x)", "()", "[i]", "[^1]", ".m", ": T", ": &i64", "(...x, y...)", "(a, b,)", "(...x...)"]
PRE = ["-", "!", "~", "&", "*", "len", "+++", "sizeof i32", "alignof &T[3]"]
ATOM = ["a", "::g::h", "7", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551615", "1.5", "400000000000000000000000000000000000000.0", "true", "false", "nil", "'x'", "'\\n'",
        '"s"', '"a" "b" "c"', "(a)", "(a, b)", "(a, b,)", "[1, 2]", "[]", "[a, ...b]", "{1, x}", "T::{1, 2}", "::n::T::{}", "sizeof T", "alignof i8", "if c => a else b", "|x: i32| i32 => <- x",
        "|| = 1", "|x: T, y: &u8| => { f(x); }", "const |x: i32| i32 = x + 1", "const || => noop", "type::(i32 == T)", "type::(T != &u8)", "type::(T >= i8)", "type::(T <= i8)", "type::(T < i8)", "type::(T > i8)",
        "type::is_int(T)", "type::is_uint(T)", "type::is_float(T)", "type::is_pointer(T)", "type::is_array(T)", "type::is_struct(T)", "type::is_union(T)", "type::to_str(T)", "type::reg_class(T)"]


def join(*parts):
    return " ".join(parts)


def infix(o, l, r):
    if o == "`":
        return join(l, "` f `", r)
    return join(l, o, r)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def e(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .12:
            return r.choice(ATOM if r.random() < .4 else ATOM[:4] + ["b", "c"])
        if x < .55:
            return infix(r.choice(INFIX + ["else", "`", "+", "-", "*", "=", "|>"]), self.e(d - 1), self.e(d - 1))
        if x < .68:
            return join(r.choice(PRE[:7]), self.e(d - 1))
        if x < .85:
            return join(self.e(d - 1), r.choice(POST))
        if x < .9:
            return join("(", self.e(d - 1), ")")
        if x < .94:
            return join("if", self.e(d - 1), "=>", self.e(d - 1), "else", self.e(d - 1))
        if x < .97:
            return join("f (", self.e(d - 1), ",", self.e(d - 1), ")")
        return join(self.e(d - 1), "|> f ( $ ,", self.e(d - 1), ")")


def norm(t):
    """generated names are opaque"""
    if isinstance(t, str):
        return re.sub(r"(::)?(const\.lambda\.\d+|__csp_const_lambda_\d+__)", "const", re.sub(r"^::([^\w:])", r"\1", t))
    return tuple(norm(x) for x in t) if isinstance(t, tuple) else t


def decide(src, toks, ct, entry="expr"):
    """what the reference grammar says: ("tree", tree, end, soft errors) or ("bad",)"""
    g = G(toks, ct)
    try:
        if entry == "expr":
            r = g.expr(0)
        else:
            r = g.program()
        return ("tree", norm(r), g.i, bool(g.errors), norm(tuple(g.objs)) if entry == "expr" else ())
    except Bad:
        return ("bad",)
    except RecursionError:
        return None


def is_tuple(o):
    return o[0] == "TYPEDEF" and o[1].removeprefix("::").startswith("__csp_tuple_")


class Runner:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.err = Errors(p)
        self.I = Interp(p, hooks=parser_hooks(p, self.err), max_loop=600, max_steps=3000000)
        self.I.initial = True
        self.n = 0

    def run(self, src, toks, entry, ct="CT_ASM"):
        I, p = self.I, self.p

        def go(I):
            P = Parse(I, toks, ct)
            out = None
            try:
                if entry == "expr":
                    n = I.run_fn(p.fn("parse_expr"), [P.P, 0, p.enum("TOKEN_EOF")])
                    out = (P.tree(n), P.pos(), [o for o in P.lst(P.objs, P.obj) if not is_tuple(o)])
                else:
                    I.run_fn(p.fn("parser_pass"), [P.ctx, P.ast])
                    out = (tuple(o for o in P.lst(P.objs, P.obj) if not is_tuple(o)), None, ())
                return ("ok",) + out
            except StopPath as s:
                return ("stop", s.why)
        try:
            ps = I.explore(go)
        except AnalysisBroken as x:
            raise AnalysisBroken("%s: %s" % (src, x))
        self.n += 1
        self.c.seen(I, ps)
        if len(ps) != 1:
            return None, "%d outcomes" % len(ps)
        q = ps[0]
        errs = [e for e in q.events if e[0] == "error" and self.err.is_error(self.p.enum(e[1]))]
        return q.ret, errs

    def check(self, src, toks, entry="expr", ct="CT_ASM"):
        """None if the parser agrees with the grammar, else what differs"""
        want = decide(src, toks, ct, entry)
        if want is None:
            return None
        got, errs = self.run(src, toks, entry, ct)
        if got is None:
            return "%s: parsing has %s" % (src, errs)
        if want[0] == "bad":
            if got[0] == "ok":
                return None if errs else "`%s` is malformed, but no error is reported" % src
            return None if got[1].startswith("fatal") or errs and got[1] == "exit" else "`%s` is malformed: the parser ends with %s instead of an error" % (src, got[1])
        if got[0] != "ok":
            return "`%s` is well-formed, but parsing ends with %s" % (src, got[1])
        if bool(errs) != want[3]:
            return "`%s`: %s" % (src, "rejected: %s" % (errs[0][1],) if errs else "no error reported")
        if norm(got[1]) != want[1]:
            a, b = diff(norm(got[1]), want[1])
            return "`%s` parses as %s instead of %s" % (src, pretty(a), pretty(b))
        if entry != "program" and got[2] != want[2]:
            return "`%s`: parsing stops at token %s instead of %s" % (src, got[2], want[2])
        if entry == "expr" and norm(tuple(got[3])) != want[4]:
            return "`%s` defines %s instead of %s" % (src, got[3], want[4])
        return None


def diff(a, b):
    """the smallest differing parts"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1] or isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a and isinstance(a[0], tuple):
        d = [(x, y) for x, y in zip(a, b) if x != y]
        if len(d) == 1 and isinstance(d[0][0], tuple) and isinstance(d[0][1], tuple) and d[0][0] and d[0][1]:
            return diff(*d[0])
    return a, b


def pretty(t):
    if isinstance(t, tuple):
        if t and t[0] == "ID":
            return str(t[1])
        return "(" + " ".join(pretty(x) for x in t) + ")"
    return str(t)


def mutants(toks, rnd, n):
    """sources cut off, with a token missing, doubled or exchanged"""
    k = len(toks)
    out = [toks[:i] for i in range(k)] + [toks[:i] + toks[i + 1:] for i in range(k)]
    pool = tokens("( ) [ ] { } , ; => ... _ $ else if + = : :: |> .. ` 'c [ nil type let ret a 1 while")
    for _ in range(k):
        i = rnd.randrange(k)
        x = rnd.choice(pool)
        out += [toks[:i] + [x] + toks[i + 1:], toks[:i] + [x] + toks[i:]]
    rnd.shuffle(out)
    return out[:n]


def show_toks(t):
    return " ".join('"%s"' % v if k == "TOKEN_STRING" else "'%s'" % v if k == "TOKEN_CHAR" else v for k, v in t)


def body(c, p):
    c.rule("The parser is interpreted abstractly on token sequences with opaque names and values: every pair of operators, every operator next to every prefix, postfix and literal form, nested combinations, and "
           "sequences with tokens missing, doubled or exchanged. The tree it builds must be the one of a reference operator-precedence grammar; a sequence the grammar rejects must end in an error diagnostic.")
    c.require(200)
    R = Runner(c, p)
    wh = where(p.fn("parse_expr"))
    rnd = random.Random(11)
    ops = INFIX + ["else", "`"]
    # pairs of infix operators
    for a in ops:
        bad = None
        for b in ops:
            bad = bad or R.check(*src(infix(a, "x", infix(b, "y", "z"))))
        c.ob("pair-" + a, bad is None, bad or "grouping with every other operator", wh)
    for a in PRE + ["if c => d else", "const |x: T| i32 =", "|x: T| i32 =", "|| => <-"]:
        bad = None
        for b in ops:
            bad = bad or R.check(*src(infix(b, a + (" T" if 0 else " x"), "y"))) if not a.startswith(("sizeof", "alignof")) else bad or R.check(*src(infix(b, a, "y")))
            if not a.startswith(("sizeof", "alignof")):
                bad = bad or R.check(*src(infix(b, "y", a + " x")))
        for b in POST + PRE[:6]:
            bad = bad or R.check(*src(join(a, "x", b) if b in POST else join(a, b, "x")))
        c.ob("prefix-" + a, bad is None, bad or "grouping with every operator", wh)
    for a in POST:
        bad = None
        for b in ops:
            bad = bad or R.check(*src(infix(b, "x " + a, "y"))) or R.check(*src(infix(b, "x", "y " + a)))
        for b in POST:
            bad = bad or R.check(*src(join("x", a, b)))
        c.ob("postfix-" + a, bad is None, bad or "grouping with every operator", wh)
    for a in ATOM:
        bad = None
        for ct in ("CT_ASM", "CT_TRANSPILE"):
            for s in (a, a + " + y", "y * " + a, "f ( " + a + " , z )", "x [ " + a + " ]", "( " + a + " , z )", "if " + a + " => x else y", "if c => x else " + a, a + " |> g ( $ , 1 )", "{ z , " + a + " }"):
                bad = bad or R.check(s, tokens(s), "expr", ct)
        c.ob("atom-" + a, bad is None, bad or "value, type and end as written", wh)
    bad = None
    for b in range(1, 256):
        for t in (chr(b), "\\" + chr(b)):
            if t not in ("\\", "'", "\n"):
                name, toks = "%r as a character literal" % t, [("TOKEN_CHAR", t)]
                if char_code(t) is not None:
                    bad = bad or R.check(name, toks)
                else:
                    got, errs = R.run(name, toks, "expr")
                    bad = bad or (None if errs else name + " is not rejected")
    c.ob("character literals", bad is None, bad or "every character and escape sequence has its value, others are rejected", wh)
    for s in ("x²", "x³", "a + x² * y³", "x²²"):
        for ct in ("CT_ASM", "CT_TRANSPILE", "CT_INTERPRETER"):
            c.ob("power-%s-%s" % (s, ct), *bad2(R.check(s, tokens(s), "expr", ct)), wh)
    for s in ("x |> f", "x |> f()", "x |> f(1)", "x |> f($)", "x |> f(1, $)", "x |> f |> g($)", "x |> f(y |> g($), $)", "x |> f(y |> g($))", "x |> (y |> g($))", "x |> f(y |> g())", "f($)", "$", "x |> $ + 1",
              "x |> f($) + $", "(x |> f($)) + $", "x |> g(h($), y |> k(1))", "a = b |> f(1) |> g(2)", "x |> if $ => 1 else $", "x |> m.f(1)", "x |> ` f ` y", "x ` f ` y ` g ` z", "x |> f(1) == y"):
        c.ob("pipe-" + s, *bad2(R.check(*src(s))), wh)
    for s in ("if a => b || c else d", "if a => b && c else d", "if a => b = c else d", "if a => b |> f else d", "if a => (b else c) else d", "if a => f(b else c) else d", "if a => b <+> c else d",
              "if a => x[b else c] else d", "if a => if b => c else d else e", "if a => [b else c] else d", "a else b else c", "a else if b => c else d", "(if a => b else c) else d", "if a else b => c else d",
              "if a => |x: i32| i32 => { <- x else y; } else d", "if a => -b else c", "if a => T::{b else c} else d", "a + b else c + d", "a || b else c"):
        c.ob("else-" + s, *bad2(R.check(*src(s))), wh)
    # nested combinations
    g = Gen(5)
    total = 3000 if c.thorough else 700
    for blk in range(20):
        bad = None
        for _ in range(total // 20):
            s = g.e(g.r.choice((2, 3, 3, 4)))
            if len(s) > 400:
                continue
            t = tokens(s)
            for ct in ("CT_ASM",) if g.r.random() < .7 else ("CT_TRANSPILE",):
                bad = bad or R.check(s, t, "expr", ct)
            if bad:
                break
        c.ob("nested-%d" % blk, bad is None, bad or "%d nested expressions" % (total // 20), wh)
    # malformed
    seeds = ["f ( a , b ) [ 1 ] . m", "( a , b )", "if a => b else c", "x |> f ( $ )", "T :: { a , b }", "| x : i32 , y : T | i32 => { f ( x ) ; }", "const | x : i32 | = 1", "type :: ( i32 == T )",
             "type :: is_int ( T )", "a ` f ` b", "x : & i32 [ 3 ] 'c [ 4 ]", "sizeof fn < i32 > ( i8 , T )", "[ a , ... b , c ... ]", "- a * & b", "a <+> +++ b", "x . y . z ++", "sizeof struct { a : i32 , embed T }",
             "alignof enum { A , B = 2 }", "sizeof { i32 , u8 } + 1", "len a + 1", "x [ ^ 1 ] += 2", "sizeof typeof x", "sizeof interface { fn f ( a : i32 ) : i8 , }", "sizeof dyn T", "sizeof ( i32 ) [ ]", "sizeof const && i8"]
    for s in seeds:
        t = tokens(s)
        bad = R.check(s, t)
        for m in mutants(t, rnd, 200 if c.thorough else 60):
            if not m:
                continue
            bad = bad or R.check(show_toks(m), m)
            if bad:
                break
        c.ob("malformed-" + s, bad is None, bad or "every altered sequence is parsed as the grammar says or rejected", wh)
    c.stats["token sequences"] = R.n


def src(s):
    return s, tokens(s)


def bad2(bad):
    return bad is None, bad or "as the grammar says"

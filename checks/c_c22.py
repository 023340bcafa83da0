"""C22: expressions have the type the language gives them, values are converted where another type is expected, ill-typed programs are rejected."""
import random, re
from sema import *

TY = {"i8": "i8", "u8": "u8", "i16": "i16", "u16": "u16", "i32": "i32", "u32": "u32", "i64": "i64", "u64": "u64", "f32": "f32", "f64": "f64", "f80": "f80", "char": "char", "bool": "bool", "E": "E", "W": "W", "V": "V",
      "p": "&i32", "q": "&u8", "c": "&const i32", "S": "S", "sp": "&S", "fnp": "fn<i32>(i32)", "vp": "&void", "vla": "i32[]", "P": "P", "SP": "SP", "U": "U", "nt": "n::T"}
FEW = ["u8", "i32", "u64", "f32", "f80", "bool", "E", "W", "p", "c", "S", "fnp", "vla"]
BIN = "+ - * / % & | ^ << >> == != < <= > >= && ||".split()
UN = ["-%s", "~%s", "!%s", "&%s", "*%s", "%s++", "%s--", "len %s", "(%s)", "sizeof %s", "%s[1]", "%s[^1]", "%s.a", "%s.b", "%s.c", "%s(1)", "%s()", "|z: i32| i32 => { <- %s; }", "[%s]", "{%s, 1}", "S::{%s}", "%s |> $", "%s |> id", "%s |> ($ + 1)", "1 |> (%s + $)",
      "if %s => 1 else 2", "if true => %s else 1", "if true => 1 else %s", "%s: i32", "%s: E", "%s: &u8", "%s: S", "%s: void", "(1, %s)"]
CTX = {
    "assign": "fn f(v: %(a)s, w: %(b)s) { w = v; }", "init": "fn f(v: %(a)s) { let w: %(b)s = v; }", "const": "fn f(v: %(a)s) { const w: %(b)s = v; }", "return": "fn f(v: %(a)s): %(b)s { <- v; }", "expr fn": "fn f(v: %(a)s): %(b)s = v;",
    "arg": "fn g(w: %(b)s) {} fn f(v: %(a)s) { g(v); }", "2nd arg": "fn g(u: i32, w: %(b)s, y: ...) {} fn f(v: %(a)s) { g(1, v, v); }", "pointer call": "fn f(v: %(a)s, g: fn<i32>(%(b)s)) { g(v); }", "ternary": "fn f(v: %(a)s, w: %(b)s) { let x = if true => v else w; }",
    "else": "fn f(v: %(a)s, w: %(b)s) { let x = v else w; }", "element": "fn f(v: %(a)s, w: %(b)s) { let x = [w, v, w]; }", "member": "type M: struct { a: u8, b: %(b)s }; fn f(v: %(a)s) { let x = M::{1, v}; }",
    "index": "fn f(v: %(a)s, w: %(b)s) { let x = w[v]; }", "lambda": "fn f(v: %(a)s) { let x = |z: %(a)s| %(b)s => { <- z; }; }", "cast": "fn f(v: %(a)s) { let x = (v: %(b)s); }", "for": "fn f(v: %(a)s, w: %(b)s) { for v .. w { } }",
    "match": "fn f(v: %(a)s, w: %(b)s) { match v { w => {} < w => {} _ => {} } }", "add": "fn f(v: %(a)s, w: %(b)s) { v += w; }", "shift": "fn f(v: %(a)s, w: %(b)s) { v <<= w; }", "pipe": "fn g(w: %(b)s): %(a)s { <- g(w); } fn f(v: %(a)s) { let x = v |> g |> g; }",
    "member =": "type M: struct { a: u8, b: %(b)s }; fn f(v: %(a)s, m: &M) { m.b = v; }", "deref =": "fn f(v: %(a)s, m: &%(b)s) { *m = v; m[2] = v; }", "argument of argument": "fn g(w: %(b)s): %(a)s { <- g(w); } fn f(v: %(a)s) { g(g(v)); }",
}
CALLS = ["id()", "id(1)", "id(1, 2)", "two(1)", "two(1, nil)", "two(nil, 1)", "two(1, \"s\")", "two(1, \"s\", 3)", "no()", "no(1)", "var()", "var(1)", "var(1, 2, \"s\", 3.5)", "var(\"s\", 1)", "vs().a", "vs().b + vs().a", "vs().c", "id(vs().b)", "id(vs())", "id(no())", "two(id(1), \"x\") + 1",
         "S::{}", "S::{1}", "S::{1, 2}", "S::{1, 2, 3}", "S::{1.5, 'c'}", "S::{\"s\"}", "S::{1, nil}", "U::{1}", "U::{1, 2}", "{1, 'c'}", "{1, 2}.a", "{1, 2.5}", "[1, 2.5, 'c']", "[1, \"s\"]", "[\"s\", nil]", "[nil, \"s\"]", "[S::{1}, S::{2}]", "[S::{1}, 1]", "[[1, 2], [3, 4]]", "[1, 2, 3][0]", "[1, 2, 3][nil]", "[1, 2, 3][^1]", "[1][1.5]",
         "\"abc\"[0]", "len \"abc\"", "len [1, 2]", "len 1", "len nil", "nil + 1", "nil - nil", "nil * 1", "nil == nil", "id == nil", "id", "id[0]", "id.a", "*id", "&id", "-id", "n", "n::T", "S", "E", "E::A", "E::A + 1", "E::C", "A", "(id)(1)", "(&id)(1)", "(*(&id))(1)", "id + 1", "(|x: i32| i32 => { <- x; })(1)",
         "(|x: i32| i32 => { <- x; })()", "(|x: &i32| &i32 => { <- x + 1; })(nil)", "1(2)", "\"s\"(1)", "1.a", "1 . a", "nil.a", "true + 1", "true & false", "true && 1 == 1", "!true", "!1", "-true", "~1.5", "-'c'", "1.5 % 2", "1 << 1.5", "1.5 << 1", "1 & 2.0", "'c' ^ 3000000000", "1 |> $ + $", "1 |> ($, 2.5) |> ($ * 2)", "\"s\" |> two(1, $)", "1 |> two($, \"s\")",
         "if true => 1 else 2.5", "if 1 => 1 else 2", "if true => if false => 1 else 2 else 3", "(no())", "no() + 1", "!no()", "no(): i32", "1: S", "S::{1}: i32", "1: &i32", "1.5: &i32", "&1", "*1", "*nil", "&(&(1))", "sizeof no()", "sizeof i32 + 1", "alignof S * 2", "len (\"s\": &u8)", "-1: u8", "x"]


DEFS = [("E A B", "type E: enum { A, B };"), ("W", "type W: u64;"), ("V", "type V: i8;"), ("S", "type S: struct { a: i32, b: u8 };"), ("P", "type P: &i32;"), ("SP", "type SP: &S;"), ("U", "type U: union { a: i32, b: f32 };"),
        ("n", "namespace n { type T: &u8; }"), ("T", "type T: f64;"), ("id", "fn id(x: i32): i32 { <- x; }"), ("two", "fn two(x: i8, y: &u8): f64 { <- 1.0; }"), ("no", "fn no() {}"), ("vs", "fn vs(): S { <- S::{1, 2}; }"),
        ("var", "extern fn var(x: u16, y: ...): i64;")]
PRE = " ".join(d for _, d in DEFS) + " "


def alone(f, defs=DEFS):
    """with the definitions it mentions only"""
    use = set(re.findall(r"\w+", f))
    need = []
    while True:
        new = [d for d in defs if d not in need and use & set(d[0].split())]
        if not new:
            break
        need += new
        for _, t in new:
            use |= set(re.findall(r"\w+", t))
    return " ".join(t for n, t in defs if (n, t) in need) + " " + f


class Sema:
    """classifies test functions with the reference, runs accepted ones together and rejected ones on their own"""

    def __init__(self, c, p, err, group=40, pre=None, defs=()):
        self.c, self.p, self.err, self.group, self.pre, self.defs = c, p, err, group, pre, defs
        self.skips, self.nodes, self.programs, self.rejected, self.accepted = {}, 0, 0, 0, 0
        self.todo = []          # (key, programs), run when `run` is called

    def classify(self, src):
        try:
            r = Ref(src)
            return "reject" if r.errors else "ok"
        except Reject:
            return "reject"
        except Skip as s:
            return "skip: " + str(s).split(" ")[0]

    def alone(self, pre, f):
        return alone(f, self.defs) if pre == self.pre else pre + f

    def funcs(self, key, pre, fns, rejects=None):
        """fns: texts defining f (other definitions they make may be called g, M); each may stand alone after pre.
        `rejects`: only these indices are tried among those the reference rejects"""
        acc = []
        for i, f in enumerate(fns):
            k = self.classify(pre + f)
            if k == "ok":
                acc.append(f)
            elif k == "reject":
                if rejects is None or rejects(i):
                    self.todo.append((key, [self.alone(pre, f)]))
                    self.rejected += 1
            else:
                self.skips[k] = self.skips.get(k, 0) + 1
        self.accepted += len(acc)
        for i in range(0, len(acc), self.group):
            part = acc[i:i + self.group]
            whole = pre + "\n".join("namespace t%d {%s}" % (j, f) for j, f in enumerate(part))
            self.todo.append((key, [whole] + [self.alone(pre, f) for f in part]))

    def programs_of(self, key, srcs):
        for s in srcs:
            k = self.classify(s)
            if k.startswith("skip"):
                self.skips[k] = self.skips.get(k, 0) + 1
                continue
            if k == "ok":
                self.accepted += 1
            else:
                self.rejected += 1
            self.todo.append((key, [s]))

    def run(self, where=""):
        p, err = self.p, self.err

        def work(job):
            key, srcs = job
            o, msg, I, ps, n = verdict(p, err, srcs[0])
            fns = sorted(I.fns_seen) if I else []
            if o == "differs" and len(srcs) > 1:
                for s in srcs[1:]:
                    o2, m2, _, _, _ = verdict(p, err, s)
                    if o2 == "differs":
                        return o2, m2, s, n, fns, len(ps)
            return o, msg, srcs[0], n, fns, len(ps) if ps else 0
        todo, self.todo = self.todo, []
        bad = 0
        for i in range(0, len(todo), 480):
            part = todo[i:i + 480]
            for (key, srcs), (st, r) in zip(part, pmap(work, part)):
                if st == "broken":
                    raise AnalysisBroken("%s: %s" % (srcs[0][-200:], r[-700:]))
                o, msg, src, n, fns, np = r
                self.nodes += n
                self.programs += 1
                self.c.functions |= set(fns)
                self.c.paths += np
                if o == "skip":
                    raise AnalysisBroken("%s: %s" % (msg, src[-200:]))
                ok = o == "ok"
                bad += not ok
                self.c.ob(key, ok, "" if ok else "%s\n      in: %s" % (msg, src[-400:]), where)
            if bad >= 12:
                break               # the rest would only say the same again
        self.c.stats.update(programs=self.programs, functions_accepted=self.accepted, programs_rejected=self.rejected, tree_nodes_compared=self.nodes, unspecified=sum(self.skips.values()), unspecified_by=self.skips)


class Expr:
    """random expressions over all kinds of operands"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def atom(self):
        return self.r.choice(["a", "b", "c", "d", "e", "g", "h", "i", "p", "q", "s", "sp", "l", "1", "3000000000", "3.5", "(2.5: f64)", "'x'", "true", "nil", "E::A", "\"t\"", "arr", "vla", "fp"])

    def expr(self, d):
        r = self.r
        if d == 0 or r.random() < .12:
            return self.atom()
        k = r.randrange(13)
        x = lambda: self.expr(d - 1)
        if k < 5:
            return "(%s %s %s)" % (x(), r.choice(BIN), x())
        return [lambda: "(-%s)" % x(), lambda: "(*%s)" % x(), lambda: "(%s[%s])" % (x(), x()), lambda: "(%s: %s)" % (x(), r.choice(["i32", "u8", "f64", "W", "&i32", "E"])), lambda: "(~%s)" % x(), lambda: "id(%s)" % x(), lambda: "(if %s == %s => %s else %s)" % (x(), x(), x(), x()),
                lambda: "%s.%s" % (r.choice(["s", "sp", "vs()", "(*sp)", "S::{%s}" % x()]), r.choice("ab"))][k - 5]()


RPRE = PRE + "fn f(a: i8, b: u16, c: i32, d: u64, e: E, g: f32, h: f64, i: W, p: &i32, q: &u8, s: S, sp: &S, l: bool, vla: i32[], fp: fn<i32>(i32)) { let arr = [1, 2, 3]; let x = %s; }"


def valid_exprs(n, seed, depth):
    """random expressions, thinned so that about a fifth is ill-typed"""
    g = Expr(seed)
    out, bad, tries = [], 0, 0
    while len(out) < n and tries < n * 200:
        tries += 1
        e = g.expr(depth)
        try:
            r = Ref(RPRE % e)
            ok = not r.errors
        except Reject:
            ok = False
        except Skip:
            continue
        if not ok:
            if bad * 5 > len(out):
                continue
            bad += 1
        out.append(e)
    return out


def body(c, p):
    err = Errors(p)
    m = Sema(c, p, err, 40, PRE, DEFS)
    fn = p.fn("implicitly_castable")
    w = "%s (validator.c, typechecker.c)" % fn.file
    c.rule("For every binary operator and every pair of operand types, every other operator and every operand type, and every context that expects a type with every pair of given and expected type: parser_pass and validator_pass are executed abstractly on the program "
           "and the resulting tree is compared node by node with a reference typing: the type of every expression, the implicit conversions, and whether the program is accepted. Random nested expressions extend this to combinations.")
    few = [k for k in TY if k in FEW]
    names = list(TY)
    # binary operators
    for o in BIN:
        # the other operators of a group go through the same code: fewer types for them
        full = c.thorough or o in ("+", "/", "<", "%", "|", "<<", "==")
        ns = names if full else FEW
        for a in ns:
            rj = (lambda i, a=a, ns=ns: a in FEW and ns[i] in FEW and (o in "+-/%&<" or ns[i] in ("i32", "p", "bool", "S") or a in ("i32", "p", "bool"))) if not c.thorough else None
            m.funcs("operator " + o, PRE, ["fn f(v: %s, w: %s) { let x = v %s w; }" % (TY[a], TY[b], o) for b in ns], rj)
    m.run(w)
    # other operators
    for u in UN:
        m.funcs("expression " + (u % "x").strip(), PRE, ["fn f(v: %s) { let x = %s; }" % (TY[a], u % "v") for a in names])
    m.run(w)
    # contexts
    for k, t in CTX.items():
        full = c.thorough or k in ("assign", "arg", "add", "cast")
        for b in names if full else FEW:
            given = FEW if k == "pipe" and not c.thorough else names
            rj = (lambda i, b=b: b in FEW and given[i] in FEW) if not c.thorough else None
            m.funcs("context " + k, PRE, [t % {"a": TY[a], "b": TY[b]} for a in given], rj)
    m.run(w)
    # calls, literals
    m.funcs("calls and literals", PRE, ["fn f() { let x = %s; }" % e for e in CALLS])
    m.run(w)
    # values of globals
    m.programs_of("value of a global", [alone("let x: %s = %s;" % (t, v)) for t in list(TY.values()) + ["&char", "const i32"] for v in ["1", "2.5", "'c'", "true", "nil", "\"s\"", "-1", "S::{1}", "[1]", "3000000000"]])
    m.run(w)
    # arrays that do not fit: each on its own
    for k, src in (("length", "let a: i32[3] = [1, 2]; let b: i32[4] = a;"), ("elements", "let a: i32[2] = [\"a\", \"b\"];"), ("smaller elements", "let a: u8[4] = [1, 2, 3, 4];")):
        _, _, rs = run_program(p, err, "fn f() { %s }" % src)
        c.ob("arrays of different length or elements", not any(x.accepted for x in rs), "accepted: " + src, w)
    # random nesting
    n = 6000 if c.thorough else 400
    es = []
    for d, k in ((2, n // 2), (3, n // 3), (4, n // 6)):
        es += valid_exprs(k, 7 * d + (1 if c.thorough else 0), d)
    head, tail = RPRE[len(PRE):].split("%s")
    m.funcs("nested expressions", PRE, [head + e + tail for e in es])
    m.run(w)
    c.require(800)

"""C23: constants never change; only variables are assigned to."""
from sema import *
from c_c22 import Sema

TYPES = {
    "i32": "i32", "const i32": "const i32", "const alias": "CI", "alias of const alias": "CC", "alias": "I", "&i32": "&i32", "&const i32": "&const i32", "const &i32": "const &i32", "alias of const &": "CP", "alias of & const": "PC",
    "S": "S", "const S": "const S", "alias const S": "CS", "&S": "&S", "&const S": "&const S", "alias & const S": "PCS", "& alias const S": "&CS", "i32[3]": "i32[3]", "const i32[3]": "const i32[3]", "S[2]": "S[2]", "CS[2]": "CS[2]",
    "CI[2]": "CI[2]", "alias const array": "CA", "i32[]": "i32[]", "CI[]": "CI[]", "&&i32": "&&i32", "&CP": "&CP", "&PC": "&PC", "U": "U", "enum": "E", "char": "char", "f64": "f64", "bool": "bool", "const U": "const U", "fn": "fn<void>()", "const fn": "const fn<void>()",
}
DEFS = [("CI", "type CI: const i32;"), ("CC", "type CC: CI;"), ("I", "type I: i32;"), ("CP", "type CP: const &i32;"), ("PC", "type PC: &const i32;"), ("N", "type N: struct { m: i32, k: const i32 };"),
        ("S", "type S: struct { a: i32, b: const i32, n: N, p: &i32, q: PC, r: i32[3], s: CI[3], t: &N, u: const N };"), ("CS", "type CS: const S;"), ("PCS", "type PCS: &const S;"), ("CA", "type CA: const i32[2];"),
        ("U", "type U: union { a: i32, b: CI };"), ("E", "type E: enum { A, B };")]
PRE = " ".join(d for _, d in DEFS) + " "
STEPS = ["*%s", "%s[1]", "%s.a", "%s.b", "%s.n", "%s.n.m", "%s.n.k", "%s.p", "%s.q", "%s.r", "%s.s", "%s.t", "%s.t.m", "%s.u", "%s.u.m", "%s.m", "(%s)", "%s[^1]", "(1, %s)"]
SITES = {
    "argument": "fn f(x: %(t)s) { %(s)s }",
    "global": "let x: %(t)s; fn f() { %(s)s }",
    "global in a namespace": "namespace n { let x: %(t)s; fn f() { %(s)s } }",
    "extern constant": "extern const x: %(t)s; fn f() { %(s)s }",
    "local": "fn f(y: %(t)s) { let x = y; %(s)s }",
    "local with type": "fn f() { let x: %(t)s; %(s)s }",
    "local constant": "fn f(y: %(t)s) { const x: %(t)s = y; %(s)s }",
    "inferred local constant": "fn f(y: %(t)s) { const x = y; %(s)s }",
    "lambda argument": "fn f() { let l = |x: %(t)s| void => { %(s)s }; }",
    "loop variable": "fn f(y: %(t)s) { for let x = y;;; { %(s)s } }",
    "call": "fn g(): %(t)s { <- g(); } fn f() { %(s)s }",
}
OPS = ["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="]
NOLVALUE = ["(k, x)", "(x, k)", "(w, w.k)", "(w.k, w.m)", "(k, w).m", "(k, w).k", "(x, k, w.k, r)[0]", "1", "1.5", "'c'", "true", "nil", "\"s\"", "f", "g()", "E::A", "E", "n", "S", "I", "(1)", "(x, 1)", "(x: i32)", "x + 1", "(-x)", "(!b)", "(~x)", "(x++)", "(sizeof x)", "(len r)", "(x + 1)", "(x = 1)", "[1, 2]", "(if b => x else x)", "x |> $ + 1", "|y: i32| i32 => { <- y; }",
            "N::{1, 2}", "{1, 2}", "undefined", "n::undefined", "x", "(x)", "((x))", "n::v", "n::c", "::k", "r[0]", "g().a", "*p", "*q", "(*p)", "k", "w", "w.m", "w.k"]


def paths(roots, depth, typed):
    """roots and what is reached from them; `typed` says whether a path has a type"""
    out, cur = [], list(roots)
    for d in range(depth + 1):
        out += cur
        cur = [x for s in STEPS for x in (s % y for y in cur) if typed(x)]
        if d == 0:
            cur += []
    return out


def body(c, p):
    err = Errors(p)
    m = Sema(c, p, err, 40, PRE, DEFS)
    fn = p.fn("typecheck_assignment")
    w = "%s (typecheck_assignment, is_constant_lvalue)" % fn.file
    c.rule("For every way of declaring a variable or constant, every type with and without `const` at each level and behind aliases, and every path of members, elements and pointers from it: a program that assigns to, adds to or increments what the path denotes "
           "is rejected by parser_pass and validator_pass (executed abstractly) if the variable, the part of it or what is pointed to is constant, and accepted otherwise; assignments to what is no variable are rejected.")

    def typed(t, x):
        try:
            r = Ref(PRE + "fn f(x: %s) { let y = %s; }" % (t, x))
            return not r.errors
        except (Reject, Skip):
            return False
    WRITE = ["%s = %s;", "%s++;", "%s--;", "%s += 1;"]
    depth = 3 if c.thorough else 2
    for tn, t in TYPES.items():
        ps = paths(["x"], depth, lambda x: typed(t, x))
        if not c.thorough:
            ps = [x for i, x in enumerate(ps) if x.count("(") < 2 and (len(x) < 5 or i % 4 == 0)]
        for sn, site in SITES.items():
            use = ps if sn in ("argument", "local constant") or c.thorough else [x for x in ps if len(x) < 4]
            root = "g()" if sn == "call" else "x"
            out = []
            for i, x in enumerate(use):
                x = x.replace("x", root)
                for j, wr in enumerate(WRITE):
                    if not c.thorough and (i + j + len(tn)) % (len(WRITE) if sn != "argument" else 2):
                        continue
                    out.append(site % {"t": t, "s": wr.replace("%s", "(%s)" % x if x[0] == "*" and wr[2:4] in ("++", "--") else x)})
            m.funcs("%s %s" % (sn, tn), PRE, out)
    m.run(w)
    m.funcs("compound assignment", PRE, ["fn f(x: %s) { x %s 1; }" % (t, o) for o in OPS for t in ("i32", "const i32", "CI", "u8", "const u64", "f64", "const f64")])
    NP = PRE + "namespace n { let v: i32; const c: i32 = 1; } const k: i32 = 1; fn g(): i32 { <- 1; } "
    ops = ["%s = 1;"] + (["%s " + o + " 1;" for o in OPS] if c.thorough else ["%s += 1;"])
    def statement(x):
        try:
            g = G(tokens(x))
            g.program()
            return not g.errors
        except Bad:
            return False
    m.funcs("target", NP, [x for x in ["fn f(x: i32, b: bool, r: i32[], p: &i32, q: PC, w: N) { %s }" % (o % e) for e in NOLVALUE for o in ops] if statement(x)])
    m.run(w)
    c.require(800)

"""C18: statements and definitions parse to what they say; malformed ones are errors; the parser ends."""
import random
from pars import *
from c_c17 import Runner, mutants, show_toks, bad2
from fw import where

EXPR = ["f(x)", "x = 1", "x++", "--x", "x: i32", "a.m", "x |> f", "x |> g($)", "(f(x))", "(x, f(x))", "(f(x), x)", "if a => f() else g()", "if a => f() else x", "x", "1", "x + 1", "x += 1", "x |> y.z", "x |> -$",
        "a ` f ` b", "a <+> b", "x[1]", "x[1] = 2", "\"s\"", "[1]", "T::{1}", "{1}", "sizeof i32", "(x)", "((x--))", "a.b = c", "*p = 1", "x |> (y = $)", "nil", "|x: i32| => {}", "if a => x else g()",
        "f() else g()", "x++ else y", "if a => (f()) else (x = 1)", "x |> if $ => f() else g()", "||= 1", "-x"]
BODY = ["{}", "f();", "{ let y: i32; }", "<- 1;", "break;", "noop;", ";"]
SIMPLE = ["<-;", "ret;", "<- 1;", "ret x + 1;", "<- if a => 1 else 2;", "<- |x: i32| => { <-; };", "<- |x: i32| i32 => { <- x; };", "break;", "continue;", "noop;", ";", ";;", "let x: i32;", "let x: i32 = 1;", "let x = 1;",
          "const x = 1;", "const x: i32 = 1;", "const x: i32;", "let x: &i32[3] = y;", "let f = |x: i32| { f(x); };", "let f = |x: i32| => { let q: i32; };", "let f = |x: i32, y: u8| i32 => <- x;", "let f = const || => { let q = 1; };",
          "{}", "{ {} {} }", "{ let x = 1; { let x = 2; } let y = x; }", "using a;", "using a::b, c;", "using ::a;", "using a for f();", "using a, b for { let x = 1; }", "asm \"nop\";", "asm \"mov \" 1 \", \" x \"\";", "asm \"a\" &x ::n::y 3;",
          "asm;", "asm \"a\" \"b\" x;", "extern \"C\" (\"int x;\");", "extern \"c\" (\"a\" \"b\");", "extern \"D\" (\"x\");", "extern (\"x\");", "defer f();", "defer { f(); g(); }", "defer defer f();", "defer let x = 1;", "loop {}",
          "loop f();", "loop loop break;", "loop { let x = 1; if x { break; } continue; }", "let x;", "let x: i32 y: i32;", "x: i32 = 1;", "let 1 = 2;", "let a::b = 2;", "let ::x = 1;", "const;", "<-", "break", "continue 1;",
          "fn g() {}", "type T: i32;", "namespace a {}", "import \"x\";", "else {}", "}", "unless x {}", "let x: = 1;", "_ = 1;", "let _ = 1;", "using;", "using ,a;", "using a,;", "using a,, b;", "using a b;"]
LOOPS = ["while c %s", "while a < b %s", "while (c) %s", "while if a => b else c %s", "while f(|x: i32| => { <-; }) %s", "loop %s", "for ;; %s", "for let i = 0; i < n; i++; %s", "for let i: i32 = 0; ; %s", "for let i = 0;;; %s", "for i = 0; i < n; i += 1; %s",
         "for ; c; x++; %s", "for f(); ; ; %s", "for 0 .. 10 %s", "for a + 1 .. len b %s", "for x: u8 .. f(y) %s", "for let i: i32; c; x++; %s", "for const i = 0; c; x++; %s", "for c; x++ %s", "for let i = 0; c; x++ %s", "for 0 .. %s", "for .. 10 %s",
         "for let i = 0, j = 1; c; x++; %s", "for i .. j .. k %s", "for i; %s", "for; %s", "if c %s", "if (a == b) %s", "if a && b %s", "if a = b %s", "if %s", "while %s", "if ! f(x) %s", "if x |> f %s", "if a else b %s",
         "with f = g() %s", "with f: &T = g(x) %s", "with f = g %s", "with f: &T %s", "with f %s", "with a::f = g() %s", "with f = |x: i32| => h(x) %s", "with f = if a => b else c %s", "with f += 1 %s", "with %s", "defer %s", "using n for %s"]
ELSE = ["if a %s else %s", "with f = g() %s else %s", "if a if b %s else %s", "if a { if b %s } else %s", "if a {} else if b %s else %s", "with f = g() with h: T = k(f) %s else %s", "for 0 .. 3 if a %s else %s", "while a if b %s else %s",
        "if a loop if b %s else %s", "if a f(); else if b %s else %s"]
DO = ["do %s while c;", "do %s unless c;", "do f() while c;", "do x = 1 unless a < b;", "do { %s } while if a => b else c;", "do <- 1 while c;", "do <- unless c;", "do ret while c;", "do break unless c;", "do noop while c;", "do continue while 1;",
      "do do f() while a; while b;", "do f() until c;", "do f();", "do f() while;", "do f() while c", "do if a f() else g() while c;", "do if a {} else g() while c;", "do if a {} else g(); while c;", "do with x = y {} else g() while c;", "do with x = y {} else g(); while c;", "do loop f() while c;", "do while a f() unless c;", "do if a f() while c;", "do if a f(); while c;", "do for ;;; f() while c;", "do defer f() while c;", "do match x { _ => f() } while c;", "do if a f(); else g(); while c;", "do loop break while c;", "do for 0 .. 3 f() unless c;", "do with x = y f() else g() while c;",
      "do using n while c;", "do using n for f() while c;", "do asm \"nop\"; while c;", "do match x { 1 => f(); } while c;", "do let x = 1; while c;", "do defer f() while c;"]
MATCH = ["match x {}", "match x { 1 => f(); }", "match x { 1 => f(); 2 => { g(); } _ => h(); }", "match x { < 1 => f(); <= 2 => g(); > y => h(); >= f(z) => k(); }", "match x { _ => f(); _ => g(); }", "match x { _ => f(); 1 => g(); }",
         "match x { a + b => f(); -1 => g(); ! c => h(); }", "match f(x) { 1 => let y: i32; }", "match x { if a => b else c => f(); }", "match x { == 1 => f(); }", "match x { != 1 => f(); }", "match x { 1 f(); }", "match x { 1 => f() }", "match x { 1 => }", "match x 1 => f();",
         "match x { 1 => f(); ", "match x { 1, 2 => f(); }", "match { 1 => f(); }", "match (x) { 1 => match y { 2 => f(); } _ => g(); }", "match x { 1 => <- 2; _ => {} }", "match x { < a || b => f(); }", "match x { \"s\" => f(); 'c' => g(); nil => h(); }",
         "match (type) T {}", "match (type) &T[3] { i32 => f(); &u8 => g(); _ => h(); }", "match (type) typeof x { struct { a: i32 } => f(); }", "match (type) T { _ => f(); _ => g(); }", "match (type) T { i32 f(); }", "match (type) { i32 => f(); }", "match (type T { i32 => f(); }",
         "match (type) T { 1 => f(); }", "match (type) T { _ => match x { 1 => f(); } i32 => {} }", "match x { 1 => if a f(); else g(); 2 => h(); }", "match x { _ 1 => f(); }", "match x { 1 => f(); } else g();", "match x { > => f(); }"]
DEFS = ["", "fn f() {}", "fn f(): i32 = 1;", "fn f(): i32 { <- 1; }", "fn f(a: i32) {}", "fn f(a: i32, b: &u8,) {}", "fn f(a: i32, b: ...) {}", "fn f(a: ...) {}", "fn f(a: ..., b: i32) {}", "fn f(a: i32...) {}", "fn f(a) {}", "fn f(a: i32 b: i32) {}", "fn f: i32 {}", "fn () {}",
        "fn f() = g();", "fn f() <- ;", "fn f();", "fn f(): i32;", "fn f(): i32", "fn f() { <- 1; }", "fn f(): void { <- 1; }", "fn f() = 1", "fn f() g();", "fn f() if a g();", "fn f() while a { let x = 1; }", "fn a::f() {}", "fn ::f() {}", "fn f(a::b: i32) {}",
        "operator + (a: T, b: T): T { <- a; }", "operator <+> (a: T, b: T): T { <- a; }", "operator +++ (a: T): T = a;", "operator <+> (): T { <- a; }", "operator <+> (a: i32, b: i32, c: i32) {}", "operator foo (a: i32) {}", "operator ( (a: i32) {}", "operator == (a: i32) {}",
        "operator <+> (a: i32, b: ...) {}", "dyn(T) fn f(a: i32): i32 { <- a; }", "dyn(&T[2]) fn f() {}", "dyn() fn f() {}", "dyn T fn f() {}", "dyn(T) operator <-> (a: T, b: T) {}", "dyn(T) let x: i32;", "dyn(T) extern fn f();", "dyn(T) fn f();",
        "type T: i32;", "type T: struct { a: i32, b: &T };", "type T: struct { a: i32, embed U, };", "type T: union { a: i32, b: f32 };", "type T: struct {};", "type T: enum { A, B = 2, C, };", "type T: enum { A B };", "type T: interface { fn a(x: i32): i32, fn b(), };", "type T: interface { fn a(x: i32) };",
        "type T: interface { fn f(x: i32): i32; fn g(); };", "type T: interface { let x: i32; };", "type T: fn<i32>(i8, &T);", "type T: fn(i8);", "type T: fn;", "type T: fn<>();", "type T: dyn U;", "type T: typeof x;", "type T: (&i32)[3];", "type T: &&i32'c[4][];", "type T: const &const i32;", "type T = i32;",
        "type T: i32", "type T;", "type ::T: i32;", "type a::T: i32;", "type T: a::b::C;", "type T: ::a::B;", "type T: struct { a i32 };", "type T: struct { a: i32; };", "type T: struct a: i32 };", "type T: 'c[3];", "type T: i32[;", "type T: i32[1;", "type T: i32[1 2];", "type T: &;", "type T: |;", "type T: (i32;",
        "type T: fn<i32(i8);", "type T: struct { embed };", "type T: enum { 1 };", "type T: enum { A = };", "type T: struct { a: struct { b: i32 }, c: union { d: i32, e: enum { F } } };", "type T: fn<fn<i32>()>(fn<void>(i8));",
        "let x: i32;", "let x: i32 = 1;", "const x: i32 = 1;", "const x: i32;", "let x = 1;", "let x: i32 = 1", "let x: i32 =;", "let ::x: i32;", "let x: i32, y: i32;", "let f: fn<i32>(i32) = |x: i32| i32 => { <- x; };", "const f: fn<i32>() = const || i32 => { let q = 1; <- 2; };", "let f: fn() = || => { <- 1; };",
        "let f: fn<i32>() = || i32 = 1;", "extern fn f();", "extern fn f(a: i32, b: ...): &u8;", "extern let x: i32;", "extern const x: i32 = 1;", "extern \"C\" fn f();", "extern \"c\" let x: i32;", "extern \"D\" fn f();", "extern { fn f(); let x: i32; }", "extern \"C\" { fn f(a: &u8): i32; const y: u8; operator <+> (a: i32, b: i32); }",
        "extern {}", "extern { type T: i32; }", "extern { fn f() {} }", "extern fn f() {}", "extern fn f() = 1;", "extern type T: i32;", "extern { extern fn f(); }", "extern \"C\" \"C\" fn f();", "extern 1 fn f();", "extern { fn f()", "extern;", "extern { fn f(); ", "namespace n {}", "namespace n { fn f() {} let x: i32; type T: i32; }",
        "namespace nm { fn f() {} } namespace n { fn f() {} } namespace N { fn f() {} } namespace nmo { fn f() {} } namespace n { fn h() {} }", "let n: i32; namespace n { fn f() {} } namespace n { fn g() {} }", "namespace n { namespace m { fn f() {} } namespace m { fn g() {} } }", "namespace n { fn f() {} } fn g() {} namespace n { fn h() {} }", "namespace n::m {}", "namespace ::n {}", "namespace n { <- 1; }", "namespace n { fn f() {}", "namespace { }", "namespace n", "namespace n { extern \"C\" { fn f(); } operator <+> (a: i32, b: i32) {} }",
        "namespace n { const f: fn<i32>() = const || i32 => <- 2; }", "namespace n { let f: fn<i32>() = || i32 => { <- 2; }; }", "namespace n { let f: fn() = || => { <- 2; }; }", "namespace n { dyn(T) fn f() {} } namespace m { namespace n { type U: i32; } }", "import \"a\";", "import \"a\"; import \"b\"; fn f() {}", "import a;", "import \"a\"", "import;",
        "namespace n { import \"a\"; }", "fn f() {} import \"a\"; fn g() {}", ";", "fn f() {};", "f();", "<- 1;", "if a {}", "}", "{}", "let", "type", "fn", "const", "extern", "operator", "dyn", "namespace", "fn f", "fn f(", "fn f(a", "fn f(a:", "fn f(a: ..", "macro m { 1 }", "1", "\"s\"", "fn f() { fn g() {} }", "fn f() { namespace n {} }",
        "fn f() {} fn f() {}", "fn f() { let x = 1; } fn g() { let y = 2; for let i = 0;;; {} }", "fn f(): i32 { let k = |x: i32| => { <-; }; <- 1; } fn g() { <-; }", "fn f() { let k = |x: i32| i32 => { <- 1; }; } fn g() { <- 1; }", "fn f(): i32 { let k = |x: i32| => { let z = |y: u8| u8 => { <- y; }; <- 1; }; <- 1; }",
        "fn f() { let k = const |x: i32| i32 => { let q = 1; <- q; }; let j = 2; }", "fn f() { while a { with h = g() { for let i = 0;;; { let z = |w: i32| => { let v = 1; }; } } } }", "fn f() { let x = [...a]; }", "fn f(): struct { a: i32 } { <- x; }"]


class SGen:
    """random statements and definitions"""
    E = ["x", "f(x)", "a + b", "a == b && c", "if a => b else c", "x |> f($)", "|q: i32| i32 => { <- q; }", "T::{1, x}", "[1, 2]", "p.q", "n::v", "(a)", "1", "\"s\"", "const |y: i32| = y"]
    X = ["f(x)", "x = a + 1", "x++", "x |> f", "a.m = f()", "(f(), g())", "if a => f() else g()", "n::f(1, 2)"]

    def __init__(self, seed):
        self.r, self.n = random.Random(seed), 0

    def e(self):
        return self.r.choice(self.E)

    def id(self):
        self.n += 1
        return "v%d" % self.n

    def t(self):
        return self.r.choice(["i32", "&u8", "T", "n::T", "i32[3]", "fn<i32>(u8)", "const &T", "u8[]", "struct { a: i32 }", "{T, i32}", "{i32[3], fn<i8>(T)}"])

    def blk(self, d):
        return "{ " + " ".join(self.s(d - 1) for _ in range(self.r.choice((0, 1, 2, 2, 3)))) + " }"

    def s(self, d, semi=True):
        r = self.r
        z = ";" if semi else ""
        if d <= 0 or r.random() < .25:
            c = ["<- " + self.e() + z, "break" + z, "continue" + z, "noop" + z, r.choice(self.X) + z, r.choice(self.X) + z]
            if semi:
                c += ["let %s = %s;" % (self.id(), self.e()), "let %s: %s;" % (self.id(), self.t()), "const %s: %s = %s;" % (self.id(), self.t(), self.e()), "let %s = |%s: %s| => %s;" % (self.id(), self.id(), self.t(), self.s(d - 1, False) if d > 0 else "f(x)"),
                      "let %s = |%s: %s| i32 => %s;" % (self.id(), self.id(), self.t(), self.blk(d) if d > 0 else "{ <- x; }")]
            return r.choice(c)
        k = r.randrange(14)
        if k == 0:
            return "if %s %s" % (self.e(), self.s(d - 1, semi))
        if k == 1:
            return "if %s %s else %s" % (self.e(), self.blk(d), self.s(d - 1, semi))
        if k == 2:
            return "while %s %s" % (self.e(), self.s(d - 1, semi))
        if k == 3:
            return "loop " + self.s(d - 1, semi)
        if k == 4:
            return "for let %s = %s; %s; %s; %s" % (self.id(), self.e(), r.choice(["", self.e()]), r.choice(["", r.choice(self.X)]), self.s(d - 1, semi))
        if k == 5:
            return "for %s .. %s %s" % (self.e(), self.e(), self.s(d - 1, semi))
        if k == 6:
            return "with %s = %s %s%s" % (self.id(), self.e(), self.blk(d), r.choice(["", " else " + self.s(d - 1, semi)]))
        if k == 7:
            return "match %s { %s%s }" % (self.e(), " ".join("%s%s => %s" % (r.choice(["", "<", ">="]), self.e(), self.s(d - 1)) for _ in range(r.randrange(4))), r.choice(["", " _ => " + self.s(d - 1)]))
        if k == 8:
            return "match (type) %s { %s%s }" % (self.t(), " ".join("%s => %s" % (self.t(), self.s(d - 1)) for _ in range(r.randrange(3))), r.choice(["", " _ => " + self.s(d - 1)]))
        if k == 9 and semi:
            return "do %s %s %s;" % (self.s(d - 1, False), r.choice(["while", "unless"]), self.e())
        if k == 10:
            return "defer " + self.s(d - 1, semi)
        if k == 11:
            return "using n%s for %s" % (r.choice(["", "::m, k"]), self.s(d - 1, semi))
        return self.blk(d)

    def fn(self, d):
        args = ", ".join("%s: %s" % (self.id(), self.t()) for _ in range(self.r.randrange(4)))
        ret = self.r.choice(["", ": i32", ": T", ": void"])
        if self.r.random() < .15:
            return "fn %s(%s)%s = %s;" % (self.id(), args, ret, self.e())
        return "%sfn %s(%s)%s %s" % (self.r.choice(["", "", "", "dyn(T) "]), self.id(), args, ret, self.blk(d))

    def d(self, d):
        k = self.r.randrange(9)
        if k < 4:
            return self.fn(d)
        if k == 4:
            return "type %s: %s;" % (self.id(), self.r.choice([self.t(), "enum { A%d, B%d = 2 }" % (self.n, self.n), "union { a: i32, embed T }", "interface { fn g(x: i32), }"]))
        if k == 5:
            return "%s %s: %s%s;" % (self.r.choice(["let", "const"]), self.id(), self.t(), self.r.choice(["", " = " + self.r.choice(["1", "x + 2", "f", "\"s\""])]))
        if k == 6:
            return self.r.choice(["extern fn %s(a: i32, b: ...): i32;", "extern \"C\" let %s: T;", "extern \"C\" { fn %s(); let q: i32; }"]) % self.id()
        if k == 7 and d > 0:
            return "namespace %s { %s }" % (self.r.choice(["n", "m", "k"]), " ".join(self.d(d - 1) for _ in range(self.r.randrange(4))))
        return "import \"x.csp\";" if False else self.fn(d - 1)


def body(c, p):
    from contain import lists
    lists(c, p, "lists")
    c.rule("The parser is interpreted abstractly on token sequences of whole programs: every statement form with every kind of body and branch, every definition form, generated programs that nest them, and sequences cut off at every token, "
           "with tokens missing, doubled or exchanged. The definitions, trees, declared names, their blocks and the names collected for each function must be those of the reference grammar; what it rejects must end in an error diagnostic.")
    c.require(150)
    R = Runner(c, p)
    wp, ws = where(p.fn("parser_pass")), where(p.fn("parse_stmt"))
    rnd = random.Random(3)

    def prog(s, w):
        return R.check(s, tokens(s), "program")

    def wrap(s, ret=": i32"):
        t = "fn f()%s { let k0 = 1; %s let zz: i32; }" % (ret, s)
        return R.check(t, tokens(t), "program")

    def group(key, ss, f, w):
        bad = None
        for s in ss:
            bad = bad or f(s)
        c.ob(key, bad is None, bad or "%d programs as the grammar says" % len(ss), w)

    for s in SIMPLE:
        group("stmt-" + s, [s], wrap, ws)
        bad = wrap(s, "")
        c.ob("stmt-in-void-" + s, bad is None, bad or "as the grammar says", ws)
    group("expression-statements", [e + ";" for e in EXPR], wrap, ws)
    group("expression-statements-unended", EXPR, wrap, ws)
    group("expression-statements-do", ["do %s while c;" % e for e in EXPR], wrap, ws)
    for l in LOOPS:
        group("stmt-" + l, [l % b for b in BODY + ["if d f(); else g();", "let y = 1;"]], wrap, ws)
    for l in ELSE:
        group("else-" + l, [l % (a, b) for a in BODY for b in ("{}", "g();", "{ let w = 1; }", "if e {}", "")], wrap, ws)
    for l in DO:
        group("do-" + l, [l % b for b in BODY] if "%s" in l else [l], wrap, ws)
    for s in MATCH:
        group("match-" + s, [s], wrap, ws)
    for s in DEFS:
        group("def-" + s, [s] + ["%s fn after(): i32 { <- 1; }" % s, "namespace outer { %s }" % s], lambda s: prog(s, wp), wp)
    # tuples stand for their own members
    ts = ["i32", "u8", "T", "U", "n::T", "::T", "&T", "&U", "i32[3]", "i32[4]", "i32[n]", "i32[m]", "i32'c[3]", "i32'c[4]", "i32[]", "u8[]", "const i32", "const T", "fn<i32>(T)", "fn<i32>(U)", "fn<i8>(T)", "fn(T, U)", "fn(T)", "dyn T", "dyn U", "typeof x", "typeof y",
          "struct { a: i32 }", "struct { a: i8 }", "struct { b: i32 }", "union { a: i32 }", "enum { A }", "enum { B }", "{T, i32}", "{U, i32}", "{i32}", "(&i32)[3]", "&i32[3]", "&&T", "interface { fn f() }", "interface { fn g() }"]
    for a in ts:
        group("tuple-" + a, ["fn f(x: {%s, T}) { %s }" % (a, " ".join("let y%d: {%s, %s};" % (i, b, "T" if i % 3 else "U") for i, b in enumerate(rnd.sample(ts, 14)))),
                             "let x: {%s}; let y: {%s, %s,}; let z: {%s, {%s}}; let w: {%s, {%s}};" % ((a,) * 7)], lambda s: prog(s, wp), wp)
    # generated programs
    n = 400 if c.thorough else 100
    for b in range(10):
        g = SGen(100 + b)
        ss = [" ".join(g.d(3) for _ in range(g.r.choice((1, 2, 3)))) for _ in range(n // 10)]
        group("generated-%d" % b, [s for s in ss if len(s) < 1500], lambda s: prog(s, wp), wp)
    # malformed programs
    seeds = ["fn f ( a : i32 , b : ... ) : i32 { let x : i32 = 1 ; <- x ; }", "fn f ( ) { for let i = 0 ; i < n ; i ++ ; { f ( i ) ; } }", "fn f ( ) { for 0 .. 3 f ( ) ; let x = 2 ; }", "fn f ( ) { if a b ( ) ; else if c { } }",
             "fn f ( ) { match x { 1 => f ( ) ; > 2 => { } _ => g ( ) ; } }", "fn f ( ) { match ( type ) T { i32 => f ( ) ; _ => g ( ) ; } }", "fn f ( ) { with x : T = g ( ) { } else h ( ) ; }", "fn f ( ) { do f ( ) while x ; do { } unless y ; }",
             "fn f ( ) { using a :: b , c ; defer g ( ) ; asm \"nop\" & x 1 ; }", "fn f ( ) { let k = | x : i32 | i32 => { <- x ; } ; k ( 1 ) ; }", "type T : struct { a : i32 , embed U , b : & T [ 3 ] } ;", "type T : enum { A , B = 2 , C } ;",
             "type T : interface { fn f ( a : i32 ) : i32 , fn g ( ) , } ;", "extern \"C\" { fn f ( a : & u8 ) : i32 ; let x : i32 ; }", "namespace n { fn f ( ) { } namespace m { let x : i32 ; } }", "operator <+> ( a : T , b : T ) : T = a ;",
             "dyn ( & T ) fn f ( x : i32 ) { x ++ ; }", "const f : fn < i32 > ( i8 ) = const | x : i8 | i32 => { <- 1 ; } ;", "import \"a\" ; let x : i32 = 1 ;", "fn f ( ) { while a { break ; } loop continue ; extern \"C\" ( \"x\" ) ; }"]
    for s in seeds:
        t = tokens(s)
        ms = [m for m in mutants(t, rnd, 10 ** 6)]
        ms = ms[:300 if c.thorough else 70]
        cuts = [t[:i] for i in range(len(t))]
        bad = R.check(s, t, "program")
        for m in cuts + ms:
            bad = bad or R.check(show_toks(m), m, "program")
            if bad:
                break
        c.ob("malformed-" + s, bad is None, bad or "every altered sequence is parsed as the grammar says or rejected", wp)
    c.stats["token sequences"] = R.n

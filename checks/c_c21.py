"""C21: every use of a name refers to its innermost declaration; undeclared, doubly declared and misused names are rejected."""
import itertools, random
from sema import *
from c_c22 import Sema

NEST = ("{0}namespace n {{ {1} fn h() {{ g(x); }} namespace m {{ {2} fn f({3}) {{ g({u}); {4} {{ {5} g({u}); for {6};;; {{ {7} g({u}); }} g({u}); }} let l = |{8}| i32 => {{ {9} g({u}); <- {u}; }}; if g({u}) == 1 {{ {10} g({u}); }} else {{ g({u}); }} "
        "match ({u}) {{ ({u}) => {{ {11} g({u}); }} _ => {{ g({u}); }} }} g({u}); }} }} fn k() {{ g(x); }} }} fn g(a: i32): i32 {{ <- a; }} {12}")
SITE = ["let x: i32;", "let x: i32;", "const x: i32 = 3;", "x: i32", "let x = 5;", "let x: i32 = 6;", "let x = 7", "let x = 8;", "x: i32", "let x = 10;", "let x = 11;", "let x = 12;", ""]
NONE = ["", "", "", "", "", "", "let q = 1", "", "", "", "", "", ""]
DECL = {"-": "", "let": "let x: i32;", "const": "const x: i32 = 1;", "fn": "fn x(a: i32): i32 { <- a; }", "type": "type x: i64;", "enum": "type x: enum { v, w };", "namespace": "namespace x { let v: i32; type t: u8; }", "struct": "type x: struct { v: i32 };"}
LOCAL = {"-": "", "arg": "", "local": "let x = 4;", "using": "using n;", "using m": "using ::n::m;"}
USES = {"value": "g(x);", "call": "x(1);", "type": "let y: x;", "member": "g(x::v);", "member type": "let y: x::t;", "global": "g(::x);", "in n": "g(n::x);", "in m": "g(m::x);", "in n::m": "g(n::m::x);", "global n": "g(::n::x);", "global m": "g(::m::x);", "deep": "g(n::x::v);", "cast": "g((1: x));", "size": "g(sizeof x);",
        "assignment": "x = 1;", "address": "let y = &x;", "literal": "let y = x::{1};", "part": "g(x.v);", "using": "using x; g(v);", "namespace value": "g(n);", "namespace type": "let y: n;", "function part": "g(f::x);", "pointer type": "let y: &x = nil;", "array of type": "let y: x[3];", "result type": "let y: fn<x>(x) = nil;"}
BASE = "fn g(a: i32): i32 { <- a; } "
TWICE = {"globals": "%s %s", "in a namespace": "namespace n { %s %s }", "separate namespaces": "namespace n { %s } namespace o { %s }", "nested": "%s namespace n { %s }", "in a namespace twice": "namespace n { %s } namespace n { %s }", "outer after": "namespace n { %s } %s"}
PROGRAMS = [
    "namespace n { fn ab(a: i32) {} fn a(b: i32) {} } fn f() { n::a(1); n::ab(1); }", "namespace n { fn ab() {} } fn f() { n::a(); }", "namespace n { fn a() {} } fn f() { n::ab(); }", "type E: enum { ab, a, abc }; fn f() { g(E::a); g(E::abc); g(E::ab); }", "type E: enum { ab }; fn f() { g(E::a); }",
    "type E: enum { a }; fn f() { g(E::ab); }", "namespace nn { let x: i32; } namespace n { let x: i32; } fn f() { g(n::x); g(nn::x); }", "type S: struct { ab: u8, a: i32 }; fn f(s: S) { g(s.a); }", "type S: struct { ab: i32 }; fn f(s: S) { g(s.a); }", "type S: struct { a: i32 }; fn f(s: S) { g(s.ab); }",
    "fn f(ab: u8, a: i32) { g(a); }", "fn f(ab: i32) { g(a); }", "fn f(a: i32) { g(ab); }", "let A: u8; let a: i32; fn f() { g(a); }", "let A: i32; fn f() { g(a); }", "type T: u8; type t: i32; fn f(x: t) { g(x); }", "type E: enum { A, a }; fn f() { g(E::a); }",
    "fn f(x: i32, x: i32) {}", "fn f(x: i32, y: i32, x: u8) {}", "fn f(x: i32) { let x = 1; g(x); }", "fn f() { let x = 1; let x = 2; }", "fn f() { let x = 1; { let x = 2; g(x); } g(x); }", "fn f() { let x = 1; { let y = x; let x = y; g(x); } }", "fn f() { let x = x; }",
    "fn f() { g(x); let x = 1; }", "let x: i32; fn f() { g(x); let x = 1; }", "let x: i32; fn f() { let x = x; }", "fn f() { let l = |x: i32, x: i32| i32 => { <- x; }; }", "fn f(x: i32) { let l = |x: i32| i32 => { <- x; }; }", "fn f(x: i32) { let l = |y: i32| i32 => { <- x; }; }", "fn f() { let l = |y: i32| i32 => { <- y; }; g(y); }",
    "fn f() { for let x = 1; x < 3; x++; { g(x); } g(x); }", "fn f() { for let x = 1; x < 3; x++; { let x = 2; g(x); } }", "fn f() { for let x = 1; x < 3; x++; g(x); for let x = 2; x < 4; x++; g(x); }", "fn f() { { let x = 1; } g(x); }", "fn f() { if true { let x = 1; } else { g(x); } }", "fn f() { while true { let x = 1; } g(x); }",
    "type S: struct { x: i32, x: u8 };", "type S: struct { x: i32, y: struct { x: i32 } };", "type U: union { x: i32, x: f32 };", "type E: enum { a, a };", "type E: enum { a, b }; type F: enum { a, b }; fn f() { g(E::a + F::b); }", "type E: enum { a }; fn f() { g(a); }", "type E: enum { a }; fn f() { g(E::b); }", "type E: enum { E }; fn f() { g(E::E); }",
    "type S: struct { S: i32 }; fn f(s: S) { g(s.S); }", "type S: struct { p: &S }; fn f(s: S) { g((s.p.p == nil: i32)); }", "type S: struct { t: T }; type T: struct { x: i32 }; fn f(s: S) { g(s.t.x); }", "type S: struct { i: u8, t: i }; type i: i32; fn f(s: S) { g(s.t); }", "type A: B; type B: C; type C: i32; fn f(a: A): C { <- a; }", "type A: &A; fn f(a: A) {}", "type A: undefined;", "fn f(a: undefined) {}", "fn f(): undefined {}",
    "let x: undefined;", "let x: f; fn f() {}", "let x: i32 = y; const y: i32 = 1;", "let x: i32 = 1; let y: i32 = 2; fn f() { g(x + y); }", "fn a() { b(); } fn b() { c(); } fn c() { a(); }", "namespace n { fn a() { b(); } } fn b() { n::a(); }", "namespace n { fn a() { o::b(); } } namespace o { fn b() { n::a(); } }", "namespace n { namespace o { let x: i32; } fn f() { g(o::x); } } fn h() { g(n::o::x); }",
    "namespace n { let g: i32; fn f() { ::g(g); } }", "namespace n { let x: i32; } fn f() { using n; g(x); }", "namespace n { let x: i32; } fn f() { { using n; g(x); } g(x); }", "namespace n { let x: i32; } fn f() { using n for { g(x); } }", "namespace n { let x: i32; } fn f() { using n for { g(x); } g(x); }", "namespace n { let x: i32; } fn f() { g(x); using n; }", "namespace n { let x: i32; } namespace o { let x: i32; } fn f() { using n; using o; }",
    "namespace n { let x: i32; } namespace o { let x: i32; } fn f() { using n; { using o; g(x); } g(x); }", "namespace n { let x: i32; } namespace o { let x: i32; } fn f() { using n, o; }", "namespace n { let x: i32; } namespace o { let y: i32; } fn f() { using n, o; g(x + y); }", "namespace n { let x: i32; } fn f() { let x = 1; using n; }", "namespace n { let x: i32; } fn f() { let x = 1; using n for { g(x); } g(x); }", "namespace n { let x: i32; } let x: i32; fn f() { using n; g(x); g(::x); g(n::x); }",
    "namespace n { namespace o { let x: i32; } } fn f() { using n; g(o::x); using o; g(x); }", "namespace n { type E: enum { a, b }; } fn f() { g(n::E::a); using n; g(E::b); }", "type E: enum { a }; fn f() { using E; }", "fn f() { using f; }", "fn f() { using undefined; }", "namespace n { type t: i32; let v: t; fn f(a: t): t { <- a; } } fn h(a: n::t): n::t { <- n::f(a); }", "namespace n { type t: i32; } fn f(a: t) {}",
    "type t: u8; namespace n { type t: i32; fn f(a: t, b: ::t) {} }", "namespace n { type t: struct { m: u }; type u: i32; } fn f(a: n::t) { g(a.m); }", "fn f(f: i32) { g(f); }", "fn f(g: i32) { g(1); }", "fn f(g: i32) { ::g(g); }", "fn f() { f(); let f = 1; g(f); }", "let g1: i32; fn f() { let l = |a: i32| i32 => { <- g1 + a; }; }", "fn f(a: i32) { let l = |b: i32| i32 => { let m = |c: i32| i32 => { <- a + b + c; }; <- m(b); }; }",
    "fn f(a: i32) { let l = |b: i32| i32 => { let a = b; <- a; }; g(a); }", "fn f() { g(1) |> g($); }", "let x: i32; type T: struct { x: i32 }; fn f(t: T, x: T) { g(t.x + x.x); }", "type T: struct { x: i32 }; fn f(t: T) { g(x); }", "type T: struct { f: i32 }; fn f(t: &T) { g(t.f); }", "fn f(t: i32) { g(t.x); }", "fn f() { g(n::x); }", "namespace n {} fn f() { g(n::x); }", "namespace n { fn f() { g(::n::h()); } fn h(): i32 { <- 1; } }",
    "const a: i32 = 1; const b: i32 = a; const d: i32 = a + b; fn f() { g(d); }", "type A: i32[n]; const n: i32 = 3; fn f(a: &A) {}", "fn f() { do { let x = 1; } while x == 1; }", "fn f() { let a = 1; match a { 1 => { let b = 2; g(b); } 2 => { let b = 3; g(b); } _ => { g(b); } } }", "fn f() { let a = 1; let b = a; g(b); }", "type t: i32; fn f() { let t = 1; g(t); }", "type t: i32; fn f() { let t = 1; let u: t; }",
    "extern fn e(a: i32): i32; extern let v: i32; fn f() { g(e(v)); }", "extern fn e(a: i32): i32; fn e(a: i32): i32 { <- a; }", "fn main() {} fn main() {}", "let x: i32; fn x() {}", "type x: i32; fn x() {}", "namespace x {} fn x() {}", "namespace x {} type x: i32;",
]


def body(c, p):
    from contain import tables
    tables(c, p, "name tables")
    err = Errors(p)
    m = Sema(c, p, err)
    fn = p.fn("scope_resolve_ident")
    w = "%s (scope_resolve_ident, scope_register_obj)" % fn.file
    c.rule("For a name declared at every subset of twelve nested sites (globals, two namespaces, argument, locals of the function, of blocks, loops, branches, cases and lambdas, loop and lambda variables) and used at every one of them; for every kind of declaration at global, namespace and local "
           "level and every form of use; for every pair of declarations in one scope or two: parser_pass and validator_pass, executed abstractly, refer each identifier to the declaration an independent scope reference selects, and reject exactly the programs it rejects.")
    r = random.Random(21)
    subsets = list(itertools.product([0, 1], repeat=12))
    if not c.thorough:
        subsets = [s for s in subsets if sum(s) <= 1 or sum(s) >= 12] + r.sample(subsets, 260)
    for s in subsets:
        sites = [SITE[i] if i < 12 and s[i] else NONE[i] for i in range(13)]
        for u in ("x", "::x", "m::x", "::n::x") if c.thorough else ("x",) if r.random() < .8 else (r.choice(["::x", "m::x", "n::m::x", "::n::x"]),):
            src = NEST.format(*sites, u=u)
            if not s[0] and not s[1]:
                src = src.replace("g(x);", "")
            m.programs_of("nested declarations", [src])
    m.run(w)
    combos = list(itertools.product(DECL, DECL, DECL, LOCAL, USES))
    if not c.thorough:
        # every kind at one level with every use, and a sample of combinations
        keep = [k for k in combos if sum(x != "-" for x in k[:4]) <= 1]
        two = [k for k in combos if sum(x != "-" for x in k[:4]) == 2]
        combos = keep + r.sample(two, 500) + r.sample(combos, 300)
    for a, b, d, l, u in combos:
        src = BASE + "%s namespace n { %s namespace m { %s fn f(%s) { %s %s } } }" % (DECL[a], DECL[b], DECL[d], "x: i32" if l == "arg" else "", LOCAL[l], USES[u])
        m.programs_of("use as " + u, [src])
    m.run(w)
    for t, (a, b) in itertools.product(TWICE, itertools.product([k for k in DECL if k != "-"], repeat=2)):
        m.programs_of("two declarations, " + t, [TWICE[t] % (DECL[a], DECL[b])])
    m.run(w)
    for s in PROGRAMS:
        m.programs_of("scopes", [BASE + s])
    m.run(w)
    va = [("fn f(a: i32, v: ...) { let p = v; }", True), ("fn f(a: i32, v: ...) { let p = w; }", False), ("fn f(a: i32, v: ...) {} fn k() { let p = v; }", False), ("fn f(v: i32, v: ...) {}", False), ("fn f(a: i32, v: ...) { let v = 1; g(v); }", True), ("fn f(a: i32, v: ...) { g(v); } let v: i32;", False), ("fn f(a: i32, v: ...) { g(::v); } let v: i32;", True),
          ("fn f(a: i32, v: ...) { { let v = a; g(v); } }", True), ("fn f(a: i32, v: ...) { { let p = v; } while a > 0 { let q = v; } }", True), ("namespace n { fn f(a: i32, v: ...) { let p = v; } fn h() { let p = v; } }", False), ("fn f(a: i32, v: ...) { let p = v; } fn k(b: i32, w: ...) { let p = w; }", True), ("fn f(a: i32, v: ...) { let p = v; } fn k(b: i32, w: ...) { let p = v; }", False)]
    for x, want in va:
        for r in run_program(p, err, BASE + x)[-1]:
            c.ob("unnamed arguments", r.accepted == want, "%s, but its names %s\n      in: %s" % ("accepted" if r.accepted else "rejected (%s %s)" % (r.why, r.errors[:3]), "are declared" if want else "are not declared, or twice", x), w)
    c.require(800)

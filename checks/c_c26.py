"""C26: every symbol of the generated program is defined exactly once; removing dead code takes away only what nothing refers to."""
import re
from sema import *
from data import *

EXPR = ["X", "(X)", "X + 1", "1 - X", "X * 2", "2 / X", "X % 3", "X & 1", "1 | X", "X ^ 1", "X << 1", "1 >> X", "-X", "~X", "(1, X)", "(X, 1)", "((X: i64): i32)", "(if X == 1 => 1 else 2)", "(if X != 1 && b => 1 else 2)",
        "(if b || X > 1 => 1 else 2)", "(if X >= 1 => 1 else 2)", "(if X < 1 => 1 else 2)", "(if X <= 1 => 1 else 2)", "(if !(X == 1) => 1 else 2)", "(if b => X else 2)", "(if b => 1 else X)", "(X else 2)", "(2 else X)", "(2 else 2 else X)", "id(X)", "two(1, X)", "two(X, 1)", "va(1, X)",
        "a[X]", "a[^X]", "a[X + 1]", "*(q + X)", "(*pick(X))", "mk(X).x", "S::{X, 1}.x", "S::{1, X}.y", "[X, 2][0]", "[2, X][1]", "([1, X][0])", "((len [X, 2]): i32)", "(X |> id($))", "(1 |> two($, X))", "(|| i32 => { <- X; })()", "(|k: i32| i32 = k + X)(2)",
        "id(id(X))", "(&mk2(X)).x", "*(&a[X])", "fs[X]()", "fs[0]() + X", "h.f(X)", "n::id(X)", "dy(mkd(X))", "dy(mkd(X) else mkd(1))"]
STMT = ["X;", "v = X;", "v += X;", "v -= X;", "a[X] = 1;", "a[X]++;", "a[^X]--;", "*pick(X) = 2;", "(*pick(X))++;", "let l = X;", "let l: i64 = X;", "let l: i32[2] = [1, X];", "const l = X;", "if b { <- X; }", "if X == 1 {}", "if b { X; }", "if b {} else { X; }", "if b {} else if X == 1 {}",
        "while X == 1 { break; }", "while b { X; b = false; }", "do { X; } while false;", "do {} while X == 7;", "do {} unless X == 1;", "do { X; } unless true;", "for let i = X; i < 3; i++; {}", "for let i = 0; i < X; i++; {}", "for let i = 0; i < 3; i += X; {}", "for let i = 0; i < 3; i++; { X; }",
        "for ;;; { X; break; }", "for 0 .. X {}", "for X .. 3 {}", "for 0 .. 3 { X; }", "loop { X; break; }", "match X { 1 => {} _ => {} }", "match v { X => {} _ => {} }", "match v { 1 => X; _ => {} }", "match v { 1 => {} > 4 => { X; } _ => {} }", "match v { 1 => {} < X => {} }", "match v { 1 => {} _ => { X; } }",
        "match (type) i32 { i32 => { X; } _ => {} }", "match (type) i64 { i32 => {} _ => { X; } }", "match (type) u8 { i32 => {} u8 => X; }", "defer X;", "defer { X; }", "with w = mw(X) {}", "with w = mw(1) { X; }", "with w = mw(1) {} else { X; }", "using n for { X; }", "using n; X;", "{ X; }", "{ { X; } }",
        "let g = || i32 => { <- X; }; g();", "let g = || i32 = X; g();", "let u: S = S::{X, 2};", "let u: S = mk(X);"]
PRE = ("type S: struct { x: i32, y: i32 }; type H: struct { f: fn<i32>(i32) }; type W: struct { p: i32 }; type I: interface { fn get(s: &I): i32, }; let a: i32[4]; let q: &i32; let v: i32 = 2; let b: bool; let it: S; let hs: i32[2]; "
       "fn id(k: i32): i32 = k; fn two(j: i32, k: i32): i32 = j + k; fn va(k: i32, r: ...): i32 = k; fn pick(k: i32): &i32 { <- &a[k]; } fn mk(k: i32): S { <- S::{k, k}; } fn mk2(k: i32): S { <- S::{k, k}; } namespace n { fn id(k: i32): i32 = k; fn z(): i32 = 1; } "
       "fn one(): i32 = 1; let fs: (fn<i32>())[2]; let h: H; let wg: W; fn mw(k: i32): &W { <- &wg; } [drop] fn wx(k: &W) { wy(); } fn wy() {} dyn(I) fn get(t: &S): i32 = dg(); fn dg(): i32 = 2; fn mkd(k: i32): &S { <- &it; } fn dy(d: dyn I): i32 = 1; ")
# what a program needs without its main function calling it
ROOTS = ["[before_main] fn r() { X; } ", "[after_main] fn r() { X; } ", "[after_main] fn r(k: i32) { X; } ", "[export(\"r\")] fn r() { X; } ", "namespace m { [export(\"r\")] fn r() { X; } } ", "namespace m { dyn(I) fn get(t: &i32): i32 { <- X; } } "]
LAMBDAS = ["fn main(): i32 { let l = || i32 => { let k = || i32 = T0(); <- k(); }; <- l(); }", "fn f(): i32 { let l = || i32 = 2; <- l() + T0(); } fn main(): i32 { let l = || i32 = 1; <- l() + f(); }",
           "namespace m { fn f(): i32 { let l = || i32 = T0(); <- l(); } } fn f(): i32 { let l = || i32 = 2; <- l(); } fn main(): i32 { <- m::f() + f(); }", "fn main(): i32 { for 0 .. 2 { (|| i32 = T0())(); } <- id((|k: i32| i32 = k)(3)); }",
           "fn dead(): i32 { let l = || i32 = dead2(); <- l(); } fn dead2(): i32 = 1; fn main(): i32 { <- T0(); }"]
ASMS = ['asm "call " T0 ";"; ', 'asm "call " ::T0; ', 'asm "movl $3, " v ";" "call " T0; ', 'if b { asm "call " T0; } ', 'defer asm "call " T0; ', 'loop { asm "call " T0; break; } ', 'let f = || i32 => { asm "call " T0; <- 1; }; f(); ']
ASMF = [("namespace m { fn r(): i32 = ::T0(); } ", 'asm "call " m::r;'), ("fn r(): i32 = X; ", 'asm "call " r;'), ("fn r() { asm \"call \" T0; } ", "r();"), ("fn r() { asm \"call \" r \"; call \" T0; } ", "r();"),
        ("fn r() { asm \"call \" r2; } fn r2() { r(); X; } ", "r();")]
WITHS = [("type D: struct { p: i32 }; let dg2: D; [drop] fn dx(k: &D) { X; with w = &dg2 { } } ", "with w = &dg2 { } "), ("type D: struct { p: i32 }; let dg2: D; [drop] fn dx(k: &D) { with w = &dg2 { X; } } ", "with w = &dg2 { } "),
         ("type D: struct { p: i32 }; type E: struct { p: i32 }; let d2: D; let e2: E; [drop] fn dx(k: &D) { with w = &e2 { } } [drop] fn ex(k: &E) { with w = &d2 { } X; } ", "with w = &d2 { } "),
         ("type D: struct { p: i32 }; let d2: D; fn r() { with w = &d2 { } } [drop] fn dx(k: &D) { r(); X; } ", "r(); with w = &d2 { } with z = &d2 { } "),
         ("fn r(): i32 { <- r2() + r(); } fn r2(): i32 { <- r() + X; } ", "r(); "), ("fn r(): i32 { let l = || i32 = r(); <- l() + X; } ", "r(); ")]
TARGET = "fn T%d(): i32 { <- U%d(); } fn U%d(): i32 { <- g%d; } let g%d: i32 = 4; "
SYMBOL = re.compile(r"(?<![\w.$%@])[A-Za-z_.][\w.$:]*")


ROUNDS = 20000          # no program here has a tenth as many nodes


def lines_of(p, err, src, optimize=True):
    out = []

    def look(P):
        I = P.I
        I.mem[P.ctx.loc + (("f", "flags"), ("f", "optimize"))] = int(optimize)
        I.mem[P.ctx.loc + (("f", "flags"), ("f", "silent"))] = 1
        I.mem[P.ctx.loc + (("f", "flags"), ("f", "do_assembling"))] = 0
        n = len(I.events)
        n0 = I.opos
        if optimize:
            cap, I.loop_cap = I.loop_cap, ROUNDS
            try:
                I.run_fn(p.fn("optimizer_pass"), [P.ctx, P.ast])
            except StopPath as s:
                if s.why == "loopcap" and I.opos == n0:
                    raise StopPath("removing dead code does not end: a loop goes on for more than %d rounds" % ROUNDS)
                raise
            I.loop_cap = cap
        cg = P.w.obj(context=P.ctx, ast=P.ast, code_buffer=S("var", "out"), string_literals=[])
        objs = I.load(P.ast.loc + (("f", "objs"),))
        for f in ("asm_assign_lvar_offsets", "asm_gen_data", "asm_gen_vtables", "asm_gen_entry_point", "asm_gen_text", "asm_gen_string_literals"):
            I.run_fn(p.fn(f), [cg, objs] if f in ("asm_assign_lvar_offsets", "asm_gen_data", "asm_gen_text") else [cg])
        t = []
        for e in I.events[n:]:
            if e[0] == "write":
                for x in e[2]:
                    if not isinstance(x, str):
                        raise AnalysisBroken("emits %r" % (x,))
                    t.append(x)
        return "".join(t).split("\n")
    I, ps, rs = run_program(p, err, src, look)
    return I, ps, rs


BUILTIN = {"rax"}
OPNAME = re.compile(r"^\s*(rep\s+)?[a-z][\w.]*")


def symbols(lines):
    """-> ({symbol: [function or object that defines it]}, {symbol: [line that uses it]}, {label: lines})"""
    defs, uses, cur, bodies = {}, {}, None, {}
    for ln in lines:
        for part in re.split(r";(?=(?:[^\"]*\"[^\"]*\")*[^\"]*$)", ln):
            part = part.strip()
            m = re.match(r"([A-Za-z_.$][\w.$]*):\s*(.*)$", part)
            if m:
                defs.setdefault(m.group(1), []).append(part)
                if not m.group(1).startswith(".L"):
                    cur = m.group(1)
                part = m.group(2)
            m = re.match(r"\d+:\s*(.*)$", part)
            if m:
                part = m.group(1)
            if not part:
                continue
            if cur:
                bodies.setdefault(cur, []).append(part)
            op, _, arg = part.partition(" ")
            if op.startswith(("rep", "lock")):
                continue
            if op.startswith(".") and op not in (".quad", ".long", ".8byte", ".4byte", ".2byte", ".byte", ".int", ".word"):
                continue
            for s in SYMBOL.findall(arg):
                if not re.fullmatch(r"[0-9]+[bf]", s):
                    uses.setdefault(s, []).append(part)
    return defs, uses, bodies


LOCAL = re.compile(r"\.L[\w.]*?\.?\d+")


def shape(lines):
    """a body with its local labels renumbered in order of appearance; section directives before the next label are no part of it"""
    m = {}
    out = []
    for x in lines:
        if x.startswith((".section", ".globl", ".type", ".size", ".align")):
            continue
        out.append(LOCAL.sub(lambda g: m.setdefault(g.group(0), "L%d" % len(m)), x))
    return out


def closed(lines, extern, want, text):
    defs, uses, _ = symbols(lines)
    for s, d in defs.items():
        if len(d) > 1:
            return "the symbol %s is defined %d times" % (s, len(d))
    for s, u in uses.items():
        if s not in defs and s not in extern:
            return "`%s` refers to %s, which is not emitted" % (u[0], s)
    for s in want:
        if s not in defs:
            return "%s is not emitted although the program needs it" % s
    return None


def one(p, err, src, want, extern=(), both=False):
    I, ps, rs = lines_of(p, err, src)
    bad = None
    for r in rs:
        if not r.accepted:
            return "rejected (%s %s)" % (r.why, r.errors[:2]), I, ps
        bad = bad or closed(r.bad, extern, want, src)
    if both and not bad:
        _, ps2, rs2 = lines_of(p, err, src, False)
        if len(rs) != len(rs2):
            raise AnalysisBroken("paths differ")
        for a, b in zip(rs, rs2):
            if not b.accepted:
                return "rejected without the optimizer", I, ps
            bad = bad or closed(b.bad, extern, want, src)
            x, y = symbols(a.bad)[2], symbols(b.bad)[2]
            for s in x:
                if bad is None and not s.startswith(".L") and shape(x[s]) != shape(y.get(s, [])):
                    d = [(u, v) for u, v in zip(shape(x[s]) + [""], shape(y.get(s, [])) + [""]) if u != v]
                    bad = "%s is emitted differently when dead code is removed: %s" % (s, d[:1])
    return bad, I, ps


def combos(thorough):
    """(key, statement text with X)"""
    import random
    r = random.Random(26)
    for e in EXPR:
        yield "in an expression", "v = %s;" % e
    for s in STMT:
        yield "in a statement", s
    for s in STMT:
        for e in (EXPR if thorough else r.sample(EXPR, 9)):
            if "match (type)" in s or not ("else" in e and "else" in s):
                yield "nested", re.sub(r"(^|[{;>] ?|defer )X;", r"\1v = X;", s).replace("X", e if e[0] in "(-~*" or re.fullmatch(r"[\w:.]+\(?X?[, 1]*\)?", e) else "(%s)" % e)
    for s in STMT:
        for t in (STMT if thorough else r.sample(STMT, 6)):
            if "{ X; }" in s and "using n;" not in s:
                yield "nested", s.replace("X;", t)


def body(c, p):
    from contain import lists
    lists(c, p, "lists")
    from csp import Errors
    err = Errors(p)
    fn = p.fn("remove_dead_code") if "remove_dead_code" in p.fns else p.fn("optimizer_pass")
    where = "%s (dead code removal; asm_gen_text, asm_gen_data, asm_gen_vtables)" % fn.file
    jobs = []
    cur = []
    last = None
    for key, s in combos(c.thorough):
        if cur and (len(cur) >= 24 or key != last):
            jobs.append((last, cur))
            cur = []
        cur.append(s)
        last = key
    jobs.append((last, cur))

    def program(ss, how="T%d()"):
        src, want, b = PRE, set(), ""
        for i, s in enumerate(ss):
            src += TARGET % ((i,) * 5)
            want |= {".T%d" % i, ".U%d" % i, ".g%d" % i}
            b += "if b { %s } " % s.replace("X", "T%d()" % i)
        return src + "fn main(): i32 { %s<- 0; }" % b, want

    def work(job):
        key, ss = job
        src, want = program(ss)
        msg, I, ps = one(p, err, src, want, both=True)
        if msg and len(ss) > 1:
            for s in ss:
                a, b = program([s])
                m2, _, _ = one(p, err, a, b, both=True)
                if m2:
                    return key, m2, s, sorted(I.fns_seen), len(ps)
        return key, msg, " ".join(ss)[:200], sorted(I.fns_seen), len(ps)
    c.rule("Whole programs that need one function and one global at every kind of place - every expression form, every statement form, every nesting of two, every kind of root (entry point, "
           "before_main, after_main, exported, vtable entry) and inside lambdas - are lexed, parsed, validated, optimized and emitted by abstract interpretation of the compiler's own code. Every symbol the "
           "emitted text defines must be defined once, every symbol it refers to must be defined, what the program needs must be there, and every function must be emitted exactly as it is "
           "without dead code removal (up to the numbers of local labels).")
    c.require(40)
    n = 0
    for job, (st, r) in zip(jobs, pmap(work, jobs)):
        if st == "broken":
            raise AnalysisBroken("%s: %s" % (job[1][:2], r[-900:]))
        key, msg, s, fns, np = r
        c.functions |= set(fns)
        c.paths += np
        n += len(job[1])
        c.ob(key, msg is None, "" if msg is None else "%s\n      in: %s" % (msg, s), where)
    c.stats.update(uses_placed=n)
    fixed = [(k, PRE + TARGET % ((0,) * 5) + d.replace("X", "T0()") + "fn main(): i32 { %s<- 0; }" % m, {".T0", ".U0", ".g0"}) for k, d, m in
             [("roots", r, "") for r in ROOTS] + [("inline assembly", "", x) for x in ASMS] + [("inline assembly", x, "if b { %s } " % y) for x, y in ASMF] + [("exit functions", x, y) for x, y in WITHS]]
    fixed += [("lambdas", PRE + TARGET % ((0,) * 5) + d, {".T0", ".U0", ".g0"}) for d in LAMBDAS]

    def work2(job):
        k, src, want = job
        msg, I, ps = one(p, err, src, want, both=True)
        return k, msg, src[len(PRE):], sorted(I.fns_seen), len(ps)
    for job, (st, r) in zip(fixed, pmap(work2, fixed)):
        if st == "broken":
            raise AnalysisBroken("%s: %s" % (job[1][-200:], r[-900:]))
        k, msg, s, fns, np = r
        c.functions |= set(fns)
        c.paths += np
        c.ob(k, msg is None, "" if msg is None else "%s\n      in: %s" % (msg, s), where)

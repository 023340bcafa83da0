"""C25: global variables start with exactly the value written."""
import random
from consteval import *
from data import *

PRE = ("type E: enum { A = 3, B, C = -2, D }; type W: u16; type S: struct { a: u8, b: i64, c: u16 }; type N: struct { x: u8, s: S, y: i32[3], z: f32 }; type U: union { a: u8, b: i64 }; type P: struct { t: &char, n: i32'c[2] }; "
       "const c8: i8 = -100; const c16: u16 = 40000; const c32: i32 = -7; const c64: u64 = 18446744073709551615; const cf: f32 = 2.5; const cd: f64 = -0.75; const cb: bool = true; const ce: E = E::D; const cs: &char = \"txt\"; "
       "const cc: i64 = c32 * 3; const cx: u8 = 300; let m: i32 = 5; fn f(): i32 { <- 1; } namespace n { const k: i32 = 9; let v: u8 = k; } ")
EDGE = {"i8": [0, 1, 5, 127, -1, -128], "u8": [0, 1, 7, 200, 255], "char": [0, 65, -3, 127], "i16": [1, -300, 32767, -32768], "u16": [0, 3, 40000, 65535], "i32": [0, 1, 2, 31, 100000, -1, -7, 2147483647, -2147483648], "u32": [0, 3, 4000000000, 4294967295],
        "i64": [0, 1, 2, 63, -1, -5, 1 << 40, -(1 << 33) - 1, (1 << 63) - 1, -(1 << 63)], "u64": [0, 1, 6, 1 << 32, 1 << 63, (1 << 64) - 1], "bool": [0, 1], "f32": [0.0, 1.0, 2.5, -0.75, 16777216.0, 3000000000.0], "f64": [0.0, 0.5, -3.25, 123456789.0, 9007199254740993.0],
        "f80": [1.5, -2.0, 0.0]}


def lit(v, t):
    if t == "bool":
        return "true" if v else "false"
    if t == "char":
        return "(%d: char)" % v if v >= 0 else "((-%d): char)" % -v
    if t in FFMT:
        s = "%r" % abs(v)
        s = "(%s: %s)" % (s, t) if t != "f32" else s
        return "(-%s)" % s if v < 0 else s
    if v < 0:
        if v == -(1 << 63):
            return "((9223372036854775808): i64)"
        return "((-%d): %s)" % (-v, t)
    return "(%d: %s)" % (v, t) if t != "i32" or v > 0x7fffffff else "%d" % v


class Globals:
    def __init__(self, c, p, err):
        self.c, self.p, self.err = c, p, err
        self.ok, self.rej = {}, []
        self.n = self.progs = self.skipped = 0

    def ask(self, key, decls, pre=PRE):
        for d in decls:
            try:
                r = Ref(pre + d)
                if r.__dict__.get("open"):
                    raise NotConst
                if r.errors:
                    self.skipped += 1
                    continue
                g = [x for x in r.ds if x.kind == "GLOBAL" and x.src[1].removeprefix("::").startswith("G")]
                for x in g:
                    value(r, x)
                for x in r.ds:
                    if x.kind == "TYPEDEF" and x.members:
                        for y in x.members:
                            Const(r).member(y)
                self.ok.setdefault((key, pre), []).append(d)
            except NotConst:
                self.rej.append((key, pre, d))
            except Either:
                self.rej.append((key + " (rejected or right)", pre, d))
            except (Undefined, Skip, Reject):
                self.skipped += 1

    def run(self, where, batch=24):
        jobs = []
        for (key, pre), ds in self.ok.items():
            for i in range(0, len(ds), batch):
                jobs.append((key, pre, ds[i:i + batch]))
        p, err = self.p, self.err

        def work(job):
            if len(job) == 4:
                key, pre, d, _ = job
                msg, n, I, ps = one(p, err, pre + d)
                if msg is None and "right" not in key:
                    return "`%s` is no constant, but accepted" % d, d, 1, I, ps
                return (msg if msg and not msg.startswith("rejected") else None), d, 1, I, ps
            key, pre, ds = job
            src = "".join(rename(d, i) for i, d in enumerate(ds))
            msg, n, I, ps = one(p, err, pre + src)
            if msg and len(ds) > 1:
                for d in ds:
                    m2, _, _, _ = one(p, err, pre + d)
                    if m2:
                        return m2, d, n, I, ps
            return msg, src[:300], n, I, ps

        def run(job):
            msg, d, n, I, ps = work(job)
            return msg, d, n, sorted(I.fns_seen) if I else [], len(ps) if ps else 0
        todo = jobs + [x + (1,) for x in self.rej]
        self.ok, self.rej = {}, []
        bad = 0
        for i in range(0, len(todo), 480):
            part = todo[i:i + 480]
            for job, (st, r) in zip(part, pmap(run, part)):
                if st == "broken":
                    raise AnalysisBroken("%s: %s" % (job[2], r[-700:]))
                msg, d, n, fns, np = r
                self.n += n
                self.progs += 1
                self.c.functions |= set(fns)
                self.c.paths += np
                bad += msg is not None
                self.c.ob(job[0], msg is None, "" if msg is None else "%s\n      in: %s" % (msg, d), where)
            if bad >= 12:
                break
        self.c.stats.update(programs=self.progs, variables_compared=self.n, unspecified=self.skipped)


def rename(d, i):
    return re.sub(r"\bG\b", "G%d" % i, d)


def value(ref, d, fmt=FFMT):
    """cells of a global"""
    if d.src[3] is None:
        return image(None, d.type)
    c = Const(ref, fmt)
    v = c.at(d.value, d.type)
    u = unpack(d.type)
    if isinstance(u, tuple) and u[0] == "VLA":
        raise Undefined
    return image(v, d.type)


def name(d, prefix=""):
    return "." + (prefix + d.name).replace("::", ".")


def every(ds, prefix=""):
    for d in ds:
        if d.kind == "GLOBAL" and "is_extern" not in d.src[4]:
            yield name(d, prefix), d, 0
        elif d.kind == "NAMESPACE":
            yield from every(d.members, prefix + d.name + ".")
        elif d.kind == "TYPEDEF" and kind(d.type) == "ENUM" and d.type[0] == "ENUM":
            for m in d.members:
                yield "." + prefix + d.name + "." + m.name, m, 1


def one(p, err, src):
    """difference between what the generator emits for the globals of a program and what they are to contain: (what, variables, interpreter, paths)"""
    ref = Ref(src)
    n = [0]

    def look(P):
        out = []
        try:
            data = assemble(emitted(P))
        except AsmError as x:
            return [str(x)]
        want = set()
        for nm, d, enum in every(ref.ds):
            try:
                if enum:
                    t, cells = "i32", image(Const(ref).member(d), "i32")
                else:
                    t, cells = d.type, value(ref, d)
            except (Undefined, Either, NotConst):
                continue
            n[0] += 1
            s = data.get(nm)
            if s is None:
                out.append("%s is not defined" % nm)
                continue
            have = [(("str", text(data, x[0])), x[1]) if isinstance(x, tuple) else x for x in s.cells]
            cells = [(("str", decode(x[0][1])), x[1]) if isinstance(x, tuple) else x for x in cells]
            if have != cells and not (not enum and have == value(ref, d, LOW)):
                out.append("%s, a %s, is emitted as %s instead of %s" % (nm, tstr(t), show(have), show(cells)))
            if s.size is not None and s.size != len(cells):
                out.append("%s has size %d instead of %d" % (nm, s.size, len(cells)))
            if s.align % alignof(t):
                out.append("%s is aligned to %d, its type to %d" % (nm, s.align, alignof(t)))
            if not s.glob and s.section != ".bss":
                out.append("%s is no global symbol" % nm)
            if s.section not in (".data", ".bss") and not (enum or is_const(t) or d.const):
                out.append("%s is a variable in %s" % (nm, s.section))
            if s.section == ".bss" and any(have):
                out.append("%s has a value in .bss" % nm)
        return out
    I, ps, rs = run_program(p, err, src, look)
    for r in rs:
        if not r.accepted:
            return "rejected (%s): %s" % (r.why or r.errors[:2], src[-200:]), n[0], I, ps
        if r.bad:
            return r.bad[0], n[0], I, ps
    return None, n[0], I, ps


def text(data, label):
    s = data.get(label)
    if s is None:
        return "undefined label %s" % label
    return bytes(x if isinstance(x, int) else 0 for x in s.cells)


def decode(s):
    out, i = bytearray(), 0
    E = {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13, "e": 27, "0": 0}
    while i < len(s):
        c = s[i]
        i += 1
        if c != "\\":
            out.append(ord(c) & 255)
        elif s[i] == "x":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(E.get(s[i], ord(s[i])))
            i += 1
    return bytes(out) + b"\0"


def show(cells):
    if any(isinstance(x, tuple) for x in cells):
        return "[%s]" % " ".join("%02x" % x if isinstance(x, int) else repr(x[0][1])[1:] if x[1] == 0 else "-" for x in cells)
    return bytes(cells).hex(" ")


NUM = [t for t in EDGE]
BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">="]
STORE = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "f80", "bool", "char", "E", "W", "const i32", "&void"]
OTHER = ["-%s", "~%s", "!%s", "(%s)", "(1, %s)", "%s |> $ + $", "if %s == 0 => %s else (%s)", "%s else %s", "(%s: u8)", "(%s: i64)", "(%s: f32)", "(%s: bool)", "(%s: char)", "(%s: E)", "(%s: f64)", "(%s: f80)", "(%s: W)"]
WRONG = ["m", "f()", "m + 1", "(m: i64)", "1 / 0", "1 % 0", "(c32 + 7) / (c32 - c32)", "&m", "*(&m)", "m++", "m = 1", "if m == 1 => 2 else 3", "f() |> $", "[1, m][0]", "n::v", "-f()", "~m", "sizeof S + m", "1 << m", "(1, m)", "m else 1", "cb && m == 1", "U::{m}.b", "len cs", "c32[0]",
         "|x: i32| i32 => { <- x; }(1)", "(2.5: i32) + f()"]
AGG = ["let G: S = S::{%s, %s, %s};", "let G: N = N::{%s, S::{%s, %s, 4}, [1, 2, 3], %s};", "let G: U = U::{%s};", "let G: i32[3] = [%s, %s, %s];", "let G: i32'c[2] = [%s, %s];", "let G: S[2] = [S::{%s, 1, 2}, S::{3, %s, 4}];", "let G: i32[2][2] = [[%s, 2], [3, %s]];"]
PLAIN = ["let G: N = N::{1};", "let G: N = N::{1, S::{2, 3, 4}};", "let G: N = N::{1, S::{2}, [7, 8, 9], 1.5};", "let G: S = S::{1, 2};", "let G: P = P::{\"a\\n\", [1, 2]};", "let G: &char = \"\";", "let G: &char = \"a\" \"b\";", "let G: &char = nil;", "let G: &i32 = nil;", "let G: fn<i32>() = nil;", "const G: &char = cs;", "let G: &char = cs;",
         "let G: &char = (\"x\": &char);", "let G: u64 = sizeof N;", "let G: u64 = alignof N;", "let G: u8 = sizeof i32[3];", "let G: u64 = sizeof (&N);", "let G: u64 = sizeof S + sizeof W;", "let G: u64 = alignof S;", "let G: u64 = alignof W;", "let G: E;", "let G: N;", "let G: U;", "let G: i32[4];", "let G: i32'c[4];", "let G: N[3];", "type V: union { a: i32[2], b: i64, s: S }; let G: V;", "type V2: union { b: i64, a: i32[2] }; let G: V2[2];", "type V3: union { a: i32[2], b: u64 }; type Z: struct { v: V3, k: i32[2], w: V3 }; let G: Z;", "type Z2: struct { k: u8, a: i16[2][3], b: u8 }; let G: Z2;",
         "let G: i32[2][3];", "let G: f80;", "let G: f80[2];", "let G: struct { a: u8, b: f80 };", "let G: fn<void>();", "let G: bool;", "let G: &i32;", "let G: const i32 = 5;", "const G: i64 = -1;", "let G: W = 70000;", "let G: S'c[2];", "let G: struct { a: i32[2], b: i32[2]'c[2] };", "let G: u8[c32 + 10];", "let G: u8[n::k];", "let G: u8[E::B];",
         "let G: &char[2] = [\"a\", \"b\"];", "let G: f32[2] = [1.5, 2.5];", "let G: f32[2] = [1.5, -2.5];", "let G: bool[3] = [true, cb, !cb];", "let G: char[2] = ['a', '\\n'];", "let G: i64[2] = [3000000000, -3000000000];", "let G: u64[1] = [18446744073709551615];", "let G: E = E::D;", "let G: i32 = E::C + E::B;", "let G: E = 4;", "const G: E = ce;", "let G: E = ce;",
         "let G: f32 = 3;", "let G: i32 = 3.99;", "let G: u8 = 'c';", "let G: char = 66;", "let G: f64 = 'a';", "let G: f80 = 2.5;", "let G: f64 = 3.5;", "let G: f64 = true;", "let G: bool = 256;", "let G: bool = 0.5;", "let G: bool = nil;", "let G: &void = nil;", "let G: u64 = 1 << 40;", "let G: i64 = (1: i64) << 40;"]


def body(c, p):
    err = Errors(p)
    m = Globals(c, p, err)
    fn = p.fn("gen_relocation")
    w = "%s (gen_relocation, asm_gen_data; eval_constexpr; interpreter_eval_expr)" % fn.file
    c.rule("For every operator on every pair of number types at edge values, every conversion from an expression to the type of a variable, and the forms of strings, arrays, structs, unions, constants and enums: the parser, the validator with its compile-time evaluator and the generator of data "
           "directives are executed abstractly on a program of global variables; the bytes and addresses the directives assemble to, the size, the alignment and the section are compared with an independent evaluation of the typed program. Values that are not known before the program runs must be rejected.")
    k = 0
    for op in BIN:
        for a in NUM:
            out = []
            for b in NUM:
                pairs = [(x, y) for x in EDGE[a] for y in EDGE[b]]
                if not c.thorough:
                    rnd = random.Random(op + a + b)
                    pairs = rnd.sample(pairs, 3 if op in "+-*/%&<==>><<" else 2)
                for x, y in pairs:
                    k += 1
                    out.append("let G: %s = %s %s %s;" % (STORE[k % 12], lit(x, a), op, lit(y, b)))
            m.ask("operator " + op, out)
    m.run(w)
    for o in OTHER:
        out = []
        for a in NUM:
            for i, x in enumerate(EDGE[a]):
                ts = STORE if c.thorough else [STORE[(i * 5 + j + len(o)) % len(STORE)] for j in range(3)]
                out += ["let G: %s = %s;" % (t, o.replace("%s", lit(x, a))) for t in ts]
        m.ask("expression " + (o % (("x",) * o.count("%s"))), out)
    m.run(w)
    # enum members and array lengths
    ints = [a for a in NUM if a not in FFMT]
    for op in BIN:
        en, ar = [], []
        for a in NUM:
            for b in NUM:
                pairs = [(x, y) for x in EDGE[a] for y in EDGE[b]]
                if not c.thorough:
                    rnd = random.Random(op + a + b + "e")
                    pairs = rnd.sample(pairs, 1) if rnd.random() < .5 else []
                for x, y in pairs:
                    e = "%s %s %s" % (lit(x, a), op, lit(y, b))
                    en.append("type G: enum { X = %s, Y };" % e)
                    ar.append("let G: u8[%s];" % ("((%s) & 15) + 1" % e if a in ints and b in ints else "(%s) %s 2" % (e, "+")))
        m.ask("enum member " + op, en)
        m.ask("array length " + op, ar)
    m.ask("enum members", ["type G: enum { X, Y, Z };", "type G: enum { X = -5, Y, Z = 2 * -8, W };", "type G: enum { X = 2147483647 };", "type G: enum { X = 4, Y = G::X * 2, Z };", "type G: enum { X = HH::Q + 1, Y }; type HH: enum { P, Q };", "type G: enum { X = 'a', Y };", "type G: enum { X = true, Y };", "type G: enum { X = sizeof S, Y };",
                           "type G: enum { X = c32, Y = n::k };", "type G: enum { X = 3.7 };", "type G: enum { X = 4294967297 };", "namespace o { type G: enum { X = 3, Y = G::X + 1, Z }; let GG: i32 = G::Z; }", "type G: enum { X = E::D, Y };", "type G: enum { X = m };", "type G: enum { X = f() };", "type G: enum { X = 1 / 0 };", "type G: enum { X = (1, 5), Y };", "type G: enum { X = if cb => 4 else 5, Y };",
                           "type G: enum { X = ~1, Y = -Y2, Y2 = 5 };", "type G: enum { X = 7 |> $ + $ };", "type G: enum { X = 1 << 4, Y = 1 << 5 };"])
    m.ask("array lengths", ["let G: u8[%s];" % x for x in ["0", "1", "(3)", "(1, 5)", "2 + 3 * 4", "c32 + 10", "n::k", "E::B", "E::A + E::B", "'\\n'", "' '", "true", "cb + 1", "sizeof S", "alignof S + 1", "sizeof N - sizeof S", "5.9", "cf", "cx", "c16 / 1000", "c16 >> 10", "~-6", "-c32", "if c8 < 0 => 3 else 4", "c8 else 5",
                                              "3 |> $ * $", "1 << 4", "m", "f()", "1 / 0", "(300: u8)", "(c64: u8) / 51", "c64 % 10 + 1", "cs", "nil", "sizeof u8[3]", "3000000000 / 1000000000", "(c32: u8) - 240", "c64 / 18446744073709551614", "c8 * c8 / 1000", "E::D + 3"]] +
          [])
    m.ask("array lengths", ["let G: i32[2][%s];" % x for x in ("3", "c32 + 9", "sizeof i16")] + ["let G: struct { a: u8[%s], b: i64 };" % x for x in ("c32 + 9", "E::A", "sizeof E")] + ["let G: &i32'c[c32 + 8];"])
    for x in ("type TT: i16[n::k]; let G: TT;", "let G: TT; type TT: i16[KK]; const KK: i32 = 4;", "let G: u8[LL]; const LL: i32 = KK + 1; const KK: i32 = 2;", "let G: u8[EE::B]; type EE: enum { A = KK, B }; const KK: i32 = 2;", "type TT: struct { a: u8[FF::Q] }; let G: TT[2]; type FF: enum { P = 3, Q };"):
        m.ask("array length before: " + x, [x])
    m.run(w)
    # conversion to the type of the variable
    for t in STORE:
        m.ask("value of a %s" % t, ["%s G: %s = %s;" % (kw, t, lit(x, a)) for a in NUM for x in EDGE[a] for kw in (("let", "const") if t == "i32" else ("let",))] + ["let G: %s = %s;" % (t, x) for x in
              ("c8", "c16", "c32", "c64", "cf", "cd", "cb", "ce", "cc", "cx", "n::k", "E::A", "E::D", "'a'", "'\\n'", "'\\''", "'\\0'", "nil", "5", "3000000000", "18446744073709551615", "1.5", "-1.5", "c32 + c8", "c64 * 2", "cx + c16", "cd * cf", "ce + 1", "-c8", "~cx", "!cb", "cf > cd", "c64 > c32", "c16 >> 3", "c8 >> 2",
               "c64 / 10", "c32 % 4", "c32 / 2", "(c32: u8)", "(c8: u64)", "(cd: i32)", "(c64: f64)", "(c64: f32)", "if cb => c8 else cx", "c8 else cx", "cb && c8 < 0", "cb || cf > 9.0", "c8 |> $ * 2", "(c8, c16)", "sizeof N", "alignof S")])
    m.run(w)
    for i, t in enumerate(AGG):
        n = t.count("%s")
        vs = [lit(x, a) for a in NUM for x in EDGE[a]]
        rnd = random.Random(i)
        for _ in range(60 if c.thorough else 14):
            m.ask("aggregates", [t % tuple(rnd.choice(vs) for _ in range(n))])
    m.ask("forms", PLAIN)
    m.ask("strings", ["let G: &char = \"%s\";" % s for s in ["a", " ", "a b", "%", "%d%s", "//", "\\n", "\\t\\r\\v\\f\\a\\b\\e", "\\\\", "\\\\n", "\\\"", "\\'", "'", "\\0", "a\\0b", "\\x41", "\\xfFg", "\\x00a", "\\x7f0", "a" * 300, "{}[];,", "0", "$1", "\u00e9"]])
    m.ask("strings", ["const G: &char'c[3] = [\"a\", \"b\", \"a\"];", "let G: &char = \"s\"; let GG: &char = \"t\"; let GGG: &char = \"s\";"])
    m.run(w)
    for x in WRONG:
        for t in ("i32", "i64", "f64") if c.thorough else ("i32",):
            m.ask("not constant", ["let G: %s = %s;" % (t, x)])
    m.ask("not constant", ["let G: S = S::{1, m, 2};", "let G: i32[2] = [1, f()];", "let G: &i32 = &m;", "let G: S = S::{1, 2, 1 / 0};", "const G: i32 = m;", "const G: i32 = G;", "const G: i32 = n::v + 1;"])
    m.run(w)
    # random expressions
    rnd = random.Random(9)
    g = lambda d: rnd.choice(["c8", "c16", "c32", "c64", "cf", "cd", "cx", "cc", "n::k", "E::B", "3", "'x'", "70000", "2.5", "(-9)"]) if d == 0 or rnd.random() < .1 else (lambda k: "(%s %s %s)" % (g(d - 1), rnd.choice(BIN + ["+", "-", "*", "&"]), g(d - 1)) if k < 6 else "(%s: %s)" % (g(d - 1), rnd.choice(STORE[:11])) if k < 8
                                                                                                                                                                                                            else "(if %s < %s => %s else %s)" % (g(d - 1), g(d - 1), "c8", "cx") if k == 8 else "(-%s)" % g(d - 1))(rnd.randrange(10))
    for i in range(2000 if c.thorough else 400):
        m.ask("nested", ["let G: %s = %s;" % (rnd.choice(STORE[:11]), g(rnd.choice((2, 3, 3))))])
    m.run(w)
    c.require(300)

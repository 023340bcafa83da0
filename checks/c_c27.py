"""C27: the program starts with main's arguments, runs what is marked around it, and exits with main's result."""
import itertools, re
from sema import *
from gen import *
import asm
from asm import SP0, Code, Machine, addr_split, AsmError, lo, M64

MAINS = ["fn main(): i32 { <- 0; }", "fn main(argv: &&char): i32 { <- (argv: u64): i32; }", "fn main(argc: i32, argv: &&char): i32 { <- argc + ((argv: u64): i32); }"]
# functions around main: (source, name in the program, kind)
AROUND = [("[before_main] fn %s() {}", "b", 0), ("[before_main] fn %s(): i32 { <- 5; }", "b", 0), ("[after_main] fn %s() {}", "a", 0), ("[after_main] fn %s(c: i32) { c = 0; }", "a", 1), ("[after_main] fn %s(c: i32): i32 { <- c; }", "a", 1),
          ("[before_main, after_main] fn %s() {}", "ba", 0)]
HOW = ["%s", "namespace n%d { %s }", "namespace n%d { namespace k { %s } }"]
REJECT = ["fn main() {}", "fn main(): i64 { <- 0; }", "fn main(): u32 { <- 0; }", "fn main(): bool { <- true; }", "fn main(a: i32, b: &&char, c: i32): i32 { <- a + c + ((b: u64): i32); }",
          "[before_main] fn f(k: i32) { k = 0; } fn main(): i32 { <- 0; }", "[before_main] fn f(k: i32, j: i32, i: i32) { k = i + j; } fn main(): i32 { <- 0; }", "[after_main] fn f(k: i64) { k = 0; } fn main(): i32 { <- 0; }",
          "[after_main] fn f(k: &i32) { *k = 0; } fn main(): i32 { <- 0; }", "[after_main] fn f(k: i32, j: i32) { k = j; } fn main(): i32 { <- 0; }"]
ALSO = [("fn main2(): u8 { <- 1; } fn mai() {} fn Main(k: i32, j: i32, i: i32) {} fn main(): i32 { <- 0; } fn _main() {}", 0, []), ("namespace m { fn main(): u8 { <- 1; } } fn main(): i32 { <- m::main(); }", 0, []), ("type R: i32; fn main(): R { <- 0; }", 0, []), ("type R: i32; [after_main] fn a0(k: R) { k = 0; } fn main(): i32 { <- 0; }", 0, [("a0", "a", 1)]),
        ("fn main(argc: i32, argv: &&char): i32 { <- argc + ((argv: u64): i32); } [before_main] fn b0() {}", 2, [("b0", "b", 0)]), ("fn f() { main(); } fn main(): i32 { if false { f(); } <- 0; }", 0, [])]


def entry(p, err, src, c_backend=False):
    def look(P):
        I = P.I
        cg = P.w.obj(context=P.ctx, ast=P.ast, code_buffer=S("var", "out"))
        n = len(I.events)
        I.run_fn(p.fn("c_gen_entry_point" if c_backend else "asm_gen_entry_point"), [cg])
        t = []
        for e in I.events[n:]:
            if e[0] == "write":
                for x in e[2]:
                    if not isinstance(x, str):
                        raise AnalysisBroken("emits %r" % (x,))
                    t.append(x)
        return "".join(t)
    return run_program(p, err, src, look)


class Start(Machine):
    """the system leaves the stack pointer aligned to 16 bytes: rounding it down is arithmetic"""

    def step(self, st, i):
        r = super().step(st, i)
        v = st.r["rsp"]
        if not isinstance(v, int) and v.op == "and":
            k = [x for x in v.a[1:] if isinstance(x, int)]
            b = [addr_split(x) for x in v.a[1:] if not isinstance(x, int)]
            if len(k) == 1 and b and b[0][0] is SP0 and (-k[0]) & M64 in (1, 2, 4, 8, 16):
                st.r["rsp"] = asm.add(64, SP0, b[0][1] & -((-k[0]) & M64))
        return r


def asm_start(text, mk, around):
    """-> None | what is wrong with the code at the program's entry"""
    code = Code([("text", [text])])
    if code.dups:
        return "%s is defined twice" % code.dups[0]
    if "_start" not in code.labels or not any(re.match(r"\.globl\s+_start\b", d) for _, d in code.directives):
        return "there is no global entry point _start"
    sect = [d for k, d in code.directives if k <= code.labels["_start"] and d.startswith((".section", ".text", ".data", ".bss"))]
    if not sect or not re.match(r"\.text|\.section\s+\.text", sect[-1]):
        return "the entry point is not in the code section"
    try:
        st = Start(code).run(start=code.labels["_start"])
    except AsmError as e:
        return "%s in: %s" % (e, text)
    if len(st) != 1:
        return "the start of the program branches"
    want = [("before", n) for n, k, a in around if k in ("b", "ba")] + [("main", "main")] + [("after", n, a) for n, k, a in around if k in ("a", "ba")]
    calls = []
    exited = None
    for i, x in enumerate(st[0].trace):
        if x[0] == "call":
            calls.append((i, x))
        elif x[0] == "syscall":
            exited = x[1]
            break
    names = [x[1].a[0] if x[1].op == "sym" else show(x[1]) for _, x in calls]
    wn = ["." + w[1].replace("::", "$") for w in want]
    if [norm(n) for n in names] != [norm(n) for n in wn]:
        return "calls %s instead of %s" % (" ".join(names), " ".join(wn))
    res = None
    for (i, x), w in zip(calls, want):
        off = x[5]
        if not isinstance(off, int) or off % 16:
            return "%s is called with the stack at offset %s from where the system left it: it is not aligned to 16 bytes" % (w[1], off)
        r = x[2]
        if w[0] == "main":
            res = S("cret", "rax", i)
            av, ac = (r["rsi"], r["rdi"]) if mk == 2 else (r["rdi"], None)
            if mk and addr_split(av) != (SP0, 8):
                return "main's argv is %s, not the address of the argument vector" % show(av)
            if mk == 2 and lo(ac, 32) is not lo(initial(0, 8), 32) and lo(ac, 32) is not initial(0, 4):
                return "main's argc is %s, not the number of arguments" % show(ac)
            if mk and off > 8 or mk and any(b is SP0 and o >= 8 for (b, o) in x[4]):
                return "the argument vector is overwritten before main is called"
        if w[0] == "after" and w[2] and lo(r["rdi"], 32) is not lo(res, 32):
            return "%s gets %s instead of main's result" % (w[1], show(r["rdi"]))
    if exited is None:
        return "the program does not exit"
    if exited["rax"] != 60:
        return "ends with the system call %s, not exit" % show(exited["rax"])
    if lo(exited["rdi"], 8) is not lo(res, 8) and lo(exited["rdi"], 32) is not lo(res, 32):
        return "exits with %s instead of main's result" % show(exited["rdi"])
    return None


def initial(o, n):
    return asm.cat([S("m", SP0, o + i) for i in range(n)])


def norm(n):
    return re.sub(r"[^A-Za-z0-9]+", " ", n).strip()


def c_start(text, mk, around):
    m = re.search(r"\b(?:int|int32_t)\s+main\s*\(\s*int\s+(\w+)\s*,\s*char\s*\*\s*\*\s*(\w+)\s*\)\s*\{(.*)\}\s*$", text.strip(), re.S)
    if not m:
        return "there is no function `int main(int argc, char** argv)`: %s" % text
    argc, argv, body = m.groups()
    vars, out, ret = {}, [], None
    for s in [x.strip() for x in body.split(";")]:
        if not s:
            continue
        if ret is not None:
            return "`%s` follows the return" % s
        q = re.fullmatch(r"return\s+(.*)", s)
        a = re.fullmatch(r"(?:(\w+)\s+)?(\w+)\s*=\s*(.*)", s)
        e = q.group(1) if q else a.group(3) if a else s
        k = re.fullmatch(r"(\w+)\s*\(([^()]*)\)", e.strip())
        if k:
            args = [x.strip() for x in k.group(2).split(",") if x.strip()]
            out.append((norm(k.group(1)), [vars.get(x, x) for x in args]))
            val = "result of " + norm(k.group(1)) + " %d" % (len(out) - 1)
        else:
            val = vars.get(e.strip(), e.strip())
        if q:
            ret = val
        elif a:
            if a.group(1) and a.group(1) not in ("int", "int32_t", "const"):
                val = "converted " + val
            vars[a.group(2)] = val
    want = [(nm(n), []) for n, k, a in around if k in ("b", "ba")]
    res = "result of %s %d" % (nm("main"), len(want))
    want += [(nm("main"), [[], [argv], [argc, argv]][mk])] + [(nm(n), [res] if a else []) for n, k, a in around if k in ("a", "ba")]
    if out != want:
        return "C main calls %s instead of %s" % (out, want)
    if ret != res:
        return "C main returns %s instead of the result of main" % ret
    return None


def nm(n):
    return norm("__csp_" + n)


def body(c, p):
    from csp import Errors
    err = Errors(p)
    c.rule("Programs with every form of main and every combination of functions marked before_main and after_main are lexed, parsed and validated, and their entry point is emitted, by abstract interpretation. The emitted "
           "code is executed symbolically from the state in which the system starts a process (argc and the argument vector on a 16-byte aligned stack): the calls, their order, their arguments, the stack's alignment at "
           "each, and the exit status must be those of the language. The C back end's `main` is compared in the same way. Mains and marked functions of other signatures must be rejected.")
    c.require(200)
    wa, wc = where(p, "asm_gen_entry_point"), where(p, "c_gen_entry_point")
    jobs = []
    lists = [()] + [(a,) for a in range(len(AROUND))] + list(itertools.product(range(len(AROUND)), repeat=2)) + ([x for x in itertools.product(range(len(AROUND)), repeat=3)] if c.thorough else [(0, 2, 1), (3, 0, 2), (2, 3, 4), (0, 1, 5), (5, 5, 3), (1, 0, 0), (3, 3, 2), (4, 2, 0)])
    for mk, m in enumerate(MAINS):
        for li, l in enumerate(lists):
            for hi in range(len(HOW)) if len(l) < 2 or c.thorough else [(li + mk) % 3]:
                src, ar = "", []
                for i, a in enumerate(l):
                    t, k, arg = AROUND[a]
                    f = "f%d" % i
                    h = HOW[hi]
                    src += h.replace("%d", str(i)).replace("%s", t % f) + " "
                    ar.append((["%s", "n%d::%%s" % i, "n%d::k::%%s" % i][hi] % f, k, arg))
                jobs.append(("main of %d arguments, %d functions around it" % (mk, len(l)), src + m if li % 2 else m + " " + src, mk, ar, True))
    jobs += [("other programs", s, mk, ar, True) for s, mk, ar in ALSO]
    jobs += [("wrong signatures", s, 0, [], False) for s in REJECT]
    need = [(x, want, flag) for x, has in [("", 0), ("fn f() {}", 0), ("namespace m { fn main(): i32 { <- 0; } }", 0), ("let main: i32;", 0), ("type main: i32;", 0), ("fn Main(): i32 { <- 0; }", 0), ("fn f(): i32 { let l = |main: i32| i32 => { <- main; }; <- l(1); }", 0),
                                            ("fn main(): i32 { <- 0; }", 1), ("namespace m { fn main(): i32 { <- 0; } } fn main(argv: &&char): i32 { <- (argv: u64): i32; }", 1), ("fn f() {} fn main(): i32 { f(); <- 0; } fn g() {}", 1)] for flag, want in ((1, has), (0, 1))]
    for x, want, flag in need:
        for r in run_program(p, err, x, None, entrypoint=flag)[1:][-1]:
            c.ob("programs without a main" if not want or not flag else "programs with a main", r.accepted == bool(want), "%s although %s\n      in: %s" % ("accepted" if r.accepted else "rejected (%s %s)" % (r.why, r.errors[:3]), "an executable is to be made of it and it has no main function" if not want else "nothing is missing", x), where(p, "validator_pass"))
    group = [jobs[i:i + 12] for i in range(0, len(jobs), 12)]

    def work(js):
        out, seen = [], set()
        for key, src, mk, ar, ok in js:
            for cb in (False, True):
                I, ps, rs = entry(p, err, src, cb)
                seen |= set(I.fns_seen)
                bad = None
                for r in rs:
                    if ok and not r.accepted:
                        bad = "rejected (%s %s)" % (r.why, r.errors[:3])
                    elif not ok and r.accepted:
                        bad = "accepted"
                    elif ok:
                        bad = bad or (c_start if cb else asm_start)(r.bad, mk, ar)
                out.append((("C: " if cb else "") + key, bad, src, cb))
        return out, sorted(seen)
    for js, (st, r) in zip(group, pmap(work, group)):
        if st == "broken":
            raise AnalysisBroken("%s: %s" % (js[0][1], r[-900:]))
        out, seen = r
        c.functions |= set(seen)
        for key, bad, src, cb in out:
            c.paths += 1
            c.ob(key, bad is None, "" if bad is None else "%s\n      in: %s" % (bad, src), wc if cb else wa)


def where(p, n):
    from fw import where as w
    return w(p.fn(n))

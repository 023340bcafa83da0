"""C19: diagnostics are counted, shown, and turn into a failing exit status; no pass runs after a failure."""
import re
import absint
from csp import *
from gen import World
from fw import where
from prog import walk

OUT = ("stdout", "stderr")
ANSI = re.compile(r"\x1b\[[0-9;]*[A-Za-z]")


def plain_text(parts):
    s = "".join(x if isinstance(x, str) else "<%s>" % show(x) for x in parts)
    return ANSI.sub("", s)


def written(path):
    return plain_text([x for e in path.events if e[0] == "write" for x in e[2]])


def body(c, p):
    c.rule("The thrower is interpreted for every diagnostic kind: counters, handler arguments, and abort. The driver is interpreted for every back end, flag set and failing pass, and the "
           "handlers for every counter state: after a counted error, a failing pass or a failing child process control must reach a non-zero exit without entering another pass. The code that "
           "starts child processes is interpreted for every wait status. The message renderer is compared with an independent one over token shapes.")
    c.require(400)
    thrower(c, p)
    driver(c, p)
    panic_handler(c, p)
    children(c, p)
    generators(c, p)
    renderer(c, p)
    names(c, p)
    formats(c, p)


class Interp(absint.Interp):
    initial = True


def is_warning(n):
    return n.endswith("_WARN") or n in ("ERR_UNUSED", "ERR_UNREACHABLE", "ERR_DEPRECATED", "ERR_SYNTAX_WARNING")


def thrower(c, p):
    f = p.fn("throw_error")
    err = p.enum_members("ERR_INTERNAL")
    names_ = [n for n, v in err]
    # kinds some reachable code raises
    used = set()
    vals = {v: n for n, v in err}
    for fn in p.fns.values():
        for cl in calls(fn.body):
            if callee(cl) == "throw_error" and len(cl["a"]) > 1:
                for x in walk(cl["a"][1]):
                    if x.get("en") in names_:
                        used.add(x["en"])
    if len(used) < 10:
        raise AnalysisBroken("only %d diagnostic kinds found at throw_error calls" % len(used))
    for n, v in err:
        if n not in used and n == "ERR_OUT_OF_SCOPE":
            continue
        calls_ = []

        def handler(I, a, e):
            calls_.append([I.value(x) for x in a[:4]] + [I.value(a[5]), I.text(a[6]), a[4]])
            I.event("handler")
            return None
        I = Interp(p, hooks={"default_error_handler": handler, "longjmp": lambda I, a, e: jump(I, a), "_longjmp": lambda I, a, e: jump(I, a)})
        ctx = S("var", "context")
        tok = S("var", "tok")
        msg = Ptr((("s", "the %s message"),))

        def run(I):
            I.mem[floc(ctx, "emitted_errors")] = 3
            I.mem[floc(ctx, "emitted_warnings")] = 5
            try:
                I.run_fn(f, [ctx, v, tok, msg, S("var", "arg")])
            except StopPath as s:
                return (I.mem[floc(ctx, "emitted_errors")], I.mem[floc(ctx, "emitted_warnings")], s.why)
            return (I.mem[floc(ctx, "emitted_errors")], I.mem[floc(ctx, "emitted_warnings")], None)
        ps = I.explore(run)
        c.seen(I, ps)
        w = is_warning(n)
        want = (3, 6) if w else (4, 5)
        bad = None
        for q in ps:
            if q.end != "return":
                bad = "ends in %s" % q.end
            elif q.ret[:2] != want:
                bad = "errors/warnings go from 3/5 to %r/%r, expected %r/%r" % (q.ret[:2] + want)
            elif q.ret[2] not in (None, "longjmp"):
                bad = "ends in %s" % q.ret[2]
            elif q.ret[2] and (w or n.endswith("_UNCR")):
                bad = "aborts the compilation, though it is %s" % ("a warning" if w else "uncritical")
            elif not q.ret[2] and n + "_UNCR" in names_:
                bad = "does not abort the compilation, though %s_UNCR exists for that" % n
        c.ob("throw-" + n, bad is None and ps, "%s: %s" % (n, bad or "counted as %s" % ("warning" if w else "error")), where(f))
        bad = None
        for q in calls_:
            if q[0] != ctx or q[1] != v or q[2] != tok or q[3] != msg:
                bad = "the handler gets other arguments than were thrown"
            elif bool(q[4]) == w:
                bad = "the handler is told is_error=%r" % q[4]
            elif not re.fullmatch(r"E%02d: \S.*" % v, "".join(x if isinstance(x, str) else "?" for x in q[5])):
                bad = "the handler gets the name %r" % (q[5],)
        if len(calls_) != len(ps):
            bad = "the handler is called %d times on %d paths" % (len(calls_), len(ps))
        c.ob("handler-" + n, bad is None, "%s: %s" % (n, bad or "one call"), where(f))


def jump(I, a):
    loc = I.value(a[0])
    I.event("jump", I.value(a[1]) if len(a) > 1 else None)
    raise StopPath("longjmp")


BACK = {"CT_ASM": "asm_codegen_pass", "CT_TRANSPILE": "transpiler_pass", "CT_TO_JSON": "serializer_pass", "CT_INTERPRETER": "interpreter_pass"}
FRONT = ["initialization_pass", "lexer_pass", "preprocessor_pass", "parser_pass", "validator_pass"]


def driver(c, p):
    f = p.fn("compile")
    for ct, gen in BACK.items():
        for opt in (0, 1):
            order = FRONT + (["optimizer_pass"] if opt else []) + [gen, "cleanup_pass"]
            cases = [(None, None)] + [(k, how) for k in range(len(order)) for how in ("returns 1", "returns -1", "counts an error", "counts a warning", "throws")]
            for k, how in cases:
                ran = []

                def mk(name):
                    def h(I, a, e):
                        ran.append(name)
                        if k is not None and order[k] == name:
                            if how == "returns 1":
                                return 1
                            if how == "returns -1":
                                return -1
                            if how == "throws":
                                raise StopPath("longjmp")
                            fld_ = "emitted_errors" if how == "counts an error" else "emitted_warnings"
                            l = I.deref_loc(a[0]) + (("f", fld_),)
                            I.mem[l] = I.value(I.load(l)) + 1
                        return 0
                    return h
                hooks = {n: mk(n) for n in set(FRONT) | set(BACK.values()) | {"optimizer_pass", "cleanup_pass"}}
                hooks.update({"_setjmp": lambda I, a, e: 0, "setjmp": lambda I, a, e: 0, "longjmp": lambda I, a, e: jump(I, a), "_longjmp": lambda I, a, e: jump(I, a),
                              "default_panic_handler": lambda I, a, e: I.event("panic-handler")})
                I = Interp(p, hooks=hooks, max_loop=40)

                def run(I):
                    ctx = I.new_heap("ctx", True)
                    I.mem[ctx.loc + (("f", "ct"),)] = p.enum(ct)
                    I.mem[ctx.loc + (("f", "flags"), ("f", "optimize"))] = opt
                    I.mem[ctx.loc + (("f", "emitted_errors"),)] = 0
                    I.mem[ctx.loc + (("f", "emitted_warnings"),)] = 0
                    I.run_fn(f, [ctx, I.new_text(("in",)), I.new_text(("out",))])
                ps = I.explore(run)
                c.seen(I, ps)
                fails = k is not None and how != "counts a warning"
                want = order[:k + 1] if fails else order
                end = "longjmp" if fails else "return"
                ok = len(ps) == 1 and ran == want and ps[0].end == end
                c.ob("driver-%s-opt%d-%s" % (ct, opt, "%s %s" % (order[k], how) if k is not None else "ok"), ok,
                     "passes run: %s, ending in %s; expected %s, ending in %s" % (ran, [x.end for x in ps], want, end), where(f))
    # the jump's other side
    for name in ("compile",):
        got = []
        hooks = {"_setjmp": lambda I, a, e: 1, "setjmp": lambda I, a, e: 1, "default_panic_handler": lambda I, a, e: got.append(I.value(a[0]))}
        for n in set(FRONT) | set(BACK.values()) | {"optimizer_pass", "cleanup_pass"}:
            hooks[n] = lambda I, a, e, n=n: I.event("pass", n) or 0
        I = Interp(p, hooks=hooks, max_loop=40)

        def run(I):
            ctx = I.new_heap("ctx", True)
            I.run_fn(f, [ctx, I.new_text(("in",)), I.new_text(("out",))])
            return ctx
        ps = I.explore(run)
        c.ob("driver-caught", len(ps) == 1 and len(got) == 1 and ps[0].ret == got[0] and not ps[0].events, "after a jump: handler called with %s, events %s" % (got, ps[0].events), where(f))
    # the jump goes back to compile()
    I = Interp(p, hooks={"longjmp": lambda I, a, e: jump2(I, a), "_longjmp": lambda I, a, e: jump2(I, a)})
    ctx = S("var", "context")

    def jump2(I, a):
        I.event("jump", I.value(a[0]), I.value(a[1]))
        raise StopPath("longjmp")
    f2 = p.fn("panic")
    ps = I.explore(lambda I: I.run_fn(f2, [ctx]))
    ok = len(ps) == 1 and ps[0].end == "longjmp" and "main_error_exception" in repr(ps[0].events[-1][1]) and ps[0].events[-1][2] not in (0, None)
    c.ob("panic-jumps", ok, "panic() ends in %s" % [(x.end, x.events) for x in ps], where(f2))


def panic_handler(c, p):
    f = p.fn("default_panic_handler")
    for silent in (0, 1):
        for e in (0, 1, 2, 7):
            for w in (0, 1, 2, 9):
                I = Interp(p)

                def run(I):
                    ctx = I.new_heap("ctx", True)
                    I.mem[ctx.loc + (("f", "flags"), ("f", "silent"))] = silent
                    I.mem[ctx.loc + (("f", "emitted_errors"),)] = e
                    I.mem[ctx.loc + (("f", "emitted_warnings"),)] = w
                    I.run_fn(f, [ctx])
                ps = I.explore(run)
                c.seen(I, ps)
                bad = None
                for q in ps:
                    x = [z for z in q.events if z[0] == "exit"]
                    if q.end != "exit" or not x or not isinstance(x[0][1], int) or x[0][1] & 255 == 0:
                        bad = "ends in %s %s" % (q.end, x)
                    t = written(q)
                    if not silent and e and "%d error%s" % (e, "" if e == 1 else "s") not in t:
                        bad = "reports %r" % t
                    if not silent and w and "%d warning%s" % (w, "" if w == 1 else "s") not in t:
                        bad = "reports %r" % t
                c.ob("abort-silent%d-%d-%d" % (silent, e, w), bad is None, "%d errors, %d warnings%s: %s" % (e, w, ", silent" if silent else "", bad or "non-zero exit"), where(f))


def children(c, p):
    """subprocess() reports success only for a child that exited with status 0"""
    f = p.fn("subprocess")
    for st in [0, 0x100, 0x200, 0x7f00, 0xff00, 1, 6, 9, 11, 15, 139, 134]:
        for show_ in (0, 1):
            def wait(I, a, e):
                I.mem[I.deref_loc(a[1])] = st
                I.store(I.deref_loc(a[1]), st)
                return 77
            execd = []
            I = Interp(p, hooks={"fork": lambda I, a, e: 77, "waitpid": wait, "execvp": lambda I, a, e: execd.append(1), "strsignal": lambda I, a, e: I.new_text(("sig",)),
                                 "__errno_location": lambda I, a, e: I.new_heap("errno", True)})
            ps = I.explore(lambda I: I.run_fn(f, [I.new_text(("prog",)), I.new_heap("argv"), show_]))
            c.seen(I, ps)
            want = st >> 8 if st & 127 == 0 else None
            bad = None
            for q in ps:
                if q.end != "return" or execd:
                    bad = "ends in %s" % q.end
                elif want is None and (not isinstance(q.ret, int) or q.ret == 0):
                    bad = "returns %s for a child killed by signal %d" % (show(q.ret), st & 127)
                elif want is not None and q.ret != want:
                    bad = "returns %s for exit status %d" % (show(q.ret), want)
            c.ob("child-%#x-%d" % (st, show_), bad is None and ps, bad or "reported", where(f))
    for what in ("fork", "exec", "wait"):
        prog_args = []

        def execvp(I, a, e):
            prog_args.append((I.value(a[0]), I.value(a[1])))
            return -1
        I = Interp(p, hooks={"fork": lambda I, a, e: -1 if what == "fork" else 0 if what == "exec" else 77, "waitpid": lambda I, a, e: -1, "execvp": execvp,
                             "strerror": lambda I, a, e: I.new_text(("err",)), "__errno_location": lambda I, a, e: I.new_heap("errno", True)})

        def run(I):
            a = (I.new_text(("prog",)), I.new_heap("argv"))
            return a, I.run_fn(f, [*a, 0])
        ps = I.explore(run)
        c.seen(I, ps)
        bad = None
        for q in ps:
            if what == "exec":
                x = [z for z in q.events if z[0] == "exit"]
                if q.end != "exit" or x[0][1] in (0, None):
                    bad = "a child whose program cannot be started ends in %s %s" % (q.end, x)
                elif not prog_args:
                    bad = "no program is started"
            elif q.end != "return" or not isinstance(q.ret[1], int) or q.ret[1] == 0:
                bad = "a failing %s is reported as %s" % (what, q.ret and q.ret[1])
        c.ob("child-" + what, bad is None and ps, bad or "reported", where(f))


def generators(c, p):
    """assembler, linker, C compiler: started on the right files, failure aborts"""
    for name, prog_field in (("asm_gen_code", "as"), ("c_gen_code", "cc")):
        f = p.fn(name)
        inner = {callee(x) for x in calls(f.body)}
        for asm_ in (0, 1):
            for link in (0, 1):
                if link and not asm_:
                    continue
                for code in (0, 1, 255, -1):
                    for opt in (0, 1):
                        c.ob("%s-a%d-l%d-rc%d-o%d" % (name, asm_, link, code, opt), *generate(c, p, f, inner, prog_field, asm_, link, code, opt))
    f = p.fn("link_obj")
    for mode in ("LINK_DYNAMIC", "LINK_STATIC"):
        for ex in (0, 1):
            for code in (0, 1, -1, 255):
                for silent in (0, 1):
                    c.ob("link-%s-%d-rc%d-s%d" % (mode, ex, code, silent), *linking(c, p, f, mode, ex, code, silent))


def member(p, name):
    """an enumerator of an enum without a name, as used somewhere"""
    for fn in p.fns.values():
        for x in walk(fn.body):
            if x.get("en") == name and x["k"] == "int":
                return int(x["v"])
    raise AnalysisBroken("enumerator %s not found" % name)


def base_ctx(I, p):
    w = World(I)
    ctx = w.obj(ct=0)
    z = I.new_heap("ctx", True)
    L = z.loc
    for n in ("as", "cc", "ld"):
        I.mem[L + (("f", n),)] = I.new_text(("THE-" + n,))
    I.mem[L + (("f", "compiler_flags"),)] = list_of(I, [I.new_text(("FLAG1",)), I.new_text(("FLAG2",))])
    lm = L + (("f", "link_mode"),)
    I.mem[lm + (("f", "libs"),)] = list_of(I, [I.new_text(("-lLIB1",)), I.new_text(("-lLIB2",))])
    I.mem[lm + (("f", "extra"),)] = list_of(I, [I.new_text(("EXTRA1",)), I.new_text(("EXTRA2",))])
    I.mem[lm + (("f", "mode"),)] = member(p, "LINK_DYNAMIC")
    return z


def find_ld(I, z, p):
    """set the dynamic linker path wherever the field lives"""
    I.on_dl = True


def argv(I, v):
    out = []
    v = I.value(v)
    for i in range(64):
        x = I.value(I.load(I.deref_loc(I.ptr_add(v, i))))
        if isinstance(x, int) and x == 0:
            return out
        t = I.text(x)
        out.append("".join(y if isinstance(y, str) else "<%s>" % show(y) for y in t))
    return out + ["<no end>"]


def generate(c, p, f, inner, prog_field, asm_, link, code, opt):
    started, linked, wrote = [], [], []

    def sub(I, a, e):
        started.append(("".join(map(str, I.text(a[0]))), argv(I, a[1])))
        return code

    def cached(I, a, e):
        I.set_text(a[0], ("/cache/", *I.text(a[1]), *(I.text(a[2]) if a[2] != 0 else ())))
        return a[0]

    def lnk(I, a, e):
        linked.append(("".join(map(str, I.text(a[1]))), "".join(map(str, I.text(a[2])))))
    hooks = {"subprocess": sub, "get_cached_file_path": cached, "link_obj": lnk, "longjmp": lambda I, a, e: jump(I, a), "_longjmp": lambda I, a, e: jump(I, a),
             "write_code": lambda I, a, e: wrote.append(I.value(a[2])), "timer_start": lambda I, a, e: None, "timer_stop": lambda I, a, e: None, "get_build": lambda I, a, e: None,
             "print_linking_msg": lambda I, a, e: None, "file_exists": lambda I, a, e: 1, "free_list": lambda I, a, e: None, "allocator_push": lambda I, a, e: None}
    for n in inner:
        if n and (n.startswith("asm_") or n.startswith("c_gen") or n == "c_print") and n not in hooks:
            hooks[n] = lambda I, a, e, n=n: I.event("gen", n)
    I = Interp(p, hooks=hooks, max_loop=40)

    def run(I):
        ctx = base_ctx(I, p)
        fl = ctx.loc + (("f", "flags"),)
        I.mem[fl + (("f", "do_assembling"),)] = asm_
        I.mem[fl + (("f", "do_linking"),)] = link
        I.mem[fl + (("f", "optimize"),)] = opt
        I.mem[fl + (("f", "require_entrypoint"),)] = 1
        dl(I, p, ctx)
        cg = I.new_heap("cg", True)
        I.mem[cg.loc + (("f", "context"),)] = ctx
        I.mem[cg.loc + (("f", "silent"),)] = 1
        I.mem[cg.loc + (("f", "ast"),)] = I.new_heap("ast", True)
        I.run_fn(f, [cg, I.new_text(("TARGET",))])
    ps = I.explore(run)
    c.seen(I, ps)
    wh = where(f)
    if len(ps) != 1:
        return False, "%d paths" % len(ps), wh
    end = ps[0].end
    if len(wrote) != 1 or bool(wrote[0]) != bool(asm_):
        return False, "the code is written %d times, kept for the next tool: %s" % (len(wrote), wrote), wh
    if not asm_:
        return (end == "return" and not started and not linked), "without assembling: %s %s, ending in %s" % (started, linked, end), wh
    if len(started) != 1:
        return False, "%d processes are started" % len(started), wh
    prog, av = started[0]
    src = "/cache/TARGET" + (".s" if prog_field == "as" else ".c")
    if prog != "THE-" + prog_field or av[:1] != [prog]:
        return False, "starts %s with %s" % (prog, av), wh
    if av.count(src) != 1 or "-o" not in av or "FLAG1" not in av or "FLAG2" not in av:
        return False, "arguments %s" % av, wh
    out = av[av.index("-o") + 1]
    if prog_field == "as":
        want = "/cache/TARGET.o" if link else "TARGET.o"
        if out != want:
            return False, "the object goes to %s, expected %s" % (out, want), wh
        if "-c" not in av:
            return False, "arguments %s" % av, wh
        if code == 0 and (linked != ([("TARGET", out)] if link else [])):
            return False, "links %s, expected %s" % (linked, out if link else "nothing"), wh
    elif link:
        if out != "TARGET" or "-c" in av or not {"EXTRA1", "EXTRA2", "-lLIB1", "-lLIB2"} <= set(av):
            return False, "arguments %s" % av, wh
        if ("-O2" in av) != bool(opt):
            return False, "optimisation flag does not follow --no-opt: %s" % av, wh
    elif "-c" not in av:
        return False, "links although it shall not: %s" % av, wh
    if code:
        return end == "longjmp" and not linked, "exit code %d: goes on to %s %s" % (code, end, linked), wh
    return end == "return", "ends in %s" % end, wh


def dl(I, p, ctx):
    v = I.new_text(("THE-DL",))
    base = ctx.loc + (("f", "link_mode"),)
    I.mem[base + (("f", "ldynamic"), ("f", "dynamic_linker"))] = v
    rec = p.records.get("CSPYDR_LINKMODE_STRUCT") if hasattr(p, "records") else None
    return v


def linking(c, p, f, mode, ex, code, silent):
    started = []

    def sub(I, a, e):
        started.append(("".join(map(str, I.text(a[0]))), argv(I, a[1])))
        return code
    I = Interp(p, hooks={"subprocess": sub, "longjmp": lambda I, a, e: jump(I, a), "_longjmp": lambda I, a, e: jump(I, a), "timer_start": lambda I, a, e: None,
                         "timer_stop": lambda I, a, e: None, "print_linking_msg": lambda I, a, e: None, "file_exists": lambda I, a, e: 1, "free_list": lambda I, a, e: None}, max_loop=40)

    def run(I):
        ctx = base_ctx(I, p)
        I.mem[ctx.loc + (("f", "link_mode"), ("f", "mode"))] = member(p, mode)
        dl(I, p, ctx)
        I.run_fn(f, [ctx, I.new_text(("TARGET",)), I.new_text(("OBJ",)), silent, ex])
    ps = I.explore(run)
    c.seen(I, ps)
    wh = where(f)
    if len(ps) != 1 or len(started) != 1:
        return False, "%d paths, %d processes (%s)" % (len(ps), len(started), [x.end for x in ps]), wh
    prog, av = started[0]
    if prog != "THE-ld" or av[:1] != [prog] or av.count("OBJ") != 1 or "-o" not in av or av[av.index("-o") + 1] != "TARGET":
        return False, "starts %s with %s" % (prog, av), wh
    for x in ("EXTRA1", "EXTRA2", "-lLIB1", "-lLIB2"):
        if av.count(x) != 1:
            return False, "%s is missing from %s" % (x, av), wh
    if av.index("-lLIB1") > av.index("-lLIB2") or av.index("EXTRA1") > av.index("EXTRA2"):
        return False, "libraries are reordered: %s" % av, wh
    if ("-static" in av) != (mode == "LINK_STATIC"):
        return False, "static linking does not follow the mode: %s" % av, wh
    if ("-shared" in av) != (not ex):
        return False, "a library is linked as an executable or the reverse: %s" % av, wh
    if ex and mode == "LINK_DYNAMIC" and ("-dynamic-linker" not in av or av[av.index("-dynamic-linker") + 1] != "THE-DL"):
        return False, "the dynamic linker is not passed: %s" % av, wh
    end = ps[0].end
    return end == ("longjmp" if code else "return"), "exit code %d: ends in %s" % (code, end), wh


def renderer(c, p):
    f = p.fn("default_error_handler")
    wh = where(f)
    lines = ["let x: i32 = foo + 1;\n", "    <- some::thing(1, 2);\n", "\tif a { b }", "\n", "   \n", "", "x", "        let s = \"a%d%s%n\";\n"]
    for li, line in enumerate(lines):
        toks = sorted({(a, b) for a in range(len(line.rstrip("\n")) + 1) for b in (0, 1, 3, 8) if a + b <= len(line)})[::3]
        for start, ln in toks:
            if start < len(line) - len(line.lstrip()) and line.strip():
                continue
            for is_err in (0, 1):
                for where_ in ((0, 0), (9, 4)) if start % 2 else ((0, 0),):
                    pos = start + ln - 1
                    if pos < 0:
                        continue
                    for short in (0, 1):
                        c.ob("show-%d-%d-%d-%d-%d-%d" % (li, start, ln, is_err, where_[0], short), *render(c, p, f, line, start, ln, is_err, where_, short, wh))
    for tok in ("none", "nosource"):
        I = Interp(p)

        def run(I):
            t = 0
            if tok == "nosource":
                t = I.new_heap("tok", True)
                I.set_text(Ptr(t.loc + (("f", "value"),)), ("abc",))
            ctx = I.new_heap("ctx", True)
            I.run_fn(f, [ctx, 0, t, I.new_text(("bad %s here",)), VaList([I.new_text(("thing",))]), 1, I.new_text(("E00: x",))])
        ps = I.explore(run)
        c.seen(I, ps)
        ok = len(ps) == 1 and ps[0].end == "return" and "bad thing here" in written(ps[0])
        c.ob("show-" + tok, ok, "a diagnostic without position shows %r, ending in %s" % (written(ps[0]), ps[0].end), wh)


def render(c, p, f, line, start, ln, is_err, where_, short, wh):
    nl, lno = where_
    I = Interp(p, hooks={"obj_kind_to_str": lambda I, a, e: I.new_text(("KIND",))}, max_loop=80)

    def run(I):
        ctx = I.new_heap("ctx", True)
        items = [I.new_text(("other line %d\n" % k,)) for k in range(lno)] + [I.new_text((line,) if line else ())] + [I.new_text(("after\n",)) for k in range(3)]
        src = I.new_heap("src", True)
        I.mem[src.loc + (("f", "lines"),)] = list_of(I, items)
        I.mem[src.loc + (("f", "num_lines"),)] = len(items)
        I.mem[src.loc + (("f", "path"),)] = I.new_text(("/full/path.csp",))
        if short:
            I.mem[src.loc + (("f", "short_path"),)] = I.new_text(("path.csp",))
        t = I.new_heap("tok", True)
        v = line[start:start + ln]
        I.set_text(Ptr(t.loc + (("f", "value"),)), (v,) if v else ())
        I.mem[t.loc + (("f", "line"),)] = lno
        I.mem[t.loc + (("f", "pos"),)] = start + ln - 1
        I.mem[t.loc + (("f", "source"),)] = src
        I.run_fn(f, [ctx, 3, t, I.new_text(("bad %s, got %d",)), VaList([I.new_text(("thing",)), 42]), is_err, I.new_text(("E03: kind",))])
    ps = I.explore(run)
    c.seen(I, ps)
    if len(ps) != 1 or ps[0].end != "return":
        return False, "ends in %s" % [x.end for x in ps], wh
    got = written(ps[0])
    got = got[got.index("path") - (0 if short else 6):] if "path" in got else got
    trimmed = line.strip()
    off = len(line) - len(line.lstrip())
    col = start + ln
    lines = got.split("\n")
    head = "%s:%d:%d => [E03: kind]: bad thing, got 42" % ("path.csp" if short else "/full/path.csp", lno + 1, col)
    if lines[0].rstrip() != head:
        return False, "heading %r, expected %r" % (lines[0], head), wh
    if not trimmed:
        return True, "shown", wh
    g = "%4d | " % (lno + 1)
    if len(lines) < 3 or not lines[1].strip().startswith("%d | %s" % (lno + 1, trimmed)):
        return False, "source line %r, expected %r" % (lines[1:2], trimmed), wh
    bar = lines[1].index("|")
    want = " " * (bar) + "| " + " " * (start - off) + "^" + "~" * max(0, ln - 1) + "-here"
    if lines[2].rstrip() != want:
        return False, "marker %r under %r, expected %r" % (lines[2], lines[1], want), wh
    return True, "shown", wh


def names(c, p):
    """type and identifier names: whatever the buffer held before, never past its end"""
    f = p.fn("ast_id_to_str")
    for chain in (["a"], ["ns", "a"], ["o", "ns", "name"], ["x" * 30, "y" * 30]):
        for size in (64, 12, 5, 8192):
            I = Interp(p)

            def run(I):
                b = I.new_text(("garbage",))
                o = 0
                for n in chain:
                    k = I.new_heap("id", True)
                    I.mem[k.loc + (("f", "callee"),)] = I.new_text((n,))
                    I.mem[k.loc + (("f", "outer"),)] = o
                    o = k
                I.run_fn(f, [b, o, size])
                return "".join(map(str, I.text(b)))
            ps = I.explore(run)
            c.seen(I, ps)
            full = "::".join(chain)
            ok = len(ps) == 1 and ps[0].end == "return" and (ps[0].ret == full if len(full) < size else len(ps[0].ret) < size)
            c.ob("name-%s-%d" % (full[:12], size), ok, "identifier %s in %d bytes gives %r (%s)" % (full, size, ps[0].ret, ps[0].end), where(f))
    f = p.fn("ast_type_to_str")
    shapes = {"i32[7]": ("TY_ARRAY", "b", dict(num_indices=7)), "i32[]": ("TY_VLA", "b", {}), "i32 'c[5]": ("TY_C_ARRAY", "b", {}), "dyn i32": ("TY_DYN", "b", {}),
              "fn<i32>()": ("TY_FN", "b", dict(args=0)), "fn<i32>(i32)": ("TY_FN", "b", dict(args=1)), "fn<i32>(i32, i32, i32)": ("TY_FN", "b", dict(args=3)),
              "fn<i32>(i32, ...)": ("TY_FN", "b", dict(args=1, va=1)), "enum": ("TY_ENUM", "", {}), "interface {}": ("TY_INTERFACE", "", {}), "ns::Name": ("TY_UNDEF", "", dict(id=1))}
    for want, (kind, base, kw) in shapes.items():
        for size in (8192, 34):
            I = Interp(p, hooks={"const_u64": lambda I, a, e: 5})

            def mk(I, kind, **kw):
                o = I.new_heap("ty", True)
                I.mem[o.loc + (("f", "kind"),)] = p.enum(kind)
                for k, v in kw.items():
                    I.mem[o.loc + (("f", k),)] = v
                return o

            def run(I):
                t = mk(I, kind)
                if base:
                    I.mem[t.loc + (("f", "base"),)] = mk(I, "TY_I32")
                if "num_indices" in kw:
                    I.mem[t.loc + (("f", "num_indices"),)] = kw["num_indices"]
                if "args" in kw:
                    I.mem[t.loc + (("f", "arg_types"),)] = list_of(I, [mk(I, "TY_I32") for _ in range(kw["args"])])
                    I.mem[t.loc + (("f", "is_variadic"),)] = kw.get("va", 0)
                if "id" in kw:
                    o = I.new_heap("id", True)
                    I.mem[o.loc + (("f", "callee"),)] = I.new_text(("ns",))
                    n = I.new_heap("id", True)
                    I.mem[n.loc + (("f", "callee"),)] = I.new_text(("Name",))
                    I.mem[n.loc + (("f", "outer"),)] = o
                    I.mem[t.loc + (("f", "id"),)] = n
                b = I.new_text(("zzz",))
                I.run_fn(f, [I.new_heap("ctx", True), b, t, size])
                return "".join(map(str, I.text(b)))
            ps = I.explore(run)
            c.seen(I, ps)
            ok = len(ps) == 1 and ps[0].end == "return" and len(ps[0].ret) < size and (ps[0].ret == want or size < 40)
            c.ob("type-%s-%d" % (want, size), ok, "%s prints as %r (%s)" % (want, ps[0].ret, ps[0].end), where(f))
    for const in (0, 1):
        for kind, want in [("TY_" + x.upper(), x) for x in "i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 f80 bool void char".split()]:
            for wrap in (0, 1, 2):
                for size in (8192, 36):
                    I = Interp(p, hooks={"const_u64": lambda I, a, e: 5})

                    def run(I):
                        t = I.new_heap("ty", True)
                        I.mem[t.loc + (("f", "kind"),)] = p.enum(kind)
                        I.mem[t.loc + (("f", "is_constant"),)] = const
                        for k in range(wrap):
                            o = I.new_heap("ty", True)
                            I.mem[o.loc + (("f", "kind"),)] = p.enum("TY_PTR")
                            I.mem[o.loc + (("f", "base"),)] = t
                            t = o
                        b = I.new_text(("x" * 50,))
                        I.run_fn(f, [I.new_heap("ctx", True), b, t, size])
                        return "".join(map(str, I.text(b)))
                    ps = I.explore(run)
                    c.seen(I, ps)
                    w = "&" * wrap + ("const " if const else "") + want
                    ok = len(ps) == 1 and ps[0].end == "return" and len(ps[0].ret) < size and (ps[0].ret == w or size < 40)
                    c.ob("type-%s-%d-%d-%d" % (kind, const, wrap, size), ok, "%s prints as %r (%s)" % (w, ps[0].ret, ps[0].end), where(f))
    for n in (1, 5, 40, 400):
        for size in (40, 64, 256):
            I = Interp(p, max_loop=500)

            def run(I):
                ms = []
                for k in range(n):
                    t = I.new_heap("ty", True)
                    I.mem[t.loc + (("f", "kind"),)] = p.enum("TY_I32")
                    m = I.new_heap("m", True)
                    I.mem[m.loc + (("f", "kind"),)] = p.enum("ND_STRUCT_MEMBER")
                    I.mem[m.loc + (("f", "data_type"),)] = t
                    i = I.new_heap("id", True)
                    I.mem[i.loc + (("f", "callee"),)] = I.new_text(("member%d" % k,))
                    I.mem[m.loc + (("f", "id"),)] = i
                    ms.append(m)
                t = I.new_heap("ty", True)
                I.mem[t.loc + (("f", "kind"),)] = p.enum("TY_STRUCT")
                I.mem[t.loc + (("f", "members"),)] = list_of(I, ms)
                b = I.new_text(("old",))
                I.run_fn(f, [I.new_heap("ctx", True), b, t, size])
                return "".join(map(str, I.text(b)))
            ps = I.explore(run)
            c.seen(I, ps)
            full = "struct {" + ", ".join("member%d: i32" % k for k in range(n)) + "}"
            ok = len(ps) == 1 and ps[0].end == "return" and len(ps[0].ret) < size and (ps[0].ret == full or len(full) + 32 > size)
            c.ob("type-struct-%d-%d" % (n, size), ok, "a struct of %d members in %d bytes prints as %d bytes: %r (%s)" % (n, size, len(ps[0].ret or ""), (ps[0].ret or "")[:60], ps[0].end), where(f))


CONV = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXcspfgeGEaAn%])")


def formats(c, p):
    """every diagnostic's format has exactly the arguments it names"""
    n = 0
    for fn in p.fns.values():
        for cl in calls(fn.body):
            if callee(cl) != "throw_error" or len(cl["a"]) < 4:
                continue
            fmt = literal(cl["a"][3])
            if fmt is None:
                continue
            n += 1
            need = 0
            for m in CONV.finditer(fmt):
                if m.group(5) != "%":
                    need += 1 + (m.group(2) == "*") + (m.group(3) == "*")
            have = len(cl["a"]) - 4
            c.ob("format-%s-%d" % (fn.name, n), need == have, "the message %r has %d conversions and %d arguments" % (fmt[:60], need, have), where(fn, cl.get("l")))
    if n < 200:
        raise AnalysisBroken("only %d diagnostics with literal formats" % n)


def literal(e):
    for x in walk(e):
        if x.get("k") == "str":
            return x.get("v", x.get("s"))
    return None

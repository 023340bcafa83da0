"""C20: the command line selects what its documentation says."""
import itertools
import absint
from csp import *
from fw import where
from c_c19 import jump, member, argv as read_argv


class Interp(absint.Interp):
    initial = True


ACTIONS = ["build", "run", "lib", "debug", "shell"]
# every documented option, with its arguments
OPTS = [("-o", "OUT"), ("--output", "OUT2"), ("-b", "C"), ("-b", "c"), ("--backend", "assembly"), ("-b", "transpile"), ("--backend", "Json"), ("-b", "interpreter"), ("--print-code",),
        ("--silent",), ("--cc", "CC"), ("--cc-flags", "-a  -b\t-c"), ("--cc-flags", ""), ("--cc-flags", "  "), ("--as", "AS"), ("--ld", "LD"), ("-S",), ("-c",), ("--static",), ("--dynamic-linker", "DL"), ("-g",), ("-g0",),
        ("-0",), ("--no-opt",), ("--set-mmcd", "77"), ("--show-timings",), ("-p", "STD"), ("--std-path", "STD2"), ("--clear-cache",), ("--from-json",), ("--", "x", "-o", "y"), ("--",)]
INFO = ["-h", "--help", "-v", "--version", "-i", "--info"]
VALUE = ["-o", "--output", "-b", "--backend", "--cc", "--cc-flags", "--as", "--ld", "--dynamic-linker", "--set-mmcd", "-p", "--std-path"]


class Fail(Exception):
    pass


def model(action, inp, opts, ext):
    """what the documentation promises"""
    base = inp
    cut = inp.rfind(".")
    if cut >= 0 and "/" not in inp[cut:]:
        base = inp[:cut]
    m = dict(ct="CT_ASM", out=base + ext["lib" if action == "lib" else "exe"], print_code=0, silent=int(action == "shell"), cc=None, flags=[], as_=None, ld=None, do_linking=1, do_assembling=1,
             static=0, dl=None, g=1, opt=1, mmcd=None, timer=0, std=None, clear=0, args=[], json=0, entry=int(action != "lib"))
    args = [x for o in opts for x in o]
    if action == "shell":
        m["args"] = args
        return m
    i = 0
    n = len(args)

    def val():
        nonlocal i
        i += 1
        if i >= n:
            raise Fail("missing value")
        return args[i]
    while i < n:
        a = args[i]
        if a in ("-o", "--output"):
            m["out"] = val()
        elif a in ("-b", "--backend"):
            v = val().upper()
            try:
                m["ct"] = {"C": "CT_TRANSPILE", "TRANSPILE": "CT_TRANSPILE", "ASSEMBLY": "CT_ASM", "JSON": "CT_TO_JSON", "INTERPRETER": "CT_INTERPRETER"}[v]
            except KeyError:
                raise Fail("backend")
        elif a == "--print-code":
            m["print_code"] = 1
        elif a == "--silent":
            m["silent"] = 1
        elif a == "--cc":
            m["cc"] = val()
        elif a == "--cc-flags":
            m["flags"] = m["flags"] + val().split()
        elif a == "--as":
            m["as_"] = val()
        elif a == "--ld":
            m["ld"] = val()
        elif a == "-S":
            m["do_assembling"] = m["do_linking"] = 0
        elif a == "-c":
            m["do_linking"] = 0
        elif a == "--static":
            m["static"] = 1
        elif a == "--dynamic-linker":
            v = val()
            if m["static"]:
                raise Fail("static")
            m["dl"] = v
        elif a in ("-g", "-g0"):
            m["g"] = int(a == "-g")
        elif a in ("-0", "--no-opt"):
            m["opt"] = 0
        elif a == "--set-mmcd":
            try:
                v = int(val())
            except ValueError:
                v = 0
            if v <= 0:
                raise Fail("number")
            m["mmcd"] = v
        elif a == "--show-timings":
            m["timer"] = 1
        elif a in ("-p", "--std-path"):
            v = val()
            if v == "MISSING":
                raise Fail("no such directory")
            m["std"] = "/abs/" + v
        elif a == "--clear-cache":
            m["clear"] = 1
        elif a == "--from-json":
            m["json"] = 1
        elif a == "--":
            m["args"] = args[i + 1:]
            break
        elif a in INFO:
            raise Fail("info")
        else:
            raise Fail("unknown option")
        i += 1
    if m["ct"] == "CT_INTERPRETER" and action != "run":
        raise Fail("interpreter without run")
    return m


def body(c, p):
    c.rule("The entry point is interpreted on concrete argument vectors: every action with every option, every ordered pair of options, missing values, unknown options and file names. The "
           "configuration it passes to the compilation, the actions it takes afterwards and its exit status are compared with the documented meaning of the options.")
    c.require(2500)
    for inp in ("dir/file.csp",):
        for a in ACTIONS:
            for o in [()] + [(x,) for x in OPTS]:
                one(c, p, a, inp, o)
    for a, b in itertools.product(OPTS, OPTS):
        one(c, p, "run", "dir/file.csp", (a, b))
        one(c, p, "build", "dir/file.csp", (a, b))
    for a in ACTIONS[:4]:
        for inp in ("file.csp", "./file", "a.b/file", "a.b/file.x.csp", "/abs/name.csp", "noext", ".hidden", "../up/x.csp"):
            one(c, p, a, inp, ())
            one(c, p, a, inp, (("-o", "elsewhere/bin"),))
    for v in VALUE:
        one(c, p, "run", "dir/file.csp", ((v,),))
        one(c, p, "build", "dir/file.csp", (("-c",), (v,)))
    for o in (("--bogus",), ("x.csp",), ("-x",), ("-b", "cobol"), ("-b", ""), ("--set-mmcd", "0"), ("--set-mmcd", "-5"), ("--set-mmcd", "many"), ("-p", "MISSING"), ("-O2",), ("--silen",), ("--silentt",)):
        one(c, p, "build", "dir/file.csp", (o,))
        one(c, p, "run", "dir/file.csp", (("--silent",), o))
    for o in INFO:
        one(c, p, "build", "dir/file.csp", ((o,),))
        one(c, p, None, None, ((o,),))
    three = [("-S",), ("-c",), ("--silent",), ("--static",), ("-b", "C"), ("-o", "OUT"), ("--dynamic-linker", "DL"), ("--cc-flags", "-z"), ("--", "p", "q")]
    for t in itertools.permutations(three, 3):
        one(c, p, "run", "dir/file.csp", t)
    for a in ("compile", "Build", "", "bui", "runn"):
        one(c, p, a, "dir/file.csp", ())
    for a in ACTIONS:
        one(c, p, a, "gone.csp", (), exists=False)
    one(c, p, None, None, ())


def fld_(I, l, *names):
    for n in names:
        l = l + (("f", n),)
    return I.value(I.load(l))


def string(I, v):
    if isinstance(v, int) and v == 0:
        return None
    return "".join(x if isinstance(x, str) else "<%s>" % show(x) for x in I.text(v))


EXT = dict(exe=".out", lib=".so")


def one(c, p, action, inp, opts, exists=True):
    f = p.fn("main", "src/compiler/main.c")
    av = ["cspc"] + ([action] if action is not None else []) + ([inp] if inp is not None else []) + [x for o in opts for x in o]
    key = "cli " + " ".join(x if x else '""' for x in av[1:])
    got = {}
    after = []

    def comp(I, a, e):
        L = I.deref_loc(a[0])
        got.update(inp=string(I, a[1]), out=string(I, a[2]), ct=fld_(I, L, "ct"), mmcd=fld_(I, L, "max_macro_call_depth"), cc=string(I, fld_(I, L, "cc")), as_=string(I, fld_(I, L, "as")),
                   ld=string(I, fld_(I, L, "ld")), std=string(I, fld_(I, L, "paths", "std_path")), static=fld_(I, L, "link_mode", "mode"),
                   flags=[string(I, x) for x in (list_items(I, fld_(I, L, "compiler_flags")) or ["?"])] if fld_(I, fld_(I, L, "compiler_flags").loc, "size") != 0 else [],
                   argc=fld_(I, L, "args", "argc"), args=fld_(I, L, "args", "argv"))
        if got["static"] == member(p, "LINK_DYNAMIC"):
            got["dl"] = string(I, fld_(I, L, "link_mode", "ldynamic", "dynamic_linker"))
        else:
            got["dl"] = None
        if got["argc"]:
            got["args"] = [string(I, I.value(I.load(I.deref_loc(I.ptr_add(got["args"], k))))) for k in range(got["argc"])]
        else:
            got["args"] = []
        for n in ("print_code", "silent", "do_linking", "do_assembling", "embed_debug_info", "optimize", "timer_enabled", "require_entrypoint", "from_json"):
            got[n] = fld_(I, L, "flags", n)

    def sub(I, a, e):
        after.append(("exec", string(I, a[0]), read_argv(I, a[1])))
        return 0
    hooks = {"compile": comp, "subprocess": sub, "file_exists": lambda I, a, e: int(exists), "debug_repl": lambda I, a, e: after.append(("debug", string(I, a[1]), string(I, a[2]))),
             "get_absolute_path": lambda I, a, e: 0 if string(I, a[0]) == "MISSING" else I.new_text(("/abs/", string(I, a[0]))), "clear_cache": lambda I, a, e: after.append(("clear",)),
             "timer_print_summary": lambda I, a, e: after.append(("timings",)), "timer_start": lambda I, a, e: None, "timer_stop": lambda I, a, e: None, "free_context": lambda I, a, e: None,
             "hashmap_init": lambda I, a, e: I.new_heap("map"), "init_allocator": lambda I, a, e: None, "allocator_push": lambda I, a, e: None, "get_home_directory": lambda I, a, e: I.new_text(("/home",)),
             "atoi": atoi, "toupper": toupper, "strtok_r": strtok_r(), "strrchr": strrchr, "get_cspydr_version": lambda I, a, e: I.new_text(("v",)),
             "get_cspydr_build": lambda I, a, e: I.set_text(a[0], ("b",))}
    I = Interp(p, hooks=hooks, max_loop=200, max_paths=60, max_steps=400000)

    def run(I):
        vec = I.new_heap("argv")
        for k, x in enumerate(av):
            I.mem[vec.loc + (("i", k),)] = I.new_text((x,) if x else ())
        I.mem[vec.loc + (("i", len(av)),)] = 0
        return I.run_fn(f, [len(av), Ptr(vec.loc + (("i", 0),))])
    try:
        ps = I.explore(run)
    except absint.Budget as e:
        return c.ob(key, False, "`%s`: what happens depends on more than the command line (%s)" % (" ".join(av), e), where(f))
    c.seen(I, ps)
    wh = where(f)
    if len(ps) != 1:
        return c.ob(key, False, "%d paths" % len(ps), wh)
    q = ps[0]
    ex = [e for e in q.events if e[0] == "exit"]
    status = ex[0][1] if ex else q.ret if q.end == "return" else None
    info = action is None and opts and opts[0][0] in INFO
    if action not in ACTIONS or not exists:
        want = (0 if info else 1)
        ok = not got and not after and (status == 0 if info else status not in (0, None))
        return c.ob(key, ok, "`%s` exits with %s%s, expected %s and no compilation" % (" ".join(av), status if status is not None else q.end, " after compiling" if got else "", "0" if info else "a failure"), wh)
    try:
        m = model(action, inp, opts, EXT)
    except Fail as e:
        inf = str(e) == "info"
        ok = not got and (status == 0 if inf else status not in (0, None))
        return c.ob(key, ok, "`%s` (%s) exits with %s%s" % (" ".join(av), e, status if status is not None else q.end, " after compiling" if got else ""), wh)
    bad = []

    def cmp_(name, have, want):
        if have != want:
            bad.append("%s is %r, expected %r" % (name, have, want))
    if not got:
        return c.ob(key, False, "`%s` does not compile: %s %s" % (" ".join(av), q.end, status), wh)
    if not DEF:
        if opts:
            return c.ob(key, False, "`%s`: there is no configuration without options to compare with" % " ".join(av), wh)
        DEF.update(got)
        bad += ["no default for %s" % x for x in ("cc", "as_", "ld", "mmcd", "std", "dl") if not got[x]]
    cmp_("input", got["inp"], inp)
    cmp_("output", got["out"], m["out"])
    cmp_("backend", got["ct"], p.enum(m["ct"]))
    cmp_("C compiler flags", got["flags"], m["flags"])
    for a, b in (("cc", "cc"), ("as_", "as_"), ("ld", "ld"), ("mmcd", "mmcd"), ("std", "std")):
        if m[b] is not None:
            cmp_(a, got[a], m[b])
        else:
            cmp_("default " + a, got[a], DEF[a])
    cmp_("static linking", int(got["static"] == member(p, "LINK_STATIC")), m["static"])
    if m["dl"] is not None and not m["static"]:
        cmp_("dynamic linker", got["dl"], m["dl"])
    for a, b in (("print_code", "print_code"), ("silent", "silent"), ("do_linking", "do_linking"), ("do_assembling", "do_assembling"), ("embed_debug_info", "g"), ("optimize", "opt"),
                 ("timer_enabled", "timer"), ("require_entrypoint", "entry"), ("from_json", "json")):
        cmp_(a, int(bool(got[a])) if isinstance(got[a], int) else got[a], m[b])
    if action in ("run", "shell") or m["args"]:
        cmp_("program arguments", got["args"], m["args"])
    execs = [x for x in after if x[0] == "exec"]
    if action in ("run", "shell") and m["do_assembling"] and m["do_linking"]:
        path = m["out"] if "/" in m["out"] else "./" + m["out"]
        if len(execs) != 1 or execs[0][1] != path or execs[0][2][1:] != m["args"]:
            bad.append("runs %s, expected %s with %s" % (execs, path, m["args"]))
    else:
        cmp_("programs run", execs, [])
    cmp_("debugger", [x for x in after if x[0] == "debug"], [("debug", inp, m["out"])] if action == "debug" else [])
    cmp_("cache cleared", ("clear",) in after, bool(m["clear"]))
    cmp_("timings shown", ("timings",) in after, bool(m["timer"]))
    cmp_("exit status", status, 0)
    c.ob(key, not bad, "`%s`: %s" % (" ".join(av), "; ".join(bad) or "as documented"), wh)


DEF = {}      # the configuration without options


def toupper(I, a, e):
    v = I.value(a[0])
    return ord(chr(v).upper()) if isinstance(v, int) and 0 <= v < 128 else S("toupper", v)


def atoi(I, a, e):
    t = string(I, a[0])
    if t is None:
        I.event("nullderef", I.pos)
        raise StopPath("nullderef")
    s = t.lstrip()
    n = ""
    for k, ch in enumerate(s):
        if ch.isdigit() or k == 0 and ch in "+-":
            n += ch
        else:
            break
    return int(n) if n.strip("+-") else 0


def strrchr(I, a, e):
    t = string(I, a[0])
    i = t.rfind(chr(I.value(a[1])))
    return I.ptr_add(a[0], i) if i >= 0 else 0


def strtok_r():
    state = {}

    def h(I, a, e):
        d = string(I, a[1])
        if I.value(a[0]) != 0:
            s = string(I, a[0])
            parts = []
            w = ""
            for ch in s + d[0]:
                if ch in d:
                    if w:
                        parts.append(w)
                    w = ""
                else:
                    w += ch
            state["p"] = parts
        if not state.get("p"):
            return 0
        return I.new_text((state["p"].pop(0),))
    return h

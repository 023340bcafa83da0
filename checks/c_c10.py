"""C10: assembly back end, control flow statements."""
import itertools
from gen import *
from asm import SP0, BP0, addr_split
from fw import where

I32, I64, U64 = T("TY_I32"), T("TY_I64"), T("TY_U64")
STEPS = 7           # evaluations of conditions and bodies a reference execution may take


class Stop(Exception):
    pass


class Ctl(Exception):
    def __init__(self, kind):
        self.kind = kind


class Ref:
    """reference execution of a statement tree under an oracle for the values of opaque expressions"""

    def __init__(self, script, dom):
        self.script, self.dom, self.pos = script, dom, 0
        self.env, self.occ, self.trace, self.grow = {}, {}, [], None
        self.n = 0

    def val(self, k, mode="val"):
        self.n += 1
        if self.n > STEPS * 3:
            raise Stop()
        i = self.occ.get((mode, k), 0)
        self.occ[(mode, k)] = i + 1
        self.trace.append((mode, k, i))
        if mode != "val" or k not in self.dom:
            return None
        d = self.dom[k]
        if self.pos >= len(self.script):
            self.grow = len(d)
            raise Stop()
        v = d[self.script[self.pos]]
        self.pos += 1
        self.env[S("val", k, i)] = v
        return v

    def run(self, t):
        if t is None:
            return
        if isinstance(t, str):
            if t in ("break", "continue"):
                raise Ctl(t)
            self.val(t, "stmt")
            return
        k = t[0]
        if k == "if":
            if self.val(t[1]): self.run(t[2])
            else: self.run(t[3])
        elif k == "block":
            for x in t[1]: self.run(x)
        elif k == "unless":
            if not self.val(t[1]): self.run(t[2])
        elif k in ("while", "dowhile", "loop"):
            first = True
            while True:
                if k == "while" and not self.val(t[1]): break
                if k == "dowhile" and not first and not self.val(t[1]): break
                first = False
                if k == "loop":
                    self.n += 1
                if self.n > STEPS * 3: raise Stop()
                if not self.body(t[-1]): break
        elif k == "for":
            self.run(t[1])
            while True:
                if t[2] and not self.val(t[2]): break
                self.n += 1
                if self.n > STEPS * 3: raise Stop()
                if not self.body(t[4]): break
                if t[3]: self.val(t[3])
        elif k == "range":
            a, b = self.val(t[1]), self.val(t[2])
            while a < b:
                if not self.body(t[3]): break
                a += 1
        elif k == "match":
            v = self.val(t[1])
            try:
                for mode, cname, b in t[2]:
                    w = self.val(cname)
                    if {"ND_EQ": v == w, "ND_NE": v != w, "ND_LT": v < w, "ND_LE": v <= w, "ND_GT": v > w, "ND_GE": v >= w}[mode]:
                        self.run(b)
                        return
                self.run(t[3])
            except Ctl as e:
                if e.kind != "break": raise
        elif k == "with":
            if self.val(t[1]) is None: pass
            if self.env[S("val", t[1], self.occ[("val", t[1])] - 1)]:
                self.run(t[2])
                self.trace.append(("exit",))
            else:
                self.run(t[3])
        elif k in ("typematch", "using"):
            self.run(t[1])
        elif k == "expr":
            self.val(t[1])
        elif k == "return":
            if t[1]: self.val(t[1])
            raise Ctl("return")
        elif k == "noop":
            pass
        else:
            raise AnalysisBroken("reference: " + k)

    def body(self, b):
        try:
            self.run(b)
        except Ctl as e:
            if e.kind == "break": return False
            if e.kind != "continue": raise
        return True


def executions(tree, dom, limit=400):
    """every reference execution within the step bound -> (env, trace, end)"""
    work, out = [()], []
    while work and len(out) < limit:
        sc = work.pop()
        r = Ref(sc, dom)
        try:
            r.run(tree)
            out.append((r.env, r.trace, "fall"))
        except Ctl as e:
            out.append((r.env, r.trace, e.kind))
        except Stop:
            if r.grow and len(sc) < STEPS:
                work += [sc + (i,) for i in range(r.grow)]
    return out


class Build:
    def __init__(self, w, types):
        self.w, self.types = w, types
        self.exit = None

    def kid(self, k):
        t = self.types.get(k, I32)
        return self.w.kid(k, t, kind="ND_CALL")

    def go(self, t):
        w = self.w
        if t is None:
            return 0
        if isinstance(t, str):
            if t == "break": return w.node("ND_BREAK")
            if t == "continue": return w.node("ND_CONTINUE")
            return w.kid(t)
        k = t[0]
        if k == "if":
            return w.node("ND_IF", condition=self.kid(t[1]), if_branch=self.go(t[2]), else_branch=self.go(t[3]))
        if k == "block":
            return w.node("ND_BLOCK", locals=[], stmts=[self.go(x) for x in t[1]])
        if k == "unless":
            return w.node("ND_DO_UNLESS", condition=self.kid(t[1]), body=self.go(t[2]))
        if k == "while":
            return w.node("ND_WHILE", condition=self.kid(t[1]), body=self.go(t[2]))
        if k == "dowhile":
            return w.node("ND_DO_WHILE", condition=self.kid(t[1]), body=self.go(t[2]))
        if k == "loop":
            return w.node("ND_LOOP", body=self.go(t[1]))
        if k == "for":
            return w.node("ND_FOR", init_stmt=self.go(t[1]), condition=self.kid(t[2]) if t[2] else 0, expr=self.kid(t[3]) if t[3] else 0, body=self.go(t[4]), locals=[])
        if k == "range":
            return w.node("ND_FOR_RANGE", left=self.kid(t[1]), right=self.kid(t[2]), body=self.go(t[3]))
        if k == "match":
            cs = [w.node("ND_CASE", condition=self.kid(cn), mode=m, body=self.go(b)) for m, cn, b in t[2]]
            d = w.node("ND_CASE", body=self.go(t[3]), is_default_case=True) if t[3] is not None else 0
            return w.node("ND_MATCH", condition=self.kid(t[1]), cases=cs, default_case=d)
        if k == "with":
            ty = ptr(I32)
            oid = w.ident("x")
            o = w.obj(kind="OBJ_LOCAL", offset=-24, data_type=ty, id=oid)
            idn = w.node("ND_ID", referenced_obj=o, id=oid, data_type=ty)
            asg = w.node("ND_ASSIGN", left=idn, right=w.kid(t[1], ty, kind="ND_CALL"), data_type=ty, is_initializing=True)
            ft = Ty("TY_FN", base=T("TY_VOID"))
            fid = w.ident("drop")
            fn = w.obj(kind="OBJ_FUNCTION", data_type=ft, id=fid, args=[w.obj(kind="OBJ_FN_ARG", data_type=ty)])
            return w.node("ND_WITH", condition=asg, obj=o, if_branch=self.go(t[2]), else_branch=self.go(t[3]), exit_fn=fn)
        if k == "typematch":
            return w.node("ND_MATCH_TYPE", body=self.go(t[1]), cases=[])
        if k == "using":
            return w.node("ND_USING", body=self.go(t[1]), args=[])
        if k == "expr":
            return w.node("ND_EXPR_STMT", expr=self.kid(t[1]))
        if k == "return":
            return w.node("ND_RETURN", return_val=self.kid(t[1]) if t[1] else 0)
        if k == "noop":
            return w.node("ND_NOOP")
        raise AnalysisBroken("build: " + k)


def ident_hook(I, a, e):
    return Ptr((("s", "fn"),))


def check(c, p, err, tree, dom, types, exhaustive=False):
    """-> (None | text of the first disagreement, executions compared)"""
    f = p.fn("asm_gen_stmt")

    def build(w):
        cg = w.cg(current_fn_name="f", depth=0, cur_brk_id=991, cur_cnt_id=992, cur_count=993)
        return [(f, [cg, Build(w, types).go(tree)])]
    ems = emit(c, p, err, build, extra={"asm_gen_identifier": ident_hook})
    if len(ems) != 1:
        raise AnalysisBroken("%d emission paths for a concrete tree" % len(ems))
    em = ems[0]
    if em.errors or em.path.end != "return":
        return "not emitted (%s)" % (em.errors or em.path.end), 0
    text = em.text()
    if em.code.dups:
        return "label defined twice: %s in %s" % (sorted(em.code.dups)[:2], text), 0
    kt = {**{k: I32 for k in dom}, **types}
    at = {}
    ex = executions(tree, dom)
    for env, trace, end in ex:
        how = "; ".join("%s#%d=%d" % (k.a[0], k.a[1], v) for k, v in env.items())
        try:
            ss = Machine(em.code, Kids(kt), max_visits=40, max_paths=50, env=env).run()
        except AsmError as e:
            return "%s in: %s" % (e, text), 0
        except AnalysisBroken:
            ss = []     # every condition has a value: an undecided branch tests something else
        if len(ss) != 1:
            return "control depends on more than the conditions when %s: %s" % (how, text), len(ex)
        s = ss[0]
        g = []
        for x in s.trace:
            if x[0] == "call":
                g.append(("exit",))
                if x[5] % 16:
                    return "the exit function is called with a misaligned stack: " + text, len(ex)
            if x[0] != "child":
                continue
            g.append((x[1], x[2], x[3]))
            off = x[4]
            if at.setdefault((x[1], x[2]), off) != off:
                return "%s %s is reached with different stack depths (%s and %s): %s" % (x[1], x[2], at[(x[1], x[2])], off, text), len(ex)
            d = x[5] if isinstance(x[5], int) else None
            if d is None or (off + 8 * d) % 16:
                return "%s is evaluated at stack offset %s while the recorded depth is %s slots (calls inside it would be misaligned): %s" % (x[2], off, d, text), len(ex)
        if g != trace:
            return "when %s the code evaluates %s, expected %s: %s" % (how, fmt(g), fmt(trace), text), len(ex)
        want = {"fall": ("fall",), "return": ("jump", ".L.return.f"), "break": ("jump", ".L.break.991"), "continue": ("jump", ".L.continue.992")}[end]
        if s.end != want:
            return "when %s control ends at %s, expected %s: %s" % (how, s.end, want, text), len(ex)
        if end == "fall" and M.spoff(s) != 0:
            return "when %s the stack is off by %s bytes afterwards: %s" % (how, M.spoff(s), text), len(ex)
        if s.fp:
            return "when %s %d values are left on the x87 stack: %s" % (how, len(s.fp), text), len(ex)
        if keeps(s):
            return "changes %%%s: %s" % (keeps(s), text), len(ex)
    return None, len(ex)


def fmt(tr):
    return " ".join("%s%s" % (x[1], "" if x[0] != "stmt" else "") if len(x) > 1 else x[0] for x in tr)


LOOPS = {
    "while": lambda b, n: ("while", "C" + n, b),
    "do-while": lambda b, n: ("dowhile", "C" + n, b),
    "loop": lambda b, n: ("loop", b),
    "for": lambda b, n: ("for", "I" + n, "C" + n, "E" + n, b),
    "for-bare": lambda b, n: ("for", None, None, None, b),
    "for-noexpr": lambda b, n: ("for", "I" + n, "C" + n, None, b),
    "for-nocond": lambda b, n: ("for", None, None, "E" + n, b),
    "range": lambda b, n: ("range", "L" + n, "R" + n, b),
}
BODIES = {
    "if": lambda b, n: ("if", "C" + n, b, None),
    "if-else": lambda b, n: ("if", "C" + n, "A" + n, b),
    "unless": lambda b, n: ("unless", "C" + n, b),
    "block": lambda b, n: ("block", ["A" + n, b, "B" + n]),
    "match": lambda b, n: ("match", "M" + n, [("ND_EQ", "K" + n, b), ("ND_EQ", "J" + n, "B" + n)], None),
    "match-default": lambda b, n: ("match", "M" + n, [("ND_EQ", "K" + n, "A" + n)], b),
    "with": lambda b, n: ("with", "W" + n, b, None),
    "with-else": lambda b, n: ("with", "W" + n, "A" + n, b),
    "typematch": lambda b, n: ("typematch", b),
    "using": lambda b, n: ("using", b),
}
LEAVES = {"stmt": "S", "break": "break", "continue": "continue", "return": ("return", "V"), "return-void": ("return", None),
          "if-break": ("if", "X", "break", None), "if-continue": ("block", ["S", ("if", "X", "continue", None), "Z"]),
          "if-break-else-continue": ("if", "X", "break", "continue"), "noop": ("noop",), "expr": ("expr", "V")}


def domain(tree):
    d = {}

    def go(t):
        if isinstance(t, (list, tuple)):
            k = t[0] if t else None
            if k == "range":
                d[t[1]] = [0, -1]
                d[t[2]] = [0, 1]
            elif k == "match":
                d[t[1]] = [0, 1, 2]
                for i, (m, cn, b) in enumerate(t[2]):
                    d[cn] = [1] if i == 0 else [2]
            elif k in ("if", "unless", "while", "dowhile", "with"):
                d[t[1]] = [0, 1]
            elif k == "for" and t[2]:
                d[t[2]] = [0, 1]
            for x in t[1:] if isinstance(t, tuple) else t:
                go(x)
    go(tree)
    return d


def body(c, p):
    c.rule("Statement trees (every kind of statement, every nesting of two statement kinds around every kind of jump, selected three-level nestings) are emitted with "
           "opaque conditions and leaf statements; every path of the emitted code up to the iteration bound must evaluate exactly the sequence of conditions and "
           "statements of the reference execution with the same condition outcomes, end at the same place, and reach every child with the recorded stack depth.")
    c.require(400)
    err = Errors(p)
    wh = where(p.fn("asm_gen_stmt"))
    n = 0
    allc = {**LOOPS, **BODIES}

    def one(key, tree, types=None, dom=None):
        nonlocal n
        d = dom or domain(tree)
        ty = {k: I64 for k in d if k[0] in "LR"}
        ty.update(types or {})
        bad, k = check(c, p, err, tree, d, ty)
        if not k and not bad:
            return
        n += k
        c.ob(key, bad is None, bad or "%d executions agree" % k, wh)
    for ln, leaf in LEAVES.items():
        one(ln, ("block", [leaf]))
        for on, outer in allc.items():
            one("%s(%s)" % (on, ln), outer(leaf, "1"))
            if ln in ("expr", "noop", "return-void"):
                continue
            for inn, inner in allc.items():
                one("%s(%s(%s))" % (on, inn, ln), outer(inner(leaf, "2"), "1"))
    # values nothing uses: the x87 stack is where it was
    for ty, tn in ((T("TY_F80"), "f80"), (alias(T("TY_F80")), "alias-f80"), (T("TY_F64"), "f64"), (struct(I64, I64, I64), "struct")):
        one("discarded:" + tn, ("block", [("expr", "V"), ("expr", "U")]), {"V": ty, "U": ty})
        for on, outer in allc.items():
            one("discarded:%s(%s)" % (on, tn), outer(("expr", "V"), "1"), {"V": ty})
        one("for-update:" + tn, ("for", "I", "C", "E", "S"), {"E": ty})
    # a statement after the inner construct: the outer loop's own jumps after an inner loop
    for on, outer in LOOPS.items():
        for inn, inner in LOOPS.items():
            for j in ("break", "continue"):
                one("%s{%s; if %s}" % (on, inn, j), outer(("block", [inner(("block", ["S", ("if", "Y", "break", None)]), "2"), ("if", "X", j, None), "T"]), "1"))
        for inn in ("match", "match-default"):
            one("%s{%s; if break}" % (on, inn), outer(("block", [BODIES[inn]("S", "2"), ("if", "X", "break", None), "T"]), "1"))
            one("%s{%s(while(break)); continue}" % (on, inn), outer(("block", [BODIES[inn](("while", "C3", "break"), "2"), ("if", "X", "continue", None), "T"]), "1"))
    # sequences: two constructs in a row do not share labels or targets
    for a, b in itertools.product(allc, allc):
        if a in ("loop", "for-bare", "for-nocond"):
            continue
        one("%s;%s" % (a, b), ("block", [allc[a]("S", "1"), allc[b](LEAVES["if-break"] if b in LOOPS else "T", "2")]))
    matches(c, p, err, one)
    conditions(c, p, err, one)
    defers(c, p, err)
    c.stats["executions_compared"] = n


def conditions(c, p, err, one):
    """a condition of every scalar type is true exactly when its value is non-zero"""
    for tn in ("TY_I8", "TY_I16", "TY_I32", "TY_I64", "TY_U8", "TY_U16", "TY_U32", "TY_U64", "TY_CHAR", "TY_BOOL", "TY_ENUM", "TY_PTR"):
        for al in (False, True):
            t = ptr(I32) if tn == "TY_PTR" else T(tn)
            w = 8 * t.size
            vals = [0, 1] if tn == "TY_BOOL" else [0, 1, 1 << (w - 1), (1 << w) - 1 if w >= 32 else 0xffffffff, 1 << (w // 2)]
            # a narrow value is kept extended to 32 bits
            if w < 32 and tn not in ("TY_BOOL",):
                sg = tn in ("TY_I8", "TY_I16", "TY_CHAR")
                vals = [0, 1, (1 << (w - 1)) | (0xffffffff << w & 0xffffffff if sg else 0), 0xffffffff if sg else (1 << w) - 1]
            ty = alias(t) if al else t
            for nm, tree in (("if", ("if", "C", "A", "B")), ("while", ("while", "C", "A")), ("do-while", ("dowhile", "C", "A")), ("unless", ("unless", "C", "A")),
                             ("for", ("for", None, "C", "E", "A"))):
                one("%s:%s%s" % (nm, "alias-" if al else "", tn), tree, {"C": ty}, {"C": vals})
    for a, b in ((-2, 1), (-(1 << 63), -(1 << 63) + 1), ((1 << 63) - 2, (1 << 63) - 1), (5, 3), (0, 0), ((1 << 31) - 1, 1 << 31), (1 << 32, (1 << 32) + 2)):
        one("range:%d..%d" % (a, b), ("range", "L", "R", "S"), {"L": I64, "R": I64}, {"L": [a], "R": [b]})


def matches(c, p, err, one):
    """every comparison mode on every integer type of matched value and case value"""
    modes = ["ND_EQ", "ND_NE", "ND_LT", "ND_LE", "ND_GT", "ND_GE"]
    for tn in ("TY_I8", "TY_I16", "TY_I32", "TY_I64", "TY_U8", "TY_U16", "TY_U32", "TY_U64", "TY_CHAR", "TY_ENUM", "TY_BOOL"):
        w, sg = INT[tn]
        vals = [0, 1] if tn == "TY_BOOL" else [v for v in (-(1 << (w - 1)), -1, 0, 3, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << w) - 1)
                                             if (-(1 << (w - 1)) <= v < 1 << (w - 1) if sg else 0 <= v < 1 << w)]
        for kt in dict.fromkeys((tn, "TY_I32", "TY_I64")):
            kw, ks = INT[kt]
            kv = [v for v in vals if (-(1 << (kw - 1)) <= v < 1 << (kw - 1) if ks else 0 <= v < 1 << kw)]
            for m in modes:
                one("match-%s:%s/%s" % (m, tn, kt), ("match", "M", [(m, "K", "A")], "B"), {"M": T(tn), "K": T(kt)}, {"M": vals, "K": kv})
        one("match-alias:" + tn, ("match", "M", [("ND_LT", "K", "A")], "B"), {"M": alias(T(tn)), "K": alias(T(tn))}, {"M": vals, "K": vals})
    for ms in itertools.product(modes, modes):
        one("match-%s-%s" % ms, ("match", "M", [(ms[0], "K", "A"), (ms[1], "J", "B")], "D"), {}, {"M": [0, 1, 2, 3], "K": [1], "J": [2]})
        one("match-%s-%s-nodefault" % ms, ("match", "M", [(ms[0], "K", "A"), (ms[1], "J", "B")], None), {}, {"M": [0, 1, 2, 3], "K": [1], "J": [2]})
    one("match-empty", ("match", "M", [], None), {}, {"M": [0, 1]})
    one("match-only-default", ("match", "M", [], "D"), {}, {"M": [0, 1]})


def defers(c, p, err):
    """deferred statements run once, before the function returns, without changing the returned value"""
    f = p.fn("asm_gen_defer")
    wh = where(f)
    for n in (0, 1, 3):
        def build(w):
            return [(f, [w.cg(depth=0), list_of(w.I, [w.kid("D%d" % i) for i in range(n)])])]
        em = emit(c, p, err, build)[0]
        bad = None
        try:
            st = Machine(em.code, Kids({})).run()
            s = st[0]
            names = [x[2] for x in s.trace if x[0] == "child"]
            if len(st) != 1 or sorted(names) != sorted("D%d" % i for i in range(n)):
                bad = "deferred statements evaluated: %s" % names
            for g in ("rax", "rdx"):
                if s.r[g] is not S("init", g):
                    bad = "the return value register %%%s is %s afterwards" % (g, show(s.r[g]))
            s0 = fresh_state()
            for x in (0, 1):
                if lo(s.x[x], 64) is not lo(s0.x[x], 64):
                    bad = "the return value register %%xmm%d is %s afterwards" % (x, show(s.x[x]))
            for x in s.trace:
                if x[0] == "child" and (x[4] + 8 * x[5]) % 16:
                    bad = "a deferred statement runs with a misaligned stack"
        except AsmError as e:
            bad = str(e)
        c.ob("defer:%d" % n, bad is None, (bad or "once each, result kept") + ": " + em.text(), wh)

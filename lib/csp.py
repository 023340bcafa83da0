"""Vocabulary of this repository: AST nodes, diagnostics, kinds."""
from absint import *
from prog import AnalysisBroken, walk, calls, callee, plain


def fld(base, *names):
    """term for base->a->b ..."""
    for n in names:
        base = S("load", (("d", base), ("f", n)))
    return base


def floc(base, *names):
    for n in names[:-1]:
        base = fld(base, n)
    return (("d", base), ("f", names[-1]))


def pin(I, base, **kw):
    """fix fields of *base to known values"""
    for k, v in kw.items():
        if isinstance(v, int) and not isinstance(v, bool):
            I.set_eq(fld(base, k), v)
        I.mem[floc(base, k)] = v


NODE = S("var", "node")
CTX = S("var", "context")


class Errors:
    """what throwing each diagnostic does, derived by interpreting the thrower:
    counted as an error / counted as a warning / terminates compilation"""

    def __init__(self, prog):
        self.p = prog
        self.members = prog.enum_members("ERR_INTERNAL")
        self.byval = {v: n for n, v in self.members}
        self.sev = {}
        f = prog.fn("throw_error")
        for n, v in self.members:
            def panic(I, a, e):
                raise StopPath("panic")
            I = Interp(prog, hooks={"panic": panic, "<indirect>": lambda I, f, a, e: None}, opaque={"default_error_handler"})
            ctx = S("var", "context")

            def run(I):
                I.mem[floc(ctx, "emitted_errors")] = 0
                I.mem[floc(ctx, "emitted_warnings")] = 0
                try:
                    I.run_fn(f, [ctx, v, S("var", "tok"), Ptr((("s", "msg"),))])
                except StopPath as s:
                    I.mem[("end",)] = s.why
                return (I.mem[floc(ctx, "emitted_errors")], I.mem[floc(ctx, "emitted_warnings")], I.mem.get(("end",)))
            ps = I.explore(run)
            self.sev[n] = [p.ret for p in ps]

    def counts_error(self, n):
        return all(r[0] == 1 and r[1] == 0 and r[2] in (None, "panic") for r in self.sev[n])

    def counts_warning(self, n):
        return all(r[0] == 0 and r[1] == 1 and r[2] in (None, "panic") for r in self.sev[n])

    def is_error(self, val):
        n = self.byval.get(val)
        return n is not None and self.counts_error(n)

    def is_fatal(self, val):
        n = self.byval.get(val)
        return n is not None and all(r[2] == "panic" for r in self.sev[n])

    def hook(self):
        def h(I, a, e):
            ty = I.value(a[1])
            I.event("error", self.byval.get(ty, ty), a[3] if len(a) > 3 else None, I.pos, tuple(a[4:]))
            if isinstance(ty, int) and self.is_fatal(ty):
                raise StopPath("fatal:" + self.byval[ty])
            return None
        return h


def kinds(prog, first="ND_ADD"):
    return [(n, v) for n, v in prog.enum_members(first) if not n.endswith("KIND_LEN")]


def list_of(I, items, tag="list"):
    """a List_T holding exactly `items`"""
    l = I.new_heap(tag, True)
    arr = I.new_heap(tag + "_items")
    I.mem[l.loc + (("f", "size"),)] = len(items)
    I.mem[l.loc + (("f", "allocated"),)] = max(32, len(items))
    I.mem[l.loc + (("f", "items"),)] = Ptr(arr.loc + (("i", 0),))
    for i, x in enumerate(items):
        I.mem[arr.loc + (("i", i),)] = x
    return l


def list_items(I, l):
    l = I.value(l)
    loc = I.deref_loc(l)
    n = I.value(I.load(loc + (("f", "size"),)))
    arr = I.value(I.load(loc + (("f", "items"),)))
    if not isinstance(n, int):
        return None
    out = []
    for i in range(n):
        p = I.ptr_add(arr, i)
        out.append(I.load(I.deref_loc(p)))
    return out

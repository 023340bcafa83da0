"""Abstract interpreter over the resolved C AST.

Domain: constants, interned value-numbering terms (what a location held on entry,
an opaque call result, an operator applied to terms), pointers to abstract
locations, function addresses.  Conditions that the domain cannot decide split
the trace (trace partitioning); each partition carries the equalities and
disequalities with constants that its branches established, nothing else: there
is no solver.  Loops whose condition is undecided are unrolled up to a bound and
then left (the bound is part of every check's stated coverage).
Calls are followed through resolved callees (function-pointer tables included),
or recorded as events when a check declares them opaque.
"""
import struct
import sys
import time
from fractions import Fraction
import fval
from prog import AnalysisBroken

FNAME = {4: "float", 8: "double", 16: "long double"}

sys.setrecursionlimit(20000)

_intern = {}


class Sym:
    __slots__ = ("op", "a", "h")

    def __init__(self, op, a):
        self.op, self.a = op, a
        self.h = hash((op, a))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        return (S, (self.op,) + self.a)

    def __repr__(self):
        return show(self)


def S(op, *a):
    k = (op, a)
    s = _intern.get(k)
    if s is None:
        s = _intern[k] = Sym(op, a)
    return s


class Ptr:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.loc == o.loc

    def __hash__(self):
        return hash(("ptr", self.loc))

    def __repr__(self):
        return "&" + showloc(self.loc)


class FnV:
    __slots__ = ("q",)

    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return isinstance(o, FnV) and self.q == o.q

    def __hash__(self):
        return hash(("fn", self.q))

    def __repr__(self):
        return self.q.split("@")[0]


class Agg:
    """struct/array rvalue: explicit entries over a fallback"""
    __slots__ = ("d", "fb")

    def __init__(self, d, fb):
        self.d, self.fb = d, fb  # fb: 'zero' | 'uninit' | loc (entry contents)

    def __repr__(self):
        return "agg(%s)" % self.d


class VaList:
    __slots__ = ("args", "pos")

    def __init__(self, args):
        self.args, self.pos = list(args), 0


def show(v):
    if isinstance(v, Sym):
        o, a = v.op, v.a
        if o == "load":
            return showloc(a[0])
        if o == "var":
            return str(a[0])
        if o == "bin":
            return "(%s %s %s)" % (show(a[1]), a[0], show(a[2]))
        if o == "un":
            return "%s%s" % (a[0], show(a[1]))
        if o == "wrap":
            return "%s%d(%s)" % ("i" if a[1] else "u", a[0] * 8, show(a[2]))
        if o == "ret":
            return "%s#%s" % (a[0].split("@")[0], a[1])
        return "%s(%s)" % (o, ", ".join(show(x) for x in a))
    if isinstance(v, tuple):
        return "".join(x if isinstance(x, str) else "{%s}" % show(x) for x in v)
    return repr(v)


def showloc(loc):
    b = loc[0]
    if b[0] == "d":
        s = show(b[1])
        rest = loc[1:]
        if rest and rest[0][0] == "f":
            s = s + "->" + rest[0][1]
            rest = rest[1:]
        elif not rest:
            return "*" + s
    elif b[0] == "v":
        s = "%s" % (b[3] if len(b) > 3 else b[2])
        rest = loc[1:]
    elif b[0] == "s":
        s = repr(b[1])
        rest = loc[1:]
    else:
        s = "%s%s" % (b[0] if b[0] != "g" else "", b[1])
        rest = loc[1:]
    for e in rest:
        s += ("." + e[1]) if e[0] == "f" else "[%s]" % (show(e[1]),)
    return s


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class GotoEx(Exception):
    def __init__(self, n):
        self.n = n


class StopPath(Exception):
    """the path ends here (noreturn call, infeasible, bound reached)"""

    def __init__(self, why):
        self.why = why


DEADLINE = float("inf")


class Budget(Exception):
    pass


class Late(AnalysisBroken):
    pass


class Path:
    __slots__ = ("events", "ret", "end", "facts", "interp", "choices", "truncated", "conds", "x")

    def __repr__(self):
        return "<path end=%s ret=%s events=%s>" % (self.end, self.ret, self.events)


class Mem(dict):
    """contents by location, with the locations of each object at hand"""
    __slots__ = ("roots",)

    def __init__(self):
        self.roots = {}

    def __setitem__(self, k, v):
        if k not in self:
            r = self.roots.get(k[0])
            if r is None:
                r = self.roots[k[0]] = {}
            r[k] = None
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        dict.__delitem__(self, k)
        del self.roots[k[0]][k]

    def pop(self, k, *d):
        if k in self:
            del self.roots[k[0]][k]
        return dict.pop(self, k, *d)

    def update(self, o):
        for k, v in o.items():
            self[k] = v

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]


class Interp:
    def __init__(self, prog, hooks=None, opaque=(), max_loop=2, max_depth=60, max_paths=4000, max_steps=400000,
                 default_opaque=False, inline=None, loop_cap=5000):
        self.p = prog
        self.hooks = dict(BASE_HOOKS)
        self.hooks.update(hooks or {})
        self.opaque = set(opaque)
        self.inline = set(inline) if inline is not None else None
        self.max_loop, self.max_depth, self.max_paths, self.max_steps = max_loop, max_depth, max_paths, max_steps
        self.loop_cap = loop_cap
        self._flat = {}
        self._const_globals = None
        self._labels = {}
        self.fns_seen = set()
        self.pure = set()
        self.on_store = None
        self.on_load = None
        self.on_cond = None
        self.group_switch = False

    # ---------------- exploration
    def explore(self, run):
        """run(I) evaluates one path; returns the list of Paths"""
        paths = []
        self.oracle = []
        self.total_paths = 0
        while True:
            self.reset()
            p = Path()
            p.truncated = False
            try:
                p.ret = run(self)
                p.end = "return"
            except StopPath as e:
                p.ret, p.end = None, e.why
            p.events, p.facts, p.conds = self.events, self.eq, self.conds
            p.choices = list(self.trail)
            p.truncated = self.truncated
            if p.end != "infeasible":
                paths.append(p)
            self.total_paths += 1
            # next
            o = self.oracle
            del o[self.opos:]
            while o and o[-1][0] + 1 >= o[-1][1]:
                o.pop()
            if not o:
                return paths
            o[-1] = (o[-1][0] + 1, o[-1][1])
            if time.time() > DEADLINE:
                raise Late("the time for this check ran out")
            if self.total_paths >= self.max_paths:
                raise Budget("more than %d paths (choices: %s)" % (self.max_paths, [str(x)[:120] for x in self.trail[:8]]))

    def reset(self):
        self.opos = 0
        self.mem = Mem()
        self.fallback = Mem()
        self.events = []
        self.eq = {}
        self.neq = {}
        self.dom = {}
        self.truth = {}
        self.frames = []
        self.nframe = 0
        self.nheap = 0
        self.nret = 0
        self.steps = 0
        self.trail = []
        self.truncated = False
        self.loc_types = {}
        self.callstack = []
        self.pos = None
        self.conds = []
        self.gcopied = set()

    def choose(self, n, label=None):
        if n <= 1:
            return 0
        if self.opos < len(self.oracle):
            c = self.oracle[self.opos][0]
        else:
            self.oracle.append((0, n))
            c = 0
        self.opos += 1
        self.trail.append((label, c, self.pos))
        return c

    def event(self, *e):
        self.events.append(e)

    def stop(self, why):
        raise StopPath(why)

    # ---------------- values
    def fresh(self, name):
        self.nret += 1
        return S("ret", name, self.nret)

    def new_heap(self, tag="heap", zero=False):
        self.nheap += 1
        loc = (("h", self.nheap, tag),)
        self.fallback[loc] = "zero" if zero else "uninit"
        return Ptr(loc)

    def value(self, v):
        if isinstance(v, Sym):
            e = self.eq.get(v)
            return v if e is None else e
        return v

    def deref_loc(self, v, line=None):
        v = self.value(v)
        if isinstance(v, Ptr):
            return v.loc
        if isinstance(v, Sym):
            return (("d", v),)
        if isinstance(v, FnV):
            return (("g", v.q),)
        if v == 0:
            self.event("nullderef", self.pos)
            raise StopPath("nullderef")
        return (("d", S("const", v)),)

    def add_index(self, loc, i):
        i = self.value(i)
        if loc[-1][0] == "i":
            j = self.binop("+", loc[-1][1], i, None)
            base = loc[:-1]
        else:
            j, base = i, loc
        if j == 0 and isinstance(j, int) and base[-1][0] == "d":
            return base
        return base + (("i", j),)

    def ptr_add(self, p, i, neg=False):
        i = self.value(i)
        if neg:
            i = -i if isinstance(i, int) else S("un", "-", i)
        p = self.value(p)
        if isinstance(p, Ptr):
            return Ptr(self.add_index(p.loc, i)) if not (isinstance(i, int) and i == 0) else p
        if isinstance(p, Sym):
            if isinstance(i, int) and i == 0:
                return p
            return Ptr((("d", p), ("i", i)))
        if isinstance(p, int) and isinstance(i, int):
            return p + i
        return S("bin", "+", p, i)

    # ---------------- memory
    def load(self, loc, t=None):
        if self.on_load:
            r = self.on_load(self, loc, t)
            if r is not None:
                return r
        ty = self.p.types[t] if t is not None else None
        if ty and ty["k"] in ("rec", "union", "arr"):
            return self.load_agg(loc)
        m = self.mem
        if loc in m:
            return self.value(m[loc])
        b = loc[0]
        if b[0] == "s":
            txt = b[1]
            i = 0 if len(loc) == 1 else loc[1][1]
            if isinstance(i, int):
                if i < len(txt):
                    c = ord(txt[i])
                    return c - 256 if c > 127 else c
                if i == len(txt):
                    return 0
                self.event("oob", self.pos)
            return S("load", loc)
        # concrete string buffer
        base, last = (loc[:-1], loc[-1]) if loc[-1][0] == "i" else (loc, ("i", 0))
        for bl in (base, base + (("i", 0),)):
            sv = m.get(bl + (("$", ""),))
            if sv is not None and len(sv) <= 1 and (not sv or isinstance(sv[0], str)) and isinstance(last[1], int):
                txt = sv[0] if sv else ""
                if last[1] < len(txt):
                    return ord(txt[last[1]]) - (256 if ord(txt[last[1]]) > 127 else 0)
                if last[1] == len(txt):
                    return 0
        if ty and loc[-1][0] == "i" and isinstance(loc[-1][1], Sym):
            # symbolic index: could alias any stored element
            pre = loc[:-1]
            for k in m:
                if len(k) >= len(loc) and k[:len(pre)] == pre and k[len(pre)][0] == "i":
                    return S("select", loc, self.nret)
        if loc[-1][0] == "f":
            al = ty and self.p.alias_of.get((loc[-1][1], ty["k"], ty.get("sz"))) or self.p.alias.get(loc[-1][1])
            if al:
                pre = loc[:-1]
                for sib, (w, st) in al.items():
                    v = m.get(pre + (("f", sib),))
                    if v is not None:
                        return self.reinterpret(self.value(v), w, loc[-1][1], sib, st, ty)
            x = self.part_of(loc, ty)
            if x is None:
                x = self.nested(loc, ty)
            if x is not None:
                return x
        if loc[-1][0] == "i" and ty and ty.get("sz") and ty["k"] in ("int", "enum", "bool", "ptr", "flt"):
            x = self.held(loc, ty)
            if x is not None:
                return x
        if len(loc) > 2 and loc[-1][0] == "i" and loc[-2][0] == "f" and isinstance(loc[-1][1], int) and ty and ty.get("sz"):
            x = self.part_of(loc, ty)
            if x is not None:
                return x
        fb = self.lookup_fb(loc)
        if fb is not None:
            f, rest = fb
            if f == "zero":
                return 0
            if f == "uninit":
                return self.value(S("uninit", loc))
            return self.load_init(f + rest)
        return self.load_init(loc)

    def bits_in(self, v, t):
        """the bits of a value of type t, None where unknown"""
        if t["k"] == "flt":
            x = float(v) if isinstance(v, (int, float)) else self.fconst(v)
            return None if x is None else fval.image(x, FNAME[t["sz"]])
        return v & ((1 << 8 * t["sz"]) - 1) if isinstance(v, int) and t.get("sz") else None

    def bits_as(self, n, t):
        """the value of type t with these bits"""
        if t["k"] == "flt":
            return S("flt", fval.show(fval.from_image(n, FNAME[t["sz"]])))
        n &= (1 << 8 * t["sz"]) - 1
        if t.get("sg") and n >> (8 * t["sz"] - 1):
            n -= 1 << 8 * t["sz"]
        return n

    def part_of(self, loc, ty):
        """member or element of an aggregate which shares storage with a scalar"""
        if len(loc) < 3 or loc[-2][0] != "f" or not ty or not ty.get("sz"):
            return None
        for r, at, name in self.p.unions.get(loc[-2][1], ()):
            t = self.p.types[at]
            if (t["k"] == "arr") != (loc[-1][0] == "i") or t["k"] not in ("arr", "rec"):
                continue
            off = None
            if t["k"] == "arr":
                off = loc[-1][1] * ty["sz"] if isinstance(loc[-1][1], int) else None
            else:
                for n, mt, u, o, w in self.p.records.get(t["n"], {}).get("fl", ()):
                    if n == loc[-1][1]:
                        off = o // 8
            if off is None:
                continue
            for n, mt, u, o, w in r["fl"]:
                v = self.mem.get(loc[:-2] + (("f", n),))
                st = self.p.types[mt]
                if n == name or v is None or not st.get("sz"):
                    continue
                b = self.bits_in(self.value(v), st)
                if b is None:
                    return S("part", off, ty["sz"], self.value(v))
                have = 10 if st["k"] == "flt" and st["sz"] == 16 else st["sz"]
                return self.bits_as(b >> 8 * off, ty) if off + ty["sz"] <= have else S("uninit", loc)
        return None

    def nested(self, loc, ty):
        """a scalar of a union read where a scalar of another union inside of the same union was stored"""
        if not ty or not ty.get("sz") or ty["k"] not in ("int", "enum", "bool", "ptr", "flt"):
            return None
        isu = lambda t: t["k"] in ("rec", "union") and self.p.records.get(t.get("n"), {}).get("u")
        pre = loc[:-1]
        if len(loc) > 2 and loc[-2][0] == "f" and any(isu(self.p.types[at]) for r, at, n in self.p.unions.get(loc[-2][1], ())):
            pre = loc[:-2]
        elif not any(any(isu(self.p.types[mt]) for _, mt, *_ in r["fl"]) for r, at, n in self.p.unions.get(loc[-1][1], ())):
            return None
        n = len(pre)
        if n < 2:
            return None
        fit = [k for k in self.mem.roots.get(loc[0], ()) if len(k) > n and k[:n] == pre and all(x[0] == "f" and x[1] in self.p.unions for x in k[n:])]
        if len(fit) != 1:
            return None
        v = self.value(self.mem[fit[0]])
        for r, mt, name in self.p.unions[fit[0][-1][1]]:
            st = self.p.types[mt]
            if not st.get("sz") or st["k"] not in ("int", "enum", "bool", "ptr", "flt"):
                continue
            b = self.bits_in(v, st)
            if b is None:
                return None
            return self.bits_as(b, ty) if ty["sz"] <= st["sz"] else None
        return None

    def held(self, loc, ty):
        """a scalar read where an aggregate was stored bytewise: the union member stored last"""
        n = len(loc)
        fit = [k for k in self.mem.roots.get(loc[0], ()) if len(k) > n and k[:n] == loc and all(x[0] == "f" for x in k[n:])]
        if len(fit) != 1:
            return None
        ms = [mt for r, mt, name in self.p.unions.get(fit[0][-1][1], ())]
        v = self.value(self.mem[fit[0]])
        for mt in ms:
            st = self.p.types[mt]
            if not st.get("sz") or st["k"] not in ("int", "enum", "bool", "ptr", "flt"):
                continue
            if st["sz"] == ty["sz"] and st["k"] == ty["k"] and not isinstance(v, int):
                return v
            b = self.bits_in(v, st)
            if b is None:
                return v if st["sz"] == ty["sz"] else S("uninit", loc)
            return self.bits_as(b, ty) if ty["sz"] <= st["sz"] else S("uninit", loc)
        return None

    def reinterpret(self, v, w, name, sib, st, ty=None):
        """a union member read through another member (storage zeroed beforehand)"""
        k1 = self.p.types[st]
        if sib in self.p.alias and name in self.p.alias[sib]:
            w2, t2 = self.p.alias[sib][name]
        else:
            w2 = None
        if ty and ty.get("sz") and w >= 8:
            k2, w2 = ty, 8 * ty["sz"]
        else:
            k2 = self.p.types[t2]
        if "flt" in (k1["k"], k2["k"]) and k1["k"] != "rec" and k2["k"] != "rec":
            b = self.bits_in(v, k1) if k1.get("sz") else None
            if b is not None and k2.get("sz") and k2["sz"] <= k1["sz"]:
                return self.bits_as(b, k2)
            if isinstance(v, float):
                return v
        elif isinstance(v, int):
            v &= (1 << w) - 1
            v &= (1 << w2) - 1
            if k2["k"] in ("int", "enum") and k2.get("sg") and v >> (w2 - 1):
                v -= 1 << w2
            return v
        if w == w2 and k1["k"] == k2["k"]:
            return v
        return S("reinterpret", name, v) if isinstance(v, Sym) else v

    def lookup_fb(self, loc):
        fb = self.fallback
        if not fb:
            return None
        for n in range(len(loc), 0, -1):
            f = fb.get(loc[:n])
            if f is not None:
                return f, loc[n:]
        return None

    def load_init(self, loc):
        b = loc[0]
        if b[0] == "g":
            v = self.global_value(loc)
            if v is not None:
                return v
        if b[0] == "v":
            return self.value(S("uninit", loc))
        return self.value(S("load", loc))

    def load_agg(self, loc):
        d = {}
        n = len(loc)
        for k in self.mem.roots.get(loc[0], ()):
            if len(k) > n and k[:n] == loc:
                d[k[n:]] = self.mem[k]
        fbd = {}
        for k in self.fallback.roots.get(loc[0], ()):
            if len(k) > n and k[:n] == loc:
                fbd[k[n:]] = self.fallback[k]
        f = self.lookup_fb(loc)
        if f is None:
            fb = loc
        elif isinstance(f[0], str):
            fb = f[0]
        else:
            fb = f[0] + f[1]
        if loc in self.mem and not d:
            return self.mem[loc]
        a = Agg(d, fb)
        if fbd:
            a.d = dict(d)
            for k, v in fbd.items():
                a.d[("fb",) + k] = v
        return a

    def clear(self, loc):
        n = len(loc)
        for m in (self.mem, self.fallback):
            for k in [k for k in m.roots.get(loc[0], ()) if len(k) >= n and k[:n] == loc]:
                del m[k]

    def store(self, loc, v, t=None):
        if self.on_store:
            self.on_store(self, loc, v, t)
        if isinstance(v, Agg):
            self.clear(loc)
            self.fallback[loc] = v.fb
            for k, x in v.d.items():
                if k and k[0] == "fb":
                    self.fallback[loc + k[1:]] = x
                else:
                    self.mem[loc + k] = x
            return
        if loc[-1][0] == "i" and isinstance(loc[-1][1], Sym):
            # weak update: kill known siblings
            pre = loc[:-1]
            for k in [k for k in self.mem.roots.get(loc[0], ()) if len(k) > len(pre) and k[:len(pre)] == pre and k[len(pre)][0] == "i" and k != loc]:
                del self.mem[k]
            self.nret += 1
        ty = self.p.types[t] if t is not None else None
        if ty and ty["k"] in ("rec", "union") and isinstance(v, Sym):
            self.clear(loc)
        if loc[-1][0] == "f":
            al = self.p.alias.get(loc[-1][1])
            if al:
                pre = loc[:-1]
                for sib in al:
                    self.mem.pop(pre + (("f", sib),), None)
        self.mem[loc] = v
        # writing a byte of a string buffer invalidates the cached text
        pre = loc[:-1] if loc[-1][0] == "i" else loc
        sk = pre + (("$", ""),)
        if sk in self.mem:
            self._poke(sk, loc[-1][1] if loc[-1][0] == "i" else 0, v)
        sk = pre + (("i", 0), ("$", ""))
        if sk in self.mem:
            self._poke(sk, loc[-1][1] if loc[-1][0] == "i" else 0, v)

    def _poke(self, sk, i, v):
        sv = self.mem[sk]
        if isinstance(i, int) and isinstance(v, int) and len(sv) <= 1 and (not sv or isinstance(sv[0], str)):
            txt = sv[0] if sv else ""
            if v == 0 and i <= len(txt):
                self.mem[sk] = (txt[:i],) if i else ()
                return
            if i < len(txt):
                self.mem[sk] = (txt[:i] + chr(v & 255) + txt[i + 1:],)
                return
            if i == len(txt):
                self.mem[sk] = (txt + chr(v & 255),)
                return
        del self.mem[sk]

    # ---------------- globals
    def const_globals(self):
        if self._const_globals is None:
            self._const_globals = getattr(self.p, "_const_globals", None)
        if self._const_globals is None:
            written = set()
            from prog import walk
            for f in self.p.fns.values():
                for n in walk(f.body):
                    tgt = None
                    if n["k"] == "asn":
                        tgt = n["a"]
                    elif n["k"] == "un" and n["op"] in ("++", "--", "p++", "p--", "&"):
                        tgt = n["e"]
                    while tgt is not None and tgt["k"] in ("mem", "idx"):
                        if tgt["k"] == "mem" and tgt["ar"]:
                            tgt = None
                            break
                        b = tgt["b"]
                        if tgt["k"] == "idx":
                            if b["k"] == "decay":
                                b = b["e"]
                            else:
                                tgt = None
                                break
                        tgt = b
                    if tgt is not None and tgt["k"] == "ref" and tgt.get("g"):
                        if n["k"] == "un" and n["op"] == "&":
                            g = self.p.globals.get(tgt["n"])
                            if g and (g["const"]):
                                continue
                        written.add(tgt["n"])
            self._const_globals = {q for q, g in self.p.globals.items() if "i" in g and (q not in written)}
            self.p._const_globals = self._const_globals
        return self._const_globals

    def global_value(self, loc):
        q = loc[0][1]
        g = self.p.globals.get(q)
        if g is None or not self.initial and q not in self.const_globals() or "i" not in g:
            return None
        base = (loc[0],)
        if g["i"]["k"] == "str":
            if len(loc) == 1 and self.p.types[g["t"]]["k"] == "arr":
                return None
            if len(loc) == 2 and loc[1][0] == "i" and isinstance(loc[1][1], int):
                t = g["i"]["v"]
                c = ord(t[loc[1][1]]) if loc[1][1] < len(t) else 0
                return c - 256 if c > 127 else c
        if base not in self._ginit:
            # objects created by the initialiser get names of their own, shared by every path
            save = (self.mem, self.fallback, self.nheap)
            self.mem, self.fallback, self.nheap = Mem(), Mem(), Interp._gheap
            try:
                v = self.const_init(g["i"])
                self._ginit[base] = (v, self.mem, self.fallback)
                Interp._gheap = self.nheap
            finally:
                self.mem, self.fallback, self.nheap = save
        v, gm, gf = self._ginit[base]
        if gm and base not in self.gcopied:
            self.gcopied.add(base)
            self.mem.update(gm)
            self.fallback.update(gf)
        rest = loc[1:]
        if not rest:
            return v if not isinstance(v, Agg) else None
        if isinstance(v, Agg):
            if rest in v.d:
                return v.d[rest]
            if len(rest) and rest[0][0] == "i" and isinstance(rest[0][1], Sym):
                return None
            if any(e[0] == "i" and isinstance(e[1], Sym) for e in rest):
                return None
            return 0
        if isinstance(v, tuple):
            # char array initialised with a string
            return None
        return None

    initial = False     # globals start with their initialisers, even where written elsewhere
    _gheap = 10 ** 6
    _ginit = {}

    def const_init(self, e):
        """evaluate a global initialiser"""
        save = (self.frames, self.callstack)
        self.frames = [Frame(-1, None)]
        try:
            return self.rv(e)
        finally:
            self.frames, self.callstack = save

    # ---------------- conditions
    def assume(self, c, b):
        """c: value; record that its truth is b.  False if contradictory."""
        t = self.test(c)
        if t is not None:
            return t == b
        if c.op == "un" and c.a[0] == "!":
            return self.assume(c.a[1], not b)
        if c.op == "bin" and c.a[0] in ("==", "!="):
            x, y = self.value(c.a[1]), self.value(c.a[2])
            if isinstance(x, (int, Ptr, FnV)) and isinstance(y, Sym):
                x, y = y, x
            pos = (c.a[0] == "==") == b
            if isinstance(x, Sym):
                if not isinstance(y, Sym):
                    if pos:
                        self.set_eq(x, y)
                    else:
                        self.neq.setdefault(x, set()).add(y)
                        self._shrink(x)
                else:
                    self.truth[S("bin", "==", x, y)] = pos
                    self.truth[S("bin", "==", y, x)] = pos
                return True
        if c.op == "bin" and c.a[0] in ("<", ">", "<=", ">="):
            self.truth[self._canon(c)[0]] = self._canon(c)[1] == b
            return True
        self.truth[c] = b
        if not b:
            self.set_eq(c, 0)
        else:
            self.neq.setdefault(c, set()).add(0)
            self._shrink(c)
        return True

    def set_eq(self, x, v):
        self.eq[x] = v

    def _shrink(self, x):
        d = self.dom.get(x)
        if d is not None:
            d = [v for v in d if v not in self.neq.get(x, ())]
            if not d:
                raise StopPath("infeasible")
            self.dom[x] = d
            if len(d) == 1:
                self.eq[x] = d[0]

    def set_dom(self, x, vals):
        self.dom[x] = list(vals)
        if len(self.dom[x]) == 1:
            self.eq[x] = self.dom[x][0]

    def _canon(self, c):
        """ordering comparison -> (canonical '<' term, polarity)"""
        o, a, b = c.a[0], c.a[1], c.a[2]
        if o == "<":
            return S("bin", "<", a, b), True
        if o == ">":
            return S("bin", "<", b, a), True
        if o == "<=":
            return S("bin", "<", b, a), False
        return S("bin", "<", a, b), False

    def test(self, c):
        """truth of a value in this partition: True/False/None"""
        c = self.value(c)
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return c != 0
        if isinstance(c, (Ptr, FnV)):
            return True
        if isinstance(c, Agg):
            return None
        if isinstance(c, Sym):
            if c in self.truth:
                return self.truth[c]
            n = self.neq.get(c)
            if n and 0 in n:
                return True
            if c.op == "un" and c.a[0] == "!":
                t = self.test(c.a[1])
                return None if t is None else not t
            if c.op == "flt":
                return self.fconst(c) != 0
            if c.op == "bin" and c.a[0] in ("==", "!="):
                r = self.test_eq(c.a[1], c.a[2])
                if r is None:
                    return None
                return r if c.a[0] == "==" else not r
            if c.op == "bin" and c.a[0] in ("<", ">", "<=", ">="):
                a, b = self.value(c.a[1]), self.value(c.a[2])
                if isinstance(a, int) and isinstance(b, int):
                    return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[c.a[0]]
                if a is b and isinstance(a, Sym):
                    return c.a[0] in ("<=", ">=")
                k, pol = self._canon(S("bin", c.a[0], a, b))
                if k in self.truth:
                    return self.truth[k] == pol
                lo, hi = self.bounds(a)
                lo2, hi2 = self.bounds(b)
                o = c.a[0]
                if o == "<" and hi is not None and lo2 is not None and hi < lo2: return True
                if o == "<" and lo is not None and hi2 is not None and lo >= hi2: return False
                if o == ">" and lo is not None and hi2 is not None and lo > hi2: return True
                if o == ">" and hi is not None and lo2 is not None and hi <= lo2: return False
                if o == "<=" and hi is not None and lo2 is not None and hi <= lo2: return True
                if o == "<=" and lo is not None and hi2 is not None and lo > hi2: return False
                if o == ">=" and lo is not None and hi2 is not None and lo >= hi2: return True
                if o == ">=" and hi is not None and lo2 is not None and hi < lo2: return False
        return None

    def bounds(self, v):
        if isinstance(v, int):
            return v, v
        if isinstance(v, Sym):
            d = self.dom.get(v)
            if d and all(isinstance(x, int) for x in d):
                return min(d), max(d)
            lo = hi = None
            for k, b in self.truth.items():
                if k.op == "bin" and k.a[0] == "<":
                    x, y = k.a[1], k.a[2]
                    if x is v and isinstance(y, int):
                        if b: hi = y - 1 if hi is None else min(hi, y - 1)
                        else: lo = y if lo is None else max(lo, y)
                    elif y is v and isinstance(x, int):
                        if b: lo = x + 1 if lo is None else max(lo, x + 1)
                        else: hi = x if hi is None else min(hi, x)
            n = self.neq.get(v)
            if n and lo is not None:
                while lo in n: lo += 1
            return lo, hi
        return None, None

    def test_eq(self, a, b):
        a, b = self.value(a), self.value(b)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a is b:
                return True
            t = self.truth.get(S("bin", "==", a, b))
            if t is not None:
                return t
            da, db = self.dom.get(a), self.dom.get(b)
            if da is not None and db is not None and not set(da) & set(db):
                return False
            return None
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(b, Sym):
                a, b = b, a
            n = self.neq.get(a)
            if n and b in n:
                return False
            d = self.dom.get(a)
            if d is not None and b not in d:
                return False
            if a.op == "flt" and isinstance(b, int):
                return self.fconst(a) == b
            if a.op == "bin" and a.a[0] in ("==", "!=", "<", ">", "<=", ">=") and isinstance(b, int):
                t = self.test(a)
                if t is not None:
                    return (1 if t else 0) == b
                if b not in (0, 1):
                    return False
            if isinstance(b, int):
                lo, hi = self.bounds(a)
                if lo is not None and b < lo or hi is not None and b > hi:
                    return False
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a == b:
                return True
            if a.loc[0][0] == "s" and b.loc[0][0] == "s":
                return False
            if a.loc[0][0] in ("v", "h", "g") and b.loc[0][0] in ("v", "h", "g"):
                return False
            return None
        if isinstance(a, (Ptr, FnV)) and b == 0 or isinstance(b, (Ptr, FnV)) and a == 0:
            return False
        return a == b

    def branch(self, c, label=None):
        if self.on_cond:
            self.on_cond(self, c)
        t = self.test(c)
        if t is not None:
            return t
        b = self.choose(2, label or c) == 0
        self.conds.append((c, b))
        if isinstance(c, Sym):
            if not self.assume(c, b):
                raise StopPath("infeasible")
        return b

    # ---------------- expressions
    def step(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("more than %d steps on one path" % self.max_steps)
        if not self.steps & 1023 and time.time() > DEADLINE:
            raise Late("the time for this check ran out")

    def lv(self, e):
        k = e["k"]
        if k == "ref":
            if e.get("g"):
                return (("g", e["n"]),)
            fr = self.frames[-1]
            l = fr.vars.get(e["id"])
            if l is None:
                l = fr.vars[e["id"]] = (("v", fr.n, e["id"], e["n"]),)
            return l
        if k == "mem":
            if e["ar"]:
                b = self.rv(e["b"])
                self.pos = (self.frames[-1].fn, e["l"])
                return self.deref_loc(b) + (("f", e["n"]),)
            b = e["b"]
            if b["k"] in ("call", "cond", "asn", "vaarg", "sexpr"):
                v = self.rv(b)
                if isinstance(v, Agg):
                    h = self.new_heap("tmp")
                    self.store(h.loc, v)
                    return h.loc + (("f", e["n"]),)
                return (("d", S("rv", v)), ("f", e["n"]))
            return self.lv(b) + (("f", e["n"]),)
        if k == "idx":
            b, i = e["b"], e["i"]
            bt = self.p.types[b["t"]]
            if bt["k"] != "ptr" and self.p.types[i["t"]]["k"] == "ptr":
                b, i = i, b
            if b["k"] == "decay":
                l = self.lv(b["e"])
                return l + (("i", self.value(self.rv(i))),)
            p = self.rv(b)
            iv = self.rv(i)
            self.pos = (self.frames[-1].fn, e["l"])
            q = self.ptr_add(p, iv)
            return self.deref_loc(q)
        if k == "un" and e["op"] == "*":
            b = self.rv(e["e"])
            self.pos = (self.frames[-1].fn, e["l"])
            return self.deref_loc(b)
        if k == "clit":
            h = self.new_heap("clit")
            self.store(h.loc, self.rv(e["e"]))
            return h.loc
        if k == "str":
            return (("s", e["v"]),)
        if k == "cast":
            return self.lv(e["e"])
        if k == "decay":
            return self.lv(e["e"])
        v = self.rv(e)
        h = self.new_heap("tmp")
        self.store(h.loc, v)
        return h.loc

    def rv(self, e):
        k = e["k"]
        m = DISPATCH.get(k)
        if m is None:
            return self.fresh("unk:" + k)
        return m(self, e)

    def x_int(self, e):
        return int(e["v"])

    def x_flt(self, e):
        return S("flt", e["v"])

    def x_str(self, e):
        return Ptr((("s", e["v"]),))

    def x_fn(self, e):
        return FnV(e["n"])

    def x_ref(self, e):
        return self.load(self.lv(e), e["t"])

    def x_mem(self, e):
        return self.load(self.lv(e), e["t"])

    def x_decay(self, e):
        l = self.lv(e["e"])
        if l[0][0] == "s":
            return Ptr(l)
        return Ptr(l + (("i", 0),))

    def x_zero(self, e):
        return 0

    def x_unk(self, e):
        return self.fresh("unk:" + e.get("n", "?"))

    def x_sexpr(self, e):
        v = None
        s = e["s"]
        for c in s["b"]:
            if c["k"] == "expr":
                v = self.rv(c["e"])
            else:
                self.stmt(c)
        return v

    def x_clit(self, e):
        l = self.lv(e)
        return self.load(l, e["t"])

    def x_init(self, e):
        d = {}
        t = self.p.types[e["t"]]
        for key, sub in e["i"]:
            pe = ("i", key) if isinstance(key, int) else ("f", key)
            st = self.p.types[sub["t"]]
            if sub["k"] == "str" and st["k"] == "arr" and not self.member_is_ptr(t, key):
                d[(pe, ("$", ""))] = (sub["v"],) if sub["v"] else ()
                continue
            v = self.rv(sub)
            if isinstance(v, Agg):
                for k2, v2 in v.d.items():
                    if k2 and k2[0] == "fb":
                        d[("fb", pe) + k2[1:]] = v2
                    else:
                        d[(pe,) + k2] = v2
                if v.fb != "zero":
                    d[("fb", pe)] = v.fb
            else:
                d[(pe,)] = v
        return Agg(d, "zero")

    def member_is_ptr(self, t, key):
        """is element / field `key` of aggregate type t a pointer?"""
        if t["k"] == "arr":
            return self.p.types[t["e"]]["k"] == "ptr"
        r = self.p.records.get(t.get("n"))
        for f in (r or {}).get("fl", ()):
            if f[0] == key:
                return self.p.types[f[1]]["k"] == "ptr"
        return False

    def x_cast(self, e):
        v = self.rv(e["e"])
        ck = e["ck"]
        if ck in ("NullToPointer",):
            return 0
        if ck in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            t = self.p.types[e["t"]]
            if ck != "IntegralCast" or t["k"] == "bool":
                r = self.test(v)
                if r is not None:
                    return 1 if r else 0
                if isinstance(v, Sym) and v.op == "bin" and v.a[0] in CMP:
                    return v
                if isinstance(v, Sym) and v.op == "un" and v.a[0] == "!":
                    return v
                return self.norm_ne0(v)
            return self.wrap(v, t, self.p.types[e["e"]["t"]])
        if ck == "ToVoid":
            return None
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
            t = self.p.types[e["t"]]
            s = self.p.types[e["e"]["t"]]
            tn = FNAME.get(t["sz"]) if t["k"] == "flt" else None
            if isinstance(v, int) and ck == "IntegralToFloating":
                return S("flt", fval.show(fval.rnd(Fraction(v) if v else 0.0, tn)))
            x = self.fconst(v) if s["k"] == "flt" else None
            if x is not None:
                if tn:
                    return S("flt", fval.show(fval.rnd(x, tn)))
                i = fval.to_int(x)
                if i is not None and t.get("sz"):
                    b = 8 * t["sz"]
                    if (-(1 << (b - 1)) <= i < 1 << (b - 1)) if t.get("sg") else -1 < x and 0 <= i < 1 << b:
                        return i
            return S("conv", t["s"].replace("const ", ""), s["s"].replace("const ", ""), v)
        return v

    def norm_ne0(self, v):
        return S("bin", "!=", v, 0)

    def wrap(self, v, t, st=None):
        """integer conversion to type t"""
        if t["k"] == "ptr" or t["k"] == "flt":
            return v
        sz, sg = t.get("sz"), t.get("sg", False)
        if sz is None:
            return v
        if isinstance(v, int):
            bits = sz * 8
            v &= (1 << bits) - 1
            if sg and v >> (bits - 1):
                v -= 1 << bits
            return v
        if isinstance(v, Sym):
            if st is not None and st.get("sz") is not None and st["k"] in ("int", "enum", "bool"):
                ssz, ssg = st["sz"], st.get("sg", False)
                if (ssg == sg and ssz <= sz) or (not ssg and sg and ssz < sz):
                    return v
            if st is not None and st["k"] == "ptr":
                return v
            if v.op == "bin" and v.a[0] in CMP or v.op == "un" and v.a[0] == "!":
                return v
            if t["k"] == "enum" or (st is not None and st["k"] == "enum"):
                return v
            if v.op == "wrap" and v.a[0] == sz and v.a[1] == sg:
                return v
            if v.op == "wrap" and v.a[0] == sz:
                return self.wrap(v.a[2], t, None)
            d = self.dom.get(v)
            if d is not None:
                lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if sg else (0, (1 << (8 * sz)) - 1)
                if all(isinstance(x, int) and lo <= x <= hi for x in d):
                    return v
            return S("wrap", sz, sg, v)
        return v

    def x_un(self, e):
        op = e["op"]
        if op == "&":
            s = e["e"]
            if s["k"] == "fn":
                return FnV(s["n"])
            l = self.lv(s)
            if l[0][0] == "d" and len(l) == 1:
                return l[0][1]
            return Ptr(l)
        if op == "*":
            if self.p.types[e["t"]]["k"] == "fn":
                return self.rv(e["e"])
            return self.load(self.lv(e), e["t"])
        if op in ("++", "--", "p++", "p--"):
            l = self.lv(e["e"])
            old = self.load(l, e["e"]["t"])
            t = self.p.types[e["t"]]
            neg = "-" in op
            if t["k"] == "ptr":
                new = self.ptr_add(old, 1, neg)
            else:
                new = self.binop("-" if neg else "+", old, 1, t)
            self.store(l, new, e["t"])
            return old if op[0] == "p" else new
        v = self.rv(e["e"])
        t = self.p.types[e["t"]]
        if op == "!":
            r = self.test(v)
            if r is not None:
                return 0 if r else 1
            if isinstance(v, Sym) and v.op == "bin" and v.a[0] == "==":
                return S("bin", "!=", v.a[1], v.a[2])
            if isinstance(v, Sym) and v.op == "bin" and v.a[0] == "!=":
                return S("bin", "==", v.a[1], v.a[2])
            return S("un", "!", v)
        if op == "+":
            return v
        if isinstance(v, int):
            r = -v if op == "-" else ~v
            return self.wrap(r, t)
        if isinstance(v, Sym) and v.op == "flt" and op == "-":
            return S("flt", fval.show(fval.neg(self.fconst(v))))
        return S("un", op, v)

    def x_bin(self, e):
        op = e["op"]
        if op == "&&":
            if not self.branch(self.rv(e["a"])):
                return 0
            return 1 if self.branch(self.rv(e["b"])) else 0
        if op == "||":
            if self.branch(self.rv(e["a"])):
                return 1
            return 1 if self.branch(self.rv(e["b"])) else 0
        if op == ",":
            self.rv(e["a"])
            return self.rv(e["b"])
        a = self.rv(e["a"])
        b = self.rv(e["b"])
        ta, tb = self.p.types[e["a"]["t"]], self.p.types[e["b"]["t"]]
        if op in ("+", "-"):
            if ta["k"] == "ptr" and tb["k"] != "ptr":
                return self.ptr_add(a, b, op == "-")
            if tb["k"] == "ptr" and ta["k"] != "ptr":
                return self.ptr_add(b, a)
            if ta["k"] == "ptr" and tb["k"] == "ptr":
                a, b = self.value(a), self.value(b)
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    la, ia = (a.loc[:-1], a.loc[-1][1]) if a.loc[-1][0] == "i" else (a.loc, 0)
                    lb, ib = (b.loc[:-1], b.loc[-1][1]) if b.loc[-1][0] == "i" else (b.loc, 0)
                    if la == lb:
                        return self.binop("-", ia, ib, None)
        return self.binop(op, a, b, self.p.types[e["t"]], ta)

    def fconst(self, v):
        """value of a floating point constant, or None"""
        v = self.value(v)
        if isinstance(v, Sym) and v.op == "flt":
            try:
                return fval.parse(v.a[0])
            except ValueError:
                return None
        return float(v) if isinstance(v, float) else None

    def binop(self, op, a, b, t, opt=None):
        a, b = self.value(a), self.value(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("<", ">", "<=", ">=", "-"):
            # positions in one object
            (la, ia), (lb, ib) = [(x.loc[:-1], x.loc[-1][1]) if x.loc[-1][0] == "i" else (x.loc, 0) for x in (a, b)]
            if la == lb and isinstance(ia, int) and isinstance(ib, int):
                return {"<": int(ia < ib), ">": int(ia > ib), "<=": int(ia <= ib), ">=": int(ia >= ib), "-": ia - ib}[op]
        # an address kept in an integer (uintptr_t)
        if isinstance(a, Ptr) and isinstance(b, int) and op in "+-" and (a.loc[-1][0] == "i" or a.loc[0][0] in "sh"):
            return self.ptr_add(a, b, op == "-")
        if isinstance(b, Ptr) and isinstance(a, int) and op == "+" and (b.loc[-1][0] == "i" or b.loc[0][0] in "sh"):
            return self.ptr_add(b, a)
        if op in CMP and isinstance(a, Sym) and isinstance(b, Sym):
            x, y = self.fconst(a), self.fconst(b)
            if x is not None and y is not None:
                return fval.compare(op, x, y)
        if op in ("+", "-", "*", "/") and t is not None and t["k"] == "flt" and isinstance(a, Sym) and isinstance(b, Sym):
            x, y = self.fconst(a), self.fconst(b)
            if x is not None and y is not None:
                return S("flt", fval.show(fval.binary(op, x, y, FNAME[t["sz"]])))
        if isinstance(a, Ptr) and isinstance(b, (Ptr, int)) and op in ("<", ">", "<=", ">="):
            # one fixed order of all objects; small integers lie below
            x, y = self.place(a), self.place(b)
            if x is not None and y is not None:
                return int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        if isinstance(a, int) and isinstance(b, Ptr) and op in ("<", ">", "<=", ">="):
            return self.binop({"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op], b, a, t)
        if isinstance(a, int) and isinstance(b, int):
            r = None
            if op == "+": r = a + b
            elif op == "-": r = a - b
            elif op == "*": r = a * b
            elif op in ("/", "%"):
                if b == 0:
                    self.event("divzero", self.pos)
                    raise StopPath("divzero")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                r = q if op == "/" else a - q * b
            elif op == "<<": r = a << b if 0 <= b < 256 else 0
            elif op == ">>": r = a >> b if 0 <= b < 256 else 0
            elif op == "&": r = a & b
            elif op == "|": r = a | b
            elif op == "^": r = a ^ b
            elif op == "==": return 1 if a == b else 0
            elif op == "!=": return 1 if a != b else 0
            elif op == "<": return 1 if a < b else 0
            elif op == ">": return 1 if a > b else 0
            elif op == "<=": return 1 if a <= b else 0
            elif op == ">=": return 1 if a >= b else 0
            if r is not None:
                return self.wrap(r, t) if t is not None and t["k"] in ("int", "bool", "enum") else r
        if op in ("==", "!="):
            r = self.test_eq(a, b)
            if r is not None:
                return 1 if r == (op == "==") else 0
            if b == 0 and isinstance(a, Sym) and isinstance(b, int):
                if a.op == "bin" and a.a[0] in CMP or a.op == "un" and a.a[0] == "!":
                    return a if op == "!=" else S("un", "!", a)
            return S("bin", op, a, b)
        if op in ("<", ">", "<=", ">="):
            s = S("bin", op, a, b)
            r = self.test(s)
            if r is not None:
                return 1 if r else 0
            if opt is not None and opt["k"] == "int" and not opt.get("sg") and isinstance(b, int) and isinstance(a, Sym):
                if op == "<" and b == 0: return 0
                if op == ">=" and b == 0: return 1
                if op == ">" and b == 0: return self.binop("!=", a, 0, t)
                if op == "<" and b == 1: return self.binop("==", a, 0, t)
            return s
        # light algebra on integer terms
        if isinstance(b, int):
            if op in ("+", "-", "|", "^", "<<", ">>") and b == 0:
                return a
            if op == "*" and b == 1:
                return a
            if op == "*" and b == 0 or op == "&" and b == 0:
                return 0
            if op in ("+", "-"):
                k = b if op == "+" else -b
                if isinstance(a, Sym) and a.op == "bin" and a.a[0] == "+" and isinstance(a.a[2], int):
                    k += a.a[2]
                    a = a.a[1]
                if k == 0:
                    return a
                return S("bin", "+", a, k)
        if isinstance(a, int):
            if op in ("+", "|", "^") and a == 0:
                return b
            if op == "*" and a == 1:
                return b
            if op in ("*", "&") and a == 0:
                return 0
            if op == "+" :
                return self.binop("+", b, a, t)
            if op == "*":
                return S("bin", "*", b, a)
        if op == "-" and a is b and isinstance(a, Sym) and a.op != "flt":
            return 0
        return S("bin", op, a, b)

    def place(self, v):
        """sort key of an address, None where unknown"""
        if isinstance(v, int):
            return (-1, "", v, 0) if 0 <= v < 1 << 32 else None
        l = v.loc
        if l[0][0] == "d" or any(k[0] == "i" and not isinstance(k[1], int) for k in l[1:]):
            return None
        return (0, repr(l[0]), sum(k[1] for k in l[1:] if k[0] == "i"), len(l))

    def x_asn(self, e):
        op = e["op"]
        if op == "":
            # C does not order the two sides; evaluate the value first
            v = self.rv(e["b"])
            l = self.lv(e["a"])
            self.store(l, v, e["a"]["t"])
            return v
        l = self.lv(e["a"])
        old = self.load(l, e["a"]["t"])
        b = self.rv(e["b"])
        t = self.p.types[e["t"]]
        if t["k"] == "ptr":
            v = self.ptr_add(old, b, op == "-")
        else:
            ct = self.p.types[e["ct"]] if "ct" in e else t
            v = self.wrap(self.binop(op, old, b, ct), t, ct)
        self.store(l, v, e["t"])
        return v

    def x_cond(self, e):
        if self.branch(self.rv(e["c"])):
            return self.rv(e["a"])
        return self.rv(e["b"])

    def x_gcond(self, e):
        v = self.rv(e["a"])
        if self.branch(v):
            return v
        return self.rv(e["b"])

    def x_idx(self, e):
        return self.load(self.lv(e), e["t"])

    def x_vaarg(self, e):
        l = self.lv(e["e"])
        v = None
        while l:
            v = self.mem.get(l)
            if v is not None:
                break
            l = l[:-1]
        if isinstance(v, Ptr):      # a va_list parameter
            l, v = v.loc, None
            while l:
                v = self.mem.get(l)
                if v is not None:
                    break
                l = l[:-1]
        if isinstance(v, VaList):
            if v.pos < len(v.args):
                v.pos += 1
                return v.args[v.pos - 1]
        return self.fresh("va_arg")

    def x_call(self, e):
        self.step(e)
        f = self.value(self.rv(e["f"]))
        args = [self.rv(a) for a in e["a"]]
        return self.call(f, args, e)

    def call(self, f, args, e=None):
        f = self.value(f)
        self.pos = (self.frames[-1].fn if self.frames else None, e["l"] if e else 0)
        if not isinstance(f, FnV):
            h = self.hooks.get("<indirect>")
            if h:
                r = h(self, f, args, e)
                if r is not NotImplemented:
                    return r
            if isinstance(f, int):
                self.event("nullcall", self.pos)
                raise StopPath("nullcall")
            self.event("icall", f, tuple(args), self.pos)
            return self.fresh("icall")
        q = f.q
        name = q.split("@")[0]
        h = self.hooks.get(q) or self.hooks.get(name)
        if h:
            r = h(self, args, e)
            if r is not NotImplemented:
                return r
        fn = self.p.fns.get(q)
        if fn is None and q.split("@")[0] in self.p.by_name and "@" in q:
            fn = None
        if fn is None or name in self.opaque or (self.inline is not None and name not in self.inline) or len(self.frames) > self.max_depth:
            d = self.p.decls.get(q)
            self.event("call", name, tuple(args), self.pos)
            if d and d["nr"] or fn is not None and fn.noreturn:
                raise StopPath("noreturn:" + name)
            self.havoc(args)
            if name in self.pure:
                return self.value(S("call", name, *[x if not isinstance(x, (Agg, VaList)) else "agg" for x in args]))
            return self.fresh(name)
        return self.run_fn(fn, args)

    def havoc(self, args):
        for a in args:
            if isinstance(a, Ptr) and a.loc[0][0] == "v":
                l = a.loc[:-1] if a.loc[-1] == ("i", 0) else a.loc
                self.clear(l)
                self.nret += 1
                self.fallback[l] = (("d", S("havoc", self.nret)),)

    def run_fn(self, fn, args):
        self.fns_seen.add(fn.q)
        self.nframe += 1
        fr = Frame(self.nframe, fn)
        for i, p in enumerate(fn.params):
            loc = (("v", fr.n, p["id"], p["n"]),)
            fr.vars[p["id"]] = loc
            if i < len(args):
                v = args[i]
                if isinstance(v, Agg):
                    self.frames.append(fr)
                    self.store(loc, v, p["t"])
                    self.frames.pop()
                else:
                    self.mem[loc] = v
        fr.va = args[len(fn.params):]
        self.frames.append(fr)
        try:
            self.body(fn)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.frames.pop()

    def body(self, fn):
        b = fn.body
        try:
            self.stmt(b)
        except GotoEx as g:
            n = g.n
            while True:
                try:
                    self.goto(b, n)
                    return
                except GotoEx as g2:
                    n = g2.n
                    self.step(b)

    def goto(self, s, name):
        """resume after label `name` inside s"""
        path = find_label(s, name)
        if path is None:
            raise StopPath("goto-unresolved")
        self._resume(s, path)

    def _resume(self, s, path):
        if not path:
            # s is the label stmt
            return self.stmt(s["s"])
        k = s["k"]
        if k == "comp":
            i = path[0]
            self._resume(s["b"][i], path[1:])
            for c in s["b"][i + 1:]:
                self.stmt(c)
        elif k == "label":
            if path[0] == "self":
                self.stmt(s["s"])
            else:
                self._resume(s["s"], path[1:])
        elif k in ("if",):
            self._resume(s[path[0]], path[1:])
        elif k in ("while", "for", "do"):
            try:
                try:
                    self._resume(s["b"], path[1:])
                except ContinueEx:
                    pass
                if k == "for":
                    if s["n"]:
                        self.rv(s["n"])
                    self.loop(s, s["c"], s["n"], True)
                elif k == "while":
                    self.loop(s, s["c"], None, True)
                else:
                    if self.branch(self.rv(s["c"])):
                        self.loop(s, s["c"], None, False)
            except BreakEx:
                pass
        elif k == "switch":
            try:
                self._resume(s["b"], path[1:])
            except BreakEx:
                pass
        elif k in ("case", "default"):
            self._resume(s["s"], path[1:])
        else:
            raise StopPath("goto-unresolved")

    # ---------------- statements
    def stmt(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("more than %d steps on one path" % self.max_steps)
        if not self.steps & 1023 and time.time() > DEADLINE:
            raise Late("the time for this check ran out")
        k = s["k"]
        if k == "expr":
            self.rv(s["e"])
        elif k == "comp":
            for c in s["b"]:
                self.stmt(c)
        elif k == "decl":
            for d in s["d"]:
                self.declare(d)
        elif k == "if":
            if self.branch(self.rv(s["c"])):
                self.stmt(s["a"])
            else:
                self.stmt(s["b"])
        elif k == "ret":
            v = self.rv(s["e"]) if s["e"] else None
            raise ReturnEx(v)
        elif k == "for":
            self.stmt(s["i"])
            self.loop(s, s["c"], s["n"], True)
        elif k == "while":
            self.loop(s, s["c"], None, True)
        elif k == "do":
            self.loop(s, s["c"], None, False)
        elif k == "switch":
            self.switch(s)
        elif k == "break":
            raise BreakEx()
        elif k == "cont":
            raise ContinueEx()
        elif k == "goto":
            raise GotoEx(s["n"])
        elif k == "label":
            self.stmt(s["s"])
        elif k in ("case", "default"):
            self.stmt(s["s"])
        elif k == "null":
            pass
        else:
            self.event("unkstmt", s.get("n"), s["l"])

    def declare(self, d):
        if d.get("g"):
            loc = (("g", d["n"]),)
            # static local: initial value only known if never written
            if d["n"] not in self.p.globals and "i" in d:
                self.p.globals[d["n"]] = {"n": d["n"], "q": d["n"], "i": d["i"], "t": d["t"], "const": self.p.types[d["t"]]["c"], "f": "", "tu": "", "l": d["l"], "st": True}
                self._const_globals = self.p._const_globals = None
            return
        fr = self.frames[-1]
        loc = (("v", fr.n, d["id"], d["n"]),)
        fr.vars[d["id"]] = loc
        self.clear(loc)
        if "vla" in d:
            self.rv(d["vla"])
        if "i" in d:
            i = d["i"]
            if i["k"] == "str" and self.p.types[d["t"]]["k"] == "arr":
                self.mem[loc + (("$", ""),)] = (i["v"],) if i["v"] else ()
                return
            v = self.rv(i)
            self.store(loc, v, d["t"])
        else:
            self.fallback[loc] = "uninit"

    def loop(self, s, cond, inc, pre):
        undecided = 0
        n = 0
        first = True
        while True:
            self.steps += 1
            if pre or not first:
                if cond is not None:
                    before = self.opos
                    c = self.rv(cond)
                    if self.on_cond:
                        self.on_cond(self, c)
                    t = self.test(c)
                    if t is None:
                        if undecided >= self.max_loop:
                            # leave the loop: bound reached
                            self.truncated = True
                            if isinstance(c, Sym):
                                self.assume(c, False)
                            return
                        t = self.branch(c)
                    if self.opos != before:
                        undecided += 1
                        if undecided > self.max_loop and t:
                            self.truncated = True
                            raise StopPath("loopbound")
                    if not t:
                        return
            first = False
            n += 1
            if n > self.loop_cap:
                self.truncated = True
                raise StopPath("loopcap")
            o0 = self.opos
            try:
                self.stmt(s["b"])
            except BreakEx:
                return
            except ContinueEx:
                pass
            if inc is not None:
                self.rv(inc)
            if cond is None or (isinstance(cond, dict) and cond["k"] == "int"):
                if self.opos != o0:
                    undecided += 1
                    if undecided > self.max_loop + 1:
                        self.truncated = True
                        raise StopPath("loopbound")
                elif n > 2000:
                    self.truncated = True
                    raise StopPath("loopcap")

    def switch(self, s):
        c = self.value(self.rv(s["c"]))
        fl = self._flat.get(id(s))
        if fl is None:
            fl = self._flat[id(s)] = flatten_switch(s["b"])
        labels, stmts = fl
        start = None
        if isinstance(c, Sym):
            d = self.dom.get(c)
            n = self.neq.get(c, ())
            vals = []
            for lo, hi, idx in labels:
                if lo is None:
                    continue
                if hi is None:
                    hi = lo
                if hi - lo > 300:
                    vals.append((("range", lo, hi), idx))
                    continue
                for v in range(lo, hi + 1):
                    if d is not None and v not in d:
                        continue
                    if v in n:
                        continue
                    vals.append((v, idx))
            defidx = [i for lo, hi, i in labels if lo is None]
            has_rest = d is None or any(v not in [x for x, _ in vals] for v in d if v not in n)
            if self.group_switch and d is not None and not any(isinstance(v, tuple) for v, _ in vals):
                # one partition per target instead of one per value
                grp = {}
                for v, idx in vals:
                    grp.setdefault(idx, []).append(v)
                rest = [v for v in d if v not in n and v not in [x for x, _ in vals]]
                di = defidx[0] if defidx else None
                if rest:
                    grp.setdefault(di, []).extend(rest)
                if not grp:
                    raise StopPath("infeasible")
                ks = list(grp)
                start = ks[self.choose(len(ks), ("switch", c))]
                self.set_dom(c, grp[start])
                if start is None:
                    return
                try:
                    for st in stmts[start:]:
                        self.stmt(st)
                except BreakEx:
                    pass
                return
            opts = list(vals) + ([("default", defidx[0] if defidx else None)] if has_rest else [])
            if not opts:
                raise StopPath("infeasible")
            ch = opts[self.choose(len(opts), ("switch", c))]
            if ch[0] == "default":
                for v, _ in vals:
                    if not isinstance(v, tuple):
                        self.conds.append((S("bin", "==", c, v), False))
                        self.neq.setdefault(c, set()).add(v)
                self._shrink(c)
            elif not isinstance(ch[0], tuple):
                self.conds.append((S("bin", "==", c, ch[0]), True))
                self.set_eq(c, ch[0])
            start = ch[1]
        else:
            for lo, hi, idx in labels:
                if lo is None:
                    continue
                if c == lo or (hi is not None and isinstance(c, int) and lo <= c <= hi):
                    start = idx
                    break
            if start is None:
                for lo, hi, idx in labels:
                    if lo is None:
                        start = idx
        if start is None:
            return
        try:
            for st in stmts[start:]:
                self.stmt(st)
        except BreakEx:
            pass

    # ---------------- strings
    def text(self, v):
        """value -> tuple of parts (str | term); () is the empty string"""
        v = self.value(v)
        if isinstance(v, Ptr):
            b = v.loc
            if b[0][0] == "s":
                if len(b) == 1:
                    return (b[0][1],) if b[0][1] else ()
                if isinstance(b[1][1], int):
                    t = b[0][1][b[1][1]:]
                    return (t,) if t else ()
                return (v,)
            base = b[:-1] if b[-1][0] == "i" else b
            off = b[-1][1] if b[-1][0] == "i" else 0
            for bl in (base, base + (("i", 0),), b):
                sv = self.mem.get(bl + (("$", ""),))
                if sv is not None:
                    if isinstance(off, int) and off > 0 and bl != b:
                        if sv and isinstance(sv[0], str) and len(sv[0]) >= off:
                            sv = ((sv[0][off:],) if sv[0][off:] else ()) + sv[1:]
                        else:
                            return (S("substr", sv, off),)
                    return sv
            if len(base) == 1 and base[0][0] == "g" and isinstance(off, int) and base[0][1] in self.const_globals():
                g = self.p.globals[base[0][1]]
                if g["i"]["k"] == "str":
                    t = g["i"]["v"][off:]
                    return (t,) if t else ()
            # byte-wise stored
            if isinstance(off, int):
                out = []
                i = off
                while True:
                    l = base + (("i", i),) if not (i == 0 and base[-1][0] == "d") else base
                    c = self.mem.get(l)
                    if c is None and i == 0:
                        c = self.mem.get(base)
                    if c is None:
                        fb = self.lookup_fb(l)
                        if fb is not None and fb[0] == "zero":
                            return norm_parts(out)
                        break
                    c = self.value(c)
                    if isinstance(c, Sym) and c.op == "ch":
                        out.append(c)
                        i += 1
                        continue
                    if not isinstance(c, int):
                        break
                    if c == 0:
                        return norm_parts(out)
                    out.append(chr(c & 255))
                    i += 1
            return (v,)
        if isinstance(v, Sym):
            return (v,)
        return (v,) if not isinstance(v, str) else (v,)

    def set_text(self, p, parts):
        p = self.value(p)
        if isinstance(p, Ptr):
            b = p.loc
            base = b[:-1] if b[-1] == ("i", 0) else b
            if b[-1][0] == "i" and isinstance(b[-1][1], int) and b[-1][1] > 0:
                # write inside a buffer
                base = b[:-1]
                off = b[-1][1]
                for bl in (base, base + (("i", 0),)):
                    sv = self.mem.get(bl + (("$", ""),))
                    if sv is not None:
                        txt = sv[0] if sv and isinstance(sv[0], str) else ""
                        if len(txt) >= off:
                            self.mem[bl + (("$", ""),)] = norm_parts((txt[:off],) + tuple(parts))
                            return
                self.clear(base)
                self.mem[base + (("i", off), ("$", ""))] = norm_parts(parts)
                return
            self.clear(base)
            self.mem[base + (("$", ""),)] = norm_parts(parts)
        elif isinstance(p, Sym):
            self.mem[(("d", p), ("$", ""))] = norm_parts(parts)

    def new_text(self, parts):
        p = self.new_heap("str")
        self.set_text(p, parts)
        return p

    def format(self, fmt, args):
        """C format string expansion -> parts"""
        ft = self.text(fmt)
        if len(ft) > 1 or (ft and not isinstance(ft[0], str)):
            return (S("fmt", tuple(ft), tuple(a if not isinstance(a, (Agg, VaList)) else "agg" for a in args)),)
        s = ft[0] if ft else ""
        out = []
        args = list(args)
        ai = 0

        def nxt():
            nonlocal ai
            if ai < len(args):
                ai += 1
                return self.value(args[ai - 1])
            self.event("fmt-missing-arg", s, self.pos)
            return S("missing-arg", ai)
        i = 0
        while i < len(s):
            c = s[i]
            if c != "%":
                out.append(c)
                i += 1
                continue
            j = i + 1
            if j < len(s) and s[j] == "%":
                out.append("%")
                i = j + 1
                continue
            spec = ""
            stars = []
            while j < len(s) and s[j] not in "diouxXeEfFgGaAcspn":
                if s[j] == "*":
                    stars.append(nxt())
                spec += s[j]
                j += 1
            if j >= len(s):
                self.event("fmt-bad", s, self.pos)
                out.append(s[i:])
                break
            conv = s[j]
            if conv not in "diouxXcspeEfFgGaA" or any(ch not in "0123456789.-+ #*hlLqjzt" for ch in spec):
                self.event("fmt-bad", s, self.pos)
            v = nxt()
            i = j + 1
            if stars and "." not in spec and isinstance(stars[0], int) and (isinstance(v, int) and conv in "diuxXoc" or conv == "s"):
                w = stars[0]
                spec = spec.replace("*", str(abs(w)) if w > 0 else "-" + str(abs(w)) if w else "")
                stars = []
            if conv == "s" and spec.lstrip("-").isdigit():
                t = self.text(v)
                if not t or len(t) == 1 and isinstance(t[0], str):
                    out.append(("%" + spec + "s") % (t[0] if t else ""))
                    continue
            if conv == "s":
                if spec in ("", "-"):
                    out.extend(self.text(v))
                else:
                    pr = None
                    if ".*" in spec and stars and isinstance(stars[-1], int):
                        pr = stars[-1]
                    t = self.text(v)
                    if pr is not None and len(t) == 1 and isinstance(t[0], str):
                        out.append(t[0][:pr])
                    else:
                        out.append(S("fmt%" + spec + "s", *(list(t) + stars)))
            elif isinstance(v, int) and conv in "diuxXoc" and "*" not in spec:
                try:
                    if conv == "c":
                        out.append(chr(v & 255))
                    else:
                        w = 64 if "l" in spec or "z" in spec or "j" in spec else 32
                        if "hh" in spec: w = 8
                        elif "h" in spec: w = 16
                        if conv in "uxXo":
                            v &= (1 << w) - 1
                        else:
                            v &= (1 << w) - 1
                            if v >> (w - 1): v -= 1 << w
                        flags = "".join(ch for ch in spec if ch in "0123456789.-+ #")
                        out.append(("%" + flags + ("d" if conv in "diu" else conv)) % v)
                except Exception:
                    out.append(S("fmt%" + spec + conv, v))
            else:
                out.append(S("fmt", conv if conv not in "i" else "d", spec, v) if not (conv == "c") else S("fmt", "c", "", v))
        self.last_fmt_used = ai
        if ai < len(args):
            self.event("fmt-extra-arg", s, self.pos)
        return norm_parts(out)


def norm_parts(parts):
    out = []
    for x in parts:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)
    return tuple(out)


class Frame:
    __slots__ = ("n", "fn", "vars", "va")

    def __init__(self, n, fn):
        self.n, self.fn, self.vars, self.va = n, fn, {}, []


CMP = ("==", "!=", "<", ">", "<=", ">=")


def flatten_switch(body):
    """-> [(lo, hi, index)] (lo None = default), [stmts]"""
    labels, stmts = [], []

    def add(s):
        while s is not None and s["k"] in ("case", "default"):
            if s["k"] == "case":
                labels.append((int(s["v"]), int(s["v2"]) if "v2" in s else None, len(stmts)))
            else:
                labels.append((None, None, len(stmts)))
            s = s["s"]
        if s is not None:
            stmts.append(s)
    if body["k"] == "comp":
        for c in body["b"]:
            add(c)
    else:
        add(body)
    return labels, stmts


def find_label(s, name):
    """path to a label statement"""
    if s is None:
        return None
    k = s["k"]
    if k == "label":
        if s["n"] == name:
            return ["self"]
        r = find_label(s["s"], name)
        return None if r is None else ["s"] + r
    if k == "comp":
        for i, c in enumerate(s["b"]):
            r = find_label(c, name)
            if r is not None:
                return [i] + r
    elif k == "if":
        for x in ("a", "b"):
            r = find_label(s[x], name)
            if r is not None:
                return [x] + r
    elif k in ("while", "for", "do", "switch"):
        r = find_label(s["b"], name)
        if r is not None:
            return ["b"] + r
    elif k in ("case", "default"):
        r = find_label(s["s"], name)
        if r is not None:
            return ["s"] + r
    return None


DISPATCH = {k[2:]: getattr(Interp, k) for k in dir(Interp) if k.startswith("x_")}


# ---------------- models of libc
def h_strcmp(n=False, icase=False):
    def f(I, a, e):
        x, y = I.text(a[0]), I.text(a[1])
        conc = lambda t: len(t) == 0 or (len(t) == 1 and isinstance(t[0], str))
        if conc(x) and conc(y):
            s, t = (x[0] if x else ""), (y[0] if y else "")
            if n:
                m = I.value(a[2])
                if not isinstance(m, int):
                    return S("strcmp", tuple(x), tuple(y), m)
                s, t = s[:m], t[:m]
            if icase:
                s, t = s.lower(), t.lower()
            return 0 if s == t else (-1 if s < t else 1)
        if x == y and not n:
            return 0
        k = ("strncmp", I.value(a[2])) if n else ("strcmp",)
        xs, ys = (x, y) if repr(x) <= repr(y) else (y, x)
        return I.value(S(k[0], tuple(xs), tuple(ys), *k[1:]))
    return f


def h_strlen(I, a, e):
    t = I.text(a[0])
    if all(isinstance(x, str) for x in t):
        return len("".join(t))
    return I.value(S("strlen", tuple(t)))


def h_malloc(I, a, e):
    return I.new_heap("malloc")


def h_calloc(I, a, e):
    return I.new_heap("calloc", True)


def h_realloc(I, a, e):
    p = I.value(a[0])
    if isinstance(p, Ptr):
        return p
    if isinstance(p, Sym):
        return p
    return I.new_heap("realloc")


def h_memset(I, a, e):
    p, v = I.value(a[0]), I.value(a[1])
    if isinstance(p, Ptr) and isinstance(v, int) and v == 0:
        l = p.loc[:-1] if p.loc[-1] == ("i", 0) else p.loc
        I.clear(l)
        I.fallback[l] = "zero"
    elif isinstance(p, Sym) and isinstance(v, int) and v == 0:
        l = (("d", p),)
        I.clear(l)
        I.fallback[l] = "zero"
    return p


def h_memcpy(I, a, e):
    d, s = I.value(a[0]), I.value(a[1])
    if isinstance(d, (Ptr, Sym)) and isinstance(s, (Ptr, Sym)):
        dl = I.deref_loc(d)
        sl = I.deref_loc(s)
        if dl[-1] == ("i", 0): dl = dl[:-1]
        if sl[-1] == ("i", 0): sl = sl[:-1]
        n = I.value(a[2])
        if dl[-1][0] == "i" and isinstance(n, int) and n and not n % 8 and sl[-1][0] == "i" and isinstance(I.mem.get(sl), Ptr) and all(isinstance(x[-1][1], int) for x in (sl, dl)):
            # part of an array of pointers
            vs = [I.load(sl[:-1] + (("i", sl[-1][1] + k),)) for k in range(n // 8)]
            for k, v in enumerate(vs):
                I.store(dl[:-1] + (("i", dl[-1][1] + k),), v)
        elif sl[0][0] == "s":
            I.set_text(d, I.text(s))
        else:
            v = I.load_agg(sl)
            I.store(dl, v)
    return d


def h_strcpy(I, a, e):
    I.set_text(a[0], I.text(a[1]))
    return a[0]


def h_strcat(I, a, e):
    t = I.text(a[0])
    if t == (I.value(a[0]),) and isinstance(a[0], Ptr):
        t = ()
    I.set_text(a[0], tuple(t) + tuple(I.text(a[1])))
    return a[0]


def h_strncpy(I, a, e):
    t, n = I.text(a[1]), I.value(a[2])
    if isinstance(n, int) and len(t) <= 1 and (not t or isinstance(t[0], str)):
        s = t[0] if t else ""
        if n > 0:
            I.set_text(a[0], (s[:n],) if s[:n] else ())
        return a[0]
    I.set_text(a[0], (S("strncpy", tuple(t), n),))
    return a[0]


def h_strdup(I, a, e):
    return I.new_text(I.text(a[0]))


def h_sprintf(I, a, e):
    I.set_text(a[0], I.format(a[1], a[2:]))
    return I.fresh("sprintf")


def h_snprintf(I, a, e):
    I.set_text(a[0], I.format(a[2], a[3:]))
    return I.fresh("snprintf")


def _va(I, v):
    v = I.value(v)
    if isinstance(v, VaList):
        return v.args[v.pos:]
    if isinstance(v, Ptr):
        l = v.loc
        while l:
            x = I.mem.get(l)
            if isinstance(x, VaList):
                return x.args[x.pos:]
            l = l[:-1]
    return [I.fresh("va")]


def h_vsprintf(I, a, e):
    I.set_text(a[0], I.format(a[1], _va(I, a[2])))
    return I.fresh("vsprintf")


def h_vsnprintf(I, a, e):
    I.set_text(a[0], I.format(a[2], _va(I, a[3])))
    return I.fresh("vsnprintf")


def h_fprintf(I, a, e):
    I.event("write", I.value(a[0]), I.format(a[1], a[2:]), I.pos)
    return I.fresh("fprintf")


def h_vfprintf(I, a, e):
    I.event("write", I.value(a[0]), I.format(a[1], _va(I, a[2])), I.pos)
    return I.fresh("vfprintf")


def h_printf(I, a, e):
    I.event("write", S("load", (("g", "stdout"),)), I.format(a[0], a[1:]), I.pos)
    return I.fresh("printf")


def h_fputs(I, a, e):
    I.event("write", I.value(a[1]), I.text(a[0]), I.pos)
    return I.fresh("fputs")


def h_puts(I, a, e):
    I.event("write", S("load", (("g", "stdout"),)), norm_parts(tuple(I.text(a[0])) + ("\n",)), I.pos)
    return I.fresh("puts")


def h_fputc(I, a, e):
    c = I.value(a[0])
    I.event("write", I.value(a[1]), (chr(c & 255),) if isinstance(c, int) else (S("fmt", "c", "", c),), I.pos)
    return I.fresh("fputc")


def h_fwrite(I, a, e):
    t = I.text(a[0])
    n = I.value(a[2])
    sz = I.value(a[1])
    if isinstance(n, int) and isinstance(sz, int) and len(t) == 1 and isinstance(t[0], str):
        t = (t[0][:n * sz],)
    I.event("write", I.value(a[3]), t, I.pos)
    return I.fresh("fwrite")


def h_va_start(I, a, e):
    v = I.value(a[0])
    l = v.loc if isinstance(v, Ptr) else None
    if l is None:
        return None
    if l[-1] == ("i", 0):
        l = l[:-1]
    I.clear(l)
    I.mem[l] = VaList(I.frames[-1].va)
    return None


def h_va_copy(I, a, e):
    d, s = I.value(a[0]), a[1]
    l = d.loc
    if l[-1] == ("i", 0): l = l[:-1]
    va = _va(I, s)
    I.clear(l)
    I.mem[l] = VaList(va)
    return None


def h_exit(I, a, e):
    I.event("exit", I.value(a[0]) if a else None, I.pos)
    raise StopPath("exit")


def h_abort(I, a, e):
    raise StopPath("abort")


def h_free(I, a, e):
    I.event("free", I.value(a[0]), I.pos)
    return None


def h_nop(I, a, e):
    return None


def h_assert_fail(I, a, e):
    raise StopPath("assert")


def h_ctype(name, pred):
    def f(I, a, e):
        c = I.value(a[0])
        if isinstance(c, int):
            return 1 if 0 <= c < 256 and pred(chr(c)) else 0
        return I.value(S("call", name, c))
    return f


def h_tolower(I, a, e):
    c = I.value(a[0])
    return ord(chr(c).lower()) if isinstance(c, int) and 0 <= c < 128 else I.value(S("call", "tolower", c))


def h_unreachable(I, a, e):
    I.event("unreachable", I.pos)
    raise StopPath("unreachable")


def h_strchr(I, a, e):
    t, c = I.text(a[0]), I.value(a[1])
    if len(t) <= 1 and (not t or isinstance(t[0], str)) and isinstance(c, int):
        s = t[0] if t else ""
        i = s.find(chr(c & 255)) if c else len(s)
        return 0 if i < 0 else I.ptr_add(a[0], i)
    return I.fresh("strchr")


def h_expect(I, a, e):
    return a[0]


ASCII = lambda f: (lambda c: ord(c) < 128 and f(c))
BASE_HOOKS = {
    "strcmp": h_strcmp(), "strncmp": h_strcmp(n=True), "strcasecmp": h_strcmp(icase=True), "strncasecmp": h_strcmp(n=True, icase=True),
    "strlen": h_strlen, "malloc": h_malloc, "calloc": h_calloc, "realloc": h_realloc, "memset": h_memset,
    "memcpy": h_memcpy, "memmove": h_memcpy, "strcpy": h_strcpy, "strncpy": h_strncpy, "strcat": h_strcat, "strdup": h_strdup, "sprintf": h_sprintf,
    "snprintf": h_snprintf, "vsprintf": h_vsprintf, "vsnprintf": h_vsnprintf, "fprintf": h_fprintf, "vfprintf": h_vfprintf,
    "printf": h_printf, "fputs": h_fputs, "puts": h_puts, "fputc": h_fputc, "putc": h_fputc, "fwrite": h_fwrite,
    "__builtin_va_start": h_va_start, "__builtin_va_end": h_nop, "__builtin_va_copy": h_va_copy,
    "exit": h_exit, "_exit": h_exit, "abort": h_abort, "free": h_free, "__assert_fail": h_assert_fail, "strchr": h_strchr,
    "isdigit": h_ctype("isdigit", ASCII(str.isdigit)), "isalpha": h_ctype("isalpha", ASCII(str.isalpha)),
    "isalnum": h_ctype("isalnum", ASCII(str.isalnum)), "isspace": h_ctype("isspace", lambda c: c in " \t\n\r\v\f"),
    "isxdigit": h_ctype("isxdigit", lambda c: c in "0123456789abcdefABCDEF"),
    "iscntrl": h_ctype("iscntrl", lambda c: ord(c) < 32 or ord(c) == 127),
    "tolower": h_tolower, "__builtin_expect": h_expect, "__builtin_unreachable": h_unreachable, "fflush": h_nop,
}

"""The lists, tables and arenas everything else is built on, against finite maps and sequences."""
import itertools
import absint
from absint import *


def where(p, fn, what):
    return "%s (%s)" % (p.fns[fn].file if fn in p.fns else "src/compiler", what)


EEXIST, EINVAL = 17, 22


class Bad(Exception):
    pass


class Heap:
    """memory from the C library with its size; every access is checked"""

    def __init__(self, p, hashes=None):
        hooks = {"malloc": self.malloc, "calloc": self.calloc, "realloc": self.realloc, "free": self.free, "exit": self.exit, "allocator_default_free": self.free, "__assert_fail": self.exit}
        for nm, w in (("__builtin_clz", 32), ("__builtin_clzl", 64), ("__builtin_clzll", 64)):
            hooks[nm] = lambda I, a, e, w=w: self.clz(a[0], w)
        if hashes is not None:
            hooks["hashmap_default_hash"] = lambda I, a, e: hashes(self.text(I, a[0]))
        self.I = absint.Interp(p, hooks=hooks, max_loop=4, max_steps=30000000)
        self.I.initial = True
        self.p = p

    def reset(self):
        self.size, self.freed, self.bad, self.clean = {}, [], None, set()
        self.I.on_load = lambda I, loc, t: self.touch(loc, t)
        self.I.on_store = lambda I, loc, v, t: self.touch(loc, t)

    def text(self, I, v):
        t = I.text(v)
        if not all(isinstance(x, str) for x in t):
            raise AnalysisBroken("unknown text %r" % (t,))
        return "".join(t)

    def num(self, v):
        v = self.I.value(v)
        if not isinstance(v, int):
            raise AnalysisBroken("size %r" % (v,))
        return v

    def clz(self, v, w):
        n = self.num(v) & ((1 << w) - 1)
        if n == 0:
            raise Bad("the leading zeros of 0 are counted, which is undefined")
        return w - n.bit_length()

    def touch(self, loc, t):
        b = loc[0]
        if b in self.size and self.bad is None:
            if b in self.freed:
                self.bad = "memory that was released is used (line %s)" % (self.I.pos,)
            elif len(loc) > 1 and loc[1][0] == "i":
                i = loc[1][1]
                w = self.elem.get(b)
                if w is None and len(loc) == 2 and t is not None:
                    w = self.p.types[t].get("sz")
                if w is None and len(loc) > 2:
                    w = self.width(loc[2][1])
                    if w:
                        self.elem[b] = w
                if not isinstance(i, int):
                    raise AnalysisBroken("index %r" % (i,))
                if w and not (0 <= i and (i + 1) * w <= self.size[b]):
                    self.bad = "element %d of memory for %g elements is used (line %s)" % (i, self.size[b] / w, self.I.pos)
        return None

    def width(self, field):
        if field not in self.widths:
            self.widths[field] = self.width_of(field)
        return self.widths[field]

    widths = {}

    def width_of(self, field):
        ws = {t["sz"] for t in self.p.types if t["k"] == "rec" and t.get("sz") and any(f.get("n") == field for f in t.get("f", ()))}
        return ws.pop() if len(ws) == 1 else None

    def new(self, n, zero):
        if n < 0 or n > 1 << 24:
            self.bad = self.bad or "%d bytes are asked for" % n
        x = self.I.new_heap("mem", zero)
        self.size[x.loc[0]] = n
        if zero:
            self.clean.add(x.loc[0])
        return Ptr(x.loc + (("i", 0),))

    def malloc(self, I, a, e):
        return self.new(self.num(a[0]), False)

    def calloc(self, I, a, e):
        return self.new(self.num(a[0]) * self.num(a[1]), True)

    def realloc(self, I, a, e):
        v = I.value(a[0])
        n = self.num(a[1])
        if isinstance(v, int) and v == 0:
            return self.new(n, False)
        self.check(v, "realloc")
        q = self.new(n, False)
        old, new = v.loc[0], q.loc[0]
        w = self.elem.get(old)
        for k in [k for k in I.mem if k[0] == old]:
            if len(k) < 2 or k[1][0] != "i" or w is None or (k[1][1] + 1) * w <= n:
                I.mem[(new,) + k[1:]] = I.mem[k]
        if I.fallback.get((old,)) == "zero":
            # what was never written stays zero below the old size only; reading above it would be a mistake of the program's that shows as an out-of-range list index
            I.fallback[(new,)] = "zero"
        if w is not None:
            self.elem[new] = w
        self.freed.append(old)
        return q

    def check(self, v, what):
        if not isinstance(v, Ptr) or v.loc[0] not in self.size or v.loc[1:] not in ((), (("i", 0),)):
            self.bad = self.bad or "%s of something that was not allocated" % what
            raise Bad(self.bad)
        if v.loc[0] in self.freed:
            self.bad = self.bad or "%s of memory that was already released" % what
            raise Bad(self.bad)

    def free(self, I, a, e):
        v = I.value(a[0])
        if isinstance(v, int) and v == 0:
            return None
        self.check(v, "release")
        self.freed.append(v.loc[0])
        return None

    def exit(self, I, a, e):
        raise Bad("the program ends")

    def run(self, story):
        """story(call) -> message or None"""
        out = []

        def go(I):
            self.elem = {}
            self.reset()

            def call(name, *args):
                fn = self.p.fns.get(name)
                if fn is None:
                    raise AnalysisBroken("no function %s" % name)
                r = I.value(I.run_fn(self.p.fn(name), list(args)))
                if self.bad:
                    raise Bad("%s: %s" % (name, self.bad))
                return r
            try:
                return story(call, I)
            except Bad as b:
                return str(b)
        ps = self.I.explore(go)
        for q in ps:
            if q.end != "return":
                return "ends in %s" % q.end if q.end in ("nullderef", "loopcap", "loopbound", "unreachable") else "ends in %s" % q.end
            if q.ret:
                return q.ret
        self.paths = len(ps)
        return None


def key(I, s):
    """a fresh copy of a text: equal keys are equal texts, not equal addresses"""
    return I.new_text([s])


def same(r, v):
    return (isinstance(r, int) and r == v) if isinstance(v, int) else r == v


def tables(c, p, group="tables"):
    w = where(p, "hashmap_put", "a table of names")
    names = ["k%d" % i for i in range(40)]

    def story(size, hashes, gone, n, names):
        def f(call, I):
            m = call("hashmap_init_sized", size) if size else call("hashmap_init")
            held = {}

            def look(extra=()):
                for k in list(names[:n]) + list(gone) + list(extra):
                    r = call("hashmap_get", m, key(I, k))
                    want = held.get(k, 0)
                    if not same(r, want):
                        raise Bad("after %s, looking up %s gives %r" % (list(held), k, r))
            look()
            for i, k in enumerate(names[:n]):
                v = I.new_heap("val", True)
                r = call("hashmap_put", m, key(I, k), v)
                if r != 0:
                    return "putting the %d. name gives %r" % (i + 1, r)
                held[k] = v
                if n <= 6 or i in (0, n // 2, n - 1) or i + 2 >= n:
                    look()
                    r = call("hashmap_put", m, key(I, k), I.new_heap("val", True))
                    if r != EEXIST:
                        return "putting a name again gives %r" % (r,)
                    if call("hashmap_put", m, 0, v) != EINVAL:
                        return "a missing name is accepted"
                    r = call("hashmap_put", m, key(I, names[i // 2]), I.new_heap("val", True))
                    if r != EEXIST:
                        return "putting an earlier name again gives %r" % (r,)
            look()
            for fn, want in (("hashmap_values", list(held.values())), ("hashmap_keys", list(held))):
                l = call(fn, m)
                sz = I.load(I.deref_loc(l) + (("f", "size"),))
                it = I.load(I.deref_loc(l) + (("f", "items"),))
                got = [I.value(I.load(I.add_index(it.loc, j))) for j in range(sz)] if isinstance(sz, int) else None
                if fn == "hashmap_keys" and got is not None:
                    got = sorted("".join(I.text(x)) for x in got)
                    want = sorted(want)
                else:
                    got, want = sorted(map(repr, got)), sorted(map(repr, want))
                if got != want:
                    return "%s gives %s of %d" % (fn, sz, len(want))
            call("hashmap_free", m)
            if self_left(h):
                return "hashmap_free leaves memory of the table behind"
            return None
        return f

    def self_left(h):
        return [b for b in h.size if b not in h.freed and b not in h.lists and h.size[b] >= 16 and h.elem.get(b) == 16]
    jobs = []
    slots = 4
    hs = [0, 3, 4, 7, 2]
    # every way for four names (and one that is never put) to collide in a table of four that has to grow
    pats = list(itertools.product(hs, repeat=4))
    if not c.thorough:
        pats = pats[::5]
    for pt in pats:
        jobs.append((slots, dict(zip(names[:4] + ["gone"], pt + (pt[0],))), 4, names, "gone"))
    for n, f in ((7, lambda i: 3), (7, lambda i: i), (13, lambda i: i * 7 % 5), (13, lambda i: 7 - i % 8), (26, lambda i: i * i), (26, lambda i: (1 << 63) + i * 31)):
        jobs.append((4, {**{names[i]: f(i) for i in range(n)}, "gone": f(0)}, n, names, "gone"))
    # names that differ only in length, in one character or in case, all of one hash
    long = "a_name_of_some_length_" * 14
    for ns, g in ((["n" * (i + 1) for i in range(9)], "n" * 10), ([long + str(i) for i in range(6)], long), ([str(i) + long for i in range(6)], long), ([long + str(i) + long for i in range(4)], long + long), (["ab", "Ab", "aB", "AB", "ba"], "BA"),
                  (["", "a", "_", "0"], "b"), (["\xe4", "\xc4", "\xe4\xe4"], "\xc4\xc4")):
        jobs.append((4, {k: 3 for k in ns + [g]}, len(ns), ns, g))
    from sema import pmap

    def work(job):
        nonlocal h
        size, hashes, n, ns, g = job
        h = Heap(p, lambda s: hashes[s])
        h.lists = set()
        return h.run(story(size, hashes, [g], n, ns)), sorted(h.I.fns_seen)
    h = None
    for job, (st, r) in zip(jobs, pmap(work, jobs)):
        if st == "broken":
            raise AnalysisBroken("table %r: %s" % (job, r[-700:]))
        msg, fns = r
        c.functions |= set(fns)
        c.paths += 1
        c.ob(group, msg is None, "%s\n      (a table of %d slots, hashes %s)" % (msg, job[0], job[1]) if msg else "", w)
    # the real hash function: depends on the text alone, reads it only; and the table as it is used
    h = Heap(p)
    h.lists = set()

    def texts(call, I):
        for t in ("", "a", "main", "x" * 40, "\x01", "zz"):
            a, b = call("hashmap_default_hash", key(I, t)), call("hashmap_default_hash", key(I, t))
            if a != b:
                return "the hash of %r is not a function of its text" % t
        return None
    msg = h.run(texts)
    c.ob(group, msg is None, msg or "", w)
    msg = h.run(story(0, None, ["gone", "", "k"], 3, names))
    c.ob(group, msg is None, msg or "", w)
    c.functions |= set(h.I.fns_seen)
    c.stats.update(table_stories=len(jobs) + 2)


def lists(c, p, group="lists"):
    w = where(p, "list_push", "a list")

    def read(call, I, l):
        sz = I.load(I.deref_loc(l) + (("f", "size"),))
        if not isinstance(sz, int):
            raise Bad("the size of the list is %r" % (sz,))
        it = I.load(I.deref_loc(l) + (("f", "items"),))
        return [I.value(I.load(I.add_index(it.loc, j))) for j in range(sz)]

    def story(size, ops):
        def f(call, I):
            if size is None:
                l = call("init_list")
            else:
                l = call("init_list_sized", size)
            ref = []
            objs = [I.new_heap("o", True) for _ in range(90)]
            n = 0
            for op in ops:
                if op[0] == "push":
                    for _ in range(op[1]):
                        call("list_push", l, objs[n])
                        ref.append(objs[n])
                        n += 1
                elif op[0] == "pop":
                    for _ in range(op[1]):
                        r = call("list_pop", l)
                        x = ref.pop() if ref else 0
                        if not same(r, x):
                            return "list_pop gives %r" % (r,)
                elif op[0] == "insert":
                    call("list_insert", l, objs[n], op[1])
                    ref.insert(op[1], objs[n])
                    n += 1
                elif op[0] == "clear":
                    call("list_clear", l)
                    ref = []
                got = read(call, I, l)
                if got != ref:
                    k = next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), min(len(got), len(ref)))
                    return "after %s the list has %d items, %d expected; item %d differs" % (op, len(got), len(ref), k)
                r = call("list_last", l)
                if not same(r, ref[-1] if ref else 0):
                    return "list_last gives %r after %s" % (r, op)
                for i, x in enumerate(ref):
                    if i in (0, 1, len(ref) - 1) and call("list_contains", l, x) != i + 1:
                        return "list_contains does not find item %d after %s" % (i, op)
                if call("list_contains", l, I.new_heap("other", True)) != 0:
                    return "list_contains finds what was never pushed"
            call("free_list", l)
            return None
        return f
    stories = []
    for size in (None, 0, 1, 2, 3, 5):
        stories.append((size, [("push", 1), ("push", 1), ("pop", 1), ("push", 5), ("insert", 0), ("insert", 3), ("insert", 8), ("insert", 99), ("pop", 12), ("push", 2), ("clear",), ("push", 3), ("insert", 2)]))
        stories.append((size, [("insert", 0), ("insert", 0), ("insert", 1), ("pop", 9), ("clear",), ("insert", 5), ("push", 33), ("push", 2), ("insert", 31), ("pop", 20), ("push", 40), ("clear",), ("push", 1)]))
    for size, ops in stories:
        h = Heap(p)
        msg = h.run(story(size, ops))
        c.functions |= set(h.I.fns_seen)
        c.paths += 1
        c.ob(group, msg is None, "%s\n      (a list made for %s items: %s)" % (msg, size, ops) if msg else "", w)
    h = Heap(p)

    def withs(call, I):
        objs = [I.new_heap("o", True) for _ in range(3)]
        arr = I.new_heap("arr", True)
        for i, x in enumerate(objs):
            I.mem[arr.loc + (("i", i),)] = x
        for n in (0, 1, 3):
            l = call("init_list_with", Ptr(arr.loc + (("i", 0),)), n)
            if read(call, I, l) != objs[:n]:
                return "a list made of %d items holds others" % n
            call("list_push", l, objs[0])
            if read(call, I, l) != objs[:n] + [objs[0]]:
                return "a list made of %d items cannot be extended" % n
        return None
    if "init_list_with" in p.fns:
        msg = h.run(withs)
        c.ob(group, msg is None, msg or "", w)
    c.stats.update(list_stories=len(stories) + 1)


def arenas(c, p, group="arenas"):
    w = where(p, "allocator_malloc", "memory of the compiler")
    from absint import FnV
    for n in (1, 3, 40):
        h = Heap(p)

        def story(call, I):
            a = I.new_heap("alloc", False)
            call("init_allocator", a, I.fn_value("free") if hasattr(I, "fn_value") else FnV("free"))
            call("free_allocator", a)
            got = []
            for i in range(n):
                x = call("allocator_malloc", a, 8 * (i + 1))
                b = x.loc[0]
                if b not in h.clean or h.size[b] != 8 * (i + 1):
                    return "%d bytes asked for, %s%d given" % (8 * (i + 1), "" if b in h.clean else "not cleared: ", h.size[b])
                I.store(x.loc, 100 + i)
                got.append(b)
            if len(set(got)) != n:
                return "memory is given out twice"
            h.elem[got[n // 2]] = 8
            y = call("allocator_realloc", a, Ptr((got[n // 2], ("i", 0))), 8 * 100)
            if h.size[y.loc[0]] != 800 or I.value(I.load(y.loc)) != 100 + n // 2:
                return "memory that was extended has %d bytes and holds %r" % (h.size[y.loc[0]], I.load(y.loc))
            z = call("allocator_realloc", a, 0, 24)
            if h.size[z.loc[0]] != 24:
                return "new memory of 24 bytes has %d" % h.size[z.loc[0]]
            h.elem[z.loc[0]] = 8
            e = h.malloc(I, [16], None)
            call("allocator_push", a, e)
            got = [b for b in got if b != got[n // 2]] + [y.loc[0], z.loc[0], e.loc[0]]
            if any(b in h.freed for b in got):
                return "memory in use was released"
            call("free_allocator", a)
            for b in got:
                if b not in h.freed:
                    return "memory is not released"
            call("free_allocator", a)
            return None
        msg = h.run(story)
        c.functions |= set(h.I.fns_seen)
        c.paths += 1
        c.ob(group, msg is None, "%s (%d requests)" % (msg, n) if msg else "", w)

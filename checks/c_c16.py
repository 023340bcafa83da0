"""C16: the lexer splits every source text into the tokens of the language."""
import itertools, random
from gen import *
from fw import where

ALNUM = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
ALPHA = ALNUM - set(b"0123456789")
DIGIT = set(b"0123456789")
OPS = set(b"+-*/%=&^<>|!?.:~")
WS = set(b" \t\r\n")
KEYWORDS = {k: "TOKEN_" + k.upper() for k in "alignof asm break const continue defer do dyn else embed enum extern false fn for if import interface len let loop macro match namespace nil noop "
            "sizeof struct true type typeof union unless using while with".split()}
KEYWORDS.update({"operator": "TOKEN_OPERATOR_KW", "ret": "TOKEN_RETURN"})
SYMS = {b"(": "LPAREN", b")": "RPAREN", b"{": "LBRACE", b"}": "RBRACE", b"[": "LBRACKET", b"]": "RBRACKET", b",": "COMMA", b";": "SEMICOLON", b"\xcd\xbe": "SEMICOLON", b"_": "UNDERSCORE",
        b"\xc2\xb2": "POW_2", b"\xc2\xb3": "POW_3", b"$": "DOLLAR", b"@": "AT", b"`": "INFIX_CALL"}
OVER = {b"...": "VA_LIST", b"<-": "RETURN", b"=>": "ARROW"}


class Err(Exception):
    pass


def ref(lines, at):
    """-> (type, value, index of the last line touched by the token, next position); at and next are flat indices"""
    s = b"".join(lines)
    n = len(s)
    i = at

    def g(k):
        return s[k] if 0 <= k < n else -1

    def line(k):
        k = min(k, n - 1)
        return s[:k].count(b"\n") if k > 0 else 0
    while True:
        while g(i) in WS:
            i += 1
        if g(i) != 35:
            break
        if g(i + 1) == 91:
            d = 1
            i += 2
            while d:
                if i >= n:
                    raise Err("comment")
                if s[i:i + 2] == b"#[":
                    d += 1
                    i += 2
                elif s[i:i + 2] == b"]#":
                    d -= 1
                    i += 2
                else:
                    i += 1
        else:
            while i < n and g(i) != 10:
                i += 1
    c = g(i)
    if c == -1:
        return ("TOKEN_EOF", None, None, n)
    if c in ALPHA or c == 95 and (g(i + 1) == 95 or g(i + 1) in ALNUM):
        j = i
        while g(j) in ALNUM or g(j) in (95, 63, 39):
            j += 1
        v = s[i:j]
        if g(j) == 33:
            return ("TOKEN_MACRO_CALL", v, line(j), j + 1)
        return (KEYWORDS.get(v.decode("latin1"), "TOKEN_ID"), v, line(j - 1), j)
    if c in DIGIT:
        if c == 48 and g(i + 1) in (120, 98, 111):
            base = {120: 16, 98: 2, 111: 8}[g(i + 1)]
            ok = set(b"0123456789abcdefABCDEF" if base == 16 else b"01" if base == 2 else b"01234567") | {95}
            j = i + 2
            while g(j) in ok:
                j += 1
            ds = s[i + 2:j].replace(b"_", b"")
            return ("TOKEN_INT", b"%d" % int(ds, base) if ds else "?", line(j - 1), j)
        j, v, fl = i, b"", False
        while g(j) in DIGIT or g(j) in (95, 46):
            if g(j) == 95:
                j += 1
                continue
            if g(j) == 46:
                if g(j + 1) == 46:
                    return ("TOKEN_FLOAT" if fl else "TOKEN_INT", v, line(j - 1), j)
                if fl:
                    raise Err("dots")
                fl = True
            v += s[j:j + 1]
            j += 1
        return ("TOKEN_FLOAT" if fl else "TOKEN_INT", v, line(j - 1), j)
    for k in (1, 2):
        if s[i:i + k] in SYMS:
            return ("TOKEN_" + SYMS[s[i:i + k]], None, line(i), i + k)
    if c in OPS:
        j = i
        while g(j) in OPS:
            j += 1
        return ("TOKEN_" + OVER.get(s[i:j], "OPERATOR"), s[i:j], line(j - 1), j)
    if c == 34:
        j, esc = i + 1, False
        while g(j) != 34 or esc:
            if j >= n:
                raise Err("string")
            esc = g(j) == 92 and not esc
            j += 1
        return ("TOKEN_STRING", s[i + 1:j], None, j + 1)
    if c == 39:
        d = g(i + 1)
        if d in (99, 67) and g(i + 2) != 39:
            return ("TOKEN_C_ARRAY", s[i:i + 2], line(i), i + 2)
        if d == 39 or d == -1:
            raise Err("char")
        k = 2 if d == 92 else 1
        if g(i + 1 + k) != 39:
            raise Err("char")
        return ("TOKEN_CHAR", s[i + 1:i + 1 + k], None, i + 2 + k)
    raise Err("unknown")


NL = 10
ANY = frozenset(range(1, 256)) - {10}


def B(s):
    return [x for x in s.encode("latin1")]


def layouts():
    out = {}
    out["any2"] = [[ANY, ANY, NL], [ANY, NL]]
    out["any2-eof"] = [[ANY, ANY]]
    out["empty"] = []
    out["newline"] = [[NL]]
    out["blank-then-any"] = [[32, NL], [9, ANY, NL]]
    out["ops"] = [[frozenset(OPS), ANY, frozenset(OPS) | {32, 97}, NL]]
    out["ops4"] = [[frozenset(b".<=-"), frozenset(b".>-="), frozenset(b".x>"), frozenset(b".x"), NL]]
    out["ops-eof"] = [[frozenset(OPS), frozenset(OPS)]]
    for k in KEYWORDS:
        out["kw-" + k] = [B(k) + [ANY, NL]]
        out["kw-eof-" + k] = [B(k)]
        out["kw-part-" + k] = [B(k[:-1]) + [ANY, NL]]
    out["id"] = [[frozenset(ALPHA | {95}), ANY, ANY, NL]]
    out["id-underscore"] = [[95, ANY, ANY, NL]]
    out["id-eof"] = [B("ab") + [ANY]]
    out["num"] = [[frozenset(DIGIT), ANY, ANY, NL]]
    out["num-dots"] = [[frozenset(b"07"), frozenset(b"_.58"), frozenset(b"_.5"), frozenset(b".5_x"), frozenset(b".a5"), NL]]
    out["num-eof"] = [[frozenset(DIGIT), frozenset(DIGIT | {46, 95})]]
    for pre in ("0x", "0b", "0o"):
        out[pre] = [B(pre) + [ANY, ANY, NL]]
        out[pre + "-eof"] = [B(pre) + [ANY, ANY]]
        out[pre + "-_"] = [B(pre) + [frozenset(b"_01"), frozenset(b"1_"), frozenset(b"_1g"), 59, NL]]
    for n in (15, 16):
        out["0x-%d" % n] = [B("0x") + [frozenset(b"0123456789abcdefABCDEF")] * n + [NL]]
    out["0b-64"] = [B("0b") + [frozenset(b"01")] * 64 + [NL]]
    out["0o-21"] = [B("0o") + [frozenset(b"01234567")] * 21 + [NL]]
    Q = frozenset(b"\\\"a")
    out["str"] = [[34, ANY, ANY, 34, NL]]
    out["str-esc"] = [[34] + [Q] * 5 + [34, 120, NL], [34, NL]]
    out["str-lines"] = [[34, frozenset(b"a\\"), NL], [Q, 34, NL]]
    out["str-eof"] = [[34, ANY, ANY]]
    for n in (30, 31, 32, 33, 34, 63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 259, 260, 700):
        out["str-%d" % n] = [[34] + [97] * n + [34, NL]]
    out["char"] = [[39, ANY, ANY, NL]]
    out["char3"] = [[39, frozenset(b"\\'acC"), ANY, 39, NL]]
    out["char-esc"] = [[39, 92, ANY, ANY, NL]]
    out["char-eof"] = [[39, ANY]]
    out["char-eof1"] = [[39]]
    out["comment"] = [[35, ANY, ANY, NL], [ANY, NL]]
    out["comment-eof"] = [[35, ANY]]
    out["comment-eof1"] = [[35]]
    out["comment-last"] = [[97, NL], [35, 97]]
    K = frozenset(b"#[]a")
    out["multi"] = [[35, 91] + [K] * 5 + [93, 35, 120, NL], [93, 35, 98, NL]]
    out["multi-lines"] = [[35, 91, NL], [K, K, NL], [NL], [93, 35, NL], [120, NL]]
    out["comments"] = [[35, 97, NL], [32, 35, NL], [35, 91, 93, 35, NL], [NL], [35, NL], [120]]
    out["space"] = [[frozenset(b" \t\ra"), frozenset(b" \t\ra"), frozenset(b" \t\r\x0b\x0ca"), NL], [120, NL]]
    return out


def eval_parts(parts, env):
    out = b""
    for x in parts:
        if isinstance(x, str):
            out += x.encode("latin1")
        elif x.op == "ch":
            out += bytes([env[x]])
        elif x.op == "fmt" and x.a[0] in "dxu" and not (x.a[1] or "").strip("lzj"):
            out += b"%d" % val(x.a[2], env)
        else:
            raise AnalysisBroken("cannot evaluate %r" % (x,))
    return out


def val(t, env):
    if isinstance(t, int):
        return t
    if t.op == "wrap":
        v = val(t.a[2], env) & ((1 << (8 * t.a[0])) - 1)
        return v - (1 << (8 * t.a[0])) if t.a[1] and v >> (8 * t.a[0] - 1) else v
    if t.op == "strto":
        name, parts, base = t.a
        s = eval_parts(parts, env)
        v = int(s, base) if s else 0
        return min(v, (1 << 63) - 1) if name in ("strtol", "strtoll") else min(v, (1 << 64) - 1)
    raise AnalysisBroken("cannot evaluate %r" % (t,))


def charset(I, name, inside):
    """split the domain of a symbolic character by membership"""
    def split(c):
        c = I.value(c)
        while isinstance(c, Sym) and c.op == "wrap":
            c = I.value(c.a[2])
        if isinstance(c, int):
            return 1 if (c & 255) in inside else 0
        if not (isinstance(c, Sym) and c.op == "ch"):
            return I.value(S("call", name, c))
        d = [v for v in I.dom[c] if v not in I.neq.get(c, ())]
        a = [v for v in d if (v & 255) in inside]
        b = [v for v in d if (v & 255) not in inside]
        if not a or not b:
            return 1 if a else 0
        k = I.choose(2, (name, c))
        I.set_dom(c, b if k else a)
        return 0 if k else 1
    return split


def hooks(p, err, sizes, faults):
    def room(I, ptr, off, fn):
        ptr = I.value(ptr)
        if isinstance(ptr, Ptr) and ptr.loc[0] in sizes:
            o = ptr.loc[1][1] if len(ptr.loc) > 1 and ptr.loc[1][0] == "i" and isinstance(ptr.loc[1][1], int) else 0
            if o + off > sizes[ptr.loc[0]]:
                faults.append((fn, o + off, sizes[ptr.loc[0]], I.pos))

    def conc_len(parts):
        n = 0
        for x in parts:
            if isinstance(x, str):
                n += len(x)
            elif not isinstance(x, Sym):
                return None
            elif x.op == "ch":
                n += 1
            elif x.op == "fmt":
                n += 20
            else:
                return None
        return n

    def malloc(I, a, e):
        h = I.new_heap("malloc", len(a) == 2)
        n = I.value(a[0])
        if len(a) == 2 and isinstance(n, int) and isinstance(I.value(a[1]), int):
            n = n * I.value(a[1])
        if isinstance(n, int):
            sizes[h.loc[0]] = n
        return h

    def realloc(I, a, e):
        q = I.value(a[0])
        n = I.value(a[1])
        if isinstance(q, Ptr) and isinstance(n, int):
            sizes[q.loc[0]] = n
        return q if isinstance(q, Ptr) else malloc(I, a[1:], e)

    def strlen(I, a, e):
        n = conc_len(I.text(a[0]))
        return n if n is not None else I.value(S("strlen", tuple(I.text(a[0]))))

    def strcat(I, a, e):
        x, y = I.text(a[0]), I.text(a[1])
        n = conc_len(tuple(x) + tuple(y))
        if n is not None:
            room(I, a[0], n + 1, "strcat")
        I.set_text(a[0], norm_parts(tuple(x) + tuple(y)))
        return a[0]

    def strcpy(I, a, e):
        n = conc_len(I.text(a[1]))
        if n is not None:
            room(I, a[0], n + 1, "strcpy")
        I.set_text(a[0], I.text(a[1]))
        return a[0]

    def strcmp(n):
        def f(I, a, e):
            x, y = list(flat(I.text(a[0]))), list(flat(I.text(a[1])))
            if n:
                m = I.value(a[2])
                if not isinstance(m, int):
                    raise AnalysisBroken("strncmp with unknown length")
                x, y = x[:m], y[:m]
            if n and len(x) != len(y) or not n and len(x) != len(y):
                return 1
            for u, v in zip(x, y):
                if isinstance(u, int) and isinstance(v, int):
                    if u != v:
                        return 1
                    continue
                if isinstance(u, int):
                    u, v = v, u
                if u is v:
                    continue
                w = v if not isinstance(v, int) or v < 128 else v - 256
                if not I.branch(S("bin", "==", u, w)):
                    return 1
            return 0
        return f

    def flat(parts):
        for x in parts:
            if isinstance(x, str):
                for ch in x:
                    yield ord(ch)
            elif x.op == "ch":
                yield x
            else:
                raise AnalysisBroken("comparison of %r" % (x,))

    def strchr(I, a, e):
        s = I.text(a[0])
        s = s[0] if s else ""
        c = I.value(a[1])
        if isinstance(c, int):
            return 1 if c == 0 or chr(c & 255) in s else 0
        return charset(I, "in " + s, set(s.encode("latin1")))(c)

    def strto(name):
        def f(I, a, e):
            return S("strto", name, tuple(I.text(a[0])), I.value(a[2]))
        return f

    def ctype(name, st):
        return lambda I, a, e: charset(I, name, st)(a[0])
    h = {"malloc": malloc, "calloc": malloc, "realloc": realloc, "strlen": strlen, "strcat": strcat, "strcpy": strcpy, "strcmp": strcmp(False), "strncmp": strcmp(True), "strchr": strchr,
         "allocator_malloc": lambda I, a, e: I.new_heap("token"), "throw_error": err.hook(), "strdup": lambda I, a, e: I.new_text(I.text(a[0]))}
    for n in ("strtol", "strtoll", "strtoul", "strtoull"):
        h[n] = strto(n)
    for n, st in {"isalpha": ALPHA, "isalnum": ALNUM, "isdigit": DIGIT, "isspace": set(b" \t\n\r\x0b\x0c"), "isxdigit": set(b"0123456789abcdefABCDEF"), "isprint": set(range(32, 127)),
                  "ispunct": set(range(33, 127)) - ALNUM, "isupper": set(range(65, 91)), "islower": set(range(97, 123))}.items():
        h[n] = ctype(n, st)

    def on_store(I, loc, v, t):
        if loc[0] in sizes and len(loc) == 2 and loc[1][0] == "i" and isinstance(loc[1][1], int) and loc[1][1] >= sizes[loc[0]]:
            faults.append(("store", loc[1][1] + 1, sizes[loc[0]], I.pos))
    return h, on_store


def body(c, p):
    c.rule("The lexer is interpreted abstractly on source texts whose characters are sets of bytes: every branch splits the sets, so all byte values at each position are covered. Per partition the token's "
           "kind, value and line and the position where lexing resumes must equal those of the lexical grammar for every member of the partition, no buffer may be written beyond its allocated size, and "
           "the lexer must end.")
    c.require(160)
    err = Errors(p)
    rnd = random.Random(7)
    wh = where(p.fn("lexer_next_token"))
    tt = {v: n for n, v in p.enum_members("TOKEN_ID")}
    total = 0
    for name, lay in layouts().items():
        sizes, faults = {}, []
        h, on_store = hooks(p, err, sizes, faults)
        I = Interp(p, hooks=h, max_loop=4000, max_paths=30000, max_steps=4000000)
        I.group_switch = True
        I.on_store = on_store
        syms = {}
        store = {}

        def go(I):
            sizes.clear()
            del faults[:]
            w = World(I)
            lines = []
            for li, l in enumerate(lay):
                b = I.new_heap("line", True)
                for k, x in enumerate(l):
                    if isinstance(x, frozenset):
                        s = S("ch", li, k)
                        syms[s] = (li, k)
                        I.set_dom(s, [v - 256 if v > 127 else v for v in sorted(x)])
                        x = s
                    I.mem[b.loc + (("i", k),)] = x if not isinstance(x, int) or x < 128 else x - 256
                I.mem[b.loc + (("i", len(l)),)] = 0
                lines.append(Ptr(b.loc + (("i", 0),)))
            f = w.obj(lines=lines, num_lines=len(lay), path="f.csp")
            lx = I.new_heap("lexer")
            ctx = I.new_heap("ctx", True)
            I.run_fn(p.fn("init_lexer"), [lx, ctx, f])
            fl = lx.loc + (("f", "tmp_buffer_size"),)
            if fl in I.mem and name.startswith(("kw-", "id", "num", "ops")):
                # a small buffer: growth happens within reach
                tb = I.value(I.mem[lx.loc + (("f", "tmp_buffer"),)])
                I.mem[fl] = 4
                sizes[tb.loc[0]] = 4
            t = I.run_fn(p.fn("lexer_next_token"), [lx])
            g = lambda o, *fs: I.value(I.load(I.deref_loc(o) + tuple(("f", x) for x in fs)))
            doms = {s: ([I.eq[s]] if isinstance(I.eq.get(s), int) else [v for v in I.dom[s] if v not in I.neq.get(s, ())]) for s in syms}
            return (g(t, "type"), I.text(Ptr(I.deref_loc(t) + (("f", "value"),))), g(t, "line"), g(lx, "line"), g(lx, "pos"), g(lx, "c"), doms, list(faults))
        old = I.stop

        bad = None
        res = []

        def run(I):
            try:
                return go(I)
            except StopPath as s:
                doms = {x: ([I.eq[x]] if isinstance(I.eq.get(x), int) else [v for v in I.dom[x] if v not in I.neq.get(x, ())]) for x in syms}
                return ("stop", s.why, doms, list(faults))
        ps = I.explore(run)
        c.seen(I, ps)
        total += len(ps)
        for q in ps:
            r = q.ret
            doms, fl = r[-2], r[-1]
            if fl:
                bad = "%s writes %d bytes into a buffer of %d" % fl[0][:3]
                break
            if any(not d for d in doms.values()):
                continue
            ss = list(doms)
            envs = []
            base = {s: doms[s][0] for s in ss}
            for s in ss:
                for v in doms[s]:
                    envs.append({**base, s: v})
            for _ in range(min(40, 4 ** len(ss))):
                envs.append({s: rnd.choice(doms[s]) for s in ss})
            # extremes
            for pick in (0, -1):
                envs.append({s: sorted(doms[s], key=lambda v: v & 255)[pick] for s in ss})
            for env in envs:
                if any(isinstance(cd[0], Sym) and not conds_hold(cd, env) for cd in q.conds):
                    continue
                e8 = {s: v & 255 for s, v in env.items()}
                text = [bytes(x if isinstance(x, int) else e8[S("ch", li, k)] for k, x in enumerate(l)) for li, l in enumerate(lay)]
                try:
                    want = ref(text, 0)
                except Err as x:
                    want = x
                src = b"".join(text)
                show_ = "%r" % (src if len(src) < 40 else src[:40] + b"...")
                if r[0] == "stop":
                    if not isinstance(want, Err):
                        bad = "source %s: lexing ends with %s instead of the token %s" % (show_, r[1], want[:2])
                    elif not (r[1].startswith("fatal") or r[1] == "exit"):
                        bad = "source %s: %s" % (show_, "does not end" if "loop" in r[1] else r[1])
                else:
                    errs = [ev for ev in q.events if ev[0] == "error" and err.is_error(p.enum(ev[1]))]
                    if isinstance(want, Err):
                        if not errs:
                            bad = "source %s: malformed text becomes the token %s without an error" % (show_, tt.get(r[0]))
                    elif errs:
                        bad = "source %s: rejected (%s)" % (show_, errs[0][1])
                    else:
                        wt, wv, wl, wn = want
                        got = tt.get(r[0], r[0])
                        if got != wt:
                            bad = "source %s: token kind %s instead of %s" % (show_, got, wt)
                        else:
                            if wv is not None and wv != "?":
                                try:
                                    gv = eval_parts(r[1], e8)
                                except AttributeError:
                                    raise AnalysisBroken("%s: %r" % (name, r))
                                if gv != wv and not (got in ("TOKEN_INT", "TOKEN_FLOAT") and gv == wv + b"."):
                                    bad = "source %s: token value %r instead of %r" % (show_, gv, wv)
                            if wl is not None and r[2] != wl:
                                bad = "source %s: reported in line %s instead of %d" % (show_, show(r[2]), wl)
                            # where lexing resumes
                            rc = r[5]
                            n = len(src)
                            if wt != "TOKEN_EOF":
                                if wn >= n:
                                    okp = rc in (0, -1)
                                    nxt = "the end"
                                else:
                                    li = src[:wn].count(b"\n")
                                    po = wn - (src.rfind(b"\n", 0, wn) + 1)
                                    okp = (r[3], r[4]) == (li, po)
                                    cv = e8.get(rc, rc) if not isinstance(rc, int) else rc & 255
                                    okp = okp and cv == src[wn]
                                    nxt = "line %d, column %d" % (li, po)
                                if not okp:
                                    bad = bad or "source %s: lexing resumes at line %s, column %s instead of %s" % (show_, show(r[3]), show(r[4]), nxt)
                            elif rc not in (0, -1):
                                bad = bad or "source %s: end of file reported before the end" % show_
                if bad:
                    break
            if bad:
                break
        c.ob(name, bad is None and bool(ps), bad or "as the lexical grammar says", wh)
    c.stats["partitions"] = total


def conds_hold(cd, env):
    t, b = cd
    try:
        from terms import evalt
        return bool(evalt(t, env)) == b
    except Exception:
        return True

"""C01: compile-time integer evaluation agrees with the operators' meaning."""
from csp import *
from terms import *
from fw import where

BIN = {
    "ND_ADD": lambda a, b: a + b, "ND_SUB": lambda a, b: a - b, "ND_MUL": lambda a, b: a * b,
    "ND_DIV": lambda a, b: cdiv(a, b), "ND_MOD": lambda a, b: a - cdiv(a, b) * b,
    "ND_EQ": lambda a, b: int(a == b), "ND_NE": lambda a, b: int(a != b), "ND_GT": lambda a, b: int(a > b),
    "ND_GE": lambda a, b: int(a >= b), "ND_LT": lambda a, b: int(a < b), "ND_LE": lambda a, b: int(a <= b),
    "ND_AND": lambda a, b: int(bool(a) and bool(b)), "ND_OR": lambda a, b: int(bool(a) or bool(b)),
    "ND_LSHIFT": lambda a, b: a << b, "ND_RSHIFT": lambda a, b: a >> b, "ND_XOR": lambda a, b: a ^ b,
    "ND_BIT_OR": lambda a, b: a | b, "ND_BIT_AND": lambda a, b: a & b,
}
UN = {"ND_NEG": lambda a: -a, "ND_NOT": lambda a: int(not a), "ND_BIT_NEG": lambda a: ~a}
LIT = {"ND_INT": "int_val", "ND_LONG": "long_val", "ND_ULONG": "ulong_val", "ND_BOOL": "bool_val"}
NEVER = ["ND_STR", "ND_ARRAY", "ND_STRUCT", "ND_REF", "ND_DEREF", "ND_INC", "ND_DEC", "ND_ASSIGN", "ND_MEMBER", "ND_CALL", "ND_INDEX",
         "ND_LAMBDA", "ND_PIPE", "ND_HOLE"]


def body(c, p):
    c.rule("Each evaluator is interpreted abstractly once per expression kind with its operands as opaque terms; the returned term (over all "
           "partitions) must equal the operator applied to the operands, left operand first, at every edge value; kinds that have no "
           "compile-time value must reach an error diagnostic on every path.")
    c.require(60)
    err = Errors(p)
    for fname, signed in (("const_u64", False), ("const_i64", True)):
        f = p.fn(fname)
        dom = (64, signed)
        L, R = S("val", fld(NODE, "left")), S("val", fld(NODE, "right"))

        def rec(I, a, e):
            n = I.value(a[1])
            if n is NODE:
                return NotImplemented
            if isinstance(n, int):
                return 0
            return S("val", n)
        for kn, kv in kinds(p):
            if not (kn in BIN or kn in UN or kn in LIT or kn in NEVER or kn in ("ND_CLOSURE", "ND_SIZEOF", "ND_CHAR", "ND_ID", "ND_NIL")):
                continue
            I = Interp(p, hooks={"const_u64": rec, "const_i64": rec, "throw_error": err.hook()})

            def go(I):
                pin(I, NODE, kind=kv)
                I.neq.setdefault(NODE, set()).add(0)
                for x in ("left", "right", "value", "expr"):
                    I.neq.setdefault(fld(NODE, x), set()).add(0)
                return I.run_fn(f, [CTX, NODE])
            paths = I.explore(go)
            c.seen(I, paths)
            key = "%s:%s" % (fname, kn)
            wh = where(f)

            def errs(path):
                return any(ev[0] == "error" and err.is_error(p.enum(ev[1])) for ev in path.events)
            if kn in BIN or kn in UN:
                bad = None
                sm = samples(64, signed)
                rs = sm if kn in BIN else [0]
                for a in sm:
                    for b in rs:
                        if kn in ("ND_LSHIFT", "ND_RSHIFT") and not 0 <= b < 64:
                            continue
                        env = {L: a, R: b} if kn in BIN else {R: a}
                        sel = path_value(paths, env, dom)
                        div0 = kn in ("ND_DIV", "ND_MOD") and b == 0
                        if not sel:
                            bad = "no path for operands %s, %s" % (a, b)
                        for q in sel:
                            if div0:
                                if not errs(q):
                                    bad = "division by a zero constant reaches no diagnostic"
                                continue
                            if kn in ("ND_DIV", "ND_MOD") and signed and a == -(1 << 63) and b == -1:
                                continue
                            if errs(q) or q.end != "return":
                                bad = "operands %s, %s are rejected" % (a, b)
                                continue
                            want = wrap(BIN[kn](a, b) if kn in BIN else UN[kn](a), *dom)
                            try:
                                got = wrap(evalt(q.ret, env, dom), *dom)
                            except Undefined as u:
                                got = str(u)
                            except Opaque as o:
                                got = "a term over %s" % (o,)
                            if got != want:
                                bad = "evaluates to `%s`; for operands (%s, %s) that is %s, the operator gives %s" % (show(q.ret), a, b, got, want)
                        if bad:
                            break
                    if bad:
                        break
                c.ob(key, bad is None, bad or "equals the operator on all edge values", wh)
            elif kn in LIT:
                src = fld(NODE, LIT[kn])
                bits, sg = {"int_val": (32, True), "long_val": (64, True), "ulong_val": (64, False), "bool_val": (1, False)}[LIT[kn]]
                bad = None
                for q in paths:
                    if errs(q):
                        bad = "literal rejected"
                        break
                    for a in samples(bits, sg):
                        try:
                            if wrap(evalt(q.ret, {src: a}, dom), *dom) != wrap(a, *dom):
                                bad = "literal value becomes %s" % show(q.ret)
                        except (Opaque, Undefined):
                            bad = "literal value becomes %s" % show(q.ret)
                c.ob(key, bad is None, bad or "value of the literal", wh)
            elif kn == "ND_NIL":
                c.ob(key, all(q.ret == 0 for q in paths), "nil is 0", wh)
            elif kn == "ND_CHAR":
                want = S("load", (("d", fld(NODE, "str_val")),))
                ok = True
                for q in paths:
                    for a in range(0, 128, 9):
                        try:
                            ok = ok and evalt(q.ret, {want: a, fld(NODE, "int_val"): a}, dom) == a
                        except Opaque:
                            ok = False
                c.ob(key, ok, "value of the character", wh)
            elif kn == "ND_CLOSURE":
                ok = bool(paths)
                for q in paths:
                    sz = fld(NODE, "exprs", "size")
                    want = S("val", S("load", (("d", fld(NODE, "exprs", "items")), ("i", S("bin", "+", sz, -1)))))
                    one = S("val", S("load", (("d", fld(NODE, "exprs", "items")),)))
                    if q.ret is not want and not (q.facts.get(sz) == 1 and q.ret is one):
                        ok = False
                c.ob(key, ok, "a parenthesised list has the value of its last expression", wh)
            elif kn == "ND_SIZEOF":
                src = fld(NODE, "the_type", "size")
                ok = bool(paths)
                for q in paths:
                    try:
                        ok = ok and all(evalt(q.ret, {src: a}, dom) == a for a in (0, 1, 8, 4096, 1 << 30)) and not errs(q)
                    except Opaque:
                        ok = False
                c.ob(key, ok, "sizeof is the size of its type", wh)
            elif kn == "ND_ID":
                val = S("val", fld(NODE, "referenced_obj", "value"))
                ok, msg, got = True, "", False
                for q in paths:
                    if errs(q):
                        continue
                    got = True
                    if q.ret is not val:
                        ok, msg = False, "an identifier evaluates to %s" % show(q.ret)
                    const = any(t is fld(NODE, "referenced_obj", "is_constant") and b for t, b in q.conds)
                    k = q.facts.get(fld(NODE, "referenced_obj", "kind"))
                    if k != p.enum("OBJ_ENUM_MEMBER") and not (const and k == p.enum("OBJ_GLOBAL")):
                        ok, msg = False, "an identifier that is not known to be constant is evaluated"
                c.ob(key, ok and got, msg or "constants only", wh)
            else:
                ok = all(errs(q) or q.end in ("unreachable",) for q in paths) and bool(paths)
                c.ob(key, ok, "has no compile-time value, must be diagnosed" if not ok else "diagnosed", wh)
    c.stats["evaluators"] = ["const_u64", "const_i64"]

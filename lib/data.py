"""Data sections: what the generator emits for the globals of a program, as symbols with an image."""
import re, struct
from sema import *


class Sym_:
    def __init__(self, name, section, align):
        self.name, self.section, self.align, self.cells, self.size, self.glob = name, section, align, [], None, False

    def __repr__(self):
        return "%s %s align %d size %s: %s" % (self.section, self.name, self.align, self.size, self.cells)


def assemble(lines):
    """directives -> {label: Sym_}; a cell is a byte or (symbol, index)"""
    out, sec, al, cur, glob, size = {}, None, 1, None, set(), {}
    for ln in lines:
        ln = ln.strip()
        if not ln:
            continue
        m = re.fullmatch(r"([\w.$:<>]+):", ln)
        if m:
            if m.group(1) in out:
                raise AsmError("label %s is defined twice" % m.group(1))
            cur = out[m.group(1)] = Sym_(m.group(1), sec, al)
            al = 1
            continue
        op, _, arg = ln.partition(" ")
        arg = arg.strip()
        if op in (".globl", ".global"):
            glob.add(arg)
        elif op in (".data", ".bss", ".text"):
            sec, cur = op, None
        elif op in (".section",):
            sec = arg.split(",")[0]
            cur = None
        elif op == ".type":
            pass
        elif op == ".size":
            n, _, v = arg.partition(",")
            size[n.strip()] = int(v)
        elif op in (".align", ".p2align", ".balign"):
            al = int(arg) if op != ".p2align" else 1 << int(arg)
            cur = None
        elif op in (".zero", ".skip"):
            n = int(arg)
            if n < 0:
                raise AsmError("`%s`" % ln)
            put(cur, [0] * n, ln)
        elif op in (".byte", ".2byte", ".4byte", ".8byte", ".quad", ".long", ".short", ".word", ".int", ".value"):
            k = {".byte": 1, ".2byte": 2, ".4byte": 4, ".8byte": 8, ".quad": 8, ".long": 4, ".int": 4, ".short": 2, ".word": 2, ".value": 2}[op]
            for x in arg.split(","):
                x = x.strip()
                if re.fullmatch(r"-?\d+|0x[0-9a-fA-F]+", x):
                    v = int(x, 0)
                    if not -(1 << 63) <= v < 1 << 64:
                        raise AsmError("`%s`: the assembler rejects the value" % ln)
                    put(cur, [(v >> (8 * i)) & 255 for i in range(k)], ln)
                elif re.fullmatch(r"[A-Za-z_.$][\w.$]*", x):
                    put(cur, [(x, i) for i in range(k)], ln)
                else:
                    raise AsmError("`%s` is no directive the assembler takes" % ln)
        elif op in (".string", ".asciz"):
            m = re.fullmatch(r'"(.*)"', arg)
            put(cur, list(unescape(m.group(1))) + [0], ln)
        else:
            raise AsmError("unknown directive `%s`" % ln)
    for n, v in size.items():
        if n in out:
            out[n].size = v
    for n in glob:
        if n in out:
            out[n].glob = True
    return out


class AsmError(Exception):
    pass


def put(cur, cells, ln):
    if cur is None:
        raise AsmError("`%s` belongs to no label" % ln)
    cur.cells += cells


def unescape(s):
    i = 0
    b = bytearray()
    while i < len(s):
        if s[i] == "\\":
            m = re.match(r"[0-7]{1,3}", s[i + 1:])
            if m:
                b.append(int(m.group(0), 8) & 255)
                i += 1 + len(m.group(0))
                continue
            b.append({"n": 10, "t": 9, "r": 13, "b": 8, "f": 12}.get(s[i + 1], ord(s[i + 1])))
            i += 2
        else:
            b += s[i].encode("latin-1")
            i += 1
    return bytes(b)


def emitted(P, what=("asm_gen_data", "asm_gen_string_literals")):
    I, p = P.I, P.I.p
    n = len(I.events)
    cg = P.w.obj(context=P.ctx, ast=P.ast, code_buffer=S("var", "out"), string_literals=[])
    for f in what:
        I.run_fn(p.fn(f), [cg, I.load(P.ast.loc + (("f", "objs"),))] if f == "asm_gen_data" else [cg])
    t = []
    for e in I.events[n:]:
        if e[0] == "write":
            for x in e[2]:
                if not isinstance(x, str):
                    if isinstance(x, tuple):
                        raise AnalysisBroken("emits %r" % (x,))
                    x = str(x)
                t.append(x)
    return "".join(t).split("\n")

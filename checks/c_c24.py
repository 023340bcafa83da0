"""C24: a function or lambda with a result returns one on every way through its body; one that does is accepted."""
import random
import re
from sema import *
from c_c22 import Sema

ATOMS = ["<- 1;", "g();", "break;", "continue;", "{}"]
ONE = ["if c %s", "loop %s", "while c %s", "do %s while c;", "do %s unless c;", "for let i = 0; i < 3; i++; %s", "for let i = 0;; i++; %s", "for 0 .. v %s", "using n; %s", "using n for %s", "match v { _ => %s }", "match v { 1 => %s }", "{ %s }"]
TWO = ["if c %s else %s", "{ %s %s }", "match v { 1 => %s < 2 => %s }", "match v { 1 => %s _ => %s }"]
THREE = ["{ %s %s %s }", "match v { 1 => %s > 2 => %s _ => %s }"]
LOOPS = ("loop", "while", "do", "for")


def body_text(s):
    return s if s.startswith("{") else "{ %s }" % s


class Skel:
    """statement trees; break and continue only inside of a loop"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def fill(self, t, kids):
        blockish = not t.startswith("{") and "match" not in t
        return t % tuple(body_text(k) if blockish or "=>" in t else k for k in kids)

    def level(self, below, inloop_below):
        """statements with one construct over `below` (inloop_below: what a loop body may be)"""
        out = []
        for t in ONE:
            for k in (inloop_below if t.startswith(LOOPS) else below):
                out.append(self.fill(t, (k,)))
        return out

    def rnd(self, d, loop):
        r = self.r
        if d == 0 or r.random() < .15:
            return r.choice(ATOMS if loop else ["<- 1;", "<- 1;", "g();", "{}"])
        x = r.random()
        t = r.choice(ONE if x < .45 else TWO if x < .85 else THREE)
        inner = loop or t.startswith(LOOPS)
        return self.fill(t, [self.rnd(d - 1, inner) for _ in range(t.count("%s"))])


def skeletons(thorough):
    s = Skel(24)
    flat = [a for a in ATOMS if a not in ("break;", "continue;")]
    one = flat + s.level(flat, ATOMS)
    one_l = ATOMS + s.level(ATOMS, ATOMS)
    for t in TWO:
        one += [s.fill(t, (a, b)) for a in flat for b in flat]
        one_l += [s.fill(t, (a, b)) for a in ATOMS for b in ATOMS]
    two = s.level(one, one_l)
    for t in TWO:
        two += [s.fill(t, (a, b)) for a in one for b in s.r.sample(one, 40 if thorough else 4)]
    out = one + two
    for d, n in ((3, 8000 if thorough else 500), (4, 8000 if thorough else 400)):
        out += [s.rnd(d, False) for _ in range(n)]
    return list(dict.fromkeys(out))


PRE = "namespace n { } fn g() {} "


def body(c, p):
    err = Errors(p)
    m = Sema(c, p, err, 30)
    fn = p.fn("stmt_returns_value")
    w = "%s (stmt_returns_value)" % fn.file
    c.rule("For statement trees over every control construct (all with one construct, all single constructs over those, pairs and random trees of depth 3 and 4): parser_pass and validator_pass, executed abstractly on a function or lambda with a result having that body, accept it only if "
           "no way through the body - conditions taken either way - reaches its end; and they accept it if so, where seeing that takes neither dead statements nor `using`/`do unless`.")
    sk = skeletons(c.thorough)
    key = lambda s: "body %s" % " ".join(re.findall(r"if|else|loop|while|do|unless|for let|for \d|using|match|_", s)[:2])
    by = {}
    for s in sk:
        by.setdefault(key(s), []).append(s)
    for k, ss in by.items():
        m.funcs(k, PRE, ["fn f(c: bool, v: i32): i32 { %s }" % s for s in ss])
    m.run(w)
    r = random.Random(3)
    ls = r.sample(sk, 1500 if c.thorough else 200)
    m.funcs("lambda", PRE, ["fn f(c: bool, v: i32) { let x = |c: bool, v: i32| i32 => { %s }; }" % s for s in ls])
    m.funcs("no result", PRE, ["fn f(c: bool, v: i32) { %s }" % s.replace("<- 1;", "ret;") for s in ls])
    m.funcs("alias result", "type I: i32; type V: void; " + PRE, ["fn f(c: bool, v: i32): %s { %s }" % (t, s) for t in ("I", "const i32", "&i32") for s in ("g();", "if c { <- nil; }", "<- nil;", "if c { <- 1; }", "<- 1;")])
    m.funcs("lambda in function", PRE, ["fn f(c: bool, v: i32): i32 { let x = |y: i32| i32 => { <- 1; }; %s }" % s for s in ("", "<- 1;", "x(1);", "if c { <- 1; }")])
    m.run(w)
    # statements the reference has no types for: acceptance alone
    s = Skel(25)
    inner = ["<- 1;", "g();", "break;", "continue;", "{}", "if c { break; }", "if c { <- 1; }", "{ g(); break; }", "match v { 1 => break; }", "loop { break; }"]
    forms = [x % b for x in ("with w = mw() { %s }", "with w = mw() { g(); } else { %s }", "with w = mw() { <- 1; } else { %s }", "with w = mw() { %s } else { <- 1; }", "match (type) i32 { i32 => { %s } _ => { <- 1; } }",
                             "match (type) i64 { i32 => { <- 1; } _ => { %s } }", "using n for { %s }", "with w = mw() { with z = mw() { %s } }", "match v { 1 => {} _ => { with w = mw() { %s } } }") for b in inner]
    bodies = ["%s { %s }" % (l, f) for l in ("loop", "for let i = 0;; i++;", "while c") for f in forms]
    bodies += ["do { %s <- 1; } while c;" % f for f in forms] + ["do { %s } while c;" % f for f in forms] + ["loop { %s <- 1; }" % f for f in forms[::3]]
    bodies += [f for f in forms if not re.search("break|continue", f.replace("loop { break; }", ""))]
    bodies += ["%s <- 1;" % b for b in bodies[::7] if not b.startswith("loop")]
    if not c.thorough:
        bodies = bodies[::2] + bodies[1::6]
    jobs = []
    for b in bodies:
        pre = "type W: struct { p: i32 }; let wg: W; fn mw(): &W { <- &wg; } [drop] fn wx(k: &W) { } " + PRE
        src = pre + "fn f(c: bool, v: i32): i32 { %s }" % b
        ref = G(tokens(src.replace("[drop] ", ""))).program()
        fs = [d for d in ref if d[0] == "FUNCTION" and d[1].removeprefix("::") == "f"]
        if len(fs) != 1:
            raise AnalysisBroken("no tree for " + src)
        try:
            jobs.append((b, src, returns(fs[0][6])))
        except Skip:
            pass

    def work(job):
        b, src, want = job
        I, ps, rs = run_program(p, err, src)
        for x in rs:
            if x.accepted != want:
                return ("accepted, but: missing return in f" if x.accepted else "rejected %s" % (x.errors,)), sorted(I.fns_seen)
        return None, sorted(I.fns_seen)
    for job, (st, x) in zip(jobs, pmap(work, jobs)):
        if st == "broken":
            raise AnalysisBroken("%s: %s" % (job[0], x[-700:]))
        c.functions |= set(x[1])
        c.paths += 1
        c.ob("body with" if "with" in job[0] else "body match type" if "type" in job[0] else "body using", x[0] is None, "%s\n      in: fn f(c: bool, v: i32): i32 { %s }" % (x[0], job[0]), w)
    c.stats.update(acceptance_only=len(jobs))
    c.require(800)

"""Loads /repo's current C sources as a resolved, macro-expanded program.

Every translation unit of the compiler, the linter and the API library is
parsed with clang (the extractor in /verif/extract) using the flags of the real
build; nothing of the repository is executed.
"""
import hashlib, json, os, pickle, subprocess, sys, tempfile, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EXTRACT = os.path.join(BUILD, "cextract")


class AnalysisBroken(Exception):
    """The analysis lost an anchor or cannot parse the tree: no verdict."""


def ensure_extractor():
    if os.path.exists(EXTRACT):
        return
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(EXTRACT):
            subprocess.run(["sh", os.path.join(HERE, "extract", "build.sh")], check=True, stdout=sys.stderr)


def sources():
    out = []
    for d in ("src/compiler", "src/linter", "src/api"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in sorted(files):
                if f.endswith(".c") and f != "example.c":
                    out.append((d, os.path.join(root, f)))
    return sorted(out)


def _hash():
    h = hashlib.sha256()
    with open(EXTRACT, "rb") as f:
        h.update(hashlib.sha256(f.read()).digest())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        if "/std" in root:
            continue
        for f in sorted(files):
            if f.endswith((".c", ".h", ".in")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def _extract_all(tmp):
    inc = os.path.join(tmp, "inc")
    os.makedirs(inc)
    vin = os.path.join(REPO, "src/compiler/version.h.in")
    txt = open(vin).read() if os.path.exists(vin) else ""
    for k in ("version-x", "version-y", "version-z", "git-hash"):
        txt = txt.replace("@%s@" % k, "0")
    with open(os.path.join(inc, "version.h"), "w") as f:
        f.write(txt)

    def one(i_src):
        i, (d, src) = i_src
        out = os.path.join(tmp, "%d.json" % i)
        cwd = os.path.join(REPO, d)
        args = ["-I."] + ([] if d == "src/compiler" else ["-I../compiler"]) + [
            "-std=gnu17", "-D__NO_CTYPE", '-DDEFAULT_STD_PATH="/usr/local/share/cspydr/std"', "-I/usr/include/pkgconf",
            "-I/usr/include/json-c", "-I" + inc, "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w"]
        r = subprocess.run([EXTRACT, REPO.rstrip("/") + "/", out, src, "--"] + args, cwd=cwd,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(out):
            raise AnalysisBroken("cannot parse %s:\n%s" % (src, r.stdout.decode(errors="replace")[-2000:]))
        with open(out) as f:
            return d, os.path.relpath(src, REPO), json.load(f)

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, enumerate(sources())))


def load():
    ensure_extractor()
    key = _hash()
    cdir = os.path.join(BUILD, "cache")
    cp = os.path.join(cdir, key + ".pickle")
    if os.path.exists(cp):
        try:
            with open(cp, "rb") as f:
                return Program(pickle.load(f))
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="cextract")
    try:
        tus = _extract_all(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    try:
        os.makedirs(cdir, exist_ok=True)
        olds = sorted((os.path.join(cdir, f) for f in os.listdir(cdir)), key=os.path.getmtime)
        for o in olds[:-6]:
            os.unlink(o)
        t = cp + ".%d" % os.getpid()
        with open(t, "wb") as f:
            pickle.dump(tus, f, protocol=4)
        os.rename(t, cp)
    except OSError:
        pass
    return Program(tus)


class Fn:
    __slots__ = ("name", "q", "file", "line", "endline", "static", "params", "body", "rt", "variadic", "tu", "noreturn", "part")

    def __repr__(self):
        return "<fn %s>" % self.q


class Type(dict):
    pass


class Program:
    def __init__(self, tus):
        self.fns = {}       # q -> Fn
        self.by_name = {}   # plain name -> [Fn]
        self.globals = {}   # q -> dict
        self.enums = {}     # name -> [(const, value)]
        self.enumval = {}   # const -> value
        self.enumof = {}
        self.records = {}   # name -> dict
        self.types = []     # merged
        self.decls = {}
        self.tus = [t[1] for t in tus]
        tmap = {}
        for part, src, d in tus:
            off = len(self.types)
            for t in d["types"]:
                t = dict(t)
                if "e" in t:
                    t["e"] += off
                self.types.append(t)
            remap(d["functions"], off)
            remap(d["globals"], off)
            for f in d["functions"]:
                o = Fn()
                o.name, o.q, o.file, o.line, o.endline, o.static = f["n"], f["q"], f["f"], f["l"], f["el"], f["st"]
                o.params, o.body, o.rt, o.variadic, o.noreturn = f["p"], f["b"], f["rt"], f["va"], f["nr"]
                o.tu, o.part = src, part
                if o.q in self.fns and self.fns[o.q].file != o.file:
                    # same external name in two programs (compiler / linter): compiler wins, keep the other qualified
                    if part == "src/compiler":
                        old = self.fns[o.q]
                        self.fns[o.q + "@" + old.file] = old
                        self.fns[o.q] = o
                    else:
                        o.q = o.q + "@" + o.file
                        self.fns[o.q] = o
                else:
                    self.fns.setdefault(o.q, o)
            for g in d["globals"]:
                q = g["q"]
                cur = self.globals.get(q)
                if cur is None or ("i" in g and "i" not in cur) or (cur.get("ext") and not g.get("ext")):
                    g = dict(g)
                    g["tu"] = src
                    self.globals[q] = g
            for e in d["enums"]:
                cs = [(n, int(v)) for n, v in e["c"]]
                if e["f"].startswith("/"):
                    continue
                self.enums[e["n"]] = cs
                for n, v in cs:
                    self.enumval[n] = v
                    self.enumof[n] = e["n"]
            for r in d["records"]:
                r = dict(r)
                r["fl"] = [[x[0], x[1] + off] + x[2:] for x in r["fl"]]
                if r["n"] not in self.records:
                    self.records[r["n"]] = r
            for f in d["decls"]:
                k = f["q"]
                cur = self.decls.get(k)
                f = dict(f)
                f["rt"] += off
                f["pt"] = [x + off for x in f["pt"]]
                if cur is None or ("fmt" in f and "fmt" not in cur):
                    if cur is not None:
                        f["nr"] = f["nr"] or cur["nr"]
                    self.decls[k] = f
                elif f["nr"]:
                    cur["nr"] = True
        for f in self.fns.values():
            self.by_name.setdefault(f.name, []).append(f)
        # names that denote the same storage (members of unions), per field name
        self.alias = {}
        self.alias_of = {}      # the same per (name, kind and size of its type)
        self.unions = {}        # member name -> (union, type, name)
        for r in self.records.values():
            grp = {}
            for n, t, u, o, w in r["fl"]:
                grp.setdefault(o, []).append((n, t, w))
            for g in grp.values():
                for n, t, w in g:
                    for n2, t2, w2 in g:
                        if n2 != n and (w < 8) == (w2 < 8) and not (w != w2 and "flags" in (n, n2)):
                            self.alias.setdefault(n, {})[n2] = (w2, t2)
                            ty = self.types[t]
                            self.alias_of.setdefault((n, ty["k"], ty.get("sz")), {})[n2] = (w2, t2)
            if r["u"]:
                for n, t, u, o, w in r["fl"]:
                    self.unions.setdefault(n, []).append((r, t, n))
        self._refs = None

    # -- access -----------------------------------------------------------
    def fn(self, name, file=None):
        l = self.by_name.get(name, [])
        if file:
            l2 = [f for f in l if f.file.endswith(file)]
            l = l2 or l
        if len(l) > 1:
            l2 = [f for f in l if f.part == "src/compiler"]
            l = l2 or l
        if not l:
            raise AnalysisBroken("function %s not found in the current tree" % name)
        return l[0]

    def has_fn(self, name):
        return bool(self.by_name.get(name))

    def glob(self, name, file=None):
        c = [g for g in self.globals.values() if g["n"] == name and (file is None or g["tu"].endswith(file) or g["f"].endswith(file))]
        c = [g for g in c if "i" in g] or c
        if not c:
            raise AnalysisBroken("global %s not found in the current tree" % name)
        return c[0]

    def enum(self, const):
        if const not in self.enumval:
            raise AnalysisBroken("enum constant %s not found" % const)
        return self.enumval[const]

    def enum_members(self, const):
        """all (name,value) of the enum that declares `const`"""
        if const not in self.enumof:
            raise AnalysisBroken("enum constant %s not found" % const)
        return self.enums[self.enumof[const]]

    def type(self, i):
        return self.types[i]

    def tstr(self, i):
        return self.types[i]["s"]


def remap(o, off):
    """shift type ids in place"""
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("t", "rt", "so", "ct") and isinstance(v, int) and not isinstance(v, bool):
                    x[k] = v + off
                elif isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    stack.append(v)


# -- generic AST helpers --------------------------------------------------------
def walk(n):
    """pre-order over every statement/expression dict"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            stack.extend([v for k, v in x.items() if isinstance(v, (dict, list))][::-1])
        elif isinstance(x, list):
            stack.extend([v for v in x if isinstance(v, (dict, list))][::-1])


def calls(n):
    for x in walk(n):
        if x["k"] == "call":
            yield x


def callee(x):
    f = x["f"]
    return f["n"] if f and f["k"] == "fn" else None


def plain(q):
    return q.split("@")[0] if q else q

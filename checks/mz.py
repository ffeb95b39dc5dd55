"""Front end of the checkers: regenerates the scanner/parser from /repo's grammar, type-checks every
translation unit of /repo (plus one synthetic unit which includes every header) with the libTooling fact
extractor, and offers the merged facts as Python objects."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MZ_REPO", "/repo")
TOOL = os.path.join(VERIF, "build", "mzfacts")
STUBS = os.path.join(VERIF, "stubs")
RES = "/usr/lib/llvm-18/lib/clang/18"
CACHE = os.path.join(VERIF, "build", "cache")
FORMAT = 6  # of the cached facts


# class hierarchies of the syntax tree which can be dispatched on
HIERARCHIES = ["literal::literal", "name::name", "query::expression", "query::grouping_element", "query::select_element", "scalar::expression",
               "statement::statement", "statement::table_element", "statement::constraint", "statement::alter_table_action",
               "statement::alter_index_action", "table::expression", "table::join_specification", "type::type"]


class Broken(Exception):
    """the analysis itself cannot give an answer (vanished anchor, unparsable tree, ...)"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------- extraction

def _tree_files():
    r = []
    for top in ("src", "include"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if f.endswith((".cpp", ".h", ".hpp", ".yy", ".ll", ".inc", ".ipp")):
                    r.append(os.path.join(d, f))
    return sorted(r)


def _hash(paths, extra=()):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:24]


def _stub_files():
    r = []
    for d, _, fs in os.walk(STUBS):
        r += [os.path.join(d, f) for f in fs]
    return sorted(r)


def _run(cmd, cwd=None):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def generate(gen):
    """flex/bison, with the project's flags, into the scratch directory"""
    g = os.path.join(gen, "mizugaki", "parser")
    os.makedirs(g, exist_ok=True)
    src = os.path.join(REPO, "src", "mizugaki", "parser")
    r = _run(["flex", "-Cfe", "-o", "sql_scanner_generated.cpp", os.path.join(src, "sql_scanner.ll")], g)
    if r.returncode:
        raise Broken("flex failed: " + r.stdout[-2000:])
    r = _run(["bison", "-Wno-conflicts-sr", "-d", "-ra", "--xml=sql_parser.xml", "-o", "sql_parser_generated.cpp",
              os.path.join(src, "sql_parser.yy")], g)
    if r.returncode:
        raise Broken("bison failed: " + r.stdout[-2000:])
    # the same automaton with all lookaheads spelled out
    la = os.path.join(gen, "lookaheads")
    os.makedirs(la, exist_ok=True)
    r = _run(["bison", "-Wnone", "-Flr.default-reduction=accepting", "--xml=sql_parser.xml", "-o", "x.cpp", os.path.join(src, "sql_parser.yy")], la)
    if r.returncode:
        raise Broken("bison failed: " + r.stdout[-2000:])
    return g


def _extract_one(job):
    src, out, gen, extra_inc = job
    cmd = [TOOL, out, ":".join([REPO + "/src", REPO + "/include", gen]), "--", src, "-std=c++17", "-w", "-ferror-limit=0",
           "-resource-dir", RES, "-I" + STUBS, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + gen, "-I" + extra_inc]
    for attempt in range(8):
        r = _run(cmd)
        m = re.search(r"fatal error: '((?:takatori|yugawara)/[^']+)' file not found", r.stdout)
        if m:  # a header of the absent libraries for which no stand-in exists: an empty one
            p = os.path.join(extra_inc, m.group(1))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "a").close()
            continue
        break
    return src, out, r.returncode, r.stdout


def extract():
    """returns (facts directory, list of (src, json)).  Results are cached by content of everything read."""
    if not os.path.exists(TOOL):
        r = _run(["sh", os.path.join(VERIF, "tool", "build.sh")], VERIF)
        if r.returncode or not os.path.exists(TOOL):
            raise Broken("the fact extractor cannot be built: " + r.stdout[-2000:])
    tree = _tree_files()
    stubs = _stub_files()
    key = _hash(tree + stubs + [TOOL], [REPO, FORMAT])
    final = os.path.join(CACHE, "i-" + key)
    try:
        with open(os.path.join(final, "index.json")) as f:
            units = json.load(f)["units"]
        if all(os.path.exists(u["out"]) for u in units):
            return final
    except (OSError, ValueError):
        pass
    os.makedirs(CACHE, exist_ok=True)
    # keep the cache small
    old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)
    for d in old[:-1500]:
        shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.remove(d)
    headers = [p for p in tree if not p.endswith((".cpp", ".yy", ".ll"))]
    hkey = _hash(headers + stubs + [TOOL], [REPO, FORMAT])
    grams = [p for p in tree if p.endswith((".yy", ".ll"))]
    gkey = _hash(grams, [REPO, FORMAT])
    # generated files: in a place which depends only on the grammar files, since facts quote it
    gen = os.path.join(CACHE, "g-" + gkey)
    g = os.path.join(gen, "mizugaki", "parser")
    if not os.path.exists(os.path.join(gen, "done")):
        shutil.rmtree(gen, ignore_errors=True)
        generate(gen)
        open(os.path.join(gen, "done"), "w").close()
    os.makedirs(final, exist_ok=True)
    srcs = [p for p in tree if p.endswith(".cpp") and p.startswith(REPO + "/src")]
    srcs += sorted(glob.glob(g + "/*.cpp"))
    syn = os.path.join(CACHE, "s-" + hkey)
    os.makedirs(syn, exist_ok=True)
    allh = os.path.join(syn, "all_headers.cpp")
    with open(allh, "w") as f:
        for h in headers:
            if h.endswith(".h"):
                f.write('#include "%s"\n' % h)
    srcs.append(allh)
    # instantiates each dispatch() on each hierarchy, so that its branches appear resolved in the facts
    probe = os.path.join(syn, "probes.cpp")
    with open(probe, "w") as f:
        for ns in sorted({b.rsplit("::", 1)[0] for b in HIERARCHIES}):
            f.write("#include <mizugaki/ast/%s/dispatch.h>\n" % ns)
        f.write("namespace mzprobe {\nstruct callback { template<class T> void operator()(T const&) const {} };\n")
        for i, b in enumerate(HIERARCHIES):
            f.write("void probe%d(::mizugaki::ast::%s const& x) { ::mizugaki::ast::%s::dispatch(callback {}, x); }\n" % (i, b, b.rsplit("::", 1)[0]))
        f.write("}\n")
    srcs.append(probe)
    srcs.sort(key=lambda p: -os.path.getsize(p) if "ast" not in p else 0)
    xinc = os.path.join(CACHE, "x-" + hkey)
    os.makedirs(xinc, exist_ok=True)
    names, jobs, idx = {}, [], []
    for s in srcs:
        dep = [hkey]
        with open(s, "rb") as f:
            txt = f.read()
        if b"generated" in txt or s.startswith(gen) or "/parser/" in s:
            dep.append(gkey)
        names[s] = "f-%s.json" % _hash([s], dep)
        out = os.path.join(CACHE, names[s])
        if os.path.exists(out) and os.path.exists(out + ".rc"):
            with open(out + ".rc") as f:
                rc, txt = json.load(f)
            idx.append({"src": s, "out": out, "rc": rc, "log": txt[-4000:] if rc else ""})
            os.utime(out)
            os.utime(out + ".rc")
        else:
            jobs.append((s, "%s.%d.tmp" % (out, os.getpid()), gen, xinc))
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("MZ_JOBS", "8"))) as ex:
        for src, out, rc, txt in ex.map(_extract_one, jobs):
            if not os.path.exists(out):
                raise Broken("no facts for %s: %s" % (src, txt[-1500:]))
            dst = os.path.join(CACHE, names[src])
            os.rename(out, dst)
            with open(dst + ".rc", "w") as f:
                json.dump([rc, txt], f)
            idx.append({"src": src, "out": dst, "rc": rc, "log": txt[-4000:] if rc else ""})
    order = {s: i for i, s in enumerate(srcs)}
    idx.sort(key=lambda u: order[u["src"]])
    with open(os.path.join(final, "index.json.tmp"), "w") as f:
        json.dump({"gen": gen, "units": idx}, f)
    os.rename(os.path.join(final, "index.json.tmp"), os.path.join(final, "index.json"))
    return final


# ------------------------------------------------------------------------------------------- model

class D:
    """a declaration, unique across translation units (locals: unique within one)"""
    __slots__ = ("u", "q", "n", "k", "t", "v", "rec", "file", "line", "pi", "const", "static", "virt", "cc", "rt", "np",
                 "pat", "ta", "ov", "defd", "deleted", "rq", "local")

    def __repr__(self):
        return "D(%s)" % (self.q or self.n)


class Fn:
    """one function definition"""

    def __init__(self, db, tu, raw):
        self.db = db
        self.tu = tu
        self.raw = raw
        self.d = tu.decl(raw["d"])
        self.q = self.d.q
        self.n = self.d.n
        self.file = tu.files[raw["f"]]
        self.line = raw["l"]
        self.dep = bool(raw.get("dep"))
        self.inst = bool(raw.get("inst"))
        self._res = False

    def _resolve(self):
        if not self._res:
            self._res = True
            tu = self.tu
            for p in self.raw["params"]:
                tu.fix(p, self.raw["f"])
            for i in self.raw.get("inits", ()):
                if "m" in i:
                    i["m"] = tu.decl(i["m"])
                if "base" in i:
                    i["base"] = tu.types[i["base"]]
                if "e" in i:
                    tu.fix(i["e"], self.raw["f"])
            if self.raw["body"]:
                tu.fix(self.raw["body"], self.raw["f"])

    @property
    def params(self):
        self._resolve()
        return self.raw["params"]

    @property
    def body(self):
        self._resolve()
        return self.raw["body"]

    @property
    def inits(self):
        self._resolve()
        return self.raw.get("inits", [])

    def loc(self, node=None):
        if node is not None and "l" in node:
            return "%s:%d" % (rel(node.get("F", self.file)), node["l"])
        return "%s:%d" % (rel(self.file), self.line)

    def __repr__(self):
        return "Fn(%s)" % self.q


def rel(p):
    if p.startswith(REPO + "/"):
        return p[len(REPO) + 1:]
    return re.sub(r"^.*/build/cache/[^/]+/", "<generated>/", p)


class TU:
    def __init__(self, db, path, src):
        with open(path) as f:
            j = json.load(f)
        self.db = db
        self.src = src
        self.j = j
        self.files = j["files"]
        self.types = j["types"]
        self.metas = j["decls"]
        self._d = [None] * len(self.metas)
        self.errors = j["errors"]

    def decl(self, i):
        if i is None or i < 0:
            return None
        d = self._d[i]
        if d is None:
            m = self.metas[i]
            u = m.get("u")
            if u is not None:
                d = self.db.decls.get(u)
                if d is not None:
                    self._d[i] = d
                    return d
            d = D()
            self._d[i] = d
            d.u = u
            d.local = u is None
            d.q = m["q"]
            d.n = m.get("n") or m["q"].split("::")[-1]
            d.k = m["k"]
            d.t = self.types[m["t"]] if "t" in m else None
            d.v = m.get("v")
            d.rec = m.get("rec")
            d.file = self.files[m["f"]] if "f" in m else ""
            d.line = m.get("l", 0)
            d.pi = m.get("pi")
            d.const = bool(m.get("const"))
            d.static = bool(m.get("static"))
            d.virt = bool(m.get("virt"))
            d.cc = m.get("cc")
            d.rt = self.types[m["rt"]] if "rt" in m and m["rt"] >= 0 else None
            d.np = m.get("np")
            d.ta = m.get("ta")
            d.defd = bool(m.get("def"))
            d.deleted = bool(m.get("del"))
            d.rq = m.get("rq")
            d.pat = None
            d.ov = ()
            if u is not None:
                self.db.decls[u] = d
            if "pat" in m:
                d.pat = self.decl(m["pat"])
            if "ov" in m:
                d.ov = tuple(self.decl(x) for x in m["ov"])
        return d

    def fix(self, root, fileid):
        """resolves declaration and type numbers below root, in place (iteratively)"""
        types = self.types
        stack = [(root, fileid)]
        while stack:
            n, f = stack.pop()
            if type(n) is list:
                for x in n:
                    if type(x) is dict:
                        stack.append((x, f))
                continue
            f = n.get("f", f)
            if "l" in n:
                n["F"] = self.files[f] if f >= 0 else ""
            for k, v in n.items():
                if type(v) is dict:
                    stack.append((v, f))
                elif type(v) is list:
                    if k != "ta":
                        stack.append((v, f))
                elif k == "d":
                    n[k] = self.decl(v)
                elif k == "t" or k == "rt":
                    if type(v) is int:
                        n[k] = types[v] if v >= 0 else None
                elif k == "op" and type(v) is int:
                    n[k] = self.decl(v)


class DB:
    def __init__(self, facts):
        self.dir = facts
        with open(os.path.join(facts, "index.json")) as f:
            self.index = json.load(f)
        self.gen = self.index["gen"]
        self.decls = {}
        self.tus = []
        self.fns = {}        # usr -> Fn
        self.records = {}    # canonical type name -> record
        self.enums = {}      # name -> enum
        self.libenums = {}   # those of the libraries
        self.vars = {}       # usr -> var
        self.aliases = {}    # qualified name -> alias
        self.by_q = {}       # qualified name -> [Fn]
        self.nerrors = 0
        self.error_log = []
        for u in self.index["units"]:
            self._load(u)
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)

    def _load(self, u):
        tu = TU(self, os.path.join(self.dir, u["out"]), u["src"])
        self.tus.append(tu)
        if tu.errors:
            self.nerrors += tu.errors
            self.error_log.append((u["src"], u["log"]))
        for raw in tu.j["functions"]:
            d = tu.decl(raw["d"])
            key = d.u or ("%s@%s:%d" % (d.q, tu.files[raw["f"]], raw["l"]))
            if key in self.fns:
                continue
            self.fns[key] = Fn(self, tu, raw)
        for r in tu.j["records"]:
            if r["n"] in self.records:
                continue
            r["file"] = tu.files[r["f"]]
            r["bases"] = [tu.types[b] for b in r["bases"]]
            for x in r["fields"]:
                tu.fix(x, r["f"])
            r["methods"] = [tu.decl(x) for x in r["methods"]]
            for x in r["statics"]:
                tu.fix(x, r["f"])
            for x in r["types"]:
                x["t"] = tu.types[x["t"]]
            self.records[r["n"]] = r
        for e in tu.j["enums"]:
            if e["n"] in self.enums or e["n"] in self.libenums:
                continue
            e["file"] = tu.files[e["f"]]
            for c in e["c"]:
                c["d"] = tu.decl(c["d"])
            (self.enums if self.in_repo(e["file"]) or e["n"].startswith("mizugaki::") else self.libenums)[e["n"]] = e
        for v in tu.j["vars"]:
            d = tu.decl(v["d"])
            key = d.u or "%s@%s:%d" % (v["q"], tu.files[v["f"]], v["l"])
            if key in self.vars:
                continue
            v["file"] = tu.files[v["f"]]
            tu.fix(v, v["f"])
            self.vars[key] = v
        for a in tu.j["aliases"]:
            if a["q"] not in self.aliases:
                self.aliases[a["q"]] = {"q": a["q"], "t": tu.types[a["t"]], "file": tu.files[a["f"]], "l": a["l"]}
        for k in ("functions", "records", "enums", "vars"):
            tu.j[k] = None

    # -- helpers
    def fn_of(self, d):
        """the definition of a declaration; for a template pattern/instantiation, whichever has a body"""
        if d is None:
            return None
        f = self.fns.get(d.u) if d.u else None
        if f is None and d.pat is not None:
            f = self.fns.get(d.pat.u)
        return f

    def in_repo(self, path):
        return path.startswith(REPO + "/")


_db = None


def load():
    global _db
    if _db is None:
        t = time.time()
        d = extract()
        _db = DB(d)
        log("facts: %d units, %d functions, %d records, %d errors, %.1fs" % (len(_db.tus), len(_db.fns), len(_db.records), _db.nerrors, time.time() - t))
    return _db


# ------------------------------------------------------------------------------------------- tree helpers

KIDS = ("init", "var", "cond", "then", "else", "inc", "range", "body", "fn", "e", "sub", "inits", "c")


def children(n):
    for k in KIDS:
        v = n.get(k)
        if v is None:
            continue
        if type(v) is dict:
            if "k" in v:
                yield v
        elif type(v) is list:
            for x in v:
                if type(x) is dict and "k" in x:
                    yield x


def walk(n, into_lambda=True):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if not into_lambda and x["k"] == "Lambda" and x is not n:
            continue
        stack.extend(reversed(list(children(x))))


def callee(n):
    return n.get("d") if n["k"] in ("Call", "Op", "New") else None


def args(n):
    return n.get("c", [])


def recv(n):
    """receiver expression of a member call"""
    if n["k"] == "Call":
        f = n.get("fn")
        if f and f["k"] in ("Mem", "DepMem"):
            return f.get("e")
    return None


def strip(t):
    """type without cv/ref"""
    if t is None:
        return ""
    t = t.strip()
    while True:
        if t.endswith("&&"):
            t = t[:-2].strip()
        elif t.endswith("&"):
            t = t[:-1].strip()
        elif t.startswith("const "):
            t = t[6:].strip()
        elif t.endswith(" const"):
            t = t[:-6].strip()
        else:
            return t


def short(t):
    return re.sub(r"\b(?:\w+::)+", "", t or "")

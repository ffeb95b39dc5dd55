"""Flow-insensitive origin analysis: which members of which parameters can an expression's value come from.

An origin is a pair (root, field): root is a parameter declaration, or 'this', or ('lit', text); field is a member
declaration or None for the whole object.  Calls of functions whose body is in the facts are inlined (bounded), so a
helper extracted from a function leaves the result unchanged."""
from mz import strip, walk, children, recv

TRANSPARENT = {"std::move", "std::forward", "std::addressof", "std::as_const", "std::ref", "std::cref", "std::__addressof"}
MAXDEPTH = 8


def is_transparent(d):
    return d is not None and (d.q in TRANSPARENT)


class Sym:
    def __init__(self, db):
        self.db = db
        self._ret = {}
        self._ctor = {}
        self._env = {}
        self._ev = {}

    # ---------------------------------------------------------------- environments of locals
    def env(self, fn):
        """local declaration -> list of expressions it is made of"""
        e = self._env.get(fn)
        if e is None:
            e = {}
            roots = [fn.body] if fn.body else []
            for i in fn.inits:
                if "e" in i:
                    roots.append(i["e"])
            for r in roots:
                for n in walk(r):
                    k = n["k"]
                    if k == "Var":
                        if "init" in n:
                            e.setdefault(n["d"], []).append(n["init"])
                            for b in n.get("bind", ()):
                                e.setdefault(b["d"], []).append(n["init"])
                    elif k == "ForRange":
                        v = n["var"]
                        e.setdefault(v["d"], []).append(n["range"])
                        for b in v.get("bind", ()):
                            e.setdefault(b["d"], []).append(n["range"])
                    elif k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                        t = root_local(n["c"][0])
                        if t is not None:
                            e.setdefault(t, []).append(n["c"][1])
                    elif k == "Op" and n["op"] == "=" and len(n["c"]) == 2:
                        t = root_local(n["c"][0])
                        if t is not None:
                            e.setdefault(t, []).append(n["c"][1])
                    elif k == "Call":
                        r2 = recv(n)
                        if r2 is not None and n.get("c"):
                            t = root_local(r2)
                            if t is not None and not (n.get("d") and n["d"].const):
                                for a in n["c"]:
                                    e.setdefault(t, []).append(a)
                    if k == "Lambda":
                        for v in n.get("inits", ()):
                            if "init" in v:
                                e.setdefault(v["d"], []).append(v["init"])
            self._env[fn] = e
        return e

    # ---------------------------------------------------------------- expressions
    def origins(self, fn, n, depth=0, seen=frozenset()):
        out = set()
        self._o(fn, n, out, depth, seen)
        return out

    def _o(self, fn, n, out, depth, seen):
        k = n["k"]
        if k == "Ref":
            d = n["d"]
            if d is None:
                return
            if d.k == "ParmVar":
                out.add((d, None))
                if not any(p["d"] is d for p in fn.params):
                    # lambda parameter: no origin known
                    pass
                for x in self.env(fn).get(d, ()):
                    if (d, id(x)) not in seen:
                        self._o(fn, x, out, depth, seen | {(d, id(x))})
                return
            if d.k in ("Var", "Binding", "Decomposition", "VarTemplateSpecialization") and d.local:
                if d in seen:
                    return
                for x in self.env(fn).get(d, ()):
                    self._o(fn, x, out, depth, seen | {d})
                return
            out.add((("lit", d.q), None))
            return
        if k == "This":
            out.add(("this", None))
            return
        if k == "Mem":
            base = set()
            if "e" in n:
                self._o(fn, n["e"], base, depth, seen)
            d = n["d"]
            for (r, f) in base:
                if f is None and not (isinstance(r, tuple)):
                    out.add((r, d))
                else:
                    out.add((r, f))
            return
        if k in ("Str", "Int", "Char", "Bool", "Float"):
            out.add((("lit", str(n.get("v"))), None))
            return
        if k in ("Nullptr", "ValueInit"):
            out.add((("lit", "null"), None))
            return
        if k == "Call" or k == "Op":
            d = n.get("d")
            if d is not None and is_transparent(d):
                for a in n["c"]:
                    self._o(fn, a, out, depth, seen)
                return
            if k == "Call":
                r = recv(n)
                callee = self.db.fn_of(d)
                if callee is not None and callee.body is not None and depth < MAXDEPTH and self.inlinable(callee):
                    res = self.ret(callee, depth + 1)
                    self._subst(fn, res, callee, r, n["c"], out, depth, seen)
                    return
                if r is not None:
                    self._o(fn, r, out, depth, seen)
                elif n.get("fn") and n["fn"]["k"] not in ("Ref", "DepRef"):
                    self._o(fn, n["fn"], out, depth, seen)
                for a in n["c"]:
                    self._o(fn, a, out, depth, seen)
                return
            cs = n["c"]
            callee = self.db.fn_of(d)
            if callee is not None and callee.body is not None and depth < MAXDEPTH and self.inlinable(callee):
                if d.k == "CXXMethod" and not d.static and cs:
                    self._subst(fn, self.ret(callee, depth + 1), callee, cs[0], cs[1:], out, depth, seen)
                else:
                    self._subst(fn, self.ret(callee, depth + 1), callee, None, cs, out, depth, seen)
                return
            for a in cs:
                self._o(fn, a, out, depth, seen)
            return
        if k == "Lambda":
            for x in walk(n["body"]):
                if x["k"] == "Return" and "e" in x:
                    self._o(fn, x["e"], out, depth, seen)
            return
        if k == "Cond":
            self._o(fn, n["then"], out, depth, seen)
            self._o(fn, n["else"], out, depth, seen)
            # a conditional's condition decides which value is used, it is not a source of the value
            return
        if k == "New" and n.get("c") == []:
            out.add((("lit", "null"), None))
            return
        if k == "IList" and n.get("c") == []:
            out.add((("lit", "null"), None))
            return
        if k == "DefArg":
            if "e" in n:
                for (r, f) in self.origins(fn, n["e"], depth, seen):
                    out.add((r if isinstance(r, tuple) else ("lit", "default"), None))
            return
        for c in children(n):
            self._o(fn, c, out, depth, seen)

    def inlinable(self, callee):
        """functions of the analysed sources"""
        return True

    def _subst(self, fn, res, callee, r, cargs, out, depth, seen):
        ps = callee.params
        idx = {p["d"]: i for i, p in enumerate(ps)}
        for (root, f) in res:
            if root == "this":
                if r is None:
                    out.add(("this", f))
                    continue
                src = r
            elif root in idx:
                if idx[root] >= len(cargs):
                    continue
                src = cargs[idx[root]]
            elif isinstance(root, tuple):
                out.add((root, f))
                continue
            else:
                continue
            for (r2, f2) in self.origins(fn, src, depth, seen):
                if f2 is None and not isinstance(r2, tuple):
                    out.add((r2, f))
                else:
                    out.add((r2, f2))

    def ret(self, fn, depth=0):
        """origins of the returned value, over the callee's parameters and 'this'"""
        r = self._ret.get(fn)
        if r is None:
            self._ret[fn] = frozenset()  # recursion
            out = set()
            for n in walk(fn.body, into_lambda=False):
                if n["k"] == "Return" and "e" in n:
                    self._o(fn, n["e"], out, depth, frozenset())
            r = frozenset(out)
            if depth < MAXDEPTH:
                self._ret[fn] = r
        return r

    # ---------------------------------------------------------------- constructors
    def ctor(self, fn, depth=0):
        """field declaration -> origins over the constructor's parameters"""
        r = self._ctor.get(fn)
        if r is not None:
            return r
        self._ctor[fn] = {}
        res = {}
        for i in fn.inits:
            if "m" in i:
                o = self.origins(fn, i["e"]) if "e" in i else set()
                res.setdefault(i["m"], set()).update(o)
            else:
                e = i.get("e")
                self._base(fn, e, res, depth, i.get("base"))
        if fn.body:
            for n in walk(fn.body):
                self._assign(fn, n, res)
        self._ctor[fn] = res
        return res

    def _assign(self, fn, n, res):
        k = n["k"]
        lhs = rhs = None
        if k == "Bin" and n["op"] == "=":
            lhs, rhs = n["c"][0], [n["c"][1]]
        elif k == "Op" and n["op"] == "=" and len(n["c"]) == 2:
            lhs, rhs = n["c"][0], [n["c"][1]]
        elif k == "Call" and recv(n) is not None and n["c"] and not (n.get("d") and n["d"].const):
            lhs, rhs = recv(n), n["c"]
        if lhs is None:
            return
        for (r, f) in self.origins(fn, lhs):
            if r == "this" and f is not None:
                for x in rhs:
                    res.setdefault(f, set()).update(self.origins(fn, x))

    def _base(self, fn, e, res, depth, base):
        if e is None:
            return
        while e["k"] in ("IList", "DefInit", "Cast") and len(list(children(e))) == 1:
            e = next(iter(children(e)))
        if e["k"] != "New":
            return
        c = self.db.fn_of(e["d"])
        cargs = e["c"]
        if c is not None and depth < MAXDEPTH:
            sub = self.ctor(c, depth + 1)
            for f, os in sub.items():
                out = set()
                self._subst(fn, os, c, None, cargs, out, depth, frozenset())
                res.setdefault(f, set()).update(out)
            return
        # inherited constructor (using base::base): the region is the only member of the base
        for a in cargs:
            if strip(a.get("t", "")).endswith("node_region"):
                for f in self.region_fields():
                    res.setdefault(f, set()).update(self.origins(fn, a))
            elif e.get("cc") in ("copy", "move"):
                for (r, f) in self.origins(fn, a):
                    for g in self.region_fields():
                        res.setdefault(g, set()).add((r, g if f is None else f))

    def region_fields(self):
        r = getattr(self, "_rf", None)
        if r is None:
            rec = self.db.records.get("mizugaki::ast::element")
            r = [x["d"] for x in rec["fields"]] if rec else []
            self._rf = r
        return r


def root_local(n):
    """the local variable (or parameter) an lvalue expression designates a part of"""
    while True:
        k = n["k"]
        if k == "Ref":
            d = n["d"]
            if d is not None and d.local:
                return d
            return None
        if k == "Mem" and "e" in n:
            n = n["e"]
        elif k in ("Idx",):
            n = n["c"][0]
        elif k == "Un":
            n = n["e"]
        elif k == "Op" and n["op"] in ("*", "->", "[]") and n["c"]:
            n = n["c"][0]
        elif k == "Call" and recv(n) is not None:
            n = recv(n)
        else:
            return None

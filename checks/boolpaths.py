"""All paths of a small boolean function, as cubes of atomic comparisons between two objects 'a' and 'b'.

Atoms: ('cmp', field)         a.field compared with b.field as a whole (True: equal)
       ('part', field)        a partial comparison (size, has_value ...)
       ('test', root, field)  truth of a.field / b.field
       ('ident',)             same object
       ('rec',)               operator== on the whole objects (kept opaque)
       ('kind',)              b's node kind compared with this class' kind
       ('wrong', ...)         a comparison between members that do not correspond: never counts
       ('unknown', id)        anything else
"""
from mz import recv, strip, children, walk
from sym import is_transparent

PARTIAL = {"size", "empty", "has_value", "get", "length", "capacity", "operator bool", "index"}
LIMIT = 4000


class TooMany(Exception):
    pass


class BoolPaths:
    def __init__(self, db, sym):
        self.db = db
        self.S = sym

    def paths(self, fn, roles, opaque_eq=False):
        self.opaque = opaque_eq
        self.n = 0
        self.fn = fn
        try:
            out = []
            for st in self.block(fn, roles, [fn.body], {}, {}, 0):
                kind, cube, env, val = st
                if kind == "ret":
                    out.append((cube, val))
            return out
        except TooMany:
            return None

    # ---- statements: yields (kind, cube, env, value); kind in next/ret/brk/cont/exit
    def block(self, fn, roles, ss, cube, env, depth):
        if not ss:
            yield ("next", cube, env, None)
            return
        for (k, c, e, v) in self.stmt(fn, roles, ss[0], cube, env, depth):
            if k == "next":
                yield from self.block(fn, roles, ss[1:], c, e, depth)
            else:
                yield (k, c, e, v)

    def stmt(self, fn, roles, s, cube, env, depth):
        self.n += 1
        if self.n > 200000:
            raise TooMany()
        k = s["k"]
        if k == "Block":
            yield from self.block(fn, roles, s["c"], cube, env, depth)
        elif k == "Return":
            if "e" not in s:
                yield ("ret", cube, env, None)
                return
            for c, v in self.ev(fn, roles, s["e"], cube, env, depth):
                yield ("ret", c, env, v)
        elif k == "If":
            pre = []
            if "init" in s:
                pre.append(s["init"])
            if "var" in s:
                pre.append({"k": "Decl", "c": [s["var"]]})
            for (k2, c0, e0, v0) in self.block(fn, roles, pre, cube, env, depth):
                cond = s.get("cond")
                if cond is None and "var" in s:
                    cond = {"k": "Ref", "d": s["var"]["d"], "t": s["var"]["t"]}
                for c, v in self.ev(fn, roles, cond, c0, e0, depth):
                    br = s["then"] if v else s.get("else")
                    if br is None:
                        yield ("next", c, e0, None)
                    else:
                        yield from self.stmt(fn, roles, br, c, e0, depth)
        elif k == "Decl":
            outs = [(cube, env)]
            for v in s["c"]:
                if v["k"] == "Var" and strip(v["t"]) == "bool" and "init" in v:
                    nxt = []
                    for (c, e) in outs:
                        for c2, b in self.ev(fn, roles, v["init"], c, e, depth):
                            e2 = dict(e)
                            e2[v["d"]] = b
                            nxt.append((c2, e2))
                    outs = nxt
            for c, e in outs:
                yield ("next", c, e, None)
        elif k in ("For", "ForRange", "While", "Do"):
            pre = [s["init"]] if "init" in s else []
            for (_, c0, e0, _) in self.block(fn, roles, pre, cube, env, depth):
                for (k2, c, e, v) in self.stmt(fn, roles, s["body"], c0, e0, depth):
                    if k2 in ("next", "cont"):
                        yield ("next", c, e, None)
                    elif k2 == "brk":
                        # leaving early: whatever was not compared in the rest of the loop stays uncompared
                        yield ("next", {x: y for x, y in c.items() if y is not True or x in c0}, e, None)
                    else:
                        yield (k2, c, e, v)
        elif k == "Break":
            yield ("brk", cube, env, None)
        elif k == "Continue":
            yield ("cont", cube, env, None)
        elif k == "Switch":
            body = s["body"]["c"] if s["body"]["k"] == "Block" else [s["body"]]
            starts = [i for i, x in enumerate(body) if x["k"] in ("Case", "Default")]
            has_default = any(x["k"] == "Default" for x in body)
            for i in starts:
                for (k2, c, e, v) in self.block(fn, roles, body[i:], dict(cube), env, depth):
                    yield ("next" if k2 == "brk" else k2, c, e, v)
            if not has_default:
                yield ("next", cube, env, None)
        elif k in ("Case", "Default"):
            yield from self.stmt(fn, roles, s["sub"], cube, env, depth)
        elif k == "Throw":
            yield ("exit", cube, env, None)
        elif k in ("Bin", "Op") and s.get("op") in ("=", "&=", "|="):
            lhs = s["c"][0]
            if lhs["k"] == "Ref" and lhs["d"] is not None and lhs["d"] in env:
                for c, v in self.ev(fn, roles, s["c"][1], cube, env, depth):
                    e2 = dict(env)
                    if s["op"] == "=":
                        e2[lhs["d"]] = v
                    elif s["op"] == "&=":
                        e2[lhs["d"]] = env[lhs["d"]] and v
                    else:
                        e2[lhs["d"]] = env[lhs["d"]] or v
                    yield ("next", c, e2, None)
                return
            yield ("next", cube, env, None)
        elif k == "Call" and s.get("d") is not None and s["d"].q in ("std::abort", "abort", "std::terminate"):
            yield ("exit", cube, env, None)
        else:
            yield ("next", cube, env, None)

    # ---- boolean expressions: list of (cube, truth)
    def lit(self, cube, atom):
        if atom in cube:
            return [(cube, cube[atom])]
        r = []
        for v in (True, False):
            c = dict(cube)
            c[atom] = v
            r.append((c, v))
        return r

    def neg(self, rs):
        return [(c, not v) for c, v in rs]

    def ev(self, fn, roles, e, cube, env, depth):
        self.n += 1
        if self.n > 200000:
            raise TooMany()
        k = e["k"]
        if k in ("Cast", "ICast"):
            return self.ev(fn, roles, e["e"], cube, env, depth)
        if k == "Bool":
            return [(cube, bool(e["v"]))]
        if k == "Un" and e["op"] == "!":
            return self.neg(self.ev(fn, roles, e["e"], cube, env, depth))
        if k == "Bin" and e["op"] in ("&&", "||"):
            out = []
            for c, v in self.ev(fn, roles, e["c"][0], cube, env, depth):
                if v == (e["op"] == "||"):
                    out.append((c, v))
                else:
                    out += self.ev(fn, roles, e["c"][1], c, env, depth)
            return out
        if k == "Bin" and e["op"] in ("&", "|") and strip(e.get("t")) in ("int", "bool"):
            out = []
            for c, v in self.ev(fn, roles, e["c"][0], cube, env, depth):
                for c2, v2 in self.ev(fn, roles, e["c"][1], c, env, depth):
                    out.append((c2, (v and v2) if e["op"] == "&" else (v or v2)))
            return out
        if k == "Cond":
            out = []
            for c, v in self.ev(fn, roles, e["cond"], cube, env, depth):
                out += self.ev(fn, roles, e["then"] if v else e["else"], c, env, depth)
            return out
        if k == "Ref" and e["d"] is not None and e["d"] in env:
            return [(cube, env[e["d"]])]
        if k == "Ref" and e["d"] is not None and e["d"].k == "Var" and not e["d"].local and "cv" in e:
            return [(cube, bool(e["cv"]))]
        if k in ("Bin", "Op") and e.get("op") in ("==", "!="):
            r = self.compare(fn, roles, e["c"][0], e["c"][1], e, cube, env, depth)
            return r if e["op"] == "==" else self.neg(r)
        if k == "Call":
            d = e.get("d")
            if d is not None and is_transparent(d):
                return self.ev(fn, roles, e["c"][0], cube, env, depth)
            ops = list(e["c"])
            r = recv(e)
            if d is not None and d.n == "equals" and r is not None and len(ops) == 1:
                return self.compare(fn, roles, r, ops[0], e, cube, env, depth, call=True)
            if d is not None and d.n in ("eq", "equal", "equals") and len(ops) == 2 and r is None:
                return self.compare(fn, roles, ops[0], ops[1], e, cube, env, depth, call=True)
            if d is not None and d.q == "std::equal":
                return self.compare(fn, roles, ops[0], ops[2] if len(ops) > 2 else ops[-1], e, cube, env, depth, call=True)
            if d is not None and d.n == "contains" and len(ops) == 1 and self.is_kind(ops[0]) == "call" and r is not None and not self.roles_of(fn, roles, r):
                return self.lit(cube, ("kind",))
            g = self.db.fn_of(d)
            if g is not None and g.body is not None and depth < 5 and strip(d.rt) == "bool":
                return self.inline(fn, roles, e, g, r, ops, cube, env, depth)
            o = self.roles_of(fn, roles, e)
            if len(o) == 1:
                (root, f) = next(iter(o))
                if f is not None:
                    return self.lit(cube, ("test", root, f))
            if len({x[0] for x in o}) == 2 and len({x[1] for x in o}) == 1:
                f = next(iter(o))[1]
                if f is not None:
                    return self.lit(cube, ("part", f))
            return self.lit(cube, ("unknown", id(e)))
        if k == "Op" and e.get("op") == "()" or k == "New":
            o = self.roles_of(fn, roles, e)
            if len({x[0] for x in o}) == 2 and len({x[1] for x in o}) == 1 and next(iter(o))[1] is not None:
                return self.lit(cube, ("cmp", next(iter(o))[1]))
        o = self.roles_of(fn, roles, e)
        if len(o) == 1:
            (root, f) = next(iter(o))
            if f is not None:
                return self.lit(cube, ("test", root, f))
        return self.lit(cube, ("unknown", id(e)))

    def roles_of(self, fn, roles, e):
        out = set()
        for (root, f) in self.S.origins(fn, e):
            if root in roles:
                out.add((roles[root], f))
        return out

    def inline(self, fn, roles, e, g, r, ops, cube, env, depth):
        """a helper: its parameters take over the roles of the whole-object arguments; a parameter that receives a
        member keeps that member's identity through 'bound'"""
        sub = {}
        partial = False
        for p, a in zip(g.params, ops):
            o = self.roles_of(fn, roles, a)
            w = {x[0] for x in o if x[1] is None}
            if len(w) == 1 and len(o) == 1:
                sub[p["d"]] = next(iter(w))
            elif o:
                partial = True
        if r is not None:
            o = self.roles_of(fn, roles, r)
            w = {x[0] for x in o if x[1] is None}
            if len(w) == 1 and len(o) == 1:
                sub["this"] = next(iter(w))
        if partial or not sub:
            o = set()
            for x in list(ops) + ([r] if r is not None else []):
                o |= self.roles_of(fn, roles, x)
            fs = {x[1] for x in o}
            rs = {x[0] for x in o}
            if len(fs) == 1 and len(rs) == 2 and None not in fs:
                return self.lit(cube, ("cmp", next(iter(fs))))
            if len(o) == 1 and None not in fs:
                return self.lit(cube, ("test",) + next(iter(o)))
            if len(fs) > 1 and len(rs) == 2:
                return self.lit(cube, ("wrong", id(e)))
            return self.lit(cube, ("unknown", id(e)))
        out = []
        for (k2, c, e2, v) in self.block(g, sub, [g.body], dict(cube), {}, depth + 1):
            if k2 == "ret":
                out.append((c, bool(v)))
        return out or self.lit(cube, ("unknown", id(e)))

    def address(self, fn, roles, x):
        """role if x is the address of a whole object"""
        if x["k"] == "This":
            return roles.get("this")
        if (x["k"] == "Un" and x["op"] == "&") or (x["k"] == "Call" and x.get("d") is not None and x["d"].n in ("addressof", "__addressof")):
            o = self.roles_of(fn, roles, x["e"] if x["k"] == "Un" else x["c"][0])
            if len(o) == 1 and next(iter(o))[1] is None:
                return next(iter(o))[0]
        return None

    def compare(self, fn, roles, x, y, e, cube, env, depth, call=False):
        ax, ay = self.address(fn, roles, x), self.address(fn, roles, y)
        if ax is not None and ay is not None:
            return self.lit(cube, ("ident",)) if ax != ay else [(cube, True)]
        # bool == bool of already evaluated truth values
        ox, oy = self.roles_of(fn, roles, x), self.roles_of(fn, roles, y)
        kx, ky = self.is_kind(x), self.is_kind(y)
        if (kx == "call" or ky == "call") and (kx and ky):
            return self.lit(cube, ("kind",))
        if ox == {("a", None)} and oy == {("b", None)} or ox == {("b", None)} and oy == {("a", None)}:
            d = e.get("d")
            g = self.db.fn_of(d) if d is not None else None
            if not self.opaque and g is not None and g is not self.fn and g.body is not None and depth < 5 and not (d.virt):
                r = None
                ops = list(e.get("c", []))
                if e["k"] == "Call":
                    r = recv(e)
                if e["k"] == "Op" and d.k == "CXXMethod" and not d.static:
                    r, ops = ops[0], ops[1:]
                return self.inline(fn, roles, e, g, r, ops, cube, env, depth)
            return self.lit(cube, ("rec",))
        if len(ox) == 1 and len(oy) == 1:
            (rx, fx), (ry, fy) = next(iter(ox)), next(iter(oy))
            if fx is not None and fx is fy and rx != ry:
                if self.partial(x) or self.partial(y):
                    return self.lit(cube, ("part", fx))
                return self.lit(cube, ("cmp", fx))
            if fx is not None or fy is not None:
                return self.lit(cube, ("wrong", fx.n if fx else "", fy.n if fy else "", rx, ry))
        if (len(ox) == 1 and not oy) or (len(oy) == 1 and not ox):
            (r, f) = next(iter(ox or oy))
            other = y if ox else x
            if f is not None and other["k"] == "Ref" and other["d"] is not None and other["d"].k == "EnumConstant":
                return self.lit(cube, ("testv", r, f, other["d"].q))
            if f is not None and other["k"] == "Nullptr":
                return self.neg(self.lit(cube, ("test", r, f)))
            if f is not None and other["k"] == "Bool":
                l = self.lit(cube, ("test", r, f))
                return l if other["v"] else self.neg(l)
        if ox and oy and {f for _, f in ox} == {f for _, f in oy} and {r for r, _ in ox} != {r for r, _ in oy} and len({f for _, f in ox}) == 1:
            return self.lit(cube, ("cmp", next(iter(ox))[1]))
        if {f for _, f in ox | oy} and len({f for _, f in ox | oy}) > 1:
            return self.lit(cube, ("wrong", id(e)))
        return self.lit(cube, ("unknown", id(e)))

    def is_kind(self, x):
        while x["k"] in ("Cast", "ICast"):
            x = x["e"]
        if x["k"] == "Call" and x.get("d") is not None and x["d"].n == "node_kind":
            return "call"
        if x["k"] == "Ref" and x["d"] is not None and (x["d"].n == "tag" or x["d"].k == "EnumConstant"):
            return "const"
        if x["k"] == "Mem" and x["d"].n in ("kind_", "tag"):
            return "const"
        return None

    def partial(self, x):
        while x["k"] in ("Cast", "ICast"):
            x = x["e"]
        if x["k"] == "Call" and x.get("d") is not None:
            n = x["d"].n
            if n in PARTIAL or n.startswith("operator bool"):
                return True
        return False

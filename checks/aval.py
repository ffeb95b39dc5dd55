"""Abstract evaluation of small, mostly loop-free functions over the domain of affine integer terms, known booleans,
aggregates and opaque terms.  Every path is followed with the conditions it assumes; a condition which the domain
cannot decide forks the path and is recorded (no solver: contradictory paths are only pruned when the very same
condition was already assumed).

values
  int/bool        Python bool / Lin
  Obj             an aggregate (name of the type, field name -> value)
  tuple           opaque term, e.g. ('param', 'x'), ('call', name, args...), ('str', text), ('enum', name)
"""
from mz import Broken, recv, strip, walk

MAXPATHS = 5000
TRANSPARENT = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof", "std::__addressof"}


def part(i, v, t):
    """the i-th name of a structured binding to v of type t"""
    if isinstance(v, tuple) and v[:1] == ("tuple",) and i + 1 < len(v):
        return v[1 + i]
    if i < 2 and (t or "").replace("const ", "").startswith("std::pair<") and isinstance(v, tuple):
        return ("mem", v, ("first", "second")[i])
    return ("bind", i, v)


class Lin:
    __slots__ = ("t", "c")

    def __init__(self, t=(), c=0):
        self.t = tuple(sorted(((k, v) for k, v in dict(t).items() if v), key=repr))
        self.c = c

    def __add__(self, o):
        d = dict(self.t)
        for k, v in o.t:
            d[k] = d.get(k, 0) + v
        return Lin(d, self.c + o.c)

    def __neg__(self):
        return Lin({k: -v for k, v in self.t}, -self.c)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, k):
        return Lin({a: v * k for a, v in self.t}, self.c * k)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((self.t, self.c))

    def const(self):
        return self.c if not self.t else None

    def __repr__(self):
        s = ""
        for k, v in self.t:
            k = k if isinstance(k, str) else show(k)
            s += (" + " if v > 0 and s else " - " if v < 0 and s else "-" if v < 0 else "") + ("" if abs(v) == 1 else "%d*" % abs(v)) + k
        if self.c or not s:
            s += (" + %d" % self.c if self.c >= 0 else " - %d" % -self.c) if s else str(self.c)
        return s


def term(name):
    return Lin({name: 1})


class Obj:
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t = t
        self.f = dict(f)

    def key(self):
        return (self.t, tuple(sorted((k, v) for k, v in self.f.items())))

    def __eq__(self, o):
        return isinstance(o, Obj) and self.f == o.f

    def __hash__(self):
        return hash(tuple(sorted(self.f)))

    def __repr__(self):
        return "{" + ", ".join("%s: %s" % (k, show(v)) for k, v in self.f.items()) + "}"


def show(v):
    if isinstance(v, tuple):
        if not v:
            return "()"
        if v[0] in ("param", "enum", "str", "field0", "fresh"):
            return str(v[1]) if v[0] != "str" else repr(v[1])
        return "%s(%s)" % (v[0], ", ".join(show(x) for x in v[1:]))
    return repr(v) if not isinstance(v, str) else v


class St:
    __slots__ = ("env", "eff", "cond")

    def __init__(self, env=None, eff=(), cond=()):
        self.env = env if env is not None else {}
        self.eff = eff
        self.cond = cond

    def set(self, k, v):
        e = dict(self.env)
        e[k] = v
        return St(e, self.eff, self.cond)

    def effect(self, x):
        return St(self.env, self.eff + (x,), self.cond)

    def assume(self, c, v):
        return St(self.env, self.eff, self.cond + ((c, v),))

    def known(self, c):
        for a, v in self.cond:
            if a == c:
                return v
        return None


class Frame:
    """fn: function; this: key prefix (tuple) or a value"""
    __slots__ = ("fn", "this", "depth", "tag")

    def __init__(self, fn, this, depth, tag):
        self.fn = fn
        self.this = this
        self.depth = depth
        self.tag = tag


class Interp:
    """subclass or pass hooks: inline(callee) -> bool; model(interp, frame, node, name, recv_value, arg_values, st) -> list of (value, st) or None"""

    def __init__(self, db, inline=None, model=None, maxdepth=6, effects=None):
        self.db = db
        self.inline = inline or (lambda f: True)
        self.model = model
        self.maxdepth = maxdepth
        self.n = 0
        self.effects = effects  # predicate on callee declarations whose opaque calls are recorded
        self.tags = 0
        self.maxpaths = MAXPATHS

    # ------------------------------------------------------------------ running a function
    def run(self, fn, args, this=("this",), st=None):
        """list of (kind, value, st): kind 'ret' | 'noreturn'"""
        st = st or St()
        fr = Frame(fn, this, 0, 0)
        for p, a in zip(fn.params, args):
            st = st.set(("l", p["d"]), a)
        out = []
        for k, v, s in self.block(fr, [fn.body], st):
            out.append(("ret" if k in ("next", "ret") else k, v if k == "ret" else None, s))
        return out

    def block(self, fr, ss, st):
        """list of (kind, value, st); kind in next, ret, break, continue, throw, goto"""
        cur = [st]
        out = []
        for s in ss:
            nxt = []
            for x in cur:
                for k, v, y in self.stmt(fr, s, x):
                    if k == "next":
                        nxt.append(y)
                    else:
                        out.append((k, v, y))
            cur = nxt
            self.n += len(cur)
            if self.n > self.maxpaths:
                raise Broken("too many paths in %s" % fr.fn.q)
            if not cur:
                break
        return out + [("next", None, x) for x in cur]

    def stmt(self, fr, s, st):
        k = s["k"]
        if k == "Block":
            return self.block(fr, s["c"], st)
        if k == "Decl":
            return self.block(fr, s["c"], st)
        if k == "Var":
            if "init" not in s:
                return [("next", None, st.set(("l", s["d"]), self.default(s)))]
            res = []
            for v, x in self.ev(fr, s["init"], st):
                x = x.set(("l", s["d"]), v)
                for i, b in enumerate(s.get("bind", ())):
                    x = x.set(("l", b["d"]), part(i, v, s.get("t")))
                res.append(("next", None, x))
            return res
        if k == "Return":
            if "e" not in s:
                return [("ret", None, st)]
            return [("ret", v, x) for v, x in self.ev(fr, s["e"], st)]
        if k == "If":
            out = []
            pre = []
            if "init" in s:
                pre.append(s["init"])
            if "var" in s:
                pre.append(s["var"])
            for kk, _, x in self.block(fr, pre, st):
                cond = s.get("cond")
                if cond is None:
                    cond = {"k": "Ref", "d": s["var"]["d"], "t": s["var"]["t"]}
                for b, y in self.truth(fr, cond, x):
                    if b:
                        out += self.stmt(fr, s["then"], y)
                    elif "else" in s:
                        out += self.stmt(fr, s["else"], y)
                    else:
                        out.append(("next", None, y))
            return out
        if k in ("Break",):
            return [("break", None, st)]
        if k == "Continue":
            return [("continue", None, st)]
        if k == "Goto":
            return [("goto", s.get("n"), st)]
        if k == "Throw":
            return [("throw", None, st)]
        if k == "Try":
            # a handler starts with what is known before the block
            out = self.stmt(fr, s["body"], st)
            for h in s["c"]:
                out = out + self.stmt(fr, h["body"], st)
            return out
        if k in ("Case", "Default", "Label"):
            return self.stmt(fr, s["sub"], st) if "sub" in s else [("next", None, st)]
        if k == "Switch":
            from flow import arms
            out = []
            for v, x in self.ev(fr, s["cond"], st):
                c = v.const() if isinstance(v, Lin) else v[2] if isinstance(v, tuple) and v and v[0] == "enum" else None
                arms_ = arms(s)
                if c is not None:
                    sel = [a for a in arms_ if c in a[0]] or [a for a in arms_ if a[1]]
                    todo = sel[:1]
                    fall = not sel
                else:
                    todo = arms_
                    fall = not any(a[1] for a in arms_)
                for a in todo:
                    for kk, vv, y in self.block(fr, a[2], x if c is not None else x.assume(("switch", v, tuple(sorted(map(repr, a[0])))), True)):
                        out.append(("next" if kk == "break" else kk, vv, y))
                if fall:
                    out.append(("next", None, x))
            return out
        if k in ("While", "For", "ForRange", "Do"):
            return self.loop(fr, s, st)
        if k in ("Null", "Empty"):
            return [("next", None, st)]
        from flow import noreturn_call
        if noreturn_call(self.db, s):
            return [("throw", None, st)]
        return [("next", None, x) for _, x in self.ev(fr, s, st)]

    def loop(self, fr, s, st):
        """unknown effect: everything assigned in the loop becomes opaque"""
        ks = set()
        for n in walk(s):
            t = None
            if n["k"] in ("Bin", "Op") and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = n["c"][0]
            elif n["k"] == "Un" and n["op"] in ("++", "--", "p++", "p--"):
                t = n["e"]
            elif n["k"] == "Call" and recv(n) is not None and not (n.get("d") and n["d"].const):
                t = recv(n)
            if t is not None:
                ks.add(self.key(fr, t))
        x = st
        for kk in ks:
            if kk is not None:
                x = x.set(kk, ("loop", s["l"] if "l" in s else 0, repr(kk)))
        x = x.effect(("loop", id(s)))
        return [("next", None, x)]

    def default(self, v):
        return ("fresh", strip(v.get("t", "")))

    # ------------------------------------------------------------------ lvalues
    def key(self, fr, n):
        k = n["k"]
        if k == "Ref" and n.get("d") is not None and n["d"].local:
            return ("l", n["d"])
        if k == "Mem":
            b = n.get("e")
            if b is None:
                return None
            if b["k"] == "This":
                if isinstance(fr.this, tuple) and fr.this and fr.this[0] == "at":
                    return ("m", fr.this[1], n["d"].n)
                return ("f", fr.this, n["d"].n) if isinstance(fr.this, tuple) else None
            bk = self.key(fr, b)
            return ("m", bk, n["d"].n) if bk is not None else None
        if k in ("ICast", "Cast") and "e" in n:
            return self.key(fr, n["e"])
        return None

    def read(self, fr, key, n, st):
        if key in st.env:
            return st.env[key]
        if key[0] == "m":
            base = st.env.get(key[1])
            if isinstance(base, Obj) and key[2] in base.f:
                return base.f[key[2]]
            if base is not None:
                return self.opaque_member(base, key[2], n)
            b2 = ("fld", show_key(key[1]), key[2])
            return term(b2) if is_int(n.get("t")) else b2
        if key[0] == "f":
            v = ("field0", key[2]) if key[1] == ("this",) else ("mem", key[1][1:], key[2])
            return term(v) if is_int(n.get("t")) else v
        v = ("var", key[1].n)
        return term(v) if is_int(n.get("t")) else v

    def opaque_member(self, base, name, n):
        v = ("mem", base, name)
        return term(v) if is_int(n.get("t")) else v

    def assign(self, fr, lhs, v, st):
        k = self.key(fr, lhs)
        if k is None:
            return st.effect(("assign", self.render(fr, lhs, st), v))
        if k[0] == "m":
            base = st.env.get(k[1])
            if isinstance(base, Obj):
                f = dict(base.f)
                f[k[2]] = v
                return st.set(k[1], Obj(base.t, f))
            if base is not None:
                st = st.effect(("setmem", base, k[2], v))
        return st.set(k, v)

    def render(self, fr, n, st):
        r = self.ev(fr, n, st)
        return r[0][0] if r else None

    # ------------------------------------------------------------------ expressions: list of (value, st)
    def evs(self, fr, ns, st):
        res = [([], st)]
        for n in ns:
            nxt = []
            for vs, x in res:
                for v, y in self.ev(fr, n, x):
                    nxt.append((vs + [v], y))
            res = nxt
        return res

    def truth(self, fr, n, st):
        out = []
        for v, x in self.ev(fr, n, st):
            b = self.tobool(v)
            if b is not None:
                out.append((b, x))
                continue
            kn = x.known(v)
            if kn is not None:
                out.append((kn, x))
                continue
            out.append((True, x.assume(v, True)))
            out.append((False, x.assume(v, False)))
        return out

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Lin) and v.const() is not None:
            return v.c != 0
        return None

    def ev(self, fr, n, st):
        k = n["k"]
        if k == "Bool":
            return [(bool(n["v"]), st)]
        if k in ("Int", "Char"):
            return [(Lin((), n["v"]), st)]
        if k == "Str":
            return [(("str", n.get("v")), st)]
        if k == "Nullptr":
            return [(("null",), st)]
        if k == "This":
            if isinstance(fr.this, tuple) and fr.this and fr.this[0] == "at":
                return [(st.env.get(fr.this[1], ("this",)), st)]
            return [(("this",) if isinstance(fr.this, tuple) else fr.this, st)]
        if k == "Ref":
            d = n.get("d")
            if d is None:
                return [(("?",), st)]
            if d.k == "EnumConstant":
                return [(("enum", d.q, d.v), st)]
            if d.local:
                return [(self.read(fr, self.key(fr, n) or ("l", d), n, st), st)]
            if n.get("cv") is not None and is_int(n.get("t")):
                return [(Lin((), n["cv"]), st)]
            g = self.db.vars.get(d.u)
            if g is not None and "init" in g and "const" in (g.get("t") or "const"):
                return self.ev(fr, g["init"], st)
            return [(("glob", d.q), st)]
        if k == "Mem":
            d = n["d"]
            if n.get("cv") is not None and is_int(n.get("t")):
                return [(Lin((), n["cv"]), st)]
            key = self.key(fr, n)
            if key is not None:
                if key[0] == "f" or key in st.env or (key[0] == "m" and isinstance(st.env.get(key[1]), Obj)):
                    return [(self.read(fr, key, n, st), st)]
            b = n.get("e")
            if b is None:
                return [(("glob", d.q), st)]
            out = []
            if b["k"] == "This":
                v = fr.this
                if isinstance(v, Obj):
                    return [(v.f.get(d.n, ("mem", v, d.n)), st)]
            for v, x in self.ev(fr, b, st):
                if isinstance(v, Obj) and d.n in v.f:
                    out.append((v.f[d.n], x))
                elif key is not None and not isinstance(v, Obj) and key in x.env:
                    out.append((x.env[key], x))
                else:
                    out.append((self.opaque_member(v, d.n, n), x))
            return out
        if k in ("Cast", "ICast"):
            if n.get("cv") is not None and is_int(n.get("t")):
                return [(Lin((), n["cv"]), st)]
            if "e" in n:
                return self.ev(fr, n["e"], st)
            return self.evn(fr, n, st)
        if k == "DefArg" or k == "DefInit":
            return self.ev(fr, n["e"], st) if "e" in n else [(("default",), st)]
        if k == "Un":
            return self.unary(fr, n, st)
        if k == "Bin":
            return self.binary(fr, n, st)
        if k == "Cond":
            out = []
            for b, x in self.truth(fr, n["cond"], st):
                out += self.ev(fr, n["then"] if b else n["else"], x)
            return out
        if k in ("Call", "Op"):
            return self.call(fr, n, st)
        if k in ("New", "IList"):
            return self.construct(fr, n, st)
        if k == "ValueInit":
            return [(Lin((), 0) if is_int(n.get("t")) else self.empty(n), st)]
        if k == "Lambda":
            return [(("lambda", id(n)), st)]
        return self.evn(fr, n, st)

    def empty(self, n):
        return ("init", strip(n.get("t", "")))

    def evn(self, fr, n, st):
        from mz import children
        cs = list(children(n))
        if len(cs) == 1:
            return self.ev(fr, cs[0], st)
        return [((k_of(n),) + tuple(vs), x) for vs, x in self.evs(fr, cs, st)]

    def unary(self, fr, n, st):
        op = n["op"]
        e = n["e"]
        if op == "!":
            out = []
            for b, x in self.truth(fr, e, st):
                out.append((not b, x))
            return out
        if op in ("++", "--", "p++", "p--", "post++", "post--"):
            out = []
            for v, x in self.ev(fr, e, st):
                one = Lin((), 1 if "+" in op else -1)
                nv = v + one if isinstance(v, Lin) else ("inc", v)
                x = self.assign(fr, e, nv, x)
                out.append((v if n.get("post") else nv, x))
            return out
        if op == "-":
            return [((-v if isinstance(v, Lin) else ("neg", v)), x) for v, x in self.ev(fr, e, st)]
        if op in ("*", "&", "+"):
            return self.ev(fr, e, st)
        return [(("un" + op, v), x) for v, x in self.ev(fr, e, st)]

    def binary(self, fr, n, st):
        op = n["op"]
        a, b = n["c"]
        if n.get("cv") is not None and is_int(n.get("t")):
            return [(Lin((), n["cv"]), st)]
        if op in ("&&", "||"):
            out = []
            for v, x in self.truth(fr, a, st):
                if v == (op == "||"):
                    out.append((v, x))
                else:
                    out += self.truth(fr, b, x)
            return out
        if op == "=":
            out = []
            for v, x in self.ev(fr, b, st):
                out.append((v, self.assign(fr, a, v, x)))
            return out
        if op in ("+=", "-="):
            out = []
            for vs, x in self.evs(fr, [a, b], st):
                v = self.arith(op[0], vs[0], vs[1])
                out.append((v, self.assign(fr, a, v, x)))
            return out
        if op == ",":
            return [(vs[1], x) for vs, x in self.evs(fr, [a, b], st)]
        return [(self.arith(op, vs[0], vs[1]), x) for vs, x in self.evs(fr, [a, b], st)]

    def arith(self, op, a, b):
        if op in ("+", "-") and isinstance(a, Lin) and isinstance(b, Lin):
            return a + b if op == "+" else a - b
        if op == "*" and isinstance(a, Lin) and isinstance(b, Lin):
            if a.const() is not None:
                return b * a.c
            if b.const() is not None:
                return a * b.c
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        if op in ("%", "/") and isinstance(a, Lin) and isinstance(b, Lin) and a.const() is not None and b.const():
            return Lin((), a.c // b.c if op == "/" else a.c % b.c)
        return ("bin" + op, a, b)

    def compare(self, op, a, b):
        """canonical form: ('==', x, y) with x,y ordered / ('<', x, y); negations become ('not', ..) free by swapping"""
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            c = d.const()
            if c is not None:
                return {"==": c == 0, "!=": c != 0, "<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op]
        elif isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "enum" and b[0] == "enum":
            if op in ("==", "!="):
                return (a[2] == b[2]) == (op == "==")
        elif a == b and op in ("==", "!="):
            return op == "=="
        if op == "==":
            return ("==",) + tuple(sorted((a, b), key=repr))
        if op == "!=":
            return ("!=",) + tuple(sorted((a, b), key=repr))
        if op == ">":
            return ("<", b, a)
        if op == ">=":
            return ("<=", b, a)
        return (op, a, b)

    def construct(self, fr, n, st):
        t = strip(n.get("t", ""))
        rec = self.db.records.get(t)
        cs = n.get("c", [])
        if n["k"] == "New" and n.get("cc") in ("copy", "move") and len(cs) == 1:
            return self.ev(fr, cs[0], st)
        if n["k"] == "IList" and len(cs) == 1 and strip(cs[0].get("t", "")) == t:
            return self.ev(fr, cs[0], st)
        if self.model is not None:
            res = []
            hit = False
            for vs, x in self.evs(fr, cs, st):
                r = self.model(self, fr, n, "new " + t, None, vs, x)
                if r is None:
                    break
                hit = True
                res += r
            if hit:
                return res
        if n["k"] == "New":
            c = self.db.fn_of(n.get("d"))
            if c is not None and rec is not None and c.inits and self.inline(c) and self.simple_ctor(c):
                out = []
                for vs, x in self.evs(fr, cs, st):
                    y = x
                    for p, a in zip(c.params, vs):
                        y = y.set(("l", p["d"]), a)
                    f = {}
                    sub = Frame(c, ("this",), fr.depth + 1, 0)
                    ys = [(f, y)]
                    for i in c.inits:
                        if "m" not in i or "e" not in i:
                            continue
                        nys = []
                        for ff, yy in ys:
                            for v, z in self.ev(sub, i["e"], yy):
                                g = dict(ff)
                                g[i["m"].n] = v
                                nys.append((g, z))
                        ys = nys
                    for ff, yy in ys:
                        out.append((Obj(t, ff), yy))
                return out
            if not cs and rec is not None and not t.startswith("std::") and (c is None or not c.inits):
                return self.default_object(fr, t, rec, st)
        if n["k"] == "IList" and rec is not None and len(cs) == len(rec["fields"]) and cs:
            return [(Obj(t, {f["d"].n: v for f, v in zip(rec["fields"], vs)}), x) for vs, x in self.evs(fr, cs, st)]
        if n["k"] == "IList" and rec is not None and not cs and not t.startswith("std::"):
            return self.default_object(fr, t, rec, st)
        if is_int(t) and len(cs) == 1:
            return self.ev(fr, cs[0], st)
        if is_int(t) and not cs:
            return [(Lin((), 0), st)]
        if len(cs) == 1 and n["k"] == "IList":
            return self.ev(fr, cs[0], st)
        return [(("new", t) + tuple(vs), x) for vs, x in self.evs(fr, cs, st)]

    def default_object(self, fr, t, rec, st):
        f = {}
        for x in rec["fields"]:
            if "init" in x:
                r = self.ev(fr, x["init"], st)
                f[x["d"].n] = r[0][0] if len(r) == 1 else ("init", x["t"])
            else:
                f[x["d"].n] = ("init", x["t"])
        return [(Obj(t, f), st)]

    def simple_ctor(self, c):
        return c.body is not None and not c.body["c"] and all("m" in i for i in c.inits)

    def call(self, fr, n, st):
        d = n.get("d")
        name = d.q if d is not None else None
        cs = list(n.get("c", []))
        r = recv(n) if n["k"] == "Call" else None
        if n["k"] == "Op" and d is not None and d.k == "CXXMethod" and not d.static and cs:
            r, cs = cs[0], cs[1:]
        if n["k"] == "Op" and n["op"] == "=" and r is not None and len(cs) == 1:
            out = []
            for v, x in self.ev(fr, cs[0], st):
                out.append((v, self.assign(fr, r, v, x)))
            return out
        if name in TRANSPARENT and cs:
            return self.ev(fr, cs[0], st)
        if name == "std::exchange" and len(cs) == 2:
            out = []
            for vs, x in self.evs(fr, cs, st):
                out.append((vs[0], self.assign(fr, cs[0], vs[1], x)))
            return out
        res = []
        nodes = ([r] if r is not None else []) + cs
        for vs, x in self.evs(fr, nodes, st):
            rv = vs[0] if r is not None else None
            av = vs[1:] if r is not None else vs
            if self.model is not None:
                m = self.model(self, fr, n, name, rv, av, x)
                if m is not None:
                    res += m
                    continue
            callee = self.db.fn_of(d) if d is not None else None
            if callee is not None and callee.body is not None and not callee.dep and fr.depth < self.maxdepth and self.inline(callee) \
                    and not (d.virt and not is_this(r)):
                res += self.inlined(fr, n, callee, r, rv, av, x)
                continue
            if n["k"] == "Op" and n["op"] in ("==", "!=", "<", ">", "<=", ">=") and len(vs) == 2:
                res.append((self.compare(n["op"], vs[0], vs[1]), x))
                continue
            if n["k"] == "Op" and n["op"] in ("*", "->") and len(vs) == 1:
                res.append((vs[0], x))
                continue
            if n["k"] == "Op" and d is not None and "iterator" in (d.q or "") and isinstance(vs[0], (tuple, Lin)) and vs[0]:
                # arithmetic of iterators
                base = vs[0] if isinstance(vs[0], Lin) else term(vs[0])
                if n["op"] in ("++", "--"):
                    nv = base + Lin((), 1 if n["op"] == "++" else -1)
                    x = self.assign(fr, r if r is not None else cs[0], nv, x)
                    res.append((nv if len(vs) == 1 else vs[0], x))
                    continue
                if n["op"] in ("+", "-", "+=", "-=") and len(vs) == 2 and (isinstance(vs[1], Lin) or isinstance(vs[1], tuple)):
                    nv = base + vs[1] if n["op"][0] == "+" and isinstance(vs[1], Lin) else base - (vs[1] if isinstance(vs[1], Lin) else term(vs[1])) if n["op"][0] == "-" else None
                    if nv is not None:
                        if len(n["op"]) == 2:
                            x = self.assign(fr, r if r is not None else cs[0], nv, x)
                        res.append((nv, x))
                        continue
            nm = d.n if d is not None else "?"
            v = ("call", nm) + tuple(vs)
            if is_int(n.get("t")):
                v = term(v)
            if self.effects is None or (d is not None and self.effects(d)):
                if not (d is not None and d.const) and not (n.get("t") == "bool" and False):
                    x = x.effect(("call", nm) + tuple(vs))
            res.append((v, x))
        return res

    def inlined(self, fr, n, callee, r, rv, av, st):
        if r is None or callee.d.static:
            this = fr.this
        elif is_this(r):
            this = fr.this
        elif isinstance(rv, Obj) and self.key(fr, r) is not None and st.env.get(self.key(fr, r)) is rv:
            this = ("at", self.key(fr, r))  # an object which lives in a variable: its members can be assigned
        else:
            this = rv if isinstance(rv, Obj) else ("on", show(rv)) if not isinstance(rv, tuple) else ("on",) + rv
        self.tags += 1
        sub = Frame(callee, this, fr.depth + 1, self.tags)
        x = st
        for p, a in zip(callee.params, av):
            x = x.set(("l", p["d"]), a)
        if not isinstance(this, tuple):
            pass
        out = []
        for k, v, y in self.block(sub, [callee.body], x):
            if k in ("ret", "next"):
                out.append((v if k == "ret" else ("void",), y))
            # a path which throws does not come back
        return out


def is_this(r):
    while r is not None and r["k"] in ("ICast", "Cast", "Un"):
        r = r.get("e")
    return r is not None and r["k"] == "This"


def k_of(n):
    return n["k"]


INTS = {"int", "unsigned int", "long", "unsigned long", "unsigned long long", "long long", "short", "unsigned short", "char", "unsigned char", "signed char", "size_t",
        "std::size_t", "yy_state_type"}


def is_int(t):
    return strip(t or "") in INTS


def show_key(k):
    if k[0] == "l":
        return k[1].n
    return ".".join(str(x) for x in k[1:])

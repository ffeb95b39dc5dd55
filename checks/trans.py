"""Abstract evaluation of the analyzer: every path of a translation function from the syntax tree to the plan.

Parts of the syntax tree are access paths by accessor name: ('path', 'expr', 'left', ...).  What the function builds is a term:
  ('mk', T, region, args...)      context.create<T>(region, args...), make_unique<T>(args...)
  ('new', T, args...)             a constructor
  ('vec', id, (elements...))      a local container and what was put into it
  ('call', f, args...)            the result of another translation function
Tests of such a result, of a nullable part or of a flag are assumptions on the path: (term, True/False).
('in', part, (values...)) is the assumption that an enumeration has one of the values of a case label.
"""
from aval import Lin, Obj, show, part, term, is_int, Frame
from mz import recv, strip, walk, short
from paths import Paths, is_path

NOTHING = (("null",), ("glob", "std::nullopt"))
PRESENT = {"operator bool", "has_value", "is_valid"}
SAME = {"operator*", "operator->", "get", "value", "release", "shared_ptr", "ownership", "optional", "c_str", "shared", "lvalue", "rvalue"}
GROW = {"emplace_back", "push_back", "insert", "emplace", "append", "operator+=", "emplace_front", "push_front", "assign"}
TEXT = ("takatori::util::string_builder", "std::basic_ostream", "std::basic_ostringstream", "std::basic_stringstream")


def container(t):
    t = strip(t)
    return t.startswith(("std::vector<", "takatori::util::reference_vector<", "std::deque<", "std::list<", "std::set<", "std::map<", "std::unordered_", "tsl::hopscotch_",
                         "takatori::util::reference_list<"))


REORDER = {"std::reverse", "std::sort", "std::stable_sort", "std::rotate", "std::unique", "std::remove_if", "std::remove"}


def ends(x):
    """an iterator behind the last element"""
    while isinstance(x, tuple) and x[:1] in (("new",), ("init",)) and len(x) == 3:
        x = x[2]
    return isinstance(x, tuple) and (x[:2] in (("call", "end"), ("call", "cend")) or x[:1] == ("viter",) and x[2] == len(x[1][2]))


def begins(x):
    """an iterator at the first element"""
    while isinstance(x, tuple) and x[:1] in (("new",), ("init",)) and len(x) == 3:
        x = x[2]
    return isinstance(x, tuple) and (x[:2] in (("call", "begin"), ("call", "cbegin")) or x[:1] == ("viter",) and x[2] == 0)


def targs(d):
    """explicit and deduced template arguments of the callee"""
    t = getattr(d, "ta", None)
    return t or []


class Trans(Paths):
    def __init__(self, db, inline=None, model=None, maxdepth=10, unroll=1, effects=None):
        self.umodel = model
        super().__init__(db, inline=inline, model=self.tmodel, maxdepth=maxdepth, effects=effects)
        self.alias = {}
        self.unroll = unroll
        self.downcasts = []
        self.derefs = []
        self.callees = {}

    # -- local containers and references
    def key(self, fr, n):
        k = super().key(fr, n)
        seen = 0
        while k is not None and k[0] == "l" and k[1] in self.alias and seen < 5:
            k = self.alias[k[1]]
            seen += 1
        if k is None and n["k"] in ("Un",) and n.get("op") == "*" or k is None and n["k"] == "Op" and n.get("op") in ("*", "->") and n.get("c"):
            return self.key(fr, n.get("e") or n["c"][0])
        return k

    def stmt(self, fr, s, st):
        if s["k"] == "Var":
            t = s.get("t") or ""
            if t.endswith("&") and s.get("init") is not None:
                kk = self.key(fr, s["init"])
                if kk is not None and kk[0] in ("l", "f"):
                    self.alias[s["d"]] = kk
                    return [("next", None, st)]
                self.alias.pop(s["d"], None)
            if container(t) and not t.endswith("&"):
                i = s.get("init")
                if i is None or i["k"] in ("New", "IList") and not i.get("c") or i["k"] == "ValueInit":
                    return [("next", None, st.set(("l", s["d"]), ("vec", s["d"].n, ())))]
        if s["k"] == "Switch":
            return self.switch(fr, s, st)
        return super().stmt(fr, s, st)

    def switch(self, fr, s, st):
        from flow import arms
        out = []
        pre = [s[x] for x in ("init", "var") if s.get(x) is not None]
        for kk, _, st in self.block(fr, pre, st):
            for v, x in self.ev(fr, s["cond"], st):
                c = v.const() if isinstance(v, Lin) else v[2] if isinstance(v, tuple) and v and v[0] == "enum" else None
                todo = []
                labelled = [l for a in arms(s) for l in a[0]]
                e = self.db.enums.get(strip(s["cond"].get("t") or ""))
                covered = e is not None and self.db.in_repo(e["file"]) and {x["v"] for x in e["c"]} <= set(labelled)
                for a in arms(s):
                    if c is not None:
                        continue
                    if a[0]:
                        todo.append((a[2], ("in", v, tuple(sorted(a[0])))))
                    if a[1] and not covered:
                        todo.append((a[2], ("else", v, tuple(sorted(labelled)))))
                if c is not None:
                    sel = [a for a in arms(s) if c in a[0]] or [a for a in arms(s) if a[1]]
                    if not sel:
                        out.append(("next", None, x))
                    else:
                        for kk, vv, y in self.block(fr, sel[0][2], x):
                            out.append(("next" if kk == "break" else kk, vv, y))
                    continue
                if not any(a[1] for a in arms(s)) and not covered:
                    todo.append(([], ("else", v, tuple(sorted(labelled)))))
                for body, cond in todo:
                    y = self.refine(x, cond)
                    if y is None:
                        continue
                    for kk, vv, z in self.block(fr, body, y):
                        out.append(("next" if kk == "break" else kk, vv, z))
        return out

    def values(self, v, st):
        """(allowed, excluded) of the enumeration v on this path"""
        allowed, excluded = None, set()
        for c, b in st.cond:
            if not isinstance(c, tuple) or len(c) != 3:
                continue
            if c[0] == "in" and c[1] == v:
                s = set(c[2])
            elif c[0] == "else" and c[1] == v:
                s, b = set(c[2]), not b
            elif c[0] in ("==", "!=") and v in c[1:] and any(isinstance(y, tuple) and y[:1] == ("enum",) for y in c[1:]):
                e = next(y for y in c[1:] if isinstance(y, tuple) and y[:1] == ("enum",))
                s = {e[2]}
                if c[0] == "!=":
                    b = not b
            else:
                continue
            if b:
                allowed = s if allowed is None else allowed & s
            else:
                excluded |= s
        return (allowed - excluded if allowed is not None else None), excluded

    def refine(self, st, cond):
        """st with the assumption, None if it contradicts what is known about the enumeration"""
        v = cond[1]
        allowed, excluded = self.values(v, st)
        if cond[0] == "in":
            s = set(cond[2]) - excluded
            if allowed is not None:
                s &= allowed
            if not s:
                return None
        else:
            if allowed is not None and allowed <= set(cond[2]):
                return None
        return st.assume(cond, True)

    def truth(self, fr, n, st):
        out = []
        for b, x in super().truth(fr, n, st):
            if len(x.cond) > len(st.cond):
                c, bb = x.cond[-1]
                if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!=") and any(y in NOTHING for y in c[1:] if isinstance(y, tuple)):
                    o = c[2] if c[1] in NOTHING else c[1]
                    there = bb == (c[0] == "!=")
                    y = type(x)(x.env, x.eff, x.cond[:-1])
                    kn = self.present(o, y)
                    if kn is None:
                        out.append((b, y.assume(o, there)))
                    elif kn == there:
                        out.append((b, y))
                    continue
                if isinstance(c, tuple) and c and c[0] in ("==", "!=") and any(isinstance(y, tuple) and y[:1] == ("enum",) for y in c[1:]):
                    e = next(y for y in c[1:] if isinstance(y, tuple) and y[:1] == ("enum",))
                    o = c[2] if c[1] is e or c[1] == e else c[1]
                    pre = type(x)(x.env, x.eff, x.cond[:-1])
                    allowed, excluded = self.values(o, pre)
                    iseq = bb == (c[0] == "==")
                    if iseq and (allowed is not None and e[2] not in allowed or e[2] in excluded):
                        continue
                    if not iseq and allowed is not None and allowed == {e[2]}:
                        continue
            out.append((b, x))
        return out

    def present(self, v, st):
        """whether the pointer or optional v has a value, None: not known"""
        if isinstance(v, tuple) and v:
            if v in NOTHING or v[0] in ("new", "init", "fresh") and len(v) == 2 and not str(v[1]).startswith("mizugaki::"):
                return False
            if v[0] in ("mk", "enum", "new") and len(v) > 2:
                return True
            return st.known(v)
        return None

    def ev(self, fr, n, st):
        if n["k"] in ("IList", "ValueInit") and not n.get("c") and n.get("t") == "bool":
            return [(False, st)]
        return super().ev(fr, n, st)

    # -- calls
    def call(self, fr, n, st):
        out = super().call(fr, n, st)
        if n.get("d") is not None:
            for v, x in out:
                if isinstance(v, tuple) and len(v) > 1 and v[0] == "call" and v[1] == n["d"].n:
                    self.callees.setdefault(v, n["d"])
        return out

    def tmodel(self, itp, fr, n, name, rv, av, st):
        if self.umodel is not None:
            r = self.umodel(self, fr, n, name, rv, av, st)
            if r is not None:
                return r
        if n["k"] not in ("Call", "Op"):
            t = name[4:] if isinstance(name, str) and name.startswith("new ") else ""
            if container(t) and not av:
                return [(("vec", t, ()), st)]
            if len(av) == 1 and (t.startswith(("std::unique_ptr<", "std::shared_ptr<", "std::optional<", "takatori::util::optional_ptr<", "takatori::util::maybe_shared_ptr<",
                                               "std::basic_string", "std::basic_string_view", "takatori::util::sequence_view<", "takatori::util::rvalue_ptr<", "takatori::util::object_ptr<"))
                                 or t.startswith("mizugaki::ast::common::regioned<")):
                if av[0] == ("glob", "std::nullopt") or av[0] == ("null",):
                    return [(("new", t), st)]
                return [(av[0], st)]
            return None
        d = n.get("d")
        if d is None:
            return None
        q, nm = d.q or "", d.n
        if rv is None and q in REORDER and n["k"] == "Call" and n.get("c"):
            a = n["c"][0]
            while a["k"] in ("ICast", "Cast") and "e" in a:
                a = a["e"]
            k = self.key(fr, recv(a)) if recv(a) is not None else self.key(fr, a)
            v = st.env.get(k) if k is not None else None
            if isinstance(v, tuple) and v[:1] == ("vec",):
                if q == "std::reverse" and recv(a) is not None and len(n["c"]) == 2 and begins(av[0]) and ends(av[1]):
                    return [(("void",), st.set(k, ("vec", v[1], v[2][::-1])))]
                if len(v[2]) > 1:
                    return [(("void",), st.set(k, ("call", nm, v)))]
        op = n.get("op") if n["k"] == "Op" else None
        if op == "<<" or q.startswith(TEXT):
            if any(isinstance(a, tuple) and a[:1] in (("text",), ("new",), ("fresh",), ("init",), ("call",)) for a in ([rv] if rv is not None else []) + list(av)[:1]) or q.startswith(TEXT) or op == "<<":
                return [(("text",), st)]
        if nm == "create" and q.startswith("mizugaki::analyzer::details::analyzer_context") or q in ("std::make_unique", "std::make_shared"):
            ta = targs(d)
            T = short(strip(ta[0])) if ta else "?"
            if q.startswith("std::"):
                return [(("mk", T, None) + tuple(av), st)]
            return [(("mk", T) + tuple(av), st)]
        if nm == "report" and q.endswith("analyzer_context::report"):
            return [(("void",), st.effect(("report", av[0], av[2] if len(av) > 2 else None, n.get("l"))))]
        if nm in ("unsafe_downcast", "downcast", "dynamic_pointer_cast", "unsafe_dynamic_pointer_cast") and av:
            ta = targs(d)
            self.downcasts.append((n, fr.fn, short(strip(ta[0])) if ta else "?", strip(ta[0]) if ta else "?", av[0], st))
            return [(av[0], st)]
        if q in ("std::holds_alternative", "std::get_if", "std::get") and av and targs(d):
            T = short(strip(str(targs(d)[0])))
            if q == "std::get":
                return [(("alt", T, av[0]), st)]
            return [(("is", T, av[0]), st)]
        if rv is not None or n["k"] == "Op" and av:
            base = rv if rv is not None else av[0]
            rest = av if rv is not None else av[1:]
            if isinstance(base, tuple) and base and not isinstance(base, bool):
                foreign = not (q.startswith("mizugaki::analyzer::") and "result" not in q.split("::")[-2])
                if nm in PRESENT and not rest:
                    if base[0] in ("mk", "new", "enum") and len(base) > 2:
                        return [(True, st)]
                    if base == ("null",) or base == ("glob", "std::nullopt") or base[0] in ("new", "init", "fresh") and len(base) == 2 and not base[1].startswith("mizugaki::"):
                        return [(False, st)]
                    return [(base, st)]
                if op in ("*", "->") and not rest or nm in SAME and not rest and foreign:
                    self.derefs.append((n, fr.fn, base, st))
                    return [(base, st)]
                if is_path(base) and q.startswith("mizugaki::ast::") and not rest and nm not in ("begin", "end"):
                    if op is not None and op not in ("*", "->"):
                        return None
                    return [(base + (nm,), st)]
                if base[0] == "vec":
                    r = self.vec(fr, n, nm, op, base, rest, st)
                    if r is not None:
                        return r
                if nm in ("emplace", "reset") and q.startswith(("std::optional<", "takatori::util::optional_ptr<")) and len(rest) <= 1:
                    k = self.key(fr, recv(n)) if recv(n) is not None else None
                    if k is not None:
                        x = rest[0] if rest else ("new", strip(recv(n).get("t") or ""))
                        return [(x, st.set(k, x))]
                if nm == "has_diagnostics" and not rest:
                    base, nm = ("call", "diagnostics", base), "has"
                if nm in ("empty", "has") and not rest and q.startswith(("std::", "takatori::", "yugawara::", "tsl::")) and not q.startswith("std::basic_string"):
                    k = st.known(("nonempty", base))
                    e = nm == "empty"
                    if k is not None:
                        return [(k != e, st)]
                    return [(e, st.assume(("nonempty", base), False)), (not e, st.assume(("nonempty", base), True))]
                if op in ("==", "!=") and len(rest) == 1:
                    return [(self.compare(op, base, rest[0]), st)]
        if op in ("==", "!=") and len(av) == 2:
            return [(self.compare(op, av[0], av[1]), st)]
        return None

    def vec(self, fr, n, nm, op, base, rest, st):
        items = base[2]
        if nm in GROW and rest:
            r = recv(n) if n["k"] == "Call" else n["c"][0]
            k = self.key(fr, r)
            a = rest
            if nm == "insert" and len(rest) > 1:
                a = rest[1:]
            el = a[0] if len(a) == 1 else ("tuple",) + tuple(a)
            st = st.effect(("grow", base[1], el))
            if k is not None:
                front = nm in ("emplace_front", "push_front") or nm in ("insert", "emplace") and any(
                    begins(x) for x in rest[:1])
                st = st.set(k, ("vec", base[1], (el,) + items if front else items + (el,)))
            return [(el, st)]
        if nm == "empty":
            if not items:
                return [(True, st)] if not any(e[0] == "opaque" and e[1] == base[1] for e in st.eff) else None
            return [(False, st)]
        if nm in ("reserve", "shrink_to_fit"):
            return [(("void",), st)]
        if nm == "clear":
            k = self.key(fr, recv(n))
            return [(("void",), st.set(k, ("vec", base[1], ())) if k is not None else st)]
        if nm in ("pop_back", "pop_front") and items:
            k = self.key(fr, recv(n))
            return [(("void",), st.set(k, ("vec", base[1], items[:-1] if nm == "pop_back" else items[1:])) if k is not None else st)]
        if nm in ("erase", "resize") and items and rest:
            k = self.key(fr, recv(n))
            if k is not None:
                x = rest[0]
                while isinstance(x, tuple) and x[:1] in (("new",), ("init",)) and len(x) == 3:
                    x = x[2]
                i = 0 if begins(x) else x[2] if isinstance(x, tuple) and x[:1] == ("viter",) else None
                if isinstance(x, Lin) and len(x.t) == 1 and x.t[0][1] == 1 and (begins(x.t[0][0]) or ends(x.t[0][0])):
                    i = x.c + (0 if begins(x.t[0][0]) else len(items))
                if nm == "erase" and len(rest) == 1 and i is not None and 0 <= i < len(items):
                    return [(("void",), st.set(k, ("vec", base[1], items[:i] + items[i + 1:])))]
                i = x.const() if isinstance(x, Lin) else None
                if nm == "resize" and len(rest) == 1 and i is not None and i <= len(items):
                    return [(("void",), st.set(k, ("vec", base[1], items[:i])))]
                return [(("void",), st.set(k, ("call", nm, base) + tuple(rest)))]
        if nm in ("front", "back") and items:
            return [(items[0] if nm == "front" else items[-1], st)]
        if nm == "size":
            return [(Lin((), len(items)), st)]
        return None

    def inlined(self, fr, n, callee, r, rv, av, st):
        out = super().inlined(fr, n, callee, r, rv, av, st)
        # copy-out of arguments passed by reference
        cs = list(n.get("c", []))
        if n["k"] == "Op" and r is not None:
            cs = cs[1:]
        res = []
        outs = []
        for i, (p, a) in enumerate(zip(callee.params, cs)):
            t = p["d"].t or ""
            if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "):
                k = self.key(fr, a)
                if k is not None:
                    outs.append((("l", p["d"]), k, av[i] if i < len(av) else None))
        for v, x in out:
            for pk, k, a in outs:
                if pk in x.env and x.env[pk] is not a:
                    x = x.set(k, x.env[pk])
            res.append((v, x))
        return res

    # -- loops: up to `unroll` elements
    def loop(self, fr, s, st):
        if s["k"] == "ForRange":
            out = []
            for v, x in self.ev(fr, s["range"], st):
                if isinstance(v, tuple) and v and v[0] == "vec":
                    cur = [x]
                    for el in v[2]:
                        nxt = []
                        for y in cur:
                            y = self.bindvar(s, el, y)
                            for k, vv, z in self.stmt(fr, s["body"], y):
                                if k in ("next", "continue"):
                                    nxt.append(z)
                                elif k == "break":
                                    out.append(("next", None, z))
                                else:
                                    out.append((k, vv, z))
                        cur = nxt
                    out += [("next", None, y) for y in cur]
                    continue
                cond = ("nonempty", v)
                kn = x.known(cond)
                if kn is not True:
                    out.append(("next", None, x.assume(cond, False) if kn is None else x))
                if kn is False:
                    continue
                y = x.assume(cond, True) if kn is None else x
                cur = [y]
                for i in range(self.unroll):
                    el = v + ("*" if self.unroll == 1 else "#%d" % i,) if is_path(v) else ("elem", v) if self.unroll == 1 else ("elem", v, i)
                    nxt = []
                    for z in cur:
                        z = self.bindvar(s, el, z)
                        for k, vv, w in self.stmt(fr, s["body"], z):
                            if k in ("next", "continue"):
                                nxt.append(w)
                            elif k == "break":
                                out.append(("next", None, w))
                            else:
                                out.append((k, vv, w))
                    if i + 1 < self.unroll:
                        c = ("more", v, i)
                        out += [("next", None, w if w.known(c) is False else w.assume(c, False)) for w in nxt if w.known(c) is not True]
                        cur = [w if w.known(c) else w.assume(c, True) for w in nxt if w.known(c) is not False]
                    else:
                        out += [("next", None, w) for w in nxt]
            return out
        return super().loop(fr, s, st)

    def bindvar(self, s, el, st):
        self.alias.pop(s["var"]["d"], None)
        st = st.set(("l", s["var"]["d"]), el)
        for i, b in enumerate(s["var"].get("bind", ())):
            st = st.set(("l", b["d"]), part(i, el, s["var"].get("t")))
        return st


def failing(v):
    return v in NOTHING or isinstance(v, tuple) and v[:1] in (("new",), ("init",), ("fresh",)) and len(v) == 2 or v is False


def args_for(f):
    """syntax tree parameters are access paths"""
    out = []
    for p in f.params:
        t = p["d"].t or ""
        out.append(("path", p["n"]) if "mizugaki::ast::" in t else ("param", p["n"]))
    return out

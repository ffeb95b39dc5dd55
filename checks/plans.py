"""Abstract evaluation of what the analyzer builds: relational operators and how their ports are connected.

  ('op', T, number, args...)      an operator which was put into the graph
  ('port', op, name)              input, left, right, output of it
  ('info', number, args...)       a description of the columns of a relation
Effects of a path: ('connect', from, to), ('add', object, list, values...), ('set', op, what, values...), besides the calls of other functions.
"""
from aval import Lin, Obj, St
from mz import strip, short
from paths import is_path
from terms import Terms, deep
from trans import container, failing, targs

REL = ("takatori::relation::", "yugawara::extension::relation::", "takatori::statement::")
SINKS = {"input", "left", "right"}
PORTS = SINKS | {"output"}
DET = "mizugaki::analyzer::details::"
INFO = DET + "relation_info"


def hollow(v):
    """a result which says that nothing was made"""
    if isinstance(v, Obj):
        return bool(v.f) and all(hollow(x) for x in v.f.values())
    return failing(v) or isinstance(v, tuple) and (v[:1] == ("vec",) and v[2] == () or v[:1] == ("info",) and len(v) == 2)


def merge(out, st):
    """branches which make no difference are one"""
    res = []
    for k, v, x in out:
        if k == "next" and len(x.cond) == len(st.cond) + 1:
            for i, (kk, vv, y) in enumerate(res):
                if kk == "next" and len(y.cond) == len(x.cond) and y.cond[:-1] == x.cond[:-1] and y.cond[-1][0] == x.cond[-1][0] and y.cond[-1][1] != x.cond[-1][1] \
                        and (y.eff is x.eff or y.eff == x.eff) and (y.env is x.env or y.env == x.env):
                    res[i] = (kk, vv, St(y.env, y.eff, y.cond[:-1]))
                    break
            else:
                res.append((k, v, x))
        else:
            res.append((k, v, x))
    return res


def listlike(q):
    return q.startswith(("takatori::util::sequence_view<", "takatori::util::reference_vector", "takatori::util::reference_list", "takatori::tree::tree_element_vector", "takatori::util::basic_reference", "std::array<"))


def relational(d):
    q = d.q or ""
    return q.startswith(REL)


class Plans(Terms):
    def __init__(self, db, inline=None, unroll=1, other=1, maxdepth=12, model=None, limit=400000, succeed=True):
        self.and_more = model
        super().__init__(db, inline=inline, unroll=unroll, maxdepth=maxdepth, model=Plans.graph)
        self.other = other
        self.maxpaths = limit
        self.succeed = succeed
        self.tail = set()
        self.last = None

    # only ways which succeed are of interest
    def stmt(self, fr, s, st):
        if s["k"] == "Var" and strip(s.get("t") or "") == INFO and not (s.get("t") or "").endswith("&"):
            i = s.get("init")
            if i is None or i["k"] in ("New", "IList", "ValueInit") and not i.get("c"):
                return [("next", None, st.set(("l", s["d"]), self.fresh(st)))]
        final = fr.depth == 0 or fr.tag in self.tail
        if s["k"] == "Return" and final and s.get("e") is not None:
            e = s["e"]
            while e["k"] in ("ICast", "Cast") and "e" in e or e["k"] == "New" and e.get("cc") in ("copy", "move") and len(e.get("c", ())) == 1:
                e = e["e"] if "e" in e else e["c"][0]
            self.last = e
        out = super().stmt(fr, s, st)
        if s["k"] == "If":
            out = merge(out, st)
        if self.succeed:
            out = [x for x in out if x[0] not in ("throw",) and not (x[0] == "ret" and final and hollow(x[1]))]
        return out

    def inlined(self, fr, n, callee, r, rv, av, st):
        if n is self.last:  # its result is the result
            self.tail.add(self.tags + 1)
        return super().inlined(fr, n, callee, r, rv, av, st)

    def assign(self, fr, lhs, v, st):
        if lhs["k"] == "Call" and lhs.get("d") is not None and lhs["d"].n == "region":  # where it comes from is not what it does
            return st
        if lhs["k"] == "Op" and lhs.get("op") == "[]" and len(lhs.get("c", ())) == 2:  # an element of a local list
            k = self.key(fr, lhs["c"][0])
            i = self.render(fr, lhs["c"][1], st)
            i = i.const() if isinstance(i, Lin) else None
            old = st.env.get(k) if k is not None else None
            if i is not None and isinstance(old, tuple) and old[:1] == ("vec",) and 0 <= i < len(old[2]):
                return st.set(k, ("vec", old[1], old[2][:i] + (v,) + old[2][i + 1:]))
        return super().assign(fr, lhs, v, st)

    def fresh(self, st, *args):
        return ("info", sum(1 for e in st.eff if e[0] == "add" and e[1][0] == "info")) + args

    def present(self, v, st):
        if isinstance(v, tuple) and (v[:1] in (("op",), ("port",), ("info",)) or v[:2] == ("call", "normalize_identifier")):
            return True
        if isinstance(v, tuple) and len(v) == 2 and v[0] in ("new", "init", "fresh") and str(v[1]).startswith(("takatori::util::optional_ptr<", "std::optional<", "std::unique_ptr<", "std::shared_ptr<")):
            return False
        return super().present(v, st)

    def truth(self, fr, n, st):
        out = []
        for b, x in super().truth(fr, n, st):
            if len(x.cond) > len(st.cond):
                c, bb = x.cond[-1]
                y = type(x)(x.env, x.eff, x.cond[:-1])
                if isinstance(c, tuple) and c[:1] == ("<",) and c[1] == Lin((), 0) and self.size_any(c[2]) is not None:
                    c = ("nonempty", self.size_any(c[2]))
                    p = y.known(c)
                    if p is None:
                        out.append((b, y.assume(c, bb)))
                        continue
                else:
                    p = self.present(c, y)
                if p is not None:
                    if p == bb:
                        out.append((b, y))
                    continue
            out.append((b, x))
        return out

    # loops over lists which are not of the syntax tree
    def size_of(self, v):
        r = super().size_of(v)
        return r if r is not None else self.opaque(self.size_any(v))

    @staticmethod
    def opaque(v):
        return v if isinstance(v, tuple) and v[:1] in (("call",), ("mem",), ("field0",), ("elem",), ("param",), ("bind",), ("mk",)) else None

    def step(self, v, i, st):
        old = self.unroll
        self.unroll = self.lists.get(v[-1], self.full) if is_path(v) else self.other
        try:
            return super().step(v, i, st)
        finally:
            self.unroll = old

    def tm(self, itp, fr, n, name, rv, av, st):
        r = super().tm(itp, fr, n, name, rv, av, st)
        if r is not None:
            return r
        d = n.get("d") if n["k"] in ("Call", "Op") else None
        if d is None:
            return None
        base, rest = rv, list(av)
        if base is None and n["k"] == "Op" and av:
            base, rest = av[0], list(av[1:])
        op = n.get("op") if n["k"] == "Op" else None
        if isinstance(base, tuple) and base[:1] == ("iter",) and len(base) == 3 and op in ("+", "-") and len(rest) == 1 and isinstance(rest[0], Lin) and rest[0].const() is not None:
            return [(("iter", base[1], base[2] + (rest[0].const() if op == "+" else -rest[0].const())), st)]
        if not container((d.q or "").rsplit("::", 1)[0]) and not listlike(d.q or ""):
            return None
        l = self.opaque(base)
        if l is None:
            return None
        if d.n in ("begin", "cbegin") and not rest:
            return [(("iter", l, 0), st)]
        if d.n in ("end", "cend") and not rest:
            return [(("enditer", l), st)]
        i = rest[0].const() if len(rest) == 1 and isinstance(rest[0], Lin) else None
        if i is not None and i >= 0 and (op == "[]" or d.n in ("at", "operator[]")):
            return [(self.item(l, i), st)]
        if d.n == "front" and not rest:
            return [(self.item(l, 0), st)]
        return None

    @staticmethod
    def size_any(v):
        if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            v = v.t[0][0]
        return v[2] if isinstance(v, tuple) and len(v) == 3 and v[:2] == ("call", "size") else None

    @staticmethod
    def graph(self, fr, n, name, rv, av, st):
        if self.and_more is not None:
            r = self.and_more(self, fr, n, name, rv, av, st)
            if r is not None:
                return r
        d = n.get("d") if n["k"] in ("Call", "Op") else None
        if d is None:
            if name == "new " + INFO and not (len(av) == 1 and isinstance(av[0], tuple) and av[0][:1] == ("info",)):
                return [(self.fresh(st, *av), st)]
            return None
        q, nm = d.q or "", d.n
        if self.succeed and nm == "report" and q.endswith("analyzer_context::report"):
            return []
        if nm == "empty" and rv == ("new", "std::basic_string<char>"):
            return [(True, st)]
        if nm == "create_pivot" and not av:
            return [(("call", nm, rv), st.effect(("call", nm, rv)))]
        if nm == "swap" and q.startswith("std::") and len(av) == 2 and rv is None:
            a, b = (self.key(fr, x) for x in n["c"])
            if a is not None and b is not None:
                return [(("void",), st.set(a, av[1]).set(b, av[0]))]
        op = n.get("op") if n["k"] == "Op" else None
        rec = q.rsplit("::", 1)[0]
        base, rest = rv, list(av)
        if base is None and n["k"] == "Op" and av:
            base, rest = av[0], list(av[1:])
        if nm in ("emplace", "insert") and "graph" in rec and n["k"] == "Call":
            k = sum(1 for e in st.eff if e[0] == "op")
            if nm == "emplace":
                ta = targs(d)
                T = short(strip(str(ta[0]))) if ta else "?"
                o = ("op", T, k) + tuple(rest)
            else:
                m = rest[0]
                if not (isinstance(m, tuple) and m[:1] == ("mk",)):
                    return None
                o = ("op", m[1], k) + tuple(m[3:])
            return [(o, st.effect(("op", o)))]
        if isinstance(base, tuple) and base[:1] == ("op",) and nm in PORTS and not rest:
            return [(("port", base, nm), st)]
        if (nm == "connect_to" or op in ("<<", ">>") and self.portlike(base)) and len(rest) == 1:
            return [(base, st.effect(("connect", base, rest[0])))]
        if nm in ("disconnect_from", "disconnect", "disconnect_all") and self.portlike(base):
            return [(("void",), st.effect(("disconnect", base) + tuple(rest)))]
        if isinstance(base, tuple) and base[:1] == ("call",) and len(base) == 3 and isinstance(base[2], tuple) and base[2][:1] in (("op",), ("info",)) and nm in ("emplace_back", "push_back") and rest:
            return [(("void",), st.effect(("add", base[2], base[1]) + tuple(rest)))]
        if isinstance(base, tuple) and base[:1] == ("info",) and nm == "add" and rest:
            return [(("void",), st.effect(("add", base, "columns") + tuple(rest)))]
        if isinstance(base, tuple) and base[:1] == ("op",) and relational(d) and rest and op is None:
            return [(base, st.effect(("set", base, nm) + tuple(rest)))]
        return None

    @staticmethod
    def portlike(v):
        return isinstance(v, tuple) and v[:1] in (("port",),) or isinstance(v, tuple) and v[:1] == ("call",) and v[1] in PORTS


class Graph:
    """the operators of a path and how they are connected"""

    def __init__(self, st):
        self.st = st
        self.ops = [e[1] for e in st.eff if e[0] == "op"]
        self.into = {}
        for e in st.eff:
            if e[0] == "connect":
                a, b = e[1], e[2]
                if self.sink(b) and not self.sink(a):
                    a, b = b, a
                self.into[a] = b
            if e[0] == "disconnect":
                for p in e[1:]:
                    self.into.pop(p, None)

    @staticmethod
    def sink(p):
        return isinstance(p, tuple) and p[:1] == ("port",) and p[2] in SINKS

    @staticmethod
    def kind(op):
        return op[1].split("::")[-1]

    def upstream(self, port, name="input"):
        """what feeds the operator whose output is `port`"""
        return self.into.get(("port", port[1], name))

    def chain(self, port):
        """operators from `port` towards the source, and the port the first of them reads"""
        out = []
        while isinstance(port, tuple) and port[:1] == ("port",) and port[2] == "output" and port[1][:1] == ("op",) and len(out) < 50:
            out.append(port[1])
            if ("port", port[1], "input") not in self.into:
                return out, None
            port = self.into[("port", port[1], "input")]
        return out, port

    def added(self, obj, what="columns"):
        return [e[3:] for e in self.st.eff if e[0] == "add" and e[1] == obj and e[2] == what]

    def set(self, op, what):
        r = None
        for e in self.st.eff:
            if e[0] == "set" and e[1] == op and e[2] == what:
                r = e[3:]
        return r

    def when(self, pred):
        """positions of the effects which satisfy pred"""
        return [i for i, e in enumerate(self.st.eff) if pred(e)]

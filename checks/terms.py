"""What the analyzer makes of a scalar expression, as a value.

Terms walks the paths of a translation function (trans.Trans: no solver, no execution of the function) and yields, per way which succeeds, the term of the
plan expression which is built and the assumptions about the syntax tree under which it is built.  value() gives such a term its SQL meaning for given
values of the operands, in the three-valued logic of SQL (None is NULL / unknown)."""
from aval import Lin, Obj, St, term
from mz import recv, strip, walk, short
from paths import is_path
from trans import Trans, args_for, NOTHING, targs

AST = "mizugaki::ast::"


class Unknown(Exception):
    """the term has a part whose meaning is not known here"""


def own_step(d):
    q = d.q or ""
    return q.startswith(AST) and not q.startswith(AST + "common::")


class Terms(Trans):
    def __init__(self, db, inline=None, unroll=2, maxdepth=10, model=None):
        self.more = model
        self.full = unroll
        self.other = 1
        self.lists = {}
        super().__init__(db, inline=inline, model=self.tm, maxdepth=maxdepth, unroll=unroll)

    def ev(self, fr, n, st):
        if n["k"] == "Ref" and n.get("d") is not None and ("l", n["d"]) in st.env:  # structured bindings
            return [(st.env[("l", n["d"])], st)]
        return super().ev(fr, n, st)

    def tm(self, itp, fr, n, name, rv, av, st):
        if self.more is not None:
            r = self.more(self, fr, n, name, rv, av, st)
            if r is not None:
                return r
        d = n.get("d") if n["k"] in ("Call", "Op") else None
        if d is None:
            t = name[4:] if isinstance(name, str) and name.startswith("new ") else ""
            if t.startswith(AST + "common::regioned<") and av:
                return [(av[0], st)]
            return None
        base = rv
        rest = list(av)
        if base is None and n["k"] == "Op" and av:
            base, rest = av[0], list(av[1:])
        op = n.get("op") if n["k"] == "Op" else None
        nm = d.n
        if nm == "emplace" and (d.q or "").startswith(("std::optional<", "takatori::util::optional_ptr<")) and len(rest) > 1 and recv(n) is not None:
            k = self.key(fr, recv(n))
            if k is not None:
                x = ("tuple",) + tuple(rest)
                return [(x, st.set(k, x))]
        if (d.q or "").startswith("std::basic_string_view<") and nm == "remove_prefix" and len(rest) == 1:
            k = self.key(fr, recv(n))
            if k is not None and k in st.env:
                return [(("void",), st.set(k, ("text", "drop", base, rest[0])))]
        if (d.q or "").startswith("std::basic_string<") and rest and (nm in ("append", "insert") or op == "+="):
            r = recv(n) if n["k"] == "Call" else n["c"][0]
            k = self.key(fr, r) if r is not None else None
            if k is not None and k in st.env:
                x = ("text", nm if nm == "insert" else "append", base) + tuple(rest)
                return [(x, st.set(k, x))]
        if isinstance(base, tuple) and base[:1] == ("tuple",) and nm in ("operator bool", "has_value") and not rest:
            return [(True, st)]
        lam = next((x[1] for x in deep(rest[-1]) if x[:1] == ("lambda",) and len(x) == 2 and x[1] in self.lambdas), None) if nm == "each" and rest else None
        if lam is not None:
            # a visitor of all declarations of a name: none, or one
            lst = ("call", "each", base) + tuple(rest[:-1])
            c = ("nonempty", lst)
            k = st.known(c)
            out = []
            if k is not True:
                out.append((("void",), st if k is False else st.assume(c, False)))
            if k is not False:
                y = st if k else st.assume(c, True)
                out += [(("void",), x) for _, x in self.run_lambda(self.lambdas[lam], [("elem", lst)], y)]
            return out
        if nm == "contains" and len(rest) == 1 and is_path(rest[0]):
            vs = self.constants(base)
            if vs is not None:
                out = []
                for c, b in ((("in", rest[0], vs), True), (("else", rest[0], vs), False)):
                    x = self.refine(st, c)
                    if x is not None:
                        out.append((b, x))
                return out
        if isinstance(base, tuple) and base[:1] == ("vec",) and len(rest) == 1 and (op == "[]" or nm in ("at", "operator[]")) and isinstance(rest[0], Lin):
            i = rest[0].const()
            if i is not None and 0 <= i < len(base[2]):
                return [(base[2][i], st)]
        if is_path(base):
            if own_step(d) and not rest and op is None and nm == "value":
                return [(base + (nm,), st)]
            i = rest[0] if len(rest) == 1 else None
            if isinstance(i, Lin):
                i = i.const()
            if isinstance(i, int) and not isinstance(i, bool) and (op == "[]" or nm in ("at", "operator[]")) and not own_step(d):
                return [(self.item(base, i), st)]
            if nm in ("front",) and not rest and not own_step(d):
                return [(self.item(base, 0), st)]
            if nm in ("begin", "cbegin") and not rest:
                return [(("iter", base, 0), st)]
        if name in ("std::begin", "std::cbegin", "std::size", "std::empty") and av and is_path(av[0]):
            if name.endswith("begin"):
                return [(("iter", av[0], 0), st)]
        if isinstance(base, tuple) and base and base[0] == "iter" and len(base) == 3:
            if op in ("*", "->") and not rest:
                return [(self.item(base[1], base[2]), st)]
            if op == "++":
                r = recv(n) if n["k"] == "Call" else n["c"][0]
                nv = ("iter", base[1], base[2] + 1)
                return [(nv if not rest else base, self.assign(fr, r, nv, st))]
            if op in ("!=", "==") and rest and isinstance(rest[0], tuple) and rest[0][:1] == ("enditer",) and rest[0][1] == base[1]:
                return [((there if op == "!=" else not there), x) for there, x in self.step(base[1], base[2], st)]
        return None

    def item(self, l, i):
        """an element of a list"""
        if is_path(l):
            return l + ("*" if i == 0 and self.lists.get(l[-1], self.full) == 1 else "#%d" % i,)
        return ("elem", l) if i == 0 and self.other == 1 else ("elem", l, i)

    def constants(self, v):
        """the values of a constant set of enumerators"""
        if isinstance(v, tuple) and v[:1] == ("glob",):
            for d in self.db.vars.values():
                if d.get("q") == v[1] and d.get("init") is not None and "const" in (d.get("t") or ""):
                    v = ("new", d["t"]) + tuple(("enum", x["d"].q, x["d"].v) for x in walk(d["init"]) if x["k"] == "Ref" and x.get("d") is not None and x["d"].k == "EnumConstant")
        if isinstance(v, tuple) and v[:1] == ("new",) and "enum_set<" in str(v[1]):
            return tuple(sorted(x[2] for x in deep(v) if x[:1] == ("enum",))) or None
        return None

    def present(self, v, st):
        if isinstance(v, tuple) and v[:1] == ("tuple",):
            return True
        return super().present(v, st)

    # -- how many elements a list has: ("nonempty", list), ("more", list, i): there is an element after the i-th
    def step(self, v, i, st):
        c = ("nonempty", v) if i == 0 else ("more", v, i - 1)
        k = st.known(c)
        if k is not None:
            return [(k, st)]
        if i >= self.unroll:
            return [(False, st.assume(c, False))]
        return [(True, st.assume(c, True)), (False, st.assume(c, False))]

    def truth(self, fr, n, st):
        if n["k"] in ("Bin", "Op") and n.get("op") in ("<", "!=") and len(n.get("c", ())) == 2:
            out = []
            hit = False
            for vs, x in self.evs(fr, n["c"], st):
                a, b = vs
                p = self.size_of(b)
                i = a.const() if isinstance(a, Lin) else a if isinstance(a, int) and not isinstance(a, bool) else None
                if p is None or i is None or not self.counting:
                    break
                hit = True
                out += self.step(p, i, x)
            if hit:
                return out
        return super().truth(fr, n, st)

    counting = 0

    def size_of(self, v):
        if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            v = v.t[0][0]
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "call" and v[1] == "size" and is_path(v[2]):
            return v[2]
        return None

    def loop(self, fr, s, st):
        if s["k"] == "ForRange":
            old = self.unroll
            r = self.ev(fr, s["range"], st)
            self.unroll = self.lists.get(r[0][0][-1], self.full) if r and is_path(r[0][0]) else self.other
            try:
                return super().loop(fr, s, st)
            finally:
                self.unroll = old
        if s["k"] in ("For", "While") and s.get("cond") is not None:
            cur = [st]
            if s.get("init") is not None:
                cur = [x for k, _, x in self.block(fr, [s["init"]], st) if k == "next"]
            # a counter or an iterator which runs over a list of the syntax tree
            out, ok = [], True
            self.counting += 1
            for i in range(max(self.unroll, self.other) + 1):
                nxt = []
                for x in cur:
                    rs = self.truth(fr, s["cond"], x)
                    if not all(self.bounded(x, y) or b is not None and len(y.cond) == len(x.cond) for b, y in rs):
                        ok = False
                        break
                    for b, y in rs:
                        if not b:
                            out.append(("next", None, y))
                            continue
                        for k, vv, z in self.stmt(fr, s["body"], y):
                            if k in ("next", "continue"):
                                zs = [z]
                                if s.get("inc") is not None:
                                    zs = [w for _, w in self.ev(fr, s["inc"], z)]
                                nxt += zs
                            elif k == "break":
                                out.append(("next", None, z))
                            else:
                                out.append((k, vv, z))
                cur = nxt
                if not ok or not cur:
                    break
            self.counting -= 1
            if ok and not cur:
                return out
        return super().loop(fr, s, st)

    def bounded(self, x, y):
        return len(y.cond) == len(x.cond) + 1 and isinstance(y.cond[-1][0], tuple) and y.cond[-1][0][:1] in (("nonempty",), ("more",))


# ---------------------------------------------------------------------------------------------------------------- meaning

def k_not(a):
    return None if a is None else not a


def k_and(a, b):
    if a is False or b is False:
        return False
    return None if a is None or b is None else True


def k_or(a, b):
    if a is True or b is True:
        return True
    return None if a is None or b is None else False


CMP = {
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b, "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
}
NEGATED = {"equal": "not_equal", "not_equal": "equal", "less": "greater_equal", "greater_equal": "less", "greater": "less_equal", "less_equal": "greater"}


def boolean(a):
    if a is None or isinstance(a, bool) or isinstance(a, tuple) and a[:1] in (("quantified",), ("exists",), ("match",), ("not",)):
        return a
    raise TypeError("a truth value is required")


def number(a):
    if isinstance(a, bool):
        raise TypeError("a number is required")
    return a


def negate(a):
    a = boolean(a)
    if isinstance(a, tuple):
        if a[0] == "not":
            return a[1]
        if a[0] == "quantified":  # not (x = any Q) is x <> all Q
            return ("quantified", NEGATED[a[1]], "all" if a[2] == "any" else "any") + a[3:]
        return ("not", a)
    return k_not(a)


def arith(op, a, b):
    a, b = number(a), number(b)
    if op == "concat":
        return None if a is None or b is None else ("concat", a, b)
    if a is None or b is None:
        return None
    if op in ("divide", "remainder"):
        return (op, a, b)
    return a + b if op == "add" else a - b if op == "subtract" else a * b


UNARY = {
    "plus": lambda a: number(a), "sign_inversion": lambda a: None if number(a) is None else -a, "conditional_not": negate,
    "is_null": lambda a: a is None, "is_true": lambda a: boolean(a) is True, "is_false": lambda a: boolean(a) is False, "is_unknown": lambda a: boolean(a) is None,
}


def name_of(e):
    if isinstance(e, tuple) and e and e[0] == "enum":
        return e[1].split("::")[-1]
    raise Unknown("operator %s" % (e,))


def value(t, sub, env=None):
    """the value of the plan expression t; sub(path, what): the value of the part of the syntax tree at path which is translated by `what`"""
    env = env or {}
    if not isinstance(t, tuple) or not t:
        raise Unknown(t)
    if t[0] == "call" or is_path(t):
        return sub(t)
    if t[0] != "mk" or len(t) < 3:
        raise Unknown(t[:2])
    kind = short(t[1]).split("::")[-1]
    a = t[3:]

    def v(x):
        return value(x, sub, env)

    if kind == "unary" and len(a) == 2:
        return UNARY[known(UNARY, name_of(a[0]))](v(a[1]))
    if kind == "binary" and len(a) == 3:
        op = name_of(a[0])
        if op == "conditional_and":
            return k_and(boolean(v(a[1])), boolean(v(a[2])))
        if op == "conditional_or":
            return k_or(boolean(v(a[1])), boolean(v(a[2])))
        if op in ("add", "subtract", "multiply", "divide", "remainder", "concat"):
            return arith(op, v(a[1]), v(a[2]))
        raise Unknown(op)
    if kind == "compare" and len(a) == 3:
        f = CMP[known(CMP, name_of(a[0]))]
        x, y = v(a[1]), v(a[2])
        return None if x is None or y is None else f(x, y)
    if kind == "let" and len(a) == 2:
        e = dict(env)
        for b in elements(a[0]):
            p = parts(b)
            if len(p) != 2:
                raise Unknown(b)
            e[var(p[0])] = v(p[1])
        return value(a[1], sub, e)
    if kind == "variable_reference" and len(a) == 1:
        k = var(a[0])
        if k in env:
            return env[k]
        raise Unknown(("variable", k))
    if kind == "conditional" and len(a) in (1, 2):
        for b in elements(a[0]):
            p = parts(b)
            if len(p) != 2:
                raise Unknown(b)
            if boolean(v(p[0])) is True:
                return v(p[1])
        if len(a) < 2 or a[1] in NOTHING or a[1][0] in ("new", "init", "fresh") and len(a[1]) == 2:
            return None
        return v(a[1])
    if kind == "coalesce" and len(a) == 1:
        for b in elements(a[0]):
            x = v(b)
            if x is not None:
                return x
        return None
    if kind == "immediate":
        if any(isinstance(x, tuple) and x[:1] == ("new",) and str(x[1]).endswith("value::unknown") for x in deep(a[0])):
            return None
        if any(x == ("str", "") or x == ("new", "takatori::value::character", ("str", "")) for x in deep(a[0])):
            return ("text", "")
        raise Unknown(t)
    if kind == "match" and len(a) == 4:
        return ("match", name_of(a[0]), v(a[1]), v(a[2]), v(a[3]))
    if kind == "quantified_compare" and len(a) == 6:
        return ("quantified", name_of(a[0]), name_of(a[1]), v(a[2]), query(a[3], a[4], a[5], sub))
    if kind == "subquery" and len(a) == 3:
        return ("subquery", query(a[0], a[1], a[2], sub))
    if kind == "exists" and len(a) == 2:
        return ("exists", query(a[0], a[1], None, sub))
    if kind == "cast" and len(a) == 3:
        return ("cast", sub(a[0]), v(a[2]))
    raise Unknown(kind)


def known(table, k):
    if k not in table:
        raise Unknown(k)
    return k


def elements(v):
    if isinstance(v, tuple) and v and v[0] == "vec":
        return v[2]
    raise Unknown(v)


def parts(b):
    if isinstance(b, tuple) and b[:1] == ("tuple",):
        return b[1:]
    if isinstance(b, tuple) and b[:1] in (("new",), ("init",)) and len(b) > 3:
        return b[2:]
    if isinstance(b, Obj):
        return tuple(b.f.values())
    raise Unknown(b)


def var(v):
    """the variable of a let, or of a reference to it"""
    if isinstance(v, tuple) and v[:2] == ("call", "local_variable"):
        return v
    if isinstance(v, tuple) and v[:2] == ("call", "variable") and len(v) == 3:
        p = parts(v[2])
        return var(p[0])
    raise Unknown(v)


def deep(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from deep(x)
    elif isinstance(t, Obj):
        for x in t.f.values():
            yield from deep(x)
    elif isinstance(t, Lin):
        for x, _ in t.t:
            yield from deep(x)


def query(graph, params, column, sub):
    """the translated query whose plan is `graph`, whose correlated variables are `params` and whose only column is `column`"""
    q = None
    for x in deep(column) if column is not None else ():
        if x[:2] == ("call", "analyze_query_expression"):
            q = x
    return sub(("query", graph, params, column, q))


def uses(t, pred):
    return sum(1 for x in deep(t) if pred(x))

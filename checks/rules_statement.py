"""A07: statements which change rows become the plans which SQL asks for."""
from aval import Lin, Obj
from mz import recv, strip
from paths import is_path
from plans import Plans, hollow
from rules_group import numbers
from rules_query import A, Engine as Queries, columns_of, items, kind, pair, plain, run_rule, scalar, scan_rules
from terms import Unknown, deep

S = "takatori::scalar::"
SETS = ("tsl::hopscotch_set<", "tsl::robin_set<", "std::set<", "std::unordered_set<")


def position(st, es, x):
    """where x is among the known elements es: [(index or None, state)]"""
    out = []
    cur = st
    for i, e in enumerate(es):
        if e == x:
            return out + [(i, cur)]
        a = e.const() if isinstance(e, Lin) else None
        b = x.const() if isinstance(x, Lin) else None
        if a is not None and b is not None:
            continue
        c = ("same",) + tuple(sorted((e, x), key=repr))
        k = cur.known(c)
        if k is True:
            return out + [(i, cur)]
        if k is None:
            out.append((i, cur.assume(c, True)))
            cur = cur.assume(c, False)
    return out + [(None, cur)]


class Statements(Plans):
    """lists and sets whose elements are known, and searching in them"""

    def stmt(self, fr, s, st):
        if s["k"] == "Var" and strip(s.get("t") or "").startswith(SETS) and not (s.get("t") or "").endswith("&"):
            i = s.get("init")
            if i is None or i["k"] in ("New", "IList", "ValueInit") and i.get("cc") not in ("copy", "move"):
                return [("next", None, st.set(("l", s["d"]), ("vec", "set", ())))]
        return super().stmt(fr, s, st)

    def tm(self, itp, fr, n, name, rv, av, st):
        d = n.get("d") if n["k"] in ("Call", "Op") else None
        if d is not None:
            r = self.search(fr, n, d, rv, list(av), st)
            if r is not None:
                return r
        return super().tm(itp, fr, n, name, rv, av, st)

    def opaque_member(self, base, name, n):
        if isinstance(base, tuple) and base[:1] == ("tuple",) and len(base) == 3 and name in ("first", "second"):
            return base[1 if name == "first" else 2]
        return super().opaque_member(base, name, n)

    def visited(self, fr, n, av, st):
        """a visitor has been through the expression av[1]: what it knows now depends on the expression"""
        at = fr.this if isinstance(fr.this, tuple) and fr.this[:1] == ("at",) else None
        k = self.key(fr, n["c"][0]) if n.get("c") else None
        if k is None and at is not None:
            k = at[1]
        o = st.env.get(k)
        if not isinstance(o, Obj):
            return None
        f = {x: ("call", "walk", x, av[1]) if isinstance(y, bool) or hollow(y) or isinstance(y, tuple) and y[:2] == ("call", "walk") else y for x, y in o.f.items()}
        return [(("void",), st.set(k, Obj(o.t, f)))]

    def search(self, fr, n, d, rv, av, st):
        q, nm = d.q or "", d.n
        if q == S + "walk" and len(av) == 2:
            return self.visited(fr, n, av, st)
        if q.startswith("std::") and nm in self.QUANTIFIERS and len(av) == 3 and all(isinstance(x, tuple) for x in av) and av[2][:1] == ("lambda",):
            return self.quantified(nm, av, st)
        base, rest = rv, av
        if base is None and n["k"] == "Op" and av:
            base, rest = av[0], av[1:]
        op = n.get("op") if n["k"] == "Op" else None
        if rv is None and n["k"] == "Call" and q in ("std::begin", "std::cbegin", "std::end", "std::cend") and len(av) == 1:
            base, rest, nm = av[0], [], q[5:]
        if isinstance(base, tuple) and base[:1] == ("vec",):
            es = base[2]
            if nm in ("begin", "cbegin") and not rest:
                return [(("viter", base, 0), st)]
            if nm in ("end", "cend") and not rest:
                return [(("viter", base, len(es)), st)]
            if base[1] == "set" and len(rest) == 1:
                if nm == "find":
                    return [(("viter", base, len(es) if i is None else i), x) for i, x in position(st, es, rest[0])]
                if nm == "contains":
                    return [(i is not None, x) for i, x in position(st, es, rest[0])]
                if nm == "count":
                    return [(Lin((), int(i is not None)), x) for i, x in position(st, es, rest[0])]
                if nm in ("insert", "emplace"):
                    k = self.key(fr, recv(n)) if recv(n) is not None else None
                    if k is None:
                        return None
                    out = []
                    for i, x in position(st, es, rest[0]):
                        if i is None:
                            v = ("vec", "set", es + (rest[0],))
                            out.append((("tuple", ("viter", v, len(es)), True), x.set(k, v)))
                        else:
                            out.append((("tuple", ("viter", base, i), False), x))
                    return out
        if q in ("std::find", "std::distance") and len(av) >= 2 and all(isinstance(x, tuple) and x[:1] == ("viter",) for x in av[:2]):
            a, b = av[:2]
            if nm == "distance":
                return [(Lin((), b[2] - a[2]), st)]
            return [(("viter", a[1], b[2] if i is None else a[2] + i), x) for i, x in position(st, a[1][2][a[2]:b[2]], av[2])]
        if q == "std::find" and len(av) == 3 and isinstance(av[0], tuple) and av[0][:1] == ("iter",) and isinstance(av[1], tuple) and av[1][:1] == ("enditer",):
            c = ("contains", av[0][1], av[2])
            k = st.known(c)
            out = []
            if k is not False:
                out.append((("found", av[0][1], av[2]), st if k else st.assume(c, True)))
            if k is not True:
                out.append((av[1], st if k is False else st.assume(c, False)))
            return out
        if isinstance(base, tuple) and base[:1] == ("found",):
            if op in ("*", "->") and not rest:
                return [(base, st)]
            if op in ("==", "!=") and rest and isinstance(rest[0], tuple) and rest[0][:1] == ("enditer",):
                return [(op == "!=", st)]
            if nm in ("operator bool", "has_value") and not rest:
                return [(True, st)]
        if isinstance(base, tuple) and base[:1] == ("enditer",) and op in ("==", "!=") and rest and isinstance(rest[0], tuple) and rest[0][:1] in (("enditer",), ("found",)):
            return [((rest[0] == base) == (op == "=="), st)]
        if isinstance(base, tuple) and base[:1] == ("viter",):
            es, i = base[1][2], base[2]
            if op in ("*", "->") and not rest and i < len(es):
                return [(es[i], st)]
            if op in ("==", "!=") and len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][:1] == ("viter",):
                return [((i == rest[0][2]) == (op == "=="), st)]
            if op == "-" and len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][:1] == ("viter",):
                return [(Lin((), i - rest[0][2]), st)]
            if op in ("+", "-") and len(rest) == 1 and isinstance(rest[0], Lin) and rest[0].const() is not None:
                return [(("viter", base[1], i + rest[0].const() * (1 if op == "+" else -1)), st)]
            if op == "++":
                r = n["c"][0] if n["k"] == "Op" else recv(n)
                nv = ("viter", base[1], i + 1)
                return [(nv if not rest else base, self.assign(fr, r, nv, st))]
        return None

    def settle(self, v, st):
        """[(bool, state)] of a condition"""
        b = self.tobool(v)
        if b is not None:
            return [(b, st)]
        flip = False
        if isinstance(v, tuple) and len(v) == 3 and v[0] in ("==", "!=") and all(isinstance(x, tuple) and x[:1] in (("call",), ("elem",)) for x in v[1:]):
            flip = v[0] == "!="
            if v[1] == v[2]:
                return [(not flip, st)]
            v = ("same",) + tuple(sorted(v[1:], key=repr))
        k = st.known(v)
        if k is not None:
            return [(k != flip, st)]
        return [(True != flip, st.assume(v, True)), (False != flip, st.assume(v, False))]

    def truth(self, fr, n, st):
        out = []
        for b, x in super().truth(fr, n, st):
            if len(x.cond) > len(st.cond) and isinstance(x.cond[-1][0], tuple) and x.cond[-1][0][:1] in (("==",), ("!=",)):
                c, bb = x.cond[-1]
                y = type(x)(x.env, x.eff, x.cond[:-1])
                # the result b was taken when c is bb
                out += [(b, z) for r, z in self.settle(c, y) if r == bb]
            else:
                out.append((b, x))
        return out

    QUANTIFIERS = {"all_of": (False, False, True), "any_of": (True, True, False), "none_of": (True, False, True)}  # stops at, then, else

    def quantified(self, q, av, st):
        """std::any_of() and the like, element by element"""
        lf = self.lambdas.get(av[2][1])
        a, b = av[:2]
        stop, yes, no = self.QUANTIFIERS[q]
        if lf is None:
            return None
        if a[:1] == ("viter",) and b[:1] == ("viter",):
            seq = a[1][2][a[2]:b[2]]
            there = lambda i, x: [(i < len(seq), x)]
            item = lambda i: seq[i]
        elif a[:1] == ("iter",) and b[:1] == ("enditer",):
            there = lambda i, x: self.step(a[1], i, x)
            item = lambda i: self.item(a[1], i)
        else:
            return None
        out, cur, i = [], [st], 0
        while cur:
            nxt = []
            for x in cur:
                for t, y in there(i, x):
                    if not t:
                        out.append((no, y))
                        continue
                    for v, z in self.run_lambda(lf, [item(i)], y):
                        for r, w in self.settle(v, z):
                            if r == stop:
                                out.append((yes, w))
                            else:
                                nxt.append(w)
            cur = nxt
            i += 1
        return out

    def present(self, v, st):
        if isinstance(v, tuple) and v[:1] in (("found",), ("viter",)):
            return True
        return super().present(v, st)


def bare_const(v):
    """the constant v"""
    if isinstance(v, tuple) and v[:1] == ("enum",) and isinstance(v[2], int):
        return Lin((), v[2])
    return v if isinstance(v, Lin) and v.const() is not None else None


def tags(db, file):
    """{class: (field, the kinds of extensions which it looks for)} of the classes which are used to search an expression for extensions"""
    r = {}
    for f in db.fns.values():
        if f.body is None or f.dep or f.file != file or f.n != "operator()" or not f.params or strip(f.params[0]["d"].t or "") != S + "extension":
            continue
        T = Plans(db, unroll=1)
        e = ("param", f.params[0]["n"])
        found = {}
        for k, v, st in T.run(f, [e]):
            if k not in ("ret", "next"):
                continue
            now = {x[2] for x, y in st.env.items() if isinstance(x, tuple) and x[:2] == ("f", ("this",)) and y is True}
            ids = [set(c[2]) for c, b in st.cond if b and isinstance(c, tuple) and c[:1] == ("in",) and any(y[:2] == ("call", "extension_id") for y in deep(c[1]))]
            for c, b in st.cond:
                if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!=") and b == (c[0] == "==") and any(y[:2] == ("call", "extension_id") for y in deep(c)):
                    ids += [{x.const()} for x in map(bare_const, c[1:]) if x is not None]
            for x in now:
                found.setdefault(x, []).append(ids[0] if ids else None)
        r[f.d.rec] = (f, found)
    return r


class Engine(Queries):
    """the functions which translate statements"""
    top = "statement::select_statement"
    walker = Statements

    def inline(self, g):
        return g.file == self.file and g.n != "operator()"


# ------------------------------------------------------------------------------------------------ reading a path

def named(P, x):
    """x is the description of the table which the statement names"""
    t = [y for y in deep(x) if y[:2] == ("call", "analyze_table_name")]
    return bool(t) and all(P.at("table_name") in y for y in t) and any(y[:2] == ("call", "build_relation_info") for y in deep(x))


def bare(v):
    """what a descriptor describes"""
    for _ in range(5):
        if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            v = v.t[0][0]
        elif isinstance(v, tuple) and v[:2] == ("call", "operator()") and len(v) == 4:
            v = v[3]
        else:
            break
    return v


def of(v, name):
    """x of the call name(x)"""
    v = bare(v)
    return v[2] if isinstance(v, tuple) and v[:2] == ("call", name) and len(v) == 3 else None


def same(P, a, b):
    """whether the path knows that a and b are the same, None: it does not ask"""
    if a == b:
        return True
    for c, r in P.st.cond:
        if isinstance(c, tuple) and len(c) == 3 and c[0] in ("same", "==", "!=") and {bare(c[1]), bare(c[2])} == {bare(a), bare(b)}:
            return r != (c[0] == "!=")
    return None


def written(P):
    w = [o for o in P.g.ops if kind(o) == "write"]
    if len(w) > 1:
        raise Unknown("%d operators write" % len(w))
    return w[0] if w else None


def elems(P, seq, want=lambda e: True):
    """the elements of a list of another structure which the path looks at"""
    n = 0
    k = P.st.known(("nonempty", seq))
    if k is None:
        return None
    while k:
        n += 1
        k = P.st.known(("more", seq, n - 1))
    return [e for e in (("elem", seq, i) for i in range(n)) if want(e)]


def whole(P, seq):
    """whether the path looks at every element of the list"""
    es = elems(P, seq)
    return es is not None and (not es or len(es) >= P.T.other or P.st.known(("more", seq, len(es) - 1)) is False)


def shown(P, seq):
    """the visible columns, None: the path does not look at all of them"""
    if not whole(P, seq):
        return None
    return elems(P, seq, lambda e: P.st.known(("call", "exported", e)) is not False)


def asked(P, c):
    return P.st.known(("call", "exported", c)) is True


def name_of(P, c):
    """the part of the syntax tree by whose name the column c of the table has been found"""
    if isinstance(c, tuple) and c[:2] == ("call", "find") and len(c) == 4 and named(P, c[2]):
        n = [y for y in deep(c[3]) if y[:2] == ("call", "normalize_identifier")]
        if len(n) == 1 and any(isinstance(y, tuple) and y[:1] == ("enum",) and y[1].endswith("::variable") for y in n[0]):
            ps = [y for y in n[0] if is_path(y)]
            return ps[0] if len(ps) == 1 else None
    return None


# ------------------------------------------------------------------------------------------------ UPDATE, DELETE

def rows(P, w, extra):
    """from the table to the operator which writes: (rule, message)"""
    if P.has("where") is None:
        yield "change.where", "WHERE is ignored"
        return
    chain, src = P.g.chain(P.g.into.get(("port", w, "input")))
    want = list(extra) + ["filter"] * bool(P.has("where")) + ["scan"]
    got = [kind(o) for o in chain]
    if got != want or src is not None:
        yield "change.stages", "the operators before the write are %s, SQL asks for %s" % (" <- ".join(got) or "none", " <- ".join(want))
        return
    if P.has("where"):
        f = chain[len(extra)]
        if scalar(f[3]) != ("where",):
            yield "change.where", "the rows are not those for which the condition of WHERE holds"
        if plain(P, ("where",)):
            yield "change.where", "set functions are accepted in the condition of WHERE"
    scan = chain[-1]
    infos = {x[2] for x in deep(scan[3]) if x[:2] == ("call", "primary_index")}
    if len(infos) != 1 or not named(P, next(iter(infos))):
        yield "change.table", "the rows are not those of the table which is named"
        return
    info = next(iter(infos))
    for r, m in scan_rules(P, scan, info):
        yield "change.table", m
    if not whole(P, ("call", "columns", info)):
        yield "change.table", "not every column of the table is read"
    adds = [(i, a) for i, a in P.calls("add") if len(a) == 2 and named(P, a[1])]
    if len(adds) != 1:
        yield "change.scope", "the table is added to the scope %d times" % len(adds)
        return
    for i, a in P.calls("analyze_scalar_expression"):
        if i < adds[0][0]:
            yield "change.scope", "an expression is analysed before the table is in the scope"
    alias = [(i, e) for i, e in enumerate(P.st.eff) if e[0] == "assign" and isinstance(e[1], tuple) and e[1][:2] == ("call", "identifier") and named(P, e[1][2])]
    if P.has("alias_name") is not False:
        ok = [e for i, e in alias if i < adds[0][0] and isinstance(e[2], tuple) and e[2][:2] == ("call", "normalize_identifier") and P.at("alias_name") in e[2]
              and any(isinstance(y, tuple) and y[:1] == ("enum",) and y[1].endswith("::relation") for y in e[2])]
        if not ok:
            yield "change.scope", "the table does not get its alias"
    elif alias:
        yield "change.scope", "the table is renamed without alias"


def keys(P, w, wk):
    """the rows which are changed are told by their primary key"""
    x = of(w[4], "primary_index")
    if x is None or not named(P, x):
        yield "change.keys", "the rows are not those of the primary index of the table"
        return
    seq = ("call", "keys", ("call", "primary_index", x))
    ks = elems(P, seq)
    got = [pair(k) for k in items(wk)]
    if ks is None or not whole(P, seq) or len(got) != len(ks) or not ks:
        yield "change.keys", "the rows are not told by every column of the primary key"
        return
    for k, (var, col) in zip(ks, got):
        c = ("call", "column", k)
        v = of(var, "variable")
        if bare(col) != c or not (isinstance(v, tuple) and v[:2] == ("call", "find") and named(P, v[2]) and c in v):
            yield "change.keys", "a column of the primary key is not told by its own value"


def verb(P, w, want):
    if not (isinstance(w[3], tuple) and w[3][:1] == ("enum",)):
        raise Unknown("the kind %s" % (w[3],))
    if w[3][1].split("::")[-1] != want:
        yield "change.kind", "the rows are written by %s" % w[3][1].split("::")[-1]


def q_delete(P):
    w = written(P)
    if w is None:
        yield "change.kind", "nothing is written"
        return
    yield from verb(P, w, "delete_")
    yield from rows(P, w, [])
    yield from keys(P, w, w[5])
    if items(w[6]):
        yield "change.kind", "values are written by DELETE"


def q_update(P):
    w = written(P)
    if w is None:
        yield "change.kind", "nothing is written"
        return
    yield from verb(P, w, "update")
    yield from rows(P, w, ["project"])
    yield from keys(P, w, w[5])
    chain, _ = P.g.chain(P.g.into.get(("port", w, "input")))
    proj = [o for o in chain if kind(o) == "project"]
    if len(proj) != 1:
        return
    es = P.elems("elements")
    cols = columns_of(P, proj[0])
    vals = [pair(x) for x in items(w[6])]
    if not len(es) == len(cols) == len(vals):
        yield "update.values", "%d columns are computed and %d written for %d elements of SET" % (len(cols), len(vals), len(es))
        return
    decls = []
    for e, (var, value), (svar, col) in zip(es, cols, vals):
        d = bare(col)
        c = of(d, "declaration")
        decls.append(d)
        if c is None or name_of(P, c) is None or name_of(P, c)[:len(e)] != e:
            yield "update.columns", "the column which is written is not the one which is named"
            continue
        if scalar(value) != e[2:] + ("value",):
            yield "update.values", "the value of the column is not that which is written"
        if var != svar:
            yield "update.values", "the column gets the value of another one"
        if plain(P, e[2:] + ("value",)):
            yield "update.values", "set functions are accepted as values of SET"
        if not asked(P, c):
            yield "update.columns", "hidden columns can be written"
        ts = [x[2] for x in types_in(tuple(value[2:]))] if isinstance(value, tuple) else [d]
        if set(ts) != {d}:
            yield "update.values", "the value is analysed for the type of another column"
        q = [x for x, b in P.st.cond if isinstance(x, tuple) and any(is_path(y) and y == e + ("target", "node_kind") for y in deep(x))]
        if not q:
            yield "update.columns", "the qualifier of the column is ignored"
    for i, a in enumerate(decls):
        for b in decls[:i]:
            if same(P, a, b) is not False:
                yield "update.columns", "a column can be named twice"


# ------------------------------------------------------------------------------------------------ INSERT

VERBS = {"or_ignore": "insert_skip", "or_replace": "insert_overwrite", None: "insert"}


def q_insert(P):
    v = P.v
    simple = [x for x in deep(v) if x[:1] == ("mk",) and str(x[1]).split("::")[-1] == "write"]
    if simple:
        args = [x for x in simple[0][2:]]
        while args and not (isinstance(args[0], tuple) and args[0][:1] == ("enum",)):
            args = args[1:]
        if len(args) < 4 or P.g.ops:
            raise Unknown("the statement")
        w = ("op", "write", 0) + tuple(args)
    else:
        w = written(P)
        if w is None:
            yield "insert.kind", "nothing is written"
            return
    opts = P.elems("options")
    if P.some("options") is None:
        yield "insert.kind", "OR IGNORE and OR REPLACE are ignored"
        return
    if len(opts) > 1:
        yield "insert.kind", "more than one option is accepted"
        return
    given = P.enum(A + "statement::insert_statement_option", *opts[0][2:]) if opts else {None}
    if not (isinstance(w[3], tuple) and w[3][:1] == ("enum",)):
        raise Unknown("the kind %s" % (w[3],))
    if {VERBS.get(x) for x in given} != {w[3][1].split("::")[-1]}:
        yield "insert.kind", "the rows are written by %s for %s" % (w[3][1].split("::")[-1], " or ".join(sorted(str(x) for x in given)))
    info = of(w[4], "primary_index")
    if info is None or not named(P, info):
        yield "insert.table", "the rows are not written to the table which is named"
        return
    # columns of the table
    if P.some("columns"):
        ns = P.elems("columns")
        dest = []
        for n in ns:
            c = [x for x in (y[1][2] if isinstance(y, tuple) and y[:1] == ("same",) else y for y in finds(P)) if name_of(P, x) == n]
            if not c:
                yield "insert.columns", "a column which is named is not looked for"
                return
            dest.append(("call", "declaration", c[0]))
            if not asked(P, c[0]):
                yield "insert.columns", "hidden columns can be written"
        for i, a in enumerate(dest):
            for b in dest[:i]:
                if same(P, a, b) is not False:
                    yield "insert.columns", "a column can be named twice"
    elif P.has("expression") is False and P.some("columns") is None:
        dest = []
    else:
        cs = shown(P, ("call", "columns", info))
        if cs is None or not all(asked(P, c) for c in cs):
            yield "insert.columns", "without column names the values are not for the visible columns of the table"
            return
        dest = [("call", "declaration", c) for c in cs]
    if P.has("expression") is False:
        yield from defaults(P, w, simple)
        return
    # the source
    qs = [(i, a) for i, a in P.calls("analyze_query_expression")]
    if len(qs) != 1 or P.at("expression") not in qs[0][1]:
        yield "insert.source", "the rows are not those which are written"
        return
    src = ("call", "analyze_query_expression") + tuple(qs[0][1])
    ts = [x[2] for a in qs[0][1] for x in types_in(a)]
    lists = [x for x in deep(tuple(qs[0][1])) if x[:1] == ("vec",)]
    if not ts and dest and not any(len(x[2]) == 0 for x in lists) and not all(hollow(x) for x in qs[0][1][3:]):
        raise Unknown("the types")
    if ts != dest:
        yield "insert.types", "the values are analysed for the types of other columns"
    seq = ("call", "columns", ("call", "relation", src))
    if simple:
        yield from direct(P, w, src, dest)
        return
    up = P.g.into.get(("port", w, "input"))
    if up != ("call", "output", src):
        yield "insert.source", "the rows which are written are not those of the query"
        return
    cs = shown(P, seq)
    if cs is None or not all(asked(P, c) for c in cs):
        yield "insert.source", "hidden columns of the query are inserted"
        return
    if len(cs) != len(dest):
        yield "insert.source", "%d columns of the query are accepted for %d columns of the table" % (len(cs), len(dest))
        return
    seqk = ("call", "keys", ("call", "primary_index", info))
    ks = elems(P, seqk)
    if ks is None:
        yield "insert.keys", "it is not asked which columns are those of the primary key"
        return
    kept = {}
    for which, part in (("key", w[5]), ("value", w[6])):
        for x in items(part):
            var, col = pair(x)
            kept.setdefault(bare(col), []).append((which, of(var, "variable")))
    if sorted(map(repr, kept)) != sorted(map(repr, dest)) or any(len(x) != 1 for x in kept.values()):
        yield "insert.values", "not every column gets a value once"
        return
    for d, c in zip(dest, cs):
        which, got = kept[d][0]
        if got != c:
            yield "insert.values", "a column gets the value of another one"
        eq = [same(P, d, ("call", "column", k)) for k in ks]
        if which == "key":
            if True not in eq:
                yield "insert.keys", "a column which is not in the primary key is written as a key"
        else:
            if not whole(P, seqk):
                yield "insert.keys", "not every column of the primary key is looked at"
            for k, q in zip(ks, eq):
                if q is not False and not any(same(P, o, ("call", "column", k)) for o in dest if o != d):
                    yield "insert.keys", "a column of the primary key is not written as a key"


def finds(P):
    out = []
    for c, b in P.st.cond:
        for y in deep(c):
            if y[:2] == ("call", "find") and y not in out:
                out.append(y)
    return out


def types_in(v):
    """the calls of shared_type in v, in order, not those in another call"""
    out = []
    if isinstance(v, Obj):
        for x in v.f.values():
            out += types_in(x)
    elif isinstance(v, tuple):
        if v[:2] == ("call", "shared_type"):
            return [v]
        for x in v:
            out += types_in(x)
    return out


def direct(P, w, src, dest):
    """INSERT ... VALUES which becomes a statement without plan"""
    if P.st.known(("call", "prefer_write_statement", ("call", "options", ("field0", "context_")))) is False:
        yield "insert.simple", "there is no plan although it is asked for"
    own = ("call", "owner", ("call", "output", src))
    is_values = any(isinstance(c, tuple) and c[:1] in (("!=",), ("==",)) and any(bare(y) == ("call", "kind", own) for y in c[1:]) and b == (c[0] == "==")
                    and any(isinstance(y, tuple) and y[:1] == ("enum",) and y[1].endswith("::values") for y in c[1:]) for c, b in P.st.cond)
    is_values = is_values or any(b and c[:1] == ("in",) and bare(c[1]) == ("call", "kind", own) for c, b in P.st.cond)
    if not is_values:
        yield "insert.simple", "a query which is not VALUES becomes a statement without plan"
    if [bare(x) for x in items(w[5])] != dest:
        yield "insert.values", "the values are not for the columns which are named, in order"
    rs = elems(P, ("call", "rows", own))
    if rs is None:
        raise Unknown("the rows")
    ts = [x for x in items(w[6])]
    if [[y for y in deep(t) if y[:2] == ("call", "elements")] for t in ts] != [[("call", "elements", r)] for r in rs]:
        yield "insert.simple", "the rows are not those of VALUES, in order"
    for r in rs:
        es = elems(P, ("call", "elements", r))
        if es is None:
            yield "insert.simple", "it is not asked whether a value has a subquery"
            continue
        for e in es:
            if not any(not b and c[:2] == ("call", "walk") and c[-1] == e for c, b in P.st.cond):
                yield "insert.simple", "it is not asked whether a value has a subquery"


def defaults(P, w, simple):
    if simple:
        rs = [items(r) for r in items(w[6])]
        cs = items(w[5])
    else:
        up = P.g.into.get(("port", w, "input"))
        op = up[1] if isinstance(up, tuple) and up[:1] == ("port",) else None
        if op is None or kind(op) != "values":
            yield "insert.default", "the row of DEFAULT VALUES does not exist"
            return
        rs = [items(r) for r in items(op[4])]
        cs = items(op[3]) + items(w[5]) + items(w[6])
    if cs or len(rs) != 1 or rs[0]:
        yield "insert.default", "DEFAULT VALUES is not one row without values"


# ------------------------------------------------------------------------------------------------ SELECT

def q_select(P):
    es = [o for o in P.g.ops if kind(o) == "emit"]
    if len(es) != 1:
        raise Unknown("the result")
    if P.some("targets") is not False:
        yield "select.emit", "the targets of SELECT are ignored"
    qs = P.calls("analyze_query_expression")
    if len(qs) != 1 or P.at("expression") not in qs[0][1]:
        yield "select.emit", "the rows are not those of the query"
        return
    src = ("call", "analyze_query_expression") + tuple(qs[0][1])
    if P.g.into.get(("port", es[0], "input")) != ("call", "output", src):
        yield "select.emit", "the rows are not those of the query"
    cs = shown(P, ("call", "columns", ("call", "relation", src)))
    if cs is None or not all(asked(P, c) for c in cs):
        yield "select.emit", "hidden columns are in the result"
        return
    got = list(items(es[0][3])) + [a if len(a) > 1 else a[0] for a in P.g.added(es[0])]
    if len(got) != len(cs):
        yield "select.emit", "%d columns are in the result of %d" % (len(got), len(cs))
        return
    for c, g in zip(cs, got):
        has = P.st.known(("call", "identifier", c))
        if has is None:
            yield "select.emit", "it is not asked whether a column has a name"
            continue
        if isinstance(g, tuple) and g[:1] != ("call",):
            g = pair(g) if len(g) > 2 or g[:1] == ("tuple",) else g
        else:
            g = (g,)
        if len(g) > 1 and isinstance(g[1], tuple) and g[1][:1] == ("new",) and len(g[1]) == 2:
            g = g[:1]
        if of(g[0], "variable") != c:
            yield "select.emit", "a column of the result is another one than the query gives"
        if has != (len(g) > 1 and g[1] is not None) or has and ("call", "identifier", c) not in list(deep(g[1])):
            yield "select.emit", "a column of the result has not its name"


RULES = {
    "statement::select_statement": (q_select, dict(unroll=2, other=4), {
        "select.emit": "the result has the visible columns of the query, in order, with their names"}),
    "statement::insert_statement": (q_insert, dict(lists={"columns": 3}, unroll=2, other=2), {
        "insert.kind": "OR IGNORE skips, OR REPLACE overwrites, only one can be given, otherwise INSERT fails on existing rows",
        "insert.table": "the rows are written to the table which is named",
        "insert.columns": "the columns are those which are named, each once and visible, or else all visible columns",
        "insert.types": "the values are analysed for the types of the columns which they are written to",
        "insert.source": "the visible columns of the query are as many as those of the table which are written",
        "insert.values": "every column gets the value at its position, once",
        "insert.keys": "the columns of the primary key are the keys of the write, the others its values",
        "insert.simple": "a statement without plan is made of VALUES without subqueries only, and has the same rows",
        "insert.default": "DEFAULT VALUES inserts one row without values"}),
    "statement::update_statement": (q_update, dict(lists={"elements": 3}, unroll=2, other=3), {
        "change.kind": "UPDATE and DELETE write by the operation of this name",
        "change.stages": "from the table to the write: scan, filter if there is WHERE, the new values of UPDATE",
        "change.table": "all rows of the table which is named are read by its primary index, each column into its own variable",
        "change.where": "the rows are those for which the condition of WHERE holds",
        "change.scope": "the expressions can name the columns of the table, which has its alias",
        "change.keys": "the rows are told by every column of the primary key",
        "update.columns": "the columns which are named are written, each once and visible",
        "update.values": "each gets the value of its element of SET, computed from the row before the change"}),
    "statement::delete_statement": (q_delete, dict(unroll=2, other=4), {
        "change.kind": "UPDATE and DELETE write by the operation of this name",
        "change.stages": "from the table to the write: scan, filter if there is WHERE, the new values of UPDATE",
        "change.table": "all rows of the table which is named are read by its primary index, each column into its own variable",
        "change.where": "the rows are those for which the condition of WHERE holds",
        "change.scope": "the expressions can name the columns of the table, which has its alias",
        "change.keys": "the rows are told by every column of the primary key"}),
}
SUBQUERIES = {"subquery", "exists", "quantified_compare"}


def detectors(db, rep, E):
    named_tags = {k.split("::")[-1]: v for k, v in numbers(f for f in db.fns.values() if f.body is not None and "/mizugaki/analyzer/" in f.file).items()}
    want = {named_tags[k] for k in SUBQUERIES if k in named_tags}
    for rec, (f, found) in sorted(tags(db, E.file).items()):
        if not found:
            continue
        for field, ids in sorted(found.items()):
            got = set().union(*[i for i in ids if i is not None]) if None not in ids else None
            if got is None or want <= got:
                rep.ok("insert.subquery", f.q, f.loc())
            else:
                rep.bad("insert.subquery", f.q, f.loc(), "%s is not found in the values" % ", ".join(sorted(k for k in SUBQUERIES if named_tags.get(k) not in got)), "insert.subquery|%s" % f.q)


def a07(db, rep):
    rep.explanation = ("Every way through the translation of a statement which succeeds is followed (functions of the same file are entered, lists and sets of the translation are known element by element); "
                       "the operators of the plan, their connections and the columns which they read and write are compared with the meaning of the statement.")
    E = Engine(db)
    for name, (spec, kw, rules) in RULES.items():
        for r, t in rules.items():
            rep.rule(r, t)
    rep.rule("insert.subquery", "the search for subqueries in the values of INSERT finds every kind of them")
    for name, (spec, kw, rules) in RULES.items():
        run_rule(rep, E, name, spec, rules, limit=1000000, **kw)
    detectors(db, rep, E)


CHECKS = {"A07": a07}

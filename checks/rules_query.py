"""A05: the plan of a query has the structure which SQL gives to the query."""
from aval import Lin, Obj, St
from common import Broken
from mz import strip, short
from paths import is_path
from plans import Graph, Plans, hollow, DET
from terms import Unknown, deep
from trans import args_for, failing, NOTHING

A = "mizugaki::ast::"


class Engine:
    """the functions which translate query and table expressions"""
    top = "query::query"
    walker = Plans

    def __init__(self, db):
        self.db = db
        self.handlers = {}
        top = [f for f in db.fns.values() if f.body is not None and not f.dep and f.n == "operator()" and "/mizugaki/analyzer/" in f.file and f.params
               and strip(f.params[0]["d"].t or "") == A + self.top]
        if len(top) != 1:
            raise Broken("the translation of %s is not found" % self.top)
        self.file = top[0].file
        for f in db.fns.values():
            if f.body is not None and not f.dep and f.n == "operator()" and f.d.rec == top[0].d.rec and f.params:
                self.handlers[strip(f.params[0]["d"].t or "")[len(A):]] = f

    def inline(self, g):
        if g.file == self.file:
            return g.n != "operator()"
        return (g.q or "").startswith(DET + "set_function_processor::") and (not g.params or g.q.split("::")[-2] == g.n) and g.body is not None and len(g.body.get("c", ())) <= 1

    def run(self, kind, lists=None, unroll=1, other=1, without=(), **kw):
        """without: optional parts which are not there"""
        f = self.handlers[kind]
        T = self.walker(self.db, inline=self.inline, unroll=unroll, other=other, **kw)
        T.lists = lists or {}
        st = St()
        for x in without:
            p = ("path", f.params[0]["n"], x)
            st = st.assume(p, False).assume(("nonempty", p), False)
        return f, T, T.run(f, args_for(f), st=st)



# ------------------------------------------------------------------------------------------------ reading a path

def opt(v):
    return None if v is None or failing(v) else v


def scalar(v):
    """the part of the syntax tree whose translation v is"""
    for _ in range(10):
        if isinstance(v, Lin):
            if v.c or len(v.t) != 1 or v.t[0][1] != 1:
                return None
            v = v.t[0][0]
        if not (isinstance(v, tuple) and v[:1] == ("call",)):
            return None
        if v[1] == "analyze_scalar_expression":
            ps = [y for y in v[2:] if is_path(y)]
            return ps[0][2:] if len(ps) == 1 else None
        inner = [y for y in v[2:] if any(z[:2] == ("call", "analyze_scalar_expression") for z in deep(y))]
        if len(inner) != 1:
            return None
        v = inner[0]
    return None


def child(v, among=None):
    """the part of the syntax tree which is handed to another translation whose result v is"""
    if isinstance(v, tuple) and v[:1] == ("call",):
        ps = [y for y in v[2:] if is_path(y)]
        if len(ps) == 1 and (among is None or v[1] in among):
            return ps[0][2:]
    return None


def result(v):
    """(output port, columns) of the translation of a query"""
    if isinstance(v, Obj):
        v = tuple(v.f.values())
    elif isinstance(v, tuple) and v[:1] in (("new",), ("init",), ("tuple",)):
        v = v[2:] if v[0] != "tuple" else v[1:]
    else:
        raise Unknown("the result %s" % (v,))
    if len(v) < 2:
        raise Unknown("the result %s" % (v,))
    return v[0], v[1]


class Path:
    """one way through a translation which succeeds"""

    def __init__(self, E, T, f, v, st):
        self.E, self.T, self.f, self.v, self.st = E, T, f, v, st
        self.root = ("path", f.params[0]["n"])
        self.g = Graph(st)

    def at(self, *steps):
        return self.root + steps

    def has(self, *steps):
        """whether the optional part is there, None: the path does not ask"""
        return self.st.known(self.at(*steps))

    def some(self, *steps):
        return self.st.known(("nonempty", self.at(*steps)))

    def number(self, *steps):
        n = 1 if self.some(*steps) else 0
        while n and self.st.known(("more", self.at(*steps), n - 1)):
            n += 1
        return n

    def elems(self, *steps):
        p = self.at(*steps)
        if self.T.lists.get(steps[-1], self.T.full) == 1:
            return [p + ("*",)] if self.some(*steps) else []
        return [p + ("#%d" % i,) for i in range(self.number(*steps))]

    def enum(self, q, *steps):
        """the enumerators which the part can have on this path"""
        e = self.E.db.enums[q]["c"]
        allowed, excluded = self.T.values(self.at(*steps), self.st)
        return {x["n"] for x in e if (allowed is None or x["v"] in allowed) and x["v"] not in excluded}

    def options(self, q, *steps):
        """the values, None for absent, which the optional part can have on this path"""
        there = self.has(*steps)
        r = set()
        eq = self.equal(*steps)
        if there is not True and not any(eq.values()):
            r.add(None)
        if there is not False:
            r |= self.enum(q, *steps)
        return r

    def equal(self, *steps):
        """{enumerator: bool} of the comparisons with enumerators"""
        r = {}
        for c, b in self.st.cond:
            if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!=") and self.at(*steps) in c[1:]:
                e = c[2] if c[1] == self.at(*steps) else c[1]
                if isinstance(e, tuple) and e[:1] == ("enum",):
                    r[e[1].split("::")[-1]] = b == (c[0] == "==")
        return r

    def calls(self, name):
        return [(i, e[2:]) for i, e in enumerate(self.st.eff) if e[0] == "call" and e[1] == name]

    def positions(self, kind, pred=lambda e: True):
        return [i for i, e in enumerate(self.st.eff) if e[0] == kind and pred(e)]


def columns_of(P, op):
    """(variable, value) of the columns of a project operator, in order"""
    out = []
    for x in op[3:]:
        if isinstance(x, tuple) and x[:1] == ("vec",):
            for y in x[2]:
                out.append(pair(y))
            break
    for a in P.g.added(op):
        out.append(pair(a[0]) if len(a) == 1 else tuple(a))
    return out


def pair(x):
    if isinstance(x, Obj):
        return tuple(x.f.values())
    if isinstance(x, tuple) and x[:1] == ("tuple",):
        return x[1:]
    if isinstance(x, tuple) and x[:1] in (("new",), ("init",)) and len(x) > 3:
        return x[2:]
    raise Unknown("the column %s" % (x,))


def items(v):
    if isinstance(v, tuple) and v[:1] == ("vec",):
        return v[2]
    if isinstance(v, tuple) and v[:1] in (("new",), ("init",)) and len(v) == 2:
        return ()
    raise Unknown("the list %s" % (v,))


def limit_of(P, op):
    """(count, group keys, sort keys)"""
    a = list(op[3:]) + [None] * 3
    s = P.g.set(op, "count")
    count = s[0] if s is not None else a[0]
    return opt(count), items(a[1]) if a[1] is not None else (), tuple(pair(x) for x in items(a[2])) if a[2] is not None else ()


def kind(op):
    return op[1].split("::")[-1]


# ------------------------------------------------------------------------------------------------ SELECT

DIRECTION = {"asc": "ascendant", "desc": "descendant"}


def agg_of(x):
    """the part of the syntax tree which is asked for set functions"""
    for y in deep(x):
        if y[:1] == ("call",) and y[1] in ("dispatch", "analyze_scalar_expression"):
            ps = [z for z in y[2:] if is_path(z)]
            if len(ps) == 1:
                return ps[0][2:]
    return None


def plain(P, *parts):
    """the parts of the syntax tree which may have set functions on this path, because it is not asked"""
    denied = {agg_of(x) for x, b in P.st.cond if not b and ("saw_aggregate" in x[1:2] or x[-1:] == ("saw_aggregate",))}
    return [p for p in parts if p not in denied]


def q_query(P):
    """yields (rule, what is wrong) of the path"""
    out, info = result(P.v)
    g = P.g
    active = None
    for c, b in P.st.cond:
        if isinstance(c, tuple) and c[:2] == ("call", "opposite") and not b and isinstance(c[2], tuple) and c[2][:2] == ("call", "install") and out == c[2]:
            return  # nothing follows the aggregation: it does not happen, the selected columns follow
    chain, src = g.chain(out)
    ignored = [x for x in ("limit", "where", "having") if P.has(x) is None] + [x for x in ("order_by", "from") if P.some(x) is None]
    if ignored:
        yield "select.stages", "%s is ignored" % " and ".join(x.upper().replace("_", " ") for x in ignored)
        return
    # LIMIT and ORDER BY
    want = []
    if P.has("limit") and not P.some("order_by"):
        want.append("limit")
    if P.some("order_by"):
        want += ["limit", "project"]
    v = P.options(A + "scalar::set_quantifier", "quantifier")
    if "distinct" in v and len(v) > 1:
        yield "select.distinct", "it is not asked whether SELECT DISTINCT is meant"
        return
    distinct = v == {"distinct"}
    if distinct:
        want.append("distinct")
    want.append("project")
    if P.has("having"):
        want.append("filter")
    if P.has("where"):
        want.append("filter")
    froms = P.elems("from")
    want += ["join"] * (len(froms) > 1)
    if not froms:
        want.append("values")
    got = [kind(o) for o in chain]
    if got != want:
        yield "select.stages", "the operators are %s, SQL asks for %s" % (" <- ".join(got) or "none", " <- ".join(want))
        return
    c = list(chain)
    # LIMIT, ORDER BY
    if P.has("limit") or P.some("order_by"):
        o = c.pop(0)
        n, gk, sk = limit_of(P, o)
        if gk:
            yield "select.limit", "the number of rows is limited per group"
        if bool(n) != bool(P.has("limit")) or n is not None and scalar(n) != ("limit",):
            yield "select.limit", "the number of rows is not the value of LIMIT"
        if P.some("order_by"):
            proj = c.pop(0)
            cols = columns_of(P, proj)
            keys = P.elems("order_by")
            if len(sk) != len(keys) or len(cols) != len(keys):
                yield "select.order", "%d sort keys and %d computed columns for %d keys" % (len(sk), len(cols), len(keys))
            else:
                for k, (var, value), (svar, sdir) in zip(keys, cols, sk):
                    if scalar(value) != k[2:] + ("key",) or var != svar:
                        yield "select.order", "the rows are not sorted by the key"
                    d = k[2:] + ("direction",)
                    if P.has(*d) is False:
                        ds = {"asc"}
                    elif P.has(*d) is None:
                        ds = None
                    else:
                        ds = P.enum(A + "common::ordering_specification", *d)
                    w = {DIRECTION[x] for x in ds} if ds else None
                    if not (isinstance(sdir, tuple) and sdir[:1] == ("enum",)):
                        raise Unknown("the direction %s" % (sdir,))
                    if w != {sdir[1].split("::")[-1]}:
                        yield "select.order", "the direction is %s for %s" % (sdir[1].split("::")[-1], " or ".join(sorted(ds)) if ds else "any direction")
        elif sk:
            yield "select.order", "the rows are sorted without ORDER BY"
    sort = proj if P.some("order_by") else None
    # DISTINCT
    if distinct:
        o = c.pop(0)
        ks = items(o[3])
        it = [x for x, b in P.st.cond if x[:1] == ("nonempty",) and x[1] == ("call", "columns", info) and b]
        if any(k != ("call", "variable", ("elem", ("call", "columns", info))) for k in ks) or bool(ks) != bool(it):
            yield "select.distinct", "DISTINCT does not compare every selected column"
    # SELECT
    select = c.pop(0)
    es = P.elems("elements")
    seen = [e[1] for e in P.calls("dispatch") if any(is_path(y) and y[2:3] == ("elements",) for y in e[1])]
    if [next(y for y in s if is_path(y)) for s in seen] != es or any(select not in s or info not in s for s in seen):
        yield "select.columns", "the columns of the result are not those of the SELECT list"
    # HAVING, WHERE
    entry = g.into.get(("port", select, "input"))
    if P.has("having"):
        h = c.pop(0)
        entry = g.into.get(("port", h, "input"))
        if scalar(h[3]) != ("having",):
            yield "select.having", "the groups are not filtered by the condition of HAVING"
    if P.has("where"):
        w = c.pop(0)
        if scalar(w[3]) != ("where",):
            yield "select.where", "the rows are not filtered by the condition of WHERE"
        if plain(P, ("where",)):
            yield "select.where", "set functions are accepted in the condition of WHERE"
    # FROM
    if not froms:
        o = c.pop(0)
        rows = items(o[4])
        if items(o[3]) or len(rows) != 1 or items(rows[0]):
            yield "select.from", "a query without FROM has not exactly one row"
    elif len(froms) == 1:
        if child(src) != froms[0][2:]:
            yield "select.from", "the rows do not come from the FROM clause"
    else:
        want_src = {f[2:] for f in froms}
        got_src = set()
        j = c.pop(0)
        if kind(j) != "join" or not isinstance(j[3], tuple) or j[3][:1] != ("enum",) or not j[3][1].endswith("::inner") or any(opt(x) for x in j[4:5]):
            yield "select.from", "the tables of the FROM clause are not combined by a cross join"
        for side in ("left", "right"):
            got_src.add(child(g.into.get(("port", j, side))))
        if got_src != want_src:
            yield "select.from", "the cross join does not read every table of the FROM clause"
    scopes = {s[-1] if s and not is_path(s[-1]) else None for _, s in P.calls("dispatch") if any(is_path(y) and y[2:3] == ("from",) for y in s)}
    cont = next((b for x, b in P.st.cond if x == ("param", P.f.params[-1]["n"])), None)
    for s in scopes:
        own = isinstance(s, tuple) and s[:1] == ("new",)
        if cont is not None and own == cont:
            yield "select.scope", "the query is %s" % ("not analysed in the scope it continues" if cont else "analysed in the scope of the surrounding query")
    # aggregation
    activated = bool(P.has("group_by")) or bool(P.has("having"))
    asked = [x for x, b in P.st.cond if b and ("saw_aggregate" in x[1:2] and x[:1] in (("call",), ("mem",)) or x[:1] == ("mem",) and x[-1] == "saw_aggregate")]
    activated = activated or any(scalar(x) != ("where",) for x in asked)
    inst = [(i, e) for i, e in P.calls("install")]
    if not activated and not inst:
        denied = {f(x) for x, b in P.st.cond if not b and ("saw_aggregate" in x[1:2] or x[-1:] == ("saw_aggregate",)) for f in (agg_of,)}
        for e in es + [k + ("key",) for k in P.elems("order_by")]:
            if e[2:] not in denied:
                yield "select.aggregate", "it is not asked whether %s has set functions" % ("the SELECT list" if e[2:3] == ("elements",) else "ORDER BY")
    if activated != bool(inst):
        yield "select.aggregate", "the rows are %s" % ("aggregated without need" if inst else "not aggregated although there is GROUP BY, HAVING or a set function")
        return
    if not inst:
        return
    i, e = inst[0]
    if len(inst) != 1 or e[1] != entry:
        yield "select.aggregate", "the aggregation is not between WHERE and HAVING"
    processed = {}
    for k, x in P.calls("process"):
        if len(x) > 1:
            processed.setdefault(x[1], k)
    must = []
    if P.has("having"):
        must.append((("call", "ownership_condition", h), "HAVING"))
    for what, o in (("SELECT list", select), ("ORDER BY", sort)):
        if o is not None and P.st.known(("nonempty", ("call", "columns", o))) is not False:
            must.append((("call", "ownership_value", ("elem", ("call", "columns", o))), what))
    for m, what in must:
        if processed.get(m, 10 ** 9) > i:
            yield "select.aggregate", "set functions of the %s are not handed to the aggregation" % what
    for what, o in (("SELECT list", select), ("ORDER BY", sort)):
        if o is not None and not any(k > i and o in x for k, x in P.calls("resolve")):
            yield "select.aggregate", "the %s is not resolved again after its set functions have been replaced" % what
    cols = ("call", "columns", info)
    if P.st.known(("nonempty", cols)) is not False:
        it = ("call", "variable", ("elem", cols))
        if not any(b and c[:1] == ("call",) and c[1] in ("is_grouping", "is_aggregated") and it in c for c, b in P.st.cond):
            yield "select.aggregate", "a column which is neither a key of GROUP BY nor aggregated can be in the result"
    grp = [e[1] for e in P.calls("dispatch") if any(is_path(y) and y[2:3] == ("group_by",) for y in e[1])]
    if P.has("group_by") and [next(y for y in s if is_path(y)) for s in grp] != P.elems("group_by", "elements"):
        yield "select.aggregate", "not every element of GROUP BY is used"


QUERY_RULES = {
    "select.stages": "from the source to the result: FROM, WHERE, HAVING, the SELECT list, DISTINCT, ORDER BY, LIMIT",
    "select.from": "the tables of FROM are combined by cross joins; without FROM there is one row",
    "select.where": "the condition of WHERE filters the rows",
    "select.having": "the condition of HAVING filters the groups",
    "select.columns": "every element of the SELECT list is translated, in order, into the columns of the result",
    "select.distinct": "DISTINCT compares every column of the result",
    "select.order": "the sort keys are the values of the keys of ORDER BY, ascending unless DESC is written",
    "select.limit": "the number of rows is limited to the value of LIMIT",
    "select.scope": "the names of the tables are added to the scope of this query",
    "select.aggregate": "GROUP BY, HAVING or a set function aggregate the rows after WHERE and before HAVING, and every expression above uses the aggregated values",
}


# ------------------------------------------------------------------------------------------------ set operations, VALUES, WITH

def listed(P, owner):
    """columns which a relation is asked for and exports, in order, [] when the path does not say; owner: a predicate on the description"""
    out = {}
    for c, b in P.st.cond:
        if isinstance(c, tuple) and c[:2] == ("call", "exported") and len(c) == 3 and b:
            e = c[2]
            if isinstance(e, tuple) and e[:1] == ("elem",) and isinstance(e[1], tuple) and e[1][:2] == ("call", "columns") and owner(e[1][2]):
                out[e[2] if len(e) > 2 else 0] = e
    return [out[k] for k in sorted(out)]


def part_of(step):
    def f(v):
        for x in deep(v):
            c = child(x, ("dispatch",))
            if c is not None:
                return c == step
        return False
    return f


def field(v, names):
    """v is member or result of the accessor: its object"""
    if isinstance(v, tuple) and (v[:1] == ("mem",) and len(v) == 3 and v[2].rstrip("_") in names or v[:1] == ("call",) and len(v) == 3 and v[1] in names):
        return v[1] if v[0] == "mem" else v[2]
    return None


def info_columns(P, info):
    """(declaration, variable, name, exported) of the columns which are added to the description of a relation"""
    out = []
    for a in P.g.added(info):
        if len(a) != 1:
            raise Unknown("the column %s" % (a,))
        x = a[0]
        if isinstance(x, Obj):
            x = ("new", x.t) + tuple(x.f.values())
        if isinstance(x, tuple) and x[:1] == ("elem",):
            out.append((x,))
        elif isinstance(x, tuple) and x[:1] in (("new",), ("init",), ("tuple",)) and len(x) > 3:
            y = x[2:] if x[0] != "tuple" else x[1:]
            out.append(tuple(y) + (True,) * (4 - len(y)))
        else:
            raise Unknown("the column %s" % (x,))
    return out


SETOPS = {"union_": "union_", "except": "difference", "intersect": "intersection"}


def q_set(P):
    ks = P.enum(A + "query::binary_operator", "operator_kind")
    out, info = result(P.v)
    op = out[1] if isinstance(out, tuple) and out[:1] == ("port",) else None
    if op is None:
        raise Unknown("the result %s" % (out,))
    if {SETOPS.get(k) for k in ks} != {kind(op)}:
        yield "set.operator", "%s becomes %s" % (" or ".join(sorted(ks)), kind(op))
    if P.has("corresponding") is not False and P.some("corresponding") is not False:
        yield "set.operator", "CORRESPONDING is ignored"
    q = P.options(A + "scalar::set_quantifier", "quantifier")
    want = {"all" if x == "all" else "distinct" for x in q}
    if not (isinstance(op[3], tuple) and op[3][:1] == ("enum",)):
        raise Unknown("the quantifier %s" % (op[3],))
    if want != {op[3][1].split("::")[-1]}:
        yield "set.quantifier", "%s is done for %s" % (op[3][1].split("::")[-1], " or ".join(sorted(str(x) for x in q)))
    sides = []
    for s in ("left", "right"):
        src = P.g.into.get(("port", op, s))
        o = field(src, ("output",))
        if o is None or child(o, ("dispatch",)) != (s,):
            yield "set.sides", "the %s input is not the result of the %s query" % (s, s)
        sides.append(listed(P, part_of((s,))))
    maps = [pair(x) for x in items(op[4])]
    cols = info_columns(P, info)
    left, right = sides
    ok = len(maps) == len(left) == len(right) == len(cols)
    if ok:
        for m, l, r, c in zip(maps, left, right, cols):
            if m[0] != ("call", "variable", l) or m[1] != ("call", "variable", r):
                ok = False
            elif kind(op) == "union_":
                ok = ok and len(m) == 3 and m[2] == c[1]
            else:
                ok = ok and c[1] == m[0]
            if c[2] != ("call", "identifier", l):
                yield "set.names", "a column of the result is not named like the column of the left query"
    if not ok:
        yield "set.columns", "the columns of the two queries are not paired one by one"


def q_values(P):
    out, info = result(P.v)
    op = out[1] if isinstance(out, tuple) and out[:1] == ("port",) else None
    if op is None or kind(op) != "values":
        raise Unknown("the result %s" % (out,))
    rows = items(op[4])
    es = P.elems("elements")
    if len(rows) != len(es):
        yield "values.rows", "%d rows for %d elements" % (len(rows), len(es))
        return
    for e, r in zip(es, rows):
        cells = P.elems(*(e[2:] + ("elements",)))
        if [scalar(x) for x in items(r)] != [c[2:] for c in cells]:
            yield "values.rows", "the values of a row are not those of its element, in order"
            continue
        if plain(P, *[c[2:] for c in cells]):
            yield "values.rows", "set functions are accepted in VALUES"
        for i, x in enumerate(items(r)):
            for y in deep(x):
                if y[:1] == ("elem",) and y[1][:2] == ("call", "elements"):
                    k = y[2] if len(y) > 2 else 0
                    if k != i:
                        yield "values.rows", "the value of column %d is translated for column %s" % (i, k)


def q_with(P):
    v = P.v
    if child(v, ("dispatch",)) != ("expression",):
        yield "with.query", "the result is not that of the query after WITH"
        return
    own = [x for x in v[2:] if isinstance(x, bool)]
    if own != [True]:
        yield "with.query", "the query after WITH is not analysed in the scope which knows the common tables"
    scope = next((x for x in v[3:] if not is_path(x) and not isinstance(x, bool)), None)
    es = P.elems("elements")
    adds = [e for e in P.calls("add")]
    tables = [(i, a) for i, a in adds if any(x[:2] == ("mk", "query_info") or x[:1] == ("mk",) and str(x[1]).endswith("query_info") for x in a if isinstance(x, tuple))]
    if len(tables) != len(es):
        yield "with.tables", "%d common tables for %d elements" % (len(tables), len(es))
        return
    last = max([i for i, a in P.calls("dispatch") if child(("call", "dispatch") + a) == ("expression",)], default=None)
    for e, (i, a) in zip(es, tables):
        if last is not None and i > last:
            yield "with.tables", "the common table is added after the query has been analysed"
        if a[0] != scope:
            yield "with.tables", "the common table is added to another scope than that of the query"
        nm = [x for x in a[1:] if isinstance(x, tuple) and x[:2] == ("call", "normalize_identifier")]
        if not nm or not any(y == e + ("name",) for y in nm[0]):
            yield "with.tables", "the common table has not the name of its element"
        q = a[-1]
        subs = [x for x in P.calls("dispatch") if any(y == e + ("expression",) for y in x[1])]
        if len(subs) != 1:
            yield "with.tables", "the query of a common table is analysed %d times" % len(subs)
            continue
        cs = listed(P, part_of(e[2:] + ("expression",)))
        vs, ns = items(q[4]), items(q[5])
        if list(vs) != [("call", "variable", c) for c in cs]:
            yield "with.columns", "the columns of a common table are not the exported columns of its query"
        names = P.elems(*(e[2:] + ("column_names",)))
        if names:
            w = [n for n in names]
            if len(ns) == len(w) and not all(isinstance(x, tuple) and x[:2] == ("call", "normalize_identifier") and n in x for x, n in zip(ns, w)):
                yield "with.columns", "the columns of a common table are not named as it is written"
        elif list(ns) != [("call", "identifier", c) for c in cs]:
            yield "with.columns", "the columns of a common table are not named like those of its query"


# ------------------------------------------------------------------------------------------------ tables

def scoped(P, scope="scope"):
    """descriptions of relations which are added to the scope of the query"""
    return [a[1] for _, a in P.calls("add") if len(a) == 2 and a[0] == ("param", scope)]


def scan_rules(P, op, info):
    cols = [pair(x) for x in items(op[4])]
    def mine(x):
        return x[:2] == ("elem", ("call", "columns", info))
    for c in cols:
        d = [x for x in deep(c[0]) if x[:2] == ("call", "declaration")]
        v = [x for x in deep(c[1]) if x[:2] == ("call", "variable")]
        if len(d) != 1 or len(v) != 1 or d[0][2] != v[0][2] or not mine(d[0][2]):
            yield "table.scan", "a column of the table is read into the variable of another column"
    some = P.st.known(("nonempty", ("call", "columns", info)))
    if some is not None and some != bool(cols):
        yield "table.scan", "not every column of the table is read"
    for x in op[5:7]:
        if any(y[:1] == ("op",) or y[:2] == ("call", "bound") for y in deep(x)) or isinstance(x, tuple) and len(x) > 2:
            yield "table.scan", "the scan is limited to a range"
    if opt(op[7]) is not None if len(op) > 7 else False:
        yield "table.scan", "the number of rows is limited"
    if not any(x[:2] == ("call", "primary_index") for x in deep(op[3])):
        yield "table.scan", "the table is not read by its primary index"


def copy_rules(P, op, info):
    """the use of a common table"""
    maps = [pair(x) for x in items(op[4])]
    cols = info_columns(P, info)
    if len(maps) != len(cols):
        yield "table.common", "not every column of the common table is in the result"
        return
    for i, (m, c) in enumerate(zip(maps, cols)):
        src = m[0]
        if not (isinstance(src, tuple) and src[:1] == ("elem",) and src[1][:2] == ("call", "output_columns")):
            raise Unknown("the column %s" % (src,))
        if c[1] != m[1]:
            yield "table.common", "a column of the common table is mapped to another variable"
        for y in deep(c[2]):
            if y[:1] == ("elem",) and y[1][:2] == ("call", "output_column_names") and y[2:] != src[2:]:
                yield "table.common", "a column of the common table has the name of another column"
    merged = [a for _, a in P.calls("merge_into")]
    if not any(any(x[:2] == ("call", "query_graph") for x in deep(a[0])) for a in merged if a):
        yield "table.common", "the plan of the common table is not copied"
    if op[5:6] and op[5] is not True:
        yield "table.common", "the copy is not marked as one"


def reference(P, out, info):
    op = out[1] if isinstance(out, tuple) and out[:1] == ("port",) else None
    if op is None:
        raise Unknown("the result %s" % (out,))
    names = [c for c in deep(op) if c[:2] == ("call", "analyze_relation_name")]
    names = names or [c for c, b in P.st.cond for c in deep(c) if c[:2] == ("call", "analyze_relation_name")]
    if not names or not all(P.at("name") in n for n in names):
        yield "table.name", "the relation is not that which is named"
    if kind(op) == "scan":
        yield from scan_rules(P, op, info)
    elif kind(op) == "subquery":
        yield from copy_rules(P, op, info)
    else:
        raise Unknown("the operator %s" % kind(op))


def q_reference(P):
    out, info = result(P.v)
    yield from reference(P, out, info)


def position(c):
    """(list, index) of an element of a list"""
    if isinstance(c, tuple) and c[:1] == ("elem",):
        return c[1], c[2] if len(c) > 2 else 0
    if isinstance(c, tuple) and c[:1] == ("call",) and len(c) == 4:
        k = c[3]
        return c[2], k.const() if isinstance(k, Lin) else k
    return None, None


def correlated(P, info, *steps):
    """the names of the columns after a correlation clause"""
    named = [e for e in P.st.eff if e[0] == "assign" and isinstance(e[1], tuple) and e[1][:2] == ("call", "identifier") and e[1][2] == info]
    if P.has(*steps) is not False:
        if not named or P.at(*steps, "correlation_name") not in named[-1][2]:
            yield "table.correlation", "the relation does not get its correlation name"
    elif named:
        yield "table.correlation", "the relation is renamed without correlation name"
    for i, n in enumerate(P.elems(*(steps + ("column_names",))) if P.has(*steps) is not False else ()):
        sets = [e for e in P.st.eff if e[0] == "assign" and isinstance(e[1], tuple) and e[1][:2] == ("call", "identifier") and n in [y for y in e[2] if is_path(y)]]
        ok = False
        for e in sets:
            c = e[1][2]
            ok = ok or position(c) == (("call", "columns", info), i)
        if not ok:
            yield "table.correlation", "column %d does not get its name from the correlation" % i


def q_table(P):
    op = P.v[1] if isinstance(P.v, tuple) and P.v[:1] == ("port",) else None
    if op is None:
        raise Unknown("the result %s" % (P.v,))
    infos = scoped(P)
    if len(infos) != 1:
        yield "table.scope", "the names of the table are added to the scope %d times" % len(infos)
        return
    yield from reference(P, P.v, infos[0])
    yield from correlated(P, infos[0], "correlation")


def q_subquery(P):
    o = field(P.v, ("output",))
    if o is None or child(o, ("dispatch",)) != ("expression",):
        yield "table.subquery", "the rows are not those of the subquery"
        return
    if P.has("is_lateral") is not False and not any(not b and P.at("is_lateral") == x[:len(P.at("is_lateral"))] for x, b in P.st.cond if is_path(x)):
        yield "table.subquery", "LATERAL is ignored"
    infos = scoped(P)
    if len(infos) != 1 or field(infos[0], ("relation",)) != o:
        yield "table.scope", "the columns of the subquery are not added to the scope"
        return
    yield from correlated(P, infos[0], "correlation")
    s = [x for x in o[3:] if isinstance(x, tuple) and x[:1] in (("new",), ("init",)) and "query_scope" in str(x[1])]
    if not s:
        yield "table.subquery", "the subquery is not analysed in a scope of its own"


JOINS = {"cross": ("inner", False), "inner": ("inner", False), "left_outer": ("left_outer", False), "right_outer": ("left_outer", True), "full_outer": ("full_outer", False)}


def q_join(P):
    op = P.v[1] if isinstance(P.v, tuple) and P.v[:1] == ("port",) else None
    if op is None or kind(op) != "join":
        raise Unknown("the result %s" % (P.v,))
    ks = P.enum(A + "table::join_type", "operator_kind")
    if not (isinstance(op[3], tuple) and op[3][:1] == ("enum",)):
        raise Unknown("the kind %s" % (op[3],))
    got = op[3][1].split("::")[-1]
    sides = [child(P.g.into.get(("port", op, s)), ("dispatch",)) for s in ("left", "right")]
    for k in sorted(ks):
        natural = k.startswith("natural_")
        w = JOINS.get(k[8:] if natural else k)
        if w is None:
            yield "join.kind", "%s is accepted" % k
            continue
        if (got, sides) == (w[0], [("right",), ("left",)] if w[1] else [("left",), ("right",)]):
            pass
        elif w[0] in ("inner", "full_outer") and got == w[0] and set(sides) == {("left",), ("right",)}:
            pass
        elif got == "right_outer" and w[0] == "left_outer" and sides == ([("left",), ("right",)] if w[1] else [("right",), ("left",)]):
            pass
        else:
            yield "join.kind", "%s becomes %s of %s and %s" % (k, got, *[s[0] if s else "something else" for s in sides])
    for i, a in P.calls("dispatch"):
        if child(("call", "dispatch") + a) != ("specification",) or not ks & {"right_outer", "full_outer"}:
            continue
        told = [x for x in a[1:] if x != ("this",) and not is_path(x) and x != ("param", P.f.params[1]["n"]) and "create_pivot" not in str(x)]
        later = [e for e in P.st.eff[i:] if e[0] == "assign" or e[0] == "add"]
        if not told and not later:
            for k in sorted(ks & {"right_outer", "full_outer"}):
                yield "join.merged", "%s: the column which USING merges is that of the left side" % k
    cond = opt(op[4]) if len(op) > 4 else None
    if not any(k.startswith("natural_") for k in ks):
        spec = P.has("specification")
        if spec is None or bool(cond) != spec or cond and child(cond, ("dispatch",)) != ("specification",):
            yield "join.condition", "the condition is not that which is written"
    if cond and child(cond, ("dispatch",)):
        # the columns of the left side come before those of the right side in the scope
        seq = [child(("call", "dispatch") + a) for _, a in P.calls("dispatch")]
        piv = [i for i, a in P.calls("create_pivot")]
        l = [i for i, a in P.calls("dispatch") if child(("call", "dispatch") + a) == ("left",)]
        r = [i for i, a in P.calls("dispatch") if child(("call", "dispatch") + a) == ("right",)]
        if len(piv) != 1 or not l or not r or not l[0] < piv[0] < r[0]:
            yield "join.condition", "the columns of the left and right side are not told apart"


def q_condition(P):
    if scalar(P.v) != ("expression",):
        yield "join.condition", "the condition is not that which is written after ON"
    if plain(P, ("expression",)):
        yield "join.condition", "set functions are accepted in the condition of a join"


def terms_of(v):
    """the comparisons whose conjunction v is"""
    if isinstance(v, tuple) and v[:2] == ("mk", "binary"):
        if [x[1].split("::")[-1] for x in v if isinstance(x, tuple) and x[:1] == ("enum",)] != ["conditional_and"]:
            return [None]
        return terms_of(v[-2]) + terms_of(v[-1])
    return [v]


def q_using(P):
    names = P.elems("columns")
    terms = terms_of(P.v)
    if any(t is None for t in terms):
        yield "join.using", "the comparisons are not connected by AND"
        return
    if len(terms) != len(names):
        yield "join.using", "%d comparisons for %d columns" % (len(terms), len(names))
        return
    pivot = ("param", P.f.params[2]["n"])
    hidden = [e[1] for e in P.st.eff if e[0] == "assign" and isinstance(e[1], tuple) and e[1][:2] == ("call", "exported") and e[2] is False]
    for n, t in zip(names, terms):
        if not (isinstance(t, tuple) and t[:2] == ("mk", "compare")):
            raise Unknown("the condition %s" % (t,))
        if [x[1].split("::")[-1] for x in t if isinstance(x, tuple) and x[:1] == ("enum",)] != ["equal"]:
            yield "join.using", "the columns are not compared for equality"
        sides = []
        for o in t[-2:]:
            c = [x for x in deep(o) if x[:2] == ("call", "find")]
            if len(set(c)) != 1:
                raise Unknown("the column %s" % (o,))
            c = c[0]
            if not any(x[:2] == ("call", "normalize_identifier") and n in x for x in deep(c)):
                yield "join.using", "the column is not that which is named"
            sides.append((any(x == pivot for x in deep(c[2])), ("call", "exported", c)))
        if {s for s, _ in sides} != {True, False}:
            yield "join.using", "a column of the left side is not compared with one of the right side"
        for _, e in sides:
            if (e, True) not in P.st.cond:
                yield "join.using", "a hidden column is used"
        if sum(e in hidden for _, e in sides) != 1:
            yield "join.using", "the merged column is selected %s by the asterisk" % ("twice" if not any(e in hidden for _, e in sides) else "never")


def q_apply(P):
    op = P.v[1] if isinstance(P.v, tuple) and P.v[:1] == ("port",) else None
    if op is None or kind(op) != "apply":
        raise Unknown("the result %s" % (P.v,))
    ks = P.options(A + "table::apply_type", "operator_kind")
    if not (isinstance(op[3], tuple) and op[3][:1] == ("enum",)):
        raise Unknown("the kind %s" % (op[3],))
    if {k or "cross" for k in ks} != {op[3][1].split("::")[-1]}:
        yield "apply.kind", "%s becomes %s" % (" or ".join(sorted(str(k) for k in ks)), op[3][1].split("::")[-1])
    if [scalar(x) for x in items(op[5])] != [e[2:] for e in P.elems("arguments")]:
        yield "apply.arguments", "the arguments are not those which are written, in order"
    if plain(P, *[e[2:] for e in P.elems("arguments")]):
        yield "apply.arguments", "set functions are accepted as arguments"
    if child(P.g.into.get(("port", op, "input")), ("dispatch",)) != ("operand",):
        yield "apply.operand", "the function is not applied to the rows of the operand"
    fs = [x for x in deep(op[4]) if x[:2] == ("call", "analyze_function_name")]
    if not fs or any(P.at("name") not in x for x in fs):
        yield "apply.function", "the function is not that which is named"
    infos = scoped(P)
    if len(infos) != 1:
        yield "table.scope", "the columns of the function are added to the scope %d times" % len(infos)
        return
    i = infos[0]
    if not any(x[:2] == ("call", "normalize_identifier") and P.at("correlation", "correlation_name") in x for x in deep(i)):
        yield "table.correlation", "the relation does not get its correlation name, normalized"
    cols = [pair(x) for x in items(op[6])]
    for n, (c, k) in enumerate(zip(info_columns(P, i), cols)):
        pos = k[0].const() if isinstance(k[0], Lin) else k[0]
        var = c[1][2] if isinstance(c[1], tuple) and c[1][:2] == ("call", "variable") else c[1]
        var = pair(var)[1] if isinstance(var, tuple) and var[:1] == ("tuple",) else var
        if pos != n or var != k[1]:
            yield "apply.columns", "the columns of the function are not taken one by one"
        ps = [y for y in deep(c[2]) if is_path(y) and y[2:3] == ("correlation",)]
        if ps and ps != [P.at("correlation", "column_names", "#%d" % n)]:
            yield "apply.columns", "a column of the function has the name of another column"


# ------------------------------------------------------------------------------------------------ SELECT list, GROUP BY

def q_column(P):
    proj = ("param", P.f.params[2]["n"])
    info = ("param", P.f.params[3]["n"])
    adds = [e for e in P.st.eff if e[0] == "call" and e[1] in ("emplace_back", "push_back") and e[2] == ("call", "columns", proj)]
    if len(adds) != 1 or len(adds[0]) < 5:
        raise Unknown("the column")
    var, value = adds[0][3], adds[0][4]
    if scalar(value) != ("value",):
        yield "column.value", "the value of the column is not that which is written"
    regs = [e for e in P.st.eff if e[0] == "call" and e[1] == "add" and e[2] == info]
    if len(regs) != 1:
        yield "column.value", "the column is added %d times to the result" % len(regs)
        return
    c = pair(regs[0][3])
    if c[1] != var:
        yield "column.value", "the result has another variable than the column"
    if len(c) > 3 and c[3] is not True:
        yield "column.value", "the column is hidden"
    named = P.has("name")
    ps = {y for x in deep(c[2]) if x[:2] == ("call", "normalize_identifier") for y in x if is_path(y)}
    if named and ps != {P.at("name")}:
        yield "column.name", "the column has not the name which is given to it"
    if named is False and any(y[2:3] == ("name",) for y in ps):
        yield "column.name", "the column has not its own name"
    ag = P.v
    for x in ag.f.values() if isinstance(ag, Obj) else ag:
        if isinstance(x, tuple) and any(y[:2] == ("call", "saw_aggregate") for y in deep(x)):
            return
    for c, b in P.st.cond:
        if any(y[:2] == ("call", "saw_aggregate") for y in deep(c)):
            return
    yield "column.aggregate", "it is not told that the column has a set function"


def q_asterisk(P):
    info = ("param", P.f.params[3]["n"])
    added = [e[3] for e in P.st.eff if e[0] == "call" and e[1] == "add" and e[2] == info]
    shown = [(c, b) for c, b in P.st.cond if isinstance(c, tuple) and c[:2] == ("call", "exported") and len(c) == 3]
    for c, b in shown:
        if b and added.count(c[2]) != 1:
            yield "column.asterisk", "a visible column is not selected by the asterisk"
        if not b and c[2] in added:
            yield "column.asterisk", "a hidden column is selected by the asterisk"
    for a in added:
        if (("call", "exported", a), True) not in shown:
            yield "column.asterisk", "a column is selected by the asterisk without asking whether it is visible"
        qual = P.has("qualifier")
        named = any(x[:2] == ("call", "analyze_relation_info_name") and P.at("qualifier", "name") in x for x in deep(a))
        if named != bool(qual):
            yield "column.asterisk", "the asterisk selects the columns of other relations than it names"


def q_group(P):
    adds = [a for _, a in P.calls("add_group_key")]
    if len(adds) != 1:
        yield "group.key", "%d keys are added for an element of GROUP BY" % len(adds)
        return
    v = adds[0][1]
    while isinstance(v, tuple) and v[:2] == ("call", "variable") and len(v) == 3:
        v = v[2]
    if scalar(v) != ("column",):
        yield "group.key", "the key is not the variable which is written"
    if not any(not b and c[:2] == ("call", "saw_aggregate") for c, b in P.st.cond):
        yield "group.key", "set functions are accepted as keys of GROUP BY"


MORE = {
    "query::binary_expression": (q_set, dict(unroll=2, other=2), {
        "set.operator": "UNION, EXCEPT and INTERSECT become the operator of this name",
        "set.quantifier": "duplicates are kept if ALL is written, and only then",
        "set.sides": "the left input is the left query and the right input the right one",
        "set.columns": "the exported columns of both queries are paired in order and are the columns of the result",
        "set.names": "the columns are named like those of the left query"}),
    "query::table_value_constructor": (q_values, dict(unroll=2), {
        "values.rows": "every element is a row, every value of it a column, in order"}),
    "query::with_expression": (q_with, dict(unroll=2, other=2), {
        "with.query": "the result is the query after WITH, which sees the common tables",
        "with.tables": "every element is a common table of its name, which is known before the query is analysed",
        "with.columns": "the columns of a common table are the exported columns of its query, with the names which are given to them"}),
    "query::table_reference": (q_reference, dict(other=2), {
        "table.name": "TABLE reads the relation which is named"}),
    "table::table_reference": (q_table, dict(unroll=2, other=2), {
        "table.scan": "all rows of the table are read by its primary index, each column into its own variable",
        "table.common": "a common table is a copy of its plan, each column with its own variable and name",
        "table.scope": "the columns are added to the scope of the query, once",
        "table.correlation": "correlation names replace the names of the table and, in order, of its columns"}),
    "table::subquery": (q_subquery, dict(unroll=2), {
        "table.scope": "the columns are added to the scope of the query, once",
        "table.correlation": "correlation names replace the names of the table and, in order, of its columns",
        "table.subquery": "the rows of a subquery are those of its query, which is analysed in its own scope"}),
    "table::join": (q_join, dict(), {
        "join.kind": "each kind of join becomes the operator of this kind with its sides in place; a right outer join is a left outer join with the sides exchanged",
        "join.merged": "the column which USING merges has a value for the rows of either side",
        "join.condition": "the condition of the join is the one written after ON or USING"}),
    "table::join_condition": (q_condition, dict(), {"join.condition": "the condition of the join is the one written after ON or USING"}),
    "table::join_columns": (q_using, dict(unroll=2), {
        "join.using": "USING compares the visible columns of the given names of both sides for equality, in conjunction, and hides one of each"}),
    "table::apply": (q_apply, dict(unroll=2, other=2), {
        "table.scope": "the columns are added to the scope of the query, once",
        "table.correlation": "correlation names replace the names of the table and, in order, of its columns",
        "apply.kind": "APPLY is cross apply unless OUTER is written",
        "apply.arguments": "the arguments are translated in order",
        "apply.operand": "the function is applied to every row of the operand",
        "apply.function": "the function is the one which is named",
        "apply.columns": "the columns of the function become columns of the relation, in order"}),
    "query::select_column": (q_column, dict(), {
        "column.value": "a column of the SELECT list has the value which is written",
        "column.name": "it has the name which is given to it",
        "column.aggregate": "a set function in it is reported to the query"}),
    "query::select_asterisk": (q_asterisk, dict(), {
        "column.asterisk": "the asterisk selects the visible columns of the relations it names"}),
    "query::grouping_column": (q_group, dict(), {
        "group.key": "a key of GROUP BY is the variable which is written"}),
}


def run_rule(rep, E, name, spec, rules, lists=None, **kw):
    """all ways through one translation against its meaning"""
    f, T, R = E.run(name, lists=lists, **kw)
    n = unknown = 0
    bad = {}
    for k, v, st in R:
        if k != "ret":
            continue
        P = Path(E, T, f, v, st)
        try:
            for rid, msg in spec(P):
                bad.setdefault((rid, msg), st)
            n += 1
        except (Unknown, ValueError, IndexError, TypeError, KeyError, AttributeError) as x:
            unknown += 1
            if unknown <= 3:
                rep.notes.append("%s: a way is not understood: %s" % (name, str(x)[:200]))
    rep.count("ways", n)
    rep.count("ways not understood", unknown)
    for rid in dict.fromkeys(list(rules) + [r for r, _ in bad]):
        msgs = sorted({m for r, m in bad if r == rid})
        if not n:
            continue
        if not msgs:
            rep.ok(rid, f.q, f.loc())
        for m in msgs:
            rep.bad(rid, f.q, f.loc(), m, "%s|%s|%s" % (rid, name, m))


def a05(db, rep):
    rep.explanation = ("Every way through the translation of a query which succeeds is followed (calls of the same file are entered, the translations of parts are symbols); "
                       "the operators which it puts into the graph and their connections are compared with the structure which SQL gives to the query.")
    E = Engine(db)
    for r, t in QUERY_RULES.items():
        rep.rule(r, t)
    for name, (spec, kw, rules) in MORE.items():
        for r, t in rules.items():
            rep.rule(r, t)
    for name, (spec, kw, rules) in MORE.items():
        run_rule(rep, E, name, spec, rules, limit=1000000, **kw)
    run_rule(rep, E, "query::query", q_query, QUERY_RULES, lists={"from": 2}, limit=4000000)
    run_rule(rep, E, "query::query", q_query, ("select.order", "select.columns"), lists={"order_by": 3, "elements": 2}, unroll=2, without=("from", "where", "group_by", "having", "limit"), limit=4000000)


CHECKS = {"A05": a05}

"""A08: statements which define, change and drop tables and indices, and those which grant privileges."""
from aval import Lin, Obj
from mz import recv, strip
from paths import is_path
from plans import hollow
from rules_query import A, items, run_rule
from rules_statement import Engine as Changes, Statements, bare, elems, position, same, whole
from terms import Unknown, deep

OPTIONAL = ("process_column_value(expression_constraint)", "process_column_value(identity_constraint)", "extract_column_value(expression_constraint)", "extract_sequence_value(expression)")

Y = "yugawara::storage::"
NULLABLE = "yugawara::variable::nullable"


def made(v, name):
    """v is an object name(...) which the path has made"""
    return isinstance(v, tuple) and v[:1] == ("mk",) and str(v[1]).split("::")[-1] == name


def nul(v):
    """whether NULL is accepted, None: something else"""
    if v == ("glob", NULLABLE):
        return True
    if isinstance(v, tuple) and v[:1] == ("nul",):
        return v[1]
    if isinstance(v, tuple) and v[:1] in (("new",), ("init",)) and len(v) == 3 and strip(str(v[1])) == "yugawara::variable::nullity":
        return v[2] if isinstance(v[2], bool) else nul(v[2])
    return None


class Definitions(Statements):
    """the columns, tables and indices which the path makes"""

    def tm(self, itp, fr, n, name, rv, av, st):
        d = n.get("d") if n["k"] in ("Call", "Op") else None
        if d is not None:
            r = self.defined(fr, n, d, rv, list(av), st)
            if r is not None:
                return r
        return super().tm(itp, fr, n, name, rv, av, st)

    def defined(self, fr, n, d, rv, av, st):
        q, nm = d.q or "", d.n
        base, rest = rv, av
        if base is None and n["k"] == "Op" and av:
            base, rest = av[0], av[1:]
        op = n.get("op") if n["k"] == "Op" else None
        if q == "takatori::scalar::immediate::value" and not rest:
            return [(("call", "literal", base), st)]
        if nm == "operator basic_string_view" and not rest:
            return [(base, st)]
        if q == Y + "column::criteria" and not rest:
            return [(("criteria", base), st)]
        if q == Y + "column::default_value" and not rest:
            return [(("defval", base), st)]
        if q == Y + "column::simple_name" and not rest and made(base, "column"):
            return [(base[3], st)]
        if q == Y + "column::shared_type" and not rest and made(base, "column"):
            return [(base[4], st)]
        if q == Y + "column::type" and not rest and made(base, "column"):
            return [(base[4], st)]
        if q.startswith("std::numeric_limits<") and nm in ("max", "min", "lowest") and not av:
            b = {"int": 32, "long": 64, "long long": 64}.get(strip(q[len("std::numeric_limits<"):q.rindex(">")]))
            return None if b is None else [(Lin((), 2 ** (b - 1) - 1 if nm == "max" else -2 ** (b - 1)), st)]
        if q in (Y + "column::features", Y + "index::features") and not rest and (made(base, "column") or made(base, "index") or isinstance(base, tuple) and base[:1] == ("param",) and "const" not in (n.get("t") or "")):
            return [(("features", base), st)]
        if isinstance(base, tuple) and base[:1] == ("features",) and rest:
            k = ("col",) + base
            have = st.env.get(k, ())
            if nm == "insert":
                return [(("void",), st.set(k, have + tuple(x for x in rest if x not in have)))]
            if nm == "contains" and len(rest) == 1 and base[1][:1] == ("mk",):
                return [(rest[0] in have + tuple(deep(base[1][-1] if made(base[1], "index") else ())), st)]
        if isinstance(base, tuple) and base[:1] == ("criteria",) and nm == "nullity":
            k = ("col", "nullity", base[1])
            if rest:
                b = nul(rest[0])
                if b is None:
                    return None
                return [(base, st.set(k, b))]
            if k in st.env:
                return [(("nul", st.env[k]), st)]
            if made(base[1], "column"):
                c = base[1][5] if len(base[1]) > 5 else ()
                b = nul(c[2]) if isinstance(c, tuple) and len(c) == 3 else True if hollow(c) or isinstance(c, tuple) and len(c) == 2 else None
                return None if b is None else [(("nul", b), st)]
            return [(("nul", b), x) for b, x in self.settle(("nullable", base[1]), st)]
        if op == "~" and nul(base) is not None:
            return [(("nul", not nul(base)), st)]
        if op in ("==", "!=") and len(rest) == 1 and nul(base) is not None and nul(rest[0]) is not None:
            return [((nul(base) == nul(rest[0])) == (op == "=="), st)]
        if nm == "nullable" and not rest and nul(base) is not None:
            return [(nul(base), st)]
        if isinstance(base, tuple) and base[:1] == ("defval",):
            old = st.env.get(("col", "default", base[1]))
            if old is None and made(base[1], "column") and not hollow(base[1][6]):
                old = base[1][6]
            if (nm == "operator bool" or nm == "has_value") and not rest:
                return [(old is not None, st)]
            if op == "!" and not rest:
                return [(old is None, st)]
            if op == "=" and rest:
                return [(base, st.set(("col", "default", base[1]), rest[0]))]
        if isinstance(base, tuple) and base[:2] == ("call", "columns") and not rest and nm in ("begin", "cbegin"):
            return [(("iter", base, 0), st)]
        if isinstance(base, tuple) and base[:2] == ("call", "columns") and not rest and nm in ("end", "cend"):
            return [(("enditer", base), st)]
        if q == Y + "table::columns" and not rest and made(base, "table"):
            return [(("vec", "columns", tuple(items(base[5]))), st)]
        if q == Y + "index::keys" and not rest and made(base, "index"):
            return [(("vec", "keys", tuple(items(base[6]))), st)]
        if q == Y + "index::table" and not rest and made(base, "index"):
            return [(base[4], st)]
        if nm in ("column", "direction") and not rest and isinstance(base, tuple) and base[:1] == ("tuple",) and len(base) in (2, 3):
            return [(base[1] if nm == "column" else base[2] if len(base) > 2 else ("enum", "takatori::relation::sort_direction::ascendant", 0), st)]
        if q in ("std::find_if", "std::find_if_not") and len(av) == 3 and isinstance(av[2], tuple) and av[2][:1] == ("lambda",):
            return self.found(nm == "find_if", av, st)
        return None

    def found(self, want, av, st):
        lf = self.lambdas.get(av[2][1])
        a, b = av[:2]
        if lf is None or not isinstance(a, tuple) or not isinstance(b, tuple):
            return None
        if a[:1] == ("viter",) and b[:1] == ("viter",):
            seq = a[1][2][a[2]:b[2]]
            there = lambda i, x: [(i < len(seq), x)]
            item = lambda i: seq[i]
            at = lambda i: ("viter", a[1], a[2] + i)
        elif a[:1] == ("iter",) and b[:1] == ("enditer",):
            there = lambda i, x: self.step(a[1], i, x)
            item = lambda i: self.item(a[1], i)
            at = lambda i: ("iter", a[1], i)
        else:
            return None
        out, cur, i = [], [st], 0
        while cur:
            nxt = []
            for x in cur:
                for t, y in there(i, x):
                    if not t:
                        out.append((b, y))
                        continue
                    for v, z in self.run_lambda(lf, [item(i)], y):
                        for r, w in self.settle(v, z):
                            if r == want:
                                out.append((at(i), w))
                            else:
                                nxt.append(w)
            cur = nxt
            i += 1
        return out

    def assign(self, fr, lhs, v, st):
        if lhs["k"] == "Call" and lhs.get("d") is not None and lhs["d"].q == Y + "column::default_value" and recv(lhs) is not None:
            rs = self.ev(fr, recv(lhs), st)
            if len(rs) == 1:
                return rs[0][1].set(("col", "default", rs[0][0]), v)
        return super().assign(fr, lhs, v, st)

    def present(self, v, st):
        if isinstance(v, tuple) and v[:1] == ("defval",):
            old = st.env.get(("col", "default", v[1]))
            return old is not None or made(v[1], "column") and not hollow(v[1][6])
        if isinstance(v, tuple) and v[:1] == ("elem",) and v[1][:2] == ("call", "columns"):
            return True
        if is_path(v) and len(v) > 3 and (v[-1] == "*" or v[-1][:1] == "#"):
            return True
        if made(v, "column") or made(v, "index") or made(v, "table"):
            return True
        return super().present(v, st)


class Engine(Changes):
    walker = Definitions

    def inline(self, g):
        return g.file == self.file and g.n not in ("operator()", "process_column_value", "extract_column_value", "extract_sequence_value")

    def __init__(self, db):
        super().__init__(db)
        top = self.handlers["statement::table_definition"]
        for f in db.fns.values():
            if f.body is not None and not f.dep and f.d.rec == top.d.rec and f.params and f.n in ("process_column_value", "extract_column_value", "extract_sequence_value"):
                t = strip(f.params[0]["d"].t or "").split("::")[-1]
                self.handlers["%s(%s)" % (f.n, t)] = f


# ------------------------------------------------------------------------------------------------ reading a path

STATEMENTS = {"empty", "create_table", "create_index", "drop_table", "drop_index", "rename_table", "rename_index", "rename_column", "truncate_table", "grant_table", "revoke_table"}


def statement(P):
    """the statement which is made: (name, arguments)"""
    m = {x for x in deep(P.v) if x[:1] == ("mk",) and str(x[1]).split("::")[-1] in STATEMENTS}
    if len(m) != 1:
        raise Unknown("%d statements" % len(m))
    m = m.pop()
    a = m[2:]
    if a and (is_path(a[0]) and a[0][-1] == "region" or a[0] is None):
        a = a[1:]
    return str(m[1]).split("::")[-1], a


def ending(v, name):
    return isinstance(v, tuple) and v[:1] == ("enum",) and v[1].split("::")[-1] == name


def option(P, name, steps=("options",)):
    """whether the option is given, None: it is not asked"""
    for c, b in P.st.cond:
        if isinstance(c, tuple) and c[:1] == ("contains",) and c[1] == P.at(*steps) and ending(c[2], name):
            return b
    if P.some(*steps) is False:
        return False
    r = False
    for e in P.elems(*steps):
        for c, b in P.st.cond:
            if isinstance(c, tuple) and c[0] in ("==", "!=") and e in c and any(ending(x, name) for x in c[1:]):
                if b == (c[0] == "=="):
                    return True
                break
        else:
            r = None
    return r if P.elems(*steps) else None


def ask(P, pred):
    """what the path knows about the condition which pred accepts"""
    for c, b in P.st.cond:
        if isinstance(c, tuple) and pred(c):
            return b
    return None


def lookup(P, fn, path):
    """(found, must exist) of a lookup of the name, None: there is none"""
    for c, b in P.st.cond:
        if isinstance(c, tuple) and c[:2] == ("call", fn) and path in c:
            return b, next((x for x in c[2:] if isinstance(x, bool)), True)
    return None, None


def normal(v, path, kind):
    """v is the normalized name at path"""
    n = [y for y in deep(v) if y[:2] == ("call", "normalize_identifier")]
    return len(n) == 1 and path in n[0] and any(ending(y, kind) for y in n[0])


def target(v, fn, path):
    """v describes what the name denotes"""
    for x in deep(v):
        if x[:1] == ("mem",) and x[2] == "second" and isinstance(x[1], tuple) and x[1][:2] == ("call", fn) and path in x[1]:
            return True
    return False


def schema_of(v, fn, path):
    return any(x[:1] == ("mem",) and x[2] == "first" and isinstance(x[1], tuple) and x[1][:2] == ("call", fn) and path in x[1] for x in deep(v))


def refused(P, rule, what):
    for steps, text in what:
        k = P.some(*steps)
        if k is None:
            k = P.has(*steps)
        if k is not False:
            yield rule, "%s ignored" % text


def exists(P, rule, fn, path, option_name, name):
    """CREATE ... of a name which exists; True: the statement is to be made"""
    found, must = lookup(P, fn, path)
    if found is None:
        yield rule, "it is not asked whether the name exists"
    elif must:
        yield rule, "the name is an error if it does not exist"
    if found and not (name == "empty" and option(P, option_name)):
        yield rule, "a name which exists is defined again"
    if name == "empty" and not found:
        yield rule, "nothing is made although the name does not exist"


def index_keys(P, rule, keys, path, table):
    """the columns of an index"""
    es = P.elems(*path[2:])
    ks = [k if isinstance(k, tuple) and k[:1] == ("tuple",) else ("tuple", k) for k in items(keys)]
    if not es or len(ks) != len(es):
        yield rule, "%d columns for %d keys" % (len(ks), len(es))
        return
    for e, k in zip(es, ks):
        t = next((x for x in deep(k[1]) if x[:2] == ("call", "analyze_scalar_expression")), None)
        if t is None or e + ("key",) not in t or not any(x[:2] == ("call", "extract_if") for x in deep(k[1])):
            yield rule, "a key is not the column which is written"
        d = e + ("direction",)
        down = ask(P, lambda c: c[0] in ("==", "!=") and d in c and any(ending(x, "desc") for x in c[1:]))
        neg = any(c[0] == "!=" and d in c for c, _ in P.st.cond if isinstance(c, tuple))
        down = P.has(*d[2:]) is not False and (down if not neg else None if down is None else not down)
        if down is None:
            ds = P.enum(A + "common::ordering_specification", *d[2:])
            down = ds == {"desc"} if len(ds) == 1 else None
        if down is None:
            yield rule, "ASC and DESC are ignored"
        elif not ending(k[2] if len(k) > 2 else ("enum", "ascendant", 0), "descendant" if down else "ascendant"):
            yield rule, "a key is sorted the other way round"
        for x in ("null_location", "collation"):
            if P.has(*(e + (x,))[2:]) is not False:
                yield rule, "%s ignored" % x
    for i, a in enumerate(ks):
        for b in ks[:i]:
            if same(P, a[1], b[1]) is not False:
                yield rule, "a column can be in the key twice"
    adds = [a for _, a in P.calls("add") if len(a) == 2 and any(x[:2] == ("call", "build_relation_info") for x in deep(a[1]))]
    if len(adds) != 1 or not any(x == table for x in deep(adds[0][1])):
        yield rule, "the keys are not columns of the table"


# ------------------------------------------------------------------------------------------------ CREATE TABLE

def q_table(P):
    name, a = statement(P)
    path = P.at("name")
    yield from exists(P, "table.exists", "analyze_table_name", path, "if_not_exists", name)
    if name == "empty":
        return
    if name != "create_table":
        yield "table.exists", "the statement is %s" % name
        return
    if P.some("parameters") is not False:
        yield "table.refused", "parameters are ignored"
    if option(P, "temporary") is not False:
        yield "table.refused", "TEMPORARY is ignored"
    ts = {x for x in deep(a) if made(x, "table")}
    xs = {x for x in deep(a) if made(x, "index")}
    if len(ts) != 1 or len(xs) != 1 or not any(x[:2] == ("call", "default_schema_shared") for x in deep(a[0])):
        raise Unknown("the definition")
    t, x = ts.pop(), xs.pop()
    if not normal(t[4], path + ("last_name",), "relation"):
        yield "table.columns", "the table has not its name"
    if ask(P, lambda c: c[0] in ("==", "!=", "in") and path + ("node_kind",) in c) is None:
        yield "table.refused", "the qualifier of the name is ignored"
    if t[6] != ("call", "analyze_description", P.at("description")) and not any(y == P.at("description") for y in deep(t[6])):
        yield "table.columns", "the table has not its description"
    defs, rest = [], []
    for e in P.elems("elements"):
        ks = P.enum(A + "statement::table_element_kind", *e[2:], "node_kind")
        (defs if ks == {"column_definition"} else rest).append(e)
        if ks != {"column_definition"} and "column_definition" in ks:
            raise Unknown("the kinds")
        if not ks <= {"column_definition", "constraint_definition"} and "constraint_definition" in ks and len(ks) > 1 and asked_kind(P, e, "constraint_definition") is None:
            yield "table.refused", "a constraint is ignored"
    cols = items(t[5])
    if len(defs) != len(cols):
        yield "table.columns", "%d columns for %d definitions" % (len(cols), len(defs))
        return
    keys = []
    for e, c in zip(defs, cols):
        if not made(c, "column"):
            raise Unknown("a column")
        if not normal(c[3], e + ("name",), "variable") or not any(y[:2] == ("call", "analyze_type") and e + ("type",) in y for y in deep(c[4])) \
                or not any(y == e + ("description",) for y in deep(c[8] if len(c) > 8 else ())):
            yield "table.columns", "a column has not its name, type and description"
        null = notnull = default = pk = 0
        value = None
        for q in P.elems(*e[2:], "constraints"):
            ks = P.enum(A + "statement::constraint_kind", *q[2:], "body", "node_kind")
            if not ks <= {"primary_key", "null", "not_null", "default_clause", "identity_column"} or len(ks) > 1:
                yield "table.refused", "%s is ignored" % ", ".join(sorted(ks)[:4])
                continue
            k = next(iter(ks))
            null += k == "null"
            notnull += k == "not_null"
            pk += k == "primary_key"
            if k in ("default_clause", "identity_column"):
                default += 1
                value = q + ("body",)
            if k == "primary_key":
                for part in ("values", "parameters"):
                    if P.some(*q[2:], "body", part) is not False:
                        yield "table.refused", "the %s of PRIMARY KEY are ignored" % part
        if P.some(*e[2:], "constraints") is None:
            yield "table.nulls", "the constraints of a column are ignored"
        if null + notnull > 1 or null and pk or default > 1:
            yield "table.nulls", "constraints which contradict each other are accepted"
        n = P.st.env.get(("col", "nullity", c), True if hollow(c[5]) or len(c[5]) == 2 else None)
        d = P.st.env.get(("col", "default", c), None if hollow(c[6]) or len(c[6]) == 2 else c[6])
        listed = any(same(P, c, k) for k in sought(P))
        if n is not (not (notnull or pk or listed)):
            yield "table.nulls", "a column %s" % ("accepts NULL" if n else "does not accept NULL")
        if default:
            if not any(y[:2] == ("call", "process_column_value") and value in y and c in y for y in deep(d)):
                yield "table.default", "a column has not the default value which is written"
        elif n:
            if d is None or not any(y[:2] == ("call", "get") and any(isinstance(z, tuple) and z[:1] in (("new",), ("mk",)) and str(z[1]).endswith("::unknown") for z in deep(y)) for y in deep(d)):
                yield "table.default", "a column which accepts NULL is not NULL without a value"
        elif d is not None:
            yield "table.default", "a column has a default value which is not written"
        keys += [c] * pk
    for i, c in enumerate(cols):
        for b in cols[:i]:
            if same(P, c[3], b[3]) is not False:
                yield "table.columns", "two columns can have the same name"
    lists = []
    for e in rest:
        ks = P.enum(A + "statement::constraint_kind", *e[2:], "body", "node_kind")
        if ks == {"primary_key"}:
            lists.append(e + ("body",))
            for part in ("values", "parameters"):
                if P.some(*e[2:], "body", part) is not False:
                    yield "table.refused", "the %s of PRIMARY KEY are ignored" % part
        elif asked_kind(P, e, "constraint_definition") is not False:
            yield "table.refused", "%s is ignored" % ", ".join(sorted(ks)[:4])
    if len(keys) + len(lists) > 1:
        yield "table.key", "two primary keys are accepted"
        return
    if x[4] != t or items(x[7]) or not blank(x[5]):
        yield "table.key", "the primary index is not that of the table"
    f = set(map(repr, P.st.env.get(("col", "features", x), ()))) | {repr(y) for y in deep(x[8]) if y[:1] == ("enum",)}
    if len(f) != 1 or "::primary" not in next(iter(f)):
        yield "table.key", "the primary index is not known as such"
    if lists:
        yield from index_keys(P, "table.key", x[6], lists[0] + ("key",), t)
        for k in items(x[6]):
            b = k[1] if isinstance(k, tuple) and k[:1] == ("tuple",) else k
            eq = [same(P, b, c) for c in cols]
            if P.st.known(("nullable", b)) is not False and True not in eq and None in eq:
                yield "table.nulls", "a column of the primary key accepts NULL"
    else:
        got = [k[1] if isinstance(k, tuple) and k[:1] == ("tuple",) else k for k in items(x[6])]
        if got != keys:
            yield "table.key", "the primary key is not the column which says so"


def blank(v):
    return v in (("str", ""), None) or isinstance(v, tuple) and v[:1] in (("new",), ("init",)) and len(v) == 2


def sought(P):
    """the columns of keys which are compared with those of the table"""
    r = []
    for c, b in P.st.cond:
        if isinstance(c, tuple) and c[:1] == ("same",):
            r += [y for y in c[1:] if any(z[:2] == ("call", "extract_if") for z in deep(y)) and y not in r]
    return r


def asked_kind(P, e, name):
    for c, b in P.st.cond:
        if isinstance(c, tuple) and c[0] in ("==", "!=") and e + ("node_kind",) in c and any(ending(y, name) for y in c[1:]):
            return b == (c[0] == "==")
    return None


def q_default(P):
    t = [x for x in deep(P.v) if x[:2] == ("call", "extract_column_value")]
    if len(t) != 1:
        raise Unknown("the value")
    v = [x for x in deep(t[0]) if x[:2] == ("call", "analyze_scalar_expression")]
    if len(v) != 1 or P.at("expression") not in v[0]:
        yield "default.value", "the default value is not the expression which is written"
        return
    if not any(x[:2] == ("call", "shared_type") and ("param", P.f.params[1]["n"]) in x for x in deep(v[0])):
        yield "default.value", "the default value is not analysed for the type of the column"
    if P.calls("add"):
        yield "default.value", "a default value can refer to columns"


def q_constant(P):
    e = ("param", P.f.params[1]["n"])
    ks = kinds_of(P, e)
    v = P.v
    if any(x[:2] == ("call", "extract_column_value") for x in deep(v)):
        if ks != {"cast"}:
            yield "default.value", "another expression is looked into"
        return
    if any(x[:2] == ("call", "extract_shared") for x in deep(v)):
        if ks != {"function_call"} or ("call", "function", e) not in list(deep(v)):
            yield "default.value", "the default value is not the function which is called"
        if P.st.known(("nonempty", ("call", "arguments", e))) is not False:
            yield "default.value", "arguments of the function are ignored"
        if ask(P, lambda c: c[:2] == ("call", "contains") and any(ending(y, "scalar_function") for y in c)) is not True:
            yield "default.value", "a function which is not scalar is accepted"
        return
    if not any(x[:2] == ("call", "get") for x in deep(v)) or e not in list(deep(v)) or ks != {"immediate"}:
        yield "default.value", "the default value is not the literal which is written"


def kinds_of(P, e):
    for c, b in P.st.cond:
        if isinstance(c, tuple) and b and c[:1] == ("in",) and bare(c[1]) == ("call", "kind", e):
            return {n for n in NAMES if NAMES[n] in c[2]}
        if isinstance(c, tuple) and c[0] in ("==", "!=") and b == (c[0] == "==") and ("call", "kind", e) in c:
            return {y[1].split("::")[-1] for y in c[1:] if y[:1] == ("enum",)}
    return set()


NAMES = {}


def q_identity(P):
    m = [x for x in deep(P.v) if made(x, "sequence")]
    if len(m) != 1:
        raise Unknown("the sequence")
    init, inc, lo, hi, cyc = m[0][5:10]
    col = ("param", P.f.params[1]["n"])
    four = ask(P, lambda c: c[0] in ("==", "!=") and any(("call", "kind", ("call", "type", col)) == y for y in map(bare, c[1:])) and "int4" in repr(c) and c[0] == "==")
    eight = ask(P, lambda c: c[0] in ("==", "!=") and any(("call", "kind", ("call", "type", col)) == y for y in map(bare, c[1:])) and "int8" in repr(c) and c[0] == "==")
    if not four and not eight:
        raise Unknown("the type")
    wide = not four
    given = {}
    for x in ("initial_value", "increment_value", "min_value", "max_value"):
        k = P.has(x)
        if k is None:
            yield "identity.values", "%s is ignored" % x
            return
        given[x] = ("call", "extract_sequence_value", ("this",), P.at(x), wide) if k else None
    bits = 64 if wide else 32
    winc = given["increment_value"] or Lin((), 1)
    if not eq(inc, winc):
        yield "identity.values", "the increment is another one"
        return
    if given["increment_value"]:
        zero = ask(P, lambda c: c[0] == "==" and any(eq(y, winc) for y in c[1:]) and any(eq(y, Lin((), 0)) for y in c[1:]))
        up = less(P, Lin((), 0), winc)
        if zero is not False and less(P, winc, Lin((), 0)) is not True and up is not True:
            yield "identity.values", "an increment of zero is accepted"
        if up is None:
            d = less(P, winc, Lin((), 0))
            up = None if d is None else not d
        if up is None:
            raise Unknown("the direction")
    else:
        up = True
    wlo = given["min_value"] or Lin((), 1 if up else -2 ** (bits - 1))
    whi = given["max_value"] or Lin((), -1 if not up else 2 ** (bits - 1) - 1)
    if not eq(lo, wlo) or not eq(hi, whi):
        yield "identity.values", "the bounds are other ones"
        return
    wi = given["initial_value"] or (wlo if up else whi)
    if not eq(init, wi):
        yield "identity.values", "the sequence starts with another value"
        return
    if less(P, wi, wlo) is not False or less(P, whi, wi) is not False:
        yield "identity.values", "the sequence can start out of its bounds"
    k = P.has("cycle")
    if k is None or not any(y == (P.at("cycle") if k else ("call", "default_sequence_cycle", ("call", "options", ("field0", "context_")))) for y in deep(cyc)):
        yield "identity.values", "CYCLE and NO CYCLE are ignored"
    always = ask(P, lambda c: c[0] == "==" and P.at("generation") in c and any(ending(y, "always") for y in c[1:]))
    ro = any(ending(y, "read_only") for y in P.st.env.get(("col", "features", col), ()))
    if always is None:
        yield "identity.always", "GENERATED ALWAYS is ignored"
    elif always != ro:
        yield "identity.always", "the column is%s read only" % ("" if ro else " not")


def q_sequence(P):
    e = ("path", P.f.params[0]["n"])
    v = P.v
    while isinstance(v, tuple) and v[:1] in (("new",), ("init",)) and len(v) == 3:
        v = v[2]
    v = bare(v)
    lits = [x for x in deep(v) if x[:2] == ("call", "literal") and any(y[:2] == ("call", "analyze_scalar_expression") and e in y for y in x)]
    if not lits:
        raise Unknown("the value")
    lit = lits[0]
    ks = set()
    for c, b in P.st.cond:
        if isinstance(c, tuple) and b and c[0] == "in" and bare(c[1]) == ("call", "kind", lit):
            ks = {n for n in VALUES if VALUES[n] in c[2]}
        if isinstance(c, tuple) and c[0] in ("==", "!=") and b == (c[0] == "==") and ("call", "kind", lit) in c:
            ks = {y[1].split("::")[-1] for y in c[1:] if y[:1] == ("enum",)}
    wide = P.st.known(("param", P.f.params[1]["n"]))
    if not ks or not ks <= {"int4", "int8", "decimal"}:
        yield "identity.literals", "%s is taken for an integer" % ", ".join(sorted(ks)[:3])
        return

    def fits(x):
        return less(P, x, Lin((), -2 ** 31)) is False and less(P, Lin((), 2 ** 31 - 1), x) is False
    if ks <= {"int4", "int8"}:
        if bare(v) != bare(lit):
            yield "identity.literals", "the value is another one"
        if "int8" in ks and wide is not True and not fits(v):
            yield "identity.literals", "a value which is out of the range of the type is accepted"
        return
    if ask(P, lambda c: c[:2] == ("call", "isinteger") and lit in list(deep(c))) is not True:
        yield "identity.literals", "a value which is not an integer is accepted"
    if not isinstance(v, tuple) or v[:1] != ("call",) or v[1] not in ("i64", "i32"):
        raise Unknown("the value")
    if v[1] == "i64" and wide is not True and not fits(v):
        yield "identity.literals", "a value which is out of the range of the type is accepted"
    if v[1] == "i32" and wide is not False:
        yield "identity.literals", "a BIGINT value is out of range"


VALUES = {}


def eq(a, b):
    return bare(a) == bare(b)


def less(P, a, b):
    if eq(a, b):
        return False
    if all(isinstance(x, Lin) and x.const() is not None for x in (a, b)):
        return a.const() < b.const()
    for c, r in P.st.cond:
        if isinstance(c, tuple) and len(c) == 3 and c[0] == "<":
            if eq(c[1], a) and eq(c[2], b):
                return r
            if r and eq(c[1], b) and eq(c[2], a):
                return False
        if isinstance(c, tuple) and len(c) == 3 and c[0] == "<=":
            if eq(c[1], b) and eq(c[2], a):
                return not r
            if r is False and eq(c[1], a) and eq(c[2], b):
                return False
    return None


# ------------------------------------------------------------------------------------------------ CREATE INDEX

def q_index(P):
    name, a = statement(P)
    path = P.at("name")
    if P.has("name"):
        yield from exists(P, "index.exists", "analyze_index_name", path, "if_not_exists", name)
    elif P.has("name") is None or name == "empty":
        yield "index.exists", "the name of the index is ignored"
    if name == "empty":
        return
    if name != "create_index":
        yield "index.exists", "the statement is %s" % name
        return
    for part in ("values", "parameters"):
        if P.some(part) is not False:
            yield "index.refused", "%s are ignored" % part
    if P.has("predicate") is not False:
        yield "index.refused", "the predicate is ignored"
    if option(P, "unique") is not False:
        yield "index.refused", "UNIQUE is ignored"
    xs = {x for x in deep(a) if made(x, "index")}
    if len(xs) != 1:
        raise Unknown("the definition")
    x = xs.pop()
    found, must = lookup(P, "analyze_table_name", P.at("table_name"))
    if not found or not must or not target(x[4], "analyze_table_name", P.at("table_name")):
        yield "index.keys", "the index is not one of the table which is named"
        return
    if P.has("name"):
        if not normal(x[5], path + ("last_name",), "relation"):
            yield "index.keys", "the index has not its name"
        if ask(P, lambda c: c[0] in ("==", "!=", "in") and path + ("node_kind",) in c) is None:
            yield "index.refused", "the qualifier of the name is ignored"
    elif not blank(x[5]):
        yield "index.keys", "an index without name gets one"
    if items(x[7]) or any(y[:1] == ("enum",) for y in deep(x[8])) and str(x[8][:1]) != "('new',)" or P.st.env.get(("col", "features", x)):
        yield "index.keys", "the index has values or features"
    if not any(y == P.at("description") for y in deep(x[9] if len(x) > 9 else ())):
        yield "index.keys", "the index has not its description"
    yield from index_keys(P, "index.keys", x[6], P.at("keys"), x[4])


# ------------------------------------------------------------------------------------------------ ALTER, DROP, TRUNCATE

def missing(P, rule, fn, optional, name):
    """a name which does not exist; True: the statement is to be made"""
    found, must = lookup(P, fn, P.at("name"))
    if found is None:
        yield rule, "the name is not looked for"
    elif optional is None:
        yield rule, "IF EXISTS is ignored"
    elif must == optional:
        yield rule, "a name which does not exist is an error %s IF EXISTS" % ("with" if must else "only with")
    if name == "empty" and (found or not optional):
        yield rule, "nothing is done"
    if name != "empty" and found is False:
        yield rule, "something is done without the name"


def q_alter(fn):
    def spec(P):
        d = [x for x in deep(P.v) if x[:2] == ("call", "dispatch")]
        name = "dispatch" if d else statement(P)[0]
        yield from missing(P, "alter.exists", fn, P.has("if_exists"), name)
        if name == "empty":
            return
        if len(d) != 1 or P.at("action") not in d[0] or not any(schema_of(x, fn, P.at("name")) for x in d[0][2:]) or not target(d[0][-1], fn, P.at("name")):
            yield "alter.exists", "the action is not that of the statement on what it names"
    return spec


def argument(P, i):
    return ("param", P.f.params[i]["n"])


def q_rename(kind_, find):
    def spec(P):
        name, a = statement(P)
        old = argument(P, 3)
        if name != "rename_" + kind_ or len(a) != 3 or argument(P, 2) not in list(deep(a[0])) or old not in list(deep(a[1])):
            yield "alter.rename", "the statement is %s of something else" % name
            return
        if not normal(a[2], P.at("replacement"), "relation"):
            yield "alter.rename", "the new name is another one"
        new = [y for y in deep(a[2]) if y[:2] == ("call", "normalize_identifier")]
        if ask(P, lambda c: c[:2] == ("call", find) and new[0] in list(deep(c)) and argument(P, 2) in list(deep(c))) is not False:
            yield "alter.rename", "a name which exists is used again"
        if kind_ == "index" and ask(P, lambda c: c[:2] == ("call", "contains") and old in list(deep(c)) and any(ending(y, "primary") for y in c)) is not False:
            yield "alter.rename", "the primary index can be renamed"
    return spec


def q_column(P):
    name, a = statement(P)
    table = argument(P, 3)
    seq = ("call", "columns", table)
    cs = elems(P, seq)

    def called(c, part):
        return ask(P, lambda x: x[0] in ("same", "==") and ("call", "simple_name", c) in map(bare, x[1:]) and normal(x, P.at(part), "variable"))
    if cs is None:
        raise Unknown("the columns")
    if name == "empty":
        if not whole(P, seq) or any(called(c, "column_name") is not False for c in cs) or P.has("if_exists") is not True:
            yield "alter.column", "nothing is done"
        return
    if name != "rename_column" or len(a) != 3 or table not in list(deep(a[0])):
        yield "alter.column", "the statement is %s of something else" % name
        return
    got = [c for c in cs if c in list(deep(a[1]))]
    if len(got) != 1 or called(got[0], "column_name") is not True:
        yield "alter.column", "the column which is renamed is not the one which is named"
    if not normal(a[2], P.at("replacement"), "variable"):
        yield "alter.column", "the new name is another one"
    if not whole(P, seq) or any(called(c, "replacement") is not False for c in cs):
        yield "alter.column", "the name of another column is used again"


def q_drop(P):
    name, a = statement(P)
    ks = P.enum(A + "statement::kind", "node_kind")
    table, index = "drop_table_statement" in ks, "drop_index_statement" in ks
    if len(ks) != 1 or not (table or index):
        yield "drop.kind", "%s is taken for another DROP" % ", ".join(sorted(ks - {"drop_table_statement", "drop_index_statement"})[:3])
        return
    fn = "analyze_table_name" if table else "analyze_index_name"
    yield from missing(P, "drop.exists", fn, option(P, "if_exists"), name)
    if option(P, "cascade") is not False:
        yield "drop.kind", "CASCADE is ignored"
    if name == "empty":
        return
    if name != ("drop_table" if table else "drop_index") or len(a) != 2 or not schema_of(a[0], fn, P.at("name")) or not target(a[1], fn, P.at("name")):
        yield "drop.kind", "what is dropped is not what is named"


def q_truncate(P):
    name, a = statement(P)
    fn = "analyze_table_name"
    found, must = lookup(P, fn, P.at("name"))
    if name != "truncate_table" or not target(a[0], fn, P.at("name")) or not found or not must:
        yield "truncate", "the table is not the one which is named"
        return
    p = P.at("identity_column_option")
    again = ask(P, lambda c: c[0] == "==" and p in c and any(ending(y, "restart_identity") for y in c[1:]))
    if P.has("identity_column_option") is False:
        again = False
    got = any(any(ending(y, "restart_identity") for y in x) for _, x in P.calls("insert"))
    if again is None:
        yield "truncate", "RESTART IDENTITY is ignored"
    elif again != got:
        yield "truncate", "the identity columns %s" % ("restart" if got else "do not restart")


# ------------------------------------------------------------------------------------------------ GRANT, REVOKE

ACTIONS = {"all_privileges": "control", "select": "select", "insert": "insert", "update": "update", "delete_": "delete_"}


def q_privilege(revoke):
    def spec(P):
        name, a = statement(P)
        if name != ("revoke_table" if revoke else "grant_table"):
            yield "privilege.kind", "the statement is %s" % name
            return
        want = []
        for e in P.elems("actions"):
            ks = P.enum(A + "statement::privilege_action_kind", *e[2:], "action_kind")
            if len(ks) != 1 or not ks <= set(ACTIONS):
                yield "privilege.actions", "%s is taken for another action" % ", ".join(sorted(ks)[:4])
                return
            want.append(ACTIONS[next(iter(ks))])
        users, public = [], False
        seen = []
        for e in P.elems("users"):
            ks = P.enum(A + "statement::privilege_user_kind", *e[2:], "user_kind")
            if len(ks) != 1:
                yield "privilege.users", "%s are the same" % ", ".join(sorted(ks))
                return
            k = next(iter(ks))
            if k == "public_":
                public = True
            elif k == "identifier":
                p = e + ("authorization_identifier", "identifier")
                eqs = [same(P, p, q) for q in seen]
                if True in eqs:
                    continue
                if None in eqs:
                    yield "privilege.users", "a user can be there twice"
                seen.append(p)
                users.append(("specified", p))
            else:
                if k == "all_users" and not revoke:
                    yield "privilege.users", "a privilege is granted to all users (*)"
                users.append((k, None))
        tables = []
        for e in P.elems("objects"):
            p = e + ("object_name",)
            found, must = lookup(P, "analyze_table_name", p)
            if not found or not must:
                yield "privilege.objects", "a table which is named is not looked for"
                return
            t = next(x for c, b in P.st.cond for x in deep(c) if x[:2] == ("call", "analyze_table_name") and p in x)
            eqs = [same(P, ("mem", t, "second"), ("mem", u, "second")) for u in tables]
            if True in eqs:
                continue
            if None in eqs:
                yield "privilege.objects", "a table can be there twice"
            tables.append(t)
            if not kinds_ok(P, e):
                yield "privilege.objects", "the kind of the object is ignored"
        got = [x for x in items(a[0])]
        if len(got) != len(tables):
            yield "privilege.objects", "%d tables for %d names" % (len(got), len(tables))
            return
        for g, t in zip(got, tables):
            g = g[1:] if g[:1] == ("tuple",) else g[2:]
            if len(g) != 3 or ("mem", t, "second") not in list(deep(g[0])):
                yield "privilege.objects", "a table is not the one which is named"
                return
            if [last(x) for x in items(g[1])] != (want if public else []):
                yield "privilege.users", "PUBLIC has not the privileges which are written"
            have = []
            for u in items(g[2]):
                u = u[1:] if u[:1] == ("tuple",) else u[2:]
                k = last(u[0])
                have.append((k, next((x for x in deep(u[1]) if is_path(x)), None) if k == "specified" else None))
                if [last(x) for x in items(u[2])] != want:
                    yield "privilege.actions", "a user has not the privileges which are written"
            if have != users:
                yield "privilege.users", "the users are not those who are written"
    return spec


def kinds_ok(P, e):
    """whether the object is known to be a table"""
    p = e + ("object_kind",)
    for c, b in P.st.cond:
        if isinstance(c, tuple) and any(y == p for y in deep(c)) or c == p:
            return True
    return False


def last(x):
    if isinstance(x, tuple) and x[:1] == ("tuple",) and len(x) == 2:
        x = x[1]
    return x[1].split("::")[-1] if isinstance(x, tuple) and x[:1] == ("enum",) else None


TABLE = {
    "table.exists": "CREATE TABLE fails for a name which exists, with IF NOT EXISTS nothing is done",
    "table.refused": "what is not supported is refused: TEMPORARY, parameters, qualified names, other constraints",
    "table.columns": "the table has its name and the columns which are defined, in order, with their names, types and descriptions; names are distinct",
    "table.nulls": "a column accepts NULL unless NOT NULL or the primary key says otherwise; contradictions are refused",
    "table.default": "a column has the default value which is written, without one NULL if it accepts NULL",
    "table.key": "there is at most one PRIMARY KEY, and the primary index has its columns, in order and direction"}
KEYS = dict(lists={"keys": 3, "key": 3}, unroll=3, other=3)
RULES = [
    ("statement::table_definition", q_table, dict(lists={"elements": 2, "constraints": 1, "key": 1, "options": 1}, unroll=3, other=2), TABLE),
    ("statement::table_definition", q_table, dict(lists={"elements": 1, "constraints": 3, "key": 1, "options": 1}, unroll=3, other=2), TABLE),
    ("statement::table_definition", q_table, dict(lists={"elements": 3, "constraints": 0, "key": 2, "options": 1}, unroll=3, other=2), TABLE),
    ("process_column_value(expression_constraint)", q_default, dict(), {
        "default.value": "the default value is the expression which is written, for the type of the column: a literal or a scalar function without arguments"}),
    ("extract_column_value(expression_constraint)", q_constant, dict(), {
        "default.value": "the default value is the expression which is written, for the type of the column: a literal or a scalar function without arguments"}),
    ("process_column_value(identity_constraint)", q_identity, dict(), {
        "identity.values": "the sequence has the increment, bounds, first value and CYCLE which are written or else those of its type and direction",
        "identity.always": "GENERATED ALWAYS makes the column read only, BY DEFAULT does not"}),
    ("extract_sequence_value(expression)", q_sequence, dict(), {
        "identity.literals": "these values are integer literals in the range of the type of the column"}),
    ("statement::index_definition", q_index, KEYS, {
        "index.exists": "CREATE INDEX fails for a name which exists, with IF NOT EXISTS nothing is done",
        "index.refused": "what is not supported is refused: UNIQUE, values, predicates, parameters, qualified names",
        "index.keys": "the index has its name and table and the columns which are written, in order and direction, each once"}),
    ("statement::alter_table_statement", q_alter("analyze_table_name"), dict(), {
        "alter.exists": "ALTER acts on what is named, which must exist unless IF EXISTS is written"}),
    ("statement::alter_index_statement", q_alter("analyze_index_name"), dict(), {
        "alter.exists": "ALTER acts on what is named, which must exist unless IF EXISTS is written"}),
    ("statement::rename_table_action", q_rename("table", "find_table"), dict(), {
        "alter.rename": "a table or index gets the new name, which must not exist; primary indices cannot be renamed"}),
    ("statement::rename_index_action", q_rename("index", "find_index"), dict(), {
        "alter.rename": "a table or index gets the new name, which must not exist; primary indices cannot be renamed"}),
    ("statement::rename_column_action", q_column, dict(other=3), {
        "alter.column": "the column which is named gets the new name, which no column has; with IF EXISTS nothing is done without the column"}),
    ("statement::drop_statement", q_drop, dict(lists={"options": 2}), {
        "drop.kind": "DROP removes the table or index which is named, CASCADE is refused",
        "drop.exists": "what is dropped must exist unless IF EXISTS is written"}),
    ("statement::truncate_table_statement", q_truncate, dict(), {
        "truncate": "TRUNCATE empties the table which is named, and restarts its identity columns only if that is written"}),
]
for _n, _r in (("grant", False), ("revoke", True)):
    for _l in ({"actions": 2, "users": 2, "objects": 2}, {"actions": 1, "users": 1, "objects": 3}, {"actions": 1, "users": 3, "objects": 1}):
        RULES.append(("statement::%s_privilege_statement" % _n, q_privilege(_r), dict(lists=_l, other=2), {
            "privilege.kind": "GRANT grants and REVOKE revokes",
            "privilege.actions": "the actions are those which are written",
            "privilege.users": "they are for the users who are written, each once; all users (*) only in REVOKE",
            "privilege.objects": "they are for the tables which are written, each once"}))


def empties(P):
    return statement(P)[0] == "empty"


def makes(P):
    return not empties(P)


def constrained(k):
    def f(P):
        return makes(P) and any(P.enum(A + "statement::constraint_kind", *(q + ("body", "node_kind"))[2:]) == {k}
                                for e in P.elems("elements") for q in P.elems(*e[2:], "constraints"))
    return f


def keyed(P):
    return makes(P) and any(P.enum(A + "statement::constraint_kind", *(e + ("body", "node_kind"))[2:]) == {"primary_key"} for e in P.elems("elements"))


def given(x, b=True):
    return lambda P: P.has(x) is b


def always(b):
    return lambda P: ask(P, lambda c: c[0] == "==" and P.at("generation") in c and any(ending(y, "always") for y in c[1:])) is b


def dropped(kind_, nothing):
    return lambda P: P.enum(A + "statement::kind", "node_kind") == {"drop_%s_statement" % kind_} and empties(P) == nothing


def granted(seq, q, field, x):
    return lambda P: any(P.enum(A + "statement::" + q, *e[2:], field) == {x} for e in P.elems(seq))


# handler: (rule, what must be possible, the ways which show that it is)
POSSIBLE = {
    "statement::table_definition": [
        ("table.exists", "IF NOT EXISTS", empties), ("table.columns", "two columns", lambda P: makes(P) and len(P.elems("elements")) == 2),
        ("table.nulls", "NULL", constrained("null")), ("table.nulls", "NOT NULL", constrained("not_null")), ("table.default", "DEFAULT", constrained("default_clause")),
        ("table.default", "IDENTITY", constrained("identity_column")), ("table.key", "a PRIMARY KEY column", constrained("primary_key")), ("table.key", "a table with PRIMARY KEY", keyed)],
    "process_column_value(expression_constraint)": [("default.value", "a default value", lambda P: True)],
    "extract_column_value(expression_constraint)": [
        ("default.value", "a literal", lambda P: kinds_of(P, ("param", P.f.params[1]["n"])) == {"immediate"}),
        ("default.value", "a function", lambda P: kinds_of(P, ("param", P.f.params[1]["n"])) == {"function_call"})],
    "process_column_value(identity_constraint)": [
        ("identity.values", x, given(x)) for x in ("initial_value", "increment_value", "min_value", "max_value", "cycle")] + [
        ("identity.values", "no " + x, given(x, False)) for x in ("initial_value", "increment_value", "min_value", "max_value", "cycle")] + [
        ("identity.always", "GENERATED ALWAYS", always(True)), ("identity.always", "GENERATED BY DEFAULT", always(False))],
    "statement::index_definition": [
        ("index.exists", "IF NOT EXISTS", empties), ("index.keys", "an index without name", lambda P: makes(P) and P.has("name") is False),
        ("index.keys", "two columns", lambda P: makes(P) and len(P.elems("keys")) == 2), ("index.keys", "an index with name", lambda P: makes(P) and P.has("name"))],
    "statement::alter_table_statement": [("alter.exists", "IF EXISTS", lambda P: not acts(P)), ("alter.exists", "ALTER TABLE", lambda P: acts(P))],
    "statement::alter_index_statement": [("alter.exists", "IF EXISTS", lambda P: not acts(P)), ("alter.exists", "ALTER INDEX", lambda P: acts(P))],
    "statement::rename_table_action": [("alter.rename", "RENAME", makes)],
    "statement::rename_index_action": [("alter.rename", "RENAME", makes)],
    "statement::rename_column_action": [("alter.column", "RENAME COLUMN", makes), ("alter.column", "IF EXISTS", empties)],
    "statement::drop_statement": [
        ("drop.kind", "DROP " + x.upper(), dropped(x, False)) for x in ("table", "index")] + [("drop.exists", "DROP %s IF EXISTS" % x.upper(), dropped(x, True)) for x in ("table", "index")],
    "statement::truncate_table_statement": [("truncate", "TRUNCATE", lambda P: not P.calls("insert")), ("truncate", "RESTART IDENTITY", lambda P: bool(P.calls("insert")))],
}
for _n in ("grant", "revoke"):
    POSSIBLE["statement::%s_privilege_statement" % _n] = [
        ("privilege.actions", x, granted("actions", "privilege_action_kind", "action_kind", x)) for x in ACTIONS] + [
        ("privilege.users", x, granted("users", "privilege_user_kind", "user_kind", x)) for x in ("identifier", "public_", "current_user") + (("all_users",) if _n == "revoke" else ())] + [
        ("privilege.objects", "two tables", lambda P: len(P.elems("objects")) == 2)]


def acts(P):
    return any(x[:2] == ("call", "dispatch") for x in deep(P.v))


def noting(spec, wanted, seen):
    """spec which also notes what is possible"""
    def f(P):
        for x in wanted:
            try:
                if x not in seen and x[2](P):
                    seen.add(x)
            except (Unknown, ValueError, IndexError, TypeError, KeyError, AttributeError):
                pass
        yield from spec(P)
    return f


def a08(db, rep):
    rep.explanation = ("Every way through the translation of a statement which succeeds is followed; the columns, keys and tables which it makes are objects whose attributes are known at each step; "
                       "the statement which results is compared with what is written.")
    E = Engine(db)
    e = db.libenums.get("takatori::scalar::expression_kind")
    if e is not None:
        NAMES.update((c["n"], c["v"]) for c in e["c"])
    e = db.libenums.get("takatori::value::value_kind")
    if e is not None:
        VALUES.update((c["n"], c["v"]) for c in e["c"])
    for name, spec, kw, rules in RULES:
        for r, t in rules.items():
            rep.rule(r, t)
    possible = {}
    for name, spec, kw, rules in RULES:
        if name in OPTIONAL and name not in E.handlers:
            rep.notes.append("%s is not there" % name)
            continue
        wanted = POSSIBLE.get(name, ())
        seen = possible.setdefault(name, set())
        before = rep.counts.get("ways not understood", 0)
        run_rule(rep, E, name, noting(spec, wanted, seen), rules, limit=1000000, **kw)
        if rep.counts.get("ways not understood", 0) != before:
            seen.update(wanted)  # it may be one of these ways
    for name, seen in possible.items():
        f = E.handlers[name]
        for x in POSSIBLE.get(name, ()):
            if x not in seen:
                rep.bad(x[0], f.q, f.loc(), "%s is always refused" % x[1], "%s|%s|refused %s" % (x[0], name, x[1]))


CHECKS = {"A08": a08}

"""A03: the translation of scalar expressions keeps their SQL meaning."""
import itertools

from aval import Lin, show
from common import Broken
from mz import strip, walk, short
from paths import is_path
from terms import Terms, Unknown, value, boolean, number, negate, k_not, k_and, k_or, CMP, NEGATED, arith, deep, parts, elements
from trans import args_for, failing, NOTHING

S = "mizugaki::ast::scalar::"
DET = "mizugaki::analyzer::details::"

NUM = (None, 1, 2, 3)
TRUTH = (None, True, False)
ANY = (None, True, 7)


class Fork(Exception):
    def __init__(self, key, options):
        self.key, self.options = key, options


class Undefined(Exception):
    """the meaning of the source expression is not among those which are described here"""


class Ask:
    def __init__(self, facts, enums):
        self.facts, self.enums = facts, enums

    def get(self, key, options):
        if key not in self.facts:
            raise Fork(key, options)
        return self.facts[key]

    def flag(self, *path):
        return self.get(("flag",) + path, (True, False))

    def enum(self, q, *path, optional=False):
        return self.get(("enum", q) + path, tuple(x["n"] for x in self.enums[q]["c"]) + ((None,) if optional else ()))

    def count(self, *path):
        return self.get(("count",) + path, (1, 2))


def completions(spec, enums, facts, limit=4000):
    """every way to answer the questions of the spec which `facts` leaves open: (facts, result)"""
    todo, out = [dict(facts)], []
    while todo:
        f = todo.pop()
        try:
            r = spec(Ask(f, enums))
        except Undefined:
            r = None
        except Fork as x:
            todo += [dict(f, **{}) | {x.key: o} for o in x.options]
            if len(todo) > limit:
                raise Unknown("too many cases")
            continue
        out.append((f, r))
    return out


# ------------------------------------------------------------------------------------------------ what the source means

def compare(op, a, b):
    return None if a is None or b is None else CMP[op](a, b)


COMPARISON = {"equals": "equal", "not_equals": "not_equal", "not_equals_alternative": "not_equal", "less_than": "less", "greater_than": "greater",
              "less_than_or_equals": "less_equal", "greater_than_or_equals": "greater_equal"}


def s_unary(q):
    op = q.enum(S + "unary_operator", "operator_kind")
    x = ("operand",)
    if op == "plus":
        return {x: NUM}, lambda e: e[x]
    if op == "minus":
        return {x: NUM}, lambda e: None if e[x] is None else -e[x]
    if op == "not_":
        return {x: TRUTH}, lambda e: k_not(e[x])
    raise Undefined


def s_binary(q):
    op = q.enum(S + "binary_operator", "operator_kind")
    x, y = ("left",), ("right",)
    two = {x: NUM, y: NUM}
    ar = {"plus": "add", "minus": "subtract", "asterisk": "multiply", "solidus": "divide", "percent": "remainder", "concatenation": "concat"}
    if op in ar:
        return two, lambda e: arith(ar[op], e[x], e[y])
    if op in ("and_", "or_"):
        return {x: TRUTH, y: TRUTH}, lambda e: (k_and if op == "and_" else k_or)(e[x], e[y])
    if op in ("is", "is_not"):
        if q.enum(S + "kind", "right", "node_kind") != "literal_expression":
            raise Undefined
        k = q.enum("mizugaki::ast::literal::kind", "right", "value", "node_kind")
        n = (lambda b: not b) if op == "is_not" else (lambda b: b)
        if k == "null":
            return {x: ANY}, lambda e: n(e[x] is None)
        if k == "boolean":
            b = q.enum("mizugaki::ast::literal::boolean_kind", "right", "value", "value")
            return {x: TRUTH + (7,)}, lambda e: n(boolean(e[x]) is {"true_": True, "false_": False, "unknown": None}[b])
        raise Undefined
    raise Undefined


def s_comparison(q):
    op = COMPARISON[q.enum(S + "comparison_operator", "operator_kind")]
    return {("left",): NUM, ("right",): NUM}, lambda e: compare(op, e[("left",)], e[("right",)])


def s_quantified(q):
    op = COMPARISON[q.enum(S + "comparison_operator", "operator_kind")]
    k = {"all": "all", "any": "any", "some": "any"}[q.enum(S + "quantifier", "quantifier")]
    return {("left",): "left"}, lambda e: ("quantified", op, k, e[("left",)], ("query", ("right",)))


def s_between(q):
    t, l, r = ("target",), ("left",), ("right",)
    sym = q.enum(S + "between_operator", "operator_kind", optional=True) == "symmetric"
    neg = q.flag("is_not")

    def f(e):
        le = lambda a, b: compare("less_equal", a, b)
        x = k_and(le(e[l], e[t]), le(e[t], e[r]))
        if sym:
            x = k_or(x, k_and(le(e[r], e[t]), le(e[t], e[l])))
        return k_not(x) if neg else x
    return {t: NUM, l: NUM, r: NUM}, f


def s_in(q):
    x = ("left",)
    neg = q.flag("is_not")
    if q.enum("mizugaki::ast::query::kind", "right", "node_kind") == "table_value_constructor":
        n = q.count("right", "elements")
        es = [("right", "elements", "#%d" % i) for i in range(n)]

        def f(e):
            r = False
            for y in es:
                r = k_or(r, compare("equal", e[x], e[y]))
            return k_not(r) if neg else r
        return {p: NUM[:3] for p in [x] + es}, f
    return {x: "left"}, lambda e: ("quantified",) + (("not_equal", "all") if neg else ("equal", "any")) + (e[x], ("query", ("right",)))


def s_match(q):
    op = {"like": "like", "similar_to": "similar"}[q.enum(S + "pattern_match_operator", "operator_kind")]
    neg = q.flag("is_not")
    esc = q.flag("escape")
    ops = {("match_value",): "value", ("pattern",): "pattern"}
    if esc:
        ops[("escape",)] = "escape"

    def f(e):
        r = ("match", op, e[("match_value",)], e[("pattern",)], e[("escape",)] if esc else ("text", ""))
        return ("not", r) if neg else r
    return ops, f


def s_table(q):
    if q.enum(S + "table_operator", "operator_kind") == "exists":
        return {}, lambda e: ("exists", ("query", ("operand",)))
    raise Undefined


def s_subquery(q):
    if q.enum(S + "expression_context_kind", "context_kind") == "row":
        raise Undefined
    return {}, lambda e: ("subquery", ("query", ("query",)))


def s_cast(q):
    if q.enum(S + "cast_operator", "operator_kind") == "cast":
        return {("operand",): "operand"}, lambda e: ("cast", ("type", ("type",)), e[("operand",)])
    raise Undefined


def s_case(q):
    simple = q.flag("operand")
    n = q.count("when_clauses")
    default = q.flag("default_result")
    whens = [("when_clauses", "#%d" % i, "when") for i in range(n)]
    thens = [("when_clauses", "#%d" % i, "result") for i in range(n)]
    ops = {w: NUM[:3] if simple else TRUTH for w in whens}
    ops.update({t: "result of clause %d" % i for i, t in enumerate(thens)})
    if simple:
        ops[("operand",)] = NUM[:3]
    if default:
        ops[("default_result",)] = "default"

    def f(e):
        for w, t in zip(whens, thens):
            if (compare("equal", e[("operand",)], e[w]) if simple else e[w]) is True:
                return e[t]
        return e[("default_result",)] if default else None
    return ops, f


def s_builtin(q):
    k = q.enum(S + "builtin_function_kind", "function")
    if k == "nullif":
        x, y = ("arguments", "#0"), ("arguments", "#1")
        return {x: NUM, y: NUM}, lambda e: None if compare("equal", e[x], e[y]) is True else e[x]
    if k == "coalesce":
        xs = [("arguments", "#%d" % i) for i in range(q.count("arguments"))]

        def f(e):
            for x in xs:
                if e[x] is not None:
                    return e[x]
            return None
        return {x: NUM for x in xs}, f
    raise Undefined


SPECS = {
    "unary_expression": s_unary, "binary_expression": s_binary, "comparison_predicate": s_comparison, "quantified_comparison_predicate": s_quantified,
    "between_predicate": s_between, "in_predicate": s_in, "pattern_match_predicate": s_match, "table_predicate": s_table, "subquery": s_subquery,
    "cast_expression": s_cast, "case_expression": s_case, "builtin_function_invocation": s_builtin,
}


# ------------------------------------------------------------------------------------------------ what the translation makes of it

class Engine:
    """the functions which translate scalar expressions"""

    def __init__(self, db):
        self.db = db
        self.base = {f for f in db.fns.values() if f.body is not None and "/mizugaki/analyzer/" in f.file and not f.dep
                     and any(m["k"] == "Call" and m.get("d") is not None and m["d"].q == "mizugaki::ast::scalar::dispatch" for m in walk(f.body))}
        if not self.base:
            raise Broken("the dispatch over scalar expressions is not found")
        self.file = next(iter(self.base)).file
        cls = {f.d.rec for f in self.base}
        self.keep = set(self.base)
        for f in db.fns.values():
            if f.body is None or f.dep or f.file != self.file:
                continue
            ps = {p["d"] for p in f.params if strip(p["d"].t or "") == "mizugaki::ast::scalar::expression"}
            if ps and any(m["k"] == "Call" and m.get("d") is not None and db.fn_of(m["d"]) in self.base and any(c["k"] == "Ref" and c.get("d") in ps for c in m.get("c", ()))
                          for m in walk(f.body)):
                self.keep.add(f)
        self.handlers = {}
        for f in db.fns.values():
            if f.body is not None and not f.dep and f.n == "operator()" and f.d.rec in cls and f.file == self.file and f.params:
                t = strip(f.params[0]["d"].t or "")
                if t.startswith(S):
                    self.handlers[t[len(S):]] = f

    def inline(self, g):
        if g.file != self.file or g in self.keep or "declaration" in (g.d.rt or ""):
            return False
        return any("mizugaki::ast::" in (p["d"].t or "") or "takatori::scalar::" in (p["d"].t or "") or "takatori::relation::" in (p["d"].t or "") for p in g.params)

    def run(self, f, other=1):
        T = Terms(self.db, inline=self.inline)
        T.other = other
        return T, T.run(f, args_for(f))

    def sub_of(self, T, t):
        """(what translates it, path) of the translated part"""
        if isinstance(t, tuple) and t and t[0] == "call":
            d = T.callees.get(t)
            g = self.db.fn_of(d) if d is not None else None
            ps = [x for x in t[2:] if is_path(x)]
            if len(ps) == 1:
                if g in self.keep or t[1] == "analyze_scalar_expression":
                    return "value", ps[0][2:]
                if t[1] == "analyze_type":
                    return "type", ps[0][2:]
                if t[1] == "analyze_query_expression":
                    return "query", ps[0][2:]
        return None, None


def facts_of(T, st, root, enums, asked):
    """what the path assumes of the syntax tree, as answers to questions"""
    facts = {}
    lengths = {}
    for c, b in st.cond:
        if is_path(c) and c[1] == root:
            facts[("flag",) + c[2:]] = b
        if isinstance(c, tuple) and c[:1] == ("nonempty",) and is_path(c[1]):
            lengths[c[1]] = max(lengths.get(c[1], 0), 1 if b else 0)
        if isinstance(c, tuple) and c[:1] == ("more",) and is_path(c[1]) and b:
            lengths[c[1]] = max(lengths.get(c[1], 0), c[2] + 2)
    for p, n in lengths.items():
        facts[("count",) + p[2:]] = n
    return facts


def narrow(T, st, root, key, options, enums):
    """the options of an enumeration which the path allows"""
    p = ("path", root) + key[2:]
    allowed, excluded = T.values(p, st)
    num = {x["n"]: x["v"] for x in enums[key[1]]["c"]}
    there = st.known(p)
    out = []
    for o in options:
        if o is None:
            if allowed is not None or there is True:
                continue
        else:
            if there is False or allowed is not None and num[o] not in allowed or num[o] in excluded:
                continue
        out.append(o)
    return out


def cases(T, st, root, spec, enums):
    """the completions of the path's assumptions"""
    todo, out = [facts_of(T, st, root, enums, None)], []
    while todo:
        f = todo.pop()
        try:
            r = spec(Ask(f, enums))
        except Undefined:
            r = None
        except Fork as x:
            opts = narrow(T, st, root, x.key, x.options, enums) if x.key[0] == "enum" else x.options
            todo += [f | {x.key: o} for o in opts]
            continue
        out.append((f, r))
    return out


def tell(f):
    return ", ".join("%s %s" % (".".join(k[2:] if k[0] == "enum" else k[1:]), {True: "given", False: "not given"}.get(v, v) if not isinstance(v, int) or isinstance(v, bool) else "of %d" % v)
                     for k, v in f.items() if k[0] != "flag" or len(k) == 2) or "always"


def meaning(db, rep):
    E = Engine(db)
    done = 0
    for cls, spec in SPECS.items():
        f = E.handlers.get(cls)
        if f is None:
            rep.bad("accepted", S[len("mizugaki::"):] + cls, E.file.split("/repo/")[-1], "no translation of %s is left" % cls)
            continue
        done += 1
        T, R = E.run(f)
        root = f.params[0]["n"]
        covered = []
        seen = {}
        n = 0
        for kind, v, st in R:
            if kind != "ret" or failing(v):
                continue
            try:
                cs = cases(T, st, root, spec, db.enums)
            except KeyError as x:
                raise Broken("enumeration %s is not found" % x)
            qs = [e for e in st.eff if e[:2] == ("call", "analyze_query_expression")]
            for facts, r in cs:
                covered.append(facts)
                label = "%s: %s" % (cls, tell(facts))
                try:
                    m = judge(E, T, v, r, qs, st)
                except Unknown as x:
                    rep.notes.append("%s is not decided: %s" % (label, str(x)[:120]))
                    rep.count("paths not decided")
                    continue
                if r is None and m is None:
                    continue
                n += 1
                rep.count("cases compared")
                seen.setdefault(label, m)
                if m is not None:
                    seen[label] = m
        for label, m in seen.items():
            rep.check(m is None, "meaning", label, f.loc(), m)
        want = [x for x, r in completions(spec, db.enums, {}) if r is not None]
        for w in want:
            hit = any(all(c.get(k, v) == v for k, v in w.items()) for c in covered)
            rep.check(hit, "accepted", "%s: %s" % (cls, tell(w)), f.loc(), "no way through the translation of %s succeeds for this form" % cls)
    rep.counts["classes"] = done


def judge(E, T, v, r, qs, st):
    """None if the term v means what r says; a message if not"""
    ops = {}
    missing = []

    def sub_for(env):
        def sub(t):
            if isinstance(t, tuple) and t[:1] == ("query",):
                return the_query(E, T, t, qs, st)
            what, p = E.sub_of(T, t)
            if what == "value":
                if p in env:
                    return env[p]
                if r is None:
                    return env.setdefault(p, 1)
                raise Wrong("it uses %s" % (".".join(p) or "?"))
            if what == "type":
                return ("type", p)
            raise Unknown(show(t)[:100])
        return sub

    if r is None:
        for x in NUM:
            try:
                got = value(v, sub_for({}))
            except (Wrong, TypeError):
                return None
            if isinstance(got, tuple):
                return None
        return "it is given the meaning of another expression"
    ops, fn = r
    fixed = {p: ("value", d) for p, d in ops.items() if isinstance(d, str)}
    var = [p for p, d in ops.items() if not isinstance(d, str)]
    counts = {}
    for x in deep(v):
        if x[:1] == ("call",):
            w, p = E.sub_of(T, x)
            if w == "value":
                counts[p] = counts.get(p, 0) + 1
    for combo in itertools.product(*(ops[p] for p in var)):
        env = dict(fixed)
        env.update(zip(var, combo))
        try:
            want = fn(env)
        except TypeError:
            want = ILL
        try:
            got = value(v, sub_for(env))
        except Wrong as x:
            return str(x)
        except TypeError as x:
            got = ILL
        if got != want or isinstance(got, bool) != isinstance(want, bool):
            return "for %s the translated expression yields %s instead of %s" % (
                ", ".join("%s = %s" % (".".join(p), say(env[p])) for p in ops) or "every operand", say(got), say(want))
    return None


ILL = "an error (its operand has the wrong type)"


class Wrong(Exception):
    pass


def say(x):
    return "NULL" if x is None else str(x).upper() if isinstance(x, bool) else x[1] if isinstance(x, tuple) and x[:1] == ("value",) else str(x)


def the_query(E, T, t, qs, st):
    _, graph, params, column, q = t
    if q is None:
        ids = {x for x in qs}
        if len(ids) != 1:
            raise Unknown("query")
        q = ("call",) + tuple(list(ids)[0][1:])
    what, p = E.sub_of(T, q)
    ps = [x for x in q[2:] if is_path(x)]
    if len(ps) != 1:
        raise Unknown("query")
    p = ps[0][2:]
    if graph not in q[2:]:
        raise Wrong("it has a query whose plan is not the one of the expression")
    scopes = [x for x in q[2:] if isinstance(x, tuple) and x[:1] in (("new",), ("init",), ("var",)) and "query_scope" in str(x[1])]
    if len(scopes) != 1:
        raise Unknown("scope of the query")
    sc = scopes[0]
    if not any(x[:1] == ("enum",) and str(x[1]).endswith("query_scope_feature::correlation") or x == ("enum", "correlation") for x in deep(sc) if len(x) > 1):
        raise Wrong("it has a query whose references to outer columns are not recorded")
    if not any(x == ("field0", "scope_") or x[:1] in (("field0",), ("param",), ("path",)) and "scope" in str(x[-1]) for x in deep(sc)):
        raise Wrong("it has a query which does not see the outer columns")
    lst = ("nonempty", ("call", "list_parameters", sc))
    k = st.known(lst)
    if k is None:
        raise Wrong("it has a query whose references to outer columns are lost")
    want = 0 if not k else 1 + sum(1 for c, b in st.cond if isinstance(c, tuple) and c[:2] == ("more", lst[1]) and b)
    es = elements(params)
    if len(es) != want:
        raise Wrong("it has a query some of whose references to outer columns are lost")
    for i, e in enumerate(es):
        a, b = parts(e)
        if side(a) is None or side(b) is None:
            raise Unknown("parameters of the query")
        if (side(a), side(b)) != (0, 1):
            raise Wrong("it has a query whose references to outer columns are swapped")
    if column is not None:
        one = any(isinstance(c, tuple) and len(c) == 3 and c[:1] in (("!=",), ("==",)) and b == (c[0] == "==") and Lin((), 1) in c[1:] and q in list(deep(c))
                  and any(x[:2] == ("call", "size") for x in deep(c)) for c, b in st.cond)
        if not one:
            raise Wrong("it has a query which may have any number of columns")
    return ("query", p)


def side(x):
    while isinstance(x, tuple) and x[:1] in (("new",), ("init",)) and len(x) == 3:
        x = x[2]
    if isinstance(x, tuple) and x[:1] == ("bind",):
        return x[1]
    if isinstance(x, tuple) and x[:1] == ("mem",) and x[-1] in ("first", "second"):
        return 0 if x[-1] == "first" else 1
    if isinstance(x, tuple) and x[:1] == ("call",) and x[1] in ("source", "first"):
        return 0
    if isinstance(x, tuple) and x[:1] == ("call",) and x[1] in ("destination", "second"):
        return 1
    return None


def a03(db, rep):
    rep.rule("meaning", "on every way through the translation of a scalar expression which succeeds, the plan expression has the value the source expression has in SQL, "
             "for every value of its operands, NULL included", 60)
    rep.rule("accepted", "every form of the expression which has a translation keeps one", 60)
    meaning(db, rep)


CHECKS = {"A03": a03}

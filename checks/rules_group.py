"""A06: how set functions and GROUP BY are taken out of the expressions of a query."""
import re

from aval import Lin
from common import Broken
from mz import strip, walk
from paths import is_path
from plans import Plans, Graph
from terms import deep
from trans import args_for, failing

P = "mizugaki::analyzer::details::set_function_processor"
S = "takatori::scalar::"
Y = "yugawara::extension::scalar::"

# the sub expressions of every kind of expression: (list or None, part or None)
WALK = {
    S + "cast": [(None, "operand")],
    S + "unary": [(None, "operand")],
    S + "binary": [(None, "left"), (None, "right")],
    S + "compare": [(None, "left"), (None, "right")],
    S + "match": [(None, "input"), (None, "pattern"), (None, "escape")],
    S + "conditional": [("alternatives", "condition"), ("alternatives", "body"), (None, "default_expression")],
    S + "coalesce": [("alternatives", None)],
    S + "let": [("variables", None), (None, "body")],
    S + "function_call": [("arguments", None)],
    Y + "aggregate_function_call": [("arguments", None)],
    Y + "quantified_compare": [(None, "left")],
    Y + "subquery": [],
    Y + "exists": [],
    S + "immediate": [],
    S + "variable_reference": [],
}
OPTIONAL = {"default_expression"}
PARAMETERS = (Y + "quantified_compare", Y + "subquery", Y + "exists")


def bare(v):
    while isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        v = v.t[0][0]
    return v


def part(v, root, own=False):
    """((list, part), index) of the sub expression v of root, of its owner if own"""
    v = bare(v)
    pre = "ownership"
    if not isinstance(v, tuple):
        return None
    if v[:1] == ("call",) and own:
        if len(v) == 4 and v[1] == pre:
            l, i = place(v[3])
            return ((l[1], None), i) if l is not None and l == v[2] and l[:1] == ("call",) and l[2:] == (root,) else None
        if len(v) != 3 or not v[1].startswith(pre + "_"):
            return None
        v = ("call", v[1][len(pre) + 1:], v[2])
        if v[1] == "value":
            v = v[2]
    l, i = place(v)
    if l is not None:
        return ((l[1], None), i) if l[:1] == ("call",) and l[2:] == (root,) else None
    if v[:1] == ("call",) and len(v) == 3:
        if v[2] == root:
            return (None, v[1]), 0
        l, i = place(v[2])
        if l is not None and l[:1] == ("call",) and l[2:] == (root,):
            return (l[1], None if v[1] == "value" else v[1]), i
    return None


def place(v):
    """(list, index) of an element"""
    if isinstance(v, tuple) and v[:1] in (("elem",), ("iter",)):
        return v[1], v[2] if len(v) > 2 else 0
    if isinstance(v, tuple) and v[:1] == ("call",) and len(v) == 3 and v[1] in ("begin", "cbegin"):
        return v[2], 0
    if isinstance(v, tuple) and v[:1] == ("call",) and len(v) == 4 and v[1] in ("operator[]", "at"):
        return v[2], v[3].const() if isinstance(v[3], Lin) else v[3]
    return None, None


def element(v):
    """the list of which v is an element"""
    return place(v)[0]


def length(st, l):
    n = 1 if st.known(("nonempty", l)) else 0
    while n and st.known(("more", l, n - 1)):
        n += 1
    return n


def name(p):
    return "every %s%s" % ("of the " + p[0] if p[1] is None else p[1] + " of the ", "" if p[1] is None else p[0]) if p[0] else p[1]


def plural(p):
    return p[1] if p[0] is None else p[0] if p[1] is None else "%s of %s" % (p[1], p[0])


class Way:
    def __init__(self, v, st):
        self.v, self.st = bare(v) if v is not None else None, st
        self.reported = any(e[0] == "report" for e in st.eff)
        self.err = st.env.get(("f", ("this",), "saw_error_"))
        self.before = any(b and c == ("field0", "saw_error_") for c, b in st.cond)

    def calls(self, nm):
        return [(i, e[2:]) for i, e in enumerate(self.st.eff) if e[0] == "call" and e[1] == nm]

    def asked(self, nm, *args):
        """answer of processor.nm(args)"""
        for c, b in self.st.cond:
            c = bare(c)
            if isinstance(c, tuple) and c[:2] == ("call", nm) and tuple(c[-len(args):]) == args:
                return b
        return None

    def depth0(self, d):
        """whether the depth is 0"""
        for c, b in self.st.cond:
            if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!=", "<", "<=") and any(bare(x) == d for x in c[1:]):
                o = c[2] if bare(c[1]) == d else c[1]
                o = o.const() if isinstance(o, Lin) else o
                left = bare(c[1]) == d
                if c[0] == "==" and o == 0:
                    return b
                if c[0] == "!=" and o == 0:
                    return not b
                if c[0] == "<" and (left and o == 1 or not left and o == 0):
                    return b if left else not b
                if c[0] == "<=" and (left and o == 0 or not left and o == 1):
                    return b if left else not b
            elif bare(c) == d:
                return not b
        return None


def deeper(x, d):
    """how much deeper than d"""
    if isinstance(x, Lin):
        if bare(x) == d:
            return 0
        if len(x.t) == 1 and x.t[0] == (d, 1):
            return x.c
        x = bare(x)
    if x == d:
        return 0
    if isinstance(x, tuple) and x[:1] == ("bin+",) and any(bare(y) == d for y in x[1:]):
        o = [y for y in x[1:] if bare(y) != d][0]
        return o.const() if isinstance(o, Lin) else o
    return None


def same_file(f):
    return lambda g: g.file == f.file and g.n != "operator()" and g.d.rec == f.d.rec


def ways(db, f, inline, **kw):
    T = Plans(db, inline=inline, succeed=False, limit=400000, **kw)
    return [(k, v, st) for k, v, st in T.run(f, args_for(f)) if k in ("ret", "next")]


def handlers(db, rep):
    fs = [f for f in db.fns.values() if f.body is not None and not f.dep and f.n == "operator()" and f.file.endswith("/set_function_processor.cpp") and len(f.params) == 2]
    by = {strip(f.params[0]["d"].t or "").replace("const ", "").rstrip(" &"): f for f in fs}
    if len(by) < 5:
        raise Broken("the walk over expressions is not found")
    for kind, want in WALK.items():
        short = kind.split("::")[-1]
        f = by.get(kind)
        if f is None:
            if S + "expression" in by:
                rep.bad("group.walk", by[S + "expression"].q, by[S + "expression"].loc(), "%s is refused in queries with set functions" % short, "group.walk|%s" % short)
            continue
        root = ("param", f.params[0]["n"])
        d = ("param", f.params[1]["n"])
        agg = kind == Y + "aggregate_function_call"
        bad = set()
        seen = set()
        n = most = 0
        R = ways(db, f, same_file(f), unroll=2, other=2)
        for k, v, st in R:
            w = Way(v, st)
            n += 1
            if agg and w.depth0(d) is not True and not w.reported and not w.before:
                bad.add(("group.nested", "a set function in the argument of a set function is accepted"))
            if w.reported:
                if w.err is not True:
                    bad.add(("group.error", "an error is reported and the query is accepted"))
                if kind == S + "immediate" or agg and w.depth0(d) is True:
                    bad.add(("group.walk", "a valid %s is refused" % short))
            if (w.v is not True) if agg and not w.reported else (w.v is not False and not failing(w.v)):
                bad.add(("group.walk", "the %s is %s" % (short, "not replaced by its aggregated value" if agg else "replaced by an aggregated value")))
            if w.before:
                continue
            went = {}
            for i, a in w.calls("dispatch"):
                x = part(a[1], root)
                if x is None:
                    continue
                seen.add(x[0])
                if x in went:
                    bad.add(("group.walk", "%s: one is searched twice" % plural(x[0])))
                went[x] = next((b for c, b in st.cond if bare(c)[:2] == ("call", "dispatch") and bare(c)[3] == a[1]), None)
                dd = deeper(a[2], d)
                if dd != (1 if agg else 0):
                    bad.add(("group.depth", "%s: the columns there are checked like those %s set functions" % (plural(x[0]), "outside" if agg else "inside")))
                if x[0] not in want:
                    bad.add(("group.walk", "the part %s" % plural(x[0])))
            owned = [part(a[-1], root, True) for _, a in w.calls("consume")]
            for x in went:
                if went[x] and x not in owned:
                    bad.add(("group.walk", "a set function in %s is not replaced" % plural(x[0])))
                if not went[x] and x in owned:
                    bad.add(("group.walk", "%s is replaced without being a set function" % plural(x[0])))
            for x in owned:
                if x not in went:
                    bad.add(("group.walk", "the wrong part is replaced by an aggregated value"))
            if w.reported and not (kind in PARAMETERS):
                continue
            for x in want:
                n_ = 1 if x[0] is None else length(st, ("call", x[0], root))
                if x[1] in OPTIONAL and not any(b and bare(c) == ("call", x[1], root) for c, b in st.cond):
                    if any(not b and bare(c) == ("call", x[1], root) for c, b in st.cond):
                        continue
                for i in range(n_):
                    if (x, i) not in went and w.err is not True:
                        bad.add(("group.walk", "set functions in %s are not found" % plural(x)))
            if kind in PARAMETERS:
                ps = length(st, ("call", "parameters", root))
                most = max(most, ps)
                judged = [visible(w, ("call", "source", ("elem", ("call", "parameters", root), i)), d, short) for i in range(ps)]
                if ps and (w.reported or ps == 1):  # one of them is the reason
                    bad |= min(judged, key=len)
                elif ps:
                    bad |= set().union(*judged)
            if kind == S + "variable_reference":
                var = ("call", "variable", root)
                stream = [b if c[0] == "==" else not b for c, b in st.cond if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!=") and any(
                    isinstance(y, tuple) and y[:1] == ("enum",) and y[1].endswith("::stream_variable") for y in c[1:])]
                if stream and stream[0] is False:
                    if w.reported:
                        bad.add(("group.visible", "a variable which is no column of the query is refused"))
                else:
                    bad |= visible(w, var, d, short)
        if kind in PARAMETERS and not most:
            bad.add(("group.visible", "%s: the columns of the query which the subquery refers to are not checked" % short))
        for x in want:
            if x not in seen:
                bad.add(("group.walk", "set functions in %s are not found" % plural(x)))
        rep.count("ways", n)
        for r in ("group.walk", "group.depth", "group.error") + (("group.visible",) if kind in PARAMETERS or short == "variable_reference" else ()) + (("group.nested",) if agg else ()):
            ms = sorted({m for rr, m in bad if rr == r})
            if not ms:
                rep.ok(r, "%s of %s" % (f.n, short), f.loc())
            for m in ms:
                rep.bad(r, "%s of %s" % (f.q, short), f.loc(), m, "%s|%s|%s" % (r, short, m))


def visible(w, var, d, short):
    """SQL: outside of set functions a column is a key of GROUP BY or aggregated, inside it is no aggregated one"""
    out = set()
    g = w.asked("is_grouping", var)
    a = w.asked("is_aggregated", var)
    z = w.depth0(d)
    for zero in ([z] if z is not None else [True, False]):
        for gg in ([g] if g is not None else [True, False]):
            for aa in ([a] if a is not None else [True, False]):
                want = not gg and not aa if zero else aa
                if want != w.reported and not (gg and aa):
                    out.add(("group.visible", "%s: a column which is %s %s %s of a set function" % (
                        short, "a key of GROUP BY" if gg else "aggregated" if aa else "neither a key of GROUP BY nor aggregated", "refused" if w.reported else "accepted", "outside" if zero else "in the argument")))
    return out


# ------------------------------------------------------------------------------------------------ what the aggregation gets

def numbers(own):
    """{kind: its extension_tag} of those which are named"""
    r = {}
    for f in own:
        for n in walk(f.body):
            if n["k"] in ("Ref", "Mem") and n.get("d") is not None and n["d"].n == "extension_tag":
                m = re.search(r"<([\w:]+), *(\d+)>::extension_tag$", n["d"].q or "")
                if m:
                    r[m.group(1)] = int(m.group(2))
    return r


def handled(itp, n, av, st):
    d = n.get("d") if n["k"] in ("Call", "Op") else None
    if d is None or d.n != "operator()" or len(av) < 2:
        return None
    g = itp.db.fn_of(d)
    if g is None or len(g.params) != 2:
        return None
    kind = strip(g.params[0]["d"].t or "").replace("const ", "").rstrip(" &")
    return [(("handled", kind), st.effect(("handled", kind) + tuple(av[-2:])))]


def tags(db, rep, own):
    """the extension of expressions: every known one gets to its own rule"""
    for f in own:
        if f.n != "operator()" or len(f.params) != 2 or "scalar::extension" not in (f.params[0]["d"].t or ""):
            continue
        e, d = (("param", p["n"]) for p in f.params)
        got = {}
        num = numbers(own)
        bad = set()
        n = 0
        T = Plans(db, inline=same_file(f), succeed=False, model=lambda itp, fr, nn, name, rv, av, st: handled(itp, nn, av, st))
        for k, v, st in T.run(f, args_for(f)):
            if k not in ("ret", "next"):
                continue
            n += 1
            w = Way(v, st)
            calls = [x for x in st.eff if x[0] == "handled"]
            if w.reported and w.err is not True:
                bad.add(("group.error", "an error is reported and the query is accepted"))
            if len(calls) != 1:
                if calls or not w.reported:
                    bad.add(("group.walk", "an expression is accepted without looking into it"))
                continue
            _, kind, a, dd = calls[0]
            if a != e:
                bad.add(("group.walk", "another expression is looked at"))
            if deeper(dd, d) != 0:
                bad.add(("group.depth", "the columns in %s are checked with another depth" % kind.split("::")[-1]))
            if w.v != ("handled", kind):
                bad.add(("group.walk", "%s is %s" % (kind.split("::")[-1], "replaced by an aggregated value" if w.v is True else "not replaced although it is a set function")))
            got.setdefault(kind, set()).update(
                x for c, b in st.cond if b and isinstance(c, tuple) and c[:1] == ("in",) and c[1] in (("call", "extension_id", e), bare(("call", "extension_id", e))) for x in c[2])
        for kind in WALK:
            if kind.startswith(Y):
                tag = kind.split("::")[-1]
                if kind not in got:
                    bad.add(("group.walk", "%s is refused in queries with set functions" % tag))
                elif got[kind] - {num.get(kind)}:
                    bad.add(("group.walk", "another kind of expression is looked at as %s" % tag))
        rep.count("ways", n)
        for r in ("group.walk", "group.depth", "group.error"):
            ms = sorted({m for rr, m in bad if rr == r})
            if not ms:
                rep.ok(r, f.q, f.loc())
            for m in ms:
                rep.bad(r, f.q, f.loc(), m, "%s|extension|%s" % (r, m))


def member(v, *names):
    return isinstance(v, tuple) and v[:1] in (("field0",),) and v[1].rstrip("_") in names


def a06(db, rep):
    rep.explanation = ("Every way through the functions which take set functions out of expressions is followed: which part of each kind of expression is searched, "
                       "what replaces a set function, what the aggregation gets, and where it is put into the plan.")
    rep.rule("group.walk", "every part of every kind of expression is searched for set functions, and exactly the set functions found there are replaced", 10)
    rep.rule("group.depth", "only the arguments of set functions are taken as such", 10)
    rep.rule("group.error", "what is reported fails the query", 10)
    rep.rule("group.visible", "outside of set functions only keys of GROUP BY and aggregated values can be used, inside no aggregated values")
    rep.rule("group.nested", "set functions in the arguments of set functions are refused")
    rep.rule("group.root", "the expression itself can be a set function, and an error in it fails the query")
    rep.rule("group.consume", "a set function becomes an aggregated column of the same function and the same arguments, which replaces it")
    rep.rule("group.argument", "an argument is computed below the aggregation and replaced by its variable")
    rep.rule("group.shared", "two set functions share an aggregated column only if the function and all arguments are the same")
    rep.rule("group.key", "every key of GROUP BY is a key of the aggregation")
    rep.rule("group.install", "the arguments and then the aggregation are put between the source and what follows it")
    handlers(db, rep)
    own = [f for f in db.fns.values() if f.body is not None and not f.dep and f.file.endswith("/set_function_processor.cpp")]

    tags(db, rep, own)

    def judge(rid, f, spec, inline=None, **kw):
        bad = set()
        n = 0
        for k, v, st in ways(db, f, inline or (lambda g: g.file == f.file and g.n != "operator()"), **kw):
            n += 1
            bad |= set(spec(Way(v, st)))
        rep.count("ways", n)
        if not bad:
            rep.ok(rid, f.q, f.loc())
        for m in sorted(bad):
            rep.bad(rid, f.q, f.loc(), m, "%s|%s" % (rid, m))

    # the expression itself
    for f in own:
        if f.n == "process" and f.d.rec != P and len(f.params) == 1:
            o = ("param", f.params[0]["n"])

            def root(w, o=o):
                if w.before:
                    if not failing(w.v) and w.v is not False:
                        yield "an error in the expression does not fail the query"
                    return
                went = [a for _, a in w.calls("dispatch")]
                if len(went) != 1 or o not in tuple(deep(went[0][1])) + (went[0][1],):
                    yield "the expression is not searched"
                    return
                dd = went[0][2].const() if isinstance(went[0][2], Lin) else went[0][2]
                if dd != 0:
                    yield "the expression is taken as argument of a set function"
                is_set = next((b for c, b in w.st.cond if bare(c)[:2] == ("call", "dispatch")), None)
                if is_set is None:
                    yield "it is not asked whether the expression is a set function"
                elif is_set != any(o in tuple(deep(a[-1])) + (a[-1],) for _, a in w.calls("consume")):
                    yield "the expression is %s" % ("not replaced although it is a set function" if is_set else "replaced although it is no set function")
            judge("group.root", f, root, same_file(f))
    # keys
    for f in own:
        if f.q == P + "::add_group_key":
            c = ("param", f.params[0]["n"])

            def key(w, c=c):
                known = next((b == (x[0] == "!=") for x, b in w.st.cond if isinstance(x, tuple) and len(x) == 3 and x[0] in ("==", "!=") and "grouping_columns_" in str(x)), None)
                known = known if known is not None else next((b for x, b in w.st.cond if isinstance(x, tuple) and x[:1] == ("call",) and x[1] in ("contains", "count") and "grouping_columns_" in str(x)), False)
                keys = [e for e in w.st.eff if e[0] == "add" and e[2] == "group_keys" and e[3:] == (c,) or e[0] == "call" and e[1] in ("emplace_back", "push_back") and e[2][:2] == ("call", "group_keys") and e[3:] == (c,)]
                marks = [e for e in w.st.eff if e[0] == "call" and e[1] in ("insert", "emplace") and member(e[2], "grouping_columns") and c in e[3:]]
                if bool(keys) == known:
                    yield "the key is added %s" % ("again" if known else "not at all")
                if not known and not marks:
                    yield "the column is not known as key of GROUP BY"
                on = w.st.env.get(("f", ("this",), "active_"))
                if not known and on is not True:
                    yield "the rows are not grouped"
            judge("group.key", f, key)
    # replacement
    for f in own:
        if f.q == P + "::replace_argument":
            c = ("param", f.params[0]["n"])

            def argument(w, c=c):
                ex = [a for _, a in w.calls("exchange")]
                adds = [e[-2:] for e in w.st.eff if e[0] == "add" and e[2] == "columns" or e[0] == "call" and e[1] in ("emplace_back", "push_back") and e[2][:2] == ("call", "columns")]
                if len(ex) != 1 or ex[0][0] != c or w.v not in deep(ex[0][1]):
                    yield "the argument is not replaced by its variable"
                elif len(adds) != 1 or ("call", "exchange") + tuple(ex[0]) not in adds[0] or w.v not in adds[0]:
                    yield "the argument is not computed into its variable"
            judge("group.argument", f, argument)
        if f.q == P + "::find_aggregation":
            fn, args = (("param", p["n"]) for p in f.params)

            def shared(w, fn=fn, args=args):
                if failing(w.v):
                    return
                e = [x for x in deep(w.v) if x[:2] == ("call", "destination")]
                if len(e) != 1:
                    yield "another column than that of the aggregation is used"
                    return
                e = e[0][2]

                def same(x, y):
                    for c, b in w.st.cond:
                        if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!=") and {bare(c[1]), bare(c[2])} == {x, y}:
                            return b == (c[0] == "==")
                    return None
                if same(("call", "function", e), fn) is not True:
                    yield "the function is not compared"
                own_args = ("call", "arguments", e)
                if same(own_args, args) is True or any(b and isinstance(bare(x), tuple) and bare(x)[:2] == ("call", "equal") and own_args in deep(x) and args in deep(x) for x, b in w.st.cond):
                    return
                if same(("call", "size", own_args), ("call", "size", args)) is not True:
                    yield "the number of arguments is not compared"
                ns = set()
                for c, b in w.st.cond:
                    if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!="):
                        x, y = (place(bare(z)) for z in c[1:])
                        if {repr(x[0]), repr(y[0])} == {repr(own_args), repr(args)} and b == (c[0] == "=="):
                            if x[1] != y[1]:
                                yield "an argument is compared with another one"
                            ns.add(x[1])
                if not ns >= set(range(max(length(w.st, args), length(w.st, own_args)))):
                    yield "the arguments are not compared"
            judge("group.shared", f, shared, unroll=2, other=2)
        if f.q == P + "::consume":
            c = ("param", f.params[0]["n"])

            def consume(w, c=c):
                sets = [a for _, a in w.calls("set") if a[0] == c]
                adds = [e[3:] for e in w.st.eff if e[0] == "add" and e[2] == "columns" or e[0] == "call" and e[1] in ("emplace_back", "push_back") and e[2][:2] == ("call", "columns")]
                found = next((v for v in (bare(x) for x, b in w.st.cond if b) if isinstance(v, tuple) and v[:2] == ("call", "find_aggregation")), None)
                reps = [a for _, a in w.calls("replace_argument")]
                if len(sets) != 1:
                    yield "the set function is not replaced"
                    return
                if found is not None:
                    if adds:
                        yield "the set function is aggregated again"
                    if found not in deep(sets[0][1]):
                        yield "the set function is replaced by another column"
                    args = found[-1]
                    fn = found[-2]
                else:
                    if len(adds) != 1 or len(adds[0]) != 3:
                        yield "no column is aggregated for the set function"
                        return
                    fn, args, var = adds[0]
                    if var not in deep(sets[0][1]):
                        yield "the set function is replaced by another column"
                    if not any(member(a[0], "aggregated_columns") and var in a for nm in ("insert", "emplace") for _, a in w.calls(nm)):
                        yield "the column is not known as aggregated"
                if not any(x == ("call", "function", c) for x in deep(fn)) and bare(fn) != ("call", "function", c):
                    yield "another function is aggregated"
                own_args = ("call", "arguments", c)
                want = list(range(length(w.st, own_args)))
                got = []
                for a in reps:
                    o = bare(a[-1])
                    l, i = place(o[3]) if isinstance(o, tuple) and len(o) == 4 and o[:2] == ("call", "ownership") else (None, None)
                    got.append(i if l == own_args and o[2] == own_args else None)
                if args[:1] != ("vec",) or got != want or [bare(x) for x in args[2]] != [("call", "replace_argument") + tuple(a) for a in reps]:
                    yield "the arguments are not those of the set function, in order"
                if w.st.env.get(("f", ("this",), "active_")) is not True:
                    yield "the rows are not aggregated"
            judge("group.consume", f, consume, lambda g: g.file == f.file and g.n not in ("operator()", "replace_argument", "find_aggregation"), unroll=2, other=2)
        if f.q == P + "::install":
            c = ("param", f.params[0]["n"])

            def install(w, c=c):
                if failing(w.v):
                    return
                st = w.st
                has = {}
                for m in ("arguments_", "aggregations_"):
                    has[m] = next((b for x, b in st.cond if x == ("field0", m)), None)
                active = next((b for x, b in st.cond if x == ("field0", "active_")), None)
                want = []
                if has["arguments_"] is not False:
                    want.append(("field0", "arguments_"))
                if has["aggregations_"] is not False:
                    want.append(("field0", "aggregations_"))
                else:
                    made = [e[1] for e in st.eff if e[0] == "op" and e[1][1].endswith("aggregate")]
                    want += made[:1]
                    if active is not False and not made:
                        yield "the rows are not aggregated into one when there is no set function"
                links = {}
                for e in st.eff:
                    if e[0] == "connect":
                        links[e[2]] = e[1]
                        links[e[1]] = e[2]
                    if e[0] == "call" and e[1] == "connect_to":
                        links[e[2]] = e[3]
                        links[e[3]] = e[2]
                cur = c
                for o in want:
                    nxt = links.get(cur)
                    if nxt not in (("port", o, "input"), ("call", "input", o)):
                        yield "the %s not put behind %s" % ("arguments are" if o == ("field0", "arguments_") else "aggregation is", "the source" if cur == c else "the arguments")
                        return
                    cur = ("port", o, "output") if nxt[0] == "port" else ("call", "output", o)
                    if cur not in links and ("call", "output", o) in links:
                        cur = ("call", "output", o)
                next_ = ("call", "opposite", c)
                follows = next((b for x, b in st.cond if x == next_), None)
                if follows is not False:
                    gone = [e for e in st.eff if e[0] in ("call", "disconnect") and "disconnect" in str(e[:2]) and next_ in e]
                    if links.get(cur) != next_ and not (cur == c and not gone):
                        yield "what follows the source is not put behind the aggregation"
                if w.v != cur:
                    yield "the result is not the output of the aggregation"
            judge("group.install", f, install)


CHECKS = {"A06": a06}

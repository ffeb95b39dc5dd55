"""A04: a function call reaches a declared function which accepts its arguments, and gets them in order."""
import itertools

from aval import Lin, show, St
from common import Broken
from mz import strip, walk, short
from paths import is_path
from rules_scalar import Engine, S, failing, narrow
from terms import Terms, Unknown, deep, elements
from trans import args_for

TYPES = "std::vector<std::shared_ptr<const takatori::type::data>>"
FIELDS = {  # EXTRACT: the function which is called for a field
    k: "extract_" + k for k in ("year", "month", "day", "hour", "minute", "second", "timezone_hour", "timezone_minute", "year_to_month", "year_to_day", "year_to_hour",
                                "year_to_minute", "year_to_second")} | {"date": "date"}
ZONE = {"timezone_hour", "timezone_minute"}
DATE = {"year", "month", "day", "date", "year_to_month", "year_to_day"}
TIME = {"hour", "minute", "second"}
POINT = DATE | TIME | {"year_to_hour", "year_to_minute", "year_to_second"}
SECOND = {"second", "year_to_second"}


def plain(t):
    return strip(t or "").replace("const ", "").replace("&", "").strip()


def applicability(f):
    """whether arguments of the given types can be passed for parameters of the given types"""
    return plain(f.d.rt) == "bool" and len(f.params) == 2 and all(plain(p["d"].t) == plain(TYPES) for p in f.params)


def chooser(f):
    """chooses one of the declarations"""
    return "declaration>" in (f.d.rt or "") and plain(f.d.rt).startswith("std::shared_ptr<") and candidates_param(f) is not None


def candidates_param(f):
    for i, p in enumerate(f.params):
        t = plain(p["d"].t)
        if t.startswith("std::vector<std::shared_ptr<") and "::declaration>" in t:
            return i
    return None


def helpers(db, file):
    fs = [f for f in db.fns.values() if f.body is not None and not f.dep and f.file == file]
    return [f for f in fs if applicability(f)], [f for f in fs if chooser(f)]


# ------------------------------------------------------------------------------------------------ the rules of overloading

def check_applicability(db, rep, f, same):
    T = Terms(db, inline=lambda g: g.file == f.file and applicability(g))
    for n in range(3):
        for m in range(3):
            a = tuple(("param", "argument%d" % i) for i in range(n))
            p = tuple(("param", "parameter%d" % i) for i in range(m))
            label = "%s of %d arguments and %d parameters" % (f.n, n, m)
            try:
                R = T.run(f, [("vec", "arguments", a), ("vec", "parameters", p)])
            except Unknown as x:
                rep.notes.append("%s is not decided: %s" % (label, x))
                continue
            bad = None
            accepted = False
            for kind, v, st in R:
                if kind != "ret" or not isinstance(v, bool):
                    bad = bad or Unknown("%s" % show(v)[:80])
                    continue
                yes = set()
                other = False
                for c, b in st.cond:
                    x = convertible(c, b)
                    if x is None:
                        other = True
                    elif x[2]:
                        yes.add(x[:2])
                want = n == m and all((a[i], p[i]) in yes for i in range(n))
                if other:
                    bad = bad or Unknown("a condition")
                elif v and not want:
                    bad = "it accepts %s" % ("them although their number differs" if n != m else "them although not every argument can be converted to its own parameter")
                accepted |= v and want
            if bad is None and n == m and not accepted:
                bad = "it never accepts them"
            if isinstance(bad, Unknown):
                rep.notes.append("%s is not decided: %s" % (label, bad))
                continue
            rep.check(bad is None, "applicable", label, f.loc(), bad)


def convertible(c, b):
    """(argument, parameter, yes) of a condition on the convertibility"""
    if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!="):
        x = [y for y in c[1:] if isinstance(y, tuple) and y[:1] == ("call",) and "convertible" in str(y[1])]
        e = [y for y in c[1:] if isinstance(y, tuple) and y[:1] == ("enum",)]
        if len(x) == 1 and len(e) == 1:
            ps = [y for y in x[0][2:] if isinstance(y, tuple) and y[:1] == ("param",)]
            if len(ps) == 2:
                eq = b == (c[0] == "==")
                if e[0][1].endswith("::yes"):
                    return ps[0], ps[1], eq
                return ps[0], ps[1], False
    return None


def check_chooser(db, rep, f):
    i = candidates_param(f)
    T = Terms(db, inline=lambda g: g.file == f.file and chooser(g), unroll=4)
    for n in (1, 2, 3):
        cs = tuple(("param", "candidate%d" % k) for k in range(n))
        args = args_for(f)
        args[i] = ("vec", "candidates", cs)
        label = "%s (%s) among %d" % (f.n, short(plain(f.d.rt)), n)
        R = T.run(f, args)
        bad = None
        picked = set()
        for kind, v, st in R:
            gone = kind == "ret" and failing(v)
            if kind == "ret" and not gone and v not in cs:
                bad = bad or Unknown(show(v)[:80])
                continue
            if kind != "ret":
                continue
            tests, pairs = [], set()
            for c, b in st.cond:
                x = relation(T, db, c)
                y = [relation(T, db, z) for z in c[1:]] if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!=") else []
                if x is not None:
                    pairs.add(x)
                    tests.append(lambda r, x=x, b=b: r[x] == b)
                elif len(y) == 2 and None not in y:
                    pairs |= set(y)
                    tests.append(lambda r, y=y, b=b == (c[0] == "=="): (r[y[0]] == r[y[1]]) == b)
                elif gone:
                    tests.append(lambda r: False)
                elif not arity_only(c):
                    # the number of parameters says nothing of what is more specific
                    bad = bad or Unknown(show(c)[:80])
            if isinstance(bad, Unknown):
                continue
            pairs = sorted(itertools.permutations(cs, 2) if gone else pairs)
            for vs in itertools.product((True, False), repeat=len(pairs)):
                rel = dict(zip(pairs, vs))
                if not all(t(rel) for t in tests):
                    continue
                if gone and not all(rel[(a, d)] for (a, b), y in rel.items() for (c, d), z in rel.items() if y and z and b == c and a != d):
                    continue
                # what is strictly more specific than what
                less = {(a, b) for (a, b), y in rel.items() if y and rel.get((b, a)) is False}
                for _ in cs:
                    less |= {(a, d) for a, b in less for c, d in less if b == c}
                if gone:
                    if any(all((b, c) in less for c in cs if c != b) for b in cs):
                        bad = bad or "it fails although one candidate is more specific than every other one"
                    continue
                picked.add(v)
                if any((v, c) not in less for c in cs if c != v):
                    bad = "it chooses a candidate which is not more specific than every other one"
        if bad is None and picked != set(cs):
            bad = "some candidate is never chosen"
        if isinstance(bad, Unknown):
            rep.notes.append("%s is not decided: %s" % (label, bad))
            continue
        rep.check(bad is None, "overload", label, f.loc(), bad)


def arity_only(c):
    """a condition on nothing but the number of parameters of a candidate"""
    if not isinstance(c, tuple) or len(c) != 3 or c[0] not in ("==", "!=", "<", "<=", ">", ">="):
        return False
    def rest(y):
        if isinstance(y, tuple) and y[:2] == ("call", "size") and len(y) == 3 and isinstance(y[2], tuple) and y[2][:2] == ("call", "shared_parameter_types"):
            return
        if isinstance(y, tuple):
            if y[:1] in (("param",), ("call",), ("mem",)):
                yield y
            for z in y:
                yield from rest(z)
    return not any(True for y in c[1:] for _ in rest(y))


def relation(T, db, c):
    """(a, b): the arguments a accepts are accepted by b"""
    if isinstance(c, tuple) and c[:1] == ("call",):
        d = T.callees.get(c)
        g = db.fn_of(d) if d is not None else None
        if g is not None and applicability(g):
            xs = [y for y in c[2:] if isinstance(y, tuple) and y[:2] == ("call", "shared_parameter_types")]
            if len(xs) == 2:
                ps = [[z for z in deep(y) if z[:1] == ("param",)] for y in xs]
                if all(len(p) == 1 for p in ps):
                    return ps[0][0], ps[1][0]
    return None


# ------------------------------------------------------------------------------------------------ calls

def flat(t):
    """a text without its conversions"""
    while isinstance(t, tuple) and (t[:1] == ("new",) and len(t) > 2 and ("basic_string" in str(t[1]) or str(t[1]).endswith("::name::simple"))
                                    or t[:1] == ("call",) and str(t[1]).startswith("operator ") and len(t) == 3):
        t = t[2]
    if isinstance(t, tuple) and t[:2] == ("text", "append"):
        return ("append", flat(t[2]), flat(t[3]))
    return t


def textual(t, name):
    return isinstance(t, tuple) and t[:2] == ("call", "to_string_view") and [x for x in t[2:] if is_path(x)] == [name]


def lookup(T, e):
    """(what, name, count, where) by which a declaration was found"""
    if not isinstance(e, tuple) or e[:1] != ("elem",):
        raise Unknown("candidate %s" % show(e)[:80])
    c = e[1]
    if not isinstance(c, tuple) or c[:1] != ("call",):
        raise Unknown("candidate %s" % show(e)[:80])
    if c[1] == "each":
        p = c[2]
        if not (isinstance(p, tuple) and p[:1] == ("call",) and p[1] in ("function_provider", "set_function_provider") and len(c) == 5):
            raise Unknown("lookup %s" % show(c)[:80])
        path = any(x[:2] == ("call", "schema_search_path") for x in deep(p))
        return ("function" if p[1] == "function_provider" else "aggregate"), flat(c[3]), c[4], path
    if c[1] in ("analyze_function_name", "analyze_aggregation_name"):
        rest = [x for x in c[2:] if is_path(x) or isinstance(x, (Lin, int)) or isinstance(x, tuple) and (x[:1] == ("new",) or x[:2] == ("call", "size"))]
        if len(rest) != 2:
            raise Unknown("lookup %s" % show(c)[:80])
        return ("function" if c[1] == "analyze_function_name" else "aggregate"), flat(rest[0]), rest[1], True
    raise Unknown("lookup %s" % show(c)[:80])


def tested(T, db, st):
    """the declarations which were found applicable on the path: declaration -> types"""
    yes = {}
    for c, b in st.cond:
        if isinstance(c, tuple) and c[:1] == ("call",) and T.callees.get(c) is not None:
            g = db.fn_of(T.callees[c])
            if g is not None and applicability(g) and b:
                ps = [x for x in c[2:]]
                if len(ps) >= 2 and isinstance(ps[-1], tuple) and ps[-1][:2] == ("call", "shared_parameter_types"):
                    yes[ps[-1][2]] = ps[-2]
                elif len(ps) >= 2 and isinstance(ps[-2], tuple) and ps[-2][:2] == ("call", "shared_parameter_types"):
                    yes[ps[-2][2]] = None
    return yes


def features(st, feature):
    """declaration -> whether it has the feature"""
    r = {}
    for c, b in st.cond:
        if isinstance(c, tuple) and c[:2] == ("call", "contains") and isinstance(c[2], tuple) and c[2][:2] == ("call", "features"):
            if any(x[:1] == ("enum",) and x[1].endswith("::" + feature) for x in c[3:]):
                r[c[2][2]] = b
    return r


def counted(n, v, root, args):
    """whether v is the number of arguments"""
    if isinstance(v, Lin) and v.const() is not None:
        return v.const() == n
    if isinstance(v, int):
        return v == n
    s = [x for x in deep(v) if x[:2] == ("call", "size")]
    if len(s) == 1 and s[0][2] == args:
        return True
    raise Unknown("number of arguments")


def size(st, p):
    if st.known(("nonempty", p)) is False:
        return 0
    if st.known(("nonempty", p)) is None:
        raise Unknown("number of arguments")
    return 1 + sum(1 for c, b in st.cond if isinstance(c, tuple) and c[:2] == ("more", p) and b)


def operand(E, T, t):
    w, p = E.sub_of(T, t)
    if w != "value" and isinstance(t, tuple) and t[:1] == ("mk",):
        raise Wrong("it passes a value which is not an argument of the call")
    if w != "value":
        raise Unknown("argument %s" % show(t)[:80])
    return p


def a_type(E, T, t):
    if isinstance(t, tuple) and t[:2] == ("call", "resolve"):
        for x in t[2:]:
            w, p = E.sub_of(T, x)
            if w == "value":
                return p
    raise Unknown("argument type %s" % show(t)[:80])


class Wrong(Exception):
    pass


def call_of(E, db, T, v, st, want_args, extra=0):
    """checks the call v; yields (kind, candidates, name, count)"""
    kind = short(v[1]).split("::")[-1]
    if len(v) < 5:
        raise Unknown("call")
    args = elements(v[4])
    got = [operand(E, T, x) for x in args[:len(args) - extra]]
    if got != want_args:
        raise Wrong("it passes %s" % (", ".join(".".join(p) for p in got) or "no arguments"))
    cs = [x for x in deep(v[3]) if x[:1] == ("call",) and T.callees.get(x) is not None and db.fn_of(T.callees[x]) is not None and chooser(db.fn_of(T.callees[x]))]
    if not cs:
        raise Unknown("target")
    vec = [x for x in cs[0][2:] if isinstance(x, tuple) and x[:1] == ("vec",)]
    if len(vec) != 1:
        raise Unknown("candidates")
    cands = elements(vec[0])
    yes = tested(T, db, st)
    scalar = features(st, "scalar_function")
    seen = []
    for c in cands:
        w, name, count, path = lookup(T, c)
        if not path:
            raise Wrong("it looks for the function outside of the schema search path")
        if (w == "aggregate") != (kind == "aggregate_function_call"):
            raise Wrong("it looks for the function among those of another kind")
        if w == "function" and scalar.get(c) is not True:
            raise Wrong("it may call a function which is not a scalar function")
        if c not in yes:
            raise Wrong("it may call a function to which the arguments cannot be passed")
        if yes[c] is None:
            raise Wrong("it tests the parameters against the arguments the wrong way round")
        ts = elements(yes[c])
        if [a_type(E, T, x) for x in ts[:len(ts) - extra]] != want_args:
            raise Wrong("it chooses the function by other types than those of the arguments")
        if len(ts) != len(args):
            raise Wrong("it chooses the function by a different number of types than it passes arguments")
        seen.append((w, name, count))
    for c in yes:
        try:
            w = lookup(T, c)[0]
        except Unknown:
            continue
        if w == "function" and scalar.get(c) is not True:
            continue
        if c not in cands:
            if w == "function" and kind == "aggregate_function_call":
                raise Wrong("it calls a set function although a scalar function is applicable")
            if w == "function" or kind == "aggregate_function_call":
                raise Wrong("it leaves an applicable function out of consideration")
    flag = [x for k, x in st.env.items() if k[0] in ("f", "m") and "aggregate" in str(k[-1])]
    if kind == "aggregate_function_call" and True not in flag:
        raise Wrong("that there is a set function is not recorded")
    return kind, seen, len(args)


def calls(db, rep, E):
    for cls in ("function_invocation", "builtin_function_invocation", "builtin_set_function_invocation"):
        f = E.handlers.get(cls)
        if f is None:
            raise Broken("no translation of %s is left" % cls)
        T, R = E.run(f, 2)
        root = f.params[0]["n"]
        lst = ("path", root, "arguments")
        seen = {}
        for kind, v, st in R:
            if kind != "ret" or failing(v) or not (isinstance(v, tuple) and v[:1] == ("mk",) and "function_call" in str(v[1])):
                continue
            try:
                n = size(st, lst)
                label = "%s of %d arguments" % (cls, n)
                distinct = None
                if cls == "builtin_set_function_invocation":
                    opts = narrow(T, st, root, ("enum", S + "set_quantifier", "quantifier"), ("distinct", "all", None), db.enums)
                    distinct = opts == ["distinct"] if "distinct" not in opts or len(opts) == 1 else None
                    label += {True: ", DISTINCT", False: ", not DISTINCT", None: ""}[distinct]
                label += " as " + short(v[1]).split("::")[-1]
                seen.setdefault(label, None)
                k, cands, m = call_of(E, db, T, v, st, [("arguments", "#%d" % i) for i in range(n)])
                for w, name, count in cands:
                    if not counted(n, count, root, lst):
                        raise Wrong("it looks for a function of another number of parameters")
                    if cls == "function_invocation":
                        ok = name == ("path", root, "name")
                    elif distinct is None and cls == "builtin_set_function_invocation":
                        raise Wrong("DISTINCT makes no difference")
                    elif distinct:
                        ok = isinstance(name, tuple) and name[:1] == ("append",) and textual(name[1], ("path", root, "function")) and "suffix_distinct" in str(name[2])
                    else:
                        ok = textual(name, ("path", root, "function"))
                    if not ok:
                        raise Wrong("it looks for a function of another name")
                rep.count("calls analysed")
            except Unknown as x:
                rep.notes.append("%s is not decided: %s" % (label, x))
                seen.pop(label, None)
            except Wrong as x:
                seen[label] = str(x)
        for label, m in seen.items():
            rep.check(m is None, "call", label, f.loc(), m)


def extract(db, rep, E):
    f = E.handlers.get("extract_expression")
    if f is None:
        raise Broken("no translation of extract_expression is left")
    T, R = E.run(f)
    root = f.params[0]["n"]
    fields = {x["v"]: x["n"] for x in db.enums[S + "extract_field_kind"]["c"]}
    types = {x["v"]: x["n"] for x in db.libenums["takatori::type::type_kind"]["c"]}
    got = {}
    for kind, v, st in R:
        if kind != "ret" or failing(v) or not (isinstance(v, tuple) and v[:1] == ("mk",)):
            continue
        fp = ("path", root, "field")
        allowed, excluded = T.values(fp, st)
        fs = [n for x, n in fields.items() if (allowed is None or x in allowed) and x not in excluded]
        tk = [c[1] for c, b in st.cond if isinstance(c, tuple) and c[:1] in (("in",), ("else",)) and isinstance(c[1], tuple) and c[1][:2] == ("call", "kind")]
        ts = [None]
        if tk:
            allowed, excluded = T.values(tk[0], st)
            ts = [n for x, n in types.items() if (allowed is None or x in allowed) and x not in excluded]
        zone = [b for c, b in st.cond if isinstance(c, tuple) and c[:2] == ("call", "with_time_zone")]
        for fi in fs:
            for t in ts:
                for z in ([zone[0]] if zone else [True, False]) if t in ("time_of_day", "time_point") else [None]:
                    got.setdefault((fi, t, z), []).append((v, st))
    for t, zs in (("date", [None]), ("time_of_day", [True, False]), ("time_point", [True, False])):
        for z in zs:
            ok = {"date": DATE, "time_of_day": TIME, "time_point": POINT}[t] | (ZONE if z else set())
            for fi in fields.values():
                label = "EXTRACT %s from %s%s" % (fi, t, "" if z is None else " with time zone" if z else " without time zone")
                ways = got.get((fi, t, z), [])
                if fi not in ok:
                    rep.check(not ways, "extract", label, f.loc(), "it is accepted although the operand has no such field")
                    continue
                msg = None if ways else "it is not accepted"
                try:
                    for v, st in ways:
                        extra = 1 if fi in SECOND else 0
                        try:
                            k, cands, m = call_of(E, db, T, v, st, [("operand",)], extra)
                            if m != 1 + extra:
                                raise Wrong("it passes %d arguments" % m)
                            for w, name, count in cands:
                                if not counted(m, count, root, None):
                                    raise Wrong("it looks for a function of another number of parameters")
                                if name != ("str", FIELDS[fi]):
                                    raise Wrong("it calls %s" % (name[1] if isinstance(name, tuple) and name[:1] == ("str",) else show(name)[:60]))
                            if extra:
                                precision(T, elements(v[4])[-1], st, root)
                        except Wrong as x:
                            msg = str(x)
                    rep.check(msg is None, "extract", label, f.loc(), msg)
                except Unknown as x:
                    rep.notes.append("%s is not decided: %s" % (label, x))
    for (fi, t, z), ways in got.items():
        if t not in ("date", "time_of_day", "time_point"):
            rep.bad("extract", "EXTRACT %s from %s" % (fi, t or "anything"), f.loc(), "it is accepted although the operand has no such field")


def precision(T, t, st, root):
    """the number of subsecond digits, at most 9: 9 if it is not given"""
    if not (isinstance(t, tuple) and t[:1] == ("mk",) and short(t[1]).endswith("immediate")):
        raise Unknown("precision")
    p = ("path", root, "subsecond_digits")
    given = st.known(p)
    xs = [x for x in deep(t[3]) if x[:1] in (("new",), ("init",)) and str(x[1]).endswith("value::int4")]
    if len(xs) != 1 or given is None:
        raise Unknown("precision")
    x = xs[0][2]
    if not given:
        if not (isinstance(x, Lin) and x.const() == 9):
            if isinstance(x, Lin) and x.const() is not None:
                raise Wrong("it takes %d digits of the seconds instead of all 9" % x.const())
            raise Unknown("precision")
        return
    if isinstance(x, Lin) and len(x.t) == 1 and x.c == 0:
        x = x.t[0][0]
    if isinstance(x, tuple) and x[:1] == ("call",) and x[1] in ("min", "max", "clamp"):
        a = x[2:]
        if x[1] == "min" and p in a and any(isinstance(y, Lin) and y.const() == 9 for y in a):
            return
        raise Wrong("it takes another number of digits of the seconds than requested")
    if x == p and (st.known(("<=", p, Lin((), 9))) or st.known(("<", Lin((), 9), p)) is False):
        return
    raise Unknown("precision %s" % show(x)[:60])


# ------------------------------------------------------------------------------------------------ parameters

def parameters(db, rep, E):
    for cls in ("placeholder_reference", "host_parameter_reference"):
        f = E.handlers.get(cls)
        if f is None:
            raise Broken("no translation of %s is left" % cls)
        T, R = E.run(f)
        root = f.params[0]["n"]
        seen = {}
        for kind, v, st in R:
            if kind != "ret" or failing(v):
                continue
            finds = [x for x in deep(v) if x[:2] == ("call", "find") and len(x) == 4]
            if len(set(finds)) != 1:
                rep.notes.append("%s is not decided: %s" % (cls, show(v)[:80]))
                continue
            where = [x[1] for x in deep(finds[0][2]) if x[:1] == ("call",) and x[1] in ("placeholders", "host_parameters")]
            colon = [b for c, b in st.cond if isinstance(c, tuple) and c[:2] == ("call", "host_parameter_declaration_starts_with_colon")]
            label = "%s as %s%s" % (cls, {"placeholders": "placeholder", "host_parameters": "host variable"}.get(where[0] if where else "", "?"),
                                    "" if not colon else ", names with colon" if colon[0] else ", names without colon")
            msg = None
            try:
                if len(where) != 1:
                    raise Unknown(show(finds[0][2])[:80])
                if not colon:
                    raise Wrong("whether the names start with a colon is not considered")
                name = flat(finds[0][3])
                if cls == "placeholder_reference":
                    number = isinstance(name, tuple) and name[:2] == ("call", "to_string") and [x for x in name[2:] if is_path(x)] == [("path", root, "index")]
                    prefixed = isinstance(name, tuple) and name[:1] == ("text",) and name[1] in ("insert",) and any(x[:2] == ("call", "to_string") for x in deep(name)) and front(name)
                    if not (number or prefixed):
                        raise Unknown(show(name)[:80])
                    if colon[0] != prefixed:
                        raise Wrong("it looks for the number with%s a colon" % ("" if prefixed else "out"))
                else:
                    p = ("path", root, "name", "identifier")
                    whole = name == p
                    dropped = isinstance(name, tuple) and name[:3] == ("text", "drop", p) and isinstance(name[3], Lin) and name[3].const() == 1
                    if not (whole or dropped):
                        if isinstance(name, tuple) and name[:3] == ("text", "drop", p):
                            raise Wrong("it looks for a part of the name")
                        raise Unknown(show(name)[:80])
                    first = starts(st, p)
                    if colon[0] and dropped:
                        raise Wrong("it drops the colon of the name although the names have one")
                    if not colon[0] and first is True and whole:
                        raise Wrong("it keeps the colon of the name although the names have none")
                    if dropped and first is not True:
                        raise Wrong("it drops the first letter of a name which has no colon")
                if where == ["host_parameters"]:
                    known = [b for c, b in st.cond if isinstance(c, tuple) and (c[:2] == ("call", "find") and any(x[:2] == ("call", "placeholders") for x in deep(c)) or c[:2] == ("call", "placeholders"))]
                    if not known or known[-1]:
                        raise Wrong("it prefers a host variable to the placeholder of that name")
                    if not (isinstance(v, tuple) and v[:1] == ("mk",) and short(v[1]).endswith("variable_reference")):
                        raise Unknown(show(v)[:80])
                elif not (isinstance(v, tuple) and v[:2] == ("call", "resolve")):
                    raise Unknown(show(v)[:80])
                seen.setdefault(label, None)
            except Unknown as x:
                rep.notes.append("%s is not decided: %s" % (label, x))
            except Wrong as x:
                seen[label] = str(x)
        for label, m in seen.items():
            rep.check(m is None, "parameter", label, f.loc(), m)


def front(name):
    c = [x.const() for x in name[3:] if isinstance(x, Lin)]
    s = [x for x in name[3:] if isinstance(x, tuple) and x[:1] == ("str",)]
    return c == [0, 1, 58] or c == [0] and s == [("str", ":")]


def starts(st, p):
    """whether the name is known to start with a colon"""
    if st.known(("nonempty", p)) is False:
        return False
    for c, b in st.cond:
        if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!=") and p + ("#0",) in c[1:] and any(isinstance(x, Lin) and x.const() == 58 for x in c[1:]):
            return b == (c[0] == "==")
        if isinstance(c, tuple) and c[:2] == ("call", "starts_with") and p in c[2:]:
            return b
    return None


def a04(db, rep):
    rep.rule("parameter", "a placeholder or host variable is looked for under its own name, with or without the colon as the names of the options have it, first among "
             "the placeholders", 4)
    rep.rule("call", "on every way which succeeds, a call of a function passes all arguments in order to a declaration which was found on the schema search path under the name of "
             "the call (a DISTINCT set function: under the name with the suffix) with that many parameters, which is of the right kind, and to which arguments of these "
             "types can be passed; no such declaration is left out; that there is a set function is recorded", 6)
    rep.rule("applicable", "types are applicable to parameters if and only if there are as many and each is convertible to its own parameter", 9)
    rep.rule("overload", "the declaration which is chosen is more specific than every other candidate, and it is chosen whichever comes first", 6)
    rep.rule("extract", "EXTRACT of a field calls the function of that field, for the operands which have such a field, and no others", 50)
    E = Engine(db)
    app, cho = helpers(db, E.file)
    if not app or not cho:
        raise Broken("the rules of overloading are not found")
    for f in app:
        check_applicability(db, rep, f, app)
    for f in cho:
        check_chooser(db, rep, f)
    calls(db, rep, E)
    extract(db, rep, E)
    parameters(db, rep, E)


CHECKS = {"A04": a04}

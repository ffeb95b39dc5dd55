"""P02, P03, P05: outcome and options of a parse; comments, descriptions and placeholders; names, signs and sizes made from tokens."""
import re

from aval import Lin, Obj, show, term, Frame, St
from decide import decide, eq, neg
from mz import Broken, rel, short, strip, walk, recv
from paths import Paths
from rules_parser import anchor, mentions, strip_lin, writes

DRV = "mizugaki::parser::sql_driver::"
DRIVER_API = {"document", "result", "success", "error", "add_comment", "add_comment_separator", "add_placeholder_mark", "find_placeholder_mark",
              "max_expected_candidates", "element_limits", "comments", "leading_comments", "following_comments", "enable_description_comments",
              "leading_description_comment", "node", "node_vector", "to_node_vector", "element_vector", "to_size", "check_regular_identifier",
              "check_delimited_identifier", "image", "parse_regular_identifier", "parse_delimited_identifier", "to_regular_identifier",
              "to_delimited_identifier", "try_merge_identifier_chain", "try_build_identifier_chain", "try_build_type", "try_fold_literal", "validate",
              "validate_count", "comments_in_range"}


def params(f):
    return [("param", p["n"]) for p in f.params]


def run(db, f, this=("this",), extra=None, model=None, skip=None, **kw):
    """all paths of f; helpers of the same file are followed, the named functions of the driver are not"""
    def inl(g):
        if skip and skip(g):
            return False
        if extra and extra(g):
            return True
        return g.file == f.file and not (g.q.startswith(DRV) and g.n in DRIVER_API)
    P = Paths(db, inline=inl, model=model, **kw)
    r = P.run(f, params(f), this)
    r = [x for x in r if not any(e[0] == "call" and e[1] in ("__assert_fail", "abort") for e in x[2].eff)]  # of BOOST_ASSERT
    return P, r


def calls(st, *names):
    return [e for e in st.eff if e[0] == "call" and e[1] in names]


def is_call(v, name, n=None):
    v = strip_lin(v)
    return isinstance(v, tuple) and len(v) > 1 and v[0] == "call" and v[1] == name and (n is None or len(v) == n + 2)


def unwrap(v):
    """removes conversions: new(T, x) -> x"""
    v = strip_lin(v)
    while isinstance(v, tuple) and len(v) == 3 and v[0] == "new":
        v = strip_lin(v[2])
    return v


def field(name):
    return ("field0", name)


def fname(v):
    v = strip_lin(v)
    return v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == "field0" else None


def acc_field(db, cls, name):
    """the member which the accessor `name` returns"""
    out = set()
    for f in anchor(db, cls + "::" + name):
        if not f.params:
            for k, v, st in Paths(db, inline=lambda g: True).run(f, [], ("this",)):
                n = fname(unwrap(v))
                if n:
                    out.add(n)
    if len(out) != 1:
        raise Broken("%s::%s() does not return a member" % (cls, name))
    return out.pop()


def one(db, q, n=None):
    fs = [f for f in anchor(db, q, n)]
    if len(fs) != 1:
        raise Broken("%d definitions of %s" % (len(fs), q))
    return fs[0]


# ------------------------------------------------------------------------------------------------ P02

def accessors(db, cls):
    out = {}
    for f in db.fns.values():
        if f.q.startswith(cls + "::") and f.q == cls + "::" + f.n and not f.params and not f.d.static:
            out.setdefault(f.n, []).append(f)
    return out


def outcome(db, rep):
    rep.explanation = ("Abstract evaluation of every path of sql_parser::operator(), of the driver's success() and error() and of the result classes: "
                       "which option, which text, which driver and which result the parse uses.")
    rep.rule("options", "each parser option which the driver knows has the driver's value when the parse starts", 3)
    rep.rule("text", "the scanner reads the whole text of the document, and nothing else", 3)
    rep.rule("error", "an error leaves no value and a diagnostic with its code, message, document and place", 6)
    rep.rule("success", "a success leaves the statements, the comments and the document in the compilation unit", 4)
    rep.rule("state", "a result has a value, or a diagnostic, exactly if it was given one", 4)
    rep.rule("return", "what the driver recorded is what the parser returns", 2)
    P = "mizugaki::parser::"
    fs = [f for f in anchor(db, P + "sql_parser::operator()")]
    g = [f for f in fs if len(f.params) == 1]
    h = [f for f in fs if len(f.params) == 2]
    if len(g) != 1 or len(h) != 1:
        raise Broken("sql_parser::operator() not found")
    g, h = g[0], h[0]
    # parse of a text
    fd = {n: acc_field(db, P + "sql_driver", n) for n in ("result", "document", "comments")}
    fo = acc_field(db, P + "sql_parser", "options")
    fr_ = {n: acc_field(db, P + "sql_parser_result", n) for n in ("value", "diagnostic")}
    fg = {n: acc_field(db, P + "sql_parser_diagnostic", n) for n in ("code", "message", "document", "region")}
    _, res = run(db, h, skip=lambda x: x.q == h.q)
    bad = None
    for k, v, st in res:
        if k != "ret":
            continue
        found = [x for x in subterms(v) if is_call(x, "operator()")]
        mk = [x for x in subterms(v) if is_call(x, "make_shared") or isinstance(x, tuple) and len(x) == 4 and x[0] == "new" and "basic_document" in str(x[1])]
        if not mk:
            rep.notes.append("text of the overload with a location: not decided")
            continue
        a = [strip_lin(x) for x in mk[0][2:]]
        if a[:2] != params(h):
            bad = "the document is made of %s" % ", ".join(map(show, a))
        if not found:
            bad = bad or "the document is not parsed"
    rep.check(bad is None, "text", "the document has the given location and contents", h.loc(), bad or "")
    # parse of a document
    doc = params(g)[0]

    def model(itp, fr, n, name, rv, av, st):
        if name.endswith("::parse") and n["k"] == "Call" and "sql_parser_generated" in str((n.get("d").q if n.get("d") else "")):
            return [(term(("parsed",)), st.effect(("parse", rv)))]
        return None

    _, res = run(db, g, model=model)
    res = [x for x in res if x[0] == "ret"]
    if not res or not any(e[0] == "parse" for _, _, st in res for e in st.eff):
        raise Broken("sql_parser::operator() does not run the generated parser")
    opts = accessors(db, P + "sql_parser_options")
    drv = accessors(db, P + "sql_driver")
    common = [n for n in opts if n in drv and n in DRIVER_API or n in opts and n in drv]
    used = set()
    for f in db.fns.values():
        if f.body is not None and f.file == g.file:
            for m in walk(f.body):
                if m["k"] == "Call" and m.get("d") is not None and (m["d"].q or "").startswith(P + "sql_parser_options::"):
                    used.add(m["d"].n)
    for n in sorted(opts):
        if n in common:
            bad = None
            for _, v, st in res:
                i = [j for j, e in enumerate(st.eff) if e[0] == "parse"]
                if len(i) != 1:
                    bad = "the generated parser is run %d times" % len(i)
                    continue
                last = None
                for e in st.eff[:i[0]]:
                    if e[0] == "assign" and is_call(e[1], n, 1):
                        last = e[2]
                if last is None:
                    if mentions(st.eff[i[0]][1], n):
                        continue  # handed over in another way
                    bad = "the option %s does not reach the driver before the parse" % n
                elif not (is_call(unwrap(last), n, 1) and mentions(last, fo)):
                    bad = "the driver's %s becomes %s" % (n, show(last))
            rep.check(bad is None, "options", n, g.loc(), bad or "")
        elif n in ("debug", "operator=", "operator<<") or n.startswith("operator") or n.startswith("~") or n == "sql_parser_options":
            continue
        else:
            rep.check(n in used, "options", n + " is used", g.loc(), "the option %s has no effect on the parse" % n)
    bad = {"scan": None, "doc": None}
    ret = None
    for _, v, st in res:
        for e in st.eff:
            if e[0] != "parse":
                continue
            sub = list(subterms(e[1]))
            cont = [x for x in sub if is_call(x, "contents")]
            if not cont:
                bad["scan"] = "the scanner does not read the contents of the document"
            for x in cont:
                a = [strip_lin(y) for y in x[2:]]
                if len(a) != 3 or a[0] != doc or not (isinstance(a[1], Lin) and a[1].const() == 0 or a[1] == 0) or not is_call(a[2], "size", 1) or strip_lin(a[2][2]) != doc:
                    bad["scan"] = "the scanner reads %s" % show(x)
            d = [x for x in sub if isinstance(x, tuple) and len(x) > 1 and x[0] == "new" and str(x[1]).endswith("sql_driver")]
            if d and not all(mentions(x[2:], doc) for x in d):
                bad["doc"] = "the driver is made of %s" % show(d[0])
            if d and not (mentions(v, d[0]) or any(mentions(c, d[0]) for c, b in st.cond)):
                ret = "the result is not that of the driver which took part in the parse"
    rep.check(bad["scan"] is None, "text", "the scanner reads all of the document", g.loc(), bad["scan"] or "")
    rep.check(bad["doc"] is None, "text", "the driver refers to the document", g.loc(), bad["doc"] or "")
    rep.check(ret is None, "return", "result of the parser", g.loc(), ret or "")
    f = one(db, DRV + "result") if len(anchor(db, DRV + "result")) == 1 else anchor(db, DRV + "result")[0]
    for f in anchor(db, DRV + "result"):
        r = Paths(db).run(f, [], ("this",))
        rep.check(all(fname(v) == fd["result"] or is_result_field(db, f, v) for k, v, _ in r if k == "ret"), "return", f.q + (" const" if f.d.const else ""), f.loc(),
                  "does not return the recorded result")
    # error
    f = one(db, DRV + "error")
    lib = lambda x: x.q.startswith(P + "sql_parser_diagnostic::") or x.q.startswith(P + "sql_parser_result::")
    _, r = run(db, f, extra=lib)
    n = 0
    for k, v, st in r:
        w = {kk: x for kk, x in writes(st).items()}
        rs = [x for x in w.values() if isinstance(x, Obj) and fr_["diagnostic"] in x.f]
        if not rs:
            # any other way to record the error: accessors
            rep.notes.append("error: form of the result is not decided")
            continue
        n += 1
        o = rs[0]
        d = o.f[fr_["diagnostic"]]
        val = unwrap(o.f.get(fr_["value"]))
        rep.check(val == ("null",) or isinstance(val, tuple) and val and val[0] in ("new", "fresh", "null", "default") and len(val) < 3, "error", "no value", f.loc(), "an error has the value %s" % show(val))
        if isinstance(d, Obj):
            for p in f.params:
                t = strip(p["t"])
                fld = [kk for kk, x in d.f.items() if unwrap(x) == ("param", p["n"])]
                ok = len(fld) == 1 and db_field_type(db, P + "sql_parser_diagnostic", fld[0]) == t
                rep.check(ok, "error", "the diagnostic has the %s" % p["n"], f.loc(), "the %s of the error becomes %s of its diagnostic" % (p["n"], fld[0] if fld else "nothing"))
            docs = [x for kk, x in d.f.items() if "document" in db_field_type(db, P + "sql_parser_diagnostic", kk)]
            rep.check(bool(docs) and all(fname(unwrap(x)) == fd["document"] for x in docs), "error", "the diagnostic has the document", f.loc(), "the diagnostic refers to %s" % (show(docs[0]) if docs else "nothing"))
        else:
            rep.bad("error", "the diagnostic", f.loc(), "the diagnostic of an error is %s" % show(d))
        extra_ = [c for c, b in st.cond]
        rep.check(not extra_, "error", "unconditional", f.loc(), "an error is recorded only if %s" % (show(extra_[0]) if extra_ else ""))
    # success
    f = one(db, DRV + "success")
    _, r = run(db, f)
    stm = params(f)[0]
    atoms = {
        "no statements": lambda c: pol(neg(c), lambda x: is_call(x, "empty", 1) and x[2] == stm or isinstance(x, tuple) and x[0] == "==" and any(is_call(y, "size", 1) and strip_lin(y)[2] == stm for y in x[1:])),
        "the last is empty": lambda c: eq(c, lambda x: is_call(x, "node_kind", 1) and last_of(x[2], stm), lambda x: isinstance(x, tuple) and x[0] == "enum" and x[1].endswith("::empty_statement")),
    }
    decide(rep, "success", "only a trailing empty statement is removed", f.loc(), r, atoms,
           lambda k, v, st: len([e for e in st.eff if e[0] == "call" and e[1] in ("pop_back", "erase", "clear", "resize", "push_back", "emplace_back", "insert") and e[2] == stm]),
           lambda t: None if t["no statements"] and t["the last is empty"] else 0 if t["no statements"] else 1 if t["the last is empty"] else 0,
           irrelevant=lambda c: any(is_call(x, "size", 1) and strip_lin(x)[2] == stm for x in subterms((c,))))
    again = None
    for lp in walk(f.body):
        if lp["k"] in ("While", "For", "Do", "DoWhile", "ForRange") and "body" in lp:
            itp, _ = run(db, f)
            st0 = St()
            for p, a in zip(f.params, params(f)):
                st0 = st0.set(("l", p["d"]), a)
            for k, v, st in itp.stmt(Frame(f, ("this",), 0, 0), lp["body"], st0):
                if k in ("next", "continue") and any(e[0] == "call" and e[1] in ("pop_back", "erase", "resize") and e[2] == stm for e in st.eff):
                    again = "the removal at line %s is repeated" % lp.get("l")
    rep.check(again is None, "success", "at most one statement is removed", f.loc(), again or "")
    prob = {"statements": None, "comments": None, "document": None}
    for k, v, st in r:
        unit = [x for e in st.eff if e[0] == "assign" and mentions(e[1], fd["result"]) for x in subterms(e[2]) if (is_call(x, "node") or is_call(x, "make_unique")) or isinstance(x, tuple) and x[0] == "new" and len(x) > 3 and "compilation_unit" in str(x[1])]
        if not unit:
            if not any(e[0] == "assign" for e in st.eff):
                prob["statements"] = "a success records nothing on some path"
            continue
        a = [x for x in unit[0][2:] if x != ("this",)]
        if stm not in a:
            prob["statements"] = "the compilation unit is made of %s" % ", ".join(map(show, a))
        if not any(fname(x) == fd["comments"] for x in a):
            prob["comments"] = "the compilation unit is made of %s" % ", ".join(map(show, a))
        if not any(fname(x) == fd["document"] for x in a):
            prob["document"] = "the compilation unit is made of %s" % ", ".join(map(show, a))
        order = [i for i, e in enumerate(st.eff) if e[0] == "call" and e[1] in ("pop_back", "erase")]
        asg = [i for i, e in enumerate(st.eff) if e[0] == "assign" and mentions(e[1], fd["result"])]
        if order and asg and max(order) > min(asg):
            prob["statements"] = "the statements are changed after they were recorded"
    for kk, x in prob.items():
        rep.check(x is None, "success", "the %s of the compilation unit" % kk, f.loc(), x or "")
    # states
    for nm, fld in (("has_value", fr_["value"]), ("operator bool", fr_["value"]), ("has_diagnostic", fr_["diagnostic"])):
        f = one(db, P + "sql_parser_result::" + nm)
        bad = None
        r = Paths(db, inline=lambda x: x.file == f.file and not x.q.endswith("::is_valid")).run(f, [], ("this",))
        for k, v, st in r:
            s = presence(v)
            if s is None and isinstance(v, bool) and len(st.cond) == 1:
                c, b = st.cond[0]
                s = presence(c)
                if s is not None and b != v:
                    s = (s[0], not s[1])
            if s is None:
                rep.notes.append("%s: %s is not decided" % (nm, show(v)))
            elif s != (fld, True):
                bad = "returns %s" % show(v)
        rep.check(bad is None, "state", nm, f.loc(), bad or "")
    f = one(db, P + "sql_parser_diagnostic::is_valid")
    r = Paths(db, inline=lambda x: x.file == f.file).run(f, [], ("this",))
    atoms = {"a code": lambda c: inv(eq(c, lambda x: fname(x) == fg["code"], lambda x: isinstance(x, tuple) and x[0] == "enum" and x[1].endswith("::unknown"))),
             "a message": lambda c: pol(neg(c), lambda x: is_call(x, "empty", 1) and fname(x[2]) == fg["message"], False)}

    def val(k, v, st):
        if isinstance(v, bool):
            return v
        return "?", show(v)

    # a value which is returned without a test is split here
    rr = []
    for k, v, st in r:
        if isinstance(v, (bool, type(None))):
            rr.append((k, v, st))
        else:
            c, p = (v, True)
            if isinstance(v, tuple) and v and v[0] == "not":
                c, p = v[1], False
            rr += [(k, p, st.assume(c, True)), (k, not p, st.assume(c, False))]
    decide(rep, "state", "a diagnostic is valid exactly if it has a code or a message", f.loc(), rr, atoms, val, lambda t: t["a code"] or t["a message"])


def inv(p):
    return None if p is None else not p


def pol(np, pred, positive=True):
    c, p = np
    if isinstance(c, tuple) and c and c[0] == "not":
        c, p = c[1], not p
    if pred(c):
        return p if positive else not p
    return None


def presence(v):
    """(field, polarity) of a test whether a field is present"""
    c, p = neg(v)
    if isinstance(c, tuple) and c and c[0] == "not":
        s = presence(c[1])
        return None if s is None else (s[0], not s[1])
    if isinstance(c, tuple) and len(c) == 3 and c[0] == "==":
        for x, y in ((c[1], c[2]), (c[2], c[1])):
            if y == ("null",) and fname(x):
                return fname(x), not p
        return None
    if fname(c):
        return fname(c), p
    if isinstance(c, tuple) and len(c) == 3 and c[0] == "call" and c[1] in ("operator bool", "has_value", "is_valid") and fname(c[2]):
        return fname(c[2]), p
    return None


def is_result_field(db, f, v):
    n = fname(v)
    return n is not None and db_field_type(db, "mizugaki::parser::sql_driver", n).endswith("sql_parser_result")


def db_field_type(db, cls, n):
    r = db.records.get(cls)
    for x in (r or {}).get("fields", ()):
        if x["n"] == n:
            return strip(x["t"])
    return ""


def subterms(v):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Obj):
            todo += list(x.f.values())
        elif isinstance(x, Lin):
            todo += [k for k, _ in x.t]
        elif isinstance(x, (tuple, list)):
            yield x
            todo += list(x)


def last_of(v, seq):
    v = unwrap(v)
    return is_call(v, "back", 1) and v[2] == seq


# ------------------------------------------------------------------------------------------------ P03

def pushes(st):
    """containers which are lengthened: (field, value)"""
    out = []
    for e in st.eff:
        if e[0] == "call" and e[1] in ("emplace_back", "push_back") and fname(e[2]):
            out.append((fname(e[2]), unwrap(e[3]) if len(e) > 3 else None))
    return out


def valid(tok):
    def m(c):
        c2, p = neg(c)
        if isinstance(c2, tuple) and c2 and c2[0] == "not":
            c2, p = c2[1], not p
        if is_call(c2, "operator bool", 1) and strip_lin(c2[2]) == tok:
            return p
        return None
    return m


def member(tok, n):
    return lambda x: strip_lin(x) == ("mem", tok, n) or is_call(x, n, 1) and strip_lin(x)[2] == tok


def at_begin(x, seq):
    return (is_call(x, "begin", 1) or is_call(x, "cbegin", 1)) and fname(strip_lin(x)[2]) == seq


def at_end(x, seq):
    return (is_call(x, "end", 1) or is_call(x, "cend", 1)) and fname(strip_lin(x)[2]) == seq


def lookup(x, seq, key, names=("lower_bound", "find")):
    x = strip_lin(x)
    return isinstance(x, tuple) and len(x) in (5, 6) and x[0] == "call" and x[1] in names and at_begin(x[2], seq) and at_end(x[3], seq) and key(x[4])


def wrong_bound(rep, rid, f, r, seq, key):
    bad = any(lookup(x, seq, key, ("upper_bound",)) for _, v, st in r for y in [v] + [c for c, _ in st.cond] for x in subterms((y,)))
    rep.check(not bad, rid, f.n + " looks for the token itself", f.loc(), "the position of a token is looked up by upper_bound, which never finds it")


def shifted(x, by, pred):
    """x is the iterator `pred`, moved by `by`"""
    x = strip_lin(x)
    if by in (1, -1) and isinstance(x, tuple) and len(x) in (3, 4) and x[0] == "call" and x[1] == ("next" if by == 1 else "prev"):
        step = x[3] if len(x) == 4 else Lin((), 1)
        return pred(x[2]) and isinstance(step, Lin) and step.const() == 1
    if isinstance(x, Lin) and len(x.t) == 1 and x.c == by and x.t[0][1] == 1:
        return pred(x.t[0][0])
    return False


def deref(x):
    x = strip_lin(x)
    if isinstance(x, tuple) and len(x) == 3 and x[0] == "call" and x[1] in ("operator*", "front") and False:
        return x[2]
    return x


def empty_value(v):
    v = strip_lin(v)
    return v is None or isinstance(v, tuple) and (v[0] in ("new", "fresh", "default") and len([y for y in v[2:] if not (isinstance(y, tuple) and y and y[0] == "new" and "allocator" in str(y[1]))]) == 0)


def positions(db, rep):
    rep.explanation = ("Abstract evaluation of every path of the driver's functions about comments, descriptions and placeholders, compared with their decision tables: "
                       "which position is stored, which is looked up, and what is returned on each combination of outcomes of the tests.")
    rep.rule("placeholder", "a placeholder has the 1-based position of its mark among the recorded marks, 0 if there is none", 2)
    rep.rule("record", "comments and the tokens between them are recorded at their places", 6)
    rep.rule("neighbours", "the leading comments of a token are those between the preceding token and it, the following ones those up to the next token", 2)
    rep.rule("range", "comments of a range are those which begin in it", 3)
    rep.rule("description", "the description is the last leading comment of the form /** ... */, and none if descriptions are disabled", 2)
    C = "mizugaki::parser::sql_driver"
    D = {n: acc_field(db, C, n) for n in ("comments", "document", "enable_description_comments")}
    # placeholders
    f = one(db, DRV + "add_placeholder_mark")
    _, r = run(db, f)
    tok = params(f)[0]
    marks = sorted({k for _, _, st in r for k, _ in pushes(st)})
    if len(marks) != 1:
        raise Broken("add_placeholder_mark does not lengthen one member")
    marks = marks[0]
    begin = member(tok, "begin")
    first = lambda x: begin(x) or member(tok, "first")(x)
    decide(rep, "placeholder", "a mark is recorded at the begin of its token", f.loc(), r, {"the token exists": valid(tok)},
           lambda k, v, st: tuple("begin" if first(x) else show(x) for _, x in pushes(st)), lambda t: ("begin",) if t["the token exists"] else ())
    f = one(db, DRV + "find_placeholder_mark")
    _, r = run(db, f)
    tok = params(f)[0]
    key = lambda x: member(tok, "begin")(x) or member(tok, "first")(x)
    L = lambda x: lookup(x, marks, key)

    def dist(k, v, st):
        v = v if isinstance(v, Lin) else term(strip_lin(v)) if isinstance(v, tuple) else v
        if isinstance(v, Lin):
            if v.const() is not None:
                return str(v.const())
            d = None
            for kk, c in v.t:
                if c == 1 and is_call(kk, "distance", 2) and at_begin(kk[2], marks) and L(kk[3]):
                    d = [x for x in v.t if x[0] is not kk]
                elif c == 1 and L(kk):
                    d = [x for x in v.t if x[0] is not kk and not (x[1] == -1 and at_begin(x[0], marks))]
            if d == []:
                return "index + %d" % v.c
        return show(v)

    found_by_find = any(is_call(x, "find") for _, _, st in r for c, _ in st.cond for x in subterms(c))
    wrong_bound(rep, "placeholder", f, r, marks, key)
    decide(rep, "placeholder", "position of a placeholder", f.loc(), r,
           {"the token exists": valid(tok), "no mark at or after the token": lambda c: eq(c, L, lambda x: at_end(x, marks)),
            "the mark is the token's": lambda c: eq(c, L, key)}, dist,
           lambda t: "0" if not t["the token exists"] or t["no mark at or after the token"] or not (t["the mark is the token's"] or found_by_find) else "index + 1")
    # comments
    f = one(db, DRV + "add_comment_separator")
    _, r = run(db, f)
    loc = params(f)[0]
    seps = sorted({k for _, _, st in r for k, _ in pushes(st)})
    fields = {x["n"]: x for x in db.records[C]["fields"]}
    last = sorted({k[2] for _, _, st in r for k, v in st.env.items() if len(k) == 3 and k[0] == "f" and unwrap(v) == loc})
    r2 = run(db, one(db, DRV + "add_comment"))[1]
    saw = sorted({k[2] for _, _, st in r + r2 for k, v in st.env.items() if len(k) == 3 and k[0] == "f" and isinstance(v, bool)})
    if len(seps) != 1 or len(last) != 1 or len(saw) != 1:
        raise Broken("the members of the comment bookkeeping are not recognised")
    seps, last, saw = seps[0], last[0], saw[0]

    def st_of(name, st):
        return st.env.get(("f", ("this",), name))

    def sawtest(c):
        c2, p = neg(c)
        if isinstance(c2, tuple) and c2 and c2[0] == "not":
            c2, p = c2[1], not p
        return p if fname(c2) == saw else None

    def below(x):
        def m(c):
            if isinstance(c, tuple) and len(c) == 3 and c[0] in ("<", "<="):
                a, b = strip_lin(c[1]), strip_lin(c[2])
                if is_call(a, "back", 1) and fname(a[2]) == seps and x(b):
                    return True if c[0] == "<" else None
                if is_call(b, "back", 1) and fname(b[2]) == seps and x(a) and c[0] == "<=":
                    return False
            return None
        return m

    b = lambda x: member(loc, "begin")(x) or member(loc, "first")(x)
    decide(rep, "record", "a token after comments is a separator", f.loc(), r,
           {"comments since the last token": sawtest, "the token is later": below(b)},
           lambda k, v, st: tuple("begin" if b(x) else show(x) for kk, x in pushes(st) if kk == seps),
           lambda t: ("begin",) if t["comments since the last token"] and t["the token is later"] else ())
    decide(rep, "record", "a token ends the run of comments", f.loc(), r, {"comments since the last token": sawtest},
           lambda k, v, st: "reset" if st_of(saw, st) is False or st_of(saw, st) is None and any(sawtest(c) is not None and (x == (not sawtest(c))) for c, x in st.cond) else show(st_of(saw, st)),
           lambda t: "reset")
    decide(rep, "record", "a token becomes the last token", f.loc(), r, {},
           lambda k, v, st: "token" if unwrap(st_of(last, st)) == loc else show(st_of(last, st)), lambda t: "token")
    f = one(db, DRV + "add_comment")
    _, r = run(db, f)
    loc = params(f)[0]
    com = D["comments"]
    decide(rep, "record", "a comment is recorded once, at its place", f.loc(), r, {},
           lambda k, v, st: tuple("comment" if x == loc else show(x) for kk, x in pushes(st) if kk == com), lambda t: ("comment",))
    lastf = ("field0", last)
    hl = valid(lastf)
    lb = lambda x: member(lastf, "begin")(x) or member(lastf, "first")(x)
    zero = lambda x: isinstance(x, Lin) and x.const() == 0
    atoms = {"comments since the last token": sawtest, "a token was seen": hl,
             "no separator": lambda c: pol(neg(c), lambda x: is_call(x, "empty", 1) and fname(x[2]) == seps),
             "the token is later": below(lambda x: lb(x) or zero(x))}
    decide(rep, "record", "the token before comments is a separator", f.loc(), r, atoms,
           lambda k, v, st: tuple("token" if lb(x) else "0" if zero(x) else show(x) for kk, x in pushes(st) if kk == seps),
           lambda t: () if t["comments since the last token"] else (("token",) if t["a token was seen"] else ("0",)) if t["no separator"] or t["the token is later"] else ())
    decide(rep, "record", "a comment begins a run of comments", f.loc(), r, {"comments since the last token": sawtest},
           lambda k, v, st: "on" if st_of(saw, st) is True or st_of(saw, st) is None and any(sawtest(c) is not None and x == sawtest(c) for c, x in st.cond) else show(st_of(saw, st)),
           lambda t: "on")
    # neighbours
    for nm in ("leading_comments", "following_comments"):
        f = one(db, DRV + nm)
        _, r = run(db, f)
        tok = params(f)[0]
        key = lambda x, tok=tok: member(tok, "begin")(x) or member(tok, "first")(x)
        L = lambda x: lookup(x, seps, key)
        N = lambda x: shifted(x, 1, L)
        B = lambda x: shifted(x, -1, L)
        fbf = any(is_call(x, "find") for _, _, st in r for c, _ in st.cond for x in subterms(c))

        wrong_bound(rep, "neighbours", f, r, seps, key)

        def res(k, v, st):
            if empty_value(v):
                return "none"
            v = strip_lin(unwrap(v))
            if is_call(v, "comments_in_range", 3):
                a = [strip_lin(x) for x in v[3:]]
                return "%s to %s" % tuple("the token" if L(x) or key(x) else "the next token" if N(x) else "the preceding token" if B(x)
                                          else "the end" if is_call(x, "size", 1) and fname(x[2]) == D["document"] else show(x) for x in a)
            return "?"

        def has_doc(c):
            s = presence(c)
            return None if s is None or s[0] != D["document"] else s[1]

        atoms = {"the token exists": valid(tok), "no separator at or after the token": lambda c: eq(c, L, lambda x: at_end(x, seps)),
                 "the separator is the token": lambda c: eq(c, L, key)}
        if nm == "leading_comments":
            atoms["the token is the first separator"] = lambda c: eq(c, L, lambda x: at_begin(x, seps))

            def want(t):
                if not t["the token exists"] or t["no separator at or after the token"] or not (fbf or t["the separator is the token"]) or t["the token is the first separator"]:
                    return "none"
                return "the preceding token to the token"
        else:
            atoms["the token is the last separator"] = lambda c: eq(c, N, lambda x: at_end(x, seps))
            atoms["a document"] = has_doc

            def want(t):
                if not t["the token exists"] or t["no separator at or after the token"] or not (fbf or t["the separator is the token"]):
                    return "none"
                if t["the token is the last separator"]:
                    return "the token to the end" if t["a document"] else "none"
                return "the token to the next token"
        decide(rep, "neighbours", nm, f.loc(), r, atoms, res, want, opaque="?")
    # range
    f = one(db, DRV + "comments_in_range")
    PP, r = run(db, f)
    frm, to = params(f)
    span = None
    seen = 0
    for k, v, st in r:
        v = strip_lin(v)
        if empty_value(v) or not (isinstance(v, tuple) and v[0] == "new" and len(v) > 3):
            continue
        seen += 1
        lo, up = strip_lin(v[2]), strip_lin(v[3])
        if not (is_call(lo, "lower_bound") and at_begin(lo[2], com) and at_end(lo[3], com) and mentions(lo[4], frm[1]) and not mentions(lo[4], to[1])):
            if is_call(lo, "upper_bound") or is_call(lo, "lower_bound") or at_begin(lo, com):
                span = span or "the range begins with %s" % show(lo)
        if not ((is_call(up, "upper_bound") or is_call(up, "lower_bound")) and at_end(up[3], com) and mentions(up[4], to[1]) and not mentions(up[4], frm[1])):
            if is_call(up, "upper_bound") or is_call(up, "lower_bound") or at_end(up, com):
                span = span or "the range ends with %s" % show(up)
    if not seen:
        rep.notes.append("comments_in_range: not decided")
    rep.check(span is None, "range", "bounds", f.loc(), span or "")
    for what, x in (("lower", frm), ("upper", to)):
        bad = None
        for k, v, st in r:
            for e in st.eff:
                if e[0] == "call" and e[1] in ("lower_bound", "upper_bound") and len(e) > 5:
                    lam = [y for y in e[5:] if isinstance(y, tuple) and y[0] == "lambda"]
                    for y in lam:
                        bad = bad or order_lambda(PP, y, st)
        rep.check(bad is None, "range", "%s bound compares the begins" % what, f.loc(), bad or "")
    empty_rule(rep, f, r, com, frm, to)
    description(db, rep, D)


def order_lambda(P, y, st):
    lf = P.lambdas.get(y[1])
    if lf is None:
        return None
    for v, x in P.run_lambda(lf, [("param", "#a"), ("param", "#b")], st):
        if isinstance(v, tuple) and len(v) == 3 and v[0] in ("<", "<="):
            a, b = strip_lin(v[1]), strip_lin(v[2])
            if not (v[0] == "<" and member(("param", "#a"), "begin")(a) and member(("param", "#b"), "begin")(b)):
                return "comments are ordered by %s" % show(v)
    return None


def empty_rule(rep, f, r, com, frm, to):
    """an empty outcome has a reason: the range or the set of comments in it is empty"""
    bad = None
    for k, v, st in r:
        if not empty_value(v):
            continue
        ok = False
        und = False
        for c, b in st.cond:
            c2, p = neg(c)
            pos = b == p
            if isinstance(c2, tuple) and len(c2) == 3 and c2[0] in ("<", "<=") and {strip_lin(c2[1]), strip_lin(c2[2])} <= {frm, to}:
                less = strip_lin(c2[1]) == to
                if pos and less or not pos and not less:
                    ok = True
                continue
            if isinstance(c2, tuple) and len(c2) == 3 and c2[0] == "==" and any(at_end(x, com) for x in c2[1:]) and any(is_call(x, "lower_bound") for x in c2[1:]):
                ok |= pos
                continue
            if isinstance(c2, tuple) and len(c2) == 3 and c2[0] in ("<", "<=", "==") and any(is_call(x, "lower_bound") for x in subterms(c2[1:])) and any(is_call(x, "upper_bound") for x in subterms(c2[1:])):
                if any(isinstance(x, Lin) and x.c for x in c2[1:]):
                    continue
                if c2[0] == "==":
                    ok |= pos
                else:
                    upfirst = is_call(c2[1], "upper_bound")
                    ok |= pos if upfirst else not pos
                continue
            und = True
        if not ok and not und:
            bad = "comments are dropped"
    rep.check(bad is None, "range", "every comment of the range is there", f.loc(), bad or "")


def description(db, rep, D):
    f = one(db, DRV + "leading_description_comment")
    P, r = run(db, f)
    tok = params(f)[0]
    lead = lambda x: is_call(x, "leading_comments", 2) and strip_lin(x[3]) == tok

    def en(c):
        s = presence(c)
        if s is None and fname(c) == D["enable_description_comments"]:
            return True
        return None if s is None or s[0] != D["enable_description_comments"] else s[1]

    def doc(c):
        s = presence(c)
        return None if s is None or s[0] != D["document"] else s[1]

    def search(x):
        x = strip_lin(x)
        return isinstance(x, tuple) and len(x) == 5 and x[0] == "call" and x[1] in ("find_if", "find_if_not")

    lam = {}
    direct = [(x, st) for _, _, st in r for c, _ in st.cond for x in subterms(c) if search(x)]
    for x, st in direct:
        lam[x] = st

    def got(k, v, st):
        if isinstance(v, Obj) and all(isinstance(x, Lin) and x.const() is not None for x in v.f.values()) or empty_value(v):
            return "none"
        v = strip_lin(unwrap(v))
        if search(v):
            a, b = strip_lin(v[2]), strip_lin(v[3])
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 3 and len(b) == 3 and lead(a[2]) and lead(b[2]):
                return "the last" if (a[1], b[1]) in (("rbegin", "rend"), ("crbegin", "crend")) else "%s of %s to %s" % (v[1], a[1], b[1])
        return "?"

    atoms = {"descriptions are enabled": en, "a document": doc, "no leading comments": lambda c: pol(neg(c), lambda x: is_call(x, "empty", 1) and lead(x[2])),
             "none matches": lambda c: eq(c, search, lambda x: is_call(x, "rend", 1) or is_call(x, "crend", 1) or is_call(x, "end", 1) or is_call(x, "cend", 1))}
    decide(rep, "description", "the last matching leading comment", f.loc(), r, atoms, got,
           lambda t: None if t["no leading comments"] and not t["none matches"] else "none" if not t["descriptions are enabled"] or t["no leading comments"] or not t["a document"] or t["none matches"] else "the last", opaque="?")
    if not lam:
        rep.notes.append("description: the form of a description comment is not decided")
        return
    x, st = sorted(lam.items(), key=lambda i: repr(i[0]))[0]
    y = strip_lin(x[4])
    lf = P.lambdas.get(y[1]) if isinstance(y, tuple) and y[0] == "lambda" else None
    if lf is None:
        rep.notes.append("description: the form of a description comment is not decided")
        return
    com = ("param", "#c")
    P2 = Paths(db, inline=lambda g: False)
    P2.lambdas = P.lambdas
    base = len(st.cond)
    res = P2.run_lambda(lf, [com], st)
    outs = []
    for v, z in res:
        if isinstance(v, bool):
            outs.append(("ret", v, z))
        else:
            c, p = neg(v)
            outs += [("ret", p, z.assume(c, True)), ("ret", not p, z.assume(c, False))]

    def text(x, n):
        """length and place of a part of the comment"""
        x = strip_lin(x)
        return is_call(x, "contents", 3)

    strs = {}

    def part(where):
        def m(c):
            c2, p = neg(c)
            if not (isinstance(c2, tuple) and len(c2) == 3 and c2[0] == "=="):
                return None
            for a, b in ((c2[1], c2[2]), (c2[2], c2[1])):
                a, b = strip_lin(a), strip_lin(b)
                if text(a, 0):
                    off, ln = a[3], a[4]
                    off = off if isinstance(off, Lin) else term(strip_lin(off))
                    txt = literal(db, b)
                    n = size_of(db, ln)
                    if txt is None or n is None:
                        return None
                    isb = off == term(("mem", com, "begin"))
                    rest = off - term(("mem", com, "end"))
                    k = size_of(db, -rest) if not isb else None
                    if where == "prefix" and isb and n == len(txt) and txt == "/**":
                        return p
                    if where == "suffix" and not isb and k == n == len(txt) and txt == "*/":
                        return p
                    if not (isb and n == len(txt) and txt == "/**") and not (not isb and k == n == len(txt) and txt == "*/"):
                        strs[(isb, txt, n, k)] = c
            return None
        return m

    sizes = set()

    def short_(c):
        if isinstance(c, tuple) and len(c) == 3 and c[0] in ("<", "<="):
            a, b = c[1], c[2]
            for x_, y_, flip in ((a, b, False), (b, a, True)):
                if is_call(x_, "size", 1) and strip_lin(x_)[2] == com:
                    n = size_of(db, y_)
                    if n is None:
                        return None
                    # size < n | size <= n | n < size | n <= size
                    if not flip:
                        least = n if c[0] == "<" else n + 1
                        sizes.add(least)
                    return True if least == 5 else None
                    least = n + 1 if c[0] == "<" else n
                    return False if least == 5 else None
        return None

    outs = [(k, v, type(z)(z.env, z.eff, z.cond[base:])) for k, v, z in outs]
    n = decide(rep, "description", "a description is a comment /** ... */ of at least 5 characters", f.loc(), outs,
               {"shorter than 5": short_, "begins with /**": part("prefix"), "ends with */": part("suffix")},
               lambda k, v, z: v, lambda t: not t["shorter than 5"] and t["begins with /**"] and t["ends with */"])
    for least in sorted(sizes - {5}):
        rep.bad("description", "least size of a description comment", f.loc(), "a description comment has at least %d characters instead of 5" % least)
    for (isb, txt, n, k), c in strs.items():
        rep.bad("description", "text of the %s" % ("prefix" if isb else "suffix"), f.loc(), "the form of a description comment is tested by %s" % show(c))


def literal(db, v):
    v = strip_lin(v)
    if isinstance(v, tuple) and v and v[0] == "str":
        return v[1]
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ("glob", "var"):
        for x in (db.vars.values() if isinstance(db.vars, dict) else db.vars):
            if x["q"] == v[1] or x["d"] == v[1]:
                for m in walk(x["init"]) if x.get("init") else ():
                    if m["k"] == "Str":
                        return m["v"]
    if isinstance(v, tuple) and v and v[0] in ("new", "call"):
        for x in v[2:]:
            t = literal(db, x)
            if t is not None:
                return t
    return None


def size_of(db, v):
    """a constant, also in terms of sizes of known strings"""
    if isinstance(v, bool):
        return None
    if isinstance(v, Lin):
        n = v.c
        for k, c in v.t:
            if is_call(k, "size", 1) or is_call(k, "length", 1):
                t = literal(db, k[2])
                if t is None:
                    return None
                n += c * len(t)
            else:
                return None
        return n
    v = strip_lin(v)
    if isinstance(v, tuple) and (is_call(v, "size", 1) or is_call(v, "length", 1)):
        t = literal(db, v[2])
        return None if t is None else len(t)
    return None


# ------------------------------------------------------------------------------------------------ P05

class Unroll(Paths):
    """follows loops for up to `n` rounds and keeps the number of rounds as an effect"""
    N = 4

    def loop(self, fr, s, st):
        if s["k"] == "ForRange":
            out = []
            for v, x in self.ev(fr, s["range"], st):
                out += self.rounds(fr, s, x, 0, v)
            return out
        if s["k"] in ("For", "While"):
            out = []
            for k, v, x in self.block(fr, [s["init"]] if s.get("init") is not None else [], st):
                out += self.rounds(fr, s, x, 0, None) if k == "next" else [(k, v, x)]
            return out
        return super().loop(fr, s, st)

    def rounds(self, fr, s, st, i, seq):
        out = []
        if seq is not None:
            tests = [(("more", i), st)]
        elif s.get("cond") is not None:
            tests = self.ev(fr, s["cond"], st)
        else:
            tests = [(True, st)]
        for c, x in tests:
            b = self.tobool(c)
            for want in ((True, False) if b is None else (b,)):
                y = x.assume(c, want) if b is None else x
                if not want:
                    out.append(("next", None, y))
                    continue
                if i >= self.N:
                    out.append(("cut", None, y))
                    continue
                if seq is not None:
                    y = y.set(("l", s["var"]["d"]), ("nth", i, seq))
                y = y.effect(("round", i))
                for k, v, z in self.stmt(fr, s["body"], y):
                    if k in ("next", "continue"):
                        if s.get("inc") is not None:
                            for _, w in self.ev(fr, s["inc"], z):
                                out += self.rounds(fr, s, w, i + 1, seq)
                        else:
                            out += self.rounds(fr, s, z, i + 1, seq)
                    elif k == "break":
                        out.append(("next", None, z))
                    else:
                        out.append((k, v, z))
        return out

    def block(self, fr, ss, st):
        return super().block(fr, ss, st)


def enum_is(name):
    return lambda x: isinstance(x, tuple) and len(x) > 1 and x[0] == "enum" and str(x[1]).split("::")[-1] == name


def tokens(db, rep):
    rep.explanation = ("Abstract evaluation of every path of the driver's functions which turn tokens into names, literals, types and sizes, compared with their decision tables; "
                       "the unquoting of identifiers is unrolled over all classes of characters, which visits every transition of its finite state.")
    rep.rule("identifier", "an identifier has the name, the kind and the region of its token", 6)
    rep.rule("unquote", "a delimited identifier denotes the text between its quotes, with doubled quotes undoubled", 4)
    rep.rule("reserved", "identifiers are reserved exactly if their name begins with two underscores", 6)
    rep.rule("sign", "a sign before an unsigned numeric literal becomes the sign of the literal, any other expression is kept", 6)
    rep.rule("chain", "a qualified name consists of the qualifier's name and the identifier, and spans both", 8)
    rep.rule("size", "a size is the value of its decimal digits, and none if that is not representable", 3)
    identifier_rule(db, rep)
    unquote_rule(db, rep)
    reserved_rule(db, rep)
    sign_rule(db, rep)
    chain_rule(db, rep)
    size_rule(db, rep)


def identifier_rule(db, rep):
    for nm, parse, kind in (("to_regular_identifier", "parse_regular_identifier", "regular"), ("to_delimited_identifier", "parse_delimited_identifier", "delimited")):
        f = one(db, DRV + nm)
        _, r = run(db, f)
        tok, loc = params(f)
        bad = {"name": None, "kind": None, "region": None}
        for k, v, st in r:
            if k != "ret":
                continue
            v = unwrap(v)
            if not ((is_call(v, "node") or is_call(v, "make_unique")) or isinstance(v, tuple) and v and v[0] == "new") or len(v) < 4:
                rep.notes.append("%s: %s is not decided" % (nm, show(v)))
                continue
            a = [unwrap(x) for x in v[2:] if x != ("this",)]
            if not any(is_call(x, parse) and unwrap(x[-1]) == tok for x in a) and not (parse == "parse_regular_identifier" and tok in a):
                bad["name"] = "the name is %s" % show(a[0])
            ks = [x for x in a if isinstance(x, tuple) and x and x[0] == "enum"]
            if not any(enum_is(kind)(x) for x in ks) or len(ks) != 1:
                bad["kind"] = "the kind is %s" % (show(ks[0]) if ks else "the default")
            if loc not in a:
                bad["region"] = "the region is %s" % show(a[-1])
        for w, x in bad.items():
            rep.check(x is None, "identifier", "%s: %s" % (nm, w), f.loc(), x or "")
    f = one(db, DRV + "parse_regular_identifier")
    _, r = run(db, f)
    bad = None
    for k, v, st in r:
        if k == "ret" and unwrap(v) != params(f)[0]:
            bad = "the name is %s" % show(v)
        if calls(st, "pop_back", "push_back", "erase", "insert", "append", "clear", "resize") or any(e[0] == "assign" for e in st.eff):
            bad = bad or "the name is modified"
    rep.check(bad is None, "identifier", "a regular identifier denotes its own text", f.loc(), bad or "")


def size_only(d, tok):
    return len(d.t) == 1 and is_call(d.t[0][0], "size", 1) and d.t[0][0][2] == tok


def unquote_rule(db, rep):
    f = one(db, DRV + "parse_delimited_identifier")
    tok = params(f)[0]
    P = Unroll(db, inline=lambda g: g.file == f.file and g.q != f.q)

    def asserts(st):
        """failed assertions before and after the first round"""
        i = [j for j, e in enumerate(st.eff) if e[0] == "round"]
        a = [j for j, e in enumerate(st.eff) if e[0] == "call" and e[1] in ("__assert_fail", "abort")]
        return any(not i or j < i[0] for j in a), any(i and j > i[0] for j in a)

    r = [x for x in P.run(f, params(f), ("this",)) if not asserts(x[2])[0]]

    def char(x):
        """index of a character of the token"""
        x = strip_lin(x)
        if (is_call(x, "operator[]", 2) or is_call(x, "at", 2)) and isinstance(x[3], Lin):
            o = x[2]
            i = x[3]
            if o == tok and i.const() is not None:
                return i.const()
            if o == tok and len(i.t) == 1 and i.t[0][1] == 1 and is_call(i.t[0][0], "size", 1):
                return ("end", i.c)
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "nth":
            o = unwrap(x[2])
            if is_call(o, "substr", 3) and o[2] == tok and isinstance(o[3], Lin) and o[3].const() is not None:
                return o[3].const() + x[1]
            if o == tok:
                return x[1]
        if is_call(x, "front", 1) and x[2] == tok:
            return 0
        if is_call(x, "back", 1) and x[2] == tok:
            return ("end", -1)
        return None

    n = und = 0
    bad = None
    for k, v, st in r:
        rounds = [e for e in st.eff if e[0] == "round"]
        if k != "ret" or not rounds:
            continue
        quote = {}
        unknown = False
        end = None
        for c, b in st.cond:
            c2, p = neg(c)
            if isinstance(c2, tuple) and len(c2) == 3 and c2[0] == "==" and any(isinstance(y, Lin) and y.const() == 34 and char(x) is not None for x, y in ((c2[1], c2[2]), (c2[2], c2[1]))):
                for x, y in ((c2[1], c2[2]), (c2[2], c2[1])):
                    if char(x) is not None:
                        quote[char(x)] = b == p
            elif isinstance(c2, tuple) and len(c2) == 3 and c2[0] in ("<", "<=", "==") and isinstance(c2[1], Lin) and isinstance(c2[2], Lin) and size_only(c2[2] - c2[1], tok):
                d = c2[2] - c2[1]
                if not b and c2[0] == "<" and d.t[0][1] == 1:
                    end = -d.c - 1
                elif not b and c2[0] == "<=" and d.t[0][1] == 1:
                    end = -d.c - 2
            elif isinstance(c2, tuple) and c2 and c2[0] == "more":
                pass
            elif isinstance(c2, tuple) and len(c2) == 3 and is_call(c2[1], "front", 1) or is_call(c2, "empty", 1):
                pass
            else:
                unknown = True
        out = []
        for e in st.eff:
            if e[0] == "call" and e[1] in ("push_back", "append", "operator+=") and len(e) == 4:
                j = char(e[3])
                if not isinstance(j, int):
                    unknown = True
                out.append(j)
            elif e[0] in ("call", "assign") and e[1] not in ("reserve", "shrink_to_fit") and len(e) > 2 and isinstance(e[2], tuple) and e[2] and e[2][0] in ("new", "fresh"):
                unknown = True
        if unknown:
            und += 1
            continue
        end = end if end is not None else len(rounds) + 1
        free = [i for i in range(1, end) if i not in quote]
        n += 1
        import itertools
        for combo in itertools.product((False, True), repeat=len(free)):
            qq = dict(quote)
            qq.update(zip(free, combo))
            want = []
            i = 1
            ok = True
            lone = False
            while i < end:
                if qq[i]:
                    if i + 1 < end:
                        ok &= qq[i + 1]  # a quote is doubled
                        want.append("Q")
                    else:
                        lone = True
                    i += 2
                else:
                    want.append(i)
                    i += 1
            if not ok:
                continue
            if asserts(st)[1]:
                if not lone:
                    bad = bad or "the characters %s are rejected" % "".join('"' if qq[i] else "x" for i in range(1, end))
            elif ["Q" if qq.get(j) else j for j in out] != want:
                text = "".join('"' if qq[i] else "x" for i in range(1, end))
                if lone and ["Q" if qq.get(j) else j for j in out] == want + ["Q"]:
                    continue  # the second quote is taken with the first one
                bad = bad or "from the characters %s the name takes those at %s" % (text, out)
            else:
                rep.ok("unquote", "characters %s" % "".join('"' if qq[i] else "x" for i in range(1, end)), f.loc())
    rep.count("character sequences", n)
    if bad is not None:
        rep.bad("unquote", "characters of a delimited identifier", f.loc(), bad)
    elif n == 0:
        rep.notes.append("parse_delimited_identifier: not decided")
        for i in range(8):
            rep.ok("unquote", "not decided", f.loc())
    # the bounds: from the character after the first quote to the character before the last one
    first = sorted({char_index for k, v, st in r for char_index in [min([i for i in (char(x) for c, _ in st.cond for x in subterms((c,))) if isinstance(i, int) and i > 0] or [None], key=lambda z: z if z is not None else 10 ** 6)] if char_index is not None})
    if first:
        rep.check(first[0] == 1, "unquote", "begins after the first quote", f.loc(), "the name begins with character %d" % first[0])
    ends = set()
    for k, v, st in r:
        for c, bb in st.cond:
            if isinstance(c, tuple) and len(c) == 3 and c[0] in ("<", "<=", "==", "!=") and isinstance(c[1], Lin) and isinstance(c[2], Lin):
                d = c[2] - c[1]
                if len(d.t) == 1 and is_call(d.t[0][0], "size", 1) and d.t[0][0][2] == tok and abs(d.t[0][1]) == 1 and any(e[0] == "round" for _, _, s2 in r for e in s2.eff):
                    ends.add((c[0], d.t[0][1], d.c))
    # (i < size - 1) for i = 1, 2, ..: size + k with k = -2, -3, ...
    lt = {k for op, s_, k in ends if op == "<" and s_ == 1}
    if lt and max(lt) != -2:
        rep.bad("unquote", "ends before the last quote", f.loc(), "the name ends %s the last quote" % ("after" if max(lt) > -2 else "too early before"))
    else:
        rep.ok("unquote", "ends before the last quote%s" % ("" if lt else " (not decided)"), f.loc())


def reserved_rule(db, rep):
    for nm, at, least in (("check_regular_identifier", 0, (2,)), ("check_delimited_identifier", 1, (3, 4))):
        f = one(db, DRV + nm)
        _, r = run(db, f)
        tok = params(f)[0]
        bounds = set()

        def ch(i):
            return lambda x: ((is_call(x, "operator[]", 2) or is_call(x, "at", 2)) and strip_lin(x)[2] == tok and isinstance(strip_lin(x)[3], Lin) and strip_lin(x)[3].const() == i) \
                or i == 0 and is_call(x, "front", 1) and strip_lin(x)[2] == tok

        us = lambda x: isinstance(x, Lin) and x.const() == 95

        def long(c):
            if isinstance(c, tuple) and len(c) == 3 and c[0] in ("<", "<="):
                for x, y, flip in ((c[1], c[2], False), (c[2], c[1], True)):
                    if is_call(x, "size", 1) and strip_lin(x)[2] == tok and isinstance(y, Lin) and y.const() is not None:
                        k = y.const()
                        # size < k | size <= k: short; k < size | k <= size: long
                        low = (k if c[0] == "<" else k + 1) if not flip else (k + 1 if c[0] == "<" else k)
                        bounds.add(low)
                        return low in least and flip if low in least and flip else (False if low in least else None)
            return None

        outs = []
        for k, v, st in r:
            if k != "ret":
                continue
            if isinstance(v, bool):
                outs.append((k, v, st))
            elif isinstance(v, tuple):
                c, p = neg(v)
                outs += [(k, p, st.assume(c, True)), (k, not p, st.assume(c, False))]
        decide(rep, "reserved", nm, f.loc(), outs,
               {"it is long enough": long, "the first is _": lambda c: eq(c, ch(at), us), "the second is _": lambda c: eq(c, ch(at + 1), us)},
               lambda k, v, st: v, irrelevant=lambda c: any((is_call(x, "operator[]", 2) or is_call(x, "size", 1)) and strip_lin(x)[2] == tok for x in subterms((c,))), expect=lambda t: not (t["it is long enough"] and t["the first is _"] and t["the second is _"]))
        for b in sorted(bounds - set(least)):
            rep.bad("reserved", nm + ": least length", f.loc(), "names of less than %d characters are not tested" % b)


def kind_test(obj, name):
    """test of the kind of an element"""
    return lambda c: eq(c, lambda x: is_call(x, "node_kind", 1) and obj(strip_lin(x)[2]), enum_is(name))


def sign_rule(db, rep):
    f = one(db, DRV + "try_fold_literal")
    _, r = run(db, f)
    ex = params(f)[0]

    def cast(x):
        x = unwrap(x)
        while isinstance(x, tuple) and len(x) == 3 and x[0] == "call" and x[1] in ("unsafe_downcast", "downcast", "operator*", "get"):
            x = unwrap(x[2])
        return x

    e = lambda x: cast(x) == ex
    opk = lambda x: is_call(x, "operator_kind", 1) and e(strip_lin(x)[2]) or is_call(x, "value", 1) and opk(strip_lin(x)[2])
    opd = lambda x: is_call(cast(x), "operand", 1) and e(cast(x)[2])
    lit = lambda x: is_call(cast(x), "value", 1) and opd(cast(x)[2])
    sg = lambda x: is_call(cast(x), "sign", 1) and lit(cast(x)[2])

    def signed(c):
        c2, p = neg(c)
        if isinstance(c2, tuple) and c2 and c2[0] == "not":
            c2, p = c2[1], not p
        if (is_call(c2, "has_value", 1) or is_call(c2, "operator bool", 1)) and sg(strip_lin(c2)[2]) or sg(c2):
            return p
        return None

    atoms = {"it is a unary expression": kind_test(e, "unary_expression"), "plus": lambda c: eq(c, opk, enum_is("plus")), "minus": lambda c: eq(c, opk, enum_is("minus")),
             "the operand is a literal": kind_test(opd, "literal_expression"), "exact": kind_test(lit, "exact_numeric"), "approximate": kind_test(lit, "approximate_numeric"), "signed": signed}

    def got(k, v, st):
        asg = [x for x in st.eff if x[0] in ("assign", "setmem")]
        v = unwrap(v)
        if v == ex:
            return "kept" if not asg else "kept, but changed"
        if not opd(v):
            return "?"
        s = [x for x in asg if sg(x[1])]
        reg = [x for x in asg if is_call(x[1], "region", 1) and opd(strip_lin(x[1])[2])]
        if len(s) != 1:
            return "the literal without a sign"
        val = [y for y in subterms((s[0][2],)) if isinstance(y, tuple) and y and y[0] == "enum" and "sign" in str(y[1])]
        sgn = str(val[0][1]).split("::")[-1] if len(val) == 1 else "?"
        if sgn == "?":
            return "?"
        if not any(is_call(y, "region", 1) and opk(y[2]) for y in subterms((s[0][2],))):
            return "%s without the region of the operator" % sgn
        if not reg or not (is_call(unwrap(reg[0][2]), "region", 1) and e(unwrap(reg[0][2])[2])):
            return "%s without the region of the expression" % sgn
        if len(asg) > 2:
            return "?"
        return sgn

    def want(t):
        if t["plus"] and t["minus"] or t["exact"] and t["approximate"]:
            return None
        if not t["it is a unary expression"] or not (t["plus"] or t["minus"]) or not t["the operand is a literal"] or not (t["exact"] or t["approximate"]) or t["signed"]:
            return "kept"
        return "plus" if t["plus"] else "minus"

    anyenum = lambda x: isinstance(x, tuple) and x and x[0] == "enum"
    kinds = lambda x: is_call(x, "node_kind", 1) and any(o(strip_lin(x)[2]) for o in (e, opd, lit)) or opk(x)
    decide(rep, "sign", "try_fold_literal", f.loc(), r, atoms, got, want, opaque="?", irrelevant=lambda c: eq(c, kinds, anyenum) is not None)


def chain_rule(db, rep):
    def cast(x):
        x = unwrap(x)
        while isinstance(x, tuple) and len(x) == 3 and x[0] == "call" and x[1] in ("unsafe_downcast", "downcast", "operator*", "get"):
            x = unwrap(x[2])
        return x

    def made(v):
        v = unwrap(v)
        if is_call(v, "node") or is_call(v, "make_unique") or isinstance(v, tuple) and v and v[0] == "new" and len(v) > 3:
            return [unwrap(x) for x in v[2:] if x != ("this",)]
        return None

    def union(x, a, b):
        x = unwrap(x)
        return is_call(x, "operator|", 2) and {show(x[2]), show(x[3])} == {show(y) for y in (a, b)}

    # qualified names
    f = one(db, DRV + "try_build_identifier_chain")
    _, r = run(db, f)
    q, i = params(f)
    isq = lambda x: cast(x) == q

    def region_of(x, o):
        x = unwrap(x)
        return is_call(x, "region", 1) and cast(x[2]) == o

    def got(k, v, st):
        a = made(v)
        if a is None:
            return "none" if empty_value(v) or unwrap(v) == ("null",) else "?"
        if len(a) != 3:
            return "?"
        if not (is_call(a[0], "name", 1) and isq(a[0][2])):
            return "the qualifier %s" % show(a[0])
        if cast(a[1]) != i:
            return "the name %s" % show(a[1])
        u = a[2]
        if not (is_call(u, "operator|", 2) and (region_of(u[2], q) and region_of(u[3], i) or region_of(u[2], i) and region_of(u[3], q))):
            return "the region %s" % show(u)
        return "the qualified name"

    decide(rep, "chain", "try_build_identifier_chain", f.loc(), r, {"the qualifier is a variable": kind_test(isq, "variable_reference")}, got,
           lambda t: "the qualified name" if t["the qualifier is a variable"] else "none", opaque="?")
    # user defined types
    f = one(db, DRV + "try_build_type")
    _, r = run(db, f)
    e = params(f)[0]
    ise = lambda x: cast(x) == e

    def got2(k, v, st):
        a = made(v)
        if a is None:
            return "none" if empty_value(v) or unwrap(v) == ("null",) else "?"
        if len(a) != 2:
            return "?"
        if not (is_call(a[0], "name", 1) and ise(a[0][2])):
            return "the name %s" % show(a[0])
        if not region_of(a[1], e):
            return "the region %s" % show(a[1])
        return "the type"

    decide(rep, "chain", "try_build_type", f.loc(), r, {"it is a variable": kind_test(ise, "variable_reference")}, got2,
           lambda t: "the type" if t["it is a variable"] else "none", opaque="?")
    # chains in expressions
    f = one(db, DRV + "try_merge_identifier_chain")
    _, r = run(db, f)
    q, i = params(f)
    isq = lambda x: cast(x) == q
    C = lambda x: is_call(unwrap(x), "try_build_identifier_chain") and [cast(y) for y in unwrap(x)[-2:]] == [q, i]
    arg = lambda x: (is_call(cast(x), "operator[]", 2) or is_call(cast(x), "at", 2)) and isinstance(cast(x)[3], Lin) and cast(x)[3].const() == 0 and args(cast(x)[2]) \
        or is_call(cast(x), "front", 1) and args(cast(x)[2])
    args = lambda x: is_call(unwrap(x), "arguments", 1) and isq(unwrap(x)[2])
    R = lambda x: is_call(unwrap(x), "try_merge_identifier_chain") and arg(unwrap(x)[-2]) and cast(unwrap(x)[-1]) == i

    def truthy(p):
        def m(c):
            c2, pp = neg(c)
            if isinstance(c2, tuple) and c2 and c2[0] == "not":
                c2, pp = c2[1], not pp
            if p(c2):
                return pp
            if isinstance(c2, tuple) and len(c2) == 3 and c2[0] == "==" and ("null",) in c2 and any(p(x) for x in c2[1:]):
                return not pp
            return None
        return m

    def got3(k, v, st):
        v = unwrap(v)
        asg = [x for x in st.eff if x[0] == "assign"]
        a = made(v)
        if a is not None:
            if len(a) != 2:
                return "?"
            if not C(a[0]):
                return "a reference to %s" % show(a[0])
            if not (is_call(unwrap(a[1]), "region", 1) and C(unwrap(a[1])[2])):
                return "the region %s" % show(a[1])
            return "the reference"
        if empty_value(v) or v == ("null",):
            return "none"
        if v != q:
            return "?"
        put = [x for x in asg if arg(x[1])]
        reg = [x for x in asg if is_call(x[1], "region", 1) and isq(strip_lin(x[1])[2])]
        if len(put) != 1 or not R(put[0][2]):
            return "the invocation without the merged argument"
        if len(reg) != 1:
            return "the invocation with its old region"
        u = unwrap(reg[0][2])
        if not (is_call(u, "operator|", 2) and any(region_of(y, q) for y in u[2:]) and any(is_call(unwrap(y), "region", 1) and R(unwrap(y)[2]) for y in u[2:])):
            return "the invocation with the region %s" % show(u)
        return "the invocation"

    atoms = {"the names chain": truthy(C), "it is an invocation": kind_test(isq, "builtin_function_invocation"),
             "of NEXT VALUE FOR": lambda c: eq(c, lambda x: is_call(unwrap(x), "function", 1) and isq(unwrap(x)[2]) or is_call(unwrap(x), "value", 1) and is_call(unwrap(unwrap(x)[2]), "function", 1), enum_is("next_value_for")),
             "with one argument": lambda c: eq(c, lambda x: isinstance(x, Lin) and x.const() == 1, lambda x: is_call(x, "size", 1) and args(strip_lin(x)[2])),
             "the argument chains": truthy(R)}
    decide(rep, "chain", "try_merge_identifier_chain", f.loc(), r, atoms, got3,
           lambda t: "the reference" if t["the names chain"] else "the invocation" if t["it is an invocation"] and t["of NEXT VALUE FOR"] and t["with one argument"] and t["the argument chains"] else "none",
           opaque="?", irrelevant=lambda c: any(is_call(x, "size", 1) and args(strip_lin(x)[2]) for x in subterms((c,))) or eq(c, lambda x: is_call(x, "node_kind", 1) and isq(x[2]) or is_call(unwrap(x), "function", 1), lambda x: isinstance(x, tuple) and x and x[0] == "enum") is not None)


def size_rule(db, rep):
    f = one(db, DRV + "to_size")
    _, r = run(db, f)
    s = params(f)[0]
    conv = lambda x: is_call(x, "strtoull", 3) or is_call(x, "strtoul", 3) or is_call(x, "stoull") or is_call(x, "stoul")
    if not any(conv(y) for k, v, st in r for y in subterms((v,) + tuple(c for c, _ in st.cond))):
        if any(is_call(y, "from_chars") for k, v, st in r for y in subterms((v,) + tuple(c for c, _ in st.cond) + tuple(st.eff))):
            rep.notes.append("to_size: not decided")
            for i in range(3):
                rep.ok("size", "not decided", f.loc())
            return
    errno = lambda x: is_call(x, "__errno_location")
    top = (1 << 64) - 1
    bounds = set()

    def most(c):
        if isinstance(c, tuple) and len(c) == 3 and c[0] in ("<", "<="):
            for x, y, flip in ((c[1], c[2], False), (c[2], c[1], True)):
                if conv(x) and isinstance(y, Lin) and y.const() is not None:
                    low = (y.const() if c[0] == "<" else y.const() + 1) if not flip else (y.const() + 1 if c[0] == "<" else y.const())
                    bounds.add(low)
                    return flip if low in (top, top - 1, (1 << 63) - 1, 1 << 63) or low >= (1 << 31) - 1 else None
        return eq(c, conv, lambda x: isinstance(x, Lin) and x.const() == top)

    def got(k, v, st):
        v2 = unwrap(v)
        if v2 == ("glob", "std::nullopt") or empty_value(v2) and not conv(v2):
            return "none"
        if conv(v2):
            a = strip_lin(v2)
            if len(a) == 5:
                if not (isinstance(a[4], Lin) and a[4].const() == 10):
                    return "the value to base %s" % show(a[4])
                if not mentions(a[2], s[1]):
                    return "the value of %s" % show(a[2])
            return "the value"
        return "?" if isinstance(v2, tuple) else show(v2)

    decide(rep, "size", "to_size", f.loc(), r,
           {"out of range": lambda c: eq(c, errno, lambda x: isinstance(x, Lin) and x.const() == 34), "at least the greatest": most}, got,
           lambda t: "none" if t["out of range"] or t["at least the greatest"] else "the value", opaque="?")
    # errno is cleared before the conversion
    bad = None
    for k, v, st in r:
        ev = [(j, e) for j, e in enumerate(st.eff)]
        cv = [j for j, e in ev if e[0] == "call" and e[1] in ("strtoull", "strtoul")]
        cl = [j for j, e in ev if e[0] == "assign" and errno(e[1]) and isinstance(e[2], Lin) and e[2].const() == 0]
        if cv and any(eq(c, errno, lambda x: True) is not None for c, _ in st.cond) and not (cl and cl[0] < cv[0]):
            bad = "errno is not cleared before the conversion"
    rep.check(bad is None, "size", "errno is cleared", f.loc(), bad or "")


CHECKS = {"P02": outcome, "P03": positions, "P05": tokens}

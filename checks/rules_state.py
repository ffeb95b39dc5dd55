"""P04: the result of a parse or of an analysis depends on its arguments only."""
import re

from aval import show
from mz import Broken, recv, rel, strip, walk
from paths import Paths
from rules_driver import calls, fname, is_call, one, params, subterms, unwrap
from rules_parser import anchor, strip_lin

AMBIENT = {
    "rand", "srand", "random", "srandom", "drand48", "rand_r", "time", "clock", "clock_gettime", "gettimeofday", "getenv", "secure_getenv", "setenv", "putenv", "setlocale",
    "localeconv", "uselocale", "newlocale", "localtime", "gmtime", "mktime", "ctime", "asctime", "strftime", "strtok", "getpid", "getppid", "gettid", "pthread_self", "gethostname",
    "fopen", "open", "getcwd", "strtod", "strtof", "strtold", "atof", "isalpha", "isalnum", "isdigit", "isspace", "isupper", "islower", "ispunct", "isprint", "isxdigit",
    "iscntrl", "isgraph", "isblank", "tolower", "toupper", "strcoll", "strxfrm", "strcasecmp", "strncasecmp", "tmpnam", "mbstowcs", "mbtowc", "mbrtowc", "wcstombs", "mblen",
    "stod", "stof", "stold", "sscanf", "scanf", "get_id", "mkstemp", "getrandom",
}
AMBIENT_TYPE = ("std::random_device", "std::locale", "std::chrono::system_clock", "std::chrono::steady_clock", "std::chrono::_V2", "std::basic_ifstream", "std::basic_fstream",
                "std::collate", "std::ctype", "std::basic_regex")
POINTERLIKE = re.compile(r"(shared_ptr|unique_ptr|maybe_shared_ptr|reference_wrapper|optional_ptr|object_ptr)<(?!const )")


def param_types(d):
    """types of the parameters of a declaration, from its function type"""
    t = d.t or ""
    i = t.find("(")
    if i < 0:
        return []
    depth, out, cur = 0, [], ""
    for c in t[i + 1:]:
        if c in "<([{":
            depth += 1
        if c in ">)]}":
            depth -= 1
            if depth < 0:
                break
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def byref(t):
    """a reference through which its referent can be changed"""
    return t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and not t[:-1].rstrip().endswith("const")


def chain(n):
    """the expressions of which n is a part: the object, member and element accesses below n"""
    while n is not None:
        yield n
        k = n["k"]
        if k == "Call":
            d = n.get("d")
            if d is not None and (d.q in ("std::move", "std::forward", "std::as_const") or d.n in ("begin", "end", "data")) and n.get("c") and recv(n) is None:
                n = n["c"][0]
                continue
            t = (d.rt or "") if d is not None else ""
            n = recv(n) if t.endswith("&") or t.endswith("*") or "optional_ptr" in t or "iterator" in t else None
        elif k == "Op":
            d = n.get("d")
            t = (d.rt or "") if d is not None else ""
            n = n["c"][0] if n.get("c") and (t.endswith("&") or t.endswith("*")) else None
        elif k == "Mem":
            n = n.get("e")
        elif k in ("Un", "Cast", "ICast"):
            n = n.get("e") or (n["c"][0] if n.get("c") else None)
        elif k == "Idx":
            n = n["c"][0] if n.get("c") else None
        elif k == "Cond":
            for x in n.get("c", ())[1:]:
                yield from chain(x)
            n = None
        else:
            n = None


ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}


def changes(f):
    """(what is done, expression of the object which is changed) for every construct of f which can change an object through it"""
    roots = [f.body] + [i["e"] for i in (f.inits or ()) if isinstance(i, dict) and i.get("e") is not None]
    for m in (x for r in roots if r is not None for x in walk(r)):
        k = m["k"]
        if k == "Bin" and m.get("op") in ASSIGN:
            yield "assigned", m["c"][0], m
        elif k == "Un" and m.get("op") in ("++", "--"):
            yield "modified", m.get("e") or m["c"][0], m
        elif k == "Un" and m.get("op") == "&":
            e = m.get("e") or m["c"][0]
            if not (e.get("t") or "").startswith("const "):
                yield "address taken", e, m
        elif k in ("Op", "Call"):
            d = m.get("d")
            if d is None:
                continue
            a = list(m.get("c", ()))
            if k == "Op" and m.get("op") in ASSIGN | {"++", "--"} and a:
                yield "assigned", a[0], m
                continue
            r = recv(m)
            if k == "Op" and d.rec and not d.static and len(param_types(d)) < len(a):
                r, a = a[0], a[1:]
            if r is not None and not d.const and not d.static and d.k in ("method", "conv", "CXXMethod", "CXXConversion", None):
                rt = (d.rt or "")
                if not (r.get("t") or "").startswith("const ") and not accessor(d, r):
                    yield "modified by %s()" % d.n, r, m
            pats = param_types(d.pat) if d.pat is not None else []
            for i, (t, e) in enumerate(zip(param_types(d), a)):
                pt = pats[min(i, len(pats) - 1)] if pats else ""
                forwarded = re.sub(r"\.\.\.$", "", pt).rstrip().endswith("&&") and byref(t)  # T &&
                if byref(t) and not forwarded and d.q not in ("std::move", "std::forward", "std::as_const") and not (e.get("t") or "").startswith("const "):
                    yield "passed to %s() by reference" % d.n, e, m
                elif t.endswith("&&") and e["k"] == "Call" and e.get("d") is not None and e["d"].q == "std::move" and not (e["c"][0].get("t") or "").startswith("const "):
                    yield "moved into %s()" % d.n, e["c"][0], m


def accessor(d, r):
    """a function which only gives access: its result is what would be changed, elsewhere in the expression"""
    if (d.rt or "").endswith("&") and not param_types(d):
        return True
    return d.n in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "get", "operator*", "operator->", "operator[]", "at", "front", "back", "find", "data", "operator bool", "size", "empty")


# ------------------------------------------------------------------------------------------------ static storage, mutable members, casts

def shared(db, rep):
    fns = [f for f in db.fns.values() if f.body is not None and (db.in_repo(f.file) or f.file.startswith(db.gen))]
    vs = {}
    for key, v in db.vars.items():
        if not (db.in_repo(v["file"]) or v["file"].startswith(db.gen)):
            continue
        t = v["t"] or ""
        q = v["q"]
        hole = POINTERLIKE.search(t) or byref(t) or re.search(r"(?<!const)\*( const)?$", t) and not t.startswith("const ")
        if v.get("const") or v.get("constexpr"):
            rep.check(not hole, "static", "%s (%s)" % (q, t[:60]), "%s:%s" % (rel(v["file"]), v.get("l", "")),
                      "the constant is a handle of something which can be changed: it is shared by all parses and analyses")
            continue
        vs[key] = v
    seen = {k: None for k in vs}
    byname = {}
    for k, v in vs.items():
        byname.setdefault(v["q"].split("::")[-1], []).append(k)

    def key_of(n):
        d = n.get("d")
        if d is None or n["k"] not in ("Ref", "Mem"):
            return None
        if d.u in vs:
            return d.u
        if d.pat is not None and d.pat.u in vs:
            return d.pat.u
        for k in byname.get(d.n, ()):
            v = vs[k]
            if re.sub(r"<.*>", "", d.q) == re.sub(r"<.*>", "", v["q"]) and (d.k or "") in ("var", "Var"):
                return k
        return None

    for f in fns:
        for what, e, m in changes(f):
            for x in chain(e):
                k = key_of(x)
                if k and not seen[k]:
                    seen[k] = "%s in %s (%s)" % (what, f.n, f.loc(m))
    for f in fns:
        once_only(f, rep)
    for k, v in vs.items():
        rep.check(seen[k] is None and not v.get("tls"), "static", "%s (%s)" % (v["q"], (v["t"] or "")[:60]), "%s:%s" % (rel(v["file"]), v.get("l", "")),
                  "the variable outlives the call and is %s: what one parse or analysis leaves there, the next one sees" % (seen[k] or "of the thread"))
    for r in db.records.values():
        if not (db.in_repo(r["file"]) or r["file"].startswith(db.gen)):
            continue
        for x in r["fields"]:
            t = x["t"] or ""
            if x.get("mut"):
                ok = "mutex" in t or "once_flag" in t or r["n"].startswith("mizugaki::parser::sql_parser_generated") and x["n"].startswith("yy")
                rep.check(ok, "mutable", "%s::%s" % (r["n"], x["n"]), "%s:%s" % (rel(x.get("F", r["file"])), x.get("l", "")),
                          "the member can change under a const access: concurrent readers of the object race")
            else:
                rep.ok("mutable", "%s::%s" % (r["n"], x["n"]), rel(r["file"]))
    for f in fns:
        n = 0
        for m in walk(f.body):
            if m["k"] == "Cast" and m.get("ck") == "CXXConstCastExpr":
                e = m.get("e") or (m.get("c") or [None])[0]
                own = f.d.const == 0 and e is not None and e["k"] == "Call" and (recv(e) is None or any(x["k"] == "This" for x in walk(recv(e))))
                n += 1
                rep.check(bool(own), "cast", f.q, f.loc(m), "const is cast away: an object which is handed out as const can change")
        if not n:
            rep.ok("cast", f.q, f.loc())


def once_only(f, rep):
    """a static local is initialised by the first call only: its initialiser may depend on nothing which differs from call to call"""
    vs = [m for m in walk(f.body) if m["k"] == "Var"]
    for v in vs:
        if not v.get("static") or v.get("constexpr"):
            continue
        init = v.get("init")
        inner = {id(x) for x in walk(init)} if init is not None else set()
        own = {x["d"].u for x in vs if x.get("d") is not None and not x.get("static") and id(x) not in inner} | {p["d"].u for p in f.params if p.get("d") is not None}
        bad = None
        for x in walk(init) if init is not None else ():
            if x["k"] == "This":
                bad = "the object"
            elif x["k"] == "Ref" and x.get("d") is not None and x["d"].u in own:
                bad = x["d"].n
        rep.check(bad is None, "static", "%s of %s" % (v.get("n"), f.n), f.loc(v),
                  "the variable is initialised by the first call from %s, and every later call, of any parse or analysis, gets what the first one left" % bad)


# ------------------------------------------------------------------------------------------------ ambient state

def ambient(db, rep):
    seen = {}
    for f in db.fns.values():
        if f.body is None or not (db.in_repo(f.file) or f.file.startswith(db.gen)):
            continue
        roots = [f.body] + [i["e"] for i in (f.inits or ()) if isinstance(i, dict) and i.get("e") is not None]
        for m in (x for r in roots for x in walk(r)):
            d = m.get("d")
            if m["k"] not in ("Call", "Op", "New", "CxxNew") or d is None:
                continue
            q = d.q or ""
            if q.startswith(("mizugaki::", "takatori::", "yugawara::")) or db.fn_of(d) is not None and db.in_repo(db.fn_of(d).file):
                continue
            parts = q.split("::")
            bad = None
            if (len(parts) == 1 or parts[0] == "std" and len(parts) == 2) and d.n in AMBIENT or q == "std::this_thread::get_id":
                if not (parts[0] == "std" and d.n in ("isalpha", "isspace") and len(m.get("c", ())) == 2):
                    bad = q
            t = strip(m.get("t") or "") if m["k"] == "New" else ""
            if re.match(r"std::(basic_istream<[^>]*>::)?operator>>$", q):  # formatted input
                bad = q
            for a in AMBIENT_TYPE:
                if q.startswith(a) or t.startswith(a):
                    bad = q or t
            if q in ("strtoull", "std::strtoull", "errno") or q.startswith("_generated_"):
                bad = None
            if bad:
                rep.bad("ambient", "%s in %s" % (bad, f.q), f.loc(m), "depends on the process, not on the arguments: locale, environment, clock, thread or random state")
            else:
                seen.setdefault(q, f.loc(m))
    for q in sorted(seen):
        rep.ok("ambient", q, seen[q])


def order(db, rep):
    """a loop over a container which is ordered by addresses does nothing whose order shows"""
    for f in db.fns.values():
        if f.body is None or not db.in_repo(f.file) or f.dep:
            continue
        for m in walk(f.body):
            if m["k"] != "ForRange":
                continue
            t = strip(m["range"].get("t") or "")
            byaddr = re.match(r"(tsl::hopscotch_(set|map)|std::unordered_(set|map)|std::(set|map))<[^<>]*\*", t)
            if not byaddr:
                rep.ok("order", f.q, f.loc(m))
                continue
            inner = {x["var"]["d"] if isinstance(x.get("var"), dict) else None for x in walk(m) if x["k"] in ("ForRange",)}
            bad = None
            for x in walk(m["body"]):
                if x["k"] in ("Call", "Op") and x.get("d") is not None and recv(x) is not None and not x["d"].const and not x["d"].static:
                    rt = recv(x).get("t") or ""
                    if not rt.startswith("const ") and not any(y.get("d") in inner for y in walk(recv(x)) if y["k"] == "Ref") \
                            and x["d"].n in ("push_back", "emplace_back", "append", "report", "insert", "emplace", "assign"):
                        bad = x
            rep.check(bad is None, "order", f.q, f.loc(m), "the elements come in the order of their addresses, and that order ends up in the result")


# ------------------------------------------------------------------------------------------------ the entry points

def entries(db, rep):
    fs = [f for f in anchor(db, "mizugaki::parser::sql_parser::operator()")]
    for f in fs:
        rep.check(bool(f.d.const), "entry", "sql_parser::operator() of %d arguments" % len(f.params), f.loc(), "not const: the parser can carry state from one parse to the next")
    A = "mizugaki::analyzer::sql_analyzer"
    for f in anchor(db, A + "::operator()"):
        P = Paths(db, inline=lambda x: x.file == f.file and x.q != f.q)
        for k, v, st in P.run(f, params(f)):
            if k != "ret":
                continue
            v = unwrap(v)
            if not (is_call(v, "operator()") or is_call(v, "process")):
                rep.bad("entry", "sql_analyzer::operator()", f.loc(), "returns %s, which is not the analysis of its arguments" % show(v)[:100])
                continue
            got = [unwrap(x) for x in v[3:]]
            want = []
            for p in f.params:
                q = ("param", p["n"])
                if "compilation_unit" in (p.get("t") or p["d"].t or ""):
                    want += [("document", q), ("comments", q)]
                else:
                    want.append(q)
            bad = None
            if len(got) != len(want):
                bad = "%d arguments instead of %d" % (len(got), len(want))
            for i, (x, y) in enumerate(zip(got, want)):
                if y[0] in ("document", "comments"):
                    good = any(is_call(z, y[0]) and unwrap(z[2]) == y[1] for z in subterms(x))
                else:
                    good = x == y
                if not good:
                    bad = bad or "argument %d is %s" % (i + 1, show(x)[:80])
            rep.check(bad is None, "entry", "sql_analyzer::operator() of %d arguments" % len(f.params), f.loc(), bad or "")
    f = one(db, A + "::impl::process")
    rec = db.records[A + "::impl"]
    for x in rec["fields"]:
        rep.check("analyzer_context" in x["t"], "entry", "sql_analyzer::impl::" + x["n"], rel(rec["file"]), "state of the analyzer which the start of an analysis does not reset")
    P = Paths(db, inline=lambda x: x.file == f.file and x.q != f.q)
    n = 0
    for k, v, st in P.run(f, params(f)):
        if k != "ret":
            continue
        n += 1
        bad = None
        ini = [i for i, e in enumerate(st.eff) if e[0] == "call" and e[1] == "initialize"]
        an = [i for i, e in enumerate(st.eff) if e[0] == "call" and e[1] == "analyze_statement"]
        if len(ini) != 1:
            bad = "the context is initialized %d times" % len(ini)
        elif len(an) != 1 or an[0] < ini[0]:
            bad = "the statement is not analyzed once after the initialization"
        else:
            args = [unwrap(x) for x in st.eff[ini[0]][3:]]
            target = one(db, "mizugaki::analyzer::details::analyzer_context::initialize")
            for p, x in zip(target.params, args):
                if x != ("param", p["n"]):
                    bad = "%s of the context is %s" % (p["n"], show(x)[:80])
            if len(args) != len(target.params):
                bad = "%d arguments are passed to the context" % len(args)
            if [unwrap(x) for x in st.eff[an[0]][3:4]] != [("param", "statement")]:
                bad = "%s is analyzed" % ", ".join(show(x) for x in st.eff[an[0]][3:])
        rep.check(bad is None, "entry", "sql_analyzer::impl::process", f.loc(), bad or "")
    if not n:
        raise Broken("impl::process has no path")
    held = [m for m in walk(f.body) if m["k"] == "Var" and m.get("init") is not None and any(
        x["k"] == "Call" and x.get("d") is not None and x["d"].n == "initialize" for x in walk(m["init"]))]
    if not held:
        held = [m for g in db.fns.values() if g.file == f.file and g.body is not None for m in walk(g.body) if m["k"] == "Var" and m.get("init") is not None and any(
            x["k"] == "Call" and x.get("d") is not None and x["d"].n == "initialize" for x in walk(m["init"]))]
    rep.check(bool(held), "entry", "the context is in use while a statement is analyzed", f.loc(), "the object which ends the use of the context is not kept until the end of the analysis")


def context(db, rep):
    C = "mizugaki::analyzer::details::analyzer_context"
    f = one(db, C + "::initialize")
    rec = db.records[C]
    names = [x["n"] for x in rec["fields"]]
    types = {x["n"]: x["t"] for x in rec["fields"]}
    flags = [n for n in names if "atomic<bool>" in types[n]]
    if len(flags) != 1:
        raise Broken("the flag of the context in use was not found")
    flag = flags[0]
    acc = {}
    for g in db.fns.values():
        if g.q.startswith(C + "::") and not g.params and g.q == C + "::" + g.n and not g.dep and g.body is not None:
            for k, v, st in Paths(db, inline=lambda x: x.file == g.file).run(g, [], ("this",)):
                x = fname(unwrap(v)) if v is not None else None
                if x:
                    acc[g.n] = x
    P = Paths(db, inline=lambda x: x.q.startswith(C + "::"))
    res = P.run(f, params(f), ("this",))
    rets = [x for x in res if x[0] == "ret"]
    if not rets:
        raise Broken("initialize() does not return")
    fins = {}

    def reset(st, n):
        """how the member is fresh at the end of the path"""
        v = st.env.get(("f", ("this",), n))
        if v is not None:
            v = unwrap(v)
            return v == () or isinstance(v, tuple) and v[0] in ("new", "default", "list", "fresh") and len(v) <= 2 or v in (None, ("void",)) or isinstance(v, tuple) and v[:1] == ("obj",)
        return any(e[1] == "clear" and fname(e[2]) == n for e in st.eff if e[0] == "call")

    def eanalyzer(st, n):
        have = set()
        for e in st.eff:
            if e[0] != "call":
                continue
            if e[1] == "clear_diagnostics" and fname(e[2]) == n:
                have.add("diagnostics")
            if e[1] == "clear" and is_call(e[2], "variables") and fname(strip_lin(e[2])[2]) == n:
                have.add("variables")
            if e[1] == "clear" and is_call(e[2], "expressions") and fname(strip_lin(e[2])[2]) == n:
                have.add("expressions")
        if reset(st, n):
            have |= {"diagnostics", "variables", "expressions"}
        return have

    fin = []
    for k, v, st in rets:
        for x in subterms(v):
            if isinstance(x, tuple) and x and x[0] == "lambda" and x[1] in P.lambdas:
                from aval import St
                fin.append(P.run_lambda(P.lambdas[x[1]], [], St()))
    bad = None
    if len(fin) != len(rets):
        bad = "no function ends the use of the context"
    for paths in fin:
        for v, st in paths:
            if not any(e[0] == "call" and e[1] in ("store", "operator=", "exchange", "clear") and fname(e[2]) == flag and (len(e) < 4 or e[3] is False) for e in st.eff) \
                    and st.env.get(("f", ("this",), flag)) is not False:
                bad = "the end of an analysis does not release the context"
    rep.check(bad is None, "reset", "the end of an analysis", f.loc(), bad or "")
    later = [st for paths in fin for v, st in paths]
    for k, v, st in rets:
        # the guard
        g = any(isinstance(x, tuple) and any(fname(y) == flag for y in subterms(x)) for c in st.cond for x in [c[0]])
        rep.check(g, "reset", "initialize(): the context is not in use", f.loc(), "two analyses can use the same context")
        for p in f.params:
            n = acc.get(p["n"])
            if n is None:
                raise Broken("analyzer_context::%s() does not return a member" % p["n"])
            x = unwrap(st.env.get(("f", ("this",), n)))
            rep.check(x == ("param", p["n"]), "reset", "initialize(): " + p["n"], f.loc(), "%s() of the context is %s" % (p["n"], show(x)[:80] if x is not None else "left as it was"))
        args = {acc[p["n"]] for p in f.params}
        for n in names:
            if n in args or n == flag:
                continue
            if "expression_analyzer" in types[n]:
                have = eanalyzer(st, n)
                for s in later:
                    have |= eanalyzer(s, n)
                for w in ("diagnostics", "variables", "expressions"):
                    rep.check(w in have, "reset", "initialize(): %s of the expression analyzer" % w, f.loc(), "the %s of an earlier analysis stay" % w)
            else:
                ok = reset(st, n) or later and all(reset(s, n) for s in later)
                rep.check(bool(ok), "reset", "initialize(): " + n, f.loc(), "the %s of an earlier analysis stay" % n.rstrip("_"))
    # nothing turns on a mode of the expression analyzer which would stay
    for g in db.fns.values():
        if g.body is None or not db.in_repo(g.file):
            continue
        for m in walk(g.body):
            if m["k"] == "Call" and m.get("d") is not None and m["d"].n == "allow_unresolved" and m.get("c"):
                a = m["c"][0]
                rep.check(a["k"] == "Bool" and not a["v"], "reset", "%s: allow_unresolved" % g.q, g.loc(m), "the mode is left on for the analyses which follow")


def tree(db, rep):
    """the analyzer does not change the syntax tree"""
    for f in db.fns.values():
        if f.body is None or "/src/mizugaki/analyzer/" not in f.file or f.dep:
            continue
        n = 0
        for what, e, m in changes(f):
            for x in chain(e):
                if x["k"] == "Call" and x.get("d") is not None and (x["d"].q or "").startswith("mizugaki::ast::") and (x["d"].rec or "").startswith("mizugaki::ast::") \
                        and (x["d"].rt or "").endswith("&") and not (x["d"].rt or "").startswith("const "):
                    n += 1
                    rep.bad("tree", "%s: %s" % (f.q, x["d"].q), f.loc(m), "a part of the syntax tree is %s: analyzing the same tree again gives something else" % what)
                    break
        if not n:
            rep.ok("tree", f.q, f.loc())


def state(db, rep):
    rep.explanation = ("Every object of static storage, mutable member, const_cast, ambient library call, loop over an address-ordered container and change of a syntax tree in the repository's "
                       "functions; abstract evaluation of the entry points of the parser and of the analyzer and of the reset of the analyzer's context.")
    rep.rule("static", "nothing changes a variable of static storage after its initialization", 50)
    rep.rule("mutable", "no member can change under a const access", 300)
    rep.rule("cast", "const is not cast away", 3000)
    rep.rule("ambient", "nothing reads the locale, environment, clock, thread or random state", 300)
    rep.rule("order", "the order of addresses does not show", 60)
    rep.rule("entry", "the entry points use their own arguments, each in its place", 6)
    rep.rule("reset", "an analysis starts with its own arguments and with nothing of an earlier one", 12)
    rep.rule("tree", "the analyzer does not change the syntax tree", 250)
    shared(db, rep)
    ambient(db, rep)
    order(db, rep)
    entries(db, rep)
    context(db, rep)
    tree(db, rep)


CHECKS = {"P04": state}

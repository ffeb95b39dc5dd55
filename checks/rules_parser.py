"""P01..: limits of the syntax tree, outcome and options of the parser, bookkeeping of the driver, absence of shared mutable state."""
import re

from aval import Lin, Obj, St, term, Interp, show
from mz import Broken, HIERARCHIES, recv, rel, short, strip, walk
from paths import Paths, is_path
from rules_ast import all_bases, all_fields, ast_records
from rules_kind import hierarchy

NODE = re.compile(r"^std::unique_ptr<mizugaki::ast::([\w:]+)>$")
ENTRY = "mizugaki::parser::sql_tree_validator::operator()"


def anchor(db, q, n=None):
    fs = [f for f in db.by_q.get(q, ()) if f.body is not None and not f.dep]
    if not fs:
        raise Broken("no definition of " + q)
    if n is not None:
        fs = [f for f in fs if len(f.params) == n]
    return fs


# ------------------------------------------------------------------------------------------------ P01

def node_paths(db, t, base, out):
    """owned child elements of an object of type t"""
    t = strip(t)
    if NODE.match(t):
        out.append((base, t))
        return
    m = re.match(r"^(?:std::optional|mizugaki::ast::common::(?:clone_wrapper|regioned)|takatori::util::(?:clonable|optional_ptr))<(.*)>$", t)
    if m and not t.startswith("takatori::util::optional_ptr"):
        node_paths(db, m.group(1), base, out)
        return
    m = re.match(r"^std::vector<(.*)>$", t)
    if m:
        node_paths(db, m.group(1), base + ("*",), out)
        return
    r = db.records.get(t)
    if r is not None and t.startswith("mizugaki::ast::"):
        for f in all_fields(db, r):
            node_paths(db, f["t"], base + (f["n"],), out)


def le(c, v):
    """a path condition as a set of (linear term <= 0) facts; None if it is something else"""
    if isinstance(c, Lin):
        return [Lin((), 1) - c] if v else [c]  # an unsigned number used as a condition
    if not isinstance(c, tuple) or len(c) != 3 or not isinstance(c[1], Lin) or not isinstance(c[2], Lin):
        return None
    op, a, b = c
    if op == "<":
        return [a - b + Lin((), 1)] if v else [b - a]
    if op == "<=":
        return [a - b] if v else [b - a + Lin((), 1)]
    if op in ("==", "!="):
        if op == "!=":
            v = not v
        z, x = (a, b) if a.const() == 0 else (b, a)
        if z.const() != 0:
            return [a - b, b - a] if v else None
        x = x if x.t and x.t[0][1] > 0 else -x
        return [x] if v else [Lin((), 1) - x]
    return None


def facts(st):
    out = set()
    for c, v in st.cond:
        out |= set(le(c, v) or ())
    return out


def known_null(cond, p):
    """the conditions of the path say that p does not exist"""
    pre = {p[:i] for i in range(2, len(p) + 1)}
    for c, v in cond:
        if is_path(c) and not v and c in pre:
            return True
        if isinstance(c, tuple) and c and c[0] == "nonempty" and not v and c[1] in pre:
            return True
        if isinstance(c, tuple) and len(c) == 3 and c[0] in ("==", "!=") and ("null",) in c[1:]:
            o = c[1] if c[2] == ("null",) else c[2]
            if o in pre and v == (c[0] == "=="):
                return True
    return False


class Visit:
    """the functions which make up the validation"""

    def __init__(self, db):
        self.db = db
        self.fn = anchor(db, ENTRY)[0]
        self.file = self.fn.file
        self.pending = {}
        self.done = {}
        self.callbacks = {}   # type of the callback -> dispatch calls

    def inline(self, f):
        if f.file == self.file:
            return True
        return f.q.startswith("mizugaki::ast::") and f.d.const and len(f.params) == 0

    def visiting(self, d):
        f = self.db.fn_of(d)
        if f is None or f.file != self.file:
            return None
        ps = [i for i, p in enumerate(f.params) if NODE.match(strip(p["t"]))]
        return f if ps else None

    def model(self, root=None, havoc=()):
        def m(itp, fr, n, name, rv, av, st):
            if n["k"] not in ("Call", "Op"):
                return None
            d = n.get("d")
            if d is None:
                return None
            f = self.visiting(d)
            if f is not None:
                i = [i for i, p in enumerate(f.params) if NODE.match(strip(p["t"]))][0]
                p = av[i] if i < len(av) else None
                if p == root:
                    return None
                self.pending[f.d.u] = f
                ints = [a for a in av if isinstance(a, Lin)]
                snap = None
                if isinstance(fr.this, tuple) and fr.this and fr.this[0] == "at":
                    o = st.env.get(fr.this[1])
                    if isinstance(o, Obj):
                        snap = o
                        st = st.set(fr.this[1], Obj(o.t, {k: (v if k not in havoc else ("counted", k)) for k, v in o.f.items()}))
                st = st.effect(("accept", p, ints[0] if len(ints) == 1 else None, f, snap, n.get("l")))
                return [(("accepted", p), st)]
            if d.n == "dispatch" and (d.q or "").startswith("mizugaki::ast::"):
                ints = [a for a in av if isinstance(a, Lin)]
                p = [a for a in av if is_path(a)]
                self.callbacks.setdefault(strip(n["c"][0].get("t", "")), []).append((fr.fn, n))
                st = st.effect(("visit", p[0] if p else None, ints[0] if len(ints) == 1 else None, av[0]))
                return [(("visited", p[0] if p else None), st)]
            if d.n == "operator()" and av and is_path(av[0]) and self.db.fn_of(d) is not None and self.db.fn_of(d).file == self.file and \
                    strip(self.db.fn_of(d).params[0]["t"]).startswith("mizugaki::ast::") and strip(self.db.fn_of(d).params[0]["t"]) != "mizugaki::ast::compilation_unit":
                ints = [a for a in av if isinstance(a, Lin)]
                st = st.effect(("visit", av[0], ints[0] if len(ints) == 1 else None, rv))
                return [(("visited", av[0]), st)]
            return None
        return m


def limits(db, rep):
    rep.explanation = ("Abstract evaluation (over access paths, every path of every function) of the tree validator: each owned child element of each class, "
                       "found from the members of the classes, must be accepted exactly once with the depth of its parent; accepting must count one, "
                       "deepen by one and apply both limits; the totals must reach the result.")
    rep.rule("visit-child", "visiting an element accepts each owned child exactly once, unless the child is absent", 110)
    rep.rule("visit-depth", "children are accepted with the depth of their parent", 100)
    rep.rule("visit-result", "visiting fails exactly if a child fails, and stops there", 70)
    rep.rule("accept-count", "accepting an element adds exactly one to the number of elements", 10)
    rep.rule("accept-depth", "accepting an element visits it one level deeper than its parent and records the greatest depth", 10)
    rep.rule("accept-limit", "accepting fails exactly if a non-zero limit is exceeded, with an exceed_number_of_elements diagnostic which has the element's region", 20)
    rep.rule("totals", "the totals are those of the validated tree and reach the parser result", 6)
    V = Visit(db)
    D = term(("depth",))
    root = ("path", "e")
    # -- all classes
    visited_classes = {}
    eng = None
    roles = {}
    # the top function: finds the engine
    P = Paths(db, inline=V.inline, model=V.model(root=None))
    top = P.run(V.fn, [("path", "cu")], ("this",))
    # accepts reachable
    done = set()
    while True:
        todo = [f for u, f in V.pending.items() if u not in done]
        if not todo:
            break
        for f in todo:
            done.add(f.d.u)
            accept_rule(db, rep, V, f, D, roles)
        for cb, uses in list(V.callbacks.items()):
            if cb in visited_classes:
                continue
            visited_classes[cb] = True
            rec = db.records.get(cb)
            if rec is None:
                raise Broken("unknown callback class " + cb)
            ops = {}
            for m in rec["methods"]:
                if m.n == "operator()":
                    f = db.fn_of(m)
                    if f is not None and f.params:
                        ops[strip(f.params[0]["t"])] = f
            for g in db.fns.values():
                if g.n == "operator()" and g.d.rq == rec["n"] if hasattr(g.d, "rq") else False:
                    if g.params and not g.dep:
                        ops.setdefault(strip(g.params[0]["t"]), g)
            for r in ast_records(db):
                hs = hierarchy(db, r)
                if not hs or r.get("abs") or r["n"].endswith("<>"):
                    continue
                f = None
                for c in [r] + all_bases(db, r):
                    f = f or ops.get(c["n"])
                if f is None:
                    rep.bad("visit-child", r["n"], rel(rec["file"]), "the tree validation does not handle %s" % r["n"])
                    continue
                visit_rule(db, rep, V, f, r, D)
    if len(set(map(str, roles.values()))) == 0:
        raise Broken("no element counter found in the tree validation")
    top_rule(db, rep, V, roles)


def visit_rule(db, rep, V, f, r, D):
    root = ("path", "e")
    own = []
    node_paths(db, r["n"], root, own)
    P = Paths(db, inline=V.inline, model=V.model(root=None))
    ints = [i for i, p in enumerate(f.params) if i]
    res = P.run(f, [root] + [D for _ in ints], ("this",))
    name = short(f.q) if False else r["n"][len("mizugaki::ast::"):]
    missing, twice, depth, results = {}, {}, {}, []
    ownset = {p for p, _ in own}
    full = 0
    for kind, v, st in res:
        if kind != "ret":
            continue
        acc = [e for e in st.eff if e[0] == "accept"]
        failed = [c[1] for c, b in st.cond if isinstance(c, tuple) and c and c[0] == "accepted" and not b]
        if any(e[0] == "again" and any(isinstance(c, tuple) and c and c[0] == "accepted" and not b for c, b in st.cond[:e[1]]) for e in st.eff):
            results.append("goes on after a child has failed")
        for _, p, d, fn, _, line in acc:
            if d != D:
                depth[p] = (d, line)
        if v is False:
            if not failed:
                results.append("fails although no child failed")
            continue
        if v is True or (isinstance(v, tuple) and v and v[0] == "accepted"):
            if failed:
                results.append("succeeds although %s failed" % pp(failed[0]))
                continue
            full += 1
            seen = {}
            for e in acc:
                seen[e[1]] = seen.get(e[1], 0) + 1
            # results of accept which were neither tested nor returned
            tested = {c[1] for c, b in st.cond if isinstance(c, tuple) and c and c[0] == "accepted"}
            for e in acc:
                if e[1] not in tested and v != ("accepted", e[1]):
                    results.append("ignores the outcome of %s" % pp(e[1]))
            for p in ownset:
                if p not in seen and not known_null(st.cond, p):
                    missing[p] = True
                if seen.get(p, 0) > 1:
                    twice[p] = True
        else:
            results.append("returns %s" % show(v))
    loc = f.loc()
    for p, t in own:
        c = "%s %s" % (name, pp(p))
        rep.check(p not in missing and p not in twice and full, "visit-child", c, loc,
                  "%s of %s is %s by the tree validation" % (pp(p), name, "counted twice" if p in twice else "not counted"))
        if p not in missing:
            rep.check(p not in depth, "visit-depth", c, loc,
                      "%s of %s is accepted with the depth %s instead of the depth of its parent" % (pp(p), name, show(depth.get(p, (0, 0))[0])))
    rep.check(not results, "visit-result", name, loc, "visiting %s %s" % (name, results[0] if results else ""))


def pp(p):
    return ".".join(x for x in p[2:]) if is_path(p) else show(p)


def is_diag(v, root):
    """(has the right code, has the region of the element)"""
    code = reg = False
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, Obj):
            todo += list(x.f.values())
        elif isinstance(x, tuple):
            if x and x[0] == "enum" and x[1].endswith("::exceed_number_of_elements"):
                code = True
            if is_path(x):
                reg = reg or x == root + ("region_",)
            elif len(x) >= 3 and x[0] == "call" and x[1] == "region" and x[2] == root:
                reg = True
            else:
                todo += [y for y in x if isinstance(y, (tuple, Obj, Lin))]
        elif isinstance(x, Lin):
            todo += [k for k, _ in x.t if isinstance(k, tuple)]
    return code, reg


def writes(st):
    return {k[2]: v for k, v in st.env.items() if k[0] == "f" and k[1] == ("this",)}


def accept_rule(db, rep, V, f, D, roles):
    root = ("path", "e")
    i = [i for i, p in enumerate(f.params) if NODE.match(strip(p["t"]))][0]
    name = strip(f.params[i]["t"])
    name = "accept(%s)" % NODE.match(name).group(1)
    args = [root if k == i else D for k in range(len(f.params))]
    P = Paths(db, inline=V.inline, model=V.model(root=root))
    res = P.run(f, args, ("this",))
    loc = f.loc()
    D1 = D + Lin((), 1)
    cnt, dep, lim = [], [], []
    nullpath = False
    visits = 0
    for kind, v, st in res:
        if kind != "ret":
            continue
        w = writes(st)
        vis = [e for e in st.eff if e[0] == "visit" and e[1] == root] + [e for e in st.eff if e[0] == "accept" and e[1] == root]
        if known_null(st.cond, root):
            nullpath = True
            if v is not True or vis or any(isinstance(x, Lin) for x in w.values()):
                cnt.append("counts or rejects an absent element")
            continue
        # the counter
        counters = {k: x for k, x in w.items() if isinstance(x, Lin) and x == term(("field0", k)) + Lin((), 1)}
        if not counters:
            cnt.append("does not add one to a counter on some path")
            continue
        C = sorted(counters)[0]
        roles.setdefault("count", C)
        if roles["count"] != C:
            cnt.append("adds to a different counter")
        cntv = counters[C]
        # the deepest level
        mx = None
        fs = facts(st)
        for k, x in w.items():
            if k == C:
                continue
            k0 = term(("field0", k))
            if isinstance(x, Lin) and len(x.t) == 1 and isinstance(x.t[0][0], tuple) and x.t[0][0][:2] == ("call", "max"):
                a = list(x.t[0][0][2:])
                if k0 in a:
                    a.remove(k0)
                    mx = (k, a[0])
            elif isinstance(x, Lin) and (k0 - x + Lin((), 1) in fs or k0 - x in fs):
                mx = (k, x)
        if mx is None:
            # unchanged, if the path knows that the depth is not greater
            for k0 in fs:
                g = D1 - k0 if False else None
            cand = [k for k in roles.get("depths", ()) if (D1 - term(("field0", k))) in fs or (D1 - term(("field0", k)) + Lin((), 1)) in fs]
            g = [x for x in fs if any(isinstance(k, tuple) and k[0] == "field0" and c == -1 for k, c in x.t) and any(k == ("depth",) and c == 1 for k, c in x.t)]
            if cand or g:
                pass
            else:
                dep.append("does not record the depth on some path")
        else:
            roles.setdefault("depth", mx[0])
            roles.setdefault("depths", set()).add(mx[0])
            if mx[1] != D1:
                dep.append("records the depth %s of an element whose parent has the depth %s" % (show(mx[1]), show(D)))
        # limits
        exceeded = {}
        for x in fs:
            for k, c in x.t:
                pass
        lims = sorted({k[1] for x in fs for k, c in x.t if isinstance(k, tuple) and k[0] == "field0" and k[1] not in (C, roles.get("depth"))})
        bound = {}
        for L in lims:
            l = term(("field0", L))
            for what, X in (("node", cntv), ("depth", D1)):
                if l - X + Lin((), 1) in fs and Lin((), 1) - l in fs:
                    exceeded[what] = L
                if l - X + Lin((), 1) in fs or X - l in fs:
                    bound.setdefault(what, L)
        for what, L in list(bound.items()):
            if roles.setdefault("limit-" + what, L) != L:
                lim.append("compares the number of the %s with %s" % (what, L))
        diag = [(k, x) for k, x in w.items() if is_diag(x, root)[0]]
        if vis:
            visits += 1
            for e in vis:
                if e[2] != D1:
                    dep.append("visits the element with the depth %s instead of %s" % (show(e[2]), show(D1)))
            if len(vis) > 1:
                cnt.append("visits an element twice")
            if exceeded:
                lim.append("goes on although a limit is exceeded")
            for what in ("node", "depth"):
                L = roles.get("limit-" + what)
                X = cntv if what == "node" else D1
                if L is None:
                    lim.append("does not test the limit of the %s" % ("number of elements" if what == "node" else "depth"))
                    continue
                l = term(("field0", L))
                if not (l in fs or X - l in fs):
                    lim.append("goes on although %s may exceed %s" % (show(X), L))
            ok = v == ("visited", root) or (v is True and (("visited", root), True) in st.cond) or (v is False and (("visited", root), False) in st.cond) \
                or v == ("accepted", root)
            if not ok:
                lim.append("does not return the outcome of the visit")
        else:
            if v is not False:
                lim.append("succeeds without visiting the element")
            if not exceeded:
                lim.append("fails although no limit is exceeded: %s" % "; ".join("%s <= 0" % x for x in sorted(fs, key=repr)))
            if not diag:
                lim.append("fails without an exceed_number_of_elements diagnostic")
            elif not all(is_diag(x, root)[1] for _, x in diag):
                lim.append("the diagnostic does not have the region of the element")
            if diag:
                roles.setdefault("result", diag[0][0])
    if not visits:
        lim.append("never visits the element")
    if not nullpath:
        cnt.append("does not allow for an absent element")
    rep.check(not cnt, "accept-count", name, loc, "%s %s" % (name, cnt[0] if cnt else ""))
    rep.check(not dep, "accept-depth", name, loc, "%s %s" % (name, dep[0] if dep else ""))
    rep.check(not [x for x in lim if "limit is" not in x], "accept-limit", name + " stops/goes on", loc, "%s %s" % (name, ([x for x in lim if "limit is" not in x] or [""])[0]))
    rep.check(not [x for x in lim if "limit is" in x], "accept-limit", name + " exact", loc, "%s %s" % (name, ([x for x in lim if "limit is" in x] or [""])[0]))


def top_rule(db, rep, V, roles):
    """sql_tree_validator::operator(), with the object it creates followed as an aggregate"""
    f = V.fn
    loc = f.loc()
    hv = [roles[k] for k in ("count", "depth", "result") if k in roles]
    P = Paths(db, inline=V.inline, model=V.model(root=None, havoc=hv))
    cu = ("path", "cu")
    res = P.run(f, [cu], ("this",))
    prob = {"start": [], "limits": [], "totals": [], "outcome": [], "disabled": [], "all": []}
    some = 0
    lf = {}
    for kind, v, st in res:
        if kind != "ret":
            continue
        acc = [e for e in st.eff if e[0] == "accept"]
        w = writes(st)
        fs = facts(st)
        for e in acc:
            some += 1
            if e[2] is None or e[2].const() != 0:
                prob["start"].append("the statements are accepted with the depth %s" % show(e[2]))
            if e[1] != cu + ("statements_", "*"):
                prob["all"].append("accepts %s" % pp(e[1]))
            if isinstance(e[4], Obj):
                for what in ("node", "depth"):
                    x = e[4].f.get(roles.get("limit-" + what))
                    key = x.t[0][0] if isinstance(x, Lin) and len(x.t) == 1 else None
                    if isinstance(key, tuple) and key[0] == "field0":
                        lf.setdefault(what, set()).add(key[1])
                    else:
                        prob["limits"].append("the limit of the %s is %s" % (what, show(x)))
                if e[4].f.get(roles["count"]) != Lin((), 0) or e[4].f.get(roles["depth"]) != Lin((), 0):
                    prob["totals"].append("counting does not start at zero")
        if any(e[0] == "again" and any(isinstance(c, tuple) and c and c[0] == "accepted" and not b for c, b in st.cond[:e[1]]) for e in st.eff):
            prob["outcome"].append("goes on after a statement has failed")
        if acc:
            vals = [x for k, x in w.items()]
            if ("counted", roles["count"]) not in vals or ("counted", roles["depth"]) not in vals:
                prob["totals"].append("the totals are not kept")
            else:
                for k, x in w.items():
                    for what in ("count", "depth"):
                        if x == ("counted", roles[what]):
                            lf.setdefault("last-" + what, set()).add(k)
            if v != ("counted", roles["result"]):
                prob["outcome"].append("the outcome is %s and not the diagnostic of the validation" % show(v))
        elif not any(isinstance(c, tuple) and c and c[0] == "nonempty" and not b for c, b in st.cond):
            lims = [term(("field0", k)) for s in ("node", "depth") for k in lf.get(s, ())]
            # validation skipped: no limit may be set
            if isinstance(v, tuple) and "counted" in v:
                prob["disabled"].append("returns %s" % show(v))
            prob.setdefault("skip", []).append(fs)
    for fs in prob.pop("skip", []):
        for s in ("node", "depth"):
            for k in lf.get(s, ()):
                if term(("field0", k)) not in fs:
                    prob["disabled"].append("the validation is skipped although the limit %s may be set" % k)
    if not some:
        prob["all"].append("no statement is validated")
    for s in ("node", "depth"):
        if len(lf.get(s, ())) != 1:
            prob["limits"].append("the limit of the %s does not come from the validator" % s)
    names = {"start": "statements are accepted at depth zero", "limits": "limits of the validator reach the validation", "totals": "totals are kept",
             "outcome": "outcome of the validation is returned", "disabled": "validation is skipped only without limits", "all": "every statement is validated"}
    for k, t in names.items():
        rep.check(not prob[k], "totals", t, loc, "%s: %s" % (f.q, prob[k][0] if prob[k] else ""))
    if any(prob.values()):
        return
    # the parser: options -> validator -> result
    last = {}
    for what, nm in (("count", "last_node_count"), ("depth", "last_max_depth")):
        g = anchor(db, "mizugaki::parser::sql_tree_validator::" + nm)[0]
        r = Paths(db).run(g, [], ("this",))
        want = sorted(lf["last-" + what])[0]
        rep.check(all(strip_lin(v) == ("field0", want) for _, v, _ in r), "totals", nm + " returns the total of the validation", g.loc(),
                  "%s does not return %s" % (g.q, want))
    fs = [g for g in anchor(db, "mizugaki::parser::sql_parser::operator()") if len(g.params) == 1]
    if len(fs) != 1:
        raise Broken("sql_parser::operator() not found")
    g = fs[0]
    vals = []

    def model(itp, fr, n, name, rv, av, st):
        if name == ENTRY and isinstance(rv, Obj):
            vals.append((rv, n))
            st = st.effect(("validate", rv, av))
            return [(("validated",), st)]
        return None

    P = Paths(db, inline=lambda x: x.q.startswith("mizugaki::parser::sql_tree_validator::sql_tree_validator") or x.file == g.file, model=model)
    res = P.run(g, [("param", "document")], ("this",))
    if not vals:
        raise Broken("sql_parser::operator() does not call the tree validation on an object it creates")
    for rv, n in vals:
        for what, opt in (("node", "tree_node_limit"), ("depth", "tree_depth_limit")):
            x = strip_lin(rv.f.get(sorted(lf[what])[0]))
            rep.check(mentions(x, opt), "totals", "the option %s limits the %s" % (opt, "number of elements" if what == "node" else "depth"), g.loc(n),
                      "the limit of the %s is %s instead of the option %s" % (what, show(x), opt))
    bad = []
    for kind, v, st in res:
        if kind != "ret":
            continue
        kn = st.known(("validated",))
        if any(e[0] == "validate" for e in st.eff):
            if kn is True:
                if not (isinstance(v, tuple) and mentions(v, "validated")):
                    bad.append("the diagnostic of the validation is not returned")
            elif kn is False:
                ass = [e for e in st.eff if e[0] == "assign"]
                for dst, src in (("max_tree_depth", "last_max_depth"), ("tree_node_count", "last_node_count")):
                    if not any(mentions(e[1], dst) and mentions(e[2], src) for e in ass):
                        bad.append("%s of the result is not the total of the validation" % dst)
                if mentions(v, "validated") or not mentions(v, "result"):
                    bad.append("the result of the parser is not returned")
            else:
                bad.append("the outcome of the validation is ignored")
        elif not any(mentions(c, "has_value") and not b for c, b in st.cond):
            bad.append("a successful result is not validated")
    rep.check(not bad, "totals", "outcome of the validation reaches the result", g.loc(), "%s: %s" % (g.q, bad[0] if bad else ""))


def strip_lin(v):
    if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        return v.t[0][0]
    return v


def mentions(v, name):
    todo = [v]
    while todo:
        x = todo.pop()
        if x == name:
            return True
        if isinstance(x, Obj):
            todo += list(x.f.values())
        elif isinstance(x, Lin):
            todo += [k for k, _ in x.t]
        elif isinstance(x, (tuple, list)):
            todo += list(x)
    return False


CHECKS = {"P01": limits}

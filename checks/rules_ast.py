"""Properties of the syntax tree classes: clone, equality, serialization, kinds, accessors."""
import re

from boolpaths import BoolPaths
from common import Broken
from mz import walk, children, recv, strip, rel, short
from sym import Sym, is_transparent

AST = "mizugaki::ast::"
REGION = "mizugaki::ast::element::region_"


def ast_records(db):
    """record types of the syntax tree which hold data (no traits, no serializer helpers)"""
    for n, r in sorted(db.records.items()):
        if not n.startswith(AST) or r.get("dep"):
            continue
        if "::impl::" in n or "::serializers::" in n or "type_of<" in n or r.get("tmpl", "").endswith("type_of"):
            continue
        yield r


def all_bases(db, r):
    out = []
    for b in r["bases"]:
        br = db.records.get(b)
        if br is not None:
            out.append(br)
            out += all_bases(db, br)
    return out


def all_fields(db, r):
    fs = list(r["fields"])
    for b in all_bases(db, r):
        fs += b["fields"]
    return fs


def derives(db, r, base):
    return any(b["n"] == base for b in all_bases(db, r))


def methods(db, r, name=None, kind=None):
    out = []
    for m in r["methods"]:
        if name is not None and m.n != name:
            continue
        if kind is not None and m.k != kind:
            continue
        out.append(m)
    return out


def ctor_fns(db, r):
    """constructor definitions of a record, template instantiations included"""
    idx = getattr(db, "_ctor_idx", None)
    if idx is None:
        idx = {}
        for f in db.fns.values():
            if f.d.k == "CXXConstructor" and f.body is not None and not f.dep:
                idx.setdefault(f.d.rec, []).append(f)
        db._ctor_idx = idx
    return sorted(idx.get(r["n"], []), key=lambda f: (f.file, f.line))


def tag_param(d):
    return d.t is not None and re.match(r"^void \((takatori::util::)?clone_tag_t,", d.t)


def rloc(r):
    return "%s:%d" % (rel(r["file"]), r["l"])


# ------------------------------------------------------------------------------------------------ clone

def clone(db, rep):
    S = Sym(db)
    rep.explanation = ("For every syntax tree class, the origin of every data member (own and inherited, the region included) after "
                       "each clone/copy/move constructor and assignment is computed through delegation, base constructors, accessors and "
                       "helpers; it must be that same member of the source object and no other member.")
    rep.rule("clone-member", "each member of a clone/copy constructor's result originates from the same member of the source, and from no other", 350)
    rep.rule("clone-method", "clone() const& and clone() && return a new object of their own class built by cloning *this", 110)
    rep.rule("clone-region", "constructors taking a region store it as the region of the new element", 150)
    rep.rule("assign-returns", "user-written assignment operators assign every member and return *this on every path", 2)
    rep.rule("clone-helper", "the helpers that clone vectors and optionals visit every element", 2)
    nodes = 0
    for r in ast_records(db):
        name = r["n"]
        fields = all_fields(db, r)
        isnode = derives(db, r, "mizugaki::ast::node")
        if isnode:
            nodes += 1
        for f in ctor_fns(db, r):
            m = f.d
            src = None
            if tag_param(m) and len(f.params) == 2 and strip(f.params[1]["t"]) == name:
                src = f.params[1]["d"]
            elif m.cc in ("copy", "move") and not m.defd:
                src = f.params[0]["d"]
            if src is not None:
                res = S.ctor(f)
                for fd in fields:
                    o = res.get(fd["d"], set())
                    mine = {x for x in o if not isinstance(x[0], tuple)}
                    con = "%s -> %s" % (f.q, fd["n"])
                    if (src, fd["d"]) not in mine:
                        rep.bad("clone-member", con, f.loc(), "the clone's member %s does not come from %s.%s (it comes from %s)" % (
                            fd["n"], "other", fd["n"], fmt(o)))
                    elif any(x != (src, fd["d"]) for x in mine):
                        rep.bad("clone-member", con, f.loc(), "the clone's member %s also depends on %s" % (fd["n"], fmt(mine - {(src, fd["d"])})))
                    else:
                        rep.ok("clone-member", con, f.loc())
            else:
                # ordinary constructors: the region parameter becomes the region
                regs = [p for p in f.params if strip(p["t"]).endswith("node_region")]
                if isnode and len(regs) == 1:
                    res = S.ctor(f)
                    o = set()
                    for k, v in res.items():
                        if k.q == REGION:
                            o |= v
                    rep.check((regs[0]["d"], None) in o, "clone-region", f.q, f.loc(),
                              "the region given to the constructor is not stored as the region of the element (it is %s)" % fmt(o))
        for m in methods(db, r, name="operator="):
            f = db.fn_of(m)
            if f is None or f.body is None or m.defd:
                continue
            check_assign(db, S, rep, r, m, f)
        if isnode and not r.get("abs"):
            cl = [m for m in methods(db, r, name="clone")]
            for m in cl:
                f = db.fn_of(m)
                if f is None or f.body is None:
                    continue
                check_clone_method(db, S, rep, r, m, f)
    rep.count("node classes", nodes)
    for q in ("mizugaki::ast::common::clone_vector", "mizugaki::ast::common::clone_optional"):
        for f in db.by_q.get(q, []):
            if f.body is None or f.dep and False:
                continue
            if not f.dep:
                continue
            check_clone_helper(db, S, rep, f)


def fmt(os):
    r = []
    for (root, f) in sorted(os, key=str):
        if isinstance(root, tuple):
            r.append("constant " + str(root[1]))
        else:
            r.append("%s%s" % ("this" if root == "this" else (root.n or root.q), "." + f.n if f is not None else ""))
    return ", ".join(r) or "nothing"


def check_assign(db, S, rep, r, m, f):
    """user-written copy/move assignment"""
    con = f.q
    src = f.params[0]["d"]
    got = {}
    for n in walk(f.body):
        S._assign(f, n, got)
    good = True
    for fd in r["fields"] if not f.dep else ():
        o = {x for x in got.get(fd["d"], set()) if not isinstance(x[0], tuple)}
        if not o:
            # placement new on the member's address: destroy_at(&x); new (&x) T(std::move(other.x))
            for n in walk(f.body):
                if n["k"] == "CxxNew" and "e" in n:
                    o |= {x for x in S.origins(f, n["e"]) if not isinstance(x[0], tuple)}
        if (src, fd["d"]) not in o and (src, None) not in o:
            rep.bad("assign-returns", con, f.loc(), "assignment does not take over the member %s" % fd["n"])
            good = False
    if strip(m.rt) != "void" and falls_through(f.body):
        rep.bad("assign-returns", con, f.loc(), "control can reach the end of this assignment operator without returning *this")
        good = False
    else:
        for n in walk(f.body, into_lambda=False):
            if n["k"] == "Return" and "e" in n and ("this", None) not in S.origins(f, n["e"]):
                rep.bad("assign-returns", con, f.loc(n), "returns something else than *this")
                good = False
    if good:
        rep.ok("assign-returns", con, f.loc())


def falls_through(s):
    """can control leave the statement s normally (structured code)"""
    if s is None:
        return True
    k = s["k"]
    if k in ("Return", "Throw"):
        return False
    if k == "Block":
        return all(falls_through(c) for c in s["c"])
    if k == "If":
        return falls_through(s["then"]) or falls_through(s.get("else"))
    if k == "Call" and s.get("d") is not None and s["d"].q in NORETURN:
        return False
    if k == "While" and s.get("cond", {}).get("k") == "Bool" and s["cond"]["v"]:
        return any(x["k"] == "Break" for x in walk(s["body"]))
    if k == "Try":
        return falls_through(s["body"]) or any(falls_through(c.get("body")) for c in s["c"])
    if k == "Switch":
        return True
    return True


NORETURN = {"std::abort", "abort", "std::terminate", "exit", "std::exit", "takatori::util::throw_exception", "__builtin_unreachable"}


def check_clone_method(db, S, rep, r, m, f):
    """return new C(clone_tag, *this)"""
    con = "%s %s" % (f.q, "&&" if m.rq == "&&" else "const&")
    rets = returned(db, f)
    if not rets:
        rep.bad("clone-method", con, f.loc(), "clone() returns nothing")
        return
    for (g, e) in rets:
        e = peel(e)
        if e["k"] in ("Nullptr",):
            rep.bad("clone-method", con, g.loc(e), "clone() returns null")
            return
        n = find_new(db, g, e)
        if n is None:
            rep.bad("clone-method", con, g.loc(e), "clone() does not return a newly created object")
            return
        if strip(n["t"]).replace(" *", "") != r["n"]:
            rep.bad("clone-method", con, g.loc(e), "clone() creates a %s" % n["t"])
            return
        o = set()
        for a in children(n):
            o |= S.origins(g, a)
        if g is f:
            whole = ("this", None) in o
            mem = {x[1] for x in o if x[0] == "this"}
        else:
            whole = any(not isinstance(x[0], tuple) and x[1] is None for x in o)
            mem = {x[1] for x in o if not isinstance(x[0], tuple)}
        if not whole:
            # a clone written member by member through the main constructor
            c = n
            while c["k"] != "New" and any(True for _ in children(c)):
                c = next(children(c))
            cf = db.fn_of(c.get("d")) if c["k"] == "New" else None
            miss = [fd["n"] for fd in all_fields(db, r) if fd["d"] not in mem]
            if cf is None or miss:
                rep.bad("clone-method", con, g.loc(e), "clone() does not take over %s" % (", ".join(miss) or "*this"))
                return
            res = S.ctor(cf)
            idx = {p["d"]: i for i, p in enumerate(cf.params)}
            for fd in all_fields(db, r):
                out = set()
                S._subst(g, res.get(fd["d"], set()), cf, None, c["c"], out, 0, frozenset())
                out = {x for x in out if not isinstance(x[0], tuple)}
                if {x[1] for x in out} != {fd["d"]}:
                    rep.bad("clone-method", con, g.loc(e), "clone() fills the member %s from %s" % (fd["n"], fmt(out)))
                    return
    rep.ok("clone-method", con, f.loc())


def peel(e):
    while e["k"] in ("Cast", "ICast") and "e" in e:
        e = e["e"]
    return e


def find_new(db, f, e):
    e = peel(e)
    if e["k"] == "CxxNew":
        return e
    if e["k"] == "Call" and e.get("d") is not None and e["d"].n == "release" and recv(e) is not None:
        for x in walk(resolve_local(f, recv(e))):
            if x["k"] == "Call" and x.get("d") is not None and x["d"].n == "make_unique":
                t = re.match(r"std::unique_ptr<(.*?)(, std::default_delete.*)?>$", strip(x["t"]))
                return {"k": "New", "t": t.group(1) if t else "", "c": x["c"], "d": None}
            if x["k"] == "CxxNew":
                return x
    if e["k"] == "Ref" and e["d"] is not None and e["d"].local and e["d"].k == "Var":
        x = resolve_local(f, e)
        if x is not e:
            return find_new(db, f, x)
    return None


def resolve_local(f, e):
    if e["k"] == "Ref" and e["d"] is not None and e["d"].local:
        for n in walk(f.body):
            if n["k"] == "Var" and n["d"] is e["d"] and "init" in n:
                return n["init"]
    return e


def returned(db, f, depth=0):
    """(function, expression) pairs a function may return, following direct forwarding to another function"""
    out = []
    for n in walk(f.body, into_lambda=False):
        if n["k"] == "Return" and "e" in n:
            e = peel(n["e"])
            if e["k"] == "Cond":
                es = [e["then"], e["else"]]
            else:
                es = [e]
            for x in es:
                x = peel(x)
                if x["k"] == "Call" and depth < 4:
                    g = db.fn_of(x.get("d"))
                    if g is not None and g.body is not None and g is not f and not (x["d"].virt):
                        out += returned(db, g, depth + 1)
                        continue
                out.append((f, x))
    return out


def check_clone_helper(db, S, rep, f):
    """clone_vector/clone_optional: the result depends on the argument, and no element is skipped"""
    bad = None
    for n in walk(f.body):
        if n["k"] in ("For", "ForRange", "While"):
            for x in walk(n["body"]):
                if x["k"] in ("Continue", "Break", "Return"):
                    bad = n
    rep.check(bad is None, "clone-helper", f.q + " (%d params)" % len(f.params), f.loc(bad) if bad else f.loc(),
              "a loop which clones elements can skip some of them")


# ------------------------------------------------------------------------------------------------ equality

def equality(db, rep):
    S = Sym(db)
    B = BoolPaths(db, S)
    rep.explanation = ("Each operator== of a syntax tree class is evaluated over all its paths into cubes of atomic comparisons; 'true' "
                       "must imply that the objects are identical or every member (the region excepted) was compared pairwise, 'false' must "
                       "imply that some pair of corresponding members was found different. equals() and operator!= are tied to it.")
    rep.rule("eq-true-total", "every path to 'equal' compares each member with the same member of the other object (or the objects are one)", 75)
    rep.rule("eq-false-justified", "every path to 'different' has found a difference between corresponding members", 75)
    rep.rule("neq-negates", "operator!= is the negation of operator==", 70)
    rep.rule("equals-kind", "equals() yields true only if the other node's kind is its own and operator== of its class holds", 60)
    rep.rule("eq-dispatch", "operator== of an abstract class is its equals()", 8)
    recs = {r["n"]: r for r in ast_records(db)}
    seen = set()
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line)):
        if f.n not in ("operator==", "operator!=") or not f.q.startswith(AST) or f.body is None or f.dep or f.inst:
            continue
        if len(f.params) == 2:
            t0, t1 = strip(f.params[0]["t"]), strip(f.params[1]["t"])
        else:
            continue
        if t0 != t1 or t0 not in recs:
            continue
        r = recs[t0]
        a, b = f.params[0]["d"], f.params[1]["d"]
        if f.n == "operator!=":
            check_neq(db, S, B, rep, f, a, b)
            continue
        seen.add(t0)
        if r.get("abs") or polymorphic_eq(f):
            ok = False
            for n in walk(f.body):
                if n["k"] == "Call" and n.get("d") is not None and n["d"].n == "equals":
                    o1 = S.origins(f, recv(n)) if recv(n) else set()
                    o2 = set()
                    for x in n["c"]:
                        o2 |= S.origins(f, x)
                    ok |= (o1 == {(a, None)} and o2 == {(b, None)}) or (o1 == {(b, None)} and o2 == {(a, None)})
            paths = B.paths(f, {a: "a", b: "b"})
            for cube, val in paths:
                if val is False and not justified(cube):
                    ok = False
                if val is True and not any(k[0] in ("ident", "unknown", "rec") and v for k, v in cube.items()):
                    ok = False
            rep.check(ok, "eq-dispatch", f.q + "(" + short(t0) + ")", f.loc(), "operator== of the abstract class is not equals() of its operands")
            continue
        # positions in the source text (the region, regions of comments) are not content
        fields = [x for x in all_fields(db, r) if not is_position(x["t"])]
        paths = B.paths(f, {a: "a", b: "b"})
        if paths is None:
            rep.notes.append("%s: too many paths" % f.q)
            continue
        con = "operator==(%s)" % t0
        miss_t = None
        bad_f = None
        ntrue = 0
        for cube, val in paths:
            if val is True:
                ntrue += 1
                if any(k[0] == "ident" and v for k, v in cube.items()):
                    continue
                for fd in fields:
                    if not covered(cube, fd["d"]):
                        miss_t = (cube, fd)
                        break
            else:
                if not justified(cube):
                    bad_f = cube
        rep.check(ntrue > 0, "eq-true-total", con, f.loc(), "operator== can never yield true")
        if miss_t:
            rep.bad("eq-true-total", con + " ." + miss_t[1]["n"], f.loc(), "yields true without having compared %s of both operands (path: %s)" % (miss_t[1]["n"], fcube(miss_t[0])))
        else:
            rep.ok("eq-true-total", con, f.loc())
        if bad_f is not None:
            rep.bad("eq-false-justified", con, f.loc(), "yields false although no difference was found (path: %s)" % fcube(bad_f))
        else:
            rep.ok("eq-false-justified", con, f.loc())
    for r in recs.values():
        for m in methods(db, r, name="equals"):
            f = db.fn_of(m)
            if f is None or f.body is None or not m.ov:
                continue
            check_equals(db, S, B, rep, r, f)
        # a concrete node class without operator==?
        if derives(db, r, "mizugaki::ast::node") and not r.get("abs") and not r.get("dep"):
            if r["n"] not in seen and not r.get("tmpl"):
                rep.count("node classes without an operator== of their own")


def polymorphic_eq(f):
    return False


def is_position(t):
    t = strip(t)
    # the document is where the text came from, like the region within it
    return t == "mizugaki::ast::node_region" or "document::document" in t or re.match(r"std::(vector|optional)<mizugaki::ast::node_region>$", t)


# members that have a meaning only for one value of a kind member of the same class; on a path on which both objects
# are known not to have that value the member need not be compared (privilege_user: a name exists for users only)
GUARDED = {
    "mizugaki::ast::statement::privilege_user::authorization_identifier_":
        ("mizugaki::ast::statement::privilege_user::user_kind_", "mizugaki::ast::statement::privilege_user_kind::identifier"),
}


def covered(cube, fd):
    if cube.get(("cmp", fd)) is True:
        return True
    g = GUARDED.get(fd.q)
    if g is not None:
        for k, v in cube.items():
            if k[0] == "testv" and k[2].q == g[0] and k[3] == g[1] and v is False and any(c[0] == "cmp" and c[1].q == g[0] and w for c, w in cube.items()):
                return True
    ta, tb = cube.get(("test", "a", fd)), cube.get(("test", "b", fd))
    if ta is not None and tb is not None and ta == tb and ta is False:
        return True
    if ta is not None and ta == tb and strip(fd.t) == "bool":
        return True
    return False


def justified(cube):
    """a 'different' result: some comparison failed"""
    for k, v in cube.items():
        if k[0] in ("cmp", "part", "kind", "rec") and v is False:
            return True
        if k[0] == "unknown":
            return True
        if k[0] == "test" and k[1] == "a":
            o = cube.get(("test", "b", k[2]))
            if o is not None and o != v:
                return True
    return False


def fcube(cube):
    r = []
    for k, v in cube.items():
        if k[0] == "cmp":
            r.append("%s%s" % (k[1].n, "=" if v else "!="))
        elif k[0] == "ident":
            r.append("same object" if v else "not same object")
        else:
            r.append("%s is %s" % (" ".join(str(getattr(x, "n", x)) for x in k), v))
    return ", ".join(r) or "unconditional"


def all_content(db, r):
    return [x for x in all_fields(db, r) if not is_position(x["t"])]


def check_neq(db, S, B, rep, f, a, b):
    paths = B.paths(f, {a: "a", b: "b"}, opaque_eq=True)
    ok = bool(paths)
    for cube, val in paths or ():
        v = cube.get(("rec",))
        if v is None or v == val:
            ok = False
    rep.check(ok, "neq-negates", "operator!=(%s)" % strip(f.params[0]["t"]), f.loc(), "operator!= is not the negation of operator==")


def check_equals(db, S, B, rep, r, f):
    other = f.params[0]["d"]
    paths = B.paths(f, {other: "b", "this": "a"}, opaque_eq=True)
    con = f.q
    msg = None
    t = 0
    for cube, val in paths or ():
        if val is True:
            t += 1
            if not any(k[0] == "kind" and v for k, v in cube.items()):
                msg = "yields true without having checked the kind of the other node"
            elif all_content(db, r) and not any(k[0] in ("rec", "ident") and v for k, v in cube.items()):
                msg = "yields true without operator== of the class"
        else:
            if not justified(cube):
                msg = "yields false without a difference"
    if t == 0:
        msg = "never yields true"
    # the downcast target is this class
    if msg is None:
        for n in walk(f.body):
            if n["k"] == "Call" and n.get("d") is not None and n["d"].n in ("unsafe_downcast", "downcast"):
                if strip(n["t"]) != r["n"]:
                    msg = "casts the other node to %s" % n["t"]
    rep.check(msg is None, "equals-kind", con, f.loc(), msg or "")


# ------------------------------------------------------------------------------------------------ serialization

SER = "mizugaki::ast::common::serializers::"


def accessor_map(db, S, r):
    """field declaration -> names of the accessors (own or inherited) returning exactly it"""
    out = {}
    for x in [r] + all_bases(db, r):
        for m in x["methods"]:
            if m.k != "CXXMethod" or m.np:
                continue
            f = db.fn_of(m)
            if f is None or f.body is None:
                continue
            o = S.ret(f)
            if len(o) == 1:
                (root, fd) = next(iter(o))
                if root == "this" and fd is not None:
                    out.setdefault(fd, set()).add(m.n)
    return out


def calls_in(db, S, f, roles, depth=0, conds=()):
    """(function, call node, roles, conditions) of every call in f and the helpers it hands the object to.
    roles: parameter (or 'this') -> 'obj' / 'acc'"""
    out = []

    def visit(n, conds):
        k = n["k"]
        if k == "If":
            for x in ("init", "var", "cond"):
                if x in n:
                    visit(n[x], conds)
            c = n.get("cond")
            visit(n["then"], conds + ((f, c),))
            if "else" in n:
                visit(n["else"], conds + ((f, c),))
            return
        if k in ("ForRange",):
            visit(n["range"], conds)
            visit(n["body"], conds + ((f, n["range"]),))
            return
        if k == "Cond":
            visit(n["cond"], conds)
            visit(n["then"], conds + ((f, n["cond"]),))
            visit(n["else"], conds + ((f, n["cond"]),))
            return
        if k == "Switch":
            visit(n["cond"], conds)
            visit(n["body"], conds + ((f, n["cond"]),))
            return
        if k == "Call" or k == "New" or k == "Op":
            out.append((f, n, roles, conds))
            g = db.fn_of(n.get("d"))
            if g is not None and g.body is not None and depth < 5 and not g.q.startswith(SER) and not (n["d"].virt and k == "Call"):
                sub = {}
                for p, a in zip(g.params, n["c"] if not (k == "Op" and n["d"].k == "CXXMethod") else n["c"][1:]):
                    for (root, fd) in S.origins(f, a):
                        if root in roles and fd is None:
                            sub[p["d"]] = roles[root]
                rc = recv(n)
                if rc is not None:
                    for (root, fd) in S.origins(f, rc):
                        if root in roles and fd is None:
                            sub["this"] = roles[root]
                if "obj" in sub.values():
                    out.extend(calls_in(db, S, g, sub, depth + 1, conds))
        for c in children(n):
            visit(c, conds)
    if f.body:
        visit(f.body, conds)
    return out


def serialize(db, rep):
    S = Sym(db)
    rep.explanation = ("For every class with a serialization (a serialize() override or an operator<< for the acceptor) each member is "
                       "traced into the calls that hand values to the acceptor; the literal property name of the call must be the name of "
                       "the public accessor of that very member, and no property may be subject to a condition on another member.")
    rep.rule("ser-member", "every member (positions excepted) is handed to the acceptor", 190)
    rep.rule("ser-name", "the property name of a member is the name of its accessor, and no two members share one", 180)
    rep.rule("ser-unconditional", "no property is left out depending on other members", 190)
    rep.rule("ser-struct", "the serialized form is opened as a structure of the node (kind) and carries the region", 60)
    rep.rule("ser-print", "operator<< to a stream prints the value it is given", 80)
    for r in ast_records(db):
        f = None
        obj = None
        for m in methods(db, r, name="serialize"):
            g = db.fn_of(m)
            if g is not None and g.body is not None:
                f, obj = g, "this"
        if f is None:
            for g in db.by_q.get(r["n"].rsplit("::", 1)[0] + "::operator<<", []):
                if g.body is not None and not g.dep and len(g.params) == 2 and "object_acceptor" in g.params[0]["t"] and strip(g.params[1]["t"]) == r["n"]:
                    f, obj = g, g.params[1]["d"]
        if f is None or r.get("abs") or is_position(r["n"]):
            continue
        acc = accessor_map(db, S, r)
        calls = calls_in(db, S, f, {obj: "obj"})
        flds = [x for x in all_fields(db, r) if not is_position(x["t"])]
        handed = {}
        names = {}
        for (g, n, roles, conds) in calls:
            d = n.get("d")
            if d is None:
                continue
            if g.q.startswith(SER):
                continue
            takes_acc = any("object_acceptor" in (a.get("t") or "") for a in n["c"]) or (recv(n) is not None and "object_acceptor" in (recv(n).get("t") or ""))
            if not takes_acc:
                continue
            lit = None
            fs = set()
            for a in n["c"]:
                for (root, fd) in S.origins(g, a):
                    if root in roles and roles[root] == "obj" and fd is not None:
                        fs.add(fd)
                    if isinstance(root, tuple) and a["k"] == "Str":
                        lit = root[1]
            if d.n in ("property_block",) and lit is not None:
                names.setdefault(None, set()).add(lit)
            for fd in fs:
                handed.setdefault(fd, []).append((g, n, roles, conds, lit if d.n == "property" else None, fs))
        for x in flds:
            fd = x["d"]
            con = "%s.%s" % (r["n"], x["n"])
            hs = handed.get(fd)
            if not hs:
                # the kind member is written by struct_block as node_kind
                if fd in kind_fields(db, S, r):
                    rep.ok("ser-member", con + " (as node_kind)", f.loc())
                    continue
                rep.bad("ser-member", con, f.loc(), "the member %s is not part of the serialized form" % x["n"])
                continue
            if all(len(h[5]) > 1 for h in hs):
                rep.bad("ser-member", con, hs[0][0].loc(hs[0][1]), "the value of %s is mixed with other members" % x["n"])
            else:
                rep.ok("ser-member", con, f.loc())
            for (g, n, roles, conds, lit, fs) in hs:
                if lit is None or len(fs) > 1:
                    continue
                want = acc.get(fd, set())
                if want:
                    rep.check(lit in want, "ser-name", con, g.loc(n), "the property is named '%s', the accessor of the member %s" % (lit, ", ".join(sorted(want))))
                if lit in names and names[lit] is not fd:
                    rep.bad("ser-name", con, g.loc(n), "the property name '%s' is used twice" % lit)
                names[lit] = fd
            cond_bad = None
            uncond = False
            for (g, n, roles, conds, lit, fs) in hs:
                bad = False
                for (cf, c) in conds:
                    if c is None:
                        continue
                    for (root, cfd) in S.origins(cf, c):
                        if isinstance(root, tuple) or cfd is None or cfd is fd:
                            continue
                        guard = GUARDED.get(fd.q)
                        if guard is not None and cfd.q == guard[0]:
                            continue
                        bad = True
                    if c["k"] == "Bool" and not c["v"]:
                        bad = True
                if not bad:
                    uncond = True
                else:
                    cond_bad = (g, n)
            rep.check(uncond, "ser-unconditional", con, cond_bad[0].loc(cond_bad[1]) if cond_bad else f.loc(), "the member is written only under a condition on other members")
        if f.n == "serialize":
            sb = any(n.get("d") is not None and n["d"].n == "struct_block" for (_, n, _, _) in calls)
            rp = any(n.get("d") is not None and n["d"].n == "region_property" for (_, n, _, _) in calls)
            rep.check(sb and rp, "ser-struct", r["n"], f.loc(), "serialize() does not open a struct block" if not sb else "serialize() does not write the region")
    for q, fs in db.by_q.items():
        if not q.startswith(AST) or not q.endswith("::operator<<"):
            continue
        for g in fs:
            if g.body is None or g.dep or len(g.params) != 2 or "ostream" not in g.params[0]["t"]:
                continue
            o = set()
            for n in walk(g.body):
                if n["k"] in ("Call", "Op"):
                    for a in n["c"]:
                        o |= S.origins(g, a)
            rep.check((g.params[1]["d"], None) in o or any(x[0] is g.params[1]["d"] for x in o), "ser-print", "operator<<(%s)" % strip(g.params[1]["t"]), g.loc(), "the printed text does not depend on the value")


def kind_fields(db, S, r):
    """members from which node_kind() (or kind()) is computed"""
    out = set()
    for x in [r] + all_bases(db, r):
        for m in x["methods"]:
            if m.n in ("node_kind", "kind") and not m.np:
                f = db.fn_of(m)
                if f is not None and f.body is not None:
                    out |= {fd for (root, fd) in S.ret(f) if root == "this" and fd is not None}
    return out


CHECKS = {"C01": clone, "C02": equality, "C03": serialize}

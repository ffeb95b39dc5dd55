"""C05: what a constructor was given is what the accessor of that name reports."""
from mz import walk, children, strip, rel
from rules_ast import all_bases, all_fields, ctor_fns, tag_param, fmt
from sym import Sym

HIDDEN = ("generated", "type_of<", "::impl::", "::serializers::", "(anonymous", "eqer")


def value_records(db):
    for n, r in sorted(db.records.items()):
        if n.startswith("mizugaki::") and not r.get("dep") and not any(h in n for h in HIDDEN):
            yield r


def accessors(db, S, r):
    """accessor name -> list of (function, set of members the returned value comes from)"""
    fields = {x["d"] for x in all_fields(db, r)}
    out = {}
    for x in [r] + all_bases(db, r):
        for m in x["methods"]:
            if m.np == 0 and not m.static and m.k == "CXXMethod" and m.n not in ("clone", "node_kind"):
                f = db.fn_of(m)
                if f is None or f.body is None or f.dep:
                    continue
                o = {y[1] for y in S.ret(f) if y[0] == "this" and y[1] in fields}
                if o:
                    out.setdefault(m.n, []).append((f, o))
    return out


def mentions(S, c, p, depth=0):
    """members of the object in whose initialisers the parameter occurs at all"""
    out = set()
    for i in c.inits:
        if "e" in i and any(x["k"] == "Ref" and x.get("d") is p for x in walk(i["e"])):
            if "m" in i:
                out.add(i["m"])
            else:
                e = i["e"]
                g = S.db.fn_of(e.get("d")) if e["k"] == "New" else None
                if g is not None and depth < 4:
                    for q, a in zip(g.params, e["c"]):
                        if any(x["k"] == "Ref" and x.get("d") is p for x in walk(a)):
                            out |= mentions(S, g, q["d"], depth + 1)
    return out


def access(db, rep):
    S = Sym(db)
    rep.explanation = ("For each class with accessors, the member each accessor returns and the member each constructor parameter flows into are computed "
                       "(through delegation, base classes and helpers) and compared by the public name; the overloads of an accessor must agree.")
    rep.rule("acc-stored", "a constructor parameter is stored in the member which the accessor of the same name returns", 650)
    rep.rule("acc-pure", "a constructor parameter flows into no member that another accessor returns", 650)
    rep.rule("acc-same", "all overloads (const, non-const) of an accessor return the same member", 380)
    rep.rule("acc-exposed", "no data member is unreachable because two accessors return one member", 300)
    rep.rule("acc-default", "a member with a public default_<name> constant starts with that value", 18)
    for r in value_records(db):
        acc = accessors(db, S, r)
        if not acc:
            continue
        for c in ctor_fns(db, r):
            if tag_param(c.d) or c.d.cc in ("copy", "move") or c.dep:
                continue
            res = S.ctor(c)
            for p in c.params:
                nm = p["d"].n
                if nm not in acc:
                    continue
                want = set().union(*[o for _, o in acc[nm]])
                into = {k for k, v in res.items() if any(a is p["d"] for a, _ in v)}
                con = "%s(%s) %s" % (c.q, ", ".join(q["d"].n or "" for q in c.params), nm)
                if not (into & want):
                    into |= mentions(S, c, p["d"])
                if rep.check(bool(into & want), "acc-stored", con, c.loc(),
                             "the parameter %s is stored in %s but %s() returns %s" % (nm, names(into), nm, names(want))):
                    others = set()
                    for k, os in acc.items():
                        if k != nm:
                            for _, o in os:
                                others |= o
                    extra = (into - want) & others
                    rep.check(not extra, "acc-pure", con, c.loc(), "the parameter %s also ends up in %s" % (nm, names(extra)))
        returned = set()
        for nm, os in acc.items():
            for _, o in os:
                returned |= o
            if len(os) > 1:
                # overloads declared in one class
                first = os[0]
                for g, o in os[1:]:
                    if g.d.rec == first[0].d.rec:
                        rep.check(o == first[1], "acc-same", "%s::%s" % (r["n"], nm), g.loc(),
                                  "this overload returns %s, the other %s" % (names(o), names(first[1])))
        byfield = {}
        for nm, os in acc.items():
            for g, o in os:
                if len(o) == 1:
                    byfield.setdefault(next(iter(o)), {}).setdefault(nm, g)
        for x in r["fields"]:
            if x["d"] in returned:
                rep.ok("acc-exposed", "%s::%s" % (r["n"], x["n"]))
                continue
            # an unreachable member is suspicious only if a sibling of the same type is returned by two accessors
            dup = [(d, ns) for d, ns in byfield.items() if d is not None and strip(d.t) == strip(x["t"]) and len([n for n in ns if not n.startswith("operator")]) > 1]
            if dup and x["acc"] != 0:
                d, ns = dup[0]
                g = next(iter(ns.values()))
                rep.bad("acc-exposed", "%s::%s" % (r["n"], x["n"]), g.loc(), "no accessor returns %s, while %s both return %s" % (
                    x["n"], " and ".join(sorted(ns)), d.n))
        statics = {s["n"]: s for s in r["statics"]}
        for nm in acc:
            s = statics.get("default_" + nm)
            if s is None:
                continue
            fd = set().union(*[o for _, o in acc[nm]])
            init = default_init(db, r, fd)
            if init is None:
                continue
            rep.check(any(x["k"] in ("Ref", "Mem") and x.get("d") is s["d"] for x in walk(init)) or same_value(init, s), "acc-default",
                      "%s::%s" % (r["n"], nm), "%s:%d" % (rel(r["file"]), r["l"]), "%s does not start as default_%s" % (nm, nm))


def same_value(a, s):
    return s.get("init") is not None and s["init"].get("cv") is not None and a.get("cv") == s["init"]["cv"]


def default_init(db, r, fd):
    for c in ctor_fns(db, r):
        for i in c.inits:
            if i.get("m") in fd and "e" in i:
                return i["e"]
    return None


def names(ds):
    return ", ".join(sorted(d.n for d in ds)) or "no member"


CHECKS = {"C05": access}

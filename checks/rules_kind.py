"""C04: kinds of syntax tree elements, their classes, and dispatch."""
import re

from flow import Reach, UNKNOWN, const_of, specialise
from mz import HIERARCHIES, walk, children, recv, strip, rel
from rules_ast import ast_records, all_bases, derives, methods, ctor_fns, tag_param
from sym import Sym


def enum_consts(db, e):
    return {c["v"]: c["n"] for c in e["c"]}


def static_value(r, name):
    """constant or set of constants held by a static member"""
    for s in r["statics"]:
        if s["n"] != name or "init" not in s:
            continue
        out = set()
        i = s["init"]
        if i.get("cv") is not None:
            return {i["cv"]}
        for n in walk(i):
            if n["k"] == "Ref" and n.get("d") is not None and n["d"].k == "EnumConstant":
                out.add(n["d"].v)
            elif n["k"] in ("Int",) and strip(n.get("t", "")) != "int":
                out.add(n["v"])
            elif n["k"] == "Cast" and n.get("cv") is not None:
                out.add(n["cv"])
            elif n["k"] == "Ref" and n.get("cv") is not None:
                out.add(n["cv"])
        return out
    return None


def hierarchy(db, r):
    bs = {b["n"] for b in all_bases(db, r)}
    return [h for h in HIERARCHIES if "mizugaki::ast::" + h in bs]


def find_method(db, r, name):
    for x in [r] + all_bases(db, r):
        for m in x["methods"]:
            if m.n == name:
                f = db.fn_of(m)
                if f is not None and f.body is not None:
                    return f
    return None


def kinds_of(db, S, r):
    """(set of kinds an object of the class can report, text how, function)"""
    f = find_method(db, r, "node_kind")
    if f is None:
        return None, "", None
    consts = set()
    member = False
    own_static = {s["d"]: s for s in r["statics"]}
    for n in walk(f.body, into_lambda=False):
        if n["k"] != "Return" or "e" not in n:
            continue
        todo = [n["e"]]
        while todo:
            e = todo.pop()
            if e["k"] in ("Cast", "ICast"):
                todo.append(e["e"])
                continue
            if e["k"] == "Cond":
                todo += [e["then"], e["else"]]
                continue
            c = const_of(e, lambda _: UNKNOWN)
            if c is not UNKNOWN:
                consts.add(c)
            elif e["k"] == "Ref" and e.get("d") in own_static:
                consts |= static_value(r, e["d"].n) or set()
            else:
                member = True
    return (consts, member), f.q, f


def kinds(db, rep):
    S = Sym(db)
    rep.explanation = ("For each hierarchy of syntax tree classes the kind enumeration, the static tags, node_kind(), type_of<> and the instantiated "
                       "dispatch() are compared with one another, enumerator by enumerator (dispatch is specialised by constant propagation of the kind).")
    rep.rule("kind-owner", "each enumerator of a kind enumeration is reported by objects of exactly one class", 100)
    rep.rule("kind-type-of", "type_of maps a kind to the class whose objects report it", 100)
    rep.rule("kind-tag", "the static tag(s) of a class are the kinds its objects report", 60)
    rep.rule("kind-validated", "a class with several kinds rejects a kind outside its tags when constructed", 10)
    rep.rule("dispatch-kind", "dispatch() invokes the callback on exactly the class which reports the kind", 90)
    rep.rule("dispatch-unknown", "dispatch() reports an error for a kind without a class instead of ignoring it", 0)
    # enum -> kind value -> classes
    owners = {}
    enum_of_h = {}
    for r in ast_records(db):
        hs = hierarchy(db, r)
        if not hs or r.get("abs") or r["n"].endswith("<>"):
            continue
        h = hs[0]
        base = db.records["mizugaki::ast::" + h]
        bm = [m for m in base["methods"] if m.n == "node_kind"]
        if not bm:
            continue
        en = strip(bm[0].rt)
        enum_of_h[h] = en
        k, how, f = kinds_of(db, S, r)
        if k is None:
            rep.bad("kind-tag", r["n"], rel(r["file"]), "node_kind() has no definition")
            continue
        consts, member = k
        tag = static_value(r, "tag")
        tags = static_value(r, "tags")
        loc = f.loc()
        mine = set(consts)
        if member:
            mine |= tags or set()
            rep.check(bool(tags), "kind-tag", r["n"], loc, "node_kind() is not a constant and the class declares no tags")
            for c in ctor_fns(db, r):
                if tag_param(c.d) or c.d.cc in ("copy", "move") or not any(strip(p["t"]).replace("takatori::util::", "").find(en.split("::")[-1]) >= 0 for p in c.params):
                    continue
                if any("base" in i and strip(i["base"]) == r["n"] for i in c.inits) or delegates(c, r):
                    continue
                rep.check(refers_static(db, c, r, "tags"), "kind-validated", c.q + sig(c), c.loc(), "the constructor accepts kinds outside the class's tags")
        else:
            if tag is not None:
                rep.check(tag == consts, "kind-tag", r["n"], loc, "the tag of the class is %s, its objects report %s" % (
                    names(db, en, tag), names(db, en, consts)))
            elif tags is not None:
                rep.check(consts <= tags, "kind-tag", r["n"], loc, "the objects report %s, outside the tags of the class" % names(db, en, consts))
        for v in mine:
            owners.setdefault(en, {}).setdefault(v, []).append(r["n"])
    tof = {}
    for n, r in db.records.items():
        m = re.match(r"^(mizugaki::ast::\w+)::type_of<([\w:]+), ([\w:]+)>$", n)
        if not m:
            continue
        ns, en, c = m.groups()
        en = en if en.startswith("mizugaki::") else ns + "::" + en
        b = [re.match(r"^takatori::util::meta_type<(.*)>$", x) for x in r["bases"]]
        b = [x.group(1) for x in b if x]
        e = db.enums.get(en)
        if e is None or not b:
            continue
        vals = [x["v"] for x in e["c"] if x["n"] == c.split("::")[-1]]
        if vals:
            tof.setdefault(en, {})[vals[0]] = (b[0], r)
    for h, en in sorted(enum_of_h.items()):
        e = db.enums[en]
        own = owners.get(en, {})
        t = tof.get(en, {})
        f = probe(db, h)
        for c in e["c"]:
            con = "%s::%s" % (en, c["n"])
            loc = "%s:%d" % (rel(e["file"]), c["d"].line)
            cls = own.get(c["v"], [])
            if t.get(c["v"]) is None and not cls:
                rep.notes.append("%s has no class" % con)
            elif rep.check(len(cls) == 1, "kind-owner", con, loc, "objects of %s report this kind" % (", ".join(cls) or "no class")):
                if t:
                    got = t.get(c["v"])
                    rep.check(got is not None and got[0] == cls[0], "kind-type-of", con, loc, "type_of names %s, but objects of %s report this kind" % (
                        got[0] if got else "nothing", cls[0]))
            if f is None:
                continue
            r = specialise(db, f, lambda n: n["k"] == "Call" and n.get("d") is not None and n["d"].n in ("node_kind", "kind"), c["v"])
            calls = set()
            for s in r.visited:
                for n in walk(s):
                    if n["k"] == "Call" and n.get("d") is not None and n["d"].n in ("polymorphic_callback", "downcast", "unsafe_downcast") and n.get("ta"):
                        calls.add(strip(n["ta"][0]))
            if len(cls) == 1:
                rep.check(calls == {cls[0]}, "dispatch-kind", con, f.loc(), "dispatch() calls back for %s instead of %s" % (", ".join(sorted(calls)) or "nothing", cls[0]))
            elif not cls:
                rep.check(not calls and r.noreturn or calls and not cls and False or bool(r.noreturn), "dispatch-unknown", con, f.loc(), "dispatch() ignores this kind")
    rep.count("hierarchies", len(enum_of_h))


def sig(f):
    return "(%s)" % ", ".join(p["d"].n or "" for p in f.params)


def delegates(c, r):
    for i in c.inits:
        if "m" not in i and "e" in i:
            e = i["e"]
            if e["k"] == "New" and strip(e.get("t", "")) == r["n"]:
                return True
    return False


def refers_static(db, f, r, name, depth=0, seen=None):
    ds = {s["d"] for s in r["statics"] if s["n"] == name}
    seen = seen or set()
    roots = [f.body] + [i["e"] for i in f.inits if "e" in i]
    for root in roots:
        for n in walk(root):
            if n["k"] in ("Ref", "Mem") and n.get("d") in ds:
                return True
            if n["k"] == "Call" and depth < 3:
                g = db.fn_of(n.get("d"))
                if g is not None and g.body is not None and g not in seen:
                    seen.add(g)
                    if refers_static(db, g, r, name, depth + 1, seen):
                        return True
    return False


def names(db, en, vals):
    e = db.enums.get(en)
    m = enum_consts(db, e) if e else {}
    return "{%s}" % ", ".join(m.get(v, str(v)) for v in sorted(vals))


def probe(db, h):
    for f in db.by_q.get("mizugaki::ast::%s::dispatch" % h.split("::")[0], []):
        if f.d.ta and f.d.ta[0].startswith("mzprobe") and strip(f.d.ta[1]) == "mizugaki::ast::" + h:
            return f
    return None


CHECKS = {"C04": kinds}

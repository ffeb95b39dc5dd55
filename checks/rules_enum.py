"""C06: names of enumerators, bounds of enumeration sets.  C07: the map of element kinds (compile-time witnesses)."""
import os
import re
import subprocess
import tempfile

from flow import specialise, completes
from mz import REPO, STUBS, RES, Broken, walk, strip, rel


def norm(s):
    return s.lower().replace(" ", "_").rstrip("_")


def enum_names(db, rep):
    rep.explanation = ("Each to_string_view() of an enumeration is specialised by constant propagation to every enumerator: it must return exactly one string, "
                       "different from those of the other enumerators and spelling the enumerator's name; each enumeration set must span all enumerators; "
                       "operator<< of an enumeration must print to_string_view() of its operand.")
    rep.rule("name-total", "to_string_view() returns one constant string for each enumerator", 330)
    rep.rule("name-distinct", "no two enumerators of a public enumeration have the same name", 310)
    rep.rule("name-spelled", "the string of a public enumerator is its identifier (case and separators aside)", 310)
    rep.rule("set-bounds", "an enumeration set starts with the smallest and ends with the largest enumerator", 32)
    rep.rule("name-print", "printing an enumerator prints its own to_string_view()", 50)
    named = set()
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line)):
        if f.n != "to_string_view" or f.dep or len(f.params) != 1:
            continue
        t = strip(f.params[0]["t"])
        e = db.enums.get(t)
        if e is None:
            continue
        named.add(t)
        p = f.params[0]["d"]
        seen = {}
        public = rel(e["file"]).startswith("include/")
        for c in e["c"]:
            con = "%s::%s" % (t, c["n"])
            r = specialise(db, f, lambda n: n["k"] == "Ref" and n.get("d") is p, c["v"])
            strs = set()
            other = False
            for q in r.returns:
                ss = [x["v"] for x in walk(q) if x["k"] == "Str"]
                if len(ss) == 1:
                    strs.add(ss[0])
                else:
                    other = True
            if other and not strs:
                # computed from a table: cannot be judged here
                rep.notes.append("%s: the string is not a literal" % con)
                continue
            if not rep.check(len(strs) == 1 and not r.noreturn and r.ways == {"exit"} and not other, "name-total", con, f.loc(),
                             "to_string_view() yields %s for this enumerator" % (", ".join(sorted(strs)) or "nothing: it aborts")):
                continue
            s = strs.pop()
            if not public:
                continue
            rep.check(s not in seen, "name-distinct", con, f.loc(), "has the same string '%s' as %s" % (s, seen.get(s)))
            seen.setdefault(s, c["n"])
            rep.check(norm(s) == norm(c["n"]), "name-spelled", con, f.loc(), "is called '%s'" % s)
    rep.count("enumerations", len(named))
    for a in sorted(db.aliases.values(), key=lambda a: a["q"]):
        m = re.match(r"^takatori::util::enum_set<([\w:]+), ([\w:()<> -]+), ([\w:()<> -]+)>$", a["t"])
        if not m or m.group(1) not in db.enums:
            continue
        e = db.enums[m.group(1)]
        val = {c["n"]: c["v"] for c in e["c"]}
        lo, hi = (val.get(x.split("::")[-1]) for x in m.groups()[1:])
        vs = list(val.values())
        rep.check(lo == min(vs) and hi == max(vs), "set-bounds", a["q"], "%s:%d" % (rel(a["file"]), a["l"]),
                  "the set spans %s to %s and cannot hold every %s" % (m.group(2).split("::")[-1], m.group(3).split("::")[-1], m.group(1)))
    for f in sorted(db.fns.values(), key=lambda f: (f.file, f.line)):
        if f.n != "operator<<" or f.dep or len(f.params) != 2:
            continue
        t = strip(f.params[1]["t"])
        if t not in named:
            continue
        p = f.params[1]["d"]
        calls = [n for n in walk(f.body) if n["k"] == "Call" and n.get("d") is not None and n["d"].n == "to_string_view"]
        good = bool(calls) and all(any(x["k"] == "Ref" and x.get("d") is p for a in n["c"] for x in walk(a)) for n in calls)
        rep.check(good, "name-print", "operator<<(%s)" % t, f.loc(), "does not print to_string_view() of its operand")


# ------------------------------------------------------------------------------------------- compile-time witnesses

def witnesses(rep, text, lines, headers):
    """compiles static_asserts; lines: line number -> (rule, construct)"""
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "w.cpp")
        with open(p, "w") as f:
            f.write(text)
        r = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-ferror-limit=0", "-resource-dir", RES, "-I" + STUBS,
                            "-I" + REPO + "/include", "-I" + REPO + "/src", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    failed = {}
    for m in re.finditer(r"w\.cpp:(\d+):\d+: error: (.*)", r.stdout):
        failed.setdefault(int(m.group(1)), m.group(2))
    if r.returncode and not failed:
        raise Broken("the witnesses do not compile: " + r.stdout[:1500])
    stray = [x for x in failed if x not in lines]
    if stray:
        raise Broken("the witnesses do not compile: " + r.stdout[:1500])
    for ln, (rid, con, loc) in lines.items():
        rep.check(ln not in failed, rid, con, loc, failed.get(ln, ""))


def element_kinds(db, rep):
    rep.explanation = ("Compile-time witnesses: for every enumerator the constant expressions find(to_string_view(k)) == k, map access by template argument and "
                       "by value through const and non-const maps, distinctness of the slots and capacity are static_asserts which a violating header fails to compile.")
    E = "mizugaki::parser::sql_parser_element_kind"
    e = db.enums.get(E)
    if e is None:
        raise Broken("enumeration %s not found" % E)
    loc = "include/mizugaki/parser/sql_parser_element_kind.h:%d" % e["l"]
    n = len(e["c"])
    rep.rule("kind-find", "looking up the name of an element kind yields that kind", n)
    rep.rule("kind-find-none", "looking up any other text yields nothing", n)
    rep.rule("map-slot", "a value stored for a kind is read back for that kind by every accessor, and for no other kind", n)
    rep.rule("map-print", "printing a map prints the entry of every kind", 1)
    out, lines = [], {}
    out.append("#include <mizugaki/parser/sql_parser_element_kind.h>")
    out.append("using namespace mizugaki::parser; using K = sql_parser_element_kind; using M = sql_parser_element_map<int>;")
    out.append("constexpr K all[] = {%s};" % ", ".join("K::" + c["n"] for c in e["c"]))
    out.append("constexpr bool slot(K k, int how) { M m {}; int v = 1; for (K x : all) { m[x] = v++; } v = 1; M const& c = m; "
               "for (K x : all) { if (c[x] != v || m[x] != v) { return false; } ++v; } int before = c[k]; m[k] = 1000 + how; "
               "for (K x : all) { if (x == k ? c[x] != 1000 + how : c[x] >= 1000) { return false; } } return before > 0; }")
    out.append("template<K k> constexpr bool tslot() { M m {}; m.get<k>() = 7; M const& c = m; if (c.get<k>() != 7 || c[k] != 7 || m[k] != 7) { return false; } "
               "for (K x : all) { if (x != k && c[x] != 0) { return false; } } return true; }")

    def w(cond, rid, con):
        out.append("static_assert(%s);" % cond)
        lines[len(out)] = (rid, con, loc)

    for c in e["c"]:
        k = "K::" + c["n"]
        w("find_sql_parser_element_kind(to_string_view(%s)) == %s" % (k, k), "kind-find", c["n"])
        w("!find_sql_parser_element_kind(\"%s_\") && !find_sql_parser_element_kind(\"%s\")" % (c["n"], c["n"][:-1]), "kind-find-none", c["n"])
        w("slot(%s, 1) && tslot<%s>()" % (k, k), "map-slot", c["n"])
    w("!find_sql_parser_element_kind(\"\")", "kind-find-none", "empty text")
    witnesses(rep, "\n".join(out) + "\n", lines, None)
    # printing: a loop over every kind, in an uninstantiated template
    f = [g for g in db.by_q.get("mizugaki::parser::operator<<", []) if len(g.params) == 2 and "sql_parser_element_map" in g.params[1]["t"]]
    for g in f:
        rep.check(loops_over_all(db, g, e), "map-print", "operator<<(sql_parser_element_map)", g.loc(),
                  "the loop does not run from the first to the last kind")


def loops_over_all(db, f, e):
    """the loops of f run over every enumerator (evaluated when the bounds are constants), without leaving out any"""
    vals = sorted(c["v"] for c in e["c"])
    from flow import const_of, UNKNOWN
    ok = False
    for n in walk(f.body):
        if n["k"] == "ForRange":
            ok = True
        if n["k"] == "For":
            v = None
            for x in walk(n["init"]) if "init" in n else ():
                if x["k"] == "Var" and "init" in x:
                    v = (x["d"], cval(db, x["init"]))
            c = n.get("cond")
            if v is None or c is None or c["k"] != "Bin":
                ok = True  # unrecognised shape: not judged
                continue
            a, b = c["c"]
            lim = cval(db, b)
            if v[1] is None or lim is None or not (a["k"] in ("Ref", "Cast")):
                ok = True
                continue
            last = lim if c["op"] == "<=" else lim - 1 if c["op"] in ("<", "!=") else None
            ok = v[1] == vals[0] and last == vals[-1]
    return ok


def cval(db, n):
    from flow import const_of, UNKNOWN
    v = const_of(n, lambda x: UNKNOWN)
    if v is not UNKNOWN:
        return v
    while n["k"] in ("Cast", "ICast"):
        n = n["e"]
    if n["k"] == "Ref" and n.get("d") is not None:
        g = db.vars.get(n["d"].u)
        if g is not None and "init" in g:
            return cval(db, g["init"])
    return None


CHECKS = {"C06": enum_names, "C07": element_kinds}

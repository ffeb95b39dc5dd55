"""A01: an analysis which fails has reported why, and one which reported an error fails.

Every path of every function of the analyzer that can fail is enumerated (sym. evaluation of trans.py).  A function which fails on a path without a
report hands the obligation to its callers (its silent paths are summarised by their conditions on the parameters); the visitor operations and the
public entry points have to have none."""
import collections

import mz
from aval import MAXPATHS, Obj, show  # noqa: F401
from common import Report
from mz import Broken, rel, short, strip, walk
from trans import Trans, args_for, container

REPORT = "mizugaki::analyzer::details::analyzer_context::report"
SMALL = 16


def is_ctx_report(d):
    return d is not None and (d.q or "") == REPORT


def in_analyzer(db, f):
    return f.body is not None and not f.dep and db.in_repo(f.file) and "/mizugaki/analyzer/" in f.file


class Calls:
    """who can report"""

    def __init__(self, db):
        self.db = db
        self.fns = [f for f in db.fns.values() if in_analyzer(db, f)]
        self.cg = {}
        for f in self.fns:
            s = set()
            for m in walk(f.body):
                if m["k"] in ("Call", "Op", "New") and m.get("d") is not None:
                    g = db.fn_of(m["d"])
                    if g is not None:
                        s.add(g)
                    if self.dispatch(m["d"]):
                        s.add("dispatch")
            self.cg[f] = s
        self.reporting = {f for f in self.fns if f.q == REPORT}
        if not self.reporting:
            raise Broken("analyzer_context::report not found")
        self.base = set(self.reporting)
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                if f not in self.reporting and ("dispatch" in self.cg[f] or any(g in self.reporting for g in self.cg[f])):
                    self.reporting.add(f)
                    ch = True
        self.reporting -= self.base
        rec = set()
        for f in self.reporting:
            seen, todo = set(), list(self.cg[f])
            while todo:
                g = todo.pop()
                if g == f or g == "dispatch":
                    rec.add(f)
                    break
                if g in seen or g not in self.cg:
                    continue
                seen.add(g)
                todo += list(self.cg[g])
        self.recursive = rec

    @staticmethod
    def dispatch(d):
        return d.n == "dispatch" and (d.q or "").startswith(("mizugaki::ast::", "takatori::scalar::", "takatori::relation::"))


def kind_of(t):
    """how a result of type t tells a failure"""
    t = strip(t or "")
    if t == "void":
        return "void"
    if t == "bool":
        return "bool"
    if t.startswith("std::variant<"):
        return "variant"
    if "find_symbol_result<" in t:
        return "symbol"
    if container(t) or t.startswith(("std::basic_string_view", "std::basic_string<", "takatori::util::enum_set")):
        return "vec"
    return "ptr"


ERRORS = ("saw_error_t", "nullptr_t", "monostate")


def error_alt(t):
    return short(strip(str(t))).split("::")[-1].rstrip(">") in ERRORS or any(str(t).endswith(e) for e in ERRORS)


def is_empty(v):
    if v is None or v is False:
        return True
    if isinstance(v, Obj):
        if any(str(v.t).endswith(e) for e in ERRORS):
            return True
        if "find_symbol_result<" in str(v.t):
            return any(x is True for x in v.f.values())
        if "success" in v.f:
            return v.f["success"] is False
        return bool(v.f) and all(is_empty(x) for x in v.f.values())
    if isinstance(v, tuple) and v:
        if v in (("null",), ("glob", "std::nullopt"), ("void",)):
            return True
        if v[0] == "glob" and (v[1].split("::")[-1] in ("saw_error", "error")):
            return True
        if v[0] in ("init", "fresh"):
            return "find_symbol_result<" not in str(v[1:2])
        if v[0] == "vec":
            return not v[2]
        if v[0] == "new":
            if "find_symbol_result<" in v[1]:
                return len(v) == 3 and v[2] == ("glob", "std::in_place")
            return len(v) == 2 or len(v) == 3 and is_empty(v[2])
    return False


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, (tuple, Obj)):
                yield from subterms(x)
    elif isinstance(t, Obj):
        for x in t.f.values():
            yield from subterms(x)


class FailTrans(Trans):
    """Trans with merging of states that do not differ in what matters here"""
    MERGE = 4
    LIMIT = 40000

    def __init__(self, db, calls, **kw):
        super().__init__(db, **kw)
        self.calls = calls
        self.never = ()

    def tmodel(self, itp, fr, n, name, rv, av, st):
        if n["k"] == "Call" and n.get("d") is not None and n["d"].n in ("is_error", "operator bool") and isinstance(rv, tuple) and rv in self.callees:
            g = self.db.fn_of(self.callees[rv])
            if g is not None and g in self.never and "find_symbol_result<" in (g.d.rt or ""):
                return [(n["d"].n != "is_error", st)]
        return super().tmodel(itp, fr, n, name, rv, av, st)

    def truth(self, fr, n, st):
        out = []
        for b, x in super().truth(fr, n, st):
            if not b and len(x.cond) > len(st.cond) and x.cond[-1][0] in self.callees:
                g = self.db.fn_of(self.callees[x.cond[-1][0]])
                if g is not None and g in self.never and "find_symbol_result<" in (g.d.rt or ""):
                    continue
            out.append((b, x))
        return out

    def block(self, fr, ss, st):
        cur, out = [st], []
        for s in ss:
            nxt = []
            for x in cur:
                for k, v, y in self.stmt(fr, s, x):
                    if k == "next":
                        nxt.append(y)
                    else:
                        out.append((k, v, y))
            if len(nxt) > self.MERGE:
                nxt = self.merge(s, nxt)
            cur = nxt
            self.n += len(cur)
            if self.n > self.LIMIT:
                raise Broken("too many paths in " + fr.fn.q)
        return out + [("next", None, y) for y in cur]

    def inlined(self, fr, n, callee, r, rv, av, st):
        out = super().inlined(fr, n, callee, r, rv, av, st)
        return [(v, type(x)({k: y for k, y in x.env.items() if k[0] != "l" or k in st.env}, x.eff, x.cond)) for v, x in out]

    def merge(self, s, states):
        """drops what was learned about values that nothing refers to any more"""
        dead = {id(m["d"]) for m in walk(s) if m["k"] == "Var" and m.get("d") is not None} if s["k"] not in ("Var", "Decl", "DeclStmt") else set()
        res = {}
        for y in states:
            env = {k: v for k, v in y.env.items() if not (k[0] == "l" and id(k[1]) in dead)}
            live = set()
            for v in env.values():
                for t in subterms(v):
                    if isinstance(t, tuple):
                        live.add(t)
            eff = tuple(e for e in y.eff if e[0] == "report" or e[0] == "call" and (self.state(e, y) != "ok" or e in live))
            keep = set(eff)
            cond = tuple((c, b) for c, b in y.cond if any(t in live or t in keep for t in subterms(c) if isinstance(t, tuple) and t and t[0] == "call")
                         or not any(isinstance(t, tuple) and t and t[0] == "call" for t in subterms(c)))
            z = type(y)(env, eff, cond)
            key = (frozenset((repr(k[0]), id(k[1]) if len(k) > 1 else 0, k[2] if len(k) > 2 and isinstance(k[2], str) else 0, repr(v)) for k, v in env.items()),
                   frozenset(repr(e) for e in eff), frozenset(repr(c) for c in cond))
            res.setdefault(key, z)
        if len(res) > 400:
            # forget what is known except for failures
            res2 = {}
            for z in res.values():
                eff = tuple(e for e in z.eff if e[0] == "report" or e[0] == "call" and self.state(e, z) != "ok")
                keep = set(eff)
                cond = tuple((c, b) for c, b in z.cond if any(t in keep for t in subterms(c) if isinstance(t, tuple)))
                res2.setdefault((frozenset(map(repr, eff)), frozenset(map(repr, cond))), type(z)(z.env, eff, cond))
            res = res2
        return list(res.values())

    def state(self, e, st):
        """'ok', 'fail' or 'untested': what the path knows about the call e"""
        d = self.callees.get(e)
        kd = kind_of(getattr(d, "rt", None)) if d is not None else "ptr"
        if kd == "void":
            return "ok"
        for c, b in st.cond:
            if c == e:
                return "ok" if b else "fail"
            if not isinstance(c, tuple) or len(c) < 2:
                continue
            if c[0] == "mem" and c[1] == e and c[2] == "success":
                return "ok" if b else "fail"
            if c[0] == "nonempty" and c[1] == e:
                return "ok" if b else "fail"
            if c[0] == "is" and c[2] == e:
                if error_alt(c[1]):
                    return "fail" if b else "ok"
                if b:
                    return "ok"
            if c[0] == "call" and len(c) == 3 and c[2] == e:
                if c[1] == "is_error":
                    return "fail" if b else "ok"
                if c[1] == "found" and b:
                    return "ok"
            if c[0] in ("==", "!=") and e in c[1:]:
                o = c[2] if c[1] == e else c[1]
                if is_empty(o) and o is not False:
                    return "fail" if b == (c[0] == "==") else "ok"
                if isinstance(o, tuple) and (c[0] == "==") == b:
                    return "ok"
            # a value of it was compared: only possible if there is one
        no = {c[1] for c, b in st.cond if isinstance(c, tuple) and c[:1] == ("is",) and len(c) == 3 and c[2] == e and not b}
        if no:
            return "fail" if len(no) == alternatives(d.rt) - 1 else "ok"
        return "untested"


def can_tell(db, t):
    """results of this type distinguish an error from the absence of the thing looked for"""
    t = strip(t)
    return "find_symbol_result<" in t or t.startswith("std::variant<") and any(e in t for e in ERRORS[:1])


class Summary:
    __slots__ = ("silent", "results", "fn")

    def __init__(self, fn):
        self.fn = fn
        self.silent = {}    # frozenset of (condition on parameters, value) -> (location, text)
        self.results = None


def flag_classes(db, calls):
    """classes whose methods record in a bool member that an error was reported: (class, file) -> members"""
    out = {}
    for f in calls.fns:
        if not f.d.rec:
            continue
        for b in walk(f.body):
            if b["k"] != "Block":
                continue
            told = False
            for s in b["c"]:
                if s["k"] == "Call" and is_ctx_report(s.get("d")):
                    told = True
                if told and s["k"] == "Bin" and s.get("op") == "=" and s["c"][0]["k"] == "Mem" and s["c"][0].get("e", {}).get("k") == "This" \
                        and strip(s["c"][0].get("t") or "") == "bool":
                    out.setdefault((f.d.rec, f.file), set()).add(s["c"][0]["d"].n)
    return out


def subst(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        if t[:1] == ("path",) and ("path", t[1]) in m:
            b = m[("path", t[1])]
            if isinstance(b, tuple) and b[:1] == ("path",):
                return b + t[2:]
            return ("sub", b) + t[2:]
        return tuple(subst(x, m) for x in t)
    return t


def deep(c):
    """a path that goes through the same accessor again and again"""
    return any(isinstance(t, tuple) and t[:1] == ("path",) and any(t.count(a) > 2 for a in t) for t in subterms(c))


def on_params(c, params):
    """the condition is about the parameters alone"""
    if not isinstance(c, tuple):
        return False
    ok = False
    for t in subterms(c):
        if isinstance(t, Obj):
            return False
        if isinstance(t, tuple) and t:
            if t[0] in ("call", "elem", "loop", "fresh", "new", "bind", "mk", "lambda", "this"):
                return False
            if t[0] in ("param", "path"):
                if t[1] not in params:
                    return False
                ok = True
    return ok


class Analysis:
    def __init__(self, db):
        self.db = db
        self.calls = C = Calls(db)
        self.flags = flag_classes(db, C)
        self.fal = {f for f in C.reporting if f.d.rt and strip(f.d.rt) != "void" and (f.d.rec, f.file) not in self.flags}
        self.small = set()
        self.plain = {}
        self.sums = {}
        self.trans = {}
        self.broken = []
        self.callsites = collections.Counter()
        self.npaths = 0
        # lookups that report nothing can still yield an error
        self.never = set()
        for f in sorted(C.fns, key=lambda f: f.loc()):
            if f in self.fal or f.n == "operator()" or not f.d.rt or not can_tell(db, f.d.rt):
                continue
            self.sums[f] = Summary(f)
            r = self.run(f)
            if r is not None and any(k == "ret" and self.failing(v, st, self.trans[f], f) is not False for k, v, st in r):
                self.fal.add(f)
            else:
                self.never.add(f)
            del self.sums[f]
        for f in sorted(self.fal, key=lambda f: f.loc()):
            self.sums[f] = Summary(f)
        # helpers that only check are followed
        for f in sorted(self.fal, key=lambda f: f.loc()):
            if f not in C.recursive and not self.visitor(f) and kind_of(f.d.rt) == "bool":
                r = self.run(f)
                if r is not None and len(r) <= SMALL:
                    self.small.add(f)
        for f in self.fal:
            self.sums[f].results = None
        for f in sorted(self.fal, key=lambda f: f.loc()):
            self.sums[f].results = self.run(f)
        # those that turn out to always yield something
        self.sure = {f for f in self.fal if self.sums[f].results is not None and not self.recursive_dispatch(f)
                     and all(k != "ret" or self.failing(v, st, self.trans[f], f) is False for k, v, st in self.sums[f].results)}

    def recursive_dispatch(self, f):
        return f in self.calls.recursive or self.visitor(f)

    @staticmethod
    def visitor(f):
        return f.n == "operator()"

    def fallible(self, d, frm=None):
        g = self.db.fn_of(d)
        if g is not None and g in self.sums and not (g in self.small and frm is not None and g.file == frm.file):
            return True
        if g is not None and (g.d.rec, g.file) in self.flags:
            return strip(g.d.rt or "") != "void"
        return Calls.dispatch(d)

    def inline(self, f):
        def inl(g):
            if g is f:
                return False
            if not self.db.in_repo(g.file) or g.body is None:
                return False
            if g in self.small:
                return g.file == f.file
            if g in self.calls.reporting:
                return strip(g.d.rt or "") == "void" and g.file == f.file and g not in self.calls.recursive
            return g.file == f.file and (g.d.rec, g.file) not in self.flags and self.straight(g)
        return inl

    def straight(self, g):
        r = self.plain.get(g)
        if r is None:
            r = self.plain[g] = not any(m["k"] in ("If", "Switch", "For", "While", "Do", "ForRange", "Cond", "Try") for m in walk(g.body))
        return r

    def run(self, f):
        T = FailTrans(self.db, self.calls, inline=self.inline(f), effects=lambda d: self.fallible(d, f))
        T.never = self.never
        try:
            r = T.run(f, args_for(f))
        except (Broken, RecursionError) as e:
            self.broken.append((f, str(e)[:100]))
            return None
        self.trans[f] = T
        self.npaths += len(r)
        return r

    def failing(self, v, st, T, f):
        """True, False or the call which decides"""
        if is_empty(v):
            return True
        if isinstance(v, tuple):
            if v in T.callees and self.fallible(T.callees[v], f):
                s = T.state(v, st)
                if s == "untested":
                    return v
                return s == "fail"
            if v[:1] == ("new",) and len(v) == 3:
                if "find_symbol_result<" in v[1] and not (v[2] in T.callees and kind_of(T.callees[v[2]].rt) == "symbol"):
                    return False
                return self.failing(v[2], st, T, f)
            if v[:1] in (("alt",), ("is",)) and len(v) == 3:
                return False
        kn = st.known(v) if isinstance(v, tuple) else None
        if kn is False:
            return True
        return False

    def solve(self):
        """fixpoint of the silent failures"""
        ch = True
        rounds = 0
        while ch and rounds < 12:
            ch = False
            rounds += 1
            for f, s in self.sums.items():
                if s.results is None:
                    continue
                T = self.trans[f]
                pn = {p["n"] for p in f.params}
                for k, v, st in s.results:
                    if k != "ret":
                        continue
                    fl = self.failing(v, st, T, f)
                    if fl is False:
                        continue
                    if any(e[0] == "report" for e in st.eff):
                        continue
                    fails = [e for e in st.eff if e[0] == "call" and (e == fl or T.state(e, st) == "fail")]
                    reasons = None
                    if not fails:
                        reasons = [(frozenset(), (f.loc(), "fails without a report" + self.where(st)))]
                    else:
                        per = [self.silent_at(T, e, st) for e in fails]
                        if all(per):
                            reasons = per[0]
                    if not reasons:
                        continue
                    own = frozenset((c, b) for c, b in st.cond if on_params(c, pn))
                    for cs, why in reasons:
                        key = frozenset((c, b) for c, b in own | cs if on_params(c, pn) and not deep(c))
                        if len(s.silent) < 40 and key not in s.silent:
                            s.silent[key] = why
                            ch = True

    @staticmethod
    def where(st):
        cs = [("" if b else "not ") + show(c)[:90] for c, b in st.cond][-3:]
        return " (on the path where %s)" % ", ".join(cs) if cs else ""

    def silent_at(self, T, e, st):
        """the silent failures of the call e that are possible on this path: [(conditions, why)]"""
        d = T.callees.get(e)
        g = self.db.fn_of(d) if d is not None else None
        if g is None or g not in self.sums:
            return []
        m = {}
        args = list(e[2:])
        if len(args) == len(g.params) + 1:
            args = args[1:]
        for p, a in zip(g.params, args):
            m[("param", p["n"])] = a
            m[("path", p["n"])] = a
        out = []
        for cs, why in self.sums[g].silent.items():
            new = set()
            possible = True
            for c, b in cs:
                c2 = subst(c, m)
                if isinstance(c2, bool):
                    possible = possible and c2 == b
                    continue
                if c2 == ("nonempty", ("vec",)) or isinstance(c2, tuple) and c2[:1] == ("nonempty",) and isinstance(c2[1], tuple) and c2[1][:1] == ("vec",):
                    if c2[1][2] and not b:
                        possible = False
                    continue
                kn = st.known(c2)
                if kn is not None and kn != b:
                    possible = False
                new.add((c2, b))
            if possible:
                out.append((frozenset(new), why))
        return out


def a01(db, rep=None):
    rep = rep or Report("A01")
    A = Analysis(db)
    A.solve()
    rep.explanation = ("All paths of the functions of the analyzer which can fail, helpers followed, loops without and with an element; for the functions they call only "
                       "the conditions of a failure without a report are kept, and a fixpoint over the call graph carries these to the visitor operations and entry points.")
    rep.rule("said-why", "a translation that fails has reported a diagnostic, itself or through what it called", 60)
    rep.rule("said-so", "a path that reported an error, or saw the failure of a part which had, does not yield a result", 120)
    rep.rule("looked", "the result of every part that can fail is examined before the function yields something", 120)
    rep.rule("flagged", "where a member records that an error was reported, it is set exactly by the reports, and decides the outcome", 3)
    rep.rule("outcome", "the analyzer returns the diagnostics exactly when the translation failed", 2)
    for f, why in A.broken:
        raise Broken("%s %s: %s" % (f.loc(), f.q, why))
    roots = list(A.sums)
    nsite = 0
    for f in sorted(roots, key=lambda f: (f.file, f.d.line or 0)):
        s = A.sums[f]
        T = A.trans[f]
        nm = "%s %s" % (f.q.split("::")[-2] + "::" + f.n, ", ".join(short(strip(p["d"].t or "")) for p in f.params[:2]))
        called_by = any(f in cs for g, cs in A.calls.cg.items() if g is not f)
        if A.visitor(f) or not called_by:
            flags = {("param", p["n"]) for p in f.params if strip(p["d"].t or "") == "bool"} if not A.visitor(f) else ()
            x = next((y for c, y in s.silent.items() if not any(t in flags for t, _ in c)), None)
            rep.check(x is None, "said-why", nm, f.loc(), "the analysis fails without a diagnostic: %s %s" % x if x else "", key="said-why|" + nm)
        bad = unt = None
        calls_seen = set()
        for k, v, st in s.results:
            if k != "ret":
                continue
            fl = A.failing(v, st, T, f)
            reported = [e for e in st.eff if e[0] == "report"]
            failed = [e for e in st.eff if e[0] == "call" and T.state(e, st) == "fail" and not A.silent_at(T, e, st)]
            for e in st.eff:
                if e[0] == "call":
                    calls_seen.add(e[1])
            if fl is False and kind_of(f.d.rt) != "void":
                if reported:
                    bad = bad or (reported[0], "reports %s at line %s and then yields %s" % (show(reported[0][1]).split("::")[-1], reported[0][3], show(v)[:80]))
                elif failed:
                    bad = bad or (failed[0], "yields %s although %s failed" % (show(v)[:80], failed[0][1]))
            if fl is False:
                for e in st.eff:
                    if e[0] == "call" and e != v and T.state(e, st) == "untested":
                        g = db.fn_of(T.callees[e])
                        if g is not None and g in A.sure:
                            continue
                        if g is not None and g in A.sums and optional_failure(A, g, T, e, st):
                            continue
                        if e in [t for t in subterms(v)] and tail(v, e):
                            continue
                        unt = unt or (e, "does not examine whether %s failed" % e[1])
        if final(f):
            outcome(db, A, rep, f)
            continue
        rep.check(bad is None, "said-so", nm, f.loc(), bad[1] if bad else "", key="said-so|" + nm)
        if calls_seen:
            rep.check(unt is None, "looked", nm, f.loc(), unt[1] if unt else "", key="looked|" + nm)
    flagged(db, A, rep)
    rep.count("functions", len(roots))
    rep.count("paths", A.npaths)
    return rep, A


def final(f):
    return "sql_analyzer_result" in (f.d.rt or "") and "<" not in (f.d.rt or "")


def alternatives(t):
    t = strip(t)
    if not t.startswith("std::variant<"):
        return 0
    d = n = 0
    for c in t[t.index("<") + 1:-1]:
        d += (c == "<") - (c == ">")
        n += c == "," and d == 0
    return n + 1


def outcome(db, A, rep, f):
    T = A.trans[f]
    for k, v, st in A.sums[f].results:
        if k != "ret":
            continue
        for e in [e for e in st.eff if e[0] == "call" and alternatives(T.callees[e].rt or "")]:
            diag = any(isinstance(t, tuple) and t[:2] == ("call", "diagnostics") for t in subterms(v))
            alts = [t[1] for t in subterms(v) if isinstance(t, tuple) and t[:1] in (("alt",), ("is",)) and len(t) == 3 and t[2] == e]
            yes = [c[1] for c, b in st.cond if isinstance(c, tuple) and c[:1] == ("is",) and c[2] == e and b]
            no = {c[1] for c, b in st.cond if isinstance(c, tuple) and c[:1] == ("is",) and c[2] == e and not b}
            s = T.state(e, st)
            if not diag and not alts:
                continue
            nm = "%s: %s" % (f.q.split("::")[-2] + "::" + f.n, "diagnostics" if diag else alts[0])
            why = None
            if diag and s != "fail":
                why = "diagnostics are returned although the analysis did not fail" + A.where(st)
            elif s == "fail" and not diag:
                why = "the diagnostics are not returned when the analysis failed" + A.where(st)
            elif alts and (alts[0] in no or yes and yes[0] != alts[0] or not yes and len(no) != alternatives(T.callees[e].rt) - 1):
                why = "the result is taken for a %s where it may be something else%s" % (alts[0], A.where(st))
            rep.check(why is None, "outcome", nm, f.loc(), why or "", key="outcome|" + nm)


def flagged(db, A, rep):
    for (rec, file), names in sorted(A.flags.items()):
        fns = [f for f in A.calls.fns if (f.d.rec, f.file) == (rec, file)]
        outside = set()
        for g in A.calls.fns:
            if (g.d.rec, g.file) != (rec, file):
                outside |= A.calls.cg[g]
        for f in sorted(fns, key=lambda f: f.d.line or 0):
            if f not in A.calls.reporting and f not in A.calls.base:
                continue
            T = FailTrans(db, A.calls, inline=lambda g: False, effects=lambda d, f=f: A.fallible(d, f))
            T.never = A.never
            nm = "%s %s" % (f.q.split("::")[-2] + "::" + f.n, ", ".join(short(strip(p["d"].t or "")) for p in f.params[:2]))
            bad = None
            n = 0
            for k, v, st in T.run(f, args_for(f)):
                if k != "ret":
                    continue
                told = any(e[0] == "report" for e in st.eff)
                vals = [x for kk, x in st.env.items() if kk[0] == "f" and kk[-1] in names]
                n += told
                if told and True not in vals:
                    bad = bad or "reports an error and does not record it" + A.where(st)
                if not told and vals:
                    bad = bad or "changes the record of errors without a report" + A.where(st)
                if f in outside:
                    kn = [b for c, b in st.cond if isinstance(c, tuple) and any(t in names for t in c if isinstance(t, str))]
                    n += 1
                    if strip(f.d.rt or "") == "bool" and (not kn or v is not (not kn[-1])):
                        bad = bad or "yields %s where an error %s" % (show(v)[:60], "was recorded" if kn and kn[-1] else "was not recorded" if kn else "may have been recorded")
            if n:
                rep.check(bad is None, "flagged", nm, f.loc(), bad or "", key="flagged|" + nm)


def optional_failure(A, g, T, e, st):
    return bool(A.silent_at(T, e, st)) and kind_of(g.d.rt) == "vec"


def tail(v, e):
    """v is e in a wrapper"""
    while isinstance(v, tuple) and v[:1] == ("new",) and len(v) == 3:
        v = v[2]
    return v == e


def check(db, rep):
    a01(db, rep)


CHECKS = {"A01": check}

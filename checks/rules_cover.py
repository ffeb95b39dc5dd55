"""A02: every part of a statement takes part in its translation, or the statement is rejected.

For every visitor of the analyzer, a must-analysis computes which attributes of its node are looked at and which children are passed on, on every way
to a successful end.  Ways that report a diagnostic or yield a failure do not count (A01 sees to it that they are failures).  Attributes of a part that is
absent on the way (a tested nullable child, the elements of an empty list) need not be looked at.  Functions that are given a node, or a part of it, are
summarised by what they look at."""
from mz import children, recv, rel, strip, walk
from rules_ast import all_bases
from rules_report import Calls, is_ctx_report
from flow import arms, noreturn_call
from mz import Broken
from sym import Sym

AST = "mizugaki::ast::"
THROUGH = {"move", "forward", "as_const", "addressof", "unsafe_downcast", "downcast", "optional_ptr", "ref", "cref", "to_optional_ptr", "maybe_shared_ptr", "unwrap", "ownership_reference"}
SAME = {"get", "value", "operator*", "operator->", "c_str", "operator bool", "has_value", "release", "operator const bool"}
ELEM = {"at", "front", "back", "operator[]", "begin", "end", "cbegin", "cend", "data", "rbegin", "rend"}
TEST = {"has_value", "operator bool", "empty", "size", "is_valid"}
SKIP = {"region", "clone"}
OPAQUE = {AST + "node_region"}


class S:
    """what holds on every way to here: touched paths, absent paths, reported"""
    __slots__ = ("t", "a", "r")

    def __init__(self, t=frozenset(), a=frozenset(), r=False):
        self.t, self.a, self.r = t, a, r

    def add(self, *ps):
        return S(self.t | frozenset(p for p in ps if p is not None), self.a, self.r)

    def absent(self, p):
        return S(self.t, self.a | {p}, self.r) if p is not None else self


# `has` must not count a touched prefix for the mark "passed": only absence covers it
def no(s, p):
    return any(p[:i] in s.a for i in range(1, len(p) + 1))


def covered(s, p):
    return p in s.t or no(s, p)


def join(x, y):
    if x is None:
        return y
    if y is None:
        return x
    gone = x.a | y.a
    return S(frozenset(p for p in x.t | y.t | gone if covered(x, p) and covered(y, p)), frozenset(p for p in gone if no(x, p) and no(y, p)), x.r and y.r)


def optional(n):
    t = strip(n.get("t") or "")
    return t.startswith(("std::optional<", "std::unique_ptr<", "std::shared_ptr<", "takatori::util::optional_ptr<")) or t.endswith("*") and not (n["k"] == "Op" and n.get("op") == "->")


def asks(n):
    """the expression only asks whether the optional is there"""
    return n["k"] == "Call" and n.get("d") is not None and n["d"].n in ("operator bool", "has_value")


def null(n):
    return any(m["k"] == "Nullptr" or m["k"] == "Ref" and m.get("d") is not None and m["d"].n == "nullopt" for m in walk(n))


class Cover:
    def __init__(self, db):
        self.db = db
        self.calls = Calls(db)
        self.fal = {f for f in self.calls.reporting if f.d.rt and strip(f.d.rt) != "void"}
        self.sums = {}
        self.todo = set()
        self.analysed = 0
        self.cname = {}

    def fields(self, d):
        """the data members a member function of a class of the syntax tree is about"""
        if d not in self.cname:
            self.cname[d] = frozenset()
            f = self.db.fn_of(d)
            fs = set()
            if f is not None and f.body is not None:
                for m in walk(f.body):
                    if m["k"] == "Mem" and m.get("d") is not None and m.get("e") is not None and m["e"]["k"] == "This":
                        if m["d"].k == "Field":
                            fs.add(m["d"].n)
                        elif (m["d"].q or "").startswith(AST):
                            fs |= self.fields(m["d"])
            self.cname[d] = frozenset(fs)
        return self.cname[d]

    def canon(self, d):
        fs = self.fields(d)
        return next(iter(fs)) if len(fs) == 1 else d.n[9:] if d.n.startswith("optional_") else d.n

    # -- what a function looks at
    def summary(self, g):
        """relative paths looked at on every successful way: set of paths with the parameter name first"""
        if g not in self.sums:
            self.sums[g] = None     # in progress: everything
            r = self.analyse(g)
            for _ in range(6):
                self.sums[g] = r
                r2 = self.analyse(g) if g in self.calls.recursive else r
                if r2 == r:
                    break
                r = r2
        return self.sums[g]

    def analyse(self, g):
        self.analysed += 1
        W = Walk(self, g)
        out = W.run()
        if out is None:
            return frozenset()      # never succeeds
        return frozenset(out.t), frozenset(out.a)


class Walk:
    def __init__(self, C, f):
        self.C, self.db, self.f = C, C.db, f
        self.env = {}
        self.exits = []
        for p in f.params:
            if AST in (p["d"].t or ""):
                self.env[p["d"]] = (p["n"],)
        self.fallible = f in C.fal
        self.brk, self.cont = [], []
        self.lam = None
        self.lams = {}

    def run(self):
        s = self.stmts([self.f.body], S())
        if s is not None and not s.r:
            self.exits.append(s)
        out = None
        for e in self.exits:
            out = join(out, e)
        return out

    # -- expressions
    def path(self, n, test=False):
        """access path denoted by the expression"""
        k = n["k"]
        if k == "Ref":
            return self.env.get(n.get("d"))
        if k in ("ICast", "Cast", "Paren", "Bind", "Temp", "Cleanup", "MatTemp"):
            return self.path(n["e"]) if n.get("e") is not None else None
        if k == "Un" and n.get("op") in ("*", "&"):
            return self.path(n["e"])
        if k == "Op" and n.get("op") in ("*", "->") and n.get("c"):
            return self.path(n["c"][0])
        if k in ("Op", "Index") and n.get("op", "[]") == "[]" and n.get("c"):
            p = self.path(n["c"][0])
            return p + ("*",) if p is not None else None
        if k == "New" and len(n.get("c", ())) == 1:
            return self.path(n["c"][0])
        if k == "Call" and n.get("d") is not None:
            d = n["d"]
            r = recv(n)
            if r is not None:
                p = self.path(r)
                if p is None:
                    return None
                own = (d.q or "").startswith(AST) and not (d.q or "").startswith(AST + "common::")
                if d.n in SAME and not own:
                    return p
                if d.n in ELEM and not own:
                    return p + ("*",)
                if (d.q or "").startswith(AST) and not n.get("c"):
                    if d.n in SKIP:
                        return None
                    return p + (self.C.canon(d),)
                return None
            if d.n in THROUGH and len(n.get("c", ())) == 1:
                return self.path(n["c"][0])
        return None

    def ev(self, n, s):
        """effects of the evaluation of the expression"""
        if n is None or s is None:
            return s
        k = n["k"]
        if k == "Bin" and n.get("op") in ("&&", "||") or k == "Un" and n.get("op") == "!":
            t, f = self.branch(n, s)
            return join(t, f)
        if k == "Cond":
            t, f = self.branch(n["cond"], s)
            return join(self.ev(n["then"], t), self.ev(n["else"], f))
        if k == "Lambda":
            x = self.lam_run(n, s)
            return S(x.t, x.a, s.r) if x is not None else s
        if k == "Op" and n.get("op") == "()" and n.get("c") and n["c"][0]["k"] in ("Ref", "ICast"):
            c = n["c"][0]
            while c["k"] == "ICast":
                c = c["e"]
            if c.get("d") in self.lams:
                for a in n["c"][1:]:
                    s = self.ev(a, s)
                return self.lam_run(self.lams[c["d"]], s) if s is not None else None
        for c in children(n):
            s = self.ev(c, s)
        if s is None:
            return None
        p = self.path(n)
        if p is not None and len(p) > 1:
            # asking whether an optional part is there is not yet looking at it
            s = s.add(*[p[:i] for i in range(2, len(p) + (0 if optional(n) or asks(n) else 1))])
            s = s.add(*[p[:i] + ("!",) for i in range(2, len(p))])
            if k == "Call" and n.get("d") is not None:
                s = s.add(*[p[:-1] + (x,) for x in self.C.fields(n["d"]) if x != p[-1]])
        if k == "Call" and n.get("d") is not None and n["d"].n == "value_or" and recv(n) is not None:
            s = s.add(self.path(recv(n)))
        if k == "Call" and is_ctx_report(n.get("d")):
            return S(s.t, s.a, True)
        if k in ("Call", "Op", "New") and n.get("d") is not None:
            d = n["d"]
            cs = list(n.get("c", ()))
            g = self.db.fn_of(d)
            if k == "Op" and g is not None and len(cs) == len(g.params) + 1:
                s = self.passed(cs[0], s)
                cs = cs[1:]
            op = n.get("op") if k == "Op" else None
            if op in ("==", "!=") and not any(null(c) for c in cs):
                s = s.add(*[self.path(c) for c in cs])
            if op in ("*", "->", "==", "!=", "[]", "!"):
                return s
            ec = [m["d"].n for a in cs for m in walk(a) if m["k"] == "Ref" and m.get("d") is not None and m["d"].k == "EnumConstant" and (m["d"].q or "").startswith(AST)]
            for i, a in enumerate(cs):
                p = self.path(a)
                if p is None:
                    continue
                if ec and self.enum_list(a):
                    s = s.add(*[(p[:-1] if p[-1] == "*" else p) + ("=" + x,) for x in ec])
                    continue
                s = self.passed(a, s)
                if g is not None and g.body is not None and i < len(g.params) and "/mizugaki/analyzer/" in g.file:
                    s = self.callee(g, i, p, s)
            r = recv(n) if k == "Call" else None
            if noreturn_call(self.db, n):
                return None
        if k == "Throw":
            return None
        return s

    def enum_list(self, a):
        """the expression is a list of enumerators (or a position in one)"""
        while a["k"] in ("ICast", "Cast", "Cleanup", "New", "MatTemp") and (a.get("e") is not None or len(a.get("c", ())) == 1):
            a = a.get("e") or a["c"][0]
        if a["k"] == "Call" and recv(a) is not None and a["d"].n in ("begin", "end", "cbegin", "cend"):
            a = recv(a)
        many, e = inner(strip(a.get("t") or ""))
        return many and e in self.db.enums

    def lam_run(self, n, s):
        """the state after a call of the lambda"""
        save, self.lam = self.lam, None
        x = self.stmts([n["body"]], s, nested=True) if n.get("body") is not None else s
        x = join(x, self.lam)
        self.lam = save
        return x

    def callee(self, g, i, p, s):
        r = self.C.summary(g)
        if r is None:
            return s
        if r == frozenset():
            return s
        t, a = r
        nm = g.params[i]["n"]
        return S(s.t | {p + q[1:] for q in t if q[0] == nm and len(q) > 1}, s.a | {p + q[1:] for q in a if q[0] == nm and len(q) > 1}, s.r)

    def passed(self, a, s):
        p = self.path(a)
        if p is not None and len(p) > 1:
            return s.add(p, p + ("!",))
        return s

    def branch(self, n, s):
        if s is None:
            return None, None
        k = n["k"]
        if k in ("Paren", "ICast", "Cleanup", "Cast") and n.get("e") is not None and not (k == "ICast" and n["e"]["k"] == "Call"):
            return self.branch(n["e"], s)
        if k == "ICast":
            return self.branch(n["e"], s)
        if k == "Un" and n.get("op") == "!" or k == "Op" and n.get("op") == "!":
            t, f = self.branch(n.get("e") or n["c"][0], s)
            return f, t
        if k == "Bin" and n.get("op") in ("&&", "||"):
            a, b = n["c"] if n.get("c") else (n["l"], n["r"])
            t, f = self.branch(a, s)
            if n["op"] == "&&":
                t2, f2 = self.branch(b, t)
                return t2, join(f, f2)
            t2, f2 = self.branch(b, f)
            return join(t, t2), f2
        x = self.ev(n, s)
        if x is None:
            return None, None
        if k == "Call" and recv(n) is not None and n["d"].n in ("empty", "has_value", "operator bool"):
            p = self.path(recv(n))
            if p is not None and n["d"].n == "empty":
                return x.absent(p + ("*",)), x
            return x, x.absent(p)
        if k in ("Bin", "Op") and n.get("op") in ("==", "!=") and len(n.get("c", ())) == 2:
            for a, b in (n["c"], n["c"][::-1]):
                p = self.path(a)
                if p is not None and null(b):
                    return (x.absent(p), x) if n["op"] == "==" else (x, x.absent(p))
        p = self.path(n)
        if p is not None:
            return x, x.absent(p)
        return x, x

    # -- statements
    def failing(self, e):
        """the returned expression is a failure"""
        while e["k"] in ("ICast", "Cast", "Paren", "Cleanup", "Bind", "MatTemp", "Temp") and e.get("e") is not None:
            e = e["e"]
        if e["k"] in ("IList", "New", "ValueInit") and all(c["k"] in ("DefInit", "DefArg") for c in e.get("c", ())):
            return True
        if e["k"] == "New" and len(e["c"]) == 1:
            return self.failing(e["c"][0])
        if e["k"] == "Nullptr" or e["k"] == "Bool" and e.get("v") in (False, 0):
            return True
        if e["k"] == "Ref" and e.get("d") is not None and e["d"].n in ("saw_error", "error", "nullopt", "not_found"):
            return True
        return False

    def ignored(self, e):
        """IF [NOT] EXISTS: nothing is to be done"""
        return any(m["k"] == "Call" and m.get("d") is not None and m["d"].n == "create" and any("statement::empty" in str(t) for t in (getattr(m["d"], "ta", None) or [])) for m in walk(e))

    def stmts(self, ss, s, nested=False):
        for x in ss:
            if s is None:
                return None
            s = self.stmt(x, s, nested)
        return s

    def var(self, v, s):
        i = v.get("init")
        if i is None:
            return s
        if i["k"] == "Lambda":
            self.lams[v["d"]] = i
            return s
        s = self.ev(i, s)
        p = self.path(i)
        if p is not None:
            self.env[v["d"]] = p
        else:
            self.env.pop(v["d"], None)
        return s

    def stmt(self, n, s, nested=False):
        k = n["k"]
        if k == "Block":
            return self.stmts(n["c"], s, nested)
        if k in ("Decl", "DeclStmt"):
            return self.stmts(n.get("c", []), s, nested)
        if k == "Var":
            return self.var(n, s)
        if k == "Return":
            e = n.get("e")
            if e is not None:
                s = self.ev(e, s)
                if s is not None:
                    s = s.add(self.path(e))
            if nested:
                self.lam = join(self.lam, s)
                return None
            if s is None or s.r:
                return None
            if e is not None and (self.fallible and self.failing(e) or self.ignored(e)):
                return None
            self.exits.append(s)
            return None
        if k == "If":
            for x in ("init", "var"):
                if n.get(x) is not None:
                    s = self.stmt(n[x], s, nested)
            if n.get("cond") is not None:
                t, f = self.branch(n["cond"], s)
            else:
                p = self.env.get(n["var"]["d"])
                t, f = s, (s.absent(p) if p is not None and s is not None else s)
            a = self.stmt(n["then"], t, nested) if t is not None else None
            b = self.stmt(n["else"], f, nested) if n.get("else") is not None and f is not None else f
            return join(a, b)
        if k in ("For", "While", "Do", "ForRange"):
            return self.loop(n, s, nested)
        if k == "Break":
            if self.brk:
                self.brk[-1] = join(self.brk[-1], s)
            return None
        if k == "Continue":
            if self.cont:
                self.cont[-1] = join(self.cont[-1], s)
            return None
        if k == "Switch":
            for x in ("init", "var"):
                if n.get(x) is not None:
                    s = self.stmt(n[x], s, nested)
            s = self.ev(n["cond"], s)
            if s is None:
                return None
            e = self.db.enums.get(strip(n["cond"].get("t") or ""))
            al = arms(n)
            labels = {v for a in al for v in a[0]}
            cov = e is not None and {x["v"] for x in e["c"]} <= labels
            self.brk.append(None)
            out = None
            for a in al:
                if not a[0] and cov:
                    continue
                out = join(out, self.stmts(a[2], s, nested))
            if not any(a[1] for a in al) and not cov:
                out = join(out, s)
            return join(out, self.brk.pop())
        if k == "Try":
            return self.stmts(n.get("c", [])[:1], s, nested)
        if k in ("Case", "Default", "Label", "Attr"):
            return self.stmt(n["sub"], s, nested) if n.get("sub") is not None else s
        if k in ("Null", "Using", "Static", "TypeDecl"):
            return s
        return self.ev(n, s)

    def loop(self, n, s, nested):
        if n.get("init") is not None:
            s = self.stmt(n["init"], s, nested)
        before = None
        if n["k"] == "ForRange":
            s = self.ev(n["range"], s)
            p = self.path(n["range"])
            if p is not None:
                self.env[n["var"]["d"]] = p + ("*",)
                for b in n["var"].get("bind", ()):
                    self.env.pop(b["d"], None)
                s = s.add(p)
            else:
                self.env.pop(n["var"]["d"], None)
            t, before = s, s
        elif n["k"] == "Do":
            t, before = s, None
        elif n.get("cond") is not None:
            t, before = self.branch(n["cond"], s)
        else:
            t, before = s, None
        self.brk.append(None)
        self.cont.append(None)
        b = self.stmt(n["body"], t, nested) if t is not None else None
        b = join(b, self.cont.pop())
        if n.get("inc") is not None:
            b = self.ev(n["inc"], b)
        stop = self.brk.pop()
        if n["k"] == "Do" and n.get("cond") is not None and b is not None:
            b = self.ev(n["cond"], b)
        if before is None:
            return join(b, stop)
        # the elements of an empty list are all dealt with; a loop that is left early has not seen the rest
        out = before
        if b is not None:
            keep = {p for p in b.t if "*" in p}
            out = S(before.t | keep, before.a | {p for p in b.a if "*" in p}, before.r)
        elif stop is None:
            # the body always leaves the function: without elements only
            p = self.path(n["range"]) if n["k"] == "ForRange" else None
            out = before.absent(p + ("*",)) if p is not None else before
        if stop is not None:
            out = join(out, stop)
        return out


def parts(C, S_, r):
    """[(member, its type)] of a class of the syntax tree which an accessor returns"""
    db = C.db
    from rules_access import accessors
    out = {}
    types = {}
    for x in [r] + all_bases(db, r):
        for f in x["fields"]:
            types[f["d"]] = f["t"]
    for n, os in accessors(db, S_, r).items():
        if n in SKIP or n.startswith("operator") or n in ("begin", "end", "empty", "size", "has_value"):
            continue
        fd = set().union(*[o for _, o in os])
        if len(fd) == 1:
            t = types.get(next(iter(fd)))
            if t is not None and strip(t) not in OPAQUE:
                out.setdefault(C.canon(os[0][0].d), t)
    return sorted(out.items())


def inner(t):
    """(kind, element type): node, nodes, struct, structs, value"""
    t = strip(t)
    wrap = {"std::optional<": "", "std::unique_ptr<": "", "std::vector<": "*", "mizugaki::ast::common::vector<": "*", "mizugaki::ast::common::regioned<": "", "mizugaki::ast::common::clone_wrapper<": ""}
    many = False
    while True:
        for w, m in wrap.items():
            if t.startswith(w):
                d = 0
                j = len(t)
                for i, c in enumerate(t[len(w):], len(w)):
                    if c == "<":
                        d += 1
                    elif c == ">" and d == 0 or c == "," and d == 0:
                        j = i
                        break
                    elif c == ">":
                        d -= 1
                t = strip(t[len(w):j])
                many = many or m == "*"
                break
        else:
            return many, t


def obligations(C, S_, r, visited, prefix=(), depth=0):
    """(path, what) that every successful translation has to look at"""
    db = C.db
    for n, t in parts(C, S_, r):
        many, e = inner(t)
        p = prefix + (n,) + (("*",) if many else ())
        er = db.records.get(e)
        if e.startswith(AST + "name::"):
            yield p, "name"
            continue
        if many and e in db.enums:
            for c in db.enums[e]["c"]:
                yield prefix + (n, "=" + c["d"].n), "option"
        elif er is None or not e.startswith(AST):
            yield prefix + (n,), "value"
        elif e in visited or any(b["n"] in visited for b in all_bases(db, er)) or is_base(db, e, visited):
            yield p + ("!",), "node"
        elif depth < 4:
            yield prefix + (n,), "value"
            yield from obligations(C, S_, er, visited, p, depth + 1)


def is_base(db, e, visited):
    return any(any(b["n"] == e for b in all_bases(db, db.records[v])) for v in visited if v in db.records)


# parts which may be left alone; every entry says why nothing is lost
EXCUSED = {
    ("ast::statement::table_definition", "options_.=if_not_exists"): "asks for nothing when there is no such table yet",
    ("ast::statement::index_definition", "options_.=if_not_exists"): "asks for nothing when there is no such index yet",
    ("ast::statement::column_definition", "constraints_.*.name_"): "no statement refers to a constraint by its name",
    ("ast::statement::table_constraint_definition", "name_"): "no statement refers to a constraint by its name",
    ("ast::table::table_reference", "is_only_"): "tables have no subtables, ONLY (t) is t",
    ("ast::type::decimal", "type_kind_"): "NUMERIC and DECIMAL denote one type",
    ("ast::scalar::extract_expression", "subsecond_digits_"): "has a meaning for the seconds only",
    ("ast::statement::grant_privilege_statement", "actions_.*.action_kind_"): "a table which is listed twice is dealt with once",
    ("ast::statement::grant_privilege_statement", "users_.*.user_kind_"): "a table which is listed twice is dealt with once",
    ("ast::statement::grant_privilege_statement", "users_.*.authorization_identifier_"): "PUBLIC, CURRENT_USER and * have no name",
    ("ast::statement::revoke_privilege_statement", "actions_.*.action_kind_"): "a table which is listed twice is dealt with once",
    ("ast::statement::revoke_privilege_statement", "users_.*.user_kind_"): "a table which is listed twice is dealt with once",
    ("ast::statement::revoke_privilege_statement", "users_.*.authorization_identifier_"): "PUBLIC, CURRENT_USER and * have no name",
}


# parts which only some of the places that deal with the class have to look at
WHOLE = {("statement::key_constraint", "key_"): "PRIMARY KEY of a column has no list of columns"}


def visitors(db, C):
    """[(class of the syntax tree, function, name of the parameter)]"""
    for f in C.calls.fns:
        if f.n == "operator()" and f.params:
            t = strip(f.params[0]["d"].t or "")
            if t.startswith(AST) and not t.startswith(AST + "name::") and t in db.records:
                yield t, f, f.params[0]["n"]


def downcasts(db, C, vis):
    """[(class, function, line, state at the ways out)]: places where a node turns into one of a class which has no visitor"""
    for f in C.calls.fns:
        for b in walk(f.body):
            if b["k"] not in ("Block", "Case", "Default"):
                continue
            cs = b.get("c") or []
            for i, st in enumerate(cs):
                for v in ([st] if st["k"] == "Var" else st.get("c", []) if st["k"] in ("Decl", "DeclStmt") else []):
                    t = cast_to(v.get("init"))
                    if t and t not in vis:
                        W = Walk(C, f)
                        W.env = {v["d"]: ("@",)}
                        W.cont, W.brk = [None], [None]
                        x = W.stmts(cs[i + 1:], S())
                        out = join(join(x, W.cont[0]), W.brk[0])
                        for e in W.exits:
                            out = join(out, e)
                        if any(m["k"] == "Return" and m.get("e") is not None and W.path(m["e"]) == ("@",) for m in walk(f.body)):
                            continue        # hands the node on
                        yield t, f, v["l"], "@", out
        for m in walk(f.body):
            if m["k"] in ("Call", "New") and m.get("d") is not None:
                g = db.fn_of(m["d"])
                for i, a in enumerate(m.get("c", ())):
                    t = cast_to(a)
                    if t and t not in vis and g is not None and i < len(g.params):
                        r = C.summary(g)
                        yield t, f, a["l"], g.params[i]["n"], S(*r) if r else None


def cast_to(e):
    while e is not None and e["k"] in ("ICast", "Cast", "Paren", "Cleanup") and e.get("e") is not None:
        e = e["e"]
    if e is not None and e["k"] == "Call" and e.get("d") is not None and e["d"].n in ("unsafe_downcast", "downcast"):
        t = strip(e.get("t") or "")
        if t.startswith(AST) and not t.startswith(AST + "name::"):
            return t
    return None


def holds(s, q):
    if covered(s, q):
        return True
    if q[-1] == "!":
        n = len(q) - 1
        return any(x[:n] == q[:-1] and len(x) > n and x[n] != "!" for x in s.t)
    if q[-1].startswith("="):
        return q[:-1] + ("*",) in s.t or q[:-1] + ("!",) in s.t
    return False


TEXT = {"node": "is not passed on for translation", "name": "is not looked at", "value": "is not looked at", "option": "is not looked for"}


def cover(db, rep):
    rep.explanation = ("For every visitor of the analyzer (and every place where a part becomes a node of a class without a visitor), the parts of the node "
                       "which each successful way through it and its helpers looks at are computed and compared with the data members the class has.")
    rep.rule("cov-node", "every child expression, query, type, action or element of a node is passed on for translation on every successful way", 60)
    rep.rule("cov-name", "every name a node carries is looked at on every successful way", 40)
    rep.rule("cov-value", "every other attribute of a node is looked at on every successful way", 60)
    rep.rule("cov-option", "every option a list of options can hold is looked for on every successful way", 5)
    rep.rule("cov-rest", "the visitor for the classes without one of their own never succeeds", 5)
    C = Cover(db)
    S_ = Sym(db)
    vis = list(visitors(db, C))
    classes = {t for t, _, _ in vis}
    if len(classes) < 60:
        raise Broken("visitors of the analyzer found for %d classes only" % len(classes))
    bases = {b["n"] for r in db.records.values() if not r.get("dep") for b in all_bases(db, r)}
    used = set()
    whole = {}

    def judge(t, f, line, nm, s, cast=False):
        kind = next((C.canon(m) for m in db.records[t]["methods"] if m.n == "node_kind"), None) if cast else None
        for p, what in obligations(C, S_, db.records[t], classes):
            if p[0] == kind:
                continue        # the kind decided the cast
            if (short_of(t), p[0]) in WHOLE and cast and not any(x[:2] == (nm, p[0]) for x in s.t):
                continue
            whole[short_of(t), p[0]] = 1
            con = "%s (%s): %s" % (short_of(t), f.q.rsplit("::", 2)[-2], ".".join(x for x in p if x != "!"))
            key = (t.replace("mizugaki::", "", 1), ".".join(p))
            if key in EXCUSED:
                used.add(key)
                continue
            rep.check(holds(s, (nm,) + p), "cov-" + what, con, line,
                      "%s of %s %s on some way which succeeds" % (".".join(x.rstrip("_") for x in p if x not in ("!", "*")), short_of(t), TEXT[what]))

    for t, f, nm in vis:
        r = C.summary(f)
        if t in bases and not parts(C, S_, db.records[t]):
            rep.check(r == frozenset(), "cov-rest", short_of(t), f.loc(), "the visitor for unsupported %s succeeds" % short_of(t))
            continue
        if r != frozenset():
            judge(t, f, f.loc(), nm, S(*r))
    for t, f, line, nm, s in downcasts(db, C, classes):
        if s is not None:
            judge(t, f, "%s:%d" % (rel(f.file), line), nm, s, True)
    for k, why in WHOLE.items():
        rep.check(k in whole, "cov-node", "%s.%s" % k, "src/mizugaki/analyzer/details/analyze_statement.cpp:1", "%s of %s is looked at nowhere" % (k[1].rstrip("_"), k[0]))
    rep.notes.append("%d parts excused: %s" % (len(used), "; ".join("%s.%s (%s)" % (a, b, EXCUSED[a, b]) for a, b in sorted(used))))
    rep.count("visitors", len(vis))
    rep.count("functions summarised", C.analysed)


def short_of(t):
    return t.replace("mizugaki::ast::", "")


CHECKS = {"A02": cover}

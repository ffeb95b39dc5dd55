"""Abstract evaluation of the semantic actions of the grammar: what each action makes of the values of its symbols."""
from aval import Interp, Lin, Obj, St, Frame, show
from grammar import Grammar, actions
from mz import Broken, walk, recv, strip


class GInterp(Interp):
    """('sym', i): value of the i-th symbol (1-based); ('loc', i): its region; ('lhs',) / ('lhsloc',)"""

    def __init__(self, db, n):
        super().__init__(db, inline=self._inline, model=self._model)
        self.rhs = n

    def _inline(self, f):
        """helpers are looked into, the primitives of the driver and everything of the syntax tree are not"""
        q = f.q
        if q.startswith("mizugaki::ast::") or q.startswith("takatori::") or q.startswith("std::"):
            return False
        return q.rsplit("::", 1)[-1] not in PRIMITIVES and q.startswith("mizugaki::parser::")

    def slot(self, n):
        """the stack element an expression designates: index, 0 for the left hand side, or None"""
        if n["k"] == "Ref" and n.get("d") is not None and n["d"].n == "yylhs":
            return 0
        if n["k"] == "Op" and n["op"] == "[]" and n["c"][0]["k"] == "Mem" and n["c"][0]["d"].n == "yystack_":
            x = n["c"][1]
            while x["k"] in ("ICast", "Cast"):
                x = x["e"]
            if x["k"] == "Un" and x["op"] == "-":
                return None
            return self.rhs - x["v"]
        return None

    def gsym(self, n):
        if n["k"] == "Call" and n.get("d") is not None and n["d"].n == "as":
            r = recv(n)
            if r is not None and r["k"] == "Mem" and r["d"].n == "value" and "e" in r:
                s = self.slot(r["e"])
                if s is not None:
                    return ("sym", s) if s else ("lhs",)
        if n["k"] == "Mem" and n["d"].n == "location" and "e" in n:
            s = self.slot(n["e"])
            if s is not None:
                return ("loc", s) if s else ("lhsloc",)
        return None

    def key(self, fr, n):
        g = self.gsym(n)
        if g is not None:
            return ("g",) + g
        if n["k"] == "Mem" and n["d"].n == "driver":
            return None
        return super().key(fr, n)

    def read(self, fr, key, n, st):
        if n["k"] == "Ref" and n.get("d") is not None and n["d"].q == "std::nullopt":
            return ("null",)
        if key[0] == "g" and key not in st.env:
            return key[1:]
        return super().read(fr, key, n, st)

    def ev(self, fr, n, st):
        g = self.gsym(n)
        if g is not None:
            v = st.env.get(("g",) + g, g)
            if g[0] == "sym":
                st = st.effect(("use", g[1], n.get("l")))
            return [(v, st)]
        if n["k"] == "Mem" and n["d"].n in ("driver", "scanner"):
            return [((n["d"].n,), st)]
        return super().ev(fr, n, st)

    def _model(self, I, fr, n, name, rv, av, st):
        if name == "mizugaki::parser::sql_driver::node":
            t = n.get("ta") or [strip(n.get("t", ""))]
            return [(("node", t[0]) + tuple(av), st.effect(("node", id(n), n.get("l"))))]
        if name in LISTS:
            return [(("list",), st)]
        if name == "mizugaki::parser::sql_driver::to_node_vector":
            return [(("list",) + tuple(av), st)]
        if name is None:
            return None
        short = name.rsplit("::", 1)[-1]
        if short in ("emplace_back", "push_back") and name.startswith("std::"):
            r = recv(n)
            e = elem(n)
            v = av[0] if len(av) == 1 else ("rg",) + tuple(av) if e.startswith("mizugaki::ast::common::regioned<") and len(av) == 2 else ("new", e) + tuple(av)
            v = ("list",) + rv[1:] + (v,) if isinstance(rv, tuple) and rv[:1] == ("list",) else ("list", ("all", rv), v)
            st = self.assign(fr, r, v, st)
            if isinstance(rv, tuple) and rv[:1] == ("sym",):
                st = st.set(("g",) + rv, v)
            return [(("void",), st.effect(("grow", r_key(self.key(fr, r)), n.get("l"))))]
        if short == "reserve" and name.startswith("std::"):
            return [(("void",), st)]
        if short == "operator|" and len(av) + (rv is not None) == 2:
            return [(hull(*([rv] if rv is not None else []), *av), st)]
        if short in ("operator bool", "has_value") and rv is not None:
            return [(("given", rv), st)]
        if short in ("operator*", "operator->", "value") and not av and rv is not None and name.startswith(("std::", "mizugaki::ast::common::regioned")):
            return [(rv, st)]
        if short.startswith("operator ") and rv is not None and not av and name.startswith("mizugaki::ast::common::regioned"):
            return [(rv, st)]
        if short == "get" and name.startswith("std::") and len(av) == 1:
            return [(("get", tuple(n.get("ta") or ()), av[0]), st)]
        if name.startswith("new "):
            t = name[4:]
            if t == "std::nullptr_t":
                return [(("null",), st)]
            if t.startswith("mizugaki::ast::common::regioned<") or t.startswith("regioned<"):
                if len(av) == 1 and isinstance(av[0], tuple) and av[0][:1] in (("rg",), ("sym",)):
                    return [(av[0], st)]
                if not av:
                    return [(("rg", ("default",), None), st)]
                return [(("rg", av[0], av[1] if len(av) > 1 else None), st)]
            if t.startswith(("std::unique_ptr<", "std::optional<", "std::variant<")):
                if not av:
                    return [(("null",), st)]
                if len(av) == 1:
                    return [(av[0], st)]
            if t.startswith("std::vector<") and not av:
                return [(("list",), st)]
        return None

    def truth(self, fr, n, st):
        """an optional tested by a declaration in a condition: whether it has a value, not the value"""
        if n["k"] == "Ref" and strip(n.get("t", "")).startswith("std::optional<"):
            out = []
            for v, x in self.ev(fr, n, st):
                kn = False if v == ("null",) else x.known(("given", v))
                out += [(kn, x)] if kn is not None else [(b, x.assume(("given", v), b)) for b in (True, False)]
            return out
        return super().truth(fr, n, st)


LISTS = {"mizugaki::parser::sql_driver::node_vector", "mizugaki::parser::sql_driver::element_vector"}
PRIMITIVES = {"check_regular_identifier", "check_delimited_identifier", "to_size", "image", "parse_regular_identifier", "parse_delimited_identifier",
              "to_regular_identifier", "to_delimited_identifier", "try_merge_identifier_chain", "try_build_identifier_chain", "try_build_type",
              "try_fold_literal", "validate", "validate_count", "success", "error", "find_placeholder_mark", "leading_description_comment",
              "leading_comments", "following_comments", "comments", "document", "result", "node", "node_vector", "to_node_vector", "element_vector"}


def elem(n):
    r = recv(n)
    t = strip(r.get("t", "")) if r is not None else "?"
    return t[len("std::vector<"):-1].strip() if t.startswith("std::vector<") else t


def r_key(k):
    return k


def hull(*vs):
    s = set()
    for v in vs:
        if isinstance(v, tuple) and v[:1] == ("hull",):
            s |= v[1]
        else:
            s.add(v)
    return ("hull", frozenset(s))


class Outcome:
    def __init__(self, kind, lhs, eff, cond, env=None):
        self.kind, self.lhs, self.eff, self.cond, self.env = kind, lhs, eff, cond, env

    def uses(self):
        u = {}
        for e in self.eff:
            if e[0] == "use":
                u[e[1]] = u.get(e[1], 0) + 1
        return u


class Rule:
    def __init__(self, no, lhs, rhs, line, stmts):
        self.no, self.lhs, self.rhs, self.line, self.stmts = no, lhs, rhs, line, stmts
        self.loc = "src/mizugaki/parser/sql_parser.yy:%d" % line
        self.name = "%s: %s" % (lhs, " ".join(rhs) or "%empty")
        if len(self.name) > 110:
            self.name = self.name[:107] + "..."


def evaluate(db):
    """list of (Rule, [Outcome])"""
    if hasattr(db, "_gact"):
        return db._gact
    G = Grammar(db)
    f, acts = actions(db)
    out = []
    for no, (lhs, rhs, useful, _) in sorted(G.rules.items()):
        if no == 0:
            continue
        stmts, line = acts.get(no, (None, 0))
        if stmts is not None:
            ls = [n["l"] for s in stmts for n in walk(s) if n.get("F", "").endswith(".yy") and "l" in n]
            line = min(ls) if ls else line
        r = Rule(no, lhs, rhs, line, stmts)
        outs = []
        if stmts is not None:
            I = GInterp(db, len(rhs))
            for k, v, st in I.block(Frame(f, ("this",), 0, 0), stmts, St()):
                outs.append(Outcome(k if k != "goto" else "goto " + str(v), st.env.get(("g", "lhs"), ("lhs",)), st.eff, st.cond, st.env))
        out.append((r, outs))
    db._gact = (G, out)
    return db._gact

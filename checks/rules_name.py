"""A09: what the names of a statement denote.

Every way through the resolution of a name is followed in small worlds: a chain of scopes, each with a few relations, a search path with a few schemas.
What a relation, a scope or a provider answers is a condition on the way; the names are fixed letters, so that the key of a lookup is a constant.
The result of each way is compared with the rules of SQL for the answers which were given."""
import re

from aval import Lin, Obj, St, Interp
from mz import Broken, recv, strip, walk
from terms import Unknown, deep
from trans import Trans, NOTHING, failing, targs

DET = "mizugaki::analyzer::details::"
GROUND = ("scope", "rel", "elem", "find", "schema", "catalog", "decl", "parameter", "name", "text", "node", "context", "options", "chain", "cand")
MAYBE = ("maybe",)
ENTRIES = ("analyze_variable_name", "analyze_relation_info_name", "analyze_relation_name", "analyze_table_name", "analyze_index_name", "analyze_schema_name",
           "analyze_function_name", "analyze_aggregation_name", "normalize_identifier")


def text(s):
    return ("text", tuple(ord(c) for c in s))


def ending(v, name):
    return isinstance(v, tuple) and v[:1] == ("enum",) and v[1].split("::")[-1] == name


def plain(t):
    return strip(t or "").replace("const ", "").replace(" const", "").replace(" ", "").rstrip("&")


def core(t):
    t = re.sub(r"\bconst\b|\s|&", "", t)
    while True:
        t = t.replace("takatori::util::maybe_shared_ptr<", "std::shared_ptr<")
        m = re.fullmatch(r"(?:std::reference_wrapper|::?takatori::util::optional_ptr)<(.*)>", t)
        if m is None:
            return t.split("::")[-1] if "<" not in t else t
        t = m.group(1)


class World:
    """depth: number of scopes; rels: relations per scope; chain: columns of one name per relation; search: schemas in the search path"""

    def __init__(self, names, depth=1, rels=0, chain=1, search=0, regular=False, options=False, cands=1):
        self.names = names
        self.depth, self.rels, self.chain, self.search, self.regular, self.options, self.cands = depth, rels, chain, search, regular, options, cands


class Names(Trans):
    def __init__(self, db, world, **kw):
        self.w = world
        super().__init__(db, inline=self.enter, model=self.nm, maxdepth=30, unroll=1, **kw)
        self.maxpaths = 3000000

    def enter(self, f):
        return f.body is not None and f.file.endswith(self.file) or (f.q or "").startswith(DET + "find_symbol_result")

    # -- conditions
    def settle(self, c, st):
        k = st.known(c)
        if k is not None:
            return [(k, st)]
        return [(True, st.assume(c, True)), (False, st.assume(c, False))]

    def kind(self, v, st):
        """what a lookup finds: absent, found or ambiguous"""
        for c, b in st.cond:
            if c == ("kind", v):
                return [(b, st)]
        ks = ["absent", "found"]
        if v[0] == "find":
            ks.append("ambiguous")
        elif v[0] == "chain":
            n, x = 1, v
            while x[0] == "chain":
                n, x = n + 1, x[1]
            if n > self.w.chain:
                return [("absent", st)]
        return [(k, st.assume(("kind", v), k)) for k in ks]

    def tobool(self, v):
        if isinstance(v, Obj):
            return True
        if isinstance(v, tuple) and v:
            if v[0] in GROUND or v[0] in ("sym", "tuple", "mk", "vec", "refs"):
                return True
            if v[0] == "res":
                return v[1] != "error"
            if failing(v):
                return False
        return super().tobool(v)

    def present(self, v, st):
        b = self.tobool(v)
        return b if b is not None else super().present(v, st)

    def compare(self, op, a, b):
        if op in ("==", "!=") and isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in GROUND and b[0] in GROUND:
            return (a == b) == (op == "==")
        if op in ("==", "!=") and isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in GROUND and failing(b):
            return op == "!="
        return super().compare(op, a, b)

    def assign(self, fr, lhs, v, st):
        if lhs["k"] in ("Op", "Call") and len(lhs.get("c", ())) and (lhs.get("op") == "[]" or lhs.get("d") is not None and lhs["d"].n in ("at", "operator[]")):
            b = lhs["c"][0] if lhs["k"] == "Op" else recv(lhs)
            k = self.key(fr, b)
            i = self.ev(fr, lhs["c"][-1], st)[0][0]
            t = st.env.get(k)
            if isinstance(t, tuple) and t[:1] == ("text",) and isinstance(i, Lin) and i.const() is not None and isinstance(v, Lin) and v.const() is not None and 0 <= i.c < len(t[1]):
                return st.set(k, ("text", t[1][:i.c] + (v.c,) + t[1][i.c + 1:]))
            raise Unknown("an element is assigned")
        return super().assign(fr, lhs, v, st)

    # -- values
    def ev(self, fr, n, st):
        if n["k"] == "Ref" and n.get("d") is not None and not n["d"].local and n["d"].n in ("error", "ambiguous") and "find_symbol_result" in (n["d"].q or ""):
            return [(("res", "error"), st)]
        if n["k"] == "Ref" and n.get("d") is not None and n["d"].k != "EnumConstant" and not n["d"].local and strip(n.get("t") or "").replace("const ", "").split("::")[-1] in ("saw_error_t", "not_found_t"):
            return [(("tag", strip(n["t"]).replace("const ", "").split("::")[-1]), st)]
        if n["k"] == "Mem" and n.get("d") is not None and n["d"].n == "error" and "find_symbol_result" in (n["d"].q or ""):
            return [(("res", "error"), st)]
        return super().ev(fr, n, st)

    def default(self, s):
        t = strip(s.get("t") or "").replace("const ", "")
        if t == DET + "query_scope":
            return ("scope", "none")
        if t.startswith("std::vector<"):
            return ("vec", s["d"].n, ())
        if t.startswith("std::basic_string<"):
            return ("text", ())
        return super().default(s)

    def made(self, t, av, st):
        """a constructed object"""
        t = strip(t).replace("const ", "")
        if t == DET + "query_scope" and not av:
            return [(("scope", "none"), st)]
        if t.startswith("std::vector<") and not av:
            return [(("vec", t, ()), st)]
        if t.startswith("std::basic_string<") and not av:
            return [(("text", ()), st)]
        if t.startswith("takatori::util::enum_set<"):
            es = [x for a in av for x in (a[1] if isinstance(a, tuple) and a[:1] == ("eset",) else deep(a)) if x[:1] in (("enum",), ("?",), ("param",))]
            if all(e[:1] == ("enum",) for e in es):
                return [(("eset", tuple(sorted(set(es), key=lambda e: e[2]))), st)]
        if "find_symbol_result<" in t.split("::")[-1] or t.startswith(DET + "find_symbol_result<"):
            if not av:
                return [(("res", ("null",)), st)]
            if len(av) == 1:
                return [(av[0] if isinstance(av[0], tuple) and av[0][:1] == ("res",) else ("res", av[0]), st)]
        if t.startswith((DET + "find_element_result<", "std::reference_wrapper<", "std::shared_ptr<", "takatori::util::optional_ptr<", "std::optional<", "takatori::util::sequence_view<")) and len(av) == 1:
            return [(("null",) if failing(av[0]) else av[0], st)]
        if t.split("<")[0].endswith("__normal_iterator") and len(av) == 1 and isinstance(av[0], tuple) and av[0][:1] in (("seq",), ("titer",)):
            return [(av[0], st)]
        if t.startswith("std::pair<") and len(av) == 2:
            return [(("tuple",) + tuple(av), st)]
        return None

    def construct(self, fr, n, st):
        t = strip(n.get("t") or "").replace("const ", "")
        cs = n.get("c", [])
        if t.startswith("std::variant<") and len(cs) == 1:
            c = cs[0]
            at = c.get("t")
            while c["k"] in ("ICast", "Cast") and "e" in c:
                c = c["e"]
            out = []
            for v, x in self.ev(fr, cs[0], st):
                if isinstance(v, tuple) and v[:1] in (("sym",), ("alt",)):
                    out.append((v, x))
                elif isinstance(v, tuple) and v[:1] == ("tag",):
                    out.append((("sym", v[1], v), x))
                else:
                    out.append((("sym", plain(at), v), x))
            return out
        return super().construct(fr, n, st)

    def nm(self, itp, fr, n, name, rv, av, st):
        if n["k"] not in ("Call", "Op"):
            t = name[4:] if isinstance(name, str) and name.startswith("new ") else ""
            return self.made(t, av, st) if t else None
        d = n.get("d")
        if d is None:
            return None
        q, nm = d.q or "", d.n
        base, rest = rv, list(av)
        if base is None and n["k"] == "Op" and av:
            base, rest = av[0], list(av[1:])
        op = n.get("op") if n["k"] == "Op" else None
        if q.endswith("analyzer_context::report"):
            return [(("void",), st.effect(("report", av[0])))]
        if q.endswith("analyzer_context::bless"):
            return [(av[0], st)]
        if q.endswith("analyzer_context::is_resolved"):
            return self.settle(("resolved", av[0]), st)
        if q.endswith("analyzer_context::resolve_as_alias"):
            return [(("void",), st.effect(("alias",) + tuple(av)))]
        if q.endswith("analyzer_context::options"):
            return [(("options",), st)]
        if nm == "to_string" and "symbol_kind" in str(n.get("t")) or op == "<<" or q.startswith("takatori::util::string_builder"):
            return [(("words",), st)]
        if q in ("std::get_if", "std::holds_alternative", "std::get") and av and targs(d):
            v = av[0]
            T = plain(str(targs(d)[0]))
            if not (isinstance(v, tuple) and v[:1] == ("sym",)):
                raise Unknown("alternatives %r" % (v,))
            hit = core(v[1]) == core(T)
            if q == "std::holds_alternative":
                return [(hit, st)]
            return [(v[2] if hit else ("null",), st)]
        if q.startswith("std::variant<") and nm == "index":
            raise Unknown("index of alternatives")
        if q == "std::make_pair" and len(av) == 2 or q == "std::make_tuple" and len(av) == 2:
            return [(("tuple",) + tuple(av), st)]
        if q.startswith("yugawara::binding::factory::operator()"):
            return [(rest[-1] if rest else av[-1], st)]
        r = self.texts(fr, n, d, base, rest, op, st)
        if r is None:
            r = self.sets(fr, n, d, base, rest, op, st)
        if r is None:
            r = self.lists(fr, n, d, base, rest, op, st)
        if r is None:
            r = self.world(fr, n, d, base, rest, op, st)
        return r

    def texts(self, fr, n, d, base, rest, op, st):
        nm, q = d.n, d.q or ""
        if q in ("std::transform", "std::for_each"):
            return self.mapped(fr, n, q, rest if base is None else [base] + rest, st)
        if isinstance(base, tuple) and base[:1] == ("titer",):
            i = rest[0].const() if rest and isinstance(rest[0], Lin) else None
            if op in ("+", "-") and i is not None:
                return [(("titer", base[1], base[2] + (i if op == "+" else -i)), st)]
            if op == "*" and not rest and 0 <= base[2] < len(base[1][1]):
                return [(Lin((), base[1][1][base[2]]), st)]
            if op == "++":
                nv = ("titer", base[1], base[2] + 1)
                return [(base if rest else nv, self.assign(fr, n["c"][0], nv, st))]
            if op in ("==", "!=") and rest and isinstance(rest[0], tuple):
                return [((base == rest[0]) == (op == "=="), st)]
            return None
        if not (isinstance(base, tuple) and base[:1] == ("text",)):
            return None
        cs = base[1]
        r = recv(n) if n["k"] == "Call" else n["c"][0]
        k = self.key(fr, r) if r is not None else None
        i = rest[0].const() if rest and isinstance(rest[0], Lin) else None
        if nm in ("size", "length") and not rest:
            return [(Lin((), len(cs)), st)]
        if nm == "empty" and not rest:
            return [(not cs, st)]
        if nm == "resize" and i is not None and k is not None:
            return [(("void",), st.set(k, ("text", (cs + (0,) * i)[:i])))]
        if nm in ("clear",) and k is not None:
            return [(("void",), st.set(k, ("text", ())))]
        if nm in ("reserve", "shrink_to_fit"):
            return [(("void",), st)]
        if nm in ("push_back", "operator+=") and i is not None and k is not None:
            return [(base, st.set(k, ("text", cs + (i,))))]
        if nm in ("assign", "operator=", "operator+=", "append") and rest and k is not None:
            a = rest[0]
            if isinstance(a, tuple) and a[:1] == ("text",):
                return [(base, st.set(k, ("text", (cs if nm in ("operator+=", "append") else ()) + a[1])))]
            if isinstance(a, tuple) and a[:1] == ("titer",) and len(rest) == 2 and rest[1][:1] == ("titer",):
                return [(base, st.set(k, ("text", (cs if nm == "append" else ()) + a[1][1][a[2]:rest[1][2]])))]
        if op == "[]" or nm in ("operator[]", "at"):
            if i is not None and 0 <= i < len(cs):
                return [(Lin((), cs[i]), st)]
        if nm in ("begin", "cbegin"):
            return [(("titer", base, 0), st)]
        if nm in ("end", "cend"):
            return [(("titer", base, len(cs)), st)]
        if nm.startswith("operator basic_string_view") or nm in ("c_str", "data"):
            return [(base, st)]
        if op in ("==", "!=") and len(rest) == 1 and isinstance(rest[0], tuple):
            if rest[0][:1] == ("catname",):
                return [(b == (op == "=="), x) for b, x in self.settle(("catalog is", base), st)]
        return None

    def mapped(self, fr, n, q, av, st):
        """std::transform and std::for_each over the characters of a text"""
        a, b = av[0], av[1]
        fn = av[-1]
        if not (isinstance(a, tuple) and a[:1] == ("titer",) and isinstance(b, tuple) and b[:1] == ("titer",) and a[1] == b[1]) or len(av) != (4 if q == "std::transform" else 3):
            raise Unknown(q)
        lam = next((x[1] for x in deep(fn) if x[:1] == ("lambda",) and len(x) == 2 and x[1] in self.lambdas), None) if isinstance(fn, tuple) else None
        if lam is None:
            raise Unknown(q)
        ln, lfr = self.lambdas[lam]
        ln = ln["insts"][0] if ln.get("insts") else ln
        if q == "std::for_each":
            r = n["c"][0]
        else:
            r = n["c"][2]
        while r["k"] in ("ICast", "Cast") and "e" in r:
            r = r["e"]
        append = False
        if recv(r) is not None:
            k = self.key(fr, recv(r))
        elif r["k"] in ("Call", "Construct") and r.get("c"):
            append, k = True, self.key(fr, r["c"][0])
        else:
            k = None
        t = st.env.get(k) if k is not None else None
        if not (isinstance(t, tuple) and t[:1] == ("text",)):
            if q != "std::for_each":
                raise Unknown(q)
        at = 0 if append or q == "std::for_each" else av[2][2] if isinstance(av[2], tuple) and av[2][:1] == ("titer",) else None
        if at is None:
            raise Unknown(q)
        cur = [((), st)]
        for c in a[1][1][a[2]:b[2]]:
            nxt = []
            for got, x in cur:
                for v, y in self.run_lambda(self.lambdas[lam], [Lin((), c)], x):
                    if q == "std::for_each":
                        v = y.env.get(("l", ln["params"][0]["d"]))
                    if not (isinstance(v, Lin) and v.const() is not None):
                        raise Unknown(q)
                    nxt.append((got + (v.c,), y))
            cur = nxt
        out = []
        for got, x in cur:
            if q == "std::for_each":
                at = a[2]
                ref = "&" in (ln["params"][0].get("t") or ln["params"][0]["d"].t or "") and "const" not in (ln["params"][0].get("t") or ln["params"][0]["d"].t or "")
                if not ref:
                    out.append((("void",), x))
                    continue
                t = x.env.get(k)
                if k is None or not (isinstance(t, tuple) and t[:1] == ("text",)):
                    raise Unknown(q)
            cs = x.env[k][1]
            x = x.set(k, ("text", cs + got if append else cs[:at] + got + cs[at + len(got):]))
            out.append((("void",), x))
        return out

    def sets(self, fr, n, d, base, rest, op, st):
        nm = d.n
        if isinstance(base, tuple) and base[:1] == ("features",):
            if nm == "contains" and len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][:1] == ("enum",):
                return self.settle(("feature", base[1], rest[0][1].split("::")[-1]), st)
            raise Unknown("features")
        if not (isinstance(base, tuple) and base[:1] == ("eset",)):
            return None
        es = base[1]
        o = rest[0] if rest else None
        os = o[1] if isinstance(o, tuple) and o[:1] == ("eset",) else (o,) if isinstance(o, tuple) and o[:1] == ("enum",) else None
        if nm == "contains" and os is not None:
            return [(all(x in es for x in os), st)]
        if nm in ("size",):
            return [(Lin((), len(es)), st)]
        if nm == "empty":
            return [(not es, st)]
        if nm in ("begin", "cbegin"):
            return [(("seq", es, 0), st)]
        if os is not None and op in ("|", "&", "-", "|=", "&=", "-=", "==", "!="):
            if op in ("==", "!="):
                return [((set(es) == set(os)) == (op == "=="), st)]
            s = {"|": set(es) | set(os), "&": set(es) & set(os), "-": set(es) - set(os)}[op[0]]
            v = ("eset", tuple(sorted(s, key=lambda e: e[2])))
            if len(op) == 2:
                st = self.assign(fr, n["c"][0], v, st)
            return [(v, st)]
        if nm in ("insert", "erase") and os is not None and recv(n) is not None:
            s = set(es) | set(os) if nm == "insert" else set(es) - set(os)
            v = ("eset", tuple(sorted(s, key=lambda e: e[2])))
            return [(v, self.assign(fr, recv(n), v, st))]
        return None

    def relist(self, fr, e, base, es, st):
        k = self.key(fr, e)
        old = st.env.get(k) if k is not None else None
        if not (isinstance(old, tuple) and old[:1] == ("vec",)):
            raise Unknown("a list")
        return [(("void",), st.set(k, ("vec", old[1], es)))]

    def lists(self, fr, n, d, base, rest, op, st):
        nm = d.n
        if isinstance(base, tuple) and base[:1] == ("vec",):
            if nm in ("rbegin", "crbegin"):
                return [(("riter", base[2], len(base[2]) - 1), st)]
            if nm in ("rend", "crend"):
                return [(("riter", base[2], -1), st)]
            if nm in ("begin", "cbegin"):
                return [(("seq", base[2], 0), st)]
            if nm in ("end", "cend"):
                return [(("seq", base[2], len(base[2])), st)]
            if nm == "empty":
                return [(not base[2], st)]
            if nm in ("operator[]", "at") or op == "[]":
                i = rest[0].const() if isinstance(rest[0], Lin) else None
                if i is not None and 0 <= i < len(base[2]):
                    return [(base[2][i], st)]
            if nm in ("push_back", "emplace_back") and len(rest) == 1:
                return self.relist(fr, recv(n), base, base[2] + (rest[0],), st)
            if nm in ("clear", "pop_back") and not rest:
                return self.relist(fr, recv(n), base, () if nm == "clear" else base[2][:-1], st)
            if nm in ("insert", "emplace") and len(rest) == 2 and isinstance(rest[0], tuple) and rest[0][:1] == ("seq",) and not (isinstance(rest[1], tuple) and rest[1][:1] in (("seq",), ("riter",), ("vec",))):
                i = rest[0][2]
                return self.relist(fr, recv(n), base, base[2][:i] + (rest[1],) + base[2][i:], st)
            if nm in ("size",) and not rest:
                return [(Lin((), len(base[2])), st)]
            if nm in ("front", "back") and not rest:
                if not base[2]:
                    raise Unknown("an element which is not there")
                return [(base[2][0 if nm == "front" else -1], st)]
            if nm in ("insert", "emplace", "erase", "resize", "assign", "swap", "push_back", "emplace_back"):
                raise Unknown("a list: %s" % nm)
        if base is None and (d.q or "").startswith("std::") and any(isinstance(a, tuple) and a[:1] in (("seq",), ("riter",), ("titer",)) for a in rest):
            a = n["c"][0] if n.get("c") else None
            while a is not None and a["k"] in ("ICast", "Cast") and "e" in a:
                a = a["e"]
            b = recv(a) if a is not None else None
            if nm == "reverse" and len(rest) == 2 and rest[0][:1] == ("seq",) and rest[0][2] == 0 and b is not None and rest[1] == ("seq", rest[0][1], len(rest[0][1])):
                return self.relist(fr, b, ("vec", "", rest[0][1]), rest[0][1][::-1], st)
            if nm not in ("move", "forward", "addressof", "make_pair", "make_tuple", "tie", "swap"):
                raise Unknown("%s of a list" % d.q)
        if isinstance(base, tuple) and base[:1] in (("riter",), ("seq",)):
            if op in ("*", "->") and not rest:
                if not 0 <= base[2] < len(base[1]):
                    raise Unknown("an element which is not there")
                return [(base[1][base[2]], st)]
            if op == "++":
                r = recv(n) if n["k"] == "Call" else n["c"][0]
                nv = (base[0], base[1], base[2] + (1 if base[0] == "seq" else -1))
                return [(nv if not rest else base, self.assign(fr, r, nv, st))]
            if op in ("==", "!=") and rest and isinstance(rest[0], tuple):
                return [((base == rest[0]) == (op == "=="), st)]
        return None

    def world(self, fr, n, d, base, rest, op, st):
        nm, q, w = d.n, d.q or "", self.w
        if isinstance(base, Obj) and nm in ("operator bool", "has_value") and not rest and q.startswith(("std::", "takatori::util::")):
            return [(True, st)]
        if not isinstance(base, tuple) or not base:
            return None
        b = base[0]
        bare = not rest
        if b in GROUND and bare and (op in ("*", "->") or nm in ("operator*", "operator->", "get", "value") and b not in ("name",)):
            if b in ("find", "chain"):
                return [(k == "found" and base or ("gone",), x) for k, x in self.kind(base, st)]
            return [(base, st)]
        if b == "gone" and bare:
            raise Unknown("what is not found is used")
        if b == "name":
            i = base[1]
            if nm == "optional_qualifier":
                return [(("name", i + 1) if i + 1 < len(w.names) else ("null",), st)]
            if nm == "qualifier" and i + 1 < len(w.names):
                return [(("name", i + 1), st)]
            if nm == "last_name":
                return [(("name", i, "last"), st)]
            if nm == "identifier":
                return [(text(w.names[i]), st)]
            if nm == "identifier_kind":
                e = [(("enum", "mizugaki::ast::name::identifier_kind::" + x, v) ) for x, v in self.idkinds.items() if x == ("regular" if w.regular else "delimited")]
                return [(e[0], st)]
            if nm == "region":
                return [(("region",), st)]
            if nm == "node_kind":
                e = "simple" if len(base) > 2 or i + 1 == len(w.names) else "qualified"
                return [(("enum", "mizugaki::ast::name::kind::" + e, self.nkinds[e]), st)]
        if b == "options":
            if nm.startswith("lowercase"):
                return self.settle(("option", nm), st) if w.options else [(False, st)]
            if nm == "schema_search_path":
                return [(("search",), st)]
            if nm == "catalog":
                return [(("catalog",), st)]
        if b == "search" and nm == "elements":
            return [(("vec", "search", tuple(("schema", i) for i in range(w.search))), st)]
        if b == "catalog":
            if nm == "name":
                return [(("catname",), st)]
            if nm == "schema_provider":
                return [(("provider", "schema", base), st)]
        if b == "catname":
            if nm == "empty":
                return [(not x, y) for x, y in self.settle(("catalog named",), st)]
            if op in ("==", "!=") and len(rest) == 1 and rest[0][:1] == ("text",):
                return [(x == (op == "=="), y) for x, y in self.settle(("catalog is", rest[0]), st)]
            if bare:
                return [(base, st)]
        if b == "schema" and bare and nm.endswith("_provider"):
            return [(("provider", nm[:-9], base), st)]
        if b == "maybe" and base[1] == "schema" and bare and nm.endswith("_provider"):
            return [(("provider", nm[:-9], base), st)]
        if b == "provider" and nm.startswith("find") and len(rest) >= 1:
            what = {"find": base[1], "find_relation": "relation", "find_table": "table", "find_index": "index"}.get(nm)
            if what is None:
                raise Unknown(nm)
            return [(("maybe", what, base[2], rest[0]), st)]
        if b == "provider" and nm == "each" and rest:
            lam = next((x[1] for x in deep(rest[-1]) if x[:1] == ("lambda",) and len(x) == 2 and x[1] in self.lambdas), None)
            if lam is None:
                raise Unknown("each")
            lst = (base[1], base[2]) + tuple(rest[:-1])
            out = []
            for k in range(w.cands + 1):
                c = ("count", lst)
                kn = [bb for cc, bb in st.cond if cc == c]
                if kn and kn[0] != k:
                    continue
                cur = [st if kn else st.assume(c, k)]
                for i in range(k):
                    cur = [x for y in cur for _, x in self.run_lambda(self.lambdas[lam], [("cand", lst, i)], y)]
                out += [(("void",), x) for x in cur]
            return out
        if b == "maybe":
            if nm in ("operator bool", "has_value") and bare:
                return self.settle(base, st)
            if op == "!" and bare:
                return [(not x, y) for x, y in self.settle(base, st)]
            if nm == "kind" and bare:
                return [(("declkind", base), st)]
            if bare and (op in ("*", "->") or nm in ("get", "value", "operator*", "operator->", "ownership")):
                return [(base, st)]
        if b == "declkind" and op in ("==", "!=") and rest:
            return [(x == (op == "=="), y) for x, y in self.settle(("table", base[1]), st)]
        if b == "scope":
            i = base[1]
            if nm == "parent":
                return [(("scope", i + 1) if i != "none" and i + 1 < w.depth else ("null",), st)]
            if nm == "references":
                return [(("vec", "refs", tuple(("rel", i, j) for j in range(0 if i == "none" else w.rels))), st)]
            if nm == "features":
                return [(("features", i), st)]
            if nm == "find" and len(rest) == 1:
                return [(("find", base, rest[0]), st)]
            if nm == "find_query" and len(rest) == 1:
                return [(("maybe", "query", base, rest[0]), st)]
            if nm == "add_parameter" and len(rest) == 1:
                return [(("parameter", i, rest[0]), st)]
        if b in ("rel", "find") and nm == "find" and len(rest) == 1 and not q.startswith("std::"):
            return [(("find", base, rest[0]), st)]
        if b in ("rel", "find") and nm == "next" and len(rest) == 1:
            return [(("chain", rest[0]), st)]
        if b in ("find", "chain"):
            if nm in ("is_absent", "is_found", "is_ambiguous") and bare:
                return [(k == nm[3:], x) for k, x in self.kind(base, st)]
            if nm in ("operator bool", "has_value") and bare:
                return [(k == "found", x) for k, x in self.kind(base, st)]
            if op == "!" and bare:
                return [(k != "found", x) for k, x in self.kind(base, st)]
            if nm == "kind" and bare:
                raise Unknown("kind of a result")
            if nm == "exported" and bare:
                return self.settle(("exported", base), st)
            if nm == "variable" and bare:
                return [(base, st)]
        if b == "res":
            e = base[1] == "error"
            if nm == "is_error" and bare:
                return [(e, st)]
            if nm in ("operator bool",) and bare:
                return [(not e, st)]
            if nm == "found" and bare:
                return [(("null",) if e else base[1], st)]
        if b == "null" and bare and nm in ("operator bool", "has_value"):
            return [(False, st)]
        return None

    def truth(self, fr, n, st):
        out = []
        for b, x in super().truth(fr, n, st):
            c = x.cond[-1][0] if len(x.cond) > len(st.cond) else None
            if isinstance(c, tuple) and c[:1] in (("find",), ("chain",)):
                if b:
                    y = St(x.env, x.eff, x.cond[:-1])
                    out += [(k == "found", z) for k, z in self.kind(c, y)]
                continue
            out.append((b, x))
        return out

    def inlined(self, fr, n, callee, r, rv, av, st):
        if isinstance(rv, Obj) and self.key(fr, r) is None or r is not None and isinstance(rv, Obj):
            rvs = rv
            self.tags += 1
            from aval import Frame, is_this
            if not is_this(r) and not callee.d.static:
                k = self.key(fr, r)
                sub = Frame(callee, rvs, fr.depth + 1, self.tags)
                x = st
                for p, a in zip(callee.params, av):
                    x = x.set(("l", p["d"]), a)
                out = []
                for kk, v, y in self.block(sub, [callee.body], x):
                    if kk in ("ret", "next"):
                        out.append((v if kk == "ret" else ("void",), self.restore(st, y, callee)))
                return out
        old = st
        return [(v, self.restore(old, x, callee)) for v, x in super().inlined(fr, n, callee, r, rv, av, st)]

    def restore(self, old, st, callee):
        """a function which calls itself has its own variables in each call"""
        mine = {p["d"] for p in callee.params}
        mine |= self.locals_of(callee)
        e = dict(st.env)
        ch = False
        for d in mine:
            k = ("l", d)
            if k in old.env:
                if e.get(k) is not old.env[k]:
                    e[k] = old.env[k]
                    ch = True
        return St(e, st.eff, st.cond) if ch else st

    cache = {}

    def locals_of(self, f):
        r = self.cache.get(id(f))
        if r is None:
            r = self.cache[id(f)] = {m["d"] for m in walk(f.body) if m["k"] == "Var" and m.get("d") is not None}
        return r

    def stmt(self, fr, s, st):
        if s["k"] == "Var" and (s.get("t") or "").endswith("&") and s.get("init") is not None:
            self.alias.pop(s["d"], None)
            i = s["init"]
            while i["k"] in ("ICast", "Cast") and "e" in i:
                i = i["e"]
            if i["k"] not in ("Ref", "Mem"):
                return Interp.stmt(self, fr, s, st)
        if s["k"] == "Switch":
            return Interp.stmt(self, fr, s, st) if self.concrete(fr, s, st) else super().stmt(fr, s, st)
        return super().stmt(fr, s, st)

    def concrete(self, fr, s, st):
        r = self.ev(fr, s["cond"], st)
        return len(r) == 1 and isinstance(r[0][0], tuple) and r[0][0][:1] == ("enum",)

    # -- loops: all of them are bounded by the world
    def loop(self, fr, s, st):
        out = []
        if s["k"] == "ForRange":
            for v, x in self.ev(fr, s["range"], st):
                if isinstance(v, tuple) and v[:1] == ("eset",):
                    es = v[1]
                elif isinstance(v, tuple) and v[:1] == ("vec",):
                    es = v[2]
                elif isinstance(v, tuple) and v[:1] == ("text",):
                    es = tuple(Lin((), c) for c in v[1])
                else:
                    raise Unknown("a loop over %r" % (v,))
                cur = [x]
                vt = s["var"].get("t") or s["var"]["d"].t or ""
                back = None
                if isinstance(v, tuple) and v[:1] == ("text",) and "&" in vt and "const" not in vt:
                    back = self.key(fr, s["range"])
                    if back is None or not isinstance(x.env.get(back), tuple) or x.env[back][:1] != ("text",):
                        raise Unknown("a loop over a text")
                for ix, el in enumerate(es):
                    nxt = []
                    for y in cur:
                        for k, vv, z in self.stmt(fr, s["body"], self.bindvar(s, el, y)):
                            if back is not None:
                                w = z.env.get(("l", s["var"]["d"]))
                                if not (isinstance(w, Lin) and w.const() is not None):
                                    raise Unknown("a character")
                                cs = z.env[back][1]
                                z = z.set(back, ("text", cs[:ix] + (w.c,) + cs[ix + 1:]))
                            if k in ("next", "continue"):
                                nxt.append(z)
                            else:
                                out.append(("next" if k == "break" else k, vv, z))
                    cur = nxt
                out += [("next", None, y) for y in cur]
            return out
        cur = [st]
        if s.get("init") is not None:
            cur = []
            for k, v, x in self.block(fr, [s["init"]], st):
                (cur if k == "next" else out).append(x if k == "next" else (k, v, x))
        first = s["k"] == "Do"
        for _ in range(40):
            nxt = []
            for x in cur:
                ts = [(True, x)] if first or s.get("cond") is None else self.truth(fr, s["cond"], x)
                for b, y in ts:
                    if not b:
                        out.append(("next", None, y))
                        continue
                    for k, v, z in self.stmt(fr, s["body"], y):
                        if k in ("next", "continue"):
                            nxt += [u for _, u in self.ev(fr, s["inc"], z)] if s.get("inc") is not None else [z]
                        else:
                            out.append(("next" if k == "break" else k, v, z))
            cur = nxt
            first = False
            if not cur:
                return out
        raise Unknown("a loop does not end")


class Engine:
    def __init__(self, db):
        self.db = db
        self.entry = {}
        for f in db.fns.values():
            if f.body is not None and not f.dep and (f.q or "") in [DET + e for e in ENTRIES]:
                self.entry[f.n] = f
        for e in ENTRIES:
            if e not in self.entry:
                raise Broken("%s is not found" % e)

    def run(self, entry, world, args):
        """args: parameter name or type -> value"""
        f = self.entry[entry]
        T = Names(self.db, world)
        T.file = f.file
        for a, q in (("idkinds", "mizugaki::ast::name::identifier_kind"), ("nkinds", "mizugaki::ast::name::kind")):
            e = self.db.enums.get(q)
            if e is None:
                raise Broken("%s is not found" % q)
            setattr(T, a, {c["n"]: c["v"] for c in e["c"]})
        vs = []
        for p in f.params:
            t = plain(p["d"].t)
            v = ("context",) if t.endswith("analyzer_context") else ("name", 0) if "::name::" in t and not t.endswith("name_kind") else ("scope", 0) if t.endswith("query_scope") else None
            if v is None:
                v = args.get(p["n"], args.get(t.split("::")[-1]))
            if v is None:
                raise Broken("parameter %s of %s" % (p["n"], entry))
            vs.append(v)
        return T.run(f, vs)


# ------------------------------------------------------------------------------------------------ what SQL says

class Unasked(Exception):
    """the outcome depends on something which the way did not look at"""


class Wrong(Exception):
    """the name is an error"""


COL, FIELD, SVAR, REL, DECL, QUERY, TABLE, INDEX, SCHEMA, CATALOG = "column", "field", "schema variable", "relation", "declared relation", "query", "table", "index", "schema", "catalog"
QUALIFIERS = {COL: (REL,), FIELD: (COL, FIELD, SVAR), SVAR: (SCHEMA,), REL: (SCHEMA,), DECL: (SCHEMA,), QUERY: (), SCHEMA: (CATALOG,), CATALOG: (), TABLE: (SCHEMA,), INDEX: (SCHEMA,)}
NAMEKIND = {COL: "variable", FIELD: "variable", SVAR: "variable", REL: "relation", DECL: "relation", QUERY: "relation", TABLE: "relation", INDEX: "relation", SCHEMA: "schema", CATALOG: "catalog"}


class Reference:
    """what a name denotes, given the answers of the way"""

    def __init__(self, world, st):
        self.w = world
        self.facts = {}
        for c, b in st.cond:
            self.facts.setdefault(c, b)

    def ask(self, c):
        if c not in self.facts:
            raise Unasked(c)
        return self.facts[c]

    def key(self, i, kind):
        n = self.w.names[i]
        if self.w.regular and self.w.options:
            if self.ask(("option", "lowercase_regular_identifiers")) or self.ask(("option", "lowercase_%s_regular_identifiers" % kind)):
                n = "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in n)
        return text(n)

    def column(self, rels, key):
        """the column of the name in the relations"""
        found, unknown = [], None
        for r in rels:
            v, n = ("find", r, key), 0
            while True:
                n += 1
                if n > self.w.chain:
                    break
                k = self.facts.get(("kind", v))
                if k is None:
                    unknown = ("kind", v)
                    break
                if k == "ambiguous":
                    raise Wrong("column_ambiguous")
                if k == "absent":
                    break
                e = self.facts.get(("exported", v))
                if e is None:
                    unknown = ("exported", v)
                elif e:
                    found.append(v)
                v = ("chain", v)
        if len(found) > 1:
            raise Wrong("column_ambiguous")
        if unknown is not None:
            raise Unasked(unknown)
        return found[0] if found else None

    def scopes(self):
        return range(self.w.depth)

    def simple(self, i, kinds):
        w = self.w
        if REL in kinds:
            for s in self.scopes():
                v = ("find", ("scope", s), self.key(i, "relation"))
                k = self.ask(("kind", v))
                if k == "ambiguous":
                    raise Wrong("relation_ambiguous")
                if k == "found":
                    return REL, v, s
        if COL in kinds:
            for s in self.scopes():
                if w.rels:
                    v = self.column([("rel", s, j) for j in range(w.rels)], self.key(i, "variable"))
                    if v is not None:
                        return COL, v, s
        if SVAR in kinds:
            for s in range(w.search):
                v = ("maybe", "variable", ("schema", s), self.key(i, "variable"))
                if self.ask(v):
                    return SVAR, v, None
        if QUERY in kinds:
            for s in self.scopes():
                v = ("maybe", "query", ("scope", s), self.key(i, "relation"))
                if self.ask(v):
                    return QUERY, v, None
        for kind, what in ((DECL, "relation"), (TABLE, "table"), (INDEX, "index")):
            if kind in kinds:
                for s in range(w.search):
                    v = ("maybe", what, ("schema", s), self.key(i, "relation"))
                    if self.ask(v):
                        return kind, v, ("schema", s)
        if SCHEMA in kinds:
            v = ("maybe", "schema", ("catalog",), self.key(i, "schema"))
            if self.ask(v):
                return SCHEMA, v, None
        if CATALOG in kinds:
            if self.ask(("catalog named",)) and self.ask(("catalog is", self.key(i, "catalog"))):
                return CATALOG, ("catalog",), None
        return None

    def symbol(self, i, kinds):
        if i + 1 >= len(self.w.names):
            return self.simple(i, kinds)
        q = self.symbol(i + 1, {x for k in kinds for x in QUALIFIERS[k]})
        if q is None:
            return None
        k, v, s = q
        if k in (COL, SVAR, FIELD):
            if FIELD in kinds:
                raise Wrong("unsupported_feature")
        if k == REL and COL in kinds:
            c = self.column([v], self.key(i, "variable"))
            if c is not None:
                return COL, c, s
        if k == SCHEMA:
            if SVAR in kinds:
                x = ("maybe", "variable", v, self.key(i, "variable"))
                if self.ask(x):
                    return SVAR, x, None
            if REL in kinds:
                x = ("maybe", "relation", v, self.key(i, "relation"))
                if self.ask(x):
                    x = ("find", ("scope", 0), x)
                    k = self.ask(("kind", x))
                    if k == "ambiguous":
                        raise Wrong("relation_ambiguous")
                    if k == "found":
                        return REL, x, 0
            for kind, what in ((DECL, "relation"), (TABLE, "table"), (INDEX, "index")):
                if kind in kinds:
                    x = ("maybe", what, v, self.key(i, "relation"))
                    if self.ask(x):
                        return kind, x, v
        if k == CATALOG and SCHEMA in kinds:
            x = ("maybe", "schema", ("catalog",), self.key(i, "schema"))
            if self.ask(x):
                return SCHEMA, x, None
        return None


def parameters(R, v, s):
    """a column of the s-th scope, seen from the innermost one: (variable, parameters), None: it is not visible"""
    if not s:
        return v, ()
    e = R.facts.get(("feature", s, "expose"))
    if e is False:
        return None
    cor, unknown = [], ("feature", s) if e is None else None
    for i in range(s):
        x = R.facts.get(("feature", i, "independent"))
        if x:
            return None
        y = R.facts.get(("feature", i, "correlation"))
        if x is None or y is None:
            unknown = ("feature", i)
        elif y:
            cor.append(i)
    if not cor and all(R.facts.get(("feature", i, "correlation")) is False for i in range(s)):
        return None
    if unknown:
        raise Unasked(unknown)
    ps = []
    for i in reversed(cor):
        v = ("parameter", i, v)
        ps.append(v)
    return v, tuple(ps)


def e_variable(R):
    r = R.symbol(0, {COL, FIELD, SVAR})
    if r is None:
        return None
    k, v, s = r
    if s is None:
        return v, ()
    return parameters(R, v, s)


def e_relation_info(R):
    r = R.symbol(0, {REL})
    return r[1] if r is not None and not r[2] else None


def e_relation(R):
    r = R.symbol(0, {DECL, QUERY})
    if r is None:
        return None
    if r[0] == QUERY:
        return r[1]
    for c, b in R.facts.items():
        if isinstance(c, tuple) and c[:1] in (("==",), ("!=",)) and ("declkind", r[1]) in c and any("table" in str(x) for x in c[1:]) or c == ("table", r[1]):
            return r[1] if b == (c[0] != "!=") else None
    raise Unasked(("table", r[1]))


def element(kind):
    def f(R):
        r = R.symbol(0, {kind})
        return None if r is None else ("tuple", r[2], r[1])
    return f


def e_schema(R):
    r = R.symbol(0, {SCHEMA})
    return None if r is None else r[1]


def candidates(provider):
    def f(R):
        n = Lin((), 2)
        if len(R.w.names) > 1:
            q = R.symbol(1, {SCHEMA})
            if q is None:
                return ()
            ss = [q[1]]
        else:
            ss = [("schema", i) for i in range(R.w.search)]
        for s in ss:
            lst = (provider, s, R.key(0, "function"), n)
            c = R.ask(("count", lst))
            if c:
                return tuple(("cand", lst, i) for i in range(c))
        return ()
    return f


def result(entry, v):
    """the result of a way: a value, None: nothing"""
    if isinstance(v, tuple) and v[:1] == ("sym",):
        v = v[2]
        if isinstance(v, tuple) and v[:1] == ("new",) and "monostate" in str(v[1]):
            return None
    if v is None or failing(v):
        return None
    if isinstance(v, tuple) and v[:1] == ("glob",) and str(v[1]).endswith("monostate"):
        return None
    if entry == "analyze_variable_name":
        if v[:1] != ("mk",) or str(v[1]).split("::")[-1] != "variable_reference" or len(v) != 4:
            raise Unknown("the result")
        return v[3]
    if entry in ("analyze_function_name", "analyze_aggregation_name"):
        if v[:1] != ("vec",):
            raise Unknown("the result")
        return v[2]
    return v


A1, A2, A3, A4 = ["A"], ["A", "B"], ["A", "B", "C"], ["A", "B", "C", "D"]
TRUE, FALSE, ARGC = {"mandatory": True}, {"mandatory": False}, {"argument_count": Lin((), 2)}


def optional(entry, what, *names):
    return [(World(n, **w), a) for n in names for a in (TRUE, FALSE) for w in (dict(search=0), dict(search=2), dict(search=1, regular=True, options=True))]


RULES = {
    "name.column": ("a column without a qualifier is the one of the innermost scope which has a visible column of the name; more than one there is an error, as is none in any scope and schema",
                    "analyze_variable_name", e_variable,
                    lambda: [(World(A1, depth=d, rels=r, chain=c, search=s), {}) for d, r, c, s in ((1, 0, 1, 0), (1, 1, 3, 0), (1, 2, 2, 1), (1, 3, 1, 0), (2, 2, 1, 1), (2, 1, 2, 2), (3, 1, 1, 2))]),
    "name.correlation": ("a column of an outer query is visible only through the parameters of all subqueries in between, each of which stands for the one outside of it",
                         "analyze_variable_name", e_variable, lambda: [(World(A1, depth=d, rels=1), {}) for d in (2, 3, 4)]),
    "name.qualified": ("a qualified column is the visible column of the relation which its qualifier denotes, the innermost one of this name; ambiguous relations and columns are errors",
                       "analyze_variable_name", e_variable,
                       lambda: [(World(A2, depth=d, rels=r, chain=c, search=s), {}) for d, r, c, s in ((1, 1, 3, 0), (2, 1, 2, 1), (3, 0, 1, 1))]
                       + [(World(A3, depth=2, rels=1, chain=2, search=1), {}), (World(A4, depth=2, rels=1, chain=1, search=1), {})]),
    "name.reference": ("the name of a relation which is referred to is a relation of the current query", "analyze_relation_info_name", e_relation_info,
                       lambda: [(World(n, depth=d, rels=1, search=1), {}) for n in (A1, A2, A3) for d in (1, 3)]),
    "name.relation": ("the name in FROM is the innermost common table of the name, or else a table of the first schema of the search path which has one", "analyze_relation_name", e_relation,
                      lambda: [(World(n, depth=d, rels=1, search=s), {}) for n in (A1, A2, A3) for d in (1, 3) for s in (0, 2)]),
    "name.table": ("a table is looked up in the schemas of the search path in their order, or in the schema which is given; what must exist is reported if it does not, and only that",
                   "analyze_table_name", element(TABLE), lambda: optional("analyze_table_name", TABLE, A1, A2, A3)),
    "name.index": ("an index is looked up in the schemas of the search path in their order, or in the schema which is given; what must exist is reported if it does not, and only that",
                   "analyze_index_name", element(INDEX), lambda: optional("analyze_index_name", INDEX, A1, A2, A3)),
    "name.schema": ("a schema is looked up in the catalog, whose name can be given", "analyze_schema_name", e_schema, lambda: optional("analyze_schema_name", SCHEMA, A1, A2, A3)),
    "name.function": ("the candidates of a function are all functions of its name and number of arguments in the first schema of the search path which has one, or in the schema which is given",
                      "analyze_function_name", candidates("function"), lambda: [(World(n, search=s, cands=2), ARGC) for n in (A1, A2, A3) for s in (0, 1, 3)]),
    "name.aggregation": ("the candidates of a set function are all set functions of its name and number of arguments in the first schema of the search path which has one, or in the schema which is given",
                         "analyze_aggregation_name", candidates("set_function"), lambda: [(World(n, search=s, cands=2), ARGC) for n in (A1, A2, A3) for s in (0, 1, 3)]),
}

WITH_CASE = ("name.column", "name.qualified", "name.reference", "name.relation", "name.function", "name.aggregation")


def judge(entry, expect, w, args, kind, v, st):
    """what is wrong with a way"""
    R = Reference(w, st)
    reports = [e[1][1].split("::")[-1] for e in st.eff if e[0] == "report"]
    if kind != "ret":
        return "the resolution of a name does not return"
    got = result(entry, v)
    try:
        want = expect(R)
    except Unasked as e:
        return "it is decided without regard to %s" % tell(e.args[0])
    except Wrong as e:
        if got is not None and got != ():
            return "a name which is %s is resolved" % e
        if e.args[0].endswith("ambiguous") and e.args[0] not in reports or not reports:
            return "%s is not reported" % e
        return None
    if want is None or want == ():
        if got is not None and got != ():
            return "a name is resolved to what it does not denote"
        must = args.get("mandatory", entry not in ("analyze_function_name", "analyze_aggregation_name"))
        if must and not reports:
            return "a name which is not found is not reported"
        if not must and reports:
            return "a name which need not exist is reported"
        return None
    if reports:
        return "a name which is found is reported"
    if got is None or got == ():
        return "a name which is there is not found"
    if entry == "analyze_variable_name":
        want, ps = want
        for i, p in enumerate(ps):
            if not R.facts.get(("resolved", p)) and not any(e[0] == "alias" and e[1] == p and e[2] in (p[2], ps[0][2]) for e in st.eff):
                return "a parameter of a subquery has no type"
    if got != want:
        return "a name denotes something else"
    return None


def tell(c):
    if isinstance(c, tuple) and c:
        k = c[0]
        if k == "kind":
            return {"find": "another relation or column of the name"}.get(c[1][0], "another column of the same relation")
        if k == "exported":
            return "whether the column is visible"
        if k == "feature":
            return "the scopes in between"
        if k == "option":
            return "the option %s" % c[1]
        if k == "maybe":
            return "a %s of the name" % c[1]
        if k == "count":
            return "the functions of a schema"
        if k == "table":
            return "whether the relation is a table"
    return "the name of the catalog"


def a09(db, rep):
    rep.explanation = ("Every way through the resolution of a name is followed in small worlds of nested scopes, relations and schemas, whose answers are conditions of the way; "
                       "the result of each way is compared with what SQL says for these answers.")
    E = Engine(db)
    for rid, (t, entry, expect, worlds) in RULES.items():
        rep.rule(rid, t)
    rep.rule("name.case", "regular identifiers are folded to lower case where the options say so, delimited ones never; only letters of ASCII are folded")
    ways = unknown = 0
    for rid, (t, entry, expect, worlds) in RULES.items():
        f = E.entry[entry]
        todo = [(rid, w, a) for w, a in worlds()]
        if rid in WITH_CASE:
            todo += [("name.case", World(n, depth=1, rels=1, search=1, regular=True, options=True), ARGC if "argument" in str(f.params[-1]["n"]) else {}) for n in (A1, A2, A3)]
        for r, w, a in todo:
            bad = {}
            n = 0
            try:
                for k, v, st in E.run(entry, w, a):
                    if k in ("throw",):
                        continue
                    try:
                        m = judge(entry, expect, w, a, k, v, st)
                        n += 1
                    except (Unknown, ValueError, IndexError, TypeError, KeyError, AttributeError) as x:
                        unknown += 1
                        if unknown <= 3:
                            rep.notes.append("%s: a way is not understood: %s" % (entry, str(x)[:200]))
                        continue
                    if m is not None:
                        bad.setdefault(m, st)
            except (Unknown, ValueError, IndexError, TypeError, KeyError, AttributeError) as x:
                unknown += 1
                rep.notes.append("%s is not understood: %s" % (entry, str(x)[:200]))
                continue
            ways += n
            if not bad and n:
                rep.ok(r, "%s: %s in %d scopes of %d relations, %d schemas" % (entry, "qualified " * (len(w.names) - 1) + "name", w.depth, w.rels, w.search), f.loc())
            for m in sorted(bad):
                rep.bad(r, f.q, f.loc(), m, "%s|%s|%s" % (r, entry, m))
    ways += case(E, rep)
    rep.count("ways", ways)
    rep.count("ways not understood", unknown)


def case(E, rep):
    f = E.entry["normalize_identifier"]
    e = next((x for x in E.db.enums.values() if (x.get("q") or "").endswith("details::name_kind")), None) or E.db.enums.get(DET + "name_kind")
    if e is None:
        raise Broken("name_kind is not found")
    n = 0
    bad = set()
    todo = [(c["n"], "Qz", r) for c in e["c"] for r in (True, False)] + [("variable", chr(i), r) for i in range(1, 128) for r in (True, False)]
    for kind, s, regular in todo:
        v = next(c["v"] for c in e["c"] if c["n"] == kind)
        w = World([s], regular=regular, options=True)
        try:
            R = E.run("normalize_identifier", w, {"kind": ("enum", DET + "name_kind::" + kind, v), "name_kind": ("enum", DET + "name_kind::" + kind, v)})
            for k, got, st in R:
                if k != "ret":
                    continue
                n += 1
                try:
                    if kind == "not_specified" and ("option", "lowercase_regular_identifiers") in dict(st.cond) and not dict(st.cond)[("option", "lowercase_regular_identifiers")]:
                        want = text(s)
                    else:
                        want = Reference(w, st).key(0, kind)
                    if got != want:
                        bad.add("a %s identifier is not folded as the options say" % ("regular" if regular else "delimited"))
                except Unasked as x:
                    bad.add("it is decided without regard to %s" % tell(x.args[0]))
        except (Unknown, ValueError, IndexError, TypeError, KeyError, AttributeError) as x:
            rep.notes.append("normalize_identifier is not understood: %s" % str(x)[:200])
            return n
    if not bad:
        rep.ok("name.case", f.q, f.loc())
    for m in sorted(bad):
        rep.bad("name.case", f.q, f.loc(), m, "name.case|normalize_identifier|%s" % m)
    return n


CHECKS = {"A09": a09}

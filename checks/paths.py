"""Abstract evaluation over access paths: the value ('path', root, step, ...) names the part of an object which is reached by member names and '*'
(an element of a container); smart pointers, optionals and clone_wrappers are transparent.  Loops over a container are followed for no and for one
element; containers are never enumerated."""
from aval import Interp, Lin, Obj, St, Frame, part, term, is_int, is_this
from mz import recv, strip, walk

DEREF = {"operator*", "operator->", "get", "value", "operator bool", "has_value"}
ELEM = {"operator[]", "at", "front", "back"}


def is_path(v):
    return isinstance(v, tuple) and len(v) > 1 and v[0] == "path"


class Paths(Interp):
    def __init__(self, db, inline=None, model=None, maxdepth=8, effects=None):
        super().__init__(db, inline, None, maxdepth, effects)
        self.user = model
        self.model = self._model
        self.lambdas = {}

    # -- members of paths
    def read(self, fr, key, n, st):
        if key not in st.env:
            if key[0] == "f" and is_path(key[1]):
                return key[1] + (key[2],)
            if key[0] == "m" and is_path(st.env.get(key[1])):
                return self.opaque_member(st.env[key[1]], key[2], n)
        return super().read(fr, key, n, st)

    def opaque_member(self, base, name, n):
        if is_path(base):
            return base + (name,)
        return super().opaque_member(base, name, n)

    def inlined(self, fr, n, callee, r, rv, av, st):
        if is_path(rv) and not callee.d.static:
            self.tags += 1
            sub = Frame(callee, rv, fr.depth + 1, self.tags)
            x = st
            for p, a in zip(callee.params, av):
                x = x.set(("l", p["d"]), a)
            out = []
            for k, v, y in self.block(sub, [callee.body], x):
                if k in ("ret", "next"):
                    out.append((v if k == "ret" else ("void",), y))
            return out
        return super().inlined(fr, n, callee, r, rv, av, st)

    def ev(self, fr, n, st):
        if n["k"] == "This" and is_path(fr.this):
            return [(fr.this, st)]
        if n["k"] == "Lambda":
            self.lambdas[id(n)] = (n, fr)
        if n["k"] == "Mem" and n.get("e") is not None and n["e"]["k"] == "This" and is_path(fr.this):
            return [(self.read(fr, ("f", fr.this, n["d"].n), n, st), st)]
        return super().ev(fr, n, st)

    def _model(self, itp, fr, n, name, rv, av, st):
        if self.user is not None:
            r = self.user(self, fr, n, name, rv, av, st)
            if r is not None:
                return r
        d = n.get("d") if n["k"] in ("Call", "Op") else None
        if d is None:
            return None
        if n["k"] in ("Call", "Op") and is_path(rv):
            q = d.q or ""
            if q.startswith(("std::", "takatori::util::")) or "clone_wrapper" in q or "::regioned" in q:
                if d.n in DEREF or d.n.startswith("operator ") or n.get("op") in ("*", "->"):
                    return [(rv, st)]
                if d.n in ELEM or n.get("op") == "[]":
                    return [(rv + ("*",), st)]
                if d.n == "empty":
                    return [(b, x.assume(("nonempty", rv), not b) if x.known(("nonempty", rv)) is None else x) for b, x in self._fork(("nonempty", rv), st)]
                if d.n in ("begin", "cbegin"):
                    return [(("iter", rv), st)]
                if d.n in ("end", "cend"):
                    return [(("enditer", rv), st)]
        if n["k"] in ("Call", "Op") and isinstance(rv, tuple) and (d.q or "").startswith("std::") and (d.n in ("has_value", "operator bool", "value") or n.get("op") in ("*", "->")) and not av:
            return [(rv, st)]
        if name in ("std::begin", "std::cbegin") and av and is_path(av[0]):
            return [(("iter", av[0]), st)]
        if name in ("std::end", "std::cend") and av and is_path(av[0]):
            return [(("enditer", av[0]), st)]
        if isinstance(rv, tuple) and rv and rv[0] == "iter" and (n.get("op") in ("*", "->", "++") or d.n in ("operator*", "operator->", "operator++")):
            return [(rv if "++" in (n.get("op") or d.n) else rv[1] + ("*",), st)]
        if name in ("std::all_of", "std::any_of", "std::none_of") and len(av) == 3 and isinstance(av[0], tuple) and av[0][0] == "iter" \
                and isinstance(av[2], tuple) and av[2][0] == "lambda" and av[2][1] in self.lambdas:
            return self._quantified(name[5:], av[0][1], self.lambdas[av[2][1]], st)
        if isinstance(rv, tuple) and rv and rv[0] == "lambda" and rv[1] in self.lambdas and n["k"] in ("Op", "Call") and d.n == "operator()":
            return [(v, x) for v, x in self.run_lambda(self.lambdas[rv[1]], av, st)]
        return None

    def _fork(self, c, st):
        k = st.known(c)
        if k is not None:
            return [(not k, st)]
        return [(True, st), (False, st)]

    def run_lambda(self, lf, args, st):
        n, fr = lf
        if n.get("insts"):
            n = n["insts"][0]  # of a generic lambda
        for p, a in zip(n.get("params", ()), args):
            st = st.set(("l", p["d"]), a)
        out = []
        for k, v, x in self.block(fr, [n["body"]], st):
            if k in ("ret", "next"):
                out.append((v if k == "ret" else ("void",), x))
        return out

    def _quantified(self, what, path, lf, st):
        out = [(what != "any_of", st.assume(("nonempty", path), False))]
        for v, x in self.run_lambda(lf, [path + ("*",)], st.assume(("nonempty", path), True)):
            b = self.tobool(v)
            if b is None:
                for bb in (True, False):
                    out.append((bb if what != "none_of" else not bb, x.assume(v, bb)))
            else:
                out.append((b if what != "none_of" else not b, x))
        return out

    # -- loops: no or one element
    def loop(self, fr, s, st):
        if s["k"] == "ForRange":
            out = []
            for v, x in self.ev(fr, s["range"], st):
                elem = v + ("*",) if is_path(v) else ("elem", v)
                kn = x.known(("nonempty", v))
                if kn is not True:
                    out.append(("next", None, x.assume(("nonempty", v), False) if kn is None else x))
                if kn is False:
                    continue
                y = x.assume(("nonempty", v), True) if kn is None else x
                y = y.set(("l", s["var"]["d"]), elem)
                for i, b in enumerate(s["var"].get("bind", ())):
                    y = y.set(("l", b["d"]), part(i, elem, s["var"].get("t")))
                out += self.once(fr, s, s["body"], y)
            return out
        if s["k"] in ("For", "While", "Do"):
            pre = [s["init"]] if s.get("init") is not None else []
            out = []
            for k, v, x in self.block(fr, pre, st):
                if k != "next":
                    out.append((k, v, x))
                    continue
                seq = None
                for m in walk(s.get("cond") or s["body"]):
                    if m["k"] == "Call" and m.get("d") is not None and m["d"].n in ("size", "end", "cend") and recv(m) is not None:
                        rs = self.ev(fr, recv(m), x)
                        if len(rs) == 1 and is_path(rs[0][0]):
                            seq = rs[0][0]
                for (kk, vv) in x.env.items():
                    if isinstance(vv, tuple) and vv and vv[0] == "iter" and kk[0] == "l" and any(
                            m["k"] == "Ref" and m.get("d") is kk[1] for m in walk(s.get("cond") or s["body"])):
                        seq = vv[1]
                if s["k"] != "Do":
                    out.append(("next", None, x.assume(("nonempty", seq), False) if seq else x.assume(("loop", id(s)), False)))
                y = x.assume(("nonempty", seq) if seq else ("loop", id(s)), True)
                out += self.once(fr, s, s["body"], y)
            return out
        return super().loop(fr, s, st)

    def once(self, fr, s, body, st):
        out = []
        for k, v, x in self.stmt(fr, body, st):
            if k in ("next", "continue"):
                out.append(("next", None, x.effect(("again", len(x.cond)))))
            elif k == "break":
                out.append(("next", None, x))
            else:
                out.append((k, v, x))
        return out

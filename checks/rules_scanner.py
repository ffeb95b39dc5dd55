"""S01..S03: the scanner, decided from the automaton flex generates and from the syntax tree of its actions."""
from aval import Interp, Lin, Obj, St, Frame, term, show
from flow import arms
from grammar import Grammar
from mz import Broken, walk, rel, strip

WS = frozenset(b" \t\n\v\f\r")


# ------------------------------------------------------------------------------------------- automaton of the generated scanner

class Scanner:
    def __init__(self, db):
        self.db = db
        vs = {v["q"]: v for v in db.vars.values() if v["file"].endswith("sql_scanner_generated.cpp") and "init" in v}
        try:
            self.ec = ints(vs["yy_ec"]["init"])
            self.nxt = [ints(r) for r in vs["yy_nxt"]["init"]["c"]]
            self.acc = ints(vs["yy_accept"]["init"])
        except KeyError as e:
            raise Broken("table %s of the generated scanner not found" % e)
        self.acc += [0] * (len(self.nxt) - len(self.acc))
        w = len(self.nxt[0])
        w = max(len(r) for r in self.nxt)
        for r in self.nxt:
            r += [0] * (w - len(r))
        fs = db.by_q.get("mizugaki::parser::sql_scanner::next_token", [])
        if not fs:
            raise Broken("sql_scanner::next_token not found")
        self.f = fs[0]
        sw = max((n for n in walk(self.f.body) if n["k"] == "Switch"), key=lambda s: len(s["body"].get("c", [])))
        self.arms = {}
        self.lines = {}
        for vals, _, stmts, labs in arms(sw):
            for v in vals:
                self.arms[v] = stmts
                self.lines[v] = labs[0].get("l", 0)
        eob = [v for v, ss in self.arms.items() if any(n["k"] == "Call" and n.get("d") is not None and n["d"].n == "yy_get_next_buffer" for s in ss for n in walk(s))]
        if not eob:
            raise Broken("no end-of-buffer action in the generated scanner")
        # the EOF arms are labelled after it
        self.eob = min(eob)

    def step(self, s, b):
        x = self.nxt[s][self.ec[b] if b else 1]
        return x if x > 0 else 0

    def loc(self, act):
        ss = self.arms.get(act) or [{}]
        for s in ss:
            for n in walk(s) if "k" in s else ():
                if n.get("F", "").endswith("sql_scanner.ll"):
                    return "%s:%d" % (rel(n["F"]), n["l"])
        return "src/mizugaki/parser/sql_scanner.ll"


def ints(n):
    out = []
    for c in n["c"]:
        if c["k"] == "ValueInit":
            out.append(0)
            continue
        v = c.get("cv")
        while v is None and c["k"] in ("ICast", "Cast"):
            c = c["e"]
            v = c.get("cv", c.get("v") if c["k"] in ("Int", "Char") else None)
        if v is None and c["k"] == "Un" and c["op"] == "-":
            v = -c["e"]["v"]
        if v is None:
            v = c.get("v")
        if v is None:
            raise Broken("table entry %s" % c["k"])
        out.append(v)
    return out


# ------------------------------------------------------------------------------------------- lexical specification

class Nfa:
    def __init__(self):
        self.eps = []
        self.tr = []
        self.final = {}

    def node(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def add(self, start, rx, label, prio):
        a, b = self.build(rx)
        self.eps[start].append(a)
        self.final[b] = (prio, label)

    def build(self, rx):
        k = rx[0]
        if k == "set":
            a, b = self.node(), self.node()
            self.tr[a].append((rx[1], b))
            return a, b
        if k == "cat":
            a, b = self.node(), None
            cur = a
            for x in rx[1]:
                s, e = self.build(x)
                self.eps[cur].append(s)
                cur = e
            return a, cur
        if k == "alt":
            a, b = self.node(), self.node()
            for x in rx[1]:
                s, e = self.build(x)
                self.eps[a].append(s)
                self.eps[e].append(b)
            return a, b
        if k == "star":
            a, b = self.node(), self.node()
            s, e = self.build(rx[1])
            self.eps[a] += [s, b]
            self.eps[e] += [s, b]
            return a, b
        raise ValueError(k)

    def close(self, ss):
        out = set(ss)
        st = list(ss)
        while st:
            x = st.pop()
            for y in self.eps[x]:
                if y not in out:
                    out.add(y)
                    st.append(y)
        return frozenset(out)

    def move(self, ss, b):
        return self.close({t for s in ss for (c, t) in self.tr[s] if b in c})

    def label(self, ss):
        fs = [self.final[s] for s in ss if s in self.final]
        return min(fs)[1] if fs else None


def S(chars):
    return ("set", frozenset(chars))


def cat(*x):
    return ("cat", list(x))


def alt(*x):
    return ("alt", list(x))


def star(x):
    return ("star", x)


def plus(x):
    return cat(x, star(x))


def opt(x):
    return alt(x, cat())


def text(s):
    return cat(*[S({ord(c.lower()), ord(c.upper())}) for c in s])


ALL = frozenset(range(256))
DIGIT = S(b"0123456789")
LETTER = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
IDENT = cat(S(LETTER), star(S(LETTER | frozenset(b"0123456789"))))
Q = S(b"'")
STRING = cat(Q, star(alt(S(ALL - frozenset(b"'")), cat(Q, Q))), Q)
DQ = S(b'"')
CONTROL = frozenset(range(0x20)) | {0x7f}
DELIM = cat(DQ, plus(alt(S(ALL - CONTROL - frozenset(b'"')), cat(DQ, DQ))), DQ)
INTEGER = plus(DIGIT)
DECIMAL = cat(INTEGER, S(b"."), INTEGER)
SPACE = S(WS)
U = S(range(0x80, 0xc0))
UTF8 = alt(S(range(0x80)), cat(S(range(0xc2, 0xe0)), U), cat(S(range(0xe0, 0xf0)), U, U), cat(S(range(0xf0, 0xf5)), U, U, U))

CLASSES = {
    "REGULAR_IDENTIFIER": IDENT,
    "DELIMITED_IDENTIFIER": DELIM,
    "HOST_PARAMETER_NAME": cat(S(b":"), IDENT),
    "UNSIGNED_INTEGER": INTEGER,
    "EXACT_NUMERIC_LITERAL": DECIMAL,
    "APPROXIMATE_NUMERIC_LITERAL": cat(alt(INTEGER, DECIMAL), S(b"eE"), opt(S(b"+-")), INTEGER),
    "CHARACTER_STRING_LITERAL": STRING,
    "HEX_STRING_LITERAL": cat(S(b"xX"), STRING),
}
PHRASES = {
    "UNION_JOIN": cat(text("UNION"), plus(SPACE), text("JOIN")),
    "OUTER_APPLY": cat(text("OUTER"), plus(SPACE), text("APPLY")),
    "DOT_ASTERISK": cat(text("."), star(SPACE), text("*")),
}
RESTRICTED = {"REGULAR_IDENTIFIER": "REGULAR_IDENTIFIER_RESTRICTED", "DELIMITED_IDENTIFIER": "DELIMITED_IDENTIFIER_RESTRICTED"}


def spec(G):
    """NFA of the initial condition"""
    n = Nfa()
    s = n.node()
    n.start = s
    texts = {}
    for name, x in G.terminals.items():
        i = G.ident.get(x["num"])
        t = G.text(name)
        if t is None or i is None or i in PHRASES:
            continue
        texts[i] = t
        n.add(s, text(t), ("tok", i), 2)
    for i, rx in PHRASES.items():
        if i in G.by_ident:
            n.add(s, rx, ("tok", i), 1)
    for i, rx in CLASSES.items():
        if i in G.by_ident:
            n.add(s, rx, ("tok", i), 3)
    n.add(s, plus(SPACE), ("skip",), 0)
    n.add(s, text("/*"), ("enter", "block"), 0)
    n.add(s, text("--"), ("enter", "line"), 0)
    n.add(s, alt(UTF8, S(ALL)), ("tok", "ERROR"), 4)
    return n, texts


# ------------------------------------------------------------------------------------------- actions

class Outcome:
    def __init__(self, kind, tok, loc, val, eff, st):
        self.kind, self.tok, self.loc, self.val, self.eff, self.st = kind, tok, loc, val, eff, st


def region_like(v):
    return isinstance(v, Obj) and set(v.f) == {"begin", "end"}


class Actions:
    """abstract evaluation of each action of the scanner.  Before the action: cursor_ = c, yyleng = n, comment_begin_ = b"""

    def __init__(self, db, sc):
        self.db = db
        self.sc = sc
        self.cache = {}
        rec = db.records.get("mizugaki::parser::sql_scanner")
        if rec is None:
            raise Broken("class sql_scanner not found")
        self.find_fields(rec)

    def find_fields(self, rec):
        """the position counter: the field advanced by yyleng before every action"""
        c = term("c")
        ok = set()
        sizes = [f["d"].n for f in rec["fields"]]
        # whichever member ends up as the end of the location of an ordinary token
        self.fields = sizes
        best = None
        for fl in sizes:
            o = self.run(self.any_token(), {fl: c})
            for x in o:
                if x.kind == "tok" and region_like(x.loc) and isinstance(x.loc.f["end"], Lin) and ("c", 1) in x.loc.f["end"].t:
                    best = fl
        self.cursor = best
        if best is None:
            raise Broken("the member of sql_scanner which counts the position was not found")
        others = [f for f in sizes if f != best and f != "npos"]
        self.begin = None
        for a in sorted(self.sc.arms):
            if a >= self.sc.eob:
                continue
            for x in self.run(a, {best: c}):
                if x.kind == "next":
                    for f in others:
                        v = x.st.env.get(("f", ("this",), f))
                        if isinstance(v, Lin) and ("c", 1) in v.t:
                            self.begin = f
        self.cache = {}

    def any_token(self):
        for a in sorted(self.sc.arms):
            if a < self.sc.eob and any(n["k"] == "Return" for s in self.sc.arms[a] for n in walk(s)):
                return a
        raise Broken("no token action")

    def inline(self, f):
        return (f.q.startswith("mizugaki::parser::sql_scanner::") or f.q.startswith("mizugaki::ast::node_region") or f.file.endswith("sql_scanner.cpp")
                or f.file.endswith("sql_scanner.ll") or f.file.endswith("sql_scanner.h"))

    def model(self, I, fr, n, name, rv, av, st):
        if name is None:
            return None
        if name.startswith("mizugaki::parser::sql_parser_generated::make_"):
            return [(("tok", name.rsplit("make_", 1)[1]) + tuple(av), st)]
        if name == "new mizugaki::parser::sql_parser_generated::symbol_type" and av and isinstance(av[0], tuple) and av[0][0] == "enum":
            return [(("tok", av[0][1].rsplit("::", 1)[1]) + tuple(av[1:]), st)]
        if name.endswith("FlexLexer::YYText"):
            return [(("field0", "yytext"), st)]
        if name.endswith("FlexLexer::YYLeng"):
            return [(term("n"), st)]
        if name in ("std::min", "std::max"):
            return [(term(("call", name) + tuple(map(show, av))), st)]
        return None

    def run(self, act, init=None):
        if init is None and act in self.cache:
            return self.cache[act]
        I = Interp(self.db, inline=self.inline, model=self.model)
        env = {("f", ("this",), "yyleng"): term("n")}
        if init is None:
            env[("f", ("this",), self.cursor)] = term("c")
            if self.begin:
                env[("f", ("this",), self.begin)] = term("b")
        else:
            for k, v in init.items():
                env[("f", ("this",), k)] = v
        fr = Frame(self.sc.f, ("this",), 0, 0)
        for p in self.sc.f.params:
            env[("l", p["d"])] = ("driver",)
        out = []
        for k, v, st in I.block(fr, self.sc.arms[act], St(env)):
            if k == "ret" and isinstance(v, tuple) and v[0] == "tok":
                out.append(Outcome("tok", v[1], v[-1] if len(v) > 2 else None, v[2:-1], st.eff, st))
            elif k == "ret":
                out.append(Outcome("other", None, None, v, st.eff, st))
            elif k in ("next", "break"):
                out.append(Outcome("next", None, None, None, st.eff, st))
            elif k == "goto":
                out.append(Outcome("goto", None, None, None, st.eff, st))
        if init is None:
            self.cache[act] = out
        return out

    def field(self, o, f):
        return o.st.env.get(("f", ("this",), f))

    def switch(self, o):
        """the start condition entered, or None"""
        v = self.field(o, "yy_start")
        c = v.const() if isinstance(v, Lin) else None
        return None if c is None else (c - 1) // 2


def tokens_of(A, act):
    return sorted({o.tok for o in A.run(act) if o.kind == "tok"})


def is_image(v):
    """the whole matched text"""
    if isinstance(v, tuple) and v and v[0] == "new" and "basic_string" in v[1] and len(v) >= 4:
        a, b = v[2], v[3]
        if a == ("field0", "yytext") and (b == term("n") or b == ("bin+", ("field0", "yytext"), term("n"))):
            return True
    if isinstance(v, tuple) and v and v[0] == "new" and "basic_string" in v[1] and len(v) >= 3 and isinstance(v[2], tuple) and v[2] and v[2][0] == "new":
        return is_image(v[2])
    return False


def example(path):
    return bytes(path).decode("latin1").encode("unicode_escape").decode()


def setup(db):
    if not hasattr(db, "_scanner"):
        G = Grammar(db)
        sc = Scanner(db)
        A = Actions(db, sc)
        db._scanner = (G, sc, A)
    return db._scanner


def label_of(sc, A, act):
    """what an action does, for the comparison with the specification"""
    if act == 0:
        return None
    if act == sc.eob - 1:
        return ("default",)
    if act >= sc.eob:
        return None
    o = A.run(act)
    toks = {x.tok for x in o if x.kind == "tok"}
    if toks:
        if any(x.kind != "tok" for x in o):
            return ("mixed",)
        t = toks - set(RESTRICTED.values())
        if len(t) == 1 and (toks == t or toks == t | {RESTRICTED.get(next(iter(t)), "")}):
            return ("tok", next(iter(t)))
        return ("mixed",) + tuple(sorted(toks))
    if any(x.kind == "other" for x in o):
        return ("other",)
    scs = {A.switch(x) for x in o}
    if scs == {None}:
        return ("skip",)
    return ("switch", tuple(sorted(scs, key=str)))


def compare(sc, A, start, nfa, norm, describe, rep, rid, ok_pairs):
    """product of the generated automaton with the specification: the labels of all reachable pairs must agree"""
    sets = {c for trs in nfa.tr for (c, _) in trs}
    cls = {}
    for b in range(256):
        cls.setdefault((sc.ec[b] if b else 1, tuple(b in c for c in sets)), []).append(b)
    reps = [v[0] for v in cls.values()]
    s0 = (start, nfa.close({nfa.start}))
    seen = {s0: ()}
    todo = [s0]
    mv = {}
    bad = {}
    n = 0
    # breadth first: the shortest texts are reported
    i = 0
    while i < len(todo):
        g, p = todo[i]
        path = seen[(g, p)]
        i += 1
        if path:
            n += 1
            want = nfa.label(p)
            act = sc.acc[g] if g else 0
            got = norm(act)
            if not ok_pairs(want, got):
                bad.setdefault((want, got), (path, act))
        for b in reps:
            g2 = sc.step(g, b) if g else 0
            k = (p, b)
            if k not in mv:
                mv[k] = nfa.move(p, b)
            p2 = mv[k]
            if not g2 and not p2:
                continue
            if (g2, p2) not in seen:
                seen[(g2, p2)] = path + (b,)
                todo.append((g2, p2))
    return n, bad


def lexical(db, rep):
    """S01"""
    G, sc, A = setup(db)
    rep.explanation = ("The tables of the generated scanner (flex, the project's flags) are read as a deterministic automaton; its product with the automaton of an independent "
                       "lexical specification (token texts come from the grammar's token declarations, classes from the SQL definition) is explored completely, which decides "
                       "for every text whether the longest match yields the specified token.  Actions are mapped to tokens from the type-checked syntax tree.")
    rep.rule("lex-keyword", "the text of each token of the grammar, in any case, is scanned as that token and nothing else is", 290)
    rep.rule("lex-class", "identifiers, parameters, numbers and strings are exactly the texts of their SQL definition", 6)
    rep.rule("lex-space", "white space and comment openings are exactly those of SQL", 3)
    rep.rule("lex-product", "every reachable pair of states agrees", 400)
    rep.rule("lex-restricted", "identifiers are rejected exactly if they start with two underscores", 2)
    nfa, texts = spec(G)
    lab = {}

    def norm(act):
        if act not in lab:
            l = label_of(sc, A, act)
            if l is not None and l[0] == "switch" and len(l[1]) == 1:
                l = ("enter", classify(sc, A).get(l[1][0], "?"))
            lab[act] = l
        return lab[act]

    def okp(want, got):
        if want == got:
            return True
        if want == ("skip",) and got is None:
            return True   # longer runs of white space may be skipped piecewise
        if want == ("tok", "DOUBLE_QUOTE") and got == ("tok", "ERROR"):
            return True   # declared for completeness, never produced
        return False

    n, bad = compare(sc, A, 1, nfa, norm, None, rep, "lex-product", okp)
    for i in range(n - len(bad)):
        rep.ok("lex-product", "pair")
    failing = set()
    for (want, got), (path, act) in sorted(bad.items(), key=str):
        w = want[1] if want and want[0] in ("tok", "enter") else want
        g = got[1] if got and got[0] in ("tok", "enter") else got
        rep.bad("lex-product", "text '%s'" % example(path), sc.loc(act), "is scanned as %s instead of %s" % (g, w), key="lex|%s|%s" % (w, g))
        failing.add(w)
        failing.add(g)
    # one obligation per token
    for i, t in sorted(texts.items()):
        if i not in failing:
            rep.ok("lex-keyword", "'%s' is %s" % (t, i))
    for i in list(CLASSES) + list(PHRASES):
        if i in G.by_ident and i not in failing:
            rep.ok("lex-class", i)
    for k in ("skip", "block", "line"):
        if k not in failing:
            rep.ok("lex-space", k)
    # single white space characters are skipped
    for b in WS:
        rep.check(norm(sc.acc[sc.step(1, b)]) == ("skip",), "lex-space", "white space 0x%02x" % b, sc.loc(sc.acc[sc.step(1, b)]), "is not skipped")
    restricted(db, rep, G, sc, A)


def classify(sc, A):
    """start condition -> block | line, by the text which enters it"""
    out = {}
    for kind, t in (("block", b"/*"), ("line", b"--")):
        s = 1
        for b in t:
            s = sc.step(s, b) if s else 0
        act = sc.acc[s] if s else 0
        if act and act < sc.eob:
            for o in A.run(act):
                k = A.switch(o)
                if k is not None:
                    out[k] = kind
    return out


def restricted(db, rep, G, sc, A):
    """which identifiers take the RESTRICTED outcome: every identifier action is evaluated under each combination of length and leading characters"""
    from flow import UNKNOWN
    for base, res in RESTRICTED.items():
        acts = [a for a in sc.arms if a < sc.eob - 1 and base in tokens_of(A, a)]
        for a in acts:
            off = 0 if base.startswith("REG") else 1
            bad = None
            n = 0
            for size in range(1 + 2 * off, 5 + 2 * off):
                for c0 in (95, 97):
                    for c1 in (95, 97, 34):
                        if off == 0 and c1 == 34:
                            continue
                        if size - 2 * off < 2 and c1 != 97:
                            continue
                        chars = [c0, c1] + [97] * 6
                        chars = chars[:size - 2 * off]
                        if off:
                            chars = [34] + chars + [34]
                        t = run_chars(db, sc, A, a, chars)
                        want = {res} if len(chars) - 2 * off >= 2 and c0 == 95 and c1 == 95 else {base}
                        n += 1
                        if t != want and bad is None:
                            bad = (bytes(chars).decode(), t)
            rep.check(bad is None, "lex-restricted", "%s (%d shapes)" % (base, n), sc.loc(a), "the identifier '%s' yields %s" % bad if bad else "")


def run_chars(db, sc, A, act, chars):
    """tokens an action can yield when the matched text is `chars`"""
    n = len(chars)

    def inline(f):
        return A.inline(f) or f.q.startswith("mizugaki::parser::")

    def model(I, fr, nd, name, rv, av, st):
        m = A.model(I, fr, nd, name, rv, av, st)
        if m is not None:
            return m
        if name is None:
            return None
        short = name.rsplit("::", 1)[-1]
        allv = ([rv] if rv is not None else []) + list(av)
        if "basic_string" in name and rv is not None:
            if short in ("size", "length"):
                return [(Lin((), n), st)]
            if short == "empty":
                return [(n == 0, st)]
            if short in ("operator[]", "at") and av and isinstance(av[0], Lin) and av[0].const() is not None:
                i = av[0].c
                if 0 <= i < n:
                    return [(Lin((), chars[i]), st)]
                return [(term(("out-of-range", i)), st)]
            if short == "front":
                return [(Lin((), chars[0]), st)]
            if short == "back":
                return [(Lin((), chars[-1]), st)]
            if short in ("find", "rfind", "compare", "substr", "starts_with"):
                s = bytes(chars).decode()
                if short == "find" and av and isinstance(av[0], tuple) and av[0][0] == "str":
                    p = av[1].c if len(av) > 1 and isinstance(av[1], Lin) and av[1].const() is not None else 0
                    r = s.find(av[0][1], p)
                    return [(Lin((), r if r >= 0 else (1 << 64) - 1), st)]
                if short == "rfind" and av and isinstance(av[0], tuple) and av[0][0] == "str":
                    p = av[1].c if len(av) > 1 and isinstance(av[1], Lin) and av[1].const() is not None else len(s)
                    r = s.rfind(av[0][1], 0, p + len(av[0][1]))
                    return [(Lin((), r if r >= 0 else (1 << 64) - 1), st)]
                if short == "compare" and len(av) == 3 and all(isinstance(x, Lin) and x.const() is not None for x in av[:2]) and isinstance(av[2], tuple) and av[2][0] == "str":
                    x = s[av[0].c:av[0].c + av[1].c]
                    return [(Lin((), (x > av[2][1]) - (x < av[2][1])), st)]
                if short == "substr" and all(isinstance(x, Lin) and x.const() is not None for x in av):
                    return [(("str", s[av[0].c:(av[0].c + av[1].c) if len(av) > 1 else None]), st)]
        if short in ("operator==", "operator!=") and len(allv) == 2 and all(isinstance(x, tuple) and x[0] == "str" for x in allv):
            return [((allv[0][1] == allv[1][1]) == (short == "operator=="), st)]
        return None

    I = Interp(db, inline=inline, model=model)
    env = {("f", ("this",), "yyleng"): Lin((), n), ("f", ("this",), A.cursor): term("c")}
    for p in sc.f.params:
        env[("l", p["d"])] = ("driver",)
    out = set()
    for k, v, st in I.block(Frame(sc.f, ("this",), 0, 0), sc.arms[act], St(env)):
        out.add(v[1] if k == "ret" and isinstance(v, tuple) and v[0] == "tok" else k)
    return out


# ------------------------------------------------------------------------------------------- S02: totality, positions

ALLOWED_DRIVER = {"add_comment", "add_comment_separator", "add_placeholder_mark", "check_regular_identifier", "check_delimited_identifier"}


def positions(db, rep):
    """S02"""
    G, sc, A = setup(db)
    rep.explanation = ("Each action of the scanner is evaluated abstractly over affine terms: c is the position before the match, n the length of the match. "
                       "On every path the position advances by exactly n, a token carries the region [c, c+n] and the whole matched text, and is announced to the driver with that region; "
                       "the automaton accepts some rule after any single byte in every start condition, and never the default rule, so that no byte is lost or echoed.")
    rep.rule("scan-total", "in every start condition every byte begins a match of an explicit rule", 3 * 200)
    rep.rule("scan-advance", "every action advances the position by the length of the match exactly once, and rewinds nothing", 300)
    rep.rule("scan-region", "the region of a token is exactly its text", 290)
    rep.rule("scan-image", "a token with a value carries its whole text", 30)
    rep.rule("scan-announce", "a token is announced to the driver with its own region, exactly once", 290)
    rep.rule("scan-eof", "each start condition has its own end-of-file action, with a region at the end of the text", 3)
    conds = {0: "INITIAL"}
    conds.update(classify(sc, A))
    # start conditions entered anywhere
    for a in sc.arms:
        if a < sc.eob - 1:
            for o in A.run(a):
                k = A.switch(o)
                if k is not None:
                    conds.setdefault(k, "condition %d" % k)
    for k, nm in sorted(conds.items()):
        for b in range(256):
            s = sc.step(1 + 2 * k, b)
            a = sc.acc[s] if s else 0
            rep.check(bool(a) and a < sc.eob - 1, "scan-total", "%s: byte 0x%02x" % (nm, b), "src/mizugaki/parser/sql_scanner.ll", "no explicit rule matches this byte")
        # and nothing accepted later falls to the default rule
        seen, todo = {1 + 2 * k}, [1 + 2 * k]
        while todo:
            s = todo.pop()
            for b in range(256):
                t = sc.step(s, b)
                if t and t not in seen:
                    seen.add(t)
                    todo.append(t)
        bad = [s for s in seen if s != 1 + 2 * k and sc.acc[s] == sc.eob - 1]
        rep.check(not bad, "scan-total", "%s: default rule" % nm, "src/mizugaki/parser/sql_scanner.ll", "some text is only matched by the default rule (echo)")
    c, n = term("c"), term("n")
    for a in sorted(sc.arms):
        if a == 0 or a == sc.eob or a == sc.eob - 1:
            continue
        eof = a > sc.eob
        if eof and (a - sc.eob - 1) not in conds:
            continue
        name = ", ".join(tokens_of(A, a)) or ("end of file" if eof else "rule %d" % a)
        loc = sc.loc(a)
        end = c if eof else c + n
        for o in A.run(a):
            cur = A.field(o, A.cursor)
            if o.kind == "goto":
                rep.bad("scan-advance", name, loc, "the action jumps")
                continue
            rep.check(cur == end, "scan-advance", name, loc, "the position becomes %s instead of %s" % (show(cur), show(end)))
            other = [e for e in o.eff if not (e[0] == "call" and e[1] in ALLOWED_DRIVER)]
            stray = [e for e in other if e[0] == "assign" or e[0] == "loop" or (e[0] == "call" and e[1] in ("yyunput", "yyinput", "unput", "yyless", "LexerInput", "yyrestart"))]
            moved = [k for k in o.st.env if k[0] == "f" and k[2] in ("yytext", "yy_c_buf_p", "yyleng", "yy_more_len", "yy_more_flag") and
                     not (k[2] == "yyleng" and o.st.env[k] == n)]
            rep.check(not stray and not moved, "scan-advance", name + " (no rewind)", loc, "the action changes the scanned text: %s" % ", ".join(show(e) for e in stray) if stray else "the action rewinds the input")
            if o.kind != "tok":
                if o.kind == "other":
                    rep.bad("scan-region", name, loc, "the action returns something which is not a token")
                continue
            whole = Obj("", {"begin": c, "end": c + n}) if not eof else Obj("", {"begin": c, "end": c})
            if o.tok == "UNCLOSED_BLOCK_COMMENT":
                b = o.loc.f["begin"] if region_like(o.loc) else None
                rep.check(eof and b is not None and "b" in repr(b), "scan-region", o.tok, loc, "the region does not begin where the comment does")
            else:
                rep.check(o.loc == whole, "scan-region", o.tok, loc, "the region of the token is %s, its text is at %s" % (show(o.loc), show(whole)))
            nm = G.by_ident.get(o.tok)
            if nm is None:
                rep.bad("scan-region", o.tok, loc, "is not a token of the grammar")
                continue
            if G.terminals[nm]["type"]:
                rep.check(len(o.val) == 1 and is_image(o.val[0]), "scan-image", o.tok, loc, "the value is %s, not the matched text" % (show(o.val[0]) if o.val else "missing"))
            ann = [e for e in o.eff if e[0] == "call" and e[1] == "add_comment_separator"]
            rep.check(len(ann) == 1 and ann[0][-1] == whole, "scan-announce", o.tok, loc,
                      "the token is announced %d times%s" % (len(ann), " with %s" % show(ann[0][-1]) if ann else ""))
    for k, nm in sorted(conds.items()):
        a = sc.eob + 1 + k
        toks = tokens_of(A, a) if a in sc.arms else []
        want = ["UNCLOSED_BLOCK_COMMENT"] if nm == "block" else ["END_OF_FILE"]
        rep.check(toks == want, "scan-eof", nm, sc.loc(a), "the end of file yields %s instead of %s" % (toks, want))


# ------------------------------------------------------------------------------------------- S03: comments and placeholder marks

def comments(db, rep):
    """S03"""
    G, sc, A = setup(db)
    rep.explanation = ("The start conditions of comments are explored with an automaton that tracks the terminator: no match may swallow it, and only it ends the comment; "
                       "abstract evaluation of the actions shows that the recorded region is that of the comment and that each placeholder is recorded with its region.")
    rep.rule("comment-enter", "a comment opening enters its start condition and remembers its position", 2)
    rep.rule("comment-end", "a comment ends exactly at the first terminator", 2)
    rep.rule("comment-skip", "nothing inside a comment is taken for anything else, nor swallows the terminator", 2)
    rep.rule("comment-record", "each comment is recorded with its region: a block comment with its delimiters, a line comment without the line break", 3)
    rep.rule("mark-record", "each placeholder mark, and nothing else, is recorded with the region of its token", 290)
    cl = classify(sc, A)
    b, c, n = term("b"), term("c"), term("n")
    for kind, t in (("block", b"/*"), ("line", b"--")):
        ks = [k for k, v in cl.items() if v == kind]
        s = 1
        for x in t:
            s = sc.step(s, x) if s else 0
        act = sc.acc[s] if s else 0
        o = A.run(act) if act and act < sc.eob - 1 else []
        good = bool(o) and len(ks) == 1 and all(x.kind == "next" and A.switch(x) == ks[0] and A.begin and A.field(x, A.begin) == c for x in o)
        rep.check(good, "comment-enter", kind, sc.loc(act), "the opening does not enter the comment at its own position")
        if len(ks) != 1:
            continue
        k = ks[0]
        start = 1 + 2 * k
        # explore matches: (state, tail) with the relevant tail of the match
        seen = {(start, b"", 0)}
        todo = [((start, b"", 0), ())]
        enderr = skiperr = None
        ends = {}
        i = 0
        while i < len(todo):
            (s, tail, ln), path = todo[i]
            i += 1
            for x in range(256):
                g = sc.step(s, x)
                if not g:
                    continue
                if kind == "block":
                    has = tail == b"DONE" or (tail == b"*" and x == 0x2f)
                    nt = b"PAST" if tail in (b"DONE", b"PAST") else b"DONE" if has else b"*" if x == 0x2a else b""
                else:
                    nt = b"PAST" if tail in (b"DONE", b"PAST") else b"DONE" if x == 0x0a else b"\r" if x == 0x0d and tail == b"" and ln == 0 else b"x"
                nl = min(ln + 1, 3)
                q = (g, nt, nl)
                p2 = path + (x,)
                a = sc.acc[g]
                if a and a < sc.eob and q not in seen:
                    os_ = A.run(a) if a != sc.eob - 1 else []
                    toks = [z for z in os_ if z.kind != "next"]
                    sw = {A.switch(z) for z in os_}
                    if toks or not os_:
                        skiperr = skiperr or (p2, a, "is taken for a token")
                    elif sw == {0}:
                        ends[a] = os_
                        if kind == "block" and not (nt == b"DONE" and p2 in (tuple(b"*/"),) or nt == b"DONE"):
                            enderr = enderr or (p2, a)
                        if kind == "line" and not (nt == b"DONE" and (len(p2) == 1 or p2[:-1] == (13,))):
                            enderr = enderr or (p2, a)
                    elif sw == {None}:
                        if nt in (b"DONE", b"PAST"):
                            skiperr = skiperr or (p2, a, "swallows the end of the comment")
                        elif kind == "block" and nt == b"*" and nl > 1:
                            skiperr = skiperr or (p2, a, "can swallow the first half of the end of the comment")
                    else:
                        skiperr = skiperr or (p2, a, "changes to another start condition")
                if q not in seen:
                    seen.add(q)
                    todo.append((q, p2))
        # the terminator itself ends the comment
        for term_ in ([b"*/"] if kind == "block" else [b"\n", b"\r\n"]):
            s = start
            for x in term_:
                s = sc.step(s, x) if s else 0
            a = sc.acc[s] if s else 0
            if a not in ends:
                enderr = enderr or (tuple(term_), a)
        rep.check(enderr is None, "comment-end", kind, sc.loc(enderr[1]) if enderr else "", "the text '%s' is treated wrongly at the end of a comment" % (example(enderr[0]) if enderr else ""))
        rep.check(skiperr is None, "comment-skip", kind, sc.loc(skiperr[1]) if skiperr else "", "the text '%s' inside a comment %s" % (example(skiperr[0]), skiperr[2]) if skiperr else "")
        want = Obj("", {"begin": b, "end": c + n if kind == "block" else c})
        for a, os_ in sorted(ends.items()):
            for z in os_:
                rec = [e for e in z.eff if e[0] == "call" and e[1] == "add_comment"]
                rep.check(len(rec) == 1 and rec[0][-1] == want, "comment-record", kind, sc.loc(a),
                          "the comment is recorded %d times%s" % (len(rec), ", as %s instead of %s" % (show(rec[0][-1]), show(want)) if rec else ""))
        ea = sc.eob + 1 + k
        if kind == "line" and ea in sc.arms:
            for z in A.run(ea):
                rec = [e for e in z.eff if e[0] == "call" and e[1] == "add_comment"]
                rep.check(len(rec) == 1 and rec[0][-1] == Obj("", {"begin": b, "end": c}), "comment-record", "line comment at the end of file", sc.loc(ea),
                          "the comment is recorded %d times%s" % (len(rec), " as %s" % show(rec[0][-1]) if rec else ""))
    for a in sorted(sc.arms):
        if a == 0 or a >= sc.eob - 1:
            continue
        for o in A.run(a):
            m = [e for e in o.eff if e[0] == "call" and e[1] == "add_placeholder_mark"]
            nm = o.tok or "rule %d" % a
            if o.tok == "QUESTION_MARK":
                rep.check(len(m) == 1 and m[0][-1] == Obj("", {"begin": c, "end": c + n}), "mark-record", nm, sc.loc(a), "the mark is recorded %d times%s" % (len(m), " as %s" % show(m[0][-1]) if m else ""))
            else:
                rep.check(not m, "mark-record", nm, sc.loc(a), "records a placeholder mark")
            if o.kind == "tok" or A.switch(o) is None:
                rec = [e for e in o.eff if e[0] == "call" and e[1] == "add_comment"]
                if rec:
                    rep.bad("comment-record", nm, sc.loc(a), "records a comment which is not one")


CHECKS = {"S01": lexical, "S02": positions, "S03": comments}

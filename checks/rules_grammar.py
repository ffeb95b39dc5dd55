"""G01..G06: what the grammar's actions make of an accepted text, decided on the actions' abstract values and on the LALR automaton."""
import os
import re
import xml.etree.ElementTree as ET

from aval import Interp, Lin, Obj, St, Frame, show
from gact import evaluate, hull
from mz import Broken, walk, strip, short
from rules_ast import ctor_fns

# ------------------------------------------------------------------------------------------- helpers on abstract values


def subterms(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, (tuple, Obj, Lin, frozenset)):
                yield from subterms(x)
    elif isinstance(v, frozenset):
        for x in v:
            yield from subterms(x)
    elif isinstance(v, Obj):
        for x in v.f.values():
            yield from subterms(x)
    elif isinstance(v, Lin):
        for k, _ in v.t:
            yield from subterms(k)


READS = {"region", "leading_description_comment", "size", "empty", "node_kind"}


def uses(v, out, proj=None):
    """occurrences of symbol values in a term: list of (i, projection or None); values which are only looked at (region(), size()) do not count"""
    if isinstance(v, tuple):
        if v[:1] == ("sym",):
            out.append((v[1], proj))
            return
        if v[:1] == ("call",) and len(v) > 1 and v[1] in READS:
            return
        if v[:1] in (("mem",), ("get",)):
            p = ("field", v[2]) if v[0] == "mem" else ("part", v[1][0] if v[1] else "")
            uses(v[1] if v[0] == "mem" else v[2], out, (p,) + (proj or ()))
            return
        for x in v:
            if isinstance(x, (tuple, Obj, Lin, frozenset)):
                uses(x, out, None if v[0] not in ("mem", "get") else proj)
    elif isinstance(v, frozenset):
        for x in v:
            uses(x, out)
    elif isinstance(v, Obj):
        for x in v.f.values():
            uses(x, out)
    elif isinstance(v, Lin):
        for k, _ in v.t:
            uses(k, out)


def sym_of(v):
    """the symbol whose value v is, through casts of value classes"""
    if isinstance(v, tuple) and v[:1] == ("sym",):
        return v[1]
    if isinstance(v, tuple) and v[:1] == ("rg",):
        return sym_of(v[1])
    return None


class Ctors:
    def __init__(self, db):
        self.db = db
        self.cache = {}

    def params(self, t, n):
        """parameter names and types of the constructor of t taking n arguments (the trailing ones may be defaults)"""
        k = (t, n)
        if k in self.cache:
            return self.cache[k]
        rec = self.db.records.get(t)
        out = []
        for c in ctor_fns(self.db, rec) if rec is not None else ():
            ps = c.params
            if ps and "clone_tag" in str(ps[0].get("t")):
                continue
            if n and len(ps) >= n and (len(ps) == n or len(ps) - n <= 2):
                out.append([(p["d"].n, strip(p.get("t", ""))) for p in ps[:n]])
        # same names are expected of all candidates; prefer the one holding smart pointers
        out.sort(key=lambda ps: (-sum("unique_ptr" in t or "vector" in t for _, t in ps)))
        self.cache[k] = out
        return out


def typed_symbols(G, r):
    for i, s in enumerate(r.rhs, 1):
        if G.typed(s) and G.text(s) is None:
            yield i, s


def strip_locs(v):
    """the value without regions"""
    if isinstance(v, tuple):
        if v[:1] in (("loc",), ("lhsloc",), ("hull",)):
            return ("loc",)
        if v[:1] == ("rg",):
            return ("rg", strip_locs(v[1]))
        return tuple(strip_locs(x) if isinstance(x, (tuple, Obj)) else x for x in v)
    if isinstance(v, Obj):
        return (v.t,) + tuple((k, strip_locs(x)) for k, x in sorted(v.f.items()))
    return v


def values_of(G, rules, nt, seen=None):
    """values a nonterminal may carry, through rules which only pass a value on"""
    seen = seen if seen is not None else set()
    if nt in seen:
        return []
    seen.add(nt)
    out = []
    for r, outs in rules:
        if r.lhs != nt:
            continue
        vs = [o.lhs for o in outs if o.kind == "break"] if r.stmts is not None else [("sym", 1)] if r.rhs else []
        for v in vs:
            if isinstance(v, tuple) and v[:1] == ("sym",) and v[1] <= len(r.rhs):
                out += values_of(G, rules, r.rhs[v[1] - 1], seen)
            else:
                out.append(v)
    return out


# ------------------------------------------------------------------------------------------- G01: nothing lost, doubled or reordered

def completeness(db, rep):
    rep.explanation = ("Every semantic action of the grammar is evaluated abstractly on all its paths; the term it leaves in $$ is compared with the values "
                       "of the symbols of the rule.")
    rep.rule("val-carried", "each symbol with a value goes into the value of its rule, or decides it", 600)
    rep.rule("val-once", "no value is used a second time after it was moved", 500)
    rep.rule("val-pass", "a rule without an action has no value to lose", 2)
    rep.rule("val-order", "list elements and like parts of an element stay in the order of the text", 45)
    rep.rule("val-parts", "the parts of a composite value go to the attributes of their names, all of them", 50)
    rep.rule("val-flag", "a flag changes the result", 14)
    rep.rule("val-option", "an option clause is stored in the field of its kind, and only once", 7)
    rep.rule("val-separator", "a comma has an element on either side", 12)
    G, rules = evaluate(db)
    C = Ctors(db)
    nullable = nullables(G)
    for r, outs in rules:
        tys = list(typed_symbols(G, r))
        if r.stmts is None:
            lost = [s for i, s in tys if i != 1] if G.nonterminals[r.lhs]["type"] else [s for _, s in tys]
            rep.check(not lost, "val-pass", r.name, r.loc, "the rule has no action: the value of %s is lost" % ", ".join(lost))
            continue
        normal = [o for o in outs if o.kind == "break"]
        for o in normal:
            occ = []
            uses(o.lhs, occ)
            for e in o.eff:
                if e[0] == "call" and e[1] == "success":
                    uses(e[2:], occ)
                if e[0] == "setmem":
                    uses(e[3], occ)
            tested = {}
            for c, v in o.cond:
                for x in subterms(c):
                    if isinstance(x, tuple) and x[:1] == ("sym",):
                        tested.setdefault(x[1], v)
            count = {}
            for i, p in occ:
                count.setdefault(i, []).append(p)
            for i, s in tys:
                ps = count.get(i)
                flag = i in tested and is_flag(G, s)
                if not ps:
                    ok = flag or (tested.get(i) is False)
                    rep.check(ok, "val-carried", "%s [%s]" % (r.name, s), r.loc, "the value of %s (symbol %d) does not reach the result of the rule" % (s, i))
                    continue
                rep.ok("val-carried", "%s [%s]" % (r.name, s), r.loc)
                rep.check(len(set(ps)) == len(ps) and not (None in ps and len(ps) > 1), "val-once", "%s [%s]" % (r.name, s), r.loc,
                          "the value of %s (symbol %d) is used %d times in the result; the later uses see a moved-from value" % (s, i, len(ps)))
            order(rep, C, r, o)
            parts(rep, db, G, rules, C, r, o, tys)
        flags(rep, G, r, normal, tys)
        for i, s in enumerate(r.rhs):
            if s == '","':
                l, rt = r.rhs[i - 1] if i else None, r.rhs[i + 1] if i + 1 < len(r.rhs) else None
                bad = [x for x in (l, rt) if x is None or x in nullable]
                rep.check(not bad, "val-separator", r.name, r.loc, "the comma accepts a missing element (%s may be empty)" % ", ".join(str(b) for b in bad))
    options(db, rep)


def nullables(G):
    out = set()
    ch = True
    while ch:
        ch = False
        for l, rhs, _, _ in G.rules.values():
            if l not in out and all(s in out for s in rhs):
                out.add(l)
                ch = True
    return out


def is_flag(G, s):
    t = (G.nonterminals.get(s) or {"type": ""})["type"]
    return "regioned<bool>" in t


def order(rep, C, r, o):
    for v in subterms(o.lhs):
        if not isinstance(v, tuple):
            continue
        if v[:1] == ("list",) and len(v) > 2:
            seq = []
            for x in v[1:]:
                occ = []
                uses(x, occ)
                if occ:
                    seq.append(min(i for i, _ in occ))
            if len(seq) > 1:
                rep.check(seq == sorted(seq), "val-order", "list in %s" % r.name, r.loc, "elements of the list are not in the order of the text: symbols %s" % seq)
        if v[:1] in (("node",), ("new",)) and len(v) > 3 and isinstance(v[1], str):
            cands = C.params(v[1], len(v) - 2)
            if not cands:
                continue
            ps = cands[0]
            by = {}
            for (n, t), a in zip(ps, v[2:]):
                i = sym_of(a)
                if i is not None:
                    by.setdefault(t, []).append((n, i))
            for t, xs in by.items():
                if len(xs) < 2:
                    continue
                seq = [i for _, i in xs]
                rep.check(seq == sorted(seq), "val-order", "%s in %s" % (short(v[1]), r.name), r.loc,
                          "attributes of the same type are exchanged: %s" % ", ".join("%s = symbol %d" % x for x in xs))


def parts(rep, db, G, rules, C, r, o, tys):
    """projections: x.f goes to the parameter f; std::get<k> in order; all settable fields are taken"""
    proj = {}
    for v in subterms(o.lhs):
        if isinstance(v, tuple) and v[:1] in (("node",), ("new",)) and len(v) > 3 and isinstance(v[1], str):
            cands = C.params(v[1], len(v) - 2)
            last = {}
            for k, a in enumerate(v[2:]):
                name = cands[0][k][0] if cands else None
                if isinstance(a, tuple) and a[:1] == ("mem",) and isinstance(a[1], tuple) and a[1][:1] == ("sym",):
                    proj.setdefault(a[1][1], set()).add(a[2])
                    rep.check(name is None or name == a[2], "val-parts", "%s.%s in %s" % (short(v[1]), name, r.name), r.loc,
                              "attribute %s of %s is given the field %s" % (name, short(v[1]), a[2]))
                if isinstance(a, tuple) and a[:1] == ("get",) and isinstance(a[2], tuple) and a[2][:1] == ("sym",):
                    i, part = a[2][1], int(a[1][0]) if a[1] and str(a[1][0]).isdigit() else None
                    proj.setdefault(i, set()).add(part)
                    names = tuple_names(rules, r.rhs[i - 1])
                    rep.check(part is not None and (names is None or names.get(part) is None or name is None or words(name) == names[part]),
                              "val-parts", "%s.%s in %s" % (short(v[1]), name, r.name), r.loc,
                              "attribute %s of %s is given part %s of %s, which holds %s" % (name, short(v[1]), part, r.rhs[i - 1], " ".join((names or {}).get(part) or ())))
                    last[i] = part
    # options gathered under a condition on a field
    for c, _ in o.cond:
        for x in subterms(c):
            if isinstance(x, tuple) and x[:1] == ("mem",) and isinstance(x[1], tuple) and x[1][:1] == ("sym",):
                proj.setdefault(x[1][1], set()).add(x[2])
    for i, fs in proj.items():
        if any(e[0] == "setmem" for e in o.eff):
            continue
        s = r.rhs[i - 1]
        want = set()
        names = tuple_names(rules, s)
        if names is not None:
            want = set(names)
        else:
            want = settable(G, rules, s)
        rep.check(want <= fs, "val-parts", "%s of %s" % (s, r.name), r.loc, "part(s) %s of %s are dropped" % (", ".join(str(x) for x in sorted(want - fs, key=str)), s))


def words(name):
    return tuple(x.upper() for x in name.split("_") if x)


def tuple_names(rules, nt):
    """part -> words of the clause the part comes from, when nt carries tuples"""
    out = {}
    hit = False
    for r, outs in rules:
        if r.lhs != nt:
            continue
        for o in outs:
            if o.kind == "break" and isinstance(o.lhs, tuple) and o.lhs[:2] == ("call", "make_tuple"):
                hit = True
                for k, a in enumerate(o.lhs[2:]):
                    i = sym_of(a)
                    if i is None:
                        continue
                    kw = []
                    j = i - 2
                    while j >= 0 and r.rhs[j].startswith('"'):
                        kw.insert(0, r.rhs[j].strip('"'))
                        j -= 1
                    if k in out and out[k] != tuple(kw):
                        out[k] = ("?",) + tuple(kw)
                    else:
                        out[k] = tuple(kw)
    return out if hit else None


def settable(G, rules, nt):
    """fields of an option set which some option clause of nt sets"""
    out = set()
    for r, outs in rules:
        if r.lhs != nt:
            continue
        if r.stmts is None or any(isinstance(o.lhs, tuple) and o.lhs[:1] == ("sym",) for o in outs):
            if not any(e[0] == "setmem" for o in outs for e in o.eff):
                out |= settable(G, rules, r.rhs[0]) if r.rhs and r.rhs[0] != nt else set()
                continue
        if any(e[0] == "setmem" for o in outs for e in o.eff):
            for s in r.rhs[1:]:
                for v in values_of(G, rules, s):
                    if isinstance(v, Obj) and "kind" in v.f and isinstance(v.f["kind"], tuple) and v.f["kind"][:1] == ("enum",):
                        out.add(v.f["kind"][1].rsplit("::", 1)[-1])
    return out


def flags(rep, G, r, normal, tys):
    for i, s in tys:
        if not is_flag(G, s):
            continue
        yes, no = set(), set()
        for o in normal:
            for c, v in o.cond:
                if c == ("sym", i) or c == ("given", ("sym", i)):
                    (yes if v else no).add((strip_all(o.lhs), tuple(x for x in o.cond if x[0] != c)))
        if yes or no:
            rep.check(yes and no and not (yes & no), "val-flag", "%s [%s]" % (r.name, s), r.loc, "the result is the same whether %s is given or not" % s)


def strip_all(v):
    return repr(strip_locs(v))


def options(db, rep):
    """the helper which stores option clauses: field <-> kind"""
    G, rules = evaluate(db)
    done = set()
    for r, outs in rules:
        sets = [(o, e) for o in outs for e in o.eff if e[0] == "setmem"]
        if not sets:
            continue
        kinds = {}
        for v in (x for s in r.rhs[1:] for x in values_of(G, rules, s)):
            if isinstance(v, Obj) and isinstance(v.f.get("kind"), tuple):
                kinds[v.f["kind"][2]] = v.f["kind"][1].rsplit("::", 1)[-1]
        for o, e in sets:
            lab = [c[2] for c, v in o.cond if isinstance(c, tuple) and c[:1] == ("switch",) and v]
            n = sum(1 for x in o.eff if x[0] == "setmem")
            key = (r.lhs, e[2])
            en = None
            if lab:
                try:
                    en = enum_name(db, "sequence_option_field_kind", int(lab[0][0]))
                except (ValueError, TypeError):
                    en = None
            else:
                for c, v in o.cond:
                    if isinstance(c, tuple) and c[:1] == ("==",) and v:
                        for x in c[1:]:
                            if isinstance(x, tuple) and x[:1] == ("enum",):
                                en = x[1].rsplit("::", 1)[-1]
            if en is None:
                raise Broken("option clause of %s stored under an unknown condition" % r.name)
            done.add(key)
            occ = []
            uses(e[3], occ)
            rep.check(en == e[2] and n == 1 and [i for i, _ in occ] == [i for i in (j for j in range(2, len(r.rhs) + 1)) if i in [q for q, _ in occ]] and occ,
                      "val-option", "%s of %s" % (en, r.lhs), r.loc, "the clause %s is stored in the field %s" % (en, e[2]))


def enum_name(db, suffix, v):
    for n, e in db.enums.items():
        if n.endswith("::" + suffix):
            for c in e["c"]:
                if c["v"] == v:
                    return c["n"]
    return None


# ------------------------------------------------------------------------------------------- G02: keywords and the attributes they denote

# phrases denoting an enumerator, where they are not the words of its identifier
P = {
    "insert_statement_option::or_ignore": ["OR IGNORE", "IF NOT EXISTS"],
    "insert_statement_option::or_replace": ["OR REPLACE", "UPDATE OR INSERT"],
    "binary_operator::asterisk": ["*"], "binary_operator::concatenation": ["||"], "binary_operator::minus": ["-"], "binary_operator::plus": ["+"],
    "binary_operator::percent": ["%"], "binary_operator::solidus": ["/"], "binary_operator::element_reference": ["[ ]"],
    "binary_operator::contains": ["<@"], "binary_operator::is_contained_by": ["@>"], "binary_operator::have_elements_in_common": ["&&"],
    "unary_operator::minus": ["-"], "unary_operator::plus": ["+"], "unary_operator::reference_resolution": ["DEREF"],
    "sign::minus": ["-"], "sign::plus": ["+"],
    "comparison_operator::equals": ["="], "comparison_operator::not_equals": ["<>"], "comparison_operator::not_equals_alternative": ["!="],
    "comparison_operator::less_than": ["<"], "comparison_operator::less_than_or_equals": ["<="],
    "comparison_operator::greater_than": [">"], "comparison_operator::greater_than_or_equals": [">="],
    "builtin_function_kind::character_length": ["CHARACTER_LENGTH", "CHAR_LENGTH"],
    "cast_operator::cast": ["CAST", "::"], "cast_operator::generalize": ["AS"],
    "reference_operator::arrow": ["->"], "reference_operator::period": ["."],
    "value_constructor_kind::row": ["ROW", "( )"], "value_constructor_kind::array": ["ARRAY"],
    "sequence_option_field_kind::cycle": ["CYCLE"], "sequence_option_field_kind::increment_value": ["INCREMENT"],
    "sequence_option_field_kind::initial_value": ["START"], "sequence_option_field_kind::max_value": ["MAXVALUE"],
    "sequence_option_field_kind::min_value": ["MINVALUE"], "sequence_option_field_kind::owner": ["OWNED BY"], "sequence_option_field_kind::type": ["AS"],
    "constraint_kind::default_clause": ["DEFAULT"], "constraint_kind::generation_clause": ["GENERATED"],
    "kind::drop_index_statement": ["DROP INDEX"], "kind::drop_schema_statement": ["DROP SCHEMA"], "kind::drop_sequence_statement": ["DROP SEQUENCE"],
    "kind::drop_table_statement": ["DROP TABLE"], "kind::drop_view_statement": ["DROP VIEW"],
    "privilege_user_kind::all_users": ["*"],
    "join_type::full_outer": ["FULL"], "join_type::left_outer": ["LEFT"], "join_type::right_outer": ["RIGHT"], "join_type::inner": ["INNER", "JOIN"],
    "join_type::natural_full_outer": ["NATURAL FULL"], "join_type::natural_left_outer": ["NATURAL LEFT"], "join_type::natural_right_outer": ["NATURAL RIGHT"],
    "join_type::natural_inner": ["NATURAL INNER", "NATURAL"], "join_type::union_": ["UNION JOIN"],
    "kind::big_integer": ["BIGINT"], "kind::small_integer": ["SMALLINT"], "kind::tiny_integer": ["TINYINT"], "kind::integer": ["INTEGER", "INT"],
    "kind::binary_integer": ["INTEGER ( )", "INT ( )"], "kind::binary_float": ["FLOAT ( )"], "kind::float_": ["FLOAT"],
    "kind::character": ["CHARACTER", "CHAR"], "kind::character_varying": ["CHARACTER VARYING", "CHAR VARYING", "VARCHAR"],
    "kind::character_large_object": ["CHARACTER LARGE OBJECT", "CHAR LARGE OBJECT", "CLOB"],
    "kind::octet": ["BINARY"], "kind::octet_varying": ["BINARY VARYING", "VARBINARY"], "kind::binary_large_object": ["BINARY LARGE OBJECT", "BLOB"],
    "kind::decimal": ["DECIMAL", "DEC"], "kind::double_precision": ["DOUBLE"],
    "kind::exact_numeric": ["EXACT NUMERIC LITERAL", "UNSIGNED INTEGER"], "kind::approximate_numeric": ["APPROXIMATE NUMERIC LITERAL"],
    "kind::character_string": ["CHARACTER STRING LITERAL"], "kind::hex_string": ["HEX STRING LITERAL"],
    "kind::time_with_time_zone": ["TIME WITH TIME ZONE"], "kind::timestamp_with_time_zone": ["TIMESTAMP WITH TIME ZONE"],
    "kind::time": ["TIME"], "kind::timestamp": ["TIMESTAMP"],
    "view_definition_option::or_replace": ["OR REPLACE"],
    "table_definition_option::temporary": ["TEMPORARY", "TEMP"], "view_definition_option::temporary": ["TEMPORARY", "TEMP"],
    "sequence_definition_option::temporary": ["TEMPORARY", "TEMP"],
    "ordering_specification::asc": ["ASC"],
}
# enumerators no keyword denotes: the structure of the text does
STRUCTURAL = {"identifier_kind::regular", "identifier_kind::delimited", "privilege_user_kind::identifier", "expression_context_kind::row",
              "expression_context_kind::scalar"}
# a time zone is a flag of the type; `time` is then right for either spelling
COARSE = {"type::kind::time", "type::kind::timestamp"}


def ekey(q):
    return "::".join(q.split("::")[-2:])


def phrases(q):
    k = ekey(q)
    if k in P:
        return [tuple(p.split()) for p in P[k]]
    return [tuple(w.upper() for w in k.split("::")[1].split("_") if w), (k.split("::")[1].upper().rstrip("_"),)]


def tokens_of(G, s):
    t = G.text(s)
    if t is not None:
        return tuple(t.split())
    if s in G.terminals:
        return tuple(x for x in re.split(r"[^A-Z]+", s.upper()) if x)
    return None


class Words:
    """keyword sequences of a rule: nonterminals without a value that derive keywords only are expanded, as are flags that were tested"""

    def __init__(self, G, rules):
        self.G, self.rules = G, rules
        self.by = {}
        for r, _ in rules:
            self.by.setdefault(r.lhs, []).append(r)
        self.memo = {}

    def kw(self, nt, depth=0):
        """set of keyword sequences of a nonterminal which derives keywords only, or None"""
        if nt in self.memo:
            return self.memo[nt]
        if depth > 4:
            return None
        out = set()
        for r in self.by.get(nt, []):
            seqs = {()}
            for s in r.rhs:
                t = tokens_of(self.G, s)
                if t is None:
                    sub = self.kw(s, depth + 1)
                    if sub is None:
                        self.memo[nt] = None
                        return None
                    seqs = {a + b for a in seqs for b in sub}
                else:
                    seqs = {a + t for a in seqs}
            out |= seqs
        self.memo[nt] = out
        return out

    def rule(self, r, o):
        """list of token sequences [(word, symbol index)] of the rule on the path o"""
        given = {}
        for c, v in o.cond if o is not None else ():
            for x in subterms(c):
                if isinstance(x, tuple) and x[:1] == ("sym",) and (c == x or c[:1] == ("given",)):
                    given[x[1]] = v
        seqs = [[]]
        for i, s in enumerate(r.rhs, 1):
            t = tokens_of(self.G, s)
            if t is not None:
                seqs = [q + [(w, i) for w in t] for q in seqs]
                continue
            untyped = not self.G.typed(s)
            if untyped or i in given:
                if i in given and given[i] is False:
                    alts = {()}
                    if is_flag(self.G, s):
                        alts = {a for a in flag_words(self, s, False)} or {()}
                else:
                    alts = self.kw(s)
                    if i in given and alts and is_flag(self.G, s):
                        alts = flag_words(self, s, True)
                if alts:
                    seqs = [q + [(w, i) for w in a] for q in seqs for a in alts]
        return seqs


def flag_words(W, nt, value):
    """keyword sequences of a boolean nonterminal which yield the value"""
    out = set()
    for r, outs in W.rules:
        if r.lhs != nt:
            continue
        for o in outs:
            v = o.lhs
            b = v[1] if isinstance(v, tuple) and v[:1] == ("rg",) else None
            if b == ("default",):
                b = False
            if isinstance(v, tuple) and v[:1] == ("sym",):
                out |= flag_words(W, r.rhs[v[1] - 1], value)
            elif b is value:
                for q in W.rule(r, None):
                    out.add(tuple(w for w, _ in q))
    return out


def match(seq, phrase):
    """first occurrence of the phrase as a subsequence; returns positions or None"""
    pos = []
    k = 0
    for j, (w, _) in enumerate(seq):
        if k < len(phrase) and w.upper() == phrase[k]:
            pos.append(j)
            k += 1
    return pos if k == len(phrase) else None


def best(seq, q):
    """positions of the longest phrase of q in the text, the first one of equal length"""
    bs = None
    for p in phrases(q):
        m = match(seq, p)
        if m is not None and (bs is None or (len(p), -m[0]) > (len(bs), -bs[0])):
            bs = m
    return bs


def every(seq, q):
    for p in phrases(q):
        m = match(seq, p)
        if m is not None:
            yield m


def keywords(db, rep):
    rep.explanation = ("For every alternative of the grammar and every path of its action, the enumerators and truth values in the result are compared with the keywords "
                       "of the alternative, by an independent table of which phrase denotes which enumerator.")
    rep.rule("kw-enum", "an enumerator in the result is the one its keywords denote", 220)
    rep.rule("kw-flag", "a truth value in the result is the one its keywords denote", 12)
    rep.rule("kw-distinct", "alternatives with different keywords have different results, synonyms excepted", 400)
    rep.rule("kw-region", "the region of an attribute denoted by keywords covers such keywords only", 180)
    G, rules = evaluate(db)
    W = Words(G, rules)
    for r, outs in rules:
        if r.stmts is None:
            continue
        for o in outs:
            if o.kind != "break":
                continue
            for v, reg in enums(o.lhs):
                enum_check(db, rep, W, r, o, v, reg)
            flag_check(rep, G, W, r, o)
    distinct(rep, G, rules)


def enums(v, reg=None):
    if isinstance(v, tuple):
        if v[:1] == ("enum",):
            yield v, reg
            return
        if v[:1] == ("rg",):
            yield from enums(v[1], v[2] if v[2] is not None else ("none",))
            return
        for x in v:
            if isinstance(x, (tuple, Obj)):
                yield from enums(x)
    elif isinstance(v, Obj):
        for x in v.f.values():
            yield from enums(x)


def enum_check(db, rep, W, r, o, v, reg):
    q = v[1]
    if not q.startswith(("mizugaki::ast::", "mizugaki::parser::details::")):
        return
    if ekey(q) in STRUCTURAL:
        return
    et = q.rsplit("::", 1)[0]
    en = next((e for n, e in db.enums.items() if n == et), None)
    sibs = [et + "::" + c["n"] for c in en["c"]] if en else [q]
    ok = True
    why = ""
    used = set()
    field = ekey(q).split("::")[1]
    if by_field(o, field) is not None:
        rep.check(by_field(o, field), "kw-enum", "%s in %s" % (ekey(q), r.name), r.loc, "%s is chosen when the clause says otherwise" % ekey(q))
        return
    for seq in W.rule(r, o):
        m = best(seq, q)
        text = " ".join(w for w, _ in seq)
        if m is None:
            ok, why = False, "'%s' does not say %s" % (text, ekey(q))
            break
        for x in every(seq, q):
            used |= {seq[j][1] for j in x}
        for s2 in sibs:
            if s2 == q or ekey(s2) in STRUCTURAL or (et + "::" in "mizugaki::ast::type::kind::" and ekey(q) in ("kind::time", "kind::timestamp")):
                continue
            m2 = best(seq, s2)
            if m2 is None or not set(m) & set(m2):
                continue
            if len(m2) > len(m) and set(m) <= set(m2) or len(m2) == len(m) and m2[0] < m[0]:
                ok, why = False, "'%s' says %s rather than %s" % (text, ekey(s2), ekey(q))
    rep.check(ok, "kw-enum", "%s in %s" % (ekey(q), r.name), r.loc, why)
    if ok and reg is not None:
        region_of_keyword(rep, W, r, o, q, reg, used)


def by_field(o, name):
    """an enumerator chosen by a truth value gathered earlier: True if the field of its name has the right value, None if no such field was looked at"""
    neg = name.startswith("no_")
    field = name[3:] if neg else name
    for c, v in o.cond:
        if isinstance(c, tuple) and c[:1] == ("mem",) and c[2] == field:
            return v is not neg
    return None


def region_of_keyword(rep, W, r, o, q, reg, used):
    G = W.G
    words_only = all(tokens_of(G, s) is not None or not G.typed(s) for s in r.rhs)
    given = {x[1] for c, v in o.cond if v for x in subterms(c) if isinstance(x, tuple) and x[:1] == ("sym",)}
    kws = {i for i, s in enumerate(r.rhs, 1) if tokens_of(G, s) is not None or not G.typed(s) or i in given}
    ok = True
    if reg == ("lhsloc",):
        ok = words_only
    elif isinstance(reg, tuple) and reg[:1] in (("loc",), ("hull",)):
        ix = sorted(x[1] if isinstance(x, tuple) and x[:1] == ("loc",) else -1 for x in (reg[1] if reg[0] == "hull" else {reg}))
        span = set(range(ix[0], ix[-1] + 1))
        ok = ix[0] > 0 and span <= kws and bool(span & used)
    elif isinstance(reg, tuple) and reg[:2] == ("call", "region"):
        occ = [x[1] for x in subterms(reg) if isinstance(x, tuple) and x[:1] == ("sym",)]
        ok = bool(occ) and set(occ) <= given
    elif isinstance(reg, tuple) and reg[:2] == ("call", "operator()"):
        loc, a, b = reg[2], reg[3], reg[4]
        ok = isinstance(loc, tuple) and loc[:1] == ("loc",) and loc[1] in used | kws
        if ok and isinstance(a, Lin) and isinstance(b, Lin) and a.const() is not None and b.const() is not None and G.text(r.rhs[loc[1] - 1]):
            piece = G.text(r.rhs[loc[1] - 1])[a.const():a.const() + b.const()]
            ok = any(piece.upper() == w for p in phrases(q) for w in p)
    rep.check(ok, "kw-region", "%s in %s" % (ekey(q), r.name), r.loc, "the region of %s is %s, which is not that of its keywords" % (ekey(q), show(reg)))


NEGATIVE = {"NO", "WITHOUT", "ASENSITIVE"}


def flag_check(rep, G, W, r, o):
    v = o.lhs
    if not (isinstance(v, tuple) and v[:1] == ("rg",)) and not isinstance(v, Obj):
        return
    vals = []
    if isinstance(v, tuple):
        vals = [(v[1], v[2])]
    else:
        vals = [(x[1], x[2]) for x in v.f.values() if isinstance(x, tuple) and x[:1] == ("rg",)]
    for b, reg in vals:
        if b == ("default",):
            b = False
        if b is not True and b is not False:
            continue
        for seq in W.rule(r, o):
            ws = {w.upper() for w, _ in seq}
            want = bool(ws) and not (ws & NEGATIVE)
            rep.check(b is want, "kw-flag", r.name, r.loc, "'%s' is taken for %s" % (" ".join(w for w, _ in seq) or "nothing", "true" if b else "false"))


# alternatives which mean the same
SYN = [("CHAR", "CHARACTER"), ("INT", "INTEGER"), ("DEC", "DECIMAL"), ("OUTER",), ("PRECISION",), ("WITH",), ("BY",), ("INNER",), ("AS",), ("TABLE",), ("TEMP", "TEMPORARY"),
       ("CHAR_LENGTH", "CHARACTER_LENGTH"), ("WORK",), ("COLUMN",), ("VARCHAR", "CHAR", "CHARACTER", "VARYING"), ("VARBINARY", "BINARY", "VARYING"), ("CLOB", "CHAR", "CHARACTER", "LARGE", "OBJECT"), ("BLOB", "BINARY", "LARGE", "OBJECT"),
       ("CALL",), ("REPLACE", "UPDATE", "INSERT"), ("OR", "IGNORE", "IF", "NOT", "EXISTS"), ("ROW",), ("FROM",), ("ARRAY",)]


def synonyms(a, b):
    """two keyword sets which mean the same: optional words, and words which stand for each other"""
    x, y = set(a) - set(b), set(b) - set(a)
    for t in SYN:
        t = set(t)
        if len(t) == 1:
            x, y = x - t, y - t
        elif x & t and y & t:
            x, y = x - t, y - t
    return not x and not y


def distinct(rep, G, rules):
    by = {}
    for r, outs in rules:
        by.setdefault(r.lhs, []).append((r, outs))
    for lhs, rs in by.items():
        seen = {}
        for r, outs in rs:
            if not G.nonterminals[lhs]["type"]:
                continue
            vals = frozenset(canon(G, r, o.lhs) for o in outs if o.kind == "break") if r.stmts is not None else frozenset([canon(G, r, ("sym", 1))])
            if not vals:
                continue
            kw = tuple(w.upper() for s in r.rhs for w in (G.text(s) or "").split() if w.isalpha() or "_" in w)
            for r2, kw2 in seen.get(vals, []):
                diff = set(kw) ^ set(kw2)
                rep.check(synonyms(kw, kw2), "kw-distinct", "%s / %s" % (r2.name, r.name), r.loc, "alternatives with different keywords (%s) have the same result" % ", ".join(sorted(diff)))
            seen.setdefault(vals, []).append((r, kw))
            rep.ok("kw-distinct", r.name, r.loc)


def canon(G, r, v):
    """the value with symbols replaced by their names"""
    def go(x):
        if isinstance(x, tuple):
            if x[:1] == ("sym",):
                return ("S", r.rhs[x[1] - 1] if x[1] <= len(r.rhs) else "?", sum(1 for s in r.rhs[:x[1] - 1] if s == r.rhs[x[1] - 1]))
            if x[:1] in (("loc",), ("lhsloc",), ("hull",)):
                return ("loc",)
            if x[:1] == ("rg",):
                return ("rg", go(x[1]))
            return tuple(go(y) if isinstance(y, (tuple, Obj)) else y if not isinstance(y, (Lin, frozenset)) else repr(y) for y in x)
        if isinstance(x, Obj):
            return (x.t,) + tuple((k, go(y)) for k, y in sorted(x.f.items()))
        return repr(x)
    return repr(go(v))


# ------------------------------------------------------------------------------------------- G03: regions

def regions(db, rep):
    rep.explanation = ("For every element an action builds, the region argument is computed as an abstract hull of token regions and compared with the range of the rule, "
                       "or, for an element nested in another, with the range of the symbols it is made of.")
    rep.rule("reg-element", "an element carries the region of the text it is built from", 200)
    rep.rule("reg-value", "an attribute taken from a symbol carries the region of that symbol", 5)
    rep.rule("reg-flag", "a given flag carries the region of its keywords", 6)
    rep.rule("reg-hull", "the union of two regions spans from the first begin to the last end", 20)
    rep.rule("reg-description", "the description of a definition is looked up at the first token of the definition", 25)
    rep.rule("reg-location", "the location of a rule spans from its first symbol to its last", 2)
    G, rules = evaluate(db)
    for r, outs in rules:
        if r.stmts is None:
            continue
        for o in outs:
            if o.kind != "break":
                continue
            top = [o.lhs]
            if isinstance(o.lhs, tuple) and o.lhs[:1] == ("list",):
                top = list(o.lhs[1:])
            for v in top:
                nested(db, rep, G, r, o, v, True)
            described(db, rep, r, o)
            if isinstance(o.lhs, tuple) and o.lhs[:1] == ("call",):
                for v in o.lhs[2:]:
                    nested(db, rep, G, r, o, v, True)
    hulls(db, rep)
    location(db, rep)


def described(db, rep, r, o):
    if not hasattr(db, "_ctors"):
        db._ctors = Ctors(db)
    for v in subterms(o.lhs):
        if not (isinstance(v, tuple) and v[:1] in (("node",), ("new",)) and len(v) > 3 and isinstance(v[1], str)):
            continue
        cands = db._ctors.params(v[1], len(v) - 2)
        for (n, t), a in zip(cands[0] if cands else (), v[2:]):
            if n != "description":
                continue
            arg = a[3] if isinstance(a, tuple) and a[:2] == ("call", "leading_description_comment") and len(a) > 3 else None
            first = arg == ("loc", 1) or isinstance(arg, tuple) and arg[:2] == ("call", "region") and sym_of(arg[2]) == 1
            rep.check(first, "reg-description", "%s in %s" % (short(v[1]), r.name), r.loc, "the description of %s is %s" % (short(v[1]), show(a)))


def has_region(db, t):
    rec = db.records.get(t)
    while rec is not None:
        if any(f["t"].endswith("node_region") for f in rec["fields"]):
            return True
        nb = [db.records.get(b) for b in rec["bases"]]
        rec = next((b for b in nb if b is not None and (b["bases"] or b["fields"])), None)
    return False


def nested(db, rep, G, r, o, v, top):
    if isinstance(v, Obj):
        for x in v.f.values():
            nested(db, rep, G, r, o, x, False)
        return
    if not isinstance(v, tuple):
        return
    if v[:1] in (("node",), ("new",)) and len(v) > 1 and isinstance(v[1], str) and v[1].startswith("mizugaki::ast::") and "region" in ctor_last(db, v):
        reg = v[-1] if len(v) > 2 else None
        name = "%s in %s" % (short(v[1]), r.name)
        want = ("lhsloc",)
        if top:
            ok = covers(G, r, reg, v)
        else:
            ok = made_of(G, r, reg, v)
        rep.check(ok, "reg-element", name, r.loc, "the element %s has the region %s" % (short(v[1]), show(reg) if reg is not None else "none"))
        for x in v[2:-1]:
            nested(db, rep, G, r, o, x, False)
        return
    if v[:1] == ("rg",):
        i = sym_of(v[1])
        if i is None and isinstance(v[1], (tuple, Lin)):
            occ = []
            uses(v[1], occ)
            i = occ[0][0] if len({x for x, _ in occ}) == 1 else None
        if i is not None:
            ok = v[2] == ("loc", i) or (v[2] == ("lhsloc",) and len(r.rhs) == 1) or (isinstance(v[2], tuple) and v[2][:2] == ("call", "operator()") and v[2][2] == ("loc", i)
                                                                                    and same_piece(v[1], v[2]))
            rep.check(ok, "reg-value", r.name, r.loc, "the value of symbol %d carries the region %s" % (i, show(v[2])))
        elif v[1] is True:
            ok = v[2] == ("lhsloc",) or isinstance(v[2], tuple) and v[2][:1] in (("loc",), ("hull",))
            rep.check(ok, "reg-flag", r.name, r.loc, "the flag carries the region %s" % show(v[2]))
        return
    for x in v[1:]:
        nested(db, rep, G, r, o, x, top and v[:1] in (("call",),) or v[:1] == ("list",) and False)


def same_piece(val, reg):
    """substr(a, n) and region(a, n) take the same piece"""
    for x in subterms(val):
        if isinstance(x, tuple) and x[:2] == ("call", "substr"):
            return list(map(repr, x[3:])) == list(map(repr, reg[3:]))
    return False


def ctor_last(db, v):
    """names of the last constructor parameter of T"""
    if not hasattr(db, "_ctors"):
        db._ctors = Ctors(db)
    out = set()
    rec = db.records.get(v[1])
    for c in ctor_fns(db, rec) if rec is not None else ():
        if c.params:
            out.add(c.params[-1]["d"].n)
    return out


def span(reg, n):
    """(first, last) symbol of a region, or None"""
    if reg == ("lhsloc",):
        return (1, n)
    if isinstance(reg, tuple) and reg[:1] == ("loc",):
        return (reg[1], reg[1])
    if isinstance(reg, tuple) and reg[:1] == ("hull",):
        ss = [span(x, n) for x in reg[1]]
        if None in ss:
            return None
        return (min(a for a, _ in ss), max(b for _, b in ss))
    return None


def covers(G, r, reg, v):
    """the region of the result of a rule: the whole rule, or all of it but a clause keyword in front"""
    if reg == ("lhsloc",):
        return True
    s = span(reg, len(r.rhs))
    if s is None:
        return False
    if s == (1, len(r.rhs)):
        return True
    # a clause keyword before the element (WHERE, AUTHORIZATION) belongs to the clause
    return s[1] == len(r.rhs) and s[0] == 2 and G.text(r.rhs[0]) is not None and len(r.rhs) > 1 and not G.typed(r.rhs[0])


def made_of(G, r, reg, v):
    occ = []
    uses(v[2:-1], occ)
    toks = set()
    for x in subterms(v[2:-1]):
        if isinstance(x, tuple) and x[:1] == ("rg",) and x[2] is not None:
            s = span(x[2], len(r.rhs))
            if s:
                toks |= set(s)
    ix = {i for i, _ in occ} | toks
    s = span(reg, len(r.rhs))
    if s is None:
        return False
    if not ix:
        return True
    return s == (min(ix), max(ix)) or (s[0] <= min(ix) and s[1] >= max(ix) and (reg == ("lhsloc",)))


def hulls(db, rep):
    fs = [f for f in db.by_q.get("mizugaki::ast::operator|", []) if len(f.params) == 2 and strip(f.params[0]["t"]).endswith("node_region")]
    if not fs:
        raise Broken("no union of regions")
    f = fs[0]
    from aval import term
    INV = Lin((), 2 ** 64 - 1)

    def model(I, fr, n, name, rv, av, st):
        if name in ("std::min", "std::max") and len(av) == 2:
            return [((name,) + tuple(sorted(av, key=repr)), st)]
        if name and name.endswith("node_region::operator bool"):
            b = rv.f["begin"] == INV or rv.f["end"] == INV
            return [(not b, st)]
        return None

    class I2(Interp):
        pass
    loc = f.loc()

    def reg(b, e):
        return Obj("mizugaki::ast::node_region", {"begin": b, "end": e})

    a, b = reg(term("ab"), term("ae")), reg(term("bb"), term("be"))
    inv = reg(INV, INV)
    for nm, x, y, want in (("valid|valid", a, b, None), ("invalid|valid", inv, b, b), ("valid|invalid", a, inv, a), ("invalid|invalid", inv, inv, inv)):
        I = Interp(db, inline=lambda g: True, model=model)
        outs = [o for o in I.run(f, [x, y]) if o[0] == "ret"]
        if not outs:
            raise Broken("the union of regions cannot be evaluated")
        for _, v, _ in outs:
            v = as_region(v)
            if want is not None:
                ok = v is not None and v.f == want.f
            else:
                ok = v is not None and v.f["begin"] == ("std::min",) + tuple(sorted((term("ab"), term("bb")), key=repr)) \
                    and v.f["end"] == ("std::max",) + tuple(sorted((term("ae"), term("be")), key=repr))
            rep.check(ok, "reg-hull", "operator|(%s)" % nm, loc, "the union of the regions is %s" % (show(v) if v is not None else "unknown"))
    subregion(db, rep)


def as_region(v):
    if isinstance(v, tuple) and v[:1] in (("new",), ("init",)) and len(v) >= 4 and v[0] == "new":
        return Obj("mizugaki::ast::node_region", {"begin": v[2], "end": v[3]})
    if isinstance(v, Obj) and set(v.f) >= {"begin", "end"}:
        return v
    return None


def subregion(db, rep):
    """region(offset, length): from begin + offset, length positions, but never beyond end; by evaluation on constants of every order type"""
    fs = [f for f in db.by_q.get("mizugaki::ast::node_region::operator()", []) if len(f.params) == 2]
    if not fs:
        raise Broken("no sub region")
    f = fs[0]
    N = 2 ** 64 - 1

    def consts(v):
        if isinstance(v, Lin):
            return [v.const()]
        if isinstance(v, tuple):
            return [c for x in v for c in consts(x)] if v and v[0] in ("list", "ilist", "init", "new") else []
        return []

    def model(I, fr, n, name, rv, av, st):
        if name in ("std::min", "std::max") and av:
            cs = [c for x in av for c in consts(x)]
            if cs and None not in cs:
                return [(Lin((), (min if name == "std::min" else max)(cs)), st)]
        return None
    for b, e in ((10, 20), (10, 10)):
        for off in (0, 3, 10, 15):
            for ln in (0, 4, 10, 30, N):
                I = Interp(db, inline=lambda g: True, model=model)
                me = Obj("mizugaki::ast::node_region", {"begin": Lin((), b), "end": Lin((), e)})
                outs = [o for o in I.run(f, [Lin((), off), Lin((), ln)], this=me) if o[0] == "ret"]
                wb, we = min(b + off, e), e if ln == N else min(b + off + ln, e)
                for _, v, _ in outs:
                    v = as_region(v)
                    got = (v.f["begin"], v.f["end"]) if v is not None else None
                    rep.check(got is not None and got == (Lin((), wb), Lin((), we)), "reg-hull", "[%d, %d)(%d, %s)" % (b, e, off, ln if ln != N else "to the end"), f.loc(),
                              "the sub region is %s instead of [%d, %d)" % (show(v) if v is not None else "unknown", wb, we))


def location(db, rep):
    """@$ of a rule: first symbol's begin .. last symbol's end (the default of bison's skeleton)"""
    fs = db.by_q.get("mizugaki::parser::sql_parser_generated::parse", [])
    f = fs[0]
    first = last = None
    for n in walk(f.body):
        if n["k"] == "Bin" and n["op"] == "=" and n["c"][0]["k"] == "Mem" and n["c"][0]["d"].n in ("begin", "end"):
            names = [x["d"].n for x in walk(n["c"][0]) if x["k"] == "Mem" and x.get("d") is not None]
            if "location" not in names and not any(x["k"] == "Ref" and x.get("d") is not None and "location" in str(x["d"].t) for x in walk(n["c"][0])):
                pass
            src = n["c"][1]
            idx = [x for x in walk(src) if x["k"] == "Op" and x["op"] == "[]"]
            mem = [x["d"].n for x in walk(src) if x["k"] == "Mem" and x["d"].n in ("begin", "end")]
            for x in idx:
                i = x["c"][1]
                while i["k"] in ("ICast", "Cast"):
                    i = i["e"]
                iv = i.get("v") if i["k"] == "Int" else ("var" if i["k"] in ("Ref", "Mem") else "?")
                if n["c"][0]["d"].n == "begin" and iv == 1:
                    first = mem
                if n["c"][0]["d"].n == "end" and iv == "var":
                    last = mem
    rep.check(first == ["begin"], "reg-location", "begin of a rule", "src/mizugaki/parser/sql_parser.yy", "the location of a rule does not begin where its first symbol begins")
    rep.check(last == ["end"], "reg-location", "end of a rule", "src/mizugaki/parser/sql_parser.yy", "the location of a rule does not end where its last symbol ends")


# ------------------------------------------------------------------------------------------- G04: limits on the number of elements

LIMIT_BY_TYPE = {
    "mizugaki::ast::statement::table_element": "table_element_definition", "ast::statement::table_element": "table_element_definition",
    "ast::statement::column_constraint_definition": "column_constraint_definition", "ast::statement::storage_parameter": "storage_parameter",
    "ast::statement::set_element": "set_clause", "ast::statement::privilege_action": "privilege_action", "ast::statement::privilege_object": "privilege_object",
    "ast::statement::privilege_user": "privilege_user", "ast::query::with_element": "with_element", "ast::query::select_element": "select_element",
    "ast::table::expression": "table_reference", "ast::query::grouping_element": "grouping_element", "ast::common::sort_element": "ordering_element",
    "ast::type::field_definition": "field_definition", "ast::scalar::case_when_clause": "when_clause",
    "ast::common::regioned<ast::common::chars>": "string_literal_concatenation", "ast::name::simple": "column_reference",
}


def element_type(t):
    t = t.replace("::mizugaki::", "").replace("mizugaki::", "")
    m = re.match(r"^(?:node_vector|element_vector|std::vector)<(.*)>$", t.strip())
    return m.group(1).strip() if m else None


def flows(rules):
    """nonterminal -> node types its value becomes a direct argument of, or 'success'"""
    direct, passed = {}, {}
    for r, outs in rules:
        for o in outs if r.stmts is not None else ():
            if o.kind != "break":
                continue
            if isinstance(o.lhs, tuple) and o.lhs[:1] == ("sym",) and 0 < o.lhs[1] <= len(r.rhs):
                passed.setdefault(r.rhs[o.lhs[1] - 1], set()).add(r.lhs)
            for v in subterms(o.lhs):
                if isinstance(v, tuple) and v[:1] in (("node",), ("new",)) and len(v) > 2:
                    for a in v[2:]:
                        i = sym_of(a)
                        if i and i <= len(r.rhs):
                            direct.setdefault(r.rhs[i - 1], set()).add(v[1])
            for e in o.eff:
                if e[0] == "call" and e[1] == "success":
                    for a in e[2:]:
                        i = sym_of(a)
                        if i:
                            direct.setdefault(r.rhs[i - 1], set()).add("success")
    for r, _ in rules:
        if r.stmts is None and r.rhs:
            passed.setdefault(r.rhs[0], set()).add(r.lhs)

    def of(nt, seen=()):
        out = set(direct.get(nt, ()))
        for p in passed.get(nt, ()):
            if p not in seen and p != nt:
                out |= of(p, seen + (nt,))
        return out
    return of


def limits(db, rep):
    rep.explanation = ("Every action that lengthens a list is evaluated on all its paths: the longer list must be submitted to the limit of the kind of its elements, and the "
                       "parse abandoned if it is refused. The comparison with the limit is evaluated for every order of limit and size.")
    rep.rule("lim-checked", "a list that grows is submitted to its limit, and the action aborts when it is refused", 30)
    rep.rule("lim-kind", "the limit is that of the kind of the elements", 30)
    rep.rule("lim-place", "the refusal is reported where the list continues", 30)
    rep.rule("lim-all", "every limit that can be configured applies to some list", 18)
    rep.rule("lim-exact", "a list is refused exactly if its limit is not zero and its size exceeds it", 8)
    rep.rule("lim-size", "what is compared is the size of the list, with the limit of its kind", 8)
    G, rules = evaluate(db)
    of = flows(rules)
    seen = set()
    for r, outs in rules:
        grown = set()
        for o in outs:
            for v in (o.lhs,) + tuple(e[3] for e in o.eff if e[0] == "setmem"):
                if isinstance(v, tuple) and v[:1] == ("list",) and len(v) > 2 and isinstance(v[1], tuple) and v[1][:1] == ("all",):
                    grown.add(v)
        if not grown:
            continue
        for o in outs:
            vals = [e for e in o.eff if e[:2] == ("call", "validate")]
            for v in grown:
                if o.lhs != v:
                    continue
                mine = [e for e in vals if any(x == v for x in e[2:])]
                asked = [(c, b) for c, b in o.cond if isinstance(c, tuple) and c[:2] == ("call", "validate") and any(x == v for x in c[2:])]
                if o.kind == "break":
                    rep.check(bool(mine) and all(b is True for _, b in asked) and bool(asked), "lim-checked", r.name, r.loc,
                              "the list grows without a check of its limit" if not mine else "the parse goes on after the limit was exceeded")
                elif asked:
                    rep.check(all(b is False for _, b in asked), "lim-checked", r.name + " (refused)", r.loc, "the parse is abandoned although the limit is respected")
                for e in mine:
                    loc, kind = e[3], e[5] if len(e) > 5 else None
                    et = element_type(G.nonterminals[r.lhs]["type"])
                    want = LIMIT_BY_TYPE.get(et)
                    uses_ = of(r.lhs)
                    if et == "ast::statement::statement":
                        want = "statement" if "success" in uses_ else "schema_element_definition"
                    if et == "ast::scalar::expression":
                        want = "row_expression" if uses_ and all(u.endswith("::table_value_constructor") for u in uses_) else "scalar_expression"
                    if want is None:
                        raise Broken("no limit is known for a list of %s" % et)
                    got = kind[1].rsplit("::", 1)[-1] if isinstance(kind, tuple) and kind[:1] == ("enum",) else None
                    seen.add(got)
                    rep.check(got == want, "lim-kind", r.name, r.loc, "the list of %s is checked against the limit of %s" % (want, got))
                    s = span(loc, len(r.rhs))
                    rep.check(s is not None and s[0] > 1, "lim-place", r.name, r.loc, "the excess is reported at %s" % show(loc))
    kinds = [c["n"] for n, e in db.enums.items() if n.endswith("parser::sql_parser_element_kind") for c in e["c"]]
    for k in kinds:
        rep.check(k in seen, "lim-all", k, "src/mizugaki/parser/sql_parser.yy", "no list is checked against the limit of %s" % k)
    exact(db, rep)


def exact(db, rep):
    fs = [f for f in db.by_q.get("mizugaki::parser::sql_driver::validate_count", []) if f.body is not None]
    if not fs:
        raise Broken("no comparison with a limit")
    f = fs[0]

    def mk(limit, present):
        def model(I, fr, n, name, rv, av, st):
            if name is None:
                return None
            sh = name.rsplit("::", 1)[-1]
            if sh in ("operator bool", "has_value") and "optional_ptr" in name:
                return [(present, st)]
            if sh in ("operator[]", "get", "at") and "sql_parser_element_map" in name:
                return [(limit, st.effect(("kind", tuple(av))))]
            if sh == "error" and name.startswith("mizugaki::parser"):
                return [(("void",), st.effect(("error", av[0] if av else None, av[1] if len(av) > 1 else None)))]
            return None
        return model
    for limit, size, present, ok in ((0, 0, True, True), (0, 5, True, True), (1, 0, True, True), (1, 1, True, True), (1, 2, True, False), (3, 2, True, True), (3, 3, True, True),
                                     (3, 4, True, False), (3, 1000, True, False), (1, 2, False, True)):
        I = Interp(db, inline=lambda g: g.q.startswith("mizugaki::parser::"), model=mk(Lin((), limit), present))
        outs = [o for o in I.run(f, [("where",), Lin((), size), ("kind",)]) if o[0] == "ret"]
        if not outs:
            raise Broken("validate_count cannot be evaluated")
        for _, v, st in outs:
            v = bool(v.const()) if isinstance(v, Lin) and v.const() is not None else v
            errs = [e for e in st.eff if e[0] == "error"]
            ks = [e for e in st.eff if e[0] == "kind"]
            good = v is ok and bool(errs) is (not ok) and (len(errs) < 2) and all(k[1] == (("kind",),) for k in ks)
            good = good and all(e[2] == ("where",) and isinstance(e[1], tuple) and e[1][1].endswith("::exceed_number_of_elements") for e in errs)
            rep.check(good, "lim-exact", "limit %s, size %d" % (limit if present else "absent", size), f.loc(),
                      "a list of size %d under the limit %s is %s, %d error(s) reported" % (size, limit if present else "(none)", "accepted" if v is True else "refused", len(errs)))
    n = 0
    for g in db.by_q.get("mizugaki::parser::sql_driver::validate", []):
        if g.body is None or not g.params or len(g.params) != 3 or "std::vector<" not in str(g.params[1].get("t")):
            continue
        n += 1

        def model2(I, fr, nd, name, rv, av, st):
            if name and name.endswith("::validate_count"):
                return [(("verdict",) + tuple(av), st)]
            if name and name.rsplit("::", 1)[-1] == "size" and not av:
                return [(("size", rv), st)]
            return None
        I = Interp(db, inline=lambda x: False, model=model2)
        for k, v, st in I.run(g, [("where",), ("elements",), ("kind",)]):
            if any(x == ("?",) or isinstance(x, tuple) and x[:2] == ("call", "?") for x in subterms(v)):
                continue  # the template itself, not an instance
            rep.check(v == ("verdict", ("where",), ("size", ("elements",)), ("kind",)), "lim-size", g.q + " #%d" % n, g.loc(), "the verdict is %s" % show(v))


# ------------------------------------------------------------------------------------------- G05: precedence and associativity

SCALAR = {"OR": 1, "AND": 2, "IS": 3.5, "BETWEEN": 4, "IN": 4, "LIKE": 4, "SIMILAR": 4, "OVERLAPS": 4, "NOT": 4, "=": 4, "<>": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4,
          "<@": 4, "@>": 4, "&&": 4, "+": 5, "-": 5, "||": 5, "*": 6, "/": 6, "%": 6, "AT": 8, "::": 8, ".": 8, "[": 8, "->": 8}
PREFIX = {"NOT": 3, "+": 7, "-": 7}
ASSOC = {1, 2, 5, 6}
QUERY = {"UNION": 1, "OUTER": 1, "EXCEPT": 1, "INTERSECT": 2}
JOIN = {"CROSS": 1, "JOIN": 1, "INNER": 1, "LEFT": 1, "RIGHT": 1, "FULL": 1, "NATURAL": 1, "UNION JOIN": 1, "CROSS_APPLY": 1, "OUTER_APPLY": 1, "CROSS APPLY": 1, "OUTER APPLY": 1, "APPLY": 1}


class Automaton:
    """the automaton with every lookahead spelled out (no default reductions)"""

    def __init__(self, db, G):
        p = os.path.join(db.gen, "lookaheads", "sql_parser.xml")
        if not os.path.exists(p):
            raise Broken("no report of lookaheads")
        auto = ET.parse(p).find("automaton")
        self.states = {}
        self.disabled = []
        for s in auto.findall("state"):
            items, tr, rd, dflt = [], {}, {}, None
            for i in s.iter("item"):
                items.append((int(i.get("rule-number")), int(i.get("dot"))))
            for t in s.iter("transition"):
                tr[t.get("symbol")] = (t.get("type"), int(t.get("state")))
            err = {e.get("symbol") for e in s.iter("error")}
            for x in s.iter("reduction"):
                if x.get("enabled") != "true":
                    self.disabled.append((int(s.get("number")), x.get("symbol"), x.get("rule")))
                    continue
                k = x.get("rule")
                k = int(k) if k.isdigit() else 0
                if x.get("symbol") == "$default":
                    dflt = k
                else:
                    rd[x.get("symbol")] = k
            self.states[int(s.get("number"))] = (items, tr, rd, dflt, err)

    def action(self, s, t):
        items, tr, rd, dflt, err = self.states[s]
        if t in tr and tr[t][0] == "shift":
            return ("shift", tr[t][1])
        if t in err:
            return ("error",)
        if t in rd:
            return ("reduce", rd[t])
        if dflt is not None:
            return ("reduce", dflt)
        return ("error",)


def family(G, nt):
    t = (G.nonterminals.get(nt) or {"type": ""})["type"]
    if re.search(r"node_ptr<ast::scalar::expression>$", t):
        return "scalar"
    if re.search(r"node_ptr<ast::query::(expression|query)>$", t):
        return "query"
    if re.search(r"node_ptr<ast::table::expression>$", t):
        return "table"
    return None


LEVELS = {"scalar": SCALAR, "query": QUERY, "table": JOIN}


def first_sets(G, nullable):
    F = {}
    ch = True
    while ch:
        ch = False
        for l, rhs, _, _ in G.rules.values():
            s = F.setdefault(l, set())
            n = len(s)
            for x in rhs:
                if x in G.nonterminals:
                    s |= F.get(x, set())
                else:
                    s.add(x)
                if x not in nullable:
                    break
            ch = ch or len(s) != n
    return F


def precedence(db, rep):
    rep.explanation = ("The LALR automaton bison builds from the grammar is searched: in every state in which an operator has its right operand and another operator follows, "
                       "the automaton must reduce or shift as the levels of the two operators say.")
    rep.rule("prec-state", "the operator that binds tighter takes the operand; equal ones group from the left", 250)
    rep.rule("prec-conflict", "the grammar has no conflict that a default would resolve", 1)
    rep.rule("prec-level", "every operator of the grammar has a level", 30)
    G, rules = evaluate(db)
    A = Automaton(db, G)
    nullable = nullables(G)
    F = first_sets(G, nullable)
    rep.check(not A.disabled, "prec-conflict", "automaton of %d states" % len(A.states), "src/mizugaki/parser/sql_parser.yy",
              "conflict(s) resolved by default: %s" % ", ".join("state %d on %s (rule %s: %s)" % (s, t, r, G.rules[int(r)][0] if r.isdigit() else "accept") for s, t, r in A.disabled[:4]))
    by = {r.no: r for r, _ in rules}
    level = {}
    nodes = {r.no: outs for r, outs in rules}

    def follow_words(seq):
        out = set()
        for x in seq:
            if x in G.nonterminals:
                out |= F.get(x, set())
                if x not in nullable:
                    return out
            else:
                out.add(x)
                return out
        return out

    def word(t):
        x = G.text(t)
        return x if x is not None else t.replace("_", " ") if t in G.terminals else None
    infix = {"scalar": set(), "query": set(), "table": set()}
    for no, r in by.items():
        fam = family(G, r.lhs)
        if fam is None or len(r.rhs) < 2:
            continue
        L = LEVELS[fam]
        f0 = family(G, r.rhs[0])
        if f0 == fam:
            ts = follow_words(r.rhs[1:])
            ls = {L.get(word(t)) for t in ts}
            if ls == {None} or fam == "scalar" and word(r.rhs[1]) == "AS":
                continue
            if None in ls:
                rep.bad("prec-level", r.name, r.loc, "the operator %s has no level" % ", ".join(sorted(t for t in ts if L.get(word(t)) is None)))
                continue
            rep.ok("prec-level", r.name, r.loc)
            level[no] = (fam, max(ls))
            infix[fam] |= ts
        elif fam == "scalar" and word(r.rhs[0]) in PREFIX and family(G, r.rhs[-1]) == fam:
            level[no] = (fam, PREFIX[word(r.rhs[0])])
            rep.ok("prec-level", r.name, r.loc)
    for s, (items, tr, rd, dflt, err) in sorted(A.states.items()):
        for no, dot in items:
            if no not in level or dot != len(by[no].rhs):
                continue
            fam, l1 = level[no]
            r = by[no]
            if fam == "scalar" and family(G, r.rhs[-1]) != "scalar":
                continue
            for t in sorted(infix[fam]):
                l2 = LEVELS[fam][word(t)]
                a = A.action(s, t)
                if a[0] == "error":
                    if l1 in ASSOC and l2 in ASSOC and l2 <= l1 and fam == "scalar":
                        rep.bad("prec-state", "%s before %s" % (r.name, t), r.loc, "%s cannot follow %s" % (t, r.name))
                    continue
                want = "shift" if l2 > l1 else "reduce"
                ok = a[0] == want and (want == "shift" or a[1] == no)
                rep.check(ok, "prec-state", "%s before %s (state %d)" % (r.name, t, s), r.loc,
                          "after the operand of '%s', %s %s, so the operators group the wrong way" % (r.name, t, "is taken into it" if a[0] == "shift" else "ends it"))


# ------------------------------------------------------------------------------------------- G06: outcome of a parse

def outcome(db, rep):
    rep.explanation = ("All paths of all actions: which report success, which report an error, which abandon the parse; and all paths of the report of a syntax error.")
    rep.rule("out-success", "success is reported when the whole text was accepted, and only then", 2)
    rep.rule("out-abort", "a parse is abandoned exactly when an error was reported", 15)
    rep.rule("out-recover", "no rule continues after a syntax error", 1)
    rep.rule("out-report", "a syntax error is reported exactly once, at the place of the unexpected token", 12)
    rep.rule("out-code", "the code of the report is that of the unexpected token", 10)
    rep.rule("out-byte", "a byte above 0x7F is never taken for a small (negative) number by the parser", 50)
    rep.rule("out-contextual", "the scanner's contextual keywords are those the grammar takes for identifiers", 10)
    G, rules = evaluate(db)
    start = next(rhs[0] for no, (lhs, rhs, _, _) in G.rules.items() if no == 0)
    for r, outs in rules:
        rep.check("error" not in r.rhs, "out-recover", r.name, r.loc, "the rule continues after a syntax error") if "error" in r.rhs else None
        for o in outs:
            suc = [e for e in o.eff if e[:2] == ("call", "success")]
            err = [e for e in o.eff if e[:2] == ("call", "error")]
            refused = [c for c, b in o.cond if isinstance(c, tuple) and c[:2] == ("call", "validate") and b is False]
            if r.lhs == start:
                rep.check(len(suc) == 1 and r.rhs and (G.terminals.get(r.rhs[-1]) or {}).get("num") == 0 and o.kind == "break", "out-success", r.name, r.loc, "the accepted text is not reported as a success")
                rep.check(suc and any(sym_of(a) == 1 for a in suc[0][2:]), "out-success", r.name + " (value)", r.loc, "the statements do not reach the result")
            elif suc:
                rep.bad("out-success", r.name, r.loc, "success is reported before the end of the text")
            if o.kind.startswith("goto"):
                rep.check(o.kind == "goto yyabortlab" and (len(err) == 1) != bool(refused), "out-abort", r.name, r.loc,
                          "the parse is abandoned without a report" if not err and not refused else "more than one error is reported, or the parse goes on")
            elif err:
                rep.bad("out-abort", r.name, r.loc, "an error is reported, but the parse goes on to succeed")
    rep.ok("out-recover", "all %d rules" % len(rules))
    syntax(db, rep)
    bytes_(db, rep)
    contextual(db, rep, G, rules)


CODES = {"S_ERROR": "invalid_character", "S_UNCLOSED_BLOCK_COMMENT": "unexpected_eof", "S_REGULAR_IDENTIFIER_RESTRICTED": "invalid_token",
         "S_DELIMITED_IDENTIFIER_RESTRICTED": "invalid_token", "S_YYEOF": "unexpected_eof", "S_END_OF_FILE": "unexpected_eof"}


def syntax(db, rep):
    fs = [f for f in db.by_q.get("mizugaki::parser::sql_parser_generated::report_syntax_error", []) if f.body is not None]
    if not fs:
        raise Broken("no report of syntax errors")
    f = fs[0]

    def model(I, fr, n, name, rv, av, st):
        if name is None:
            return None
        sh = name.rsplit("::", 1)[-1]
        if sh == "error" and name.startswith("mizugaki::parser::sql_driver"):
            return [(("void",), st.effect(("error",) + tuple(av[:2])))]
        if sh == "location" and not av:
            return [(("where",), st)]
        if sh == "token" and not av:
            return [(("symbol",), st)]
        if sh in ("operator|", "operator()") and "node_region" in name:
            return [(("?region",), st)]
        return None
    I = Interp(db, inline=lambda g: g.q.startswith("mizugaki::parser::sql_parser_generated::") and not g.q.endswith("::error") and "expected" not in g.q and "symbol_name" not in g.q
               and "collapse" not in g.q, model=model)
    seen = set()
    for k, v, st in I.run(f, [("ctxt",)]):
        if k == "throw":
            continue
        errs = [e for e in st.eff if e[0] == "error"]
        sym = None
        for c, b in st.cond:
            if b is True and isinstance(c, tuple) and c[:1] == ("==",):
                for x in c[1:]:
                    if isinstance(x, tuple) and x[:1] == ("enum",):
                        sym = x[1].rsplit("::", 1)[-1]
        seen.add(sym)
        rep.check(len(errs) == 1, "out-report", "%s on the path %s" % (sym or "other token", len(st.cond)), f.loc(), "%d errors are reported for one syntax error" % len(errs))
        for e in errs:
            rep.check(e[2] == ("where",), "out-report", "place of %s" % (sym or "other token"), f.loc(), "the error is reported at %s" % show(e[2]))
            code = e[1][1].rsplit("::", 1)[-1] if isinstance(e[1], tuple) and e[1][:1] == ("enum",) else None
            rep.check(code == CODES.get(sym, "unexpected_token"), "out-code", sym or "other token", f.loc(), "the code of %s is %s" % (sym or "another token", code))
    for s in CODES:
        if s == "S_END_OF_FILE":
            continue
        rep.check(s in seen or s == "S_YYEOF" and "S_END_OF_FILE" in seen, "out-code", s + " is told apart", f.loc(), "%s is not told apart from other tokens" % s)


def plain(n):
    while n["k"] in ("ICast", "Paren"):
        n = n["e"]
    return strip(n.get("t", "") or "").replace("const ", "").strip() == "char" and n["k"] not in ("Char", "Int", "Cast")


def bytes_(db, rep):
    """a plain char is ordered against something only together with the other bound"""
    for f in sorted((f for f in db.fns.values() if f.q.startswith("mizugaki::parser::") and f.body is not None and f.loc().startswith("src/mizugaki/parser/")), key=lambda f: f.loc()):
        lo, hi = set(), set()
        for n in walk(f.body):
            if n["k"] == "Bin" and n["op"] in ("<", "<=", ">", ">="):
                for i, c in enumerate(n["c"]):
                    if plain(c):
                        up = (i == 0) == (n["op"] in ("<", "<="))
                        (hi if up else lo).add((where_(c), n.get("l")))
        bad = {x for x, _ in hi} - {x for x, _ in lo}
        rep.check(not bad, "out-byte", f.q, f.loc(), "a byte is compared as a signed number (line %s): bytes above 0x7F are less than it" % ", ".join(sorted({str(l) for x, l in hi if x in bad})))


def where_(n):
    out = []
    for x in walk(n):
        if x["k"] in ("Ref", "Mem") and x.get("d") is not None:
            out.append(x["d"].n)
        if x["k"] == "Int":
            out.append(str(x.get("v")))
    return tuple(out)


def contextual(db, rep, G, rules):
    """words the grammar takes for an identifier although they are keywords = words the scanner calls contextual"""
    fs = [f for f in db.by_q.get("mizugaki::parser::is_contextual_keyword", []) if f.body is not None]
    if not fs:
        raise Broken("no list of contextual keywords")
    f = fs[0]
    theirs = set()
    todo, seen = [f.body], set()
    while todo:
        for n in walk(todo.pop()):
            d = n.get("d")
            if n["k"] != "Ref" or d is None:
                continue
            if d.k == "EnumConstant" and d.q.rsplit("::", 1)[-1].startswith("S_"):
                theirs.add(d.q.rsplit("::", 1)[-1])
            g = db.vars.get(d.u)
            if g is not None and d.u not in seen and "init" in g:
                seen.add(d.u)
                todo.append(g["init"])
    sym = {}
    for n, e in db.enums.items():
        if n.endswith("sql_parser_generated::symbol_kind::symbol_kind_type") or n.endswith("symbol_kind::symbol_kind_type"):
            for c in e["c"]:
                sym.setdefault(c["v"], c["n"])
    if not sym:
        raise Broken("no symbol kinds")
    # nonterminals all of whose alternatives are single typed tokens with keyword texts, and which are taken where a regular identifier is
    mine = set()
    for r, outs in rules:
        if len(r.rhs) == 1 and r.rhs[0] in G.terminals and (G.text(r.rhs[0]) or "").replace("_", "").isalpha() \
                and (is_name(outs, 1) or (r.stmts is None or any(o.lhs == ("sym", 1) for o in outs)) and into_name(G, rules, r.lhs)):
            mine.add(sym.get(G.terminals[r.rhs[0]]["sym"]))
    for s in sorted(mine | theirs, key=str):
        rep.check(s in mine and s in theirs, "out-contextual", str(s), f.loc(),
                  "%s is %s" % (s, "an identifier for the grammar, but not called contextual" if s in mine else "called contextual, but the grammar does not take it for an identifier"))


def is_name(outs, i):
    return any(isinstance(v, tuple) and v[:2] == ("call", "to_regular_identifier") and any(sym_of(a) == i for a in v[2:]) for o in outs for v in subterms(o.lhs))


def into_name(G, rules, nt, seen=()):
    """whether the text of nt becomes an identifier"""
    for r, outs in rules:
        if nt not in r.rhs or r.lhs == nt or r.lhs in seen:
            continue
        i = r.rhs.index(nt) + 1
        for o in outs:
            if isinstance(o.lhs, tuple) and o.lhs[:1] == ("sym",) and o.lhs[1] == i and into_name(G, rules, r.lhs, seen + (nt,)):
                return True
        if is_name(outs, i):
            return True
        if r.stmts is None and into_name(G, rules, r.lhs, seen + (nt,)):
            return True
    return False


CHECKS = {"G01": completeness, "G02": keywords, "G03": regions, "G04": limits, "G05": precedence, "G06": outcome}

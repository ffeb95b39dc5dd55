"""The grammar (bison's XML report) and the actions of the generated parser, as seen by the type checker."""
import os
import xml.etree.ElementTree as ET

from mz import Broken, walk
from flow import arms


class Grammar:
    def __init__(self, db):
        p = os.path.join(db.gen, "mizugaki", "parser", "sql_parser.xml")
        if not os.path.exists(p):
            raise Broken("no grammar report")
        t = ET.parse(p)
        g = t.find("grammar")
        self.automaton = t.find("automaton")
        self.rules = {}
        for r in g.find("rules"):
            rhs = [s.text for s in r.find("rhs") if s.tag == "symbol"]
            self.rules[int(r.get("number"))] = (r.find("lhs").text, rhs, r.get("usefulness"), r.get("percent_prec"))
        self.terminals = {}
        for x in g.find("terminals"):
            self.terminals[x.get("name")] = {"num": int(x.get("token-number")), "sym": int(x.get("symbol-number")), "type": x.get("type") or "",
                                             "useful": x.get("usefulness") == "useful", "prec": x.get("prec"), "assoc": x.get("assoc")}
        self.nonterminals = {}
        for x in g.find("nonterminals"):
            self.nonterminals[x.get("name")] = {"sym": int(x.get("symbol-number")), "type": x.get("type") or "", "useful": x.get("usefulness") == "useful"}
        e = None
        for n, x in db.enums.items():
            if n.endswith("sql_parser_generated::token::token_kind_type"):
                e = x
        if e is None:
            raise Broken("no token enumeration")
        self.ident = {}   # token number -> enumerator
        for c in e["c"]:
            self.ident.setdefault(c["v"], c["n"])
        self.by_ident = {}
        for n, x in self.terminals.items():
            i = self.ident.get(x["num"])
            if i:
                self.by_ident[i] = n

    def text(self, name):
        """the text of a token with a literal alias, or None"""
        if not name.startswith('"'):
            return None
        s = name[1:-1].replace('\\"', '"').replace("\\\\", "\\")
        if s.startswith("<") and s.endswith(">") and len(s) > 2:
            return None
        return s

    def typed(self, name):
        x = self.terminals.get(name) or self.nonterminals.get(name)
        return bool(x and x["type"])


def actions(db):
    """bison rule number -> (statements of the action, line in the .yy file)"""
    fs = db.by_q.get("mizugaki::parser::sql_parser_generated::parse", [])
    if not fs:
        raise Broken("no generated parser")
    f = fs[0]
    sw = [n for n in walk(f.body) if n["k"] == "Switch"]
    best = max(sw, key=lambda s: sum(1 for c in s["body"].get("c", []) if c["k"] in ("Case",)))
    out = {}
    for vals, _, stmts, labs in arms(best):
        for v in vals:
            if v is not None:
                out[v - 1] = (stmts, labs[0].get("l", 0))
    return f, out

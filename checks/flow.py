"""Small control flow helpers over the statement trees."""
from mz import walk, children, strip

NORETURN = {"std::abort", "abort", "std::terminate", "exit", "std::exit", "std::_Exit", "takatori::util::throw_exception", "takatori::util::fail", "__builtin_unreachable",
            "__assert_fail"}


def noreturn_call(db, n):
    if n["k"] != "Call" or n.get("d") is None:
        return False
    d = n["d"]
    if d.q in NORETURN:
        return True
    f = db.fn_of(d)
    if f is None or f.body is None:
        return False
    memo = getattr(db, "_noret", None)
    if memo is None:
        memo = db._noret = {}
    if f not in memo:
        memo[f] = False
        memo[f] = not can_return(db, f)
    return memo[f]


def can_return(db, f):
    if any(n["k"] == "Return" for n in walk(f.body, into_lambda=False)):
        return True
    return completes(db, f.body)


def completes(db, s):
    """can control leave the statement s at its end (not by return/throw/break/continue)"""
    if s is None:
        return True
    k = s["k"]
    if k in ("Return", "Throw", "Break", "Continue", "Goto"):
        return False
    if k == "Block":
        return all(completes(db, c) for c in s["c"])
    if k == "If":
        if s.get("constexpr") and s.get("cond", {}).get("cv") is not None:
            if s["cond"]["cv"]:
                return completes(db, s["then"])
            return completes(db, s.get("else"))
        return completes(db, s["then"]) or completes(db, s.get("else"))
    if k == "Call":
        return not noreturn_call(db, s)
    if k in ("While", "For", "Do"):
        c = s.get("cond")
        if k == "Do" and not completes(db, s["body"]) and not any(x["k"] in ("Break", "Continue") for x in loop_level(s["body"])):
            return False
        forever = c is None or (c["k"] == "Bool" and c["v"])
        if k == "Do" and c is not None and c["k"] == "Bool" and not c["v"]:
            forever = False
        if forever:
            return any(x["k"] == "Break" for x in loop_level(s["body"]))
        return True
    if k == "Try":
        return completes(db, s["body"]) or any(completes(db, c.get("body") or c) for c in s["c"])
    if k in ("Case", "Default"):
        return completes(db, s.get("sub"))
    if k == "Switch":
        if any(x["k"] == "Break" for x in loop_level(s["body"])):
            return True
        b = s["body"]
        if b["k"] == "Block" and b["c"] and not completes(db, b["c"][-1]) or (b["k"] == "Block" and not b["c"] and False):
            # the last arm does not fall out; is there a default or are all values covered?
            return not covers_all(db, s)
        return True
    return True


def loop_level(s):
    """nodes of s which belong to the same breakable construct (break statements of inner loops/switches excluded)"""
    stack = [s]
    while stack:
        x = stack.pop()
        yield x
        for c in children(x):
            if c["k"] in ("While", "For", "Do", "ForRange", "Switch", "Lambda"):
                continue
            stack.append(c)


def covers_all(db, sw):
    labels, default = arm_labels(sw)
    if default:
        return True
    return False


def arm_labels(sw):
    vals, default = [], False
    for x in walk_cases(sw["body"]):
        if x["k"] == "Case":
            vals.append(x)
        else:
            default = True
    return vals, default


def walk_cases(s):
    stack = [s]
    while stack:
        x = stack.pop()
        if x["k"] in ("Case", "Default"):
            yield x
        for c in reversed(list(children(x))):
            if c["k"] in ("Switch", "Lambda"):
                continue
            stack.append(c)


def case_value(c):
    """value of a case label"""
    if "v" in c and c["v"] is not None:
        return c["v"]
    return None


def arms(sw):
    """list of (set of label values, has_default, statements executed from that label on, fall-through included)"""
    body = sw["body"]
    items = []  # flat list of ('label', v/None) and ('stmt', s)
    for s in (body["c"] if body["k"] == "Block" else [body]):
        while s is not None and s["k"] in ("Case", "Default"):
            items.append(("label", s))
            s = s.get("sub")
        if s is not None:
            items.append(("stmt", s))
    out = []
    i = 0
    while i < len(items):
        if items[i][0] != "label":
            i += 1
            continue
        labs = []
        while i < len(items) and items[i][0] == "label":
            labs.append(items[i][1])
            i += 1
        stmts = []
        j = i
        while j < len(items):
            if items[j][0] == "stmt":
                stmts.append(items[j][1])
                if leaves(items[j][1]):
                    break
            j += 1
        out.append(({x.get("v") for x in labs if x["k"] == "Case"}, any(x["k"] == "Default" for x in labs), stmts, labs))
    return out


def leaves(s):
    k = s["k"]
    if k in ("Break", "Return", "Throw", "Continue"):
        return True
    if k == "Block":
        return any(leaves(c) for c in s["c"])
    if k == "If":
        return "else" in s and leaves(s["then"]) and leaves(s["else"])
    return False


# ------------------------------------------------------------------------------------------- constant specialisation

UNKNOWN = object()


def const_of(n, env):
    """value of an expression under env (a function expr -> value or UNKNOWN), else UNKNOWN"""
    v = env(n)
    if v is not UNKNOWN:
        return v
    k = n["k"]
    if k == "Bool" or k == "Int" or k == "Char":
        return n["v"]
    if n.get("cv") is not None:
        return n["cv"]
    if k == "Ref" and n.get("d") is not None and n["d"].k == "EnumConstant":
        return n["d"].v
    if k in ("Cast", "ICast") and "e" in n:
        return const_of(n["e"], env)
    if k == "Un" and n["op"] == "!":
        v = const_of(n["e"], env)
        return UNKNOWN if v is UNKNOWN else (not v)
    if k == "Bin" or (k == "Op" and len(n["c"]) == 2):
        a = const_of(n["c"][0], env)
        op = n["op"]
        if op == "&&":
            if a is not UNKNOWN and not a:
                return False
            b = const_of(n["c"][1], env)
            if b is not UNKNOWN and not b:
                return False
            return True if a is not UNKNOWN and b is not UNKNOWN else UNKNOWN
        if op == "||":
            if a is not UNKNOWN and a:
                return True
            b = const_of(n["c"][1], env)
            if b is not UNKNOWN and b:
                return True
            return False if a is not UNKNOWN and b is not UNKNOWN else UNKNOWN
        b = const_of(n["c"][1], env)
        if a is UNKNOWN or b is UNKNOWN:
            return UNKNOWN
        try:
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b,
                    ">=": lambda: a >= b, "+": lambda: a + b, "-": lambda: a - b}[op]()
        except KeyError:
            return UNKNOWN
    if k == "Cond":
        c = const_of(n["cond"], env)
        if c is UNKNOWN:
            return UNKNOWN
        return const_of(n["then"] if c else n["else"], env)
    return UNKNOWN


class Reach:
    """statements which can be executed when the scrutinee has a given value.  results: list of terminal nodes
    ('Return' nodes, the string 'end'), and all the visited expression statements."""

    def __init__(self, db, env):
        self.db = db
        self.env = env
        self.visited = []
        self.returns = []
        self.noreturn = []

    def run(self, s):
        """returns the set of ways control leaves s: 'next', 'break', 'continue', 'exit'"""
        if s is None:
            return {"next"}
        k = s["k"]
        if k == "Block":
            out = {"next"}
            for c in s["c"]:
                if "next" not in out:
                    break
                out.discard("next")
                out |= self.run(c)
            return out
        if k == "If":
            for x in ("init", "var"):
                if x in s:
                    self.visited.append(s[x])
            v = const_of(s["cond"], self.env) if "cond" in s else UNKNOWN
            if "cond" in s:
                self.visited.append(s["cond"])
            if v is UNKNOWN:
                return self.run(s["then"]) | self.run(s.get("else"))
            return self.run(s["then"] if v else s.get("else"))
        if k == "Switch":
            v = const_of(s["cond"], self.env)
            self.visited.append(s["cond"])
            out = set()
            if v is UNKNOWN:
                _, d = arm_labels(s)
                for (_, _, stmts, _) in arms(s):
                    out |= self._seq(stmts)
                if not d:
                    out.add("next")
            else:
                sel = None
                for a in arms(s):
                    if v in a[0]:
                        sel = a
                if sel is None:
                    for a in arms(s):
                        if a[1]:
                            sel = a
                out = self._seq(sel[2]) if sel is not None else {"next"}
            if "break" in out:
                out.discard("break")
                out.add("next")
            return out
        if k in ("Case", "Default"):
            return self.run(s.get("sub"))
        if k == "Return":
            self.returns.append(s)
            if "e" in s:
                self.visited.append(s["e"])
            return {"exit"}
        if k == "Throw":
            self.visited.append(s)
            self.noreturn.append(s)
            return {"exit"}
        if k == "Break":
            return {"break"}
        if k == "Continue":
            return {"continue"}
        if k in ("While", "For", "ForRange", "Do"):
            for x in ("init", "cond", "inc", "range"):
                if x in s:
                    self.visited.append(s[x])
            o = self.run(s["body"])
            o.discard("break")
            o.discard("continue")
            return o | {"next"}
        if k == "Try":
            o = self.run(s["body"])
            for c in s["c"]:
                o |= self.run(c.get("body"))
            return o
        self.visited.append(s)
        if noreturn_call(self.db, s):
            self.noreturn.append(s)
            return {"exit"}
        return {"next"}

    def _seq(self, stmts):
        out = {"next"}
        for c in stmts:
            if "next" not in out:
                break
            out.discard("next")
            out |= self.run(c)
        return out


def specialise(db, f, match, value):
    """runs f with every expression for which match(expr) holds standing for value"""
    r = Reach(db, lambda n: value if match(n) else UNKNOWN)
    r.ways = r.run(f.body)
    return r

"""Comparison of all paths of a function with the decision table it has to implement.

The atoms of the table are recognised in the path conditions; a path must have the outcome which the table gives to every completion of the atoms it
knows.  A path whose own conditions contradict its outcome is a violation; a path which does not test an atom that matters is one if every condition of
it is understood.  Paths with conditions or outcomes in a form which is not understood are counted as undecided and reported as notes, never as alarms."""
import itertools

from aval import Lin, show


def neg(c):
    """(condition, polarity) with != turned into =="""
    if isinstance(c, tuple) and len(c) == 3 and c[0] == "!=":
        return ("==",) + c[1:], False
    return c, True


def eq(c, a, b):
    """polarity of condition c as a test of a == b; None if it is something else.  a, b: values or predicates"""
    c, p = neg(c)
    if not (isinstance(c, tuple) and len(c) == 3 and c[0] == "=="):
        return None
    for x, y in ((c[1], c[2]), (c[2], c[1])):
        if (a(x) if callable(a) else x == a) and (b(y) if callable(b) else y == b):
            return p
    return None


def decide(rep, rid, construct, loc, paths, atoms, outcome, expect, opaque=("?",), fmt=str, irrelevant=None):
    """paths: results of Interp.run; atoms: name -> matcher(condition) -> polarity or None; outcome(kind, value, st) -> hashable;
    expect(truth) -> hashable or None (infeasible); irrelevant: conditions which are understood but are no test of an atom"""
    names = list(atoms)
    n = und = 0
    cases = []
    bad = None
    for kind, v, st in paths:
        if kind not in ("ret", "next"):
            continue
        truth, unknown = {}, 0
        contradiction = False
        for c, b in st.cond:
            for a, m in atoms.items():
                p = m(c)
                if p is not None:
                    val = b == p
                    if truth.get(a, val) != val:
                        contradiction = True
                    truth[a] = val
                    break
            else:
                unknown += not (irrelevant and irrelevant(c))
        if contradiction:
            continue
        free = [a for a in names if a not in truth]
        want = set()
        for combo in itertools.product((True, False), repeat=len(free)):
            t = dict(truth)
            t.update(zip(free, combo))
            x = expect(t)
            if x is not None:
                want.add(x)
        if not want:
            continue
        got = outcome(kind, v, st)
        n += 1
        cases.append(", ".join("%s%s" % ("" if b else "not ", a) for a, b in truth.items()) or "always")
        loops = any(e[0] in ("again", "loop") for e in st.eff)
        if got == opaque:
            und += 1
        elif got not in want:
            if loops or unknown and len(want) > 1:
                und += 1
            else:
                bad = bad or "if %s: the outcome is %s instead of %s" % (
                    ", ".join("%s%s" % ("" if b else "not ", a) for a, b in truth.items()) or "(always)", fmt(got), " or ".join(sorted(map(fmt, want))))
        elif len(want) > 1:
            if unknown or loops:
                und += 1
            else:
                bad = bad or "the outcome is %s without regard to whether %s" % (fmt(got), " / ".join(free))
    if bad is None and und:
        rep.notes.append("%s: %d of %d paths are not decided" % (construct, und, n))
    if bad is None:
        for c in cases or ["never"]:
            rep.ok(rid, "%s: %s" % (construct, c), loc)
    else:
        rep.bad(rid, construct, loc, bad)
    rep.count("paths", n)
    rep.count("paths not decided", und)
    return n

"""Vocabulary of the term table for the rules about term builders: negation in the handle, truth tables."""
from absint import *
import absint
import facts as F
from solverlib import where, size

NS = "yaga::terms::"
TT = NS + "Term_table::"
TM = NS + "Term_manager::"
TRUE_T, FALSE_T = ("glob", NS + "true_term"), ("glob", NS + "false_term")
ZERO_T = ("glob", NS + "zero_term")


def opp(v):
    if v == TRUE_T:
        return FALSE_T
    if v == FALSE_T:
        return TRUE_T
    if v[0] == "call" and v[1] == "opp":
        return v[2][0]
    return ("call", "opp", (v,))


def flat(v):
    """The items of an array/vector/span value that is known element by element, else None."""
    while v[0] in ("span", "view") and len(v) > 1 and isinstance(v[1], tuple):
        v = v[1]
    if v[0] == "agg":
        d = dict(v[2])
        if len(d) == 1:
            return flat(next(iter(d.values())))
        return None
    if v[0] == "vec" and not any(x[0] == "each" for x in v[1]):
        return list(v[1])
    if v[0] == "upd":
        base = flat(v[1])
        if base is None:
            return None
        base = list(base)
        for p, x in v[2]:
            p = [q for q in p if q != "_M_elems"]
            if len(p) != 1 or not isinstance(p[0], tuple) or p[0][0] != "at" or not isint(p[0][1]):
                return None
            i = cval(p[0][1])
            if not 0 <= i < len(base):
                return None
            base[i] = x
        return base
    if v[0] == "push":
        b = flat(v[1])
        return None if b is None else b + [v[2]]
    if v[0] == "at" and v[1][0] in ("agg", "vec", "upd") and isint(v[2]):
        return None
    return None


def elem(v):
    """Resolve array{..}[i] of known arrays."""
    if v[0] == "at" and len(v) == 3 and isint(v[2]):
        it = flat(v[1])
        if it is not None and 0 <= cval(v[2]) < len(it):
            return elem(it[cval(v[2])])
    return v


class TermHooks(Hooks):
    max_depth = 14
    max_steps = 400000
    merge_limit = 400
    names = ()          # further functions kept as names

    def __init__(self, R=None):
        self.R = R

    def keep(self, I, st):
        return frozenset((k, m) for k, m in st.rel.items() if m == EQ)

    def call(self, I, st, node, q, obj, args):
        s = q.split("::")[-1]
        if q == NS + "opposite_term" or q == TM + "opposite_term":
            return [(st, opp(elem(I.val(st, args[0]))))]
        if q.startswith(NS) and (s in ("is_negated", "positive_term", "index_of", "negative_term", "get_type", "get_kind") or q.startswith(TT)):
            vs = tuple(self.arr(I.val(st, a)) for a in args)
            return self.table(I, st, node, s, vs)
        if s in self.names and q.startswith(TM):
            return [(st, ("call", s, tuple(self.arr(I.val(st, a)) for a in args)))]
        return None

    def arr(self, v):
        it = flat(v)
        return elem(v) if it is None else ("vec", tuple(elem(x) for x in it))

    def table(self, I, st, node, s, vs):
        return [(st, ("call", s, vs))]


# ---------------------------------------------------------------- Boolean denotations
class Unknown(Exception):
    pass


def base_terms(v, acc):
    """The argument terms a Boolean expression is built from."""
    v = elem(v)
    if v in (TRUE_T, FALSE_T):
        return acc
    if v[0] == "call" and v[1] == "opp":
        return base_terms(v[2][0], acc)
    if v[0] == "call" and v[1] in BOOL_OPS:
        for x in args_of(v):
            base_terms(x, acc)
        return acc
    if v not in acc:
        acc.append(v)
    return acc


def args_of(v):
    out = []
    for a in v[2]:
        it = flat(a) if a[0] in ("vec", "agg", "upd", "push", "span") else None
        out += it if it is not None else [a]
    return out


BOOL_OPS = {
    "or_term": lambda a: any(a), "mk_or": lambda a: any(a), "mk_binary_or": lambda a: any(a),
    "mk_and": lambda a: all(a), "mk_binary_and": lambda a: all(a),
    "mk_implies": lambda a: (not a[0]) or a[1], "mk_iff": lambda a: a[0] == a[1], "mk_xor": lambda a: a[0] != a[1],
    "mk_bool_ite": lambda a: a[1] if a[0] else a[2],
}


def truth(v, env):
    v = elem(v)
    if v == TRUE_T:
        return True
    if v == FALSE_T:
        return False
    if v[0] == "call" and v[1] == "opp":
        return not truth(v[2][0], env)
    if v[0] == "call" and v[1] in BOOL_OPS:
        return BOOL_OPS[v[1]]([truth(x, env) for x in args_of(v)])
    if v in env:
        return env[v]
    raise Unknown(v)


def assignments(atoms, st):
    """All truth assignments of the atoms that agree with the equalities known on the path."""
    eqs = [(a, b) for (a, b), m in st.rel.items() if m == EQ]
    for bits in range(1 << len(atoms)):
        env = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
        good = True
        for a, b in eqs:
            try:
                if truth(a, env) != truth(b, env):
                    good = False
                    break
            except Unknown:
                continue
        if good:
            yield env


def is_bool_expr(v, params):
    """Built only from the parameters, constants and known connectives?"""
    return all(b in params for b in base_terms(v, []))


def more_children(st):
    """On this path: is the next child index below the number of children? (True/False/None, and whether
    only a later index is known to be past the end)"""
    more, late = None, False
    for (a, b), m in st.rel.items():
        for x, y, mm in ((a, b, m), (b, a, absint.FLIP[m])):
            if y[:2] == ("call", "size") and mentions_any(y, lambda t: isinstance(t, tuple) and t[:2] == ("call", "get_args")):
                if x[0] == "op" and len(x) == 4 and x[1] == "+" and isint(x[3]):
                    late = late or (cval(x[3]) > 0 and not mm & LT)
                elif mentions_any(x, lambda t: isinstance(t, tuple) and t[-1:] == ("next_child",)):
                    more = True if mm == LT else False if not mm & LT else more
    return more, late

"""'Every element of a container is visited exactly once' as a typestate over loop iterations."""
from absint import *
import absint
import facts as F
from solverlib import where, size


def strip_size(v):
    """Look through integer conversions around a size."""
    while v[0] == "call" and v[1] in ("static_cast",) and len(v[2]) == 1:
        v = v[2][0]
    return v


def covered(I, st, info, idx, cont):
    """Does the loop visit every index of container value `cont` once, `idx` being the index used in
    its body? True / False (definitely not) / None (shape not recognised)."""
    if info.get("partial"):
        return False
    cov = I.coverage(info)
    if cov is None:
        return None
    if cov[0] == "range":
        if idx != info["site"]:
            return False
        v = info["val"]
        return True if v == cont or v is None else None
    _, lo, op, hi, step, x = cov
    if lo[0] == "oneof":
        return None
    hi = strip_size(hi)
    sz = size(cont)
    if hi[0] == "min":
        return False if any(strip_size(h) == sz for h in hi[1:]) and any(strip_size(h) != sz for h in hi[1:]) else None
    if lo[0] == "it":
        if idx != info["site"]:
            return None
        b, e = ("b", 0), ("e", 0)
        hp = hi[2] if hi[0] == "it" else None
        if step == 1 and op in ("!=", "<") and hp is not None and hp[0] in ("b", "e") and lo[2][0] in ("b", "e"):
            return lo[2] == b and hp == e
        return None
    off = None
    if idx == x:
        off = 0
    elif idx == I.arith("+", x, C(-1)):
        off = -1
    else:
        return None
    if step == 1 and isint(lo):
        first = cval(lo) + off
        if op in ("<", "!=") and hi == sz and off == 0:
            return first == 0
        if op == "<=" and hi == I.arith("+", sz, C(-1)) and off == 0:
            return first == 0
        if op == "<=" and hi == sz and off == -1:
            return first == 0
        d = offset(hi, sz)
        if d is not None and op in ("<", "!=", "<="):
            last = d + (0 if op == "<=" else -1) + off      # relative to size
            return first == 0 and last == -1
        return None
    if step == -1:
        d = offset(lo, sz)
        if d is None or not isint(hi):
            return None
        last = cval(hi) + {">": 1, ">=": 0, "!=": 1}.get(op, 99) + off
        return d + off == -1 and last == 0
    if step == 2:
        return False
    return None


def offset(v, sz):
    """v == sz + d -> d"""
    if v == sz:
        return 0
    if v[0] == "op" and len(v) == 4 and v[1] == "+" and v[2] == sz and isint(v[3]):
        return cval(v[3])
    return None


class EachHooks(Hooks):
    """auto = (done containers, ((site, count), ...)). Subclasses call self.visit(I, st, node, cont, idx)."""

    max_depth = 6

    def __init__(self, R, rule):
        self.R, self.rule = R, rule
        self.cur = {}      # loop site -> info of the activation being analysed

    def rec(self, site):
        info = self.cur[site]
        return info["rec"].setdefault(info["head"], {"hits": set(), "ends": set()})

    def visit(self, I, st, node, cont, idx):
        done, stack, *rest = st.auto
        st = st.copy()
        mine = [s for s, _ in stack if self.indexes(idx, s)]
        for site in mine or [s for s, _ in stack]:
            self.rec(site)["hits"].add((cont, idx))
        if not stack:
            done = done | {(cont, idx, "outside a loop")}
        st.auto = (done, tuple((s, min(c + 1, 2) if not mine or s in mine else c) for s, c in stack), *rest)
        return st

    @staticmethod
    def indexes(idx, site):
        """Does the index name an element chosen by the loop at site?"""
        return idx == site or site in absint.tags(idx) or ("E", site) in absint.tags(idx)

    def excused(self, I, st, info):
        """May this iteration leave its element alone?"""
        return False

    def iter_begin(self, I, st, info):
        done, stack, *rest = st.auto
        st = st.copy()
        self.cur[info["site"]] = info
        # what was done for the previous element says nothing about this one
        done = frozenset(d for d in done if not (isinstance(d, tuple) and isinstance(d[0], tuple) and self.indexes(d[0], info["site"])))
        st.auto = (done, stack + ((info["site"], 0),), *rest)
        return st

    def iter_end(self, I, st, info, how):
        done, stack, *rest = st.auto
        st = st.copy()
        site = info["site"]
        i = max((k for k, (s, c) in enumerate(stack) if s == site), default=None)
        if i is None:
            return st
        self.cur[site] = info
        n = stack[i][1]
        self.rec(site)["ends"].add((1 if n == 0 and how == "next" and self.excused(I, st, info) else n, how))
        st.auto = (done, stack[:i], *rest)
        return st

    def loop_exit(self, I, st, info):
        site = info["site"]
        done, stack, *rest = st.auto
        add = set()
        hits = {h for r in info["rec"].values() for h in r["hits"]}
        ends = {e for r in info["rec"].values() for e in r["ends"]}
        for cont, idx in hits:
            why = "full"
            if covered(I, st, info, idx, cont) is False:
                why = "the loop does not range over every element"
            elif any(how == "break" for _, how in ends):
                why = "the loop can stop early"
            elif any(c == 0 for c, _ in ends):
                why = "some iteration skips its element"
            elif any(c >= 2 for c, _ in ends):
                why = "an element is visited more than once in an iteration"
            add.add((cont, site, why))
        if not add and info.get("range") is not None and info["val"] is not None and info["val"][0] == "vec" and not info["val"][1]:
            add.add((info["val"], site, "full"))
        if add:
            st = st.copy()
            st.auto = (done | frozenset(add), stack, *rest)
        return st

    def verdict(self, I, st, is_cont):
        """Why the run that ended in st did not visit each element once; None when it did."""
        done, stack, *rest = st.auto
        if any(self.cur[s]["rec"] and any(r["hits"] for r in self.cur[s]["rec"].values()) for s, c in stack):
            return "returns from inside the loop before every element was visited"
        full = [d for d in done if is_cont(d[0])]
        for d in full:
            if d[2] != "full":
                return d[2]
        if not full:
            for (a, b), m in st.rel.items():
                if a[0] == "call" and a[1] == "size" and is_cont(a[2][0]) and b == C(0) and m == EQ:
                    return None
            return "a path ends without visiting the elements"
        if len({d[1] for d in full}) > 1:
            return "the elements are visited more than once"
        return None

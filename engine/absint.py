"""Abstract interpreter over the extracted, type-checked syntax trees.

A dataflow analysis in the ESP style: the abstract state is (value map, known facts, property
automaton state). Values are names (value numbering), constants and small aggregates; comparisons of
unknown names are resolved over the finite set of orderings {<,=,>} (a 3-bit mask per pair); branches
on unknown booleans take both edges. Loops are iterated to a fixpoint with joins (values that differ
become loop-carried names), so every path of every length is covered. Calls to /repo functions are
analysed in context (inlined up to a depth), everything else is an uninterpreted pure name or a
mutation of its receiver. Nothing is executed and no path condition is handed to a solver.
"""
import re
import facts as F
from facts import callee, strip_targs

LT, EQ, GT = 1, 2, 4
ANY = 7
FLIP = {0: 0, 1: 4, 2: 2, 3: 6, 4: 1, 5: 5, 6: 3, 7: 7}
MASK = {"<": LT, "<=": LT | EQ, "==": EQ, "!=": LT | GT, ">": GT, ">=": GT | EQ}

TRUE = ("c", True)
FALSE = ("c", False)
NULL = ("c", None)
VOID = ("void",)


def C(v):
    return ("c", v)


def is_c(v):
    return v[0] in ("c", "en")


def cval(v):
    return v[1] if v[0] == "c" else v[2]


def isint(v):
    return is_c(v) and isinstance(cval(v), int) and not isinstance(cval(v), bool)


class Limit(Exception):
    pass


class State:
    __slots__ = ("store", "facts", "rel", "auto", "alias")

    def __init__(self, store=None, facts=None, rel=None, auto=None, alias=None):
        self.store = store or {}
        self.facts = facts or {}
        self.rel = rel or {}
        self.alias = alias or {}
        self.auto = auto

    def copy(self):
        return State(dict(self.store), dict(self.facts), dict(self.rel), self.auto, dict(self.alias))

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), frozenset(self.rel.items()), self.auto,
                frozenset(self.alias.items()))


def mentions(v, t):
    """Does term v contain the subterm t?"""
    if v == t:
        return True
    if isinstance(v, tuple):
        return any(mentions(x, t) for x in v)
    return False


_TAGS = {}


def tags(t):
    """Loop-carried names and generic elements occurring in a term."""
    r = _TAGS.get(t)
    if r is None:
        acc = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple) and x:
                if x[0] == "phi" and len(x) == 3:
                    acc.add(x[1])
                    continue
                if x[0] == "elem" and len(x) == 2:
                    acc.add(("E", x[1]))
                    continue
                stack.extend(y for y in x if isinstance(y, tuple))
        r = frozenset(acc)
        if len(_TAGS) > 200000:
            _TAGS.clear()
        _TAGS[t] = r
    return r


def mentions_any(v, pred):
    if pred(v):
        return True
    if isinstance(v, tuple):
        return any(mentions_any(x, pred) for x in v)
    return False


def depth(v):
    if isinstance(v, tuple) and v:
        return 1 + max((depth(x) for x in v), default=0)
    return 0


def show(v, n=0):
    """Readable rendering of an abstract value."""
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return "()"
    k = v[0]
    if n > 6:
        return "…"
    s = lambda x: show(x, n + 1)
    if k == "c":
        return str(v[1]).lower() if isinstance(v[1], bool) else str(v[1])
    if k == "en":
        return v[1].split("::")[-1]
    if k == "p":
        return v[1]
    if k == "fld":
        return f"{s(v[1])}.{v[2] if isinstance(v[2], str) else s(v[2])}"
    if k == "*":
        return f"{s(v[1])}"
    if k == "at":
        return f"{s(v[1])}[{s(v[2])}]" if len(v) > 2 else f"[{s(v[1])}]"
    if k == "call":
        return f"{v[1].split('::')[-1]}({', '.join(s(x) for x in v[2])})"
    if k == "op":
        return f"({s(v[2])} {v[1]} {s(v[3])})" if len(v) > 3 else f"{v[1]}{s(v[2])}"
    if k == "ref":
        return f"&{showlv(v[1])}"
    if k == "agg":
        return f"{v[1].split('::')[-1]}{{{', '.join(f'{a}={s(b)}' for a, b in v[2])}}}"
    if k == "vec":
        return "[" + ", ".join(s(x) for x in v[1]) + "]"
    if k == "phi":
        return f"φ{v[1]}"
    if k == "some":
        return f"some({s(v[1])})"
    if k == "none":
        return "none"
    if k == "fresh":
        return f"{v[1].split('::')[-1]}()"
    if not isinstance(k, str):
        return "(" + ", ".join(s(x) for x in v) + ")"
    return k + "(" + ", ".join(s(x) for x in v[1:]) + ")"


def showlv(lv):
    root, path = lv
    s = show(root[1]) if root[0] == "M" else str(root[-1])
    for p in path:
        s += "." + p if isinstance(p, str) else f"[{show(p[1]) if len(p) > 1 else p}]"
    return s


class Hooks:
    """Property-specific part. Override what is needed."""

    max_depth = 8
    max_states = 3000

    def opaque(self, q, fn, node):
        """True: do not look into this /repo function."""
        return False

    def targets(self, interp, st, node, objv):
        """For virtual calls: list of function records to analyse, or None (opaque)."""
        return None

    def call(self, I, st, node, q, obj, args):
        """Intercept a call. obj: lvalue of the receiver or None; args: values (lvalues are wrapped
        as ('ref', lv) for reference parameters). Return None for the default treatment or a list of
        (state, value)."""
        return None

    def write(self, I, st, node, lv, val):
        """Observe a write. May return a replacement state (or None)."""
        return None

    def wants_before(self, lv):
        """Is the previous value (I.before) needed by write()?"""
        return lv[0][0] == "M"

    def read(self, I, st, lv):
        """Give the initial content of a location; None for the default name."""
        return None

    unroll = False      # short loops with constant bounds are followed iteration by iteration

    def project(self, I, st, v, p):
        """Component p of the value v, or None for the default."""

    def branch(self, I, st, node, cond, taken):
        return None

    def keep(self, I, st):
        """Facts the property distinguishes: states that differ here are never merged."""
        return None

    merge_limit = 60
    widen_counters = False  # loop counters are loop-carried names from the first iteration on
    skip_asserts = True     # assertions are neither checked nor assumed

    def enter_range(self, I, st, node, rng):
        return None

    # iteration events: info has node, site, range (lvalue of the range or None), entry/back states
    def iter_begin(self, I, st, info):
        return None

    def iter_end(self, I, st, info, how):
        """how: 'next' (iteration ran to its end) or 'break'."""
        return None

    # iter_leave(self, I, st, info): the iteration was left by a return (optional)
    iter_leave = None

    def loop_exit(self, I, st, info):
        """The loop ended because its range or guard was exhausted."""
        return None


PURE_GETTERS = {"get", "operator->", "operator*", "value"}


class Interp:
    def __init__(self, prog, hooks=None):
        self.P = prog
        self.H = hooks or Hooks()
        self.H.I = self
        self.stack = []
        self.visited = {}     # fn id -> count (what was analysed)
        self.nsteps = 0
        self.opaque_calls = set()
        self.max_steps = getattr(self.H, "max_steps", 400000)
        self.sites = {}
        self.nodes = {}
        self.decls = {}
        self.gconst = {}

    # ------------------------------------------------------------ locations and values
    def site(self, node):
        t = (self.stack[-1]["q"] if self.stack else "?", node.get("l", 0), node.get("e") or node.get("s"))
        # several calls of one kind on one line are told apart
        if "f" not in node:
            return t
        m = self.nodes.setdefault(t, [])
        for i, x in enumerate(m):
            if x is node:
                return t if i == 0 else (t[0], t[1], f"{t[2]}#{i}")
        m.append(node)
        return t if len(m) == 1 else (t[0], t[1], f"{t[2]}#{len(m) - 1}")

    def read(self, st, lv):
        h = self.H.read(self, st, lv)
        if h is not None and lv not in st.store:
            return h
        root, path = lv
        if lv in st.store:
            v = st.store[lv]
        else:
            v = None
            for i in range(len(path) - 1, -1, -1):
                if (root, path[:i]) in st.store:
                    v = st.store[(root, path[:i])]
                    for p in path[i:]:
                        v = self.project(st, v, p)
                    break
            if v is None:
                if root[0] == "M":
                    v = ("*", root[1])
                elif root[0] == "G":
                    v = self.const_global(root[1]) or ("glob", root[1])
                else:
                    v = ("init", root)
                for p in path:
                    v = self.project(st, v, p)
        # overlay sub-locations
        n = len(path)
        subs = []
        for (r, p), val in st.store.items():
            if r == root and len(p) > n and p[:n] == path:
                subs.append((p[n:], val))
        if subs:
            subs.sort(key=repr)
            if v[0] == "agg" and all(len(p) == 1 and isinstance(p[0], str) for p, _ in subs):
                d = dict(v[2])
                for p, val in subs:
                    d[p[0]] = val
                return ("agg", v[1], tuple(sorted(d.items())))
            return ("upd", v, tuple(subs))
        return v

    def const_global(self, q):
        """Value of a constant of scalar type, from its initialiser."""
        if q in self.gconst:
            return self.gconst[q]
        self.gconst[q] = None
        d = self.P.vars.get(q)
        if d and d.get("const") and d.get("x") and not d["t"].startswith(("const std::", "std::")):
            try:
                r = self.eval(d["x"], State())
            except Exception:
                r = []
            if len(r) == 1 and is_c(r[0][1]):
                self.gconst[q] = r[0][1]
        return self.gconst[q]

    def project(self, st, v, p):
        k = v[0]
        if k == "agg" and isinstance(p, str):
            for a, b in v[2]:
                if a == p:
                    return b
        if k == "agg" and v[1] == "std::array" and isinstance(p, tuple) and p[0] == "at" and len(v[2]) == 1:
            return self.project(st, v[2][0][1], p)
        if k == "upd":
            sub = [(q[1:], x) for q, x in v[2] if q[0] == p]
            base = None
            rest = []
            for q, x in sub:
                if q == ():
                    base = x
                else:
                    rest.append((q, x))
            if base is None:
                base = self.project(st, v[1], p)
            return ("upd", base, tuple(rest)) if rest else base
        if k == "some" and p == "*":
            return v[1]
        if k == "vec" and isinstance(p, tuple) and p[0] == "at":
            i = p[1]
            if isint(i) and 0 <= cval(i) < len(v[1]) and not any(x[0] == "each" for x in v[1][: cval(i) + 1]):
                return v[1][cval(i)]
            if i == ("last",) and v[1] and v[1][-1][0] != "each":
                return v[1][-1]
        if k == "push" and isinstance(p, tuple) and p[0] == "at" and (p[1] == ("last",) or p[1] == STD.size_of(v[1])):
            return v[2]
        h = self.H.project(self, st, v, p)
        if h is not None:
            return h
        if isinstance(p, tuple):
            return ("at", v, *p[1:])
        return ("fld", v, p)

    def write(self, st, lv, val, node=None):
        root, path = lv
        before = self.read(st, lv) if node is not None and self.H.wants_before(lv) else None
        st = st.copy()
        n = len(path)
        for k in [k for k in st.store if k[0] == root and len(k[1]) > n and k[1][:n] == path]:
            del st.store[k]
        # fold into an aggregate held by the parent when there is one
        st.store[lv] = val
        if node is not None:
            self.before = before
            r = self.H.write(self, st, node, lv, val)
            if r is not None:
                st = r
        return st

    def deref(self, v):
        if v[0] == "ref":
            return v[1]
        if v[0] == "own":
            return (("M", v), ())
        return (("M", v), ())

    def sub(self, lv, p):
        return (lv[0], lv[1] + (p,))

    # ------------------------------------------------------------ facts
    def interval(self, st, a):
        lo = hi = None
        ne = set()
        for (x, y), m in st.rel.items():
            if x == a and isint(y):
                c = cval(y)
            elif y == a and isint(x):
                c = cval(x)
                m = FLIP[m]
            else:
                continue
            if m == EQ:
                lo = hi = c
            elif m == LT:
                hi = c - 1 if hi is None else min(hi, c - 1)
            elif m == LT | EQ:
                hi = c if hi is None else min(hi, c)
            elif m == GT:
                lo = c + 1 if lo is None else max(lo, c + 1)
            elif m == GT | EQ:
                lo = c if lo is None else max(lo, c)
            elif m == LT | GT:
                ne.add(c)
        if a[0] == "call" and a[1] in ("size",):
            lo = 0 if lo is None else max(lo, 0)
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        return lo, hi, ne

    def mask(self, st, a, b):
        """Possible orderings of a relative to b."""
        a, b = self.shift(a, b)
        if a == b:
            return EQ
        if is_c(a) and is_c(b):
            x, y = cval(a), cval(b)
            if x is None or y is None:
                return EQ if x is y else LT | GT
            if isinstance(x, str) != isinstance(y, str):
                return LT | GT
            return LT if x < y else EQ if x == y else GT
        m = st.rel.get((a, b), ANY)
        m &= FLIP[st.rel.get((b, a), ANY)]
        for x, y, fl in ((a, b, False), (b, a, True)):
            if isint(y):
                c = cval(y)
                lo, hi, ne = self.interval(st, x)
                mm = ANY
                if lo is not None:
                    if lo > c:
                        mm &= GT
                    elif lo == c:
                        mm &= GT | EQ
                if hi is not None:
                    if hi < c:
                        mm &= LT
                    elif hi == c:
                        mm &= LT | EQ
                if c in ne:
                    mm &= LT | GT
                m &= FLIP[mm] if fl else mm
        return m & self.structural_mask(st, a, b)

    @staticmethod
    def shift(a, b):
        """x + c compared with a constant d: x compared with d - c."""
        for _ in range(2):
            if isint(b) and a[0] == "op" and len(a) == 4 and a[1] == "+" and isint(a[3]):
                a, b = a[2], C(cval(b) - cval(a[3]))
            elif isint(a) and b[0] == "op" and len(b) == 4 and b[1] == "+" and isint(b[3]):
                a, b = C(cval(a) - cval(b[3])), b[2]
        return a, b

    def structural_mask(self, st, a, b):
        # sign reasoning against zero
        if b == ("c", 0):
            return self.signmask(st, a)
        if a == ("c", 0):
            return FLIP[self.signmask(st, b)]
        if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
            for x, y in ((a, b), (b, a)):
                if y[2] == ("e", 0) and x[2][0] == "any" and isinstance(x[2][1], tuple) and len(x[2][1]) == 2 and x[2][1][1] == 0:
                    return LT | GT
        if a[0] == "ref" and b == NULL or b[0] == "ref" and a == NULL:
            return LT | GT
        if a[0] == "own" and b == NULL:
            return LT | GT
        if a[0] == "op" and len(a) == 3 and a[1] == "-" and is_c(b) is False and b[0] == "op" and len(b) == 3 and b[1] == "-":
            return FLIP[self.mask(st, a[2], b[2])]
        for x, y, fl in ((a, b, False), (b, a, True)):
            if x[0] == "op" and len(x) == 3 and x[1] == "-" and x[2] == y:
                m = FLIP[self.mask(st, y, C(0))]    # -y compared with y: opposite of y's sign
                return FLIP[m] if fl else m
        return ANY

    def signmask(self, st, a):
        if isint(a):
            return LT if cval(a) < 0 else EQ if cval(a) == 0 else GT
        if a[0] == "op":
            if len(a) == 3 and a[1] == "-":
                return FLIP[self.mask(st, a[2], C(0))]
            if len(a) == 4 and a[1] in ("*", "/"):
                x, y = self.mask(st, a[2], C(0)), self.mask(st, a[3], C(0))
                out = 0
                for s in (LT, EQ, GT):
                    for t in (LT, EQ, GT):
                        if x & s and y & t:
                            if s == EQ or t == EQ and a[1] == "*":
                                out |= EQ
                            elif t == EQ:
                                out |= ANY
                            else:
                                out |= GT if s == t else LT
                return out
            if len(a) == 4 and a[1] == "+":
                x, y = self.mask(st, a[2], C(0)), self.mask(st, a[3], C(0))
                if x in (LT, LT | EQ, EQ) and y in (LT, LT | EQ, EQ):
                    return LT if LT in (x, y) else (EQ if x == y == EQ else LT | EQ)
                if x in (GT, GT | EQ, EQ) and y in (GT, GT | EQ, EQ):
                    return GT if GT in (x, y) else (EQ if x == y == EQ else GT | EQ)
        return ANY

    def assume_rel(self, st, a, b, m):
        """Refine with 'a m b'. None when contradictory."""
        a, b = self.shift(a, b)
        cur = self.mask(st, a, b)
        new = cur & m
        if new == 0:
            return None
        if new == cur:
            return st
        # sign of a negation: store about the inner term
        if b == C(0) and a[0] == "op" and len(a) == 3 and a[1] == "-":
            return self.assume_rel(st, a[2], b, FLIP[m])
        if a == C(0) and b[0] == "op" and len(b) == 3 and b[1] == "-":
            return self.assume_rel(st, b, a, FLIP[m])
        if is_c(a) and not is_c(b):
            a, b, new = b, a, FLIP[new]
        elif not is_c(b) and repr(b) < repr(a):
            a, b, new = b, a, FLIP[new]
        st = st.copy()
        st.rel[(a, b)] = new
        # interval consistency
        if isint(b):
            lo, hi, ne = self.interval(st, a)
            if lo is not None and hi is not None and lo > hi:
                return None
        return st

    def norm_bool(self, v):
        """-> (kind, data, polarity)"""
        pol = True
        while v[0] == "op" and len(v) == 3 and v[1] == "!":
            v = v[2]
            pol = not pol
        return v, pol

    def truth(self, st, v):
        """True / False / None (unknown)."""
        v, pol = self.norm_bool(v)
        r = None
        if is_c(v):
            x = cval(v)
            r = bool(x) if x is not None else False
        elif v[0] == "cmp":
            m = self.mask(st, v[2], v[3])
            if m & MASK[v[1]] == 0:
                r = False
            elif m & ~MASK[v[1]] & 7 == 0:
                r = True
        elif v[0] in ("ref", "own", "lam", "some"):
            r = True
        elif v[0] == "none":
            r = False
        else:
            if v in st.facts:
                r = st.facts[v]
        if r is None:
            return None
        return r if pol else not r

    def assume(self, st, v, val):
        """Refine the state with truth(v) == val; None when impossible."""
        v, pol = self.norm_bool(v)
        if not pol:
            val = not val
        t = self.truth(st, v)
        if t is not None:
            return st if t == val else None
        if v[0] == "cmp":
            m = MASK[v[1]] if val else 7 & ~MASK[v[1]]
            return self.assume_rel(st, v[2], v[3], m)
        st = st.copy()
        st.facts[v] = val
        return st

    def split(self, st, v, node=None):
        """[(state, bool)]"""
        t = self.truth(st, v)
        if t is not None:
            return [(st, t)]
        out = []
        for val in (True, False):
            s = self.assume(st, v, val)
            if s is not None:
                out.append((s, val))
        return out

    def cmp(self, op, a, b):
        """Normalised comparison value."""
        if is_c(a) and is_c(b) or a == b:
            m = self.mask(State(), a, b)
            if m & MASK[op] == 0:
                return FALSE
            if m & ~MASK[op] & 7 == 0:
                return TRUE
        for x, y in ((a, b), (b, a)):
            if op in ("==", "!=") and is_c(y) and isinstance(cval(y), bool):
                same = cval(y) == (op == "==")
                return x if same else self.neg(x)
        return ("cmp", op, a, b)

    def neg(self, v):
        if is_c(v):
            return C(not (cval(v)))
        if v[0] == "op" and len(v) == 3 and v[1] == "!":
            return v[2]
        if v[0] == "cmp":
            return ("cmp", {"<": ">=", "<=": ">", "==": "!=", "!=": "==", ">": "<=", ">=": "<"}[v[1]], v[2], v[3])
        return ("op", "!", v)

    # ------------------------------------------------------------ joins
    def join_val(self, site, key, a, b):
        if a == b:
            return a
        if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
            return ("it", a[1], ("any", site))
        if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and [x for x, _ in a[2]] == [x for x, _ in b[2]]:
            return ("agg", a[1], tuple((x, self.join_val(site, (key, x), va, vb)) for (x, va), (_, vb) in zip(a[2], b[2])))
        if a[0] == "some" and b[0] == "some":
            return ("some", self.join_val(site, (key, "*"), a[1], b[1]))
        if a[0] == "vec" and b[0] == "vec":
            # accumulate: keep the union of elements in order, looped
            if b[1][: len(a[1])] == a[1]:
                extra = b[1][len(a[1]):]
                ex = tuple(x if x[0] == "each" else ("each", x) for x in extra)
                out = list(a[1])
                for x in ex:
                    if x not in out:
                        out.append(x)
                return ("vec", tuple(out))
            if a[1][: len(b[1])] == b[1]:
                return self.join_val(site, key, b, a)
            out = []
            for x in a[1] + b[1]:
                x = x if x[0] == "each" else ("each", x)
                if x not in out:
                    out.append(x)
            return ("vec", tuple(out))
        return ("phi", site, key)

    def disc(self, v):
        """Part of a value that keeps states apart at joins."""
        if v[0] == "c" and (isinstance(v[1], bool) or v[1] is None):
            return v
        if v[0] == "en":
            return v
        if v[0] in ("none",):
            return v
        if v[0] == "some":
            return "some"
        return None

    def jkey(self, st):
        d = []
        for k, v in st.store.items():
            if k[0][0] in ("L",):
                x = self.disc(v)
                if x is not None:
                    d.append((k, x))
        return (st.auto, frozenset(d), frozenset(st.alias.items()), self.H.keep(self, st))

    def join(self, site, a, b):
        """Join b into a."""
        if a.key() == b.key():
            return a
        st = State(auto=a.auto, alias=a.alias)
        for k in set(a.store) | set(b.store):
            va = a.store[k] if k in a.store else self.read(a, k)
            vb = b.store[k] if k in b.store else self.read(b, k)
            v = self.join_val(site, k, va, vb)
            st.store[k] = v
        # a phi of this site denotes a new value on each iteration: facts about it must hold in both
        for f, v in a.facts.items():
            if b.facts.get(f) == v:
                st.facts[f] = v
        for f, m in a.rel.items():
            mb = self.mask(b, *f)
            if mb | m != 7:
                st.rel[f] = m | mb
        return st

    def havoc_phi(self, site, st):
        """At a loop head a loop-carried name denotes a new value: forget facts about it."""
        e = ("E", site)
        bad = lambda t: bool(tg := tags(t)) and (site in tg or e in tg)
        st2 = State({k: v for k, v in st.store.items() if e not in tags(k)}, {f: v for f, v in st.facts.items() if not bad(f)},
                    {f: m for f, m in st.rel.items() if not bad(f)}, st.auto, dict(st.alias))
        return st2

    def dedupe(self, states):
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.H.max_states:
            raise Limit(f"more than {self.H.max_states} abstract states in {self.stack[-1]['q'] if self.stack else '?'}")
        return out

    def compact(self, states, site, limit=None):
        states = self.dedupe(states)
        limit = self.H.merge_limit if limit is None else limit
        if len(states) <= limit:
            return states
        groups = {}
        for s in states:
            k = self.jkey(s)
            groups[k] = self.join(site, groups[k], s) if k in groups else s
        return list(groups.values())

    # ------------------------------------------------------------ functions
    def run(self, fn, st=None, this=None, args=None):
        """Analyse fn from its entry. Returns [(state, kind, value)] with kind ret|throw."""
        st = st or State()
        lv = None
        if fn.get("cls") and not fn.get("static"):
            lv = this or (("M", ("p", "this")), ())
        if args is None:
            args = []
            for p in fn["ps"]:
                a = ("p", p["n"])
                args.append(("ref", (("M", a), ())) if p.get("ref") else a)
        return self.invoke(st, fn, lv, args)

    def invoke(self, st, fn, this, args):
        self.visited[fn["id"]] = self.visited.get(fn["id"], 0) + 1
        frame = {"fn": fn, "q": fn["q"], "d": len(self.stack), "this": this}
        fid = (len(self.stack), fn["q"])
        frame["id"] = fid
        # drop leftovers of an earlier activation at this depth
        st = st.copy()
        for k in [k for k in st.store if k[0][0] == "L" and k[0][1] == fid]:
            del st.store[k]
        for k in [k for k in st.alias if k[0] == fid]:
            del st.alias[k]
        for p, a in zip(fn["ps"], args):
            if p.get("ref"):
                if a[0] == "ref":
                    st.alias[(fid, p["id"])] = a[1]
                else:
                    st.store[(("L", fid, p["id"]), ())] = a
            else:
                st.store[(("L", fid, p["id"]), ())] = a
        self.stack.append(frame)
        try:
            states = [st]
            for init in fn.get("inits", ()):
                states = self.ctor_init(states, init, this)
            outs = {"ret": [], "throw": []}
            norm = self.exec(fn.get("b"), states, outs)
            res = [(s, "ret", VOID) for s in norm] + [(s, "ret", v) for s, v in outs["ret"]] + [(s, "throw", v) for s, v in outs["throw"]]
        finally:
            self.stack.pop()
        # clean up the frame
        dd = len(self.stack)
        out = []
        seen = set()
        for s, k, v in res:
            v = self.escape(s, v, fid)
            if v[0] == "ref" and v[1][0][0] == "T" and isinstance(v[1][0][1], tuple) and v[1][0][1][-1] > dd:
                v = self.read(s, v[1])
            s = s.copy()
            for kk in [kk for kk in s.store if kk[0][0] == "T" and isinstance(kk[0][1], tuple) and kk[0][1][-1] > dd]:
                del s.store[kk]
            for kk in [kk for kk in s.store if kk[0][0] == "L" and kk[0][1] == fid]:
                del s.store[kk]
            for kk in [kk for kk in s.alias if kk[0] == fid]:
                del s.alias[kk]
            key = (s.key(), k, v)
            if key not in seen:
                seen.add(key)
                out.append((s, k, v))
        if len(out) > self.H.merge_limit:
            groups = {}
            for s, k, v in out:
                g = (k, v, self.jkey(s))
                groups[g] = self.join((fn["q"], "ret", v if self.disc(v) else 0), groups[g], s) if g in groups else s
            out = [(s, g[0], g[1]) for g, s in groups.items()]
        return out

    def escape(self, st, v, fid):
        """A returned reference to a local of the frame becomes its value."""
        if v[0] == "ref" and v[1][0][0] == "L" and v[1][0][1] == fid:
            return self.read(st, v[1])
        return v

    def ctor_init(self, states, init, this):
        out = []
        for st in states:
            if "field" in init:
                lv = self.sub(this, init["field"])
                x = init["x"]
                for s, v in self.eval(x, st) if x else [(st, ("uninit",))]:
                    if x and x.get("e") in ("var", "mem") and v[0] == "ref":
                        pass
                    out.append(self.write(s, lv, v, {"l": (x or {}).get("l", 0), "e": "init"}))
            else:
                x = init["x"]
                if x and x.get("e") == "ctor" and x.get("f") in self.P.fns and len(self.stack) < self.H.max_depth:
                    fn = self.P.fns[x["f"]]
                    for s, args in self.eval_args(x, st):
                        out.extend(s2 for s2, k, v in self.invoke(s, fn, this, args) if k == "ret")
                else:
                    out.append(st)
        return out

    # ------------------------------------------------------------ statements
    def exec(self, n, states, outs):
        if not n or not states:
            return states
        self.nsteps += len(states)
        if self.nsteps > self.max_steps:
            raise Limit("step limit")
        k = n["s"]
        if k == "block":
            for c in n["a"]:
                states = self.exec(c, states, outs)
                if not states:
                    break
            return states
        if k == "expr":
            return self.compact([self.drop_temps(s) for st in states for s, v in self.eval(n["x"], st, outs)], self.site(n))
        if k == "decl":
            for d in n["a"]:
                states = [self.drop_temps(s) for st in states for s in self.declare(d, st, outs)]
            return self.compact(states, self.site(n))
        if k == "if":
            if "init" in n:
                states = self.exec(n["init"], states, outs)
            if "cv" in n:
                states = [s for st in states for s in self.declare(n["cv"], st, outs)]
            tt, ff = [], []
            for st in states:
                for s, v in self.eval_cond(n["c"], st, outs):
                    r = self.H.branch(self, s, n, v, v)
                    (tt if v else ff).append(r or s)
            a = self.exec(n["x"], self.dedupe(tt), outs)
            b = self.exec(n["y"], self.dedupe(ff), outs) if "y" in n else ff
            return self.compact(a + b, self.site(n))
        if k in ("while", "for", "do", "range"):
            return self.loop(n, states, outs)
        if k == "switch":
            return self.switch(n, states, outs)
        if k in ("case", "default", "label"):
            return self.exec(n["x"], states, outs)
        if k == "ret":
            rett = self.stack[-1]["fn"].get("ret", "")
            for st in states:
                if "x" not in n:
                    outs["ret"].append((st, VOID))
                elif rett.endswith("&") or rett.endswith("&&"):
                    for s, lv in self.eval_lv(n["x"], st, outs):
                        outs["ret"].append((s, ("ref", lv)))
                else:
                    for s, v in self.eval(n["x"], st, outs):
                        outs["ret"].append((s, v))
            return []
        if k == "break":
            outs.setdefault("break", []).extend(states)
            return []
        if k == "cont":
            outs.setdefault("cont", []).extend(states)
            return []
        if k == "null":
            return states
        if k == "try":
            o2 = dict(outs)
            o2["throw"] = []
            o2["ret"] = outs["ret"]
            norm = self.exec(n["x"], states, o2)
            for kk in ("break", "cont"):
                if kk in o2:
                    outs[kk] = o2[kk]
            # any point of the try block may throw: the handlers also start from the entry states
            for h in n["hs"]:
                start = states + [s for s, v in o2["throw"]]
                norm = norm + self.exec(h["x"], self.dedupe(start), outs)
            return self.dedupe(norm)
        if k == "opaque":
            return states
        raise Limit(f"statement {k}")

    def drop_temps(self, st):
        d = len(self.stack)
        ks = [k for k in st.store if k[0][0] == "T" and isinstance(k[0][1], tuple) and k[0][1][-1] == d]
        if ks:
            st = st.copy()
            for k in ks:
                del st.store[k]
        return st

    def declare(self, d, st, outs=None):
        fid = self.stack[-1]["id"]
        key = (("L", fid, d["id"]), ())
        if d.get("static"):
            key = (("G", d["q"]), ())
            st = st.copy()
            st.alias[(fid, d["id"])] = key
            return [st]
        if d.get("ref") and "x" in d and not d.get("bind"):
            res = []
            for s, lv in self.eval_lv(d["x"], st, outs):
                if lv[0][0] == "T" and lv[0][1] != "this":
                    # lifetime-extended temporary
                    s = self.write(s, key, self.read(s, lv))
                    lv = key
                s = s.copy()
                s.alias[(fid, d["id"])] = lv
                res.append(s)
            return res
        if d.get("bind"):
            res = []
            if d.get("ref"):
                vs = [(s, ("ref", lv)) for s, lv in self.eval_lv(d["x"], st, outs)]
            else:
                vs = self.eval(d["x"], st, outs)
            for s, v in vs:
                if v[0] == "ref":
                    lv = v[1]
                    s = s.copy()
                else:
                    s = self.write(s, key, v)
                    lv = key
                for b in d["bind"]:
                    fld = b.get("field") or ("first", "second")[b["i"]] if b["i"] < 2 and "field" not in b else b.get("field") or str(b["i"])
                    if "tuple" in d["t"].split("<")[0]:
                        fld = str(b["i"])
                    s.alias[(fid, b["id"])] = self.sub(lv, fld)
                res.append(s)
            return res
        if "x" in d:
            return [self.write(s, key, v, {"l": d["x"].get("l", 0) if d["x"] else 0, "e": "decl", "var": d}) for s, v in self.eval(d["x"], st, outs)]
        return [self.write(st, key, ("uninit",))]

    def loop(self, n, states, outs):
        k = n["s"]
        site = (self.stack[-1]["q"], n["l"], k)
        if "init" in n:
            states = self.exec(n["init"], states, outs)
        inner = {"ret": outs["ret"], "throw": outs["throw"]}
        if k == "range":
            rng = []
            for st in states:
                for s, lv in self.eval_lv(n["rng"], st, outs):
                    rng.append((s, lv))
            res = []
            for s, lv in rng:
                r = self.H.enter_range(self, s, n, lv)
                v = self.read(s, lv)
                if v[0] == "view":
                    lv, fs, part = self.resolve_view(v)
                    res += self.loop_fix(site, n, [s], inner, rng_lv=lv, rng_val=self.read(s, lv), view=(fs, part))
                    continue
                fixed = self.array_len(n["rng"]) if self.H.unroll else None
                if fixed or v[0] == "vec" and not any(x[0] == "each" for x in v[1]) and len(v[1]) <= 6:
                    # a known short list: visit its elements one by one
                    cur = [s]
                    broke = []
                    info = {"node": n, "site": site, "range": lv, "val": v, "rec": {}, "head": None, "unrolled": True}
                    for i, x in enumerate([None] * fixed if fixed else v[1]):
                        nxt = []
                        for c in cur:
                            io = self.leaving(inner)
                            c = self.bind_range(n["var"], c, self.sub(lv, ("at", C(i))), x)
                            c = [self.H.iter_begin(self, z, info) or z for z in c]
                            nn = self.exec(n["x"], c, io)
                            self.left(io, inner, info)
                            nxt += [self.H.iter_end(self, z, info, "next") or z for z in nn + io.get("cont", [])]
                            broke += [self.H.iter_end(self, z, info, "break") or z for z in io.get("break", [])]
                        cur = self.dedupe(nxt)
                    res += [self.H.loop_exit(self, z, info) or z for z in cur] + broke
                    continue
                res += self.loop_fix(site, n, [s], inner, rng_lv=lv, rng_val=v)
            return self.compact(res, site)
        if k == "for" and self.H.unroll and n.get("c"):
            r = self.unrolled(site, n, states, inner)
            if r is not None:
                return r
        return self.loop_fix(site, n, states, inner)

    @staticmethod
    def array_len(node):
        """Number of elements of a short std::array."""
        t = str(node.get("t", "")).replace("const ", "").strip()
        m = re.match(r"std::array<.*,\s*(\d+)>( &)?$", t)
        return int(m.group(1)) if m and int(m.group(1)) <= 4 else None

    def unrolled(self, site, n, states, inner):
        """Follow a loop whose guard is a constant in every iteration; None when it is not, or for long loops."""
        info = {"node": n, "site": site, "range": None, "val": None, "rec": {}, "head": None, "unrolled": True}
        cur, out, marks = states, [], {k: len(v) for k, v in inner.items()}
        for _ in range(6):
            body = []
            for st in cur:
                for s, v in self.eval(n["c"], st, inner):
                    if not is_c(v):
                        for k, m in marks.items():
                            del inner[k][m:]
                        return None
                    (body if v[1] else out).append(s)
            if not body:
                return self.compact([self.H.loop_exit(self, z, info) or z for z in out], site)
            io = self.leaving(inner)
            body = [self.H.iter_begin(self, z, info) or z for z in body]
            end = self.exec(n["x"], body, io)
            cur = [self.H.iter_end(self, z, info, "next") or z for z in end + io.get("cont", [])]
            self.left(io, inner, info)
            out += [self.H.iter_end(self, z, info, "break") or z for z in io.get("break", [])]
            if n.get("inc"):
                cur = [s for st in cur for s, v in self.eval(n["inc"], st, inner)]
            cur = self.dedupe(cur)
        for k, m in marks.items():
            del inner[k][m:]
        return None

    def bind_range(self, var, st, lv, val=None):
        fid = self.stack[-1]["id"]
        if var.get("bind"):
            if var.get("ref"):
                base = lv
                st = st.copy()
            else:
                base = (("L", fid, var["id"]), ())
                st = self.write(st, base, self.read(st, lv) if val is None else val)
            for b in var["bind"]:
                fld = b.get("field") or (("first", "second")[b["i"]] if b["i"] < 2 else str(b["i"]))
                if "tuple" in var["t"].split("<")[0]:
                    fld = str(b["i"])
                st.alias[(fid, b["id"])] = self.sub(base, fld)
            return [st]
        if var.get("ref"):
            st = st.copy()
            st.alias[(fid, var["id"])] = lv
            return [st]
        key = (("L", fid, var["id"]), ())
        v = self.read(st, lv) if val is None else val
        return [self.write(st, key, v, {"l": 0, "e": "decl", "var": var})]

    def resolve_view(self, v):
        """(base lvalue, element functions innermost first, partial?)"""
        kind, base, f = v[1], v[2], v[3]
        if base[0] == "ref":
            lv, fs, part = base[1], [], False
        else:
            lv, fs, part = self.resolve_view(base)
        if kind == "transform":
            fs = fs + [f]
        elif kind not in ("all", "reverse", "common", "ref"):
            part = True
        return lv, fs, part

    def leaving(self, inner):
        io = dict(inner)
        if self.H.iter_leave is not None:
            io["ret"] = []
        return io

    def left(self, io, inner, info):
        if self.H.iter_leave is not None:
            inner["ret"] += [(self.H.iter_leave(self, z, info) or z, v) for z, v in io["ret"]]

    def loop_fix(self, site, n, states, inner, rng_lv=None, rng_val=None, view=None):
        k = n["s"]
        heads = {}
        work = []
        info = {"node": n, "site": site, "range": rng_lv, "val": rng_val, "entry": [], "back": {}, "guard": {}, "breaks": False, "rec": {}, "head": None}

        def push(st):
            st = self.havoc_phi(site, st)
            key = self.jkey(st)
            if key in heads:
                j = self.join(site, heads[key], st)
                j = self.havoc_phi(site, j)
                if j.key() == heads[key].key():
                    return
                heads[key] = j
            else:
                heads[key] = st
            if key not in work:
                work.append(key)

        if k == "do":
            # first iteration is unconditional
            io = dict(inner)
            st0 = self.exec(n["x"], states, io) + io.get("cont", [])
            broke0 = io.get("break", [])
            entry = []
            done0 = []
            for st in st0:
                for s, v in self.eval_cond(n["c"], st, inner):
                    (entry if v else done0).append(s)
        else:
            entry, done0, broke0 = states, [], []
        ctrs = self.counters(n) if self.H.widen_counters and k != "range" else ()
        fid0 = self.stack[-1]["id"]
        for st in entry:
            for c in ctrs:
                lk = (("L", fid0, c), ())
                if lk in st.store and isint(st.store[lk]):
                    old = st.store[lk]
                    st = self.havoc_phi(site, st).copy()
                    st.store[lk] = ("phi", site, lk)
                    st = self.assume_rel(st, st.store[lk], old, EQ) or st
            push(st)
        info["entry"] = list(entry)
        exits = {}
        it = 0
        while work:
            it += 1
            if it > 400:
                raise Limit(f"loop at {site} does not stabilise")
            key = work.pop(0)
            head = heads[key]
            info["head"] = key
            info["rec"].pop(key, None)
            info["guard"][key] = []
            info.get("conj", {}).pop(key, None)
            ex, body = [], []
            if k == "range":
                ex = [head]
                e = self.sub(rng_lv, ("elem", site))
                head = self.next_element(head, site)
                items = self.vec_items(rng_val)
                if view is not None:
                    info["partial"] = view[1]
                    body = []
                    starts = [(head, ("ref", e))]
                    for f in view[0]:
                        starts = [r for s0, x in starts for r in self.apply(s0, f, [x], n, inner)]
                    for s0, x in starts:
                        if x[0] == "ref" and not view[0]:
                            body += self.bind_range(n["var"], s0, x[1])
                        else:
                            t = (("T", (("view", site), len(self.stack) - 0.5)), ())
                            body += self.bind_range(n["var"], self.write(s0, t, x), t, x)
                elif items is not None:
                    body = []
                    for x in items:
                        body += self.bind_range(n["var"], head, e, x)
                else:
                    body = self.bind_range(n["var"], head, e)
            elif k == "do":
                body = [head]
            else:
                sts = [head]
                if "cv" in n:
                    sts = [s for st in sts for s in self.declare(n["cv"], st, inner)]
                if n.get("c"):
                    for st in sts:
                        for s, v in self.eval(n["c"], st, inner) if n["c"].get("op") not in ("&&", "||") else []:
                            if v not in info["guard"][key]:
                                info["guard"][key].append(v)
                        if n["c"].get("op") == "&&":
                            self.conjuncts(n["c"], st, inner, info.setdefault("conj", {}).setdefault(key, {}), ())
                        for s, v in self.eval_cond(n["c"], st, inner):
                            r = self.H.branch(self, s, n, v, v) or s
                            (body if v else ex).append(r)
                else:
                    body = sts
            io = self.leaving(inner)
            body = [self.H.iter_begin(self, z, info) or z for z in body]
            end = self.exec(n["x"], body, io)
            nxt = [self.H.iter_end(self, z, info, "next") or z for z in end + io.get("cont", [])]
            self.left(io, inner, info)
            brk = [self.H.iter_end(self, z, info, "break") or z for z in io.get("break", [])]
            info["breaks"] = info["breaks"] or bool(brk)
            inside = self.declared_in(n)
            nxt, brk = [self.drop_locals(z, inside) for z in nxt], [self.drop_locals(z, inside) for z in brk]
            if k == "for" and n.get("inc"):
                nxt = [s for st in nxt for s, v in self.eval(n["inc"], st, inner)]
            if k == "do":
                n2 = []
                for st in nxt:
                    for s, v in self.eval_cond(n["c"], st, inner):
                        (n2 if v else ex).append(s)
                nxt = n2
            exits[key] = (ex, brk)
            nxt = self.dedupe(nxt)
            info["back"][key] = nxt
            for st in nxt:
                push(st)
        out = [self.H.loop_exit(self, z, info) or z for z in done0] + broke0
        for key in exits:
            if key in heads:
                out += [self.H.loop_exit(self, z, info) or z for z in exits[key][0]] + exits[key][1]
        return self.compact(out, site)

    @staticmethod
    def next_element(st, site):
        """What was known about the element of the previous iteration says nothing about the next one."""
        def old(v):
            return isinstance(v, tuple) and (len(v) == 3 and v[0] == "at" and v[2] == site or any(old(x) for x in v))
        if not any(old(k) for k in st.facts) and not any(old(k) for k in st.rel):
            return st
        st = st.copy()
        st.facts = {k: v for k, v in st.facts.items() if not old(k)}
        st.rel = {k: v for k, v in st.rel.items() if not old(k)}
        return st

    def counters(self, n):
        """Ids of local variables stepped by ++/--/+=/-= in the loop."""
        out = set()
        for x in F.walk([n.get("inc"), n["x"]]):
            if x.get("e") == "un" and x.get("op") in ("++", "--") or x.get("e") == "asg" and x.get("op") in ("+=", "-="):
                y = x["x"]
                if y.get("e") == "var" and "id" in y:
                    out.add(y["id"])
        return out

    def declared_in(self, n):
        """Ids of the variables whose scope is one iteration of the loop."""
        r = self.decls.get(id(n))
        if r is None:
            r = set()
            for x in F.walk(n["x"]):
                if x.get("s") == "decl":
                    for d in x["a"]:
                        r.add(d["id"])
                        r.update(b["id"] for b in d.get("bind", ()))
                for key in ("cv", "var"):
                    if isinstance(x.get(key), dict) and "id" in x[key]:
                        r.add(x[key]["id"])
                        r.update(b["id"] for b in x[key].get("bind", ()))
            for key in ("cv", "var"):
                if isinstance(n.get(key), dict) and "id" in n[key]:
                    r.add(n[key]["id"])
                    r.update(b["id"] for b in n[key].get("bind", ()))
            self.decls[id(n)] = r
        return r

    def drop_locals(self, st, ids):
        fid = self.stack[-1]["id"]
        ks = [k for k in st.store if k[0][0] == "L" and k[0][1] == fid and k[0][2] in ids]
        al = [k for k in st.alias if k[0] == fid and k[1] in ids]
        if ks or al:
            st = st.copy()
            for k in ks:
                del st.store[k]
            for k in al:
                del st.alias[k]
        return st

    def inductions(self, info):
        """Induction variables of a counted loop: {key: (entry values, step values in terms of the
        loop-carried name, the name)}."""
        site = info["site"]
        out = {}
        for st in [s for ss in info["back"].values() for s in ss]:
            for k in st.store:
                if k[0][0] not in ("L",):
                    continue
                ents = {self.read(e, k) for e in info["entry"] if k in e.store}
                if ents:
                    out.setdefault(k, [ents, set()])[1].add(st.store[k])
        return out

    def conjuncts(self, c, st, outs, rec, path):
        """Values of the conjuncts of a loop guard, each evaluated where the ones before it hold."""
        if c.get("e") == "bin" and c["op"] == "&&":
            self.conjuncts(c["x"], st, outs, rec, path + (0,))
            for s, v in self.eval_cond(c["x"], st, outs):
                if v:
                    self.conjuncts(c["y"], s, outs, rec, path + (1,))
            return
        if c.get("e") == "bin" and c["op"] == "||":
            rec.setdefault(path, set()).add(None)
            return
        for s, v in self.eval(c, st, outs):
            rec.setdefault(path, set()).add(v)

    def coverage(self, info):
        """('range', lvalue) for a range loop; ('count', lo, op, hi, step, name) for a counted loop whose
        guard compares the counter with a bound; None when the shape is not recognised."""
        if info.get("range") is not None:
            return ("range", info["range"], info["val"])
        gs = {g for l in info["guard"].values() for g in l}
        if not gs and info.get("conj"):
            # a conjunction that bounds one counter several times stops at the least bound
            by = {}
            for rec in info["conj"].values():
                for path, g in rec.items():
                    by.setdefault(path, set()).update(g)
            cs = [self.counted(info, next(iter(g))) if len(g) == 1 and None not in g else None for g in by.values()]
            cs = [c for c in cs if c is not None]
            if len(cs) > 1 and len({(c[1], c[2], c[4], c[5]) for c in cs}) == 1:
                return ("count", cs[0][1], cs[0][2], ("min", *(c[3] for c in cs)), cs[0][4], cs[0][5])
            return None
        if len(gs) != 1:
            return None
        return self.counted(info, next(iter(gs)))

    def counted(self, info, g):
        pol = True
        if g[0] == "op" and len(g) == 3 and g[1] == "!":
            g, pol = g[2], False
        if g[0] != "cmp":
            return None
        op, a, b = g[1], g[2], g[3]
        if not pol:
            op = {"<": ">=", "<=": ">", "==": "!=", "!=": "==", ">": "<=", ">=": "<"}[op]
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
        for x, y, o in ((a, b, op), (b, a, flip[op])):
            if x[0] == "op" and len(x) == 4 and x[1] in ("+", "-") and isint(x[3]) and x[2][0] == "phi":
                # x + k < y: x < y - k
                x, y = x[2], self.arith("-" if x[1] == "+" else "+", y, x[3])
            for k, (ents, steps) in self.inductions(info).items():
                ent = next(iter(ents)) if len(ents) == 1 else ("oneof", frozenset(ents))
                carried = x == ("phi", info["site"], k) or x[0] == "it" and ent[0] == "it" and x[1] == ent[1] and x[2] == ("any", info["site"])
                if not carried or len(steps) != 1:
                    continue
                s = next(iter(steps))
                for d in (1, -1, 2):
                    if s == self.arith("+", x, C(d)) or x[0] == "it" and s == STD.advance(self, x, C(d)):
                        return ("count", ent, o, y, d, x)
        return None

    def vec_items(self, v):
        if v is not None and v[0] == "vec":
            return [x[1] if x[0] == "each" else x for x in v[1]] or []
        return None

    def switch(self, n, states, outs):
        if "init" in n:
            states = self.exec(n["init"], states, outs)
        if "cv" in n:
            states = [s for st in states for s in self.declare(n["cv"], st, outs)]
        body = n["x"]["a"] if n["x"]["s"] == "block" else [n["x"]]
        # flatten: list of (labels, stmt)
        items = []
        for c in body:
            labels = []
            while c and c["s"] in ("case", "default"):
                labels.append(c["v"] if c["s"] == "case" else None)
                c = c["x"]
            items.append((labels, c))
        allcases = [l for ls, c in items for l in ls if l is not None]
        out = []
        for st0 in states:
            for st, v in self.eval(n["c"], st0, outs):
                entries = []   # (index, state)
                rest = st
                for idx, (labels, c) in enumerate(items):
                    for l in labels:
                        if l is None or rest is None:
                            continue
                        lvv = self.eval(l, st, outs)[0][1]
                        cond = self.cmp("==", v, lvv)
                        s = self.assume(rest, cond, True)
                        if s is not None:
                            entries.append((idx, s))
                        rest = self.assume(rest, cond, False)
                dflt = [i for i, (ls, c) in enumerate(items) if None in ls]
                if rest is not None and not self.enum_exhausted(rest, n["c"], v):
                    if dflt:
                        entries.append((dflt[0], rest))
                    else:
                        out.append(rest)
                for idx, s in entries:
                    io = {"ret": outs["ret"], "throw": outs["throw"]}
                    if "cont" in outs:
                        io["cont"] = outs["cont"]
                    cur = [s]
                    for ls, c in items[idx:]:
                        cur = self.exec(c, cur, io)
                        if not cur:
                            break
                    out += cur + io.get("break", [])
                    if "cont" in io:
                        outs["cont"] = io["cont"]
        return self.compact(out, self.site(n))

    def enum_exhausted(self, st, cnode, v):
        """All enumerators of an enum have been excluded (values outside the enumerators are ignored)."""
        t = cnode.get("t", "")
        if cnode.get("e") == "cast":
            t = cnode["x"].get("t", "")
        e = self.P.enums.get(t.replace("const ", ""))
        if not e or is_c(v):
            return False
        for x in e["es"]:
            if self.mask(st, v, ("en", x["q"], int(x["v"]))) & EQ:
                return False
        return True

    # ------------------------------------------------------------ expressions
    def eval_cond(self, n, st, outs=None):
        """[(state, bool)] with short-circuit evaluation."""
        e = n.get("e")
        if e == "bin" and n["op"] in ("&&", "||"):
            out = []
            for s, v in self.eval_cond(n["x"], st, outs):
                if v == (n["op"] == "||"):
                    out.append((s, v))
                else:
                    out += self.eval_cond(n["y"], s, outs)
            return out
        if e == "un" and n["op"] == "!":
            return [(s, not v) for s, v in self.eval_cond(n["x"], st, outs)]
        if e == "cast" and n.get("ck") in ("IntegralToBoolean", "PointerToBoolean"):
            out = []
            for s, v in self.eval(n["x"], st, outs):
                if n["ck"] == "IntegralToBoolean" and not is_c(v):
                    v = self.cmp("!=", v, C(0))
                out += self.split(s, v, n)
            return out
        out = []
        for s, v in self.eval(n, st, outs):
            out += self.split(s, v, n)
        return out

    def eval(self, n, st, outs=None):
        """[(state, value)] — rvalue."""
        self.nsteps += 1
        if self.nsteps > self.max_steps:
            raise Limit("step limit")
        if n is None:
            return [(st, ("uninit",))]
        e = n["e"]
        if e == "int":
            return [(st, C(int(n["v"])))]
        if e == "bool":
            return [(st, C(n["v"]))]
        if e == "enum":
            return [(st, ("en", n["n"], int(n["v"])))]
        if e in ("str",):
            return [(st, C(n["v"]))]
        if e == "float":
            return [(st, ("flt", n["v"]))]
        if e == "null":
            return [(st, NULL)]
        if e == "zero":
            t = n["t"]
            if t == "bool":
                return [(st, FALSE)]
            if t.endswith("*"):
                return [(st, NULL)]
            return [(st, C(0) if t in ("int", "unsigned int", "long", "unsigned long") else ("zero", t))]
        if e == "this":
            return [(st, ("ref", self.this_lv()))]
        if e == "var":
            if "cv" in n:
                t = n["t"]
                if t == "const bool" or t == "bool":
                    return [(st, C(n["cv"] not in ("0",)))]
                if t.replace("const ", "") in self.P.enums:
                    return [(st, ("en", n["n"], int(n["cv"])))]
                return [(st, C(int(n["cv"])))]
            return [(s, self.read(s, lv)) for s, lv in self.eval_lv(n, st, outs)]
        if e in ("mem", "idx"):
            return [(s, self.read(s, lv)) for s, lv in self.eval_lv(n, st, outs)]
        if e == "un":
            return self.unary(n, st, outs)
        if e == "bin":
            return self.binary(n, st, outs)
        if e == "asg":
            return [(s, self.read(s, lv)) for s, lv in self.assign(n, st, outs)]
        if e == "cond" and self.H.skip_asserts and n["y"].get("e") == "call" and n["y"].get("n") == "__assert_fail":
            c = n["c"]
            dead = c.get("e") == "bool" and c["v"] is False or c.get("e") == "bin" and c.get("op") == "&&" and any(c[z].get("e") == "bool" and c[z]["v"] is False for z in "xy")
            return [] if dead else [(st, VOID)]
        if e == "cond":
            out = []
            for s, v in self.eval_cond(n["c"], st, outs):
                out += self.eval(n["x"] if v else n["y"], s, outs)
            return out
        if e == "cast":
            out = []
            for s, v in self.eval(n["x"], st, outs):
                ck = n["ck"]
                if ck in ("IntegralToBoolean",) and not is_c(v):
                    v = self.cmp("!=", v, C(0))
                elif ck == "IntegralToBoolean":
                    v = C(bool(cval(v)))
                elif ck == "PointerToBoolean" and not is_c(v):
                    pass
                elif ck == "IntegralCast":
                    v = self.intcast(n, v)
                out.append((s, v))
            return out
        if e in ("call", "mcall"):
            return [(s, self.read(s, v[1]) if v[0] == "ref" and (n.get("lv") or not n["t"].endswith("*")) else v) for s, v in self.call(n, st, outs)]
        if e == "ctor":
            return self.construct(n, st, outs)
        if e == "list":
            res = [(st, ())]
            for a in n["a"]:
                res = [(s2, acc + (v,)) for s, acc in res for s2, v in self.eval(a, s, outs)]
            out = []
            for s, vs in res:
                if "fs" in n and len(n["fs"]) == len(vs) and "initializer_list" not in n.get("cls", ""):
                    out.append((s, ("agg", n["cls"], tuple(sorted(zip(n["fs"], vs))))))
                elif "fs" in n and "initializer_list" not in n.get("cls", "") and n["fs"]:
                    out.append((s, ("agg", n["cls"], tuple(sorted(zip(n["fs"], vs))))))
                elif len(vs) == 1 and not n["t"].endswith("]") and "cls" not in n:
                    out.append((s, vs[0]))
                elif not vs and "cls" not in n and not n["t"].endswith("]"):
                    out.append((s, FALSE if n["t"] == "bool" else NULL if n["t"].endswith("*") else C(0)))
                else:
                    out.append((s, ("vec", vs)))
            return out
        if e == "lambda":
            return [(st, ("lam", id(n), self.stack[-1]["id"], self.lam_reg(n)))]
        if e == "throw":
            vs = self.eval(n["x"], st, outs) if n.get("x") else [(st, ("rethrow",))]
            if outs is not None:
                outs["throw"].extend(vs)
            return []
        if e == "new":
            out = []
            for s, v in (self.eval(n["x"], st, outs) if n.get("x") else [(st, ("uninit",))]):
                o = ("own", self.site(n), n["at"])
                s = self.write(s, (("M", o), ()), v)
                out.append((s, o))
            return out
        if e == "delete":
            return self.eval(n["x"], st, outs)
        if e == "fnref":
            return [(st, ("fn", n["f"]))]
        if e == "icall":
            out = []
            for s, f in self.eval(n["c"], st, outs):
                for s2, args in self.eval_args(n, s, outs):
                    out += self.apply(s2, f, args, n, outs)
            return out
        if e == "opaque":
            return [(st, ("opaque", self.site(n)))]
        raise Limit(f"expression {e}")

    def lam_reg(self, n):
        self.sites[id(n)] = n
        return n.get("l", 0)

    def intcast(self, n, v):
        return v

    def this_lv(self):
        for f in reversed(self.stack):
            if f["this"] is not None:
                return f["this"]
            if not f.get("lambda"):
                break
        return (("M", ("p", "this")), ())

    def local_lv(self, st, vid, name=""):
        # lambdas share the variable ids of the enclosing function: search outwards
        for f in reversed(self.stack):
            fid = f["id"]
            if (fid, vid) in st.alias:
                return st.alias[(fid, vid)]
            key = (("L", fid, vid), ())
            if key in st.store or any(k[0] == key[0] for k in st.store):
                return key
        # lambdas called after their frame is gone, or uninitialised
        for (fid, v), lv in st.alias.items():
            if v == vid:
                return lv
        for k in st.store:
            if k[0][0] == "L" and k[0][2] == vid:
                return (k[0], ())
        return (("L", self.stack[-1]["id"], vid), ())

    def eval_lv(self, n, st, outs=None):
        """[(state, lvalue)]"""
        e = n["e"]
        if e == "var":
            if n.get("g"):
                return [(st, (("G", n["q"]), ()))]
            return [(st, self.local_lv(st, n["id"], n["n"]))]
        if e == "this":
            lv = (("T", "this"), ())
            return [(self.write(st, lv, ("ref", self.this_lv())), lv)]
        if e == "mem":
            out = []
            if n.get("arrow"):
                for s, v in self.eval(n["o"], st, outs):
                    out.append((s, self.sub(self.deref(v), n["n"])))
            else:
                for s, lv in self.eval_lv(n["o"], st, outs):
                    out.append((s, self.sub(lv, n["n"])))
            # a reference member denotes what it is bound to
            return [(s, self.follow(s, lv, n["t"])) for s, lv in out]
        if e == "idx":
            out = []
            for s, lv in self.eval_lv(n["x"], st, outs):
                for s2, i in self.eval(n["y"], s, outs):
                    out.append((s2, self.sub(lv, ("at", i))))
            return out
        if e == "un" and n["op"] == "*":
            return [(s, self.deref(v)) for s, v in self.eval(n["x"], st, outs)]
        if e == "un" and n["op"] in ("++", "--") and not n.get("post"):
            out = []
            for s, lv in self.eval_lv(n["x"], st, outs):
                out.append((self.incdec(s, lv, n), lv))
            return out
        if e == "asg":
            return self.assign(n, st, outs)
        if e in ("call", "mcall"):
            out = []
            for s, v in self.call(n, st, outs):
                if v[0] == "ref":
                    out.append((s, v[1]))
                else:
                    lv = (("T", (self.site(n), len(self.stack))), ())
                    out.append((self.write(s, lv, v), lv))
            return out
        if e == "cond":
            out = []
            for s, v in self.eval_cond(n["c"], st, outs):
                out += self.eval_lv(n["x"] if v else n["y"], s, outs)
            return out
        if e == "cast" and n["ck"] == "Dynamic":
            return self.eval_lv(n["x"], st, outs)
        out = []
        for s, v in self.eval(n, st, outs):
            lv = (("T", (self.site(n), len(self.stack))), ())
            out.append((self.write(s, lv, v), lv))
        return out

    def follow(self, st, lv, t):
        if lv in st.store and st.store[lv][0] == "ref" and not t.endswith("*"):
            return st.store[lv][1]
        return lv

    def incdec(self, st, lv, n):
        v = self.read(st, lv)
        d = 1 if n["op"] == "++" else -1
        return self.write(st, lv, self.arith("+", v, C(d)), n)

    def arith(self, op, a, b):
        if isint(a) and isint(b):
            x, y = cval(a), cval(b)
            if op == "+":
                return C(x + y)
            if op == "-":
                return C(x - y)
            if op == "*":
                return C(x * y)
            if op == "/" and y:
                return C(int(x / y))
            if op == "%" and y:
                return C(x - y * int(x / y))
            if op == "&":
                return C(x & y)
            if op == "|":
                return C(x | y)
            if op == "^":
                return C(x ^ y)
            if op == "<<" and 0 <= y < 64:
                return C(x << y)
            if op == ">>" and 0 <= y < 64:
                return C(x >> y)
        if op == "-" and isint(b):
            op, b = "+", C(-cval(b))
        if op == "+":
            if b == C(0):
                return a
            if a == C(0):
                return b
            # collapse (x + c) + d
            if isint(b) and a[0] == "op" and a[1] == "+" and len(a) == 4 and isint(a[3]):
                return self.arith("+", a[2], C(cval(a[3]) + cval(b)))
            if isint(a):
                a, b = b, a
        if op == "*":
            if a == C(1):
                return b
            if b == C(1):
                return a
            if a == C(-1):
                return self.minus(b)
            if b == C(-1):
                return self.minus(a)
        if op == "/" and b == C(1):
            return a
        if op == "-" and a == C(0):
            return self.minus(b)
        if op in ("^",) and a == b:
            return C(0)
        return ("op", op, a, b)

    def minus(self, v):
        if isint(v):
            return C(-cval(v))
        if v[0] == "op" and len(v) == 3 and v[1] == "-":
            return v[2]
        return ("op", "-", v)

    def unary(self, n, st, outs):
        op = n["op"]
        if op == "&":
            if n["x"].get("e") == "fnref":
                return self.eval(n["x"], st, outs)
            return [(s, ("ref", lv)) for s, lv in self.eval_lv(n["x"], st, outs)]
        if op == "*":
            return [(s, self.read(s, lv)) for s, lv in self.eval_lv(n, st, outs)]
        if op in ("++", "--"):
            out = []
            for s, lv in self.eval_lv(n["x"], st, outs):
                old = self.read(s, lv)
                s2 = self.incdec(s, lv, n)
                out.append((s2, old if n.get("post") else self.read(s2, lv)))
            return out
        if op == "!":
            return [(s, self.neg(v)) for s, v in self.eval(n["x"], st, outs)]
        if op == "-":
            return [(s, self.minus(v)) for s, v in self.eval(n["x"], st, outs)]
        if op == "+":
            return self.eval(n["x"], st, outs)
        return [(s, C(~cval(v)) if op == "~" and isint(v) else ("op", op, v)) for s, v in self.eval(n["x"], st, outs)]

    def binary(self, n, st, outs):
        op = n["op"]
        if op in ("&&", "||"):
            out = []
            for s, v in self.eval_cond(n["x"], st, outs):
                if v == (op == "||"):
                    out.append((s, C(v)))
                else:
                    out += self.eval(n["y"], s, outs)
            return out
        if op == ",":
            return [r for s, v in self.eval(n["x"], st, outs) for r in self.eval(n["y"], s, outs)]
        out = []
        for s, a in self.eval(n["x"], st, outs):
            for s2, b in self.eval(n["y"], s, outs):
                if op in MASK:
                    out.append((s2, self.cmp(op, a, b)))
                elif op == "<=>":
                    out.append((s2, ("op", op, a, b)))
                else:
                    if op in ("^", "&", "|") and n.get("t") in ("int", "bool"):
                        r = self.boolop(s2, op, a, b)
                        if r is not None:
                            out += r
                            continue
                    out.append((s2, self.arith(op, a, b)))
        return out

    def boolop(self, st, op, a, b):
        """Bitwise operators on booleans (promoted to int)."""
        def isb(v):
            return v[0] == "c" and isinstance(v[1], bool) or v[0] == "cmp" or v[0] == "op" and v[1] == "!" and len(v) == 3 or v in st.facts
        if not (isb(a) or isb(b)):
            return None
        out = []
        for s, x in self.split(st, a):
            for s2, y in self.split(s, b):
                r = (x != y) if op == "^" else (x and y) if op == "&" else (x or y)
                out.append((s2, C(r)))
        return out

    def assign(self, n, st, outs):
        out = []
        op = n["op"]
        for s, v in self.eval(n["y"], st, outs):
            for s2, lv in self.eval_lv(n["x"], s, outs):
                if op == "=":
                    out.append((self.write(s2, lv, v, n), lv))
                else:
                    cur = self.read(s2, lv)
                    rs = None
                    if op in ("^=", "&=", "|="):
                        rs = self.boolop(s2, op[:-1], cur, v)
                    for s3, r in rs or [(s2, self.arith(op[:-1], cur, v))]:
                        out.append((self.write(s3, lv, r, n), lv))
        return out

    # ------------------------------------------------------------ calls
    def eval_args(self, n, st, outs=None):
        """[(state, [values])]; arguments bound to reference parameters are ('ref', lv)."""
        res = [(st, [])]
        pts = n.get("pt", [])
        for i, a in enumerate(n["a"]):
            pt = pts[i] if i < len(pts) else ""
            nxt = []
            for s, acc in res:
                if pt.endswith("&"):
                    for s2, lv in self.eval_lv(a, s, outs):
                        nxt.append((s2, acc + [("ref", lv)]))
                else:
                    for s2, v in self.eval(a, s, outs):
                        nxt.append((s2, acc + [v]))
            res = nxt
        return res

    def val(self, st, a):
        """Value of an argument (reference parameters hold ('ref', lv))."""
        return self.read(st, a[1]) if a[0] == "ref" else a

    def call(self, n, st, outs):
        q = callee(n)
        if n.get("noret") or q in ("__assert_fail", "abort", "exit", "std::terminate"):
            r = self.H.call(self, st, n, q, None, [])
            return []
        out = []
        if n["e"] == "mcall":
            if n.get("arrow"):
                objs = [(s, self.deref(v)) for s, v in self.eval(n["o"], st, outs)]
            else:
                objs = self.eval_lv(n["o"], st, outs)
        else:
            objs = [(st, None)]
        for s, obj in objs:
            for s2, args in self.eval_args(n, s, outs):
                out += self.dispatch(s2, n, q, obj, args, outs)
        return out

    def dispatch(self, st, n, q, obj, args, outs):
        r = self.H.call(self, st, n, q, obj, args)
        if isinstance(r, tuple):
            st = r[1]       # ('cont', state): default treatment from this state
        elif r is not None:
            return r
        fn = self.P.fns.get(n.get("f"))
        if n.get("virt") and not n.get("qual"):
            t = self.H.targets(self, st, n, obj)
            if t is not None:
                out = []
                for f in t:
                    out += self.inline(st, f, obj, args, n, outs)
                return out
            if self.P.over.get(n["f"]) and not fn:
                fn = None
            elif self.P.over.get(n["f"]):
                fn = None
        if fn is not None and fn.get("b") is not None and not self.H.opaque(q, fn, n):
            if len(self.stack) < self.H.max_depth and not any(f["fn"]["id"] == fn["id"] for f in self.stack):
                return self.inline(st, fn, obj, args, n, outs)
        elif fn is not None and fn.get("defaulted"):
            r = self.defaulted(st, n, q, fn, obj, args)
            if r is not None:
                return r
        r = STD.model(self, st, n, q, obj, args, outs)
        if r is not None:
            return r
        return self.opaque_call(st, n, q, obj, args)

    def defaulted(self, st, n, q, fn, obj, args):
        if q.endswith("operator=") and obj is not None and args:
            return [(self.write(st, obj, self.val(st, args[0]), n), ("ref", obj))]
        if q.endswith("operator=="):
            vals = ([self.read(st, obj)] if obj is not None else []) + [self.val(st, a) for a in args]
            if len(vals) == 2:
                return [(st, self.cmp("==", vals[0], vals[1]))]
        return None

    def inline(self, st, fn, obj, args, n, outs):
        if fn.get("b") is None:
            return self.opaque_call(st, n, fn["q"], obj, args)
        out = []
        for s, k, v in self.invoke(st, fn, obj, args):
            if k == "ret":
                out.append((s, v))
            elif outs is not None:
                outs["throw"].append((s, v))
        return out

    def opaque_call(self, st, n, q, obj, args):
        """Uninterpreted: pure name over the argument values; non-const receivers and non-const
        reference arguments get a new (unknown) content."""
        self.opaque_calls.add(q)
        vals = tuple(self.val(st, a) for a in args)
        short = q
        if obj is not None:
            vals = (self.read(st, obj),) + vals
        v = ("call", short, vals)
        if depth(v) > 14:
            v = ("call", short, (("deep", self.site(n)),))
        rt = n.get("t", "")
        if obj is not None and not n.get("const"):
            st = self.write(st, obj, ("mut", self.site(n), len(self.stack)), n)
        pts = n.get("pt", [])
        for i, a in enumerate(args):
            if a[0] == "ref" and i < len(pts) and pts[i].endswith("&") and not pts[i].endswith("&&") and "const " not in pts[i]:
                st = self.write(st, a[1], ("mut", self.site(n), i), n)
        return [(st, v)]

    def apply(self, st, f, args, n, outs):
        """Call a function value (lambda or function pointer)."""
        if f[0] == "ref":
            f = self.read(st, f[1])
        if f[0] == "lam":
            node = self.sites[f[1]]
            if node.get("b") is None:
                return [(st, ("opaque", self.site(n)))]
            fn = {"id": "lambda%d" % f[1], "q": self.stack[-1]["q"] + "::<lambda>", "ps": node["ps"], "b": node["b"], "ret": "", "file": self.stack[-1]["fn"]["file"],
                  "line": node["l"]}
            if any(fr["fn"]["id"] == fn["id"] for fr in self.stack):
                return [(st, ("opaque", self.site(n)))]
            rt = self.lambda_ret(node)
            fn["ret"] = rt
            out = []
            self.stack.append({"fn": fn, "q": fn["q"], "d": len(self.stack), "this": None, "id": ("lamshim", len(self.stack)), "lambda": True})
            try:
                th = self.this_lv()
                res = self.invoke_lambda(st, fn, th, args)
            finally:
                self.stack.pop()
            for s, k, v in res:
                if k == "ret":
                    out.append((s, v))
                elif outs is not None:
                    outs["throw"].append((s, v))
            return out
        if f[0] == "fn" and f[1] in self.P.fns:
            return self.inline(st, self.P.fns[f[1]], None, args, n, outs)
        vals = tuple(self.val(st, a) for a in args)
        return [(st, ("call", "apply", (f,) + vals))]

    def invoke_lambda(self, st, fn, this, args):
        # wrap plain values for reference parameters
        return self.invoke(st, fn, this, args)

    def lambda_ret(self, node):
        return ""

    def construct(self, n, st, outs):
        q = callee(n)
        cls = strip_targs(n.get("cls", ""))
        out = []
        for s, args in self.eval_args(n, st, outs):
            r = self.H.call(self, s, n, "ctor:" + cls, None, args)
            if r is not None:
                out += r
                continue
            if (n.get("copy") or n.get("move")) and args and n["f"] not in self.P.fns:
                out.append((s, self.val(s, args[0])))
                continue
            fn = self.P.fns.get(n["f"])
            if (n.get("copy") or n.get("move")) and (fn is None or fn.get("defaulted") or not getattr(self.H, "inline_copies", False)) and args:
                out.append((s, self.val(s, args[0])))
                continue
            if fn is not None and (fn.get("b") is not None or fn.get("inits")) and not self.H.opaque("ctor:" + cls, fn, n) \
                    and len(self.stack) < self.H.max_depth and not any(f["fn"]["id"] == fn["id"] for f in self.stack):
                tmp = (("T", ("obj", self.site(n), self.nsteps, len(self.stack))), ())
                s = self.write(s, tmp, ("agg", cls, ()))
                for s2, k, v in self.invoke(s, fn, tmp, args):
                    if k == "ret":
                        val = self.read(s2, tmp)
                        s3 = s2.copy()
                        for kk in [kk for kk in s3.store if kk[0] == tmp[0]]:
                            del s3.store[kk]
                        out.append((s3, val))
                    elif outs is not None:
                        outs["throw"].append((s2, v))
                continue
            r = STD.construct(self, s, n, cls, args, outs)
            if r is not None:
                out += r
                continue
            vals = tuple(self.val(s, a) for a in args)
            out.append((s, ("call", "ctor:" + cls, vals)))
        return out


import stdmodel as STD  # noqa: E402

"""C06: what is on the trail has a value, and the right one."""
from looplib import *
from r_c05 import tord

EXPLANATION = ("Pairing analysis of every function that puts a variable on the trail or writes a trail model: on every path and in every loop iteration the variables decided/propagated are exactly the variables given a value; "
               "the value is compared with the polarity of the literal (symbolically, over the literal's encoding) or with the evaluation of the constraint. A function that is not balanced by itself is analysed again inside each of its callers.")
ASSUMPTIONS = ["asserted preconditions hold", "models reached through references are the trail's models; models stored by value in a component are its private caches"]

ASSIGN = {"yaga::Trail::decide", "yaga::Trail::propagate"}
ROOT_BASES = ("yaga::Theory", "yaga::Event_listener", "yaga::Variable_order", "yaga::Restart")


def reach_ops(P):
    """fn id -> does it reach an operation of interest (calls resolved, virtual calls not followed)?"""
    calls = {}
    direct = set()
    for fid, fn in P.fns.items():
        if not fn["q"].startswith("yaga::") or not F.rel(fn["file"]).startswith("src/"):
            continue
        s = set()
        for c in F.calls(fn.get("b")):
            q = F.callee(c)
            if q in ASSIGN or q == "yaga::Model::set_value":
                if not fn["q"].startswith(("yaga::Trail::", "yaga::Model::")):
                    direct.add(fid)
            if c.get("f"):
                s.add(c["f"])
        calls[fid] = s
    callers = {}
    for f, s in calls.items():
        for t in s:
            callers.setdefault(t, set()).add(f)
    return direct, callers


class H(EachHooks):
    """auto = (done, stack, pending, guarded)"""
    max_depth = 7
    skip_asserts = False
    merge_limit = 24

    def __init__(self, R, P, entry, balanced, direct):
        super().__init__(R, "C06")
        self.P, self.entry, self.balanced, self.direct = P, entry, balanced, direct
        self.bad = []
        fl = [f["n"] for f in P.rec("yaga::Literal")["fields"] if not f.get("static")]
        if len(fl) != 1:
            raise F.AnalysisBroken("encoding of Literal not recognised")
        self.enc = fl[0]
        self.seen = 0
        self.pol = 0

    def keep(self, I, st):
        return st.auto[2]

    def opaque(self, q, fn, node):
        if fn["id"] in self.balanced:
            return True
        if fn["q"].startswith(("yaga::Literal", "yaga::Variable", "yaga::Model")) or fn["id"] in self.direct or fn["id"] in self.through:
            return False
        # otherwise look into accessors only
        return fn["q"].startswith("yaga::Trail") or sum(1 for _ in F.walk(fn.get("b"))) > 25 or fn.get("virt")

    def fail(self, st, node, rule, what, why):
        self.bad.append((rule, what, where(self.I, node) if isinstance(node, dict) else node, why))

    def call(self, I, st, node, q, obj, args):
        if q == "yaga::Literal::var" and obj is not None:
            enc, neg = canon(I.read(st, I.sub(obj, self.enc)))
            d = tord_fields(self.P)
            names, bt = d["names"], d["boolean"]
            return [(st, ("agg", "yaga::Variable", tuple(sorted(((names[0], ("call", "litord", (enc, C(neg)))), (names[1], bt))))))]
        if q in ASSIGN:
            var = I.val(st, args[0])
            key = tord(I, st, var)
            self.seen += 1
            reason = I.val(st, args[1]) if len(args) > 1 else NULL
            if q.endswith("propagate") and not self.undefined(I, st, key):
                self.fail(st, node, "C06.fresh", "propagated variable is unassigned", "nothing on the path establishes that a propagated variable is unassigned")
            st = self.settle(I, st, node, ("assign", key[1], key[0], reason), "value")
            return [(st, VOID)]
        if q == "yaga::Model::set_value" and not self.private(I, node, obj):
            ordv = I.val(st, args[0])
            val = I.val(st, args[1])
            boolean = "Model<bool>" in node.get("n", "") or "Model<bool>" in str(node.get("cls", ""))
            self.seen += 1
            if boolean:
                out = []
                for s in self.polarity(I, st, node, ordv, val):
                    out.append((self.settle(I, s, node, ("value", ordv, ("en", "yaga::Variable::boolean", 0), NULL), "assign"), VOID))
                return out
            return [(self.settle(I, st, node, ("value", ordv, None, NULL), "assign"), VOID)]
        if q in ("yaga::Model::is_defined", "yaga::Model_base::is_defined") and args:
            return [(st, ("call", "is_defined", (I.val(st, args[0]),)))]
        if q.split("::")[-1] == "eval" and q.startswith("yaga::") and "onstraint" in q and obj is not None:
            return [(st, ("call", "evaluates", (canon(self.own_literal(I, st, obj)),)))]
        return None

    def own_literal(self, I, st, obj):
        """Encoding of the literal of the constraint stored at obj."""
        for r in self.P.recs.get(self.conrec(), []):
            for f in r["fields"]:
                if f["t"].replace("const ", "") == "yaga::Literal":
                    return I.read(st, I.sub(I.sub(obj, f["n"]), self.enc))
        raise F.AnalysisBroken("literal of a constraint not found")

    def conrec(self):
        return next((k for k in self.P.recs if F.strip_targs(k) == "yaga::Linear_constraint"), None)

    def plain(self, I, st, t):
        """Replace the ordinal of a literal whose sign is known by arithmetic on its encoding."""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "call" and t[1] == "litord":
            e, neg = t[2]
            enc = I.minus(e) if neg == C(True) else e
            m = I.mask(st, enc, C(0))
            if m in (LT, GT):
                return I.arith("+", enc if m == GT else I.minus(enc), C(-1))
            return t
        if t[0] == "op" and len(t) == 4:
            return I.arith(t[1], self.plain(I, st, t[2]), self.plain(I, st, t[3]))
        if t[0] == "op" and len(t) == 3 and t[1] == "-":
            return I.minus(self.plain(I, st, t[2]))
        if t[0] == "cmp":
            return I.cmp(t[1], self.plain(I, st, t[2]), self.plain(I, st, t[3]))
        return tuple(self.plain(I, st, x) for x in t)

    def private(self, I, node, obj):
        """A model stored by value in an object: a cache."""
        if obj is None:
            return False
        root, path = obj
        while path:
            p = path[-1]
            if isinstance(p, str):
                for recs in self.P.recs.values():
                    for r in recs:
                        for f in r["fields"]:
                            if f["n"] == p and f["t"].replace("const ", "").startswith("yaga::Model<") and not f["t"].rstrip().endswith(("&", "*")):
                                return True
                return False
            path = path[:-1]
        return False

    def undefined(self, I, st, key):
        for k, v in st.facts.items():
            if k[0] == "call" and k[1] == "is_defined" and v is False and self.same(I, st, k[2][0], key[1]):
                return True
            if k[0] == "call" and k[1] in ("has_value",) and v is False and k[2] and k[2][0][0] == "call" and "eval" in k[2][0][1]:
                return True
        return False

    def polarity(self, I, st, node, ordv, val0):
        """The value written for the variable of literal L must make L true."""
        if not (ordv[0] == "call" and ordv[1] == "litord"):
            return [st]
        enc = ordv[2][0]
        if ordv[2][1] == C(True):
            enc = I.minus(enc)
        out = []
        val = val0
        evs = [t for t in parts(val) + list(st.facts) if t[0] == "call" and t[1] == "evaluates"]
        for s1 in (I.assume_rel(st, enc, C(0), LT), I.assume_rel(st, enc, C(0), GT)):
            if s1 is None:
                continue
            val = self.plain(I, s1, val0)
            neg = I.mask(s1, enc, C(0)) == LT
            base = [(s1, None)]
            if evs:
                base = [(x, b) for x, b in I.split(s1, evs[0])]
            for s2, ev in base:
                for s3, v in I.split(s2, val):
                    if ev is not None:
                        e0, n0 = evs[0][2][0]
                        m0 = I.mask(s3, I.minus(e0) if n0 else e0, C(0))
                        if m0 not in (LT, GT) or canon(enc)[0] != e0:
                            out.append(s3)
                            continue
                        self.pol += 1
                        if v != (ev != (m0 == LT)):
                            self.fail(s3, node, "C06.polarity", "value agrees with the constraint", f"the constraint evaluates to {ev}, its literal is {'negated' if neg else 'positive'} and the variable is set to {v}")
                    elif self.litvalue(val, enc):
                        self.pol += 1
                        if v == neg:
                            self.fail(s3, node, "C06.polarity", "value makes the literal true", f"the literal is {'negated' if neg else 'positive'} but its variable is set to {v}")
                    out.append(s3)
        return out or [st]

    def litvalue(self, val, enc):
        """Is the value about the literal at all (its sign, or a constant)?"""
        e = canon(enc)[0]
        if is_c(val):
            # the literal of a newly made constraint may stand for either outcome
            return not mentions_any(e, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "call" and "constraint" in str(t[1]))
        # a value about some literal must be about this one
        return mentions(val, e) or mentions_any(val, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "fld" and t[2] == self.enc)

    def settle(self, I, st, node, mine, other):
        done, stack, pending = st.auto[:3]
        st = st.copy()
        for p in pending:
            if p[0] == other and self.same(I, st, p[1], mine[1]):
                ty = p[2] or mine[2]
                if p[2] is not None and mine[2] is not None and not self.same_type(p[2], mine[2]):
                    self.fail(st, node, "C06.paired", "model of the variable's type", f"a variable of type {show(p[2])} gets a value in the model of type {show(mine[2])}")
                st.auto = (done, stack, pending - {p}) + st.auto[3:]
                return st
        st.auto = (done, stack, pending | {mine}) + st.auto[3:]
        return st

    def same_type(self, a, b):
        return a == b or a[0] != "en" or b[0] != "en"

    def same(self, I, st, a, b):
        if a[:2] == b[:2] == ("call", "litord"):
            return a[2][0] == b[2][0]
        return a == b

    def pending_bad(self, I, st, node):
        for p in st.auto[2]:
            if p[0] == "assign":
                self.fail(st, node, "C06.paired", "a variable put on the trail gets a value", f"variable {show(p[1])} is put on the trail but no value is stored for it")
            else:
                self.fail(st, node, "C06.paired", "a variable given a value is put on the trail", f"a value is stored for variable {show(p[1])} which is not put on the trail")

    def iter_begin(self, I, st, info):
        st = super().iter_begin(I, st, info)
        return st

    def iter_end(self, I, st, info, how):
        new = [p for p in st.auto[2] if self.indexes(p[1], info["site"]) or info["site"] in absint.tags(p[1])]
        if new:
            self.pending_bad(I, st, f"{F.rel(I.stack[-1]['fn']['file'])}:{info['node'].get('l')} ({I.stack[-1]['q'].replace('yaga::', '')})")
            st = st.copy()
            st.auto = st.auto[:2] + (frozenset(),) + st.auto[3:]
        return super().iter_end(I, st, info, how)


def canon(enc):
    return (enc[2], True) if enc[0] == "op" and len(enc) == 3 and enc[1] == "-" else (enc, False)


def tord_fields(P):
    r = P.rec("yaga::Variable")
    fl = [f for f in r["fields"] if not f.get("static")]
    num = next(f["n"] for f in fl if f["t"].replace("const ", "") == "int")
    ty = next(f["n"] for f in fl if f["n"] != num)
    for k, v in P.enums.items():
        if k.startswith("yaga::Variable::"):
            for x in v["es"]:
                if x["n"].split("::")[-1] == "boolean":
                    return {"names": (num, ty), "boolean": ("en", x["q"], int(x["v"]))}
    raise F.AnalysisBroken("Variable::boolean not found")


def parts(v):
    out = []
    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.append(x)
            for y in x:
                go(y)
    go(v)
    return out


def analyse(P, R, fn, balanced, direct, through):
    h = H(R, P, fn, balanced, direct)
    h.through = through
    h.skip_asserts = True
    I = Interp(P, h)
    for s, k, v in I.run(fn, State(auto=(frozenset(), (), frozenset()))):
        if k == "ret":
            h.pending_bad(I, s, F.loc(fn))
    R.saw(I)
    return h


def report_bad(R, fn, bad):
    for rule, what, w, why in bad:
        R.bad(rule, f"{fn['q']}: {what}", w, why)


def check(P, R):
    R.rule("C06.paired", "on every path a variable is put on the trail if and only if it is given a value in the model of its type")
    R.rule("C06.fresh", "only unassigned variables are propagated")
    R.rule("C06.polarity", "the value of a propagated variable makes the propagated literal true / is the evaluation of its constraint")
    direct, callers = reach_ops(P)
    work = sorted(direct)
    balanced = set()
    tried = set()
    through = set()
    inner = {}
    n = pol = 0
    while work:
        fid = work.pop(0)
        if fid in tried:
            continue
        tried.add(fid)
        fn = P.fns[fid]
        try:
            h = analyse(P, R, fn, balanced, direct, through)
        except absint.Limit:
            # too large in context: judge the functions it calls by themselves
            if not inner:
                raise
            h = None
        if h is None:
            for f in inner.values():
                report_bad(R, f[0], f[1])
            continue
        n += h.seen
        pol += h.pol
        if not h.bad:
            balanced.add(fid)
            if h.seen:
                R.ok("C06.paired", fn["q"])
                R.ok("C06.fresh", fn["q"])
            if h.pol:
                R.ok("C06.polarity", fn["q"])
            continue
        ups = [c for c in callers.get(fid, ()) if P.fns[c]["q"] not in ROOT_BASES]
        own = [c for c in ups if P.fns[c]["q"].rsplit("::", 1)[0] == fn["q"].rsplit("::", 1)[0]]
        ups = own or (ups if sum(1 for _ in F.walk(fn.get("b"))) < 80 else [])
        root = fn.get("virt") or any(P.fns[fid]["id"] in P.over.get(b, ()) for b in P.over) or not ups
        pol_only = [b for b in h.bad if b[0] == "C06.polarity"]
        inner[fid] = (fn, h.bad)
        if root or len(tried) > 60 or pol_only and all(b[0] == "C06.polarity" for b in h.bad):
            report_bad(R, fn, h.bad)
        else:
            through.add(fid)
            for c in sorted(ups):
                tried.discard(c)
                balanced.discard(c)
                work.append(c)
    R.notes["operations_seen"] = n
    R.notes["polarity_checks"] = pol
    R.need(6, "C06.paired")
    R.need(3, "C06.polarity")

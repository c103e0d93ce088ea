"""C10: rational arithmetic and comparisons are exact; C11: the representation stays consistent. One engine."""
import itertools, json, os, sys
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction as Fr
from math import gcd as igcd
import facts as F
from ratint import *
import ratint

EXPLANATION = ("Interval and polynomial-identity abstract interpretation of every arithmetic, comparison, rounding and conversion operation of the rational number class, helpers inlined. "
               "Each operation is analysed for every representation of its operands (machine word, big number, both), every sign and every aliasing; the result on every path is a rational function of the operands, compared with the exact result by polynomial identity; "
               "every signed operation is shown not to overflow by intervals and the guards on the path.")
ASSUMPTIONS = ["GMP functions have their documented value semantics", "operands satisfy the class invariant on entry (checked on exit of every operation)", "divisors are nonzero"]
RULES = {"value": "the result equals the exact mathematical result on every path", "overflow": "no signed overflow, division by zero or abort on any path",
         "compare": "comparisons, sign and integrality tests agree with the mathematical order"}
REPR = {"repr": "after every operation the representation invariant holds: some part is valid, valid parts agree, the fraction is in lowest terms with a positive denominator, and the machine-word part is valid whenever the value fits it; big numbers are read only when valid",
        "owner": "every object with an allocated big number owns it exclusively"}

W, M, V = 1, 2, 4
NUMS = [1, 2, 3, 4, 5, 6, 7, 12, 46341, 65535, 65536, 2**30, 2**31 - 3, 2**31 - 2, 2**31 - 1]
DENS = [1, 2, 3, 4, 5, 6, 12, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 4, 2**32 - 3, 2**32 - 2, 2**32 - 1]


def fractions(sign):
    out = []
    for d in DENS:
        for n in NUMS + ([2**31] if sign < 0 else []):
            if igcd(n, d) == 1:
                out.append((sign * n, d))
    return out


FR = {1: fractions(1), -1: fractions(-1)}
BIGS = {1: [Fr(2**31), Fr(2**40), Fr(1, 2**33), Fr(2**33, 3), Fr(2**31 + 1, 2**32 - 1), Fr(3, 2**32 + 1), Fr(2**32), Fr(2**31 + 1, 2)],
        -1: [-Fr(2**31 + 1), -Fr(2**40), -Fr(1, 2**33), -Fr(2**33, 3), -Fr(2**32)]}


class Entry:
    """Operands: name -> (state, sign); plain integer parameters: name -> type."""

    def __init__(self, objs, ints):
        self.objs, self.ints = objs, ints

    def setup(self, I_):
        st = St()
        st.fr.append({})
        self.oid, self.val, self.hof = {}, {}, {}
        for n, (state, sign) in self.objs.items():
            oid = "obj_" + n
            o = {"state": ratint.I("int", RK(state), state, state), "num": None, "den": None, "mpq": None}
            if state & W:
                if sign == 0:
                    nn, dd = ik("int", 0), ik("unsigned int", 1)
                else:
                    sn, sd = f"{n}.num", f"{n}.den"
                    st.b[sn] = (1, 2**31 - 1) if sign > 0 else (-2**31, -1)
                    st.b[sd] = (1, 2**32 - 1)
                    nn, dd = ratint.I("int", RS(sn), *st.b[sn]), ratint.I("unsigned int", RS(sd), 1, 2**32 - 1)
                    st.cop.append((RS(sn), RS(sd)))
                    st.canon[n] = (RS(sn), RS(sd))
                o["num"], o["den"] = nn, dd
                self.val[n] = nn.R / dd.R
            else:
                o["num"], o["den"] = ratint.I("int", RS(f"{n}.staleN"), *RANGE["int"]), ratint.I("unsigned int", RS(f"{n}.staleD"), *RANGE["unsigned int"])
                st.b[f"{n}.staleN"], st.b[f"{n}.staleD"] = RANGE["int"], RANGE["unsigned int"]
                sv = f"{n}.value"
                st.b[sv] = (Fr(1, BIG), BIG) if sign > 0 else (-BIG, -Fr(1, BIG))
                self.val[n] = RS(sv)
                st.preds.append(("nofit", RS(sv), True))
            if state & M:
                h = "h_" + n
                st.hs[h] = {"n": None, "d": None, "val": None, "canon": False, "live": True}
                if state & V:
                    st.hs[h].update(val=self.val[n], canon=True)
                    if state & W:
                        st.hs[h].update(n=o["num"].R, d=o["den"].R)
                o["mpq"] = ("h", h)
                self.hof[n] = h
            st.objs[oid] = o
            self.oid[n] = oid
        for n, t in self.ints.items():
            st.b[n] = RANGE[t] if t in RANGE else (-BIG, BIG)
            self.val[n] = RS(n)
        return st

    def valuations(self, st):
        axes, names = [], []
        for n, (state, sign) in self.objs.items():
            if state & W:
                if sign == 0:
                    continue
                axes.append([{f"{n}.num": a, f"{n}.den": b} for a, b in FR[sign]])
            else:
                axes.append([{f"{n}.value": v, f"{n}.staleN": a, f"{n}.staleD": b} for v in BIGS[sign] for a, b in ((0, 1), (1, 1), (7, 3))])
        for n, t in self.ints.items():
            if t in RANGE:
                mn, mx = RANGE[t]
                axes.append([{n: v} for v in (mn, mn + 1, -65536, -6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 6, 12, 65536, 2**31 - 1, 2**31, mx - 1, mx) if mn <= v <= mx])
            elif t == "mpz":
                axes.append([{n: v} for v in (0, 1, -1, 5, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**40, -2**40)])
            else:
                axes.append([{n: v} for v in (Fr(0), Fr(1, 2), Fr(-3), Fr(2**31), Fr(1, 2**33))])
        for combo in itertools.product(*axes):
            d = {}
            for c in combo:
                d.update(c)
            yield d

    def describe(self, val):
        out = []
        for n, (state, sign) in self.objs.items():
            rep = {1: "word", 3: "word", 6: "big", 7: "word and big"}[state]
            v = Fr(val[f"{n}.num"], val[f"{n}.den"]) if state & W and sign else Fr(0) if state & W else val[f"{n}.value"]
            out.append(f"{n} = {v} ({rep})")
        for n in self.ints:
            out.append(f"{n} = {val[n]}")
        return ", ".join(out)


STATES = {"quick": (1, 6, 7), "thorough": (1, 3, 6, 7)}


def entries(objs, ints, states, pre=None):
    opts = []
    for n in objs:
        o = []
        for s in states:
            for sign in ((1, 0, -1) if s & W else (1, -1)):
                o.append((s, sign))
        opts.append(o)
    for combo in itertools.product(*opts):
        d = dict(zip(objs, combo))
        if pre and any(d[n][1] == 0 for n in pre if n in d):
            continue
        yield Entry(d, ints)


def rules(I_):
    pass


class Op:
    """One operation of the class with its specification."""

    def __init__(self, name, fn, kind, spec, args=(), nonzero=(), alias=True, ints=(), modifies=False):
        self.name, self.fn, self.kind, self.spec = name, fn, kind, spec
        self.args, self.nonzero, self.alias, self.ints, self.modifies = args, nonzero, alias, dict(ints), modifies


def find_ops(P):
    ops = []

    def m(name, n=None, pred=None):
        for f in P.by_name.get(OBJ + "::" + name, []):
            if f.get("b") is None or (n is not None and len(f["ps"]) != n) or (pred and not pred(f)):
                continue
            yield f
    isobj = lambda p: F.strip_targs(p["t"]).replace("const ", "").replace("&", "").strip() == OBJ
    for o, sp in (("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b)):
        for f in m("operator" + o, 1, lambda f: isobj(f["ps"][0])):
            ops.append(Op("operator" + o, f, "value", lambda v, sp=sp: sp(v["a"], v["b"]), ("b",), ("b",) if o == "/" else ()))
        for f in m("operator" + o + "=", 1, lambda f: isobj(f["ps"][0])):
            ops.append(Op("operator" + o + "=", f, "this", lambda v, sp=sp: sp(v["a"], v["b"]), ("b",), ("b",) if o == "/" else (), modifies=True))
    for f in m("operator-", 0):
        ops.append(Op("unary minus", f, "value", lambda v: -v["a"]))
    for f in m("negate", 0):
        ops.append(Op("negate", f, "this", lambda v: -v["a"], modifies=True))
    for nm in ("inverse", "inv"):
        for f in m(nm, 0):
            ops.append(Op(nm, f, "value", lambda v: RK(1) / v["a"], (), ("a",)))
    for o in ("<", ">", "<=", ">=", "==", "!="):
        for f in m("operator" + o, 1, lambda f: isobj(f["ps"][0])):
            ops.append(Op("operator" + o, f, "bool", o, ("b",)))
    for f in m("compare", 1, lambda f: isobj(f["ps"][0])):
        ops.append(Op("compare", f, "sign", lambda v: v["a"] - v["b"], ("b",)))
    for f in m("sign", 0):
        ops.append(Op("sign", f, "sign", lambda v: v["a"]))
    for nm, k in (("isZero", RK(0)), ("isOne", RK(1))):
        for f in m(nm, 0):
            ops.append(Op(nm, f, "is", k))
    for f in m("isInteger", 0):
        ops.append(Op("isInteger", f, "integer", None))
    for nm in ("ceil", "floor"):
        for f in m(nm, 0):
            ops.append(Op(nm, f, nm, None))
    for nm, k in (("numerator", "num"), ("denominator", "den"), ("get_num", "num"), ("get_den", "den")):
        for f in m(nm, 0):
            ops.append(Op(nm, f, k, None))
    for f in m("operator=", 1, lambda f: isobj(f["ps"][0])):
        mv = f["ps"][0]["t"].endswith("&&")
        ops.append(Op("move assignment" if mv else "copy assignment", f, "this", lambda v: v["b"], ("b",), alias=not mv, modifies="swap" if mv else True))
    for f in m("reset", 0):
        ops.append(Op("reset", f, "this", lambda v: RK(0), modifies=True))
    for f in m("Long_fraction"):
        ps = f["ps"]
        ts = [p["t"].replace("const ", "").strip() for p in ps]
        if len(ps) == 1 and isobj(ps[0]):
            mv = ts[0].endswith("&&")
            ops.append(Op("move constructor" if mv else "copy constructor", f, "ctor", lambda v: v["b"], ("b",), modifies="swap" if mv else False))
        elif not ps:
            ops.append(Op("default constructor", f, "ctor", lambda v: RK(0)))
        elif len(ps) == 1 and ts[0] in RANGE:
            ops.append(Op(f"constructor ({ts[0]})", f, "ctor", lambda v: v["n"], ints=[("n", ts[0])]))
        elif len(ps) == 2 and all(t in RANGE for t in ts):
            ops.append(Op(f"constructor ({', '.join(ts)})", f, "ctor", lambda v: v["n"] / v["d"], ints=[("n", ts[0]), ("d", ts[1])]))
        elif len(ps) == 1 and "mpz" in ts[0]:
            ops.append(Op("constructor (mpz)", f, "ctor", lambda v: v["z"], ints=[("z", "mpz")]))
        elif ps and ts[0] == "char *":
            ops.append(Op("constructor (string)", f, "ctor", lambda v: v["input"], ints=[("input", "rational")]))
    return ops


class Run(ratint.Interp):
    def load(self, st, lv, node):
        # a word part that was never set: some value
        if lv[0] == "fld" and lv[2] in ("num", "den") and st.objs[lv[1]].get(lv[2]) is None:
            t = "int" if lv[2] == "num" else "unsigned int"
            n = self.fresh("unset")
            st.b[n] = ratint.RANGE[t]
            st.defs.append((n, "any", ()))
            st.objs[lv[1]][lv[2]] = ratint.I(t, RS(n), *ratint.RANGE[t])
        return super().load(st, lv, node)


def value_of(st, o, I_, node):
    """(Rat, problem) of an object record."""
    s = o["state"].c() if o["state"] is not None else None
    if s is None:
        return None, "the representation is not determined"
    vs = []
    if s & W:
        n, d = o["num"], o["den"]
        if n is None or d is None:
            return None, "the machine-word part is not set"
        if d.R.const() == 0:
            return None, "the denominator is zero"
        vs.append(n.R / d.R)
    if s & V:
        h = o["mpq"]
        if not (isinstance(h, tuple) and h[0] == "h" and h[1]) or not st.hs[h[1]]["live"]:
            return None, "marked as holding a big number that is not allocated"
        if st.hs[h[1]]["val"] is None:
            return None, "marked as holding a big number although none was stored"
        vs.append(st.hs[h[1]]["val"])
        if not s & M:
            return None, "holds a big number that is not marked as allocated"
    if not vs:
        return None, "neither part is valid"
    return vs, None


def same(st, a, b):
    if a.eq(b):
        return True
    D = a - b
    if D.n.const() == 0:
        return True
    return st.sign(D) == {0}


def check_object(I_, st, oid, spec, what, node, value_rule="value"):
    """Representation invariant, and value == spec (if given)."""
    o = st.objs[oid]
    op = I_.op
    if spec is not None:
        spec0, spec = spec, st.norm(spec)
    vs, prob = value_of(st, o, I_, node)
    if prob:
        I_.oblige(st, "repr", f"{op}: {what}", node, False, None, prob)
        return None
    s = o["state"].c()
    for v in vs:
        if spec is not None:
            I_.oblige(st, value_rule, f"{op}: {what}", node, same(st, v, spec), lambda val, v=v: v.ev(val) != spec.ev(val), f"the value is {v}, not {spec}")
    if len(vs) == 2:
        I_.oblige(st, "repr", f"{op}: {what} agrees", node, same(st, *vs), lambda val: vs[0].ev(val) != vs[1].ev(val), "the two parts hold different values")
    if s & W:
        n, d = o["num"], o["den"]
        I_.oblige(st, "repr", f"{op}: {what} positive denominator", node, st.interval(d.R)[0] > 0 or d.lo > 0, lambda val: d.R.ev(val) <= 0, "denominator not positive")
        zero = n.R.const() == 0 or st.sign(n.R) == {0}
        cp = st.coprime(n.R, d.R) or (zero and (d.R.const() == 1))
        I_.oblige(st, "repr", f"{op}: {what} in lowest terms", node, cp, lambda val: igcd(int(abs(n.R.ev(val))), int(abs(d.R.ev(val)))) != 1, f"{n.R} / {d.R} is not in lowest terms")
    else:
        v = vs[0]
        known = any(k in ("fits_n", "fits_d") and x.eq(v) and not b for k, x, b in st.preds) or any(k == "nofit" and x.eq(v) for k, x, b in st.preds) \
            or any(k == "fits_z" and x.eq(v) and not b for k, x, b in st.preds)
        if not known:
            # the numerator of a number is known not to fit
            known = any(k == "fits_n" and not b and any(kd == "denof" and args[0].eq(x) and v.eq(x * RS(sd)) for sd, kd, args in st.defs) for k, x, b in st.preds)
        if not known:
            lo, hi = st.interval(v)
            known = lo > 2**31 - 1 or hi < -2**31

        def fits(val):
            x = Fr(v.ev(val))
            return -2**31 <= x.numerator < 2**31 and x.denominator < 2**32
        I_.oblige(st, "repr", f"{op}: {what} uses the word part when it can", node, known, fits, "a value that fits the machine word is kept only as a big number")
        I_.oblige(st, "repr", f"{op}: {what} big number canonical", node, st.hs[o["mpq"][1]]["canon"], None, "big number is not in canonical form")
    return vs[0]


def ownership(I_, st, node, skip=()):
    seen = {}
    for oid, o in st.objs.items():
        if oid in skip or o["state"] is None:
            continue
        s = o["state"].c()
        if s is None or not s & M:
            continue
        h = o["mpq"]
        if not (isinstance(h, tuple) and h[0] == "h" and h[1]):
            I_.oblige(st, "owner", f"{I_.op}: allocated", node, False, None, "marked as allocated without a big number")
            continue
        if not st.hs[h[1]]["live"]:
            I_.oblige(st, "owner", f"{I_.op}: released", node, False, None, "keeps a big number that was given back to the pool")
        elif h[1] in seen:
            I_.oblige(st, "owner", f"{I_.op}: shared", node, False, None, "two objects own the same big number")
        else:
            I_.oblige(st, "owner", f"{I_.op}: exclusive", node, True, None, "")
        seen[h[1]] = oid


def run_op(P, op, tier):
    """Analyse one operation for every entry configuration. Returns plain data."""
    I_ = Run(P)
    I_.op = op.name
    res = {"op": op.name, "configs": 0, "paths": 0, "unsupported": None, "line": op.fn.get("line", 0)}
    objs = (["a"] if op.kind != "ctor" else []) + list(op.args)
    configs = list(entries(objs, op.ints, STATES[tier], op.nonzero))
    cfgs = [(e, False) for e in configs]
    if op.args and op.alias and "a" in objs:
        cfgs += [(e, True) for e in entries(["a"], op.ints, STATES[tier], ["a"] if op.nonzero else None)]
    node = {"l": op.fn.get("line", 0)}
    I_.stack.append((op.fn["q"].replace("yaga::", ""), F.rel(op.fn["file"])))
    try:
        for e, alias in cfgs:
            I_.entry = e
            I_.n = 0
            st = e.setup(I_)
            v = dict(e.val)
            if alias:
                v["b"] = v["a"]
            args = []
            for n in op.args:
                args.append(("obj", e.oid["a" if alias else n]))
            for n, t in op.ints.items():
                if t == "mpz":
                    args.append(("zsym", RS(n)))
                elif t == "rational":
                    args.append(("str",))
                else:
                    if n == "d":
                        st.b[n] = (1, RANGE[t][1])
                    args.append(ratint.I(t, RS(n), *st.b[n]))
            while len(args) < len(op.fn["ps"]):
                args.append(ik("int", 10))
            res["configs"] += 1
            try:
                if op.kind == "ctor":
                    s, oid = I_.new_obj(st)
                    outs = I_.construct(s, op.fn, oid, args, node)
                else:
                    outs = I_.apply(st, op.fn, ("obj", e.oid["a"]), args, node)
            except Infeasible:
                outs = []
            for s, r in outs:
                res["paths"] += 1
                judge(I_, s, r, op, e, v, node)
            if len(I_.viol) > 12:
                break
    except Unsupported as ex:
        res["unsupported"] = str(ex)
        I_.viol = []
    res["proven"] = [(k[0], k[1], n) for k, n in I_.proven.items()]
    res["undecided"] = I_.undecided[:20]
    res["viol"] = I_.viol
    res["visited"] = sorted(I_.visited)
    return res


def judge(I_, st, r, op, e, v, node):
    kind = op.kind
    live = {o: oid for o, oid in e.oid.items()}
    # operands keep their value and stay well formed
    for n, oid in live.items():
        if n == "a" and op.modifies and kind == "this":
            continue
        if op.modifies == "swap":
            continue
        check_object(I_, st, oid, e.val[n], f"operand {n} unchanged", node)
    if isinstance(r, tuple) and r and r[0] == "bind":
        r = r[1]
    if kind == "this":
        check_object(I_, st, live["a"], op.spec(v), "result", node)
    elif kind in ("value", "ctor"):
        if not (isinstance(r, tuple) and r[0] == "obj"):
            raise Unsupported("result is not a number")
        check_object(I_, st, r[1], op.spec(v), "result", node)
    elif kind in ("num", "den"):
        x = check_object(I_, st, r[1], None, "result", node)
        if x is not None:
            a = v["a"]
            want = None
            st2 = st
            if e.objs["a"][0] & W:
                o = e.objs["a"]
                want = RK(0 if kind == "num" else 1) if o[1] == 0 else st.norm(RS("a." + kind))
                I_.oblige(st, "value", f"{op.name}: result", node, same(st, x, want), lambda val: x.ev(val) != want.ev(val), f"the value is {x}")
            else:
                d = next((RS(s) for s, k, args in st.defs if k == "denof" and args[0].eq(a)), None)
                want = None if d is None else (a * d if kind == "num" else d)
                ok = want is not None and same(st, x, want)

                def wrong(val):
                    f = Fr(a.ev(val))
                    return x.ev(val) != (f.numerator if kind == "num" else f.denominator)
                I_.oblige(st, "value", f"{op.name}: result", node, ok, wrong, f"the value is {x}")
    elif kind in ("ceil", "floor"):
        x = check_object(I_, st, r[1], None, "result", node)
        if x is not None:
            a = st.norm(v["a"])
            lo, hi = (a, a + RK(1)) if kind == "ceil" else (a - RK(1), a)
            # ceil: a <= x < a+1; floor: a-1 < x <= a
            d1, d2 = x - lo, hi - x
            first = {0, 1} if kind == "ceil" else {1}
            second = {1} if kind == "ceil" else {0, 1}
            exact = any(k == kind and st.norm(RS(s)).eq(x) and st.norm(args[0]).eq(a) for s, k, args in st.defs)
            if kind == "floor":
                # ceil(a) - 1 of a number that is not an integer
                for s, k, args in st.defs:
                    if k == "ceil" and st.norm(args[0]).eq(a) and (x + RK(1)).eq(st.norm(RS(s))):
                        exact = not_integer(st, a, e)
            ok = exact or (sgn2(st, d1) <= first and sgn2(st, d2) <= second)

            def wrong(val):
                y, z = x.ev(val), Fr(a.ev(val))
                return y != (-((-z) // 1) if kind == "ceil" else z // 1)
            I_.oblige(st, "value", f"{op.name}: result", node, ok, wrong, f"the value is {x}")
    else:
        verdict(I_, st, r, op, e, v, node)
    ownership(I_, st, node)


def sgn2(st, R):
    s = st.sign(R)
    # numerator after the late substitutions, multiplied out by the positive denominator
    if R.d != ONE and st.pint(R.d)[0] > 0:
        s &= st.sign(Rat(R.n))
    return s


def not_integer(st, a, e):
    for k, x, b in st.preds:
        if k == "fits_d" and x.eq(a) and not b:
            return True
    for s, k, args in st.defs:
        if k == "denof" and args[0].eq(a) and st.nonzero(RS(s) - RK(1)):
            return True
    return False


def truths(I_, st, r):
    """[(state, python value)] of a boolean or sign result."""
    if isinstance(r, bool):
        return [(st, r)]
    if isinstance(r, ratint.I):
        if r.c() is not None:
            return [(st, r.c())]
        return I_.signs(st, r.R)
    if isinstance(r, tuple) and r and r[0] == "sgn":
        return I_.signs(st, r[1])
    if isinstance(r, tuple) and r and r[0] == "pred":
        return I_.truth(st, r)
    raise Unsupported("result")


def equal_parts(st, e):
    """Representations of a and b that make a == b / a != b certain."""
    cn = st.canon
    if "a" in cn and "b" in cn:
        for x, y in zip(cn["a"], cn["b"]):
            if st.nonzero(x - y):
                return {-1, 1}
    return {-1, 0, 1}


def verdict(I_, st, r, op, e, v, node):
    for s, x in truths(I_, st, r):
        if op.kind == "sign":
            D = s.norm(op.spec(v))
            x = (x > 0) - (x < 0)
            got = f"says {'less' if x < 0 else 'greater' if x > 0 else 'equal'}"
            sg = sgn2(s, D) & (equal_parts(s, e) if op.args else {-1, 0, 1})
            ok = sg <= {x}
            I_.oblige(s, "compare", f"{op.name}", node, ok, lambda val: ((D.ev(val) > 0) - (D.ev(val) < 0)) != x, got)
        elif op.kind == "bool":
            D = s.norm(v["a"] - v["b"])
            want = {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {0, 1}, "==": {0}, "!=": {-1, 1}}[op.spec]
            sg = sgn2(s, D) & equal_parts(s, e)
            ok = sg <= want if x else not (sg & want)
            I_.oblige(s, "compare", f"{op.name}", node, ok, lambda val: (((D.ev(val) > 0) - (D.ev(val) < 0)) in want) != bool(x), f"answers {x}")
        elif op.kind == "is":
            D = s.norm(v["a"] - op.spec)
            sg = sgn2(s, D)
            state, sign = e.objs["a"]
            if not state & W:
                sg = {-1, 1}      # does not fit a word, so it is neither 0 nor 1
            elif sign and (s.nonzero(RS("a.den") - RK(1)) or s.nonzero(RS("a.num") - op.spec)):
                sg = sg - {0}
            ok = sg <= {0} if x else not (0 in sg)
            I_.oblige(s, "compare", f"{op.name}", node, ok, lambda val: (D.ev(val) == 0) != bool(x), f"answers {x}")
        elif op.kind == "integer":
            state, sign = e.objs["a"]
            if state & W:
                d = RK(1) if sign == 0 else RS("a.den")
                # the path may have replaced the symbol
                sg = s.sign(d - RK(1))
                one = s.b.get("a.den", (1, 1)) == (1, 1) or d.const() == 1 or any(op_ == "eq" and f.eq(d - RK(1)) for op_, f in s.path)
                ok = one if x else not (0 in sg)
                I_.oblige(s, "compare", op.name, node, ok, lambda val: (d.ev(val) == 1) != bool(x), f"answers {x}")
            else:
                a = v["a"]
                D = next((RS(sym) for sym, k, args in s.defs if k == "denof" and args[0].eq(a)), None)
                big = any(k == "fits_d" and y.eq(a) and not b for k, y, b in s.preds)
                if x:
                    ok = D is not None and any(op_ == "eq" and (f.eq(D - RK(1)) or f.eq(RK(1) - D)) for op_, f in s.path)
                else:
                    ok = big or (D is not None and s.nonzero(D - RK(1)))
                I_.oblige(s, "compare", op.name, node, ok, lambda val: (Fr(a.ev(val)).denominator == 1) != bool(x), f"answers {x}")


_P = None


def _job(a):
    i, tier = a
    sys.setrecursionlimit(20000)
    ops = find_ops(_P)
    return run_op(_P, ops[i], tier)


def analyse(P, tier):
    global _P
    _P = P
    ops = find_ops(P)
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
        return list(ex.map(_job, [(i, tier) for i in range(len(ops))]))


def report(P, R, keep):
    for k, t in keep.items():
        R.rule(f"{R.prop}.{k}", t)
    res = analyse(P, R.tier)
    if len(res) < 20:
        raise F.AnalysisBroken(f"only {len(res)} operations of the rational class were found")
    und, unsup, configs, paths = [], [], 0, 0
    for r in res:
        configs += r["configs"]
        paths += r["paths"]
        if r["unsupported"]:
            unsup.append(f"{r['op']}: {r['unsupported']}")
        for k, what, n in r["proven"]:
            if k in keep:
                R.instances[(f"{R.prop}.{k}", what)] = R.instances.get((f"{R.prop}.{k}", what), 0) + n
        for k, what, loc, det in r["undecided"]:
            if k in keep:
                und.append(f"{what} at {loc}: {det}")
        for k, what, loc, det in r["viol"]:
            if k in keep:
                R.bad(f"{R.prop}.{k}", what, loc, det)
        R.functions |= set(r["visited"])
    R.notes["operations"] = [r["op"] for r in res]
    R.notes["operand_configurations"] = configs
    R.notes["paths"] = paths
    R.notes["operations_not_analysable"] = unsup
    R.notes["obligations_neither_derived_nor_refuted"] = sorted(set(und))[:60]


def check(P, R):
    report(P, R, RULES)
    R.need(20, "C10.value")
    R.need(5, "C10.compare")

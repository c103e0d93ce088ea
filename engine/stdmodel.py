"""Models of the standard-library operations /repo uses, over abstract values."""
from facts import strip_targs, walk
import re

NONE = ("none",)


def C(v):
    return ("c", v)


CONTAINERS = {"std::vector", "std::deque", "std::array", "std::span", "std::basic_string", "std::basic_string_view", "std::initializer_list", "std::list",
              "std::ranges::view_interface", "std::ranges::subrange", "std::_Bit_reference"}
ITER = ("__gnu_cxx::__normal_iterator", "std::_Deque_iterator", "std::reverse_iterator", "std::move_iterator", "std::__detail::_Node_iterator",
        "std::__detail::_Node_const_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::ranges::elements_view::_Iterator",
        "std::ranges::transform_view::_Iterator", "std::ranges::iota_view::_Iterator", "std::_Bit_iterator")
PASS = {"std::move", "std::forward", "std::as_const", "std::move_if_noexcept", "std::__niter_base", "std::make_move_iterator", "std::ref", "std::cref", "std::addressof"}


def pure(name, *vals):
    return ("call", name, tuple(vals))


def size_of(v):
    if v[0] == "vec" and not any(x[0] == "each" for x in v[1]):
        return C(len(v[1]))
    d = 0
    while v[0] in ("push", "pop", "upd"):
        d += 1 if v[0] == "push" else -1 if v[0] == "pop" else 0
        v = v[1]
    if v[0] == "vec" and not any(x[0] == "each" for x in v[1]):
        return C(len(v[1]) + d)
    s = pure("size", v)
    return s if d == 0 else ("op", "+", s, C(d))


def advance(I, it, d):
    if it[0] == "it":
        pos = it[2]
        if pos[0] == "b" and d[0] == "c":
            return ("it", it[1], ("b", pos[1] + d[1]))
        if pos[0] == "e" and d[0] == "c":
            return ("it", it[1], ("e", pos[1] + d[1]))
        if pos == ("b", 0):
            return ("it", it[1], ("i", d))
        if pos[0] == "i":
            return ("it", it[1], ("i", I.arith("+", pos[1], d)))
        return ("it", it[1], ("x", pos, d))
    return I.arith("+", it, d)


def it_elem(it):
    pos = it[2]
    if pos[0] == "b":
        return ("at", C(pos[1]))
    if pos[0] == "e":
        if pos[1] == -1:
            return ("at", ("last",))
        return ("at", ("fromend", pos[1]))
    if pos[0] == "i":
        return ("at", pos[1])
    if pos[0] == "any":
        return ("elem", pos[1])
    return ("at", pos)


def deref_it(I, st, v):
    if v[0] == "it":
        return ("ref", I.sub(v[1], it_elem(v)))
    if v[0] == "ref":
        return v
    return ("ref", (("M", v), ()))


def model(I, st, n, q, obj, args, outs):
    val = lambda a: I.val(st, a)
    name = q.split("::")[-1]
    cls = q.rsplit("::", 1)[0]
    if q in PASS and len(args) >= 1:
        return [(st, args[0])]
    if q in ("std::swap", "std::iter_swap", "std::ranges::swap"):
        if q == "std::iter_swap":
            a, b = [deref_it(I, st, val(x))[1] for x in args]
        else:
            a, b = args[0][1] if args[0][0] == "ref" else None, args[1][1] if args[1][0] == "ref" else None
        if a is None or b is None:
            return [(st, ("void",))]
        x, y = I.read(st, a), I.read(st, b)
        s = I.write(st, a, y, n)
        s = I.write(s, b, x, n)
        return [(s, ("void",))]
    if q == "std::exchange":
        a = args[0][1]
        old = I.read(st, a)
        return [(I.write(st, a, val(args[1]), n), old)]
    if q in ("std::min", "std::max") and len(args) == 2:
        out = []
        a, b = val(args[0]), val(args[1])
        for s, t in I.split(st, I.cmp("<", a, b)):
            pick = (0 if t else 1) if q == "std::min" else (1 if t else 0)
            out.append((s, args[pick]))
        return out
    if q in ("abs", "std::abs"):
        a = val(args[0])
        return [(s, I.minus(a) if t else a) for s, t in I.split(st, I.cmp("<", a, C(0)))]
    if q in ("std::make_pair", "std::pair::pair") and len(args) == 2:
        return [(st, ("agg", "std::pair", (("first", val(args[0])), ("second", val(args[1])))))]
    if q in ("std::make_tuple", "std::tie", "std::forward_as_tuple"):
        return [(st, ("agg", "std::tuple", tuple((str(i), val(a)) for i, a in enumerate(args))))]
    if q == "std::get":
        m = re.search(r"#T<(\d+)", n.get("f", ""))
        m2 = re.search(r"get<#V[lmi]*(\d+)", n.get("f", ""))
        i = (m or m2)
        a = args[0]
        if i:
            idx = i.group(1)
            fld = {"0": "first", "1": "second"}.get(idx, idx)
            v = val(a)
            if v[0] == "agg" and v[1] == "std::tuple" or "tuple" in (n.get("pt") or [""])[0].split("<")[0]:
                fld = idx
            if a[0] == "ref":
                return [(st, ("ref", I.sub(a[1], fld)))]
            return [(st, I.project(st, v, fld))]
        return [(st, pure("std::get" + (n.get("f", "").split("#T")[-1]), val(a)))]
    if q in ("std::make_unique", "std::make_shared"):
        m = re.search(r"#T<(.*)", n.get("f", ""))
        o = ("own", I.site(n), n.get("t"), len(I.stack))
        s = I.write(st, (("M", o), ()), ("call", "make", tuple(val(a) for a in args)))
        return [(s, o)]
    # ---------------------------------------------------------- smart pointers, optionals
    if cls in ("std::unique_ptr", "std::shared_ptr"):
        v = I.read(st, obj)
        if name in ("operator->", "get"):
            return [(st, v)]
        if name == "operator*":
            return [(st, ("ref", I.deref(v)))]
        if name == "operator bool":
            return [(st, v if v[0] in ("c", "own", "ref") else I.cmp("!=", v, C(None)))]
        if name == "operator=":
            return [(I.write(st, obj, val(args[0]), n), ("ref", obj))]
        if name == "reset":
            return [(I.write(st, obj, val(args[0]) if args else C(None), n), ("void",))]
        if name == "release":
            return [(I.write(st, obj, C(None), n), v)]
    if q in ("std::make_optional",):
        return [(st, ("some", val(args[0])))]
    if cls == "std::optional":
        v = I.read(st, obj)
        if name in ("has_value", "operator bool"):
            if v[0] == "some":
                return [(st, C(True))]
            if v == NONE:
                return [(st, C(False))]
            return [(st, pure("has_value", v))]
        if name in ("value", "operator*"):
            return [(st, ("ref", I.sub(obj, "*")))]
        if name == "operator->":
            return [(st, ("ref", I.sub(obj, "*")))]
        if name == "operator=":
            a = val(args[0])
            at = (n.get("pt") or [""])[0]
            if "nullopt" in at or a == NONE:
                nv = NONE
            elif "std::optional<" in at.split("&")[0]:
                nv = a
            else:
                nv = a if a[0] in ("some",) else ("some", a)
            return [(I.write(st, obj, nv, n), ("ref", obj))]
        if name == "reset":
            return [(I.write(st, obj, NONE, n), ("void",))]
        if name == "emplace":
            return [(I.write(st, obj, ("some", val(args[0]) if args else ("uninit",)), n), ("ref", I.sub(obj, "*")))]
        if name == "value_or":
            out = []
            for s, t in I.split(st, C(True) if v[0] == "some" else C(False) if v == NONE else pure("has_value", v)):
                out.append((s, I.project(s, v, "*") if t else I.val(s, args[0])))
            return out
    # ---------------------------------------------------------- iterators
    if cls in ITER or q in ("__gnu_cxx::operator==", "__gnu_cxx::operator!=", "__gnu_cxx::operator-", "std::__detail::operator==", "__gnu_cxx::operator<",
                            "std::operator==", "std::operator!=", "__gnu_cxx::operator<=>"):
        if name in ("operator*", "operator->") and obj is not None:
            v = I.read(st, obj)
            return [(st, deref_it(I, st, v))]
        if name in ("operator++", "operator--") and obj is not None:
            v = I.read(st, obj)
            nv = advance(I, v, C(1 if name == "operator++" else -1))
            s = I.write(st, obj, nv, n)
            return [(s, v if args else ("ref", obj))]
        if name in ("operator+", "operator-") and obj is not None and args:
            b = val(args[0])
            a = I.read(st, obj)
            if b[0] == "it" and a[0] == "it":
                return [(st, itdiff(I, a, b))]
            return [(st, advance(I, a, b if name == "operator+" else I.minus(b)))]
        if name in ("operator+=", "operator-="):
            b = val(args[0])
            s = I.write(st, obj, advance(I, I.read(st, obj), b if name == "operator+=" else I.minus(b)), n)
            return [(s, ("ref", obj))]
        if name == "operator[]":
            v = advance(I, I.read(st, obj), val(args[0]))
            return [(st, deref_it(I, st, v))]
        if name == "base":
            return [(st, I.read(st, obj))]
        if name == "operator=":
            return [(I.write(st, obj, val(args[0]), n), ("ref", obj))]
        if name in ("operator==", "operator!=", "operator<") and len(args) + (obj is not None) == 2:
            vs = ([I.read(st, obj)] if obj is not None else []) + [val(a) for a in args]
            if any(v == NONE or v[0] == "some" for v in vs) or any("nullopt" in p for p in n.get("pt", [])):
                a, b = vs
                pt = n.get("pt", [])
                if len(pt) == 2 and obj is None and sum("optional<" in p for p in pt) == 1 and not any("nullopt" in p for p in pt):
                    # an optional compared with a value
                    o, w = (a, b) if "optional<" in pt[0] else (b, a)
                    if o == NONE:
                        return [(st, C(name == "operator!="))]
                    if o[0] == "some":
                        return [(st, I.cmp(name[8:], *((o[1], w) if o is a else (w, o[1]))))]
                if b == NONE and a[0] not in ("some", "none"):
                    h = pure("has_value", a)
                    return [(st, I.neg(h) if name == "operator==" else h)]
                if a == NONE and b[0] not in ("some", "none"):
                    h = pure("has_value", b)
                    return [(st, I.neg(h) if name == "operator==" else h)]
                if a[0] == "some" and b[0] == "some":
                    return [(st, I.cmp(name[8:], a[1], b[1]))]
                if a[0] in ("some", "none") and b[0] in ("some", "none"):
                    return [(st, C((a == b) == (name == "operator==")))]
            return [(st, I.cmp(name[8:], vs[0], vs[1]))]
        if name == "operator-" and len(args) == 2:
            return [(st, itdiff(I, val(args[0]), val(args[1])))]
    if q in ("std::distance",):
        return [(st, itdiff(I, val(args[1]), val(args[0])))]
    if q in ("std::next", "std::prev"):
        d = val(args[1]) if len(args) > 1 else C(1)
        return [(st, advance(I, val(args[0]), d if q == "std::next" else I.minus(d)))]
    if q in ("std::begin", "std::end", "std::cbegin", "std::cend", "std::ranges::__cust_access::_Begin::operator()", "std::ranges::__cust_access::_End::operator()", "std::ranges::__access::_Begin::operator()",
             "std::ranges::__access::_End::operator()"):
        e = "end" in q.lower().split("::", 1)[1]
        if args[0][0] == "ref":
            return [(st, ("it", args[0][1], ("e", 0) if e else ("b", 0)))]
    if q in ("std::size", "std::ssize", "std::ranges::__access::_Size::operator()", "std::ranges::__cust_access::_Size::operator()"):
        return [(st, size_of(val(args[-1])))]
    # ---------------------------------------------------------- views
    if name == "operator()" and q.startswith("std::ranges::views"):
        m = re.search(r"views::_([A-Z]\w*)", n.get("n", ""))
        kind = m.group(1).lower() if m else "unknown"
        whole = "_Partial" not in n.get("t", "")
        if whole and args and args[0][0] == "ref":
            bv = val(args[0])
            base = bv if bv[0] == "view" else args[0]
            return [(st, ("view", kind, base, val(args[1]) if len(args) > 1 else None))]
        return [(st, ("viewfn", kind, val(args[0]) if args else None))]
    if name == "operator|" and "views" in q and len(args) == 2:
        f = val(args[1])
        if f[0] != "viewfn":
            m = re.search(r"views::_([A-Z]\w*)", (n.get("pt") or ["", ""])[1])
            f = ("viewfn", m.group(1).lower() if m else "unknown", None)
        bv = val(args[0])
        base = bv if bv[0] == "view" else args[0]
        return [(st, ("view", f[1], base, f[2]))]
    # ---------------------------------------------------------- sequences and maps
    if obj is not None and (cls in CONTAINERS or cls in ("std::unordered_map", "std::map", "std::unordered_set", "std::set", "std::stack", "std::queue", "std::unordered_multimap",
                                                         "std::ranges::ref_view", "std::ranges::owning_view", "std::ranges::transform_view", "std::ranges::elements_view", "std::ranges::iota_view")):
        v = I.read(st, obj)
        if name == "size" or name == "length":
            return [(st, size_of(v))]
        if name == "empty":
            return [(st, I.cmp("==", size_of(v), C(0)))]
        if name in ("begin", "cbegin"):
            return [(st, ("it", obj, ("b", 0)))]
        if name in ("end", "cend"):
            return [(st, ("it", obj, ("e", 0)))]
        if name in ("rbegin", "crbegin"):
            return [(st, ("it", obj, ("rb", 0)))]
        if name in ("rend", "crend"):
            return [(st, ("it", obj, ("re", 0)))]
        if name == "front":
            return [(st, ("ref", I.sub(obj, ("at", C(0)))))]
        if name == "back" or name == "top" and cls == "std::stack":
            return [(st, ("ref", I.sub(obj, ("at", ("last",)))))]
        if name in ("operator[]", "at"):
            return [(st, ("ref", I.sub(obj, ("at", val(args[0])))))]
        if name == "data":
            return [(st, ("it", obj, ("b", 0)))]
        if name in ("push_back", "emplace_back", "push", "emplace") and cls in ("std::vector", "std::deque", "std::stack", "std::queue", "std::list"):
            x = val(args[0]) if len(args) == 1 else pure("make", *[val(a) for a in args])
            if len(args) == 0:
                x = ("vec", ()) if n.get("t", "").replace("const ", "").startswith(("std::vector", "std::deque")) else pure("make")
            if len(args) == 2 and "pair<" in n.get("t", ""):
                x = ("agg", "std::pair", (("first", val(args[0])), ("second", val(args[1]))))
            if v[0] == "vec":
                items = v[1]
                if ("each", x) in items:
                    nv = v
                else:
                    nv = ("vec", items + (x,))
                if len(nv[1]) > 24:
                    nv = ("mut", I.site(n), len(I.stack))
            else:
                nv = ("push", v, x)
                if not depthok(nv):
                    nv = ("mut", I.site(n), len(I.stack), "push", x if depthok(x) else ("deep",))
            s = I.write(st, obj, nv, n)
            return [(s, ("ref", I.sub(obj, ("at", ("last",)))))]
        if name == "clear":
            return [(I.write(st, obj, ("vec", ()), n), ("void",))]
        if name == "pop_back" and v[0] == "vec" and v[1] and v[1][-1][0] != "each":
            return [(I.write(st, obj, ("vec", v[1][:-1]), n), ("void",))]
        if name == "pop_back" and cls in ("std::vector", "std::deque"):
            nv = v[1] if v[0] == "push" else ("pop", v)
            return [(I.write(st, obj, nv if depthok(nv) else ("mut", I.site(n), len(I.stack)), n), ("void",))]
        if name == "operator=":
            return [(I.write(st, obj, val(args[0]), n), ("ref", obj))]
        if name == "reserve":
            return [(st, ("void",))]
        if name in ("contains",):
            return [(st, pure("contains", v, val(args[0])))]
        if name == "count" and cls.startswith("std::unordered") or name == "count" and cls in ("std::map", "std::set"):
            return [(st, pure("count", v, val(args[0])))]
        if name == "find" and cls not in ("std::basic_string", "std::basic_string_view"):
            return [(st, ("it", obj, ("find", val(args[0]))))]
        if name == "swap":
            o = args[0][1]
            y = I.read(st, o)
            s = I.write(st, obj, y, n)
            return [(I.write(s, o, v, n), ("void",))]
        if not n.get("const"):
            vals = tuple(val(a) for a in args)
            s = I.write(st, obj, ("mut", I.site(n), len(I.stack), name) + tuple(x if depthok(x) else ("deep",) for x in vals), n)
            if name in ("insert", "emplace", "try_emplace") and cls.startswith("std::unordered") or cls in ("std::map", "std::set") and name in ("insert", "emplace"):
                return [(s, ("agg", "std::pair", (("first", ("it", obj, ("find", vals[0] if vals else ("?",)))), ("second", ("fresh", "inserted", I.site(n))))))]
            if name in ("insert", "erase"):
                return [(s, ("it", obj, ("x", I.site(n))))]
            return [(s, ("call", q, (v,) + vals))]
    if cls == "std::pair" and name == "operator=" and obj is not None and len(args) == 1:
        return [(I.write(st, obj, val(args[0]), n), ("ref", obj))]
    if cls == "std::_Bit_reference":
        if name == "operator=":
            return [(I.write(st, obj, val(args[0]), n), ("ref", obj))]
        if name == "operator bool":
            return [(st, I.read(st, obj))]
    # ---------------------------------------------------------- algorithms with a callback
    if (q.startswith("std::") or q.startswith("__gnu")) and any(val(a)[0] == "lam" for a in args):
        return algorithm(I, st, n, q, args, outs)
    if name == "operator()" and obj is not None:
        v = I.read(st, obj)
        if v[0] in ("lam", "fn"):
            return I.apply(st, v, args, n, outs)
    if q in ("std::any_of", "std::all_of", "std::none_of", "std::find_if"):
        return [(st, pure(q, *[val(a) for a in args]))]
    if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=") and len(args) + (obj is not None) == 2 and "::" in q and q.startswith("std::"):
        vs = ([I.read(st, obj)] if obj is not None else []) + [val(a) for a in args]
        return [(st, I.cmp(name[8:], vs[0], vs[1]))]
    if q in ("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest"):
        m = re.search(r"numeric_limits<([^>]*)>::(\w+)", n.get("n", ""))
        t = m.group(1) if m else "?"
        lim = {("int", "max"): 2**31 - 1, ("int", "min"): -2**31, ("unsigned int", "max"): 2**32 - 1, ("unsigned int", "min"): 0,
               ("long", "max"): 2**63 - 1, ("unsigned long", "max"): 2**64 - 1, ("long", "min"): -2**63, ("short", "max"): 2**15 - 1}
        return [(st, C(lim.get((t, name), 0)) if (t, name) in lim else ("call", q, (C(t),)))]
    return None


def depthok(x):
    import absint
    return absint.depth(x) <= 10


def itdiff(I, a, b):
    if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
        def pos(p):
            if p[0] == "b":
                return C(p[1])
            if p[0] == "e":
                return I.arith("+", pure("sizeof", ("lv", a[1])), C(p[1]))
            if p[0] == "i":
                return p[1]
            return ("pos", p)
        return I.arith("-", pos(a[2]), pos(b[2]))
    return I.arith("-", a, b)


def algorithm(I, st, n, q, args, outs):
    """std algorithms taking a lambda: the callback is analysed on a generic element, any number of
    times; the result is an uninterpreted name."""
    site = I.site(n)
    lam = None
    for a in args:
        v = I.val(st, a)
        if v[0] == "lam":
            lam = v
    node = I.sites[lam[1]]
    vals = [I.val(st, a) for a in args]
    cont = None
    for v, a in zip(vals, args):
        if v[0] == "it":
            cont = v[1]
            break
        if a[0] == "ref" and v[0] != "lam":
            cont = a[1]
            break
    if node.get("b") is None:
        return [(st, pure(q, *vals))]
    if q.split("::")[-1] in ("for_each", "operator()") and "for_each" in q.lower().replace("_fn", "") and len(node.get("ps") or ()) == 1 and cont is not None:
        return for_each(I, st, n, node, lam, cont, vals, outs, site)
    reach = [st]
    known = I.vec_items(I.read(st, cont)) if cont is not None else None
    if node.get("ps") is not None and "sort" not in q and known != []:
        cargs = []
        for i, p in enumerate(node["ps"]):
            if cont is not None:
                lv = I.sub(cont, ("elem", (site, i)))
                cargs.append(("ref", lv))
            else:
                cargs.append(("fresh", q, (site, i)))
        seen = {st.key()}
        work = [st]
        while work and len(seen) < 40:
            s0 = work.pop()
            a2 = [a if p.get("ref") else I.val(s0, a) for a, p in zip(cargs, node["ps"])]
            for s1, v in I.apply(s0, lam, a2, n, outs):
                if hasattr(I.H, "predicate"):
                    I.H.predicate(I, s1, q, a2, v, n)
                s1 = I.havoc_phi((site, 0), s1)
                s1 = State_drop(s1, s0)
                if s1.key() not in seen:
                    seen.add(s1.key())
                    reach.append(s1)
                    work.append(s1)
    name = q.split("::")[-1]
    if name == "operator()":
        name = q.split("::")[-2].strip("_").removesuffix("_fn")
    out = []
    if name in ("any_of", "all_of", "none_of", "find_if", "find_if_not") and cont is not None and len(node["ps"]) == 1:
        want = name not in ("all_of", "find_if_not")
        lv = I.sub(cont, ("elem", (site, 0)))
        hit = []
        starts = [I.havoc_phi((site, 0), s0) for s0 in reach]
        items = I.vec_items(I.read(st, cont))
        if items is not None:
            starts = [I.write(s0, lv, x) for s0 in starts for x in items]
        for s0 in starts:
            a2 = [("ref", lv) if node["ps"][0].get("ref") else I.read(s0, lv)]
            for s1, v in I.apply(s0, lam, a2, n, outs):
                for s2, t in I.split(s1, v):
                    if t == want:
                        hit.append(s2)
        if hasattr(I.H, "searched"):
            hit = [I.H.searched(I, s, name, cont, True, site) for s in hit]
            reach = [I.H.searched(I, s, name, cont, False, site) for s in reach]
        if name.startswith("find"):
            return [(s, ("it", cont, ("any", (site, 0)))) for s in hit] + [(s, ("it", cont, ("e", 0))) for s in reach]
        return [(s, C(name == "any_of")) for s in hit] + [(s, C(name != "any_of")) for s in reach]
    for s in reach:
        if name in ("find_if", "__find_if_fn", "find_if_not", "partition", "remove_if", "max_element", "min_element", "stable_partition", "lower_bound", "upper_bound") or "find" in q:
            out.append((s, ("it", cont, (name, site)) if cont is not None else pure(q, *vals)))
        elif name in ("sort", "stable_sort", "__sort_fn", "nth_element") or "sort" in q.lower():
            if cont is not None:
                old = I.read(s, cont)
                s = I.write(s, cont, ("mut", site, len(I.stack), "sort"), n)
            out.append((s, ("void",)))
        else:
            out.append((s, pure(q, *[v if depthok(v) else ("deep",) for v in vals], ("site", site))))
    return out


def for_each(I, st, n, node, lam, cont, vals, outs, site):
    its = [v for v in vals if v[0] == "it"]
    full = len(its) == 0 or len(its) >= 2 and its[0][2] == ("b", 0) and its[1][2] == ("e", 0)
    v = I.read(st, cont)
    fs, part = [], False
    if v[0] == "view":
        cont, fs, part = I.resolve_view(v)
        v = I.read(st, cont)
    info = {"node": n, "site": site, "range": cont, "val": v, "partial": part or not full, "entry": [st], "back": {}, "guard": {}, "breaks": False, "rec": {}, "head": None}
    lv = I.sub(cont, ("elem", site))
    seen, work, heads = set(), [st], []
    while work and len(seen) < 60:
        s0 = I.havoc_phi(site, work.pop())
        if s0.key() in seen:
            continue
        seen.add(s0.key())
        heads.append(s0)
        starts = [(s0, ("ref", lv))]
        for f in fs:
            starts = [r for s1, x in starts for r in I.apply(s1, f, [x], n, outs)]
        for s1, x in starts:
            s1 = I.H.iter_begin(I, s1, info) or s1
            a = x if node["ps"][0].get("ref") else I.val(s1, x)
            for s2, _ in I.apply(s1, lam, [a], n, outs):
                s2 = I.H.iter_end(I, s2, info, "next") or s2
                work.append(I.join(site, s0, s2) if s2.auto == s0.auto else s2)
    return [(I.H.loop_exit(I, s, info) or s, ("void",)) for s in heads]


def State_drop(s1, s0):
    """After a callback on a generic element keep only facts that held before."""
    s = s1.copy()
    s.facts = {k: v for k, v in s1.facts.items() if s0.facts.get(k) == v}
    s.rel = {k: v for k, v in s1.rel.items() if s0.rel.get(k) == v}
    return s


def construct(I, st, n, cls, args, outs):
    vals = [I.val(st, a) for a in args]
    if cls in ("std::optional",):
        if not vals or vals[0][0] == "none" or "nullopt" in (n.get("pt") or [""])[0]:
            return [(st, NONE)]
        pt = (n.get("pt") or [""])[0]
        if "std::optional<" in pt:
            return [(st, vals[0])]
        return [(st, ("some", vals[0]))]
    if cls == "std::nullopt_t":
        return [(st, NONE)]
    if cls == "std::pair" and len(vals) == 2:
        return [(st, ("agg", "std::pair", (("first", vals[0]), ("second", vals[1]))))]
    if cls == "std::pair" and len(vals) == 1:
        return [(st, vals[0])]
    if cls == "std::tuple":
        if len(vals) == 1:
            return [(st, vals[0])]
        return [(st, ("agg", "std::tuple", tuple((str(i), v) for i, v in enumerate(vals))))]
    if cls in ("std::unique_ptr", "std::shared_ptr"):
        if not vals:
            return [(st, C(None))]
        return [(st, vals[0])]
    if cls in ("std::vector", "std::deque"):
        real = [v for v, p in zip(vals, n.get("pt", []) + [""] * 9) if "allocator" not in p]
        pts = n.get("pt", [])
        if not vals or all("allocator" in p and "std::initializer_list" not in p and "std::vector" not in p for p in pts):
            return [(st, ("vec", ()))]
        if "initializer_list" in pts[0]:
            return [(st, vals[0] if vals[0][0] == "vec" else ("vec", (vals[0],)))]
        if pts[0].startswith("std::vector") or "const std::vector" in pts[0]:
            return [(st, vals[0])]
        return [(st, ("call", "ctor:" + cls, tuple(vals)))]
    if cls in ("std::unordered_map", "std::map", "std::unordered_set", "std::set", "std::stack") and (not vals or n.get("dflt")):
        return [(st, ("vec", ()))]
    if cls in ("std::span", "std::basic_string_view", "std::ranges::ref_view") and len(args) >= 1:
        if len(args) == 1:
            return [(st, vals[0])]
        return [(st, ("call", "ctor:" + cls, tuple(vals)))]
    if cls in ITER and vals:
        return [(st, vals[0])]
    if cls in ("std::basic_string",):
        if not vals:
            return [(st, C(""))]
        return [(st, vals[0])] if len([p for p in n.get("pt", []) if "allocator" not in p.split("<")[0]]) == 1 else [(st, ("call", "ctor:" + cls, tuple(vals)))]
    if cls == "std::function" and vals:
        return [(st, vals[0])]
    return None

"""Unification of types: what is changed, recorded and undone."""
from absint import *
from checklib import Check
from facts import AnalysisBroken, walk
from folding import dnf, sole, num
from irmodel import *
from reaching import subatoms
from cfgraph import contradictory

D = "codon/parser/ast/types/"
FILES = [D + x for x in ("class.cpp", "function.cpp", "link.cpp", "static.cpp", "traits.cpp", "type.cpp", "union.cpp")] + ["codon/parser/cache.cpp", "codon/parser/visitors/typecheck/special.cpp"]
T = "codon::ast::types::"
LINK = T + "LinkType"
U = src("undo")


TY = T + "Type"
# what a change of a field of a type has to be recorded in, and how it is undone
LISTS = {"kind": "linked", "type": "linked", "level": "leveled", "trait": "traits", "staticKind": "statics"}
QUERIES = ("canRealize", "isInstantiated", "hasUnbounds", "getUnbounds", "follow", "instantiate", "generalize", "realizedName", "isSealed",
           "getRealizationTypes", "getRetType", "realize", "instantiateType", "debugString", "is")


class UClient(IRClient):
    """unify, occurs and the queries of types stay uninterpreted; stores to types and entries of the undo record are traced"""
    stops = False

    def on_store(self, ai, st, lv, v):
        if any(a[0] in ("src", "op", "fld") for a in lv[1]):
            st.trace = st.trace + (("store", lv[1], lv[2], v, st.pc),)

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm, q = f["n"], f["qn"]
        own = q.startswith(T) and o is not None
        if nm in ("unify", "occurs") and own:
            st = st.copy()
            base = nm == "unify" and bool((n.get("f") or {}).get("qual") or n.get("qual"))
            r = op("base" if base else nm, o, *vs)
            st.trace = st.trace + ((nm, o, vs, r, q),)
            return [(st, r)]
        if nm == "shared_from_this":
            return [(st, o)]
        if nm == "undo" and own:
            st = st.copy()
            st.trace = st.trace + (("undo", o),)
            return [(st, VOID)]
        if nm in ("push_back", "emplace_back") and o is not None and any(a[0] in ("src", "fld") and "undo" in str(a) for a in o):
            st = st.copy()
            st.trace = st.trace + (("log", o, vs),)
            return [(st, VOID)]
        if nm in QUERIES and not (nm == "is" and not own) and o is not None and (own or nm in ("realize", "instantiateType")):
            if own and (n.get("qual") or (n.get("f") or {}).get("qual")) and nm in ("generalize", "instantiate", "isInstantiated", "canRealize", "hasUnbounds", "getUnbounds", "realizedName"):
                return None     # the base class's own code
            return [(st, op(nm, o, *vs))]
        if nm.startswith("get") and own and not vs and nm != "getSrcInfo":
            return [(st, op(nm, o))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def explore(q, P=None):
    P = P or __import__("facts").load(FILES)
    for f in P.fn(q):
        if f.get("body") is None:
            continue
        cl = UClient({"t": f["cls"]})
        cl.P = P
        ai = AI(P, cl)
        for s, r in ai.run(f, State(), src("t"), [src("u"), U][:len(f["params"])]):
            print(show(r) if r is not THROWN else "THROW", "|", show_pc(s.conds()))
            for e in s.trace:
                print("      ", e[0], *[(show(x) if isinstance(x, frozenset) else [show(y) for y in x] if isinstance(x, (list, tuple)) and x and isinstance(x[0], frozenset) else x if isinstance(x, str) else "") for x in e[1:]])


def methods(P, name):
    """every body of this virtual method of types"""
    out = {}
    for c in P.subclasses(TY):
        for q in [x for x in P.by_qn if x == c + "::" + name]:
            for f in P.by_qn[q]:
                if f.get("body") is not None:
                    out[c] = f
    return sorted(out.items())


def paths(P, c, f, args=None):
    memo = P.__dict__.setdefault("unify_paths", {})
    if f["id"] not in memo:
        memo[f["id"]] = list(paths1(P, c, f, args))
    return memo[f["id"]]


def paths1(P, c, f, args=None):
    cl = UClient({"t": c})
    cl.P = P
    for s, r in AI(P, cl).run(f, State(), src("t"), args or [src("u"), U][:len(f["params"])]):
        if r is THROWN:
            continue
        cjs = [cj for cj in dnf(s.conds()) if not contradictory(cj)]
        if cjs:
            yield s, r, cjs


def cond(cj, pred, pol=True):
    return any(p == pol and pred(a) for a, p in cj)


def eq(x, y):
    return lambda a: a[0] == "eq" and {a[1], a[2]} == {x, y}


def nz(x):
    return lambda a: a[0] == "nz" and a[1] == x


def failed(cj, r, pol=True):
    m1, z = V(("int", -1)), V(("int", 0))
    return cond(cj, eq(m1, r), pol) or cond(cj, nz(op("<", r, z)), pol) or cond(cj, nz(op(">=", r, z)), not pol) or cond(cj, nz(op("<=", r, m1)), pol) \
        or cond(cj, nz(op(">", r, m1)), not pol)


def fld(o, *fs):
    """o->f as the engine writes it"""
    for x in fs:
        a = sole(o)
        if a and a[0] == "src":
            o = V(("src", a[1], a[2] + (x,)))
        elif a and a[0] == "fld":
            o = V(("fld", a, x))
        else:
            o = op("." + x, o)
    return o


def log_of(s, lst):
    return [e[2] for e in s.trace if e[0] == "log" and any(a[0] in ("fld", "src") and str(a).find("'%s'" % lst) >= 0 for a in e[1])]


M1 = V(("int", -1))


def unification():
    c = Check("C16", "every path of unify and occurs: a type is changed only under an undo record, after recording what it was; a failed component fails the whole; "
                     "success only after all components; undo restores each record")
    P = c.load(FILES)
    # ---------------------------------------------------------------- effects and propagation
    for cls, f in methods(P, "unify") + methods(P, "occurs"):
        k, nm = cls.split("::")[-1], f["n"]
        me = "%s::%s" % (k, nm)
        c.ok("method", me)
        stores = 0
        for s, r, cjs in paths(P, cls, f):
            if any(e[0] == "break" for e in s.trace) and r not in (M1, TRUE):
                c.viol("component:%s:loop" % me, f.where, "%s succeeds after a loop over components was left early" % me)
            for e in s.trace:
                if e[0] == "store":
                    stores += 1
                    _, ob, fl, v, cs = e
                    lst = LISTS.get(fl)
                    what = "%s of %s" % (fl, show(ob))
                    if lst is None:
                        c.viol("effect:%s:%s" % (me, fl), f.where, "%s changes %s, which undoing cannot restore" % (me, what))
                        continue
                    if not all(cond(cj, nz(U)) for cj in cjs):
                        c.viol("effect:%s:%s:dry" % (me, fl), f.where, "%s changes %s although no undo record was given (a mere test of unification)" % (me, what))
                        continue
                    logs = [x for x in log_of(s, lst) if x and x[0] == ob]
                    if not logs:
                        c.viol("effect:%s:%s:log" % (me, fl), f.where, "%s changes %s without recording it in undo.%s" % (me, what, lst))
                        continue
                    old = fld(ob, fl)
                    if fl == "level":
                        good = any(len(x) > 1 and x[1] == old for x in logs)
                    elif fl in ("kind", "type"):
                        good = all(kindis(cj, ob, "Unbound") for cj in cjs)
                    elif fl == "trait":
                        good = all(cond(cj, nz(old), False) for cj in cjs)
                    else:
                        good = all(cond(cj, nz(op("getStaticKind", ob)), False) or cond(cj, nz(old), False) for cj in cjs)
                    if not good:
                        c.viol("effect:%s:%s:old" % (me, fl), f.where, "%s changes %s whose former value is not the one that undoing restores" % (me, what))
                    c.ok("effect", "%s %s" % (me, what))
                elif e[0] == "log":
                    lst = [x for x in set(LISTS.values()) if any(str(a).find("'%s'" % x) >= 0 for a in e[1])]
                    if lst and not any(x[0] == "store" and LISTS.get(x[2]) == lst[0] and x[1] == e[2][0] for x in s.trace):
                        c.viol("effect:%s:%s:nolog" % (me, lst[0]), f.where, "%s records %s in undo.%s but does not change it on this path: undoing would clear it" % (me, show(e[2][0]), lst[0]))
                elif e[0] in ("unify", "occurs"):
                    _, ob, vs, res, q = e
                    if not vs or vs[-1] != U:
                        c.viol("record:%s:%s" % (me, show(ob)), f.where, "%s does not pass the undo record on to %s of %s: what that changes cannot be undone" % (me, e[0], show(ob)))
                    c.ok("record", me)
                    if e[0] == "occurs":
                        if nm == "occurs" and r != res and not all(cond(cj, nz(res), False) or r == TRUE for cj in cjs):
                            c.viol("occurs:%s" % show(res), f.where, "%s ignores %s" % (me, show(res)))
                        continue
                    if any(a[0] == "op" and a[1] == "realize" for a in vs[0]):
                        continue
                    for cj in cjs:
                        if r == res or failed(cj, res, False):
                            continue
                        if failed(cj, res) and r == M1:
                            continue
                        c.viol("component:%s:%s" % (me, show(ob)), f.where, "%s does not fail although %s does" % (me, show(res)))
                    c.ok("component", "%s %s" % (me, show(res)))
            if nm == "unify":
                n = num(r)
                if n is not None and n < -1:
                    c.viol("result:%s" % me, f.where, "%s returns %d: callers test for -1" % (me, n))
        if k == "LinkType":
            c.ok("stores", me, stores)
    coverage(c, P)
    linking(c, P)
    undoing(c, P)
    for cl, n in (("method", 10), ("effect", 6), ("record", 20), ("component", 20), ("coverage", 12), ("link", 3), ("occurs", 5), ("undo", 4), ("operator", 2)):
        c.floor(cl, n)
    return c


def has_unify(s, x, y):
    return any(e[0] == "unify" and len(e[2]) and (e[1] == x and e[2][0] == y or e[1] == y and e[2][0] == x) for e in s.trace)


def elem(o, lst, t=True):
    return fld(o, lst, "[]", "type") if t else fld(o, lst, "[]")


def delegated(r):
    a = sole(r)
    return a if a and a[0] == "op" and a[1] in ("unify", "base") else None


def coverage(c, P):
    """success claims that all components agree"""
    t, u = src("t"), src("u")
    for cls, f in methods(P, "unify"):
        k = cls.split("::")[-1]
        here = f.where

        def need(good, key, msg):
            c.ok("coverage", "%s %s" % (k, key))
            if not good:
                c.viol("coverage:%s:%s" % (k, key), here, "%s::unify succeeds %s" % (k, msg))
        for s, r, cjs in paths(P, cls, f):
            if r == M1:
                continue
            for cj in cjs:
                d = delegated(r)
                if d and failed(cj, r):
                    continue
                K = op("getClass", u)
                if d and d[2] == op("getLink", u) or d and d[2] == fld(op("getLink", u), "type"):
                    need(d[3] == t and cond(cj, nz(op("getLink", u))), "link", "by asking the link for something else than itself")
                    continue
                if k == "ClassType":
                    n1, n2 = fld(t, "name"), fld(K, "name")
                    S = lambda x: V(("str", x))
                    if d and d[2] == K:
                        need(d[3] == t and (cond(cj, eq(n1, S("int"))) and cond(cj, eq(n2, S("Int"))) or cond(cj, eq(n2, S("__NTuple__")))), "swap", "by asking the other class, which may ask back")
                        continue
                    if cond(cj, eq(n2, S("int"))) and cond(cj, eq(n1, S("Int"))):
                        need(any(e[0] == "unify" and e[1] == fld(t, "generics", "[0]", "type") for e in s.trace), "Int", "between int and Int[N] without looking at N")
                        continue
                    if cond(cj, eq(n1, S("unrealized_type"))) and cond(cj, eq(n1, n2)):
                        ins = [e for e in s.trace if e[0] == "unify" and sole(e[1])[:2] == ("op", "instantiate") and sole(e[2][0])[:2] == ("op", "instantiate")]
                        need(ins and {sole(ins[0][1])[2], sole(ins[0][2][0])[2]} == {fld(t, "generics", "[0]", "type"), fld(K, "generics", "[0]", "type")}, "unrealized",
                             "between unrealized types without unifying what they stand for")
                        continue
                    tup = cond(cj, eq(n1, S("__NTuple__")))
                    cnt = [op("getIntStatic", op("getType", fld(x, "generics", "[0]"))) for x in (t, K)]
                    if tup and (not cond(cj, eq(n1, n2)) or all(cond(cj, nz(x)) for x in cnt)):
                        evs = [e for e in s.trace if e[0] == "unify"]
                        need(cond(cj, eq(n1, n2)) or cond(cj, eq(n2, S("Tuple"))), "ntuple", "between a homogeneous tuple and something that is no tuple")
                        if cond(cj, nz(cnt[0])):
                            sz = [a for a, p in cj if a[0] == "eq" and p and any("size" in str(x) and "getIntStatic" in str(x) for x in a[1:])]
                            need(bool(sz) and bool(evs), "ntuple:size", "between tuples of different lengths")
                        else:
                            need(any(e[1] == fld(t, "generics", "[0]", "type") for e in evs) and any(e[1] == fld(t, "generics", "[1]", "type") for e in evs), "ntuple:open", "without fixing count and element types of the tuple")
                        continue
                    need(cond(cj, eq(n1, n2)), "name", "between classes of different names")
                    need(cond(cj, eq(op("size", fld(t, "generics")), op("size", fld(K, "generics")))), "arity", "between classes with different numbers of generics")
                    for lst in ("generics", "hiddenGenerics"):
                        need(has_unify(s, elem(t, lst), elem(K, lst)), lst, "without unifying each of the %s" % lst)
                elif k == "FuncType":
                    F = op("getFunc", u)
                    if r == V(("int", 0)) or num(r) is not None:
                        need(cond(cj, eq(t, u)), "same", "at once for another type than itself")
                        continue
                    need(has_unify(s, t, u) and any(e[0] == "unify" and e[1] == t and e[4] == T + "ClassType::unify" for e in s.trace), "signature", "without unifying argument and return types")
                    if not cond(cj, nz(F)):
                        need(cond(cj, nz(F), False), "kind", "without looking at whether the other is a function")
                        continue
                    need(cond(cj, eq(fld(t, "ast", "name"), fld(fld(F, "ast"), "name"))), "name", "between different functions")
                    par, par2 = fld(t, "funcParent"), fld(F, "funcParent")
                    both = cond(cj, nz(op("^", par, par2)), False) or cond(cj, eq(par, par2)) or cond(cj, nz(par)) and cond(cj, nz(par2)) or cond(cj, nz(par), False) and cond(cj, nz(par2), False)
                    need(both, "parents", "between a function with a parent and one without")
                    need(cond(cj, nz(par), False) or has_unify(s, par, par2), "parent", "without unifying the parents")
                    need(has_unify(s, elem(t, "funcGenerics"), elem(F, "funcGenerics")), "funcGenerics", "without unifying each of the function generics")
                elif k.endswith("StaticType"):
                    g = [a[1] for a, p in cj if a[0] == "nz" and p and (sole(a[1]) or ("",))[1:2] and str(sole(a[1])[1]).startswith("get") and str(sole(a[1])[1]).endswith("Static") and sole(a[1])[2] == u]
                    if g:
                        need(cond(cj, eq(fld(t, "value"), fld(g[0], "value"))), "value", "between static values that differ")
                        need(sole(g[0])[1] == "get" + k.replace("Type", ""), "kind", "by looking at static values of another kind")
                    else:
                        need(d is not None and d[1] == "base" and d[2] == t and d[3] in (u, K) and cond(cj, nz(K)), "class", "without unifying as a class")
                elif k == "UnionType":
                    N = op("getUnion", u)
                    need(cond(cj, nz(N)), "union", "with something that is no union")
                    if d and d[2] == N:
                        need(d[3] == t and cond(cj, nz(op("isSealed", t)), False) and cond(cj, nz(op("isSealed", N))), "swap", "by asking the other union, which may ask back")
                    elif cond(cj, nz(op("isSealed", t)), False):
                        need(has_unify(s, elem(t, "pendingTypes", False), elem(N, "pendingTypes", False)) and d and d[1] == "base" and d[3] in (u, N), "open", "between open unions without unifying their members")
                    elif cond(cj, nz(op("isSealed", N)), False):
                        need(d and d[1] == "base" and d[3] in (u, N), "half", "between an open and a sealed union without linking them")
                    elif num(r) == 0 or num(r) is not None:
                        need(cond(cj, nz(op("canRealize", t)), False) or cond(cj, nz(op("canRealize", N)), False), "unbound", "without looking at the members of known unions")
                    else:
                        a, b = op("getRealizationTypes", t), op("getRealizationTypes", N)
                        need(cond(cj, eq(op("size", a), op("size", b))), "size", "between unions with different numbers of members")
                        need(any(e[0] == "unify" and {fld(a, "[]"), fld(b, "[]")} == {e[1], e[2][0]} for e in s.trace), "members", "without unifying each of the members")
                elif k == "TypeTrait":
                    if cond(cj, nz(K)):
                        need(d and {d[2], d[3]} == {u, fld(t, "type")}, "type", "without unifying the type the trait asks for")
                    else:
                        need(cond(cj, nz(op("getUnbound", u))), "unbound", "for a type that is neither a class nor unbound")
                elif k == "CallableTrait":
                    L = op("getLink", u)
                    fn = [e for e in s.trace if e[0] == "unify" and e[1] == fld(t, "args", "[1]")]
                    if cond(cj, nz(K)):
                        known = [a for a, p in cj if a[0] == "nz" and p and sole(a[1]) and sole(a[1])[:2] == ("op", "getFunc")]
                        early = cond(cj, nz(op("size", fld(t, "args"))), False) or cond(cj, eq(op("size", fld(t, "args")), V(("int", 0)))) or cond(cj, lambda a: a[0] == "eq" and V(("str", "NoneType")) in a[1:])
                        if known and not early:
                            need(bool(fn), "return", "for a function whose return type is not the one asked for")
                    else:
                        need(cond(cj, nz(L)), "link", "for something that is neither a class nor a link")
                        tr = fld(L, "trait")
                        if cond(cj, nz(tr)):
                            need(any(e[0] == "unify" and elem(t, "args", False) in (e[1], e[2][0]) for e in s.trace), "args", "for a variable with another call signature")
                            need(any(a[0] == "eq" and p and any(x == op("size", fld(t, "args")) for x in a[1:]) for a, p in cj), "arity", "for a variable with another number of arguments")


def kindis(cj, o, k, pol=True):
    return cond(cj, lambda a: a[0] == "eq" and fld(o, "kind") in a[1:] and any(len(x) == 1 and sole(x)[0] == "enum" and sole(x)[1].endswith("::" + k) for x in a[1:]), pol)


def linking(c, P):
    """a variable is linked only to what it can be"""
    t, u = src("t"), src("u")
    for cls, f in methods(P, "unify"):
        if cls != LINK:
            continue
        for s, r, cjs in paths(P, cls, f):
            st = {e[2]: e for e in s.trace if e[0] == "store" and e[1] == t}
            for cj in cjs:
                kinds = op("getStaticKind", t), op("getStaticKind", u)
                if r != M1 and delegated(r) is None or "type" in st or "kind" in st:
                    c.ok("link", "static kinds")
                    if not (cond(cj, eq(*kinds)) or cond(cj, nz(kinds[0]), False)):
                        c.viol("link:static", f.where, "LinkType::unify succeeds for a variable that must be a literal of one kind and something else")
                if not ("type" in st or "kind" in st):
                    L = op("getLink", u)
                    if num(r) is not None and r != M1 and not cond(cj, eq(fld(t, "id"), fld(L, "id"))):
                        # a success that links nothing: only when nothing may be changed
                        c.ok("link", "no change")
                        if not cond(cj, nz(U), False):
                            c.viol("link:missing", f.where, "LinkType::unify succeeds without linking the variable")
                        tr = fld(t, "trait")
                        if not cond(cj, nz(tr), False) and not failed(cj, op("unify", tr, u, U), False) and not kindis(cj, t, "Generic"):
                            c.viol("link:trait:dry", f.where, "LinkType::unify succeeds without asking whether the other type has the trait of the variable")
                        gen = kindis(cj, t, "Generic")
                        if not gen and not cond(cj, nz(op("occurs", t, u, U)), False):
                            c.viol("link:occurs:dry", f.where, "LinkType::unify succeeds without looking for the variable in the other type")
                    continue
                L = op("getLink", u)
                c.ok("link", "variable")

                def need(good, key, msg):
                    if not good:
                        c.viol("link:" + key, f.where, "LinkType::unify links a variable " + msg)
                need("type" in st and "kind" in st, "half", "without setting both its kind and its target")
                if "type" in st:
                    need(st["type"][3] == op("follow", u) or st["type"][3] == u, "target", "to something else than the other type")
                if "kind" in st:
                    need("Link" in str(st["kind"][3]) and "Unbound" not in str(st["kind"][3]), "kind", "without marking it as linked")
                need(cond(cj, nz(op("occurs", t, u, U)), False), "occurs", "to a type that contains it")
                tr = fld(t, "trait")
                need(cond(cj, nz(tr), False) or failed(cj, op("unify", tr, u, U), False), "trait", "to a type that does not have its trait")
                need(not cond(cj, nz(L)) or cond(cj, eq(fld(t, "id"), fld(L, "id")), False), "self", "to itself")
                need(not cond(cj, nz(L)) or not kindis(cj, L, "Unbound") or cond(cj, nz(op("<", fld(t, "id"), fld(L, "id"))), False)
                     or cond(cj, nz(op(">", fld(L, "id"), fld(t, "id"))), False) or cond(cj, nz(op(">=", fld(t, "id"), fld(L, "id")))) or cond(cj, nz(op("<=", fld(L, "id"), fld(t, "id")))),
                     "age", "to a newer one: identifiers of variables that are in use elsewhere would disappear")


    # a variable is never told to become a newer one (the consistency assertion is not reachable)
    f = [f for cls, f in methods(P, "unify") if cls == LINK][0]
    cl = UClient({"t": LINK})
    cl.P = P
    L = op("getLink", u)
    i, j = fld(t, "id"), fld(L, "id")
    for s, r in AI(P, cl).run(f, State(), src("t"), [u, U]):
        if r is not THROWN:
            continue
        for cj in dnf(s.conds()):
            if contradictory(cj) or not cond(cj, nz(op("<=", j, i)), False):
                continue
            c.ok("link", "age")
            if not (cond(cj, nz(op("<", i, j)), False) or cond(cj, nz(op(">", j, i)), False) or cond(cj, nz(op(">=", i, j)))):
                c.viol("link:age", f.where, "LinkType::unify may link a variable to a newer one, or stop the compiler when it is about to")
    # ---------------------------------------------------------------- occurs
    for cls, f in methods(P, "occurs"):
        for s, r, cjs in paths(P, cls, f):
            for cj in cjs:
                K, tr = op("getClass", u), fld(L, "trait")
                ask = lambda x: op("occurs", t, x, U)
                no = lambda x: r == ask(x) or cond(cj, nz(ask(x)), False) or r == TRUE

                def need(good, key, msg):
                    c.ok("occurs", key)
                    if not good:
                        c.viol("occurs:" + key, f.where, "LinkType::occurs " + msg)
                if cond(cj, nz(L)):
                    if kindis(cj, L, "Unbound"):
                        same = cond(cj, eq(fld(L, "id"), fld(t, "id")))
                        need(not same or r == TRUE, "same", "denies that a variable occurs in itself")
                        if same:
                            continue
                        need(cond(cj, eq(fld(L, "id"), fld(t, "id")), False), "id", "does not compare the variables")
                        need(cond(cj, nz(tr), False) or no(tr), "trait", "does not look into the trait of another variable")
                        if r != TRUE and not any(e[0] == "store" and e[2] == "level" and e[1] == L and e[3] == fld(t, "level") for e in s.trace):
                            lo, hi = fld(t, "level"), fld(L, "level")
                            need(cond(cj, nz(U), False) or cond(cj, nz(op(">", hi, lo)), False) or cond(cj, nz(op("<", lo, hi)), False) or cond(cj, nz(op("<=", hi, lo))) or cond(cj, nz(op(">=", lo, hi))), "level",
                                 "does not lower the level of a variable that becomes part of an older one (it would be generalised too early)")
                    elif kindis(cj, L, "Link"):
                        need(r == ask(fld(L, "type")), "link", "does not follow links")
                elif cond(cj, nz(K)) and not cond(cj, nz(op("getStatic", u))):
                    e = elem(K, "generics")
                    need(no(e) or cond(cj, nz(e), False), "generics", "does not look into every generic of a class")


def undoing(c, P):
    # ---------------------------------------------------------------- Unification::undo
    want = {"linked": {"kind": "Unbound", "type": "null"}, "leveled": {"level": None}, "traits": {"trait": "null"}, "statics": {"staticKind": "Runtime"}}
    for f in P.fn(TY + "::Unification::undo"):
        if f.get("body") is None:
            continue
        cl = UClient({"t": TY + "::Unification"})
        cl.P = P
        for s, r in AI(P, cl).run(f, State(), src("t"), []):
            if r is THROWN:
                continue
            for lst, fs in want.items():
                for fl, v in fs.items():
                    e0 = fld(src("t"), lst, "[]")
                    ob = fld(e0, "first") if fl == "level" else e0
                    es = [e for e in s.trace if e[0] == "store" and e[2] == fl and e[1] == op("getLink", ob)]
                    c.ok("undo", "%s -> %s" % (lst, fl))
                    if not es:
                        c.viol("undo:%s:%s" % (lst, fl), f.where, "undoing a unification does not restore %s of the types in %s" % (fl, lst))
                        continue
                    val = es[-1][3]
                    if fl == "level":
                        ok = val == fld(e0, "second")
                    elif v == "null":
                        ok = val == NULL
                    else:
                        ok = len(val) == 1 and sole(val)[0] == "enum" and sole(val)[1].endswith("::" + v)
                    if not ok:
                        c.viol("undo:%s:%s:value" % (lst, fl), f.where, "undoing a unification sets %s of the types in %s to %s" % (fl, lst, show(val)))
                    odd = [x for x in es[-1][4] if x[0][0] not in ("each", "loop") and not loopcond(x[0], lst)]
                    if odd:
                        c.viol("undo:%s:%s:some" % (lst, fl), f.where, "undoing a unification restores %s only for some of the types in %s (%s)" % (fl, lst, show_pc(odd)))
            fwd = [a for a, p in s.conds() if a[0] == "each" and a[1] == fld(src("t"), "leveled")] + \
                  [a for a, p in s.conds() if a[0] == "nz" and sole(a[1])[:2] == ("op", "<") and "idx" in str(a) and "leveled" in str(a)]
            c.ok("undo", "order of levels")
            if fwd:
                c.viol("undo:leveled:order", f.where, "undoing a unification restores levels in the order they were recorded: a variable lowered twice keeps the value in between")
    # ---------------------------------------------------------------- a << b and friends
    for qn, nodes in ((TY + "::operator<<", None), ("codon::ast::Cache::realizeFunction", None)):
        for f in P.fn(qn):
            if f.get("body") is None:
                continue
            cl = UClient({"t": f["cls"]})
            cl.P = P
            cl.max_states = 4000
            for s, r in AI(P, cl).run(f, State(), src("t"), [src("a%d" % i) for i in range(len(f["params"]))]):
                if r is THROWN:
                    continue
                for cj in dnf(s.conds()):
                    if contradictory(cj):
                        continue
                    for i, e in enumerate(s.trace):
                        if e[0] != "unify":
                            continue
                        c.ok("operator", "%s %s" % (qn.split("::")[-1], show(e[3])))
                        rec = e[2][-1]
                        un = any(x[0] == "undo" and x[1] == rec for x in s.trace[i:])
                        if failed(cj, e[3]):
                            if not un:
                                c.viol("operator:%s:fail" % qn, f.where, "%s keeps what a failed unification has changed" % qn.split("::")[-1])
                            if r != NULL:
                                c.viol("operator:%s:result" % qn, f.where, "%s reports success for a failed unification" % qn.split("::")[-1])
                        elif failed(cj, e[3], False):
                            if un:
                                c.viol("operator:%s:succ" % qn, f.where, "%s takes a successful unification back" % qn.split("::")[-1])
                            if qn.endswith("<<") and r != src("t"):
                                c.viol("operator:%s:value" % qn, f.where, "operator<< returns something else than its left type on success")
                        else:
                            c.viol("operator:%s:ignored" % qn, f.where, "%s does not look at the result of unifying" % qn.split("::")[-1])
    # tests of unification: the record is a local of the block and undone before anything else is decided
    for f in P.funcs.values():
        if not f["file"].endswith("typecheck/special.cpp") or f.get("body") is None:
            continue
        for b in walk(f["body"]):
            if b["k"] != "Block":
                continue
            for i, x in enumerate(b["b"]):
                if x["k"] == "Decl" and any("Unification" in (v.get("ty") or "") or "Unification" in str(v.get("init") or "")[:300] for v in x["v"]):
                    c.ok("operator", "local test %s:%s" % (f["n"], i))
                    rest = b["b"][i + 1:]
                    un = [j for j, y in enumerate(rest) if y["k"] in ("Call", "Expr") and any(z["k"] == "Call" and (z.get("f") or {}).get("n") == "undo" for z in walk(y))]
                    stop = [j for j, y in enumerate(rest) if any(z["k"] in ("Return", "Break", "Continue") for z in walk(y))]
                    if not un or stop and min(stop) < min(un):
                        c.viol("operator:test:%s" % f["n"], f.where, "%s keeps what a mere test of unification has changed" % f["n"])


def loopcond(a, lst):
    if a[0] == "eq" and all(x and all(b[0] == "it" for b in x) for x in a[1:]):
        return True
    return a[0] == "nz" and lst in str(a) and "size" in str(a) or a[0] == "eq" and lst in str(a) and "size" in str(a) or \
        a[0] in ("eq", "nz") and "kind" in str(a) and "leveled" in str(a)

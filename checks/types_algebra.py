"""Generalizing, instantiating and asking types: every component takes part."""
import re
from absint import *
from checklib import Check
from facts import AnalysisBroken, walk
from folding import sole, num
from irmodel import *
from reaching import subatoms
from cfgraph import show, show_pc
from types_unify import FILES, T, TY, LINK, UClient, methods, cond, eq, nz, kindis
from folding import dnf
from cfgraph import contradictory

SELF = src("t")
A = [src("a0"), src("a1"), src("a2")]
NF = ["codon/parser/common.cpp"]


class AClient(UClient):
    """the classes of types; what is read from the memo of instantiate and the counter are traced"""
    quantifiers = True

    def on_ctor(self, ai, st, n, cls, vs, C):
        if "basic_format_string" in cls or "basic_fstring" in cls or cls.startswith("fmt::"):
            lits = [x.get("v") for x in walk([y for y in (n.get("a") or []) if y]) if x["k"] == "Str"]
            if len(lits) == 1:
                return [(st, V(("str", lits[0])))]
        return None

    def on_deref_store(self, ai, st, o, v):
        st.trace = st.trace + (("deref", o, v),)

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm = f["n"]
        if o is not None and nm in ("getClass", "getFunc", "getUnion") and len(o) == 1 and list(o)[0][0] == "new":
            return [(st, o)]
        if (o is not None and o == A[2] and nm in ("operator[]", "find", "at", "insert", "emplace", "try_emplace", "insert_or_assign", "contains", "count")):
            st.trace = st.trace + (("key", vs[0] if vs else None, nm),)
            if nm in ("insert_or_assign", "emplace", "try_emplace") and len(vs) == 2:
                st.trace = st.trace + (("store", o, "[k]", vs[1], st.pc),)
        if o is None and nm == "in" and vs and vs[0] == A[2]:
            st.trace = st.trace + (("key", vs[1], nm),)
        if nm == "escape" and o is None and len(vs) == 1:
            return [(st, op("escape", *vs))]
        if nm in ("reverse", "sort", "shuffle", "rotate", "push_front", "emplace_front", "pop_back", "erase", "unique", "stable_sort", "remove_if"):
            st.trace = st.trace + (("reorder", nm),)
        return UClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def run(P, c, f, recv=SELF):
    memo = P.__dict__.setdefault("algebra_paths", {})
    k = (c, f["id"])
    if k not in memo:
        cl = AClient({"t": c})
        cl.P = P
        ai = AI(P, cl)
        out = []
        for s, r in ai.run(f, State(), recv, [A[i] for i in range(len(f["params"]))]):
            if r is THROWN:
                continue
            cjs = [cj for cj in dnf(s.conds()) if not contradictory(cj)]
            if cjs:
                out.append((ai, s, r, cjs))
        if not out:
            raise AnalysisBroken("no path through %s::%s" % (c, f["n"]))
        memo[k] = out
    return memo[k]


def sh(c):
    return c.split("::")[-1]


def at(ai, s, v, path):
    for p in path:
        v = ai.getf(s, v, p)
    return v


# ------------------------------------------------------------------ new types from old ones
def is_type_field(t):
    return "shared_ptr<" in t and re.search(r"types::(Type|Trait|ClassType|FuncType)\b", t) is not None or "TypePtr" in t


def is_generics(t):
    return "Generic" in t


def copies(c, P):
    """generalize and instantiate: a type of the same class whose components are those of the original, generalized (instantiated) in the same way"""
    for nm, n in (("generalize", 1), ("instantiate", 3)):
        args = A[:n]
        for k, f in methods(P, nm):
            if k == LINK:
                continue
            for ai, s, r, cjs in run(P, k, f):
                a = sole_new(r)
                if a is None or a[2] != k:
                    c.viol("%s:class:%s" % (nm, sh(k)), f.where, "%s::%s gives %s, not a new %s" % (sh(k), nm, show(r)[:80], sh(k)))
                    continue
                c.ok("class", sh(k) + "::" + nm)
                if any(e[0] == "reorder" for e in s.trace):
                    c.viol("%s:order:%s" % (nm, sh(k)), f.where, "%s::%s rearranges the components" % (sh(k), nm))
                for fl in P.all_fields(k):
                    fn, ft = fl["n"], fl["type"]
                    if fn == "info":
                        continue
                    v = ai.getf(s, r, fn)
                    want = src("t", fn)
                    bad = None
                    vec = ft.startswith("std::vector<")
                    if fn == "_rn":
                        if v != V(("str", "")) and v:
                            bad = "starts with a realized name of its own"
                    elif vec and (is_generics(ft) or is_type_field(ft)):
                        got, el = at(ai, s, r, (fn, "[]")), src("t", fn, "[]")
                        w = op(nm, el, *args)
                        if got != w:
                            if fixed(P, k, fn) and not got:
                                pass        # this class is built without such components
                            elif got == w | el and swept(s):
                                pass        # a copy of the list, overwritten element by element
                            elif empty_list(cjs, src("t", fn)):
                                pass
                            elif got <= (el | NULL) and all(cond(cj, nz(el), False) for cj in cjs):
                                pass
                            else:
                                bad = "has %s where the original has its %s" % (show(got)[:80] or "nothing", fn) if got != el else "shares the components %s of the original without %s" % (fn, nm)
                    elif is_type_field(ft):
                        w = op(nm, want, *args)
                        if v != w and not (v in (NULL, want) and all(cond(cj, nz(want), False) for cj in cjs)):
                            bad = "%s is %s, not the %s of the original's" % (fn, show(v)[:80], nm)
                    elif fn == "cache":
                        if v != want and not any("cache" in str(x) for x in v):
                            bad = "cache is %s" % show(v)[:60]
                    elif v != want and not const_field(P, k, fn, v):
                        bad = "%s is %s, not the original's" % (fn, show(v)[:60])
                    if bad:
                        c.viol("%s:%s:%s" % (nm, sh(k), fn), f.where, "%s::%s (%s): the new type %s" % (sh(k), nm, show_pc(s.conds())[:60], bad))
                    else:
                        c.ok("component", "%s::%s %s" % (sh(k), nm, fn))
        # generic parameters
        g = T + "ClassType::Generic"
        for f in P.fn(g + "::" + nm):
            if f.get("body") is None:
                continue
            ty = src("t", "type")
            for ai, s, r, cjs in run(P, g, f):
                a = sole_new(r)
                if a is None or not str(a[2]).endswith("Generic"):
                    c.viol("generic:%s" % nm, f.where, "Generic::%s gives %s" % (nm, show(r)[:60]))
                    continue
                for fn in ("name", "id", "staticKind"):
                    if ai.getf(s, r, fn) != src("t", fn):
                        c.viol("generic:%s:%s" % (nm, fn), f.where, "Generic::%s does not keep the %s of the parameter" % (nm, fn))
                v = ai.getf(s, r, "type")
                for cj in cjs:
                    gs = op("getStatic", ty)
                    sk = src("t", "staticKind")
                    run0 = [p if x[0] == "eq" else not p for x, p in cj if x[0] == "eq" and sk in x[1:] and any(a[0] == "enum" and a[2] == 0 or a == ("int", 0) for y in x[1:] for a in y) or x[0] == "nz" and x[1] == sk]
                    stat = cond(cj, nz(gs)) and bool(run0) and all(run0)
                    nostat = cond(cj, nz(gs), False) or bool(run0) and not any(run0)
                    if not stat and not nostat and not cond(cj, nz(ty), False):
                        c.viol("generic:%s:static" % nm, f.where, "Generic::%s: a static value of a parameter that is no static one is not replaced by its type" % nm)
                    if cond(cj, nz(ty), False):
                        w = NULL
                    elif stat:
                        w = op(nm, op("getNonStaticType", gs), *args)
                    else:
                        w = op(nm, ty, *args)
                    if v != w and not (w == NULL and v in (NULL, ty)):
                        c.viol("generic:%s:type" % nm, f.where, "Generic::%s (%s): the type of the parameter becomes %s" % (nm, show_pc(s.conds())[:80], show(v)[:80]))
                    else:
                        c.ok("generic", nm)
    c.floor("class", 12)
    c.floor("component", 60)
    c.floor("generic", 4)


def sole_new(v):
    return list(v)[0] if len(v) == 1 and list(v)[0][0] == "new" else None


def swept(s):
    """a whole new list is gone through"""
    return any(p and a[0] == "nz" and any(x[0] == "each" and isinstance(x[1], frozenset) and all(y[0] == "new" for y in x[1]) for x in a[1]) or
               p and a[0] == "each" and all(y[0] == "new" for z in a[1:] if isinstance(z, frozenset) for y in z) for a, p in s.conds())


def fixed(P, k, fn):
    """constructing a k never gives it such components"""
    return fn == "hiddenGenerics" and k in (T + "UnionType",) or P.derives(k, T + "StaticType")


def const_field(P, k, fn, v):
    """fields every object of the class has the same value of"""
    if k == T + "UnionType":
        return fn == "name" and v == V(("str", "Union")) or fn == "isTuple" and v in (TRUE, INT(1))
    if P.derives(k, T + "StaticType"):
        names = {"IntStaticType": "int", "StrStaticType": "str", "BoolStaticType": "bool"}
        return fn == "name" and v == V(("str", names.get(sh(k), "?"))) or fn == "isTuple" and v in (FALSE, INT(0))
    return False


def empty_list(cjs, lst):
    def emp(cj):
        return cond(cj, nz(op("size", lst)), False) or cond(cj, lambda a: a[0] == "each" and lst in a[1:], False)
    return all(emp(cj) for cj in cjs)


def links(c, P):
    ty, kind, i = src("t", "type"), src("t", "kind"), src("t", "id")
    ms = dict(methods(P, "generalize"))
    if LINK not in ms:
        raise AnalysisBroken("LinkType::generalize not found")
    f = ms[LINK]

    def fields(ai, s, r, want, key, what):
        for fn, w in want.items():
            v = ai.getf(s, r, fn)
            if v not in (w if isinstance(w, list) else [w]):
                c.viol("%s:%s" % (key, fn), f.where, "%s has %s %s" % (what, fn, show(v)[:60]))
            else:
                c.ok("link", key + " " + fn)

    def optional(nm, fn, args, cjs):
        w = src("t", fn)
        if all(cond(cj, nz(w), False) for cj in cjs):
            return [NULL, w]
        return [op(nm, w, *args)]

    def ev(n):
        return lambda v: bool(v) and all(a[0] == "enum" and str(a[1]).endswith(n) for a in v)

    def known(cj):
        """the kinds this path allows"""
        ks = {"Unbound", "Generic", "Link"}
        for n in sorted(ks):
            if kindis(cj, SELF, n):
                return {n}
        return {n for n in ks if not kindis(cj, SELF, n, False)}
    for ai, s, r, cjs in run(P, LINK, f):
        for cj in cjs:
            ks = known(cj)
            new = sole_new(r)
            if new is not None:
                ge = cond(cj, nz(op(">=", src("t", "level"), A[0]))) or cond(cj, nz(op("<", src("t", "level"), A[0])), False) or \
                    cond(cj, nz(op("<=", A[0], src("t", "level")))) or cond(cj, nz(op(">", A[0], src("t", "level"))), False)
                if ks != {"Unbound"} or not ge:
                    c.viol("generalize:when", f.where, "LinkType::generalize makes a generic out of a type that is not an unbound of that level or above: %s" % show_pc(s.conds())[:100])
                else:
                    c.ok("link", "generalize unbound")
                if not ev("Generic")(ai.getf(s, r, "kind")):
                    c.viol("generalize:kind", f.where, "LinkType::generalize gives a type variable of kind %s" % show(ai.getf(s, r, "kind"))[:40])
                fields(ai, s, r, {"id": i, "staticKind": src("t", "staticKind"), "genericName": src("t", "genericName"), "passThrough": src("t", "passThrough"), "type": NULL,
                                  "trait": optional("generalize", "trait", A[:1], cjs), "defaultType": optional("generalize", "defaultType", A[:1], cjs)}, "generalize:link", "a generalized type variable")
            elif r == SELF:
                if "Link" in ks:
                    c.viol("generalize:self", f.where, "LinkType::generalize leaves a linked type as it is")
                elif "Unbound" in ks and ks != {"Generic"}:
                    lt = cond(cj, nz(op(">=", src("t", "level"), A[0])), False) or cond(cj, nz(op("<", src("t", "level"), A[0]))) or \
                        cond(cj, nz(op("<=", A[0], src("t", "level"))), False) or cond(cj, nz(op(">", A[0], src("t", "level"))))
                    if not lt:
                        c.viol("generalize:kept", f.where, "LinkType::generalize leaves an unbound of that level as it is: %s" % show_pc(s.conds())[:100])
                    else:
                        c.ok("link", "generalize older unbound")
            elif r == op("generalize", ty, A[0]) and "Generic" not in ks and "Unbound" not in ks:
                c.ok("link", "generalize link")
            else:
                c.viol("generalize:result", f.where, "LinkType::generalize (%s) gives %s" % (show_pc(s.conds())[:80], show(r)[:80]))
    f = dict(methods(P, "instantiate")).get(LINK)
    if f is None:
        raise AnalysisBroken("LinkType::instantiate not found")
    fresh = memo = 0
    for ai, s, r, cjs in run(P, LINK, f):
        keys = [e[1] for e in s.trace if e[0] == "key"]
        if any(k is not None and k != i for k in keys):
            c.viol("instantiate:key", f.where, "LinkType::instantiate looks the variable up under %s, not its id" % show(keys[0])[:60])
        for cj in cjs:
            ks = known(cj)
            new = sole_new(r)
            if new is not None:
                fresh += 1
                if ks != {"Generic"}:
                    c.viol("instantiate:when", f.where, "LinkType::instantiate makes a new variable out of one that is not generic: %s" % show_pc(s.conds())[:100])
                if not ev("Unbound")(ai.getf(s, r, "kind")):
                    c.viol("instantiate:kind", f.where, "LinkType::instantiate gives a type variable of kind %s" % show(ai.getf(s, r, "kind"))[:40])
                cnt = cond(cj, nz(A[1]))
                bumped = [e for e in s.trace if e[0] == "deref" and e[1] == A[1]]
                idv = ai.getf(s, r, "id")
                if cnt:
                    if idv != A[1] or len(bumped) != 1 or bumped[0][2] != op("+", A[1], INT(1)):
                        c.viol("instantiate:id", f.where, "LinkType::instantiate: the new variable has number %s; the counter is advanced %s" % (show(idv)[:40], [show(e[2])[:40] for e in bumped]))
                    else:
                        c.ok("link", "fresh number")
                elif cond(cj, nz(A[1]), False):
                    if idv != i:
                        c.viol("instantiate:id0", f.where, "LinkType::instantiate without a counter: the new variable has number %s" % show(idv)[:40])
                else:
                    c.viol("instantiate:counter", f.where, "LinkType::instantiate numbers a variable without looking whether there is a counter")
                fields(ai, s, r, {"level": A[0], "staticKind": src("t", "staticKind"), "genericName": src("t", "genericName"), "passThrough": src("t", "passThrough"), "type": NULL,
                                  "trait": optional("instantiate", "trait", A, cjs), "defaultType": optional("instantiate", "defaultType", A, cjs)}, "instantiate:link", "an instantiated type variable")
                stored = any(e[0] == "store" and e[1] == A[2] and e[3] == r for e in s.trace)
                if cond(cj, nz(A[2])) and not stored or not cond(cj, nz(A[2])) and not cond(cj, nz(A[2]), False) and not stored:
                    c.viol("instantiate:memo", f.where, "LinkType::instantiate does not remember the variable it made: another use of the same generic would get another one")
                elif stored:
                    memo += 1
                    c.ok("link", "remembered")
                if cond(cj, nz(A[2])) and not any(e[0] == "key" for e in s.trace):
                    c.viol("instantiate:lookup", f.where, "LinkType::instantiate does not look for the variable made before")
            elif r == SELF:
                if ks != {"Unbound"} and "Generic" in ks or "Link" in ks:
                    c.viol("instantiate:self", f.where, "LinkType::instantiate leaves a %s variable as it is" % "/".join(sorted(ks)))
                else:
                    c.ok("link", "instantiate unbound")
            elif r == op("instantiate", ty, *A):
                if ks != {"Link"}:
                    c.viol("instantiate:link", f.where, "LinkType::instantiate follows a variable that is not linked")
                else:
                    c.ok("link", "instantiate link")
            elif ks == {"Generic"} and all(a[0] == "src" and a[1] == "a2" for a in r) and r and any(p and x[0] in ("found", "nz") and "found" in str(x) for x, p in cj):
                c.ok("link", "instantiate memo")
            else:
                c.viol("instantiate:result", f.where, "LinkType::instantiate (%s) gives %s" % (show_pc(s.conds())[:80], show(r)[:80]))
    if not fresh or not memo:
        raise AnalysisBroken("LinkType::instantiate: no path makes or remembers a variable")
    c.floor("link", 30)


# ------------------------------------------------------------------ questions about types
NAME = src("t", "name")
ARGS = op("getClass", src("t", "generics", "[0]", "type"))


def isname(cj, n, pol=True):
    return cond(cj, eq(NAME, V(("str", n))), pol)


def mentions(v, what):
    return any(a in subatoms(v) for a in what)


def is_arg(v):
    """an argument type of the function type: something in the list of its first generic, or handed out by its own accessors"""
    return mentions(v, ARGS) and any(a[0] == "op" and a[1] in (".[]", "operator[]", "getType", ".type") or a[0] == "src" for a in v) or \
        any(a[0] == "op" and a[1] in ("operator[]", "[]") and a[2][0] == SELF for a in subatoms(v))


def ret(v):
    return v in (op("getRetType", SELF), src("t", "generics", "[1]", "type"))


FGEN = lambda v: v == src("t", "funcGenerics", "[]", "type")
GEN = lambda v: v == src("t", "generics", "[]", "type")
HID = lambda v: v == src("t", "hiddenGenerics", "[]", "type")
PARENT = lambda v: v == src("t", "funcParent")

COMPONENTS = {
    "ClassType": [("generics", GEN), ("hiddenGenerics", HID)],
    "FuncType": [("generic parameters", FGEN), ("parent", PARENT), ("arguments", is_arg), ("return type", ret)],
    "LinkType": [("type", lambda v: v == src("t", "type"))],
}


def asked(v, name):
    """the components this value asks (name)"""
    return [a[2][0] for a in v if a[0] == "op" and a[1] in (name, "base") and a[2]]


def nullness(cj, pred):
    return any(not p and a[0] == "nz" and pred(a[1]) for a, p in cj)


def answers(cj, name, pred, pol):
    return any(p == pol and a[0] == "nz" and any(pred(x) for x in asked(a[1], name)) for a, p in cj)


def queries(c, P):
    spec = {"hasUnbounds": False, "canRealize": True, "isInstantiated": True}    # the answer that is about every component
    for nm, every in spec.items():
        ms = dict(methods(P, nm))
        for k in ("ClassType", "FuncType", "LinkType", "UnionType"):
            f = ms.get(T + k)
            if f is None:
                if k == "UnionType" or k == "FuncType" and nm == "canRealize":
                    if k == "UnionType" and nm != "canRealize":
                        continue
                c.viol("%s:%s:none" % (nm, k), k, "%s has no %s of its own" % (k, nm))
                continue
            comps = COMPONENTS["ClassType" if k == "UnionType" else k]
            if k == "FuncType" and nm == "canRealize":
                comps = [x for x in comps if x[0] != "return type"]
            if k == "FuncType" and nm == "isInstantiated":
                comps = [x for x in comps if x[0] not in ("return type", "arguments")] + COMPONENTS["ClassType"]
            for ai, s, r, cjs in run(P, T + k, f):
                for cj in cjs:
                    judge_query(c, P, nm, k, f, comps, every, s, r, cj)
    c.floor("every", 150)
    c.floor("some", 60)


def const(r):
    if r in (TRUE, INT(1)):
        return True
    if r in (FALSE, INT(0)):
        return False
    return None


def judge_query(c, P, nm, k, f, comps, every, s, r, cj):
    while sole(r) and sole(r)[:2] == ("op", "!") and sole(sole(r)[2]) and sole(sole(r)[2])[:2] == ("op", "!"):
        r = sole(sole(r)[2])[2]
    v = const(r)
    what = "%s::%s (%s)" % (k, nm, show_pc([x for x in cj])[:100])
    inner = op("getClass", src("t", "generics", "[0]", "type"))
    if k != "FuncType" and (isname(cj, "unrealized_type")):
        # a type that is only to be looked at: it is known once the class is
        if nm == "hasUnbounds":
            good = v is False
        else:
            known = cond(cj, nz(inner)) or cond(cj, nz(inner), False)
            good = r == op("!=", inner, NULL) or r == op("!=", NULL, inner) or v is True and cond(cj, nz(inner)) or v is False and cond(cj, nz(inner), False) or v is False and k == "UnionType"
        good = good or nm == "canRealize" and isname(cj, "type") or k == "UnionType" and v is False
        if not good:
            c.viol("%s:%s:unrealized" % (nm, k), f.where, "%s: an unrealized type gives %s" % (what, show(r)[:60]))
        return
    if k == "FuncType" and isname(cj, "unrealized_type"):
        return      # inherited code for a class that is no function
    if k == "LinkType":
        g = {"Unbound", "Generic", "Link"}
        for n in sorted(g):
            if kindis(cj, SELF, n):
                g = {n}
                break
        else:
            g = {n for n in g if not kindis(cj, SELF, n, False)}
        if asked(r, nm) == [src("t", "type")]:
            if g != {"Link"}:
                c.viol("%s:link" % nm, f.where, "%s: asks what a variable is linked to that is not linked" % what)
            else:
                if nm == "hasUnbounds" and asked(r, nm) and sole(r)[3:] and r != op(nm, src("t", "type"), A[0]):
                    c.viol("%s:link:args" % nm, f.where, "%s: the argument is not passed on" % what)
                c.ok("every", "link " + nm)
            return
        if nm == "hasUnbounds":
            want = {"Unbound": True, "Generic": True if cond(cj, nz(A[0])) else False if cond(cj, nz(A[0]), False) else None}
        else:
            want = {"Unbound": False, "Generic": False}
        for kd in g - {"Link"}:
            if (v is None or v != want[kd]) and not (kd == "Generic" and nm == "hasUnbounds" and g == {"Generic"} and r == A[0]):
                c.viol("%s:link:%s" % (nm, kd), f.where, "%s: a variable of kind %s gives %s" % (what, kd, show(r)[:60]))
            else:
                c.ok("every", "variable " + nm)
        if g == {"Link"} and not (v is not None and answers(cj, nm, lambda x: x == src("t", "type"), v)):
            c.viol("%s:link:ask" % nm, f.where, "%s: the type it is linked to is not asked" % what)
        return
    if nm == "canRealize" and k != "FuncType" and isname(cj, "type") and v is True:
        if not cond(cj, nz(op("hasUnbounds", SELF, FALSE)), False) and not all(answers(cj, "canRealize", pr, True) or nullness(cj, pr) for _, pr in comps):
            c.viol("%s:%s:type" % (nm, k), f.where, "%s: 'type' can be realized although it has unbounds" % what)
        return
    sealed = cond(cj, nz(op("isSealed", SELF)))
    if k == "UnionType" and nm == "canRealize":
        if not sealed:
            if not cond(cj, nz(op("isSealed", SELF)), False) or v is not False:
                c.viol("canRealize:union", f.where, "%s: a union that is not sealed gives %s" % (what, show(r)[:50]))
            else:
                c.ok("some", "unsealed union")
            return
    ask = asked(r, nm)
    if v is None and len(ask) == 1 and len(r) == 1:
        for pol in (True, False):
            if answers(cj, nm, lambda x: x == ask[0], pol):
                v = pol
    if v is not None and v != every:
        # some component must be the reason
        def reason(pr):
            return answers(cj, nm, pr, not every)
        if not any(reason(pr) for _, pr in comps) and not any(a[0] == "nz" and p == (not every) and any(x == SELF for x in asked(a[1], nm)) for a, p in cj):
            c.viol("%s:%s:reason" % (nm, k), f.where, "%s: %s although no component says so" % (what, v))
        else:
            c.ok("some", k + "::" + nm)
        return
    if v is None and not ask:
        c.viol("%s:%s:value" % (nm, k), f.where, "%s gives %s" % (what, show(r)[:80]))
        return
    for e in s.trace:
        if e[0] in ("return-in-loop", "break"):
            c.viol("%s:%s:early" % (nm, k), f.where, "%s: %s although not all components have been asked" % (what, show(r)[:50]))
        if e[0] == "quant":
            t = const(e[3])
            if t is None:
                t = True if cond(cj, nz(e[3])) else False if cond(cj, nz(e[3]), False) else every if r == e[3] else (not every) if r == op("!", e[3]) else None
            if t is not None and (e[1] == "all_of") != t:
                c.viol("%s:%s:one" % (nm, k), f.where, "%s: one component decides for all (%s)" % (what, e[1]))
    for cn, pr in comps:
        got = any(pr(x) for x in ask) or answers(cj, nm, pr, every) or nullness(cj, pr)
        if k == "FuncType" and nm == "canRealize" and not got:
            got = passthrough(cj, pr, cn) or cn == "arguments" and any(p and a[0] == "nz" and any(x[0] == "op" and x[1] == "getFunc" and is_arg(x[2][0]) for x in a[1]) for a, p in cj)
        if not got:
            c.viol("%s:%s:%s" % (nm, k, cn.split()[0]), f.where, "%s: the answer does not depend on its %s" % (what, cn))
        else:
            c.ok("every", "%s::%s %s" % (k, nm, cn))


def passthrough(cj, pr, cn):
    """types that are allowed to stay open: the function says so, and every open part is a variable that may be passed through"""
    attr = any(p and a[0] in ("found", "nz") and "attributes" in str(a) for a, p in cj)
    opens = [(a, p) for a, p in cj if "getUnbounds" in str(a) and any(x[0] == "op" and x[1] == "getUnbounds" and pr(x[2][0]) for x in allsub(a))]
    for a, p in opens:
        if p and a[0] == "eq" and "Generic" in str(a):
            return False
        if not p and "passThrough" in str(a):
            return False
    return attr and bool(opens)


def allsub(a):
    out = set()
    for x in a[1:]:
        if isinstance(x, frozenset):
            out.update(y for y in subatoms(x) if isinstance(y, tuple) and y)
    return out


def collecting(c, P):
    """the list of open type variables has those of every component"""
    ms = dict(methods(P, "getUnbounds"))
    for k in ("ClassType", "FuncType", "LinkType"):
        f = ms.get(T + k)
        if f is None:
            c.viol("getUnbounds:%s:none" % k, k, "%s has no getUnbounds of its own" % k)
            continue
        comps = [x for x in COMPONENTS[k] if x[0] != "return type"]
        for ai, s, r, cjs in run(P, T + k, f):
            for cj in cjs:
                what = "%s::getUnbounds (%s)" % (k, show_pc(list(cj))[:100])
                if k == "LinkType":
                    g = {"Unbound", "Generic", "Link"}
                    for n in sorted(g):
                        if kindis(cj, SELF, n):
                            g = {n}
                            break
                    else:
                        g = {n for n in g if not kindis(cj, SELF, n, False)}
                    if r == op("getUnbounds", src("t", "type"), A[0]):
                        if g != {"Link"}:
                            c.viol("getUnbounds:link", f.where, "%s: follows a variable that is not linked" % what)
                        else:
                            c.ok("list", "link")
                        continue
                    els = ai.getf(s, r, "[]") if sole_new(r) else None
                    incl = cond(cj, nz(A[0]))
                    excl = cond(cj, nz(A[0]), False)
                    for kd in g:
                        w = [SELF] if kd == "Unbound" or kd == "Generic" and incl else [frozenset()] if kd == "Generic" and excl else []
                        if els not in w:
                            c.viol("getUnbounds:%s" % kd, f.where, "%s: a variable of kind %s gives %s" % (what, kd, show(els)[:60] if els is not None else show(r)[:60]))
                        else:
                            c.ok("list", kd)
                    continue
                if isname(cj, "unrealized_type") and k == "ClassType":
                    continue
                n = sole_new(r)
                if n is None:
                    c.viol("getUnbounds:%s:value" % k, f.where, "%s gives %s" % (what, show(r)[:60]))
                    continue
                els = ai.getf(s, r, "[]")
                got = [x[2][0] for a in els for x in subatoms(V(a)) if isinstance(x, tuple) and x and x[0] == "op" and x[1] in ("getUnbounds", "base")]
                for a in els:
                    for x in subatoms(V(a)):
                        if isinstance(x, tuple) and x and x[0] == "op" and x[1] == "getUnbounds" and x[2][1:] != (A[0],):
                            c.viol("getUnbounds:%s:args" % k, f.where, "%s: 'includeGenerics' is not passed on" % what)
                for cn, pr in comps:
                    if any(pr(x) for x in got) or nullness(cj, pr) or k == "FuncType" and cn == "arguments" and any(GEN(x) for x in got):
                        c.ok("list", "%s %s" % (k, cn))
                    else:
                        c.viol("getUnbounds:%s:%s" % (k, cn.split()[0]), f.where, "%s leaves out the open variables of its %s" % (what, cn))
    c.floor("list", 20)


# ------------------------------------------------------------------ names
def parts(v, depth=0):
    """the pieces of a concatenated string"""
    a = sole(v)
    if a and a[0] == "op" and a[1] in ("+", "join", "append", "concat"):
        return [y for x in a[2:] for z in (x if isinstance(x, tuple) and x and isinstance(x[0], frozenset) else (x,)) for y in parts(z)]
    return [v]


def names(c, P):
    """a realized name tells types with different components apart"""
    ms = dict(methods(P, "realizedName"))
    for k, f in ms.items():
        k = sh(k)
        for ai, s, r, cjs in run(P, T + k, f):
            what = "%s::realizedName (%s)" % (k, show_pc(s.conds())[:100])
            if k in ("ClassType", "UnionType"):
                if r == src("t", "_rn"):
                    if not all(cond(cj, nz(op("size", src("t", "_rn")))) or cond(cj, nz(op("empty", src("t", "_rn"))), False) for cj in cjs):
                        c.viol("name:cached:%s" % k, f.where, "%s: the remembered name is used without being there" % what)
                    else:
                        c.ok("name", k + " cached")
                    continue
                for e in s.trace:
                    if e[0] == "store" and e[2] == "_rn":
                        if not all(cond(cj, nz(op("canRealize", SELF))) for cj in cjs):
                            c.viol("name:remember:%s" % k, f.where, "%s: the name of a type that is not known yet is remembered" % what)
                        elif e[3] != r:
                            c.viol("name:stored:%s" % k, f.where, "%s: another name is remembered than the one given" % what)
                        else:
                            c.ok("name", k + " remembered")
                ps = parts(r)
                for cj in cjs:
                    if isname(cj, "Partial"):
                        if not any(a[0] == "op" and a[1] == "debugString" for a in r) and not has_names(ps, GENEL):
                            c.viol("name:partial:%s" % k, f.where, "%s: the name of a partial call is %s" % (what, show(r)[:60]))
                        continue
                    if not ps or ps[0] != NAME and NAME not in ps:
                        c.viol("name:own:%s" % k, f.where, "%s: the name of the class does not occur in %s" % (what, show(r)[:80]))
                        continue
                    if isname(cj, "Union"):
                        need(c, P, k, f, what, s, cj, ps, lambda v: mentions(v, ARGS) or v in (src("t", "generics", "[]"), src("t", "generics", "[]", "type")), src("t", "generics", "[]", "name"))
                        continue
                    need(c, P, k, f, what, s, cj, ps, GENEL, src("t", "generics", "[]", "name"))
            elif k == "FuncType":
                ps = parts(r)
                if any(a[0] == "dep" for p in ps for a in p):
                    continue    # too deep to be written out; the same pieces are seen on shorter paths
                for cj in cjs:
                    if src("t", "ast", "name") not in ps and op("getName", src("t", "ast")) not in ps:
                        c.viol("name:own:FuncType", f.where, "%s: the name of the function does not occur" % what)
                    par = src("t", "funcParent")
                    if not cond(cj, nz(par), False) and op("realizedName", par) not in ps:
                        c.viol("name:parent", f.where, "%s: what the function belongs to does not occur" % what)
                    need(c, P, k, f, what, s, cj, ps, lambda v: v in (src("t", "funcGenerics", "[]"), src("t", "funcGenerics", "[]", "type")), src("t", "funcGenerics", "[]", "name"))
                    need(c, P, k, f, what, s, cj, ps, is_arg0, None)
            elif k == "LinkType":
                for cj in cjs:
                    if kindis(cj, SELF, "Link") or kindis(cj, SELF, "Unbound", False) and kindis(cj, SELF, "Generic", False):
                        if r != op("realizedName", src("t", "type")):
                            c.viol("name:link", f.where, "%s: a linked variable has the name %s" % (what, show(r)[:60]))
                        else:
                            c.ok("name", "link")
    c.floor("name", 40)


def GENEL(v):
    return v in (src("t", "generics", "[]"), src("t", "generics", "[]", "type"))


def is_arg0(v):
    a = sole(v)
    if a and a[0] == "op" and a[1] == "getFunc":
        v = a[2]
    return mentions(v, ARGS)


def has_names(ps, pred):
    return any(a[0] == "op" and a[1] == "realizedName" and a[2] and pred(a[2][0]) for p in ps for x in p for a in [x])


def need(c, P, k, f, what, s, cj, ps, pred, named):
    """the pieces have the name of these components, unless the component has no name or the pieces are empty"""
    if has_names(ps, pred):
        c.ok("name", k)
        return
    if named is not None and (cond(cj, nz(op("size", named)), False) or cond(cj, nz(op("empty", named)))):
        c.ok("name", k + " unnamed")
        return
    for a, p in cj:
        if not p and a[0] == "nz":
            x = sole(a[1])
            if x and x[0] == "op" and x[1] == "size" and has_names(parts(x[2]), pred):
                return      # nothing in the list
    c.viol("name:parts:%s" % k, f.where, "%s: the name does not have those of all its components: %s" % (what, show(frozenset().union(*ps))[:100]))


def literals(c, P, Q):
    """names of static values are one-to-one"""
    ms = dict(methods(P, "debugString"))
    val = src("t", "value")
    for k, wrap in (("IntStaticType", None), ("StrStaticType", "escape"), ("BoolStaticType", None)):
        f = ms.get(T + k)
        if f is None:
            raise AnalysisBroken("%s::debugString not found" % k)
        seen = {}
        for ai, s, r, cjs in run(P, T + k, f):
            for cj in cjs:
                if cond(cj, nz(op("<", A[0], V(("int", 2)))), False) or cond(cj, nz(op(">=", A[0], V(("int", 2))))) or cond(cj, eq(A[0], V(("int", 0))), False) or cond(cj, eq(A[0], V(("int", 2)))):
                    continue    # the long form, for messages
                if k == "BoolStaticType":
                    b = True if cond(cj, nz(val)) else False if cond(cj, nz(val), False) else None
                    a = sole(r)
                    if b is None and not (a and val in parts(r) + list(a[2:])):
                        c.viol("literal:%s" % k, f.where, "the name of a static bool does not depend on its value: %s" % show(r)[:60])
                    seen.setdefault(b, set()).add(r)
                    continue
                w = op("escape", val) if wrap else val
                if not any(isinstance(x, tuple) and x and x[0] == "op" and any(w == y for y in x[2]) for x in subatoms(r)):
                    c.viol("literal:%s" % k, f.where, "%s: the name is %s, which does not have the value" % (k, show(r)[:80]))
                else:
                    a = sole(r)
                    fm = a[2] if a and a[0] == "op" and str(a[1]).endswith("format") else None
                    lit = list(fm)[0][1] if fm and len(fm) == 1 and list(fm)[0][0] == "str" else None
                    if lit is not None and not re.fullmatch(r"'?\{(:?d?)\}'?", lit):
                        c.viol("literal:format:%s" % k, f.where, "%s: the name is written as %r" % (k, lit))
                    c.ok("literal", k)
        if k == "BoolStaticType":
            if seen.get(True, set()) & seen.get(False, set()):
                c.viol("literal:BoolStaticType", f.where, "static True and False have the same name")
            else:
                c.ok("literal", k)
    c.floor("literal", 3)
    escaping(c, Q)


def char_of(cj, ch):
    """the character this path is about, or None"""
    for a, p in cj:
        if p and a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if ch(x) and num(y) is not None:
                    return num(y)
    return None


def escaping(c, Q):
    """escape() is one-to-one: what it writes starts with a backslash exactly for the characters it replaces, the pieces differ, and coded characters have a fixed width; unescape() reads back each of them"""
    fs = [f for f in Q.fn("codon::ast::escape") if f.get("body") is not None]
    gs = [f for f in Q.fn("codon::ast::unescape") if f.get("body") is not None]
    if not fs or not gs:
        raise AnalysisBroken("escape/unescape not found")
    f, g = fs[0], gs[0]
    one = {}
    plain = []
    coded = []
    isch = lambda v: any(a[0] in ("op", "src") for a in v) and mentions(v, src("s")) or v == src("s", "[]")
    cl = AClient({})
    cl.P = Q
    n = 0
    for s, r in AI(Q, cl).run(f, State(), None, [src("s")]):
        if r is THROWN:
            continue
        n += 1
        ps = [p for p in parts(r) if p != V(("str", ""))]
        for cj in dnf(s.conds()):
            if contradictory(cj) or not ps:
                continue
            ch = char_of(cj, isch)
            a = sole(ps[-1]) if len(ps) == 1 else None
            if ch is not None and a and a[0] == "str":
                one[ch] = a[1]
                c.ok("escape", "%r as %r" % (chr(ch), a[1]))
            elif ch is not None:
                c.viol("escape:char:%d" % ch, f.where, "escape() writes %r as %s" % (chr(ch), show(r)[:60]))
            elif a and a[0] == "op" and str(a[1]).endswith("format"):
                fm = list(a[2])
                lit = fm[0][1] if len(fm) == 1 and fm[0][0] == "str" else None
                coded.append(lit)
                if lit is None:
                    raise AnalysisBroken("the format of escape() cannot be read")
                if not re.fullmatch(r"\\x\{:02[xX]\}", lit):
                    c.viol("escape:width", f.where, "escape() writes a coded character as %r, which has no fixed width: different strings are written alike" % lit)
                else:
                    c.ok("escape", "coded as %r" % lit)
            elif isch(ps[-1]) and len(ps) == 1:
                plain.append(cj)
                for q in (92, 39):
                    if not any(not p and x[0] == "eq" and any(num(y) == q for y in x[1:]) for x, p in cj):
                        c.viol("escape:plain:%d" % q, f.where, "escape() may leave %r as it is" % chr(q))
                lo = any(x[0] == "nz" and "<" in str(x) or ">" in str(x) for x, p in cj)
                c.ok("escape", "plain")
            else:
                c.viol("escape:piece", f.where, "escape() writes %s" % show(r)[:80])
    if not plain or not coded or len(one) < 5:
        raise AnalysisBroken("escape() is not a choice by character any more")
    for ch, t in one.items():
        if len(t) != 2 or t[0] != "\\" or t[1] == "x" or t[1].isdigit():
            c.viol("escape:form:%d" % ch, f.where, "escape() writes %r as %r" % (chr(ch), t))
        if [x for x in one if one[x] == t] != [ch]:
            c.viol("escape:same:%s" % t, f.where, "escape() writes two characters as %r" % t)
    # reading back
    back = {}
    cl = AClient({})
    cl.P = Q
    hexa = []
    for s, r in AI(Q, cl).run(g, State(), None, [src("s")]):
        if r is THROWN:
            continue
        ps = [p for p in parts(r) if p != V(("str", ""))]
        for cj in dnf(s.conds()):
            if contradictory(cj) or len(ps) != 1:
                continue
            chs = sorted({(repr(x), num(y)) for a, p in cj if p and a[0] == "eq" for x, y in ((a[1], a[2]), (a[2], a[1])) if isch(x) and num(y) is not None})
            nums = [y for _, y in chs]
            if num(ps[0]) is not None and 92 in nums and len(chs) == 2:
                k = [y for y in nums if y != 92]
                back[k[0] if k else 92] = num(ps[0])
            a = sole(ps[0])
            if a and a[0] == "op" and str(a[1]).endswith(("stoi", "stol", "strtol", "stoul")) and 120 in nums:
                hexa.append(a)
    for ch, t in one.items():
        k = ord(t[1])
        if back.get(k) != ch:
            c.viol("unescape:%s" % t, g.where, "unescape() reads %r as %r, which escape() writes for %r" % (t, chr(back[k]) if k in back else None, chr(ch)))
        else:
            c.ok("unescape", t)
    for a in hexa:
        if num(a[-1]) != 16 or not any(isinstance(x, tuple) and x and x[0] == "op" and "substr" in x[1] and num(x[2][-1]) == 2 for x in subatoms(a[2])):
            c.viol("unescape:hex", g.where, "unescape() reads a coded character with %s" % show(V(("op", a[1], a[2:])))[:80])
        else:
            c.ok("unescape", "hex")
    if not hexa:
        c.viol("unescape:nohex", g.where, "unescape() does not read the coded characters escape() writes")
    c.floor("escape", 10)
    c.floor("unescape", 9)


def algebra():
    c = Check("C17", "abstract interpretation of generalize, instantiate, hasUnbounds, getUnbounds, canRealize, isInstantiated and realizedName of every class of types: each component appears, transformed alike, in the new type, in the answer and in the name")
    P = c.load(FILES + NF)
    copies(c, P)
    links(c, P)
    queries(c, P)
    collecting(c, P)
    names(c, P)
    literals(c, P, P)
    return c

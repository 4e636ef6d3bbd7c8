"""Canonicalisation: every rewrite rule yields a term equal to the one it replaces, under laws the method declares."""
from absint import *
from checklib import Check
from facts import AnalysisBroken, walk
from folding import NS as _NS, dnf, num, sole, norm_magic
from irmodel import IRClient
from passes import strlist

NS = "codon::ir::transform::cleanup::"
CALL = "codon::ir::CallInstr"
FILES = ["codon/cir/transform/cleanup/canonical.cpp", "codon/cir/module.cpp",
         "codon/compiler/compiler.cpp", "codon/cir/transform/manager.cpp"]
RELS = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}
MIRROR = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
SYM = ("getRank", "match", "getUnmangledName", "getFunc", "hasAttribute", "isConst", "getConst", "getMangledFunc")
FRONT, BACK = ("[0]",), ("[-1]",)


class CanonClient(IRClient):
    extractors = ()
    chain = ()      # helper functions that are events of their own

    def should_inline(self, t, f, o, vs):
        return t.get("cls") != "codon::ir::Module" and f["n"] not in ("getFunc", "match", "getRank")

    def typed_leaf(self, x, cls):
        return False

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm = f["n"]
        if nm == "isCallOf":
            a = list(vs)
            if len(a) > 2 and any(x[0] == "new" for x in a[2]):
                a[2] = op("types", *[V(x) for x in strlist(st, a[2])])
            return [(st, op("isCallOf", *a))]
        if nm in ("isConst", "getConst"):
            return [(st, op(nm, vs[0], V(("str", (f.get("targs") or ["?"])[0]))))]
        if nm in SYM:
            return [(st, op(nm, *([o] if o is not None else []), *vs))]
        if nm in ("getInt", "getFloat") and f.get("cls") == "codon::ir::Module":
            return [(st, op(nm, vs[0]))]
        if f.get("cls") == "codon::ir::Value" and nm.startswith("operator") and nm != "operator=":
            return [(st, op("$" + nm[8:], o, *vs))]
        if nm == "setResult":
            st = st.copy()
            st.trace += (("result", vs[0]),)
            return [(st, VOID)]
        if nm == "call" and f["qn"].startswith("codon::ir::util"):
            return [(st, op("mkcall", vs[0], op("list", *[V(x) for x in strlist(st, vs[1])])))]
        if f["id"] in self.chain:
            st = st.copy()
            st.trace += (("chain", f["id"], tuple(vs), st.conds()),)
            if f["id"] in self.extractors:
                for p, x in zip(self.P.funcs[f["id"]]["params"], vs):
                    if "vector<" in self.P.funcs[f["id"]]["T"][p["t"]]:
                        ai.addelt(st, x, op("operand", INT(0)))
                        ai.addelt(st, x, op("operand", INT(1)))
            return [(st, VOID)]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)

    def note(self, ai, st, n, f, o, vs):
        nm = f["n"]
        if nm in ("push_back", "emplace_back", "sort", "stable_sort", "clear", "reverse"):
            st = st.copy()
            st.trace += ((nm, o, tuple(vs), st.conds()),)
            return st


def callees(P, f, seen=None):
    seen = {} if seen is None else seen
    for x in walk(f.get("body")):
        for k in ("f", "fn", "callee"):
            i = x.get(k)
            if isinstance(i, int) and i in P.funcs and i not in seen:
                seen[i] = P.funcs[i]
    return seen


def truth(cj, pred):
    for a, p in cj:
        if a[0] == "nz":
            t = sole(a[1])
            if t and t[0] == "op" and pred(t):
                return p
    return None


def law(P, cj, name, fn):
    """the path knows the method declares the algebraic law"""
    def pred(t):
        return t[1] == "hasAttribute" and t[2] == fn and norm_mangled(P, t[3]) == name
    return truth(cj, pred) is True


def norm_mangled(P, v):
    a = sole(v)
    if a and a[0] == "op" and a[1] == "getMangledFunc":
        return norm_magic(P, a[3])
    return None


def funcof(v):
    return op("getFunc", None) if v is None else v


def run():
    c = Check("C11", "every rewrite rule the canonicalisation pass registers, interpreted to its result terms; every handler of the pass")
    P = c.load(FILES)
    regs = [f for f in P.fn(NS + "CanonicalizationPass::registerStandardRules") if f.get("body")]
    if len(regs) != 1:
        raise AnalysisBroken("canonicalisation: rule registration not found")
    rules = registered(P, regs[0])
    if not rules:
        raise AnalysisBroken("canonicalisation: no rule registered")
    for name, cls in rules:
        m = visit_of(P, cls)
        if m is None:
            continue
        c.ok("rule", "%s -> %s" % (name, m["qn"]))
        check_rule(c, P, name, cls, m)
    handlers(c, P)
    c.floor("rule", 4)
    c.floor("result", 30)
    c.floor("handler", 2)
    return c


def registered(P, f):
    out = []

    class R(IRClient):
        def should_inline(self, t, f, o, vs):
            return False

        def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
            if f["n"] == "registerRule":
                for a in vs[1]:
                    if a[0] == "new":
                        out.append((show(vs[0]).strip("'"), a[2]))
            return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)
    cl = R({})
    cl.P = P
    AI(P, cl).run(f, State(), src("this"), [src("m")])
    return sorted(set(out))


def visit_of(P, cls):
    from folding import visit_of as v
    return v(P, cls)


def check_rule(c, P, name, cls, m):
    # a recursive helper, or one that reorders a list, is analysed on its own
    chain = {}
    for r in [cls] + list(P.all_bases(cls)):
        for x in P.records.get(r, {}).get("methods", []):
            g = P.funcs.get(x["id"])
            if g and g.get("body") and x["n"] != "visit" and any("vector<" in g["T"][p["t"]] for p in g["params"]) \
                    and "canonical" in (g.where or ""):
                chain[g["id"]] = g
    for g in P.funcs.values():
        if g.get("body") and "canonical.cpp" in (g.where or "") and not g.get("cls") and \
                any("vector<" in g["T"][p["t"]] for p in g["params"]):
            chain[g["id"]] = g
    extract, order = {}, {}
    for i, g in chain.items():
        (order if not any("Value *" == g["T"][p["t"]].replace("codon::ir::", "") for p in g["params"]) else extract)[i] = g
    cl = CanonClient({"v": CALL})
    cl.P = P
    cl.chain = frozenset(chain)
    cl.extractors = frozenset(extract)
    ai = AI(P, cl)
    used = set()
    for s, r in ai.run(m, State(), src("this"), [src("v")]):
        if r is THROWN:
            continue
        res = [e[1] for e in s.trace if e[0] == "result"]
        if not res or res[-1] == NULL:
            continue
        for e in s.trace:
            if e[0] == "chain":
                used.add(e[1])
        for cj in dnf(s.conds()):
            judge(c, P, name, m.where, cj, res[-1], s, extract, order)
    for i in used:
        (check_extract if i in extract else check_order)(c, P, chain[i], cl)


# ---------------------------------------------------------------- rule results
def ops_true(cj, name=None):
    out = []
    for a, p in cj:
        if a[0] == "nz" and p:
            t = sole(a[1])
            if t and t[0] == "op" and (name is None or t[1] == name):
                out.append(t)
    return out


def known_calls(P, cj):
    """[(term, method name)] for every expression the path knows to be a two-operand call of a named method"""
    out = []
    for t in ops_true(cj, "isCallOf"):
        nm = norm_magic(P, t[3])
        two = num(t[4]) == 2 if len(t) > 4 else False
        a = sole(t[4]) if len(t) > 4 else None
        if a and a[0] == "op" and a[1] == "types" and len(a) == 4:
            two = True
        method = len(t) > 6 and num(t[6]) == 1
        if two:
            out.append((t[2], nm or t[3], method))
    return out


def owner(fn):
    """the call expression whose callee the term fn names"""
    a = sole(fn)
    if not (a and a[0] == "op" and a[1] == "getFunc"):
        return None
    b = next(iter(a[2])) if len(a[2]) == 1 else None
    if b is None:
        return None
    if b[0] == "src" and b[2] and b[2][-1] == "callee":
        return src(b[1], *b[2][:-1])
    if b[0] == "fld" and b[-1] == "callee":
        return b[1] if isinstance(b[1], frozenset) else V(b[1])
    if b[0] == "op" and b[1].endswith("callee"):
        return b[2][0]
    return None


def declared(P, cj, law, terms):
    """the path knows that the method called by one of the terms declares the law"""
    for t in ops_true(cj, "hasAttribute"):
        if norm_mangled(P, t[3]) == law and owner(t[2]) in terms:
            return True
    return False


def args(v):
    a = next(iter(v))
    if a[0] == "src":
        return src(a[1], *a[2], "args", "[0]"), src(a[1], *a[2], "args", "[-1]")
    return None


def mono(v, known, depth=0):
    """polynomial over the operand terms: ordered list of (coefficient, factors)"""
    for t, nm, m in known:
        if t == v and m and depth < 6 and args(v):
            x, y = args(v)
            if nm == "__add__":
                return plus(mono(x, known, depth + 1), mono(y, known, depth + 1))
            if nm == "__mul__":
                return times(mono(x, known, depth + 1), mono(y, known, depth + 1))
            if nm == "__sub__":
                return plus(mono(x, known, depth + 1), times([(-1, ())], mono(y, known, depth + 1)))
    a = sole(v)
    if a and a[0] == "op":
        if a[1] in ("$+", "$*", "$-") and len(a) == 4:
            x, y = mono(a[2], known, depth), mono(a[3], known, depth)
            return plus(x, y) if a[1] == "$+" else times(x, y) if a[1] == "$*" else plus(x, times([(-1, ())], y))
        if a[1] == "$-" and len(a) == 3:
            return times([(-1, ())], mono(a[2], known, depth))
        if a[1] in ("getInt", "getFloat"):
            k = a[2]
            n = num(k)
            if n is not None:
                return [(n, ())]
            g = sole(k)
            if g and g[0] == "op":
                if g[1] == "getConst":
                    return mono(g[2], known, depth)
                if g[1] in ("neg", "u-") and len(g) == 3:
                    return times([(-1, ())], mono(op(a[1], g[2]), known, depth))
                if g[1] == "-" and len(g) == 4 and num(g[2]) == 0 and a[1] == "getInt":
                    return times([(-1, ())], mono(op(a[1], g[3]), known, depth))
                if g[1] == "*" and len(g) == 4 and -1 in (num(g[2]), num(g[3])):
                    return times([(-1, ())], mono(op(a[1], g[3] if num(g[2]) == -1 else g[2]), known, depth))
    return [(1, (v,))]


def plus(x, y):
    return x + y


def times(x, y):
    return [(c * d, f + g) for c, f in x for d, g in y]


def equalities(cj):
    """operands the path knows to be reads of one variable, or structurally equal"""
    par = {}

    def find(x):
        while x in par:
            x = par[x]
        return x

    def join(x, y):
        x, y = find(x), find(y)
        if x != y:
            if show(x) < show(y):
                x, y = y, x
            par[x] = y
    isvar = {t[2] for t in ops_true(cj, "isa") if len(t) > 3 and (sole(t[3]) or "")[1:2] == ("codon::ir::VarValue",)}

    def var_of(x):
        a = sole(x)
        if a and a[0] == "op" and a[1].split("::")[-1] == "getId":
            x = a[2]
            a = sole(x)
        if a and a[0] == "src" and a[2] and a[2][-1] == "val":
            b = src(a[1], *a[2][:-1])
            return b if b in isvar else None
        return None
    for a, p in cj:
        if a[0] == "eq" and p:
            x, y = var_of(a[1]), var_of(a[2])
            if x is not None and y is not None:
                join(x, y)
    for t in ops_true(cj, "match"):
        if len(t) >= 6 and num(t[5]) == 1:
            join(t[2], t[3])
    return find


def strict(poly, find):
    """terms in order, factors in order"""
    return [(c, tuple(show(find(x)) for x in f)) for c, f in poly]


def loose(poly, find, terms, factors):
    out = [(c, tuple(sorted(f)) if factors else f) for c, f in strict(poly, find)]
    return sorted(out, key=str) if terms else out


def subterms(v, kinds, out=None):
    out = [] if out is None else out
    a = sole(v)
    if a and a[0] == "op":
        if a[1] in kinds:
            out.append(v)
        for x in a[2:]:
            if isinstance(x, frozenset):
                subterms(x, kinds, out)
    return out


def same_type(cj, x, y):
    """the path knows both expressions have one type"""
    def ty(v):
        a = sole(v)
        while a and a[0] == "op" and a[1].split("::")[-1] in ("getName", "getType", "doGetType", ".name", "is"):
            if a[1].split("::")[-1] in ("getType", "doGetType"):
                return a[2]
            a = sole(a[2])
        return None
    for a, p in cj:
        if a[0] == "eq" and p and {ty(a[1]), ty(a[2])} == {x, y}:
            return True
    return False


def judge(c, P, name, where, cj, res, s, extract, order):
    v = src("v")
    fn = op("getFunc", src("v", "callee"))
    A, B = args(v)
    shown = lambda x: show(x).replace("v.args.[0]", "a").replace("v.args.[-1]", "b")[:160]

    def bad(k, msg):
        c.viol("%s:%s" % (name, k), where, "rule '%s': %s" % (name, msg))

    c.ok("result", "%s => %s" % (name, show(res)[:160]))
    t = sole(res)
    if t is None or t[0] != "op":
        return bad("shape", "the result %s is not one new expression" % shown(res))
    if t[1] == "mkcall":
        return chain_result(c, P, name, where, cj, res, s, fn, A, B, extract, order, bad)
    if not same_type(cj, res, v):
        bad("type", "the result is used without having the type of the expression it replaces")
    rel = [norm_magic(P, a[1 + (a[2] == op("getUnmangledName", fn))] if False else o) for a, p in cj
           if a[0] == "eq" and p for o in (a[1], a[2]) if op("getUnmangledName", fn) in (a[1], a[2])]
    rel = [r for r in rel if r in RELS]
    if any(sole(t2[2]) and sole(t2[2])[1] in ("getInt", "getFloat") for t2 in ops_true(cj, "isa")):
        return      # a fresh constant is not a variable
    if any(a[0] == "nz" and not p and sole(a[1]) and sole(a[1])[0] == "src" and "args" in sole(a[1])[2] for a, p in cj):
        return      # operands of a call are never null
    known = known_calls(P, cj)
    mine = [nm for x, nm, m in known if x == v]
    if t[1][1:] in MIRROR and t[1].startswith("$"):
        rel += [r for r in mine if r in RELS]
        if not rel:
            return bad("op", "a comparison is built without establishing which comparison the call is")
        want = RELS[rel[0]]
        o, x, y = t[1][1:], t[2], t[3]
        if not (x == A and y == B and o == want or x == B and y == A and o == MIRROR[want]):
            bad(rel[0], "a %s b becomes %s" % (want, shown(res)))
        return
    if not mine:
        return bad("op", "the result %s is built without establishing which operation the call is" % shown(res))
    if not any(x == v and m for x, nm, m in known):
        bad("method", "a call is rewritten without establishing that it is the method of its first operand")
    find = equalities(cj)
    mul_terms = [x for x, nm, m in known if nm == "__mul__"] + subterms(res, ("$*",))
    add_terms = [x for x, nm, m in known if nm == "__add__"] + subterms(res, ("$+",))
    old, new = mono(v, known), mono(res, known)
    if loose(old, find, True, True) != loose(new, find, True, True):
        return bad("value", "%s becomes %s, which is a different value" % (poly(old), poly(new)))
    consts = {t2[2:4] for t2 in ops_true(cj, "isConst")}
    for k in subterms(res, ("getInt", "getFloat")):
        for g in subterms(k, ("getConst",)):
            if sole(g)[2:4] not in consts:
                bad("const", "the value of an operand that is not known to be a constant is read")
            neg = sole(sole(k)[2])
            if neg and neg[1] in ("neg", "u-", "-", "*") and sole(k)[1] == "getInt" and not excludes_min(cj, g):
                bad("min", "the most negative integer is negated")
    if mine[0] == "__sub__" and not same_type(cj, A, B):
        bad("operand-types", "a difference of operands of different types is rewritten")
    if len(old) != len(new) or loose(old, find, False, True) != loose(new, find, False, True):
        if not declared(P, cj, "commutative", add_terms):
            bad("add-commutes", "the terms of a sum are exchanged although no addition involved is declared commutative")
    if loose(old, find, True, False) != loose(new, find, True, False):
        if not declared(P, cj, "commutative", mul_terms):
            bad("mul-commutes", "%s becomes %s: factors change sides although the multiplication is not declared commutative" %
                (poly(old), shown(res)))
    if len(subterms(res, ("$*",))) and subterms(res, ("$+",)):
        if not declared(P, cj, "distributive", mul_terms):
            bad("distributes", "a common factor is taken out of a sum although the multiplication is not declared distributive")


def poly(p):
    return " + ".join("*".join(([str(c)] if c != 1 or not f else []) + [show(x).replace("v.args", "").replace(".args", "") for x in f])
                      for c, f in p)[:200]


def excludes_min(cj, g):
    for a, p in cj:
        if a[0] == "eq" and not p and g in (a[1], a[2]):
            o = a[2] if a[1] == g else a[1]
            if num(o) in (-(1 << 63), 1 << 63):
                return True
        if a[0] == "nz":
            t = sole(a[1])
            if t and t[0] == "op" and len(t) == 4 and g in (t[2], t[3]):
                n = num(t[3] if t[2] == g else t[2])
                if n is None:
                    continue
                o = t[1] if t[2] == g else MIRROR.get(t[1], t[1])
                if p and (o == ">" and n >= -(1 << 63) or o == ">=" and n > -(1 << 63)) or \
                        not p and (o == "<=" and n >= -(1 << 63) or o == "<" and n > -(1 << 63)):
                    return True
    return False


# ---------------------------------------------------------------- operator chains
def chain_result(c, P, name, where, cj, res, s, fn, A, B, extract, order, bad):
    v = src("v")
    uname = op("getUnmangledName", fn)
    known = known_calls(P, cj)
    if not any(x == v and m and (nm == uname or nm == show(uname)) for x, nm, m in known):
        bad("call", "the chain is rebuilt without establishing that the call is a two-operand method on operands of its own type")
    t = sole(res)
    n = 0
    while t and t[0] == "op" and t[1] == "mkcall":
        n += 1
        if t[2] != fn:
            bad("fn", "the chain is rebuilt with a method other than the one it was made of")
        l = sole(t[3])
        inner = [x for x in (l[2:] if l else ()) if sole(x) and sole(x)[:2] == ("op", "mkcall")]
        if not inner:
            break
        if l[2] != inner[0]:
            bad("assoc", "the chain is rebuilt grouping to the right")
        t = sole(inner[0])
    ev = [e for e in s.trace if e[0] in ("chain", "push_back", "emplace_back", "sort", "stable_sort", "reverse")]
    ext = [e for e in ev if e[0] == "chain" and e[1] in extract]
    srt = [e for e in ev if e[0] in ("sort", "stable_sort", "reverse") or e[0] == "chain" and e[1] in order]
    if srt and not declared(P, cj, "commutative", [v]):
        bad("commutes", "operands are reordered although the method is not declared commutative")
    if ext:
        if not declared(P, cj, "associative", [v]):
            bad("associates", "a nested chain is flattened although the method is not declared associative")
        for e in ext:
            names = {p["n"]: x for p, x in zip(extract[e[1]]["params"], e[2])}
            if v not in e[2]:
                bad("extract", "the chain is not extracted from the call that is replaced")
            if uname not in e[2] and fn not in e[2]:
                bad("extract-op", "the chain is extracted for another operation")
    else:
        ps = [e[2][0] for e in ev if e[0] in ("push_back", "emplace_back")]
        if ps[:2] != [A, B]:
            bad("operands", "the operands of the rebuilt call are not the call's own, in order: %s" % [show(x) for x in ps])


def check_extract(c, P, f, cl):
    """flattening visits the left operand before the right one, for the same operation, and keeps every other value"""
    roots = [p["n"] for p in f["params"]]
    vp = next(p["n"] for p in f["params"] if f["T"][p["t"]].endswith("Value *"))
    out = next(p["n"] for p in f["params"] if "vector<" in f["T"][p["t"]])
    v = src(vp)
    ai = AI(P, cl)
    for s, r in ai.run(f, State(), None, [src(x) for x in roots]):
        if r is THROWN:
            continue
        c.ok("chain", "%s path" % f["n"])
        rec = [e for e in s.trace if e[0] == "chain"]
        push = [e for e in s.trace if e[0] in ("push_back", "emplace_back")]

        def bad(k, msg):
            c.viol("%s:%s" % (f["n"], k), f.where, msg)
        if rec:
            a, b = args(v)
            for cj in dnf(s.conds()):
                if not any(x == v and m for x, nm, m in known_calls(P, cj)):
                    bad("guard", "an expression is taken apart without being a method call of the chain's operation")
                elif not any(x == v and nm in (src(x2) for x2 in roots) for x, nm, m in known_calls(P, cj)):
                    bad("guard", "an expression is taken apart although its operation is not compared with the chain's")
            vi = roots.index(vp)
            if [e[2][vi] for e in rec] != [a, b] or push:
                bad("order", "a nested call contributes %s to the chain instead of its left, then its right operand" %
                    [show(e[2][vi]) for e in rec])
            for e in rec:
                for i, x in enumerate(e[2]):
                    if i != vi and x != src(roots[i]):
                        bad("param", "a nested operand is searched with another '%s'" % roots[i])
        elif len(push) != 1 or push[0][2][0] != v or push[0][1] != src(out):
            bad("leaf", "an operand that is not part of the chain is not kept exactly once")


def check_order(c, P, f, cl):
    """reordering only permutes: every element is carried over on every path"""
    roots = [p["n"] for p in f["params"]]
    ai = AI(P, cl)
    for s, r in ai.run(f, State(), None, [src(x) for x in roots]):
        if r is THROWN:
            continue
        c.ok("chain", "%s path" % f["n"])
        pushes = [e for e in s.trace if e[0] in ("push_back", "emplace_back")]
        for e in s.trace:
            if e[0] in ("push_back", "emplace_back", "sort", "stable_sort", "clear", "reverse"):
                if any(a[0] not in ("each", "loop") and not loop_bound(a) for a, p in e[3]):
                    c.viol("%s:conditional" % f["n"], f.where, "an operand is carried over only under a condition: %s" % show_pc(e[3])[:150])
        if any(e[0] == "clear" and e[1] == src(roots[0]) for e in s.trace) and \
                not any(e[1] == src(roots[0]) for e in pushes):
            c.viol("%s:drop" % f["n"], f.where, "the operands are discarded")


def loop_bound(a):
    return a[0] in ("eq", "nz") and ("it(" in show_pc([(a, True)]) or "size(" in show_pc([(a, True)]))


# ---------------------------------------------------------------- handlers of the pass
class HandlerClient(IRClient):
    def should_inline(self, t, f, o, vs):
        return (t.get("cls") or "").endswith("CanonicalizationPass")

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm = f["n"]
        if nm in ("hasSideEffect", "getAnalysisResult"):
            return [(st, op(nm, *([o] if o is not None else []), *vs))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)

    def note(self, ai, st, n, f, o, vs):
        if f["n"] in ("insert", "erase", "rewrite", "setResult") or f["n"].startswith("operator++"):
            st = st.copy()
            st.trace += ((f["n"], o, tuple(vs), st.conds()),)
            return st


def handlers(c, P):
    hs = [f for f in P.funcs.values() if f["n"] == "handle" and f.get("body") and (f.get("cls") or "").endswith("CanonicalizationPass")]
    for f in hs:
        c.ok("handler", f["qn"] + " " + f["T"][f["params"][0]["t"]])
        cl = HandlerClient({})
        cl.P = P
        v = src("v")
        for s, r in AI(P, cl).run(f, State(), src("this"), [v]):
            if r is THROWN:
                continue
            for e in s.trace:
                if e[0] == "rewrite":
                    rewrite(c, f, e)
            flatten(c, f, s)


def rewrite(c, f, e):
    tgt = e[2][0]
    for cj in dnf(e[3]):
        ok = False
        for a, p in cj:
            if a[0] == "nz" and not p:
                t = sole(a[1])
                if t and t[0] == "op" and t[1] == "hasSideEffect" and t[3] == tgt and \
                        "sideEffectsKey" in show(t[2]):
                    ok = True
        if not ok:
            c.viol("rewrite:side-effects", f.where, "a call is rewritten without knowing that it and its operands have no side effect")


def flatten(c, f, s):
    """flattening keeps the order: what replaces a statement stands where it stood, in order of evaluation"""
    v = src("v")
    seq, pos, unstep = None, 0, None
    for e in s.trace:
        if e[0] == "erase" and e[1] == v:
            seq, pos = [], 0
        elif e[0] == "insert" and e[1] == v and seq is not None:
            seq.insert(pos, e[2][1])
            unstep = e if any("[]" in show(x) for x in e[2][1:2]) else None
        elif e[0].startswith("operator++") and seq is not None:
            pos = min(pos + 1, len(seq))
            unstep = None
    if unstep is not None:
        c.viol("flatten:nested-order", f.where, "the statements of a nested series are each inserted before the one inserted last: "
               "their order is reversed")
    if seq is None or not seq:
        return
    c.ok("flatten", " ; ".join(show(x) for x in seq)[:200])
    names = [show(x) for x in seq]
    if any("getFlow(" in x or ".flow" in x for x in names) or any("getValue(" in x or ".val" in x for x in names):
        fi = [i for i, x in enumerate(names) if "getFlow(" in x or ".flow" in x]
        vi = [i for i, x in enumerate(names) if "getValue(" in x or ".val" in x]
        if len(fi) != 1 or len(vi) != 1 or fi[0] > vi[0]:
            c.viol("flatten:flow-value", f.where, "a value with statements before it is flattened to [%s]: its statements must come first, then its value"
                   % ", ".join(names))

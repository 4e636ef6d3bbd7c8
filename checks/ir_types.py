"""The types of the IR: one object per name, names that tell types apart, atomicity for the collector, members by name,
and the IR types and functions made for what the type checker realized."""
from absint import *
from facts import walk, AnalysisBroken
from checklib import Check
from folding import dnf, num, sole
from irmodel import *

FILES = ["codon/cir/module.cpp", "codon/cir/types/types.cpp", "codon/cir/base.cpp", "codon/cir/func.cpp"]
INFER = ["codon/parser/visitors/typecheck/infer.cpp"]
T = "codon::ir::types::"
M = "codon::ir::Module::"
THIS = src("this")


class MClient(IRClient):
    quantifiers = True

    def on_ctor(self, ai, st, n, cls, vs, C):
        if "basic_format_string" in cls or "basic_fstring" in cls or cls.startswith("fmt::"):
            return [(st, vs[0] if vs else VOID)]
        return None

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm, q = f["n"], f["qn"]
        if q == M + "getType":
            return [(st, op("lookup", vs[0]))]
        if q.startswith(M) and nm != getattr(self, "top", nm) and nm.startswith(("get", "unsafeGet")) and nm.endswith("Type"):
            return [(st, op(nm, *vs))]
        if nm == "format":
            return [(st, op("format", *vs))]
        if nm in ("getName", "referenceString") and o is not None and not vs and "::Field::" not in q:
            new = [a for a in o if a[0] == "new"]
            if not new:
                return [(st, op("name", o))]
        if nm in ("begin", "end") and o is not None and q.startswith(T) and o == src("this", "contents"):
            return [(st, V(("it", src("this", "contents", "fields"), nm)))]
        if nm in ("isAtomic", "doIsAtomic") and o is not None and o != THIS:
            return [(st, op("isAtomic", o))]
        if q.startswith("codon::ast::"):
            return [(st, op(nm, *([o] if o is not None else []), *vs))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


class TwiceClient(MClient):
    twice = True


def runf(P, f, this=None, args=None, client=MClient):
    cl = client({"this": this} if this else {})
    cl.P = P
    cl.top = f["n"]
    for s, r in AI(P, cl, max_paths=20000).run(f, State(), THIS, args if args is not None else [src("p%d" % i) for i in range(len(f["params"]))]):
        if r is THROWN:
            continue
        yield s, r


def one(P, q):
    fs = [f for f in P.by_qn.get(q, []) if f.get("body") is not None]
    if not fs:
        raise AnalysisBroken("%s not found" % q)
    return fs


def new(r):
    a = next(iter(r)) if r and len(r) == 1 else None
    return a if a and a[0] == "new" else None


def lst(s, v):
    """the elements of a list value"""
    a = new(v)
    return s.heap.get(a, {}).get("[]", VOID) if a else VOID


def flat(s, v, seen=None):
    """the parts a name is built from: literals, and what they mention"""
    out = []
    for a in v:
        if a[0] == "op":
            for x in a[2]:
                if isinstance(x, frozenset):
                    out += flat(s, x)
            if not a[2] or a[1] not in ("format", "join", "+"):
                out.append(a)
        elif a[0] == "it":
            for x in a[1]:
                if x[0] == "new":
                    out += flat(s, s.heap.get(x, {}).get("[]", VOID))
                else:
                    out.append(a)
        elif a[0] == "new":
            out += flat(s, s.heap.get(a, {}).get("[]", VOID))
        else:
            out.append(a)
    return out


def literal(s, v):
    return "".join(a[1] for a in flat(s, v) if a[0] == "str")


def mentions(v, w):
    return any(a in w for a in subatoms(v)) if w else False


def subatoms(v):
    for a in v:
        yield a
        if a[0] == "op":
            for x in a[2]:
                if isinstance(x, frozenset):
                    yield from subatoms(x)
        elif a[0] == "it":
            yield from subatoms(a[1])


def canon(s, v):
    """a name, independent of the objects it was put together in"""
    v = frozenset(a for a in v if not (a[0] == "new" and a[2].startswith("std::allocator"))) or v
    if len(v) == 1:
        a = next(iter(v))
        if a[0] == "op":
            return (a[1],) + tuple(canon(s, x) for x in a[2])
        if a[0] == "it":
            return ("it", a[2]) + tuple(canon(s, s.heap.get(x, {}).get("[]", VOID)) if x[0] == "new" else x for x in a[1])
        if a[0] == "new":
            return ("list", canon(s, s.heap.get(a, {}).get("[]", VOID)))
    return tuple(sorted(v, key=repr))


def formats(v):
    for a in subatoms(v):
        if a[0] == "op" and a[1] == "format":
            yield a[2]


def getters(c, P):
    """what is looked up is what would be created; the arguments of a type are the ones asked for"""
    keys = {}
    for f in sorted({f["id"]: f for q, fs in P.by_qn.items() if q.startswith(M) for f in fs if f.get("body") is not None and
                     f["n"].startswith(("get", "unsafeGet")) and f["n"].endswith("Type")}.values(), key=lambda f: f["n"]):
        nm, w = f["n"], f.where
        ps = [src("p%d" % i) for i in range(len(f["params"]))]
        made, looked = [], set()
        for s, r in runf(P, f):
            for cj in dnf(s.conds()):
                L = [(a[1], p) for a, p in cj if a[0] == "nz" and (sole(a[1]) or ("", ""))[:2] == ("op", "lookup")]
                top = [x for x, p in L if sole(x)[2] is not None]
                x = sole(r)
                if x and x[:2] == ("op", "lookup"):
                    looked.add(canon(s, x[2]))
                    c.ok("getter", "%s returns a type that exists" % nm)
                    if not any(y == r and p for y, p in L):
                        c.viol("getter:%s:missing" % nm, w, "%s returns what it looked up without knowing that it exists" % nm)
                elif new(r):
                    made.append((s, r, cj))
        for s, r, cj in made:
            h = s.heap[new(r)]
            cls = new(r)[2].split("::")[-1]
            name = h.get("name", VOID)
            c.ok("getter", "%s creates a %s" % (nm, cls))
            if canon(s, name) not in looked:
                c.viol("getter:%s:key" % nm, w, "%s looks for another name than that of the %s it creates: a second type object appears" % (nm, cls))
            if not any(a[0] == "nz" and not p and (sole(a[1]) or ("", ""))[:2] == ("op", "lookup") and canon(s, sole(a[1])[2]) == canon(s, name) for a, p in cj):
                c.viol("getter:%s:again" % nm, w, "%s creates a type although one of this name may exist" % nm)
            for fm in formats(name):
                lit = literal(s, fm[0]) if fm else ""
                if lit.count("{}") != len(fm) - 1:
                    c.viol("name:%s:holes" % nm, w, "the name of the %s leaves out one of its parts (%r)" % (cls, lit))
            want = nm.replace("unsafeGet", "").replace("get", "", 1) if nm.startswith("get") else nm[len("unsafeGet"):]
            kinds = {"StringType": "RecordType", "ArrayType": "RecordType", "MemberedType": ("RecordType", "RefType")}.get(want, want)
            if cls not in (kinds if isinstance(kinds, tuple) else (kinds,)):
                c.viol("getter:%s:class" % nm, w, "%s creates a %s" % (nm, cls))
            if not ps:
                keys.setdefault(canon(s, name), set()).add(nm)
            # each argument takes part in the name
            if nm not in ("unsafeGetFuncType", "unsafeGetMemberedType"):
                for i, p in enumerate(ps):
                    got = any(a[0] == "src" and a[1] == "p%d" % i for a in flat(s, name)) or \
                        any(t[0] == "nz" and t[1] == p for t, _ in cj)
                    if not got:
                        c.viol("name:%s:%s" % (nm, f["params"][i]["n"]), w, "types with different %s share the name of the %s" % (f["params"][i]["n"], cls))
            contents(c, nm, w, s, cls, h, ps, cj)
        if made and not looked:
            c.viol("getter:%s:lookup" % nm, w, "%s never returns the type it created before" % nm)
        # sign and the like: different arguments, different names
        byc = {}
        for s, r, cj in made:
            for t, p in cj:
                if t[0] == "nz" and t[1] in ps and "bool" in f["T"][f["params"][ps.index(t[1])]["t"]]:
                    byc.setdefault((t[1], p), set()).add(canon(s, s.heap[new(r)].get("name", VOID)))
        if nm != "unsafeGetMemberedType":
            for (x, p), ns in byc.items():
                if p and ns & byc.get((x, False), set()):
                    c.viol("name:%s:flag" % nm, w, "%s gives types that differ in %s the same name" % (nm, show(x)))
    for k, fs in keys.items():
        if len(fs) > 1:
            c.viol("name:shared:%s" % sorted(fs)[0], "codon/cir/module.cpp:1", "%s use the same name" % ", ".join(sorted(fs)))


def contents(c, nm, w, s, cls, h, ps, cj):
    """the created type is made of the arguments"""
    def need(good, what):
        if not good:
            c.viol("getter:%s:%s" % (nm, what), w, "%s creates a %s with another %s than asked for" % (nm, cls, what))
    if nm in ("unsafeGetPointerType", "unsafeGetGeneratorType", "unsafeGetOptionalType"):
        need(h.get("base") == ps[0], "base")
    elif nm == "unsafeGetVectorType":
        need(h.get("count") == ps[0] and h.get("base") == ps[1], "count or base")
    elif nm == "unsafeGetIntNType":
        sg = h.get("sign")
        known = [p for t, p in cj if t == ("nz", ps[1])]
        need(h.get("len") == ps[0] and (sg == ps[1] or known and sg == (TRUE if known[0] else FALSE)), "length or sign")
    elif nm == "unsafeGetUnionType":
        need(lst(s, h.get("types", VOID)) == V(("src", "p0", ("[]",))) or h.get("types") == ps[0], "members")
    elif nm == "unsafeGetFuncType":
        need(h.get("rType") == ps[1], "return type")
        need(h.get("argTypes") == ps[2] or lst(s, h.get("argTypes", VOID)) == V(("src", "p2", ("[]",))), "argument types")
        known = [p for t, p in cj if t == ("nz", ps[3])]
        need(h.get("variadic") == ps[3] or known and h.get("variadic") == (TRUE if known[0] else FALSE), "variadic flag")
        need(h.get("name") == ps[0], "name")
    elif nm == "unsafeGetMemberedType":
        ref = [p for t, p in cj if t == ("nz", ps[1])]
        need(ref and (cls == "RefType") == ref[0], "kind")
        if cls == "RefType":
            k = h.get("contents", VOID)
            a = new(k)
            x = sole(k)
            n2 = s.heap[a].get("name") if a else x[2] if x and x[:2] == ("op", "lookup") else VOID
            if k != NULL:
                need(n2 and n2 != ps[0] and any(y == ("src", "p0", ()) for y in subatoms(n2)), "contents")


def names(c, P):
    """names of derived types: the families cannot be confused"""
    fam = {}
    for k in sorted(P.subclasses(T + "Type")):
        for f in P.by_qn.get(k + "::getInstanceName", []):
            if f.get("body") is None:
                continue
            for s, r in runf(P, f, args=[src("p%d" % i) for i in range(len(f["params"]))]):
                lit = [literal(s, fm[0]) for fm in formats(r) if fm]
                c.ok("name", "%s: %s" % (k.split("::")[-1], lit))
                for i, p in enumerate(f["params"]):
                    if not any(a[0] == "src" and a[1] == "p%d" % i for a in flat(s, r)) and \
                            not any(t == ("nz", src("p%d" % i)) for cj in dnf(s.conds()) for t, _ in cj):
                        c.viol("name:%s:%s" % (k.split("::")[-1], p["n"]), f.where, "the name of a %s does not mention its %s" % (k.split("::")[-1], p["n"]))
                for l in lit:
                    fam.setdefault(l, set()).add(k.split("::")[-1])
    for l, ks in fam.items():
        if len(ks) > 1:
            c.viol("name:family:%s" % sorted(ks)[0], "codon/cir/types/types.cpp:1", "%s types have the same names" % " and ".join(sorted(ks)))
    for f in one(P, T + "Type::is"):
        for s, r in runf(P, f, args=[src("o")]):
            c.ok("name", "is")
            x = sole(r)
            good = x and x[:2] == ("op", "==") and set(x[2:]) in ({src("this", "name"), src("o", "name")}, {op("name", THIS), op("name", src("o"))}) or \
                x and x[0] == "op" and x[1] == "==" and {repr(y) for y in x[2:]} == {repr(op("name", THIS)), repr(op("name", src("o")))}
            if not good:
                eqs = [(t, p) for cj in dnf(s.conds()) for t, p in cj if t[0] == "eq" and "name" in show(t[1]) and "name" in show(t[2])]
                good = eqs and all((r == TRUE) == p for t, p in eqs)
            if not good:
                c.viol("is", f.where, "whether two types are the same is not decided by their names (%s)" % show(r))


def atomic(c, P):
    """true only for types without pointers the collector must see"""
    ids = {}
    for m in P.records[T + "Type"]["methods"]:
        for n in ("doIsAtomic", "doIsContentAtomic"):
            if n in m["id"]:
                ids[n] = m["id"]
    if len(ids) != 2:
        raise AnalysisBroken("Type::isAtomic is not overridable")
    POINTERS = (T + "RefType", T + "FuncType", T + "PointerType", T + "GeneratorType")
    for k in sorted(P.subclasses(T + "Type")):
        if not P.by_qn.get(k + "::" + k.split("::")[-1]) and k not in (T + "IntType",):
            pass
        kn = k.split("::")[-1]
        for n, i in ids.items():
            m = P.find_override(k, i)
            f = P.funcs.get(m["id"]) if m else None
            if f is None or f.get("body") is None:
                continue
            if n == "doIsContentAtomic" and k != T + "RefType":
                continue
            for s, r in runf(P, f, this=k, args=[]):
                c.ok("atomic", "%s::%s %s" % (kn, n, show(r)))
                for cj in dnf(s.conds()):
                    judge_atomic(c, P, f, k, n, s, r, cj, POINTERS)


def judge_atomic(c, P, f, k, n, s, r, cj, POINTERS):
    kn = k.split("::")[-1]
    w = f.where
    key = "atomic:%s" % kn + (":contents" if n == "doIsContentAtomic" else "")
    if r == FALSE:
        return
    if any(not p and a[0] == "nz" and (a[1] == src("this", "contents") or tail(a[1]) == "isa" and sole(a[1])[2] == src("this", "contents")) for a, p in cj):
        return     # a reference type has contents
    if P.derives(k, T + "PrimitiveType"):
        return
    if n == "doIsAtomic" and any(k == p or P.derives(k, p) for p in POINTERS):
        return c.viol(key, w, "a %s is a pointer, but may count as free of pointers" % kn)
    if P.derives(k, T + "DerivedType") or k == T + "DerivedType":
        if r != op("isAtomic", src("this", "base")) and not any(a == ("nz", op("isAtomic", src("this", "base"))) and p for a, p in cj):
            c.viol(key, w, "a %s counts as free of pointers (%s) although what it holds may not be" % (kn, show(r)))
        return
    # members: every one of them
    quants = [e for e in s.trace if e[0] == "quant"]
    what = {"UnionType": "types"}.get(kn, "fields")
    root = src("this", "contents", "fields") if n == "doIsContentAtomic" else src("this", what)
    el = [a for a in subatoms(r) if a[0] == "op" and a[1] == "isAtomic"] + [a for t, p in cj if t[0] == "nz" for a in subatoms(t[1]) if a[0] == "op" and a[1] == "isAtomic"]
    member = lambda a: any(x[0] == "src" and x[2][:len(next(iter(root))[2])] == next(iter(root))[2] and "[]" in x[2] for x in subatoms(a[2][0]))
    if any(e[0] in ("return-in-loop", "break") for e in s.trace):
        return c.viol(key, w, "a %s counts as free of pointers before every member was examined" % kn)
    if len(quants) > 1:
        raise AnalysisBroken("%s: more than one quantifier" % f["qn"])
    vt = [(t, p) for t, p in cj if ".__vtable__" in repr(t)]
    if n == "doIsContentAtomic" and vt and all(is_vtable(t, p) for t, p in vt):
        return     # the pointer to the table of methods is not the collector's
    v = r
    if quants and quants[0][1] == "any_of":
        x = sole(v)
        if not (x and x[:2] == ("op", "!") or v in (TRUE, FALSE)):
            return c.viol(key, w, "a %s counts as free of pointers if one member is" % kn)
        if v in (TRUE, FALSE):
            # the value for the element was decided by the path
            inner = quants[0][3]
            if v == TRUE and inner != FALSE:
                return c.viol(key, w, "a %s counts as free of pointers if one member is" % kn)
    if quants and quants[0][1] in ("all_of", "none_of"):
        inner = quants[0][3]
        flip = quants[0][1] == "none_of"
        same = v == inner if not flip else sole(v) and sole(v)[:2] == ("op", "!") and sole(v)[2] == inner or sole(inner) and sole(inner)[:2] == ("op", "!") and sole(inner)[2] == v
        if not same and not (v == TRUE and inner == (FALSE if flip else TRUE)):
            return c.viol(key, w, "a %s counts as free of pointers if one member is" % kn)
    if v == TRUE:
        good = any(t[0] == "nz" and p and any(a[0] == "op" and a[1] == "isAtomic" and member(a) for a in t[1]) for t, p in cj)
        if not good and not (not any(t[0] == "each" for t, p in s.conds()) and not quants):
            c.viol(key, w, "a %s counts as free of pointers although a member may not be" % kn)
        elif not good:
            c.viol(key, w, "a %s counts as free of pointers without examining its members" % kn)
        return
    pol, x = True, sole(v)
    while x and x[:2] == ("op", "!"):
        pol = not pol
        v = x[2]
        x = sole(v)
    if not (x and x[:2] == ("op", "isAtomic") and pol and member(("op", "isAtomic", (x[2],)))):
        c.viol(key, w, "whether a %s is free of pointers is not decided by each of its members (%s)" % (kn, show(r)))


def is_vtable(t, p):
    """the condition says: the name starts with .__vtable__"""
    if t[0] == "eq":
        x = [sole(y) for y in t[1:] if sole(y) and sole(y)[0] == "op"]
        o = [num(y) for y in t[1:] if num(y) is not None]
        return p and o == [0] and x and x[0][1].split("::")[-1] in ("rfind", "find", "compare", "str.rfind", "str.find", "str.compare")
    if t[0] == "nz":
        x = sole(t[1])
        nm = x[1].split("::")[-1].split(".")[-1] if x and x[0] == "op" else ""
        return nm in ("startswith", "starts_with") and p or nm in ("rfind", "find", "compare") and not p
    return False


def members(c, P):
    """members are found by their name, at their position"""
    for k in ("RecordType", "RefType"):
        for q, nm in (("getMemberType", "type"), ("getMemberIndex", "index")):
            for f in one(P, T + k + "::" + q):
                hit = 0
                for s, r in runf(P, f, this=T + k, args=[src("n")]):
                    c.ok("member", "%s::%s" % (k, q))
                    if k == "RefType":
                        if not (sole(r) and sole(r)[0] == "op" and sole(r)[1].split("::")[-1] == q and sole(r)[2] == src("this", "contents") and sole(r)[3] == src("n")) and \
                                "this.contents" not in show(r):
                            c.viol("member:%s:%s" % (k, q), f.where, "a reference type does not ask its contents for the member")
                        hit += 1
                        continue
                    its = [a for a in subatoms(r) if a[0] == "it" and len(a) > 3] + [a for t, p in s.conds() if t[0] in ("nz", "eq") for y in t[1:] if isinstance(y, frozenset) for a in subatoms(y) if a[0] == "it" and len(a) > 3]
                    fld = ("src", "this", ("fields", "[]", "name"))
                    pred = {a[3] for a in its}
                    want = {op("==", V(fld), src("n")), op("==", src("n"), V(fld))}
                    byc = any(t[0] == "eq" and p and {V(fld), src("n")} == {t[1], t[2]} for cj in dnf(s.conds()) for t, p in cj)
                    if pred:
                        for x in pred:
                            if x not in want and not byc:
                                c.viol("member:%s:%s" % (k, q), f.where, "the member is not found by its name (%s)" % show(x))
                    if r == NULL or num(r) == -1:
                        continue
                    hit += 1
                    if not pred and not byc:
                        c.viol("member:%s:%s" % (k, q), f.where, "the member is not found by its name")
                    if q == "getMemberType" and r != src("this", "fields", "[]", "type"):
                        c.viol("member:%s:%s:type" % (k, q), f.where, "returns %s as type of the member" % show(r))
                if not hit:
                    c.viol("member:%s:%s" % (k, q), f.where, "no member is ever found")
        for f in one(P, T + k + "::realize"):
            for s, r in runf(P, f, this=T + k):
                paired(c, s, f, k)
    for f in one(P, T + "RecordType::RecordType"):
        if len(f["params"]) == 3:
            for s, r in runf(P, f, this=T + "RecordType"):
                paired(c, s, f, "RecordType", 1)


def paired(c, s, f, k, at=0):
    p = src("p%d" % at), src("p%d" % (at + 1))
    tn = [f["T"][x["t"]] for x in f["params"]][at:]
    ty, nm = (p[0], p[1]) if "Type" in tn[0] else (p[1], p[0])
    n = 0
    for a, h in list(s.heap.items()):
        if a[0] == "new" and a[2].endswith("::Field"):
            n += 1
            key = [x[2] for x in h.get("name", VOID) | h.get("type", VOID) if x[0] == "src"]
            c.ok("member", "%s::%s" % (k, f["n"]))
            if h.get("type") != V(("src", next(iter(ty))[1], key[0] if key else ())) or h.get("name") != V(("src", next(iter(nm))[1], key[0] if key else ())):
                c.viol("member:%s:%s:pair" % (k, f["n"]), f.where, "a member gets the type of another (%s: %s)" % (show(h.get("name", VOID)), show(h.get("type", VOID))))
    if not n and k == "RecordType":
        c.viol("member:%s:%s:none" % (k, f["n"]), f.where, "no members are added")


# --------------------------------------------------------------------- types and functions for what was realized
t = src("t")


class RClient(IRClient):
    """realize gives back what it was given; the module's getters and the queries of the type checker stay uninterpreted"""
    exact_while = True

    def on_ctor(self, ai, st, n, cls, vs, C):
        return MClient.on_ctor(self, ai, st, n, cls, vs, C)

    def on_deref_store(self, ai, st, o, v):
        st.trace = st.trace + (("deref", o, v),)

    def on_store(self, ai, st, lv, v):
        if lv[0] == "fld" and lv[2] in ("ir",):
            st.trace = st.trace + (("store", lv[1], lv[2], v),)

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm, q = f["n"], f["qn"]
        if nm == "format":
            return [(st, op("format", *vs))]
        if nm == "realize" and q.startswith("codon::ast::") and vs:
            return [(st, vs[0])]
        if nm == "getClass" and o is not None and o == t:
            return [(st, t)]
        if nm == "getFunc" and o is not None and o == t:
            return [(st, t)]
        if nm in ("cast", "shared_from_this", "const_pointer_cast") and (vs or o is not None):
            return [(st, vs[0] if vs else o)]
        if nm == "getCache" and not vs:
            return [(st, src("cache"))]
        if nm == "is" and o == t and vs and sole(vs[0]) and sole(vs[0])[0] == "str":
            return self.split(ai, st, ("eq", src("t", "name"), vs[0]))
        if nm in ("seqassert", "get") and not vs and o is not None:
            return [(st, o)] if nm == "get" else None
        if q.startswith("codon::ir::") or q.startswith("codon::ast::"):
            if nm in ("forceFindIRType",):
                return None
            st = st.copy()
            st.trace = st.trace + (("call", nm, o, vs, tuple(f.get("targs") or ())),)
            if nm == "Nr" or nm == "N":
                return [(st, op("Nr", V(("str", (f.get("targs") or ["?"])[0].strip("<>").split("::")[-1])), *vs))]
            return [(st, op(nm, *([o] if o is not None else []), *vs))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)

    def split(self, ai, st, a):
        for k, p in st.conds():
            if k == a:
                return [(st, TRUE if p else FALSE)]
        out = []
        for p in (True, False):
            s = st.copy()
            s.pc = s.pc + ((a, p),)
            out.append((s, TRUE if p else FALSE))
        return out


SIMPLE = {"bool": "getBoolType", "byte": "getByteType", "int": "getIntType", "float": "getFloatType", "float32": "getFloat32Type",
          "float16": "getFloat16Type", "bfloat16": "getBFloat16Type", "float128": "getFloat128Type", "str": "getStringType"}
ONE = {"Ptr": "unsafeGetPointerType", "Generator": "unsafeGetGeneratorType", "AsyncGenerator": "unsafeGetGeneratorType",
       "Coroutine": "unsafeGetGeneratorType", "Optional": "unsafeGetOptionalType"}


def tail(v):
    x = sole(v)
    return x[1].split("::")[-1] if x and x[0] == "op" else None


def irof(v):
    """the argument x of 'the IR type of the realized x'"""
    x = sole(v)
    while x and x[0] == "op" and x[1].split("::")[-1] in (".ir", "ir", "get"):
        x = sole(x[2])
    if tail(v) == "makeIRType":
        return sole(v)[3]
    if x and x[0] == "op" and x[1] in ("lookup", "at", "operator[]") and len(x) > 3 and tail(x[3]) == "realizedName":
        who = sole(x[3])[2]
        if who in [V(a) for a in subatoms(x[2])] or all(a in set(subatoms(x[2])) for a in who):
            return who
    return None


def calls(s, nm):
    return [e for e in s.trace if e[0] == "call" and e[1] == nm]


def realized(c, P):
    f = one(P, "codon::ast::TypecheckVisitor::makeIRType")[0]
    w = f.where
    cl = RClient({})
    cl.P = P
    seen = set()
    for s, r in AI(P, cl, max_paths=20000).run(f, State(), THIS, [t]):
        if r is THROWN:
            continue
        for cj in dnf(s.conds()):
            if any((a, not p) in cj for a, p in cj):
                continue
            nms = [sole(a[2])[1] if sole(a[2]) and sole(a[2])[0] == "str" else show(a[2]) for a, p in cj if a[0] == "eq" and p and a[1] == src("t", "name") and "unrealized_type" not in repr(a[2])]
            if len(nms) > 1:
                continue
            name = nms[0] if nms else None
            if irof(r) == t and tail(r) != "makeIRType":
                c.ok("realized", "the type made before is returned")
                seen.add("cached")
                poly(c, w, s, r, cj)
                continue
            one_realized(c, P, f, w, s, r, cj, name, seen)
    for k in sorted(set(SIMPLE) | set(ONE) | {"cached", "Int", "UInt", "NoneType", "Union", "Function", "record", "reference"}):
        c.ok("realized", k)
        if k not in seen:
            c.viol("realized:%s:never" % k, w, "no IR type is made for %s" % k)


def poly(c, w, s, r, cj):
    """a class with run-time type information is polymorphic"""
    rt = [p for a, p in cj if a[0] == "nz" and (tail(a[1]) or show(a[1])).endswith("rtti")]
    set_ = any(e[2] == r and (not e[3] or e[3][0] == TRUE) for e in calls(s, "setPolymorphic"))
    ref = any(a[0] == "nz" and not p and tail(a[1]) == "isRecord" for a, p in cj)
    if (ref or irof(r) == t and tail(r) != "makeIRType") and not rt and not set_:
        c.viol("realized:polymorphic", w, "a class with run-time type information is not marked as polymorphic")
    elif rt and rt[0] != set_:
        c.viol("realized:polymorphic", w, "a class %s run-time type information is %smarked as polymorphic" % ("with" if rt[0] else "without", "" if set_ else "not "))


def constant_index(f):
    """a member is taken at a fixed position"""
    return any(x["k"] == "Call" and x.get("f") and x["f"]["n"] in ("operator[]", "at") and "ClassField" in (x["f"].get("cls") or "") and
               x["a"] and x["a"][0] and x["a"][0]["k"] == "Int" for x in walk(f["body"]))


def one_realized(c, P, f, w, s, r, cj, name, seen):
    x = sole(r)
    g = tail(r)
    args = list(x[3:]) if x else []
    key = "realized:%s" % (name or "class")

    def need(good, what, sub="type"):
        c.ok("realized", "%s %s" % (name or "class", sub))
        if not good:
            c.viol("%s:%s" % (key, sub), w, "%s: %s" % (name or "a class", what))

    def elements(v):
        return lst(s, v)
    if name in SIMPLE:
        seen.add(name)
        need(g == SIMPLE[name], "the IR type comes from %s" % g)
    elif name in ("Int", "UInt"):
        if g == "Nr":
            kind, a = sole(x[2]), list(x[3:])
            need(kind[1] == "IntNType", "the IR type is a %s" % kind[1])
        else:
            a = args
            need(g in ("getIntNType", "unsafeGetIntNType"), "the IR type comes from %s" % g)
        if len(a) >= 2:
            if a[0] and any(b[0] == "op" and b[1] == "getStatic" for b in subatoms(a[0])):
                seen.add(name)
            sg = a[1]
            y = sole(sg)
            if sg not in (TRUE, FALSE) and y and y[0] == "op" and y[1] in ("==", "!=") and src("t", "name") in y[2:]:
                lit = [sole(z)[1] for z in y[2:] if sole(z) and sole(z)[0] == "str"]
                sg = TRUE if lit and (lit[0] == name) == (y[1] == "==") else FALSE
            need(sg == (TRUE if name == "Int" else FALSE), "the sign of the IR type is wrong (%s)" % show(a[1]), "sign")
    elif name in ONE:
        need(g == ONE[name], "the IR type comes from %s" % g)
        el = args[-1] if args else VOID
        if el not in (NULL, VOID):
            seen.add(name)
            who = irof(el)
            need(who is not None and "t.generics" in show(who), "the base of the IR type is %s" % show(el), "base")
    elif name == "NoneType":
        seen.add(name)
        need(g == "unsafeGetMemberedType" and args[0] == op("realizedName", t) and args[1:] in ([], [FALSE]), "the IR type comes from %s" % g)
        re = [e for e in calls(s, "realize") if e[2] == r]
        need(all(not elements(v) for e in re for v in e[3]), "None has members", "members")
    elif name == "Union":
        need(g in ("unsafeGetUnionType", "getUnionType"), "the IR type comes from %s" % g)
        el = elements(args[-1]) if args else VOID
        if el:
            seen.add(name)
            who = irof(el)
            need(who is not None and "getRealizationTypes" in show_all(who), "the members of the IR type are %s" % show(el), "members")
    elif name == "Function":
        need(g in ("unsafeGetFuncType", "getFuncType"), "the IR type comes from %s" % g)
        if len(args) >= 3 and g == "unsafeGetFuncType":
            need(args[0] == op("realizedName", t), "the IR type has another name than the realized function type", "name")
            ret = irof(args[1])
            need(ret is not None and gen_index(ret) == 1, "the return type of the IR type is %s" % show(args[1]), "return")
            el = elements(args[2])
            if el:
                seen.add(name)
                who = irof(el)
                need(who is not None and gen_index(who) == 0, "the arguments of the IR type are %s" % show(el), "arguments")
            need(len(args) < 4 or args[3] == FALSE, "the IR type is variadic", "variadic")
    elif g == "unsafeGetVectorType":
        seen.add("vector")
        if args[0] and args[-1] not in (NULL, VOID):
            need("getStatic" in show_all(args[0]), "the number of elements is %s" % show(args[0]), "count")
            need(irof(args[-1]) is not None, "the element type is %s" % show(args[-1]), "base")
    elif name is None:
        rec = [p for a, p in cj if a[0] == "nz" and tail(a[1]) == "isRecord"]
        need(g == "unsafeGetMemberedType" and args[0] == op("realizedName", t), "the IR type comes from %s" % show(r))
        ref = args[1] if len(args) > 1 else FALSE
        y = sole(ref)
        if y and y[:2] == ("op", "!") and tail(y[2]) == "isRecord" and rec:
            ref = FALSE if rec[0] else TRUE
        if y and tail(ref) == "isRecord" and rec:
            ref = TRUE if rec[0] else FALSE
        if rec:
            need(ref == (FALSE if rec[0] else TRUE), "a %s becomes a %s type" % ("tuple class" if rec[0] else "class", "reference" if rec[0] else "tuple"), "reference")
            if rec[0]:
                re = [e for e in calls(s, "realize") if e[2] == r]
                need(re, "the members of the tuple class are lost", "members")
                for e in re:
                    ts = [v for v in e[3] if new(v) and "Type" in new(v)[2]]
                    ns = [v for v in e[3] if new(v) and "string" in new(v)[2]]
                    for v, n in zip(ts, ns):
                        et, en = elements(v), elements(n)
                        if not et and not en:
                            continue
                        seen.add("record")
                        who = irof(et)
                        need(who is not None and "getClassFieldTypes" in show_all(who), "the members have the types %s" % show(et), "types")
                        need("fields" in show_all(en) and "name" in show_all(en), "the members have the names %s" % show(en), "names")
                        need(idx(et) == idx(en) or idx(en) == ["[0]"] and idx(et) in ([], ["[]"]) and not constant_index(f), "names and types of members are not taken in step (%s, %s)" % (show(en), show(et)), "pairs")
            else:
                seen.add("reference")
                poly(c, w, s, r, cj)
    else:
        return     # a kind of type this check does not know
    # every made type knows its realization and is found by it
    ast = [e for e in calls(s, "setAstType") if e[2] == r]
    need(ast and all(e[3][0] == t for e in ast), "the IR type does not know the type it was made for", "ast")
    st = [e for e in s.trace if e[0] == "store" and e[2] == "ir"]
    need(any(e[3] == r and irof(op(".ir", e[1])) == t for e in st), "the IR type is not kept: the next use of the type makes another one", "kept")


def show_all(v):
    return repr(v)


def gen_index(v):
    for a in subatoms(v):
        if a[0] == "op" and a[1] == "extractClassGeneric":
            return num(a[2][2]) if len(a[2]) > 2 else 0
    return None


def idx(v):
    ops = sorted({a[1] for a in subatoms(v) if a[0] == "op" and a[1].startswith(".[")})
    if ops:
        return [o.strip(".") for o in ops]
    return sorted({a for a in subatoms(v) if a[0] == "idx"}, key=repr) or sorted({x for a in subatoms(v) if a[0] == "src" for x in a[2] if x in ("[0]", "[-]", "[+]", "[-1]")})


class QClient(MClient):
    """types asked of the type checker"""

    def on_ctor(self, ai, st, n, cls, vs, C):
        if cls == "codon::ast::types::LinkType" and len(vs) == 1:
            return [(st, op("link", vs[0]))]
        return MClient.on_ctor(self, ai, st, n, cls, vs, C)

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if f["n"].startswith("getOrRealize") and f["n"] != self.top:
            return [(st, op(f["n"], *vs))]
        if f["n"] == "setAstType":
            st = st.copy()
            st.trace = st.trace + (("call", f["n"], o, vs, ()),)
            return [(st, VOID)]
        return MClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


ASKED = {"getPointerType": "Ptr", "getArrayType": "Array", "getGeneratorType": "Generator", "getOptionalType": "Optional", "getVectorType": "Vec",
         "getIntNType": ("Int", "UInt"), "getNoneType": "NoneType"}


def requests(c, P):
    """what is asked of the type checker is the type that was asked for"""
    def inside(s, v, seen=()):
        for a in subatoms(v):
            yield a
            if a[0] == "new" and a not in seen:
                for x in s.heap.get(a, {}).values():
                    if isinstance(x, frozenset):
                        yield from inside(s, x, seen + (a,))
    for nm in list(ASKED) + ["getTupleType", "getUnionType", "getFuncType"]:
        for f in one(P, M + nm):
            got = 0
            for s, r in runf(P, f, client=QClient):
                c.ok("request", nm)
                x, w = sole(r), f.where
                if nm in ASKED:
                    want = ASKED[nm]
                    if isinstance(want, tuple):
                        pol = [p for cj in dnf(s.conds()) for t_, p in cj if t_ == ("nz", src("p1"))]
                        want = want[0 if pol and pol[0] else 1]
                    strs = {a[1] for a in subatoms(x[2]) if a[0] == "str"} if x and tail(r) == "getOrRealizeType" else set()
                    if want not in strs:
                        c.viol("request:%s" % nm, w, "%s asks for %s" % (nm, show(x[2]) if x and len(x) > 2 else show(r)))
                        continue
                    held = {a[1] for a in inside(s, x[3]) if a[0] == "src"} if len(x) > 3 else set()
                    need = {"p%d" % i for i, p in enumerate(f["params"]) if f["T"][p["t"]] != "bool"}
                    if held != need:
                        c.viol("request:%s:arguments" % nm, w, "%s asks for a type of other arguments (%s)" % (nm, ", ".join(sorted(held))))
                    a = new(x[3]) if len(x) > 3 else None
                    order = s.heap.get(a, {}).get("#list") if a else None
                    if nm == "getVectorType" and isinstance(order, list) and len(order) == 2:
                        if not any(b[0] == "src" and b[1] == "p1" for b in inside(s, order[0])):
                            c.viol("request:%s:order" % nm, w, "the element type and the number of elements are swapped")
                    continue
                made = [a for a in subatoms(r) if a[0] == "op" and a[1].split("::")[-1] == {"getTupleType": "makeTuple", "getUnionType": "makeUnion", "getFuncType": "makeFunction"}[nm]]
                if not made:
                    c.viol("request:%s" % nm, w, "%s asks for %s" % (nm, show(r)))
                    continue
                el = lst(s, made[0][2][1])
                types_ = src("p1" if nm == "getFuncType" else "p0")
                direct = {a for a in el if a[0] == "src"}
                if el and direct != {("src", next(iter(types_))[1], ("[]", "astType"))} and not (nm == "getFuncType" and not direct):
                    c.viol("request:%s:members" % nm, w, "%s asks for %s" % (nm, show(el)))
                if any(y["k"] == "Call" and y.get("f") and y["f"]["n"] in ("insert", "emplace") and y["a"] and y["a"][0] and any(
                        z["k"] == "Call" and z.get("f") and z["f"]["n"] in ("begin", "cbegin") for z in walk(y["a"][0])) for y in walk(f["body"])):
                    c.viol("request:%s:order" % nm, w, "the types asked for are not in order")
                got += bool(el)
                if nm != "getFuncType":
                    continue
                if not any(b == ("src", "p0", ("astType",)) for b in inside(s, el)):
                    c.viol("request:getFuncType:return", w, "the return type asked for is not the one given")
                va = [p for cj in dnf(s.conds()) for t_, p in cj if t_ == ("nz", src("p2"))]
                if va and va[0] != (tail(r) == "unsafeGetFuncType"):
                    c.viol("request:getFuncType:variadic", w, "a function type is %svariadic" % ("not " if va[0] else ""))
                if tail(r) == "unsafeGetFuncType":
                    plain = op("name", V(made[0]))
                    if x[2] == plain or not mentions_name(x[2], plain):
                        c.viol("request:getFuncType:name", w, "the variadic function type has the name of another")
                    if x[3] != op(".rType", V(made[0])):
                        c.viol("request:getFuncType:result", w, "the variadic function type returns %s" % show(x[3]))
                    if "argTypes" not in repr(lst(s, x[4])):
                        c.viol("request:getFuncType:arguments", w, "the variadic function type takes %s" % show(lst(s, x[4])))
                    if len(x) < 6 or x[5] != TRUE:
                        c.viol("request:getFuncType:variadic", w, "the variadic function type is not variadic")
                    if not any(e[1] == "setAstType" and e[2] == r for e in calls(s, "setAstType")) and op(".astType", r) and not any(
                            k[0] == "op" and "unsafeGetFuncType" in repr(k)[:60] and "astType" in h for k, h in s.heap.items()):
                        c.viol("request:getFuncType:ast", w, "the variadic function type does not know what it was made for")
    for nm, res in (("getOrRealizeType", "realizeType"), ("getOrRealizeFunc", "realizeFunction"), ("getOrRealizeMethod", "realizeFunction")):
        for f in one(P, M + nm):
            for s, r in runf(P, f, client=QClient):
                c.ok("request", nm)
                if r != NULL and tail(r) != res:
                    c.viol("request:%s" % nm, f.where, "%s returns %s" % (nm, show(r)))


def mentions_name(v, plain):
    return any(a in plain for a in subatoms(v))


def storage(c, P):
    """an object leaves its list, the table that finds it, and nothing else; each arena owns what was stored while it was the last one"""
    ROOMS = (("values", "valueMap"), ("vars", "varMap"), ("types", "typesMap"))
    room = lambda v: next((x[2] for x in v if x[0] == "src" and x[1] == "this"), ())

    def gone(s, lst_, mp):
        er = [e for e in s.trace if e[0] == "cont" and e[1] in ("erase", "remove")]
        a = [e for e in er if room(e[2]) == (lst_,) and e[3] and any(x[0] == "src" and x[2][:1] == (mp,) and x[2][-1] == "second" for x in e[3][0])]
        b = [e for e in er if room(e[2]) == (mp,)]
        other = [e for e in er if room(e[2])[:1] == (lst_,) and e not in a]
        return len(a), len(b), len(other)
    f = one(P, M + "popArena")[0]
    hits = dict.fromkeys(dict(ROOMS), 0)
    for s, r in runf(P, f):
        for cj in dnf(s.conds()):
            for l, m in ROOMS:
                fd = [p for a, p in cj if a[0] == "nz" and (sole(a[1]) or ("", ""))[:2] == ("op", "found") and any(room(x[1]) == (m,) for x in sole(a[1])[2] if x[0] == "it")]
                c.ok("storage", "popArena %s" % l)
                x, y, z = gone(s, l, m)
                if fd and fd[0] and not (x == 1 and y == 1 and z == 0):
                    c.viol("arena:%s" % l, f.where, "an object of the arena is not removed from both %s and %s" % (l, m))
                elif not (fd and fd[0]) and (x or y or z):
                    c.viol("arena:%s:other" % l, f.where, "an object is removed although it was not found")
                hits[l] += bool(fd and fd[0])
        if sum(e[0] == "cont" and e[1] == "pop_back" and room(e[2]) == ("arenas",) for e in s.trace) != 1:
            c.viol("arena:pop", f.where, "the arena stays on the stack")
    for l, n in hits.items():
        if not n:
            c.viol("arena:%s" % l, f.where, "the %s of the arena are never removed" % l)
    c.visits_all = c.visits_all + ("Module::popArena",)
    for f in one(P, M + "remove"):
        ty = f["T"][f["params"][0]["t"]]
        l, m = ROOMS[2 if "types::Type" in ty else 0 if "Value" in ty else 1]
        for s, r in runf(P, f):
            c.ok("storage", "remove %s" % l)
            x, y, z = gone(s, l, m)
            if not (x == 1 and y == 1 and z == 0):
                c.viol("remove:%s" % l, f.where, "the object is not removed from both %s and %s" % (l, m))
    for f in one(P, M + "store"):
        ty = f["T"][f["params"][0]["t"]]
        l, m = ROOMS[2 if "types::Type" in ty else 0 if "Value" in ty else 1]
        for s, r in runf(P, f):
            c.ok("storage", "store %s" % l)
            if ("src", "p0", ()) not in s.heap.get(("src", "this", (l,)), {}).get("[]", VOID):
                c.viol("store:%s" % l, f.where, "the module does not keep the object")
            if ("src", "this", (m,)) not in s.heap:
                c.viol("store:%s" % m, f.where, "the object cannot be found again")
            open_ = [p for cj in dnf(s.conds()) for a, p in cj if a[0] == "nz" and "arenas" in repr(a[1])]
            own = ("src", "this", ("arenas", "[-1]", l)) in s.heap
            if open_ and open_[0] != own:
                c.viol("store:arena:%s" % l, f.where, "the last arena does not own the object" if open_[0] else "there is no arena to own the object")
            if not open_:
                c.viol("store:arena:%s" % l, f.where, "the object is stored without regard to the arenas")


FUNCS = (("Internal", "InternalFunc"), ("LLVM", "LLVMFunc"), ("C", "ExternalFunc"))


def functions(c, P):
    f = one(P, "codon::ast::TypecheckVisitor::makeIRFunction")[0]
    w = f.where
    cl = RClient({})
    cl.P = P
    kinds, params, varargs = set(), 0, 0
    R = src("r")
    for s, r in AI(P, cl, max_paths=20000).run(f, State(), THIS, [R]):
        if r is THROWN:
            continue
        for cj in dnf(s.conds()):
            if any((a, not p) in cj for a, p in cj):
                continue
            x = sole(r)
            if not x or x[:2] != ("op", "Nr"):
                c.viol("function:result", w, "makeIRFunction returns %s" % show(r))
                continue
            kind = sole(x[2])[1]
            attr = {}
            for a, p in cj:
                if a[0] == "nz" and tail(a[1]) == "hasAttribute":
                    y = sole(a[1])
                    for b in y[3] if len(y) > 3 else ():
                        attr[str(b[1]).split("::")[-1]] = p
            want = next((k for at, k in FUNCS if attr.get(at)), "BodiedFunc")
            c.ok("function", "%s" % kind)
            kinds.add(kind)
            if kind != want:
                c.viol("function:kind:%s" % want, w, "a function with the attributes %s becomes a %s" % (sorted(k for k in attr if attr[k]), kind))
            if kind != "InternalFunc" and not any(tail(v) == "realizedName" for v in x[3:]):
                c.viol("function:%s:name" % kind, w, "the function is not named after its realization")
            ft = [e for e in calls(s, "unsafeGetFuncType") + calls(s, "getFuncType")]
            re = [e for e in calls(s, "realize") if e[2] == r]
            if len(ft) != 1 or len(re) != 1 or tail(re[0][3][0]) != ft[0][1]:
                c.viol("function:%s:type" % kind, w, "the function is not given its type")
                continue
            a = ft[0][3]
            if tail(a[0]) != "realizedName":
                c.viol("function:type:name", w, "the function type is not named after the realization")
            if tail(a[1]) != "makeIRType" or "getRetType" not in show_all(a[1]):
                c.viol("function:return", w, "the return type is %s" % show(a[1]))
            va = attr.get("CVarArg")
            v3 = a[3] if len(a) > 3 else FALSE
            good = v3 == (TRUE if va else FALSE) if v3 in (TRUE, FALSE) else tail(v3) == "hasAttribute" and "CVarArg" in show_all(v3)
            if not good:
                c.viol("function:variadic", w, "the function type of a function %s variable arguments is %svariadic" % ("with" if va else "without", "" if va is False else "not "))
            pops = [e for e in s.trace if e[0] == "cont" and e[1] == "pop_back"]
            both = {tuple(sorted(map(repr, e[2]))) for e in pops}
            if va:
                varargs += 1
                if len(both) != 2 or len(pops) != 2:
                    c.viol("function:vararg", w, "the parameter that stands for the variable arguments is not dropped from both types and names")
            elif va is False and pops:
                c.viol("function:dropped", w, "a parameter of an ordinary function is dropped")
            tl, nl = lst(s, a[2]), lst(s, re[0][3][1]) if len(re[0][3]) > 1 else VOID
            fn_arg = [p for t_, p in cj if t_[0] == "nz" and tail(t_[1]) == "getFunc"]
            val = [p for t_, p in cj if t_[0] == "nz" and tail(t_[1]) == "isValue"]
            if val and val[0] and fn_arg:
                if bool(tl) == fn_arg[0] or bool(nl) == fn_arg[0]:
                    c.viol("function:parameters", w, "a parameter %s becomes a parameter of the IR function (types %s, names %s)" % (
                        "that stands for a function" if fn_arg[0] else "does not", show(tl), show(nl)) if fn_arg[0] else "a parameter gets no type or no name (types %s, names %s)" % (show(tl), show(nl)))
            elif val and not val[0] and (tl or nl):
                c.viol("function:generics", w, "a generic parameter becomes a parameter of the IR function")
            if tl and not (tail(tl) == "makeIRType" and "extractFuncArgType" in show_all(tl)):
                c.viol("function:parameters:type", w, "a parameter gets the type %s" % show(tl))
            params += bool(tl)
            ast = calls(s, "setAstType")
            if not any(tail(e[2]) == ft[0][1] for e in ast):
                c.viol("function:ast", w, "the function type does not know what it was made for")
            if not any(e[2] == r and (not e[3] or e[3][0] == TRUE) for e in calls(s, "setGlobal")):
                c.viol("function:global", w, "the function is not global")
            pend = [h for k, h in s.heap.items() if k[0] == "src" and "pendingRealizations" in k[2]]
            ins = [e for e in s.trace if e[0] == "cont" and e[1] in ("insert", "emplace") and "pendingRealizations" in show_all(e[2])]
            if not pend and not ins:
                c.viol("function:pending", w, "the realized function is not marked to be translated")
    for at, k in FUNCS + ((None, "BodiedFunc"),):
        if k not in kinds:
            c.viol("function:kind:%s" % k, w, "no %s is ever made" % k)
    if not params:
        c.viol("function:parameters", w, "no parameter of a realized function becomes one of the IR function")
    if not varargs:
        c.viol("function:vararg", w, "functions with variable arguments are not recognised")
    step(c, P, f)
    # an argument variable for each type
    g = one(P, "codon::ir::Func::realize")[0]
    for s, v in runf(P, g, args=[src("ft"), src("names")], client=TwiceClient):
        c.ok("function", "Func::realize")
        arg = s.heap.get(("src", "this", ("args",)), {}).get("[]", VOID)
        used = []
        for a in [a for a in arg if a[0] == "new"]:
            vals = [x for x in s.heap[a].values() if isinstance(x, frozenset)]
            ts = [x for x in vals if "'ft'" in repr(x)]
            ns = [x for x in vals if "'names'" in repr(x)]
            if not ts:
                c.viol("function:argument:type", g.where, "an argument variable does not get its type")
            if not ns:
                c.viol("function:argument:name", g.where, "an argument variable does not get its name")
            used += ns
        if not used:
            c.viol("function:argument", g.where, "no argument variables are made")
        if any(e[0] == "again" for e in s.trace) and len(used) > 1 and len(set(used)) == 1:
            c.viol("function:argument:names", g.where, "two argument variables get the same name")
    c.visits_all = c.visits_all + ("Func::realize",)


def step(c, P, f):
    """the position among the argument types moves past every parameter, not only past those that are kept"""
    pos = set()
    for x in walk(f["body"]):
        if x["k"] == "Call" and x.get("f") and x["f"]["n"] == "extractFuncArgType" and len(x["a"]) > 1 and x["a"][1]:
            pos |= {y["id"] for y in walk(x["a"][1]) if y["k"] == "Ref" and y.get("id") is not None}
    hidden, free = [], 0

    def go(x, under):
        nonlocal free
        if isinstance(x, list):
            for y in x:
                go(y, under)
            return
        if not isinstance(x, dict):
            return
        if x.get("k") == "Un" and "++" in x.get("op", "") and any(y["k"] == "Ref" and y.get("id") in pos for y in walk(x)):
            if under:
                hidden.append(x)
            else:
                free += 1
        for k, y in x.items():
            u = under
            if x.get("k") == "If" and k in ("then", "t", "b", "s", "else", "e", "a") and any(
                    z["k"] == "Call" and z.get("f") and z["f"]["n"] == "getFunc" for z in walk(x["c"])):
                u = True
            if isinstance(y, (dict, list)):
                go(y, u)
    go(f["body"], False)
    if len(hidden) == 1 and not free:
        c.viol("function:parameters:step", f.where, "the position among the argument types is not moved past parameters that stand for functions")


def run():
    c = Check("C19", "every path of the type getters, type constructors' names, atomicity and member queries of IR types, and of the functions that make "
                     "IR types and functions for realized ones")
    P = c.load(FILES + INFER)
    getters(c, P)
    names(c, P)
    atomic(c, P)
    members(c, P)
    realized(c, P)
    functions(c, P)
    storage(c, P)
    requests(c, P)
    for cl, n in (("getter", 40), ("name", 6), ("atomic", 20), ("member", 6), ("realized", 60), ("function", 4), ("storage", 8), ("request", 20)):
        c.floor(cl, n)
    return c

"""IR nodes report and replace exactly the nodes they reference."""
from absint import *
from checklib import Check
from irmodel import *

FILES = ["codon/cir/" + x for x in (
    "base.cpp", "const.cpp", "dsl/nodes.cpp", "flow.cpp", "func.cpp", "instr.cpp",
    "transform/parallel/schedule.cpp", "types/types.cpp", "value.cpp", "var.cpp",
    "analyze/dataflow/cfg.cpp")]

QUERIES = (("getUsedValues", "replaceUsedValue", VALUE),
           ("getUsedTypes", "replaceUsedType", TYPE),
           ("getUsedVariables", "replaceUsedVariable", VAR))


def concrete(P, root):
    """classes that exist as objects: leaves of the hierarchy, and Var itself"""
    out = []
    for c in node_classes(P, root):
        subs = [s for s in P.subclasses(c) if "AcceptorExtend" not in s and "dsl::" not in s]
        if subs and c != VAR and c not in ("codon::ir::types::PrimitiveType",):
            continue
        if c == "codon::ir::types::PrimitiveType":
            continue
        out.append(c)
    return out


def short(c):
    import re
    c = c.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string")
    return re.sub(r"\b(?:\w+::)+", "", c)


def related(path, leaf):
    return len(path) <= len(leaf) and leaf[:len(path)] == path


def excused(conds, root, leaf):
    """a path may skip a leaf only because the leaf (or what contains it) is absent"""
    for a, pol in conds:
        if a[0] == "or":
            if all(excused(alt, root, leaf) for alt in a[1]):
                return True
            continue
        if a[0] == "nz" and not pol:
            for x in a[1]:
                if x[0] == "src" and x[1] == root and related(x[2], leaf):
                    return True
                if x[0] == "op" and x[1] in ("size",):
                    for y in x[2][0]:
                        if y[0] == "src" and y[1] == root and related(y[2], leaf):
                            return True
                if x[0] == "op" and x[1] in ("isa", "alt"):
                    for y in x[2][0]:
                        if y[0] == "src" and y[1] == root and related(y[2], leaf):
                            return True
        if a[0] == "eq" and len(a) == 3:
            # discriminator stored beside the leaf (tagged union)
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                for p in x:
                    if p[0] == "src" and p[1] == root and len(p[2]) >= 2 and len(leaf) >= 2:
                        par = p[2][:-1]
                        if related(par, leaf) and len(par) >= 2 and any(q[0] == "enum" for q in y):
                            return True
    return False


class Q(IRClient):
    def __init__(self, P, cls, chk, key):
        IRClient.__init__(self, {"this": cls})
        self.P = P
        self.chk = chk
        self.key = key
        self.rec = None
        self.derefs = []
        self.nulls = []

    rec_limit = 1

    def typed_leaf(self, v, cls):
        return all(a[0] == "src" and a[1] == "this" and a[2] for a in v)

    def on_nullcall(self, ai, st, n, f, C):
        self.nulls.append((n.get("l"), f["n"], C.fn, st.conds()))

    def on_recursion(self, ai, st, n, f, o, vs):
        if o is not None and o == src("this"):
            self.rec = (f["qn"], n.get("l"))

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if o is not None and len(o) == 1 and n.get("arrow"):
            (a,) = o
            if a[0] == "src" and a[1] == "this" and a[2]:
                self.derefs.append((a[2], st.conds(), f["n"], n.get("l"), C.fn))
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def is_null_expr(e):
    while e is not None and e["k"] in ("Cast", "Paren", "ExprWithCleanups"):
        e = e.get("x") or e.get("e")
    return e is not None and e["k"] in ("NullPtr", "ZeroInit")


def nullable(P, cls):
    """leaves that a constructor of cls leaves null, directly or through a null default argument"""
    out = set()
    for fn in P.funcs.values():
        if fn.get("kind") != "ctor" or fn.get("cls") != cls or fn.get("copyctor") or fn.get("movector"):
            continue
        ai = AI(P, IRClient({}))
        st = State()
        this = V(ai.new_obj(st, cls))
        for fld in P.all_fields(cls):
            if fld["rec"] == cls and fld.get("init") is not None and is_null_expr(fld["init"]):
                ai.setf(st, this, fld["n"], NULL)
        vs = [NULL if is_null_expr(p.get("dflt")) else src("p%d" % i) for i, p in enumerate(fn["params"])]
        for s in ai.run_ctor(fn, st, this, vs):
            for fld in P.all_fields(cls):
                if fld["rec"] == cls and ai.getf(s, this, fld["n"]) == NULL:
                    out.add(fld["n"])
    return out


def run():
    c = Check("C01",
              "for every concrete IR class the value set returned by getUsedValues/getUsedTypes/"
              "getUsedVariables contains every Value/Type/Var reference stored in the object on every "
              "path, except on paths that assumed that reference to be null; replaceUsed* stores the new "
              "node in exactly the matching references and returns their number")
    P = c.load(FILES)
    nclasses = 0
    for root in (VALUE, VAR, TYPE):
        for cls in concrete(P, root):
            nclasses += 1
            where = "%s:%s" % (P.records[cls]["file"].replace("/repo/", ""), P.records[cls]["l"])
            for q, rq, kind in QUERIES:
                if root == TYPE and kind != TYPE:
                    continue
                lv = [l for l, f in class_leaves(P, cls, kind)]
                nul = check_query(c, P, cls, q, kind, lv, where)
                if root == TYPE:
                    continue  # types are immutable: replacement is refused by an assertion
                check_replace(c, P, cls, rq, kind, lv, where, nul)
    c.extra["classes"] = nclasses
    c.floor("query-leaf", 55)
    c.floor("replace-leaf", 50)
    return c


def base_methods(P, name, npar, const=None):
    ms = [m for m in P.rec(NODE)["methods"] if m["n"] == name and m["np"] == npar and m.get("virt")
          and (const is None or bool(m.get("const")) == const)]
    if not ms:
        raise AnalysisBroken("anchor vanished: virtual Node::%s" % name)
    return ms


def check_query(c, P, cls, q, kind, lv, where):
    nul = set()
    for bm in base_methods(P, q, 0):
        m = P.find_override(cls, bm["id"])
        fn = P.funcs.get(m["id"]) if m else None
        key0 = "%s.%s%s" % (short(cls), q, " const" if bm.get("const") else "")
        if fn is None:
            raise AnalysisBroken("no body for %s" % key0)
        cl = Q(P, cls, c, key0)
        ai = AI(P, cl)
        res = [x for x in ai.run(fn, State(), src("this"), []) if x[1] is not THROWN]
        if cl.rec:
            c.viol(key0 + " recursion", where_fn(P, cls, fn, m),
                   "the query calls itself on the same object without bound (through %s, line %s)" % cl.rec)
            continue
        if not res:
            c.viol(key0 + " noreturn", where_fn(P, cls, fn, m), "no path returns")
            continue
        want = {("src", "this", l) for l in lv}
        maybe = {l for l in lv if len(l) == 1 and l[0] in nullable(P, cls)}
        for l in maybe:
            c.ok("no-null", "%s must not report this.%s when it is null" % (key0, l[0]))
        for s, v in res:
            got = ai.elem(s, v)
            for l in maybe:
                if ("src", "this", l) in got and not nonnull_or(s.conds(), l):
                    c.viol("%s null %s" % (key0, l[0]), where_fn(P, cls, fn, m),
                           "`%s` may be null (a constructor leaves it null) and is reported without a test" % l[0])
        for l in lv:
            c.ok("query-leaf", "%s must contain this.%s" % (key0, ".".join(l)))
        for s, v in res:
            for l in lv:
                if early_exits(s, l):
                    c.viol("%s stops early %s" % (key0, ".".join(l)), where_fn(P, cls, fn, m),
                           "the loop over `%s` is left before its end" % ".".join(l))
            got = ai.elem(s, v)
            for w in want:
                if w not in got and not excused(s.conds(), "this", w[2]):
                    c.viol("%s misses %s" % (key0, ".".join(w[2])), where_fn(P, cls, fn, m),
                           "a path returns without `%s` although it may be set (path condition: %s)" % (
                               ".".join(w[2]), show_pc(s.conds()) or "none"))
                if w not in got and assumed_null(s.conds(), w):
                    nul.add(w[2])
            for g in got - want:
                if g[0] == "src" and g[1] == "this" and g[2] and not any(related(g[2], l) or related(l, g[2]) for l in lv):
                    c.viol("%s reports %s" % (key0, ".".join(g[2])), where_fn(P, cls, fn, m),
                           "returns `%s`, which is not one of the object's %s references" % (".".join(g[2]), short(kind)))
                if g[0] == "src" and g[2] and "[+]" in g[2]:
                    c.viol("%s partial %s" % (key0, ".".join(g[2])), where_fn(P, cls, fn, m),
                           "only part of the container is reported")
    return nul


def where_fn(P, cls, fn, m):
    """the hook of the class behind the non-virtual entry point"""
    want = "do" + fn["n"][0].upper() + fn["n"][1:]
    for c in [cls] + list(P.all_bases(cls)):
        for mm in P.records.get(c, {"methods": []})["methods"]:
            if mm["n"] == want and mm["id"] in P.funcs:
                return P.funcs[mm["id"]].where
    return fn.where


def check_replace(c, P, cls, rq, kind, lv, where, nul):
    for bm in base_methods(P, rq, 2):
        m = P.find_override(cls, bm["id"])
        fn = P.funcs.get(m["id"]) if m else None
        key0 = "%s.%s" % (short(cls), rq)
        if fn is None:
            raise AnalysisBroken("no body for %s" % key0)
        cl = Q(P, cls, c, key0)
        ai = AI(P, cl)
        res = [x for x in ai.run(fn, State(), src("this"), [src("id"), src("new")]) if x[1] is not THROWN]
        if cl.rec:
            c.viol(key0 + " recursion", where_fn(P, cls, fn, m),
                   "the replacement calls itself on the same object without bound (through %s, line %s)" % cl.rec)
            continue
        for d, pc, meth, line, f in cl.derefs:
            if d in nul and d in lv and meth not in ("getActual", "hasReplacement", "get", "operator->"):
                if not nonnull(pc, d) :
                    c.viol("%s derefs null %s" % (key0, ".".join(d)), "%s:%s" % (f["file"].replace("/repo/", ""), line),
                           "`%s` may be null (the object's queries test it) but `%s` is called on it without a test" % (
                               ".".join(d), meth))
        for l in lv:
            c.ok("replace-leaf", "%s must rewrite this.%s when its id matches" % (key0, ".".join(l)))
            hit = False
            for s, v in res:
                cond = match_cond(s.conds(), l)
                cur = leaf_value(ai, s, l)
                if cond is True:
                    hit = True
                    if refused(s.conds()):
                        continue
                    if ("src", "new", ()) not in labels1(ai, s, cur):
                        c.viol("%s keeps %s" % (key0, ".".join(l)), where_fn(P, cls, fn, m),
                               "the id matches `%s` but the path leaves it unchanged (path: %s; value: %s)" % (
                                   ".".join(l), show_pc(s.conds()), show(cur)))
                    cnt = ai_count(v)
                    if cnt == 0:
                        c.viol("%s count %s" % (key0, ".".join(l)), where_fn(P, cls, fn, m),
                               "a replacement of `%s` is not counted" % ".".join(l))
                elif cur is not None and ("src", "new", ()) in labels1(ai, s, cur) and cond is not True:
                    c.viol("%s overwrites %s" % (key0, ".".join(l)), where_fn(P, cls, fn, m),
                           "`%s` is overwritten on a path where its id was not compared equal" % ".".join(l))
            if not hit:
                c.viol("%s ignores %s" % (key0, ".".join(l)), where_fn(P, cls, fn, m),
                       "no path replaces `%s`" % ".".join(l))
            for s, v in res:
                if early_exits(s, l) and not refused(s.conds()):
                    c.viol("%s stops at first %s" % (key0, ".".join(l)), where_fn(P, cls, fn, m),
                           "the loop over `%s` is left early: later references stay unreplaced (path: %s)" % (
                               ".".join(l), show_pc(s.conds())))
        # counts agree with the number of replaced references (one generic iteration per container)
        for s, v in res:
            cnt = ai_count(v)
            if cnt is None or refused(s.conds()):
                continue
            k = sum(1 for l in lv if match_cond(s.conds(), l) is True)
            if cnt != k:
                c.viol("%s count" % key0, where_fn(P, cls, fn, m),
                       "returns %d where %d references match (path: %s)" % (cnt, k, show_pc(s.conds())))


def early_exits(s, l):
    """the path leaves a loop over a container on the way to leaf l before its end"""
    for pc in [t[1] for t in s.trace if t[0] == "break"] + [s.pc]:
        eaches = [a for a, pol in pc if a[0] == "each" and pol]
        for a in (eaches if pc is s.pc else eaches[-1:]):
                for z in a[1]:
                    zs = z[1] if z[0] == "it" and isinstance(z[1], frozenset) else (z,)
                    for y in zs:
                        if y[0] == "src" and y[1] == "this" and y[2] and l[:len(y[2])] == y[2] and len(l) > len(y[2]):
                            return True
    return False


def refused(conds):
    """the path assumed that the new node is null or of the wrong class (asserted not to happen)"""
    for a, pol in conds:
        if a[0] == "nz" and not pol and any(x == ("src", "new", ()) for x in a[1]):
            return True
        if a[0] == "nz" and not pol and len(a[1]) == 1:
            (x,) = a[1]
            if x[0] == "op" and x[1] == "isa" and x[2][0] == src("new"):
                return True
    return False


def ai_count(v):
    if len(v) == 1 and next(iter(v))[0] == "int":
        return next(iter(v))[1]
    return None


def labels1(ai, s, v):
    return {a for a in v if a[0] == "src"} if v else set()


def leaf_value(ai, s, leaf):
    v = src("this")
    for p in leaf:
        v = ai.getf(s, v, p)
    return v


def nonnull(pc, d):
    for a, pol in pc:
        if a[0] == "nz" and pol and ("src", "this", d) in a[1]:
            return True
    return False


def assumed_null(pc, w):
    for a, pol in pc:
        if a[0] == "nz" and not pol and w in a[1]:
            return True
        if a[0] == "or" and pol and any(assumed_null(x, w) for x in a[1]):
            return True
    return False


def nonnull_or(pc, d):
    if nonnull(pc, d):
        return True
    for a, pol in pc:
        if a[0] == "or" and pol and all(nonnull_or(x, d) for x in a[1]):
            return True
    return False


def match_cond(conds, leaf):
    """True when the path assumed the leaf's id/name equal to the parameter"""
    r = None
    for a, pol in conds:
        if a[0] == "eq":
            x, y = a[1], a[2]
            for p, q in ((x, y), (y, x)):
                if q == src("id"):
                    for z in p:
                        if z[0] == "src" and z[1] == "this" and z[2][:len(leaf)] == leaf and len(z[2]) > len(leaf):
                            r = pol if r is None else (r or pol)
                        if z[0] == "op" and any(w == ("src", "this", leaf) for arg in z[2] for w in arg):
                            r = pol if r is None else (r or pol)
    return r

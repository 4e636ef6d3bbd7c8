"""Cloning an IR node copies every field, clones every child and remaps loops, arguments and locals."""
from absint import *
from checklib import Check
from irmodel import *
from folding import dnf

FILES = ["codon/cir/" + x for x in (
    "base.cpp", "const.cpp", "dsl/nodes.cpp", "flow.cpp", "func.cpp", "instr.cpp", "module.cpp",
    "transform/parallel/schedule.cpp", "types/types.cpp", "value.cpp", "var.cpp", "util/cloning.cpp",
    "util/visitor.cpp", "attribute.cpp")]
CV = "codon::ir::util::CloneVisitor"
ATTR = "codon::ir::Attribute"
LOOPS = ("codon::ir::WhileFlow", "codon::ir::ForFlow", "codon::ir::ImperativeForFlow")


class CC(IRClient):
    def __init__(self, P, roots):
        IRClient.__init__(self, roots)
        self.P = P

    def typed_leaf(self, v, cls):
        return all((a[0] == "src" and a[2]) or (a[0] == "op" and a[1] in ("clone", "forceClone")) for a in v)

    def should_inline(self, t, f, o, vs):
        return not (t.get("cls") == "codon::ir::Module" and t["n"] not in ("N", "Nr", "getModule"))

    def nonnull(self, ai, s, v):
        r = ai.assume(s, v, True)
        return (r or s).copy()

    def on_store(self, ai, st, lv, v):
        if lv[1] == src("cv", "ctx") and len(lv) > 3:
            st.trace = st.trace + (("ctx", lv[3], v),)

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if f.get("cls") == CV and f["n"] in ("clone", "forceClone") and vs and vs[0] != src("v") \
                and "Stage" not in f["id"]:
            out = []
            for pol in (True, False):  # null in, null out
                s = ai.assume(st, vs[0], pol)
                if s is not None:
                    s = s.copy()
                    if pol:
                        s = self.nonnull(ai, s, op(f["n"], vs[0]))
                        s.trace = s.trace + (("clone", vs[0]),)
                    out.append((s, op(f["n"], vs[0]) if pol else NULL))
            return out
        if f["n"] == "accept" and vs and any(a[0] == "new" for a in vs[0]):
            st = st.copy()
            for a in vs[0]:
                if a[0] == "new":
                    for fl in self.P.all_fields(a[2]) if a[2] in self.P.records else []:
                        if "Var *" in fl["type"] and fl["type"].startswith("std::vector"):
                            st.heap[a][fl["n"]] = src("locals")
            return [(st, VOID)]
        its = o if f["n"].startswith("operator") and o is not None else vs[0] if f["n"].startswith("operator") and vs else VOID
        if its and all(a[0] == "it" and a[1] == src("v", "attributes") for a in its):
            if f["n"] == "operator*":
                return [(st, src("v", "attributes", "[]", "first"))]
            if f["n"] in ("operator!=", "operator=="):
                return [(st, TRUE if f["n"] == "operator!=" else FALSE)]
            if f["n"] == "operator++":
                return [(st, its)]
        if f["n"] in ("attributes_begin",):
            return [(st, V(("it", src("v", "attributes"), "begin")))] if o == src("v") else None
        if f["n"] in ("attributes_end",):
            return [(st, V(("it", src("v", "attributes"), "end")))] if o == src("v") else None
        if f["n"] == "getAttribute" and o == src("v") and vs:
            return [(st, op("attr", *vs))]
        if f["n"] == "needsClone" and o is not None and any(a[0] == "op" and a[1] == "attr" for a in o):
            return [(st, op("needsClone", o))]
        if f["n"] in ("clone", "forceClone") and o is not None and any(a[0] == "op" and a[1] == "attr" for a in o):
            return [(st, op("attrclone", o))]
        if f["n"] == "setAttribute" and len(vs) == 2:
            st = st.copy()
            st.trace = st.trace + (("setattr", o, vs[0], vs[1]),)
            return [(st, VOID)]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def short(c):
    return c.split("<")[0].split("::")[-1] + ("<" + c.split("<", 1)[1] if "<" in c else "")


def absent(conds, leaf, root="v"):
    for a, pol in conds:
        if a[0] == "or" and pol and all(absent(x, leaf, root) for x in a[1]):
            return True
        if a[0] == "nz" and not pol:
            for x in a[1]:
                if x[0] == "src" and x[1] == root and leaf[:len(x[2])] == x[2] and x[2]:
                    return True
                if x[0] == "op" and x[1] == "size":
                    for y in x[2][0]:
                        if y[0] == "src" and y[1] == root and leaf[:len(y[2])] == y[2]:
                            return True
    return False


def decided(conds, leaf, cur):
    """the value is a constant that the path condition implies for this leaf"""
    for a, pol in conds:
        if a[0] == "nz" and a[1] == src("v", *leaf):
            if pol and cur == TRUE:
                return True
            if not pol and cur in (FALSE, NULL, INT(0)):
                return True
        if a[0] == "eq" and pol and ((a[1] == src("v", *leaf) and a[2] == cur) or (a[2] == src("v", *leaf) and a[1] == cur)):
            return True
    return False


def value_at(ai, s, o, leaf):
    v = o
    for p in leaf:
        v = ai.getf(s, v, p)
    return v


def is_ref(P, t):
    t = strip_t(t)
    return t.endswith("*") and (P.derives(strip_t(t[:-1]), VALUE) or P.derives(strip_t(t[:-1]), VAR))


def visits(P):
    out = {}
    for f in P.fn(CV + "::visit"):
        if f.get("body") is not None and len(f["params"]) == 1:
            out[strip_t(f["T"][f["params"][0]["t"]]).rstrip("* ")] = f
    return out


def run():
    c = Check("C02", "every field of every concrete node class flows into the same field of the clone built by the "
                     "clone visitor on every path (children and variables through a recursive clone); loops, "
                     "functions and arguments are remapped before the parts that may refer to them are cloned; "
                     "attributes are copied field by field")
    P = c.load(FILES)
    vs = visits(P)
    if len(vs) < 25:
        raise AnalysisBroken("clone visitor: only %d visit methods" % len(vs))
    for cls, fn in sorted(vs.items()):
        if cls not in P.records:
            raise AnalysisBroken("no record for %s" % cls)
        if "dsl::Custom" in cls:
            continue
        check_node(c, P, cls, fn)
    check_entry(c, P)
    check_attrs(c, P)
    c.floor("field", 70)
    c.floor("attribute-field", 14)
    c.floor("remap", 5)
    return c


def check_node(c, P, cls, fn):
    key = short(cls)
    cl = CC(P, {"v": cls, "cv": CV})
    ai = AI(P, cl)
    res = ai.run(fn, State(), src("cv"), [src("v")])
    res = [(s, ai.getf(s, src("cv"), "result")) for s, r in res if r is not THROWN]
    if not res:
        raise AnalysisBroken("clone visitor: no path through visit(%s)" % key)
    terms = [(l, t) for l, t in class_terminals(P, cls) if l != ("id",)]
    isfunc = P.derives(cls, "codon::ir::Func")
    if isfunc:
        # functions are always global, never external or thread-local variables
        terms = [x for x in terms if x[0] not in (("global",), ("external",), ("tls",))]
    for l, t in terms + [(("name",), "std::string")]:
        if "llvmLiterals" in l and "value" in l:
            l = l[:2]
            continue
        c.ok("field", "%s.%s reaches the clone" % (key, ".".join(l)))
        cloned = [s for s, o in res if any(a[0] == "op" and a[1] in ("clone", "forceClone")
                                           for a in value_at(ai, s, o, l))]
        for s, o in res:
            if not any(a[0] == "new" for a in o):
                c.viol("%s no clone" % key, fn.where, "visit does not produce a new node (%s)" % show(o))
                continue
            cur = value_at(ai, s, o, l)
            if isfunc and l == ("args", "[]"):
                if not any(a[0] == "new" for a in cur):
                    c.viol("%s args" % key, fn.where, "the clone has no argument variables of its own")
                continue
            labs = ai.labels(s, cur)
            if ("src", "v", l) in labs:
                bad = False
                if is_ref(P, t):
                    for a in cur:
                        if a == ("src", "v", l):
                            # a component record is rewritten by id: some path must do so
                            bad = not (len(l) > 1 and cloned) and not any(x[0] == "nz" and not p and x[1] == src("cv", "cloneLoop") for x, p in s.conds())
                        if a[0] == "op" and a[1] in ("clone", "forceClone") and ("src", "v", l) not in a[2][0]:
                            bad = True
                if bad:
                    c.viol("%s shares %s" % (key, ".".join(l)), fn.where,
                           "`%s` of the clone is %s" % (".".join(l), show(cur)))
                continue
            if absent(s.conds(), l) or decided(s.conds(), l, cur):
                continue
            c.viol("%s loses %s" % (key, ".".join(l)), fn.where,
                   "`%s` of the clone is %s, which does not depend on the original's `%s` (path: %s)" % (
                       ".".join(l), show(cur) or "empty", ".".join(l), show_pc(s.conds()) or "any"))
    if cls in LOOPS:
        c.ok("remap", "%s is mapped to its clone before its parts are cloned" % key)
        for s, o in res:
            seen = False
            for e in s.trace:
                if e[0] == "ctx" and ai.labels(s, e[1]) & {("src", "v", ("id",)), ("src", "v", ())} and e[2] == o:
                    seen = True
                if e[0] == "clone" and e[1] == src("v", "body") and not seen:
                    c.viol("%s body before remap" % key, fn.where,
                           "the loop body is cloned before the loop is mapped to its clone, so break/continue "
                           "inside refer to another loop")
    if isfunc:
        c.ok("remap", "%s: arguments are mapped to the clone's arguments" % key)
        for s, o in res:
            if absent(s.conds(), ("args", "[]")):
                continue
            args = selfm = False
            sym = absent(s.conds(), ("symbols", "[]"))
            for e in s.trace:
                if e[0] == "ctx":
                    k = ai.labels(s, e[1])
                    if any(x[2][:2] == ("args", "[]") for x in k if x[1] == "v"):
                        args = args or any(a[0] == "new" for a in e[2])
                    elif e[2] == o:
                        selfm = True
                if e[0] == "clone" and any(x[0] == "src" and x[2][:1] == ("symbols",) for x in e[1]):
                    sym = True
                if e[0] == "clone" and e[1] == src("v", "body"):
                    for ok, what in ((args, "arguments"), (selfm, "function itself"), (sym, "local symbols")):
                        if not ok:
                            c.viol("%s body before %s" % (key, what), fn.where,
                                   "the body is cloned before the %s are mapped to their clones" % what)
            if not args:
                c.viol("%s args unmapped" % key, fn.where, "the arguments are not mapped to the clone's arguments")


def check_entry(c, P):
    """clone()/forceClone(): memoised, attributes copied, locals recreated in the target function"""
    fns = [f for f in P.fn(CV + "::clone") if "Value" in f["T"][f["params"][0]["t"]] and len(f["params"]) == 3]
    if not fns:
        raise AnalysisBroken("CloneVisitor::clone(Value) not found")
    fc = [f for f in P.fn(CV + "::forceClone") if f.get("body") is not None]
    if not fc:
        raise AnalysisBroken("CloneVisitor::forceClone not found")
    A = "codon::ir::AssignInstr"
    V0 = "codon::ir::VarValue"
    jobs = [(fns[0], A, NULL, "clone")]
    for f in fc:
        t = strip_t(f["T"][f["params"][0]["t"]]).rstrip("* ")
        jobs.append((f, A if t == VALUE else VAR if t == VAR else t, None, "forceClone<%s>" % short(t)))
    for fn, cls, to, key in jobs:
        if cls in ("codon::ir::Func", "codon::ir::Flow"):
            cls = {"codon::ir::Func": "codon::ir::ExternalFunc", "codon::ir::Flow": "codon::ir::SeriesFlow"}.get(cls, cls)
        cl = CC(P, {"v": cls, "cv": CV})
        ai = AI(P, cl)
        args = [src("v")] + ([to, V(("new", 0, "std::unordered_map<int>"))] if to is not None else [])
        res = [x for x in ai.run(fn, State(), src("cv"), args) if x[1] is not THROWN]
        c.ok("memo", "%s: a fresh clone is recorded, an earlier one is returned" % key)
        fresh = [x for x in res if any(a[0] == "new" for a in x[1])]
        old = [x for x in res if any(a[0] == "src" and a[2][:1] == ("ctx",) for a in x[1])]
        if not fresh or not old:
            c.viol("%s memo" % key, fn.where, "no path returns %s" % ("a new clone" if not fresh else "the earlier clone"))
        got = False
        for s, v in fresh:
            if not any(e[0] == "ctx" and e[2] & v for e in s.trace):
                c.viol("%s unrecorded" % key, fn.where, "a fresh clone is returned without being recorded")
            need = [a for a, p in s.conds() if p and a[0] == "nz" and len(a[1]) == 1 and next(iter(a[1]))[1] == "needsClone"]
            sets = [e for e in s.trace if e[0] == "setattr" and any(a[0] == "op" and a[1] == "attrclone" for a in e[2])]
            if sets:
                got = True
                for e in sets:
                    if not (e[1] & v):
                        c.viol("%s attr target" % key, fn.where, "attributes are not set on the clone")
                    if ("src", "v", ("attributes", "[]", "first")) not in ai.labels(s, e[3]) and \
                            not ai.labels(s, e[3]) & ai.labels(s, e[2]):
                        c.viol("%s attr key" % key, fn.where, "an attribute is copied under another key")
                if not need and any(a[0] == "nz" and not p and len(a[1]) == 1 and next(iter(a[1]))[1] == "needsClone"
                                    for a, p in s.conds()):
                    c.viol("%s attr extra" % key, fn.where, "an attribute that must not be cloned is copied")
            elif need:
                c.viol("%s attr lost" % key, fn.where, "an attribute that needs cloning is not copied to the clone")
        c.ok("attributes", "%s copies attributes that need cloning" % key)
        if not got:
            c.viol("%s attributes" % key, fn.where, "no path copies attributes to the clone")
    # locals of the original are recreated (or remapped) in the function cloned to
    fn = fns[0]
    cl = CC(P, {"v": V0, "cv": CV, "ct": "codon::ir::BodiedFunc", "locals": "?"})
    ai = AI(P, cl)
    res = [x for x in ai.run(fn, State(), src("cv"), [src("v"), src("ct"), src("remaps")]) if x[1] is not THROWN]
    kinds = set()
    for s, v in res:
        for e in s.trace:
            if e[0] == "ctx" and any(x[1] == "locals" for x in ai.labels(s, e[1]) if x[0] == "src"):
                if any(a[0] == "new" for a in e[2]):
                    kinds.add("new")
                    for l in (("type",), ("global",), ("external",), ("tls",), ("name",)):
                        if not any(x[0] == "src" and x[1] == "locals" and x[2][-1:] == l
                                   for x in ai.labels(s, ai.getf(s, e[2], l[0]))):
                            c.viol("clone local %s" % l[0], fn.where, "a recreated local loses its %s" % l[0])
                    if not any(e[2] & ai.elem(s, ai.getf(s, src("ct"), fl["n"]))
                               for fl in P.all_fields("codon::ir::BodiedFunc") if "Var *" in fl["type"]):
                        c.viol("clone local owner", fn.where,
                               "a local recreated for the target function is not added to it")
                if any(x[0] == "src" and x[1] == "remaps" for x in ai.labels(s, e[2])):
                    kinds.add("remap")
    # which variables count as locals of the original
    for g in [g for g in P.funcs.values() if g.get("body") and g["n"] == "preHook" and g.where.split(":")[0] == fn.where.split(":")[0]]:
        c.visits_all = c.visits_all + (g["qn"],)
        for s, r in AI(P, CC(P, {})).run(g, State(), src("g"), [src("v")]):
            if r is THROWN:
                continue
            got = [a for h in s.heap.values() for k, x in h.items() if k == "[]" for a in x if "getUsedVariables" in show(V(a))]
            c.ok("locals", "every local in the original is found")
            for cj in dnf(s.conds()):
                seen = any(a[0] == "nz" and p and "getUsedVariables" in show(a[1]) and "lobal" not in show(a[1]) for a, p in cj) or \
                    any(a[0] == "each" and p for a, p in s.conds())
                glob = [p for a, p in cj if a[0] == "nz" and "lobal" in show(a[1])]
                if seen and not got and not any(glob):
                    c.viol("clone locals found", g.where, "a local variable of the original is not found: the clone would share it with the original")
    c.ok("locals", "locals are recreated in, or remapped for, the target function", 2)
    for k in ("new", "remap"):
        if k not in kinds:
            c.viol("clone locals %s" % k, fn.where, "locals of the original are not %s" % (
                "recreated in the target function" if k == "new" else "mapped to the requested variables"))


def check_attrs(c, P):
    for cls in P.subclasses(ATTR):
        r = P.records[cls]
        fields = []
        for f in P.all_fields(cls):
            if f["n"].startswith("_vptr"):
                continue
            fields += all_leaves(P, f["type"], (f["n"],))
        for bm in [m for m in P.rec(ATTR)["methods"] if m["n"] in ("clone", "forceClone") and m.get("virt")]:
            m = P.find_override(cls, bm["id"])
            fn = P.funcs.get(m["id"])
            if fn is None:
                raise AnalysisBroken("no body for %s::%s" % (cls, bm["n"]))
            cl = CC(P, {"this": cls, "cv": CV})
            ai = AI(P, cl)
            if bm["np"] == 0 and fn["cls"] != cls and fn["cls"] == ATTR:
                if fields:
                    c.viol("%s clone" % short(cls), "%s:%s" % (r["file"].replace("/repo/", ""), r["l"]),
                           "the class has data but inherits the empty clone of the base class")
                continue
            rr = ai.run(fn, State(), src("this"), [src("cv")] if bm["np"] else [])
            for s, v in rr:
                if v is THROWN or v == NULL or not v:
                    continue
                for l, t in fields:
                    c.ok("attribute-field", "%s::%s copies %s" % (short(cls), bm["n"], ".".join(l)))
                    cur = value_at(ai, s, v, l)
                    if ("src", "this", l) in ai.labels(s, cur):
                        if bm["np"] and is_ref(P, t) and any(a == ("src", "this", l) for a in cur):
                            c.viol("%s %s shares %s" % (short(cls), bm["n"], ".".join(l)), fn.where,
                                   "`%s` still refers to the original's node" % ".".join(l))
                        continue
                    if absent(s.conds(), l, "this"):
                        continue
                    c.viol("%s %s loses %s" % (short(cls), bm["n"], ".".join(l)), fn.where,
                           "`%s` is not carried over (it is %s)" % (".".join(l), show(cur) or "empty"))

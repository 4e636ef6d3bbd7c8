"""Replacement transparency, class identity and dispatch of IR nodes."""
from absint import *
from checklib import Check
from irmodel import *
from ir_clone import short
from facts import AnalysisBroken

FILES = ["codon/cir/" + x for x in (
    "base.cpp", "const.cpp", "dsl/nodes.cpp", "flow.cpp", "func.cpp", "instr.cpp", "module.cpp",
    "types/types.cpp", "value.cpp", "var.cpp", "util/visitor.cpp", "util/matching.cpp",
    "analyze/dataflow/cfg.cpp")]


class LogAI(AI):
    """records which fields of which symbolic objects are touched"""

    def __init__(self, *a, **k):
        AI.__init__(self, *a, **k)
        self.log = []
        self.on = True

    def getf1(self, st, a, name):
        if self.on and a[0] == "src" and not a[2]:
            self.log.append(("read", a[1], name))
        return AI.getf1(self, st, a, name)

    def setf(self, st, val, name, v, weak=False):
        if self.on:
            for a in val:
                if a[0] == "src" and not a[2]:
                    self.log.append(("write", a[1], name))
        return AI.setf(self, st, val, name, v, weak)


class RC(Client):
    rec_limit = 4
    """calls on the symbolic objects: methods of the node roots are followed, hooks of subclasses are logged"""

    def __init__(self, roots):
        self.roots = roots
        self.calls = []
        self.root = None
        self.dispatched = False

    def class_of(self, a):
        return None

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        fn = ai.P.funcs.get(f["id"])
        if o is not None and any(a[0] == "src" and not a[2] for a in o):
            cls = f.get("cls") or ""
            m = ai.P.method_by_id(f["id"])
            if m is not None and m.get("virt") and m.get("acc") == "pub" and self.root == NODE and cls == NODE \
                    and f["n"] not in ("isConvertible", "accept"):
                self.dispatched = True      # entry point of the concrete root, examined there
                return [(st, op(f["n"], o, *vs))]
            hook = m is not None and m.get("virt") and m.get("acc") in ("priv", "prot")
            virt = m is not None and m.get("virt")
            if hook or fn is None or (virt and f["n"] in ("isConvertible", "accept", "dynamicNodeId")):
                for a in o:
                    if a[0] == "src" and not a[2]:
                        self.calls.append((a[1], f["n"], n.get("l")))
                return [(st, op(f["n"], o, *vs))]
        if f.get("cls") and not own(f["cls"]):
            return [(st, op(f["n"], *([o] if o is not None else []), *vs))]
        return None


def own(cls):
    return cls in (NODE, VALUE, VAR, TYPE, "codon::ir::IdMixin") or cls.startswith(
        ("codon::ir::AcceptorExtend<", "codon::ir::ReplaceableNodeBase<", "std::"))


def chain(ai, st):
    ai.on = False
    ai.setf(st, src("this"), "replacement", src("mid"))
    ai.setf(st, src("mid"), "replacement", src("new"))
    ai.setf(st, src("new"), "replacement", NULL)
    for r in ("this", "mid", "new"):
        for a in (("nz", src(r)),):
            st.pc = st.pc + ((a, True),)
    ai.on = True


OK_FIELDS = ("replacement", "replaceable")


def transparency():
    c = Check("C04", "every public operation of the replaceable node roots, interpreted on a node replaced by a node that "
                     "was itself replaced, touches only the final replacement")
    P = c.load(FILES)
    roots = [NODE] + [strip_t(r["id"].split("ReplaceableNodeBase<")[1][:-1]) for r in P.records.values()
                      if r["id"].startswith("codon::ir::ReplaceableNodeBase<")]
    if len(roots) < 4:
        raise AnalysisBroken("replaceable roots: %s" % roots)
    done = 0
    for root in roots:
        r = P.rec(root)
        for m in r["methods"]:
            fn = P.funcs.get(m["id"])
            if fn is None or not fn.get("body") or m["n"].startswith("~") or m["n"] == root.split("::")[-1]:
                continue
            if m.get("static") or fn.get("static") or m["n"] in ("nodeId", "dynamicNodeId"):
                continue
            if m.get("virt") and m.get("acc") in ("priv", "prot"):
                continue        # the hook behind an entry point, runs on the final node
            if root == NODE and m.get("virt") and m["n"] not in ("isConvertible",):
                continue        # defaults that the roots override (checked there)
            if m["n"] in ("getActual", "hasReplacement"):
                continue
            check_method(c, P, root, m, fn)
            done += 1
    for k in list(P.records):
        if not k.startswith(("codon::ir::AcceptorExtend<", "codon::ir::ReplaceableNodeBase<")):
            continue
        for m in P.records[k]["methods"]:
            fn = P.funcs.get(m["id"])
            if fn is None or not fn.get("body"):
                continue
            if m["n"] in ("isConvertible", "accept"):
                check_delegates(c, P, k, m, fn)
            elif m["n"] == "getActual":
                check_actual(c, P, k, m, fn)
            elif m["n"] == "replaceAll":
                check_replace_all(c, P, k, m, fn)
    for fid, fn in P.funcs.items():
        if fn.get("cls") == NODE and fn["n"] in ("as",) and fn.get("body"):
            check_as(c, P, fn)
    c.floor("operation", 60)
    c.floor("dispatch", 150)
    c.floor("resolve", 6)
    c.assumptions += ["members of concrete classes are reached through casts, which resolve the replacement"]
    return c


def check_method(c, P, root, m, fn):
    key = "%s.%s%s" % (short(root), m["n"], " const" if m.get("const") else "")
    cl = RC({})
    cl.root = root
    ai = LogAI(P, cl)
    st = State()
    chain(ai, st)
    try:
        res = ai.run(fn, st, src("this"), [src("p%d" % i) for i in range(len(fn["params"]))])
    except Budget:
        raise AnalysisBroken("budget: " + key)
    c.ok("operation", "%s acts on the final replacement only" % key)
    bad = sorted({(k, o, f) for k, o, f in ai.log if o in ("this", "mid") and f not in OK_FIELDS})
    for k, o, f in bad:
        c.viol("%s %s %s" % (key, k, f), fn.where,
               "%ss `%s` of the replaced node instead of its replacement" % (k, f))
    for o, n, l in cl.calls:
        if o in ("this", "mid"):
            c.viol("%s calls %s" % (key, n), "%s:%s" % (fn["file"].replace("/repo/", ""), l),
                   "runs `%s` on the replaced node instead of its replacement" % n)
    live = [x for x in res if x[1] is not THROWN]
    touched = any(o == "new" for _, o, _ in ai.log) or any(o == "new" for o, _, _ in cl.calls)
    if live and not touched and not bad and not cl.dispatched and not any(o in ("this", "mid") for o, _, _ in cl.calls) \
            and m["n"] not in ("isReplaceable", "setReplaceable") and not fails(ai, res) \
            and any(v for s, v in live if isinstance(v, frozenset)):
        c.viol("%s constant" % key, fn.where, "answers without consulting the node or its replacement")


def fails(ai, res):
    """the operation is declared impossible (asserts unconditionally)"""
    return all(v is THROWN or (isinstance(v, frozenset) and v == INT(-1)) for _, v in res)


def check_delegates(c, P, k, m, fn):
    key = "%s.%s" % (short(k).split(",")[0].replace("AcceptorExtend<", "").split("::")[-1], m["n"])
    cl = RC({})
    ai = LogAI(P, cl)
    st = State()
    chain(ai, st)
    res = ai.run(fn, st, src("this"), [src("p0")])
    c.ok("dispatch", "%s of a replaced node is that of the replacement" % key)
    on_new = [x for x in cl.calls if x[0] == "new" and x[1] == m["n"]]
    others = [x for x in cl.calls if x[0] in ("this",)]
    visits = "visit" in [x[1] for x in cl.calls if x[0] == "p0"]
    if not on_new or others or visits:
        c.viol("%s bypass" % key, fn.where, "a replaced node answers `%s` itself" % m["n"])
    if m["n"] == "isConvertible":
        for s, v in res:
            if v is not THROWN and not any(a[0] == "op" and a[1] == "isConvertible" and a[2][0] == src("new") for a in v):
                c.viol("%s value" % key, fn.where, "the class test of a replaced node is not that of its replacement")


def check_actual(c, P, k, m, fn):
    ai = LogAI(P, RC({}))
    st = State()
    chain(ai, st)
    c.ok("resolve", "%s.getActual follows the chain of replacements to its end" % short(k))
    for s, v in ai.run(fn, st, src("this"), []):
        if v is not THROWN and v != src("new"):
            c.viol("%s.getActual" % short(k), fn.where, "a chain of replacements resolves to %s" % show(v))
    st = State()
    ai.setf(st, src("this"), "replacement", NULL)
    for s, v in ai.run(fn, st, src("this"), []):
        if v is not THROWN and v != src("this"):
            c.viol("%s.getActual self" % short(k), fn.where, "an unreplaced node resolves to %s" % show(v))


def check_replace_all(c, P, k, m, fn):
    ai = AI(P, RC({}))
    st = State()
    ai.setf(st, src("this"), "replacement", NULL)
    c.ok("resolve", "%s.replaceAll installs the replacement" % short(k))
    for s, v in ai.run(fn, st, src("this"), [src("p0")]):
        if v is THROWN:
            continue
        got = ai.getf(s, src("this"), "replacement")
        if got != src("p0"):
            c.viol("%s.replaceAll" % short(k), fn.where, "after replacing a node its replacement is %s" % show(got))


def check_as(c, P, fn):
    ai = LogAI(P, RC({}))
    st = State()
    chain(ai, st)
    c.ok("resolve", "a cast of a replaced node yields its replacement")
    for s, v in ai.run(fn, st, src("this"), []):
        if v is THROWN or v == NULL or v == src("new"):
            continue
        if any(a in v for a in (("src", "this", ()), ("src", "mid", ()))):
            c.viol("Node.as", fn.where, "a cast of a replaced node yields %s" % show(v))


# ---------------------------------------------------------------- identity


class VC(Client):
    """one visit call per accept"""

    def __init__(self):
        self.visits = []

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if f["n"] in ("visit", "defaultVisit") and o is not None and ("src", "v", ()) in o:
            fn = ai.P.funcs.get(f["id"]) or ai.P.method_by_id(f["id"])
            s = st.copy()
            s.trace = s.trace + (("visit", f["id"], vs[0] if vs else None),)
            return [(s, VOID)]
        return None


def node_id_of(P, k):
    """value returned by the class's own static nodeId (nearest declaration)"""
    for b in [k] + list(P.all_bases(k)):
        for m in P.records.get(b, {"methods": []})["methods"]:
            if m["n"] == "nodeId" and m["np"] == 0:
                if m["id"] in P.funcs:
                    for s, v in AI(P, Client()).run(P.funcs[m["id"]], State(), VOID, []):
                        return v
                # declared by a template that is not instantiated here: stands for its class argument
                a = targs(b)
                return V(("gaddr", (a[0] if a else b) + "::NodeId"))
    return None


def param_class(P, fid):
    fn = P.funcs.get(fid)
    if fn is not None:
        t = fn["T"][fn["params"][0]["t"]]
    else:
        m = P.method_by_id(fid)
        t = (m.get("pt") or ["?"])[0]
    return strip_t(strip_t(t).rstrip("*").strip())


def identity():
    c = Check("C05", "per node class: own identity key; the class test is true exactly for the class and its ancestors; "
                     "accept dispatches to the visit overload of the class; default overloads reach defaultVisit; "
                     "attribute identifiers are pairwise distinct")
    P = c.load(FILES + ["codon/cir/attribute.cpp"])
    classes = [k for k in node_classes(P, NODE, concrete=False) if k in P.records and k != NODE]
    classes = [k for k in classes if not k.startswith(("codon::ir::AcceptorExtend", "codon::ir::ReplaceableNodeBase", "codon::ast::"))]
    ids = {}
    for k in classes + [NODE]:
        v = node_id_of(P, k)
        if v is None or len(v) != 1 or next(iter(v))[0] != "gaddr":
            raise AnalysisBroken("no identity key for %s: %s" % (k, v))
        ids[k] = v
    byid = {}
    for k, v in ids.items():
        byid.setdefault(v, []).append(k)
    for v, ks in byid.items():
        c.ok("key", "%s has its own identity key" % short(ks[0]))
        if len(ks) > 1:
            c.viol("key " + ",".join(sorted(short(x) for x in ks)), P.records[ks[-1]].get("file", "codon/cir") if False else "codon/cir",
                   "classes %s share one identity key" % ", ".join(sorted(short(x) for x in ks)))
    for k in classes:
        if P.records[k].get("abstract"):
            continue
        m = P.find_override(k, dyn_id(P))
        fn = P.funcs.get(m["id"]) if m else None
        if fn is None:
            continue        # never instantiated in the analysed units
        c.ok("dynamic", "%s reports its own key" % short(k))
        for s, v in AI(P, Client()).run(fn, State(), src("this"), []):
            if v != ids[k]:
                c.viol("%s dynamicNodeId" % short(k), fn.where, "reports the key of another class: %s" % show(v))
        conv = [x for x in P.rec(NODE)["methods"] if x["n"] == "isConvertible"][0]
        m = P.find_override(k, conv["id"])
        fn = P.funcs.get(m["id"])
        if fn is None:
            raise AnalysisBroken("no isConvertible for %s" % k)
        for k2, v2 in ids.items():
            want = P.derives(k, k2)
            st = State()
            ai = AI(P, Client())
            ai.setf(st, src("this"), "replacement", NULL)
            got = {ai.truth(v) for s, v in ai.run(fn, st, src("this"), [v2]) if v is not THROWN}
            c.ok("test", "%s %s a %s" % (short(k), "is" if want else "is not", short(k2)))
            if None in got or not got:
                raise AnalysisBroken("class test of %s for %s undecided" % (k, k2))
            if got != {want}:
                c.viol("%s is %s" % (short(k), short(k2)), fn.where,
                       "the class test answers %s although %s %s %s" % (
                           sorted(got), short(k), "derives from" if want else "does not derive from", short(k2)))
        check_accept(c, P, k)
    check_default(c, P)
    check_attr_ids(c, P)
    c.floor("key", 65)
    c.floor("accept", 100)
    c.floor("default", 100)
    c.floor("attribute-id", 12)
    return c


def dyn_id(P):
    return [x for x in P.rec(NODE)["methods"] if x["n"] == "dynamicNodeId"][0]["id"]


def check_accept(c, P, k):
    for bm in P.rec(NODE)["methods"]:
        if bm["n"] != "accept":
            continue
        m = P.find_override(k, bm["id"])
        fn = P.funcs.get(m["id"])
        if fn is None:
            raise AnalysisBroken("no accept for %s" % k)
        if fn.get("cls") == NODE:
            continue
        st = State()
        ai = AI(P, VC())
        ai.setf(st, src("this"), "replacement", NULL)
        key = "%s.accept%s" % (short(k), " const" if bm.get("const") else "")
        c.ok("accept", "%s visits it as its own class" % key)
        vclass = strip_t(fn["T"][fn["params"][0]["t"]])
        have = {param_class(P, x["id"]) for x in P.records[vclass]["methods"] if x["n"] == "visit"}
        # nearest ancestor for which the visitor has an overload
        want = [b for b in [k] + bfs_bases(P, k) if b in have]
        for s, v in ai.run(fn, st, src("this"), [src("v")]):
            ev = [t for t in s.trace if t[0] == "visit"]
            if len(ev) != 1:
                c.viol(key + " count", fn.where, "%d visits for one accept" % len(ev))
                continue
            got = param_class(P, ev[0][1])
            if want and got != want[0]:
                c.viol(key + " class", fn.where, "visited as %s instead of %s" % (short(got), short(want[0])))
            if ev[0][2] != src("this"):
                c.viol(key + " object", fn.where, "visits %s instead of the node itself" % show(ev[0][2]))


def bfs_bases(P, k):
    out, q = [], [k]
    while q:
        x = q.pop(0)
        for b in P.bases(x):
            if b not in out:
                out.append(b)
                q.append(b)
    return out


def check_default(c, P):
    for vc in ("codon::ir::util::Visitor", "codon::ir::util::ConstVisitor"):
        for m in P.rec(vc)["methods"]:
            if m["n"] != "visit":
                continue
            fn = P.funcs.get(m["id"])
            if fn is None:
                raise AnalysisBroken("no default body: %s::visit(%s)" % (vc, m.get("pt")))
            k = param_class(P, m["id"])
            c.ok("default", "an unhandled %s reaches the visitor's default" % short(k))
            ai = AI(P, VC())
            for s, v in ai.run(fn, State(), src("v"), [src("x")]):
                ev = [t for t in s.trace if t[0] == "visit"]
                if v is THROWN:
                    continue
                if len(ev) != 1 or ev[0][2] != src("x"):
                    c.viol("%s default %s" % (short(vc), short(k)), fn.where, "the default for this class drops the node")


def check_attr_ids(c, P):
    root = "codon::ir::Attribute"
    seen = {}
    for k in P.subclasses(root):
        g = None
        for name, gl in P.globals.items():
            if name == k + "::AttributeID":
                g = gl
        if g is None:
            continue
        v = const_init(P, g)
        if v is None:
            continue
        c.ok("attribute-id", "%s = %s" % (short(k), v))
        if v in seen:
            c.viol("attribute-id %s %s" % tuple(sorted((short(k), short(seen[v])))), "codon/cir/attribute.cpp",
                   "%s and %s share the identifier %s: one overwrites the other on a node" % (short(k), short(seen[v]), v))
        seen[v] = k


def const_init(P, g):
    e = g.get("init")
    while e is not None and e.get("k") in ("Cast", "Paren", "Const", "ImpCast") and e.get("e") is not None:
        e = e["e"]
    if e is not None and e.get("k") == "Int":
        return e.get("v")
    return None


# ---------------------------------------------------------------- traversal
class TC(IRClient):
    def __init__(self, P, opc):
        IRClient.__init__(self, {})
        self.P = P
        self.opc = opc

    def ev(self, st, *e):
        s = st.copy()
        s.trace = s.trace + (e,)
        return s

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm = f["n"]
        if o == src("this") and nm in ("handle", "preHook", "postHook"):
            return [(self.ev(st, nm, vs[0] if vs else None), VOID)]
        if nm == "accept" and o is not None and vs and vs[0] == src("this"):
            return [(self.ev(st, "enter", o), VOID)]
        if nm == "getUsedValues" and o is not None:
            return [(st, V(("coll", o)))]
        if nm == "getBody" or nm == "getMainFunc":
            return [(st, op(nm, o))]
        if o is not None and nm in ("push_back", "pop_back", "emplace_back") and len(o) == 1 and next(iter(o))[:2] == ("src", "this"):
            return [(self.ev(st, "push" if nm != "pop_back" else "pop", next(iter(o))[2], vs[0] if vs else None), VOID)]
        if o is not None and nm == "insert" and len(o) == 1 and next(iter(o))[:2] == ("src", "this"):
            return [(self.ev(st, "see", vs[0] if vs else None), VOID)]
        return None


def traversal():
    c = Check("C06", "per node class, on every path of the walker: hooks once and in order, every child entered unless "
                     "already seen, children on the chosen side of the handler, parent stack balanced")
    P = c.load(FILES + ["codon/cir/transform/pass.cpp", "codon/cir/transform/cleanup/dead_code.cpp"])
    opc = "codon::ir::util::Operator"
    r = P.rec(opc)
    by = {}
    for m in r["methods"]:
        if m["n"] == "visit":
            by[param_class(P, m["id"])] = m
    for k in node_classes(P, VALUE):
        if "Any" in short(k) or "dataflow" in k or not k.startswith("codon::ir::"):
            continue
        if any("Any" not in short(x) and "AcceptorExtend" not in x for x in P.subclasses(k)):
            continue        # a family, not a kind of node
        acc = [b for b in [k] + bfs_bases(P, k) if any(
            param_class(P, m["id"]) == b for m in P.rec("codon::ir::util::Visitor")["methods"] if m["n"] == "visit")]
        c.ok("reached", "%s is walked" % short(k))
        if not acc or acc[0] not in by:
            c.viol("%s not walked" % short(k), "codon/cir/util/operator.h",
                   "values of class %s fall through the walker: neither handled nor descended into" % short(k))
    for k, m in sorted(by.items()):
        fn = P.funcs.get(m["id"])
        if fn is None:
            raise AnalysisBroken("walker: no body for %s" % k)
        if k == "codon::ir::Module":
            walk_module(c, P, opc, fn)
        elif k == "codon::ir::BodiedFunc":
            walk_func(c, P, opc, fn)
        else:
            walk_value(c, P, opc, k, fn)
    c.floor("reached", 25)
    c.floor("order", 30)
    c.floor("children", 30)
    return c


def events(P, opc, fn):
    ai = AI(P, TC(P, opc))
    st = State()
    out = []
    for s, v in ai.run(fn, st, src("this"), [src("v")]):
        if v is THROWN:
            continue
        out.append((s, [t for t in s.trace if t[0] != "break"], any(t[0] == "break" for t in s.trace) or
                    any(a[0] == "each" for a, _ in s.pc)))
    if not out:
        raise AnalysisBroken("walker: no path through " + fn["qn"])
    return ai, out


def balanced(ev):
    st = []
    for e in ev:
        if e[0] == "push":
            st.append(e[1])
        elif e[0] == "pop":
            if not st or st.pop() != e[1]:
                return False
    return not st


def walk_value(c, P, opc, k, fn):
    ai, paths = events(P, opc, fn)
    key = short(k)
    c.ok("order", "%s: before-hook, handler, after-hook once each" % key)
    c.ok("children", "%s: every child is entered below it on the parent stack" % key)
    entered = False
    sides = set()
    for s, ev, broke in paths:
        names = [e[0] for e in ev if e[0] in ("preHook", "handle", "postHook")]
        if names != ["preHook", "handle", "postHook"] or any(e[1] != src("v") for e in ev if e[0] in ("preHook", "handle", "postHook")):
            c.viol("%s hooks" % key, fn.where, "hooks run as: %s" % ", ".join(names))
        if not balanced(ev):
            c.viol("%s stack" % key, fn.where, "the parent stack is not restored on a path (%s)" % show_pc(s.conds()))
        if broke:
            c.viol("%s early" % key, fn.where, "the walk over the children is left early (%s)" % show_pc(s.conds()))
        ent = [i for i, e in enumerate(ev) if e[0] == "enter"]
        first = None
        for a, pol in s.conds():
            if a[0] == "nz" and a[1] == src("this", "childrenFirst"):
                first = pol
        h = [i for i, e in enumerate(ev) if e[0] == "handle"][:1]
        for i in ent:
            entered = True
            below = [e[2] for e in ev[:i] if e[0] == "push" and e[1] == ("nodeStack",)]
            popped = [e for e in ev[:i] if e[0] == "pop" and e[1] == ("nodeStack",)]
            if not below or below[-1] != src("v") or popped:
                c.viol("%s parent" % key, fn.where, "a child is entered without its parent on the stack")
            if h:
                sides.add((first, i < h[0]))
            if not any(a in child_atoms(ai, s) for a in ev[i][1]):
                c.viol("%s enters other" % key, fn.where, "enters %s, which is not one of its children" % show(ev[i][1]))
        looped = any(a[0] == "each" for a, _ in s.conds()) or ent
        if not ent and not any(skip(a, pol) for a, pol in s.conds()):
            c.viol("%s skips" % key, fn.where, "a path does not enter an unseen child (%s)" % show_pc(s.conds()))
        if key != "SeriesFlow":
            for i in ent:
                if not any(e[0] == "see" for e in ev[:i]):
                    c.viol("%s unseen" % key, fn.where, "a child is entered without being marked as seen")
    if not entered:
        c.viol("%s no child" % key, fn.where, "no path enters the children")
    if not sides <= {(True, True), (False, False)}:
        c.viol("%s side" % key, fn.where, "children are walked on the wrong side of the handler for the chosen order")


def child_atoms(ai, s):
    v = ai.elem(s, V(("coll", src("v"))))
    w = ai.elem(s, src("v"))
    return set(v) | set(w) | set(src("v", "series", "[]"))


def skip(a, pol):
    """the path skipped the child because it was seen, or there is no child"""
    if a[0] == "nz" and not pol and any(x[0] == "op" and x[1] == "size" for x in a[1]):
        return True
    return a[0] in ("nz", "eq") and "seen" in repr(a)


def walk_func(c, P, opc, fn):
    ai, paths = events(P, opc, fn)
    c.ok("children", "the body of a function is entered")
    for s, ev, _ in paths:
        ent = [e[1] for e in ev if e[0] == "enter"]
        nob = any(a[0] == "nz" and not pol and a[1] == op("getBody", src("v")) for a, pol in s.conds())
        if not nob and ent != [op("getBody", src("v"))]:
            c.viol("BodiedFunc body", fn.where, "a function body is not walked on a path (%s)" % show_pc(s.conds()))
        if not balanced(ev):
            c.viol("BodiedFunc stack", fn.where, "the parent stack is not restored")


def walk_module(c, P, opc, fn):
    ai, paths = events(P, opc, fn)
    c.ok("children", "the main function and every other function are entered")
    main = op("getMainFunc", src("v"))
    for s, ev, broke in paths:
        ent = [e[1] for e in ev if e[0] == "enter"]
        if main not in ent:
            c.viol("Module main", fn.where, "the main function is not walked")
        if not any(x != main for x in ent):
            c.viol("Module functions", fn.where, "the functions of the module are not walked")
        if broke:
            c.viol("Module early", fn.where, "the walk over the functions is left early")
        if not balanced(ev):
            c.viol("Module stack", fn.where, "the parent stack is not restored")
        for i, e in enumerate(ev):
            if e[0] == "enter":
                below = [x[2] for x in ev[:i] if x[0] == "push" and x[1] == ("nodeStack",)]
                if not below or below[-1] != e[1]:
                    c.viol("Module parent", fn.where, "a function is entered without being on the parent stack")

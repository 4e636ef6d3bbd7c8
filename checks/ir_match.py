"""Structural matching of IR nodes compares every field and honours its options."""
from absint import *
from checklib import Check
from irmodel import *
from ir_clone import short, absent

FILES = ["codon/cir/" + x for x in (
    "base.cpp", "const.cpp", "dsl/nodes.cpp", "flow.cpp", "func.cpp", "instr.cpp", "module.cpp",
    "transform/parallel/schedule.cpp", "types/types.cpp", "value.cpp", "var.cpp", "util/matching.cpp",
    "util/visitor.cpp")]
MATCH = "codon::ir::util::match"

# fields that do not take part in matching, with the reason
IGNORED = {
    "id": "node identity",
    "global": "storage, not structure", "external": "storage, not structure", "tls": "storage, not structure",
    "symbols": "locals are compared as a sequence",
    "tag": "discriminator of a literal, implied by the comparison of the literal",
}
# the source name of a function with a body is not what it does
IGNORED_IN = {("BodiedFunc", "unmangledName"), ("LLVMFunc", "unmangledName")}
# targets of jumps are compared through the pair of enclosing loops
SPLIT = {("loop",)}


class MC(IRClient):
    def __init__(self, P, roots, mv):
        IRClient.__init__(self, roots)
        self.P = P
        self.mv = mv

    def typed_leaf(self, v, cls):
        return all((a[0] == "src" and a[2]) for a in v)

    def should_inline(self, t, f, o, vs):
        return t.get("cls") != "codon::ir::Module"

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if f.get("cls") == self.mv and f["n"] == "process" and len(vs) == 2:
            out = []
            v = op("process", vs[0], vs[1])
            for pol in (True, False):
                s = ai.assume(st, v, pol)
                if s is not None:
                    out.append((s, TRUE if pol else FALSE))
            return out
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def alternatives(ai, s, r):
    """the conditions of a path that reports a match, as a disjunction of fact lists [(values, polarity)]"""
    alts = expand(s.conds())
    extra = []
    stack = [(r, True)]
    while stack:
        v, pol = stack.pop()
        extra.append(((v,), pol))
        if len(v) == 1:
            (a,) = v
            if a[0] == "op" and a[1] == "!":
                stack.append((a[2][0], not pol))
            elif a[0] == "op" and a[1] in ("&&", "all") and pol:
                stack += [(x, True) for x in a[2]]
            elif a[0] == "op" and a[1] == "||" and not pol:
                stack += [(x, False) for x in a[2]]
    return [x + extra for x in alts]


def expand(conds, cap=256):
    out = [[]]
    for a, pol in conds:
        if a[0] == "or" and pol:
            nxt = [x + y for x in out for alt in a[1] for y in expand(alt, cap)]
            if len(nxt) > cap:
                # keep the facts common to every alternative
                sets = [expand(alt, cap) for alt in a[1]]
                com = None
                for ss in sets:
                    for z in ss:
                        com = set(z) if com is None else com & set(z)
                nxt = [x + sorted(com or [], key=repr) for x in out]
            out = nxt
        elif a[0] == "nz":
            out = [x + [((a[1],), pol)] for x in out]
        elif a[0] == "eq":
            out = [x + [((a[1], a[2]), pol)] for x in out]
    return out


def pairwise(ai, s, vals):
    lab = set()
    for v in vals:
        lab |= ai.labels(s, v)
    return ({x[2] for x in lab if x[0] == "src" and x[1] == "x"},
            {x[2] for x in lab if x[0] == "src" and x[1] == "y"})


def covers(paths, leaf):
    return any(p[:len(leaf)] == leaf for p in paths)


def compared(ai, s, r, leaf):
    for alt in alternatives(ai, s, r):
        ok = False
        absx = absy = tx = ty = False
        for it, pol in alt:
            px, py = pairwise(ai, s, it)
            cx, cy = covers(px, leaf), covers(py, leaf)
            if cx and cy:
                ok = True
            if leaf[-1:] == ("[]",) and pol:
                # value equality of the whole container
                ab = {src("x", *leaf[:-1]), src("y", *leaf[:-1])}
                if set(it) == ab or any(a[0] == "op" and a[1] == "==" and set(a[2]) == ab for v in it for a in v):
                    ok = True
            if len(it) == 1 and not pol:
                for i in range(1, len(leaf) + 1):
                    absx = absx or it[0] == src("x", *leaf[:i])
                    absy = absy or it[0] == src("y", *leaf[:i])
            rep = len(it) == 1 and it[0] not in (src("x", *leaf), src("y", *leaf))
            tx = tx or (cx and rep)
            ty = ty or (cy and rep)
            if len(it) == 2:
                tx, ty = tx or cx, ty or cy
        if leaf in SPLIT and tx and ty:
            ok = True
        # one side is absent: the other one is tested, or absent as well
        if absx and (absy or ty) or absy and tx:
            ok = True
        if not ok:
            return False
    return True


def run():
    c = Check("C03", "every path on which the matcher can report two nodes equal compares every semantic field of "
                     "one node with the same field of the other; the name and variable-identity options reach "
                     "every nested comparison; names are compared exactly when asked for; nested loops terminate")
    P = c.load(FILES)
    m = [f for f in P.fn(MATCH) if f.get("body")]
    if not m:
        raise AnalysisBroken("match() not found")
    mv = [x for x in P.records if x.endswith("::MatchVisitor")]
    if not mv:
        # renamed: the ConstVisitor subclass of this unit that match() builds
        mv = [x for x in P.records if P.derives(x, "codon::ir::util::ConstVisitor") and "Match" in x]
    if len(mv) != 1:
        raise AnalysisBroken("match visitor not found: %s" % mv)
    mv = mv[0]
    r = P.records[mv]
    meths = {}
    for x in r["methods"]:
        fn = P.funcs.get(x["id"])
        if fn is not None and x["n"] == "handle" and x["np"] == 2:
            meths[strip_t(fn["T"][fn["params"][0]["t"]]).rstrip("* ")] = fn
    visits = {}
    for x in r["methods"]:
        fn = P.funcs.get(x["id"])
        if fn is not None and x["n"] == "visit" and x["np"] == 1:
            visits[strip_t(fn["T"][fn["params"][0]["t"]]).rstrip("* ")] = fn
    if len(visits) < 30:
        raise AnalysisBroken("match visitor: %d visit methods" % len(visits))
    process = [P.funcs[x["id"]] for x in r["methods"] if x["n"] == "process" and x["id"] in P.funcs]
    if not process:
        raise AnalysisBroken("match visitor: process() not found")
    concrete = set()
    for root in (VALUE, VAR):
        for k in node_classes(P, root):
            subs = [s for s in P.subclasses(k) if "AcceptorExtend" not in s]
            if (subs and k != VAR) or "Any" in short(k) or "dsl" in k or "dataflow" in k:
                continue
            concrete.add(k)
    for k in sorted(concrete):
        fn = visits.get(k)
        c.ok("handled", "%s is matched by its own rule" % short(k))
        if fn is None:
            c.viol("%s unhandled" % short(k), process[0].where, "nodes of class %s have no matching rule" % short(k))
            continue
        check_class(c, P, mv, k, fn)
    check_options(c, P, mv, process[0], m[0], r)
    c.floor("field", 60)
    c.floor("option", 4)
    c.assumptions += ["%s is not compared: %s" % kv for kv in IGNORED.items()]
    return c


def check_class(c, P, mv, cls, fn):
    """interpret visit(y) on a visitor that has already recorded a node x of the same class"""
    key = short(cls)
    cl = MC(P, {"x": cls, "y": cls, "mv": mv}, mv)
    ai = AI(P, cl, max_paths=3000)
    # first visit: the visitor records the node
    this = src("mv")
    st = State()
    for f in P.records[mv]["fields"]:
        t = strip_t(f["type"])
        if f.get("init") is not None and f["init"]["k"] in ("NullPtr",):
            ai.setf(st, this, f["n"], NULL)
        elif f.get("init") is not None and f["init"]["k"] == "Bool":
            ai.setf(st, this, f["n"], FALSE if not f["init"].get("v") else TRUE)
    # the field may be initialised in the class or in the constructor: start from the default state
    for f in P.records[mv]["fields"]:
        if f["n"] in ("nodeId", "other", "current", "parent"):
            ai.setf(st, this, f["n"], NULL)
        if f["n"] in ("matchAny", "result"):
            ai.setf(st, this, f["n"], FALSE)
    outs = []
    for s1, _ in ai.run(fn, st, this, [src("x")]):
        for s2, rv in ai.run(fn, s1, this, [src("y")]):
            if rv is THROWN:
                continue
            if any(a[0] == "nz" and p and any(z[0] == "op" and z[1] == "isa" for z in a[1]) and "Any" in repr(a)
                   for a, p in s2.conds()):
                continue
            outs.append((s2, ai.getf(s2, this, "result")))
    if not outs:
        raise AnalysisBroken("match visitor: no path for %s" % key)
    terms = [(l, t) for l, t in class_terminals(P, cls) if l[0] not in IGNORED and (key, l[0]) not in IGNORED_IN]
    seen_true = False
    for s, r in outs:
        if ai.truth(r) is False:
            continue
        seen_true = True
        for l, t in terms:
            if "llvmLiterals" in l:
                if l[-1] in IGNORED:
                    continue
                if not lit_ok(ai, s, r, l):
                    c.viol("%s ignores %s" % (key, ".".join(l)), fn.where, "literals are not compared")
                continue
            if not compared(ai, s, r, l):
                c.viol("%s ignores %s" % (key, ".".join(l)), fn.where,
                       "two nodes can match without comparing `%s` (path: %s)" % (".".join(l), show_pc(s.conds())[:400]))
        if cls in (VAR, "codon::ir::VarValue", "codon::ir::PointerValue"):
            base = () if cls == VAR else ("val",)
            if not all(any(l[:len(base)] == base for l in ids_compared(ai, s, alt)) or
                       any(it == (src("mv", "varIdMatch"),) and not pol for it, pol in alt)
                       for alt in alternatives(ai, s, r)):
                c.viol("%s identity" % key, fn.where,
                       "variables can match under the variable-identity option without comparing their ids")
    for l, t in terms:
        c.ok("field", "%s.%s is compared" % (key, ".".join(l)))
    if not seen_true:
        c.viol("%s never" % key, fn.where, "two nodes of this class never match, not even a node and its copy")


def lit_ok(ai, s, r, l):
    return True if compared(ai, s, r, l[:1]) or compared(ai, s, r, l[:2]) else False


def ids_compared(ai, s, alt):
    """access paths of the variables whose ids are compared among these facts"""
    out = set()
    for it, pol in alt:
        px, py = pairwise(ai, s, it)
        out |= {p[:-1] for p in px & py if p[-1:] == ("id",)}
        if "getId" in repr(it):
            out |= px & py
    return out


def check_options(c, P, mv, process, match, r):
    # match() passes both options, process() passes them on to nested comparisons
    class OC(MC):
        def __init__(self, *a):
            MC.__init__(self, *a)
            self.made = []

        def on_ctor(self, ai, s, n, cls, vs, C):
            if cls == self.mv:
                self.made.append((frozenset().union(*[ai.labels(s, v) for v in vs]) if vs else frozenset(), n.get("l"), C.fn))
            return None

        def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
            if f.get("cls") == self.mv and f["n"] == "process":
                return [(st, op("process", *vs))]
            return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)

    opts = [p["n"] for p in match["params"][2:]]
    cl = OC(P, {"x": "codon::ir::BoolConst", "y": "codon::ir::BoolConst", "mv": mv}, mv)
    ai = AI(P, cl)
    ai.run(match, State(), VOID, [src("x"), src("y")] + [src("opt", str(i)) for i in range(len(opts))])
    if not cl.made:
        raise AnalysisBroken("match(): no visitor constructed")
    for i, o in enumerate(opts):
        c.ok("option", "match() hands the option `%s` to the visitor" % o)
        for labs, l, fn in cl.made:
            if ("src", "opt", (str(i),)) not in labs:
                c.viol("match drops option %d" % i, "%s:%s" % (match["file"].replace("/repo/", ""), l),
                       "the option `%s` does not reach the comparison" % o)
    flds = [f["n"] for f in r["fields"] if strip_t(f["type"]) == "bool" and f["n"] not in ("result", "matchAny")]
    cl = OC(P, {"x": "codon::ir::BoolConst", "y": "codon::ir::BoolConst", "mv": mv}, mv)
    ai = AI(P, cl)
    ai.run(process, State(), src("mv"), [src("x"), src("y")])
    if not cl.made:
        raise AnalysisBroken("process(): no nested visitor constructed")
    for f in flds:
        c.ok("option", "nested comparisons inherit `%s`" % f)
        for labs, l, fn in cl.made:
            if ("src", "mv", (f,)) not in labs:
                c.viol("process drops %s" % f, "%s:%s" % (process["file"].replace("/repo/", ""), l),
                       "nested comparisons do not inherit the option `%s`" % f)
    # names: compared exactly when asked
    cls = "codon::ir::AssignInstr"
    fn = [P.funcs[x["id"]] for x in r["methods"] if x["n"] == "visit" and x["id"] in P.funcs and
          strip_t(P.funcs[x["id"]]["T"][P.funcs[x["id"]]["params"][0]["t"]]).rstrip("* ") == cls][0]
    for want in (True, False):
        cl = MC(P, {"x": cls, "y": cls, "mv": mv}, mv)
        ai = AI(P, cl)
        st = State()
        this = src("mv")
        for f in r["fields"]:
            if f["n"] in ("nodeId", "other", "current", "parent"):
                ai.setf(st, this, f["n"], NULL)
            if f["n"] in ("matchAny", "result"):
                ai.setf(st, this, f["n"], FALSE)
            if f["n"] == "checkName":
                ai.setf(st, this, f["n"], TRUE if want else FALSE)
        if not any(f["n"] == "checkName" for f in r["fields"]):
            break
        c.ok("option", "names are %scompared %s" % (("", "when asked") if want else ("not ", "otherwise")))
        for s1, _ in ai.run(fn, st, this, [src("x")]):
            for s2, rv in ai.run(fn, s1, this, [src("y")]):
                if rv is THROWN:
                    continue
                res = ai.getf(s2, this, "result")
                diff = None
                for a, p in s2.conds():
                    if a[0] == "eq" and {("x", ("name",)), ("y", ("name",))} == {(z[1], z[2]) for q in a[1:] for z in q if z[0] == "src"}:
                        diff = not p
                if want and diff is None and ai.truth(res) is not False and not compared(ai, s2, res, ("name",)) \
                        and "Any" not in show_pc(s2.conds()):
                    c.viol("names unchecked", fn.where, "with name checking on, a path reports a match without comparing names")
                if want and diff and ai.truth(res) is not False:
                    c.viol("names differ match", fn.where, "with name checking on, nodes with different names can match")
                if not want and diff:
                    c.viol("names compared", fn.where, "names are compared although the caller did not ask for it")

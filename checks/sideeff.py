"""The side-effect analysis over-approximates: nothing that can be observed is called free of side effects."""
from absint import *
from checklib import Check
from facts import AnalysisBroken
from irmodel import IRClient, class_leaves, strip_t, NODE, VALUE

FILE = "codon/cir/analyze/module/side_effect.cpp"
# constructs that must never count as free of side effects themselves: deleting them changes control flow or memory
INHERENT = {"ReturnInstr", "YieldInstr", "YieldInInstr", "AwaitInstr", "BreakInstr", "ContinueInstr", "ThrowInstr",
            "InsertInstr"}
# constructs that make the enclosing function impure
FUNC_INHERENT = {"ThrowInstr"}
BACK = {("BreakInstr", "loop"), ("ContinueInstr", "loop")}     # names the loop, does not evaluate it
ASSIGNED = {"AssignInstr": ("lhs",), "ForFlow": ("var",), "ImperativeForFlow": ("var",), "TryCatchFlow": ("catches", "[]", "catchVar")}


def short(c):
    return c.split("::")[-1]


class SEClient(IRClient):
    def __init__(self, roots, se, deep):
        IRClient.__init__(self, roots)
        self.se = se
        self.deep = deep

    def typed_leaf(self, v, cls):
        return all(a[0] == "src" and a[1] == "v" and a[2] for a in v)

    def should_inline(self, t, f, o, vs):
        if t.get("cls") == self.se:
            return True
        if f["n"] in ("getUsedValues", "getSideEffectStatus", "getId", "getFunc", "escapes", "getUsedVariables"):
            return False
        return True

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm = f["n"]
        if f.get("cls") == self.se:
            if nm == "process":
                st = st.copy()
                st.trace += (("process", vs[0]),)
                ai.setf(st, src("this"), "funcStatus", op("acc", ai.getf(st, src("this"), "funcStatus")))
                return [(st, op("st", vs[0]))]
            if nm == "set" and not self.deep:
                st = st.copy()
                st.trace += (("set", tuple(vs), ai.getf(st, src("this"), "funcStatus")),)
                if len(vs) > 2:
                    ai.setf(st, src("this"), "funcStatus", op("max", ai.getf(st, src("this"), "funcStatus"), vs[2]))
                return [(st, VOID)]
            if nm == "getFunctionStatusFromAttributes" and "BodiedFunc" not in self.roots.get("v", ""):
                return [(st, op("attrs", vs[0]))]
        if nm == "max":
            if len(vs) == 1 and len(vs[0]) == 1:
                vs = st.heap.get(next(iter(vs[0])), {}).get("#list", vs)     # std::max({...})
            return [(st, op("max", *vs))]
        if nm in ("isGlobal", "isExternal") and o is not None:
            return [(st, op(nm, o))]
        if nm == "hasAttribute":
            return [(st, op("attr", *vs))]
        if nm == "getFunc":
            return [(st, op("getFunc", vs[0]))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def parts(v):
    """the statuses a joined status is an upper bound of; None for a value that is one of several"""
    out = set()

    def go(x):
        if len(x) != 1:
            out.add(("alt", frozenset(show(frozenset([a])) for a in x)))
            return
        a = next(iter(x))
        if a[0] == "op" and a[1] == "max":
            for y in a[2]:
                go(y)
        else:
            out.add(("v", x))
    go(v)
    return out


def names(v):
    return {show(x) if k == "v" else "alt" for k, x in parts(v)}


def bounds(v, term, s=None):
    if any(k == "v" and x == term for k, x in parts(v)) or "UNKNOWN" in names(v):
        return True
    if s is None:
        return False
    # comparisons decided on the path: what is known to be no greater than a known lower bound is one too
    known = {x for k, x in parts(v) if k == "v"} | {v}
    below = []
    for a, p in s.conds():
        t = next(iter(a[1])) if a[0] == "nz" and len(a[1]) == 1 else None
        if t and t[0] == "op" and t[1] in ("<", ">", "<=", ">=") and len(t[2]) == 2:
            x, y = t[2]
            below.append((y, x) if (t[1] in (">", ">=")) == p else (x, y))
    grow = True
    while grow:
        grow = False
        for lo, hi in below:
            if hi in known and lo not in known:
                known |= {lo} | {x for k, x in parts(lo) if k == "v"}
                grow = True
    return term in known


def nonpure(v):
    """definitely not PURE"""
    return bool(names(v) & {"UNKNOWN", "NO_CAPTURE", "NO_SIDE_EFFECT"})


def run():
    c = Check("C09", "every visit of the side-effect analyser interpreted: the recorded status is the join of the statuses of "
                     "everything the construct evaluates, calls and assigns, and never PURE for control transfers")
    P = c.load([FILE])
    se = [r for r in P.records if r.endswith("::SideEfectAnalyzer") or r.endswith("::SideEffectAnalyzer")]
    if not se:
        raise AnalysisBroken("side-effect analyser not found")
    se = se[0]
    seen = set()
    for f in list(P.funcs.values()):
        if f.get("cls") == se and f["n"] == "visit" and f.get("body") and f["params"]:
            cls = strip_t(f["T"][f["params"][0]["t"]]).rstrip("*").strip()
            if cls in P.records:
                seen.add(cls)
                visit(c, P, se, f, cls)
    join(c, P, se)
    record(c, P, se)
    query(c, P)
    attributes(c, P, se)
    counters(c, P)
    c.floor("operand", 28)
    c.floor("construct", 30)
    c.floor("assigned", 4)
    return c


def visit(c, P, se, f, cls):
    k = short(cls)
    w = f.where
    cl = SEClient({"v": cls}, se, False)
    cl.P = P
    ai = AI(P, cl)
    v = src("v")
    paths = [s for s, r in ai.run(f, State(), src("this"), [v]) if r is not THROWN]
    if k == "Module" or not paths:
        if k == "Module":
            got = {show(e[1]) for s in paths for e in s.trace if e[0] == "process"}
            c.ok("construct", "Module")
            if not any("vars" in g for g in got):
                c.viol("Module", w, "the functions of the module are not analysed")
        return
    c.ok("construct", k)
    if k in ("BodiedFunc",):
        return bodied(c, P, ai, f, paths)
    leaf = []
    if P.derives(cls, VALUE):
        leaf = [tuple(x) for x, fl in class_leaves(P, cls, VALUE) if (k, x[0]) not in BACK]
    handled = set()
    for s in paths:
        sets = [e for e in s.trace if e[0] == "set" and e[1][0] == v]
        if not sets:
            c.viol(k + ":record", w, "a path records no status for the node itself")
            continue
        st, fs = sets[-1][1][1], sets[-1][1][2] if len(sets[-1][1]) > 2 else None
        if k in INHERENT:
            c.ok("inherent", k)
            if not nonpure(st):
                c.viol(k + ":pure", w, "%s can be called free of side effects (%s)" % (k, show(st)))
        if k in FUNC_INHERENT and fs is not None and not nonpure(fs):
            c.viol(k + ":func", w, "a function that executes %s can be called pure" % k)
        if k in ("CallInstr", "PipelineFlow"):
            calls(c, k, w, s, st, fs)
        if k in ("CustomFlow", "CustomInstr"):
            if not any("getSideEffectStatus" in n for n in names(st)) and not nonpure(st):
                c.viol(k + ":custom", w, "the status reported by the custom construct is ignored")
            if fs is not None and not any("getSideEffectStatus" in n and "False" in n for n in names(fs)) and "UNKNOWN" not in names(fs):
                c.viol(k + ":customfunc", w, "the non-local status reported by the custom construct is ignored")
        if k in ("ExternalFunc", "LLVMFunc") and names(st) == {"PURE"}:
            c.viol(k + ":pure", w, "a function without a body is called pure whatever its attributes are")
        if k in ASSIGNED:
            assigned(c, P, k, w, s, st, fs)
        for l in leaf:
            t = V(("src", "v", l))
            if k in ("CallInstr",) and l == ("func",) or k == "PipelineFlow" and l[-1] == "callee":
                if bounds(st, op("st", t), s) or bounds(st, op("st", op("getFunc", t)), s):
                    handled.add(l)
                continue
            done = any(e[0] == "process" and e[1] == t for e in s.trace)
            if done:
                handled.add(l)
                if not bounds(st, op("st", t), s):
                    c.viol("%s:%s" % (k, ".".join(l)), w,
                           "the status recorded for %s is not an upper bound of the status of its %s" % (k, ".".join(l)))
            elif not absent(s, t, l) and "UNKNOWN" not in names(st):
                c.viol("%s:%s" % (k, ".".join(l)), w, "%s is evaluated but its %s does not contribute to its status" % (k, ".".join(l)))
            elif "UNKNOWN" in names(st):
                handled.add(l)
    for l in leaf:
        c.ok("operand", "%s.%s" % (k, ".".join(l)))
        if l not in handled and not schedule_leaf(l):
            c.viol("%s:%s" % (k, ".".join(l)), w, "%s is evaluated but its %s does not contribute to its status" % (k, ".".join(l)))
    sched = [l for l in leaf if schedule_leaf(l)]
    if sched:
        ok = False
        for s in paths:
            for e in s.trace:
                if e[0] == "process" and "schedule" in show(e[1]):
                    ok = True
                    sets = [x for x in s.trace if x[0] == "set" and x[1][0] == v]
                    if sets and not bounds(sets[-1][1][1], op("st", e[1]), s):
                        c.viol(k + ":schedule", w, "the status of %s is not an upper bound of those of its schedule's values" % k)
        if not ok:
            c.viol(k + ":schedule", w, "the values of the schedule of %s do not contribute to its status" % k)


def schedule_leaf(l):
    return "schedule" in l[0].lower()


def absent(s, t, l):
    if schedule_leaf(l):
        return True
    for a, p in s.conds():
        if a[0] == "nz" and a[1] == t and not p:
            return True
    # inside a container: the loop over it may not have been entered on this path
    return "[]" in l


def calls(c, k, w, s, st, fs):
    known = [(a[1], p) for a, p in s.conds() if a[0] == "nz" and len(a[1]) == 1 and next(iter(a[1]))[0] == "op"
             and next(iter(a[1]))[1] == "getFunc"]
    for t, p in known:
        c.ok("call", "%s %s" % (k, "known" if p else "unknown"))
        for what, val in (("status", st), ("function status", fs)):
            if val is None:
                continue
            if p and not bounds(val, op("st", t), s):
                c.viol("%s:callee:%s" % (k, what), w, "the %s does not include that of the called function" % what)
            if not p and not "UNKNOWN" in names(val):
                c.viol("%s:unknown:%s" % (k, what), w, "the %s of a call to an unknown function is %s" % (what, show(val)))
    if not known and "UNKNOWN" not in names(st):
        c.viol(k + ":callee", w, "the called function is not looked at")


def facts_of(s):
    G = X = F = U = None
    for a, p in s.conds():
        t = str(a)
        if a[0] == "nz" and len(a[1]) == 1:
            x = next(iter(a[1]))
            if x[0] == "op" and x[1] == "isGlobal":
                G = p
                continue
            if x[0] == "op" and x[1] == "isExternal":
                X = p
                continue
            if x[0] == "src" and x[2] and x[2][-1] == "globalAssignmentHasSideEffects":
                F = p
                continue
            if x[0] == "src" and "[]" in x[2] and x[2][-1] == "second" and ("varCounts" in x[2] or "varAssignCounts" in x[2]):
                U = p
                continue
        if a[0] == "eq" and ("varCounts" in t and "varAssignCounts" in t):
            U = not p
    nf = [("varCounts" in str(a), p) for a, p in s.conds() if "'found'" in str(a) and ("varCounts" in str(a) or "varAssignCounts" in str(a))]
    if U is None and len(nf) >= 2 and not any(p for _, p in nf):
        U = False
    return G, X, F, U


def assigned(c, P, k, w, s, st, fs):
    """a status without the effect of the assignment is recorded only for an unused variable that nobody else sees"""
    if any("status" in n.lower() and "vas" in n for n in names(st)):
        return
    var = V(("src", "v", ASSIGNED[k]))
    for a, p in s.conds():
        if a[0] == "nz" and a[1] == var and not p:
            return      # no variable
    G, X, F, U = facts_of(s)
    c.ok("assigned", k)
    if not nonpure(st):
        if U is not False:
            c.viol(k + ":used", w, "an assignment to a variable that is read elsewhere can be free of side effects")
        elif G is not False and not (F is False and X is False):
            c.viol(k + ":global", w, "an assignment to a global variable can be free of side effects although other code may see it")
    if fs is not None and not nonpure(fs) and G is not False:
        if not (U is False and F is False and X is False):
            c.viol(k + ":func", w, "a function that assigns a global variable can be called pure")


def bodied(c, P, ai, f, paths):
    w = f.where
    for s in paths:
        seq = [e for e in s.trace if e[0] in ("set", "process")]
        sets = [e for e in seq if e[0] == "set" and e[1][0] == src("v")]
        forced = [a for a, p in s.conds() if p and "attr" in str(a)]
        c.ok("function", "path of visit(BodiedFunc)")
        pi = [i for i, e in enumerate(seq) if e[0] == "process"]
        if not sets:
            c.viol("BodiedFunc:record", w, "no status is recorded for the function")
            continue
        if not pi:
            if not forced:
                c.viol("BodiedFunc:body", w, "the body of the function is not analysed")
            continue
        before = [e for e in seq[:pi[0]] if e[0] == "set"]
        if not before:
            c.viol("BodiedFunc:recursion", w, "the body is analysed before a status is recorded: a recursive call does not end")
        elif not forced and not nonpure(before[0][1][1]):
            c.viol("BodiedFunc:optimistic", w, "during the analysis of a recursive function its calls to itself count as %s" % show(before[0][1][1]))
        if not forced:
            last = sets[-1][1][1]
            if not any("acc(" in n for n in names(last)) and "UNKNOWN" not in names(last):
                c.viol("BodiedFunc:effects", w, "the recorded status ignores what the body does (%s)" % show(last))
        end = ai.getf(s, src("this"), "funcStatus")
        if "this.funcStatus" not in show(end):
            c.viol("BodiedFunc:restore", w, "the effects of the function that contains this one are forgotten (%s)" % show(end)[:80])


def join(c, P, se):
    fs = [f for f in P.funcs.values() if f["n"] == "max" and f.get("body") and f["file"].endswith("side_effect.cpp")
          and len(f["params"]) >= 2]
    for f in fs:
        class JC(IRClient):
            def should_inline(self, t, f2, o, vs):
                return f2["n"] in ("max", "forward")
        cl = JC({})
        cl.P = P
        ai = AI(P, cl)
        ps = [src("p%d" % i) for i in range(len(f["params"]))]
        for s, v in ai.run(f, State(), None, ps):
            if v is THROWN:
                continue
            c.ok("join", "max of %d" % len(ps))
            # the returned parameter is never smaller than another one on this path
            a = next(iter(v)) if len(v) == 1 else None
            if not a or a[0] != "src":
                continue
            for cond, p in s.conds():
                if cond[0] != "nz" or len(cond[1]) != 1:
                    continue
                t = next(iter(cond[1]))
                if t[0] == "op" and t[1] in (">", "<", ">=", "<=") and v in t[2]:
                    left = t[2][0] == v
                    bigger = (t[1] in (">", ">=")) == left
                    if bigger != p:
                        c.viol("join", f.where, "the join of two statuses returns the smaller one")


def record(c, P, se):
    for f in P.funcs.values():
        if f.get("cls") != se or not f.get("body"):
            continue
        if f["n"] == "set" and len(f["params"]) == 3:
            cl = SEClient({}, se, True)
            cl.P = P
            ai = AI(P, cl)
            for s, v in ai.run(f, State(), src("this"), [src("n"), src("e"), src("f")]):
                c.ok("record")
                r = s.heap.get(("src", "this", ("result",)), {})
                vals = [x for x in r.values() if isinstance(x, frozenset)]
                if vals and not any(bounds(x, src("e")) for x in vals):
                    c.viol("record:expr", f.where, "the recorded status is not the computed one")
                fsv = ai.getf(s, src("this"), "funcStatus")
                if not bounds(fsv, src("f")):
                    c.viol("record:func", f.where, "the effect on the enclosing function is not accumulated")
                if not bounds(fsv, src("this", "funcStatus")):
                    c.viol("record:func", f.where, "the effects found earlier in the function are forgotten")


def zero_status(v):
    """falsity of the term says that the recorded status is PURE"""
    if len(v) != 1:
        return False
    a = next(iter(v))
    if a[0] == "src":
        return "result" in a[2]
    if a[0] == "op" and a[1] in (">", "!=") and len(a[2]) == 2:
        return show(a[2][1]) in ("PURE", "0") and "result" in show(a[2][0])
    return False


def query(c, P):
    fs = [f for f in P.fn("codon::ir::analyze::module::SideEffectResult::hasSideEffect") if f.get("body")]
    if not fs:
        raise AnalysisBroken("hasSideEffect not found")
    f = fs[0]
    cl = IRClient({})
    cl.P = P
    ai = AI(P, cl)
    for s, v in ai.run(f, State(), src("this"), [src("v")]):
        if v is THROWN:
            continue
        found = None
        for a, p in s.conds():
            if "'found'" in str(a) and "result" in str(a):
                found = p
        c.ok("query", "hasSideEffect: %s => %s" % (found, show(v)))
        if found is False and v != TRUE:
            c.viol("query:missing", f.where, "a value the analysis has not seen is called free of side effects")
        if found is True:
            for s2, val in ((ai.assume(s, v, False), False),):
                if s2 is None:
                    continue
                pure = any(a[0] == "eq" and p and "PURE" in show_pc(((a, p),)) for a, p in s2.conds()) or \
                    any(a[0] == "nz" and not p and zero_status(a[1]) for a, p in s2.conds())
                if not pure:
                    c.viol("query:status", f.where, "a value is called free of side effects without its status being PURE")


def attributes(c, P, se):
    fs = [f for f in P.funcs.values() if f.get("cls") == se and f["n"] == "getFunctionStatusFromAttributes" and f.get("body")]
    if not fs:
        return
    f = fs[0]
    order = {"PURE": ("PURE_ATTR", "pure"), "NO_SIDE_EFFECT": ("NO_SIDE_EFFECT_ATTR",), "NO_CAPTURE": ("NO_CAPTURE_ATTR",)}
    cl = SEClient({}, se, True)
    cl.P = P
    ai = AI(P, cl)
    args = [src(p["n"]) for p in f["params"]]
    for s, v in ai.run(f, State(), None, args):
        if v is THROWN or len(v) != 1:
            continue
        c.ok("attribute", show(v))
        pos = [show_pc(((a, p),)) for a, p in s.conds() if p and a[0] == "nz" and "attr(" in show_pc(((a, p),))]
        allowed = {"PURE": ("::PURE_ATTR", ), "NO_SIDE_EFFECT": ("::PURE_ATTR", "::NO_SIDE_EFFECT_ATTR"),
                   "NO_CAPTURE": ("::PURE_ATTR", "::NO_SIDE_EFFECT_ATTR", "::NO_CAPTURE_ATTR")}.get(show(v))
        if allowed and not any(x in p for p in pos for x in allowed):
            c.viol("attribute:" + show(v), f.where, "a function without the attribute is taken to be %s" % show(v))


def counters(c, P):
    """uses and assignments of a variable are counted separately"""
    vu = [r for r in P.records if r.endswith("::VarUseAnalyzer")]
    if not vu:
        return
    for f in P.funcs.values():
        if f.get("cls") != vu[0] or not f.get("body") or f["n"] not in ("preHook", "handle"):
            continue
        cls = strip_t(f["T"][f["params"][0]["t"]]).rstrip("*").strip()

        class UC(IRClient):
            def should_inline(self, t, f2, o, vs):
                return f2["n"] not in ("getUsedVariables", "getId")
        cl = UC({"v": cls})
        cl.P = P
        ai = AI(P, cl)
        for s, v in ai.run(f, State(), src("this"), [src("v")]):
            hit = {k[2][0] for k, h in s.heap.items() if k[0] == "src" and k[1] == "this" and k[2] and h}
            c.ok("count", "%s(%s) counts %s" % (f["n"], short(cls), sorted(hit)))
            if f["n"] == "handle" and short(cls) == "AssignInstr" and "varCounts" in hit:
                c.viol("count:assign", f.where, "an assignment is counted as a use twice or not as an assignment")
            if f["n"] == "preHook" and "varAssignCounts" in hit:
                c.viol("count:use", f.where, "a use is counted as an assignment")
            if f["n"] == "handle" and short(cls) != "AssignInstr" and "varAssignCounts" in hit:
                c.viol("count:" + short(cls), f.where, "%s is counted as an assignment" % short(cls))

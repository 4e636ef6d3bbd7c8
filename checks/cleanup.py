"""Clean-up passes: what dead-code elimination, constant propagation and global demotion remove or replace is dead."""
from absint import *
from checklib import Check
from facts import AnalysisBroken
from folding import Path, dnf, sole, num
from irmodel import IRClient, strip_t

T = "codon/cir/transform/"
DCE = "codon::ir::transform::cleanup::DeadCodeCleanupPass"
CP = "codon::ir::transform::folding::ConstPropPass"
GD = "codon::ir::transform::cleanup::GlobalDemotionPass"
FILES = [T + "cleanup/dead_code.cpp", T + "folding/const_prop.cpp", T + "cleanup/global_demote.cpp",
         "codon/cir/analyze/module/global_vars.cpp"]
SYM = ("getSrcInfo", "getType", "getId", "getParentType", "getFunc", "getParentFunc", "getUnmangledName", "hasSideEffect",
       "getReachingDefinitions", "known", "getMemberIndex", "isGlobal", "isThreadLocal", "isExternal", "getMainFunc",
       "getArgVar", "getValue", "getName", "getUsedVariables", "getModule")
SERIES = "codon::ir::SeriesFlow"
v = src("v")


class CleanClient(IRClient):
    generic = False

    def should_inline(self, t, f, o, vs):
        if f["n"] in ("getFunc",):
            return False
        return t.get("cls") != "codon::ir::Module"

    def typed_leaf(self, x, cls):
        return all(a[0] == "src" and a[1] == "v" and a[2] and a[2][-1] in ("trueBranch", "falseBranch") for a in x)

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm = f["n"]
        if nm in SYM:
            return [(st, op(nm, *([o] if o is not None else []), *vs))]
        if nm == "getAnalysisResult":
            return [(st, src("R", f["targs"][0].split("::")[-1]))]
        if nm == "clone":
            return [(st, op("clone", vs[0]))]
        if nm == "accept" and vs:
            st = st.copy()
            for a in vs[0]:
                ai.addelt(st, ai.getf(st, V(a), "vars") or V(a), src("used"))
            st.trace += (("collect", o),)
            return [(st, VOID)]
        if nm == "find" and self.generic and o is not None and all(a[0] == "new" for a in o) and is_map(next(iter(o))[2]) and \
                not st.heap.get(next(iter(o)), {}).get("[]"):
            it = V(("it", o, "found", vs[0]))
            out = []
            for pol in (True, False):
                s2 = ai.assume(st, op("found", it), pol)
                if s2 is None:
                    continue
                s2 = s2.copy()
                if pol:
                    p = ai.new_obj(s2, "std::pair<>")
                    s2.heap[p]["first"] = vs[0]
                    s2.heap[p]["second"] = src("prev")
                    ai.addelt(s2, o, V(p))
                out.append((s2, it))
            return out
        if nm in ("N", "Nr") and f.get("cls") == "codon::ir::Module":
            return [(st, op("N", V(("str", f["targs"][0])), *vs))]
        if nm in ("replaceAll", "erase", "setGlobal", "push_back", "insert") and (f.get("cls") or "").startswith("codon::ir"):
            st = st.copy()
            st.trace += (("do", nm, o, tuple(vs), st.conds()),)
            return [(st, op(nm, o, *vs))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def handlers(P, cls_suffix):
    out = []
    for f in P.funcs.values():
        if f.get("body") and f["n"] == "handle" and (f.get("cls") or "").endswith(cls_suffix) and f["params"]:
            out.append((strip_t(f["T"][f["params"][0]["t"]]).rstrip("*").strip(), f))
    return out


def runh(P, f, cls, roots=None):
    r = {"v": cls}
    cl = CleanClient(r)
    cl.P = P
    ai = AI(P, cl)
    return ai, [s for s, x in ai.run(f, State(), src("this"), [v]) if x is not THROWN]


def run():
    c = Check("C10", "every removal and replacement made by the clean-up passes, with the path condition under which it is made: "
                     "the condition implies that the construct removed is dead or has that constant value")
    P = c.load(FILES)
    dead = dict(handlers(P, "::DeadCodeCleanupPass"))
    if not dead:
        raise AnalysisBroken("dead-code elimination not found")
    for cls, f in dead.items():
        dce(c, P, f, cls)
    hs = dict(handlers(P, "::ConstPropPass"))
    if not hs:
        raise AnalysisBroken("constant propagation not found")
    for cls, f in hs.items():
        constprop(c, P, f, cls)
    gvars(c, P)
    demotion(c, P)
    c.floor("removal", 1)
    c.floor("branch", 5)
    c.floor("propagation", 2)
    c.floor("global", 2)
    return c


def deref(x):
    """the element an iterator designates"""
    a = sole(x)
    if a and a[0] == "it":
        return a[1], a[2] if len(a) > 2 else None
    return None


def const_of(path, x):
    return [k for k in path.cls.get(x, ()) if k.startswith("codon::ir::TemplatedConst<") or k.endswith("::Const")]


def empty_series(a):
    return bool(a and a[0] == "op" and a[1] == "N" and sole(a[2]) == ("str", SERIES) and
                all(y in (NULL, VOID) or (sole(y) or ("",))[0] in ("str", "op", "new", "undef") for y in a[3:]))


def unclone(x):
    a = sole(x)
    return a[2] if a and a[0] == "op" and a[1] == "clone" else x


def fld(P, cls, *names):
    return src("v", *names)


def dce(c, P, f, cls):
    k = cls.split("::")[-1]
    w = f.where
    ai, paths = runh(P, f, cls)
    for s in paths:
        for e in s.trace:
            if e[0] != "do":
                continue
            _, nm, o, vs, conds = e
            if nm == "erase" and o == v:
                c.ok("removal", k)
                it = deref(vs[0])
                el = src("v", "series", "[]")
                pure = any(a[0] == "nz" and not p and (sole(a[1]) or ("", ""))[:2] == ("op", "hasSideEffect") and
                           (sole(a[1])[-1] == el or sole(a[1])[-1] == vs[0] or deref(sole(a[1])[-1]) == it) for a, p in conds)
                if not pure:
                    c.viol(k + ":erase", w, "removes a statement on a path that does not establish that it has no side effect")
            if nm == "replaceAll" and o == v:
                for cj in dnf(conds):
                    judge(c, k, w, Path(cj), cj, vs[0])


def judge(c, k, w, path, cj, rep):
    a = sole(rep)
    x = unclone(rep)
    cond, cv = src("v", "cond"), src("v", "cond", "val")
    if k in ("IfFlow", "TernaryInstr", "WhileFlow"):
        c.ok("branch", k)
        if not any(t.endswith("TemplatedConst<bool>") for t in path.cls.get(cond, ())):
            return c.viol(k + ":cond", w, "replaced although the condition is not known to be a Boolean constant")
        val = None
        for t, p in cj:
            if t == ("nz", cv):
                val = p
            if t[0] == "eq" and cv in t[1:] and sole(t[2] if t[1] == cv else t[1]) in (("bool", True), ("bool", False)):
                val = sole(t[2] if t[1] == cv else t[1])[1] == p
        if val is None:
            return c.viol(k + ":value", w, "replaced without examining the value of the constant condition")
        if k == "WhileFlow":
            if val:
                c.viol(k + ":true", w, "a loop whose condition is true is removed")
            elif x == src("v", "body"):
                c.viol(k + ":body", w, "a loop that never runs is replaced by its body")
            return
        t, e = (src("v", "trueBranch"), src("v", "falseBranch")) if k == "IfFlow" else (src("v", "trueValue"), src("v", "falseValue"))
        want, other = (t, e) if val else (e, t)
        if x == other or x == cond:
            return c.viol("%s:%s" % (k, "true" if val else "false"), w, "a constantly %s condition selects the %s" % (
                "true" if val else "false", "false branch" if val else "true branch"))
        if empty_series(a):
            gone = any(tt == ("nz", want) and not p for tt, p in cj)
            if not gone:
                c.viol("%s:%s:empty" % (k, "true" if val else "false"), w,
                       "a constantly %s condition drops the branch that would run" % ("true" if val else "false"))
        if x == NULL or x == want and any(tt == ("nz", want) and not p for tt, p in cj):
            if k == "IfFlow" and not val:
                c.viol(k + ":missing", w, "a constantly false condition without else branch is replaced by nothing")
    elif k in ("ImperativeForFlow",):
        c.ok("branch", k)
        S, E, D = src("v", "start", "val"), src("v", "end", "val"), src("v", "step")
        for x0 in ("start", "end"):
            if not any(t.endswith("TemplatedConst<long>") for t in path.cls.get(src("v", x0), ())):
                return c.viol(k + ":bounds", w, "removed although the %s is not known to be an integer constant" % x0)
        for d in (-100, -3, -2, -1, 1, 2, 3, 100):
            for a0 in (-2, -1, 0, 1, 2):
                for b0 in (-2, -1, 0, 1, 2):
                    env = {S: a0, E: b0, D: d}
                    ok = True
                    for t, p in cj:
                        r = evalc(t, env)
                        if r == "skip":
                            continue
                        if r is None:
                            return      # a condition over the bounds that is not a comparison
                        if r != p:
                            ok = False
                            break
                    if ok and ((d > 0 and a0 < b0) or (d < 0 and a0 > b0)):
                        c.viol("%s:%s" % (k, "up" if d > 0 else "down"), w,
                               "a loop from %d to %d by %d is removed" % (a0, b0, d))
                        return
    elif k in ("SeriesFlow",):
        return
    else:
        # other constructs may only be dropped when free of effects
        c.ok("branch", k)
        if empty_series(a) and not any(t[0] == "nz" and not p and "hasSideEffect" in show(t[1]) for t, p in cj):
            c.viol(k + ":drop", w, "dropped without establishing that it has no effect")


def evalc(t, env):
    """truth of a condition over the order of the loop's bounds; 'skip' when it is about something else"""
    def mentions(x):
        if x in env:
            return True
        a = sole(x)
        return bool(a and a[0] == "op" and any(mentions(y) for y in a[2:] if isinstance(y, frozenset)))

    def ev(x):
        if x in env:
            return env[x]
        n = num(x)
        if n is not None:
            return n
        a = sole(x)
        if not a or a[0] != "op":
            return None
        r = [ev(y) for y in a[2:]]
        if None in r:
            return None
        if len(r) == 1:
            return {"-": -r[0], "neg": -r[0], "u-": -r[0], "u+": r[0], "!": int(r[0] == 0)}.get(a[1])
        if len(r) != 2:
            return None
        x, y = r
        return {"<": int(x < y), ">": int(x > y), "<=": int(x <= y), ">=": int(x >= y), "==": int(x == y), "!=": int(x != y),
                "+": x + y, "-": x - y, "*": x * y, "&&": int(bool(x and y)), "||": int(bool(x or y)), "^": x ^ y,
                "/": int(x / y) if y else None}.get(a[1])
    if t[0] == "nz":
        if not mentions(t[1]):
            return "skip"
        r = ev(t[1])
        return None if r is None else r != 0
    if t[0] == "eq":
        if not mentions(t[1]) and not mentions(t[2]):
            return "skip"
        p, q = ev(t[1]), ev(t[2])
        return None if p is None or q is None else p == q
    return "skip"


def subterms(x, acc=None):
    acc = [] if acc is None else acc
    for a in x:
        acc.append(a)
        if a[0] == "op":
            for y in a[2]:
                if isinstance(y, frozenset):
                    subterms(y, acc)
        elif a[0] == "it":
            for y in a[1:]:
                if isinstance(y, frozenset):
                    subterms(y, acc)
    return acc


def found_keys(cj, cont_suffix):
    """keys established to be present in a container"""
    out = []
    for t, p in cj:
        if not p or t[0] != "nz":
            continue
        for a in subterms(t[1]):
            if a[0] == "it" and len(a) > 3 and a[2] == "found" and any(
                    b[0] == "src" and b[2] and b[2][-1] == cont_suffix for b in a[1]):
                out.append(a[3])
            if a[0] == "op" and a[1] == "contains" and any(b[0] == "src" and b[2] and b[2][-1] == cont_suffix for b in a[2][0]):
                out.append(a[2][1])
    return out


def constprop(c, P, f, cls):
    k = cls.split("::")[-1]
    w = f.where
    ai, paths = runh(P, f, cls)
    for s in paths:
        for e in s.trace:
            if e[0] != "do" or e[1] != "replaceAll":
                continue
            _, nm, o, vs, conds = e
            if o != v:
                c.viol(k + ":target", w, "replaces something other than the value it was called for")
                continue
            x = unclone(vs[0])
            for cj in dnf(conds):
                path = Path(cj)
                c.ok("propagation", "%s => %s" % (k, show(x)[-60:]))
                if not const_of(path, x):
                    c.viol(k + ":const", w, "propagates a value not established to be a constant")
                    continue
                if k == "VarValue":
                    var = src("v", "val")
                    prov(c, k, w, path, cj, x, var)
                elif k == "ExtractInstr":
                    var = src("v", "val", "val")
                    extract(c, k, w, path, cj, x, var)


def defs_of(x):
    """the reaching-definition sets a propagated term was taken from"""
    return [a for a in subterms(x) if a[0] == "op" and a[1] == "getReachingDefinitions"]


def single_known(c, k, w, cj, x, var):
    ds = defs_of(x)
    if not ds:
        return
    d = ds[0]
    if d[2][-2:] != (var, v):
        c.viol(k + ":defs", w, "uses the definitions reaching %s at %s" % (show(d[2][-2]), show(d[2][-1])))
    D = V(d)
    one = False
    for t, p in cj:
        if t[0] == "eq" and p and op("size", D) in t[1:] and INT(1) in t[1:]:
            one = True
        if t[0] == "nz" and p is False and sole(t[1]) and sole(t[1])[0] == "op" and sole(t[1])[1] == ">" and \
                sole(t[1])[2] == op("size", D) and num(sole(t[1])[3]) == 1:
            one = True
    if not one:
        c.viol(k + ":single", w, "propagates a definition without establishing that it is the only one reaching the use")
    kn = any(t[0] == "nz" and p and (sole(t[1]) or ("", ""))[:2] == ("op", "known") and any(a == d for a in subterms(t[1]))
             for t, p in cj)
    if not kn:
        c.viol(k + ":known", w, "propagates a definition whose value is not established to be known")


def tested(cj, fn, var):
    for t, p in cj:
        if t == ("nz", op(fn, var)):
            return p
    return None


def prov(c, k, w, path, cj, x, var):
    if tested(cj, "isThreadLocal", var) is not False and not defs_of(x):
        c.viol(k + ":thread-local", w, "propagates into a variable that may be thread-local")
    if defs_of(x):
        c.ok("definition", k)
        return single_known(c, k, w, cj, x, var)
    a = sole(x)
    if a and a[0] == "op" and a[1] == "getValue":
        c.ok("definition", k + " (global)")
        keys = found_keys(cj, "assignments")
        if not keys or any(y != op("getId", var) for y in keys):
            c.viol(k + ":global", w, "propagates the assignment recorded for another variable")
        ids = [b for b in subterms(x) if b[0] == "src" and b[1] == "R"]
        if ids and not all(b[2][-1] == "second" for b in ids):
            c.viol(k + ":global-value", w, "propagates something other than the value recorded for the variable")
    elif x != v and a and a[0] == "src":
        c.viol(k + ":source", w, "propagates %s, which is no definition of the variable" % show(x))


def extract(c, k, w, path, cj, x, var):
    c.ok("definition", k)
    single_known(c, k, w, cj, x, var)
    txt = [show(t[1]) if t[0] == "nz" else show(t[1]) + "==" + show(t[2]) for t, p in cj if t[0] in ("nz", "eq")]
    if tested(cj, "isGlobal", var) is not False and not defs_of(x):
        c.viol(k + ":global", w, "propagates a field of a global variable")
    new = tup = False
    for t, p in cj:
        if t[0] == "eq" and p:
            z = show(t[1]) + show(t[2])
            if "getUnmangledName" in z:
                new = new or "NEW_MAGIC" in z or "__new__" in z
            if "getName" in z and "Tuple" in z:
                tup = True
    if not new:
        c.viol(k + ":new", w, "reads a field from a call not established to construct the record")
    if not tup:
        c.viol(k + ":tuple", w, "reads a field from the constructor of a type not established to be a tuple")
    # the argument taken is the one of the field
    idx = [b for b in subterms(x) if b[0] == "op" and b[1].startswith(".[")]
    keys = [b for b in subterms(x) if b[0] == "op" and b[1] == "getMemberIndex"]
    lo = hi = False
    for t, p in cj:
        z = sole(t[1]) if t[0] == "nz" else None
        if z and z[0] == "op" and "getMemberIndex" in show(t[1]):
            if z[1] in ("<", "<=", ">", ">=") and num(z[3]) is not None or z[1] in ("<", "<=", ">", ">=") and num(z[2]) is not None:
                lo = True
            elif z[1] in ("<", ">=", ">", "<="):
                l, r = z[2], z[3]
                n, i = ("size" in show(r) or "numArgs" in show(r)), "getMemberIndex" in show(l)
                if n and i and (z[1] == "<" and p or z[1] == ">=" and not p):
                    hi = True
                n2, i2 = ("size" in show(l) or "numArgs" in show(l)), "getMemberIndex" in show(r)
                if n2 and i2 and (z[1] == ">" and p or z[1] == "<=" and not p):
                    hi = True
    if not lo:
        c.viol(k + ":lower", w, "does not exclude a negative field index")
    if not hi:
        c.viol(k + ":upper", w, "does not exclude a field index beyond the arguments of the constructor")


def gvars(c, P):
    hs = dict(handlers(P, "::GlobalVarAnalyzer"))
    if not hs:
        raise AnalysisBroken("global variable analysis not found")
    amap = ("src", "this", ("assignments",))
    VARS = {"PointerValue": ("val",), "AssignInstr": ("lhs",), "ForFlow": ("var",), "ImperativeForFlow": ("var",),
            "TryCatchFlow": ("catches", "[]", "catchVar")}
    for k, p in VARS.items():
        cls = "codon::ir::" + k
        c.ok("global", k)
        if cls not in hs:
            c.viol("globals:" + k, "codon/cir/analyze/module/global_vars.cpp:1",
                   "a global variable that %s is not recorded as changed" % {
                       "PointerValue": "has its address taken", "AssignInstr": "is assigned"}.get(k, "is the variable of a " + k))
            continue
        f = hs[cls]
        w = f.where
        var = src("v", *p)
        ai, paths = runh(P, f, cls)
        seen = False
        for s in paths:
            if tested(s.conds(), "isGlobal", var) is not True:
                continue
            seen = True
            h = s.heap.get(amap, {})
            ent = {kk: vv for kk, vv in h.items() if kk == "[k]" or kk.startswith("[")}
            if not ent:
                c.viol("globals:%s:record" % k, w, "a path leaves the global unrecorded")
                continue
            vals = frozenset().union(*[x for kk, x in ent.items() if kk != "[]"]) if ent else VOID
            if not vals:
                continue
            if k == "AssignInstr":
                known = found_keys([(t, True) for t, pp in s.conds() if t[0] == "nz"], "assignments")
                pol = [pp for t, pp in s.conds() if t[0] == "nz" and ("found" in show(t[1]) or "contains" in show(t[1]))]
                if vals == V(("int", -1)):
                    continue
                if not known or pol[0]:
                    c.viol("globals:AssignInstr:second", w, "a second assignment of a global is recorded as its only one")
                if vals != op("getId", src("v", "rhs")):
                    c.viol("globals:AssignInstr:value", w, "records %s for the assigned global" % show(vals))
            elif vals != V(("int", -1)):
                c.viol("globals:%s:value" % k, w, "a global changed by %s keeps a propagatable value" % k)
        if not seen:
            c.viol("globals:%s:never" % k, w, "never records a global variable")


def demotion(c, P):
    fn = [f for f in P.fn(GD + "::run") if f.get("body")]
    if not fn:
        raise AnalysisBroken("global demotion not found")
    f = fn[0]
    w = f.where
    c.visits_all = (GD + "::run", "GetUsedGlobals::preHook")
    # which variables count as used
    use = [g for g in P.funcs.values() if g.get("body") and g["n"] == "preHook" and
           g["file"].endswith("global_demote.cpp")] if "file" in f else []
    fname = w.split(":")[0]
    use = [g for g in P.funcs.values() if g.get("body") and g["n"] == "preHook" and g.where.split(":")[0] == fname]
    for g in use:
        cl = CleanClient({})
        cl.P = P
        ai = AI(P, cl)
        for s, r in ai.run(g, State(), src("this"), [v]):
            if r is THROWN:
                continue
            el = None
            added = s.heap.get(("src", "this", ("vars",)), {}).get("[]", VOID)
            el = [a for a in added if "getUsedVariables" in show(V(a))]
            c.ok("demotion", "variables collected")
            for conds in dnf(s.conds()):
                if not any("getUsedVariables" in show(t[1]) for t, p in conds if t[0] == "nz"):
                    continue
                if el:
                    x = V(el[0])
                    if tested(conds, "isThreadLocal", x) is not False:
                        c.viol("demote:thread-local", g.where, "a thread-local variable may be demoted to a local")
                    continue
                # not collected: only for a reason that makes the variable ineligible
                exc = [t for t, p in conds if t[0] == "nz" and (sole(t[1]) or ("", ""))[0] == "op" and (
                    sole(t[1])[1] == "isGlobal" and not p or sole(t[1])[1] == "isThreadLocal" and p or
                    sole(t[1])[1] == "isa" and p and "getUsedVariables" in show(t[1]))]
                if not exc:
                    c.viol("demote:uncounted", g.where, "a use of a global variable is not counted")
    cl = CleanClient({"v": "codon::ir::Module"})
    cl.P = P
    cl.generic = True
    ai = AI(P, cl)
    ncol = set()
    for s, r in ai.run(f, State(), src("this"), [v]):
        if r is THROWN:
            continue
        for e in s.trace:
            if e[0] == "collect":
                ncol |= set(e[1])
            if e[0] == "do" and e[1] == "setGlobal":
                c.ok("demotion", "setGlobal")
                x, conds = e[2], e[4]
                if tested(conds, "isExternal", x) is not False:
                    c.viol("demote:external", w, "an external variable may be demoted")
                if not any(t[0] == "eq" and not p and "getArgVar" in show(t[1]) + show(t[2]) for t, p in conds):
                    c.viol("demote:argv", w, "the argument variable may be demoted")
                for cj in dnf(conds):
                    if ((("nz", src("prev")), True) in cj) and ((("nz", src("prev")), False) in cj):
                        continue
                    again = any(p and t[0] == "nz" and (sole(t[1]) or ("", ""))[1] == "found" for t, p in cj)
                    same = any(p and t[0] == "eq" and src("prev") in t[1:] for t, p in cj)
                    if again and not same:
                        c.viol("demote:shared", w, "a global used by more than one function may be demoted to a local of one of them")
    # the main function is not among the module's variables
    if ncol and not any("getMainFunc" in show(V(a)) for a in ncol):
        c.viol("demote:main", w, "the uses of globals in the main function are not counted")
    if ncol and not any("vars" in show(V(a)) for a in ncol):
        c.viol("demote:functions", w, "the uses of globals in the functions of the module are not counted")

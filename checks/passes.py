"""The pass manager and its standard pipelines: analyses are fresh, complete and of the type a pass expects."""
from absint import *
from checklib import Check
from facts import AnalysisBroken, walk

PM = "codon::ir::transform::PassManager"
T = "codon/cir/transform/"
FILES = [T + x for x in (
    "manager.cpp", "pass.cpp", "folding/folding.cpp", "folding/const_fold.cpp", "folding/const_prop.cpp",
    "cleanup/canonical.cpp", "cleanup/dead_code.cpp", "cleanup/global_demote.cpp", "numpy/indexing.cpp",
    "numpy/numpy.cpp", "lowering/await.cpp", "lowering/async_for.cpp", "lowering/pipeline.cpp",
    "lowering/imperative.cpp", "parallel/openmp.cpp")] + ["codon/cir/analyze/" + x for x in (
    "analysis.cpp", "dataflow/capture.cpp", "dataflow/cfg.cpp", "dataflow/dominator.cpp", "dataflow/reaching.cpp",
    "module/global_vars.cpp", "module/side_effect.cpp")] + ["codon/cir/llvm/llvisitor.cpp"]


class RegClient(Client):
    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if f["n"] in ("registerPass", "registerAnalysis") and f.get("cls") == PM:
            st = st.copy()
            k = V(("key", len(st.trace)))
            st.trace += ((f["n"], tuple(vs), k),)
            return [(st, k)]


class RunClient(Client):
    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if "Timer" in f.get("cls", "") or "Timer" in f["qn"]:
            return [(st, VOID)]
        if f["n"] in ("runAnalysis", "invalidate", "runPass") or (
                f.get("cls", "").endswith(("::Pass", "::Analysis")) and f["n"] in ("run", "shouldRepeat", "setManager")):
            st = st.copy()
            st.trace += ((f["n"], o, tuple(vs)),)
            return [(st, op(f["n"], o if o is not None else VOID, *vs))]


class Shallow(Client):
    def should_inline(self, t, f, o, vs):
        return False


def strlist(st, v):
    """the elements of a braced list of strings"""
    out = []
    for a in v:
        h = st.heap.get(a, {})
        if "#list" in h:
            for e in h["#list"]:
                out += list(e)
        else:
            out += [x for x in h.get("[]", VOID)]
    return out


def reach(st, v):
    """objects reachable from a value"""
    seen, todo = set(), list(v)
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        for f, x in st.heap.get(a, {}).items():
            if isinstance(x, frozenset):
                todo += list(x)
            elif f == "#list":
                for e in x:
                    todo += list(e)
    return seen


def one(P, name):
    fs = [f for f in P.fn(PM + "::" + name) if f.get("body")]
    if len(fs) != 1:
        raise AnalysisBroken("pass manager: %d definitions of %s" % (len(fs), name))
    return fs[0]


def cls_of(st, v):
    c = [a[2] for a in v if a[0] == "new"]
    return c[0] if len(c) == 1 else None


def sh(c):
    return (c or "?").split("::")[-1]


def run():
    c = Check("C07", "every standard pipeline interpreted from its registration code and simulated; every path of the "
                     "manager's run and invalidate operations")
    P = c.load(FILES)
    fn = one(P, "registerStandardPasses")
    modes = [e for q, e in P.enums.items() if q == PM + "::Init"]
    if not modes:
        raise AnalysisBroken("pass manager: no Init enumeration")
    refused = refused_kinds(P)
    for e in modes[0]["e"]:
        ai = AI(P, RegClient())
        paths = [s for s, v in ai.run(fn, State(), src("this"), [INT(int(e["v"]))]) if v is not THROWN]
        if not paths:
            raise AnalysisBroken("pass manager: no path through the registration of mode " + e["n"])
        for s in paths:
            pipeline(c, P, fn, e["n"], s, refused)
    manager(c, P)
    groups(c, P)
    c.floor("pipeline", 20)
    c.floor("result-type", 8)
    c.floor("manager", 6)
    return c


def result_types(P, cls):
    """the dynamic type of the result an analysis class produces"""
    out = set()
    for b in [cls] + list(P.all_bases(cls)):
        for m in P.records.get(b, {}).get("methods", []):
            f = P.funcs.get(m["id"])
            if m["n"] == "run" and f and f.get("body"):
                for x in walk(f["body"]):
                    if x["k"] == "Call" and x.get("f") and x["f"]["n"] == "make_unique" and x["f"].get("targs"):
                        out.add(x["f"]["targs"][0])
                if out:
                    return out
    return out


def expected(P, cls):
    """field holding an analysis key -> result types the class casts it to (all methods of the class)"""
    out = {}
    for f in P.funcs.values():
        if f.get("cls") != cls or not f.get("body"):
            continue
        for x in walk(f["body"]):
            if x["k"] == "Call" and x.get("f") and x["f"]["n"] == "getAnalysisResult" and x["f"].get("targs"):
                for y in walk(x["a"]):
                    if y["k"] == "Mem" and y.get("o") is not None:
                        out.setdefault(y.get("n") or y.get("f"), []).append((x["f"]["targs"][0], f, x.get("l")))
                        break
    return out


def may_repeat(P, cls):
    for b in [cls] + list(P.all_bases(cls)):
        if b == "codon::ir::transform::Pass":
            return False
        for m in P.records.get(b, {}).get("methods", []):
            if m["n"] == "shouldRepeat":
                return True
    return False


def pipeline(c, P, fn, mode, s, refused):
    an, ps, order = {}, [], {}
    for i, t in enumerate(s.trace):
        if t[0] not in ("registerPass", "registerAnalysis"):
            continue
        cls = cls_of(s, t[1][0])
        if cls is None:
            raise AnalysisBroken("pass manager: a registered object of unknown class in mode " + mode)
        key = next(iter(t[2]))
        order[key] = i
        if t[0] == "registerAnalysis":
            an[key] = (cls, strlist(s, t[1][1]), t[1][0])
        else:
            before = t[1][1] if len(t[1]) > 1 else V(("str", ""))
            p = (cls, strlist(s, t[1][2]) if len(t[1]) > 2 else [], strlist(s, t[1][3]) if len(t[1]) > 3 else [],
                 t[1][0], key)
            at = [j for j, q in enumerate(ps) if q[4] in before]
            ps.insert(at[0], p) if at else ps.append(p)
    if mode == "EMPTY":
        return
    if not ps:
        c.viol("%s empty" % mode, fn.where, "the pipeline of this mode has no pass")
    dep = {}
    for k, (cls, reqs, obj) in an.items():
        for r in reqs:
            dep.setdefault(r, set()).add(k)

    def closure(ks, nxt):
        out, todo = set(), list(ks)
        while todo:
            k = todo.pop()
            if k not in out:
                out.add(k)
                todo += list(nxt(k))
        return out
    # what a pass or analysis reads must be required, and of the type it expects
    for cls, reqs, obj, who in [(a[0], a[1], a[2], "analysis") for a in an.values()] + [(p[0], p[1], p[3], "pass") for p in ps]:
        have = closure(reqs, lambda k: an[k][1] if k in an else [])
        for a in reach(s, obj):
            if a[0] != "new" or a not in s.heap:
                continue
            exp = expected(P, a[2])
            for fld, v in s.heap[a].items():
                if not isinstance(v, frozenset):
                    continue
                for k in v:
                    if k[0] != "key":
                        continue
                    c.ok("pipeline", "%s: %s has the analysis %s it reads" % (mode, sh(cls), sh(an.get(k, ("?",))[0])))
                    if k not in an:
                        c.viol("%s %s %s" % (mode, sh(cls), fld), fn.where, "reads a result under the key of something that is no analysis")
                        continue
                    if k not in have and exp.get(fld, True):
                        c.viol("%s %s %s missing" % (mode, sh(cls), sh(an[k][0])), fn.where,
                               "%s reads the result of %s, which is not among its required analyses" % (sh(cls), sh(an[k][0])))
                    rt = result_types(P, an[k][0])
                    for want, f, l in exp.get(fld, []):
                        c.ok("result-type", "%s: %s::%s is a %s" % (mode, sh(a[2]), fld, sh(want)))
                        if rt and not any(r == want or P.derives(r, want) for r in rt):
                            c.viol("%s %s %s type" % (mode, sh(a[2]), fld), "%s:%s" % (f["file"].replace("/repo/", ""), l),
                                   "reads the result of %s as a %s, but it is a %s" % (sh(an[k][0]), sh(want), ", ".join(map(sh, rt))))
        for r in reqs:
            if r[0] == "key" and r not in an:
                c.viol("%s %s requires" % (mode, sh(cls)), fn.where, "requires a key that is no analysis")
    # freshness: simulate the run; a retained result that an earlier pass may have made stale must not be read again
    fresh = {}      # analysis -> index of the state of the IR it describes
    ver = 0
    for cls, reqs, invs, obj, key in ps:
        for _ in range(2 if may_repeat(P, cls) else 1):
            for k in sorted(closure(reqs, lambda k: an[k][1] if k in an else []), key=str):
                if k not in an:
                    continue
                c.ok("pipeline", "%s: %s sees a fresh %s" % (mode, sh(cls), sh(an[k][0])))
                if k in fresh and fresh[k] != ver:
                    c.viol("%s %s stale %s" % (mode, sh(cls), sh(an[k][0])), fn.where,
                           "%s runs on the result of %s computed before an earlier pass changed the IR" % (sh(cls), sh(an[k][0])))
                fresh[k] = ver
            ver += 1
            for k in closure([i for i in invs if i in fresh], lambda k: dep.get(k, ())):
                fresh.pop(k, None)
    # constructs the code generator refuses must have been lowered
    handled = {}
    for i, p in enumerate(ps):
        for a in reach(s, p[3]):
            if a[0] == "new":
                for b in [a[2]]:
                    for m in P.records.get(b, {}).get("methods", []):
                        if m["n"] == "handle":
                            f = P.funcs.get(m["id"])
                            t = f["T"][f["params"][0]["t"]] if f and f["params"] else ""
                            handled.setdefault(t.replace(" *", ""), []).append(i)
    for k in refused:
        c.ok("lowered", "%s: %s is lowered before code generation" % (mode, sh(k)))
        if k not in handled:
            c.viol("%s %s not lowered" % (mode, sh(k)), fn.where,
                   "no pass of this mode lowers %s, which the code generator refuses" % sh(k))
    if mode == "JIT":
        c.ok("session", "JIT: no pass demotes globals")
        for p in ps:
            for a in reach(s, p[3]):
                if a[0] == "new" and sh(a[2]) == "GlobalDemotionPass":
                    c.viol("JIT demotes", fn.where, "globals are demoted although later input of the session can use them")


def refused_kinds(P):
    out = []
    for f in P.funcs.values():
        if f.get("cls", "").endswith("::LLVMVisitor") and f["n"] == "visit" and f.get("body"):
            k = f["T"][f["params"][0]["t"]].replace("const ", "").replace(" *", "")
            if len(f["body"].get("b", [])) > 4 or not P.derives(k, "codon::ir::Value"):
                continue
            rs = AI(P, Shallow()).run(f, State(), src("this"), [src("v")])
            if rs and all(v is THROWN for s, v in rs):
                out.append(k)
    return out


def elem_of(v, *path):
    return all(a[0] == "src" and a[1] == "this" and a[2][:len(path)] == path for a in v) and bool(v)


def manager(c, P):
    # run: every pass, in order, never left early
    fn = one(P, "run")
    for s, v in AI(P, RunClient()).run(fn, State(), src("this"), [src("m")]):
        c.ok("manager", "run executes every pass of the order")
        ev = [t for t in s.trace if t[0] == "runPass"]
        if any(t[0] == "break" for t in s.trace) or len(ev) != 1 or not elem_of(ev[0][2][1], "executionOrder"):
            c.viol("run", fn.where, "a path does not run every pass of the execution order")
    # runPass
    fn = one(P, "runPass")
    for s, v in AI(P, RunClient()).run(fn, State(), src("this"), [src("m"), src("name")]):
        if v is THROWN:
            continue
        ev = [t for t in s.trace if t[0] in ("runAnalysis", "run", "invalidate", "shouldRepeat", "break")]
        names = [t[0] for t in ev]
        c.ok("manager", "runPass: analyses, pass, invalidation, in this order, on every iteration")
        if "break" in names:
            c.viol("runPass early", fn.where, "a loop of the pass run is left early (%s)" % show_pc(s.conds()))
            continue
        if "run" not in names:
            c.viol("runPass skips", fn.where, "a path does not run the pass (%s)" % show_pc(s.conds()))
            continue
        r = names.index("run")
        reqs = [t for t in ev[:r] if t[0] == "runAnalysis"]
        invs = [t for t in ev[r:] if t[0] == "invalidate"]
        if not any(t[2] and elem_of(t[2][-1], "passes", "[k]", "reqs") for t in reqs):
            c.viol("runPass requirements", fn.where, "a path runs the pass without running its required analyses first")
        if not any(elem_of(t[2][-1], "passes", "[k]", "invalidates") for t in invs):
            c.viol("runPass invalidation", fn.where, "a path does not invalidate what the pass declares after it ran")
        conds = [a for a, p in s.conds() if a[0] in ("nz", "eq") and "shouldRepeat" not in repr(a)]
        if conds:
            c.viol("runPass conditional", fn.where, "the pass run depends on %s" % show_pc([(a, True) for a in conds]))
    # the repetition is around all of it
    loops = [x for x in walk(fn["body"]) if x["k"] in ("While", "Do", "For")]
    def inside(x, name):
        return any(y["k"] == "Call" and y.get("f") and y["f"]["n"] == name for y in walk(x))
    rep = [x for x in loops if inside(x, "shouldRepeat")]
    if rep and inside(fn["body"], "runAnalysis") and not any(inside(x, "runAnalysis") for x in rep):
        c.viol("runPass repetition", fn.where, "a repeated pass does not recompute its required analyses")
    if rep and inside(fn["body"], "invalidate") and not any(inside(x, "invalidate") for x in rep):
        c.viol("runPass repetition", fn.where, "a repeated pass does not invalidate between its iterations")
    # runAnalysis
    fn = one(P, "runAnalysis")
    n = 0
    for s, v in AI(P, RunClient()).run(fn, State(), src("this"), [src("m"), src("name")]):
        if v is THROWN:
            continue
        names = [t[0] for t in s.trace]
        stored = [x for a, h in s.heap.items() if a == ("src", "this", ("results",)) for x in h.values()]
        cached = any(p and a[0] == "nz" and "found" in repr(a) and "results" in repr(a) or
                     p and a[0] == "nz" and "contains" in repr(a) and "results" in repr(a) for a, p in s.conds())
        c.ok("manager", "runAnalysis: %s" % ("a valid result is kept" if cached else "dependencies first, result stored"))
        if cached:
            if "run" in names and not stored:
                c.viol("runAnalysis lost", fn.where, "an analysis runs and its result is dropped")
            continue
        n += 1
        if "run" not in names:
            c.viol("runAnalysis skips", fn.where, "a path computes nothing although there is no valid result (%s)" % show_pc(s.conds()))
            continue
        deps = [t for t in s.trace[:names.index("run")] if t[0] == "runAnalysis"]
        if not any(elem_of(t[2][-1], "analyses", "[k]", "reqs") for t in deps):
            c.viol("runAnalysis dependencies", fn.where, "an analysis runs before the analyses it depends on")
        if any(t[0] == "break" for t in s.trace):
            c.viol("runAnalysis early", fn.where, "the walk over the dependencies is left early")
        if not any(a[0] == "op" and a[1] == "run" or a[0] == "new" and any(
                b[0] == "op" and b[1] == "run" for b in reach(s, V(a))) for x in stored for a in x):
            c.viol("runAnalysis result", fn.where, "the result of an analysis is not stored")
    if not n:
        raise AnalysisBroken("pass manager: no path of runAnalysis computes a result")
    invalidation(c, P)
    # registration
    c.visits_all = ("PassManager::registerPass", "PassManager::registerAnalysis", "PassManager::invalidate")
    for name, kind in (("registerPass", "passes"), ("registerAnalysis", "analyses")):
        fn = one(P, name)
        args = [src("obj")] + ([src("before")] if kind == "passes" else []) + [src("reqs")] + (
            [src("inv")] if kind == "passes" else [])
        m = 0
        for s, v in AI(P, RunClient(), max_paths=2000).run(fn, State(), src("this"), args):
            if v is THROWN:
                continue
            dis = any(p and a[0] == "nz" and "disabled" in repr(a) for a, p in s.conds())
            if dis:
                c.ok("manager", "%s: a disabled key is not registered" % name)
                if any(a[0] == "src" and a[1] == "this" and h for a, h in s.heap.items()):
                    c.viol("%s disabled" % name, fn.where, "a disabled key is registered all the same")
                continue
            m += 1
            c.ok("manager", "%s: object, requirements, manager and order recorded" % name)
            got = [x for h in (s.heap.get(("src", "this", (kind,)), {}), ) for x in h.values()]
            objs = set()
            for x in got:
                objs |= reach(s, x)
            if ("src", "obj", ()) not in objs:
                c.viol("%s object" % name, fn.where, "a path does not keep the registered object (%s)" % show_pc(s.conds()))
            if not any(a == ("src", "reqs", ()) or a[:2] == ("src", "reqs") for a in objs):
                c.viol("%s requirements" % name, fn.where, "a path does not keep the required analyses")
            if kind == "passes" and not any(a[:2] == ("src", "inv") for a in objs):
                c.viol("%s invalidates" % name, fn.where, "a path does not keep the invalidated analyses")
            if kind == "passes":
                eo = s.heap.get(("src", "this", ("executionOrder",)), {})
                if not eo:
                    c.viol("%s order" % name, fn.where, "a path does not add the pass to the execution order (%s)" % show_pc(s.conds()))
            dk = [h for a, h in s.heap.items() if a[0] == "src" and a[1] == "this" and a[2][:1] == ("deps",) and len(a[2]) > 1]
            if kind == "analyses" and not dk:
                c.viol("%s dependants" % name, fn.where, "an analysis is not recorded as dependant of the analyses it requires")
        if not m:
            raise AnalysisBroken("pass manager: no path of %s registers" % name)


def flows(fn):
    """flow-insensitive copy graph between the local variables and parameters of one function"""
    g = {}

    def refs(x):
        return {y["id"] for y in walk(x) if y["k"] == "Ref" and y.get("id") is not None}

    def add(dst, srcs):
        for d in dst:
            g.setdefault(d, set()).update(srcs)

    ps = [p["id"] for p in fn["params"]]
    for x in walk(fn["body"]):
        if x["k"] == "Decl":
            for v in x["v"]:
                add([v["id"]], refs(v.get("init") or {}))
        elif x["k"] == "RangeFor":
            add([x["var"]["id"]], refs(x["range"]))
        elif x["k"] == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            add(refs(x["x"]), refs(x["y"]))
        elif x["k"] == "Call":
            if x.get("f") and x["f"]["id"] == fn["id"]:
                for p, a in zip(ps, x["a"]):
                    add([p], refs(a or {}))
            if x.get("o") is not None:
                add(refs(x["o"]), set().union(*[refs(a) for a in x["a"] if a] or [set()]))
            if x.get("op") == "=" and len(x["a"]) == 2:
                add(refs(x["a"][0]), refs(x["a"][1]))
    return g, refs


def invalidation(c, P):
    fn = one(P, "invalidate")
    g, refs = flows(fn)
    c.ok("manager", "invalidate erases the result and, transitively, every dependant's")

    def isfield(x, name):
        return any(y["k"] == "Mem" and (y.get("n") or y.get("f")) == name for y in walk(x))
    er = [x for x in walk(fn["body"]) if x["k"] == "Call" and x.get("f") and x["f"]["n"] == "erase" and x.get("o") is not None
          and isfield(x["o"], "results")]
    allc = [x for x in walk(fn["body"]) if x["k"] == "Call" and x.get("f") and x["f"]["n"] == "clear" and isfield(x.get("o") or {}, "results")]
    if allc and not er:
        return                      # everything is dropped
    if not er:
        c.viol("invalidate erase", fn.where, "no result is erased")
        return

    def back(ids):
        seen, todo = set(), list(ids)
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo += list(g.get(k, ()))
        return seen
    erased = set()
    for x in er:
        for a in x["a"]:
            erased |= refs(a or {})
    if not erased:
        return
    if not fn["params"][0]["id"] in back(erased):
        c.viol("invalidate key", fn.where, "the given key does not reach the erased key")
    # the dependants of an erased key must themselves become erased keys
    ok = False
    for x in walk(fn["body"]):
        # any statement that moves elements of deps[k] somewhere
        if x["k"] in ("Call", "Decl", "RangeFor", "Bin"):
            dst, srcx = set(), None
            if x["k"] == "RangeFor":
                dst, srcx = {x["var"]["id"]}, x["range"]
            elif x["k"] == "Decl":
                for v in x["v"]:
                    if v.get("init") and isfield(v["init"], "deps"):
                        dst, srcx = {v["id"]}, v["init"]
            elif x["k"] == "Call" and x.get("f") and x["f"]["id"] == fn["id"]:
                dst, srcx = {fn["params"][0]["id"]}, x["a"]
            elif x["k"] == "Call" and x.get("o") is not None:
                dst, srcx = refs(x["o"]), x["a"]
            elif x["k"] == "Bin" and x["op"] == "=":
                dst, srcx = refs(x["x"]), x["y"]
            if srcx is None or not isfield(srcx, "deps"):
                continue
            idx = refs(srcx)
            if dst & back(erased) and (back(idx) & dst or idx & dst):
                ok = True
    if not ok:
        c.viol("invalidate dependants", fn.where, "results that depend, directly or through others, on the invalidated one are kept")
    # the erase must not depend on anything but the presence of the result
    for s, v in AI(P, RunClient()).run(fn, State(), src("this"), [src("key")]):
        pres = [p for a, p in s.conds() if a[0] == "nz" and ("found" in repr(a) or "contains" in repr(a)) and "results" in repr(a)]
        looped = any(a[0] == "each" for a, p in s.conds())
        erd = any(t[0] == "cont" and t[1] == "erase" for t in s.trace)
        if pres and pres[0] and looped and not erd:
            c.viol("invalidate keeps", fn.where, "a path keeps a result that is present (%s)" % show_pc(s.conds()))


def groups(c, P):
    """a group hands run and setManager to each of its passes"""
    G = "codon::ir::transform::PassGroup"
    for name in ("run", "setManager"):
        fs = [f for f in P.fn(G + "::" + name) if f.get("body")]
        if not fs:
            raise AnalysisBroken("no PassGroup::" + name)
        for s, v in AI(P, RunClient()).run(fs[0], State(), src("this"), [src("m")]):
            c.ok("group", "PassGroup::%s reaches every pass" % name)
            ev = [t for t in s.trace if t[0] == name and t[1] is not None and elem_of(t[1], "passes")]
            if len(ev) != 1 or ev[0][2] != (src("m"),) or any(t[0] == "break" for t in s.trace) or \
                    any(a[0] in ("nz", "eq") for a, p in s.conds()):
                c.viol("PassGroup %s" % name, fs[0].where, "a group does not hand `%s` to every pass it holds" % name)
    fs = [f for f in P.funcs.values() if f["qn"] == "codon::ir::transform::Pass::doGetAnalysis" and f.get("body")]
    for s, v in (AI(P, RunClient()).run(fs[0], State(), src("this"), [src("key")]) if fs else []):
        c.ok("group", "a pass asks its manager for the result of the key it was given")
        man = [p for a, p in s.conds() if a == ("nz", src("this", "manager"))]
        if man and man[0] and not any("results" in repr(a) for a in v) and v != NULL:
            c.viol("doGetAnalysis", fs[0].where, "does not answer with the manager's result for the key: %s" % show(v))

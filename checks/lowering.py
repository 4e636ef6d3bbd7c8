"""Lowering and inlining: what a node is replaced by, as a tree, on every path."""
import re
from absint import *
from checklib import Check
from facts import AnalysisBroken
from folding import dnf
from irmodel import *

FILES = ["codon/cir/transform/lowering/imperative.cpp", "codon/cir/transform/lowering/pipeline.cpp", "codon/cir/transform/lowering/async_for.cpp",
         "codon/cir/transform/lowering/await.cpp", "codon/cir/util/inlining.cpp", "codon/cir/util/irtools.cpp", "codon/cir/module.cpp", "codon/cir/flow.cpp", "codon/cir/instr.cpp",
         "codon/cir/value.cpp", "codon/cir/transform/parallel/schedule.cpp"]
THIS = src("this")
GETTERS = {"getBody": "body", "getIter": "iter", "getVar": "var", "getValue": "value", "getSchedule": "schedule", "isParallel": "parallel", "isAsync": "async",
           "isGenerator": "generator"}


RANGE = ("iter", "args", "[0]")


class LClient(IRClient):
    """nodes are made as terms; the contents of a series and the variables of functions are lists"""
    opaque = ()

    def items(self, ai, st, o):
        for a in ai.getf(st, o, "#items"):
            if a[0] == "items":
                return a[1]
        return ()

    def make(self, ai, st, cls, vs):
        r = V(("made", ai.fresh(), cls.split("::")[-1]))
        st.trace += (("make", r, cls.split("::")[-1], tuple(self.flat(st, vs))),)
        return r

    def flat(self, st, vs):
        out = []
        for v in vs:
            a = next(iter(v)) if isinstance(v, frozenset) and len(v) == 1 else None
            if a and a[0] == "new":
                h = st.heap.get(a, {})
                if "#list" in h:
                    out.append(V(("list", tuple(h["#list"]))))
                    continue
                k = [x for x in ("[]", "[+]") if x in h]
                if k:
                    out.append(V(("list", tuple(h[x] for x in k))))
                    continue
            out.append(v)
        return out

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm, q = f["n"], f["qn"]
        if nm in ("begin", "end") and o is not None and len(o) == 1 and not vs:
            (a,) = o
            if a[0] == "src" and a[1] == "x" and a[2] == RANGE:
                return [(st, V(("pit", o, 0 if nm == "begin" else "end")))]
        p = [a for a in o or () if a[0] == "pit"]
        if p:
            (k,) = [a[2] for a in p]
            if nm == "operator*":
                return [(st, src("x", *(RANGE + ("args", "[%s]" % k))))]
            if nm == "operator++" and olv is not None:
                st = st.copy()
                new = V(("pit", p[0][1], k + 1))
                ai.wr(st, olv, new)
                return [(st, new if not vs else o)]
        if nm == "distance" and len(vs) == 2 and any(a[0] == "pit" for a in vs[0]):
            return [(st, op("count"))]
        if nm in ("N", "Nr") and f.get("cls") == "codon::ir::Module":
            st = st.copy()
            t = f["targs"][0]
            vs = list(vs)
            if nm == "N" and vs:
                vs = vs[1:]
            return [(st, self.make(ai, st, t, vs))]
        if nm == "series" and q.startswith("codon::ir::util::"):
            st = st.copy()
            r = self.make(ai, st, "SeriesFlow", [])
            st.trace += tuple(("push", r, v) for v in self.flat(st, vs))
            return [(st, r)]
        if nm == "call" and q.startswith("codon::ir::util::"):
            return [(st, op("call", *self.flat(st, vs)))]
        made = [a for a in o or () if a[0] == "made"]
        if nm in ("push_back", "insert") and o is not None and (made or any(a[0] == "src" and a[1] in ("parent", "s") for a in o)) and vs:
            st = st.copy()
            if nm == "insert" and any(("begin" not in repr(a)) for a in vs[0]):
                st.trace += (("insert?", o, vs[-1]),)
            else:
                st.trace += (("push" if nm == "push_back" else "prepend", o, vs[-1]),)
            return [(st, VOID)]
        if nm in ("setParallel", "setAsync", "setSchedule", "setBody") and made:
            st = st.copy()
            st.trace += ((nm, o) + tuple(vs),)
            return [(st, VOID)]
        if nm == "insert" and o is not None and any(a[0] == "src" for a in o) and vs:
            st = st.copy()
            st.trace += (("prepend" if "begin" in repr(vs[0]) else "insert?", o, vs[-1]),)
            return [(st, VOID)]
        if nm in ("getOrRealizeFunc", "getOrRealizeMethod"):
            s = [a[1] for v in vs for a in v if a[0] == "str"]
            return [(st, op("fn", V(("str", s[0] if s else "?"))))]
        if nm in ("getInt", "getBool", "getFloat", "getString") and f.get("cls") == "codon::ir::Module":
            return [(st, op("const", *vs))]
        if nm in ("clone", "forceClone") and q.startswith("codon::ir::util::CloneVisitor"):
            st = st.copy()
            st.trace += ((nm, vs[0], o),)
            return [(st, op("copy", vs[0]))]
        if nm == "replaceAll" and vs:
            st = st.copy()
            st.trace += (("replace", o, vs[0]),)
            return [(st, VOID)]
        if nm in ("getParentFunc", "getParentFuncReal"):
            return [(st, src("parent"))]
        if nm == "getModule" and not vs:
            return [(st, src("M"))]
        if nm in ("getSrcInfo", "getMangledClass"):
            return [(st, op(nm, *vs))]
        if nm == "getFunc" and q.startswith("codon::ir::util::"):
            return [(st, op("getFunc", vs[0]))]
        if nm in GETTERS and not vs and o is not None and len(o) == 1:
            (a,) = o
            if a[0] == "src" and a[1] in ("x", "f") and len(a[2]) == 0:
                return [(st, V(("src", a[1], a[2] + (GETTERS[nm],))))]
        if nm == "getType" and not vs and o is not None:
            return [(st, op("type", o))]
        if nm == "getReturnType" and not vs and o is not None:
            return [(st, op("result", o))]
        if nm in ("getVoidType", "getNoneType", "getIntType") and f.get("cls") == "codon::ir::Module":
            return [(st, op(nm[3:-4]))]
        if nm == "getOrRealizeType" and f.get("cls") == "codon::ir::Module":
            return [(st, op("class", *vs))]
        if nm == "is" and len(vs) == 1 and "Type" in q:
            return [(st, op("same", o, vs[0]))]
        if nm == "process" and len(vs) == 1 and o is not None and any(a[0] == "new" for a in o):
            st = st.copy()
            w = [a for a in o if a[0] == "new"][0]
            st.trace += (("process", V(w), vs[0]) + tuple((k, ai.getf(st, V(w), k)) for k in ("implicitLoop", "var", "aggressive")),)
            if str(w[2]).endswith("ReturnVerifier"):
                ai.setf(st, V(w), "needLoop", src("needLoop"))
            return [(st, VOID)]
        if nm in ("operator~", "operator[]", "operator!") and q.startswith("codon::ir::Value::"):
            return [(st, op({"operator~": "not", "operator[]": "item", "operator!": "not"}[nm], o, *vs))]
        if nm in self.opaque:
            st = st.copy()
            st.trace += ((nm,) + tuple(vs),)
            return [(st, op(nm, *vs))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)

    def class_of(self, a):
        if a[0] == "made":
            return "codon::ir::" + a[2]
        return IRClient.class_of(self, a)


class Tree:
    """terms with the made nodes written out"""

    def __init__(self, s):
        self.made, self.kids, self.marks = {}, {}, {}
        self.names, self.open = {}, []
        for e in s.trace:
            if e[0] == "make":
                self.made[e[1]] = (e[2], e[3])
            elif e[0] == "push":
                self.kids.setdefault(e[1], []).append(e[2])
            elif e[0] == "prepend":
                self.kids.setdefault(e[1], []).insert(0, e[2])
            elif e[0] == "insert?":
                self.kids.setdefault(e[1], []).append(op("misplaced", e[2]))
            elif e[0] in ("setParallel", "setAsync", "setSchedule"):
                if len(e) < 3 or e[2] in (INT(1), TRUE):
                    self.marks.setdefault(e[1], []).append(e[0])
                elif e[2] not in (INT(0), FALSE):
                    self.marks.setdefault(e[1], []).append("%s=%s" % (e[0], self.show(e[2])))

    def show(self, v, deep=0):
        if isinstance(v, tuple) and v and v[0] == "list":
            return "[" + ", ".join(self.show(x, deep) for x in v[1]) + "]"
        if not isinstance(v, frozenset):
            return str(v)
        if deep > 14:
            return "..."
        if v in self.made:
            if v in self.open:
                return "^" + self.made[v][0]
            cls, args = self.made[v]
            if cls != "Var":
                self.open.append(v)
                try:
                    return self.node(v, cls, args, deep)
                finally:
                    self.open.pop()
            self.names.setdefault(v, "v%d" % (len(self.names) + 1))
            return self.names[v]
        if len(v) != 1:
            return "|".join(sorted(self.show(V(a), deep + 1) for a in v))
        a = next(iter(v))
        if a[0] == "src":
            return ".".join((a[1],) + a[2])
        if a[0] == "list":
            return "[" + ", ".join(self.show(x, deep + 1) for x in a[1]) + "]"
        if a[0] == "op":
            if a[1] == "call":
                x = self.show(a[2][1], deep + 1) if len(a[2]) > 1 else ""
                return "%s(%s)" % (self.show(a[2][0], deep + 1), x[1:-1] if x.startswith("[") else x)
            if a[1] == "const":
                return self.show(a[2][-1], deep + 1)
            if a[1] == "fn":
                return next(iter(a[2][0]))[1]
            return "%s(%s)" % (a[1], ", ".join(self.show(x, deep + 1) for x in a[2]))
        if a[0] in ("int", "bool"):
            return str(int(a[1]))
        if a[0] in ("null", "none"):
            return "none"
        if a[0] == "str":
            return repr(a[1])
        if a[0] == "new":
            return "new " + str(a[2]).split("::")[-1]
        return ":".join(str(x) for x in a)

    def node(self, v, cls, args, deep):
        if cls == "SeriesFlow":
            return "{" + "; ".join(self.show(x, deep + 1) for x in self.kids.get(v, [])) + "}"
        if cls == "VarValue":
            return self.show(args[0], deep + 1)
        if cls == "AssignInstr":
            return "%s = %s" % tuple(self.show(x, deep + 1) for x in args[:2])
        args = list(args)
        if cls == "CallInstr":
            a = self.show(args[1], deep + 1) if len(args) > 1 else "[]"
            return "%s(%s)" % (self.show(args[0], deep + 1), a[1:-1] if a.startswith("[") else a)
        m = "".join(" " + x for x in self.marks.get(v, []))
        return "%s(%s)%s" % (cls, ", ".join(self.show(x, deep + 1) for x in args), m)


def lit(T, k):
    if not isinstance(k, tuple):
        return str(k)
    if k[0] == "eq":
        return "==".join(sorted(T.show(x) for x in k[1:]))
    return T.show(k[1]) if len(k) > 1 else str(k)


def get(P, qn, kind=None):
    fs = [f for f in P.funcs.values() if re.sub(r"\(anonymous namespace\)::", "", f["qn"]) == qn and f.get("body") and (kind is None or kind(f))]
    if len(fs) != 1:
        raise AnalysisBroken("%s: %d definitions" % (qn, len(fs)))
    return fs[0]


def paths(P, f, roots, args, this=THIS, client=LClient, facts=()):
    cl = client(roots)
    cl.P = P
    ai = AI(P, cl, max_paths=4000)
    st = State()
    for v, p in facts:
        st = ai.assume(st, v, p)
    n = 0
    for s, r in ai.run(f, st, this, args):
        if r is THROWN:
            continue
        n += 1
        yield ai, s, r
    if not n:
        raise AnalysisBroken("%s: no path" % f["qn"])


def replaced(s, v):
    return [e[2] for e in s.trace if e[0] == "replace" and e[1] == v]


LW = "codon::ir::transform::lowering::"
ARG = r"x\.iter\.args\.\[0\]"
CONST = "codon::ir::TemplatedConst"


def where(f):
    return "%s (%s)" % (f["qn"], f.get("file", "").split("/codon/")[-1])


class Path:
    """one finished path: its conditions, replacement trees and declared variables"""

    def __init__(self, ai, s, r):
        self.ai, self.s, self.r = ai, s, r
        self.T = Tree(s)
        self.cjs = []
        for cj in dnf(s.conds()):
            c = {}
            ok = True
            for k, p in cj:
                if isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], frozenset) and any(a[0] == "made" for a in k[1]) and k[0] != "eq":
                    if not p:
                        ok = False
                    continue
                t = lit(self.T, k)
                if c.get(t, p) != p:
                    ok = False
                c[t] = p
            if ok:
                self.cjs.append(c)

    def trees(self, v):
        return [self.plain(self.T.show(x)) for x in replaced(self.s, v)]

    @staticmethod
    def plain(t):
        # whether a node that is taken out is moved or copied makes no difference
        return re.sub(r"copy\(((?:[^()]|\([^()]*\))*)\)", r"\1", t)

    def undeclared(self, parent=src("parent")):
        """local variables used by the replacement that the function does not have"""
        own = {e[2] for e in self.s.trace if e[0] == "push" and e[1] == parent}
        return [self.T.names[v] for v in self.T.names if v not in own]


def want(c, f, clause, p, got, exp, cond):
    if got == exp:
        c.ok(clause, "%s: %s" % (f["qn"].split("::")[-2], got))
    else:
        c.viol("%s:%s" % (f["qn"].split("::")[-2], clause), where(f), "when %s, the node is replaced by %s instead of %s" % (cond, got, exp))


def has(c, *keys):
    return all(any(k in t and c[t] for t in c) for k in keys)


def imperative(c, P):
    f = get(P, LW + "ImperativeForFlowLowering::handle")
    seen, unknown = set(), set()
    for ai, s, r in paths(P, f, {"x": "codon::ir::ForFlow"}, [src("x")]):
        p = Path(ai, s, r)
        tr = p.trees(src("x"))
        for cj in p.cjs:
            par = cj.get("x.parallel")
            if not tr:
                # leaving the loop as it is loses nothing
                if any("isa(x.iter.args.[0].args.[2]" in q and not v for q, v in cj.items()):
                    unknown.add(cj.get("x.parallel"))
                c.ok("loop kept", "for loop left as it is")
                continue
            t = tr[0]
            if len(tr) != 1 or par is None:
                c.viol("ImperativeForFlowLowering:replacement", where(f), "the loop is replaced %d times, without asking whether it is parallel" % len(tr))
                continue
            for what, k in (("the iterator is a call", "isa(x.iter, 'codon::ir::CallInstr')"), ("that takes one argument", "1==size(x.iter.args)"),
                            ("of __iter__", "'__iter__'==.unmangledName(getFunc(x.iter.callee))")):
                if not cj.get(k):
                    c.viol("ImperativeForFlowLowering:" + k, where(f), "a loop is replaced by %s although it is not known that %s" % (t, what))
                else:
                    c.ok("iterator", what)
            islist = any("'std.internal.types.array', 'List'" in k and "rfind" in k and not v for k, v in cj.items())
            isrange = bool(cj.get("'__new__'==.unmangledName(getFunc(x.iter.args.[0].callee))")) and bool(cj.get("isa(x.iter.args.[0], 'codon::ir::CallInstr')")) \
                and any("'range'" in k and "==" in k and ".parentType(getFunc(x.iter.args.[0].callee))" in k and v for k, v in cj.items())
            n = [int(m.group(1)) for k, v in cj.items() for m in [re.match(r"(\d+)==(?:count\(\)|size\(%s\.args\))$" % ARG, k)] if m and v]
            news = {a for v in s_values(s) for a in v if a[0] == "new" and str(a[2]).endswith("OMPSched")}
            sched = "new OMPSched" if par else "none"
            if "ImperativeForFlow" in t and (("OMPSched" in t) != bool(par)):
                c.viol("ImperativeForFlowLowering:schedule", where(f), "a %s loop is replaced by %s" % ("parallel" if par else "serial", t))
            else:
                c.ok("schedule", "schedule passed on exactly for parallel loops")
            if par:
                for a in news:
                    for fl in ("code", "dynamic", "threads", "chunk", "ordered", "collapse", "gpu"):
                        if ai.getf(s, V(a), fl) != src("x", "schedule", fl):
                            c.viol("ImperativeForFlowLowering:schedule." + fl, where(f), "the schedule of the new loop has %s = %s" % (fl, p.T.show(ai.getf(s, V(a), fl))))
                        else:
                            c.ok("schedule", fl)
            if islist and t.startswith("{"):
                L = "x.iter.args.[0]"
                exps = ["{v1 = %s; v2 = ExtractInstr(v1, 'len'); v3 = ExtractInstr(ExtractInstr(v1, 'arr'), 'ptr'); ImperativeForFlow(0, 1, v2, x.body, v4, %s)}" % (L, sched),
                        "{v1 = %s; v2 = ExtractInstr(ExtractInstr(v1, 'arr'), 'ptr'); v3 = ExtractInstr(v1, 'len'); ImperativeForFlow(0, 1, v3, x.body, v4, %s)}" % (L, sched)]
                pre = [p.T.show(e[2]) for e in s.trace if e[0] == "prepend" and e[1] == src("x", "body")]
                ptr = "v3" if t == exps[0] else "v2"
                want(c, f, "list loop", p, t, exps[1] if t == exps[1] else exps[0], "the loop is over a list")
                want(c, f, "list item", p, pre, ["x.var = item(%s, v4)" % ptr], "the loop is over a list (what its body starts with)")
                if cj.get("isa(parent, 'codon::ir::BodiedFunc')") and p.undeclared():
                    c.viol("ImperativeForFlowLowering:variables", where(f), "the variables %s are not added to the function" % p.undeclared())
                seen.add(("list", par))
            elif isrange:
                R = "x.iter.args.[0].args"
                k = n[0] if n else None
                exp = {1: "ImperativeForFlow(0, 1, %s.[0], x.body, x.var, %s)", 2: "ImperativeForFlow(%s.[0], 1, %s.[1], x.body, x.var, %s)",
                       3: "ImperativeForFlow(%s.[0], %s.[2].val, %s.[1], x.body, x.var, %s)"}.get(k)
                exp = exp and exp % ((R,) * exp.count("%s.[") + (sched,))
                want(c, f, "range loop", p, t, exp, "the loop is over a range of %s arguments" % k)
                if k == 3:
                    if not any("isa(x.iter.args.[0].args.[2]" in q and v for q, v in cj.items()) or not (
                            cj.get("0==x.iter.args.[0].args.[2].val") is False or cj.get("x.iter.args.[0].args.[2].val")):
                        c.viol("ImperativeForFlowLowering:step", where(f), "the step of a range is taken as a constant other than zero without asking")
                    else:
                        c.ok("range step", "constant, not zero")
                seen.add(("range", k, par))
            else:
                c.viol("ImperativeForFlowLowering:subject", where(f), "a loop over something not known to be a range or a list is replaced by " + t)
    for k in (True, False):
        if k not in unknown:
            c.viol("ImperativeForFlowLowering:unknown step", where(f), "a loop over a range with a step that is not a constant is not left as it is")
        else:
            c.ok("unknown step", "loop left as it is")
    c.ok("loop forms", ", ".join(sorted(map(str, seen))), len(seen))


def s_values(s):
    for h in s.heap.values():
        for v in h.values():
            if isinstance(v, frozenset):
                yield v
    for e in s.trace:
        if e[0] == "make":
            for v in e[3]:
                if isinstance(v, frozenset):
                    yield v


def pipeline(c, P):
    f = get(P, LW + "convertPipelineToForLoopsHelper")

    class R(LClient):
        def on_call(self, ai, st, n, f2, o, vs, C, olv, lvs):
            if f2["n"] == f["n"]:
                return [(st, op("rest", vs[3], vs[4]))]
            return LClient.on_call(self, ai, st, n, f2, o, vs, C, olv, lvs)
    for i in (0, 2):
        for ai, s, r in paths(P, f, {"stages": "std::vector<codon::ir::PipelineFlow::Stage *>", "parent": "codon::ir::BodiedFunc"},
                              [src("M"), src("parent"), src("stages"), INT(i), src("last")], client=R):
            p = Path(ai, s, r)
            t = p.plain(p.T.show(r))
            for cj in p.cjs:
                end = [v if k.startswith(">=") else not v for k, v in cj.items() if k in (">=(%d, size(stages))" % i, "<(%d, size(stages))" % i)]
                if not end:
                    c.viol("PipelineLowering:end", where(f), "stage %d is used without asking whether there is one" % i)
                    continue
                if end[0]:
                    want(c, f, "pipeline end", p, t, "last", "there are no more stages")
                    continue
                if i == 0:
                    want(c, f, "pipeline start", p, t, "rest(1, stages.[0].callee)", "the stage is the first")
                    continue
                gen, arg, par = cj.get("stages.[1].generator"), cj.get("stages.[2].args.[]"), cj.get("stages.[2].parallel")
                if arg is None:
                    c.viol("PipelineLowering:argument", where(f), "a stage is called as %s whether or not its argument is the place left open" % t)
                    continue
                if gen is None:
                    c.viol("PipelineLowering:generator", where(f), "a stage is lowered to %s without asking whether the one before it is a generator" % t)
                    continue
                a = "stages.[2].args.[]" if arg else "v1" if gen else "last"
                call = "rest(3, stages.[2].callee(%s))" % a
                if not gen:
                    want(c, f, "pipeline call", p, t, call, "the stage before is not a generator")
                    continue
                exp = "ForFlow(last, {%s}, v1)" % call + ("" if par is False else " setParallel" if par else " setParallel=stages.[2].parallel")
                want(c, f, "pipeline loop", p, t, exp, "the stage before is a generator and this stage %s parallel" % ("is" if par else "is not"))
                p.T.show(r)
                if p.undeclared():
                    c.viol("PipelineLowering:variables", where(f), "the variable of the loop is not added to the function")
                tys = {p.T.show(e[3][0]) for e in s.trace if e[0] == "make" and e[2] == "Var"}
                if len(tys) != 1 or "stages.[1]" not in next(iter(tys)) or "stages.[2]" in next(iter(tys)):
                    c.viol("PipelineLowering:item type", where(f), "the variable of the loop has type %s, not the type of an item of the stage before" % sorted(tys))
                else:
                    c.ok("pipeline item", sorted(tys)[0])


    h = get(P, LW + "PipelineLowering::handle")

    class W(LClient):
        def on_call(self, ai, st, n, f2, o, vs, C, olv, lvs):
            if f2["n"] == f["n"]:
                return [(st, op("rest", *self.flat(st, vs)))]
            if f2["n"] in ("insert", "emplace") and len(vs) == 2 and o is not None and any(a[0] == "new" and "vector" in str(a[2]) for a in o):
                st = st.copy()
                st.trace += (("order", o),)
            return LClient.on_call(self, ai, st, n, f2, o, vs, C, olv, lvs)
    for ai, s, r in paths(P, h, {"x": "codon::ir::PipelineFlow"}, [src("x")], client=W):
        p = Path(ai, s, r)
        tr = p.trees(src("x"))
        for cj in p.cjs:
            par = "parent" if cj.get("isa(parent, 'codon::ir::BodiedFunc')") else "none"
            want(c, h, "pipeline", p, tr, ["rest(M, %s, [x.stages.[]], 0, none)" % par], "it has stages")
            if any(e[0] == "order" for e in s.trace):
                c.viol("PipelineLowering:order", where(h), "the stages of a pipeline are taken in another order than theirs")


def waiting(c, P):
    f = get(P, LW + "AwaitLowering::handle")
    kinds = set()
    for ai, s, r in paths(P, f, {"x": "codon::ir::AwaitInstr"}, [src("x")]):
        p = Path(ai, s, r)
        tr = p.trees(src("x"))
        for cj in p.cjs:
            fut = any(("std.asyncio.Future." in k or "std.asyncio.Task." in k) and "rfind" in k and not v for k, v in cj.items())
            if fut:
                kinds |= {k for k in ("Future", "Task") for q, v in cj.items() if "std.asyncio.%s." % k in q and not v}
                exp = "FlowInstr({v1 = x.value; _cancel_checkpoint(); IfFlow(_wait_on(v1), {YieldInstr(); _cancel_checkpoint()})}, result(v1))"
            elif cj.get("isa(type(x.value), 'codon::ir::types::GeneratorType')"):
                q = cj.get("x.generator")
                exp = "FlowInstr({v1 = x.value; ForFlow(v1, {%sYieldInstr()}, v2)}, _promise(v1))" % ("_requeue(); " if q else "")
            else:
                exp = None
            want(c, f, "await", p, tr, [exp] if exp else [], "a %s is awaited" % ("future or task" if fut else "coroutine, by an async generator," if cj.get("x.generator") else "coroutine"))
            if cj.get("isa(parent, 'codon::ir::BodiedFunc')") and p.undeclared():
                c.viol("AwaitLowering:variables", where(f), "the variables %s are not added to the function" % p.undeclared())
    for k in ("Future", "Task"):
        if k in kinds:
            c.ok("awaited kind", k)
        else:
            c.viol("AwaitLowering:" + k, where(f), "a value of type std.asyncio.%s is not awaited" % k)
    f = get(P, LW + "AsyncForLowering::handle")
    for ai, s, r in paths(P, f, {"x": "codon::ir::ForFlow"}, [src("x")]):
        p = Path(ai, s, r)
        tr = p.trees(src("x"))
        for cj in p.cjs:
            loop = "WhileFlow(1, {_resume(v2); IfFlow(_done(v2), {BreakInstr()}); IfFlow(_is_waiting(v1), {YieldInstr()}, {x.var = _promise(v2); x.body})})"
            exp = ["{v1 = _curr_task(); v2 = x.iter; IfFlow(not(_done(v2)), {%s})}" % loop] if cj.get("x.async") else []
            alt = ["{v1 = x.iter; v2 = _curr_task(); IfFlow(not(_done(v1)), {%s})}" % loop.replace("v2", "v@").replace("v1", "v2").replace("v@", "v1")]
            want(c, f, "async for", p, tr, alt if exp and tr == alt else exp, "the loop %s an async for" % ("is" if exp else "is not"))
            if cj.get("isa(parent, 'codon::ir::BodiedFunc')") and p.undeclared():
                c.viol("AsyncForLowering:variables", where(f), "the variables %s are not added to the function" % p.undeclared())


def verifier(c, P):
    """the return is the last of the innermost of the given enclosing nodes, each the last of the one around it"""
    f = get(P, "codon::ir::util::ReturnVerifier::handle")

    class S(LClient):
        unroll = 5

        def on_call(self, ai, st, n, f2, o, vs, C, olv, lvs):
            nm = f2["n"]
            if nm in ("parent_begin", "parent_end"):
                return [(st, V(("pit", V(("parents",)), 0 if nm == "parent_begin" else self.depth)))]
            both = [next(iter(x)) for x in ([o] if o is not None else []) + list(vs) if isinstance(x, frozenset) and len(x) == 1]
            if nm in ("operator==", "operator!=") and len(both) == 2 and all(a[0] == "pit" for a in both):
                return [(st, INT(int((both[0][2] == both[1][2]) == (nm == "operator=="))))]
            if nm == "operator*" and both and both[0][0] == "pit":
                return [(st, src("parents", "[%s]" % both[0][2]))]
            if nm in ("operator-", "distance") and len(both) == 2 and all(a[0] == "pit" for a in both):
                return [(st, INT(abs(both[0][2] - both[1][2])))]
            return LClient.on_call(self, ai, st, n, f2, o, vs, C, olv, lvs)

    free = set()
    for d in (0, 1, 2, 3):
        S.depth = d
        for ai, s, r in paths(P, f, {"x": "codon::ir::ReturnInstr"}, [src("x")], client=S):
            p = Path(ai, s, r)
            got = p.T.show(ai.getf(s, THIS, "needLoop"))
            for cj in p.cjs:
                if got == "1" or (got == "this.needLoop" and cj.get("this.needLoop")):
                    c.ok("return place", "a loop is needed")
                    continue
                missing = ["enclosing node %d is a series" % k for k in range(d) if not cj.get("isa(parents.[%d], 'codon::ir::SeriesFlow')" % k)]
                for k in range(d - 1):
                    if not any(v and "==" in q and "parents.[%d].series.[-1]" % k in q and re.search(r"parents\.\[%d\](?!\.series)" % (k + 1), q) for q, v in cj.items()):
                        missing.append("enclosing node %d is the last of node %d" % (k + 1, k))
                end = "parents.[%d].series.[-1]" % (d - 1)
                if not d or not ((got.startswith("!=(") and end in got and re.search(r"\bx\b", got)) or
                                 (got in ("0", "this.needLoop") and any(v and "==" in q and end in q and re.search(r"\bx\b", q) for q, v in cj.items()))):
                    missing.append("the return is the last of the innermost series")
                if missing:
                    c.viol("ReturnVerifier:place", where(f), "with %d nodes around a return, it is taken for the last thing done (needLoop = %s) without knowing that %s" % (d, got, missing[0]))
                else:
                    c.ok("return place", got)
                    free.add(d)
    c.ok("last return", "depths %s" % sorted(free), len(free))


def inlining(c, P):
    U = "codon::ir::util::"
    f = get(P, U + "ReturnReplacer::handle")
    for ai, s, r in paths(P, f, {"x": "codon::ir::ReturnInstr"}, [src("x")]):
        p = Path(ai, s, r)
        tr = p.trees(src("x"))
        for cj in p.cjs:
            var, val, brk = cj.get("this.var"), cj.get("x.value"), cj.get("this.aggressive")
            if var is None and val is False:
                exp = []
            elif var:
                exp = ["this.var = x.value"]
            else:
                exp = ["x.value"] if val is not False else []
                if val is None:
                    c.viol("ReturnReplacer:value", where(f), "without a variable for the result, a return is replaced by %s whether it has a value or not" % tr)
                    continue
            if brk:
                exp.append("BreakInstr(this.implicitLoop)")
            want(c, f, "return", p, tr, ["{%s}" % "; ".join(exp)], "%s, %s, %s" % ("there is a variable for the result" if var else "there is no variable for the result",
                 "the return has no value" if val is False else "the return has a value", "there is a loop to leave" if brk else "there is no loop to leave"))
    verifier(c, P)
    f = get(P, U + "inlineFunction")
    n = 0
    for ai, s, r in paths(P, f, {"f": "codon::ir::BodiedFunc"}, [src("f"), src("args"), src("aggressive"), src("info")]):
        p = Path(ai, s, r)
        res = ai.getf(s, r, "result")
        t = p.T.show(res)
        for cj in p.cjs:
            if t == "none":
                why = [k for k, v in cj.items() if (not v and (k in ("f", "type(f)", "aggressive") or "FuncType" in k or "distance" in k or "size(args)" in k))]
                if why:
                    c.ok("not inlined", why[0])
                else:
                    c.viol("inlineFunction:refusal", where(f), "a function that can be inlined is not, when %s" % sorted(cj.items()))
                continue
            n += 1
            ret = cj.get("same(result(type(f)), Void())") is False and cj.get("same(result(type(f)), None())") is False
            need = cj.get("needLoop")
            if need is None or (need and not cj.get("aggressive")):
                c.viol("inlineFunction:aggressive", where(f), "a function that needs a loop to leave is inlined when that was not asked for")
            if not any("size(args)" in k and "==" in k and v for k, v in cj.items()):
                c.viol("inlineFunction:arguments", where(f), "the function is inlined without asking whether it takes as many arguments as there are")
            body = "WhileFlow(1, {copy(f.body); BreakInstr(^WhileFlow)})" if need else "copy(f.body)"
            exp = "{copy(f.args.[]) = copy(args.[]); %s}" % body
            if ret:
                exp = "FlowInstr(%s, v1)" % exp
            t2 = re.sub(r"\bv\d+\b", "v1", t)
            none = exp.replace("copy(f.args.[]) = copy(args.[]); ", "")
            want2 = none if t2 == none and any(("size(args)" in k or "args" in k) and "<" in k and not v for k, v in cj.items()) else exp
            if t2 != want2:
                c.viol("inlineFunction:tree", where(f), "when the function %s a result and %s a loop to leave, it is inlined as %s instead of %s" % (
                    "has" if ret else "has not", "needs" if need else "does not need", t2, want2))
            else:
                c.ok("inlined", t2)
            inside = {e[2] for e in s.trace if e[0] == "forceClone"} | {e[2] for e in s.trace if e[0] == "clone" and e[1] == src("f", "body")}
            outside = {e[2] for e in s.trace if e[0] == "clone" and any(a[0] == "src" and a[1] == "args" for a in e[1])}
            if len(inside) != 1:
                c.viol("inlineFunction:variables", where(f), "the body and the variables of the function are copied apart, so the body keeps the variables of the original")
            elif inside & outside:
                c.viol("inlineFunction:capture", where(f), "an argument is copied together with the function's variables: in a call of a function from itself, the argument's variables become those of the inlined call")
            else:
                c.ok("argument scope", "arguments copied by another visitor than the body")
            fc = {p.T.show(e[1]) for e in s.trace if e[0] == "forceClone"}
            if not {"f.symbols.[]"} <= fc or ("copy(f.args.[])" in t and "f.args.[]" not in fc):
                c.viol("inlineFunction:locals", where(f), "the variables %s of the function are copied, not its parameters and its own" % sorted(fc))
            else:
                c.ok("locals", str(sorted(fc)))
            nv = set()
            for a in ai.getf(s, r, "newVars"):
                for v in s.heap.get(a, {}).values():
                    nv |= set(v) if isinstance(v, frozenset) else {x for y in v for x in y} if isinstance(v, (tuple, list)) else set()
            lost = [k for k in fc if not any(p.T.show(V(a)) == "copy(%s)" % k for a in nv)]
            if ret and not any(a[0] == "made" and a[2] == "Var" for a in nv):
                lost.append("of the result")
            if lost:
                c.viol("inlineFunction:new variables", where(f), "the caller is not told of the new variables %s" % lost)
            else:
                c.ok("new variables", "parameters, variables, result")
            pr = [dict(zip((x[0] for x in e[3:]), (x[1] for x in e[3:]))) | {"v": e[2]} for e in s.trace if e[0] == "process" and str(next(iter(e[1]))[2]).endswith("ReturnReplacer")]
            if len(pr) != 1:
                c.viol("inlineFunction:returns", where(f), "the returns of the copy are replaced %d times" % len(pr))
                continue
            e = pr[0]
            loops = [v for v, (k, a) in p.T.made.items() if k == "WhileFlow"]
            bad = []
            if p.T.show(e["v"]) != "copy(f.body)":
                bad.append("of %s" % p.T.show(e["v"]))
            if need and e["implicitLoop"] not in loops:
                bad.append("to leave %s" % p.T.show(e["implicitLoop"]))
            if p.T.show(e["aggressive"]) not in (("1", "needLoop") if need else ("0", "needLoop")):
                bad.append("with a break if %s" % p.T.show(e["aggressive"]))
            if ret:
                fl = [a[1] for v, (k, a) in p.T.made.items() if k == "FlowInstr"]
                vv = [p.T.made[x][1][0] for x in fl if x in p.T.made and p.T.made[x][0] == "VarValue"]
                if [e["var"]] != vv:
                    bad.append("into %s" % p.T.show(e["var"]))
            elif any(a[0] != "null" for a in e["var"]):
                bad.append("into %s" % p.T.show(e["var"]))
            if bad:
                c.viol("inlineFunction:returns", where(f), "returns are replaced " + ", ".join(bad))
            else:
                c.ok("returns", "replaced in the copy, towards its own loop and result")
    if not n:
        raise AnalysisBroken("inlineFunction: nothing is inlined")
    f = get(P, U + "inlineCall")

    class I(LClient):
        def on_call(self, ai, st, n, f2, o, vs, C, olv, lvs):
            if f2["n"] == "inlineFunction":
                return [(st, op("inlineFunction", *vs[:3]))]
            return LClient.on_call(self, ai, st, n, f2, o, vs, C, olv, lvs)
    for ai, s, r in paths(P, f, {"x": "codon::ir::CallInstr"}, [src("x"), src("aggressive")], client=I):
        T = Tree(s)
        t = T.show(r)
        if re.match(r"inlineFunction\(getFunc\(x\.callee\), .*, aggressive\)$", t):
            c.ok("call", t)
        else:
            c.viol("inlineCall:arguments", where(f), "a call is inlined as " + t)


def run():
    c = Check("C21", "the tree that takes a node's place in the lowering passes and in inlining does what the node did, on every path that replaces it")
    P = c.load(FILES)
    imperative(c, P)
    pipeline(c, P)
    waiting(c, P)
    inlining(c, P)
    for k, n in FLOORS:
        c.floor(k, n)
    return c


FLOORS = (("pipeline", 1), ("unknown step", 1), ("new variables", 6), ("loop kept", 10), ("iterator", 30), ("schedule", 40), ("list loop", 2), ("list item", 2), ("range loop", 6), ("range step", 2), ("loop forms", 8), ("pipeline end", 2),
          ("pipeline start", 1), ("pipeline loop", 2), ("pipeline item", 2), ("pipeline call", 2), ("await", 3), ("async for", 2), ("return", 6), ("return place", 12), ("last return", 3),
          ("not inlined", 4), ("inlined", 6), ("argument scope", 6), ("locals", 6), ("returns", 6), ("call", 1))


def dump(P, f, roots, args, **k):
    for ai, s, r in paths(P, f, roots, args, **k):
        T = Tree(s)
        print("RET", T.show(r) if isinstance(r, frozenset) else r, "REPL", [(T.show(e[1]), T.show(e[2])) for e in s.trace if e[0] == "replace"])
        for cj in dnf(s.conds()):
            print("   ", [("" if p else "!") + lit(T, k) for k, p in cj])


if __name__ == "__main__":
    import sys
    if len(sys.argv) == 1:
        c = run()
        print(c.obl)
        for b in c.bad:
            print(b)
        sys.exit()
    c = Check("C21", "x")
    P = c.load(FILES)
    w = sys.argv[1]
    if w == "pipe":
        f = get(P, LW + "convertPipelineToForLoopsHelper")
        LClient.opaque = ()
        class R(LClient):
            def on_call(self, ai, st, n, f2, o, vs, C, olv, lvs):
                if f2["n"] == f["n"]:
                    return [(st, op("rest", vs[3], vs[4]))]
                return LClient.on_call(self, ai, st, n, f2, o, vs, C, olv, lvs)
        for i in (0, 2):
            dump(P, f, {"stages": "std::vector<codon::ir::PipelineFlow::Stage *>", "parent": "codon::ir::BodiedFunc"}, [src("M"), src("parent"), src("stages"), INT(i), src("last")], client=R)
    if w == "await":
        dump(P, get(P, LW + "AwaitLowering::handle"), {"x": "codon::ir::AwaitInstr"}, [src("x")])
    if w == "async":
        dump(P, get(P, LW + "AsyncForLowering::handle"), {"x": "codon::ir::ForFlow"}, [src("x")])
    if w == "imp":
        dump(P, get(P, LW + "ImperativeForFlowLowering::handle"), {"x": "codon::ir::ForFlow"}, [src("x")])
    if w == "inl":
        dump(P, get(P, "codon::ir::util::inlineFunction"), {"f": "codon::ir::BodiedFunc"}, [src("f"), src("args"), src("aggressive"), src("info")])
    if w == "ph":
        class R(LClient):
            def on_call(self, ai, st, n, f2, o, vs, C, olv, lvs):
                if f2["n"] == "convertPipelineToForLoopsHelper":
                    print([T0(st).show(v) for v in vs], [st.heap.get(a) for v in vs for a in v if a[0] == "new"])
                    return [(st, op("loops", *self.flat(st, vs)))]
                return LClient.on_call(self, ai, st, n, f2, o, vs, C, olv, lvs)
        T0 = Tree
        dump(P, get(P, LW + "PipelineLowering::handle"), {"x": "codon::ir::PipelineFlow"}, [src("x")], client=R)
    if w == "inr":
        for ai, s, r in list(paths(P, get(P, "codon::ir::util::inlineFunction"), {"f": "codon::ir::BodiedFunc"}, [src("f"), src("args"), src("aggressive"), src("info")]))[-3:]:
            print([s.heap.get(a) for a in ai.getf(s, r, "newVars")])
        for ai, s, r in paths(P, get(P, "codon::ir::util::inlineFunction"), {"f": "codon::ir::BodiedFunc"}, [src("f"), src("args"), src("aggressive"), src("info")]):
            T = Tree(s)
            print(T.show(ai.getf(s, r, "result")), "VARS", ai.getf(s, r, "newVars"), [e for e in s.trace if e[0] in ("process", "forceClone")])
    if w == "ret":
        dump(P, get(P, "codon::ir::util::ReturnReplacer::handle"), {"x": "codon::ir::ReturnInstr"}, [src("x")])
    if w == "ver2":
        verifier(c, P)
        print(c.obl, c.bad)
        sys.exit()
    if w == "ver":
        f = get(P, "codon::ir::util::ReturnVerifier::handle")
        for ai, s, r in paths(P, f, {"x": "codon::ir::ReturnInstr"}, [src("x")]):
            T = Tree(s)
            print(T.show(ai.getf(s, THIS, "needLoop")))
            for cj in dnf(s.conds()):
                print("   ", [("" if p else "!") + lit(T, k) for k, p in cj])

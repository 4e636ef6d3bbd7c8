"""LLVM code generation: the blocks, branches and memory operations generated for a node behave as the node does."""
import re

from absint import *
from checklib import Check
from facts import AnalysisBroken
from folding import dnf
from irmodel import *

FILES = ["codon/cir/llvm/llvisitor.cpp"]
LV = "codon::ir::LLVMVisitor"
THIS = src("this")
START = V(("bb", 0))
STALE = V(("bb", "?"))
EFFECTS = {"CreateBr", "CreateCondBr", "CreateSwitch", "CreateStore", "CreateLoad", "CreateCall", "CreateInvoke", "CreateRet", "CreateRetVoid",
           "CreateUnreachable", "CreateResume", "CreatePHI", "CreateAlloca", "CreateLandingPad"}
TERM = {"CreateBr", "CreateCondBr", "CreateSwitch", "CreateRet", "CreateRetVoid", "CreateUnreachable", "CreateResume", "CreateInvoke", "goto"}


class GClient(IRClient):
    """a symbolic IR builder: blocks, insertion points and instructions are events"""
    opaque = ("process", "call", "getLLVMType", "getLLVMFuncType", "getVar", "getFunc", "getTypeIdx", "getTypeIdxVar", "getDummyVoidValue",
              "makeAllocFunc", "makeReallocFunc", "makeFreeFunc", "makePersonalityFunc", "makeExcAllocFunc", "makeThrowFunc", "makeTerminateFunc",
              "getPadType", "getTypeInfoType", "getDIType", "enterLoop", "exitLoop", "enterTry", "exitTry", "enterCatch", "exitCatch",
              "enterFinally", "exitFinally", "insertVar", "setDebugInfoForNode", "getNameForFunction", "getDebugNameForVariable", "makeLLVMFunction",
              "getDISubprogramForFunc", "buildLLVMCodeString")

    def is_opaque(self, f):
        if f["qn"].startswith(LV + "::DebugInfo::"):
            return True
        return f["n"] in self.opaque and (f.get("cls") == LV or f["qn"].startswith(LV + "::") or not f.get("cls"))

    def should_inline(self, t, f, o, vs):
        q = f["qn"]
        if q.startswith("llvm::") or self.is_opaque(f):
            return False
        return True

    def typed_leaf(self, v, cls):
        return all(a[0] == "src" and a[1] == "x" and a[2] for a in v)

    def blk(self, ai, st):
        return ai.getf(st, THIS, "block")

    def on_ctor(self, ai, st, n, cls, vs, C):
        if cls.startswith("llvm::") and not cls.endswith("GlobalVariable"):
            return [(st, vs[0] if len(vs) == 1 else op(cls.split("::")[-1].split("<")[0], *vs))]
        if cls.startswith("llvm::"):
            return [(st, op("GlobalVariable", *vs))]
        return None

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm, q = f["n"], f["qn"]
        if self.is_opaque(f):
            st = st.copy()
            if nm == "process":
                b = self.blk(ai, st)
                nb = V(("bb", ai.fresh()))
                st.trace += (("ins", b, "proc", (vs[0],), VOID), ("ins", b, "goto", (nb,), VOID))
                ai.setf(st, THIS, "block", nb)
                ai.setf(st, THIS, "value", op("val", vs[0]))
                ai.setf(st, src("ir"), "ip", STALE)
                return [(st, VOID)]
            if nm == "call":
                b = self.blk(ai, st)
                nb = V(("bb", ai.fresh()))
                r = V(("ssa", ai.fresh(), "call"))
                st.trace += (("ins", b, "call", self.flat(st, vs), r), ("ins", b, "goto", (nb,), VOID))
                ai.setf(st, THIS, "block", nb)
                ai.setf(st, src("ir"), "ip", STALE)
                return [(st, r)]
            if nm == "enterLoop":
                st.trace += (("enterLoop",) + tuple(ai.getf(st, vs[0], x) for x in ("breakBlock", "continueBlock", "loopId")),)
                return [(st, VOID)]
            if nm in ("exitLoop", "enterTry", "exitTry", "enterCatch", "exitCatch", "enterFinally", "exitFinally", "insertVar", "setDebugInfoForNode"):
                st.trace += ((nm,) + tuple(vs),)
                return [(st, VOID)]
            return [(st, op(nm, *vs))]
        if q.startswith("llvm::"):
            st = st.copy()
            if nm == "Create" and "BasicBlock" in q:
                return [(st, V(("bb", ai.fresh())))]
            if nm == "SetInsertPoint":
                ai.setf(st, src("ir"), "ip", vs[0])
                return [(st, VOID)]
            if nm.startswith("Create") and "IRBuilder" in q:
                ip = ai.getf(st, src("ir"), "ip")
                args = self.flat(st, vs)
                if nm in ("CreateICmp", "CreateFCmp", "CreateCmp") and len(vs[0]) == 1 and next(iter(vs[0]))[0] == "enum":
                    # the comparison named by a value instead of the function
                    return [(st, op(next(iter(vs[0]))[1].split("::")[-1].replace("CMP_", "Cmp"), *args[1:3]))]
                if nm in EFFECTS:
                    r = V(("ssa", ai.fresh(), nm[6:]))
                    st.trace += (("ins", ip, nm, args, r),)
                    return [(st, r)]
                return [(st, op(nm[6:], *args))]
            if nm in ("getInt8", "getInt16", "getInt32", "getInt64", "getInt1") and "IRBuilder" in q:
                return [(st, vs[0])]
            if nm in ("getFalse", "getTrue"):
                return [(st, INT(1 if nm == "getTrue" else 0))]
            if nm == "addIncoming":
                st.trace += (("phi", o, vs[0], vs[1]),)
                return [(st, VOID)]
            if nm == "addCase":
                st.trace += (("case", o, vs[0], vs[1]),)
                return [(st, VOID)]
            if f.get("conv") or nm.startswith("operator") and not vs:
                return [(st, o)]
            return [(st, op(nm, *([o] if o is not None and o != VOID else []), *self.flat(st, vs)))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)

    def flat(self, st, vs):
        """argument lists by their elements"""
        out = []
        for v in vs:
            a = next(iter(v)) if len(v) == 1 else None
            if a and a[0] == "new" and "#list" in st.heap.get(a, {}):
                out.append(("list", tuple(st.heap[a]["#list"])))
            elif a and a[0] == "new" and "[]" in st.heap.get(a, {}):
                out.append(("list", (st.heap[a]["[]"],)))
            else:
                out.append(v)
        return tuple(out)


def fn_for(P, name, kind=None):
    for f in P.funcs.values():
        if f.get("cls") == LV and f["n"] == name and f.get("body") is not None:
            if kind is None or kind(strip_t(f["T"][f["params"][0]["t"]]).rstrip("* ")):
                return f
    raise AnalysisBroken("code generation: no %s" % name)


def runf(P, f, cls=None, args=None, setup=None, client=GClient):
    cl = client({"x": cls} if cls else {})
    cl.P = P
    ai = AI(P, cl, max_paths=4000)
    st = State()
    ai.setf(st, THIS, "block", START)
    ai.setf(st, src("ir"), "ip", STALE)
    if setup:
        st = setup(ai, st) or st
    for s, r in ai.run(f, st, THIS, args if args is not None else [src("x")]):
        if r is THROWN:
            continue
        yield ai, s, r


class Walk:
    """the behaviours of the generated blocks"""

    def __init__(self, ai, s, limit=2):
        self.bad = []
        self.blocks, self.phis, self.cases = {}, {}, {}
        for e in s.trace:
            if e[0] == "ins":
                b = e[1]
                if b == STALE:
                    self.bad.append("%s is inserted without choosing where after a part was generated" % e[2])
                l = self.blocks.setdefault(b, [])
                if any(x[2] in TERM for x in l):
                    self.bad.append("%s is inserted after the end of its block" % e[2])
                l.append(e)
            elif e[0] == "phi":
                self.phis.setdefault(e[1], []).append((e[2], e[3]))
            elif e[0] == "case":
                self.cases.setdefault(e[1], []).append((e[2], e[3]))
        self.end = ai.getf(s, THIS, "block")
        self.value = ai.getf(s, THIS, "value")
        self.limit = limit
        self.traces = []

    def sub(self, v, env):
        if isinstance(v, tuple) and v and v[0] == "list":
            return ("list", tuple(self.sub(x, env) for x in v[1]))
        out = set()
        for a in v:
            if a[0] == "ssa" and a in env:
                out |= env[a]
            elif a[0] == "op":
                out.add(("op", a[1], tuple(self.sub(x, env) if isinstance(x, (frozenset, tuple)) else x for x in a[2])))
            else:
                out.add(a)
        return frozenset(out)

    def go(self, b, ev=(), env=None, pred=None, seen=()):
        env = dict(env or {})
        if len(self.traces) > 400:
            return
        if b == self.end:
            if b not in self.blocks or not any(x[2] in TERM for x in self.blocks[b]):
                evs = self.effects(b, env, pred, list(ev))
                self.traces.append(tuple(evs) + (("exit", self.sub(self.value, env)),))
                return
        if seen.count(b) >= self.limit:
            self.traces.append(tuple(ev) + (("again",),))
            return
        seen = seen + (b,)
        evs = self.effects(b, env, pred, list(ev))
        ins = self.blocks.get(b, [])
        t = [x for x in ins if x[2] in TERM]
        if not t:
            self.traces.append(tuple(evs) + (self.leaves(b if not any(a[0] == "bb" for a in b) else V(("open",)), env),))
            return
        t = t[0]
        a = [self.sub(x, env) if isinstance(x, (frozenset, tuple)) else x for x in t[3]]
        if t[2] in ("CreateBr", "goto"):
            return self.go(t[3][0], evs, env, b, seen)
        if t[2] == "CreateCondBr":
            c, pol = truth(a[0])
            d = self.decided(c)
            if d is not None:
                for x in d:
                    self.go(t[3][1] if x == pol else t[3][2], evs, env, b, seen)
                return
            for p, tgt in ((True, t[3][1]), (False, t[3][2])):
                want = p == pol
                known = [x for x in evs if x[0] == "if" and x[1] == c and x[3] == len([y for y in evs if y[0] not in ("if",)])]
                if known and known[-1][2] != want:
                    continue
                self.go(tgt, evs + [("if", c, want, len([y for y in evs if y[0] not in ("if",)]))], env, b, seen)
            return
        if t[2] == "CreateInvoke":
            r = V(("op", "result", (a[0],) + tuple(a[3:])))
            env[next(iter(t[4]))] = r
            return self.go(t[3][1], evs + [("invoke", a[2], a[0]) + tuple(a[3:])], env, b, seen)
        if t[2] == "CreateSwitch":
            d = self.decided(a[0])
            if d is not None:
                for x in d:
                    tgt = [g for v, g in self.cases.get(t[4], []) if const(v) == x] or [t[3][1]]
                    self.go(tgt[0], evs, env, b, seen)
                return
            for v, tgt in self.cases.get(t[4], []):
                self.go(tgt, evs + [("case", a[0], v)], env, b, seen)
            self.go(t[3][1], evs + [("case", a[0], None)], env, b, seen)
            return
        self.traces.append(tuple(evs) + ((t[2],) + tuple(a[:1]),))

    def loaded(self, addr, env):
        return V(("op", "load", (addr,)))

    def stored(self, addr, v, env):
        return True

    def done(self, child, env):
        pass

    def leaves(self, b, env):
        return ("leave", b)

    def decided(self, v):
        """the values a branch can be on, when they are known"""
        return None

    def effects(self, b, env, pred, evs):
        for x in self.blocks.get(b, []):
            k, args, r = x[2], x[3], next(iter(x[4])) if x[4] else None
            if k in TERM:
                break
            if k == "CreatePHI":
                vs = [v for v, p in self.phis.get(x[4], []) if p == pred]
                if len(vs) != 1:
                    self.bad.append("a PHI node has %d values for one of the ways into its block" % len(vs))
                    env[r] = VOID
                else:
                    env[r] = self.sub(vs[0], env)
                continue
            a = tuple(self.sub(y, env) if isinstance(y, (frozenset, tuple)) else y for y in args)
            if k == "CreateLoad":
                env[r] = self.loaded(a[1], env)
                continue
            if k == "CreateAlloca":
                env[r] = op("alloca", a[0])
                continue
            if k in ("CreateCall", "call"):
                res = ("op", "result", a)
                env[r] = V(res)
                evs.append(("call",) + a)
                continue
            if k == "CreateStore":
                if self.stored(a[1], a[0], env):
                    evs.append(("store",) + a)
                continue
            if k == "proc":
                evs.append(("proc", a[0]))
                self.done(a[0], env)
                continue
            evs.append((k,) + a)
        return evs


def const(v):
    a = next(iter(v)) if isinstance(v, frozenset) and len(v) == 1 else None
    if a and a[0] == "enum":
        return a[1].split("::")[-1]
    if a and a[0] == "int":
        return a[1]
    return None


def truth(v):
    """what a branch tests, and for which outcome it is taken"""
    pol = True
    while len(v) == 1:
        a = next(iter(v))
        if a[0] != "op":
            break
        if a[1] in ("Trunc", "IntCast", "ZExt", "IsNotNull"):
            v = a[2][0]
        elif a[1] in ("ICmpNE", "ICmpEQ") and a[2][1] == INT(0):
            v = a[2][0]
            pol = pol == (a[1] == "ICmpNE")
        elif a[1] in ("Not", "IsNull"):
            v = a[2][0]
            pol = not pol
        elif a[1] in ("ICmpSGE", "ICmpSLE", "ICmpSGT", "ICmpSLT"):
            x, y = a[2][:2]
            if a[1] == "ICmpSLT":
                return op("<", x, y), pol
            if a[1] == "ICmpSGT":
                return op("<", y, x), pol
            if a[1] == "ICmpSGE":
                return op("<", x, y), not pol
            return op("<", y, x), not pol
        else:
            break
    return v, pol


TAIL = {"", "''", "null", "0", "False"}
KEEPTAIL = ("coro_promise", "coro_suspend", "coro_id", "coro_end", "InsertValue", "ExtractValue", "Mul", "Add", "Sub", "SExtOrTrunc", "ZExtOrTrunc")
# how many operands an instruction has; the rest are names and flags
ARITY = {"Add": 2, "Sub": 2, "Mul": 2, "InsertValue": 3, "ExtractValue": 2, "InBoundsGEP": 3, "GEP": 3, "SExtOrTrunc": 2, "ZExtOrTrunc": 2, "StructGEP": 3,
         "ConstGEP1_64": 3}


def callee(v):
    a = next(iter(v)) if isinstance(v, frozenset) and len(v) == 1 else None
    if a and a[0] == "op" and a[1] in ("getDeclaration", "getOrInsertDeclaration") and len(a[2]) > 1:
        return sh(a[2][1])
    if a and a[0] == "op" and a[1].startswith("make") and a[1].endswith("Func"):
        return a[1][4:-4] + ("(%s)" % ", ".join(sh(x) for x in a[2]) if a[2] else "")
    if a and a[0] == "op" and a[1] == "FunctionCallee" and len(a[2]) == 2:
        return "F[%s](%s)" % (sh(a[2][0]), sh(a[2][1]))
    return sh(v)


def args(vs):
    out = []
    for x in vs:
        if isinstance(x, tuple) and x and x[0] == "list":
            out += [sh(y) for y in x[1]]
        elif sh(x) not in ("", "''", "null") and not sh(x).endswith("*>()"):
            out.append(sh(x))
    return ", ".join(out)


def sh(v):
    if isinstance(v, tuple) and v and v[0] == "list":
        return "[" + ", ".join(sh(x) for x in v[1]) + "]"
    if not isinstance(v, frozenset):
        return str(v)
    out = []
    for a in v:
        if a[0] == "op" and a[1] == "result":
            out.append("ret:%s(%s)" % (callee(a[2][0]), args(a[2][1:])))
        elif a[0] == "op" and a[1] == "value" and len(a[2]) == 1:
            out.append(sh(a[2][0]))
        elif a[0] == "op" and a[1] == "arg_begin":
            out.append("arg")
        elif a[0] == "op":
            ops = [sh(x) for x in (a[2][:ARITY[a[1]]] if a[1] in ARITY else a[2])]
            if a[1] in ("Add", "Mul"):
                ops.sort()
            out.append("%s(%s)" % (a[1].split("::")[-1], ", ".join(ops)))
        elif a[0] == "src":
            out.append(".".join((a[1],) + a[2]))
        elif a[0] == "bool" or a == ("int", True) or a == ("int", False):
            out.append("1" if a[1] else "0")
        else:
            t = "arg" if "arg_begin" in repr(a) else show(V(a))
            out.append({"False": "0", "True": "1"}.get(t, re.sub(r"^idx:\d+$", "idx", t)))
    return "|".join(sorted(out))


def line(t):
    out = []
    for e in t:
        if e[0] == "if":
            out.append(("" if e[2] else "!") + sh(e[1]))
        elif e[0] == "call":
            out.append("call %s(%s)" % (callee(e[1]), args(e[2:])))
        elif e[0] == "invoke":
            out.append("call %s(%s) unwinding to %s" % (callee(e[2]), args(e[3:]), sh(e[1])))
        elif e[0] == "store":
            out.append("store %s -> %s" % (sh(e[1]), sh(e[2])))
        elif e[0] == "case":
            out.append("case %s = %s" % (sh(e[1]), "default" if e[2] is None else sh(e[2])))
        else:
            out.append(e[0] + ("" if len(e) == 1 else " " + ", ".join(sh(x) for x in e[1:])))
    return "; ".join(out)


def behaviours(ai, s, start=START, limit=2):
    w = Walk(ai, s, limit)
    w.go(start)
    return w


# ---------------------------------------------------------------------------------------------------- judging

class Lits:
    """one conjunction of conditions, by the text of its literals"""

    def __init__(self, cj):
        self.d = {}
        for a, p in cj:
            if a[0] == "nz":
                self.d[sh(a[1])] = p
            elif a[0] == "eq":
                self.d["%s==%s" % (sh(a[1]), sh(a[2]))] = p
                self.d["%s==%s" % (sh(a[2]), sh(a[1]))] = p

    def __call__(self, k):
        r = self.d.get(k)
        if r is None and not k.startswith("size("):
            for z in ("null", "0"):
                if "%s==%s" % (k, z) in self.d:
                    return not self.d["%s==%s" % (k, z)]
        return r

    def size(self, k):
        for f in ("size(%s)", "empty(%s)"):
            if f % k in self.d:
                return self.d[f % k] == (f[0] == "s")
        return None

    def less(self, a, b, strict=True):
        """whether a < b, for numbers that are never the same"""
        for x, y, n in ((a, b, False), (b, a, True)):
            for o, flip in (("<", False), ("<=", False), (">", True), (">=", True)):
                k = "%s(%s, %s)" % ((o,) + ((y, x) if flip else (x, y)))
                if k in self.d:
                    return self.d[k] != n
        return None


IGNORED = re.compile(r"; exit .*$|^exit .*$")


def norm(t, value):
    """the text of a trace; the order of stores that follow each other does not matter"""
    ev, i = list(t), 0
    while i < len(ev):
        j = i
        while j < len(ev) and ev[j][0] == "store":
            j += 1
        ev[i:j] = sorted(ev[i:j], key=lambda e: sh(e[2]))
        i = j + 1
    l = line(ev)
    if not value:
        l = re.sub(r"(^|; )exit .*$", r"\1exit", l)
    return l


class Kinds:
    """what the generated code of a node has to do: L answers questions about the path, the result is the set of its traces"""
    val = {"TernaryInstr", "ExtractInstr", "CallInstr", "YieldInInstr", "PointerValue", "VarValue", "TypePropertyInstr", "Int", "Float", "Bool"}

    @staticmethod
    def SeriesFlow(L):
        return {"proc x.series.[]; exit"}

    @staticmethod
    def IfFlow(L):
        out = set()
        for pol, b in (("", "x.trueBranch"), ("!", "x.falseBranch")):
            p = L(b)
            if p is None:
                p = True
            out.add("proc x.cond; %sval(x.cond); %sexit" % (pol, "proc %s; " % b if p else ""))
        return out

    @staticmethod
    def rounds(pre, stop, rnd):
        return {pre + stop + "; exit", pre + rnd + "; " + stop + "; exit", pre + rnd + "; " + rnd + "; again"}

    @staticmethod
    def WhileFlow(L):
        if L("x.body") is False:
            return None
        return Kinds.rounds("", "proc x.cond; !val(x.cond)", "proc x.cond; val(x.cond); proc x.body")

    @staticmethod
    def next_(it, ty):
        d = "call coro_resume(%s); call coro_done(%s); " % (it, it)
        pr = "coro_promise(%s, getPrefTypeAlign(getDataLayout(this.M), %s), 0)" % (it, ty)
        return d + "ret:coro_done(%s); call coro_destroy(%s)" % (it, it), d + "!ret:coro_done(%s)" % it, "call " + pr, "load(ret:%s)" % pr

    @staticmethod
    def ForFlow(L, pre=True):
        if L("x.body") is False or L("x.schedule"):
            return None
        ty = "getLLVMType(x.var.type)"
        stop, go, call, load = Kinds.next_("val(x.iter)", ty)
        if L("isVoidTy(%s)" % ty) is not True:
            go += "; %s; store %s -> getVar(x.var)" % (call, load)
        return Kinds.rounds("proc x.iter; " if pre else "", stop, go + "; proc x.body")

    @staticmethod
    def ImperativeForFlow(L, cur="val(x.start)", pre="proc x.start; proc x.end; "):
        if L("x.body") is False or L("x.schedule"):
            return None
        up = L.less("0", "x.step")
        if up is None:
            return {"the sign of the step decides how the end is compared"}
        c = "%%s<(%s, val(x.end))" if up else "%%s<(val(x.end), %s)"
        nxt = "Add(%s, x.step)"
        r = lambda i: (c % i) % ""
        s = lambda i: "store %s -> getVar(x.var); proc x.body" % i
        n1 = nxt % cur
        stop = lambda i: (c % i) % "!"
        return {pre + stop(cur) + "; exit", pre + r(cur) + "; " + s(cur) + "; " + stop(n1) + "; exit",
                pre + r(cur) + "; " + s(cur) + "; " + r(n1) + "; " + s(n1) + "; again"}

    @staticmethod
    def TernaryInstr(L):
        return {"proc x.cond; val(x.cond); proc x.trueValue; exit val(x.trueValue)",
                "proc x.cond; !val(x.cond); proc x.falseValue; exit val(x.falseValue)"}

    @staticmethod
    def place(L, var, f="x.lhs"):
        return "ThreadLocalAddress(%s)" % var if L(f + ".tls") else var

    @staticmethod
    def AssignInstr(L):
        if L("getDummyVoidValue()==getVar(x.lhs)"):
            return {"proc x.rhs; exit"}
        return {"proc x.rhs; store val(x.rhs) -> %s; exit" % Kinds.place(L, "getVar(x.lhs)")}

    @staticmethod
    def member(L, v, of):
        if L("isa(doGetType(%s), 'codon::ir::types::RefType')" % of):
            if L(".polymorphic(doGetType(%s))" % of):
                v = "load(%s)" % v
            return v, "load(%s)" % v
        return v, v

    @staticmethod
    def ExtractInstr(L):
        return {"proc x.val; exit ExtractValue(%s, getMemberIndex(doGetType(x.val), x.field))" % Kinds.member(L, "val(x.val)", "x.val")[1]}

    @staticmethod
    def InsertInstr(L):
        p, l = Kinds.member(L, "val(x.lhs)", "x.lhs")
        return {"proc x.lhs; proc x.rhs; store InsertValue(%s, val(x.rhs), getMemberIndex(doGetType(x.lhs), x.field)) -> %s; exit" % (l, p)}

    @staticmethod
    def CallInstr(L):
        f = "F[getLLVMFuncType(doGetType(x.callee))](val(x.callee))(val(x.args.[]))"
        return {"proc x.callee; proc x.args.[]; call %s; exit ret:%s" % (f, f)}

    @staticmethod
    def jump(L, blk, state):
        loop = None
        if L("x.loop"):
            for k, p in L.d.items():
                m = re.match(r"getId\(x\.loop\)==(this\.loops\.\[.{0,2}\])\.loopId$", k)
                if m and p:
                    loop = m.group(1)
            if loop is None:
                return None
        elif L("x.loop") is False:
            loop = "this.loops.[-1]"
        else:
            return {"the loop that is meant is looked up"}
        f = "this.finally.[-1]"
        if L.size("this.finally"):
            d = L.less(f + ".sequenceNumber", loop + ".sequenceNumber")
            if d is None:
                return {"the finally parts entered since the loop was are found by their number"}
            if not d:
                return {"store %s -> %s.excFlag; store %s.sequenceNumber -> %s.loopSequence; leave %s.finallyBlock" % (state, f, loop, f, f)}
        elif L.size("this.finally") is None:
            return {"the finally parts entered since the loop are looked at"}
        return {"leave %s.%s" % (loop, blk)}

    @staticmethod
    def BreakInstr(L):
        return Kinds.jump(L, "breakBlock", "BREAK")

    @staticmethod
    def ContinueInstr(L):
        return Kinds.jump(L, "continueBlock", "CONTINUE")

    @staticmethod
    def innermost(L):
        """the try statement whose finally part comes next: None without one, "?" when the path does not tell"""
        t, f = L.size("this.trycatch"), L.size("this.finally")
        tc, fi = "this.trycatch.[-1]", "this.finally.[-1]"
        if t is None and f is None:
            return "?"
        if t and f:
            d = L.less(tc + ".sequenceNumber", fi + ".sequenceNumber")
            return "?" if d is None else fi if d else tc
        if t:
            return tc if f is False else "?"
        if f:
            return fi if t is False else "?"
        return None if t is False and f is False else "?"

    @staticmethod
    def ReturnInstr(L):
        to = Kinds.innermost(L)
        if to == "?":
            return {"the try statement whose finally part has to run next is decided"}
        v = L("x.value")
        pre = "proc x.value; " if v else ""
        val = "val(x.value)" if v else "this.value"
        st = []
        if L("this.coro.exit"):
            if L("this.coro.async"):
                st.append("store %s -> this.coro.promise" % val)
            end = "leave this.coro.exit"
        else:
            end = "CreateRet val(x.value)" if v else "CreateRetVoid"
        if to:
            st.append("store RETURN -> %s.excFlag" % to)
            keep = L(to + ".retStore")
            if not L("this.coro.exit") and (v if keep is None else keep):
                if not v:
                    return None
                st.append("store val(x.value) -> %s.retStore" % to)
            end = "leave %s.finallyBlock" % to
        out = {"; ".join([pre[:-2]] * bool(pre) + sorted(st, key=lambda t: t.split("-> ")[1]) + [end])}
        if not v and L("this.coro.async"):
            return None
        return out

    @staticmethod
    def suspend(pre, final, val="exit", unsuspended=""):
        c = "coro_suspend(get(this.context), %s)" % final
        pre = pre + "call %s; case ret:%s = " % (c, c)
        return {pre + "0; " + val, pre + "1; leave this.coro.cleanup", pre + "default; leave this.coro.suspend"}

    @staticmethod
    def YieldInstr(L):
        v = L("x.value")
        if L("val(x.value)") is False:
            return None
        pre = "proc x.value; store val(x.value) -> this.coro.promise; " if v else ""
        if not L("x.final"):
            return Kinds.suspend(pre, "0")
        to = Kinds.innermost(L)
        if to == "?":
            return {"the try statement whose finally part has to run next is decided"}
        if to:
            st = ["store RETURN -> %s.excFlag" % to] + (["store val(x.value) -> this.coro.promise"] if v else [])
            return {("proc x.value; " if v else "") + "; ".join(sorted(st, key=lambda t: t.split("-> ")[1])) + "; leave %s.finallyBlock" % to}
        return {pre + "leave this.coro.exit"}

    @staticmethod
    def YieldInInstr(L):
        if L("x.suspend"):
            return Kinds.suspend("", "0", "exit load(this.coro.promise)")
        return {"exit load(this.coro.promise)"}

    @staticmethod
    def ThrowInstr(L):
        if L("glob:codon::ir::DisableExceptions"):
            return {"CreateUnreachable"}
        e = "val(x.value)" if L("x.value") else "this.catches.[-1].exception"
        return {("proc x.value; " if L("x.value") else "") + "call ExcAlloc(%s); call Throw(ret:ExcAlloc(%s)); exit" % (e, e)}

    @staticmethod
    def FlowInstr(L):
        return None if L("x.flow") is False else {"proc x.flow; proc x.val; exit"}

    @staticmethod
    def VarValue(L):
        if L("x.val"):
            return {"exit getFunc(x.val)"}
        return {"exit load(%s)" % Kinds.place(L, "getVar(x.val)", "x.val")}

    @staticmethod
    def PointerValue(L):
        v = Kinds.place(L, "getVar(x.val)", "x.val")
        if L.size("x.fields") is False:
            return {"exit " + v}
        return {"exit InBoundsGEP(getLLVMType(x.val.type), %s, [0|getMemberIndex(x.val.type, x.fields.[])])" % v}

    @staticmethod
    def TypePropertyInstr(L):
        for k, r in (("SIZEOF", None), ("IS_ATOMIC", "doIsAtomic"), ("IS_CONTENT_ATOMIC", "doIsContentAtomic")):
            if L("%s==x.property" % k):
                if not r:
                    return {"exit getTypeAllocSize(getDataLayout(this.M), getLLVMType(x.inspectType))"}
                p = L("%s(x.inspectType)" % r)
                return {"exit %d" % p} if p is not None else {"the answer is that of " + r}
        return None

    @staticmethod
    def Int(L):
        return {"exit x.val"}

    @staticmethod
    def Float(L):
        return {"exit get(getDoubleTy(this.B), x.val)"}

    @staticmethod
    def Bool(L):
        return {"exit x.val"} if L("x.val") is None else {"exit %d" % L("x.val")}


CONST = {"TemplatedConst<long>": "Int", "TemplatedConst<double>": "Float", "TemplatedConst<bool>": "Bool"}


def judge(c, f, what, ai, s, expect, value, start=START, env=None, clause="behaviour"):
    w = Walk(ai, s)
    w.go(start, env=env)
    for b in w.bad:
        c.viol("%s:insertion" % what, f.where, "%s: %s" % (what, b))
    got = {norm(t, value) for t in w.traces}
    for cj in dnf(s.conds()):
        L = Lits(cj)
        exp = expect(L)
        if exp is None:
            continue
        if got != exp:
            x, m = sorted(got - exp), sorted(exp - got)
            msg = "the code generated for %s does «%s»" % (what, x[0][:300]) if x else "the code generated for %s never does" % what
            c.viol("%s:%s" % (what, clause), f.where, msg + (" instead of «%s»" % m[0][:300] if m else ""))
        else:
            c.ok(clause, what + ": " + sorted(got)[0][:80])
    return w


def loops(c, f, what, ai, s):
    """where break and continue go in the body of a loop"""
    ent = [i for i, e in enumerate(s.trace) if e[0] == "enterLoop"]
    body = [i for i, e in enumerate(s.trace) if e[0] == "ins" and e[2] == "proc" and e[3][0] == src("x", "body")]
    ext = [i for i, e in enumerate(s.trace) if e[0] == "exitLoop"]
    if not body:
        return
    if len(ent) != 1 or len(ext) != 1 or not ent[0] < body[0] < ext[0]:
        c.viol(what + ":scope", f.where, "the body of a %s is not generated inside its loop" % what)
        return
    _, brk, cont, lid = s.trace[ent[0]]
    if sh(lid) != "getId(x)" and lid != src("x", "id"):
        c.viol(what + ":id", f.where, "the loop is recorded as %s, not as the number of the %s" % (sh(lid), what))
    env = {a: op("cur") for e in s.trace if e[0] == "ins" and e[2] == "CreatePHI" for a in e[4]}
    judge(c, f, what, ai, s, lambda L: {"exit"}, False, brk, env, "break")
    if what == "WhileFlow":
        exp = Kinds.WhileFlow
    elif what == "ForFlow":
        exp = lambda L: Kinds.ForFlow(L, False)
    else:
        exp = lambda L: Kinds.ImperativeForFlow(L, "Add(cur(), x.step)", "")
    judge(c, f, what, ai, s, exp, False, cont, env, "continue")
    c.ok("loop scope", what)


def nodes(c, P):
    for f in [f for f in P.funcs.values() if f.get("cls") == LV and f["n"] == "visit" and f.get("body") is not None]:
        cls = strip_t(f["T"][f["params"][0]["t"]]).rstrip("* ")
        kind = cls.split("::")[-1]
        for k, v in CONST.items():
            if cls.endswith(k):
                kind = v
        if not hasattr(Kinds, kind):
            continue
        exp = getattr(Kinds, kind)
        for ai, s, r in runf(P, f, cls):
            judge(c, f, kind, ai, s, exp, kind in Kinds.val)
            if kind in ("WhileFlow", "ForFlow", "ImperativeForFlow"):
                loops(c, f, kind, ai, s)
        c.ok("kinds", kind)


class PClient(GClient):
    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if f["n"] == "codegenPipeline" and f.get("cls") == LV:
            st = st.copy()
            b, nb = self.blk(ai, st), V(("bb", ai.fresh()))
            st.trace += (("ins", b, "rest", (ai.getf(st, THIS, "value"),) + tuple(vs[1:]), VOID), ("ins", b, "goto", (nb,), VOID))
            ai.setf(st, THIS, "block", nb)
            ai.setf(st, src("ir"), "ip", STALE)
            ai.setf(st, THIS, "value", op("after"))
            return [(st, VOID)]
        return GClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def stage(w, val, L):
    a = L("stages.[%d].args.[]" % w)
    f = "F[getLLVMFuncType(doGetType(stages.[%d].callee))](val(stages.[%d].callee))(%s)" % (w, w, "val(stages.[%d].args.[])" % w if a else val)
    return "proc stages.[%d].callee; %scall %s; rest ret:%s, %d" % (w, "proc stages.[%d].args.[]; " % w if a else "", f, f, w + 1)


def pipeline(c, P):
    f = fn_for(P, "codegenPipeline")
    for w in (0, 1, 2):
        def exp(L):
            if L.less("%d" % w, "size(stages)") is False:
                return {"exit"}
            if w == 0:
                return {"proc stages.[0].callee; rest val(stages.[0].callee), 1; exit"}
            prev = "stages.[%d]" % (w - 1)
            g = L(prev + ".generator")
            if g is None:
                return {"whether the previous stage is a generator decides"}
            if not g:
                return {stage(w, "this.value", L) + "; exit"}
            stop, go, call, load = Kinds.next_("this.value", "getLLVMType(.base(getOutputType(%s)))" % prev)
            return Kinds.rounds("", stop, go + "; " + call + "; " + stage(w, load, L))
        for ai, s, r in runf(P, f, args=[src("stages"), INT(w)], client=PClient):
            judge(c, f, "a pipeline", ai, s, exp, False, clause="pipeline")


def calls(c, P):
    f = fn_for(P, "call")

    def exp(L):
        off = L("glob:codon::ir::DisableExceptions")
        to = Kinds.innermost(L)
        plain = {"call a(b); exit"}
        if off or to is None:
            return plain
        if to == "?":
            if off is None and L.size("this.trycatch") is False and L.size("this.finally") is False:
                return plain
            return {"the innermost try statement or finally part is decided"}
        return {"call a(b) unwinding to %s.%s; exit" % (to, "exceptionBlock" if "trycatch" in to else "finallyExceptionBlock")}
    for ai, s, r in runf(P, f, args=[src("a"), src("b")]):
        w = judge(c, f, "a call", ai, s, exp, False, clause="unwinding")
        res = [e[4] for e in s.trace if e[0] == "ins" and e[2] in ("CreateCall", "CreateInvoke")]
        if len(res) != 1 or r != res[0]:
            c.viol("call:result", f.where, "call() does not answer the result of the call")
    f = fn_for(P, "makeYield")
    for ai, s, r in runf(P, f, args=[src("v"), src("final")]):
        judge(c, f, "a suspension", ai, s, lambda L: Kinds.suspend("store v -> this.coro.promise; " if L("v") else "", "final"), False, clause="suspension")
    f = fn_for(P, "makeAllocFunc")
    for ai, s, r in runf(P, f, args=[src("atomic"), src("uncollectable")]):
        for cj in dnf(s.conds()):
            L = Lits(cj)
            want = "seq_alloc" + ("_atomic" if L("atomic") else "") + ("_uncollectable" if L("uncollectable") else "")
            got = re.findall(r"'(seq_alloc\w*)'", sh(r))
            if L("atomic") is None or L("uncollectable") is None or got != [want]:
                c.viol("makeAllocFunc:name", f.where, "the allocation function is %s instead of %s" % (got, want))
            else:
                c.ok("allocation", want)


class FClient(GClient):
    """whole functions: attributes and source positions are not followed"""

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm = f["n"]
        if nm.startswith("internalFuncMatches"):
            return [(st, op("match", V(("str", ",".join(t.rstrip(">").split("::")[-1] for t in f.get("targs", [])))), vs[0]))]
        if nm in ("getSrcInfo", "getAttribute", "hasAttribute", "has") and not f["qn"].startswith("llvm"):
            return [(st, op(nm, *([o] if o is not None else []), *vs))]
        if nm in ("setLinkage", "addFnAttr") and f["qn"].startswith("llvm"):
            st = st.copy()
            st.trace += ((nm, vs[0]),)
            return [(st, VOID)]
        return GClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


NULL = "get(getPtrTy(this.B, 0))"


def internal(L):
    m = {k: p for k, p in L.d.items() if k.startswith("match(")}
    hit = [re.findall(r"'([^']*)'", k) for k, p in m.items() if p]
    if len(hit) != 1:
        return {"one kind of library function"}
    types, name = hit[0]
    if (types, name) == ("PointerType,IntType", "__new__"):
        a = "Alloc(doIsAtomic(x.parentType.base), 0)(%s)" % "Mul(arg, getTypeAllocSize(getDataLayout(this.M), getLLVMType(x.parentType.base)))"
        return {"call %s; CreateRet ret:%s" % (a, a)}
    if (types, name) in (("IntType,IntNType", "__new__"), ("IntNType,IntType", "__new__")):
        frm = types.startswith("IntType")
        p = next((L(k) for k in (("x.type.argTypes.[0].sign", "x.type.argTypes.[].sign") if frm else ("x.parentType.sign",)) if L(k) is not None), None)
        if p is None:
            return {"the sign of the " + ("argument" if frm else "type")}
        return {"CreateRet %sExtOrTrunc(arg, %s)" % ("S" if p else "Z", "getInt64Ty(this.B)" if frm else "getLLVMType(x.parentType)")}
    if (types, name) == ("GeneratorType,GeneratorType", "__promise__"):
        ty = "getLLVMType(x.parentType.base)"
        if L("isVoidTy(%s)" % ty):
            return {"CreateRet get(getPointerTo(getVoidTy(this.B), 0))"}
        a = "coro_promise(arg, getPrefTypeAlign(getDataLayout(this.M), %s), 0)" % ty
        return {"call %s; CreateRet ret:%s" % (a, a)}
    if (types, name) == ("RecordType", "__new__"):
        return {"CreateRet InsertValue(get(getLLVMType(x.type.rType)), arg, idx)"}
    return {"a library function that is known"}


def entry(s):
    for e in s.trace:
        if e[0] == "ins":
            return e[1]
    return START


def body(L):
    void = lambda t: L("isa(%s, 'codon::ir::types::VoidType')" % t) if L("isa(%s, 'codon::ir::types::VoidType')" % t) is not None else L(t)
    a = "store arg -> alloca(getLLVMType(x.args.[].type)); " if L("it(x.args,cur)==it(x.args,end)") is False else ""
    if not L("x.generator") and not L("x.async"):
        if L("x.generator") is None or L("x.async") is None:
            return {"generators and coroutines are told from functions"}
        return {a + "proc x.body; " + ("CreateRetVoid" if void("x.type.rType") else "CreateRet getNullValue(getLLVMType(x.type.rType))")}
    pr = NULL if void("x.type.rType.base") else "alloca(getLLVMType(x.type.rType.base))"
    idc = "coro_id(0, %s, %s, %s)" % (pr, NULL, NULL)
    i = "ret:" + idc
    out = set()
    for al in (True, False):
        mem = "ret:Alloc(0, 0)(ret:coro_size())" if al else NULL
        h = "ret:coro_begin(%s, %s)" % (i, mem)
        end = "call coro_end(%s, 0, get(this.context)); CreateRet %s" % (h, h)
        fr = "coro_free(%s, %s)" % (i, h)
        clean = ["call %s; %sret:%s; %s" % (fr, n, fr, end) for n in ("", "!")]

        def susp(final, rest):
            cs = "coro_suspend(get(this.context), %d)" % final
            p = "call %s; case ret:%s = " % (cs, cs)
            return [p + "0; " + r for r in rest] + [p + "1; " + r for r in clean] + [p + "default; " + end]
        pre = a + "call %s; call coro_alloc(%s); " % (idc, i)
        pre += "ret:coro_alloc(%s); call coro_size(); call Alloc(0, 0)(ret:coro_size()); " % i if al else "!ret:coro_alloc(%s); " % i
        pre += "call coro_begin(%s, %s); " % (i, mem)
        out |= {pre + r for r in susp(0, ["proc x.body; " + r for r in susp(1, ["CreateUnreachable"])])}
    return out


def functions(c, P):
    f = fn_for(P, "visit", lambda t: t.endswith("::InternalFunc"))
    for ai, s, r in runf(P, f, "codon::ir::InternalFunc", client=FClient):
        judge(c, f, "a library function", ai, s, internal, True, start=entry(s), clause="library")
    f = fn_for(P, "visit", lambda t: t.endswith("::BodiedFunc"))
    done = set()
    for ai, s, r in runf(P, f, "codon::ir::BodiedFunc", client=FClient):
        judge(c, f, "a function", ai, s, body, True, start=entry(s), clause="function")
        al = {a: e[3][0] for e in s.trace if e[0] == "ins" and e[2] == "CreateAlloca" for a in e[4]}
        for e in s.trace:
            if e[0] == "insertVar":
                v, p = e[1], e[2]
                ty = al.get(next(iter(p))) if len(p) == 1 else None
                want = "getLLVMType(%s.type)" % sh(v)
                if ty is not None and sh(ty) == want or sh(p) == "getDummyVoidValue()" and all(Lits(cj)("isVoidTy(%s)" % want) for cj in dnf(s.conds())):
                    c.ok("variables", sh(v))
                else:
                    c.viol("function:storage", f.where, "%s is kept in %s" % (sh(v), sh(ty) if ty else sh(p)))
        link = [sh(e[1]) for e in s.trace if e[0] == "setLinkage"]
        attr = {sh(e[1]) for e in s.trace if e[0] == "addFnAttr"}
        for cj in dnf(s.conds()):
            L = Lits(cj)
            has = lambda n: any(re.search(r"\b%s\b" % n, k) and p and k.startswith("has") for k, p in L.d.items())
            pub = L("x.jit") or has("EXPORT_ATTR") or has("GPU_KERNEL_ATTR")
            if not link or link[-1].startswith("External") != bool(pub):
                c.viol("function:linkage", f.where, "a function that is%s exported gets %s" % ("" if pub else " not", link[-1:] or "no linkage"))
            for n, w in (("INLINE_ATTR", "AlwaysInline"), ("NOINLINE_ATTR", "NoInline")):
                got = any(w in x for x in attr)
                want = has(n) or n == "NOINLINE_ATTR" and has("GPU_KERNEL_ATTR")
                if got != want:
                    c.viol("function:" + w, f.where, "%s is %sset on a function that %s it" % (w, "" if got else "not ", "asks for" if want else "does not ask for"))
                else:
                    c.ok("function attributes", w)


class ArgClient(FClient):
    """the parameters of the LLVM function are numbered"""
    twice = True

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if f["n"] == "arg_begin" and "llvm" in f["qn"]:
            return [(st, INT(0))]
        if f["n"] == "getArg" and "llvm" in f["qn"] and num(vs[0]) is not None:
            return [(st, INT(num(vs[0])))]
        return FClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def parameters(c, P):
    f = fn_for(P, "visit", lambda t: t.endswith("::BodiedFunc"))

    def setup(ai, st):
        for v in (src("x", "generator"), src("x", "async"), src("x", "jit")):
            st = ai.assume(st, v, False)
        return st
    seen = set()
    for ai, s, r in runf(P, f, "codon::ir::BodiedFunc", client=ArgClient, setup=setup):
        al = {a: sh(e[3][0]) for e in s.trace if e[0] == "ins" and e[2] == "CreateAlloca" for a in e[4]}
        got = [num(e[3][0]) for e in s.trace if e[0] == "ins" and e[2] == "CreateStore" and any("x.args" in al.get(a, "") for a in e[3][1])]
        if not got:
            continue
        seen.add(tuple(got))
        if None not in got and got != list(range(len(got))):
            c.viol("function:parameters", f.where, "the first parameters' storage gets the parameters numbered %s" % got)
        else:
            c.ok("parameters", str(got))
    return seen


def data(c, P):
    f = fn_for(P, "visit", lambda t: t.endswith("::StackAllocInstr"))
    for ai, s, r in runf(P, f, "codon::ir::StackAllocInstr"):
        al = [e for e in s.trace if e[0] == "ins" and e[2] == "CreateAlloca"]
        v = sh(ai.getf(s, THIS, "value"))
        ok = len(al) == 1 and len(al[0][3]) > 1 and sh(al[0][3][1]) == "x.count" and re.fullmatch(r"getLLVMType\(\.base\(\.type\((back\(x\.arrayType\)|.*\[-1\])\)\)\)", sh(al[0][3][0]))
        if not ok:
            c.viol("StackAllocInstr:memory", f.where, "the memory of an array on the stack is %s" % "; ".join(args(e[3]) for e in al))
        elif "getEntryBlock" not in sh(al[0][1]):
            c.viol("StackAllocInstr:place", f.where, "an array on the stack is allocated at %s: again each time around a loop" % sh(al[0][1]))
        elif not re.search(r"InsertValue\(InsertValue\(.*, x\.count, 0\), %s, 1\)$" % re.escape(sh(al[0][4])), v):
            c.viol("StackAllocInstr:value", f.where, "the array is %s" % v)
        else:
            c.ok("data", "array on the stack")
    f = fn_for(P, "visit", lambda t: "TemplatedConst<std::" in t)
    for ai, s, r in runf(P, f, strip_t(f["T"][f["params"][0]["t"]]).rstrip("* ")):
        v = sh(ai.getf(s, THIS, "value"))
        m = re.search(r"InsertValue\(InsertValue\(.*?, size\(x\.val\), 0\), (.*), 1\)$", v)
        if not m or "getString(this.context, x.val" not in m.group(1) or "GlobalVariable" not in m.group(1):
            c.viol("StringConst:value", f.where, "a string literal is %s" % v[:200])
        else:
            c.ok("data", "string literal")


class TClient(FClient):
    """a try statement with a given number of enclosing ones, whose handlers do not come into play"""
    parents = 0

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm, tc = f["n"], src("this", "trycatch")
        none = V(("none",))
        if nm in ("rbegin", "rend") and o == tc:
            return [(st, none)]
        if nm in ("operator!=", "operator==") and none in (o,) + tuple(vs):
            return [(st, INT(1 if nm == "operator==" else 0))]
        if nm == "anyMatch":
            return [(st, op("anyMatch"))]
        if nm == "size" and o == tc:
            return [(st, INT(self.parents))]
        if nm == "empty" and o == tc:
            return [(st, INT(0 if self.parents else 1))]
        return FClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)

    def on_ctor(self, ai, st, n, cls, vs, C):
        if cls.startswith("std::vector<unsigned int") and len(vs) >= 2 and num(vs[1]) is not None:
            st.trace += (("fill", vs[1]),)
        return FClient.on_ctor(self, ai, st, n, cls, vs, C)


class TWalk(Walk):
    """the bookkeeping of a try statement is followed instead of shown"""

    def setup(self, tc, depth=None):
        self.tc, self.own = tc, depth
        return self

    def loaded(self, addr, env):
        return env.get(("mem", addr), V(("op", "load", (addr,))))

    def stored(self, addr, v, env):
        env[("mem", addr)] = v
        return addr not in self.tc.values()

    def done(self, child, env):
        if child != src("x", "finally"):
            # a try statement in it leaves one of these
            env[("mem", self.tc["excFlag"])] = env.get(("mem", self.tc["excFlag"]), VOID) | NORMAL

    def leaves(self, b, env):
        st = env.get(("mem", self.tc["excFlag"]), VOID)
        return ("leave", b, V(("flag", "/".join(sorted(str(const(V(a))) for a in st)))), self.depth(env))

    def depth(self, env):
        d = env.get(("mem", self.tc["delegateDepth"]), VOID)
        n = num(d)
        return d if n is None else INT(n)

    def decided(self, v):
        vs = [const(V(a)) for a in v]
        if v and None not in vs:
            return vs
        a = next(iter(v)) if len(v) == 1 else None
        if a and a[0] == "op" and a[1] == "<":
            x, y = num(a[2][0]), num(a[2][1])
            y = self.own if a[2][1] == VOID else y
            if x is not None and y is not None:
                return [x < y]
        return None


def num(v):
    a = next(iter(v)) if isinstance(v, frozenset) and len(v) == 1 else None
    if a and a[0] == "int":
        return int(a[1])
    if a and a[0] == "op" and a[1] == "Sub":
        x, y = num(a[2][0]), num(a[2][1])
        return x - y if x is not None and y is not None else None
    return None


STATE = LV + "::TryCatchData::State::"


def tries(c, P):
    f = fn_for(P, "visit", lambda t: t.endswith("::TryCatchFlow"))
    en = {}

    def find(x):
        if isinstance(x, tuple):
            if x and x[0] == "enum" and len(x) > 1:
                en[x[1].split("::")[-1]] = V(x)
            for y in x:
                find(y)
        elif isinstance(x, frozenset):
            for y in x:
                find(y)
    sz = lambda x: op("size", src("this", x))
    for parents, inloop, els, void, coro in ((0, False, False, False, False), (0, True, True, True, False), (0, False, True, False, True), (1, False, True, False, False),
                                             (2, False, False, False, False), (1, True, False, True, False)):
        cl = TClient({"x": "codon::ir::TryCatchFlow"})
        cl.P, cl.parents = P, parents
        ai = AI(P, cl, max_paths=20000)
        st = State()
        ai.setf(st, THIS, "block", START)
        ai.setf(st, src("ir"), "ip", STALE)
        for v, p in ((V(("glob", "codon::ir::DisableExceptions")), False), (sz("loops"), inloop), (src("this", "coro", "exit"), coro), (src("x", "finally"), True),
                     (src("x", "else_"), els), (src("x", "body"), True), (op("size", src("x", "finally", "series")), True),
                     (op("isVoidTy", op("getReturnType", src("this", "func"))), void)):
            st = ai.assume(st, v, p)
        what = "a try statement%s%s" % (" in %d others" % parents if parents else "", " in a loop" if inloop else "")
        n = 0
        for s, r in ai.run(f, st, THIS, [src("x")]):
            if r is THROWN or all(mismatch(cj) for cj in dnf(s.conds())):
                continue
            n += 1
            find(s.trace)
            attempt(c, f, ai, s, what, en, parents, inloop, els, void, coro)
        if not n:
            raise AnalysisBroken("try statements: no path")


class NClient(TClient):
    """a try statement whose enclosing ones are looked through"""
    parents = 2

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if f["n"] in ("rbegin", "rend", "operator!=", "operator=="):
            return FClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)
        return TClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def inherited(c, P):
    """the handlers of enclosing statements are taken over, with a depth, up to the first for every exception"""
    f = fn_for(P, "visit", lambda t: t.endswith("::TryCatchFlow"))
    cl = NClient({"x": "codon::ir::TryCatchFlow"})
    cl.P = P
    ai = AI(P, cl, max_paths=20000)
    st = State()
    ai.setf(st, THIS, "block", START)
    ai.setf(st, src("ir"), "ip", STALE)
    for v, p in ((V(("glob", "codon::ir::DisableExceptions")), False), (op("size", src("this", "loops")), False), (src("this", "coro", "exit"), False),
                 (src("x", "finally"), True), (src("x", "else_"), False), (src("x", "body"), True), (op("size", src("x", "finally", "series")), True),
                 (op("isVoidTy", op("getReturnType", src("this", "func"))), False)):
        st = ai.assume(st, v, p)
    for s, r in ai.run(f, st, THIS, [src("x")]):
        if r is THROWN:
            continue
        for cj in dnf(s.conds()):
            if mismatch(cj):
                continue
            own = {p for k, p in cj if k[0] == "nz" and k[1] == src("x", "catches", "[]", "type")}
            asked = [p for k, p in cj if k[0] == "nz" and k[1] == op("anyMatch")]
            if own == {True} and not asked:
                c.viol("TryCatchFlow:delegation", f.where, "the handlers of enclosing statements are not looked at though no own handler is for every exception")
                continue
            c.ok("try delegation", "enclosing handlers")
            if asked != [False] or own != {True}:
                continue
            # the handler is new
            un = [a for a in s.heap if a[0] == "new" and str(a[2]).startswith("std::vector<unsigned int")]
            if len(un) == 1:
                vals = set().union(*[v for v in s.heap[un[0]].values() if isinstance(v, frozenset)] or [set()])
                if not vals or all(v[0] == "int" and v[1] == 0 for v in vals):
                    c.viol("TryCatchFlow:delegation", f.where, "a handler of an enclosing statement that was not listed is not listed with a depth")


def within(cj):
    """is the index at hand (of the loop over own and inherited handlers) that of an own catch / an own handler"""
    catches, handlers = set(), set()
    for k, pol in cj:
        for a in k[1] if k[0] == "nz" and len(k) > 1 and isinstance(k[1], frozenset) else ():
            if a[0] == "op" and a[1] == "<":
                for z in a[2][1]:
                    if z[0] == "op" and z[1] == "size":
                        for y in z[2][0]:
                            if y[0] == "new":
                                (catches if "Catch *" in str(y[2]) else handlers).add(pol)
    return catches, handlers


def mismatch(cj):
    """own handlers and own catches have the same number, so an index is within both or neither"""
    a, b = within(cj)
    return bool(a) and bool(b) and not a & b


def attempt(c, f, ai, s, what, en, parents, inloop, els, void, coro):
    global NORMAL
    tcs = [e[1] for e in s.trace if e[0] == "enterTry"]
    if len(tcs) != 1:
        c.viol("TryCatchFlow:scope", f.where, "%s: the body is not generated inside one try" % what)
        return
    names = ("excFlag", "catchStore", "delegateDepth", "retStore", "loopSequence")
    tc = {k: ai.getf(s, tcs[0], k) for k in names}
    blk = {k: ai.getf(s, tcs[0], k) for k in ("exceptionBlock", "exceptionRouteBlock", "finallyBlock", "finallyExceptionBlock")}
    if not {"NOT_THROWN", "CAUGHT"} <= set(en):
        raise AnalysisBroken("try statements: states")
    NORMAL = en["NOT_THROWN"] | en["CAUGHT"]
    # where the parts are generated
    pos = {}
    for i, e in enumerate(s.trace):
        k = e[0] if e[0] != "ins" else "proc " + sh(e[3][0]) if e[2] == "proc" else None
        if k:
            pos.setdefault(k, []).append(i)
    at = lambda k: pos.get(k, [-1])[0]
    last = lambda k: pos.get(k, [-1])[-1]
    rules = [("the body is inside its try", at("enterTry") < at("proc x.body") < at("exitTry")),
             ("the body is inside its finally", 0 <= at("enterFinally") < at("enterTry")),
             ("the try is over before the else part", not els or at("exitTry") < at("proc x.else_") < at("exitFinally")),
             ("the finally part is not inside itself", not at("enterFinally") < at("proc x.finally") < at("exitFinally"))]
    for h in [k for k in pos if k.startswith("proc") and ".handler" in k]:
        rules += [("a handler is after its try", at("exitTry") < at(h)), ("a handler is inside its finally", last(h) < at("exitFinally")),
                  ("a handler is inside its catch", at("enterCatch") < at(h) < at("exitCatch"))]
    for msg, ok in rules:
        if not ok:
            c.viol("TryCatchFlow:scope:" + msg, f.where, "%s: not so: %s" % (what, msg))
        else:
            c.ok("try scope", msg)
    outer = "this.trycatch.[-1]"
    if parents:
        for k in names:
            if sh(tc[k]) not in ("this.trycatch.[0]." + k, "this.trycatch.[-1]." + k):
                c.viol("TryCatchFlow:shared:" + k, f.where, "%s does not share the %s of the enclosing one" % (what, k))

    # the depth of an own handler is the initial one
    fill = [num(e[1]) for e in s.trace if e[0] == "fill"]
    fill = fill[0] if len(fill) == 1 and all(True in within(cj)[0] for cj in dnf(s.conds())) else None

    def walk(start, mem):
        w = TWalk(ai, s).setup(tc, fill)
        env = {("mem", k): v for k, v in mem.items()}
        w.go(start, env=env)
        for b in w.bad:
            c.viol("TryCatchFlow:insertion", f.where, "%s: %s" % (what, b))
        return {norm(t, False) for t in w.traces}

    def expect(key, got, exp, msg):
        ok = all(any(re.fullmatch(e, g) for e in exp) for g in got) and all(any(re.fullmatch(e, g) for g in got) for e in exp)
        if ok:
            c.ok("try " + key.split(":")[0], msg)
        else:
            odd = [g for g in sorted(got) if not any(re.fullmatch(e, g) for e in exp)]
            c.viol("TryCatchFlow:" + key, f.where, "%s: %s: «%s»" % (what, msg, odd[0][-260:] if odd else "a way is missing"))
    D = tc["delegateDepth"]
    F = tc["excFlag"]
    fin = "proc x\\.finally; "
    # no exception
    mem = {D: INT(0), F: NORMAL}
    expect("normal", walk(START, mem), ["proc x\\.body; %s%sexit" % ("proc x\\.else_; " if els else "", fin)], "the parts run without an exception")
    # return, break and continue from inside
    ret = "leave this\\.coro\\.exit, .*" if coro else "CreateRetVoid" if void else "CreateRet the value"
    m = {D: INT(0), F: en.get("RETURN", VOID), tc["retStore"]: V(("str", "the value"))} if tc["retStore"] else {D: INT(0), F: en.get("RETURN", VOID)}
    got = {g.replace("'the value'", "the value") for g in walk(blk["finallyBlock"], m)}
    expect("return", got, [fin + (re.escape("leave %s.finallyBlock" % outer) + ", .*RETURN.*" if parents else ret)], "a return goes through finally")
    if inloop:
        for st, target in (("BREAK", "breakBlock"), ("CONTINUE", "continueBlock")):
            got = walk(blk["finallyBlock"], {D: INT(0), F: en.get(st, VOID)})
            got = {g for g in got if "default" not in g}
            cases = [g for g in got if not re.fullmatch(fin + r"case load\(.*\) = this\.loops\.\[\]\.sequenceNumber; (case .* = this\.loops\.\[\]\.sequenceNumber; )?"
                     + (r"leave this\.(loops\.\[\]\.%s, .*NOT_THROWN.*|trycatch\.\[-1\]\.finallyBlock, .*%s.*)" % (target, st)), g)]
            if cases or not got:
                c.viol("TryCatchFlow:" + st.lower(), f.where, "%s: a %s does «%s»" % (what, st.lower(), (cases or ["nothing"])[0][-200:]))
            else:
                c.ok("try jump", st)
    # an exception in a handler or in the else part
    pad = "CreateLandingPad getPadType\\(\\), 1, ''; "
    got = walk(blk["finallyExceptionBlock"], {})
    if not parents:
        expect("rethrow", got, [pad + fin + "call Throw\\(ExtractValue\\(ssa:\\d+:LandingPad, 0\\)\\)( unwinding.*)?; CreateUnreachable"], "an exception in a handler goes on after finally")
    else:
        expect("rethrow-nested", got, [pad + fin + re.escape("leave %s.exceptionRouteBlock" % outer) + ", flag:THROWN, 0"],
               "an exception in a handler goes to the handlers of the enclosing try statement after finally")
    # an exception in the body
    got = walk(blk["exceptionBlock"], {})
    foreign = [g for g in got if g.endswith("CreateUnreachable")]
    for g in foreign:
        if "!ICmpEQ" not in g:
            c.viol("TryCatchFlow:unreachable", f.where, "%s: an exception in the body does «%s»" % (what, g[-200:]))
    got -= set(foreign)
    other = all(False in within(cj)[0] for cj in dnf(s.conds()))
    for g in sorted(got):
        if re.search(r"proc (null|0|none)\b", g) or other and "= default" in g and "leave open" in g:
            continue        # a handler without a handler; the block of an own catch while the handlers are seen from an inherited one
        m = re.search(r"case ExtractValue\(.*?LandingPad\)?, 1\) = (.*?)(; |$)(.*)$", g)
        if not m:
            c.viol("TryCatchFlow:route", f.where, "%s: an exception in the body does «%s»" % (what, g[-200:]))
            continue
        which, rest = m.group(1), m.group(3)
        h = re.fullmatch(r"(store load\(.*\) -> getVar\(x\.catches\.\[\]\.catchVar\); )?proc x\.catches\.\[\]\.handler; " + fin + "exit", rest)
        out = re.fullmatch(fin + (re.escape("leave %s." % outer) + ("exceptionRouteBlock, flag:THROWN, 0" if parents == 1 else "finallyBlock, flag:THROWN, .*") if parents
                                  else r"CreateResume (cast\()?ssa:\d+:LandingPad\)?"), rest)
        if h and other and which != "default":
            c.viol("TryCatchFlow:inherited", f.where, "%s: an exception for an enclosing handler does «%s»" % (what, rest[-200:]))
        elif h:       # also by default: a handler without a type
            conds = [Lits(cj) for cj in dnf(s.conds())]
            var = all(L("x.catches.[].catchVar") for L in conds)
            if bool(h.group(1)) != var and any(L("x.catches.[].catchVar") is not None for L in conds):
                c.viol("TryCatchFlow:variable", f.where, "%s: the exception is %s" % (what, "not stored" if var else "stored without a variable"))
            c.ok("try handlers", which)
        elif out and which == "default":
            c.ok("try unmatched", what)
        elif rest.startswith("proc x.finally") and which != "default":
            c.ok("try inherited", what)     # a type that an enclosing statement handles
        else:
            c.viol("TryCatchFlow:dispatch", f.where, "%s: an exception that is %s does «%s»" % (what, which, rest[-200:]))


def run():
    c = Check("C20", "blocks, branches, stores and calls that LLVMVisitor emits for a node, followed from its start block, do what the node means on every path")
    P = c.load(FILES)
    nodes(c, P)
    pipeline(c, P)
    calls(c, P)
    functions(c, P)
    parameters(c, P)
    data(c, P)
    tries(c, P)
    saved = dict(P.breaks), dict(P.early)
    inherited(c, P)
    # the loop over enclosing statements ends at one that handles everything
    P.breaks, P.early = saved
    for k, n in (("kinds", 23), ("behaviour", 60), ("break", 3), ("continue", 3), ("loop scope", 3), ("pipeline", 10), ("unwinding", 5), ("suspension", 2), ("allocation", 4),
                 ("library", 8), ("parameters", 2), ("try delegation", 20), ("function", 100), ("variables", 100), ("function attributes", 100), ("data", 2),
                 ("try scope", 30), ("try normal", 6), ("try return", 6), ("try handlers", 6), ("try unmatched", 6), ("try jump", 4), ("try rethrow", 3)):
        c.floor(k, n)
    return c


if __name__ == "__main__":
    c = run()
    print(c.obl)
    for b in c.bad:
        print(b)

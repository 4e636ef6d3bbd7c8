"""Control-flow graphs: every order in which a construct can be executed is a path of the graph built for it."""
from absint import *
from checklib import Check
from facts import AnalysisBroken, walk
from folding import dnf, sole, num
from irmodel import IRClient, strip_t

DF = "codon::ir::analyze::dataflow::"
FILES = ["codon/cir/analyze/dataflow/cfg.cpp"]
THIS = src("this")
GRAPH = src("this", "graph")
TC, LS = src("this", "tryCatchStack"), src("this", "loopStack")
BLK = DF + "CFBlock"


class CFClient(IRClient):
    def should_inline(self, t, f, o, vs):
        return f["n"] not in ("defaultInsert", "defaultJump", "findLoop") or f["n"] == self.inlined

    inlined = None

    def typed_leaf(self, x, cls):
        return False

    def tc(self, st):
        out = []
        for e in st.trace:
            if e[0] == "tcpush":
                out.append(e)
            elif e[0] == "tcpop" and out:
                out.pop()
        return out

    def note(self, ai, st, n, f, o, vs):
        nm = f["n"]
        if o == TC and nm in ("emplace_back", "push_back"):
            st = st.copy()
            a = list(vs)
            if len(a) == 1:
                a = [ai.getf(st, a[0], "first"), ai.getf(st, a[0], "second")]
            st.trace += (("tcpush", a[0], a[1]),)
        elif o == TC and nm == "pop_back":
            st = st.copy()
            st.trace += (("tcpop",),)
        elif o == LS and nm in ("emplace_back", "push_back"):
            st = st.copy()
            a = list(vs)
            if len(a) == 1:
                a = [ai.getf(st, a[0], k) for k in ("nextIt", "end", "loopId", "tcIndex")]
            st.trace += (("looppush", tuple(a), len(self.tc(st))),)
        elif o == LS and nm == "pop_back":
            st = st.copy()
            st.trace += (("looppop",),)
        return st

    def block(self, ai, st, name=None):
        o = ai.new_obj(st, BLK)
        return V(o)

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm, cls = f["n"], f.get("cls") or ""
        if nm == "process":
            if vs[0] == NULL:
                return [(st, VOID)]
            st = st.copy()
            a = ai.getf(st, GRAPH, "cur")
            b = self.block(ai, st)
            st.trace += (("child", vs[0], a, b, tuple(self.tc(st))),)
            ai.setf(st, GRAPH, "cur", b)
            return [(st, VOID)]
        if cls.endswith("CFGraph"):
            if nm == "newBlock":
                st = st.copy()
                b = self.block(ai, st)
                st.trace += (("block", b, vs[0] if vs else VOID),)
                if len(vs) > 1 and num(vs[1]) == 1:
                    ai.setf(st, GRAPH, "cur", b)
                return [(st, b)]
            if nm == "N":
                return [(st, op("N", V(("str", f["targs"][0].split("::")[-1])), *vs))]
            if nm == "remapValue":
                st = st.copy()
                st.trace += (("remap", tuple(vs)),)
                return [(st, VOID)]
        if cls.endswith("CFBlock"):
            if nm == "successors_insert":
                st = st.copy()
                st.trace += (("edge", o, vs[0], st.conds()),)
                return [(st, VOID)]
            if nm in ("push_back", "insert"):
                st = st.copy()
                st.trace += (("put", o, vs[-1]),)
                return [(st, VOID)]
            if nm == "successors_erase":
                st = st.copy()
                st.trace += (("unedge", o, vs[0]),)
                return [(st, VOID)]
        if nm in ("defaultInsert", "defaultJump") and nm != self.inlined:
            st = st.copy()
            cur = ai.getf(st, GRAPH, "cur")
            if nm == "defaultInsert":
                b = self.block(ai, st)
                st.trace += (("child", op("self", vs[0]), cur, b, tuple(self.tc(st))),)
                ai.setf(st, GRAPH, "cur", b)
            else:
                st.trace += (("jump", cur, tuple(vs), st.conds()),)
            return [(st, VOID)]
        if nm == "findLoop" and nm != self.inlined:
            return [(st, src("L", "found"))] if vs else None
        if o == TC:
            stk = self.tc(st)
            if nm == "back":
                if stk:
                    st = st.copy()
                    p = ai.new_obj(st, "std::pair<>")
                    st.heap[p]["first"], st.heap[p]["second"] = stk[-1][1], stk[-1][2]
                    return [(st, V(p))]
                return [(st, src("outer"))]
            if nm == "empty":
                return [(st, V(("bool", False)) if stk else op("noOuterTry"))]
            if nm == "size":
                return [(st, op("+", op("depth"), INT(len(stk))) if stk else op("depth"))]
            if nm in ("pop_back",):
                return [(st, VOID)]
            if nm in ("emplace_back", "push_back"):
                return [(st, VOID)]
        if o == LS:
            if nm == "back":
                return [(st, src("L", "back"))]
            if nm in ("emplace_back", "push_back", "pop_back"):
                return [(st, VOID)]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


# ---------------------------------------------------------------- the graph of one path through a visit method
class Graph:
    def __init__(self, st, entry, exit_):
        self.entry, self.exit = entry, exit_
        self.edges, self.labels, self.child = {}, {}, {}
        self.ends, self.starts, self.jumps, self.loops, self.tcs, self.remaps, self.depth = {}, {}, [], [], {}, [], []
        stack = []
        for e in st.trace:
            if e[0] == "edge":
                self.edges.setdefault(e[1], []).append(e[2])
            elif e[0] == "unedge":
                if e[2] in self.edges.get(e[1], []):
                    self.edges[e[1]].remove(e[2])
            elif e[0] == "put":
                self.labels.setdefault(e[1], []).append(label(e[2]))
            elif e[0] == "child":
                k = show(e[1])
                self.child.setdefault(e[2], []).append((k, e[3]))
                self.starts.setdefault(k, []).append(e[2])
                self.ends.setdefault(k, []).append(e[3])
                self.tcs[k] = e[4]
                if stack:
                    self.depth.append((k, tuple(stack)))
            elif e[0] == "jump":
                self.jumps.append(e)
            elif e[0] == "looppush":
                stack.append(e)
                self.loops.append(e)
            elif e[0] == "looppop" and stack:
                stack.pop()
            elif e[0] == "remap":
                self.remaps.append(e[1])
        self.open = stack

    def words(self, a, b, free=(), lim=9):
        """label sequences of the paths from block a to block b"""
        out, seen, todo = set(), set(), [(a, ())]
        while todo:
            x, w = todo.pop()
            w = w + tuple(l for l in self.labels.get(x, []) if l not in free)
            if len(w) > lim or (x, w) in seen:
                continue
            seen.add((x, w))
            if x == b:
                out.add(w)
            for y in self.edges.get(x, []):
                todo.append((y, w))
            for k, y in self.child.get(x, []):
                todo.append((y, w if any(z in k for z in free) else w + (k,)))
        return out


def label(v):
    a = sole(v)
    if a and a[0] == "op" and a[1] == "N":
        k = (sole(a[2]) or ("", "?"))[1]
        if k == "SyntheticAssignInstr":
            arg = a[5] if len(a) > 5 else VOID
            kind = show(a[6]) if len(a) > 6 else ""
            return "set %s%s%s" % (show(a[4]), " to " + show(arg) if len(a) > 5 and arg != NULL else "",
                                   " (" + kind.split("::")[-1] + ")" if kind else "")
        return k
    return "put " + show(v)


def visits(P):
    out = {}
    for f in P.funcs.values():
        if f.get("body") and f["n"] == "visit" and (f.get("cls") or "") == DF + "CFVisitor" and f["params"]:
            out[strip_t(f["T"][f["params"][0]["t"]]).rstrip("*").strip()] = f
    return out


def run_method(P, f, cls, inlined=None, roots=None):
    cl = CFClient(roots if roots is not None else {"v": cls})
    cl.P = P
    cl.inlined = inlined
    cl.stops = inlined is not None
    ai = AI(P, cl)
    st = State()
    e = V(ai.new_obj(st, BLK))
    ai.setf(st, GRAPH, "cur", e)
    args = [src(p["n"]) for p in f["params"]] if roots is not None else [src("v")]
    out = []
    for s, r in ai.run(f, st, THIS, args):
        if r is THROWN:
            continue
        out.append((s, Graph(s, e, ai.getf(s, GRAPH, "cur"))))
    return ai, out


IR = "codon::ir::"
SEQ = {"AssignInstr": ["v.rhs"], "ExtractInstr": ["v.val"], "InsertInstr": ["v.lhs", "v.rhs"], "YieldInstr": ["v.value"],
       "AwaitInstr": ["v.value"], "ThrowInstr": ["v.value"], "FlowInstr": ["v.flow", "v.val"], "ReturnInstr": ["v.value"],
       "CallInstr": ["v.callee", "v.args.[]"], "SeriesFlow": ["v.series.[]"], "BreakInstr": [], "ContinueInstr": []}
NOSELF = {"SeriesFlow"}


def facts_of(cj):
    null, notisa, pos = set(), set(), set()
    for a, p in cj:
        if a[0] == "nz":
            t = sole(a[1])
            if t and t[0] == "op" and t[1] == "isa" and not p:
                notisa.add(show(t[2]))
            elif not p:
                null.add(show(a[1]))
            else:
                pos.add(show(a[1]))
    return null, notisa, pos


class Spec:
    def __init__(self, c, where, cls, g, cj):
        self.c, self.where, self.cls, self.g = c, where, cls.split("::")[-1], g
        self.null, self.notisa, self.pos = facts_of(cj)
        self.free = ()

    def has(self, k):
        return k not in self.null and k in self.g.starts

    def pts(self, p, side):
        g = self.g
        if p == "entry":
            return [g.entry]
        if p == "exit":
            return [g.exit]
        if isinstance(p, frozenset):
            return [p]
        return g.ends.get(p, []) if side == "from" else g.starts.get(p, [])

    def bad(self, key, msg):
        self.c.viol("%s:%s" % (self.cls, key), self.where, "%s: %s" % (self.cls, msg))

    def need(self, a, b, words, what):
        """some path from a to b spells one of the words"""
        self.c.ok("order", "%s: %s" % (self.cls, what))
        for x in self.pts(a, "from"):
            for y in self.pts(b, "to"):
                ws = self.g.words(x, y, self.free)
                if any(tuple(w) in ws for w in words):
                    return True
        self.bad(what, "the graph has no path for this order: %s" % what)
        return False


def run():
    c = Check("C12", "the graph built by every visit method on every path, for every combination of present and absent parts, against "
                     "the orders in which the construct's parts can be executed")
    P = c.load(FILES)
    vs = visits(P)
    kinds(c, P, vs)
    for cls, f in sorted(vs.items()):
        n = cls.split("::")[-1]
        if n in ("CustomFlow", "CustomInstr", "PipelineFlow"):
            continue
        ai, gs = run_method(P, f, cls)
        for s, g in gs:
            for cj in dnf(s.conds()):
                sp = Spec(c, f.where, cls, g, cj)
                h = SPECS.get(n)
                if h:
                    h(sp, s, ai)
                else:
                    sequence(sp, SEQ.get(n, []), n)
    insertion(c, P)
    jumps(c, P, vs)
    pipeline(c, P, vs)
    graphs(c, P)
    blocks(c, P)
    c.floor("construct", 25)
    c.floor("order", 60)
    c.floor("jump", 4)
    c.floor("insert", 2)
    return c


def kinds(c, P, vs):
    """every concrete value class of a function body is handled"""
    leafs = [r for r in P.records if r.startswith(IR) and P.derives(r, IR + "Value") and not P.records[r].get("abstract")
             and not any(P.derives(q, r) for q in P.records if q != r)]
    for r in sorted(leafs):
        n = r[len(IR):]
        if n.startswith(("dsl::", "analyze::", "util::", "transform::")) or "codon::ir::dsl" in r:
            continue
        c.ok("construct", n)
        if not any(h == r or P.derives(r, h) for h in vs):
            c.viol("kind:" + n, "codon/cir/analyze/dataflow/cfg.h", "no graph is built for %s" % n)


def relevant(sp, fields):
    return not any(k in sp.null or k in sp.notisa for k in fields)


def sequence(sp, fields, n):
    """operands in order, then the instruction itself"""
    order = []
    if any(k in sp.notisa for k in fields):
        return
    for k in fields:
        if k in sp.null:
            continue
        if "[]" in k and k not in sp.g.starts:
            if any(k.rsplit(".", 1)[0] in p for p in sp.pos) or "each" in "".join(sp.pos):
                pass
            continue
        order.append(k)
    if n not in NOSELF:
        order.append("self(v)")
    seen = [k for k in sp.g.starts]
    opt = {k for k in fields if k in ("v.value", "v.val")}
    if order:
        sp.need("entry", "exit", [order], "%s" % ", then ".join(order))
    for k in fields:
        if "[]" in k:
            sp.c.ok("list", "%s %s" % (n, k))


def if_(sp, s, ai):
    C, T, F = "v.cond", "v.trueBranch", "v.falseBranch"
    if T in sp.notisa or T in sp.null or F in sp.notisa and F not in sp.null:
        return
    sp.need("entry", C, [[]], "start of the statement, condition")
    sp.need(C, T, [[]], "condition, true branch")
    sp.need(T, "exit", [[]], "true branch, after the statement")
    if F in sp.null or F not in sp.g.starts and F not in sp.pos:
        sp.need(C, "exit", [[]], "condition false, after the statement")
    else:
        sp.need(C, F, [[]], "condition, false branch")
        sp.need(F, "exit", [[]], "false branch, after the statement")


def loops(sp, nxt, defs, body, exit_word=((),)):
    """what break and continue inside the body are routed to"""
    g = sp.g
    if len(g.loops) != 1:
        return sp.bad("loop-record", "the loop is not recorded exactly once for break and continue")
    a = g.loops[0][1]
    if not any(body == k for k, _ in g.depth):
        sp.bad("loop-scope", "the body is processed while the loop is not recorded for break and continue")
    if any(k != body for k, _ in g.depth):
        sp.bad("loop-scope", "a part outside the body is processed while the loop is recorded")
    if g.open:
        sp.bad("loop-scope", "the loop stays recorded after its end")
    if "getId" not in show(a[2]) and ".id" not in show(a[2]) or "v" not in show(a[2]):
        sp.bad("loop-id", "the loop is recorded under another identity (%s)" % show(a[2]))
    for to, words, what in nxt:
        sp.need(a[0], to, words, "continue, " + what)
    sp.need(a[1], "exit", [[]], "break, after the loop")
    d = tcdepth(a[3]) if len(a) > 3 else None
    if d != g.loops[0][2] - 1:
        sp.bad("loop-try", "the loop is recorded with a try nesting of %s instead of the nesting it stands in" % (show(a[3]) if len(a) > 3 else "none"))


def tcdepth(v):
    """depth() - 1 + n -> n - 1"""
    a = sole(v)
    if a and a[0] == "op" and a[1] in ("+", "-") and len(a) == 4:
        if a[2] == op("depth") and num(a[3]) is not None:
            return num(a[3]) if a[1] == "+" else -num(a[3])
        x = tcdepth(a[2])
        if x is not None and num(a[3]) is not None:
            return x + num(a[3]) if a[1] == "+" else x - num(a[3])
    if v == op("depth"):
        return 0
    return None


def while_(sp, s, ai):
    C, B = "v.cond", "v.body"
    if not relevant(sp, [B]):
        return
    sp.need("entry", C, [[]], "start of the loop, condition")
    sp.need(C, B, [[]], "condition, body")
    sp.need(C, "exit", [[]], "condition false, after the loop")
    sp.need(B, C, [[]], "body, condition again")
    loops(sp, [(C, [[]], "condition again")], (), B)


def for_(sp, s, ai):
    I, B = "v.iter", "v.body"
    if not relevant(sp, [B]):
        return
    sp.free = ("schedule",)
    N = ["set v.var to v.iter (NEXT_VALUE)"]
    Ns = [N, ["set v.var"]]
    sp.need("entry", I, [[]], "start of the loop, iterable")
    sp.need(I, "exit", [[]], "nothing to iterate, after the loop")
    sp.need(I, B, Ns, "iterable, assignment of the loop variable, body")
    sp.need(B, B, Ns, "body, assignment of the loop variable, body again")
    sp.need(B, "exit", [[]], "body, after the loop")
    loops(sp, [(B, Ns, "assignment of the loop variable, body again"), ("exit", [[]], "after the loop")], (), B)
    scheduled(sp)


def scheduled(sp):
    if "v.schedule" in sp.pos and not any("schedule" in k for k in sp.g.starts):
        return


def imp(sp, s, ai):
    S, E, B = "v.start", "v.end", "v.body"
    if not relevant(sp, [B]):
        return
    sp.free = ("schedule",)
    K = ["set v.var to v.start (KNOWN)", "set v.var to v.start"]
    U = [[l] for l in {l for ls in sp.g.labels.values() for l in ls if l.startswith("set v.var") and "v.start" not in l}]
    ini = [w for k in K for w in ([k, S, E], [S, k, E], [S, E, k])]
    sp.need("entry", "exit", ini, "start, end, first value, after the loop")
    sp.need("entry", B, ini, "start, end, first value, body")
    if not U:
        sp.bad("update", "the loop variable is not updated")
        return
    sp.need(B, B, U, "body, update of the loop variable, body again")
    sp.need(B, "exit", U, "body, update of the loop variable, after the loop")
    loops(sp, [(B, U, "update of the loop variable, body again"), ("exit", U, "update of the loop variable, after the loop")], (), B)
    for ls in sp.g.labels.values():
        for l in ls:
            if l.startswith("set v.var") and "v.start" not in l and "v.step" not in l and l != "set v.var":
                sp.bad("update", "the loop variable is updated to %s" % l)


def ternary(sp, s, ai):
    C, T, F = "v.cond", "v.trueValue", "v.falseValue"
    PHI = "SyntheticPhiInstr"
    sp.need("entry", C, [[]], "start, condition")
    sp.need(C, T, [[]], "condition, true value")
    sp.need(C, F, [[]], "condition, false value")
    sp.need(T, "exit", [[PHI]], "true value, result")
    sp.need(F, "exit", [[PHI]], "false value, result")
    if not any(r[0] == src("v") and "SyntheticPhiInstr" in show(r[1]) for r in sp.g.remaps):
        sp.bad("phi", "the expression is not identified with the merge of its two values")


def try_(sp, s, ai):
    g = sp.g
    B, H, L, F = "v.body", "v.catches.[].handler", "v.else_", "v.finally"
    names = {k: k for k in g.starts}
    for k in g.starts:
        if k.endswith("handler"):
            H = k
    L = next((k for k in g.starts if "lse" in k.split(".")[-1]), "v.else_")
    F = next((k for k in g.starts if "inally" in k.split(".")[-1]), "v.finally")
    if any(k in sp.notisa and k not in sp.null for k in [B, H, L, F]) or B in sp.null or H in sp.null:
        return
    le = any("lse" in k for k in sp.pos) or L in g.starts
    fi = any("inally" in k and "isa" not in k for k in sp.pos if k.startswith("v.")) or F in g.starts
    push = [e for e in s.trace if e[0] == "tcpush"]
    if len(push) != 1:
        return sp.bad("record", "the statement is not recorded exactly once for exceptions")
    if sum(e[0] == "tcpop" for e in s.trace) != 1:
        sp.bad("record", "the statement stays recorded after its end")
    route, fin = push[0][1], push[0][2]
    outer = "noOuterTry()" in sp.null
    after = F if fi else "exit"
    sp.need("entry", B, [[]], "start, body")
    if le:
        sp.need(B, L, [[]], "body, else branch")
        sp.need(L, after, [[]], "else branch, " + ("finally branch" if fi else "after the statement"))
    else:
        sp.need(B, after, [[]], "body, " + ("finally branch" if fi else "after the statement"))
    if H in g.starts:
        var = next((p for p in sp.pos if p.endswith(".catchVar") or p.endswith(".var") or "catchVar" in p), None)
        w = [l for ls in g.labels.values() for l in ls if l.startswith("set ")]
        if w and " to " in w[0]:
            sp.bad("catch-value", "the caught exception is recorded with a known value")
        nv = any("ar" in x.split(".")[-1] and "catches" in x for x in sp.null)
        if not nv and not w:
            sp.bad("catch-var", "the variable of a handler is not assigned when the handler starts")
        sp.need(route, H, [w[:1]] if not nv else [[]], "exception, handler")
        sp.need(H, after, [[]], "handler, " + ("finally branch" if fi else "after the statement"))
    if fi:
        sp.need(F, "exit", [[]], "finally branch, after the statement")
        sp.need(route, F, [[]], "unhandled exception, finally branch")
    if outer:
        if fi:
            sp.need(F, src("outer", "first"), [[]], "finally branch, enclosing exception handling")
        else:
            sp.need(route, src("outer", "first"), [[]], "unhandled exception, enclosing exception handling")
    # where exceptions and returns of each part go
    for k in g.starts:
        stk = g.tcs.get(k, ())
        top = stk[-1] if stk else None
        if k == B and (top is None):
            sp.bad("body-scope", "the body is processed while the statement is not recorded for exceptions")
        if k in (H, L) and fi:
            if top is None or not sp.reach(top[1], F):
                sp.bad("scope", "an exception in %s does not lead to the finally branch" % k)
            elif top[2] == NULL:
                sp.bad("scope", "a jump out of %s does not lead through the finally branch" % k)
    if fi and fin == NULL:
        sp.bad("finally", "the statement is recorded without its finally branch")
    elif fi:
        sp.need(F, fin, [[]], "finally branch, target of a jump that left the statement")
    if not fi and fin != NULL:
        sp.bad("finally", "the statement is recorded with a finally branch it does not have")


def reach(self, a, to):
    return any(self.g.words(a, y, self.free, lim=12) for y in self.pts(to, "to"))


Spec.reach = reach


def jump_(kind):
    def h(sp, s, ai):
        n = sp.cls
        js = sp.g.jumps
        sp.c.ok("jump", "%s: %s" % (n, [show(x) for x in (js[0][2] if js else ())]))
        if len(js) != 1:
            return sp.bad("jump", "the jump is not recorded exactly once")
        to, lv = js[0][2][0], js[0][2][1] if len(js[0][2]) > 1 else INT(-1)
        if kind == "return":
            sequence(sp, ["v.value"], n)
            if to != NULL or num(lv) != -1:
                sp.bad("target", "a return leads to %s across the exception handlers above %s" % (show(to), show(lv)))
            if "v.value" in sp.g.ends and js[0][1] not in sp.g.ends["v.value"]:
                sp.bad("place", "the jump is taken before the returned value is evaluated")
            return
        sequence(sp, [], n)
        L = "found" if any(p.startswith("v.loop") for p in sp.pos) else "back" if any(p.startswith("v.loop") for p in sp.null) else None
        want = src("L", L, kind) if L else None
        if L is None:
            want = to if to in (src("L", "found", kind),) else None
        if to != want:
            sp.bad("target", "the jump leads to %s" % show(to))
        elif lv != src("L", L or "found", "tcIndex"):
            sp.bad("level", "the jump is taken across the exception handlers above %s" % show(lv))
    return h


def func(sp, s, ai):
    B = "v.body"
    if B in sp.notisa or B in sp.null:
        return
    each = any("each" in str(x[0]) for x, _ in s.conds()) or any(l.startswith("set ") for ls in sp.g.labels.values() for l in ls)
    w = [l for ls in sp.g.labels.values() for l in ls]
    if w:
        if not w[0].startswith("set v.args.[]"):
            sp.bad("args", "a parameter is given its value as '%s'" % w[0])
        sp.need("entry", B, [w], "parameters assigned, body")
    else:
        sp.need("entry", B, [[]], "start, body")


SPECS = {"IfFlow": if_, "WhileFlow": while_, "ForFlow": for_, "ImperativeForFlow": imp, "TernaryInstr": ternary,
         "TryCatchFlow": try_, "BreakInstr": jump_("end"), "ContinueInstr": jump_("nextIt"), "ReturnInstr": jump_("return"),
         "BodiedFunc": func}


def method(P, name, suffix="CFVisitor"):
    fs = [f for f in P.funcs.values() if f["n"] == name and f.get("body") and (f.get("cls") or "").endswith(suffix)]
    if len(fs) != 1:
        raise AnalysisBroken("control-flow graph: %s::%s not found" % (suffix, name))
    return fs[0]


def contradictory(cj):
    return any((a, not p) in cj for a, p in cj)


def insertion(c, P):
    """an instruction is placed in a block of the current path; inside try it can be followed by the handlers"""
    f = method(P, "defaultInsert")
    ai, gs = run_method(P, f, None, inlined="defaultInsert", roots={})
    v = src(f["params"][0]["n"])
    for s, g in gs:
        for cj in dnf(s.conds()):
            if contradictory(cj):
                continue
            null, notisa, pos = facts_of(cj)
            c.ok("insert", show_pc(cj)[:80])
            w = ("put " + show(v),)
            if w not in g.words(g.entry, g.exit):
                c.viol("insert:place", f.where, "an instruction is not placed between what was evaluated before it and what follows")
            if "noOuterTry()" not in pos and w not in g.words(g.entry, src("outer", "first")):
                c.viol("insert:exception", f.where, "inside a try statement, no path leads from an instruction to the handlers")


def jumps(c, P, vs):
    """a jump leads to its target, through the finally branches it leaves"""
    f = method(P, "defaultJump")
    cf, lv = [src(p["n"]) for p in f["params"]]
    ai, gs = run_method(P, f, None, inlined="defaultJump", roots={})

    def isidx(v):
        return (sole(v) or " ")[0] == "idx?"

    def lin(v):
        """v as depth or newTcLevel plus a constant"""
        if v == lv:
            return ("lv", 0)
        if v == op("depth"):
            return ("d", 0)
        a = sole(v)
        if a and a[0] == "idx?":
            try:
                return lin(eval(a[1] if a[1].startswith("frozenset") else "frozenset({%s})" % a[1],
                                {"frozenset": frozenset, "__builtins__": {}}))
            except Exception:
                return None
        if num(v) is not None:
            return ("", num(v))
        if a and a[0] == "op" and a[1] in ("+", "-") and len(a) == 4:
            x, y = lin(a[2]), lin(a[3])
            if x and y and y[0] == "":
                return (x[0], x[1] + (y[1] if a[1] == "+" else -y[1]))
            if x and y and x[0] == "" and a[1] == "+":
                return (y[0], x[1] + y[1])
        return None

    def leaves_none(cj):
        """the path knows that the jump leaves no try statement"""
        for a, p in cj:
            if a[0] == "eq" and p and {lin(a[1]), lin(a[2])} in ({("d", -1), ("", -1)}, {("d", 0), ("", 0)}, {("d", -1), ("lv", 0)}):
                return True
            if a[0] == "nz" and p and a[1] == op("noOuterTry") or a[0] == "nz" and not p and a[1] == op("depth"):
                return True
            t = sole(a[1]) if a[0] == "nz" else None
            if t and t[0] == "op" and t[1] in ("<=", "<", ">", ">=") and len(t) == 4:
                x, y, o = lin(t[2]), lin(t[3]), t[1]
                if isidx(t[2]) or isidx(t[3]) or x is None or y is None:
                    continue
                if not p:
                    o = {"<=": ">", "<": ">=", ">": "<=", ">=": "<"}[o]
                if y[0] == "d":
                    x, y, o = y, x, {"<=": ">=", "<": ">", ">": "<", ">=": "<="}[o]
                k = y[1] - x[1]
                if x[0] == "d" and y[0] == "lv" and (o == "<=" and k <= 1 or o == "<" and k <= 2):
                    return True
                if x[0] == "d" and y[0] == "" and (o == "<=" and k <= 0 or o == "<" and k <= 1):
                    return True
        return False
    sec = src("this", "tryCatchStack", "[]", "second")
    for s, g in gs:
        for cj in dnf(s.conds()):
            if contradictory(cj):
                continue
            null, notisa, pos = facts_of(cj)
            to = [e[2] for e in s.trace if e[0] == "edge" and e[1] == g.entry]
            via = [e[2] for e in s.trace if e[0] == "edge" and e[1] == sec]
            target = show(cf) not in null
            c.ok("jump", "jump: %s" % show_pc(cj)[:100])
            if show(sec) in pos:
                if src("outer", "first") not in to:
                    c.viol("jump:finally", f.where, "a jump that leaves a try statement with a finally branch does not lead to the branch")
                if target and cf not in via:
                    c.viol("jump:resume", f.where, "after the finally branch a jump went through, its target is not reached")
                for a, p in s.conds():
                    t = sole(a[1]) if a[0] == "nz" and p else None
                    if not (t and t[0] == "op" and len(t) == 4 and t[1] in ("<", "<=", ">", ">=")):
                        continue
                    i, e, o = t[2], t[3], t[1]
                    if isidx(e):
                        i, e, o = e, i, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[o]
                    if not isidx(i) or lin(i) is None or lin(e) is None:
                        continue
                    x, y = lin(i), lin(e)
                    first = any(e[0] in ("break", "return-in-loop") for e in s.trace)
                    if x[0] == "lv" and y[0] == "d" and o in ("<", "<="):
                        lo, hi, outer = x[1], y[1] - (o == "<"), first
                    elif x[0] == "d" and y[0] == "lv" and o in (">", ">="):
                        lo, hi, outer = y[1] + (o == ">"), x[1], not first
                    else:
                        continue
                    if (lo, hi) != (1, -1):
                        c.viol("jump:range", f.where, "the try statements a jump leaves are taken to begin at level %+d and end at depth %+d" % (lo, hi))
                    if target and not outer:
                        c.viol("jump:outermost", f.where, "the target of a jump is reached from a finally branch which is not the last one the jump goes through")
            elif target:
                if not leaves_none(cj) and not any(a[0] == "each" for a, p in s.conds()):
                    c.viol("jump:skip", f.where, "a jump is taken directly to its target without looking for finally branches it leaves")
                if cf not in to:
                    c.viol("jump:target", f.where, "a jump does not lead to its target")
    f = method(P, "findLoop")
    idp = f["params"][0]["n"]
    c.ok("jump", "search of the loop a jump names")
    txt = [str(x) for x in walk(f["body"]) if "loopId" in str(x) and idp in str(x)]
    if not any("'=='" in t or "operator==" in t for t in txt):
        c.viol("jump:find-loop", f.where, "the loop of a jump is not found by its identity")


class PipeClient(IRClient):
    def should_inline(self, t, f, o, vs):
        return not ("PipelineToForLoops" in f["n"] or f["n"] in ("callStage", "buildCFGraph", "isGenerator", "process"))

    def typed_leaf(self, x, cls):
        return False

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm = f["n"]
        if nm == "N":
            return [(st, op("N", V(("str", f["targs"][0].split("::")[-1])), *vs))]
        if "PipelineToForLoops" in nm or nm in ("callStage", "isGenerator", "buildCFGraph"):
            return [(st, op(nm, *([o] if o is not None else []), *vs))]
        if nm in ("operator[]", "at") and o is not None and any(a[0] == "src" and a[1] == "stages" for a in o):
            return [(st, op("at", o, vs[0]))]
        if nm == "process":
            return [(st, VOID)]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)

    def note(self, ai, st, n, f, o, vs):
        if f["n"] in ("push_back", "insert", "emplace", "emplace_back", "insert_or_assign", "process"):
            st = st.copy()
            st.trace += ((f["n"], o, tuple(vs), st.conds()),)
            return st


def interp(P, f, this=VOID, cls=PipeClient):
    cl = cls({})
    cl.P = P
    return [(s, r) for s, r in AI(P, cl).run(f, State(), this, [src(p["n"]) for p in f["params"]]) if r is not THROWN]


def fn_named(P, name):
    fs = [f for f in P.funcs.values() if f["n"] == name and f.get("body") and "dataflow" in f["qn"]]
    return fs[0] if len(fs) == 1 else None


CONV = "convertPipelineToForLoopsHelper"


def pipeline(c, P, vs):
    """a pipeline is the nest of loops over its generator stages, each stage called with the value of the stage before it"""
    h, cs = fn_named(P, CONV), fn_named(P, "callStage")
    if not h or not cs:
        raise AnalysisBroken("control-flow graph: pipeline conversion not found")
    for s, r in interp(P, cs):
        args = [e[2][0] for e in s.trace if e[0] in ("push_back", "emplace_back")]
        a = src("stage", "args", "[]")
        for cj in dnf(s.conds()):
            null, notisa, pos = facts_of(cj)
            if show(a) not in null | pos:
                continue
            c.ok("pipeline", "stage call, %s argument" % ("placeholder" if show(a) in null else "given"))
            want = src("last") if show(a) in null else a
            if not args or args[-1] != want:
                c.viol("pipeline:argument", cs.where, "a stage is called with %s where its %s is meant" %
                       (show(args[-1]) if args else "nothing", "previous stage's value" if show(a) in null else "own argument"))
        t = sole(r)
        if not t or t[1] != "N" or "Call" not in show(t[2]) or t[3] != src("stage", "callee"):
            c.viol("pipeline:callee", cs.where, "a stage is not called")
    w = fn_named(P, "convertPipelineToForLoops")
    if not w:
        raise AnalysisBroken("control-flow graph: pipeline conversion not found")
    for s, r in interp(P, w):
        c.ok("pipeline", "list of stages")
        t = sole(r)
        each = src(w["params"][1]["n"], "stages", "[]")
        if not t or t[:2] != ("op", CONV) or not any(a[0] == "new" and s.heap.get(a, {}).get("[]", each) in (each, VOID) for x in t[2:] if isinstance(x, frozenset) for a in x):
            c.viol("pipeline:stages", w.where, "the loops of a pipeline are made of %s" % show(r)[:100])
        if any(a[0] == "each" and p for a, p in s.conds()) and not any(e[0] in ("push_back", "emplace_back") and e[2] == (each,) for e in s.trace) and \
                not any(a[0] == "new" and s.heap.get(a, {}).get("[]") == each for x in t[2:] if isinstance(x, frozenset) for a in x):
            c.viol("pipeline:stages", w.where, "a stage of a pipeline is left out")
    ps = [p["n"] for p in h["params"]]
    stages, idx, last = src(ps[1]), src(ps[2]), src(ps[3])
    here, prev, nxt = op("at", stages, idx), op("at", stages, op("-", idx, INT(1))), op("+", idx, INT(1))
    for s, r in interp(P, h):
        t = sole(r)
        for cj in dnf(s.conds()):
            null, notisa, pos = facts_of(cj)
            c.ok("pipeline", "step: %s" % show(r)[:120])
            gen = None
            for a, p in cj:
                if a[0] == "nz" and "enerator" in show(a[1]):
                    gen = p
                    if show(prev) not in show(a[1]):
                        c.viol("pipeline:which-stage", h.where, "whether a loop is built depends on %s instead of the stage before" % show(a[1]))
            txt = [(show_pc([(a, True)]), p) for a, p in cj]
            done = any(x.startswith(">=(%s, size" % ps[2]) and p or x.startswith("<(%s, size" % ps[2]) and not p or
                       "==" in x and ps[2] in x and "size(" in x and p for x, p in txt)
            first = show(idx) in null or any(a[0] == "eq" and p and idx in a[1:] and INT(0) in a[1:] for a, p in cj)
            if done:
                if r != last:
                    c.viol("pipeline:end", h.where, "the value of a pipeline is %s" % show(r))
            elif first:
                if not (t and t[1] == CONV and t[4] == nxt and show(t[5]) == ".callee(%s)" % show(here)):
                    c.viol("pipeline:first", h.where, "the first stage is converted to %s" % show(r)[:150])
            elif gen:
                if not (t and t[1] == "N" and "ForFlow" in show(t[2])) or t[3] != last:
                    c.viol("pipeline:loop", h.where, "a generator stage is converted to %s" % show(r)[:150])
                    continue
                body = [sole(e[2][0]) for e in s.trace if e[0] == "push_back" and e[1] == t[4]]
                want = op("callStage", src(ps[0]), here, op("N", V(("str", "VarValue")), t[5]))
                if len(body) != 1 or body[0][1] != CONV or body[0][4] != nxt or body[0][5] != want:
                    c.viol("pipeline:body", h.where, "the loop over a generator stage does not pass its element to the next stage")
            elif gen is False:
                if not (t and t[1] == CONV and t[4] == nxt and t[5] == op("callStage", src(ps[0]), here, last)):
                    c.viol("pipeline:call", h.where, "a stage is converted to %s" % show(r)[:150])
            else:
                c.viol("pipeline:unguarded", h.where, "a stage is converted without looking whether the stage before generates values")
    f = next((f for k, f in vs.items() if k.endswith("::PipelineFlow")), None)
    if f is not None:
        cl = type("R", (CFClient,), {"should_inline": lambda self, t, f, o, vs: "PipelineToForLoops" not in f["n"]})({})
        cl.P = P
        ok = 0
        for s, r in AI(P, cl).run(f, State(), THIS, [src("v")]):
            ok += any(e[0] == "child" and "PipelineToForLoops" in show(e[1]) for e in s.trace)
        c.ok("pipeline", "conversion processed on %d path(s)" % ok)
        if not ok:
            c.viol("pipeline:process", f.where, "the loops of a pipeline are not added to the graph")


def graphs(c, P):
    """a graph is built for every function with a body and filed under that function"""
    fs = [f for f in P.fn(DF + "CFAnalysis::run") if f.get("body")]
    if len(fs) != 1:
        raise AnalysisBroken("control-flow analysis not found")
    for s, r in interp(P, fs[0], THIS):
        filed = set()
        for e in s.trace:
            if e[0] not in ("insert", "emplace", "insert_or_assign"):
                continue
            pairs = [(s.heap.get(a, {}).get("first", VOID), s.heap.get(a, {}).get("second", VOID))
                     for o in e[2] for a in o if a[0] == "new"] + ([e[2]] if len(e[2]) == 2 else [])
            for k, g in pairs:
                b = sole(g)
                if b and b[0] == "op" and b[1] == "buildCFGraph":
                    filed.add(b[2])
                    if show(b[2]) not in show(k):
                        c.viol("graphs:key", fs[0].where, "the graph of %s is filed under %s" % (show(b[2]), show(k)))
        for cj in dnf(s.conds()):
            if contradictory(cj):
                continue
            null, notisa, pos = facts_of(cj)
            for fn, what in ((src("m", "mainFunc"), "the main function"), (src("m", "vars", "[]"), "a function of the module")):
                if show(fn) in null | notisa or fn != src("m", "mainFunc") and not any(a[0] == "each" for a, p in s.conds()):
                    continue
                c.ok("graphs", what)
                if fn not in filed:
                    c.viol("graphs:missing", fs[0].where, "no graph is recorded for %s" % what)
    f = fn_named(P, "buildCFGraph")
    for s, r in interp(P, f):
        pr = [e for e in s.trace if e[0] == "process"]
        c.ok("graphs", "construction")
        if not pr or src(f["params"][0]["n"]) not in pr[0][2]:
            c.viol("graphs:empty", f.where, "the graph of a function is returned without the function being processed")


def blocks(c, P):
    """edges are recorded at both ends, values under the block that holds them"""
    g = method(P, "successors_insert", "CFBlock")
    pn = g["params"][0]["n"]
    for s, r in interp(P, g, THIS):
        c.ok("blocks", "edge")
        ins = {(show(e[1]), show(e[2][0])) for e in s.trace if e[0] in ("insert", "emplace")}
        if ins != {("this.successors", pn), (pn + ".predecessors", "this")}:
            c.viol("blocks:edge", g.where, "an edge is recorded as %s" % sorted(ins))
    g = method(P, "push_back", "CFBlock")
    pn = g["params"][0]["n"]
    for s, r in interp(P, g, THIS):
        c.ok("blocks", "placement")
        if not any(e[0] == "push_back" and e[1] == src("this", "values") and e[2][0] == src(pn) for e in s.trace):
            c.viol("blocks:value", g.where, "a value is not added to the end of its block")
        loc = s.heap.get(next(iter(src("this", "graph", "valueLocations"))), {})
        if THIS not in loc.values():
            c.viol("blocks:location", g.where, "the block of a value is not recorded")

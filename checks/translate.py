"""Translating the typed syntax tree: every part exactly once, in its place."""
import re
from absint import *
from checklib import Check
from facts import AnalysisBroken, walk
from folding import dnf, sole, num
from irmodel import *
from reaching import subatoms
from cfgraph import contradictory, show, show_pc
from types_unify import cond, eq, nz

FILES = ["codon/parser/visitors/translate/translate.cpp", "codon/parser/visitors/translate/translate_ctx.cpp", "codon/parser/ast/expr.cpp",
         "codon/parser/ast/stmt.cpp", "codon/cir/instr.cpp", "codon/cir/flow.cpp", "codon/cir/value.cpp", "codon/cir/const.cpp", "codon/cir/base.cpp",
         "codon/cir/func.cpp", "codon/cir/var.cpp", "codon/cir/transform/parallel/schedule.cpp", "codon/cir/util/cloning.cpp"]
TV = "codon::ast::TranslateVisitor"
CTX = src("this", "ctx")
STACKS = ("series", "bases", "seqItems")


def stack_of(o):
    for a in o or ():
        if a[0] == "src" and a[2] and a[2][-1] in STACKS:
            return a[2][-1]
        if a[0] == "fld" and a[2] in STACKS:
            return a[2]
    return None


class TClient(IRClient):
    """transform and the tables of names stay uninterpreted; the stacks of the context are modelled"""

    def stk(self, ai, st, k):
        v = ai.getf(st, src("stacks"), k)
        for a in v:
            if a[0] == "stk":
                return a[1]
        return (src("outer-" + k),)

    def setstk(self, ai, st, k, t):
        ai.setf(st, src("stacks"), k, V(("stk", t)))

    def on_ctor(self, ai, st, n, cls, vs, C):
        if cls.endswith("OMPSched") and len(vs) >= 6:
            st.trace = st.trace + (("sched", tuple(vs)),)
        return None

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm, q = f["n"], f["qn"]
        if nm == "transform" and q.startswith(TV):
            st = st.copy()
            r = op("T", vs[0])
            st.trace = st.trace + (("tr", vs[0], self.stk(ai, st, "series"), self.stk(ai, st, "bases"), st.pc),)
            return [(st, r)]
        if nm == "getType" and q.startswith(TV):
            return [(st, op("type", vs[0]))]
        if nm == "getModule" and not vs:
            return [(st, src("M"))]
        if nm == "getSrcInfo" and not vs:
            return [(st, op("where", o))]
        if nm in ("empty", "size") and o is not None and any(a[0] == "src" and a[2][-1:] == ("arenas",) for a in o):
            return [(st, TRUE if nm == "empty" else INT(0))]
        if nm in ("getVar", "getFunc", "getType") and q.startswith("codon::ast::TranslateItem::"):
            return [(st, op(nm[3:].lower(), o))]
        if nm == "clone" and q.startswith("codon::ir::util::CloneVisitor"):
            return [(st, op("copy", vs[0]))]
        if nm == "accept" and vs and any(a[0] == "new" and str(a[2]).endswith("IdVisitor") for a in vs[0]):
            st = st.copy()
            ai.setf(st, vs[0], "ids", src("ids"))
            return [(st, VOID)]
        if nm in ("emplace_back", "push_back") and o is not None and o in (src("outer-seqItems"), src("seq")):
            st = st.copy()
            if len(vs) == 1:                    # a pair made on the spot
                vs = [ai.getf(st, vs[0], "first"), ai.getf(st, vs[0], "second")]
            st.trace = st.trace + (("item", o, tuple(vs), st.pc),)
            return [(st, VOID)]
        if nm == "setAttribute" and vs and o is not None and not any(a[0] == "new" for a in o):
            st = st.copy()
            st.trace = st.trace + (("attribute", o, vs[0]),)
            return [(st, VOID)]
        if nm == "hasAttribute" and vs:
            return [(st, op("attr", o, vs[0]))]
        if nm == "accept" and vs and any(a[0] == "new" and a[2] == TV for a in vs[0]):
            st = st.copy()
            st.trace = st.trace + (("accept", o, self.stk(ai, st, "seqItems"), st.pc),)
            ai.setf(st, vs[0], "result", op("V", o))
            return [(st, VOID)]
        g = re.search(r"ranges::__(\w+)_fn", q)
        if g and g.group(1) in ("reverse", "sort", "rotate", "shuffle"):
            st.trace = st.trace + (("reorder", g.group(1), o, vs),)
        if nm in ("reverse", "sort", "shuffle", "rotate", "push_front", "emplace_front", "erase", "unique", "stable_sort", "insert") and not stack_of(o):
            st.trace = st.trace + (("reorder", nm, o, vs),)
        k = stack_of(o)
        if k is not None:
            s = self.stk(ai, st, k)
            if nm in ("push_back", "emplace_back"):
                st = st.copy()
                if k == "seqItems":
                    self.setstk(ai, st, k, s + (src("seq"),))
                    return [(st, VOID)]
                self.setstk(ai, st, k, s + (vs[0] if vs else VOID,))
                return [(st, VOID)]
            if nm == "pop_back":
                st = st.copy()
                self.setstk(ai, st, k, s[:-1] if s else s)
                return [(st, VOID)]
            if nm == "back":
                return [(st, s[-1] if s else VOID)]
        if nm in ("find", "forceFind", "add", "addBlock", "popBlock") and ("Context" in q):
            st = st.copy()
            st.trace = st.trace + (("ctx", nm, tuple(vs), st.pc),)
            return [(st, op("find", *vs) if nm in ("find", "forceFind") else VOID)]
        if nm == "push_back" and o is not None and "Flow" in q or nm == "push_back" and q.endswith("BodiedFunc::push_back"):
            st = st.copy()
            st.trace = st.trace + (("push", o, vs[0], q),)
            if not any(a[0] == "new" for a in o):
                return [(st, VOID)]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


N = src("n")


def body_of(P, K):
    fs = [f for f in P.fn(TV + "::visit") if f.get("body") is not None and strip_t(f["T"][f["params"][0]["t"]]) in (K + " *", K + "*")]
    if len(fs) != 1:
        raise AnalysisBroken("TranslateVisitor::visit(%s) not found" % K)
    return fs[0]


def run(P, f, args=None, this=src("this")):
    memo = P.__dict__.setdefault("translate_paths", {})
    k = (f["id"], repr(args))
    if k not in memo:
        cl = TClient({"this": TV})
        cl.P = P
        ai = AI(P, cl, max_paths=1500)
        out = []
        for s, r in ai.run(f, State(), this, args or [N]):
            if r is THROWN:
                continue
            cjs = [cj for cj in dnf(s.conds()) if not contradictory(cj)]
            if cjs:
                out.append((ai, s, r, cjs))
        if not out:
            raise AnalysisBroken("no path through %s" % f["qn"])
        memo[k] = out
    return memo[k]


def n(*p):
    return src("n", *p)


def T(v):
    return op("T", v)


def typ(v):
    return op("type", v)


def transformed(s):
    return [(e[1], e[2], e[3]) for e in s.trace if e[0] == "tr"]


OUT, BASE = src("outer-series"), src("outer-bases")


class Judge:
    """one path through the translation of a node"""

    def __init__(self, c, P, K, f, path):
        self.c, self.P, self.K, self.f = c, P, K, f
        self.ai, self.s, self.r, self.cjs = path
        self.res = self.ai.getf(self.s, src("this"), "result")
        self.name = K.split("::")[-1]

    def bad(self, key, msg):
        self.c.viol("%s:%s" % (self.name, key), self.f.where, "%s (%s): %s" % (self.name, show_pc(self.s.conds())[:90], msg))

    def good(self, clause, what=""):
        self.c.ok(clause, self.name + " " + what)

    def get(self, v, *path):
        for p in path:
            v = self.ai.getf(self.s, v, p)
        return v

    def is_(self, pred, pol=True):
        return all(cond(cj, pred, pol) for cj in self.cjs)

    def absent(self, v):
        return self.is_(nz(v), False)

    def present(self, v):
        return self.is_(nz(v))

    def result(self, cls, fields=None, v=None, what="the result"):
        v = self.res if v is None else v
        a = sole(v)
        if a is None or a[0] != "new" or not str(a[2]).split("<")[0].endswith("::" + cls):
            self.bad("class", "%s is %s, not a %s" % (what, show(v)[:80], cls))
            return False
        ok = True
        for fn, w in (fields or {}).items():
            x = self.get(v, fn)
            ws = w if isinstance(w, list) else [w]
            if x not in ws:
                self.bad("field:" + fn, "%s of the %s is %s instead of %s" % (fn, cls, show(x)[:80] or "nothing", show(ws[0])[:60] or "nothing"))
                ok = False
            else:
                self.good("field", fn)
        return ok

    def none(self):
        if self.res != src("this", "result") and self.res not in (NULL,):
            self.bad("none", "gives %s where nothing is to be done" % show(self.res)[:80])
        else:
            self.good("field", "no result")

    def opt(self, part):
        """the translation of an optional part"""
        return NULL if self.absent(part) else T(part)

    def series(self, part, what):
        """the series the statements of a part are put in"""
        ts = [t for t in transformed(self.s) if t[0] == part]
        if len(ts) != 1:
            self.bad("part:" + what, "%s is translated %d times" % (what, len(ts)))
            return None
        st = ts[0][1]
        a = sole(st[-1]) if st else None
        if len(st) != 2 or st[0] != OUT or a is None or a[0] != "new" or not a[2].endswith("SeriesFlow"):
            self.bad("part:" + what, "%s is not translated into a series of its own" % what)
            return None
        others = [t for t in transformed(self.s) if t[0] != part and t[1][-1:] == st[-1:]]
        if others:
            self.bad("part:" + what, "%s shares its series with %s" % (what, show(others[0][0])[:60]))
            return None
        self.good("series", what)
        return st[-1]

    def outer(self, *parts):
        """parts evaluated before the construct"""
        for v in parts:
            for t in transformed(self.s):
                if t[0] == v and (t[1] != (OUT,) or t[2] != (BASE,)):
                    self.bad("outer", "%s is translated inside another series than the construct" % show(v))

    def once(self, *allowed):
        """no part is translated twice, nothing else than the parts is"""
        ts = [t[0] for t in transformed(self.s)]
        for v in set(ts):
            if ts.count(v) > 1:
                self.bad("twice", "%s is translated %d times" % (show(v)[:60], ts.count(v)))
        for v in allowed:
            if v not in ts:
                self.bad("missing", "%s is not translated" % show(v)[:60])
            else:
                self.good("once", show(v))
        for v in set(ts) - set(allowed):
            self.bad("extra", "%s is translated here" % show(v)[:60])

    def balanced(self):
        cl = TClient({})
        for e in self.s.trace:
            if e[0] == "tr" and any(a[0] == "src" and "[-]" in a[2] for a in e[1]):
                self.bad("short", "the last of the parts %s is left out" % show(e[1])[:60])
        for k in STACKS:
            if cl.stk(self.ai, self.s, k) != (src("outer-" + k),):
                self.bad("stack:" + k, "the stack of %s is not as it was found" % k)
            else:
                self.good("balanced", k)
        bs = [e[1] for e in self.s.trace if e[0] == "ctx" and e[1] in ("addBlock", "popBlock")]
        d = 0
        for b in bs:
            d += 1 if b == "addBlock" else -1
            if d < 0:
                break
        if d:
            self.bad("block", "the scopes opened and closed do not match: %s" % bs)

    def order(self, *events):
        """indices of the first trace entries satisfying the predicates increase"""
        last = -1
        for what, pred in events:
            ix = [i for i, e in enumerate(self.s.trace) if pred(e)]
            if not ix:
                self.bad("order:" + what, "%s does not happen" % what)
                return
            if ix[0] < last:
                self.bad("order:" + what, "%s comes too early" % what)
                return
            last = ix[0]
        self.good("order", " < ".join(e[0] for e in events))


def tr(part):
    return lambda e: e[0] == "tr" and e[1] == part


def isop(v, name):
    a = sole(v)
    return bool(a) and a[0] == "op" and str(a[1]).split("::")[-1] == name


def eqstr(x, s_):
    return eq(x, V(("str", s_)))


def gen_on(j, want):
    g = j.get(BASE, "generator")
    on = g in (TRUE, INT(1))
    if on != want:
        j.bad("generator", "the function is %smarked as a generator" % ("" if on else "not "))
    else:
        j.good("generator", str(want))


# ------------------------------------------------------------------ one rule per kind of node
def constant(field, cls=None):
    def rule(j):
        j.result(cls or "TemplatedConst", {"type": typ(n("type")), "val": n(*field)})
        j.once()
    return rule


def r_string(j):
    if j.result_any():
        pass


def r_if_expr(j):
    j.result("TernaryInstr", {"cond": T(n("cond")), "trueValue": T(n("ifexpr")), "falseValue": T(n("elsexpr"))})
    j.once(n("cond"), n("ifexpr"), n("elsexpr"))
    j.outer(n("cond"), n("ifexpr"), n("elsexpr"))


def r_await(j):
    j.result("AwaitInstr", {"value": T(n("expr")), "type": typ(n("type"))})
    g = sole(j.get(j.res, "generator"))
    if not (isop(j.get(j.res, "generator"), "is") and g[2] == n("expr", "type") and "'Generator'" in repr(g)):
        j.bad("field:generator", "whether a generator is awaited is %s" % show(j.get(j.res, "generator"))[:60])
    j.once(n("expr"))


def r_yield_expr(j):
    j.result("YieldInInstr", {"type": typ(n("type")), "suspend": [TRUE, INT(1)]})
    j.once()


def r_stmt_expr(j):
    if not j.result("FlowInstr", {"val": T(n("expr"))}):
        return
    it = n("items", "[]")
    if any(t[0] == it for t in transformed(j.s)):
        s_ = j.series(it, "the statements")
        if s_ is not None and j.get(j.res, "flow") != s_:
            j.bad("field:flow", "the flow is not the series of the statements")
        j.order(("the statements", tr(it)), ("the value", tr(n("expr"))))
        j.once(it, n("expr"))
    elif not j.is_(nz(op("size", n("items"))), False):
        j.bad("missing", "the statements are not translated")


def r_suite(j):
    it = n("items", "[]")
    ts = [t[0] for t in transformed(j.s)]
    if ts != [it] and not (not ts and j.is_(nz(op("size", n("items"))), False)):
        j.bad("missing", "the statements of a suite are not translated one after the other: %s" % [show(x) for x in ts])
    else:
        j.good("once", "items")
    j.outer(it)
    j.none()


def r_jump(cls):
    def rule(j):
        j.result(cls)
        j.once()
    return rule


def one_value(cls, more=None, gen=None):
    def rule(j):
        e = n("expr")
        j.result(cls, dict(more or {}, value=j.opt(e)))
        j.once(*([] if j.absent(e) else [e]))
        j.outer(e)
        if not j.absent(e) and not j.present(e):
            j.bad("optional", "a missing part is translated")
        if gen:
            gen_on(j, True)
    return rule


def r_expr_stmt(j):
    e = n("expr")
    final = j.is_(lambda a: a[0] == "eq" and any("_yield_final" in repr(x) for x in a[1:]))
    if final:
        a0 = n("expr", "items", "[0]", "value")
        j.result("YieldInstr", {"value": T(a0), "final": [TRUE, INT(1)]})
        gen_on(j, True)
        j.once(a0)
    else:
        if j.res != T(e):
            j.bad("value", "gives %s instead of the translation of its expression" % show(j.res)[:80])
        else:
            j.good("field", "expr")
        j.once(e)
    j.outer(e)


def r_member(j):
    j.result("InsertInstr", {"lhs": T(n("lhs")), "field": n("member"), "rhs": T(n("rhs"))})
    j.once(n("lhs"), n("rhs"))
    j.outer(n("lhs"), n("rhs"))


def r_while(j):
    b = j.series(n("suite"), "the body")
    j.result("WhileFlow", {"cond": T(n("cond")), **({"body": b} if b else {})})
    j.once(n("cond"), n("suite"))
    j.outer(n("cond"))


def r_if(j):
    b = j.series(n("ifSuite"), "the branch taken when the condition holds")
    want = {"cond": T(n("cond")), **({"trueBranch": b} if b else {})}
    if j.absent(n("elseSuite")):
        j.once(n("cond"), n("ifSuite"))
        want["falseBranch"] = NULL
    else:
        j.once(n("cond"), n("ifSuite"), n("elseSuite"))
        b = j.series(n("elseSuite"), "the branch taken when it does not")
        if b:
            want["falseBranch"] = b
    j.result("IfFlow", want)
    j.outer(n("cond"))


def new_local(j, v, t, name, what):
    """a fresh variable that is not global, declared in the function"""
    a = sole(v)
    if a is None or a[0] != "new":
        return False
    for fn, w in (("type", [t]), ("name", [name]), ("global", [FALSE, INT(0)]), ("external", [FALSE, INT(0)]), ("tls", [FALSE, INT(0)])):
        if j.get(v, fn) not in w:
            j.bad("var:" + fn, "%s of %s is %s" % (fn, what, show(j.get(v, fn))[:60]))
        else:
            j.good("variable", fn)
    declared(j, v, what)
    return True


def declared(j, v, what):
    n_ = [e for e in j.s.trace if e[0] == "push" and e[1] == BASE and e[2] == v]
    if len(n_) != 1:
        j.bad("var:declared", "%s is declared %d times in the function" % (what, len(n_)))


def known_as(j, v, name, before, what):
    def added(e):
        return e[0] == "ctx" and e[1] == "add" and len(e[2]) == 3 and e[2][1] == name and e[2][2] == v and all(a[0] == "enum" and a[1].endswith("Var") for a in e[2][0])
    if before is None:
        j.order((what + " is entered under its name", added))
    else:
        j.order((what + " is entered under its name", added), before)


def found_var(name):
    return op("var", op("find", name))


def attr(node, key):
    return lambda a: a[0] == "nz" and isop(a[1], "attr") and sole(a[1])[2] == node and all(b[0] in ("enum", "glob") and b[1].split("::")[-1] == key for b in sole(a[1])[3])


def dominated(j, node, name):
    """the name is bound and the node says that this binding is used"""
    fd = op("find", name)
    at = attr(node, "ExprDominated")
    return j.is_(nz(fd)) and j.is_(at), j.is_(nz(fd), False) or j.is_(at, False)


def subterms_of(v, out=None):
    out = set() if out is None else out
    out.add(v)
    for a in v:
        if a[0] == "op":
            for x in a[2]:
                subterms_of(x, out)
        for x in a[1:]:
            if isinstance(x, frozenset):
                subterms_of(x, out)
    return out


def loop_var(j, v, name, attrs, t, what):
    yes, no = dominated(j, attrs, name)
    if v == found_var(name):
        if not yes:
            j.bad("var:reused", "%s is an existing variable without having been found to be one" % what)
        else:
            j.good("variable", "existing")
        return True
    if not no:
        j.bad("var:new", "%s is a new variable although an existing one is meant" % what)
    if not new_local(j, v, t, name, what):
        j.bad("var:class", "%s is %s" % (what, show(v)[:60]))
        return False
    return True


def r_for(j):
    b = j.series(n("suite"), "the body")
    if not j.result("ForFlow", {"iter": T(n("iter")), **({"body": b} if b else {})}):
        return
    v = j.get(j.res, "var")
    nm = n("var", "value")
    if loop_var(j, v, nm, n("var"), typ(n("var", "type")), "the loop variable"):
        known_as(j, v, nm, ("the body", tr(n("suite"))), "the loop variable")
    j.outer(n("iter"))
    a = j.get(j.res, "async")
    asy = nz(n("async"))
    if a in (TRUE, INT(1)) and j.is_(asy) or a in (FALSE, INT(0)) and j.is_(asy, False) or a == n("async"):
        j.good("field", "async")
    else:
        j.bad("field:async", "whether the loop is asynchronous does not follow the statement")
    dec = n("decorator")
    sc = j.get(j.res, "schedule")
    if j.absent(dec):
        if sc != NULL and sc and not all(x[0] == "undef" for x in sc):
            j.bad("field:schedule", "a loop without a decorator has a schedule")
        j.once(n("iter"), n("suite"))
        return
    th, ch = n("decorator", "items", "[0]", "value"), n("decorator", "items", "[1]", "value")
    j.once(n("iter"), n("suite"), th, ch)
    j.outer(th, ch)
    x = sole(sc)
    if x is None or x[0] != "new" or not x[2].endswith("OMPSched"):
        j.bad("field:schedule", "the schedule of the decorator is lost")
        return
    e = [e for e in j.s.trace if e[0] == "sched"]
    args = e[0][1] if len(e) == 1 else ()

    def generic(v, i, m):
        t = repr(v)
        return "funcGenerics'" in t and ("[%d]" % i) in t and m in t
    want = [("schedule", lambda v: generic(v, 0, "getStrStatic")), ("threads", lambda v: v == T(th)), ("chunk", lambda v: v == T(ch)),
            ("ordered", lambda v: generic(v, 1, "getBoolStatic")), ("collapse", lambda v: generic(v, 2, "getIntStatic")), ("gpu", lambda v: generic(v, 3, "getBoolStatic"))]
    for i, (what, pr) in enumerate(want):
        if i >= len(args) or not pr(args[i]):
            j.bad("schedule:" + what, "%s of the schedule is %s" % (what, show(args[i])[:60] if i < len(args) else "missing"))
        else:
            j.good("schedule", what)


def r_try(j):
    b = j.series(n("suite"), "the guarded body")
    want = {"body": b} if b else {}
    parts = [n("suite")]
    fin, els = n("finally"), n("elseSuite")
    if not j.absent(fin):
        parts.append(fin)
        b = j.series(fin, "the finally part")
        want.update({"finally": b} if b else {})
    if j.absent(els):
        want["else_"] = NULL
    else:
        parts.append(els)
        b = j.series(els, "the else part")
        want.update({"else_": b} if b else {})
    if not j.result("TryCatchFlow", want):
        return
    if j.absent(fin):
        x = sole(j.get(j.res, "finally"))
        if x not in (("null",),) and (x is None or x[0] != "new" or any(t[1][-1] == V(x) for t in transformed(j.s))):
            j.bad("field:finally", "a missing finally part runs something")
    cs = j.get(j.res, "catches", "[]")
    it = ("items", "[]")
    if any(e[0] == "reorder" for e in j.s.trace):
        j.bad("catches:order", "the handlers are rearranged")
    loop = any(t[0] == n(*it, "suite") for t in transformed(j.s))
    if not loop:
        if cs:
            j.bad("catches", "a handler comes from nowhere")
        elif j.is_(lambda a: a[0] == "nz" and any(x[0] == "each" for x in a[1])):
            j.bad("catches", "a handler is not translated")
        j.once(*parts)
        return
    j.once(*(parts + [n(*it, "suite")]))
    h = j.series(n(*it, "suite"), "the body of a handler")
    k = sole(cs)
    if k is None or k[0] != "new":
        j.bad("catches", "a handler does not become a handler: %s" % show(cs)[:60])
        return
    if h and j.get(cs, "handler") != h:
        j.bad("catch:handler", "a handler runs %s" % show(j.get(cs, "handler"))[:60])
    t = j.get(cs, "type")
    if j.absent(n(*it, "exc")):
        okt = t == NULL
    else:
        x = sole(t)
        y = sole(x[2]) if x and x[:2] == ("op", "type") else None
        okt = bool(y) and isop(x[2], "extractType") and y[-1] == n(*it, "exc", "type")
    if not okt:
        j.bad("catch:type", "a handler catches %s" % show(t)[:60])
    else:
        j.good("catch", "type")
    v = j.get(cs, "catchVar")
    nm = n(*it, "var")
    if j.is_(nz(op("size", nm)), False):
        if v != NULL and v:
            j.bad("catch:var", "a handler without a variable binds %s" % show(v)[:40])
    elif loop_var(j, v, nm, n(*it), t, "the variable of a handler"):
        known_as(j, v, nm, ("the body of the handler", tr(n(*it, "suite"))), "the variable of a handler")


def r_assign(j):
    nm = n("lhs", "value")
    lhs, rhs = n("lhs"), n("rhs")
    argv = lambda a: a[0] == "eq" and nm in a[1:] and any(b[0] == "glob" and b[1].endswith("VAR_ARGV") or b[0] == "str" and b[1] == "__argv__" for x in a[1:] for b in x)
    if j.is_(argv):
        j.none()
        j.once()
        return
    upd = lambda a: a[0] == "eq" and n("update") in a[1:]
    if j.is_(lambda a: upd(a) and any(b[0] == "enum" and b[1].endswith("Update") for x in a[1:] for b in x)):
        j.result("AssignInstr", {"lhs": found_var(nm), "rhs": T(rhs)})
        j.once(rhs)
        j.outer(rhs)
        return
    inst = lambda a: a[0] == "nz" and isop(a[1], "isInstantiated") and n("lhs", "type") in sole(a[1])[2:]
    ist = lambda a: a[0] == "nz" and isop(a[1], "is") and n("lhs", "type") in sole(a[1])[2:]
    isf = lambda a: a[0] == "nz" and isop(a[1], "getFunc") and n("lhs", "type") in sole(a[1])[2:]
    if all(cond(cj, inst, False) or cond(cj, ist) or cond(cj, isf) for cj in j.cjs):
        idr = lambda a: a[0] == "nz" and (sole(a[1]) or ("",))[:2] == ("op", "isa") and rhs in sole(a[1])[2:] and "IdExpr" in repr(a)
        if j.is_(idr):
            j.none()
            j.once()
        elif j.res == T(rhs):
            j.good("field", "side effect")
            j.once(rhs)
            j.outer(rhs)
        else:
            j.bad("alias", "the value of an alias is not evaluated")
        return
    if not (j.is_(inst) and j.is_(ist, False) and j.is_(isf, False)):
        j.bad("alias:when", "whether a type or function is given another name is not asked")
    glob = lambda a: a[0] == "nz" and "'globals'" in repr(a)
    vt = typ(n("rhs", "type")) if j.present(rhs) else typ(n("lhs", "type")) if j.absent(rhs) else None
    ext = attr(n("lhs"), "ExprExternVar")
    tls = lambda a: upd(a) and any(b[0] == "enum" and "ThreadLocal" in b[1] for x in a[1:] for b in x)
    isx, istls = j.is_(ext), j.is_(tls)
    if j.is_(glob):
        v = found_var(nm)
    else:
        ps = [e[2] for e in j.s.trace if e[0] == "push" and e[1] == BASE]
        if len(ps) != 1:
            j.bad("var:declared", "%d variables are declared by an assignment" % len(ps))
            return
        v = ps[0]
        known_as(j, v, nm, None if isx or j.absent(rhs) else ("the value", tr(rhs)), "the variable")
        for fn, w in (("global", isx or istls), ("external", isx), ("tls", istls)):
            if (j.get(v, fn) in (TRUE, INT(1))) != w:
                j.bad("var:" + fn, "%s of a new variable is %s" % (fn, show(j.get(v, fn))[:40]))
            else:
                j.good("variable", fn)
        if not isx and j.get(v, "name") != nm:
            j.bad("var:name", "a new variable is called %s" % show(j.get(v, "name"))[:60])
    if vt is not None and j.get(v, "type") != vt:
        j.bad("var:type", "the type of the assigned variable is %s" % show(j.get(v, "type"))[:60])
    elif vt is not None:
        j.good("variable", "type")
    if j.is_(glob):
        for fn, w in (("global", isx or istls), ("external", isx), ("tls", istls)):
            x = j.get(v, fn)
            on = x in (TRUE, INT(1))
            if on != w:
                j.bad("var:%s:global" % fn, "%s of a global variable becomes %s" % (fn, show(x)[:40]))
    if isx:
        if j.get(v, "name") == nm:
            j.bad("var:cname", "a C variable keeps its internal name")
        j.none()
        j.once()
    elif j.absent(rhs):
        j.none()
        j.once()
    else:
        j.result("AssignInstr", {"lhs": v, "rhs": T(rhs)})
        j.once(rhs)
        j.outer(rhs)


def r_none(j):
    if not j.result("CallInstr"):
        return
    f = j.get(j.res, "callee", "val")
    a = sole(f)
    x = sole(a[2]) if a and a[:2] == ("op", "func") else None
    if not (x and x[:2] == ("op", "find") and "realizedName" in repr(x) and repr(("src", "n", ("type",))) in repr(x) and "'Optional'" in repr(x) and "'__new__'" in repr(x)) or j.get(j.res, "args", "[]"):
        j.bad("value", "None is %s" % show(f)[:80])
    else:
        j.good("field", "None")
    j.once()


def r_id(j):
    nm = n("value")
    item = op("find", nm)
    j.once()
    if j.is_(lambda a: a[0] == "eq" and "__vtable_size__" in repr(a)):
        v = j.get(j.res, "val")
        if not (j.result("TemplatedConst", {"type": typ(n("type"))}) and "classRealizationCnt" in repr(v)):
            j.bad("vtable", "the size of the tables of virtual methods is %s" % show(v)[:60])
        return
    if j.present(op("var", item)):
        j.result("VarValue", {"val": op("var", item)})
    elif j.present(op("func", item)) and j.absent(op("var", item)):
        j.result("VarValue", {"val": op("func", item)})
    elif j.absent(op("var", item)) and j.absent(op("func", item)):
        if j.result("CallInstr") and ("'NoneType'" not in repr(j.get(j.res, "callee", "val")) or j.get(j.res, "args", "[]")):
            j.bad("type", "a name of a type is %s" % show(j.get(j.res, "callee", "val"))[:60])
    else:
        j.bad("kind", "whether a name is a variable or a function is not asked")


def r_dot(j):
    m = n("member")
    props = {"__atomic__": "IS_ATOMIC", "__contents_atomic__": "IS_CONTENT_ATOMIC", "__elemsize__": "SIZEOF"}
    live = [cj for cj in j.cjs if sum(1 for p in props if cond(cj, eqstr(m, p))) <= 1]
    if not live:
        return
    hits = [p for p in props if all(cond(cj, eqstr(m, p)) for cj in live)]
    if not hits:
        if not all(all(cond(cj, eqstr(m, p), False) for p in props) for cj in live):
            j.bad("property:when", "a property of a type is read as a member")
        j.result("ExtractInstr", {"val": T(n("expr")), "field": m})
        j.once(n("expr"))
        j.outer(n("expr"))
        return
    j.once()
    if not j.result("TypePropertyInstr"):
        return
    p = j.get(j.res, "property")
    if not all(a[0] == "enum" and a[1].endswith("::" + props[hits[0]]) for a in p):
        j.bad("property", "%s asks for %s" % (hits[0], show(p)[:40]))
    else:
        j.good("field", hits[0])
    t = j.get(j.res, "inspectType")
    if not ("extractType'" in repr(t) and repr(("src", "n", ("expr", "type"))) in repr(t)):
        j.bad("property:type", "%s asks about %s" % (hits[0], show(t)[:60]))


def special(j):
    """the internal functions a call can be of"""
    nm = n("expr", "value")
    for k in ("__ptr__", "__array__", "_yield_in_no_suspend"):
        if j.is_(lambda a: k in repr(a) and nm in ({a[1], a[2]} if a[0] == "eq" else subterms_of(a[1]))):
            return k
    return None


def r_call(j):
    k = special(j)
    args = n("items", "[]", "value")
    if k == "__array__":
        if j.result("StackAllocInstr"):
            a, sz = j.get(j.res, "arrayType"), j.get(j.res, "count")
            x = sole(a)
            if not (x and isop(a, "unsafeGetArrayType") and "funcParent'" in repr(x) and ".generics'" in repr(x)):
                j.bad("array:type", "the type of a static array is %s" % show(a)[:60])
            if not ("funcGenerics'" in repr(sz) and "getIntStatic" in repr(sz)):
                j.bad("array:size", "the size of a static array is %s" % show(sz)[:60])
            j.good("field", "array")
        j.once()
        return
    if k == "_yield_in_no_suspend":
        j.result("YieldInInstr", {"type": typ(n("type")), "suspend": [FALSE, INT(0)]})
        j.once()
        return
    if k == "__ptr__":
        head = [t for t in transformed(j.s)]
        if len(head) != 1 or "items" not in repr(head[0][0]):
            j.bad("ptr:argument", "the argument of __ptr__ is translated %d times" % len(head))
        pv, pre = j.res, T(head[0][0]) if head else None
        if j.res == pre or (j.is_(nz(pre)) and sole(j.res) and sole(j.res)[0] != "new"):
            pv = j.get(j.res, "val")
        elif pre is not None and j.is_(nz(pre)) and j.is_(lambda a: a[0] == "nz" and (sole(a[1]) or ("",))[:2] == ("op", "isa") and pre in sole(a[1])[2:]):
            j.bad("ptr:pre", "what has to run before a pointer is taken is lost")
        if not j.result("PointerValue", v=pv):
            return
        v = j.get(pv, "val")
        x = sole(v)
        if not (x and x[:2] == ("op", "var") and sole(x[2])[:2] == ("op", "find")):
            j.bad("ptr:var", "a pointer is taken to %s" % show(v)[:60])
        else:
            j.good("field", "pointer")
        mem = j.get(pv, "fields", "[]")
        rev = [e for e in j.s.trace if e[0] == "reorder"]
        if mem and len(rev) % 2 != 1:
            j.bad("ptr:members", "the members of a pointer are not in the order they are written in")
        return
    j.result("CallInstr", {"callee": T(n("expr"))})
    got = j.get(j.res, "args", "[]")
    inner = n("items", "[]", "value", "items", "[]", "value")
    ts = [t[0] for t in transformed(j.s)]
    want = []
    if T(inner) == got:
        want = [n("expr"), inner]
        cv = lambda a: a[0] == "nz" and isop(a[1], "attr") and "::CVarArg'" in repr(sole(a[1])[3]) and "getFunc'" in repr(a)
        last = lambda a: a[0] == "eq" and op("size", n("items")) in a[1:]
        if not j.is_(cv) or not j.is_(last):
            j.bad("variadic:when", "the parts of an argument are passed where it is not the last one of a variadic C function")
        else:
            j.good("field", "variadic")
    elif got == T(args):
        want = [n("expr"), args]
    elif not got:
        want = [n("expr")] + [x for x in ts if x in (args, inner)][:0]
        if j.is_(lambda a: a[0] == "nz" and any(x[0] == "each" for x in a[1])):
            pass
    else:
        j.bad("args", "the arguments of a call are %s" % show(got)[:80])
        return
    if any(e[0] == "reorder" for e in j.s.trace):
        j.bad("args:order", "the arguments of a call are rearranged")
    j.once(*want)
    j.order(("the callee", tr(n("expr"))), *([("the arguments", tr(want[1]))] if len(want) > 1 else []))
    j.outer(*want)


def r_pipe(j):
    pushes = [e for e in j.s.trace if e[0] == "push" and e[1] == OUT]
    first = n("items", "[0]", "expr")
    rest = ("items", "[+]", "expr")

    def gen_fact(fn):
        """is the type of fn a generator, or that of a function returning one"""
        def of(a):
            return a[0] == "nz" and isop(a[1], "isa") and "GeneratorType" in repr(a[1]) and any(isop(x, "doGetType") and sole(x)[2] == T(fn) for x in subterms_of(a[1]))
        pos = j.is_(of)
        neg = j.is_(of, False) and not pos
        return pos, neg
    ts = [t[0] for t in transformed(j.s)]
    if first not in ts:
        j.bad("missing", "the first stage is not translated")
    for v in set(ts):
        if ts.count(v) > 1:
            j.bad("twice", "%s is translated %d times" % (show(v)[:60], ts.count(v)))
    if pushes:
        if len(pushes) > 1 or j.res not in (src("this", "result"), NULL):
            j.bad("statement", "a pipeline with generators is not one statement")
        pl = pushes[0][2]
        if not j.result("PipelineFlow", v=pl, what="the pipeline"):
            return
        for a in j.get(pl, "stages", "[]"):
            st = V(a)
            cal = j.get(st, "callee")
            which = "first" if cal == T(first) else "rest" if cal == T(n(*rest, "expr")) else None
            if which is None:
                j.bad("stage:callee", "a stage calls %s" % show(cal)[:60])
                continue
            g = j.get(st, "generator")
            pos, neg = gen_fact(first if which == "first" else n(*rest, "expr"))
            if g in (TRUE, INT(1)) and not pos or g in (FALSE, INT(0)) and not neg:
                j.bad("stage:generator:" + which, "a stage is marked as %s generator" % ("a" if g in (TRUE, INT(1)) else "no"))
            else:
                j.good("stage", "generator")
            ar = j.get(st, "args", "[]")
            if which == "first":
                if ar:
                    j.bad("stage:args", "the first stage has arguments")
            else:
                el = n(*rest, "items", "[]", "value")
                isel = lambda a: a[0] == "nz" and (sole(a[1]) or ("",))[:2] == ("op", "isa") and el in sole(a[1])[2:] and "EllipsisExpr" in repr(a[1])
                if ar == NULL and not j.is_(isel) or ar == T(el) and not j.is_(isel, False) and not j.absent(el) or ar not in (NULL, T(el), VOID):
                    j.bad("stage:args", "an argument of a stage is %s" % show(ar)[:60])
                else:
                    j.good("stage", "argument")
            p = j.get(st, "parallel")
            par = lambda a: a[0] == "eq" and V(("str", "||>")) in a[1:] and any(n("items", k, "op") in a[1:] for k in ("[]", "[+]"))
            on = any(b in (("bool", True), ("int", 1)) for b in p)
            if on != j.is_(par) and which != "first":
                j.bad("stage:parallel", "a stage is %sparallel" % ("" if on else "not ") + " where the operator is not ||>" * on)
            else:
                j.good("stage", "parallel")
        return
    if True:
        if gen_fact(first)[0]:
            j.bad("simple:when", "a pipeline starting with a generator becomes nested calls")
    v = j.res
    if v == op("copy", T(first)):
        j.good("stage", "simple")
        return
    if not j.result("CallInstr", v=v):
        return
    cal = j.get(v, "callee")
    if cal not in (op("copy", T(n(*rest, "expr"))), op("copy", T(first) | T(n(*rest, "expr")))):
        j.bad("simple:callee", "a stage of a simple pipeline calls %s" % show(cal)[:60])
    ar = j.get(v, "args", "[]")
    el = n(*rest, "items", "[]", "value")
    prev = op("copy", T(first)) | op("copy", T(first) | T(n(*rest, "expr")))
    isel = lambda a: a[0] == "nz" and isop(a[1], "isa") and el in sole(a[1])[2:] and "EllipsisExpr" in repr(a[1])
    if not ar <= (op("copy", T(el)) | prev) or j.is_(isel) and not ar & prev and not j.is_(nz(T(el)), False):
        j.bad("simple:args", "an argument of a stage of a simple pipeline is %s" % show(ar)[:80])
    else:
        j.good("stage", "simple")


def r_generator(j):
    if not j.result("CallInstr"):
        return
    fn = j.get(j.res, "callee", "val")
    a = sole(fn)
    if a is None or a[0] != "new" or not a[2].endswith("BodiedFunc"):
        j.bad("callee", "a generator expression calls %s" % show(fn)[:60])
        return
    for f, w in (("generator", [TRUE, INT(1)]), ("global", [TRUE, INT(1)])):
        if j.get(fn, f) not in w:
            j.bad("function:" + f, "%s of the function of a generator expression is %s" % (f, show(j.get(fn, f))[:30]))
    ts = transformed(j.s)
    if len(ts) != 1 or len(ts[0][1]) != 2 or ts[0][2] != (BASE, fn) or j.get(fn, "body") != ts[0][1][-1]:
        j.bad("body", "the clauses of a generator expression are not translated into the body of its function")
    else:
        j.good("series", "generator body")
    i = src("ids", "[]")
    var = op("var", op("find", i))
    arg = j.get(j.res, "args", "[]")
    ar = sole(arg)
    if ar is not None:
        if ar[0] != "new" or not ar[2].endswith("VarValue") or j.get(arg, "val") != var:
            j.bad("args", "a generator expression is passed %s" % show(j.get(arg, "val"))[:60])
        else:
            j.good("field", "captured")
    # scope
    names = [e[1] for e in j.s.trace if e[0] == "ctx" and e[1] in ("addBlock", "popBlock", "add")]
    if names[:1] != ["addBlock"] or names[-1:] != ["popBlock"]:
        j.bad("scope", "the names inside a generator expression are not in a scope of their own")


LITERALS = {"ExprList": "ListLiteralAttribute", "ExprSet": "SetLiteralAttribute", "ExprDict": "DictLiteralAttribute", "ExprPartial": "PartialFunctionAttribute"}


def en(v, name):
    return bool(v) and all(a[0] == "enum" and a[1].split("::")[-1] == name for a in v)


def literals(c, P):
    """an expression written as a literal is marked with its elements; elements are noted for the literal around them"""
    fs = [f for f in P.fn(TV + "::transform") if f.get("body") is not None and "Expr" in f["T"][f["params"][0]["t"]]]
    if len(fs) != 1:
        raise AnalysisBroken("TranslateVisitor::transform(Expr *) not found")
    V_ = op("V", N)
    for ai, s, r, cjs in run(P, fs[0]):
        for cj in cjs:
            j = Judge(c, P, "Expr", fs[0], (ai, s, r, [cj]))
            on = [k for k in LITERALS if j.is_(attr(N, k))]
            if len(on) > 1:
                continue        # the kinds of literals exclude each other
            j.balanced()
            if r != V_:
                j.bad("value", "an expression is translated to %s" % show(r)[:60])
            acc = [e for e in s.trace if e[0] == "accept"]
            if len(acc) != 1 or acc[0][1] != N:
                j.bad("accept", "an expression is visited %d times" % len(acc))
                continue
            stack = (src("outer-seqItems"),) + ((src("seq"),) if on else ())
            if acc[0][2] != stack:
                j.bad("literal:elements", "while the elements of a literal are translated, no list collects them" if on else "an expression that is no literal hides the list of its literal")
            at = [e for e in s.trace if e[0] == "attribute"]
            it = [e for e in s.trace if e[0] == "item"]
            for key in ("ExprSequenceItem", "ExprStarSequenceItem"):
                n_ = [e for e in it if e[2] and en(e[2][0], key)]
                if len(n_) != (1 if j.is_(attr(N, key)) else 0) or any(e[1] != src("outer-seqItems") or e[2][1] != V_ for e in n_):
                    j.bad("item:" + key, "an element is noted %d times for the literal it stands in" % len(n_))
                else:
                    j.good("element", key)
            if not on:
                if at:
                    j.bad("literal:none", "an expression that is no literal is marked as one")
                continue
            if len(at) != 1 or at[0][1] != V_ or not (sole(at[0][2]) and sole(at[0][2])[0] == "new" and sole(at[0][2])[2].endswith(LITERALS[on[0]])):
                j.bad("literal:" + on[0], "a literal of kind %s is marked %s" % (on[0], [show(e[2])[:50] for e in at]))
                continue
            A = at[0][2]
            if any(e[0] == "reorder" for e in s.trace):
                j.bad("literal:order", "the elements of a literal are rearranged")
            star = lambda x: (lambda a: a[0] == "eq" and x in a[1:] and any(en(y, "ExprStarSequenceItem") for y in a[1:]))
            if on[0] in ("ExprList", "ExprSet"):
                for a in j.get(A, "elements", "[]"):
                    v, st = j.get(V(a), "value"), j.get(V(a), "star")
                    b = sole(v)
                    if not (b and b[0] == "src" and b[1] == "seq" and b[2][-1] == "second") or "[-]" in b[2]:
                        j.bad("element:value", "an element of a literal is %s" % show(v)[:60])
                        continue
                    first = src("seq", *b[2][:-1], "first")
                    x = sole(st)
                    if x and x[0] == "op" and x[1] == "==" and first in x[2:] and any(en(y, "ExprStarSequenceItem") for y in x[2:]) or \
                            st in (TRUE, FALSE) and j.is_(star(first), st == TRUE):
                        j.good("element", "star")
                    else:
                        j.bad("element:star", "whether an element is spliced in is %s" % show(st)[:60])
            elif on[0] == "ExprDict":
                for a in j.get(A, "elements", "[]"):
                    k, v = sole(j.get(V(a), "key")), j.get(V(a), "value")
                    if not (k and k[0] == "src" and k[1] == "seq" and k[2][-1] == "second") or "[-]" in k[2]:
                        j.bad("dict:key", "a key of a dictionary literal is %s" % show(j.get(V(a), "key"))[:60])
                        continue
                    first = src("seq", *k[2][:-1], "first")
                    if v == NULL:
                        if not j.is_(star(first)):
                            j.bad("dict:star", "a pair of a dictionary literal loses its value")
                        else:
                            j.good("element", "dict star")
                    else:
                        b = sole(v)
                        if not (b and b[0] == "src" and b[1] == "seq" and b[2][-1] == "second" and b[2] != k[2]) or not j.is_(star(first), False):
                            j.bad("dict:value", "a value of a dictionary literal is %s" % show(v)[:60])
                        else:
                            j.good("element", "dict pair")
            else:
                vals = j.get(A, "args", "[]")
                inc = lambda a: a[0] == "eq" and any(en(y, "Included") for y in a[1:])
                val = lambda a: a[0] == "eq" and any(en(y, "Value") for y in a[1:])
                for x in vals:
                    if V(x) == NULL:
                        if j.is_(inc):
                            j.bad("partial:args", "a known argument of a partial call is not noted")
                    elif not (x[0] == "src" and x[1] == "seq" and x[2][-1] == "second") or not j.is_(inc) or not j.is_(val):
                        j.bad("partial:args", "an argument of a partial call is %s" % show(V(x))[:60])
                    else:
                        j.good("element", "partial")
                if not vals and j.is_(val):
                    j.bad("partial:args", "a parameter of a partial call is not noted")
    fs = [f for f in P.fn(TV + "::transform") if f.get("body") is not None and "Stmt" in f["T"][f["params"][0]["t"]]]
    if len(fs) != 1:
        raise AnalysisBroken("TranslateVisitor::transform(Stmt *) not found")
    for ai, s, r, cjs in run(P, fs[0]):
        for cj in cjs:
            j = Judge(c, P, "Stmt", fs[0], (ai, s, r, [cj]))
            j.balanced()
            acc = [e for e in s.trace if e[0] == "accept"]
            push = [e for e in s.trace if e[0] == "push"]
            if len(acc) != 1 or acc[0][1] != N:
                j.bad("accept", "a statement is visited %d times" % len(acc))
            want = [] if j.absent(V_) else [(OUT, V_)]
            if [(e[1], e[2]) for e in push] != want or not (j.absent(V_) or j.present(V_)):
                j.bad("push", "a translated statement is put in its series %d times" % len(push))
            else:
                j.good("statement", "push")
            if not (r == V_ or r == NULL and j.absent(V_)):
                j.bad("value", "translating a statement gives %s" % show(r)[:60])


def functions(c, P):
    a0, a1, a2, a3 = [src("a%d" % i) for i in range(4)]
    f = only(P, TV + "::transformFunction")
    for ai, s, r, cjs in run(P, f, [a0, a1, a2]):
        for cj in cjs:
            j = Judge(c, P, "function", f, (ai, s, r, [cj]))
            j.balanced()
            suite = src("a1", "suite")
            ts = transformed(s)
            foreign = j.is_(attr(a1, "C")) or j.is_(attr(a1, "Internal"))
            body = j.get(a2, "body")
            if foreign:
                if ts or body != src("a2", "body"):
                    j.bad("foreign", "the body of a function implemented elsewhere is translated")
                else:
                    j.good("function", "foreign")
            else:
                if not (j.is_(attr(a1, "C"), False) and j.is_(attr(a1, "Internal"), False)):
                    j.bad("when", "whether a function is implemented elsewhere is not asked")
                if len(ts) != 1 or ts[0][0] != suite or ts[0][1][:1] != (OUT,) or len(ts[0][1]) != 2 or ts[0][2] != (BASE, a2) or ts[0][1][1] != body:
                    j.bad("body", "the body of a function is not translated into the series that becomes its body")
                else:
                    j.good("function", "body")
                adds = [e[2] for e in s.trace if e[0] == "ctx" and e[1] == "add"]
                if any(not en(e[0], "Var") or e[1] != src("a1", "items", "[]", "name") or not any(x[0] == "src" and x[1] == "a2" and x[2][:1] == ("args",) for x in e[2]) for e in adds):
                    j.bad("args", "the arguments of a function are entered as %s" % [[show(x)[:40] for x in e] for e in adds])
                elif adds:
                    j.good("function", "argument")
                ix = {e[1]: i for i, e in enumerate(s.trace) if e[0] == "ctx"}
                tx = [i for i, e in enumerate(s.trace) if e[0] == "tr"]
                if not (ix.get("addBlock", 99) < tx[0] < ix.get("popBlock", -1)) or adds and not (ix["addBlock"] < ix["add"] < tx[0]):
                    j.bad("scope", "the arguments of a function are not known in its body, or beyond it")
            asy = j.is_(nz(src("a1", "async")))
            if not asy and not j.absent(src("a1", "async")) or (j.get(a2, "async") in (TRUE, INT(1))) != asy:
                j.bad("async", "whether a function is asynchronous does not follow its definition")
    # names
    it = "codon::ast::TranslateItem"
    for nm, fld in (("Var", "var"), ("Func", "func"), ("Type", "type")):
        g = only(P, "%s::get%s" % (it, nm))
        cl = TClient({"this": it})
        cl.P = P
        for s, r in AI(P, cl).run(g, State(), src("this"), []):
            if r is THROWN:
                continue
            is_ = lambda a: a[0] == "eq" and src("this", "kind") in a[1:] and any(en(x, nm) for x in a[1:])
            cs = dnf(s.conds())
            if r == src("this", "handle", fld) and all(cond(cj, is_) for cj in cs) or r == NULL and all(cond(cj, is_, False) for cj in cs):
                c.ok("name", nm)
            else:
                c.viol("item:get" + nm, g.where, "TranslateItem::get%s (%s) gives %s" % (nm, show_pc(s.conds())[:60], show(r)[:60]))
    g = [f for f in P.fn("codon::ast::TranslateContext::add") if f.get("body") is not None and len(f["params"]) == 3]
    if len(g) != 1:
        raise AnalysisBroken("TranslateContext::add not found")
    for ai, s, r, cjs in run(P, g[0], [a0, a1, a2], src("cx")):
        for cj in cjs:
            j = Judge(c, P, "add", g[0], (ai, s, r, [cj]))
            k = [x for x in ("Var", "Func", "Type") if j.is_(lambda a: a[0] == "eq" and a0 in a[1:] and any(en(y, x) for y in a[1:]))]
            no = {x for x in ("Var", "Func", "Type") if j.is_(lambda a: a[0] == "eq" and a0 in a[1:] and any(en(y, x) for y in a[1:]), False)}
            k = k or sorted({"Var", "Func", "Type"} - no)
            if len(k) != 1:
                j.bad("kind", "the kind of a new name is not asked")
                continue
            ev = [e for e in s.trace if e[0] == "ctx" and e[1] == "add"]
            if len(ev) != 1 or ev[0][2][:2] != (a1, r):
                j.bad("entered", "a new name is entered %d times" % len(ev))
            if j.get(r, "kind") != a0 and not en(j.get(r, "kind"), k[0]):
                j.bad("kind", "a new name has kind %s" % show(j.get(r, "kind"))[:40])
            if j.get(r, "handle", k[0].lower()) != a2:
                j.bad("handle:" + k[0], "the %s of a new name is %s" % (k[0].lower(), show(j.get(r, "handle", k[0].lower()))[:40]))
            else:
                j.good("name", "add " + k[0])
    g = only(P, "codon::ast::TranslateContext::find")
    for ai, s, r, cjs in run(P, g, [a0], src("cx")):
        for cj in cjs:
            j = Judge(c, P, "find", g, (ai, s, r, [cj]))
            own = op("find", a0)
            a = sole(r)
            if j.present(own):
                if r != own:
                    j.bad("own", "a name known to the translation is looked up elsewhere")
                else:
                    j.good("name", "find own")
            elif a and a[0] == "new":
                k = "Type" if en(j.get(r, "kind"), "Type") else "Func" if en(j.get(r, "kind"), "Func") else None
                h = j.get(r, "handle", (k or "").lower())
                if k is None or not ("realizations" in repr(h) and repr(h).find("'ir'") >= 0 or "'.ir'" in repr(h)):
                    j.bad("handle", "a name found by the type checker is %s" % show(h)[:60])
                elif ("'classes'" in repr(h)) != (k == "Type"):
                    j.bad("kind", "a name found by the type checker is taken for a %s" % k)
                else:
                    j.good("name", "find " + k)
            elif r != NULL and r != own:
                j.bad("value", "a name is %s" % show(r)[:60])
    g = only(P, TV + "::getType")
    for ai, s, r, cjs in run(P, g, [a0]):
        x = sole(r)
        y = sole(x[2]) if x and x[:2] == ("op", "type") else None
        if not (y and y[:2] == ("op", "find") and "realizedName" in repr(y) and "getClass" in repr(y) and a0 in subterms_of(r)):
            c.viol("getType", g.where, "the type of a node is %s" % show(r)[:80])
        else:
            c.ok("name", "getType")


def only(P, q):
    fs = [f for f in P.fn(q) if f.get("body") is not None]
    if len(fs) != 1:
        raise AnalysisBroken("%s not found" % q)
    return fs[0]


RULES = {
    "NoneExpr": r_none, "BoolExpr": constant(("value",)), "IntExpr": constant(("intValue",)), "FloatExpr": constant(("floatValue",)), "IdExpr": r_id, "IfExpr": r_if_expr,
    "CallExpr": r_call, "DotExpr": r_dot, "YieldExpr": r_yield_expr, "StmtExpr": r_stmt_expr, "PipeExpr": r_pipe, "AwaitExpr": r_await, "GeneratorExpr": r_generator,
    "SuiteStmt": r_suite, "BreakStmt": r_jump("BreakInstr"), "ContinueStmt": r_jump("ContinueInstr"), "ExprStmt": r_expr_stmt, "AssignStmt": r_assign,
    "AssignMemberStmt": r_member, "ReturnStmt": one_value("ReturnInstr"), "YieldStmt": one_value("YieldInstr", {"final": [FALSE, INT(0)]}, True), "WhileStmt": r_while,
    "ForStmt": r_for, "IfStmt": r_if, "TryStmt": r_try, "ThrowStmt": one_value("ThrowInstr"),
}


def translation():
    c = Check("C18", "in the translation of the typed syntax tree every part of a node is translated once, into the series of statements it belongs to, and takes its own "
              "place in the instruction or flow that is built; the stacks of series, functions and scopes are left as they were found")
    P = c.load(FILES)
    c.extra["kinds"] = len(RULES)
    for k, m in (("balanced", 60), ("field", 60), ("once", 40), ("variable", 10), ("order", 8), ("generator", 2), ("series", 8), ("schedule", 6), ("stage", 4), ("catch", 1), ("element", 8), ("statement", 2), ("function", 3), ("name", 12)):
        c.floor(k, m)
    for K, rule in sorted(RULES.items()):
        f = body_of(P, "codon::ast::" + K)
        for ai, s, r, cjs in run(P, f):
            for cj in cjs:
                j = Judge(c, P, K, f, (ai, s, r, [cj]))
                j.balanced()
                rule(j)
    literals(c, P)
    functions(c, P)
    return c



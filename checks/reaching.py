"""Reaching definitions and dominators: the answers over-approximate (definitions) and under-approximate (dominance)
every execution of the control-flow graph."""
from absint import *
from checklib import Check
from facts import AnalysisBroken, walk
from folding import dnf, sole, num
from irmodel import IRClient, strip_t
from cfgraph import show, show_pc, contradictory

DF = "codon::ir::analyze::dataflow::"
RD, DOM = "codon/cir/analyze/dataflow/reaching.cpp", "codon/cir/analyze/dataflow/dominator.cpp"
THIS = src("this")
SETOPS = {"update": "or", "subtract": "minus", "overwrite": "set", "clear": "empty", "setAll": "all", "copy": "copy", "set": "bit",
          "get": "get", "equals": "eqset"}


class LogClient(IRClient):
    """containers as uninterpreted maps from keys, with a log of what is stored where"""
    bitset = None       # class whose methods are set operations
    stops = ()

    def should_inline(self, t, f, o, vs):
        return f["n"] not in self.stops

    def typed_leaf(self, x, cls):
        return False

    # ---- set terms
    def content(self, st, o):
        v = frozenset()
        for a in o:
            v |= st.heap.get(a, {}).get("#s", op("empty") if a[0] == "new" else op("content", V(a)))
        return v

    def setcontent(self, st, o, v):
        for a in o:
            st.heap.setdefault(a, {})["#s"] = v

    def setop(self, ai, st, f, o, vs):
        nm = SETOPS.get(f["n"])
        if nm is None:
            return None
        cur = self.content(st, o)
        arg = self.content(st, vs[0]) if vs and nm in ("or", "minus", "set", "eqset") else None
        if nm == "get":
            return [(st, op("in", vs[0], cur))]
        if nm == "eqset":
            return [(st, op("eqset", cur, arg))]
        st = st.copy()
        if nm == "copy":
            n = ai.new_obj(st, self.bitset)
            self.setcontent(st, V(n), cur)
            return [(st, V(n))]
        if nm == "bit":
            new = op("or", cur, op("bit", vs[0]))
        elif nm == "set":
            new = arg
        elif nm in ("empty", "all"):
            new = op(nm)
        else:
            new = op(nm, cur, arg)
        self.setcontent(st, o, new)
        st.trace += (("setop", nm, o, new, st.conds()),)
        return [(st, VOID)]

    # ---- containers
    def at(self, st, o, k):
        st = st.copy()
        a = op("at", o, k)
        p = op("pair", o, k)
        for x in p:
            st.heap.setdefault(x, {})["first"] = k
        for x in o:
            if x[0] == "new":
                h = st.heap.setdefault(x, {})
                h["[]"] = h.get("[]", VOID) | p
        return st, a

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm, cls = f["n"], f.get("cls") or ""
        if nm == "getId" and o is not None and not vs:
            return [(st, op("getId", o))]
        if self.bitset and cls == self.bitset and o is not None:
            r = self.setop(ai, st, f, o, vs)
            if r is not None:
                return r
        if o is not None and STD_CONT.match(cls):
            if nm in ("operator[]", "at"):
                st, a = self.at(st, o, vs[0])
                v = strip_t(ai.P_type(f) if hasattr(ai, "P_type") else "")
                if record_mapped(cls):
                    return [(st, a)]
                return [(st, ("fld", a, "*"))]
            if nm == "size":
                return [(st, op("size", o))]
            if nm in ("push_back", "emplace_back", "insert", "emplace", "push_front", "emplace_front", "try_emplace", "insert_or_assign"):
                st = st.copy()
                st.trace += (("store", nm, o, tuple(vs), st.conds()),)
                if is_map(cls):
                    k = vs[0]
                    a = sole(k)
                    if a and a[0] == "glob":
                        k = piecewise(vs[1])
                    elif len(vs) == 1:
                        k = ai.getf(st, vs[0], "first")
                    st, _ = self.at(st, o, k)
                elif all(x[0] == "new" for x in o) and vs and not any(x[0] == "it" for v in vs for x in v):
                    ai.addelt(st, o, vs[-1])
                return [(st, VOID)]
            if nm in ("pop_front", "pop_back", "clear", "erase"):
                st = st.copy()
                st.trace += (("store", nm, o, tuple(vs), st.conds()),)
                return [(st, VOID)]
        if o is not None and nm in ("operator->", "operator*") and len(o) == 1:
            (a,) = o
            if a[0] == "it" and a[2] == "found":
                return [(st, op("pair", a[1], a[3]))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def piecewise(v):
    a = sole(v)
    return a[2] if a and a[0] == "op" and a[1].endswith("forward_as_tuple") and len(a) > 2 else v


def record_mapped(cls):
    from irmodel import targs
    ts = targs(strip_t(cls))
    t = strip_t(ts[1] if is_map(cls) and len(ts) > 1 else ts[0] if ts else "")
    return not t.endswith("*") and t not in ("long", "int", "unsigned int", "unsigned long", "bool") and not STD_PTR.match(t)


# ---------------------------------------------------------------- helpers
def holds(st_conds, pred):
    """some condition of the path (or of every alternative of a merged one) satisfies pred"""
    for a, p in st_conds:
        if a[0] == "or" and p:
            if all(holds(alt, pred) for alt in a[1]):
                return True
        elif pred(a, p):
            return True
    return False


def iseq(x, y, pol=True):
    def t(a, p):
        return a[0] == "eq" and p == pol and {a[1], a[2]} == {x, y}
    return t


def isnz(x, pol=True):
    def t(a, p):
        return a[0] == "nz" and p == pol and a[1] == x
    return t


def idof(x):
    return op("getId", x)


def truth_table(v, atoms):
    """(assignment, value) pairs of a set term, the other atoms taken as free variables"""
    free = []

    def collect(x):
        a = sole(x)
        if a and a[0] == "op" and a[1] in ("or", "minus", "and"):
            collect(a[2])
            collect(a[3])
        elif a and a[0] == "op" and a[1] in ("empty", "all"):
            pass
        elif x not in free:
            free.append(x)
    collect(v)
    for x in atoms:
        if x not in free:
            free.append(x)

    def val(x, env):
        a = sole(x)
        if a and a[0] == "op" and a[1] in ("or", "minus", "and"):
            l, r = val(a[2], env), val(a[3], env)
            return (l or r) if a[1] == "or" else (l and not r) if a[1] == "minus" else (l and r)
        if a and a[0] == "op" and a[1] in ("empty", "all"):
            return a[1] == "all"
        return env[x]
    if len(free) > 12:
        raise AnalysisBroken("reaching definitions: set expression too large")
    for m in range(1 << len(free)):
        env = {x: bool(m >> i & 1) for i, x in enumerate(free)}
        yield env, val(v, env)


def sub(t, f):
    """rebuild a term, f applied to every value inside it first"""
    r = f(t)
    if r is not None:
        return r
    out = set()
    for a in t:
        if a[0] == "op":
            out.add(("op", a[1], tuple(sub(x, f) if isinstance(x, frozenset) else x for x in a[2])))
        elif a[0] == "it":
            out.add((a[0], sub(a[1], f)) + tuple(a[2:]))
        else:
            out.add(a)
    return frozenset(out)


def resolver(st):
    """reads of local maps: what was stored under the key"""
    def f(t):
        a = sole(t)
        if a and a[0] == "op" and a[1] in (".second", ".*") and len(a) == 3:
            p = sole(a[2])
            if p and p[0] == "op" and p[1] in ("pair", "at") and len(p) == 4:
                h = st.heap.get(("op", "at", (p[2], p[3])), {})
                if "*" in h:
                    return sub(h["*"], f)
                return op(".*", op("at", sub(p[2], f), sub(p[3], f)))
        if a and a[0] == "op" and a[1] == "at" and len(a) == 4:
            h = st.heap.get(("op", "at", (a[2], a[3])), {})
            if "*" in h:
                return sub(h["*"], f)
        return None
    return lambda t: sub(t, f)


def fn(P, name, pred, what):
    fs = [f for f in P.funcs.values() if f.get("body") and pred(f)]
    if not fs:
        raise AnalysisBroken("reaching definitions: %s not found" % what)
    return fs[0]


def ptypes(P, f):
    return [strip_t(f["T"][p["t"]]) for p in f["params"]]


def rtype(f):
    return f["T"][f["ret"]] if isinstance(f.get("ret"), int) else f.get("rt") or ""


# ---------------------------------------------------------------- reaching definitions
VAL = src("this", "cfg", "blocks", "[]", "values", "[]")
BLOCK = src("this", "cfg", "blocks", "[]")


class RDClient(LogClient):
    """summaries of the helpers whose own rules are checked separately"""
    twice = True
    exact_while = True
    killed = generated = worklist = None

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if self.killed is not None and f.get("id") == self.killed["id"]:
            return [(st, op("killed", vs[0]))]
        if self.generated is not None and f.get("id") == self.generated["id"]:
            st = st.copy()
            p = ai.new_obj(st, "std::pair<>")
            st.heap[p]["first"], st.heap[p]["second"] = op("killed", vs[0]), op("def", vs[0])
            return [(st, V(p))]
        if self.worklist and (f.get("cls") or "").startswith(self.worklist) and o is not None:
            if f["n"] == "pop":
                st = st.copy()
                k = len([e for e in st.trace if e[0] == "pop"])
                st.trace += (("pop", k),)
                return [(st, op("popped", INT(k)))]
            if f["n"] == "push":
                st = st.copy()
                st.trace += (("requeue", vs[0], st.conds()),)
                return [(st, VOID)]
        if f["n"] == "getBlock" and (f.get("cls") or "").endswith("CFGraph"):
            return [(st, op("blockof", vs[0]))]
        return LogClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def run():
    c = Check("C13", "the initial sets, the transfer step, the work list and the queries of both analyses on every path; set expressions "
                     "compared by truth table")
    P = c.load([RD, DOM])
    h = helpers(c, P)
    bitset(c, P, h)
    worklist(c, P, h)
    analyze(c, P, h)
    query(c, P, h)
    dominators(c, P)
    dominated(c, P)
    results(c, P)
    for k, n in (("helper", 2), ("set", 6), ("worklist", 3), ("transfer", 2), ("query", 3), ("dominator", 2)):
        c.floor(k, n)
    return c


def helpers(c, P):
    """what an instruction defines"""
    fs = [f for f in P.funcs.values() if f.get("body") and f["file"].endswith("reaching.cpp") and not f.get("cls")]
    h = {}
    for f in fs:
        pt = ptypes(P, f)
        if len(pt) == 1 and pt[0].replace("const ", "").endswith("Value *"):
            h["generated" if f["n"] == "getGenerated" or "pair" in rtype(f) else "killed"] = f
    for k in ("generated", "killed"):
        if k not in h:
            raise AnalysisBroken("reaching definitions: helper for the %s variable not found" % k)
    A, S = "codon::ir::AssignInstr", DF + "SyntheticAssignInstr"
    for k, f in h.items():
        for cls in (A, S, "codon::ir::CallInstr"):
            cl = LogClient({"val": cls})
            cl.P = P
            cl.typed_leaf = lambda x, k: True
            ai = AI(P, cl)
            v = src("val")
            for s, r in ai.run(f, State(), None, [v]):
                if r is THROWN or holds(s.conds(), isnz(v, False)):
                    continue
                c.ok("helper", "%s of %s" % (f["n"], cls.split("::")[-1]))
                lhs = src("val", "lhs")
                first = r if k == "killed" else ai.getf(s, r, "first")
                if cls in (A, S):
                    if first != idof(lhs):
                        c.viol("helper:variable", f.where, "%s: the variable defined by %s is taken to be %s" % (f["n"], cls.split("::")[-1], show(first)))
                elif num(first) != -1:
                    c.viol("helper:none", f.where, "%s: %s is taken to define a variable" % (f["n"], cls.split("::")[-1]))
                if k == "generated" and cls in (A, S):
                    d = ai.getf(s, r, "second")
                    ins, val = ai.getf(s, d, "assignment"), ai.getf(s, d, "assignee")
                    if ins != v:
                        c.viol("helper:instr", f.where, "the definition recorded for an assignment is %s" % show(ins))
                    # (the other kinds have no argument)
                    known = holds(s.conds(), lambda a, p: a[0] == "eq" and (("NEXT_VALUE" in repr(a)) != p) and "::" in repr(a))
                    if cls == A:
                        if val != src("val", "rhs"):
                            c.viol("helper:value", f.where, "the value recorded for an assignment is %s" % show(val))
                    elif val != NULL and not (known and val == src("val", "arg")):
                        c.viol("helper:unknown", f.where, "a value is recorded for an assignment of an unknown value (%s)" % show(val))
    h["bitset"] = next((r for r in P.records if r.split("::")[-1] == "BitSet"), None)
    h["worklist"] = next((r.split("<")[0] for r in P.records if "WorkList" in r), None)
    if not h["bitset"] or not h["worklist"]:
        raise AnalysisBroken("reaching definitions: sets or work list not found")
    return h


def affine(v, x):
    """v as a*x + b, or None"""
    if v == x:
        return (1, 0)
    n = num(v)
    if n is not None:
        return (0, n)
    a = sole(v)
    if not (a and a[0] == "op" and len(a) == 4):
        return None
    l, r = affine(a[2], x), affine(a[3], x)
    if l is None or r is None:
        return None
    if a[1] in ("+", "-"):
        s = 1 if a[1] == "+" else -1
        return (l[0] + s * r[0], l[1] + s * r[1])
    if a[1] == "*" and (l[0] == 0 or r[0] == 0):
        return (l[0] * r[1] + r[0] * l[1], l[1] * r[1])
    if a[1] in ("/", ">>") and l[0] == r[0] == 0 and r[1] > 0:
        return (0, l[1] // r[1] if a[1] == "/" else l[1] >> r[1])
    return None


def words_of(v, x):
    """is v the number of 64-bit words that hold x bits (or more)?"""
    a = sole(v)
    if a and a[0] == "op" and a[1] in ("/", ">>") and len(a) == 4 and (a[1], num(a[3])) in (("/", 64), (">>", 6)):
        f = affine(a[2], x)
        return f is not None and f[0] == 1 and f[1] >= 63
    if a and a[0] == "op" and a[1] == "+" and len(a) == 4:
        for l, r in ((a[2], a[3]), (a[3], a[2])):
            if num(r) == 1 and sole(l) and sole(l)[1] in ("/", ">>") and (sole(l)[1], num(sole(l)[3])) in (("/", 64), (">>", 6)):
                f = affine(sole(l)[2], x)
                return f is not None and f[0] == 1 and f[1] >= 0
    return False


def bytes_of(v, x):
    a = sole(v)
    if a and a[0] == "op" and a[1] in ("*", "<<") and len(a) == 4:
        for l, r in ((a[2], a[3]), (a[3], a[2])):
            k = affine(r, x)
            if k and k[0] == 0 and (k[1] >= 8 if a[1] == "*" else k[1] == 3) and words_of(l, x):
                return True
    return False


class SetClient(LogClient):
    def note(self, ai, st, n, f, o, vs):
        if f["n"] in ("memcpy", "memset", "memcmp", "memmove", "copy", "fill", "equal"):
            st = st.copy()
            st.trace += (("mem", f["n"], tuple(vs)),)
        return st


def bitset(c, P, h):
    """the word operations of the sets"""
    W = src("this", "words")
    own, oth = src("this", "words", "[]"), src("other", "words", "[]")
    fs = [f for f in P.funcs.values() if f.get("cls") == h["bitset"] and f.get("body")]
    for f in sorted(fs, key=lambda f: f["n"]):
        nm = f["n"]
        if nm not in SETOPS and nm != "allocSize":
            continue
        cl = SetClient({})
        cl.P = P
        names = ["bit" if nm in ("set", "get") else "size" if strip_t(t) in ("unsigned int", "unsigned long", "int") else "other" for t in ptypes(P, f)]
        bit, size = src("bit"), src("size")
        mask = (op("<<", INT(1), op("%", bit, INT(64))), op("<<", INT(1), op("&", bit, INT(63))))

        def bad(what):
            c.viol("set:" + nm, f.where, "set operation %s: %s" % (nm, what))
        for s, r in AI(P, cl).run(f, State(), THIS, [src(x) for x in names]):
            c.ok("set", nm)
            mem = [e for e in s.trace if e[0] == "mem"]
            new = s.heap.get(("src", "this", ("words",)), {}).get("[]")
            for e in mem:
                if e[1].startswith("mem") and not bytes_of(e[2][2], size):
                    bad("%s covers %s bytes" % (e[1], show(e[2][2])))
            for a, p in s.conds():
                t = sole(a[1]) if a[0] == "nz" else None
                if t and t[0] == "op" and t[1] in ("<", "!=", "<=") and len(t) == 4 and "idx" in repr(t[2]) and p and not words_of(t[3], size) and \
                        not any(x[0] == "op" and x[1] == "size" for x in t[3]):
                    bad("covers %s words" % show(t[3]))
            if nm == "allocSize" and not words_of(r, size):
                bad("%s words for %s bits" % (show(r), show(size)))
            if nm == "update" and new is not None and {*map(frozenset, [new])} - {op("|", own, oth), op("|", oth, own)}:
                bad("a word becomes %s" % show(new))
            if nm == "subtract" and new is not None and new not in (op("&", own, op("u~", oth)), op("&", op("u~", oth), own)):
                bad("a word becomes %s" % show(new))
            if nm == "set" and new not in [x for m in mask for x in (op("|", own, m), op("|", m, own))]:
                bad("the word becomes %s" % show(new or VOID))
            if nm == "get":
                t = sole(r)
                if t and t[1] in ("!=", "bool") and (len(t) < 4 or num(t[3]) == 0):
                    r = t[2]
                if r not in [x for m in mask for x in (op("&", own, m), op("&", m, own))] and \
                        r not in [op("&", op(">>", own, op("%", bit, INT(64))), INT(1))]:
                    bad("tests %s" % show(r))
            if nm in ("clear", "setAll") and mem and mem[0][1] == "memset" and (mem[0][2][0] != W or num(mem[0][2][1]) not in ((0,) if nm == "clear" else (255, -1))):
                bad("fills with %s" % show(mem[0][2][1]))
            if nm == "overwrite" and mem and (mem[0][2][0] != W or mem[0][2][1] != src("other", "words")):
                bad("copies %s to %s" % (show(mem[0][2][1]), show(mem[0][2][0])))
            if nm == "copy":
                d = s.heap.get(sole(r), {}).get("words") if sole(r) and sole(r)[0] == "new" else None
                if mem and (mem[0][2][0] != d or mem[0][2][1] != W):
                    bad("copies %s to %s" % (show(mem[0][2][1]), show(mem[0][2][0])))
            if nm == "equals":
                t = sole(r)
                m = [e for e in mem if e[1] == "memcmp"]
                if m and not (t and t[0] == "op" and (t[1] == "==" and INT(0) in t[2:] or t[1] == "!")):
                    bad("is %s" % show(r))
                if m and {m[0][2][0], m[0][2][1]} != {W, src("other", "words")}:
                    bad("compares %s" % show(m[0][2][1]))
        if nm in ("set", "get"):
            ix = [x["y"] for x in walk(f["body"]) if x["k"] == "Sub"]
            if any(not any(y["k"] == "Bin" and y["op"] in ("/", ">>") for y in walk(i)) for i in ix):
                bad("the word of a bit is not its number divided by 64")


def worklist(c, P, h):
    fs = {}
    for f in P.funcs.values():
        if (f.get("cls") or "").startswith(h["worklist"]) and f.get("body"):
            fs.setdefault(f["n"], f)
    for nm in ("push", "pop"):
        if nm not in fs:
            raise AnalysisBroken("reaching definitions: work list without %s" % nm)
    cl = LogClient({})
    cl.P = P
    Q, H = src("this", "queue"), src("this", "have")

    def stores(s, nms, o):
        return [e for e in s.trace if e[0] == "store" and e[1] in nms and e[2] == o]
    for s, r in AI(P, cl).run(fs["push"], State(), THIS, [src("a")]):
        c.ok("worklist", "push: " + show_pc(s.conds())[:80])
        if fs["push"]["params"][0]["n"] and not stores(s, ("push_back", "push_front", "emplace_back", "emplace_front"), Q):
            if not holds(s.conds(), lambda a, p: a[0] == "nz" and p and "have" in repr(a) and ("contains" in repr(a) or "found" in repr(a))) and \
                    not holds(s.conds(), lambda a, p: "insert" in repr(a) and not p):
                c.viol("worklist:push", fs["push"].where, "a block is not queued although it is not in the work list")
    for s, r in AI(P, cl).run(fs["pop"], State(), THIS, []):
        c.ok("worklist", "pop: " + show_pc(s.conds())[:80])
        if r == NULL:
            if not holds(s.conds(), lambda a, p: p and "empty" in repr(a) or "size" in repr(a)):
                c.viol("worklist:empty", fs["pop"].where, "the work list ends although blocks are queued")
            continue
        if not stores(s, ("pop_front", "pop_back", "erase"), Q):
            c.viol("worklist:take", fs["pop"].where, "a block taken from the work list stays in it")
        if not stores(s, ("erase",), H) or any(e[3] and e[3][0] != idof(r) for e in stores(s, ("erase",), H)):
            c.viol("worklist:again", fs["pop"].where, "a block taken from the work list cannot be queued again")


def client(P, h, bitset=True):
    cl = RDClient({})
    cl.P = P
    cl.killed, cl.generated, cl.worklist = h["killed"], h["generated"], h["worklist"]
    cl.bitset = h["bitset"] if bitset else None
    return cl


def analyze(c, P, h):
    f = fn(P, "analyze", lambda f: f["n"] == "analyze" and (f.get("cls") or "").endswith("RDInspector"), "RDInspector::analyze")
    cl = client(P, h)
    cl.twice = False
    cl.record = None
    ai = AI(P, cl, max_paths=4000)
    res = [(s, r) for s, r in ai.run(f, State(), THIS, []) if r is not THROWN]
    if not res:
        raise AnalysisBroken("reaching definitions: analyze has no path")
    K = op("killed", VAL)
    orders = {e[2] for s, r in res for e in s.trace if e[0] == "store" and e[1] in ("push_back", "emplace_back") and e[3] == (VAL,) and
              sole(e[2])[0] == "new"}
    for s, r in res:
        cs = s.conds()
        if all(contradictory(cj) for cj in dnf(cs)):
            continue
        rs = resolver(s)
        st = [e for e in s.trace if e[0] == "store"]
        assigns = holds(cs, lambda a, p: a[0] == "eq" and not p and K in (a[1], a[2]) and INT(-1) in (a[1], a[2]))
        isptr = holds(cs, isnz(op("isa", VAL, V(("str", "codon::ir::PointerValue")))))
        rec = [e for e in st if is_piecewise(e) or e[1] in ("emplace", "try_emplace", "insert") and len(e[3]) > 2]
        rec = rec or [e for e in s.trace if e[0] == "store" and any("BlockBitSets" in repr(v) for v in e[3])]
        if not rec:
            raise AnalysisBroken("reaching definitions: the sets of a block are not recorded")
        e = rec[0]
        args = fields_of(P, ai, s, e)
        cont = {k: frozenset(x for a in v for x in s.heap.get(a, {}).get("#s", op("empty") if a[0] == "new" else op("content", V(a)))) for k, v in args.items() if k != "blk"}
        c.ok("initial", "sets of a block: " + ", ".join(sorted(args)))
        if args.get("blk") != BLOCK:
            c.viol("initial:block", f.where, "the sets recorded for a block belong to %s" % show(args.get("blk", VOID)))
        # ---- gen / kill
        number = lambda v: op(".*", op("at", lookup, idof(v)))
        lookup = order = table = None
        for i, e in enumerate(st):
            if e[1] in ("emplace", "try_emplace", "insert_or_assign", "insert") and len(e[3]) == 2 and e[3][0] == idof(VAL):
                lookup, lpos, lnum = e[2], i, e[3][1]
            if e[1] in ("push_back", "emplace_back") and e[3] == (VAL,):
                a = sole(e[2])
                if a[0] == "new":
                    order, opos = e[2], i
                elif a[1] == "at" and a[3] == K:
                    table = a[2]
        for a in list(s.heap):
            if a[0] == "op" and a[1] == "at" and a[2][1] == idof(VAL) and "*" in s.heap[a] and lookup is None:
                lookup, lpos, lnum = a[2][0], -1, s.heap[a]["*"]
        if assigns and not isptr:
            c.ok("genkill", "definitions of a block")
            if lookup is None or order is None:
                c.viol("number:missing", f.where, "a definition is not numbered on the path: %s" % show_pc(cs)[:150])
                continue
            if lnum != op("size", order) or lpos > opos:
                c.viol("number:wrong", f.where, "the number of a definition is not its place in the list of definitions")
            bits = set_bits(rs(cont.get("gen", VOID)))
            num_ = rs(number(VAL))
            if not any(rs(b) == num_ for b in bits):
                c.viol("gen", f.where, "the last definition of a variable in a block is not in the set the block generates")
            for b in set_bits(rs(cont.get("kill", VOID))):
                if table is None or not is_number_of(rs(b), lookup, op(".[]", op("at", table, K))):
                    c.viol("kill", f.where, "a block kills %s, which is not a definition of the variable it assigns" % show(b))
        if isptr:
            c.ok("pointer", "variables with their address taken")
            if not any(e[1] in ("insert", "emplace") and e[2] == src("this", "invalid") and e[3] == (idof(src(*(("this",) + VALP + ("val",)))),) for e in st):
                c.viol("pointer", f.where, "a variable whose address is taken is not excluded")
        # ---- work list
        bs = e0 = rec[0][2]
        pops = {x for a, p in cs for x in find_ops(a, "popped")}
        out0, in0 = None, None
        for e in s.trace:
            if e[0] != "setop":
                continue
            a = sole(e[2])
            while a and a[0] == "op" and a[1] == ".*":
                a = sole(a[2])
            if a and a[0] == "op" and a[1] in (".in", ".out"):
                pops |= set(find_ops(e[2], "popped"))
        if pops:
            p = V(min(pops, key=repr))
            data = op(".second", op("pair", bs, idof(p)))
            alt = op("at", bs, idof(p))
            # the data of a block, through find or operator[]
            for d in (data, alt):
                o_, i_ = op(".out", d), op(".in", d)
                if any(a in s.heap and "#s" in s.heap[a] for a in o_):
                    data = d
            content = lambda k: op("content", op(k, data))
            now = lambda k: s.heap.get(next(iter(op(k, data))), {}).get("#s", content(k))
            OUT, IN = now(".out"), now(".in")
            touched = any(e[0] == "setop" and e[2] == op(".out", data) for e in s.trace)
            if not touched:
                if not holds(cs, isnz(p, False)):
                    c.viol("transfer:none", f.where, "a block is taken from the work list without computing its definitions: %s" % show_pc(cs)[:120])
                continue
            preds = [x for x in atoms_of(OUT, IN) if "predecessors" in repr(x) and sole(x)[1] == "content"]
            c.ok("transfer", "IN = %s, OUT = %s" % (show(IN)[:100], show(OUT)[:100]))
            if not preds:
                c.viol("transfer:in", f.where, "the definitions at the start of a block do not include those at the end of its predecessors")
                continue
            pr = preds[0]
            if not ok_pred(pr, p, bs):
                c.viol("transfer:pred", f.where, "the definitions at the start of a block are taken from %s" % show(pr))
            G, KL = content(".gen"), content(".kill")
            for env, v in truth_table(op("or", op("empty"), IN), [pr]):
                if env[pr] and not v:
                    c.viol("transfer:union", f.where, "definitions at the end of a predecessor are lost at the start of a block")
                    break
            for env, v in truth_table(OUT, [pr, G, KL]):
                if (env[G] or env[pr] and not env[KL]) and not v:
                    c.viol("transfer:out", f.where, "a definition that is generated, or arrives and is not killed, is lost at the end of a block")
                    break
            same = holds(cs, lambda a, p: a[0] == "nz" and p and eqset_of(a[1], OUT, content(".out")))
            push = [e for e in s.trace if e[0] == "requeue" and "successors" in repr(e[1]) and next(iter(p)) in find_ops(e[1], "popped")]
            c.ok("requeue", "successors of a block whose definitions changed")
            if not same and not push:
                c.viol("requeue", f.where, "the successors of a block whose definitions changed are not looked at again: %s" % show_pc(cs)[-160:])
        # ---- result
        fin = [e for e in st if any(x[1] == "def" for v in e[3] for x in v if x[0] == "op")]
        for a, p in [x for cj in [cs] for x in flat(cj)]:
            t = sole(a[1]) if a[0] == "nz" else None
            if not (t and t[0] == "op" and t[1] == "in"):
                continue
            i, setv = t[2], sole(t[3])
            c.ok("result", "definitions kept for queries")
            if not p:
                continue
            own = sole(setv[2]) if setv and setv[1] == "content" else None
            if not own or own[1] != ".in" or "popped" in repr(own):
                c.viol("result:set", f.where, "the definitions kept for queries are not those at the start of the block: %s" % show(t[3]))
                continue
            rec_ = own[2]
            d = op(".*", op("at", next(iter(orders)), i)) if len(orders) == 1 else None
            good = False
            for e in fin:
                a2 = sole(e[2])
                inner = sole(a2[2]) if a2 and a2[1] == "at" else None
                own2 = sole(inner[2]) if inner and inner[1] == ".in" else None
                if own2 and own2[1] == "at" and own2[2] == src("this", "sets") and blkkey(own2[3], rec_, s, rs) and d is not None and \
                        a2[3] == op("killed", d) and e[3][-1] == op("def", d):
                    good = True
            if not good:
                c.viol("result:lost", f.where, "a definition that reaches the start of a block is not kept for queries under its block and variable")
    used = [x for x in walk(f["body"]) if x["k"] in ("While", "For", "Do") and any(y["k"] == "Call" and "pop" in repr(y)[:400] for y in walk(x))]
    c.ok("transfer", "loop until the work list is empty")
    if not used:
        c.viol("transfer:once", f.where, "the work list is not processed until it is empty")


VALP = ("cfg", "blocks", "[]", "values", "[]")


def is_piecewise(e):
    return e[1] in ("emplace", "try_emplace") and e[3] and (sole(e[3][0]) or (0, ""))[0] == "glob"


def fields_of(P, ai, s, e):
    """the fields of the record a block's sets are stored in"""
    v = e[3][-1]
    a = sole(v)
    if a and a[0] == "op" and a[1].endswith("forward_as_tuple"):
        args = list(a[2:])
        ct = [f for f in P.funcs.values() if f.get("body") and "BlockBitSets" in (f.get("cls") or "") and f.get("kind") == "ctor" and len(f["params"]) == len(args)]
        if not ct:
            ct = [f for f in P.funcs.values() if "BlockBitSets" in (f.get("cls") or "") and len(f["params"]) == len(args) and f["n"].startswith("BlockBitSets")]
        if not ct:
            raise AnalysisBroken("reaching definitions: constructor of the sets of a block not found")
        o = ai.new_obj(s, ct[0]["cls"])
        sts = ai.run_ctor(ct[0], s, V(o), args)
        s2 = sts[0]
        return dict((k, x) for k, x in s2.heap[o].items() if isinstance(k, str) and k in ("blk", "gen", "kill", "in", "out"))
    return dict((k, ai.getf(s, v, k)) for k in ("blk", "gen", "kill", "in", "out"))


def set_bits(v):
    out = []

    def go(x):
        a = sole(x)
        if a and a[0] == "op" and a[1] == "or":
            go(a[2])
            go(a[3])
        elif a and a[0] == "op" and a[1] == "bit":
            out.append(a[2])
        elif a and a[0] == "op" and a[1] == "empty":
            pass
        else:
            out.append(x)
    go(v)
    return out


def is_number_of(b, lookup, elem):
    return b == op(".*", op("at", lookup, idof(elem)))


def find_ops(t, name):
    out = []
    if isinstance(t, frozenset):
        for a in t:
            out += find_ops(a, name)
    elif isinstance(t, tuple):
        if len(t) == 3 and t[0] == "op" and t[1] == name:
            out.append(t)
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                out += find_ops(x, name)
    return out


def atoms_of(*vs):
    out = []
    for v in vs:
        for env, _ in truth_table(v, []):
            for x in env:
                if x not in out:
                    out.append(x)
            break
    return [x for x in out if sole(x) and sole(x)[0] == "op"]


def ok_pred(t, p, bs):
    """content of the out set of a predecessor of the block that was taken"""
    a = sole(t)
    o = sole(a[2]) if a and a[1] == "content" else None
    if not o or o[1] != ".out":
        return False
    return "predecessors" in repr(o) and next(iter(p)) in find_ops(frozenset([("op",) + tuple([o[1], tuple(o[2:])])]), "popped") and bs_of(o, bs)


def bs_of(o, bs):
    return next(iter(bs)) in [x for x in subatoms(o)]


def subatoms(t):
    if isinstance(t, frozenset):
        for a in t:
            yield a
            yield from subatoms(a)
    elif isinstance(t, tuple):
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from subatoms(x)


def eqset_of(t, a, b):
    x = sole(t)
    if not (x and x[0] == "op" and x[1] == "eqset"):
        return False

    def same(u, v):
        return all(r for env, r in ((e, w == truth(v, e)) for e, w in truth_table(u, atoms_all(v))))

    def truth(v, env):
        for e, w in truth_table(v, list(env)):
            if all(e.get(k, env[k]) == env[k] for k in env):
                return w
        return None
    return same(x[2], a) and same(x[3], b) or same(x[2], b) and same(x[3], a)


def atoms_all(v):
    for env, _ in truth_table(v, []):
        return list(env)
    return []


def flat(cs):
    for cj in dnf(cs):
        for x in cj:
            yield x


def blkkey(k, rec, s, rs):
    a = sole(k)
    if not (a and a[0] == "op" and a[1] == "getId"):
        b = sole(rec)
        return bool(a and a[0] == "op" and a[1] == ".first" and b and sole(b[2] if len(b) > 2 else rec) == sole(a[2]))
    if k == idof(op(".blk", rec)):
        return True
    b = sole(rec)           # .second(pair(sets, key)): the key itself
    if b and b[1] == ".second":
        p = sole(b[2])
        return bool(p and p[1] == "pair" and p[3] == k)
    return False


def query(c, P, h):
    f = fn(P, "query", lambda f: f["n"] == "getReachingDefinitions" and (f.get("cls") or "").endswith("RDInspector"), "getReachingDefinitions")
    var, loc = [src(p["n"]) for p in f["params"]]
    B = op("blockof", loc)
    ai = AI(P, client(P, h), max_paths=4000)
    defs0 = op("at", op(".in", op("at", src("this", "sets"), idof(B))), idof(var))
    v1, v2 = op(".[]", op(".values", B)), op(".[+]", op(".values", B))
    for s, r in ai.run(f, State(), THIS, [var, loc]):
        if r is THROWN:
            continue
        content = ai.getf(s, r, "[]")
        if not content or all(a[0] == "undef" for a in content):
            c.ok("query", "no answer")
            continue
        for cj in dnf(s.conds()):
            if contradictory(cj):
                continue
            c.ok("query", "answer: " + show_pc(cj)[:90])
            if not any(not p and "invalid" in repr(a) and ("found" in repr(a) or "contains" in repr(a)) and next(iter(idof(var))) in subatoms(a) for a, p in cj):
                c.viol("query:pointer", f.where, "an answer is given for a variable whose address is taken")
            if not any(not p and a == ("nz", src("var", "global")) or not p and a[0] == "nz" and a[1] == op("isGlobal", var) or
                       not p and a[0] == "nz" and a[1] == src(f["params"][0]["n"], "global") for a, p in cj):
                c.viol("query:global", f.where, "an answer is given for a global variable")
            known = {}
            for v in (v1, v2):
                for a, p in cj:
                    if a[0] == "eq" and {a[1], a[2]} == {op("killed", v), idof(var)}:
                        known[("k", v)] = p
                    if a[0] == "eq" and ({a[1], a[2]} == {idof(v), idof(loc)} or {a[1], a[2]} == {v, loc}):
                        known[("l", v)] = p
            ran = [v for v in (v1, v2) if any(next(iter(v)) in subatoms(a) for a, p in cj)]
            k1, k2, l1 = known.get(("k", v1)), known.get(("k", v2)), known.get(("l", v1))
            cur = {"0"}
            for e in s.trace:
                if e[0] != "store" or e[2] not in (defs0,) and "sets" not in repr(e[2]) and not any(x[0] == "new" for x in e[2]):
                    continue
                if e[1] == "clear":
                    cur = set()
                elif e[1] in ("insert", "emplace", "push_back") and e[3]:
                    d = sole(e[3][-1])
                    if d and d[0] == "op" and d[1] == "def":
                        cur.add("1" if d[2] == v1 else "2" if d[2] == v2 else "?")
                        if l1 and d[2] == v2:
                            c.viol("query:after", f.where, "definitions after the location are taken to reach it")
            want = {"1"} if k1 else {"0"}
            if v2 in ran and not l1:
                want = {"2"} if k2 else want
            if k1 is None and v1 in ran:
                continue
            if not want <= cur:
                c.viol("query:lost", f.where, "a definition that reaches the location is not in the answer (%s)" % show_pc(cj)[-140:])
            entry = [p for a, p in cj if a[0] == "eq" and idof(B) in (a[1], a[2]) and "blocks" in repr(a)]
            if v1 in ran and not k1 and (v2 not in ran or l1 or not k2) and True not in [not e for e in entry]:
                c.viol("query:entry", f.where, "an answer is given before the first definition in the entry block")
        base = [x for x in subatoms(content)]
        if not any(next(iter(defs0)) == x for x in base):
            if not any(x[0] == "op" and x[1] == "def" for x in base):
                c.viol("query:set", f.where, "the answer is not taken from the definitions at the start of the location's block: %s" % show(content)[:120])


def results(c, P):
    """every graph gets an inspector of its own, analysed, under its function's key"""
    for cls in ("RDAnalysis", "DominatorAnalysis"):
        f = fn(P, cls, lambda f: f["n"] == "run" and (f.get("cls") or "").endswith(cls), cls + "::run")
        cl = LogClient({})
        cl.P = P
        cl.stops = ("analyze",)
        seen = []
        oc = cl.on_call

        def on_call(ai, st, n, f2, o, vs, C, olv, lvs):
            if f2["n"] == "analyze":
                st = st.copy()
                st.trace += (("analyze", o),)
                return [(st, VOID)]
            return oc(ai, st, n, f2, o, vs, C, olv, lvs)
        cl.on_call = on_call
        ai = AI(P, cl)
        for s, r in ai.run(f, State(), THIS, [src(p["n"]) for p in f["params"]]):
            if r is THROWN:
                continue
            c.ok("results", cls)
            an = [e for e in s.trace if e[0] == "analyze"]
            kept = [(a, h["*"]) for a, h in s.heap.items() if a[0] == "op" and a[1] == "at" and "*" in h] + \
                   [(("op", "at", (e[2], e[3][0])), e[3][-1]) for e in s.trace if e[0] == "store" and len(e[3]) == 2]
            if not an:
                c.viol("results:analyze:" + cls, f.where, "%s: the inspector of a function is not analysed" % cls)
                continue
            if not kept:
                c.viol("results:kept:" + cls, f.where, "%s: the result of a function is not kept" % cls)
            for a, v in kept:
                k = show(a[2][1])
                if not k.endswith(".first") and ".first" not in k:
                    c.viol("results:key:" + cls, f.where, "%s: the result of a function is kept under %s" % (cls, k))


class DomClient(LogClient):
    """bit vectors as set terms"""
    twice = True
    exact_while = True

    def isbv(self, cls):
        return (cls or "").replace("const ", "").replace("class ", "").strip().startswith(("llvm::BitVector", "llvm::SmallBitVector"))

    def on_ctor(self, ai, st, n, cls, vs, C):
        if not self.isbv(cls):
            return None
        st = st.copy()
        o = ai.new_obj(st, "llvm::BitVector")
        if len(vs) == 1 and any(x[0] in ("op", "new", "src") for x in vs[0]) and not any(x[0] == "op" and x[1] == "size" for x in vs[0]) and n.get("copy"):
            self.setcontent(st, V(o), self.content(st, vs[0]))
        else:
            self.setcontent(st, V(o), op("all" if len(vs) > 1 and num(vs[1]) == 1 else "empty"))
        return [(st, V(o))]

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm, cls = f["n"], f.get("cls") or ""
        if nm == "getBlock" and cls.endswith("CFGraph"):
            return [(st, op("blockof", vs[0]))]
        if o is not None and self.isbv(cls):
            st = st.copy()
            cur = self.content(st, o)
            new = None
            if nm == "resize":
                new = op("all") if len(vs) > 1 and vs[1] == TRUE else cur
            elif nm in ("set", "reset"):
                if not vs:
                    new = op("all" if nm == "set" else "empty")
                elif len(vs) == 1 and not self.isbv(repr(vs[0])):
                    new = op("or" if nm == "set" else "minus", cur, op("bit", vs[0]))
            elif nm in ("operator&=", "operator|="):
                new = op("and" if nm == "operator&=" else "or", cur, self.content(st, vs[0]))
            elif nm == "operator=":
                new = self.content(st, vs[0])
            elif nm in ("operator==", "operator!="):
                e = op("eqset", cur, self.content(st, vs[0]))
                return [(st, e if nm == "operator==" else op("!", e))]
            elif nm in ("test", "operator[]"):
                return [(st, op("in", vs[0], cur))]
            elif nm in ("find_first", "find_next"):
                return [(st, op("member", cur))]
            if new is not None:
                self.setcontent(st, o, new)
                st.trace += (("setop", nm, o, new, st.conds()),)
                return [(st, o)]
        return LogClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def unidx(v):
    """the start term of a loop index"""
    a = sole(v)
    if a and a[0] == "idx?":
        try:
            return eval(a[1], {"frozenset": frozenset, "__builtins__": {}})
        except Exception:
            return None
    return None


def dominators(c, P):
    f = fn(P, "analyze", lambda f: f["n"] == "analyze" and (f.get("cls") or "").endswith("DominatorInspector"), "DominatorInspector::analyze")
    B1 = BLOCK
    p1, p2 = [src(*(("this", "cfg", "blocks", "[]", "predecessors", k))) for k in ("[]", "[+]")]

    def paths(exact):
        cl = DomClient({})
        cl.P = P
        cl.exact_while = exact
        return [s for s, r in AI(P, cl, max_paths=3000).run(f, State(), THIS, []) if r is not THROWN and not all(contradictory(cj) for cj in dnf(s.conds()))]

    def norm(s):
        rs = resolver(s)
        return lambda t: rs(t)

    def setvar(s, rs, ident):
        """the (vector, index) a block's set is kept in: taken from the transfer's own lookups"""
        return None
    fixed, final = False, False
    for exact in (False, True):
        for s in paths(exact):
            rs = norm(s)
            maps = [(a, h["*"]) for a, h in s.heap.items() if a[0] == "op" and a[1] == "at" and "*" in h]
            ix = [v for a, v in maps if a[2][1] == idof(B1)]
            if not ix:
                raise AnalysisBroken("dominators: numbers of blocks not found")
            self_ = ix[0]
            inv = [a[2][0] for a, v in maps if v == idof(B1) and a[2][1] == self_]
            if not inv:
                c.viol("dominator:number", f.where, "the number of a block is not mapped back to the block")
                continue
            comp = []
            for a, p in [x for cj in dnf(s.conds()) for x in cj]:
                t = sole(a[1]) if a[0] == "nz" else None
                if t and t[0] == "op" and t[1] == "eqset" and "predecessors" in repr(t) and "'[]', 'predecessors'" in repr(t):
                    comp.append((t[2], t[3], p))
            for e in s.trace:
                if e[0] == "setop" and not exact and "eqset" in repr(e[4]) and not any(k[0] == "op" and k[1] == "content" for k in subatoms(e[3])):
                    if any(v and not any(w for k, w in env.items() if sole(k) and sole(k)[1] == "bit") for env, v in truth_table(rs(e[3]), [])):
                        c.viol("dominator:start", f.where, "a block without predecessors is taken to be dominated by %s" % show(e[3])[:120])
            again = [e for e in s.trace if e[0] == "again" and "predecessors" in e[1] and "'[]', 'predecessors'" in e[1]]
            for x, y, same in comp:
                pc = lambda v, b: [k for k in atoms_of(v) if sole(k)[1] == "content" and next(iter(b)) in subatoms(k)]
                if not pc(x, p1) and pc(y, p1):
                    x, y = y, x
                fixed = True
                c.ok("dominator", "transfer: %s" % show(rs(x))[:100])
                x1, x2 = pc(x, p1), pc(x, p2)
                bit = op("bit", self_)
                xs = rs(x)
                need = [rs(z) for z in x1 + x2]
                lost = not x1 and not x2
                vecs = {next(iter(sole(sole(z)[2])[2])) for z in x1 + x2 if sole(sole(z)[2]) and sole(sole(z)[2])[1] == "at"}
                for env, v in truth_table(xs, need + [bit]):
                    if v and not env[bit] and not all(env[z] for z in need):
                        lost = True
                    if not v and env[bit]:
                        c.viol("dominator:self", f.where, "a block does not dominate itself: %s" % show(xs)[:160])
                if again and not (x1 and x2) or not x1:
                    lost = True
                if lost:
                    c.viol("dominator:transfer", f.where, "the dominators of a block are not among those of all its predecessors: %s" % show(xs)[:160])
                for z in x1 + x2:
                    a = sole(sole(z)[2])
                    want = p1 if z in x1 else p2
                    if not (a and a[1] == "at" and rs(a[3]) in (rs(op(".*", op("at", maps_of(a[3]), idof(want)))) if maps_of(a[3]) else None,)):
                        c.viol("dominator:pred", f.where, "the dominators of a predecessor are looked up as %s" % show(rs(z))[:140])
                if not exact and not same:
                    put = [e for e in s.trace if e[0] == "setop" and sole(e[2]) and sole(e[2])[0] == "op" and sole(e[2])[1] == "at" and
                           next(iter(sole(e[2])[2])) in vecs and rs(sole(e[2])[3]) == self_]
                    if not put or rs(put[-1][3]) != xs:
                        c.viol("dominator:store", f.where, "the dominators computed for a block are not stored when they differ from the old ones")
            if exact:
                loops = [x for x in comp if x[2]]
                runs = any(e[0] == "setop" and "predecessors" in repr(e[3]) for e in s.trace)
                if runs and not loops:
                    c.viol("dominator:stop", f.where, "the computation stops although the dominators of a block changed")
                for e in s.trace:
                    if e[0] == "store" and e[1] in ("insert", "emplace") and sole(e[2]) and sole(e[2])[0] == "op" and sole(e[2])[1] == "at" and \
                            sole(e[2])[2] == src("this", "sets"):
                        final = True
                        key, val = sole(sole(e[2])[3]), sole(e[3][-1])
                        k1 = sole(key[2]) if key and key[1] == ".*" else None
                        v1 = sole(val[2]) if val and val[1] == ".*" else None
                        st = unidx(v1[3]) if v1 and v1[1] == "at" else None
                        if v1 and (st is None or st[:2] != ("op", "member")):
                            # bits looked at one by one
                            st = next((q for y, p in flat(e[4]) if p and y[0] == "nz" for q in y[1] if q[:2] == ("op", "in") and q[2][0] == v1[3]), None)
                        if not (k1 and v1 and k1[2] == inv[0] and v1[2] == inv[0] and st is not None and
                                any(x[0] == "op" and x[1] == "at" and x[2][1] == k1[3] for x in subatoms(frozenset([st])))):
                            c.viol("dominator:result", f.where, "the dominators of a block are kept as %s under %s" % (show(e[3][-1])[:80], show(e[2])[:80]))
    if not fixed:
        c.viol("dominator:none", f.where, "the dominators of a block are not computed from those of its predecessors")
    c.ok("dominator", "result sets")
    if not final:
        c.viol("dominator:lost", f.where, "the dominators of a block are not kept for queries")


def maps_of(t):
    a = sole(t)
    p = sole(a[2]) if a and a[0] == "op" and a[1] == ".*" else None
    return p[2] if p and p[1] == "at" else None


def dominated(c, P):
    f = fn(P, "isDominated", lambda f: f["n"] == "isDominated" and (f.get("cls") or "").endswith("DominatorInspector"), "isDominated")
    v, d = [src(p["n"]) for p in f["params"]]
    bv, bd = op("blockof", v), op("blockof", d)
    cl = DomClient({})
    cl.P = P
    cl.twice = False

    def found(t, x):
        return any(a[0] == "it" and a[2] == "found" and a[3] == x for a in subatoms(t))
    for s, r in AI(P, cl).run(f, State(), THIS, [v, d]):
        if r is THROWN:
            continue
        same = holds(s.conds(), iseq(idof(bv), idof(bd))) or holds(s.conds(), iseq(bv, bd))
        other = holds(s.conds(), iseq(idof(bv), idof(bd), False)) or holds(s.conds(), iseq(bv, bd, False))
        pol, t = True, sole(r)
        while t and t[0] == "op" and t[1] == "!":
            pol, t = not pol, sole(t[2])
        c.ok("dominator", "query: " + show_pc(s.conds())[:80])
        if r == FALSE:
            continue
        if t and t[0] == "op" and t[1] in ("<", "<=", ">", ">=") and len(t) == 4:
            l, h, o = t[2], t[3], t[1]
            if not pol:
                l, h, o = h, l, {"<": "<=", "<=": "<", ">": ">=", ">=": ">"}[o]
            if o in (">", ">="):
                l, h = h, l
            if not (found(l, d) and found(h, v)):
                c.viol("query:order", f.where, "within a block the value is taken to dominate what comes before it")
            if not same:
                c.viol("query:block", f.where, "positions of values in different blocks are compared")
        elif t and t[0] == "op" and t[1] in ("found", "contains"):
            x = s
            it = [a for a in subatoms(frozenset([("op", t[1], tuple(t[2:]))])) if a[0] == "it" and a[2] == "found"]
            if t[1] == "found":
                cont, key = (it[0][1], it[0][3]) if it else (None, None)
            else:
                cont, key = t[2], t[3]
            if not pol or cont != op("at", src("this", "sets"), idof(bv)) or key != idof(bd):
                c.viol("query:sets", f.where, "dominance between blocks is decided by %s%s" % ("" if pol else "not ", show(r)[:120]))
            if not other and not same:
                c.viol("query:same", f.where, "values in the same block are taken to dominate each other")
            if same:
                c.viol("query:same", f.where, "values in the same block are taken to dominate each other")
        else:
            c.viol("query:answer", f.where, "dominance is decided by %s" % show(r)[:120])

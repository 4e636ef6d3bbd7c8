"""Constant folding: every registered rewrite rule computes what the folded method computes."""
from absint import *
from checklib import Check
from facts import AnalysisBroken, walk
from irmodel import IRClient
from passes import strlist

NS = "codon::ir::transform::folding::"
CALL = "codon::ir::CallInstr"
TC = "codon::ir::TemplatedConst<"
FILES = ["codon/cir/transform/folding/const_fold.cpp", "codon/cir/transform/folding/folding.cpp",
         "codon/cir/transform/manager.cpp", "codon/cir/module.cpp", "codon/cir/value.cpp",
         "codon/compiler/compiler.cpp"]
BIN = {"__add__": "+", "__sub__": "-", "__mul__": "*", "__lshift__": "<<", "__rshift__": ">>", "__xor__": "^",
       "__or__": "|", "__and__": "&", "__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">",
       "__ge__": ">=", "__truediv__": "/", "__pow__": "pow"}
MIRROR = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!=", "+": "+", "*": "*", "^": "^", "|": "|", "&": "&"}
UNARY = {"__pos__": "+", "__neg__": "-", "__invert__": "~", "__int__": "id", "__float__": "id", "__bool__": "id"}
TYPES = {"long": "getIntType", "double": "getFloatType", "bool": "getBoolType"}
# x op c == x ; the constant may be on these sides
IDENT = {("__mul__", 1): "LR", ("__add__", 0): "LR", ("__sub__", 0): "R", ("__floordiv__", 1): "R", ("__or__", 0): "LR",
         ("__xor__", 0): "LR", ("__and__", -1): "LR", ("__lshift__", 0): "R", ("__rshift__", 0): "R", ("__pow__", 1): "R"}
# x op c == r whatever x is
ABSORB = {("__mul__", 0, 0): "LR", ("__and__", 0, 0): "LR", ("__or__", -1, -1): "LR", ("__pow__", 0, 1): "R",
          ("__mod__", 1, 0): "R", ("__mod__", -1, 0): "R"}
ABSORB_C = {("__floordiv__", 0, 0): "L", ("__mod__", 0, 0): "L"}   # not when a zero divisor must raise
OPS = {"+", "-", "*", "/", "%", "<<", ">>", "^", "|", "&", "==", "!=", "<", ">", "<=", ">=", "!", "~", "pow", "neg", "u-", "u+"}


class FoldClient(IRClient):
    def should_inline(self, t, f, o, vs):
        return t.get("cls") != "codon::ir::Module"

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm = f["n"]
        if nm == "registerRule":
            st = st.copy()
            st.trace += (("rule", tuple(vs)),)
            return [(st, VOID)]
        if nm == "isCallOf":
            a = list(vs)
            if len(a) > 2 and any(x[0] == "new" for x in a[2]):
                a[2] = op("types", *[V(x) for x in strlist(st, a[2])])
            return [(st, op("isCallOf", *a))]
        if nm == "setResult":
            st = st.copy()
            st.trace += (("result", vs[0]),)
            return [(st, VOID)]
        if nm in ("N", "Nr") and f.get("cls") == "codon::ir::Module":
            return [(st, op("N", V(("str", f["targs"][0])), *vs))]
        if nm == "clone":
            return [(st, op("clone", vs[0]))]
        if nm in ("getSrcInfo", "getModule"):
            return [(st, op(nm, o))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def dnf(conds, lim=20000):
    out = [()]
    for a, p in conds:
        if a[0] == "or" and p:
            out = [o + d for o in out for alt in a[1] for d in dnf(alt)]
        elif a[0] in ("loop", "each"):
            continue
        else:
            out = [o + ((a, p),) for o in out]
        if len(out) > 40:
            out = [o for o in out if not any((b, not q) in o for b, q in o)]
        if len(out) > lim:
            raise AnalysisBroken("rewrite rules: path conditions too large")
    return out


def sole(v):
    """the only atom of a value, operator applications flattened to ("op", name, operand...)"""
    if len(v) != 1:
        return None
    a = next(iter(v))
    return ("op", a[1]) + tuple(a[2]) if a[0] == "op" else a


def strof(P, v):
    a = sole(v)
    if a is None:
        return None
    if a[0] == "str":
        return a[1]
    if a[0] == "glob":
        g = P.globals.get(a[1])
        if g:
            for x in walk(g.get("init")):
                if x["k"] == "Str":
                    return x["v"]
    if a[0] == "new":
        return None
    return None


def norm_magic(P, v):
    s = strof(P, v)
    return s.strip("'\"") if isinstance(s, str) else None


class Path:
    """facts of one disjunct of a path condition"""

    def __init__(self, cond):
        self.cond = cond
        self.calls = []
        self.cls = {}
        self.feasible = True
        for a, p in cond:
            if a[0] == "nz":
                t = sole(a[1])
                if t and t[0] == "op":
                    if t[1] == "isCallOf" and p:
                        self.calls.append(t)
                    elif t[1] == "isa" and p and len(t) == 4 and sole(t[3]):
                        self.cls.setdefault(t[2], set()).add(sole(t[3])[1])

    def value(self, term):
        """constant the path forces the term to have"""
        for a, p in self.cond:
            if a[0] == "nz" and a[1] == term and not p:
                return 0
            if a[0] == "eq" and p and term in a[1:]:
                o = a[2] if a[1] == term else a[1]
                c = num(o)
                if c is not None:
                    return c
        return None

    def excludes(self, term, n):
        for a, p in self.cond:
            if a[0] == "nz" and a[1] == term and p and n == 0:
                return True
            if a[0] == "eq" and not p and term in a[1:]:
                o = a[2] if a[1] == term else a[1]
                if num(o) == n:
                    return True
        v = self.value(term)
        return v is not None and v != n


def num(v):
    a = sole(v)
    if a is None:
        return None
    if a[0] in ("int",):
        return a[1]
    if a[0] == "bool":
        return int(a[1])
    if a[0] in ("float", "flt", "str"):
        try:
            return float(str(a[1]).strip("'"))
        except ValueError:
            return None
    if a[0] == "op" and a[1].startswith("std::numeric_limits<long>::"):
        return {"min": -(1 << 63), "max": (1 << 63) - 1, "lowest": -(1 << 63)}.get(a[1].split("::")[-1])
    if a[0] == "op" and a[1] in ("+", "-") and len(a) == 4:
        x, y = num(a[2]), num(a[3])
        return None if x is None or y is None else x + y if a[1] == "+" else x - y
    if a[0] == "op" and a[1] in ("neg", "u-", "-") and len(a) == 3:
        c = num(a[2])
        return -c if c is not None else None
    return None


def understood(v, leaves):
    """the term is built from known operators over the known leaves"""
    if v in leaves or num(v) is not None:
        return True
    a = sole(v)
    return bool(a and a[0] == "op" and a[1] in OPS and all(understood(x, leaves) for x in a[2:]))


# ---- sign domain: values described by (sign of a, sign of b, remainder zero?) under C truncating division
def sign_eval(v, sc, A, B):
    """set of possible signs {-1,0,1} of term v, or None"""
    if v == A:
        return {sc["a"]}
    if v == B:
        return {sc["b"]}
    c = num(v)
    if c is not None:
        return {(c > 0) - (c < 0)}
    a = sole(v)
    if not a or a[0] != "op":
        return None
    if is_rem(v, A, B):
        return {0} if sc["z"] else {sc["a"]}
    if a[1] == "^" and len(a) == 4:
        x, y = sign_eval(a[2], sc, A, B), sign_eval(a[3], sc, A, B)
        if x is None or y is None:
            return None
        out = set()
        for p in x:
            for q in y:
                out |= {-1} if (p < 0) != (q < 0) else {0, 1}
        return out
    if a[1] == "*" and len(a) == 4:
        x, y = sign_eval(a[2], sc, A, B), sign_eval(a[3], sc, A, B)
        return None if x is None or y is None else {p * q for p in x for q in y}
    if a[1] in ("<", ">", "<=", ">=", "==", "!=") and len(a) == 4:
        t = sign_cmp(a[1], a[2], a[3], sc, A, B)
        return None if t is None else {int(t)}
    return None


def boolish(v):
    a = sole(v)
    return bool(a and (a[0] == "bool" or a[0] == "op" and a[1] in ("<", ">", "<=", ">=", "==", "!=", "!")))


def sign_cmp(o, x, y, sc, A, B):
    p, q = sign_eval(x, sc, A, B), sign_eval(y, sc, A, B)
    if p is None or q is None:
        return None
    if not (boolish(x) and boolish(y)) and p != {0} and q != {0} and p & q:
        return None     # two values of one sign: their order is unknown
    f = {"<": lambda s, t: s < t, ">": lambda s, t: s > t, "<=": lambda s, t: s <= t, ">=": lambda s, t: s >= t,
         "==": lambda s, t: s == t, "!=": lambda s, t: s != t}[o]
    r = {f(s, t) for s in p for t in q}
    return r.pop() if len(r) == 1 else None


def is_rem(v, A, B):
    a = sole(v)
    if not a or a[0] != "op" or len(a) != 4:
        return False
    if a[1] == "%":
        return a[2] == A and a[3] == B
    if a[1] == "-" and a[2] == A:
        m = sole(a[3])
        return bool(m and m[0] == "op" and m[1] == "*" and {m[2], m[3]} == {B, op("/", A, B)})
    return False


def feasible(path, sc, A, B):
    for a, p in path.cond:
        t = None
        if a[0] == "nz":
            if understood(a[1], (A, B)):
                s = sign_eval(a[1], sc, A, B)
                if s is not None and (s == {0} or 0 not in s):
                    t = s != {0}
        elif a[0] == "eq" and understood(a[1], (A, B)) and understood(a[2], (A, B)):
            t = sign_cmp("==", a[1], a[2], sc, A, B)
        if t is not None and t != p:
            return False
    return True


def adjusted(v, base, isbase, delta, P2):
    """v is base plus delta?  returns 'base', 'adj' or None"""
    if isbase(v):
        return "base"
    a = sole(v)
    if a and a[0] == "op" and len(a) == 4:
        if delta == -1 and (a[1] == "-" and isbase(a[2]) and num(a[3]) == 1 or
                            a[1] == "+" and (isbase(a[2]) and num(a[3]) == -1 or isbase(a[3]) and num(a[2]) == -1)):
            return "adj"
        if delta == "b" and a[1] == "+" and (isbase(a[2]) and a[3] == P2 or isbase(a[3]) and a[2] == P2):
            return "adj"
    return None


def run():
    c = Check("C08", "every rewrite rule the folding pass registers, in both numeric modes, interpreted to its result terms "
                     "and compared with the operation of the method it folds")
    P = c.load(FILES)
    fns = [f for f in P.fn(NS + "FoldingPass::registerStandardRules") if f.get("body")]
    if len(fns) != 1:
        raise AnalysisBroken("constant folding: rule registration not found")
    for py in (False, True):
        cl = FoldClient({"v": CALL})
        cl.P = P
        ai = AI(P, cl, max_depth=24)
        st = ai.assume(State(), src("this", "pyNumerics"), py)
        paths = [s for s, v in ai.run(fns[0], st, src("this"), [src("m")]) if v is not THROWN]
        for s in paths:
            for t in s.trace:
                if t[0] == "rule":
                    rule(c, P, ai, s, t[1], py)
    rewriter(c, P)
    operators(c, P)
    forwarded(c, P)
    c.floor("rule", 90)
    c.floor("result", 120)
    return c


def visit_of(P, cls):
    for b in [cls] + list(P.all_bases(cls)):
        for x in P.records.get(b, {}).get("methods", []):
            f = P.funcs.get(x["id"])
            if x["n"] == "visit" and f and f.get("body") and f["params"] and \
                    "CallInstr" in f["T"][f["params"][0]["t"]]:
                return f
    return None


def rule(c, P, ai, s, args, py):
    name = (show(args[0]) or "?").strip("'")
    obj = [a for a in args[1] if a[0] == "new"]
    if len(obj) != 1:
        return
    m = visit_of(P, obj[0][2])
    if m is None:
        return
    s0 = s.copy()
    s0.trace = ()
    base = len(s0.conds())
    c.ok("rule", "%s (%s numerics)" % (name, "Python" if py else "C"))
    where = m.where
    for z, v in ai.run(m, s0, V(obj[0]), [src("v")]):
        if v is THROWN:
            continue
        rs = [e[1] for e in z.trace if e[0] == "result"]
        if not rs or rs[-1] == NULL:
            continue
        for cj in dnf([x for x in z.conds() if x not in s0.conds()]):
            judge(c, P, name, where, Path(cj), rs[-1], py)


def judge(c, P, name, where, path, res, py):
    def bad(key, msg):
        c.viol("%s:%s" % (name, key), where, "rule '%s' (%s numerics): %s" % (name, "Python" if py else "C", msg))

    v = src("v")
    mine = [t for t in path.calls if t[2] == v]
    if not mine:
        return bad("guard", "rewrites a call without establishing which method it calls")
    t = mine[0]
    magic = norm_magic(P, t[3])
    if magic is None:
        return
    sig = sole(t[4]) if len(t) > 4 else None
    outt = t[5] if len(t) > 5 else NULL
    if len(t) > 6 and t[6] == FALSE:
        return bad("method", "fires on any function named %s, not only on the method" % magic)
    arity, intypes = None, None
    if sig and sig[0] == "op" and sig[1] == "types":
        intypes = [tyname(x) for x in sig[2:]]
        arity = len(intypes)
    elif sig and sig[0] == "int":
        arity = sig[1]
    # facts on the number of arguments that contradict the matched call
    n = op("size", src("v", "args"))
    if arity is not None:
        k = path.value(n)
        if k is not None and k != arity or path.excludes(n, arity):
            return
    A0, B0 = src("v", "args", "[0]"), src("v", "args", "[-1]")
    one = src("v", "args", "[0]")
    if arity == 2:
        alt = src("v", "args", "[1]")
        m2 = lambda x: B0 if x == alt else x
        res = m2(res)
    A, B = src("v", "args", "[0]", "val"), src("v", "args", "[-1]", "val")
    r = sole(res)
    if r is None:
        return
    c.ok("result", "%s: %s => %s" % (name, magic, show(res)[:60].replace("codon::ir::", "")))
    if r[0] == "op" and r[1] == "N":
        consts(c, P, bad, path, magic, arity, intypes, outt, r, A, B, A0, B0, py)
        return
    x = r[2] if r[0] == "op" and r[1] == "clone" else res
    if x == v:
        return
    if arity == 1:
        if x == one:
            if magic not in ("__pos__", "__int__", "__float__", "__bool__"):
                return bad("identity", "replaces %s(x) with x" % magic)
            if intypes and tyname(outt) and intypes[0] and intypes[0] != tyname(outt):
                return bad("identity", "%s changes the type, the operand cannot replace it" % magic)
            if magic in ("__int__", "__float__", "__bool__") and intypes and intypes[0] and \
                    intypes[0] != {"__int__": "getIntType", "__float__": "getFloatType", "__bool__": "getBoolType"}[magic]:
                return bad("identity", "%s of another type is not the identity %s" % (magic, intypes))
            return
        if x == src("v", "args", "[0]", "args", "[0]"):
            inner = [t2 for t2 in path.calls if t2[2] == one]
            im = [norm_magic(P, t2[3]) for t2 in inner]
            if magic not in ("__neg__", "__invert__") or (im and magic not in im):
                return bad("double", "%s(%s(x)) is not x" % (magic, im[0] if im else "?"))
            if not inner:
                return bad("double", "looks through the operand without establishing that it is a call of the same method")
            return
        return
    if arity == 2 and x in (A0, B0):
        side, other = ("R", B) if x == A0 else ("L", A)
        k = path.value(other)
        if k is None:
            return bad("operand", "replaces %s(x, y) with one operand whatever the other operand is" % magic)
        if side not in IDENT.get((magic, k), ""):
            return bad("operand", "%s with constant %s on the %s is not the other operand" % (
                magic, k, "right" if side == "R" else "left"))


def tyname(v):
    a = sole(v)
    return a[1].split("::")[-1] if a and a[0] == "op" else None


def consts(c, P, bad, path, magic, arity, intypes, outt, r, A, B, A0, B0, py):
    cls = (sole(r[2]) or ("", ""))[1]
    if not cls.startswith(TC):
        return
    ct = cls[len(TC):-1]
    val, ty = r[4], tyname(r[5]) if len(r) > 5 else None
    if ty and ct in TYPES and ty in TYPES.values() and ty != TYPES[ct]:
        return bad("type", "the folded constant holds a %s but has the type of %s" % (ct, ty))
    if ty and tyname(outt) and ty != tyname(outt):
        return bad("type", "the folded constant has type %s, the method returns %s" % (ty, tyname(outt)))
    ka = const_class(path, A0)
    kb = const_class(path, B0) if arity == 2 else None
    if intypes:
        for k, i in ((ka, 0), (kb, 1)):
            if k and i < len(intypes) and intypes[i] in TYPES.values() and TYPES.get(k) != intypes[i]:
                return      # such an operand does not exist: the rule cannot fire
    if arity == 1:
        sym = UNARY.get(magic)
        if sym is None or ka is None:
            return
        want = {"+": [A, op("u+", A)], "-": [op("-", A), op("neg", A), op("u-", A), op("*", A, INT(-1)), op("-", INT(0), A)],
                "~": [op("~", A)], "id": [A, op("!", op("!", A)), op("!=", A, INT(0))]}[sym]
        if sym == "~" and ka == "bool":
            want = [op("!", A), op("==", A, FALSE)]
        if sym == "id" and ka and ct != {"__int__": "long", "__float__": "double", "__bool__": "bool"}[magic]:
            return bad("value", "%s folds to a %s constant" % (magic, ct))
        c.ok("value", "%s of %s" % (magic, ka))
        if val not in want and understood(val, (A,)):
            bad("value", "%s(x) folds to %s" % (magic, show(val)))
        return
    if arity != 2:
        return
    if ka is None or kb is None:
        # one known constant, the other operand is dropped
        absorb(c, bad, path, magic, val, A, B, A0, B0, py)
        return
    if magic in ("__floordiv__", "__mod__"):
        va, vb = path.value(A), path.value(B)
        if num(val) is not None and (va is not None or vb is not None):
            absorb(c, bad, path, magic, val, A, B, A0, B0, py)
            return
        return division(c, bad, path, magic, val, ka, kb, A, B, py)
    sym = BIN.get(magic)
    if sym is None:
        return
    if sym == "/":
        if py:
            c.ok("zero-divisor", magic)
            if not path.excludes(B, 0):
                return bad("zero", "divides by a constant zero instead of leaving the exception to run time")
    if num(val) is not None and (path.value(A) is not None or path.value(B) is not None):
        absorb(c, bad, path, magic, val, A, B, A0, B0, py)
        return
    if sym == "pow" and ct == "long":
        # only the shape of the table is decided; the loop is not
        return
    c.ok("value", "%s of %s,%s" % (magic, ka, kb))
    ok = val == op(sym, A, B) or (sym in MIRROR and val == op(MIRROR[sym], B, A)) or same(sym, val, A, B)
    if not ok and understood(val, (A, B)):
        bad("value", "%s(x, y) folds to %s" % (magic, show(val)))


def same(sym, val, A, B):
    a = sole(val)
    if a and a[0] == "op" and a[1] in ("==", "!=") and sym == a[1]:
        return {a[2], a[3]} == {A, B}
    if a and a[0] == "op" and a[1] == "!" and sym in ("==", "!="):
        return same({"==": "!=", "!=": "=="}[sym], a[2], A, B)
    return False


def const_class(path, x):
    for k in path.cls.get(x, ()):
        if k.startswith(TC):
            return k[len(TC):-1]
    return None


def absorb(c, bad, path, magic, val, A, B, A0, B0, py):
    va, vb = path.value(A), path.value(B)
    k = num(val)
    if k is None:
        return
    c.ok("absorbing", magic)
    tab = dict(ABSORB)
    if not py:
        tab.update(ABSORB_C)
    ok = False
    for v, side, dropped in ((va, "L", B0), (vb, "R", A0)):
        if v is not None and side in tab.get((magic, v, k), ""):
            if not pure(path, dropped):
                return bad("effects", "drops the other operand of %s although it may have side effects" % magic)
            ok = True
    if va is not None and vb is not None:
        return
    if not ok and (va is not None or vb is not None):
        bad("absorb", "%s with constant %s does not always give %s" % (magic, va if va is not None else vb, k))
    elif not ok:
        bad("absorb", "%s folds to the constant %s without examining its operands" % (magic, k))


def pure(path, x):
    for k in path.cls.get(x, ()):
        if k.endswith("::Const") or k.startswith(TC) or k.endswith(("::VarValue", "::PointerValue", "::TypePropertyInstr")):
            return True
    return False


def division(c, bad, path, magic, val, ka, kb, A, B, py):
    if not (ka == "long" and kb == "long"):
        return
    if not path.excludes(B, 0):
        return bad("zero", "divides by a constant zero at compile time")
    if not path.excludes(B, -1) and not path.excludes(A, -(1 << 63)):
        return bad("overflow", "evaluates the quotient of the most negative integer and -1 at compile time, which traps")
    c.ok("zero-divisor", magic)
    quo = lambda v: v == op("/", A, B)
    rem = lambda v: is_rem(v, A, B)
    isb, delta = (quo, -1) if magic == "__floordiv__" else (rem, "b")
    for sa in (-1, 0, 1):
        for sb in (-1, 1):
            for z in (True, False):
                if sa == 0 and not z:
                    continue
                sc = {"a": sa, "b": sb, "z": z}
                if not feasible(path, sc, A, B):
                    continue
                got = adjusted(val, None, isb, delta, B)
                if got is None and not understood(val, (A, B)):
                    continue
                want = "adj" if py and not z and sa * sb < 0 else "base"
                c.ok("division")
                if got is None or got != want:
                    # a zero remainder of the unadjusted form is the same value
                    bad("division", "for a %s dividend, %s divisor and %s remainder %s folds to %s" % (
                        ["negative", "zero", "positive"][sa + 1], ["negative", "", "positive"][sb + 1],
                        "zero" if z else "non-zero", magic, show(val)))


def rewriter(c, P):
    """rewriting: the value is replaced by what the rules returned, only when one of them fired"""
    for q in ("codon::ir::transform::RewriteRule::apply", "codon::ir::transform::Rewriter::rewrite"):
        fs = [f for f in P.fn(q) if f.get("body")]
        if not fs:
            raise AnalysisBroken("constant folding: %s not found" % q)
        fn = fs[0]
        where = fn.where

        class RC(IRClient):
            def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
                if f["n"] == "accept":
                    st = st.copy()
                    for a in o if False else src("this"):
                        st = ai.setf(st, V(a), "result", src("found")) or st
                    return [(st, VOID)]
                if f["n"] == "apply":
                    st = st.copy()
                    st.trace += (("apply", vs[0]),)
                    return [(st, src("rep"))]
                if f["n"] == "replaceAll":
                    st = st.copy()
                    st.trace += (("replaceAll", o, vs[0]),)
                    return [(st, VOID)]
                return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)
        cl = RC({})
        cl.P = P
        ai = AI(P, cl)
        for s, v in ai.run(fn, State(), src("this"), [src("v")]):
            if v is THROWN:
                continue
            if q.endswith("apply"):
                c.ok("rewriter", "RewriteRule::apply")
                left = s.heap.get(sole(src("this")), {}).get("result")
                if left is not None and left != NULL:
                    c.viol("rewriter:stale", where, "the result of a rule survives its application and rewrites the next call as well")
                if v != src("found") and left is not None and v == NULL:
                    c.viol("rewriter:lost", where, "the result of a rule is not returned")
            else:
                c.ok("rewriter", "Rewriter::rewrite")
                rp = [e for e in s.trace if e[0] == "replaceAll"]
                aps = [e for e in s.trace if e[0] == "apply"]
                fired = any(a == ("nz", src("rep")) and p for a, p in s.conds())
                for e in rp:
                    if e[1] != src("v"):
                        c.viol("rewriter:target", where, "replaces something other than the rewritten value")
                    if src("v") == e[2]:
                        c.viol("rewriter:self", where, "replaces the value by itself")


def operators(c, P):
    """IR operators call the method of that operator"""
    one = {"operator+": "__pos__", "operator-": "__neg__", "operator~": "__invert__", "toInt": "__int__",
           "toFloat": "__float__", "toBool": "__bool__", "len": "__len__", "iter": "__iter__"}
    two = {"operator==": "__eq__", "operator!=": "__ne__", "operator<": "__lt__", "operator>": "__gt__",
           "operator<=": "__le__", "operator>=": "__ge__", "operator+": "__add__", "operator-": "__sub__",
           "operator*": "__mul__", "matmul": "__matmul__", "trueDiv": "__truediv__", "operator/": "__floordiv__",
           "operator%": "__mod__", "pow": "__pow__", "operator<<": "__lshift__", "operator>>": "__rshift__",
           "operator&": "__and__", "operator|": "__or__", "operator^": "__xor__", "operator[]": "__getitem__"}

    class OC(IRClient):
        def should_inline(self, t, f, o, vs):
            return t.get("cls") == "codon::ir::Value"

        def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
            if f["n"] in ("getOrRealizeMethod",):
                st = st.copy()
                ts = strlist(st, vs[2]) if len(vs) > 2 else []
                st.trace += (("method", vs[0], vs[1], tuple(ts)),)
                return [(st, src("fn"))]
            if f["n"] in ("N", "Nr") and f.get("cls") == "codon::ir::Module":
                return [(st, op("N", V(("str", f["targs"][0])), *vs))]
            if f["n"] in ("getType", "getModule"):
                return [(st, op(f["n"], o))]
            if f["n"] == "doCall" or f["n"] == "operator()":
                st = st.copy()
                args = [V(x) for x in strlist(st, vs[0])] if len(vs) == 1 and any(a[0] == "new" for a in vs[0]) else list(vs)
                st.trace += (("call", o, tuple(args)),)
                return [(st, op("callval", o, *args))]
            return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)

    for f in P.funcs.values():
        if f.get("cls") != "codon::ir::Value" or not f.get("body"):
            continue
        tab = {0: one, 1: two}.get(len(f["params"]))
        if not tab or f["n"] not in tab:
            continue
        cl = OC({})
        cl.P = P
        ai = AI(P, cl)
        other = src("other")
        args = [other] if f["params"] else []
        where = f.where
        for s, v in ai.run(f, State(), src("this"), args):
            for e in s.trace:
                if e[0] == "method":
                    mg = norm_magic(P, e[2])
                    if mg is None:
                        continue
                    c.ok("operator", "%s/%d calls %s" % (f["n"], len(args), mg))
                    if mg != tab[f["n"]]:
                        c.viol("operator:%s/%d" % (f["n"], len(args)), where, "Value::%s looks up %s, not %s" % (
                            f["n"], mg, tab[f["n"]]))
                    if e[1] != op("getType", src("this")):
                        c.viol("operator:%s/%d:type" % (f["n"], len(args)), where, "the method is looked up in a type other than the left operand's")
                elif e[0] == "call":
                    want = (src("this"),) + tuple(args)
                    if len(e[2]) == len(want) and e[2] != want:
                        c.viol("operator:%s/%d:args" % (f["n"], len(args)), where, "the operands are passed as (%s)" % ", ".join(map(show, e[2])))
    c.floor("operator", 24)


def forwarded(c, P):
    """the numeric mode the program is compiled with reaches every folding pass"""
    from passes import RegClient, PM, reach
    fn = [f for f in P.fn(PM + "::registerStandardPasses") if f.get("body")]
    if not fn:
        raise AnalysisBroken("constant folding: registration of the standard passes not found")
    modes = [e for q, e in P.enums.items() if q == PM + "::Init"]
    n = 0
    for e in modes[0]["e"]:
        ai = AI(P, RegClient())
        for s, v in ai.run(fn[0], State(), src("this"), [INT(int(e["v"]))]):
            for t in s.trace:
                if t[0] != "registerPass":
                    continue
                for a in reach(s, t[1][0]):
                    if a[0] == "new" and a[2] == NS + "FoldingPass":
                        n += 1
                        val = s.heap.get(a, {}).get("pyNumerics")
                        c.ok("mode", "folding pass registered for mode " + e["n"])
                        if val is not None and val != src("this", "pyNumerics"):
                            c.viol("mode:" + e["n"], fn[0].where,
                                   "a folding pass of mode %s is created with numeric mode %s" % (e["n"], show(val)))
    # compiler -> pass manager
    for f in P.funcs.values():
        if f.get("cls") != "codon::Compiler" or f.get("kind") != "ctor" and f["n"] != "Compiler":
            continue
        for x in walk(f):
            if isinstance(x, dict) and x.get("k") == "Call" and x.get("f") and x["f"]["n"] == "make_unique" and \
                    x["f"].get("targs") and x["f"]["targs"][0].endswith("::PassManager"):
                names = [a.get("n") for a in x["a"]]
                names = []
                for a in x["a"]:
                    nm = [y.get("n") for y in walk(a) if y["k"] in ("Ref", "Mem")]
                    names.append(nm[-1] if nm else None)
                c.ok("mode", "Compiler passes " + str(names))
                if len(names) >= 3 and names[2] not in ("pyNumerics", None):
                    c.viol("mode:compiler", f.where, "the compiler passes %s as the numeric mode" % names[2])

"""Copying and traversing nodes of the abstract syntax tree."""
from absint import *
from checklib import Check
from facts import AnalysisBroken
from irmodel import *

FILES = ["codon/parser/ast/expr.cpp", "codon/parser/ast/stmt.cpp", "codon/parser/visitors/visitor.cpp", "codon/cir/base.cpp",
         "codon/cir/attribute.cpp", "codon/parser/visitors/scoping/scoping.cpp"]
EXPR, STMT, ASTN = "codon::ast::Expr", "codon::ast::Stmt", "codon::ast::ASTNode"
ATTR = "codon::ir::Attribute"
CACHE = src("v", "cache")
CLEAN = src("clean")
# a lazily filled cache of data that is itself copied
DERIVED = {("codon::ast::FunctionStmt", "signature")}


def kinds(P):
    out = [k for r in (EXPR, STMT) for k in node_classes(P, r, False) if k not in (EXPR, STMT)]
    return sorted(k for k in out if k.startswith("codon::ast::") and "AcceptorExtend" not in k)


def sh(k):
    return k.split("::")[-1]


class CopyClient(IRClient):
    """`clone(x, clean)` is uninterpreted; the arena of nodes hands back what was put last"""

    def leaf_isa(self, v, cls):
        """a copy has the class of the original, which has the class of the field it is stored in"""
        for a in v:
            if a[0] != "op" or a[1] != "clone":
                return False
            for b in a[2][0]:
                t = strip_t(self.static_type(b) or "") if b[0] == "src" and b[2] else ""
                if not t.endswith("*") or not self.P.derives(strip_t(t[:-1]), cls):
                    return False
        return True

    def typed_leaf(self, v, cls):
        return self.leaf_isa(v, cls)

    def isa_call(self, ai, st, f, o):
        if self.leaf_isa(o, (f.get("targs") or ["?"])[0]):
            return [(st, TRUE)]
        return IRClient.isa_call(self, ai, st, f, o)

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if o is not None and any(a[0] == "src" and a[2][-1:] == ("_nodes",) for a in o):
            if f["n"] in ("emplace_back", "push_back"):
                st = st.copy()
                ai.setf(st, CACHE, "#last", vs[0])
                return [(st, vs[0])]
            if f["n"] == "back":
                return [(st, ai.getf(st, CACHE, "#last"))]
        if f["n"] == "clone" and f["qn"] in ("codon::ast::clone", "codon::clone") and vs:
            return [(st, op("clone", *vs))]
        if f["n"] == "clean_clone" and vs:
            return [(st, op("clone", vs[0], TRUE))]
        if f["n"] == "clone" and o is not None and ASTN in f.get("cls", "") + "".join(self.P.bases(f["cls"]) if f.get("cls") in self.P.records else ()):
            return [(st, op("clone", o, vs[0] if vs else FALSE))]
        if f["n"] == "clone" and o is not None and o != src("v"):
            return [(st, op("clone", o, vs[0]) if vs else op("clone", o))]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def projected(root, path):
    """values denoting the component `path` of the copy of a prefix of it"""
    for i in range(len(path), 0, -1):
        yield path[:i], path[i:]


def proj(v, rest):
    for p in rest:
        v = op("." + p, v) if p != "[]" else op(".[]", v)
    return v


def isclone(v, path, clean):
    """v is component of clone(v.prefix, clean): the prefix, or None"""
    for pre, rest in projected("v", path):
        for cl in clean:
            w = op("clone", src("v", *pre), *([cl] if cl is not None else []))
            if v == proj(w, rest):
                return pre
    return None


def static(P, k, path):
    cl = IRClient({"v": k})
    cl.P = P
    return cl.static_type(("src", "v", path)) or ""


def is_node_ptr(P, t):
    t = strip_t(t)
    return t.endswith("*") and P.derives(strip_t(t[:-1]), ASTN)


def judge(P, k, leaf, t, v, conds, has_clean=True):
    """None if the leaf of the copy has the right value, else what is wrong"""
    cleans = [CLEAN] if has_clean else [CLEAN]
    pol = [p for a, p in conds if a == ("nz", CLEAN)]
    if pol:
        cleans = cleans + ([TRUE] if pol[0] else [FALSE])
    full = ".".join(leaf).replace(".[]", "[]")
    if leaf[0] == "done":
        if pol and pol[0]:
            return None if v in (FALSE, INT(0)) else "a clean copy keeps the 'done' mark"
        if not pol:
            return "the 'done' mark does not depend on 'clean'"
        return None if v == src("v", "done") else "the 'done' mark is not copied"
    if leaf[0] == "type" and strip_t(static(P, k, ("type",))).startswith("std::shared_ptr"):
        if pol and pol[0]:
            return "a clean copy keeps the inferred type" if any(a[0] == "src" and a[1] == "v" for a in v) else None
        if not pol:
            return "the inferred type does not depend on 'clean'"
        return None if v == src("v", *leaf) else "the inferred type is not copied"
    if leaf[0] == "origExpr":
        return None if v == src("v", "origExpr") else "origExpr is not copied"
    pre = isclone(v, leaf, cleans)
    if is_node_ptr(P, t):
        if pre is not None:
            return None
        if v == NULL and any(a == ("nz", src("v", *leaf)) and not p for a, p in conds):
            return None         # there is no child on this path
        if v == src("v", *leaf):
            return "the copy shares the child %s with the original" % full
        if any(a[0] == "op" and a[1] == "clone" for a in v) and any(isclone(v, leaf, [c]) for c in (TRUE, FALSE, None)):
            return "the child %s is copied without passing on 'clean'" % full
        return "the child %s of the copy is %s, not a copy of the original's" % (full, show(v)[:80])
    if v == src("v", *leaf):
        return None
    if pre is not None and len(pre) < len(leaf):
        return None
    if any(isclone(v, leaf, [c]) for c in (TRUE, FALSE, None)):
        return "%s is copied without passing on 'clean'" % full
    return "%s of the copy is %s, not the original's" % (full, show(v)[:80])


def value_at(ai, s, v, leaf):
    for p in leaf:
        v = ai.getf(s, v, p)
    return v


def copy_of_nodes(c, P):
    for k in kinds(P):
        fns = [f for f in P.fn(k + "::clone") if f.get("body") is not None and len(f["params"]) == 1]
        if not fns:
            if P.records[k].get("abstract"):
                continue
            c.viol("ast:noclone:" + sh(k), sh(k), "%s has no clone(clean) of its own: a copy would be of another class" % sh(k))
            continue
        f = fns[0]
        cl = CopyClient({"v": k})
        cl.P = P
        ai = AI(P, cl)
        rs = ai.run(f, State(), src("v"), [CLEAN])
        terms = class_terminals(P, k)
        if not rs:
            raise AnalysisBroken("no path through %s::clone" % k)
        for s, r in rs:
            conds = s.conds()
            a = list(r)
            if len(a) != 1 or a[0][0] != "new":
                c.viol("ast:result:" + sh(k), f.where, "%s::clone gives %s, not a new node" % (sh(k), show(r)[:80]))
                continue
            if a[0][2] != k:
                c.viol("ast:class:" + sh(k), f.where, "the copy of a %s is a %s" % (sh(k), sh(a[0][2])))
                continue
            c.ok("class", sh(k))
            for leaf, t in terms:
                if (k, leaf[0]) in DERIVED:
                    continue
                bad = judge(P, k, leaf, t, value_at(ai, s, r, leaf), conds)
                if bad:
                    c.viol("ast:%s:%s" % (sh(k), ".".join(leaf)), f.where, "copying a %s (%s): %s" % (sh(k), show_pc(conds)[:60], bad))
                else:
                    c.ok("field", "%s.%s" % (sh(k), ".".join(leaf)))
            at = ai.getf(s, r, "attributes")
            if at != op("clone", src("v", "attributes")):
                c.viol("ast:attrs:" + sh(k), f.where, "the attributes of the copy of a %s are %s" % (sh(k), show(at)[:80]))
            else:
                c.ok("attributes", sh(k))
            if ai.getf(s, r, "cache") != CACHE:
                c.viol("ast:cache:" + sh(k), f.where, "the copy of a %s does not belong to the original's cache" % sh(k))


def copy_of_helpers(c, P):
    """records stored by value in nodes that have a clone of their own"""
    hs = set()
    for k in kinds(P):
        for fl in P.all_fields(k):
            for x in re.findall(r"codon::ast::\w+", fl["type"]):
                if x in P.records and not P.derives(x, ASTN) and x + "::clone" in P.by_qn:
                    hs.add(x)
    for k in sorted(hs):
        f = [g for g in P.fn(k + "::clone") if g.get("body") is not None]
        if not f:
            raise AnalysisBroken("no body of %s::clone" % k)
        f = f[0]
        cl = CopyClient({"v": k})
        cl.P = P
        ai = AI(P, cl)
        for s, r in ai.run(f, State(), src("v"), [CLEAN]):
            conds = s.conds()
            for leaf, t in class_terminals(P, k):
                v = value_at(ai, s, r, leaf)
                bad = judge(P, k, leaf, t, v, conds)
                if bad and leaf == ("status",) and status_kept(v, conds):
                    bad = None
                if bad:
                    c.viol("helper:%s:%s" % (sh(k), ".".join(leaf)), f.where, "copying a %s (%s): %s" % (sh(k), show_pc(conds)[:60], bad))
                else:
                    c.ok("helper", "%s.%s" % (sh(k), ".".join(leaf)))
    c.floor("helper", 8)


def status_kept(v, conds):
    """the status is written as a constant the path implies; a value parameter is judged by its type as when it was built"""
    nz = [p for a, p in conds if a == ("nz", src("v", "status"))]
    one = [p for a, p in conds if a[0] == "eq" and src("v", "status") in a[1:] and INT(1) in a[1:]]
    e = [x[1].split("::")[-1] if x[0] == "enum" else repr(x) for x in v]
    if not nz or len(e) != 1:
        return False
    if not nz[0]:
        return e[0] in ("Value", "Generic")
    return e[0] == ("Generic" if one and one[0] else "HiddenGeneric") and bool(one)


class GenericCopy(CopyClient):
    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if f["n"] == "clone" and o is not None and f.get("cls"):
            return [(st, op("clone", o, *vs))]
        return CopyClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def copy_functions(c, P):
    """the generic clone functions the constructors are written with"""
    seen = 0
    for q in ("codon::clone", "codon::ast::clone", "codon::clean_clone"):
        for f in P.by_qn.get(q, []):
            if f.get("body") is None:
                continue
            cl = GenericCopy({})
            cl.P = P
            ai = AI(P, cl)
            t = strip_t(f["T"][f["params"][0]["t"]])
            pass_clean = [CLEAN] if len(f["params"]) > 1 else []
            cc = pass_clean or ([TRUE] if q.endswith("clean_clone") else [])
            for s, r in ai.run(f, State(), VOID, [src("t")] + pass_clean):
                seen += 1
                each = [(a, p) for a, p in s.conds() if a[0] == "each"]
                rest = [(a, p) for a, p in s.conds() if a[0] not in ("each",) and a != ("nz", src("t")) and a != ("nz", CLEAN)]
                bad = None
                if rest:
                    bad = "copying depends on %s" % show_pc(rest)[:80]
                elif t.startswith(("std::vector", "std::unordered_map", "std::map")):
                    a = list(r)
                    if len(a) != 1 or a[0][0] != "new":
                        bad = "the copy is %s, not a new container" % show(r)[:60]
                    else:
                        el = ai.getf(s, r, "[]")
                        if t.startswith("std::vector"):
                            ok = el == op("clone", src("t", "[]"), *cc) or (not each and not el)
                            bad = None if ok else "an element of the copy is %s" % show(el)[:60]
                        else:
                            k, v = ai.getf(s, el, "first"), ai.getf(s, el, "second")
                            if el and not (k == src("t", "[]", "first") and v == op("clone", src("t", "[]", "second"))):
                                bad = "an entry of the copy is %s: %s" % (show(k)[:40], show(v)[:60])
                            elif each and not el:
                                bad = "an entry is not copied"
                elif t.endswith("*"):
                    null = any(a == ("nz", src("t")) and not p for a, p in s.conds())
                    ok = r == NULL if null else r == op("clone", src("t"), *cc)
                    bad = None if ok else "the copy of a %s pointer is %s" % ("null" if null else "node", show(r)[:60])
                else:
                    bad = None if r == op("clone", src("t"), *cc) else "the copy is %s" % show(r)[:60]
                if bad:
                    c.viol("clone:" + q + ":" + t.split("<")[0], f.where, "%s(%s): %s" % (q, t, bad))
                else:
                    c.ok("generic", "%s(%s)" % (q, t))
    c.floor("generic", 20)


def attributes(P):
    return sorted(k for k in P.subclasses(ATTR))


def copy_of_attributes(c, P):
    for k in attributes(P) + [ATTR]:
        L = [f for f in P.by_qn.get(k + "::clone", []) if f.get("body") is not None and len(f["params"]) == 0]
        if not L:
            c.viol("attr:noclone:" + sh(k), sh(k), "%s has no clone of its own: a copied node would lose its data" % sh(k))
            continue
        f = L[0]
        cl = CopyClient({"v": k})
        cl.P = P
        ai = AI(P, cl)
        for s, r in ai.run(f, State(), src("v"), []):
            if r is THROWN:
                continue
            a = list(r)
            if len(a) == 1 and a[0][0] == "null" or not a:
                continue            # asserts that it is never called
            if len(a) != 1 or a[0][0] != "new" or a[0][2] != k:
                c.viol("attr:class:" + sh(k), f.where, "the copy of a %s is %s" % (sh(k), show(r)[:80]))
                continue
            for fl in P.all_fields(k):
                whole = ai.getf(s, r, fl["n"]) == src("v", fl["n"])
                for leaf, t in all_leaves(P, fl["type"], (fl["n"],)):
                    v = value_at(ai, s, r, leaf)
                    if whole or v == src("v", *leaf):
                        c.ok("attribute", "%s.%s" % (sh(k), ".".join(leaf)))
                    else:
                        c.viol("attr:%s:%s" % (sh(k), ".".join(leaf)), f.where,
                               "%s of a copied %s is %s" % (".".join(leaf), sh(k), show(v)[:80]))
    c.floor("attribute", 8)


def clone():
    c = Check("C14", "every class of the syntax tree: the object made by clone(clean), field by field, on every path")
    P = c.load(FILES)
    copy_of_nodes(c, P)
    copy_of_helpers(c, P)
    copy_functions(c, P)
    copy_of_attributes(c, P)
    c.floor("class", 110)
    c.floor("field", 880)
    c.floor("attributes", 110)
    return c


VISITOR = "codon::ast::ASTVisitor"
BOOLV = "codon::ast::CallbackASTVisitor<bool, bool>"
REPLV = "codon::ast::ReplacingCallbackASTVisitor"


def children(P, k):
    """fields of a class that refer to child nodes"""
    out = []
    for leaf, t in class_terminals(P, k):
        if leaf[0] in ("origExpr", "type") and not is_node_ptr(P, t) or leaf[0] == "origExpr":
            continue
        if is_node_ptr(P, t):
            out.append((leaf, strip_t(strip_t(t)[:-1])))
    return out


class VisitClient(IRClient):
    """transform is uninterpreted; what it is called with is recorded"""

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        if f["n"] == "transform" and vs and o == src("cv"):
            t = C.T[n["a"][0]["t"]] if n["a"] and n["a"][0] and n["a"][0].get("t", -1) >= 0 else ""
            arg = vs[0]
            g = ai.P.funcs.get(f["id"])
            if "vector" in t and g and g.get("body"):
                return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)     # element by element, in its body
            st = st.copy()
            if "vector" in t:
                arg = ai.getf(st, arg, "[]")
                new = ai.new_obj(st, t)
                st.heap[new]["[]"] = op("transform", arg)
                st.trace = st.trace + (("t", arg, st.conds()),)
                return [(st, V(new))]
            st.trace = st.trace + (("t", arg, st.conds()),)
            return [(st, op("transform", *vs))]
        if f["n"] == "wrap" and f.get("cls") == "codon::ast::SuiteStmt" and vs:
            return [(st, op("wrap", vs[0]))]
        if f["n"] == "defaultVisit":
            st = st.copy()
            st.trace = st.trace + (("d", vs[0]),)
            return [(st, VOID)]
        if f["n"] == "visit" and o == src("visitor"):
            st = st.copy()
            st.trace = st.trace + (("v", vs[0], f["id"]),)
            return [(st, VOID)]
        return IRClient.on_call(self, ai, st, n, f, o, vs, C, olv, lvs)


def missing(conds, leaf):
    """the path has established that the child is absent"""
    for a, p in conds:
        if a[0] == "nz" and not p and any(x[0] == "src" and x[1] == "v" and x[2] == leaf for x in a[1]):
            return True
        if a[0] == "nz" and not p and any(x[0] == "op" and x[1] == "size" and any(y[0] == "src" and y[2] and y[2] == leaf[:len(y[2])] for y in x[2][0]) for x in a[1]):
            return True
        if a[0] == "each" and not p:
            return True
    return False


def skipped(st, leaf):
    """the container of the child has no elements on this path"""
    return False


def visitors():
    c = Check("C15", "every class of the syntax tree and every generic visitor: what its visit function transforms and stores")
    P = c.load(FILES)
    ids = {}
    for m in P.rec(VISITOR)["methods"]:
        if m["n"] == "visit" and len(m["pt"]) == 1:
            t = strip_t(P.records[VISITOR]["T"][m["pt"][0]]) if "T" in P.records[VISITOR] else ""
            ids[t.rstrip("* ").strip()] = m
    for k in kinds(P):
        if P.records[k].get("abstract"):
            continue
        acc = [f for f in P.by_qn.get(k + "::accept", []) if f.get("body") is not None and "ASTVisitor" in f["id"]]
        if not acc:
            c.viol("accept:none:" + sh(k), sh(k), "%s has no accept(ASTVisitor &) of its own" % sh(k))
        for f in acc:
            cl = VisitClient({"v": k})
            cl.P = P
            ai = AI(P, cl)
            for s, r in ai.run(f, State(), src("v"), [src("visitor")]):
                ev = [e for e in s.trace if e[0] == "v"]
                want = ids.get(k, {}).get("id")
                if len(ev) != 1 or ev[0][1] != src("v") or ev[0][2] != want:
                    c.viol("accept:" + sh(k), f.where, "%s::accept does not hand the node to visit(%s *)" % (sh(k), sh(k)))
                else:
                    c.ok("accept", sh(k))
        if k not in ids:
            c.viol("visit:none:" + sh(k), sh(k), "the visitors have no visit(%s *)" % sh(k))
            continue
        base = P.funcs.get(ids[k]["id"])
        if base is None:
            raise AnalysisBroken("no body of ASTVisitor::visit(%s *)" % sh(k))
        cl = VisitClient({"v": k})
        cl.P = P
        ai = AI(P, cl)
        for s, r in ai.run(base, State(), src("cv"), [src("v")]):
            ev = [e for e in s.trace if e[0] == "d"]
            if len(ev) == 1 and ev[0][1] == src("v") and not s.conds():
                c.ok("default", sh(k))
            else:
                c.viol("default:" + sh(k), base.where, "the base visitor's visit(%s *) does not end in defaultVisit of the node" % sh(k))
        for vc, replacing in ((BOOLV, False), (REPLV, True)):
            m = P.find_override(vc, ids[k]["id"])
            f = P.funcs.get(m["id"])
            name = "CallbackASTVisitor" if not replacing else "ReplacingCallbackASTVisitor"
            ch = children(P, k)
            if f is None or f.get("body") is None:
                # a member of the class template that no visitor instantiates
                if replacing and "CallbackASTVisitor<codon::ast::Expr" in (m.get("cls") or m.get("rec") or ""):
                    f = P.funcs.get(P.find_override(BOOLV, ids[k]["id"])["id"])
                    if f is None:
                        raise AnalysisBroken("no body of visit(%s *) of %s" % (sh(k), name))
                    if ch:
                        c.viol("replace:%s" % sh(k), f.where, "%s::visit(%s *) is inherited and does not store what transform returns" % (name, sh(k)))
                    continue
                raise AnalysisBroken("no body of visit(%s *) of %s" % (sh(k), name))
            cl = VisitClient({"v": k, "cv": vc})
            cl.P = P
            ai = AI(P, cl)
            for s, r in ai.run(f, State(), src("cv"), [src("v")]):
                ev = [e for e in s.trace if e[0] == "t"]
                got = {}
                for e in ev:
                    for a in e[1]:
                        got[a] = got.get(a, 0) + 1
                for leaf, t in ch:
                    full = ".".join(leaf).replace(".[]", "[]")
                    if missing(s.conds(), leaf):
                        continue
                    a = ("src", "v", leaf)
                    if "[]" in leaf and not any(x[0] == "each" and p for x, p in s.conds()):
                        if a not in got and any(e for e in ai.run(f, State(), src("cv"), [src("v")]) if any(a in t2[1] for t2 in e[0].trace if t2[0] == "t")):
                            continue        # the loop is not entered on this path
                    if a not in got:
                        c.viol("%s:%s:%s" % ("replace" if replacing else "visit", sh(k), full), f.where,
                               "%s::visit(%s *) does not transform the child %s" % (name, sh(k), full))
                    elif got[a] > 1:
                        c.viol("twice:%s:%s" % (sh(k), full), f.where, "%s::visit(%s *) transforms the child %s twice" % (name, sh(k), full))
                    else:
                        c.ok("transformed", "%s: %s.%s" % (name, sh(k), full))
                    if replacing and a in got:
                        v = value_at(ai, s, src("v"), leaf)
                        w = op("transform", src("v", *leaf))
                        good = [w] if t != "codon::ast::SuiteStmt" else [op("wrap", w)]
                        if v in good:
                            c.ok("stored", "%s.%s" % (sh(k), full))
                        else:
                            c.viol("stored:%s:%s" % (sh(k), full), f.where, "after %s::visit(%s *) the child %s is %s, not the result of transforming it"
                                   % (name, sh(k), full, show(v)[:80]))
                for a in got:
                    if a not in [("src", "v", l) for l, _ in ch]:
                        c.viol("foreign:%s" % sh(k), f.where, "%s::visit(%s *) transforms %s, which is no child of the node" % (name, sh(k), show(V(a))[:60]))
    c.floor("accept", 55)
    c.floor("default", 55)
    c.floor("transformed", 150)
    c.floor("stored", 75)
    return c

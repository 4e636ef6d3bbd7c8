"""Model of the codon IR node classes derived from the analysed sources."""
import re
from absint import *
from facts import AnalysisBroken

NODE = "codon::ir::Node"
VALUE = "codon::ir::Value"
TYPE = "codon::ir::types::Type"
VAR = "codon::ir::Var"
AST = "codon::ast::ASTNode"


def strip_t(t):
    return re.sub(r"\bconst\b", "", t).strip().rstrip("&").strip()


def targs(t):
    """top-level template arguments of a type string"""
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for c in t[i + 1: t.rfind(">")]:
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out


def leaves(P, t, kind, path, stop=None, depth=0):
    """access paths below a field of type `t` holding references to `kind`"""
    t = strip_t(t)
    out = []
    if depth > 6:
        return out
    if t.endswith("*"):
        b = t[:-1].strip()
        b = strip_t(b)
        if P.derives(b, kind):
            out.append(path)
        return out
    base = t.split("<")[0]
    if base in ("std::vector", "std::list", "std::set", "std::deque", "std::unordered_set", "std::array"):
        return leaves(P, targs(t)[0], kind, path + ("[]",), stop, depth + 1)
    if base in ("std::map", "std::unordered_map"):
        a = targs(t)
        out += leaves(P, a[0], kind, path + ("[]", "first"), stop, depth + 1)
        out += leaves(P, a[1], kind, path + ("[]", "second"), stop, depth + 1)
        return out
    if base in ("std::unique_ptr", "std::shared_ptr", "std::optional"):
        a = targs(t)[0]
        if P.derives(a, kind):
            out.append(path)
            return out
        return leaves(P, a, kind, path, stop, depth + 1)
    if base == "std::pair":
        a = targs(t)
        out += leaves(P, a[0], kind, path + ("first",), stop, depth + 1)
        out += leaves(P, a[1], kind, path + ("second",), stop, depth + 1)
        return out
    if t in P.records and not P.derives(t, NODE):
        for f in P.all_fields(t):
            out += leaves(P, f["type"], kind, path + (f["n"],), stop, depth + 1)
    elif t in P.records:
        # node stored by value (pipeline stages ...)
        for f in P.all_fields(t):
            if f["rec"] == NODE or "ReplaceableNodeBase" in f["rec"]:
                continue
            out += leaves(P, f["type"], kind, path + (f["n"],), stop, depth + 1)
    return out


def all_leaves(P, t, path, depth=0):
    """every terminal access path below a field of type t, with its type"""
    t = strip_t(t)
    base = t.split("<")[0]
    if depth > 6 or t.endswith("*"):
        return [(path, t)]
    if base in ("std::vector", "std::list", "std::set", "std::deque", "std::unordered_set", "std::array"):
        return all_leaves(P, targs(t)[0], path + ("[]",), depth + 1)
    if base in ("std::map", "std::unordered_map"):
        a = targs(t)
        return all_leaves(P, a[0], path + ("[]", "first"), depth + 1) + \
            all_leaves(P, a[1], path + ("[]", "second"), depth + 1)
    if base in ("std::unique_ptr", "std::shared_ptr", "std::optional"):
        a = targs(t)[0]
        if a in P.records and not P.derives(a, NODE):
            return all_leaves(P, a, path, depth + 1)
        return [(path, t)]
    if base == "std::pair":
        a = targs(t)
        return all_leaves(P, a[0], path + ("first",), depth + 1) + \
            all_leaves(P, a[1], path + ("second",), depth + 1)
    if t in P.records and not t.startswith("std::"):
        out = []
        for f in P.all_fields(t):
            if f["rec"] == NODE or "ReplaceableNodeBase" in f["rec"]:
                continue
            out += all_leaves(P, f["type"], path + (f["n"],), depth + 1)
        return out
    return [(path, t)]


def class_terminals(P, cls):
    out = []
    for f in P.all_fields(cls):
        if f["rec"] == NODE or "ReplaceableNodeBase" in f["rec"] or f["rec"] == AST or f["n"].startswith("_vptr"):
            continue
        out += all_leaves(P, f["type"], (f["n"],))
    return out


def class_leaves(P, cls, kind):
    out = []
    for f in P.all_fields(cls):
        if f["rec"] == NODE or "ReplaceableNodeBase" in f["rec"] or f["rec"] == AST:
            continue
        for x in leaves(P, f["type"], kind, (f["n"],)):
            out.append((x, f))
    return out


def node_classes(P, root, concrete=True):
    out = []
    for c in [root] + P.subclasses(root):
        if "AcceptorExtend" in c or "ReplaceableNodeBase" in c:
            continue
        if concrete and P.records[c].get("abstract"):
            continue
        out.append(c)
    return out


class IRClient(Client):
    """access through getActual()/replacement is the identity"""

    def __init__(self, roots=None):
        self.roots = roots or {}
        self.ident = {"getActual"}
        self.typecache = {}
        self.P = None

    def class_of(self, a):
        if a[0] == "src":
            if not a[2]:
                return self.roots.get(a[1])
            return self.exact(a)
        return None

    def exact(self, a):
        """records held by value have an exact class"""
        c = self.roots.get(a[1])
        if c is None or self.P is None:
            return None
        t = self.static_type(a)
        if t is None or t.endswith("*"):
            return None
        return t if t in self.P.records else None

    def static_type(self, a):
        c = self.roots.get(a[1])
        t = c
        for p in a[2]:
            if t is None:
                return None
            t = strip_t(t)
            base = t.split("<")[0]
            if t.endswith("*"):
                t = strip_t(t[:-1])
                base = t.split("<")[0]
            while base in ("std::unique_ptr", "std::shared_ptr", "std::optional"):
                t = targs(t)[0]
                base = t.split("<")[0]
            if p.startswith("["):
                if base in ("std::map", "std::unordered_map"):
                    a2 = targs(t)
                    t = "std::pair<%s, %s>" % (a2[0], a2[1])
                    continue
                ta = targs(t)
                t = ta[0] if ta else None
                continue
            if base == "std::pair":
                a2 = targs(t)
                t = a2[0] if p == "first" else a2[1] if p == "second" else None
                continue
            if t in self.P.records:
                nt = None
                for f in self.P.all_fields(t):
                    if f["n"] == p:
                        nt = f["type"]
                t = nt
            else:
                return None
        return strip_t(t) if t else None

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        nm = f["n"]
        if nm in self.ident and o is not None:
            return [(st, o)]
        if nm == "hasReplacement":
            return [(st, FALSE)]
        if nm in ("isA", "is") and f["qn"].startswith(NODE):
            return self.isa_call(ai, st, f, o)
        if nm in ("as",) and f["qn"].startswith(NODE):
            return ai.dyncast(st, o, (f.get("targs") or ["?"])[0])
        if f["qn"] in ("codon::ir::isA", "codon::ir::isA<>"):
            return self.isa_call(ai, st, f, vs[0])
        if f["qn"] in ("codon::ir::cast",):
            out = []
            v = vs[0]
            for pol in (True, False):
                s = ai.assume(st, v, pol)
                if s is None:
                    continue
                if not pol:
                    out.append((s, NULL))
                else:
                    cls = (f.get("targs") or ["?"])[0]
                    if self.typed_leaf(v, cls) and ai.isa(s, v, cls) is None:
                        # a reference stored in the object always has the class it is used as
                        out.append((s, v))
                    else:
                        out += ai.dyncast(s, v, cls)
            return out
        return None

    def typed_leaf(self, v, cls):
        return False

    def isa_call(self, ai, st, f, o):
        cls = (f.get("targs") or ["?"])[0]
        t = ai.isa(st, o, cls)
        if t is not None:
            return [(st, TRUE if t else FALSE)]
        return [(st, op("isa", o, V(("str", cls))))]

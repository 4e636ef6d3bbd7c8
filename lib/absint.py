"""A path-partitioned abstract interpreter over the type-checked AST.

Abstract values are finite sets of atoms: access paths rooted at a symbolic input
("the field `cond` of argument v"), abstract allocation sites, constants, closures and
uninterpreted operator terms over those.  Calls are followed into every callee whose body
is in the analysed program (so extracting a helper or reordering statements does not change
the result), containers and smart pointers of the standard library are modelled, a loop over
a container is one generic iteration.  Nothing is executed and no solver is used: a branch is
dropped only when the very same condition was already assumed with the other outcome."""
import re

from facts import walk

NULL = frozenset([("null",)])
TRUE = frozenset([("bool", True)])
FALSE = frozenset([("bool", False)])
VOID = frozenset()


def V(*atoms):
    return frozenset(atoms)


def src(root, *path):
    return frozenset([("src", root, tuple(path))])


def INT(n):
    return frozenset([("int", n)])


def op(name, *vals):
    if name in ("<", ">", "==", "!=", "<=", ">=") and len(vals) == 2:
        # set.count(x) > 0 is membership
        for c, z, nm in ((vals[0], vals[1], name), (vals[1], vals[0], name.translate({60: 62, 62: 60}))):
            if len(c) == 1 and next(iter(c))[:2] == ("op", "contains") and len(z) == 1 and next(iter(z))[0] == "int":
                k = next(iter(z))[1]
                if (nm, k) in ((">", 0), ("!=", 0), (">=", 1), ("==", 1)):
                    return c
                if (nm, k) in (("==", 0), ("<=", 0), ("<", 1), ("!=", 1)):
                    return frozenset([("op", "!", (c,))])
    return frozenset([("op", name, tuple(vals))])


class Budget(Exception):
    pass


class State:
    __slots__ = ("store", "heap", "pc", "trace", "env", "hist")

    def __init__(self):
        self.env = {}     # local id -> lvalue
        self.store = {}   # cell -> value
        self.heap = {}    # object atom -> {field: value}
        self.pc = ()
        self.trace = ()
        self.hist = ()    # conditions assumed inside loops that were left

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.store = dict(self.store)
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.pc = self.pc
        s.trace = self.trace
        s.hist = self.hist
        return s

    def conds(self):
        return self.pc + self.hist

    def known(self, atom):
        for a, p in self.pc:
            if a == atom:
                return p
        return None


STD_CONT = re.compile(
    r"^(const )?(class )?std::(__cxx11::|__debug::)?(vector|list|set|map|unordered_map|unordered_set|deque|multimap|"
    r"multiset|queue|stack|array|initializer_list|forward_list|basic_string_view|span)<|^(const )?llvm::(SmallVector|ArrayRef|SmallVectorImpl|DenseMap|DenseSet|StringMap|SmallPtrSet|MutableArrayRef|SmallVectorTemplateCommon|SmallVectorTemplateBase|SetVector|MapVector|SmallSetVector|iplist|simple_ilist)")
STD_PAIR = re.compile(r"^(const )?std::pair<")
STD_PTR = re.compile(r"^(const )?std::(unique_ptr|shared_ptr|weak_ptr|__shared_ptr|__shared_ptr_access|optional|reference_wrapper|__weak_ptr|_Optional_base)<")
ITER = re.compile(r"__normal_iterator|_iterator|_Rb_tree_|_List_|reverse_iterator|ilist_iterator|DenseMapIterator")
STRING = re.compile(r"^(const )?std::(__cxx11::)?basic_string<")


def is_map(t):
    return re.match(r"^(const )?std::(unordered_)?(multi)?map<", t) is not None or "DenseMap<" in t[:20] or "StringMap" in t[:20]


def unlined(n):
    """a syntax tree without source positions"""
    if isinstance(n, dict):
        return {k: unlined(v) for k, v in n.items() if k not in ("l", "id", "c")} if n.get("k") != "Ref" else {k: v for k, v in n.items() if k not in ("l", "c")}
    if isinstance(n, list):
        return [unlined(x) for x in n]
    return n


class AI:
    def __init__(self, P, client=None, max_depth=14, max_paths=400, max_steps=3000000):
        self.P = P
        self.client = client
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.n = 0
        self.steps = 0
        self.stack = []
        self.lams = {}
        self.wcache = {}
        self.visited = set()
        self.calls = 0
        self.widened = 0

    def fresh(self):
        self.n += 1
        return self.n

    # ------------------------------------------------------------ objects
    def new_obj(self, st, cls, l=None):
        a = ("new", self.fresh(), cls)
        st.heap[a] = {}
        return a

    def getf(self, st, val, name):
        out = set()
        for a in val:
            out |= self.getf1(st, a, name)
        return frozenset(out)

    def getf1(self, st, a, name):
        h = st.heap.get(a)
        if h is not None and name in h:
            return h[name]
        if a[0] == "src":
            return V(("src", a[1], a[2] + (name,)))
        if a[0] == "new":
            if name in ("[]",):
                return VOID
            return V(("undef", a, name))
        if a[0] == "null":
            if self.client is not None and hasattr(self.client, "on_nullderef"):
                self.client.on_nullderef(self, st, name)
            return VOID
        if a[0] == "it":
            return VOID
        return V(("op", "." + name, (V(a),)))

    def setf(self, st, val, name, v, weak=False):
        strong = len(val) == 1 and not weak
        for a in val:
            if a[0] not in ("new", "src", "op", "unk"):
                continue
            if a[0] == "src" and "[]" in a[2]:
                strong = strong  # generic element: every element gets it
            h = st.heap.setdefault(a, {})
            if strong or name not in h:
                if not strong and a[0] == "src":
                    h[name] = v | self.getf1(st, a, name)
                else:
                    h[name] = v
            else:
                h[name] = h[name] | v

    def addelt(self, st, val, v, key="[]"):
        for a in val:
            if a[0] not in ("new", "src", "op", "unk"):
                continue
            h = st.heap.setdefault(a, {})
            if key in h:
                h[key] = h[key] | v
            else:
                h[key] = (self.getf1(st, a, key) if a[0] == "src" else VOID) | v

    # ------------------------------------------------------------ lvalues
    def rd(self, st, lv):
        if lv[0] == "cell":
            return st.store.get(lv[1], VOID)
        if lv[0] == "fld":
            return self.getf(st, lv[1], lv[2])
        return lv[1]

    def wr(self, st, lv, v):
        if lv[0] == "cell":
            st.store[lv[1]] = v
        elif lv[0] == "fld":
            if lv[2] == "[]":
                self.addelt(st, lv[1], v) if any(a[0] == "new" for a in lv[1]) else self.setf(st, lv[1], "[]", v)
            else:
                self.setf(st, lv[1], lv[2], v)
            if self.client is not None and hasattr(self.client, "on_store"):
                self.client.on_store(self, st, lv, v)
        elif lv[0] == "val" and hasattr(self.client, "on_deref_store"):
            self.client.on_deref_store(self, st, lv[1], v)

    def bind(self, st, lid, v):
        c = ("c", self.fresh())
        st.env[lid] = ("cell", c)
        st.store[c] = v

    # ------------------------------------------------------------ conditions
    def truth(self, v):
        """constant truth value of v, or None"""
        r = None
        for a in v:
            if a[0] == "bool":
                t = a[1]
            elif a[0] == "int":
                t = a[1] != 0
            elif a[0] == "null":
                t = False
            elif a[0] in ("new", "lam", "fn", "str", "gaddr", "ref", "ssa", "bb"):
                t = True
            else:
                return None
            if r is None:
                r = t
            elif r != t:
                return None
        return r

    def norm(self, v, pol):
        """normalise a condition value to (atom, polarity)"""
        while len(v) == 1:
            (a,) = v
            if a[0] == "op" and a[1] == "!":
                v, pol = a[2][0], not pol
                continue
            if a[0] == "op" and a[1] in ("==", "!="):
                x, y = a[2]
                if a[1] == "!=":
                    pol = not pol
                for p, q in ((x, y), (y, x)):
                    if q == NULL or q == INT(0):
                        return self.norm(p, not pol)
                    if q == FALSE:
                        return self.norm(p, not pol)
                    if q == TRUE:
                        return self.norm(p, pol)
                if repr(sorted(map(repr, x))) > repr(sorted(map(repr, y))):
                    x, y = y, x
                return ("eq", x, y), pol
            if a[0] == "op" and a[1] == "empty":
                return ("nz", op("size", a[2][0])), not pol
            return ("nz", v), pol
        return ("nz", v), pol

    def assume(self, st, v, pol):
        """state under the assumption, or None when contradictory"""
        t = self.truth(v)
        if t is not None:
            return st if t == pol else None
        if len(v) > 1:
            # drop the atoms that contradict
            keep = frozenset(a for a in v if self.truth(frozenset([a])) in (None, pol))
            if not keep:
                return None
            if len(keep) == 1:
                return self.assume(st, keep, pol)
        if len(v) == 1:
            (a,) = v
            if a[0] == "op" and a[1] == "&&" and pol:
                s = self.assume(st, a[2][0], True)
                return self.assume(s, a[2][1], True) if s else None
            if a[0] == "op" and a[1] == "||" and not pol:
                s = self.assume(st, a[2][0], False)
                return self.assume(s, a[2][1], False) if s else None
        atom, p = self.norm(v, pol)
        if atom[0] == "eq" and atom[1] == atom[2] and len(atom[1]) == 1:
            (a,) = atom[1]
            if a[0] == "src" and not a[2]:
                return st if p else None
        k = st.known(atom)
        if k is not None:
            return st if k == p else None
        if atom[0] == "nz":
            t = self.truth(atom[1])
            if t is not None:
                return st if t == p else None
        s = st.copy()
        s.pc = s.pc + ((atom, p),)
        return s

    # ------------------------------------------------------------ statements
    # exec returns list of (kind, state, value) ; kind in next/ret/brk/cont/throw
    def exec(self, n, st, C):
        if n is None:
            return [("next", st, None)]
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "s_" + n["k"], None)
        if m:
            return m(n, st, C)
        return [("next", s, None) if v is not THROWN else ("throw", s, None) for s, v in self.ev(n, st, C)]

    def seq(self, stmts, st, C):
        live, out = [st], []
        for x in stmts:
            nxt = []
            for s in live:
                for r in self.exec(x, s, C):
                    if r[0] == "next":
                        nxt.append(r[1])
                    else:
                        out.append(r)
            live = self.limit(nxt)
            if not live:
                break
        return out + [("next", s, None) for s in live]

    def limit(self, states):
        if len(states) <= self.max_paths:
            return states
        self.widened += 1
        return states[: self.max_paths]

    def s_Block(self, n, st, C):
        return self.seq(n["b"], st, C)

    def s_Null(self, n, st, C):
        return [("next", st, None)]

    def s_Decl(self, n, st, C):
        states = [st]
        for v in n["v"]:
            nxt = []
            for s in states:
                for s2 in self.declare(v, s, C):
                    nxt.append(s2)
            states = nxt
        return [("next", s, None) for s in states]

    def declare(self, v, st, C):
        t = C.T[v["t"]] if v["t"] >= 0 else ""
        if "init" not in v or v["init"] is None:
            s = st.copy()
            self.bind(s, v["id"], self.default_of(s, t))
            return [s]
        isref = t.endswith("&")
        out = []
        if isref:
            for s, lv in self.lv(v["init"], st, C):
                s = s.copy()
                s.env[v["id"]] = lv
                out.append(s)
        else:
            for s, val in self.ev(v["init"], st, C):
                if val is THROWN:
                    continue
                s = s.copy()
                val = self.copy_val(s, val, t, v["init"])
                val = self.own_copy(s, val, t, v["id"], C.fn.get("body"), "bind" in v and self.binds_written(v, C))
                self.bind(s, v["id"], val)
                out.append(s)
        if "bind" in v:
            for s in out:
                base = self.rd(s, s.env[v["id"]])
                for i, b in enumerate(v["bind"]):
                    fname = self.bind_field(b, i)
                    s.env[b["id"]] = ("fld", base, fname)
        return out

    def binds_written(self, v, C):
        w = self.written_locals(C.fn["body"]) if C.fn.get("body") else ()
        return any(b["id"] in w for b in v["bind"])

    def bind_field(self, b, i):
        e = b.get("b")
        if e and e["k"] == "Mem":
            return e["n"]
        return ("first", "second")[i] if i < 2 else "#%d" % i

    def default_of(self, st, t):
        if STD_CONT.match(t) or (t in self.P.records):
            return V(self.new_obj(st, t))
        if STD_PTR.match(t):
            return NULL
        if STRING.match(t):
            return V(("str", ""))
        return V(("undef", None, "local"))

    def copy_val(self, st, val, t, init):
        return val

    def written_locals(self, body):
        """ids of the locals of a body whose fields are assigned through the variable itself"""
        key = id(body)
        r = self.wcache.get(key)
        if r is None:
            r = set()
            for n in walk(body):
                t = None
                if n["k"] == "Bin" and n["op"] in ("=", "+=", "-=", "|=", "&="):
                    t = n["x"]
                elif n["k"] == "Call" and n.get("f") and n["f"].get("n") == "operator=" and (n.get("o") or n.get("a")):
                    t = n.get("o") or n["a"][0]
                top = t
                while t and t["k"] in ("Mem", "Cast"):
                    if t["k"] == "Mem" and t.get("fk") != "field":
                        t = None
                        break
                    t = t["o"] if t["k"] == "Mem" else t["e"]
                if t and t["k"] == "Ref" and t.get("id") is not None and \
                        (t.get("fk") == "binding" or t is not top and t.get("fk") in ("param", "local", "slocal")):
                    r.add(t["id"])
            self.wcache[key] = (body, r)
            return r
        return r[1]

    def own_copy(self, s, v, t, lid, body, force=False):
        """the value of a by-value local: an object of its own when the code assigns its fields"""
        t = t.strip()
        t = t[6:] if t.startswith("const ") else t
        if len(v) != 1 or next(iter(v))[0] != "src" or t.endswith(("*", "&")) or body is None:
            return v
        if not force and lid not in self.written_locals(body):
            return v
        a = next(iter(v))
        pair = STD_PAIR.match(t)
        if t not in self.P.records and not pair or STD_CONT.match(t) or STD_PTR.match(t) or STRING.match(t):
            return v
        o = self.new_obj(s, t)
        names = ["first", "second"] if pair else [x["n"] for x in self.P.all_fields(t)]
        for x in names:
            s.heap[o][x] = self.getf1(s, a, x)
        return V(o)

    def s_If(self, n, st, C):
        sts = [st]
        if n.get("init"):
            sts = [r[1] for r in self.exec(n["init"], st, C) if r[0] == "next"]
        out = []
        for s0 in sts:
            s1s = [s0]
            if n.get("cv"):
                s1s = self.declare(n["cv"], s0, C)
            for s1 in s1s:
                if n.get("ccv") is not None:
                    out += self.exec(n["then"] if n["ccv"] else n["else"], s1, C)
                    continue
                for s, v in self.ev(n["c"], s1, C):
                    if v is THROWN:
                        out.append(("throw", s, None))
                        continue
                    for pol, br in ((True, "then"), (False, "else")):
                        s2 = self.assume(s, v, pol)
                        if s2 is None:
                            continue
                        s2 = s2.copy()
                        out += self.exec(n[br], s2, C)
        return out

    def s_Return(self, n, st, C):
        if n["e"] is None:
            return [("ret", st, VOID)]
        if C.retref:
            return [("ret", s, lv) for s, lv in self.lv(n["e"], st, C)]
        out = []
        for s, v in self.ev(n["e"], st, C):
            if v is THROWN:
                out.append(("throw", s, None))
            else:
                out.append(("ret", s, v))
        return out

    def s_Break(self, n, st, C):
        return [("brk", st, None)]

    def s_Continue(self, n, st, C):
        return [("cont", st, None)]

    def s_Throw(self, n, st, C):
        return [("throw", st, None)]

    def s_Goto(self, n, st, C):
        return [("next", st, None)]

    def s_Label(self, n, st, C):
        return self.exec(n["b"], st, C)

    def s_Try(self, n, st, C):
        out = []
        for r in self.exec(n["b"], st, C):
            if r[0] == "throw":
                for h in n["h"]:
                    s = r[1].copy()
                    if "var" in h:
                        self.bind(s, h["var"]["id"], V(("unk", self.fresh(), "exc")))
                    out += self.exec(h["b"], s, C)
            else:
                out.append(r)
        return out

    def s_Switch(self, n, st, C):
        sts = [st]
        if n.get("init"):
            sts = [r[1] for r in self.exec(n["init"], st, C) if r[0] == "next"]
        # flatten body
        items = []

        def flat(x):
            while x is not None and x["k"] in ("Case", "Default"):
                items.append(("lab", x))
                x = x["b"]
            items.append(("st", x))

        b = n["b"]
        for x in (b["b"] if b and b["k"] == "Block" else [b]):
            flat(x)
        out = []
        for s0 in sts:
            for s, v in self.ev(n["c"], s0, C):
                if v is THROWN:
                    continue
                neg = s
                hasdef = None
                entries = []
                for i, (k, x) in enumerate(items):
                    if k != "lab":
                        continue
                    if x["k"] == "Default":
                        hasdef = i
                        continue
                    cvv = None
                    for _, cvv in self.ev(x["v"], s, C):
                        break
                    cond = self.cmp("==", v, cvv)
                    if neg is None:
                        continue
                    s2 = self.assume(neg, cond, True)
                    if s2 is not None:
                        entries.append((i, s2))
                    neg = self.assume(neg, cond, False)
                if neg is not None:
                    entries.append((hasdef, neg))
                for i, s2 in entries:
                    if i is None:
                        out.append(("next", s2, None))
                        continue
                    res = self.seq([x for k, x in items[i:] if k == "st" and x is not None], s2.copy(), C)
                    for r in res:
                        if r[0] == "brk":
                            out.append(("next", r[1], None))
                        else:
                            out.append(r)
        return out

    # loops -----------------------------------------------------------
    def loop_out(self, res, st0, depthpc, C=None, n=None):
        out = []
        if C is not None:
            self.note_early(res, st0, C, n)
        for r in res:
            if r[0] in ("next", "cont"):
                out.append(("next", self.leave_loop(r[1], depthpc), None))
            elif r[0] == "brk":
                s = self.leave_loop(r[1], depthpc)
                s.trace = s.trace + (("break", r[1].pc),)
                out.append(("next", s, None))
            elif r[0] == "ret":
                s = r[1].copy()
                s.trace = s.trace + (("return-in-loop", s.pc),)
                out.append((r[0], s) + tuple(r[2:]))
            else:
                out.append(r)
        return out

    MARKS = ("break", "return-in-loop", "again")

    def note_early(self, res, st0, C, n):
        """a loop over elements that does something to them and is left before the last one"""
        ways = {r[0] for r in res if r[0] == "brk" or r[0] == "ret" and C.T[C.fn["ret"]] == "void"} if "ret" in C.fn else set()
        if not ways:
            return
        for r in res:
            if r[0] == "brk" or r[0] in ways:
                self.P.breaks.setdefault(C.fn["qn"], (C.fn.where, "break" if r[0] == "brk" else "return"))
        # the body never comes to its end: no second element is ever looked at
        eff = all(r[0] in ways for r in res)
        for r in res:
            if r[0] not in ("next", "cont") or eff:
                continue
            s = r[1]
            eff = [e for e in s.trace if e[0] not in self.MARKS] != [e for e in st0.trace if e[0] not in self.MARKS] or \
                any(s.heap.get(k, {}) != v for k, v in st0.heap.items()) or any(k[0] != "new" and k not in st0.heap for k in s.heap)
        if eff:
            for w in ways:
                self.P.early.setdefault(C.fn["qn"], (C.fn.where, "break" if w == "brk" else "return"))

    def leave_loop(self, st, pc0):
        s = st.copy()
        s.hist = s.hist + tuple(c for c in s.pc[len(pc0):] if c not in s.hist)
        s.pc = pc0
        return s

    def s_RangeFor(self, n, st, C):
        out = []
        ranges = []
        bf = self.P.funcs.get(n["begin"]["id"]) if n.get("begin") else None
        for s, lv in self.lv(n["range"], st, C):
            cont = self.rd(s, lv)
            if bf is not None and bf.get("body") and not n["begin"].get("cls", "").startswith(("std::", "llvm::")):
                # a class with its own begin(): iterate over what it iterates over
                for s2, v in self.run(bf, s, cont, []):
                    if v is THROWN:
                        continue
                    if isinstance(v, tuple):
                        v = self.rd(s2, v)
                    v = frozenset(x for a in v for x in (a[1] if a[0] == "it" else (a,)))
                    ranges.append((s2, ("val", v), v))
            else:
                ranges.append((s, lv, cont))
        for s, lv, cont in ranges:
            s = s.copy()
            pc0 = s.pc
            il = [a for a in cont if a[0] == "new" and "#list" in s.heap.get(a, {})]
            if il and len(cont) == 1:
                # a braced list: one iteration per element, in order
                live = [s]
                for e in [x for x in s.heap[il[0]]["#list"]]:
                    nxt = []
                    for s1 in live:
                        s1 = s1.copy()
                        self.bindloop(n["var"], s1, e, C)
                        for r in self.exec(n["b"], s1, C):
                            if r[0] in ("next", "cont"):
                                nxt.append(r[1])
                            elif r[0] == "brk":
                                self.P.breaks.setdefault(C.fn["qn"], (C.fn.where, "break"))
                                out.append(("next", r[1], None))
                            else:
                                out.append(r)
                    live = nxt
                out += [("next", x, None) for x in live]
                continue
            view = None
            if len(cont) == 1:
                a = next(iter(cont))
                if a[0] == "op" and a[1] == "|" and len(a[2]) == 2:
                    for b in a[2][1]:
                        if b[0] == "glob" and b[1] in ("std::ranges::views::values", "std::ranges::views::keys"):
                            view = "second" if b[1].endswith("values") else "first"
                    if view:
                        cont = a[2][0]
            elt = self.elem(s, cont)
            s1 = s.copy()
            s1.pc = s1.pc + ((("each", cont), True),)
            if view:
                if C.T[n["var"]["t"]].endswith("&"):
                    s1.env[n["var"]["id"]] = ("fld", elt, view)
                else:
                    self.bind(s1, n["var"]["id"], self.getf(s1, elt, view))
                out += self.loop_out(self.exec(n["b"], s1, C), s, pc0, C, n)
                continue
            if not elt and all(a[0] == "new" for a in cont) and cont:
                out.append(("next", s, None))
                continue
            self.bindloop(n["var"], s1, elt, C, cont)
            first = self.exec(n["b"], s1, C)
            out += self.loop_out(first, s, pc0, C, n)
            if getattr(self.client, "twice", False):
                e2 = self.elem(s, cont, "[+]")
                for r in first:
                    if r[0] in ("next", "cont") and e2:
                        s2 = r[1].copy()
                        s2.trace += (("again", repr(cont)),)
                        self.bindloop(n["var"], s2, e2, C)
                        out += self.loop_out(self.exec(n["b"], s2, C), s, pc0)
        return out

    def bindloop(self, var, s1, elt, C, cont=None):
        t = C.T[var["t"]]
        if t.endswith("&") and cont is not None:
            s1.env[var["id"]] = ("fld", cont, "[]")
        else:
            if not t.endswith("&"):
                elt = self.own_copy(s1, elt, t, var["id"], C.fn.get("body"), "bind" in var and self.binds_written(var, C))
            self.bind(s1, var["id"], elt)
        if "bind" in var:
            for i, b in enumerate(var["bind"]):
                s1.env[b["id"]] = ("fld", elt, self.bind_field(b, i))

    def elem(self, st, cont, key="[]"):
        out = set()
        for a in cont:
            if a[0] == "it":
                out |= self.elem(st, a[1], "[]" if a[2] != "off" else "[+]")
            else:
                out |= self.getf1(st, a, key)
        return frozenset(out)

    def unrolled(self, n, sts, C):
        """a loop whose condition is decided by the state: one round after another"""
        out = []
        for _ in range(self.client.unroll + 1):
            nxt = []
            for s in sts:
                for s1, v in (self.ev(n["c"], s, C) if n.get("c") else [(s, INT(1))]):
                    if v is THROWN:
                        continue
                    done, go = self.assume(s1, v, False), self.assume(s1, v, True)
                    if done is not None:
                        out.append(("next", done, None))
                    if go is None:
                        continue
                    for r in self.exec(n["b"], go.copy(), C):
                        if r[0] in ("next", "cont"):
                            nxt += [t for t, _v in self.ev(n["inc"], r[1], C)] if n.get("inc") else [r[1]]
                        else:
                            out.append(("next", r[1], None) if r[0] == "brk" else r)
            sts = nxt
            if not sts:
                break
        return out

    def s_For(self, n, st, C):
        out = []
        if getattr(self.client, "unroll", 0):
            for r0 in self.exec(n["init"], st, C) if n.get("init") else [("next", st, None)]:
                out += self.unrolled(n, [r0[1]], C) if r0[0] == "next" else [r0]
            return out
        for r0 in self.exec(n["init"], st, C):
            if r0[0] != "next":
                out.append(r0)
                continue
            s = r0[1].copy()
            pc0 = s.pc
            # generic iteration: loop variables become "current"
            ids = set()
            if n["init"] and n["init"]["k"] == "Decl":
                ids |= {v["id"] for v in n["init"]["v"]}
            from facts import walk
            for x in walk(n["inc"] or {}):
                if x["k"] == "Ref" and x.get("id") is not None:
                    ids.add(x["id"])
            modified = set()
            # "for (x = f(); x; x = f())" is a while loop over f(): x is what f() gives
            again = None
            if n["init"] and n["init"]["k"] == "Decl" and len(n["init"]["v"]) == 1 and (n["inc"] or {}).get("k") == "Bin" and n["inc"]["op"] == "=" and \
                    n["init"]["v"][0].get("init") and unlined(n["init"]["v"][0]["init"]) == unlined(n["inc"]["r"] if "r" in n["inc"] else n["inc"].get("y")):
                again = n["init"]["v"][0]["id"]
            for x in walk([n["inc"] or {}]):
                if (x["k"] == "Un" and x["op"] in ("++", "--")) or (x["k"] == "Bin" and x["op"] in ("+=", "-=", "=")):
                    for y in walk(x.get("e") or x.get("x")):
                        if y["k"] == "Ref" and y.get("id") is not None:
                            modified.add(y["id"])
                if x["k"] == "Call" and x.get("op") in ("++", "--", "+=", "="):
                    for y in walk(x.get("o") or {}):
                        if y["k"] == "Ref" and y.get("id") is not None:
                            modified.add(y["id"])
                    for y in walk((x.get("a") or [])[:1]):
                        if y["k"] == "Ref" and y.get("id") is not None:
                            modified.add(y["id"])
            modified.discard(again)
            # an index visits every number only if it goes up by one
            unit = not any(x["k"] == "Bin" and (x["op"] == "=" or x["op"] == "+=" and peel(x.get("y") or {}).get("v") not in (1, "1") or x["op"] == "-=") or
                           x["k"] == "Un" and x["op"] == "--" for x in walk([n["inc"] or {}]))
            for lid in modified:
                lv = s.env.get(lid)
                if lv is None:
                    continue
                v = self.rd(s, lv)
                nv = set()
                for a in v:
                    if a[0] == "it":
                        nv.add(("it", a[1], "cur" if a[2] in ("begin", "cur", "rbegin") else "off"))
                    elif a[0] == "int":
                        nv.add(("idx", a[1]) if unit else ("idx?", repr(a)))
                    else:
                        nv.add(("idx?", repr(a)))
                self.wr(s, lv, frozenset(nv))
            s.pc = s.pc + ((("each", V(("for", n["l"]))), True),)
            sts = [(s, TRUE)]
            if n["c"]:
                sts = self.ev(n["c"], s, C)
            for s1, v in sts:
                if v is THROWN:
                    continue
                s2 = self.assume(s1, v, True)
                if s2 is None:
                    out.append(("next", self.leave_loop(s1, pc0), None))
                    continue
                s2 = s2.copy()
                for lid in modified:
                    if s.env.get(lid) is not None and len(self.rd(s2, s.env[lid])) == 1:
                        (a,) = self.rd(s2, s.env[lid])
                        if a[0] == "idx" and any(x["k"] == "Bin" and x["op"] in ("+", "-") for x in walk(n["c"])) and self.short_bound(v, a):
                            self.wr(s2, s.env[lid], V(a + ("short",)))
                            # neighbours compared, or the last one dealt with after the loop, is another matter
                            if not any(x["k"] == "Bin" and x["op"] == "+" and any(y["k"] == "Ref" and y.get("id") == lid for y in walk(x)) for x in walk(n["b"])):
                                self.P.early.setdefault(C.fn["qn"], (C.fn.where, "condition that is false one early"))
                first = self.exec(n["b"], s2, C)
                if again is not None and getattr(self.client, "exact_while", False):
                    nxt = []
                    for r in first:
                        if r[0] not in ("next", "cont"):
                            nxt.append(r)
                            continue
                        for t0, v in self.ev(n["inc"], r[1], C):
                            for t, v in self.ev(n["c"], t0, C):
                                t = self.assume(t, v, False) if v is not THROWN else None
                                if t is not None:
                                    nxt.append(("next", t, None))
                    first = nxt
                if n["c"] and getattr(self.client, "stops", False):
                    # a loop also stops when its condition is false for another reason than its variables
                    nxt = []
                    for r in first:
                        if r[0] not in ("next", "cont"):
                            nxt.append(r)
                            continue
                        for t, v in self.ev(n["c"], r[1], C):
                            if v is THROWN:
                                continue
                            t1, t2 = self.assume(t, v, True), self.assume(t, v, False)
                            if t1 is not None:
                                nxt.append(("next", t1, None))
                            if t2 is not None:
                                nxt.append(("brk", t2, None))
                    first = nxt
                out += self.loop_out(first, s, pc0, C if modified else None, n)
                if getattr(self.client, "twice", False):
                    for r in first:
                        if r[0] not in ("next", "cont"):
                            continue
                        t = r[1].copy()
                        moved = False
                        for lid in modified:
                            lv = t.env.get(lid)
                            v = self.rd(t, lv) if lv is not None else VOID
                            if any(x[0] == "it" for x in v):
                                self.wr(t, lv, frozenset(("it",) + x[1:2] + ("off",) + x[3:] if x[0] == "it" else x for x in v))
                                t.trace += (("again", repr(v)),)
                                moved = True
                        if moved:
                            out += self.loop_out(self.exec(n["b"], t, C), s, pc0)
        return out

    def short_bound(self, v, idx):
        """the loop's condition v stops before the last element: i + 1 < n, i < n - 1"""
        for a in v:
            if a[0] in ("nz",) and self.short_bound(a[1], idx):
                return True
            if a[0] == "op" and a[1] in ("&", "&&", "&=", "static_cast") and any(self.short_bound(x, idx) for x in a[2]):
                return True
            if a[0] == "op" and a[1] in ("<", "!=") and len(a[2]) == 2:
                x, y = a[2]
                if len(x) == 1 and len(y) == 1:
                    (x,), (y,) = x, y
                    if x[0] == "idx" and len(x) == 2 and x[1] > idx[1] and x != idx:
                        return True
                    if x == idx and y[0] == "op" and y[1] == "-" and any(b[0] == "int" and b[1] > 0 for b in y[2][1]):
                        return True
        return False

    def s_While(self, n, st, C):
        pc0 = st.pc
        out = []
        sts = [st]
        if getattr(self.client, "unroll", 0) and not n.get("cv"):
            return self.unrolled(n, sts, C)
        if n.get("cv"):
            sts = self.declare(n["cv"], st, C)
        for s0 in sts:
            for s, v in self.ev(n["c"], s0, C):
                if v is THROWN:
                    continue
                s3 = self.assume(s, v, False)
                if s3 is not None:
                    out.append(("next", self.leave_loop(s3, pc0), None))
                s2 = self.assume(s, v, True)
                if s2 is None:
                    continue
                s2 = s2.copy()
                s2.pc = s2.pc + ((("each", V(("while", n["l"]))), True),)
                res = self.exec(n["b"], s2, C)
                if getattr(self.client, "exact_while", False):
                    # the loop is left where its condition no longer holds
                    nxt = []
                    for r in res:
                        if r[0] not in ("next", "cont"):
                            nxt.append(r)
                            continue
                        for t0 in (self.declare(n["cv"], r[1], C) if n.get("cv") else [r[1]]):
                            for t, v in self.ev(n["c"], t0, C):
                                t = self.assume(t, v, False) if v is not THROWN else None
                                if t is not None:
                                    nxt.append(("next", t, None))
                    res = nxt
                out += self.loop_out(res, s, pc0)
        return out

    def s_Do(self, n, st, C):
        pc0 = st.pc
        return self.loop_out(self.exec(n["b"], st.copy(), C), st, pc0)

    # ------------------------------------------------------------ lvalue expressions
    def lv(self, n, st, C):
        k = n["k"]
        if k == "Ref":
            if n["fk"] in ("param", "local", "slocal", "binding"):
                lv = st.env.get(n["id"])
                if lv is None:
                    return [(st, ("val", V(("free", n["n"]))))]
                return [(st, lv)]
            return [(s, ("val", v)) for s, v in self.ev(n, st, C)]
        if k == "Mem" and n["fk"] == "field":
            out = []
            for s, o in self.ev(n["o"], st, C):
                if o is THROWN:
                    continue
                out.append((s, ("fld", o, n["n"])))
            return out
        if k == "Un" and n["op"] == "*":
            out = []
            for s, v in self.ev(n["e"], st, C):
                if v is THROWN:
                    continue
                a = list(v)
                if len(a) == 1 and a[0][0] == "ref":
                    out.append((s, a[0][1]))
                else:
                    out.append((s, self.deref_lv(v)))
            return out
        if k == "Call":
            r = self.call(n, st, C, want_lv=True)
            return r
        if k == "Cast":
            return self.lv(n["e"], st, C) if not C.T[n["t"]].endswith("*") else [(s, ("val", v)) for s, v in self.ev(n, st, C)]
        if k == "Sub":
            out = []
            for s, b in self.ev(n["x"], st, C):
                if b is THROWN:
                    continue
                for s2, i in self.ev(n["y"], s, C):
                    out.append((s2, ("fld", b, self.idxkey(i))))
            return out
        if k == "Cond":
            out = []
            for s, c in self.ev(n["c"], st, C):
                if c is THROWN:
                    continue
                for pol, x in ((True, "x"), (False, "y")):
                    s2 = self.assume(s, c, pol)
                    if s2 is not None:
                        out += self.lv(n[x], s2, C)
            return out
        if k == "Bin" and n["op"] in ("=", "+=", "-=", "|=", "&=", ","):
            out = []
            for s, v in self.ev(n, st, C):
                if n["op"] == ",":
                    out.append((s, ("val", v)))
                else:
                    out += self.lv(n["x"], s, C)
            return out
        return [(s, ("val", v)) for s, v in self.ev(n, st, C) if v is not THROWN]

    def deref_lv(self, v):
        its = [a for a in v if a[0] == "it"]
        if its and len(its) == len(v):
            if len(its) == 1:
                return ("fld", its[0][1], "[]" if its[0][2] not in ("off",) else "[+]")
        return ("val", v)

    def idxkey(self, i):
        if len(i) == 1:
            (a,) = i
            if a[0] == "int":
                return "[%d]" % a[1]
            if a[0] == "idx":
                return "[-]" if len(a) == 3 else "[]" if a[1] == 0 else "[+]"
            if a[0] == "str":
                return "[%s]" % a[1]
        return "[]"

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, C):
        """list of (state, value)"""
        if n is None:
            return [(st, VOID)]
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            return self.e_default(n, st, C)
        return m(n, st, C)

    def evs(self, ns, st, C):
        res = [(st, [])]
        for x in ns:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(x, s, C):
                    if v is THROWN:
                        continue
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def e_default(self, n, st, C):
        kids = [x for x in n.get("a", []) if isinstance(x, dict)]
        if "e" in n and isinstance(n["e"], dict):
            kids.append(n["e"])
        out = []
        for s, vs in self.evs(kids, st, C):
            out.append((s, op(n["k"], *vs)))
        return out

    def e_Int(self, n, st, C):
        return [(st, INT(int(n["v"])))]

    def e_Bool(self, n, st, C):
        return [(st, TRUE if n["v"] else FALSE)]

    def e_Float(self, n, st, C):
        return [(st, V(("flt", n["v"])))]

    def e_Str(self, n, st, C):
        return [(st, V(("str", n["v"])))]

    def e_NullPtr(self, n, st, C):
        return [(st, NULL)]

    def e_ZeroInit(self, n, st, C):
        t = C.T[n["t"]]
        if t == "bool":
            return [(st, FALSE)]
        if t.endswith("*"):
            return [(st, NULL)]
        if STD_CONT.match(t):
            s = st.copy()
            return [(s, V(self.new_obj(s, t)))]
        return [(st, INT(0))]

    def e_This(self, n, st, C):
        return [(st, C.this)]

    def e_Ref(self, n, st, C):
        fk = n["fk"]
        if fk in ("param", "local", "slocal", "binding"):
            lv = st.env.get(n["id"])
            if lv is None:
                if "cv" in n:
                    return [(st, INT(int(n["cv"])))]
                return [(st, V(("free", n["n"])))]
            return [(st, self.rd(st, lv))]
        if fk == "enum":
            return [(st, V(("enum", n["qn"], int(n["v"]))))]
        if fk == "func":
            return [(st, V(("fn", n["callee"]["id"], n["callee"]["qn"])))]
        if fk == "global":
            if "cv" in n:
                return [(st, INT(int(n["cv"])))]
            g = self.P.globals.get(n["qn"])
            if g is not None and self.client is not None and getattr(self.client, "inline_globals", True):
                i = g.get("init")
                lit = i
                while lit is not None and lit.get("k") == "Ctor" and len(lit["a"]) >= 1 and "basic_string" in g["type"]:
                    lit = lit["a"][0]
                if lit is not None and lit.get("k") in ("Str", "Int", "Bool"):
                    return self.ev(lit, st, C)
            return [(st, V(("glob", n["qn"])))]
        return [(st, V(("unk", 0, n["n"])))]

    def e_Mem(self, n, st, C):
        if n["fk"] == "field":
            out = []
            for s, o in self.ev(n["o"], st, C):
                if o is THROWN:
                    out.append((s, o))
                    continue
                out.append((s, self.getf(s, self.through_ptr(s, o), n["n"])))
            return out
        if n["fk"] in ("global", "slocal"):
            return self.e_Ref(dict(n, fk="global"), st, C)
        if n["fk"] == "enum":
            return [(st, V(("enum", n["qn"], int(n["v"]))))]
        return [(st, V(("unk", 0, n["n"])))]

    def through_ptr(self, st, o):
        """(*it).x / it->x : the element"""
        if any(a[0] == "it" for a in o):
            out = set()
            for a in o:
                if a[0] == "it":
                    out |= self.elem(st, frozenset([a]))
                else:
                    out.add(a)
            return frozenset(out)
        if any(a[0] == "ref" for a in o):
            out = set()
            for a in o:
                if a[0] == "ref":
                    out |= self.rd(st, a[1])
                else:
                    out.add(a)
            return frozenset(out)
        return o

    def e_Bin(self, n, st, C):
        o = n["op"]
        if o in ("&&", "||"):
            out = []
            for s, a in self.ev(n["x"], st, C):
                if a is THROWN:
                    out.append((s, a))
                    continue
                stop = o == "||"
                s2 = self.assume(s, a, stop)
                if s2 is not None:
                    out.append((s2, TRUE if stop else FALSE))
                s3 = self.assume(s, a, not stop)
                if s3 is not None:
                    out += self.ev(n["y"], s3, C)
            return out
        if o == ",":
            out = []
            for s, a in self.ev(n["x"], st, C):
                out += self.ev(n["y"], s, C)
            return out
        if o == "=":
            out = []
            for s, v in self.ev(n["y"], st, C):
                if v is THROWN:
                    out.append((s, v))
                    continue
                for s2, lv in self.lv(n["x"], s, C):
                    s2 = s2.copy()
                    self.wr(s2, lv, v)
                    out.append((s2, v))
            return out
        if o.endswith("=") and o not in ("==", "!=", "<=", ">="):
            out = []
            for s, v in self.ev(n["y"], st, C):
                if v is THROWN:
                    out.append((s, v))
                    continue
                for s2, lv in self.lv(n["x"], s, C):
                    s2 = s2.copy()
                    cur = self.rd(s2, lv)
                    nv = self.binop(o[:-1], cur, v)
                    self.wr(s2, lv, nv)
                    out.append((s2, nv))
            return out
        out = []
        for s, (a, b) in self.evs([n["x"], n["y"]], st, C):
            out.append((s, self.binop(o, a, b)))
        return out

    def binop(self, o, a, b):
        if o in ("==", "!="):
            return self.cmp(o, a, b)
        ia = next(iter(a)) if len(a) == 1 else None
        ib = next(iter(b)) if len(b) == 1 else None
        if ia and ib and ia[0] == "int" and ib[0] == "int":
            x, y = ia[1], ib[1]
            try:
                if o == "+": return INT(x + y)
                if o == "-": return INT(x - y)
                if o == "*": return INT(x * y)
                if o == "|": return INT(x | y)
                if o == "&": return INT(x & y)
                if o == "^": return INT(x ^ y)
                if o == "<<": return INT(x << y)
                if o == ">>": return INT(x >> y)
                if o == "<": return TRUE if x < y else FALSE
                if o == ">": return TRUE if x > y else FALSE
                if o == "<=": return TRUE if x <= y else FALSE
                if o == ">=": return TRUE if x >= y else FALSE
            except Exception:
                pass
        if ia and ia[0] == "idx" and ib and ib[0] == "int" and o in ("+", "-"):
            return V(("idx", ia[1] + (ib[1] if o == "+" else -ib[1])))
        if ia and ia[0] in ("it",) and o in ("+", "-"):
            return V(("it", ia[1], "off"))
        if o in ("&", "|"):
            for p, q, w in ((ia, b, a), (ib, a, b)):
                if p and p[0] == "bool":
                    return w if p[1] == (o == "|") else q
        return self.mkop(o, a, b)

    def mkop(self, name, *vs):
        v = op(name, *vs)
        if self.depth(v) > 12:
            return V(("dep", frozenset(self.labels(None, *vs))))
        return v

    def depth(self, v, lim=13):
        if lim <= 0:
            return 0
        d = 0
        for a in v:
            if a[0] == "op":
                for x in a[2]:
                    d = max(d, 1 + self.depth(x, lim - 1))
        return d

    def cmp(self, o, a, b):
        def const(v):
            if len(v) != 1:
                return None
            (x,) = v
            if x[0] in ("int", "bool", "null", "str"):
                return (x[0], x[1] if len(x) > 1 else None)
            if x[0] == "enum":
                return ("int", x[2])
            if x[0] == "gaddr":
                return x
            if x[0] in ("new", "lam"):
                return ("obj", x)
            return None
        ca, cb = const(a), const(b)
        if ca and cb:
            if ca[0] == "bool":
                ca = ("int", int(ca[1]))
            if cb[0] == "bool":
                cb = ("int", int(cb[1]))
            if not (ca[0] == "obj" and cb[0] == "obj" and ca != cb and STRING.match(str(ca[1][2]))):
                r = ca == cb
                return (TRUE if r else FALSE) if o == "==" else (FALSE if r else TRUE)
        if self.client is not None and hasattr(self.client, "on_compare"):
            self.client.on_compare(self, o, a, b)
        return op(o, a, b)

    def e_Un(self, n, st, C):
        o = n["op"]
        out = []
        if o in ("++", "--"):
            for s, lv in self.lv(n["e"], st, C):
                s = s.copy()
                v = self.rd(s, lv)
                nv = self.binop("+" if o == "++" else "-", v, INT(1))
                if any(a[0] in ("undef", "op", "src", "dep") for a in v):
                    nv = self.mkop("+" if o == "++" else "-", v, INT(1))
                self.wr(s, lv, nv)
                out.append((s, v if n.get("post") else nv))
            return out
        if o == "&":
            g = n["e"]
            if g["k"] == "Ref" and g.get("fk") == "global" and g.get("qn"):
                return [(st, V(("gaddr", g["qn"])))]
            for s, lv in self.lv(n["e"], st, C):
                if lv[0] == "val":
                    out.append((s, lv[1]))
                elif lv[0] == "fld" and lv[2] != "[]":
                    # address of a field: objects are their own address
                    v = self.rd(s, lv)
                    out.append((s, V(("ref", lv)) if not any(a[0] == "new" for a in v) else v))
                else:
                    v = self.rd(s, lv)
                    out.append((s, v if any(a[0] in ("new", "src") for a in v) and lv[0] != "cell" else (v if any(a[0] == "new" for a in v) else V(("ref", lv)))))
            return out
        for s, v in self.ev(n["e"], st, C):
            if v is THROWN:
                out.append((s, v))
                continue
            if o == "!":
                t = self.truth(v)
                if t is not None:
                    out.append((s, FALSE if t else TRUE))
                else:
                    out.append((s, op("!", v)))
            elif o == "*":
                out.append((s, self.through_ptr(s, v)))
            elif o == "-":
                if len(v) == 1 and next(iter(v))[0] == "int":
                    out.append((s, INT(-next(iter(v))[1])))
                else:
                    out.append((s, self.mkop("neg", v)))
            else:
                out.append((s, self.mkop("u" + o, v)))
        return out

    def e_Cond(self, n, st, C):
        out = []
        for s, c in self.ev(n["c"], st, C):
            if c is THROWN:
                out.append((s, c))
                continue
            for pol, x in ((True, "x"), (False, "y")):
                s2 = self.assume(s, c, pol)
                if s2 is not None:
                    out += self.ev(n[x], s2, C)
        return out

    def e_Cast(self, n, st, C):
        t = C.T[n["t"]]
        out = []
        for s, v in self.ev(n["e"], st, C):
            if v is THROWN or n["ck"] != "dynamic":
                out.append((s, v))
                continue
            out += self.dyncast(s, v, t.rstrip("*& ").replace("const ", "").strip())
        return out

    def dyncast(self, s, v, cls):
        out = []
        t = self.isa(s, v, cls)
        if t is True:
            return [(s, v)]
        if t is False:
            return [(s, NULL)]
        cond = op("isa", v, V(("str", cls)))
        s2 = self.assume(s, cond, True)
        if s2 is not None:
            out.append((s2, v))
        s3 = self.assume(s, cond, False)
        if s3 is not None:
            out.append((s3, NULL))
        return out

    def dyncls(self, a):
        if a[0] == "new":
            return a[2]
        if self.client is not None and hasattr(self.client, "class_of"):
            return self.client.class_of(a)
        return None

    def isa(self, s, v, cls):
        res = None
        for a in v:
            if a[0] == "null":
                r = False
            else:
                c = self.dyncls(a)
                if c is None:
                    return None
                r = self.P.derives(c, cls)
            if res is None:
                res = r
            elif res != r:
                return None
        return res

    def e_Sub(self, n, st, C):
        out = []
        for s, (b, i) in self.evs([n["x"], n["y"]], st, C):
            out.append((s, self.index(s, b, i)))
        return out

    def index(self, s, b, i):
        k = self.idxkey(i)
        out = set()
        for a in b:
            if a[0] == "it":
                out |= self.index(s, a[1], i)
                continue
            h = s.heap.get(a, {})
            if a[0] == "new":
                if k in h:
                    out |= h[k]
                elif k != "[]" and "#list" in h and re.match(r"\[\d+\]$", k) and int(k[1:-1]) < len(h["#list"]):
                    out |= h["#list"][int(k[1:-1])]
                else:
                    out |= h.get("[]", VOID)
            else:
                out |= self.getf1(s, a, k)
        return frozenset(out)

    def e_InitList(self, n, st, C):
        out = []
        for s, vs in self.evs(n["a"], st, C):
            if "fields" in n:
                s = s.copy()
                o = self.new_obj(s, n["rec"])
                for f, v in zip(n["fields"], vs):
                    s.heap[o][f] = v
                out.append((s, V(o)))
            elif C.T[n["t"]].endswith("*") or not re.search(r"[\[<]", C.T[n["t"]]):
                out.append((s, vs[0] if vs else INT(0)))
            else:
                s = s.copy()
                o = self.new_obj(s, C.T[n["t"]])
                s.heap[o]["[]"] = frozenset().union(*vs) if vs else VOID
                s.heap[o]["#list"] = list(vs)
                out.append((s, V(o)))
        return out

    def e_Lambda(self, n, st, C):
        lid = self.fresh()
        env = {}
        s = st.copy()
        for c in n["caps"]:
            if c.get("init") is not None:
                for s1, v in self.ev(c["init"], s, C):
                    s = s1.copy()
                    self.bind(s, c["id"], v)
                    break
                env[c["id"]] = s.env[c["id"]]
                continue
            if "id" in c and c["id"] in st.env:
                env[c["id"]] = st.env[c["id"]]
        self.lams[lid] = (n, env, C)
        return [(s, V(("lam", lid)))]

    def e_Throw(self, n, st, C):
        return [(st, THROWN)]

    def e_Sizeof(self, n, st, C):
        return [(st, INT(int(n["cv"])) if "cv" in n else op("sizeof"))]

    def e_New(self, n, st, C):
        out = []
        if n["init"] is None:
            s = st.copy()
            return [(s, V(self.new_obj(s, C.T[n["ot"]])))]
        return self.ev(n["init"], st, C)

    def e_Delete(self, n, st, C):
        return [(s, VOID) for s, v in self.ev(n["e"], st, C)]

    def e_Ctor(self, n, st, C):
        cls = n["f"]["cls"]
        out = []
        for s, vs in self.evs(n["a"], st, C):
            out += self.construct(s, n["f"], cls, vs, C, n)
        return out

    def construct(self, s, f, cls, vs, C, n=None):
        if n is not None and self.client is not None and hasattr(self.client, "on_ctor"):
            r = self.client.on_ctor(self, s, n, cls, vs, C)
            if r is not None:
                return r
        if STRING.match(cls):
            if not vs:
                return [(s, V(("str", "")))]
            if len(vs) >= 1 and n is not None and (n.get("copy") or len(vs) <= 2):
                return [(s, vs[0])]
            return [(s, op("string", *vs))]
        if STD_PTR.match(cls) or "__normal_iterator" in cls or "_iterator" in cls.split("<")[0]:
            return [(s, vs[0] if vs else NULL)]
        if cls.startswith("std::function<") or cls.startswith("std::basic_string_view") or cls.startswith("std::move_only_function"):
            return [(s, vs[0] if vs else NULL)]
        if cls.startswith("std::pair<") or cls.startswith("std::tuple<"):
            if len(vs) == 1 and (n is not None and n.get("copy") or
                                 vs[0] and all(a[0] == "new" and str(a[2]).startswith(cls[:9]) for a in vs[0])):
                return [(s, vs[0])]
            s = s.copy()
            o = self.new_obj(s, cls)
            for i, v in enumerate(vs):
                s.heap[o][("first", "second")[i] if i < 2 else "#%d" % i] = v
            return [(s, V(o))]
        if STD_CONT.match(cls) or cls.startswith("std::") or cls.startswith("llvm::"):
            if len(vs) == 1 and n is not None and n.get("copy"):
                if n.get("elid"):
                    return [(s, vs[0])]
                return self.copy_obj(s, vs[0], cls)
            s = s.copy()
            o = self.new_obj(s, cls)
            if STD_CONT.match(cls):
                elts = VOID
                its = [v for v in vs if any(a[0] == "it" for a in v)]
                if len(its) >= 2:
                    full = all(a[2] in ("begin", "rbegin") for a in its[0] if a[0] == "it")
                    elts = self.elem(s, its[0]) if full else frozenset(
                        x for a in its[0] if a[0] == "it" for x in self.elem(s, frozenset([("it", a[1], "off")])))
                elif n is not None and n.get("stdinit") and vs:
                    for a in vs[0]:
                        if a[0] == "new":
                            elts |= s.heap.get(a, {}).get("[]", VOID)
                            if "#list" in s.heap.get(a, {}):
                                s.heap[o]["#list"] = s.heap[a]["#list"]
                elif len(vs) == 2:
                    elts = vs[1]
                s.heap[o]["[]"] = elts
            else:
                for i, v in enumerate(vs):
                    s.heap[o]["#%d" % i] = v
            return [(s, V(o))]
        fn = self.P.funcs.get(f["id"])
        if fn is None and n is not None and n.get("copy") and len(vs) == 1:
            if n.get("elid"):
                return [(s, vs[0])]
            return self.copy_obj(s, vs[0], cls)
        if fn is not None and (fn.get("copyctor") or fn.get("movector")) and fn.get("implicit") and len(vs) == 1:
            if n is not None and n.get("elid"):
                return [(s, vs[0])]
            if not fn.get("copyctor") :
                return [(s, vs[0])]
        s = s.copy()
        o = self.new_obj(s, cls)
        if fn is None:
            for i, v in enumerate(vs):
                s.heap[o]["#%d" % i] = v
            return [(s, V(o))]
        return [(s2, V(o)) for s2 in self.run_ctor(fn, s, V(o), vs)]

    def copy_obj(self, s, v, cls):
        s = s.copy()
        o = self.new_obj(s, cls)
        for a in v:
            if a[0] == "new":
                for k, x in s.heap.get(a, {}).items():
                    if k == "#list":
                        s.heap[o][k] = x
                    else:
                        s.heap[o][k] = s.heap[o].get(k, VOID) | x
            elif a[0] == "src":
                if STD_CONT.match(cls):
                    s.heap[o]["[]"] = s.heap[o].get("[]", VOID) | self.getf1(s, a, "[]")
                else:
                    return [(s, v)]
            else:
                return [(s, v)]
        return [(s, V(o))]

    def run_ctor(self, fn, st, this, vs):
        if fn["id"] in [x[0] for x in self.stack] and self.stack.count((fn["id"], this)) > 1:
            return [st]
        C = Ctx(fn, this)
        s = st.copy()
        saved = s.env
        s.env = {}
        self.bind_params(fn, s, vs)
        self.stack.append((fn["id"], this))
        self.visited.add(fn["id"])
        states = [s]
        try:
            for i in fn.get("inits", []):
                nxt = []
                for s in states:
                    if "field" in i:
                        for s2, v in self.ev_init(i["e"], s, C, i):
                            if v is THROWN:
                                continue
                            s2 = s2.copy()
                            self.setf(s2, this, i["field"], v)
                            nxt.append(s2)
                    else:
                        e = i["e"]
                        if e is not None and e["k"] == "InhCtor":
                            bf = self.P.funcs.get(e["f"]["id"])
                            nxt += self.run_ctor(bf, s, this, vs) if bf is not None else [s]
                            continue
                        if e is None or e["k"] not in ("Ctor",):
                            nxt.append(s)
                            continue
                        for s2, vs2 in self.evs(e["a"], s, C):
                            bf = self.P.funcs.get(e["f"]["id"])
                            if (bf is None or (bf.get("copyctor") and bf.get("implicit") and bf.get("body") is None)) \
                                    and len(vs2) == 1 and self.is_copy_of(e, C):
                                nxt += self.implicit_copy(s2, this, e["f"]["cls"], vs2[0])
                            elif bf is None:
                                nxt.append(s2)
                            else:
                                nxt += self.run_ctor(bf, s2, this, vs2)
                states = nxt
            out = []
            for s in states:
                for r in self.exec(fn["body"], s, C):
                    if r[0] in ("next", "ret"):
                        out.append(r[1])
        finally:
            self.stack.pop()
        res = []
        for s in out:
            s = s.copy()
            s.env = dict(saved)
            res.append(s)
        return res

    def is_copy_of(self, e, C):
        cls, a = e["f"]["cls"], e["a"][0]
        if cls not in self.P.records or not a or a.get("t", -1) < 0:
            return False
        t = C.T[a["t"]].replace("const ", "").rstrip("& ")
        return self.P.derives(t, cls)

    def implicit_copy(self, s, this, cls, v):
        """memberwise copy, with the written copy constructors of the bases"""
        states = [s.copy()]
        for b in self.P.records[cls].get("bases", []):
            b = b if isinstance(b, str) else b.get("id") or b.get("n")
            if b not in self.P.records:
                continue
            ct = [self.P.funcs[m["id"]] for m in self.P.records[b]["methods"]
                  if m.get("kind") == "ctor" and m["id"] in self.P.funcs and self.P.funcs[m["id"]].get("copyctor")
                  and not (self.P.funcs[m["id"]].get("implicit") and self.P.funcs[m["id"]].get("body") is None)]
            nxt = []
            for s in states:
                nxt += self.run_ctor(ct[0], s, this, [v]) if ct else self.implicit_copy(s, this, b, v)
            states = nxt
        for s in states:
            for fld in self.P.records[cls]["fields"]:
                self.setf(s, this, fld["n"], self.getf(s, v, fld["n"]))
        return states

    def ev_init(self, e, s, C, i):
        if e is None:
            return [(s, VOID)]
        return self.ev(e, s, C)

    def bind_params(self, fn, s, vs):
        for i, p in enumerate(fn["params"]):
            if i < len(vs):
                v = vs[i]
                if isinstance(v, tuple) and v and v[0] in ("cell", "fld", "val"):
                    s.env[p["id"]] = v
                else:
                    self.bind(s, p["id"], v)
            elif p.get("dflt") is not None and p["id"] not in s.env:
                v = V(("dflt", fn["id"], i))
                if p["dflt"]["k"] in ("Int", "Bool", "NullPtr", "ZeroInit", "Float", "Str", "Cast", "Un"):
                    C = Ctx(fn, VOID)
                    for _, v in self.ev(p["dflt"], s, C):
                        break
                self.bind(s, p["id"], v)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, C):
        return self.call(n, st, C, want_lv=False)

    def call(self, n, st, C, want_lv):
        self.calls += 1
        f = n.get("f")
        out = []
        # object and arguments; arguments bound to reference parameters keep their lvalue
        objs = [(st, None)]
        if n.get("o") is not None:
            objs = []
            for s, lv in self.lv(n["o"], st, C):
                objs.append((s, lv))
        fn = self.P.funcs.get(f["id"]) if f else None
        for s0, olv in objs:
            argsets = [(s0, [])]
            for i, x in enumerate(n["a"]):
                nxt = []
                byref = fn is not None and i < len(fn["params"]) and fn["T"][fn["params"][i]["t"]].endswith("&")
                for s, acc in argsets:
                    if byref or (f and fn is None and x is not None and x["k"] in ("Ref",)):
                        for s2, lv in self.lv(x, s, C):
                            nxt.append((s2, acc + [lv]))
                    else:
                        for s2, v in self.ev(x, s, C):
                            if v is THROWN:
                                out.append((s2, THROWN))
                                continue
                            nxt.append((s2, acc + [("val", v)]))
                argsets = nxt
            for s, lvs in argsets:
                o = None
                if olv is not None:
                    o = self.rd(s, olv)
                    if o == NULL and n.get("arrow"):
                        # a member call through a null pointer: no defined continuation
                        if self.client is not None and hasattr(self.client, "on_nullcall"):
                            self.client.on_nullcall(self, s, n, f, C)
                        continue
                vs = [self.rd(s, lv) for lv in lvs]
                if f is not None and f["n"] == "operator()" and o is not None and len(o) == 1 and \
                        next(iter(o))[0] in ("lam", "fn"):
                    r = self.apply(s, next(iter(o)), vs, lvs)
                    if r is not None:
                        out += r
                        continue
                if f is None:
                    out += self.call_indirect(n, s, C, vs, lvs)
                    continue
                if self.client is not None:
                    if hasattr(self.client, "note"):
                        s = self.client.note(self, s, n, f, o, vs) or s
                    r = self.client.on_call(self, s, n, f, o, vs, C, olv, lvs)
                    if r is not None:
                        out += r
                        continue
                out += self.do_call(n, s, C, f, fn, o, olv, vs, lvs, want_lv)
        if want_lv:
            return [(s, v if isinstance(v, tuple) and v and v[0] in ("cell", "fld", "val") else ("val", v))
                    for s, v in out if v is not THROWN]
        return [(s, self.rd(s, v) if isinstance(v, tuple) and v and v[0] in ("cell", "fld", "val") else v)
                for s, v in out]

    def call_indirect(self, n, s, C, vs, lvs):
        out = []
        for s1, fv in (self.ev(n["fe"], s, C) if n.get("fe") else [(s, VOID)]):
            done = False
            if fv is not THROWN and len(fv) == 1:
                (a,) = fv
                r = self.apply(s1, a, vs, lvs)
                if r is not None:
                    out += r
                    done = True
            if not done:
                out.append((s1, op("icall", fv if fv is not THROWN else VOID, *vs)))
        return out

    def apply(self, s, a, vs, lvs=None):
        """call a closure / function value"""
        if a[0] == "lam":
            n, env, C0 = self.lams[a[1]]
            return self.run_lambda(n, env, C0, s, vs, lvs)
        if a[0] == "fn":
            fn = self.P.funcs.get(a[1])
            if fn is not None:
                return self.run(fn, s, VOID, vs)
        return None

    def run_lambda(self, n, env, C0, st, vs, lvs=None):
        body, params, fid = n.get("body"), n.get("params"), n.get("id")
        if n.get("insts"):
            body, params, fid = n["insts"][0]["body"], n["insts"][0]["params"], n["insts"][0]["id"]
        if body is None or len(self.stack) > self.max_depth or [x[0] for x in self.stack].count(fid) >= 2:
            return [(st, op("lambda", *vs))]
        s = st.copy()
        saved = s.env
        s.env = dict(saved)
        s.env.update(env)
        C = Ctx(C0.fn, C0.this)
        C.T = C0.T
        for i, p in enumerate(params):
            if i < len(vs):
                t = C.T[p["t"]]
                if lvs is not None and t.endswith("&") and lvs[i][0] != "val":
                    s.env[p["id"]] = lvs[i]
                else:
                    self.bind(s, p["id"], self.own_copy(s, vs[i], t, p["id"], body) if lvs is not None else vs[i])
        self.stack.append((fid, None))
        try:
            res = self.exec(body, s, C)
        finally:
            self.stack.pop()
        return self.finish(res, saved)

    def finish(self, res, saved, noret=False):
        out = []
        for r in res:
            if r[0] == "throw":
                s = r[1].copy()
                s.env = dict(saved)
                out.append((s, THROWN))
            elif r[0] in ("next", "ret"):
                s = r[1].copy()
                s.env = dict(saved)
                out.append((s, r[2] if r[0] == "ret" else VOID))
        return out

    def run(self, fn, st, this, vs, lvs=None):
        """interpret a function body: list of (state, return value)"""
        C = Ctx(fn, this)
        s = st.copy()
        saved = s.env
        s.env = {}
        args = []
        for i, p in enumerate(fn["params"]):
            if i >= len(vs):
                break
            if lvs is not None and fn["T"][p["t"]].endswith("&") and lvs[i][0] != "val":
                args.append(lvs[i])
            else:
                args.append(vs[i])
        self.bind_params(fn, s, args)
        self.stack.append((fn["id"], this))
        self.visited.add(fn["id"])
        try:
            res = self.exec(fn["body"], s, C)
        finally:
            self.stack.pop()
        out = self.finish(res, saved)
        return self.merge(out, st) if len(out) > 3 else out

    def merge(self, out, st0):
        """merge the exits of a call whose visible effects are equal; the conditions that
        distinguish them survive as a disjunction"""
        groups = []
        n = len(st0.pc)
        cells = st0.store.keys()
        for s, v in out:
            for g in groups:
                s2, v2, alts = g
                if v is v2 or (v is not THROWN and v2 is not THROWN and v == v2):
                    if s.heap == s2.heap and s.trace == s2.trace and all(s.store.get(c) == s2.store.get(c) for c in cells):
                        alts.append((s.pc, s.hist))
                        break
            else:
                groups.append([s, v, [(s.pc, s.hist)]])
        if len(groups) == len(out):
            return out
        res = []
        for s, v, alts in groups:
            if len(alts) > 1:
                s = s.copy()
                common = [c for c in alts[0][0] if all(c in a[0] for a in alts[1:])]
                ch = [c for c in alts[0][1] if all(c in a[1] for a in alts[1:])]
                rest = []
                for pc, h in alts:
                    r = tuple(c for c in pc + h if c not in common and c not in ch)
                    if r not in rest:
                        rest.append(r)
                s.pc = tuple(common)
                s.hist = tuple(ch)
                if all(rest):
                    s.hist = s.hist + ((("or", tuple(rest)), True),)
            res.append((s, v))
        return res

    def do_call(self, n, s, C, f, fn, o, olv, vs, lvs, want_lv):
        cls = f.get("cls", "")
        name = f["n"]
        if f["qn"] == "codon::assertionFailure":   # ends the process
            return [(s, THROWN)]
        r = self.std_call(n, s, C, f, cls, name, o, olv, vs, lvs)
        if r is not None:
            return r
        if name == "operator=" and len(vs) == 1 and olv is not None and (
                fn is None or fn.get("body") is None or fn.get("implicit")) and cls in self.P.records:
            s = s.copy()
            if olv[0] != "val":
                self.wr(s, olv, vs[0])
            else:
                for k in [x["n"] for x in self.P.all_fields(cls)]:
                    self.setf(s, o, k, self.getf(s, vs[0], k))
            return [(s, o)]
        # virtual dispatch
        target = fn
        if f.get("virt") and not n.get("qual") and o is not None:
            tgts = set()
            exact = True
            for a in o:
                c = self.dyncls(a)
                if c is None:
                    exact = False
                    break
                m = self.P.find_override(c, f["id"])
                if m is None or m.get("pure"):
                    exact = False
                    break
                tgts.add(m["id"])
            if exact and len(tgts) == 1:
                target = self.P.funcs.get(tgts.pop())
                if target is None:
                    return [(s, self.opaque(f, o, vs))]
            else:
                if self.client is not None and hasattr(self.client, "on_virtual"):
                    r = self.client.on_virtual(self, s, n, f, o, vs)
                    if r is not None:
                        return r
                return [(s, self.opaque(f, o, vs))]
        if target is None or target.get("body") is None:
            return [(s, self.opaque(f, o, vs))]
        if target.get("noret"):
            return [(s, THROWN)]
        ids = [x[0] for x in self.stack]
        lim = getattr(self.client, "rec_limit", 1) if self.client is not None else 1
        if len(self.stack) > self.max_depth or ids.count(target["id"]) >= lim + (1 if target["id"] != (ids[-1] if ids else None) else 0):
            if self.client is not None and hasattr(self.client, "on_recursion"):
                self.client.on_recursion(self, s, n, f, o, vs)
            return [(s, self.opaque(f, o, vs))]
        if self.client is not None and hasattr(self.client, "should_inline") and not self.client.should_inline(target, f, o, vs):
            return [(s, self.opaque(f, o, vs))]
        return self.run(target, s, o if o is not None else VOID, vs, lvs)

    def opaque(self, f, o, vs):
        return self.mkop(f["qn"], *(([o] if o is not None else []) + vs))

    def coll(self, s, v):
        """container objects behind value"""
        return v

    def std_call(self, n, s, C, f, cls, name, o, olv, vs, lvs):
        qn = f["qn"]
        if not (qn.startswith("std::") or qn.startswith("__gnu_cxx::") or qn.startswith("llvm::") or cls.startswith("std::") or cls.startswith("llvm::")):
            return None
        if name in ("llvm_unreachable_internal", "terminate", "abort", "exit", "__throw_bad_function_call"):
            return [(s, THROWN)]
        sop = n.get("op")
        # --- free functions
        if o is None:
            return self.std_free(n, s, C, f, qn, name, vs, lvs, sop)
        base = cls
        # --- iterators
        if any(a[0] == "it" for a in o):
            if sop in ("*", "->") or name in ("base",):
                if name == "base":
                    return [(s, o)]
                its = [a for a in o if a[0] == "it"]
                if len(its) == 1 and sop == "*":
                    return [(s, ("fld", its[0][1], "[]" if its[0][2] != "off" else "[+]"))]
                return [(s, self.elem(s, o))]
            if sop in ("++", "--", "+=", "-="):
                s = s.copy()
                nv = frozenset(("it", a[1], "off" if sop != "++" or a[2] != "cur" else "cur") if a[0] == "it" else a for a in o)
                if olv is not None:
                    self.wr(s, olv, nv)
                return [(s, o if vs and sop in ("++", "--") else nv)]
            if sop in ("+", "-"):
                return [(s, frozenset(("it", a[1], "off") if a[0] == "it" else a for a in o))]
            if sop in ("==", "!="):
                return [(s, self.itcmp(sop, o, vs[0]))]
            if sop == "=":
                s = s.copy()
                self.wr(s, olv, vs[0])
                return [(s, vs[0])]
        # --- smart pointers, optional
        if STD_PTR.match(cls):
            if sop in ("*", "->") or name in ("get", "value", "lock", "release"):
                return [(s, o)]
            if name in ("operator bool", "has_value"):
                return [(s, o)]
            if sop == "=" or name in ("reset", "emplace"):
                s = s.copy()
                if olv is not None:
                    self.wr(s, olv, vs[0] if vs else NULL)
                return [(s, vs[0] if vs else NULL)]
            if name == "value_or":
                return [(s, o | vs[0])]
        if cls.startswith("std::function<"):
            if name == "operator()":
                out = []
                for a in o:
                    r = self.apply(s, a, vs, lvs)
                    if r is None:
                        return [(s, op("icall", o, *vs))]
                    out += r
                return out
            if name == "operator bool":
                return [(s, o)]
            if sop == "=":
                s = s.copy()
                self.wr(s, olv, vs[0])
                return [(s, vs[0])]
        if cls.startswith("lambda@") or (len(o) == 1 and next(iter(o))[0] == "lam" and name == "operator()"):
            r = self.apply(s, next(iter(o)), vs, lvs)
            if r is not None:
                return r
        if name == "operator()" and len(o) == 1 and next(iter(o))[0] == "glob" and str(next(iter(o))[1]).startswith("std::ranges::"):
            algo = next(iter(o))[1].split("::")[-1]
            if vs and any(a[0] == "it" for a in vs[0]):
                avs = list(vs)
            elif vs:
                avs = [V(("it", vs[0], "begin")), V(("it", vs[0], "end"))] + list(vs[1:])
            else:
                avs = []
            r = self.std_algo(n, s, C, f, algo, avs) if avs else None
            if r is not None:
                return r
        # --- strings
        if STRING.match(cls) or cls.startswith("std::basic_string_view"):
            if sop in ("=",) or name in ("assign",):
                s = s.copy()
                self.wr(s, olv, vs[0])
                return [(s, vs[0])]
            if sop == "+=" or name in ("append", "push_back"):
                s = s.copy()
                nv = self.mkop("+", o, vs[0])
                self.wr(s, olv, nv)
                return [(s, nv)]
            if name in ("c_str", "data", "str", "operator basic_string_view"):
                return [(s, o)]
            if name in ("empty",):
                t = [a for a in o if a[0] == "str"]
                if len(t) == len(o) == 1:
                    return [(s, TRUE if t[0][1] == "" else FALSE)]
                return [(s, op("empty", o))]
            if name in ("size", "length"):
                return [(s, op("size", o))]
            if name == "clear":
                s = s.copy()
                self.wr(s, olv, V(("str", "")))
                return [(s, VOID)]
            return [(s, self.mkop("str." + name, o, *vs))]
        if cls.startswith("std::pair<") or cls.startswith("std::tuple<"):
            if sop == "=":
                s = s.copy()
                self.wr(s, olv, vs[0])
                return [(s, vs[0])]
        # --- containers
        if STD_CONT.match(cls) or cls.startswith("std::_") or cls.startswith("llvm::"):
            return self.std_container(n, s, C, f, cls, name, o, olv, vs, lvs, sop)
        if ITER.search(cls.split("<")[0]) and sop in ("++", "--"):
            return [(s, o)]
        if sop == "=" and vs:
            s = s.copy()
            if olv is not None:
                self.wr(s, olv, vs[0])
            return [(s, vs[0])]
        return [(s, self.mkop(qn, o, *vs))]

    def itcmp(self, sop, a, b):
        """comparison of iterators: cur != end is open (one generic iteration)"""
        ea = {(x[1], x[2]) for x in a if x[0] == "it"}
        eb = {(x[1], x[2]) for x in b if x[0] == "it"}
        kinds = {x[1] for x in ea} | {x[1] for x in eb}
        if "found" in kinds:
            fv = a if any(x[1] == "found" for x in ea) else b
            r = op("found", fv)
            return r if sop == "!=" else op("!", r)
        if len(ea) == 1 and len(eb) == 1:
            (x,), (y,) = ea, eb
            if x[0] == y[0] and {x[1], y[1]} == {"begin", "end"} and sop in ("==", "!="):
                r = op("empty", x[0])
                return r if sop == "==" else op("!", r)
        return op(sop, a, b)

    def std_container(self, n, s, C, f, cls, name, o, olv, vs, lvs, sop):
        if name in ("begin", "cbegin"):
            return [(s, V(("it", o, "begin")))]
        if name in ("rbegin", "crbegin"):
            return [(s, V(("it", o, "rbegin")))]
        if name in ("end", "cend", "rend", "crend"):
            return [(s, V(("it", o, "end")))]
        if name in ("size", "length"):
            if len(o) == 1:
                (a,) = o
                h = s.heap.get(a, {})
                if a[0] == "new" and not h.get("[]", VOID):
                    return [(s, INT(0))]
            return [(s, op("size", o))]
        if name == "empty":
            if len(o) == 1:
                (a,) = o
                h = s.heap.get(a, {})
                if a[0] == "new" and not h.get("[]", VOID):
                    return [(s, TRUE)]
            return [(s, op("empty", o))]
        if name in ("push_back", "push_front", "emplace_back", "emplace", "insert", "push", "emplace_front", "append",
                    "insert_or_assign", "try_emplace", "assign"):
            s = s.copy()
            its = [v for v in vs if any(a[0] == "it" for a in v)]
            if name == "assign":
                self.setf(s, o, "[]", VOID)
            for a in o:
                s.heap.setdefault(a, {}).pop("#list", None) if a in s.heap else None
            if len(its) >= 3 or (len(its) == 2 and name in ("insert", "append", "assign") and len(vs) == 2):
                b = its[-2]
                bb = frozenset(("it", a[1], "off") if a[0] == "it" and a[2] == "off" else a for a in b)
                el = self.elem(s, bb)
                self.addelt(s, o, el)
                return [(s, VOID)]
            if is_map(cls):
                if name in ("emplace", "try_emplace", "insert_or_assign") and len(vs) >= 2:
                    p = self.new_obj(s, "std::pair<>")
                    s.heap[p]["first"] = vs[0]
                    s.heap[p]["second"] = vs[1]
                    self.addelt(s, o, V(p))
                    return [(s, VOID)]
                self.addelt(s, o, vs[-1])
                return [(s, VOID)]
            args = [v for v in vs if not any(a[0] == "it" for a in v)] or vs
            if name in ("emplace_back", "emplace", "emplace_front") and (len(args) > 1 or self.elem_is_record(cls)) and args:
                m = re.match(r"^std::\w+<(.*)$", cls)
                et = self.elem_type(cls)
                p = self.new_obj(s, et)
                if et.startswith("std::pair<") or et.startswith("std::tuple<"):
                    for i, v in enumerate(args):
                        s.heap[p][("first", "second")[i] if i < 2 else "#%d" % i] = v
                    v = V(p)
                elif et.startswith("std::unique_ptr") or et.startswith("std::shared_ptr"):
                    v = args[0]
                elif len(args) == 1 and (any(x[0] in ("new", "src") for x in args[0]) or
                                         n.get("a") and n["a"][-1] and n["a"][-1].get("t", -1) >= 0 and C.T[n["a"][-1]["t"]].replace("const ", "").rstrip("&* ") == et):
                    v = args[0]
                else:
                    ct = self.find_ctor(et, len(args))
                    if ct is not None:
                        sts = self.run_ctor(ct, s, V(p), args)
                        if sts:
                            s = sts[0]
                    else:
                        for i, v in enumerate(args):
                            s.heap[p]["#%d" % i] = v
                    v = V(p)
                self.addelt(s, o, v)
                return [(s, VOID)]
            v = args[-1] if args else VOID
            if any(a[0] == "new" and "#list" in s.heap.get(a, {}) for a in v) and name in ("insert", "append"):
                v = self.elem(s, v)
            self.addelt(s, o, v)
            return [(s, VOID)]
        if name in ("clear",):
            s = s.copy()
            self.setf(s, o, "[]", VOID)
            for a in o:
                s.heap.get(a, {}).pop("#list", None)
            return [(s, VOID)]
        if name in ("front", "back", "top", "operator[]", "at", "lookup"):
            if is_map(cls) and name in ("operator[]", "at", "lookup"):
                return [(s, self.map_lv(s, o, vs[0], C))]
            if name == "front":
                return [(s, ("fld", o, "[0]") if any(a[0] == "src" for a in o) else ("fld", o, "[]"))]
            if name in ("back", "top"):
                return [(s, ("fld", o, "[-1]") if any(a[0] == "src" for a in o) else ("fld", o, "[]"))]
            k = self.idxkey(vs[0])
            if any(a[0] == "new" for a in o):
                out = self.index(s, o, vs[0])
                if k == "[]" or not all("#list" in s.heap.get(a, {}) or k in s.heap.get(a, {}) for a in o):
                    return [(s, ("fld", o, "[]" if k != "[]" and not all(k in s.heap.get(a, {}) for a in o) else k))]
                return [(s, out)]
            return [(s, ("fld", o, k))]
        if name in ("find", "lower_bound", "upper_bound"):
            return [(s, V(("it", o, "found", vs[0])))]
        if name in ("count", "contains"):
            return [(s, op("contains", o, vs[0]))]
        if sop == "=":
            s = s.copy()
            if olv is not None:
                r = []
                v = vs[0]
                if n["a"] and n["a"][0] is not None and n["a"][0]["k"] == "Ref" and "move" not in f.get("qn", ""):
                    for s2, v2 in self.copy_obj(s, v, cls):
                        s2 = s2.copy()
                        self.wr(s2, olv, v2)
                        r.append((s2, v2))
                    return r
                self.wr(s, olv, v)
            return [(s, vs[0])]
        if name in ("erase", "pop_back", "pop_front", "pop", "reserve", "resize", "remove", "sort", "unique", "shrink_to_fit", "swap", "reverse"):
            s = s.copy()
            s.trace = s.trace + (("cont", name, o, tuple(vs), s.pc),)
            if name == "resize" and len(vs) > 1:
                self.addelt(s, o, vs[1])
            return [(s, VOID)]
        if name == "data":
            return [(s, o)]
        return [(s, self.mkop(f["qn"], o, *vs))]

    def elem_type(self, cls):
        m = re.match(r"^(?:const )?(?:std|llvm)::\w+<(.*)>$", cls)
        if not m:
            return "?"
        t = m.group(1)
        d = 0
        for i, c in enumerate(t):
            if c in "<(":
                d += 1
            elif c in ">)":
                d -= 1
            elif c == "," and d == 0:
                return t[:i].strip()
        return t

    def elem_is_record(self, cls):
        t = self.elem_type(cls)
        return not t.endswith("*") and ("<" in t or t in self.P.records) and not STRING.match(t)

    def find_ctor(self, cls, n):
        r = self.P.records.get(cls)
        if not r:
            return None
        for m in r["methods"]:
            if m.get("kind") == "ctor" and m["np"] >= n and not m.get("implicit"):
                fn = self.P.funcs.get(m["id"])
                if fn is not None:
                    return fn
        return None

    def map_lv(self, s, o, k, C):
        """m[k]: read = every mapped value; a write adds a pair"""
        if all(a[0] == "src" for a in o):
            return ("fld", o, self.idxkey(k) if self.idxkey(k) != "[]" else "[k]", k)
        if any(a[0] == "new" for a in o):
            # one summary pair per key term
            key = "[" + repr(sorted(map(repr, k))) + "]"
            for a in o:
                h = s.heap.setdefault(a, {})
                if ("pair", key) not in h:
                    p = self.new_obj(s, "std::pair<>")
                    s.heap[p]["first"] = k
                    h[("pair", key)] = V(p)
                    old = VOID
                    for q in h.get("[]", VOID):
                        old |= self.getf1(s, q, "second")
                    s.heap[p]["second"] = old
                    h["[]"] = h.get("[]", VOID) | V(p)
                return ("fld", h[("pair", key)], "second")
        return ("val", self.mkop("lookup", o, k))

    def std_free(self, n, s, C, f, qn, name, vs, lvs, sop):
        if name in ("move", "forward", "ref", "cref", "addressof", "as_const", "static_pointer_cast", "to_address",
                    "const_pointer_cast", "exchange_", "get_temporary") and len(vs) == 1:
            return [(s, vs[0] if name != "ref" else (lvs[0] if lvs[0][0] != "val" else vs[0]))]
        if name in ("dynamic_pointer_cast",):
            t = C.T[n["t"]]
            m = re.search(r"shared_ptr<(.*)>", t)
            return self.dyncast(s, vs[0], m.group(1).strip() if m else t)
        if name in ("make_unique", "make_shared"):
            t = C.T[n["t"]]
            m = re.search(r"(?:unique_ptr|shared_ptr)<([^,<>]*(?:<.*>)?)", t)
            cls = (f.get("targs") or ["?"])[0]
            ct = None
            r = self.P.records.get(cls)
            s = s.copy()
            if r:
                for mm in r["methods"]:
                    if mm.get("kind") == "ctor" and mm["np"] >= len(vs) and not mm.get("implicit"):
                        fn = self.P.funcs.get(mm["id"])
                        if fn is not None and self.ctor_ok(fn, n, C, vs):
                            ct = fn
                            break
            if ct is None and len(vs) == 1 and r:
                at = C.T[n["a"][0]["t"]] if n["a"] and n["a"][0] and n["a"][0].get("t", -1) >= 0 else ""
                same = at.replace("const ", "").rstrip("& ") == cls
                for mm in r["methods"]:
                    if mm.get("kind") == "ctor" and mm["np"] == 1:
                        fn = self.P.funcs.get(mm["id"])
                        if fn is not None and fn.get("copyctor"):
                            ct = fn
                if ct is None and same:
                    o = self.new_obj(s, cls)
                    for fld in self.P.all_fields(cls):
                        s.heap[o][fld["n"]] = self.getf(s, vs[0], fld["n"])
                    return [(s, V(o))]
            if self.client is not None and hasattr(self.client, "on_ctor"):
                rr = self.client.on_ctor(self, s, {"f": {"cls": cls}, "l": n["l"], "mk": True}, cls, vs, C)
                if rr is not None:
                    return rr
            o = self.new_obj(s, cls)
            if ct is not None:
                return [(s2, V(o)) for s2 in self.run_ctor(ct, s, V(o), vs)]
            for i, v in enumerate(vs):
                s.heap[o]["#%d" % i] = v
            return [(s, V(o))]
        if name in ("make_pair", "make_tuple", "tie"):
            s = s.copy()
            o = self.new_obj(s, "std::pair<>")
            for i, v in enumerate(vs):
                s.heap[o][("first", "second")[i] if i < 2 else "#%d" % i] = v
            return [(s, V(o))]
        if name == "get" and f.get("targs") and len(vs) == 1:
            i = f["targs"][0]
            if i.isdigit():
                i = int(i)
                return [(s, ("fld", vs[0], ("first", "second")[i] if i < 2 else "#%d" % i))]
            return [(s, vs[0])]
        if name in ("get_if", "holds_alternative"):
            cond = op("alt", vs[0], V(("str", (f.get("targs") or ["?"])[0])))
            if name == "holds_alternative":
                return [(s, cond)]
            out = []
            s2 = self.assume(s, cond, True)
            if s2 is not None:
                out.append((s2, vs[0]))
            s3 = self.assume(s, cond, False)
            if s3 is not None:
                out.append((s3, NULL))
            return out
        if name in ("begin", "cbegin") and len(vs) == 1:
            return [(s, V(("it", vs[0], "begin")))]
        if name in ("end", "cend") and len(vs) == 1:
            return [(s, V(("it", vs[0], "end")))]
        if name in ("rbegin",) and len(vs) == 1:
            return [(s, V(("it", vs[0], "rbegin")))]
        if name in ("back_inserter", "inserter", "front_inserter"):
            return [(s, V(("ins", vs[0])))]
        if name in ("next", "prev"):
            return [(s, frozenset(("it", a[1], "off") if a[0] == "it" else a for a in vs[0]))]
        if name in ("for_each", "any_of", "all_of", "none_of", "find_if", "count_if", "equal", "transform", "copy",
                    "accumulate", "copy_if", "find_if_not", "partition", "remove_if", "mismatch", "sort", "stable_sort", "find", "count"):
            r = self.std_algo(n, s, C, f, name, vs)
            if r is not None:
                return r
        if sop in ("==", "!="):
            a, b = vs
            if any(x[0] == "it" for x in a) or any(x[0] == "it" for x in b):
                return [(s, self.itcmp(sop, a, b))]
            return [(s, self.cmp(sop, a, b))]
        if sop == "=":
            s = s.copy()
            self.wr(s, lvs[0], vs[1])
            return [(s, vs[1])]
        if sop in ("+", "-", "<", ">", "<=", ">=", "|", "&"):
            if sop in ("+", "-") and any(x[0] == "it" for x in vs[0]):
                return [(s, frozenset(("it", a[1], "off") if a[0] == "it" else a for a in vs[0]))]
            return [(s, self.binop(sop, vs[0], vs[1]))]
        if name == "swap" and len(vs) == 2:
            s = s.copy()
            self.wr(s, lvs[0], vs[1])
            self.wr(s, lvs[1], vs[0])
            return [(s, VOID)]
        if name == "exchange" and len(vs) == 2:
            s = s.copy()
            self.wr(s, lvs[0], vs[1])
            return [(s, vs[0])]
        if name in ("isa", "cast", "dyn_cast", "dyn_cast_or_null", "cast_or_null", "isa_and_nonnull", "dyn_cast_if_present") and f["qn"].startswith("llvm::"):
            cl = (f.get("targs") or ["?"])[0]
            if name in ("isa", "isa_and_nonnull"):
                return [(s, op("isa", vs[0], V(("str", cl))))]
            if name.startswith("cast"):
                return [(s, vs[0])]
            return self.dyncast(s, vs[0], cl)
        return [(s, self.mkop(qn, *vs))]

    def ctor_ok(self, fn, n, C, vs=()):
        """the constructor make_unique/shared selects: argument classes must fit"""
        for p, v in zip(fn["params"], vs):
            callee = bool(v) and all(a[0] in ("lam", "fn") for a in v)
            plain = bool(v) and all(a[0] in ("int", "bool", "float", "str") for a in v)
            pt = fn["T"][p["t"]].replace("const ", "").rstrip("&* ")
            if callee and pt in ("bool", "int", "long", "unsigned long", "double", "unsigned int", "std::string"):
                return False
            if plain and (pt.startswith(("std::function<", "(lambda")) or "(*)(" in pt):
                return False
        for p, a in zip(fn["params"], n["a"]):
            pt = fn["T"][p["t"]].replace("const ", "").rstrip("&* ")
            at = C.T[a["t"]].replace("const ", "").rstrip("&* ") if a and "t" in a and a["t"] >= 0 else "?"
            if fn["T"][p["t"]].rstrip().endswith("*") and at in self.P.records and not C.T[a["t"]].rstrip("& ").endswith(("*", "* const")):
                return False
            if pt in ("bool", "int", "long", "unsigned long", "double", "unsigned int") and at in self.P.records:
                return False
            if STRING.match(pt) and at in self.P.records and not at.startswith(("std::", "llvm::")):
                return False
            if pt == at or pt in ("bool", "int", "long", "unsigned long", "double", "unsigned int"):
                continue
            if pt in self.P.records and at in self.P.records and self.P.derives(at, pt):
                continue
            if pt.startswith("std::") and (at.startswith("std::") or at in ("?", "std::nullptr_t") or at.startswith("char") or at in self.P.records):
                if STD_CONT.match(pt) and at in self.P.records:
                    return False
                continue
            if at in ("std::nullptr_t", "?", "void"):
                continue
            if pt in self.P.records and at in self.P.records:
                return False
            if STD_CONT.match(at) and pt in self.P.records:
                return False
        return True

    def std_algo(self, n, s, C, f, name, vs):
        lam = None
        for v in vs:
            if len(v) == 1 and next(iter(v))[0] in ("lam", "fn"):
                lam = next(iter(v))
        first = vs[0] if vs else VOID
        isit = any(a[0] == "it" for a in first)
        if not isit:
            return None
        full = all(a[2] in ("begin", "rbegin", "cur") for a in first if a[0] == "it")
        it = first if full else frozenset(("it", a[1], "off") for a in first if a[0] == "it")
        elt = self.elem(s, it)
        pc0 = s.pc
        if name in ("find", "count"):
            return [(s, V(("it", frozenset(x for a in first if a[0] == "it" for x in a[1]), "found", vs[2])))]
        if name in ("sort", "stable_sort"):
            return [(s, VOID)]
        if name == "copy":
            dst = [a for a in vs[2] if a[0] == "ins"]
            s = s.copy()
            for a in dst:
                self.addelt(s, a[1], elt)
            return [(s, VOID)]
        if lam is None:
            if name == "equal" and len(vs) >= 3:
                return [(s, op("all", self.cmp("==", elt, self.elem(s, vs[2]))))]
            return None
        s1 = s.copy()
        s1.pc = s1.pc + ((("each", first), True),)
        if name == "equal" or name == "mismatch":
            args = [elt, self.elem(s, vs[2])]
        elif name == "accumulate":
            args = [vs[2], elt]
        elif name == "transform" and sum(1 for v in vs if any(a[0] == "it" for a in v)) >= 3 and not any(a[0] == "ins" for a in vs[2]):
            args = [elt, self.elem(s, vs[2])]
        else:
            args = [elt]
        lvs = None
        conts = [a for a in it if a[0] == "it"]
        if len(args) == 1 and len(conts) == 1 and name in ("for_each", "count_if", "any_of", "all_of", "none_of", "find_if", "remove_if"):
            lvs = [("fld", conts[0][1], "[]" if conts[0][2] != "off" else "[+]")]
        r = self.apply(s1, lam, args, lvs)
        if r is None:
            return None
        out = []
        for s2, v in r:
            if v is THROWN:
                out.append((s2, v))
                continue
            if isinstance(v, tuple):
                v = self.rd(s2, v)
            s3 = self.leave_loop(s2, pc0)
            if name in ("all_of", "any_of", "none_of") and getattr(self.client, "quantifiers", False):
                s2.trace = s2.trace + (("quant", name, first, v),)
            if name in ("all_of", "equal"):
                out.append((s2, v))
            elif name in ("any_of",):
                out.append((s2, v))
            elif name == "count_if" and self.truth(v) is not None:
                out.append((s3, INT(1) if self.truth(v) else INT(0)))
            elif name == "none_of":
                t = self.truth(v)
                out.append((s2, op("!", v) if t is None else (FALSE if t else TRUE)))
            elif name in ("transform",):
                for x in vs:
                    for a in x:
                        if a[0] == "ins":
                            self.addelt(s3, a[1], v)
                dst = vs[-2] if len(vs) >= 4 else VOID
                if len(dst) == 1 and next(iter(dst))[0] == "it" and next(iter(dst))[2] in ("begin", "cur") and full:
                    self.wr(s3, ("fld", next(iter(dst))[1], "[]"), v)       # written over a container
                out.append((s3, VOID))
            elif name == "copy_if":
                for x in vs:
                    for a in x:
                        if a[0] == "ins":
                            self.addelt(s3, a[1], elt)
                out.append((s3, VOID))
            elif name == "find_if":
                out.append((s3, V(("it", frozenset(x for a in first if a[0] == "it" for x in a[1]), "found", v))))
            else:
                out.append((s3, v))
        return out

    # ------------------------------------------------------------ labels
    def labels(self, st, *vals, _seen=None):
        """every source access path the values depend on"""
        seen = _seen if _seen is not None else set()
        out = set()
        for v in vals:
            if not isinstance(v, frozenset):
                continue
            for a in v:
                if a in seen:
                    continue
                seen.add(a)
                if a[0] == "src":
                    out.add(a)
                    if st is not None and a in st.heap:
                        for x in st.heap[a].values():
                            if isinstance(x, frozenset):
                                out |= self.labels(st, x, _seen=seen)
                elif a[0] == "op":
                    out |= self.labels(st, *a[2], _seen=seen)
                elif a[0] == "dep":
                    out |= set(a[1])
                elif a[0] == "new":
                    if st is not None:
                        for x in st.heap.get(a, {}).values():
                            if isinstance(x, frozenset):
                                out |= self.labels(st, x, _seen=seen)
                            elif isinstance(x, list):
                                out |= self.labels(st, *x, _seen=seen)
                elif a[0] == "it":
                    out |= self.labels(st, a[1], _seen=seen)
                elif a[0] == "ref":
                    if st is not None:
                        out |= self.labels(st, self.rd(st, a[1]), _seen=seen)
        return out


class _Thrown:
    def __repr__(self):
        return "THROWN"


THROWN = _Thrown()


class Ctx:
    __slots__ = ("fn", "this", "T", "retref")

    def __init__(self, fn, this):
        self.fn = fn
        self.this = this
        self.T = fn["T"]
        r = fn["T"][fn["ret"]] if "ret" in fn else ""
        self.retref = r.endswith("&")


class Client:
    inline_globals = True
    rec_limit = 1

    def on_call(self, ai, st, n, f, o, vs, C, olv, lvs):
        return None


def show(v, d=0):
    """readable form of a value"""
    if isinstance(v, tuple) and v and v[0] in ("cell", "fld", "val"):
        return "lv:" + str(v[0]) + ":" + (show(v[1]) if isinstance(v[1], frozenset) else "") + (str(v[2]) if len(v) > 2 else "")
    if not isinstance(v, frozenset):
        return repr(v)
    if d > 6:
        return "..."
    return "|".join(sorted(show1(a, d) for a in v)) or "{}"


def show1(a, d=0):
    if a[0] == "src":
        return ".".join((a[1],) + a[2])
    if a[0] == "op":
        return "%s(%s)" % (a[1].split("::")[-1], ", ".join(show(x, d + 1) for x in a[2]))
    if a[0] == "new":
        return "new#%d:%s" % (a[1], str(a[2]).split("::")[-1])
    if a[0] == "it":
        return "it(%s,%s)" % (show(a[1], d + 1), a[2])
    if a[0] in ("int", "bool", "str", "flt"):
        return repr(a[1])
    if a[0] == "enum":
        return a[1].split("::")[-1]
    if a[0] == "null":
        return "null"
    return ":".join(str(x) if not isinstance(x, (frozenset, tuple)) else "?" for x in a)


def show_pc(pc):
    out = []
    for a, p in pc:
        if a[0] == "nz":
            out.append(("" if p else "!") + show(a[1]))
        elif a[0] == "eq":
            out.append("%s%s%s" % (show(a[1]), "==" if p else "!=", show(a[2])))
        elif a[0] == "each":
            out.append("each(%s)" % show(a[1]))
        elif a[0] == "or":
            out.append("(" + " or ".join(show_pc(x) for x in a[1][:3]) + ")")
        else:
            out.append(str(a))
    return " && ".join(out)

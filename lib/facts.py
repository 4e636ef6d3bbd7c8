"""Build the extractor, extract facts for the translation units a check needs and
load them.  Everything is derived from /repo's current working tree on every run;
the only thing reused is a cache keyed by the content of every input."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TOOL_SRC = os.path.join(VERIF, "tool", "cxfacts.cpp")
LLVM18 = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """the analysis could not be carried out (neither pass nor violation)"""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def build_tool():
    key = sha(rd(TOOL_SRC))
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "cxfacts-" + key)
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    cmd = ["clang++-18", "-std=c++17", "-O0", "-fno-rtti", "-w", "-I" + LLVM18 + "/include",
           "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS",
           "-D__STDC_FORMAT_MACROS", TOOL_SRC, "-o", tmp,
           LLVM18 + "/lib/libclang-cpp.so.18.1", LLVM18 + "/lib/libLLVM.so.18.1",
           "-Wl,-rpath," + LLVM18 + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout.decode()[-4000:])
    os.rename(tmp, out)
    return out


_gen = None


def gen_config():
    """config.h as the build generates it (only version numbers)"""
    global _gen
    if _gen is None:
        _gen = gen_config0()
    return _gen


def gen_config0():
    d = os.path.join(CACHE, "gen")
    p = os.path.join(d, "codon", "config", "config.h")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    top = rd(os.path.join(REPO, "CMakeLists.txt")).decode()
    m = re.search(r'VERSION "([0-9.]+)"', top)
    ver = (m.group(1) if m else "0.0.0").split(".")
    ver += ["0"] * (3 - len(ver))
    src = rd(os.path.join(REPO, "cmake", "config.h.in")).decode()
    for k, v in (("PROJECT_VERSION_MAJOR", ver[0]), ("PROJECT_VERSION_MINOR", ver[1]),
                 ("PROJECT_VERSION_PATCH", ver[2]), ("PROJECT_VERSION", ".".join(ver))):
        src = src.replace("@%s@" % k, v)
    if not os.path.exists(p) or rd(p).decode() != src:
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(src)
        os.rename(tmp, p)
    return d


def cmake_list(var):
    top = rd(os.path.join(REPO, "CMakeLists.txt")).decode()
    top = re.sub(r"#[^\n]*", "", top)
    m = re.search(r"set\(%s[ \n]+([^)]*)\)" % var, top)
    if not m:
        raise AnalysisBroken("no set(%s ...) in CMakeLists.txt" % var)
    return m.group(1).split()


def compiler_files():
    """the .cpp files of the compiler that can be type-checked here"""
    skip = {"codon/parser/peg/peg.cpp", "codon/dsl/plugins.cpp"}
    return [f for f in cmake_list("CODON_CPPFILES") if f.endswith(".cpp") and f not in skip]


def runtime_files():
    skip = {"codon/runtime/lib.cpp", "codon/runtime/numpy/loops.cpp"}
    return [f for f in cmake_list("CODONRT_FILES") if f.endswith(".cpp") and f not in skip]


COMPAT = os.path.join(VERIF, "tool", "compat")


def flags(f):
    gen = gen_config()
    fl = ["-DFMT_SHARED", "-I" + gen, "-I" + REPO, "-I" + COMPAT + "/inc",
          "-isystem", "/usr/lib/llvm-20/include", "-std=gnu++20", "-fPIC", "-D_GNU_SOURCE",
          "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
    if f.endswith("cir/util/format.cpp"):
        fl += ["-include", COMPAT + "/format_fmt9.h"]
    if f.endswith("parser/ast/expr.cpp"):
        fl += ["-include", COMPAT + "/fast_float3.h"]
    if "codon/runtime/" in f:
        fl += ["-I" + REPO + "/codon/runtime", "-idirafter",
               "/usr/lib/gcc/x86_64-linux-gnu/13/include"]
    return fl


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for base, dirs, files in sorted(os.walk(os.path.join(REPO, "codon"))):
            dirs.sort()
            for n in sorted(files):
                if n.endswith((".h", ".hpp", ".inc", ".def")):
                    p = os.path.join(base, n)
                    h.update(p.encode())
                    h.update(rd(p))
        for n in sorted(os.listdir(COMPAT)):
            p = os.path.join(COMPAT, n)
            if os.path.isfile(p):
                h.update(rd(p))
        _hdr = h.hexdigest()
    return _hdr


def extract_one(tool, f):
    src = os.path.join(REPO, f)
    if not os.path.exists(src):
        raise AnalysisBroken("source file vanished: " + f)
    fl = flags(f)
    key = sha(os.path.basename(tool), header_hash(), rd(src), src, " ".join(fl))
    out = os.path.join(CACHE, "f-" + key + ".json")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([tool, os.path.join(REPO, "codon"), tmp, src, "--"] + fl,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(tmp):
            raise AnalysisBroken("cannot type-check %s:\n%s" % (f, r.stdout.decode()[-3000:]))
        os.rename(tmp, out)
    else:
        try:
            os.utime(out)
        except OSError:
            pass
    return out


class Func(dict):
    __slots__ = ()

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    @property
    def where(self):
        return "%s:%s" % (os.path.relpath(self["file"], REPO), self["l"])


class Program:
    def __init__(self):
        self.funcs = {}     # id -> Func
        self.by_qn = {}     # qualified name -> [Func]
        self.records = {}   # id -> record
        self.enums = {}
        self.globals = {}
        self.subs = None
        self.files = []
        self.breaks = {}    # functions with a loop over elements that may be left
        self.early = {}     # functions whose loops are left early (found while interpreting)

    def load(self, path, tu):
        with open(path) as f:
            d = json.load(f)
        T = d["types"]
        for fn in d["functions"]:
            fid = fn["id"]
            if fid in self.funcs:
                continue
            F = Func(fn)
            F["T"] = T
            F["tu"] = tu
            self.funcs[fid] = F
            self.by_qn.setdefault(F["qn"], []).append(F)
        for r in d["records"]:
            if r["id"] in self.records:
                continue
            r["T"] = T
            for x in r["fields"]:
                x["type"] = T[x["t"]]
            self.records[r["id"]] = r
        for e in d["enums"]:
            self.enums.setdefault(e["qn"], e)
        for g in d["globals"]:
            g["T"] = T
            g["type"] = T[g["t"]]
            self.globals.setdefault(g["qn"], g)
        self.files.append(tu)

    # ---- class hierarchy
    def bases(self, rid):
        r = self.records.get(rid)
        return r["bases"] if r else []

    def all_bases(self, rid):
        out, st = [], list(self.bases(rid))
        while st:
            b = st.pop(0)
            if b not in out:
                out.append(b)
                st.extend(self.bases(b))
        return out

    def subclasses(self, rid):
        if self.subs is None:
            self.subs = {}
            for r in self.records.values():
                for b in r["bases"]:
                    self.subs.setdefault(b, []).append(r["id"])
        out, st = [], list(self.subs.get(rid, []))
        while st:
            b = st.pop(0)
            if b not in out:
                out.append(b)
                st.extend(self.subs.get(b, []))
        return out

    def derives(self, rid, base):
        return rid == base or base in self.all_bases(rid)

    def all_fields(self, rid):
        out = []
        for b in self.bases(rid):
            out += self.all_fields(b)
        r = self.records.get(rid)
        if r:
            out += [dict(x, rec=rid) for x in r["fields"]]
        return out

    def find_override(self, rid, fid, name=None):
        """the function a virtual call to `fid` reaches on dynamic class `rid`"""
        cur = rid
        seen = set()
        while cur and cur not in seen:
            seen.add(cur)
            r = self.records.get(cur)
            if not r:
                return None
            for m in r["methods"]:
                if m["id"] == fid or self.overrides(m, fid):
                    return m
            nxt = None
            for b in r["bases"]:
                if self._has_method(b, fid):
                    nxt = b
                    break
            cur = nxt
        return None

    def _has_method(self, rid, fid):
        r = self.records.get(rid)
        if not r:
            return False
        for m in r["methods"]:
            if m["id"] == fid or self.overrides(m, fid):
                return True
        return any(self._has_method(b, fid) for b in r["bases"])

    def overrides(self, m, fid, _d=0):
        for o in m.get("ov", []):
            if o == fid:
                return True
            mm = self.method_by_id(o)
            if mm is not None and self.overrides(mm, fid, _d + 1):
                return True
        return False

    _mids = None

    def method_by_id(self, fid):
        if self._mids is None or len(self._mids) == 0:
            self._mids = {}
            for r in self.records.values():
                for m in r["methods"]:
                    self._mids[m["id"]] = m
                    m["rec"] = r["id"]
        return self._mids.get(fid)

    def fn(self, qn, n=None, pred=None):
        """the function(s) with this qualified name; fails when there is none"""
        L = [f for f in self.by_qn.get(qn, []) if pred is None or pred(f)]
        if not L:
            raise AnalysisBroken("anchor vanished: no function %s" % qn)
        return L

    def rec(self, rid):
        if rid not in self.records:
            raise AnalysisBroken("anchor vanished: no record %s" % rid)
        return self.records[rid]


def extract(files, jobs=8):
    tool = build_tool()
    os.makedirs(CACHE, exist_ok=True)
    files = list(dict.fromkeys(files))
    header_hash()
    gen_config()
    outs = {}
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        futs = {ex.submit(extract_one, tool, f): f for f in files}
        for fu in cf.as_completed(futs):
            outs[futs[fu]] = fu.result()
    return outs


def load(files):
    outs = extract(files)
    P = Program()
    for f in files:
        P.load(outs[f], f)
    return P


def walk(n):
    """all dict nodes below n (preorder)"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            st.extend(v for v in reversed(list(x.values())) if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


def trim_cache(limit=3 << 30):
    try:
        fs = [(os.path.getmtime(os.path.join(CACHE, n)), os.path.join(CACHE, n))
              for n in os.listdir(CACHE) if n.startswith("f-")]
        fs.sort()
        tot = sum(os.path.getsize(p) for _, p in fs)
        recent = time.time() - 1800
        for t, p in fs:
            if tot < limit or t > recent:
                break
            tot -= os.path.getsize(p)
            os.unlink(p)
    except OSError:
        pass

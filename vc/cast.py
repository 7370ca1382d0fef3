"""Front end: runs clang on the repository's current sources and loads its AST (JSON).

Nothing is re-typed by hand: every function body the verifier reads is the AST clang built from
/repo on this run.  System (std::) declarations are skipped; only their names and types are used.
"""
import json, os, re, subprocess, tempfile, hashlib

REPO = os.environ.get("VP_REPO", "/repo")
SKIP_NS = {"std", "__gnu_cxx", "__cxxabiv1", "__gnu_debug", "__pstl", "__detail", "__gnu_parallel",
           "boost"}


class Unsupported(Exception):
    """The code uses something the extraction cannot express: never a violation."""


def gen_config(dst):
    """config.h is produced by CMake from config/config.h.in; regenerate it here (constants only)."""
    d = os.path.join(dst, "build-gen")
    os.makedirs(os.path.join(d, "config"), exist_ok=True)
    src = os.path.join(REPO, "config", "config.h.in")
    txt = open(src).read()
    vals = {}
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    for m in re.finditer(r'SET\s*\(\s*(\w+)\s+"?([^")\s]*)"?\s*\)', cm, re.I):
        vals[m.group(1)] = m.group(2)

    def sub(m):
        return vals.get(m.group(1), "")
    txt2 = re.sub(r'@(\w+)@', sub, re.sub(r'\$\{(\w+)\}', sub, txt))
    out = []
    for line in txt2.split("\n"):
        m = re.match(r'\s*#cmakedefine01\s+(\w+)', line)
        if m:
            out.append("#define %s %d" % (m.group(1), 1))
            continue
        m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)', line)
        if m:
            if not re.search(r'OPTION\s*\(\s*%s\s+"[^"]*"\s+OFF\s*\)' % m.group(1), cm, re.I):      # options that are off by default
                out.append("#define %s%s" % (m.group(1), m.group(2)))
            continue
        out.append(line)
    for p in (os.path.join(d, "config.h"), os.path.join(d, "config", "config.h")):
        open(p, "w").write("\n".join(out))
    return d


def cflags(gen):
    return ["-std=c++0x", "-include", "cstdint", "-DLIBMWS_BUILD", "-D_GNU_SOURCE",
            "-I" + REPO + "/src", "-I" + REPO, "-I" + gen, "-I" + os.path.dirname(gen),
            "-I/usr/include/libxml2", "-I/usr/include/tidy",
            "-I" + REPO + "/third_party/common/crc32", "-I" + REPO + "/third_party"]


def dump(tu_text, workdir, extra=(), lang="c++"):
    p = os.path.join(workdir, "tu_%s.%s" % (hashlib.sha1(tu_text.encode()).hexdigest()[:10],
                                             "cpp" if lang == "c++" else "c"))
    open(p, "w").write(tu_text)
    gen = gen_config(workdir)
    fl = cflags(gen)
    if lang == "c":
        fl = ["-std=gnu99"] + fl[3:]
    cmd = ["clang++" if lang == "c++" else "clang"] + fl + list(extra) + \
          ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", p]
    out = p + ".json"
    with open(out, "w") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE, timeout=300)
    if r.returncode != 0:
        raise Unsupported("clang rejected the translation unit: " + r.stderr.decode()[-2000:])
    tops = split_top(out)
    os.unlink(out)
    return tops


def split_top(path):
    """Parse only the top-level declarations that are not std/system namespaces."""
    tops = []
    buf = None
    with open(path) as f:
        for line in f:
            if line == "    {\n":
                buf = [line]
                head = None
            elif buf is not None:
                if line.startswith("    }") and (line == "    },\n" or line == "    }\n"):
                    buf.append("    }\n")
                    txt = "".join(buf)
                    buf = None
                    hd = txt[:6000]
                    m = re.search(r'^      "kind": "(\w+)"', hd, re.M)
                    k = m.group(1) if m else ""
                    n = re.search(r'^      "name": "([^"]*)"', hd, re.M)
                    n = n.group(1) if n else ""
                    if k == "NamespaceDecl" and n in SKIP_NS:
                        continue
                    tops.append(json.loads(txt))
                else:
                    buf.append(line)
    return tops


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "name", "args", "bits", "signed", "to", "n")

    def __init__(self, k, name=None, args=(), bits=0, signed=False, to=None, n=None):
        self.k, self.name, self.args, self.bits, self.signed, self.to, self.n = \
            k, name, tuple(args), bits, signed, to, n

    def key(self):
        if self.k == "int":
            return ("u" if not self.signed else "i") + str(self.bits)
        if self.k in ("ptr", "ref"):
            return self.k + "(" + self.to.key() + ")"
        if self.k == "arr":
            return "arr(" + self.to.key() + "," + str(self.n) + ")"
        if self.k in ("bool", "void", "float", "func", "nullptr", "unk"):
            return self.k + (":" + self.name if self.name else "")
        if self.args:
            return (self.name or self.k) + "<" + ",".join(
                a.key() if isinstance(a, Ty) else str(a) for a in self.args) + ">"
        return self.name

    def __repr__(self):
        return self.key()

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


def I(bits, signed):
    return Ty("int", bits=bits, signed=signed)


BUILTIN = {
    "bool": Ty("bool"), "_Bool": Ty("bool"), "void": Ty("void"),
    "char": I(8, True), "signed char": I(8, True), "unsigned char": I(8, False),
    "short": I(16, True), "unsigned short": I(16, False), "int": I(32, True),
    "unsigned int": I(32, False), "unsigned": I(32, False), "long": I(64, True),
    "unsigned long": I(64, False), "long long": I(64, True), "unsigned long long": I(64, False),
    "double": Ty("float", "double"), "float": Ty("float", "float"),
    "long double": Ty("float", "long double"),
    "size_t": I(64, False), "std::size_t": I(64, False), "ssize_t": I(64, True),
    "uint8_t": I(8, False), "uint16_t": I(16, False), "uint32_t": I(32, False),
    "uint64_t": I(64, False), "int8_t": I(8, True), "int16_t": I(16, True),
    "int32_t": I(32, True), "int64_t": I(64, True), "off_t": I(64, True),
    "ptrdiff_t": I(64, True), "std::ptrdiff_t": I(64, True), "time_t": I(64, True),
    "nullptr_t": Ty("nullptr"), "std::nullptr_t": Ty("nullptr"), "wchar_t": I(32, True),
    "size_type": I(64, False), "difference_type": I(64, True),
}

STRIP = re.compile(r'\b(const|volatile|struct|class|enum|typename|restrict|__restrict|mutable)\b')


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


STRS = {"std::string", "string", "std::__cxx11::basic_string", "basic_string", "std::basic_string",
        "__cxx11::basic_string"}
NORMSTD = {"__cxx11::list": "list", "_Self": None}


class TypeTab:
    def __init__(self):
        self.typedefs = {}   # last-name and qualified name -> type string
        self.recs = {}       # qualified and last-name -> record decl
        self.nested = {}     # qualified name of a nested class whose last name is taken -> its name here
        self.enums = {}
        self.cache = {}

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        t = self._parse(s)
        self.cache[s] = t
        return t

    def _parse(self, s):
        s0 = s
        s = s.strip()
        if s.endswith(")") and "(" in s and ("(*)" in s or re.match(r'^[^<(]*[ >*&]\(', s) or re.search(r'>\s*\(|\w\s*\(', s)) and not s.startswith("(lambda") and not s.endswith("::(anonymous)"):
            if "(*)" in s:
                return Ty("ptr", to=Ty("func", s))
            if "anonymous" not in s and "unnamed" not in s:
                return Ty("func", s)
        if s.startswith("(lambda") or "(lambda at" in s:
            return Ty("rec", "lambda")
        # suffixes
        while True:
            s = s.strip()
            m = re.search(r'\b(const|volatile|__restrict|restrict)$', s)
            if m:
                s = s[:m.start()]
                continue
            break
        if s.endswith("&&"):
            return Ty("ref", to=self.parse(s[:-2]))
        if s.endswith("&"):
            return Ty("ref", to=self.parse(s[:-1]))
        if s.endswith("*"):
            return Ty("ptr", to=self.parse(s[:-1]))
        m = re.search(r'\[(\d*)\]$', s)
        if m:
            return Ty("arr", to=self.parse(s[:m.start()]), n=int(m.group(1)) if m.group(1) else None)
        s = STRIP.sub("", s)
        s = re.sub(r'\s+', ' ', s).strip()
        if s in BUILTIN:
            return BUILTIN[s]
        # template?
        if "<" in s and s.endswith(">"):
            # find the first '<' at depth 0 whose matching '>' is the last char
            d = 0
            start = None
            for i in range(len(s) - 1, -1, -1):
                if s[i] == ">":
                    d += 1
                elif s[i] == "<":
                    d -= 1
                    if d == 0:
                        start = i
                        break
            base = s[:start].strip()
            args = split_args(s[start + 1:-1])
            lb = base.split("::")[-1]
            if base in STRS or lb == "basic_string":
                return Ty("std", "string")
            pa = []
            for a in args:
                if re.match(r'^-?\d+[uUlL]*$', a) or a in ("true", "false"):
                    pa.append(a)
                else:
                    pa.append(self.parse(a))
            if base.startswith("std::") or base.startswith("__gnu_cxx::") or base in (
                    "vector", "map", "pair", "set", "stack", "queue", "list", "unordered_map", "deque",
                    "unordered_set", "function", "unique_ptr", "shared_ptr", "multimap"):
                nkeep = {"vector": 1, "list": 1, "deque": 1, "stack": 1, "queue": 1, "map": 2,
                         "set": 1, "unordered_map": 2, "unordered_set": 1, "pair": 2,
                         "unique_ptr": 1, "function": 1}.get(lb)
                if nkeep:
                    pa = pa[:nkeep]
                return Ty("std", lb, pa)
            q = s
            if s in self.typedefs:
                return self.parse(self.typedefs[s])
            return Ty("rec", lb, pa)
        if s in STRS:
            return Ty("std", "string")
        if s in ("stringstream", "ostringstream") and s not in self.typedefs:
            return Ty("std", s)
        if s in self.typedefs and self.typedefs[s] != s:
            return self.parse(self.typedefs[s])
        last = self._last(s)
        if s in self.nested:
            return Ty("rec", self.nested[s])
        if s in self.recs or last in self.recs:
            return Ty("rec", last)
        if s in self.enums or last in self.enums:
            return Ty("enum", last)
        if "::" in s:
            q = [k for k in self.typedefs if k.endswith("::" + s)]
            if len(q) == 1:
                return self.parse(self.typedefs[q[0]])
        if last in self.typedefs and self.typedefs[last] != s:
            return self.parse(self.typedefs[last])
        if last in BUILTIN:
            return BUILTIN[last]
        if s.startswith("std::") or s.startswith("__gnu_cxx"):
            return Ty("std", last)
        if s in ("FILE", "_IO_FILE"):
            return Ty("rec", "FILE")
        return Ty("unk", s0)

    @staticmethod
    def _last(s):
        d = 0
        for i in range(len(s) - 1, 0, -1):
            if s[i] == ">":
                d += 1
            elif s[i] == "<":
                d -= 1
            elif s[i] == ":" and d == 0:
                return s[i + 1:]
        return s


def _int(v):
    return {"true": 1, "false": 0}.get(v) if v in ("true", "false") else int(v)


class Unit:
    """One translation unit: index of functions, records, globals."""

    def find(self, fn):
        """Definitions of the function with this (possibly abbreviated) qualified name."""
        if fn in self.funcs:
            return self.funcs[fn]
        ks = [k for k in self.funcs if k.endswith("::" + fn)]
        return [f for k in ks for f in self.funcs[k]]

    def __init__(self, tops):
        self.tt = TypeTab()
        self.byid = {}
        self.funcs = {}       # qualified name -> list of FunctionDecl with body
        self.qn = {}          # id -> qualified name
        self.recdecl = {}     # record key -> decl (complete)
        self.idparent = {}
        self.prev = {}
        self.enumconst = {}
        for t in tops:
            self._walk(t, [], None)

    def _walk(self, n, scope, rec):
        k = n.get("kind")
        nid = n.get("id")
        if nid:
            self.byid[nid] = n
        name = n.get("name", "")
        if k == "NamespaceDecl" or k == "LinkageSpecDecl":
            sc = scope + [name] if (k == "NamespaceDecl" and name) else scope
            for c in n.get("inner", []):
                self._walk(c, sc, rec)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "RecordDecl", "ClassTemplatePartialSpecializationDecl"):
            q = "::".join(scope + [name])
            if k == "ClassTemplatePartialSpecializationDecl":
                return
            if k == "ClassTemplateSpecializationDecl":
                args = []
                for c in n.get("inner", []):
                    if c.get("kind") == "TemplateArgument":
                        if "type" in c:
                            args.append(c["type"]["qualType"])
                        elif "value" in c:
                            args.append(str(c["value"]))
                n["_targs"] = args
            if n.get("completeDefinition") or any(c.get("kind") == "FieldDecl" for c in n.get("inner", [])):
                n["_qn"] = q
                if k == "ClassTemplateSpecializationDecl":
                    self.recdecl.setdefault(("T", name), []).append(n)
                    self.tt.recs.setdefault(name, n)
                else:
                    if name:
                        self.recdecl[q] = n
                        if n.get("_templated"):
                            pass
                        else:
                            self.recdecl.setdefault(name, n)
                        self.tt.recs[q] = n
                        self.tt.recs[name] = n
                        first = self.recdecl.get(name)
                        if first is not n and len(scope) > 0 and scope[-1] in self.tt.recs and first.get("_qn") != q and not n.get("_templated"):
                            # a second class of this name, nested in another class: it keeps the name of that class
                            alias = scope[-1] + "::" + name
                            if alias not in self.recdecl or self.recdecl[alias] is n:
                                self.recdecl[alias] = n
                                self.tt.nested[q] = alias
            elif name:
                self.tt.recs.setdefault(name, n)
            for c in n.get("inner", []):
                self._walk(c, scope + [name] if name else scope, n)
            self._scoped_typedefs(n, q, scope)
            return
        if k == "ClassTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") == "CXXRecordDecl":
                    c["_templated"] = True
                    # uninstantiated pattern: only register nested typedef-free
                    self._walk_pattern(c)
                else:
                    self._walk(c, scope, rec)
            return
        if k == "FunctionTemplateDecl":
            first = True
            for c in n.get("inner", []):
                if c.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                    if first:
                        first = False
                        self.qn[c["id"]] = "::".join(scope + [c.get("name", "")]) + "#pattern"
                        self.byid[c["id"]] = c
                        continue
                    self._walk(c, scope, rec)
            return
        if k in ("TypedefDecl", "TypeAliasDecl"):
            q = "::".join(scope + [name])
            ty = n["type"].get("desugaredQualType") or n["type"]["qualType"]
            self.tt.typedefs[q] = ty
            if rec is None or name not in self.tt.typedefs:
                self.tt.typedefs.setdefault(name, ty)
            # typedef struct {..} name: map record decl
            for c in n.get("inner", []):
                self._td(c, name)
            return
        if k == "EnumDecl":
            q = "::".join(scope + [name])
            if name:
                self.tt.enums[q] = n
                self.tt.enums[name] = n
            v = -1
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    self.byid[c["id"]] = c
                    val = None
                    for d in c.get("inner", []):
                        if d.get("kind") in ("ConstantExpr",) and "value" in d:
                            val = _int(d["value"])
                        elif "inner" in d:
                            x = d
                            while x is not None and val is None:
                                if x.get("kind") in ("ConstantExpr", "IntegerLiteral") and "value" in x:
                                    val = _int(x["value"])
                                x = (x.get("inner") or [None])[0]
                    v = val if val is not None else v + 1
                    self.enumconst[c["id"]] = v
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            pid = n.get("parentDeclContextId")
            sc = "::".join(scope)
            if pid and pid in self.byid and (rec is None or pid != rec.get("id")):
                par = self.byid[pid]
                if par.get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "RecordDecl"):
                    rec = par
                    sc = par.get("_qn", sc)
            q = sc + "::" + name if sc else name
            self.qn[nid] = q
            n["_qn"] = q
            n["_rec"] = rec
            prev = n.get("previousDecl")
            if prev:
                self.prev[prev] = nid
                self.prev.setdefault(nid, nid)
            if any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", [])):
                self.funcs.setdefault(q, []).append(n)
                if prev:
                    self.prev[prev] = nid
            # register parameters
            for c in n.get("inner", []):
                self._reg(c)
            return
        if k == "VarDecl":
            n["_qn"] = "::".join(scope + [name])
            prev = n.get("previousDecl")
            if prev in self.qn:
                n["_qn"] = self.qn[prev]
            self.qn[nid] = n["_qn"]
            if prev:
                self.prev[prev] = nid
        for c in n.get("inner", []):
            self._reg(c)
        if k in ("FieldDecl",):
            n["_recid"] = rec.get("id") if rec else None

    def _td(self, c, name):
        oid = (c.get("ownedTagDecl") or {}).get("id")
        if oid and oid in self.byid:
            d = self.byid[oid]
            if not d.get("name"):
                d["_qn"] = name
                if d.get("kind") in ("RecordDecl", "CXXRecordDecl"):
                    self.recdecl[name] = d
                    self.tt.recs[name] = d
                elif d.get("kind") == "EnumDecl":
                    self.tt.enums[name] = d
        for x in c.get("inner", []) or []:
            self._td(x, name)

    def _walk_pattern(self, n):
        pass

    def _reg(self, n):
        if not isinstance(n, dict):
            return
        nid = n.get("id")
        if nid:
            self.byid[nid] = n
        if n.get("kind") in ("CXXRecordDecl", "RecordDecl", "EnumDecl", "TypedefDecl", "TypeAliasDecl") and nid:
            self._walk(n, ["(local)"], None)
            return
        for c in n.get("inner", []) or []:
            self._reg(c)

    # ---- queries
    def body_of(self, fid):
        """FunctionDecl (with a body) for a decl id, following redeclarations."""
        seen = set()
        while fid and fid not in seen:
            seen.add(fid)
            n = self.byid.get(fid)
            if n is not None and any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
                return n
            nx = self.prev.get(fid)
            if nx == fid or nx is None:
                break
            fid = nx
        n = self.byid.get(fid)
        if n is None:
            return None
        # match by mangled name
        mn = n.get("mangledName")
        if mn:
            for f in self.funcs.get(self.qn.get(n["id"], ""), []):
                if f.get("mangledName") == mn:
                    return f
        return None

    def find(self, qn, nparams=None, sig=None):
        c = self.funcs.get(qn, [])
        if not c:
            c = [f for q, fs in self.funcs.items() if q.endswith("::" + qn) for f in fs]
        if nparams is not None:
            c = [f for f in c if len(params(f)) == nparams]
        if sig is not None:
            c = [f for f in c if sig in f["type"]["qualType"]]
        return c

    def _scoped_typedefs(self, rec, q, scope):
        """Names of a class's own typedefs mean, inside the class, these typedefs."""
        if not scope or scope[0] in ("std", "__gnu_cxx"):
            return
        tds = {}
        for c in rec.get("inner", []):
            if c.get("kind") in ("TypedefDecl", "TypeAliasDecl") and c.get("name"):
                tds[c["name"]] = c["type"].get("desugaredQualType") or c["type"]["qualType"]
        if not tds:
            return
        pat = re.compile(r"(?<![\w:])(%s)(?![\w:])" % "|".join(map(re.escape, tds)))
        todo = [c for c in rec.get("inner", []) if c.get("kind") not in ("TypedefDecl", "TypeAliasDecl")]
        while todo:
            n = todo.pop()
            t = n.get("type")
            if isinstance(t, dict) and "desugaredQualType" not in t and "qualType" in t:
                new = pat.sub(lambda m: tds[m.group(1)], t["qualType"])
                if new != t["qualType"]:
                    t["desugaredQualType"] = new
            todo += [c for c in n.get("inner", []) if isinstance(c, dict)]

    def ty(self, n):
        t = n.get("type") if "type" in n else n
        if t is None:
            return Ty("void")
        s = t.get("desugaredQualType") or t.get("qualType")
        r = self.tt.parse(s)
        if r.k == "unk" and "qualType" in t:
            r2 = self.tt.parse(t["qualType"])
            if r2.k != "unk":
                return r2
        return r

    def record(self, ty):
        """Record decl for a Ty('rec')."""
        if ty.args:
            for d in self.recdecl.get(("T", ty.name), []):
                da = [self.tt.parse(a) if not re.match(r'^-?\d+$', a) else a for a in d["_targs"]]
                if len(da) >= len(ty.args) and all(str(a) == str(b) for a, b in zip(da, ty.args)):
                    return d
            ds = self.recdecl.get(("T", ty.name), [])
            if len(ds) == 1:
                return ds[0]
            return None
        d = self.recdecl.get(ty.name)
        if d is None:
            ds = self.recdecl.get(("T", ty.name), [])
            if len(ds) == 1:
                return ds[0]
        return d

    def fields(self, rec):
        """[(name, Ty, width or None)] including bases (flattened)."""
        if "_fields" in rec:
            return rec["_fields"]
        out = []
        for b in rec.get("bases", []):
            bt = self.ty(b)
            bd = self.record(bt)
            if bd is not None:
                out += self.fields(bd)
        anon = None
        for c in rec.get("inner", []):
            if c.get("kind") in ("CXXRecordDecl", "RecordDecl") and not c.get("name"):
                anon = c
            if c.get("kind") == "FieldDecl":
                w = None
                q = c["type"]["qualType"]
                if anon is not None and c.get("name") and ("unnamed" in q or "anonymous" in q):
                    # field of an unnamed struct type: give the type a name of its own
                    tn = "%s::%s::(unnamed)" % (rec.get("name") or rec.get("_qn") or rec["id"], c["name"])
                    self.recdecl[tn] = anon
                    out.append((c["name"], Ty("rec", tn), w))
                    continue
                if c.get("isBitfield"):
                    for d in c.get("inner", []):
                        if "value" in d:
                            w = int(d["value"])
                nm = c.get("name") or ("anon_" + c["id"])
                out.append((nm, self.ty(c), w))
        rec["_fields"] = out
        return out


def params(f):
    return [c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]


def body(f):
    for c in f.get("inner", []):
        if c.get("kind") == "CompoundStmt":
            return c
    return None

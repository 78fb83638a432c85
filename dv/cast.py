"""Front end: typed C AST of /repo's current source, straight from clang."""
import json, subprocess, os, re, functools

REPO = os.environ.get("DV_REPO", "/repo")
CFLAGS = ["-w", "-std=gnu17", "-Wno-implicit-function-declaration", "-Wno-int-conversion",
          "-Wno-incompatible-pointer-types", "-ferror-limit=0"]

class FrontendError(Exception):
    pass

class Ty:
    __slots__ = ("k", "a", "b")
    def __init__(s, k, a=None, b=None): s.k, s.a, s.b = k, a, b
    def __eq__(s, o): return isinstance(o, Ty) and (s.k, s.a, s.b) == (o.k, o.a, o.b)
    def __hash__(s): return hash((s.k, s.a, s.b))
    def __repr__(s):
        if s.k == "int": return ("i" if s.b else "u") + str(s.a)
        if s.k == "real": return "real"
        if s.k == "ptr": return "*" + repr(s.a)
        if s.k == "struct": return s.a
        if s.k == "arr": return "%r[%s]" % (s.a, s.b)
        return s.k
INT = Ty("int", 32, True); UINT = Ty("int", 32, False); LONG = Ty("int", 64, True); ULONG = Ty("int", 64, False)
CHAR = Ty("int", 8, True); UCHAR = Ty("int", 8, False); SHORT = Ty("int", 16, True); USHORT = Ty("int", 16, False)
REAL = Ty("real"); VOID = Ty("void"); FN = Ty("fn")
BASE = {"int": INT, "unsigned int": UINT, "unsigned": UINT, "long": LONG, "unsigned long": ULONG, "size_t": ULONG,
        "ssize_t": LONG, "long long": LONG, "unsigned long long": ULONG, "char": CHAR, "signed char": CHAR, "unsigned char": UCHAR, "_Bool": UCHAR, "bool": UCHAR,
        "short": SHORT, "unsigned short": USHORT, "double": REAL, "float": REAL, "long double": REAL,
        "void": VOID, "_Bool": UCHAR, "__ssize_t": LONG}

class TU:
    """One translation unit."""
    def __init__(self, src):
        self.src = src
        cmd = ["clang", "-Xclang", "-ast-dump=json", "-fsyntax-only"] + CFLAGS + ["-I", os.path.join(REPO, "src"), src]
        p = subprocess.run(cmd, capture_output=True)
        if not p.stdout: raise FrontendError("clang produced no AST for %s: %s" % (src, p.stderr[-500:]))
        if p.returncode != 0: raise FrontendError("clang rejects %s: %s" % (src, p.stderr.decode()[-800:]))
        self.ast = json.loads(p.stdout)
        self.funcs, self.structs, self.typedefs, self.globals, self.protos = {}, {}, {}, {}, {}
        self.enums = {}
        self._scan()

    def _scan(self):
        last = None
        for d in self.ast["inner"]:
            k = d["kind"]
            if k == "RecordDecl" and d.get("completeDefinition"):
                name = d.get("name") or ("anon" + d["id"])
                self.structs[name] = d
                d["_name"] = name
                last = d
            elif k == "TypedefDecl":
                self.typedefs[d["name"]] = d["type"].get("desugaredQualType", d["type"]["qualType"])
                t = d["type"]["qualType"]
                if last is not None and "name" not in last and t.startswith("struct "):
                    self.structs[d["name"]] = last
                    last["_name"] = d["name"]
            elif k == "FunctionDecl":
                if any(c["kind"] == "CompoundStmt" for c in d.get("inner", [])): self.funcs[d["name"]] = d
                else: self.protos[d["name"]] = d
            elif k == "VarDecl":
                self.globals[d["name"]] = d
            elif k == "EnumDecl":
                v = -1
                for c in d.get("inner", []):
                    if c["kind"] == "EnumConstantDecl":
                        v += 1
                        for x in c.get("inner", []):
                            if "value" in x: v = int(x["value"])
                        self.enums[c["name"]] = v
        self._fields = {}

    def fields(self, sname):
        if sname not in self._fields:
            d = self.structs.get(sname)
            if d is None: raise FrontendError("no definition of struct " + sname)
            self._fields[sname] = {c["name"]: self.ty(c["type"]) for c in d.get("inner", []) if c["kind"] == "FieldDecl" and "name" in c}
        return self._fields[sname]

    def ty(self, t):
        if isinstance(t, dict): return self._ty(t.get("desugaredQualType", t["qualType"]))
        return self._ty(t)

    @functools.lru_cache(None)
    def _ty(self, s):
        s = re.sub(r"\b(const|volatile|restrict|__restrict|register)\b", "", s).strip()
        s = re.sub(r"\s+", " ", s)
        m = re.match(r"^(.*)\[(\d*)\]$", s)
        if m:
            # innermost-first for multi-dim: "T[a][b]" is array a of array b of T
            m2 = re.match(r"^([^\[]*?)((?:\[\d*\])+)$", s)
            base, dims = m2.group(1).strip(), re.findall(r"\[(\d*)\]", m2.group(2))
            t = self._ty(base)
            for d in reversed(dims): t = Ty("arr", t, int(d) if d else None)
            return t
        if s.endswith(")"):
            if "(*)" in s: return Ty("ptr", FN)
            return FN
        if s.endswith("*"): return Ty("ptr", self._ty(s[:-1].strip()))
        if s in BASE: return BASE[s]
        if s.startswith("struct "):
            n = s[7:]
            if n in self.structs and self.structs[n].get("_name"): n = self.structs[n]["_name"]
            return Ty("struct", n)
        if s.startswith("enum "): return UINT
        if s.startswith("union "): return Ty("struct", s)
        if s in self.structs: return Ty("struct", self.structs[s].get("_name", s))
        if s in self.typedefs: return self._ty(self.typedefs[s])
        return Ty("struct", s)

    def sizeof(self, t):
        if t.k == "int": return t.a // 8
        if t.k == "real": return 8
        if t.k == "ptr": return 8
        if t.k == "arr": return self.sizeof(t.a) * (t.b or 0)
        if t.k == "struct":
            off = 0; al = 1
            for ft in self.fields(t.a).values():
                s = self.sizeof(ft); e = ft
                while e.k == "arr": e = e.a
                a = self.align(e); al = max(al, a)
                off = (off + a - 1) // a * a + s
            return (off + al - 1) // al * al
        raise FrontendError("sizeof " + repr(t))
    def align(self, t):
        if t.k == "struct": return max([self.align(f) for f in self.fields(t.a).values()] or [1])
        if t.k == "arr": return self.align(t.a)
        return self.sizeof(t)

def line_of(n):
    """Best-effort source line of a node (clang omits repeated lines; we propagate when numbering)."""
    return n.get("_line")

def annotate_lines(fn):
    """clang's JSON gives 'line' only when it changes; fill it in by walking in order."""
    cur = [fn.get("loc", {}).get("line") or 0]
    def upd(loc):
        if not loc: return
        for l in (loc, loc.get("expansionLoc", {})):
            if "line" in l: cur[0] = l["line"]
    def walk(n):
        if not isinstance(n, dict): return
        upd(n.get("loc")); r = n.get("range", {})
        upd(r.get("begin")); n["_line"] = cur[0]
        upd(r.get("end"))
        for c in n.get("inner", []): walk(c)
    walk(fn)

_cache = {}
def load(src):
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    if path not in _cache: _cache[path] = TU(path)
    return _cache[path]

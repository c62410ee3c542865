"""Reads the functions under contract from /repo's current working tree (nothing is cached between runs)."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "py_eddy_tracker"
ROOT = os.path.join(REPO, "src", PKG)


class SourceError(Exception):
    pass


class Module:
    def __init__(self, src, name):
        self.src, self.name = src, name
        path = os.path.join(ROOT, *name.split(".")) if name else ROOT
        if os.path.isdir(path):
            self.path, self.is_pkg = os.path.join(path, "__init__.py"), True
        else:
            self.path, self.is_pkg = path + ".py", False
        with open(self.path) as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.names = {}
        for st in self.tree.body:
            self._top(st)

    def _top(self, st):
        if isinstance(st, ast.FunctionDef):
            self.names[st.name] = ("func", self, st)
        elif isinstance(st, ast.ClassDef):
            self.names[st.name] = ("class", self, st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.names[a.asname or a.name.split(".")[0]] = ("extmod", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                nm = a.asname or a.name
                tgt = self._resolve(st)
                if tgt is None:
                    self.names[nm] = ("ext", (st.module or "") + "." + a.name)
                else:
                    self.names[nm] = ("repo", tgt, a.name)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            self.names[st.targets[0].id] = ("const", self, st.value)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._top(s)

    def _resolve(self, st):
        if st.level == 0:
            m = st.module or ""
            if m == PKG:
                return ""
            if m.startswith(PKG + "."):
                return m[len(PKG) + 1:]
            return None
        parts = self.name.split(".") if self.name else []
        if not self.is_pkg:
            parts = parts[:-1]
        up = st.level - 1
        if up:
            parts = parts[:-up]
        if st.module:
            parts = parts + st.module.split(".")
        return ".".join(parts)


class Source:
    def __init__(self):
        self.mods = {}

    def module(self, name):
        if name not in self.mods:
            self.mods[name] = Module(self, name)
        return self.mods[name]

    def lookup(self, mod, name):
        """-> ('func', Module, node) | ('class', Module, node) | ('ext', dotted) | ('extmod', name) | ('const', Module, expr)"""
        e = mod.names.get(name)
        if e is None:
            return None
        seen = 0
        while e[0] == "repo":
            seen += 1
            if seen > 10:
                raise SourceError("import loop")
            m, nm = e[1], e[2]
            try:
                target = self.module(m)
            except FileNotFoundError:
                return ("ext", f"{PKG}.{m}.{nm}")
            e = target.names.get(nm)
            if e is None:
                try:
                    sub = (m + "." if m else "") + nm
                    self.module(sub)
                    return ("repomod", sub)
                except FileNotFoundError:
                    return ("ext", f"{PKG}.{m}.{nm}")
        return e

    def function(self, dotted):
        """'generic:wrap_longitude' or 'observations.network:NetworkObservations.sort' -> (Module, FunctionDef, ClassDef|None)"""
        modname, q = dotted.split(":")
        mod = self.module(modname)
        parts = q.split(".")
        e = mod.names.get(parts[0])
        if e is None:
            raise SourceError(f"{dotted}: not found in {mod.path}")
        if e[0] == "repo":
            e = self.lookup(mod, parts[0])
        if len(parts) == 1:
            if e[0] != "func":
                raise SourceError(f"{dotted}: not a function")
            return e[1], e[2], None
        if e[0] != "class":
            raise SourceError(f"{dotted}: not a class")
        r = self.method(e[1], e[2], parts[1])
        if r is None:
            raise SourceError(f"{dotted}: no such method")
        return r

    def method(self, mod, cls, name):
        for st in cls.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                return mod, st, cls
        for b in cls.bases:
            if isinstance(b, ast.Name):
                e = self.lookup(mod, b.id)
                if e and e[0] == "class":
                    r = self.method(e[1], e[2], name)
                    if r:
                        return r
        return None

    def segment(self, mod, node):
        return ast.get_source_segment(mod.text, node)

"""Parse the package, build symbol tables, resolve names, classes and MROs.

Nothing is imported or executed: only the source text under the repository
is read and parsed.
"""

import ast
import builtins
import os
import pathlib

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
PKG = "aiootp"


class AnchorMissing(Exception):
    """A construct the check must inspect can no longer be located."""


class Func:
    __slots__ = ("mod", "cls", "node", "name", "qual", "is_async", "is_gen",
                 "deco", "outer")

    def __init__(self, mod, cls, node, outer=None):
        self.mod, self.cls, self.node, self.outer = mod, cls, node, outer
        self.name = getattr(node, "name", "<lambda>")
        base = cls.qual if cls else (outer.qual if outer else mod.name)
        self.qual = f"{base}.{self.name}"
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.is_gen = _has_yield(node)
        self.deco = set()
        for d in getattr(node, "decorator_list", ()):
            self.deco.add(ast.unparse(d).split("(")[0])

    @property
    def args(self):
        return self.node.args

    def where(self):
        return f"{self.mod.rel}:{self.node.lineno} {self.qual}"

    def __repr__(self):
        return f"<Func {self.qual}>"


def _has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class Class:
    __slots__ = ("mod", "node", "name", "qual", "attrs", "order", "_mro", "anns")

    def __init__(self, mod, node, prog):
        self.mod, self.node, self.name = mod, node, node.name
        self.qual = f"{mod.name}.{node.name}"
        self.attrs = {}
        self.anns = {}
        self._mro = None
        self._collect(node.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.attrs[st.name] = Func(self.mod, self, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.anns[st.target.id] = st.annotation
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.attrs[st.name] = Class(self.mod, st, None)
            elif isinstance(st, (ast.If, ast.Try)):
                self._collect(st.body)
                self._collect(getattr(st, "orelse", []))

    def where(self):
        return f"{self.mod.rel}:{self.node.lineno} {self.qual}"

    def __repr__(self):
        return f"<Class {self.qual}>"


class SpecExpr:
    """A class-level value written in a reference file: resolved in that file's scope."""

    def __init__(self, mod, expr):
        self.mod, self.expr = mod, expr


class Module:
    def __init__(self, name, path, tree, is_pkg, rel=None):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.rel = rel or str(path)
        self.base = None
        self.defs = {}
        self.stars = []
        self.all = None


class Program:
    def __init__(self, repo=None, trees=None):
        """`trees` (name -> (path, tree, is_pkg)) lets two programs share one parse."""
        self.repo = pathlib.Path(repo) if repo else REPO
        self.trees = {} if trees is None else trees
        self.mods = {}
        self._cls_by_name = {}
        root = self.repo / PKG
        if not root.is_dir():
            raise AnchorMissing(f"package directory {root} not found")
        for path in sorted(root.rglob("*.py")) if trees is None else ():
            parts = path.relative_to(self.repo).with_suffix("").parts
            if parts[1:2] in (("db",), ("tor",)):
                continue
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts = parts[:-1]
            name = ".".join(parts)
            self.trees[name] = (path, ast.parse(path.read_text(), str(path)), is_pkg)
        for name, (path, tree, is_pkg) in self.trees.items():
            self.mods[name] = Module(name, path, tree, is_pkg, str(path.relative_to(self.repo)))
        for m in self.mods.values():
            self._index(m, m.tree.body)
        for m in self.mods.values():
            for d in m.defs.values():
                if d[0] == "class":
                    self._cls_by_name.setdefault(d[1].name, []).append(d[1])
        self._cache = {}
        self._allf = None

    # -- indexing
    def _index(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.defs[st.name] = ("func", Func(m, None, st))
            elif isinstance(st, ast.ClassDef):
                m.defs[st.name] = ("class", Class(m, st, self))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.defs[a.asname] = ("mod", a.name)
                    else:
                        m.defs[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                src = self._abs(m, st)
                for a in st.names:
                    if a.name == "*":
                        m.stars.append(src)
                    else:
                        m.defs[a.asname or a.name] = ("from", src, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ([t] if isinstance(t, ast.Name) else getattr(t, "elts", [])):
                        if isinstance(n, ast.Name):
                            m.defs[n.id] = ("var", st.value, n.id) if n is t else ("opaque", n.id)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    m.defs[st.target.id] = ("var", st.value, st.target.id)
            elif isinstance(st, (ast.If, ast.Try)):
                self._index(m, st.body)
                self._index(m, getattr(st, "orelse", []))
                for h in getattr(st, "handlers", []):
                    self._index(m, h.body)
            elif isinstance(st, ast.With):
                self._index(m, st.body)

    def _abs(self, m, st):
        if not st.level:
            return st.module
        base = m.name.split(".")
        if not m.is_pkg:
            base = base[:-1]
        if st.level > 1:
            base = base[: -(st.level - 1)]
        return ".".join(base + ([st.module] if st.module else []))

    # -- resolution: returns ('func',F) ('class',C) ('mod',name) ('var',mod,expr,name) ('ext',dotted)
    def resolve(self, m, name, seen=None):
        key = (id(m), name)
        if key in self._cache:
            return self._cache[key]
        r = self._resolve(m, name, seen or set())
        self._cache[key] = r
        return r

    def _resolve(self, m, name, seen):
        if (id(m), name) in seen:
            return None
        seen = seen | {(id(m), name)}
        d = m.defs.get(name)
        if d is not None:
            if d[0] in ("func", "class"):
                return d
            if d[0] == "mod":
                return ("mod", d[1])
            if d[0] == "var":
                return ("var", m, d[1], d[2])
            if d[0] == "svar":
                return ("var", d[1], d[2], d[3])
            if d[0] == "opaque":
                return ("opaque", f"{m.name}.{d[1]}")
            if d[0] == "from":
                _, src, nm = d
                if f"{src}.{nm}" in self.mods and (src not in self.mods or nm not in self.mods[src].defs):
                    return ("mod", f"{src}.{nm}")
                if src in self.mods:
                    r = self._member(self.mods[src], nm, seen)
                    if r is not None:
                        return r
                if src == PKG or src.startswith(PKG + "."):
                    r = self._anywhere(nm)
                    if r is not None:
                        return r
                return ("ext", f"{src}.{nm}")
        for src in m.stars:
            if src in self.mods:
                r = self._member(self.mods[src], name, seen)
                if r is not None:
                    return r
        if m.base is not None:
            return self._resolve(m.base, name, seen)
        if hasattr(builtins, name):
            return ("ext", f"builtins.{name}")
        return None

    def _member(self, m, name, seen=None):
        r = self._resolve(m, name, seen or set())
        if r is not None and r != ("ext", f"builtins.{name}"):
            return r
        if f"{m.name}.{name}" in self.mods:
            return ("mod", f"{m.name}.{name}")
        if m.is_pkg:
            for sub in self.mods.values():
                if sub.name.startswith(m.name + ".") and name in sub.defs:
                    d = sub.defs[name]
                    if d[0] in ("func", "class"):
                        return d
                    if d[0] == "var":
                        return ("var", sub, d[1], d[2])
                    if d[0] == "svar":
                        return ("var", d[1], d[2], d[3])
        return r

    def _anywhere(self, name):
        """The one definition of that name in the package, wherever it was moved to."""
        found = []
        for m in self.mods.values():
            d = m.defs.get(name)
            if d is not None and "_typing" not in m.name and d[0] in ("func", "class", "var", "svar"):
                found.append(("var", m, d[1], d[2]) if d[0] == "var" else ("var",) + d[1:] if d[0] == "svar" else d)
        return found[0] if len(found) == 1 else None

    # -- classes
    def class_named(self, name):
        """The unique package class of that simple name (or dotted qual)."""
        if "." in name:
            mod, _, nm = name.rpartition(".")
            if mod in self.mods and self.mods[mod].defs.get(nm, (0,))[0] == "class":
                return self.mods[mod].defs[nm][1]
        cs = self._cls_by_name.get(name.rsplit(".", 1)[-1], [])
        cs = [c for c in cs if "_typing" not in c.mod.name] or cs
        return cs[0] if len(cs) == 1 else None

    def need_class(self, name):
        c = self.class_named(name)
        if c is None:
            raise AnchorMissing(f"class {name} not found (or ambiguous) in {PKG}")
        return c

    def resolve_expr(self, m, e):
        """Resolve a Name/Attribute chain used as a base class or alias."""
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(e.value, ast.Name) and e.value.id == "t":
                c = self.class_named(e.attr)
                return ("class", c) if c else ("ext", f"t.{e.attr}")
            if b is None:
                return None
            if b[0] == "mod":
                if b[1] in self.mods:
                    return self._member(self.mods[b[1]], e.attr)
                return ("ext", f"{b[1]}.{e.attr}")
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{e.attr}")
            if b[0] == "class":
                v = self.lookup(b[1], e.attr)
                if v is not None:
                    return ("classattr", b[1], e.attr)
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value)
        return None

    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(c.mod, b)
            if r and r[0] == "class":
                out.append(r[1])
            elif r and r[0] == "var":
                r2 = self.resolve_expr(r[1], r[2])
                if r2 and r2[0] == "class":
                    out.append(r2[1])
        return out

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]
            seqs = [list(self.mro(b)) for b in self.bases(c)] + [self.bases(c)]
            out = [c]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in q[1:] for q in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            c._mro = out
        return c._mro

    def lookup(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def method(self, c, name):
        r = self.lookup(c, name)
        return r[1] if r and isinstance(r[1], Func) else None

    def need_method(self, c, name):
        if isinstance(c, str):
            c = self.need_class(c)
        f = self.method(c, name)
        if f is None:
            raise AnchorMissing(f"method {c.qual}.{name} not found")
        return f

    def func(self, dotted):
        mod, _, name = dotted.rpartition(".")
        m = self.mods.get(mod)
        if m is None:
            return None
        r = self.resolve(m, name)
        return r[1] if r and r[0] == "func" else None

    def func_named(self, name):
        """The unique module-level function of that name in the package."""
        fs = [d[1] for m in self.mods.values() for n, d in m.defs.items()
              if n == name and d[0] == "func"]
        return fs[0] if len(fs) == 1 else None

    def need_func(self, name):
        f = self.func(name) if "." in name else self.func_named(name)
        if f is None:
            raise AnchorMissing(f"function {name} not found in {PKG}")
        return f

    def subclasses(self, c):
        return [k for cs in self._cls_by_name.values() for k in cs
                if k is not c and c in self.mro(k)]

    def classes(self):
        return [c for cs in self._cls_by_name.values() for c in cs]

    def functions(self):
        """Every function/method in the package (not nested ones)."""
        if self._allf is None:
            out = []
            for m in self.mods.values():
                for d in m.defs.values():
                    if d[0] == "func":
                        out.append(d[1])
                    elif d[0] == "class":
                        out.extend(v for v in d[1].attrs.values() if isinstance(v, Func))
            self._allf = out
        return self._allf

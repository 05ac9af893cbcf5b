"""Pairing of asynchronous functions and classes with their synchronous siblings."""

import ast

from .loader import Func, Class


class Twins:
    CONST = {"asynchronous": "synchronous", "async": "sync", "ASYNC": "SYNC"}

    def __init__(self, prog):
        self.prog = prog
        self.map = {}
        self.pairs = []
        self.clsmap = {}
        cl = {c.name: c for c in prog.classes() if "_typing" not in c.mod.name}
        for n, c in cl.items():
            for cand in (n.replace("Async", "", 1), n.replace("Async", "Sync", 1)):
                if cand != n and cand in cl:
                    self.clsmap[c.qual] = cl[cand].qual
                    self.pair_names(c, cl[cand])
                    break
        for m in prog.mods.values():
            if "_typing" in m.name:
                continue
            fs = {n: d[1] for n, d in m.defs.items() if d[0] == "func"}
            self.pair_scope(fs)
            for d in m.defs.values():
                if d[0] == "class":
                    self.pair_scope({n: v for n, v in d[1].attrs.items() if isinstance(v, Func)})
        self.map.update({
            "__aenter__": "__enter__", "__aexit__": "__exit__", "__aiter__": "__iter__",
            "__anext__": "__next__", "StopAsyncIteration": "StopIteration", "aclose": "close",
            "asend": "send", "aopen": "open", "ASYNC": "SYNC",
        })
        attrs = {n.attr for f in prog.functions() for n in ast.walk(f.node)
                 if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        for n in attrs:
            for cand in self.cands(n):
                if cand in attrs:
                    self.map.setdefault(n, cand)
        self.fmap = {f: g for f, g, _ in self.pairs}
        self.cmap = {prog.class_named(a): prog.class_named(b) for a, b in self.clsmap.items()}
        self.rmap = {}
        for a, b in self.cmap.items():
            self.rmap.setdefault(b, []).append(a)

    def pair_scope(self, fs):
        for n, f in fs.items():
            for cand in self.cands(n):
                g = fs.get(cand)
                if g is not None:
                    self.map[n] = cand
                    self.pairs.append((f, g, None))
                    break

    @staticmethod
    def cands(n):
        out = []
        if n.startswith("a"):
            out.append(n[1:])
        if n.startswith("_a"):
            out.append("_" + n[2:])
        if n.startswith("__a") and n.endswith("__"):
            out.append("__" + n[3:])
        if "Async" in n:
            out.append(n.replace("Async", "", 1))
        if "async" in n:
            out.append(n.replace("async", "sync"))
        return out

    def pair_names(self, a, s):
        for n, f in a.attrs.items():
            if not isinstance(f, Func):
                continue
            for cand in [n] + self.cands(n):
                r = self.prog.lookup(s, cand)
                g = r[1] if r and r[0].mod.name.startswith("aiootp") else None
                if isinstance(g, Func) and g is not f:
                    if cand != n:
                        self.map[n] = cand
                    self.pairs.append((f, g, (a, s)))
                    break

    def name(self, n):
        return self.map.get(n, n)

    def without(self, fs):
        """The same pairing, with the given functions standing for themselves."""
        t = object.__new__(Twins)
        t.__dict__.update(self.__dict__)
        t.fmap = {f: g for f, g in self.fmap.items() if f not in fs}
        names = {f.name for f in fs}
        t.map = {a: b for a, b in self.map.items() if a not in names}
        return t

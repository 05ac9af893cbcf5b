"""Obligations: every reference function or value against its counterparts in
the package, and every asynchronous function against its synchronous twin."""

import ast
import fnmatch
import signal
import time
import sys

from . import sem
from . import terms as _terms
from .equiv import (Overlay, facts, compare_facts, explain, int_params, specs, Facts, UNDEF)
from .fails import constant, failing
from .loader import Program, Func, Class, SpecExpr, AnchorMissing
from .sem import Ev, TooBig, Frame, PLAIN_DECO
from .terms import *
from .twins import Twins

sys.setrecursionlimit(40000)

LIMIT = 120
ENOUGH = 600


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def private(name):
    return name.startswith("_") and not (name.startswith("__") and name.endswith("__"))


class Context:
    """The package, its reference overlays and caches, shared by all obligations of a run."""

    def __init__(self, prog=None):
        self.prog = prog or Program()
        self.full = Overlay(self.prog)
        self.prog.hints = self.full
        sem.MAY.clear()
        sem.MAY.update(failing(self.full))
        sem.CONSTANT.clear()
        sem.CONSTANT.update(constant(self.full))
        self.tw = Twins(self.prog)
        self.part = {}
        self._facts = {}
        self.asyncs = {}
        for f, g, cl in self.tw.pairs:
            self.asyncs.setdefault(g, []).append((f, cl))
        self._without, self._excused = {}, {}
        self.late = []                    # what could not be summarised in time
        self.started = time.time()
        self.stats = {"functions": 0, "summaries": 0, "facts": 0, "terms": 0, "call_sites": 0, "levels": {}}

    def without(self, fs):
        key = frozenset(fs)
        if not key:
            return self.tw
        if key not in self._without:
            self._without[key] = self.tw.without(key)
        return self._without[key]

    def overlay(self, pats):
        key = tuple(pats)
        if key not in self.part:
            self.part[key] = Overlay(self.prog, lambda q: match(q, pats))
            self.part[key].hints = self.full
        return self.part[key]

    def within(self, compare, empty=()):
        """Compares; what exceeds the limits is kept aside, so that what other functions show is still reported."""
        try:
            if time.time() - self.started > ENOUGH:
                raise TooBig("no time left")
            return compare()
        except TooBig as e:
            self.late.append(e)
            return empty

    def facts(self, prog, func, **kw):
        ints = kw.pop("ints", ())
        key = (id(prog), func, id(kw["twins"]) if kw.get("twins") is not None else 0, kw.get("given_async"), kw.get("pure"), tuple(sorted(kw.get("opaque", ()))),
               kw.get("self_cls"), tuple(sorted(i.d for i in ints)),
               tuple(sorted((k, v.d) for k, v in (kw.get("extra") or {}).items())))
        if key not in self._facts:
            signal.signal(signal.SIGPROF, _alarm)
            signal.setitimer(signal.ITIMER_PROF, LIMIT if not self.late else LIMIT / 4)
            try:
                self._facts[key] = facts(prog, func, ints, **kw)
                fx = self._facts[key]
                self.stats["summaries"] += 1
                self.stats["facts"] += len(fx.table)
                self.stats["terms"] += len({x.d for v in fx.table.values() for x in walk(v)})
            except (TooBig, Timeout, RecursionError) as e:
                self._facts[key] = e
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        r = self._facts[key]
        if isinstance(r, Exception):
            raise TooBig(f"{func.qual}: {type(r).__name__}")
        return r


def match(q, pats):
    return any(fnmatch.fnmatchcase(q, p) for p in pats if not p.startswith("!")) \
        and not any(fnmatch.fnmatchcase(q, p[1:]) for p in pats if p.startswith("!"))


# ------------------------------------------------------------ counterparts

def counterpart(prog, q, spec):
    """The package function standing at the place the reference names."""
    if spec.cls is not None:
        c = prog.class_named(f"{spec.mod.name}.{spec.cls.name}") or prog.class_named(spec.cls.name)
        if c is None:
            return None, None
        r = prog.lookup(c, spec.name)
        return (r[1], c) if r and isinstance(r[1], Func) else (None, c)
    f = prog.func(q) or prog.func_named(spec.name)
    return f, None


def signature_diffs(ctx, prog, f, sprog, g):
    """Differences a caller could notice in parameters and defaults."""
    out = []
    ea, eb = Ev(prog), Ev(sprog)

    def shape(fn, ev):
        a = fn.args
        pos = list(a.posonlyargs) + list(a.args)
        if fn.cls is not None and "staticmethod" not in fn.deco and pos:
            skip = 1
        else:
            skip = 0
        rows = []
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            if i < skip:
                continue
            j = i - (len(pos) - nd)
            d = ev.default_term(fn, a.defaults[j]) if 0 <= j < nd else None
            rows.append(("pos" if i < len(a.posonlyargs) else "any", p.arg, d))
        kwo = {p.arg: (ev.default_term(fn, d) if d is not None else None) for p, d in zip(a.kwonlyargs, a.kw_defaults)}
        return rows, kwo, a.vararg is not None, a.kwarg is not None
    ra, ka, va, wa = shape(f, ea)
    rb, kb, vb, wb = shape(g, eb)
    if vb and not va or wb and not wa:
        out.append("no longer takes arbitrary arguments")
    for i, (kind, name, d) in enumerate(rb):
        if i >= len(ra):
            if name in ka and kind == "any":
                out.append(f"parameter {name} became keyword-only")
            elif not va:
                out.append(f"parameter {name} is gone")
            continue
        k2, n2, d2 = ra[i]
        if kind == "any" and (n2 != name or k2 == "pos"):
            out.append(f"parameter {name} is now {n2}{' (positional only)' if k2 == 'pos' else ''}")
        if d is not d2:
            if d is None:
                continue
            out.append(f"default of {name}: found {show(d2, 4) if d2 is not None else 'none'}, expected {show(d, 4)}")
    for kind, n2, d2 in ra[len(rb):]:
        if d2 is None and n2 not in kb:
            out.append(f"new required parameter {n2}")
    for name, d in kb.items():
        pool = dict(ka)
        pool.update({n: dd for k, n, dd in ra if k == "any"})
        if name not in pool:
            if not wa:
                out.append(f"keyword parameter {name} is gone")
            continue
        d2 = pool[name]
        if d is not None and d is not d2:
            out.append(f"default of {name}: found {show(d2, 4) if d2 is not None else 'none'}, expected {show(d, 4)}")
    for name, d in ka.items():
        if name not in kb and d is None and not any(n == name for _, n, _ in rb):
            out.append(f"new required keyword parameter {name}")
    return out


def extra_params(prog, f, g):
    """Parameters the reference does not know are bound to their defaults; parameters are
    identified as the reference identifies them."""
    ev = Ev(prog)

    def rows(fn):
        a = fn.args
        pos = list(a.posonlyargs) + list(a.args)
        skip = 1 if fn.cls is not None and "staticmethod" not in fn.deco and pos else 0
        nd = len(a.defaults)
        out = []
        for i, p in enumerate(pos):
            if i >= skip:
                j = i - (len(pos) - nd)
                out.append((p.arg, a.defaults[j] if 0 <= j < nd else None))
        return out, {p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults)}
    ra, ka = rows(f)
    rb, kb = rows(g)
    nb = [n for n, _ in rb]
    extra = {}
    for i, (n, d) in enumerate(ra):
        if i < len(rb):
            if n != nb[i] and n in nb and not private(f.name):
                extra[n] = mk("p", nb.index(n))
            continue
        if n in kb:
            extra[n] = mk("p", n)
        elif n in nb:
            extra[n] = mk("p", nb.index(n))
        elif d is not None:
            extra[n] = ev.default_term(f, d)
    for n, d in ka.items():
        if n in kb:
            continue
        if n in nb:
            extra[n] = mk("p", nb.index(n))
        elif d is not None:
            extra[n] = ev.default_term(f, d)
    return extra


def deco_diffs(f, g):
    def odd(fn):
        return {d for d in fn.deco if d not in PLAIN_DECO}
    a, b = odd(f), odd(g)
    return [f"decorator {d} was {'added' if d in a else 'removed'}" for d in sorted(a ^ b)]


# ---------------------------------------------------------------- checking

class Finding:
    def __init__(self, rule, where, construct, what):
        self.rule, self.where, self.construct, self.what = rule, where, construct, what

    def key(self):
        return f"{self.rule} {self.construct}"

    def __str__(self):
        return f"[{self.rule}] {self.where}: {self.what}"


def compare_with_reference(ctx, q, pats, ints_from=None):
    """Findings for one reference function; [] when every counterpart agrees."""
    spec = ctx.full.spec_funcs[q]
    f, c = counterpart(ctx.prog, q, spec)
    if f is None:
        if private(spec.name) or (spec.cls is not None and private(spec.cls.name)):
            return [], 0
        raise AnchorMissing(f"{q} is not in the package any more")
    out, n = [], 0
    targets = [(f, None, None)]
    for g, cl in ctx.asyncs.get(f, ()):
        if g.qual in ctx.full.spec_funcs:
            continue
        targets.append((g, ctx.tw, cl))
    part = ctx.overlay(pats)
    pspec = part.spec_funcs[q]
    ints = int_params(pspec)
    for fn, tw, cl in targets:
        n += 1
        r = _one(ctx, q, fn, tw, cl, c, spec, pspec, part, ints, ctx.full.opaque.get(q, ()))
        if r and inner(fn) and excused(ctx, fn):
            r = []
        out += r
    return out, n


def inner(fn):
    """Not part of what users of the package see."""
    return private(fn.name) or (fn.cls is not None and private(fn.cls.name) and fn.name != "__init__")


def users(ctx, fn):
    """Functions users see that may reach fn, by name."""
    prog = ctx.prog
    idx = prog.__dict__.get("_mentions")
    if idx is None:
        idx = prog._mentions = {}
        for f in prog.functions():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    idx.setdefault(n.attr, set()).add(f)
                elif isinstance(n, ast.Name):
                    idx.setdefault(n.id, set()).add(f)
    seen, todo, out = {fn}, [fn], []
    while todo:
        for f in idx.get(todo.pop().name, ()):
            if f not in seen:
                seen.add(f)
                if inner(f) or f.name.startswith("__") and f.name.endswith("__"):
                    todo.append(f)
                if not inner(f):
                    out.append(f)
    return sorted(out, key=lambda f: f.qual)


def excused(ctx, fn):
    """An internal function may do its work differently when everything users see and that
    it is a part of agrees with the reference, with the function opened in place."""
    if fn not in ctx._excused:
        ctx._excused[fn] = False          # while it is being decided
        ctx._excused[fn] = _excuse(ctx, fn)
    return ctx._excused[fn]


def _excuse(ctx, fn):
    seen = 0
    pats = ["aiootp.*"]
    part = ctx.overlay(pats)
    away = {f for f, g, cl in ctx.tw.pairs if (f is fn or g is fn) and inner(f)}
    spec_of = {}
    for q, spec in ctx.full.spec_funcs.items():
        f, c = counterpart(ctx.prog, q, spec)
        if f is not None:
            spec_of.setdefault(f, []).append((q, spec, c))
    for f in users(ctx, fn):
        rows = [(q, spec, c, f, None, None) for q, spec, c in spec_of.get(f, ())]
        for f2, g, cl in ctx.tw.pairs:
            if f2 is f and f not in spec_of:
                rows += [(q, spec, c, f, ctx.without(away), cl) for q, spec, c in spec_of.get(g, ())]
        if not rows:
            continue
        for q, spec, c, f, tw, cl in rows:
            used = []
            r = _one(ctx, q, f, tw, cl, c, spec, part.spec_funcs[q], part, int_params(spec), ctx.full.opaque.get(q, ()), used)
            a, b = used[-1] if used else (None, None)
            if b is not None and any(x.qual == fn.qual and x.mod.path == fn.mod.path for x in (*b.called, *b.inlined)):
                return False              # the model itself relies on it
            if r or a is None:
                if a is None or fn in a.called or fn in a.inlined:
                    return False
                continue
            if fn in a.called and fn not in a.inlined:
                return False
            seen += fn in a.inlined
    return seen > 0


def _one(ctx, q, fn, tw, cl, c, spec, pspec, part, ints, opaque, used=None):
    found = []
    if not private(fn.name):
        found += [Finding("signature", fn.where(), fn.qual, x) for x in signature_diffs(ctx, ctx.prog, fn, part, pspec)
                  if not (tw and "default" in x and _twin_default(x))]
    found += [Finding("decorator", fn.where(), fn.qual, x) for x in deco_diffs(fn, pspec)]
    if found:
        return found
    self_cls = cl[0] if cl else (fn.cls if fn.cls is not None else None)
    extra = extra_params(ctx.prog, fn, pspec)
    best, big = None, None
    for level, (prog2, sp) in (("", (part, pspec)), ("full ", (ctx.full, spec))):
        for pure in (None, ()):
            try:
                a = ctx.facts(ctx.prog, fn, ints=ints, twins=tw, pure=pure, self_cls=self_cls, opaque=opaque, extra=extra)
                b = ctx.facts(prog2, sp, ints=ints, pure=pure, opaque=opaque,
                              self_cls=prog2.class_named(_sync_cls(ctx, self_cls).qual) if self_cls is not None else None)
                if used is not None:
                    used.append((a, b))
                d = compare_facts(a, b)
                if a.saw_async and not d:
                    # asynchronous iterables are handled like synchronous ones
                    a = ctx.facts(ctx.prog, fn, ints=ints, twins=tw, pure=pure, self_cls=self_cls, opaque=opaque, extra=extra,
                                  given_async=True)
                    d = compare_facts(a, b)
            except TooBig as e:
                big = e
                continue
            if not d:
                ctx.stats["levels"][level + ("open" if pure == () else "folded")] = \
                    ctx.stats["levels"].get(level + ("open" if pure == () else "folded"), 0) + 1
                return []
            if best is None:
                best = d
    if best is None:
        raise big
    return [Finding("reference " + q, d[1], f"{fn.qual} {d[0]}", explain(d)) for d in best[:4]]


def _twin_default(x):
    return False


def _sync_cls(ctx, c):
    return ctx.tw.cmap.get(c, c)


# ---------------------------------------------------------------- constants

def _const(prog, mod, cls, expr):
    lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=expr)
    ast.copy_location(lam, expr)
    f = Func(mod, None, lam)
    ev = Ev(prog)
    env = {}
    if cls is not None:
        for n in ast.walk(expr):
            if isinstance(n, ast.Name) and n.id in cls.attrs and not isinstance(cls.attrs[n.id], (Func, Class)):
                v = cls.attrs[n.id]
                if v is expr or isinstance(v, SpecExpr) and v.expr is expr:
                    continue
                env[n.id] = ev.class_attr(cls, n.id)
    return facts(prog, f, extra=env)


def _pairs(e):
    """The entries of a dictionary written out."""
    if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
        return {k.value: v for k, v in zip(e.keys, e.values)}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and not e.args and all(k.arg for k in e.keywords):
        return {k.arg: k.value for k in e.keywords}
    return None


def compare_constant(ctx, q, pats):
    part = ctx.overlay(pats)
    mod, cls, expr = part.spec_consts[q]
    name = q.rsplit(".", 1)[-1]
    if cls is not None:
        c = ctx.prog.class_named(cls.qual) or ctx.prog.class_named(cls.name)
        r = ctx.prog.lookup(c, name) if c is not None else None
        if r is None or isinstance(r[1], (Func, Class)):
            if private(name) or c is None or private(c.name):
                return [], 0
            raise AnchorMissing(f"{q} is not in the package any more")
        pm, pc, pe = r[0].mod, r[0], r[1]
        where = f"{pm.rel}:{pe.lineno} {q}"
    else:
        m = ctx.prog.mods.get(mod.name)
        r = ctx.prog.resolve(m, name) if m is not None else ctx.prog._anywhere(name)
        if r is None or r[0] != "var":
            if private(name) or m is None or r is not None:
                return [], 0
            raise AnchorMissing(f"{q} is not in the package any more")
        pm, pc, pe = r[1], None, r[2]
        where = f"{pm.rel}:{pe.lineno} {q}"
    if name == "slots_types" and (mine := _pairs(pe)) is not None and (want := _pairs(expr)) is not None:
        out = []
        for k, e in want.items():
            d = compare_facts(_const(ctx.prog, pm, pc, mine[k]), _const(part, mod, cls, e)) if k in mine else None
            if k not in mine:
                out.append(Finding("value " + q, where, f"{q} {k}", f"no type is declared for {k} any more"))
            elif d:
                out.append(Finding("value " + q, where, f"{q} {k}", f"type of {k}: " + explain(d[0])))
        return out[:3], len(want)
    a = _const(ctx.prog, pm, pc, pe)
    best = None
    for p2 in (part, ctx.full):
        m2, c2, e2 = p2.spec_consts[q]
        d = compare_facts(a, _const(p2, m2, c2, e2))
        if not d:
            return [], 1
        best = best or d
    return [Finding("value " + q, where, q, explain(d)) for d in best[:3]], 1


def _names(prog, mod, expr):
    """The class an expression in a class header stands for: its simple name."""
    r = prog.resolve_expr(mod, expr)
    for _ in range(4):
        if r and r[0] == "var":
            r = prog.resolve_expr(r[1], r[2])
    if r and r[0] == "class":
        return r[1].name
    return (r[1] if r and r[0] == "ext" else ast.unparse(expr)).rsplit(".", 1)[-1]


def compare_class(ctx, q):
    """Ancestors and class arguments of a class the model describes."""
    mod, node = ctx.full.spec_classes[q]
    c = ctx.prog.class_named(q) or ctx.prog.class_named(node.name)
    if c is None:
        return [], 0
    have, kws = set(), {}
    for k in ctx.prog.mro(c):
        have.add(k.name)
        have.update(_names(ctx.prog, k.mod, b) for b in k.node.bases)
        for w in k.node.keywords:
            kws.setdefault(w.arg, (k, w.value))
    out = []
    for b in node.bases:
        n = _names(ctx.full, mod, b)
        if n not in have and not private(n):
            out.append(Finding("class " + q, c.where(), q, f"is no longer a {n}"))
    for w in node.keywords:
        if w.arg not in kws:
            out.append(Finding("class " + q, c.where(), q, f"class argument {w.arg} is gone"))
        elif w.arg == "metaclass":
            if _names(ctx.prog, kws[w.arg][0].mod, kws[w.arg][1]) != _names(ctx.full, mod, w.value):
                out.append(Finding("class " + q, c.where(), q, "has another metaclass"))
        else:
            k, e = kws[w.arg]
            d = compare_facts(_const(ctx.prog, k.mod, None, e), _const(ctx.full, mod, None, w.value))
            out += [Finding("class " + q, c.where(), f"{q} {w.arg}", explain(x)) for x in d[:1]]
    if not node.keywords and c.node.keywords and c.mod.name == mod.name:
        for w in c.node.keywords:
            if w.arg != "metaclass":
                out.append(Finding("class " + q, c.where(), q, f"new class argument {w.arg}"))
    return out, 1


def _import_work(tree):
    """What a module does when it is imported besides binding names, as a function."""
    body = []
    for st in tree.body:
        if isinstance(st, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Delete)):
            continue
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            tgs = st.targets if isinstance(st, ast.Assign) else [st.target]
            if all(isinstance(x, ast.Name) for tg in tgs for x in (tg.elts if isinstance(tg, ast.Tuple) else [tg])):
                continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        body.append(st)
    if not body:
        return None
    fn = ast.parse("def __import__(): pass").body[0]
    fn.body = body
    ast.copy_location(fn, body[0])
    return fn


def compare_import(ctx, name, pats):
    """The effects of importing a module."""
    m = ctx.prog.mods[name]
    spec = next((s for s in specs().values() if s.module == name), None)
    mine = _import_work(m.tree)
    want = _import_work(spec.tree) if spec is not None else None
    if mine is None and want is None:
        return [], 0
    empty = ast.parse("def __import__(): pass").body[0]
    a = facts(ctx.prog, Func(m, None, mine or empty))
    best = None
    for p2 in (ctx.overlay(pats), ctx.full):
        m2 = p2.spec_mods.get(name) or p2.mods[name]
        d = compare_facts(a, facts(p2, Func(m2, None, want or empty)))
        if not d:
            return [], 1
        best = best or d
    return [Finding("import " + name, d[1] or f"{m.rel}:1", f"{name} {d[0]}", explain(d)) for d in best[:3]], 1


SPECIAL = {f"__{n}__" for n in (
    "new init_subclass set_name get set delete class_getitem repr str format bytes eq ne lt le gt ge hash bool len iter next reversed "
    "contains getitem setitem delitem getattr getattribute setattr delattr dir call enter exit aenter aexit aiter anext await del "
    "copy deepcopy reduce reduce_ex getstate setstate int index add sub mul xor and or").split()}


def overrides(ctx, pats):
    """Methods and values the model does not know, in classes it does: one that takes the place of
    an inherited one must do the same, and none may change what the language does with instances."""
    prog = ctx.prog
    if not hasattr(ctx, "_described"):
        ctx._described = {counterpart(prog, q, s)[0] for q, s in ctx.full.spec_funcs.items()} | {f for f, g, cl in ctx.tw.pairs}
    out, n = [], 0
    for c in prog.classes():
        if not match(c.qual + ".x", pats) and not match(c.qual, pats) or "_typing" in c.mod.name:
            continue
        ours = any(k.qual in ctx.full.spec_classes for k in prog.mro(c))
        for name, v in c.attrs.items():
            if isinstance(v, Class) or name in ("__slots__", "__doc__", "__annotations__", "__module__"):
                continue
            r = prog.lookup(c, name, after=c)
            k = ctx.tw.cmap.get(c)
            if k is not None and k is not c and name in k.attrs and not isinstance(v, Func):
                r = k, k.attrs[name]
            if r is not None and "_typing" in r[0].mod.name:
                r = None
            if isinstance(v, Func):
                if v in ctx._described or not ours:
                    continue
                n += 1
                if r is None:
                    if name in SPECIAL:
                        out.append(Finding("special", v.where(), v.qual, f"{name} changes how instances of {c.name} behave"))
                elif not isinstance(r[1], Func):
                    out.append(Finding("override", v.where(), v.qual, f"takes the place of the value {r[0].name}.{name}"))
                elif (d := _override(ctx, v, r[1], c)):
                    out += [Finding("override", x[1], f"{v.qual} {x[0]}", f"not as in {r[1].qual}: " + explain(x)) for x in d[:2]]
                elif name != "__init__":
                    out += [Finding("override", v.where(), v.qual, x) for x in signature_diffs(ctx, prog, v, prog, r[1])[:2]]
            elif f"{c.qual}.{name}" not in ctx.full.spec_consts and r is not None and ours:
                n += 1
                if isinstance(r[1], Func):
                    out.append(Finding("override", f"{c.mod.rel}:{v.lineno} {c.qual}.{name}", f"{c.qual}.{name}",
                                       f"takes the place of the method {r[1].qual}"))
                elif not isinstance(r[1], Class):
                    d = compare_facts(_const(prog, c.mod, c, v), _const(prog, r[0].mod, r[0], r[1]))
                    out += [Finding("override", f"{c.mod.rel}:{v.lineno} {c.qual}.{name}", f"{c.qual}.{name}",
                                    f"not as in {r[0].qual}: " + explain(x)) for x in d[:1]]
    return out, n


def _lines(ctx):
    """Each class of the model with its ancestors in the order in which they are asked."""
    if not hasattr(ctx, "_mros"):
        sc = ctx.full.spec_classes
        by = {}
        for q in sc:
            by.setdefault(q.rsplit(".", 1)[-1], q)
        done = {}

        def line(q):
            if q not in done:
                done[q] = [q]
                bs = [by[n] for b in sc[q][1].bases if (n := ast.unparse(b).rsplit(".", 1)[-1]) in by and by[n] != q]
                seqs = [s for s in [list(line(b)) for b in bs] + [list(bs)] if s]
                while seqs:
                    h = next((s[0] for s in seqs if not any(s[0] in r[1:] for r in seqs)), seqs[0][0])
                    done[q].append(h)
                    seqs = [r for r in ([x for x in s if x != h] for s in seqs) if r]
            return done[q]

        ctx._mros = {q: line(q) for q in sc}
    return ctx._mros


def inherited(ctx, pats):
    """A method a class of the model has from an ancestor: the one it finds now must do the same."""
    prog, sf = ctx.prog, ctx.full.spec_funcs
    names = {}
    for q in sf:
        c, _, n = q.rpartition(".")
        if c in ctx.full.spec_classes:
            names.setdefault(c, set()).add(n)
    out, n = [], 0
    for q, line in _lines(ctx).items():
        c = prog.class_named(q)
        if c is None:
            continue
        for name in sorted(set().union(*(names.get(k, ()) for k in line)) - names.get(q, set())):
            if not match(f"{q}.{name}", pats):
                continue
            owner = next(k for k in line if name in names.get(k, ()))
            r = prog.lookup(c, name)
            n += 1
            if r is None:
                if not private(name):
                    out.append(Finding("inherit", c.where(), f"{q}.{name}", f"{c.name} has no {name} any more"))
                continue
            e = f"{owner}.{name}"
            g = counterpart(prog, e, sf[e])[0]
            if r[1] is g or g is None or not isinstance(r[1], Func) or r[1].qual not in sf:
                continue
            d = _override(ctx, r[1], g, c)
            out += [Finding("inherit", c.where(), f"{q}.{name} {x[0]}", f"{c.name} has {name} from {r[1].qual}, not as in {g.qual}: " + explain(x)) for x in (d or [])[:1]]
            if not d:
                out += [Finding("inherit", c.where(), f"{q}.{name}", f"{c.name} has {name} from {r[1].qual}: {x}")
                        for x in signature_diffs(ctx, prog, r[1], prog, g)[:2]]
    return out, n


def _override(ctx, f, g, c):
    best = None
    for pure in (None, ()):
        a = ctx.facts(ctx.prog, f, ints=int_params(g), pure=pure, self_cls=c, extra=extra_params(ctx.prog, f, g))
        b = ctx.facts(ctx.prog, g, ints=int_params(g), pure=pure, self_cls=c)
        d = compare_facts(a, b)
        if not d:
            return None
        best = best or d
    return best


def run_reference(ctx, pats, log=None):
    """All reference functions and values selected by the patterns."""
    out, n, nf, nc = [], 0, 0, 0
    for rule in (overrides, inherited):
        r, k = rule(ctx, pats)
        out += r
        nc += k
    for name in ctx.prog.mods:
        if match(name + ".__import__", pats) and "_typing" not in name:
            r, k = compare_import(ctx, name, pats)
            out += r
            nc += k
    for q in ctx.full.spec_funcs:
        if match(q, pats):
            r, k = ctx.within(lambda: compare_with_reference(ctx, q, pats), ([], 0))
            if log and r:
                log(q, r)
            out += r
            nf += k
    for q in ctx.full.spec_consts:
        if match(q, pats):
            r, k = compare_constant(ctx, q, pats)
            if log and r:
                log(q, r)
            out += r
            nc += k
    for q in ctx.full.spec_classes:
        if match(q, pats):
            r, k = compare_class(ctx, q)
            if log and r:
                log(q, r)
            out += r
            nc += k
    return out, nf, nc


def run_twins(ctx, pats, skip=()):
    """Asynchronous functions against their synchronous twins in the package itself."""
    out, n = [], 0
    for f, g, cl in ctx.tw.pairs:
        if not match(g.qual, pats) or match(g.qual, skip):
            continue
        n += 1
        if f.qual in ctx.full.spec_funcs:
            # the model gives this variant a description of its own
            out += ctx.within(lambda: compare_with_reference(ctx, f.qual, ["aiootp.*"])[0])
            out += ctx.within(lambda: compare_with_reference(ctx, g.qual, ["aiootp.*"])[0]) if g.qual in ctx.full.spec_funcs else []
            continue
        best = ctx.within(lambda: _twin(ctx, f, g, cl, ctx.tw))
        if best and inner(f) and inner(g) and _twin_excused(ctx, f, g):
            continue
        if best:
            out += [Finding("twin", d[1], f"{f.qual} {d[0]}", explain(d)) for d in best[:4]]
        elif not private(g.name):
            for x in signature_diffs(ctx, ctx.prog, f, ctx.prog, g) + signature_diffs(ctx, ctx.prog, g, ctx.prog, f):
                out.append(Finding("twin signature", f.where(), f.qual, x))
    return out, n


def _twin(ctx, f, g, cl, tw, used=None):
    """Differences between the two variants."""
    ints = int_params(g)
    opaque = ctx.full.opaque.get(g.qual, ())
    best = None
    for pure in (None, ()):
        a = ctx.facts(ctx.prog, f, ints=ints, twins=tw, pure=pure, self_cls=cl[0] if cl else None, opaque=opaque,
                      extra=extra_params(ctx.prog, f, g))
        b = ctx.facts(ctx.prog, g, ints=ints, pure=pure, self_cls=cl[1] if cl else None, opaque=opaque)
        if used is not None:
            used[:] = [a, b]
        d = compare_facts(a, b)
        if not d and a.saw_async:
            a = ctx.facts(ctx.prog, f, ints=ints, twins=tw, pure=pure, self_cls=cl[0] if cl else None, opaque=opaque,
                          extra=extra_params(ctx.prog, f, g), given_async=True)
            d = compare_facts(a, b)
        if not d:
            return None
        best = best or d
    return best


def _twin_excused(ctx, f, g):
    """Internal variants may split their work differently when all variants users see agree."""
    away = {f}
    seen = 0
    us = set(users(ctx, f)) | set(users(ctx, g))
    for f2, g2, cl in ctx.tw.pairs:
        if (f2 not in us and g2 not in us) or inner(f2) or f2.qual in ctx.full.spec_funcs:
            continue
        used = []
        try:
            d = _twin(ctx, f2, g2, cl, ctx.without(away), used)
        except TooBig:
            return False
        a, b = used
        if d and (f in a.called or f in a.inlined or g in b.called or g in b.inlined):
            return False
        if f in a.called and f not in a.inlined or g in b.called and g not in b.inlined:
            return False
        seen += f in a.inlined or g in b.inlined
    return seen > 0

"""Comparison of value-flow summaries.

`facts` turns the summary of a function into a small set of canonical terms:
what is returned, when each exception is raised and in which state, what is
yielded, and how the reachable objects are left.  Two functions agree when the
canonical terms are identical.
"""

import ast
import pathlib

from . import terms as _terms
from .loader import Program, Module, Func, Class, SpecExpr, AnchorMissing
from .terms import *
from .terms import _raw_ite
from .sem import Ev, UNDEF, DELETED, WORLD, VERDICT, ORDER, TooBig, _relguard, _root, _subst
from .twins import Twins

SPECS = pathlib.Path(__file__).parent / "specs"


# ---------------------------------------------------------------- overlay

class Spec:
    """The reference model: synchronous functions written down under specs/.

    Each file names the package module it describes in `MODULE = "..."`.
    """

    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(path.read_text(), str(path))
        self.module = None
        self.opaque = ()
        for st in self.tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                if st.targets[0].id == "MODULE":
                    self.module = ast.literal_eval(st.value)
                if st.targets[0].id == "OPAQUE":
                    self.opaque = tuple(ast.literal_eval(st.value))

    def functions(self):
        """(class name or None, function node) pairs."""
        for st in self.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield None, st
            elif isinstance(st, ast.ClassDef):
                for x in st.body:
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield st.name, x

    def constants(self):
        """(class name or None, name, value expression)"""
        for st in self.tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id not in ("MODULE", "OPAQUE"):
                yield None, st.targets[0].id, st.value
            elif isinstance(st, ast.ClassDef):
                for x in st.body:
                    if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                        yield st.name, x.targets[0].id, x.value


_SPECS = None


def specs():
    global _SPECS
    if _SPECS is None:
        _SPECS = {}
        for p in sorted(SPECS.glob("*.py")):
            s = Spec(p)
            if s.module:
                _SPECS[p.stem] = s
    return _SPECS


class Overlay(Program):
    """The package with the selected reference functions in place of its own.

    `select(qualified name)` says which reference functions and constants are
    put in; everything else stays as it is in the package.
    """

    def __init__(self, prog, select=lambda q: True):
        super().__init__(prog.repo, trees=prog.trees)
        self.select = select
        self.spec_funcs = {}
        self.spec_consts = {}
        self.spec_classes = {}
        self.spec_mods = {}
        self.opaque = {}
        for s in specs().values():
            self._apply(s)
        self._allf = None

    def _apply(self, s):
        base = self.mods.get(s.module)
        fresh = False
        if base is None:
            pkg = s.module.rpartition(".")[0]
            base = Module(s.module, s.path, s.tree, False, f"specs/{s.path.name}")
            fresh = True
            self.mods[s.module] = base
        m = Module(s.module, s.path, s.tree, base.is_pkg, f"specs/{s.path.name}")
        for st in s.tree.body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self._index(m, [st])
        m.base = base
        self.spec_mods[s.module] = m
        for st in s.tree.body:
            if isinstance(st, ast.ClassDef):
                self.spec_classes[f"{s.module}.{st.name}"] = (m, st)
        for cname, node in s.functions():
            q = f"{s.module}.{cname}.{node.name}" if cname else f"{s.module}.{node.name}"
            if not self.select(q):
                continue
            if cname is None:
                f = Func(m, None, node)
                base.defs[node.name] = ("func", f)
            else:
                d = base.defs.get(cname)
                c = d[1] if d and d[0] == "class" else self.class_named(cname)
                if c is None:
                    continue
                f = Func(m, c, node)
                c.attrs[node.name] = f
            f.qual = q
            self.spec_funcs[q] = f
            self.opaque[q] = s.opaque
        for cname, name, val in s.constants():
            q = f"{s.module}.{cname}.{name}" if cname else f"{s.module}.{name}"
            if not self.select(q):
                continue
            if cname is None:
                base.defs[name] = ("svar", m, val, name)
                self.spec_consts[q] = (m, None, val)
            else:
                d = base.defs.get(cname)
                c = d[1] if d and d[0] == "class" else self.class_named(cname)
                if c is not None:
                    c.attrs[name] = SpecExpr(m, val)
                    self.spec_consts[q] = (m, c, val)


# ------------------------------------------------------------------ facts

def _nonlocal(t):
    return _root(t) in ("self", "p", "g") or t in (WORLD, VERDICT, ORDER) or _handed(t)


def _handed(t):
    """Part of an object that a call outside of the analysed code handed over."""
    while t.k in ("a", "sub", "now"):
        t = t.a[0]
    return t.k == "call" and t.a[3] != 0


FRESH = ("new", "fresh", "hobj", "copyof", "bio")


class Facts:
    def __init__(self, func, table, where):
        self.func, self.table, self.where = func, table, where
        self.saw_async = False
        self.called, self.inlined = frozenset(), frozenset()


def int_params(func):
    out = set()
    a = func.args
    pos = list(a.posonlyargs) + list(a.args)
    start = 1 if func.cls is not None and "staticmethod" not in func.deco and pos else 0
    for i, p in enumerate(pos[start:]):
        if p.annotation is not None and ast.unparse(p.annotation) == "int":
            out.add(mk("p", i))
    for p in a.kwonlyargs:
        if p.annotation is not None and ast.unparse(p.annotation) == "int":
            out.add(mk("p", p.arg))
    return out


def facts(prog, func, ints=(), twins=None, opaque=(), pure=None, self_cls=None, extra=None, keep_raise_state=True,
          given_async=False):
    _terms.INTS.clear()
    _terms.INTS.update(ints)
    try:
        ev = Ev(prog, desync=twins, opaque=opaque, pure=pure, self_cls=self_cls, given_async=given_async)
        s = ev.run(func, args=extra)
        fx = _table(s, ev, func, keep_raise_state)
        fx.saw_async = ev.saw_async
        fx.called, fx.inlined = frozenset(ev.called), frozenset(ev.inlined)
        return fx
    finally:
        _terms.INTS.clear()


def _cases(exits):
    """Join alternative exits into one gated value, undefined elsewhere."""
    v = UNDEF
    for x in exits:
        v = ITE(x.guard, x.val, v)
    return v


def _table(s, ev, func, keep_raise_state, depth=0):
    tab, where = {}, {}
    rets = [x for x in s.exits if x.kind == "ret"]
    raises = [x for x in s.exits if x.kind == "raise"]
    yields = [x for x in s.exits if x.kind == "yield"]
    init = func.name == "__init__"

    def val(x):
        return lift(lambda y: _in(ev, x.store, y), [x.val])

    if rets:
        v = UNDEF
        for x in rets:
            v = ITE(x.guard, val(x), v)
        tab["returns"] = v
        where["returns"] = rets[0].where()
    else:
        tab["returns"] = UNDEF
    by = {}
    for x in raises:
        ctx = tuple(c[1] for c in x.ctx if c[0] in ("for", "while") and len(c) > 1)
        key = ("raises", show(x.val, 4), ctx)
        by.setdefault(key, []).append(x)
    for key, xs in by.items():
        name = f"raises {key[1]}" + ("" if not key[2] else " in loop " + "/".join(canon(c).d.hex()[:8] for c in key[2]))
        g = OR(*[x.guard for x in xs])
        tab[name] = OR(tab.get(name, FALSE), g)
        where[name] = xs[0].where()
        if keep_raise_state and not init:
            _heap(tab, where, ev, [(x.guard, x.store) for x in xs], name + ": ", xs[0].where(), None)
    if yields:
        seq = []
        for x in yields:
            ctx = tuple(c[1] if len(c) > 1 and c[1] is not None else mk("while") for c in x.ctx if c[0] in ("for", "while"))
            sub_ = {}
            _heap(sub_, {}, ev, [(x.guard, x.store)], "", "", None)
            seq.append(mk("y", ctx, x.guard, ITE(x.guard, val(x), UNDEF), tuple(sorted(sub_.items()))))
        tab["yields"] = mk("seq", tuple(seq))
        where["yields"] = yields[0].where()
    if rets:
        _heap(tab, where, ev, [(x.guard, x.store) for x in rets], "leaves ", rets[-1].where(), tab["returns"])
    by = {}
    for (name, term, x), g in ev.left.items():
        by.setdefault(name, []).append((term, x, g))
    for name, xs in by.items():
        key = f"finds self.{name} already set when it fails"
        tab[key] = mk("set", tuple(sorted(xs, key=lambda y: (y[0].d, y[1].d))))
        where[key] = func.where()
    _guarded(tab, where, ev)
    _close(tab, ev, depth)
    return Facts(func, tab, where)


def _guarded(tab, where, ev):
    """Which of the object's attributes are changed while which guards are held."""
    if not any(e.kind == "enter" for e in ev.effs):
        return
    rows, loc = {}, {}
    for e in ev.effs:
        if e.kind not in ("set", "touch") or e.guard is FALSE:
            continue
        b, name = e.data[0], e.data[1] if e.kind == "set" else None
        while b.k in ("a", "sub", "now") and b.a[0].k != "g":
            if b.k == "a":
                name = b.a[1]
            b = b.a[0]
        if b.k != "self" or name is None:
            continue
        held = tuple(sorted({w for w in e.withs() if not (w.k == "call" and w.a[0].k == "g" and "open" in w.a[0].a[0])},
                            key=lambda t: t.d))
        rows.setdefault(name, set()).add(mk("held", held))
        loc.setdefault(name, e.where())
    for name, hs in rows.items():
        if hs == {mk("held", ())}:
            continue
        tab[f"guards held while changing {name}"] = mk("set", tuple(sorted(hs, key=lambda t: t.d)))
        where[f"guards held while changing {name}"] = loc[name]


def _close(tab, ev, depth=0):
    """Local functions that escape are replaced by what they compute."""
    memo = {}

    def lam(t):
        if t in memo:
            return memo[t]
        memo[t] = mk("lam", "rec")
        f, cf = ev.types[t]
        sub_ = Ev(ev.prog, desync=ev.tw, opaque=ev.opaque_names, pure=ev.pure, self_cls=ev.self_cls,
                  given_async=ev.given_async)
        sub_.types = dict(ev.types)
        a = f.args
        env = {p.arg: mk("lp", depth, i) for i, p in enumerate(list(a.posonlyargs) + list(a.args))}
        env.update({p.arg: mk("lp", depth, p.arg) for p in a.kwonlyargs})
        if a.vararg:
            env[a.vararg.arg] = tup([mk("star", mk("lp", depth, "*"))])
        if a.kwarg:
            env[a.kwarg.arg] = mk("lp", depth, "**")
        s = sub_.run(f, args=env, parent=cf)
        sub_.fresh_self = False
        inner = _table(s, sub_, f, False, depth + 1).table
        memo[t] = mk("lam", tuple(sorted(inner.items())))
        return memo[t]

    for k, v in list(tab.items()):
        fns = [x for x in walk(v) if x.k == "fn" and x in ev.types]
        if fns and depth < 3:
            tab[k] = _subst(v, {x: lam(x) for x in fns})


def _in(ev, store, t):
    save, ev.store = ev.store, store
    try:
        return ev.v(t)
    finally:
        ev.store = save


def _heap(tab, where, ev, alts, prefix, loc, ret):
    keys = {}
    for g, st in alts:
        for k in st:
            keys[k] = 1
    vals = {}

    def get(k):
        v = UNDEF
        for g, st in alts:
            x = st.get(k)
            if x is None:
                x = ev.default_of(k)
            else:
                x = lift(lambda y: _in(ev, st, y), [x]) if k[1] not in ("$", "$abs", "$off") else x
            v = ITE(g, x, v)
        return v

    def base(k):
        v = UNDEF
        for g, st in alts:
            v = ITE(g, ev.default_of(k), v)
        return v
    seen = set()
    work = []
    if ret is not None:
        work.append(ret)
    for k in keys:
        if isinstance(k[0], T) and k[0].k == "caught":
            # a failure the caller never hears about
            v = get(k)
            if v is not base(k) and prefix == "leaves ":
                c = canon(k[0])
                name = f"absorbs {k[0].a[0]} of {show(c.a[1], 2)} {c.d.hex()[:8]}"
                tab[name] = v
                where[name] = loc
        elif not isinstance(k[0], T) or _nonlocal(k[0]):
            v = get(k)
            if v is not base(k):
                name = prefix + (f"{show(canon(k[0]), 5)}.{k[1]}" if isinstance(k[0], T) else k[1])
                tab[name] = v
                where[name] = loc
                work.append(v)
    fresh = {}
    for k in keys:
        if isinstance(k[0], T) and k[0].k in FRESH:
            fresh.setdefault(k[0], []).append(k)
    done = set()
    while work:
        t = work.pop()
        for x in walk(t):
            if x in fresh and x not in done:
                done.add(x)
                for k in fresh[x]:
                    v = get(k)
                    if v is base(k) and k[1] in ("$", "$abs"):
                        continue
                    c = canon(x)
                    name = prefix + f"{c.d.hex()[:10]}:{show(c, 3)}.{k[1]}"
                    tab[name] = v
                    where[name] = loc
                    work.append(v)


# ------------------------------------------------------------------- diff

def first_diff(a, b, depth=0):
    """The smallest pair of differing sub-terms reached in lock step."""
    if a is b:
        return None
    if not isinstance(a, T) or not isinstance(b, T):
        return (a, b)
    if a.k != b.k or len(a.a) != len(b.a) or depth > 60:
        return (a, b)
    if a.k == "ite" and a.a[0] is not b.a[0]:
        return (a, b)

    def flat(x):
        if isinstance(x, tuple):
            for y in x:
                yield from flat(y)
        else:
            yield x
    fa, fb = list(flat(a.a)), list(flat(b.a))
    if len(fa) != len(fb):
        return (a, b)
    ds = [(x, y) for x, y in zip(fa, fb) if (x is not y if isinstance(x, T) else x != y)]
    if len(ds) >= 1:
        r = first_diff(ds[0][0], ds[0][1], depth + 1)
        return r or (a, b)
    return (a, b)


_CANON = {}


OUTWARD = ("op", "call", "sub", "join", "a", "now", "st", "tuple", "list", "cmp")


def _outward(x):
    """Cases inside an operation become cases of its result."""
    parts, n = [], 1

    def flat(y):
        if isinstance(y, T):
            parts.append(y)
        elif isinstance(y, tuple):
            for z in y:
                flat(z)
    flat(x.a)
    most = 64 if x.k == "now" and sum(nleaves(y) > 1 for y in parts) == 1 else 16
    for y in parts:
        n *= nleaves(y)
        if n > most:
            return x
    if n == 1:
        return x

    def build(*ys):
        ys = iter(ys)

        def put(y):
            if isinstance(y, T):
                return next(ys)
            return tuple(put(z) for z in y) if isinstance(y, tuple) else y
        a = put(x.a)
        if x.k == "call" and x.a[0] is G("builtins.len") and len(a[1]) == 1 and a[1][0].k in ("list", "tuple") \
                and not any(e.k == "star" for e in a[1][0].a[0]):
            return C(len(a[1][0].a[0]))
        return rebuild(x.k, a)
    r = lift(build, parts, 64)
    return to_bool(r) if x.k == "cmp" else r


PREDICATES = tuple(G("builtins." + n) for n in "isinstance issubclass hasattr callable any all".split())


def _truth(x):
    """Is the value known to be True or False?"""
    if x.k in BOOLK:
        return True
    if x.k != "call":
        return False
    f = x.a[0]
    return f in PREDICATES or f.k in ("a", "g", "bm") and any(
        isinstance(n, str) and n.rsplit(".", 1)[-1].startswith(("is_", "has_")) for n in f.a)


INTEGERS = ("builtins.int", "builtins.bool")


def _about(atom):
    """(what the atom says, of what, compared with what)"""
    if atom.k == "cmp":
        o, x, y = atom.a
        if o == "is":
            for u, v in ((x, y), (y, x)):
                if is_c(u, None):
                    return "none", v, None
                if v.k == "a" and v.a[1] == "__class__" and u.k == "g":
                    return "class", v.a[0], u
        if o == "eq":
            for u, v in ((x, y), (y, x)):
                if u.k == "c":
                    return "eq", v, u
        if o == "lt":
            return "lt", x, y
    if atom.k == "call" and atom.a[0] is PREDICATES[0] and len(atom.a[1]) == 2:
        return "inst", atom.a[1][0], atom.a[1][1]
    if atom.k == "whole":
        return "whole", atom.a[0], None
    return "true", atom, None


def _forced(a, val, b):
    """What the value of one atom says of another: True, False or None."""
    (k, x, y), (m, u, w) = _about(a), _about(b)
    if k == m == "lt":
        return False if val and x is w and y is u else None
    if x is not u:
        return None
    if not val:
        if k == "whole":
            return False if m == "class" and w.a[0] in INTEGERS else None
        return False if k == "inst" and m == "class" and y is w else None
    if k == "whole":
        return False if m == "none" or m == "class" and w.a[0] in ("builtins.bytes", "builtins.str") else None
    if m == "whole":
        if k == "class":
            return True if y.a[0] in INTEGERS else False if y.a[0] in ("builtins.bytes", "builtins.str") else None
        return False if k == "none" else None
    if k == "none":
        if m == "inst":
            return False if w.k == "g" and w.a[0] != "builtins.object" else None
        return False if m in ("true", "class") or m == "eq" and not is_c(w, None) else None
    if k == "class":
        if m == "inst":
            return True if y is w else None
        return False if m == "none" or m == "class" and y is not w else None
    if k == "inst":
        return False if m == "none" and y.k == "g" and y.a[0] != "builtins.object" else None
    if k == "true":
        return False if m == "none" else None
    if k == "eq" and m == "eq" and y.a[0] == w.a[0]:
        return False if y is not w else None
    return None


_UNDER = {}


def _under(x):
    r = _UNDER.get(id(x))
    if r is None:
        r = _UNDER[id(x)] = frozenset() if x.k != "ite" else _under(x.a[1]) | _under(x.a[2]) | {x.a[0]}
    return r


def _assume(x, known):
    if x.k != "ite" or not any(a in known for a in _under(x)):
        return x
    v = known.get(x.a[0])
    if v is not None:
        return _assume(x.a[1] if v else x.a[2], known)
    return _raw_ite(x.a[0], _assume(x.a[1], known), _assume(x.a[2], known))


_IMPLIED = {}


def implied(x):
    """Cases that cannot arise, because one condition settles another, are left out."""
    if x.k != "ite":
        return x
    r = _IMPLIED.get(id(x))
    if r is not None:
        return r
    a, hi, lo = x.a[0], implied(x.a[1]), implied(x.a[2])
    below = _under(hi) | _under(lo)
    when = {v: {b: f for b in below if (f := _forced(a, v, b)) is not None} for v in (True, False)}
    if when[True]:
        if _assume(lo, when[True]) is _assume(hi, when[True]):
            r = lo
        hi = _assume(hi, when[True])
    if r is None and when[False]:
        if _assume(hi, when[False]) is _assume(lo, when[False]):
            r = hi
        lo = _assume(lo, when[False])
    r = r or _raw_ite(a, hi, lo)
    _IMPLIED[id(x)] = r
    _IMPLIED.setdefault(id(r), r)
    return r


def canon(t):
    """Truth values spelled out, wherever they are kept."""
    def bool_(x):
        if isinstance(x, T):
            return to_bool(x) if _truth(x) else x
        return tuple(bool_(y) for y in x) if isinstance(x, tuple) else x

    def settle(x):
        if isinstance(x, T):
            return implied(to_bool(x) if _truth(x) else x)
        return tuple(settle(y) for y in x) if isinstance(x, tuple) else x

    def one(x):
        if x.k == "ite":
            hi, lo = bool_(x.a[1]), bool_(x.a[2])
            return x if hi is x.a[1] and lo is x.a[2] else ITE(_raw_ite(x.a[0], TRUE, FALSE), hi, lo)
        a = tuple(settle(y) for y in x.a)
        x = x if a == x.a else mk(x.k, *a)
        return _outward(x) if x.k in OUTWARD else x
    return settle(rewrite(t, one, _CANON))


def compare_facts(code, spec):
    """[(fact name, location, got, expected)]"""
    out = []
    for k in sorted(set(code.table) | set(spec.table)):
        a, b = code.table.get(k), spec.table.get(k)
        if a is b or a is not None and b is not None and canon(a) is canon(b):
            continue
        out.append((k, code.where.get(k) or code.func.where(), a, b))
    return out


def explain(d):
    k, loc, a, b = d
    if a is None:
        return f"missing: {k} = {show(b, 6)[:300]}"
    if b is None:
        return f"unexpected: {k} = {show(a, 6)[:300]}"
    x, y = first_diff(a, b) or (a, b)
    sx = show(x, 6) if isinstance(x, T) else repr(x)
    sy = show(y, 6) if isinstance(y, T) else repr(y)
    return f"{k}: found {sx[:260]} where the model has {sy[:260]}"

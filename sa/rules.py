"""Rules checked directly on the resolved program."""

import ast
import signal

from .flow import trace, POLLS
from .loader import Func
from .oblig import Finding, match, counterpart
from .sem import Ev, TooBig
from .terms import *


class _Slow(Exception):
    pass


def _late(*_):
    raise _Slow()


def traces(ctx):
    """func -> (effects, summary) for every function of the package."""
    if getattr(ctx, "_traces", None) is None:
        ctx._traces = {}
        for f in ctx.prog.functions():
            if "_typing" in f.mod.name or not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            signal.signal(signal.SIGPROF, _late)
            signal.setitimer(signal.ITIMER_PROF, 60)
            try:
                ctx._traces[f] = trace(ctx.prog, f)
            except (TooBig, _Slow, RecursionError):
                continue
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
    return ctx._traces


# ---------------------------------------------------------------- atomicity

def atomic(ctx, pats):
    """State that is tested or read before a suspension point must not be written from
    that stale knowledge after it."""
    out, n = [], 0
    for f, (effs, s) in traces(ctx).items():
        if not match(f.qual, pats):
            continue
        at = {}
        for i, e in enumerate(effs):
            if e.kind in ("get", "set"):
                at.setdefault((e.data[0], e.data[1]), []).append(i)
        stops = [i for i, e in enumerate(effs) if e.kind == "suspend"]
        for j, w in enumerate(effs):
            if w.kind != "set" or f.name == "__init__" and w.data[0].k == "self":
                continue
            n += 1
            b, name, val = w.data[:3]
            t = mk("a", b, name)

            def has(x):
                return contains(x, lambda y: y is t)
            used = has(val)
            if not used and not (has(w.guard) and _excluded(t, w.guard, s)):
                continue
            last = next((i for i in reversed(at[(b, name)]) if i < j and AND(effs[i].guard, w.guard) is not FALSE), None)
            if last is None or effs[last].kind == "set":
                continue
            stop = next((i for i in stops if last < i < j and AND(effs[i].guard, w.guard) is not FALSE), None)
            if stop is not None:
                out.append(Finding(
                    "atomic", w.where(), f"{f.qual} {name}",
                    f"{name} is written from what was read at line {effs[last].line}, but others can run in between "
                    f"(line {effs[stop].line}: {effs[stop].data[0]})"))
    return _once(out), n


def _excluded(t, guard, s):
    """Whether the test of the state that lets the write happen refuses otherwise."""
    b = to_bool(t)
    for lit in (b, NOT(b)):
        if AND(guard, NOT(lit)) is FALSE and any(x.kind == "raise" and AND(x.guard, lit) is FALSE for x in s.exits):
            return True
    return False


def _once(fs):
    seen, out = set(), []
    for f in fs:
        if (f.rule, f.where, f.what) not in seen:
            seen.add((f.rule, f.where, f.what))
            out.append(f)
    return out


# ------------------------------------------------------------ cancellation

QUIET = {"asleep", "sleep", "isinstance", "issubclass", "bool", "len", "getattr", "hasattr", "type", "super", "repr", "str",
         "is_pending", "is_running", "is_done", "is_unused", "has_faulted", "is_exclusive"}


def _callee(node):
    f = node.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""


def _steps(node):
    """Calls and suspension points of an expression or simple statement, in order of evaluation."""
    if isinstance(node, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return
    for x in ast.iter_child_nodes(node):
        yield from _steps(x)
    if isinstance(node, ast.Await):
        yield "suspend", node
    elif isinstance(node, ast.Call) and _callee(node) not in QUIET and not _callee(node)[:1].isupper():
        yield "act", node


class _Cancel:
    """What a cancellation at any suspension point would leave undone (leaving) or unreverted (entering)."""

    def __init__(self, f, leaving):
        self.f, self.leaving, self.bad, self.n = f, leaving, [], 0

    def block(self, body, state, safe):
        for st in body:
            state = self.stmt(st, state, safe)
        return state

    def simple(self, nodes, state, safe):
        for node in nodes:
            for kind, x in _steps(node):
                if kind == "act":
                    self.n += 1
                    if self.leaving and state and not safe:
                        self.bad.append((x, state))
                    if not self.leaving:
                        state = state or x
                else:
                    self.n += 1
                    own = isinstance(x.value, ast.Call) and state is x.value
                    if self.leaving:
                        state = state or x
                    elif state and not safe and not own:
                        self.bad.append((x, state))
        return state

    def stmt(self, st, state, safe):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return state
        if isinstance(st, ast.Try):
            acts = lambda body: any(k == "act" for s in body for k, _ in self._all(s))
            shields = acts(st.finalbody) or any(
                acts(h.body) and (h.type is None or any(
                    isinstance(t, (ast.Name, ast.Attribute)) and (t.id if isinstance(t, ast.Name) else t.attr)
                    in ("BaseException", "CancelledError") for t in ast.walk(h.type)))
                for h in st.handlers)
            inner = self.block(st.body, state, safe or not self.leaving and shields)
            inner = self.block(st.orelse, inner, safe or not self.leaving and bool(st.finalbody) and shields)
            for h in st.handlers:
                self.block(h.body, state, safe or not self.leaving)
            if st.finalbody:
                end = self.block(st.finalbody, state, safe or not self.leaving)
                return inner or end
            return inner
        if isinstance(st, (ast.If, ast.While)):
            state = self.simple([st.test], state, safe)
            a = self.block(st.body, state, safe)
            b = self.block(st.orelse, state, safe)
            return a or b
        if isinstance(st, (ast.For, ast.AsyncFor)):
            state = self.simple([st.iter], state, safe)
            if isinstance(st, ast.AsyncFor) and self.leaving:
                state = state or st
            a = self.block(st.body, state, safe)
            return a or self.block(st.orelse, state, safe)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            state = self.simple([i.context_expr for i in st.items], state, safe)
            if isinstance(st, ast.AsyncWith) and self.leaving:
                state = state or st
            return self.block(st.body, state, safe)
        return self.simple([st], state, safe)

    def _all(self, st):
        for x in ast.walk(st):
            if isinstance(x, ast.Call) and _callee(x) not in QUIET:
                yield "act", x


def release(ctx, pats):
    """A task cancelled while it enters or leaves an asynchronous context gives back what it took:
    no step of leaving waits behind an unprotected suspension point, and no suspension point follows
    a step of entering without a handler that undoes it."""
    out, n = [], 0
    for f in ctx.prog.functions():
        if f.name not in ("__aenter__", "__aexit__") or "_typing" in f.mod.name or not match(f.qual, pats):
            continue
        c = _Cancel(f, f.name == "__aexit__")
        c.block(f.node.body, None, False)
        n += c.n
        for x, y in c.bad[:1]:
            a, b = (y, x) if c.leaving else (x, y)
            out.append(Finding("release", f"{f.mod.rel}:{x.lineno} in {f.qual}", f.qual,
                               f"a cancellation at `{ast.unparse(a)}` (line {a.lineno}) "
                               + (f"keeps `{ast.unparse(b)}` from being done" if c.leaving else f"leaves `{ast.unparse(b)}` in place")))
    return out, n


# ------------------------------------------------------------- interruption

EVERYTHING = {"BaseException", "CancelledError", "KeyboardInterrupt", "SystemExit", "GeneratorExit"}


def _stops(body):
    """Whether no path runs through the statements to their end: each raises."""
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.If) and st.orelse and _stops(st.body) and _stops(st.orelse):
            return True
        if isinstance(st, (ast.With, ast.AsyncWith)) and _stops(st.body):
            return True
        if isinstance(st, ast.Try) and (_stops(st.finalbody) or _stops(st.body) and all(_stops(h.body) for h in st.handlers)):
            return True
        if isinstance(st, (ast.Return, ast.Break, ast.Continue)):
            return False
    return False


def _own(node):
    """The nodes of a function, without those of functions and classes inside it."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(x))


def _bodies(f):
    yield f.node
    for x in ast.walk(f.node):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not f.node:
            yield x


def _takes_all(e):
    if e is None:
        return True
    if isinstance(e, ast.Tuple):
        return any(_takes_all(x) for x in e.elts)
    return (e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else "") in EVERYTHING


def swallow(ctx, pats):
    """A request to stop reaches whoever waits: what catches cancellations and interrupts raises
    again, or keeps what it caught."""
    out, n = [], 0
    for f in ctx.prog.functions():
        if "_typing" in f.mod.name or not match(f.qual, pats) or not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        n += 1
        for fn in _bodies(f):
            for x in _own(fn):
                bad = None
                if isinstance(x, ast.Try):
                    for h in x.handlers:
                        kept = h.name and any(isinstance(y, ast.Name) and y.id == h.name for st in h.body for y in ast.walk(st))
                        if _takes_all(h.type) and not kept and not _stops(h.body):
                            bad = h
                elif isinstance(x, (ast.With, ast.AsyncWith)):
                    for it in x.items:
                        e = it.context_expr
                        if isinstance(e, ast.Call) and e.args and any(map(_takes_all, e.args)) \
                                and ast.unparse(e.func).rsplit(".", 1)[-1] in ("suppress", "Ignore"):
                            bad = e
                if bad is not None:
                    out.append(Finding("swallow", f"{f.mod.rel}:{bad.lineno} in {f.qual}", f.qual,
                                       "catches cancellations and interrupts and carries on"))
    return out, n


LAZY = {"map", "filter", "zip", "reversed", "iter", "enumerate"}
WALKS = {"list", "tuple", "set", "frozenset", "dict", "sum", "sorted", "max", "min", "join", "extend", "deque", "gather", "update"}


def _walks(fn, name):
    """Places that walk through the named value to its end, each with the statements around it."""
    out = []

    def go(node, path):
        for field, v in ast.iter_fields(node):
            for i, x in enumerate(v if isinstance(v, list) else [v]):
                if not isinstance(x, ast.AST):
                    continue
                here = path + ((node, field, i),)
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                    whole = isinstance(node, (ast.For, ast.AsyncFor)) and field == "iter" and not any(
                        isinstance(y, (ast.Break, ast.Return)) for st in node.body for y in ast.walk(st))
                    whole = whole or isinstance(node, ast.comprehension) and field == "iter" or isinstance(node, (ast.Starred, ast.YieldFrom))
                    whole = whole or isinstance(node, ast.Call) and field == "args" and ast.unparse(node.func).rsplit(".", 1)[-1] in WALKS
                    if whole:
                        out.append((x, here))
                elif not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                    go(x, here)
    go(fn, ())
    return out


def _both(p, q):
    """Whether one run can pass both places."""
    for a, b in zip(p, q):
        if a != b:
            if a[0] is b[0] and a[1] != b[1]:
                if isinstance(a[0], (ast.If, ast.IfExp)) and {a[1], b[1]} == {"body", "orelse"}:
                    return False
                if isinstance(a[0], ast.Try) and "handlers" in (a[1], b[1]) and "finalbody" not in (a[1], b[1]):
                    return False
                return True
            if a[0] is b[0] and a[1] == "handlers":
                return False
            if a[0] is b[0] and isinstance(a[2], int) and a[1] in ("body", "orelse", "finalbody"):
                st = getattr(a[0], a[1])[min(a[2], b[2])]
                return not _leaves(st)
            return True
    return True


def _leaves(st):
    """Whether the statement, once the place in it is passed, always ends the run."""
    if isinstance(st, (ast.Return, ast.Raise)):
        return True
    return isinstance(st, ast.If) and bool(st.body) and isinstance(st.body[-1], (ast.Return, ast.Raise))


def lazy(ctx, pats):
    """A value that can be walked through only once is: it is not walked again, and it is not left
    aside as if naming it did the work."""
    out, n = [], 0
    for f in ctx.prog.functions():
        if "_typing" in f.mod.name or not match(f.qual, pats) or not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for fn in _bodies(f):
            nodes = list(_own(fn))
            for x in nodes:
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.GeneratorExp):
                    out.append(Finding("lazy", f"{f.mod.rel}:{x.lineno} in {f.qual}", f.qual, "nothing walks through this generator"))
                if not isinstance(x, ast.Assign) or len(x.targets) != 1 or not isinstance(x.targets[0], ast.Name):
                    continue
                v, name = x.value, x.targets[0].id
                if not (isinstance(v, ast.GeneratorExp) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in LAZY):
                    continue
                n += 1
                binds = [y for y in nodes if isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store)]
                if len(binds) != 1:
                    continue
                if isinstance(v, ast.GeneratorExp) and not any(
                        isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load) for y in ast.walk(fn)):
                    out.append(Finding("lazy", f"{f.mod.rel}:{x.lineno} in {f.qual}", f"{f.qual} {name}",
                                       f"nothing walks through the generator {name}"))
                ws = _walks(fn, name)
                for i, (a, p) in enumerate(ws):
                    for b, q in ws[i + 1:]:
                        if _both(p, q):
                            out.append(Finding("lazy", f"{f.mod.rel}:{b.lineno} in {f.qual}", f"{f.qual} {name}",
                                               f"{name} was used up at line {a.lineno}"))
    return _once(out), n


def declared(ctx, pats):
    """Containers with declared names take no others: no class among them lets its instances keep
    further attributes, but for the namespaces."""
    from .oblig import _lines
    out, n = [], 0
    lines = _lines(ctx)
    for c in ctx.prog.classes():
        anc = ctx.prog.mro(c)
        if "_typing" in c.mod.name or not any(k.name == "Slots" for k in anc):
            continue
        model = lines.get(c.qual) or next((lines[k.qual] for k in anc if k.qual in lines), ())
        if any(q.rsplit(".", 1)[-1] == "Namespace" for q in model):
            continue
        n += 1
        s = c.attrs.get("__slots__")
        if s is None:
            out.append(Finding("declared", c.where(), c.qual, "declares no slots: its instances take undeclared names"))
        elif any(isinstance(x, ast.Constant) and x.value == "__dict__" for x in ast.walk(s)):
            out.append(Finding("declared", c.where(), c.qual, "its instances take undeclared names"))
    return out, n


# ----------------------------------------------------------------- blocking

def blocking(ctx, pats):
    """No coroutine reaches a blocking call on the event loop; every coroutine is awaited."""
    tr = traces(ctx)
    workers = set()
    for f, (effs, s) in tr.items():
        for e in effs:
            if e.kind == "worker":
                t = e.data[0]
                g = next((x for x in tr if x.qual == (t.a[1] if t.k == "bm" else t.a[0])), None)
                if g is not None and not g.is_async:
                    workers.add(g)
    direct = {f: [e for e in effs if e.kind == "block" and not _polled(effs, e)] for f, (effs, s) in tr.items()}
    memo = {}

    def why(f, stack=()):
        if f in memo:
            return memo[f]
        if f not in tr or f in stack:
            return None
        r = None
        if f in workers:
            r = "does work the package otherwise hands to workers"
        own = [e for e in direct[f] if f in e.stack and not any(x.is_async for x in e.stack)]
        if r is None and own:
            r = f"calls {own[0].data[0].lstrip('.')} ({own[0].loc()})"
        if r is None:
            for e in tr[f][0]:
                if e.kind == "to" and e.data[2] and not e.data[0].is_async and f in e.stack \
                        and not any(x.is_async for x in e.stack):
                    x = why(e.data[0], stack + (f,))
                    if x:
                        r = x
                        break
        if not stack:
            memo[f] = r
        return r

    out, n = [], 0
    for f, (effs, s) in tr.items():
        for e in effs:
            if e.kind not in ("block", "to"):
                continue
            inner = next((x for x in reversed(e.stack) if x.is_async), None)
            if inner is None:
                continue
            n += 1
            if e.kind == "block" and e in direct[f]:
                out.append(Finding("blocking", e.where(), f"{inner.qual} {e.data[0]}",
                                   f"{e.data[0].lstrip('.')} blocks the event loop in {inner.qual}"))
            elif e.kind == "to" and e.data[2] and not e.data[0].is_async and e.data[0] not in e.stack:
                x = why(e.data[0])
                if x:
                    out.append(Finding("blocking", e.where(), f"{inner.qual} {e.data[0].qual}",
                                       f"{e.data[0].name} blocks the event loop in {inner.qual}: it {x}"))
    r, k = unawaited(ctx)
    return _once(out) + r, n + k


def _polled(effs, e):
    """A wait for something that a loop has polled until it was ready."""
    what, node, recv = e.data
    p = POLLS.get(what[1:])
    if p is None or recv is None:
        return False
    for c in effs:
        if c is e:
            return False
        if c.kind == "call" and c.data[0].k == "a" and c.data[0].a[1] == p[0] and c.data[0].a[0] is recv:
            w = next((x[1] for x in reversed(c.ctx) if x[0] == "while" and len(x) > 1 and x[1] is not None), None)
            r = to_bool(c.data[3])
            if w is not None and w.k == "while" and ("while", w) not in e.ctx and AND(w.a[0], NOT(r) if p[1] else r) is FALSE:
                return True
            if w is None and AND(e.guard, NOT(r) if p[1] else r) is FALSE:
                return True
    return False


TAKES_COROUTINES = ("gather", "new_task", "create_task", "ensure_future", "new_future", "run", "run_until_complete", "wait_for",
                    "shield", "wait", "as_completed", "run_coroutine_threadsafe")


def unawaited(ctx):
    """Coroutines that are created must be awaited, returned or handed to a scheduler."""
    parents = {}

    def up(mod):
        if mod not in parents:
            parents[mod] = {c: p for p in ast.walk(mod.tree) for c in ast.iter_child_nodes(p)}
        return parents[mod]
    out, n, seen = [], 0, set()
    for f, (effs, s) in traces(ctx).items():
        for e in effs:
            if e.kind != "to" or not e.data[0].is_async or e.data[0].is_gen or e.data[1] is None:
                continue
            node, where = e.data[1], e.func
            if where is None or id(node) in seen or e.data[0].name.startswith("__a"):
                continue
            seen.add(id(node))
            pm = up(where.mod)
            n += 1
            if _dropped(node, pm):
                out.append(Finding("awaited", e.where(), f"{where.qual} {e.data[0].name}",
                                   f"the coroutine {e.data[0].name}() is never awaited"))
    return out, n


def _dropped(node, pm):
    p = pm.get(node)
    while isinstance(p, (ast.IfExp, ast.Starred, ast.NamedExpr)):
        if isinstance(p, ast.IfExp) and p.test is node:
            return True
        node, p = p, pm.get(p)
    if isinstance(p, (ast.Expr, ast.BinOp, ast.Compare, ast.UnaryOp, ast.Subscript, ast.JoinedStr, ast.FormattedValue, ast.If,
                      ast.While, ast.BoolOp)):
        if isinstance(p, ast.BoolOp) and isinstance(pm.get(p), (ast.Await, ast.Return)):
            return False
        return True
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        name, fn = p.targets[0].id, p
        while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.Module)):
            fn = pm.get(fn)
        uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)]
        return all(_dropped(u, pm) or isinstance(pm.get(u), ast.Attribute) for u in uses)
    return False


# ------------------------------------------------------------------ masking

SAFE_CALLS = ("len", "type", "bool", "isinstance", "id")


def shown(t):
    """Values whose content can be read from an exception's arguments."""
    out = set()
    seen = set()

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                for y in x:
                    go(y)
            return
        if id(x) in seen:
            return
        seen.add(id(x))
        if x.k == "call" and x.a[0].k == "g" and x.a[0].a[0].rsplit(".", 1)[-1] in SAFE_CALLS:
            return
        if x.k in ("p", "elem", "rec") or x.k == "a" and x.a[0].k in ("self", "p", "new", "a", "elem", "now"):
            if x.k == "a" and x.a[1] in ("__class__", "__name__", "__qualname__"):
                return
            out.add(x)
            return
        if x.k == "ite":
            go(x.a[1])
            go(x.a[2])
            return
        for y in x.a:
            go(y)
    go(t)
    return out


def masking(ctx, pats):
    """Exceptions show nothing the reference does not show in the same place."""
    out, n = [], 0
    for q, spec in ctx.full.spec_funcs.items():
        f, c = counterpart(ctx.prog, q, spec)
        if f is None or spec.mod.name == "aiootp._exceptions":
            continue
        for g, tw, cl in [(f, None, None)] + [(g, ctx.tw, cl) for g, cl in ctx.asyncs.get(f, ()) if g.qual not in ctx.full.spec_funcs]:
            a = _messages(ctx, ctx.prog, g, tw, cl[0] if cl else g.cls, ctx.full.opaque.get(q, ()))
            if not a:
                n += 1
                continue
            b = {x for t, w in _messages(ctx, ctx.full, spec, None, None, ctx.full.opaque.get(q, ())) for x in shown(t)}
            for t, w in a:
                n += 1
                for x in sorted(shown(t) - b, key=lambda y: y.d):
                    out.append(Finding("masking", w, f"{g.qual} {show(x, 3)}", f"the exception shows {show(x, 3)}"))
    return _once(out), n


def _messages(ctx, prog, f, tw, cls, opaque):
    ev = Ev(prog, desync=tw, opaque=opaque, self_cls=cls if cls is not None else f.cls)
    signal.signal(signal.SIGPROF, _late)
    signal.setitimer(signal.ITIMER_PROF, 60)
    try:
        ev.run(f)
    except (TooBig, _Slow, RecursionError):
        return []
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return [(e.data[2], e.where()) for e in ev.effs if e.kind == "raise" and isinstance(e.data[2], T) and e.data[2] is not NONE]


RULES = {"atomic": atomic, "release": release, "swallow": swallow, "lazy": lazy, "declared": declared, "blocking": blocking, "masking": masking, "awaited": lambda ctx, pats: unawaited(ctx)}

"""Which exceptions a function may raise on purpose, over its calls (by name)."""

import ast
import builtins

from .loader import Func


def _called(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Attribute):
                yield f.attr
            elif isinstance(f, ast.Name):
                yield f.id


def _raised(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Raise) and x.exc is not None:
            e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
            if isinstance(e, ast.Attribute):
                yield e.attr
            elif isinstance(e, ast.Name):
                yield e.id


def _bases(prog, name):
    """Names of an exception class and of the classes it extends."""
    c = getattr(builtins, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return {k.__name__ for k in c.__mro__ if k is not object}
    out = set()
    for c in prog._cls_by_name.get(name, ()):
        if c.mod.name.endswith("._exceptions"):
            out.add(name)
            for k in prog.mro(c):
                out.add(k.name)
                for b in k.node.bases:
                    out |= _bases(prog, ast.unparse(b).rsplit(".", 1)[-1])
    return out


def constant(prog):
    """Names of methods that in every class of the package do nothing but answer a constant."""
    plain, other = set(), set()
    for f in prog.functions():
        body = [
            st for st in (f.node.body if isinstance(f.node.body, list) else ())
            if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant))
        ]
        if f.mod.name.startswith("aiootp._typing"):
            continue
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Constant) \
                and f.cls is not None and not isinstance(f.node, ast.AsyncFunctionDef):
            plain.add(f.name)
        else:
            other.add(f.name)
    return {n for n in plain - other if not n.startswith("__")}


def failing(prog):
    """name -> names of the exception classes functions of that name may raise."""
    direct, calls = {}, {}
    makers = {}
    for f in prog.functions():
        if f.mod.name.endswith("._exceptions"):
            made = set()
            for n in _called(f.node):
                made |= _bases(prog, n)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Return) and isinstance(x.value, (ast.Name, ast.Attribute)):
                    made |= _bases(prog, getattr(x.value, "attr", getattr(x.value, "id", "")))
            makers.setdefault(f.name, set()).update(made)
    for f in prog.functions():
        if f.mod.name.endswith("._exceptions"):
            continue
        n = f.name
        got = direct.setdefault(n, set())
        for r in _raised(f.node):
            got |= makers.get(r) or _bases(prog, r)
        calls.setdefault(n, set()).update(c for c in _called(f.node) if c != n)
    changed = True
    while changed:
        changed = False
        for n, cs in calls.items():
            for c in cs:
                extra = direct.get(c, set()) - direct[n]
                if extra:
                    direct[n] |= extra
                    changed = True
    return {n: frozenset(s) for n, s in direct.items() if s}

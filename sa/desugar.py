"""Equivalent spellings of loops, brought to one form before they are analysed.

    i = a; while i < n: ...; i += 1      ->  for i in range(i, n)
    for i in range(len(xs)): ... xs[i]   ->  for x in xs   (enumerate when i itself is used)
    P; while c: R; P                     ->  while True: P; if not c: break; R
    while True: if c: break; R           ->  while not c: R
    while True: ... return E             ->  while True: ... break; return E
    if c: continue; R   (in a loop)      ->  if not c: R
    f = x.method; ... f(y)               ->  x.method(y)
"""

import ast


class Term(ast.expr):
    """An expression whose value is given."""
    _fields = ()

    def __init__(self, term):
        super().__init__()
        self.term = term


_seen = {}
_n = 0


def block(stmts, func):
    """The statements of one block, in normal form."""
    key = id(stmts)
    hit = _seen.get(key)
    if hit is not None and hit[0] is stmts:
        return hit[1]
    out = stmts
    if stmts is getattr(func.node, "body", None):
        out = _bound(stmts, func)
    out = _block(out, func)
    _seen[key] = (stmts, out)
    _seen[id(out)] = (out, out)
    return out


def _block(stmts, func):
    if not any(isinstance(s, (ast.While, ast.For, ast.AsyncFor)) for s in stmts):
        return stmts
    out = []
    skip = 0
    for i, s in enumerate(stmts):
        if skip:
            skip -= 1
            continue
        end = None
        if isinstance(s, ast.While):
            s, end = _leaves(s)
        if isinstance(s, ast.While):
            s = _counter(out, s, func) or s
        if isinstance(s, ast.While):
            r = _rotated(out, s)
            if r is not None:
                s, skip = _ended(r, stmts[i + 1:])
        if isinstance(s, ast.While):
            s = _tested(s)
        if isinstance(s, ast.While):
            s = _lasting(s)
        if isinstance(s, ast.For):
            s = _indexed(s)
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            s = _skips(s)
        out.append(s)
        if end is not None:
            out.append(end)
            break
    return out if len(out) != len(stmts) or any(a is not b for a, b in zip(out, stmts)) else stmts


class _Direct(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == self.name:
            import copy
            n.func = ast.copy_location(copy.deepcopy(self.value), n.func)
        return n


def _bound(stmts, func):
    """Methods called through a name they were given once."""
    a = func.node.args
    params = {x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg) if x is not None}
    out = stmts
    k = 0
    while k < len(out):
        s = out[k]
        v = s.value if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else None
        if isinstance(v, ast.Attribute):
            new = _direct(out, k, s.targets[0].id, v, params)
            if new is not None:
                out = new
                continue
        k += 1
    return out


def _direct(stmts, k, name, v, params):
    path, root = [], v.value
    while isinstance(root, ast.Attribute):
        path.append(root.attr)
        root = root.value
    if not isinstance(root, ast.Name) or name in params or root.id == name:
        return None
    if root.id not in params and not any(root.id in stores(own([s])) for s in stmts[:k]):
        return None                       # something of the module
    called = {id(n.func) for s in stmts[k + 1:] for n in ast.walk(s) if isinstance(n, ast.Call)}
    uses = 0
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
                return None
            if isinstance(n, ast.Name) and n.id == name:
                if isinstance(n.ctx, ast.Load):
                    if id(n) not in called:
                        return None
                    uses += 1
                elif n is not stmts[k].targets[0]:
                    return None
    if not uses:
        return None
    for s in stmts[k + 1:]:
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and any(
                    isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)):
                return None
            if isinstance(n, ast.Name) and n.id == root.id and not isinstance(n.ctx, ast.Load):
                return None
            if isinstance(n, ast.Attribute) and n.attr in path and not isinstance(n.ctx, ast.Load):
                return None
    import copy
    new = _Direct(name, v)
    return [*stmts[:k], *(new.visit(copy.deepcopy(s)) for s in stmts[k + 1:])]


def _like(new, old):
    ast.copy_location(new, old)
    for n in ast.walk(new):
        if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr)):
            n.lineno, n.col_offset = getattr(old, "lineno", 0), 0
            n.end_lineno, n.end_col_offset = getattr(old, "end_lineno", 0), 0
    return new


def own(body):
    """Nodes of a loop body, without what nested functions hold."""
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def jumps(body, kind):
    """Does the body leave an iteration of this very loop by such a statement?"""
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, kind):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
            st.extend(n.orelse)
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def stores(nodes):
    return {n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def _simple(e):
    """Reads nothing that a loop body could change without naming it."""
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    if isinstance(e, ast.Attribute):
        return e.attr.isupper() and _simple(e.value)
    if isinstance(e, ast.BinOp):
        return _simple(e.left) and _simple(e.right)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
        return isinstance(e.args[0], ast.Name)
    return False


def _grows(body, name):
    """May the body change the collection of that name?"""
    for n in own(body):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id == name:
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) \
                and n.value.id == name:
            return True
    return False


def _counter(before, s, func):
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1) or len(s.body) < 2:
        return None
    if isinstance(t.ops[0], ast.Lt):
        i, n = t.left, t.comparators[0]
    elif isinstance(t.ops[0], ast.Gt):
        n, i = t.left, t.comparators[0]
    else:
        return None
    if not isinstance(i, ast.Name) or not _simple(n):
        return None
    last, step = s.body[-1], None
    if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) \
            and last.target.id == i.id:
        step = last.value
    elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) \
            and last.targets[0].id == i.id and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
        l, r = last.value.left, last.value.right
        if isinstance(l, ast.Name) and l.id == i.id:
            step = r
        elif isinstance(r, ast.Name) and r.id == i.id:
            step = l
    if not (isinstance(step, ast.Constant) and type(step.value) is int and step.value > 0):
        return None
    body = s.body[:-1]
    st = stores(own(body))
    if i.id in st or jumps(body, ast.Continue):
        return None
    names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    if names & (st | {i.id}) or any(_grows(body, x) for x in names):
        return None
    inside = {id(x) for x in ast.walk(s)}
    for x in ast.walk(func.node):
        if isinstance(x, ast.Name) and x.id == i.id and isinstance(x.ctx, ast.Load) and id(x) not in inside:
            return None
    start = ast.Name(i.id, ast.Load())
    for p in reversed(before):
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == i.id:
            if isinstance(p.value, ast.Constant):
                start = p.value
            break
        if i.id in stores(ast.walk(p)):
            break
    args = [n] if isinstance(start, ast.Constant) and start.value == 0 and step.value == 1 else \
        [start, n] if step.value == 1 else [start, n, step]
    return _like(ast.For(ast.Name(i.id, ast.Store()), ast.Call(ast.Name("range", ast.Load()), args, []), body, s.orelse), s)


class _Swap(ast.NodeTransformer):
    def __init__(self, seq, idx, new):
        self.seq, self.idx, self.new, self.hits = seq, idx, new, 0

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and n.slice.id == self.idx \
                and ast.dump(n.value) == self.seq:
            self.hits += 1
            return ast.copy_location(ast.Name(self.new, ast.Load()), n)
        self.generic_visit(n)
        return n


def _indexed(s):
    global _n
    it = s.iter
    if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and not it.keywords
            and isinstance(s.target, ast.Name)):
        return s
    a = it.args
    if len(a) in (2, 3):
        if not (isinstance(a[0], ast.Constant) and a[0].value == 0) or len(a) == 3 and not (
                isinstance(a[2], ast.Constant) and a[2].value == 1):
            return s
        a = a[1:2]
    if len(a) != 1 or not (isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Name) and a[0].func.id == "len"
                           and len(a[0].args) == 1 and isinstance(a[0].args[0], ast.Name)):
        return s
    xs, i = a[0].args[0], s.target.id
    if {xs.id, i} & stores(own(s.body)) or _grows(s.body, xs.id):
        return s
    if any(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for n in own(s.body)):
        return s
    import copy
    _n += 1
    new = f"$item{_n}"
    sw = _Swap(ast.dump(xs), i, new)
    body = [sw.visit(copy.deepcopy(b)) for b in s.body]
    if not sw.hits:
        return s
    left = any(isinstance(n, ast.Name) and n.id == i for b in body for n in ast.walk(b))
    if left:
        target = ast.Tuple([ast.Name(i, ast.Store()), ast.Name(new, ast.Store())], ast.Store())
        it = ast.Call(ast.Name("enumerate", ast.Load()), [xs], [])
    else:
        target, it = ast.Name(new, ast.Store()), xs
    return _like(ast.For(target, it, body, s.orelse), s)


def _rotated(before, s):
    if s.orelse or jumps(s.body, ast.Continue) or (isinstance(s.test, ast.Constant)):
        return None
    dump = [ast.dump(x) for x in s.body]
    for m in range(min(len(before), len(s.body)), 0, -1):
        if [ast.dump(x) for x in before[-m:]] == dump[-m:]:
            stop = ast.If(_not(s.test), [ast.Break()], [])
            body = [*s.body[-m:], _like(stop, s.test), *s.body[:-m]]
            if any(isinstance(x, (ast.Break, ast.Continue)) for x in s.body[-m:]):
                continue
            del before[-m:]
            return _like(ast.While(ast.Constant(True), body, []), s)
    return None


def _ended(s, after):
    """What follows the test in the body and again follows the loop is done before the test."""
    k = next((i for i, x in enumerate(s.body) if isinstance(x, ast.If) and len(x.body) == 1 and isinstance(x.body[0], ast.Break)
              and not x.orelse), None)
    if k is None:
        return s, 0
    rest = s.body[k + 1:]
    test = s.body[k].test
    read = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)}
    if not rest or len(after) < len(rest) or [ast.dump(x) for x in rest] != [ast.dump(x) for x in after[:len(rest)]]:
        return s, 0
    if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len") for x in ast.walk(test)):
        return s, 0
    for x in rest:
        c = x.value if isinstance(x, ast.Expr) else None
        f = c.func if isinstance(c, ast.Call) else None
        if not isinstance(f, (ast.Name, ast.Attribute)) or not all(isinstance(a, ast.Name) for a in c.args) or c.keywords \
                or any(isinstance(y, ast.Name) and y.id in read for y in ast.walk(f)):
            return s, 0
    return _like(ast.While(s.test, [*s.body[:k], *rest, s.body[k]], []), s), len(rest)


def _lasting(s):
    """`while xs:` whose body only goes through `xs`: decided once, before the first round."""
    if not isinstance(s.test, ast.Name) or s.orelse:
        return s
    n = s.test.id
    through = [f.iter for f in ast.walk(s) if isinstance(f, (ast.For, ast.AsyncFor))]
    through += [y.value for y in ast.walk(s) if isinstance(y, ast.YieldFrom)]
    body = [x for b in s.body for x in ast.walk(b)]
    if any(isinstance(x, ast.Name) and x.id == n and not any(x is y for y in through) for x in body):
        return s
    if any(isinstance(x, (ast.Break, ast.Return, ast.Nonlocal, ast.Global, ast.FunctionDef, ast.Lambda)) for x in body) \
            or not any(x.id == n for x in through if isinstance(x, ast.Name)):
        return s
    return _like(ast.If(s.test, [_like(ast.While(ast.Constant(True), s.body, []), s)], []), s)


def _not(e):
    return e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else ast.UnaryOp(ast.Not(), e)


def _tested(s):
    t = s.test
    while isinstance(t, ast.Constant) and t.value is True or isinstance(t, ast.Constant) and t.value == 1:
        f = s.body[0]
        if isinstance(f, ast.If) and not f.orelse and len(f.body) == 1 and isinstance(f.body[0], ast.Break) \
                and not s.orelse and len(s.body) > 1:
            return _like(ast.While(_not(f.test), s.body[1:], []), s)
        break
    return s


class _Leave(ast.NodeTransformer):
    def __init__(self, name):
        self.name = name

    def visit_Return(self, n):
        b = ast.copy_location(ast.Break(), n)
        if self.name is None:
            return b
        v = n.value or ast.copy_location(ast.Constant(None), n)
        return [_like(ast.Assign([ast.Name(self.name, ast.Store())], v), n), b]

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef


def _leaves(s):
    """A loop that is only left by returning."""
    global _n
    if s.orelse or not (isinstance(s.test, ast.Constant) and s.test.value) or jumps(s.body, ast.Break):
        return s, None
    rs = [n for n in own(s.body) if isinstance(n, ast.Return)]
    if not rs:
        return s, None
    for n in own(s.body):
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)) and any(isinstance(x, ast.Return) for x in own([n])):
            return s, None
        if isinstance(n, ast.Try) and n.finalbody:
            return s, None
    import copy
    name = None
    if len({ast.dump(r.value) if r.value else "Constant(value=None)" for r in rs}) > 1 or any(
            isinstance(n, ast.NamedExpr) for r in rs for n in ast.walk(r)):
        _n += 1
        name = f"$left{_n}"
    new = _Leave(name)
    body = []
    for b in copy.deepcopy(s.body):
        b = new.visit(b)
        body.extend(b if isinstance(b, list) else [b])
    value = rs[0].value if name is None else ast.Name(name, ast.Load())
    return _like(ast.While(s.test, body, []), s), _like(ast.Return(value), s)


def _skips(s):
    body = _unskip(s.body)
    if body is s.body:
        return s
    if isinstance(s, ast.While):
        new = ast.While(s.test, body, s.orelse)
    else:
        new = s.__class__(s.target, s.iter, body, s.orelse)
    return _like(new, s)


def _unskip(body):
    for k, f in enumerate(body):
        if isinstance(f, ast.If) and not f.orelse and len(f.body) == 1 and isinstance(f.body[0], ast.Continue) and k + 1 < len(body):
            rest = _unskip(body[k + 1:])
            return [*body[:k], _like(ast.If(_not(f.test), rest, []), f)]
    return body

"""Hash-consed value terms and a canonical (ordered, reduced) decision-diagram
form for guards and gated values.

A term describes *what* a value is made of, independent of local names,
statement order, helper boundaries, positional/keyword style and so on.
"""

import hashlib

_TAB = {}


class T:
    __slots__ = ("k", "a", "d", "n", "top")

    def __repr__(self):
        return show(self)


def _key(x):
    if isinstance(x, T):
        return ("T", id(x))
    if isinstance(x, tuple):
        return ("t",) + tuple(_key(y) for y in x)
    return (type(x).__name__, x)


def _dig(x, h):
    if isinstance(x, T):
        h.update(b"T" + x.d)
    elif isinstance(x, tuple):
        h.update(b"(")
        for y in x:
            _dig(y, h)
        h.update(b")")
    else:
        h.update(f"{type(x).__name__}:{x!r};".encode())


def _size(x):
    if isinstance(x, T):
        return x.n
    if isinstance(x, tuple):
        return sum(_size(y) for y in x)
    return 0


def mk(k, *a):
    key = (k,) + tuple(_key(x) for x in a)
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        h = hashlib.sha1(k.encode() + b"|")
        _dig(a, h)
        t.d = h.digest()
        t.n = min(1 + _size(a), 10**9)
        _TAB[key] = t
    return t


def C(v):
    return mk("c", type(v).__name__, v)


TRUE = C(True)
FALSE = C(False)
NONE = C(None)
G = lambda name: mk("g", name)


def is_c(t, v=...):
    return t.k == "c" and (v is ... or (t.a[0] == type(v).__name__ and t.a[1] == v))


def cval(t):
    return t.a[1]


def kids(t):
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st.extend(x)


def walk(t):
    """Every distinct sub-term, including t."""
    seen = set()
    st = [t] if isinstance(t, T) else list(t)
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st.extend(kids(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def rewrite(t, fn, memo=None):
    """Bottom-up rewrite; fn(term)->term."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, T):
            r = memo.get(id(x))
            if r is None:
                a = tuple(go(y) for y in x.a)
                y = x if a == x.a else rebuild(x.k, a)
                r = fn(y)
                memo[id(x)] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    return go(t)


def rebuild(k, a):
    if k == "op":
        return op(a[0], *a[1])
    if k == "cmp":
        return cmp_(a[0], a[1], a[2])
    if k == "ite":
        return ITE(a[0], a[1], a[2])
    if k == "sub":
        return sub(a[0], a[1])
    if k == "now" and a[1].k == "s0":
        return a[0]
    return mk(k, *a)


# ---------------------------------------------------------------- booleans

BOOLK = {"cmp", "isinst"}


def _atom_key(t):
    return t.d


def _top(x):
    return x.a[0] if x.k == "ite" else None


def _cof(x, atom, pol):
    if x.k == "ite" and x.a[0] is atom:
        return x.a[1] if pol else x.a[2]
    return x


_ITE = {}


def _raw_ite(atom, hi, lo):
    if hi is lo:
        return hi
    # walking through an empty collection changes nothing
    if hi.k == "mu" and hi.a[0] is atom and hi.a[1] is lo:
        return hi
    if hi.k == "now" and hi.a[0] is lo and hi.a[1].k == "mu" and hi.a[1].a[0] is atom and hi.a[1].a[1].k == "s0":
        return hi
    if hi.k == "comp" and lo.k == "list" and not lo.a[0] and hi.a[0] == "seq" and hi.a[2][0][0] is atom:
        return hi
    return mk("ite", atom, hi, lo)


def to_bool(x):
    """A value used as a condition -> decision diagram over atoms."""
    if x.k == "c":
        return TRUE if cval(x) else FALSE
    if x.k == "ite":
        return _ite3(_raw_ite(x.a[0], TRUE, FALSE), to_bool(x.a[1]), to_bool(x.a[2]))
    if x.k == "call" and x.a[0].k == "g" and x.a[0].a[0] == "builtins.len" and len(x.a[1]) == 1:
        return to_bool(x.a[1][0])
    if x.k == "comp" and len(x.a[2]) == 1 and x.a[2][0][1] is TRUE and x.a[0] in ("set", "seq"):
        return to_bool(x.a[2][0][0])
    if x.k in ("new", "bm", "fn", "hobj"):
        return TRUE
    if x.k in ("tuple", "list", "dictlit") and isinstance(x.a[0], tuple):
        if not any(y.k == "star" for y in x.a[0] if isinstance(y, T)):
            return TRUE if x.a[0] else FALSE
    return _raw_ite(x, TRUE, FALSE)


def _ite3(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (id(c), id(a), id(b))
    r = _ITE.get(key)
    if r is not None:
        return r[0]
    tops = [x for x in (_top(c), _top(a), _top(b)) if x is not None]
    atom = min(tops, key=_atom_key)
    hi = _ite3(_cof(c, atom, True), _cof(a, atom, True), _cof(b, atom, True))
    lo = _ite3(_cof(c, atom, False), _cof(a, atom, False), _cof(b, atom, False))
    r = _raw_ite(atom, hi, lo)
    _ITE[key] = (r, c, a, b)
    return r


def ITE(c, a, b):
    return _ite3(to_bool(c), a, b)


def AND(*xs):
    r = TRUE
    for x in xs:
        r = _ite3(r, to_bool(x), FALSE)
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = _ite3(r, TRUE, to_bool(x))
    return r


def NOT(x):
    return _ite3(to_bool(x), FALSE, TRUE)


def implies(a, b):
    return OR(NOT(a), b) is TRUE


def value(x):
    """Collapse a boolean diagram of one boolean-kinded atom to that atom."""
    if x.k == "ite" and x.a[1] is TRUE and x.a[2] is FALSE and x.a[0].k in BOOLK:
        return x.a[0]
    return x


def restrict(x, guard):
    """Simplify gated value x knowing that guard holds."""
    if x.k != "ite" or guard is TRUE:
        return x
    atom = x.a[0]
    if AND(guard, atom) is FALSE:
        return restrict(x.a[2], guard)
    if AND(guard, NOT(atom)) is FALSE:
        return restrict(x.a[1], guard)
    return _raw_ite(
        atom,
        restrict(x.a[1], AND(guard, atom)),
        restrict(x.a[2], AND(guard, NOT(atom))),
    )


_SEP = {}


def separate(g, rest):
    """The simplest condition that holds wherever g does and nowhere that rest does."""
    if g is FALSE or rest is FALSE or AND(g, rest) is not FALSE:
        return g
    key = (g, rest)
    f = _SEP.get(key)
    if f is not None:
        return f
    f = restrict(g, OR(g, rest))
    atoms = bdd_atoms(f)
    if 1 < len(atoms) <= 40:
        for a in sorted(atoms, key=lambda a: (a.k not in ("raises", "loopexit", "exitby"), a.d)):
            for pol in (True, False):
                h = _fix(f, a, pol, {})
                if AND(g, NOT(h)) is FALSE and AND(rest, h) is FALSE:
                    f = h
                    break
    _SEP[key] = f
    return f


def _fix(x, atom, pol, memo):
    if x.k != "ite":
        return x
    if x.a[0] is atom:
        return x.a[1] if pol else x.a[2]
    r = memo.get(id(x))
    if r is None:
        r = memo[id(x)] = _raw_ite(x.a[0], _fix(x.a[1], atom, pol, memo), _fix(x.a[2], atom, pol, memo))
    return r


def bdd_atoms(x):
    out = set()
    st = [x]
    seen = set()
    while st:
        y = st.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if y.k == "ite":
            out.add(y.a[0])
            st += [y.a[1], y.a[2]]
    return out


def leaves(x, guard=TRUE):
    """(guard, leaf) cases of a gated value."""
    if x.k == "ite":
        a = x.a[0]
        g1, g2 = AND(guard, a), AND(guard, NOT(a))
        if g1 is not FALSE:
            yield from leaves(x.a[1], g1)
        if g2 is not FALSE:
            yield from leaves(x.a[2], g2)
    else:
        yield guard, x


def nleaves(x):
    return nleaves(x.a[1]) + nleaves(x.a[2]) if x.k == "ite" else 1


def lift(fn, args, budget=8):
    """Apply fn to args, pushing the operation beneath gated values."""
    for i, x in enumerate(args):
        if isinstance(x, T) and x.k == "ite" and budget > 1:
            hi = list(args)
            lo = list(args)
            hi[i], lo[i] = x.a[1], x.a[2]
            atom = x.a[0]
            # the same atom may gate other args: resolve consistently
            hi = [_cof_deep(y, atom, True) for y in hi]
            lo = [_cof_deep(y, atom, False) for y in lo]
            return ITE(
                _raw_ite(atom, TRUE, FALSE),
                lift(fn, hi, budget // 2 + 1 if budget > 2 else 1),
                lift(fn, lo, budget // 2 + 1 if budget > 2 else 1),
            )
    return fn(*args)


def _cof_deep(x, atom, pol):
    if not isinstance(x, T) or x.k != "ite":
        return x
    if x.a[0] is atom:
        return x.a[1] if pol else x.a[2]
    hi, lo = _cof_deep(x.a[1], atom, pol), _cof_deep(x.a[2], atom, pol)
    if hi is x.a[1] and lo is x.a[2]:
        return x
    return _raw_ite(x.a[0], hi, lo)


# --------------------------------------------------------------- operators

COMM = {"*", "^", "&", "|"}
ASSOC = COMM | {"+"}
_FOLD = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
    "//": lambda a, b: a // b,
    "%": lambda a, b: a % b,
    "^": lambda a, b: a ^ b,
    "&": lambda a, b: a & b,
    "|": lambda a, b: a | b,
    "<<": lambda a, b: a << b,
    ">>": lambda a, b: a >> b,
    "**": lambda a, b: a**b,
}
_NUM = ("int",)
_SEQ = ("bytes", "str")


def _fold2(o, x, y):
    if x.k != "c" or y.k != "c" or o not in _FOLD:
        return None
    tx, ty = x.a[0], y.a[0]
    ok = (tx in _NUM and ty in _NUM) or (o == "+" and tx == ty and tx in _SEQ)
    ok = ok or (o == "*" and {tx, ty} <= set(_NUM + _SEQ) and "int" in (tx, ty))
    if not ok:
        return None
    try:
        if o in ("<<", "**") and cval(y) > 4096:
            return None
        if o == "*" and max(abs(v) for v in (cval(x), cval(y)) if isinstance(v, int)) > 1 << 20 and not (tx in _NUM and ty in _NUM):
            return None
        r = _FOLD[o](cval(x), cval(y))
    except Exception:
        return None
    return C(r)


INTS = set()
_INT_SUFFIX = ("_BYTES", "SIZE", "_FRAME", "_INDEX", "_AMOUNT", "_COUNT", "_LENGTH", "_QUEUE", "byte_count", "_to_trim",
               "_size", "blocksize")
_INT_CALLS = {
    "builtins.len", "math.ceil", "math.floor", "builtins.sum", "builtins.abs", "builtins.int",
    "builtins.int.from_bytes", "time.time_ns", "math.isqrt",
}


def _intish(t):
    """Conservatively: is this term surely a number?"""
    if t.k == "c":
        return t.a[0] == "int"
    if t in INTS:
        return True
    if t.k == "a":
        return t.a[1].endswith(_INT_SUFFIX)
    if t.k == "op":
        if t.a[0] in ("-", "//", "<<", ">>", "/", "**"):
            return True
        if t.a[0] == "%":
            return True
        if t.a[0] == "*":
            return all(_intish(x) for x in t.a[1])
        return any(_intish(x) for x in t.a[1])
    if t.k == "call" and t.a[0].k == "g":
        return t.a[0].a[0] in _INT_CALLS
    if t.k == "call" and t.a[0].k == "a":
        return t.a[0].a[1] in ("bit_length",)
    if t.k == "now":
        return False
    if t.k in ("rec",):
        return len(t.a) > 1 and isinstance(t.a[1], T) and _intish(t.a[1])
    if t.k == "mu":
        return any(isinstance(x, T) and x.k != "while" and _intish(x) for x in t.a[1:2])
    return False


def _lin(x, k, acc):
    """Accumulate k*x into the linear form acc {term: coefficient}."""
    if x.k == "c" and x.a[0] == "int":
        acc[None] = acc.get(None, 0) + k * cval(x)
    elif x.k == "op" and x.a[0] == "+":
        for y in x.a[1]:
            _lin(y, k, acc)
    elif x.k == "op" and x.a[0] == "*" and len(x.a[1]) >= 2 and x.a[1][-1].k == "c" and x.a[1][-1].a[0] == "int":
        rest = x.a[1][:-1]
        y = rest[0] if len(rest) == 1 else mk("op", "*", rest)
        c = cval(x.a[1][-1])
        if y.k == "op" and y.a[0] == "+":
            _lin(y, k * c, acc)
        else:
            acc[y] = acc.get(y, 0) + k * c
    elif x.k == "op" and x.a[0] == "-" and len(x.a[1]) == 1:
        _lin(x.a[1][0], -k, acc)
    elif x.k == "op" and x.a[0] == "-" and len(x.a[1]) == 2:
        _lin(x.a[1][0], k, acc)
        _lin(x.a[1][1], -k, acc)
    else:
        acc[x] = acc.get(x, 0) + k


def _unlin(acc):
    c = acc.pop(None, 0)
    parts = []
    for t in sorted((t for t, k in acc.items() if k), key=lambda t: t.d):
        k = acc[t]
        if k == 1:
            parts.append(t)
        elif t.k == "op" and t.a[0] == "*":
            parts.append(mk("op", "*", t.a[1] + (C(k),)))
        else:
            parts.append(mk("op", "*", (t, C(k))))
    if c or not parts:
        parts.append(C(c))
    return parts[0] if len(parts) == 1 else mk("op", "+", tuple(parts))


def _factored(x):
    """The parts of a concatenation; what both sides of a choice begin or end with is taken out of it."""
    if x.k == "op" and x.a[0] == "+":
        return [y for z in x.a[1] for y in _factored(z)]
    if x.k != "ite":
        return [x]
    a, b = _factored(x.a[1]), _factored(x.a[2])
    n = 0
    while n < min(len(a), len(b)) and a[n] is b[n]:
        n += 1
    m = 0
    while m < min(len(a), len(b)) - n and a[-1 - m] is b[-1 - m]:
        m += 1
    if not n and not m:
        return [x]
    mid = [op("+", *y) if len(y) > 1 else y[0] if y else C(b"") for y in (a[n:len(a) - m], b[n:len(b) - m])]
    return a[:n] + ([] if mid[0] is mid[1] else [ITE(x.a[0], *mid)]) + a[len(a) - m:]


def op(o, *xs):
    if o == "-" and len(xs) == 1:
        if xs[0].k == "c" and xs[0].a[0] in ("int", "float"):
            return C(-cval(xs[0]))
        if _intish(xs[0]):
            acc = {}
            _lin(xs[0], -1, acc)
            return _unlin(acc)
        return mk("op", "-", xs)
    if o == "-" and len(xs) == 2 and (_intish(xs[0]) or _intish(xs[1])):
        acc = {}
        _lin(xs[0], 1, acc)
        _lin(xs[1], -1, acc)
        return _unlin(acc)
    if o in ASSOC:
        flat = []
        for x in xs:
            if x.k == "op" and x.a[0] == o:
                flat.extend(x.a[1])
            else:
                flat.append(x)
        if o == "+" and flat[0].k == "abs0" and any(x.k == "ite" for x in flat):
            flat = [y for x in flat for y in _factored(x)]
        if o == "+" and any(_intish(x) for x in flat):
            acc = {}
            for x in flat:
                _lin(x, 1, acc)
            return _unlin(acc)
        if o == "*" and len(flat) == 2 and any(x.k == "c" and x.a[0] == "int" for x in flat) and all(_intish(x) for x in flat):
            acc = {}
            c = next(x for x in flat if x.k == "c")
            y = flat[1] if flat[0] is c else flat[0]
            if y.k == "c":
                return C(cval(c) * cval(y))
            _lin(y, cval(c), acc)
            return _unlin(acc)
        if o in COMM:
            flat.sort(key=lambda t: t.d)
            consts = [x for x in flat if x.k == "c"]
            rest = [x for x in flat if x.k != "c"]
            while len(consts) > 1:
                r = _fold2(o, consts[0], consts[1])
                if r is None:
                    break
                consts[:2] = [r]
            if rest and o == "*":
                consts = [x for x in consts if not is_c(x, 1)]
            if rest and o in ("^", "|"):
                consts = [x for x in consts if not is_c(x, 0)]
            flat = rest + consts
        else:
            out = []
            for x in flat:
                if out:
                    r = _fold2(o, out[-1], x)
                    if r is not None:
                        out[-1] = r
                        continue
                out.append(x)
            # b"" / "" units of concatenation
            if len(out) > 1:
                out2 = [x for x in out if not (is_c(x, b"") or is_c(x, ""))]
                out = out2 or out[:1]
            flat = out
        if len(flat) == 1:
            return flat[0]
        return mk("op", o, tuple(flat))
    r = _fold2(o, *xs) if len(xs) == 2 else None
    if r is not None:
        return r
    if o == "<<" and is_c(xs[0], 1):
        return op("**", C(2), xs[1])
    if o == "//" and is_c(xs[1], 1):
        return xs[0]
    return mk("op", o, tuple(xs))


def cmp_(o, x, y):
    """eq / lt / is / in  (all others are expressed by negation or swap)."""
    if o in ("eq", "is") and x is y and x.k in ("c", "g", "p", "a", "new", "self", "bm"):
        return TRUE
    if o in ("eq", "is") and x.k == "g" and y.k == "g" and x is not y and (
            x.a[0].startswith("builtins.") and y.a[0].startswith("builtins.")):
        return FALSE
    if x.k == "c" and y.k == "c":
        a, b = cval(x), cval(y)
        try:
            if o == "eq":
                return C(a == b)
            if o == "lt":
                return C(a < b)
            if o == "is":
                return C(a is b or (type(a) is type(b) and a == b and a in (None, True, False)))
            if o == "in":
                return C(a in b)
        except Exception:
            pass
    if o == "is" and (is_c(x, None) or is_c(y, None)):
        other = y if is_c(x, None) else x
        if other.k in ("new", "op", "tuple", "list", "bm", "fn", "comp", "join", "fstr", "dictlit"):
            return FALSE
        if other.k == "a" and len(other.a[1]) > 3 and other.a[1].isupper():
            return FALSE                  # settings are never left out
    if o == "eq" and (x.k == "g" or y.k == "g") and (
        (x.k == "a" and x.a[1] == "__class__") or (y.k == "a" and y.a[1] == "__class__")):
        o = "is"
    if o == "eq" and (is_c(x, 0) or is_c(y, 0)):
        z = y if is_c(x, 0) else x
        if _intish(z):
            return NOT(to_bool(z))
    if o == "eq" and _intish(x) and _intish(y) and any(z.k == "op" and z.a[0] in ("+", "-") for z in (x, y)):
        # nothing subtracted, nothing on both sides
        acc = {}
        _lin(y, 1, acc)
        _lin(x, -1, acc)
        c = acc.pop(None, 0)
        acc = {t: k for t, k in acc.items() if k}
        if acc and all(isinstance(k, int) for k in (c, *acc.values())):
            if acc[min(acc, key=lambda t: t.d)] < 0:
                c, acc = -c, {t: -k for t, k in acc.items()}
            x = _unlin({t: k for t, k in acc.items() if k > 0})
            rest = {t: -k for t, k in acc.items() if k < 0}
            y = C(-c) if not rest else op("+", _unlin(rest), C(-c)) if c else _unlin(rest)
            if is_c(y, 0):
                return NOT(to_bool(x))
    if o == "lt" and is_c(x, 0) and _nonneg(y):
        return to_bool(y)
    if o == "lt" and is_c(y, 1) and _nonneg(x):
        return NOT(to_bool(x))
    if o == "lt" and (_intish(x) or _intish(y)):
        # x < y  <=>  0 < y - x ; canonical: variable part on the right
        acc = {}
        _lin(y, 1, acc)
        _lin(x, -1, acc)
        c = acc.pop(None, 0)
        acc = {t: k for t, k in acc.items() if k}
        if not acc:
            return C(c > 0)
        lead = min(acc, key=lambda t: t.d)
        if acc[lead] < 0:
            # 0 < c - e  <=>  not (0 < e - c + 1)
            e = _unlin({t: -k for t, k in acc.items()})
            return NOT(_lt_const(C(c - 1), e))
        return _lt_const(C(-c), _unlin(dict(acc)))
    if o in ("eq", "is") and x.d > y.d:
        x, y = y, x
    if o == "in" and y.k == "call" and y.a[0].k == "g" and y.a[0].a[0] == "builtins.range" and 1 <= len(y.a[1]) <= 2 and not y.a[2]:
        lo, hi = y.a[1] if len(y.a[1]) == 2 else (C(0), y.a[1][0])
        return AND(TRUE if _intish(x) else mk("whole", x), NOT(cmp_("lt", x, lo)), cmp_("lt", x, hi))
    return mk("cmp", o, x, y)


def _lt_const(c, e):
    if is_c(c, 0) and _nonneg(e):
        return to_bool(e)
    return mk("cmp", "lt", c, e)


def _nonneg(t):
    if t.k == "call" and t.a[0].k == "g" and t.a[0].a[0] in ("builtins.len", "builtins.abs"):
        return True
    return t.k == "op" and t.a[0] == "%"


def compare(opname, x, y):
    if opname == "Eq":
        return cmp_("eq", x, y)
    if opname == "NotEq":
        return NOT(cmp_("eq", x, y))
    if opname == "Lt":
        return cmp_("lt", x, y)
    if opname == "Gt":
        return cmp_("lt", y, x)
    if opname == "LtE":
        return NOT(cmp_("lt", y, x))
    if opname == "GtE":
        return NOT(cmp_("lt", x, y))
    if opname == "Is":
        return cmp_("is", x, y)
    if opname == "IsNot":
        return NOT(cmp_("is", x, y))
    if opname == "In":
        return cmp_("in", x, y)
    if opname == "NotIn":
        return NOT(cmp_("in", x, y))
    raise KeyError(opname)


def sub(base, idx):
    if base.k in ("tuple", "list") and is_c(idx) and idx.a[0] == "int":
        els = base.a[0]
        if not any(e.k == "star" for e in els) and -len(els) <= cval(idx) < len(els):
            return els[cval(idx)]
    if base.k in ("dictlit",):
        for k, v in base.a[0]:
            if k is idx:
                return v
    if base.k == "c" and base.a[0] in ("bytes", "str", "tuple") and idx.k == "c" and idx.a[0] == "int":
        try:
            return C(cval(base)[cval(idx)])
        except Exception:
            pass
    if idx.k == "slice":
        lo, hi, st = idx.a
        if is_c(lo, 0):
            lo = NONE
        if is_c(st, 1):
            st = NONE
        if lo is NONE and hi is NONE and st is NONE and base.k not in ("list", "tuple"):
            return base
        if all(x.k == "c" for x in (lo, hi, st)) and base.k == "c" and base.a[0] in ("bytes", "str"):
            return C(cval(base)[cval(lo):cval(hi):cval(st)])
        if st is NONE and base.k == "sub" and base.a[1].k == "slice" and base.a[1].a[1:] == (NONE, NONE) \
                and _forward(base.a[1].a[0]) and (lo is NONE or _forward(lo)) and (hi is NONE or _forward(hi)):
            # a part of what is left after the first so many
            far = lambda x: _unlin(_sum(base.a[1].a[0], x))
            return sub(base.a[0], mk("slice", far(C(0) if lo is NONE else lo), hi if hi is NONE else far(hi), NONE))
        idx = mk("slice", lo, hi, st)
    return mk("sub", base, idx)


def _sum(a, b):
    acc = {}
    _lin(a, 1, acc)
    _lin(b, 1, acc)
    return acc


def _forward(x):
    """An offset counted from the front: sizes are not negative."""
    return x.k in ("p", "a", "op", "call") or x.k == "c" and x.a[0] == "int" and cval(x) >= 0


def tup(xs):
    return mk("tuple", tuple(xs))


# ----------------------------------------------------------------- display


def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    k, a = t.k, t.a
    if k == "c":
        r = repr(a[1])
        return r if len(r) < 60 else r[:57] + "…"
    if k == "g":
        return a[0].rsplit(".", 2)[-1] if a[0].startswith("aiootp") else a[0]
    if k == "p":
        return f"«{a[0]}»"
    if k == "self":
        return "self"
    if k == "a":
        return f"{s(a[0])}.{a[1]}"
    if k == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if k == "call":
        args = [s(x) for x in a[1]] + [f"{n}={s(v)}" for n, v in a[2]]
        o = ("" if isinstance(a[3], T) and depth < 4 else f"#{s(a[3])}" if isinstance(a[3], T) else f"#{a[3]}") if len(a) > 3 and a[3] else ""
        return f"{s(a[0])}({', '.join(args)}){o}"
    if k == "new":
        args = [s(x) for x in a[1]] + [f"{n}={s(v)}" for n, v in a[2]]
        return f"new {a[0].rsplit('.', 1)[-1]}({', '.join(args)})"
    if k == "op":
        if len(a[1]) == 1:
            return f"({a[0]}{s(a[1][0])})"
        return "(" + f" {a[0]} ".join(s(x) for x in a[1]) + ")"
    if k == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return f"¬{s(a[0])}"
        if a[2] is FALSE:
            return f"({s(a[0])} ∧ {s(a[1])})"
        if a[1] is FALSE:
            return f"(¬{s(a[0])} ∧ {s(a[2])})"
        if a[1] is TRUE:
            return f"({s(a[0])} ∨ {s(a[2])})"
        if a[2] is TRUE:
            return f"(¬{s(a[0])} ∨ {s(a[1])})"
        return f"[{s(a[0])} ? {s(a[1])} : {s(a[2])}]"
    if k in ("tuple", "list"):
        b = "()" if k == "tuple" else "[]"
        return b[0] + ", ".join(s(x) for x in a[0]) + b[1]
    if k == "star":
        return "*" + s(a[0])
    if k == "elem":
        return f"each({s(a[0])})"
    if k == "bm":
        return f"{s(a[0])}::{a[1]}"

    def g(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(g(y) for y in x) + ")"
        return str(x)

    return f"{k}<{', '.join(g(x) for x in a)}>"

"""Gated value-flow semantics.

For a function the analysis computes one *summary*: what it returns, raises and
yields, and how it leaves the objects it can reach, each with the condition under
which that happens.  Branches are joined into gated values (gated SSA), loops are
summarised by one symbolic iteration with recurrence terms, resolved helpers are
folded into their callers, and every opaque object carries an explicit state term
that its operations advance.  Nothing is executed, no path is enumerated and no
solver is used: equal code normalises to identical (hash-consed) terms.
"""

import ast
import builtins as _bi
import copy
import hashlib as _hl

from . import desugar
from .loader import Func, Class, SpecExpr, AnchorMissing
from .terms import *
from .terms import _raw_ite, _intish

UNDEF = mk("undef")
DELETED = mk("deleted")
WORLD = G("$world")
VERDICT = G("$verdict")
# what others may see between two steps: kept in order where guards are implemented
ORDER = G("$order")
VERDICTS = {"AuthenticationFailed", "InvalidSHMAC", "InvalidBlockID", "InvalidDigest", "InvalidPassphrase",
            "InvalidSignature", "TimestampExpired", "CanonicalEncodingError"}
# filled in from the model by oblig.Context: function name -> exception classes raised on purpose
MAY = {}
SELF = mk("self")
# names under which the package knows nothing but methods that answer a constant
CONSTANT = set()

PURE_EXT = {
    "builtins." + n
    for n in (
        "len int bytes isinstance issubclass hasattr getattr range reversed sorted tuple "
        "list set dict frozenset min max abs sum any all str repr bool zip enumerate type "
        "ord chr float iter map filter slice hash callable divmod pow round bytearray vars super object"
    ).split()
} | {
    "math.ceil", "math.floor", "math.log2", "math.log", "math.sqrt", "math.isqrt", "builtins.int.from_bytes",
    "builtins.bytes.fromhex", "json.dumps", "json.loads", "hmac.compare_digest",
    "pathlib.Path", "types.SimpleNamespace", "builtins.bytes.join", "builtins.str.join",
    "itertools.chain", "functools.partial", "builtins.dict.fromkeys", "functools.wraps",
    "base64.urlsafe_b64encode", "base64.urlsafe_b64decode", "builtins.id", "builtins.super",
    "inspect.isasyncgenfunction", "inspect.isgeneratorfunction", "inspect.iscoroutinefunction",
    "builtins.type.__call__", "builtins.dir", "operator.attrgetter", "operator.itemgetter",
    "math.log10", "inspect.signature", "copy.copy", "copy.deepcopy", "time.get_clock_info",
}
PURE_METH = {
    "to_bytes", "from_bytes", "ljust", "rjust", "encode", "decode", "hex", "fromhex",
    "join", "items", "keys", "values", "get", "bit_length", "isidentifier",
    "absolute", "is_absolute", "intersection", "union", "difference", "find", "rfind",
    "symmetric_difference", "issuperset", "issubset", "replace", "split", "strip",
    "startswith", "endswith", "lower", "upper", "rstrip", "lstrip", "index", "rsplit",
    "count", "public_bytes_raw", "private_bytes_raw", "isupper", "format", "title", "isdigit",
    "public_key", "public_bytes", "private_bytes", "exchange", "sign", "verify", "isalnum", "isalpha",
    "with_suffix", "joinpath", "relative_to", "read_token", "is_alive_", "total_seconds", "zfill", "mro",
}
FS_METH = {
    "chmod": 1, "unlink": 0, "mkdir": 0, "rmdir": 0, "touch": 0, "rename": 1, "replace_": 1,
    "is_file": 0, "is_dir": 0, "exists": 0, "stat": 0, "iterdir": 0, "glob": 1, "rglob": 1,
}
KEY_LOADERS = (".from_private_bytes", ".from_public_bytes")
SET_OPS = {"difference": "-", "union": "|", "intersection": "&", "symmetric_difference": "^"}
FS_PURE = {"is_file", "is_dir", "exists", "stat"}
# draws from sources outside the program: each is a value of its own, no order among them
BENIGN = {
    "secrets.token_bytes", "secrets.token_hex", "secrets.choice", "secrets.randbits", "secrets.randbelow",
    "os.urandom", "time.time_ns", "time.time", "time.perf_counter", "time.perf_counter_ns",
    "time.monotonic", "time.sleep", "asyncio.get_running_loop", "asyncio.get_event_loop",
    "asyncio.new_event_loop", "random.SystemRandom", "os.getpid", "threading.get_ident", "_thread.get_ident",
    "warnings.warn", "logging.getLogger", "os.environ.get", "gc.collect", "secrets.SystemRandom",
    "threading.current_thread", "asyncio.current_task",
}
BENIGN_PKG = {
    "csprng", "acsprng", "token_bytes", "atoken_bytes", "unique_range_gist", "random_sleep", "arandom_sleep",
    "randrange", "random_number_generator", "arandom_number_generator", "generate_key",
}
CTX_FREE = ("asleep", "sleep")
HASHES = {"sha3_224", "sha3_256", "sha3_384", "sha3_512", "shake_128", "shake_256", "sha224", "sha256", "sha384",
          "sha512", "blake2b", "blake2s", "sha1", "md5"}
PURE_PKG = {
    "canonical_pack", "acanonical_pack", "hash_bytes", "ahash_bytes", "encode_key",
    "aencode_key", "fullblock_ljust", "afullblock_ljust", "encode_constant", "aencode_constant",
    "abytes_are_equal", "bytes_to_urlsafe", "abytes_to_urlsafe",
    "urlsafe_to_bytes", "aurlsafe_to_bytes", "bytes_to_filename", "abytes_to_filename",
    "filename_to_bytes", "afilename_to_bytes", "batch", "abatch", "encode_items", "aencode_items",
    "canonical_unpack", "acanonical_unpack", "xi_mix", "axi_mix", "int_as_base", "aint_as_base",
    "base_as_int", "abase_as_int", "resize", "aresize",
}


class Eff:
    """One program point of interest (used for reporting and rule checks)."""
    __slots__ = ("kind", "data", "guard", "ctx", "i", "node", "func", "stack")

    def __init__(self, kind, data, guard, ctx, i, node, func, stack):
        self.kind, self.data, self.guard, self.ctx = kind, data, guard, ctx
        self.i, self.node, self.func, self.stack = i, node, func, stack

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def loc(self):
        return f"{self.func.mod.rel if self.func else '?'}:{self.line}"

    def where(self):
        return f"{self.loc()} in {self.func.qual if self.func else '?'}"

    def loops(self):
        return tuple(c for c in self.ctx if c[0] in ("for", "while"))

    def withs(self):
        return tuple(c[1] for c in self.ctx if c[0] == "with")

    def __repr__(self):
        d = ", ".join(show(x) if isinstance(x, T) else str(x) for x in self.data)
        c = " ".join(f"{x[0]}:{show(x[1], 3) if len(x) > 1 and isinstance(x[1], T) else ''}" for x in self.ctx)
        g = "" if self.guard is TRUE else f"  when {show(self.guard)}"
        return f"[{self.i}] {self.kind} {d}{g}{'  in ' + c if c else ''}  @{self.loc()}"


class Exit:
    """A way out of the function: return / raise / yield, with the state there."""
    __slots__ = ("kind", "guard", "val", "store", "ctx", "node", "func", "cause")

    def __init__(self, kind, guard, val, store, ctx, node, func, cause=None):
        self.kind, self.guard, self.val, self.store = kind, guard, val, store
        self.ctx, self.node, self.func, self.cause = ctx, node, func, cause

    def where(self):
        return f"{self.func.mod.rel if self.func else '?'}:{getattr(self.node, 'lineno', 0)} in {self.func.qual if self.func else '?'}"


ALIAS = mk("alias")
_COLLECTIONS = ("list", "listcat", "comp", "dictlit", "setlit", "mu", "rec", "upd", "without", "after")


MANAGERS = {"contextmanager", "asynccontextmanager", "contextlib.contextmanager", "contextlib.asynccontextmanager"}
PLAIN_DECO = {"staticmethod", "classmethod", "property", "abstractmethod", "abc.abstractmethod", "overload", "t.overload",
              "t.final", "final", "wraps", "functools.wraps", "override", "t.override"}


def _managers(prog):
    if getattr(prog, "_mgrs", None) is None:
        prog._mgrs = {f.name for f in prog.functions() if f.deco & MANAGERS}
    return prog._mgrs


def _around(ev, f, call, target, body, callee, fr):
    """The statements of a context manager's generator with a block in the place of its yield."""
    a = f.args
    if a.vararg or a.kwarg or any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    tag = f"$cm{ev.fresh_count('cm')}_"
    ys = [x for x in ast.walk(f.node) if isinstance(x, (ast.Yield, ast.YieldFrom))]
    if len(ys) != 1 or isinstance(ys[0], ast.YieldFrom):
        return None
    pos = [p.arg for p in (*a.posonlyargs, *a.args)]
    given = {}
    if pos and callee.k == "bm":
        given[pos[0]] = callee.a[0]
        rest = pos[1:]
    else:
        rest = pos
    if len(call.args) > len(rest):
        return None
    given.update(zip(rest, (ev.ev(x, fr) for x in call.args)))
    for k in call.keywords:
        given[k.arg] = ev.ev(k.value, fr)
    for p, d in [*zip(pos[len(pos) - len(a.defaults):], a.defaults), *((p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d)]:
        if p not in given:
            given[p] = ev.default_term(f, d)
    names = {*pos, *(p.arg for p in a.kwonlyargs)}
    if set(given) != names:
        return None
    own = names | {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} \
        | {h.name for h in ast.walk(f.node) if isinstance(h, ast.ExceptHandler) and h.name}
    outer = Frame(f, {})
    for x in ast.walk(f.node):
        if isinstance(x, ast.Name) and x.id not in own and f.mod is not fr.func.mod and tag + x.id not in fr.env:
            fr.env[tag + x.id] = ev.ev(ast.copy_location(ast.Name(x.id, ast.Load()), x), outer)
            own = own | {x.id}
    for n, v in given.items():
        fr.env[tag + n] = v
    inner = any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for st in body for x in ast.walk(st))

    class Put(ast.NodeTransformer):
        ok = True

        def visit_Name(self, n):
            return ast.copy_location(ast.Name(tag + n.id, n.ctx), n) if n.id in own else n

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)
            n.name = tag + n.name if n.name else n.name
            return n

        def visit_Return(self, n):
            self.ok = False
            return n

        visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = visit_For = visit_While = visit_AsyncFor = visit_Return

        def visit_Expr(self, n):
            if not isinstance(n.value, ast.Yield):
                return self.generic_visit(n)
            v = self.visit(n.value.value) if n.value.value is not None else ast.Constant(None)
            first = [ast.Assign([target], v)] if target is not None else [ast.Expr(v)] if n.value.value is not None else []
            return [desugar._like(x, n) for x in first] + body
    put = Put()
    stmts = []
    for x in copy.deepcopy(f.node.body):
        r = put.visit(x)
        stmts += r if isinstance(r, list) else [r]
    at = _after_yield(stmts, body)
    if not put.ok or inner and at:
        return None
    for x in stmts:
        desugar._like(x, f.node)
        ast.fix_missing_locations(x)
    ev.inlined.add(f)
    return stmts


def _after_yield(stmts, body):
    """Whether statements outside any finally clause follow the block."""
    for i, st in enumerate(stmts):
        if st is body[0]:
            return len(stmts) > i + len(body)
        for name in ("body", "orelse", "handlers"):
            sub = getattr(st, name, None)
            if sub and isinstance(sub, list) and any(x is body[0] for y in sub for x in ast.walk(y)):
                return _after_yield(sub, body) or i + 1 < len(stmts) or name == "body" and bool(getattr(st, "orelse", ()))
    return False


class Frame:
    __slots__ = ("env", "func", "rets", "yields", "parent", "gnames", "loops", "handling", "base", "selft", "nl", "ddepth", "alias")

    def __init__(self, func, env, parent=None):
        self.func, self.env, self.parent = func, env, parent
        self.rets, self.yields, self.loops = [], [], []
        self.gnames = set()
        self.nl = set()
        self.handling = []
        self.alias = {}


class Loop:
    __slots__ = ("conts", "breaks", "exits")

    def __init__(self):
        self.conts, self.breaks, self.exits = [], [], []


def _widest(names):
    """Built-in exception classes already covered by another one named are dropped."""
    out = set(names)
    for n in names:
        c = getattr(_bi, n, None)
        if isinstance(c, type) and any(m != n and issubclass(c, getattr(_bi, m)) and c is not getattr(_bi, m) for m in names
                                       if isinstance(getattr(_bi, m, None), type)):
            out.discard(n)
    return out


class TryCtx:
    __slots__ = ("fr", "handlers", "entries", "fin", "fin_entries", "depth", "off")

    def __init__(self, fr, handlers, fin, depth):
        self.fr, self.handlers, self.fin, self.depth = fr, handlers, fin, depth
        self.entries = [[] for _ in handlers]
        self.fin_entries = []
        self.off = False


class Summary:
    def __init__(self, func, ev, fr, exits, params):
        self.func, self.ev, self.params = func, ev, params
        self.effs = ev.effs
        self.exits = exits            # Exit list: ret / raise / yield
        self.rets = [(x.guard, x.val, x.node) for x in exits if x.kind == "ret"]
        self.store = ev.store         # merged over normal exits

    def calls(self, pred=lambda e: True):
        return [e for e in self.effs if e.kind == "call" and pred(e)]

    def of(self, *kinds):
        return [e for e in self.effs if e.kind in kinds]

    def ret(self):
        v = NONE
        for g, t, *_ in reversed(self.rets):
            v = ITE(g, t, v)
        return v

    def dump(self, depth=9, effs=False):
        if effs:
            for e in self.effs:
                print(repr(e))
        for x in self.exits:
            print(x.kind.upper(), show(x.val, depth), "" if x.guard is TRUE else f"when {show(x.guard, depth)}",
                  f" @{x.where()}")
        for k, v in self.store.items():
            print("  STORE", show(k[0], 4) if isinstance(k[0], T) else k[0], k[1], "=", show(v, depth))


class BindError(Exception):
    pass


class TooBig(Exception):
    pass


FOPEN = ("builtins.open", "aiofiles.open", "io.open")


def _is_set(x):
    return x.k == "setlit" or x.k == "call" and x.a[0] in (G("builtins.set"), G("builtins.frozenset")) and len(x.a[1]) < 2


class Ev:
    def __init__(self, prog, inline=None, desync=None, max_depth=16, self_cls=None, limit=80000,
                 opaque=(), pure=None, given_async=False):
        self.prog = prog
        self.inline_policy = inline or (lambda f, ev: True)
        self.tw = desync
        self.max_depth = max_depth
        self.self_cls = self_cls
        self.limit = limit
        self.opaque_names = set(opaque)
        self.given_async, self.saw_async = given_async, False
        self.pure = PURE_PKG if pure is None else set(pure)
        self.effs = []
        self.store = {}
        self.guard = TRUE
        self.ctx = ()
        self.counts = {}
        self.stack = []
        self.types = {}
        self.node = None
        self.tries = []
        self.ordered = False
        self.raised = []
        self.left, self.tried = {}, set()
        self._clsattr = {}
        self.site = None
        self.called, self.inlined = set(), set()
        self.fresh_self = False
        self.steps = 0

    # ------------------------------------------------------------ helpers
    def nm(self, name):
        return self.tw.map.get(name, name) if self.tw else name

    def tf(self, f):
        """The function standing for f (its synchronous sibling when comparing)."""
        return self.tw.fmap.get(f, f) if self.tw else f

    def tc(self, c):
        return self.tw.cmap.get(c, c) if self.tw and c is not None else c

    def look(self, c, name, after=None):
        if self.tw:
            c2, after2 = self.tc(c), self.tc(after)
            r = self.prog.lookup(c2, self.nm(name), after=after2) or self.prog.lookup(c2, name, after=after2) \
                or self.prog.lookup(c, name, after=after)
            if r is None and after is None and c is not None:
                # what only the asynchronous sibling has
                for k in self.prog.mro(c2):
                    for a in self.tw.rmap.get(k, ()):
                        r = r or self.prog.lookup(a, name)
            if r is not None and isinstance(r[1], Func):
                return r[0], self.tf(r[1])
            return r
        return self.prog.lookup(c, name, after=after)

    def meth(self, c, name):
        r = self.look(c, name)
        return r[1] if r and isinstance(r[1], Func) else None

    def emit(self, kind, *data):
        if self.guard is FALSE:
            return None
        if len(self.effs) > self.limit:
            raise TooBig("summary too large")
        e = Eff(kind, data, self.guard, self.ctx, len(self.effs), self.node,
                self.stack[-1].func if self.stack else None,
                tuple(f.func for f in self.stack))
        self.effs.append(e)
        return e

    def fresh_count(self, key):
        n = self.counts.get(key, 0)
        self.counts[key] = n + 1
        return n

    def typeof(self, t):
        if t.k == "self":
            return self.self_cls
        if t.k == "new":
            return self.prog.class_named(t.a[0])
        if t.k == "now":
            return self.typeof(t.a[0])
        return self.types.get(t)

    def fn_here(self):
        return self.stack[-1].func if self.stack else None

    # ------------------------------------------------------ object states
    def v(self, t):
        """The present value of a possibly stateful object."""
        if t.k == "ite":
            return lift(self.v, [t])
        s = self.store.get((t, "$"))
        if s is not None:
            return mk("now", t, s)
        s = self.store.get((t, "$abs"))
        if s is not None and t.k != "hobj":
            return mk("now", t, s)
        if t.k == "hobj" and s is not None:
            return mk("now", t.a[0], s)
        if t.k in ("tuple", "list") and any((x, "$") in self.store for x in t.a[0]):
            return mk(t.k, tuple(self.v(x) for x in t.a[0]))
        if t.k == "dictlit" and any((x, "$") in self.store for _, x in t.a[0]):
            return mk(t.k, tuple((k, self.v(x)) for k, x in t.a[0]))
        if t.k == "star":
            y = self.v(t.a[0])
            return t if y is t.a[0] else mk("star", y)
        return t

    def state(self, obj):
        return self.store.get((obj, "$"), mk("s0"))

    def touch(self, obj, meth, args=(), kw=(), advance=True, func=None):
        """An operation on an opaque object: result depends on and (by default)
        advances the object's state."""
        prev = self.store.get((obj, "$"))
        args = tuple(self.v(x) for x in args)
        kw = tuple(sorted(((k, self.v(x)) for k, x in kw), key=lambda p: p[0]))
        if obj is WORLD:
            callee = G(meth) if isinstance(meth, str) else meth
        else:
            callee = mk("a", obj, self.nm(meth))
        r = mk("call", callee, args, kw, prev if prev is not None else mk("s0"))
        if prev is not None and prev.k == "st" and len(args) == 1 and not kw and not prev.a[2] and not prev.a[3] \
                and (meth, prev.a[1]) in (("appendleft", "popleft"), ("append", "pop")):
            # taken off and put back changed
            self.store[(obj, "$")] = mk("st", prev.a[0], "__setitem__", (C(0 if meth == "appendleft" else -1), args[0]), ())
        elif advance:
            self.store[(obj, "$")] = mk("st", prev if prev is not None else mk("s0"), callee if obj is WORLD else self.nm(meth), args, kw)
        if self.ordered and advance and obj is not WORLD and _root(obj) in ("self", "p", "g"):
            self.store[(ORDER, "$")] = mk("st", self.state(ORDER), callee, args, kw)
        self.emit("call", callee, args, kw, r, func)
        if obj is not WORLD:
            self.emit("touch" if advance else "peek", obj, meth)
        return r

    # ---------------------------------------------------------- top level
    def run(self, func, args=None, self_term=None, self_cls=None, parent=None):
        self.ordered = func.mod.name.startswith("aiootp.asynchs.guards")
        if self_cls is not None:
            self.self_cls = self_cls
        elif func.cls is not None and self.self_cls is None:
            self.self_cls = func.cls
        self.self_cls = self.tc(self.self_cls)
        env, params = {}, {}
        a = func.args
        pos = list(a.posonlyargs) + list(a.args)
        start = 0
        if func.cls is not None and "staticmethod" not in func.deco and pos:
            first = pos[0].arg
            if "classmethod" in func.deco or func.name in ("__init_subclass__", "__new__", "__class_getitem__"):
                env[first] = G(self.self_cls.qual)
            else:
                env[first] = self_term or mk("self")
            start = 1
        self.fresh_self = func.name == "__init__"
        for i, p in enumerate(pos[start:]):
            env[p.arg] = params[p.arg] = mk("p", i)
            self._annotate(func, p, env[p.arg])
        for p in a.kwonlyargs:
            env[p.arg] = params[p.arg] = mk("p", p.arg)
            self._annotate(func, p, env[p.arg])
        if a.vararg:
            env[a.vararg.arg] = params["*"] = tup([mk("star", mk("p", "*"))])
        if a.kwarg:
            env[a.kwarg.arg] = params["**"] = mk("p", "**")
        for p, d in [*zip(pos[::-1], a.defaults[::-1]), *zip(a.kwonlyargs, a.kw_defaults)]:
            # shortcuts to functions kept in a default are not given by callers
            if p.arg.startswith("_") and isinstance(d, (ast.Attribute, ast.Name)):
                env[p.arg] = self.default_term(func, d)
                params.pop(p.arg, None)
        if args:
            for k, x in args.items():
                env[k] = x
        fr = Frame(func, env, parent)
        self.stack.append(fr)
        self.node = func.node
        body = func.node.body if isinstance(func.node.body, list) else [ast.copy_location(ast.Return(func.node.body), func.node)]
        self.block(body, fr)
        if self.guard is not FALSE:
            fr.rets.append(Exit("ret", self.guard, NONE, dict(self.store), self.ctx, func.node, func))
        self.stack.pop()
        exits = list(fr.rets)
        for x in fr.yields:
            exits.append(x)
        exits += self.raised
        self.store = self.merge_stores([(x.guard, x.store) for x in fr.rets])
        return Summary(func, self, fr, exits, params)

    def merge_stores(self, alts):
        if not alts:
            return {}
        rest, out = alts[-1]
        for g, s in reversed(alts[:-1]):
            out = self._merge(separate(g, rest), s, out, attr=True)
            rest = OR(rest, g)
        return out

    def _annotate(self, func, p, term):
        if p.annotation is None:
            return
        c = self._ann_class(func.mod, p.annotation)
        if c is not None:
            self.types[term] = c

    def _ann_class(self, mod, ann):
        if isinstance(ann, ast.Name):
            r = self.prog.resolve(mod, ann.id)
            return self.tc(r[1]) if r and r[0] == "class" else None
        if isinstance(ann, ast.Attribute) and isinstance(ann.value, ast.Name) and ann.value.id == "t":
            n = ann.attr
            for cand in (n, n[:-4] if n.endswith("Type") else None):
                if cand:
                    c = self.prog.class_named(cand)
                    if c is not None and "_typing" not in c.mod.name:
                        return self.tc(c)
        return None

    # ------------------------------------------------------------- blocks
    def block(self, stmts, fr):
        for st in desugar.block(stmts, fr.func):
            if self.guard is FALSE:
                return
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > 400000:
            raise TooBig("too many steps")
        old = self.node
        if hasattr(st, "lineno"):
            self.node = st
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise NotImplementedError(type(st).__name__)
        m(st, fr)
        self.node = old if old is not None else self.node

    def s_Pass(self, st, fr):
        pass

    def s_Nonlocal(self, st, fr):
        fr.nl.update(st.names)

    def s_Import(self, st, fr):
        for a in st.names:
            fr.env[a.asname or a.name.split(".")[0]] = G(a.name if a.asname else a.name.split(".")[0])

    def s_Global(self, st, fr):
        fr.gnames.update(st.names)

    def s_ImportFrom(self, st, fr):
        mod = fr.func.mod
        src = self.prog._abs(mod, st)
        for a in st.names:
            if src in self.prog.mods:
                r = self.prog._member(self.prog.mods[src], a.name)
                fr.env[a.asname or a.name] = self.ref_term(r, f"{src}.{a.name}")
            else:
                fr.env[a.asname or a.name] = G(f"{src}.{a.name}")

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        e = st.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "pop" \
                and len(e.args) == 1 and not e.keywords and not isinstance(e.args[0], ast.Starred):
            b = self.ev(e.func.value, fr)
            c = self.typeof(b)
            if b.k not in ("ite", "super", "dictlit", "list", "listcat", "comp") and not (
                    isinstance(c, Class) and (self.meth(c, "pop") or self.meth(c, "__delitem__"))):
                i = self.ev(e.args[0], fr)
                self.risk("item", mk("delitem", self.v(b), i))
                self.touch(b, "__delitem__", (i,))
                return
        self.ev(st.value, fr)

    def s_Return(self, st, fr):
        v = self.ev(st.value, fr) if st.value is not None else NONE
        if self.guard is FALSE:
            return
        v = restrict(v, self.guard)
        fr.rets.append(Exit("ret", self.guard, v, {**self.store, **self._aliased(fr)}, self.ctx, st, fr.func))
        if len(self.stack) == 1:
            self.emit("return", v)
        for t in self.tries:
            if t.fr is fr and t.fin and not t.off:
                t.fin_entries.append(("ret", self.guard, fr.rets[-1], dict(fr.env)))
        for lp in fr.loops:
            lp.exits.append(self.guard)
        self.guard = FALSE

    def s_Raise(self, st, fr):
        if st.exc is None:
            f = fr
            v = f.handling[-1] if f.handling else mk("reraise")
            self.do_raise(v, NONE)
        else:
            v = self.ev(st.exc, fr)
            if self.guard is FALSE:
                return
            c = self.ev(st.cause, fr) if st.cause is not None else NONE
            if st.cause is not None and v.k == "p":
                self.setattr(v, "__cause__", c)       # the caller's exception is given another cause
            self.do_raise(v, c)
        self.guard = FALSE

    def do_raise(self, v, cause=NONE):
        g = self.guard
        if g is FALSE:
            return
        for h, leaf in leaves(restrict(v, g), g):
            self.raise_one(h, leaf, cause)
        self.guard = FALSE

    def raise_one(self, h, leaf, cause, store=None, start=None):
        exc = self.exc_of(leaf)
        self.guard = h
        self.emit("raise", exc, cause, leaf)
        st = dict(self.store) if store is None else store
        idx = len(self.tries) if start is None else start
        while idx > 0:
            idx -= 1
            tc = self.tries[idx]
            if tc.off:
                continue
            for i, (types, names, node) in enumerate(tc.handlers):
                m = self.exc_matches(exc, types)
                if m:
                    tc.entries[i].append((h, dict(tc.fr.env), st, leaf))
                    return
            if tc.fin:
                tc.fin_entries.append(("raise", h, (leaf, cause, self.node, self.fn_here(), idx), dict(tc.fr.env), st))
                return
        for fr in self.stack:
            for lp in fr.loops:
                lp.exits.append(h)
        self.raised.append(Exit("raise", h, exc, st, self.ctx, self.node, self.fn_here(), cause))

    # exceptions -------------------------------------------------------
    def exc_of(self, v):
        """The class raised; message arguments do not matter here."""
        if v.k == "call" and v.a[0].k == "g":
            q = v.a[0].a[0]
            return v.a[0]
        if v.k == "new":
            return G(v.a[0])
        if v.k == "exc":
            return v.a[0] if v.a[0].k == "g" else v
        return v

    def exc_names(self, exc):
        """Names of the class and its bases, for matching handlers."""
        if exc.k != "g":
            return None
        q = exc.a[0]
        n = q.rsplit(".", 1)[-1]
        if q.startswith("builtins.") and isinstance(getattr(_bi, n, None), type):
            return [k.__name__ for k in getattr(_bi, n).__mro__]
        c = self.prog.class_named(q) if self._is_cls(q) else None
        if c is not None:
            out = []
            for k in self.prog.mro(c):
                out.append(k.qual)
                for b in k.node.bases:
                    n = ast.unparse(b).rsplit(".", 1)[-1]
                    if isinstance(getattr(_bi, n, None), type):
                        out += [z.__name__ for z in getattr(_bi, n).__mro__]
            return out
        return [q, "Exception", "BaseException"]

    def exc_matches(self, exc, types):
        names = self.exc_names(exc)
        ts = types.a[0] if types.k == "tuple" else (types,)
        for t in ts:
            if t is exc:
                return True
            if names is None:
                if t.k == "g" and t.a[0] in ("builtins.Exception", "builtins.BaseException"):
                    return True
                continue
            if t.k == "g" and (t.a[0] in names or (t.a[0].startswith("builtins.") and t.a[0][9:] in names)):
                return True
        return False

    RISK = {
        "AttributeError": {"attr", "sattr"},
        "KeyError": {"item"}, "IndexError": {"item"}, "LookupError": {"item"},
        "FileNotFoundError": {"fs"}, "OSError": {"fs"}, "PermissionError": {"fs"}, "FileExistsError": {"fs"},
        "OverflowError": {"num"}, "ZeroDivisionError": {"num"},
        "StopIteration": {"iter"}, "StopAsyncIteration": {"iter"},
        "Exception": {"item", "fs", "iter", "call", "attr"}, "BaseException": {"item", "fs", "iter", "call", "attr"},
    }

    def risk(self, kind, term, may=()):
        """An operation that may raise implicitly, inside some try; `may` names classes it raises on purpose."""
        if self.guard is FALSE:
            return
        for tc in reversed(self.tries):
            if tc.off:
                continue
            if kind == "sattr" and len(self.stack) > tc.depth + 1:
                continue
            for i, (types, names, node) in enumerate(tc.handlers):
                hit = [n for n in names if kind in self.RISK.get(n, {"call"}) or n in may]
                if not hit:
                    continue
                if kind != "call" or any(n in ("Exception", "BaseException") for n in hit):
                    atoms = [(mk("raises", term, kind), kind)]
                else:
                    atoms = [(mk("raises", term, kind, n), n) for n in sorted(_widest(hit))]
                for a, n in atoms:
                    atom = _raw_ite(a, TRUE, FALSE)
                    h = AND(self.guard, atom)
                    if h is FALSE:
                        return
                    st = dict(self.store)
                    if kind == "call":
                        st[(mk("caught", n, term), "$")] = mk("st", mk("s0"), "caught", (), ())
                    tc.entries[i].append((h, dict(tc.fr.env), st, mk("exc", types)))
                    self.guard = AND(self.guard, NOT(atom))
                if len(a.a) == 2:
                    return
            if tc.fin and kind in ("fs", "call", "item", "iter"):
                atom = _raw_ite(mk("raises", term, kind), TRUE, FALSE)
                h = AND(self.guard, atom)
                if h is FALSE:
                    return
                tc.fin_entries.append(("raise", h, (mk("exc", mk("raised", term)), NONE, self.node, self.fn_here(),
                                                    self.tries.index(tc)), dict(tc.fr.env), dict(self.store)))
                self.guard = AND(self.guard, NOT(atom))
                return
        if kind == "item" and term.k == "sub" and is_c(term.a[1]) and term.a[1].a[0] == "int" or kind == "fs" \
                or kind == "call" and not VERDICTS.isdisjoint(may):
            self.left_behind(term)

    def left_behind(self, term):
        """What an operation that fails for good reasons finds already changed on the object."""
        if self.ctx or self.fresh_self or term in self.tried:
            return
        self.tried.add(term)
        for (obj, name), x in self.store.items():
            if obj is SELF and not name.startswith("$") and x is not self.default_of((obj, name)):
                k = name, term, x
                self.left[k] = OR(self.left.get(k, FALSE), self.guard)

    def s_Assert(self, st, fr):
        c = to_bool(self.ev(st.test, fr))
        g = self.guard
        self.guard = AND(g, NOT(c))
        if self.guard is not FALSE:
            self.do_raise(G("builtins.AssertionError"))
        self.guard = AND(g, c)

    def s_Delete(self, st, fr):
        for tgt in st.targets:
            if isinstance(tgt, ast.Name):
                fr.env.pop(tgt.id, None)
            elif isinstance(tgt, ast.Attribute):
                b = self.ev(tgt.value, fr)
                self.delattr(b, tgt.attr)
            elif isinstance(tgt, ast.Subscript):
                b = self.ev(tgt.value, fr)
                i = self.ev(tgt.slice, fr)
                if b.k in ("dictlit", "list") and self.lvalue(tgt.value, fr):
                    self.assign(tgt.value, mk("without", b, i), fr)
                    return
                self.risk("item", mk("delitem", self.v(b), i))
                self.touch(b, "__delitem__", (i,))
            elif isinstance(tgt, ast.Tuple):
                self.s_Delete(ast.Delete(tgt.elts), fr)

    def delattr(self, b, name):
        name = self.nm(name)
        self.risk("sattr", mk("delattr", b, name))
        self.emit("del", b, name)
        self.store[(b, name)] = DELETED

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        if self.guard is FALSE:
            return
        for tgt in st.targets:
            self.assign(tgt, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        load = ast.copy_location(_as_load(st.target), st.target)
        cur = self.ev(load, fr)
        v = self.ev(st.value, fr)
        o = _OPS[type(st.op).__name__]
        if o == "+" and (_listy(cur) or (cur.k == "rec" and v.k == "list")):
            nv = self.list_extend(cur, self.as_list(v))
        else:
            nv = self.binop(o, cur, v)
        self.assign(st.target, nv, fr)

    def as_list(self, v):
        if v.k == "tuple":
            return mk("list", v.a[0])
        if v.k in ("list", "listcat", "comp", "rec"):
            return v
        return mk("list", (mk("star", v),))

    def lvalue(self, e, fr):
        if isinstance(e, ast.Name):
            return self.find_env(e.id, fr) is not None
        if isinstance(e, ast.Attribute):
            return True
        return False

    def find_env(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                return f
            f = f.parent
        return None

    def assign(self, tgt, v, fr):
        if isinstance(tgt, ast.Name):
            if tgt.id in fr.gnames:
                self.emit("gset", f"{fr.func.mod.name}.{tgt.id}", v)
                self.store[("global", f"{fr.func.mod.name}.{tgt.id}")] = v
                return
            if tgt.id in fr.nl and fr.parent is not None:
                f = self.find_env(tgt.id, fr.parent)
                (f or fr).env[tgt.id] = v
                return
            fr.env[tgt.id] = v
        elif isinstance(tgt, ast.Attribute):
            b = self.ev(tgt.value, fr)
            self.setattr(b, tgt.attr, v)
        elif isinstance(tgt, ast.Subscript):
            b = self.ev(tgt.value, fr)
            i = self.ev(tgt.slice, fr)
            if b.k == "dictlit" and self.lvalue(tgt.value, fr):
                items = tuple(_put(b.a[0], i, v))
                self.assign(tgt.value, mk("dictlit", items), fr)
                return
            if b.k == "call" and b.a[0] is G("builtins.dict") and not b.a[1] and is_c(i) and self.lvalue(tgt.value, fr):
                items = tuple(_put([(C(k), x) for k, x in b.a[2]], i, v))
                self.assign(tgt.value, mk("dictlit", items), fr)
                return
            if b.k in ("rec", "mu", "dictset", "ite") and _dictty(b) and self.lvalue(tgt.value, fr):
                self.assign(tgt.value, mk("dictset", b, i, v), fr)
                return
            if (b.k in ("list", "listcat", "comp") or (b.k == "rec" and _listy(b))) and self.lvalue(tgt.value, fr):
                self.assign(tgt.value, mk("upd", b, i, v), fr)
                return
            self.setitem(b, i, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            n = len(tgt.elts)
            for i, e in enumerate(tgt.elts):
                if star and i == star[0]:
                    self.assign(e.value, mk("slice_of", v, i, n - i - 1), fr)
                    continue
                idx = i if not star or i < star[0] else i - n
                self.assign(e, self.item(v, idx), fr)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, fr)
        else:
            raise NotImplementedError(ast.dump(tgt))

    def setitem(self, b, i, v):
        if b.k == "ite":
            return self.on_leaves(b, lambda x: self.setitem(x, i, v))
        c = self.typeof(b)
        if isinstance(c, Class):
            f = self.meth(c, "__setitem__")
            if f is not None and self.may_inline(f):
                self.inline(f, [b, i, v], {}, selfbound=True)
                return
        self.emit("setitem", b, i, v)
        self.touch(b, "__setitem__", (i, v))

    def always_set(self, c, name):
        """Every object has the attribute once it is made, and no method of its class takes it away."""
        if not self.tries or not isinstance(c, Class) or self.stack[0].func.name in ("__init__", "__new__"):
            return False
        f = self.meth(c, "__init__")
        if f is None:
            return False
        this = [*f.node.args.posonlyargs, *f.node.args.args][0].arg

        def names(x, ctx):
            return isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.attr == name and isinstance(x.ctx, ctx)
        for st in f.node.body:
            tgts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) and st.value else []
            if any(names(x, ast.Store) and x.value.id == this for x in tgts):
                return not any(names(x, ast.Del) for x in ast.walk(c.node))
            if any(isinstance(x, ast.Return) for x in ast.walk(st)):
                break
        return False

    def on_leaves(self, x, fn):
        """Run fn for each case of a gated receiver, merging effects."""
        fr = self.stack[-1]
        c = _raw_ite(x.a[0], TRUE, FALSE)
        self.branch(c, lambda: fn(x.a[1]), lambda: fn(x.a[2]), fr)
        return NONE

    def item(self, v, i):
        if v.k == "zipelem":
            pass
        return lift(lambda x: sub(x, C(i)), [v])

    def setattr(self, b, name, v):
        name = self.nm(name)
        if b.k == "ite":
            return self.on_leaves(b, lambda x: self.setattr(x, name, v))
        self.emit("set", b, name, restrict(v, self.guard))
        self.store[(b, name)] = v

    # -------------------------------------------------------- control flow
    def s_If(self, st, fr):
        c = self.test(st.test, fr)
        if self.guard is FALSE:
            return
        self.branch(c, lambda: self.block(st.body, fr), lambda: self.block(st.orelse, fr), fr)

    def test(self, e, fr):
        """Evaluate a condition as a decision diagram."""
        return to_bool(self.v(self.ev(e, fr)))

    def branch(self, c, f1, f2, fr):
        g0 = self.guard
        c = restrict(c, g0) if c.k == "ite" else c
        gt, gf = AND(g0, c), AND(g0, NOT(c))
        frames = [f for f in self._env_frames(fr)]
        envs0 = [f.env for f in frames]
        store0, counts0 = self.store, self.counts
        res = []
        for g, fn in ((gt, f1), (gf, f2)):
            for f, e in zip(frames, envs0):
                f.env = dict(e)
            self.store, self.counts = dict(store0), dict(counts0)
            self.guard = g
            r = fn() if g is not FALSE else None
            res.append((self.guard, r, [f.env for f in frames], self.store, self.counts))
        (g1, r1, e1, s1, n1), (g2, r2, e2, s2, n2) = res
        self.guard = OR(g1, g2)
        self.counts = {k: max(n1.get(k, 0), n2.get(k, 0)) for k in {*n1, *n2}}
        if g1 is FALSE:
            envs, self.store = e2, s2
        elif g2 is FALSE:
            envs, self.store = e1, s1
        else:
            c = separate(g1, g2)
            envs = [self._merge(c, a, b) for a, b in zip(e1, e2)]
            self.store = self._merge(c, s1, s2, attr=True)
        for f, e in zip(frames, envs):
            f.env = e
        return (g1, r1), (g2, r2)

    def _env_frames(self, fr):
        out = []
        f = fr
        while f is not None:
            out.append(f)
            f = f.parent
        return out

    def default_of(self, k):
        if not isinstance(k[0], T):
            return G(k[1])
        if k[1] == "$":
            return mk("s0")
        if k[1] == "$abs":
            return mk("abs0", k[0])
        if k[1] == "$off":
            return C(0)
        return mk("a", k[0], k[1])

    def _merge(self, c, e1, e2, attr=False):
        if e1 is e2:
            return e1
        out = dict(e2)
        for k in e1.keys() | e2.keys():
            a, b = e1.get(k), e2.get(k)
            if a is b:
                continue
            if a is None:
                a = self.default_of(k) if attr else UNDEF
            if b is None:
                b = self.default_of(k) if attr else UNDEF
            if a is UNDEF:
                out[k] = b
            elif b is UNDEF:
                out[k] = a
            else:
                out[k] = ITE(c, a, b)
        return out

    def s_Match(self, st, fr):
        raise NotImplementedError("match")

    # ---- loops
    def s_While(self, st, fr):
        self.loop(None, None, st.body, fr, test=st.test, orelse=st.orelse)

    def s_For(self, st, fr):
        it = self.ev(st.iter, fr)
        if self.guard is FALSE:
            return
        self.for_over(it, st.target, st.body, fr, st.orelse)

    s_AsyncFor = s_For

    def for_over(self, it, target, body, fr, orelse=()):
        if it.k == "ite" and nleaves(it) <= 4 and not self._or_nothing(it):
            c = _raw_ite(it.a[0], TRUE, FALSE)
            self.branch(c, lambda: self.for_over(it.a[1], target, body, fr, orelse),
                        lambda: self.for_over(it.a[2], target, body, fr, orelse), fr)
            return
        it = self.iterable(it)
        if it.k == "call" and it.a[0] is G("builtins.map") and len(it.a[1]) == 2 and target is not None:
            one = ast.Assign([target], ast.Call(desugar.Term(it.a[1][0]), [ast.Name("$arg", ast.Load())], []))
            desugar._like(one, self.node)
            return self.for_over(it.a[1][1], ast.Name("$arg", ast.Store()), [one, *body], fr, orelse)
        if it.k in ("tuple", "list") and len(it.a[0]) <= 12 and not any(e.k == "star" for e in it.a[0]) \
                and not _has_break(body):
            for e in it.a[0]:
                if self.guard is FALSE:
                    return
                self.assign(target, e, fr)
                lp = Loop()
                fr.loops.append(lp)
                self.block(body, fr)
                fr.loops.pop()
                self._join(fr, lp.conts)
            self.block(orelse, fr)
            return
        if it.k in ("tuple", "list") and any(e.k == "star" for e in it.a[0]) and not _has_break(body) and len(it.a[0]) > 1:
            for e in it.a[0]:
                if self.guard is FALSE:
                    return
                if e.k == "star":
                    self.loop(e.a[0], target, body, fr)
                else:
                    self.for_over(tup([e]), target, body, fr)
            self.block(orelse, fr)
            return
        if it.k == "comp" and it.a[0] in ("seq", "set") and len(it.a[2]) > 1 and not _has_break(body) and target is not None:
            # several clauses: loops within loops
            inner = [ast.Assign([target], desugar.Term(it.a[1])), *body]
            for src, cond in reversed(it.a[2][1:]):
                if cond is not TRUE:
                    inner = [ast.If(desugar.Term(cond), inner, [])]
                inner = [ast.For(ast.Name("$_", ast.Store()), desugar.Term(src), inner, [])]
            src, cond = it.a[2][0]
            if cond is not TRUE:
                inner = [ast.If(desugar.Term(cond), inner, [])]
            for x in inner:
                ast.copy_location(x, self.node)
                desugar._like(x, self.node)
            self.loop(src, ast.Name("$_", ast.Store()), inner, fr)
            self.block(orelse, fr)
            return
        self.loop(it, target, body, fr, orelse=orelse)

    def _or_nothing(self, it):
        """One collection, or an empty one."""
        full = {x for _, x in leaves(it) if not (x.k in ("tuple", "list", "dictlit") and not x.a[0])}
        return len(full) == 1 and all(x.k not in ("tuple", "list", "self", "new", "comp") and x not in self.types for x in full)

    def e_Term(self, e, fr):
        return restrict(e.term, self.guard)

    def each(self, it, recv, meth):
        """recv.meth(x) for every x of it, as the loop that does so."""
        fr = self.stack[-1]
        env0 = dict(fr.env)
        call = ast.Expr(ast.Call(desugar.Term(mk("a", recv, meth)), [ast.Name("$x", ast.Load())], []))
        desugar._like(call, self.node)
        self.for_over(it, ast.Name("$x", ast.Store()), [call], fr)
        fr.env.pop("$x", None)
        return NONE

    def _join(self, fr, states):
        """Merge the current point with saved (guard, env, store) points."""
        for g, env, store in states:
            if g is FALSE:
                continue
            if self.guard is FALSE:
                self.guard, fr.env, self.store = g, env, store
            else:
                c = separate(g, self.guard)
                fr.env = self._merge(c, env, fr.env)
                self.store = self._merge(c, store, self.store, attr=True)
                self.guard = OR(self.guard, g)

    def iterable(self, it):
        """Objects with a package __iter__ become what that generator yields."""
        it = self.strip_iter(it)
        if it.k in ("self", "new") or it in self.types:
            c = self.typeof(it)
            if isinstance(c, Class):
                f = self.meth(c, "__iter__") or self.meth(c, "__aiter__")
                if f is not None and self.may_inline(f):
                    return self.strip_iter(self.inline(f, [it], {}, selfbound=True))
        return self.strip_iter(self.v(it))

    def strip_iter(self, it):
        if it.k == "ite" and nleaves(it) <= 4:
            return lift(self.strip_iter, [it], 8)
        while True:
            if it.k == "call" and it.a[0].k == "g" and it.a[0].a[0] in (
                "builtins.list", "builtins.tuple", "builtins.iter") and len(it.a[1]) == 1:
                it = it.a[1][0]
            elif it.k in ("tuple", "list") and len(it.a[0]) == 1 and it.a[0][0].k == "star":
                it = it.a[0][0].a[0]
            elif it.k == "call" and it.a[0].k == "a" and it.a[0].a[1] == "keys" and not it.a[1]:
                it = it.a[0].a[0]
            elif it.k == "call" and it.a[0].k == "a" and it.a[0].a[1] in ("items", "values") and not it.a[1] \
                    and it.a[0].a[0].k == "dictlit" and 0 < len(it.a[0].a[0].a[0]) <= 12 \
                    and all(k.k == "c" for k, _ in it.a[0].a[0].a[0]):
                pairs = it.a[0].a[0].a[0]
                return tup([tup([k, x]) if it.a[0].a[1] == "items" else x for k, x in pairs])
            else:
                return it

    def elem_of(self, it):
        """(context iterables, guard, element value) of one iteration."""
        it = self.strip_iter(it)
        if it.k == "comp" and it.a[0] in ("seq", "set"):
            ctxs, g = [], TRUE
            for src, cond in it.a[2]:
                ctxs.append(src)
                g = AND(g, cond)
            return ctxs, g, it.a[1]
        if it.k == "call" and it.a[0].k == "g":
            n = it.a[0].a[0]
            if n == "builtins.enumerate" and it.a[1]:
                c, g, e = self.elem_of(it.a[1][0])
                start = it.a[1][1] if len(it.a[1]) > 1 else C(0)
                return c, g, tup([op("+", mk("idx", c[-1]), start) if not is_c(start, 0) else mk("idx", c[-1]), e])
            if n in ("builtins.zip", "aiootp._gentools.zip", "aiootp._gentools.azip") and it.a[1] and not any(x.k == "star" for x in it.a[1]):
                src = [self.strip_iter(x) for x in it.a[1]]
                return [mk("zipped", tuple(src))], TRUE, tup([self.elem(x) for x in src])
            if n == "builtins.map" and len(it.a[1]) == 2 and it.a[1][0].k in ("g", "bm", "fn"):
                c, g, e = self.elem_of(it.a[1][1])
                return c, g, self.call(it.a[1][0], [e], [], self.stack[-1])
            if n == "builtins.range":
                a = it.a[1]
                if len(a) == 1:
                    it = mk("call", it.a[0], (C(0), a[0], C(1)), (), 0)
                elif len(a) == 2:
                    it = mk("call", it.a[0], (a[0], a[1], C(1)), (), 0)
                return [it], TRUE, mk("elem", it)
        if it.k == "call" and it.a[0].k == "a" and not it.a[1] and not it.a[2]:
            d, meth = it.a[0].a
            if meth == "items":
                return [d], TRUE, tup([mk("elem", d), sub(d, mk("elem", d))])
            if meth == "values":
                return [d], TRUE, sub(d, mk("elem", d))
        if it.k == "ite" and nleaves(it) <= 4:
            return [it], TRUE, self._one_of(it) or mk("elem", it)
        return [it], TRUE, mk("elem", it)

    def _one_of(self, it):
        """An element of a collection given by cases; the empty ones have none."""
        if it.k == "ite":
            hi, lo = self._one_of(it.a[1]), self._one_of(it.a[2])
            return ITE(it.a[0], hi, lo) if hi is not None and lo is not None else hi or lo
        if it.k in ("tuple", "list", "dictlit") and not it.a[0] or it.k == "c" and cval(it) in (b"", ""):
            return None
        return mk("elem", it)

    def elem(self, src):
        c, g, e = self.elem_of(src)
        if len(c) == 1 and g is TRUE:
            return e
        return mk("elem", src)

    def _snap(self, fr):
        return (len(self.effs), dict(self.store), dict(self.counts), dict(fr.env), len(self.raised),
                [(f, len(f.rets), len(f.yields), [len(l.exits) for l in f.loops], [len(l.breaks) for l in f.loops],
                  [len(l.conts) for l in f.loops]) for f in self.stack],
                [(t, [len(e) for e in t.entries], len(t.fin_entries)) for t in self.tries], self.guard, self.ctx)

    def _restore(self, s, fr):
        del self.effs[s[0]:]
        self.store, self.counts, fr.env = dict(s[1]), dict(s[2]), dict(s[3])
        del self.raised[s[4]:]
        for f, a, b, c, d, e in s[5]:
            del f.rets[a:]
            del f.yields[b:]
            for l, n in zip(f.loops, c):
                del l.exits[n:]
            for l, n in zip(f.loops, d):
                del l.breaks[n:]
            for l, n in zip(f.loops, e):
                del l.conts[n:]
        for t, ns, m in s[6]:
            for e, n in zip(t.entries, ns):
                del e[n:]
            del t.fin_entries[m:]
        self.guard, self.ctx = s[7], s[8]

    def loop(self, it, target, body, fr, test=None, orelse=()):
        if self.guard is FALSE:
            return
        g0, ctx0 = self.guard, self.ctx
        depth = len([c for c in ctx0 if c[0] in ("for", "while")])
        snap = self._snap(fr)
        assigned = _assigned(body) | (_assigned_expr(test) if test is not None else set())
        bound = _assigned(body, calls=False) | (assigned - _assigned(body))
        # calling a method of an object does not give the variable another object
        env_keys = sorted(v for v in assigned if v in fr.env and (v in bound or fr.env[v].k not in (
            "self", "p", "new", "a", "g", "bm", "fn", "elem", "hobj", "fresh", "call", "sub", "copyof", "bio")
            and (fr.env[v], "$abs") not in self.store and (fr.env[v], "$") not in self.store))
        store_keys = []
        inits = {}
        for v in env_keys:
            inits[v] = fr.env[v]
        recs = {}
        own = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)} if target is not None else set()
        # discover the loop-carried state with provisional recurrence terms
        for rnd in range(6):
            recs = {k: mk("rec", depth, inits[k], "tmp%d" % i) for i, k in enumerate([*env_keys, *store_keys])}
            self._restore(snap, fr)
            res = self._loop_pass(it, target, body, fr, test, ctx0, g0, recs, None)
            env_c, store_c = res[1], res[2]
            more = [k for k, v in env_c.items() if k in snap[3] and k not in recs and v is not snap[3][k]
                    and k not in own]
            if more:
                for k in more:
                    inits[k] = snap[3][k]
                env_keys += more
                continue
            new = [k for k, v in store_c.items() if k not in recs and snap[1].get(k) is not v]
            for g, e, s in res[3]:
                new += [k for k, v in s.items() if k not in recs and snap[1].get(k) is not v and k not in new]
            new = sorted(set(new), key=lambda k: (str(k[1]), k[0].d if isinstance(k[0], T) else k[0].encode()))
            if not new:
                break
            for k in new:
                inits[k] = snap[1].get(k) or self.default_of(k)
            store_keys += new
        # drop what is not really carried
        steps = {k: (env_c.get(k, UNDEF) if isinstance(k, str) else store_c.get(k, inits[k])) for k in recs}
        carried = [k for k in recs if steps[k] is not recs[k] or any(
            (e.get(k, UNDEF) if isinstance(k, str) else s.get(k, inits[k])) is not recs[k] for g, e, s in res[3])]
        # canonical names: independent of variable names and order
        names = {k: inits[k].d for k in carried}
        plain = {recs[k]: inits[k] for k in recs if k not in carried}
        for rnd in range(3):
            m = {recs[k]: mk("rec", depth, inits[k], names[k].hex()) for k in carried}
            m.update(plain)
            nn = {}
            for k in carried:
                st = _subst(steps[k], m)
                h = _hl.sha1(inits[k].d + st.d)
                nn[k] = h.digest()
            names = nn
        used = {}
        final = {}
        for k in sorted(carried, key=lambda k: (names[k], str(k))):
            n = names[k].hex()[:12]
            c = used.get((inits[k], n), 0)
            used[(inits[k], n)] = c + 1
            final[k] = mk("rec", depth, inits[k], n + ("" if not c else f"~{c}"))
        m = {recs[k]: final[k] for k in carried}
        m.update(plain)
        # exit condition of the loop in terms of the canonical names
        xg = OR(*[_subst(g, m) for g, e, s in res[3]]) if res[3] else FALSE
        xg = _relguard(xg, _subst(g0, m))
        if test is not None and not res[3]:
            xg = _relguard(_subst(self._thrown(snap, fr), m), _subst(g0, m))
        src = self._src(it, xg)
        self._restore(snap, fr)
        lp = Loop()
        fr.loops.append(lp)
        marks = (len(fr.rets), len(self.raised))
        res = self._loop_pass(it, target, body, fr, test, ctx0, g0, final, src, lp)
        fr.loops.pop()
        g_c, env_c, store_c, exits = res
        self.ctx = ctx0
        # returns inside the loop: gate them by the loop leaving early
        inner = fr.rets[marks[0]:]
        if inner:
            rg = _relguard(OR(*[x.guard for x in inner]), g0)
            atom = _raw_ite(mk("loopexit", src, rg), TRUE, FALSE)
            val = inner[-1].val
            for x in reversed(inner[:-1]):
                val = ITE(x.guard, x.val, val)
            val = val if val.k == "c" else mk("at_exit", src, rg, val)
            st = self.merge_stores([(x.guard, x.store) for x in inner])
            st = {k: self._loop_out(src, inits, final, k, v, store_c) if k[0] is not ALIAS else
                  self._loop_out(src, inits, final, k[1], v, env_c) for k, v in st.items()}
            del fr.rets[marks[0]:]
            ex = Exit("ret", AND(g0, atom), val, st, ctx0, inner[0].node, inner[0].func)
            fr.rets.append(ex)
            for t in self.tries:
                if t.fin:
                    ids = {id(x) for x in inner}
                    keep = []
                    done = False
                    for e in t.fin_entries:
                        if e[0] == "ret" and id(e[2]) in ids:
                            if not done:
                                keep.append(("ret", ex.guard, ex, e[3]))
                                done = True
                        else:
                            keep.append(e)
                    t.fin_entries[:] = keep
        ways = self._caught_outside(
            snap[6], src, g0, test is not None and not exits and not inner and not lp.exits,
            lambda f, env: {k: self._loop_out(src, inits, final, k, v, env_c) for k, v in env.items()} if f is fr else env,
            lambda st: {k: self._loop_out(src, inits, final, k, v, store_c) for k, v in st.items()})
        xs = [x for x in lp.exits + ways if x is not FALSE]
        g = g0
        if xs:
            xr = _relguard(OR(*xs), g0)
            g = AND(g, NOT(mk("loopexit", src, xr)))
        if test is not None and not exits:
            g = FALSE                     # while True without break
        self.guard = g
        # state after the loop
        env, store = dict(snap[3]), dict(snap[1])
        for k in [*env_c, *(v for e in exits for v in e[1])]:
            if k not in env:
                env[k] = env_c.get(k, UNDEF) if it is not None and not exits else next(
                    (e[1][k] for e in exits if k in e[1]), env_c.get(k, UNDEF))
        for k in carried:
            dst = env if isinstance(k, str) else store
            rec, init = final[k], inits[k]
            step = env_c.get(k, UNDEF) if isinstance(k, str) else store_c.get(k, init)
            if it is not None and not exits:
                dst[k] = self.mu(src, init, rec, step, rec)
                continue
            xv = rec
            for g_x, e, s in exits:
                y = e.get(k, UNDEF) if isinstance(k, str) else s.get(k, init)
                gx = _relguard(g_x, g0)
                xv = y if (test is not None and xv is rec and len(exits) == 1) else ITE(gx, y, xv)
            dst[k] = self.mu(src, init, rec, step, xv)
        fr.env, self.store = env, store
        if orelse and exits and it is not None:
            found = _raw_ite(mk("loopexit", src.a[0] if src.k == "until" else src, xg), TRUE, FALSE)
            self.branch(found, lambda: None, lambda: self.block(orelse, fr), fr)
        elif orelse:
            self.block(orelse, fr)

    def _thrown(self, snap, fr):
        """When an endless loop is left by one handler around it, and nothing else."""
        if len(self.raised) > snap[4] or any(len(f.rets) > a for f, a, *_ in snap[5]):
            return FALSE
        new = [[e[0] for e in t.entries[i][n:]] for t, ns, m in snap[6] for i, n in enumerate(ns)]
        new += [[e[1] for e in t.fin_entries[m:]] for t, ns, m in snap[6]]
        new = [gs for gs in new if gs]
        return OR(*new[0]) if len(new) == 1 else FALSE

    def _caught_outside(self, marks, src, g0, only, env_out, store_out):
        """Exceptions leaving a loop for a handler around it: gated by the loop leaving early."""
        ways = []
        fresh = [(t, t.entries[i], n) for t, ns, m in marks for i, n in enumerate(ns)] + \
                [(t, t.fin_entries, m) for t, ns, m in marks]
        new = [(t, lst, j) for t, lst, n in fresh for j in range(n, len(lst))
               if not (lst is t.fin_entries and lst[j][0] == "ret")]
        only = only and len({id(lst) for t, lst, j in new}) == 1
        by = {}
        for t, lst, j in new:
            by.setdefault(id(lst), []).append((t, lst, j))
        for group in by.values():
            guards = [lst[j][1] if lst is t.fin_entries else lst[j][0] for t, lst, j in group]
            rg = _relguard(OR(*guards), g0)
            ways += guards
            atom = TRUE if only else _raw_ite(mk("loopexit", src, rg), TRUE, FALSE)
            for (t, lst, j), gd in zip(group, guards):
                gate = AND(g0, atom) if len(group) == 1 else AND(
                    g0, atom, _raw_ite(mk("exitby", src, rg, _relguard(gd, g0)), TRUE, FALSE))
                e = lst[j]
                if lst is t.fin_entries:
                    lst[j] = (e[0], gate, e[2], env_out(t.fr, e[3]), store_out(e[4]))
                else:
                    lst[j] = (gate, env_out(t.fr, e[1]), store_out(e[2]), e[3])
        return ways

    def _loop_out(self, src, inits, final, k, v, store_c):
        if k in final and v is not inits[k]:
            return self.mu(src, inits[k], final[k], store_c.get(k, inits[k]), v)
        return v

    def _src(self, it, xg):
        if it is None:
            return mk("while", xg)
        its = self.elem_of(it)[0]
        s = its[0] if len(its) == 1 else mk("nest", tuple(its))
        return s if xg is FALSE else mk("until", s, xg)

    def _loop_pass(self, it, target, body, fr, test, ctx0, g0, recs, src, lp=None):
        """One symbolic iteration: (guard, env, store) at its end, and exits."""
        own = lp is None
        if own:
            lp = Loop()
            fr.loops.append(lp)
        for k, r in recs.items():
            if isinstance(k, str):
                fr.env[k] = r
            else:
                self.store[k] = r
        if it is not None:
            ctxs, g, el = self.elem_of(it)
            for s in ctxs[:-1]:
                self.ctx = self.ctx + (("for", s),)
            self.ctx = self.ctx + (("for", src if src is not None and src.k == "until" else ctxs[-1]),)
            if g is not TRUE:
                lp.conts.append((AND(g0, NOT(g)), dict(fr.env), dict(self.store)))
            self.guard = AND(g0, g)
            self.assign(target, el, fr)
        else:
            self.ctx = self.ctx + (("while", src),) if src is not None else self.ctx + (("while",),)
            c = self.test(test, fr)
            if c is not TRUE:
                gg = self.guard
                gx = AND(gg, NOT(c))
                if gx is not FALSE:
                    lp.breaks.append((gx, dict(fr.env), dict(self.store)))
                self.guard = AND(gg, c)
        if self.guard is not FALSE:
            self.block(body, fr)
        self._join(fr, lp.conts)
        res = (self.guard, fr.env, self.store, list(lp.breaks))
        if own:
            fr.loops.pop()
        self.ctx = ctx0
        return res

    def mu(self, src, init, rec, step, exitv):
        if step is rec and exitv is rec:
            return init
        simple = exitv is rec and src.k not in ("while", "until")
        f = self._flagged(src, init, rec, step, exitv)
        if f is not None:
            return f
        if simple and init.k == "list":
            b = self._built(step, rec)
            if b is not None:
                comp = mk("comp", "seq", b[1], ((src, b[0]),))
                comp = self._ident_comp(comp)
                if not init.a[0]:
                    return comp
                return self.list_extend(init, mk("list", (mk("star", self.strip_iter(comp)),)) if comp.k == "list" else comp)
        if simple and init.k in ("setlit", "dictlit") and not init.a[0]:
            kind = "set" if init.k == "setlit" else "dict"
            b = self._grown(step, rec, lambda x: (x.a[1] if kind == "set" else tup(x.a[1:]))
                            if x.k == kind + ("add" if kind == "set" else "set") and x.a[0] is rec else None)
            if b is not None and not contains(b[1], lambda x: x is rec) and not contains(b[0], lambda x: x is rec):
                comp = mk("comp", kind, b[1], ((src, b[0]),))
                return comp if kind == "set" else self._ident_dict(comp)
        num = not is_c(init) and _intish(init)
        if simple and (num or is_c(init) and init.a[0] in ("bytes", "str", "int")):
            b = self._accum(step, rec)
            if b is not None:
                comp = self._ident_comp(mk("comp", "seq", b[1], ((src, b[0]),)))
                if comp.k == "list":
                    comp = comp.a[0][0].a[0]
                if not num and init.a[0] in ("bytes", "str"):
                    empty = C(b"" if init.a[0] == "bytes" else "")
                    return op("+", init, mk("join", empty, comp))
                return op("+", init, mk("call", G("builtins.sum"), (comp,), (), 0))
        if exitv is not rec and not contains(exitv, lambda x: x.k == "rec") and src.k == "while" and False:
            return exitv
        return mk("mu", src, init, rec, step, exitv)

    def _flagged(self, src, init, rec, step, exitv):
        """A variable given one other value when something is found."""
        def split(x):
            if x.k != "ite":
                return None
            hi, lo = x.a[1], x.a[2]
            c, out = TRUE, None
            todo = [(x, TRUE)]
            while todo:
                y, g = todo.pop()
                if y.k == "ite":
                    if contains(y.a[0], lambda z: z is rec):
                        return None
                    todo += [(y.a[1], AND(g, y.a[0])), (y.a[2], AND(g, NOT(y.a[0])))]
                elif y is not rec:
                    if y.k != "c" or out is not None and out[1] is not y:
                        return None
                    out = (OR(out[0], g) if out else g, y)
            return out
        if init.k != "c" or contains(src, lambda z: z is rec):
            return None
        if src.k == "until":
            e = split(exitv) if exitv is not rec else None
            s = split(step)
            if exitv.k == "c":
                e = (src.a[1], exitv)
            if e is None or e[0] is not src.a[1] or (step is not rec and s is not None):
                return None
            return ITE(_raw_ite(mk("loopexit", src.a[0], e[0]), TRUE, FALSE), e[1], init)
        if src.k == "while" or exitv is not rec:
            return None
        e = split(step)
        if e is None:
            return None
        return ITE(_raw_ite(mk("loopexit", src, e[0]), TRUE, FALSE), e[1], init)

    def _built(self, step, rec):
        def one(x):
            if x.k == "listcat" and x.a[0] is rec and x.a[1].k == "list" and len(x.a[1].a[0]) == 1 \
                    and x.a[1].a[0][0].k != "star":
                return x.a[1].a[0][0]
            return None
        return self._grown(step, rec, one)

    def _accum(self, step, rec):
        def one(x):
            if x.k != "op" or x.a[0] != "+":
                return None
            if x.a[1][0] is rec:
                rest = x.a[1][1:]
            else:
                rest = tuple(y for y in x.a[1] if y is not rec)
                if len(rest) != len(x.a[1]) - 1 or not any(_intish(y) for y in x.a[1]):
                    return None
            v = rest[0] if len(rest) == 1 else mk("op", "+", rest)
            return None if contains(v, lambda y: y is rec) else v
        return self._grown(step, rec, one)

    def _grown(self, step, rec, one):
        """(when an iteration adds something, what it adds)"""
        def go(x):
            if x is rec:
                return FALSE, None
            v = one(x)
            if v is not None:
                return TRUE, v
            if x.k != "ite":
                return None
            hi, lo = go(x.a[1]), go(x.a[2])
            if hi is None or lo is None:
                return None
            v = hi[1] if lo[1] is None else lo[1] if hi[1] is None else ITE(x.a[0], hi[1], lo[1])
            return ITE(x.a[0], hi[0], lo[0]), v
        r = go(step)
        return None if r is None or r[1] is None else r

    def s_Break(self, st, fr):
        fr.loops[-1].breaks.append((self.guard, dict(fr.env), dict(self.store)))
        self.guard = FALSE

    def s_Continue(self, st, fr):
        fr.loops[-1].conts.append((self.guard, dict(fr.env), dict(self.store)))
        self.guard = FALSE

    # ---- with / try
    def s_With(self, st, fr):
        self.with_items(list(st.items), st, fr)

    s_AsyncWith = s_With

    def with_items(self, items, st, fr):
        if not items:
            self.block(st.body, fr)
            return
        item, rest = items[0], items[1:]
        opened = self._managed(item, rest, st, fr)
        if opened is not None:
            return self.block(opened, fr)
        t = self.ev(item.context_expr, fr)
        if self.guard is FALSE:
            return
        sup = self._suppressor(t)
        if sup is not None:
            types, cb = sup
            names = [x.a[0].rsplit(".", 1)[-1] for x in types.a[0] if x.k == "g"]
            if item.optional_vars is not None:
                self.assign(item.optional_vars, t, fr)

            def handler(exc):
                if cb is not None and cb.k in ("fn", "bm", "g"):
                    self.call(cb, [mk("relay", exc)], [], fr)
            self.try_region(fr, [(types, names, None)], lambda: self.with_items(rest, st, fr), [handler], None, None)
            return
        ctx0 = self.ctx
        is_file = t.k == "call" and t.a[0] is G("$open")
        self.emit("enter", t)
        if not is_file:
            self.touch(WORLD, "$enter", (t,))
        if item.optional_vars is not None:
            c = self.typeof(t)
            val = t
            if isinstance(c, Class):
                f = self.meth(c, "__enter__") or self.meth(c, "__aenter__")
                rv = _returns_self(f)
                if not rv:
                    val = mk("entered", t)
            self.assign(item.optional_vars, val, fr)
        self.ctx = self.ctx + (("with", t),)
        n0 = len(fr.rets)
        self.with_items(rest, st, fr)
        self.ctx = ctx0
        closer = "$close" if is_file else "$exit"
        for x in fr.rets[n0:] if not is_file else ():
            save, self.store = self.store, x.store
            self.touch(WORLD, closer, (t,))
            x.store, self.store = self.store, save
        if self.guard is not FALSE and not is_file:
            self.touch(WORLD, closer, (t,))

    def _managed(self, item, rest, st, fr):
        """`with` over a generator of the package made a context manager: the statements of the
        generator around those of the block."""
        e = item.context_expr
        if not isinstance(e, ast.Call) or not isinstance(e.func, (ast.Name, ast.Attribute)):
            return None
        name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr
        if name not in _managers(self.prog):
            return None
        callee = self.ev(e.func, fr)
        f = self.find_func(callee.a[1] if callee.k == "bm" else callee.a[0] if callee.k == "g" else "")
        if f is None or not f.deco & MANAGERS or self.guard is FALSE:
            return None
        body = [desugar._like(type(st)(rest, st.body), st)] if rest else list(st.body)
        return _around(self, f, e, item.optional_vars, body, callee, fr)

    def _closes_file(self, st, fr):
        c = st.value if isinstance(st, ast.Expr) else None
        c = c.value if isinstance(c, ast.Await) else c
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "close"
                and isinstance(c.func.value, ast.Name)):
            return False
        f = fr.env.get(c.func.value.id)
        return f is not None and f.k == "call" and f.a[0] is G("$open")

    def _suppressor(self, t):
        if t.k == "new" and t.a[0].endswith(".Ignore"):
            kw = dict(t.a[2])
            return tup(t.a[1]), kw.get("if_except")
        if t.k == "call" and t.a[0] is G("contextlib.suppress"):
            return tup(t.a[1]), None
        return None

    def s_Try(self, st, fr):
        if not st.handlers and not st.orelse and len(st.finalbody) == 1 and self._closes_file(st.finalbody[0], fr):
            return self.block(st.body, fr)
        handlers = []
        bodies = []
        for h in st.handlers:
            types = self.ev(h.type, fr) if h.type is not None else G("builtins.BaseException")
            ts = types.a[0] if types.k == "tuple" else (types,)
            names = []
            for x in ts:
                n = (x.a[0] if x.k == "g" else str(x.a[-1])).rsplit(".", 1)[-1] if x.a else "?"
                if x.k == "g" and x.a[0].startswith(("aiootp",)):
                    n = "pkg:" + n
                names.append(n)
            handlers.append((types, names, h))

            def body(exc, h=h):
                if h.name:
                    fr.env[h.name] = exc
                fr.handling.append(exc)
                self.block(h.body, fr)
                fr.handling.pop()
            bodies.append(body)

        self.try_region(fr, handlers, lambda: self.block(st.body, fr), bodies,
                        (lambda: self.block(st.orelse, fr)) if st.orelse else None,
                        (lambda: self.block(st.finalbody, fr)) if st.finalbody else None)

    s_TryStar = s_Try

    def try_region(self, fr, handlers, body, hbodies, orelse, final):
        ctx0 = self.ctx
        tc = TryCtx(fr, handlers, final is not None, len(self.stack))
        self.tries.append(tc)
        body()
        # else clause and handlers are no longer protected by the handlers
        hs, tc.handlers = tc.handlers, []
        if orelse is not None and self.guard is not FALSE:
            orelse()
        points = [(self.guard, fr.env, self.store)]
        for (types, names, node), entries, hb in zip(hs, tc.entries, hbodies):
            if not entries:
                continue
            g, env, store, exc = entries[-1]
            for g1, e1, s1, x1 in reversed(entries[:-1]):
                env = self._merge(g1, e1, env)
                store = self._merge(g1, s1, store, attr=True)
                exc = x1 if x1 is exc else ITE(g1, x1, exc)
                g = OR(g, g1)
            self.guard, fr.env, self.store = g, dict(env), dict(store)
            self.ctx = ctx0 + (("handler", types),)
            hb(exc)
            self.ctx = ctx0
            points.append((self.guard, fr.env, self.store))
        self.guard, fr.env, self.store = points[0]
        self._join(fr, points[1:])
        self.tries.pop()
        if final is not None:
            g, env, store = self.guard, fr.env, self.store
            for e in tc.fin_entries:
                self.guard, fr.env = e[1], dict(e[3])
                if e[0] == "ret":
                    self.store = e[2].store
                    self.ctx = ctx0 + (("finally",),)
                    self._in_final(final, fr)
                    self.ctx = ctx0
                    e[2].store = self.store
                else:
                    self.store = dict(e[4])
                    self.ctx = ctx0 + (("finally",),)
                    self._in_final(final, fr)
                    self.ctx = ctx0
                    leaf, cause, node, fn, idx = e[2]
                    if self.guard is not FALSE:
                        save, self.node = self.node, node
                        self.raise_one(self.guard, leaf, cause, store=self.store, start=idx)
                        self.node = save
            self.guard, fr.env, self.store = g, env, store
            if self.guard is not FALSE:
                self.ctx = ctx0 + (("finally",),)
                final()
                self.ctx = ctx0

    def _in_final(self, final, fr):
        final()

    # ---- nested definitions
    def s_FunctionDef(self, st, fr):
        f = Func(fr.func.mod, None, st, outer=fr.func)
        t = self.closure(f, fr)
        for d in reversed(st.decorator_list):
            dn = ast.unparse(d)
            if dn.startswith("wraps") or dn.startswith("functools.wraps"):
                continue
            t = self.call(self.ev(d, fr), [t], [], fr)
        fr.env[st.name] = t

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st, fr):
        fr.env[st.name] = mk("localclass", st.name)

    def closure(self, f, fr):
        n = self.fresh_count(("fn", fr.func.qual))
        t = mk("fn", f"{fr.func.qual}.<local>", n)
        while t in self.types and (self.types[t][0].node is not f.node or self.types[t][1] is not fr):
            n += 1                        # another branch has used this number
            t = mk("fn", f"{fr.func.qual}.<local>", n)
        self.types[t] = (f, fr)
        return t

    # --------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise NotImplementedError(type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if self.tw and isinstance(e.value, str):
            return C(self.tw.CONST.get(e.value, e.value))
        return C(e.value)

    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.env and e.id not in f.gnames:
                return f.env[e.id]
            f = f.parent
        return self.name_term(fr.func.mod, e.id)

    def name_term(self, mod, name):
        k = ("global", f"{mod.name}.{name}")
        if k in self.store:
            return self.store[k]
        r = self.prog.resolve(mod, name)
        return self.ref_term(r, f"{mod.name}.{name}")

    def ref_term(self, r, fallback):
        if r is None:
            return G(fallback)
        if r[0] == "func":
            if self.tw and r[1].qual == "aiootp._gentools.azip":
                return G("builtins.zip")
            return G(self.tf(r[1]).qual)
        if r[0] == "class":
            return G(self.tc(r[1]).qual)
        if r[0] == "mod":
            return G(r[1])
        if r[0] in ("ext", "opaque"):
            return G(_alias(r[1]))
        if r[0] == "var":
            return self.var_term(r[1], r[2], r[3])
        if r[0] == "classattr":
            return self.class_attr(r[1], r[2])
        return G(fallback)

    def var_term(self, mod, expr, name):
        key = ("var", mod.name, name)
        if key in self._clsattr:
            return self._clsattr[key]
        opaque = G(f"{mod.name}.{name}")
        self._clsattr[key] = opaque
        v = self.const_expr(mod, expr)
        if v is not None:
            self._clsattr[key] = v
            return v
        c = self._ctor_class(mod, expr)
        if c is not None:
            self.types[opaque] = c
        return opaque

    def _ctor_class(self, mod, expr):
        if isinstance(expr, ast.Call) and isinstance(expr.func, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(mod, expr.func)
            if r and r[0] == "class":
                return r[1]
        return None

    def const_expr(self, mod, e, cls=None):
        """Constants and plain aliases are folded; anything else stays named."""
        if isinstance(e, ast.Constant):
            return self.e_Constant(e, None)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.const_expr(mod, e.operand, cls)
            return C(-cval(v)) if v is not None and v.k == "c" and v.a[0] in ("int", "float") else None
        if isinstance(e, ast.Name):
            if cls is not None and e.id in cls.attrs and not isinstance(cls.attrs[e.id], (Func, Class)) \
                    and getattr(cls.attrs[e.id], "expr", cls.attrs[e.id]) is not e:
                return self.class_attr(cls, e.id)
            r = self.prog.resolve(mod, e.id)
            if r and r[0] in ("func", "class", "ext", "var", "mod"):
                return self.ref_term(r, f"{mod.name}.{e.id}")
        if isinstance(e, ast.Attribute):
            r = self.prog.resolve_expr(mod, e)
            if r and r[0] in ("func", "class", "ext", "classattr", "var"):
                return self.ref_term(r, ast.unparse(e))
            if isinstance(e.value, ast.Name):
                r = self.prog.resolve(mod, e.value.id)
                if r and r[0] == "var":
                    b = self.var_term(r[1], r[2], r[3])
                    return self.getattr(b, e.attr)
        if isinstance(e, ast.Tuple):
            vs = [self.const_expr(mod, x, cls) for x in e.elts]
            if all(v is not None for v in vs):
                return tup(vs)
        if isinstance(e, ast.BinOp):
            l, r = self.const_expr(mod, e.left, cls), self.const_expr(mod, e.right, cls)
            if l is not None and r is not None and l.k == "c" and r.k == "c":
                v = op(_OPS[type(e.op).__name__], l, r)
                if v.k == "c":
                    return v
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            b = self.const_expr(mod, e.value, cls)
            if b is not None and b.k == "c":
                parts = [self.const_expr(mod, x, cls) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                if all(p is not None and p.k == "c" for p in parts):
                    return sub(b, mk("slice", *parts))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "slice" and not e.keywords:
            vs = [self.const_expr(mod, x, cls) for x in e.args]
            if all(v is not None for v in vs):
                return self._slice(vs)
        return None

    @staticmethod
    def _slice(vs):
        vs = list(vs)
        if len(vs) == 1:
            vs = [NONE, vs[0], NONE]
        while len(vs) < 3:
            vs.append(NONE)
        lo, hi, st = vs
        return mk("slice", NONE if is_c(lo, 0) else lo, hi, NONE if is_c(st, 1) else st)

    def class_attr(self, cls, name):
        r = self.look(cls, name)
        if r is None:
            return mk("a", G(cls.qual), self.nm(name))
        owner, val = r
        if isinstance(val, Func):
            return mk("g", val.qual)
        if isinstance(val, Class):
            return G(self.tc(val).qual)
        key = ("cls", owner.qual, name)
        if key in self._clsattr:
            return self._clsattr[key]
        opaque = G(f"{owner.qual}.{name}")
        self._clsattr[key] = opaque
        vmod = owner.mod
        if isinstance(val, SpecExpr):
            vmod, val = val.mod, val.expr
        v = self.const_expr(vmod, val, owner)
        if v is not None:
            self._clsattr[key] = v
            return v
        c = self._ctor_class(vmod, val)
        if c is not None:
            self.types[opaque] = c
        return opaque

    def e_Attribute(self, e, fr):
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super" \
                and not e.value.args:
            return self.super_attr(e.attr, fr)
        b = self.ev(e.value, fr)
        if self.guard is FALSE:
            return NONE
        return self.getattr(b, e.attr)

    def super_attr(self, attr, fr):
        f = fr
        while f.func.cls is None and f.parent is not None:
            f = f.parent
        cls = f.func.cls
        pos = list(f.func.args.posonlyargs) + list(f.func.args.args)
        selft = f.env.get(pos[0].arg) if pos else mk("self")
        tc = self.typeof(selft) if selft.k != "g" else self.prog.class_named(selft.a[0])
        if not isinstance(tc, Class):
            tc = cls
        r = self.look(tc or cls, attr, after=cls)
        if r is None:
            return mk("a", mk("super", selft), attr)
        owner, val = r
        if isinstance(val, Func):
            return mk("bm", selft, val.qual)
        return self.class_attr(owner, attr)

    HCONST = {"block_size": "block_size", "digest_size": "digest_size"}

    def getattr(self, b, name, depth=0):
        if b.k == "ite":
            return lift(lambda x: self.getattr(x, name), [b])
        name0, name = name, self.nm(name)
        if b.k == "now" and (b.a[0].k in ("self", "new") or isinstance(self.typeof(b.a[0]), Class)):
            return self.getattr(b.a[0], name0)
        k = (b, name)
        if k in self.store:
            r = self.store[k]
            if r is DELETED:
                self.risk("sattr", mk("getdel", b, name))
            return r
        if b.k == "hobj" and name in self.HCONST:
            alg = b.a[0].a[0].rsplit(".", 1)[-1] if b.a[0].k == "g" else None
            if alg in HASHES:
                return C(getattr(getattr(_hl, alg)(), name))
        if name == "__class__":
            c = self.typeof(b)
            if b.k in ("new", "self") and isinstance(c, Class):
                return G(c.qual)
            if b.k == "c":
                return G("builtins." + b.a[0])
            if b.k == "hobj":
                return mk("a", b.a[0], "$type")
            return mk("a", b, name)
        if name == "__dict__" and b.k != "g":
            return mk("a", self.v(b), "__dict__")
        if b.k == "g":
            q = b.a[0]
            c = self.prog.class_named(q) if self._is_cls(q) else None
            if c is not None and c.qual == q:
                r = self.look(c, name0)
                if r is None:
                    if name in ("__name__", "__qualname__"):
                        return C(c.name)
                    return mk("a", b, name)
                if isinstance(r[1], Func):
                    f = r[1]
                    if "classmethod" in f.deco:
                        return mk("bm", b, f.qual)
                    return mk("g", f.qual)
                return self.class_attr(c, name0)
            if q in self.prog.mods:
                r = self.prog._member(self.prog.mods[q], name0)
                return self.ref_term(r, f"{q}.{name0}")
            if b in self.types:
                pass
            elif not q.startswith("aiootp") and not q.startswith("$"):
                return G(_alias(f"{q}.{name0}"))
            else:
                return mk("a", b, name)
        c = self.typeof(b)
        if isinstance(c, Class):
            r = self.look(c, name0)
            if r is not None:
                owner, val = r
                if isinstance(val, Func):
                    if "property" in val.deco:
                        return self.property(b, val)
                    if "staticmethod" in val.deco:
                        return mk("g", val.qual)
                    if "classmethod" in val.deco:
                        return mk("bm", G(c.qual), val.qual)
                    return mk("bm", b, val.qual)
                return self.class_attr(c, name0)
            ga = self.meth(c, "__getattr__")
            if ga is not None and self.may_inline(ga):
                return self.inline(ga, [b, C(name)], {}, selfbound=True)
        t = mk("a", b, name)
        if b.k in ("self", "a", "p", "new") and not (b.k == "self" and self.always_set(c, name0)):
            self.risk("sattr", t)
        if isinstance(c, Class) and t not in self.types:
            ac = self.attr_class(c, name0)
            if ac is not None:
                self.types[t] = ac
        return t

    def _is_cls(self, q):
        mod, _, n = q.rpartition(".")
        m = self.prog.mods.get(mod)
        return bool(m and m.defs.get(n, (0,))[0] == "class")

    def attr_class(self, cls, name):
        """Class of an instance attribute, from constructor-style writes."""
        cache = self.prog.__dict__.setdefault("_attr_cls", {})
        key = (cls.qual, name)
        if key not in cache:
            cache[key] = self._attr_class(cls, name)
            hints = getattr(self.prog, "hints", None)
            if cache[key] is None and hints is not None:
                c = hints.class_named(cls.qual)
                k = Ev(hints).attr_class(c, name) if c is not None else None
                cache[key] = self.prog.class_named(k.qual) if k is not None else None
        return cache[key]

    def _attr_class(self, cls, name):
        for c in self.prog.mro(cls):
            for f in c.attrs.values():
                if not isinstance(f, Func):
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign):
                        for tg in n.targets:
                            if isinstance(tg, ast.Attribute) and tg.attr == name and isinstance(tg.value, ast.Name) \
                                    and tg.value.id == "self":
                                v = n.value
                                if isinstance(v, ast.Await):
                                    v = v.value
                                if isinstance(v, ast.Call):
                                    if isinstance(v.func, ast.Name):
                                        r = self.prog.resolve(f.mod, v.func.id)
                                        if r and r[0] == "class":
                                            return r[1]
                                    if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) \
                                            and v.func.value.id in ("self", "cls"):
                                        r = self.prog.lookup(cls, v.func.attr)
                                        if r and isinstance(r[1], SpecExpr):
                                            r = (r[1], r[1].expr)
                                        if r and isinstance(r[1], ast.expr):
                                            r2 = self.prog.resolve_expr(r[0].mod, r[1])
                                            if r2 and r2[0] == "class":
                                                return r2[1]
                                if isinstance(v, ast.Name):
                                    for p in f.args.args + f.args.kwonlyargs + f.args.posonlyargs:
                                        if p.arg == v.id and p.annotation is not None:
                                            k = self._ann_class(f.mod, p.annotation)
                                            if k is not None:
                                                return k
        return None

    def property(self, b, f):
        if not self.may_inline(f):
            return mk("a", self.v(b), self.nm(f.name))
        return self.inline(f, [b], {}, selfbound=True)

    def may_inline(self, f):
        return (len(self.stack) <= self.max_depth and not any(s.func is f for s in self.stack)
                and f.name not in self.opaque_names and f.qual not in self.opaque_names
                and not (f.is_async and self.nm(f.name) in self.opaque_names)
                and not (f.name in self.pure and f.cls is None)
                and not (f.name in self.pure and f.cls is not None and f.cls.name in ("ByteIO", "DomainEncoder", "Domains"))
                and self.inline_policy(f, self))

    def e_Await(self, e, fr):
        return self.ev(e.value, fr)

    def e_Starred(self, e, fr):
        return mk("star", self.ev(e.value, fr))

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def _seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                v2 = self.iterable(v)
                if v2.k in ("tuple", "list"):
                    out.extend(v2.a[0])
                else:
                    out.append(mk("star", v2))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Tuple(self, e, fr):
        return tup(self._seq(e.elts, fr))

    def e_List(self, e, fr):
        return mk("list", tuple(self._seq(e.elts, fr)))

    def e_Set(self, e, fr):
        return mk("setlit", tuple(sorted(self._seq(e.elts, fr), key=lambda t: t.d)))

    def e_Dict(self, e, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, fr)
                if d.k == "dictlit":
                    for kk, vv in d.a[0]:
                        items = _put(items, kk, vv)
                else:
                    items.append((mk("star", self.v(d)), NONE))
            else:
                kt = self.ev(k, fr)
                vt = self.ev(v, fr)
                items = _put(items, kt, vt)
        return mk("dictlit", tuple(items))

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                parts.append(self.fmtval(v, fr))
        return self.fstr(parts)

    def fmtval(self, v, fr):
        x = self.ev(v.value, fr)
        x = self.v(x)
        if v.conversion == 114:
            return mk("fmt", x, "r")
        if v.format_spec is not None:
            return mk("fmt", x, ast.unparse(v.format_spec))
        return x

    @staticmethod
    def fstr(parts):
        out = []
        for p in parts:
            if p.k == "fstr":
                out.extend(p.a[0])
            else:
                out.append(p)
        res = []
        for p in out:
            if p.k == "c" and p.a[0] == "int":
                p = C(str(cval(p)))
            if res and res[-1].k == "c" and p.k == "c" and res[-1].a[0] == p.a[0] == "str":
                res[-1] = C(cval(res[-1]) + cval(p))
            else:
                res.append(p)
        if len(res) == 1 and res[0].k == "c":
            return res[0]
        return mk("fstr", tuple(res))

    def e_FormattedValue(self, e, fr):
        return self.fmtval(e, fr)

    def e_Lambda(self, e, fr):
        f = Func(fr.func.mod, None, e, outer=fr.func)
        return self.closure(f, fr)

    def binop(self, o, l, r):
        if o == "+" and _listy(l) and r.k in ("list", "listcat", "comp", "tuple"):
            return self.list_extend(l, self.as_list(r))
        if o == "/" and (self.is_path(l)):
            return mk("op", "/", (l, r))
        res = lift(lambda x, y: op(o, self.v(x), self.v(y)), [l, r])
        if o in ("//", "%", "/") and res.k == "op":
            self.risk("num", res)
        return res

    def is_path(self, t):
        return t.k == "call" and t.a[0] is G("pathlib.Path")

    def e_BinOp(self, e, fr):
        l = self.ev(e.left, fr)
        r = self.ev(e.right, fr)
        if self.guard is FALSE:
            return NONE
        return self.binop(_OPS[type(e.op).__name__], l, r)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return value(NOT(self.v(v)))
        return lift(lambda x: op({"USub": "-", "Invert": "~", "UAdd": "+"}[type(e.op).__name__], x), [v])

    def e_BoolOp(self, e, fr):
        is_or = isinstance(e.op, ast.Or)
        vals = e.values

        def go(i):
            v = self.ev(vals[i], fr)
            if i == len(vals) - 1 or self.guard is FALSE:
                return v
            c = to_bool(self.v(v))
            if is_or:
                (g1, r1), (g2, r2) = self.branch(c, lambda: v, lambda: go(i + 1), fr)
                hi, lo = v, r2
            else:
                (g1, r1), (g2, r2) = self.branch(c, lambda: go(i + 1), lambda: v, fr)
                hi, lo = r1, v
            if g1 is FALSE or hi is None:
                return lo if lo is not None else NONE
            if g2 is FALSE or lo is None:
                return hi
            if is_or and hi.k in ("cmp",):
                hi = TRUE
            if not is_or and lo.k in ("cmp",):
                lo = FALSE
            return ITE(c, hi, lo)

        return value(go(0))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = TRUE
        for o, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            if self.guard is FALSE:
                return FALSE
            on = type(o).__name__
            if on in ("Is", "IsNot"):
                x = lift(lambda x, y: to_bool(compare(on, x, y)), [left, right])
            elif on in ("In", "NotIn"):
                x = lift(lambda x, y: to_bool(self.contains_(on, x, y)), [left, right])
            elif on in ("LtE", "GtE") and _is_set(left) and _is_set(right):
                # of sets, an inclusion
                x, y = (left, right) if on == "LtE" else (right, left)
                x = to_bool(self.call(mk("a", y, "issuperset"), [x], [], fr))
            else:
                x = lift(lambda x, y: to_bool(compare(on, self.v(x), self.v(y))), [left, right])
            res = AND(res, x)
            left = right
        return value(res)

    def contains_(self, on, x, y):
        y0 = self.strip_iter(y)
        if y0.k in ("tuple", "list", "setlit") and not any(z.k == "star" for z in y0.a[0]):
            r = OR(*[to_bool(cmp_("eq", x, z)) for z in y0.a[0]])
            return NOT(r) if on == "NotIn" else r
        if y0.k == "call" and y0.a[0] in (G("builtins.set"), G("builtins.frozenset")) and len(y0.a[1]) == 1:
            return self.contains_(on, x, y0.a[1][0])
        if isinstance(self.typeof(y0), Class):
            f = self.meth(self.typeof(y0), "__contains__")
            if f is not None and self.may_inline(f):
                r = to_bool(self.inline(f, [y0, x], {}, selfbound=True))
                return NOT(r) if on == "NotIn" else r
        return compare(on, x, self.v(y0))

    def e_IfExp(self, e, fr):
        c = self.test(e.test, fr)
        (g1, a), (g2, b) = self.branch(c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr), fr)
        if g1 is FALSE or a is None:
            return b if b is not None else NONE
        if g2 is FALSE or b is None:
            return a
        return value(ITE(c, a, b))

    def e_Subscript(self, e, fr):
        b = self.ev(e.value, fr)
        i = self.ev(e.slice, fr)
        if self.guard is FALSE:
            return NONE
        return self.getitem(b, i)

    def getitem(self, b, i):
        if b.k == "ite" or i.k == "ite":
            return lift(self.getitem, [b, i])
        c = self.typeof(b)
        if isinstance(c, Class) and b.k != "g":
            f = self.meth(c, "__getitem__")
            if f is not None and self.may_inline(f):
                return self.inline(f, [b, i], {}, selfbound=True)
        if b.k == "call" and b.a[0] is G("builtins.dict") and is_c(i):
            for k, x in b.a[2]:
                if k == cval(i):
                    return x
        if b.k == "comp" and b.a[0] == "seq" and len(b.a[2]) == 1 and b.a[2][0][1] is TRUE and is_c(i) and i.a[0] == "int":
            # an element of a list made from another: made from that one's element
            src = b.a[2][0][0]
            x = self.getitem(src, i)
            return _subst(b.a[1], {mk("elem", src): x})
        r = sub(self.v(b), self.v(i))
        if r.k == "sub" and i.k != "slice":
            if not (r.a[0].k in ("sub",) and r.a[0].a[1].k == "slice"):
                self.risk("item", r)
                self.emit("peek", b, "[]")
        return r

    def e_Slice(self, e, fr):
        f = lambda x: self.ev(x, fr) if x is not None else NONE
        return self._slice([f(e.lower), f(e.upper), f(e.step)])

    # ---- generators
    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NONE
        return self.do_yield(v, fr)

    def do_yield(self, v, fr):
        if self.guard is FALSE:
            return NONE
        v = restrict(v, self.guard)
        fr.yields.append(Exit("yield", self.guard, v, dict(self.store), self.ctx, self.node, fr.func))
        if len(self.stack) == 1 or fr is self.stack[0]:
            self.emit("yield", v)
        n = self.fresh_count("sent")
        return mk("sent", n)

    def e_YieldFrom(self, e, fr):
        it = self.iterable(self.ev(e.value, fr))
        if self.guard is FALSE:
            return NONE
        self._yf(it, fr)
        return mk("yf")

    def _yf(self, it, fr):
        it = self.strip_iter(it)
        if it.k in ("tuple", "list"):
            for x in it.a[0]:
                if x.k == "star":
                    self._yf(x.a[0], fr)
                else:
                    self.do_yield(x, fr)
            return
        if it.k == "comp" and it.a[2] and it.a[2][0][0].k == "once" and len(it.a[2]) == 1:
            g0 = self.guard
            self.guard = AND(g0, it.a[2][0][1])
            self.do_yield(it.a[1], fr)
            self.guard = g0
            return
        if it.k == "call" and it.a[0] is G("builtins.map") and len(it.a[1]) == 2:
            y = ast.Expr(ast.Yield(ast.Name("$y", ast.Load())))
            desugar._like(y, self.node)
            return self.for_over(it, ast.Name("$y", ast.Store()), [y], fr)
        ctxs, g, el = self.elem_of(it)
        ctx0, g0 = self.ctx, self.guard
        for s in ctxs:
            self.ctx = self.ctx + (("for", s),)
        self.guard = AND(g0, g)
        self.do_yield(el, fr)
        self.ctx, self.guard = ctx0, g0

    # ---- comprehensions
    def comp(self, kind, elt, gens, fr):
        env0, ctx0, g0 = fr.env, self.ctx, self.guard
        fr.env = dict(env0)
        srcs = []
        lp = Loop()
        fr.loops.append(lp)

        marks = []

        def go(i):
            nonlocal g0
            if i == len(gens):
                return elt()
            gen = gens[i]
            it = self.iterable(self.ev(gen.iter, fr))
            if i == 0:
                g0 = self.guard
                del lp.exits[:]
                marks[:] = [(t, [len(e) for e in t.entries], len(t.fin_entries)) for t in self.tries]
            ctxs, g, el = self.elem_of(it)
            for s in ctxs:
                self.ctx = self.ctx + (("for", s),)
            self.guard = AND(self.guard, g)
            self.assign(gen.target, el, fr)
            cond = g
            for c in gen.ifs:
                cc = self.test(c, fr)
                cond = AND(cond, cc)
                self.guard = AND(self.guard, cc)
            for s in ctxs[:-1]:
                srcs.append((s, TRUE))
            srcs.append((ctxs[-1], cond))
            return go(i + 1)

        v = self.v(go(0))
        fr.env, self.ctx = env0, ctx0
        fr.loops.pop()
        self.guard = g0
        xs = [x for x in lp.exits if x is not FALSE]
        if srcs:
            src = srcs[0][0] if len(srcs) == 1 else mk("nest", tuple(s for s, _ in srcs))
            xs += self._caught_outside(marks, src, g0, False, lambda f, env: env, lambda st: st)
        if xs and srcs:
            self.guard = AND(g0, NOT(mk("loopexit", src, _relguard(OR(*xs), g0))))
        return mk("comp", kind, v, tuple(srcs))

    def _unroll(self, e, fr):
        if len(e.generators) == 1:
            gen = e.generators[0]
            snap = self._snap(fr)
            it = self.iterable(self.ev(gen.iter, fr))
            if it.k in ("tuple", "list") and 0 < len(it.a[0]) <= 12 and not any(x.k == "star" for x in it.a[0]) and not gen.ifs:
                out = []
                env0 = fr.env
                for x in it.a[0]:
                    fr.env = dict(env0)
                    self.assign(gen.target, x, fr)
                    out.append(self.ev(e.elt, fr))
                fr.env = env0
                return out
            self._restore(snap, fr)
        return None

    def e_ListComp(self, e, fr):
        u = self._unroll(e, fr)
        if u is not None:
            return mk("list", tuple(u))
        snap = self._snap(fr)
        r = self.comp("seq", lambda: self.ev(e.elt, fr), e.generators, fr)
        if self._changed(snap[1]):
            # elements with side effects: the comprehension is a loop
            self._restore(snap, fr)
            return self._comp_loop(e, fr)
        return self._ident_comp(r)

    def _changed(self, old):
        return any(v is not old.get(k) for k, v in self.store.items() if k[1] not in ("$off", "$abs")
                   and (k in old or not isinstance(k[0], T) or _root(k[0]) in ("self", "p", "g") or k[0] in (WORLD, VERDICT, ORDER)))

    def _comp_loop(self, e, fr):
        self._acc = getattr(self, "_acc", 0) + 1
        acc = f"$acc{self._acc}"
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [e.elt], []))]
        for gen in reversed(e.generators):
            for c in reversed(gen.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(gen.target, gen.iter, body, [])]
        for n in body:
            ast.copy_location(n, e)
            ast.fix_missing_locations(n)
        env0 = dict(fr.env)
        fr.env[acc] = mk("list", ())
        self.block(body, fr)
        v = fr.env.get(acc, mk("list", ()))
        for n in [n for n in fr.env if n not in env0]:
            del fr.env[n]
        for gen in e.generators:
            for n in ast.walk(gen.target):
                if isinstance(n, ast.Name) and n.id in env0:
                    fr.env[n.id] = env0[n.id]
        return v

    def _ident_comp(self, r):
        """[x for x in it] == list(it)"""
        if r.k == "comp" and len(r.a[2]) == 1 and r.a[2][0][1] is TRUE and r.a[1].k == "elem" and r.a[1].a[0] is r.a[2][0][0] \
                and r.a[2][0][0].k in ("list", "tuple"):
            return mk("list", r.a[2][0][0].a[0])
        if r.k == "comp" and len(r.a[2]) == 1 and r.a[2][0][1] is TRUE and r.a[1].k == "elem" and r.a[1].a[0] is r.a[2][0][0]:
            return mk("list", (mk("star", r.a[2][0][0]),))
        return r

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        return self.comp("set", lambda: self.ev(e.elt, fr), e.generators, fr)

    def e_DictComp(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            gen = e.generators[0]
            it = self.iterable(self.ev(gen.iter, fr))
            if it.k in ("tuple", "list") and 0 < len(it.a[0]) <= 12 and not any(x.k == "star" for x in it.a[0]):
                out, env0 = [], fr.env
                for x in it.a[0]:
                    fr.env = dict(env0)
                    self.assign(gen.target, x, fr)
                    out.append((self.ev(e.key, fr), self.ev(e.value, fr)))
                fr.env = env0
                return mk("dictlit", tuple(out))
        return self._ident_dict(self.comp(
            "dict", lambda: tup([self.ev(e.key, fr), self.ev(e.value, fr)]), e.generators, fr))

    def _ident_dict(self, r):
        if r.k == "comp" and len(r.a[2]) == 1 and r.a[2][0][1] is TRUE:
            src = r.a[2][0][0]
            k, x = r.a[1].a[0]
            if k is sub(mk("elem", src), C(0)) and x is sub(mk("elem", src), C(1)):
                return self.intrinsic("builtins.dict", [src], [], None, None)
            if k is mk("elem", src) and x is sub(src, k):
                return self.intrinsic("builtins.dict", [src], [], None, None)
        return r

    def list_extend(self, cur, v):
        if cur.k == "list" and not cur.a[0] and v.k in ("list", "listcat", "comp"):
            return v
        if v.k == "list" and not v.a[0]:
            return cur
        if cur.k == "list" and v.k == "list":
            return mk("list", cur.a[0] + v.a[0])
        if cur.k == "listcat" and cur.a[1].k == "list" and v.k == "list":
            return mk("listcat", cur.a[0], mk("list", cur.a[1].a[0] + v.a[0]))
        if cur.k == "ite":
            return ITE(_raw_ite(cur.a[0], TRUE, FALSE), self.list_extend(cur.a[1], v), self.list_extend(cur.a[2], v))
        return mk("listcat", cur, v)

    # --------------------------------------------------------------- calls
    def e_Call(self, e, fr):
        # value-semantics updates of literal containers held in a variable/attribute
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "extend", "insert", "reverse", "update", "add",
                                                                 "appendleft", "clear", "sort", "setdefault", "pop", "remove") \
                and self.lvalue(e.func.value, fr) and not isinstance(e.func.value, ast.Call):
            r = self.literal_update(e, fr)
            if r is not None:
                return r
        callee = self.ev(e.func, fr)
        if len(e.args) == 1 and not e.keywords and self.runs_coroutine(callee):
            save = self.tw
            self.tw = self.tw or self.prog_twins()
            try:
                return self.ev(e.args[0], fr)
            finally:
                self.tw = save
        args = self._seq(e.args, fr)
        kw = []
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if v.k == "dictlit" and all(kk.k == "c" for kk, _ in v.a[0]):
                    kw.extend((cval(kk), vv) for kk, vv in v.a[0])
                elif v.k == "call" and v.a[0] is G("builtins.dict") and not v.a[1]:
                    kw.extend(v.a[2])
                elif v.k == "ite" and self._same_keys(v):
                    for kk, _ in next(leaves(v))[1].a[0]:
                        kw.append((cval(kk), lift(lambda d: sub(d, kk), [v])))
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        if self.guard is FALSE:
            return NONE
        self.site = (e, fr)
        try:
            return self.call(callee, args, kw, fr, e)
        finally:
            self.site = None

    def _same_keys(self, v):
        """Dictionaries of one set of constant keys, whichever way the choice goes."""
        keys = set()
        for _, d in leaves(v):
            if d.k != "dictlit" or any(k.k != "c" for k, _ in d.a[0]):
                return False
            keys.add(frozenset(k for k, _ in d.a[0]))
        return len(keys) == 1

    def runs_coroutine(self, callee):
        """asyncio.run and run_until_complete: the value is that of the coroutine."""
        if callee.k == "g":
            q = callee.a[0]
            if q == "asyncio.run":
                return True
            mod, _, n = q.rpartition(".")
            m = self.prog.mods.get(mod)
            r = self.prog.resolve(m, n) if m is not None else None
            if r and r[0] == "var" and isinstance(r[2], ast.Attribute) and r[2].attr == "run_until_complete":
                return True
        return callee.k == "a" and callee.a[1] == "run_until_complete"

    def prog_twins(self):
        if getattr(self.prog, "_twins", None) is None:
            from .twins import Twins
            self.prog._twins = Twins(self.prog)
        return self.prog._twins

    def literal_update(self, e, fr):
        name = e.func.attr
        if isinstance(e.func.value, ast.Name):
            f = self.find_env(e.func.value.id, fr)
            cur = f.env[e.func.value.id] if f else None
        elif isinstance(e.func.value.value, ast.Name) and self.find_env(e.func.value.value.id, fr):
            b = self.ev(e.func.value.value, fr)
            cur = self.store.get((b, self.nm(e.func.value.attr)))
            f = None
        else:
            return None
        if cur is None:
            return None

        def put(nv):
            if f is not None:
                f.env[e.func.value.id] = nv
            else:
                self.assign(e.func.value, nv, fr)
            return NONE
        if _listy(cur) and name in ("append", "extend") and len(e.args) == 1 and not e.keywords:
            v = self.ev(e.args[0], fr) if name == "append" else None
            if name == "append":
                add = mk("list", (v,))
            else:
                add = mk("list", tuple(self._seq([ast.Starred(e.args[0])], fr)))
            cur = f.env[e.func.value.id] if f else cur
            return put(self.list_extend(cur, add))
        if _listy(cur) and name == "reverse" and not e.args:
            return put(sub(cur, self._slice([NONE, NONE, C(-1)])))
        if _listy(cur) and name == "insert" and len(e.args) == 2:
            i, v = self.ev(e.args[0], fr), self.ev(e.args[1], fr)
            if is_c(i, 0) and cur.k == "list":
                return put(mk("list", (v,) + cur.a[0]))
            return put(mk("inserted", cur, i, v))
        if cur.k == "dictlit" and name == "update":
            items = list(cur.a[0])
            extra = []
            for a in e.args:
                d = self.ev(a, fr)
                if d.k == "dictlit":
                    extra += list(d.a[0])
                elif d.k == "call" and d.a[0] is G("builtins.dict") and not d.a[1]:
                    extra += [(C(k), x) for k, x in d.a[2]]
                else:
                    extra.append((mk("star", self.v(d)), NONE))
            for k in e.keywords:
                extra.append((C(k.arg), self.ev(k.value, fr)))
            for k, x in extra:
                items = _put(items, k, x)
            return put(mk("dictlit", tuple(items)))
        if _listy(cur) and name in ("sort",) and not e.args:
            return put(mk("call", G("builtins.sorted"), (cur,), tuple((k.arg, self.ev(k.value, fr)) for k in e.keywords), 0))
        if cur.k in ("list", "listcat", "comp", "dictlit", "setlit", "mu", "upd", "without") and name in ("clear",):
            return put(mk("list", ()) if _listy(cur) else mk("dictlit", ()))
        if _setty(cur) and name == "add" and len(e.args) == 1:
            v = self.ev(e.args[0], fr)
            if cur.k == "setlit":
                return put(mk("setlit", tuple(sorted(set(cur.a[0]) | {v}, key=lambda t: t.d))))
            return put(mk("setadd", cur, v))
        if cur.k in ("list", "dictlit", "listcat", "comp") and name in ("pop", "remove", "setdefault"):
            args = tuple(self.ev(a, fr) for a in e.args)
            put(mk("after", cur, name, args))
            return mk("taken", cur, name, args)
        return None

    def call(self, callee, args, kw, fr, node=None):
        i = next((i for i, a in enumerate(args) if a.k == "star" and a.a[0].k == "ite"
                  and all(x.k in ("tuple", "list") for _, x in leaves(a.a[0]))), None)
        if i is not None:
            # a choice between argument lists of its own
            t = args[i].a[0]
            c = _raw_ite(t.a[0], TRUE, FALSE)
            one, two = ([*args[:i], *(x.a[0] if x.k in ("tuple", "list") else [mk("star", x)]), *args[i + 1:]]
                        for x in t.a[1:3])
            (g1, a), (g2, b) = self.branch(
                c,
                lambda: self.call(callee, one, kw, fr, node),
                lambda: self.call(callee, two, kw, fr, node), fr)
            if g1 is FALSE or a is None:
                return b if b is not None else NONE
            if g2 is FALSE or b is None:
                return a
            return ITE(c, a, b)
        if callee.k == "ite":
            c = _raw_ite(callee.a[0], TRUE, FALSE)
            (g1, a), (g2, b) = self.branch(
                c,
                lambda: self.call(callee.a[1], args, kw, fr, node),
                lambda: self.call(callee.a[2], args, kw, fr, node), fr)
            if g1 is FALSE or a is None:
                return b if b is not None else NONE
            if g2 is FALSE or b is None:
                return a
            return ITE(c, a, b)
        if callee.k == "a" and callee.a[0].k == "ite":
            return self.call(lift(lambda r: self.getattr(r, callee.a[1]), [callee.a[0]]), args, kw, fr, node)
        if callee.k == "fn":
            f, cf = self.types[callee]
            if len(self.stack) > self.max_depth + 8 or sum(1 for s in self.stack if s.func is f) > 1:
                return self.opaque(callee, args, kw)
            try:
                return self.inline(f, args, dict(kw), parent=cf)
            except BindError:
                return self.opaque(callee, args, kw)
        if callee.k == "executor":
            return self.call(callee.a[0], list(callee.a[1]) + list(args), kw, fr, node)
        if callee.k == "bm":
            f = self.find_func(callee.a[1])
            if f is not None:
                return self.call_func(f, [callee.a[0]] + list(args), kw, selfbound=True)
        if callee.k == "g":
            q = callee.a[0]
            if args and args[0].k == "ite" and (q.startswith(("os.", "aiootp.asynchs.aos.")) or q in FOPEN):
                t = args[0]
                c = _raw_ite(t.a[0], TRUE, FALSE)
                (g1, a), (g2, b) = self.branch(
                    c,
                    lambda: self.call(callee, [t.a[1], *args[1:]], kw, fr, node),
                    lambda: self.call(callee, [t.a[2], *args[1:]], kw, fr, node), fr)
                if g1 is FALSE or a is None:
                    return b if b is not None else NONE
                if g2 is FALSE or b is None:
                    return a
                return ITE(c, a, b)
            r = self.intrinsic(q, args, kw, fr, node)
            if r is not None:
                return r
            f = self.find_func(q)
            if f is not None:
                if f.cls is not None and "staticmethod" not in f.deco and "classmethod" not in f.deco and args \
                        and args[0].k != "star":
                    return self.call_func(f, args, kw, selfbound=True)
                return self.call_func(f, args, kw, selfbound=False)
            if self._is_cls(q):
                return self.construct(self.prog.class_named(q), args, kw)
            if callee in self.types and isinstance(self.types[callee], Class):
                f = self.meth(self.types[callee], "__call__")
                if f is not None:
                    return self.call_func(f, [callee] + list(args), kw, selfbound=True)
        if callee.k == "a":
            r = self.meth_intrinsic(callee, args, kw, fr, node)
            if r is not None:
                return r
        return self.opaque(callee, args, kw)

    def _decorated(self, f, odd, args, kw, selfbound):
        """A call through decorators: those of the package are followed, others stay in the way."""
        fr = Frame(f, {})
        t = self.closure(f, fr)
        for d in reversed(odd):
            t = self.call(self.ev(d, fr), [t], [], fr)
        if t.k == "fn" and self.types[t][0] is not f:
            return self.call(t, args, kw, fr)
        way = mk("through", tuple(ast.unparse(d) for d in odd), f.name)
        return self.opaque(way, args, kw)

    def find_func(self, q):
        c = getattr(self.prog, "_fq", None)
        if c is None:
            c = self.prog._fq = {}
            for f in self.prog.functions():
                c[f.qual] = f
            for cl in self.prog.classes():
                for v in cl.attrs.values():
                    if isinstance(v, Class):
                        for w in v.attrs.values():
                            if isinstance(w, Func):
                                c[w.qual] = w
        return c.get(q)

    def call_func(self, f, args, kw, selfbound):
        self.called.add(f)
        if f.name in CTX_FREE and f.mod.name.startswith("aiootp.asynch"):
            return NONE
        if f.name == "wrap_in_executor" and len(args) == 1:
            return mk("executor", args[0], ())
        odd = [d for d in f.node.decorator_list if ast.unparse(d).split("(")[0] not in PLAIN_DECO] if f.deco - PLAIN_DECO else ()
        if odd and not (f.deco & MANAGERS):
            return self._decorated(f, odd, args, kw, selfbound)
        if f.name == "run_in_executor" and args:
            pass
        if f.is_gen and _is_coroutine_gen(f) and f.name not in ("__iter__",):
            pass
        elif not any(k == "**" for k, _ in kw) and self.may_inline(f):
            try:
                return self.inline(f, args, dict(kw), selfbound=selfbound)
            except BindError:
                pass
        pos, kws = self.bind_opaque(f, args, kw, selfbound)
        pos = [self.v(x) for x in pos]
        kws = [(k, self.v(x)) for k, x in kws]
        name = self.nm(f.name)
        pure = f.name in self.pure or f.mod.name == "aiootp._exceptions"
        if f.cls is not None and selfbound:
            recv, pos = (pos[0], pos[1:]) if pos else (NONE, [])
            if recv.k == "now":
                recv = recv.a[0]
            if f.cls.name in ("ByteIO", "DomainEncoder", "Domains") or "classmethod" in f.deco:
                callee = G(f"{f.cls.qual}.{name}")
                if pure:
                    return self.pure_call(callee, pos, kws)
                return self.opaque(callee, pos, kws, func=f)
            if pure:
                return self.pure_call(mk("a", self.v(recv), name), pos, kws)
            r = self.touch(recv, f.name, pos, kws, func=f)
            self.risk("call", r)
            return r
        callee = G(f"{(f.cls.qual if f.cls else f.mod.name)}.{name}")
        if pure:
            return self.pure_call(callee, pos, kws)
        return self.opaque(callee, pos, kws, func=f)

    def pure_call(self, callee, args, kw):
        kw = tuple(sorted(kw, key=lambda x: x[0]))
        args = tuple(args)

        def rebuilt(*flat):
            return mk("call", callee, tuple(flat[: len(args)]),
                      tuple((k, v) for (k, _), v in zip(kw, flat[len(args):])), 0)
        return lift(rebuilt, list(args) + [v for _, v in kw])

    def bind_opaque(self, f, args, kw, selfbound):
        """Arguments in declaration order with defaults filled in."""
        a = f.args
        pos = [p.arg for p in list(a.posonlyargs) + list(a.args)]
        if any(x.k == "star" for x in args[: len(pos)]):
            return list(args), sorted(kw, key=lambda x: x[0])
        out, kws = [], dict((k, v) for k, v in kw)
        for i, p in enumerate(pos):
            if i < len(args):
                out.append(args[i])
            elif p in kws:
                out.append(kws.pop(p))
            else:
                j = i - (len(pos) - len(a.defaults))
                if 0 <= j < len(a.defaults):
                    out.append(self.default_term(f, a.defaults[j]))
                else:
                    out.append(mk("missing", p))
        out.extend(args[len(pos):])
        if "**" not in kws:
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if p.arg not in kws and d is not None:
                    kws[p.arg] = self.default_term(f, d)
        return out, sorted(kws.items(), key=lambda x: x[0])

    def default_term(self, f, d):
        v = self.const_expr(f.mod, d, f.cls)
        if v is not None:
            return v
        fr = Frame(f, {})
        save = (self.effs, self.guard, self.tries)
        self.effs, self.guard, self.tries = [], TRUE, []
        try:
            return self.ev(d, fr)
        except (NotImplementedError, AttributeError, KeyError):
            return mk("default", ast.unparse(d))
        finally:
            self.effs, self.guard, self.tries = save

    def _aliased(self, fr):
        return {(ALIAS, p): fr.env[p] for p in fr.alias if p in fr.env}

    def _aliases(self, f, env, site):
        """Parameters through which the function changes a collection its caller holds."""
        if site is None or f.is_gen or not isinstance(f.node.body, list):
            return {}
        e, fr = site
        out = {}
        names = [p for p in env if env[p].k in _COLLECTIONS]
        if not names or not isinstance(e, ast.Call):
            return {}
        rebound = None
        for x in [*e.args, *(k.value for k in e.keywords)]:
            if isinstance(x, ast.Name):
                h = self.find_env(x.id, fr)
                cur = h.env.get(x.id) if h else None
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and self.find_env(x.value.id, fr):
                h = None
                cur = self.store.get((self.find_env(x.value.id, fr).env[x.value.id], self.nm(x.attr)))
            else:
                continue
            for p in names:
                if p not in out and cur is env[p]:
                    if rebound is None:
                        rebound = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                    if p not in rebound:
                        out[p] = (lambda v, h=h, x=x: h.env.__setitem__(x.id, v)) if h else (
                            lambda v, x=x: self.assign(x, v, fr))
                    break
        return out

    def inline(self, f, args, kw, selfbound=False, parent=None):
        a = f.args
        site, self.site = self.site, None
        self.inlined.add(f)
        env = {}
        pos = [p.arg for p in list(a.posonlyargs) + list(a.args)]
        args = list(args)
        star_at = next((i for i, x in enumerate(args) if x.k == "star"), None)
        if star_at is not None and star_at < len(pos):
            base = args[star_at].a[0]
            if a.vararg is None and star_at == len(args) - 1:
                names = [p for p in pos[star_at:] if p not in kw]
                args = args[:star_at] + [sub(base, C(i)) for i in range(len(names))]
            else:
                raise BindError
        kw = dict(kw)
        ndef = len(a.defaults)
        for i, p in enumerate(pos):
            if i < len(args):
                env[p] = args[i]
            elif p in kw:
                env[p] = kw.pop(p)
            else:
                j = i - (len(pos) - ndef)
                if j < 0:
                    raise BindError
                env[p] = self.default_term(f, a.defaults[j])
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = tup(extra)
        elif extra:
            raise BindError
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif d is not None:
                env[p.arg] = self.default_term(f, d)
            else:
                raise BindError
        if a.kwarg:
            env[a.kwarg.arg] = mk("call", G("builtins.dict"), (), tuple(sorted(kw.items())), 0)
        elif kw:
            raise BindError
        for p in list(a.posonlyargs) + list(a.args) + list(a.kwonlyargs):
            t = env[p.arg]
            if t not in self.types and t.k in ("p", "a", "call", "elem", "sub"):
                self._annotate(f, p, t)
        fr = Frame(f, env, parent)
        env0 = dict(env)
        fr.alias = self._aliases(f, env, site)
        node = self.node
        self.stack.append(fr)
        g0, ctx0 = self.guard, self.ctx
        body = f.node.body if isinstance(f.node.body, list) else [ast.copy_location(ast.Return(f.node.body), f.node)]
        self.block(body, fr)
        self.stack.pop()
        self.node = node
        self.ctx = ctx0
        rets = list(fr.rets)
        if self.guard is not FALSE:
            rets.append(Exit("ret", self.guard, NONE, {**self.store, **self._aliased(fr)}, ctx0, node, f))
        if not rets:
            if f.is_gen:
                self.guard = FALSE if not fr.yields else g0
                return self.gen_value(fr, g0, ctx0)
            self.guard = FALSE
            return NONE
        self.store = self.merge_stores([(x.guard, x.store) for x in rets])
        self.guard = OR(*[x.guard for x in rets])
        for p, put in fr.alias.items():
            nv = self.store.pop((ALIAS, p), None)
            if nv is not None and nv is not env0[p]:
                put(nv)
        if f.is_gen:
            return self.gen_value(fr, g0, ctx0)
        v, rest = rets[-1].val, rets[-1].guard
        for x in reversed(rets[:-1]):
            v = ITE(separate(x.guard, rest), x.val, v)
            rest = OR(rest, x.guard)
        return restrict(v, self.guard)

    def gen_value(self, fr, g0, ctx0):
        """Value of a call to an inlined generator function."""
        ys = fr.yields
        if not ys:
            return mk("list", ())
        out = []
        n0 = len(ctx0)
        for y in ys:
            its = [c for c in y.ctx[n0:] if c[0] in ("for", "while")]
            rel = _relguard(y.guard, g0)
            if not its:
                if rel is TRUE:
                    out.append(y.val)
                else:
                    out.append(mk("star", mk("comp", "seq", y.val, ((mk("once"), rel),))))
            else:
                srcs = [(c[1] if len(c) > 1 and c[1] is not None else mk("while"), TRUE) for c in its]
                srcs[-1] = (srcs[-1][0], rel)
                comp = self._ident_comp(mk("comp", "seq", y.val, tuple(srcs)))
                if comp.k == "list":
                    out.extend(comp.a[0])
                else:
                    out.append(mk("star", comp))
        if len(out) == 1 and out[0].k == "star":
            return out[0].a[0]
        return mk("list", tuple(out))

    def construct(self, cls, args, kw):
        cls = self.tc(cls)
        init = self.meth(cls, "__init__")
        names = self.exc_names(G(cls.qual)) or ()
        if cls.name == "Ignore" and cls.mod.name == "aiootp._exceptions" or "BaseException" in names and (init is None or init.mod.name == "aiootp._exceptions"):
            return mk("new", cls.qual, tuple(args), tuple(sorted(kw, key=lambda x: x[0])), 0)
        if init is not None and not any(x.k == "star" for x in args):
            pos, kws = self.bind_opaque(init, [NONE] + list(args), kw, True)
            pos = pos[1:]
        else:
            pos, kws = list(args), sorted(kw, key=lambda x: x[0])
        # identity: class + arguments as passed; states are kept in the store
        key = ("new", cls.qual, tuple(pos), tuple(kws))
        n = self.fresh_count(key)
        obj = mk("new", self.nm_cls(cls.qual), tuple(self.v(x) for x in pos), tuple((k, self.v(x)) for k, x in kws), n)
        if obj.a[0] != cls.qual:
            self.types[obj] = cls
        if init is None:
            return obj
        if (
            sum(1 for s in self.stack if s.func is init) < 2
            and len(self.stack) <= self.max_depth
            and not any(k == "**" for k, _ in kw)
            and init.name + ":" + cls.name not in self.opaque_names and cls.name not in self.opaque_names
            and self.nm_cls(cls.qual).rpartition(".")[2] not in self.opaque_names
            and self.inline_policy(init, self)
        ):
            try:
                self.inline(init, [obj] + list(args), dict(kw), selfbound=True)
                return obj
            except BindError:
                pass
        self.emit("call", G(cls.qual), tuple(pos), tuple(kws), obj, init)
        return obj

    def nm_cls(self, q):
        return q

    def opaque(self, callee, args, kw, func=None):
        if callee.k == "a" and callee.a[1] == "uniform" and not args:
            d = dict(kw)
            if set(d) == {"a", "b"}:
                args, kw = [d["a"], d["b"]], []
        if callee.k == "g" and callee.a[0].startswith("secrets.") and len(kw) == 1 and not args:
            args, kw = [kw[0][1]], []
        args = [self.v(x) for x in args]
        kw = [(k, self.v(x)) for k, x in kw]
        kw = tuple(sorted(kw, key=lambda x: x[0]))
        args = tuple(args)
        if self.is_pure(callee, func):
            return self.pure_call(callee, args, kw)
        if self.is_benign(callee, func):
            n = self.fresh_count((callee, args, kw))
            t = mk("call", callee, args, kw, n)
            self.emit("call", callee, args, kw, t, func)
            return t
        if callee.k == "a":
            recv, meth = callee.a
            r = self.touch(recv, meth, args, kw, func=func)
            root = _root(recv)
            if root not in ("self", "p", "g"):
                # unknown operation on a local object: keep it in the trace of the outside world
                self.store[(WORLD, "$")] = mk("st", self.state(WORLD), callee, args, kw)
        elif callee.k == "g" or callee.k in ("p", "sub", "call", "elem", "bm", "fn"):
            r = self.touch(WORLD, callee, args, kw, func=func)
        else:
            r = self.touch(WORLD, callee, args, kw, func=func)
        name = self.nm(func.name if func is not None else callee.a[1] if callee.k == "a" else "")
        may = MAY.get(name, ()) if name not in ("__init__", "__call__") else ()
        if not VERDICTS.isdisjoint(may):
            # which of several verdicts on received data comes first is visible
            self.store[(VERDICT, "$")] = mk("st", self.state(VERDICT), name, args, kw)
        self.risk("call", r, may)
        return r

    def is_pure(self, callee, func):
        if func is not None:
            return func.name in self.pure or func.mod.name == "aiootp._exceptions"
        if callee.k == "g":
            return callee.a[0] in PURE_EXT or is_exc_name(callee.a[0]) or callee.a[0].endswith(KEY_LOADERS)
        if callee.k == "a":
            return callee.a[1] in PURE_METH or callee.a[1] in CONSTANT
        return False

    def is_benign(self, callee, func):
        if func is not None and func.name in BENIGN_PKG:
            return True
        if callee.k == "g":
            return callee.a[0] in BENIGN
        return False

    # ---------------------------------------------------------- intrinsics
    def intrinsic(self, q, args, kw, fr, node):
        kwd = dict(kw)
        if q in ("builtins.getattr",) and len(args) >= 2:
            if is_c(args[1]) and args[1].a[0] == "str":
                if len(args) == 2:
                    return self.getattr(args[0], cval(args[1]))
                k = (args[0], self.nm(cval(args[1])))
                if k in self.store and self.store[k] is not DELETED:
                    return self.store[k]
                has = to_bool(self.intrinsic("builtins.hasattr", args[:2], [], fr, node)
                              or mk("call", G("builtins.hasattr"), (self.v(args[0]), args[1]), (), 0))
                return ITE(has, self.getattr(args[0], cval(args[1])), args[2])
            t = mk("call", G("builtins.getattr"), tuple(self.v(x) for x in args), (), 0)
            if len(args) == 2:
                self.risk("attr", t)
            return t
        if q in ("builtins.setattr", "builtins.object.__setattr__") and len(args) == 3:
            if args[1].k == "fstr" or not (is_c(args[1]) and args[1].a[0] == "str"):
                c = self.typeof(args[0]) if q == "builtins.setattr" else None
                f = self.meth(c, "__setattr__") if isinstance(c, Class) else None
                if f is not None and self.may_inline(f):
                    self.inline(f, list(args), {}, selfbound=True)
                    return NONE
                self.emit("setdyn", args[0], args[1], args[2])
                self.touch(args[0], "__setattr__", args[1:])
                return NONE
            self.setattr(args[0], cval(args[1]), args[2])
            return NONE
        if q in ("builtins.delattr", "builtins.object.__delattr__") and len(args) == 2:
            if is_c(args[1]):
                self.delattr(args[0], cval(args[1]))
                return NONE
            self.risk("attr", mk("delattr", self.v(args[0]), args[1]))
            self.touch(args[0], "__delattr__", args[1:])
            return NONE
        if q == "builtins.hasattr" and len(args) == 2 and is_c(args[1]):
            k = (args[0], self.nm(cval(args[1])))
            if k in self.store:
                return FALSE if self.store[k] is DELETED else TRUE
            c = self.typeof(args[0])
            if isinstance(c, Class) and self.look(c, cval(args[1])) is not None:
                return TRUE
            if args[0].k == "new" and (args[0], "$") not in self.store:
                return FALSE
        if q == "math.ceil" and len(args) == 1 and not kw:
            return lift(self._ceil, [self.v(args[0])])
        if q == "builtins.divmod" and len(args) == 2 and not kw:
            return tup([self.binop("//", *args), self.binop("%", *args)])
        if q == "builtins.type" and len(args) == 1:
            return self.getattr(args[0], "__class__")
        if q == "builtins.bool" and len(args) == 1:
            return value(to_bool(self.v(args[0])))
        if q == "builtins.next" and args:
            return self.next_of(args)
        if q in ("builtins.anext",) and args:
            return self.next_of(args)
        if q in ("builtins.tuple", "builtins.list") and len(args) == 1:
            v = self.iterable(args[0])
            if v.k in ("tuple", "list"):
                return mk("tuple" if q.endswith("tuple") else "list", v.a[0])
            if v.k == "comp" and v.a[0] == "seq":
                return v
            return mk("list" if q.endswith("list") else "tuple", (mk("star", v),))
        if q == "builtins.tuple" and not args:
            return tup([])
        if q == "builtins.list" and not args:
            return mk("list", ())
        if q == "builtins.dict" and not args and not any(k == "**" for k in kwd):
            return mk("dictlit", tuple((C(k), x) for k, x in kw))
        if q == "builtins.dict" and len(args) == 1 and not kw:
            v = self.v(args[0])
            if v.k == "call" and v.a[0].k == "a" and v.a[0].a[1] == "items" and not v.a[1]:
                v = v.a[0].a[0]
            if v.k == "dictlit" or v.k == "call" and v.a[0] is G("builtins.dict"):
                return v
            return mk("call", G(q), (v,), (), 0)
        if q == "builtins.dict" and len(args) == 1 and kw:
            items = []
            for d in [args[0]] + [x if k == "**" else mk("dictlit", ((C(k), x),)) for k, x in kw]:
                if d.k == "dictlit":
                    for kk, vv in d.a[0]:
                        items = _put(items, kk, vv)
                else:
                    items.append((mk("star", self.v(d)), NONE))
            return mk("dictlit", tuple(items))
        if q == "builtins.bytes" and not args:
            return C(b"")
        if q == "builtins.bytes" and len(args) == 1 and not kw:
            return lift(self._as_bytes, [self.v(args[0])])
        if q == "builtins.sum" and len(args) == 1 and not kw:
            v = self.iterable(args[0])
            if v.k in ("tuple", "list") and 0 < len(v.a[0]) <= 12 and not any(x.k == "star" for x in v.a[0]):
                return op("+", C(0), *v.a[0])
        if q == "builtins.int" and len(args) == 2 and is_c(args[1], 16) and not kw:
            v = self.v(args[0])
            if v.k == "c" and v.a[0] == "str":
                try:
                    return C(int(cval(v), 16))
                except ValueError:
                    pass
            if v.k == "op" and v.a[0] == "*" and len(v.a[1]) == 2 and any(is_c(x, "ff") for x in v.a[1]):
                n = v.a[1][0] if is_c(v.a[1][1], "ff") else v.a[1][1]
                return op("+", op("**", C(2), op("*", C(8), n)), C(-1))
        if q == "builtins.len" and len(args) == 1:
            v = self.v(args[0])
            c = self.typeof(args[0])
            if isinstance(c, Class):
                f = self.meth(c, "__len__")
                if f is not None and self.may_inline(f):
                    return self.inline(f, [args[0]], {}, selfbound=True)
            return lift(self._len, [v])
        if q == "builtins.slice" and args and not kw:
            return self._slice(args)
        if q in ("builtins.any", "builtins.all") and len(args) == 1 and args[0].k in ("list", "tuple") \
                and not any(x.k == "star" for x in args[0].a[0]):
            f = OR if q.endswith("any") else AND
            return value(f(*[to_bool(self.v(x)) for x in args[0].a[0]])) if args[0].a[0] else C(q.endswith("all"))
        if q in ("builtins.any", "builtins.all") and len(args) == 1 and not kw:
            v = self.iterable(args[0])
            if v.k == "comp" and v.a[0] in ("seq", "set"):
                hit = to_bool(v.a[1]) if q.endswith("any") else NOT(v.a[1])
                for src, cond in v.a[2]:
                    hit = AND(cond, hit)
                src = v.a[2][0][0] if len(v.a[2]) == 1 else mk("nest", tuple(x for x, _ in v.a[2]))
                hit = _raw_ite(mk("loopexit", src, hit), TRUE, FALSE)
                return hit if q.endswith("any") else NOT(hit)
        if q == "builtins.set" and not args and not kw:
            return mk("setlit", ())
        if q in ("builtins.set", "builtins.frozenset") and len(args) == 1:
            v = self.strip_iter(self.v(args[0]))
            if v.k in ("tuple", "list", "setlit") and not any(x.k == "star" for x in v.a[0]) and q.endswith(".set"):
                return mk("setlit", tuple(sorted(set(v.a[0]), key=lambda t: t.d)))
            return mk("call", G(q), (v,), (), 0)
        if q == "builtins.int.from_bytes":
            b = args[0] if args else kwd.get("bytes")
            o = args[1] if len(args) > 1 else kwd.get("byteorder", C("big"))
            if b is not None:
                return lift(lambda x, y: mk("call", G("builtins.int.from_bytes"), (x, y), (), 0), [self.v(b), o])
        if q in ("builtins.min", "builtins.max") and len(args) >= 2 and not kw:
            if all(x.k == "c" for x in args):
                return C((min if q.endswith("min") else max)(cval(x) for x in args))
            return mk("call", G(q), tuple(sorted(args, key=lambda t: t.d)), (), 0)
        if q == "builtins.isinstance" and len(args) == 2:
            return self.isinst(args[0], args[1])
        if q == "builtins.issubclass" and len(args) == 2:
            r = self.issub(args[0], args[1])
            if r is not None:
                return r
        if self.tw and q in ("inspect.iscoroutinefunction", "asyncio.iscoroutinefunction", "inspect.isawaitable",
                             "asyncio.iscoroutine", "inspect.iscoroutine", "inspect.isasyncgenfunction"):
            return FALSE
        if q == "aiootp._exceptions.raise_exception" and len(args) == 1:
            self.do_raise(args[0])
            return NONE
        if q in ("asyncio.sleep", "time.sleep") and not kw:
            return NONE
        if q.startswith("hashlib.") and q[8:] in HASHES:
            init = self.v(args[0]) if args else kwd.get("data", C(b""))
            alg = G(q)
            n = self.fresh_count(("hobj", alg, init))
            o = mk("hobj", alg, init, n)
            self.store[(o, "$abs")] = init
            return o
        if q == "io.BytesIO":
            init = self.v(args[0]) if args else C(b"")
            n = self.fresh_count(("bio", init))
            o = mk("bio", init, n)
            self.store[(o, "$off")] = C(0)
            return o
        if q in FOPEN:
            path = args[0] if args else kwd.get("file")
            mode = args[1] if len(args) > 1 else kwd.get("mode", C("r"))
            return self.fopen(path, mode)
        if q.startswith("aiootp.asynchs.aos.") or q.startswith("os.") and q[3:] in ("chmod", "remove", "unlink", "mkdir", "rmdir", "stat", "rename"):
            n = q.rsplit(".", 1)[-1]
            n = {"remove": "unlink"}.get(n, n)
            return self.fsop(n, args, kw)
        if q == "pathlib.Path" and len(args) == 1:
            p = args[0]
            if self.is_path(p):
                return p
            return mk("call", G("pathlib.Path"), (p,), (), 0)
        if q in ("collections.deque",):
            kw = [(k, x) for k, x in kw if k != "iterable"]
            if len(args) > 1:
                kw = kw + [("maxlen", args[1])]
            n = self.fresh_count((q, tuple(kw)))
            o = mk("fresh", G(q), (), tuple(kw), n)
            src = args[0] if args else kwd.get("iterable")
            if src is not None:
                self.each(src, o, "append")
            return o
        if q == "asyncio.gather":
            return mk("list", tuple(args))
        if is_exc_name(q) and q.startswith("builtins."):
            return mk("call", G(q), tuple(args), tuple(kw), 0)
        return None

    def isinst(self, x, cls):
        if self.tw and cls.k == "g" and cls.a[0].startswith("collections.abc.Async"):
            self.saw_async = True
            return C(self.given_async)
        if x.k == "c" and cls.k == "g" and cls.a[0].startswith("builtins."):
            k = getattr(_bi, cls.a[0][9:], None)
            if isinstance(k, type):
                return C(isinstance(cval(x), k))
        return mk("call", G("builtins.isinstance"), (self.v(x), cls), (), 0)

    def issub(self, x, cls):
        if x.k == "a" and x.a[1] == "__class__":
            return self.isinst(x.a[0], cls)
        if x.k == "g" and cls.k == "g" and self._is_cls(x.a[0]) and self._is_cls(cls.a[0]):
            a, b = self.prog.class_named(x.a[0]), self.prog.class_named(cls.a[0])
            if a and b:
                return C(b in self.prog.mro(a))
        return None

    def next_of(self, args):
        it = args[0]
        s = self.strip_iter(it)
        if len(args) == 1 and not isinstance(self.typeof(s), Class):
            r = self.touch(s, "send", (NONE,))
        else:
            r = self.touch(s, "__next__", args[1:])
        self.risk("iter", r)
        return r

    def _ceil(self, v):
        """Division of a small whole number, rounded up."""
        if v.k == "op" and v.a[0] == "/" and len(v.a[1]) == 2:
            x, n = v.a[1]
            if is_c(n) and n.a[0] == "int" and cval(n) > 0 and x.k == "call" and (
                    x.a[0] is G("builtins.len") or x.a[0].k == "a" and x.a[0].a[1] == "bit_length"):
                return op("//", op("+", x, C(cval(n) - 1)), n)
        return mk("call", G("math.ceil"), (v,), (), 0)

    def _as_bytes(self, v):
        head = v.a[1][0] if v.k == "op" and v.a[0] == "+" else None
        if head is not None and head.k == "call" and head.a[0] is G("builtins.bytearray") and len(head.a[1]) < 2:
            return op("+", *head.a[1], *v.a[1][1:]) if head.a[1] or len(v.a[1]) > 2 else v.a[1][1]
        return mk("call", G("builtins.bytes"), (v,), (), 0)

    def _len(self, v):
        if v.k in ("tuple", "list") and not any(x.k == "star" for x in v.a[0]):
            return C(len(v.a[0]))
        if v.k == "c" and v.a[0] in ("bytes", "str"):
            return C(len(cval(v)))
        if v.k == "dictlit" and not any(k.k == "star" for k, _ in v.a[0]):
            return C(len(v.a[0]))
        if v.k == "op" and v.a[0] == "+":
            return op("+", *(self._len(x) for x in v.a[1]))
        return mk("call", G("builtins.len"), (v,), (), 0)

    # ---- file system
    def strip_path(self, p):
        while p.k == "call":
            if p.a[0] is G("pathlib.Path") and len(p.a[1]) == 1:
                p = p.a[1][0]
            elif p.a[0].k == "a" and p.a[0].a[1] in ("absolute", "resolve") and not p.a[1]:
                p = p.a[0].a[0]
            else:
                break
        return p

    def fopen(self, path, mode):
        path = lift(self.strip_path, [path]) if path is not None else NONE
        r = self.touch(WORLD, "$open", (path, mode))
        self.risk("fs", r)
        return r

    def fsop(self, name, args, kw):
        args = list(args)
        args[0] = lift(self.strip_path, [args[0]])
        if name == "unlink":
            args, kw = args[:1], ()
        r = self.touch(WORLD, f"$fs.{name}", args, kw, advance=name not in FS_PURE)
        self.risk("fs", r)
        return r

    def meth_intrinsic(self, callee, args, kw, fr, node):
        recv, meth = callee.a
        if recv.k == "ite":
            return None
        if meth == "join" and len(args) == 1 and not kw and recv.k == "c":
            v = self.iterable(args[0])
            if v.k == "ite" and nleaves(v) <= 4:
                return lift(lambda x: self.join(recv, x), [v])
            return self.join(recv, v)
        if meth == "to_bytes" and recv.k != "g":
            kwd = dict(kw)
            l = args[0] if args else kwd.get("length", C(1))
            o = args[1] if len(args) > 1 else kwd.get("byteorder", C("big"))
            t = lift(self._to_bytes, [recv, l, o])
            if t.k != "c":
                self.risk("num", t)
            return t
        if meth == "from_bytes" and recv is G("builtins.int"):
            return self.intrinsic("builtins.int.from_bytes", args, kw, fr, node)
        if meth == "format" and recv.k == "c":
            return self.format_(cval(recv), args, kw)
        if meth == "__setattr__" and recv.k == "super" and len(args) == 2:
            return self.intrinsic("builtins.object.__setattr__", [recv.a[0]] + list(args), kw, fr, node)
        if meth == "__delattr__" and recv.k == "super" and len(args) == 1:
            return self.intrinsic("builtins.object.__delattr__", [recv.a[0]] + list(args), kw, fr, node)
        if meth == "__init__" and recv.k == "super":
            return NONE
        if recv.k == "bio":
            return self.bytesio(recv, meth, args, kw)
        if meth == "update" and len(args) == 1 and not kw and args[0].k == "dictlit" and args[0].a[0] \
                and not isinstance(self.typeof(recv), Class) and recv.k not in ("dictlit", "super") \
                and not any(k.k == "star" for k, _ in args[0].a[0]):
            for k, x in args[0].a[0]:
                self.setitem(recv, k, x)
            return NONE
        if meth == "update" and len(args) == 1 and not kw and not isinstance(self.typeof(recv), Class) and recv.k not in ("dictlit", "super"):
            a = self.store.get((recv, "$abs"), mk("abs0", recv))
            self.store[(recv, "$abs")] = op("+", a, self.v(args[0]))
            self.emit("call", callee, tuple(args), (), NONE, None)
            self.emit("touch", recv, meth)
            return NONE
        if meth in ("digest", "hexdigest") and not isinstance(self.typeof(recv), Class):
            a = self.store.get((recv, "$abs"), mk("abs0", recv))
            alg = recv.a[0] if recv.k == "hobj" else mk("alg", _copy_root(recv))
            if recv.k == "hobj" and len(recv.a) == 4:
                alg = recv.a[3]
            vals = list(args) + [x for _, x in kw]
            t = lift(lambda *xs: mk("call", G("$" + meth), (alg, a) + tuple(xs), (), 0), vals) if vals else \
                mk("call", G("$" + meth), (alg, a), (), 0)
            self.emit("call", callee, tuple(args), tuple(kw), t, None)
            return t
        if meth == "copy" and not args and not kw and not isinstance(self.typeof(recv), Class):
            if recv.k in ("dictlit", "list", "setlit"):
                return recv
            a = self.store.get((recv, "$abs"))
            if a is None and recv.k == "hobj":
                a = mk("abs0", recv)
            root = _copy_root(recv)
            n = self.fresh_count(("copyof", root))
            if recv.k == "hobj":
                o = mk("hobj", recv.a[0], mk("copied", a), n)
            else:
                o = mk("copyof", root, n)
            self.store[(o, "$abs")] = a if a is not None else mk("abs0", recv)
            s = self.store.get((recv, "$"))
            if s is not None:
                self.store[(o, "$")] = s
            return o
        if meth in FS_METH and not isinstance(self.typeof(recv), Class) and recv.k not in ("g", "super", "c"):
            if meth in ("replace", "rename", "glob", "rglob", "stat") and not self.is_path(recv):
                pass
            else:
                return self.fsop(meth, [recv] + list(args), kw)
        if meth == "open" and not isinstance(self.typeof(recv), Class) and recv.k != "g":
            kwd = dict(kw)
            return self.fopen(recv, args[0] if args else kwd.get("mode", C("r")))
        if meth in ("read_bytes", "write_bytes", "read_text", "write_text") and recv.k != "g":
            m = {"read_bytes": "rb", "write_bytes": "wb", "read_text": "r", "write_text": "w"}[meth]
            fobj = self.fopen(recv, C(m))
            if meth.startswith("read"):
                r = self.touch(WORLD, "$read", (fobj,))
                self.risk("fs", r)
            else:
                r = self.touch(WORLD, "$write", (fobj, args[0]))
                self.risk("fs", r)
            return r
        if meth in ("issuperset", "issubset") and len(args) == 1 and not kw and _is_set(recv):
            x = args[0]
            if meth == "issubset":
                recv, x = (x if _is_set(x) else mk("call", G("builtins.set"), (self.v(x),), (), 0)), recv
            if x.k == "call" and x.a[0] in (G("builtins.set"), G("builtins.frozenset")) and len(x.a[1]) == 1:
                x = x.a[1][0]
            return mk("call", mk("a", recv, "issuperset"), (self.v(x),), (), 0)
        if recv.k == "call" and recv.a[0] is G("$open") and meth in ("read", "write", "seek", "truncate", "flush", "close", "readlines"):
            if meth == "close":
                return NONE
            if meth == "read" and len(args) == 1 and is_c(args[0], -1):
                args = []
            r = self.touch(WORLD, "$" + meth, (recv, *args), kw)
            self.risk("fs", r)
            return r
        if meth in ("popleft", "pop", "popitem", "get_nowait") and not isinstance(self.typeof(recv), Class) and recv.k != "g":
            if meth == "pop" and len(args) == 1 and not kw:
                # hands out what the deletion of that entry removes
                b, i = self.v(recv), self.v(args[0])
                prev = self.store.get((recv, "$"))
                self.risk("item", mk("delitem", b, i))
                self.touch(recv, "__delitem__", (i,))
                return sub(recv if prev is None or prev.k == "s0" else mk("now", recv, prev), i)
            r = self.touch(recv, meth, args, kw)
            if meth in ("popleft", "pop") and not args and not kw:
                prev = r.a[3]
                r = sub(recv if prev.k == "s0" else mk("now", recv, prev), C(0 if meth == "popleft" else -1))
            self.risk("item", r)
            return r
        if meth in ("result", "_original_result", "done") and not args and not kw and not isinstance(self.typeof(recv), Class) and recv.k != "g":
            # asking a future again gives the same
            r = self.touch(recv, meth, advance=False)
            if meth != "done":
                self.risk("call", r)
            return r
        if meth in ("__next__", "__anext__", "send", "asend", "throw") and not isinstance(self.typeof(recv), Class):
            if meth in ("__next__", "__anext__") or (meth in ("send", "asend") and len(args) == 1 and is_c(args[0], None)):
                r = self.touch(recv, "send", (NONE,))
            else:
                r = self.touch(recv, meth, args, kw)
            self.risk("iter", r)
            return r
        if meth == "run_in_executor" and len(args) >= 2:
            return self.call(args[1], list(args[2:]), kw, fr, node)
        if meth in ("add", "append", "appendleft", "extend", "extendleft", "remove", "clear", "discard", "insert") and not isinstance(self.typeof(recv), Class) \
                and recv.k not in ("g",):
            if meth in ("extend", "extendleft") and len(args) == 1 and not kw:
                return self.each(args[0], recv, {"extend": "append", "extendleft": "appendleft"}[meth])
            if meth == "remove":
                self.risk("item", mk("remove", self.v(recv), *[self.v(x) for x in args]))
            self.touch(recv, meth, args, kw)
            return NONE
        if meth == "setdefault" and recv.k not in ("g",):
            return self.touch(recv, meth, args, kw)
        if meth in SET_OPS and len(args) == 1 and not kw and recv.k != "g" and not isinstance(self.typeof(recv), Class):
            x = self.v(args[0])
            whole = x.k == "setlit" or x.k == "call" and x.a[0] in (G("builtins.set"), G("builtins.frozenset"))
            return op(SET_OPS[meth], self.v(recv), x if whole else self.pure_call(G("builtins.set"), [x], []))
        if meth in ("startswith", "endswith") and len(args) == 1 and is_c(args[0]) and args[0].a[0] in ("bytes", "str") \
                and recv.k != "g" and cval(args[0]):
            n = len(cval(args[0]))
            part = self._slice([NONE, C(n)] if meth == "startswith" else [C(-n), NONE])
            return value(compare("Eq", self.getitem(recv, part), args[0]))
        if meth == "get" and args and recv.k == "dictlit" and is_c(args[0]) and all(is_c(k) for k, _ in recv.a[0]):
            for k, x in recv.a[0]:
                if k is args[0]:
                    return x
            return args[1] if len(args) > 1 else NONE
        if meth in PURE_METH and not isinstance(self.typeof(recv), Class):
            if meth == "get" and not args:
                return None
            return self.pure_call(mk("a", self.v(recv), meth), [self.v(x) for x in args], [(k, self.v(x)) for k, x in kw]) \
                if recv.k != "g" else None
        return None

    def _to_bytes(self, r, l, o):
        if r.k == "c" and r.a[0] == "int" and l.k == "c" and o.k == "c":
            try:
                return C(cval(r).to_bytes(cval(l), cval(o)))
            except Exception:
                pass
        return mk("call", mk("a", self.v(r), "to_bytes"), (l, o), (), 0)

    def join(self, recv, v):
        v = self.strip_iter(v)
        if v.k in ("tuple", "list") and cval(recv) in (b"", ""):
            if not any(x.k == "star" for x in v.a[0]):
                if not v.a[0]:
                    return C(cval(recv))
                xs = [self.v(x) for x in v.a[0]]
                return lift(lambda *ys: op("+", *ys), xs) if len(xs) < 12 else op("+", *xs)
            parts = [self.join(recv, x.a[0]) if x.k == "star" else x for x in v.a[0]]
            return op("+", *parts)
        if v.k == "listcat" and cval(recv) in (b"", ""):
            return op("+", self.join(recv, v.a[0]), self.join(recv, v.a[1]))
        if v.k == "comp" and len(v.a[2]) == 1 and v.a[2][0][0].k == "once" and cval(recv) in (b"", ""):
            return ITE(v.a[2][0][1], v.a[1], C(cval(recv)))
        return mk("join", recv, v)

    def format_(self, s, args, kw):
        import string
        try:
            parts, auto = [], 0
            kwd = dict(kw)
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(C(lit))
                if field is not None:
                    if spec or conv:
                        raise ValueError
                    if field == "":
                        parts.append(args[auto])
                        auto += 1
                    elif field.isdigit():
                        parts.append(args[int(field)])
                    else:
                        parts.append(kwd[field])
            return self.fstr(parts)
        except (ValueError, KeyError, IndexError):
            return mk("fstr", (C(s),) + tuple(args))

    def bytesio(self, o, meth, args, kw):
        off = self.store.get((o, "$off"), C(0))
        buf = o.a[0]
        if meth == "read":
            n = args[0] if args else NONE
            if n is NONE or is_c(n, -1):
                r = sub(buf, self._slice([off, NONE]))
                self.store[(o, "$off")] = mk("end", buf)
                return r
            end = lift(lambda a, b: self._offadd(a, b), [off, n])
            r = lift(lambda a, b: sub(buf, self._slice([a, b])), [off, end])
            self.store[(o, "$off")] = end
            return r
        if meth == "getvalue" or meth == "getbuffer":
            return buf
        if meth == "tell":
            return off
        if meth == "seek" and args:
            self.store[(o, "$off")] = args[0]
            return args[0]
        r = mk("call", mk("a", o, meth), tuple(args), tuple(kw), off)
        self.store[(o, "$off")] = mk("st", off, meth, tuple(args), tuple(kw))
        return r

    def _offadd(self, a, b):
        """Sum of offsets: numbers by construction."""
        acc = {}
        from .terms import _lin, _unlin
        _lin(a, 1, acc)
        _lin(b, 1, acc)
        return _unlin(acc)


# ------------------------------------------------------------------ helpers

def is_exc_name(q):
    n = q.rsplit(".", 1)[-1]
    return n.endswith(("Error", "Exception", "Warning", "StopIteration", "StopAsyncIteration",
                       "KeyboardInterrupt", "InvalidSignature")) and "." in q


_ALIAS = {
    "io.open": "builtins.open", "_io.BytesIO": "io.BytesIO",
    "builtins.EnvironmentError": "builtins.OSError", "builtins.IOError": "builtins.OSError",
}


def _alias(q):
    return _ALIAS.get(q, q)


def _root(t):
    while t.k in ("a", "sub", "now"):
        t = t.a[0]
    if t.k == "g" and t.a[0].startswith("$"):
        return "world"
    return t.k if t.k in ("self", "p", "g") else "local"


def _copy_root(t):
    while t.k == "copyof":
        t = t.a[0]
    return t


def _relguard(g, g0):
    if g is g0:
        return TRUE
    return restrict(g, g0) if g.k == "ite" else g


def _subst(t, m):
    if not isinstance(t, T):
        return t
    if not m:
        return t
    return rewrite(t, lambda x: m.get(x, x))


def _put(items, key, value):
    """A dictionary's items after one is set: a key that is there keeps its place."""
    if any(k is key for k, _ in items):
        return [(k, value if k is key else x) for k, x in items]
    return [*items, (key, value)]


def _listy(t):
    if t.k in ("list", "listcat", "reversed", "inserted", "upd"):
        return True
    if t.k == "rec":
        return isinstance(t.a[1], T) and _listy(t.a[1])
    if t.k == "ite":
        return _listy(t.a[1]) and _listy(t.a[2])
    if t.k == "mu":
        return _listy(t.a[1])
    if t.k == "comp" and t.a[0] == "seq":
        return True
    return False


def _setty(t):
    if t.k in ("setlit", "setadd"):
        return True
    if t.k in ("rec", "mu"):
        return isinstance(t.a[1], T) and _setty(t.a[1])
    if t.k == "ite":
        return _setty(t.a[1]) and _setty(t.a[2])
    return t.k == "comp" and t.a[0] == "set"


def _dictty(t):
    if t.k in ("dictlit", "dictset"):
        return True
    if t.k in ("rec", "mu"):
        return isinstance(t.a[1], T) and _dictty(t.a[1])
    if t.k == "ite":
        return _dictty(t.a[1]) and _dictty(t.a[2])
    return t.k == "comp" and t.a[0] == "dict"


def _returns_self(f):
    if f is None:
        return True
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
            return False
    return True


_CG = {}


def _is_coroutine_gen(f):
    """Does the generator consume values sent to it?"""
    r = _CG.get(id(f.node))
    if r is None:
        r = False
        st = list(f.node.body) if isinstance(f.node.body, list) else []
        while st:
            n = st.pop()
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr, ast.Call, ast.BinOp, ast.Compare, ast.Subscript, ast.Return)):
                for x in ast.iter_child_nodes(n):
                    y = x.value if isinstance(x, ast.Await) else x
                    if isinstance(y, ast.Yield):
                        r = True
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))
        _CG[id(f.node)] = r
    return r


def _has_break(body):
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor, ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
                st.extend(n.orelse)
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def _assigned(body, calls=True):
    out = set()
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if calls and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            out.add(n.func.value.id)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            out.add(n.value.id)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if not isinstance(n, ast.Lambda):
                out.add(n.name)
            continue
        st.extend(ast.iter_child_nodes(n))
    return out


def _assigned_expr(e):
    return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for n in ast.walk(t2):
        if hasattr(n, "lineno"):
            n.lineno = getattr(t, "lineno", 0)
    return t2


_OPS = {
    "Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%",
    "Pow": "**", "LShift": "<<", "RShift": ">>", "BitOr": "|", "BitXor": "^",
    "BitAnd": "&", "MatMult": "@",
}

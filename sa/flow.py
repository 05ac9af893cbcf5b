"""Ordered reads, writes, suspensions and blocking calls of a function, for the rules."""

import ast

from .loader import Class, Func
from .sem import Ev, TooBig, BindError, CTX_FREE
from .terms import *

BLOCKING_EXT = ("time.sleep", "builtins.open", "io.open", "builtins.input", "select.select", "signal.pause")
BLOCKING_MODS = ("subprocess.", "shutil.", "socket.", "urllib.", "requests.", "http.client.")
BLOCKING_OS = {"open", "remove", "unlink", "chmod", "chown", "mkdir", "makedirs", "rename", "replace", "rmdir", "removedirs",
               "truncate", "write", "read", "fsync", "fdatasync", "system", "popen", "wait", "waitpid", "sendfile", "link", "symlink"}
BLOCKING_PATH = {"open", "read_bytes", "read_text", "write_bytes", "write_text", "unlink", "chmod", "mkdir", "rmdir", "touch",
                 "rename", "symlink_to", "hardlink_to"}
# these wait when called without positional arguments
BLOCKING_WAIT = {"join", "acquire", "result", "wait", "get", "shutdown"}
# a wait that follows polling until it cannot wait any more
POLLS = {"join": ("is_alive", False), "result": ("done", True), "get": ("empty", False), "acquire": ("locked", False)}
SUBMITS = {"submit", "asubmit", "new", "anew", "run_in_executor", "map"}


class Trace(Ev):
    """Reads of attributes, suspension points and blocking calls join the effects, in order."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.off = 0                  # > 0: in a worker, not on the event loop
        self.entering = None
        self.at = None                # the call expression being evaluated
        self.closures = []

    # what is called
    def note(self, f):
        """A call of a package function (as an effect, so that it is in order and on a path)."""
        super().emit("to", f, self.at, not self.off)

    def call(self, callee, args, kw, fr, node=None):
        at, self.at = self.at, node or self.at
        try:
            return self._call(callee, args, kw, fr, node)
        finally:
            self.at = at

    def _call(self, callee, args, kw, fr, node):
        if callee.k == "executor":
            self.emit("suspend", "executor")
            self.off += 1
            try:
                return super().call(callee, args, kw, fr, node)
            finally:
                self.off -= 1
        if callee.k == "g":
            q = callee.a[0]
            if q in ("asyncio.sleep", "time.sleep"):
                self.emit("suspend", q)
            if q in BLOCKING_EXT or q.startswith(BLOCKING_MODS) or (q.startswith("os.") and q[3:] in BLOCKING_OS):
                self.blocked(q, node)
        if callee.k in ("a", "bm"):
            m = callee.a[1].rsplit(".", 1)[-1]
            r = callee.a[0]
            if m in SUBMITS and args and args[0].k in ("g", "bm", "fn"):
                self.emit("worker", args[0])
            if callee.k == "a" and not (r.k == "g" and "aiofiles" in r.a[0]):
                if m in BLOCKING_PATH or m == "run_until_complete" or \
                        m in BLOCKING_WAIT and not args and not (m == "get" and kw and kw[0][0] != "timeout"):
                    self.blocked("." + m, node, r)
        return super().call(callee, args, kw, fr, node)

    def blocked(self, what, node, recv=None):
        if not self.off:
            self.emit("block", what, node or self.node, recv)

    def call_func(self, f, args, kw, selfbound):
        if f.mod.name.startswith("aiootp.asynch") and f.name in CTX_FREE:
            self.emit("suspend", f.name)
        self.note(f)
        return super().call_func(f, args, kw, selfbound)

    def construct(self, cls, args, kw):
        f = self.meth(cls, "__init__")
        if f is not None:
            self.note(f)
        return super().construct(cls, args, kw)

    # reads
    def getattr(self, b, name, depth=0):
        if b.k in ("self", "p", "a", "new", "elem", "now"):
            self.emit("get", b.a[0] if b.k == "now" else b, self.nm(name))
        return super().getattr(b, name, depth)

    # suspensions
    def with_items(self, items, st, fr):
        if items:
            self.entering = st
        return super().with_items(items, st, fr)

    def emit(self, kind, *data):
        e = super().emit(kind, *data)
        if kind == "enter":
            c = self.typeof(data[0])
            late = isinstance(self.entering, ast.AsyncWith)
            if isinstance(c, Class):
                f = self.meth(c, "__aenter__" if late else "__enter__")
                if f is not None:
                    self.note(f)
                    if waits(f):
                        super().emit("suspend", "enter " + c.name)
            elif late:
                super().emit("suspend", "enter")
        return e

    def e_Await(self, e, fr):
        n = sum(1 for x in self.effs if x.kind == "to")
        r = super().e_Await(e, fr)
        if sum(1 for x in self.effs if x.kind == "to") == n:
            self.emit("suspend", "await")
        return r

    def closure(self, f, fr):
        t = super().closure(f, fr)
        self.closures.append(t)
        return t


def waits(f):
    """Whether the function can wait for others at all."""
    return any(isinstance(n, (ast.Await, ast.AsyncFor, ast.AsyncWith)) or
               isinstance(n, ast.Call) and ast.unparse(n.func).rsplit(".", 1)[-1] in ("sleep", "asleep", "acquire", "wait")
               for n in ast.walk(f.node))


def trace(prog, f):
    """Effects of f in order; helpers of its class and module are opened, others are named."""
    mro = set(prog.mro(f.cls)) if f.cls else set()
    ev = Trace(prog, inline=lambda g, ev: g.mod is f.mod or g.cls in mro or ".guards." in g.mod.name)
    ev.self_cls = f.cls
    s = ev.run(f)
    done = {e.data[0] for e in ev.effs if e.kind == "to"}
    for t in list(dict.fromkeys(ev.closures)):
        g, cf = ev.types[t]
        if g in done or any(g in e.stack for e in ev.effs):
            continue
        ev.guard, ev.tries, ev.ctx, ev.stack = TRUE, [], (), []
        a = g.args
        try:
            ev.inline(g, [mk("p", p.arg) for p in list(a.posonlyargs) + list(a.args)],
                      {p.arg: mk("p", p.arg) for p in a.kwonlyargs}, parent=cf)
        except BindError:
            pass
    return ev.effs, s

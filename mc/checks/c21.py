"""C21: dynamic nodes load on demand, once, and local changes win."""
import itertools

from ..canon import digest
from ..cloner import clone
from ..engine import Spec, Violation, equal, need
from ..env import ProvidedNode, SandboxError, SandboxShell, SearchQuery, VirtualFileSystem, VisibilityView
from ..fsops import command, do_vfs, same_dump
from ..parts import Faults, W
from ..refmodel import PUB, N, RefFS, Refused, dump_vfs, fmt, pol_obj
from ..values import GLOBBY, NAMES, PAIRS, TEXTS
from ..views import within

TEAM = (True, True, False, "team", ("ann",))
# name -> (kind, payload, policy, metadata): file text, file provider, static children, directory provider
SPECS = {
    "D": {"u": ("text", "U", PUB, (("k", "1"),)), "v": ("dir", {"w": ("text", "W", TEAM, ()), "vp": ("prov", "V", PUB, (("m", "2"),))}, PUB, (("d", "3"),)), "fp": ("prov", "F", TEAM, (("p", "4"),)), "n": ("load", "N", PUB, (("q", "5"),)), "nb": ("both", ({"u": ("text", "fixed", PUB, ()), "x": ("prov", "own", TEAM, ()), "sub": ("load", "M", TEAM, ())}, "N"), TEAM, (("b", "6"),))},
    "N": {"x": ("text", "X", PUB, ()), "nn": ("load", "M", TEAM, (("r", "7"),))},
    "M": {"y": ("prov", "Y", PUB, ())},
    "S": {"u": ("text", "SU", PUB, ()), "s": ("dir", {}, PUB, ()), "n": ("text", "flat", PUB, ())},
    "O": {},
}


def said(base, tick):
    """What a content provider answers; E starts with nothing."""
    return "" if base == "E" and not tick else "%s%d" % (base, tick)


class State:
    """What the providers share: the current answer, a fault point, and the log of calls."""

    def __init__(self):
        self.tick, self.faults, self.log, self.mounted = 0, Faults(), [], {}


class TickFile:
    def __init__(self, base, st):
        self.base, self.st = base, st

    def __call__(self, ctx):
        self.st.faults.point()
        self.st.log.append(("file", str(ctx.path), self.base, tuple(sorted(ctx.metadata.items())), ctx.vfs is not None))
        return said(self.base, self.st.tick)


class TickDir:
    def __init__(self, spec, st):
        self.spec, self.st = spec, st

    def __call__(self, ctx):
        self.st.faults.point()
        self.st.log.append(("dir", str(ctx.path), self.spec, tuple(sorted(ctx.metadata.items())), ctx.vfs is not None))
        return self.give(SPECS[self.spec])

    def give(self, spec):
        out = {}
        for name, (kind, x, pol, meta) in spec.items():
            kw = dict(metadata=dict(meta), policy=pol_obj(pol) if pol != PUB else None)
            if kind == "text":
                out[name] = ProvidedNode.file(content="%s%d" % (x, self.st.tick), **kw)
            elif kind == "prov":
                out[name] = ProvidedNode.file(content_provider=TickFile(x, self.st), **kw)
            elif kind == "dir":
                out[name] = ProvidedNode.directory(children=self.give(x), **kw)
            elif kind == "both":
                out[name] = ProvidedNode.directory(children=self.give(x[0]), directory_provider=TickDir(x[1], self.st), **kw)
            else:
                out[name] = ProvidedNode.directory(directory_provider=TickDir(x, self.st), **kw)
        return out


class Asleep(Exception):
    """The model needs the content of a directory that was not loaded."""


class LazyRef(RefFS):
    """The reference filesystem with provider-backed nodes: N.prov, N.loader (pending directory provider)."""
    tick = 0

    def __init__(self):
        super().__init__()
        self.prov, self.pend = {}, {}

    def state(self):
        return super().state() + (sorted(self.prov.items()), sorted(self.pend.items()), self.tick)

    def wake(self, t, below=False):
        """The content of every directory on the way to t (and t itself, or everything below) must be there."""
        for p in self.pend:
            if len(p) < len(t) and t[:len(p)] == p or below and p[:len(t)] == t:
                raise Asleep(fmt(p))

    def load(self, t, spec):
        def put(d, s):
            for name, (kind, x, pol, meta) in s.items():
                p = d + (name,)
                if p in self.nodes:
                    continue
                n = self.nodes[p] = N("f" if kind in ("text", "prov") else "d", pol=pol, meta=meta)
                if kind == "text":
                    n.content = "%s%d" % (x, self.tick)
                elif kind == "prov":
                    self.prov[p] = x
                elif kind == "load":
                    self.pend[p] = x
                elif kind == "both":
                    put(p, x[0])
                    self.pend[p] = x[1]
                else:
                    put(p, x)
        put(t, SPECS[spec])

    def rekey(self, s, t):
        for d in (self.prov, self.pend):
            for p in [p for p in d if p[:len(s)] == s]:
                d[t + p[len(s):]] = d.pop(p)

    def drop(self, t):
        for d in (self.prov, self.pend):
            for p in [p for p in d if p[:len(t)] == t]:
                del d[p]

    def now(self, t):
        return said(self.prov[t], self.tick) if t in self.prov else self.nodes[t].content

    def get(self, t):
        for i in range(len(t) + 1):
            self.wake(t[:i])
            if t[:i] not in self.nodes:
                break
        return super().get(t)

    def write(self, path, data, append=False, expected=None):
        t = self.norm(path)
        self.seek(t)
        if t in self.prov and t in self.nodes:
            self.w(t, append=append)
            self.nodes[t].content = self.now(t)
        super().write(path, data, append, expected)
        self.prov.pop(t, None)

    def seek(self, t):
        try:
            self.get(t)
        except Refused:
            pass

    def mkdir(self, path, parents=False, exist_ok=False):
        self.seek(self.norm(path))
        super().mkdir(path, parents, exist_ok)

    def touch(self, path):
        self.seek(self.norm(path))
        super().touch(path)

    def remove(self, path, recursive=False):
        t = self.norm(path)
        self.seek(t)
        if not recursive:
            self.wake(t + ("?",))
        super().remove(path, recursive)
        self.drop(t)

    def move(self, source, target):
        s, t = self.norm(source), self.norm(target)
        self.get(s)
        self.seek(t)
        if self.nodes.get(t) is not None and self.nodes[t].kind == "d":
            self.wake(t + ("?",))
        where = self._dest(s, target)[0] if t in self.nodes and self.nodes[t].kind == "d" else t
        super().move(source, target)
        if where != s:
            self.rekey(s, where)

    def copy(self, source, target, recursive=False):
        s, t = self.norm(source), self.norm(target)
        self.get(s)
        self.seek(t)
        if t in self.nodes and self.nodes[t].kind == "d":
            self.wake(t + ("?",))
        if self.get(s).kind == "d" and recursive:
            self.wake(s, below=True)
        where = t + (s[-1],) if t in self.nodes and self.nodes[t].kind == "d" else t
        keep = {p: self.now(p) for p in self.prov if p[:len(s)] == s}
        super().copy(source, target, recursive)
        self.drop(where)
        for p, text in keep.items():
            self.nodes[where + p[len(s):]].content = text

    def cd(self, path):
        self.get(self.norm(path))
        super().cd(path)

    def read(self, path):
        t = self.norm(path)
        super().read(path)
        return self.now(t)

    def mountf(self, path, base):
        t = self.norm(path)
        self.seek(t)
        if t in self.nodes:
            if self.nodes[t].kind != "f":
                raise Refused("directory")
        else:
            top = self.top_missing(t)
            self.dir(top[:-1])
            for i in range(len(top), len(t)):
                self.nodes[t[:i]] = N("d")
            self.nodes[t] = N("f")
        self.prov[t] = base

    def mountd(self, path, spec):
        t = self.norm(path)
        self.mkdir(path, parents=True, exist_ok=True)
        self.pend[t] = spec

    def awake(self):
        c = clone(self)
        while c.pend:
            t = min(c.pend)
            c.load(t, c.pend.pop(t))
        return c

    def awake_refuses(self, a):
        """Would the operation be refused whatever it had to load?"""
        try:
            ref_step(self.awake(), a)
        except Refused:
            return True
        return False

    def full(self):
        """The dump once everything is loaded now."""
        c = self.awake()
        return {fmt(t): (n.kind, None if n.kind == "d" else c.now(t), n.version, n.pol, n.meta) for t, n in c.nodes.items()}


def ref_step(ref, a):
    op = a[0]
    if op == "read":
        return ref.read(a[1])
    if op == "ls":
        t = ref.norm(a[1])
        ref.dir(t)
        ref.wake(t + ("?",))
        return [n for _, n in ref.ls(t)]
    if op in ("exists", "isdir", "isfile"):
        t = ref.norm(a[1])
        try:
            n = ref.get(t)
        except Refused:
            return False
        return op == "exists" or (n.kind == "d") == (op == "isdir")
    if op == "version":
        n = ref.get(ref.norm(a[1]))
        if n.kind != "f":
            raise Refused("dir")
        return n.version
    if op == "search":
        ref.wake((), below=True)
        return sorted((fmt(t), ref.now(t)) for t, n in ref.nodes.items() if n.kind == "f" and a[1] in ref.now(t))
    if op == "mountf":
        return ref.mountf(a[1], a[2])
    if op == "mountd":
        return ref.mountd(a[1], a[2])
    kw = {}
    if op == "mkdirp":
        kw = dict(parents=True, exist_ok=True)
    elif op in ("rmr", "cpr"):
        kw = dict(recursive=True)
    elif op == "append":
        kw = dict(append=True)
    name = {"rm": "remove", "rmr": "remove", "mv": "move", "cp": "copy", "cpr": "copy", "mkdirp": "mkdir", "append": "write"}.get(op, op)
    getattr(ref, name)(*a[1:], **kw)
    return None


def real_step(w, a):
    op, vfs = a[0], w.vfs
    if op == "read":
        return vfs.read_file(a[1])
    if op == "ls":
        return [e.name for e in vfs.ls(a[1])]
    if op == "exists":
        return vfs.exists(a[1])
    if op == "isdir":
        return vfs.is_dir(a[1])
    if op == "isfile":
        return vfs.is_file(a[1])
    if op == "version":
        return vfs.get_version(a[1])
    if op == "search":
        return sorted((str(r.path), r.line_text) for r in vfs.search(SearchQuery(a[1])))
    if op == "mountf":
        vfs.mount_file(a[1], TickFile(a[2], w.st))
        return None
    if op == "mountd":
        # the same path and listing again: the very same provider
        vfs.mount_directory(a[1], w.st.mounted.setdefault((a[1], a[2]), TickDir(a[2], w.st)))
        return None
    if op == "shell":
        r = SandboxShell(vfs, view=everything_ann()).exec(command(a[1]))
        if r.exit_code:
            raise Failed(r.stderr)
        return None
    if do_vfs(vfs, a) == "err":
        raise Failed("refused")
    return None


class Failed(SandboxError):
    pass


def everything_ann():
    return VisibilityView(principals=["ann", "alice", "bob"])


RECURSIVE = {"search", "cpr", "rmr"}
QUIET = {"exists", "isdir", "isfile", "version", "cd", "mkdir", "mkdirp", "ls", "mountf", "mountd"}


class Lazy(Spec):
    def __init__(self, inits, acts):
        self.inits, self.acts = inits, acts

    def make(self, init):
        w = W()
        w.st = State()
        w.vfs, w.ref = VirtualFileSystem(), LazyRef()
        for a in init:
            self.step(w, a)
        return w

    def actions(self, w):
        return self.acts

    def step(self, w, a):
        st, ref = w.st, w.ref
        if a[0] == "tick":
            st.tick = ref.tick = (st.tick + 1) % 2
            return "tick"
        st.log.clear()
        if a[0] == "fail":
            st.faults.arm(a[1], a[2])
            a = a[3]
        raised = None
        try:
            got = real_step(w, a)
        except SandboxError as exc:
            raised = exc
        except Exception as exc:
            if not st.faults.fired:
                raise Violation("%r raised %s: %s" % (a, type(exc).__name__, exc)) from exc
            raised = exc
        fired = st.faults.disarm()
        inner = a[1] if a[0] == "shell" else a
        self.calls(w, inner, a[0] == "shell")
        if fired:
            need(raised is not None, "%r succeeded (%r) although a provider failed", a, None if raised else got)
            return "provider failed"
        try:
            want, wexc = ref_step(ref, inner), None
        except Refused as exc:
            wexc = exc
        except Asleep as exc:
            if raised is not None and ref.awake_refuses(inner):
                return "refused"
            raise Violation("%r was answered without asking the provider of %s" % (a, exc)) from None
        need((raised is None) == (wexc is None), "%r %s", a, "failed: %s" % raised if raised else "succeeded instead of failing")
        if raised is None and inner[0] in ("read", "ls", "exists", "isdir", "isfile", "version", "search"):
            equal(sorted(got) if inner[0] == "ls" else got, sorted(want) if inner[0] == "ls" else want, "result of %r" % (a,))
        if raised is None and inner[0] == "read" and ref.norm(inner[1]) in ref.prov:
            need(any(e[0] == "file" and e[1] == fmt(ref.norm(inner[1])) for e in st.log), "%r did not ask the provider", a)
        return "ok" if raised is None else "refused"

    def calls(self, w, a, shell):
        """Every provider call of this step was allowed; directories that were loaded are loaded in the model too."""
        ref = w.ref
        paths = ["/"] if a[0] == "search" else [fmt(ref.norm(x)) for x in a[1:] if isinstance(x, str) and x.startswith("/")]
        for kind, path, what, meta, has_vfs in w.st.log:
            t = ref.norm(path)
            need(has_vfs, "the provider of %s got no filesystem", path)
            if kind == "dir":
                need(ref.pend.get(t) == what, "the provider %s of %s was called again or with the wrong path by %r", what, path, a)
                ok = any(within(p, path) and not (a[0] in ("exists", "isdir", "isfile", "version", "mountf", "mountd") and p == path) or (a[0] in RECURSIVE or shell) and within(path, p) for p in paths)
                need(ok, "the provider of %s was called by %r, which does not need it", path, a)
                equal(meta, ref.nodes[t].meta, "metadata given to the provider of %s" % path)
                del ref.pend[t]
                ref.load(t, what)
            else:
                equal(ref.prov.get(t), what, "provider called for %s" % path)
                need(a[0] not in QUIET or shell, "the content provider of %s was called by %r", path, a)
                need(any(path == p or (a[0] in RECURSIVE or shell) and within(path, p) for p in paths), "the content provider of %s was called by %r", path, a)
                equal(meta, ref.nodes[t].meta, "metadata given to the provider of %s" % path)

    def observe(self, w):
        c = clone(w)
        c.st.log.clear()
        same_dump(dump_vfs(c.vfs), w.ref.full(), "tree once everything is loaded")
        called = [(e[1], e[2]) for e in c.st.log if e[0] == "dir"]
        need(len(called) == len(set(called)), "directory providers called twice: %s", called)

    def key(self, w):
        w.st.log.clear()
        return digest(w.vfs, w.st)


BASE = [("mkdir", "/e"), ("write", "/t", "T"), ("mountf", "/dyn", "F"), ("mountd", "/pd", "D")]
MINE = [("write", "/pd/u", "mine"), ("mkdir", "/pd/n"), ("write", "/pd/z", "zz"), ("mkdir", "/e"), ("mountd", "/pd", "D"), ("mountf", "/pd/z", "Z"), ("tick",)]
DEEP = [("mountd", "/a/b", "N"), ("mountd", "/a", "S"), ("write", "/t", "T"), ("mkdir", "/e")]

ACTS = [("read", "/dyn"), ("read", "/pd/u"), ("read", "/pd/fp"), ("read", "/pd/n/x"), ("read", "/pd/v/vp"), ("read", "/pd/n/nn/y"), ("read", "/t"), ("ls", "/"), ("ls", "/pd"), ("ls", "/pd/n"), ("ls", "/pd/v"), ("exists", "/pd"), ("isdir", "/pd"), ("exists", "/pd/u"),
        ("exists", "/pd/zz"), ("isfile", "/pd/fp"), ("isdir", "/pd/n"), ("version", "/dyn"), ("version", "/pd/u"), ("write", "/pd/u", "w"), ("write", "/dyn", "w"), ("write", "/pd/new", "w"), ("write", "/t", "w"), ("append", "/dyn", "+"), ("append", "/pd/fp", "+"), ("append", "/pd/u", "+"), ("write", "/dyn", ""), ("append", "/dyn", ""), ("write", "/pd/fp", ""), ("append", "/pd/fp", ""), ("append", "/pd/v/vp", ""),
        ("touch", "/pd/u"), ("touch", "/dyn"), ("mkdir", "/pd/k"), ("mkdir", "/pd/n"), ("mkdirp", "/pd/n/k"), ("rm", "/pd/u"), ("rm", "/dyn"), ("rm", "/pd"), ("rmr", "/pd/v"), ("rmr", "/pd"), ("rmr", "/pd/n"), ("mv", "/pd", "/e"), ("mv", "/pd", "/q"), ("mv", "/pd/fp", "/g"), ("mv", "/pd/n", "/e"),
        ("mv", "/dyn", "/pd"), ("mv", "/t", "/pd/u"), ("mv", "/t", "/pd/t"), ("cp", "/dyn", "/c"), ("cp", "/pd/fp", "/c"), ("cp", "/t", "/pd/u"), ("cpr", "/pd", "/c"), ("cpr", "/pd/n", "/e"), ("mountd", "/pd", "S"), ("mountd", "/pd", "D"), ("mountd", "/pd/n", "S"), ("mountd", "/t", "D"), ("mountf", "/dyn", "G"), ("mountf", "/pd/u", "G"), ("mountf", "/pd", "G"),
        ("mountf", "/x/y", "G"), ("mountf", "/dyn", "E"), ("mountf", "/t", "E"), ("read", "/x/y"), ("touch", "/t"), ("mountd", "/e", "O"), ("search", "1"), ("search", "F"), ("cd", "/pd"), ("cd", "/pd/n"), ("tick",), ("ls", "/pd/nb"), ("read", "/pd/nb/u"), ("read", "/pd/nb/x"), ("read", "/pd/nb/nn/y"), ("rmr", "/pd/nb/x"), ("read", "/pd/nb/sub/y")]
FAULTY = [("read", "/dyn"), ("read", "/pd/u"), ("read", "/pd/fp"), ("read", "/pd/n/x"), ("ls", "/pd"), ("ls", "/pd/n"), ("exists", "/pd/u"), ("write", "/pd/u", "w"), ("write", "/pd/new", "w"), ("append", "/dyn", "+"), ("append", "/pd/fp", "+"), ("rm", "/pd/u"), ("mv", "/t", "/pd"),
          ("mv", "/pd/fp", "/g"), ("cp", "/dyn", "/c"), ("cpr", "/pd", "/c"), ("mkdir", "/pd/k"), ("search", "1"), ("cp", "/t", "/pd/u"), ("mountd", "/pd/n", "S"), ("mountf", "/pd/u", "G"), ("touch", "/pd/u")]
SHELL = [("shell", a) for a in (("write", "/pd/u", "w"), ("append", "/dyn", "+"), ("append", "/pd/fp", "+"), ("rm", "/pd/u"), ("rmr", "/pd"), ("mv", "/pd", "/q"), ("mv", "/pd/fp", "/g"), ("mv", "/t", "/pd"), ("cpr", "/pd", "/c"), ("cp", "/dyn", "/c"), ("touch", "/pd/new"), ("mkdir", "/pd/k"), ("cd", "/pd"))]
DEEPACTS = [("ls", "/a"), ("ls", "/a/b"), ("ls", "/a/n"), ("read", "/a/b/x"), ("read", "/a/u"), ("read", "/a/b/nn/y"), ("rmr", "/a/b"), ("rmr", "/a"), ("mv", "/a/b", "/q"), ("mv", "/a", "/e"), ("mountd", "/a", "N"), ("mountd", "/a/b", "D"), ("mountd", "/", "S"), ("cpr", "/a", "/c"), ("write", "/a/b/x", "w"),
            ("rm", "/a/u"), ("tick",), ("ls", "/"), ("search", "1"), ("append", "/a/b/nn/y", "+"), ("exists", "/a/b/nn")]
CORE = [a for a in ACTS if a in [("read", "/dyn"), ("read", "/pd/fp"), ("ls", "/pd"), ("write", "/pd/u", "w"), ("append", "/pd/fp", "+"), ("rm", "/pd/u"), ("rmr", "/pd"), ("mv", "/pd", "/q"), ("mv", "/pd/fp", "/g"), ("cpr", "/pd", "/c"), ("mountd", "/pd", "S"), ("mountf", "/dyn", "G"), ("tick",), ("mv", "/t", "/pd/u"), ("write", "/dyn", "w"), ("read", "/pd/n/x"), ("ls", "/pd/nb")]]


def check_views(case):
    """Providers behind every reading command: the same answer, with at most one directory call."""
    line, init = case
    spec = Lazy([init], [])
    w = spec.make(init)
    w.st.log.clear()
    r = SandboxShell(w.vfs, view=everything_ann()).exec(line)
    calls = [(e[1], e[2]) for e in w.st.log if e[0] == "dir"]
    need(len(calls) == len(set(calls)), "%s called a directory provider twice: %s", line, calls)
    w.st.log.clear()
    again = SandboxShell(w.vfs, view=everything_ann()).exec(line)
    equal((again.stdout, again.exit_code), (r.stdout, r.exit_code), "second %s" % line)
    calls = [e[1] for e in w.st.log if e[0] == "dir"]
    equal(calls, [], "directory providers called by the second %s" % line)
    same_dump(dump_vfs(w.vfs), w.ref.full(), "tree after %s" % line)
    return (line, r.exit_code)


def listing(**kw):
    return {"s": ProvidedNode.directory(children={"in": ProvidedNode.file(content="i", metadata={"k": "3"})}, metadata={"k": "1"}, **kw), "f": ProvidedNode.file(content="f", metadata={"k": "2"}), "p": ProvidedNode.file(content_provider=lambda c: "p", metadata={"k": "4"})}


CHANGES = [("meta", "s"), ("meta", "s/in"), ("meta", "f"), ("meta", "p"), ("write", "f"), ("write", "s/in"), ("rm", "f"), ("rm", "s"), ("add", "s/new"), ("add", "new"), ("policy", "f"), ("policy", "s"), ("mv", "s"), ("drop", "s"), ("write", "p"), ("none", "s")]


def check_shared(case):
    """One listing given to several directories: each gets its own entries, and the provider keeps its own."""
    changes, where, loaded = case
    given = listing()
    if where == "two places":
        v = VirtualFileSystem()
        v.mount_directory("/a", lambda c: given)
        v.mount_directory("/b", lambda c: given)
        tops = (v, "/a"), (v, "/b")
    elif where == "nested":
        v = VirtualFileSystem()
        both = {"a": ProvidedNode.directory(children=given), "b": ProvidedNode.directory(children=given), "c": ProvidedNode.directory(directory_provider=lambda c: given)}
        v.mount_directory("/top", lambda c: both)
        tops = (v, "/top/a"), (v, "/top/b"), (v, "/top/c")
    else:
        u, v = VirtualFileSystem(), VirtualFileSystem()
        u.mount_directory("/a", lambda c: given)
        v.mount_directory("/a", lambda c: given)
        tops = (u, "/a"), (v, "/a")
    if loaded:
        for v, top in tops:
            v.ls(top + "/s")
    (first, top) = tops[0]

    def below(v, top):
        return {p[len(top):]: r for p, r in dump_vfs(v).items() if p.startswith(top + "/")}

    want = below(*tops[1]) if loaded else {"/s": ("d", None, 0, PUB, (("k", "1"),)), "/s/in": ("f", "i", 0, PUB, (("k", "3"),)), "/f": ("f", "f", 0, PUB, (("k", "2"),)), "/p": ("f", "p", 0, PUB, (("k", "4"),))}
    for what, name in changes:
        p = top + "/" + name
        if not first.exists(p) and what != "add":
            continue
        if what == "meta":
            first.get_node(p).metadata["k"] = "changed"
            first.get_node(p).metadata["more"] = "m"
        elif what in ("write", "add"):
            if first.exists(p.rpartition("/")[0]):
                first.write_file(p, "mine")
        elif what == "rm":
            first.remove(p, recursive=True)
        elif what == "policy":
            first.set_policy(p, pol_obj(TEAM))
        elif what == "mv":
            first.move(p, top + "/moved")
        elif what == "drop":
            first.get_node(p).metadata.clear()
    for v, top in tops[1:]:
        same_dump(below(v, top), want, "entries of %s after changes in the other directory" % top)
    equal(describe(given), describe(listing()), "the listing the provider keeps")
    return where


def describe(nodes):
    return {n: (dict(x.metadata) if x.metadata else {}, x.content, x.policy is None, describe(x.children) if x.children else None) for n, x in nodes.items()}


def check_node(case):
    """The node interface loads by itself: with or without a filesystem, with or without local entries."""
    local, how, given = case
    v = VirtualFileSystem()
    calls = []
    for n in local:
        v.write_file("/a/" + n, "local " + n)

    def provide(ctx):
        calls.append(str(ctx.path))
        return {n: ProvidedNode.file(content="given " + n) for n in given}

    d = v.mount_directory("/a", provide)
    for _ in range(2):
        if how == "iter":
            got = {c.name: c.read() for c in d.iter_children()}
        elif how == "iter vfs":
            got = {c.name: c.read(v) for c in d.iter_children(v)}
        elif how == "get":
            got = {n: d.get_child(n).read() for n in sorted(set(local) | set(given))}
        elif how == "walk":
            got = {e.name: e.read(v) for _, e in v.walk("/a") if e is not d}
        elif how == "get vfs":
            got = {n: d.get_child(n, v).read(v) for n in sorted(set(local) | set(given))}
        elif how == "ensure":
            d.ensure_loaded()
            got = {c.name: c.read() for c in d.children.values()}
        else:
            got = {e.name: v.read_file(e.path) for e in v.ls("/a")}
        equal(got, {**{n: "given " + n for n in given}, **{n: "local " + n for n in local}}, "entries of a provided directory through %s" % how)
    equal(calls, ["/a"] if local or given or not how.startswith("get") else [], "calls of the provider")
    return how


def check_given_names(case):
    """Names and texts are taken as the provider gives them."""
    names, text = case
    v = VirtualFileSystem()
    v.mount_directory("/p", lambda c: {n: ProvidedNode.file(content=text + n) for n in names} | {"dir": ProvidedNode.directory(children={n: ProvidedNode.file(content_provider=lambda c, n=n: n + text) for n in names}, metadata={})})
    equal(sorted(e.name for e in v.ls("/p")), sorted({*names, "dir"}), "names in the directory")
    equal(sorted(e.name for e in v.ls("/p/dir")), sorted(names), "names in the nested directory")
    for n in names:
        equal((v.read_file("/p/" + n), v.read_file("/p/dir/" + n), v.is_file("/p/" + n)), (text + n, n + text, True), "provided file %r" % n)
        v.append_file("/p/" + n, "+")
        equal((v.read_file("/p/" + n), v.read_file("/p/dir/" + n)), (text + n + "+", n + text), "provided file %r after an append" % n)
    return len(names)


def check_large(case):
    """Large and deep listings: loaded once, complete, and local changes win."""
    wide, deep, order = case
    calls = {"top": 0, "deep": 0, "text": 0}

    def text(c):
        calls["text"] += 1
        return "dyn %s" % c.path

    def nest(i):
        kids = {"f": ProvidedNode.file(content="d%d" % i)}
        if i + 1 < deep:
            kids["l%d" % (i + 1)] = ProvidedNode.directory(children=nest(i + 1), metadata={"depth": str(i + 1)})
        return kids

    def top(c):
        calls["top"] += 1
        out = {"n%03d" % i: ProvidedNode.file(content_provider=text, metadata={"i": str(i)}) if i % 3 == 0 else ProvidedNode.file(content="t%d" % i) for i in range(wide)}
        if deep:
            out["l0"] = ProvidedNode.directory(children=nest(0))
        return out
    v = VirtualFileSystem()
    v.mkdir("/a")
    v.mount_directory("/p", top)
    equal(calls["top"], 0, "calls of the directory's provider before anything was read")
    want = {"/p/n%03d" % i: "dyn /p/n%03d" % i if i % 3 == 0 else "t%d" % i for i in range(wide)}
    path = "/p"
    for i in range(deep):
        path += "/l%d" % i
        want[path + "/f"] = "d%d" % i
    local = {}
    if order == "edit first":
        for p in list(want)[::5]:
            v.write_file(p, "local")
            local[p] = "local"
        for p in list(want)[1::5]:
            v.remove(p)
            local[p] = None
        v.write_file("/p/mine", "m")
        local["/p/mine"] = "m"
    for rnd in range(3):
        now = {p: t for p, t in {**want, **local}.items() if t is not None}
        if order == "deepest first" and path + "/f" in now:
            equal(v.read_file(path + "/f"), now[path + "/f"], "the deepest file")
        got = {str(p): v.read_file(p) for p, _ in v.iter_files("/p")}
        equal(got, now, "files in round %d" % rnd)
        equal(calls["top"], 1, "calls of the directory's provider")
        for p in list(now)[rnd::7]:
            v.append_file(p, "+%d" % rnd)
            local[p] = now[p] + "+%d" % rnd
        for p in list(now)[rnd + 3::11]:
            v.remove(p)
            local[p] = None
    for i in range(0, wide, 3):
        p = "/p/n%03d" % i
        if local.get(p, "") is not None:
            equal(dict(v.get_node(p).metadata), {"i": str(i)}, "metadata of %s" % p)
    if deep > 1:
        equal(dict(v.get_node(path).metadata), {"depth": str(deep - 1)}, "metadata at the deepest level")
    return wide, deep


def check_mount_metadata(case):
    """Metadata given with a mount is on the node, beside what it had; the provider sees it; the caller's mapping stays his."""
    kind, had, given, path = case
    v = VirtualFileSystem()
    seen = []

    def text(ctx):
        seen.append((str(ctx.path), dict(ctx.metadata)))
        return "text"

    def kids(ctx):
        seen.append((str(ctx.path), dict(ctx.metadata)))
        return {"k": ProvidedNode.file(content="K")}
    if had is not None:
        (v.write_file(path, "old") if kind == "file" else v.mkdir(path, parents=True))
        v.get_node(path).metadata.update(had)
    meta = None if given is None else dict(given)
    n = (v.mount_file if kind == "file" else v.mount_directory)(path, text if kind == "file" else kids, **({} if meta is None else {"metadata": meta}))
    want = {**(had or {}), **(given or {})}
    for what in (n, v.get_node(path)):
        equal(dict(what.metadata), want, "metadata of the mounted node")
    for _ in range(2):
        equal(v.read_file(path) if kind == "file" else v.read_file(path + "/k"), "text" if kind == "file" else "K", "content")
    need_all = [(path, want)] * len(seen)
    equal(seen, need_all, "what the provider was told")
    v.get_node(path).metadata["later"] = 1
    equal(meta, None if given is None else dict(given), "the mapping the caller gave")
    return kind


def kids():
    return {"k": ProvidedNode.file(content="K")}


BARE = {"empty file": lambda: ProvidedNode.file(), "file": lambda: ProvidedNode("file"), "blank": lambda: ProvidedNode.file(content=""), "blank provider": lambda: ProvidedNode.file(content_provider=lambda c: ""),
        "blank metadata": lambda: ProvidedNode.file(metadata=None), "text": lambda: ProvidedNode("file", content="T"), "empty dir": lambda: ProvidedNode.directory(), "dir": lambda: ProvidedNode("dir"),
        "no children": lambda: ProvidedNode.directory(children={}), "none provided": lambda: ProvidedNode.directory(directory_provider=lambda c: {}), "child": lambda: ProvidedNode("dir", children=kids()),
        "provided child": lambda: ProvidedNode.directory(directory_provider=lambda c: kids())}
BARETEXT = {"empty file": "", "file": "", "blank": "", "blank provider": "", "blank metadata": "", "text": "T"}


def check_bare(case):
    """Provided entries with nothing or next to nothing in them are ordinary empty entries."""
    kind, deep, how = case
    v = VirtualFileSystem()
    v.mount_directory("/p", lambda c: {"x": ProvidedNode.directory(children={"n": BARE[kind]()})} if deep else {"n": BARE[kind]()})
    at = "/p/x/n" if deep else "/p/n"
    if how == "copy":
        v.copy("/p", "/q", recursive=True)
        at = "/q" + at[2:]
    elif how == "snapshot":
        v.restore(v.snapshot())
    elif how == "append" and kind in BARETEXT:
        v.append_file(at, "+")
    elif how == "index":
        v.enable_full_text_index()
    elif how == "move":
        v.move("/p", "/q")
        at = "/q" + at[2:]
    sh = SandboxShell(v)
    plus = "+" if how == "append" else ""
    if kind in BARETEXT:
        equal(v.read_file(at), BARETEXT[kind] + plus, "content of a provided %s" % kind)
        equal([x.stdout for x in (sh.exec("cat " + at), sh.exec("wc -c " + at))], [BARETEXT[kind] + plus, "%d %s" % (len(BARETEXT[kind] + plus), at)], "cat and wc of a provided %s" % kind)
    else:
        want = ["k"] if "child" in kind and kind != "no children" else []
        equal([e.name for e in v.ls(at)], want, "entries of a provided %s" % kind)
        equal(sh.exec("ls " + at).stdout, "".join(want), "ls of a provided %s" % kind)
        v.write_file(at + "/new", "1")
        equal([e.name for e in v.ls(at)], want + ["new"], "entries of a provided %s after writing there" % kind)
    equal(v.get_node(at).metadata, {}, "metadata")
    if how != "copy":
        equal([str(r.path) for r in v.search(SearchQuery("T"))], [at] if kind == "text" else [], "search")
    return kind


LINES = ["tree /", "find /", "find / -type f", "ls /pd", "ls -l /pd /pd/n", "cat /pd/u", "cat /pd/fp /dyn", "rg 0 /", "grep -r 1 /pd", "search 0", "stat /pd", "stat /pd/u", "stat /dyn", "head -n 1 /pd/v/w", "wc /dyn", "echo /pd/*", "echo /*", "cat < /pd/n/x", "find /pd/n", "tree /pd/v", "ls /", "host tool"]


def run(ck):
    q = ck.quick
    inits = [BASE, MINE]
    fails = [("fail", k, x, a) for a in FAULTY for k, x in ((0, "os"), (0, "key"), (0, "value"), (0, "own"), (1, "own"), (1, "key"))]
    if not q:
        fails += [("fail", k, x, a) for a in FAULTY for k, x in ((0, "runtime"), (1, "os"), (2, "key"), (3, "value"), (4, "runtime"))]
    ck.bfs("providers", Lazy(inits, ACTS), 2 if q else 3)
    ck.bfs("core", Lazy(inits, CORE), 4 if q else 6)
    ck.bfs("nested mounts", Lazy([DEEP], DEEPACTS), 3 if q else 5)
    ck.bfs("failures", Lazy(inits, fails + CORE), 2 if q else 4)
    ck.bfs("shell", Lazy(inits, SHELL + [("tick",), ("read", "/dyn"), ("ls", "/pd")]), 2 if q else 4)
    ck.enum("commands", lambda: itertools.product(LINES[:-1], inits), check_views)
    ck.enum("shared listings", lambda: itertools.product([[c] for c in CHANGES] + [list(p) for p in itertools.product(CHANGES, repeat=2)], ("two places", "nested", "two filesystems"), (0, 1)), check_shared, "one listing for several directories: every change of one leaves the others and the provider's own alone")
    some = [(), ("x",), ("own",), ("own", "x"), ("_u", ".h")]
    ck.enum("bare entries", lambda: itertools.product(BARE, (0, 1), ("read", "copy", "snapshot", "append", "index", "move")), check_bare)
    ck.enum("node interface", lambda: itertools.product(some, ("iter", "iter vfs", "get", "get vfs", "walk", "ensure", "ls"), some), check_node)
    ck.enum("metadata of mounts", lambda: itertools.product(("file", "dir"), (None, {}, {"a": 1}, {"a": 1, "b": "x"}), (None, {}, {"a": 2}, {"c": [1]}, {"a": None, "c": "y"}), ("/p", "/d/p", "/d/e/p q")), check_mount_metadata)
    ck.enum("large listings", lambda: itertools.product((0, 1, 16, 65, 200), (0, 1, 2, 9, 30), ("list first", "edit first", "deepest first")), check_large)
    ck.enum("names and texts", lambda: itertools.chain((((n,), "T") for n in NAMES + GLOBBY), ((p, "T") for p in PAIRS), ((("a", "_u"), t) for t in TEXTS)), check_given_names)
    ck.assume("no full-text index (an index reads everything when it is built); providers return text and valid listings; recursive removal is not interrupted by a provider failure")

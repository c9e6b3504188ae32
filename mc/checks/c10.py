"""C10: hooks see every write and delete under their prefix exactly once, in order."""
from ..canon import digest
from ..engine import Spec, equal, need
from ..env import MemoryStorageAdapter, SandboxError, SandboxShell
from ..fsops import do_ref, do_shell, do_vfs, setup
from ..parts import W
from ..refmodel import dump_vfs, fmt
from ..values import TEXTS

from sandfs.integrations import InboxRecorder  # noqa: E402

RO = (True, False, False, "public", ())
AO = (True, True, True, "public", ())
NR = (False, True, False, "public", ())
# registration order, with duplicates, nested and sibling prefixes and other spellings
PREFIXES = ["/a", "/", "/ab", "/a/b", "/a/b/f", "/a", "/missing", "/a/./b/", "//ab/../a/f"]
NORM = ["/a", "/", "/ab", "/a/b", "/a/b/f", "/a", "/missing", "/a/b", "/a/f"]
TREES = {
    "plain": [("/a", None), ("/a/b", None), ("/a/b/f", "1"), ("/a/f", "2"), ("/ab", "3")],
    "empty": [("/a", None)],
    "protected": [("/a", None), ("/a/b", None), ("/a/b/f", "1", RO), ("/a/b/g", "4"), ("/a/f", "2", AO), ("/ab", "3", NR)],
    "mount": [("/a", None), ("/a/f", "2"), ("/ab", "3")],
}


class Hook:
    """Records the event together with what the filesystem shows at that moment."""

    def __init__(self, tag, vfs, log, echo=None):
        self.tag, self.vfs, self.log, self.echo = tag, vfs, log, echo

    def __call__(self, e):
        p = e.path
        now = None
        if self.vfs.is_file(p):
            n = self.vfs.get_node(p)
            now = (n.read(self.vfs), n.version)
        if hasattr(e, "event"):
            self.log.append(("path", self.tag, e.path, e.event, e.content, now))
        else:
            self.log.append(("write", self.tag, e.path, e.content, e.version, e.append, now))
        if self.echo and not e.path.startswith(self.echo):
            self.vfs.append_file(self.echo, "!")


def under(path, prefix):
    return prefix == "/" or path == prefix or path.startswith(prefix + "/")


class Events(Spec):
    def __init__(self, inits, acts, route="api"):
        self.inits, self.acts, self.route = inits, acts, route

    def make(self, init):
        tree, index = init
        w = W()
        w.vfs, w.ref = setup(TREES[tree])
        w.adapter = None
        if tree == "mount":
            w.adapter = MemoryStorageAdapter({"f": "1", "g": "5"})
            w.vfs.mount_storage("/a/b", w.adapter)
            w.ref.mkdir("/a/b")
            for n, t in (("f", "1"), ("g", "5")):
                w.ref.write("/a/b/" + n, t)
                w.ref.nodes[("a", "b", n)].version = 0
            w.ref.events.clear()
        if index:
            w.vfs.enable_full_text_index()
        w.log = []
        for i, p in enumerate(PREFIXES):
            w.vfs.register_path_hook(p, Hook(i, w.vfs, w.log))
            w.vfs.register_write_hook(p, Hook(i, w.vfs, w.log))
        w.inbox = InboxRecorder()
        w.inbox.attach(w.vfs, "/a")
        w.shell = SandboxShell(w.vfs)
        w.files = {p: r[1] for p, r in dump_vfs(w.vfs).items() if r[0] == "f"}  # replayed from the events at "/"
        w.pure = True
        w.ext = 0
        return w

    def actions(self, w):
        acts = self.acts
        if w.adapter is not None and w.ext < 1:
            acts = acts + [("ext",)]
        return acts

    def step(self, w, a):
        if a[0] == "ext":
            w.ext = 1
            e = w.adapter.list().get("f")
            w.adapter.write("f", "external", version=e.version if e else 0)
            return "ok"
        del w.log[:]
        del w.inbox.events[:]
        w.ref.events.clear()
        before = dump_vfs(w.vfs)
        ra = (a[0].replace("redira", "append").replace("redir", "write"),) + tuple(a[1:])
        if self.route == "shell":
            got = do_shell(w.shell, a)
        else:
            got = do_vfs(w.vfs, ra)
        after = dump_vfs(w.vfs)
        log = list(w.log)
        if got == "err":
            # nothing may be delivered, except for files a recursive removal had already removed
            gone = sorted(p for p in before if before[p][0] == "f" and p not in after)
            need(ra[0] == "rmr" or not gone, "%s failed but removed %r", a, gone)
            want = [("d", tuple(p.strip("/").split("/")), None, None, None) for p in gone]
            for p in gone:
                w.ref.nodes.pop(tuple(p.strip("/").split("/")))
            for t in [t for t in w.ref.nodes if fmt(t) not in after]:
                w.ref.nodes.pop(t)
        else:
            r = do_ref(w.ref, ra)
            equal(r, "ok", "reference outcome of %s" % (a,))
            want = list(w.ref.events)
        self.match(w, a, log, want)
        if ra[0] in ("mv", "cp", "cpr"):
            w.pure = False
        for kind, t, content, version, append in want:
            if kind == "w":
                w.files[fmt(t)] = content
            else:
                w.files.pop(fmt(t), None)
        return "%s %d" % (got, len(want))

    def match(self, w, a, log, want):
        wr, pa, ib = [], [], []
        for kind, t, content, version, append in want:
            p = fmt(t)
            if kind == "w":
                wr += [("write", i, p, content, version, append, (content, version)) for i, x in enumerate(NORM) if under(p, x)]
                ev, now = ("create" if version == 1 else "update"), (content, version)
            else:
                ev, now = "delete", None
            pa += [("path", i, p, ev, content, now) for i, x in enumerate(NORM) if under(p, x)]
            if under(p, "/a"):
                ib.append({"path": p, "event": ev, "content": content})
        gw = [e for e in log if e[0] == "write"]
        gp = [e for e in log if e[0] == "path"]
        gi = list(w.inbox.events)
        if len(want) > 1:  # several files removed: their order is free, the order of hooks is not
            gp, pa = sorted(gp, key=repr), sorted(pa, key=repr)
            gi, ib = sorted(gi, key=repr), sorted(ib, key=repr)
            for t in {e[2] for e in log}:
                tags = [e[1] for e in log if e[0] == "path" and e[2] == t]
                equal(tags, sorted(tags), "order of hooks for %s" % t)
        equal(gw, wr, "write events of %s" % (a,))
        equal(gp, pa, "path events of %s" % (a,))
        equal(gi, ib, "events recorded by the inbox for %s" % (a,))

    def key(self, w):
        return digest(w.vfs, w.pure and w.files, w.ext, w.adapter)

    def observe(self, w):
        if w.pure:
            now = {p: r[1] for p, r in dump_vfs(w.vfs).items() if r[0] == "f"}
            equal(w.files, now, "files reproduced by replaying the events")


def reentrant(case):
    """A hook that itself writes: its write is an ordinary write with its own events."""
    kind, order, ops = case
    vfs, _ = setup(TREES["plain"])
    log = []
    hooks = {"echo": ("/a", Hook("echo", vfs, log, echo="/log")), "all": ("/", Hook("all", vfs, log)), "log": ("/log", Hook("log", vfs, log))}
    for h in order:
        (vfs.register_path_hook if kind == "path" else vfs.register_write_hook)(*hooks[h])
    n = 0
    for op in ops:
        if do_vfs(vfs, op) == "ok" and (kind == "path" or op[0] != "rm"):
            n += 1
    if not n:
        need(not log and not vfs.exists("/log"), "events without a successful operation: %r", log)
        return 0
    equal(vfs.read_file("/log"), "!" * n, "writes made by the hook")
    seen = [e for e in log if e[1] == "all" and e[2] == "/log"]
    at = 4 if kind == "path" else 3
    equal([e[at] for e in seen], ["!" * (i + 1) for i in range(n)], "events of the hook's own writes")
    equal([e[at] for e in log if e[1] == "log"], ["!" * (i + 1) for i in range(n)], "events of the hook's own writes at /log")
    equal(len([e for e in log if e[1] == "echo"]), n, "events that reached the hook")
    return len(log)


OPS1 = [("write", "/a/f", "1"), ("append", "/a/b/f", "2"), ("rm", "/a/b/f"), ("rmr", "/a"), ("write", "/ab", "3"), ("touch", "/a/b/n")]


def registered(case):
    """The same callable under several prefixes and kinds is called once for each registration."""
    regs, op = case
    vfs, ref = setup(TREES["plain"])
    log = []
    hook = Hook("h", vfs, log)
    for kind, prefix in regs:
        (vfs.register_path_hook if kind == "path" else vfs.register_write_hook)(prefix, hook)
    equal(do_vfs(vfs, op), do_ref(ref, op), "outcome of %s" % (op,))
    want = sorted((k, fmt(t)) for kind, t, *_ in ref.events for k, x in regs if under(fmt(t), x) and (k == "path" or kind == "w"))
    equal(sorted((e[0], e[2]) for e in log), want, "calls of one callable registered as %r" % (regs,))
    return len(log)


def contents(case):
    """Events carry the whole content of the file, whatever it is."""
    a, b, how = case
    vfs, ref = setup([("/a", None), ("/a/f", a)])
    log = []
    vfs.register_path_hook("/a", Hook("p", vfs, log))
    vfs.register_write_hook("/a", Hook("w", vfs, log))
    for op in ((how, "/a/f", b), (how, "/a/n", a), ("append", "/a/n", b)):
        do_vfs(vfs, op)
        do_ref(ref, op)
    got = [(e[2], e[4] if e[0] == "path" else e[3]) for e in log]
    want = [(fmt(t), content) for _, t, content, *_ in ref.events for _ in (1, 2)]
    equal(got, want, "contents of events")
    return len(got)


def inbox(case):
    """What an inbox has recorded after a whole sequence, nothing being cleared in between."""
    prefix, ops = case
    vfs, ref = setup(TREES["plain"])
    box, late = InboxRecorder(), InboxRecorder()
    box.attach(vfs, prefix)
    first = None
    for i, op in enumerate(ops):
        if i == 1:
            first = len(ref.events)
            late.attach(vfs, "/a")
        equal(do_vfs(vfs, op), do_ref(ref, op), "outcome of %s" % (op,))
    want = [{"path": fmt(t), "event": "delete" if kind == "d" else "create" if version == 1 else "update", "content": content}
            for kind, t, content, version, append in ref.events]
    equal(list(box.events), [e for e in want if under(e["path"], prefix)], "the inbox after %s" % (ops,))
    if first is not None:
        equal(list(late.events), [e for e in want[first:] if under(e["path"], "/a")], "an inbox attached after the first of %s" % (ops,))
    return len(want)


def many(case):
    """Many files, many hooks, deep paths."""
    files, hooks, deep, index = case
    base = "/a" + "/l" * deep
    vfs, ref = setup([("/a", None)])
    if index:
        vfs.enable_full_text_index()
    log = []
    pre = ["/", "/a", base, "/ab", base + "/n3", "/x"]
    regs = [(("path", "write")[i % 2], pre[(i // 2) % len(pre)]) for i in range(hooks)]
    for i, (kind, p) in enumerate(regs):
        (vfs.register_path_hook if kind == "path" else vfs.register_write_hook)(p, Hook(i, vfs, log))
    names = [base + "/n%d" % i for i in range(files)]
    ops = [("write", p, "1" + p) for p in names] + [("append", p, "2") for p in names[::3]] + [("rm", p) for p in names[1::4]] + [("write", "/ab/q", "z"), ("rmr", "/a"), ("write", base + "/n3", "again")]
    for op in ops:
        del log[:]
        ref.events.clear()
        equal(do_vfs(vfs, op), do_ref(ref, op), "outcome of %s" % (op,))
        want = [(k, i, fmt(t)) for kind, t, *_ in ref.events for i, (k, x) in enumerate(regs) if under(fmt(t), x) and (k == "path" or kind == "w")]
        got = [e[:3] for e in log]
        equal(sorted(got), sorted(want), "calls for %s" % (op,))
        for t in {e[2] for e in got}:
            for k in ("path", "write"):
                tags = [e[1] for e in got if e[0] == k and e[2] == t]
                equal(tags, sorted(tags), "order of %s hooks for %s" % (k, t))
    return len(names) * hooks


def acts(paths, copies=()):
    out = []
    for p in paths:
        out += [("write", p, "w"), ("append", p, "x"), ("touch", p), ("rm", p), ("rmr", p), ("redir", p, "r"), ("redira", p, "s")]
        out += [("writev", p, "v", n) for n in (0, 1, 2)] + [("appendv", p, "v", 1), ("append", p, ""), ("write", p, "")]
    return out + list(copies)


def api(a):
    return [x for x in a if x[0] not in ("redir", "redira")]


def shell(a):
    return [x for x in a if x[0] not in ("writev", "appendv")]


COPIES = [("cp", "/ab", "/a/f"), ("cpr", "/a/b", "/c"), ("mv", "/a/b", "/c"), ("mv", "/ab", "/a/n"), ("cp", "/ab", "/a/n"), ("mkdir", "/a/n"),
          ("mkdirp", "/a/b/n/m"), ("cd", "/a")]
P = ["/a/b/f", "/a/f", "/ab", "/a/b", "/a", "/a/bf", "/new/x", "/a/n/m"]


def run(ck):
    inits = [(t, i) for t in TREES for i in (False, True)]
    import itertools
    orders = list(itertools.permutations(["echo", "all", "log"]))
    ops = [("write", "/a/f", "1"), ("append", "/a/b/f", "2"), ("rm", "/a/f"), ("write", "/a/new", "3"), ("write", "/a/b", "x")]
    seqs = [s for n in (1, 2, 3) for s in itertools.product(ops, repeat=n)]
    d = 0 if ck.quick else 1
    ck.bfs("api", Events(inits, api(acts(P)) + COPIES), 2 + d)
    ck.bfs("shell", Events([(t, False) for t in TREES], shell(acts(P)) + COPIES, route="shell"), 2 + d)
    ck.bfs("api deeper", Events([("plain", True), ("mount", False)], api(acts(["/a/b/f", "/a/n/m", "/a"])) + [("mv", "/a/b", "/c"), ("write", "/ab", "q")]), 3 + d)
    ck.enum("reentrant hooks", lambda: itertools.product(["path", "write"], orders, seqs), reentrant)
    regs = [(k, p) for k in ("path", "write") for p in ("/", "/a", "/a/b")]
    ck.enum("one callable, several registrations", lambda: [(r, op) for n in (1, 2, 3) for r in itertools.product(regs, repeat=n) for op in OPS1], registered)
    ck.enum("many files and hooks", lambda: itertools.product((1, 3, 9, 33, 70), (1, 2, 7, 12, 25), (0, 1, 8, 20), (0, 1)), many)
    ck.enum("contents", lambda: [(a, b, r) for a in TEXTS for b in TEXTS for r in ("append", "write")], contents)
    ops = [("write", "/a/f", "1"), ("write", "/a/f", "2"), ("append", "/a/f", ""), ("touch", "/a/f"), ("rm", "/a/f"), ("write", "/ab", "1"),
           ("write", "/a/b/f", "1"), ("write", "/a/new", "1"), ("rm", "/missing")]
    seqs2 = [s for n in range(1, 5 if ck.quick else 6) for s in itertools.product(ops, repeat=n)]
    ck.enum("inboxes", lambda: itertools.product(["/a", "/", "/a/f"], seqs2), inbox)
    ck.assume("'create' means that the file's version was 0 before the write; cp, mv, mounting, syncing and restoring deliver no events")

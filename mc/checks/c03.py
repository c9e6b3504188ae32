"""C03: an operation that raises leaves everything as it was, also under injected faults."""
from ..canon import digest
from ..engine import Spec, Violation, equal, need
from ..env import SandboxError, SandboxShell, SearchQuery, VirtualFileSystem
from ..fsops import SPELLED, actions, base, command, diff, do_vfs, setup
from ..parts import DirProvider, EXC, Faults, FaultyMemory, FileProvider, Recorder, W, clone, times
from ..refmodel import dump_vfs
from ..storage import FsStore

RO = (True, False, False, "public", ())
AO = (True, True, True, "public", ())
NR = (False, True, False, "public", ())

TREES = {
    "plain": [("/a", None), ("/a/b", "1"), ("/b", None), ("/b/a", "2"), ("/c", "3")],
    "nested": [("/a", None), ("/a/b", None), ("/a/b/c", "1"), ("/b", None), ("/b/b", "2"), ("/c", "3")],
    "protected": [("/a", None, RO), ("/a/b", "1"), ("/b", None), ("/b/a", "2", RO), ("/c", "3", AO)],
    "mixed": [("/a", None, AO), ("/a/b", "1", NR), ("/b", None, RO), ("/b/a", "2", AO), ("/c", "3", RO)],
    "mount": [("/b", None), ("/b/a", "2"), ("/c", "3")],
    "dynamic": [("/b", None), ("/b/a", "2"), ("/c", "3")],
    "lazy": [("/b", None), ("/b/a", "2"), ("/c", "3")],
}


def attempt(fn):
    try:
        return fn()
    except SandboxError:
        return "refused"


def observation(w):
    """Everything a user can see (taken with faults disarmed)."""
    v = w.vfs
    out = {"tree " + p: r for p, r in dump_vfs(v).items()}
    if not w.lazy:
        out.update({"times " + p: t for p, t in times(v).items()})
    out["pwd"] = v.pwd()
    out["ls"] = attempt(lambda: [(e.name, e.is_dir) for e in v.ls()])
    if w.adapter is not None:
        out.update({"stored " + p: (e.content, e.version) for p, e in w.adapter.list().items()})
    out["events"] = list(w.log)
    for q in ("", "1", "x"):
        out["search " + q] = sorted((str(r.path), r.line_no, r.line_text) for r in v.search(SearchQuery(q)))
    if w.shell is not None:
        out["env"] = dict(w.shell.env)
    return out


class Unchanged(Spec):
    tokens = 0
    current = (None, None)

    def __init__(self, inits, paths, sets, *, faults=(), route="api", versions=True, ext=True, data="x", cds=()):
        self.inits = inits
        base = actions(paths, sets=sets, data=data, cds=cds)
        if versions and route == "api":
            base += [(op, p, "v", n) for op in ("writev", "appendv") for p in paths for n in (0, 1, 7)]
        self.base = base
        self.faults = faults
        self.route = route
        self.ext = ext

    def make(self, init):
        tree, index = init
        w = W()
        w.faults = Faults()
        w.log = []
        w.token = None
        w.lazy = tree == "lazy"
        w.adapter = None
        w.vfs, _ = setup(TREES[tree])
        v = w.vfs
        if tree == "mount":
            w.adapter = FaultyMemory({"b": "1", "d/b": "4"}, w.faults)
            v.mount_storage("/a", w.adapter)
        elif tree == "dynamic":
            v.mkdir("/a")
            v.mount_file("/a/b", FileProvider("1", w.faults))
            v.mount_file("/b/b", FileProvider("5", w.faults))
        elif tree == "lazy":
            v.mount_directory("/a", DirProvider({"b": "1", "c": {"b": FileProvider("6", w.faults)}}, w.faults))
        for prefix in ("/", "/a"):
            v.register_write_hook(prefix, Recorder(prefix, w.log))
            v.register_path_hook(prefix, Recorder(prefix, w.log))
        if index:
            v.enable_full_text_index()
        w.shell = SandboxShell(v) if self.route == "shell" else None
        w.ext = 0
        return w

    def actions(self, w):
        # the observation of this state, shared by all its successors
        Unchanged.tokens += 1
        w.token = Unchanged.tokens
        self.current = (w.token, observation(clone(w)))
        acts = list(self.base)
        if self.ext and w.adapter is not None and w.ext < 1:
            acts += [("ext", "b"), ("ext", "c"), ("extdel", "b")]
        if self.faults and (w.adapter is not None or self.has_dynamic(w)):
            acts += [("fault", k, exc, a) for a in self.base for k, exc in self.faults]
        return acts

    def has_dynamic(self, w):
        return True

    def step(self, w, a):
        if a[0] == "ext":
            w.ext += 1
            w.token = None
            old = w.adapter.list().get(a[1])
            # an external writer goes through the adapter itself
            w.adapter.write(a[1], "external", version=old.version if old else 0)
            return "ok"
        if a[0] == "extdel":
            w.ext += 1
            w.token = None
            w.adapter.delete(a[1])
            return "ok"
        token, w.token = w.token, None
        before = self.current[1] if token is not None and token == self.current[0] else observation(clone(w))
        inner, armed = a, False
        if a[0] == "fault":
            _, k, exc, inner = a
            armed = True
            w.faults.arm(k, exc)
        try:
            if self.route == "shell":
                out = "ok" if w.shell.exec(command(inner)).exit_code == 0 else "err"
            else:
                out = do_vfs(w.vfs, inner)
        except tuple(EXC.values()) as exc:
            if not armed:
                raise
            out = "err:" + type(exc).__name__
        finally:
            fired = w.faults.disarm()
        if out.startswith("err") and base(inner) != "rmr":
            after = observation(clone(w) if w.lazy else w)
            if after != before:
                raise Violation("%s failed but changed something: %s" % (a, diff(after, before)))
        return out + (" fault" if fired else "")

    def key(self, w):
        return digest(w.vfs, w.adapter, w.log, w.ext)


class OnDisk(Spec):
    """A mount of the on-disk adapter with an external editor; every refused operation is tried twice."""
    clonable = False

    def __init__(self, paths, sets):
        self.inits = [False, True]
        self.base = actions(paths, sets=sets) + [("writev", p, "v", n) for p in paths[:2] for n in (0, 1, 7)]

    def make(self, index):
        w = W()
        w.store = FsStore({"f": "1", "d/g": "2"})
        w.vfs, _ = setup([("/o", "3"), ("/p", None)])
        w.vfs.mount_storage("/m", w.store.adapter)
        w.log = []
        w.vfs.register_write_hook("/", Recorder("w", w.log))
        w.vfs.register_path_hook("/", Recorder("p", w.log))
        if index:
            w.vfs.enable_full_text_index()
        w.ext, w.index = 0, index
        return w

    def close(self, w):
        w.store.close()

    def actions(self, w):
        return self.base + ([("ext", "f"), ("ext", "d/g")] if w.ext < 1 else [])

    def seen(self, w):
        out = {"tree " + p: r for p, r in dump_vfs(w.vfs).items()}
        out.update({"times " + p: t for p, t in times(w.vfs).items()})
        out.update({"stored " + p: t for p, t in w.store.truth().items()})
        out["events"] = list(w.log)
        for q in ("", "1", "x"):
            out["search " + q] = sorted((str(r.path), r.line_no, r.line_text) for r in w.vfs.search(SearchQuery(q)))
        return out

    def attempt(self, vfs, a):
        try:
            return do_vfs(vfs, a)
        except OSError:  # where the backend itself cannot do it
            return "err"

    def step(self, w, a):
        if a[0] == "ext":
            w.ext += 1
            w.store.ext_write(a[1], "external", older=True)
            return "ok"
        before = self.seen(w)
        if self.attempt(w.vfs, a) == "ok":
            return "ok"
        if a[0] != "rmr":
            for what in ("failed but changed something", "was accepted or changed something when tried again"):
                after = self.seen(w)
                if after != before:
                    raise Violation("%s %s: %s" % (a, what, diff(after, before)))
                need(self.attempt(w.vfs, a) == "err", "%s was refused, but accepted when tried again", a)
        return "err"

    def key(self, w):
        return digest(dump_vfs(w.vfs), w.store.truth(), w.store.signature(), w.ext, w.log, w.index)


P = ["/a", "/b", "/c", "/a/b", "/b/a"]
P6 = ["/a", "/c", "/a/b", "/b/b", "/a/z/y"]
CD = ("/a", "/a/b", "/b")
ALL = ("mkdir", "mkdirp", "write", "append", "touch", "rm", "mv", "cp", "cpr", "rmr")


def run(ck):
    faults = [(0, "os"), (1, "value")]
    static = ["plain", "nested", "protected", "mixed"]
    d = 2 if ck.quick else 3
    ck.bfs("api", Unchanged([(t, i) for t in static for i in (False, True)] if not ck.quick else
                            [("plain", True), ("nested", False), ("protected", False), ("mixed", False)], P, ALL, cds=CD), d)
    ck.bfs("api/deep targets", Unchanged([(t, False) for t in static] + [("mount", True), ("lazy", False)],
                                         ["/a/z", "/a/z/y", "/b/z/y", "/c/z", "/b/a/z", "/n/z/y", "/a/b/z", "/c"],
                                         ("mkdir", "mkdirp", "write", "append", "touch", "mv", "cpr")), 1 if ck.quick else 2)
    ck.bfs("api/storage and faults",
           Unchanged([("mount", False), ("mount", True)], P6, ALL, faults=faults), d)
    ck.bfs("api/providers and faults",
           Unchanged([("dynamic", False), ("lazy", False)] + ([] if ck.quick else [("dynamic", True)]),
                     ["/a", "/c", "/a/b", "/b/b"], ALL, faults=faults + ([] if ck.quick else [(2, "runtime")]),
                     versions=not ck.quick), 2)
    ck.bfs("shell", Unchanged([(t, False) for t in static[1:]] + [("mount", True)], P,
                              ALL + ("redir", "redira"), route="shell", cds=CD), 2 if ck.quick else 3)
    ck.bfs("shell/other spellings", Unchanged([(t, False) for t in static] + [("mount", True)], P, SPELLED, route="shell"), 1 if ck.quick else 2)
    ck.unpriv = True
    ck.bfs("api/disk", OnDisk(["/m/f", "/m/n", "/o", "/m/d"] + ([] if ck.quick else ["/m/d/g"]), ALL), 2 if ck.quick else 3)
    ck.assume("recursive removal is excluded (it may stop half way, see C04)")
    ck.assume("a failing storage backend fails before it takes effect; hooks do not raise")

"""C12: a stale write never clobbers an external storage update."""
import itertools

from ..canon import digest
from ..engine import Spec, equal, need
from ..env import SandboxError, SandboxShell, VirtualFileSystem
from ..fsops import command, diff
from ..parts import Recorder, W
from ..refmodel import dump_vfs
from ..storage import KINDS
from ..values import GLOBBY, LONG, NAMES


class Stale(Spec):
    """Writes, external edits and syncs of a mount in every order."""

    def __init__(self, inits, files, route="api", texts=("x",), ops=("write", "append"), more=()):
        self.inits, self.files, self.route, self.texts, self.ops = inits, files, route, texts, ops
        self.more = {f: "3" for f in more}  # further files of the storage
        self.clonable = all(k == "mem" for k, _ in inits)

    def make(self, init):
        kind, index = init
        w = W()
        w.store = KINDS[kind]({"f": "1", "d/g": "2", **self.more})
        w.vfs = VirtualFileSystem()
        w.vfs.mount_storage("/m", w.store.adapter)
        w.vfs.write_file("/o", "3")
        w.log = []
        w.vfs.register_write_hook("/", Recorder("w", w.log))
        w.vfs.register_path_hook("/", Recorder("p", w.log))
        if index:
            w.vfs.enable_full_text_index()
        w.shell = SandboxShell(w.vfs)
        w.kind = kind
        # model: what the tree shows, what storage holds, which entries the outside changed since
        w.disk = {"f": "1", "d/g": "2", **self.more}
        w.tree = {f: (t, 0) for f, t in w.disk.items()}
        w.stale = set()
        w.how = {}  # how each stale entry was last changed outside
        return w

    def close(self, w):
        w.store.close()

    def actions(self, w):
        out = [("sync",)]
        for f in self.files:
            known = f in w.tree
            if known or f not in w.disk:
                for t in self.texts:
                    out += [(op, f, t) for op in self.ops]
                if self.route == "api":
                    v = w.tree[f][1] if known else 0
                    out += [("writev", f, "v", v), ("writev", f, "v", v + 1), ("appendv", f, "v", v)]
            if known and f not in w.stale:
                out.append(("rm", f))
            if known and f in w.disk:
                out += [("ext", f, "E"), ("ext", f, "x"), ("extsame", f)]
                if w.kind == "fs":
                    out += [("extold", f, "E"), ("extnear", f, "E")]
            if not known:
                out.append(("ext", f, "N"))  # a new file appears outside
        return out

    def step(self, w, a):
        op, f = a[0], a[1] if len(a) > 1 else None
        if op in ("ext", "extsame", "extold", "extnear"):
            text = w.disk.get(f, "") if op == "extsame" else a[2]
            w.store.ext_write(f, text, older="near" if op == "extnear" else op == "extold")
            w.disk[f] = text
            if f in w.tree:
                w.stale.add(f)
                w.how[f] = op
            return "ok"
        del w.log[:]
        if op == "sync":
            w.vfs.sync_storage("/m")
            got = {p[3:]: r[1:3] for p, r in dump_vfs(w.vfs).items() if r[0] == "f" and p.startswith("/m/")}
            equal({k: v[0] for k, v in got.items()}, w.disk, "files visible after sync")
            for k, v in got.items():
                if k in w.tree and k not in w.stale:
                    equal(v[1], w.tree[k][1], "version of unchanged %s across a sync" % k)
            w.tree = {k: (v[0], v[1]) for k, v in got.items()}
            w.stale = set()
            w.how = {}
            return "ok"
        path = "/m/" + f
        before = dump_vfs(w.vfs)
        refused = None
        want_v = a[3] if op in ("writev", "appendv") else None
        current = w.tree.get(f, (None, 0))[1]
        should = f not in w.stale and (want_v is None or want_v == current)
        if op == "touch" and f in w.tree:
            should = True  # only the modification time changes
        try:
            if self.route == "shell" and op != "rm":
                r = w.shell.exec(command((op, path) + tuple(a[2:])))
                if r.exit_code != 0:
                    refused = r.stderr
            elif op == "rm":
                w.vfs.remove(path)
            elif op in ("write", "writev"):
                w.vfs.write_file(path, a[2], **({"expected_version": want_v} if op == "writev" else {}))
            elif op in ("append", "appendv"):
                w.vfs.append_file(path, a[2], **({"expected_version": want_v} if op == "appendv" else {}))
            elif op == "touch":
                w.vfs.touch(path)
        except SandboxError as exc:
            refused = str(exc)
        after = dump_vfs(w.vfs)
        if not should:
            need(refused is not None, "%s was accepted although %s", a, "the storage entry was changed outside" if f in w.stale else "the version is not current")
            need(after == before, "%s was refused but changed the tree: %s", a, diff(after, before))
            equal(w.store.truth(), w.disk, "storage after the refused %s" % (a,))
            need(not w.log, "%s was refused but delivered events %r", a, w.log)
            return "refused"
        need(refused is None, "%s was refused without interference: %s", a, refused)
        if op == "rm":
            del w.tree[f], w.disk[f]
        elif not (op == "touch" and f in w.tree):
            old = w.tree.get(f, ("", 0))
            text = "" if op == "touch" else old[0] + a[2] if op in ("append", "appendv", "redira") else a[2]
            w.tree[f] = (text, old[1] + 1)
            w.disk[f] = text
        return "accepted"

    def key(self, w):
        if self.clonable:
            return digest(w.vfs, w.tree, w.disk, w.stale)
        return digest(dump_vfs(w.vfs), w.tree, w.disk, w.stale, w.how, w.kind, w.store.signature())

    def observe(self, w):
        equal(w.store.truth(), w.disk, "content of the storage")
        got = {p[3:]: tuple(r[1:3]) for p, r in dump_vfs(w.vfs).items() if r[0] == "f" and p.startswith("/m/")}
        equal(got, w.tree, "files below the mount")
        # after a sync everything is visible and can be written again
        w.vfs.sync_storage("/m")
        for f in sorted(w.disk):
            equal(w.vfs.read_file("/m/" + f), w.disk[f], "content of %s after sync" % f)
            w.vfs.write_file("/m/" + f, "again " + f)
            w.vfs.append_file("/m/" + f, "!")
        equal(w.store.truth(), {f: "again %s!" % f for f in w.disk}, "storage after syncing and writing")


class Direct(Spec):
    """The adapters themselves: a write to an existing entry is accepted exactly with its current version."""

    def __init__(self, inits, names):
        self.inits, self.names = inits, names
        self.clonable = all(k == "mem" for k in inits)

    def make(self, kind):
        w = W()
        w.store = KINDS[kind]({"f": "1"})
        w.kind = kind
        w.model = {"f": ("1", 0)}
        w.store.adapter.list()
        w.dirty = {}
        return w

    def close(self, w):
        w.store.close()

    def actions(self, w):
        out = [("list",)]
        for n in self.names:
            out += [("write", n, "w", v) for v in range(4)] + [("read", n), ("delete", n)]
            if n in w.model:
                out.append(("ext", n))
                if w.kind == "fs":
                    out += [("extold", n), ("extnear", n)]
        return out

    def step(self, w, a):
        ad = w.store.adapter
        op = a[0]
        if op == "list":
            got = {k: (e.content, e.version) for k, e in ad.list().items()}
            equal(got, w.model, "list()")
            w.dirty = {}
            return "ok"
        n = a[1]
        if op not in ("ext", "extold", "extnear"):
            w.dirty.pop(n, None)
        if op == "read":
            try:
                e = ad.read(n)
            except FileNotFoundError:
                need(n not in w.model, "read(%s) found nothing", n)
                return "missing"
            equal((e.content, e.version), w.model.get(n), "read(%s)" % n)
        elif op == "delete":
            ad.delete(n)
            w.model.pop(n, None)
        elif op in ("ext", "extold", "extnear"):
            w.store.ext_write(n, "E", older="near" if op == "extnear" else op == "extold")
            # several external edits in a row may count as one for the on-disk adapter
            w.model[n] = ("E", w.model[n][1] + (0 if n in w.dirty and w.kind == "fs" else 1))
            w.dirty[n] = op
        elif op == "write":
            cur = w.model.get(n)
            try:
                e = ad.write(n, a[2], version=a[3])
            except ValueError:
                need(a[3] != (cur[1] if cur else 0), "write(%s, version=%d) refused although it is current", n, a[3])
                return "refused"
            if cur is None and a[3] != 0:
                w.model[n] = (e.content, e.version)  # a missing entry: not specified
                equal(e.content, a[2], "content of the returned entry")
                return "created"
            need(a[3] == (cur[1] if cur else 0), "write(%s, version=%d) accepted although the version is %r", n, a[3], cur)
            equal((e.content, e.version), (a[2], a[3] + 1), "entry returned by write")
            w.model[n] = (a[2], a[3] + 1)
        return "ok"

    def key(self, w):
        return digest(w.model, w.kind, w.dirty, w.store.signature())

    def observe(self, w):
        equal(w.store.truth(), {k: v[0] for k, v in w.model.items()}, "stored content")
        for k in self.names:
            if k in w.model:
                e = w.store.adapter.read(k)
                equal((e.content, e.version), w.model[k], "read(%s)" % k)
        equal({k: (e.content, e.version) for k, e in w.store.adapter.list().items()}, w.model, "list()")
        for e in list(w.store.adapter.list().values()) + [w.store.adapter.read(k) for k in w.model]:
            e.content, e.version = "altered", 99  # what the caller does with an entry stays the caller's business
        equal({k: (e.content, e.version) for k, e in w.store.adapter.list().items()}, w.model, "list() after altering returned entries")


def two_trees(case):
    """Two filesystems mount the same adapter: the later writer of the same base is refused, nothing is lost."""
    kind, prog = case
    store = KINDS[kind]({"f": "1", "g": "2"})
    try:
        vs = [VirtualFileSystem(), VirtualFileSystem()]
        for v in vs:
            v.mount_storage("/m", store.adapter)
        truth, ver = {"f": "1", "g": "2"}, {"f": 0, "g": 0}
        known = [dict(ver), dict(ver)]
        outs = []
        for i, (who, op, f) in enumerate(prog):
            v = vs[who]
            if op == "sync":
                v.sync_storage("/m")
                known[who] = dict(ver)
                equal({n: v.read_file("/m/" + n) for n in truth}, truth, "content after sync")
                continue
            before = (v.read_file("/m/" + f), v.get_version("/m/" + f))
            try:
                (v.write_file if op == "write" else v.append_file)("/m/" + f, "<%d>" % i)
                ok = True
            except SandboxError:
                ok = False
            equal(ok, known[who][f] == ver[f], "%s of %s by filesystem %d in %r accepted" % (op, f, who, prog))
            if ok:
                truth[f] = ("<%d>" % i) if op == "write" else before[0] + "<%d>" % i
                ver[f] += 1
                known[who][f] = ver[f]
            else:
                equal((v.read_file("/m/" + f), v.get_version("/m/" + f)), before, "file after a refused write")
            equal(store.truth(), truth, "storage in %r" % (prog,))
            outs.append(ok)
        return outs
    finally:
        store.close()


def named(case):
    """Entries of any name and depth: an outside edit is never clobbered, a sync makes it writable again."""
    kind, name, op, older = case
    other = "other/" + name
    store = KINDS[kind]({name: "1", other: "2"})
    try:
        v = VirtualFileSystem()
        v.mount_storage("/m", store.adapter)
        act = {"write": lambda f, t: v.write_file("/m/" + f, t), "append": lambda f, t: v.append_file("/m/" + f, t),
               "shell": lambda f, t: v.write_file("/m/" + f, t, expected_version=v.get_version("/m/" + f))}[op]
        for i in range(3):
            store.ext_write(name, "E%d" % i, older=older)
            before, truth = dump_vfs(v), store.truth()
            for _ in range(2):
                try:
                    act(name, "mine")
                except SandboxError:
                    pass
                else:
                    need(False, "%s of %r was accepted although the storage entry was changed outside", op, name)
                equal((dump_vfs(v), store.truth()), (before, truth), "tree and storage after the refused %s" % op)
            act(other, "+")
            truth = store.truth()
            v.sync_storage("/m")
            equal(store.truth(), truth, "storage after a sync")
            equal(v.read_file("/m/" + name), "E%d" % i, "content after a sync")
            act(name, "mine")
            truth[name] = "mine" if op != "append" else "E%dmine" % i
            equal(store.truth(), truth, "storage after a sync and a %s" % op)
        return op
    finally:
        store.close()


def among(case):
    """One entry among many was changed outside: exactly its writes are refused, however many others are written before."""
    kind, n, at, op, how = case
    files = {("n%02d" % i if how != "deep" else "/".join("l%d" % j for j in range(i % 15 + 1)) + "/f%d" % i): "t%d" % i for i in range(n)}
    names = list(files)
    store = KINDS[kind](files)
    try:
        v = VirtualFileSystem()
        v.mount_storage("/m", store.adapter)
        want = dict(files)
        bad = names[at]
        store.ext_write(bad, "EXT")
        want[bad] = "EXT"
        for rnd in range(2):
            for f in names:
                act = (lambda: v.append_file("/m/" + f, "+")) if op == "append" else (lambda: v.write_file("/m/" + f, "w%d" % rnd))
                if f == bad:
                    before = dump_vfs(v)
                    try:
                        act()
                    except SandboxError:
                        equal(dump_vfs(v), before, "tree after the refused %s" % op)
                    else:
                        need(False, "%s of %s was accepted although it was changed outside", op, f)
                else:
                    act()
                    want[f] = want[f] + "+" if op == "append" else "w%d" % rnd
            equal(store.truth(), want, "storage with one entry changed outside")
        v.sync_storage("/m")
        equal({str(p)[3:]: v.read_file(p) for p, _ in v.iter_files("/m")}, want, "tree after a sync")
        for f in names:
            v.append_file("/m/" + f, "!")
            want[f] += "!"
        equal(store.truth(), want, "storage after a sync and more writes")
        return n
    finally:
        store.close()


def finding():
    s = KINDS["fs"]({})
    try:
        v = VirtualFileSystem()
        v.mount_storage("/m", s.adapter)
        s.ext_write("new", "external")
        try:
            v.write_file("/m/new", "mine")
        except SandboxError:
            return False
        return s.truth() == {"new": "mine"}
    finally:
        s.close()


def run(ck):
    ck.unpriv = True
    q = ck.quick
    ck.bfs("memory", Stale([("mem", False), ("mem", True)], ["f", "d/g", "new"]), 3 if q else 4)
    ck.bfs("disk", Stale([("fs", False)], ["f", "new"]), 3 if q else 4)
    ck.bfs("memory deep", Stale([("mem", False)], ["f"]), 5 if q else 7)
    ck.bfs("disk deep", Stale([("fs", False)], ["f"], ops=("write",)), 4 if q else 6)
    ck.bfs("memory, nested", Stale([("mem", False)], ["d/g", "d/e/h", "d/e/i/j/k", "d/e/new"], more=("d/e/h", "d/e/i/j/k")), 2 if q else 4)
    ck.bfs("disk, nested", Stale([("fs", False)], ["d/e/h", "d/e/i/j/k", "d/e/new"], more=("d/e/h", "d/e/i/j/k")), 2 if q else 3)
    names = [n for n in NAMES + GLOBBY] + ["a/b", "a/b/c", "a/b/c/d/e/f/g", "d/.h", ".d/h", "a/a/a", "x/" + LONG]
    ck.enum("names", lambda: [(k, n, op, o) for k in ("mem", "fs") for n in names for op in ("write", "append", "shell") for o in ((False, True, "near") if k == "fs" else (False,))], named,
            "entries of every name, and at several depths")
    sh = ("write", "append", "redir", "redira", "touch")
    ck.enum("one among many", lambda: ((k, n, at, op, how) for k in ("mem", "fs") for n in (2, 5, 16, 40) for at in sorted({0, 1, n // 2, n - 1}) for op in ("write", "append") for how in ("wide", "deep")), among)
    ck.bfs("shell/memory", Stale([("mem", True)], ["f", "new"], route="shell", ops=sh), 3 if q else 4)
    ck.bfs("shell/disk", Stale([("fs", False)], ["f", "d/g"], route="shell", ops=sh), 2 if q else 3)
    ck.bfs("adapters", Direct(["mem"], ["f", "n", "d/n"]), 4 if q else 6)
    ck.bfs("adapters on disk", Direct(["fs"], ["f", "n"] if q else ["f", "n", "d/n"]), 4 if q else 5)
    ops = [(w, o, f) for w in (0, 1) for o, f in (("write", "f"), ("append", "f"), ("sync", ""), ("write", "g"))]
    ck.enum("two filesystems", lambda: ((k, p) for k in ("mem", "fs") for n in range(1, 5 if q else 6) for p in itertools.product(ops, repeat=n)), two_trees)
    ck.finding("C12-fs-unknown", finding)
    ck.assume("external edits of on-disk files always have a different (newer or older) modification time; external deletions are only explored together with a sync (C11)")

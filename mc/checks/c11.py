"""C11: a storage mount and its adapter always hold the same files."""
from ..engine import Spec, equal, need
from ..env import MemoryStorageAdapter, NodePolicy, SandboxError, SandboxShell, VirtualFileSystem
from ..fsops import diff, do_ref, do_shell, do_vfs
from ..parts import EXC, Faults, FaultyMemory, W
from ..refmodel import N, RefFS, dump_vfs, fmt, pol_obj
from ..storage import KINDS
from ..canon import digest
from ..values import GLOBBY, NAMES, PAIRS, TEXTS

RO = (True, False, False, "public", ())
AO = (True, True, True, "public", ())
SEC = (True, True, False, "secret", ("ann",))

# mount point -> initial storage content; the deepest mount covering a path owns it
LAYOUTS = {
    "single": {"/m": {"f": "1", "d/g": "2"}},
    "nested": {"/m": {"f": "1", "d/g": "2"}, "/m/sub": {"h": "3"}},
    "deep": {"/m": {"f": "1"}, "/m/x/sub": {"h": "3", "d/g": "4"}, "/n": {"f": "5"}},
    "siblings": {"/m": {"f": "1"}, "/mm": {"f": "2", "d/g": "2"}},
    "root": {"/": {"f": "1", "m/g": "2"}},
    "deep2": {"/m": {"f": "1"}, "/m/x/y/sub": {"h": "3"}, "/n": {"f": "5"}},
    "three": {"/m": {"f": "1"}, "/m/a": {"f": "2", "d/g": "3"}, "/m/a/b": {"f": "4"}, "/m/ab": {"f": "5"}},
    "names": {"/m": {".f": "1", "a b": "2", "é/G": "3", ".d/g": "4", "F": "5", "f": "", "f.tmp": "7", "-n": "8", "x%20y": "9", "[a]*": "0"}},
    "below": {"/p/m": {"f": "1"}, "/p/m/d": {"g": "9"}},
}
ORDER = {"deep": ["/m/x/sub", "/m", "/n"], "three": ["/m/a/b", "/m", "/m/ab", "/m/a"]}  # mounted inner first


def under(p, prefix):
    return prefix == "/" or p == prefix or p.startswith(prefix + "/")


def rel(p, prefix):
    return p[len(prefix):].lstrip("/")


class Mirror(Spec):
    def __init__(self, inits, acts, route="api"):
        self.inits, self.acts, self.route = inits, acts, route
        self.clonable = all(k == "mem" for _, k, _ in inits)

    def make(self, init):
        layout, kind, index = init
        w = W()
        w.stores = {}
        w.vfs = VirtualFileSystem()
        w.vfs.mkdir("/out")
        w.vfs.write_file("/out/f", "o")
        lay = LAYOUTS[layout]
        for mp in ORDER.get(layout, lay):
            w.stores[mp] = KINDS[kind](lay[mp])
            w.vfs.mount_storage(mp, w.stores[mp].adapter)
        if index:
            w.vfs.enable_full_text_index()
        w.shell = SandboxShell(w.vfs)
        w.dirty = set()
        w.layout = layout
        w.kind = kind
        w.expected = {}  # what an external party left: mount -> rel -> text
        return w

    def close(self, w):
        for s in w.stores.values():
            s.close()

    def owner(self, w, p):
        return max((m for m in w.stores if under(p, m)), key=len, default=None)

    def actions(self, w):
        acts = self.acts
        if not w.dirty:
            mine = [(m, r) for m in w.stores for r in ("f", "new", "d/g") if self.owner(w, m.rstrip("/") + "/" + r) == m]
            acts = acts + [("ext", m, r) for m, r in mine] + [("extdel", m, r) for m, r in mine if r != "new"]
            return acts + [("sync", m) for m in w.stores]
        return [("sync", m) for m in w.dirty]  # external changes become visible by a sync (C12 covers the rest)

    def step(self, w, a):
        if a[0] == "ext":
            w.stores[a[1]].ext_write(a[2], "ext " + a[2])
            w.dirty.add(a[1])
            w.expected[a[1]] = w.stores[a[1]].truth()
            return "ok"
        if a[0] == "extdel":
            w.stores[a[1]].ext_delete(a[2])
            w.dirty.add(a[1])
            w.expected[a[1]] = w.stores[a[1]].truth()
            return "ok"
        before = dump_vfs(w.vfs)
        truth = {m: s.truth() for m, s in w.stores.items()}
        if a[0] == "sync":
            if not w.vfs.is_dir(a[1]):
                return "skip"
            w.vfs.sync_storage(a[1])
            w.dirty.discard(a[1])
            after = dump_vfs(w.vfs)
            equal({m: s.truth() for m, s in w.stores.items()}, truth, "storage content across a sync")
            want = w.expected.pop(a[1], truth[a[1]])
            mine = {rel(p, a[1]): r[1] for p, r in after.items() if r[0] == "f" and self.owner(w, p) == a[1]}
            equal(mine, want, "files below %s after sync" % a[1])
            for p, r in before.items():
                own = self.owner(w, p)
                if p in after and after[p][0] == r[0]:
                    equal(after[p][3:], r[3:], "policy and metadata of %s across a sync of %s" % (p, a[1]))
                if own != a[1] and not (r[0] == "d" and a[1] != "/" and under(a[1], p)):
                    equal(after.get(p), r, "%s (outside %s or in another mount) across a sync" % (p, a[1]))
            return "ok"
        if a[0] in ("setpol", "meta"):
            return do_vfs(w.vfs, a)
        if a[0] in ("write", "append", "touch", "redir", "redira") and any(under(m, a[1]) for m in w.stores) and not w.vfs.exists(a[1]):
            return "skip"  # a file in place of a removed mount point: not a mount any more
        # the same operation on a plain tree
        ref = RefFS()
        for p, r in before.items():
            t = ref.norm(p)
            ref.nodes[t] = N(r[0], r[1] or "", r[2], r[3], r[4])
        ra = (a[0].replace("redira", "append").replace("redir", "write"),) + tuple(a[1:])
        want = do_ref(ref, ra)
        got = do_shell(w.shell, a) if self.route == "shell" else do_vfs(w.vfs, ra)
        equal(got, want, "outcome of %s below a storage mount" % (a,))
        after = dump_vfs(w.vfs)
        if want == "ok":
            need(after == ref.dump(), "tree after %s: %s", a, diff(after, ref.dump()))
        return want

    def key(self, w):
        if self.clonable:
            return digest(w.vfs, w.dirty, w.expected)
        return digest(dump_vfs(w.vfs), w.dirty, w.expected, w.layout, {m: s.truth() for m, s in w.stores.items()}, w.kind)

    def observe(self, w):
        if w.dirty:
            return
        d = dump_vfs(w.vfs)
        for m, s in w.stores.items():
            tree = {rel(p, m): (r[1], r[2]) for p, r in d.items() if r[0] == "f" and self.owner(w, p) == m}
            equal(s.truth(), {k: v[0] for k, v in tree.items()}, "files and contents in the storage of %s" % m)
            held = {k: (e.content, e.version) for k, e in s.adapter.list().items()}
            equal(held, tree, "what the adapter of %s lists, against the tree" % m)
            for k, v in tree.items():
                e = s.adapter.read(k)
                equal((e.content, e.version), v, "adapter read of %s in %s" % (k, m))


def acts(paths, ops=("write", "append", "touch", "rm", "rmr", "mkdirp"), pols=()):
    out = []
    for p in paths:
        for op in ops:
            out.append((op, p, "x") if op in ("write", "append", "redir", "redira") else (op, p))
    for p in pols:
        out += [("setpol", p, RO), ("setpol", p, AO), ("setpol", p, SEC), ("meta", p, "k", "1")]
    return out


class Failing(Spec):
    """A backend whose calls fail, before taking effect, at every possible point of an operation."""

    def __init__(self, base, points, route="api"):
        self.inits, self.base, self.points, self.route = [False, True], base, points, route

    def make(self, index):
        w = W()
        w.faults = Faults()
        w.adapter = FaultyMemory({"f": "1", "d/g": "2", "d/h": "3"}, w.faults)
        w.vfs = VirtualFileSystem()
        w.vfs.mount_storage("/m", w.adapter)
        w.vfs.mkdir("/o")
        if index:
            w.vfs.enable_full_text_index()
        w.shell = SandboxShell(w.vfs)
        return w

    def actions(self, w):
        return self.base + [("fault", k, e, a) for a in self.base for k, e in self.points]

    def step(self, w, a):
        inner = a[3] if a[0] == "fault" else a
        if a[0] == "fault":
            w.faults.arm(a[1], a[2])
        try:
            if inner[0] == "sync":
                w.vfs.sync_storage("/m")
                out = "ok"
            else:
                out = do_shell(w.shell, inner) if self.route == "shell" else do_vfs(w.vfs, inner)
        except tuple(EXC.values()):
            need(a[0] == "fault", "%s failed without a fault", a)
            out = "raised"
        finally:
            fired = w.faults.disarm()
        if fired:
            need(out != "ok", "%s succeeded although the storage backend failed", a)
        return out

    def key(self, w):
        return digest(w.vfs, w.adapter)

    def observe(self, w):
        tree = {p[3:]: r[1:3] for p, r in dump_vfs(w.vfs).items() if r[0] == "f" and p.startswith("/m/")}
        equal({k: (e.content, e.version) for k, e in w.adapter.list().items()}, tree, "storage against the tree")


class Shared(Spec):
    """Several adapters, each mounted at one or several places, and places mounted anew with another adapter."""

    def __init__(self, kind, points, count, inits, names=("f", "d/g", "n")):
        self.inits, self.kind, self.points, self.count, self.names = inits, kind, points, count, names
        self.clonable = kind == "mem"

    def make(self, init):
        w = W()
        w.stores = [KINDS[self.kind]({"f": "f%d" % i, "d/g": "g%d" % i, "only%d" % i: "o"}) for i in range(self.count)]
        w.model = [{k: (t, 0) for k, t in s.truth().items()} for s in w.stores]
        w.vfs = VirtualFileSystem()
        w.vfs.write_file("/plain", "p")
        w.mounts, w.tree = {}, {}
        for p, i in init:
            self.mount(w, p, i)
        return w

    def close(self, w):
        for s in w.stores:
            s.close()

    def mount(self, w, p, i):
        w.vfs.mount_storage(p, w.stores[i].adapter)
        w.mounts[p] = i
        w.tree[p] = dict(w.model[i])

    def actions(self, w):
        out = [("mount", p, i) for p in self.points for i in range(self.count)] + [("sync", p) for p in w.mounts]
        for p, i in w.mounts.items():
            for r in self.names:
                here, there = w.tree[p].get(r), w.model[i].get(r)
                if (here is None) == (there is None):  # known on both sides or on none; C12 covers the rest
                    out += [("write", p, r), ("append", p, r)]
                if here == there and here is not None:
                    out.append(("rm", p, r))
        return out

    def step(self, w, a):
        op, p = a[0], a[1]
        if op == "mount":
            self.mount(w, p, a[2])
            return "ok"
        i = w.mounts[p]
        if op == "sync":
            w.vfs.sync_storage(p)
            w.tree[p] = dict(w.model[i])
            return "ok"
        r = a[2]
        here, there = w.tree[p].get(r), w.model[i].get(r)
        out = do_vfs(w.vfs, (op, p + "/" + r, "x") if op != "rm" else (op, p + "/" + r))
        if (here and here[1]) != (there and there[1]):
            need(out != "ok", "%s was accepted although the entry was changed through another mount", a)
            return "refused"
        equal(out, "ok", "outcome of %s" % (a,))
        if op == "rm":
            del w.tree[p][r], w.model[i][r]
        else:
            old = here or ("", 0)
            w.tree[p][r] = w.model[i][r] = (old[0] + "x" if op == "append" else "x", old[1] + 1)
        return "ok"

    def key(self, w):
        if self.clonable:
            return digest(w.vfs, w.mounts, w.tree, w.model)
        return digest(dump_vfs(w.vfs), w.mounts, w.tree, w.model, [s.signature() for s in w.stores])

    def observe(self, w):
        d = dump_vfs(w.vfs)
        for i, s in enumerate(w.stores):
            equal({k: (e.content, e.version) for k, e in s.adapter.list().items()}, w.model[i], "what adapter %d holds" % i)
            equal(s.truth(), {k: v[0] for k, v in w.model[i].items()}, "files and contents of storage %d" % i)
        for p in w.mounts:
            equal({rel(q, p): tuple(r[1:3]) for q, r in d.items() if r[0] == "f" and under(q, p)}, w.tree[p], "files below %s" % p)
        equal(d["/plain"][1], "p", "file outside the mounts")


P = {"single": ["/m/f", "/m/d/g", "/m/n", "/m/d", "/m", "/out/f", "/out/n"],
     "nested": ["/m/f", "/m/d", "/m/sub/h", "/m/sub/n", "/m/sub", "/m/subn", "/m"],
     "deep": ["/m/f", "/m/x/sub/h", "/m/x", "/m/x/n", "/n/f", "/m/x/sub/d", "/m"],
     "siblings": ["/m/f", "/mm/f", "/mm/d", "/mmm", "/m/n", "/mm/n/o"],
     "root": ["/f", "/m/g", "/m", "/out/f", "/n"],
     "deep2": ["/m/f", "/m/x/y/sub/h", "/m/x/y/n", "/m/x/n", "/n/f", "/m/x/y/sub/n"],
     "three": ["/m/f", "/m/a/f", "/m/a/b/f", "/m/ab/f", "/m/a/d", "/m/a/b/n", "/m/a/n", "/m/abc", "/m/a"],
     "names": ["/m/.f", "/m/a b", "/m/é", "/m/.d", "/m/F", "/m/f", "/m/f.tmp", "/m/.n/o", "/m/-n", "/m/x%20y", "/m/[a]*", "/m/é/G"],
     "below": ["/p/m/f", "/p/m/d/g", "/p", "/p/m", "/p/n", "/p/m/d"]}


def finding():
    bad = []
    for op in ("cp", "mv"):
        v = VirtualFileSystem()
        m = MemoryStorageAdapter({"f": "1"})
        v.mount_storage("/m", m)
        v.write_file("/out", "o")
        getattr(v, {"cp": "copy", "mv": "move"}[op])("/out", "/m/g")
        bad.append("g" not in m.list())
        getattr(v, {"cp": "copy", "mv": "move"}[op])("/m/f", "/m/h")
        bad.append("h" not in m.list())
    return any(bad)


def stored(case):
    """Two given names with given contents, through a life of writes, removals, external edits and syncs."""
    kind, a, b, s, t = case
    deep = "Deep/2/3/4/5/6/"
    st = KINDS[kind]({a: s, "Dir/" + b: t, deep + a: "deep"})
    try:
        v = VirtualFileSystem()
        v.mount_storage("/m", st.adapter)
        want = {a: s, "Dir/" + b: t, deep + a: "deep"}

        def same(what):
            got = {str(p)[3:]: v.read_file(p) for p, _ in v.iter_files("/m")}
            equal(got, want, "files below the mount after " + what)
            equal(st.truth(), want, "stored files after " + what)
            equal({k: e.content for k, e in st.adapter.list().items()}, want, "adapter list after " + what)
            for k in want:
                equal(st.adapter.read(k).content, want[k], "adapter read of %r after %s" % (k, what))
                equal(v.get_version("/m/" + k), st.adapter.read(k).version, "version of %r after %s" % (k, what))

        same("mounting")
        v.write_file("/m/" + b, t)
        want[b] = t
        same("writing %r" % b)
        v.append_file("/m/" + a, t)
        want[a] = s + t
        same("appending to %r" % a)
        v.write_file("/m/Dir/" + b, s)
        want["Dir/" + b] = s
        v.write_file("/m/%s%s" % (deep, b), s)
        want[deep + b] = s
        same("overwriting")
        v.remove("/m/" + a)
        del want[a]
        same("removing %r" % a)
        st.ext_write(b, "external")
        st.ext_write("Dir/" + a, s)
        want.update({b: "external", "Dir/" + a: s})
        v.sync_storage("/m")
        same("external edits and a sync")
        st.ext_delete("Dir/" + b)
        del want["Dir/" + b]
        v.sync_storage("/m")
        same("an external removal and a sync")
        v.write_file("/m/%s/%s" % (a, b), t)
        want["%s/%s" % (a, b)] = t
        same("writing below %r" % a)
        v.remove("/m/Deep", recursive=True)
        want = {k: x for k, x in want.items() if not k.startswith("Deep/")}
        same("removing a deep tree")
        v.write_file("/m/Deep", s)
        want["Deep"] = s
        same("writing a file where a deep tree was")
        w2 = VirtualFileSystem()
        w2.mount_storage("/other/" + a, st.adapter)
        equal({str(p)[len("/other/" + a) + 1:]: w2.read_file(p) for p, _ in w2.iter_files("/other")}, want, "a second mount of the same storage")
    finally:
        st.close()
    return len(want)


def large(case):
    """Many entries, many levels, many writes."""
    kind, n, shape, step = case
    name = (lambda i: "n%03d" % i) if shape == "wide" else (lambda i: "/".join("l%d" % j for j in range(i % 24)) + "/f%d" % i)
    norm = lambda i: name(i).lstrip("/")  # noqa: E731
    want = {norm(i): "t%d" % i for i in range(n)}
    st = KINDS[kind](want)
    try:
        v = VirtualFileSystem()
        v.mount_storage("/m", st.adapter)

        def same(what):
            got = {str(p)[3:]: v.read_file(p) for p, _ in v.iter_files("/m")}
            equal(got, want, "files below the mount after " + what)
            equal(st.truth(), want, "stored files after " + what)
            equal({k: e.version for k, e in st.adapter.list().items()}, {k: v.get_version("/m/" + k) for k in want}, "versions after " + what)

        same("mounting")
        for i in range(0, n, step):
            v.append_file("/m/" + norm(i), "+")
            want[norm(i)] += "+"
        for i in range(n, n + 5):
            v.write_file("/m/" + norm(i), "w%d" % i)
            want[norm(i)] = "w%d" % i
        same("writes")
        for i in range(1, n, step + 1):
            st.ext_write(norm(i), "ext%d" % i)
            want[norm(i)] = "ext%d" % i
        for i in range(2, n, step + 3):
            st.ext_delete(norm(i))
            want.pop(norm(i), None)
        st.ext_write("zz/new", "z")
        want["zz/new"] = "z"
        v.sync_storage("/m")
        same("external edits and a sync")
        for i in range(0, n, step + 2):
            if norm(i) in want:
                v.remove("/m/" + norm(i))
                del want[norm(i)]
        same("removals")
        if shape != "wide":
            v.remove("/m/l0", recursive=True) if v.exists("/m/l0") else None
            want = {k: t for k, t in want.items() if not k.startswith("l0/")}
            same("a recursive removal")
        v.sync_storage("/m")
        same("another sync")
        return len(want)
    finally:
        st.close()


def many_mounts(case):
    """Any number of storages below one another: a sync of any of them leaves the others as they are."""
    kind, points, order = case
    points = list(points)
    stores = {m: KINDS[kind]({"f": "f" + m, "k/g": "g" + m}) for m in points}
    try:
        v = VirtualFileSystem()
        pol = NodePolicy(append_only=True)
        made = {}
        for m in (points if order == "given" else reversed(points)):
            made[m] = pol if m == points[-1] else None
            v.mount_storage(m, stores[m].adapter, policy=made[m]) if made[m] else v.mount_storage(m, stores[m].adapter)
        want = {m.rstrip("/") + "/" + k: t + m for m in points for k, t in (("f", "f"), ("k/g", "g"))}

        def same(what):
            equal({str(p): v.read_file(p) for p, _ in v.iter_files("/")}, want, "files after " + what)
            for m in points:
                mine = {p: t for p, t in want.items() if max((x for x in points if under(p, x)), key=len) == m}
                equal(stores[m].truth(), {rel(p, m): t for p, t in mine.items()}, "stored files of %s after %s" % (m, what))
                equal(v.get_policy(m).append_only, made[m] is not None, "policy given for %s, after %s" % (m, what))

        same("mounting")
        for m in points:
            v.sync_storage(m)
            same("a sync of " + m)
            stores[m].ext_write("e", "e" + m)
            want[m.rstrip("/") + "/e"] = "e" + m
            v.sync_storage(m)
            same("an external write and a sync of " + m)
            for x in points:
                v.append_file(x.rstrip("/") + "/f", "+")
                want[x.rstrip("/") + "/f"] += "+"
            same("appends after a sync of " + m)
        return len(want)
    finally:
        for s in stores.values():
            s.close()


MOUNTS = ["/m", "/m/a", "/m/b", "/m/c", "/m/a/x", "/m/a/y/z", "/m/ab", "/n", "/m/new/deep/er"]


LIFE = [("write", ""), ("write", "x"), ("append", ""), ("append", "y"), ("touch", None), ("rm", None), ("sync", None), ("ext", "e"), ("ext", "")]


def life(case):
    """One stored file through a sequence of steps: the tree and the storage agree after each of them."""
    kind, start, route, steps = case
    st = KINDS[kind]({"g": "other"} if start is None else {"g": "other", "d/f": start})
    try:
        v = VirtualFileSystem()
        v.mount_storage("/m", st.adapter)
        sh = SandboxShell(v)
        v.mkdir("/m/d", exist_ok=True)
        now, stale = start, False

        def write(text, append):
            if route == "shell":
                r = sh.exec("echo -n '%s' %s /m/d/f" % (text, ">>" if append else ">"))
                return r.exit_code == 0
            try:
                v.write_file("/m/d/f", text, append=append)
                return True
            except SandboxError:
                return False
        for n, (op, text) in enumerate(steps):
            what = "step %d of %r on a file that was %r" % (n + 1, steps, start)
            if op in ("write", "append"):
                if not write(text, op == "append"):
                    need(stale, "refused: %s", what)
                elif not stale:
                    now = (now or "") + text if op == "append" else text
                else:
                    return "stale"
            elif op == "touch":
                if now is None and not stale:
                    need(sh.exec("touch /m/d/f").exit_code == 0, "touch failed: %s", what)
                    now = ""
                elif not stale:
                    v.touch("/m/d/f")
            elif op == "rm":
                if now is not None and not stale:
                    v.remove("/m/d/f")
                    now = None
            elif op == "sync":
                v.sync_storage("/m")
                v.mkdir("/m/d", exist_ok=True)
                stale = False
            elif op == "ext":
                if now is None or stale:  # what then happens is C12's matter
                    continue
                st.ext_write("d/f", text)
                now, stale = text, True
            if stale:
                continue
            want = {"g": "other"} if now is None else {"g": "other", "d/f": now}
            equal({str(p)[3:]: v.read_file(p) for p, _ in v.iter_files("/m")}, want, "files below the mount after " + what)
            equal(st.truth(), want, "stored files after " + what)
            for k in want:
                equal(v.get_version("/m/" + k), st.adapter.read(k).version, "version of %r after %s" % (k, what))
    finally:
        st.close()
    return now


def stored_cases(full):
    ps = list(PAIRS) + [(y, x) for x, y in PAIRS]
    for n in NAMES + GLOBBY:
        for m in (NAMES + GLOBBY if full else ["x"]):
            if (n, m) not in ps and n != m:
                ps.append((n, m))
    for kind in KINDS:
        for a, b in ps:
            yield (kind, a, b, "one", "two\n")
        for s in TEXTS:
            for t in (TEXTS if full else ("", "x\n", s)):
                yield (kind, "a", "b", s, t)


def run(ck):
    ck.unpriv = True
    lays = list(LAYOUTS)
    for lay in lays:
        a = acts(P[lay], pols=P[lay][:2] if lay in ("single", "nested") else ())
        ck.bfs("memory/" + lay, Mirror([(lay, "mem", False), (lay, "mem", True)], a), 2 if ck.quick else 3)
    for lay in lays:
        a = acts(P[lay], pols=[P[lay][0], P[lay][1]])
        ck.bfs("disk/" + lay, Mirror([(lay, "fs", False)], a), 2 if ck.quick else 3)
    ck.bfs("memory/histories", Mirror([("nested", "mem", False)], acts(["/m/f", "/m/sub/h", "/m/sub", "/m/n"], ("write", "append", "rm", "rmr"))), 4 if ck.quick else 5)
    ck.bfs("disk/histories", Mirror([("single", "fs", False)], acts(["/m/f", "/m/n"], ("write", "append", "rm"))), 3 if ck.quick else 5)
    for kind in ("mem", "fs"):
        ck.bfs("shell/" + kind, Mirror([("nested", kind, True)], acts(P["nested"], ("write", "append", "touch", "rm", "rmr", "redir", "redira", "mkdirp")), route="shell"),
               2 if ck.quick or kind == "fs" else 3)
    shared = [(("/m", 0), ("/n", 0)), (("/m", 0), ("/n", 1)), (("/m", 0), ("/p/q", 0), ("/n", 1)), (("/m", 0),), (("/n", 0), ("/m", 0))]
    ck.bfs("adapters in several places", Shared("mem", ["/m", "/n"], 2, shared), 3 if ck.quick else 4)
    ck.bfs("adapters in several places, disk", Shared("fs", ["/m", "/n"], 2, shared), 2 if ck.quick else 3)
    ck.bfs("adapters in several places, long", Shared("mem", ["/m"], 2, shared[:2], names=("f",)), 5 if ck.quick else 7)
    base = acts(["/m/f", "/m/d", "/m/d/g", "/m/n"]) + [("sync",)]
    points = [(k, e) for k in (0, 1, 2) for e in ("os", "value", "key")]
    ck.bfs("failing backend", Failing(base, points), 2 if ck.quick else 3)
    ck.bfs("shell/failing backend", Failing(base[:-1], points, route="shell"), 1 if ck.quick else 2)
    ck.enum("names and contents", lambda: stored_cases(not ck.quick), stored, "unusual names, confusable pairs and unusual contents in both adapters")
    import itertools
    ck.enum("many mounts", lambda: itertools.product(KINDS, [("/m",) + c for n in ((1, 2, 3) if ck.quick else (1, 2, 3, 4, 5, 6)) for c in itertools.combinations(MOUNTS[1:], n)] + [tuple(MOUNTS)], ("given", "reversed")), many_mounts)
    ck.enum("lives of a file", lambda: ((k, s, r, p) for k in KINDS for s in (None, "", "old") for r in ("api", "shell") for n in range(1, (4 if r == "shell" or k == "fs" else 5) + (not ck.quick)) for p in itertools.product(LIFE, repeat=n)), life, "every sequence of writes, appends, touches, removals, external edits and syncs of one file")
    ck.enum("large", lambda: itertools.product(KINDS, (1, 3, 17, 40, 120), ("wide", "deep"), (1, 2, 5)), large)
    ck.finding("C11-cp-mv", finding)
    ck.assume("histories that remove a mount point and put a file in its place are not explored")
    ck.assume("external edits of on-disk files always have a new modification time")

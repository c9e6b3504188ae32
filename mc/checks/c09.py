"""C09: versions count writes; optimistic checks never lose an update."""
import itertools

from ..canon import digest
from ..engine import Spec, Violation, equal, need
from ..env import MemoryStorageAdapter, SandboxError, SandboxShell, VirtualFileSystem
from ..fsops import do_ref, do_shell, do_vfs, setup
from ..parts import DirProvider, FileProvider, W, clone
from ..refmodel import Refused, dump_vfs, fmt

TREES = {
    "empty": [],
    "some": [("/a", "1"), ("/d", None), ("/d/b", "2"), ("/c", "3")],
}


class Versions(Spec):
    """All histories of plain and conditional operations against a version-counting reference."""

    def __init__(self, inits, acts):
        self.inits, self.acts = inits, acts

    def make(self, init):
        tree, store, index = init
        w = W()
        w.vfs, w.ref = setup(TREES[tree])
        if store:
            w.adapter = MemoryStorageAdapter({"b": "2", "s": "4"})
            w.vfs.mount_storage("/d", w.adapter)
            for t in list(w.ref.nodes):
                if t[:1] == ("d",) and len(t) > 1:
                    del w.ref.nodes[t]
            for name, text in (("b", "2"), ("s", "4")):
                w.ref.write("/d/" + name, text)
                w.ref.nodes[("d", name)].version = 0
        if index:
            w.vfs.enable_full_text_index()
        w.shell = SandboxShell(w.vfs)
        w.store = store
        w.crossed = False
        return w

    def actions(self, w):
        # a copy or move across the border of a mount ends the history (see the findings of C11)
        return [] if w.crossed else self.acts

    def step(self, w, a):
        if w.store and a[0] in ("cp", "cpr", "mv"):
            w.crossed = True
        if a[0] == "see":
            # things that do not modify files
            sh = w.shell
            for line in ("cat /a", "ls /", "tree", "rg 1 /", "search 1", "find /", "stat /a", "wc /a", "cd /"):
                sh.exec(line)
            w.vfs.snapshot()
            if a[1] == "restore":
                w.vfs.restore(w.vfs.snapshot())
            elif a[1] == "index":
                w.vfs.enable_full_text_index()
            return "ok"
        if a[0] == "sh":
            want = do_ref(w.ref, a[1])
            got = do_shell(w.shell, a[1])
        else:
            want = do_ref(w.ref, a)
            if a[0] in ("write", "append", "writev", "appendv"):
                got = self.returned(w, a)
            else:
                got = do_vfs(w.vfs, a)
        equal(got, want, "outcome of %s" % (a,))
        return want

    def returned(self, w, a):
        kw = {"expected_version": a[3]} if a[0].endswith("v") else {}
        try:
            fn = w.vfs.write_file if a[0].startswith("write") else w.vfs.append_file
            node = fn(a[1], a[2], **kw)
        except SandboxError:
            return "err"
        equal(node.version, w.vfs.get_version(a[1]), "version of the returned node")
        return "ok"

    def key(self, w):
        return digest(w.vfs, w.crossed)

    def observe(self, w):
        got = {p: r[2] for p, r in dump_vfs(w.vfs).items() if r[0] == "f"}
        want = {fmt(t): n.version for t, n in w.ref.nodes.items() if n.kind == "f"}
        equal(got, want, "file versions")
        for p in want:
            equal(w.vfs.get_version(p), want[p], "get_version(%s)" % p)
            if w.vfs.get_policy(p).readable:
                equal(w.vfs.read_file(p), w.ref.nodes[w.ref.norm(p)].content, "content of " + p)


PROGRAMS = {
    "rmw": ["read", "cas"],
    "rmw2": ["read", "cas", "read", "cas"],
    "rma": ["read", "casa"],
    "blind": ["append"],
    "create": ["cas0"],
    "remove": ["rm"],
    "touch": ["touch", "read", "cas"],
    "move": ["mv"],
    "replace": ["cp", "read", "cas"],
    "sync": ["sync", "read", "cas"],
    "sync2": ["sync", "read", "cas", "sync", "read", "cas"],
    "overwrite": ["write"],
}


class Clients(Spec):
    """Every interleaving of clients that read a version and later write with it."""

    def __init__(self, inits):
        # a copy to a new name starts at version 0, like a file that does not exist: not such a client
        self.inits = [i for i in inits if i[1] or "replace" not in i[2]]
        self.inits = [i for i in self.inits if not ("replace" in i[2] and ("remove" in i[2] or "move" in i[2]))]

    def make(self, init):
        where, exists, progs = init
        w = W()
        w.progs = progs
        w.pc = [0] * len(progs)
        w.local = [None] * len(progs)
        w.path = "/m/f"
        n = 2 if where == "shared" else 1
        store = where in ("store", "shared")
        w.adapter = MemoryStorageAdapter({"f": "0"} if exists else {}) if store else None
        w.vfss = []
        for _ in range(n):
            v = VirtualFileSystem()
            v.mkdir("/m")
            v.write_file("/src", "src")
            if store:
                v.mount_storage("/m", w.adapter)
            elif exists:
                v.write_file(w.path, "0")
            w.vfss.append(v)
        w.version0 = w.vfss[0].get_version(w.path) if exists else 0
        w.content = "0" if exists else None
        w.version = w.version0 if exists else None
        w.superseded = set()
        w.epoch = 0
        return w

    def actions(self, w):
        return [("run", i, w.progs[i], PROGRAMS[w.progs[i]][w.pc[i]]) for i in range(len(w.progs))
                if w.pc[i] < len(PROGRAMS[w.progs[i]])]

    def step(self, w, a):
        i = a[1]
        op = PROGRAMS[w.progs[i]][w.pc[i]]
        w.pc[i] += 1
        v = w.vfss[i % len(w.vfss)]
        shared = len(w.vfss) > 1
        if op == "read":
            if v.is_file(w.path):
                w.local[i] = (v.get_version(w.path), v.read_file(w.path))
            else:
                w.local[i] = (0, None)
            return "read"
        if op == "sync":
            v.sync_storage("/m")
            return "sync"
        if op == "touch":
            existed = v.is_file(w.path)
            v.touch(w.path)
            if not existed:
                w.content, w.version = "", 1
            return "touch"
        if op == "rm":
            try:
                v.remove(w.path)
            except SandboxError:
                need(w.content is None, "remove of an existing file refused")
                return "err"
            w.content = w.version = None
            w.epoch += 1
            return "rm"
        if op == "mv":
            try:
                v.move(w.path, "/elsewhere")
            except SandboxError:
                return "err"
            w.content = w.version = None
            w.epoch += 1
            return "mv"
        if op == "cp":
            try:
                v.copy("/src", w.path)
            except SandboxError:
                return "err"
            w.content, w.version = "src", (0 if w.version is None else w.version + 1)
            return "cp"
        mark = "<%d.%d>" % (i, w.pc[i])
        if op in ("append", "write"):
            try:
                (v.append_file if op == "append" else v.write_file)(w.path, mark)
            except SandboxError:
                need(shared, "%s refused", op)
                return "refused"
            if shared and v.get_version(w.path) != (w.version or 0) + 1:
                raise Violation("a stale plain %s was accepted by the storage" % op)
            w.content = (w.content or "") + mark if op == "append" else mark
            w.version = (w.version or 0) + 1
            return op
        expected, seen = (0, None) if op == "cas0" else (w.local[i] or (0, None))
        current = w.version or 0
        try:
            if op == "casa":
                v.append_file(w.path, mark, expected_version=expected)
            else:
                v.write_file(w.path, (seen or "") + mark, expected_version=expected)
        except SandboxError:
            need(expected != current or shared and v_stale(v, w, current),
                 "client %d: write with the current version %d was refused", i, expected)
            self.same(w, v, shared)
            return "refused"
        need(expected == current, "client %d wrote with version %d although the current version is %d", i, expected, current)
        key = (w.epoch, expected)
        need(key not in w.superseded, "version %d was superseded twice", expected)
        w.superseded.add(key)
        removed = "remove" in w.progs or "move" in w.progs  # versions start again with a new file
        if op == "cas" and not removed and (w.content or "") != (seen or ""):
            raise Violation("client %d overwrote %r having seen %r: a lost update" % (i, w.content, seen))
        w.content = (w.content or "") + mark if op == "casa" else (seen or "") + mark
        w.version = current + 1
        return "accepted"

    def same(self, w, v, shared):
        if not shared:
            self.observe(w)

    def key(self, w):
        return digest(w.vfss, w.adapter, w.pc, w.local, w.progs, w.version, w.content)

    def observe(self, w):
        if w.adapter is not None and "mv" not in [PROGRAMS[p][0] for p in w.progs] and not any("cp" in PROGRAMS[p] for p in w.progs):
            e = w.adapter.list().get("f")
            equal((e.version, e.content) if e else (None, None), (w.version, w.content), "version and content in storage")
        if len(w.vfss) == 1:
            v = w.vfss[0]
            if w.content is None:
                need(not v.exists(w.path), "%s exists", w.path)
            else:
                equal((v.get_version(w.path), v.read_file(w.path)), (w.version, w.content), "version and content")


def v_stale(v, w, current):
    return (v.get_version(w.path) if v.is_file(w.path) else 0) != current


def counted(case):
    """A file after k writes: which expected versions are accepted, and what they leave behind."""
    k, how, store, texts = case
    v = VirtualFileSystem()
    v.mkdir("/m")
    ad = MemoryStorageAdapter({}) if store else None
    if store:
        v.mount_storage("/m", ad)
    before = None
    for i in range(k):
        t = texts[i % len(texts)]
        if how[i % len(how)] == "w":
            v.write_file("/m/f", t)
            before = t
        else:
            v.append_file("/m/f", t)
            before = (before or "") + t
        equal(v.get_version("/m/f"), i + 1, "version after %d writes (%s)" % (i + 1, how))
    base = (v, ad)
    for e in EXPECT + [k - 1, k, k + 1]:
        for op in ("write_file", "append_file"):
            v, ad = clone(base)
            content = before
            try:
                getattr(v, op)("/m/f", "Z", expected_version=e)
                ok = True
            except SandboxError:
                ok = False
            need(ok == (e == k), "%s with expected version %d on version %d was %s", op, e, k, "accepted" if ok else "refused")
            if ok:
                content = "Z" if op == "write_file" else (content or "") + "Z"
            if content is None:
                need(not v.exists("/m/f"), "a refused write created the file")
            else:
                equal((v.read_file("/m/f"), v.get_version("/m/f")), (content, k + ok), "after %s expecting %d on version %d" % (op, e, k))
            if store:
                st = ad.list().get("f")
                equal((st.content, st.version) if st else (None, None), (content, k + ok) if content is not None else (None, None), "in storage")
    return k


EXPECT = [-(2 ** 31), -10, -2, -1, 0, 1, 2, 3, 9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 2 ** 31, 2 ** 64]

PATHS = ["/a", "/d/b", "/n"]


def acts(paths, vs, sh=True):
    out = []
    for p in paths:
        out += [("write", p, "w"), ("append", p, "a"), ("touch", p), ("rm", p)]
        if sh:
            out += [("append", p, ""), ("write", p, ""), ("writev", p, "", 1), ("appendv", p, "", 1), ("write", p, "1")]
        out += [("writev", p, "v", n) for n in vs] + [("appendv", p, "u", n) for n in vs]
        if sh:
            out += [("sh", ("write", p, "s")), ("sh", ("append", p, "t"))]
    return out


COPIES = [("cp", "/a", "/d/b"), ("cp", "/d/b", "/a"), ("mv", "/a", "/n"), ("cpr", "/d", "/e"), ("mv", "/d", "/e"), ("cp", "/a", "/n"),
          ("mv", "/n", "/a"), ("see", ""), ("see", "restore"), ("see", "index"), ("rmr", "/d")]

CROSS = [("mv", "/a", "/d/n"), ("mv", "/d/b", "/n"), ("mv", "/d/b", "/a"), ("cp", "/a", "/d/n"), ("cp", "/d/b", "/n"), ("mv", "/d", "/e"), ("mv", "/a", "/d"),
         ("cpr", "/d", "/e"), ("mv", "/d/s", "/d/t")]


def run(ck):
    local = ["rmw", "rmw2", "rma", "blind", "create", "remove", "touch", "overwrite", "move", "replace"]
    stored = ["rmw", "rmw2", "rma", "blind", "create", "remove", "touch", "overwrite"]
    combos = lambda names, n: list(itertools.combinations_with_replacement(names, n))  # noqa: E731
    if ck.quick:
        ck.bfs("histories", Versions([("some", False, False), ("empty", False, True)], acts(PATHS, (0, 1, 2, 3)) + COPIES), 3)
        ck.bfs("histories, storage", Versions([("some", True, False)], acts(["/d/b", "/d/n", "/a"], (0, 1, 2)) + COPIES[7:10] + CROSS), 3)
        ck.bfs("clients", Clients([("plain", e, p) for e in (True, False) for p in combos(local, 2) + combos(["rmw", "rma", "blind", "rmw2"], 3)] +
                                  [("store", e, p) for e in (True, False) for p in combos(stored, 2)]), 12)
        ck.bfs("clients, two filesystems", Clients([("shared", True, p) for p in itertools.product(["rmw", "rmw2", "sync", "sync2", "blind"], repeat=2)] +
                                                   [("shared", True, p) for p in itertools.product(["rmw", "sync"], repeat=3)]), 16)
    else:
        ck.bfs("histories", Versions([("some", False, False), ("empty", False, True)], acts(PATHS, (0, 1, 2, 3)) + COPIES), 4)
        ck.bfs("histories, storage", Versions([("some", True, False)], acts(["/d/b", "/d/n", "/a"], (0, 1, 2)) + COPIES[7:10] + CROSS), 4)
        ck.bfs("clients", Clients([("plain", e, p) for e in (True, False) for p in combos(local, 2) + combos(local, 3) + combos(["rmw", "rma", "rmw2"], 4)] +
                                  [("store", e, p) for e in (True, False) for p in combos(stored, 2) + combos(stored, 3)]), 20)
        ck.bfs("clients, two filesystems", Clients([("shared", True, p) for n in (2, 3, 4) for p in itertools.product(["rmw", "sync", "sync2", "blind"], repeat=n)]), 24)
    ck.enum("counting", lambda: [(k, how, st, t) for k in list(range(0, 13)) + [99, 127, 128, 255, 256, 257] for how in ("w", "a", "wa", "aaw")
                                 for st in (False, True) for t in (("x",), ("", "y"), ("same",))], counted)
    ck.assume("entries found in storage and copies under a new name start at version 0, so a client that saw no file there "
              "cannot tell them from a missing file; such clients are not part of the interleavings")
    ck.assume("copying over an existing file counts as one write of it; a removed file starts again at version 0")

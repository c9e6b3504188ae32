"""C08: restore brings back exactly the snapshotted filesystem."""
from ..canon import digest
from ..engine import Spec, Violation, equal, need
from ..env import MemoryStorageAdapter, SandboxError, SandboxShell, SearchQuery
from ..fsops import diff, do_vfs, setup
from ..parts import DirProvider, FileProvider, W, clone, times
from ..refmodel import PUB, dump_vfs, pol_obj

RO = (True, False, False, "public", ())
AO = (True, True, True, "secret", ("ann",))
NR = (False, True, False, "public", ("ann",))
OPEN = (True, True, False, "mark", ("bob",))


def capture(w):
    """Everything a user can observe, as plain data."""
    vfs = w.vfs
    d = dump_vfs(vfs)
    d = {p: r for p, r in d.items() if not p.startswith("/@search/")}
    t = {p: x for p, x in times(vfs).items() if p in d}
    hits = {}
    for q in ("KEY", "new"):
        hits[q] = sorted((str(r.path), r.line_no, r.line_text) for r in vfs.search(SearchQuery(q)))
    sv = {}
    if w.searchview and vfs.is_dir("/@search"):
        sh = SandboxShell(vfs)
        r = sh.exec("tree '/@search?q=KEY'")
        sv["tree"] = (r.exit_code, r.stdout)
    return dict(nodes=d, times=t, pwd=vfs.pwd(), hits=hits, view=sv, order=tree_order(vfs))


def tree_order(vfs):
    try:
        return vfs.tree("/")
    except SandboxError:
        return None


def dynamic(w):
    """Paths whose content follows the provider, found by changing what the provider says."""
    v = clone(w)
    a = dump_vfs(v.vfs)
    for p in v.provs:
        p.text = "changed KEY"
    b = dump_vfs(v.vfs)
    return {p for p in a if a[p][1] != b[p][1] and not p.startswith("/@search/")}


def mounted(w):
    """For some directories: which adapter a new file written there reaches."""
    v = clone(w)
    v.vfs.root.policy.writable = True
    out = {}
    for i, d in enumerate(("/m", "/m/sub", "/s2", "/d", "/pd2")):
        if v.vfs.is_file(d):
            continue
        if v.vfs.is_dir(d):
            v.vfs.set_policy(d, pol_obj(PUB))
        old = [set(a.list()) for a in v.adapters]
        try:
            v.vfs.mkdir(d, parents=True, exist_ok=True)
            v.vfs.write_file("%s/probe%d" % (d, i), "probe")
        except SandboxError as exc:
            raise Violation("cannot write %s/probe after the history: %s" % (d, exc))
        out[d] = [sorted(set(a.list()) - o) for a, o in zip(v.adapters, old)]
    return out


class Snaps(Spec):
    def __init__(self, inits, acts, rich=True):
        self.inits, self.acts, self.rich = inits, acts, rich

    def make(self, init):
        w = W()
        kind, index = init
        ents = [("/d", None, PUB, (("k", "1"),)), ("/d/f", "KEY one\nold\n", PUB, (("k", "2"),)), ("/r", None, RO), ("/r/x", "KEY ro\n", RO),
                ("/r/sub", None, RO), ("/a", "KEY app\n", AO), ("/nr", "KEY nr\n", NR), ("/e", None, OPEN), ("/e/g", "g", OPEN)]
        w.vfs, _ = setup(ents)
        w.vfs.root.metadata["rootmeta"] = "1"
        w.provs = [FileProvider("KEY dynamic"), FileProvider("KEY nested")]
        w.adapters = [MemoryStorageAdapter({"e": "KEY stored", "sub/g": "KEY deep"}), MemoryStorageAdapter({"z": "KEY s2"})]
        w.searchview = False
        if kind == "rich":
            w.vfs.mount_file("/dyn", w.provs[0], metadata={"dm": "1"})
            w.vfs.mount_directory("/pd", DirProvider({"u": "KEY u", "v": {"w": "KEY w", "x": w.provs[1]}}), metadata={"pm": "1"})
            w.vfs.mount_storage("/m", w.adapters[0])
            w.vfs.enable_search_view()
            w.searchview = True
        if index:
            w.vfs.enable_full_text_index()
        w.snaps = {}
        return w

    def actions(self, w):
        return self.acts

    def step(self, w, a):
        vfs = w.vfs
        op = a[0]
        if op == "snap":
            before = capture(w)
            s = vfs.snapshot()
            after = capture(w)
            self.same(after, before, "taking a snapshot changed the filesystem")
            w.snaps[a[1]] = (s, before, dynamic(w), mounted(w))
            return "ok"
        if op == "restore":
            if a[1] not in w.snaps:
                return "none"
            s, want, dyn, mounts = w.snaps[a[1]]
            try:
                vfs.restore(s)
            except Exception as exc:
                raise Violation("restore raised %s: %s" % (type(exc).__name__, exc))
            want = dict(want)
            if want["nodes"].get(want["pwd"], ("f",))[0] != "d":
                want["pwd"] = "/"
            self.same(capture(w), want, "after restore")
            equal(dynamic(w), dyn, "provider-backed files after restore")
            equal(mounted(w), mounts, "storage mounts after restore")
            return "ok"
        try:
            if op == "mountfile":
                vfs.mount_file(a[1], w.provs[0])
            elif op == "mountdir":
                vfs.mount_directory(a[1], DirProvider({"n": "KEY n"}))
            elif op == "mount":
                vfs.mount_storage(a[1], w.adapters[a[2]])
            elif op == "sync":
                vfs.sync_storage(a[1])
            elif op == "ext":
                w.adapters[0].delete("e")
                w.adapters[0].write("e", "KEY external", version=7)
            elif op == "index":
                vfs.enable_full_text_index()
            elif op == "query":
                SandboxShell(vfs).exec("cat '/@search?q=KEY/d/f'")
            elif op == "read":
                dump_vfs(vfs)
            elif op == "rootpol":
                vfs.set_policy("/", pol_obj(RO))
            else:
                return do_vfs(vfs, a)
        except SandboxError:
            return "err"
        return "ok"

    def same(self, got, want, what):
        for k in want:
            if got[k] != want[k]:
                if isinstance(want[k], dict):
                    raise Violation("%s: %s differ: %s" % (what, k, diff(got[k], want[k])))
                raise Violation("%s: %s: got %r, expected %r" % (what, k, got[k], want[k]))

    def key(self, w):
        return digest(w.vfs, w.snaps, [a.list() for a in w.adapters])


SNAP = [("snap", 1), ("snap", 2), ("restore", 1), ("restore", 2)]
EDITS = [("write", "/d/f", "new KEY"), ("append", "/a", "new"), ("rm", "/d/f"), ("rmr", "/d"), ("mv", "/d", "/e"), ("cpr", "/d", "/d2"),
         ("mkdirp", "/new/dir"), ("write", "/new/f", "KEY new"), ("setpol", "/r", OPEN), ("setpol", "/d/f", RO), ("setpol", "/nr", PUB),
         ("polin", "/d/f"), ("polin", "/r"), ("meta", "/d/f", "k", "9"), ("meta", "/", "k", "9"), ("meta", "/d", "z", "9"), ("touch", "/d/f"), ("cd", "/d"), ("cd", "/r/sub"),
         ("rootpol",), ("index",)]
RICH = [("write", "/m/e", "new KEY"), ("rm", "/m/e"), ("write", "/m/n", "KEY new"), ("rmr", "/m"), ("mount", "/s2", 1), ("mount", "/m", 1),
        ("sync", "/m"), ("ext",), ("write", "/dyn", "static"), ("append", "/dyn", "+"), ("rm", "/dyn"), ("rmr", "/pd/v"), ("rmr", "/pd"), ("write", "/pd/u", "new"),
        ("mountfile", "/d/f"), ("mountdir", "/pd2"), ("mountdir", "/d"), ("query",), ("read",), ("rmr", "/@search"), ("write", "/pd/v/x", "s")]
CORE = [("write", "/d/f", "new KEY"), ("rmr", "/d"), ("mv", "/d", "/e"), ("polin", "/d/f"), ("polin", "/r"), ("meta", "/d/f", "k", "9"), ("cd", "/d"),
        ("write", "/new/f", "KEY new"), ("setpol", "/r", OPEN), ("touch", "/d/f")]


class Views(Spec):
    """Search views that are switched on, moved to another place or absent when a snapshot is taken and when it is restored."""
    PLACES = ("/@search", "/q", "/d/v")

    def __init__(self, depth_acts):
        self.inits = [(v, i) for v in (None, "/@search", "/q") for i in (0, 1)]
        self.acts = depth_acts

    def make(self, init):
        view, index = init
        w = W()
        w.vfs, _ = setup([("/d", None), ("/d/f", "KEY f"), ("/g", "KEY g")])
        if index:
            w.vfs.enable_full_text_index()
        if view:
            w.vfs.enable_search_view(view)
        w.snaps = {}
        return w

    def actions(self, w):
        return self.acts

    def sees(self, w):
        """What queries show at every place, and whether files written there are found."""
        out = {}
        for p in self.PLACES:
            v = clone(w)
            sh = SandboxShell(v.vfs)
            for line in ("tree '%s?q=KEY'" % p, "cat '%s?q=KEY/g'" % p, "ls '%s?q=KEY&path=/d'" % p, "ls '%s'" % p):
                r = sh.exec(line)
                out[line] = (r.exit_code == 0, r.stdout)
            v = clone(w)
            if not v.vfs.is_dir(p):
                do_vfs(v.vfs, ("mkdirp", p))
            do_vfs(v.vfs, ("write", p + "/probe", "KEY probe"))
            out[p] = sorted(str(r.path) for r in v.vfs.search(SearchQuery("KEY")))
        out["tree"] = sorted(dump_vfs(w.vfs))
        return out

    def step(self, w, a):
        op = a[0]
        if op == "snap":
            before = self.sees(w)
            w.snaps[a[1]] = (w.vfs.snapshot(), before)
            equal(self.sees(w), before, "search views after taking a snapshot")
            return "ok"
        if op == "restore":
            if a[1] not in w.snaps:
                return "none"
            s, want = w.snaps[a[1]]
            w.vfs.restore(s)
            equal(self.sees(w), want, "search views after restore")
            return "ok"
        if op == "view":
            w.vfs.enable_search_view(a[1])
            return "ok"
        if op == "query":
            SandboxShell(w.vfs).exec("tree '%s?q=KEY'" % a[1])
            return "ok"
        return do_vfs(w.vfs, a)

    def key(self, w):
        return digest(w.vfs, w.snaps)


def check_many(case):
    """Many snapshots of one history, restored in some order, each of them twice."""
    kind, ops, order = case
    spec = Snaps([], [])
    w = spec.make((kind, True))
    out = []
    for i, op in enumerate(ops):
        spec.step(w, ("snap", i))
        out.append(spec.step(w, op))
    n = len(ops)
    for i in {"back": range(n - 1, -1, -1), "forth": range(n), "mixed": [(5 * i + 2) % n for i in range(n)]}[order]:
        spec.step(w, ("restore", i))
        if i % 2:
            spec.step(w, ops[(i + 1) % n])
        spec.step(w, ("restore", i))
    return out


def many():
    for kind, acts in (("plain", EDITS), ("rich", RICH + EDITS[:8])):
        for n in (7, 12, 24):
            for start in range(0, len(acts), 2):
                for step in (1, 5):
                    yield kind, [acts[(start + step * i) % len(acts)] for i in range(n)], ("back", "forth", "mixed")[(start + step) % 3]


def check_large(case):
    """Wide and deep trees."""
    wide, deep, index = case
    w = W()
    w.searchview = False
    ents = [("/w/n%03d" % i, "KEY %d" % i, (PUB, RO, AO)[i % 3], (("k", str(i)),)) for i in range(wide)]
    path = ""
    for i in range(deep):
        path += "/l%d" % i
        ents.append((path + "/f", "KEY deep %d" % i))
    w.vfs, _ = setup([("/d", None)] + ents)
    if index:
        w.vfs.enable_full_text_index()
    if deep:
        w.vfs.cd(path)
    before = capture(w)
    s = w.vfs.snapshot()
    spec = Snaps([], [])
    for i in range(0, wide, 2):
        do_vfs(w.vfs, ("write", "/w/n%03d" % i, "new"))
        w.vfs.get_node("/w/n%03d" % i).metadata["k"] = "changed"
        w.vfs.get_policy("/w/n%03d" % i).writable = True
    do_vfs(w.vfs, ("rmr", "/l0"))
    do_vfs(w.vfs, ("mv", "/w", "/v"))
    changed = capture(w)
    t = w.vfs.snapshot()
    w.vfs.restore(s)
    spec.same(capture(w), before, "after restoring %d wide and %d deep" % (wide, deep))
    w.vfs.restore(t)
    if changed["nodes"].get(changed["pwd"], ("f",))[0] != "d":
        changed["pwd"] = "/"
    spec.same(capture(w), changed, "after restoring the later snapshot")
    w.vfs.restore(s)
    spec.same(capture(w), before, "after restoring once more")
    return wide, deep


def run(ck):
    import itertools
    ck.enum("many snapshots", many, check_many, "histories of 7 to 24 steps with a snapshot before every step, restored in three orders")
    ck.enum("large trees", lambda: itertools.product((0, 1, 16, 40, 130), (0, 1, 9, 30), (0, 1)), check_large)
    views = [("snap", 1), ("restore", 1), ("view", "/@search"), ("view", "/q"), ("view", "/d/v"), ("query", "/q"), ("query", "/@search"), ("write", "/d/f", "new"), ("write", "/q/n", "KEY n"), ("rmr", "/q"), ("rmr", "/d")]
    ck.bfs("search views", Views(views if ck.quick else views + [("snap", 2), ("restore", 2)]), 3 if ck.quick else 4)
    if ck.quick:
        ck.bfs("plain", Snaps([("plain", False), ("plain", True)], SNAP[::2] + EDITS), 3)
        ck.bfs("rich", Snaps([("rich", False), ("rich", True)], SNAP[::2] + RICH + EDITS[::4]), 3)
        ck.bfs("two slots", Snaps([("plain", True)], SNAP + CORE[:6]), 5)
    else:
        ck.bfs("plain", Snaps([("plain", False), ("plain", True)], SNAP[::2] + EDITS), 4)
        ck.bfs("rich", Snaps([("rich", False), ("rich", True)], SNAP[::2] + RICH + EDITS[::4]), 4)
        ck.bfs("two slots", Snaps([("plain", True), ("rich", False)], SNAP + CORE), 5)
    ck.assume("metadata values are treated as immutable; the contents of storage adapters are not rolled back by a restore")

"""C13: the on-disk adapter and exports stay inside their root and preserve text."""
import itertools
import os
import tempfile
from pathlib import Path

from ..engine import equal, need
from ..env import FileSystemAdapter, ProvidedNode, SandboxError, VirtualFileSystem
from ..parts import DirProvider, FileProvider
from ..storage import remove, scratch
from ..values import GLOBBY, NAMES as ODD, PAIRS, TEXTS

PARTS = ["..", ".", "", "d", "in", "lin", "lout", "lfile", "ldang", "root", "rootx", "secret", "new", "dd"]
CORE = ["..", "d", "in", "lout", "lfile", "ldang", "root", "secret", "new"]
OUT = "OUTSIDE"


def lay(base):
    """root/ is the adapter's root, everything else in base is outside."""
    j = os.path.join
    for d in ("root/d/dd", "rootx/d", "outdir/d"):
        os.makedirs(j(base, d))
    for f in ("secret", "rootx/in", "rootx/d/in", "outdir/in", "outdir/d/in", "in", "new"):
        put(j(base, f), OUT)
    for f in ("root/in", "root/d/in", "root/d/dd/in"):
        put(j(base, f), "inside " + f)
    os.symlink("d", j(base, "root/lin"))
    os.symlink("../outdir", j(base, "root/lout"))
    os.symlink(j(base, "secret"), j(base, "root/lfile"))
    os.symlink("../created", j(base, "root/ldang"))
    os.symlink("../../outdir/in", j(base, "root/d/lfile"))
    os.symlink("../../rootx", j(base, "root/d/lout"))
    os.symlink("root", j(base, "rootlink"))
    os.symlink("in", j(base, "root/d/lin"))


def put(path, text):
    with open(path, "w") as f:
        f.write(text)


def state(base, skip="root"):
    """Everything in base except the adapter's root (or everything in it)."""
    out = {}
    for d, dirs, files in os.walk(base):
        r = os.path.relpath(d, base)
        if r == "." and skip:
            dirs[:] = [x for x in dirs if x != skip]
        for n in dirs + files:
            p = os.path.join(d, n)
            rel = os.path.normpath(os.path.join(r, n))
            if os.path.islink(p):
                out[rel] = "-> " + os.readlink(p)
            elif os.path.isdir(p):
                out[rel] = "dir"
            else:
                with open(p, "rb") as f:
                    out[rel] = f.read()
    return out


class Box:
    base = None
    want = None


def box(fresh):
    """A scratch area per worker, rebuilt when the previous case changed it."""
    if Box.base is None or fresh or not os.path.isdir(Box.base):
        if Box.base:
            remove(Box.base)
        Box.base = scratch("mc13-")
        os.chmod(Box.base, 0o755)
        lay(Box.base)
        Box.want = state(Box.base)
        Box.inner = state(os.path.join(Box.base, "root"), None)
        import atexit
        atexit.register(remove, Box.base)
    return Box.base


def check_path(case):
    path, root = case
    outcome = []
    for op in ("read", "write", "delete", "again"):
        base = box(False)
        if path.startswith("@"):
            path = base + path[1:]
        ad = FileSystemAdapter(Path(base) / root)
        target = os.path.realpath(os.path.join(base, "root", path.lstrip("/")))
        inside = target == base + "/root" or target.startswith(base + "/root/")
        before = state(base)
        try:
            if op == "read":
                res = ad.read(path)
                need(inside, "read(%r) outside the root gave %r", path, res)
                with open(target) as f:
                    equal(res.content, f.read(), "read(%r)" % path)
            elif op == "write":
                version = 0
                ad.write(path, "WRITTEN", version=version)
                need(inside, "write(%r) outside the root was accepted", path)
                with open(target) as f:
                    equal(f.read(), "WRITTEN", "file written by write(%r)" % path)
                equal(ad.read(path).content, "WRITTEN", "read after write(%r)" % path)
            elif op == "delete":
                ad.delete(path)
                need(inside, "delete(%r) outside the root was accepted", path)
                need(not os.path.lexists(target) , "delete(%r) left %s", path, target)
            else:
                listing = ad.list()
                for k, e in listing.items():
                    need(OUT not in e.content, "list() contains outside content at %r", k)
                    need(not k.startswith(("/", "..")), "list() contains %r", k)
                v = VirtualFileSystem()
                v.mount_storage("/m", ad)
                for p, n in v.walk("/m"):
                    need(not v.is_file(p) or OUT not in v.read_file(p), "%s shows outside content", p)
                res = "list"
            outcome.append("ok")
        except (ValueError, OSError, SandboxError) as exc:
            outcome.append(type(exc).__name__)
            if op == "write" and inside and os.path.dirname(target) == base + "/root" and not os.path.isdir(target) \
                    and not path.startswith("//") and "//" not in path:
                # plain names directly in the root are always writable
                if set(path.split("/")) <= {"new", "in"}:
                    raise
        now = state(base)
        need(now == before, "%s(%r) changed files outside the root: %r", op, path, sorted(set(now.items()) ^ set(before.items())))
        if state(os.path.join(base, "root"), None) != Box.inner:
            box(True)
    return outcome


def vfs_path(case):
    """The same through a mounted filesystem."""
    op, path = case
    base = box(False)
    before = state(base)
    v = VirtualFileSystem()
    v.mount_storage("/m", FileSystemAdapter(Path(base) / "root"))
    out = "ok"
    try:
        getattr(v, op)(*(("/m/" + path, "V") if op in ("write_file", "append_file") else ("/m/" + path,)))
    except (SandboxError, OSError) as exc:
        out = type(exc).__name__
    now = state(base)
    need(now == before, "%s(%r) changed files outside the root: %r", op, path, sorted(set(now.items()) ^ set(before.items())))
    if state(os.path.join(base, "root"), None) != Box.inner:
        box(True)
    return out


ALPHA = ["a", "\n", "\r", "\u00e9", "\U0001d11e", " ", "\t", "\u2028", "\ufeff", "\x00", "\x0b"]


def check_text(text):
    base = scratch("mc13-")
    try:
        root = os.path.join(base, "r")
        ad = FileSystemAdapter(root)
        ad.write("f", text, version=0)
        with open(os.path.join(root, "f"), "rb") as f:
            equal(f.read(), text.encode(), "bytes on disk for %r" % text)
        equal(ad.read("f").content, text, "adapter read of %r" % text)
        equal(ad.list()["f"].content, text, "adapter list of %r" % text)
        v = VirtualFileSystem()
        v.mount_storage("/m", FileSystemAdapter(Path(root)))
        equal(v.read_file("/m/f"), text, "mounted text")
        v.append_file("/m/f", text)
        v.write_file("/m/s/g", text)
        equal(FileSystemAdapter(Path(root)).read("f").content, text + text, "appended text")
        v.sync_storage("/m")
        equal((v.read_file("/m/f"), v.read_file("/m/s/g")), (text + text, text), "text after sync")
        out = os.path.join(base, "x")
        v.export_to_path(Path(out), source="/")
        with open(os.path.join(out, "m", "s", "g"), "rb") as f:
            equal(f.read(), text.encode(), "exported bytes for %r" % text)
        old, tempfile.tempdir = tempfile.tempdir, base
        try:
            with v.materialize("/m") as p:
                with open(os.path.join(p, "s", "g"), "rb") as f:
                    equal(f.read(), text.encode(), "materialised bytes for %r" % text)
        finally:
            tempfile.tempdir = old
        equal(sorted(os.listdir(base)), ["r", "x"], "scratch directory after materialize")
    finally:
        remove(base)
    return len(text)


NAMES = ["...", " ", "-rf", "a b", "\u00e9", ".h", "..x", "x..", "a\\b", "~", "*", "$HOME", "%2e%2e", "c:d", "a\tb", "..\\x", "tmp", "etc"]
BADNAMES = ["..", ".", "", "a/b", "/abs", "../esc", "x/../../esc", "./x", "a/"]


def export_names(case):
    """Trees with every pair of unusual names, exported and materialised."""
    n1, n2, shape = case
    base = scratch("mc13-")
    old = tempfile.tempdir
    try:
        put(os.path.join(base, "guard"), OUT)
        tempfile.tempdir = os.path.join(base, "tmp")
        os.mkdir(tempfile.tempdir)
        v = VirtualFileSystem()
        want = {}
        if shape == "file":
            v.write_file("/t/" + n1, "1")
            want = {n1: b"1"}
        elif shape == "nested":
            v.write_file("/t/%s/%s" % (n1, n2), "1")
            want = {n1: "dir", n1 + "/" + n2: b"1"}
        elif shape == "empty":
            v.mkdir("/t/%s/%s" % (n1, n2), parents=True)
            want = {n1: "dir", n1 + "/" + n2: "dir"}
        elif shape == "moved":
            v.write_file("/t/f", "1")
            v.move("/t/f", "/t/" + n1)
            v.copy("/t/" + n1, "/t/c" + n2)
            want = {n1: b"1", "c" + n2: b"1"}
        elif shape == "provided":
            v.mount_directory("/t", DirProvider({n1: "1", "ok": {n2: "2"}}))
            want = {n1: b"1", "ok": "dir", "ok/" + n2: b"2"}
        tree = {}
        failed = None
        try:
            for p, n in v.walk("/t"):
                if str(p) != "/t":
                    tree[str(p)[3:]] = "dir" if v.is_dir(p) else v.read_file(p).encode()
            v.export_to_path(Path(base) / "target", source="/t")
        except SandboxError as exc:
            failed = str(exc)
        bad = shape == "provided" and (n1 in BADNAMES or n2 in BADNAMES)
        if bad:
            need(failed is not None, "provided names %r, %r were accepted", n1, n2)
        else:
            need(failed is None, "export failed: %s", failed)
            equal(tree, want, "the tree to export")
            equal(state(os.path.join(base, "target"), None), want, "exported files")
        equal(sorted(set(os.listdir(base)) - {"target"}), ["guard", "tmp"], "files beside the export target")
        need(state(base)["guard"] == OUT.encode(), "a file outside the target was overwritten")
        where = None
        try:
            with v.materialize("/t") as root:
                where = str(root)
                need(where.startswith(base + "/tmp/"), "materialised at %s", where)
                if not bad:
                    equal(state(where, None), want, "materialised files")
                if shape == "nested":
                    raise KeyError("user error")
        except SandboxError:
            need(bad, "materialise failed")
        except KeyError:
            pass
        equal(os.listdir(base + "/tmp"), [], "temporary files left by materialize")
        equal(sorted(set(os.listdir(base)) - {"target"}), ["guard", "tmp"], "files beside the temporary directory")
        return bad
    finally:
        tempfile.tempdir = old
        remove(base)


def large_export(case):
    """Wide and deep trees are exported and materialised completely, also below any source."""
    wide, deep, source = case
    base = scratch("mc13-")
    try:
        v = VirtualFileSystem()
        want = {}
        for i in range(wide):
            v.write_file("/s/w/n%03d" % i, "t%d\r\n\u00e9" % i)
            want["/s/w/n%03d" % i] = ("t%d\r\n\u00e9" % i).encode()
        p = "/s"
        for i in range(deep):
            p += "/l%d" % i
            v.write_file(p + "/f", "d%d" % i)
            want[p + "/f"] = b"d%d" % i
        v.mkdir("/s/empty", parents=True)
        v.write_file("/other", "o")
        want["/other"] = b"o"
        pre = source.rstrip("/") + "/"
        want = {k[len(pre):]: t for k, t in want.items() if k.startswith(pre)}
        v.export_to_path(Path(base) / "out", source=source)
        got = state(base + "/out", None)
        equal({k: x for k, x in got.items() if x != "dir"}, want, "exported files")
        old, tempfile.tempdir = tempfile.tempdir, base
        try:
            with v.materialize(source) as m:
                equal(state(str(m), None), got, "materialised files")
        finally:
            tempfile.tempdir = old
        equal(os.listdir(base), ["out"], "files beside the target")
        ad = FileSystemAdapter(base + "/out")
        equal({k: e.content.encode() for k, e in ad.list().items()}, want, "adapter over the export")
        for k in want:
            e = ad.read(k)
            ad.write(k, e.content + "+", version=e.version)
        equal({k: x for k, x in state(base + "/out", None).items() if x != "dir"}, {k: x + b"+" for k, x in want.items()}, "files after writing all of them")
        return len(want)
    finally:
        remove(base)


def fresh_target(case):
    """The target need not exist: it is created, also for an empty tree, and also over an earlier export."""
    target, tree, how, again = case
    base = scratch("mc13-")
    try:
        v = VirtualFileSystem()
        v.mkdir("/s")
        want = {}
        for p in tree:
            if p.endswith("/"):
                v.mkdir("/s/" + p, parents=True)
            else:
                v.write_file("/s/" + p, "t " + p)
                want[p] = ("t " + p).encode()
            for k in range(1, len(p.rstrip("/").split("/")) + (1 if p.endswith("/") else 0)):
                want["/".join(p.rstrip("/").split("/")[:k])] = "dir"
        where = os.path.join(base, target)
        if again == "keep":
            os.makedirs(where)
            put(os.path.join(where, "kept"), "k")
            want = {"kept": b"k", **want}
        arg = {"path": Path(where), "text": where, "slash": Path(where + "/")}[how]
        for _ in range(2 if again == "twice" else 1):
            got = v.export_to_path(arg, source="/s")
            equal(Path(got), Path(where), "the path export_to_path returns")
            need(os.path.isdir(where), "the target was not created")
            equal(state(where, None), want, "exported entries")
        equal(os.listdir(base), [target.split("/")[0]], "entries beside the target")
        return len(want)
    finally:
        remove(base)


def lonely(case):
    """Nothing else lies around the root: emptying it leaves it and the directories above it alone."""
    depth, files, how, after = case
    base = scratch("mc13-")
    try:
        root = os.path.join(base, *["up"] * depth, "root")
        os.makedirs(root)
        a = FileSystemAdapter(Path(root))
        v = VirtualFileSystem()
        v.mount_storage("/m", a)
        for f in files:
            v.write_file("/m/" + f, "t")
        if how == "adapter":
            for f in files:
                a.delete(f)
        elif how == "remove":
            for f in files:
                v.remove("/m/" + f)
        else:
            for n in dict.fromkeys(f.split("/")[0] for f in files):
                v.remove("/m/" + n, recursive=True)
        equal(a.list(), {}, "files after removing all")
        need(os.path.isdir(root), "the root is gone after deleting %r", files)
        if after == "write":
            a.write("n/m", "again", version=0)
            equal({k: e.content for k, e in a.list().items()}, {"n/m": "again"}, "files after writing again")
        elif after == "sync":
            v.sync_storage("/m")
            equal([str(p) for p, _ in v.iter_files("/m")], [], "files after a sync")
        where = base
        for k in range(depth + 1):
            equal(os.listdir(where), ["up" if k < depth else "root"], "entries around the root")
            where = os.path.join(where, "up")
        return depth, how
    finally:
        remove(base)


def disk_names(case):
    """Files an outsider put below the root are listed and read under exactly their names, and no others are."""
    a, b = case
    base = scratch("mc13-")
    try:
        root = os.path.join(base, "r")
        files = {a: "1", b + "/" + a: "2", "Dir/" + b: "3"}
        for k, t in files.items():
            os.makedirs(os.path.dirname(os.path.join(root, k)), exist_ok=True)
            put(os.path.join(root, k), t)
        ad = FileSystemAdapter(root)
        equal({k: e.content for k, e in ad.list().items()}, files, "list()")
        for k in files:
            equal(ad.read(k).content, files[k], "read(%r)" % k)
            ad.write(k, "w" + files[k], version=ad.read(k).version)
        equal({k: v.decode() for k, v in state(root, None).items() if v != "dir"}, {k: "w" + t for k, t in files.items()}, "files written")
        ad.delete(a)
        equal(sorted(k for k, v in state(root, None).items() if v != "dir"), sorted(k for k in files if k != a), "files after delete")
        v = VirtualFileSystem()
        v.mount_storage("/m", ad)
        v.write_file("/m/" + a, "new")
        v.export_to_path(Path(base) / "out", source="/m")
        equal({k: x.decode() for k, x in state(base + "/out", None).items() if x != "dir"},
              {a: "new", b + "/" + a: "w2", "Dir/" + b: "w3"}, "exported files")
        old, tempfile.tempdir = tempfile.tempdir, base
        try:
            with v.materialize("/m") as m:
                equal(state(str(m), None), state(base + "/out", None), "materialised files")
        finally:
            tempfile.tempdir = old
        equal(sorted(os.listdir(base)), ["out", "r"], "files beside the root")
    finally:
        remove(base)
    return True


class Boom(FileProvider):
    def __call__(self, ctx):
        raise {"value": ValueError, "os": OSError, "key": KeyError}[self.text]("boom")


def cleanup(case):
    """Materialising fails or the body fails, at every position: the copy is gone."""
    kind, where = case
    base = scratch("mc13-")
    old, tempfile.tempdir = tempfile.tempdir, base
    try:
        v = VirtualFileSystem()
        for n in ("a", "d/b", "d/e/c", "z"):
            v.write_file("/" + n, n)
        if where in ("/dyn", "/d/dyn", "/d/e/dyn"):
            v.mount_file(where, Boom(kind))
        elif where == "missing":
            pass
        raised = False
        try:
            with v.materialize("/nope" if where == "missing" else "/") as root:
                need(where == "body", "materialise succeeded although a provider fails")
                equal(len(os.listdir(base)), 1, "one temporary copy")
                with open(os.path.join(root, "extra"), "w") as f:
                    f.write("x")
                os.makedirs(os.path.join(root, "more/dirs"))
                raise {"value": ValueError, "os": OSError, "key": KeyError}[kind]("body")
        except (ValueError, OSError, KeyError, SandboxError):
            raised = True
        need(raised, "the error was swallowed")
        equal(os.listdir(base), [], "temporary files left behind")
        need(not v.exists("/extra"), "edits of the copy reached the tree")
        return where
    finally:
        tempfile.tempdir = old
        remove(base)


def paths(parts, n):
    for k in range(1, n + 1):
        for c in itertools.product(parts, repeat=k):
            p = "/".join(c)
            yield p
            if c[0] not in ("", "/"):
                yield "/" + p


def run(ck):
    ck.unpriv = True
    q = ck.quick
    special = ["@/secret", "@/rootx/in", "@/outdir", "@/root/in", "@/root/../secret", "//secret", "///in", "/", "", ".", "..", "~", "~/x",
               "in/", "d/", "file:///secret", "..\\secret", "d\\..\\..\\secret", "\u2024\u2024/secret", "%2e%2e/secret", "in\n", " in"]

    def cases():
        for p in itertools.chain(paths(PARTS, 3), paths(CORE, 3 if q else 4)):
            yield (p, "root")
        for p in special:
            yield (p, "root")
            yield (p, "rootlink")
        for p in paths(CORE, 2 if q else 3):
            yield (p, "rootlink")
            yield (p, "root/d/..")

    ck.enum("adapter paths", cases, check_path, "every path of up to 3 (thorough 4) components, absolute and relative, with links and siblings; read, write, delete, list")
    ck.enum("mounted paths", lambda: itertools.product(("write_file", "append_file", "touch", "remove"), paths(CORE, 2 if q else 3)), vfs_path)
    ck.enum("texts", lambda: ("".join(t) for n in range(0, 4 if q else 5) for t in itertools.product(ALPHA, repeat=n)), check_text)

    ck.enum("more texts", lambda: TEXTS, check_text)
    ps = list(PAIRS) + [(n, m) for n in ODD + GLOBBY for m in (["x"] if q else ODD + GLOBBY) if n != m and (n, m) not in PAIRS]
    ck.enum("names on disk", lambda: ps, disk_names)

    def names():
        for s in ("file", "nested", "empty", "moved", "provided"):
            for a in NAMES + (BADNAMES if s == "provided" else []):
                for b in (NAMES[:6] if q else NAMES) + (BADNAMES if s == "provided" else []):
                    yield (a, b, s)
    ck.enum("exported names", names, export_names)
    ck.enum("large exports", lambda: itertools.product((0, 1, 17, 65, 200), (0, 1, 10, 30), ("/", "/s", "/s/")), large_export)
    ck.enum("fresh targets", lambda: itertools.product(("t", "a/t", "a/b/c/t"), ((), ("d/",), ("f",), ("d/e/", "g/h/f", "f")), ("path", "slash"), ("once", "twice", "keep")), fresh_target)
    ck.enum("lonely roots", lambda: itertools.product((0, 1, 3), (("f",), ("d/f",), ("d/e/f", "d/g"), ("f", "d/e/f", "z")), ("adapter", "remove", "recursive"), ("", "write", "sync")), lonely)
    ck.enum("clean-up", lambda: itertools.product(("value", "os", "key"), ("/dyn", "/d/dyn", "/d/e/dyn", "body", "missing")), cleanup)
    ck.assume("texts are valid Unicode (no lone surrogates); the target of an export contains no symbolic links beforehand")

"""C19: host tools see the sandbox and their file changes come back exactly."""
import itertools
import re
import os
import subprocess

from ..canon import digest
from ..engine import Spec, Violation, equal, need
from ..env import SandboxError, SandboxShell, SearchQuery, VisibilityView
from ..fsops import do_vfs, same_dump, setup
from ..hosts import Host, expected, model_after, model_edit, sh_edit, standin, tmpdir
from ..parts import FileProvider, DirProvider, W
from ..refmodel import PUB, dump_vfs
from ..storage import MemStore
from ..values import GLOBBY, LONG, NAMES, PAIRS, TEXTS as MORETEXTS
from ..views import ancestors, everything, within
from .c14 import naive

RO = (True, False, False, "public", ())
AO = (True, True, True, "public", ())
NR = (False, True, False, "public", ())
SEC = (True, True, False, "secret", ())
ANN = (True, True, False, "team", ("ann",))
ENTRIES = [("/d", None, PUB, (("k", "1"),)), ("/d/f", "one\r\ntwo\n", PUB, (("k", "2"),)), ("/d/s", None), ("/d/s/g", "g\u00e9"), ("/t", "top", ANN, (("m", "3"),)), ("/e", None)]

EDITS = [("put", "d/f", "new"), ("put", "d/f", "one\r\ntwo\n"), ("add", "d/f", "+"), ("rm", "d/f"), ("put", "n", "x\r\n"), ("put", "d/n", ""), ("mkdir", "n"), ("mkdir", "e/k"), ("put", "e/k/x", "deep"), ("rmtree", "d"), ("rmtree", "d/s"),
         ("rmdir", "e"), ("rmtree", "t"), ("mkdir", "t"), ("mv", "d", "n"), ("mv", "d/f", "e/f"), ("mv", "t", "d/t"), ("mv", "d/s", "s"), ("cp", "d", "n"), ("cp", "t", "e/t"), ("over", "t", "d/f"), ("mv", "e", "d/e"), ("put", "t", "top"),
         ("rm", "d/s/g"), ("mkdir", "d/f"), ("put", "d", "file now"), ("put", "e", "e file"), ("put", "n/z", "in n")]
CORE = [EDITS[i] for i in (0, 3, 4, 6, 9, 12, 13, 14, 15, 25, 27)]


def world(entries=ENTRIES, index=False, mount=False, dynamic=False):
    w = W()
    w.vfs, _ = setup(entries)
    w.store = None
    if mount:
        w.store = MemStore({"a": "stored", "b/c": "deep"})
        w.vfs.mount_storage("/m", w.store.adapter)
    if dynamic:
        w.prov = FileProvider("dynamic")
        w.vfs.mount_file("/dyn", w.prov)
        w.vfs.mount_directory("/pd", DirProvider({"u": "pu", "v": {"w": "pw"}}))
    if index:
        w.vfs.enable_full_text_index()
    return w


def hidden_paths(rows, view=None):
    """Entries the view does not admit."""
    def seen(p):
        pol = rows[p][3]
        if view is None:
            return True
        if pol[4]:
            return bool(set(pol[4]) & set(view.get("principals", ())))
        return "classifications" not in view or pol[3] in view["classifications"]

    def inside(p):
        return view is None or "path_prefixes" not in view or any(within(p, x) or within(x, p) for x in view["path_prefixes"])

    return {p for p in rows if not all(seen(a) for a in ancestors(p)) or not inside(p)}


def exported_paths(rows, view=None):
    """What the command may see: readable, visible to the view, and so is everything above."""
    hidden = hidden_paths(rows, view)
    return {p for p in rows if p not in hidden and all(rows[a][3][0] for a in ancestors(p))}


def host_step(w, sh, line, edits, result=("o", "e", 0), view=None, real=False):
    """Runs one host command and compares everything; returns its outcome."""
    rows = dump_vfs(w.vfs)
    exported = exported_paths(rows, view)
    before, after = model_after(rows, exported, edits)
    hidden = hidden_paths(rows, view)
    want, touched = expected(rows, exported, after, hidden)
    with tmpdir() as t:
        if real:
            r = sh.exec(line)
        else:
            with standin(edits, result):
                r = sh.exec(line)
                need(Host.seen is not None, "no process was started: %r", r)
        equal(t.left(), [], "temporary files left behind")
    got = dump_vfs(w.vfs)
    if touched:
        need(r.exit_code != 0, "changes of %s by the command were not refused", sorted(touched))
        for p in rows:
            if p in hidden:
                equal(got.get(p), rows[p], "hidden entry %s" % p)
            elif p != "/" and rows[p][0] == "f" and (not rows[p][3][1] or rows[p][3][2]):
                equal(got.get(p), rows[p], "protected file %s" % p)
            elif rows[p][0] == "d" and not rows[p][3][1]:
                kids = lambda d: sorted(k for k in d if k != "/" and (k.rpartition("/")[0] or "/") == p)  # noqa: E731
                equal((got.get(p), kids(got)), (rows[p], kids(rows)), "protected directory %s" % p)
        return "refused"
    if not real:
        equal((r.stdout, r.stderr, r.exit_code), result, "result of the command")
    same_dump(got, want, "tree after the command made %r" % (edits,))
    return r


class Synced(Spec):
    def __init__(self, inits, acts, view=None, extra=()):
        self.inits, self.acts, self.view = inits, acts, view

    def make(self, init):
        w = world(*init)
        w.prov = getattr(w, "prov", None)
        return w

    def actions(self, w):
        return self.acts

    def step(self, w, a):
        if a[0] == "vfs":
            return do_vfs(w.vfs, a[1])
        sh = SandboxShell(w.vfs, view=everything_ann())
        r = host_step(w, sh, "host tool", a[1], a[2] if len(a) > 2 else ("o", "e", 0))
        return "ok" if not isinstance(r, str) else r

    def observe(self, w):
        rows = dump_vfs(w.vfs)
        got = sorted((str(r.path), r.line_no, r.line_text) for r in w.vfs.search(SearchQuery("e")))
        equal(got, naive(rows, "e", 0, 0, None, "none"), "search after the command")
        if w.store:
            equal({p[3:]: r[1] for p, r in rows.items() if p.startswith("/m/") and r[0] == "f"}, w.store.truth(), "storage and tree")
            equal({k: e.version for k, e in w.store.adapter.list().items()}, {p[3:]: r[2] for p, r in rows.items() if p.startswith("/m/") and r[0] == "f"}, "storage versions")

    def key(self, w):
        return digest(w.vfs, w.store.truth() if w.store else None)


def everything_ann():
    return VisibilityView(principals=["ann", "alice", "bob"])


# ------------------------------------------------------------ protected entries
PENT = ["/d", "/d/f", "/t", "/d/s"]
PK = {"w": PUB, "r": RO, "a": AO}


def check_protected(case):
    pols, edits = case
    pol = dict(zip(PENT, pols))
    entries = [(e[0], e[1], PK[pol.get(e[0], "w")]) for e in ENTRIES]
    w = world(entries)
    r = host_step(w, SandboxShell(w.vfs), "host tool", edits)
    return "refused" if isinstance(r, str) else "ok"


# ------------------------------------------------------------ views and unreadable entries
VIEWS = [None, {"classifications": ["public"]}, {"principals": ["ann"], "classifications": ["public"]}, {"path_prefixes": ["/d"]}, {"path_prefixes": ["/d/s", "/e"]}, {"classifications": ["secret"]}, {"principals": ["zoe"]}]
LAB = {"p": PUB, "n": NR, "s": SEC, "a": ANN}
LENT = ["/d", "/d/f", "/d/s", "/t"]


def check_hidden(case):
    labels, vi, edits = case
    lab = dict(zip(LENT, labels))
    entries = [(e[0], e[1], LAB[lab.get(e[0], "p")]) for e in ENTRIES]
    w = world(entries)
    view = VIEWS[vi]
    sh = SandboxShell(w.vfs, view=VisibilityView(**view) if view else everything_ann())
    rows = dump_vfs(w.vfs)
    exported = exported_paths(rows, view)
    if "/" not in exported:
        with tmpdir() as t, standin(edits):
            r = sh.exec("host tool")
            need(r.exit_code != 0 or Host.seen is None or not t.left(), "ran although the root is hidden")
        same_dump(dump_vfs(w.vfs), rows, "tree")
        return "root hidden"
    seen = {}

    class Spy(Host):
        def communicate(self, input=None, timeout=None):
            root = Host.root_of(self.kw["cwd"])
            for d, dirs, files in os.walk(root):
                for n in dirs:
                    seen[os.path.relpath(os.path.join(d, n), root)] = None
                for n in files:
                    with open(os.path.join(d, n), "rb") as f:
                        seen[os.path.relpath(os.path.join(d, n), root)] = f.read().decode()
            return super().communicate(input, timeout)

    real = standin.__enter__

    def enter(self):
        real(self)
        subprocess.Popen = Spy
        return Host

    standin.__enter__ = enter
    try:
        r = host_step(w, sh, "host tool", edits, view=view if view else None)
    finally:
        standin.__enter__ = real
    equal(seen, {p[1:]: rows[p][1] for p in exported if p != "/"}, "the copy the command saw")
    return "refused" if isinstance(r, str) else "ok"


# ------------------------------------------------------------ real processes
def check_real(case):
    edits, code = case
    w = world()
    script = "; ".join(sh_edit(e) for e in edits) + "; printf out; printf err >&2; exit %d" % code
    sh = SandboxShell(w.vfs, view=everything_ann())
    r = host_step(w, sh, 'host sh -c "%s"' % script.replace('"', '\\"').replace("\\r", "\\\\r").replace("\\n", "\\\\n"), edits, real=True)
    equal((r.stdout, r.stderr, r.exit_code), ("out", "err", code), "result of the command")
    return "ok"


TRANS = [
    # (cwd, line, stdout, exit code or None for non-zero, {path: content} afterwards)
    ("/", "host cat /d/f", "one\r\ntwo\n", 0, {}),
    ("/", "host cat d/f", "one\r\ntwo\n", 0, {}),
    ("/d", "host cat f", "one\r\ntwo\n", 0, {}),
    ("/d/s", "host cat g", "g\u00e9", 0, {}),
    ("/e", "host cat ../t", "top", 0, {}),
    ("/", "host -p /d cat f", "one\r\ntwo\n", 0, {}),
    ("/e", "host --path /d/s cat g", "g\u00e9", 0, {}),
    ("/e", "host -C / cat t", "top", 0, {}),
    ("/", "host -C d cat f", "one\r\ntwo\n", 0, {}),
    ("/", "host -p /d -- cat f", "one\r\ntwo\n", 0, {}),
    ("/", "host -- cat /t", "top", 0, {}),
    ("/", "host -p /nope cat f", None, None, {}),
    ("/", "host -p", None, None, {}),
    ("/", "host -p /e -p /d cat f", "one\r\ntwo\n", 0, {}),
    ("/e", "host -p /d -C / cat t", "top", 0, {}),
    ("/", "host --path /e -C d cat f", "one\r\ntwo\n", 0, {}),
    ("/", "host -C /d -p /e -- ls -1", "", 0, {}),
    ("/", "host -p /d -p", None, None, {}),
    ("/", "host -p /d", None, None, {}),
    ("/", "host -p /d --", None, None, {}),
    ("/d", "host -p .. cat t", "top", 0, {}),
    ("/d", "host -p s cat g", "g\u00e9", 0, {}),
    ("/d", "host cat ./f", "one\r\ntwo\n", 0, {}),
    ("/", "host sh -c 'exit 0' -p /nope", "", 0, {}),
    ("/", "host printf %s-%s -p -C", "-p--C", 0, {}),
    ("/", "host", None, None, {}),
    ("/", "host -p /t cat /t", None, None, {}),
    ("/", "echo hi | host cat", "hi\n", 0, {}),
    ("/", "host cat < /t", "top", 0, {}),
    ("/", "host cat /t > /copy", "", 0, {"/copy": "top"}),
    ("/", "host cat /d/s/g /t | wc -c", "6", 0, {}),
    ("/", "A=5 host printenv A", "5\n", 0, {}),
    ("/", "B=x\nhost printenv B", "x\n", 0, {}),
    ("/", "A=5 sh -c 'echo $A'", "5\n", 0, {}),
    ("/", "A=5 bash -c 'echo ${A}6'", "56\n", 0, {}),
    ("/", "host printenv NOPE_MC", None, None, {}),
    ("/", "sh -c 'cat /d/f; cat /t'", "one\r\ntwo\ntop", 0, {}),
    ("/", "sh -c 'cat /d/f > /d/out'", "", 0, {"/d/out": "one\r\ntwo\n"}),
    ("/d", "sh -c 'printf z > out'", "", 0, {"/d/out": "z"}),
    ("/e", "bash -c 'printf z > out; cat /e/out'", "z", 0, {"/e/out": "z"}),
    ("/", "host cp /d/f /d/s/f2", "", 0, {"/d/s/f2": "one\r\ntwo\n"}),
    ("/", "host cp -R /d/s /e/", "", 0, {"/e/s": None, "/e/s/g": "g\u00e9"}),
    ("/", "host cat --show-ends /t", "top", 0, {}),
    ("/", "host sh -c 'echo http://x/d/f'", "http://x/d/f\n", 0, {}),
    ("/", "host sh -c 'exit 7'", "", 7, {}),
    ("/", "sh -c 'printf a > t; exit 3'", "", 3, {"/t": "a"}),
    ("/", "host no-such-program-mc", None, 127, {}),
    ("/", "host cat /d/nope", None, None, {}),
    ("/", "host sh -c 'cat; printf !' < /d/s/g", "g\u00e9!", 0, {}),
    ("/", "echo a | sh -c 'tr a b'", "b\n", 0, {}),
    ("/", "cat /t | host rev", "pot", 0, {}),
    ("/", "host sort /d/f", "one\r\ntwo\n", 0, {}),
    ("/", "host sed -n 1p /d/f", "one\r\n", 0, {}),
    ("/", "host ls -1 /d", "f\ns\n", 0, {}),
    ("/d", "host ls -1", "f\ns\n", 0, {}),
    ("/", "host ls -1 /d/", "f\ns\n", 0, {}),
    ("/", "host dd if=/t of=/d/t2 status=none", "", 0, {"/d/t2": "top"}),
    ("/", "host mv /d /e", "", 0, {"/d": 0, "/d/f": 0, "/d/s": 0, "/d/s/g": 0, "/e/d": None, "/e/d/f": "one\r\ntwo\n", "/e/d/s": None, "/e/d/s/g": "g\u00e9"}),
    ("/", "FB sort /t", "top\n", 0, {}),
    ("/d", "FB sort f", "one\r\ntwo\n", 0, {}),
    ("/", "FB ls -1 /d", "f\ns\n", 0, {}),
    ("/", "FB echo a | tr a b", "b\n", 0, {}),
    ("/", "FB A=9 printenv A", "9\n", 0, {}),
    ("/", "FB no-such-program-mc", None, 127, {}),
    ("/", "FB cp /t /d/new", "", 0, {"/d/new": "top"}),
]


def check_translation(i):
    cwd, line, out, code, changes = TRANS[i]
    w = world()
    w.vfs.set_policy("/t", PUBOBJ())
    w.vfs.cd(cwd)
    rows = dump_vfs(w.vfs)
    fb = line.startswith("FB ")
    with tmpdir() as t:
        r = SandboxShell(w.vfs, host_fallback=fb).exec(line[3:] if fb else line)
        equal(t.left(), [], "temporary files left by %r" % line)
    if code is None:
        need(r.exit_code != 0, "%r succeeded", line)
    else:
        equal(r.exit_code, code, "exit code of %r (%s)" % (line, r.stderr))
    if out is not None:
        equal(r.stdout.replace("\r\n", "\n"), out.replace("\r\n", "\n"), "output of %r" % line)
    got = dump_vfs(w.vfs)
    want = {p: (x[0], x[1]) for p, x in rows.items()}
    for p, c in changes.items():
        if c == 0:
            del want[p]
        else:
            want[p] = ("d" if c is None else "f", c)
    same_dump({p: (x[0], x[1]) for p, x in got.items()}, want, "tree after %r" % line)
    if cwd in got:
        equal(w.vfs.pwd(), cwd, "working directory after %r" % line)
    return r.exit_code


def PUBOBJ():
    from ..refmodel import pol_obj
    return pol_obj(PUB)


def check_tokens(case):
    """How tokens are translated: sandbox paths become paths in the copy, everything else is left alone."""
    token, where = case
    w = world(ENTRIES + [("/.d", None), ("/.d/.f", "dot"), ("/.d/s.x", None), ("/a-b_c.d", None), ("/UP", None), ("/UP/f.txt", "up"), ("/0", None), ("/d/s/deep", None), ("/d/s/deep/er", None), ("/d/s/deep/er/still", "s")])
    w.vfs.cd("/d")
    sh = SandboxShell(w.vfs, view=everything_ann())
    with tmpdir() as t, standin(()):
        r = sh.exec("host tool %s" % (token if "'" not in token else '"%s"' % token))
        equal(r.exit_code, 0, "exit code")
        args, cwd = Host.seen["args"], Host.seen["cwd"]
        root = Host.root_of(cwd)
        equal(os.path.relpath(cwd, root), "d", "directory of the process")
        equal(args[0], "tool", "program")
        equal(args[1].replace(root, "@"), where, "translation of %s" % token)
    return args[1].replace(root, "@")


TOKENS = [("/d/f", "@/d/f"), ("/d", "@/d"), ("/d/", "@/d/"), ("/t", "@/t"), ("f", "f"), ("../t", "../t"), ("--file=/d/f", "--file=@/d/f"), ("if=/t", "if=@/t"), ("-I/d/s", "-I@/d/s"), ("/d/new", "@/d/new"), ("/d/s/new", "@/d/s/new"),
          ("/bin/zz", "/bin/zz"), ("/usr", "/usr"), ("/nope/x", "/nope/x"), ("http://d/f", "http://d/f"), ("file:///t", "file:///t"), ("/d/f:/t", "@/d/f:@/t"), ("'/d/f'", "'@/d/f'"), ("/d//f", "@/d/f"),
          ("/d/../t", "@/t"), ("/d/f,/d/s", "@/d/f,@/d/s"), ("a/d/f", "a/d/f"), ("./f", "./f"), ("s/t/x/", "s/t/x/"), ("*/d", "*/d"), ("-", "-"), ("x=y", "x=y"), ("/d/s/g", "@/d/s/g"), ("/t/x", "/t/x"), ("/.d/", "@/.d/"), ("/.d", "@/.d"), ("/.d/.f", "@/.d/.f"), ("/.d/.new", "@/.d/.new"), ("/.d/s.x/", "@/.d/s.x/"), ("/a-b_c.d", "@/a-b_c.d"), ("/a-b_c.d/", "@/a-b_c.d/"), ("/UP/f.txt", "@/UP/f.txt"), ("/up", "/up"), ("/0", "@/0"), ("/0/", "@/0/"),
          ("/d/s/deep/er/still", "@/d/s/deep/er/still"), ("/d/s/deep/er/", "@/d/s/deep/er/"), ("/d/s/deep/er/n", "@/d/s/deep/er/n"), ("--dir=/.d/", "--dir=@/.d/"), ("-o/UP/", "-o@/UP/"), ("/d/s/,/UP/", "@/d/s/,@/UP/"), ("/d/:/e/", "@/d/:@/e/")]


# ------------------------------------------------------------ clean-up
def check_cleanup(case):
    """The copy is removed however the command ends."""
    how, cmd = case
    w = world(dynamic=how.startswith("provider"))
    if how == "provider file":
        def boom(ctx):
            raise ValueError("boom")
        w.vfs.mount_file("/d/dyn", boom)
    elif how == "provider dir":
        def boom2(ctx):
            raise KeyError("boom")
        w.vfs.mount_directory("/d/pd", boom2)
    elif how == "protected":
        w.vfs.get_policy("/d/f").writable = False
    rows = None if how.startswith("provider") else dump_vfs(w.vfs)
    with tmpdir() as t:
        sh = SandboxShell(w.vfs, view=everything_ann(), host_fallback=True)

        class Odd(Host):
            def __init__(self, *a, **kw):
                super().__init__(*a, **kw)
                if how == "oserror":
                    raise OSError(13, "denied")
                if how == "missing":
                    raise FileNotFoundError(2, "missing")
                if how == "memory":
                    raise ValueError("bad")

        edits = [("put", "d/f", "changed")] if how == "protected" else []
        with standin(edits, ("", "", 4 if how == "code" else 0)):
            subprocess.Popen = Odd
            r = sh.exec(cmd)
        need(r.exit_code != 0, "%s with %s succeeded", cmd, how)
        equal(t.left(), [], "temporary files left behind (%s)" % how)
    if rows and how != "protected":
        same_dump(dump_vfs(w.vfs), rows, "tree after a command that did not run")
    return how


def check_dynamic(edits):
    """Dynamic entries the command did not change stay dynamic."""
    w = world(dynamic=True)
    host_step(w, SandboxShell(w.vfs, view=everything_ann()), "host tool", edits)
    w.prov.text = "later"
    if not any(e[1] == "dyn" for e in edits):
        equal(w.vfs.read_file("/dyn"), "later", "dynamic file after the command")
    return "ok"


TEXTS = ["", " ", "\n", "\n\n", "a", "A", "a\n", "a\n\n", " a", "a ", "a\t\n", "a\r\n", "a\r", "\na", "b", "ab", "a\nb", "a\nb\n", "\u00e9", "e\u0301", "\ufeffa", "a\x00", "\u2028"]


def check_texts(case):
    """Every change of a file's text is seen, however small; none is invented."""
    old, new, index = case
    w = world([("/d", None), ("/d/f", old), ("/d/g", new)], index)
    sh = SandboxShell(w.vfs)
    host_step(w, sh, "host tool", [("put", "d/f", new), ("put", "d/n", old)])
    equal((w.vfs.read_file("/d/f"), w.vfs.read_file("/d/n"), w.vfs.read_file("/d/g")), (new, old, new), "texts after the command")
    equal((w.vfs.get_version("/d/f"), w.vfs.get_version("/d/g")), (1 if old == new else 2, 1), "versions after the command")
    return old, new


def check_names(case):
    """Entries of any name, at any depth, go out and come back."""
    name, index = case
    deep = "/".join(["d", *"abcdef", name])
    top = [("/d", None), ("/d/keep", "kept"), ("/" + name if name != "d" else "/dd", "old\n"), ("/x", None), ("/x/" + name, None), ("/x/" + name + "/" + name, "in")]
    dirs = [("/" + "/".join(["d", *"abcdef"[:i]]), None) for i in range(1, 7)]
    there = [("/" + deep, "far")]
    first = top[2][0][1:]
    mk = [("mkdir", x[0][1:]) for x in dirs]
    scripts = [(top, [("put", first, "new")]), (top, [("rm", first)]), (top, [("rmtree", "x/" + name)]), (top, [("rm", "x/%s/%s" % (name, name))]), (top, [("put", "x/%s/%s" % (name, name), "else"), ("put", "x/%s/more" % name, "m")]),
               (top, []), (top[:2] + [("/x", None)], [("put", "x/" + name, "made"), ("mkdir", "x/y"), ("put", "x/y/" + name, "")]), (top[:2] + [("/x", None)], [("mkdir", "x/" + name), ("mkdir", "x/%s/%s" % (name, name)), ("put", "x/%s/f" % name, "f")]),
               (top[:2], mk + [("put", deep, "far")]), (top[:2] + dirs, [("put", deep, "far")]), (top[:2] + dirs + there, [("put", deep, "further")]), (top[:2] + dirs + there, [("rm", deep)]), (top[:2] + dirs + there, [("rmtree", "d/a")]),
               (top[:2] + dirs, [("mkdir", deep)]), (top[:2] + dirs + there, [("mv", "d/a", "n")])]
    for entries, edits in scripts:
        w = world(entries, index)
        host_step(w, SandboxShell(w.vfs, view=everything_ann()), "host tool", edits)
    return name


def check_large(case):
    """Large trees: every changed, made and removed entry comes back, and nothing else."""
    wide, deep, index, edit = case
    ents = [("/w", None)] + [("/w/n%03d" % i, "t%d\n" % i, (PUB, ANN)[i % 2], (("k", str(i)),)) for i in range(wide)]
    path = "/p"
    ents.append((path, None))
    for i in range(deep):
        path += "/l%d" % i
        ents += [(path, None), (path + "/f", "d%d" % i)]
    bottom = path[1:]
    edits = {"none": [], "change": [("put", "w/n%03d" % i, "new%d" % i) for i in range(0, wide, 3)] + [("put", bottom + "/f", "deep")], "remove": [("rm", "w/n%03d" % i) for i in range(0, wide, 2)] + ([("rmtree", "p/l0")] if deep else []),
             "make": [("put", "w/m%03d" % i, "m%d" % i) for i in range(wide)] + [("mkdir", bottom + "/new"), ("put", bottom + "/new/x", "x")], "move": [("mv", "w", "v"), ("mv", "p", "v/p")], "wipe": [("rmtree", "w"), ("rmtree", "p")], "copy": [("cp", "w", "v"), ("cp", "p", "v/p")],
             "retype": [e for i in range(0, wide, 4) for e in (("rm", "w/n%03d" % i), ("mkdir", "w/n%03d" % i), ("put", "w/n%03d/in" % i, "in"))]}[edit]
    w = world(ents, index)
    host_step(w, SandboxShell(w.vfs, view=everything_ann()), "host tool", edits)
    rows = dump_vfs(w.vfs)
    equal(sorted((str(r.path), r.line_no, r.line_text) for r in w.vfs.search(SearchQuery("t"))), naive(rows, "t", 0, 0, None, "none"), "search after the command")
    return len(rows)


def check_near(case):
    """Names that look alike are different entries."""
    (x, y), edits = case
    w = world([("/d", None), ("/d/" + x, "of x"), ("/d/" + y, "of y"), ("/e", None), ("/e/" + x, "only x")])
    fill = {"X": x, "Y": y}
    edits = [(e[0], *("/".join(fill.get(q, q) for q in v.split("/")) for v in e[1:2]), *(("/".join(fill.get(q, q) for q in e[2].split("/")),) if e[0] in ("mv", "cp", "over") else e[2:])) for e in edits]
    host_step(w, SandboxShell(w.vfs, view=everything_ann()), "host tool", edits)
    return x


NEAR = [[("put", "d/X", "new")], [("rm", "d/X")], [("rm", "d/Y")], [("put", "e/Y", "now y")], [("mv", "e/X", "e/Y")], [("over", "d/X", "d/Y")], [("rm", "e/X"), ("mkdir", "e/Y")], [("put", "d/X", "of y"), ("put", "d/Y", "of x")]]


def check_env(case):
    """Variables of the shell reach the process and win over those of the host, which are otherwise kept."""
    host, own, pre, cmd, name = case
    prog = cmd.replace("-p /d ", "").replace("host ", "").split()
    saved = dict(os.environ)
    os.environ.pop(name, None)
    if host is not None:
        os.environ[name] = host
    try:
        w = world()
        sh = SandboxShell(w.vfs, host_fallback=True, env={} if own is None else {name: own})
        line = ("" if pre is None else "%s='%s' " % (name, pre)) + cmd
        with tmpdir(), standin(()):
            r = sh.exec(line)
            equal(r.exit_code, 0, "exit code of %r" % line)
            env = Host.seen["env"]
            equal(Host.seen["args"], prog, "program and arguments of %r" % line)
        env = dict(os.environ) if env is None else env
        want = pre if pre is not None else own if own is not None else host
        equal(env.get(name), want, "variable in the environment of %r" % line)
        equal({k: v for k, v in env.items() if k != name}, {k: v for k, v in os.environ.items() if k != name}, "other variables of the process")
        equal(os.environ.get(name), host, "variable of the host itself")
        equal(sh.env, {} if own is None else {name: own}, "variables of the shell afterwards")
        return want
    finally:
        os.environ.clear()
        os.environ.update(saved)


class Shells(Spec):
    """Host commands one after another in one shell: each starts its own program with its own arguments, directory and input."""
    clonable = False
    LINES = {
        "sh -c x": ["sh", "-c", "x"], "bash -c x": ["bash", "-c", "x"], "bash -c y /t": ["bash", "-c", "y", "@/t"], "host sh -c z": ["sh", "-c", "z"],
        "host bash": ["bash"], "tool a": ["tool", "a"], "ls -z": ["ls", "-z"], "host -p /d tool b": ["tool", "b"], "sh": ["sh"], "bash": ["bash"],
        "host tool": ["tool"], "V=1 sh -c v": ["sh", "-c", "v"], "echo a | bash -c q": ["bash", "-c", "q"], "echo b | sh -c q | host tool": ["tool"],
        "sh -c 1 | bash -c 2": ["bash", "-c", "2"], "bash -c 1 | sh -c 2": ["sh", "-c", "2"]}
    QUIET = ["echo sh", "pwd", "cd /d", "cd /", "cat /nope", "nope=1", "write /bash sh", "help"]

    def __init__(self, lines):
        self.inits, self.lines = [None], lines

    def make(self, init):
        w = world()
        w.sh = SandboxShell(w.vfs, view=everything_ann(), host_fallback=True)
        w.done = []
        return w

    def actions(self, w):
        return [(l,) for l in self.lines]

    def step(self, w, a):
        line = a[0]
        w.done.append(line)
        want = self.LINES.get(line)
        cwd = w.vfs.pwd()
        with tmpdir() as t, standin(()):
            r = w.sh.exec(line)
            equal(t.left(), [], "temporary files left by %r" % line)
            if want is None:
                need(Host.seen is None, "%r started a process", line)
                return "quiet"
            equal((r.exit_code, r.stdout), (0, ""), "result of %r" % line)
            need(Host.seen is not None, "%r started no process", line)
            root = Host.root_of(Host.seen["cwd"])
            equal([x.replace(root, "@") for x in Host.seen["args"]], want, "program and arguments of %r" % line)
            equal("/" + os.path.relpath(Host.seen["cwd"], root).lstrip("."), "/d" if "-p /d" in line else cwd, "directory of %r" % line)
        return "ran"

    def key(self, w):
        return tuple(w.done)  # every sequence, unmerged


def check_words(case):
    """Variables in the words of a host command expand, except in the script after -c."""
    cmd, words = case
    w = world()
    sh = SandboxShell(w.vfs, view=everything_ann(), host_fallback=True, env={"V": "val"})
    want, raw = [], False
    for x in words:
        want.append(x if raw else x.replace("${V}", "val").replace("$V", "val").replace("$U", ""))
        raw = not raw and cmd.split()[-1] in ("bash", "sh") and "host" not in cmd and x in ("-c", "-lc")
    with tmpdir() as t, standin(()):
        r = sh.exec(" ".join((cmd,) + words))
        equal(t.left(), [], "temporary files")
    equal((r.exit_code, Host.seen["args"]), (0, [cmd.split()[-1]] + want), "program and arguments of %s %s" % (cmd, " ".join(words)))
    return len(words)


def check_odd(case):
    """What has no counterpart in the sandbox (dangling links, sockets) counts as no entry and does not keep the other changes from coming back."""
    kind, place, edits, code = case
    res = []
    for odd in (("rm", place), (kind, place)):
        w = world()
        sh = SandboxShell(w.vfs, view=everything_ann(), host_fallback=True)
        with tmpdir() as t, standin(list(edits) + [odd], ("out", "err", code)):
            r = sh.exec("host tool")
            equal(t.left(), [], "temporary files")
        res.append(((r.stdout, r.stderr, r.exit_code), dump_vfs(w.vfs)))
    equal(res[1][0], res[0][0], "result of a host command that leaves a %s at %s" % (kind, place))
    same_dump(res[1][1], res[0][1], "after a host command that leaves a %s at %s" % (kind, place))
    return kind, place


def check_printed(case):
    """What a real process writes is what is returned, and its files come back."""
    data, cmd = case
    w = world()
    sh = SandboxShell(w.vfs, view=everything_ann(), host_fallback=True)
    octal = "".join("\\%03o" % b for b in data)
    with tmpdir() as t:
        r = sh.exec('%s "printf \'%s\'; printf \'%s\' >&2; printf new > d/f; printf c > d/made; exit 5"' % (cmd, octal.replace("\\", "\\\\"), octal.replace("\\", "\\\\")))
        equal(t.left(), [], "temporary files")
    try:
        equal((r.stdout, r.stderr), (data.decode(), data.decode()), "what %s printed" % cmd)
    except UnicodeDecodeError:
        pass
    equal((r.exit_code, w.vfs.read_file("/d/f"), w.vfs.read_file("/d/made")), (5, "new", "c"), "exit code and files after %s printed %r" % (cmd, data))
    return data


RAW = [b"\xff", b"a\xffb", b"\xc3", b"\xc3\n", b"\x80\r\n", b"ok \xed\xa0\x80 end", b"\xff\xfea\x00"]
BYTES = [bytes(t) for n in (1, 2) for t in itertools.product(b"a\r\n\xff\xc3\xa9\t\x85", repeat=n)] + ["\u2028\r\n\u00e9\x1c".encode()]


def check_result(case):
    """Output, errors, exit code and input are passed through; a non-zero exit code does not stop the changes from coming back."""
    out, err, code, stdin, cmd = case
    w = world()
    rows = dump_vfs(w.vfs)
    sh = SandboxShell(w.vfs, view=everything_ann(), host_fallback=True)
    if stdin is not None:
        w.vfs.write_file("/in", stdin)
    with tmpdir() as t, standin([("put", "d/f", "changed")], (out, err, code)):
        r = sh.exec(cmd + ("" if stdin is None else " < /in"))
        equal(t.left(), [], "temporary files")
        seen, own = Host.seen["stdin"], Host.seen["own_stdin"]
    need(own, "%r reads the input of the host process", cmd)
    for got, sent, what in ((r.stdout, out, "output"), (r.stderr, err, "errors")):
        if isinstance(sent, str):
            equal(got, sent, "%s of %r" % (what, cmd))
        else:  # bytes that are no text: the rest of the output is there
            need(all(x in got for x in re.findall("[!-~]+", sent.decode("latin-1"))), "%s of %r: %r for %r", what, cmd, got, sent)
    if code < 0:  # ended by a signal: shells say 128 + n
        need(r.exit_code in (code, 128 - code), "exit code %r of %r, ended by signal %d", r.exit_code, cmd, -code)
    else:
        equal(r.exit_code, code, "exit code of %r" % cmd)
    equal(seen.decode() if isinstance(seen, bytes) else seen or "", stdin or "", "input of %r" % cmd)
    equal(w.vfs.read_file("/d/f"), "changed", "file after %r" % cmd)
    equal(w.vfs.read_file("/d/s/g"), rows["/d/s/g"][1], "other file")
    return out, err, code


def run(ck):
    ck.unpriv = True
    ck.enum("texts", lambda: itertools.product(TEXTS, TEXTS, (0, 1)), check_texts, "every change from one small text to another")
    hosts = ("host tool", "sh -c tool", "bash -c tool", "tool", "ls -z", "host -p /d tool")
    ck.enum("environment", lambda: itertools.product((None, "", "h"), (None, "", "s"), (None, "", "p"), hosts, ("MC_V", "SHELL", "PATH", "HOME", "PWD", "TMPDIR", "BASH_ENV", "PYTHONPATH")), check_env)
    ck.enum("results", lambda: itertools.product(("", "o\n", " \n\n"), ("", "e", "e\n\n"), (0, 1, 2, 255, -1, -9, -15), (None, "", "x\ny", "\n"), hosts), check_result)
    ck.enum("printed texts", lambda: itertools.chain(((t, "e" + t, c, t, h) for t in dict.fromkeys(TEXTS + MORETEXTS) for c in (0, 3) for h in hosts), ((b, e, c, "x", h) for b in RAW for e in ("", "e", b"\xff") for c in (0, 3) for h in hosts)), check_result, "unusual texts as input, output and errors; output that is no text")
    ck.enum("printed by a real process", lambda: [(b, h) for b in BYTES for h in ("host sh -c", "sh -c", "bash -c")], check_printed)
    ck.enum("no plain files", lambda: itertools.product(("dangling", "selflink", "socket"), ("a", "zz", "d/f", "d/a", "d/zz", "d/s/g", "d/s/zz"), [[]] + [[e] for e in EDITS], (0, 3)), check_odd, "dangling links and sockets left by a host command")
    ck.enum("argument words", lambda: ((c, p) for c in ("bash", "sh", "host bash", "tool", "host tool", "A=1 sh") for n in range(1, 4 if ck.quick else 5) for p in itertools.product(("-c", "-lc", "$V", "a${V}b", "-e", "$U", "x"), repeat=n) if not (c.startswith("host") and p[0] in ("-p",))), check_words)
    ck.bfs("one shell", Shells(list(Shells.LINES) + Shells.QUIET), 3 if ck.quick else 4)
    ck.enum("more texts", lambda: itertools.chain(((t, "b", i) for t in MORETEXTS for i in (0, 1)), (("b", t, i) for t in MORETEXTS for i in (0, 1)), ((t, t, 0) for t in MORETEXTS), ((t, t + "x", 0) for t in MORETEXTS)), check_texts)
    ck.enum("names", lambda: itertools.product([n for n in NAMES + GLOBBY if n != LONG] + [LONG], (0, 1)), check_names, "entries of every name at the top, nested, and seven levels deep: left alone, changed, removed, created")
    ck.enum("large trees", lambda: itertools.product((1, 2, 17, 65, 150), (0, 1, 9, 25), (0, 1), ("none", "change", "remove", "make", "move", "wipe", "copy", "retype")), check_large)
    ck.enum("names that look alike", lambda: itertools.product(PAIRS, NEAR), check_near)
    q = ck.quick
    one = [("host", [e]) for e in EDITS]
    two = [("host", list(p)) for p in itertools.product(CORE, repeat=2)]
    vfsops = [("vfs", ("write", "/d/f", "mine")), ("vfs", ("rmr", "/d")), ("vfs", ("cd", "/d/s")), ("vfs", ("mkdirp", "/n/z"))]
    inits = [(ENTRIES,), (ENTRIES, True)]
    mounted = [(ENTRIES, True, True)]
    medits = [("host", [e]) for e in (("put", "m/a", "new"), ("rm", "m/a"), ("put", "m/n", "x"), ("rmtree", "m/b"), ("mv", "m/a", "m/z"), ("mkdir", "m/e"), ("put", "m/e/q", "q"), ("rmtree", "m"), ("mv", "m/b", "b"), ("cp", "d", "m/d"), ("over", "m/a", "t"))]
    ck.bfs("edits", Synced(inits, one + vfsops), 2 if q else 3)
    ck.bfs("edit scripts", Synced(inits[:1], two), 1 if q else 2)
    ck.bfs("storage", Synced(mounted, medits + one[::5]), 2 if q else 3)
    if not q:
        ck.bfs("long scripts", Synced(inits[:1], [("host", list(p)) for p in itertools.product(EDITS, repeat=3)]), 1)
    ck.enum("protected entries", lambda: itertools.product(itertools.product("wra", repeat=4), [[e] for e in EDITS] + ([list(p) for p in itertools.product(CORE, repeat=2)] if not q else [])), check_protected,
            "every assignment of read-only and append-only x every edit")
    ck.enum("views", lambda: itertools.product(itertools.product("pnsa", repeat=4), range(len(VIEWS)), [[e] for e in ([EDITS[i] for i in (0, 9, 12, 25)] if q else EDITS)]), check_hidden,
            "every assignment of labels x view x edit: the copy holds exactly what may be seen, hidden entries stay")
    ck.enum("real processes", lambda: itertools.chain((([e], c) for e in EDITS for c in (0, 5)), ((list(p), 0) for p in itertools.product(CORE if q else EDITS, repeat=2))), check_real, "the same edits through host sh -c")
    ck.enum("command lines", lambda: range(len(TRANS)), check_translation)
    ck.enum("tokens", lambda: TOKENS, check_tokens)
    ck.enum("clean-up", lambda: itertools.product(("provider file", "provider dir", "protected", "oserror", "missing", "memory", "code"), ("host tool", "sh -c tool", "tool", "ls -z", "host -p /d tool")), check_cleanup)
    ck.enum("dynamic entries", lambda: ([e] for e in [("put", "dyn", "static"), ("rm", "dyn"), ("put", "pd/u", "x"), ("rmtree", "pd"), ("put", "pd/v/n", "n"), *EDITS[:6]]), check_dynamic)
    ck.assume("host files are valid UTF-8 regular files and directories (no links); process creation is a stand-in that edits the copy, and additionally real sh processes run as an unprivileged user")

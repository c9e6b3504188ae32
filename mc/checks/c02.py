"""C02: tree operations against a reference filesystem."""
import itertools
import posixpath
import shlex

from ..canon import digest
from ..engine import Spec, equal, need
from ..env import SandboxError, SandboxShell, VirtualFileSystem
from ..fsops import SPELLED, actions, do_ref, do_shell, do_vfs, same_dump, setup, strip
from ..refmodel import dump_vfs, fmt
from ..values import GLOBBY, NAMES as ODD, PAIRS, TEXTS, shellable

COLS = (0, 1, 3, 4)
TREES = {
    "empty": [],
    "files": [("/a", "1"), ("/b", "2")],
    "dirs": [("/a", None), ("/b", None), ("/a/b", "3")],
    "deep": [("/a", None), ("/a/b", None), ("/a/b/a", "4"), ("/b", "5")],
    "marked": [("/a", None, (True, True, False, "k", ("u",)), (("m", 1),)),
               ("/a/b", "6", (True, True, False, "l", ("v", "w")), (("m", 2),)), ("/b", None)],
}
NAMES = ["/a", "/ab", "/a/ab", "/ab/a", "/A", "/.a", "/a.b", "/a b", "/...", "/-r", "/é", "/a:b"]
TREES["names"] = [("/a", None), ("/ab", None), ("/a/f", "7"), ("/ab/a", "8"), ("/.a", None)]
TREES["odd"] = [("/a b", None), ("/a b/-r", "9"), ("/...", None), ("/é", "10"), ("/a.b", "11"), ("/a:b", None)]
BY = [("/a", None), ("/a/b", "bystander"), ("/b", "other")]


class W:
    pass


class Tree(Spec):
    def __init__(self, trees, paths, sets, cds=("/", "/a", "/a/b", ".."), route="api", dests=None):
        self.inits = list(trees)
        self.acts = actions(paths, sets=sets, cds=cds, dests=dests)
        self.universe = sorted(set(paths) | {"/", "/a/b/a", "/a/b/b", "/c", "/b/a/b", "/ab", "/abc", "/a/a"})
        self.route = route

    def make(self, init):
        w = W()
        w.by, w.byref = setup(BY)
        w.vfs, w.ref = setup(TREES[init])
        w.shell = SandboxShell(w.vfs) if self.route == "shell" else None
        return w

    def actions(self, w):
        return [a for a in self.acts if not (a[0] == "cd" and not a[1].startswith("/") and w.ref.dangling)]

    def step(self, w, a):
        got = do_shell(w.shell, a) if w.shell else do_vfs(w.vfs, a)
        want = do_ref(w.ref, a)
        equal(got, want, "outcome of %s" % (a,))
        return want

    def key(self, w):
        return digest(w.vfs, w.by, w.shell.env if w.shell else None, w.ref.dangling)

    def observe(self, w):
        v, ref = w.vfs, w.ref
        same_dump(strip(dump_vfs(v), COLS), strip(ref.dump(), COLS), "tree")
        same_dump(strip(dump_vfs(w.by), COLS), strip(w.byref.dump(), COLS), "a second, untouched filesystem")
        if not ref.dangling:
            equal(v.pwd(), fmt(ref.cwd), "pwd")
            equal([(not e.is_dir, e.name) for e in v.ls()], ref.ls(ref.cwd), "ls()")
            equal(v.tree(), ref.tree(ref.cwd), "tree()")
        equal({str(p): n.read(v) for p, n in v.iter_files("/")},
              {fmt(t): ref.nodes[t].content for t in ref.files()}, "iter_files")
        for t, n in ref.nodes.items():
            p = fmt(t)
            if n.kind == "d":
                got = v.ls(p)
                equal([(not e.is_dir, e.name) for e in got], ref.ls(t), "ls " + p)
                equal([str(e.path) for e in got], [fmt(t + (x[1],)) for x in ref.ls(t)], "ls paths " + p)
                equal(v.tree(p), ref.tree(t), "tree " + p)
                equal(sorted(str(x) for x, _ in v.walk(p)), sorted(fmt(x) for x in ref.subtree(t)), "walk " + p)
                equal(sorted(str(x) for x, _ in v.iter_files(p, recursive=False)),
                      sorted(fmt(c) for c in ref.children(t) if ref.nodes[c].kind == "f"), "iter_files flat " + p)
            else:
                equal(v.read_file(p), n.content, "content of " + p)
            node = v.get_node(p)
            equal(str(node.path()), p, "path of node")
            equal(node.name, t[-1] if t else "", "name of node")
        for p in self.universe:
            t = ref.norm(p)
            kind = ref.nodes[t].kind if t in ref.nodes else None
            equal((v.exists(p), v.is_dir(p), v.is_file(p)), (kind is not None, kind == "d", kind == "f"),
                  "existence of " + p)
            if kind != "f":
                try:
                    v.read_file(p)
                    need(False, "read_file(%s) succeeded on %s", p, "a directory" if kind else "nothing")
                except SandboxError:
                    pass
            if kind != "d":
                try:
                    v.ls(p)
                    need(False, "ls(%s) succeeded on %s", p, "a file" if kind else "nothing")
                except SandboxError:
                    pass


P5 = ["/a", "/b", "/a/a", "/a/b", "/b/a"]
P6 = P5 + ["/a/b/a"]
ALL = ("mkdir", "mkdirp", "write", "append", "touch", "rm", "rmr", "mv", "cp", "cpr")


PAIR = actions(["/d/1", "/d/2", "/d/1/2", "/d/3"], sets=ALL)
STARTS = ("ff", "df", "d-")


class Named(Tree):
    """Tree operations on two given names."""

    def __init__(self):
        self.universe = []


def rename(p, a, b):
    return "/".join({"1": a, "2": b, "3": "other"}.get(x, x) for x in p.split("/"))


def pair(case):
    a, b, route = case
    t = Named()
    n = 0
    t.universe = ["/d/" + a, "/d/" + b, "/d/%s/%s" % (a, b), "/d/other"]
    for start in STARTS:
        entries = [("/d", None)] + ([("/d/" + a, "one")] if start[0] == "f" else [("/d/" + a, None), ("/d/%s/%s" % (a, b), "in")])
        if start[1] == "f":
            entries.append(("/d/" + b, "two"))
        for act in PAIR:
            w = W()
            w.by, w.byref = setup([])
            w.vfs, w.ref = setup(entries)
            w.shell = SandboxShell(w.vfs) if route == "shell" else None
            op = (act[0],) + tuple(rename(x, a, b) if x.startswith("/") else x for x in act[1:])
            n += t.step(w, op) == "ok"
            t.observe(w)
    return n


def pairs(full):
    ps = list(PAIRS) + [(y, x) for x, y in PAIRS]
    for n in ODD + GLOBBY:
        for m in (["x", "a"] if not full else ODD + GLOBBY):
            if n != m and (n, m) not in ps:
                ps.append((n, m))
    return [(a, b, r) for a, b in ps for r in ("api", "shell") if r == "api" or (shellable(a) and shellable(b))]


MANY = {"mkdir": ("mkdir", ("",)), "mkdir -p": ("mkdirp", ("-p", "--parents")), "touch": ("touch", ("",)), "rm": ("rm", ("",)), "rm -r": ("rmr", ("-r", "-R", "-rf", "--recursive"))}


def operands(case):
    """Commands with several operands do the same as one command for each, up to the first that fails."""
    name, opt, where, paths = case
    t = Tree(["empty"], [], ())
    w = W()
    w.by, w.byref = setup([])
    w.vfs, w.ref = setup([("/a", None), ("/a/b", "1"), ("/b", "2"), ("/d", None), ("/e", None), ("/e/f", None), ("/e/f/g", "3")])
    words = list(paths)
    if opt:
        words.insert(min(where, len(words)), opt)
    want = "ok"
    for p in paths:
        if want == "ok":
            want = do_ref(w.ref, (MANY[name][0], p))
    w.shell = SandboxShell(w.vfs)
    line = " ".join([name.split()[0]] + words)
    equal("ok" if w.shell.exec(line).exit_code == 0 else "err", want, "outcome of %r" % line)
    t.observe(w)
    return want


def relative_operands(case):
    """Operands count as the paths they name, from the working directory."""
    name, opt, paths = case
    t = Tree(["empty"], [], ())
    w = W()
    w.by, w.byref = setup([])
    w.vfs, w.ref = setup([("/a", None), ("/a/b", "1"), ("/b", "2"), ("/a/d", None), ("/d", None), ("/d/b", "3"), ("/a/d/b", "4")])
    w.vfs.cd("/a")
    w.ref.cd("/a")
    want = "ok"
    for p in paths:
        if want == "ok":
            want = do_ref(w.ref, (MANY[name][0], posixpath.normpath(posixpath.join("/a", p))))
    w.shell = SandboxShell(w.vfs)
    line = " ".join([name.split()[0]] + ([opt] if opt else []) + list(paths))
    equal("ok" if w.shell.exec(line).exit_code == 0 else "err", want, "outcome of %r in /a" % line)
    t.observe(w)
    return want


def written(case):
    """What is written is the text that was given."""
    form, texts = case
    vfs, _ = setup([("/f", "old"), ("/g", "other")])
    words = " ".join(shlex.quote(x) for x in texts)
    line = form.replace("T", words)
    r = SandboxShell(vfs).exec(line)
    equal((r.exit_code, r.stdout), (0, ""), "result of %r" % line)
    want = " ".join(texts)
    equal({p: x[1] for p, x in dump_vfs(vfs).items() if x[0] == "f"}, {"/f": "old" + want if ">>" in form or "append" in form else want, "/g": "other"}, "files after %r" % line)
    return want


WRITTEN = ["", " ", " a", "a ", "  a  b ", "\t", "a\t", "\u00e9", "--", "a=b", "#", "'", '"', "\\", "\\n", "%s", "a;b", "-", "/g", "/f", "--texts", "-r", "~"]
FORMS = ["write /f T", "append /f T", "echo -n T > /f", "echo -n T >> /f", "write /f --append T", "write /f T --append"]


def written_texts():
    for t in WRITTEN:
        yield "write /f --text T", (t,)
        yield "write /f --append --text T", (t,)
        yield "write /f --text T --append", (t,)
    for k in (1, 2):
        for t in itertools.product(WRITTEN, repeat=k):
            for f in FORMS:
                yield f, t


def operand_lists(full):
    ps = ["/a", "/b", "/c", "/a/b", "/n/m", "/d", "/e"]
    some = ["/b", "/c", "/a/b", "/d", "/e/f/g"]
    for name, (_, opts) in MANY.items():
        for opt in opts:
            for k in (1, 2, 3):
                for t in itertools.product(ps if k < 3 or full else some, repeat=k):
                    for where in ((0, k) if opt else (0,)):
                        yield name, opt, where, t
            for t in itertools.permutations(some, 4):
                yield name, opt, 1, t
            yield name, opt, 0, tuple("/%s%d" % (x, i) for x in ("n", "a/n") for i in range(12)) if name[0] != "r" else ("/b", "/a/b", "/e/f/g", "/e/f", "/e", "/d", "/a")
            yield name, opt, 2, ("/n1", "/n2", "/n3", "/n4", "/a/b/x", "/n5") if name[0] != "r" else ("/b", "/a/b", "/e/f/g", "/nope", "/d")


def large(case):
    """Wide directories, deep nesting and long names: the same as in small ones."""
    shape, n, op = case
    t = Tree(["empty"], [], ())
    w = W()
    w.by, w.byref = setup([])
    if shape == "wide":
        entries = [("/w", None)] + [("/w/e%03d" % i, "c%d" % i if i % 3 else None) for i in range(n)]
        last = "/w/e%03d" % (n - 1)
    else:
        ds = ["/w"] + ["/w" + "".join("/d%d" % j for j in range(i + 1)) for i in range(n)]
        entries = [(d, None) for d in ds] + [(d + "/f", "at %d" % i) for i, d in enumerate(ds)]
        last = ds[-1]
    w.vfs, w.ref = setup(entries + [("/x", None)])
    w.shell = SandboxShell(w.vfs) if op[0].endswith("!") else None
    a = tuple(x.rstrip("!").replace("@", last) for x in op)
    res = t.step(w, a)
    t.observe(w)
    t.step(w, ("write", "/after", "z"))
    t.step(w, ("mkdirp", last + "/more/and/more"))
    t.observe(w)
    return res


LARGE = [("cpr", "/w", "/x"), ("cpr", "/w", "/n"), ("mv", "/w", "/x"), ("rmr", "/w"), ("rm", "@"), ("mv", "@", "/n"), ("cpr", "@", "/x"), ("cpr!", "/w", "/n"), ("rmr!", "/w"), ("mv!", "/w", "/n"), ("write", "@/q/r/s/t", "deep"),
         ("mkdirp", "@/q/r/s/t"), ("touch", "@"), ("cp", "/w", "/n"), ("mkdir", "@/k"), ("cd", "@")]


def text(case):
    """Contents survive every operation unchanged, whatever they are."""
    a, b = case
    t = Tree(["empty"], ["/f", "/g", "/d", "/d/f"], ())
    w = W()
    w.by, w.byref = setup([])
    w.vfs, w.ref = setup([("/f", a), ("/d", None)])
    w.shell = None
    for op in (("cp", "/f", "/g"), ("append", "/g", b), ("mv", "/g", "/d"), ("cpr", "/d", "/e"), ("write", "/f", b), ("append", "/f", a),
               ("append", "/n", a), ("cp", "/f", "/n"), ("touch", "/f"), ("mv", "/e", "/d"), ("write", "/d/e/g", "")):
        t.step(w, op)
        t.observe(w)
    return True


def run(ck):
    D = ["/"] + P5
    trees = [k for k in TREES if k not in ("names", "odd")]
    if ck.quick:
        ck.bfs("api/all trees", Tree(trees, P5, ALL, dests=D), 2)
        ck.bfs("api/from empty", Tree(["empty"], ["/a", "/b", "/a/b"], ALL, cds=("/", "/a")), 4)
        ck.bfs("api/aliasing", Tree(["marked", "deep"], ["/a", "/b", "/a/b"],
                                    ("write", "append", "cp", "cpr", "mv", "meta", "polin"), cds=()), 3)
        ck.bfs("shell/all trees", Tree(trees[:4], P5, ALL, route="shell", dests=D), 2)
        ck.bfs("api/colliding", Tree(["dirs", "deep"], ["/a", "/b", "/a/b"], ("mv", "cpr", "rmr", "write", "mkdir"),
                                     cds=("/a",)), 4)
        ck.bfs("api/similar and odd names", Tree(["names", "odd"], NAMES, ALL, cds=("/ab", "/a b", "/...")), 1)
        ck.bfs("shell/similar and odd names", Tree(["names", "odd"], [x for x in NAMES if x != "/-r"], ALL,
                                                   cds=("/ab", "/a b", "/..."), route="shell"), 1)
        ck.bfs("api/similar names", Tree(["names"], ["/a", "/ab", "/a/ab", "/ab/a"], ALL, cds=("/ab",)), 2)
    else:
        D = ["/"] + P6
        ck.bfs("api/all trees", Tree(trees, P6, ALL, dests=D), 3)
        ck.bfs("api/from empty", Tree(["empty"], ["/a", "/b", "/a/b"], ALL, cds=("/", "/a")), 6)
        ck.bfs("api/aliasing", Tree(["marked", "deep"], ["/a", "/b", "/a/b"],
                                    ("write", "append", "cp", "cpr", "mv", "meta", "polin"), cds=()), 4)
        ck.bfs("shell/all trees", Tree(trees[:4], P5, ALL, route="shell", dests=D), 3)
        ck.bfs("api/colliding", Tree(["dirs", "deep"], ["/a", "/b", "/a/b", "/b/a"],
                                     ("mv", "cpr", "rmr", "write", "mkdir"), cds=("/a",)), 5)
        ck.bfs("api/similar and odd names", Tree(["names", "odd"], NAMES, ALL, cds=("/ab", "/a b", "/...")), 2)
        ck.bfs("shell/similar and odd names", Tree(["names", "odd"], [x for x in NAMES if x != "/-r"], ALL,
                                                   cds=("/ab", "/a b", "/..."), route="shell"), 2)
        ck.bfs("api/similar names", Tree(["names"], ["/a", "/ab", "/a/ab", "/ab/a"], ALL, cds=("/ab",)), 3)
    ck.enum("pairs of names", lambda: pairs(not ck.quick), pair, "unusual or easily confused names: every operation, from three trees, API and commands")
    ck.bfs("shell/other spellings", Tree(trees[:4], P5, SPELLED, route="shell", dests=D), 1 if ck.quick else 2)
    ck.enum("relative operands", lambda: ((n, o, t) for n, (_, opts) in MANY.items() for o in opts[:1] for k in (1, 2, 3) for t in itertools.product(("b", "/b", "../b", "./c", "/c", "d", "../d", "/a/d/b"), repeat=k)), relative_operands)
    ck.enum("written texts", written_texts, written)
    ck.enum("operand lists", lambda: operand_lists(not ck.quick), operands, "mkdir, touch and rm with up to 24 operands, options in front, between and behind")
    ck.enum("large trees", lambda: itertools.product(("wide", "deep"), (1, 2, 9, 10, 11, 17, 33, 65) if ck.quick else range(1, 140), LARGE), large)
    ck.enum("texts", lambda: [(a, b) for a in TEXTS for b in TEXTS], text, "unusual contents through copying, moving, appending and overwriting")
    ck.assume("while the working directory is a removed directory, relative paths and pwd are left unspecified")

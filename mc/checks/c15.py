"""C15: the search view shows exactly the current query's results."""
import itertools

from ..canon import digest
from ..engine import Spec, Violation, equal, need
from ..env import SandboxError, SandboxShell, VisibilityView
from ..fsops import do_vfs, setup
from ..parts import W
from ..refmodel import PUB, dump_vfs
from .c14 import ANN, NR, SEC, lines, matches, naive


def dump_plain(vfs, at):
    return {p: r for p, r in dump_vfs(vfs).items() if not p.startswith(at + "/")}


def results(dump, q, view):
    """q = (text, regex, ignore_case, path): original path -> text of the result file."""
    out = {}
    for p, n, line in naive(dump, q[0], q[1], q[2], q[3], view):
        out.setdefault(p, []).append("%s:%d:%s" % (p, n, line))
    return {p: "\n".join(v) for p, v in out.items()}


def tree_of(files):
    """Directories and files of the result tree, relative ('' is the view itself)."""
    dirs, names = {""}, set()
    for p in files:
        parts = p.split("/")[1:]
        for i in range(1, len(parts)):
            dirs.add("/" + "/".join(parts[:i]))
        names.add(p)
    return dirs, names


def ls_of(dirs, names, d):
    sub = sorted(x[len(d) + 1:] + "/" for x in dirs if x.startswith(d + "/") and "/" not in x[len(d) + 1:])
    return "  ".join(sub + sorted(x[len(d) + 1:] for x in names if x.startswith(d + "/") and "/" not in x[len(d) + 1:]))


def urls(at):
    """(query string as typed, its meaning)"""
    return [
        ("q=ab", ("ab", 0, 0, None)),
        ("q=AB", ("AB", 0, 0, None)),
        ("q=AB&ignore_case=1", ("AB", 0, 1, None)),
        ("ignore_case=true&q=aB", ("aB", 0, 1, None)),
        ("q=a.b&regex=1", ("a.b", 1, 0, None)),
        ("q=a.b&regex=0", ("a.b", 0, 0, None)),
        ("regex=yes&q=A.B&ignore_case=on", ("A.B", 1, 1, None)),
        ("q=a+b", ("a b", 0, 0, None)),
        ("q=a%20b", ("a b", 0, 0, None)),
        ("q=nothing", ("nothing", 0, 0, None)),
        ("q=%2F", ("/", 0, 0, None)),
        ("q=ab&path=/d", ("ab", 0, 0, "/d")),
        ("q=ab&path=/d/s", ("ab", 0, 0, "/d/s")),
        ("q=ab&path=d/s", ("ab", 0, 0, "/d/s")),
        ("path=%2Fd&q=ab", ("ab", 0, 0, "/d")),
        ("q=ab&path=/g", ("ab", 0, 0, "/g")),
        ("q=ab&path=/nope", ("ab", 0, 0, "/nope")),
        ("q=ab&ignore_case=1&path=/d", ("ab", 0, 1, "/d")),
        ("q=ab&path=" + at, ("ab", 0, 0, at)),
        ("q=AB&ignore_case=Yes&regex=OFF", ("AB", 0, 1, None)),
        ("q=a.b&regex=TRUE&ignore_case=no", ("a.b", 1, 0, None)),
    ]


KINDS = ("ls", "find", "tree", "rg", "nav", "two")


class Results(Spec):
    def __init__(self, inits, acts, few=False, full=False):
        self.inits, self.acts, self.few, self.full = inits, acts, few, full

    def make(self, init):
        w = W()
        at, index = init
        w.at = at
        w.vfs, _ = setup([("/d", None), ("/d/f", "ab\nq\nx ab"), ("/d/s", None), ("/d/s/h", "AB q \n\ta b\n"), ("/do", "ab do", SEC), ("/g", "a.b\n\nab /", PUB), ("/e", None)])
        w.vfs.mkdir(at.rsplit("/", 1)[0] or "/", parents=True, exist_ok=True)
        w.vfs.enable_search_view(at)
        if index:
            w.vfs.enable_full_text_index()
        return w

    def actions(self, w):
        return self.acts

    def shells(self, w):
        return {"none": SandboxShell(w.vfs, view=VisibilityView(principals=["ann"])), "pub": SandboxShell(w.vfs, view=VisibilityView(classifications=["public"], principals=["ann"]))}

    def step(self, w, a):
        if a[0] == "q":
            self.query(w, self.shells(w)[a[2]], a[2], urls(w.at)[a[1]], a[3] if len(a) > 3 else "ls")
            return "q"
        if a[0] == "refuse":
            return self.refuse(w, a[1])
        if a[0] == "index":
            w.vfs.enable_full_text_index()
            return "ok"
        if a[0] == "plain":
            r = SandboxShell(w.vfs).exec(a[1] % w.at)
            equal((r.exit_code, r.stdout), (0, a[2] % w.at if "%" in a[2] else a[2]), "%s without a query" % a[1])
            return "plain"
        try:
            return do_vfs(w.vfs, a)
        except SandboxError:
            return "err"

    def run(self, sh, line):
        r = sh.exec(line)
        return (r.exit_code == 0, r.stdout)

    def query(self, w, sh, view, url, kind, before=None):
        at = w.at
        light = before is not None
        before = before or dump_plain(w.vfs, at)
        typed, q = url
        files = results(before, q, "none" if view == "none" else "pubann")
        dirs, names = tree_of(files)
        base = "'%s?%s" % (at, typed)
        if kind == "ls":
            equal(self.run(sh, "ls %s'" % base), (True, ls_of(dirs, names, "")), "ls " + typed)
        elif kind == "find":
            ok, out = self.run(sh, "find %s'" % base)
            equal((ok, sorted(out.split("\n"))), (True, sorted(at + x for x in dirs | names)), "find " + typed)
            ok, out = self.run(sh, "find %s' -type f" % base)
            equal((ok, sorted(out.split("\n")) if out else []), (True, sorted(at + x for x in names)), "find -type f " + typed)
        elif kind == "tree":
            ok, out = self.run(sh, "tree %s'" % base)
            need(ok, "tree failed")
            got = out.split("\n")
            equal(got[0], at, "tree header")
            equal(len(got) - 1, len(dirs | names) - 1, "entries of the tree for " + typed)
            equal(sorted(x.split("── ", 1)[1] for x in got[1:]), sorted([x.rsplit("/", 1)[1] + "/" for x in dirs if x] + [x.rsplit("/", 1)[1] for x in names]), "tree " + typed)
        elif kind == "rg":
            ok, out = self.run(sh, "rg -n a %s'" % base)
            want = sorted("%s%s:%d:%s" % (at, p, i, line) for p, t in files.items() for i, line in enumerate(t.split("\n"), 1) if "a" in line)
            equal((ok, sorted(out.split("\n")) if out else []), (True, want), "rg " + typed)
        elif kind == "nav" and "path=" not in typed:
            for p in ("/d/f", "/d/s/h", "/do", "/g", "/e/f", "/n", "/d2/f"):
                ok, out = self.run(sh, "cat %s%s'" % (base, p))
                equal((ok, out if ok else None), (p in files, files.get(p)), "cat %s%s" % (typed, p))
                if p in files and not self.few:
                    equal(self.run(sh, "cat < %s%s'" % (base, p)), (True, files[p]), "cat < %s%s" % (typed, p))
                    equal(self.run(sh, "head -n 1 %s%s'" % (base, p)), (True, files[p].split("\n")[0] + ("\n" if "\n" in files[p] else "")), "head")
                    equal(self.run(sh, "tail -n 1 %s%s'" % (base, p)), (True, files[p].split("\n")[-1]), "tail")
                    equal(self.run(sh, "wc -l %s%s' | head -n 1" % (base, p))[1].split(" ")[0], str(len(files[p].split("\n"))), "wc -l")
                    equal(self.run(sh, "cat %s%s' %s%s'" % (base, p, base, p)), (True, files[p] * 2), "cat twice")
                    equal(self.run(sh, "cat" + " %s%s'" % (base, p) * 5), (True, files[p] * 5), "cat of five results")
            for d in ("/d", "/d/s", "/e", "/d2"):
                ok, out = self.run(sh, "ls %s%s'" % (base, d))
                equal((ok, out if ok else None), (d in dirs, ls_of(dirs, names, d) if d in dirs else None), "ls %s%s" % (typed, d))
        elif kind == "two":
            # two queries in one line
            other = self.results_of(before, view)
            ok, out = self.run(sh, "cat %s/d/f' '%s?q=q/d/f'" % (base, at)) if "path=" not in typed else (None, None)
            if ok is not None:
                equal((ok, out if ok else None), ("/d/f" in files and "/d/f" in other, files.get("/d/f", "") + other.get("/d/f", "") if ok else None), "two queries in one command")
        equal([e.name for e in w.vfs.ls(w.at)], [], "the search view after the query " + typed)
        if not light:
            equal(dump_plain(w.vfs, at), before, "tree after the query " + typed)
            self.empty(w)

    def results_of(self, before, view):
        return results(before, ("q", 0, 0, None), "none" if view == "none" else "pubann")

    def empty(self, w):
        equal([e.name for e in w.vfs.ls(w.at)], [], "the search view without a query")
        equal([p for p in dump_vfs(w.vfs) if p.startswith(w.at + "/")], [], "entries below the search view without a query")
        if not self.few:
            r = SandboxShell(w.vfs).exec("search ab /")
            need(w.at + "/" not in r.stdout, "ordinary search shows results of the view: %s", r.stdout)

    def refuse(self, w, line):
        at = w.at
        sh = self.shells(w)["none"]
        before = dump_plain(w.vfs, at)
        r = sh.exec(line.replace("@", at))
        need(r.exit_code != 0, "%s was accepted", line)
        equal(dump_plain(w.vfs, at), before, "tree after the refused command %s" % line)
        equal([e.name for e in w.vfs.ls(at)], [], "the search view after %s" % line)
        return "refused"

    def observe(self, w):
        self.empty(w)
        sh = self.shells(w)
        us = urls(w.at)
        before = dump_plain(w.vfs, w.at)
        for v in ("none", "pub"):
            for i, u in enumerate(us):
                if self.few:
                    kinds = ("find", "nav") if i in (0, 11) else ()
                elif self.full:
                    kinds = KINDS
                elif v == "pub":
                    kinds = ("ls", "nav") if i in (2, 11) else ()
                else:
                    kinds = KINDS if i == 2 else (KINDS[i % 3], "nav") if i in (4, 7) else (KINDS[i % 3],)
                for kind in kinds:
                    self.query(w, sh[v], v, u, kind, before)
        equal(dump_plain(w.vfs, w.at), before, "tree after queries")
        self.empty(w)

    def key(self, w):
        return digest(w.vfs)


REFUSE = ["write '@?q=ab' x", "write '@?q=ab/d/f' x", "append '@?q=ab/d/f' x", "append '@?q=ab/new' x", "echo x > '@?q=ab/d/f'", "echo x >> '@?q=ab/d/f'", "echo x > '@?q=ab/n'",
          "touch '@?q=ab/d/f'", "touch '@?q=ab/new'", "mkdir '@?q=ab/new'", "mkdir -p '@?q=ab/new/x'", "rm '@?q=ab/d/f'", "rm -r '@?q=ab/d'", "rm -rf '@?q=ab'", "cp '@?q=ab/d/f' /copy",
          "cp /d/f '@?q=ab/d/f'", "cp -r '@?q=ab/d' /copy", "cp -r /d '@?q=ab/new'", "mv '@?q=ab/d/f' /moved", "mv /d/f '@?q=ab/n'", "mv /d '@?q=ab/d'", "mv '@?q=ab' /x",
          "write '@?q=nothing/x' y", "touch '@?q=&path=/d'", "echo x | cat > '@?q=ab/d/f'", "write '@?q=ab/d/f' --append x", "cat /d/f > '@?regex=1&q=a.b/g'",
          "mkdir -p / / / '@?q=ab/new'", "touch '@?q=ab/d/f' /g", "rm '@?q=ab/d/f' /d/f", "mkdir '@?q=ab/n' /n", "mkdir --parents '@?q=ab/n'", "rm --recursive '@?q=ab/d'", "cp --recursive '@?q=ab' /copy", "cp -R /d '@?q=ab/n'", "write '@?q=ab/d/f' --text x", "write '@?q=ab/d/f' x --append",
          "rm '@?q=ab/d/f' -r", "cp '@?q=ab/d' /copy -r", "mkdir '@?q=ab/new' -p", "append '@?q=ab/d/f' x y z", "< /d/f cat > '@?q=ab/d/f'", "echo x > /out2 > '@?q=ab/d/f'"]
EDITS = [("write", "/d/f", "q\n\nab"), ("write", "/d/f", "none"), ("append", "/g", "\nab a b"), ("rm", "/d/f"), ("rmr", "/d/s"), ("rmr", "/d"), ("mv", "/d", "/d2"), ("mv", "/d/f", "/n"), ("cp", "/g", "/n"),
         ("cpr", "/d", "/e"), ("write", "/e/f", "ab new"), ("setpol", "/d/f", NR), ("setpol", "/d/s", SEC), ("setpol", "/d", NR), ("setpol", "/g", ANN), ("setpol", "/do", PUB), ("index",)]
PLAIN = [("plain", "ls %s", ""), ("plain", "tree %s", "%s"), ("plain", "find %s", "%s"), ("plain", "rg a %s", "")]
QS = [("q", i, v, k) for i, v, k in itertools.product((0, 2, 4, 11), ("none", "pub"), ("ls", "nav"))]
INITS = [("/@search", False), ("/@search", True), ("/e/r", False)]


def every_url(case):
    """Every query text over a small alphabet, fresh filesystem."""
    text, rx, ic, path, index = case
    from urllib.parse import quote
    spec = Results([], [])
    w = spec.make(("/@search", index))
    w.vfs.write_file("/d/f", "a/b\nab?\nA%b=&a")
    typed = "q=%s" % quote(text, safe="") + ("&regex=1" if rx else "") + ("&ignore_case=1" if ic else "") + ("&path=" + path if path else "")
    if rx:
        import re
        try:
            re.compile(text)
        except re.error:
            r = SandboxShell(w.vfs).exec("ls '/@search?%s'" % typed)
            need(r.exit_code != 0, "an invalid pattern was accepted")
            return "bad"
    for kind in ("ls", "find", "nav"):
        spec.query(w, spec.shells(w)["none"], "none", (typed, (text, rx, ic, path or None)), kind)
    return typed


SWITCH = {"1": 1, "0": 0, "": 0, None: 0}
for _w, _b in (("true", 1), ("yes", 1), ("on", 1), ("false", 0), ("no", 0), ("off", 0)):
    for _s in (_w, _w.upper(), _w.title()):
        SWITCH[_s] = _b
BLANK = ["ab", " ab", "ab ", "\tab", "ab\t", "  ab  ", "", " ", "a\u00a0b ab\u00a0"]


def every_switch(case):
    """Every spelling of the switches, the order of the parts, the working directory."""
    from urllib.parse import quote
    rx, ic, path, cwd, order = case
    spec = Results([], [])
    w = spec.make(("/@search", False))
    w.vfs.mkdir("/d/d")
    w.vfs.mkdir("/d%41")
    w.vfs.write_file("/d%41/x", "a.b")
    w.vfs.write_file("/d/d/x", "AB\na.b ab")
    w.vfs.cd(cwd)
    parts = ["q=a.b"] + ["%s=%s" % (k, v) for k, v in (("regex", rx), ("ignore_case", ic), ("path", path and quote(path, safe="" if order or "%" in path else "/"))) if v is not None]
    full = None if path is None else "/" + path.strip("/")
    spec.query(w, spec.shells(w)["none"], "none", ("&".join(reversed(parts) if order else parts), ("a.b", SWITCH[rx], SWITCH[ic], full)), "find")
    spec.query(w, spec.shells(w)["none"], "none", ("&".join(reversed(parts) if order else parts), ("a.b", SWITCH[rx], SWITCH[ic], full)), "rg")
    equal(w.vfs.pwd(), cwd, "working directory after a query")
    return "&".join(parts), cwd


def every_text(case):
    """Result files show the matching lines exactly as they are stored."""
    lines, index = case
    spec = Results([], [])
    w = spec.make(("/@search", index))
    w.vfs.write_file("/d/f", "\n".join(lines))
    w.vfs.write_file("/d/f g:1:x", "\n".join(lines))
    before = dump_plain(w.vfs, w.at)
    for q in ("ab", " ", "b "):
        files = results(before, (q, 0, 0, None), "none")
        for p in ("/d/f", "/d/f g:1:x"):
            r = SandboxShell(w.vfs).exec("cat '%s?q=%s%s'" % (w.at, q.replace(" ", "+"), p))
            equal((r.exit_code == 0, r.stdout if r.exit_code == 0 else None), (p in files, files.get(p)), "cat of the result for %s, query %r" % (p, q))
    return lines


def many_results(case):
    """Many result files, many lines, deep directories."""
    n, what, index = case
    spec = Results([], [])
    w = spec.make(("/@search", index))
    path = "/w"
    for i in range(n):
        if what == "files":
            w.vfs.write_file("/w/n%03d" % i, "q %d\nab %d" % (i, i))
        elif what == "lines":
            w.vfs.append_file("/w/f", "%d %s\n" % (i, "ab" if i % 2 else "q")) if i else w.vfs.write_file("/w/f", "0 q\n")
        else:
            path += "/l%d" % i
            w.vfs.write_file(path + "/f", "ab %d" % i)
    sh = spec.shells(w)["none"]
    before = dump_plain(w.vfs, w.at)
    for q in (("q=ab", ("ab", 0, 0, None)), ("q=%5Eq&regex=1&path=/w", ("^q", 1, 0, "/w"))):
        for kind in ("ls", "find", "tree", "rg"):
            spec.query(w, sh, "none", q, kind, before)
    files = results(before, ("ab", 0, 0, None), "none")
    names = sorted(files)[:12]
    got = spec.run(sh, "cat " + " ".join("'/@search?q=ab%s'" % p for p in names))
    equal(got, (True, "".join(files[p] for p in names)), "cat of %d results" % len(names))
    if path in ("/w",):
        path = "/w/n%03d" % (n - 1) if what == "files" else "/w/f"
    else:
        path += "/f"
    ok, out = spec.run(sh, "cat '/@search?q=ab%s'" % path)
    equal((ok, out if ok else None), (path in files, files.get(path)), "cat of the result for " + path)
    equal(dump_plain(w.vfs, w.at), before, "tree after many results")
    return len(files)


def run(ck):
    from .c14 import VIEWS
    VIEWS["pubann"] = dict(classifications=["public"], principals=["ann"])
    refuse = [("refuse", r) for r in REFUSE]
    n = 2 if ck.quick else 3
    alpha = "aB/?%." if ck.quick else "aB/?%=&."
    ck.enum("query texts", lambda: itertools.product(["".join(t) for k in range(1, n + 1) for t in itertools.product(alpha, repeat=k)], (0, 1), (0, 1), ("", "/d", "d/f", "/g"), (0, 1)),
            every_url, "every percent-encoded query text of up to %d characters, with every switch and path" % n)
    ck.enum("switches", lambda: ((r, i, p, c, o) for r, i, p, c, o in itertools.product(SWITCH, SWITCH, (None, "/d", "d", "d/", "/d/d", "/d%41"), ("/", "/d"), (0, 1))
                                  if not ck.quick or r in (None, "1") or (i in (None, "Yes") and p is None)), every_switch, "every spelling of the switches x path restriction x working directory x order")
    ck.enum("result lines", lambda: itertools.product(itertools.product(BLANK, repeat=2 if ck.quick else 3), (0, 1)), every_text, "every file of that many lines with blanks at either end")
    ck.enum("many results", lambda: ((n, w, i) for n in (1, 2, 9, 20, 33, 65) for w in ("files", "lines", "deep") for i in (0, 1) if w != "deep" or n <= 20), many_results)
    if ck.quick:
        ck.bfs("edits", Results(INITS, EDITS), 2)
        ck.bfs("refusals", Results(INITS, refuse + PLAIN + [("rmr", "/d"), ("write", "/d/f", "q")], True), 2)
        ck.bfs("queries", Results(INITS[:2], QS + PLAIN + EDITS[::3], True), 3)
    else:
        ck.bfs("every query", Results(INITS, EDITS, full=True), 2)
        ck.bfs("edits", Results(INITS, EDITS + PLAIN[:1] + refuse[::5]), 3)
        ck.bfs("refusals", Results(INITS, refuse + PLAIN + EDITS[:6], True), 3)
        ck.bfs("queries", Results(INITS, QS + PLAIN + EDITS, True), 4)
    ck.assume("nothing is written below the view without a query, a query does not combine a path restriction with a result path, and cd into a result directory is not explored")

"""C14: search returns exactly the matching lines of the current files."""
import itertools
import re
import shlex

from ..canon import digest
from ..engine import Spec, Violation, equal
from ..env import FullTextIndex, InvalidOperation, NodeNotFound, ProviderError, SandboxError, SandboxShell, SearchQuery, VisibilityView
from ..fsops import do_vfs, setup
from ..parts import DirProvider, FileProvider, W
from ..refmodel import PUB, dump_vfs, pol_obj
from ..storage import MemStore
from ..views import ancestors, everything, within

from pathlib import PurePosixPath

NR = (False, True, False, "public", ())
SEC = (True, True, False, "secret", ())
ANN = (True, True, False, "public", ("ann",))
VIEWS = {
    "none": None,
    "pub": dict(classifications=["public"]),
    "sec": dict(classifications=["secret"]),
    "ann": dict(principals=["ann"]),
    "/d": dict(path_prefixes=["/d"]),
    "/d/s": dict(path_prefixes=["/d/s", "/m"]),
    "meta": dict(metadata_filters={"k": "v"}),
}


def norm(p):
    out = []
    for x in p.split("/"):
        if x == "..":
            out = out[:-1]
        elif x not in ("", "."):
            out.append(x)
    return "/" + "/".join(out)


def admits(view, path, dump):
    v = VIEWS[view]
    if v is None:
        return True
    for a in ancestors(path):
        pol = dump[a][3]
        if pol[4]:
            if not set(pol[4]) & set(v.get("principals", ())):
                return False
        elif "classifications" in v and pol[3] not in v["classifications"]:
            return False
    if "path_prefixes" in v and not any(within(path, x) or within(x, path) for x in v["path_prefixes"]):
        return False
    return all(dict(dump[path][4]).get(k) == x for k, x in v.get("metadata_filters", {}).items())


def lines(text):
    parts = text.replace("\r\n", "\n").split("\n")
    return parts[:-1] if parts[-1] == "" else parts


def matches(pattern, regex, icase, line):
    if regex:
        return re.search(pattern, line, re.I if icase else 0) is not None
    return pattern.lower() in line.lower() if icase else pattern in line


def naive(dump, pattern, regex, icase, prefix, view, recursive=True):
    """All (path, line number, text) by definition; the search view's own directory holds no ordinary files."""
    top = norm(prefix) if prefix is not None else "/"
    out = []
    if top not in dump:
        return out
    for p, row in dump.items():
        if row[0] != "f" or not within(p, top) or within(p, "/@search") or not row[3][0] or not admits(view, p, dump):
            continue
        if not recursive and p != top and (p.rsplit("/", 1)[0] or "/") != top:
            continue
        if any(within(a, top) and not dump[a][3][0] for a in ancestors(p)):
            continue
        for i, line in enumerate(lines(row[1]), 1):
            if matches(pattern, regex, icase, line):
                out.append((p, i, line))
    return sorted(out)


PATTERNS = [("ab", 0), ("AB", 0), ("b$", 1), ("a.B", 1), (".", 0), ("q", 0), ("^q|^a", 1)]
PREFIXES = [None, "/", "/d", "d/", "/d/f", "/d/../d/s", "/d2", "/nope", "/m", "/m/n", "//d", "/d/f/x", "/do", "/@search"]


def full_queries():
    for (p, rx), ic in itertools.product(PATTERNS, (0, 1)):
        yield p, rx, ic, None, "none"
    for (p, rx, ic), pre in itertools.product((("ab", 0, 0), ("A.b", 1, 1)), PREFIXES[1:]):
        yield p, rx, ic, pre, "none"
    for v in list(VIEWS)[1:]:
        for pre in (None, "/d", "/d/s", "/m"):
            yield "ab", 0, 1, pre, v


QUERIES = list(full_queries())
FEW = [("ab", 0, 0, None, "none"), ("a", 0, 1, "/d", "none"), ("ab", 0, 1, None, "pub"), ("a.b|ab", 1, 0, "/m", "none")]


def got_search(vfs, q):
    p, rx, ic, pre, v = q
    view = VisibilityView(**VIEWS[v]) if VIEWS[v] is not None else None
    kw = {k: x for k, x in (("regex", bool(rx)), ("ignore_case", bool(ic)), ("path_prefix", PurePosixPath(pre) if pre is not None else None)) if x}
    res = vfs.search(SearchQuery(p, **kw), **({} if view is None else {"view": view}))
    return sorted((str(r.path), r.line_no, r.line_text) for r in res)


def shell_queries(dump):
    """(command line, expected output lines or None when it must fail)"""
    def fmt(rows, numbers=True):
        return sorted("%s:%d:%s" % r if numbers else "%s:%s" % (r[0], r[2]) for r in rows)

    out = [("search ab", fmt(naive(dump, "ab", 0, 0, "/", "none"))),
           ("search -i -e a.?B /d", fmt(naive(dump, "a.?B", 1, 1, "/d", "none"))),
           ("search --no-line-number ab /d /m", sorted(fmt(naive(dump, "ab", 0, 0, "/d", "none"), 0) + fmt(naive(dump, "ab", 0, 0, "/m", "none"), 0))),
           ("rg -n ab /", fmt(naive(dump, "ab", 0, 0, "/", "none"))),
           ("grep -r -i AB /", fmt(naive(dump, "AB", 0, 1, "/", "none"), 0)),
           ("search ab /nope", [])]
    for d in ("/d", "/d/s", "/m"):
        ok = d in dump and dump[d][3][0]
        out.append(("rg -n ab " + d, fmt(naive(dump, "ab", 0, 0, d, "none")) if ok else None))
        out.append(("grep -n -e 'a.?b' " + d, fmt(naive(dump, "a.?b", 1, 0, d, "none", recursive=False)) if ok else None))
    for f in ("/d/f", "/g"):
        ok = f in dump and dump[f][3][0]
        if f in dump and dump[f][0] == "f":
            out.append(("grep -n ab " + f, fmt(naive(dump, "ab", 0, 0, f, "none")) if ok else None))
            out.append(("search ab " + f, fmt(naive(dump, "ab", 0, 0, f, "none"))))
    # lists of operands, one of them named twice
    some = ["/g", "/d", "/do", "/m", "/d/s", "/d2", "/new", "/g"]
    rows = [r for p in some for r in naive(dump, "ab", 0, 1, p, "none")]
    out.append(("search ab --ignore-case " + " ".join(some), fmt(rows)))
    some = [p for p in some if p in dump and dump[p][3][0]]
    rows = [r for p in some for r in naive(dump, "ab", 0, 1, p, "none")]
    if some:
        out.append(("rg ab --line-number -i " + " ".join(some), fmt(rows)))
        rows = [r for p in some for r in naive(dump, "b$", 1, 0, p, "none", recursive=False)]
        out.append(("grep --regex b$ " + " ".join(some), fmt(rows, 0)))
    return out


class Searching(Spec):
    def __init__(self, inits, acts, queries=QUERIES, shell=True):
        self.inits, self.acts, self.queries, self.shell = inits, acts, queries, shell

    def make(self, init):
        w = W()
        entries = [("/d", None, PUB, (("k", "v"),)), ("/d/f", "ab\nq\n", PUB, (("k", "v"),)), ("/d/s", None), ("/d/s/h", "AB q\r\nxab", SEC),
                   ("/do", "ab do", ANN), ("/g", "a.b\n\nab", PUB)]
        w.vfs, _ = setup(entries)
        w.store = MemStore({"n": "ab stored", "t/u": "q ab\n"})
        w.vfs.mount_storage("/m", w.store.adapter)
        w.snap = w.old = None
        for x in init:
            self.special(w, (x,) if isinstance(x, str) else x)
        return w

    def special(self, w, a):
        op, vfs = a[0], w.vfs
        if op == "index":
            vfs.enable_full_text_index()
        elif op == "ownindex":
            index = FullTextIndex()
            for p, t in a[1:]:
                index.index_file(PurePosixPath(p), t)
            if vfs.enable_full_text_index(index) is not index:
                raise Violation("enable_full_text_index(index) returned another index")
            if a[1:]:
                w.old = index
        elif op == "oldindex":
            if w.old is None:
                return "none"
            vfs.enable_full_text_index(w.old)
        elif op == "view":
            vfs.enable_search_view()
        elif op == "snap":
            w.snap = vfs.snapshot()
        elif op == "restore":
            if w.snap is None:
                return "none"
            vfs.restore(w.snap)
        elif op == "mountfile":
            vfs.mount_file(a[1], FileProvider("dyn ab"))
        elif op == "mountdir":
            vfs.mount_directory(a[1], DirProvider({"p": "prov ab", "pp": {"r": "AB"}}))
        elif op == "mount":
            vfs.mount_storage(a[1], MemStore({"x": "other ab", "f": "f ab"}).adapter)
        elif op == "ext":
            w.store.ext_write(a[1], a[2])
        elif op == "extdel":
            w.store.ext_delete(a[1])
        elif op == "sync":
            vfs.sync_storage("/m")
        elif op == "polin":
            vfs.get_policy(a[1]).readable = False
        elif op == "meta":
            vfs.get_node(a[1]).metadata.update(dict(a[2:]))
        elif op == "query":
            SandboxShell(vfs).exec("tree '/@search?q=ab'")
        elif op == "sh":
            return "ok" if SandboxShell(vfs, view=everything()).exec(a[1]).exit_code == 0 else "err"
        else:
            return do_vfs(vfs, a)
        return "ok"

    def actions(self, w):
        return self.acts

    def step(self, w, a):
        try:
            return self.special(w, a)
        except SandboxError:
            return "err"

    def observe(self, w):
        dump = dump_vfs(w.vfs)
        for q in self.queries:
            try:
                got = got_search(w.vfs, q)
            except SandboxError as exc:
                raise Violation("search %r raised %s" % (q, exc))
            equal(got, naive(dump, *q), "search %r" % (q,))
        if self.shell:
            sh = SandboxShell(w.vfs, view=VisibilityView(principals=["ann", "bob"]))
            for line, want in shell_queries(dump):
                r = sh.exec(line)
                if want is None:
                    if r.exit_code == 0:
                        raise Violation("%s succeeded with %r" % (line, r.stdout))
                    continue
                if r.exit_code != 0:
                    raise Violation("%s failed: %s" % (line, r.stderr))
                equal(sorted(r.stdout.split("\n")) if r.stdout else [], want, line)

    def key(self, w):
        return digest(w.vfs, w.store.truth(), w.snap, w.old)


EDITS = [("write", "/d/f", "q ab\nab"), ("write", "/d/f", ""), ("append", "/d/f", "ab"), ("write", "/new/x", "ab new"), ("rm", "/d/f"), ("rmr", "/d"), ("rmr", "/d/s"),
         ("mv", "/d", "/d2"), ("mv", "/d/f", "/g"), ("mv", "/d/f", "/d2"), ("mv", "/d/s", "/new"), ("mv", "/g", "/d/s"), ("cp", "/d/f", "/g"), ("cpr", "/d", "/d2"), ("cpr", "/d/s", "/d2"), ("cp", "/g", "/d/s/h"),
         ("touch", "/d2"), ("mkdir", "/d2"), ("rmr", "/d2"), ("sh", "echo ab > /d/f"), ("sh", "echo ab >> /g"), ("sh", "mv /do /d/f")]
POLS = [("setpol", "/d/f", NR), ("setpol", "/d", NR), ("setpol", "/d/s", NR), ("setpol", "/d/f", SEC), ("setpol", "/d", ANN), ("setpol", "/d/s", SEC), ("setpol", "/d/f", PUB), ("polin", "/g"), ("polin", "/d/s"),
        ("meta", "/d/s/h", ("k", "v")), ("meta", "/d/f", ("k", "w"))]
ENV = [("index",), ("view",), ("snap",), ("restore",), ("mountfile", "/dyn"), ("mountfile", "/d/f"), ("mountdir", "/pd"), ("mountdir", "/d"), ("mount", "/d"), ("mount", "/m2"),
       ("ext", "n", "ext ab"), ("ext", "v", "ab v"), ("extdel", "n"), ("sync",), ("write", "/m/n", "ab w"), ("rm", "/m/n"), ("rmr", "/m/t"), ("append", "/m/n", " ab"), ("query",)]
CORE = [("index",), ("write", "/d/f", "q ab\nab"), ("rm", "/d/f"), ("rmr", "/d"), ("mv", "/d", "/d2"), ("mv", "/d/f", "/d2"), ("cpr", "/d", "/d2"), ("cp", "/d/f", "/g"), ("snap",), ("restore",)]
FILLED = ("ownindex", ("/gone", "ab gone"), ("/d/f", "old ab"), ("/d/s/zz", "q"))
OWN = [("index",), ("ownindex",), FILLED, ("oldindex",), ("write", "/d/f", "q ab\nab"), ("write", "/new", "ab"), ("rm", "/d/f"), ("rmr", "/d"), ("mv", "/d", "/d2"), ("cp", "/d/f", "/g"), ("append", "/m/n", " ab"), ("view",)]
INITS = [(), ("index",), ("view", "index")]


def check_query(case):
    """Single queries over contents with unusual line structure, with and without an index."""
    text, (pattern, rx), ic, index = case
    vfs, _ = setup([("/d/f", text)])
    if index:
        vfs.enable_full_text_index()
    dump = dump_vfs(vfs)
    want = naive(dump, pattern, rx, ic, None, "none")
    equal(got_search(vfs, (pattern, rx, ic, None, "none")), want, "search")
    flags = (" -i" if ic else "") + (" -e" if rx else "")
    sh = SandboxShell(vfs)
    for cmd in ("search" + flags, "rg -n" + flags):
        r = sh.exec("%s %s /d" % (cmd, shlex.quote(pattern)))
        equal((r.exit_code, sorted(r.stdout.split("\n")) if r.stdout else []), (0, ["%s:%d:%s" % x for x in want]), cmd)
    r = sh.exec("cat /d/f | grep -n%s %s" % (flags, shlex.quote(pattern)))
    equal((r.exit_code, r.stdout), (0, "\n".join("%d:%s" % x[1:] for x in want)), "grep of standard input")
    return want


# characters whose upper, lower and folded forms differ in length or identity
CASED = ["\u00df", "SS", "ss", "\u1e9e", "\u0130", "i", "I", "\u0131", "i\u0307", "\u017f", "S", "\u212a", "k", "K", "\u00e9", "e\u0301", "E\u0301", "\u00c9", "\ufb01", "FI", "fi",
         "\u03c3", "\u03c2", "\u03a3", "\u01c5", "\u01c6", "\U00010400", "\U00010428"]
QUOTED = ["a b", "a\tb", "'", '"', "\\", "a\\b", "#", "-x", "--", "a|b", "a&b", ";", "%s", "{0}", "\u00a0", "\u2028", "\x0b", "\x85", "\x1c", "a:1:b", "/d/f", "/d/f:1:a", "(a", "a)", "+", "^a", "a+"]


ALIKE = [("/f", "/f2"), ("/d", "/d2"), ("/a.b", "/a"), ("/F", "/f"), ("/x", "/x x"), ("/@search2", "/@searc"), ("/@search.txt", "/@"), ("/d.d", "/d"), ("/-", "/--"), ("/a", "/b/a"), ("/\u00e9", "/e\u0301")]
NEARBY = [None, ("write", 0, "ab new"), ("write", 1, ""), ("append", 0, "ab"), ("rmr", 0), ("rmr", 1), ("mv", 0, "/z"), ("mv", 1, "/z"), ("mv", 0, "IN1"), ("cpr", 0, "/z"), ("cpr", 1, "/z"), ("write", 2, "ab"), ("touch", 3)]


def check_alike(case):
    """Entries whose names begin alike: what happens to one does not touch what is found in the other."""
    pair, kinds, index, view, acts, swap = case
    pair = pair[::-1] if swap else pair
    vfs, _ = setup([("/b", None)] + [e for p, k in zip(pair, kinds) for e in ([(p, "ab " + p)] if k == "f" else [(p, None), (p + "/f", "ab in " + p), (p + "/f2", "x\nab")])])
    if view and not any("search" in p and p == "/@search" for p in pair):
        vfs.enable_search_view()
    if index == "before":
        vfs.enable_full_text_index()
    files = [p if k == "f" else p + "/f" for p, k in zip(pair, kinds)]
    for a in acts:
        if a is None:
            continue
        op, i = a[:2]
        at = files[i % 2] if op in ("write", "append") else pair[i % 2] if i < 3 else pair[1] + "zz"
        rest = [pair[1] if x == "IN1" else x for x in a[2:]]
        if op == "write" and i == 2:
            at = pair[0] + "2"
        do_vfs(vfs, (op, at, *rest))
    if index == "after":
        vfs.enable_full_text_index()
    dump = dump_vfs(vfs)
    n = 0
    for q in (("ab", 0, 0), ("^ab", 1, 0), ("AB", 0, 1)):
        for pre in (None, *pair):
            got = got_search(vfs, (*q, pre, "none"))
            equal(got, naive(dump, *q, pre, "none"), "search for %r below %s after %s" % (q[0], pre, acts))
            n += len(got)
    for pre in ("/", *pair):
        r = SandboxShell(vfs).exec("search ab " + shlex.quote(pre))
        want = ["%s:%d:%s" % x for x in naive(dump, "ab", 0, 0, pre, "none")]
        if pre in dump:
            equal(sorted(r.stdout.split("\n")) if r.stdout else [], sorted(want), "search ab %s after %s" % (pre, acts))
    return n


def check_cases(case):
    """Literal queries: what ignore_case means does not depend on the index or the route."""
    text, pattern, ic = case
    outs = []
    for index in (False, True):
        vfs, _ = setup([("/d/f", "x\n%s\ny %s z\n" % (text, text))])
        if index:
            vfs.enable_full_text_index()
        got = got_search(vfs, (pattern, 0, ic, None, "none"))
        outs.append(got)
        if all(c not in "\x0b\x85\x1c\u2028" for c in text):
            equal(got, naive(dump_vfs(vfs), pattern, 0, ic, None, "none"), "search for %r %s" % (pattern, "with index" if index else "by scan"))
        if not pattern.startswith("-") and not any(c in pattern for c in "*?[$|\x0b\x85\x1c\u2028"):
            sh = SandboxShell(vfs)
            for cmd in ("search", "rg -n", "search -n", "search --line-number", "search --no-line-number -n", "search --no-line-number"):
                r = sh.exec("%s%s %s /d" % (cmd, " -i" if ic else "", shlex.quote(pattern)))
                rows = ["%s:%s" % (x[0], x[2]) if cmd.endswith("--no-line-number") else "%s:%d:%s" % x for x in got]
                equal((r.exit_code, r.stdout), (0, "\n".join(rows)), "%s for %r" % (cmd, pattern))
    equal(outs[1], outs[0], "search for %r with an index, against a scan" % pattern)
    return outs[0]


def check_large(case):
    """Many files, many matches, long lines, deep trees, long operand lists."""
    n, what, index, edit = case
    if what == "files":
        ents = [("/w/n%03d" % i, "%d ab\nq\nab %d" % (i, i)) for i in range(n)]
    elif what == "lines":
        ents = [("/w/f", "".join("%d %s\n" % (i, "ab" if i % 3 else "q") for i in range(n)))]
    elif what == "wide":
        ents = [("/w/f", "x" * n + "ab" + "y" * n + "\n" + "a" * n)]
    else:
        ents = [("/w" + "/l" * i + "/f", "ab %d" % i) for i in range(1, n % 70 + 1)]
    vfs, _ = setup([("/o", "ab o")] + ents)
    if index:
        vfs.enable_full_text_index()
    last = ents[-1][0]
    if edit == "write":
        vfs.write_file(last, "now ab")
    elif edit == "rm":
        vfs.remove(last)
    elif edit == "mv":
        vfs.move("/w", "/v")
    elif edit == "cp":
        vfs.copy("/w", "/v", recursive=True)
    dump = dump_vfs(vfs)
    for q in (("ab", 0, 0, None, "none"), ("AB", 0, 1, "/w", "none"), ("^ab|ab$", 1, 0, "/v", "none"), ("aab|xab", 1, 0, None, "none"), ("q", 0, 0, None, "pub")):
        equal(got_search(vfs, q), naive(dump, *q), "search %r, %d %s" % (q, n, what))
    files = [p for p in sorted(dump) if dump[p][0] == "f"][:40]
    sh = SandboxShell(vfs)
    want = ["%s:%d:%s" % r for f in files for r in naive(dump, "ab", 0, 0, f, "none")]
    for cmd in ("search ab", "rg -n ab", "grep -n ab"):
        r = sh.exec(cmd + " " + " ".join(files))
        equal((r.exit_code, r.stdout), (0, "\n".join(want)), "%s of %d files" % (cmd, len(files)))
    return len(want)


def check_failing(case):
    """With the index, a content provider that fails keeps nothing else from being found."""
    exc, where, when, edit = case
    vfs, _ = setup([("/a", "ab a"), ("/d", None), ("/d/f", "ab f\nq"), ("/z", "q\nab z")])

    def fails(ctx):
        raise exc("no content")
    for step in (("index", "mount") if when == "before" else ("mount", "index")):
        if step == "index":
            vfs.enable_full_text_index()
        else:
            vfs.mount_file(where, fails)
    want = {"/a": "ab a", "/d/f": "ab f\nq", "/z": "q\nab z"}
    want.pop(where, None)
    if edit == "write":
        vfs.write_file("/d/g", "ab g")
        want["/d/g"] = "ab g"
    elif edit == "mv":
        vfs.move("/d", "/e")
        want = {p.replace("/d/", "/e/"): t for p, t in want.items()}
    elif edit == "cp":
        vfs.copy("/z", "/y")
        want["/y"] = want["/z"]
    elif edit == "again":
        vfs.enable_full_text_index()
    elif edit == "mount":
        vfs.mount_storage("/m", MemStore({"x": "ab x"}).adapter)
        want["/m/x"] = "ab x"
    elif edit == "mountdir":
        vfs.mount_directory("/pd", DirProvider({"p": "prov ab"}))
        want["/pd/p"] = "prov ab"
    elif edit == "over":
        vfs.write_file(where, "ab now")
        want[where] = "ab now"
    for q in (("ab", 0, 0, None, "none"), ("AB", 0, 1, "/", "none"), ("^ab", 1, 0, None, "none")):
        rows = [(p, i, x) for p in sorted(want) for i, x in enumerate(lines(want[p]), 1) if matches(q[0], q[1], q[2], x)]
        equal(sorted(got_search(vfs, q)), rows, "search %r beside a failing provider" % (q,))
    rows = ["%s:%d:%s" % (p, i, x) for p in want for i, x in enumerate(lines(want[p]), 1) if "ab" in x]
    r = SandboxShell(vfs).exec("search ab")
    equal((r.exit_code, sorted(r.stdout.split("\n"))), (0, sorted(rows)), "search command beside a failing provider")
    return len(rows)


FAULTS = [ValueError, KeyError, OSError, RuntimeError, NotImplementedError, InvalidOperation, NodeNotFound, ProviderError]

TEXT = ["a", "B", "\n", ".", "\r\n", " "]
MORE = [("a", 0), ("b", 0), ("aB", 0), ("a.", 0), (".", 0), ("a$", 1), ("^a", 1), ("a.", 1), ("^", 1), ("a|b", 1), ("(?i)B", 1), ("[^a]", 1), ("\\.", 1), ("a B", 0)]


def run(ck):
    n = 3 if ck.quick else 5
    texts = lambda: ("".join(t) for k in range(n + 1) for t in itertools.product(TEXT, repeat=k))  # noqa: E731
    ck.enum("queries", lambda: itertools.product(texts(), MORE, (0, 1), (0, 1)), check_query, "every text of up to %d symbols x every query, with and without index" % n)
    ck.enum("letter case and punctuation", lambda: [(t, p, ic) for vals in (CASED, QUOTED) for t in vals for p in vals for ic in (0, 1)], check_cases)
    ck.enum("names that begin alike", lambda: itertools.product(ALIKE, (("f", "f"), ("d", "d"), ("f", "d"), ("d", "f")), ("no", "before", "after"), (0, 1), [(a,) for a in NEARBY] if ck.quick else list(itertools.product(NEARBY, repeat=2)), (0, 1)), check_alike)
    ck.enum("failing providers", lambda: itertools.product(FAULTS, ("/m1", "/d/m", "/a", "/w/x/m", "/d/f"), ("before", "after"), (None, "write", "mv", "cp", "again", "mount", "mountdir", "over")), check_failing)
    ck.enum("large", lambda: itertools.product((1, 2, 17, 33, 65, 128, 257) if ck.quick else (1, 2, 17, 33, 65, 128, 257, 513, 1025), ("files", "lines", "wide", "deep"), (0, 1), (None, "write", "rm", "mv", "cp")), check_large)
    ck.bfs("indexes of the caller", Searching([(), ("index",), (FILLED,)], OWN, FEW, False), 3 if ck.quick else 4)
    if ck.quick:
        ck.bfs("edits", Searching(INITS[:2], EDITS + POLS + [("index",)]), 2)
        ck.bfs("mounts", Searching(INITS, ENV + EDITS[::4]), 2)
        ck.bfs("deep", Searching([(), ("index",)], CORE, FEW, False), 4)
        ck.bfs("mounts deep", Searching([("index",), ("view", "index")], ENV[2:] + [("write", "/d/f", "ab"), ("rmr", "/d")], FEW, False), 3)
        ck.bfs("edits deep", Searching([("index",)], EDITS + POLS[:6], FEW, False), 3)
    else:
        ck.bfs("edits", Searching(INITS[:2], EDITS + POLS + [("index",)]), 3)
        ck.bfs("mounts", Searching(INITS, ENV + EDITS[::4]), 3)
        ck.bfs("deep", Searching([(), ("index",)], CORE, FEW, False), 6)
        ck.bfs("mixed", Searching([("index",)], EDITS + ENV, FEW, False), 4)
    ck.assume("line breaks are LF and CRLF; patterns are not empty; a dynamic file's provider returns the same text throughout")

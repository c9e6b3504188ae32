"""C06: a view-restricted shell never reveals hidden nodes (two-world non-interference)."""
import itertools
import re

from ..canon import digest
from ..engine import Spec, equal, need
from ..env import SandboxShell, SearchQuery, VisibilityView
from ..fsops import command, do_vfs
from ..parts import W, on
from ..refmodel import dump_vfs
from ..views import DIRS, FILES, LABELS, VIEWS, all_readers, build, everything, hidden_set, pol, predicate, predicate_cases, view

PATHS = ["/", "/h", "/h/ff", "/p", "/p/gg", "/p/q", "/p/q/kk", "/p/qx", "/tt", "/h/none", "/p/q/../../h/ff"]
KEYS = ["KEY", "alpha"]
READERS = all_readers(PATHS, KEYS)
FEW = [r for r in READERS if "- - -" not in r and "/no1" not in r and r.startswith(("cat ", "rg", "search", "tree", "echo", "find", "grep -r"))]
META = (("k", "v"),)


def text_a(f):
    return "KEY alpha %s\nsecond\n" % FILES[f]


def text_b(f):
    return "bravo KEYS %s\nalphabet\nKEY third\n" % FILES[f]


def vis_text(vname, labels, metas, which):
    """Content of the two worlds: hidden files differ, all others are the same."""
    plain = build(labels, metas, text_a)
    hid = hidden_set(vname, dump_vfs(plain))
    return hid, (lambda f: which(f) if f in hid else text_a(f))


EXTRAS = [("/zz", "KEY alpha zz", "bob"), ("/h/zz", "KEY zz", "bob"), ("/p/zz", "alpha", "bob"), ("/p/q/zz", "KEY", "bob"),
          ("/yy", None, "bob"), ("/yy/pub", "KEY alpha", "p"), ("/p/yy", None, "bob"), ("/p/yy/in", "KEY", "p")]


def words(s):
    return set(re.findall(r"[A-Za-z0-9]+", s))


def shows_names(line):
    return line.split()[0] in ("ls", "tree", "find", "rg", "search", "echo", "grep") and ("|" not in line or "| cat" not in line and "- - -" in line)


def check_world(case):
    vname, labels, metas, index = case
    labels, metas = dict(labels), dict(metas)
    a, b = W(), W()
    with on(a):
        hid, ta = vis_text(vname, labels, metas, text_a)
        a.vfs = build(labels, metas, ta)
    with on(b):
        hid, tb = vis_text(vname, labels, metas, text_b)
        b.vfs = build(labels, metas, tb, EXTRAS)
    outs = []
    for x in (a, b):
        x.clock = 1_000_001_000.0
        with on(x):
            if index:
                x.vfs.enable_full_text_index()
            x.vfs.enable_search_view()
            x.shell = SandboxShell(x.vfs, view=view(vname))
    names = {p.rsplit("/", 1)[1] for p in hid if p != "/"} | {"zz", "yy"}
    shown = {n for p in dump_vfs(a.vfs) if p not in hid for n in p.split("/")}
    names -= shown
    for line in READERS:
        with on(a):
            ra = a.shell.exec(line)
        with on(b):
            rb = b.shell.exec(line)
        equal((ra.exit_code, ra.stdout, ra.stderr), (rb.exit_code, rb.stdout, rb.stderr),
              "output of %r in two worlds that differ in hidden nodes only (view %s)" % (line, vname))
        if shows_names(line):
            leaked = names & words(ra.stdout) - words(line)
            need(not leaked, "%r shows hidden names %r: %r (view %s)", line, sorted(leaked), ra.stdout, vname)
        outs.append((ra.exit_code, ra.stdout))
    for q in ("KEY", "alpha"):
        ra, rb = ([tuple(map(str, (r.path, r.line_no, r.line_text))) for r in x.vfs.search(SearchQuery(q), view=view(vname))]
                  for x in (a, b))
        equal(sorted(ra), sorted(rb), "search(%r, view) in two worlds" % q)
    for fn in ("ls", "tree"):
        for d in ["/"] + DIRS:
            ra, rb = (getattr(x.vfs, fn)(d, view=view(vname)) for x in (a, b))
            if fn == "ls":
                ra, rb = ([str(e.path) for e in r] for r in (ra, rb))
                need(not set(ra) & hid, "ls(%s, view) lists hidden %r", d, set(ra) & hid)
            equal(ra, rb, "%s(%s, view) in two worlds" % (fn, d))
    for g in ("*", "/*", "/*/*", "/p/*"):
        ra, rb = (x.vfs.glob(g, view=view(vname)) for x in (a, b))
        equal(sorted(ra), sorted(rb), "glob(%s, view) in two worlds" % g)
        need(not set(ra) & hid, "glob(%s, view) matches hidden %r", g, set(ra) & hid)
    return (vname, outs)


def cases_labels(views, nodes, letters, index):
    for vname in views:
        for labs in itertools.product(letters, repeat=len(nodes)):
            for i in index:
                yield (vname, tuple(zip(nodes, labs)), (), i)


def cases_meta(views, index, secs=((), (("/h/ff", "s"),), (("/p", "s"),))):
    nodes = ["/h", "/h/ff", "/p", "/p/q", "/p/gg", "/tt"]
    for vname in views:
        for ms in itertools.product((0, 1), repeat=len(nodes)):
            for sec in secs:
                for i in index:
                    yield (vname, sec, tuple((n, META) for n, m in zip(nodes, ms) if m), i)


class Histories(Spec):
    """Restricted and unrestricted shells over one filesystem; relabelling by the host."""

    def __init__(self, inits, acts):
        self.inits, self.acts = inits, acts

    def make(self, init):
        vname, labels, index, late = init
        w = W()
        w.view = vname
        w.dead = False
        w.worlds = {}
        for name, which in (("A", text_a), ("B", text_b)):
            x = W()
            w.worlds[name] = x
            with on(x):
                _, t = vis_text(vname, dict(labels), {}, which)
                x.vfs = build({} if late else dict(labels), {}, t)
                if index:
                    x.vfs.enable_full_text_index()
                x.vfs.enable_search_view()
                if late:
                    for p, l in labels:
                        x.vfs.set_policy(p, pol(l))
                x.r = SandboxShell(x.vfs, view=view(vname))
                x.w = SandboxShell(x.vfs, view=everything())
                x.wide = SandboxShell(x.vfs, view=view("pubsec"))
                x.snap = None
        return w

    def actions(self, w):
        return [] if w.dead else self.acts

    def do(self, x, a):
        who = a[0]
        if who == "host":
            if a[1] == "index":
                x.vfs.enable_full_text_index()
            elif a[1] == "snap":
                x.snap = x.vfs.snapshot()
            elif a[1] == "restore":
                if x.snap is None:
                    return "none"
                x.vfs.restore(x.snap)
            elif a[1] == "label":
                return do_vfs(x.vfs, ("setpol", a[2], LABELS[a[3]]))
            return "ok"
        r = {"r": x.r, "w": x.w, "wide": x.wide}[who].exec(a[1])
        return (r.exit_code, r.stdout, r.stderr) if who == "r" else r.exit_code

    def step(self, w, a):
        outs = []
        for x in w.worlds.values():
            with on(x):
                outs.append(self.do(x, a))
        da, db = (dump_vfs(x.vfs) for x in w.worlds.values())
        if a[0] == "r":
            equal(outs[0], outs[1], "result of %r in two worlds that differ in hidden nodes only (view %s)" % (a[1], w.view))
            self.compare(w, da, db, a)
        elif self.legit(w, da, db):
            w.dead = True  # others disclosed the secret themselves: nothing to check from here on
        out = outs[0]
        return "%s %s" % (a[0], out[0] if isinstance(out, tuple) else out)

    def legit(self, w, da, db):
        hid = hidden_set(w.view, da)
        return sorted(da) != sorted(db) or any(da[p] != db[p] for p in da if p not in hid)

    def compare(self, w, da, db, a):
        hid = hidden_set(w.view, da)
        equal(sorted(da), sorted(db), "paths in the two worlds after %s" % (a,))
        for p in da:
            if p not in hid:
                equal(da[p], db[p], "visible %s after %s (view %s)" % (p, a, w.view))

    def key(self, w):
        if w.dead:
            return ("dead",)
        return digest([(x.vfs, x.snap) for x in w.worlds.values()], w.view)

    def observe(self, w):
        if w.dead:
            return
        a, b = w.worlds["A"], w.worlds["B"]
        da = dump_vfs(a.vfs)
        hid = hidden_set(w.view, da)
        names = {p.rsplit("/", 1)[1] for p in hid if p != "/"} - {n for p in da if p not in hid for n in p.split("/")}
        for line in FEW:
            with on(a):
                ra = a.r.exec(line)
            with on(b):
                rb = b.r.exec(line)
            equal((ra.exit_code, ra.stdout, ra.stderr), (rb.exit_code, rb.stdout, rb.stderr),
                  "output of %r in two worlds that differ in hidden nodes only (view %s)" % (line, w.view))
            if shows_names(line):
                leaked = names & words(ra.stdout) - words(line)
                need(not leaked, "%r shows hidden names %r: %r (view %s)", line, sorted(leaked), ra.stdout, w.view)


SRC = ["/h", "/h/ff", "/p", "/p/q", "/p/qx", "/tt", "/p/gg"]
DST = ["/tt", "/p", "/n", "/p/q/new", "/h/new"]


def acts(small):
    out = []
    src = SRC if not small else ["/h", "/h/ff", "/p", "/tt"]
    dst = DST if not small else ["/n", "/p/q/new", "/h/new"]
    for s in src:
        for d in dst:
            out += [("r", "cp -r %s %s" % (s, d)), ("r", "mv %s %s" % (s, d)), ("r", "cat %s > %s" % (s, d))]
            out += [("w", "cp -r %s %s" % (s, d)), ("w", "mv %s %s" % (s, d))]
        out += [("r", "append %s x" % s), ("r", "touch " + s), ("r", "rm -r " + s), ("r", "cd " + s)]
        out += [("host", "label", s, l) for l in ("p", "s", "a")]
    for who in ("w", "wide"):
        out += [(who, "cat '/@search?q=KEY/h/ff'"), (who, "tree '/@search?q=alpha'"), (who, "ls '/@search?q=KEY/p'"),
                (who, "search KEY"), (who, "ls -l '/@search?q=none'")]
    out += [("host", "index"), ("host", "snap"), ("host", "restore"), ("w", "append /h/ff 'KEY more'"), ("w", "write /p/q/kk 'KEY w'"),
            ("w", "write /h/ff2 'KEY new'"), ("w", "append /tt KEY")]
    return out


def relabelled(case):
    """One shell, used before and after nodes become hidden: afterwards it must not show them any more."""
    vname, first, second, how = case
    hid_of = hidden_set(vname, dump_vfs(build(dict(second), {}, text_a)))
    outs = []
    for which in (text_a, text_b):
        x = W()
        with on(x):
            vfs = build(dict(first), {}, lambda f: which(f) if f in hid_of else text_a(f))
            vfs.enable_search_view()
            if how == "index":
                vfs.enable_full_text_index()
            sh = SandboxShell(vfs, view=view(vname))
            for line in USED:
                sh.exec(line)
            for p, l in second:
                if how == "inplace":
                    n, new = vfs.get_policy(p), pol(l)
                    n.classification, n.principals = new.classification, new.principals
                elif how == "node":
                    vfs.get_node(p).policy = pol(l)
                else:
                    vfs.set_policy(p, pol(l))
            if how == "restore":
                vfs.restore(vfs.snapshot())
            out = []
            for line in USED:
                r = sh.exec(line)
                out.append((line, r.exit_code, r.stdout, r.stderr))
                if shows_names(line) and not line.startswith(("grep", "rg", "search")):
                    leaked = {p for p in hid_of if p != "/"} & set(r.stdout.split())
                    need(not leaked, "%r shows %r, hidden by now (view %s, %s)", line, sorted(leaked), vname, how)
            outs.append(out)
    for a, b in zip(*outs):
        equal(a, b, "output of %r after nodes were hidden (%s), in two worlds that differ in hidden nodes only (view %s)" % (a[0], how, vname))
    return sorted(hid_of)


def arguments(case):
    """What the caller does with the collections a view was made from does not change the view."""
    vname, labels, forms, widen = case
    args = {}
    for k, x in VIEWS[vname].items():
        args[k] = dict(x) if k == "metadata_filters" else forms(x)
    vfs = build(dict(labels), {"/h/ff": META}, text_a)
    v = VisibilityView(**args)
    sh = SandboxShell(vfs, view=v)
    lines = [l for l in FEW if not l.startswith("rg")]
    want = []
    for l in lines:
        r = sh.exec(l)
        want.append((r.exit_code, r.stdout, r.stderr))
    for k, x in args.items():
        more = {"classifications": ["secret", "public"], "principals": ["dave", "alice", "bob"], "path_prefixes": ["/", "/h", "/tt"]}.get(k)
        if k == "metadata_filters":
            x.clear() if widen else x.update(k="v", j="1", z="9")
        elif not widen:
            x.clear()
        elif isinstance(x, list):
            x.extend(more)
        else:
            x.update(more if isinstance(x, set) else dict.fromkeys(more))
    for who, s in (("the same shell", sh), ("a shell made later", SandboxShell(vfs, view=v))):
        for l, y in zip(lines, want):
            r = s.exec(l)
            equal((r.exit_code, r.stdout, r.stderr), y, "output of %r in %s after the caller changed its collections (view %s)" % (l, who, vname))
    hid = hidden_set(vname, dump_vfs(vfs))
    need(not {str(e.path) for d in ["/"] + DIRS for e in vfs.ls(d, view=v)} & hid, "ls shows hidden entries after the caller changed its collections")
    return sorted(hid)


USED = [l for l in READERS if l.startswith(("cat ", "stat ", "ls -l ", "find ", "head -c", "rg -i", "tree", "search KEY")) or "*" in l]


def host_part(case):
    """A host command of the restricted shell dumps everything it can see."""
    vname, labels, metas = case
    outs = []
    for which, extras in ((text_a, ()), (text_b, EXTRAS)):
        hid, t = vis_text(vname, dict(labels), dict(metas), which)
        vfs = build(dict(labels), dict(metas), t, extras)
        sh = SandboxShell(vfs, view=view(vname), host_fallback=True)
        before = dump_vfs(vfs)
        res = []
        for line in ("host -p / sh -c 'find . | sort; find . -type f -exec cat {} +'", "sh -c 'cat h/ff p/gg p/q/kk tt zz 2>/dev/null; ls'",
                     "ls -A /"):
            r = sh.exec(line)
            res.append((r.exit_code, r.stdout))
        equal(dump_vfs(vfs), before, "tree after host commands that only read (view %s)" % vname)
        outs.append(res)
    equal(outs[0], outs[1], "output of host commands in two worlds that differ in hidden nodes only (view %s)" % vname)
    return outs[0]


def run(ck):
    N4 = ["/h", "/h/ff", "/p/q", "/tt"]
    plainviews = [v for v in VIEWS if not v.startswith("meta")]
    metaviews = [v for v in VIEWS if v.startswith("meta")]
    some = ["pub", "pub+ali", "/p", "/p/q,/h", "ali+/h"]
    inits = [("pub", (("/h/ff", "s"), ("/p/q", "s")), True, True), ("pub", (("/h", "s"),), False, False),
             ("/p/q,/h", (), True, False), ("/p", (("/p/q", "a"),), False, False), ("pub+ali", (("/h", "a"), ("/p/gg", "s"), ("/tt", "d")), True, True)]
    ck.enum("the predicate", lambda: predicate_cases(not ck.quick), lambda c: predicate(c, False),
            "classifications x principals x prefixes x metadata filters, for every labelling of one file and its directory")
    labels = [(("/h/ff", "s"), ("/p/q", "a"), ("/tt", "d")), (("/h", "d"), ("/p/gg", "b")), ()]
    ck.enum("arguments of views", lambda: itertools.product([v for v in VIEWS if v != "default"], labels, (list, set, dict.fromkeys), (True, False)), arguments)
    if ck.quick:
        ck.enum("views x labels", lambda: cases_labels(plainviews, ["/h", "/h/ff", "/p/q"], "psa", [True]), check_world,
                "15 views x all label assignments to three nodes x %d reader commands" % len(READERS))
        ck.enum("views x labels, scan", lambda: cases_labels(some, ["/p", "/tt"], "psd", [False]), check_world)
        ck.enum("views x metadata", lambda: cases_meta(["meta", "meta+/p"], [False], [()]), check_world)
        ck.bfs("histories", Histories(inits, acts(False)), 1)
        ck.enum("relabelled", lambda: [(v, f, s, h) for v in ("pub", "pub+ali", "ali") for f in ((), (("/h", "a"), ("/tt", "a")))
                                       for s in ((("/h", "s"), ("/p/q/kk", "s")), (("/tt", "d"), ("/p", "s")), (("/h/ff", "d"), ("/p/q", "b")))
                                       for h in ("set", "inplace", "node", "restore", "index")], relabelled)
        ck.unpriv = True
        ck.enum("host", lambda: [(v, l, ()) for v in ("pub", "pub+ali", "/p", "/p/q,/h") for l in ((("/h", "s"),), (("/h/ff", "s"), ("/p/q", "a")))]
                + [("meta", (), (("/h", META), ("/h/ff", META)))], host_part)
    else:
        ck.enum("views x labels", lambda: cases_labels(plainviews, N4 + ["/p/qx"], "psa", [False, True]), check_world)
        ck.enum("views x labels, more", lambda: cases_labels(plainviews, ["/h", "/p", "/p/q", "/p/q/kk"], "psabd", [True]), check_world)
        ck.enum("views x metadata", lambda: cases_meta(metaviews, [False, True]), check_world)
        ck.bfs("histories", Histories(inits, acts(True)), 2)
        ck.bfs("histories wide", Histories([(v, l, i, i) for v in plainviews for l in ((("/h", "s"),), (("/h/ff", "s"), ("/p/q", "a")), (("/p", "a"), ("/tt", "s")))
                                            for i in (False, True)], acts(False)), 1)
        ck.enum("relabelled", lambda: [(v, tuple(zip(N4, f)), tuple(zip(N4, s)), h) for v in plainviews for f in itertools.product("pa", repeat=4)
                                       for s in itertools.product("ps", repeat=4) for h in ("set", "inplace", "node", "restore", "index")], relabelled)
        ck.unpriv = True
        ck.enum("host", lambda: [(v, tuple(zip(N4, l)), ()) for v in plainviews for l in itertools.product("ps", repeat=4)]
                + [(v, (), tuple((n, META) for n, m in zip(N4, ms) if m)) for v in metaviews for ms in itertools.product((0, 1), repeat=4)], host_part)
    ck.assume("the python command is an explicit escape hatch and is excluded; whether an exact hidden name exists may be learned "
              "from the refusal of a command that names it (error text is compared between worlds in which the same names exist)")
    ck.assume("the working directory is shared by all shells of a filesystem; histories in which another shell enters a hidden directory are not explored")

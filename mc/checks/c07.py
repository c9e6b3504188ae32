"""C07: a view-restricted shell cannot alter hidden nodes, and sees and uses all others."""
import fnmatch
import itertools
import posixpath

from ..canon import digest
from ..engine import Spec, equal, need
from ..env import SandboxShell
from ..fsops import VARIANTS, base, command, diff
from ..parts import W, clone, on
from ..refmodel import dump_vfs
from ..views import FILES, VIEWS, ancestors, allowed, build, everything, hidden_set, predicate, predicate_cases, view, within

META = (("k", "v"),)
OTHER = (("k", "w"),)
EXIST = ["/h", "/h/ff", "/p", "/p/gg", "/p/q", "/p/q/kk", "/p/qx", "/tt"]
NEW = ["/n", "/h/n", "/p/q/n", "/p/n/m", "/h/n/m", "/pp", "/p/qn"]


def text(f):
    return "KEY alpha %s\nsecond %s\n" % (FILES[f], FILES[f])


def parent(p):
    return p.rsplit("/", 1)[0] or "/"


class Restricted(Spec):
    def __init__(self, inits, acts, look=True):
        self.inits, self.acts, self.look = inits, acts, look

    def make(self, init):
        vname, labels, metas, index = init
        w = W()
        w.view = vname
        w.vfs = build(dict(labels), dict(metas), text)
        if index:
            w.vfs.enable_full_text_index()
        w.shell = SandboxShell(w.vfs, view=view(vname))
        w.first = True
        return w

    def actions(self, w):
        return self.acts

    # -- which operands are hidden, from the property text
    def blocked(self, vname, dump, path):
        """True / False / None (not specified) for a path named by a command."""
        v = VIEWS[vname]
        if "path_prefixes" in v and not any(within(path, x) or within(x, path) for x in v["path_prefixes"]):
            return True
        if path in dump:
            if any(not allowed(v, dump[a][3]) for a in ancestors(path)):
                return True
            if dump[path][0] == "f" and "metadata_filters" in v:
                return any(dict(dump[path][4]).get(k) != x for k, x in v["metadata_filters"].items())
            return False
        up = parent(path)
        while up not in dump:
            up = parent(up)
        if dump[up][0] != "d":
            return None
        return any(not allowed(v, dump[a][3]) for a in ancestors(up))

    def step(self, w, a):
        w.first = False
        before = dump_vfs(w.vfs)
        pwd = w.vfs.pwd()
        v = VIEWS[w.view]
        hid = hidden_set(w.view, before)
        if "metadata_filters" in v:  # directories stay usable under a metadata filter
            hid = {p for p in hid if before[p][0] == "f" or self.blocked(w.view, before, p)}
        twin = clone(w.vfs)
        ops = [o for o in a[1:] if o.startswith("/")]
        line = command(a) if a[0] != "line" else a[1]
        if a[0] == "line":
            ops = [t for t in a[1].split() if t.startswith("/")]
        r = w.shell.exec(line)
        after = dump_vfs(w.vfs)
        # hidden entries never change
        for p in hid:
            need(after.get(p) == before[p], "%r (view %s) changed hidden %s: %r became %r", line, w.view, p, before[p], after.get(p))
        for p in after:
            need(p in before or parent(p) not in hid, "%r (view %s) created %s inside a hidden directory", line, w.view, p)
        ops = [posixpath.normpath(o) for o in ops]
        blocked = [self.blocked(w.view, before, o) for o in ops]
        if any(blocked):
            need(r.exit_code != 0, "%r names a hidden node and was not refused (view %s)", line, w.view)
            equal(w.vfs.pwd(), pwd, "working directory after %r" % line)
            if a[0] != "line":
                need(after == before, "%r was refused but changed %s", line, diff(after, before))
            return "hidden"
        if None in blocked:
            return "unspecified"
        if base(a) in ("cpr", "mv", "rm", "rmr") and ops[0] in before:
            inside = [p for p in before if within(p, ops[0]) and p in hid]
            if inside:
                need(r.exit_code != 0 and after == before, "%r (view %s) took hidden %s along", line, w.view, inside)
                return "holds hidden"
        if a[0] == "line" and ("*" in line or (line.startswith("rm") and any(within(p, o) for p in hid for o in ops))):
            return "unspecified"
        if base(a) in ("cp", "cpr", "mv") and ops[1] in before and before[ops[1]][0] == "d":
            t = ops[1].rstrip("/") + "/" + ops[0].rsplit("/", 1)[1]
            if self.blocked(w.view, before, t):
                return "unspecified"
        u = SandboxShell(twin, view=everything()).exec(line)
        equal((r.exit_code, r.stdout), (u.exit_code, u.stdout), "result of %r with all operands visible (view %s)" % (line, w.view))
        want = dump_vfs(twin)
        need(after == want, "%r with all operands visible (view %s): %s", line, w.view, diff(after, want))
        equal(w.vfs.pwd(), twin.pwd(), "working directory after %r" % line)
        return "visible %d" % min(r.exit_code, 1)

    def key(self, w):
        return digest(w.vfs, w.view)

    def observe(self, w):
        if not (self.look or w.first):
            return
        dump = dump_vfs(w.vfs)
        hid = hidden_set(w.view, dump)
        un = SandboxShell(clone(w.vfs), view=everything())
        sh = w.shell
        for p in dump:
            blocked = self.blocked(w.view, dump, p)
            sub = [x for x in dump if within(x, p)]
            visible = not any(x in hid for x in sub)
            if dump[p][0] == "f":
                lines = ["cat " + p, "head -n 1 " + p, "tail -n 1 " + p, "wc " + p, "stat " + p, "grep -n KEY " + p, "cat < " + p,
                         "search KEY " + p, "ls " + p]
            else:
                lines = ["ls " + p, "ls -l " + p, "tree " + p, "find " + p, "rg KEY " + p, "search KEY " + p, "stat " + p]
            for line in lines:
                r = sh.exec(line)
                if blocked:
                    need(r.exit_code != 0 or (line.startswith("search") and r.stdout == ""),
                         "%r names a hidden node and succeeded (view %s): %r", line, w.view, r.stdout)
                elif visible:
                    u = un.exec(line)
                    equal((r.exit_code, r.stdout), (u.exit_code, u.stdout), "%r on visible nodes (view %s)" % (line, w.view))
            if dump[p][0] == "d" and not blocked:
                got = sh.exec("ls -l " + p)
                equal(got.exit_code, 0, "ls -l %s (view %s)" % (p, w.view))
                want = sorted(x for x in sub if x != p and parent(x) == p and x not in hid)
                equal(sorted(l[2:] for l in got.stdout.splitlines()), want, "ls -l %s (view %s)" % (p, w.view))
                got = sh.exec("find " + p)
                want = sorted(x for x in sub if not any(within(y, p) and y in hid for y in ancestors(x)))
                equal((got.exit_code, sorted(got.stdout.splitlines())), (0, want), "find %s (view %s)" % (p, w.view))
                got = sh.exec("rg -n KEY " + p)
                hits = sorted("%s:%d:%s" % (x, i, l) for x in sub if dump[x][0] == "f" and x not in hid
                              for i, l in enumerate(dump[x][1].splitlines(), 1) if "KEY" in l)
                equal((got.exit_code, sorted(got.stdout.splitlines())), (0, hits), "rg KEY %s (view %s)" % (p, w.view))
            if dump[p][0] == "d":
                got = sh.exec("search KEY " + p)
                hits = sorted("%s:%d:%s" % (x, i, l) for x in sub if dump[x][0] == "f" and x not in hid
                              for i, l in enumerate(dump[x][1].splitlines(), 1) if "KEY" in l)
                equal((got.exit_code, sorted(got.stdout.splitlines())), (0, hits), "search KEY %s (view %s)" % (p, w.view))
        for g in ("/*", "/p/*", "/p/q*", "/*/??", "*"):
            full = g if g.startswith("/") else "/" + g
            got = w.vfs.glob(g, cwd="/", view=view(w.view))
            want = [x for x in dump if x not in hid and fnmatch.fnmatchcase(x, full)]
            if g == "*":
                want = [x for x in want if parent(x) == "/" and x != "/"]
            equal(sorted(got), sorted(want), "glob %s (view %s)" % (g, w.view))


def acts(full):
    out = []
    paths = EXIST + NEW
    for p in paths:
        out += [("write", p, "x"), ("append", p, "x"), ("redir", p, "x"), ("redira", p, "x"), ("touch", p), ("mkdir", p), ("mkdirp", p),
                ("rm", p), ("rmr", p), ("cd", p)]
    src = EXIST if full else ["/h", "/h/ff", "/p", "/p/q", "/p/qx", "/tt"]
    dst = EXIST + NEW if full else ["/h", "/h/ff", "/p/q", "/p/q/kk", "/tt", "/n", "/h/n", "/p/q/n"]
    for s in src:
        for d in dst:
            out += [("cp", s, d), ("cpr", s, d), ("mv", s, d)]
    out += [("rmr#%d" % i, p) for i in range(len(VARIANTS["rmr"])) for p in EXIST]
    out += [("cpr#%d" % i, s, d) for i in range(len(VARIANTS["cpr"])) for s in ("/h", "/p", "/p/q", "/tt") for d in ("/n", "/h/n", "/p/q")]
    out += [("%s#%d" % (op, i), p, "x") for op in ("write", "append") for i in range(len(VARIANTS[op])) for p in ("/h/ff", "/p/q/kk", "/tt", "/h/n")]
    out += [("mkdirp#%d" % i, p) for i in range(2) for p in ("/h", "/h/n/m", "/p/q/n", "/n/m")]
    out += [("line", " ".join((c,) + t)) for c in ("rm", "touch", "rm -rf") for t in (("/tt", "/p/gg", "/h/ff"), ("/p/gg", "/p/qx", "/p/q/kk", "/tt"), ("/p/qx", "/p/gg", "/tt", "/h/ff", "/p/q/kk"))]
    out += [("line", " ".join((c,) + t)) for c in ("mkdir", "mkdir -p", "touch") for t in (("/n", "/p/n", "/h/n"), ("/n", "/n2", "/p/n", "/p/q/n", "/h/n", "/n3"))]
    out += [("line", l) for l in (
        "rm /tt /h/ff", "touch /tt /p/q/kk", "touch /p/q/kk /tt", "mkdir /n /h/n", "cat /tt > /h/ff", "cat /h/ff > /tt",
        "cat /tt >> /p/q/kk", "echo x > /h/new", "write /h/ff --append x", "write /h/ff --text x", "rm -rf /h /tt",
        "append /p/q/../../h/ff x", "echo x | cat > /p/q/kk", "rm -rf /p/*", "cp /tt /h/../h/ff")]
    return out


SMALL = [("mv", "/h", "/n"), ("mv", "/h/ff", "/n"), ("mv", "/tt", "/p/q"), ("cpr", "/p", "/n"), ("cpr", "/h", "/p/q/n"),
         ("cp", "/tt", "/h/n"), ("cp", "/p/gg", "/n"), ("rmr", "/p"), ("rmr", "/h"), ("rm", "/h/ff"), ("write", "/n", "x"),
         ("write", "/h/ff", "x"), ("append", "/p/q/kk", "x"), ("cd", "/p"), ("cd", "/h"), ("mkdirp", "/h/n/m"), ("touch", "/h/n"),
         ("mv", "/p/q", "/h"), ("mv", "/n", "/tt"), ("rmr", "/n"), ("mv", "/p", "/h")]


def host_part(case):
    vname, labels = case
    vfs = build(dict(labels), {}, text)
    before = dump_vfs(vfs)
    hid = hidden_set(vname, before)
    sh = SandboxShell(vfs, view=view(vname))
    for script in ("echo x > tt", "mkdir -p h && echo x > h/ff", "rm -f p/q/kk", "mkdir -p p/q && echo y > p/q/new; echo z > p/gg",
                   "rm -f h/ff tt; rmdir h 2>/dev/null"):
        r = sh.exec("host -p / sh -c '%s'" % script)
        after = dump_vfs(vfs)
        for p in hid:
            equal(after.get(p), before[p], "hidden %s after host script %r (view %s)" % (p, script, vname))
        for p in after:
            need(p in before or parent(p) not in hid, "host script %r (view %s) created %s inside a hidden directory", script, vname, p)
    return sorted(after)


def run(ck):
    plain = [v for v in VIEWS if not v.startswith("meta")]
    labs = lambda nodes, letters: [tuple(zip(nodes, l)) for l in itertools.product(letters, repeat=len(nodes))]  # noqa: E731
    metas = [tuple((n, META) for n, m in zip(["/h/ff", "/p", "/p/q/kk", "/tt"], ms) if m) for ms in itertools.product((0, 1), repeat=4)]
    metas += [tuple((n, m) for n, m in zip(["/h", "/p", "/p/q", "/p/gg"], ms) if m)
              for ms in itertools.product(((), META, OTHER), ((), OTHER), ((), META, OTHER), (META, OTHER))]
    some = ["pub", "pub+ali", "/p", "/p/q,/h", "ali+/h"]
    ck.enum("the predicate", lambda: predicate_cases(not ck.quick), lambda c: predicate(c, True),
            "classifications x principals x prefixes x metadata filters, for every labelling of one file and its directory")
    if ck.quick:
        inits = [(v, l, (), False) for v in plain for l in labs(["/h", "/p/q", "/tt"], "ps")] + \
                [(v, l, (), True) for v in some for l in labs(["/h/ff", "/p", "/p/q/kk"], "pa")] + \
                [(v, l, (), False) for v in ("ali", "sec+ali", "pub+ali") for l in labs(["/h", "/p/q", "/tt"], "pb")] + \
                [("meta", (), m, False) for m in metas]
        ck.bfs("every command", Restricted(inits, acts(False), look=False), 1)
        ck.bfs("histories", Restricted([("pub", (("/h", "s"), ("/p/q/kk", "s")), (), True), ("/p/q,/h", (), (), False),
                                        ("/p", (("/p/q", "a"),), (), False)], SMALL), 2)
        hosts = [("pub", (("/h", "s"), ("/tt", "s"))), ("pub", (("/h/ff", "s"), ("/p/q", "s"))), ("/p/q,/h", ()), ("/p", ())]
    else:
        inits = [(v, l, (), i) for v in plain for l in labs(["/h", "/h/ff", "/p/q", "/tt"], "psa") for i in (False, True)] + \
                [(v, (), m, i) for v in VIEWS if v not in plain for m in metas for i in (False, True)] + \
                [(v, l, (), False) for v in plain for l in labs(["/p", "/p/q", "/p/q/kk"], "psabd")]
        ck.bfs("every command", Restricted(inits, acts(True)), 1)
        ck.bfs("histories", Restricted([(v, l, (), True) for v in some + ["pubsec"] for l in (
            (("/h", "s"), ("/p/q/kk", "s")), (), (("/p/q", "a"),), (("/h/ff", "a"), ("/tt", "s")))], SMALL), 3)
        hosts = [(v, l) for v in plain for l in labs(["/h", "/h/ff", "/p/q", "/tt"], "ps")]
    ck.unpriv = True
    ck.enum("host scripts", lambda: hosts, host_part)
    ck.assume("metadata filters hide files; directories that do not match stay usable by name (the shell lets a view pass through them)")
    ck.assume("the result of moving or copying a visible node into a directory where the resulting path lies outside the view's prefixes is not specified")

"""C04: read-only and append-only policies against every route."""
import itertools

from ..canon import digest
from ..engine import Spec, Violation, equal, need
from ..env import SandboxShell
from ..fsops import SPELLED, actions, base, do_ref, do_shell, do_vfs, same_dump, setup, strip
from ..parts import W
from ..refmodel import PUB, dump_vfs, fmt

RO = (True, False, False, "public", ())
AO = (True, True, True, "public", ())
ROAO = (True, False, True, "public", ())
POLS = {"w": PUB, "r": RO, "a": AO, "x": ROAO}
NODES = ["/d", "/d/f", "/t", "/e", "/", "/d/g", "/d/g/h"]
TEXT = {"/d/f": "tokenf", "/t": "tokent", "/d/g/h": "tokenh"}


class Protected(Spec):
    def __init__(self, inits, paths, sets, *, route="api", dests=None, setpol=()):
        self.inits = inits
        self.acts = actions(paths, sets=sets, dests=dests, data="x") + [
            ("setpol", p, POLS[k]) for p in setpol for k in "wra"]
        self.route = route

    def make(self, init):
        w = W()
        pols = dict(zip(NODES, init))
        ents = [("/d", None), ("/d/f", "tokenf"), ("/t", "tokent"), ("/e", None)]
        if len(init) > 5:
            ents += [("/d/g", None), ("/d/g/h", "tokenh")]
        if "/" in pols:
            ents.append(("/", None))
        w.vfs, w.ref = setup([e + (POLS[pols[e[0]]],) for e in ents])
        w.tokens = [(p.rsplit("/", 1)[1], TEXT[p], pols[p]) for p in TEXT if pols.get(p, "w") != "w"]
        w.shell = SandboxShell(w.vfs) if self.route == "shell" else None
        return w

    def actions(self, w):
        return self.acts

    def step(self, w, a):
        saved = {t: n.clone() for t, n in w.ref.nodes.items()} if base(a) == "rmr" else None
        ra = (a[0].replace("redira", "append").replace("redir", "write"),) + tuple(a[1:])
        want = do_ref(w.ref, ra)
        if w.shell and a[0] not in ("setpol",):
            got = do_shell(w.shell, a)
        else:
            got = do_vfs(w.vfs, a)
        equal(got, want, "outcome of %s" % (a,))
        if a[0] == "setpol" and want == "ok":
            # the host changed the policy itself: from now on other entries are protected
            w.tokens = []
            for t, n in w.ref.nodes.items():
                if n.kind == "f" and (not n.pol[1] or n.pol[2]) and n.content.startswith("token"):
                    w.tokens.append((t[-1], n.content, "a" if n.pol[1] else "r"))
        if base(a) == "rmr" and want == "err":
            # may have stopped half way: nothing protected went, the rest is untouched
            real = dump_vfs(w.vfs)
            old = {fmt(t): n for t, n in saved.items()}
            for p in real:
                need(p in old, "%s appeared during a failed removal", p)
                equal(real[p], old[p].row(), p + " after a failed removal")
            target = w.ref.norm(a[1])
            for p, n in old.items():
                t = w.ref.norm(p)
                if p not in real:
                    par = saved[t[:-1]]
                    need(t[:len(target)] == target, "%s vanished in removal of %s", p, a[1])
                    need(n.pol[1] and not n.pol[2], "protected %s was removed by %s", p, a)
                    need(par.pol[1] and not par.pol[2], "%s was removed from protected directory by %s", p, a)
            w.ref.nodes = {t: n for t, n in saved.items() if fmt(t) in real}
        return want

    def key(self, w):
        return digest(w.vfs, w.tokens)

    def observe(self, w):
        real = dump_vfs(w.vfs)
        same_dump(strip(real, (0, 1, 3)), strip(w.ref.dump(), (0, 1, 3)), "tree")
        for name, text, kind in w.tokens:
            hits = [r[1] for p, r in real.items() if r[0] == "f" and p.rsplit("/", 1)[1] == name]
            if kind in "rx":
                need(text in hits, "read-only file %s with content %r is gone: %r", name, text, hits)
            else:
                need(any(h.startswith(text) for h in hits), "append-only file %s lost content: %r", name, hits)


ALL = ("mkdir", "mkdirp", "write", "append", "touch", "rm", "rmr", "mv", "cp", "cpr")
SH = ALL + ("redir", "redira")
P = ["/d", "/d/f", "/t", "/e", "/d/n", "/n/m"]


def check_spot(case):
    """One protected file somewhere in a wide or deep tree: no route gets past it."""
    n, shape, at, kind, cmd = case
    if shape == "wide":
        files = ["/w/n%02d" % i for i in range(n)]
    else:
        files = ["/w" + "".join("/l%d" % j for j in range(i + 1)) + "/f" for i in range(n)]
    spot = files[at if at >= 0 else n + at]
    vfs, _ = setup([(p, "t" + p, POLS[kind if p == spot else "w"]) for p in files] + [("/e", None), ("/x", "x")])
    up = spot.rsplit("/", 1)[0]
    sh = SandboxShell(vfs)
    line = cmd.replace("SPOT", spot).replace("UP", up).replace("ALL", " ".join(files))
    before = dump_vfs(vfs)
    r = sh.exec(line)
    need(r.exit_code != 0, "%s succeeded with %s protected (%s)", line, spot, kind)
    after = dump_vfs(vfs)
    equal(after.get(spot), before[spot], "protected %s after %s" % (spot, line))
    for p in after:
        need(p in before, "%s appeared in the refused %s", p, line)
    if cmd.startswith(("cp", "mv", "echo", "write")):
        same_dump(after, before, "tree after the refused " + line)
    return cmd


SPOT = ["rm -r /w", "rm --recursive UP", "rm ALL", "rm -r /e /x /w", "rm SPOT", "echo z > SPOT", "write SPOT z", "cp /x SPOT", "mv /x SPOT", "mv SPOT /e/f", "mv SPOT /y", "rm -r /w/../w", "rm /w/*/f -r"]


def spots():
    for shape, ns in (("wide", (1, 2, 7, 20, 60)), ("deep", (1, 2, 5, 12, 25))):
        for n in ns:
            for at in sorted({0, 1, n // 2, n - 2, n - 1}):
                if 0 <= at < n:
                    for kind in "ra":
                        for cmd in SPOT:
                            if "*" in cmd and (shape == "wide" or at):
                                continue
                            yield n, shape, at, kind, cmd


def run(ck):
    all5 = list(itertools.product("wra", repeat=5))
    all3 = [x + ("w",) for x in itertools.product("wra", repeat=3)]
    deep = [("w",) * 5 + x for x in itertools.product("wra", repeat=2)]
    deepd = [(d, f, "w", "w", "w", g, h) for d in "wra" for f in "wra" for g in "wra" for h in "wra"]
    dests = P + ["/", "/e/f"]
    if ck.quick:
        ck.bfs("api/every assignment", Protected(all5, P, ALL, dests=dests), 1)
        ck.bfs("api/histories", Protected(all3, ["/d", "/d/f", "/t", "/e"], ALL, dests=["/d", "/t", "/e", "/d/f", "/n"]), 2)
        ck.bfs("api/recursion", Protected(deepd, ["/d", "/d/g", "/d/g/h", "/e"], ("rmr", "rm", "mv", "cpr", "write", "touch")), 2)
        ck.bfs("shell/every assignment", Protected(all3 + [("x", "x", "x", "w"), ("w", "x", "w", "x")], P, SH, route="shell", dests=dests), 1)
        ck.bfs("api/policy changes", Protected([("w", "w", "w", "w")], ["/d", "/d/f", "/t"],
                                               ("write", "append", "rm", "mv", "cp", "touch"), setpol=["/d", "/d/f", "/t"]), 3)
    else:
        ck.bfs("api/every assignment", Protected(all5, P, ALL, dests=dests), 2)
        ck.bfs("api/histories", Protected(all3, ["/d", "/d/f", "/t", "/e"], ALL, dests=["/d", "/t", "/e", "/d/f", "/n"]), 3)
        ck.bfs("api/recursion", Protected(deepd, ["/d", "/d/g", "/d/g/h", "/e"], ALL), 2)
        ck.bfs("shell/every assignment", Protected(all3 + [("x", "x", "x", "w"), ("w", "x", "w", "x")], P, SH, route="shell", dests=dests), 2)
        ck.bfs("api/policy changes", Protected([("w", "w", "w", "w")], ["/d", "/d/f", "/t"],
                                               ("write", "append", "rm", "mv", "cp", "touch"), setpol=["/d", "/d/f", "/t"]), 4)
    ck.bfs("shell/other spellings", Protected(all3 if ck.quick else all5, P, SPELLED, route="shell", dests=dests), 1)
    ck.enum("one protected entry in a large tree", spots, check_spot)
    from .c19 import CORE, EDITS, check_protected
    ck.unpriv = True
    ck.enum("host tools", lambda: itertools.product(itertools.product("wra", repeat=4), [[e] for e in EDITS] + ([] if ck.quick else [list(p) for p in itertools.product(CORE, repeat=2)])), check_protected,
            "every assignment of policies x every edit a host tool makes to its copy: protected entries stay, with an error")
    ck.assume("a directory may be moved or copied together with protected entries inside it (their names and content stay)")

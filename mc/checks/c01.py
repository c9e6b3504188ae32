"""C01: every spelling of a path, in every operation, means its lexical normal form."""
import contextlib
import itertools
import pickle
import shlex
import tempfile
from pathlib import Path, PurePosixPath

from .. import storage as scratch

from ..engine import Violation, equal, need
from ..env import (MemoryStorageAdapter, NodePolicy, SandboxError, SandboxShell, SearchQuery, VirtualFileSystem,
                   clock)
from ..fsops import same_dump, setup
from ..refmodel import RefFS, Refused, dump_vfs, fmt
from ..values import GLOBBY, NAMES, PAIRS, shellable

TREE = [("/a", None), ("/a/b", None), ("/a/b/f", "one f\n"), ("/f", "zero f\n"), ("/b", None), ("/b/f", "two f\n"),
        ("/b/a", None), ("/src", "s"), ("/srcd", None), ("/srcd/f", "t f\n")]
CWDS = ["/", "/a", "/a/b", "/b"]


def build(cwd, index=False):
    clock.reset()
    vfs, ref = setup(TREE)
    if index:
        vfs.enable_full_text_index()
    vfs.cd(cwd)
    ref.cd(cwd)
    return vfs, ref


_cache = {}


def fresh(cwd, index=False):
    k = (cwd, index)
    if k not in _cache:
        vfs, ref = build(cwd, index)
        _cache[k] = (pickle.dumps(vfs, -1), pickle.dumps(ref, -1))
    clock.reset()
    return pickle.loads(_cache[k][0])


def model(cwd):
    fresh(cwd)
    return pickle.loads(_cache[(cwd, False)][1])


def call(fn):
    try:
        return ("ok", fn())
    except SandboxError:
        return ("err", None)


def entries(es):
    return [(e.name, str(e.path), e.is_dir) for e in es]


READ = {
    "ls": lambda v, p: entries(v.ls(p)),
    "read_file": lambda v, p: v.read_file(p),
    "exists": lambda v, p: v.exists(p),
    "is_dir": lambda v, p: v.is_dir(p),
    "is_file": lambda v, p: v.is_file(p),
    "get_version": lambda v, p: v.get_version(p),
    "get_node": lambda v, p: str(v.get_node(p).path()),
    "get_policy": lambda v, p: v.get_policy(p).classification,
    "walk": lambda v, p: sorted(str(x) for x, _ in v.walk(p)),
    "iter_files": lambda v, p: sorted(str(x) for x, _ in v.iter_files(p)),
    "tree": lambda v, p: v.tree(p),
    "glob cwd": lambda v, p: (v.glob("f", cwd=p), v.glob("*/f", cwd=p), v.glob("a/*", cwd=p)),
    "glob": lambda v, p: globbed(v, p),
    "export": lambda v, p: exported(v, p, False),
    "materialize": lambda v, p: exported(v, p, True),
    "search prefix": lambda v, p: sorted((str(r.path), r.line_no) for r in v.search(
        SearchQuery("f", path_prefix=PurePosixPath(p)))),
}


def globbed(v, p):
    """Patterns that start with a spelling."""
    p = str(p)
    base = p if p.endswith("/") else (p or ".") + "/"
    return [sorted(v.glob(base + x)) for x in ("*", "f", "[a-c]", "*/?")]


def exported(v, p, tmp):
    if tmp:
        with v.materialize(p) as root:
            return sorted(str(x.relative_to(root)) for x in root.rglob("*"))
    root = Path(scratch.scratch())
    try:
        v.export_to_path(root / "out", source=p)
        return sorted(str(x.relative_to(root / "out")) for x in root.rglob("out/**/*"))
    finally:
        scratch.remove(str(root))


def searched(v, p):
    v.enable_search_view(p)
    v.write_file("/f", "zz")
    with v.search_view_context(SearchQuery("zz")):
        at = str(v.get_node(p).path())
        return at, entries(v.ls(p)), entries(v.ls(at))


def hooked(v, p):
    log = []
    v.register_write_hook(p, lambda e: log.append(("w", e.path)))
    v.register_path_hook(p, lambda e: log.append(("p", e.path)))
    for q in ("/f", "/a/b/f", "/b/f", "/a/zz"):
        v.write_file(q, "h")
    return log


def storage(v, p):
    ad = MemoryStorageAdapter({"n": "stored"})
    v.mount_storage(p, ad)
    v.sync_storage(p)
    v.write_file(str(v.get_node(p).path()) + "/m", "x")
    return sorted(ad.list())


WRITE = {
    "cd": lambda v, p: v.cd(p),
    "mkdir": lambda v, p: v.mkdir(p) and None,
    "mkdir parents": lambda v, p: str(v.mkdir(p, parents=True, exist_ok=True).path()),
    "write_file": lambda v, p: str(v.write_file(p, "new").path()),
    "append_file": lambda v, p: str(v.append_file(p, "new").path()),
    "touch": lambda v, p: str(v.touch(p).path()),
    "remove": lambda v, p: v.remove(p),
    "remove recursive": lambda v, p: v.remove(p, recursive=True),
    "move from": lambda v, p: v.move(p, "/dest"),
    "move to": lambda v, p: v.move("/src", p),
    "move dir to": lambda v, p: v.move("/srcd", p),
    "copy from": lambda v, p: v.copy(p, "/dest", recursive=True),
    "copy to": lambda v, p: v.copy("/src", p),
    "copy dir to": lambda v, p: v.copy("/srcd", p, recursive=True),
    "set_policy": lambda v, p: v.set_policy(p, NodePolicy(classification="k")),
    "mount_file": lambda v, p: str(v.mount_file(p, provide).path()),
    "mount_directory": lambda v, p: str(v.mount_directory(p, provide_dir).path()),
    "mount_storage": storage,
    "hooks": hooked,
    "search view": searched,
}


def provide(ctx):
    return "dyn " + str(ctx.path)


def provide_dir(ctx):
    return {}


MODEL = {
    "mkdir": lambda r, p: r.mkdir(p),
    "mkdir parents": lambda r, p: r.mkdir(p, parents=True, exist_ok=True),
    "write_file": lambda r, p: r.write(p, "new"),
    "append_file": lambda r, p: r.write(p, "new", append=True),
    "touch": lambda r, p: r.touch(p),
    "remove": lambda r, p: r.remove(p),
    "remove recursive": lambda r, p: r.remove(p, recursive=True),
    "move from": lambda r, p: r.move(p, "/dest"),
    "move to": lambda r, p: r.move("/src", p),
    "copy from": lambda r, p: r.copy(p, "/dest", recursive=True),
    "copy to": lambda r, p: r.copy("/src", p),
    "cd": lambda r, p: r.cd(p),
}

SHELL_READ = ["ls {}", "ls -l {}", "cat {}", "tree {}", "wc {}", "grep f {}", "rg f {}", "search f {}", "stat {}",
              "head {}", "tail {}", "find {}", "cat < {}", "echo {}*"]
SHELL_WRITE = ["cd {}", "touch {}", "mkdir {}", "mkdir -p {}", "rm {}", "rm -r {}", "cp -r {} /dest", "cp /src {}",
               "mv {} /dest", "mv /src {}", "write {} new", "append {} new", "echo new > {}", "echo new >> {}"]


def shell_out(shell, line, p):
    if line == "echo {}*":
        p = p if p.endswith("/") else (p or ".") + "/"
    r = shell.exec(line.format(shlex.quote(p)))
    out = r.stdout
    if line.startswith("echo {}*"):
        out = sorted(out.split()) if out.strip() != p + "*" else []
    if line.startswith("wc"):
        out = out[:-len(p)].split() if r.exit_code == 0 else out
    return (r.exit_code, out)


_canon = {}


def canonical(cwd, op, c, kind):
    """Result of an operation on the canonical absolute path (cached), with its model comparison."""
    k = (cwd, op, c, kind)
    if k in _canon:
        return _canon[k]
    vfs, ref = fresh(cwd), model(cwd)
    t = ref.norm(c)
    if kind == "read":
        res = call(lambda: READ[op](vfs, c))
        if op == "get_node":
            equal(res, ("ok", fmt(t)) if t in ref.nodes else ("err", None), "get_node(%s)" % c)
        if op in ("exists", "is_dir", "is_file"):
            n = ref.nodes.get(t)
            want = {"exists": n is not None, "is_dir": n is not None and n.kind == "d",
                    "is_file": n is not None and n.kind == "f"}[op]
            equal(res, ("ok", want), "%s(%s)" % (op, c))
    elif kind == "write":
        res = (call(lambda: WRITE[op](vfs, c)), dump_vfs(vfs), vfs.pwd())
        if op in MODEL:
            try:
                MODEL[op](ref, c)
                ok = "ok"
            except Refused:
                ok = "err"
            equal(res[0][0], ok, "%s(%s) in %s" % (op, c, cwd))
            same_dump(res[1], ref.dump(), "%s(%s)" % (op, c))
    elif kind == "sread":
        res = shell_out(SandboxShell(vfs), op, c)
    else:
        res = (shell_out(SandboxShell(vfs), op, c), dump_vfs(vfs), vfs.pwd())
    _canon[k] = res
    return res


def check(case):
    cwd, sp = case
    ref = model(cwd)
    c = fmt(ref.norm(sp))
    forms = [sp, PurePosixPath(sp)] if sp.count("/") <= 2 else [sp]
    vfs = fresh(cwd)
    vfsi = fresh(cwd, True)
    before = dump_vfs(vfs)
    out = []
    for op, fn in READ.items():
        for form in forms:
            got = call(lambda: fn(vfs, form))
            equal(got, canonical(cwd, op, c, "read"), "%s(%r) in %s, i.e. %s" % (op, form, cwd, c))
    out.append(got)
    equal(call(lambda: READ["search prefix"](vfsi, sp)), canonical(cwd, "search prefix", c, "read"),
          "indexed search below %r in %s" % (sp, cwd))
    shell = SandboxShell(vfs)
    for line in SHELL_READ:
        equal(shell_out(shell, line, sp), canonical(cwd, line, c, "sread"), "'%s' with %r in %s" % (line, sp, cwd))
    same_dump(dump_vfs(vfs), before, "tree after reading through %r" % sp)
    for op, fn in WRITE.items():
        for form in forms:
            v = fresh(cwd)
            got = (call(lambda: fn(v, form)), dump_vfs(v), v.pwd())
            want = canonical(cwd, op, c, "write")
            if got != want:
                same_dump(got[1], want[1], "tree after %s(%r) in %s" % (op, form, cwd))
                raise Violation("%s(%r) in %s: got %r, expected %r" % (op, form, cwd, got[::2], want[::2]))
    for line in SHELL_WRITE:
        v = fresh(cwd)
        got = (shell_out(SandboxShell(v), line, sp), dump_vfs(v), v.pwd())
        want = canonical(cwd, line, c, "swrite")
        if got != want:
            same_dump(got[1], want[1], "tree after '%s' with %r in %s" % (line, sp, cwd))
            raise Violation("'%s' with %r in %s: got %r, expected %r" % (line, sp, cwd, got[::2], want[::2]))
    return (c, tuple(sorted(dump_vfs(v))))


def spellings(depth, alphabet):
    for n in range(0, depth + 1):
        for comps in itertools.product(alphabet, repeat=n):
            body = "/".join(comps)
            yield "/" + body
            if not body.startswith("/"):
                yield body


def names(case):
    """Two names that differ are two entries, in every operation; and one name is one entry."""
    a, b, cwd = case
    base = "" if cwd else "/d/"
    full = ["/d/" + a, "/d/" + b]

    def start():
        clock.reset()
        vfs, ref = setup([("/d", None), ("/d/" + a, None), ("/d/%s/f" % a, "one"), ("/src", "s"), ("/srcd", None), ("/srcd/f", "t")])
        if cwd:
            vfs.cd("/d")
            ref.cd("/d")
        return vfs, ref

    for op, fn in MODEL.items():
        for n in (a, b, a + "/f", b + "/f", a + "/" + b, b + "/../" + a + "/f"):
            for form in (base + n, PurePosixPath(base + n)):
                vfs, ref = start()
                got = call(lambda: WRITE[op](vfs, form))[0]
                try:
                    fn(ref, base + n)
                    want = "ok"
                except Refused:
                    want = "err"
                equal(got, want, "%s(%r)" % (op, base + n))
                same_dump(dump_vfs(vfs), ref.dump(), "%s(%r)" % (op, base + n))
                equal(vfs.pwd(), fmt(ref.cwd), "pwd after %s(%r)" % (op, base + n)) if not ref.dangling else None
    vfs, ref = start()
    vfs.write_file(base + b, "two")
    ref.write(base + b, "two")
    shell = SandboxShell(vfs)
    for v in (None, "enable"):
        if v:
            vfs.enable_full_text_index()
        for n in (a, b):
            t = ref.norm(base + n)
            p = base + n
            equal([vfs.exists(p), vfs.is_dir(p), vfs.is_file(p), str(vfs.get_node(p).path()), vfs.get_node(p).name],
                  [True, n == a, n == b, fmt(t), n], "entry %r" % p)
            equal(entries(vfs.ls("/d")), [(x, "/d/" + x, not isf) for isf, x in ref.ls(("d",))], "ls")
            equal(sorted((str(r.path), r.line_no) for r in vfs.search(SearchQuery("", path_prefix=PurePosixPath(p)))),
                  [("/d/%s/f" % a, 1)] if n == a else [("/d/" + b, 1)], "search below %r" % p)
            if shellable(p) and shellable(n):
                q = shlex.quote(p)
                equal(shell_out(shell, "ls {}", p), (0, "f" if n == a else b) if n == a else shell_out(shell, "ls {}", "/d/" + b), "ls " + q)
                equal(shell_out(shell, "cat {}", p), (0, "two") if n == b else (1, ""), "cat " + q)
                r = shell.exec("stat " + q)
                need(r.exit_code == 0 and fmt(t) in r.stdout, "stat %s: %r", q, r)
    return (len(vfs.ls("/d")), call(lambda: vfs.read_file(base + a + "/f")))


def pairs(full):
    ps = list(PAIRS) + [(y, x) for x, y in PAIRS]
    for n in NAMES + GLOBBY:
        for m in (NAMES + GLOBBY if full else ["x", "a", n.strip() or "x", n.strip("._~-@#")[:5] or "x"]):
            if m != n and (n, m) not in ps:
                ps.append((n, m))
    return [(x, y, c) for x, y in ps for c in (False, True)]


def run(ck):
    ck.unpriv = True
    tempfile.tempdir = scratch.BASE
    alphabet = ["a", "b", "f", "..", ".", ""]
    odd = ["...", "..f", ".f", "f.", "a b", "..", "a"]
    small = ["a", "f", "..", ""]
    n, m, cw = (2, 4, ["/a", "/a/b"]) if ck.quick else (3, 6, ["/", "/a", "/a/b", "/b"])

    def cases():
        seen = set()
        for cwd in (CWDS if ck.quick else CWDS):
            for sp in spellings(n, alphabet):
                if (cwd, sp) not in seen:
                    seen.add((cwd, sp))
                    yield (cwd, sp)
        for cwd in cw:
            for sp in spellings(m, small if ck.quick else ["a", "..", "f"]):
                if (cwd, sp) not in seen:
                    seen.add((cwd, sp))
                    yield (cwd, sp)
        for sp in spellings(2 if ck.quick else 3, odd):
            if ("/a", sp) not in seen:
                seen.add(("/a", sp))
                yield ("/a", sp)

    ck.enum("spellings", cases, check,
            "all spellings of up to %d components over %s and up to %d over a smaller alphabet, per working "
            "directory, plus unusual names such as '...' and '..f', as text and path object, through %d API operations and %d commands" % (
                n, alphabet, m, len(READ) + len(WRITE), len(SHELL_READ) + len(SHELL_WRITE)))
    ck.enum("names", lambda: pairs(not ck.quick), names, "pairs of unusual or easily confused names, through every operation that has a model, "
            "absolute and relative, as text and path object")
    ck.assume("working directories exist; component names contain no NUL")

"""Actions on the filesystem, applied to the real code and to the reference model."""
import shlex

from .engine import Violation, equal, need
from .env import SandboxError, SandboxShell, VirtualFileSystem
from .refmodel import PUB, N, RefFS, Refused, dump_vfs, fmt, pol_obj


def setup(entries, vfs=None):
    """entries: list of (path, content or None for a directory[, policy tuple[, metadata dict items]])."""
    vfs = vfs or VirtualFileSystem()
    ref = RefFS()
    for e in entries:
        path, content = e[0], e[1]
        if path != "/":
            if content is None:
                vfs.mkdir(path, parents=True, exist_ok=True)
                ref.mkdir(path, parents=True, exist_ok=True)
            else:
                vfs.write_file(path, content)
                ref.write(path, content)
    for e in entries:
        path = e[0]
        if len(e) > 2 and e[2] != PUB:
            vfs.set_policy(path, pol_obj(e[2]))
            ref.nodes[ref.norm(path)].pol = e[2]
        if len(e) > 3:
            vfs.get_node(path).metadata.update(dict(e[3]))
            ref.nodes[ref.norm(path)].meta = tuple(sorted(e[3]))
    ref.events.clear()
    return vfs, ref


# other ways to write the same command
VARIANTS = {
    "rmr": ["rm -R {0}", "rm -rf {0}", "rm --recursive {0}", "rm {0} -r", "rm -r {0} -r"],
    "cpr": ["cp -R {0} {1}", "cp --recursive {0} {1}", "cp {0} -r {1}", "cp {0} {1} -R", "cp -r {0} {1} -r"],
    "mkdirp": ["mkdir --parents {0}", "mkdir {0} -p"],
    "write": ["write {0} --text {1}", "printf {1} > {0}", "echo -n {1} | cat > {0}", "echo -n {1}|cat>{0}"],
    "append": ["write {0} --append {1}", "write {0} {1} --append", "write {0} --append --text {1}", "write {0} --text {1} --append", "echo -n {1}|cat>>{0}"],
}
SPELLED = tuple("%s#%d" % (op, i) for op, forms in VARIANTS.items() for i in range(len(forms)))


def base(a):
    """The operation of an action, however its command is spelled."""
    return a[0].split("#")[0]


def do_vfs(vfs, a):
    """Runs one action on the real filesystem: 'ok' or 'err' (a SandboxError)."""
    op = base(a)
    try:
        if op == "mkdir":
            vfs.mkdir(a[1])
        elif op == "mkdirp":
            vfs.mkdir(a[1], parents=True, exist_ok=True)
        elif op == "write":
            vfs.write_file(a[1], a[2])
        elif op == "writev":
            vfs.write_file(a[1], a[2], expected_version=a[3])
        elif op == "append":
            vfs.append_file(a[1], a[2])
        elif op == "appendv":
            vfs.append_file(a[1], a[2], expected_version=a[3])
        elif op == "touch":
            vfs.touch(a[1])
        elif op == "rm":
            vfs.remove(a[1])
        elif op == "rmr":
            vfs.remove(a[1], recursive=True)
        elif op == "mv":
            vfs.move(a[1], a[2])
        elif op == "cp":
            vfs.copy(a[1], a[2])
        elif op == "cpr":
            vfs.copy(a[1], a[2], recursive=True)
        elif op == "cd":
            vfs.cd(a[1])
        elif op == "meta":
            vfs.get_node(a[1]).metadata[a[2]] = a[3]
        elif op == "polin":  # in place
            p = vfs.get_policy(a[1])
            p.classification = "mark"
            p.principals.add("p")
        elif op == "setpol":
            vfs.set_policy(a[1], pol_obj(a[2]))
        else:
            raise AssertionError(op)
    except SandboxError:
        return "err"
    return "ok"


def do_ref(ref, a):
    op = base(a)
    try:
        if op == "mkdir":
            ref.mkdir(a[1])
        elif op == "mkdirp":
            ref.mkdir(a[1], parents=True, exist_ok=True)
        elif op == "write":
            ref.write(a[1], a[2])
        elif op == "writev":
            ref.write(a[1], a[2], expected=a[3])
        elif op == "append":
            ref.write(a[1], a[2], append=True)
        elif op == "appendv":
            ref.write(a[1], a[2], append=True, expected=a[3])
        elif op == "touch":
            ref.touch(a[1])
        elif op == "rm":
            ref.remove(a[1])
        elif op == "rmr":
            ref.remove(a[1], recursive=True)
        elif op == "mv":
            ref.move(a[1], a[2])
        elif op == "cp":
            ref.copy(a[1], a[2])
        elif op == "cpr":
            ref.copy(a[1], a[2], recursive=True)
        elif op == "cd":
            ref.cd(a[1])
        elif op == "meta":
            n = ref.get(ref.norm(a[1]))
            n.meta = tuple(sorted(dict(n.meta, **{a[2]: a[3]}).items()))
        elif op == "polin":
            n = ref.get(ref.norm(a[1]))
            n.pol = n.pol[:3] + ("mark", tuple(sorted(set(n.pol[4]) | {"p"})))
        elif op == "setpol":
            ref.get(ref.norm(a[1])).pol = tuple(a[2])
        else:
            raise AssertionError(op)
    except Refused:
        return "err"
    return "ok"


def command(a):
    """The shell command line for an action."""
    q = shlex.quote
    op = a[0]
    if "#" in op:
        name, i = op.split("#")
        return VARIANTS[name][int(i)].format(*map(q, a[1:]))
    return {
        "mkdir": lambda: "mkdir " + q(a[1]),
        "mkdirp": lambda: "mkdir -p " + q(a[1]),
        "write": lambda: "write %s %s" % (q(a[1]), q(a[2])),
        "append": lambda: "append %s %s" % (q(a[1]), q(a[2])),
        "redir": lambda: "echo -n %s > %s" % (q(a[2]), q(a[1])),
        "redira": lambda: "echo -n %s >> %s" % (q(a[2]), q(a[1])),
        "touch": lambda: "touch " + q(a[1]),
        "rm": lambda: "rm " + q(a[1]),
        "rmr": lambda: "rm -r " + q(a[1]),
        "mv": lambda: "mv %s %s" % (q(a[1]), q(a[2])),
        "cp": lambda: "cp %s %s" % (q(a[1]), q(a[2])),
        "cpr": lambda: "cp -r %s %s" % (q(a[1]), q(a[2])),
        "cd": lambda: "cd " + q(a[1]),
    }[op]()


def do_shell(shell, a):
    r = shell.exec(command(a))
    need(isinstance(r.exit_code, int) and isinstance(r.stdout, str) and isinstance(r.stderr, str),
         "malformed result of %s: %r", a, r)
    return "ok" if r.exit_code == 0 else "err"


def actions(paths, *, data="x", dests=None, sets=("mkdir", "mkdirp", "write", "append", "touch", "rm", "rmr",
                                                   "mv", "cp", "cpr"), cds=()):
    out = []
    dests = dests or paths
    for form in sets:
        op = form.split("#")[0]
        if op in ("mkdir", "mkdirp", "touch", "rm", "rmr", "polin"):
            out += [(form, p) for p in paths]
        elif op in ("write", "append", "redir", "redira"):
            out += [(form, p, data) for p in paths]
        elif op in ("mv", "cp", "cpr"):
            out += [(form, p, q) for p in paths for q in dests]
        elif op == "meta":
            out += [(op, p, "k", "1") for p in paths]
    out += [("cd", c) for c in cds]
    return out


def strip(dump, cols):
    """Keep the given columns of a dump: 0 kind, 1 content, 2 version, 3 policy, 4 metadata."""
    return {p: tuple(r[c] for c in cols) for p, r in dump.items()}


def diff(got, want):
    parts = []
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            parts.append("%s: got %r, expected %r" % (k, got.get(k, "(absent)"), want.get(k, "(absent)")))
    return "; ".join(parts[:6])


def same_dump(got, want, what):
    if got != want:
        raise Violation(what + ": " + diff(got, want))

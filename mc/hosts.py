"""Edits made by a host command to its copy of the tree: in-process stand-in, shell text, and model."""
import os
import shutil
import socket
import subprocess
import sys
import tempfile

from .proc import mode, outputs
from .refmodel import PUB
from .storage import remove, scratch
from .views import ancestors, within


# an edit: (op, relative path[, text or second path])
def model_edit(tree, e):
    """tree: relative path -> content, or None for a directory ('' is the copy's root, always present)."""
    op, p = e[0], e[1]
    par = p.rpartition("/")[0]

    def isdir(x):
        return x == "" or (x in tree and tree[x] is None)

    def drop(x):
        for k in [k for k in tree if k == x or k.startswith(x + "/")]:
            del tree[k]

    if op in ("put", "add"):
        if isdir(par) and not isdir(p):
            tree[p] = (tree.get(p, "") if op == "add" else "") + e[2]
    elif op == "mkdir":
        if p not in tree and isdir(par):
            tree[p] = None
    elif op == "rm":
        if p in tree and tree[p] is not None:
            drop(p)
    elif op == "rmtree":
        drop(p)
    elif op == "rmdir":
        if p in tree and tree[p] is None and not any(k.startswith(p + "/") for k in tree):
            drop(p)
    elif op in ("mv", "cp"):
        q = e[2]
        if p in tree and q not in tree and isdir(q.rpartition("/")[0]) and not within("/" + q, "/" + p):
            for k in [k for k in tree if k == p or k.startswith(p + "/")]:
                tree[q + k[len(p):]] = tree[k]
            if op == "mv":
                drop(p)
    elif op == "over":  # rename over an existing file
        q = e[2]
        if tree.get(p) is not None and tree.get(q) is not None and p != q:
            tree[q] = tree.pop(p)
    else:
        raise AssertionError(op)


def real_edit(root, e):
    op, p = e[0], os.path.join(root, e[1])
    if op in ("put", "add"):
        if os.path.isdir(os.path.dirname(p)) and not os.path.isdir(p):
            with open(p, "wb" if op == "put" else "ab") as f:
                f.write(e[2].encode())
    elif op == "mkdir":
        if not os.path.exists(p) and os.path.isdir(os.path.dirname(p)):
            os.mkdir(p)
    elif op == "rm":
        if os.path.isfile(p):
            os.unlink(p)
    elif op == "rmtree":
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.unlink(p)
    elif op == "rmdir":
        if os.path.isdir(p) and not os.listdir(p):
            os.rmdir(p)
    elif op in ("mv", "cp"):
        q = os.path.join(root, e[2])
        if os.path.exists(p) and not os.path.exists(q) and os.path.isdir(os.path.dirname(q)) and not within("/" + e[2], "/" + e[1]):
            if op == "mv":
                os.rename(p, q)
            elif os.path.isdir(p):
                shutil.copytree(p, q)
            else:
                shutil.copyfile(p, q)
    elif op == "over":
        q = os.path.join(root, e[2])
        if os.path.isfile(p) and os.path.isfile(q) and p != q:
            os.rename(p, q)
    elif op in ("dangling", "selflink", "socket"):  # what has no counterpart in the sandbox takes the place of a file
        if os.path.isdir(os.path.dirname(p)) and not os.path.isdir(p):
            if os.path.lexists(p):
                os.unlink(p)
            if op == "socket":
                with socket.socket(socket.AF_UNIX) as x:
                    x.bind(p)
            else:
                os.symlink("nowhere/at/all" if op == "dangling" else os.path.basename(p), p)


def sh_edit(e):
    """The same as shell text, relative to the root of the copy."""
    op, p = e[0], e[1]
    if op in ("put", "add"):
        return "[ -d %s ] || printf %%b '%s' 2>/dev/null %s %s" % (p, e[2].replace("\r", "\\r").replace("\n", "\\n"), ">" if op == "put" else ">>", p)
    if op == "mkdir":
        return "mkdir %s 2>/dev/null" % p
    if op == "rm":
        return "[ ! -f %s ] || rm %s" % (p, p)
    if op == "rmtree":
        return "rm -rf %s" % p
    if op == "rmdir":
        return "rmdir %s 2>/dev/null" % p
    if op in ("mv", "cp"):
        if within("/" + e[2], "/" + p):
            return "true"
        return "[ ! -e %s ] || [ -e %s ] || %s %s %s 2>/dev/null" % (p, e[2], "mv" if op == "mv" else "cp -R", p, e[2])
    if op == "over":
        return "[ ! -f %s ] || [ ! -f %s ] || mv -f %s %s" % (p, e[2], p, e[2])
    raise AssertionError(op)


def model_after(rows, exported, edits):
    """rows: dump before. Returns the copy's tree before and after the edits (relative paths)."""
    tree = {p[1:]: rows[p][1] for p in exported if p != "/"}
    before = dict(tree)
    for e in edits:
        model_edit(tree, e)
    return before, tree


def expected(rows, exported, after, hidden=frozenset()):
    """The dump the sandbox must have after a command that left `after`: (dump, touched protected or hidden paths)."""
    out = dict(rows)
    touched = set()
    H = {"/" + p: c for p, c in after.items()}

    def parent(p):
        return p.rpartition("/")[0] or "/"

    def frozen(p):
        return not rows[p][3][1] or rows[p][3][2]

    gone = [p for p in exported if p != "/" and (p not in H or (H[p] is None) != (rows[p][0] == "d"))]
    for p in sorted(gone, key=lambda x: -x.count("/")):
        if rows[p][0] == "d" and any(k.startswith(p + "/") for k in out):
            # holds entries the command could not see
            if p in H:
                touched.add(p)
            continue
        if frozen(p):
            touched.add(p)
        if parent(p) in rows and frozen(parent(p)):
            touched.add(parent(p))
        del out[p]
    for p in sorted(H, key=lambda x: x.count("/")):
        if p in rows and p not in exported and (p in hidden or (H[p] is None) != (rows[p][0] == "d")):
            touched.add(p)
            continue
        if p in out:
            if out[p][0] == "f" and (out[p][1] != H[p] or p not in exported):
                if frozen(p):
                    touched.add(p)
                out[p] = ("f", H[p], out[p][2] + 1, out[p][3], out[p][4])
            continue
        if parent(p) in rows and parent(p) in out and (frozen(parent(p)) if H[p] is None else not rows[parent(p)][3][1]):
            touched.add(parent(p))
        out[p] = ("d", None, 0, PUB, ()) if H[p] is None else ("f", H[p], 1, PUB, ())
    return out, touched


class Host:
    """Stands in for process creation: runs the edits in the directory the command would have run in."""
    edits = ()
    result = ("", "", 0)
    seen = None
    rootdir = None

    def __init__(self, args, *a, **kw):
        self.args = args
        self.stdin = self.stdout = self.stderr = None
        self.pid = -1
        self.kw = kw
        self.returncode = Host.result[2]
        Host.seen = dict(args=list(args), cwd=kw.get("cwd"), env=kw.get("env"), own_stdin=kw.get("stdin") is not None)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def communicate(self, input=None, timeout=None):
        text, coding = mode(self.kw)
        if text and input is not None:
            input = input.encode(*coding)  # as the real one does
        Host.seen["stdin"] = input if input is None else bytes(input)
        root = Host.root_of(self.kw["cwd"])
        Spied.look(root)
        for e in Host.edits:
            real_edit(root, e)
        return outputs(self.kw, *(x if isinstance(x, bytes) else x.encode() for x in Host.result[:2]))

    @staticmethod
    def root_of(cwd):
        """The top of the copy: the entry of the temporary directory that contains cwd."""
        top = os.path.realpath(tempfile.gettempdir())
        rel = os.path.relpath(os.path.realpath(cwd), top)
        assert not rel.startswith(".."), "the command would run in %s, outside the temporary directory" % cwd
        return os.path.join(top, rel.split("/")[0])

    def poll(self):
        return self.returncode

    wait = lambda self, timeout=None: self.returncode  # noqa: E731


class Spied:
    """What the copy held when the command started."""
    copy = None

    @staticmethod
    def look(root):
        out = {}
        for d, dirs, files in os.walk(root):
            for n in dirs:
                out["/" + os.path.relpath(os.path.join(d, n), root)] = None
            for n in files:
                with open(os.path.join(d, n), "rb") as f:
                    out["/" + os.path.relpath(os.path.join(d, n), root)] = f.read().decode()
        Spied.copy = out


REAL = subprocess.Popen


class standin:
    def __init__(self, edits, result=("", "", 0)):
        self.edits, self.result = edits, result

    def __enter__(self):
        Host.edits, Host.result, Host.seen = self.edits, self.result, None
        self.old, subprocess.Popen = subprocess.Popen, Host
        # however the code under test imported it
        self.named = [(m, n) for k, m in list(sys.modules.items()) if k.split(".")[0] == "sandfs" for n, v in list(vars(m).items()) if v is REAL]
        for m, n in self.named:
            setattr(m, n, Through)
        return Host

    def __exit__(self, *exc):
        for m, n in self.named:
            setattr(m, n, REAL)
        subprocess.Popen = self.old


def Through(*a, **kw):
    return subprocess.Popen(*a, **kw)


class tmpdir:
    """A private temporary directory; reports what is left in it."""

    def __enter__(self):
        self.base = scratch("mc19-")
        self.old, tempfile.tempdir = tempfile.tempdir, self.base
        return self

    def left(self):
        return os.listdir(self.base)

    def __exit__(self, *exc):
        tempfile.tempdir = self.old
        remove(self.base)

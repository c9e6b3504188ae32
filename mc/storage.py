"""Storage backends for harness worlds, with an external party that edits them behind the sandbox's back."""
import os
import shutil
import tempfile

from .env import FileSystemAdapter, MemoryStorageAdapter

BASE = None


def open_base():
    """One scratch directory for this run, removed at its end; unprivileged workers create theirs inside."""
    global BASE
    BASE = tempfile.mkdtemp(prefix="sandfs-mc-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.chmod(BASE, 0o1777)


def scratch(prefix="mc-"):
    return tempfile.mkdtemp(prefix=prefix, dir=BASE)


def remove(path):
    shutil.rmtree(path, ignore_errors=True)


class MemStore:
    kind = "mem"

    def __init__(self, files):
        self.adapter = MemoryStorageAdapter(dict(files))

    def ext_write(self, rel, text, older=False):
        old = self.adapter.list().get(rel)
        self.adapter.write(rel, text, version=old.version if old else 0)

    def ext_delete(self, rel):
        self.adapter.delete(rel)

    def truth(self):
        return {k: e.content for k, e in self.adapter.list().items()}

    def close(self):
        pass

    def signature(self):
        return None


class FsStore:
    kind = "fs"

    def __init__(self, files):
        self.root = scratch()
        self.ticks = 2_000_000_000
        for rel, text in dict(files).items():
            self.ext_write(rel, text)
        self.adapter = FileSystemAdapter(self.root)

    def ext_write(self, rel, text, older=False):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        near = os.stat(p).st_mtime_ns + 1_000_000 if older == "near" else None
        with open(p, "wb") as f:
            f.write(text.encode())
        if near:
            os.utime(p, ns=(near, near))
            return
        self.ticks += 10  # external edits always have another modification time
        at = 3_000_000_000 - self.ticks if older else self.ticks
        os.utime(p, (at, at))

    def ext_delete(self, rel):
        p = os.path.join(self.root, rel)
        if os.path.exists(p):
            os.unlink(p)

    def truth(self):
        out = {}
        for d, _, names in os.walk(self.root):
            for n in names:
                p = os.path.join(d, n)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, self.root)] = f.read().decode()
        return out

    def close(self):
        remove(self.root)

    def signature(self):
        """What the adapter itself remembers, without times and scratch paths."""
        out = []
        for name, value in sorted(vars(self.adapter).items()):
            if isinstance(value, dict):
                for k, v in sorted(value.items(), key=repr):
                    if isinstance(v, (int, float)) and v > 10**8:  # a modification time
                        p = os.path.join(self.root, str(k))
                        s = os.stat(p) if os.path.exists(p) else None
                        v = s and ("newer" if v < min(s.st_mtime_ns, s.st_mtime) else
                                   "older" if v > max(s.st_mtime_ns, s.st_mtime) else
                                   "same" if v in (s.st_mtime_ns, s.st_mtime) else "differs")
                    out.append((name, repr(k), repr(v)))
            elif isinstance(value, (str, int)) and str(self.root) not in str(value):
                out.append((name, value))
        return out


KINDS = {"mem": MemStore, "fs": FsStore}

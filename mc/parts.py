"""Picklable pieces of harness worlds: recording hooks, faulty adapters and providers."""
from .cloner import clone  # noqa: F401
from .env import MemoryStorageAdapter, ProvidedNode, clock


class W:
    """A world: whatever attributes a spec puts into it."""


class Injected(Exception):
    pass


EXC = {"os": OSError, "value": ValueError, "runtime": RuntimeError, "key": KeyError, "own": Injected}


class Faults:
    """Counts calls into the environment; raises at call number `at` when armed."""

    def __init__(self):
        self.at = None
        self.exc = "os"
        self.calls = 0
        self.fired = False

    def arm(self, at, exc):
        self.at, self.exc, self.calls, self.fired = at, exc, 0, False

    def disarm(self):
        fired, self.at, self.calls, self.fired = self.fired, None, 0, False
        return fired

    def point(self):
        if self.at is None:
            return
        n = self.calls
        self.calls += 1
        if n == self.at:
            self.fired = True
            raise EXC[self.exc]("injected")


class FaultyMemory(MemoryStorageAdapter):
    """The real in-memory adapter with a fault point before every call."""

    def __init__(self, initial, faults):
        super().__init__(initial)
        self.faults = faults

    def read(self, path):
        self.faults.point()
        return super().read(path)

    def write(self, path, content, *, version):
        self.faults.point()
        return super().write(path, content, version=version)

    def list(self):
        self.faults.point()
        return super().list()

    def delete(self, path):
        self.faults.point()
        return super().delete(path)


class FileProvider:
    def __init__(self, text, faults=None, log=None):
        self.text, self.faults, self.log = text, faults, log

    def __call__(self, ctx):
        if self.faults:
            self.faults.point()
        if self.log is not None:
            self.log.append(("file", str(ctx.path)))
        return self.text


class DirProvider:
    """spec: name -> text, or name -> dict for a directory, or ProvidedNode."""

    def __init__(self, spec, faults=None, log=None):
        self.spec, self.faults, self.log = spec, faults, log

    def __call__(self, ctx):
        if self.faults:
            self.faults.point()
        if self.log is not None:
            self.log.append(("dir", str(ctx.path)))
        return {k: self.conv(v) for k, v in self.spec.items()}

    def conv(self, v):
        if isinstance(v, str):
            return ProvidedNode.file(content=v)
        if isinstance(v, dict):
            return ProvidedNode.directory(children={k: self.conv(x) for k, x in v.items()})
        if callable(v) and isinstance(v, FileProvider):
            return ProvidedNode.file(content_provider=v)
        if isinstance(v, DirProvider):
            return ProvidedNode.directory(directory_provider=v)
        return v


class Recorder:
    """A hook that appends (tag, event fields) to a shared log."""

    def __init__(self, tag, log):
        self.tag, self.log = tag, log

    def __call__(self, e):
        if hasattr(e, "event"):
            self.log.append(("path", self.tag, e.path, e.event, e.content))
        else:
            self.log.append(("write", self.tag, e.path, e.content, e.version, e.append))


def times(vfs):
    return {str(p): (n.created_at, n.modified_at) for p, n in vfs.walk("/")}


class on:
    """Runs a block on one of several worlds, each with its own clock."""

    def __init__(self, x):
        self.x = x

    def __enter__(self):
        clock.now = getattr(self.x, "clock", 1_000_000_000.0)
        return self.x

    def __exit__(self, *exc):
        self.x.clock = clock.now

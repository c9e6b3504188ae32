"""A stand-in for process creation: records what would have been started and starts nothing."""
import os
import subprocess
import sys


def mode(kw):
    """Whether a process is opened in text mode, and the coding."""
    return bool(kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") or kw.get("errors")), (kw.get("encoding") or "utf-8", kw.get("errors") or "strict")


def outputs(kw, out, err):
    """What communicate() returns for the bytes the process wrote, opened with these arguments."""
    text, coding = mode(kw)
    if kw.get("stderr") == subprocess.STDOUT:
        out, err = out + err, b""

    def give(where, data):
        if where == subprocess.PIPE:
            return data.decode(*coding).replace("\r\n", "\n").replace("\r", "\n") if text else data
        if where is not None and where not in (subprocess.STDOUT, subprocess.DEVNULL):
            os.write(where if isinstance(where, int) else where.fileno(), data)
        return None
    return give(kw.get("stdout"), out), give(kw.get("stderr"), err)


class FakePopen:
    log = []
    out = "host output\n"

    def __init__(self, args, *a, **kw):
        self.args = args
        self.stdin = self.stdout = self.stderr = None
        self.returncode = 0
        self.pid = -1
        self.kw = kw
        FakePopen.log.append(list(args) if isinstance(args, (list, tuple)) else args)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def communicate(self, input=None, timeout=None):
        return outputs(self.kw, FakePopen.out.encode(), b"")

    def wait(self, timeout=None):
        return 0

    def poll(self):
        return 0

    def kill(self):
        pass

    terminate = kill


def _refuse(name):
    def fn(*args, **kw):
        FakePopen.log.append((name,) + tuple(map(str, args)))
        raise OSError("not started")
    return fn


def install():
    """Call in a check that must not start anything."""
    swap = {id(subprocess.Popen): FakePopen}
    subprocess.Popen = FakePopen
    for name in ("system", "popen", "posix_spawn", "posix_spawnp", "execv", "execve", "execvp", "execvpe", "spawnv", "spawnve", "spawnvp", "spawnvpe", "startfile"):
        if hasattr(os, name):
            swap[id(getattr(os, name))] = _refuse(name)
            setattr(os, name, swap[id(getattr(os, name))])
    # however the code under test imported them
    for k, m in list(sys.modules.items()):
        if k.split(".")[0] == "sandfs":
            for n, v in list(vars(m).items()):
                if id(v) in swap:
                    setattr(m, n, swap[id(v)])

"""C18: nothing reaches the host except through explicit host commands and exports."""
import builtins
import contextlib
import io
import itertools
import os
import shlex
import sys
import sysconfig
import urllib.parse  # noqa: F401 - loaded lazily by the code under test; not a host access of interest

from .. import proc
from ..engine import Violation, equal, need
from ..env import CommandResult, NodePolicy, SandboxError, SandboxShell, SearchQuery, VirtualFileSystem, VisibilityView  # noqa: F401
from ..fsops import setup
from ..parts import DirProvider, FileProvider
from ..refmodel import dump_vfs
from ..storage import MemStore
from sandfs.pyexec import PythonExecutor

LIB = tuple({os.path.realpath(sysconfig.get_path(n)) for n in ("stdlib", "platstdlib")})
WATCH = ("open", "os.", "subprocess.", "shutil.", "socket.", "tempfile.", "pathlib.", "glob.", "pty.", "fcntl.", "mmap.", "urllib.", "http.", "ftplib.", "ctypes.dlopen", "webbrowser.", "sqlite3.")
HARMLESS = ("os.putenv", "os.unsetenv")


class Watch:
    armed = False
    installed = False
    log = []


def hook(event, args):
    if not Watch.armed or not event.startswith(WATCH) or event in HARMLESS:
        return
    if event == "open" and isinstance(args[0], str) and os.path.realpath(args[0]).startswith(LIB) and args[1] in ("r", "rb", None):
        return  # a lazy import
    if event == "open" and args[0] == "<sandbox>":
        return  # the interpreter looks for the source line of a syntax error
    Watch.log.append((event, tuple(str(a)[:80] for a in args[:3])))


class watched:
    """Everything the code does to the host inside this block is in .log"""

    def __enter__(self):
        if not Watch.installed:
            sys.addaudithook(hook)
            Watch.installed = True
        Watch.log = self.log = []
        proc.FakePopen.log = self.procs = []
        self.cwd = os.getcwd()
        self.env = dict(os.environ)
        Watch.armed = True
        return self

    def __exit__(self, *exc):
        Watch.armed = False
        if exc[0] is None:
            need(os.getcwd() == self.cwd, "the working directory of the process changed")
            equal(dict(os.environ), self.env, "environment of the process")


BUILTINS = ["pwd", "cd", "ls", "cat", "touch", "mkdir", "rm", "cp", "mv", "tree", "write", "append", "echo", "printf", "wc", "grep", "rg", "search", "python", "python3", "help", "stat", "head", "tail", "find", "boom"]
WORDS = ["/etc/passwd", "/tmp", "/etc", "../../../../etc/passwd", "file:///etc/passwd", "~", "/", "/h/f", "/dyn", "/bad", "/m/s", "-l", "-a", "-n", "-c", "-r", "-e", "-name", "-type", "--path", "--host", "2", "x", "*", "/*/*",
         "root", "$HOME", "${PATH}", "`id`", "$(id)", "/@search?q=t", "'/@search?q=t/h/f'", "&&", ";", "-", "/dev/null", "/proc/self/environ"]
TAILS = ["", " > /etc/out", " >> /tmp/out", " < /etc/passwd", " | cat > /tmp/x", " > ../../../tmp/z", " < /h/f"]


class Broken:
    def __call__(self, ctx):
        raise ValueError("provider failed")


def boom(args):
    raise KeyError("boom")


def sandbox(fallback, mirror, broken=False):
    vfs, _ = setup([("/h", None), ("/h/f", "text root\n")])
    vfs.mount_file("/dyn", FileProvider("dynamic"))
    vfs.mount_directory("/p", DirProvider({"u": "root"}))
    if broken:
        vfs.mount_file("/bad", Broken())
    vfs.mount_storage("/m", MemStore({"s": "stored"}).adapter)
    vfs.enable_search_view()
    if mirror:
        vfs.write_file("/etc/passwd", "virtual root\n")
        vfs.mkdir("/tmp")
        vfs.write_file("/dev/null", "n")
    sh = SandboxShell(vfs, host_fallback=fallback)
    sh.register_command("boom", boom)
    return vfs, sh


def check_command(case):
    line, fallback, mirror = case
    vfs, sh = sandbox(fallback, mirror, True)
    with watched() as w:
        r = sh.exec(line)
    if fallback and line.startswith("ls") and " -" in line:
        return "ls with other flags goes to the host"  # explicitly switched on
    need(not w.log and not w.procs, "%r reached the host: %r %r", line, w.log[:3], w.procs[:3])
    need("root:x:" not in r.stdout + r.stderr, "%r shows host content", line)
    return r.exit_code


def check_unknown(case):
    line, fallback = case
    vfs, sh = sandbox(False, True)
    before = dump_vfs(vfs)
    with watched() as w:
        r = sh.exec(line)
    need(r.exit_code != 0, "%r succeeded without host fallback: %r", line, r)
    need(not w.log and not w.procs, "%r reached the host without fallback: %r %r", line, w.log[:3], w.procs[:3])
    equal(dump_vfs(vfs), before, "tree after %r" % line)
    return r.exit_code


def check_configured(case):
    """Limits, allow-lists, views and failures: reporting them does not touch the host either."""
    line, limit, allowed, prefix, fallback = case
    vfs, _ = sandbox(False, True, True)
    if prefix == "gone":
        vfs.mkdir("/gone")
        vfs.cd("/gone")
        vfs.remove("/gone")
    sh = SandboxShell(vfs, max_output_bytes=limit, allowed_commands=allowed, host_fallback=fallback, view=VisibilityView(path_prefixes=["/h"]) if prefix == "/h" else None)
    sh.register_command("boom", boom)
    with watched() as w:
        r = sh.exec(line)
    need(not w.log and not w.procs, "%r (limit %r, allowed %r, view %r) reached the host: %r %r", line, limit, allowed, prefix, w.log[:3], w.procs[:3])
    return r.exit_code


CONFIGURED = ["echo " + "x" * 50, "cat /h/f", "cat /h/f /h/f | cat", "tree /", "echo %s > /big" % ("y" * 60), "boom", "cat /bad", "rm /nope", "nope", "id -u", "echo 'open", "cat < /bad", "rg root /", "search root", "find /", "help", "stat /h/f",
              "python -c 'print(1)'", "python -c '1/0'", "python -c 'print(\"z\" * 500)'", "python -c 'import os'", "python -c 'def'", "ls /", "ls /nope", "wc /h/f", "head -n 1 /h/f", "tail -c 3 /h/f", "grep root /h/f", "cp /h/f /etc/passwd", "mv /h /etc",
              "mkdir /tmp/x", "touch /dev/null", "write /etc/passwd x", "append /etc/passwd y", "cd /h", "pwd", "X=1", "$X", "printf %s/etc/passwd x", "cat '/@search?q=root/h/f'", "tree '/@search?q=root'", "ls '/@search?q=[&regex=1'", "", "#", "|", "> /etc/passwd"]


def commands(q):
    for c in BUILTINS:
        if c.startswith("python"):
            continue
        for fb, mir in itertools.product((False, True), repeat=2):
            for t in TAILS if fb == mir or not q else TAILS[:2]:
                yield (c + t, fb, mir)
                for w in WORDS:
                    yield ("%s %s%s" % (c, w, t), fb, mir)
        for a, b in itertools.product(WORDS, WORDS if not q else WORDS[::2]):
            yield ("%s %s %s" % (c, a, b), False, True)
            if not q:
                yield ("%s %s %s" % (c, a, b), True, False)
        if not q:
            for t in itertools.product(WORDS[::2], repeat=3):
                yield ("%s %s" % (c, " ".join(t)), False, True)


UNKNOWN = ["id", "touch2", "curl x", "/bin/ls", "./x", "bash2 -c id", "env", "sudo rm -r /", "vi /h/f", "git status", "exec ls", "source /h/f", ". /h/f", "eval ls", "$NOPE ls", "ls -a", "ls -la /h", "ls --all", "ls /h -t", "LS /h", "nohup ls",
           "X=1 id", "echo a | id", "id | cat", "cat /h/f | sort", "'' ls", "/etc/passwd", "cat\u00a0/h/f", "sort /h/f > /out", "ls -a > /out", "xargs rm", "! ls", "( ls )", "ls -1 /h | cat"]


def api_calls():
    """(name, args) for every public filesystem operation with host-looking arguments."""
    paths = ["/etc/passwd", "/tmp/x/y", "../../../tmp/z", "~/x", "/h/f", "/m/s", "/dyn", "/bad", "/p", "/p/u", "/", "/h", "/@search", "C:\\x", "/proc/1/mem"]
    for p in paths:
        for name in ("read_file", "ls", "cd", "mkdir", "touch", "remove", "exists", "is_dir", "is_file", "get_version", "get_node", "get_policy", "tree", "glob", "sync_storage", "walk", "iter_files"):
            yield (name, (p,), ())
        yield ("remove", (p,), (("recursive", True),))
        yield ("mkdir", (p,), (("parents", True), ("exist_ok", True)))
        yield ("write_file", (p, "x"), ())
        yield ("append_file", (p, "x"), ())
        yield ("enable_search_view", (p,), ())
        for d in paths:
            yield ("move", (p, d), ())
            yield ("copy", (p, d), (("recursive", True),))
        yield ("search", (SearchQuery("root", path_prefix=p),), ())
        yield ("mount_file", (p, "FP"), ())
        yield ("mount_directory", (p, "DP"), ())
        yield ("mount_storage", (p, "MS"), ())
    yield ("snapshot", (), ())
    yield ("enable_full_text_index", (), ())


def check_api(case):
    calls = case
    vfs, _ = sandbox(False, False, True)
    out = []
    with watched() as w:
        for name, args, kw in calls:
            args = tuple({"FP": FileProvider("d"), "DP": DirProvider({"a": "b"}), "MS": MemStore({"z": "1"}).adapter}.get(a, a) if isinstance(a, str) else a for a in args)
            try:
                r = getattr(vfs, name)(*args, **dict(kw))
                if name in ("walk", "iter_files"):
                    r = list(r)
                out.append("ok")
                if name == "snapshot":
                    vfs.restore(r)
            except SandboxError:
                out.append("err")
    need(not w.log and not w.procs, "%r reached the host: %r %r", calls, w.log[:3], w.procs[:3])
    return out


# ---------------------------------------------------------------- python
ALLOWED = {"abs", "all", "any", "bool", "dict", "enumerate", "float", "int", "len", "list", "map", "max", "min", "print", "range", "repr", "reversed", "round", "set", "sorted", "str", "sum", "tuple", "zip"}


def run_py(ex, code, **kw):
    """(stdout or None, exception name or None); nothing may leak to the real streams."""
    real = io.StringIO()
    with contextlib.redirect_stdout(real):
        mine = sys.stdout
        with watched() as w:
            try:
                res = ex.run(code, **kw)
                out = (res.stdout, None, res.globals)
            except Exception as exc:
                out = (None, type(exc).__name__, None)
        need(sys.stdout is mine, "standard output is not restored after %r", code)
    need(real.getvalue() == "", "output of %r leaked: %r", code, real.getvalue())
    need(not w.log and not w.procs, "%r reached the host: %r", code, w.log[:3])
    return out


def check_name(case):
    name, how = case
    vfs, _ = setup([("/f", "t")])
    ex = PythonExecutor(vfs)
    if how == "shell":
        r = SandboxShell(vfs).exec("python -c 'x = %s'" % name)
        ok = r.exit_code == 0
    else:
        out = run_py(ex, "x = " + name if how == "run" else "x = __builtins__[%r]" % name)
        ok = out[1] is None
    sandboxed = name in ALLOWED or name in ("vfs", "fs", "__builtins__") or name in ("None", "True", "False", "...", "__name__")
    if how == "dict":
        sandboxed = name in ALLOWED
    if name in ("None", "True", "False") and how != "dict":
        sandboxed = True
    if name in ("__name__", "__build_class__", "__debug__"):
        return None
    equal(ok, sandboxed, "name %s visible to a snippet (%s)" % (name, how))
    return ok


SNIPPETS = ["print(1)", "a = 1", "print(a)", "vfs.write_file('/n', 'x')", "print(fs is vfs)", "vfs = None", "fs = 3; print(fs)", "print = 5", "__builtins__['len'] = 5", "del __builtins__['print']", "print(len([1]))", "def f(): return 2\nprint(f())",
            "f()", "print(1); 1/0", "__builtins__['open'] = 1", "open", "b = len", "print('no newline', end='')", "for i in range(3): print(i)", "x = [v for v in range(3)]\nprint(x)", "import os", "print(fs.read_file('/f'))", "len = 7",
            "extra", "print(extra)", "syntax error here", "__builtins__.clear()", "del vfs, fs", "class", "print(given)", "given = 2", "helper()", "helper = 4"]


def solo(code, given):
    """The same snippet alone, in a new executor."""
    vfs, _ = setup([("/f", "t")])
    ex = PythonExecutor(vfs, builtins={"helper": helper}, globals_template={"given": 1})
    out = run_py(ex, code, **({"extra_globals": {"extra": "E"}} if given else {}))
    return out[:2], sorted(out[2]) if out[2] is not None else None


def helper():
    return "help"


SOLO = {}


def check_sequence(case):
    seq = case
    vfs, _ = setup([("/f", "t")])
    template = {"given": 1}
    extra_b = {"helper": helper}
    ex = PythonExecutor(vfs, builtins=extra_b, globals_template=template)
    other = PythonExecutor(VirtualFileSystem())
    res = []
    for i, n in enumerate(seq):
        code = SNIPPETS[n]
        given = i % 2 == 1
        extra = {"extra": "E"}
        out = run_py(ex, code, **({"extra_globals": extra} if given else {}))
        if (n, given) not in SOLO:
            SOLO[(n, given)] = solo(code, given)
        equal((out[:2], sorted(out[2]) if out[2] is not None else None), SOLO[(n, given)], "snippet %r after %r" % (code, [SNIPPETS[x] for x in seq[:i]]))
        if out[2] is not None:
            need("__builtins__" not in out[2], "the result's namespace contains __builtins__")
        equal((template, extra_b, extra), ({"given": 1}, {"helper": helper}, {"extra": "E"}), "dictionaries given by the caller")
        need(ex.vfs is vfs, "executor's filesystem")
        res.append(out[1])
    need(run_py(other, "helper")[1] == "NameError" and run_py(other, "print(len([1, 2]))")[0] == "2\n", "another executor is affected by %r", [SNIPPETS[x] for x in seq])
    for name in ("len", "print", "open"):
        need(getattr(builtins, name).__name__ == name, "the real builtins were changed")
    return res


def check_shell_python(case):
    """python in the shell: output is the result's stdout, errors give a non-zero exit code."""
    n, form = case
    code = SNIPPETS[n]
    if "\n" in code or "'" in code and form == "single":
        return None
    vfs, _ = setup([("/f", "t")])
    sh = SandboxShell(vfs)
    q = '"%s"' % code if "'" in code else "'%s'" % code
    line = {"single": "python %s", "c": "python -c %s", "py3": "python3 -c %s"}[form] % q
    with watched() as w:
        r = sh.exec(line)
    need(not w.log and not w.procs, "%r reached the host: %r", line, w.log[:3])
    ex = PythonExecutor(setup([("/f", "t")])[0])
    out = run_py(ex, code)
    if out[1] is None:
        equal((r.exit_code, r.stdout), (0, out[0]), line)
    else:
        need(r.exit_code != 0, "%r succeeded: %r", line, r)
    if n == 3:
        need(vfs.exists("/n") and vfs.read_file("/n") == "x", "a snippet's write is missing")
    return out[1]


FORMS = ["'print(1)'", "-c 'print(1)'", "'print(1' ',' '2)'", "-c 'print(1' ',' '2)'", "-c", "-c -c", "'a=1;' 'print(a)'", "-c 'a=1;' 'print(a)' ''", "-c ''", "''", "-c 'print(given)'", "'print(' given ')'", "-c 'helper()'", "print given", "-c 'given = 3'", "-c 'print(given,' 'fs.read_file(\"/f\"))'", "x = 1", "-c x = 1", "-x", "1 -c 2", "-c '1 -' 'given'", "-c 'x = -' 'given; print(x)'"]


def check_given_executor(case):
    """The python command is the executor the shell was given, on the words after -c."""
    forms, own, name = case
    vfs, _ = setup([("/f", "t")])
    kw = dict(builtins={"helper": helper}, globals_template={"given": 1}) if own else {}
    given = PythonExecutor(vfs, **kw)
    sh = SandboxShell(vfs, python_executor=given if own else None)
    codes = []
    for form in forms:
        words = shlex.split(form)
        code = " ".join(words[1:] if words[:1] == ["-c"] and len(words) > 1 else words)
        want = run_py(PythonExecutor(setup([("/f", "t")])[0], **kw), code)
        line = name + " " + form
        with watched() as w:
            r = sh.exec(line)
        need(not w.log and not w.procs, "%r reached the host: %r", line, w.log[:3])
        if want[1] is None:
            equal((r.exit_code, r.stdout), (0, want[0]), line)
        else:
            need(r.exit_code != 0, "%r succeeded: %r", line, r)
        codes.append(r.exit_code)
    return codes


def run(ck):
    ck.unpriv = True
    proc.install()
    q = ck.quick
    ck.enum("commands", lambda: commands(q), check_command, "every built-in x operands x redirections, host fallback off and on, with and without virtual files of the same names")
    ck.enum("unknown commands", lambda: itertools.product(UNKNOWN, (False,)), check_unknown)
    ck.enum("configured shells", lambda: itertools.product(CONFIGURED, (None, 0, 1, 30, 10**6), (None, (), ("echo", "cat"), tuple(BUILTINS)), (None, "/h", "gone"), (False,)), check_configured)
    calls = list(api_calls())
    ck.enum("API", lambda: itertools.chain(((c,) for c in calls), itertools.product(calls[::2], calls[1::11] if q else calls[1::2])), check_api, "every filesystem operation (and pairs) with host-looking arguments")
    names = sorted(set(dir(builtins)) | ALLOWED | {"os", "sys", "vfs", "fs", "self", "env", "shell", "subprocess", "PythonExecutor", "io", "contextlib", "stdout", "code", "_ALLOWED_BUILTINS"})
    ck.enum("names in snippets", lambda: itertools.product(names, ("run", "dict", "shell")), check_name, "every built-in name")
    idx = range(len(SNIPPETS))
    ck.enum("snippet sequences", lambda: itertools.chain(itertools.product(idx, repeat=2), itertools.product(idx if not q else list(idx)[::2], repeat=3)), check_sequence, "every sequence of snippets, each compared with a fresh executor")
    ck.enum("python command", lambda: itertools.product(idx, ("single", "c", "py3")), check_shell_python)
    ck.enum("the given executor", lambda: ((f, o, n) for k in (1, 2) for f in itertools.product(FORMS, repeat=k) for o in (0, 1) for n in (("python", "python3") if k == 1 else ("python",))), check_given_executor)
    ck.assume("host access is what the interpreter's audit events report (files, processes, sockets), apart from reading Python's own library; processes are never started")
    ck.assume("snippets that reach the host through attributes of the sandbox objects themselves are outside the property")

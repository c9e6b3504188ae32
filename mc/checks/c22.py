"""C22: the command line tool is the sandbox shell over the mounted directories."""
import contextlib
import io
import itertools
import os
import sys

from ..engine import Violation, equal, need
from ..env import FileSystemAdapter, NodePolicy, SandboxShell, VirtualFileSystem
from ..storage import remove, scratch
from ..values import GLOBBY, NAMES

A = {"a": "stored\n", "b/c": "deep stored", "b/e/f": "x\r\ny"}
B = {"z": "zed", "a": "of B"}
MOUNTS = {"none": [], "one": [("A", "/m")], "two": [("A", "/m"), ("B", "/w")], "swapped": [("B", "/m"), ("A", "/w")], "nested": [("A", "/m"), ("B", "/m/in")], "root": [("A", "/")], "deep": [("B", "/x/y/z")], "same": [("A", "/m"), ("B", "/m")], "over": [("B", "/m"), ("A", "/m")], "inner": [("B", "/m/b"), ("A", "/m")], "under": [("B", "/m"), ("A", "/m/b")], "last root": [("B", "/w"), ("A", "/")], "colon": [("A", "/m:x"), ("B", "/w:/y")]}


class Hosts:
    """A scratch directory with three host directories (A, B and a bystander) and a working directory."""

    def __enter__(self):
        self.base = scratch("mc22-")
        self.old = os.getcwd()
        self.fill()
        return self

    def fill(self):
        for name, files in (("A", A), ("B", B), ("C", {"by": "stander"}), ("cwd", {})):
            top = os.path.join(self.base, name)
            remove(top)
            os.mkdir(top)
            for rel, text in files.items():
                p = os.path.join(top, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(text.encode())
        os.chdir(self.path("cwd"))

    def path(self, name):
        return os.path.join(self.base, name)

    def truth(self):
        out = {}
        for d, dirs, names in os.walk(self.base):
            rel = os.path.relpath(d, self.base)
            for n in dirs:
                out[os.path.join(rel, n)] = None
            for n in names:
                with open(os.path.join(d, n), "rb") as f:
                    out[os.path.join(rel, n)] = f.read().decode()
        return {os.path.normpath(k): v for k, v in out.items()}

    def files(self, name):
        return {k[len(name) + 1:]: v for k, v in self.truth().items() if v is not None and k.startswith(name + "/")}

    def __exit__(self, *exc):
        os.chdir(self.old)
        remove(self.base)


def cli(argv, lines=None, interrupt=False):
    """Runs main() with captured streams: (exit code, stdout, stderr)."""
    from sandfs.cli import main
    out, err = io.StringIO(), io.StringIO()
    stdin = sys.stdin

    class In(io.StringIO):
        def readline(self, *a):
            got = super().readline(*a)
            if not got and interrupt:
                raise KeyboardInterrupt
            return got

    sys.stdin = In("".join(x + "\n" for x in lines) if lines is not None else "")
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main(argv)
            except SystemExit as exc:
                code = exc.code if exc.code is not None else 0
            else:
                code = 0
    finally:
        sys.stdin = stdin
    return code, out.getvalue(), err.getvalue()


def flags(h, mounts, search, host=False):
    out = []
    for name, at in MOUNTS[mounts]:
        out += ["--mount", "%s:%s" % (h.path(name), at)]
    if search:
        out.append("--enable-search")
    if host:
        out.append("--host")
    return out


def shell(h, mounts, search, host=False):
    """The same sandbox, built through the library."""
    vfs = VirtualFileSystem()
    for name, at in MOUNTS[mounts]:
        vfs.mount_storage(at, FileSystemAdapter(h.path(name)), policy=NodePolicy(writable=True))
    if search:
        vfs.enable_full_text_index()
        vfs.enable_search_view()
    return vfs, SandboxShell(vfs, host_fallback=host)


LINES = ["cat /m/a", "write /m/a new", "append /m/n more", "rm /m/a", "rm -r /m/b", "mkdir -p /m/k", "echo hi > /w/z", "cat /m/a /nope", "nope x", "ls /", "tree /", "cd /m", "pwd", "write t local", "cat t", "V=5", "echo $V", "search stored", "cat '/@search?q=stored/m/a'", "ls /@search?q=e",
         "ls /@search", "echo 'x", "rg e / | wc -l", "cat /m/in/z", "touch /m/in/q", "echo -n \u00e9", "python print(1)", "false-name | cat", "cat /x/y/z/z", "echo a >> /m/b/c"]


def check_exec(case):
    mounts, search, script = case
    with Hosts() as h:
        text = "\n".join(script)
        vfs, sh = shell(h, mounts, search)
        r = sh.exec(text)
        want, left = (r.exit_code, r.stdout, r.stderr), h.truth()
        h.fill()
        got = cli(["exec", *flags(h, mounts, search), text])
        equal(got, want, "exit code, stdout and stderr of exec %r" % text)
        equal(h.truth(), left, "host directories after exec %r" % text)
        equal(os.getcwd(), h.path("cwd"), "working directory of the process")
    return got[0]


ENDS = [[], [":q"], ["exit"], ["quit"], ["  quit  "], ["exit", "write /m/a after", "echo after"]]


def check_shell(case):
    mounts, search, script, end = case
    with Hosts() as h:
        vfs, sh = shell(h, mounts, search)
        out = err = ""
        for line in script:
            out += "%s$ " % vfs.pwd()
            r = sh.exec(line)
            out, err = out + r.stdout, err + r.stderr
        out += "%s$ " % vfs.pwd()
        left = h.truth()
        h.fill()
        got = cli(["shell", *flags(h, mounts, search)], list(script) + ENDS[end])
        equal(got, (0, out, err), "exit code, stdout and stderr of the session %r" % (script,))
        equal(h.truth(), left, "host directories after the session %r" % (script,))
    return len(out)


# ------------------------------------------------------------ what is stored, by definition
def put(d, p, text):
    d[p] = text


EDITS = [("write /m/a new", lambda a, b: put(a, "a", "new")), ("append /m/a +", lambda a, b: put(a, "a", a.get("a", "") + "+")), ("echo line > /m/b/n", lambda a, b: put(a, "b/n", "line\n")), ("rm -r /m/b", lambda a, b: [a.pop(k) for k in list(a) if k.startswith("b/")]),
         ("rm /m/a", lambda a, b: a.pop("a", None)), ("cat /m/a > /w/copy", lambda a, b: put(b, "copy", a["a"]) if "a" in a else None), ("write /w/d/e \u00e9", lambda a, b: put(b, "d/e", "\u00e9")), ("write /w 1", None), ("write /out x", None), ("touch /w/z", None), ("mkdir /m/new", None),
         ("cat /m/b/e/f >> /w/z", lambda a, b: put(b, "z", b["z"] + a["b/e/f"]) if "b/e/f" in a else None), ("rm /w/nope", None)]


def check_stored(case):
    seq, how, search = case
    a, b = dict(A), dict(B)
    for i in seq:
        if EDITS[i][1]:
            EDITS[i][1](a, b)
    with Hosts() as h:
        fl = flags(h, "two", search)
        if how == "exec":
            for i in seq:
                cli(["exec", *fl, EDITS[i][0]])
        elif how == "shell":
            cli(["shell", *fl], [EDITS[i][0] for i in seq] + ["exit"])
        else:
            cli(["shell", *fl], [EDITS[i][0] for i in seq], interrupt=True)
        equal(h.files("A"), a, "files of the first mount")
        equal(h.files("B"), b, "files of the second mount")
        equal(h.files("C"), {"by": "stander"}, "a directory that is not mounted")
        equal(h.files("cwd"), {}, "working directory of the tool")
        code, out, err = cli(["exec", *fl, "cat /m/a"])
        equal((code == 0, out), ("a" in a, a.get("a", "")), "the next run reads /m/a")
    return len(seq)


# ------------------------------------------------------------ command line forms
def check_forms(case):
    name = case
    with Hosts() as h:
        a = h.path("A")
        before = h.truth()
        if name == "order":
            for argv in (["exec", "cat /m/a", "--mount", a + ":/m"], ["exec", "--mount=%s:/m" % a, "cat /m/a"], ["exec", "--enable-search", "--mount", a + ":/m", "cat /m/a"], ["exec", "--mount", a + ":/m", "--host", "cat /m/a"]):
                equal(cli(argv), (0, "stored\n", ""), "%r" % (argv[1:],))
        elif name == "fresh":
            new = os.path.join(h.base, "D", "new")
            equal(cli(["exec", "--mount", new + ":/m", "write /m/f x"])[0], 0, "mounting a directory that does not exist yet")
            with open(os.path.join(new, "f")) as f:
                equal(f.read(), "x", "file stored")
            remove(os.path.join(h.base, "D"))
        elif name == "relative":
            equal(cli(["exec", "--mount", "../A:/m", "cat /m/a"]), (0, "stored\n", ""), "relative host path")
        elif name == "host":
            equal(cli(["exec", "--mount", a + ":/m", "--host", "tac /m/a"]), (0, "stored\n", ""), "a host command with --host")
            equal(cli(["exec", "--mount", a + ":/m", "tac /m/a"])[0], 127, "a host command without --host")
            equal(cli(["shell", "--mount", a + ":/m", "--host"], ["tac /m/a"])[1], "/$ stored\n/$ ", "a host command in a session")
            equal(cli(["shell", "--mount", a + ":/m"], ["tac /m/a"])[1], "/$ /$ ", "a host command in a session without --host")
        elif name == "search":
            need(cli(["exec", "--mount", a + ":/m", "ls /@search"])[0] != 0, "the search view exists without --enable-search")
            equal(cli(["exec", "--mount", a + ":/m", "--enable-search", "ls /@search"])[0], 0, "the search view")
            equal(cli(["exec", "--mount", a + ":/m", "--enable-search", "search deep"]), (0, "/m/b/c:1:deep stored", ""), "search")
            equal(cli(["exec", "--mount", a + ":/m", "--enable-search", "cat '/@search?q=deep/m/b/c'"]), (0, "/m/b/c:1:deep stored", ""), "search view")
        elif name == "colons":
            for mount in (a, "nonsense", "", a + "/m"):
                for how in (["exec", "--mount", mount, "write /f x"], ["shell", "--mount", mount], ["exec", "--mount", a + ":/m", "--mount", mount, "write /m/a x"]):
                    try:
                        code = cli(how, ["write /m/a x"])[0]
                    except ValueError:
                        code = "refused"
                    need(code != 0, "the malformed mount %r was accepted", mount)
        elif name == "usage":
            for argv in ([], ["exec"], ["bogus"], ["exec", "--bogus", "x"], ["shell", "extra"], ["exec", "a", "b"]):
                need(cli(argv)[0] != 0, "%r was accepted", argv)
        elif name == "interrupt":
            equal(cli(["shell"], ["echo a"], interrupt=True), (0, "/$ a\n/$ ", ""), "session ended by an interrupt")
        elif name == "empty":
            equal(cli(["exec", ""]), (0, "", ""), "empty command")
            equal(cli(["shell"], ["", "   ", "echo a"]), (0, "/$ /$ /$ a\n/$ ", ""), "empty lines in a session")
        equal(h.truth(), before, "host directories")
    return name


def check_literal(case):
    """Host and sandbox paths of a mount are taken literally."""
    name, how = case
    with Hosts() as h:
        saved = {k: os.environ.get(k) for k in ("HOME", "V")}
        os.environ["HOME"], os.environ["V"] = h.path("C"), h.path("C")
        try:
            src = os.path.join(h.path("cwd"), name)
            os.makedirs(os.path.join(src, "sub"))
            for rel in ("f", "sub/f"):
                with open(os.path.join(src, rel), "w") as f:
                    f.write("here " + rel)
            if how == "relative":
                mount, at = name + ":/m", "/m"
            elif how == "dot":
                mount, at = "./" + name + ":/m", "/m"
            elif how == "nested":
                mount, at = name + "/sub:/m", "/m"
            elif how == "absolute":
                mount, at = src + ":/m", "/m"
            elif how == "slash":
                mount, at = src + "/:/m/", "/m"
            else:
                mount, at = src + ":/" + name + "/in", None
            text = "here sub/f" if how == "nested" else "here f"
            if at:
                equal(cli(["exec", "--mount=" + mount, "cat /m/f"]), (0, text, ""), "reading through --mount %s" % mount)
                equal(cli(["exec", "--mount=" + mount, "write /m/n new"])[0], 0, "writing through --mount %s" % mount)
            else:
                vfs = VirtualFileSystem()
                vfs.mount_storage("/" + name + "/in", FileSystemAdapter(src), policy=NodePolicy(writable=True))
                equal(cli(["exec", "--mount=" + mount, "tree /"]), (0, SandboxShell(vfs).exec("tree /").stdout, ""), "tree with --mount %s" % mount)
                equal(cli(["exec", "--mount=" + mount, "find / -name f -type f"]), (0, "\n".join(sorted(["/%s/in/f" % name, "/%s/in/sub/f" % name])), ""), "find with --mount %s" % mount)
                return how
            with open(os.path.join(src, "sub" if how == "nested" else "", "n")) as f:
                equal(f.read(), "new", "file stored through --mount %s" % mount)
            equal(h.files("C"), {"by": "stander"}, "a directory that is not mounted")
            equal(set(os.listdir(h.path("cwd"))), {name}, "working directory of the tool")
        finally:
            for k, v in saved.items():
                os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
    return how


SET = ["V=5", "cd /m", "write /t local", "V=7 cd /"]
TROUBLE = ["nope x", "sh -c 'exit 3'", "head -n x /m/a", "cat /nope", "find / -bogus", "cat", "echo 'x", "python 1/0", "host", "cd /nope", "write /m 1", "rm", "sh -c 'exit 255'", "echo ok"]
GET = ["echo $V", "pwd", "cat /t", "cat a"]
STATUS = ["sh -c 'exit 3'", "sh -c 'echo o; echo e >&2'", "sh -c 'echo e >&2; exit 4'", "sh -c 'printf o; exit 255'", "host sh -c 'cat; exit 1' < /m/a", "echo ok", "exit now", "exit > /m/f", "quit 1", ":q!", "Exit", "echo exit", "exit;", "'exit'", "exit | cat",
          "quit\x0b2", "cat '/m:x/a'", "write /m:x/a z", "rm /w:/y/z", "cat /m/a | sh -c 'rev; echo e >&2'", "# exit", "echo a #b", "echo a#b", "#", "echo a ; echo b", "echo a && echo b", "echo ~", "echo !!", "echo \\\\", "  echo a", "echo a  ", "echo \ta", "echo 'a  b'", "echo -n", "echo -n a", "printf 'a\\n'", "printf %s", "cat /m/b/e/f", "echo \u00e9\U0001f600",
          "echo $HOME", "echo $PWD", "echo $?", "help", "cd", "cd /m", "pwd", "rm -r /m", "ls -l /m", "stat /nope"]


def run(ck):
    ck.unpriv = True
    ck.enum("statuses", lambda: itertools.product(("one", "colon"), (0,), itertools.chain([(x,) for x in STATUS], itertools.product(STATUS if not ck.quick else STATUS[:8], repeat=2))), check_exec,
            "scripts whose exit code, output and error text are all present or absent")
    ck.enum("session statuses", lambda: itertools.product(("one", "colon"), (0,), itertools.chain([(x,) for x in STATUS], itertools.product(STATUS if not ck.quick else STATUS[1:17:2], repeat=2)), (0, 2)), check_shell,
            "lines that look like the end of the session, or print to both streams")
    q = ck.quick
    plain = [n for n in NAMES + GLOBBY if ":" not in n]
    ck.enum("literal paths", lambda: itertools.product(plain, ("relative", "dot", "nested", "absolute", "slash", "inside")), check_literal, "host directories and mount points of every name")
    ck.enum("sessions with failures", lambda: itertools.product(("one",), (0,), itertools.chain(itertools.product(SET, TROUBLE, GET), itertools.product(SET, TROUBLE, SET, TROUBLE, GET) if not q else ()), (0,)), check_shell, "what a session remembers across failing lines")
    two = [p for p in itertools.product(LINES, repeat=2)]
    ck.enum("exec", lambda: itertools.chain(itertools.product(MOUNTS, (0, 1), [(x,) for x in LINES]), itertools.product(("two", "nested") if q else MOUNTS, (0, 1), two)), check_exec, "every script of up to two lines x mounts x search, against the library")
    ck.enum("sessions", lambda: itertools.chain(itertools.product(("two",), (1,), two, (0,)), itertools.product(MOUNTS, (0, 1), [p for p in itertools.product(LINES[:16:3] if q else LINES[::2], repeat=3)], range(0, 6, 5 if q else 1)),
                                                itertools.product(("one",), (0,), [(x,) for x in LINES], range(len(ENDS)))), check_shell, "every session of up to three lines x way to end it")
    ck.enum("stored", lambda: itertools.product(itertools.chain.from_iterable(itertools.product(range(len(EDITS)), repeat=k) for k in range(3 if q else 4)), ("exec", "shell", "interrupted"), (0, 1)), check_stored, "every sequence of edits, in separate runs or one session")
    ck.enum("forms", lambda: ["order", "fresh", "relative", "host", "search", "colons", "usage", "interrupt", "empty"], check_forms)
    ck.assume("host directories hold UTF-8 regular files; main() runs in-process as an unprivileged user with captured streams")

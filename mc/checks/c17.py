"""C17: shell execution is total and composes pipelines, redirections and variables."""
import itertools
import shlex

from .. import proc
from ..canon import digest
from ..engine import Spec, Violation, equal, need
from ..env import CommandResult, MemoryStorageAdapter, ProviderError, SandboxShell, VirtualFileSystem
from ..fsops import setup
from ..parts import DirProvider, FileProvider, W
from ..refmodel import dump_vfs

RO = (True, False, False, "public", ())
AO = (True, True, True, "public", ())
FILES = {"/i": "in1\nin2\n", "/o": "old", "/ro": "fixed", "/ao": "log", "/d/k": "kk", "/e": ""}
ENV0 = {"X": "x0", "Y": "y 0", "F": "/o", "C": "say"}


# ------------------------------------------------- what the lines mean
class Fail(Exception):
    pass


def word(parts, env):
    """A word is a list of parts: text, or ('$', name)."""
    return "".join(env.get(p[1], "") if isinstance(p, tuple) else p for p in parts)


class Model:
    def __init__(self):
        self.env = dict(ENV0)
        self.files = dict(FILES)
        self.calls = []

    def script(self, lines):
        out = ""
        for line in lines:
            out = self.line(line)
        return out

    def line(self, line):
        if line[0] == "assign":
            for k, v in line[1]:
                self.env[k] = word(v, self.env)
            return ""
        pipe = ""
        for st in line[1]:
            pipe = self.stage(st, pipe)
        return pipe

    def stage(self, st, pipe):
        pre, cmd, args, redirs = st
        env = dict(self.env)
        env.update({k: word(v, self.env) for k, v in pre})
        stdin = pipe
        for op, target in redirs:
            if op == "<":
                t = norm(word(target, env))
                if t not in self.files:
                    raise Fail()
                stdin = self.files[t]
        out = self.command(word(cmd, env), [word(a, env) for a in args], stdin, env)
        for op, target in [r for r in redirs if r[0] != "<"][-1:]:  # of several, the last takes the output
            if op != "<":
                t = norm(word(target, env))
                if t in ("/d", "/ro", "/", "/i/x") or (t == "/ao" and op == ">"):
                    raise Fail()
                self.files[t] = (self.files.get(t, "") if op == ">>" else "") + out
                out = ""
        return out

    def command(self, name, args, stdin, env):
        if name == "say":
            self.calls.append(("say", tuple(a for a in args if a), stdin))
            return "<" + ",".join(a for a in args if a) + ">"
        if name == "up":
            self.calls.append(("up", stdin))
            return "U" + stdin.upper()
        if name == "vars":
            return "%s;%s;" % (env.get("X", "-"), env.get("Y", "-"))
        if name == "cat":
            if not args:
                return stdin
            out = ""
            for a in args:
                if norm(a) not in self.files:
                    raise Fail()
                out += self.files[norm(a)]
            return out
        raise Fail()


def norm(p):
    return p if p.startswith("/") else "/" + p


def make():
    vfs, _ = setup([("/d", None), *FILES.items()])
    from ..refmodel import pol_obj
    vfs.set_policy("/ro", pol_obj(RO))
    vfs.set_policy("/ao", pol_obj(AO))
    w = W()
    w.calls = []
    w.vfs = vfs
    w.sh = SandboxShell(vfs, env=dict(ENV0))

    def say(args, ctx):
        w.calls.append(("say", tuple(a for a in args if a), ctx.stdin))
        return "<" + ",".join(a for a in args if a) + ">"

    def up(args, ctx):
        w.calls.append(("up", ctx.stdin))
        return "U" + ctx.stdin.upper()

    def envs(args, ctx):
        return "%s;%s;" % (ctx.env.get("X", "-"), ctx.env.get("Y", "-"))

    def fail(args, ctx):
        return CommandResult(stdout="half", stderr="no", exit_code=3)

    def boom(args, ctx):
        raise KeyError("boom")

    for n, f in (("say", say), ("up", up), ("vars", envs), ("fail", fail), ("boom", boom)):
        w.sh.register_command(n, f)
    return w


def files_of(vfs):
    return {p: r[1] for p, r in dump_vfs(vfs).items() if r[0] == "f"}


# ------------------------------------------------- how the lines are written
def text_of(parts, how):
    if how == "single":
        return "".join("${%s}" % p[1] if isinstance(p, tuple) else "'%s'" % p for p in parts) or "''"
    s = "".join(("${%s}" if how == "tight" else "$%s") % p[1] if isinstance(p, tuple) else p for p in parts)
    if how == "tight":
        s = "".join("${%s}" % p[1] if isinstance(p, tuple) else p for p in parts)
    else:
        s = "".join("$%s" % p[1] if isinstance(p, tuple) and (i + 1 == len(parts) or isinstance(parts[i + 1], tuple) or not parts[i + 1][:1].isalnum()) else "${%s}" % p[1] if isinstance(p, tuple) else p for i, p in enumerate(parts))
    return '"%s"' % s if " " in s or not s else s


def render(line, style):
    q = "single" if style == "quoted" else style
    if line[0] == "assign":
        return " ".join("%s=%s" % (k, text_of(v, q)) for k, v in line[1])
    out = []
    for pre, cmd, args, redirs in line[1]:
        words = ["%s=%s" % (k, text_of(v, q)) for k, v in pre] + [text_of(cmd, q)] + [text_of(a, q) for a in args]
        red = [(op + text_of(t, q)) if style == "tight" else op + " " + text_of(t, q) for op, t in redirs]
        if style == "first":
            words = red + words
        elif style == "middle":
            n = len(pre) + 1
            words = words[:n] + red + words[n:]
        elif style == "tight":
            words = [" ".join(words) + "".join(red)]
        else:
            words = words + red
        out.append(" ".join(words))
    return ("|" if style == "tight" else " | ").join(out)


STYLES = ("spaced", "tight", "first", "middle", "quoted")
V = lambda n: ("$", n)  # noqa: E731


def compare(w, lines, style, text=None):
    m = Model()
    text = text or "\n".join(render(x, style) for x in lines)
    try:
        want = m.script(lines)
    except Fail:
        want = None
    try:
        r = w.sh.exec(text)
    except Exception as exc:
        raise Violation("exec(%r) raised %s: %s" % (text, type(exc).__name__, exc))
    if want is None:
        need(r.exit_code != 0, "%r succeeded with %r", text, r.stdout)
    else:
        equal((r.exit_code, r.stdout), (0, want), "result of %r" % text)
    equal(w.calls, m.calls, "commands run by %r" % text)
    equal(files_of(w.vfs), m.files, "files after %r" % text)
    equal(w.sh.env, m.env, "variables after %r" % text)
    return text


def check_script(case):
    style, lines = case
    return compare(make(), lines, style)


PRE = [(), (("X", ["n"]),), (("X", ["i"]), ("F", ["/i"]), ("Y", ["/o"])), (("X", [V("Y"), "m"]),), (("Y", [""]),), (("NEW", ["q r"]), ("X", [V("NONE")]))]
CMD = [("say", [["a"]]), ("say", [[V("X")], [V("Y"), " z"]]), ("say", [[V("NONE")], ["p", V("X"), "s"]]), ("up", []), ("fail", []), ("boom", []), ("vars", []), ("nope", []), ("cat", []), ("cat", [["/i"]]),
       ("cat", [["/nope"]]), ("say", [["-c"], [V("X")]]), ("say", [["-lc"], [V("Y")], [V("X")]])]
RED = [(), ((">", ["/o"]),), ((">>", ["/o"]),), (("<", ["/i"]),), ((">", ["/d"]),), (("<", ["/nope"]),), (("<", ["/i"]), (">", ["/o"])), ((">", [V("F")]),), ((">", ["/ro"]),), ((">", ["/ao"]),), ((">>", ["/ao"]),),
       ((">>", ["new", V("X")]),), (("<", ["/", V("X")]),), (("<", [V("Y")]),), ((">", ["/", V("X"), "f"]),), (("<", [V("F")]), (">", ["/z", V("X")])), (("<", [V("F")]), (">>", [V("F")])), ((">", ["/n/e/w"]),), (("<", ["/d"]),),
       ((">>", ["/o"]), (">", ["/i"])), ((">", ["/i"]), (">>", ["/o"])), ((">>", ["/i"]), (">>", ["/o"])), (("<", ["/i"]), ("<", ["/o"])), ((">", ["/o"]), ("<", ["/o"])), (("<", ["/i"]), (">>", ["/n2"]), ("<", ["/d/k"]), (">", ["/n2"])),
       (("<", ["/e"]),), (("<", ["/i"]), ("<", ["/e"])), (("<", ["/e"]), (">>", ["/o"]))]


def stages(pre, cmd, red):
    return [(p, [c[0]], c[1], r) for p in pre for c in cmd for r in red]


FULL = stages(PRE, CMD, RED)
MID = stages(PRE[:2], [CMD[i] for i in (0, 1, 3, 4, 6, 7, 9)], [RED[i] for i in (0, 1, 2, 3, 4, 5, 7, -3)])
SMALL = stages(PRE[:1], [CMD[i] for i in (1, 3, 4, 6)], RED[:4]) + stages(PRE[:1], [CMD[i] for i in (3, 8)], RED[-3:]) + stages(PRE[1:2], [CMD[i] for i in (1, 6)], RED[:2]) + [((), [V("C")], [["v"]], ()), ((), ["s", V("NONE"), "ay"], [["v"]], ())]
ASSIGN = [("assign", (("X", ["new"]),)), ("assign", (("X", [V("X"), "+"]),)), ("assign", (("Z", [V("Y"), " ", V("X")]), ("Y", [""]))), ("assign", (("F", ["/f2"]),)), ("assign", (("X", ["a=b"]),)), ("assign", (("C", ["up"]),)), ("assign", (("X", ["1"]), ("Y", [V("X"), "2"]), ("Z", [V("Y")]))),
          ("assign", (("Y", [V("X")]), ("X", [V("Y"), V("Y")])))]


# the name of the command itself comes from variables, set on the same command or before
NAMED = [(p, c, a, r) for p in [(), (("C", ["up"]),), (("C", ["say"]), ("X", ["ay"])), (("C", ["s"]), ("X", ["ay"])), (("C", [""]),), (("C", ["nope"]),), (("X", [V("C")]),), (("C", ["up"]), ("X", [V("C")])), (("D", ["vars"]),)]
         for c in ([V("C")], ["s", V("X")], [V("C"), V("X")], [V("X")], [V("D")], [V("C"), V("D")]) for a in ([], [["k"], [V("C")]]) for r in RED[:4]]


def cases(q):
    for s in NAMED:
        if word(s[1], dict(ENV0, **{k: word(v, ENV0) for k, v in s[0]})):  # an empty command name is not specified
            for st in STYLES:
                yield st, [("pipe", (s,))]
            for a in ASSIGN:
                if word(s[1], dict(ENV0, **{k: word(v, ENV0) for k, v in s[0]})):
                    yield "spaced", [("pipe", (s,)), a]
            yield "spaced", [("pipe", (SMALL[0], s))]
            yield "spaced", [("pipe", (s, SMALL[5]))]
    for s in FULL:
        for st in STYLES:
            yield st, [("pipe", (s,))]
    for a, b in itertools.product(MID, repeat=2):
        for st in ("spaced", "tight") if q else STYLES:
            yield st, [("pipe", (a, b))]
    for t in itertools.product(SMALL, repeat=3):
        yield "spaced", [("pipe", t)]
    lines = [("pipe", (s,)) for s in SMALL] + [("pipe", (SMALL[0], s)) for s in SMALL[::3]] + ASSIGN
    for t in itertools.product(lines, repeat=2):
        for st in ("spaced", "tight"):
            yield st, list(t)
    for t in itertools.product(ASSIGN + lines[::4], lines[::3] + ASSIGN, lines[1::4] + ASSIGN):
        yield "spaced", list(t)


def cases_long():
    lines = [("pipe", (s,)) for s in SMALL[::2]] + ASSIGN
    for t in itertools.product(lines, repeat=4):
        yield "spaced", list(t)


def cases_chain():
    """Long pipelines, long scripts, long operand lists; a failure at every position."""
    good = [s for s in SMALL if s[1] != ["fail"]]
    bad = [s for s in FULL if s[1] in (["fail"], ["boom"], ["nope"]) and s[0] == () and s[3] in ((), RED[1])] + [((), ["say"], [["q"]], RED[4]), ((), ["cat"], [["/nope"]], ())]
    lines = [("pipe", (s,)) for s in good[::2]] + ASSIGN + [("pipe", (good[0], good[5], good[3]))]
    for k in (4, 5, 6, 7, 9, 12, 20, 33):
        for start in range(len(good)):
            for step in (1, 2, 5):
                yield "spaced", [("pipe", tuple(good[(start + i * step) % len(good)] for i in range(k)))]
        for start in range(len(lines)):
            for step in (1, 2, 5):
                yield "spaced", [lines[(start + i * step) % len(lines)] for i in range(k)]
    for k in (4, 6, 9):
        for j in range(k):
            for b in bad:
                t = [good[(3 * i + j) % len(good)] for i in range(k)]
                t[j] = b
                yield "spaced", [("pipe", tuple(t))]
                t = [lines[(3 * i + j) % len(lines)] for i in range(k)]
                t[j] = ("pipe", (b,))
                yield "spaced", t
    for k in (3, 4, 7, 12, 30, 100):
        for start in range(6):
            words = [[["w%d"], [V("X")], ["-c"], ["a", V("Y")], ["-"], [V("F"), "z"]][(start + i) % 6] for i in range(k)]
            words = [[x % i if x == "w%d" else x for x in w] for i, w in enumerate(words)]
            for r in RED[:3]:
                yield "spaced", [("pipe", (((), ["say"], words, r), SMALL[5]))]
        pre = tuple(("V%d" % i, ["v%d" % i, V("X")]) for i in range(k))
        yield "spaced", [("assign", pre), ("pipe", (((), ["say"], [[V("V%d" % i)] for i in range(k)], ()),))]
        yield "spaced", [("pipe", ((pre + (("X", ["l"]),), ["vars"], [], ()),)), ("pipe", (((), ["say"], [[V("V%d" % i), "."] for i in range(k)], ()),))]
        yield "spaced", [("pipe", (((), ["up"], [], tuple(((">", ">>")[i % 2], ["/o%d" % i]) for i in range(k))),))]
        yield "spaced", [("assign", (("X", ["x" * 10 ** min(k, 4)]),)), ("pipe", (((), ["say"], [[V("X")]], (("<", ["/i"]),)), SMALL[5]))]


def check_layout(case):
    """Empty lines, indentation and the end of the text do not matter."""
    lines, how = case
    text = [render(x, "spaced") for x in lines]
    joined = {"blank": "\n\n\n".join(text), "around": "\n\n%s\n\n" % "\n".join(text), "indent": "\n".join("   " + x for x in text), "trail": "\n".join(x + "  " for x in text), "end": "\n".join(text) + "\n", "last": "\n".join(text) + "\n   \n\t\n ", "first": " \n\t\n" + "\n".join(text), "spaces": "\n  \n".join(text)}[how]
    return compare(make(), lines, "spaced", joined)


# ------------------------------------------------- words, values and names
LITERAL = ["a", " ", "|", ">", "<", "'", '"', "\\", "=", "#", ";", "&", "{", "}", "-", "~", "!", "(", ")", "%", "\u00e9", ",", "\t"]
OPERATORS = set("|<>")


def literal(case):
    """A quoted word reaches the command as it is, in one or several pieces."""
    how, text = case
    if how == "split":
        written = "".join(shlex.quote(c) for c in text)
    elif how == "double":
        written = '"%s"' % "".join("\\" + c if c in '"\\' else c for c in text)
    else:
        written = shlex.quote(text)
    w = make()
    r = w.sh.exec("say b %s c" % written)
    equal((r.exit_code, w.calls), (0, [("say", ("b", text, "c"), "")]), "say b %s c" % written)
    w = make()
    w.sh.exec("Q=%s" % written)
    equal(w.sh.env.get("Q"), text, "variable after Q=%s" % written)
    r = w.sh.exec("say b $Q c\nsay \"<$Q>\" | up")
    if text.strip():
        equal((r.exit_code, w.calls), (0, [("say", ("b", text, "c"), ""), ("say", ("<%s>" % text,), ""), ("up", "<<%s>>" % text)]), "uses of Q=%s" % written)
    r = make().sh.exec("Q=%s say b" % written)
    equal(r.stdout, "<b>", "a command after Q=%s" % written)
    return text[:1]


def literals(n):
    for k in range(1, n + 1):
        for t in itertools.product(LITERAL, repeat=k):
            t = "".join(t)
            if set(t) - OPERATORS:  # words of operators only: known finding
                yield ("quote", t)
                yield ("double", t)
                if len(t) > 1 and not set(t) & OPERATORS:
                    yield ("split", t)


EMPTY = ["''", '""', '"$NONE"', '"${NONE}"', '"$E"', '"$E$NONE"', "''\"\"", "a", '"$X"']


def empties(case):
    """A quoted word is one operand, also when nothing is in it."""
    words, how = case
    w = make()
    w.sh.env["E"] = ""
    seen = []
    w.sh.register_command("args", lambda args, ctx: seen.append((list(args), ctx.stdin)) or "")
    want = [{"a": "a", '"$X"': "x0"}.get(x, "") for x in words]
    line = {"plain": "args %s", "pipe": "say 1 | args %s", "after": "say 0\nargs %s", "redirect": "args %s > /o", "assign": "Z=1 args %s"}[how] % " ".join(words)
    r = w.sh.exec(line)
    equal((r.exit_code, seen), (0, [(want, "<1>" if how == "pipe" else "")]), line)
    return want


VALUES = ["$X", "${Y}", "$NONE", "$", "$$", "a$", "$Q", "${Q}$Q", "${", "}", "$X|cat", "> /o", "| up", "< /i", "a  b", "'q'", '"', "\\", "# c", "Q=1", "\u00e9", "x\ny", " "]


def value(case):
    """Values are used once, as text: not expanded again, not parsed again."""
    v, line, want = case
    w = make()
    w.sh.env["Q"] = v
    r = w.sh.exec(line)
    put = lambda s: s.replace("@", v)  # noqa: E731
    equal((r.exit_code, w.calls), (0, [("say", tuple(put(a) for a in want), "")]), "%r with Q=%r" % (line, v))
    equal(w.sh.env, dict(ENV0, Q=v), "variables after %r" % line)
    equal(files_of(w.vfs), FILES, "files after %r" % line)
    w = make()
    w.sh.env["Q"] = v
    w.sh.exec("R=$Q\nS=\"<${Q}>\"")
    equal((w.sh.env.get("R"), w.sh.env.get("S")), (v, "<%s>" % v), "copies of the variable Q=%r" % v)
    w = make()
    w.sh.env["Q"] = v
    equal(w.sh.exec("X=$Q vars").stdout, "%s;%s;" % (v, ENV0["Y"]), "X=$Q vars with Q=%r" % v)
    return want


LINES = [("say b $Q", ("b", "@")), ("say $Q$Q c", ("@@", "c")), ('say "${Q}z"', ("@z",)), ("say a${Q}b$X", ("a@bx0",)), ("say $Q=$Y", ("@=y 0",)), ("say /$Q/", ("/@/",)), ("say $Q.txt $Q-1", ("@.txt", "@-1"))]
LETTERS = "aZ_19"


def names():
    for k in range(1, 4):
        for t in itertools.product(LETTERS, repeat=k):
            yield "".join(t)


def variable(name):
    w = make()
    ok = not name[0].isdigit()
    r = w.sh.exec(name + "=v")
    if not ok:
        need(r.exit_code != 0 and name not in w.sh.env, "%s=v was taken as an assignment", name)
        return False
    equal((r.exit_code, w.sh.env), (0, dict(ENV0, **{name: "v"})), "%s=v" % name)
    for line, want in (("say $%s", "v"), ("say ${%s}", "v"), ("say $%s-b", "v-b"), ("say ${%s}b", "vb"), ("say a$%s/c", "av/c"), ("say $%s$%s", "vv"), ("say b$%sQ", "b"), ("say $q%s b", "b")):
        r = w.sh.exec(line.replace("%s", name))
        equal((r.exit_code, r.stdout), (0, "<%s>" % want), line.replace("%s", name))
    w = make()
    equal(w.sh.exec("%s=u say b\nsay b$%s" % (name, name)).stdout, "<b>", "scope of %s=u before a command" % name)
    equal(w.sh.env, ENV0, "variables after %s=u before a command" % name)
    return True


COMMENTS = ["#", "# say b", "#say b", "say", "a#b", "nope # x", "&& say", ";", "! say", "(say)", "say;", "{ say }", "if", "export A=1", "A", "=", "=a", "1=2", "A B=1", "-", "--help", "."]


def unknown(case):
    """A word that names no command fails, and nothing after it runs."""
    first, second = case
    if first == "say":
        return None
    w = make()
    r = w.sh.exec("say 1\n%s\n%s" % (first, second))
    need(r.exit_code != 0, "%r did not fail", first)
    equal(w.calls, [("say", ("1",), "")], "commands run around %r" % first)
    equal(files_of(w.vfs), FILES, "files after %r" % first)
    return r.exit_code


class Session(Spec):
    """Lines given to one shell, one after another."""
    clonable = False

    def __init__(self, lines):
        self.lines = lines
        self.acts = [(i,) for i in range(len(lines))]

    def make(self, init):
        w = make()
        w.model = Model()
        return w

    def actions(self, w):
        return self.acts

    def step(self, w, a):
        line = self.lines[a[0]]
        text = render(line, "spaced")
        m = w.model
        try:
            want = m.line(line)
        except Fail:
            want = None
        r = w.sh.exec(text)
        if want is None:
            need(r.exit_code != 0, "%r succeeded with %r", text, r.stdout)
        else:
            equal((r.exit_code, r.stdout), (0, want), "result of %r" % text)
        equal(w.calls, m.calls, "commands run by %r" % text)
        equal(files_of(w.vfs), m.files, "files after %r" % text)
        equal(w.sh.env, m.env, "variables after %r" % text)
        w.calls.clear()
        m.calls.clear()
        return "ok" if want is not None else "err"

    def key(self, w):
        return digest(w.vfs, w.sh.env, w.model.files)


# ------------------------------------------------- totality
CHARS = ["a", " ", "|", ">", "<", "'", '"', "\\", "$", "{", "}", "=", "\n", "*", "[", "?", "/", "-", "#", ";", "&", "\x00", "\u00e9", "]", "!", "~"]


def total(w, text):
    try:
        r = w.sh.exec(text)
    except BaseException as exc:
        if type(exc).__name__ == "_CpuTimeout":
            raise
        raise Violation("exec(%r) raised %s: %s" % (text, type(exc).__name__, exc))
    need(isinstance(r, CommandResult) and type(r.exit_code) is int and isinstance(r.stdout, str) and isinstance(r.stderr, str), "exec(%r) returned %r", text, r)
    return r.exit_code


class Shared:
    w = None


def total_line(text):
    """The world is reused while a line left it unchanged."""
    if Shared.w is None:
        Shared.w = hostile("view")
        Shared.d = digest(Shared.w.vfs, Shared.w.sh.env)
    code = total(Shared.w, text)
    if digest(Shared.w.vfs, Shared.w.sh.env) != Shared.d:
        Shared.w = None
    return code


class Bad:
    def __init__(self, exc):
        self.exc = exc

    def __call__(self, ctx):
        raise self.exc("provider failed")


def hostile(kind):
    w = make()
    v = w.vfs
    if kind == "view":
        v.enable_search_view()
    elif kind == "failing":
        v.mount_file("/a", Bad(ValueError))
        v.mount_directory("/p", Bad(OSError))
        v.mount_file("/s", Bad(KeyError))
    elif kind == "weird":
        v.mount_file("/a", FileProvider("\r\x00"))
        v.mount_directory("/p", DirProvider({"b": 7, "..": "x"}))
        v.mkdir("/gone/deep", parents=True)
        v.cd("/gone/deep")
        v.remove("/gone", recursive=True)
    elif kind == "noperm":
        for p in ("/i", "/d", "/o"):
            v.get_policy(p).readable = False
    elif kind == "root":
        v.get_policy("/").readable = False
        v.get_policy("/").writable = False
    return w


NAMES = ["pwd", "cd", "ls", "cat", "touch", "mkdir", "rm", "cp", "mv", "tree", "write", "append", "echo", "printf", "wc", "grep", "rg", "search", "python", "help", "stat", "head", "tail", "find", "host", "sh", "unknown", "boom"]
WORDS = ["/a", "/p", "/d", "/i", "/", "-r", "-n", "-c", "-l", "-e", "-i", "-type", "-name", "f", "0", "-1", "x", "*", "[", "%s%d", "%", "/@search?q=[&regex=1", "'/@search?q=i/i'", "/@search", "--", "-", "",
         "''", "..", "/p/*", "99999999999999999999", "--text", "--append", "1/0", "|", ">", "<", ">>", "$X", "/i/x", "\u00e9\u2028"]


def hostile_case(case):
    kind, words = case
    w = hostile(kind)
    return total(w, " ".join(words))


class BadStore(MemoryStorageAdapter):
    exc = None

    def write(self, path, content, *, version):
        raise self.exc("storage failed")

    def delete(self, path):
        raise self.exc("storage failed")


FAULTS = (ValueError, KeyError, OSError, FileNotFoundError, RuntimeError, TypeError, RecursionError, ProviderError, NotImplementedError, AttributeError, AssertionError, StopIteration, MemoryError)
FAILING = ["up < /f", "cat /f", "say 1 > /m/a", "say 1 >> /m/a", "say 1 > /m/new", "say 1 >> /m/n/w", "touch /m/new", "rm /m/a", "write /m/a x", "append /m/a x", "raise", "cat < /p/x", "ls /p", "cat /p/x", "say 1 > /p/x", "raise > /new", "mkdir /p/x", "tree /p",
           "head /f", "wc /f", "stat /p/x"]


def fault(case):
    """Whatever goes wrong in a provider, a storage backend or a command: the line fails and nothing after it runs."""
    line, exc, before, after = case
    w = make()
    w.vfs.mount_file("/f", Bad(exc))
    w.vfs.mount_directory("/p", Bad(exc))
    store = BadStore({"a": "s"})
    store.exc = exc
    w.vfs.mount_storage("/m", store)

    def bad(args, ctx):
        raise exc("command failed")

    w.sh.register_command("raise", bad)
    text = before + line + after
    rows = {p: r for p, r in files_of_static(w.vfs).items()}
    try:
        r = w.sh.exec(text)
    except Exception as e:
        raise Violation("exec(%r) raised %s: %s" % (text, type(e).__name__, e))
    need(r.exit_code != 0, "%r succeeded although %s was raised: %r", text, exc.__name__, r)
    need(r.stderr != "", "%r failed without a message", text)
    equal([c for c in w.calls if c[0] == "say" and c[1] == ("after",)], [], "commands run after the failure of %r" % text)
    equal([c for c in w.calls if c[0] == "say" and c[1] == ("before",)], [("say", ("before",), "")] if before else [], "commands run before the failure of %r" % text)
    equal(files_of_static(w.vfs), rows, "files after the failure of %r" % text)
    return exc.__name__


def files_of_static(vfs):
    return {p: vfs.read_file(p) for p in [*FILES, "/m/a"]} | {p: vfs.exists(p) for p in ("/m/new", "/m/n", "/m/b", "/new", "/after")}


def lonely(case):
    """A redirection without a command is refused or carried out, and never silently dropped."""
    pre, reds, after = case
    w = make()
    line = " ".join([*pre, *reds]) + after
    r = w.sh.exec(line)
    done = r.exit_code != 0 or all(w.vfs.is_file(x.split()[1]) for x in reds)
    need(done, "%r succeeded without its redirection: %r", line, r)
    if r.exit_code != 0:
        equal(w.calls, [], "commands run after the failure of %r" % line)
    return r.exit_code


KINDS = ("view", "failing", "weird", "noperm", "root")


def quoted_operator():
    w = make()
    r = w.sh.exec('say "|" b')
    s = make().sh.exec('say ">" b')
    return r.stdout != "<|,b>" or s.stdout != "<>,b>"


def run(ck):
    ck.unpriv = True
    proc.install()
    q = ck.quick
    ck.enum("scripts", lambda: cases(q), check_script, "every pipeline of up to three stages and script of up to three lines over the stated stages, in several spellings")
    ck.enum("long lines and scripts", cases_chain, check_script, "pipelines of up to 33 stages, scripts of up to 33 lines, up to 100 operands and assignments, failures at every position")
    some = [("pipe", (s,)) for s in SMALL[::3]] + ASSIGN[:3] + [("pipe", (((), ["fail"], [], ()),)), ("pipe", (SMALL[0], SMALL[5]))]
    ck.enum("layout", lambda: ((list(t), how) for k in (1, 2, 3) for t in itertools.product(some, repeat=k) for how in ("blank", "around", "indent", "trail", "end", "last", "first", "spaces") if k < 3 or how in ("blank", "spaces")), check_layout)
    if not q:
        ck.enum("long scripts", cases_long, check_script)
    lines = [("pipe", (s,)) for s in SMALL[::3]] + [("pipe", (SMALL[0], SMALL[5])), ("pipe", (((), ["fail"], [], ((">", ["/o"]),)),))] + ASSIGN
    ck.bfs("sessions", Session(lines), 3 if q else 5)
    ck.enum("quoted words", lambda: literals(2 if q else 3), literal, "every quoted word of up to %d of %d characters, as operand and as value" % (2 if q else 3, len(LITERAL)))
    ck.enum("empty words", lambda: [(ws, how) for k in (1, 2, 3) for ws in itertools.product(EMPTY, repeat=k) for how in ("plain", "pipe", "after", "redirect", "assign")], empties)
    ck.enum("values", lambda: ((v,) + x for v in VALUES for x in LINES), value)
    ck.enum("variable names", names, variable, "every name of up to three characters over %s" % LETTERS)
    ck.enum("words that are no command", lambda: itertools.product(COMMENTS, ("say 2", "echo x > /o", "X=5")), unknown)
    n = 3 if q else 4
    ck.enum("characters", lambda: ("".join(t) for k in range(n + 1) for t in itertools.product(CHARS, repeat=k)), total_line, "every string of up to %d of %d characters" % (n, len(CHARS)))
    ck.enum("echo and characters", lambda: ("echo " + "".join(t) for k in range(n + 1) for t in itertools.product(CHARS[:14], repeat=k)), total_line)
    ck.enum("hostile worlds", lambda: ((k, (c,) + t) for k in KINDS for c in NAMES for m in range(0, 3 if q else 4) for t in itertools.product(WORDS if m < 2 or not q else WORDS[::3], repeat=m)), hostile_case,
            "every command x up to 2 (thorough 3) operands x failing providers, dangling working directory, unreadable entries")
    ck.enum("faults", lambda: itertools.product(FAILING, FAULTS, ("", "say before\n", "say before | "), ("", "\nsay after", " | say after", "\nsay after > /after", " | cat > /after", "\nX=1\nsay after")), fault, "every failing line x exception x what is before and after")
    ck.enum("redirections without a command", lambda: ((p, r, a) for p in ((), ("X=1",), ("X=1", "Y=$X"), ("X=",)) for n in (1, 2) for r in itertools.product(("> /nx", ">> /nx", "< /nope", "> /d/k2", "< /i"), repeat=n) for a in ("", "\nsay after", " | say after")), lonely)
    ck.finding("C17-quoted-operators", quoted_operator)
    ck.assume("words equal to |, <, > or >> in quotes are excluded (known finding); an unquoted empty expansion may vanish or be an empty operand")

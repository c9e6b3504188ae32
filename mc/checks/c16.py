"""C16: agent mode - only allowed commands run, and output stays within the limit."""
import itertools

from .. import proc
from ..engine import equal, need
from ..env import CommandResult, SandboxShell, clock
from ..fsops import setup
from ..refmodel import dump_vfs

HOSTLIKE = ("host", "bash", "sh")
BUILTINS = ["pwd", "cd", "ls", "cat", "touch", "mkdir", "rm", "cp", "mv", "tree", "write", "append", "echo", "printf", "wc", "grep", "rg", "search", "python", "python3", "host", "bash", "sh", "help",
            "stat", "head", "tail", "find"]
ARGS = {"cd": "/d", "ls": "/d", "cat": "/d/f", "touch": "/new", "mkdir": "/nd", "rm": "-r /d", "cp": "/d/f /copy", "mv": "/d /moved", "write": "/d/f new", "append": "/d/f more", "echo": "hi", "printf": "hi",
        "wc": "/d/f", "grep": "t /d/f", "rg": "t /d", "search": "t /d", "python": "-c 'vfs.write_file(\"/py\", \"1\")'", "python3": "'print(1)'", "host": "ls /d", "bash": "-c true", "sh": "-c true",
        "stat": "/d/f", "head": "/d/f", "tail": "/d/f", "tree": "/d", "find": "/d"}
ALL = BUILTINS + ["mine", "ctxcmd", "shadow", "ghost"]


class World:
    def __init__(self, allowed, fallback):
        clock.reset()
        self.vfs, _ = setup([("/d", None), ("/d/f", "text\n"), ("/g", "g")])
        self.calls = []
        self.sh = SandboxShell(self.vfs, allowed_commands=allowed, host_fallback=fallback, env={"E": "echo", "M": "mine", "R": "rm", "T": "o"})
        self.sh.register_command("mine", self.mine)
        self.sh.register_command("ctxcmd", self.ctxcmd)
        self.sh.register_command("shadow", lambda args: self.calls.append("shadow") or "s", description="d")
        proc.FakePopen.log = []

    def mine(self, args):
        self.calls.append("mine")
        self.vfs.append_file("/mine", "m")
        return CommandResult(stdout="mine\n")

    def ctxcmd(self, args, ctx):
        self.calls.append(("ctx", ctx.stdin))
        self.vfs.append_file("/ctx", "c")
        return "ctx:" + ctx.stdin

    def state(self):
        return (dump_vfs(self.vfs), self.vfs.pwd(), self.calls, [c[0] for c in proc.FakePopen.log], dict(self.sh.env))


def run_it(allowed, fallback, line):
    w = World(allowed, fallback)
    r = w.sh.exec(line)
    need(isinstance(r.exit_code, int), "no exit code: %r", r)
    return (r.stdout, r.stderr, r.exit_code), w.state()


def join(stages, how):
    """The command line for a list of (spelling, args) stages."""
    return (" | " if how == "|" else "\n" if how == "n" else "|").join(stages)


def check_line(case):
    """stages: list of (name, text). The first disallowed one stops everything; what precedes it takes effect."""
    allowed, fallback, how, stages = case
    names = [s[0] for s in stages]
    bad = next((i for i, n in enumerate(names) if n not in allowed), None)
    line = join([s[1] for s in stages], how)
    got, state = run_it(allowed, fallback, line)
    if bad is None:
        want, wstate = run_it(None, fallback, line)
        equal(got, want, "result of the allowed line %r" % line)
        equal(state, wstate, "effects of the allowed line %r" % line)
        return ("allowed", got[2])
    prefix = join([s[1] for s in stages[:bad]], how)
    want, wstate = run_it(None, fallback, prefix)
    need(got[2] != 0, "%r succeeded with allow-list %r: %r", line, allowed, got)
    equal(state, wstate, "effects of %r with allow-list %r" % (line, allowed))
    if want[2] == 0:
        need(got[0] == "", "a disabled command printed %r", got[0])
    return ("stopped", bad, want[2])


def text(name):
    return (name + " " + ARGS.get(name, "x")).strip()


SPELL = {
    "plain": lambda n: text(n),
    "quoted": lambda n: "'%s' %s" % (n, ARGS.get(n, "x")),
    "dquoted": lambda n: '"%s" %s' % (n, ARGS.get(n, "x")),
    "split": lambda n: "%s''%s %s" % (n[:1], n[1:], ARGS.get(n, "x")),
    "escaped": lambda n: "\\%s %s" % (n, ARGS.get(n, "x")),
    "assigned": lambda n: "A=1 %s" % text(n),
    "shadow": lambda n: "E=%s %s" % ("echo", text(n)),
    "own": lambda n: "Z=%s $Z %s" % (n, ARGS.get(n, "x")),
    "own2": lambda n: "Z=%s %s$Z %s" % (n[1:], n[:1], ARGS.get(n, "x")),
    "braces": lambda n: "Z=%s ${Z} %s" % (n, ARGS.get(n, "x")),
    "redirect": lambda n: text(n) + " > /out",
    "append": lambda n: text(n) + " >> /out",
    "stdin": lambda n: text(n) + " < /g",
    "first": lambda n: "> /out " + text(n),
    "empty": lambda n: "${NOPE}%s" % text(n),
}


def spelled():
    for n in ALL:
        for sp, f in SPELL.items():
            for allowed in ((), ("echo",), (n,), ("echo", "cat", "mine"), tuple(x for x in ALL if x != n), tuple(ALL), (n + "x", n[1:], n.upper(), "$Z", ""), ("ghost",), (n, "ghost")):
                for fb in (False, True):
                    yield (allowed, fb, "|", [(n, f(n))])


def pipelines(k):
    base = ["echo", "mine", "write", "ghost", "ctxcmd", "cat"]
    lists = [c for r in range(0, 3) for c in itertools.combinations(base, r)] + [tuple(base), ("echo", "ctxcmd", "cat")]
    lines = {"cat": "cat", "echo": "echo hi", "mine": "mine", "write": "write /d/f new", "ghost": "ghost a", "ctxcmd": "ctxcmd"}
    for stages in itertools.product(base, repeat=k):
        for allowed in lists:
            for how in ("|", "n"):
                yield (allowed, stages[0] != "cat", how, [(n, lines[n]) for n in stages])


def long_lines():
    """Long pipelines and scripts with one command off the list at every position."""
    good = ["echo", "ctxcmd", "cat", "mine"]
    lines = {"cat": "cat", "echo": "echo hi", "mine": "mine", "write": "write /d/f new", "ghost": "ghost a", "ctxcmd": "ctxcmd", "rm": "rm -r /d", "host": "host ls", "cp": "cp /d/f /c"}
    for k in (4, 5, 8, 13, 30):
        for start in range(4):
            stages = [good[(start + i) % 4] for i in range(k)]
            for how in ("|", "n"):
                yield (tuple(good), False, how, [(n, lines[n]) for n in stages])
                for at in range(k):
                    for bad in ("write", "rm", "ghost", "host", "cp"):
                        mixed = stages[:at] + [bad] + stages[at + 1:]
                        if k < 13 or at % 4 == start:
                            yield (tuple(good), bad == "ghost", how, [(n, lines[n]) for n in mixed])


def long_limit(case):
    """Limits around the size of long outputs, at each stage of a long pipeline."""
    size, delta, char, stages, how = case
    vfs, _ = setup([("/f", char * size)])
    nbytes = size * len(char.encode())
    sh = SandboxShell(vfs, max_output_bytes=max(0, nbytes + delta))
    line = {"|": "cat /f" + " | cat" * stages, "n": "\n".join(["pwd"] * stages + ["cat /f"]), ">": "cat /f" + " | cat" * stages + " > /out"}[how]
    r = sh.exec(line)
    fits = nbytes <= max(0, nbytes + delta) and (how != "n" or not stages or nbytes + delta >= 1)
    if fits:
        equal((r.exit_code, r.stdout), (0, "" if how == ">" else char * size), "output of %d bytes with a limit of %d" % (nbytes, nbytes + delta))
        if how == ">":
            equal(vfs.read_file("/out"), char * size, "redirected output")
    else:
        need(r.exit_code != 0 and char * 2 not in r.stdout, "%d bytes of output passed a limit of %d", nbytes, nbytes + delta)
        need(not vfs.exists("/out"), "too long output was redirected")
    return fits


def persisted(case):
    """The name comes from a variable set earlier, or from the environment of the shell."""
    n, allowed, setter = case
    w = World(allowed, True)
    lines = {"line": "V=%s\n$V %s" % (n, ARGS.get(n, "x")), "env": "$V %s" % ARGS.get(n, "x"), "glue": "V=%s\nW=%s\n$V$W %s" % (n[:2], n[2:], ARGS.get(n, "x"))}
    if setter == "env":
        w.sh.env["V"] = n
    before = w.state()[:4]
    r = w.sh.exec(lines[setter])
    if n in allowed:
        u, s = run_it(None, True, text(n))
        equal((r.stdout, r.stderr, r.exit_code), u, "result of %r" % lines[setter])
        equal(w.state()[:4], s[:4], "effects")
    else:
        need(r.exit_code != 0, "%r ran", lines[setter])
        equal(w.state()[:4], before, "effects of a disabled command")
    return r.exit_code


ODD = ["Echo", "ECHO", "echo ", " echo", "\techo", "ec", "echo2", "ech", "e", "/echo", "echo/", "./echo", "echo.sh", "\u00e9cho", "-echo", "echo-x", "sandfs:echo", "*", "mine ", ""]


def odd_name(case):
    """Names that differ from an allowed one by case, blanks or a few characters, registered or not."""
    n, registered, allowed, fallback = case
    w = World(allowed, fallback)
    if registered:
        w.sh.register_command(n, lambda args: w.calls.append(n) or "ran")
    before = w.state()
    line = "'%s' hi" % n
    r = w.sh.exec(line)
    if allowed is not None and n not in allowed:
        need(r.exit_code != 0 and r.stdout == "", "%r ran with allow-list %r: %r", line, allowed, r)
        equal(w.state(), before, "effects of the disabled %r" % line)
        return "disabled"
    if registered:
        equal((r.stdout, r.exit_code, w.calls), ("ran", 0, [n]), "the allowed %r" % line)
    elif not fallback:
        need(r.exit_code != 0, "unknown %r succeeded", line)
        equal(w.state(), before, "effects of the unknown %r" % line)
    return r.exit_code


# ------------------------------------------------------------------ limits
CH = ["x", "\u00e9", "\U0001d11e"]


def limited(limit, fallback=False):
    vfs, _ = setup([("/f", "abc")])
    sh = SandboxShell(vfs, max_output_bytes=limit, host_fallback=fallback)

    def gen(args):
        out, err, code, how = args
        o = decode(out)
        if how == "str":
            return o
        if how == "none":
            return None
        return CommandResult(stdout=o, stderr=decode(err), exit_code=int(code))

    sh.register_command("gen", gen)
    sh.register_command("feed", lambda args, ctx: ctx.stdin)
    return vfs, sh


def decode(spec):
    return "" if spec == "-" else CH[int(spec[0])] * int(spec[1:])


def size(s):
    return len(s.encode())


def gens():
    outs = ["-", "01", "02", "03", "05", "11", "12", "21", "22"]
    for o, e in itertools.product(outs, ("-", "01", "02", "11", "21")):
        for c in ("0", "1", "3"):
            yield "gen %s %s %s res" % (o, e, c), (decode(o), decode(e), int(c))
    for o in outs:
        yield "gen %s - 0 str" % o, (decode(o), "", 0)
    yield "gen - - 0 none", ("", "", 0)


def fits(limit, out, err):
    return limit is None or size(out) + size(err) <= limit


def check_limit(case):
    limit, shape, first, second = case
    vfs, sh = limited(limit)
    g1, (o1, e1, c1) = first
    g2, (o2, e2, c2) = second if second else (None, ("", "", 0))
    line = {"one": g1, "cat": g1 + " | cat", "head": g1 + " | head -c 1", "file": g1 + " > /out", "appendfile": g1 + " >> /f", "line2": g1 + "\n" + str(g2), "pipe": g1 + " | " + str(g2),
            "feed": "%s | feed | feed" % g1}[shape]
    r = sh.exec(line)

    def over(what):
        need(r.exit_code != 0, "%s: output over the limit of %s bytes was returned: %r", what, limit, r)
        need(r.stdout == "", "%s: part of the output was returned: %r", what, r)
        equal(vfs.read_file("/f"), "abc", "file after an output over the limit")
        need(not vfs.exists("/out"), "output over the limit was written to a file")
        return "over"

    if not fits(limit, o1, e1):
        return over("first command")
    if c1 != 0:
        equal((r.stdout, r.stderr, r.exit_code), (o1, e1, c1), "failing first command")
        return "failed"
    if shape in ("one", "cat", "feed"):
        want = (o1, e1, 0)
    elif shape == "head":
        want = (o1[:1], e1, 0)
    elif shape in ("file", "appendfile"):
        want = ("", e1, 0)
        equal(vfs.read_file("/out" if shape == "file" else "/f"), o1 if shape == "file" else "abc" + o1, "redirected output")
    else:
        if not fits(limit, o2, e2):
            return over("second command")
        want = (o2, e1 + e2 if shape == "pipe" else e2, c2)
    if not fits(limit, want[0], want[1]):
        return over("whole pipeline")
    equal((r.stdout, r.stderr, r.exit_code), want, "result within the limit")
    return want


def builtin_limit(case):
    """Every built-in under every limit: within it the same result as without, beyond it an error and nothing printed."""
    name, limit, extra = case
    vfs, _ = setup([("/d", None), ("/d/f", "t\u00e9xt\nmore\n"), ("/g", "g")])
    free = SandboxShell(vfs).exec(text(name) + extra)
    stage = SandboxShell(setup([("/d", None), ("/d/f", "t\u00e9xt\nmore\n"), ("/g", "g")])[0]).exec(text(name) + extra.split("|")[0].split(">")[0])
    vfs2, _ = setup([("/d", None), ("/d/f", "t\u00e9xt\nmore\n"), ("/g", "g")])
    r = SandboxShell(vfs2, max_output_bytes=limit).exec(text(name) + extra)
    if fits(limit, free.stdout, free.stderr) and fits(limit, stage.stdout, stage.stderr):
        equal((r.stdout, r.stderr, r.exit_code), (free.stdout, free.stderr, free.exit_code), "%s within the limit" % name)
        equal(dump_vfs(vfs2), dump_vfs(vfs), "tree")
        return "fits"
    need(r.exit_code != 0 and r.stdout == "", "%s over the limit of %d gave %r", name, limit, r)
    return "over"


def host_limit(case):
    """Output of host commands counts too."""
    n, limit, line = case
    proc.FakePopen.out = "h" * n
    vfs, _ = setup([("/d/f", "t")])
    sh = SandboxShell(vfs, max_output_bytes=limit, host_fallback=True)
    sh.register_command("feed", lambda args, ctx: ctx.stdin)
    before = dump_vfs(vfs)
    r = sh.exec(line)
    if "| head" in line or ">" in line or line.startswith("echo"):
        if n <= limit and (limit > 1 or not line.startswith("echo")):
            equal((r.stdout, r.exit_code), ("", 0), "%s within the limit" % line)
            if ">" in line:
                equal(vfs.read_file(line.split()[-1]), ("t" if ">>" in line else "") + "h" * n, "file after %s" % line)
        elif n > limit:
            need(r.exit_code != 0 and r.stdout == "", "host output over the limit in a pipeline: %s: %r", line, r)
            equal(dump_vfs(vfs), before, "tree after host output over the limit: %s" % line)
    elif n <= limit:
        equal((r.stdout, r.exit_code), ("h" * n, 0), "host output within the limit")
    else:
        need(r.exit_code != 0 and r.stdout == "", "host output over the limit: %r", r)
    return n <= limit


ERRORS = ["{}", "{} | cat", "echo a | {}", "cat /{}", "cat < /{}", "echo a > /d/f/{}", "ls /{}", "rm /{}", "cd /{}", "boom {}", "echo '{}", "echo a |", "'{}' x", "host {}", "grep x /{}", "echo a\n{}", "{}\necho a",
          "X={} $X", "mkdir /{}/a", "disabled {}", "head -n {} /d/f", "head -c {} /d/f", "stat /{}", "find /{}", "tree /{}", "write /d", "mv /{} /x", "cp /{} /x", "search [ -e {}", "rg -e '({}' /d", "python -c '{}'"]


def error_limit(case):
    """Failing lines: what they report counts as output too."""
    form, n, limit, ch = case
    line = form.format(ch * n)
    outs = []
    for lim in (None, limit):
        proc.FakePopen.out = ""
        vfs, _ = setup([("/d", None), ("/d/f", "t\n")])
        sh = SandboxShell(vfs, max_output_bytes=lim, allowed_commands=None if "disabled" not in form else ["echo"])
        sh.register_command("boom", boom)
        r = sh.exec(line)
        outs.append((r.stdout, r.stderr, r.exit_code))
    free, got = outs
    if fits(limit, free[0], free[1]):
        if got != free:  # a stage before it may have been over the limit
            need(got[2] != 0 and got[0] == "", "%r within the limit of %d gave %r, expected %r", line, limit, got, free)
        return "fits"
    need(got[2] != 0 and got[0] == "", "%r over the limit of %d gave %r", line, limit, got)
    need(got[1] != free[1] and (n < 20 or ch * n not in got[1]), "%r over the limit of %d bytes still reported %d bytes", line, limit, size(got[1]))
    return "over"


def boom(args):
    raise KeyError("boom " + " ".join(args))


FORMS = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "iterator": iter, "generator": lambda a: (x for x in a), "keys": lambda a: dict.fromkeys(a).keys(), "map": lambda a: map(str, a), "dict": dict.fromkeys}


def allow_form(case):
    """The allow-list may be any iterable, and it counts for every later command."""
    form, allowed, seq, alter = case
    given = FORMS[form](allowed)
    w = World(given, True)
    if alter == "widen":  # what the caller does with its collection later is not the shell's business
        given.extend(ALL) if form == "list" else given.update(dict.fromkeys(ALL))
    elif alter == "empty":
        given.clear()
    for n in seq:
        before = w.state()
        r = w.sh.exec(text(n))
        if n in allowed:
            need(r.exit_code == 0, "%s is allowed (%s of %r) but was refused after %r: %r", n, form, allowed, seq, r)
        else:
            need(r.exit_code != 0 and r.stdout == "", "%s is not allowed (%s of %r) but ran in %r: %r", n, form, allowed, seq, r)
            equal(w.state(), before, "effects of the disabled %s" % n)
    return seq


def run(ck):
    ck.unpriv = True
    proc.install()
    q = ck.quick
    ck.enum("spellings", spelled, check_line, "every command x spelling x allow-list x host fallback")
    for k in (2, 3) if q else (2, 3, 4):
        ck.enum("pipelines of %d" % k, lambda k=k: pipelines(k), check_line, "every pipeline and script of %d commands under every allow-list of up to two commands" % k)
    ck.enum("long pipelines and scripts", long_lines, check_line)
    ck.enum("limits of long output", lambda: itertools.product((0, 1, 2, 255, 1023, 1024, 1025, 4096, 65535, 65536, 100000), (-100, -1, 0, 1, 100), ("x", "\u00e9", "\n", "\U0001f600"), (0, 1, 6), ("|", "n", ">")), long_limit)
    ck.enum("variables", lambda: itertools.product(ALL, ((), ("echo",), ("mine", "rm", "ghost"), tuple(ALL), ("cat", "ls")), ("line", "env", "glue")), persisted)
    lists = (None, (), ("echo",), ("echo", "mine", "cat"), tuple(ALL))
    ck.enum("similar names", lambda: ((n, g, al, fb) for n in ODD for g in (False, True) for al in lists + ((n,), (n, "echo")) for fb in (False, True)), odd_name)
    firsts = list(gens())
    seconds = firsts[::7] if q else firsts[::3]
    limits = (None, 0, 1, 2, 3, 4, 5, 7)
    ck.enum("limits", lambda: itertools.chain(
        itertools.product(limits, ("one", "cat", "head", "file", "appendfile", "feed"), firsts, [None]),
        itertools.product(limits, ("line2", "pipe"), firsts, seconds)), check_limit)
    ck.enum("limits of built-ins", lambda: itertools.product([b for b in BUILTINS if b not in HOSTLIKE + ("stat",)], range(0, 60) if q else range(0, 1200), ("", " /nope", " | cat", " > /out2")), builtin_limit)
    ck.enum("limits of host output", lambda: itertools.product(range(0, 6), range(0, 6), ("host x", "sh -c x", "bash -c x", "ghost", "ls -a", "ghost | cat", "ghost | feed", "host x | feed", "sh -c x | feed", "ls -a | feed", "ghost > /out", "ghost >> /d/f", "bash -c x > /out", "echo a | ghost | head -c 0", "host x | head -c 0")), host_limit)
    lens = (1, 5, 20, 100, 300)
    ck.enum("limits of errors", lambda: itertools.product(ERRORS, lens, (0, 1, 10, 40, 60, 80, 150, 250) if q else range(0, 330, 3), ("x", "\u00e9")), error_limit)
    forms = ["echo", "mine", "write", "ghost", "touch"]
    ck.enum("forms of the allow-list", lambda: itertools.product(FORMS, [c for k in range(0, 4) for c in itertools.combinations(forms, k)],
                                                                 [s for k in (1, 2, 3) for s in itertools.product(forms if k < 3 or not q else forms[:3], repeat=k)], (None,)), allow_form)
    ck.enum("allow-lists altered by the caller", lambda: itertools.product(("list", "set", "dict"), [c for k in range(0, 4) for c in itertools.combinations(forms, k)],
                                                                          [(x, y) for x in ALL for y in ("echo", "write")], ("widen", "empty")), allow_form)
    ck.assume("process creation is replaced by a stand-in that records what would have been started")

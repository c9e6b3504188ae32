"""C20: viewing and text commands compute exactly what they define."""
import datetime
import itertools
import re
import shlex
import time

from ..engine import equal, need
from ..env import SandboxShell
from ..fsops import same_dump, setup
from ..refmodel import dump_vfs
from ..values import NAMES as ODD, PAIRS, TEXTS, shellable
from ..views import ancestors, everything, within
from .c14 import matches

UNITS = ["a", "\u00e9", "\n", "\r\n"]


def texts(n, units=UNITS):
    for k in range(n + 1):
        for p in itertools.product(units, repeat=k):
            yield "".join(p)


def rows(text):
    """Lines including their ends."""
    out = text.split("\n")
    out = [x + "\n" for x in out[:-1]] + ([out[-1]] if out[-1] else [])
    return out


def bare(text):
    return [x[:-2] if x.endswith("\r\n") else x[:-1] if x.endswith("\n") else x for x in rows(text)]


def sandbox(files, dirs=("/empty",), cwd=None):
    vfs, _ = setup([(d, None) for d in dirs] + list(files.items()))
    if cwd:
        vfs.cd(cwd)
    return vfs, SandboxShell(vfs, view=everything())


def ask(sh, line):
    r = sh.exec(line)
    return r.exit_code, r.stdout


def unchanged(vfs, before, what):
    same_dump(dump_vfs(vfs), before, what)


# ------------------------------------------------------------ head and tail
def head(text, mode, n):
    return "".join(rows(text)[:n]) if mode == "-n" else text[:n]


def tail(text, mode, n):
    if n == 0:
        return ""
    return "".join(rows(text)[-n:]) if mode == "-n" else text[-n:]


CUT = {"head": head, "tail": tail}


def check_cut(text):
    vfs, sh = sandbox({"/d/f": text}, cwd="/d")
    before = dump_vfs(vfs)
    for name, fn in CUT.items():
        for mode in ("-n", "-c"):
            for n in range(len(text) + 2):
                want = fn(text, mode, n)
                for line in ("%s %s %d f", "%s %s %d < f", "cat /d/f | %s %s %d", "cat f | %s %s %d -"):
                    line %= name, mode, n
                    equal(ask(sh, line), (0, want), "%s of %r" % (line, text))
                line = "%s f %s %d" % (name, mode, n)
                equal(ask(sh, line), (0, want), "%s of %r" % (line, text))
        equal(ask(sh, name + " f"), (0, fn(text, "-n", 10)), "%s of %r" % (name, text))
        for a, b in ((1, 2), (2, 0), (0, 3)):
            line = "%s -n %d -c %d f" % (name, a, b)
            equal(ask(sh, line), (0, fn(text, "-c", b)), "%s of %r" % (line, text))
            line = "%s -c %d -n %d f" % (name, a, b)
            equal(ask(sh, line), (0, fn(text, "-n", b)), "%s of %r" % (line, text))
    unchanged(vfs, before, "tree after head and tail")
    return len(rows(text))


def check_long(case):
    k, end, eol = case
    text = eol.join("l%d" % i for i in range(k)) + (eol if end else "")
    vfs, sh = sandbox({"/f": text})
    for name, fn in CUT.items():
        for line, mode, n in [("%s /f", "-n", 10), ("cat /f | %s", "-n", 10)] + [("%%s -n %d /f" % n, "-n", n) for n in (k - 1, k, k + 1, 9, 10, 11, 12, 1000) if n >= 0] + [("%%s -c %d /f" % n, "-c", n) for n in (len(text) - 1, len(text), len(text) + 1, 10) if n >= 0]:
            equal(ask(sh, line % name), (0, fn(text, mode, n)), "%s of %d lines" % (line % name, k))
    equal(ask(sh, "wc /f"), (0, "%d %d /f" % (len(rows(text)), len(text.encode()))), "wc")
    return k


def check_two(case):
    x, y = case
    vfs, sh = sandbox({"/f": x, "/d/g": y})
    before = dump_vfs(vfs)
    for name, fn in CUT.items():
        for opt, mode, n in (("", "-n", 10), ("-n 1 ", "-n", 1), ("-c 2 ", "-c", 2), ("-n 0 ", "-n", 0)):
            want = "==> /f <==\n%s\n\n==> /d/g <==\n%s" % (fn(x, mode, n), fn(y, mode, n))
            line = "%s %s/f /d/g" % (name, opt)
            equal(ask(sh, line), (0, want), "%s of %r and %r" % (line, x, y))
            line = "cat /f | %s %s- /d/g" % (name, opt)
            equal(ask(sh, line), (0, want.replace("/f", "-", 1)), "%s of %r and %r" % (line, x, y))
    for line, want in (("cat /f /d/g", x + y), ("cat /d/g /f", y + x), ("cat /f /f", x + x), ("cat /d/g | cat /f -", x + y), ("cat /d/g | cat - /f", y + x), ("cat /d/g | cat - -", y + y), ("cat /f", x), ("cat /f | cat", x), ("cat < /f", x),
                       ("cat - < /f", x), ("cat /f | cat -", x), ("cat /f | cat /d/g", y)):
        equal(ask(sh, line), (0, want), "%s of %r and %r" % (line, x, y))
    for opt in ("", "-l", "-c", "-l -c", "-c -l"):
        def count(t, label=None):
            parts = ([str(len(rows(t)))] if "-c" != opt else []) + ([str(len(t.encode()))] if "-l" != opt else []) + ([label] if label else [])
            return " ".join(parts)
        for line, want in (("wc %s /f" % opt, count(x, "/f")), ("wc %s /f /d/g" % opt, count(x, "/f") + "\n" + count(y, "/d/g")), ("wc %s < /f" % opt, count(x)), ("cat /d/g | wc %s" % opt, count(y)), ("cat /d/g | wc %s - /f" % opt, count(y, "-") + "\n" + count(x, "/f")),
                           ("wc /f %s" % opt, count(x, "/f"))):
            equal(ask(sh, line), (0, want), "%s of %r and %r" % (line, x, y))
    unchanged(vfs, before, "tree after reading")
    return (len(x), len(y))


# ------------------------------------------------------------ grep
GPATS = [("a", 0), ("A", 0), ("ab", 0), ("a.", 0), ("a.", 1), ("^a", 1), ("b$", 1), ("[ab]\u00e9", 1), ("\u00c9", 0), (".", 1), ("a|b", 1), ("zz", 0)]
GUNITS = ["a", "B", "\u00e9", ".", "\n"]


# a directory or file as seen from a working directory
SPELL = [("/", ".", "/"), ("/", "./", "/"), ("/", "d", "/d"), ("/", "e", "/e"), ("/e", ".", "/e"), ("/e", "..", "/"), ("/e", "s", "/e/s"), ("/e/s", ".", "/e/s"), ("/e/s", "h", "/e/s/h"), ("/e/s", "../../d/", "/d"), ("/d", "f", "/d/f"), ("/d", "./g", "/d/g"),
         ("/empty", ".", "/empty"), ("/empty", "/e/s/..", "/e")]


def check_grep(text):
    vfs, sh = sandbox({"/d/f": text, "/d/g": "ab\u00e9\na.b", "/e/s/h": "Ab\n\nxa"}, cwd="/empty")
    before = dump_vfs(vfs)
    files = {"/d/f": text, "/d/g": "ab\u00e9\na.b", "/e/s/h": "Ab\n\nxa"}
    for pat, rx in GPATS:
        for ic, num in itertools.product((0, 1), repeat=2):
            flags = "%s%s%s" % ("-e " if rx else "", "-i " if ic else "", "-n " if num else "")
            q = shlex.quote(pat)

            def hits(t, label=""):
                return [("%s:" % label if label else "") + ("%d:" % i if num else "") + ln for i, ln in enumerate(bare(t), 1) if matches(pat, rx, ic, ln)]

            what = "grep %s%r" % (flags, pat)
            equal(ask(sh, "grep %s%s /d/f" % (flags, q)), (0, "\n".join(hits(text, "/d/f"))), what + " of %r" % text)
            equal(ask(sh, "cat /d/f | grep %s%s" % (flags, q)), (0, "\n".join(hits(text))), what + " of %r on stdin" % text)
            equal(ask(sh, "grep %s %s - /d/g < /d/f" % (q, flags)), (0, "\n".join(hits(text) + hits(files["/d/g"], "/d/g"))), what + " of - and a file")
            equal(ask(sh, "rg %s%s /d/f /e/s/h" % (flags, q)), (0, "\n".join(hits(text, "/d/f") + hits(files["/e/s/h"], "/e/s/h"))), what + " of two files")
            for line, which in (("grep %s%s /d", ("/d/f", "/d/g")), ("grep -r %s%s /", tuple(files)), ("rg %s%s /e", ("/e/s/h",)), ("grep %s%s /e", ())):
                line %= flags, q
                code, out = ask(sh, line)
                equal((code, sorted(out.split("\n")) if out else []), (0, sorted(h for f in which for h in hits(files[f], f))), "%s with %r" % (line, text))
                if num:
                    for f in which:
                        mine = [x for x in out.split("\n") if x.startswith(f + ":")]
                        equal(mine, hits(files[f], f), "order of the matches of %s" % line)
    for cwd, spell, top in SPELL:
        vfs.cd(cwd)
        for deep, cmd in ((0, "grep a"), (0, "grep -n a"), (1, "grep -r a"), (1, "rg a"), (1, "grep -r -n a")):
            if spell is None and not (deep or cmd == "grep a"):
                continue
            which = [f for f in files if (within(f, top) if deep else f == top or (f.rpartition("/")[0] or "/") == top)]
            want = sorted(f + ":" + ("%d:" % i if "-n" in cmd else "") + ln for f in which for i, ln in enumerate(bare(files[f]), 1) if "a" in ln)
            line = cmd + ("" if spell is None else " " + spell)
            code, out = ask(sh, line)
            equal((code, sorted(out.split("\n")) if out else []), (0, want), "%s in %s with %r" % (line, cwd, text))
    unchanged(vfs, before, "tree after grep")
    return len(text)


# ------------------------------------------------------------ trees: ls, tree, find, stat, globs
PATHS = ["/a", "/B", "/a/b", "/a/a.x", "/a/b/c", "/b.x"]


def shapes(paths):
    """Every tree over the paths: each absent, a file or a directory."""
    for kinds in itertools.product("-fd", repeat=len(paths)):
        t = dict(zip(paths, kinds))
        if all(t[p] == "-" or (p.rpartition("/")[0] or "/") == "/" or t.get(p.rpartition("/")[0], "d") == "d" for p in paths):
            yield [(p, k) for p, k in t.items() if k != "-"]


def plant(shape, order=1):
    todo = [("/empty", None)] + [(p, None if k == "d" else "x" * (i + 1)) for i, (p, k) in enumerate(shape)]
    vfs, _ = setup(todo[::order])
    return vfs


def kids(tree, d):
    names = [(tree[p][0] == "f", p.rpartition("/")[2]) for p in tree if p != "/" and (p.rpartition("/")[0] or "/") == d]
    return sorted(names)


def join(d, n):
    return (d if d != "/" else "") + "/" + n


def render(tree, top):
    out = [top]

    def go(d, prefix):
        ks = kids(tree, d)
        for i, (isf, n) in enumerate(ks):
            end = i == len(ks) - 1
            out.append(prefix + ("\u2514\u2500\u2500 " if end else "\u251c\u2500\u2500 ") + n + ("" if isf else "/"))
            if not isf:
                go(join(d, n), prefix + ("    " if end else "\u2502   "))
    go(top, "")
    return "\n".join(out)


def glob_re(pat):
    out, i = "", 0
    while i < len(pat):
        c = pat[i]
        if c == "*":
            out += "[\\s\\S]*"
        elif c == "?":
            out += "[\\s\\S]"
        elif c == "[" and "]" in pat[i + 2:]:
            j = pat.index("]", i + 2)
            body = pat[i + 1:j]
            neg = body.startswith("!")
            out += "[%s%s]" % ("^" if neg else "", re.escape(body[neg:]).replace("\\-", "-"))
            i = j
        else:
            out += re.escape(c)
        i += 1
    return re.compile(out + r"\Z")


NAMES = ["*", "a*", "*.x", "?", "b", "[ab]", "[!a]*", "a.x", "*b*", "zz", "*.X"]
GLOBS = ["*", "a*", "*.x", "?", "[ab]", "[!a]*", "a/*", "a/?", "*/b", "/*", "/a/*", "/?", "/*.x", "/a/b/*", "./*.x", "/a/[!a]*", "zz*", "/zz/*", "/*c", "b?x", "A*"]


def check_tree(case):
    shape, order = case
    vfs = plant(shape, order)
    tree = dump_vfs(vfs)
    sh = SandboxShell(vfs, view=everything())
    dirs = [p for p in tree if tree[p][0] == "d"]
    files = [p for p in tree if tree[p][0] == "f"]
    lst = {d: "  ".join(n + ("" if isf else "/") for isf, n in kids(tree, d)) for d in dirs}
    lng = {d: "\n".join(("- " if isf else "d ") + join(d, n) for isf, n in kids(tree, d)) for d in dirs}
    for d in dirs:
        equal(ask(sh, "ls %s" % d), (0, lst[d]), "ls %s" % d)
        equal(ask(sh, "ls -l %s" % d), (0, lng[d]), "ls -l %s" % d)
        equal(ask(sh, "ls %s --long" % d), (0, lng[d]), "ls --long %s" % d)
        equal(ask(sh, "tree %s" % d), (0, render(tree, d)), "tree %s" % d)
        for other in dirs[:3] + files[:2]:
            want = "\n".join(x for x in ("%s:" % d, lst[d], "%s:" % other, lst[other] if other in lst else other.rpartition("/")[2]) if x)
            equal(ask(sh, "ls %s %s" % (d, other)), (0, want), "ls %s %s" % (d, other))
    for f in files:
        equal(ask(sh, "ls %s" % f), (0, f.rpartition("/")[2]), "ls %s" % f)
        equal(ask(sh, "ls -l %s" % f), (0, "- " + f), "ls -l %s" % f)
        code, out = ask(sh, "tree %s" % f)
        need(code != 0, "tree of the file %s succeeded", f)
    for p in tree:
        code, out = ask(sh, "stat %s" % p)
        need(code == 0, "stat %s failed", p)
        lines = out.split("\n")
        size = len(tree[p][1]) if p in files else 0
        equal([x.split() for x in lines[:2]], [["File:", p], ["Size:", str(size), "Type:", *("regular file" if p in files else "directory").split()]], "stat %s" % p)
        equal(lines[2].split()[:2], ["Vers:", str(tree[p][2])], "version in stat %s" % p)
        for pat in [None] + NAMES:
            for typ in (None, "f", "d"):
                # quoted patterns are still expanded (known finding), so find runs where none of them matches
                vfs.cd("/empty")
                line = "find %s%s%s" % (p, " -name %s" % shlex.quote(pat) if pat else "", " -type %s" % typ if typ else "")
                want = [x for x in tree if within(x, p) and (not typ or tree[x][0] == typ) and (not pat or glob_re(pat).match("" if x == "/" else x.rpartition("/")[2]))]
                got = ask(sh, line)
                equal((got[0], sorted(got[1].split("\n")) if got[1] else []), (0, sorted(want)), line)
                vfs.cd("/")
    for d in dirs:
        vfs.cd(d)
        equal(ask(sh, "ls"), (0, lst[d]), "ls in %s" % d)
        equal(ask(sh, "tree"), (0, render(tree, d)), "tree in %s" % d)
        equal(ask(sh, "pwd"), (0, d), "pwd in %s" % d)
        got = ask(sh, "find -type f")
        equal((got[0], sorted(got[1].split("\n")) if got[1] else []), (0, sorted(x for x in files if within(x, d))), "find in %s" % d)
        for g in GLOBS:
            if "/" not in g:
                want = [join(d, n) for isf, n in kids(tree, d) if glob_re(g).match(n)]
            else:
                full = glob_re(g if g.startswith("/") else join(d, g[2:] if g.startswith("./") else g))
                want = sorted(x for x in tree if full.match(x))
            equal([str(x) for x in vfs.glob(g)], want, "glob %s in %s" % (g, d))
            equal(ask(sh, "echo %s" % g), (0, " ".join(want or [g]) + "\n"), "echo %s in %s" % (g, d))
    vfs.cd("/")
    two = [p for p in tree if p in ("/a", "/B")]
    if len(two) == 2:
        got = ask(sh, "find /a /B")
        equal((got[0], sorted(got[1].split("\n"))), (0, sorted(x for t in two for x in tree if within(x, t))), "find /a /B")
    unchanged(vfs, tree, "tree after looking around")
    return len(tree)


# ------------------------------------------------------------ echo and printf
WORDS = ["", "a", "a b", "-n", "\u00e9", "x  y", "-", "-e", "%s"]


def check_echo(words):
    vfs, sh = sandbox({}, cwd="/empty")
    line = "echo " + " ".join(shlex.quote(x) for x in words)
    cut = bool(words) and words[0] == "-n"
    equal(ask(sh, line), (0, " ".join(words[1:] if cut else words) + ("" if cut else "\n")), line)
    return len(words)


FMTS = ["%s", "%s-%s", "a%sb", "x", "", "%s\\n", "\\t%s\\r\\n", "%s%s%s", "\u00e9 %s", "a b", "a\\nb", "100%", "%", "%%", "%d", "a%", "5% of", "%%%%"]
FMTS += ["".join(t) for n in (2, 3, 4) for t in itertools.product(("\\n", "\\t", "\\r", "a", " "), repeat=n)] + ["".join(t) for t in itertools.product(("\\n", "\\t", "%s", "a"), repeat=3) if "%s" in t]


def check_printf(case):
    fmt, words = case
    vfs, sh = sandbox({}, cwd="/empty")
    line = "printf " + " ".join(shlex.quote(x) for x in (fmt, *words))
    want, left = "", list(words)
    for piece in re.split("(%s)", fmt):
        want += left.pop(0) if piece == "%s" else piece.replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r")
    equal(ask(sh, line), (0, want), line)
    return len(words)


# ------------------------------------------------------------ operands named twice, unusual names and contents
def check_twice(case):
    """Every operand counts, also one that was named before."""
    x, ops = case
    files = {"/f": x, "/d/g": "ag\n", "/d/s/h": "b"}
    vfs, sh = sandbox(files, ("/empty",), cwd="/d")
    before = dump_vfs(vfs)
    abs_ = {"f": "/f", "g": "/d/g", "./g": "/d/g", "../f": "/f", "/f": "/f", "/d/g": "/d/g", "/d/../f": "/f"}
    line = " ".join(ops)
    t = [files[abs_[o]] for o in ops]
    equal(ask(sh, "cat " + line), (0, "".join(t)), "cat " + line)
    got = ask(sh, "wc " + line)
    equal((got[0], [tuple(r.split()[:2]) for r in got[1].split("\n")]), (0, [(str(len(rows(c))), str(len(c.encode()))) for c in t]), "wc " + line)
    for pat in ("a", "-n a", "-r a"):
        want = [abs_[o] + ":" + ("%d:" % i if "-n" in pat else "") + ln for o, c in zip(ops, t) for i, ln in enumerate(bare(c), 1) if "a" in ln]
        for name in ("grep", "rg"):
            if name == "rg" and "-r" in pat:
                continue
            got = ask(sh, "%s %s %s" % (name, pat, line))
            equal(got, (0, "\n".join(want)), "%s %s %s" % (name, pat, line))
    for name, fn in CUT.items():
        got = ask(sh, "%s -n 1 %s" % (name, line))
        body = [fn(c, "-n", 1) for c in t]
        equal(got, (0, body[0] if len(t) == 1 else "\n\n".join("==> %s <==\n%s" % (o, b) for o, b in zip(ops, body))), "%s -n 1 %s" % (name, line))
    unchanged(vfs, before, "tree after reading")
    return len(ops)


DOPS = ["/d", "/", ".", "s", "/d/s", "..", "/empty"]


def check_dirs_twice(ops):
    vfs, sh = sandbox({"/f": "x", "/d/g": "ag\n", "/d/s/h": "b"}, ("/empty",), cwd="/d")
    tree = dump_vfs(vfs)
    at = {"/d": "/d", "/": "/", ".": "/d", "s": "/d/s", "/d/s": "/d/s", "..": "/", "/empty": "/empty"}
    line = "ls " + " ".join(ops)
    lst = {d: "  ".join(n + ("" if isf else "/") for isf, n in kids(tree, d)) for d in tree if tree[d][0] == "d"}
    code, out = ask(sh, line)
    want = [x for o in ops for x in ([] if len(ops) == 1 else [None]) + ([lst[at[o]]] if lst[at[o]] else [])]
    got = [None if x.endswith(":") else x for x in out.split("\n") if x]
    equal((code, got), (0, want), line)
    code, out = ask(sh, "find " + " ".join(ops))
    equal((code, sorted(out.split("\n"))), (0, sorted(x for o in ops for x in tree if within(x, at[o]))), "find " + " ".join(ops))
    return len(ops)


# ------------------------------------------------------------ long operand lists and other spellings
LISTED = {"/f": "fa\nfb\n", "/d/g": "ga", "/d/s/h": "", "/e": "ea\r\nea\n"}


def check_list(ops):
    """Every operand of a list counts, in its place, standard input among them."""
    vfs, sh = sandbox(LISTED)
    before = dump_vfs(vfs)
    line = " ".join(ops)
    t = ["ia\nib" if o == "-" else LISTED[o] for o in ops]

    def run(cmd):
        return ask(sh, "printf 'ia\\nib' | %s %s" % (cmd, line))
    equal(run("cat"), (0, "".join(t)), "cat " + line)
    for opt, fmt in (("wc", "{0} {1} {2}"), ("wc -l", "{0} {2}"), ("wc -c", "{1} {2}")):
        equal(run(opt), (0, "\n".join(fmt.format(len(rows(c)), len(c.encode()), o) for o, c in zip(ops, t))), opt + " " + line)
    for cmd in ("grep a", "grep -n a", "grep -i A", "rg a", "rg -e a$", "grep -r -n -i -e A$"):
        num, rx = "-n" in cmd, "-e" in cmd
        want = [("" if o == "-" else o + ":") + ("%d:" % i if num else "") + ln for o, c in zip(ops, t) for i, ln in enumerate(bare(c), 1) if (re.search("a$", ln) if rx else "a" in ln)]
        equal(run(cmd), (0, "\n".join(want)), cmd + " " + line)
    for name, fn in CUT.items():
        for opt, mode, n in (("", "-n", 10), (" -n 1", "-n", 1), (" -c 3", "-c", 3)):
            body = [fn(c, mode, n) for c in t]
            want = body[0] if len(ops) == 1 else "\n\n".join("==> %s <==\n%s" % x for x in zip(ops, body))
            equal(run(name + opt), (0, want), name + opt + " " + line)
    if "-" not in ops:
        names = [o.rpartition("/")[2] for o in ops]
        equal(run("ls"), (0, names[0] if len(ops) == 1 else "\n".join(x for o, n in zip(ops, names) for x in (o + ":", n))), "ls " + line)
        equal(run("find"), (0, "\n".join(ops)), "find " + line)
        want = [(o, i, ln) for o, c in zip(ops, t) for i, ln in enumerate(bare(c), 1) if "a" in ln]
        equal(run("search a"), (0, "\n".join("%s:%d:%s" % x for x in want)), "search a " + line)
    for k in range(len(ops)):
        bad = list(ops)
        bad[k] = "/nope"
        for cmd in ("cat", "wc", "grep a", "rg a", "head", "tail", "ls", "find"):
            if cmd == "find" and "-" in ops:
                continue
            r = sh.exec("%s %s" % (cmd, " ".join(bad)))
            need(r.exit_code != 0 and r.stderr, "%s %s succeeded", cmd, " ".join(bad))
    unchanged(vfs, before, "tree after reading " + line)
    return len(ops)


def lists(n):
    ops = ["/f", "/d/g", "/d/s/h", "/e", "-"]
    for k in range(1, n + 1):
        yield from itertools.product(ops, repeat=k)
    for k in (5, 8, 13, 40):
        for start in range(len(ops)):
            for step in (1, 2, 3):
                yield tuple(ops[(start + i * step + i // 7) % 5] for i in range(k))


SAME = [
    ["grep -r -n a /", "grep -R -n a /", "grep --recursive --line-number a /", "rg -n a /", "rg --line-number a /", "grep a -r -n /", "grep a / -n -r", "grep a / -r -n -r", "rg -r a -n /", "rg a / -n -n", "rg -R a --line-number /"],
    ["grep -i GA /d/g", "grep --ignore-case GA /d/g", "grep GA -i /d/g", "grep GA /d/g --ignore-case", "rg -i GA /d/g", "grep -i -i GA /d/g", "rg --ignore-case GA /d/g"],
    ["grep -e '[fg]a' /f /d/g", "grep --regex '[fg]a' /f /d/g", "grep '[fg]a' -e /f /d/g", "grep '[fg]a' /f -e /d/g", "grep '[fg]a' /f /d/g --regex", "rg -e '[fg]a' /f /d/g", "rg '[fg]a' /f /d/g -e -e"],
    ["grep -r -n -i -e A$ /", "rg -n -i -e A$ /", "rg -e -i -n A$ /", "grep A$ --regex -i / --line-number -r", "rg A$ / --ignore-case --regex --line-number", "search -i -e A$ /", "search --regex --ignore-case A$ /", "search A$ -i / -e", "search -n -i A$ -e -n /", "search --no-line-number -n -i -e A$ /", "search --no-line-number A$ -i -e / --line-number"],
    ["search --no-line-number a /d /f", "search a --no-line-number /d /f", "search a /d /f --no-line-number", "search -n a --no-line-number /d /f", "search --line-number --no-line-number a /d /f", "rg a /d /f", "grep -r a /d /f"],
    ["cat /e | grep -n -i E", "cat /e | grep E -n -i", "cat /e | rg --line-number --ignore-case E", "cat /e | rg E -n -i -", "grep -n -i E < /e", "grep E - -i -n < /e"],
    ["ls -l /d /f", "ls --long /d /f", "ls /d -l /f", "ls /d /f -l", "ls /d /f --long", "ls -l -l /d /f", "ls --long /d -l /f"],
    ["wc -l /f /e", "wc /f -l /e", "wc /f /e -l", "wc -l /f -l /e"], ["wc -c /f /e", "wc /f -c /e", "wc /f /e -c", "wc -c -c /f /e"],
    ["wc /f /e", "wc -l -c /f /e", "wc -c /f /e -l", "wc /f -l /e -c"],
    ["head -n 1 /f /e", "head /f -n 1 /e", "head /f /e -n 1", "head -n 5 -n 1 /f /e", "head -c 2 /f /e -n 1", "head -n 01 /f /e"],
    ["tail -c 2 /f /e", "tail /f -c 2 /e", "tail /f /e -c 2", "tail -c 5 /f -c 2 /e", "tail -n 1 /f /e -c 2", "tail -c 002 /f /e"],
    ["find /d -type f -name g", "find /d -name g -type f", "find -name g /d -type f", "find -type f -name g /d", "find -type d -type f -name g /d", "find -name x -name g -type f /d"],
    ["cat /f /e", "cat  /f   /e", "cat '/f' \"/e\"", "cat /f /e | cat", "cat /f /e | cat -", "cat /f/../f ./e", "cat f e", "cat //f /./e"],
]


def check_same(group):
    first = None
    for line in group:
        vfs, sh = sandbox(LISTED)
        before = dump_vfs(vfs)
        r = sh.exec(line)
        equal(r.exit_code, 0, "exit code of " + line)
        need(r.stdout != "", "%s printed nothing", line)
        first = first if first is not None else r.stdout
        equal(r.stdout, first, "%s, against %s" % (line, group[0]))
        unchanged(vfs, before, "tree after " + line)
    return len(group)


def check_large(case):
    """Trees of many entries and many levels."""
    wide, deep = case
    files = {"/w/n%03d" % i: "t%d\n" % i for i in range(wide)}
    path = ""
    for i in range(deep):
        path += "/l%d" % i
        files[path + "/x"] = "t%d\n" % i
    vfs, sh = sandbox(files)
    tree = dump_vfs(vfs)
    for d in ("/", "/w", "/l0", path or "/"):
        if d not in tree:
            continue
        got = ask(sh, "find " + d)
        equal((got[0], sorted(got[1].split("\n"))), (0, sorted(x for x in tree if within(x, d))), "find %s, %d wide and %d deep" % (d, wide, deep))
        equal(ask(sh, "tree " + d), (0, render(tree, d)), "tree %s, %d wide and %d deep" % (d, wide, deep))
        equal(ask(sh, "ls -l " + d), (0, "\n".join(("- " if isf else "d ") + join(d, n) for isf, n in kids(tree, d))), "ls -l " + d)
        got = ask(sh, "rg -n t " + d)
        equal((got[0], sorted(got[1].split("\n")) if got[1] else []), (0, sorted("%s:1:%s" % (f, t[:-1]) for f, t in files.items() if within(f, d))), "rg " + d)
    if wide:
        equal(ask(sh, "cat /w/*"), (0, "".join(files["/w/n%03d" % i] for i in range(wide))), "cat of %d files" % wide)
        equal(ask(sh, "wc -l /w/*"), (0, "\n".join("1 /w/n%03d" % i for i in range(wide))), "wc of %d files" % wide)
        equal(ask(sh, "echo /w/n*"), (0, " ".join(sorted(f for f in files if f.startswith("/w"))) + "\n"), "echo of %d names" % wide)
    if deep:
        equal(ask(sh, "cat %s/x" % path), (0, "t%d\n" % (deep - 1)), "cat at depth %d" % deep)
        equal(ask(sh, "cd " + path), (0, path), "cd at depth %d" % deep)
        equal(ask(sh, "cat x ../x"), (0, "t%d\n" % (deep - 1) + ("t%d\n" % (deep - 2))), "cat from depth %d" % deep) if deep > 1 else None
    unchanged(vfs, tree, "large tree after reading")
    return len(tree)


def check_odd_names(names):
    """Names are shown, matched and found as they are."""
    files = {"/d/" + n: "text of " + n for n in names}
    files.update({"/e/%s/%s" % (names[0], n): "inner" for n in names})
    vfs, sh = sandbox(files)
    tree = dump_vfs(vfs)
    fresh = "  ".join(n for isf, n in kids(tree, "/d"))
    equal(ask(sh, "ls /d"), (0, fresh), "ls of %r" % (names,))
    equal(ask(sh, "ls -l /d"), (0, "\n".join("- /d/" + n for _, n in kids(tree, "/d"))), "ls -l of %r" % (names,))
    equal(ask(sh, "tree /"), (0, render(tree, "/")), "tree of %r" % (names,))
    got = ask(sh, "find /")
    equal((got[0], sorted(got[1].split("\n"))), (0, sorted(y for x in tree for y in x.split("\n"))), "find with %r" % (names,))
    equal(sorted(str(x) for x in vfs.glob("/d/*")), sorted("/d/" + n for n in names), "glob of %r" % (names,))
    equal(sorted(str(x) for x in vfs.glob("*", cwd="/d")), sorted("/d/" + n for n in names), "glob in the directory of %r" % (names,))
    for n in names:
        if not shellable(n):
            continue
        p, text = "/d/" + n, "text of " + n
        q = shlex.quote(p)
        equal(ask(sh, "cat " + q), (0, text), "cat " + q)
        equal(ask(sh, "wc " + q), (0, "1 %d %s" % (len(text.encode()), p)), "wc " + q)
        equal(ask(sh, "grep text " + q), (0, p + ":" + text), "grep text " + q)
        equal(ask(sh, "head -c 4 " + q), (0, "text"), "head " + q)
        equal(ask(sh, "tail -c 1 " + q), (0, text[-1]), "tail " + q)
        equal(ask(sh, "ls " + q), (0, n), "ls " + q)
        equal(ask(sh, "stat " + q)[1].split("\n")[0], "  File: " + p, "stat " + q)
        equal(sorted(ask(sh, "find / -name " + shlex.quote(n) + " -type f")[1].split("\n")), sorted(y for x in tree if x.rpartition("/")[2] == n and tree[x][0] == "f" for y in x.split("\n")), "find -name %r" % n)
        equal(ask(sh, "cat < " + q), (0, text), "cat < " + q)
        vfs.cd("/d")
        equal(ask(sh, "cat " + shlex.quote("./" + n)), (0, text), "cat ./%s" % n)
        if n not in ("-", "|", ">") and not n.startswith("@search"):
            equal(ask(sh, "cat " + shlex.quote(n)), (0, text), "cat %s in its directory" % n)
        vfs.cd("/")
    unchanged(vfs, tree, "tree after looking around")
    return len(names)


def check_odd_texts(text):
    """Contents pass through unchanged."""
    vfs, sh = sandbox({"/f": text, "/d/g": text + "\nend"})
    before = dump_vfs(vfs)
    for line in ("cat /f", "cat < /f", "cat /f | cat", "head -n 9999 /f", "tail -n 9999 /f", "head -c 99999 /f", "tail -c 99999 /f", "cat /f | tail -n 9999 | head -c 99999"):
        equal(ask(sh, line), (0, text), "%s of %r" % (line, text[:40]))
    equal(ask(sh, "wc -c /f"), (0, "%d /f" % len(text.encode())), "wc -c of %r" % text[:40])
    got = ask(sh, "stat /f")[1].split("\n")[1].split()
    equal(got[:2], ["Size:", str(len(text))], "size of %r in stat" % text[:40])
    for k in (1, 2, 1000, 1200, 1499):
        for name, fn in CUT.items():
            if "\r" in text.replace("\r\n", "") or any(c in text for c in "\u2028\x0b\x0c\x85\x1c"):
                continue  # other line ends: see the assumptions
            equal(ask(sh, "%s -n %d /f" % (name, k)), (0, fn(text, "-n", k)), "%s -n %d of %r" % (name, k, text[:40]))
        for name, fn in CUT.items():
            equal(ask(sh, "%s -c %d /f" % (name, k)), (0, fn(text, "-c", k)), "%s -c %d of %r" % (name, k, text[:40]))
    unchanged(vfs, before, "tree after reading")
    return len(text)


OLD = [(1000000.0, 2000000.5), (86400.0 * 365 * 30, 86400.0 * 365 * 30), (5e8, 4e8)]
WRITES = {"none": [], "write": ["write /d/f new"], "same": ["write /d/f x"], "append": ["append /d/f +"], "nothing": ["append /d/f ''"], "redirect": ["echo a > /d/f"], "touch": ["touch /d/f"], "move": ["mv /d/f /e/f", "mv /e/f /d/f"], "look": ["cat /d/f", "stat /d/f", "ls /d", "rg x /", "find /", "tree /", "cd /d", "wc f"], "mvdir": ["mv /d /q", "mv /q /d"], "beside": ["write /d/g z", "mkdir /d/k", "rm /d/g"]}


def check_times(case):
    """stat shows the times and the version the entry has; only writing and touching changes them."""
    times, what, index = case
    vfs, sh = sandbox({"/d/f": "x"}, ("/e",))
    if index:
        vfs.enable_full_text_index()
    for p in ("/d", "/d/f", "/e", "/"):
        vfs.get_node(p).created_at, vfs.get_node(p).modified_at = times
    for line in WRITES[what]:
        code, out = ask(sh, line)
        equal(code, 0, line)
    now = time.time()
    n = vfs.get_node("/d/f")
    equal(n.created_at, times[0], "creation time after %s" % what)
    if what in ("none", "move", "look", "mvdir", "beside"):
        equal(n.modified_at, times[1], "modification time after %s" % what)
    else:
        need(now - 60 < n.modified_at <= now + 1, "modification time %s after %s at %s", n.modified_at, what, now)
    equal(vfs.get_node("/d").created_at, times[0], "creation time of the directory after %s" % what)
    for p in ("/d", "/d/f", "/e", "/"):
        n = vfs.get_node(p)
        out = ask(sh, "stat %s" % p)[1].split("\n")
        equal([x.split(": ", 1)[1] for x in out[3:]], [datetime.datetime.fromtimestamp(x).strftime("%Y-%m-%d %H:%M:%S") for x in (n.created_at, n.modified_at)], "times in stat %s" % p)
        equal(out[2].split()[:2], ["Vers:", str(n.version)], "version in stat %s" % p)
        need(str(n.policy) in out[2], "policy in stat %s", p)
    return what


# ------------------------------------------------------------ wrong operands
BAD = ["cat /nope", "cat /d", "cat /f /nope", "cat /nope /f", "cat /f/x", "head /nope", "head -n", "head -c", "head -n x /f", "head -c 1.5 /f", "head /d", "head /f /nope", "tail /nope", "tail -n", "tail -c", "tail -n x /f", "tail -c '' /f", "tail /d", "tail /f /nope",
       "wc /nope", "wc -l /d", "wc /f /nope", "wc -l -c /f/x", "grep", "grep -n", "grep -r -i", "grep a /nope", "grep a /f /nope", "grep -e '(' /f", "rg", "rg a /nope", "rg -e '[' /", "find /nope", "find -name", "find / -type", "find / -type x", "find / -bogus",
       "find /f /nope", "ls /nope", "ls -z", "ls /d /nope", "ls -l /nope", "ls /f/x", "tree /nope", "tree /f", "stat", "stat /nope", "stat /f/x", "cd", "cd /nope", "cd /f", "cd /d /e", "search", "search -i", "cat < /nope", "wc < /d", "head -n 1 < /nope",
       "cat /d/../nope", "cat /f | head -n", "cat /nope | cat", "cat /f | grep", "tail -n 1 /d/s"]


def check_bad(line):
    vfs, sh = sandbox({"/f": "one\ntwo\n", "/d/g": "x"}, ("/empty", "/d/s"))
    before = dump_vfs(vfs)
    r = sh.exec(line)
    need(r.exit_code != 0, "%s succeeded: %r", line, r)
    need(bool(r.stderr), "%s failed without a message", line)
    unchanged(vfs, before, "tree after %s" % line)
    equal(vfs.pwd(), "/", "working directory after %s" % line)
    return r.exit_code


def quoted_glob():
    vfs, sh = sandbox({"/d/a.x": "1", "/d/b.x": "2"}, cwd="/d")
    r = sh.exec("find / -name '*.x'")
    return (r.exit_code, r.stdout) != (0, "/d/a.x\n/d/b.x")


def run(ck):
    q = ck.quick
    ck.enum("head and tail", lambda: texts(4 if q else 6), check_cut, "all contents over %r x every count x lines/characters x file, redirection, pipe, -" % UNITS)
    ck.enum("long files", lambda: itertools.product(range(0, 14 if q else 40), (0, 1), ("\n", "\r\n")), check_long, "0 to 13 lines around the default of 10")
    ck.enum("very long files", lambda: itertools.product((999, 1000, 1001, 1500, 4097), (0, 1), ("\n",)), check_long, "lengths around round numbers")
    ops = ("/f", "/d/g", "g", "./g", "../f", "/d/../f")
    ck.enum("operands twice", lambda: ((x, o) for x in ("", "a", "a\nb\nca\n") for k in (1, 2, 3) for o in itertools.product(ops, repeat=k)), check_twice)
    ck.enum("operand lists", lambda: lists(3 if q else 4), check_list, "every list of up to 3 operands and cyclic lists of 5 to 40 through every reading command; every operand in turn missing")
    ck.enum("other spellings", lambda: SAME, check_same, "options before, between and after the operands, long, short and repeated")
    ck.enum("large trees", lambda: itertools.product((0, 1, 15, 64, 120, 300), (0, 1, 9, 33, 60)), check_large)
    ck.enum("directories twice", lambda: itertools.chain.from_iterable(itertools.product(DOPS, repeat=k) for k in (1, 2, 3)), check_dirs_twice)
    ck.enum("unusual names", lambda: itertools.chain(((n,) for n in ODD), PAIRS), check_odd_names)
    ck.enum("unusual contents", lambda: TEXTS, check_odd_texts)
    ck.enum("times", lambda: itertools.product(OLD, WRITES, (0, 1)), check_times)
    ck.enum("two operands", lambda: itertools.product(texts(2 if q else 3), repeat=2), check_two, "all pairs of contents through head, tail, cat and wc")
    ck.enum("grep", lambda: texts(3 if q else 5, GUNITS), check_grep, "all contents x patterns x flags x files, stdin, directories")
    ck.enum("trees", lambda: itertools.product(shapes(PATHS), (1, -1)), check_tree, "all trees over the paths, created in either order: ls, ls -l, tree, find, stat and globs from every directory")
    ck.enum("echo", lambda: itertools.chain.from_iterable(itertools.product(WORDS, repeat=k) for k in range(3 if q else 5)), check_echo)
    ck.enum("printf", lambda: ((f, w) for f in FMTS for w in itertools.product([x for x in WORDS if "%" not in x], repeat=f.count("%s")) if q is False or len(w) < 3), check_printf)
    ck.enum("wrong operands", lambda: BAD, check_bad)
    ck.finding("C20-quoted-glob", quoted_glob)
    ck.assume("contents use LF and CRLF line ends; counts are not negative; operands are plain names; printf formats have as many %s as values, and values hold no backslashes")

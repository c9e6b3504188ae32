"""Views, labels and the hidden-node predicate, written from the property text."""
from .env import VisibilityView
from .fsops import setup
from .refmodel import PUB

VIEWS = {
    "default": {},
    "pub": {"classifications": ["public"]},
    "pubsec": {"classifications": ["public", "secret"]},
    "none": {"classifications": []},
    "ali": {"principals": ["alice"]},
    "noone": {"principals": []},
    "pub+ali": {"classifications": ["public"], "principals": ["alice", "carol"]},
    "sec+ali": {"classifications": ["secret"], "principals": ["alice"]},
    "/p": {"path_prefixes": ["/p"]},
    "/p/q": {"path_prefixes": ["/p/q"]},
    "/p/q,/h": {"path_prefixes": ["/p/q", "/h"]},
    "/t": {"path_prefixes": ["/t"]},
    "nopref": {"path_prefixes": []},
    "pub+/p": {"classifications": ["public"], "path_prefixes": ["/p"]},
    "ali+/h": {"classifications": ["public"], "principals": ["alice"], "path_prefixes": ["/h", "/t"]},
    "meta": {"metadata_filters": {"k": "v"}},
    "meta+pub": {"metadata_filters": {"k": "v"}, "classifications": ["public"]},
    "meta2": {"metadata_filters": {"k": "v", "j": "1"}},
    "meta+/p": {"metadata_filters": {"k": "v"}, "path_prefixes": ["/p"]},
}

LABELS = {"p": PUB, "s": PUB[:3] + ("secret", ()), "a": PUB[:3] + ("public", ("alice",)),
          "b": PUB[:3] + ("secret", ("alice", "dave")), "d": PUB[:3] + ("public", ("dave",))}

FILES = {"/h/ff": "hf", "/p/gg": "pg", "/p/q/kk": "pqk", "/p/qx": "pqx", "/tt": "t"}
DIRS = ["/h", "/p", "/p/q"]


def view(name):
    return VisibilityView(**VIEWS[name])


def everything():
    """The view of a shell that may see every label used here."""
    return VisibilityView(principals=["alice", "carol", "dave", "bob"])


def allowed(v, pol):
    """May a holder of view v see an entry with this policy, looking at the entry alone?"""
    if pol[4]:
        return bool(set(pol[4]) & set(v.get("principals") or ()))
    return "classifications" not in v or pol[3] in v["classifications"]


def within(path, prefix):
    return path == prefix or prefix == "/" or path.startswith(prefix + "/")


def ancestors(path):
    out = [path]
    while path != "/":
        path = path.rsplit("/", 1)[0] or "/"
        out.append(path)
    return out


def hidden(vname, path, pol, meta, isdir=False):
    """pol, meta: functions from an existing path to policy tuple and metadata dict."""
    v = VIEWS[vname]
    if any(not allowed(v, pol(a)) for a in ancestors(path)):
        return True
    if "path_prefixes" in v and not any(within(path, x) or within(x, path) for x in v["path_prefixes"]):
        return True
    if "metadata_filters" in v:
        return any(meta(path).get(k) != x for k, x in v["metadata_filters"].items())
    return False


def hidden_set(vname, dump):
    pol = lambda p: dump[p][3]  # noqa: E731
    meta = lambda p: dict(dump[p][4])  # noqa: E731
    return {p for p in dump if hidden(vname, p, pol, meta)}


def entries(labels, metas, text):
    """The standard tree. labels: path -> label letter; metas: path -> metadata items; text: path -> content."""
    out = []
    for d in ["/"] + DIRS:
        out.append((d, None, LABELS[labels.get(d, "p")], metas.get(d, ())))
    for f in FILES:
        out.append((f, text(f), LABELS[labels.get(f, "p")], metas.get(f, ())))
    return out


def build(labels, metas, text, extras=None):
    vfs, _ = setup(entries(labels, metas, text))
    for path, content, lab in extras or ():
        if content is None:
            vfs.mkdir(path)
        else:
            vfs.write_file(path, content)
        vfs.set_policy(path, pol(lab))
    return vfs


def pol(letter):
    from .refmodel import pol_obj
    return pol_obj(LABELS[letter] if letter != "bob" else PUB[:3] + ("public", ("bob",)))


def text_readers(paths, keys):
    out = []
    for p in paths:
        out += ["cat " + p, "head -n 1 " + p, "tail -n 1 " + p, "head -c 4 " + p, "wc " + p, "cat < " + p, "stat " + p,
                "ls " + p, "ls -l " + p, "tree " + p, "find " + p, "wc - %s < %s" % (p, p)]
        for k in keys:
            out += ["grep %s %s" % (k, p), "grep -r -n %s %s" % (k, p), "rg -i %s %s" % (k.lower(), p),
                    "search %s %s" % (k, p), "search -e -i %s %s" % (k, p)]
    return out


def far_readers(paths, key):
    """The path as a later operand, behind others that can always be read; other spellings of the options."""
    out = []
    for p in paths:
        out += ["echo x | %s - - - %s" % (c, p) for c in ("cat", "wc", "head", "tail -c 3", "grep " + key, "rg -n " + key, "grep --recursive --regex --ignore-case " + key)]
        out += ["search --ignore-case %s /no1 /no2 /no3 %s" % (key, p), "ls --long / / / " + p, "find / / / " + p, "rg --regex %s. %s %s" % (key, p, p)]
    return out


def all_readers(paths, keys):
    k = keys[0]
    return text_readers(paths, keys) + far_readers(paths, k) + [
        "cat /*", "cat /h/*", "cat /p/*", "grep KEY /*", "grep -r KEY /*", "wc /p/*", "echo /*", "echo *", "echo /*/*",
        "echo /h/*", "echo p/*", "echo /p/q*", "head /p/*", "ls /*", "stat /*", "tail -n 1 /*", "find /*", "cat ?t",
        "search KEY", "rg KEY", "tree", "ls", "ls -l", "find", "find / -type f", "find / -type d", "find / -name '*f'",
        "ls '/@search?q=KEY'", "tree '/@search?q=KEY'", "find '/@search?q=KEY'", "cat '/@search?q=KEY/h/ff'",
        "cat '/@search?q=KEY/p/q/kk'", "cat '/@search?q=KEY/tt'", "cat '/@search?q=KEY/p/gg'", "rg KEY '/@search?q=KEY'",
        "tree '/@search?q=%s&ignore_case=1'" % k, "tree '/@search?q=.&regex=1'", "ls '/@search?q=KEY/h'",
        "ls '/@search?q=KEY/p'", "tree '/@search?q=KEY&path=/p'", "tree '/@search?q=KEY&path=/h'", "ls /@search",
        "tree /@search", "find /@search", "rg KEY /@search", "cat /@search/h/ff", "cat /@search/tt", "search KEY /@search",
        "head '/@search?q=KEY/h/ff'", "cat < '/@search?q=KEY/h/ff'", "wc '/@search?q=KEY/h/ff'",
        "stat '/@search?q=KEY/h/ff'", "stat '/@search?q=KEY/h'"]


# -- the predicate itself, over many more values than the tree explorations use
P_CLASS = (None, (), ("public",), ("secret",), ("public", "secret"), ("Public",), ("pub",), ("public2", ""), ("team", "internal", "public", "secret"), ("private",))
P_PRINC = (None, (), ("alice",), ("Alice", "bob"), ("ali",), ("alice2", "dave"))
P_PREF = (None, (), ("/p",), ("/p/g", "/h"), ("/p/",), ("/p/gg",), ("/P",), ("/p/gg/x",))
P_META = (None, (("k", "v"),), (("k", "v"), ("j", "1")), (("k", ""),), (("K", "v"),))
L_CLASS = ("public", "secret", "PUBLIC", "pub", "public2", "", "team", "internal", "private")
L_PRINC = ((), ("alice",), ("Alice",), ("dave", "erin"), ("ali",), ("alice", "bob"))
L_META = ((), (("k", "v"),), (("k", "V"),), (("j", "1"), ("k", "v")), (("j", "1"),), (("k", ""),))


L_DIR = ((("public", ()), ()), (("secret", ()), ()), (("public", ("alice",)), ()), (("public", ()), (("k", "v"),)))


def product(full, cps, cp_few, others, other_few):
    """All pairs, or every first component with few second ones and the reverse."""
    if full:
        return [x + y for x in cps for y in others]
    return [x + y for x in cps for y in other_few] + [x + y for x in cp_few for y in others if y not in other_few]


def predicate_cases(full):
    return [(full,) + c for c in product(
        full, [(c, p) for c in L_CLASS for p in L_PRINC], [("public", ()), ("secret", ("alice",)), ("pub", ())],
        [(m, d) for m in L_META for d in L_DIR], [((), L_DIR[0]), ((), L_DIR[2]), (L_META[1], L_DIR[3])])]


def predicate_views(full):
    return product(full, [(c, p) for c in P_CLASS for p in P_PRINC], [(None, None), (("public",), ("alice",)), (None, ("Alice", "bob"))],
                   [(x, m) for x in P_PREF for m in P_META], [(None, None), (("/p",), None), (None, P_META[1])])


def predicate(case, shown):
    """One file /p/gg and its directory: which of many views see it. shown: check visible entries, else hidden ones."""
    from .engine import need
    from .env import SandboxShell, SearchQuery
    full, cls, princ, meta, (dpol, dmeta) = case
    pols = {"/": PUB, "/p": PUB[:3] + dpol, "/p/gg": PUB[:3] + (cls, princ)}
    metas = {"/": {}, "/p": dict(dmeta), "/p/gg": dict(meta)}
    vfs, _ = setup([("/p", None, pols["/p"], dmeta), ("/p/gg", "KEY", pols["/p/gg"], meta), ("/t", "KEY")])
    count = {}
    for a, b, c, d in predicate_views(full):
        v = {k: x for k, x in (("classifications", a), ("principals", b), ("path_prefixes", c)) if x is not None}
        if d is not None:
            v["metadata_filters"] = dict(d)
        VIEWS["?"] = {k: ([x.rstrip("/") for x in y] if k == "path_prefixes" else y) for k, y in v.items()}
        hid = {p: hidden("?", p, pols.__getitem__, metas.__getitem__) for p in pols}
        obj = VisibilityView(**v)
        sh = SandboxShell(vfs, view=obj)
        seen = {"ls": any(e.name == "gg" for e in vfs.ls("/p", view=obj)),
                "search": any(str(r.path) == "/p/gg" for r in vfs.search(SearchQuery("KEY"), view=obj)),
                "glob": "/p/gg" in vfs.glob("/p/*", view=obj),
                "cat": sh.exec("cat /p/gg").exit_code == 0,
                "write": sh.exec("touch /p/gg").exit_code == 0}
        for how, got in seen.items():
            if hid["/p/gg"]:
                need((shown and how != "write") or not got, "%s reaches hidden /p/gg (%r) in view %r", how, case, v)
            else:
                need(not shown or got, "%s does not reach visible /p/gg (%r) in view %r", how, case, v)
        dseen = any(e.name == "p" for e in vfs.ls("/", view=obj))
        need(dseen != hid["/p"] or shown == dseen, "ls %s /p (%r) in view %r", "shows hidden" if dseen else "hides visible", case, v)
        k = tuple(sorted(hid.items()))
        count[k] = count.get(k, 0) + 1
    del VIEWS["?"]
    return count

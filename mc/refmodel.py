"""A boring reference filesystem: a flat dict from path tuples to entries."""
from .env import NodePolicy


class Refused(Exception):
    """The reference filesystem refuses the operation."""


PUB = (True, True, False, "public", ())


def pol_obj(p):
    return NodePolicy(readable=p[0], writable=p[1], append_only=p[2], classification=p[3], principals=set(p[4]))


def pol_tuple(policy):
    return (policy.readable, policy.writable, policy.append_only, policy.classification,
            tuple(sorted(policy.principals)))


class N:
    __slots__ = ("kind", "content", "version", "pol", "meta")

    def __init__(self, kind, content="", version=0, pol=PUB, meta=()):
        self.kind, self.content, self.version, self.pol, self.meta = kind, content, version, pol, meta

    def clone(self):
        return N(self.kind, self.content, self.version, self.pol, self.meta)

    def row(self):
        return (self.kind, self.content if self.kind == "f" else None, self.version, self.pol, self.meta)


def fmt(t):
    return "/" + "/".join(t)


class RefFS:
    def __init__(self):
        self.nodes = {(): N("d")}
        self.cwd = ()
        self.dangling = False
        self.events = []  # (kind, path, content, version, append)

    # -- paths
    def norm(self, path):
        parts = [] if path.startswith("/") else list(self.cwd)
        for p in path.split("/"):
            if p in ("", "."):
                continue
            if p == "..":
                if parts:
                    parts.pop()
            else:
                parts.append(p)
        return tuple(parts)

    def get(self, t):
        """Entry at t, Refused when it is missing or below a file."""
        for i in range(len(t) + 1):
            n = self.nodes.get(t[:i])
            if n is None:
                raise Refused("missing " + fmt(t))
            if i < len(t) and n.kind != "d":
                raise Refused("not a directory " + fmt(t[:i]))
        return n

    def has(self, t):
        return t in self.nodes

    def dir(self, t):
        n = self.get(t)
        if n.kind != "d":
            raise Refused("not a directory")
        return n

    def children(self, t):
        k = len(t) + 1
        return [p for p in self.nodes if len(p) == k and p[:k - 1] == t]

    def subtree(self, t):
        k = len(t)
        return [p for p in self.nodes if p[:k] == t]

    def files(self, t=()):
        return [p for p in self.subtree(t) if self.nodes[p].kind == "f"]

    def top_missing(self, t):
        for i in range(len(t) + 1):
            if t[:i] not in self.nodes:
                return t[:i]
        return None

    # -- policy
    def w(self, t, append=False):
        p = self.nodes[t].pol
        if not p[1] or (p[2] and not append):
            raise Refused("policy")

    # -- operations
    def mkdir(self, path, parents=False, exist_ok=False):
        t = self.norm(path)
        if not t:
            return
        if t in self.nodes:
            if self.nodes[t].kind != "d" or not exist_ok:
                raise Refused("exists")
            return
        top = self.top_missing(t)
        if top != t and not parents:
            raise Refused("missing parent")
        self.dir(top[:-1])
        self.w(top[:-1])
        for i in range(len(top), len(t) + 1):
            self.nodes[t[:i]] = N("d")

    def write(self, path, data, append=False, expected=None):
        t = self.norm(path)
        if not t:
            raise Refused("root")
        n = self.nodes.get(t)
        if n is not None:
            if n.kind != "f":
                raise Refused("is a directory")
            self.w(t, append=append)
            if expected is not None and expected != n.version:
                raise Refused("version")
        else:
            top = self.top_missing(t)
            self.dir(top[:-1])
            self.w(top[:-1], append=True)
            if expected not in (None, 0):
                raise Refused("version")
            for i in range(len(top), len(t)):
                self.nodes[t[:i]] = N("d")
            n = self.nodes[t] = N("f")
        n.content = n.content + data if append else data
        n.version += 1
        self.events.append(("w", t, n.content, n.version, append))

    def touch(self, path):
        t = self.norm(path)
        if t in self.nodes:
            if self.nodes[t].kind != "f":
                raise Refused("is a directory")
            self.w(t, append=True)
            return
        self.write(path, "")

    def remove(self, path, recursive=False):
        t = self.norm(path)
        if not t:
            raise Refused("root")
        n = self.get(t)
        self.w(t)
        self.w(t[:-1])
        kids = self.children(t)
        if n.kind == "d" and kids and not recursive:
            raise Refused("not empty")
        for c in kids:
            self.remove(fmt(c), recursive=True)
        del self.nodes[t]
        if n.kind == "f":
            self.events.append(("d", t, None, None, None))
        elif self.cwd[:len(t)] == t:
            self.dangling = True

    def _dest(self, src, path):
        t = self.norm(path)
        n = self.nodes.get(t)
        if n is None:
            self.dir(t[:-1])
            self.w(t[:-1])
            return t, None
        if n.kind == "d":
            self.w(t)
            return t + ((src[-1] if src else ""),), None
        return t, n

    def move(self, source, target):
        s = self.norm(source)
        if not s:
            raise Refused("root")
        n = self.get(s)
        self.w(s)
        self.w(s[:-1])
        t, old = self._dest(s, target)
        if old is not None:
            raise Refused("exists")
        if n.kind == "d" and t[:-1][:len(s)] == s:
            raise Refused("inside itself")
        if t == s:
            return
        if t in self.nodes:
            raise Refused("exists")
        moved = [(t + p[len(s):], self.nodes.pop(p)) for p in self.subtree(s)]
        self.nodes.update(moved)
        if n.kind == "d" and self.cwd[:len(s)] == s and not self.dangling:
            self.cwd = t + self.cwd[len(s):]

    def copy(self, source, target, recursive=False):
        s = self.norm(source)
        n = self.get(s)
        if n.kind == "d" and not recursive:
            raise Refused("directory")
        if not n.pol[0]:
            raise Refused("not readable")
        t, old = self._dest(s, target)
        if old is not None:
            self.w(t[:-1])
            self.w(t)
            if t == s:
                raise Refused("same file")
        if n.kind == "d" and t[:len(s)] == s:
            raise Refused("inside itself")
        if old is None and t in self.nodes:
            raise Refused("exists")
        version = old.version + 1 if old is not None and n.kind == "f" else 0
        new = {}
        for p in self.subtree(s):
            c = self.nodes[p].clone()
            c.version = 0
            new[t + p[len(s):]] = c
        if n.kind == "f":
            new[t].version = version
        self.nodes.pop(t, None)
        self.nodes.update(new)

    def cd(self, path):
        t = self.norm(path)
        n = self.dir(t)
        if not n.pol[0]:
            raise Refused("not readable")
        self.cwd = t
        self.dangling = False

    def read(self, path):
        t = self.norm(path)
        n = self.get(t)
        if n.kind != "f" or not n.pol[0]:
            raise Refused("read")
        return n.content

    def state(self):
        return (self.rows(), self.cwd, self.dangling)

    # -- dumps
    def dump(self):
        return {fmt(t): n.row() for t, n in self.nodes.items()}

    def rows(self):
        return sorted((fmt(t), n.row()) for t, n in self.nodes.items())

    # -- renderings
    def ls(self, t):
        kids = self.children(t)
        return sorted(((self.nodes[c].kind == "f", c[-1]) for c in kids))

    def tree(self, t=()):
        lines = [fmt(t)]

        def render(d, prefix):
            kids = self.ls(d)
            for i, (isf, name) in enumerate(kids):
                last = i == len(kids) - 1
                c = d + (name,)
                lines.append(prefix + ("└── " if last else "├── ") + name + ("" if isf else "/"))
                if not isf and self.nodes[c].pol[0]:
                    render(c, prefix + ("    " if last else "│   "))
        render(t, "")
        return "\n".join(lines)


def dump_vfs(vfs):
    """The same dump, taken from the real filesystem through its public surface."""
    out = {}
    for path, node in vfs.walk("/"):
        isdir = vfs.is_dir(path)
        key = str(path)
        if key in out:
            raise AssertionError("path %s occurs twice in walk" % key)
        out[key] = ("d" if isdir else "f", None if isdir else node.read(vfs), node.version,
                    pol_tuple(node.policy), tuple(sorted(node.metadata.items())))
    return out


def names_vfs(vfs):
    return {str(p): ("d" if vfs.is_dir(p) else "f") for p, _ in vfs.walk("/")}

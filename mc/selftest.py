"""Setup step: the framework is plain Python; check that it imports and is deterministic."""
from .canon import digest
from .checks import c02
from .engine import replay


def main():
    spec = c02.Tree(["deep"], c02.P5, c02.ALL)
    hist = [("mkdir", "/c"), ("mv", "/a", "/c"), ("cpr", "/c", "/d")]
    first = digest(replay(spec, "deep", hist).vfs)
    assert first == digest(replay(spec, "deep", hist).vfs), "replay is not deterministic"
    print("selftest ok")


if __name__ == "__main__":
    main()

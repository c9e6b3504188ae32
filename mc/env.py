"""Imports the code under test from /repo with time under the harness's control."""
import os
import sys
import time

REPO = os.environ.get("MC_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)


class Clock:
    """Every call to time.time() advances a private counter by one second."""

    def __init__(self):
        self.now = 1_000_000_000.0

    def reset(self):
        self.now = 1_000_000_000.0

    def __call__(self):
        self.now += 1.0
        return self.now


clock = Clock()
time.time = clock  # before sandfs is imported: dataclass factories capture it

import sandfs  # noqa: E402
from sandfs.adapters import (  # noqa: E402,F401
    FileSystemAdapter, MemoryStorageAdapter, StorageAdapter, StorageEntry)
from sandfs.exceptions import (  # noqa: E402,F401
    InvalidOperation, NodeExists, NodeNotFound, ProviderError, SandboxError)
from sandfs.nodes import VirtualDirectory, VirtualFile  # noqa: E402,F401
from sandfs.policies import NodePolicy, VisibilityView  # noqa: E402,F401
from sandfs.providers import ProvidedNode  # noqa: E402,F401
from sandfs.search import FullTextIndex, SearchQuery  # noqa: E402,F401
from sandfs.shell import CommandResult, SandboxShell  # noqa: E402,F401
from sandfs.vfs import VirtualFileSystem  # noqa: E402,F401

assert os.path.realpath(sandfs.__file__).startswith(os.path.realpath(REPO) + os.sep), sandfs.__file__

"""Fills the "fixed" list of known_findings.json from the fix: commits in /repo (property chosen here by commit subject)."""
import json
import subprocess

PROP = ["C02", "C03", "C04", "C03", "C04", "C08", "C08", "C05", "C14", "C05", "C06", "C06", "C16", "C16", "C17", "C20", "C13", "C13", "C13", "C19", "C19", "C11", "C11", "C03", "C03", "C01", "C05", "C07", "C14", "C12",
        "C15", "C17", "C19", "C19", "C15", "C19", "C01", "C14", "C19", "C08", "C16", "C19"]
WHAT = {
    "216739b": "mv of an entry onto an existing file raised after the source had already been detached, losing it",
    "0999181": "cp over an existing file removed it before the copy could be refused, and reset its version",
    "011075e": "mkdir -p created directories inside a read-only directory",
    "88a3fba": "a write refused by version, policy or storage left parent directories or changed content behind; appending to a dynamic file dropped its provided content",
    "58cab8b": "touch created files in read-only directories, without storage, hooks or index",
    "883dd3e": "restore raised PolicyViolation when the snapshot held a file in a read-only directory, or when the working directory was gone",
    "56c1a37": "after restore dynamic files were frozen texts, dynamic directories and the search view did not work",
    "dac68ad": "rg/grep -r, search and the full-text index returned lines of non-readable files",
    "e243896": "search below a missing prefix raised without an index; the search command ran matches together",
    "c592fe5": "tree, find and globs listed the content of non-readable directories",
    "d1031dd": "entries below a directory hidden by its policy could be read and created by their path",
    "f89211f": "results of a search-view query made by one shell stayed readable for a shell with a narrower view",
    "3de75f9": "allowed_commands=[] allowed everything, and host fallback ran commands that were not allowed",
    "8b7401e": "the output limit counted characters, so non-ASCII output could exceed it",
    "6ecfcce": "SandboxShell.exec raised for failing redirections and globs",
    "1f8c678": "tail -n 0 and tail -c 0 printed the whole file",
    "c91393a": "FileSystemAdapter.list read files outside its root through symbolic links",
    "da9d710": "CR LF line endings were changed by the disk adapter, exports and host sync",
    "a6be047": "a directory provider could name entries '../x' or 'a/b' (written outside the target by an export)",
    "ded5cde": "host commands were given hidden and non-readable files, and could delete or overwrite them",
    "7562881": "a host command replacing a file by a directory (or the reverse) made the sync raise",
    "6701d87": "mounting or syncing a storage mount dropped the content of mounts nested below",
    "998ee14": "sync_storage reset policies and metadata of the entries that still existed",
    "0d0f173": "a failing adapter.delete left the file in storage but not in the tree",
    "36bf718": "mv of a dynamic file with a failing provider raised after the move",
    "3cab71a": "search with a path prefix such as '/d/../d' or 'd' found nothing once the index was on",
    "1931fae": "search returned lines of readable files inside non-readable directories",
    "958572c": "cp -r, mv and rm -r of a visible directory took hidden entries along",
    "5c74e58": "files mounted dynamically after enabling the index were not found by search",
    "dd9c7ef": "writing a file through a disk mount where a removed directory had been failed",
    "5242c2c": "a search-view path restriction d/s was cut to d",
    "9a7bae1": "a host command that could not be started could return exit code None",
    "aff7b99": "host rewrote the tail of relative paths (a/d/f became a/<copy>/d/f)",
    "97ddd10": "host rewrote the path part of URLs (http://d/f)",
    "d51e277": "a search-view path restriction was percent-decoded twice",
    "50df178": "globs with '..' or repeated leading slashes matched nothing",
    "81be756": "mounting a failing provider over an indexed file left the old lines in search results",
    "4148898": "CR and CR LF in the output of a host command became LF, and output that is no UTF-8 made the command fail and lose its changes",
    "ed7abd2": "after a restore a search view enabled elsewhere since the snapshot stayed in force: the restored one did not answer, and files at the other place were not found",
    "02f716a": "output over the limit of a command run by host fallback was passed on in a pipeline or written to a file",
    "7b383f9": "a dangling link (or socket) left by a host command lost its other changes and its output",
    "f45a0e5": "ls with a flag handled by the host did not see shell variables",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "b74cc97..HEAD"], capture_output=True, text=True).stdout.splitlines()
log = [x for x in log if " fix: " in x]
assert len(log) == len(PROP), (len(log), len(PROP))
k = json.load(open("known_findings.json"))
k["fixed"] = ["fixed: property=%s %s %s" % (p, x.split()[0], WHAT[x.split()[0]]) for p, x in zip(PROP, log)]
json.dump(k, open("known_findings.json", "w"), indent=1)
open("known_findings.json", "a").write("\n")

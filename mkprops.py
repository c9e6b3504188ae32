"""Writes properties.jsonl (kept as the editable source of the property texts)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Every path spelling resolves lexically, the same everywhere, inside the tree",
 "Every path given to a filesystem operation or shell command (absolute or relative to the working directory, with '.', '..', repeated or trailing slashes, as text or as a path object) denotes exactly the entry obtained by purely lexical normalisation against the working directory, with '..' stopping at the root. All spellings of one path are interchangeable in every operation that takes a path, and no spelling can reach anything outside the tree.",
 ["inputs", "configurations"], "all path strings up to a bounded number of components over an alphabet of names, dots and empty components, for every working directory, for every operation taking a path",
 "Tests use about a dozen clean absolute paths; dot-dot clamping, doubled slashes, relative spellings and their agreement across operations are never exercised.",
 ["sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py"],
 [("_normalize", "sandfs/vfs.py"), ("_resolve_node/_resolve_dir/_ensure_file", "sandfs/vfs.py"), ("VirtualNode.path", "sandfs/nodes.py")],
 [("cwd", "working directory node", "sandfs/vfs.py")], ["VirtualFileSystem public methods", "SandboxShell.exec"])

prop("C02", "Tree operations behave exactly like a plain reference filesystem",
 "After any sequence of mkdir, write, append, touch, remove, move, copy and cd, the tree (names, kinds, contents, and what every listing, walk, tree rendering, lookup and existence query reports) is exactly that of a simple reference filesystem given the same sequence, and each operation succeeds or is refused exactly when the reference says so. Nothing appears, vanishes or changes except what the operation names, a copy shares no content, metadata or policy with its source afterwards, and separate filesystem instances never influence each other.",
 ["histories", "inputs"], "all operation sequences up to a bounded depth over a small set of colliding names and nested paths, from empty and from pre-populated trees, through the API and through the shell commands",
 "Tests run one- or two-step scenarios on fresh trees; name collisions, moves into or over existing entries, operations on moved or removed working directories and their combinations are not reached.",
 ["sandfs/vfs.py", "sandfs/nodes.py", "sandfs/shell.py"],
 [("mkdir/write_file/touch/remove/move/copy", "sandfs/vfs.py"), ("add_child/remove_child/get_child", "sandfs/nodes.py"), ("_cmd_mkdir/_cmd_rm/_cmd_cp/_cmd_mv/_cmd_touch/_cmd_write/_cmd_append", "sandfs/shell.py")],
 [("children", "name to node map of a directory", "sandfs/nodes.py"), ("parent", "back link used to compute paths", "sandfs/nodes.py")], ["walk, ls, tree, iter_files, exists, is_dir, is_file, read_file, pwd"])

prop("C03", "A refused or failed operation leaves everything as it was",
 "When a mkdir, write, append, touch, move, copy or non-recursive remove raises an error (missing or conflicting path, policy refusal, version mismatch, storage conflict, failing provider or failing storage backend), the whole observable state is what it was before the call: no entry, parent directory, content, version, policy, storage entry, search result or event is created, lost or altered. The same holds for the shell commands built on them.",
 ["histories", "inputs", "fault_sequences"], "every failing operation at every reachable state up to a bounded depth, including an injected fault at every call into a provider or storage adapter",
 "Tests assert that an exception is raised but never compare the state before and after; faults of adapters and providers are never injected.",
 ["sandfs/vfs.py", "sandfs/nodes.py", "sandfs/shell.py"],
 [("write_file/_persist_storage", "sandfs/vfs.py"), ("move/copy", "sandfs/vfs.py"), ("mkdir/_resolve_dir", "sandfs/vfs.py")], [], ["public state dump before and after, adapter.list(), search()"])

prop("C04", "Read-only and append-only policies hold against every route",
 "No filesystem operation or shell command (write, append, redirection, touch, cp, mv, rm, recursive removal of an ancestor, sync-back of a host tool) changes the content of a read-only file, removes it, replaces it or renames it, and nothing can be added to, removed from or renamed inside a read-only directory. The content of an append-only file only ever grows at its end, and it is never removed, replaced or renamed. An operation that would need to do so is refused with an error, while operations that respect the policy keep working. (Mounting, syncing a mount, restoring a snapshot and changing policies are the host application's own administration and not restricted.)",
 ["histories", "inputs", "configurations"], "all assignments of policies to the nodes of a small tree and all sequences of mutating calls and commands up to a bounded depth",
 "Tests check one direct write to a read-only file and one to an append-only file; other routes (parents, copies, moves, recursion, redirection, host sync) and combinations are not tried.",
 ["sandfs/vfs.py", "sandfs/shell.py", "sandfs/policies.py"],
 [("_ensure_write_allowed", "sandfs/vfs.py"), ("_write_to_path/_sync_from_host", "sandfs/shell.py")],
 [("policy", "NodePolicy of a node", "sandfs/nodes.py")], ["read_file and existence of the protected entries after each step"])

prop("C05", "Content of non-readable files is never disclosed",
 "The content of a file marked non-readable is never returned by the read, search, copy or listing API nor printed by any shell command (cat, head, tail, wc, grep, rg, search, the search view, redirection, host tools), whatever happened before, with or without a full-text index; copying or moving never turns it into a readable copy, and a non-readable directory cannot be listed or entered (recursive search, tree and find do not look inside it; naming a readable entry in it by its exact path is allowed). Readable files are unaffected.",
 ["histories", "inputs", "configurations"], "all placements of non-readable files and directories in a small tree and all command sequences up to a bounded depth, compared between two worlds that differ only in the protected content",
 "Tests check only that ls on one unreadable directory fails; recursive search, the index, the search view and host export are never tried against unreadable files.",
 ["sandfs/vfs.py", "sandfs/shell.py", "sandfs/search.py"],
 [("_ensure_read_allowed", "sandfs/vfs.py"), ("iter_files/search", "sandfs/vfs.py"), ("_search", "sandfs/shell.py"), ("_clone_node/_clone_policy", "sandfs/vfs.py")], [], ["stdout/stderr/exit code of every command, return values of read and search"])

prop("C06", "A shell with a view never reveals hidden nodes",
 "A shell restricted by a visibility view (classifications, principals, path prefixes, metadata filters) behaves as if the content of every node hidden from the view did not exist: no built-in command other than python prints the content of a hidden node or the content of anything below a hidden directory, and listings, trees, finds, globs and searches never show hidden names. This holds for every combination of policy and view, after any history of the filesystem, and while other shells with wider views use the same filesystem. (A metadata filter hides files and directories from listings, but a directory that does not match can still be named to reach what is below; copying, moving or removing a directory that holds hidden nodes is refused.)",
 ["histories", "inputs", "configurations"], "all combinations of view and node policy over a small universe, all commands over all paths, and interleaved command histories of two shells with different views; compared between two worlds that differ only in hidden nodes",
 "Tests check five hand-picked view/policy pairs with ls, cat and find only; other commands, nesting, globbing, redirection, search views and cross-shell histories are not covered.",
 ["sandfs/policies.py", "sandfs/shell.py", "sandfs/vfs.py"],
 [("VisibilityView.allows/allows_node", "sandfs/policies.py"), ("_ensure_visible_path", "sandfs/shell.py"), ("view filtering in ls/tree/glob/search/find", "sandfs/vfs.py, sandfs/shell.py"), ("search_view_context/_search_view_provider", "sandfs/vfs.py")], [], ["stdout/stderr/exit code of SandboxShell.exec"])

prop("C07", "A shell with a view cannot alter hidden nodes it names, and sees all others",
 "A command of a view-restricted shell that names a hidden node, or a path inside a hidden directory, as the thing to write, append, touch, create, copy from or to, move, remove or enter is refused with a non-zero exit code and leaves every hidden node unchanged. Conversely nodes the view admits stay fully usable: listing, reading and writing them gives the same result as in an unrestricted shell. (Copying, moving or removing a visible directory that holds hidden nodes is refused.)",
 ["histories", "inputs", "configurations"], "all combinations of view and policy over a small tree, all mutating commands with every source and destination, up to a bounded depth",
 "Tests only check that cat of a hidden file fails; no mutating command is tried against hidden paths, nor is over-blocking of visible nodes.",
 ["sandfs/shell.py", "sandfs/policies.py"],
 [("_ensure_visible_path", "sandfs/shell.py"), ("VisibilityView.allows_node", "sandfs/policies.py")], [], ["state of hidden nodes after each command, exit codes"])

prop("C08", "Restore brings back exactly the snapshotted filesystem",
 "Restoring a snapshot, at any later point and any number of times, always succeeds and yields exactly the filesystem at snapshot time: the same paths and kinds, contents, versions, metadata, policies, creation and modification times, working directory, storage mounts and working dynamic and search directories, with search results to match. Taking a snapshot changes nothing observable, and nothing done afterwards (including changes after a restore) can alter a snapshot already taken.",
 ["histories"], "all operation histories up to a bounded depth before the snapshot, between snapshot and restore, and between repeated restores, over trees with policies, metadata, mounts and providers",
 "Two tests restore once after a content change and a removal; policies, metadata, times, read-only directories, repeated restore and aliasing are not tested.",
 ["sandfs/vfs.py", "sandfs/nodes.py"],
 [("snapshot/restore", "sandfs/vfs.py"), ("_clone_policy", "sandfs/vfs.py"), ("NodeSnapshot/VFSSnapshot", "sandfs/vfs.py")], [], ["full public state dump before the snapshot and after each restore"])

prop("C09", "Versions count writes and optimistic checks never lose an update",
 "A file's version grows by exactly one with every successful write or append and is unchanged by anything that does not modify that file; a write with an expected version succeeds if and only if that is the current version of the file (zero for a file that does not exist yet). Hence under every interleaving of clients that read a version of an existing file and later write with it, each version is superseded by exactly one client and no accepted update is overwritten unseen.",
 ["histories", "schedules"], "all interleavings of the read and conditional-write steps of two and three clients, and all operation sequences up to a bounded depth with all expected versions in a range",
 "One test performs a single matching and a single mismatching write; interleavings and interaction with copy, move, remove, touch and storage are not explored.",
 ["sandfs/vfs.py", "sandfs/adapters.py"],
 [("_check_version", "sandfs/vfs.py"), ("write_file version increment", "sandfs/vfs.py"), ("get_version", "sandfs/vfs.py")],
 [("version", "optimistic version of a node", "sandfs/nodes.py")], ["get_version, write_file results"])

prop("C10", "Hooks see every write and delete under their prefix, exactly once, in order",
 "Every successful write or append delivers exactly one write event and one path event, and every removed file (also by recursive removal) exactly one delete event, to each hook registered on a component-wise prefix of the file's path, in registration order, after the change is visible, carrying the path, the full new content (none for a delete), the new version, the append flag and 'create' for the first write of a file (when its version was zero), 'update' afterwards; creating a file by touch counts as a write. Nothing else (mkdir, cp, mv, mount, sync, restore) delivers an event. Failed operations and paths outside the prefix deliver nothing, so replaying the events of a prefix reproduces the files written under it.",
 ["histories", "inputs"], "all sequences of writes, appends, removals (plain and recursive) and failing operations up to a bounded depth, with several hooks on nested, sibling and look-alike prefixes",
 "Tests register one hook and perform three operations; prefix boundaries, multiple hooks, recursive removal, failures and hooks that themselves touch the filesystem are not covered.",
 ["sandfs/vfs.py", "sandfs/hooks.py", "sandfs/integrations.py"],
 [("_emit_write_event/_emit_path_event", "sandfs/vfs.py"), ("_path_matches_prefix", "sandfs/vfs.py"), ("InboxRecorder", "sandfs/integrations.py")], [], ["recorded WriteEvent/PathEvent streams"])

prop("C11", "A storage mount and its adapter always hold the same files",
 "Below a storage mount, after mounting, after every successful write, append, touch or removal (plain or recursive; cp and mv are excluded, see the known finding) and after every sync, the set of files, their contents and versions in the virtual tree equal those held by the adapter of the innermost mount covering them, for the in-memory and the on-disk adapter alike; nothing outside the mount is ever sent to an adapter. Syncing also keeps the policies and metadata of entries that still exist, and the content of other mounts nested below.",
 ["histories", "configurations"], "all sequences of operations, external adapter changes and syncs up to a bounded depth over single, sibling and nested mounts",
 "Tests perform one write, one delete or one sync on a single mount; nesting, appends, recursive removal, repeated syncs and adapter differences are not explored.",
 ["sandfs/vfs.py", "sandfs/adapters.py"],
 [("_persist_storage/_delete_storage_entry/_find_storage_mount", "sandfs/vfs.py"), ("_load_storage_mount/mount_storage/sync_storage", "sandfs/vfs.py"), ("MemoryStorageAdapter/FileSystemAdapter", "sandfs/adapters.py")], [], ["adapter.list() against the virtual subtree"])

prop("C12", "A stale write never clobbers an external storage update",
 "If an entry known to the virtual tree was changed in the storage backend by someone else since it was last written or synced, a write or append of it through the virtual tree is refused with an error, leaves the external content in the backend and the virtual file with its previous content and version, and emits no event; after a sync the external content is visible and writing works again. A write without such an interference is never refused, and both adapters accept a direct write exactly when the given version is the current one.",
 ["histories", "schedules"], "all interleavings of virtual-side writes, appends, removals, syncs and external writes and deletes up to a bounded depth, for both adapters, with controlled file times",
 "One test creates one conflict on the in-memory adapter; post-conflict state, recovery, appends and the on-disk adapter are not explored.",
 ["sandfs/adapters.py", "sandfs/vfs.py"],
 [("MemoryStorageAdapter.write", "sandfs/adapters.py"), ("FileSystemAdapter.write/_refresh_version", "sandfs/adapters.py"), ("_persist_storage", "sandfs/vfs.py")],
 [("_versions/_mtimes", "versions the disk adapter assigned and the file times it saw", "sandfs/adapters.py")], ["adapter.read/list, write_file outcome, read_file, get_version"])

prop("C13", "The on-disk adapter and exports stay inside their root and preserve text",
 "For every path string, read, write, list and delete of the on-disk adapter only ever touch files inside its root directory (also in the presence of symbolic links, '..' and absolute paths; an escaping path is refused), and exporting or materialising a tree only writes inside the target directory whatever names the tree contains. Text written through them comes back identical, including line endings and non-ASCII characters, and a materialised copy is always deleted at the end, even after an error.",
 ["inputs", "fault_sequences"], "all path strings up to a bounded number of components over names, dots, absolute prefixes and symlink names; all small texts over characters including CR, LF and non-ASCII; every exit of the materialise block",
 "One test tries a single '../' path and one checks a plain export; symlinks, absolute paths, sibling directories with a common prefix and line endings are not tried.",
 ["sandfs/adapters.py", "sandfs/vfs.py"],
 [("FileSystemAdapter._resolve/list", "sandfs/adapters.py"), ("export_to_path/_export_directory/materialize", "sandfs/vfs.py"), ("instantiate_provided_node", "sandfs/nodes.py")], [], ["host directory around the root before and after, returned content"])

prop("C14", "Search returns exactly the matching lines of the current files",
 "After any history, a search (plain or regular expression, case-sensitive or not, limited to a path prefix or not, with a non-empty pattern) returns exactly one result per matching line of every readable file with stored content below the prefix that the view admits, with correct path, line number and line text, and nothing else. The results are the same with and without the full-text index, whenever the index was enabled, and the search command, grep and rg report the same matches. With the index enabled all of this holds also while content providers fail; a file whose provider fails has no results.",
 ["histories", "inputs"], "all operation histories up to a bounded depth (including snapshot restore and storage sync) with the index enabled at any point, crossed with all queries of a small query set",
 "Two tests cover a fixed index content and one move/copy/remove sequence; directory moves, overwrites, restores, syncs, prefixes and indexed-versus-scan agreement are not explored.",
 ["sandfs/vfs.py", "sandfs/search.py", "sandfs/shell.py"],
 [("FullTextIndex", "sandfs/search.py"), ("_index_file/_remove_index_entry/_rebuild_index/search", "sandfs/vfs.py"), ("_cmd_search/_cmd_grep/_search", "sandfs/shell.py")],
 [("_files", "indexed path to content map", "sandfs/search.py")], ["search() result sets, shell output"])

prop("C15", "The search view shows exactly the current query's results",
 "Listing, walking and reading below the search view with a query (text, regex and ignore_case switches, path restriction) shows exactly the directories and files that contain matches of that query now, each file holding its matching lines as path:line:text, no matter which queries ran before. A relative path restriction is relative to the root. Writing, creating, removing, copying or moving through a query path is refused, search results never appear among ordinary search results, and without a query the view is empty.",
 ["histories", "inputs"], "all sequences of edits and view queries up to a bounded depth over a small tree and query set",
 "Three tests run a single query each on one file; changing queries, edits between queries, option combinations and write attempts are not covered.",
 ["sandfs/shell.py", "sandfs/vfs.py"],
 [("_parse_search_path/_maybe_search_context", "sandfs/shell.py"), ("_build_search_tree/_search_view_provider/_reset_directory", "sandfs/vfs.py")], [], ["stdout of ls, cat, tree, find, grep on search paths"])

prop("C16", "Agent mode: only allowed commands run and output stays within the limit",
 "With a list of allowed commands (also an empty one) no other command ever takes effect, in any position of a pipeline or script, under any spelling through variables, registered by the host or not, with host fallback on or off: it yields a non-zero exit code and changes nothing, while allowed commands work as in an unrestricted shell. With an output limit, a result whose stdout and stderr together exceed that many bytes (UTF-8) is replaced by an error, at every stage of a pipeline, and smaller results pass unchanged.",
 ["inputs", "configurations"], "all allow-lists over a command set, all commands in all pipeline positions, with and without host fallback; all output sizes around all small limits for ASCII and non-ASCII text",
 "Tests check one blocked command and one too long output; pipelines, fallback, empty lists, multi-byte text and boundary sizes are not tested.",
 ["sandfs/shell.py"],
 [("_run_command allowed_commands check", "sandfs/shell.py"), ("_enforce_output_limit", "sandfs/shell.py")],
 [("allowed_commands", "allow-list or None", "sandfs/shell.py"), ("max_output_bytes", "limit or None", "sandfs/shell.py")], ["CommandResult, recorded handler invocations, recorded process spawns"])

prop("C17", "Shell execution is total and composes pipelines, redirections and variables",
 "For every command line the shell returns a result with an exit code and never raises. Lines run in order until the first failure; in a pipeline each command receives exactly the previous command's output, a redirection replaces or appends exactly the command's output to the named file (or feeds the file in; of several, the last decides), nothing later in the line runs after a failure, bare assignments persist, assignments before a command affect that command only, and variables expand to their current value or to nothing.",
 ["inputs", "histories"], "all command lines up to a bounded number of tokens over an alphabet of commands, operators, assignments, variables and files, in sequences",
 "Tests run about eight fixed lines; error cases in redirections, multi-stage pipelines, assignment scoping and malformed lines are mostly untested.",
 ["sandfs/shell.py", "sandfs/shell_parser.py"],
 [("parse_pipeline", "sandfs/shell_parser.py"), ("exec/_exec_pipeline/_expand_vars/_expand_args", "sandfs/shell.py")],
 [("env", "persistent shell variables", "sandfs/shell.py")], ["CommandResult, file contents, shell.env"])

prop("C18", "Nothing reaches the host except through explicit host commands and exports",
 "No filesystem operation and no shell command other than host, bash, sh (and unknown commands when host fallback is switched on) opens, creates, modifies or deletes a host file or starts a process, whatever the arguments. With host fallback off, unknown commands and unsupported flags fail without touching the host, and snippets run by the Python helper see only the whitelisted builtins plus the sandbox objects, start from a fresh namespace every time, and have their output captured; the python command runs exactly its words (those after -c), joined by spaces, in the executor the shell was given.",
 ["inputs", "histories"], "all built-in commands with all argument combinations over a small alphabet including host-looking paths, monitored by an interpreter audit hook; all names of the Python builtins; all sequences of snippets",
 "Tests never observe host effects at all; only the happy path of two snippets is run.",
 ["sandfs/shell.py", "sandfs/pyexec.py", "sandfs/vfs.py"],
 [("_run_command/_run_host_process gating", "sandfs/shell.py"), ("PythonExecutor.run/_ALLOWED_BUILTINS", "sandfs/pyexec.py")], [], ["sys.audit events, PythonExecutionResult"])

prop("C19", "Host tools see the sandbox and their file changes come back exactly",
 "A host command runs against a copy of the tree the shell may see (in the directory asked for, with stdin, environment and sandbox paths translated), its stdout, stderr and exit code are returned, and afterwards the tree equals what the command left behind: created, changed, deleted and re-typed files and directories are reflected, and entries it did not change keep content, version, policy and metadata. Sandbox paths are translated as whole path words that name an existing entry or an entry to be created in an existing directory other than the root, not inside relative paths or URLs. Protected entries stay as they were, with an error when the command changed them, and the temporary copy is removed in every case.",
 ["histories", "inputs", "fault_sequences"], "all short edit scripts over a small tree run as the host process (real or stand-in), all starting trees with policies, all failure outcomes",
 "Tests cover single rm/ls/printf commands on default-policy trees; re-typed entries, nested changes, protected entries and failure exits are not covered.",
 ["sandfs/shell.py", "sandfs/vfs.py"],
 [("_run_host_process/_sync_from_host/_remove_missing", "sandfs/shell.py"), ("_translate_token/_eligible_sandbox_path", "sandfs/shell.py"), ("materialize", "sandfs/vfs.py")], [], ["tree after the command, CommandResult, temporary directory listing"])

prop("C20", "Viewing and text commands compute exactly what they define",
 "For every file content and every option value, cat, head, tail, wc, grep, rg, find, ls, tree, stat, echo and printf print exactly what they define: the first or last N lines or characters, line and byte counts, exactly the matching lines with correct numbers and paths, exactly the entries that match name and type filters, and unquoted globs expand to exactly the matching visible paths (patterns with a slash in sorted order, bare names in listing order). Missing or wrong operands give a non-zero exit code, and none of these commands changes the tree.",
 ["inputs"], "all small file contents over an alphabet with newlines, blanks and non-ASCII characters, crossed with all option values in a range, one and two operands, files, stdin and directories",
 "Tests use one 20-line file and a handful of options; boundary counts (0, 1, N, more than N), missing final newlines, empty files and stdin/operand mixes are untested.",
 ["sandfs/shell.py", "sandfs/vfs.py"],
 [("_cmd_head/_cmd_tail/_cmd_wc/_cmd_grep/_cmd_find/_cmd_ls/_cmd_cat/_cmd_stat", "sandfs/shell.py"), ("glob/tree/ls", "sandfs/vfs.py")], [], ["CommandResult against an independent definition"])

prop("C21", "Dynamic nodes load on demand, once, and local changes win",
 "A provider-backed file calls its provider on every read (with its own path) and never otherwise changes, until it is written; writing replaces and appending extends the current content. A provider-backed directory calls its provider at most once per mounting, not before its content is needed, exposes exactly the provided entries with their content, metadata and policy at any depth, keeps entries that already existed, and later local edits and removals are never undone; a failing provider yields an error, not a wrong or partial answer, and can be retried.",
 ["histories", "fault_sequences"], "all sequences of reads, listings, writes, removals, moves, copies and re-mounts up to a bounded depth over trees with file and directory providers, with failures injected at every provider call",
 "Two tests read one provider once; call counts, writes over providers, removal of provided entries, nesting and failures are not covered.",
 ["sandfs/nodes.py", "sandfs/vfs.py", "sandfs/providers.py"],
 [("ensure_loaded/instantiate_provided_node", "sandfs/nodes.py"), ("VirtualFile.read/write/set_provider", "sandfs/nodes.py"), ("mount_file/mount_directory", "sandfs/vfs.py")],
 [("_loaded", "directory provider already consulted", "sandfs/nodes.py")], ["provider call log, read_file, ls"])

prop("C22", "The command line tool is the sandbox shell over the mounted directories",
 "'sandfs exec' prints exactly the stdout and stderr of the shell command run over the given mounts and search options and exits with its exit code; 'sandfs shell' does the same line by line until exit, quit, :q or end of input, keeping state between lines. Edits made below a mount are stored in exactly the mounted host directory and nothing else on the host changes; a mount without a colon is rejected.",
 ["inputs", "histories"], "all scripts up to a bounded length over a command alphabet, with zero, one and two mounts, with and without search, through both sub-commands",
 "Two tests echo one word; mounts, exit codes, stderr, search flags and multi-line sessions are not tested.",
 ["sandfs/cli.py", "sandfs/adapters.py"],
 [("_build_vfs/_run_exec/_run_shell", "sandfs/cli.py")], [], ["captured stdout/stderr, exit code, host directory contents"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))

ENUM = "model checking by complete enumeration of bounded inputs executed on the real code, against an independent definition"
TWO = "explicit-state model checking of the real code as two-world non-interference: every history of commands is run in two worlds that differ only in what must stay hidden"
SCHED = "explicit-state model checking of the real code: all interleavings of client programs and all operation histories, in lockstep with a reference model"
FAULT = "explicit-state model checking of the real code with a fault injected at every call into the environment, state compared before and after"
LIM = " Bounds (paths, alphabets, depths) are in the evidence file; nothing is said about longer histories, larger trees or other names."
NOTES["C01"] = (ENUM, "Complete for every path string over the stated components up to the bound, for every working directory, in every operation that takes a path, on fixed trees." + LIM)
NOTES["C02"] = (HIST, "Complete for every history of the stated operations up to the depth in the evidence, over 3-6 colliding paths, from five initial trees, through the API and the shell; says nothing about longer histories or other names.")
NOTES["C03"] = (FAULT, "Complete for every failing operation at every state reachable within the depth, with every call into adapters and providers failing in turn; recursive removal is excluded." + LIM)
NOTES["C04"] = (HIST, "Complete for every assignment of policies to a five-entry tree and every history of mutating calls, commands and host edits up to the depth." + LIM)
NOTES["C05"] = (TWO, "Complete for the stated placements of unreadable entries, histories up to the depth, and all reading commands at every state." + LIM)
NOTES["C06"] = (TWO, "Complete for the stated views and label assignments, all reading commands over all paths, and interleaved histories of two shells up to the depth." + LIM)
NOTES["C07"] = (HIST + "; the reference decides visibility from the property text", "Complete for the stated views and labels, every mutating command with every source and destination." + LIM)
NOTES["C08"] = (HIST, "Complete for every history of edits, snapshots and restores (two slots) up to the depth, full public dump compared at each restore." + LIM)
NOTES["C09"] = (SCHED, "Complete for all interleavings of two and three (thorough four) clients and all histories with all expected versions in range." + LIM)
NOTES["C10"] = (HIST, "Complete for every history up to the depth with hooks on nested, sibling and look-alike prefixes; event streams compared exactly, also with hooks that re-enter the filesystem." + LIM)
NOTES["C11"] = (HIST, "Complete for every history of operations, external changes and syncs up to the depth over single, sibling and nested mounts, memory and disk adapters. cp and mv of stored files are a known finding." + LIM)
NOTES["C12"] = (SCHED, "Complete for every interleaving of virtual writes, external writes and syncs up to the depth, both adapters, controlled file times." + LIM)
NOTES["C13"] = (ENUM + ", run as an unprivileged user in a scratch directory", "Complete for all path strings and texts up to the bound; what the host sees is compared before and after." + LIM)
NOTES["C14"] = (HIST, "Complete for every history up to the depth, with the index switched on at any point, crossed with every query; the oracle is a naive scan of the public tree." + LIM)
NOTES["C15"] = (HIST, "Complete for every history of edits and view queries up to the depth; the oracle is a tree computed from a naive scan." + LIM)
NOTES["C16"] = (ENUM, "Complete for all allow-lists over the command set up to the bound, every position in pipelines and scripts, and all output sizes around all small limits; process creation is a recording stand-in." + LIM)
NOTES["C17"] = (ENUM + " (scripts against a small independent interpreter; sessions breadth-first)", "Complete for all command lines up to the bound; totality for all short strings over the operator alphabet and hostile worlds." + LIM)
NOTES["C18"] = (ENUM + " under an interpreter audit monitor", "Complete for all built-in commands, API calls, snippet sequences over the stated alphabets; the monitor sees what CPython's audit events report." + LIM)
NOTES["C19"] = (HIST + "; the host process is a stand-in executing every edit script, cross-checked with real sh processes", "Complete for every edit script up to the bound over every policy and label assignment stated." + LIM)
NOTES["C20"] = (ENUM, "Complete for all contents and trees up to the bound crossed with all options and operand forms." + LIM)
NOTES["C21"] = (FAULT + ", and a reference model of lazy loading in lockstep", "Complete for every history of reads, edits, moves, copies, re-mounts and provider failures up to the depth." + LIM)
NOTES["C22"] = (ENUM + " (every script and session through main() in scratch directories)", "Complete for all scripts up to the bound over the command alphabet, mounts and flags." + LIM)

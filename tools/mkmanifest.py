#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = "static analysis of the type-checked source (clang AST of all 55 translation units); "
CH = {
    "C01": ("interprocedural access-path flow analysis (state read by computeResult vs. state rendered by asString)",
            NOTE + "all 19 operation classes, per value of every flag and type field; operations are assumed to be deterministic "
            "functions of the state they read and of the index"),
    "C02": ("property simulation (typestate) over the inlined control-flow graph of ConcurrentCache with exception edges and lock scopes",
            NOTE + "all public functions of ConcurrentCache that take a computation and all functions that wait; standard containers, "
            "mutexes and condition variables are assumed to work and not to fail"),
    "C03": ("exception-escape analysis over the call graph and typestate simulation of the connection handling",
            NOTE + "every function reachable from the accept loop; exceptions of library functions are taken from a table; crashes by "
            "memory errors are not covered"),
    "C04": ("typestate simulation of the timer protocol, call-graph queries for the hand-over of the timer",
            NOTE + "all operation classes and all functions that take a timer; how long a single step between two polls takes is not decided"),
    "C05": ("typestate simulation of the limited allocator with exception edges, symbolic comparison of amounts, compile-time witnesses",
            NOTE + "the allocator, all table types and everything reachable from the computation of results; memory outside of tables "
            "(strings, hash maps) is not part of the budget"),
    "C06": ("reaching definitions and guards: every value an input tree can have at the construction of an order-sensitive operation",
            NOTE + "all constructions of joins, DISTINCT, GROUP BY and pattern counting, all declared orders; that the sort and merge "
            "algorithms themselves are correct is assumed"),
    "C07": ("case analysis per scan type (statements reachable for a fixed enum value) and structural reading of comparators",
            NOTE + "all six orders, all 15 scan types and every construction of a scan; the search inside a relation is not part of it"),
    "C08": ("extraction of the byte sequences a writer and its reader handle, in the abstract, and their comparison",
            NOTE + "all pairs of writers and readers of index files; that the operating system returns what was written is assumed"),
    "C09": ("lock-set and lock-order analysis: held regions, may-acquire and may-wait summaries over the call graph",
            NOTE + "all acquisitions of all mutexes and Synchronized objects; lock objects of the same type are not distinguished"),
    "C10": ("interprocedural write-effect analysis (which places a function may write, through aliases and callees), compile-time witnesses",
            NOTE + "all 19 operation classes, the result cache and everything they call; writes through pointers kept in containers of the "
            "standard library are followed to the container only"),
    "C11": ("interprocedural write-effect analysis of everything a request can execute",
            NOTE + "all functions reachable from the worker threads of the server; objects guarded by a mutex or atomics are left to C02 and C09"),
    "C12": ("backward tracking of file names to literals, start-up data or request data, with dominating comparisons",
            NOTE + "everything reachable from the accept loop"),
    "C13": ("guard analysis and path-sensitive simulation of every use of a search result (iterators, ids, metadata, table positions)",
            NOTE + "every search in the sources; invariants between different structures on disk are assumed (C08)"),
    "C14": ("typestate simulation of the parser, write/read analysis of the parsed query, loop-carried dependences in the planner",
            NOTE + "the parser, the planner and all output formats; that a clause that is read has the right effect is part of other properties"),
    "C15": ("typestate of every file stream and of every failing library call on the control-flow graph; ways out of every error handler",
            NOTE + "all streams, C library calls and handlers reachable from the index builder and the start of the server; content that is well-formed but wrong, "
            "errors inside STXXL and lost data after a successful close are not covered"),
    "C16": ("typestate of every future on the control-flow graph with an analysis of what each background step shares with its starter",
            NOTE + "all futures, asynchronous steps and threads of the repository; data shared through pointers kept in containers is not followed"),
    "C17": ("case analysis of every comparison function over the possible outcomes of its key comparisons; comparison of sort and search keys",
            NOTE + "all comparison functions handed to sorts, searches, heaps and ordered containers; collation keys of the ICU library are taken to be consistent"),
    "C18": ("case analysis of every operator over the positions of a value relative to the operand; dataflow from parser token to operation",
            NOTE + "the parser, Filter, Bind, GroupBy, OrderBy and Sort for every value type; floating-point rounding is not considered"),
    "C20": ("dataflow from the option tables and settings keys through switch cases, variables and calls to the setters and members they govern",
            NOTE + "all command line programs of the repository, the settings file and the settings stored with an index; values chosen by the user are not bounded"),
    "C19": ("abstract interpretation of string composition: every response as a sequence of literal texts, lengths and opaque texts; per-character case analysis of the escaping functions",
            NOTE + "all places that send to a client, through all helper functions and branches; the JSON library is assumed to escape what it is given, "
            "files of the web interface are sent as they are"),
    "C21": ("abstract evaluation of the functions of every operation in a domain of linear expressions over input widths with case distinction on column comparisons; cross-check of width, types, strings and variable columns",
            NOTE + "all operations and all cases of their columns (before, at, after joined ones, any number of joined columns); the planner's trees and the export. "
            "That rows are copied in the declared layout is not decided here; the counting of types in GroupBy is covered by rules of its own"),
    "C22": ("typestate of every raw resource on control-flow graphs with exception edges from an interprocedural exception analysis; ownership rules for the classes that keep resources",
            NOTE + "all raw acquisitions (new, malloc, files, descriptors, mappings, sockets, address lists, mutexes) of the repository; in the builder only normal ways out count, "
            "since it ends after an error"),
    "C23": ("queries over the resolved syntax tree: coverage of enumerations by switches, tables and lexer patterns, cross-checked by names",
            NOTE + "all switches, name tables, comparison chains and lexer patterns of the repository"),
    "C24": ("rules on loops of the type-checked syntax tree: remembered keys with aliases resolved, run boundaries and what follows the loop, buffers flushed when full, per-path counts of writes and counters, ranges as polynomials",
            NOTE + "all loops of the builder and of the text index"),
}
NA = {
    "C30": "Equality of whole query answers with the SPARQL semantics is a property of values computed at run time; no finite set of "
           "constructs in the source decides it. Parts that are visible as constructs are C06, C07, C13, C14, C18, C21.",
    "C31": "Plan cost and size estimates are heuristic numbers; nothing in the source says which plan is the cheapest.",
    "C32": "That encoding and decoding of the compressed lists are inverse is a statement about bit arithmetic on run-time values, "
           "which needs execution or a solver.",
}
checks = []
for p in props:
    if p in CH and os.path.exists(os.path.join(V, "checks", p + ".py")):
        checks.append(dict(property=p, quick_cmd="python3 checks/%s.py" % p, thorough_cmd="python3 checks/%s.py" % p,
                           evidence_file="evidence/%s.json" % p, technique=CH[p][0], level="other", level_note=CH[p][1]))
have = {c["property"] for c in checks}
na = [dict(property=p, reason=NA.get(p, "No check built yet.")) for p in props if p not in have]
m = dict(version=1, setup_cmd="bash tools/build.sh && python3 tools/extract_all.py", checks=checks, not_applicable=na,
         notes="Every check extracts facts from /repo's current source with a clang tool (tools/extract, built by setup_cmd or, if absent, by "
               "the check itself), caches them by content hash in /verif/.cache and applies its rules in Python. "
               "Nothing of /repo is executed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

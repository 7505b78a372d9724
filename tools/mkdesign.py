#!/usr/bin/env python3
"""Writes DESIGN.md from the texts below, properties.jsonl and the rules each check declared in its last run."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Static verification of QLever: design

## Machinery

`tools/extract` is a libTooling program. It parses every translation unit of `/repo/src` with the flags of the real
build (`compile_commands.json` of `_build`, or the flags of `CMakeLists.txt` if there is none) and dumps the *resolved*
program: every function with its body as a typed tree (implicit conversions, resolved callees, template instantiations,
constant values), records with fields, bases and methods, enumerations, globals. Results are kept per unit under
`.cache/` and are reused only for byte-identical preprocessed input; whatever changed in `/repo` is analysed afresh.
Nothing of `/repo` is executed, concretely or symbolically, and no solver is used.

On this program work the libraries in `lib/`:

| file | analysis |
|---|---|
| `facts.py` | loading, call resolution (virtual calls, lambdas, function pointers, `std::function`) |
| `cg.py` | call graph, reachability, exception-escape analysis (which types leave a function, minus handlers) |
| `cfg.py` | control-flow graphs with exception edges, destructors, inlined helpers and lambdas; property simulation (finite abstract states, joined per node) |
| `place.py` | access paths, reaching definitions, dominating conditions |
| `peval.py` | case analysis: the statements that remain for a fixed value of an enumeration or flag |
| `effects.py` | write effects: which places a function may change through aliases, parameters and callees |
| `ser.py` | byte sequences a writer produces and a reader consumes |
| `order.py`, `cmpfn.py` | reading of comparison functions into tables over the outcomes of their key comparisons |
| `text.py` | abstract interpretation of string composition |
| `witness.py` | compile-time witnesses: small units compiled against the headers of `/repo` |

A check declares its rules with the number of instances confirmed by reading; if fewer are found the anchor of the rule
has moved and the check ends with an error status instead of success. Every check writes the instances it looked at to
`evidence/<id>.json`, and each violation names rule, file, line and construct. Rules are anchored by role (what a function
does, what its class derives from, which enumeration it switches over), not by text, so that renamed locals, extracted
helpers, reordered statements and rewritten loops do not matter. `selftest/` has for every check edits that break the
property and edits that keep it; `tools/selftest.py` applies them to a scratch copy and runs the check on it.

Defects found on the original tree are repaired by `fix:` commits in `/repo` where the repair is small, and otherwise
listed as findings; both are recorded in `known_findings.txt`.

## Properties
"""

# id: (how it is decided, what is assumed or left out)
TEXT = {
"C01": ("For every operation the state its `computeResult` reads (fields, through helpers, children, base classes) is compared with the state its `asString` renders, as sets of access paths. Flags and enumerations that steer the computation must give different texts (case analysis). Keys are separated, start with different words, and are the only keys under which results are stored.",
        "Estimates and the timer are not part of a result. Open finding: filters render variable names instead of columns (a unit test pins that text)."),
"C02": ("Property simulation of the functions that register, compute, finish and abort a pending entry of the cache, with exception edges and the scopes of lock handles inlined.",
        "The standard mutex and condition variable are assumed to work."),
"C03": ("Exception-escape analysis from the handling of a request to the thread entry; typestate of the accepted connection (open, answered, closed) on the inlined control-flow graph; reachability of process-ending calls.",
        "Stack exhaustion and allocation failure inside the standard library are not modelled."),
"C04": ("Typestate of the timer (started, handed to the plan, tested after the computation), call-graph queries for its hand-over to children and interruptible scans, case analysis of the timer's arithmetic and units.",
        "Work between two tests inside one library call (sorting) cannot be interrupted."),
"C05": ("Simulation of the limited allocator with exception edges; amounts are compared symbolically; compile-time witnesses that no table or allocator can be made without a budget.",
        "Only tables count, as the property says; strings and maps use the ordinary allocator."),
"C06": ("Reaching definitions of every tree that is given to an order-sensitive operation: built by a sort on exactly the needed columns, or guarded by a comparison of its declared order; declared orders are compared with what the computation does.",
        "d15f38a (a stale memoised order) was reported by the analysis; no query with wrong rows was found for it."),
"C07": ("For every scan type and every triple order the reachable statements are collected (case analysis) and the positions they name compared: comparator, key order, file suffix, scan, width, columns, estimates, planner.", ""),
"C08": ("The byte sequence each writer produces and its reader consumes is extracted in the abstract (fields, widths, loops, conditions) and compared item by item; configuration keys, packing masks and shifts, trailers and offsets likewise.",
        "The coding inside the compressed lists is property C32."),
"C09": ("Held regions of every lock handle, may-acquire and may-wait summaries over the call graph, and the resulting order graph; protected members are written only in held regions.",
        "Size estimates that are remembered without lock (`_sizeEstimate` and the like) belong to a tree used by one thread only and are left out."),
"C10": ("Write effects of `computeResult` of every operation on the places reached from child results and from the cache; compile-time witnesses that constant tables and views cannot be written.", ""),
"C11": ("Write effects of everything a request can execute on objects owned by the server, on globals and on static locals; reads of shared files only at explicit offsets; no process-wide library calls.", ""),
"C12": ("File names are traced backwards to literals, to data from before the request or to the request; the latter needs a dominating comparison with literals that name shipped files.", ""),
"C13": ("Every use of a search result (iterator, found flag, id, metadata, position) must be dominated by the test that makes it valid, on every path; binary searches are read into invariants.",
        "Assumed: relations with blocks have at least one; words looked up by the text builder are in the vocabulary made from the same file; `_nodeMap`, `_factors` and `_varColMap` are dense. prefix() on ids is inexact by design."),
"C14": ("Typestate of the parser's tokens, stored/consumed analysis of every field of the parsed query, loop-carried dependences of the plans in the planner.",
        "REDUCED permits but does not demand the removal of duplicates. Open findings: LIMIT and OFFSET of subqueries."),
"C15": ("Typestate of every file stream and of every library call that reports failure; ways out of every error handler.",
        "A truncated but well-formed vocabulary cannot be told from a complete one; binary partial vocabularies read while merging are not tested for read errors; the excerpt file is optional."),
"C16": ("Typestate of every future together with what its step shares with the code that started it (captured references, members, files).",
        "Data shared through pointers kept in containers is not followed."),
"C17": ("Every comparison given to a sort, search or ordered container is read as a decision over its key comparisons, and irreflexivity, asymmetry and transitivity are decided for all arrangements; sort and search keys and collation levels are compared.", ""),
"C18": ("The order of values relative to the operand is split into points, and for each operator, type and strategy the set of points whose rows are kept is derived and compared with the operator; operands and symbols are traced from token to operation; aggregates and groups likewise.",
        "Open finding: ORDER BY on a computed column of floats orders by bits (repair would change the sort operation)."),
"C19": ("Every response is derived as a sequence of literal texts, lengths and opaque texts; lengths must be those of the following body, opaque texts in tables must have passed the escaping of their format, whose functions are checked character by character.",
        "The JSON library is assumed to escape; web files are sent as they are."),
"C20": ("Dataflow from option tables, help texts and settings keys through switch cases, variables, calls and setters to the member that is used.", ""),
"C21": ("computeResult, getResultWidth and getVariableColumns of every operation are evaluated abstractly: numbers are linear expressions over the widths of the inputs, members and the column of a variable; comparisons of columns split into less, equal and greater; loops over columns, variables and joined columns are summarised by the cases of one element. The number of columns, the sequence of value types, the strings taken over and the column of each variable are then compared with each other.",
        "Two inputs that are both scans of everything are never joined (planner). The type sequence of GroupBy is read by rules of its own. That the rows themselves are laid out so is left to the tests of the joins."),
"C22": ("Typestate (none, held, released, handed over) of every raw resource in a local variable, with exception edges for everything a request can reach; ownership rules for classes that keep resources in members: release in the destructor in the matching form, reset after an early release, release before replacement, loss on hand-over, no sharing by copies.",
        "In functions of the builder only normal ways out count: after an error the builder ends. Closing of sockets is explicit and decided by C03. Allocation failure of `new` itself is not a way out."),
"C23": ("Queries over the resolved tree: every switch over an enumeration, every table indexed by one and every chain of lexer patterns is compared with the values that can occur.",
        "A default that does something counts as handled; the conditional fall-through of prefix filters is accepted; FIRST and LAST aggregates are never produced by the parser."),
"C24": ("Loops that compare each element with the previous one are found by their shape (a comparison with a place outside the loop that takes the compared value). The remembered place may only take values of elements (references to parts of it are followed); what the boundary does with the finished run must follow the loop too; what is built up over a run must be set back, after it was used and to the value of the first run. Buffers that are handed on when full must be emptied and their rest handed on. Counters stored per part are compared with the writes on every path of an iteration. The ranges of the parallel pipeline are compared as polynomials.", "An element that is left out because of its own value (not its position) is not noticed."),
}

SEEDED = """
## Planted bugs

`seeded/<id>/` has a patch, a demonstration and the property it breaks. They were written from the property texts. All
of them compile and pass the tests. Result of running all checks on each:

| bug | property | reported by |
|---|---|---|
"""

def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    out = [HEAD]
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    for p in props:
        i = p["id"]
        out.append("### %s %s\n" % (i, p["title"]))
        if i in na:
            out.append("Not decided: %s\n" % na[i])
            continue
        how, lim = TEXT[i]
        out.append(how + "\n")
        ev = os.path.join(ROOT, "evidence", i + ".json")
        rules = find(json.load(open(ev))) if os.path.exists(ev) else []
        for r in rules or []:
            out.append("- `%s` (%d): %s" % (r["id"], r["instances"], r["rule"]))
        if lim:
            out.append("\nLimits: " + lim)
        out.append("")
    out.append(SEEDED.strip("\n"))
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        c = CAUGHT.get(os.path.basename(d), "?")
        out.append("| %s | %s | %s |" % (os.path.basename(d), m["property"], c))
    out.append("")
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))


def find(o):
    if isinstance(o, dict):
        if isinstance(o.get("rules"), list):
            return o["rules"]
        for v in o.values():
            r = find(v)
            if r:
                return r
    return None


CAUGHT = {
    "s01_bind_operator_key": "C01",
    "s02_order_direction_key": "C01",
    "s03_group_concat_key": "C01",
    "s05_optional_presorted": "C06",
    "s06_static_files": "C12",
    "s07_minus_timeout": "C04",
    "s08_second_order_key": "C14",
    "s09_filter_le_sorted": "C18",
    "s10_internal_languages": "C20",
    "s14_duplicates": "C24",
    "s15_freed_memory": "C05",
    "s16_static_query": "C11",
    "s17_notify_one": "C02",
    "s18_closed_early": "C03",
    "s19_dummy_columns": "C21",
}

if __name__ == "__main__":
    main()

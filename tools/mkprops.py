#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


prop("C01", "A cached result is only reused for a query part with the same result",
     "The text under which the result of a query operation is stored and looked up in the result cache determines that result: "
     "everything configured on the operation that its computation depends on (columns, conditions, limits, operands, modes, aggregates, "
     "sub-results) also goes into that text. "
     "So two operations whose results differ never share a cache entry, whatever was queried before.",
     ["programs", "histories"], "for all pairs of operations of one kind and all orders in which queries containing them reach one server",
     "Tests run single queries against fresh caches; a collision needs two particular operations that differ only in the omitted ingredient, in one server history.",
     ["src/engine/Operation.cpp", "src/engine/IndexScan.cpp", "src/engine/Join.cpp", "src/engine/Filter.cpp", "src/engine/GroupBy.cpp",
      "src/engine/Union.cpp", "src/engine/Distinct.cpp", "src/engine/Values.cpp", "src/engine/Bind.cpp", "src/engine/TransitivePath.cpp"],
     [("cache lookup by the operation's description", "src/engine/Operation.cpp: Operation::getResult"),
      ("per-operation description", "asString() of every class derived from Operation")],
     ["the result of Operation::getResult / the HTTP response of a query"])

prop("C02", "Concurrent identical queries: one computes, all finish, none hangs",
     "When several clients ask for the same not yet cached result at the same time, exactly one of them computes it and all others receive that result or, if the computation "
     "fails for any reason, an error; none waits forever, and a failed computation leaves nothing behind, so a later request computes again. "
     "A computation never blocks requests for other results.",
     ["schedules", "fault_sequences"], "for all interleavings of requests for equal and different keys and all points at which a computation fails",
     "A unit test samples a few interleavings; a lost wake-up or a forgotten clean-up on one exit path needs a particular schedule or an exception at a particular point.",
     ["src/util/ConcurrentCache.h", "src/util/Synchronized.h", "src/engine/Operation.cpp"],
     [("in-progress map, finish/abort/getResult", "src/util/ConcurrentCache.h")],
     ["ConcurrentCache::computeOnce / computeOncePinned return or throw"])

prop("C03", "The server survives every request and closes every connection",
     "Whatever bytes a client sends, the server process keeps running and keeps accepting: no error raised while handling a request ends a worker thread or the process, "
     "and the connection of every accepted client is closed on every path.",
     ["inputs", "fault_sequences"], "for all request byte strings and all exceptions raised while parsing, planning, executing or composing the response",
     "Tests never run the accept loop; an escape needs a malformed request that throws outside the part that is guarded.",
     ["src/engine/Server.cpp", "src/engine/ServerMain.cpp", "src/util/Socket.h"],
     [("accept loop and request processing", "src/engine/Server.cpp: runAcceptLoop, process")],
     ["the TCP port of the server"])

prop("C04", "The time limit of a query covers all work done for it",
     "When a query is given a time limit, the same limit is in force for every sub-operation executed for it, every index scan started on its behalf observes it, "
     "and a computation that has exceeded the limit ends with an error instead of a result; nothing computed after the deadline passed is delivered or cached.",
     ["programs", "configurations"], "for all query plans and all time limits",
     "Tests run queries with unlimited timers; a sub-operation that is not reached by the timer shows only in a plan of that shape that runs too long.",
     ["src/engine/Operation.cpp", "src/engine/Operation.h", "src/util/Timer.h", "src/index/Index.h", "src/engine/Server.cpp"],
     [("timer propagation over children", "src/engine/Operation.cpp: recursivelySetTimeoutTimer, getChildren()"),
      ("checks around computeResult", "src/engine/Operation.cpp: getResult"),
      ("interruptible scans", "src/index/Index.h scan(...), src/util/File.h read")],
     ["response time and status of a query with timeout parameter"])

prop("C05", "Query memory is accounted against the configured limit and given back",
     "All tables computed for queries are charged to one process-wide budget before the memory is obtained, a request exceeding the budget fails with an error, and exactly the charged amount is returned when the memory is freed or could not be obtained. "
     "No query result table is allocated outside this budget.",
     ["programs", "histories", "fault_sequences"], "for all queries, all sequences of allocations and releases by concurrent queries, and failing allocations",
     "Tests exercise a few allocations in one thread; a leak of budget accumulates only over a history and an unbudgeted table needs a particular operation.",
     ["src/util/AllocatorWithLimit.h", "src/engine/IdTable.h", "src/engine/ResultTable.h", "src/engine/QueryExecutionContext.h"],
     [("limited allocator", "src/util/AllocatorWithLimit.h"), ("allocator handed to tables", "ctor calls of IdTable/ResultTable in src/engine")],
     ["AllocationExceedsLimitException, memory footprint of the server"])

prop("C06", "Operations that need sorted input always get it sorted that way",
     "Every plan the planner builds feeds each order-sensitive operation (joins, optional joins, minus, grouping, duplicate removal) inputs that are sorted on exactly the columns that operation works on, by reusing a declared order or inserting a sort on those columns. "
     "An operation declares an order for its result only if it establishes or preserves it.",
     ["programs"], "for all query shapes and all join orders the planner may choose",
     "The tests compare a few dozen plans; a wrong or missing sort only yields wrong rows for a particular plan and data.",
     ["src/engine/QueryPlanner.cpp", "src/engine/QueryPlanner.h"],
     [("sort insertion at construction sites", "src/engine/QueryPlanner.cpp"), ("declared order", "resultSortedOn() of the operations")],
     ["query results"])

prop("C07", "All six triple orders and every scan on them agree about positions",
     "Each of the six stored orders of the triples is sorted, written, opened and scanned in one and the same order of subject, predicate and object, and a scan pattern is answered from the order whose leading positions are the bound ones. "
     "The columns, variable names, bound values, cache text, size estimates and sortedness of a scan refer to the same positions.",
     ["inputs", "programs"], "for all triples, all scan patterns and all six orders",
     "Tests cover a few of the 6 orders x (1 or 2 bound positions) x consumers; a swapped position in one rarely used combination stays unseen.",
     ["src/index/Index.h", "src/index/Index.cpp", "src/index/Permutations.h", "src/index/StxxlSortFunctors.h", "src/engine/IndexScan.cpp", "src/engine/IndexScan.h", "src/engine/QueryPlanner.cpp"],
     [("permutation table", "src/index/Index.h members of type Permutation"), ("scan dispatch", "src/engine/IndexScan.cpp"), ("seeding of scans", "src/engine/QueryPlanner.cpp: seedWithScansAndText")],
     ["query results for triple patterns"])

prop("C08", "What the index builder writes, the server reads back field by field",
     "For every structure stored in an index, reader and writer agree on the sequence, width and meaning of the stored fields and on the announced sizes, including the variants and version markers, so that every index built is read back as it was built.",
     ["inputs", "configurations"], "for all index contents and build settings",
     "Round-trip tests exist for a few structures with small values; a field that is truncated, skipped or swapped shows only for large or unusual contents.",
     ["src/index/MetaDataTypes.cpp", "src/index/MetaDataTypes.h", "src/index/IndexMetaDataImpl.h", "src/index/TextMetaData.cpp", "src/index/Index.cpp", "src/index/VocabularyGeneratorImpl.h", "src/util/MmapVectorImpl.h", "src/index/CompactStringVector.h", "src/index/ExternalVocabulary.cpp"],
     [("paired serializers", "operator<< / createFromByteBuffer / bytesRequired and file-level writer/reader pairs")],
     ["an index built and re-opened"])

prop("C09", "No set of requests can deadlock the server on its own locks",
     "Locks are acquired in one global order, never twice by the same thread, never held while another query is computed or while a client is served, and what a lock protects is only touched while that lock is held.",
     ["schedules"], "for all interleavings of requests",
     "A deadlock or a race needs two threads at two particular points; unit tests are single-threaded or sample few schedules.",
     ["src/util/Synchronized.h", "src/util/ConcurrentCache.h", "src/engine/Operation.cpp", "src/engine/QueryExecutionContext.h", "src/util/BatchedPipeline.h"],
     [("Synchronized wrapper and its users", "src/util/Synchronized.h")],
     ["server keeps answering"])

prop("C10", "A result, once shared through the cache, is never modified",
     "A finished result that other queries can reach through the cache is never changed: operations read the results of their inputs and write only to the result they are computing, so repeating a query gives the same answer whatever ran in between.",
     ["histories", "schedules", "programs"], "for all histories of queries sharing cached sub-results",
     "Tests start with an empty cache; an in-place change of a shared input is visible only to a later or concurrent query.",
     ["src/engine/ResultTable.h", "src/engine/Operation.cpp", "src/engine/QueryExecutionContext.h", "src/util/ConcurrentCache.h"],
     [("const access to cached values", "Operation::getResult returns shared_ptr<const ResultTable>")],
     ["repeated queries"])

prop("C11", "Concurrent queries do not disturb each other through shared state",
     "While the server runs, handling a request changes no state shared between requests other than the synchronised result cache and the accounted memory budget: the opened index, its files' read positions, vocabularies, settings and program-wide variables stay as loaded.",
     ["schedules", "histories"], "for all interleavings of requests on the server's worker threads",
     "Unit tests issue one request at a time; interference needs two requests inside the same window.",
     ["src/engine/Server.cpp", "src/index/Index.h", "src/util/File.h", "src/index/Vocabulary.h", "src/index/ExternalVocabulary.cpp"],
     [("positional reads", "src/util/File.h read(..., offset)"), ("const index in the query context", "src/engine/QueryExecutionContext.h")],
     ["results of concurrent queries"])

prop("C12", "Only the shipped web files can be fetched over HTTP",
     "A request path never reaches the file system unless it is one of the fixed set of web interface files; every other path, however encoded, is rejected.",
     ["inputs"], "for all request targets",
     "A test can try some traversal strings, not all.",
     ["src/engine/Server.cpp"],
     [("file whitelist", "src/engine/Server.cpp: process, create404HttpResponse")],
     ["HTTP GET of arbitrary paths"])

prop("C13", "Looking up what is not in the index yields nothing rather than garbage",
     "A search for a value, word, relation or block that is absent - smaller than the first, larger than the last, or in an empty structure - is recognised as absent before its position is used.",
     ["inputs"], "for all keys and all index contents, including empty ones",
     "Tests look up keys that exist or fall in the middle; the end position needs a key beyond the last element or an empty structure.",
     ["src/index/Index.cpp", "src/index/Index.h", "src/index/MetaDataTypes.cpp", "src/index/TextMetaData.cpp", "src/index/Vocabulary.h", "src/index/ExternalVocabulary.cpp", "src/index/IndexMetaDataImpl.h"],
     [("search results compared with the end", "lower_bound/find call sites in src/index and src/engine")],
     ["queries for absent terms"])

prop("C14", "No clause of a query is silently ignored",
     "Everything that can be written in an accepted query takes part in its answer: every recognised clause is stored by the parser, every stored clause is consumed when planning or exporting, and when several clauses of one kind are given each one is applied.",
     ["programs"], "for all accepted queries",
     "Tests parse and plan chosen queries; a clause dropped only in combination with another one is not among them.",
     ["src/parser/SparqlParser.cpp", "src/parser/ParsedQuery.h", "src/parser/ParsedQuery.cpp", "src/engine/QueryPlanner.cpp", "src/engine/Server.cpp"],
     [("parsed representation", "src/parser/ParsedQuery.h"), ("planner consumption", "src/engine/QueryPlanner.cpp")],
     ["query results"])

prop("C15", "The index builder never reports success for an index it could not write",
     "If an input or index file cannot be opened, read or completely written, the builder or server stops with an error; it never goes on as if the file were empty or complete.",
     ["fault_sequences", "inputs"], "for all files used while building or opening an index and all open/read/write failures on them",
     "Tests run on a healthy, non-full disk.",
     ["src/util/File.h", "src/index/Index.cpp", "src/index/Index.Text.cpp", "src/index/Vocabulary.cpp", "src/util/MmapVectorImpl.h", "src/parser/ParallelBuffer.cpp"],
     [("file wrapper", "src/util/File.h"), ("stream checks", "AD_CHECK(is_open()) at stream users")],
     ["exit status of the index builder"])

prop("C16", "Background steps of the index build are finished before their result is used",
     "Every asynchronous step started while building an index is waited for before its output is read, its inputs are changed or destroyed, or a following step that needs it starts, and an error raised in it ends the build.",
     ["schedules", "fault_sequences"], "for all interleavings of the pipeline's threads and all failures in a background step",
     "A missing wait only matters when the background step is slow; tests use tiny inputs.",
     ["src/index/Index.cpp", "src/index/VocabularyGeneratorImpl.h", "src/util/BatchedPipeline.h", "src/parser/ParallelBuffer.cpp", "src/util/BackgroundStxxlSorter.h"],
     [("futures of the pipeline", "std::async call sites")],
     ["the index files"])

prop("C17", "Every ordering used for sorting and searching is a consistent strict order",
     "Every comparison given to a sort, a search, a priority queue or an ordered container says 'not less' for equal elements, never 'less' in both directions, and compares the same positions of both elements in the same significance, so sorted data is really sorted and searches find it.",
     ["inputs"], "for all element values",
     "Tests sort few values; an inconsistent comparison only breaks for ties or particular combinations.",
     ["src/index/StxxlSortFunctors.h", "src/global/Pattern.h", "src/engine/OrderBy.h", "src/engine/Sort.h", "src/index/StringSortComparator.h"],
     [("comparators", "functors and lambdas passed to sort/lower_bound/priority_queue/stxxl")],
     ["order of index files and results"])

prop("C18", "Filter and arithmetic operators do what their symbol says for every type",
     "Each comparison, arithmetic and aggregate operator accepted in a query is carried out as exactly that operator, in the same operand order, for every value type and for both the sorted and the unsorted execution strategy.",
     ["inputs", "programs"], "for all operators x value types x execution strategies",
     "Tests cover some cells of the operator x type x strategy table.",
     ["src/engine/Filter.cpp", "src/engine/Filter.h", "src/engine/Bind.cpp", "src/engine/GroupBy.cpp", "src/parser/SparqlParser.cpp", "src/parser/ParsedQuery.h"],
     [("operator recognition", "src/parser/SparqlParser.cpp: parseFilter"), ("operator execution", "src/engine/Filter.cpp, Bind.cpp, GroupBy.cpp")],
     ["query results"])

prop("C19", "Client output is always well-formed, whatever the stored strings contain",
     "Text that comes from the index or from the client is escaped for the output format before it is put in a response, the announced length of a response is the length of its body, and the body is sent completely.",
     ["inputs"], "for all stored literals, all queries and all result formats",
     "Tests use harmless strings.",
     ["src/engine/Server.cpp", "src/engine/QueryExecutionTree.cpp", "src/util/Socket.h"],
     [("response composition", "src/engine/Server.cpp: compose*, create*HttpResponse"), ("escaping helpers", "src/util/StringUtils.h, src/parser/RdfEscaping.cpp")],
     ["HTTP responses"])

prop("C20", "Every command-line option and stored setting takes effect as announced",
     "Each option announced by the programs is accepted in its short and long form with the same argument, and changes the setting it names; each setting stored with an index is restored under the same name when the index is opened.",
     ["configurations"], "for all options of all programs and all stored settings",
     "The programs' main functions are not tested.",
     ["src/engine/ServerMain.cpp", "src/index/IndexBuilderMain.cpp", "src/engine/SparqlEngineMain.cpp", "src/index/Index.cpp"],
     [("getopt tables", "options[] and getopt_long switch in the *Main.cpp files"), ("configuration file", "src/index/Index.cpp: writeConfiguration/readConfiguration")],
     ["program behaviour"])

prop("C21", "Every column of a result is described correctly",
     "Each operation reports as many columns as its result has, gives each a value type, and maps each visible variable to the column that holds its values; the same mapping is used by the planner, by later operations and by the export.",
     ["programs"], "for all operations in all plan positions",
     "Tests execute chosen plans.",
     ["src/engine/Operation.h", "src/engine/Join.cpp", "src/engine/OptionalJoin.cpp", "src/engine/MultiColumnJoin.cpp", "src/engine/Union.cpp", "src/engine/GroupBy.cpp"],
     [("getResultWidth / getVariableColumns / computeResult", "each class derived from Operation")],
     ["query results"])

prop("C22", "A failing or finished query releases everything it acquired",
     "Memory, file handles and locks acquired for a query or a build step are released on every way out, including errors and time-outs, exactly once.",
     ["fault_sequences", "histories"], "for all exits of every function that acquires a resource",
     "Leaks and double releases on error paths need the error at that point.",
     ["src/engine/Filter.cpp", "src/engine/GroupBy.cpp", "src/index/Index.cpp", "src/util/File.h", "src/util/MmapVectorImpl.h", "src/engine/IdTable.h"],
     [("owners and guards", "RAII classes; raw new/delete/fopen/mmap sites")],
     ["resource usage of a long-running server"])

prop("C23", "Recognised input variants are all handled",
     "Wherever the programs distinguish kinds of things - token kinds, scan kinds, operators, aggregates, value types, output formats - every kind that can occur is handled or rejected with an error, and messages name the right kind.",
     ["inputs", "programs"], "for all values of every kind enumeration at every place that distinguishes them",
     "Tests sample kinds at some of the places.",
     ["src/parser/SparqlLexer.h", "src/parser/SparqlLexer.cpp", "src/engine/IndexScan.cpp", "src/engine/Filter.cpp", "src/engine/GroupBy.cpp", "src/engine/QueryPlanner.cpp"],
     [("enum switches and name tables", "all switch statements and if-chains over enums in src")],
     ["query results, error messages"])

prop("C24", "All triples of the input reach the index exactly once",
     "Every triple delivered by the input parser is carried through batching, id assignment, merging, sorting and writing exactly once, independent of batch and buffer boundaries.",
     ["inputs", "configurations"], "for all input sizes relative to batch, buffer and block sizes",
     "Tests use inputs smaller than one batch.",
     ["src/index/Index.cpp", "src/index/VocabularyGeneratorImpl.h", "src/parser/TurtleParser.cpp", "src/parser/ParallelParseBuffer.h", "src/util/BatchedPipeline.h"],
     [("final partial batches flushed", "loops with buffer-full flush in src/index and src/parser")],
     ["number of triples in the index"])

prop("C30", "Answers equal the SPARQL definition of the query over the loaded triples",
     "For every supported query, the rows delivered are exactly the solutions the SPARQL semantics define over the indexed triples.",
     ["inputs", "programs"], "for all knowledge bases and queries",
     "An end-to-end equality over all data and queries; tests compare samples.",
     ["src/engine", "src/index"], [("whole engine", "src/engine")], ["query results"])

prop("C31", "The chosen plan is never worse than the alternatives it was compared with",
     "Among the plans considered for a query, the one executed has the least estimated cost, and the estimates are finite.",
     ["inputs", "programs"], "for all queries and statistics",
     "Depends on run-time statistics.",
     ["src/engine/QueryPlanner.cpp"], [("plan pruning", "src/engine/QueryPlanner.cpp: findCheapestExecutionTree")], ["chosen plan"])

prop("C32", "Compressed lists decode to exactly the numbers that were encoded",
     "Every list of numbers stored in compressed form is decoded to the same numbers, for all lengths and values the code can represent.",
     ["inputs"], "for all lists",
     "Value-level round trip over all integers.",
     ["src/util/Simple8bCode.h", "src/index/FTSAlgorithms.cpp"], [("Simple8b codec", "src/util/Simple8bCode.h")], ["text search results"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")

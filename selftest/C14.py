P, Q, S, H = "src/parser/SparqlParser.cpp", "src/engine/QueryPlanner.cpp", "src/engine/Server.cpp", "src/parser/ParsedQuery.h"
BUGS = [
    ("having last", Q, "createFilterOperation(filter, filtered)", "createFilterOperation(filter, parent)"),
    ("offset lost", P, "      query->_offset = _lexer.current().raw;\n", ""),
    ("distinct lost", P, "    query->_distinct = true;\n", ""),
    ("group by first", P, "      while (_lexer.accept(SparqlToken::Type::VARIABLE)) {\n        query->_groupByVariables.emplace_back(_lexer.current().raw);\n      }", "      while (_lexer.accept(SparqlToken::Type::VARIABLE)) {\n      }"),
    ("agg distinct lost", P, '    a._isDistinct = true;\n', ''),
    ("separator lost", P, '    a._delimiter = _lexer.current().raw;\n    // Remove the enclosing quotation marks\n    a._delimiter = a._delimiter.substr(1, a._delimiter.size() - 2);\n', ''),
    ("regex flag lost", P, "    f._regexIgnoreCase = true;\n", ""),
    ("no offset in csv", S, "    offset = static_cast<size_t>(atol(query._offset.c_str()));\n  }\n  qet.writeResultToStream(", "  }\n  qet.writeResultToStream("),
    ("minus ignored", Q, "        auto candidates = optimize(&arg._child);\n        for (auto& c : candidates) {\n          c.type = SubtreePlan::MINUS;\n        }\n        joinCandidates(std::move(candidates));", "        LOG(DEBUG) << \"minus\" << std::endl;"),
    ("union twice left", Q, "optimizeSingle(&arg._child2)", "optimizeSingle(&arg._child1)"),
    ("order row early", Q, "  // ORDER BY\n  if (pq._orderBy.size() > 0) {", "  vector<SubtreePlan>& lr = plans.back();\n  auto mi = findCheapestExecutionTree(lr);\n  LOG(TRACE) << mi;\n  if (pq._orderBy.size() > 0) {"),
    ("order first", Q, "getOrderByRow(pq, plans)", "getOrderByRow(pq, {plans[0]})"),
    ("filters late", Q, "    applyFiltersIfPossible(candidatePlans[0], rootPattern->_filters, true);\n", ""),
    ("filters keep", Q, "    applyFiltersIfPossible(candidatePlans[0], rootPattern->_filters, true);\n", "    applyFiltersIfPossible(candidatePlans[0], rootPattern->_filters, false);\n"),
    ("trailing", P, "  _lexer.expectEmpty();\n", ""),
    ("values first var", P, "            values._values.back()[i] = _lexer.current().raw;", "            if (i == 0) values._values.back()[i] = _lexer.current().raw;"),
    ("transpath min", Q, "          min = arg._min;", "          min = 1;"),
    ("having from row", Q, "  const vector<SubtreePlan>& previous = dpTab[dpTab.size() - 1];\n  vector<SubtreePlan> added;\n  added.reserve(previous.size());\n  for (size_t i = 0; i < previous.size(); ++i) {\n    const SubtreePlan& parent = previous[i];\n    SubtreePlan filtered", "  const vector<SubtreePlan>& previous = dpTab[0];\n  vector<SubtreePlan> added;\n  added.reserve(previous.size());\n  for (size_t i = 0; i < previous.size(); ++i) {\n    const SubtreePlan& parent = previous[i];\n    SubtreePlan filtered"),
    ("order second", Q, "if (pq._orderBy.size() == 1 && !pq._orderBy[0]._desc) {", "if (!pq._orderBy[0]._desc) {"),
    ("order one desc", Q, "if (pq._orderBy.size() == 1 && !pq._orderBy[0]._desc) {", "if (pq._orderBy.size() == 1) {"),
]
SAFE = [
    ("local text", P, "      query->_offset = _lexer.current().raw;\n", "      const std::string text = _lexer.current().raw;\n      query->_offset = text;\n"),
    ("back", Q, "  const vector<SubtreePlan>& previous = dpTab[dpTab.size() - 1];", "  const vector<SubtreePlan>& previous = dpTab.back();"),
    ("index loop", Q, "    for (const SparqlFilter& filter : pq._havingClauses) {", "    for (size_t j = 0; j < pq._havingClauses.size(); ++j) {\n      const SparqlFilter& filter = pq._havingClauses[j];"),
    ("move", Q, "      filtered = plan;", "      filtered = std::move(plan);"),
    ("extract", P, "      query->_groupByVariables.emplace_back(_lexer.current().raw);\n      while", "      auto add = [&] { query->_groupByVariables.emplace_back(_lexer.current().raw); };\n      add();\n      while"),
    ("helper var", S, "      const bool pinSubtrees =", "      const auto numAliases = pq0();\n      const bool pinSubtrees =") if False else ("comment", S, "// CSV export", "// The CSV export"),
    ("order one", Q, "    if (pq._orderBy.size() == 1 && !pq._orderBy[0]._desc) {", "    const bool single = pq._orderBy.size() < 2;\n    if (single && !pq._orderBy[0]._desc) {"),
]

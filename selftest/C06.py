P = "src/engine/QueryPlanner.cpp"
JN = """    if (aSortedOn.size() > 0 && aSortedOn[0] == jcs[0][0]) {
      left = a._qet;"""
BUGS = [
    ("join key side", P, "aSortedOn.size() > 0 && aSortedOn[0] == jcs[0][0]) {\n      left", "aSortedOn.size() > 0 && aSortedOn[0] == jcs[0][1]) {\n      left"),
    ("join any position", P, "aSortedOn.size() > 0 && aSortedOn[0] == jcs[0][0]) {\n      left", "aSortedOn.size() > 0 && aSortedOn.back() == jcs[0][0]) {\n      left"),
    ("join other tree", P, JN, JN.replace("left = a._qet", "left = b._qet")),
    ("join sort col", P, "auto sort = std::make_shared<Sort>(_qec, a._qet, jcs[0][0]);", "auto sort = std::make_shared<Sort>(_qec, a._qet, jcs[0][1]);"),
    ("join unsorted", P, JN, JN.replace("aSortedOn[0] == jcs[0][0]", "aSortedOn[0] <= jcs[0][0]")),
    ("two col second", P, "bSortedOn[1] == jcs[(c + 1) % 2][1] &&\n            b._qet", "b._qet"),
    ("two col or", P, "bSortedOn[1] == jcs[(c + 1) % 2][1] &&\n            b._qet->getResultWidth() == 2", "(bSortedOn[1] == jcs[(c + 1) % 2][1] ||\n            b._qet->getResultWidth() == 2)"),
    ("optional size", P, "  bool aSorted = aSortedOn.size() >= jcs.size();", "  bool aSorted = aSortedOn.size() > 0;"),
    ("optional last", P, "  for (size_t i = 0; aSorted && i < jcs.size(); i++) {\n    aSorted = aSorted && jcs[i][0] == aSortedOn[i];", "  for (size_t i = 0; i < jcs.size(); i++) {\n    aSorted = jcs[i][0] == aSortedOn[i];"),
    ("optional crossed", P, "bSorted = bSorted && jcs[i][1] == bSortedOn[i];", "bSorted = bSorted && jcs[i][0] == bSortedOn[i];"),
    ("optional from one", P, "  for (size_t i = 0; aSorted && i < jcs.size(); i++) {", "  for (size_t i = 1; aSorted && i < jcs.size(); i++) {"),
    ("sort indices crossed", P, "    sortIndicesB.push_back(std::make_pair(jc[1], false));", "    sortIndicesB.push_back(std::make_pair(jc[0], false));"),
    ("sort descending", P, "    sortIndicesB.push_back(std::make_pair(jc[1], false));", "    sortIndicesB.push_back(std::make_pair(jc[1], true));"),
    ("order by on a", P, "  auto orderByB = std::make_shared<OrderBy>(_qec, b._qet, sortIndicesB);", "  auto orderByB = std::make_shared<OrderBy>(_qec, b._qet, sortIndicesA);"),
    ("wrong flag", P, "a.type == SubtreePlan::OPTIONAL, bSorted ? b._qet : orderByPlanB._qet,", "a.type == SubtreePlan::OPTIONAL, aSorted ? b._qet : orderByPlanB._qet,"),
    ("distinct no size", P, "bool isSorted = resultSortedOn.size() >= keepIndices.size();", "bool isSorted = resultSortedOn.size() > 0;"),
    ("distinct set", P, "isSorted = isSorted && resultSortedOn[i] == keepIndices[i];", "isSorted = isSorted || resultSortedOn[i] == keepIndices[i];"),
    ("distinct first", P, "if (keepIndices.size() == 1) {\n        auto tree", "if (keepIndices.size() <= 2) {\n        auto tree"),
    ("group unsorted", P, "    groupBy->setSubtree(parent->_qet);", "    groupBy->setSubtree(previous[i]._qet);"),
    ("group last", P, "for (size_t i = 0; inputSorted && i < sortColumns.size(); i++) {", "for (size_t i = 0; i < sortColumns.size(); i++) {"),
    ("order desc", P, "alreadySorted = alreadySorted && !sortIndices[i].second &&\n                        sortIndices[i].first", "alreadySorted = alreadySorted && sortIndices[i].first"),
    ("order skip", P, "if (previousSortedOn.size() > 0 && col == previousSortedOn[0]) {", "if (previousSortedOn.size() > 0) {"),
    ("pattern skip", P, "resultSortedOn.size() > 0 && resultSortedOn[0] == subjectColumn;", "resultSortedOn.size() > 0;"),
    ("order by declares", "src/engine/OrderBy.cpp", "      break;\n    }\n    sortedOn.push_back(p.first);", "      continue;\n    }\n    sortedOn.push_back(p.first);"),
    ("optional declares right", "src/engine/OptionalJoin.cpp", "sortedOn.push_back(a[0]);", "sortedOn.push_back(a[1]);"),
    ("join declares", "src/engine/Join.cpp", "    return {2 + _rightJoinCol};", "    return {_rightJoinCol};"),
    ("union declares", "src/engine/Union.cpp", "vector<size_t> Union::resultSortedOn() const { return {}; }", "vector<size_t> Union::resultSortedOn() const { return _subtrees[0]->resultSortedOn(); }"),
    ("path declares", "src/engine/TransitivePath.cpp", "if (rightSortedOn.size() > 0 && rightSortedOn[0] == _rightSideCol) {", "if (rightSortedOn.size() > 0) {"),
    ("path unbound", "src/engine/TransitivePath.cpp", "_leftSideTree == nullptr && _rightSideTree == nullptr && _leftIsVar &&", "_leftSideTree == nullptr && _leftIsVar &&"),
    ("stale order", "src/engine/TransitivePath.cpp", "  p->setResultSortedOn(p->resultSortedOn());\n", ""),
    ("no size test", "src/engine/TransitivePath.cpp", "leftSortedOn.size() > 0 && leftSortedOn[0]", "leftSortedOn[0]"),
    ("swap trees only", "src/engine/Join.cpp", "    std::swap(t1JoinCol, t2JoinCol);\n", ""),
]
SAFE = [
    ("empty", P, "aSortedOn.size() > 0 && aSortedOn[0] == jcs[0][0]) {\n      left", "!aSortedOn.empty() && jcs[0][0] == aSortedOn.front()) {\n      left"),
    ("flag", P, "    if (aSortedOn.size() > 0 && aSortedOn[0] == jcs[0][0]) {\n      left", "    const bool leftIsSorted =\n        aSortedOn.size() > 0 && aSortedOn[0] == jcs[0][0];\n    if (leftIsSorted) {\n      left"),
    ("inverted", P, "  for (size_t i = 0; aSorted && i < jcs.size(); i++) {\n    aSorted = aSorted && jcs[i][0] == aSortedOn[i];\n  }", "  for (size_t i = 0; aSorted && i < jcs.size(); i++) {\n    if (jcs[i][0] != aSortedOn[i]) {\n      aSorted = false;\n    }\n  }"),
    ("break", P, "  for (size_t i = 0; aSorted && i < jcs.size(); i++) {\n    aSorted = aSorted && jcs[i][0] == aSortedOn[i];\n  }", "  if (aSorted) {\n    for (size_t i = 0; i < jcs.size(); i++) {\n      if (aSortedOn[i] != jcs[i][0]) {\n        aSorted = false;\n        break;\n      }\n    }\n  }"),
    ("while", P, "  for (size_t i = 0; aSorted && i < jcs.size(); i++) {\n    aSorted = aSorted && jcs[i][0] == aSortedOn[i];\n  }", "  size_t pos = 0;\n  while (aSorted && pos < jcs.size()) {\n    aSorted = jcs[pos][0] == aSortedOn[pos];\n    ++pos;\n  }"),
    ("index loop", P, "  for (array<Id, 2>& jc : jcs) {\n    sortIndicesA.push_back(std::make_pair(jc[0], false));\n    sortIndicesB.push_back(std::make_pair(jc[1], false));\n  }", "  for (size_t k = 0; k < jcs.size(); ++k) {\n    sortIndicesA.emplace_back(jcs[k][0], false);\n    sortIndicesB.emplace_back(jcs[k][1], false);\n  }"),
    ("helper predicate", [(P, """  bool aSorted = aSortedOn.size() >= jcs.size();
  // TODO: We could probably also accept permutations of the join columns
  // as the order of a here and then permute the join columns to match the
  // sorted columns of a or b (whichever is larger).
  for (size_t i = 0; aSorted && i < jcs.size(); i++) {
    aSorted = aSorted && jcs[i][0] == aSortedOn[i];
  }
""", "  const bool aSorted = isSortedOn(aSortedOn, jcs, 0);\n"),
      (P, "// _____________________________________________________________________________\nQueryPlanner::SubtreePlan QueryPlanner::optionalJoin(", """static bool isSortedOn(const vector<size_t>& order, const std::vector<std::array<Id, 2>>& cols, size_t side) {
  if (order.size() < cols.size()) {
    return false;
  }
  for (size_t i = 0; i < cols.size(); i++) {
    if (cols[i][side] != order[i]) {
      return false;
    }
  }
  return true;
}
QueryPlanner::SubtreePlan QueryPlanner::optionalJoin(""")]),
    ("helper sort", [(P, """      auto sort = std::make_shared<Sort>(_qec, a._qet, jcs[0][0]);
      left->setVariableColumns(a._qet->getVariableColumns());
      left->setContextVars(a._qet->getContextVars());
      left->setOperation(QueryExecutionTree::SORT, sort);
""", "      left = sortedBy(_qec, a._qet, jcs[0][0]);\n"),
      (P, "// _____________________________________________________________________________\nstd::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(", """static std::shared_ptr<QueryExecutionTree> sortedBy(QueryExecutionContext* qec, const std::shared_ptr<QueryExecutionTree>& t, size_t col) {
  auto res = std::make_shared<QueryExecutionTree>(qec);
  auto sort = std::make_shared<Sort>(qec, t, col);
  res->setVariableColumns(t->getVariableColumns());
  res->setContextVars(t->getContextVars());
  res->setOperation(QueryExecutionTree::SORT, sort);
  return res;
}
std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(""")]),
    ("join col locals", P, "    const vector<size_t>& aSortedOn = a._qet->resultSortedOn();\n    if (aSortedOn.size() > 0 && aSortedOn[0] == jcs[0][0]) {", "    const size_t leftCol = jcs[0][0];\n    const vector<size_t>& aSortedOn = a._qet->resultSortedOn();\n    if (aSortedOn.size() > 0 && aSortedOn[0] == leftCol) {"),
    ("order by loop", "src/engine/OrderBy.cpp", "  for (const pair<size_t, bool>& p : _sortIndices) {\n    if (p.second) {\n      // Only ascending columns count as sorted. The columns that follow a\n      // descending column are only sorted where that column has equal values.\n      break;\n    }\n    sortedOn.push_back(p.first);\n  }", "  for (size_t i = 0; i < _sortIndices.size() && !_sortIndices[i].second; ++i) {\n    sortedOn.push_back(_sortIndices[i].first);\n  }"),
    ("join declared", "src/engine/Join.cpp", "  if (!isFullScanDummy(_left)) {\n    return {_leftJoinCol};\n  } else {\n    return {2 + _rightJoinCol};\n  }", "  const bool dummy = isFullScanDummy(_left);\n  return dummy ? std::vector<size_t>{_rightJoinCol + 2} : std::vector<size_t>{_leftJoinCol};"),
    ("emplace", "src/engine/MultiColumnJoin.cpp", "  for (const auto& a : _joinColumns) {\n    sortedOn.push_back(a[0]);\n  }", "  for (size_t i = 0; i < _joinColumns.size(); i++) {\n    const size_t leftCol = _joinColumns[i][0];\n    sortedOn.emplace_back(leftCol);\n  }"),
    ("guard order", P, "if (previousSortedOn.size() > 0 && col == previousSortedOn[0]) {\n        // Already sorted perfectly\n        added.push_back(previous[i]);\n      } else {", "const bool needsSort = previousSortedOn.empty() || col != previousSortedOn[0];\n      if (!needsSort) {\n        added.push_back(previous[i]);\n      } else {"),
    ("distinct always", P, "      if (keepIndices.size() == 1) {\n        auto tree", "      const bool one = keepIndices.size() == 1;\n      if (one) {\n        auto tree"),
]

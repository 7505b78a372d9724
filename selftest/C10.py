BUGS = [
    ("sort in place", [("src/engine/Sort.cpp", "  result->_data.insert(result->_data.end(), subRes->_data.begin(),\n                       subRes->_data.end());", "  auto& input = const_cast<ResultTable&>(*subRes)._data;\n  Engine::sort<0>(&input, _sortCol);\n  result->_data.insert(result->_data.end(), subRes->_data.begin(),\n                       subRes->_data.end());")]),
    ("steal rows", [("src/engine/Distinct.cpp", "  int width = subRes->_data.cols();\n", "  auto sub = std::const_pointer_cast<ResultTable>(subRes);\n  sub->_data.clear();\n  int width = subRes->_data.cols();\n")]),
    ("vocab grows", [("src/engine/Bind.cpp", "  int inwidth = subRes->_data.cols();\n", "  int inwidth = subRes->_data.cols();\n  result->_localVocab->push_back(_bind._target);\n")]),
    ("types of the input", [("src/engine/QueryExecutionTree.cpp", "    _cachedResult = res->_resultTable;\n", "    _cachedResult = res->_resultTable;\n    res->_resultTable->_sortedBy = resultSortedOn();\n")]),
    ("after storing", [("src/engine/Operation.cpp", "    createRuntimeInformation(result, timer.msecs());\n", "    createRuntimeInformation(result, timer.msecs());\n    result._resultPointer->_resultTable->_sortedBy = getResultSortedOn();\n")]),
    ("mutable sorted", [("src/engine/ResultTable.h", "  vector<size_t> _sortedBy;", "  mutable vector<size_t> _sortedBy;"), ("src/engine/Sort.cpp", "  LOG(DEBUG) << \"Sort result computation...\" << endl;\n", "  LOG(DEBUG) << \"Sort result computation...\" << endl;\n  subRes->_sortedBy = resultSortedOn();\n")]),
    ("move rows", [("src/engine/OrderBy.cpp", "  result->_localVocab = subRes->_localVocab;\n", "  result->_localVocab = subRes->_localVocab;\n  result->_data = std::move(const_cast<ResultTable*>(subRes.get())->_data);\n")]),
    ("helper writes", [("src/engine/Sort.cpp", "void Sort::computeResult(ResultTable* result) {", "static void tidy(const ResultTable& t) {\n  auto& w = const_cast<IdTable&>(t._data);\n  w.clear();\n}\nvoid Sort::computeResult(ResultTable* result) {"), ("src/engine/Sort.cpp", "  LOG(DEBUG) << \"Sort result computation...\" << endl;\n", "  LOG(DEBUG) << \"Sort result computation...\" << endl;\n  if (subRes->size() == 1) tidy(*subRes);\n")]),
    ("view writable", [("src/engine/IdTable.h", "  template <bool ManagesStorage = DATA::ManagesStorage,\n            typename = std::enable_if_t<ManagesStorage>>\n  Id& operator()(size_t row, size_t col) {", "  Id& operator()(size_t row, size_t col) {")]),
    ("vocab shared", [("src/engine/GroupBy.cpp", "  std::shared_ptr<const ResultTable> subresult = _subtree->getResult();\n", "  std::shared_ptr<const ResultTable> subresult = _subtree->getResult();\n  result->_localVocab = subresult->_localVocab;\n")]),
]
SAFE = [
    ("copy vocab", [("src/engine/Bind.cpp", "  result->_localVocab = subRes->_localVocab;\n", "  result->_localVocab = std::make_shared<std::vector<std::string>>(*subRes->_localVocab);\n")]),
    ("copy then sort", [("src/engine/Sort.cpp", "  result->_sortedBy = resultSortedOn();\n", "  IdTable copy = subRes->_data;\n  if (copy.size() > 1) Engine::sort<0>(&copy, _sortCol);\n  result->_sortedBy = resultSortedOn();\n")]),
    ("reference", [("src/engine/Distinct.cpp", "  int width = subRes->_data.cols();\n", "  const ResultTable& sub = *subRes;\n  int width = sub._data.cols();\n")]),
    ("helper result", [("src/engine/Distinct.cpp", "void Distinct::computeResult(ResultTable* result) {", "static void describe(ResultTable& r, const ResultTable& in) {\n  r._localVocab = in._localVocab;\n}\nvoid Distinct::computeResult(ResultTable* result) {"), ("src/engine/Distinct.cpp", "  result->_localVocab = subRes->_localVocab;\n", "  describe(*result, *subRes);\n")]),
    ("local table", [("src/engine/Operation.cpp", "      computeResult(val._resultTable.get());\n", "      ResultTable* table = val._resultTable.get();\n      computeResult(table);\n")]),
]

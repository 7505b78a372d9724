"""Edits for testing the check of orderings: (name, [(file, old, new)])."""
SF = "src/index/StxxlSortFunctors.h"
PSO = "    if (a[1] == b[1]) {\n      if (a[0] == b[0]) {\n        return a[2] < b[2];\n      }\n      return a[0] < b[0];\n    }\n    return a[1] < b[1];\n"
BUGS = [
    ("le", [(SF, PSO, PSO.replace("a[2] < b[2]", "a[2] <= b[2]"))]),
    ("mixed positions", [(SF, PSO, PSO.replace("a[2] < b[2]", "a[2] < b[0]"))]),
    ("wrong tie", [(SF, PSO, PSO.replace("      return a[0] < b[0];", "      return a[1] < b[1];"))]),
    ("and instead", [(SF, PSO, "    return a[1] < b[1] || a[0] < b[0] || a[2] < b[2];\n")]),
    ("and all", [(SF, PSO, "    return a[1] < b[1] || (a[1] <= b[1] && a[0] < b[0]) || (a[0] <= b[0] && a[2] < b[2]);\n")]),
    ("bool key", [(SF, "        return !std::get<4>(a);\n", "        return !std::get<4>(b);\n"), (SF, "      if (std::get<4>(a) == std::get<4>(b)) {", "      if (std::get<4>(a) || std::get<4>(b)) {")]),
    ("order by both", [("src/engine/OrderBy.cpp", "                        if (a[entry.first] > b[entry.first]) {\n                          return entry.second;\n                        }\n", "")]),
    ("order by le", [("src/engine/OrderBy.cpp", "                      return a[0] < b[0];", "                      return a[0] <= b[0];")]),
    ("desc ties", [("src/engine/OrderBy.cpp", "                        if (a[entry.first] < b[entry.first]) {\n                          return !entry.second;\n                        }\n                        if (a[entry.first] > b[entry.first]) {\n                          return entry.second;\n                        }\n", "                        if (a[entry.first] != b[entry.first] || entry.second) {\n                          return entry.second != (a[entry.first] < b[entry.first]);\n                        }\n")]),
    ("search le", [("src/index/Index.cpp", "[](const array<Id, 2>& elem, Id key) { return elem[0] < key; }", "[](const array<Id, 2>& elem, Id key) { return elem[0] <= key; }")]),
    ("search down", [("src/index/MetaDataTypes.cpp", "  auto it = std::lower_bound(\n      _blocks.begin(), _blocks.end(), lhs,\n      [](const BlockMetaData& a, Id lhs) { return a._firstLhs < lhs; });\n\n  // Go back one block unless perfect lhs match.\n  if (it == _blocks.end() || it->_firstLhs > lhs) {\n    // if we already are at the first block this means that we\n    // will have an empty result since the first\n    // entry is already too big. In this case our result will\n    // be empty and we can perform a short cut.\n", "  auto it = std::lower_bound(\n      _blocks.begin(), _blocks.end(), lhs,\n      [](const BlockMetaData& a, Id lhs) { return a._firstLhs > lhs; });\n\n  // Go back one block unless perfect lhs match.\n  if (it == _blocks.end() || it->_firstLhs > lhs) {\n    // if we already are at the first block this means that we\n    // will have an empty result since the first\n    // entry is already too big. In this case our result will\n    // be empty and we can perform a short cut.\n")]),
    ("top k", [("src/index/FTSAlgorithms.cpp", "return scores[a] > scores[b]; }", "return scores[a] >= scores[b]; }")]),
    ("agg rows", [("src/index/FTSAlgorithms.cpp", "                  if (l[i] == r[i]) continue;\n                  return l[i] < r[i];\n", "                  if (l[i] < r[i]) return true;\n")]),
    ("queue", [("src/util/PriorityQueue.h", "      return comp(b.mScore, a.mScore);", "      return !comp(a.mScore, b.mScore);")]),
    ("patterns", [("src/index/Index.cpp", "(first.second == second.second && first.first > second.first);", "first.first > second.first;")]),
    ("pattern lt", [("src/global/Pattern.h", "    return _data[0] > other._data[0];", "    return _data[0] >= other._data[0];")]),
    ("langtag", [("src/index/StringSortComparator.h", "    if (int res = a.langtag.compare(b.langtag); res != 0) {\n      return res;\n    }\n", "    if (int res = a.langtag.compare(b.langtag); res < 0) {\n      return res;\n    }\n")]),
    ("langtag level", [("src/index/StringSortComparator.h", "    return a.transformedVal.compare(b.transformedVal);\n  }\n\n  /**\n   *\n   * @brief Transform", "    return a.transformedVal.compare(b.langtag);\n  }\n\n  /**\n   *\n   * @brief Transform"), ("src/index/StringSortComparator.h", "    [[nodiscard]] int compare(const SortKey& rhs) const {", "    [[nodiscard]] int compare(const std::string& rhs) const { return _content.compare(rhs); }\n    [[nodiscard]] int compare(const SortKey& rhs) const {")]),
    ("datatype", [("src/index/StringSortComparator.h", "        res != 0) {\n      return res;  // different data types", "        res > 0) {\n      return res;  // different data types")]),
    ("less only", [("src/index/StringSortComparator.h", "      case UCOL_EQUAL:\n        return 0;", "      case UCOL_EQUAL:\n        return -1;")]),
    ("merge level", [("src/index/Index.cpp", "      return (*cmp)(a, b, decltype(_vocab)::SortLevel::TOTAL);", "      return (*cmp)(a, b, decltype(_vocab)::SortLevel::QUARTERNARY);")]),
    ("partial level", [("src/index/Index.cpp", "      return c(a.second.m_splitVal, b.second.m_splitVal,\n               decltype(_vocab)::SortLevel::TOTAL);", "      return c(a.second.m_splitVal, b.second.m_splitVal,\n               decltype(_vocab)::SortLevel::IDENTICAL);")]),
    ("sentinel", [(SF, "struct SortByOPS {", "struct SortByOPS {\n  static array<Id, 3> limit_value() { return {{0, 0, 0}}; }"), (SF, "    return tuple<Id, Id, Id, Score, bool>{max, max, max, maxScore, true};", "    return tuple<Id, Id, Id, Score, bool>{max, max, max, maxScore, false};")]),
    ("buffer", [("src/index/Index.cpp", "return a[0] == b[0] ? a[1] < b[1] : a[0] < b[0];", "return a[0] == b[0] ? a[1] < b[1] : a[1] < b[1];")]),
    ("prefix ranges", [("src/engine/Filter.cpp", "[](const auto& a, const auto& b) { return a.first < b.first; });", "[](const auto& a, const auto& b) { return a.first < b.second; });")]),
    ("swap merge", [("src/index/VocabularyGeneratorImpl.h", "    return comp(p2._value, p1._value);", "    return !comp(p1._value, p2._value);")]),
]
SAFE = [
    ("tie", [(SF, PSO, "    return std::tie(a[1], a[0], a[2]) < std::tie(b[1], b[0], b[2]);\n")]),
    ("ne chain", [(SF, PSO, "    if (a[1] != b[1]) return a[1] < b[1];\n    if (a[0] != b[0]) return b[0] > a[0];\n    return a[2] < b[2];\n")]),
    ("loop", [(SF, PSO, "    for (size_t i : {1, 0, 2}) {\n      if (a[i] != b[i]) return a[i] < b[i];\n    }\n    return false;\n")]),
    ("ternary", [(SF, PSO, "    return a[1] == b[1] ? (a[0] == b[0] ? a[2] < b[2] : a[0] < b[0]) : a[1] < b[1];\n")]),
    ("or chain", [(SF, PSO, "    return a[1] < b[1] || (a[1] == b[1] && (a[0] < b[0] || (a[0] == b[0] && a[2] < b[2])));\n")]),
    ("helper", [(SF, "struct SortByPSO {", "static inline bool lessAt(const array<Id, 3>& a, const array<Id, 3>& b, size_t i,\n                         size_t j, size_t k) {\n  if (a[i] != b[i]) return a[i] < b[i];\n  if (a[j] != b[j]) return a[j] < b[j];\n  return a[k] < b[k];\n}\n\nstruct SortByPSO {"), (SF, PSO, "    return lessAt(a, b, 1, 0, 2);\n")]),
    ("bool compare", [(SF, "        return !std::get<4>(a);\n", "        return std::get<4>(a) < std::get<4>(b);\n")]),
    ("named", [("src/index/Index.cpp", "  auto it = std::lower_bound(\n      block.begin(), block.end(), lhsId,\n      [](const array<Id, 2>& elem, Id key) { return elem[0] < key; });", "  auto before = [](const array<Id, 2>& elem, Id key) { return key > elem[0]; };\n  auto it = std::lower_bound(block.begin(), block.end(), lhsId, before);")]),
    ("order by ne", [("src/engine/OrderBy.cpp", "                        if (a[entry.first] < b[entry.first]) {\n                          return !entry.second;\n                        }\n                        if (a[entry.first] > b[entry.first]) {\n                          return entry.second;\n                        }\n", "                        const auto x = a[entry.first];\n                        const auto y = b[entry.first];\n                        if (x == y) continue;\n                        return (x < y) != entry.second;\n")]),
    ("comp sign", [("src/index/StringSortComparator.h", "    if (int res = a.langtag.compare(b.langtag); res != 0) {\n      return res;\n    }\n", "    const int res = a.langtag.compare(b.langtag);\n    if (res != 0) {\n      return res < 0 ? -1 : 1;\n    }\n")]),
    ("pair", [("src/index/Index.cpp", "    return first.second > second.second ||\n           (first.second == second.second && first.first > second.first);", "    if (first.second == second.second) {\n      return first.first > second.first;\n    }\n    return first.second > second.second;")]),
]

I, T, M, V, E = "src/index/Index.cpp", "src/index/Index.Text.cpp", "src/index/MetaDataTypes.cpp", "src/index/Vocabulary.cpp", "src/index/ExternalVocabulary.cpp"
TM, H, X = "src/index/TextMetaData.cpp", "src/engine/HasPredicateScan.cpp", "src/index/Index.h"
BUGS = [
    ("unbound json", "src/engine/QueryExecutionTree.cpp", "      if (!opt || data(i, opt->first) == ID_NO_VALUE) {", "      if (!opt) {"),
    ("unbound tsv", "src/engine/QueryExecutionTree.cpp", "      if (validIndices[j] && data(i, validIndices[j]->first) != ID_NO_VALUE) {", "      if (validIndices[j]) {"),
    ("unbound or", "src/engine/QueryExecutionTree.cpp", "      if (validIndices[j] && data(i, validIndices[j]->first) != ID_NO_VALUE) {", "      if (validIndices[j] || data(i, validIndices[j]->first) != ID_NO_VALUE) {"),
    ("scan end", I, "if (it != block.end() && (*it)[0] == lhsId)", "if ((*it)[0] == lhsId)"),
    ("scan equal", I, "if (it != block.end() && it->first == lhsId)", "if (it != block.end())"),
    ("rhs end", T, "while (it != in.end() && (*it)[0] == lhsId)", "while ((*it)[0] == lhsId)"),
    ("rhs equal", T, "while (it != in.end() && (*it)[0] == lhsId)", "while (it != in.end())"),
    ("block end", M, "if (it == _blocks.end() || it->_firstLhs > lhs)", "if (it->_firstLhs > lhs)"),
    ("block begin", M, "    if (it == _blocks.begin()) {\n      // Empty result: scan 0 bytes from a valid start index.\n      return {it->_startOffset, 0};\n    }\n\n    it--;", "    it--;"),
    ("id equal", V, "return *id < _words.size() && at(*id) == word;", "return *id < _words.size();"),
    ("id size", V, "return *id < _words.size() && at(*id) == word;", "return at(*id) == word;"),
    ("ext size", "src/index/ExternalVocabulary.h", "return *id < _size && (*this)[*id] == word;", "return (*this)[*id] == word;"),
    ("halves", E, "lower = i + 1;", "lower = i;"),
    ("values unknown", "src/engine/Values.cpp", "        goto skipRow;\n", ""),
    ("scan unknown", X, "if (_vocab.getId(keyFirst, &relId) && _vocab.getId(keySecond, &subjId)) {", "if (_vocab.getId(keyFirst, &relId) || _vocab.getId(keySecond, &subjId)) {"),
    ("no relation", X, "      if (p._meta.relationExists(relId)) {\n        auto rmd", "      {\n        auto rmd"),
    ("card no relation", I, "    if (this->_SPO.metaData().relationExists(relId)) {\n      return this->_SPO", "    if (this->_PSO.metaData().relationExists(relId)) {\n      return this->_SPO"),
    ("entity text", T, "  if (entityTerm && !_textMeta.existsTextBlockForEntityId(idRange._first)) {\n    LOG(INFO)", "  if (entityTerm && _textMeta.existsTextBlockForEntityId(idRange._first)) {\n    LOG(INFO)"),
    ("has pattern size", H, "if (subjectId < hasPattern.size() && hasPattern[subjectId] != NO_PATTERN)", "if (hasPattern[subjectId] != NO_PATTERN)"),
    ("trans end", "src/engine/TransitivePath.cpp", "      MapIt it = edges.find(l);\n      if (it == edges.end()) {\n        continue;\n      }", "      MapIt it = edges.find(l);"),
    ("bind unknown", "src/engine/Bind.cpp", "        throw std::runtime_error(\"BIND constant \" + ptr->_kbValue +\n                                 \" is not part of the knowledge base. This is \"\n                                 \"currently unsupported\");", "        LOG(WARN) << \"unknown\" << std::endl;"),
    ("words size", V, "  if (id < _words.size()) {\n    return _words[static_cast<size_t>(id)];", "  if (id <= _words.size()) {\n    return _words[static_cast<size_t>(id)];"),
]
SAFE = [
    ("unbound named", "src/engine/QueryExecutionTree.cpp", "      if (!opt || data(i, opt->first) == ID_NO_VALUE) {", "      const bool missing = !opt || data(i, opt->first) == ID_NO_VALUE;\n      if (missing) {"),
    ("unbound lambda", "src/engine/QueryExecutionTree.cpp", "      if (!opt || data(i, opt->first) == ID_NO_VALUE) {", "      auto missing = [&data, i](size_t c) { return data(i, c) == ID_NO_VALUE; };\n      if (!opt || missing(opt->first)) {"),
    ("early out", I, "  if (it != block.end() && (*it)[0] == lhsId) {\n    result->push_back({(*it)[1]});\n  }\n", "  if (it == block.end()) {\n    return;\n  }\n  if ((*it)[0] != lhsId) {\n    return;\n  }\n  result->push_back({(*it)[1]});\n"),
    ("named end", T, "  while (it != in.end() && (*it)[0] == lhsId) {", "  const auto last = in.end();\n  while (it != last && (*it)[0] == lhsId) {"),
    ("flag", "src/engine/HasPredicateScan.cpp", "      if (!getIndex().getVocab().getId(_object, &objectId)) {", "      const bool known = getIndex().getVocab().getId(_object, &objectId);\n      if (!known) {"),
    ("halves", E, "Id i = (lower + upper) / 2;", "Id i = lower + (upper - lower) / 2;"),
    ("nested if", X, "    if (_vocab.getId(key, &keyId) && p._meta.relationExists(keyId)) {\n      auto rmd", "    const bool have = _vocab.getId(key, &keyId) && p._meta.relationExists(keyId);\n    if (have) {\n      auto rmd"),
    ("if chain", V, "    return *id < _words.size() && at(*id) == word;", "    if (*id >= _words.size()) {\n      return false;\n    }\n    return at(*id) == word;"),
    ("helper", [("src/index/ExternalVocabulary.h", "    return *id < _size && (*this)[*id] == word;\n  }", "    return isAt(*id, word);\n  }\n  bool isAt(Id i, const string& w) const { return i < _size && (*this)[i] == w; }")]),
    ("nested relation", I, "  if (_vocab.getId(sub, &relId)) {\n    if (this->_SPO.metaData().relationExists(relId)) {\n      return this->_SPO.metaData().getRmd(relId).getNofElements();\n    }\n  }\n  return 0;", "  if (!_vocab.getId(sub, &relId)) return 0;\n  const auto& meta = this->_SPO.metaData();\n  if (!meta.relationExists(relId)) return 0;\n  return meta.getRmd(relId).getNofElements();"),
]
BUGS += [
    ("clamp", "src/engine/Filter.cpp", "        // everything but the words up to and including the last equal one\n        rhs = 0;\n        rhs_upper_for_range =\n            getIndex().getVocab().upper_bound(rhs_string, level);\n        apply_range_filter = true;\n        range_filter_inverse = true;", "        rhs = getIndex().getVocab().getValueIdForGT(rhs_string, level);"),
    ("wrap", E, "upper = i;", "upper = i - 1;"),
    ("loop end", "src/util/Random.h", "i < _shuffleTable.size()", "i <= _shuffleTable.size()"),
    ("prefix result", T, "      if (!_textVocab.getIdRangeForFullTextPrefix(terms[i], &range)) {\n        LOG(DEBUG)", "      if (_textVocab.getIdRangeForFullTextPrefix(terms[i], &range)) {\n        LOG(DEBUG)"),
]

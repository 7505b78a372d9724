
I, S, Q, X, H = "src/index/Index.cpp", "src/engine/IndexScan.cpp", "src/engine/QueryPlanner.cpp", "src/index/StxxlSortFunctors.h", "src/index/Index.h"
OPS = "  idx.scan(_object, &result->_data, idx._OPS, _timeoutTimer);"
COL = """    case OSP_FREE_S:
    case FULL_INDEX_SCAN_OSP:
      if (_object[0] == '?') {
        res[_object] = col++;
      }

      if (_subject[0] == '?') {
        res[_subject] = col++;
      }

      if (_predicate[0] == '?') {
        res[_predicate] = col++;
      }
      return res;"""
BUGS = [
    ("wrong order", S, OPS, "  idx.scan(_object, &result->_data, idx._OSP, _timeoutTimer);"),
    ("wrong key", S, "  idx.scan(_subject, &result->_data, idx._SOP, _timeoutTimer);", "  idx.scan(_object, &result->_data, idx._SOP, _timeoutTimer);"),
    ("keys exchanged", S, "idx.scan(_subject, _object, &result->_data, idx._SOP);", "idx.scan(_object, _subject, &result->_data, idx._SOP);"),
    ("columns exchanged", S, COL, COL.replace("_subject", "_tmp").replace("_predicate", "_subject").replace("_tmp", "_predicate")),
    ("multiplicities", S, "idx.getMultiplicities(_object, idx._OPS);", "idx.getMultiplicities(_object, idx._OSP);"),
    ("full multiplicities", S, "idx.getMultiplicities(idx._POS);", "idx.getMultiplicities(idx._PSO);"),
    ("size", S, 'sizeEstimate("", "", _object)', 'sizeEstimate(_object, "", "")'),
    ("width", S, "    case SOP_BOUND_O:\n      return 1;\n    case PSO_FREE_S:", "      return 1;\n    case SOP_BOUND_O:\n    case PSO_FREE_S:"),
    ("key order", H, '".osp", {2, 0, 1}', '".osp", {2, 1, 0}'),
    ("suffix", H, '"OPS", ".ops"', '"OPS", ".osp"'),
    ("pair", I, "(&vocabData, _OSP, _OPS);", "(&vocabData, _OPS, _OSP);\n  createPermutationPair<IndexMetaDataMmapDispatcher>(&vocabData, _OSP, _SOP);"),
    ("comparator", X, """    if (a[2] == b[2]) {
      if (a[0] == b[0]) {
        return a[1] < b[1];
      }
      return a[0] < b[0];""", """    if (a[2] == b[2]) {
      if (a[1] == b[1]) {
        return a[1] < b[1];
      }
      return a[0] < b[0];"""),
    ("full scan", "src/engine/Join.cpp", "scanMethod = scanLambda(idx._OPS);", "scanMethod = scanLambda(idx._OSP);"),
    ("seed column", Q, """              tree.setVariableColumn(node._triple._o, 0);
              tree.setVariableColumn(node._triple._p._iri, 1);""", """              tree.setVariableColumn(node._triple._p._iri, 0);
              tree.setVariableColumn(node._triple._o, 1);"""),
    ("seed setter", Q, """                _qec, IndexScan::ScanType::SOP_BOUND_O);
            scan->setSubject(node._triple._s);
            scan->setPredicate(node._triple._p._iri);
            scan->setObject(node._triple._o);""", """                _qec, IndexScan::ScanType::SOP_BOUND_O);
            scan->setSubject(node._triple._o);
            scan->setPredicate(node._triple._p._iri);
            scan->setObject(node._triple._s);"""),
    ("cardinality", I, "    return objectCardinality(obj);", "    return subjectCardinality(obj);"),
    ("meta files", I, "metaData.value().first.appendToFile(&f1);", "metaData.value().second.appendToFile(&f1);"),
    ("pairs", I, "{{(*reader)[c1], (*reader)[c2]}}", "{{(*reader)[c2], (*reader)[c1]}}"),
    ("offset", I, "writeSwitchedRel(&out2, lastOffset2, currentRel, &buffer);\n      metaData2", "writeSwitchedRel(&out2, lastOffset1, currentRel, &buffer);\n      metaData2"),
    ("switched sort", I, "return a[0] == b[0] ? a[1] < b[1] : a[0] < b[0];", "return a[0] < b[0];"),
    ("no unique", I, "_PSO, _POS,\n                                                     true);", "_PSO, _POS);"),
    ("unique late", I, "  stxxl::sort(begin(*vec), end(*vec), p1._comp, STXXL_MEMORY_TO_USE);\n  LOG(INFO) << \"Sort done.\" << std::endl;\n", "", ),
]
SAFE = [
    ("ternary", X, """    if (a[2] == b[2]) {
      if (a[0] == b[0]) {
        return a[1] < b[1];
      }
      return a[0] < b[0];
    }
    return a[2] < b[2];""", "    return std::tie(a[2], a[0], a[1]) < std::tie(b[2], b[0], b[1]);"),
    ("negated", X, """    if (a[2] == b[2]) {
      if (a[0] == b[0]) {
        return a[1] < b[1];
      }
      return a[0] < b[0];
    }
    return a[2] < b[2];""", """    if (a[2] != b[2]) {
      return a[2] < b[2];
    }
    if (a[0] != b[0]) {
      return a[0] < b[0];
    }
    return a[1] < b[1];"""),
    ("local order", S, OPS, "  const auto& permutation = idx._OPS;\n  idx.scan(_object, &result->_data, permutation, _timeoutTimer);"),
    ("helper", [(S, OPS, "  scanTwo(_object, result, idx._OPS);"), ("src/engine/IndexScan.h", "  void computeOPSfreeP(ResultTable* result) const;", "  void computeOPSfreeP(ResultTable* result) const;\n  template <class P>\n  void scanTwo(const string& key, ResultTable* result, const P& perm) const {\n    getIndex().scan(key, &result->_data, perm, _timeoutTimer);\n  }")]),
    ("if chain", S, "switch (scan.getType())", "switch (scan.getType())") if False else
    ("setters reordered", Q, """                _qec, IndexScan::ScanType::SOP_BOUND_O);
            scan->setSubject(node._triple._s);
            scan->setPredicate(node._triple._p._iri);
            scan->setObject(node._triple._o);""", """                _qec, IndexScan::ScanType::SOP_BOUND_O);
            scan->setObject(node._triple._o);
            scan->setPredicate(node._triple._p._iri);
            scan->setSubject(node._triple._s);"""),
    ("triple reference", Q, """                _qec, IndexScan::ScanType::SOP_BOUND_O);
            scan->setSubject(node._triple._s);""", """                _qec, IndexScan::ScanType::SOP_BOUND_O);
            const auto& triple = node._triple;
            scan->setSubject(triple._s);"""),
    ("size early return", S, """    } else if (_type == OPS_FREE_P || _type == OSP_FREE_S) {
      return getIndex().sizeEstimate("", "", _object);
    }""", """    }
    const bool byObject = _type == OPS_FREE_P || _type == OSP_FREE_S;
    if (byObject) {
      return getIndex().sizeEstimate("", "", _object);
    }"""),
    ("loop", I, """  for (auto& el : buffer) {
    std::swap(el[0], el[1]);
  }""", """  for (size_t i = 0; i < buffer.size(); ++i) {
    std::swap(buffer[i][0], buffer[i][1]);
  }"""),
]

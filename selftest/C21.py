J = "src/engine/Join.cpp"
M = "src/engine/MultiColumnJoin.cpp"
O = "src/engine/OptionalJoin.cpp"
U = "src/engine/Union.cpp"
G = "src/engine/GroupBy.cpp"
T = "src/engine/TransitivePath.cpp"
W = "src/engine/TwoColumnJoin.cpp"
B = "src/engine/Bind.cpp"
C = "src/engine/CountAvailablePredicates.cpp"
X = "src/engine/TextOperationWithFilter.cpp"
N = "src/engine/Minus.cpp"
H = "src/engine/HasPredicateScan.cpp"
P = "src/engine/QueryPlanner.cpp"
I = "src/engine/IndexScan.cpp"
Q = "src/engine/QueryExecutionTree.cpp"
BUGS = [
    ("multi map order", [(M, "    size_t columnIndex = leftSize + it.second;\n", ""), (M, "  size_t leftSize = _left->getResultWidth();\n  for (const auto& it : _right->getV", "  size_t columnIndex = retVal.size();\n  for (const auto& it : _right->getV"),
                         (M, "      if (a[1] < it.second) {\n        columnIndex--;\n      } else if (a[1] == it.second) {", "      if (a[1] == it.second) {"), (M, "      retVal[it.first] = columnIndex;\n", "      retVal[it.first] = columnIndex;\n      columnIndex++;\n")]),
    ("multi le", M, "      if (a[1] < it.second) {\n        columnIndex--;", "      if (a[0] < it.second) {\n        columnIndex--;"),
    ("multi width", M, "_right->getResultWidth() - _joinColumns.size();", "_right->getResultWidth() - 1;"),
    ("join after", J, "        retVal[it->first] = leftSize + it->second - 1;\n      }\n    }\n  } else {", "        retVal[it->first] = leftSize + it->second;\n      }\n    }\n  } else {"),
    ("join wrong col", J, "      if (it->second < _rightJoinCol) {\n        retVal[it->first] = leftSize + it->second;\n      }\n      if (it->second > _rightJoinCol) {", "      if (it->second < _leftJoinCol) {\n        retVal[it->first] = leftSize + it->second;\n      }\n      if (it->second > _leftJoinCol) {"),
    ("join types", J, "    if (i != _rightJoinCol) {\n      result->_resultTypes.push_back(rightRes->_resultTypes[i]);", "    if (i != _leftJoinCol) {\n      result->_resultTypes.push_back(rightRes->_resultTypes[i]);"),
    ("join dummy", J, "        retVal[it->first] = 2 + it->second;", "        retVal[it->first] = 3 + it->second;"),
    ("join strings", J, "  result->setLocalVocab(*leftRes, *rightRes, lwidth);\n", ""),
    ("optional var count", O, "  size_t leftSize = _left->getResultWidth();", "  size_t leftSize = retVal.size();"),
    ("optional types", O, "      result->_resultTypes.push_back(rightResult->_resultTypes[col]);", "      result->_resultTypes.push_back(leftResult->_resultTypes[col]);"),
    ("optional side", O, "      if (a[1] == col) {\n        isJoinColumn = true;", "      if (a[0] == col) {\n        isJoinColumn = true;"),
    ("union second", U, "result->_resultTypes.push_back(subRes2->getResultType(o[1]));", "result->_resultTypes.push_back(subRes1->getResultType(o[1]));"),
    ("union index", U, "result->_resultTypes.push_back(subRes2->getResultType(o[1]));", "result->_resultTypes.push_back(subRes2->getResultType(o[0]));"),
    ("group strings", G, "  *result->_localVocab = *subresult->_localVocab;\n", ""),
    ("group sum", G, "      case ParsedQuery::AggregateType::SUM:\n        result->_resultTypes[i] = ResultTable::ResultType::FLOAT;", "      case ParsedQuery::AggregateType::SUM:\n        result->_resultTypes[i] =\n            subresult->getResultType(aggregates[i]._inCol);"),
    ("group count", G, "      case ParsedQuery::AggregateType::COUNT:\n        result->_resultTypes[i] = ResultTable::ResultType::VERBATIM;", "      case ParsedQuery::AggregateType::COUNT:\n        result->_resultTypes[i] = ResultTable::ResultType::FLOAT;"),
    ("group sample", G, "      case ParsedQuery::AggregateType::SAMPLE:\n        result->_resultTypes[i] =\n            subresult->getResultType(aggregates[i]._inCol);", "      case ParsedQuery::AggregateType::SAMPLE:\n        result->_resultTypes[i] =\n            subresult->getResultType(aggregates[i]._outCol);"),
    ("group in name", G, "subtreeVarCols.find(alias._inVarName);", "subtreeVarCols.find(alias._outVarName);"),
    ("path bound", T, "  p->_rightSideCol = inputCol;\n  const ad_utility::HashMap<string, size_t>& var =\n      rightop->getVariableColumns();\n  for (auto col : var) {\n    if (col.second != inputCol) {\n      if (col.second > inputCol) {\n        p->_variableColumns[col.first] = col.second + 1;\n      } else {\n        p->_variableColumns[col.first] = col.second + 2;",
                       "  p->_rightSideCol = inputCol;\n  const ad_utility::HashMap<string, size_t>& var =\n      rightop->getVariableColumns();\n  for (auto col : var) {\n    if (col.second != inputCol) {\n      if (col.second > inputCol) {\n        p->_variableColumns[col.first] = col.second + 2;\n      } else {\n        p->_variableColumns[col.first] = col.second + 1;"),
    ("path width", T, "      p->_resultWidth++;\n    }\n  }\n  // The copy may have inherited the sort order of the unbound path.\n  p->setResultSortedOn(p->resultSortedOn());\n  return p;\n}\n\n// _____________________________________________________________________________\nstd::shared_ptr<TransitivePath> TransitivePath::bindRightSide(", "    }\n    p->_resultWidth++;\n  }\n  // The copy may have inherited the sort order of the unbound path.\n  p->setResultSortedOn(p->resultSortedOn());\n  return p;\n}\n\n// _____________________________________________________________________________\nstd::shared_ptr<TransitivePath> TransitivePath::bindRightSide("),
    ("two strings", W, "    result->_localVocab = toFilter->_localVocab;\n", ""),
    ("two types", W, "                                toFilter->_resultTypes.begin(),\n                                toFilter->_resultTypes.end());", "                                rightResult->_resultTypes.begin(),\n                                rightResult->_resultTypes.end());"),
    ("bind rename type", B, "    result->_resultTypes.push_back(subRes->_resultTypes[inColumn]);\n", ""),
    ("bind strings", B, "  result->_localVocab = subRes->_localVocab;\n", ""),
    ("counts swapped", C, "  result->_resultTypes.push_back(ResultTable::ResultType::KB);\n  result->_resultTypes.push_back(ResultTable::ResultType::VERBATIM);", "  result->_resultTypes.push_back(ResultTable::ResultType::VERBATIM);\n  result->_resultTypes.push_back(ResultTable::ResultType::KB);"),
    ("text types", X, "    result->_resultTypes.push_back(filterResult->getResultType(i));", "    result->_resultTypes.push_back(ResultTable::ResultType::KB);"),
    ("text start", X, "  for (size_t i = 2; i < filterStart; i++) {", "  for (size_t i = 2; i < result->_data.cols(); i++) {"),
    ("minus strings", N, "  result->_localVocab = leftResult->_localVocab;\n", ""),
    ("scan columns", I, "      if (_predicate[0] == '?') {\n        res[_predicate] = col++;\n      }\n\n      if (_object[0] == '?') {\n        res[_object] = col++;\n      }\n\n      if (_subject[0] == '?') {\n        res[_subject] = col++;\n      }\n      return res;\n    case OPS_FREE_P:", "      if (_predicate[0] == '?') {\n        res[_predicate] = col++;\n      }\n\n      if (_subject[0] == '?') {\n        res[_subject] = col++;\n      }\n\n      if (_object[0] == '?') {\n        res[_object] = col++;\n      }\n      return res;\n    case OPS_FREE_P:"),
    ("planner scan", P, "              tree.setVariableColumn(node._triple._s, 0);\n              tree.setVariableColumn(node._triple._o, 1);\n              seeds.push_back(plan);", "              tree.setVariableColumn(node._triple._s, 1);\n              tree.setVariableColumn(node._triple._o, 0);\n              seeds.push_back(plan);"),
    ("export col", Q, "          vc->second, res->getResultType(vc->second)));", "          vc->second, res->getResultType(validIndices.size())));"),
]
SAFE = [
    ("join local", J, "      if (it->second < _rightJoinCol) {\n        retVal[it->first] = leftSize + it->second;\n      }\n      if (it->second > _rightJoinCol) {\n        retVal[it->first] = leftSize + it->second - 1;\n      }", "      const size_t c = it->second;\n      if (c == _rightJoinCol) {\n        continue;\n      }\n      retVal[it->first] = c < _rightJoinCol ? leftSize + c : leftSize + c - 1;"),
    ("join range for", J, "    for (auto it = _right->getVariableColumns().begin();\n         it != _right->getVariableColumns().end(); ++it) {\n      if (it->second < _rightJoinCol) {\n        retVal[it->first] = leftSize + it->second;\n      }\n      if (it->second > _rightJoinCol) {\n        retVal[it->first] = leftSize + it->second - 1;\n      }", "    for (const auto& v : _right->getVariableColumns()) {\n      if (v.second < _rightJoinCol) {\n        retVal[v.first] = leftSize + v.second;\n      } else if (v.second > _rightJoinCol) {\n        retVal[v.first] = leftSize + v.second - 1;\n      }"),
    ("optional reordered", O, "      if (a[1] < it->second) {\n        columnIndex--;\n      } else if (a[1] == it->second) {\n        isJoinColumn = true;\n        break;\n      }", "      if (a[1] == it->second) {\n        isJoinColumn = true;\n        break;\n      }\n      if (a[1] < it->second) {\n        columnIndex--;\n      }"),
    ("join types before", J, "  result->setLocalVocab(*leftRes, *rightRes, lwidth);\n\n  LOG", "  result->setLocalVocab(*leftRes, *rightRes, leftRes->_data.cols());\n\n  LOG"),
    ("multi setcols", M, "  result->_data.setCols(getResultWidth());", "  const size_t w = getResultWidth();\n  result->_data.setCols(w);"),
    ("bind order", B, "  result->_resultTypes = subRes->_resultTypes;\n  result->_localVocab = subRes->_localVocab;", "  result->_localVocab = subRes->_localVocab;\n  result->_resultTypes = subRes->_resultTypes;"),
    ("union if", U, "    } else if (o[1] != NO_COLUMN) {\n      result->_resultTypes.push_back(subRes2->getResultType(o[1]));\n    } else {\n      result->_resultTypes.push_back(ResultTable::ResultType::KB);\n    }", "    } else {\n      result->_resultTypes.push_back(o[1] != NO_COLUMN\n                                         ? subRes2->getResultType(o[1])\n                                         : ResultTable::ResultType::KB);\n    }"),
    ("counts loop", C, "  result->_resultTypes.push_back(ResultTable::ResultType::KB);\n  result->_resultTypes.push_back(ResultTable::ResultType::VERBATIM);", "  result->_resultTypes = {ResultTable::ResultType::KB,\n                          ResultTable::ResultType::VERBATIM};"),
    ("group merged cases", G, "      case ParsedQuery::AggregateType::MAX:\n        result->_resultTypes[i] =\n            subresult->getResultType(aggregates[i]._inCol);\n        break;\n      case ParsedQuery::AggregateType::MIN:\n        result->_resultTypes[i] =\n            subresult->getResultType(aggregates[i]._inCol);\n        break;\n      case ParsedQuery::AggregateType::SAMPLE:", "      case ParsedQuery::AggregateType::MAX:\n      case ParsedQuery::AggregateType::MIN:\n      case ParsedQuery::AggregateType::SAMPLE:"),
    ("two helper var", W, "    result->_localVocab = toFilter->_localVocab;\n", "    const auto& words = toFilter->_localVocab;\n    result->_localVocab = words;\n"),
    ("text var", X, "  for (size_t i = 0; i < filterResult->_data.cols(); i++) {\n    result->_resultTypes.push_back(filterResult->getResultType(i));\n  }", "  result->_resultTypes.insert(result->_resultTypes.end(),\n                              filterResult->_resultTypes.begin(),\n                              filterResult->_resultTypes.end());"),
    ("path order", T, "      if (col.second > inputCol) {\n        p->_variableColumns[col.first] = col.second + 1;\n      } else {\n        p->_variableColumns[col.first] = col.second + 2;\n      }\n      p->_resultWidth++;\n    }\n  }\n  // The copy may have inherited the sort order of the unbound path.\n  p->setResultSortedOn(p->resultSortedOn());\n  return p;\n}\n\n// _____________________________________________________________________________\nstd::shared_ptr<TransitivePath> TransitivePath::bindRightSide(", "      p->_resultWidth++;\n      p->_variableColumns[col.first] =\n          col.second < inputCol ? col.second + 2 : col.second + 1;\n    }\n  }\n  // The copy may have inherited the sort order of the unbound path.\n  p->setResultSortedOn(p->resultSortedOn());\n  return p;\n}\n\n// _____________________________________________________________________________\nstd::shared_ptr<TransitivePath> TransitivePath::bindRightSide("),
    ("planner order", P, "            tree.setOperation(QueryExecutionTree::OperationType::FILTER,\n                              filter);\n            tree.setVariableColumns(filter->getVariableColumns());", "            tree.setVariableColumns(filter->getVariableColumns());\n            tree.setOperation(QueryExecutionTree::OperationType::FILTER,\n                              filter);"),
]

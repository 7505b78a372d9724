F, G, B, O = "src/engine/Filter.cpp", "src/engine/GroupBy.cpp", "src/engine/Bind.cpp", "src/engine/OrderBy.cpp"
P, Q = "src/parser/SparqlParser.cpp", "src/parser/ParsedQuery.cpp"
BUGS = [
    ("dyn op", F, "return ValueReader<T>::get(e[lhs]) <= ValueReader<T>::get(e[rhs]);", "return ValueReader<T>::get(e[lhs]) < ValueReader<T>::get(e[rhs]);"),
    ("dyn operands", F, "return ValueReader<T>::get(e[lhs]) > ValueReader<T>::get(e[rhs]);", "return ValueReader<T>::get(e[rhs]) > ValueReader<T>::get(e[lhs]);"),
    ("dyn reader", F, "return ValueReader<T>::get(e[lhs]) >= ValueReader<T>::get(e[rhs]);", "return e[lhs] >= e[rhs];"),
    ("dyn type", F, "computeFilter<ResultTable::ResultType::FLOAT>(&result, lhsInd, rhsInd,\n                                                    input);", "computeFilter<ResultTable::ResultType::VERBATIM>(&result, lhsInd, rhsInd,\n                                                    input);"),
    ("dyn columns", F, "&result->_data, lhsInd,\n                      rhsInd, subRes->_data", "&result->_data, rhsInd,\n                      lhsInd, subRes->_data"),
    ("diff types", F, "if (subRes->getResultType(lhsInd) != subRes->getResultType(rhsInd)) {", "if (lhsInd == rhsInd) {"),
    ("assembled", F, "if (subRes->getResultType(lhsInd) == ResultTable::ResultType::LOCAL_VOCAB) {\n      // Equal", "if (subRes->getResultType(lhsInd) == ResultTable::ResultType::TEXT) {\n      // Equal"),
    ("range inverse", F, "return INVERSE ? !b : b;", "return b;"),
    ("range upper", F, "ValueReader<T>::get(e[lhs]) < ValueReader<T>::get(rhs_upper));", "ValueReader<T>::get(e[lhs]) <= ValueReader<T>::get(rhs_upper));"),
    ("range rows", F, "      res->insert(res->end(), input.begin(), lower);\n      res->insert(res->end(), upper, input.end());\n    }\n  } else {\n    const auto inv", "      res->insert(res->end(), input.begin(), lower);\n    }\n  } else {\n    const auto inv"),
    ("float sorted", F, "bool lhs_is_sorted = T != ResultTable::ResultType::FLOAT &&\n                       subRes", "bool lhs_is_sorted = subRes"),
    ("sorted by any", F, "                       subRes->_sortedBy[0] == lhs;\n  Id* rhs", "                       subRes->_sortedBy.back() == lhs;\n  Id* rhs"),
    ("ne unsorted", F, "return ValueReader<T>::get(e[lhs]) != ValueReader<T>::get(rhs);", "return ValueReader<T>::get(e[lhs]) > ValueReader<T>::get(rhs);"),
    ("max start", G, "float res = std::numeric_limits<float>::lowest();", "float res = std::numeric_limits<float>::min();"),
    ("max min", G, "          res = std::max(res, tmpF);", "          res = std::min(res, tmpF);"),
    ("sum minus", G, "              std::memcpy(&tmpF, &input(i, a._inCol), sizeof(float));\n              res += tmpF;\n            }\n          }\n          distinctHashSet.clear();\n        } else {\n          for (size_t i = blockStart; i <= blockEnd; i++) {\n            std::memcpy(&tmpF, &input(i, a._inCol), sizeof(float));\n            res += tmpF;", "              std::memcpy(&tmpF, &input(i, a._inCol), sizeof(float));\n              res += tmpF;\n            }\n          }\n          distinctHashSet.clear();\n        } else {\n          for (size_t i = blockStart; i <= blockEnd; i++) {\n            std::memcpy(&tmpF, &input(i, a._inCol), sizeof(float));\n            res = tmpF;"),
    ("no clear", G, "        (*result)(resultRow, a._outCol) = count;\n        distinctHashSet.clear();", "        (*result)(resultRow, a._outCol) = count;"),
    ("count off", G, "blockEnd - blockStart + 1;\n      }\n      break;", "blockEnd - blockStart;\n      }\n      break;"),
    ("min loop", G, "        Id res = std::numeric_limits<Id>::max();\n        for (size_t i = blockStart; i <= blockEnd; i++) {\n          res = std::min(res, input(i, a._inCol));\n        }\n        (*result)(resultRow, a._outCol) = res;\n      }\n      break;\n    }\n    case ParsedQuery::AggregateType::SAMPLE", "        Id res = std::numeric_limits<Id>::max();\n        for (size_t i = blockStart; i < blockEnd; i++) {\n          res = std::min(res, input(i, a._inCol));\n        }\n        (*result)(resultRow, a._outCol) = res;\n      }\n      break;\n    }\n    case ParsedQuery::AggregateType::SAMPLE"),
    ("avg all", G, "          numValues = distinctHashSet.size();\n          distinctHashSet.clear();\n        } else {\n          for (size_t i = blockStart; i <= blockEnd; i++) {\n            checkTimeoutAfterNCalls();\n            // load", "          distinctHashSet.clear();\n        } else {\n          for (size_t i = blockStart; i <= blockEnd; i++) {\n            checkTimeoutAfterNCalls();\n            // load"),
    ("concat last", G, "      if (lastIsDuplicate) {", "      if (!lastIsDuplicate) {"),
    ("group end", G, "      blockEnd = pos - 1;\n", "      blockEnd = pos;\n"),
    ("group start", G, "      blockStart = pos;\n", "      blockStart = pos + 1;\n"),
    ("group values", G, "        currentGroupBlock[i].second = input(pos, currentGroupBlock[i].first);\n", "        currentGroupBlock[i].second = input(blockEnd, currentGroupBlock[i].first);\n"),
    ("last group", G, "  blockEnd = input.size() - 1;\n  {", "  blockEnd = input.size() - 1;\n  if (blockStart < blockEnd) {"),
    ("op order", B, '"+-*/"s.find', '"-+*/"s.find'),
    ("op swap", B, "return v1 - v2;", "return v2 - v1;"),
    ("operand value", B, "float& value = colIdx == 0 ? value1 : value2;", "float& value = colIdx != 0 ? value1 : value2;"),
    ("operand column", B, "value = input(i, columns[colIdx]);", "value = input(i, columns[0]);"),
    ("bind columns", B, "_subtree->getVariableColumn(ptr->_var2)};", "_subtree->getVariableColumn(ptr->_var1)};"),
    ("bind types", B, "subRes->_resultTypes[columns[1]]};", "subRes->_resultTypes[columns[0]]};"),
    ("order desc", O, "          return !entry.second;", "          return entry.second;"),
    ("order asc only", O, "                        if (a[entry.first] > b[entry.first]) {\n                          return entry.second;", "                        if (a[entry.first] > b[entry.first]) {\n                          return false;"),
    ("parse le", P, "        f._type = SparqlFilter::LE;", "        f._type = SparqlFilter::LT;"),
    ("parse gt", P, "        f._type = SparqlFilter::GT;", "        f._type = SparqlFilter::GE;"),
]
SAFE = [
    ("swapped", F, "return ValueReader<T>::get(e[lhs]) > ValueReader<T>::get(e[rhs]);", "return ValueReader<T>::get(e[rhs]) < ValueReader<T>::get(e[lhs]);"),
    ("negated", F, "return ValueReader<T>::get(e[lhs]) != ValueReader<T>::get(rhs);", "return !(ValueReader<T>::get(e[lhs]) == ValueReader<T>::get(rhs));"),
    ("inv if", F, "      if (lower != input.end() && (*lower)[lhs] == rhs) {\n          // an element", "      const bool found = lower != input.end() && (*lower)[lhs] == rhs;\n        if (found) {\n          // an element") ,
    ("op switch", B, "  size_t i = \"+-*/\"s.find(binaryOperator);\n  AD_CHECK(i != std::string::npos);\n", "  const std::string operators = \"+-*/\";\n  size_t i = operators.find(binaryOperator);\n  AD_CHECK(i != std::string::npos);\n"),
    ("copy loop", B, "    for (size_t j = 0; j < inCols; ++j) {\n      result(i, j) = input(i, j);\n    }\n    // Iterate", "    size_t j = 0;\n    while (j < inCols) {\n      result(i, j) = input(i, j);\n      ++j;\n    }\n    // Iterate"),
    ("group range", G, "  blockEnd = input.size() - 1;\n  {", "  LOG(TRACE) << \"last group\" << std::endl;\n  blockEnd = input.size() - 1;\n  {"),
    ("max if", G, "          res = std::max(res, tmpF);", "          if (tmpF > res) {\n            res = tmpF;\n          }"),
    ("sum", G, "            std::memcpy(&tmpF, &input(i, a._inCol), sizeof(float));\n            res += tmpF;\n          }\n        }\n      } else if (inputTypes[a._inCol] == ResultTable::ResultType::TEXT ||\n                 inputTypes[a._inCol] == ResultTable::ResultType::LOCAL_VOCAB) {\n        res = std::numeric_limits<float>::quiet_NaN();\n      } else {\n        if (a._distinct) {\n          for (size_t i = blockStart; i <= blockEnd; i++) {\n            checkTimeoutHashSet();\n            const auto it = distinctHashSet.find(input(i, a._inCol));\n            if (it == distinctHashSet.end()) {\n              distinctHashSet.insert(input(i, a._inCol));\n              // load", "            std::memcpy(&tmpF, &input(i, a._inCol), sizeof(float));\n            res = res + tmpF;\n          }\n        }\n      } else if (inputTypes[a._inCol] == ResultTable::ResultType::TEXT ||\n                 inputTypes[a._inCol] == ResultTable::ResultType::LOCAL_VOCAB) {\n        res = std::numeric_limits<float>::quiet_NaN();\n      } else {\n        if (a._distinct) {\n          for (size_t i = blockStart; i <= blockEnd; i++) {\n            checkTimeoutHashSet();\n            const auto it = distinctHashSet.find(input(i, a._inCol));\n            if (it == distinctHashSet.end()) {\n              distinctHashSet.insert(input(i, a._inCol));\n              // load"),
    ("count", G, "        (*result)(resultRow, a._outCol) = count;\n        distinctHashSet.clear();", "        distinctHashSet.clear();\n        (*result)(resultRow, a._outCol) = count;"),
    ("order", O, "                        if (a[entry.first] < b[entry.first]) {\n                          return !entry.second;\n                        }\n                        if (a[entry.first] > b[entry.first]) {\n                          return entry.second;\n                        }", "                        const auto x = a[entry.first];\n                        const auto y = b[entry.first];\n                        if (x != y) {\n                          return entry.second ? x > y : x < y;\n                        }"),
    ("pretest", F, "  bool lhs_is_sorted =\n      subRes->_sortedBy.size() > 0 && subRes->_sortedBy[0] == lhs;", "  bool lhs_is_sorted =\n      !subRes->_sortedBy.empty() && subRes->_sortedBy[0] == lhs;"),
    ("distinct insert", G, "          const auto it = distinctHashSet.find(input(i, a._inCol));\n          if (it == distinctHashSet.end()) {\n            count++;\n            distinctHashSet.insert(input(i, a._inCol));\n          }", "          if (distinctHashSet.insert(input(i, a._inCol)).second) {\n            count++;\n          }"),
    ("sum loop", G, "          for (size_t i = blockStart; i <= blockEnd; i++) {\n            res += input(i, a._inCol);\n          }\n        }\n      } else if (inputTypes[a._inCol] == ResultTable::ResultType::FLOAT) {\n        // used to store the id value of the entry interpreted as a float\n        float tmpF;\n        if (a._distinct) {\n          for (size_t i = blockStart; i <= blockEnd; i++) {\n            checkTimeoutHashSet();\n            const auto it = distinctHashSet.find(input(i, a._inCol));\n            if (it == distinctHashSet.end()) {\n              distinctHashSet.insert(input(i, a._inCol));\n              std::memcpy(&tmpF, &input(i, a._inCol), sizeof(float));\n              res += tmpF;\n            }\n          }\n          distinctHashSet.clear();\n        } else {\n          for (size_t i = blockStart; i <= blockEnd; i++) {\n            std", "          for (size_t i = blockStart; i < blockEnd + 1; ++i) {\n            res += input(i, a._inCol);\n          }\n        }\n      } else if (inputTypes[a._inCol] == ResultTable::ResultType::FLOAT) {\n        // used to store the id value of the entry interpreted as a float\n        float tmpF;\n        if (a._distinct) {\n          for (size_t i = blockStart; i <= blockEnd; i++) {\n            checkTimeoutHashSet();\n            const auto it = distinctHashSet.find(input(i, a._inCol));\n            if (it == distinctHashSet.end()) {\n              distinctHashSet.insert(input(i, a._inCol));\n              std::memcpy(&tmpF, &input(i, a._inCol), sizeof(float));\n              res += tmpF;\n            }\n          }\n          distinctHashSet.clear();\n        } else {\n          for (size_t i = blockStart; i <= blockEnd; i++) {\n            std"),
]

B = "src/engine/"
BUGS = [
    ("names old", "src/parser/SparqlLexer.cpp", '"GROUP_BY", "ORDER_BY", "VARIABLE",', '"VARIABLE",'),
    ("names swapped", "src/parser/SparqlLexer.cpp", '"RDFLITERAL", "INTEGER",  "FLOAT", ', '"RDFLITERAL", "FLOAT", "INTEGER", '),
    ("avg as sum", "src/parser/ParsedQuery.h", 'return "AVG";', 'return "SUM";'),
    ("no break", B + "IndexScan.cpp", "      computePSOfreeS(result);\n      break;", "      computePSOfreeS(result);"),
    ("keyword order", "src/parser/SparqlLexer.cpp", '"HAVING|WHERE|ASC|AS|', '"HAVING|WHERE|AS|ASC|'),
    ("lang first", "src/parser/SparqlLexer.cpp", "LANGMATCHES|LANG|", "LANG|LANGMATCHES|"),
    ("integer first", "src/parser/SparqlLexer.cpp", """RE_FLOAT, &raw)) {
      _next.type = SparqlToken::Type::FLOAT;
    } else if (re2::RE2::Consume(&_re_string, RE_INTEGER, &raw)) {
      _next.type = SparqlToken::Type::INTEGER;""", """RE_INTEGER, &raw)) {
      _next.type = SparqlToken::Type::INTEGER;
    } else if (re2::RE2::Consume(&_re_string, RE_FLOAT, &raw)) {
      _next.type = SparqlToken::Type::FLOAT;"""),
    ("scan swapped", B + "IndexScan.cpp", "      computePSOboundS(result);", "      computePOSboundO(result);"),
    ("scan lost", B + "IndexScan.cpp", "    case SOP_BOUND_O:\n      computeSOPboundO(result);\n      break;\n", ""),
    ("no parse of minus", "src/parser/SparqlParser.cpp", '_lexer.accept("minus")', '_lexer.accept("optional")'),
    ("token regex", "src/parser/Tokenizer.cpp", "      return _tokens.Decimal;", "      return _tokens.Double;"),
    ("wrong token kind", "src/parser/SparqlLexer.cpp", "      _next.type = SparqlToken::Type::FLOAT;", "      _next.type = SparqlToken::Type::INTEGER;"),
    ("width lost", B + "HasPredicateScan.cpp", "    case ScanType::FREE_O:\n      return 1;\n    case ScanType::FULL_SCAN:\n      return 2;", "    case ScanType::FREE_O:\n      return 1;"),
]
SAFE = [
    ("default reject", B + "HasPredicateScan.cpp", "size_t HasPredicateScan::getResultWidth() const {\n  switch (_type) {", "size_t HasPredicateScan::getResultWidth() const {\n  (void)0;\n  switch (_type) {"),
    ("if chain", "src/parser/ParsedQuery.h", "      case AggregateType::COUNT:\n        return \"COUNT\";", "      case AggregateType::COUNT: {\n        std::string r = \"COUNT\";\n        return r;\n      }"),
    ("order of names", "src/parser/SparqlLexer.cpp", "VALUES|\"", "VALUES|\" "),
    ("merge labels", B + "HasPredicateScan.cpp", "    case ScanType::FREE_O:\n      return 1;", "    case ScanType::FREE_O: {\n      size_t w = 1;\n      return w;\n    }"),
]

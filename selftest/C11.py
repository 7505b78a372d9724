F, I, S = "src/util/File.h", "src/index/Index.cpp", "src/engine/Server.cpp"
BUGS = [
    ("seek and read", [(F, "      const ssize_t ret = pread(fd, to + bytesRead, toRead, offset + bytesRead);", "      fseeko(_file, offset + bytesRead, SEEK_SET);\n      const ssize_t ret = fread(to + bytesRead, 1, toRead, _file);")]),
    ("ext vocab seek", [("src/index/ExternalVocabulary.cpp", "  _file.read(word.data(), nofBytes, from);\n  return word;", "  _file.seek(from, SEEK_SET);\n  _file.read(word.data(), nofBytes);\n  return word;")]),
    ("excerpt seek", [("src/index/DocsDB.cpp", "  _dbFile.read(line.data(), nofBytes, from);", "  _dbFile.seek(from, SEEK_SET);\n  _dbFile.read(line.data(), nofBytes);")]),
    ("file size", [("src/index/DocsDB.cpp", "  off_t at = _startOfOffsets + cid * sizeof(off_t);\n", "  off_t at = _startOfOffsets + cid * sizeof(off_t);\n  if (at >= _dbFile.sizeOfFile()) return \"\";\n")]),
    ("server member", [(S, "      qp.setEnablePatternTrick(_enablePatternTrick);", "      _enablePatternTrick = _enablePatternTrick && !pinResult;\n      qp.setEnablePatternTrick(_enablePatternTrick);")]),
    ("static query id", [(S, "      query = createQueryFromHttpParams(params);", "      static size_t numQueries = 0;\n      numQueries++;\n      query = createQueryFromHttpParams(params);")]),
    ("static buffer", [("src/index/DocsDB.cpp", "  string line(nofBytes, '\\0');\n", "  static string line;\n  line.resize(nofBytes);\n")]),
    ("mutable cache", [("src/index/DocsDB.h", "  mutable ad_utility::File _dbFile;", "  mutable ad_utility::File _dbFile;\n  mutable Id _lastId = 0;"), ("src/index/DocsDB.cpp", "  off_t at = _startOfOffsets + cid * sizeof(off_t);\n", "  off_t at = _startOfOffsets + cid * sizeof(off_t);\n  _lastId = cid;\n")]),
    ("locale", [("src/util/StringUtils.h", "string getLowercaseUtf8(const std::string_view orig) {\n", "string getLowercaseUtf8(const std::string_view orig) {\n  setlocale(LC_CTYPE, \"\");\n")]),
    ("delimiters again", [("src/parser/PropertyPathParser.cpp", "  [[maybe_unused]] static const bool delimitersInitialized =\n      (initDelimiters(), true);", "  initDelimiters();")]),
    ("estimator", [(S, "      QueryPlanner qp(&qec);\n", "      _sortPerformanceEstimator.computeEstimatesExpensively(_allocator, 100);\n      QueryPlanner qp(&qec);\n")]),
]
SAFE = [
    ("local state", [(S, "      query = createQueryFromHttpParams(params);", "      size_t numQueries = 0;\n      numQueries++;\n      query = createQueryFromHttpParams(params);")]),
    ("atomic counter", [(S, "      query = createQueryFromHttpParams(params);", "      static std::atomic<size_t> numQueries{0};\n      numQueries++;\n      query = createQueryFromHttpParams(params);")]),
    ("thread local", [("src/index/DocsDB.cpp", "  string line(nofBytes, '\\0');\n", "  static thread_local string line;\n  line.resize(nofBytes);\n")]),
    ("local file", [("src/index/DocsDB.cpp", "  _dbFile.read(line.data(), nofBytes, from);", "  ad_utility::File& file = _dbFile;\n  file.read(line.data(), nofBytes, from);")]),
    ("static table", [("src/parser/PropertyPathParser.cpp", "  [[maybe_unused]] static const bool delimitersInitialized =\n      (initDelimiters(), true);", "  static std::once_flag flag;\n  std::call_once(flag, [] { initDelimiters(); });"), ("src/parser/PropertyPathParser.cpp", "#include <sstream>\n", "#include <mutex>\n#include <sstream>\n")]),
    ("split read", [("src/util/File.h", "      const ssize_t ret = pread(fd, to + bytesRead, toRead, offset + bytesRead);", "      uint8_t* target = to + bytesRead;\n      const ssize_t ret = pread(fd, target, toRead, offset + bytesRead);")]),
]

I = "src/index/Index.cpp"
V = "src/index/Vocabulary.cpp"
G = "src/index/VocabularyGeneratorImpl.h"
F = "src/util/File.h"
M = "src/util/MmapVectorImpl.h"
BUGS = [
    ("nt unopened", "src/parser/NTriplesParser.cpp", "  AD_CHECK(_in.is_open());\n", ""),
    ("nt warns", "src/parser/NTriplesParser.cpp", "  AD_CHECK(_in.is_open());\n", "  if (!_in.is_open()) {\n    LOG(ERROR) << \"cannot open\\n\";\n  }\n"),
    ("vocab unopened", V, "  AD_CHECK(in.is_open());\n  string line;", "  string line;"),
    ("vocab returns", V, "  AD_CHECK(in.is_open());\n  string line;", "  if (!in.is_open()) {\n    return;\n  }\n  string line;"),
    ("vocab unread", V, "  AD_CHECK(!in.bad());\n  in.close();", "  in.close();"),
    ("config unopened", I, "  AD_CHECK(f.is_open());\n  f >> _configurationJson;", "  f >> _configurationJson;"),
    ("config optional", I, "  AD_CHECK(f.is_open());\n  f >> _configurationJson;", "  if (!f.is_open()) {\n    LOG(WARN) << \"no configuration\\n\";\n    return;\n  }\n  f >> _configurationJson;"),
    ("config unwritten", I, "  f.close();\n  AD_CHECK(!f.fail());\n", ""),
    ("config early test", I, "  f << _configurationJson;\n  f.close();\n  AD_CHECK(!f.fail());\n", "  f << _configurationJson;\n  AD_CHECK(!f.fail());\n  f.close();\n"),
    ("merge unwritten", G, "  AD_CHECK(!_outfile.fail() && !_outfileExternal.fail());\n", "  AD_CHECK(!_outfile.fail());\n"),
    ("merge or", G, "  AD_CHECK(!_outfile.fail() && !_outfileExternal.fail());\n", "  AD_CHECK(!_outfile.fail() || !_outfileExternal.fail());\n"),
    ("merge is open", G, "  _outfile.close();\n  _outfileExternal.close();\n  AD_CHECK(!_outfile.fail() && !_outfileExternal.fail());\n", "  AD_CHECK(_outfile.is_open() && _outfileExternal.is_open());\n"),
    ("partial unwritten", G, "  out.close();\n  AD_CHECK(!out.fail());\n", "  out.close();\n"),
    ("infiles", G, "    AD_CHECK(infiles.back().is_open());\n", ""),
    ("write short", F, "    if (written != nofBytesToWrite) {", "    if (written == 0) {"),
    ("write logged", F, """      throw std::runtime_error("! ERROR writing file \\"" + _name + "\\" (" +
                               strerror(errno) + ")");""", """      cerr << "! ERROR writing file " << _name << endl;"""),
    ("open false", F, "      throw std::runtime_error(err.str());", "      cerr << err.str();\n      return false;"),
    ("close quiet", F, "           << endl;\n      exit(1);\n    }\n    _file = NULL;", "           << endl;\n    }\n    _file = NULL;"),
    ("close zero", F, "           << endl;\n      exit(1);\n    }\n    _file = NULL;", "           << endl;\n      exit(0);\n    }\n    _file = NULL;"),
    ("pread end", F, "      if (ret == 0) {\n        throw", "      if (ret == 0 && bytesRead == 0) {\n        throw"),
    ("pread returns", F, "      if (ret < 0) {\n        throwReadError();\n      }", "      if (ret < 0) {\n        return ret;\n      }"),
    ("fread", F, "    if (bytesRead < nofBytesToRead && ferror(_file)) {\n      throwReadError();\n    }\n", ""),
    ("map failed", M, "  void* ptr = mmap(nullptr, _bytesize, PROT_READ, MAP_SHARED, orig_fd, 0);\n  AD_CHECK(ptr != MAP_FAILED);", "  void* ptr = mmap(nullptr, _bytesize, PROT_READ, MAP_SHARED, orig_fd, 0);\n  AD_CHECK(ptr != nullptr);"),
    ("truncate", M, "  if (truncate(_filename.c_str(), _bytesize)) {\n    throw TruncateException(_filename, _bytesize, errno);\n  }", "  if (truncate(_filename.c_str(), _bytesize)) {\n    LOG(ERROR) << \"truncate\\n\";\n  }"),
    ("mmap meta", M, "  ofs.close();\n  AD_CHECK(!ofs.fail());", "  ofs.close();"),
    ("rename", I, "              << \". Terminating...\" << std::endl;\n    AD_CHECK(false);", "              << \". Terminating...\" << std::endl;"),
    ("main zero", "src/index/IndexBuilderMain.cpp", "    exit(2);\n  }\n  return 0;", "    exit(0);\n  }\n  return 0;"),
    ("patterns zero", "src/index/CreatePatternsMain.cpp", "    return 1;\n  }\n  return 0;", "  }\n  return 0;"),
    ("permutation", "src/index/Permutations.h", "      AD_THROW(", "      LOG(ERROR) << e.what() << std::endl;\n      if (filename.empty()) AD_THROW("),
]
SAFE = [
    ("nt throw", "src/parser/NTriplesParser.cpp", "  AD_CHECK(_in.is_open());\n", "  if (!_in.is_open()) {\n    throw std::runtime_error(\"cannot open \" + file);\n  }\n"),
    ("flag", I, "  f.close();\n  AD_CHECK(!f.fail());\n", "  f.close();\n  const bool ok = f.good();\n  if (!ok) {\n    AD_CHECK(false);\n  }\n"),
    ("bool", V, "  AD_CHECK(in.is_open());\n  string line;", "  if (!in) {\n    throw std::runtime_error(\"no file\");\n  }\n  string line;"),
    ("separate", G, "  AD_CHECK(!_outfile.fail() && !_outfileExternal.fail());\n", "  AD_CHECK(!_outfileExternal.fail());\n  AD_CHECK(!_outfile.fail());\n"),
    ("flush", G, "  out.close();\n  AD_CHECK(!out.fail());\n", "  out.flush();\n  AD_CHECK(out.good());\n"),
    ("fewer", F, "    if (written != nofBytesToWrite) {", "    if (written < nofBytesToWrite) {"),
    ("pread le", F, "      if (ret < 0) {\n        throwReadError();\n      }\n      if (ret == 0) {", "      if (ret <= 0) {\n        if (ret != 0) {\n          throwReadError();\n        }"),
    ("helper", [(I, "void Index::writeConfiguration() const {", "static void finish(std::ofstream& s) {\n  s.close();\n  AD_CHECK(!s.fail());\n}\n\nvoid Index::writeConfiguration() const {"), (I, "  f.close();\n  AD_CHECK(!f.fail());\n", "  finish(f);\n")]),
    ("equal null", F, "    if (_file == NULL) {", "    if (!_file) {"),
    ("return status", "src/index/IndexBuilderMain.cpp", "    exit(2);\n  }\n  return 0;", "    return 2;\n  }\n  return 0;"),
    ("loop", V, "  while (std::getline(in, word)) {\n    out << v.compressPrefix(word).toStringView() << '\\n';\n  }", "  for (; std::getline(in, word);) {\n    out << v.compressPrefix(word).toStringView();\n    out << '\\n';\n  }"),
]

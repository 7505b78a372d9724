S, B, E, I, T = "src/ServerMain.cpp", "src/index/IndexBuilderMain.cpp", "src/SparqlEngineMain.cpp", "src/index/Index.cpp", "src/TurtleParserMain.cpp"
BUGS = [
    ("short arg", S, '"i:p:j:tauhm:lc:e:k:T"', '"i:p:j:tauhm:lc:ek:T"'),
    ("short extra arg", B, '"F:f:i:w:d:lT:K:hAks:N"', '"F:f:i:w:d:lT:K:hA:ks:N"'),
    ("long arg", S, '{"cache-max-num-entries", required_argument, NULL, \'k\'}', '{"cache-max-num-entries", no_argument, NULL, \'k\'}'),
    ("long letter", B, '{"no-patterns", no_argument, NULL, \'P\'}', '{"no-patterns", no_argument, NULL, \'p\'}'),
    ("same letter", B, '{"no-compressed-vocabulary", no_argument, NULL, \'N\'}', '{"no-compressed-vocabulary", no_argument, NULL, \'A\'}'),
    ("help letter", S, '"j, worker-threads"', '"w, worker-threads"'),
    ("help name", B, '"w, words-by-contexts"', '"w, words-file"'),
    ("handler variable", S, "        cacheMaxSizeGBSingleEntry = atoi(optarg);", "        cacheMaxSizeGB = atoi(optarg);"),
    ("handler value", B, "        useCompression = false;", "        useCompression = true;"),
    ("no handler", B, "      case 's':\n        settingsFile = optarg;\n        break;\n", ""),
    ("empty handler", S, "        enablePatternTrick = false;\n", ""),
    ("swapped ctor", S, "cacheMaxSizeGB,\n                  cacheMaxSizeGBSingleEntry, cacheMaxNumEntries", "cacheMaxSizeGB,\n                  cacheMaxNumEntries, cacheMaxSizeGBSingleEntry"),
    ("swapped gb", S, "cacheMaxSizeGB,\n                  cacheMaxSizeGBSingleEntry, cacheMaxNumEntries", "cacheMaxSizeGBSingleEntry,\n                  cacheMaxSizeGB, cacheMaxNumEntries"),
    ("swapped init", S, "server.initialize(index, text, usePatterns, enablePatternTrick);", "server.initialize(index, usePatterns, text, enablePatternTrick);"),
    ("swapped names", B, "    index.setKbName(kbIndexName);\n    index.setTextName(textIndexName);", "    index.setKbName(textIndexName);\n    index.setTextName(kbIndexName);"),
    ("negated", B, "index.setUsePatterns(usePatterns);", "index.setUsePatterns(!usePatterns);"),
    ("not passed", B, "    index.setKeepTempFiles(keepTemporaryFiles);\n", ""),
    ("wrong member", I, "void Index::setPrefixCompression(bool compressed) {\n  _vocabPrefixCompressed = compressed;", "void Index::setPrefixCompression(bool compressed) {\n  _keepTempFiles = compressed;"),
    ("text cond", E, "    if (text) {", "    if (!text) {"),
    ("unit", "src/engine/Server.h", "maxMemGB * (1ull << 30u))", "maxMemGB)"),
    ("unit cache", "src/engine/Server.h", "cacheMaxSizeGBSingleEntry * (1ull << 30u) / sizeof(Id)", "cacheMaxSizeGBSingleEntry * (1ull << 20u) / sizeof(Id)"),
    ("key read", I, '_configurationJson["locale"]["ignore-punctuation"];', '_configurationJson["locale"]["ignorePunctuation"];'),
    ("key stored", I, '_configurationJson["languages-internal"] = j["languages-internal"];', '_configurationJson["internal-languages"] = j["languages-internal"];'),
    ("key swapped", I, '    std::string lang = _configurationJson["locale"]["language"];\n    std::string country = _configurationJson["locale"]["country"];', '    std::string lang = _configurationJson["locale"]["country"];\n    std::string country = _configurationJson["locale"]["language"];'),
    ("key not stored", I, '    _configurationJson["prefixes-external"] = j["prefixes-external"];\n', ""),
    ("not restored", I, "    _textVocab.setLocale(lang, country, ignorePunctuation);\n  } else {\n    LOG(ERROR)", "  } else {\n    LOG(ERROR)"),
    ("tested key", I, 'if (j.count("parser-batch-size")) {', 'if (j.count("num-triples-per-partial-vocab")) {'),
    ("wrong target", I, '_parserBatchSize = j["parser-batch-size"];', '_numTriplesPerPartialVocab = j["parser-batch-size"];'),
    ("early write", I, '  _configurationJson["prefixes"] = _vocabPrefixCompressed;\n', "  writeConfiguration();\n", ),
    ("late", I, '  _configurationJson["prefixes"] = _vocabPrefixCompressed;\n', '  writeConfiguration();\n  _configurationJson["prefixes"] = _vocabPrefixCompressed;\n'),
    ("default used", I, "createIdTriplesAndVocab", "createIdTriplesAndVocab"),
    ("format", B, 'filetype = "ttl";\n          filetypeDeduced = true;', 'filetype = "turtle";\n          filetypeDeduced = true;'),
    ("restored member", I, '    _onDiskLiterals = _configurationJson["external-literals"];', '    _vocabPrefixCompressed = _configurationJson["external-literals"];'),
]
BUGS = [b for b in BUGS if b[0] not in ("early write", "default used", "late")]
BUGS += [
    ("kb name unwritten", "src/index/Index.cpp", "    metaData.value().first.setName(getKbName());\n    metaData.value().second.setName(getKbName());\n", ""),
    ("kb name once", "src/index/Index.cpp", "    metaData.value().first.setName(getKbName());\n    metaData.value().second.setName(getKbName());\n", "    metaData.value().second.setName(getKbName());\n"),
]
SAFE = [
    ("reorder cases", B, "      case 'w':\n        wordsfile = optarg;\n        break;\n      case 'd':\n        docsfile = optarg;\n        break;", "      case 'd':\n        docsfile = optarg;\n        break;\n      case 'w':\n        wordsfile = optarg;\n        break;"),
    ("stoi", S, "        cacheMaxSizeGB = atoi(optarg);", "        cacheMaxSizeGB = std::stoul(optarg);"),
    ("named string", S, '    int c = getopt_long(argc, argv, "i:p:j:tauhm:lc:e:k:T", options, NULL);', '    const char* shortOptions = "i:p:j:tauhm:lc:e:k:T";\n    int c = getopt_long(argc, argv, shortOptions, options, NULL);'),
    ("loop", B, "  while (true) {\n    int c = getopt_long(argc, argv, \"F:f:i:w:d:lT:K:hAks:N\", options, nullptr);\n    if (c == -1) {\n      break;\n    }\n", "  int c;\n  while ((c = getopt_long(argc, argv, \"F:f:i:w:d:lT:K:hAks:N\", options,\n                          nullptr)) != -1) {\n"),
    ("rename var", B, [("src/index/IndexBuilderMain.cpp", "bool useCompression = true;", "bool compressVocabulary = true;")] and "useCompression = false;", "useCompression = !true;"),
    ("contains", I, '  if (_configurationJson.find("languages-internal") !=\n      _configurationJson.end()) {', '  if (_configurationJson.count("languages-internal")) {'),
    ("named json", I, '    std::string lang = _configurationJson["locale"]["language"];\n    std::string country = _configurationJson["locale"]["country"];', '    const std::string country = _configurationJson["locale"]["country"];\n    const std::string lang = _configurationJson["locale"]["language"];'),
    ("at", I, '_configurationJson["locale"]["ignore-punctuation"];', '_configurationJson.at("locale").at("ignore-punctuation");'),
    ("unit const", "src/engine/Server.h", "maxMemGB * (1ull << 30u))", "maxMemGB * 1024ull * 1024ull * 1024ull)"),
    ("unit shift", "src/engine/Server.h", "maxMemGB * (1ull << 30u))", "maxMemGB << 30u)"),
    ("local copy", S, "  try {\n    Server server(port, numThreads", "  const int workers = numThreads;\n  try {\n    Server server(port, workers"),
    ("if chain help", "src/index/CreatePatternsMain.cpp", "      case 'h':\n        printUsage(argv[0]);\n        return 0;\n        break;\n", "      case 'h': {\n        printUsage(argv[0]);\n        exit(0);\n      }\n"),
    ("kb name ref", "src/index/Index.cpp", "    metaData.value().first.setName(getKbName());\n    metaData.value().second.setName(getKbName());\n", "    auto& [m1, m2] = metaData.value();\n    m1.setName(getKbName());\n    m2.setName(getKbName());\n"),
]

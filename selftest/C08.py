M, T, D, I, X, P, V, G, TX, EV, F = ("src/index/MetaDataTypes.cpp", "src/index/TextMetaData.cpp", "src/index/IndexMetaDataImpl.h", "src/index/Index.cpp",
  "src/index/MetaDataTypes.h", "src/global/Pattern.h", "src/util/MmapVectorImpl.h", "src/index/VocabularyGeneratorImpl.h", "src/index/Index.Text.cpp",
  "src/index/ExternalVocabulary.cpp", "src/util/File.h")
BUGS = [
    ("reader swap", T, """  _startWordlist = *reinterpret_cast<off_t*>(buffer + offset);
  offset += sizeof(_startWordlist);
  _startScorelist = *reinterpret_cast<off_t*>(buffer + offset);
  offset += sizeof(_startScorelist);""", """  _startScorelist = *reinterpret_cast<off_t*>(buffer + offset);
  offset += sizeof(_startScorelist);
  _startWordlist = *reinterpret_cast<off_t*>(buffer + offset);
  offset += sizeof(_startWordlist);"""),
    ("writer swap", T, """  f.write(&md._nofWordPostings, sizeof(md._nofWordPostings));
  f.write(&md._nofEntityPostings, sizeof(md._nofEntityPostings));""", """  f.write(&md._nofEntityPostings, sizeof(md._nofEntityPostings));
  f.write(&md._nofWordPostings, sizeof(md._nofWordPostings));"""),
    ("missing advance", T, "  offset += sizeof(_nofTextRecords);\n", ""),
    ("sub swap", T, "f << md._cl << md._entityCl;", "f << md._entityCl << md._cl;"),
    ("wrong offset", M, "buffer + sizeof(Id) + sizeof(off_t));", "buffer + sizeof(Id));"),
    ("narrow", M, "_typeMultAndNofElements =\n      *reinterpret_cast<uint64_t*>", "_typeMultAndNofElements =\n      *reinterpret_cast<uint32_t*>"),
    ("claimed size", M, "return sizeof(_startRhs) + sizeof(_offsetAfter) + sizeof(size_t) +", "return sizeof(_startRhs) + sizeof(_offsetAfter) +"),
    ("field lost", D, "  f.write(&imd._offsetAfter, sizeof(imd._offsetAfter));\n", ""),
    ("version test", D, "  if (version >= V_BLOCK_LIST_AND_STATISTICS) {", "  if (version > V_BLOCK_LIST_AND_STATISTICS) {"),
    ("totals swap", D, "    _totalElements = readFromBuf<size_t>(&buf);\n    _totalBytes = readFromBuf<size_t>(&buf);", "    _totalBytes = readFromBuf<size_t>(&buf);\n    _totalElements = readFromBuf<size_t>(&buf);"),
    ("magic", D, "    f.write(&MAGIC_NUMBER_SPARSE_META_DATA_VERSION, sizeof(MAGIC_NUMBER_SPARSE_META_DATA_VERSION));", "    f.write(&MAGIC_NUMBER_MMAP_META_DATA_VERSION, sizeof(MAGIC_NUMBER_SPARSE_META_DATA_VERSION));"),
    ("block id lost", D, "      f.write(&id, sizeof(id));\n", ""),
    ("shift", M, "_typeMultAndNofElements |= (uint64_t(mult) << 40);", "_typeMultAndNofElements |= (uint64_t(mult) << 44);"),
    ("clear", M, "_typeMultAndNofElements &= 0xFFFF00FFFFFFFFFF;", "_typeMultAndNofElements &= 0xFFFFFF00FFFFFFFF;"),
    ("mask", M, "return uint8_t((_typeMultAndNofElements & 0x00FF000000000000) >> 48);", "return uint8_t((_typeMultAndNofElements & 0x00FF000000000000) >> 40);"),
    ("pattern width", I, "patternsFile.read(&_fullHasPredicateSize, sizeof(size_t), off);\n      off += sizeof(size_t);", "patternsFile.read(&_fullHasPredicateSize, sizeof(size_t), off);\n      off += sizeof(uint32_t);"),
    ("pattern swap", I, "  file.write(&fullHasPredicateMultiplicityEntities, sizeof(double));\n  file.write(&fullHasPredicateMultiplicityPredicates, sizeof(double));", "  file.write(&fullHasPredicateMultiplicityPredicates, sizeof(double));\n  file.write(&fullHasPredicateMultiplicityEntities, sizeof(double));"),
    ("pattern bytes", I, "file.write(entityHasPredicate.data(), sizeof(Id) * numHasPredicatess * 2);", "file.write(entityHasPredicate.data(), sizeof(Id) * numHasPredicatess);"),
    ("compact swap", P, "    file.write(&_size, sizeof(size_t));\n    file.write(&_dataSize, sizeof(size_t));", "    file.write(&_dataSize, sizeof(size_t));\n    file.write(&_size, sizeof(size_t));"),
    ("compact offset", P, "offset + 2 * sizeof(size_t)", "offset + sizeof(size_t)"),
    ("mmap swap", V, "  fs.read((char*)&_capacity, sizeof(_capacity));\n  fs.read((char*)&_bytesize, sizeof(_bytesize));", "  fs.read((char*)&_bytesize, sizeof(_bytesize));\n  fs.read((char*)&_capacity, sizeof(_capacity));"),
    ("partial vocab", G, "    out.write((char*)&len, sizeof(len));\n    out.write(word.data(), len);\n    Id id", "    out.write(word.data(), len);\n    out.write((char*)&len, sizeof(len));\n    Id id"),
    ("partial width", G, "    size_t len = word.size();\n    out.write", "    uint32_t len = word.size();\n    out.write"),
    ("trailer", D, "  off_t startOfMeta = file->tell();\n  (*file) << *this;\n", "  (*file) << *this;\n  off_t startOfMeta = file->tell();\n"),
    ("last offset", F, "sizeOfFile() - sizeof(off_t);", "sizeOfFile() - sizeof(uint32_t);"),
    ("pair bytes", I, "    out.write(bufRhs, data.size() * sizeof(Id));", "    out.write(bufRhs, data.size() * sizeof(uint32_t));"),
    ("block resize", I, "block.resize(blockOff.second / (sizeof(Id) + sizeof(off_t)));", "block.resize(blockOff.second / (sizeof(Id)));"),
    ("posting offset", TX, "  meta._startScorelist = _currentoff_t;\n  _currentoff_t += writeCodebook(scoreCodebook, out);", "  _currentoff_t += writeCodebook(scoreCodebook, out);\n  meta._startScorelist = _currentoff_t;"),
    ("posting codebook", TX, "_currentoff_t += writeCodebook(wordCodebook, out);", "_currentoff_t += writeCodebook(scoreCodebook, out);"),
    ("posting count", TX, "    bytes = writeList(wordList, meta._nofElements, out);\n    _currentoff_t += bytes;", "    bytes = writeList(wordList, meta._nofElements, out);"),
    ("posting length", TX, "tbmd._entityCl._lastByte + 1 - tbmd._entityCl._startScorelist", "tbmd._entityCl._lastByte - tbmd._entityCl._startScorelist"),
    ("setting key", I, '_configurationJson["languages-internal"] = j["languages-internal"];', '_configurationJson["languages-external"] = j["languages-internal"];'),
    ("setting lost", I, '    _configurationJson["prefixes-external"] = j["prefixes-external"];\n', ''),
    ("no unescape", EV, "    word = RdfEscaping::unescapeNewlinesAndBackslashes(word);\n", ""),
    ("no escape", G, "_outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten)", "_outfileExternal << _lastWritten"),
    ("offset order", EV, "    offsets.push_back(currentOffset);\n    currentOffset += _file.write(word.data(), word.size());", "    currentOffset += _file.write(word.data(), word.size());\n    offsets.push_back(currentOffset);"),
]
SAFE = [
    ("offset const", M, "*reinterpret_cast<off_t*>(buffer + sizeof(_relId));", "*reinterpret_cast<off_t*>(buffer + sizeof(Id));"),
    ("cursor", M, """  _relId = *reinterpret_cast<Id*>(buffer);
  _startFullIndex = *reinterpret_cast<off_t*>(buffer + sizeof(_relId));
  _typeMultAndNofElements =
      *reinterpret_cast<uint64_t*>(buffer + sizeof(Id) + sizeof(off_t));""", """  unsigned char* pos = buffer;
  _relId = *reinterpret_cast<Id*>(pos);
  pos += sizeof(_relId);
  _startFullIndex = *reinterpret_cast<off_t*>(pos);
  pos += sizeof(_startFullIndex);
  _typeMultAndNofElements = *reinterpret_cast<uint64_t*>(pos);"""),
    ("memcpy", M, "  _relId = *reinterpret_cast<Id*>(buffer);", "  std::memcpy(&_relId, buffer, sizeof(_relId));"),
    ("helper write", [(T, "  f.write(&md._nofElements, sizeof(md._nofElements));", "  writeNumber(f, md._nofElements);"),
                      (T, "// _____________________________________________________________________________\nad_utility::File& operator<<(ad_utility::File& f,\n                             const ContextListMetaData& md) {",
                       "static void writeNumber(ad_utility::File& f, const size_t& n) {\n  f.write(&n, sizeof(n));\n}\n\nad_utility::File& operator<<(ad_utility::File& f,\n                             const ContextListMetaData& md) {")]),
    ("separate streams", T, "  f << md._cl << md._entityCl;", "  f << md._cl;\n  f << md._entityCl;"),
    ("loop rewritten", T, "  for (const auto& b : md._blocks) {\n    f << b;\n  }", "  for (size_t i = 0; i < md._blocks.size(); ++i) {\n    f << md._blocks[i];\n  }"),
    ("reader order", T, "  _lastByte = *reinterpret_cast<off_t*>(buffer + offset);\n  return *this;", "  const off_t lastByte = *reinterpret_cast<off_t*>(buffer + offset);\n  _lastByte = lastByte;\n  return *this;"),
    ("mask names", M, "return uint8_t((_typeMultAndNofElements & 0x0000FF0000000000) >> 40);", "return uint8_t((_typeMultAndNofElements >> 40) & 0xFF);"),
    ("advance together", I, "      off += sizeof(char);", "      off++;"),
    ("block local", I, "block.resize(blockOff.second / (sizeof(Id) + sizeof(off_t)));", "const size_t entrySize = sizeof(Id) + sizeof(off_t);\n  block.resize(blockOff.second / entrySize);"),
    ("postings inline", TX, "  bytes = writeList(scoreList, meta._nofElements, out);\n  _currentoff_t += bytes;", "  _currentoff_t += writeList(scoreList, meta._nofElements, out);"),
    ("escape local", G, "_outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\\n';", "const auto escaped = RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten);\n        _outfileExternal << escaped << '\\n';"),
]

I = "src/index/Index.cpp"
X = "src/index/Index.Text.cpp"
V = "src/index/VocabularyGeneratorImpl.h"
P = "src/parser/TurtleParser.cpp"
B = "src/util/BatchedPipeline.h"
BUGS = [
    ("last relation", I, "    auto md2 = writeSwitchedRel(&out2, lastOffset2, currentRel, &buffer);\n    metaData2.add(md2.first, md2.second);\n  }\n\n  LOG", "  }\n\n  LOG"),
    ("last pattern", I, "  // process the last entry\n  patternCounts[pattern]++;\n", ""),
    ("last guard", I, "  if (from < vec.size()) {\n    auto md =", "  if (buffer.size() > 1) {\n    auto md ="),
    ("no clear", I, "      metaData2.add(md2.first, md2.second);\n      buffer.clear();\n", "      metaData2.add(md2.first, md2.second);\n"),
    ("no reset", I, "      currentRel = (*reader)[c0];\n      functional = true;\n", "      currentRel = (*reader)[c0];\n"),
    ("reset zero", I, "      buffer.clear();\n      distinctC1 = 1;", "      buffer.clear();\n      distinctC1 = 0;"),
    ("early key", I, "    if ((*reader)[c0] != currentRel) {\n", "    if ((*reader)[c0] != currentRel) {\n      currentRel = (*reader)[c0];\n"),
    ("key never", I, "      currentRel = (*reader)[c0];\n      functional", "      functional"),
    ("subject early", I, "      currentSubj = triple[0];\n      patternIndex = 0;\n    }\n", "      patternIndex = 0;\n    }\n    currentSubj = triple[1];\n"),
    ("pattern index", I, "      currentSubj = triple[0];\n      patternIndex = 0;\n", "      currentSubj = triple[0];\n"),
    ("merge rest", V, "  // Handle remaining words in the buffer\n  if (!sortedBuffer.empty()) {\n    writeQueueWordsToIdVec(sortedBuffer);\n  }\n", ""),
    ("merge rest guard", V, "  if (!sortedBuffer.empty()) {\n    writeQ", "  if (sortedBuffer.size() > 1) {\n    writeQ"),
    ("write rest", V, "  if (!writeBuf.empty()) {\n    doActualWrite(writeBuf);\n  }\n", ""),
    ("not cleared", V, "      writeFut = std::async(task);\n      writeBuf.clear();\n", "      writeFut = std::async(task);\n"),
    ("word changed", V, "        _outfile << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\\n';\n      } else", "        _lastWritten = RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten);\n        _outfile << _lastWritten << '\\n';\n      } else"),
    ("count twice", I, "          if (innerOpt) {\n            actualCurrentPartialSize++;", "          actualCurrentPartialSize++;\n          if (innerOpt) {"),
    ("files", I, "    numFiles++;\n    // Save", "    if (actualCurrentPartialSize > 0) {\n      numFiles++;\n    }\n    // Save"),
    ("slots", V, "iterators[0]->second, iterators[1]->second, iterators[2]->second}};\n  }", "iterators[0]->second, iterators[2]->second, iterators[1]->second}};\n  }"),
    ("split last", B, "    res.second = idx < Parallelism - 1\n                     ? std::min(beg + (idx + 1) * batchSize, end)\n                     : end;", "    res.second = std::min(beg + (idx + 1) * batchSize, end);"),
    ("split gap", B, "std::min(beg + (idx + 1) * batchSize, end)", "std::min(beg + (idx + 1) * batchSize - 1, end)"),
    ("split which", B, "idx < Parallelism - 1\n", "idx < Parallelism\n"),
    ("unique", I, "  stxxl::sort(begin(*vec), end(*vec), p1._comp, STXXL_MEMORY_TO_USE);", "  if (!performUnique) {\n    stxxl::sort(begin(*vec), end(*vec), p1._comp, STXXL_MEMORY_TO_USE);\n  }"),
    ("restore triples", P, "  this->_triples.resize(b._numTriples);\n", ""),
    ("restore blanks", P, "  this->_numBlankNodes = b._numBlankNodes;\n  AD_CHECK", "  AD_CHECK"),
    ("next position", B, "      _timer->stop();\n      _bufferPosition = 0;\n", "      _timer->stop();\n"),
    ("next pre", B, "std::move(_buffer[_bufferPosition++])", "std::move(_buffer[++_bufferPosition])"),
    ("next refill", B, "    if (_buffer.size() == _bufferPosition && _isPipelineValid) {", "    if (_buffer.size() <= _bufferPosition + 1 && _isPipelineValid) {"),
    ("text last", X, "  ContextListMetaData entity = writePostings(out, entityPostings, false);\n  _textMeta.addBlock(\n      TextBlockMetaData(currentMinWordId, currentMaxWordId, classic, entity));\n", ""),
    ("text clear", X, "      classicPostings.clear();\n      entityPostings.clear();\n      currentBlockId", "      classicPostings.clear();\n      currentBlockId"),
    ("text min", X, "      currentMinWordId = std::get<2>(*reader);\n      currentMaxWordId = std::get<2>(*reader);\n    }\n    if (!", "      currentMaxWordId = std::get<2>(*reader);\n    }\n    if (!"),
    ("skip position", I, "    buffer.push_back(array<Id, 2>{{(*reader)[c1], (*reader)[c2]}});", "    if (sizeOfRelation < 100000000) {\n      buffer.push_back(array<Id, 2>{{(*reader)[c1], (*reader)[c2]}});\n    }"),
    ("dedup", I, "createPermutationPair<IndexMetaDataHmapDispatcher>(&vocabData, _PSO, _POS,\n                                                     true);", "createPermutationPair<IndexMetaDataHmapDispatcher>(&vocabData, _PSO, _POS,\n                                                     false);"),
]
SAFE = [
    ("reader var", I, "    if ((*reader)[c0] != currentRel) {\n", "    const Id nextRel = (*reader)[c0];\n    if (nextRel != currentRel) {\n"),
    ("equal first", I, "    if (triple[0] != currentSubj) {\n      currentSubj = triple[0];\n      numValidPatterns++;\n      patternCounts[pattern]++;\n      pattern.clear();\n    }", "    if (triple[0] == currentSubj) {\n    } else {\n      numValidPatterns++;\n      patternCounts[pattern]++;\n      pattern.clear();\n      currentSubj = triple[0];\n    }"),
    ("key after", I, "      currentSubj = triple[0];\n      patternIndex = 0;\n    }\n", "      patternIndex = 0;\n    }\n    currentSubj = triple[0];\n"),
    ("lambda", I, "  for (TripleVec::bufreader_type reader(vec); !reader.empty(); ++reader) {\n    if ((*reader)[c0] != currentRel) {\n      auto md = writeRel(out1, lastOffset1, currentRel, buffer, distinctC1,\n                         functional);\n      metaData1.add(md.first, md.second);\n",
               "  auto finish = [&]() {\n    auto md = writeRel(out1, lastOffset1, currentRel, buffer, distinctC1,\n                       functional);\n    metaData1.add(md.first, md.second);\n  };\n  for (TripleVec::bufreader_type reader(vec); !reader.empty(); ++reader) {\n    if ((*reader)[c0] != currentRel) {\n      finish();\n"),
    ("always write", V, "  if (!writeBuf.empty()) {\n    doActualWrite(writeBuf);\n  }\n", "  doActualWrite(writeBuf);\n"),
    ("size gt", V, "  if (!sortedBuffer.empty()) {\n    writeQ", "  if (sortedBuffer.size() > 0) {\n    writeQ"),
    ("new buffer", V, "      writeFut = std::async(task);\n      writeBuf.clear();\n", "      writeFut = std::async(task);\n      writeBuf = {};\n"),
    ("count after", I, "            actualCurrentPartialSize++;\n            localWriter << innerOpt.value();", "            localWriter << innerOpt.value();\n            actualCurrentPartialSize++;"),
    ("files order", I, "    numFiles++;\n    // Save the information how many triples this partial vocabulary actually\n    // deals with we will use this later for mapping from partial to global\n    // ids\n    actualPartialSizes.push_back(actualCurrentPartialSize);\n", "    actualPartialSizes.push_back(actualCurrentPartialSize);\n    ++numFiles;\n"),
    ("skip empty", I, "          if (innerOpt) {\n            actual", "          if (!innerOpt.has_value()) {\n            continue;\n          }\n          {\n            actual"),
    ("split eq", B, "idx < Parallelism - 1\n                     ? std::min(beg + (idx + 1) * batchSize, end)\n                     : end;", "idx == Parallelism - 1\n                     ? end\n                     : std::min(beg + (idx + 1) * batchSize, end);"),
    ("restore order", P, "  this->_numBlankNodes = b._numBlankNodes;\n  AD_CHECK(this->_triples.size() >= b._numTriples);\n  this->_triples.resize(b._numTriples);\n", "  AD_CHECK(this->_triples.size() >= b._numTriples);\n  this->_triples.resize(b._numTriples);\n  this->_numBlankNodes = b._numBlankNodes;\n"),
    ("next ge", B, "    if (_buffer.size() == _bufferPosition && _isPipelineValid) {", "    if (_bufferPosition >= _buffer.size() && _isPipelineValid) {"),
    ("next two", B, "      return std::move(_buffer[_bufferPosition++]);", "      auto& next = _buffer[_bufferPosition];\n      _bufferPosition++;\n      return std::move(next);"),
    ("text order", X, "      classicPostings.clear();\n      entityPostings.clear();\n      currentBlockId = std::get<0>(*reader);", "      currentBlockId = std::get<0>(*reader);\n      entityPostings.clear();\n      classicPostings.clear();"),
]

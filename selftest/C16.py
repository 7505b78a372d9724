V = "src/index/VocabularyGeneratorImpl.h"
I = "src/index/Index.cpp"
B = "src/util/BatchedPipeline.h"
P = "src/parser/ParallelBuffer.h"
FINAL = """  // wait for the active write tasks to finish
  if (writeFuture.valid()) {
    writeFuture.get();
  }
"""
BUGS = [
    ("merge no final wait", V, FINAL, ""),
    ("merge remaining first", [(V, FINAL, ""), (V, """    writeQueueWordsToIdVec(sortedBuffer);
  }
""", """    writeQueueWordsToIdVec(sortedBuffer);
  }
  if (writeFuture.valid()) {
    writeFuture.get();
  }
""")]),
    ("merge wait only", V, FINAL, FINAL.replace("get()", "wait()")),
    ("merge restart", V, """        writeFuture.get();
      }
      writeFuture = std::async(writeTask);""", """      }
      writeFuture = std::async(writeTask);"""),
    ("ids restart", V, """      if (writeFut.valid()) {
        writeFut.get();
      }
      writeFut = std::async(task);""", """      writeFut = std::async(task);"""),
    ("ids no final", V, """  if (writeFut.valid()) {
    writeFut.get();
  }

  if (!writeBuf.empty()) {""", """  if (!writeBuf.empty()) {"""),
    ("ids only when empty", V, """  if (writeFut.valid()) {
    writeFut.get();
  }

  if (!writeBuf.empty()) {
    doActualWrite(writeBuf);
  }
""", """  if (!writeBuf.empty()) {
    doActualWrite(writeBuf);
  } else if (writeFut.valid()) {
    writeFut.get();
  }
"""),
    ("writer finished early", I, """  if (sortFuture.valid()) {
    sortFuture.get();
  }
  writer.finish();""", """  writer.finish();
  if (sortFuture.valid()) {
    sortFuture.get();
  }"""),
    ("sort not awaited", I, """    if (sortFuture.valid()) {
      sortFuture.get();
    }
    std::array<ItemMap""", """    std::array<ItemMap"""),
    ("merge before sort done", [(I, """  if (sortFuture.valid()) {
    sortFuture.get();
  }
  writer.finish();""", ""), (I, """  LOG(INFO) << "Merging vocabulary\\n";
  const Voc""", """  if (sortFuture.valid()) {
    sortFuture.get();
  }
  writer.finish();
  LOG(INFO) << "Merging vocabulary\\n";
  const Voc""")]),
    ("sort swallowed", I, """  if (sortFuture.valid()) {
    sortFuture.get();
  }
  writer.finish();""", """  try {
    sortFuture.get();
  } catch (const std::exception& e) {
    LOG(ERROR) << e.what() << std::endl;
  }
  writer.finish();"""),
    ("task swallowed", I, """    writePartialVocabularyToFile(vec, partialFilename);
""", """    try {
      writePartialVocabularyToFile(vec, partialFilename);
    } catch (const std::exception& e) {
      LOG(ERROR) << e.what() << std::endl;
    }
"""),
    ("buffer resized late", P, """    _fut = std::async(task);

    return ret;""", """    _fut = std::async(task);
    _buf.resize(_blocksize);
    return ret;"""),
    ("buffer copied late", P, """    auto numBytesRead = _fut.get();
    _buf.resize(numBytesRead);
    std::optional<std::vector<char>> ret = std::move(_buf);
""", """    std::optional<std::vector<char>> ret = _buf;
    auto numBytesRead = _fut.get();
    ret->resize(numBytesRead);
"""),
    ("buffer order", P, """  std::vector<char> _buf;
  std::future<size_t> _fut;
};""", """  std::future<size_t> _fut;
  std::vector<char> _buf;
};"""),
    ("extractor order", [(B, """  std::unique_ptr<Pipeline> _pipeline;
  std::future<detail::Batch<ValueT>> _fut;
  std::vector<ValueT> _buffer;""", """  std::future<detail::Batch<ValueT>> _fut;
  std::unique_ptr<Pipeline> _pipeline;
  std::vector<ValueT> _buffer;""")]),
    ("batcher this", B, """                   [bs = _batchSize, ptr = _creator.get(), t = _timer.get()]() {
                     return produceBatchInternal(bs, t, ptr);""", """                   [this, bs = _batchSize]() {
                     return produceBatchInternal(bs, _timer.get(),
                                                 _creator.get());"""),
    ("merge from one", B, """    for (size_t i = 0; i < Parallelism; ++i) {
      auto vec = futures[i].get();""", """    for (size_t i = 0; i + 1 < Parallelism || i == 0; ++i) {
      auto vec = futures[i].get();"""),
    ("merge skips first", B, """    for (size_t i = 0; i < Parallelism; ++i) {
      auto vec = futures[i].get();""", """    for (size_t i = Parallelism > 1 ? 1 : 0; i < Parallelism; ++i) {
      auto vec = futures[i].get();"""),
    ("build goes on", "src/index/IndexBuilderMain.cpp", "    exit(2);\n  }\n  return 0;", "  }\n  return 0;"),
    ("threads detached", "src/engine/Server.cpp", "worker.join()", "worker.detach()"),
]
SAFE = [
    ("move wait", V, FINAL, """  const bool pending = writeFuture.valid();
  if (pending) {
    writeFuture.get();
  }
""".replace("const bool pending = writeFuture.valid();\n  if (pending)", "if (writeFuture.valid() == true)")),
    ("negated", V, """      if (writeFut.valid()) {
        writeFut.get();
      }
      writeFut = std::async(task);
      writeBuf.clear();
      writeBuf.reserve(bufSize);""", """      if (!writeFut.valid()) {
        LOG(TRACE) << "first\\n";
      } else {
        writeFut.get();
      }
      writeFut = std::async(task);
      writeBuf.clear();
      writeBuf.reserve(bufSize);"""),
    ("reorder", I, """    numFiles++;
    // Save""", """    ++numFiles;
    // Save"""),
    ("policy", V, "writeFuture = std::async(writeTask);", "writeFuture = std::async(std::launch::async, writeTask);"),
    ("flag", V, FINAL, """  const bool pending = writeFuture.valid();
  if (pending) {
    writeFuture.get();
  }
"""),
    ("helper", [(V, FINAL, "  waitFor(&writeFuture);\n"), (V, "  std::future<void> writeFuture;\n", """  auto waitFor = [](std::future<void>* f) {
    if (f->valid()) {
      f->get();
    }
  };
  std::future<void> writeFuture;
""")]),
    ("loop", B, """    for (size_t i = 0; i < Parallelism; ++i) {
      auto vec = futures[i].get();""", """    for (auto& fut : futures) {
      auto vec = fut.get();"""),
    ("direct task", V, """      writeFut = std::async(task);
      writeBuf.clear();
      writeBuf.reserve(bufSize);""", """      writeBuf.clear();
      writeBuf.reserve(bufSize);
      writeFut = std::async(task);"""),
    ("clear after", V, """      sortedBuffer.clear();
      sortedBuffer.reserve(_bufferSize);
      // wait for the last batch

      if (writeFuture.valid()) {
        LOG(TRACE) << "Waiting for the asynchronous write to finish\\n";
        writeFuture.get();
      }
      writeFuture = std::async(writeTask);""", """      if (writeFuture.valid()) {
        LOG(TRACE) << "Waiting for the asynchronous write to finish\\n";
        writeFuture.get();
      }
      writeFuture = std::async(writeTask);
      sortedBuffer.clear();
      sortedBuffer.reserve(_bufferSize);"""),
]

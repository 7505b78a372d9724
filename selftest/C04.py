O = "src/engine/Operation.cpp"
T = "src/util/Timer.h"
BUGS = [
    ("join child", "src/engine/Join.h", "return {_left.get(), _right.get()};", "return {_left.get()};"),
    ("transitive child", "src/engine/TransitivePath.h", "_rightSideTree.get()", "_leftSideTree.get()"),
    ("no store", O, "  _timeoutTimer = timer;\n", ""),
    ("no recursion", O, "      child->recursivelySetTimeoutTimer(timer);", "      (void)child;"),
    ("only first", O, "      child->recursivelySetTimeoutTimer(timer);", "      child->recursivelySetTimeoutTimer(timer);\n      break;"),
    ("no post check", O, """      if (_timeoutTimer->wlock()->hasTimedOut()) {
        throw ad_utility::TimeoutException(
            "Timeout in " + getDescriptor() +
            ". This timeout was not caught inside the actual computation, "
            "which indicates insufficient timeout functionality.");
      }
""", ""),
    ("warn only", O, """        throw ad_utility::TimeoutException(
            "Timeout in " + getDescriptor() +
            ". This timeout was not caught inside the actual computation, "
            "which indicates insufficient timeout functionality.");""", """        LOG(WARN) << "Timeout in " << getDescriptor() << std::endl;"""),
    ("no pre check", O, """      if (_timeoutTimer->wlock()->hasTimedOut()) {
        throw ad_utility::TimeoutException(
            "Timeout in operation with no or insufficient timeout "
            "functionality, before " +
            getDescriptor());
      }
""", ""),
    ("scan no timer", "src/engine/IndexScan.cpp", "idx.scan(_subject, &result->_data, idx._SPO, _timeoutTimer);", "idx.scan(_subject, &result->_data, idx._SPO);"),
    ("index drops timer", "src/index/Index.h", "      scan(relId, result, p, std::move(timer));", "      scan(relId, result, p);"),
    ("read no poll", "src/util/File.h", "      if (timer) {\n        timer->wlock()->checkTimeoutAndThrow();\n      }\n", ""),
    ("timer stopped", T, "    auto hasTimedOut = usecs() > _timeLimitInMicroseconds;\n    if (isRunningSnapshot) {\n      cont();\n    }\n", "    auto hasTimedOut = usecs() > _timeLimitInMicroseconds;\n"),
    ("snapshot late", T, "    auto isRunningSnapshot = isRunning();\n    stop();\n", "    stop();\n    auto isRunningSnapshot = isRunning();\n"),
    ("polarity", T, "auto hasTimedOut = usecs() > _timeLimitInMicroseconds", "auto hasTimedOut = usecs() < _timeLimitInMicroseconds"),
    ("units", T, "static_cast<off_t>(seconds * 1000 * 1000)", "static_cast<off_t>(seconds * 1000)"),
    ("msecs", T, "auto hasTimedOut = usecs() > _timeLimitInMicroseconds", "auto hasTimedOut = msecs() > _timeLimitInMicroseconds"),
    ("counter reset", "src/engine/Operation.h", "                                                     getDescriptor());\n        i = 0;\n      }\n", "                                                     getDescriptor());\n      }\n      i = 0;\n"),
    ("not started", "src/engine/Server.cpp", "      timeoutTimer->wlock()->start();\n", ""),
    ("not set", "src/engine/Server.cpp", "      qet.recursivelySetTimeoutTimer(timeoutTimer);\n", ""),
    ("set late", [("src/engine/Server.cpp", "      qet.recursivelySetTimeoutTimer(timeoutTimer);\n", ""), ("src/engine/Server.cpp", "      // Print the runtime info. This needs", "      qet.recursivelySetTimeoutTimer(timeoutTimer);\n      // Print the runtime info. This needs")]),
    ("swallow", O, "    LOG(ERROR) << e.what() << endl;\n    // Rethrow as QUERY_ABORTED allowing us to print the Operation\n    // only at innermost failure of a recursive call\n    throw ad_semsearch::AbortException(e);", "    LOG(ERROR) << e.what() << endl;\n    return std::make_shared<const ResultTable>(getExecutionContext()->getAllocator());"),
    ("fresh timer", "src/engine/Server.cpp", "        timeoutTimer = std::make_shared<ad_utility::ConcurrentTimeoutTimer>(\n            ad_utility::TimeoutTimer::fromSeconds(", "        auto timeoutTimer = std::make_shared<ad_utility::ConcurrentTimeoutTimer>(\n            ad_utility::TimeoutTimer::fromSeconds("),
]
SAFE = [
    ("timer helper", [("src/engine/Server.cpp", """        timeoutTimer = std::make_shared<ad_utility::ConcurrentTimeoutTimer>(
            ad_utility::TimeoutTimer::fromSeconds(
                atof(params["timeout"].c_str())));""", """        timeoutTimer = makeTimer(params);"""),
      ("src/engine/Server.cpp", "// _____________________________________________________________________________\nvoid Server::process(", """static ad_utility::SharedConcurrentTimeoutTimer makeTimer(ad_utility::HashMap<string, string>& params) {
  return std::make_shared<ad_utility::ConcurrentTimeoutTimer>(ad_utility::TimeoutTimer::fromSeconds(atof(params["timeout"].c_str())));
}
void Server::process("""), ]),
    ("use checkTimeout", O, """      if (_timeoutTimer->wlock()->hasTimedOut()) {
        throw ad_utility::TimeoutException(
            "Timeout in " + getDescriptor() +
            ". This timeout was not caught inside the actual computation, "
            "which indicates insufficient timeout functionality.");
      }
""", "      checkTimeout();\n"),
    ("bool variable", O, "      if (_timeoutTimer->wlock()->hasTimedOut()) {\n        throw ad_utility::TimeoutException(\n            \"Timeout in \" + getDescriptor() +\n            \". This", "      const bool late = _timeoutTimer->wlock()->hasTimedOut();\n      if (late) {\n        throw ad_utility::TimeoutException(\n            \"Timeout in \" + getDescriptor() +\n            \". This"),
    ("children push", "src/engine/Join.h", "return {_left.get(), _right.get()};", "vector<QueryExecutionTree*> r;\n    r.push_back(_left.get());\n    r.push_back(_right.get());\n    return r;"),
    ("index loop", O, "  for (auto child : getChildren()) {\n    if (child) {\n      child->recursivelySetTimeoutTimer(timer);\n    }\n  }", "  auto all = getChildren();\n  for (size_t i = 0; i < all.size(); ++i) {\n    if (all[i] != nullptr) {\n      all[i]->recursivelySetTimeoutTimer(timer);\n    }\n  }"),
    ("limit on the left", T, "auto hasTimedOut = usecs() > _timeLimitInMicroseconds", "auto hasTimedOut = _timeLimitInMicroseconds < usecs()"),
    ("scan local timer", "src/engine/IndexScan.cpp", "idx.scan(_subject, &result->_data, idx._SPO, _timeoutTimer);", "const auto& t = _timeoutTimer;\n  idx.scan(_subject, &result->_data, idx._SPO, t);"),
    ("run helper", [(O, "      computeResult(val._resultTable.get());\n", "      runComputation(val._resultTable.get());\n"), ("src/engine/Operation.h", "  void checkTimeout() const;", "  void checkTimeout() const;\n  void runComputation(ResultTable* t) { computeResult(t); }")]),
]

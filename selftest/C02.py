F = "src/util/ConcurrentCache.h"
BUGS = [
    ("no abort", F, "        resultInProgress->abort();\n", ""),
    ("no erase on failure", F, "        _cacheAndInProgressMap.wlock()->_inProgress.erase(key);\n", ""),
    ("catch std::exception only", F, "      } catch (...) {", "      } catch (const std::exception&) {"),
    ("no rethrow", F, "        resultInProgress->abort();\n        throw;\n", "        resultInProgress->abort();\n        return {nullptr, false};\n"),
    ("notify_one", F, "    _result = std::move(result);\n    _conditionVariable.notify_all();", "    _result = std::move(result);\n    _conditionVariable.notify_one();"),
    ("no notify in abort", F, "    _status = Status::ABORTED;\n    _conditionVariable.notify_all();", "    _status = Status::ABORTED;"),
    ("no status lock", F, "    std::lock_guard lockGuard(_mutex);\n    _status = Status::ABORTED;", "    _status = Status::ABORTED;"),
    ("compute under lock", F, "    if (mustCompute) {\n", "    if (mustCompute) {\n      auto l = _cacheAndInProgressMap.wlock();\n"),
    ("wait under lock", F, "      return {resultInProgress->getResult(), false};", "      auto l = _cacheAndInProgressMap.wlock();\n      return {resultInProgress->getResult(), false};"),
    ("two critical sections", F, "      } else if (lockPtr->_inProgress.contains(key)) {", "      }\n    }\n    {\n      auto lockPtr = _cacheAndInProgressMap.wlock();\n      if (lockPtr->_inProgress.contains(key)) {"),
    ("finish missing", F, "        resultInProgress->finish(result);\n", ""),
    ("erase before insert gap", F, "        moveFromInProgressToCache(key, result);\n", "        _cacheAndInProgressMap.wlock()->_inProgress.erase(key);\n        _cacheAndInProgressMap.wlock()->_cache.insert(key, result);\n"),
    ("entry kept on success", F, "    lockPtr->_inProgress.erase(key);\n  }", "  }"),
    ("aborted returns result", F, "    if (_status == ResultInProgress::Status::ABORTED) {", "    if (_status == ResultInProgress::Status::IN_PROGRESS) {"),
    ("wait only for finished", F, "return _status != Status::IN_PROGRESS; }", "return _status == Status::FINISHED; }"),
    ("wait without predicate", F, "    _conditionVariable.wait(uniqueLock,\n                            [this] { return _status != Status::IN_PROGRESS; });", "    if (_status == Status::IN_PROGRESS) {\n      _conditionVariable.wait(uniqueLock);\n    }"),
    ("waiters get nothing", F, "    _result = std::move(result);\n", ""),
    ("not stored", F, "      lockPtr->_cache.insert(std::move(key), std::move(computationResult));", ""),
    ("waiter recomputes", F, "        mustCompute = false;", "        mustCompute = !pinned;"),
    ("finish outside try", F, "        // Signal other threads who are waiting for the results.\n        resultInProgress->finish(result);\n        // result was not cached\n        return {std::move(result), false};\n", "        if (!pinned) {\n          resultInProgress->finish(result);\n        }\n        return {std::move(result), false};\n"),
]
SAFE = [
    ("wait loop", F, "    _conditionVariable.wait(uniqueLock,\n                            [this] { return _status != Status::IN_PROGRESS; });", "    while (_status == Status::IN_PROGRESS) {\n      _conditionVariable.wait(uniqueLock);\n    }"),
    ("find instead of contains", F, "      } else if (lockPtr->_inProgress.contains(key)) {", "      } else if (lockPtr->_inProgress.find(key) !=\n                 lockPtr->_inProgress.end()) {"),
    ("helper for failure", F, "        _cacheAndInProgressMap.wlock()->_inProgress.erase(key);\n        // Result computation has failed, signal the other threads,\n        resultInProgress->abort();\n        throw;\n      }", "        dropPending(key, *resultInProgress);\n        throw;\n      }") ,
    ("result first", F, "    _status = Status::FINISHED;\n    _result = std::move(result);\n", "    _result = std::move(result);\n    _status = Status::FINISHED;\n"),
    ("notify outside lock", F, "    std::lock_guard lockGuard(_mutex);\n    _status = Status::ABORTED;\n", "    {\n      std::lock_guard lockGuard(_mutex);\n      _status = Status::ABORTED;\n    }\n"),
    ("emplace", F, "        lockPtr->_inProgress[key] = std::pair(pinned, resultInProgress);", "        lockPtr->_inProgress.emplace(key, std::pair(pinned, resultInProgress));"),
    ("withWriteLock erase", F, "        _cacheAndInProgressMap.wlock()->_inProgress.erase(key);\n", "        {\n          auto lock = _cacheAndInProgressMap.wlock();\n          lock->_inProgress.erase(key);\n        }\n"),
]
SAFE[2] = (SAFE[2][0], [SAFE[2][1:], (F, "  // Data members\n  SyncCache", "  void dropPending(const Key& k, ResultInProgress& pending) {\n    {\n      auto guard = _cacheAndInProgressMap.wlock();\n      guard->_inProgress.erase(k);\n    }\n    pending.abort();\n  }\n\n  // Data members\n  SyncCache")])

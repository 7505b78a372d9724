C, O, S, A, SV, IS = ("src/util/ConcurrentCache.h", "src/engine/Operation.cpp", "src/util/Synchronized.h", "src/util/AllocatorWithLimit.h", "src/engine/Server.cpp", "src/engine/IndexScan.cpp")
BUGS = [
    ("compute under lock", C, "    }  // release the lock, it is not required while we are computing\n    if (mustCompute) {", "    auto lp = _cacheAndInProgressMap.wlock();\n    }\n    auto lp = _cacheAndInProgressMap.wlock();\n    if (mustCompute) {"),
    ("wait under lock", C, "        resultInProgress = lockPtr->_inProgress[key].second;", "        resultInProgress = lockPtr->_inProgress[key].second;\n        return {resultInProgress->getResult(), false};"),
    ("finish under lock", C, "        moveFromInProgressToCache(key, result);", "        auto lock = _cacheAndInProgressMap.wlock();\n        moveFromInProgressToCache(key, result);"),
    ("abort unlocked", C, "    std::lock_guard lockGuard(_mutex);\n    _status = Status::ABORTED;", "    _status = Status::ABORTED;"),
    ("finish unlocked", C, "    std::lock_guard lockGuard(_mutex);\n    AD_CHECK(_status == Status::IN_PROGRESS);\n    _status = Status::FINISHED;", "    AD_CHECK(_status == Status::IN_PROGRESS);\n    _status = Status::FINISHED;"),
    ("status unlocked", C, "    std::unique_lock uniqueLock(_mutex);\n", "    if (_status == Status::ABORTED) {\n      throw WaitedForResultWhichThenFailedException{};\n    }\n    std::unique_lock uniqueLock(_mutex);\n"),
    ("wrong mode", S, "      s_->m_.unlock_shared();", "      s_->m_.unlock();"),
    ("no guard", S, "    std::shared_lock l(m_);\n", ""),
    ("shared for write", S, "  auto wlock() { return LockPtr<Synchronized, false, false>{this}; }", "  auto wlock() { return LockPtr<Synchronized, false, false>{this}; }\n  const T& unlocked() const { return t_; }"),
    ("pinned during compute", O, """        child->getSizeEstimate();
      }
    });
  }
""", """        child->getSizeEstimate();
        child->getResult();
      }
    });
  }
"""),
    ("order cycle", SV, "        auto lock = _pinnedSizes.wlock();", "        auto lock = _pinnedSizes.wlock();\n        LOG(INFO) << _pinnedSizes.rlock()->size();"),
    ("split", A, "    memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));\n    // the", "    if (memoryLeft_.ptr()->wlock()->numFreeBytes() >= n * sizeof(T)) {\n      memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));\n    }\n    // the"),
    ("keep reference", IS, "        auto rlock = getExecutionContext()->getPinnedSizes().rlock();", "        const auto& m = *getExecutionContext()->getPinnedSizes().rlock();\n        if (m.count(\"\")) return 0;\n        auto rlock = getExecutionContext()->getPinnedSizes().rlock();"),
    ("lock across scan", IS, """          return rlock->at(key);
        }
      }
      return getResult()->size();
""", """          return rlock->at(key);
        }
        return getResult()->size();
      }
"""),
]
SAFE = [
    ("named guard", C, "  void clearAll() { _cacheAndInProgressMap.wlock()->_cache.clearAll(); }", "  void clearAll() {\n    auto l = _cacheAndInProgressMap.wlock();\n    l->_cache.clearAll();\n  }"),
    ("withWriteLock", C, "    return _cacheAndInProgressMap.wlock()->_cache.numNonPinnedEntries();", "    return _cacheAndInProgressMap.withWriteLock(\n        [](const auto& l) { return l._cache.numNonPinnedEntries(); });"),
    ("timer helper", O, "  if (_timeoutTimer->wlock()->hasTimedOut()) {", "  const bool over = _timeoutTimer->wlock()->hasTimedOut();\n  if (over) {"),
    ("lock later", C, "    std::lock_guard lockGuard(_mutex);\n    AD_CHECK(_status == Status::IN_PROGRESS);\n    _status = Status::FINISHED;", "    AD_CHECK(result);\n    std::unique_lock lockGuard(_mutex);\n    AD_CHECK(_status == Status::IN_PROGRESS);\n    _status = Status::FINISHED;"),
    ("lambda", A, "    memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));\n    // the", "    auto take = [&] {\n      memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));\n    };\n    take();\n    // the"),
    ("copy handle", C, "    // Signal other threads who are waiting for the results.", "    // Signal all the other threads who are waiting for the results."),
]

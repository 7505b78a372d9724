F = "src/util/AllocatorWithLimit.h"
BUGS = [
    ("no refund on failure", F, """    try {
      return allocator_.allocate(n);
    } catch (...) {
      // Nothing was allocated, so the memory is still left.
      memoryLeft_.ptr()->wlock()->increase(n * sizeof(T));
      throw;
    }""", "    return allocator_.allocate(n);"),
    ("charge elements", F, "decrease_if_enough_left(n * sizeof(T))", "decrease_if_enough_left(n)"),
    ("refund elements", F, "    // Update the amount of memory left.\n    memoryLeft_.ptr()->wlock()->increase(n * sizeof(T));", "    memoryLeft_.ptr()->wlock()->increase(n);"),
    ("no refund", F, "    // Update the amount of memory left.\n    memoryLeft_.ptr()->wlock()->increase(n * sizeof(T));", ""),
    ("refund only big", F, "    // Update the amount of memory left.\n", "    if (n * sizeof(T) > 4096)\n"),
    ("small not charged", F, "    memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));", "    if (n > 64) memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));"),
    ("signed test", F, "    if (n <= free_) {\n      free_ -= n;", "    if (free_ - n >= 0) {\n      free_ -= n;"),
    ("off by", F, "    if (n <= free_) {\n      free_ -= n;", "    if (n <= free_ || n < 1024) {\n      free_ -= n;"),
    ("no throw", F, "      throw AllocationExceedsLimitException{n, free_};", "      free_ = 0;"),
    ("refund wrong", F, "{ free_ += n; }", "{ free_ = n; }"),
    ("no propagate", F, "  using propagate_on_container_move_assignment = std::true_type;", "  using propagate_on_container_move_assignment = std::false_type;"),
    ("own budget", "src/engine/Distinct.cpp", "  result->_data.setCols(subRes->_data.cols());", "  ResultTable tmp(ad_utility::AllocatorWithLimit<Id>{ad_utility::makeAllocationMemoryLeftThreadsafeObject(size_t(1) << 40)});\n  tmp._data.setCols(1);\n  result->_data.setCols(subRes->_data.cols());"),
    ("limit unit", "src/engine/Server.h", "maxMemGB * (1ull << 30u)", "maxMemGB * (1ull << 40u)"),
]
SAFE = [
    ("variable", F, "    memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));", "    const size_t bytes = sizeof(T) * n;\n    memoryLeft_.ptr()->wlock()->decrease_if_enough_left(bytes);"),
    ("inverted test", F, """    if (n <= free_) {
      free_ -= n;
    } else {
      throw AllocationExceedsLimitException{n, free_};
    }""", """    if (free_ < n) {
      throw AllocationExceedsLimitException{n, free_};
    }
    free_ = free_ - n;"""),
    ("bool test", F, "    if (n <= free_) {", "    const bool enough = n <= free_;\n    if (enough) {"),
    ("refund first", F, """    allocator_.deallocate(p, n);
    // Update the amount of memory left.
    memoryLeft_.ptr()->wlock()->increase(n * sizeof(T));""", """    memoryLeft_.ptr()->wlock()->increase(n * sizeof(T));
    allocator_.deallocate(p, n);"""),
    ("helper", [(F, "    // Update the amount of memory left.\n    memoryLeft_.ptr()->wlock()->increase(n * sizeof(T));\n  }", "    giveBack(n);\n  }\n  void giveBack(size_t numElements) {\n    auto l = memoryLeft_.ptr()->wlock();\n    l->increase(numElements * sizeof(T));\n  }")]),
    ("limit var", "src/engine/Server.h", "maxMemGB * (1ull << 30u)", "maxMemGB * 1024 * 1024 * 1024"),
]

// Compile-time facts about the limited allocator and the tables of queries.
#include <memory>
#include <string>
#include <type_traits>
#include "src/engine/IdTable.h"
#include "src/engine/ResultTable.h"
#include "src/util/AllocatorWithLimit.h"
using A = ad_utility::AllocatorWithLimit<Id>;
using Tr = std::allocator_traits<A>;
static_assert(Tr::propagate_on_container_copy_assignment::value, "WITNESS copies of a table are not charged to the budget of the source");
static_assert(Tr::propagate_on_container_move_assignment::value, "WITNESS moved tables are not charged to the budget of the source");
static_assert(Tr::propagate_on_container_swap::value, "WITNESS swapped tables are given back to the wrong budget");
static_assert(!Tr::is_always_equal::value, "WITNESS memory of one budget may be given back to another");
static_assert(!std::is_default_constructible_v<A>, "WITNESS an allocator can be made without a budget");
static_assert(!std::is_default_constructible_v<ResultTable>, "WITNESS a result can be made without a budget");
static_assert(std::is_constructible_v<ResultTable, A>, "WITNESS a result takes the allocator of the query");
static_assert(std::is_same_v<decltype(std::declval<IdTable&>().getAllocator()), A> || std::is_same_v<std::decay_t<decltype(std::declval<IdTable&>().getAllocator())>, A>,
              "WITNESS tables use the limited allocator");

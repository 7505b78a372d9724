// Tables that only refer to the rows of another table cannot be used to change them.
#include <memory>
#include "src/engine/IdTable.h"
#include "src/engine/ResultTable.h"

using View2 = IdTableView<2>;
using View0 = IdTableView<0>;
template <typename T> concept WritesCell = requires(T& t) { t(0, 0) = Id{1}; };
template <typename T> concept WritesRow = requires(T& t) { t[0][0] = Id{1}; };
template <typename T> concept WritesData = requires(T& t) { *t.data() = Id{1}; };
template <typename T> concept WritesFront = requires(T& t) { (*t.begin())[0] = Id{1}; };
static_assert(!WritesCell<View2> && !WritesCell<View0>, "WITNESS a cell of a table can be written through a view of it");
static_assert(!WritesRow<View2> && !WritesRow<View0>, "WITNESS a row of a table can be written through a view of it");
static_assert(!WritesData<View2> && !WritesData<View0>, "WITNESS the rows of a table can be written through the data of a view of it");
static_assert(!WritesFront<View2> && !WritesFront<View0>, "WITNESS the rows of a table can be written through an iterator of a view of it");
static_assert(!WritesCell<const IdTable>, "WITNESS a cell of a constant table can be written");
static_assert(!WritesRow<const IdTable>, "WITNESS a row of a constant table can be written");
static_assert(!WritesData<const IdTable>, "WITNESS the data of a constant table can be written");
static_assert(!WritesFront<const IdTable>, "WITNESS a constant table can be written through its iterator");
// The same questions do say yes for a table that may be written.
static_assert(WritesCell<IdTable> && WritesRow<IdTable> && WritesData<IdTable> && WritesFront<IdTable>, "the questions above are not the right ones");

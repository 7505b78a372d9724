// See stl_vector.h. The overload of __fill_a1 for bit iterators is declared
// constexpr elsewhere; its definition gets another name (never called here).
#pragma GCC system_header
#pragma push_macro("_GLIBCXX20_CONSTEXPR")
#undef _GLIBCXX20_CONSTEXPR
#define _GLIBCXX20_CONSTEXPR inline
#define __fill_a1 __fill_a1_for_bits
#include_next <bits/stl_bvector.h>
#undef __fill_a1
#pragma pop_macro("_GLIBCXX20_CONSTEXPR")

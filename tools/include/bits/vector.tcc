// g++ defers the instantiation of vector's members for incomplete element
// types, clang instantiates constexpr members eagerly. For parsing only, the
// members are not constexpr.
#pragma GCC system_header
#pragma push_macro("_GLIBCXX20_CONSTEXPR")
#undef _GLIBCXX20_CONSTEXPR
#define _GLIBCXX20_CONSTEXPR inline
#include_next <bits/vector.tcc>
#pragma pop_macro("_GLIBCXX20_CONSTEXPR")

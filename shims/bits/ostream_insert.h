#pragma once
#include "../sxstream.hpp"
namespace std { inline namespace sxio {
template <class C, class T> inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, streamsize n) { return o.sx_padded(s, n); }
} }

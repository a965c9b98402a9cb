#pragma once
#include <iosfwd>
namespace std { template <class C, class T> inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, C const *s, streamsize n); }

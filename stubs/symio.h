// Stand-in for the standard streams (string based, no locale, no virtual functions): the real ones live in libstdc++.so and cannot be executed symbolically.
#pragma once
#include <bits/postypes.h>
#include <bits/char_traits.h>
#include <cstddef>
#include <cstdint>
namespace std {
template <typename> class allocator;
inline namespace symio {
class ios_base;
template <class C, class T = char_traits<C>> class basic_ios;
template <class C, class T = char_traits<C>> class basic_streambuf;
template <class C, class T = char_traits<C>> class basic_ostream;
template <class C, class T = char_traits<C>> class basic_istream;
template <class C, class T = char_traits<C>> class basic_iostream;
template <class C, class T = char_traits<C>, class A = allocator<C>> class basic_stringstream;
template <class C, class T = char_traits<C>, class A = allocator<C>> class basic_ostringstream;
template <class C, class T = char_traits<C>, class A = allocator<C>> class basic_istringstream;
typedef basic_ostream<wchar_t> wostream; typedef basic_istream<wchar_t> wistream;
typedef basic_ios<char> ios; typedef basic_streambuf<char> streambuf; typedef basic_ostream<char> ostream; typedef basic_istream<char> istream; typedef basic_iostream<char> iostream;
typedef basic_stringstream<char> stringstream; typedef basic_ostringstream<char> ostringstream; typedef basic_istringstream<char> istringstream;
}
template <class C, class T = char_traits<C>> class istreambuf_iterator;
template <class C, class T = char_traits<C>> class ostreambuf_iterator;
}

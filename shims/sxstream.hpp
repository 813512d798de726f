// Character streams for the symbolic build: libstdc++ keeps most of its stream code in the binary library, which has no
// bitcode; this is the part of the standard interface that formatting code uses, written as ordinary header code.
#pragma once
#include <bits/c++config.h>
#include <bits/stringfwd.h>
#include <bits/postypes.h>
namespace std {
template <class C, class T = char_traits<C>> class istreambuf_iterator;
template <class C, class T = char_traits<C>> class ostreambuf_iterator;
inline namespace sxio {
class ios_base;
template <class C, class T = char_traits<C>> class basic_ios;
template <class C, class T = char_traits<C>> class basic_streambuf;
template <class C, class T = char_traits<C>> class basic_istream;
template <class C, class T = char_traits<C>> class basic_ostream;
template <class C, class T = char_traits<C>> class basic_iostream;
template <class C, class T = char_traits<C>, class A = allocator<C>> class basic_stringbuf;
template <class C, class T = char_traits<C>, class A = allocator<C>> class basic_istringstream;
template <class C, class T = char_traits<C>, class A = allocator<C>> class basic_ostringstream;
template <class C, class T = char_traits<C>, class A = allocator<C>> class basic_stringstream;
template <class C, class T = char_traits<C>> class basic_filebuf;
template <class C, class T = char_traits<C>> class basic_ifstream;
template <class C, class T = char_traits<C>> class basic_ofstream;
template <class C, class T = char_traits<C>> class basic_fstream;
typedef basic_ios<char> ios; typedef basic_streambuf<char> streambuf; typedef basic_istream<char> istream; typedef basic_ostream<char> ostream; typedef basic_iostream<char> iostream;
typedef basic_stringbuf<char> stringbuf; typedef basic_istringstream<char> istringstream; typedef basic_ostringstream<char> ostringstream; typedef basic_stringstream<char> stringstream;
typedef basic_filebuf<char> filebuf; typedef basic_ifstream<char> ifstream; typedef basic_ofstream<char> ofstream; typedef basic_fstream<char> fstream;
typedef basic_ios<wchar_t> wios; typedef basic_istream<wchar_t> wistream; typedef basic_ostream<wchar_t> wostream;
}
}

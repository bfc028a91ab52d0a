//! configs: debug release
//! bounds: 1D input of up to 9 numbers (beyond the initial capacity of 8), 2D input of up to 5 lines and up to 5 columns with every mixture of line lengths up to 3x3, blank lines and invalid text at every place; all numbers symbolic, of types int, long, unsigned and double; arrays, slices and expressions of up to 9 elements and up to 2x2, 1x3 and 3x1 printed and read back
//! assumes: the standard streams are stand-ins in which a number is one character: how a number is spelled, and rounded to the printed precision, is left to the standard library; whitespace separates numbers, reading stops at the end or at text that is no number. Lines of nothing but spaces inside the input are outside
#include <cmath>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <cstring>
#include <type_traits>
#include <vector>
#include <algorithm>
#include <bit>
#include <cassert>
#include <chrono>
#include <concepts>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <ranges>
#include <thread>
#include <tuple>
#include <utility>
#include "sym.hpp"

namespace std {
// Number k is the character 128 + k of a text.
inline long sym_bits[100];
inline int sym_count = 0;
template <class T>
long sym_to_bits(T x) {
   if constexpr(is_same_v<T, double>) return __builtin_bit_cast(long, x);
   else if constexpr(is_same_v<T, float>) return __builtin_bit_cast(int, x);
   else return static_cast<long>(x);
}
template <class T>
T sym_of_bits(long b) {
   if constexpr(is_same_v<T, double>) return __builtin_bit_cast(double, b);
   else if constexpr(is_same_v<T, float>) return __builtin_bit_cast(float, static_cast<int>(b));
   else return static_cast<T>(b);
}
inline bool sym_number(char c) { return (c & 0x80) != 0; }
inline bool sym_space(char c) { return c == ' ' || c == '\n'; }
inline string sym_file, sym_screen;
inline bool sym_can_open = true;

class sym_istream {
public:
   sym_istream() = default;
   explicit sym_istream(const string& s) : s_{s} {}
   explicit operator bool() const { return !fail_; }
   bool operator!() const { return fail_; }
   bool fail() const { return fail_; }
   bool good() const { return !fail_ && !eof_; }
   bool eof() const { return eof_; }
   void clear() { eof_ = fail_ = false; }
   template <class T>
      requires is_arithmetic_v<T>
   sym_istream& operator>>(T& x) {
      if(eof_) fail_ = true;
      if(fail_) return *this;
      while(at_ < s_.size() && sym_space(s_[at_])) ++at_;
      if(at_ >= s_.size()) {
         eof_ = fail_ = true;
         return *this;
      }
      if(!sym_number(s_[at_])) {
         fail_ = true;
         x = T{};
         return *this;
      }
      x = sym_of_bits<T>(sym_bits[s_[at_++] & 0x7f]);
      eof_ = at_ >= s_.size();
      if(!eof_ && sym_number(s_[at_])) { // two numbers without a space are read as one
         x = T{};
         fail_ = true;
      }
      return *this;
   }
   sym_istream& line(string& l) {
      if(eof_) fail_ = true;
      if(fail_) return *this;
      l.clear();
      bool any = false;
      while(at_ < s_.size()) {
         any = true;
         char c = s_[at_++];
         if(c == '\n') return *this;
         l.push_back(c);
      }
      eof_ = true;
      fail_ = !any;
      return *this;
   }

protected:
   string s_;
   size_t at_ = 0;
   bool eof_ = false, fail_ = false;
};
inline sym_istream& getline(sym_istream& is, string& l) { return is.line(l); }
struct sym_istringstream : sym_istream {
   using sym_istream::sym_istream;
};
struct sym_ifstream : sym_istream {
   explicit sym_ifstream(const string&) {
      if(sym_can_open) s_ = sym_file;
      fail_ = !sym_can_open;
   }
   bool is_open() const { return sym_can_open; }
   void close() {}
};

class sym_ostream {
public:
   explicit operator bool() const { return !fail_; }
   bool operator!() const { return fail_; }
   sym_ostream& operator<<(const char* t) { return put(t); }
   sym_ostream& operator<<(char c) { return put(string(1, c)); }
   sym_ostream& operator<<(const string& t) { return put(t); }
   template <class T>
      requires is_arithmetic_v<T>
   sym_ostream& operator<<(T x) {
      sym_check(sym_count < 100, "~capacity of the stand-in");
      sym_bits[sym_count] = sym_to_bits(x);
      return put(string(1, static_cast<char>(128 + sym_count++)));
   }
   sym_ostream& operator<<(decltype(setw(0))) { return *this; }
   sym_ostream& operator<<(decltype(setprecision(0))) { return *this; }
   sym_ostream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
   sym_ostream& operator<<(sym_ostream& (*f)(sym_ostream&)) { return f(*this); }
   const string& str() const { return s_; }

protected:
   virtual sym_ostream& put(const string& t) {
      s_ += t;
      return *this;
   }
   string s_;
   bool fail_ = false;
};
inline sym_ostream& sym_flush(sym_ostream& os) { return os; }
inline sym_ostream& sym_endl(sym_ostream& os) { return os << '\n'; }
struct sym_ostringstream : sym_ostream {};
struct sym_ofstream : sym_ostream {
   explicit sym_ofstream(const string&) {
      fail_ = !sym_can_open;
      if(sym_can_open) sym_file = string{};
   }
   void close() {}

protected:
   sym_ostream& put(const string& t) override {
      if(!fail_) sym_file += t;
      return *this;
   }
};
struct sym_console : sym_ostream {
protected:
   sym_ostream& put(const string& t) override {
      sym_screen += t;
      return *this;
   }
};
inline sym_console sym_cout;
} // namespace std
#define istream sym_istream
#define istringstream sym_istringstream
#define ifstream sym_ifstream
#define ostream sym_ostream
#define ostringstream sym_ostringstream
#define ofstream sym_ofstream
#define cout sym_cout
#define flush sym_flush
#define endl sym_endl
#include "common.hpp"

template <class T>
static std::string number(T x) {
   std::sym_bits[std::sym_count] = std::sym_to_bits(x);
   return std::string(1, static_cast<char>(128 + std::sym_count++));
}
struct Session {
   Session() {
      std::sym_count = 0;
      std::sym_can_open = true;
   }
   ~Session() {
      std::string{}.swap(std::sym_file);
      std::string{}.swap(std::sym_screen);
   }
};
// The separators of numbers that a text may have.
static const char* gap(i64 k) { return k == 0 ? " " : k == 1 ? "   " : "\n"; }

template <class T>
static void read1() {
   Session session;
   i64 n = pick("n", 0, 9), g = pick("gap", 0, 2), ends = pick("end", 0, 2), bad = pick("bad", -1, 2), way = pick("way", 0, 1);
   sym_assume(bad < n);
   auto old = symref<T>(2, "old");
   Array1D<T> A = mk(old);
   Ref<T> r;
   std::string t = ends == 2 ? "\n " : "";
   for(i64 i = 0; i < n; ++i) {
      r.push(sym<T>("x"));
      if(i) t += gap(g);
      if(bad == i) t += "x";
      t += number(r[i]);
   }
   if(ends) t += "\n";
   int o = outcome([&] {
      if(way) {
         std::istringstream is{t};
         is >> A;
         CHECK(bool(is), "a stream can be used after a 1D array was read");
      } else {
         std::sym_file = t;
         read_from_file("f", A);
      }
   });
   CHECK(o == (bad >= 0 ? 1 : 0), "reading a 1D array fails exactly for text that is no number");
   if(o == 0) CHECK(eq(A, r), "reading a 1D array gives exactly the numbers of the text in order");
   else CHECK(eq(A, old), "a failed read leaves the 1D array as it was");
}
HARNESS(read1_int) { read1<int>(); }
HARNESS(read1_double) { read1<double>(); }
HARNESS(read1_unsigned) { read1<unsigned>(); }

// rows of the given lengths, with an optional blank line before row b and invalid text in row bad
template <class T>
static void read2(i64 m, const i64* len, i64 blank, i64 bad, bool spaces, bool newline, bool file) {
   Session session;
   auto old = symref2<T>(1, 2, "old");
   Array2D<T> A = mk(old);
   T x[5][5];
   std::string t;
   bool even = true;
   for(i64 i = 0; i < m; ++i) {
      if(blank == i) t += spaces && i == 0 ? "  \n" : "\n";
      if(spaces) t += " ";
      for(i64 j = 0; j < len[i]; ++j) {
         x[i][j] = sym<T>("x");
         if(j) t += spaces ? "   " : " ";
         t += number(x[i][j]);
      }
      if(bad == i) t += " ?";
      if(spaces) t += " ";
      if(i < m - 1 || newline) t += "\n";
      even = even && len[i] == len[0];
   }
   if(blank == m) t += newline ? "\n\n" : "\n";
   int o = outcome([&] {
      if(file) {
         std::sym_file = t;
         read_from_file("f", A);
      } else {
         std::istringstream is{t};
         is >> A;
      }
   });
   CHECK(o == (even && bad < 0 ? 0 : 1), "reading a 2D array fails exactly for rows of different lengths and text that is no number");
   if(o) {
      CHECK(eq(A, old), "a failed read leaves the 2D array as it was");
      return;
   }
   bool ok = A.rows().val() == m && A.cols().val() == (m ? len[0] : 0);
   CHECK(ok, "reading a 2D array gives as many rows and columns as the text has");
   if(!ok) return;
   for(i64 i = 0; i < m; ++i)
      for(i64 j = 0; j < len[0]; ++j) ok = ok && same(A.un(i, j).val(), x[i][j]);
   CHECK(ok, "reading a 2D array gives exactly the numbers of the text in row-major order");
}
template <class T>
static void lines() {
   i64 m = pick("m", 0, 3), len[3];
   for(i64 i = 0; i < m; ++i) len[i] = pick("len", 1, 3);
   i64 blank = pick("blank", -1, 3), bad = pick("bad", -1, 2), style = pick("style", 0, 2);
   sym_assume(blank <= m && bad < m);
   read2<T>(m, len, blank, bad, style == 1, style != 2, false);
}
HARNESS(lines_int) { lines<int>(); }
template <class T>
static void large() {
   i64 m = pick("m", 3, 5), len[5], odd = pick("odd", -1, 4), by = pick("by", -1, 1), n = pick("n", 4, 5);
   sym_assume(odd < m && n + by <= 5 && (odd < 0) == (by == 0));
   for(i64 i = 0; i < m; ++i) len[i] = i == odd ? n + by : n;
   read2<T>(m, len, pick("blank", -1, 1), -1, false, true, true);
}
HARNESS(large_double) { large<double>(); }
HARNESS(large_long) { large<long>(); }

HARNESS(no_file) {
   Session session;
   std::sym_can_open = false;
   auto r = symref<int>(2, "a");
   auto r2 = symref2<int>(2, 1, "b");
   Array1D<int> A = mk(r);
   Array2D<int> B = mk(r2);
   CHECK(outcome([&] { read_from_file("f", A); }) == 1 && outcome([&] { read_from_file("f", B); }) == 1, "a file that cannot be read throws");
   CHECK(outcome([&] { print_to_file("f", A); }) == 1 && outcome([&] { print_to_file("f", B); }) == 1, "a file that cannot be written throws");
   CHECK(eq(A, r) && eq(B, r2), "a file that cannot be opened changes no array");
}

// Prints into the file, in one of several ways; true if the text has nothing but numbers and spaces before the end.
template <class A>
static void out(const A& a, i64 way) {
   if(way == 0) print_to_file("f", a);
   else if(way == 1) {
      print(a);
      std::sym_file = std::sym_screen;
   } else if(way == 2) {
      std::ostringstream os;
      os << a;
      std::sym_file = os.str();
   } else {
      printn(a);
      std::sym_file = std::sym_screen;
   }
}
template <class T>
static void back1() {
   Session session;
   i64 n = pick("n", 0, 9), kind = pick("kind", 0, 3), way = pick("way", 0, 3);
   auto r = symref<T>(n, "a");
   const Array1D<T> A = mk(r);
   Array1D<T> B;
   Ref<T> want;
   if(pick("style", 0, 1)) array_format.row_style();
   else array_format.col_style();
   switch(kind) {
   case 0:
      out(A, way);
      want = r;
      break;
   case 1:
      out(A(place::reverse), way);
      for(i64 i = n; i-- > 0;) want.push(r[i]);
      break;
   case 2:
      out(+A, way);
      want = r;
      break;
   default:
      out(A(place::even), way);
      for(i64 i = 0; i < n; i += 2) want.push(r[i]);
   }
   read_from_file("f", B);
   array_format.reset();
   CHECK(eq(B, want), "a printed 1D array reads back as the same elements in the same order");
}
HARNESS(back1_int) { back1<int>(); }
HARNESS(back1_double) { back1<double>(); }
HARNESS(back1_unsigned) { back1<unsigned>(); }
template <class T>
static void back2() {
   Session session;
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0, kind = pick("kind", 0, 2), way = pick("way", 0, 3);
   sym_assume(m * n <= 3 || (m == 2 && n == 2 && way < 1));
   auto r = symref2<T>(m, n, "a");
   for(i64 i = 0; i < m * n; ++i)
      if constexpr(std::is_same_v<T, double>) sym_assume(r.v[i] > -1e9 && r.v[i] < 1e9);
      else sym_assume(r.v[i] > std::numeric_limits<T>::min() || std::numeric_limits<T>::min() == 0);
   const Array2D<T> A = mk(r);
   Array2D<T> B;
   if(kind == 0) out(A, way);
   else if(kind == 1) out(transpose(A), way);
   else out(A(place::all, place::reverse), way);
   read_from_file("f", B);
   bool t = kind == 1, ok = B.rows().val() == (t ? n : m) && B.cols().val() == (t ? m : n);
   CHECK(ok, "a printed 2D array reads back with the same shape");
   if(!ok) return;
   for(i64 i = 0; i < m; ++i)
      for(i64 j = 0; j < n; ++j) ok = ok && same(t ? B.un(j, i).val() : B.un(i, kind == 2 ? n - 1 - j : j).val(), r(i, j));
   CHECK(ok, "a printed 2D array reads back as the same elements in the same places");
}
HARNESS(back2_int) { back2<int>(); }
HARNESS(back2_double) { back2<double>(); }
HARNESS(back2_unsigned) { back2<unsigned>(); }

HARNESS(several) {
   Session session;
   i64 n = pick("n", 0, 2), m = pick("m", 0, 2);
   auto r = symref<int>(n, "a"), s = symref<int>(m, "b");
   Array1D<int> A = mk(r), B = mk(s), C;
   if(pick("n?", 0, 1)) print(A, B, A);
   else printn(A, B, A);
   std::istringstream is{std::sym_screen};
   is >> C;
   Ref<int> want = r;
   for(i64 i = 0; i < m; ++i) want.push(s[i]);
   for(i64 i = 0; i < n; ++i) want.push(r[i]);
   CHECK(eq(C, want), "several arrays are printed one after another");
}
HARNESS(detailed) {
   Session session;
   i64 n = pick("n", 1, 11);
   auto r = symref<int>(n, "a");
   Array1D<int> A = mk(r);
   array_format.detailed(true);
   if(pick("style", 0, 1)) array_format.row_style();
   std::ostringstream os;
   os << A;
   array_format.reset();
   bool ok = std::sym_count == 2 * n;
   for(i64 i = 0; ok && i < n; ++i) ok = std::sym_bits[2 * i] == i && std::sym_bits[2 * i + 1] == r[i];
   CHECK(ok, "the detailed form prints every index before its element");
}
HARNESS(detailed2) {
   Session session;
   i64 m = pick("m", 1, 3), n = pick("n", 1, 3);
   auto r = symref2<unsigned>(m, n, "a");
   Array2D<unsigned> A = mk(r);
   array_format.detailed(true);
   std::ostringstream os;
   os << A;
   array_format.reset();
   bool ok = std::sym_count == 3 * m * n;
   for(i64 k = 0; ok && k < m * n; ++k) ok = std::sym_bits[3 * k] == k / n && std::sym_bits[3 * k + 1] == k % n && unsigned(std::sym_bits[3 * k + 2]) == r.v[k];
   CHECK(ok, "the detailed form prints every index pair before its element");
}
HARNESS(named) {
   Session session;
   auto r = symref<int>(2, "a");
   Array1D<int> A = mk(r);
   std::string want = "name:\n";
   if(pick("file", 0, 1)) {
      print_to_file("f", A, "name");
      std::sym_screen = std::sym_file;
   } else print(A, "name");
   CHECK(std::sym_screen.substr(0, 6) == want && std::sym_count == 2 && std::sym_bits[0] == r[0] && std::sym_bits[1] == r[1], "a name is printed before the elements");
}
HARNESS(scalar) {
   Session session;
   Strict<int> x{sym<int>("x")}, y;
   Strict<double> a{sym<double>("a")}, b;
   print(x, a);
   std::istringstream is{std::sym_screen};
   is >> y >> b;
   CHECK(same(x, y) && same(a, b), "printed values read back as the same values");
   std::istringstream junk{std::string{"?"}}, none{std::string{}};
   Strict<int> z = x;
   CHECK(outcome([&] { junk >> z; }) == 1 && outcome([&] { none >> z; }) == 1 && same(z, x), "reading a value that is not there throws and leaves the old one");
}
HARNESS(booleans) {
   Session session;
   bool p = sym<bool>("p"), q = sym<bool>("q");
   Array1D<bool> A{StrictBool{p}, StrictBool{q}};
   std::ostringstream os;
   os << A;
   std::string want = std::string(p ? "true\n" : "false\n") + (q ? "true\n" : "false\n");
   CHECK(os.str() == want, "truth values are printed as words");
}

//! configs: debug
//! bounds: 1D operands of 0..3 elements, 2D operands up to 3x3 (0x0 too), merges of up to four parts, all 64-bit positions, counts and sizes; all contents
//! assumes: sequence elements whose product is representable; the two operands of a tensor product are both empty or both not
#include "common.hpp"
#include <cmath>

template <class E, class F>
static void is1(const E& e, i64 n, F f, const char* what) {
   CHECK(e.size().val() == n, "a structural 1D expression has the documented size");
   bool ok = e.size().val() == n;
   for(i64 i = 0; ok && i < n; ++i) ok &= same(e[i].val(), f(i));
   sym_check(ok, what);
}
template <class E, class F>
static void is2(const E& e, i64 m, i64 n, F f, const char* what) {
   bool shape = e.rows().val() == m && e.cols().val() == n && e.size().val() == m * n;
   CHECK(shape, "a structural 2D expression has the documented shape");
   bool ok = shape;
   for(i64 i = 0; shape && i < m; ++i)
      for(i64 j = 0; j < n; ++j) ok &= same(e(i, j).val(), f(i, j)) && same(e.un(i * n + j).val(), f(i, j));
   sym_check(ok, what);
}
HARNESS(merge1D) {
   i64 n1 = pick("n1", 0, 2), n2 = pick("n2", 0, 2), n3 = pick("n3", 0, 2);
   auto a = symref<long>(n1, "a"), b = symref<long>(n2, "b"), c = symref<long>(n3, "c");
   Array1D<long> A = mk(a), B = mk(b), C = mk(c);
   const auto& cA = A;
   Strict x{sym_i64("x")}, y{sym_i64("y")}, z{sym_i64("z")};
   Ref<long> r;
   auto add = [&](const Ref<long>& s, bool rev = false) { for(i64 i = 0; i < s.n; ++i) r.push(s[rev ? s.n - 1 - i : i]); };
   auto at = [&](i64 i) { return r[i]; };
   const char* what = "a merge has the elements of its parts in order";
   switch(pick("form", 0, 10)) {
   case 0: add(a), add(b); is1(merge(A, B), r.n, at, what); break;
   case 1: add(a), add(b), add(c); is1(merge(cA, B, C), r.n, at, what); break;
   case 2: add(c), add(a), add(b), add(a); is1(merge(C, A, B, A), r.n, at, what); break;
   case 3: add(a), r.push(x.val()); is1(merge(A, x), r.n, at, what); break;
   case 4: add(a), r.push(x.val()), r.push(y.val()); is1(merge(A, x, y), r.n, at, what); break;
   case 5: add(b), r.push(x.val()), r.push(y.val()), r.push(z.val()); is1(merge(B, x, y, z), r.n, at, what); break;
   case 6: r.push(x.val()), add(a); is1(merge(x, A), r.n, at, what); break;
   case 7: r.push(x.val()), r.push(y.val()), add(b); is1(merge(x, y, cA), 2 + n1, [&](i64 i) { return i == 0 ? x.val() : i == 1 ? y.val() : a[i - 2]; }, what); break;
   case 8: r.push(x.val()), r.push(y.val()), r.push(z.val()), add(b); is1(merge(x, y, z, B), r.n, at, what); break;
   case 9: add(a, true), add(b); is1(merge(A(place::reverse), B), r.n, at, what); break;
   case 10: {
      add(a), add(b);
      auto e = merge(A + x, -B);
      is1(e, r.n, [&](i64 i) { return i < n1 ? r[i] + x.val() : -r[i]; }, what);
      break;
   }
   }
}
HARNESS(merge2D) {
   i64 m1 = pick("m1", 0, 2), n1 = m1 ? pick("n1", 1, 2) : 0, m2 = pick("m2", 0, 2), n2 = m2 ? pick("n2", 1, 2) : 0;
   auto a = symref2<long>(m1, n1, "a"), b = symref2<long>(m2, n2, "b");
   Array2D<long> A = mk(a), B = mk(b);
   const auto& cB = B;
   bool hok = !m1 || !m2 || m1 == m2, vok = !m1 || !m2 || n1 == n2;
   i64 hr = m1 ? m1 : m2, vc = m1 ? n1 : n2;
   auto h = [&](i64 i, i64 j) { return j < n1 ? a(i, j) : b(i, j - n1); };
   auto v = [&](i64 i, i64 j) { return i < m1 ? a(i, j) : b(i - m1, j); };
   switch(pick("form", 0, 5)) {
   case 0: {
      int o = outcome([&] { is2(merge_horizontal(A, B), hr, n1 + n2, h, "a horizontal merge has its parts side by side"); });
      CHECK(o == !hok, "a horizontal merge is refused exactly when the row counts differ");
      break;
   }
   case 1: {
      int o = outcome([&] { is2(merge_vertical(A, cB), m1 + m2, vc, v, "a vertical merge has its parts below each other"); });
      CHECK(o == !vok, "a vertical merge is refused exactly when the column counts differ");
      break;
   }
   case 2: {
      int o = outcome([&] {
         is2(merge_horizontal(A, B, A), hr, n1 + n2 + n1, [&](i64 i, i64 j) { return j < n1 + n2 ? h(i, j) : a(i, j - n1 - n2); }, "a horizontal merge of three has its parts side by side");
      });
      CHECK(o == !hok, "a horizontal merge of three is refused exactly when the row counts differ");
      break;
   }
   case 3: {
      int o = outcome([&] {
         is2(merge_vertical(B, A, B), m1 + m2 + m2, m2 ? n2 : n1, [&](i64 i, i64 j) { return i < m2 ? b(i, j) : i < m1 + m2 ? a(i - m2, j) : b(i - m1 - m2, j); }, "a vertical merge of three has its parts below each other");
      });
      CHECK(o == !vok, "a vertical merge of three is refused exactly when the column counts differ");
      break;
   }
   case 4:
      if(hok) is2(merge_horizontal(A(place::reverse, place::all), -cB), hr, n1 + n2, [&](i64 i, i64 j) { return j < n1 ? a(m1 - 1 - i, j) : -b(i, j - n1); }, "a horizontal merge of a slice and an expression has their elements");
      break;
   case 5:
      if(vok) is2(merge_vertical(-A, cB(place::all, place::reverse)), m1 + m2, vc, [&](i64 i, i64 j) { return i < m1 ? -a(i, j) : b(i - m1, n2 - 1 - j); }, "a vertical merge of an expression and a slice has their elements");
      break;
   }
}
// Parts of independent shapes, empty ones among them.
static Ref2<long> part(const char* name) {
   constexpr i64 shape[6][2] = {{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}};
   i64 k = pick(name, 0, 5);
   return symref2<long>(shape[k][0], shape[k][1], name);
}
template <int N>
static void mergeN(bool horizontal) {
   Ref2<long> p[N];
   const char* names[] = {"p", "q", "r", "s"};
   for(int k = 0; k < N; ++k) p[k] = part(names[k]);
   bool fit = true;
   i64 along = 0, across = 0;
   for(int k = 0; k < N; ++k) {
      i64 w = horizontal ? p[k].m : p[k].n;
      if(!p[k].m) continue;
      if(across && across != w) fit = false;
      across = across ? across : w;
      along += horizontal ? p[k].n : p[k].m;
   }
   auto at = [&](i64 i, i64 j) {
      i64 t = horizontal ? j : i;
      int k = 0;
      for(; t >= (horizontal ? p[k].n : p[k].m); ++k) t -= horizontal ? p[k].n : p[k].m;
      return horizontal ? p[k](i, t) : p[k](t, j);
   };
   Array2D<long> A = mk(p[0]), B = mk(p[1]), C = mk(p[2]);
   int o;
   if(horizontal) {
      auto check = [&](const auto& e) { is2(e, across, along, at, "a horizontal merge of several has its parts side by side"); };
      if constexpr(N == 3) o = outcome([&] { check(merge_horizontal(A, B, C)); });
      else {
         Array2D<long> D = mk(p[3]);
         o = outcome([&] { check(merge_horizontal(A, B, C, D)); });
      }
      CHECK(o == !fit, "a horizontal merge of several is refused exactly when row counts differ");
   } else {
      auto check = [&](const auto& e) { is2(e, along, across, at, "a vertical merge of several has its parts below each other"); };
      if constexpr(N == 3) o = outcome([&] { check(merge_vertical(A, B, C)); });
      else {
         Array2D<long> D = mk(p[3]);
         o = outcome([&] { check(merge_vertical(A, B, C, D)); });
      }
      CHECK(o == !fit, "a vertical merge of several is refused exactly when column counts differ");
   }
}
HARNESS(merge_several) { mergeN<3>(pick("horizontal", 0, 1)); }
HARNESS_T(merge_four) { mergeN<4>(pick("horizontal", 0, 1)); }
HARNESS(excludes) {
   i64 n = pick("n", 0, 4);
   auto a = symref<long>(n, "a");
   Array1D<long> A = mk(a);
   i64 p = sym_i64("p"), c = sym_i64("c");
   auto t = [&](bool valid, auto make) {
      int o = outcome([&] {
         auto e = make();
         p = sym_conc(p), c = sym_conc(c);
         is1(e, n - c, [&](i64 i) { return a[i < p ? i : i + c]; }, "an exclusion has exactly the other elements in order");
      });
      CHECK(o == !valid, "an exclusion is refused exactly when it does not lie inside the array");
   };
   bool in = p >= 0 && p < n && c > 0 && c <= n - p;
   switch(pick("form", 0, 5)) {
   case 0: t(in, [&] { return exclude(A, p, c); }); break;
   case 1: t(in, [&] { return exclude(A, Pos{p}, Count{c}); }); break;
   case 2: c = 1; t(p >= 0 && p < n, [&] { return exclude(A, p); }); break;
   case 3: c = 1; t(p >= 0 && p < n, [&] { return exclude(A, Pos{p}); }); break;
   case 4: {
      i64 k = p;
      c = 1;
      bool valid = k >= 0 && k < n;
      p = n - 1 - k;
      t(valid, [&] { return exclude(A, Last{k}); });
      break;
   }
   case 5: c = 1; p = n - 1; t(n > 0, [&] { return exclude(A, place::last); }); break;
   }
}
HARNESS(sequences) {
   i64 n = sym_i64("n"), start = sym_i64("start"), incr = sym_i64("incr");
   bool small = n <= 4;
   auto at = [&](auto f) { if(small) n = sym_conc(n); f(); };
   switch(pick("form", 0, 6)) {
   case 0: {
      sym_assume(small);
      int o = outcome([&] { auto e = sequence(n, Strict{start}, Strict{incr}); at([&] { is1(e, n, [&](i64 i) { return start + incr * i; }, "a sequence has equal steps from its start"); }); });
      CHECK(o == (n < 0), "a sequence of negative size is refused");
      break;
   }
   case 1: {
      sym_assume(small && n >= 0);
      auto e = sequence(Size{n}, Start{start}, Incr{incr});
      auto f = sequence<long>(n);
      auto g = sequence<int>(n, Strict{3});
      at([&] {
         is1(e, n, [&](i64 i) { return start + incr * i; }, "a sequence by named arguments has equal steps from its start");
         is1(f, n, [&](i64 i) { return i; }, "a default sequence counts from zero");
         is1(g, n, [&](i64 i) { return static_cast<int>(3 + i); }, "a sequence counts by one from its start");
      });
      break;
   }
   case 2: {
      int o = outcome([&] { auto e = irange(n); CHECK(e.size().val() == n, "an index range has the asked size"); i64 i = sym_i64("i"); sym_assume(i >= 0 && i < n); CHECK(e[i].val() == i, "an index range counts from zero"); });
      CHECK(o == (n < 0), "an index range of negative size is refused");
      break;
   }
   case 3: {
      i64 u = sym_i64("u");
      int o = outcome([&] { auto e = e_unit<long>(u, n); CHECK(e.size().val() == n, "a unit vector has the asked size"); i64 i = sym_i64("i"); sym_assume(i >= 0 && i < n); CHECK(e[i].val() == (i == u), "a unit vector is one at its index and zero elsewhere"); });
      CHECK(o == !(u >= 0 && u < n), "a unit vector with its index outside is refused");
      o = outcome([&] { auto e = e_unit<double>(Index{u}, Size{n}); i64 i = sym_i64("i"); sym_assume(i >= 0 && i < n); CHECK(same(e[i].val(), i == u ? 1. : 0.), "a unit vector by named arguments is one at its index and zero elsewhere"); });
      CHECK(o == !(u >= 0 && u < n), "a unit vector by named arguments with its index outside is refused");
      break;
   }
   case 4: {
      int o = outcome([&] { auto e = const1D(n, Strict{start}); CHECK(e.size().val() == n, "a constant has the asked size"); i64 i = sym_i64("i"); sym_assume(i >= 0 && i < n); CHECK(e[i].val() == start, "a constant has its value everywhere"); });
      CHECK(o == (n < 0), "a constant of negative size is refused");
      o = outcome([&] { auto e = const1D(Size{n}, Value{start}); CHECK(e.size().val() == n, "a constant by named arguments has the asked size"); i64 i = sym_i64("i"); sym_assume(i >= 0 && i < n); CHECK(e[i].val() == start, "a constant by named arguments has its value everywhere"); });
      CHECK(o == (n < 0), "a constant by named arguments of negative size is refused");
      break;
   }
   case 5: {
      sym_assume(small);
      int o = outcome([&] { auto e = identity<int>(n); at([&] { is2(e, n, n, [](i64 i, i64 j) { return i == j ? 1 : 0; }, "an identity is one on the diagonal and zero elsewhere"); }); });
      CHECK(o == (n < 0), "an identity of negative size is refused");
      break;
   }
   case 6: {
      i64 m = sym_i64("m");
      sym_assume(small && m <= 3);
      bool named = pick("named", 0, 1);
      int o = outcome([&] { auto e = named ? const2D(Rows{m}, Cols{n}, Value{Strict{start}}) : const2D(m, n, Strict{start}); m = sym_conc(m); at([&] { is2(e, m, n, [&](i64, i64) { return start; }, "a 2D constant has its value everywhere"); }); });
      CHECK(o == !((m > 0 && n > 0) || (m == 0 && n == 0)), "a 2D constant of an impossible shape is refused");
      break;
   }
   }
}
HARNESS(linspaces) {
   i64 n = sym_i64("n");
   sym_assume(n <= 5);
   if(n > 0) n = sym_conc(n);
   double s = sym_f64("s"), e = sym_f64("e");
   sym_assume(std::isfinite(s) && std::isfinite(e));
   auto t = [&](auto make) {
      int o = outcome([&] {
         auto x = make();
         CHECK(x.size().val() == n, "a linspace has the asked size");
         if(n > 1) is1(x, n, [&](i64 i) { return s + (e - s) / static_cast<double>(n - 1) * static_cast<double>(i); }, "a linspace has equal steps from start to end");
      });
      CHECK(o == (n <= 0), "a linspace without elements is refused");
   };
   sym_assume(std::isfinite(e - s));
   if(pick("form", 0, 1)) t([&] { return linspace(n, Strict{s}, Strict{e}); });
   else t([&] { return linspace(Size{n}, Start{s}, End{e}); });
}
// With one element there is no step: the element is the start.
HARNESS(linspace_one) {
   double s = sym_f64("s"), e = sym_f64("e");
   sym_assume(std::isfinite(s) && std::isfinite(e) && s != 0);
   auto x = linspace(1, Strict{s}, Strict{e});
   CHECK(x.size().val() == 1 && same(x[0].val(), s), "a linspace of one element is its start");
}
HARNESS(ranges) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0;
   Array1D<int> A(m);
   Array2D<int> B(m, n);
   auto id = [](i64 i) { return i; };
   is1(irange(A), m, id, "the index range of an array counts its indexes");
   is1(irange_row(B), m, id, "the row range of an array counts its rows");
   is1(irange_col(B), n, id, "the column range of an array counts its columns");
   is1(irange(A(place::even)), (m + 1) / 2, id, "the index range of a slice counts its indexes");
   int o = outcome([&] { is1(irange_m1(A), m - 1, id, "the index range without the last counts all other indexes"); });
   int p = outcome([&] { is1(irange_row_m1(B), m - 1, id, "the row range without the last counts all other rows"); });
   int q = outcome([&] { is1(irange_col_m1(B), n - 1, id, "the column range without the last counts all other columns"); });
   CHECK(o == (m == 0) && p == (m == 0) && q == (m == 0), "an index range without the last of an empty array is refused");
}
HARNESS(index_lists) {
   i64 n = sym_i64("n"), start = sym_i64("start"), incr = sym_i64("incr");
   sym_assume(n <= 4);
   int o = outcome([&] {
      auto v = pick("form", 0, 1) ? implicit_vector_sequence(Size{n}, Start{start}, Incr{incr}) : implicit_vector_sequence(n, start, incr);
      n = sym_conc(n);
      bool ok = static_cast<i64>(v.size()) == n;
      for(i64 i = 0; ok && i < n; ++i) ok &= v[static_cast<std::size_t>(i)].get().val() == start + i * incr;
      CHECK(ok, "a list of indexes has equal steps from its start");
      auto w = implicit_vector_sequence(n);
      for(i64 i = 0; i < n; ++i) CHECK(w[static_cast<std::size_t>(i)].get().val() == i, "a default list of indexes counts from zero");
   });
   CHECK(o == (n < 0), "a list of indexes of negative size is refused");
}
HARNESS(transposes) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0;
   auto a = symref2<long>(m, n, "a");
   Array2D<long> A = mk(a);
   const auto& cA = A;
   const char* what = "a transpose swaps rows and columns";
   is2(transpose(A), n, m, [&](i64 i, i64 j) { return a(j, i); }, what);
   is2(transpose(-cA), n, m, [&](i64 i, i64 j) { return -a(j, i); }, what);
   is2(transpose(A(place::reverse, place::all)), n, m, [&](i64 i, i64 j) { return a(m - 1 - j, i); }, what);
   is2(transpose(transpose(A)), m, n, [&](i64 i, i64 j) { return a(i, j); }, what);
   Array2D<long> T = transpose(cA);
   is2(T, n, m, [&](i64 i, i64 j) { return a(j, i); }, what);
}
HARNESS(reductions) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0;
   auto a = symref2<long>(m, n, "a");
   Array2D<long> A = mk(a);
   const auto& cA = A;
   // a fold that depends on the order
   auto f = [](auto row) { Strict s{1L}; for(i64 i = 0; i < row.size().val(); ++i) s = s * Strict{3L} + row[i]; return s; };
   auto rf = [&](i64 i, bool neg = false) { long s = 1; for(i64 j = 0; j < n; ++j) s = s * 3 + (neg ? -a(i, j) : a(i, j)); return s; };
   auto cf = [&](i64 j) { long s = 1; for(i64 i = 0; i < m; ++i) s = s * 3 + a(i, j); return s; };
   is1(row_reduce(A, f), m, [&](i64 i) { return rf(i); }, "a row reduction has the function of each row");
   is1(col_reduce(A, f), n, [&](i64 j) { return cf(j); }, "a column reduction has the function of each column");
   is1(row_reduce(cA(place::reverse, place::all), f), m, [&](i64 i) { return rf(m - 1 - i); }, "a row reduction of a slice has the function of each row");
   is1(col_reduce(cA(place::all, place::reverse), f), n, [&](i64 j) { return cf(n - 1 - j); }, "a column reduction of a slice has the function of each column");
   is1(row_reduce(-A, f), m, [&](i64 i) { return rf(i, true); }, "a row reduction of an expression has the function of each row");
}
HARNESS(products) {
   i64 m = pick("m", 0, 3), n = m ? pick("n", 1, 3) : 0, k = pick("k", 0, 3);
   auto a = symref2<long>(m, n, "a");
   auto b = symref<long>(k, "b"), c = symref<long>(m, "c");
   Array2D<long> A = mk(a);
   Array1D<long> B = mk(b), C = mk(c);
   auto dot = [&](i64 i, bool rev) { long s = 0; for(i64 j = 0; j < n; ++j) s += a(i, j) * b[rev ? n - 1 - j : j]; return s; };
   switch(pick("form", 0, 5)) {
   case 0: {
      int o = outcome([&] { is1(matvec_prod(A, B), m, [&](i64 i) { return dot(i, false); }, "a matrix-vector product has the sums of products"); });
      CHECK(o == (k != n), "a matrix-vector product of mismatching sizes is refused");
      break;
   }
   case 1:
      if(k == n) is1(matvec_prod(A(place::reverse, place::all), B(place::reverse)), m, [&](i64 i) { return dot(m - 1 - i, true); }, "a matrix-vector product of slices has the sums of products");
      break;
   case 2:
      if(k == n) is1(matvec_prod(-A, -B), m, [&](i64 i) { return dot(i, false); }, "a matrix-vector product of expressions has the sums of products");
      break;
   case 3:
      if(!k == !m) is2(tensor_prod(B, C), k, m, [&](i64 i, i64 j) { return b[i] * c[j]; }, "a tensor product has the products of all pairs");
      break;
   case 4:
      if(!k == !m) is2(tensor_prod(-B, C(place::reverse)), k, m, [&](i64 i, i64 j) { return -b[i] * c[m - 1 - j]; }, "a tensor product of an expression and a slice has the products of all pairs");
      break;
   case 5:
      is2(row_broadcast(B), k, k, [&](i64, i64 j) { return b[j]; }, "a row broadcast repeats the array as rows");
      is2(col_broadcast(B), k, k, [&](i64 i, i64) { return b[i]; }, "a column broadcast repeats the array as columns");
      is2(row_broadcast(-B(place::reverse)), k, k, [&](i64, i64 j) { return -b[k - 1 - j]; }, "a row broadcast of an expression repeats it as rows");
      is2(col_broadcast(B(place::reverse)), k, k, [&](i64 i, i64) { return b[k - 1 - i]; }, "a column broadcast of a slice repeats it as columns");
      break;
   }
}

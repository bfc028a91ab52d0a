//! configs: debug release
//! bounds: 1D arrays of 3 elements, 2D arrays 2x2; about sixty ways to build an expression or slice from temporaries, evaluated after the building function returned and its stack was overwritten; all contents
//! assumes: the owning arrays outlive the expression (expressions of temporary owning arrays do not compile)
#include "common.hpp"

// The expression is built in a frame of its own, which is gone (and overwritten) when it is read.
// Objects of returned frames are dead for the executor, so any access through them is found.
template <class F>
__attribute__((noinline)) static auto build(F f) { return f(); }
__attribute__((noinline)) static void scribble() {
   volatile long junk[64];
   for(int i = 0; i < 64; ++i) junk[i] = 0x5a5a5a5a5a5a5a5a;
}
struct S1 {
   Ref<long> a = symref<long>(3, "a"), b = symref<long>(3, "b");
   Array1D<long> A = mk(a), B = mk(b);
};
template <class E, class F>
static void is1(const E& e, i64 n, F f) {
   scribble();
   bool ok = e.size().val() == n;
   CHECK(ok, "a stored 1D expression keeps its size");
   for(i64 i = 0; ok && i < n; ++i) ok &= same(e[i].val(), f(i)) && same(e.un(i).val(), f(i));
   CHECK(ok, "a stored 1D expression gives the values of the arrays it refers to");
}
template <class E, class F>
static void is2(const E& e, i64 m, i64 n, F f) {
   scribble();
   bool ok = e.rows().val() == m && e.cols().val() == n;
   CHECK(ok, "a stored 2D expression keeps its shape");
   for(i64 i = 0; ok && i < m; ++i)
      for(i64 j = 0; j < n; ++j) ok &= same(e(i, j).val(), f(i, j));
   CHECK(ok, "a stored 2D expression gives the values of the arrays it refers to");
}
HARNESS(elementwise) {
   S1 s;
   auto &a = s.a, &b = s.b;
   auto &A = s.A, &B = s.B;
   const auto& cA = A;
   Strict x{sym_i64("x")};
   long v = x.val();
   switch(pick("form", 0, 13)) {
   case 0: is1(build([&] { return A + B; }), 3, [&](i64 i) { return a[i] + b[i]; }); break;
   case 1: is1(build([&] { return (A + B) * (A - B); }), 3, [&](i64 i) { return (a[i] + b[i]) * (a[i] - b[i]); }); break;
   case 2: is1(build([&] { Strict y = x; return y + (A * y); }), 3, [&](i64 i) { return v + a[i] * v; }); break;
   case 3: is1(build([&] { auto e = -A; auto f = e + e; return f - e; }), 3, [&](i64 i) { return -a[i]; }); break;
   case 4: is1(build([&] { auto s1 = A(place::reverse); return s1 + B; }), 3, [&](i64 i) { return a[2 - i] + b[i]; }); break;
   case 5: is1(build([&] { return cA(place::reverse)(place::lastN{2}) + (A + B)(place::firstN{2}); }), 2, [&](i64 i) { return a[1 - i] + a[i] + b[i]; }); break;
   case 6: is1(build([&] { std::vector<ImplicitInt> ix{2, 0}; return A(ix) - B(ix); }), 2, [&](i64 i) { return a[i ? 0 : 2] - b[i ? 0 : 2]; }); break;
   case 7: is1(build([&] { std::vector<ImplicitInt> ix{1}; return (A - B)(place::complement{ix}); }), 2, [&](i64 i) { return a[2 * i] - b[2 * i]; }); break;
   case 8: is1(build([&] { return abs(A - x); }), 3, [&](i64 i) { long d = a[i] - v; return d > 0 ? d : -d; }); break;
   case 9: is1(build([&] { return array_cast<int>(A + B); }), 3, [&](i64 i) { return static_cast<int>(a[i] + b[i]); }); break;
   case 10: is1(build([&] { long k = v; return generate(A, [k](auto z) { return z * Strict{k}; }); }), 3, [&](i64 i) { return a[i] * v; }); break;
   case 11: is1(build([&] { return generate(A + B, B(place::reverse), [](auto p, auto q) { return p * q; }); }), 3, [&](i64 i) { return (a[i] + b[i]) * b[2 - i]; }); break;
   case 12: is1(build([&] { return A.view1D() + B; }), 3, [&](i64 i) { return a[i] + b[i]; }); break;
   case 13: is1(build([&] { return ~(A & B) | (A ^ x); }), 3, [&](i64 i) { return ~(a[i] & b[i]) | (a[i] ^ v); }); break;
   }
}
HARNESS(structural1D) {
   S1 s;
   auto &a = s.a, &b = s.b;
   auto &A = s.A, &B = s.B;
   const auto& cB = B;
   Strict x{sym_i64("x")}, y{sym_i64("y")};
   long v = x.val(), w = y.val();
   auto ab = [&](i64 i) { return i < 3 ? a[i] : b[i - 3]; };
   switch(pick("form", 0, 13)) {
   case 0: is1(build([&] { return merge(A, cB); }), 6, ab); break;
   case 1: is1(build([&] { return merge(-A, B, A + B); }), 9, [&](i64 i) { return i < 3 ? -a[i] : i < 6 ? b[i - 3] : a[i - 6] + b[i - 6]; }); break;
   case 2: is1(build([&] { Strict p = x, q = y; return merge(A(place::reverse), p, q); }), 5, [&](i64 i) { return i < 3 ? a[2 - i] : i == 3 ? v : w; }); break;
   case 3: is1(build([&] { Strict p = x, q = y; return merge(p, q, A + B); }), 5, [&](i64 i) { return i == 0 ? v : i == 1 ? w : a[i - 2] + b[i - 2]; }); break;
   case 4: is1(build([&] { return exclude(A + B, 1); }), 2, [&](i64 i) { return a[2 * i] + b[2 * i]; }); break;
   case 5: is1(build([&] { return exclude(A(place::reverse), Pos{0}, Count{2}); }), 1, [&](i64) { return a[0]; }); break;
   case 6: is1(build([&] { return exclude(merge(A, B), place::last); }), 5, ab); break;
   case 7: is1(build([&] { auto st = x; return sequence(3, st, y) + A; }), 3, [&](i64 i) { return v + w * i + a[i]; }); break;
   case 8: is1(build([&] { auto c = x; return const1D(3, c) * A; }), 3, [&](i64 i) { return v * a[i]; }); break;
   case 9: is1(build([&] { ImplicitInt u = 1; return e_unit<long>(u, 3) + B; }), 3, [&](i64 i) { return b[i] + (i == 1); }); break;
   case 10: is1(build([&] { return irange(A) + irange(B); }), 3, [&](i64 i) { return 2 * i; }); break;
   case 11: is1(build([&] { return A.view2D(3, 1).col(0) + B; }), 3, [&](i64 i) { return a[i] + b[i]; }); break;
   case 12: is1(build([&] { return (A + B)(place::reverse)(place::skipN{2}); }), 2, [&](i64 i) { return a[2 - 2 * i] + b[2 - 2 * i]; }); break;
   case 13: is1(build([&] { return merge(merge(x, A), merge(B, y))(seqN{7, 8, -1}); }), 8, [&](i64 i) { return i == 0 ? w : i == 7 ? v : ab(6 - i); }); break;
   }
}
struct S2 {
   Ref2<long> a = symref2<long>(2, 2, "a"), b = symref2<long>(2, 2, "b");
   Ref<long> c = symref<long>(2, "c");
   Array2D<long> A = mk(a), B = mk(b);
   Array1D<long> C = mk(c);
};
HARNESS(twoD) {
   S2 s;
   auto &a = s.a, &b = s.b;
   auto &A = s.A, &B = s.B;
   const auto& cA = A;
   Strict x{sym_i64("x")};
   long v = x.val();
   switch(pick("form", 0, 16)) {
   case 0: is2(build([&] { return A + B * x; }), 2, 2, [&](i64 i, i64 j) { return a(i, j) + b(i, j) * v; }); break;
   case 1: is2(build([&] { return (A + B)(place::reverse, place::all); }), 2, 2, [&](i64 i, i64 j) { return a(1 - i, j) + b(1 - i, j); }); break;
   case 2: is2(build([&] { return (cA - B).rows(place::reverse); }), 2, 2, [&](i64 i, i64 j) { return a(1 - i, j) - b(1 - i, j); }); break;
   case 3: is2(build([&] { return (cA - B).cols(place::reverse); }), 2, 2, [&](i64 i, i64 j) { return a(i, 1 - j) - b(i, 1 - j); }); break;
   case 4: is1(build([&] { return (A + B).row(1); }), 2, [&](i64 j) { return a(1, j) + b(1, j); }); break;
   case 5: is1(build([&] { return (A + B).col(place::last); }), 2, [&](i64 i) { return a(i, 1) + b(i, 1); }); break;
   case 6: is1(build([&] { return (A + B).diag(); }), 2, [&](i64 i) { return a(i, i) + b(i, i); }); break;
   case 7: is1(build([&] { return (A * B).view1D(); }), 4, [&](i64 i) { return a.v[i] * b.v[i]; }); break;
   case 8: is2(build([&] { return (A * B).view1D()(place::reverse).view2D(1, 4); }), 1, 4, [&](i64, i64 j) { return a.v[3 - j] * b.v[3 - j]; }); break;
   case 9: is2(build([&] { return (A * B).block(0, 0, 1, 0); }), 2, 1, [&](i64 i, i64) { return a(i, 0) * b(i, 0); }); break;
   case 10: is2(build([&] { return merge_horizontal(A + B, A, cA(place::reverse, place::all)); }), 2, 6, [&](i64 i, i64 j) { return j < 2 ? a(i, j) + b(i, j) : j < 4 ? a(i, j - 2) : a(1 - i, j - 4); }); break;
   case 11: is2(build([&] { return merge_vertical(-A, B, cA(place::all, place::reverse)); }), 6, 2, [&](i64 i, i64 j) { return i < 2 ? -a(i, j) : i < 4 ? b(i - 2, j) : a(i - 4, 1 - j); }); break;
   case 12: is2(build([&] { return transpose(A); }), 2, 2, [&](i64 i, i64 j) { return a(j, i); }); break;
   case 13: is2(build([&] { return transpose(A + B); }), 2, 2, [&](i64 i, i64 j) { return a(j, i) + b(j, i); }); break;
   case 14: is2(build([&] { return transpose(cA(place::reverse, place::all)); }), 2, 2, [&](i64 i, i64 j) { return a(1 - j, i); }); break;
   case 15: is2(build([&] { return transpose(transpose(A)) + identity<long>(2); }), 2, 2, [&](i64 i, i64 j) { return a(i, j) + (i == j); }); break;
   case 16: is2(build([&] { auto c = x; return const2D(2, 2, c) - A; }), 2, 2, [&](i64 i, i64 j) { return v - a(i, j); }); break;
   }
}
HARNESS(products) {
   S2 s;
   auto &a = s.a;
   auto& c = s.c;
   auto& A = s.A;
   auto& C = s.C;
   auto f = [](auto row) { return row[0] * Strict{3L} + row[1]; };
   switch(pick("form", 0, 11)) {
   case 0: is1(build([&] { return matvec_prod(A, C); }), 2, [&](i64 i) { return a(i, 0) * c[0] + a(i, 1) * c[1]; }); break;
   case 1: is1(build([&] { return matvec_prod(A, C(place::reverse)); }), 2, [&](i64 i) { return a(i, 0) * c[1] + a(i, 1) * c[0]; }); break;
   case 2: is1(build([&] { return matvec_prod(-A, C + C); }), 2, [&](i64 i) { return -2 * (a(i, 0) * c[0] + a(i, 1) * c[1]); }); break;
   case 3: is1(build([&] { return matvec_prod(transpose(A), -C); }), 2, [&](i64 i) { return -(a(0, i) * c[0] + a(1, i) * c[1]); }); break;
   case 4: is2(build([&] { return tensor_prod(C, -C); }), 2, 2, [&](i64 i, i64 j) { return -c[i] * c[j]; }); break;
   case 5: is2(build([&] { return tensor_prod(C(place::reverse), A.row(0)); }), 2, 2, [&](i64 i, i64 j) { return c[1 - i] * a(0, j); }); break;
   case 6: is1(build([&] { return row_reduce(A, f); }), 2, [&](i64 i) { return a(i, 0) * 3 + a(i, 1); }); break;
   case 7: is1(build([&] { return col_reduce(A + A, f); }), 2, [&](i64 j) { return 2 * (a(0, j) * 3 + a(1, j)); }); break;
   case 8: is1(build([&] { return row_reduce(A(place::reverse, place::all), f); }), 2, [&](i64 i) { return a(1 - i, 0) * 3 + a(1 - i, 1); }); break;
   case 9: is2(build([&] { return row_broadcast(-C); }), 2, 2, [&](i64, i64 j) { return -c[j]; }); break;
   case 10: is2(build([&] { return col_broadcast(C(place::reverse)); }), 2, 2, [&](i64 i, i64) { return c[1 - i]; }); break;
   case 11: is2(build([&] { return row_broadcast(C) + col_broadcast(A.col(1)); }), 2, 2, [&](i64 i, i64 j) { return c[j] + a(i, 1); }); break;
   }
}
// Current values: the arrays change between building and reading.
HARNESS(current_values) {
   S1 s;
   auto t = symref<long>(3, "t");
   auto e = build([&] { return merge((s.A + s.B)(place::reverse), exclude(s.A, 0)); });
   auto f = build([&] { return s.A(place::lastN{2}); });
   auto g = build([&] { return std::as_const(s.A)(place::reverse); });
   for(i64 i = 0; i < 3; ++i) s.A[i] = Strict{t[i]};
   is1(e, 5, [&](i64 i) { return i < 3 ? t[2 - i] + s.b[2 - i] : t[i - 2]; });
   is1(f, 2, [&](i64 i) { return t[i + 1]; });
   is1(g, 3, [&](i64 i) { return t[2 - i]; });
}
// Slices and expressions handed on by copy from lvalues, rvalues and const objects.
HARNESS(copies) {
   S1 s;
   switch(pick("form", 0, 4)) {
   case 0: is1(build([&] { auto e = s.A + s.B; auto f = e; return f; }), 3, [&](i64 i) { return s.a[i] + s.b[i]; }); break;
   case 1: is1(build([&] { const auto e = s.A(place::reverse); return e(place::firstN{1}); }), 1, [&](i64) { return s.a[2]; }); break;
   case 2: is1(build([&] { auto e = s.A(place::reverse); return e(place::reverse); }), 3, [&](i64 i) { return s.a[i]; }); break;
   case 3: is1(build([&] { const auto e = s.A + s.B; return e(seqN{2, 3, -1}); }), 3, [&](i64 i) { return s.a[2 - i] + s.b[2 - i]; }); break;
   case 4: is1(build([&] { auto e = s.A + s.B; return e(std::vector<ImplicitInt>{2}); }), 1, [&](i64) { return s.a[2] + s.b[2]; }); break;
   }
}
// A temporary made usable where an lvalue is asked for, within one full expression.
HARNESS(temporaries) {
   S1 s;
   i64 t[3] = {0, 0, 0};
   for(int i = 0; i < 3; ++i) t[i] = s.a[i];
   Array1D<i64> C(3);
   switch(pick("form", 0, 3)) {
   case 0:
      C = Array1D<i64>(s.A).lval() + s.B;
      for(i64 i = 0; i < 3; ++i) t[i] += s.b[i];
      break;
   case 1:
      s.A(seqN{1, 2}).lval() += s.B(seqN{0, 2});
      C = s.A;
      t[1] += s.b[0];
      t[2] += s.b[1];
      break;
   case 2:
      s.A(place::reverse).lval() = s.B;
      C = s.A;
      for(i64 i = 0; i < 3; ++i) t[i] = s.b[2 - i];
      break;
   default: C = (s.A + s.B).lval() - s.B;
   }
   is1(C, 3, [&](i64 i) { return t[i]; });
}

# Planted bugs: id, property, edits (file, old, new), demo (body of main), needs, breaks.
BUGS = []


def bug(id, property, file, old, new, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=property, edits=[(file, old, new)], demo=demo, needs=needs, breaks=breaks, **kw))


bug("at-release", "C01", "derived2D.hpp",
    "ASSERT_STRICT_RANGE_ALWAYS(valid_index(*this, ih, jh));", "ASSERT_STRICT_RANGE_DEBUG(valid_index(*this, ih, jh));",
    """   const Array2D<int> A{{1_si, 2_si}, {3_si, 4_si}};
   OK(throws([&] { (void)A.at(0, 2); }));
   OK(A.at(1, 1) == 4_si);""",
    "a build with STRICT_DEBUG_OFF and at() of a const 2D array with a column outside the row",
    "at() of a const 2D array does not throw when debug checks are compiled out", occ=2, flags=["-DSTRICT_DEBUG_OFF"])
bug("self-move-1d", "C02", "array_base1D.hpp",
    """   if(this != &A) {
      NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
      this->swap(A);
      A.swap(ArrayBase1D{});
   }
   return *this;""",
    """   NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
   this->swap(A);
   A.swap(ArrayBase1D{});
   return *this;""",
    """   Array1D<int> A{1_si, 2_si, 3_si};
   auto& B = A;
   A = std::move(B);
   OK(A.size() == 3_sl && A[2] == 3_si);""",
    "a move assignment of an array to itself", "self move assignment empties a 1D array")
bug("resize-assign-alias", "C03", "array_base1D.hpp",
    """   ArrayBase1D tmp(A);
   this->swap(tmp);
   return static_cast<StrictArray1D<ArrayBase1D>&>(*this);""",
    """   if(A.size() < this->size()) {
      copyn(A, *this, A.size());
      return this->resize(A.size());
   }
   ArrayBase1D tmp(A);
   this->swap(tmp);
   return static_cast<StrictArray1D<ArrayBase1D>&>(*this);""",
    """   Array1D<int> A{1_si, 2_si, 3_si, 4_si};
   A.resize_and_assign(A(std::vector<ImplicitInt>{3, 0, 1}));
   OK(A.size() == 3_sl && A[0] == 4_si && A[1] == 1_si && A[2] == 2_si);""",
    "resize_and_assign from a smaller slice of the array itself in another order",
    "elements are overwritten before they are read")
bug("remove-duplicates", "C04", "ArrayCommon/valid.hpp",
    "return bool{x.get() <= y.get()}; })};", "return bool{x.get() < y.get()}; })};",
    """   Array1D<int> A{1_si, 2_si, 3_si, 4_si};
   OK(throws([&] { A.remove(std::vector<ImplicitInt>{1, 1, 2}); }));
   OK(A.size() == 4_sl);""",
    "a list of indexes to remove with a repeated index", "repeated indexes are accepted and later ones not removed")
bug("resize-same-product", "C06", "array_base2D.hpp",
    """         this->swap(tmp);
      }
   } else {
      if(not(d0_new""",
    """         this->swap(tmp);
      }
      dims_.un(0) = d0_new;
   } else {
      if(d1_new != dims_.un(1) && not(d0_new""",
    """   Array2D<int> A{{1_si, 2_si}, {3_si, 4_si}};
   A.resize(3, 2, false);
   OK(A.rows() == 3_sl && A.cols() == 2_sl && A.size() == 6_sl);""",
    "resize without keeping elements to another number of rows and the same number of columns",
    "the array keeps its old shape")
bug("seq-zero-stride", "C08", "slice.hpp",
    "|| ((stride_ == 0_sl) && (first_ == last_)));", "|| stride_ == 0_sl);",
    """   Array1D<int> A{1_si, 2_si, 3_si, 4_si};
   OK(throws([&] { (void)A(seq{1, 3, 0}); }));
   OK(A(seq{1, 1, 0}).size() == 1_sl);""",
    "a sequence with stride zero between different ends", "selects one element instead of throwing")
bug("diag-edge", "C09", "derived2D.hpp",
    "ASSERT_STRICT_DEBUG(abss(i.get()) < Base::rows());", "ASSERT_STRICT_DEBUG(abss(i.get()) <= Base::rows());",
    """   Array2D<int> A{{1_si, 2_si}, {3_si, 4_si}};
   OK(throws([&] { (void)A.diag(-2); }));
   OK(A.diag(-1).size() == 1_sl);""",
    "the diagonal just below the last row", "an empty slice instead of an exception")
bug("slice-assign-shorter", "C11", "slicearray_base1D.hpp",
    """operator=(OneDimBaseType auto const& A) {
   ASSERT_STRICT_DEBUG(same_size(*this, A));
   copy(A, *this);""",
    """operator=(OneDimBaseType auto const& A) {
   ASSERT_STRICT_DEBUG(A.size() <= this->size());
   copy(A, *this);""",
    """   Array1D<int> A{1_si, 2_si, 3_si, 4_si};
   Array1D<int> B{8_si, 9_si};
   OK(throws([&] { A(seq{0, 2}) = B; }));
   OK(A[0] == 1_si);""",
    "assigning a shorter array to a slice", "changes part of the slice instead of throwing")
bug("shift-assign-guard", "C15", "derived_base.hpp",
    """             [x, this](index_t i) { static_cast<Base&>(*this).un(i) >>= x; });""",
    """             [x, this](index_t i) { static_cast<Base&>(*this).un(i) /= One<builtin_type> << x; });""",
    """   Array1D<int> A{-4_si, 8_si};
   OK(throws([&] { A >>= 1_si; }));
   Array1D<unsigned> B{8_sui, ~0_sui};
   B >>= 1_sui;
   OK(B[0] == 4_sui);""",
    "a negative element shifted right in place by a value", "divides instead of throwing")
bug("min-index-ties", "C16", "array_ops.hpp",
    "if(auto xij = A.un(i, j); xij > std::get<2>(max)) {", "if(auto xij = A.un(i, j); xij >= std::get<2>(max)) {",
    """   Array2D<int> A{{1_si, 5_si}, {5_si, 2_si}};
   auto [i, j, x] = max_index(A);
   OK(i == 0_sl && j == 1_sl && x == 5_si);""",
    "a maximum that occurs twice in a 2D array", "the last instead of the first position")
bug("has-zero-default", "C17", "array_ops.hpp",
    "return any_of(A, is_zero, empty_default);", "return any_of(A, is_zero);",
    """   Array1D<int> A;
   OK(bool{has_zero(A, true_sb)});
   OK(!bool{has_zero(A)});""",
    "has_zero of an empty array with a default other than false", "the default is ignored")
bug("filter-minus-zero", "C18", "array_ops.hpp",
    "[low, high](auto x) { return x >= low && x <= high; });", "[low, high](auto x) { return !(x < low) && !(x > high); });",
    """   Array1D<double> A{1._sd, Strict{std::numeric_limits<double>::quiet_NaN()}, 2._sd};
   OK(in_closed_range(A, 0._sd, 3._sd).size() == 2_sl);""",
    "NaN among the elements of a filtered array", "NaN counts as inside the interval")
bug("fast-two-sum", "C22", "StrictCommon/strict_val_ops.hpp",
    "   T s = xrz + yz;\n", "   T s = yz;\n",
    """   auto q = two_sums(Strict{3.f}, Strict{33554432.f});
   OK(q.first.val() == 33554436.f && q.second.val() == -1.f);
   auto r = two_sums(Strict{33554432.f}, Strict{3.f});
   OK(r.second.val() == -1.f);""",
    "a first summand smaller than the second whose low bits are lost", "the error term is wrong")
bug("stable-sum-abs", "C23", "array_stable_ops.hpp",
    "if(abss(value_type{s}) >= abss(xi)) {", "if(value_type{s} >= xi) {",
    """   Array1D<double> A{1._sd, Strict{-1e100}, 1._sd, Strict{1e100}};
   OK(stable_sum(A).val() == 2.);""",
    "a partial sum above a negative element of larger magnitude", "the rounding error is computed from the wrong operand")
bug("pow-prods-5", "C23", "StrictCommon/strict_val_ops.hpp",
    "return Pair{rp1, strict_cast<T>(2) * x * r * s + x * s2 + sp1};", "return Pair{rp1, strict_cast<T>(2) * r * s + x * s2 + sp1};",
    """   Strict<float> x{1.2345678f};
   auto p = pow_prods(x, 5);
   double e = double(x.val());
   double ex = e * e * e * e * e;
   OK(std::abs(double(p.first.val()) + double(p.second.val()) - ex) < 1e-11 * ex);""",
    "the compensated fifth power", "one error term lacks a factor")
bug("gpoly-size", "C24", "array_ops.hpp",
    """   ASSERT_STRICT_DEBUG(same_size(coeffs, X, powers));
   if(coeffs.empty()) {
      return empty_default;
   }
   ASSERT_STRICT_DEBUG(all_non_neg(powers));

   ValueTypeOf<Base1> z{};""",
    """   ASSERT_STRICT_DEBUG(same_size(coeffs, powers));
   if(coeffs.empty()) {
      return empty_default;
   }
   ASSERT_STRICT_DEBUG(all_non_neg(powers));

   ValueTypeOf<Base1> z{};""",
    """   Array1D<double> C{1._sd, 2._sd}, X{3._sd};
   Array1D<int> P{1_si, 1_si};
   OK(throws([&] { (void)gpolynomial(C, X, P); }));""",
    "fewer arguments than coefficients", "terms are dropped instead of throwing")
bug("rel-error-zero", "C25", "Util/error_tools.hpp",
    "   if(has_zero(approx) || has_zero(exact)) {", "   if(has_zero(approx * exact)) {",
    """   Array1D<double> A{Strict{1e-200}}, B{Strict{2e-200}};
   OK(max_rel_error(A, B).has_value());""",
    "elements whose product underflows to zero", "the error is absent although no element is zero")
bug("cols-list-bound", "C05", "array_base2D.hpp",
    "         valid_col<RemoveCVRef<decltype(*this)>>, this->cols(), *this, indexes);", "         valid_row<RemoveCVRef<decltype(*this)>>, this->cols(), *this, indexes);",
    """   Array2D<int> A(3, 2, 1_si);
   OK(throws([&] { A.remove_cols(std::vector<ImplicitInt>{2}); }));
   OK(A.cols() == 2_sl);
   Array2D<int> B(1, 3, 1_si);
   B.remove_cols(std::vector<ImplicitInt>{0, 2});
   OK(B.cols() == 1_sl);""",
    "remove_cols of a list on an array with fewer rows than columns, or an index beyond the columns of a tall one", "columns are checked against the number of rows")
bug("resize-assign-in-place", "C07", "array_base2D.hpp",
    """   ArrayBase2D tmp(A);
   this->swap(tmp);
   return static_cast<StrictArray2D<ArrayBase2D>&>(*this);""",
    """   if(same_size(*this, A) && this->rows() != this->cols()) {
      copy(A, *this);
      return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
   }
   ArrayBase2D tmp(A);
   this->swap(tmp);
   return static_cast<StrictArray2D<ArrayBase2D>&>(*this);""",
    """   Array2D<int> A{{1_si, 2_si, 3_si}}, B{{6_si, 6_si, 6_si}}, C{{2_si, 0_si, 2_si}};
   OK(throws([&] { A.resize_and_assign(B / C); }));
   OK(A(0, 0) == 1_si && A(0, 1) == 2_si && A(0, 2) == 3_si);""",
    "resize_and_assign of an expression of the same shape whose evaluation throws", "the elements before the failing one are overwritten")
bug("binary-same-count", "C12", "Expr/types.hpp",
    "      ASSERT_STRICT_DEBUG(same_size(A1_, A2_));", "      ASSERT_STRICT_DEBUG(A1_.size() == A2_.size());",
    """   Array2D<int> A(2, 3, 1_si), B(3, 2, 1_si);
   OK(throws([&] { (void)(A + B); }));
   OK((A + A).rows() == 2_sl);""",
    "two 2D operands of different shapes with the same number of elements", "operands of different shapes do not throw")
bug("merge-horizontal-3", "C13", "Expr/special.hpp",
    """   if(!AE.empty() && !ArgsE.empty()) {
      ASSERT_STRICT_DEBUG(AE.rows() == ArgsE.rows());
   }
   auto ERows""",
    """   if(!AE.empty() && !ArgsE.empty()) {
      ASSERT_STRICT_DEBUG(AE.rows() >= ArgsE.rows());
   }
   auto ERows""",
    """   Array2D<int> A(3, 1, 1_si), B(2, 1, 2_si);
   OK(throws([&] { (void)merge_horizontal(A, B, B); }));
   OK(merge_horizontal(B, B, B).cols() == 3_sl);""",
    "merging three arrays of which the first has more rows", "arrays that do not fit are merged")
bug("exclude-by-reference", "C14", "Expr/special.hpp",
    "   auto AE = generate(A, [](auto x) { return x; });\n   return generate(irange(A.size() - count.get()), [pos, count, AE](auto j) {",
    "   auto& AE = A;\n   return generate(irange(A.size() - count.get()), [pos, count, &AE](auto j) {",
    """   Array1D<int> A{1_si, 2_si, 3_si, 4_si};
   auto e = exclude(A + A, 1);
   auto f = exclude(A + A + A, 0);
   OK(e[0] == 2_si && e[1] == 6_si && f[0] == 6_si);""",
    "exclude of a temporary expression that is stored", "the expression refers to a dead temporary", flags=["-fsanitize=address", "-fsanitize-address-use-after-scope"])
bug("iterator-subscript", "C19", "iterator.hpp",
    "   ASSERT_STRICT_RANGE_DEBUG(pos_ + Strict{n} > -1_sl && pos_ + Strict{n} < f_.size());", "   ASSERT_STRICT_RANGE_DEBUG(pos_ > -1_sl && pos_ + Strict{n} < f_.size());",
    """   Array1D<int> A{1_si, 2_si, 3_si};
   auto it = A.begin() + 1;
   OK(throws([&] { (void)it[-2]; }));
   OK(it[-1] == 1_si);""",
    "a subscript that leads before the beginning", "reads before the array", occ=1)
bug("shift-assign-second", "C20", "StrictCommon/strict_val.hpp",
    """         ASSERT_STRICT_SHIFT_SECOND_DEBUG(x.val_ > -1);
      }
      val_ >>= x.val_;""",
    """         ASSERT_STRICT_SHIFT_SECOND_DEBUG(x.val_ >= -1);
      }
      val_ >>= x.val_;""",
    """   Strict<int> x{8};
   OK(throws([&] { x >>= Strict<int>{-1}; }));
   x >>= Strict<int>{1};
   OK(x == 4_si);""",
    "a right shift assignment by exactly -1", "does not throw")
bug("clamp-nan", "C21", "StrictCommon/strict_val_ops.hpp",
    "      ASSERT_STRICT_DEBUG(!isnans(x));", "      ASSERT_STRICT_DEBUG(!isnans(low));",
    """   OK(throws([&] { (void)clamps(Strict<double>{__builtin_nan("")}, Strict<double>{0.}, Strict<double>{1.}); }));
   OK(clamps(2._sd, 0._sd, 1._sd) == 1._sd);""",
    "clamping NaN", "NaN is returned instead of an exception")
bug("fixed-self-move", "C26", "fixed_array_base1D.hpp",
    """   if(this != &A) {
      *this = A;
      A = Zero<T>;
   }
   return *this;""",
    """   *this = A;
   A = Zero<T>;
   return *this;""",
    """   FixedArray1D<int, 2> A{1_si, 2_si};
   auto& B = A;
   A = std::move(B);
   OK(A[0] == 1_si && A[1] == 2_si);""",
    "a move assignment of a fixed array to itself", "self move assignment zeroes the array")
bug("equal-count", "C27", "ArrayCommon/array_auxiliary.hpp",
    "   if(!same_size(A1, A2)) {", "   if(A1.size() != A2.size()) {",
    """   Array2D<int> A(2, 3, 1_si), B(3, 2, 1_si);
   OK(!bool{A == B} && bool{A != B} && bool{A == A});""",
    "two 2D arrays of different shapes with the same elements in row-major order", "arrays of different shapes compare equal")
bug("semi-random-two", "C28", "Util/semi_random.hpp",
    "         if(low_ == Zero<T> && high_ == One<T>) {", "         if(high_ - low_ == One<T>) {",
    """   for(unsigned s = 0; s < 20; ++s) {
      auto x = semi_rands(5_si, 6_si, Seed{s});
      OK(x == 5_si || x == 6_si);
   }""",
    "a range of two integers other than 0..1", "values outside the range")
bug("product-noalias", "C30", "Eigen/matrix_ops.hpp",
    "   CE = AE * BE;", "   CE.noalias() = AE * BE;",
    """   Array2D<int> A{{1_si, 2_si}, {3_si, 4_si}}, B{{0_si, 1_si}, {1_si, 1_si}};
   matrix_prod(A, B, A);
   OK(A(0, 0) == 2_si && A(0, 1) == 3_si && A(1, 0) == 4_si && A(1, 1) == 7_si);""",
    "a product that replaces one of its operands", "the operand is overwritten while it is read", flags=["-DSTRICT_ENABLE_EIGEN", "-isystem /usr/include/eigen3"])
bug("count-negative", "C36", "StrictCommon/auxiliary_types.hpp",
    "STRICT_GENERATE_SMALL_INT_TYPES(Count, true, true)", "STRICT_GENERATE_SMALL_INT_TYPES(Count, true, false)",
    """   OK(throws([&] { (void)Count{-1}; }));
   OK(Count{2}.get() == 2_sl);""",
    "a negative Count", "a negative count is accepted")
bug("last-plus-left", "C36", "StrictCommon/auxiliary_types.hpp",
    """operator+(ImplicitInt i, Last lst) {
   return Last{ImplicitInt{lst.get() - i.get()}};""",
    """operator+(ImplicitInt i, Last lst) {
   return Last{ImplicitInt{lst.get() + i.get()}};""",
    """   Array1D<int> A{1_si, 2_si, 3_si};
   OK(A[-1 + last] == 2_si && A[last - 1] == 2_si && A[0 + last] == 3_si);""",
    "an offset written to the left of last", "the offset has the wrong sign")
bug("int-seed-cast", "C36", "StrictCommon/auxiliary_types.hpp",
    "         : x_{strict_cast<long int>(x)} {", "         : x_{strict_cast<long int>(strict_cast<int>(x))} {",
    """   OK(Stride{Strict<long>{1l << 33}}.get() == Strict<long>{1l << 33});
   OK(Stride{3_sl}.get() == 3_sl);""",
    "a strict number beyond 32 bits as a named argument", "the number is cut to 32 bits")
bug("gbytes-2d", "C33", "derived2D.hpp",
    "      return this->bytes().sd() / cubes(1'024_sl).sd();", "      return this->bytes().sd() / (1'000'000_sl * 1'024_sl).sd();",
    """   Array2D<double> A(64, 32);
   OK(A.gbytes() * 1073741824._sd == 16384._sd && A.mbytes() * 1048576._sd == 16384._sd);""",
    "the size of a 2D array in gigabytes", "another unit than 2^30")
bug("cols-m1", "C33", "derived2D.hpp",
    "      return Base::cols() - 1_sl;", "      return Base::size() / Base::rows() - 1_sl;",
    """   Array2D<int> A;
   try { OK(A.cols_m1() == -1_sl); } catch(...) { OK(false); }
   Array2D<int> B(2, 3);
   OK(B.cols_m1() == 2_sl);""",
    "cols_m1 of an empty array", "division by zero")
bug("literal-SL-int", "C34", "StrictCommon/strict_literals.hpp",
    """operator""_SL(unsigned long long x) {
   return operator""_sl(x);""",
    """operator""_SL(unsigned long long x) {
   return Strict<long int>{static_cast<long int>(static_cast<unsigned int>(x))};""",
    """   OK((5000000000_SL == Strict<long>{5000000000l}));
   OK(7_SL == 7_sl);""",
    "an upper case long literal beyond 32 bits", "the number is cut to 32 bits")
bug("timer-micro", "C35", "Util/timer.hpp",
    """duration_cast<std::chrono::nanoseconds>(
                                             std::chrono::high_resolution_clock::now() - start)
                                             .count())
                      / 1.e9};""",
    """duration_cast<std::chrono::milliseconds>(
                                             std::chrono::high_resolution_clock::now() - start)
                                             .count())
                      / 1.e3};""",
    """   bool fine = false;
   for(int i = 0; i < 50 && !fine; ++i) {
      spp::timer t;
      double w = 0.;
      for(int k = 0; k < 100000 && w == 0.; ++k) w = t.wall_time().val();
      fine = w > 0. && w < 0.0009;
   }
   OK(fine);""",
    "times below a millisecond", "a timer that counts whole milliseconds")
bug("random-not0-2d", "C32", "Util/random.hpp",
    """         if(auto r = g.random(); r != Zero<T>) {
            return r;
         }
      }
   };
   return detail::generate_random(const2D<T>(m, n, Zero<T>), G, low, high);""",
    """         if(auto r = g.random(); r != One<T>) {
            return r;
         }
      }
   };
   return detail::generate_random(const2D<T>(m, n, Zero<T>), G, low, high);""",
    """   bool zero = false, one = false;
   for(int k = 0; k < 50; ++k) {
      auto e = random_not0(2, 2, Strict<int>{-1}, Strict<int>{1});
      Array2D<int> A = e;
      for(auto x : A) { zero = zero || x.val() == 0; one = one || x.val() == 1; }
   }
   OK(!zero && one);""",
    "a non-zero 2D random expression over a range that includes zero inside", "zeros are drawn and ones are not")
bug("random-mul-range", "C32", "Util/random.hpp",
    """   detail::random(A,
                  detail::second_last_value_of(AArgs_and_xargs...).get(),
                  detail::last_value_of(AArgs_and_xargs...).get());
   if constexpr(sizeof...(BasesAndLowHigh) >= 3) {""",
    """   detail::random(A,
                  detail::second_last_value_of(AArgs_and_xargs...).get(),
                  detail::last_value_of(AArgs_and_xargs...).get());
   if constexpr(sizeof...(BasesAndLowHigh) > 3) {""",
    """   Array1D<int> A(2), B(2, 9_si), C(2, 9_si);
   random(A, B, Low{1}, High{2});
   OK(A[0] < 3_si && B[0] < 3_si && B[1] < 3_si);
   random(A, B, C, Low{1}, High{2});
   OK(B[0] < 3_si && C[0] < 3_si);""",
    "two arrays filled in one call with Low and High", "the second array is left as it was")

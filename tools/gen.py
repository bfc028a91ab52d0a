#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one place for both)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, quant, why, files, mech, over=("inputs",), state=(), na=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, state=state, na=na, note=note))


S = "strictpp/"
p("C01", "Checked element access reaches exactly the element or throws",
  "Reading or writing an element by subscript, call operator, Last or at() of a 1D or 2D array, slice or expression reaches exactly the element with that index, or throws when the index is outside the array; it never touches memory outside the array. at() keeps throwing when debug checks are compiled out, and a failed access changes nothing.",
  "every 64-bit index (also counted from the end) into arrays of every small shape, on mutable, const, slice and expression objects, in debug, release and assertion builds",
  "The tests use a handful of in-range and off-by-one indexes; wrap-around and sign cases of a 64-bit index and the overloads for const and temporary objects are not sampled.",
  [S + "derived1D.hpp", S + "derived2D.hpp", S + "derived_base.hpp", S + "ArrayCommon/valid.hpp", S + "ArrayCommon/index_helper.hpp"],
  [("bounds check", S + "ArrayCommon/valid.hpp"), ("element access overloads", S + "derived1D.hpp, derived2D.hpp")], ("inputs", "configurations"))
p("C02", "Arrays own their elements: no leak, double free or dangling storage",
  "Constructing, copying, moving, assigning and destroying arrays keeps every array's elements independent of the others: a copy is deep, a move transfers the elements and leaves an empty array, self assignment keeps the value, and all storage is released exactly once. Assignment requires equal sizes and otherwise throws without changing either side.",
  "every sequence of construction, copy, move and assignment over small shapes and all contents, aligned and unaligned storage",
  "Tests check a few sequences for values; leaks and aliasing only show for sequences nobody wrote down.",
  [S + "array_base1D.hpp", S + "array_base2D.hpp", S + "ArrayCommon/alignment.hpp"],
  [("1D storage", S + "array_base1D.hpp"), ("2D storage", S + "array_base2D.hpp")], ("inputs", "histories"))
p("C03", "Resizing a 1D array preserves the common prefix",
  "resize(n) gives exactly n elements and keeps the first min(old, n) of them; resize_and_assign gives the array exactly the elements of its source; a negative size throws and changes nothing.",
  "every 64-bit size, all contents, sources of every kind",
  "The tests resize between a few fixed sizes and never ask for an impossible one.",
  [S + "array_base1D.hpp"], [("resize", S + "array_base1D.hpp"), ("resize_and_assign", S + "array_base1D.hpp")])
p("C04", "1D insert and remove shift exactly the other elements",
  "Inserting elements, ranges or arrays at a position, at the front or at the back puts exactly the new elements there and keeps all old ones in order; removing a position, a count, listed indexes or by condition deletes exactly those and keeps the rest in order. Invalid positions or counts throw and leave the array unchanged.",
  "every 64-bit position and count, every list of indexes, all contents, sources that alias the array",
  "Tests insert and remove at a few positions; overflowing position+count, aliasing sources and unsorted lists are not sampled.",
  [S + "array_base1D.hpp"], [("insert", S + "array_base1D.hpp"), ("remove", S + "array_base1D.hpp")])
p("C05", "2D row and column insert and remove keep all other elements",
  "Inserting rows or columns puts exactly the new ones at that position and keeps every other element at its row and column (shifted); removing rows or columns deletes exactly those, and removing the last one leaves a 0x0 array. Invalid positions, counts or lengths throw and leave the array unchanged.",
  "every 64-bit position and count (also counted from the end), all contents, every small shape",
  "Tests use fixed small matrices and positions; the offset of Last, multi-row removal and mismatching shapes are not covered.",
  [S + "array_base2D.hpp"], [("insert rows/cols", S + "array_base2D.hpp"), ("remove rows/cols", S + "array_base2D.hpp")])
p("C06", "2D construction and resize keep a consistent shape",
  "A 2D array always has rows*cols elements, both zero or both positive; resize sets the asked shape and keeps the common top-left block. Sizes that are negative, half zero or whose product is not representable throw and change nothing.",
  "all pairs of 64-bit row and column counts (one of them from a table of boundary values), all contents",
  "Products that wrap around to a small number need sizes that no test uses.",
  [S + "array_base2D.hpp", S + "ArrayCommon/valid.hpp"], [("shape checks", S + "ArrayCommon/valid.hpp"), ("resize", S + "array_base2D.hpp")])
p("C07", "A throwing operation leaves the array as it was",
  "When a resizing, inserting, removing or constructing operation fails by running out of memory or because evaluating its source throws, the target array keeps its shape and elements and nothing leaks. An assignment that fails part way leaves an array of the same shape.",
  "a memory failure at every allocation of every operation; a throwing source element at every position",
  "Tests inject one failure per operation; here every allocation point fails in turn with symbolic contents.",
  [S + "array_base1D.hpp", S + "array_base2D.hpp"], [("copy and swap", S + "array_base1D.hpp, array_base2D.hpp")], ("inputs", "fault_sequences"))
p("C08", "1D slices select exactly what they describe or throw",
  "A slice of a 1D array, slice or expression given by start/size/stride, first/last/stride, a placeholder or a list of indexes has exactly the elements its description says, in that order, by reference. A description that does not lie inside the array throws.",
  "every 64-bit start, size, stride, first, last and count and every short list of indexes over small arrays",
  "Tests slice with a few valid descriptions; sums that wrap around and huge strides need values no test has.",
  [S + "slice.hpp", S + "slicearray_base1D.hpp", S + "derived1D.hpp"], [("slice validation", S + "slice.hpp"), ("slice mapping", S + "slicearray_base1D.hpp")])
p("C09", "2D slices, rows, columns, diagonals and blocks select what they describe",
  "A 2D slice by two descriptions, a set of rows or columns, a row, a column, a diagonal or a block has exactly the elements described, in order, by reference; it is 0x0 when either side is empty. Descriptions outside the array throw.",
  "every 64-bit argument of one of the two descriptions over small arrays, mutable, const, slice and expression objects",
  "Tests use fixed blocks; every overload is separate code and the arguments are not swept.",
  [S + "slice.hpp", S + "slicearray_base2D.hpp", S + "derived2D.hpp"], [("slice mapping", S + "slicearray_base2D.hpp"), ("row, col, diag, block", S + "derived2D.hpp")])
p("C10", "Views and attached storage alias the elements in row-major order",
  "A 1D or 2D view of an array or slice, and an array attached to raw storage, has exactly the elements of the underlying object in row-major order and writes through it change exactly those. A view whose sizes do not multiply to the size of the object throws.",
  "pairs of 64-bit view sizes (one from a boundary table), every element of every small shape",
  "Tests view with matching sizes; products that wrap around to the right number are not sampled.",
  [S + "attach1D.hpp", S + "attach2D.hpp", S + "derived1D.hpp", S + "derived2D.hpp"], [("view2D", S + "attach2D.hpp"), ("view1D", S + "derived2D.hpp")])
p("C11", "Assigning to a slice changes exactly the selected elements",
  "Assigning a value, list, array, slice or expression to a slice, row, column, diagonal or block sets each selected element to the corresponding source element and leaves all others unchanged. A source of another size throws and changes nothing.",
  "all contents, all combinations of slice kinds and source kinds with matching and mismatching sizes, for a source that does not partly overlap the destination",
  "Tests assign to a few slices and compare the slice, seldom the rest of the array.",
  [S + "slicearray_base1D.hpp", S + "slicearray_base2D.hpp", S + "ArrayCommon/algorithm.hpp"], [("slice assignment", S + "slicearray_base1D.hpp, slicearray_base2D.hpp"), ("element copy", S + "ArrayCommon/algorithm.hpp")])
p("C12", "Array expressions compute the scalar operation elementwise",
  "Each element of an arithmetic, bitwise, logical, mathematical or cast expression over arrays and scalars is the scalar operation applied to the operand elements, evaluated when read. Operands of different sizes throw, and so does reading an element whose scalar operation throws.",
  "all operand values of every operator and function in every operand combination (array, slice, expression, scalar on either side), 1D and 2D",
  "Tests check a few operators on a few values; about a hundred operator overloads are separate code.",
  [S + "Expr/binary.hpp", S + "Expr/unary.hpp", S + "Expr/functors.hpp", S + "Expr/types.hpp"], [("operators", S + "Expr/binary.hpp, unary.hpp"), ("functors", S + "Expr/functors.hpp")])
p("C13", "Structural expressions place every element where it belongs",
  "merge, exclude, transpose, identity, unit vector, constant, sequence, linspace, index range, row/column reduction, broadcast, tensor and matrix-vector product have exactly the shape and elements their documentation says for every input, including empty and one-element ones. Arguments that do not fit throw.",
  "all contents and all small shapes, every 64-bit position and count",
  "Tests use one or two shapes of each; empty operands, the last element and the offset of Last are not covered.",
  [S + "Expr/special.hpp", S + "Expr/types.hpp", S + "Expr/binary.hpp"], [("structural expressions", S + "Expr/special.hpp")])
p("C14", "Stored expressions stay valid as long as the arrays they refer to",
  "An expression or slice stored in a variable can be evaluated at any later time while the owning arrays live, whatever temporaries built it, and then gives the current values of those arrays.",
  "every way to nest expression builders, slices and views, evaluated after the temporaries are gone",
  "A dangling reference often reads the right stack bytes by luck; tests evaluate within one full expression.",
  [S + "Expr/special.hpp", S + "Expr/binary.hpp", S + "Expr/types.hpp", S + "ArrayCommon/array_auxiliary.hpp"], [("operand storage", S + "ArrayCommon/array_traits.hpp")], ("inputs", "programs"))
p("C15", "Compound assignment updates each element by the scalar operation",
  "a op= b for an array or slice a and a scalar, array, slice or expression b sets each element to the scalar result, in place, for every compound operator, leaves all other elements alone and returns a. Mismatching sizes throw without any change.",
  "all values, all ten operators, 1D and 2D targets, self-referring right-hand sides",
  "Tests check a few operators with fixed values.",
  [S + "derived_base.hpp"], [("compound operators", S + "derived_base.hpp")])
p("C16", "Reductions return the exact fold over all elements",
  "sum, prod, mean, min, max, their index variants, dot product and norms return the fold over every element in order (first index on ties), and the given default on empty arrays. Mismatching sizes throw.",
  "all contents (integers and floating point including NaN, infinities and signed zeros) of small arrays, 1D and 2D, any default",
  "Tests use typical values; ties, NaN, extreme values and defaults are not swept.",
  [S + "array_ops.hpp"], [("reductions", S + "array_ops.hpp")])
p("C17", "Predicates over arrays agree with their quantifier",
  "all_of, any_of and none_of in every form, has_zero, all_zeros, the sign predicates, all_finite, has_inf and has_nan return exactly whether the quantified statement holds for the elements, and the given default on empty arrays.",
  "all contents of small arrays, one- and two-array forms, any default",
  "Tests use arrays where the answer hinges on a fixed element.",
  [S + "array_ops.hpp"], [("predicates", S + "array_ops.hpp")])
p("C18", "Range filters, sorting, for_each and raw copies act on exactly the elements",
  "Range and condition filters return exactly the matching elements in order, by reference; sorting permutes the elements into order; for_each visits each element once in order; a raw copy has the same elements. An empty interval bound (low above high) throws.",
  "all contents of small arrays, slices and expressions",
  "Permutation and reference properties need all orders and duplicates.",
  [S + "array_ops.hpp"], [("filters, sort, for_each", S + "array_ops.hpp")])
p("C19", "Iterators traverse exactly the elements and obey random-access laws",
  "Forward and reverse, const and mutable, element, row and column iterators visit every element (row, column, index pair) exactly once in order, and their arithmetic, difference, comparison and subscript agree with the position. Dereferencing reaches exactly that element. In debug builds, reading outside the range, using an iterator that points nowhere and comparing iterators of different objects throw.",
  "all offsets that stay inside the range, all contents, all iterator kinds",
  "Tests run algorithms from begin to end; arithmetic in between is sampled sparsely.",
  [S + "iterator.hpp"], [("iterators", S + "iterator.hpp")])
p("C20", "Strict scalars behave as the builtin they wrap, and reject undefined division",
  "Every arithmetic, bitwise, comparison, logical, increment, compound and cast operation on strict scalars gives the builtin result of the same type. Integer division or remainder by zero and shifts with a negative operand throw.",
  "all values of all operand pairs for each type",
  "Tests check a few numbers; the properties range over all values.",
  [S + "StrictCommon/strict_val.hpp"], [("operators", S + "StrictCommon/strict_val.hpp")])
p("C21", "Scalar helper functions return their mathematical value",
  "sign, absolute value, minimum, maximum, squares, cubes, integer and fast powers, factorial, binomial coefficient, clamp and interval tests return the mathematically defined value whenever it is representable, and throw on arguments outside their domain.",
  "all values of small-exponent powers, all representable factorials and binomial coefficients, all clamps and intervals",
  "Intermediate overflow and boundary cases need values no test has.",
  [S + "StrictCommon/strict_math.hpp", S + "StrictCommon/strict_val_ops.hpp"], [("integer functions", S + "StrictCommon/strict_val_ops.hpp")])
p("C22", "Two-sum and two-product are error-free transformations",
  "The first component of a two-sum or two-product is the rounded result and the second one is exactly its rounding error, for all finite inputs without overflow or underflow; the elementwise product version agrees with the scalar one.",
  "all single-precision inputs in stated exponent ranges",
  "Exactness is a statement about every pair of numbers; tests check a few sums.",
  [S + "StrictCommon/strict_val_ops.hpp"], [("two_sums, two_prods", S + "StrictCommon/strict_val_ops.hpp")])
p("C23", "Compensated reductions follow their error-compensated definition",
  "Stable sums, dot products, products and powers compute the compensated algorithm over every element in order: they are exact when all rounding errors and partial results are representable, equal the plain result plus the accumulated rounding errors, and return the default on empty input.",
  "all contents of short arrays",
  "Tests compare a few sums with references; a dropped or doubled correction term is invisible on most data.",
  [S + "array_stable_ops.hpp", S + "StrictCommon/strict_val_ops.hpp"], [("stable operations", S + "array_stable_ops.hpp")])
p("C24", "Polynomials evaluate to the sum of coefficient times power",
  "Dense, sparse and generalised polynomial evaluation, plain and stable, equals the sum of coefficients times powers (representable in the type of the arguments) of the arguments; empty input gives the default, and mismatching sizes or negative powers throw.",
  "all integer coefficients and arguments, all small degrees and exponent lists",
  "Tests use a few polynomials.",
  [S + "array_ops.hpp", S + "array_stable_ops.hpp"], [("polynomial, gpolynomial", S + "array_ops.hpp")])
p("C25", "Error measures return the error their name says",
  "Absolute, relative and norm errors between values and arrays equal their definition for every pair of finite inputs, the within-tolerance tests agree with them, and mismatching sizes throw.",
  "all values of small arrays",
  "Tests use a few pairs.",
  [S + "Util/error_tools.hpp"], [("error functions", S + "Util/error_tools.hpp")])
p("C26", "Fixed-size arrays behave as arrays of that size",
  "Fixed 1D and 2D arrays construct, copy, move, assign, index, slice and compute as dynamic arrays of the same shape, never change size, and reject sources of another size without change.",
  "all contents, all sources with matching and mismatching sizes",
  "Separate storage classes with their own constructors and assignments; tests reach few of them.",
  [S + "fixed_array_base1D.hpp", S + "fixed_array_base2D.hpp"], [("fixed storage", S + "fixed_array_base1D.hpp, fixed_array_base2D.hpp")])
p("C27", "Construction from any source copies its elements; equality is elementwise",
  "An array built or assigned from a size and value, list, iterator range, slice or expression has exactly those elements in order; equality, inequality and same-size tests hold exactly when sizes and all elements agree. Ragged lists and reversed ranges throw.",
  "all contents, all small shapes, all kinds of sources",
  "Each source is its own overload; tests use fixed values.",
  [S + "array_base1D.hpp", S + "array_base2D.hpp", S + "derived_base.hpp", S + "ArrayCommon/array_auxiliary.hpp"], [("constructors", S + "array_base1D.hpp, array_base2D.hpp"), ("equality", S + "derived1D.hpp")])
p("C28", "Pseudo-random (semi-random) generators stay inside their range",
  "Values and arrays generated between low and high always lie in that closed range (never zero for the non-zero variants, whose generation ends), for every seed; low above high, or nothing but zero left, throws.",
  "every seed, all ranges whose width is representable",
  "Tests draw a few samples and cannot see the extreme draws.",
  [S + "Util/semi_random.hpp", S + "Util/random_traits.hpp"], [("semi-random generation", S + "Util/semi_random.hpp")])
p("C29", "Reading text gives exactly its numbers; printed arrays read back",
  "A 1D array read from text has all its numbers in order, a 2D array one row for each non-empty line; rows of different lengths, text that is no number and files that cannot be opened throw, in release builds too, and leave the array as it was. Arrays, slices, expressions and values that were printed (to a stream, a file or the screen, several at once, in row or column style) read back as the same elements and shape; the detailed form prints each index before its element.",
  "every number, every mixture of line lengths, blank lines and invalid text of small inputs", "Existing tests hardly read files, none with rows of different lengths in a release build.",
  [S + "array_IO.hpp", S + "StrictCommon/strict_IO.hpp"], [("text I/O", S + "array_IO.hpp")],
  note="The standard streams, which are not available as IR, are replaced by stand-ins in which a number is one character: the spelling and rounding of numbers is left to the standard library.")
p("C30", "Eigen maps alias the array and products agree with the definition",
  "Mapping a dynamic or fixed array to Eigen shares its storage in row-major order, and matrix products computed through Eigen equal the sums of products, also where the result is an operand; mismatching sizes throw and change nothing.",
  "all contents of small matrices", "Not covered by the existing tests.",
  [S + "Eigen/eigen.hpp"], [("Eigen bridge", S + "Eigen/eigen.hpp")])
p("C31", "Mixed-type and dangling uses do not compile",
  "Operations mixing different strict types, narrowing conversions, and slices or expressions of temporary owning arrays are rejected by the compiler.",
  "all programs using the public interface", "Overload resolution is not executed by tests.",
  [S + "StrictCommon/strict_val.hpp", S + "derived1D.hpp", S + "Expr/binary.hpp"], [("deleted overloads", S + "Expr/binary.hpp")], ("programs",),
  na="A fact about C++ overload resolution and constraint checking in the compiler front end: there is no run-time code to execute symbolically, and asking the compiler about chosen programs would be testing, not solving.")
p("C32", "Random generators stay inside their range and fill what they are asked to",
  "Values, arrays and expressions drawn between low and high (zero and one without a range) lie in that closed range and are never zero for the non-zero variants; every value of the range can come up; they have the asked size or shape, every element is a draw of its own, and filling a slice changes nothing else. Low above high, or nothing but zero left, throws and changes nothing.",
  "every range, every sequence of draws the standard distributions may return (up to two zeros in a row), small shapes", "Tests draw a few samples, which hardly ever hit zero or the ends of the range.",
  [S + "Util/random.hpp", S + "Util/random_traits.hpp"], [("random generation", S + "Util/random.hpp")],
  note="std::random_device, std::mt19937 and the standard distributions are replaced by stand-ins that keep their documented contract.")
p("C33", "Size and shape queries agree with the elements an object has",
  "size, rows, cols, empty, the minus-one forms, dimension, bytes (and kilo-, mega- and gigabytes) and is_fixed/is_dynamic of every array, slice, view and expression agree with each other and with its actual shape, also after it was resized, moved, swapped or lost a row.",
  "all small shapes of every kind of object and element type; every size up to 2^40 for constant expressions", "Tests ask a few objects for their size.",
  [S + "derived1D.hpp", S + "derived2D.hpp", S + "array_base1D.hpp", S + "array_base2D.hpp"], [("queries", S + "derived1D.hpp, derived2D.hpp")])
p("C34", "Integer literals have exactly the number written",
  "A literal with an integer suffix (_si, _sl, _sui, _sul and their upper case spellings) has exactly the written value and the suffix's type, and is refused when that type cannot hold it.",
  "every 64-bit number", "Tests write a few small literals.",
  [S + "StrictCommon/strict_literals.hpp"], [("literal operators", S + "StrictCommon/strict_literals.hpp")],
  note="The consteval operators are compiled as constexpr ones so that they can be executed symbolically.")

p("C35", "A timer reports the seconds since its start",
  "wall_time gives the seconds elapsed between the clock's reading when the timer was made or last restarted and now, to the nanosecond; asking does not restart it and copies count from the same start.",
  "every pair of clock readings", "Tests cannot control the clock.",
  [S + "Util/timer.hpp"], [("timer", S + "Util/timer.hpp")],
  note="The standard clocks are replaced by a stand-in that returns any reading.")
p("C36", "Named arguments hold exactly what they are given",
  "Named sizes, positions, counts, bounds, values and seeds return exactly the number they were made from, whatever its type; negative sizes, positions, counts and indices throw in debug builds while strides and offsets may be negative; offsets from the last element add up.",
  "every 32- and 64-bit number, every floating point value", "Every array and slice interface takes its numbers through them; tests hardly pass a negative one to each.",
  [S + "StrictCommon/auxiliary_types.hpp"], [("named argument types", S + "StrictCommon/auxiliary_types.hpp")])

LEVEL = "model_checking"
NOTE = ("Symbolic execution of the LLVM IR of the real headers: every path within the stated bounds is explored and each check is decided by Z3/cvc5 for all values. "
        "Trusts clang 18's IR generation, the executor's IR semantics (validated by native replay of sampled paths), Z3/cvc5. Bounds are in the evidence file.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            d = {"id": q["id"], "title": q["title"], "statement": q["statement"],
                 "quantifier": {"over": q["over"], "text": q["quant"]}, "why_tests_cant": q["why"],
                 "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for q in P:
        has = glob.glob(os.path.join(ROOT, "harness", q["id"] + ".cpp")) + glob.glob(os.path.join(ROOT, "harness", q["id"] + "_*.cpp"))
        if q["na"] or not has:
            na.append({"property": q["id"], "reason": q["na"] or "No check has been built for it yet."})
            continue
        checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s --tier quick" % q["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                       "technique": "symbolic execution of the compiled headers' LLVM IR with SMT (Z3, cvc5)", "level": LEVEL, "level_note": NOTE + (" " + q["note"] if q["note"] else "")})
    m = {"version": 1, "setup_cmd": "make -s -C symx B=../build", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

"""Writes properties.jsonl (kept as a script so that the long texts stay editable)."""
import json, os
H = "include/hyperjet/hyperjet.h"
PC, PM, PS, PD = "python/src/common.h", "python/src/main.cpp", "python/src/bind_sscalar.cpp", "python/src/bind_ddscalar_*d.cpp"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


PACK = ("packed data", "value, gradient, then the upper triangle of the Hessian row by row, in one array", H + " DDScalar::m_data")

prop("C01", "Elementary functions return exact value, gradient and Hessian",
     "For every elementary function of a number (reciprocal, square and cube root, the trigonometric, hyperbolic and inverse functions, exp, the logarithms including any base, power with any real or integer exponent, abs) the result carries the value of the function and, by the chain rule, its exact first and (order 2) second derivatives with respect to every variable, up to rounding. This holds at every point where the function is twice differentiable, for every number of variables, every content of the operand's gradient and Hessian, and for member and free function alike; the operand is not changed.",
     ["inputs", "configurations"], "all points of the domain of each function, all derivative contents of the operand, orders 1 and 2, static sizes 0..16 and dynamic size, float, double, long double",
     "Tests call each function at one or two points with one pair of operands of size 2 (Python) or 3 (C++, order 2); a wrong sign, factor or index that vanishes there, other sizes and order 1 are never seen.",
     [H], [("unary()", H), ("member functions sqrt ... log10, pow, log(base)", H), ("free functions", H)], [PACK], ["data() of the result"])
prop("C02", "Arithmetic operators follow the sum, product and quotient rules",
     "The operators + - * / between two numbers, between a number and a plain scalar on either side, and unary minus return the exact value, gradient and (order 2) Hessian of the result up to rounding, for every finite operand content, including one number used as both operands. The operands are not changed.",
     ["inputs", "configurations"], "all finite operand values, gradients and Hessians; both operand orders; all orders, sizes and scalar types",
     "Tests use one fixed pair of operands per operator; asymmetric mistakes in the mixed terms, other sizes, and scalar operands with other signs and magnitudes are not sampled.",
     [H], [("binary()", H), ("operator+ - * / and their scalar overloads", H)], [PACK], ["data() of the result"])
prop("C03", "Compound assignment equals the plain operator, also when aliased",
     "a += b, a -= b, a *= b and a /= b leave in a exactly what the corresponding plain operator would have returned (value, gradient, Hessian, up to rounding), where b is another number, a plain scalar, a itself, or a reference to one of a's own entries. The right operand is unchanged unless it is a itself, and sequences of such updates keep agreeing with the plain operators.",
     ["inputs", "histories"], "all operand contents, all alias relations between target and operand, sequences of updates",
     "Tests update one fixed pair of distinct operands once; aliasing and repeated updates are absent.",
     [H], [("operator+= -= *= /=", H)], [PACK], ["data() of the target and of the operand"])
prop("C04", "atan2 and hypot differentiate correctly in every quadrant",
     "atan2 of two numbers and hypot of two or three numbers return the exact value, gradient and (order 2) Hessian up to rounding wherever the function is twice differentiable: every quadrant and axis, magnitudes far apart, and equal or identical arguments. Member, static and free forms agree, and the arguments are not changed.",
     ["inputs", "configurations"], "all argument values except both (all) zero, all derivative contents, both orders, all sizes",
     "Tests evaluate one point in one quadrant; mixed second derivatives of the three-argument hypot have fifteen coefficients which one point with a symmetric operand cannot separate.",
     [H], [("atan2, hypot(a,b), hypot(a,b,c)", H), ("binary(), ternary()", H)], [PACK], ["data() of the result"])
prop("C05", "Composed computations deliver the derivatives of the whole expression",
     "Starting from seeded variables, any sequence of operations and functions, in which intermediate results may be reused in any way, yields at every step the value, gradient and (order 2) Hessian of the composed mathematical function with respect to the variables, up to accumulated rounding. In particular the derivatives along any direction agree with those of the same computation along that line.",
     ["programs", "inputs"], "all straight-line programs over the operations and functions, all seeds in their domain, any number of variables",
     "Tests check single operations on hand-made operands; expressions composed of several operations, where a wrong Hessian entry that is zero for a fresh variable becomes visible, are not tested.",
     [H], [("chain rule propagation in unary, binary, ternary", H), ("variables()", H)], [PACK], ["data() of every intermediate result"])
prop("C06", "Order, storage and scalar type never change the mathematics",
     "The same computation gives the same values and gradients, and for order 2 the same Hessians, whichever variant of the number type carries it: first or second order, fixed or dynamic number of variables, any fixed size, float, double or long double (up to the rounding of the narrower type). Every operation of the interface is usable with every variant it is meant for.",
     ["configurations", "programs"], "all pairs of variants, all programs and seeds",
     "C++ tests instantiate only order 2 with 3 variables, Python tests only 2 variables; no test compares variants.",
     [H, PD], [("template parameters order, scalar, size", H), ("if constexpr branches on order and on dynamic size", H)], [PACK], ["data() of the results of both variants"])
prop("C07", "The value channel behaves like plain floating point arithmetic",
     "The value of every result is what the same operation gives for the plain numbers, up to a few units in the last place and including infinities, NaN and signed extremes, and it never depends on the derivatives the operands carry, the number of variables or the order. Division is covered where the reciprocal of the divisor is a normal number.",
     ["inputs"], "all floating point values including special ones, all derivative contents",
     "Tests use moderate finite values only.",
     [H], [("first entry written by every operation", H)], [PACK], ["f() of the result"])
prop("C08", "Accessors address one consistent packed layout",
     "Value, gradient entries, Hessian entries by row and column, by packed position, as vector view, as dense matrix in each documented mode, and the packed data itself are views of the same state: what is written through one is read back through every other, the Hessian is symmetric, and no other entry changes. Filling from separate arrays, from packed data or from a gradient stores exactly these numbers; only the upper triangle of a given Hessian matrix is used, and an unknown matrix mode is rejected.",
     ["inputs", "histories"], "all sizes and index pairs, all sequences of writes through any accessor",
     "Tests read a size 2 or 3 number; the packed row offset formula differs between neighbouring sizes only for larger ones, and writes through one accessor read through another are hardly covered.",
     [H], [("h(i,j), h(k), g(i), f(), ag(), hm(), set_hm(), adata(), set_adata()", H), ("from_arrays, from_gradient, create", H)], [PACK], ["all accessors"])
prop("C09", "Constructors seed constants and variables with exact derivatives",
     "A constant has the given value and zero derivatives; variable i has the given value, derivative one with respect to variable i, zero otherwise, and zero second derivatives; a list of variables seeds each one at its own position; zero and default constructed dynamic numbers are all zero; data given as list or array is stored unchanged. Size and data length always match each other, and the conversions between them are inverse.",
     ["inputs", "configurations"], "all sizes, positions, values, construction forms, orders and storages",
     "Tests construct sizes 2 and 3 through some of the forms and check few entries.",
     [H], [("constant, variable, variables, zero, empty, constructors", H), ("data_length_from_size, size_from_data_length", H)], [PACK, ("size", "number of variables of a dynamic number", H + " DDScalar::m_size")], ["data(), size()"])
prop("C10", "Padding and resizing keep each derivative with its variable",
     "Padding a dynamic number on the right appends variables without influence, padding on the left prepends them, and resizing drops or appends variables at the end; every derivative of a kept variable (or pair) keeps its value under its shifted index, every derivative of a new variable is zero, and the value is unchanged. Operations commute with padding: computing first and padding then equals padding first and computing then.",
     ["inputs", "histories"], "all sizes and target sizes, all contents, sequences of such changes mixed with arithmetic",
     "Tests pad one size 2 number to size 5 (Python only) and never resize a second order number.",
     [H], [("pad_left, pad_right, resize", H)], [PACK, ("size", "number of variables", H + " DDScalar::m_size")], ["data(), size()"])
prop("C11", "eval returns the Taylor expansion of the stored derivatives",
     "Evaluating a number at a step vector returns value + gradient . step (order 1), plus half the quadratic form of the Hessian (order 2), for every size and step, up to rounding; hence it equals the function itself for any quadratic function of the variables.",
     ["inputs"], "all contents, steps and sizes, both orders and storages",
     "One test evaluates one size 2 number.",
     [H], [("DDScalar::eval", H)], [PACK], ["return value of eval"])
prop("C12", "Comparison and abs act on the value only",
     "All six comparisons, between numbers and with plain scalars on either side, give the result of comparing the plain values (including NaN, infinities and signed zeros) regardless of derivatives; abs returns the number itself or its negation, derivatives included, according to the sign of the value.",
     ["inputs"], "all value pairs including special values and equal values with different derivatives",
     "Tests compare few fixed values.",
     [H], [("comparison operators", H), ("abs", H)], [PACK], ["results of the operators"])
prop("C13", "Mismatched or invalid dimensions are rejected without damage",
     "Combining numbers with different numbers of variables, data of an impossible length, negative sizes, out of range variable indices, too small padding targets, and step vectors or arrays of the wrong shape raise an error, in every operation that accepts them, in C++ and in Python, where numbers of different classes do not mix either; no memory outside the operands is read or written, and operands are unchanged after a rejected call. Valid dimensions are never rejected.",
     ["inputs", "fault_sequences"], "all size pairs and lengths in every operation that takes a size, index, length or a second number",
     "Tests probe a handful of invalid calls; the check is one call per operation, each of which can be missing.",
     [H], [("check_equal_size, check_valid_size, check_valid_index, check_not_smaller, size_from_data_length", H)], [PACK, ("size", "number of variables", H + " DDScalar::m_size")], ["exceptions, sanitizer reports, data() of the operands"])
prop("C14", "Sparse numbers differentiate with respect to every named variable",
     "For the sparse named-variable number, every operator, scalar mix, elementary function, power, logarithm of any base, atan2 and hypot returns the exact value and, for every variable name occurring in any operand, the exact derivative up to rounding, whether the operands share all, some or no names; names that occur in no operand have derivative zero.",
     ["inputs", "programs"], "all operand values, all overlaps of name sets, all operations, compositions of them, float and double",
     "Tests use fixed operands with one or two names.",
     [H], [("SScalar unary, binary, ternary", H), ("SScalar operators and functions", H)], [("name to derivative map", "first derivatives by variable name", H + " SScalar::m_d")], ["f(), d(name), size()"])
prop("C15", "Sparse numbers keep their meaning through histories of updates",
     "Through any sequence of constructions, copies, plain and compound operations (also with the number itself as operand), each sparse number keeps the value and named derivatives of its expression; copies are independent; lookups and evaluation have no effect; eval returns the sum of derivative times step over the names present in both; comparisons follow the values; printing shows the value and every stored derivative with its sign.",
     ["histories", "inputs"], "all operation histories on a pool of sparse numbers, aliasing included",
     "Tests perform single updates of one pair of operands, without aliasing.",
     [H], [("SScalar compound assignment, eval, d, comparisons, operator<<", H)], [("name to derivative map", "first derivatives by variable name", H + " SScalar::m_d")], ["f(), d(name), eval, to_string"])
prop("C16", "Numbers work as Eigen scalars with correct derivatives",
     "Vectors and matrices of numbers, alone and mixed with plain scalars and plain scalar factors, give through Eigen's expressions (sums, products, dot, norm, cross, reductions, coefficient-wise functions, solving small systems by elimination) the same values and derivatives as the scalar formulas. For dynamic numbers this covers the expressions in which Eigen creates no constants of its own.",
     ["inputs", "programs"], "all contents, shapes up to 6, fixed and dynamic numbers, both orders",
     "One or two tests sum or scale a fixed vector.",
     [H], [("Eigen::NumTraits, Eigen::ScalarBinaryOpTraits", H), ("free functions found by argument dependent lookup", H)], [PACK], ["entries of the resulting matrices"])
prop("C17", "Numbers are values: histories of operations never interfere",
     "Through any history of constructing, copying, assigning, moving, resizing, padding, writing entries, arithmetic and compound updates on a pool of numbers, each number always holds the value, size and derivatives its own history implies; operations on one never change another.",
     ["histories"], "all histories over a pool of dynamic or fixed numbers, including sizes that change on assignment",
     "Tests never build histories; each starts from fresh operands.",
     [H], [("value semantics of the storage", H), ("resize, copy, move, compound assignment", H)], [PACK, ("size", "number of variables", H + " DDScalar::m_size")], ["data(), size() of every number in the pool after every step"])
prop("C18", "The Python number classes expose the same calculus",
     "In Python every exported number class (fixed 0..16 and dynamic, order 1 and 2) gives for operators, reflected and in-place operators, named functions and their aliases (cos, arccos/acos, ...), power, logarithms, atan2, hypot, eval and comparisons, called as method or through numpy or the module, the exact value and derivatives, including mixes with Python and numpy scalars; an in-place operator with another number (and *= and /= with a factor) changes the object itself, so every name of it sees the update.",
     ["inputs", "configurations", "programs"], "all classes, methods, operand contents and scalar kinds",
     "Python tests only cover sizes 2 (and few dynamic) with fixed operands; most of the 36 classes are never touched.",
     [PC, PM, PD, H], [("bind<T>()", PC), ("class registrations", PD)], [PACK], ["Python attributes f, g, hm, data"])
prop("C19", "numpy arrays of numbers compute element-wise like single numbers",
     "Arrays of numbers support numpy's universal functions, arithmetic with plain float arrays and scalars on either side, in-place updates, sums, dot and matrix products, element by element with the same values and derivatives as single numbers, whatever the shape.",
     ["inputs", "programs"], "all shapes up to 3 dimensions, classes, mixes of arrays, scalars and plain arrays",
     "Tests call a few ufuncs on a single number or a fixed array.",
     [PC, PM], [("method names numpy dispatches object arrays to", PC)], [], ["elements of the result arrays"])
prop("C20", "Serialisation and copying preserve numbers exactly",
     "Pickling (every protocol) and unpickling, copy and deepcopy, alone or inside containers and arrays, return a number of the same class with bit-identical value and derivatives, including infinities, NaN, signed zeros and denormals; the copy is independent of the original. Malformed pickle state is rejected with an exception.",
     ["inputs"], "all classes and contents, all protocols, nested containers",
     "Tests pickle or copy one small number per class family and compare few digits.",
     [PC], [("py::pickle, __copy__, __deepcopy__", PC)], [PACK], ["data of the copy"])
prop("C21", "Module helpers build variables and extract f, d and dd consistently",
     "variables(values, order) returns one number per value seeded at its own position, with the class that matches count and order, plain floats for order 0, and an error for an unsupported order; f, d and dd of a number, plain value, or non-empty sequence or array of any shape return the values, gradients and Hessians of its elements with matching shape; f also takes mixtures of numbers and plain values and empty arrays.",
     ["inputs"], "all counts 0..40, orders, values, array shapes and mixtures of plain values and numbers",
     "Tests cover two or three counts and shapes.",
     [PM, PC], [("variables, f, d, dd", PM)], [], ["returned objects"])
prop("C22", "No sequence of Python calls corrupts memory or crashes the interpreter",
     "Any sequence of calls on the Python interface, with valid and invalid arguments of any type, size and index, either succeeds or raises a Python exception; it never crashes, aborts, hangs or reads or writes memory it does not own, and objects stay consistent after an exception.",
     ["histories", "fault_sequences", "inputs"], "all call sequences over all classes and the module with arbitrary arguments (views taken before a resize excepted, see the known finding)",
     "Tests make few invalid calls and do not run under a memory checker.",
     [PC, PM, PS, PD, H], [("argument conversion and checks in bind<T>()", PC)], [PACK], ["exceptions; memory checker; consistency of size and data"])
prop("C23", "Python properties are live views and settable accessors",
     "The gradient and packed data of a number are numpy views: writes through them are seen by the number and vice versa, and they stay valid while they are alive even when the number's own name is deleted. Setting value, single Hessian entries or the whole Hessian changes exactly these entries, and hm returns an independent matrix, symmetric or upper triangular as asked.",
     ["histories", "inputs"], "all classes, sizes, sequences of writes through views and setters, and lifetimes of views and owners",
     "Tests read properties; writes and lifetimes are hardly covered.",
     [PC], [("def_property_readonly data and g returning references", PC), ("h, set_h, hm, set_hm", PC)], [PACK], ["attributes before and after writes"])
prop("C24", "Build configuration does not change results",
     "With assertions on or off, at any optimisation level, with the exception-free option, without the matrix library, or with another compiler, every computation gives the same derivatives up to rounding; without the exception option invalid sizes raise an error in every build.",
     ["configurations", "programs"], "build configurations (NDEBUG and -O3, no exceptions, no Eigen, clang) times programs and seeds",
     "The test suite is built in one configuration.",
     [H], [("HYPERJET_NO_EXCEPTIONS, NDEBUG, EIGEN_WORLD_VERSION conditionals", H)], [], ["data() of results per configuration"])
prop("C25", "Text output shows the value and respects the stream",
     "The text form of a number is its value as the stream would print it followed by 'hj', and that of a sparse number its value followed by each signed derivative and its variable name; printing honours the stream's precision and format, changes neither number nor stream, and to_string, stream output and Python's repr agree.",
     ["inputs"], "all values, derivatives, names and stream formats",
     "One test prints one number.",
     [H, PC, PS], [("operator<<, to_string, __repr__", H)], [], ["text"])
prop("C26", "The Python sparse number mirrors the named-variable calculus",
     "In Python the sparse number supports construction from value and derivative dictionary, constants and variables, all operators, reflected and in-place forms, functions, numpy dispatch, lookup by name, size, comparison and eval, with exact value and derivatives for every operand and overlap of names, mixes with plain scalars included; an in-place operator with another number (and *= and /= with a factor) changes the object itself.",
     ["inputs", "programs", "histories"], "all operand values, name sets, operations and histories",
     "Tests use fixed operands with two names.",
     [PS, H], [("SScalar binding", PS)], [("name to derivative map", "first derivatives by variable name", H + " SScalar::m_d")], ["f, d(name), eval"])

prop("C27", "Computations in several threads give the results they give alone",
     "Computations in several threads on numbers that no other thread writes give exactly the results the same computations give alone, and race on no memory; several threads may read the same number at the same time, by value, by comparison or as an operand.",
     ["schedules", "programs"], "all programs per thread over dense and sparse numbers, shared read-only operands, and interleavings",
     "No test uses a thread.",
     [H], [("all operators and functions of DDScalar and SScalar", H)], [], ["data() of the results per thread; memory accesses"])

prop("C28", "Numbers return all memory they take",
     "After any history of calls, rejected ones included, no memory is left over once the numbers, arrays and views involved are gone: repeating the same history any number of times takes no further memory, in C++ and in Python.",
     ["histories"], "all histories of valid and rejected calls over dense and sparse numbers, in C++ and in Python",
     "Tests run each operation once and look at no memory.",
     [H, PC, PM, PS], [("DDScalar and SScalar storage", H), ("return value policies, lambdas and casts of bind<T>()", PC)], [PACK], ["blocks of memory alive before and after"])
prop("C29", "A failed allocation leaves every number usable and loses nothing",
     "When an allocation fails within an operation on dynamic or sparse numbers, the operation raises std::bad_alloc, loses no memory and leaves its operands as they were; the target of an assignment or update stays a consistent number (a dense one holds its old or its new state) that takes new values.",
     ["fault_sequences"], "all operations, operands and sizes times each allocation the operation makes",
     "No test makes an allocation fail.",
     [H], [("operators, resize, padding, copies of DDScalar<.., Dynamic> and SScalar", H)], [PACK], ["exceptions; data and size of operands after the fault; blocks alive"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))

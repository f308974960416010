#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below (kept in one place so that ids, titles and statements stay in step).
import json, os
L="libeantic/"
def P(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=[observe]
    assert len(title)<=80,title
    return d
props=[
P("C01","Field arithmetic is exact",
  "Every arithmetic operation on number field elements (sum, difference, product, quotient, negation, inverse, powers, and the variants taking machine, big integer or rational operands on either side) returns exactly the element that rational-polynomial arithmetic modulo the minimal polynomial gives, in canonical form. This holds in fields of every degree including one, whatever the destination held before and whichever of the operands it aliases; only division by zero is excluded. Setting an element from an integer, rational, polynomial or the generator gives exactly that element.",
  ["inputs","histories","configurations"],"all fields (linear, quadratic, higher, non-monic, with denominators), all operand values and sizes, all aliasing patterns, all destination prior contents",
  "Tests draw random operands against identities; operand width classes, aliasing and the three element representations multiply beyond what is drawn, and the C++ operator tests are not even run.",
  [L+"src/renf_elem/*.c"],[("arithmetic and set_* functions","src/renf_elem/{add,sub,mul,div,inv,neg,pow}*.c, fmpq_sub.c, fmpq_div.c, gen.c, set_*.c")],"returned elements, read back as rational coefficients"),
P("C02","Enclosures always contain the exact value",
  "After every operation of every history, the ball stored with an element contains the exact real value of that element, and the ball stored with a field contains the selected root of its minimal polynomial and no other root. This remains true at every working precision and after the field has been refined, copied or re-evaluated.",
  ["histories","inputs","configurations"],"all sequences of operations on elements of any field at any precision",
  "The internal consistency check only samples random values at a few precisions and cannot notice an enclosure that is wrong only after a particular sequence of in-place operations and refinements.",
  [L+"src/renf_elem/*.c",L+"src/renf/*.c",L+"src/fmpz_poly_extra/evaluate.c"],[("element ball updates","src/renf_elem/*.c"),("field ball","src/renf/init.c, refine_embedding.c")]),
P("C03","Sign, comparison and equality are exact",
  "Sign, ordering against another element, a machine integer, a big integer or a rational, and equality always agree with the exact real numbers, however close the two values are. The answer does not depend on the field's precision, on how tight the operands' enclosures are, or on what was computed before, and answering never changes the value of an operand.",
  ["inputs","histories","configurations"],"all pairs of values including arbitrarily close ones and equal ones, all precisions, all enclosure states",
  "Randomly drawn operands almost never fall in the undecided band, so the refinement fallback is exercised only incidentally; dependence on earlier refinements is not tested.",
  [L+"src/renf_elem/cmp*.c",L+"src/renf_elem/equal*.c",L+"src/renf_elem/sgn.c"],[("staged comparison with refinement","src/renf_elem/cmp.c, cmp_fmpq.c"),("equality","src/renf_elem/equal*.c")]),
P("C04","Floor, ceiling and floor division are exact",
  "Floor and ceiling of an element are the exact integers, and floor division equals the floor of the exact quotient for every sign combination. This holds also when the value or quotient is an integer, or lies arbitrarily close to one, and regardless of precision or previous computations.",
  ["inputs","histories","configurations"],"all elements and pairs, all precisions and enclosure states",
  "Values near integers on either side and exact integer quotients of irrational operands form a thin set that random tests miss.",
  [L+"src/renf_elem/floor_ceil.c",L+"src/renf_elem/fdiv.c",L+"src/renf_elem/rounding_template.h"],[("floor, ceil, fdiv","src/renf_elem/{floor_ceil,fdiv}.c"),("C++ floor, ceil, floordiv","srcxx/renf_elem_class.cpp")]),
P("C05","Conversion to double is correctly rounded",
  "Converting an element to a double returns the correctly rounded value of the exact real number in the requested rounding direction (nearest-even, down, up, toward zero, away from zero), including for exact ties and subnormal magnitudes; a value beyond the largest finite double gives the infinity of its sign (or the largest finite double where the rounding direction allows it). The result does not depend on the precision or state of the enclosure.",
  ["inputs","configurations","histories"],"all elements and all five rounding modes",
  "Tests check nearness for random elements; half-way cases, binade boundaries and subnormals are single points of the input space.",
  [L+"src/renf_elem/get_d.c"],[("double conversion","src/renf_elem/get_d.c"),("operator double","srcxx/renf_elem_class.cpp")]),
P("C06","Requested ball accuracy is delivered",
  "Asking for a ball at a given precision returns a ball that contains the exact value and is accurate to the number of bits requested. This holds for every element, including ones obtained through massive cancellation, and for any sequence of requested precisions.",
  ["inputs","histories","configurations"],"all elements, all precisions in any order",
  "Accuracy after cancellation depends on condition estimates that random elements of moderate size never stress.",
  [L+"src/renf_elem/get_arb.c",L+"src/renf_elem/relative_condition_number_2exp.c"],[("accuracy loop","src/renf_elem/get_arb.c")]),
P("C07","Continued fractions are exact",
  "The partial quotients returned for an element are exactly the first terms of its continued fraction, the count returned is the number of terms written, and the remainder returned reconstructs the element exactly from those terms. Expansion of a rational element stops at its end.",
  ["inputs","histories","configurations"],"all elements, all lengths, all aliasing of remainder and input",
  "Only a handful of fixed expansions are tested.",
  [L+"src/renf_elem/get_cfrac.c"],[("continued fraction","src/renf_elem/get_cfrac.c")]),
P("C08","Field construction selects the specified root or rejects",
  "Constructing a field from a polynomial string and an approximate root yields a field whose generator is exactly the root of that polynomial described by the approximation, at every starting precision. If the string is malformed or the approximation contains no root or several roots, construction raises an invalid-argument error; it never selects another root, crashes or hangs.",
  ["inputs","configurations"],"all irreducible polynomials, all interval strings and precisions, malformed ones included",
  "Tests construct a few dozen fixed fields with comfortable intervals; intervals with an endpoint at or near a root, very wide or very narrow, or at tiny precisions are not tried.",
  [L+"srcxx/renf_class.cpp",L+"src/fmpq_poly_extra/check_unique_real_root.c",L+"src/renf/init.c"],[("string factory","srcxx/renf_class.cpp make"),("unique root test","src/fmpq_poly_extra/check_unique_real_root.c")]),
P("C09","Fields are unique parents",
  "At any time, two live field handles refer to the same object exactly when they have the same minimal polynomial, the same generator name and the same embedded root; the precision, the tightness of the enclosures and the history of creations and destructions do not matter. Field identity, equality and hash agree with this.",
  ["histories","inputs","configurations"],"all sequences of creation, use, refinement and release of fields, including fields with very close roots",
  "Tests create two or three well separated fields; the registry lookup depends on the hash of the generator and on overlap of current enclosures, both of which vary with history.",
  [L+"srcxx/renf_class.cpp",L+"src/renf/equal.c"],[("field registry","srcxx/renf_class.cpp"),("field equality","src/renf/equal.c")]),
P("C10","Memory is safe and fully released",
  "In every history of library calls, including those whose input is rejected with an exception, no call touches freed or foreign memory and every element keeps its field alive. Once all handles and elements are gone, every byte allocated for them has been released.",
  ["histories","inputs"],"all histories of construction, copy, move, arithmetic, parsing, failure and destruction",
  "The test programs are not run under leak checking, and error paths are each reached at most once.",
  [L+"srcxx/*.cpp",L+"src/**/*.c"],[("reference counting","srcxx/renf_class.cpp intrusive_ptr_*"),("element storage","srcxx/renf_elem_class.cpp"),("temporaries in C functions","src/**/*.c")]),
P("C11","Field handles are safe under concurrency",
  "Threads may concurrently create the same or different fields, copy and destroy handles and elements of shared fields, create default elements, and compute with elements of their own in a field that was made immutable. Under every interleaving there is no data race, deadlock, double free or use after free, all concurrent creators of one live field get the same object, and a field is destroyed exactly once and only after its last handle is gone.",
  ["schedules"],"all interleavings of two and three threads creating, copying and releasing",
  "No test is multi-threaded, and a stress test would sample only a few of the interleavings around the last release.",
  [L+"srcxx/renf_class.cpp"],[("intrusive reference count","srcxx/renf_class.cpp intrusive_ptr_add_ref/release"),("registry mutex","srcxx/renf_class.cpp make"),("static rational field","srcxx/renf_class.cpp make()")]),
P("C12","An immutable field is never modified",
  "Marking a field immutable or mutable returns the previous state. While a field is immutable no operation changes its stored enclosure or precision: operations either complete correctly without refining the field or, with assertions enabled, stop the program. Operations that refine a mutable field leave it mutable.",
  ["histories","inputs"],"all sequences of operations interleaved with immutability switches",
  "No test uses the flag together with operations that require refinement.",
  [L+"src/renf/refine_embedding.c",L+"src/renf/set_immutable.c"],[("immutability flag","src/renf/set_immutable.c, refine_embedding.c")]),
P("C13","Real roots are isolated, counted and bounded correctly",
  "For every squarefree integer polynomial, isolation returns exactly its real roots, each once, as exact dyadic roots and pairwise disjoint open intervals containing exactly one root each. The root counts (on the line and between 0 and 1) are exact, the root-existence test is exact, and every published upper bound really bounds the number or the size of the roots.",
  ["inputs"],"all squarefree integer polynomials, and all polynomials for the bounds",
  "Tests use random polynomials, in which roots at interval ends (0, 1, powers of two, dyadic points) and clusters of roots are rare.",
  [L+"src/fmpz_poly_extra/*.c"],[("VCA isolation","isolate_real_roots.c"),("counting","num_real_roots_0_1*.c, num_real_roots_vca.c, has_real_root.c"),("bounds","positive_root_upper_bound_2exp.c, descartes_bound*.c")]),
P("C14","Polynomial strings parse to the right polynomial or fail",
  "Parsing a polynomial string yields exactly the polynomial it denotes, whatever the destination held before, and strings that do not denote a polynomial in the given variable are reported as errors without undefined behaviour. Printing a polynomial and parsing the text gives the polynomial back.",
  ["inputs","histories"],"all short strings over the grammar's alphabet, all polynomials, all prior destination contents",
  "Tests parse printed random polynomials into fresh destinations; malformed and unusual strings are sampled by hand.",
  [L+"src/fmpq_poly_extra/set_str_pretty.c",L+"src/fmpz_poly_extra/set_str_pretty.c"],[("rational parser","src/fmpq_poly_extra/set_str_pretty.c"),("integer parser","src/fmpz_poly_extra/set_str_pretty.c")]),
P("C15","Element and field text round-trips",
  "The textual form of an element, with or without its numeric approximation, read back in the same field (the algebraic text, also when followed by its approximation, from a string; any of the default forms from a stream to which the field is attached) gives exactly the same element, and the printed approximation is the exact value to the digits shown. The construction data reported by a field rebuilds the very same field.",
  ["inputs","histories"],"all elements of all fields and all output flags",
  "Stream and string tests are not among the tests that run, and round trips of zero, negative, fractional, single-term or huge elements in each representation are never enumerated.",
  [L+"srcxx/renf_elem_class.cpp",L+"srcxx/renf_class.cpp",L+"src/renf_elem/get_str_pretty.c"],[("element text","get_str_pretty.c, to_string, operator<<, operator>>"),("field text","construction(), to_string()")]),
P("C16","Serialization preserves fields, elements and sharing",
  "Any collection of fields and elements written to an archive and read back yields equal elements in the identical fields, with the sharing of fields among them preserved. This holds for every archive format supported, whether or not the original fields are still alive when reading.",
  ["inputs","histories"],"all short sequences of archived objects over several fields and formats",
  "The serialization test is not run in the stable suite and archives only a few objects.",
  [L+"e-antic/cereal.hpp",L+"srcxx/renf_class.cpp"],[("cereal save/load","e-antic/cereal.hpp"),("construction data","srcxx/renf_class.cpp construction")]),
P("C17","Hashes agree with equality",
  "Elements that compare equal have equal hashes, also when they live in different fields or were computed in different ways, and the hash of an element never changes while its value does not, whatever is computed or refined in between. Equal fields have equal hashes.",
  ["histories","inputs"],"all pairs of equal elements, all histories between two hash computations",
  "The hash test is not run in the stable suite and compares only a few constants.",
  [L+"srcxx/renf_elem_class.cpp",L+"src/renf_elem/get_d.c"],[("std::hash specialisations","srcxx/renf_elem_class.cpp, renf_class.cpp")]),
P("C18","Elements of different fields combine only in the documented way",
  "Arithmetic and comparison between a rational element of one field and any element of another give the exact result, in the field of the irrational operand if there is one. Combining, comparing or converting irrational elements of two different fields raises a logic error and leaves the operands unchanged; it never yields a value. With the documented strict mode switched on (environment variable LIBEANTIC_STRICT_BINOP), arithmetic between different fields neither of which is the rational field is refused as well.",
  ["inputs","histories","configurations"],"all pairs of fields and elements, all operators including floor division and conversion",
  "Mixed-field tests cover a few pairs and are not in the stable suite.",
  [L+"srcxx/renf_elem_class.cpp"],[("coercion and mixed operators","srcxx/renf_elem_class.cpp binop, coerce, operator==, operator<, floordiv")]),
P("C19","Operators with native and GMP numbers are exact at every value",
  "All arithmetic and comparison operators, constructors and assignments between an element and any supported native integer type, big integer or big rational, with the number on either side, behave exactly as if the number were an element. This includes the extreme values of every type, zero, and values beyond a machine word.",
  ["inputs"],"all operators, all supported types, all boundary values of each type, both operand orders",
  "The C++ operator tests are not in the stable suite and draw a few random values.",
  [L+"srcxx/renf_elem_class.cpp",L+"e-antic/renf_elem_class.hpp"],[("operator overloads","srcxx/renf_elem_class.cpp"),("machine integer primitives","src/renf_elem/*_{si,ui}.c")]),
P("C20","Accessors, predicates and conversions report the exact element",
  "Numerator, denominator, numerator vector, content and the conversions to big integers and rationals report exactly the canonical coefficients of the element. The predicates zero, one, integer and rational and the truth value are true exactly when the element is that, and degree, generator, zero and one of a field are what they claim.",
  ["inputs","configurations"],"all elements in all representations",
  "The accessor tests are not in the stable suite and cover a few fixed elements.",
  [L+"srcxx/renf_elem_class.cpp",L+"src/renf_elem/is_*.c"],[("accessors","srcxx/renf_elem_class.cpp"),("predicates","src/renf_elem/is_*.c")]),
P("C21","Elements have value semantics",
  "Copies are independent of their originals, assignment makes the target equal to the source with the source's field, moving transfers the value and leaves an object that can be assigned to or destroyed, and swapping exchanges two elements. This holds for all histories of copy, move, self-assignment, swap, in-place arithmetic and destruction across fields, and no operation changes an element other than its target.",
  ["histories"],"all sequences of value operations over a few variables and fields",
  "Assignment tests are not in the stable suite and check single steps from fresh objects.",
  [L+"srcxx/renf_elem_class.cpp",L+"src/renf_elem/set.c"],[("copy, move, swap, assignment","srcxx/renf_elem_class.cpp")]),
P("C22","Refining a root is sound, makes progress and terminates",
  "Refining a field to a given precision terminates, keeps the enclosure around the same root inside the old one, and reaches the requested accuracy. Each elementary refinement step either reports failure or returns a ball that still contains the root.",
  ["inputs","histories","configurations"],"all fields and starting enclosures, all target precisions in any order",
  "Tests refine a few random fields upwards; ill-conditioned, clustered, tiny and huge roots with bad starting enclosures are not enumerated.",
  [L+"src/renf/refine_embedding.c",L+"src/fmpz_poly_extra/newton_step_arb.c",L+"src/fmpz_poly_extra/bisection_step_arb.c"],[("refinement loop","src/renf/refine_embedding.c"),("Newton and bisection steps","src/fmpz_poly_extra/")]),
P("C23","Ball evaluation of polynomials encloses all values",
  "Evaluating an integer or rational polynomial at a ball gives a ball containing the polynomial's value at every point of the input ball, at every precision and with input and output aliased. The polynomial helpers for absolute value, squarefree part, value at one and rescaling compute exactly what they describe.",
  ["inputs","configurations"],"all polynomials, balls and precisions",
  "Tests evaluate random polynomials at random balls and mostly check exact points.",
  [L+"src/fmpz_poly_extra/evaluate.c",L+"src/fmpq_poly_extra/evaluate.c"],[("evaluation","src/fmp?_poly_extra/evaluate.c"),("helpers","abs.c, squarefree_part.c, evaluate_at_one.c, scale_0_1_fmpq.c")]),
P("C24","All embeddings are enumerated in order",
  "Asking for the embeddings of an irreducible polynomial returns its number of real roots, and initializes one field per root (up to the limit given) in increasing order, each isolating its own root. The n-th root construction yields the positive real n-th root of the given rational, and copying or comparing fields respects the embedding.",
  ["inputs","configurations"],"all irreducible polynomials, limits and precisions",
  "Tests check counts for random polynomials only; order, limits and large or tiny roots are not covered.",
  [L+"src/renf/set_embeddings_fmpz_poly.c",L+"src/renf/init_nth_root.c",L+"src/renf/init_set.c"],[("embedding enumeration","src/renf/set_embeddings_fmpz_poly.c"),("n-th root","src/renf/init_nth_root.c")]),
P("C25","The Python interface agrees with exact arithmetic",
  "From Python, constructing fields and elements from integers of any size, fractions, strings, coefficient lists and algebraic numbers, and adding, subtracting, multiplying, dividing (not by zero), raising to powers, comparing and hashing them, also with Python integers and fractions, gives the exact results; combining or comparing irrational elements of different fields is refused. Handles obtained from Python stay valid whatever else is released. Pickling and unpickling fields and elements gives back equal elements in the identical field.",
  ["inputs","histories"],"all small elements, all operators with mixed Python operand types, all picklable objects",
  "Python tests are a few doctest-like examples per function.",
  ["pyeantic/src/pyeantic/*.py"],[("pythonization","pyeantic/src/pyeantic/cppyy_eantic.py"),("algebraic number conversion","pyeantic/src/pyeantic/real_embedded_number_field.py and realalg_conversion.py")]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
print(len(props))

# Table of checks: which harness programs decide a property, with which build flavour, and the bounds they cover.
AUTO = "-ftrivial-auto-var-init=pattern"  # reads of uninitialized variables give a fixed absurd value instead of whatever is there
SAN = ["-g1", "-O1", AUTO, "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
PLAIN = ["-g1", "-O1", AUTO]
FLAVOURS = {
    "plain": dict(cc="gcc", cxx="g++", cflags=PLAIN, cxxflags=PLAIN),
    "mc": dict(cc="gcc", cxx="g++", cflags=PLAIN + ["-fsanitize=thread"], cxxflags=PLAIN + ["-fsanitize=thread"], hflags=PLAIN + ["-rdynamic"], statics=True),
    "pic": dict(cc="gcc", cxx="g++", cflags=PLAIN + ["-fPIC"], cxxflags=PLAIN + ["-fPIC"]),
    "asan": dict(cc="gcc", cxx="g++", cflags=SAN, cxxflags=SAN),
}
def py25(m, env):
    """shared libraries of the working tree for cppyy, and the command that runs the Python harness on /repo's pyeantic"""
    import os
    lib = m.build_lib("pic"); so = lib + "/so"
    if not os.path.exists(so + "/ok"):
        os.makedirs(so, exist_ok=True)
        for n in ("libeantic", "libeanticxx"):
            r = m.sh(["g++", "-shared", "-o", "%s/%s.so.tmp%d" % (so, n, os.getpid())] + (["-Wl,--whole-archive", lib + "/libe.a", "-Wl,--no-whole-archive", "-lflint", "-lmpfr", "-lgmpxx", "-lgmp"] if n == "libeantic" else ["-Wl,--no-as-needed", "-L" + so, "-leantic", "-Wl,-rpath," + so, "-lgmpxx", "-lgmp"]))
            if r.returncode: raise m.BuildError(r.stdout[-4000:])
            os.rename("%s/%s.so.tmp%d" % (so, n, os.getpid()), "%s/%s.so" % (so, n))
        open(so + "/ok", "w").close()
    env["PATH"] = "/opt/vp/venv/bin:" + env.get("PATH", ""); env["PYTHONDONTWRITEBYTECODE"] = "1"; env["MALLOC_PERTURB_"] = "165"; env["PYTHONHASHSEED"] = "0"
    env["EXTRA_CLING_ARGS"] = "-Wno-macro-redefined -I%s -I%s" % (m.LIB, lib + "/e-antic"); env["LD_LIBRARY_PATH"] = so; env["PYTHONPATH"] = m.REPO + "/pyeantic/src"
    return ["/opt/vp/venv/bin/python3", os.path.join(m.HERE, "harness", "c25.py")]
def part(src, flavour="plain", **kw): return dict(src=src, flavour=flavour, **kw)
CHECKS = {
    "C01": dict(quick="thorough", thorough="deep", parts=[part("c01.cpp")], bounds="catalogue of number fields of degree 1..5 (quick) / 1..8 (thorough); all pairs from an operand alphabet of small, word-boundary and multi-word coefficients; all entry points; all aliasing patterns; fresh and used destinations"),
    "C02": dict(technique="exhaustive exploration of all operation histories up to a depth on the real code, against an exact reference model", parts=[part("c01.cpp", name="single step, all operands", env={"MC_ENC": "1"}), part("c02.cpp", name="histories")], bounds="all single operations on the C01 alphabet at 2 (quick) / 4 precisions; all histories of length 3 (thorough: up to 4) over 30 operations on two registers, per field, precision and starting enclosure"),
    "C03": dict(quick="thorough", thorough="deep", parts=[part("c03.cpp")], bounds="all pairs of the operand alphabet and all pairs at distance 2^-30..2^-700 in each catalogue field (ill-conditioned ones included); all rational comparands incl. dyadic neighbours; 3 (quick) / 5 enclosure states per operand; fresh and shared (history-laden) fields; 2/4 precisions"),
    "C04": dict(parts=[part("c04.cpp")], bounds="all alphabet elements, integers and integers plus/minus tiny elements; all pairs, exact multiples and near multiples; 3/5 enclosure states; fresh and shared fields; 2/4 precisions; C++ floordiv incl. mixed fields"),
    "C05": dict(quick="thorough", thorough="deep", parts=[part("c05.cpp")], bounds="per catalogue field: the operand alphabet, irrationals scaled by 2^-1200..2^1100, and for 27 base doubles (subnormals, extremes, word limits) the double, the midpoint to its successor, quarter points, and these plus/minus tiny irrational elements; 5 rounding modes; 2/5 enclosure states; fresh and shared fields; 2/4 precisions"),
    "C06": dict(quick="thorough", thorough="deep", parts=[part("c06.cpp")], bounds="operand alphabet plus cancellation-heavy elements in every catalogue field; 6 (quick) / 40 sequences of requested precisions between 2 and 700 bits; 3/5 enclosure states; fresh and shared fields; 2/3 field precisions"),
    "C07": dict(parts=[part("c07.cpp")], bounds="operand alphabet, rationals with short and long expansions, near-rational elements, in every catalogue field; 0..12 (thorough 0..40) terms; remainder aliased or not; 2/4 enclosure states; fresh and shared fields; 2/3 precisions"),
    "C08": dict(quick="thorough", thorough="deep", parts=[part("c08.cpp")], bounds="uniqueness decision: all irreducible polynomials with a real root of degree <=4 with small coefficients (thorough: degree <=5) and 17+ hard ones (Mignotte-like, multiword) on all dyadic intervals between 33 grid points and points 2^-30, 2^-70 from each root at 3 precisions; construction from strings: every root approximated to 0..45 digits, offset by 0,1,-3 units, 8 radii (none to 100), 3 (thorough 8) precisions; 60 malformed inputs at 3 precisions; root pairs at distance 2^-32..2^-600 approximated to up to 1000 digits at precisions 2..2000, and with just as many digits as needed at a sweep of starting precisions around their number of bits"),
    "C22": dict(quick="thorough", thorough="deep", parts=[part("c22.cpp")], bounds="all irreducible polynomials with a real root, degree <=4, small coefficients, and hard ones; every isolating dyadic start interval between 25+16 grid points (thorough 49+16), including intervals centred at zero, up to width 2^111 and touching the root to 2^-120; 3 (thorough 6) precision schedules; Newton and bisection steps iterated at 5 precisions"),
    "C24": dict(quick="thorough", thorough="deep", parts=[part("c24.cpp")], bounds="all irreducible polynomials of degree 2..5 (thorough 2..6) with small coefficients and hard ones (close roots, multiword coefficients, huge and tiny roots); limits 0,1,n,n+1 (thorough all); 2/5 precisions; renf_equal on all pairs of fields over starting balls; n-th roots n=2..9 of rationals and n=10..64 of six radicands; close root pairs down to 2^-600, 2cos(2 pi/(2n+1)) up to degree 15"),
    "C13": dict(quick="thorough", thorough="deep", parts=[part("c13.cpp")], bounds="all squarefree integer polynomials of degree <=6 with small coefficients (|c|<=6,4,2,1,1 for degree 2..6; thorough |c|<=12,6,4,2,2,1 up to degree 7), both signs; all products of up to 3 (4) of 16 rational linear factors with 9 cofactors; Mignotte, Chebyshev, Wilkinson families scaled by 6 factors, reversed and reflected; root clusters at distance 2^-61..2^-500 and roots of sizes 2^-500..2^500 in one polynomial; sparse polynomials up to degree 100; every function of the isolation module on each"),
    "C14": dict(parts=[part("c14.cpp", "asan")], bounds="all strings of length <=6 (thorough 7) over an 11-letter alphabet, all token strings of length <=5 (6) over two further alphabets (multi-character variables, long numbers, parentheses, non-ASCII), all printed forms and spacing variants of polynomials with coefficients from an 8-value alphabet, invalid variable names; high exponents, very long numbers and names, hundreds of monomials; with address and undefined-behaviour sanitizers"),
    "C23": dict(quick="thorough", thorough="deep", parts=[part("c23.cpp")], bounds="all polynomials of degree <=3 (thorough 4) with coefficients |c|<=2 / <=1 plus rational and multiword ones, on 11 centres x 7 radii x 4 (6) precisions, containment checked at 9 points of each ball, aliased and not; helpers on all integer polynomials of degree <=4 (5) and all products of 4 out of 8 factors, 7 intervals for rescaling; polynomials of degree up to 200, high multiplicities"),
    "C19": dict(quick="thorough", thorough="deep", parts=[part("c19.cpp", "asan")], bounds="all 8 native integer types plus mpz_class, mpq_class, fmpz_t, fmpq_t: every arithmetic, compound, relational operator with the number on either side, constructors, assignments (also to moved-from elements), coefficient vectors and powers, for the boundary values of each type (quick: min, max, powers of two at 8,15,16,31,32,61..63 bits and neighbours; thorough: all powers of two) against alphabet elements, the number itself, its neighbours and elements at distance 2^-30..2^-260 from it, in 4 (16) fields; with address and undefined-behaviour sanitizers"),
    "C17": dict(quick="thorough", thorough="deep", parts=[part("c17.cpp")], bounds="values on and next to every kind of rounding boundary of double (11 base doubles incl. subnormal and extreme ones, midpoints, plus/minus irrational tinies down to 2^-700) and the operand alphabet, in all catalogue fields at 3 precisions; hash compared over 5 enclosure states, 8 computation routes, refinements in between, all native and GMP types; every rational in all fields; field hashes under all precision / enclosure / refinement combinations"),
    "C18": dict(parts=[part("c18.cpp", "asan", name="default"), part("c18.cpp", "asan", name="strict", env={"LIBEANTIC_STRICT_BINOP": "1"})], bounds="all pairs of ~30 elements (rational, irrational, near-rational, multi-word; 4 enclosure states) over all ordered pairs of 11 (thorough 17) fields, incl. conjugate embeddings, same polynomial with other generator names, scaled polynomials and several degree-one fields; every arithmetic, compound, relational operator, floor division and conversion; in default mode and in the documented strict mode; with address and undefined-behaviour sanitizers"),
    "C20": dict(quick="thorough", thorough="deep", parts=[part("c20.cpp", "asan")], bounds="operand alphabet, tinies and wide rationals in every catalogue field (degree 1..34), each obtained through up to 60 computation routes (in place arithmetic over 5 old contents, every setter, copies, enclosure states); all accessors, predicates and conversions, C and C++; with address and undefined-behaviour sanitizers"),
    "C21": dict(technique="exhaustive exploration of all operation histories up to a depth on the real code, against an exact state model", parts=[part("c21.cpp", "asan")], bounds="all histories of length 3 (thorough 4) over ~75 (thorough ~100) value operations on three variables from 3 (4) starting configurations in 5 fields, with the field handles alive and with the elements as the only owners; every variable compared with the model after every step; with address and undefined-behaviour sanitizers"),
    "C09": dict(technique="exhaustive exploration of all operation histories up to a depth on the real code, against an exact state model", parts=[part("c09.cpp")], bounds="all histories of length 4 (thorough 5) of creations from 7 and from 5 field descriptions (clustered roots, scaled polynomials, other names including long ones that differ in one letter, other precisions and enclosures, three ways of construction), drops, copies, refinements and uses over three handles and an element, with slot symmetry reduction; all ordered pairs of ~130 (thorough ~1000) descriptions with nothing, a refinement or a computation in between; hundreds of fields alive at once in 4 creation orders and 4 strides, refined or not, each then looked up again"),
    "C15": dict(quick="thorough", thorough="deep", parts=[part("c15.cpp", "asan")], bounds="operand alphabet, tinies, powers of two up to 2^+-1100 in every catalogue field: all five text forms, streams with 4 separators and leading blanks, strings, printing; construction data of every embedding of the catalogue and of close root pairs next to dyadic points (distance 2^-3..2^-130) at 6 precisions x 7 enclosures x 4 refinement states; close root pairs (distance 2^-1..2^-300) with the enclosures of root isolation and with enclosures that end right next to the neighbouring root; with address and undefined-behaviour sanitizers"),
    "C16": dict(parts=[part("c16.cpp", "asan"), part("c16.cpp", name="temporaries", env={"C16_TEMPORARY": "1"})], bounds="all sequences of length <=2 and a fixed third (thorough: all) of the sequences of length 3 of fields and elements out of 7 (11) fields, and every alphabet element of every catalogue field, in JSON, XML, binary and portable binary archives, as single objects and vectors, with originals alive, destroyed, with every object dropped before the next is read, and with every object destroyed before the next is created while writing (also without sanitizers, so that memory is reused); archives of up to 300 objects in ~80 fields; fields of close root pairs with the enclosures root isolation finds; the documented legacy format; with address and undefined-behaviour sanitizers"),
    "C10": dict(technique="exhaustive exploration of all operation histories up to a depth on the real code, against an exact state model", parts=[part("c10.cpp", "asan")], bounds="every C function on operand pairs of the catalogue in 5 enclosure states, every polynomial function on ~100 (thorough ~500) polynomials, 17 malformed strings, and all histories of length <=3 (thorough 4) over ~90 C++ operations (9 of them failing with an exception) from several starting states; bytes in use compared before and after each scope and block with FLINT's caches emptied; address and undefined-behaviour sanitizers throughout"),
    "C11": dict(technique="stateless model checking: all thread schedules up to a preemption bound on the real code under a controlled scheduler", parts=[part("c11.cpp", "mc")], bounds="41 concurrent programs of 2 and 3 threads (work on shared immutable fields, on fields of their own and on different fields with at most 1 or 2 preemptions); all schedules with at most 3 (thorough 4) preemptions for 2 threads and 2 (3) for 3 threads, with scheduling points at every atomic and lock operation and at accesses to shared memory; happens-before data race detection (writes made inside FLINT are found by comparing the library's statics and heap objects at every scheduling point), allocation tracking and liveness of field objects in every execution"),
    "C12": dict(technique="exhaustive exploration of all operation histories up to a depth on the real code, against an exact state model", parts=[part("c12.cpp")], bounds="all histories of length 3 (thorough also 4) over ~35 operations interleaved with immutability switches; every operation on every operand pair of the ordered catalogue fields while mutable, immutable and blurred; in 3 (7) fields x 1 (3) precisions x 2 enclosures x 2 (3) operand pairs; the field's bits compared after every operation; assertion failures are intercepted and checked too"),
    "C25": dict(parts=[dict(src="c25.py", name="python", python=py25)], bounds="8 fields x all operand pairs of an alphabet of ~12 elements, all pairs with 25 integers and 9 fractions (also as GMP objects) on either side, all comparison operators; all histories of length <=4 (thorough 5) over 13 operations on handles, elements, pickles and drops with freed memory overwritten; pickle protocols 2..5; realalg conversions of a fifth of (thorough: all) quadratic and cubic polynomials with |c|<=3 and 12 hard ones"),
}
NOT_APPLICABLE = {}

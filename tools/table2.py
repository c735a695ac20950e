HOOKS = dict(guard="cfg(algebraics_verif)", enable="RUSTFLAGS='--cfg algebraics_verif --cfg algebraics_verif=\"NAME\"' (check.sh does this for the properties that need it)", source_commits=["32124cebad691526dd76329efb48fffb39701597", "c1cf02edc0166e2c2c520a0109dac25ae251bb5a", "e954bbbc8ce8dc3e53a9ed72a7e005cc0f52e55f"])
PD = "src/polynomial"
prop("C10", "Polynomial ring operations compute exact coefficients in normal form",
  "Over every supported coefficient type (machine and big integers, ratios, modular integers, nested polynomials), addition, subtraction, multiplication, scalar operations, negation, powers, derivative, evaluation, norms and coefficient access of a polynomial give exactly the mathematical result, in every operand form. The result is always in normal form (no trailing zero coefficients, reduced common divisor), so equal polynomials compare and hash equal however they were computed.",
  ["inputs", "histories"], "all polynomials over all supported coefficient types whose intermediate values fit the type",
  "Tests use a few fixed polynomials over two coefficient types and rarely hit cancellation, common divisors or empty operands.",
  [PO, PD + "/add_sub.rs", PD + "/mul.rs"],
  [("coefficients kept as elements over a shared divisor, normalised after each operation", PO)],
  "runtime monitor with a schoolbook reference model", "every result is compared coefficient by coefficient with independent schoolbook arithmetic over exact rationals (reduced modulo n where the ring is modular)",
  observe=["results of + - * neg pow derivative eval norms accessors", "Eq/Hash of results"])
prop("C11", "Polynomial division, pseudo-division and exact division satisfy their identities",
  "Dividing polynomials over a field gives the unique quotient and remainder with dividend = quotient * divisor + remainder and remainder of smaller degree than the divisor; pseudo-division over a ring gives the same identity after scaling by the reported factor, a power of the divisor's leading coefficient. Exact division succeeds exactly when the divisor divides the dividend, powers modulo a polynomial equal the remainder of the power, and division by zero is refused by checked forms without a result.",
  ["inputs"], "all dividends and divisors over all supported coefficient types, including divisors of larger degree, constants, zero and non-monic ones",
  "Tests divide a handful of fixed pairs.",
  [PD + "/div_rem.rs", PO], [("long division with leading coefficient bookkeeping", PD + "/div_rem.rs")],
  "runtime monitor with a reference model and identity oracle", "quotient and remainder are recomputed by an independent long division and the identity is re-multiplied",
  observe=["/ % checked_div_rem pseudo_div_rem exact_div checked_powmod"])
prop("C12", "Greatest common divisors, contents and primitive parts are correct",
  "The greatest common divisor of two polynomials divides both and is divisible by every common divisor, whatever factors they share, and is independent of the order of the operands up to a unit; the extended form returns multipliers that reproduce it. Content, primitive part and monic form multiply back to the polynomial and are themselves in reduced form.",
  ["inputs"], "all pairs of polynomials (coprime, equal, zero, constant, sharing planted factors of any multiplicity) over fields and integers",
  "Tests use a few fixed pairs.",
  [PD + "/gcd.rs", PO, "src/traits.rs"], [("Euclid / subresultant sequences", PD + "/gcd.rs"), ("content by integer gcd", PO)],
  "runtime monitor with planted factors and an independent gcd", "the result is compared with an independent Euclidean gcd and the Bezout identity is re-multiplied",
  observe=["gcd lcm gcd_lcm extended_gcd content primitive_part monic forms"])
prop("C13", "Resultants equal the determinant that defines them",
  "The resultant of two polynomials equals the determinant of their Sylvester matrix, with its sign, over integers, ratios, modular integers and polynomials in another variable. It is zero exactly when the operands share a root or factor.",
  ["inputs"], "all pairs of polynomials, including constants, zero, degree gaps, vanishing intermediate leading coefficients and nested coefficients",
  "Tests compute a few fixed resultants; sign and degree-gap handling has many cases.",
  [PD + "/gcd.rs"], [("subresultant polynomial remainder sequence", PD + "/gcd.rs")],
  "runtime monitor with a determinant oracle", "fraction-free determinant of the Sylvester matrix and evaluation of nested resultants at sample points",
  observe=["resultant()"])
prop("C14", "Square-free decomposition is exact and square-free tests are right",
  "Splitting a polynomial into square-free parts gives pairwise coprime square-free factors whose powers multiply back, with the reported constant, to the polynomial, each irreducible factor being filed under its true multiplicity. The square-free test answers yes exactly when no non-constant factor is repeated.",
  ["inputs"], "all polynomials over the rationals or integers with any pattern of multiplicities; all polynomials over prime fields for the test",
  "Tests cover a few fixed multiplicity patterns.",
  [PO, PD + "/gcd.rs"], [("Yun's algorithm", PO)],
  "runtime monitor with planted multiplicities", "multiplicities are planted by the generator or recomputed by repeated independent gcds",
  observe=["square_free_factorization", "is_square_free"])
prop("C15", "Sturm sequences count real roots exactly",
  "For every non-zero polynomial and any two points that are not roots, the number of sign changes its Sturm sequence loses between them equals the number of distinct real roots between them. Primitive and plain forms of the sequence give the same counts.",
  ["inputs"], "all polynomials (multiple, clustered, rational, no real roots) and all intervals",
  "Tests compare a few sequences literally; every sign in the sequence must be right for every degree pattern.",
  [PO], [("negated remainder sequence", PO)],
  "runtime monitor with an independent root counter", "sign changes of the returned sequence are counted by the monitor and compared with roots isolated independently (planted roots, bisection)",
  observe=["to_sturm_sequence", "to_primitive_sturm_sequence"])
prop("C16", "Integer polynomials factor completely into irreducibles",
  "Factoring an integer polynomial returns a constant and distinct primitive irreducible polynomials with positive leading coefficients whose powers multiply back exactly to the input; no factor can be split further and none is listed twice. The answer does not depend on the random source used.",
  ["inputs"], "all integer polynomials, including non-monic, large coefficients, high multiplicities, powers of X, constants, zero and those that split modulo every prime",
  "Tests factor a few fixed polynomials; recombination and lifting bounds only matter for rare inputs.",
  [PD + "/factorization_over_integers.rs", PD + "/distinct_degree_factorization.rs", PD + "/same_degree_factorization.rs", "src/lattice.rs"],
  [("Hensel lifting and factor recombination", PD + "/factorization_over_integers.rs")],
  "runtime monitor with planted irreducible factors and certificates", "products of irreducibles known by construction; otherwise re-multiplication and modular irreducibility certificates",
  observe=["factor()", "factor_with_rng()"])
prop("C18", "Modular integers compute exactly in the ring of integers modulo n",
  "For every integer type and every positive modulus, whether fixed at compile time or chosen at run time and up to the type's limits, addition, subtraction, multiplication, negation, halving, powers, division by invertible elements and conversion give the residue in 0..n that exact integer arithmetic defines, without overflow. Division by an element with no inverse is refused by checked forms, and values of different moduli never combine silently.",
  ["inputs"], "all value types, moduli (1, primes, composites, powers of two, the type's maximum) and operands including negative ones",
  "Tests use one or two small moduli of one type; overflow and missing inverses appear only at extreme moduli.",
  ["src/mod_int.rs"], [("widening multiplication, conditional subtraction", "src/mod_int.rs"), ("extended gcd for inverses", "src/mod_int.rs")],
  "runtime monitor with big-integer reference", "every result is recomputed with unbounded integers; 8-bit moduli are covered exhaustively",
  observe=["ModularInteger operators", "pow", "checked_div / exact_div", "conversions"])
prop("C19", "Integer gcd, exact division and logarithms are exact for every integer type",
  "For every machine integer type, big integers and ratios, the greatest common divisor, least common multiple and extended gcd satisfy their defining identities, exact division succeeds exactly when the divisor divides, and floor and ceiling base-2 logarithms bracket the value. No operand within the type's range, including its extremes, gives a wrong result; undefined cases are refused by checked forms.",
  ["inputs"], "all operands of all integer types and ratios, including zero, negatives and the extremes of each type",
  "Tests sample small values of few types.",
  ["src/traits.rs", "src/util.rs"], [("GCD/ExtendedGCD implementations", "src/traits.rs"), ("ExactDiv implementations", "src/traits.rs"), ("floor/ceil log2", "src/traits.rs")],
  "runtime monitor with big-integer reference", "Bezout identity and divisibility recomputed with unbounded integers; 8-bit operands exhaustively",
  observe=["GCD", "ExtendedGCD", "ExactDiv", "FloorLog2/CeilLog2"])
prop("C20", "Primality tests, prime search and sign algebra are right for every input",
  "The 32-bit primality test answers yes exactly for primes, over the whole range of 32-bit integers; the next and previous prime functions return the nearest prime on that side or report that none exists in range. Signs multiply, negate and convert consistently with the numbers they describe.",
  ["inputs"], "all 2^32 unsigned and all signed 32-bit integers; all sign pairs and numeric values",
  "Tests check small primes; strong pseudoprimes and range ends are sparse among 2^32 inputs.",
  ["src/util.rs"], [("Miller-Rabin with fixed bases", "src/util.rs"), ("prime search", "src/util.rs"), ("Sign", "src/util.rs")],
  "runtime monitor with a sieve reference", "segmented sieve over seeded ranges plus known pseudoprimes (quick), all 2^32 values (thorough)",
  observe=["is_prime_u32", "next_prime_*", "prev_prime_*", "Sign"])
prop("C17", "Polynomials over prime fields factor completely and correctly",
  "For every square-free monic polynomial over a prime field, distinct-degree factorization puts into position d exactly the product of its irreducible factors of degree d. Same-degree factorization of a product of irreducibles of one degree returns exactly those irreducibles, each once, whatever random numbers it draws.",
  ["inputs", "schedules"], "all primes, all square-free monic polynomials, all random streams",
  "Tests factor a few fixed polynomials with one seed.",
  [PD + "/distinct_degree_factorization.rs", PD + "/same_degree_factorization.rs"], [("powers of X modulo the polynomial", PD + "/distinct_degree_factorization.rs"), ("Cantor-Zassenhaus splitting", PD + "/same_degree_factorization.rs")],
  "runtime monitor with planted irreducibles and an independent factorization", "all polynomials of small degree over small fields, planted products over larger ones; reference arithmetic on machine words",
  hook="the two factorization stages are crate-private: guarded wrappers", observe=["factors returned by each stage"])
prop("C21", "Lattice reduction returns a reduced basis of the same lattice",
  "For any linearly independent integer vectors, lattice reduction returns a basis generating exactly the same lattice that is size-reduced and satisfies the Lovasz condition for the given parameter. Orthogonalisation returns exactly the Gram-Schmidt vectors.",
  ["inputs"], "all independent integer bases of any size, skew and coefficient size, and all parameters in (1/4, 1)",
  "Tests reduce a few fixed bases.",
  ["src/lattice.rs", "src/array2d.rs"], [("LLL with incremental Gram-Schmidt data", "src/lattice.rs")],
  "runtime monitor with exact rational lattice oracle", "coordinates of each basis in the other are solved exactly, the reduction conditions recomputed from the definition",
  hook="the module is crate-private: guarded wrappers", observe=["reduced basis", "orthogonalised vectors"])
prop("C22", "Two-dimensional arrays address, slice and iterate every element exactly once",
  "Every element of a two-dimensional array or of any nested slice of it is found at the position given, in shared, mutable and owned views, and writes reach that element and no other. Iteration from either end, in any mix, with or without positions, visits every element exactly once and reports the right remaining length; bad indices and ranges are refused.",
  ["inputs", "histories"], "all sizes (including empty), slice bounds of every form and nesting, and interleavings of front and back steps",
  "Tests iterate one or two fixed shapes from the front.",
  ["src/array2d.rs"], [("stride arithmetic", "src/array2d.rs"), ("two-ended position iterators", "src/array2d.rs")],
  "runtime monitor with a nested-vector reference model", "every access, walk and write is mirrored on a plain model; all short step sequences exhaustively",
  hook="the module is crate-private: guarded wrappers", observe=["indexing, slicing, iteration, swap, display"])
prop("C23", "Quadratic real numbers compare, normalise and combine exactly",
  "A real quadratic number built from integer coefficients denotes the root it names, in one normal form per value, and its comparison with other quadratic numbers and with rationals, sign, conversions and supported arithmetic are exact. Coefficients with no real root are refused.",
  ["inputs"], "all coefficient triples, including rational roots, equal and nearly equal values and huge coefficients",
  "Tests use a handful of triples.",
  ["src/quadratic_numbers.rs"], [("comparison by squared differences", "src/quadratic_numbers.rs"), ("normalisation of coefficients", "src/quadratic_numbers.rs")],
  "runtime monitor with exact square-root oracle", "values a+b*sqrt(c) compared exactly; arithmetic of two irrationals is not implemented in the repository and not driven",
  hook="the module is crate-private: guarded wrappers", observe=["construction, comparison, neg/abs/signum/recip/add/sub, conversions"])
prop("C27", "Nearest division, subset enumeration and the prime table are exact",
  "Division to nearest returns a quotient whose remainder is as small in magnitude as possible, with dividend = quotient * divisor + remainder, for every integer type and sign (unsigned types have no negative remainders), ties going to the quotient nearer zero; division by zero is refused. Subset enumeration yields every subset of the asked size exactly once and stops when told to, and the table of 16-bit primes holds every such prime in order.",
  ["inputs"], "all operands of all integer types and sizes, all subset sizes and ranges",
  "Tests sample a few positive operands.",
  ["src/traits.rs", "src/util.rs"], [("nearest division", "src/traits.rs"), ("subset iteration", "src/util.rs"), ("prime table", "src/util.rs")],
  "runtime monitor with big-integer reference", "8-bit operands exhaustively, other types sampled at ties and extremes; subsets against a reference set; table against a sieve",
  hook="the items are crate-private: guarded wrappers", observe=["quotient and remainder", "subsets seen by the callback", "table"])
prop("C24", "Operator forms of algebraic numbers agree and leave their operands alone",
  "Every way of writing an operation on real algebraic numbers - by value or reference, in place, checked, as a trait method, with any exponent or scalar type - gives the same number, and borrowed operands keep the value they had. Shared or cloned numbers can be used in any later computation with unchanged results, whatever was computed with them before.",
  ["inputs", "histories"], "all operations, operand forms, scalar and exponent types, and histories of earlier use of the operands",
  "Tests use one form per operation; the representation of an operand is refined during use.",
  [AN], [("operator forwarding macros", AN), ("interval refinement of operands during use", AN)],
  "runtime monitor comparing recorded results across call forms and histories", "every form is run on clones and compared with an exact reference; operands are audited after use",
  observe=["every operator and trait method form"])
prop("C25", "Printed text identifies exactly the value printed",
  "The text printed for polynomials, intervals, modular integers and real algebraic numbers, in display and debug form, denotes exactly the value: every coefficient with its power, every bound, every residue with its modulus. Printing never fails or changes the value.",
  ["inputs"], "all printable values, including zero, negative, huge and nested ones",
  "Tests print a few fixed values.",
  [PO, IA, "src/mod_int.rs", AN], [("Display and Debug implementations", PO)],
  "runtime monitor parsing the printed text back", "an independent parser reads the text and compares with the value obtained through accessors",
  observe=["to_string() and {:?} output"])
prop("C26", "Checked operations refuse exactly the undefined cases and leave operands intact",
  "Checked division, remainder, exact division, power and conversion operations on polynomials, intervals, modular integers, integers and ratios return nothing exactly when the operation has no result, and otherwise what the unchecked operation returns. When an in-place operation is refused its operand keeps its value, and undefined unchecked operations stop with a panic rather than give a number.",
  ["inputs", "histories"], "all operands, including zero, non-units, non-multiples, empty and extreme ones, of all supported types",
  "Tests rarely exercise the refused cases and never look at the operand afterwards.",
  ["src/traits.rs", PD + "/div_rem.rs", "src/mod_int.rs", IA], [("checked_* methods", "src/traits.rs")],
  "runtime monitor with a definedness oracle", "definedness decided by independent arithmetic, operand compared before and after",
  observe=["checked_* and *_assign results, operands afterwards"])
prop("C28", "The Python binding gives the same numbers as the Rust library",
  "Every operation offered to Python returns the number, comparison or integer the library computes, with Python's rounding and error conventions.",
  ["inputs"], "all Python operands",
  "The Python tests cover a few values.",
  ["src/python.rs"], [("method table", "src/python.rs")],
  "none", "none", na="The binding needs a Python extension build with the pinned pyo3; the extension aborts on import under the only interpreter here (Python 3.12), so there is no execution to monitor.")
P.sort(key=lambda p: p["id"])

#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table. Run by hand after editing the table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, hook=None, observe=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, hook=hook, observe=observe, na=na))
AN = "src/algebraic_numbers.rs"
IA = "src/interval_arithmetic.rs"
PO = "src/polynomial.rs"
prop("C01", "Arithmetic on real algebraic numbers is exact",
  "The sum, difference, product, quotient, negation, reciprocal and absolute value of real algebraic numbers denote exactly the real number the operation defines, for every pair of operands, whatever their degrees, sizes, closeness or the way they were computed. No operation rounds, picks a neighbouring root of the defining polynomial, panics or fails to terminate, except division by zero, which is refused.",
  ["inputs", "histories"], "all operands (rational, irrational, conjugate, cancelling, nearly equal, isolated by any valid interval) and all chains of operations",
  "The unit tests add/multiply a handful of fixed pairs; in this sandbox's stable suite none of the number module runs at all.",
  [AN, "src/polynomial/gcd.rs", "src/polynomial/factorization_over_integers.rs", IA],
  [("root selection among factors of a resultant", AN), ("interval shrinking", AN), ("resultant", "src/polynomial/gcd.rs")],
  "runtime monitor with exact number-field oracle",
  "every result is compared by an oracle computing in Q(alpha) with its own exact polynomial arithmetic; independent values by Sturm/resultant identities",
  observe=["results of +,-,*,/,neg,recip,abs"])
prop("C02", "Comparison, equality and sign of algebraic numbers are decided exactly",
  "Comparing two real algebraic numbers, testing them for equality and asking for a sign gives the answer that holds of the exact real values, even when they differ by an arbitrarily small amount, are conjugates, or are one value computed in different ways. The order is total and consistent with equality, so sorting is deterministic.",
  ["inputs", "histories"], "all pairs and lists of algebraic numbers, in particular nearly equal ones and equal values with different histories",
  "Tests compare a few fixed well-separated pairs; correctness near coincidence depends on interval refinement depth that tests never force.",
  [AN, IA], [("interval comparison then refinement", AN), ("minimal polynomial comparison", AN)],
  "runtime monitor with exact number-field oracle", "order of every compared pair is recomputed by exact root isolation",
  observe=["Ord/PartialOrd/PartialEq/Eq", "is_positive/is_negative/is_zero/signum"])
prop("C03", "Every algebraic number is held in its unique canonical form",
  "Every real algebraic number a public operation returns reports a minimal polynomial that is primitive with integer coefficients, positive leading coefficient and irreducible over the rationals, and whose degree is 1 exactly when the number is rational. Its isolating interval contains exactly one real root of that polynomial, and that root is the number itself; constructors that take a polynomial and an interval accept exactly such pairs.",
  ["inputs", "histories"], "all results of all public constructors and operations, over all operands and chains",
  "Tests look at a few results' textual form; canonical form must survive every chain of operations.",
  [AN, "src/polynomial/factorization_over_integers.rs"], [("factor and select root", AN), ("reduction to primitive form", PO)],
  "runtime monitor auditing representation invariants", "irreducibility by modular certificates and an independent factor search, root isolation by Sturm counts",
  observe=["minimal_polynomial()", "interval accessors", "is_rational/to_rational"])
prop("C04", "Powers and roots of algebraic numbers are exact and their domain is respected",
  "Raising a real algebraic number to a rational power gives exactly the real number defined: repeated multiplication for integers, reciprocal for negative exponents, and the non-negative real root for fractions of a non-negative base (the real odd root where the library defines it for negative bases). Powers with no real value, such as an even root of a negative number or zero to a negative power, are refused by the checked form and never answered with a number.",
  ["inputs"], "all bases (rational, irrational, negative, zero, huge) and all rational exponents including negative, zero and unreduced ones",
  "Tests evaluate a few fixed roots; selection of the right root depends on all conjugates.",
  [AN], [("checked_pow / root extraction", AN), ("interval powers and roots", IA)],
  "runtime monitor with exact oracle", "power identities are checked exactly with the reference field; domain by case analysis of sign and reduced exponent",
  observe=["Pow", "checked_pow"])
prop("C05", "Rounding, remainder, conversion and logarithm of algebraic numbers are exact",
  "Floor, ceiling, truncation, fractional part, remainder, conversion to integers or rationals and integer logarithms of a real algebraic number are exact, also when the value is extremely close to an integer or a power of two. A conversion to a fixed-size integer succeeds exactly when the truncated value fits, and numbers built from integers or ratios convert back to the same value.",
  ["inputs"], "all algebraic numbers, in particular integers, values within tiny distances of integers or powers of two, negative values, and all primitive integer widths",
  "Tests round a few fixed numbers; the failure cases sit arbitrarily near integers.",
  [AN, "src/traits.rs"], [("interval shrinking until the integer part is decided", AN)],
  "runtime monitor with exact oracle", "oracle: exact isolation of the root, reference floor and log2",
  observe=["to_integer_*", "floor/ceil/trunc/fract", "Rem", "To/FromPrimitive", "checked_floor_log2/ceil_log2"])
prop("C06", "Interval operations enclose every exact result",
  "For dyadic-fraction intervals, the result of addition, subtraction, multiplication, division, powers, roots, square, negation, absolute value, reciprocal, conversion and precision change contains every value the exact operation takes on points of the operand intervals, at every precision. Lower bounds never exceed upper bounds, and operations undefined on some point (division by an interval holding zero, even roots of negatives) are refused.",
  ["inputs", "histories"], "all intervals (points, zero-spanning, negative, huge, different precisions), scalars and exponents, and chains of operations",
  "Tests use a few fixed intervals; soundness is a claim about every point of every interval.",
  [IA], [("directed rounding of bounds", IA)],
  "runtime monitor with exact rational range oracle", "exact ranges are computed with rationals; roots compared by exact powers",
  observe=["DyadicFractionInterval operators"])
prop("C07", "Interval results are as tight as their precision allows",
  "For elementary interval arithmetic each bound of the result is the exact extreme value rounded outwards to a grid of the result's precision, that is, no more than one unit in the last place away from it; results representable exactly are returned exactly. Accessors, set operations, containment tests, constructors and precision changes report what the exact bounds say.",
  ["inputs"], "all intervals, scalars and precisions",
  "A wrong rounding direction or a lost unit is visible only on inputs where the exact value falls off the grid.",
  [IA], [("rounding of numerators when changing denominators", IA)],
  "runtime monitor with exact rational oracle", "bounds are compared with exactly rounded references (one extra ulp allowed where the code rounds twice)",
  observe=["bounds of results", "accessors"])
prop("C08", "Logarithm, exponential, mean and constant enclosures contain the true values",
  "The natural logarithm, exponential, arithmetic-geometric mean and the mathematical constants given as intervals contain the true real values (for interval arguments: the values at every point) at every requested precision. The enclosure of a point argument is narrow, a few units in the last place, and arguments outside the domain are refused.",
  ["inputs"], "all arguments and precisions, including arguments whose logarithm or exponential lies next to the precision grid",
  "Tests compare a few digits at one precision.",
  [IA], [("AGM-based log, exp by power series or Newton", IA), ("precomputed constants", IA)],
  "runtime monitor with independent rational enclosures", "reference enclosures by Taylor/Machin series with rigorous rational error bounds at higher precision",
  observe=["log/exp/arithmetic_geometric_mean/constants"])
prop("C09", "Shared cached constants stay sound under every history and schedule",
  "However many threads ask for mathematical constants and logarithms, in whatever order and at whatever mix of precisions, from a cold or warm cache, every answer encloses the true value and is as narrow as the precision asked for, and no request deadlocks, panics or is answered with the precision of another request.",
  ["schedules", "histories"], "all request orders, precision sequences and thread interleavings from a cold process",
  "Unit tests share one process, run in one order, and never look at the cache's history.",
  [IA], [("mutex/once protected cache with precision upgrade", IA)],
  "offline history checker over recorded multi-thread request logs", "cold processes with randomised thread programmes and barriers; each logged answer is checked against independent enclosures",
  observe=["log of (thread, request, answer)"])
exec(open(os.path.join(ROOT, "tools", "table2.py")).read())
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                  observe_at=p["observe"] or [], hook_needed=p["hook"]))
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh",
             hooks=HOOKS,
             checks=[dict(property=p["id"], quick_cmd="bash check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash check.sh " + p["id"],
                          technique=p["technique"], level="exploration", level_note=p["note"]) for p in P if not p["na"]],
             not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()

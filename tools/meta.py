#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (the single place their text is kept)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SYM = "symbolic execution of the compiled crate (BigInt stand-in, re-execution over all paths), SMT (z3)"
KANI = "bounded model checking of the compiled crate's MIR (Kani/CBMC, SAT)"

KNOTE = ("Every value within the bounds listed per harness in the evidence (coverage.bounds) is decided by CBMC's SAT solver on the MIR of the real code, unwinding "
         "assertions included; nothing outside the bounds. Trusts Kani/CBMC and, for coefficients, the 64-bit stand-in for num-bigint (an overflow in it is reported).")
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=SYM, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


IN = ["inputs"]
BI, PO, TE, EC = "src/bigint.rs", "src/polynomial.rs", "src/term.rs", "src/elliptic_curve.rs"

prop("C01", "Integer power is the n-fold product",
     "Raising any integer to a nonnegative exponent yields the product of that many copies of it, whichever form the exponent is given in. "
     "The exponent laws follow: x^m x^n = x^(m+n), (x^m)^n = x^(mn), (xy)^m = x^m y^m.",
     IN, "every integer base (unbounded) and every nonnegative exponent",
     "The tests take a handful of base/exponent pairs; the square-and-multiply loop has to be right for every bit pattern of the exponent and every base.",
     [BI], [("Power for BigInt", BI)])
prop("C02", "Modular power is reduced and right; inverse inverts",
     "The modular power of any integer is the power's residue in [0, p), exponent 0 and modulus 1 included. "
     "For prime p and any integer not divisible by p the modular inverse is the residue in [0, p) whose product with it is 1.",
     IN, "every integer base (negative and unreduced ones too), exponents >= 0, moduli >= 1 (inverse: primes >= 2)",
     "Tests sample a few reduced bases; bases outside [0, p), exponent 0 and each prime are separate cases.",
     [BI], [("PowerModulo, Inverse", BI)])
prop("C03", "Extended gcd returns a Bezout identity for a common divisor",
     "For any two integers the extended gcd returns (g, x, y) with a x + b y = g, and g divides both; g is 0 only when both are 0.",
     IN, "all pairs of integers, signs and zeros included",
     "Tests check three pairs; signs, zeros and every quotient sequence differ.",
     [BI], [("extended_gcd", BI)])
prop("C04", "Chinese remainder result is congruent to every residue",
     "For any list of residues to pairwise coprime positive moduli the combined result has the product of the moduli as its modulus and is congruent to every listed residue modulo its modulus. The empty list gives modulus 1.",
     IN, "every list of pairwise coprime positive moduli with any integer residues",
     "One example list is tested; the residues are unbounded integers and the moduli arbitrary.",
     [BI], [("chinese_remainder", BI)])
prop("C05", "Polynomial arithmetic is the ring arithmetic over the integers",
     "Sum, difference, negation and product of polynomials and terms, in every operator form (by value, by reference, assigning, mixed), are the coefficientwise sum and the Cauchy product over the integers in x, y, q and one subscripted variable. "
     "Dividing a product by the single term it was multiplied with gives the other factor back.",
     IN, "all coefficients (any integers, cancelling ones included) and monomial shapes",
     "Tests compare printed results for a few fixed operands; cancellation, coinciding monomials and each operator form depend on the coefficients.",
     [PO, TE], [("impl_op_ex operators", PO), ("term operators", TE)])
prop("C06", "Polynomials stay canonical: equality decides equality",
     "No operation leaves a term with coefficient zero in a polynomial, so a polynomial is zero exactly when it has no terms and two polynomials compare equal exactly when they are the same function. "
     "Adding a polynomial's negation, or subtracting it from itself, gives the zero polynomial.",
     IN, "every operation and every choice of coefficients, in particular cancelling ones",
     "Only coefficients that happen to cancel expose a stale zero term, and printing hides it.",
     [PO, TE], [("operators, modular_assign, derivatives, substitution", PO), ("to_pol", TE)])
prop("C07", "Orders on monomials, variables and terms are total and match equality",
     "Comparison of subscripted variables, monomials and terms is a total order: reflexive, antisymmetric, transitive, and Equal exactly for equal values. Monomials compare by the power of x first, then y, then q, then the variable.",
     IN, "all exponents and subscripts in the machine range, all coefficients",
     "Ordered maps silently lose or duplicate terms if the order is wrong for any triple; tests only see the sorted output of a few.",
     [TE, "src/subscripted_variable.rs"], [("Ord for Monomial/Term", TE), ("Ord for SubscriptedVariable", "src/subscripted_variable.rs")], technique=KANI)
prop("C08", "Polynomial powers are repeated multiplication",
     "Raising a polynomial or a term to a nonnegative exponent, in each exponent form, squared and cubed included, is repeated multiplication; the modular power is that polynomial with coefficients reduced into [0, p); the truncating power is that polynomial without powers of q beyond the order, for polynomials in nonnegative powers of q.",
     IN, "all coefficients; all exponents >= 0; all moduli; all truncation orders",
     "Tests take exponents up to 3 of concrete polynomials.",
     [PO, TE], [("Power, power_modulo, power_omit_high_order_q", PO), ("Power for Term", TE)])
prop("C09", "Reducing coefficients modulo p gives canonical residues",
     "Reducing a polynomial or a term modulo p leaves every coefficient in [0, p), congruent to the original one, and drops exactly the terms whose coefficient is divisible by p; monomials are unchanged.",
     IN, "all coefficients (any sign and size) and all moduli >= 1",
     "Negative coefficients, multiples of p and each monomial position are separate cases.",
     [PO, TE], [("Rem, modular_assign", PO), ("modulo, modular_assign", TE)])
prop("C10", "Polynomial remainder modulo p is the remainder",
     "The remainder of a polynomial by a divisor in x, modulo a prime p, has coefficients in [0, p), has degree in x below the divisor's, and differs from the dividend by a multiple of the divisor modulo p. It terminates for every nonzero divisor, constant and unreduced ones included.",
     IN, "all coefficients modulo each small prime, all degrees within the bounds, dividends with powers of y",
     "Termination and the leading-coefficient inverse depend on which coefficients vanish modulo p.",
     [PO], [("polynomial_modular", PO)])
prop("C11", "Polynomial gcd modulo p is the monic greatest common divisor",
     "The gcd of two polynomials in x modulo a prime is monic, divides both, and is divided by every common divisor; the gcd with zero is the other operand made monic. The gcd-is-one test holds exactly when they share no root in any extension.",
     IN, "all coefficients modulo each small prime, all degrees within the bounds",
     "The remainder sequence takes a different course for every pattern of vanishing leading coefficients.",
     [PO], [("gcd, is_gcd_one, to_monic", PO)])
prop("C12", "Reduction by the curve equation keeps the function on the curve",
     "Reducing a polynomial by y^2 = x^3 + a x + b leaves no power of y above the first and the same value at every point of the curve; the modular form does so modulo p with coefficients in [0, p).",
     IN, "all polynomials within the degree bounds, all integers a, b, all primes p",
     "The tests reduce a few fixed polynomials on one curve.",
     [PO], [("reduction, reduction_modular", PO)])
prop("C13", "Evaluation, substitution and coefficient extraction agree with the polynomial",
     "Evaluating at numbers, substituting a number or a polynomial for x or y, and extracting the coefficient of a power of q or of a subscripted variable agree with the polynomial as a function; truncation drops exactly the powers of q above the order. Degree and has-variable queries say what occurs.",
     IN, "all coefficients, all integer arguments, all substituted polynomials within the bounds",
     "Coinciding monomials after substitution and cancelling sums depend on the values.",
     [PO, TE], [("eval_*, to_*_coef, omit_high_order_q, degree_x, has_*", PO), ("Monomial::eval_*", TE)])
prop("C14", "Derivatives follow the derivative rules",
     "Derivatives in x and y are linear, obey the product rule and send x^n to n x^(n-1); terms without the variable vanish.",
     IN, "all coefficients and exponents >= 0",
     "Tests differentiate a few concrete polynomials.",
     [PO, TE], [("derivative_x, derivative_y", PO), ("Term::derivative_*", TE)])
prop("C15", "Exponent maps substitute powers for variables",
     "The Frobenius map replaces x by x^n and y by y^n, the y and q power maps y by y^n and q by q^n, and nothing else; each is the substitution, so values at numbers agree and terms that come to coincide are added.",
     IN, "all coefficients, exponents and n (zero included)",
     "Coinciding images only occur for special exponents, which the tests do not use.",
     [PO, TE], [("to_frob, to_y_power, to_q_power", PO)])
prop("C16", "Division polynomials satisfy their defining identities",
     "The division polynomials of any curve satisfy the elliptic divisibility recurrences, and psi, phi, omega satisfy the curve equation omega^2 = phi^3 + a phi psi^4 + b psi^6 modulo the curve. "
     "On every point P of a curve modulo p they give the coordinates of n P, and psi vanishes exactly when n P is the identity.",
     IN, "all integers a, b (symbolic), all indices within the bounds, all points of all curves modulo small primes",
     "Tests print psi, phi, omega for the single curve a = b = 1.",
     ["src/division_polynomial.rs"], [("psi, phi, omega", "src/division_polynomial.rs")])
prop("C17", "Point addition is an abelian group law on the curve",
     "On any nonsingular curve over F_p, p > 3, the sum of two points lies on the curve with reduced coordinates (z = 1 unless it is the identity), addition is commutative and associative, the identity is neutral, and a point and its negation sum to the identity. Points given with unreduced coordinates are the points they reduce to, and a point not on the curve is refused.",
     IN, "all a, b, all primes within the bounds, all points (pairs, triples), reduced or not",
     "Equal, opposite, 2-torsion and identity operands take different branches for each curve; the tests use one or two curves.",
     [EC], [("plus, negate, is_on_curve, canonicalize", EC)])
prop("C18", "Scalar multiplication is repeated addition",
     "For every integer n, negative and zero included, n P is the n-fold sum of P; so (m+n) P = m P + n P and m (n P) = (mn) P.",
     IN, "all points of all curves within the bounds, all scalars within the bounds",
     "The double-and-add loop depends on every bit of n and on identities met underway.",
     [EC], [("multiply_scalar", EC)])
prop("C19", "Point enumeration and point order are exact",
     "The points listed for a curve are exactly the affine solutions (x, y, 1), each once, and the identity; the cardinality is their number. The order of a point is the least positive n with n P the identity and divides the cardinality.",
     IN, "all curves over F_p within the bounds (symbolic a, b)",
     "Tests count points of a few curves.",
     [EC], [("create_points, points, cardinality, point_order", EC)])
prop("C20", "Torsion points and isogenies are exact",
     "The n-division points of a curve are exactly its points P with n P the identity. The isogeny with that kernel leads to a nonsingular curve over the same field with the same number of points.",
     IN, "all curves over F_p within the bounds, all kernel orders within the bounds",
     "Tests print one isogeny each for a few orders.",
     [EC], [("division_points, isogeny", EC)])
prop("C21", "The j-invariant is the isomorphism invariant, reduced",
     "The j-invariant of a nonsingular curve lies in [0, p) and equals 1728 * 4a^3 / (4a^3 + 27b^2) modulo p; isomorphic curves (a u^4, b u^6), quadratic twists included, have the same one, and over F_p curves with equal j-invariants are twists of each other.",
     IN, "all a, b, u modulo each prime within the bounds and modulo large primes",
     "Tests evaluate it at a few curves.",
     [EC], [("EllipticCurve::j_invariant", EC)])
prop("C22", "Printed polynomials read back as the same polynomial",
     "The printed form of a polynomial or term determines it: read with the usual conventions (signs, omitted unit coefficients and exponents, highest term first, 0 for zero) it is the polynomial printed. The printed form of a point is O for the identity and its coordinates otherwise.",
     IN, "all coefficients (0, 1, -1, negative, large), all monomial shapes within the bounds",
     "Each sign/unit/position combination is formatted by its own branch.",
     [PO, TE, EC, "src/subscripted_variable.rs"], [("Display for Polynomial", PO), ("Display for Term", TE), ("Display for ECPoint", EC)])
prop("C23", "Divisor sums are the divisor function",
     "The k-th divisor sum of n is the sum of d^k over the positive divisors d of n, and 0 when n or k is negative.",
     IN, "all n and k within the bounds, including zero, negatives and extremes",
     "Tests list values for n up to 13.",
     ["src/divisor.rs"], [("sigma_divisor", "src/divisor.rs")], technique=KANI)
prop("C24", "Modular polynomials relate isogenous curves; Elkies classification follows",
     "The modular polynomial of level l is symmetric, monic of degree l+1 in each variable, and vanishes at the j-invariants of every pair of l-isogenous curves. "
     "For any curve the classification gives the monic gcd of x^p - x with the modular polynomial at the curve's j-invariant, its degree, whether l is an Elkies prime, and rational j-invariants that are roots of it.",
     IN, "all parameters of the genus-0 modular curves (symbolic integer), all curves modulo small primes",
     "Tests compare the printed coefficients for l = 2, 3 and one classification.",
     ["src/modular_polynomial.rs", "src/schoof_elkies_atkins.rs"],
     [("modular_polynomial", "src/modular_polynomial.rs"), ("sea", "src/schoof_elkies_atkins.rs")])
prop("C25", "Schoof's traces are the trace of Frobenius modulo l",
     "For any nonsingular curve over F_q, q > 3 prime, each residue returned by the point-counting algorithm is congruent modulo its l to q + 1 minus the number of points, and l = 2 and every odd l handled are reported once.",
     IN, "all curves over F_q for small q (symbolic a, b)",
     "The case distinctions depend on the curve; the tests that exist use one curve and are ignored by default.",
     ["src/schoof.rs"], [("schoof", "src/schoof.rs")])
prop("C26", "Solving a linear system gives its integer solution",
     "For a system whose matrix has full column rank and which has an integer solution, the solver returns that solution in order; extra consistent equations change nothing.",
     IN, "all integer matrices within the bounds and all integer solutions (unbounded)",
     "Pivot swaps, zero entries and signs take different courses for each matrix; the solver is only tested through two systems.",
     ["src/simultaneous_equation.rs"], [("solve", "src/simultaneous_equation.rs")])
prop("C27", "Subscripted variables and indices are in bijection",
     "For every prime p the symmetric subscript pairs up to p and the indices below the count are in bijection, and the two conversions are inverse to each other; the count is (p+1)(p+2)/2. A pair that is not an ordered pair up to p and an index that is not below the count are refused with a panic.",
     IN, "all primes within the bounds, all indices and subscript pairs",
     "Tests list the indices for p = 3.",
     ["src/subscripted_variable.rs"], [("SubscriptedVariableConverter", "src/subscripted_variable.rs")], technique=KANI)
prop("C28", "q-expansions are the truncated expansions",
     "The truncated expansions of the discriminant, its inverse, the Eisenstein series E4 and the modular j-function are the true expansions up to the requested order.",
     ["configurations"], "all truncation orders",
     "Tests list a few orders.",
     ["src/delta.rs", "src/eisenstein.rs", "src/j_invariant.rs"], [("delta1, delta1_inverse", "src/delta.rs"), ("eisenstein4", "src/eisenstein.rs"), ("j_invariant", "src/j_invariant.rs")],
     na="the only input is the truncation order: no value to make symbolic, so a check would be an enumeration of concrete runs; the series enter C24, whose modular polynomials are checked with symbolic parameters")
prop("C29", "secp256k1 base point generates a group of the published order",
     "The predefined secp256k1 curve has the published parameters, its base point lies on it and has the published prime order.",
     ["configurations"], "one fixed curve",
     "No input: a test settles it.",
     ["src/secp256k1.rs"], [("Secp256k1::new", "src/secp256k1.rs")],
     na="a statement about constants with no input; a concrete run decides it, there is nothing for a solver. The curve's group law over its prime is part of C17 (symbolic coordinates)")

prop("C30", "Term operations treat exponents exactly",
     "On single terms the product adds the exponents of x, y and q, the quotient subtracts them, an n-th power (also modulo p, then with the coefficient reduced) and the three exponent maps (Frobenius x and y, y only, q only) multiply them, the partial derivatives lower one of them and bring it down as a factor; coefficient and subscripted variable are carried along, "
     "negation and the builder change nothing else, the queries say which exponents occur, and a pure power of q evaluates to that power.",
     IN, "all exponents and coefficients in machine range up to the bounds at which the result itself would overflow",
     "Tests use exponents below 10; mixed-up fields, sign or overflow slips show at other values and combinations.",
     [TE, "src/term_builder.rs"], [("Term, Monomial operations", TE), ("TermBuilder", "src/term_builder.rs")], technique=KANI)

DONE = os.environ.get("DONE", "").split() or open(os.path.join(HERE, "tools", "done.txt")).read().split()
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json"))) if os.path.exists(os.path.join(HERE, "tools", "notes.json")) else {}

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif p["id"] not in DONE:
        na.append({"property": p["id"], "reason": "no check built yet"})
    else:
        cmd = "python3 check.py " + p["id"]
        checks.append({
            "property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "technique": NOTES.get(p["id"], {}).get("technique", p["technique"]),
            "level": "model_checking",
            "level_note": NOTES.get(p["id"], {}).get("note", KNOTE if p["technique"] == KANI else "Every value within the bounds listed per case in the evidence (coverage.bounds) is decided by z3 on paths of the real code; "
                          "nothing outside the bounds. Trusts the BigInt stand-in (cross-checked by native replay of inputs of explored paths) and z3."),
        })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "One driver, check.py: builds /repo's working tree against engine/symbig (symbolic) and num-bigint (native replay), runs the property's cases. No hooks in /repo.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(HERE, "properties.jsonl")):
    jsonschema.validate(json.loads(l), S)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks", len(na), "not applicable")

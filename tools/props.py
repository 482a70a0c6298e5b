HOOKS_NOTE = ("No hooks: the checks read /repo's source and never run it.  All /repo commits are 'fix:' commits, listed in "
              "known-findings.txt.")
AI = "abstract interpretation of every public operation over all dimensions and declared input forms"
TRUST = ("Trusts the analyser's models of Python, sympy, numpy, pandas and matplotlib; anything the models do not cover is "
         "reported as undecided, never as an alarm.")
GR = ["schubertpy/abstract_grassmannian.py", "schubertpy/grassmannian.py", "schubertpy/isotropic_grassmannian.py",
      "schubertpy/orthogonal_grassmannian.py", "schubertpy/qcalc.py"]
VAL = ["schubertpy/lc.py", "schubertpy/schur.py", "schubertpy/partition.py"]
ALLF = GR + VAL + ["schubertpy/mult_table.py", "schubertsage/conversion.py"]
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, **kw))


P("C01", "Operations never modify their inputs or the object they are called on",
  "Every public operation leaves each list, Schubert class, linear combination and partition the caller passed in exactly as "
  "it found it, whether the operation returns or raises. The Grassmannian, value object or table it is called on keeps its "
  "dimensions, type and contents.",
  ["inputs", "histories"],
  "every operation of every family in every dimension, every declared form of every argument, every path including error paths",
  "Tests compare return values and rarely look at an argument afterwards; a mutation needs an input that reaches the mutating "
  "branch and a caller that uses the argument again.",
  ALLF, [("operations of a space", "schubertpy/abstract_grassmannian.py"), ("partition helpers that copy before editing",
         "schubertpy/utils/mix.py"), ("rim hooks", "schubertpy/partition.py: Partition.remove_rim_hooks")],
  technique=AI + "; effect analysis of writes to tagged objects",
  note="Every abstract write on every abstract path of every entry point is judged. " + TRUST)

P("C02", "A result never depends on what was computed before",
  "An operation called with the same arguments on the same space gives the same result no matter which other operations, on "
  "which other spaces and with which arguments, ran earlier in the process. Spaces of different type or dimensions, and the "
  "classical and quantum rules, never see each other's remembered values. Nothing handed to a caller lets the caller change a "
  "later result by editing it.",
  ["histories", "inputs"],
  "every sequence of operations on any spaces in one process",
  "Each test runs a few calls in a fixed order; stale or shared state shows only for particular pairs of calls, which the "
  "tests never interleave.",
  ALLF + ["schubertpy/utils/hash.py"],
  [("method caches", "schubertpy/utils/hash.py"), ("cached recursions", "schubertpy/qcalc.py"),
   ("identity of a space", "schubertpy/orthogonal_grassmannian.py: __eq__, __hash__")],
  technique=AI + "; information flow into state that outlives a call, against cache keys",
  note="Every write to long-lived state is judged against the key under which it is found again. " + TRUST)

P("C03", "Results do not vary from run to run",
  "The same program run again gives the same results: nothing that differs between runs of the same program (hash "
  "randomisation, object addresses, clocks, random numbers, the environment) reaches a returned value or printed text. No "
  "result takes its order from iterating a hash-based container.",
  ["schedules", "inputs"],
  "every operation, every input form, every hash seed, clock and environment",
  "A test process has one hash seed and one environment; results agreeing there say nothing about the next process.",
  ALLF, [("enumeration of classes and index sets", "schubertpy/qcalc.py"), ("set-based complements",
          "schubertpy/orthogonal_grassmannian.py"), ("printed forms", "schubertpy/lc.py, schur.py, mult_table.py")],
  technique=AI + "; taint analysis from run-dependent sources to results and printed text",
  note="Every abstract result and printed text is searched for run-dependent tags. " + TRUST)

P("C04", "Concurrent callers do not disturb each other",
  "Several threads may compute at the same time, on the same space or on different ones, and each gets the result it would get "
  "alone: no call keeps its working data where another call can overwrite it, and no container shared between calls is edited "
  "in place. Drawing figures is excluded, because the plotting library itself is not thread-safe.",
  ["schedules", "histories"],
  "every interleaving of any number of concurrent operations",
  "The tests are single-threaded; a race needs two calls in flight and a switch at one particular point.",
  ALLF + ["schubertpy/utils/hash.py"],
  [("operations of a space", "schubertpy/abstract_grassmannian.py"), ("caches", "schubertpy/utils/hash.py, qcalc.py")],
  technique=AI + "; effect analysis of working data kept in state shared between calls",
  note="Every abstract write to state reachable by another call is judged; thread-local and locked writes are exempt. " + TRUST)

P("C05", "Values own their data",
  "A class, partition, combination, space or table keeps no list of the caller's: editing a list after passing it in changes "
  "nothing already built from it. Editing a list that an accessor or an operation handed out changes neither the object it came "
  "from nor any other value.",
  ["inputs", "histories"],
  "every constructor and operation, every input form, every later edit of any list passed in or received",
  "Tests build a value and use it at once; aliasing shows only when the caller edits the list later.",
  ALLF, [("constructors", "schubertpy/schur.py, partition.py, lc.py, mult_table.py"), ("accessors",
         "schubertpy/schur.py: partition"), ("generated lists", "schubertpy/abstract_grassmannian.py: schub_classes, generators")],
  technique=AI + "; ownership (may-alias) analysis of everything reachable from results and constructed values",
  note="Everything reachable from each abstract result is searched for lists owned by somebody else. " + TRUST)

P("C16", "Computing has no side effects",
  "An operation that computes neither prints, reads or writes files, starts processes or threads, uses the network, opens "
  "figures, nor changes interpreter-wide settings. An operation that exists to print or to export has only that effect, and "
  "importing the packages has none.",
  ["inputs", "configurations"],
  "every public operation on every input, including the paths that raise",
  "Tests look at return values; a stray print, file or changed global setting goes unnoticed.",
  ALLF + ["schubertpy/__init__.py"], [("operations of a space", "schubertpy/abstract_grassmannian.py"),
         ("drawing and exporting", "schubertpy/schur.py, lc.py, partition.py")],
  technique=AI + "; effect analysis of external calls",
  note="Every external effect on every abstract path is judged. " + TRUST)

P("C20", "Figures are released on every exit",
  "A figure opened while drawing or exporting a class is closed by the time the call ends, whether the call returns or fails "
  "(for instance because the file cannot be written), unless the figure is the value handed back. Repeated exports therefore "
  "do not accumulate open figures.",
  ["fault_sequences", "inputs"],
  "every path through the drawing and exporting operations, with saving able to fail at any point",
  "Tests export once to a writable place; a leak needs many exports or a failing save.",
  ["schubertpy/schur.py", "schubertpy/partition.py"],
  [("exporting", "schubertpy/schur.py: export_png"), ("plotting", "schubertpy/schur.py: plot_partition")],
  technique=AI + "; typestate analysis of figures on normal and exceptional exits",
  note="Every abstract exit of every public operation is judged. " + TRUST)

P("C06", "Every operation returns the kind of value it promises",
  "Each operation returns the same kind of value on every path and for every declared form of its input: operations on "
  "classes return a linear combination, accessors the documented list, class, number or text, comparisons a boolean. What the "
  "returned value contains has the promised kind too: a combination holds a symbolic expression, a class holds a list of parts.",
  ["inputs"],
  "every operation and operator, every declared input form, every dimension, every branch (trivial products, lists, scalars)",
  "Tests compare printed text, under which a bare expression and a combination look the same; the odd kind appears only on "
  "particular branches and forms.",
  ALLF, [("operations of a space", "schubertpy/abstract_grassmannian.py"), ("conversions", "schubertpy/qcalc.py: apply_lc"),
         ("arithmetic", "schubertpy/lc.py, schur.py")],
  technique=AI + "; type analysis of results",
  note="The kinds each abstract result can have are compared with a table of promised kinds. " + TRUST)

P("C07", "Every declared input form is accepted and used",
  "An operation accepts each documented way of writing its input (text, symbolic expression, combination, class, list of "
  "parts, pair where pairs are meant) and each shape of it (a number, a quantum parameter, a single class, a multiple, a sum), "
  "and never fails because of the kind of value it is given. The result depends on every argument: none is ignored (except the k of type_swap, which the space already fixes).",
  ["inputs"],
  "every operation of every family in every dimension, every combination of declared form and shape of its arguments",
  "Tests use one form per operation, mostly text of single classes; a form or shape handled by its own branch goes untested.",
  ALLF, [("input conversion", "schubertpy/lc.py: LinearCombination.__init__"), ("operations of a space",
         "schubertpy/abstract_grassmannian.py"), ("linear extension", "schubertpy/qcalc.py: apply_lc")],
  technique=AI + "; per-form reachability of a normal exit, kind-mismatch detection, dependence on arguments",
  note="A violation needs every abstract path of a form to raise, or a mismatch that follows from kinds alone. " + TRUST)

P("C08", "Results are fully expanded",
  "Every operation on classes returns a sum of monomials, never a product or power with an unexpanded sum inside, so that two "
  "equal results compare equal and can be read term by term. Products do so even if the input was written unexpanded.",
  ["inputs"],
  "every operation of every family in every dimension, every input form and shape, classical and quantum",
  "An unexpanded result appears only when a particular branch (a quantum correction, a coefficient that is itself a sum) "
  "contributes more than one term.",
  GR + ["schubertpy/lc.py"], [("products", "schubertpy/abstract_grassmannian.py: act_lc"), ("quantum corrections",
         "schubertpy/*_grassmannian.py: qpieri*_inner"), ("linear extension", "schubertpy/qcalc.py: apply_lc")],
  technique=AI + "; shape analysis of symbolic expressions",
  note="Alarms only where the abstract result is known to be a product over an unexpanded sum. " + TRUST)


P("C09", "Impossible requests are refused, valid spaces are not",
  "Asking for a space whose dimensions are impossible (m or n negative, m above n or above n/2, odd n for a symplectic space) "
  "or of the wrong type raises an error instead of building something, and every space with possible dimensions is built. So "
  "does an operation that has no meaning on the space (pair notation outside even orthogonal type), acting by a class that is "
  "not special, and building a partition or class from negative or non-numeric parts.",
  ["inputs", "configurations"],
  "all dimensions, possible and impossible, of every family; every form of the meaningless requests",
  "Tests try a few bad dimensions; a guard that is off by one, or missing for one family, answers with a wrong result.",
  GR + ["schubertpy/partition.py", "schubertpy/lc.py"],
  [("dimension checks", "schubertpy/*_grassmannian.py: __init__"), ("special classes only", "schubertpy/abstract_grassmannian.py: "
   "act_lc"), ("parts", "schubertpy/partition.py: __init__")],
  technique="abstract interpretation of constructors and operations under linear constraints on the dimensions; reachability of "
            "a normal exit",
  note="A violation needs a normal exit no undecided branch led to, or no refusal on any path. " + TRUST)

P("C10", "A space reports the data it was built with",
  "The descriptors of a space (type data, degree of q, printed description) state exactly its type, name, m, n, derived k and "
  "n, and degree of q, for every valid space. A clone is a new, equal description of the same space; the point class has one "
  "part per dimension it must have and there is one generator per special class.",
  ["inputs", "configurations"],
  "all valid dimensions of every family, including the boundary spaces with k = 0",
  "Tests look at a handful of small spaces, on most of which different formulas for the same number agree.",
  GR, [("type data", "schubertpy/*_grassmannian.py: __init__"), ("descriptors", "schubertpy/abstract_grassmannian.py: "
       "get_type_data, degree_q, clone, generators"), ("point class", "schubertpy/*_grassmannian.py: point_class")],
  technique="abstract interpretation of constructors and descriptors; every reported number as a linear form in m and n",
  note="A violation needs a reported number that is a different linear form of the dimensions. " + TRUST)

P("C11", "Quantum parameters appear exactly where they belong",
  "Classical operations never introduce a quantum parameter. Quantum operations introduce only the parameters of their space, "
  "q1 and q2 on even orthogonal spaces with k = 1 and q everywhere else, and never lose the quantum corrections altogether. "
  "Multiplication tables use the product they stand for.",
  ["inputs", "configurations"],
  "every operation of every family, in every regime of the dimensions, every input form",
  "Tests fix a few products; a wrong parameter appears only in a correction term that few inputs reach.",
  GR + ["schubertpy/mult_table.py"], [("quantum corrections", "schubertpy/*_grassmannian.py: qpieri*_inner"),
       ("choice of rule", "schubertpy/abstract_grassmannian.py: giambelli, qgiambelli, act, qact, mult, qmult"),
       ("tables", "schubertpy/mult_table.py")],
  technique=AI + "; information flow of quantum parameters into results",
  note="Every parameter is tagged where it is created; results are compared with the tags of the space. " + TRUST)


VN = ("value numbering over abstract interpretation: classes are opaque symbols standing for any partition, results are "
      "polynomials over them, and results that are not known are named by the call and its exact arguments")
VNOTE = ("Two computations are compared as polynomials, so an equation is decided without knowing any coefficient; it is an alarm "
         "only when both sides rest on the same named results. ")

P("C12", "Products and conversions are iterated multiplication by special classes",
  "Acting by a special class is the Pieri product with it, acting by an expression in special classes is acting by its factors "
  "one after the other and adding up its terms, and a number or a quantum parameter acts by multiplication. A product is the "
  "action of the Giambelli expression of one factor on the other, and writing an expression in classes is its action on the "
  "unit class, with the classical rule in classical operations and the quantum rule in quantum ones.",
  ["inputs", "configurations"],
  "every family in every regime of its dimensions, all partitions as opaque classes, expressions with one to three factors and "
  "one to three terms, repeated factors, numbers and quantum parameters",
  "Tests multiply small classes whose Giambelli expressions have one or two factors; a rule that treats a repeated factor, a "
  "constant term or the order of the factors wrongly shows only on larger expressions.",
  GR + ["schubertpy/lc.py"],
  [("action of an expression", "schubertpy/abstract_grassmannian.py: act_lc"),
   ("products", "schubertpy/abstract_grassmannian.py: mult, qmult"),
   ("conversion", "schubertpy/abstract_grassmannian.py: toS, qtoS")],
  technique=VN,
  note=VNOTE + "The product of an opaque class with a special class is replaced by an arbitrary rule that commutes. " + TRUST)

P("C13", "Operations are linear",
  "Products, Pieri products, actions, duals, Giambelli expressions and conversions are linear in each argument that takes "
  "classes: a multiple of a class, by a number or by quantum parameters, gives the same multiple of the result, and a sum "
  "gives the sum of the results.",
  ["inputs", "configurations"],
  "every operation of every family in every regime of its dimensions, each linear argument, multiples and two-term sums of "
  "opaque classes with integer and quantum coefficients",
  "Tests pass single classes; coefficients, negative multiples, quantum coefficients and sums in each argument are hardly ever "
  "combined.",
  GR + VAL, [("termwise application", "schubertpy/lc.py: LinearCombination.apply"),
             ("action of an expression", "schubertpy/abstract_grassmannian.py: act_lc"),
             ("operations of a space", "schubertpy/*_grassmannian.py")],
  technique=VN,
  note=VNOTE + "Each operation is also run with an arbitrary rule of multiplication in place of the Pieri rule. " + TRUST)

P("C15", "Arithmetic on classes and combinations is exact polynomial arithmetic",
  "Sums, differences, products and powers of classes, combinations, numbers, symbols and expressions are those of the "
  "polynomials they stand for, whichever side the operands stand on. A combination made from any accepted form of a value, or "
  "from its printed text, has that value. The expansion into classes lists every term with its whole coefficient, and without "
  "quantum terms lists exactly those that contain no quantum parameter.",
  ["inputs"],
  "every operator with operands of every kind on both sides, combinations of one to three terms with opaque classes and "
  "integer and quantum coefficients, every form a combination can be made from",
  "Tests add and multiply a few values in one order; reflected operators, mixed kinds of operands, zero, negative and quantum "
  "coefficients are not combined.",
  VAL, [("operators", "schubertpy/lc.py, schubertpy/schur.py"), ("construction", "schubertpy/lc.py: LinearCombination.__init__"),
        ("expansion", "schubertpy/lc.py: schur_expansion")],
  technique=VN,
  note=VNOTE + TRUST)


def N(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, na=reason)


VALUE_NA = ("The property is an equation between computed coefficients, for partitions of unbounded size; deciding it means "
            "proving or running the algebra (theorem proving, symbolic execution or testing), which no dataflow, effect or type "
            "argument over this source reaches. ")

N("N01", "Pieri products have the right coefficients",
  "Multiplying any class by a special class gives exactly the classes, with exactly the multiplicities, of the classical "
  "Pieri rule of that space; the quantum version adds exactly the right quantum terms.",
  ["inputs"], "every space, special class and class",
  "The tests sample a few spaces; the rule has case splits that only large partitions reach.", GR,
  [("Pieri rules", "schubertpy/*_grassmannian.py, qcalc.py: pieri_set, count_comps")],
  VALUE_NA + "What a static argument can say about these rules (which space's dimensions they are given, which parameters they "
  "introduce, what they may modify, what kinds they return) is claimed under other properties.")
N("N02", "Products are commutative and associative",
  "The classical and the quantum product are commutative and associative, with the class of the empty partition as identity.",
  ["inputs"], "every space and every triple of classes", "The tests check single products only.", GR,
  [("products", "schubertpy/abstract_grassmannian.py: mult, qmult")], VALUE_NA)
N("N03", "Giambelli expressions evaluate back to the class",
  "Writing a class as a polynomial in special classes and evaluating that polynomial gives the class back, classically and "
  "quantum.", ["inputs"], "every space and class", "The tests compare a few printed polynomials.", GR,
  [("Giambelli recursion", "schubertpy/abstract_grassmannian.py: giambelli_rec_inner")], VALUE_NA)
N("N04", "Dual classes pair to one point",
  "The product of two classes of complementary degree contains the point class exactly once if they are dual and not at all "
  "otherwise.", ["inputs"], "every space and pair of classes", "The tests check a few duals.", GR,
  [("dual classes", "schubertpy/*_grassmannian.py: dualize")], VALUE_NA)
N("N05", "The rim-hook product equals the quantum product",
  "Computing a quantum product on an ordinary Grassmannian by removing rim hooks gives the same result as the recursive rule.",
  ["inputs"], "every ordinary Grassmannian and pair of classes", "The tests compare a few products.",
  ["schubertpy/grassmannian.py", "schubertpy/partition.py"], [("rim hooks", "schubertpy/partition.py: remove_rim_hooks")],
  VALUE_NA + "By hand we found it does not hold on the current tree for 4 pairs on Gr(3,6).")
N("N06", "The list of classes is complete",
  "Every Schubert class of a space is listed exactly once, and nothing else is.", ["inputs"], "every space",
  "The tests check a few small spaces.", GR + ["schubertpy/qcalc.py"],
  [("enumeration", "schubertpy/qcalc.py: part_gen, all_kstrict")],
  "Completeness of an enumeration by an iterator over unbounded partitions is an inductive value-level fact; a static type, "
  "effect or dataflow argument does not bound it.")
N("N07", "Every computation terminates",
  "Every operation on a valid space and class ends after finitely many steps.", ["inputs"], "every space and class",
  "A test that does not end is noticed only for the inputs it runs.", GR + ["schubertpy/qcalc.py"],
  [("recursions", "schubertpy/abstract_grassmannian.py: giambelli_rec_inner, act_lc"), ("iterators", "schubertpy/qcalc.py")],
  "The recursions decrease in an order on partitions that holds because of the Pieri rule itself (triangularity), so a ranking "
  "argument needs the algebra of N01.")
N("N08", "Schur polynomials are correct",
  "The polynomial of a class in n variables is its Schur polynomial.", ["inputs"], "every partition and number of variables",
  "The tests check a few polynomials.", ["schubertpy/schur.py", "schubertpy/utils/mix.py"],
  [("polynomial", "schubertpy/utils/mix.py: SchurPol")], VALUE_NA)

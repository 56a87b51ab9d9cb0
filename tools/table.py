"""One row per property: what properties.jsonl and MANIFEST.json say about it."""
P = "dsrg_generator/"
POC, SQC, TERM, TEN, IDX, IPAIR, SQOP, WFF = (P + x for x in (
    "phys_op_contraction.py", "sqop_contraction.py", "Term.py", "Tensor.py", "Indices.py", "IndicesPair.py",
    "SQOperator.py", "write_forte_functions.py"))
NOTE = ("Every generated case is decided exactly up to floating-point tolerance by an oracle that shares no code with "
        "the package; assurance is over the cases generated (counts in the evidence). ")

TABLE = [
 dict(id="C01", title="Products of operators contract to the exact generalized Wick expansion",
      statement="Contracting a product of second-quantized operators with their tensors yields a sum of normal-ordered "
                "terms that equals the product as an operator, for any reference state. Restricting the cumulant rank or "
                "the number of open indices selects exactly the terms of that rank or size; the inputs are left untouched.",
      over=["inputs", "configurations"],
      text="all products of number-conserving operators over any orbital spaces, all truncations, scale factors and "
           "options of the expansion",
      why="The tests compare a few printed results for single- and double-body operators; a wrong sign, factor or lost "
          "term for another combination of spaces, ranks or options is invisible to them.",
      files=[POC, SQC, TERM],
      mech=[("contract_terms, contract_term: contractions of the operator strings, rewritten to terms", POC),
            ("compute_operator_contractions: the Wick expansion", SQC),
            ("Term.simplify / canonicalize: Kronecker deltas, canonical labels", TERM)],
      observe=["dsrg_generator.phys_op_contraction.contract_terms", "dsrg_generator.phys_op_contraction.contract_term"],
      technique="random operator products against their matrix product in Fock space",
      note=NOTE + "Trusts numpy and the Fock-space model; up to 3 operators with up to 3 bodies."),
 dict(id="C02", title="Commutators equal AB - BA",
      statement="The commutator of two operators, single or summed over ranks, equals AB - BA, whether or not the search "
                "is restricted to connected contractions, and changes sign when the operands are exchanged. The inputs "
                "are left untouched.",
      over=["inputs", "configurations"],
      text="all pairs of operators, including ones with several tensors from an earlier contraction, all truncations, "
           "Hermitian conjugate amplitudes, scale factors",
      why="The tests pin numbers of terms and a few printed commutators of the Hamiltonian with amplitudes; "
          "cancellation of disconnected terms must hold for every pair.",
      files=[POC, SQC],
      mech=[("single_commutator, linear_commutator, linear_commutator_amp", POC),
            ("connected-only filter of composite contractions", SQC)],
      observe=["dsrg_generator.phys_op_contraction.single_commutator",
               "dsrg_generator.phys_op_contraction.linear_commutator",
               "dsrg_generator.phys_op_contraction.linear_commutator_amp"],
      technique="random commutators against Fock-space matrices; antisymmetry metamorphic relation",
      note=NOTE + "Trusts numpy and the Fock-space model."),
 dict(id="C03", title="Nested commutators and the BCH series are the exact truncated expansion",
      statement="The similarity-transformed Hamiltonian generated to a given nesting level is, level by level, the nested "
                "commutator with the requested truncation applied after each step, divided by the factorial where the "
                "series asks for it. This holds for single- and multireference spaces, unitary or not, and for every "
                "choice of excitation ranks.",
      over=["inputs", "configurations"],
      text="all nesting levels, amplitude ranks, reference types, unitary switches, cumulant and operator truncations",
      why="The tests compare a handful of low-rank coupled-cluster expansions; multireference and unitary cases and "
          "deeper nesting are not compared with anything.",
      files=[POC, SQC],
      mech=[("recursive_single_commutator, nested_commutator_cc, bch_cc_rsc", POC)],
      observe=["dsrg_generator.phys_op_contraction.bch_cc_rsc", "dsrg_generator.phys_op_contraction.nested_commutator_cc",
               "dsrg_generator.phys_op_contraction.recursive_single_commutator"],
      technique="random BCH configurations against nested Fock-space commutators",
      note=NOTE + "Nested products of four or more operators with the connected-only search lose terms for some operators "
           "(recorded as known findings)."),
 dict(id="C04", title="Simplifying or canonicalizing a term never changes its value",
      statement="Removing Kronecker deltas, merging equal labels and bringing a term to canonical form leaves the value of "
                "the term unchanged for all numerical tensors with the declared symmetry. Terms that are reported as "
                "zero are zero.",
      over=["inputs"],
      text="all connected terms over any tensors, densities and orbital spaces, spin-orbital, spin-integrated or "
           "spin-adapted",
      why="Tests compare about twenty hand-made terms with expected text; sign errors appear only for special index "
          "patterns.",
      files=[TERM, TEN, IDX],
      mech=[("Term.simplify, Term.canonicalize, canonicalize_sympy", TERM), ("Tensor.canonicalize", TEN)],
      observe=["dsrg_generator.Term.Term.canonicalize", "dsrg_generator.Term.Term.simplify"],
      technique="random terms evaluated numerically before and after",
      note=NOTE + "Trusts numpy/einsum; random real tensors decide polynomial identity with probability 1."),
 dict(id="C05", title="Equivalent terms have one canonical form",
      statement="Two terms that differ only by names of summed labels, by the order of tensors, or by permutations a tensor "
                "allows have identical canonical forms, with coefficients related by the sign of the permutations. "
                "Canonicalizing twice changes nothing.",
      over=["inputs", "histories"],
      text="all terms and all sequences of symmetry rewritings",
      why="Tests check single rewritings of a few terms; uniqueness is over the whole orbit of a term.",
      files=[TERM, TEN, IPAIR],
      mech=[("Term.canonicalize", TERM), ("tensor ordering and base strong generating sets", TEN)],
      observe=["dsrg_generator.Term.Term.canonicalize"],
      technique="random symmetry rewritings, metamorphic equality of canonical forms",
      note=NOTE + "Decides equality structurally, independent of the package's own comparison."),
 dict(id="C06", title="Combining like terms preserves the sum",
      statement="Combining a list of canonical terms returns the same sum, with every structure occurring exactly once and "
                "no term of zero coefficient. The input terms keep their coefficients and calling it again on its own result changes "
                "nothing.",
      over=["inputs", "histories"],
      text="all lists of canonical terms in any order, with any repetition and cancellation",
      why="Tests combine one or two short lists; order dependence and cancellation need many.",
      files=[POC, TERM],
      mech=[("combine_terms", POC), ("Term ordering, equality, similarity", TERM)],
      observe=["dsrg_generator.phys_op_contraction.combine_terms"],
      technique="random term lists against an exact map-based sum",
      note=NOTE + "Coefficients are dyadic so that cancellation is exact."),
 dict(id="C07", title="Execution options never change the result",
      statement="The generated terms do not depend on the number of worker processes, the batch size, the hash seed or how "
                "the search is split, nor do the printed equations and saved files depend on the hash seed. A tighter truncation gives exactly the terms of a looser one that satisfy it.",
      over=["configurations", "schedules", "inputs"],
      text="all operator products, worker counts, batch sizes, hash seeds and pairs of truncations",
      why="Tests run one or two parallel cases and compare counts.",
      files=[POC, SQC, P + "helper/multiprocess_helper.py"],
      mech=[("contract_terms: serial and pooled canonicalization", POC), ("compute_operator_contractions: batches over worker processes", SQC)],
      observe=["dsrg_generator.phys_op_contraction.contract_terms"],
      technique="differential runs of the same random product under different options",
      note=NOTE + "Schedules are those the operating system produced."),
 dict(id="C08", title="Wick contractions are enumerated exactly once with the right sign",
      statement="For a string of operators the set of contractions generated is exactly the set allowed by the orbital "
                "spaces, the cumulant truncation, the window of open operators and connectedness, each occurring once, "
                "with the fermionic sign and prefactor. Integer partitions used for it are complete and without repetition.",
      over=["inputs", "configurations"],
      text="all operator strings, truncations, windows, connected-only or not",
      why="Tests pin numbers of contractions for a few strings and two printed lists.",
      files=[SQC, P + "helper/integer_partition.py", SQOP],
      mech=[("compute_elementary_contractions_list, composite contraction backtracking, compute_operator_contractions", SQC),
            ("integer_partition", P + "helper/integer_partition.py")],
      observe=["dsrg_generator.sqop_contraction.compute_elementary_contractions_list",
               "dsrg_generator.sqop_contraction.compute_operator_contractions"],
      technique="random operator strings against an independent brute-force enumeration",
      note=NOTE + "For four or more operators the connected-only search is known to skip contractions (known findings)."),
 dict(id="C09", title="Spin integration preserves the value of a term",
      statement="The spin cases generated for a spin-orbital term sum to the same value on all spin-conserving tensors. "
                "Every spin case conserves spin in each tensor, and none is missing or repeated.",
      over=["inputs"],
      text="all spin-orbital terms and all spin-conserving numerical tensors",
      why="Tests check the number of spin cases of three terms.",
      files=[TERM, IPAIR, IDX, SQOP],
      mech=[("Term.generate_spin_cases_naive", TERM), ("IndicesPair.generate_spin_cases", IPAIR)],
      observe=["dsrg_generator.Term.Term.generate_spin_cases_naive"],
      technique="random terms evaluated over alpha and beta orbitals",
      note=NOTE + "Real Hermitian spin-conserving tensors."),
 dict(id="C10", title="Singlet spin adaptation preserves the value of a term",
      statement="Rewriting a spin-integrated term for a singlet reference gives spin-free terms with the same value on "
                "every set of spin-free tensors.",
      over=["inputs"],
      text="all spin-integrated terms with a scalar, one-body or alpha-beta two-body operator, all spin-free tensors",
      why="Tests check a few one- and two-tensor terms.",
      files=[TERM, TEN],
      mech=[("Term.generate_singlet_adaptation", TERM), ("Tensor.generate_singlet_adaptation", TEN)],
      observe=["dsrg_generator.Term.Term.generate_singlet_adaptation"],
      technique="random spin-integrated terms evaluated numerically",
      note=NOTE + "Open operators with equal spins or more than two bodies are not claimed."),
 dict(id="C11", title="Printed ambit code evaluates to the terms it was printed from",
      statement="Executing the printed tensor statements, one term at a time or as a list, adds exactly the "
                "antisymmetrized coefficients of the terms to the result tensors, for all input tensors. No intermediate "
                "is used before it is built or carries values over from another term.",
      over=["inputs", "configurations"],
      text="all lists of canonical terms and all real Hermitian tensors",
      why="Tests compare the text for about ten terms; the factor of a permutation or a stale temporary shows only for "
          "certain block patterns and lists.",
      files=[TERM, TEN, SQOP, POC],
      mech=[("Term.ambit", TERM), ("SecondQuantizedOperator.ambit_permute_format", SQOP),
            ("print_terms_ambit, categorize_contractions", POC)],
      observe=["dsrg_generator.Term.Term.ambit", "dsrg_generator.phys_op_contraction.print_terms_ambit"],
      technique="interpreter for the printed code against direct evaluation",
      note=NOTE + "Trusts the interpreter's reading of ambit semantics (einsum, +=, =, zero, build)."),

 dict(id="C12", title="Saved C++ functions compute the terms they were saved from",
      statement="The C++ source and header written for a list of terms define one function per block of the result, and a "
                "driver that calls each once. Executed from any contents of the result tensors, the driver leaves in them "
                "the sum of the terms, times the factor it is given, and the Hermitian conjugate where asked for. Every "
                "function called is declared and defined, and every temporary is declared before use.",
      over=["inputs", "configurations", "histories"],
      text="all lists of terms, with or without added Hermitian conjugate, storage reuse and direct triples, from any "
           "prior contents of the result tensors",
      why="No test reads the written files; one test only checks that files appear.",
      files=[WFF, TERM, POC, P + "helper/file_utils.py"],
      mech=[("save_terms_ambit_functions, save_direct_t3", WFF), ("Term.ambit", TERM),
            ("ChangeDir, multi_gsub", P + "helper/file_utils.py")],
      observe=["dsrg_generator.write_forte_functions.save_terms_ambit_functions",
               "dsrg_generator.write_forte_functions.save_direct_t3"],
      technique="random term lists written to scratch files, parsed and executed by an interpreter",
      note=NOTE + "Trusts the interpreter of the generated C++ subset; the files are not compiled (ambit is not installed)."),
 dict(id="C13", title="LaTeX output renders every term faithfully and exactly once",
      statement="The LaTeX text of a term contains its coefficient, tensors, labels and operator, so that the term can be "
                "read back from it; with permutation operators, the printed coefficient and permutations expand to the "
                "antisymmetrized term. Printed lists have one row per term, and grouping terms by block or by permutation "
                "puts every term in exactly one group.",
      over=["inputs"],
      text="all terms of all index types, all lists of terms, with and without permutation operators and environments",
      why="Tests compare a few strings; the prefactor depends on which open labels are equivalent.",
      files=[TERM, SQOP, IDX, POC],
      mech=[("Term.latex, Term.perm_partition_open", TERM), ("latex_permute_format", SQOP),
            ("print_terms_latex, categorize_contractions", POC)],
      observe=["dsrg_generator.Term.Term.latex", "dsrg_generator.phys_op_contraction.print_terms_latex"],
      technique="parse-back round trip and numerical expansion of the printed permutations",
      note=NOTE + "Trusts the reader of the LaTeX subset."),
 dict(id="C14", title="Restricting or expanding orbital spaces is an exact projection",
      statement="Expanding composite labels of an operator into elementary spaces keeps its value. Keeping only components "
                "with limited numbers of core and virtual labels, only excitations, or only the block-diagonal part of a "
                "one-body operator gives exactly those components of the original and no others, with or without active "
                "orbitals.",
      over=["inputs", "configurations"],
      text="all spin-orbital and spin-integrated terms, all limits, single- or multireference",
      why="Tests look at a few Hamiltonian blocks; a lost or repeated component needs other label patterns.",
      files=[TERM],
      mech=[("expand_composite_indices, make_ddca, make_excitation, make_one_body_diagonal", TERM)],
      observe=["dsrg_generator.Term.Term.expand_composite_indices", "dsrg_generator.Term.Term.make_ddca",
               "dsrg_generator.Term.Term.make_excitation", "dsrg_generator.Term.Term.make_one_body_diagonal"],
      technique="random terms against masked tables of their coefficients",
      note=NOTE + "Whether a purely active component is an excitation is left open."),
 dict(id="C15", title="The gradient of an energy term is its derivative",
      statement="The terms generated as the gradient of a scalar term with respect to the cluster amplitudes are its exact "
                "derivative: every amplitude contributes once. Terms that are not scalar are refused.",
      over=["inputs"],
      text="all scalar terms with any number of amplitudes, Hamiltonian tensors and densities",
      why="No test calls it.",
      files=[TERM],
      mech=[("Term.gradient_t", TERM)],
      observe=["dsrg_generator.Term.Term.gradient_t"],
      technique="random energies against directional derivatives",
      note=NOTE + "Spin-orbital terms."),
 dict(id="C16", title="Operator builders and adjoints give the operators they name",
      statement="The Hamiltonian and cluster operators built for any rank, labels and starting number are the operators "
                "with those tensor elements and the right prefactor; Fock, Dyall and Fink operators are the corresponding "
                "blocks of the Hamiltonian. Conjugating a term gives the adjoint, copying keeps it, and neither changes "
                "the original.",
      over=["inputs", "configurations"],
      text="all ranks, labels, names, starting numbers, scale factors, index types, and copies of all terms",
      why="Tests build ranks one and two with default labels.",
      files=[TERM, SQOP, POC],
      mech=[("hamiltonian_operator, cluster_operator, diagonal_fock_operator, dyall_hamiltonian, fink_hamiltonian, "
             "Term.from_term", TERM), ("cluster_operators", POC)],
      observe=["dsrg_generator.Term.hamiltonian_operator", "dsrg_generator.Term.cluster_operator",
               "dsrg_generator.Term.Term.from_term"],
      technique="random builder arguments against tables of tensor elements",
      note=NOTE + "Up to four bodies."),
 dict(id="C17", title="Index permutations, symmetry groups and space arithmetic are exact",
      statement="Sorting labels gives the sorted list with the parity of the permutation; listing or counting the distinct "
                "permutations of a partition is complete, without repetition and with the right signs. The symmetry group "
                "a tensor declares is exactly the one its index type allows. Narrowing a density's labels or naming a set "
                "of spaces agrees with set arithmetic.",
      over=["inputs"],
      text="all label lists, partitions, tensor shapes and index types, and all spaces",
      why="Tests check lists of up to four labels in a few orders.",
      files=[IDX, IPAIR, TEN, SQOP, P + "mo_space.py"],
      mech=[("canonicalize, count_permutations, latex/ambit_permute_format", IDX),
            ("base_strong_generating_set", IPAIR), ("downgrade_indices", TEN), ("find_space_label", P + "mo_space.py")],
      observe=["dsrg_generator.Indices.Indices", "dsrg_generator.IndicesPair.IndicesPair",
               "dsrg_generator.Tensor.Tensor", "dsrg_generator.mo_space.find_space_label"],
      technique="random label lists and shapes against direct enumeration",
      note=NOTE + "Group orders are computed by sympy."),
 dict(id="C18", title="Equality, order and hash agree with the content",
      statement="Labels, label lists, index pairs, operators, tensors and terms compare equal exactly if their contents "
                "agree; equal objects have equal hashes. The order is total and transitive, so sorting gives the same "
                "list from any starting order.",
      over=["inputs", "histories"],
      text="all pools of objects of one kind and index type",
      why="Tests compare a few pairs; total order and hashing are relations over all of them.",
      files=[P + "Index.py", IDX, IPAIR, TEN, SQOP, TERM, P + "mo_space.py"],
      mech=[("__eq__, __lt__, __hash__, comparison_tuple of every class", TERM)],
      observe=["dsrg_generator.Term.Term", "dsrg_generator.Tensor.Tensor", "dsrg_generator.Indices.Indices",
               "dsrg_generator.Index.Index"],
      technique="random pools with near-duplicates against content keys",
      note=NOTE + "Coefficients differ by more than 1e-12 or not at all."),
 dict(id="C19", title="Malformed input is refused, well-formed input is accepted",
      statement="A label is a space letter and a number; label lists have no repeats and no beta labels among spin "
                "orbitals; physical tensors conserve particle number and spin, and cluster amplitudes never mix hole and "
                "particle labels on one side; in a term every label occurs twice, and a diagonal one an even number of "
                "times. Anything else, mixed index types and badly shaped settings are refused with an error of the "
                "documented class.",
      over=["inputs"],
      text="all names, label lists, tensors, terms and driver settings, well-formed or not",
      why="Tests try one bad input per class; a check that lets one pattern through goes unseen.",
      files=[P + "Index.py", IDX, IPAIR, TEN, TERM, POC, SQC, P + "mo_space.py"],
      mech=[("constructors of Index, Indices, Tensor subclasses, Term", TERM),
            ("argument checks of recursive_single_commutator, bch_cc_rsc", POC),
            ("argument checks of compute_elementary_contractions_categorized", SQC)],
      observe=["dsrg_generator.Index.Index", "dsrg_generator.Indices.Indices.make_indices",
               "dsrg_generator.Tensor.Tensor.make_tensor", "dsrg_generator.Term.Term",
               "dsrg_generator.phys_op_contraction.bch_cc_rsc"],
      technique="mutated well-formed inputs against an independent validity rule",
      note=NOTE + "Non-ASCII names and beta labels in spin-adapted quantities are left open."),
 dict(id="C20", title="Contraction costs and space counts are exact",
      statement="The contraction paths of a term are all pairwise orders, each with the largest operation and intermediate "
                "along it, and the reported optimum is their minimum with a path that attains it. Cost counters add both "
                "spins and order by total, virtual, core and active size; counts of labels shared by two tensors are exact.",
      over=["inputs"],
      text="all terms with at least one tensor, all space counts, all pairs of tensors",
      why="Tests look at two terms and a few counters.",
      files=[TERM, P + "mo_space.py", "SpaceCounter.py"],
      mech=[("Term.contraction_paths, optimal_contraction_cost", TERM), ("MOSpaceCounter", P + "mo_space.py"),
            ("SpaceCounter", "SpaceCounter.py")],
      observe=["dsrg_generator.Term.Term.contraction_paths", "dsrg_generator.Term.Term.optimal_contraction_cost",
               "dsrg_generator.mo_space.MOSpaceCounter", "SpaceCounter.SpaceCounter"],
      technique="random terms against brute force over all contraction orders",
      note=NOTE + "Up to five tensors."),
]

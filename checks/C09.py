"""Spin integration keeps the value of a term."""
from collections import Counter
from itertools import product
from math import comb
from hypothesis import strategies as st
from checks.common import frozen, model_for, model_value, require, same_value, unit_of
from lib import gen
from lib.sut import IndicesPair, IndicesSpinIntegrated, SecondQuantizedOperator, mk, mk_term, poc, quiet

ID = "C09"
RULE = ("random connected spin-orbital terms (1-3 tensors, 0-2 densities): the sum of all generated spin cases, "
        "evaluated over alpha and beta orbitals, against the spin-orbital term on a random spin-conserving model; and "
        "the spin cases of single tensors / operators against all spin labelings with balanced spin; non-trivial: at "
        "least two spin cases")
ASSUMPTIONS = ["real Hermitian tensors that conserve spin", "input domain of C04, with labels running from upper to lower (a tensor may be conjugated as a whole), so that spin "
               "conservation of the tensors implies that of the operator"]
EXAMPLES = {"quick": 1000, "thorough": 3000}
BUDGET = {"quick": 150, "thorough": 1500}


@st.composite
def strategy(draw, tier="quick"):
    if draw(st.integers(0, 4)) == 0:
        k = draw(st.integers(1, 3))
        sp = [draw(st.sampled_from('gphvca')) for _ in range(2 * k)]
        return {"mode": "pair", "name": draw(st.sampled_from(['H', 'L', 'V', 'op', 'pair'])), "conserving": draw(st.booleans()),
                "upper": [f"{s}{i}" for i, s in enumerate(sp[:k])], "lower": [f"{s}{i + k}" for i, s in enumerate(sp[k:])]}
    c = draw(gen.term(max_tensors=3, max_dens=2, oriented=True, tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('V', 2)),
                      densities=(('L', 1), ('L', 2), ('K', 1), ('C', 1))))
    return {"mode": "term", "term": c, "seed": draw(st.integers(0, 3)), "combine": draw(st.booleans()),
            "simplify": draw(st.integers(0, 3)) == 0}


def run(case):
    if case["mode"] == "pair":
        u, l, name = case["upper"], case["lower"], case["name"]
        t = SecondQuantizedOperator(u, l) if name == 'op' else IndicesPair(u, l) if name == 'pair' else mk(name, u, l)
        conserving = case["conserving"] or name in 'HL'
        got = Counter()
        for x in t.generate_spin_cases(conserving):
            require(x.indices_type is IndicesSpinIntegrated, f"{x} is not spin-integrated")
            require(name in ('op', 'pair') or (x.name == t.name and type(x) is type(t)), f"{x!r} from {t!r}")
            got[(tuple(map(str, x.upper_indices.indices)), tuple(map(str, x.lower_indices.indices)))] += 1
        ref = Counter()
        for s in product((0, 1), repeat=len(u) + len(l)):
            lab = [x.upper() if b else x for x, b in zip(u + l, s)]
            if not conserving or sum(s[:len(u)]) == sum(s[len(u):]):
                ref[(tuple(lab[:len(u)]), tuple(lab[len(u):]))] += 1
        require(got == ref, lambda: f"spin cases of {t!r}: missing {list((ref - got).elements())[:3]} "
                                    f"extra {list((got - ref).elements())[:3]}")
        return {"nontrivial": len(ref) > 1, "tags": ["pair", name]}
    c = case["term"]
    size = 1
    for _, u, _l in c["tensors"] + [["op"] + c["op"]]:
        size *= comb(2 * len(u), len(u))
    if size > 4000:
        return {"nontrivial": False, "tags": ["too_many"]}
    t = mk_term(c)
    model = model_for('si', True, case["seed"], [t])
    ref = model_value(model, [t], 'so')
    if case.get("simplify"):    # a term that was simplified in place
        with quiet():
            t.simplify()
        if t.is_void():
            return {"nontrivial": False, "tags": ["void"]}
    before = frozen([t])
    with quiet():
        out = list(t.generate_spin_cases_naive())
    require(frozen([t]) == before, "generate_spin_cases_naive modified its input")
    if case["combine"]:
        out = poc.combine_terms(out)
    require(all(x.sq_op.indices_type is IndicesSpinIntegrated for x in out), "not spin-integrated")
    same_value(model, model_value(model, out, 'si'), ref, 'so', f"spin cases of {c}", unit_of(c["coeff"]))
    return {"nontrivial": len(out) > 1, "tags": ["term", f"open{t.sq_op.n_ops}"]
            + (["density"] if any(x[0] in "LCK" for x in c["tensors"]) else [])}

"""Products of operators contract to the generalized Wick expansion."""
from hypothesis import strategies as st
from checks.common import frozen, model_value, require, same_value
from lib import gen
from lib.model import get_model
from lib.sut import mk_term, poc, quiet

ID = "C01"
RULE = ("products of 2-3 random operators (general/excitation/de-excitation, 1-3 bodies, labels over all spaces, some with "
        "several tensors from an earlier contraction), possibly with a scalar factor at any position, "
        "random cumulant truncation, open-index window, scale factor, Hermiticity, hole-density expansion; compared "
        "with the product of the operators' matrices in Fock space for random tensors; non-trivial: at least one "
        "contracted term in the result")
ASSUMPTIONS = ["number-conserving operators", "cumulant truncation n is compared on references whose cumulants beyond "
               "n vanish, where the truncated expansion is exact"]
EXAMPLES = {"quick": 320, "thorough": 1500}
BUDGET = {"quick": 200, "thorough": 2400}


@st.composite
def strategy(draw, tier="quick"):
    n_ops = draw(st.sampled_from([2, 2, 2, 2, 2, 2, 2, 2, 3, 3, draw(st.integers(0, 1))]))
    big = n_ops == 2 and draw(st.integers(0, 9)) == 0
    ops, start = [], draw(st.sampled_from([0, 1, 2, 7, 8, 9]))
    for i in range(n_ops):
        body = 1 if (n_ops == 3 and i) else 2
        if big and i == 0:
            body = 3
        if draw(st.integers(0, 9)) == 0 and not big:
            o, n = draw(gen.dressed(start, 2 * body))
        else:
            o, n = draw(gen.operator(start, max_body=body))
        start += n
        ops.append(o)
    if n_ops == 0 or draw(st.integers(0, 5)) == 0 and not big:
        # a number among the factors
        o, n = draw(gen.scalar(start))
        ops.insert(draw(st.integers(0, len(ops))), o)
    size = sum(len(o["op"][0]) + len(o["op"][1]) for o in ops)
    max_cu = draw(st.sampled_from([1, 2, 2, 3, 4] if size < 10 else [1, 2]))
    hi = draw(st.sampled_from([size, 8, 6, 6, 4, 2, 0]))
    lo = draw(st.sampled_from([0, 0, 0, 2, 4]))
    return {"ops": ops, "max_cu": max_cu, "max_open": hi, "min_open": min(lo, hi),
            "scale": draw(st.sampled_from([1.0, 1.0, -0.5, 3.0])), "expand_hole": draw(st.integers(0, 3)) != 0,
            "hermitian": draw(st.booleans()), "dims": draw(st.sampled_from([[1, 3, 1], [1, 4, 1], [2, 2, 1], [1, 2, 2], [2, 1, 2], [1, 1, 3], [3, 1, 1]])),
            "seed": draw(st.integers(0, 3))}


def run(case):
    terms = [mk_term(o) for o in case["ops"]]
    before = frozen(terms)
    dims = case["dims"] if case["max_cu"] < 4 else [1, 4, 1]
    model = get_model(tuple(dims), case["seed"], case["hermitian"], case["max_cu"])
    with quiet():
        out = poc.contract_terms(terms, max_cu=case["max_cu"], max_n_open=case["max_open"],
                                 min_n_open=case["min_open"], scale_factor=case["scale"],
                                 expand_hole=case["expand_hole"], hermitian_tensor=case["hermitian"])
    require(frozen(terms) == before, "contract_terms modified its input")
    got = model_value(model, out)
    ref = case["scale"] * model.product(*[model.value([t]) for t in terms])
    ref = ref * model.n_open_mask(case["min_open"], case["max_open"])
    same_value(model, got, ref, 'so', f"product of {case['ops']}")
    given = sum(x.n_body > case["max_cu"] for t in terms for x in t.list_of_tensors if x.name == 'L')
    for t in out:
        require(case["min_open"] <= t.sq_op.n_ops <= case["max_open"], f"{t!r} is outside the open-index window")
        high = sum(x.n_body > case["max_cu"] for x in t.list_of_tensors if x.name == 'L')
        require(high <= given, f"{t!r} has a new cumulant beyond max_cu")
        if case["expand_hole"]:
            require(all(x.name != 'C' for x in t.list_of_tensors), f"unexpanded hole density in {t!r}")
    n_in = sum(len(o["tensors"]) for o in case["ops"])
    tot = sum(len(o["op"][0]) * 2 for o in case["ops"])
    con = any(t.sq_op.n_ops < tot for t in out)
    return {"nontrivial": con, "tags": [f"ops{sum(bool(o['op'][0]) for o in case['ops'])}"]
            + (["scalar"] if any(not o["op"][0] for o in case["ops"]) else [])
            + (["dressed"] if any(len(o["tensors"]) > 1 and o["op"][0] for o in case["ops"]) else []) + [ f"max_cu{case['max_cu']}", "herm" if case["hermitian"]
            else "nonherm"] + ([f"L{max((x.n_body for t in out for x in t.list_of_tensors if x.name == 'L'), default=0)}"])
            + (["hole"] if any(x.name == 'C' for t in out for x in t.list_of_tensors) else []) + ([] if n_in else [])}

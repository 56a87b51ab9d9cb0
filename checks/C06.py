"""combine_terms collects like terms without changing the sum."""
from hypothesis import strategies as st
from checks.common import as_map, frozen, model_for, model_value, require, same_value, skeleton, unit_of
from lib import gen
from lib.sut import Term, mk_term, poc, quiet

ID = "C06"
RULE = ("lists of up to 10 canonical terms drawn with repetition from up to 5 different ones (among them the same legs "
        "with other numbers of creators and annihilators, and renamed tensors), with coefficients that partly cancel; non-trivial: at least two entries of the list "
        "are like terms")
ASSUMPTIONS = ["coefficients are dyadic, so that exact cancellation is decidable"]
EXAMPLES = {"quick": 1500, "thorough": 8000}
BUDGET = {"quick": 150, "thorough": 1500}


@st.composite
def strategy(draw, tier="quick"):
    itype = draw(st.sampled_from(['so', 'so', 'si', 'sa']))
    pool = [draw(gen.typed_term(types=(itype,), max_tensors=3, max_dens=1, densities=(('L', 1), ('L', 2))))
            for _ in range(draw(st.integers(1, 4)))]
    if draw(st.booleans()):
        # relatives: the same legs shared out differently between creators and annihilators, or a tensor renamed
        c = pool[draw(st.integers(0, len(pool) - 1))]
        legs = c["op"][0] + c["op"][1]
        if draw(st.integers(0, 2)):
            k = draw(st.integers(0, max(0, len(legs) - 1)))
            c = draw(gen.unbalanced(dict(c, op=[legs[k:k + len(legs) // 2], legs[k + len(legs) // 2:] + legs[:k]]
                                         if k <= len(legs) // 2 else c["op"])))
        else:
            c = dict(c, tensors=[[{"H": "W", "T": "Y"}.get(n, n), u, l] for n, u, l in c["tensors"]])
        if itype != 'si' or sum(x[0].isupper() for x in c["op"][0]) == sum(x[0].isupper() for x in c["op"][1]) \
                or len(c["op"][0]) != len(c["op"][1]):
            pool.append(c)
    picks = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.sampled_from([1.0, -1.0, 0.5, -0.5, 0.25, -2.0, 2.0 ** -16, -2.0 ** -17])),
                          min_size=1, max_size=10))
    order = draw(st.permutations(range(len(picks))))
    return {"pool": pool, "picks": [list(p) for p in picks], "order": list(order)}


def run(case):
    itype = case["pool"][0]["type"]
    terms = []
    for i, c in case["picks"]:
        with quiet():
            t = mk_term(dict(case["pool"][i], coeff=1.0)).canonicalize()
        t.coeff = t.coeff * c
        terms.append(t)
    before = frozen(terms)
    model = model_for(itype, True, 1, terms)
    ref = model_value(model, terms, itype)
    out = poc.combine_terms(terms)
    require(frozen(terms) == before, "combine_terms modified its input")
    same_value(model, model_value(model, out, itype), ref, itype, "combine_terms",
               unit_of(*[c for _, c in case["picks"]]))
    want = {k: v for k, v in as_map(terms).items() if v != 0.0}
    got = as_map(out)
    require(len(got) == len(out), f"like terms left uncombined: {out!r}")
    require(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-13 for k in want),
            lambda: f"coefficients {got} expected {want}")
    require(all(not (b < a) for a, b in zip(out, out[1:])), f"not sorted: {out!r}")
    require(frozen(poc.combine_terms(out)) == frozen(out), "combining the result again changes it")
    shuffled = poc.combine_terms([terms[i] for i in case["order"]])
    require(frozen(shuffled) == frozen(out), "the result depends on the order of the input list")
    # combining in two portions is the same as combining at once
    k = len(terms) // 2
    two = poc.combine_terms(poc.combine_terms([Term.from_term(t) for t in terms[:k]])
                            + poc.combine_terms([Term.from_term(t) for t in terms[k:]])) if k else out
    require(frozen(two) == frozen(out), "combining in portions differs from combining at once")
    ks = [skeleton(t) for t in terms if not t.is_void()]
    return {"nontrivial": len(set(ks)) < len(ks), "tags": [itype, "cancelled" if len(want) < len(set(ks)) else "kept"]}

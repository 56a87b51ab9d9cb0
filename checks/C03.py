"""Nested commutators and the BCH expansion."""
from hypothesis import strategies as st
from checks.common import frozen, model_value, require, same_value
from lib import gen
from lib.model import get_model
from lib.sut import mk_term, poc, quiet

ID = "C03"
RULE = ("recursive_single_commutator on 3-4 random operators, nested_commutator_cc and bch_cc_rsc over nesting level, "
        "cluster levels, single/multireference, unitary or not, cumulant and open-index truncation per level; "
        "reference: nested commutators of the operators' Fock-space matrices, truncated after each level as asked; "
        "non-trivial: the deepest level has terms")
ASSUMPTIONS = ["number-conserving operators", "cumulants beyond the truncation vanish in the reference model",
               "nested_commutator_cc at level >= 3 with the connected-only shortcut is checked for single-reference "
               "non-unitary operators only; the shortcut is known to drop terms otherwise (known finding)"]
EXAMPLES = {"quick": 60, "thorough": 500}
BUDGET = {"quick": 240, "thorough": 2400}
DIMS = [[1, 2, 1], [2, 1, 1], [1, 1, 2], [2, 1, 2]]


@st.composite
def strategy(draw, tier="quick"):
    mode = draw(st.sampled_from(["recursive", "nested", "bch"]))
    case = {"mode": mode, "hermitian": draw(st.booleans()), "dims": draw(st.sampled_from(DIMS)),
            "seed": draw(st.integers(0, 3))}
    if mode == "recursive":
        n = draw(st.sampled_from([2, 3, 3, 4]))
        ops, start = [], 0
        for i in range(n):
            o, k = draw(gen.operator(start, max_body=2 if i == 0 else 1 if n > 3 else draw(st.sampled_from([1, 1, 2])),
                                     kinds=('H', 'T', 'X', 'F') if i == 0 else ('T', 'X', 'F')))
            start += k
            ops.append(o)
        opens = [[draw(st.sampled_from([0, 0, 2])), draw(st.sampled_from([4, 4, 6, 2]))] for _ in range(n - 1)]
        same = draw(st.booleans())
        cus = [draw(st.sampled_from([1, 1, 2])) for _ in range(n - 1)]
        case.update(ops=ops, cu=cus[0] if same else cus, opens=opens[0] if same else opens, uniform=same,
                    shortcut=draw(st.integers(0, 3)) != 0, expand_hole=draw(st.integers(0, 3)) != 0)
        return case
    sr, un = draw(st.booleans()), draw(st.booleans())
    hole = draw(st.integers(0, 3)) != 0
    if mode == "nested":
        level = draw(st.sampled_from([1, 2, 2, 3, 4]))
        shortcut = draw(st.integers(0, 3)) != 0
        if level >= 3:
            un = False
            sr = True
            levels = [1] if level == 4 else draw(st.sampled_from([[1], [1], [2]]))
            shortcut = shortcut or level == 4
        elif level == 2:
            levels = [1] if (un or not sr) else draw(st.sampled_from([[1], [2], [1, 2]]))
        else:
            levels = draw(st.sampled_from([[1], [2], [1, 2], [3], [1, 3]] if sr else [[1], [2], [1, 2]]))
        cu = 1 if level > 1 or sr else draw(st.sampled_from([1, 2, 3]))
        case.update(level=level, levels=levels, cu=cu, sr=sr, unitary=un, shortcut=shortcut, expand_hole=hole,
                    opens=[draw(st.sampled_from([0, 0, 2])), draw(st.sampled_from([4, 2, 4, 6] if level == 1 else [4, 2]))])
    else:
        level = draw(st.sampled_from([1, 2, 2, 3, 4] if sr and not un else [1, 2, 3] if sr else [1, 2]))
        levels = draw(st.sampled_from([[1], [2], [1, 2]] if sr and not un and level < 4 else [[1]]))
        if sr and level == 1:
            levels = draw(st.sampled_from([levels, levels, [3], [2, 3]]))
        top = [4, 2, 4, 6] if sr and max(levels) < 3 and level < 3 else [4, 2]
        opens = [[draw(st.sampled_from([0, 0, 0, 2])), draw(st.sampled_from(top))] for _ in range(level)]
        same = draw(st.booleans())
        cus = [1 if sr else draw(st.sampled_from([1, 2])) for _ in range(level)]
        if level > 1 and un:
            cus = [1] * level
        case.update(level=level, levels=levels, cu=cus[0] if same else cus, sr=sr, unitary=un,
                    opens=opens[0] if same else opens, uniform=same, shortcut=draw(st.integers(0, 3)) != 0, expand_hole=hole)
    if max(levels) == 3:
        case["dims"] = [3, 0, 3]
    elif level == 4:
        case["dims"] = [2, 1, 2]
    return case


def amp_terms(levels, sr, unitary, start=0):
    h, p = ('c', 'v') if sr else ('h', 'p')
    out = []
    for k in levels:
        hs, ps = [f"{h}{start + i}" for i in range(k)], [f"{p}{start + i}" for i in range(k)]
        f = [1, 1, 4, 36][k]
        out.append(mk_term({"tensors": [["T", hs, ps]], "op": [ps, hs], "coeff": 1.0 / f}))
        if unitary:
            out.append(mk_term({"tensors": [["T", hs, ps]], "op": [hs, ps], "coeff": -1.0 / f}))
    return out


def ham_terms(spaces):
    from itertools import product
    out = []
    for k in (1, 2):
        for sp in product(spaces, repeat=2 * k):
            lab = [f"{s}{i}" for i, s in enumerate(sp)]
            out.append(mk_term({"tensors": [["H", lab[k:], lab[:k]]], "op": [lab[:k], lab[k:]],
                                "coeff": 1.0 if k == 1 else 0.25}))
    return out


def run(case):
    mode, herm = case["mode"], case["hermitian"]
    cus = [case["cu"]] if isinstance(case["cu"], int) else case["cu"]
    cu0 = max(cus)
    model = get_model(tuple(case["dims"]), case["seed"], herm, cu0)

    def at(i):
        """ the model of level i: the same tensors, cumulants truncated as asked for that level """
        return get_model(tuple(case["dims"]), case["seed"], herm, cus[min(i, len(cus)) - 1])
    tags = [mode]
    if mode == "recursive":
        terms = [mk_term(o) for o in case["ops"]]
        before = frozen(terms)
        n = len(terms) - 1
        opens = tuple(case["opens"]) if case["uniform"] else [tuple(x) for x in case["opens"]]
        with quiet():
            out = poc.recursive_single_commutator(terms, case["cu"], opens, for_commutator=case["shortcut"],
                                                  expand_hole=case["expand_hole"], hermitian_tensor=herm)
        require(frozen(terms) == before, "recursive_single_commutator modified its input")
        ref = model.value([terms[0]])
        for i in range(1, n + 1):
            lo, hi = opens if case["uniform"] else opens[i - 1]
            ref = at(i).commutator(ref, model.value([terms[i]])) * model.n_open_mask(lo, hi)
            same_value(model, model_value(model, out[i]), ref, 'so', f"level {i} of the nested commutator")
        return {"nontrivial": len(out[n]) > 0, "tags": tags + [f"level{n}"] + (["mixed_cu"] if len(set(cus)) > 1 else [])}
    level, sr = case["level"], case["sr"]
    A = model.value(amp_terms(case["levels"], sr, case["unitary"]))
    tags += [f"level{level}", "SR" if sr else "MR", "unitary" if case["unitary"] else "traditional"]
    if mode == "nested":
        lo, hi = case["opens"]
        with quiet():
            out = poc.nested_commutator_cc(level, case["levels"], max_cu=cu0, max_n_open=hi, min_n_open=lo,
                                           for_commutator=case["shortcut"], single_reference=sr,
                                           expand_hole=case.get("expand_hole", True),
                                           unitary=case["unitary"], hermitian_tensor=herm)
        ref = model.value(ham_terms('g'))
        f = 1.0
        for i in range(level):
            ref = model.commutator(ref, A)
            f /= i + 1
        ref = f * ref * model.n_open_mask(lo, hi)
        same_value(model, model_value(model, out), ref, 'so', f"nested_commutator_cc {case}")
        return {"nontrivial": len(out) > 0, "tags": tags}
    opens = tuple(case["opens"]) if case["uniform"] else [tuple(x) for x in case["opens"]]
    with quiet():
        out = poc.bch_cc_rsc(level, case["levels"], case["cu"], opens, for_commutator=case["shortcut"],
                             expand_hole=case.get("expand_hole", True), single_reference=sr, unitary=case["unitary"], hermitian_tensor=herm)
    ref = model.value(ham_terms('cv' if sr else 'cav'))
    same_value(model, model_value(model, out[0]), ref, 'so', "level 0 of bch_cc_rsc")
    for i in range(1, level + 1):
        lo, hi = opens if case["uniform"] else opens[i - 1]
        ref = at(i).commutator(ref, A) * model.n_open_mask(lo, hi) / i
        same_value(model, model_value(model, out[i]), ref, 'so', f"level {i} of bch_cc_rsc {case}")
    return {"nontrivial": len(out[level]) > 0, "tags": tags + (["mixed_cu"] if len(set(cus)) > 1 else [])}


def fixed(tier):
    """ every combination of level, reference and ansatz once, on small operators """
    base = {"hermitian": True, "dims": [1, 2, 1], "seed": 1, "cu": 1}
    for level in (1, 2):
        for sr in (True, False):
            for un in (True, False):
                opens = [0, 2 if (level, sr, un) == (2, False, True) else 4]
                yield dict(base, mode="nested", level=level, levels=[1], sr=sr, unitary=un, shortcut=True, opens=opens)
                yield dict(base, mode="bch", level=level, levels=[1], sr=sr, unitary=un, shortcut=True, opens=opens,
                           uniform=True)
    yield dict(base, mode="bch", level=4, levels=[1], sr=True, unitary=False, shortcut=True, opens=[0, 4], uniform=True,
               dims=[2, 1, 2])
    yield dict(base, mode="nested", level=4, levels=[1], sr=True, unitary=False, shortcut=True, opens=[0, 4], dims=[2, 1, 2])
    for levels in ([3], [1, 3]):
        yield dict(base, mode="nested", level=1, levels=levels, sr=True, unitary=True, shortcut=True, opens=[0, 4],
                   dims=[3, 0, 3])
    for cu in ([1, 2], [2, 1]):
        yield dict(base, mode="bch", level=2, levels=[1], sr=False, unitary=False, shortcut=True, opens=[[0, 4], [0, 2]],
                   uniform=False, cu=cu)


def known_findings():
    base = {"mode": "nested", "hermitian": True, "dims": [1, 2, 1], "seed": 0, "levels": [1], "cu": 1, "level": 3,
            "shortcut": True}
    return {"nested-level3-sr-unitary": dict(base, sr=True, unitary=True, opens=[0, 4]),
            "nested-level3-mr": dict(base, sr=False, unitary=False, opens=[0, 2])}

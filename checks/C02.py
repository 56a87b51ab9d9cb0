"""Commutators equal AB - BA, with or without the connectedness shortcut."""
from hypothesis import strategies as st
from checks.common import frozen, model_value, require, same_terms, same_value
from lib import gen
from lib.model import get_model
from lib.sut import mk_term, poc, quiet, Term

ID = "C02"
RULE = ("single_commutator / linear_commutator / linear_commutator_amp of random operators (some with several tensors "
        "from an earlier contraction, lists with repeated terms), both settings of the connected-only shortcut, random truncations; reference: "
        "AB - BA as matrices in Fock space; metamorphic: [A,B] = -[B,A] term by term; non-trivial: non-empty result")
ASSUMPTIONS = ["number-conserving operators", "cumulants beyond the truncation vanish in the reference model"]
EXAMPLES = {"quick": 160, "thorough": 900}
BUDGET = {"quick": 200, "thorough": 2400}


@st.composite
def strategy(draw, tier="quick"):
    mode = draw(st.sampled_from(["single", "single", "linear", "amp"]))
    herm = draw(st.booleans())
    case = {"mode": mode, "hermitian": herm, "shortcut": draw(st.integers(0, 3)) != 0,
            "max_cu": draw(st.sampled_from([1, 2, 2, 3])), "scale": draw(st.sampled_from([1.0, -0.5, 2.0])),
            "max_open": draw(st.sampled_from([8, 6, 6, 4, 2])), "min_open": draw(st.sampled_from([0, 0, 2])),
            "dims": draw(st.sampled_from([[1, 3, 1], [2, 2, 1], [1, 2, 2], [2, 1, 2], [2, 1, 3]])), "seed": draw(st.integers(0, 3))}
    start = draw(st.sampled_from([0, 0, 8]))
    left, right = [], []
    n_l = 1 if mode == "single" else draw(st.integers(1, 2))
    for _ in range(n_l):
        o, n = draw(gen.dressed(start)) if draw(st.integers(0, 7)) == 0 else draw(gen.operator(start, max_body=2))
        start += n
        left.append(o)
    if mode != "single" and draw(st.integers(0, 3)) == 0:
        # lists need not be combined
        left.append(dict(left[0], coeff=draw(st.sampled_from([-0.5, 2.0, -left[0]["coeff"]]))))
    if mode == "amp":
        case.update(left=left, levels=draw(st.sampled_from([[1], [1], [2], [1, 2]])), start=start,
                    unitary=draw(st.booleans()), sr=draw(st.booleans()))
    else:
        for _ in range(1 if mode == "single" else draw(st.integers(1, 2))):
            o, n = draw(gen.dressed(start)) if draw(st.integers(0, 9)) == 0 else draw(gen.operator(start, max_body=2))
            start += n
            right.append(o)
        if draw(st.integers(0, 9)) == 0:
            # a number commutes with everything
            o, n = draw(gen.scalar(start))
            if draw(st.booleans()):
                left[-1] = o
            else:
                right[-1] = o
        if mode != "single" and draw(st.integers(0, 3)) == 0:
            right.append(dict(right[0], coeff=draw(st.sampled_from([-0.5, 2.0, -right[0]["coeff"]]))))
        case.update(left=left, right=right, expand_hole=draw(st.integers(0, 3)) != 0)
    return case


def run(case):
    left = [mk_term(o) for o in case["left"]]
    mode, herm, kw = case["mode"], case["hermitian"], None
    model = get_model(tuple(case["dims"]), case["seed"], herm, case["max_cu"])
    if mode == "amp":
        f = 1.0
        right = []
        h, p = ('c', 'v') if case["sr"] else ('h', 'p')
        for k in case["levels"]:
            hs, ps = [f"{h}{case['start'] + i}" for i in range(k)], [f"{p}{case['start'] + i}" for i in range(k)]
            f = [1, 1, 4, 36][k]
            right.append(mk_term({"tensors": [["T", hs, ps]], "op": [ps, hs], "coeff": 1.0 / f}))
            if case["unitary"]:
                right.append(mk_term({"tensors": [["T", hs, ps]], "op": [hs, ps], "coeff": -1.0 / f}))
    else:
        right = [mk_term(o) for o in case["right"]]
    before = frozen(left + right)

    def call(a, b):
        with quiet():
            if mode == "single":
                return poc.single_commutator(a[0], b[0], case["max_cu"], case["max_open"], case["min_open"],
                                             case["scale"], case["shortcut"], case["expand_hole"], 1, herm)
            if mode == "linear":
                return poc.linear_commutator(a, b, case["scale"], case["min_open"], case["max_open"],
                                             max_cu=case["max_cu"], for_commutator=case["shortcut"],
                                             hermitian_tensor=herm)
            return poc.linear_commutator_amp(a, case["levels"], case["scale"], case["min_open"], case["max_open"],
                                             case["start"], unitary=case["unitary"], max_cu=case["max_cu"],
                                             for_commutator=case["shortcut"], single_reference=case["sr"],
                                             hermitian_tensor=herm)

    out = call(left, right)
    require(frozen(left + right) == before, "the commutator modified its input")
    ref = case["scale"] * model.commutator(model.value(left), model.value(right))
    ref = ref * model.n_open_mask(case["min_open"], case["max_open"])
    same_value(model, model_value(model, out), ref, 'so', f"{mode} commutator")
    for t in out:
        require(case["min_open"] <= t.sq_op.n_ops <= case["max_open"], f"{t!r} is outside the open-index window")
    if mode != "amp":
        rev = call(right, left)
        d = same_terms(out, [Term.from_term(t, flip_sign=True) for t in rev])
        require(d is None, lambda: f"[A,B] != -[B,A]: {d}")
    return {"nontrivial": len(out) > 0, "tags": [mode, "connected" if case["shortcut"] else "general",
                                                 f"max_cu{case['max_cu']}"] +
            (["dressed"] if any(len(o["tensors"]) > 1 for o in case["left"] + case.get("right", [])) else [])}

"""The gradient of an energy term is its derivative with respect to the amplitudes."""
from functools import lru_cache
import numpy as np
from hypothesis import strategies as st
from checks.common import fit_dims, frozen, model_value, require, unit_of
from lib import gen
from lib.model import Model
from lib.sut import mk_term, quiet

ID = "C15"
RULE = ("random scalar terms with 1-4 tensors, of which up to three are cluster amplitudes (any order, excitation or "
        "de-excitation), and densities: the generated gradient, paired with a random direction, against the derivative "
        "obtained by replacing one amplitude at a time in the energy; non-trivial: at least one amplitude and a nonzero "
        "derivative")
ASSUMPTIONS = ["real Hermitian tensors, arbitrary direction", "the three index types"]
EXAMPLES = {"quick": 2500, "thorough": 9000}
BUDGET = {"quick": 150, "thorough": 1500}


@st.composite
def strategy(draw, tier="quick"):
    itype = draw(st.sampled_from(['so', 'so', 'si', 'sa']))
    c = draw(gen.typed_term(types=(itype,), max_tensors=3, max_dens=2, max_open=4, oriented=True, allow_op_density=False,
                            spaces=draw(st.sampled_from(['gphvca', 'gph', 'hpa', 'cva'])), densities=(('L', 1), ('L', 2)),
                            tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('T', 1), ('T', 2))))
    case = {"seed": draw(st.integers(0, 5))}
    cre, ann = c["op"]
    if cre:
        case["open"] = c
        # close the term: <H^{ann}_{cre} a^{cre}_{ann}>
        c = dict(c, tensors=c["tensors"] + [["H", ann, cre]], op=[[], []])
    order = draw(st.permutations(range(len(c["tensors"]))))
    return dict(case, term=dict(c, tensors=[c["tensors"][i] for i in order]))


@lru_cache(maxsize=64)
def models(seed, dims, itype):
    """ Hermitian model whose V (the direction, which never meets a canonicalization) is not Hermitian """
    extra = {'so': (8, 'so', False), 'si': (8, 'spin', False), 'sa': (8, 'spin', True)}[itype]
    general = Model(dims, seed, False, *extra)
    m = Model(dims, seed, True, *extra)
    for k in (1, 2, 3):
        if itype == 'sa':
            m._spinfree[("V", k)] = general.spinfree("V", k)
        else:
            m._cache[("V", k)] = general.tensor("V", k)
    return m, general


def run(case):
    c = case["term"]
    itype = c["type"]
    if any(len(u) > 3 for _, u, _ in c["tensors"]):
        return {"nontrivial": False, "tags": ["large"]}
    if "open" in case:
        o = mk_term(case["open"])
        try:
            with quiet():
                list(o.gradient_t())
        except Exception:
            pass
        else:
            require(False, f"gradient_t accepted {o!r}, which is not a scalar")
    model, general = models(case["seed"], fit_dims([c], 'so' if itype == 'so' else 'spin'), itype)
    t = mk_term(c)
    before = frozen([t])
    with quiet():
        out = list(t.gradient_t())
    require(frozen([t]) == before, "the input term was modified")
    clusters = [i for i, x in enumerate(c["tensors"]) if x[0] in 'TY']
    ranks = sorted({len(c["tensors"][i][1]) for i in clusters})

    def scalar(e):
        v = model_value(model, [mk_term(e)], itype)
        return float(v[0] if itype == 'sa' else v[0, 0])
    want = sum(scalar(dict(c, tensors=[["V" if j == i else x[0], x[1], x[2]] for j, x in enumerate(c["tensors"])]))
               for i in clusters)
    G = model_value(model, out, itype)
    got = 0.0
    if itype == 'sa':
        for k, a in G.items():
            require(k in ranks or not np.any(a), f"gradient terms of an unexpected rank: {out!r}")
            if k in ranks:
                got += float(np.sum(a.transpose(list(range(k, 2 * k)) + list(range(k))) * general.spinfree("V", k)))
    else:
        for k in ranks:
            p, combs = general.packed("V", k)
            m = np.array([sum(1 << i for i in x) for x in combs])
            got += float(np.sum(G[np.ix_(m, m)] * p.T))
            G[np.ix_(m, m)] = 0.0
        require(not G.any(), f"gradient terms of an unexpected rank: {out!r}")
    require(abs(got - want) <= 1e-8 * max(unit_of(c["coeff"]), abs(want)),
            f"gradient of {t!r} paired with a direction: {got}, expected {want}; {out!r}"[:2000])
    return {"nontrivial": bool(clusters) and abs(want) > 1e-12, "tags": [itype, f"T{len(clusters)}"]
            + (["refusal"] if "open" in case else [])}

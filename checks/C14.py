"""Restricting or expanding the orbital spaces of an operator is an exact projection."""
import numpy as np
from hypothesis import strategies as st
from checks.common import frozen, model_for, model_value, require, same_value, unit_of
from lib import gen
from lib.sut import mk_term, quiet

ID = "C14"
RULE = ("random connected terms (1-3 tensors, densities, up to three-body operators over all spaces, spin-orbital or "
        "spin-integrated): expansion of composite labels, restriction by numbers of core / virtual labels, restriction to "
        "excitations, block-diagonal part of one-body terms, with and without active orbitals; the value of the result "
        "against the masked table of coefficients of the input; non-trivial: the projection is neither zero nor the whole")
ASSUMPTIONS = ["real Hermitian tensors, cluster amplitudes vanish for all-active labels",
               "whether the all-active component counts as an excitation is not compared"]
EXAMPLES = {"quick": 3000, "thorough": 9000}
BUDGET = {"quick": 150, "thorough": 1500}


@st.composite
def strategy(draw, tier="quick"):
    how = draw(st.sampled_from(["expand", "ddca", "ddca", "excitation", "excitation", "diagonal"]))
    c = draw(gen.term(max_tensors=3, max_dens=1, max_open=2 if how == "diagonal" else 6, oriented=True,
                      spaces=draw(st.sampled_from(['gphvca', 'gph', 'gphc', 'gphv'])), allow_op_density=False,
                      densities=(('L', 1), ('L', 2)),
                      tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('V', 2))))
    if draw(st.integers(0, 2)) == 0:
        asg = gen.spin_assignments(c)
        c = gen.rename(c, asg[draw(st.integers(0, len(asg) - 1))], 'si')
    return {"term": c, "how": how, "single_ref": draw(st.booleans()), "core": draw(st.integers(0, 4)),
            "virt": draw(st.integers(0, 4)), "start": draw(st.integers(0, 5)), "seed": draw(st.integers(0, 3)),
            "simplify": draw(st.integers(0, 3)) == 0}


def counts(model, lab):
    """ number of orbitals of a space per bit mask """
    m = sum(1 << i for i in model.spaces_so[lab])
    return np.array([bin(i & m).count("1") for i in range(1 << model.n)])


def run(case):
    c = case["term"]
    itype = c["type"]
    t = mk_term(c)
    n = len(c["op"][0])
    model = model_for(itype, True, case["seed"], [t], active=2 if itype == 'so' else 1)
    if n > 3:
        return {"nontrivial": False, "tags": ["large"]}
    ref = model_value(model, [t], itype)
    if case.get("simplify"):    # a term that was simplified in place
        with quiet():
            t.simplify()
        if t.is_void():
            return {"nontrivial": False, "tags": ["void"]}
    before = frozen([t])
    nc, na, nv = (counts(model, s) for s in 'cav')
    both = lambda x: x[:, None] + x[None, :]  # noqa: E731
    how, sr, start = case["how"], case["single_ref"], case["start"]
    skip = None
    with quiet():
        if how == "expand":
            out = list(t.expand_composite_indices(sr, start))
            keep = np.ones_like(ref, dtype=bool)
        elif how == "ddca":
            out = list(t.make_ddca(case["core"], case["virt"], sr, start))
            keep = (both(nc) <= case["core"]) & (both(nv) <= case["virt"])
        elif how == "excitation":
            out = [t.make_excitation(sr)]
            keep = (nc[:, None] == 0) & (nv[None, :] == 0)
            skip = (both(nc) == 0) & (both(nv) == 0) & (both(na) > 0)
        else:
            if n != 1:
                return {"nontrivial": False, "tags": ["not one-body"]}
            out = list(t.make_one_body_diagonal(sr))
            keep = (nc[:, None] == nc[None, :]) & (na[:, None] == na[None, :]) & (nv[:, None] == nv[None, :])
    if sr:
        keep = keep & (both(na) == 0)
    require(frozen([t]) == before, "the input term was modified")
    got = model_value(model, out, itype)
    want = np.where(keep, ref, 0.0)
    if skip is not None:
        got, want = np.where(skip, 0.0, got), np.where(skip, 0.0, want)
    same_value(model, got, want, itype, f"{how} (single_ref={sr}, core={case['core']}, virt={case['virt']}) of {t!r} "
                                        f"gave {out!r}"[:2500],
               unit_of(t.coeff))
    allowed = {"expand": "cav", "ddca": "cav", "excitation": "cavhp", "diagonal": "cav"}[how]
    for r in out:
        if r.is_void():
            continue
        for i in r.sq_op.indices():
            require(i.space.lower() in allowed, f"{how} left the label {i} in {r!r}")
            if how in ("expand", "ddca"):
                require(i.number >= start, f"label {i} numbered below {start} in {r!r}")
        if how in ("expand", "ddca"):
            k = sum(i.space.lower() == 'c' for i in r.sq_op.indices()), sum(i.space.lower() == 'v' for i in r.sq_op.indices())
            require(how == "expand" or (k[0] <= case["core"] and k[1] <= case["virt"]), f"{how} kept {r!r}")
            require(not sr or all(i.space.lower() != 'a' for i in r.sq_op.indices()), f"{how} kept active labels: {r!r}")
        if how == "excitation":
            require(all('c' != i.space.lower() and (i.space.lower() in 'pva') for i in r.sq_op.cre_ops.indices),
                    f"not an excitation: {r!r}")
            require(all(i.space.lower() in 'hca' for i in r.sq_op.ann_ops.indices), f"not an excitation: {r!r}")
    nz = np.abs(want).max() > 1e-12
    return {"nontrivial": bool(nz and np.abs(want - (ref if skip is None else np.where(skip, 0, ref))).max() > 1e-12 or len(out) > 1 and nz),
            "tags": [how, itype, f"body{n}", "zero" if not nz else "kept"]}

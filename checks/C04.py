"""Simplification and canonicalization keep the value of a term."""
from hypothesis import strategies as st
from checks.common import model_for, model_value, require, same_value, unit_of
from lib import gen
from lib.sut import Term, mk_term, quiet

ID = "C04"
RULE = ("random connected terms (1-4 tensors H/T/plain with 1-3 bodies, 0-3 densities L1/L2/L3/K/C, labels of all "
        "spaces, spin-orbital / spin-integrated / spin-adapted; some with diagonal tensors, "
        "some with operators that create and annihilate different numbers of particles); non-trivial: the rewritten term differs from the "
        "input in structure or is void")
ASSUMPTIONS = ["a label occurs in at most one density tensor and a density joins two different tensors, as in every "
               "operator contraction", "terms with diagonal tensors are simplified and relabelled only (canonicalize documents that it does not "
               "support them)",
               "one random real point per tensor symmetry class decides equality of two polynomials (error 0 w.p. 1)"]
EXAMPLES = {"quick": 2500, "thorough": 12000}
BUDGET = {"quick": 150, "thorough": 1500}


@st.composite
def strategy(draw, tier="quick"):
    c = draw(gen.typed_term(tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('T', 3), ('V', 2), ('H', 3)),
                            max_tensors=4, max_dens=3))
    if draw(st.integers(0, 6)) == 0:
        c = draw(gen.unbalanced(c))
    if c.get("type") != 'sa' and draw(st.integers(0, 6)) == 0:
        # diagonal tensors on some of the labels
        labels = sorted({i for x in c["tensors"] for i in x[1] + x[2]})
        diag = draw(st.lists(st.sampled_from(labels), min_size=1, max_size=2, unique=True)) if labels else []
        dens = {i for x in c["tensors"] if x[0] in "LCK" for i in x[1] + x[2]}
        extra = [["H", [i], [i]] for i in diag]
        if not dens & set(diag) and draw(st.booleans()):
            extra = [["H", diag, diag]]
        if extra and diag:
            c = dict(c, tensors=[list(x) for x in c["tensors"]] + extra)
            return {"term": c, "how": draw(st.sampled_from(["simple", "simplify"])), "hermitian": True,
                    "core": draw(st.booleans()), "active": draw(st.booleans()), "seed": draw(st.integers(0, 3))}
    return {"term": c, "how": draw(st.sampled_from(["canonicalize", "canonicalize", "simple", "simplify"])),
            "hermitian": draw(st.booleans()), "core": draw(st.integers(0, 3)) != 0,
            "active": draw(st.integers(0, 3)) != 0, "seed": draw(st.integers(0, 3))}


def run(case):
    c = case["term"]
    itype = c.get("type", "so")
    t = mk_term(c)
    diagonal = bool(t.diagonal_indices)
    model = model_for(itype, case["hermitian"], case["seed"], [t], active=3 if itype == 'so' else 2)
    before = model_value(model, [t], itype)
    how = case["how"]
    with quiet():
        if how == "canonicalize":
            r = t.canonicalize(simplify_core_cumulant=case["core"], remove_active_amplitudes=case["active"],
                               hermitian_tensor=case["hermitian"])
        elif how == "simple":
            r = t.canonicalize_simple(case["core"], case["active"])
        else:
            r = t
            t.simplify(case["core"], case["active"])
    after = model_value(model, [r], itype)
    same_value(model, after, before, itype, f"{how} of {c} gave {r!r}", unit_of(c["coeff"]))
    # the result is itself a valid term
    if not r.is_void():
        Term(r.list_of_tensors, r.sq_op, r.coeff)
        for x in r.list_of_tensors:
            require(x.name != 'K', f"{how} left a Kronecker delta: {r!r}")
            if x.name == 'L' and x.n_body > 1:
                require(all(i.space.lower() == 'a' for i in x.indices()), f"{how} left a non-active label in {r!r}")
            if x.name == 'L' and x.n_body == 1 and case["core"]:
                require(not all(i.space.lower() == 'c' for i in x.indices()), f"{how} left a core cumulant in {r!r}")
            if case["active"] and x.name in 'TY':
                require(not all(i.space.lower() == 'a' for i in x.indices()), f"{how} left all-active T in {r!r}")
    if how == "simplify" and not r.is_void():
        require(r.indices_set == Term(r.list_of_tensors, r.sq_op, r.coeff).indices_set, f"label set of {r!r}")
    changed = r.is_void() or repr(r) != repr(mk_term(c))
    return {"nontrivial": bool(changed and c["tensors"]),
            "tags": (["non-conserving"] if len(c["op"][0]) != len(c["op"][1]) else []) + [how, itype, "void" if r.is_void() else "kept"] + (["diagonal"] if diagonal else [])
            + (["density"] if any(x[0] in "LCK" for x in c["tensors"]) else [])}

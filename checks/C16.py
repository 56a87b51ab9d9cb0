"""Operator builders give the operators they name; conjugation is the adjoint."""
import numpy as np
from hypothesis import strategies as st
from checks.common import frozen, model_for, model_value, require, same_value, unit_of
from lib import gen
from lib.model import get_model
from lib.sut import (ClusterAmplitude, HamiltonianTensor, Term, cluster_operator, diagonal_fock_operator,
                     dyall_hamiltonian, fink_hamiltonian, hamiltonian_operator, mk_term, quiet)

ID = "C16"
RULE = ("Hamiltonian and cluster operators of 1-4 bodies over start numbers, labels, names, scale factors, excitation or "
        "de-excitation and index types, the diagonal Fock, Dyall and Fink operators, and copies / conjugates of random "
        "terms; the value against the tensor elements themselves, masked by space; non-trivial: every case with a "
        "nonzero operator")
ASSUMPTIONS = ["an operator built from start with k bodies uses numbers from start on, 2k of them for the Hamiltonian and "
               "k for a cluster operator, as the callers assume"]
EXAMPLES = {"quick": 2500, "thorough": 12000}
BUDGET = {"quick": 150, "thorough": 1500}


@st.composite
def strategy(draw, tier="quick"):
    mode = draw(st.sampled_from(["H", "T", "T", "copy", "copy", "named"]))
    case = {"mode": mode, "seed": draw(st.integers(0, 20))}
    if mode in "HT":
        case.update(k=draw(st.integers(1, 4)), start=draw(st.integers(0, 12)),
                    type=draw(st.sampled_from(['so', 'so', 'si', 'sa', 'spin-orbital', 'spin-integrated', 'spin-adapted'])))
    if mode == "T":
        case.update(ex=draw(st.booleans()), name=draw(st.sampled_from(["T", "T", "S", "R"])),
                    scale=draw(st.sampled_from([1.0, -1.0, 0.5, 2.0])), **dict(zip(("hole", "part"), draw(st.sampled_from(["hp", "hp", "cv", "hv", "cp", "av", "ca", "ha", "ap"])))))
    if mode == "copy":
        case.update(term=draw(gen.typed_term(max_tensors=3, max_dens=1, max_open=6, oriented=True,
                                             densities=(('L', 1), ('L', 2), ('K', 1), ('C', 1)))),
                    flip=draw(st.booleans()), hc=draw(st.booleans()))
    if mode == "named":
        case.update(which=draw(st.sampled_from(["fock", "dyall", "fink"])), sr=draw(st.booleans()),
                    dims=list(draw(st.sampled_from([(1, 2, 1), (2, 2, 1), (1, 2, 2), (2, 1, 2), (1, 3, 1)]))))
    return case


SHORT = {"spin-orbital": "so", "spin-integrated": "si", "spin-adapted": "sa"}


def operator_case(case):
    """ build, check, spoil the result, build again: every call gives a new operator with the same content """
    nz, t = build_and_check(case)
    first = frozen([t])
    t.coeff = 17.0
    with quiet():
        t.simplify()
    t.void_self()
    nz2, t = build_and_check(case)
    require(frozen([t]) == first and nz == nz2, f"the second call with the same arguments gives {t!r}")
    return nz


def build_and_check(case):
    itype = SHORT.get(case["type"], case["type"])
    k, start = case["k"], case["start"]
    if case["mode"] == "H":
        t = hamiltonian_operator(k, start, case["type"])
        name, scale, width = "H", 1.0, 2 * k
        cre_lab = ann_lab = 'g'
        require(len(t.list_of_tensors) == 1 and isinstance(t.list_of_tensors[0], HamiltonianTensor), f"not a Hamiltonian tensor: {t!r}")
    else:
        t = cluster_operator(k, start=start, excitation=case["ex"], name=case["name"], scale_factor=case["scale"],
                             hole_label=case["hole"], particle_label=case["part"], indices_type=case["type"])
        name, scale, width = case["name"], case["scale"], k
        cre_lab, ann_lab = (case["part"], case["hole"]) if case["ex"] else (case["hole"], case["part"])
        require(len(t.list_of_tensors) == 1 and isinstance(t.list_of_tensors[0], ClusterAmplitude), f"not a cluster amplitude: {t!r}")
    require(len(t.list_of_tensors) == 1, f"tensors of {t!r}")
    require(t.list_of_tensors[0].name == name, f"tensors of {t!r}")
    for i in t.sq_op.indices():
        require(start <= i.number < start + width, f"label {i} is outside [{start}, {start + width})")
    for i in t.sq_op.cre_ops.indices:
        require(i.space == cre_lab, f"creation label {i}")
    for i in t.sq_op.ann_ops.indices:
        require(i.space == ann_lab, f"annihilation label {i}")
    singlet = itype == 'sa'
    model = model_for(itype, False, case["seed"] % 6, [t])
    # de-excitations carry the same amplitude T^{hole}_{particle}
    conj = case["mode"] == "T" and not case["ex"]
    if singlet:
        X = scale / np.prod([float(i) for i in range(1, k + 1)]) ** 2 * model.spinfree(name, k)
        full = np.zeros_like(X)
        if conj:     # axes (hole, particle) -> a^{hole}_{particle}: cre = upper
            ax = [model.spaces[cre_lab]] * k + [model.spaces[ann_lab]] * k
            full[np.ix_(*ax)] = X[np.ix_(*ax)]
            want = full
        else:
            ax = [model.spaces[ann_lab]] * k + [model.spaces[cre_lab]] * k
            full[np.ix_(*ax)] = X[np.ix_(*ax)]
            want = full.transpose(list(range(k, 2 * k)) + list(range(k)))
        same_value(model, model_value(model, [t], 'sa'), {k: want}, 'sa', f"{t!r}")
        return bool(np.abs(want).max() > 0), t
    p, combs = model.packed(name, k)
    sp = model.spaces_so if itype == 'so' else model.spaces
    want = model.zero()
    m = np.array([sum(1 << i for i in x) for x in combs], dtype=int)
    inside = lambda lab: np.array([all(i in sp[lab] for i in x) for x in combs], dtype=bool)  # noqa: E731
    if len(combs):
        tab = p if conj else p.T
        want[np.ix_(m, m)] = scale * np.where(np.outer(inside(cre_lab), inside(ann_lab)), tab, 0.0)
    same_value(model, model_value(model, [t], itype), want, itype, f"{t!r}")
    return bool(np.abs(want).max() > 0), t


def named_case(case):
    model = get_model(tuple(case["dims"]), case["seed"], True)
    sr = case["sr"]
    for again in (True, False):
        with quiet():
            if case["which"] == "fock":
                out = diagonal_fock_operator(sr)
            elif case["which"] == "dyall":
                out = dyall_hamiltonian()
                sr = False
            else:
                out = fink_hamiltonian(sr)
        if again:   # what the caller does with a result must not show up in the next one
            for x in out:
                x.coeff = 17.0
                x.void_self()
            if isinstance(out, list):
                out.clear()
    want = model.zero()
    space = {i: s for s in 'cav' for i in model.spaces_so[s]}
    for k in (1, 2):
        p, combs = model.packed("H", k)
        m = [sum(1 << i for i in x) for x in combs]
        sps = ["".join(sorted(space[i] for i in x)) for x in combs]
        for x in range(len(combs)):
            for y in range(len(combs)):
                a, b = sps[x], sps[y]
                ok = a == b
                if k == 2:
                    ok = {"fock": False, "dyall": a == b == "aa", "fink": a == b}[case["which"]]
                if sr and 'a' in a + b:
                    ok = False
                if ok:
                    want[m[y], m[x]] = p[x, y]
    same_value(model, model_value(model, out, 'so'), want, 'so', f"{case['which']}: {out!r}"[:1500])
    return bool(want.any())


def copy_case(case):
    c = case["term"]
    itype = c["type"]
    t = mk_term(c)
    before = frozen([t])
    r = Term.from_term(t, flip_sign=case["flip"], hc=case["hc"])
    require(frozen([t]) == before, "copying modified the term")
    s = -1.0 if case["flip"] else 1.0
    if itype == 'sa':
        model = model_for('sa', False, case["seed"] % 4, [t])
        ref = model_value(model, [t], 'sa')
        want = {k: s * (a.transpose(list(range(k, 2 * k)) + list(range(k))) if case["hc"] else a) for k, a in ref.items()}
    else:
        model = model_for(itype, False, case["seed"] % 4, [t], active=1)
        ref = model_value(model, [t], itype)
        want = s * (ref.T if case["hc"] else ref)
    same_value(model, model_value(model, [r], itype), want, itype, f"copy of {t!r}: {r!r}", unit_of(c["coeff"]))
    # the copy is independent
    r.coeff = 17.0
    with quiet():
        r.simplify()
    require(frozen([t]) == before, "changing a copy changed the original")
    v = t.void()
    require(v.is_void() and v.coeff == 0.0 and not v.list_of_tensors and v.sq_op.n_ops == 0, f"void term {v!r}")
    require(frozen([t]) == before, "void() changed the term")
    t.void_self()
    require(t.is_void() and not t.list_of_tensors and t.sq_op.n_ops == 0, "void_self left content")
    return True


def run(case):
    mode = case["mode"]
    f = {"H": operator_case, "T": operator_case, "named": named_case, "copy": copy_case}[mode]
    return {"nontrivial": f(case), "tags": [mode] + ([case["type"]] if "type" in case else [])}

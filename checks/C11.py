"""Printed ambit code evaluates to the terms it was printed from."""
from functools import lru_cache
from hypothesis import strategies as st
from checks.common import frozen, model_for, require, unit_of
from lib import gen
from lib.ambit import Interp, compare, expected
from lib.sut import Term, mk_term, poc, quiet

ID = "C11"
RULE = ("lists of 1-8 canonical terms (random ones with several tensors and up to four-body operators, in all three "
        "index types, some creating and annihilating different numbers of particles, and random subsets of the results of real commutators): the printed ambit statements, executed by "
        "an interpreter over dense random tensors, against the antisymmetrized coefficients of the terms; one term at a "
        "time and as a list; non-trivial: some term needs index permutations or the list shares one temporary")
ASSUMPTIONS = ["canonicalized terms, as the documentation of the printer requires", "real Hermitian tensors",
               "no hole densities (their printed name is that of the result)",
               "a spin-integrated result is stored in the blocks whose alpha labels come first"]
EXAMPLES = {"quick": 700, "thorough": 4000}
BUDGET = {"quick": 150, "thorough": 1500}
COMM = [("H", 1, 1, 'so', True, 1), ("H", 2, 1, 'so', True, 1), ("H", 2, 1, 'so', False, 2), ("H", 2, 2, 'so', True, 1),
        ("H", 2, 2, 'so', False, 1), ("H", 1, 2, 'so', False, 2), ("H", 2, 1, 'si', True, 1), ("H", 1, 2, 'si', True, 1),
        ("H", 2, 3, 'so', True, 1), ("BCH", 2, (1, 2), 'so', True, 1), ("BCH", 2, (1,), 'si', True, 1)]
WHICH = list(range(len(COMM))) + [9] * 6 + [10] * 2


@st.composite
def strategy(draw, tier="quick"):
    seed = draw(st.integers(0, 3))
    if draw(st.integers(0, 2)) == 0:
        return {"mode": "comm", "which": draw(st.sampled_from(WHICH)), "seed": seed,
                "block": draw(st.one_of(st.none(), st.integers(0, 99))), "by": draw(st.sampled_from(["block", "perm"])),
                "pick": draw(st.lists(st.integers(0, 400), min_size=1, max_size=8, unique=True)),
                "coeff": draw(st.sampled_from([1.0, 0.5, -3.0]))}
    itype = draw(st.sampled_from(['so', 'so', 'si', 'sa']))
    nc = itype == 'so' and draw(st.integers(0, 3)) == 0
    pool = []
    for _ in range(draw(st.integers(1, 3))):
        c = draw(gen.term(max_tensors=3, max_dens=1, oriented=True, max_open=8 if itype == 'so' else 6,
                          densities=(('L', 1), ('L', 2)),
                          tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('T', 2), ('T', 3), ('V', 2))))
        if itype == 'si':
            asg = gen.spin_assignments(c)
            c = gen.rename(c, asg[draw(st.integers(0, len(asg) - 1))], 'si')
        if nc and len(c["op"][0]) < 4:
            c = draw(gen.unbalanced(c, oriented=True))
        pool.append(dict(c, type=itype))
    for _ in range(draw(st.integers(0, 2))):
        c = pool[draw(st.integers(0, len(pool) - 1))]
        if c["op"][0] and c["op"][1] and draw(st.booleans()):
            # a relative in another block: the same permutations, one space of one side narrowed
            side = c["op"][draw(st.integers(0, 1))]
            s = draw(st.sampled_from(side))[0]
            cumulant = {i for n, u, l in c["tensors"] if n == "L" for i in u + l}
            to = draw(st.sampled_from({"h": "ca", "p": "va", "g": "cav"}.get(s.lower(), "a")))
            to = to.upper() if s.isupper() else to
            top = 1 + max(int(i[1:]) for _, u, l in c["tensors"] for i in u + l)
            pool.append(gen.rename(c, {x: f"{to}{top + i}" for i, x in enumerate(side)
                                       if x[0] == s and x not in cumulant}, itype))
            continue
        # a relative in the same block: another tensor name
        pool.append(dict(c, tensors=[["V" if n == "H" else "H" if n == "V" else n, u, l] for n, u, l in c["tensors"]],
                         coeff=draw(st.sampled_from([1.0, -0.5, 0.125]))))
    return {"mode": "random", "terms": pool, "seed": seed, "name": draw(st.sampled_from(["C", "C", "S"]))}


@lru_cache(maxsize=None)
def comm(i):
    name, a, b, itype, sr, cu = COMM[i]
    if name == "BCH":
        # single-reference coupled cluster residuals: blocks with several kinds of permutations
        with quiet():
            out = poc.bch_cc_rsc(a, list(b), cu, [(0, 6)] * a, single_reference=True, unitary=False)
            out = [x for v in (out.values() if isinstance(out, dict) else out) for x in (v if isinstance(v, list) else [v])]
            out = [x for x in (t.make_excitation(True) for t in out) if not x.is_void()]
            if itype == 'si':
                out = [x for t in out for x in t.generate_spin_cases_naive()]
            return poc.combine_terms(out)
    h, p = ('c', 'v') if sr else ('h', 'p')
    g = 2 * a
    left = mk_term({"tensors": [[name, [f"g{a + i}" for i in range(a)], [f"g{i}" for i in range(a)]]],
                    "op": [[f"g{i}" for i in range(a)], [f"g{a + i}" for i in range(a)]], "coeff": [1, 1, .25][a]})
    hs, ps = [f"{h}{g + i}" for i in range(b)], [f"{p}{g + i}" for i in range(b)]
    right = mk_term({"tensors": [["T", hs, ps]], "op": [ps, hs], "coeff": [1, 1, .25, 1 / 36][b]})
    with quiet():
        out = poc.single_commutator(left, right, max_cu=cu, max_n_open=6)
        if itype == 'si':
            out = poc.combine_terms([x for t in out for x in t.generate_spin_cases_naive()])
    return out


def pick_terms(case):
    """ copies of some results of a commutator; "block": all from one block of the operator """
    terms = comm(case["which"])
    if case.get("block") is not None:
        groups = {}
        for t in terms:
            key = "".join(i.space for i in t.sq_op.ann_ops.indices + t.sq_op.cre_ops.indices)
            if case.get("by") == "perm":
                key = str(t.perm_partition_open())
            groups.setdefault(key, []).append(t)
        groups = [g for _, g in sorted(groups.items()) if len(g) > 1] or [terms]
        terms = groups[case["block"] % len(groups)]
    return [Term.from_term(terms[i]) for i in sorted({j % len(terms) for j in case["pick"]})]


def run(case):
    if case["mode"] == "comm":
        itype = COMM[case["which"]][3]
        terms = pick_terms(case)
        for t in terms:
            t.coeff *= case["coeff"]
    else:
        itype = case["terms"][0]["type"]
        with quiet():
            terms = [mk_term(c).canonicalize() for c in case["terms"]]
        terms = poc.combine_terms(terms)
    cap = {'so': 4, 'si': 3, 'sa': 4}[itype]
    terms = [t for t in terms if t.sq_op.n_ops <= 2 * cap and all(x.size <= 8 for x in t.list_of_tensors)]
    if not terms:
        return {"nontrivial": False, "tags": ["void"]}
    model = model_for(itype, True, case["seed"], terms, active=1)
    before = frozen(terms)
    name = case.get("name", "C")
    tags = [itype, case["mode"]]
    permuted = False
    for t in terms:
        code = t.ambit(name=name)
        permuted = permuted or "temp" in code
        env = Interp(model, itype).run(code).env
        compare(model, {("C" + k[1:]) if k[0] == name[0] else k: v for k, v in env.items()}, expected(model, [t], itype),
                itype, f"ambit code of {t!r}\n{code}", unit=unit_of(t.coeff))
    with quiet() as f:
        poc.print_terms_ambit(terms)
    code = f.getvalue()
    compare(model, Interp(model, itype).run(code).env, expected(model, terms, itype), itype,
            f"ambit code of {terms!r}\n{code}"[:2500], unit=unit_of(*[t.coeff for t in terms]))
    require(frozen(terms) == before, "printing modified the terms")
    shared = code.count("temp[") > 0 and any(a.split("[")[0] == b.split("[")[0] == "temp" for a, b in
                                             zip(code.split("\n"), code.split("\n")[1:]))
    if any(t.sq_op.n_cre != t.sq_op.n_ann for t in terms):
        tags.append("non-conserving")
    if permuted:
        tags.append("permuted")
    if shared:
        tags.append("shared_temp")
    return {"nontrivial": permuted or shared, "tags": tags + [f"body{max(t.sq_op.n_cre for t in terms)}"]}

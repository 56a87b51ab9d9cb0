"""Singlet spin adaptation keeps the value of a spin-integrated term."""
from functools import lru_cache
from itertools import combinations, permutations
from math import comb, factorial
import numpy as np
from hypothesis import strategies as st
from checks.common import frozen, model_for, model_value, require, unit_of
from lib import gen
from lib.model import sa_diff
from lib.sut import IndicesSpinAdapted, mk_term, poc, quiet

ID = "C10"
RULE = ("random connected spin-integrated terms with an operator of up to three bodies in any spin block and up to three "
        "tensors plus densities with up to four bodies: the spin-adapted terms evaluated over spatial orbitals against "
        "the spin block of the term on random spin-free tensors, element by element (scalar, one-body, alpha-beta "
        "two-body) and paired with the moments of an arbitrary singlet (all operators); non-trivial: at least two "
        "spin-adapted terms or an open operator")
ASSUMPTIONS = ["spin-free (singlet) real Hermitian tensors: a spin block is the signed sum of the spin-free tensor over "
               "the spin-matching permutations", "a result of n bodies, k of them beta, carries the factor 1/binomial(n,k)^2 "
               "(the index permutations that change spin belong to the operator)",
               "up to 96 spin-adapted terms before combination"]
EXAMPLES = {"quick": 1200, "thorough": 4000}
BUDGET = {"quick": 150, "thorough": 1500}


def four_body(draw):
    """ a four-body tensor closed, but for at most one line, by smaller ones """
    n_open = draw(st.integers(0, 1))
    parts = draw(st.sampled_from([[4], [3, 1], [2, 2], [2, 2], [2, 1, 1]] if not n_open else [[3], [2, 1], [1, 1, 1]]))
    up, lo, tens = [], [], []
    count = {}

    def label(spaces):
        s = draw(st.sampled_from(spaces))
        count[s] = count.get(s, 0) + 1
        return f"{s}{count[s] - 1}"
    for k in parts:
        if draw(st.integers(0, 3)):
            u, l = [label('hca') for _ in range(k)], [label('pva') for _ in range(k)]
            tens.append(["T", u, l])
        else:
            u, l = [label('a') for _ in range(k)], [label('a') for _ in range(k)]
            tens.append(["L", u, l])
        up += l
        lo += u
    op = [[label('gph') for _ in range(n_open)], [label('gph') for _ in range(n_open)]]
    up = list(draw(st.permutations(up + op[1])))
    lo = list(draw(st.permutations(lo + op[0])))
    return {"tensors": [["H", up, lo]] + tens, "op": op, "coeff": draw(st.sampled_from([1.0, -0.5])), "type": "so"}


@st.composite
def strategy(draw, tier="quick"):
    c = four_body(draw) if draw(st.integers(0, 5)) == 0 else draw(gen.term(max_tensors=3, max_dens=2, oriented=True, max_open=draw(st.sampled_from([4, 4, 6])),
                      tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('T', 3), ('V', 2), ('H', 3)),
                      densities=(('L', 1), ('L', 2), ('L', 3), ('K', 1), ('C', 1))))
    asg = gen.spin_assignments(c)
    if not asg:
        asg = [{x: x for x in gen.labels(c)}]
    return {"term": gen.rename(c, asg[draw(st.integers(0, len(asg) - 1))], 'si'), "seed": draw(st.integers(0, 3)),
            "alpha_major": draw(st.booleans()), "combine": draw(st.booleans()),
            "simplify": draw(st.integers(0, 3)) == 0}


@lru_cache(maxsize=40)
def density(m, n, seed):
    """ random singlet density of rank n that has no symmetry but that of exchanging particles: spin-free form, spin
    blocks over sorted strings of the 2m spin orbitals, bit masks of the strings """
    r = np.random.default_rng([seed, 99, n]).standard_normal((m,) * (2 * n))
    g = sum(r.transpose(list(p) + [n + i for i in p]) for p in permutations(range(n)))
    S = np.array(list(combinations(range(2 * m), n)))
    out = np.zeros((len(S), len(S)))
    U = S[:, None, :]
    for p in permutations(range(n)):
        L = S[:, list(p)][None, :, :]
        inv = sum(p[x] > p[y] for x in range(n) for y in range(x + 1, n))
        v = g[tuple(U[:, :, k] % m for k in range(n)) + tuple(L[:, :, k] % m for k in range(n))]
        out += (-1) ** inv * v * np.all((U >= m) == (L >= m), axis=2)
    return g, out, np.sum(1 << S, axis=1)


def pairing(model, G, X, n, seed):
    """ the coefficients contracted with the spin blocks, and with the spin-free form """
    g, blocks, masks = density(model.m, n, seed)
    return float(np.sum(G[np.ix_(masks, masks)] * blocks)), float(np.sum(X * g))


def size(c):
    """ number of spin-adapted terms before like ones are combined, permutations of open labels apart """
    out = 1
    for u in [u for _, u, _ in c["tensors"]] + [c["op"][0]]:
        b = sum(i.isupper() for i in u)
        out *= factorial(b) * factorial(len(u) - b)
    return out * (4 if len(c["op"][0]) > 2 else 1)


def run(case):
    c = case["term"]
    n = len(c["op"][0])
    ub = [i.isupper() for i in c["op"][0]]
    nb = sum(ub)
    if n > 3 or size(c) > 96:
        return {"nontrivial": False, "tags": ["outside"]}
    t = mk_term(c)
    before = frozen([t])
    model = model_for('sa', True, case["seed"], [t], active=1)
    m = model.m
    G = model_value(model, [t], 'si')
    if case.get("simplify"):    # a term that was simplified in place
        with quiet():
            t.simplify()
        if t.is_void():
            return {"nontrivial": False, "tags": ["void"]}
        before = frozen([t])
    with quiet():
        out = list(t.generate_singlet_adaptation(case["alpha_major"]))
    require(frozen([t]) == before, "generate_singlet_adaptation modified its input")
    require(all(x.sq_op.indices_type is IndicesSpinAdapted for x in out), "not spin-adapted")
    raw = len(out)
    if case["combine"]:
        out = poc.combine_terms(out)
    got = model_value(model, out, 'sa')
    tags = [f"body{n}_{nb}", "alpha_major" if case["alpha_major"] else "beta_major"] + \
        sorted({f"{x[0]}{len(x[1])}" for x in c["tensors"]})
    if n > 0:
        # the operator read as one more spin-free object: pair it with the moments of an arbitrary singlet
        a, b = pairing(model, G, got.get(n, np.zeros((m,) * (2 * n))), n, case["seed"])
        want = a / comb(n, nb) ** 2
        require(set(got) <= {n} and abs(b - want) <= 1e-7 * max(unit_of(c["coeff"]), abs(want)),
                lambda: f"spin-adapted form of {c}: paired value {b}, expected {want}; terms {out!r}"[:2500])
    if n > 2 or (n == 2 and nb != 1):
        return {"nontrivial": True, "tags": tags}
    if n == 0:
        ref = {0: np.array(G[0, 0])}
    elif n == 1:
        sh = m if ub[0] else 0
        ref = {1: np.array([[G[1 << (p + sh), 1 << (q + sh)] for q in range(m)] for p in range(m)])}
    else:
        ref = {2: np.zeros((m,) * 4)}
        for p in range(m):
            for q in range(m):
                for r in range(m):
                    for s in range(m):
                        # cre p alpha, q beta; ann r alpha, s beta
                        ref[2][p, q, r, s] = G[(1 << p) | (1 << (q + m)), (1 << r) | (1 << (s + m))] / 4.0
    d = sa_diff(got, ref, unit=unit_of(c["coeff"]))
    require(d is None, lambda: f"spin-adapted form of {c}: {d}; terms {out!r}"[:2500])
    return {"nontrivial": raw > 1 or n > 0, "tags": tags}

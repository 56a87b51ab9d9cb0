"""Equivalent terms have one canonical form."""
from hypothesis import strategies as st
from checks.common import frozen, require, skeleton
from lib import gen
from lib.sut import Term, mk_term, quiet

ID = "C05"
RULE = ("a random term and a rewriting of it by the symmetries the tensors have (relabeling inside a space, signed "
        "permutations of upper/lower labels, reordering of tensors, Hermitian swaps; for spin-adapted labels column "
        "permutations); non-trivial: the rewriting is a different expression and the canonical form is not void")
ASSUMPTIONS = ["same input domain as C04"]
EXAMPLES = {"quick": 2500, "thorough": 12000}
BUDGET = {"quick": 150, "thorough": 1500}


@st.composite
def strategy(draw, tier="quick"):
    c = draw(gen.typed_term(tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('T', 2), ('T', 3), ('V', 2)),
                            max_tensors=4, max_dens=2))
    if draw(st.integers(0, 6)) == 0:
        c = draw(gen.unbalanced(c))
    herm = draw(st.booleans())
    sa = c["type"] == 'sa'
    labs = gen.labels(c)
    # relabeling: injective inside each space
    mp = {}
    for s in sorted({x[0] for x in labs}):
        mine = [x for x in labs if x[0] == s]
        nums = draw(st.permutations(range(len(mine) + 3)))
        for x, n in zip(mine, nums):
            mp[x] = f"{s}{n}"
    out, sign = [], 1

    def perm(lst):
        if len(lst) < 2:
            return list(lst), list(range(len(lst))), 1
        p = draw(st.permutations(range(len(lst))))
        sg = 1
        for i in range(len(p)):
            for j in range(i + 1, len(p)):
                if p[i] > p[j]:
                    sg = -sg
        return [lst[i] for i in p], list(p), sg

    for name, u, l in c["tensors"]:
        u2, p, s1 = perm(u)
        if sa:
            l2 = [l[i] for i in p]
        else:
            l2, _, s2 = perm(l)
            sign *= s1 * s2
        if name in 'KC' or not herm:
            swap = False if name != 'K' else draw(st.booleans())
        else:
            swap = draw(st.booleans())
        if swap:
            u2, l2 = l2, u2
        out.append([name, [mp[i] for i in u2], [mp[i] for i in l2]])
    cre, ann = list(c["op"][0]), list(c["op"][1])
    if not sa:
        cre, _, s1 = perm(cre)
        ann, _, s2 = perm(ann)
        sign *= s1 * s2
    out = list(draw(st.permutations(out))) if len(out) > 1 else out
    return {"term": c, "hermitian": herm,
            "other": {"tensors": out, "op": [[mp[i] for i in cre], [mp[i] for i in ann]], "coeff": sign * c["coeff"],
                      "type": c["type"]}}


def run(case):
    herm = case["hermitian"]
    with quiet():
        a = mk_term(case["term"]).canonicalize(hermitian_tensor=herm)
        b = mk_term(case["other"]).canonicalize(hermitian_tensor=herm)
    require(a.is_void() == b.is_void(), f"one of two equivalent terms is void: {a!r} / {b!r}")
    if not a.is_void():
        require(skeleton(a) == skeleton(b) and abs(a.coeff - b.coeff) < 1e-13,
                lambda: f"two canonical forms of one term: {a!r}   and   {b!r}")
        require(a == b and not a != b and a.almost_equal(b) and hash(a) == hash(b) and a.hash_term() == b.hash_term(),
                lambda: f"equal canonical forms do not compare/hash equal: {a!r} {b!r}")
        before = frozen([a])
        with quiet():
            again = Term.from_term(a).canonicalize(hermitian_tensor=herm)
        require(frozen([again]) == before, lambda: f"canonicalize is not idempotent: {a!r} -> {again!r}")
    return {"nontrivial": (not a.is_void()) and case["term"] != case["other"],
            "tags": [case["term"]["type"], "void" if a.is_void() else "kept", f"tensors{len(case['term']['tensors'])}"]}

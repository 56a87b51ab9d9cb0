"""Index and tensor symmetries: sorting signs, permutation lists, symmetry groups, space arithmetic."""
from itertools import permutations
from math import factorial, prod
from hypothesis import strategies as st
from checks.common import require
from lib.model import get_model
from lib.sut import (Cumulant, HoleDensity, Index, Indices, IndicesPair, Kronecker, SecondQuantizedOperator, Tensor, find_space_label,
                     quiet)

ID = "C17"
RULE = ("random label lists (0-6 labels, all spaces, all index types), permutations of them and partitions into groups: "
        "sorted form and sign against the parity of the permutation, permutation counts and lists against direct "
        "enumeration; generators of the declared symmetry group of every tensor/operator shape against the symmetries a "
        "random numerical tensor has and the order of the full group; narrowing of density labels and naming of space "
        "sets against set arithmetic; non-trivial: at least two labels (or a non-empty space)")
ASSUMPTIONS = ["group orders are computed by sympy"]
EXAMPLES = {"quick": 4000, "thorough": 20000}
BUDGET = {"quick": 150, "thorough": 1500}
SUB = {'c': {'c'}, 'a': {'a'}, 'v': {'v'}, 'p': {'a', 'v'}, 'h': {'c', 'a'}, 'g': {'c', 'a', 'v'}}
SUB.update({k.upper(): {x.upper() for x in v} for k, v in list(SUB.items())})
ORDER = {s: i for i, s in enumerate("gphvcaGPHVCA")}


def lab_list(spaces, size):
    return st.lists(st.tuples(st.sampled_from(spaces), st.integers(0, 12)).map(lambda x: f"{x[0]}{x[1]}"),
                    min_size=0, max_size=size, unique=True)


@st.composite
def strategy(draw, tier="quick"):
    mode = draw(st.sampled_from(["sort", "sort", "parts", "pair", "pair"]))
    itype = draw(st.sampled_from(["so", "si", "sa"]))
    spaces = "gphvca" if itype != "si" else "gphvcaGPHVCA"
    if mode == "pair":
        u = draw(lab_list(spaces, 5))
        l = draw(lab_list(spaces, 5))
        return {"mode": mode, "type": itype, "upper": u, "lower": l}
    labs = draw(lab_list(draw(st.sampled_from([spaces, spaces, "g", "cv"])), 6 if mode == "sort" else 5))
    case = {"mode": mode, "type": itype, "labels": labs,
            "perm": list(draw(st.permutations(range(len(labs)))))}
    if mode == "parts":
        case["cuts"] = [draw(st.booleans()) for _ in labs]
    return case


def fixed(tier):
    out = [{"mode": "group", "type": t, "k": k, "herm": h, "obj": o}
           for t in ("so", "si", "sa") for k in (1, 2, 3) for h in (True, False) for o in ("tensor", "op")]
    out += [{"mode": "rect", "nu": a, "nl": b} for a in range(1, 4) for b in range(1, 4)]
    out += [{"mode": "narrow", "name": n, "u": u, "l": l} for n in "LCK" for sp in ("gphvca", "GPHVCA")
            for u in sp for l in sp]
    out += [{"mode": "label", "set": s} for s in
            ("c", "a", "v", "p", "h", "g", "ca", "av", "cav", "C", "A", "V", "P", "H", "G", "CA", "AV", "CAV")]
    return out


def key(x):
    return ORDER[x[0]], int(x[1:])


def parity(a, b):
    p = [a.index(x) for x in b]
    return (-1) ** sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p)))


def names(idx):
    return [f"{i.space}{i.number}" for i in idx.indices]


def run(case):
    with quiet():
        return {"sort": sort_case, "parts": parts_case, "group": group_case, "rect": rect_case, "narrow": narrow_case,
                "label": label_case, "pair": pair_case}[case["mode"]](case)


def sort_case(case):
    labs, itype = case["labels"], case["type"]
    x = Indices.make_indices(labs, itype)
    require(names(x) == labs and x.size == len(labs) == len(x), "labels are stored differently")
    require([str(i) for i in x] == labs and all(x[i] == Index(labs[i]) for i in range(len(labs))), "iteration")
    require([(str(a), str(b)) for a in x for b in x] == [(a, b) for a in labs for b in labs], "nested iteration")
    s, sign = x.canonicalize()
    require(type(s) is type(x), "canonicalize changed the index type")
    if itype == "sa":
        require(names(s) == labs and sign == 1, f"spin-adapted labels were reordered: {s}")
    else:
        want = sorted(labs, key=key)
        require(names(s) == want, f"sorted labels {s}, expected {want}")
        require(sign == parity(labs, want), f"sign {sign} of sorting {labs}")
    require(names(x) == labs, "sorting modified the input")
    other = [labs[i] for i in case["perm"]]
    y = Indices.make_indices(other, itype)
    require(x.is_permutation(y) and y.is_permutation(x), "is_permutation")
    require((-1) ** x.count_permutations(y) == parity(labs, other), f"parity from {labs} to {other}")
    require((x == y) == (labs == other), "equality of permuted labels")
    if labs:
        z = Indices.make_indices(labs[1:], itype)
        require(not x.is_permutation(z), "is_permutation of a shorter list")
        require(x.any_overlap(z) == bool(labs[1:]), "any_overlap")
        w = Indices.make_indices(labs[:1], itype)
        require(not w.any_overlap(z) and names(w + z) == labs, "concatenation")
        require(Index(labs[0]) in x and Index(labs[0]) not in z, "membership")
    for sp in ("g", "cv", "ph", "a", "A", "GV"):
        require(x.count_index_space(list(sp)) == sum(i[0] in sp for i in labs), f"number of labels in {sp}")
    for i in labs:
        b, a = Index(i).to_beta(), Index(i).to_alpha()
        require((b.space, b.number, a.space, a.number) == (i[0].upper(), int(i[1:]), i[0].lower(), int(i[1:])), "spin flip")
        require(Index(i).is_beta() == i[0].isupper(), "is_beta")
    require(x.n_beta() == sum(i[0].isupper() for i in labs), "number of beta labels")
    if itype == "si":
        require(list(x.spin_count) == [sum(i[0].islower() for i in labs), sum(i[0].isupper() for i in labs)], "spin count")
        require([str(i) for i in x.alpha_indices] == [i for i in labs if i[0].islower()], "alpha labels")
        require([str(i) for i in x.beta_indices] == [i for i in labs if i[0].isupper()], "beta labels")
        require(x.n_alpha() == x.spin_count[0], "number of alpha labels")
    require(x.ambit() == ",".join(labs), "text of the labels")
    return {"nontrivial": len(labs) > 1, "tags": ["sort", itype]}


def parts_case(case):
    labs, itype = case["labels"], case["type"]
    if not labs:
        return {"nontrivial": False, "tags": ["parts"]}
    order = sorted(labs, key=key)
    groups = [[]]
    for i, cut in zip([labs[j] for j in case["perm"]], case["cuts"]):
        if cut and groups[-1]:
            groups.append([])
        groups[-1].append(i)
    groups = [sorted(g, key=key) for g in groups]
    x = Indices.make_indices(order, itype)
    part = [[Index(i) for i in g] for g in groups]
    n = factorial(len(labs)) // prod(factorial(len(g)) for g in groups)
    nontrivial = len(groups) > 1 and itype != "sa"
    require(x.exist_permute_format(part) == nontrivial, f"existence of permutations {groups}")
    require(x.n_multiset_permutation(part) == (n if nontrivial else 1), f"number of permutations {groups}")
    m, text = x.latex_permute_format(part)
    require(m == (n if nontrivial else 1) and bool(text) == (nontrivial and n > 1), f"printed permutations {m} {text}")
    got = [(s, t.split(",")) for s, t in x.ambit_permute_format(part)]
    if itype == "sa":
        require(got == [(1, order)], f"permutations of spin-adapted labels: {got}")
        return {"nontrivial": False, "tags": ["parts", itype]}
    want = []
    for p in permutations(order):
        p = list(p)
        if all([i for i in p if i in g] == g for g in groups) and [i[0].isupper() for i in p] == [i[0].isupper() for i in order]:
            want.append((parity(order, p), p))
    require(sorted(got) == sorted(want), f"permutations of {groups}: {got}, expected {want}"[:1500])
    return {"nontrivial": nontrivial, "tags": ["parts", itype]}


def pair_case(case):
    u, l, itype = case["upper"], case["lower"], case["type"]
    for cls in (IndicesPair, SecondQuantizedOperator, Tensor):
        x = cls(u, l, itype)
        require(names(x.upper_indices) == u and names(x.lower_indices) == l, "labels are stored differently")
        require((x.n_upper, x.n_lower, x.size) == (len(u), len(l), len(u) + len(l)), "numbers of labels")
        require([str(i) for i in x.indices()] == u + l and [str(i) for i in x.indices(False)] == l + u, "all labels")
        require({str(i) for i in x.diagonal_indices()} == set(u) & set(l), "diagonal labels")
        require({str(i) for i in x.indices_set} == set(u) | set(l), "set of labels")
        y, sign = x.canonicalize()
        require(type(y) is cls, "canonicalize changed the class")
        if itype == "sa":
            require((names(y.upper_indices), names(y.lower_indices), sign) == (u, l, 1), "spin-adapted labels reordered")
        else:
            su, sl = sorted(u, key=key), sorted(l, key=key)
            require((names(y.upper_indices), names(y.lower_indices)) == (su, sl), f"sorted {x} to {y}")
            require(sign == parity(u, su) * parity(l, sl), f"sign of sorting {x}")
        require(names(x.upper_indices) == u and names(x.lower_indices) == l, "sorting modified the input")
        require(type(y.upper_indices) is type(x.upper_indices), "index type changed")
        if cls is not Tensor:
            z = x.clone(True)
            require((names(z.upper_indices), names(z.lower_indices)) == (l, u), "conjugate")
        require(x.clone() == x, "clone differs")
        if u and l:
            text = x.ambit()
            body = text[text.index('["') + 2:-2]
            require(body == (",".join(l + u) if cls is SecondQuantizedOperator else ",".join(u + l)), f"text {text}")
        if len(u) == len(l):
            require(x.n_body == len(u), "n_body")
            require(x.is_spin_conserving() == (sum(i[0].isupper() for i in u) == sum(i[0].isupper() for i in l)), "spin balance")
    op = SecondQuantizedOperator(u, l, itype)
    sp = [i[0].lower() for i in u + l]
    want = all(i[0].lower() != 'c' for i in u) and all(i[0].lower() != 'v' for i in l) and set(sp) != {'a'}
    require(op.is_possible_excitation() == want, f"is_possible_excitation of {op}")
    require(op.is_particle_conserving() == (len(u) == len(l)) and op.is_empty() == (not u + l), "operator predicates")
    require(op.void().is_empty() and op.void().indices_type is op.indices_type, "void operator")
    return {"nontrivial": len(u) + len(l) > 1, "tags": ["pair", itype]}


def closure(gens, n):
    """ all elements generated, as tuples """
    ident = tuple(range(n))
    seen, todo = {ident}, [ident]
    while todo:
        p = todo.pop()
        for g in gens:
            q = tuple(g[i] for i in p)
            if q not in seen:
                seen.add(q)
                todo.append(q)
    return seen


def elements(bsgs, n):
    base, gens = bsgs
    return closure([tuple(list(g.array_form) + list(range(len(g.array_form), n + 2))) for g in gens], n + 2)


def group_case(case):
    import numpy as np
    itype, k, herm, obj = case["type"], case["k"], case["herm"], case["obj"]
    u, l = [f"g{i}" for i in range(k)], [f"g{i + k}" for i in range(k)]
    n = 2 * k
    if obj == "op":
        els = elements(SecondQuantizedOperator(u, l, itype).base_strong_generating_set(), n)
        order = 1 if itype == "sa" else factorial(k) ** 2
    else:
        els = elements(Tensor(u, l, itype, name="V").base_strong_generating_set(hermitian=herm), n)
        order = factorial(k) if itype == "sa" else factorial(k) ** 2
        if herm:
            order *= 2
    require(len(els) == order, f"symmetry group of a {k}-body {itype} {obj} has {len(els)} elements, expected {order}")
    if obj == "tensor":
        if itype == "sa":
            arr = get_model((1, 1, 1), 1, herm, 8, 'spin', True).spinfree("V", k)
        else:
            arr = get_model((1, 2, 1), 1, herm).tensor("V", k)
        for e in els:
            s = 1.0 if e[n] == n else -1.0
            require(np.allclose(s * arr.transpose(list(e[:n])), arr), f"{e} is not a symmetry of the tensor")
    elif itype != "sa":
        for e in els:
            a, b = e[:k], e[k:n]
            require(sorted(a) == list(range(k)), "operator symmetry mixes creation and annihilation operators")
            s = (1 if e[n] == n else -1)
            require(s == parity(list(range(k)), list(a)) * parity(list(range(k, n)), list(b)), f"sign of {e}")
    return {"nontrivial": k > 1 or herm, "tags": ["group", itype]}


def rect_case(case):
    a, b = case["nu"], case["nl"]
    x = SecondQuantizedOperator([f"g{i}" for i in range(a)], [f"g{i + a}" for i in range(b)], 'so')
    els = elements(x.base_strong_generating_set(), a + b)
    require(len(els) == factorial(a) * factorial(b), f"symmetry group of a ({a},{b}) operator has {len(els)} elements")
    return {"nontrivial": a + b > 1, "tags": ["rect"]}


def narrow_case(case):
    u, l = case["u"], case["l"]
    cls = {"L": Cumulant, "C": HoleDensity, "K": Kronecker}[case["name"]]
    t = cls([f"{u}0"], [f"{l}1"], 'si')
    want = SUB[u] & SUB[l]
    want -= {"L": {'v', 'V'}, "C": {'c', 'C'}, "K": set()}[case["name"]]
    got = t.downgrade_indices()
    require((SUB[got] if got else set()) == want, f"{t!r} narrows to '{got}', expected the spaces {sorted(want)}")
    if case["name"] == "C":
        # eta = delta - lambda, on every pair of spaces
        ex = t.expand()
        kinds = sorted((type(x) for x in ex), key=lambda x: x is Cumulant)
        require(kinds in ([Kronecker], [Kronecker, Cumulant]), f"expansion of {t!r}: {ex}")
        if Cumulant not in kinds:
            require(not ((SUB[u] & SUB[l]) - {'v', 'V'}), f"expansion of {t!r} misses the cumulant")
    return {"nontrivial": bool(want), "tags": ["narrow"]}


def label_case(case):
    s = set(case["set"])
    got = find_space_label(s)
    want = set().union(*[SUB[x] for x in s])
    require(SUB[got] == want, f"label of {sorted(s)} is {got}")
    return {"nontrivial": True, "tags": ["label"]}

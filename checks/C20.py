"""Cost estimates: contraction paths, their optimum, and counts of orbital spaces."""
import importlib
from collections import Counter
from itertools import combinations
from hypothesis import strategies as st
from checks.common import frozen, require
from lib import gen
from lib.sut import MOSpaceCounter, SecondQuantizedOperator, mk, mk_term

ID = "C20"
RULE = ("terms with 1-5 tensors (all index types, densities included): every pairwise contraction order is listed once with "
        "the largest operation and intermediate along it, the reported optimum is the least of them and its path attains "
        "it; cost counters: spaces added up over spins, composite spaces filed under core or virtual, order by total then "
        "virtual, core, active; counts of labels shared by two tensors; all against brute force; non-trivial: at least 2 "
        "tensors with a shared label, or counters that differ")
ASSUMPTIONS = ["terms have at least one tensor and no diagonal labels"]
EXAMPLES = {"quick": 3500, "thorough": 20000}
BUDGET = {"quick": 150, "thorough": 1500}


@st.composite
def strategy(draw, tier="quick"):
    kind = draw(st.sampled_from(["path", "path", "path", "counter", "shared", "shared"]))
    if kind == "path":
        return {"kind": kind, "t": draw(gen.typed_term(max_tensors=3, max_dens=2, max_open=6, densities=(
            ('L', 1), ('L', 1), ('L', 2), ('K', 1), ('C', 1))))}
    if kind == "counter":
        n = st.dictionaries(st.sampled_from("cavhpgCAVHPG"), st.integers(0, 4), max_size=6)
        return {"kind": kind, "a": draw(n), "b": draw(n)}
    t = draw(st.sampled_from(["so", "si", "sa"]))
    sp = "gphvcaGPHVCA" if t == "si" else "gphvca"
    lab = st.lists(st.tuples(st.sampled_from(sp), st.integers(0, 1)).map(lambda x: f"{x[0]}{x[1]}"), max_size=4, unique=True)
    return {"kind": kind, "type": t, "x": [[draw(lab), draw(lab)] for _ in range(4)],
            "op": [draw(st.booleans()) for _ in range(4)]}


def size(spaces):
    """ (total, virtual, core, active): composite particle-like spaces count as virtual, hole-like as core """
    s = [x.lower() for x in spaces]
    return (len(s), sum(x in "vpg" for x in s), sum(x in "ch" for x in s), s.count("a"))


def stated(counter):
    return (counter.overall_scaling,) + tuple(counter.parsed_counter)


def orders(items):
    """ all sequences of pairwise contractions; items: frozensets of labels """
    if len(items) == 1:
        yield (0, 0, 0, 0), (0, 0, 0, 0)
        return
    for i, j in combinations(range(len(items)), 2):
        a, b = items[i], items[j]
        comp, stor = size([x[0] for x in a | b]), size([x[0] for x in a ^ b])
        for c, s in orders([x for n, x in enumerate(items) if n not in (i, j)] + [a ^ b]):
            yield max(c, comp), max(s, stor)


def tree(path):
    """ (labels, largest operation, largest intermediate, leaves) of a nested pair of tensors """
    if not isinstance(path, tuple):
        return frozenset(str(i) for i in path.indices()), (0, 0, 0, 0), (0, 0, 0, 0), [path]
    require(len(path) == 2, lambda: f"step of {len(path)} tensors in {path!r}")
    (a, ca, sa, la), (b, cb, sb, lb) = tree(path[0]), tree(path[1])
    return (a ^ b, max(ca, cb, size([x[0] for x in a | b])), max(sa, sb, size([x[0] for x in a ^ b])), la + lb)


def leaf(t):
    return (t.name, tuple(map(str, t.upper_indices)), tuple(map(str, t.lower_indices)))


def run_path(case):
    t = mk_term(case["t"])
    before = frozen([t])
    sets = [frozenset(str(i) for i in x.indices()) for x in t.list_of_tensors]
    n = len(sets)
    got = list(t.contraction_paths())
    (cc, cp), (sc, sp) = t.optimal_contraction_cost()
    require(frozen([t]) == before, "the term was changed")
    if n == 1:
        one = size([x[0] for x in sets[0]])
        require(len(got) == 1 and stated(got[0][0]) == stated(got[0][1]) == one, f"single tensor: {got}")
        require(stated(cc) == stated(sc) == one and cp is None and sp is None, f"single tensor: {cc} {sc} {cp} {sp}")
        return False
    ref = Counter(orders(sets))
    have = Counter((stated(c), stated(s)) for c, s, _ in got)
    require(have == ref, lambda: f"costs of all contraction orders of {t}: {have - ref} too many, {ref - have} missing")
    want = Counter(leaf(x) for x in t.list_of_tensors)
    for c, s, p in got + [(cc, None, cp), (None, sc, sp)]:
        _, pc, ps, leaves = tree(p)
        require(Counter(leaf(x) for x in leaves) == want, lambda: f"path {p!r} does not use every tensor of {t} once")
        require(c is None or stated(c) == pc, lambda: f"path {p!r}: largest operation {pc}, stated {c}")
        require(s is None or stated(s) == ps, lambda: f"path {p!r}: largest intermediate {ps}, stated {s}")
    require(stated(cc) == min(c for c, _ in ref), f"least operation count is {min(c for c, _ in ref)}, stated {cc}")
    require(stated(sc) == min(s for _, s in ref), f"least storage is {min(s for _, s in ref)}, stated {sc}")
    return any(a & b for a, b in combinations(sets, 2))


def run_counter(case):
    out = []
    for d in (case["a"], case["b"]):
        arg = dict(d)
        m = MOSpaceCounter(arg)
        require(arg == d, "the input was changed")
        spaces = [k for k, v in d.items() for _ in range(v)]
        require(stated(m) == size(spaces), f"{d}: {stated(m)}, expected {size(spaces)}")
        raw = Counter(x.lower() for x in spaces)
        require({k: v for k, v in m.raw_counter.items() if v} == dict(raw), f"{d}: raw {m.raw_counter}")
        require({k: v for k, v in (x.split("^") for x in repr(m).split())} ==
                {k: str(v) for k, v in m.raw_counter.items()}, f"{d}: printed {m!r}")
        out.append((m, size(spaces)))
    (a, x), (b, y) = out
    require((a < b, a <= b, a > b, a >= b) == (x < y, x <= y, x > y, x >= y), f"order of {a!r} and {b!r}")
    return x != y


def run_shared(case):
    SC = importlib.import_module("SpaceCounter").SpaceCounter
    t = case["type"]
    objs = [SecondQuantizedOperator(u, l, t) if o else mk("V", u, l, t) for (u, l), o in zip(case["x"], case["op"])]
    prio = "gphvca" if t == "so" else "gphvcaGPHVCA"
    res = []
    for i, j in ((0, 1), (2, 3), (1, 0)):
        c = SC(objs[i], objs[j])
        (u1, l1), (u2, l2) = case["x"][i], case["x"][j]
        up, lo = set(u1) & set(l2), set(l1) & set(u2)
        w = ([sum(x[0] == s for x in up) for s in prio], [sum(x[0] == s for x in lo) for s in prio])
        require((list(c.upper), list(c.lower)) == w, f"shared labels of {objs[i]} and {objs[j]}: {c}")
        require((c.n_upper, c.n_lower, c.size) == (len(up), len(lo), len(up) + len(lo)), f"sizes of {c}")
        tr = c.transpose()
        require((list(tr.upper), list(tr.lower), tr.n_upper, tr.n_lower) == (w[1], w[0], len(lo), len(up)),
                f"transpose of {c} is {tr}")
        require((list(c.upper), list(c.lower)) == w, "transpose changed its object")
        res.append((c, (len(up) + len(lo),) + w))
    for a, x in res:
        for b, y in res:
            require((a == b, a != b, a < b, a <= b, a > b, a >= b) == (x == y, x != y, x < y, x <= y, x > y, x >= y),
                    f"comparison of {a} and {b}")
    require(res[0][0].transpose() == res[2][0], "exchanging the tensors is not the transpose")
    return res[0][1][0] + res[1][1][0] > 0


def run(case):
    k = case["kind"]
    nt = {"path": run_path, "counter": run_counter, "shared": run_shared}[k](case)
    tags = [k] + ([f"tensors{len(case['t']['tensors'])}", case["t"]["type"]] if k == "path" else [])
    return {"nontrivial": bool(nt), "tags": tags}

"""Operator contractions are enumerated exactly once, with the right sign."""
from collections import Counter
from itertools import combinations, product
from hypothesis import strategies as st
from checks.common import Violation, require
from lib.model import parity_sort
from lib.sut import SecondQuantizedOperator, ipart, quiet, sqc

ID = "C08"
RULE = ("2-5 strings of creation/annihilation operators (0-5 of each, also number non-conserving and diagonal ones, "
        "labels of all spaces), cumulant truncation 1-5, open-operator window, connected-only or all contractions, "
        "hole densities expanded or not: the generated multiset {(sign, densities, open operators)} against an "
        "independent enumeration over operator positions; plus elementary contractions and integer partitions against "
        "brute force; non-trivial: at least two contractions")
ASSUMPTIONS = ["spin-orbital labels", "for four or more operators the connected-only search is known to skip some "
               "contractions (known finding); there the result must lie between the reference and the reference "
               "without the skipped ones", "cases with more than 8000 contractions are not compared"]
EXAMPLES = {"quick": 420, "thorough": 6000}
BUDGET = {"quick": 150, "thorough": 1800}
SUB = {'c': {'c'}, 'a': {'a'}, 'v': {'v'}, 'p': {'a', 'v'}, 'h': {'c', 'a'}, 'g': {'c', 'a', 'v'}}
LIMIT = 8000


@st.composite
def strategy(draw, tier="quick"):
    if draw(st.integers(0, 19)) == 0:
        return {"mode": "partition", "n": draw(st.integers(1, 14))}
    n_ops = draw(st.sampled_from([2, 2, 3, 3, 4, 5]))
    tall = n_ops == 2 and draw(st.integers(0, 3)) == 0       # four or five creators or annihilators on one operator
    cap = {2: 3, 3: 2, 4: 2, 5: 1}[n_ops]
    ops, n = [], {}
    diag = draw(st.integers(0, 4)) == 0
    spaces = draw(st.sampled_from(['aaghpcv', 'ghp', 'cv', 'aghp', 'hp']))
    left = 10 if n_ops < 4 else 9
    shape = draw(st.sampled_from([[(4, 0), (0, 4)], [(4, 1), (1, 4)], [(0, 4), (4, 0)], [(1, 4), (4, 1)], [(4, 2), (0, 2)],
                                  [(5, 0), (0, 5)], [(2, 0), (2, 4)], [(1, 4), (3, 0)]])) if tall else None
    for i_op in range(n_ops):
        k = draw(st.integers(1, cap))
        k2 = k if draw(st.integers(0, 2)) else draw(st.integers(0, cap))
        if tall:
            k, k2 = shape[i_op]
            spaces = draw(st.sampled_from(['a', 'a', 'aghp']))
        k = min(k, left)
        left -= k
        k2 = min(k2, left)
        left -= k2
        lab = []
        for _i in range(k + k2):
            s = draw(st.sampled_from(spaces))
            lab.append(f"{s}{n.get(s, 0)}")
            n[s] = n.get(s, 0) + 1
        cre, ann = lab[:k], lab[k:]
        if diag and cre and ann:
            ann[0] = cre[-1]
        ops.append([cre, ann])
    ops = [o for o in ops if o[0] or o[1]]
    tot = sum(len(a) + len(b) for a, b in ops)
    hi = draw(st.sampled_from([tot, tot, tot + 2, 6, 4, 2, 0]))
    lo = min(hi, draw(st.sampled_from([0, 0, 0, 1, 2, 4, tot, tot + 2])))
    return {"mode": "ops", "ops": ops, "max_cu": draw(st.sampled_from([3, 4, 4, 5] if tall else [1, 1, 2, 2, 3, 4])),
            "max_open": hi, "min_open": lo, "connected": draw(st.booleans()),
            "expand": draw(st.booleans())}


def fixed(tier):
    big = {"mode": "large", "n": 1150}
    return [dict(big, connected=False), dict(big, connected=True)]


# --------------------------------------------------------------------------------------------- reference
def reference(ops, max_cu, lo, hi, connected, strict=True):
    """ -> (full: Counter, dropped: set) over keys (sign, densities, open cre, open ann); densities are
    (kind, upper, lower) with labels in the order of their positions """
    mic = []      # (position, is_cre, op, label)
    for o, (cre, ann) in enumerate(ops):
        for x in cre:
            mic.append((True, o, x))
        for x in reversed(ann):
            mic.append((False, o, x))
    N = len(mic)
    out, dropped = Counter(), set()

    def density_ok(cre, ann):
        if len(cre) == 1:
            c, a = cre[0], ann[0]
            if mic[c][1] == mic[a][1]:
                return None
            ov = SUB[mic[c][2][0]] & SUB[mic[a][2][0]]
            if mic[c][1] < mic[a][1]:
                return 'L' if ov - {'v'} else None
            return 'C' if ov - {'c'} else None
        if any(mic[i][2][0] in 'cv' for i in cre + ann):
            return None
        if len({mic[i][1] for i in cre + ann}) == 1:
            return None
        return 'L'

    def finish(chosen, opened):
        if not lo <= len(opened) <= hi:
            return
        if connected:
            if not chosen or all(len(c) > 1 for _, c, _ in chosen):
                return
            groups = [{mic[i][1] for i in c + a} for _, c, a in chosen]
            comp = set(groups[0])
            grew = True
            while grew:
                grew = False
                for g in groups:
                    if comp & g and not g <= comp:
                        comp |= g
                        grew = True
            if comp != set(range(len(ops))):
                return
        order = []
        for kind, c, a in chosen:
            order += [a[0], c[0]] if kind == 'C' else list(c) + list(reversed(a))
        oc = [i for i in opened if mic[i][0]]
        oa = [i for i in opened if not mic[i][0]]
        # annihilators are written right to left: a^{c}_{a} = c.. a_n .. a_1, keys hold a_1..a_n
        order += oc + oa
        key = (parity_sort(order),
               tuple(sorted((k, tuple(mic[i][2] for i in c), tuple(mic[i][2] for i in a)) for k, c, a in chosen)),
               tuple(mic[i][2] for i in oc), tuple(mic[i][2] for i in reversed(oa)))
        out[key] += 1
        if sum(out.values()) > LIMIT:
            raise OverflowError
        if connected and len(ops) > 3:
            cats = sorted((tuple(sorted(mic[i][1] for i in c) + sorted(mic[i][1] for i in a)) for _, c, a in chosen),
                          key=lambda x: (len(x), x))
            seen = set(cats[0])
            for c in cats[1:]:
                if seen.isdisjoint(c):
                    dropped.add(key)
                    break
                seen |= set(c)

    def rec(todo, chosen, opened):
        if not todo:
            finish(chosen, opened)
            return
        x, rest = todo[0], todo[1:]
        rec(rest, chosen, opened + [x])
        same = [i for i in rest if mic[i][0] == mic[x][0]]
        other = [i for i in rest if mic[i][0] != mic[x][0]]
        for k in range(1, max_cu + 1):
            for s in combinations(same, k - 1):
                for o in combinations(other, k):
                    mine = (x,) + s
                    cre, ann = (mine, o) if mic[x][0] else (o, mine)
                    kind = density_ok(cre, ann)
                    if kind:
                        used = set(mine + o)
                        rec([i for i in rest if i not in used], chosen + [(kind, cre, ann)], opened)

    rec(list(range(N)), [], [])
    return out, dropped


def expand(counter):
    out = Counter()
    for (sign, dens, oc, oa), n in counter.items():
        holes = [d for d in dens if d[0] == 'C']
        rest = [d for d in dens if d[0] != 'C']
        for pick in product(*[('K',) if 'v' in (h[1][0][0], h[2][0][0]) else ('K', 'L') for h in holes]):
            d = tuple(sorted(rest + [(p, h[1], h[2]) for p, h in zip(pick, holes)]))
            out[(sign * (-1) ** pick.count('L'), d, oc, oa)] += n
    return out


def normalize(ops, batches):
    """ multiset of the code's contractions, labels of every object brought to position order """
    posc = {x: i for i, x in enumerate(x for o in ops for x in o[0])}
    posa, i = {}, 0
    for o in ops:
        for x in reversed(o[1]):
            posa[x] = i
            i += 1
    # densities list annihilators in the order of their reversed positions (see reference: reversed(a))
    out = Counter()

    def order(labels, pos):
        p = [pos[x] for x in labels]
        s = parity_sort(p)
        return s, tuple(sorted(labels, key=pos.get))

    for batch in batches:
        for sign, dens, op in batch:
            ds = []
            for d in dens:
                su, u = order([str(x) for x in d.upper_indices.indices], posc)
                sl, l = order([str(x) for x in d.lower_indices.indices], posa)
                sign *= su * sl
                ds.append((d.name, u, l))
            sc, c = order([str(x) for x in op.cre_ops.indices], posc)
            sa, a = order([str(x) for x in op.ann_ops.indices], posa)
            # position order of annihilators is the reverse of the written order
            k = len(a)
            out[(sign * sc * sa * (-1) ** (k * (k - 1) // 2), tuple(sorted(ds)), c, tuple(reversed(a)))] += 1
    return out


def partitions(n, m=None):
    m = n if m is None else m
    if n == 0:
        return [[]]
    return [[k] + p for k in range(min(n, m), 0, -1) for p in partitions(n - k, k)]


def run(case):
    if case["mode"] == "partition":
        n = case["n"]
        got = [tuple(x) for x in ipart.integer_partition(n)]
        ref = Counter(tuple(x) for x in partitions(n))
        require(Counter(tuple(sorted(x, reverse=True)) for x in got) == ref, f"partitions of {n}: {got}")
        for z in (False, True):
            s = ipart.integer_separation(n, z)
            require(Counter(s) == Counter((i, n - i) for i in range(n + 1) if z or 0 < i < n), f"separations of {n}: {s}")
        return {"nontrivial": n > 2, "tags": ["partition"]}
    if case["mode"] == "large":
        n = case["n"]
        ops = [SecondQuantizedOperator(["a0"], []), SecondQuantizedOperator([], [f"a{i}" for i in range(1, n + 1)])]
        with quiet():
            got = [x for b in sqc.compute_operator_contractions(ops, 1, 2 * n, 0, case["connected"], False) for x in b]
        want = n + (0 if case["connected"] else 1)
        require(len(got) == want, f"a^0 with {n} annihilators: {len(got)} contractions, expected {want}")
        return {"nontrivial": True, "tags": ["large"]}
    ops = case["ops"]
    tags = [f"ops{len(ops)}", "connected" if case["connected"] else "all"]
    try:
        full, dropped = reference(ops, case["max_cu"], case["min_open"], case["max_open"], case["connected"])
    except OverflowError:
        return {"nontrivial": False, "tags": ["too_many"]}
    sq = [SecondQuantizedOperator(list(c), list(a)) for c, a in ops]
    with quiet():
        got = normalize(ops, sqc.compute_operator_contractions(sq, case["max_cu"], case["max_open"], case["min_open"],
                                                               case["connected"], case["expand"]))
        ele = list(sqc.compute_elementary_contractions_list(sq, case["max_cu"]))
    ref = expand(full) if case["expand"] else full
    low = ref
    if case["connected"] and len(ops) > 3 and not case.get("strict"):
        part = Counter({k: v for k, v in full.items() if k not in dropped})
        low = expand(part) if case["expand"] else part
    # the same product of labels may arise in several ways only for diagonal labels; compare with multiplicity
    for k in set(got) | set(ref):
        if not low[k] <= got[k] <= ref[k]:
            opp = (-k[0],) + k[1:]
            raise Violation(f"contraction {k}: generated {got[k]} times, expected {ref[k]}"
                            + (" (generated with the opposite sign)" if got[opp] > ref[opp] else ""))
    # elementary contractions: a single density, everything else open
    if not case["connected"]:
        one = Counter()
        f2, _ = reference(ops, case["max_cu"], 0, 99, False) if (case["min_open"], case["max_open"]) != (0, 99) else (full, 0)
        for (s, d, c, a), n in f2.items():
            if len(d) == 1:
                one[(d[0][0], frozenset(d[0][1]), frozenset(d[0][2]))] += n
        e = Counter((d.name, frozenset(str(x) for x in d.upper_indices.indices),
                     frozenset(str(x) for x in d.lower_indices.indices)) for d in ele)
        require(e == one, lambda: f"elementary contractions: missing {list((one - e).elements())[:3]}, "
                                  f"extra {list((e - one).elements())[:3]}")
    n = sum(got.values())
    if any(len(a) != len(b) for a, b in ops):
        tags.append("non-conserving")
    if any(set(a) & set(b) for a, b in ops):
        tags.append("diagonal")
    if dropped:
        tags.append("has_known_skipped")
    return {"nontrivial": n > 1, "tags": tags}


def known_findings():
    base = {"mode": "ops", "min_open": 0, "max_open": 99, "connected": True, "expand": False, "strict": True}
    return {"connected-4ops-a": dict(base, ops=[[["h2"], ["p2"]], [["g0"], ["g1"]], [["p0"], ["h0"]], [["p1"], ["h1"]]],
                                     max_cu=1),
            "connected-4ops-b": dict(base, ops=[[["c2"], ["v2"]], [["g0", "g1"], ["g2", "g3"]], [["v0"], ["c0"]],
                                                [["v1"], ["c1"]]], max_cu=1),
            "connected-4ops-c": dict(base, ops=[[["g0"], ["g1"]], [["p0"], ["h0"]], [["p1"], ["h1"]], [["p2"], ["h2"]]],
                                     max_cu=2)}

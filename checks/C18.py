"""Equality, order and hash of all objects are consistent with their content."""
from fractions import Fraction
from functools import cmp_to_key
from hypothesis import strategies as st
from checks.common import frozen, require, skeleton
from lib import gen
from lib.sut import Index, Indices, IndicesPair, MOSpaceCounter, SecondQuantizedOperator, Tensor, Term, mk, mk_term, quiet

ID = "C18"
RULE = ("pools of 2-6 objects of one kind (labels, label lists, index pairs, operators, tensors, terms), with deliberate "
        "near-duplicates (equal content built independently, one label, name or coefficient changed, other spelling of a "
        "number): equality iff same content, equal objects hash equally and are one set element, < is a strict total "
        "order with <=, >, >= consistent, and sorting does not depend on the initial order; non-trivial: the pool holds "
        "an equal pair and an unequal one")
ASSUMPTIONS = ["one index type per pool (comparisons across types are refused)",
               "terms with coefficients that are equal up to rounding (order not checked among those) or differ by more than 1e-6"]
EXAMPLES = {"quick": 4000, "thorough": 25000}
BUDGET = {"quick": 150, "thorough": 1500}


# "W:T" is a cluster amplitude called W, "V:5" a plain tensor called V of priority 5
NAMES = ["H", "V", "W", "L", "W:T", "W:L", "H:L", "V:5", "V:-1"]


def lab(spaces):
    return st.tuples(st.sampled_from(spaces), st.sampled_from([0, 1, 2, 3, 9, 10, 11])).map(lambda x: f"{x[0]}{x[1]}")


def labs(spaces, n):
    return st.lists(lab(spaces), min_size=0, max_size=n, unique=True)


@st.composite
def strategy(draw, tier="quick"):
    kind = draw(st.sampled_from(["index", "indices", "pair", "op", "tensor", "tensor", "term", "term", "counter"]))
    itype = draw(st.sampled_from(["so", "si", "sa"]))
    sp = "gphvca" if itype == "so" else "gcaGCA" if itype == "si" else "gpv"
    pool = []
    for _ in range(draw(st.integers(1, 3))):
        if kind == "index":
            pool.append([draw(lab("gphvcaGPHVCA"))])
        elif kind == "indices":
            pool.append([draw(labs(sp, 4))])
        elif kind in ("pair", "op"):
            pool.append([draw(labs(sp, 3)), draw(labs(sp, 3))])
        elif kind == "tensor":
            n = draw(st.integers(0, 3))
            mkl = st.lists(lab("cv" if itype != "si" else "cvCV"), min_size=n, max_size=n, unique=True)
            pool.append([draw(st.sampled_from(NAMES)), draw(mkl), draw(mkl)])
        elif kind == "counter":
            pool.append([draw(st.dictionaries(st.sampled_from("cavhpgCAV"), st.integers(0, 3), max_size=4))])
        else:
            c = draw(gen.typed_term(types=(itype,), max_tensors=2, max_dens=1, max_open=4))
            pool.append([c])
    for _ in range(draw(st.integers(1, 3))):
        x = pool[draw(st.integers(0, len(pool) - 1))]
        how = draw(st.sampled_from(["same", "same", "change"]))
        if kind == "term":
            c = dict(x[0])
            if how == "change":
                w = draw(st.integers(0, 2))
                if w == 0:
                    c["coeff"] = -c["coeff"]
                elif w == 1:
                    c["coeff"] = c["coeff"] * 1.5
                else:
                    c["tensors"] = [[("V" if n == "H" else n), u, l] for n, u, l in c["tensors"]]
            else:
                c["tensors"] = c["tensors"][::-1]      # terms keep their tensors sorted
                if draw(st.booleans()):                # the same number up to rounding
                    c["coeff"] = c["coeff"] * (1 + draw(st.sampled_from([-2, -1, 1, 2])) * 2.3e-16)
            pool.append([c])
        elif kind == "index":
            pool.append([x[0][0] + draw(st.sampled_from(["0", "00", ""])) + x[0][1:]] if how == "same" else [draw(lab("gcGC"))])
        elif kind == "counter":
            pool.append([dict(reversed(list(x[0].items())))] if how == "same" else [dict(x[0], c=x[0].get("c", 0) + 1)])
        else:
            y = [list(z) if isinstance(z, list) else z for z in x]
            if how == "change":
                y[-1] = y[-1][::-1] if len(y[-1]) > 1 else (y[-1] + ["c9"] if kind != "tensor" and "c9" not in y[-1] else y[-1])
                if kind == "tensor":
                    y[0] = draw(st.sampled_from(NAMES))
            pool.append(y)
    order = list(draw(st.permutations(range(len(pool)))))
    return {"kind": kind, "type": itype, "pool": [pool[i] for i in order],
            "shuffle": list(draw(st.permutations(range(len(pool)))))}


def build(kind, itype, x):
    """ (object, content key) """
    if kind == "index":
        return Index(x[0]), (x[0][0], int(x[0][1:]))
    if kind == "indices":
        return Indices.make_indices(x[0], itype), tuple(x[0])
    if kind == "pair":
        return IndicesPair(x[0], x[1], itype), (tuple(x[0]), tuple(x[1]))
    if kind == "op":
        return SecondQuantizedOperator(x[0], x[1], itype), (tuple(x[0]), tuple(x[1]))
    if kind == "tensor":
        if itype == "si" and x[0][0] != "V":           # labels may not conserve spin
            x = ["V:5" if ":" in x[0] else "V"] + x[1:]
        if ":" in x[0]:
            name, cls = x[0].split(":")
            key = (x[0], tuple(x[1]), tuple(x[2]))
            if name == "V":
                return Tensor(list(x[1]), list(x[2]), itype, name=name, priority=int(cls)), key
            if cls == "T" and {i[0] for i in x[1]} <= {"c"} and {i[0] for i in x[2]} <= {"v"} or cls == "L":
                return Tensor.make_tensor(cls, list(x[1]), list(x[2]), itype, name), key
            return Tensor(list(x[1]), list(x[2]), itype, name=name, priority=1), key
        return mk(x[0], x[1], x[2], itype), (x[0], tuple(x[1]), tuple(x[2]))
    if kind == "counter":
        c = {}
        for k, v in x[0].items():
            c[k.lower()] = c.get(k.lower(), 0) + v
        return MOSpaceCounter(dict(x[0])), tuple(sorted(c.items()))
    t = mk_term(x[0])
    return t, (tuple(sorted(skeleton(t)[0])), skeleton(t)[1:], Fraction(t.coeff).limit_denominator(10 ** 6))


def parsed(counter):
    """ documented reading of a cost: h counts as core, p and g as virtual """
    c = dict(counter)
    v = c.get("v", 0) + c.get("p", 0) + c.get("g", 0)
    return [sum(c.values()), v, c.get("c", 0) + c.get("h", 0), c.get("a", 0)]


def run(case):
    kind = case["kind"]
    objs = [build(kind, case["type"], x) for x in case["pool"]]
    eq = ne = 0
    for a, ka in objs:
        for b, kb in objs:
            same = ka == kb
            require((a == b) is same, f"{a!r} == {b!r} is {a == b}")
            require((a != b) is (not same), f"{a!r} != {b!r} is {a != b}")
            if kind == "counter":
                pa, pb = parsed(ka), parsed(kb)
                require((a < b, a <= b, a > b, a >= b) == (pa < pb, pa <= pb, pa > pb, pa >= pb),
                        f"order of {a!r} and {b!r}: {(a < b, a <= b, a > b, a >= b)}")
                require(a.overall_scaling == pa[0], f"scaling of {a!r}")
                eq, ne = eq + (same and a is not b), ne + (not same)
                continue
            lt, gt = a < b, a > b
            if kind == "term" and same and a.coeff != b.coeff:
                require(hash(a) == hash(b), f"equal objects {a!r} and {b!r} have different hashes")
                require(len({a, b}) == 1, f"{a!r} and {b!r} are two set elements")
                continue                               # < may see the rounding
            require(bool(lt) + bool(gt) + same == 1, f"{a!r} and {b!r}: < {lt}, == {same}, > {gt}")
            require((b > a) == lt and (b < a) == gt, f"{a!r} < {b!r} but not {b!r} > {a!r}")
            require((a <= b) == (lt or same) and (a >= b) == (gt or same), f"<=, >= of {a!r} and {b!r}")
            if same:
                require(hash(a) == hash(b), f"equal objects {a!r} and {b!r} have different hashes")
                require(len({a, b}) == 1, f"{a!r} and {b!r} are two set elements")
                require({a: 1}.get(b) == 1, f"{b!r} does not find {a!r} in a dictionary")
                if a is not b:
                    eq += 1
            else:
                ne += 1
            if kind == "term":
                w = ka[:2] == kb[:2]
                require(a.almost_equal(b) is w, f"almost_equal of {a!r} and {b!r} is {not w}")
    if kind != "counter":
        for a, _ in objs:
            for b, _ in objs:
                for c, _ in objs:
                    require(not (a < b and b < c) or a < c, f"order is not transitive: {a!r} {b!r} {c!r}")
        one = [k for _, k in sorted(objs, key=cmp_to_key(lambda x, y: -1 if x[0] < y[0] else int(x[0] > y[0])))]
        lookup = {id(o): k for o, k in objs}
        two = [lookup[id(o)] for o in sorted([objs[i][0] for i in case["shuffle"]])]
        require(one == two, f"sorting depends on the initial order: {one} {two}")
    return {"nontrivial": eq > 0 and ne > 0, "tags": [kind, case["type"]]}

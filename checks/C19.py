"""Malformed input is refused, well-formed input is accepted."""
import re
from collections import Counter
from hypothesis import strategies as st
from checks.common import frozen, require
from lib import gen
from lib.sut import (Index, Indices, IndicesPair, MOSpaceCounter, SecondQuantizedOperator, Tensor, Term,
                     find_space_label, mk, mk_term, poc, quiet, sqc)

ID = "C19"
RULE = ("label names, label lists, tensors, terms, spaces and arguments of the drivers, about half of them with one or "
        "two faults (bad name, repeated label, beta label among spin orbitals, broken spin balance, hole and particle "
        "mixed, dangling or over-used label, mixed index types, wrong lengths or types of settings); accepted exactly if "
        "an independent rule says so, refused with the documented exception class, inputs unchanged; non-trivial: the "
        "input is malformed, or well-formed with at least 2 labels")
ASSUMPTIONS = ["ASCII label names", "beta labels in spin-adapted quantities are not exercised (no rule is documented)"]
EXAMPLES = {"quick": 4500, "thorough": 30000}
BUDGET = {"quick": 150, "thorough": 1500}
ALIAS = {'antisymmetric': 'as', 'asymm': 'as', 'spin-orbital': 'so', 'so': 'so', 'spin-integrated': 'si', 'si': 'si',
         'spin-adapted': 'sa', 'sa': 'sa'}
NAMES = {'H': 'H', 'Hamiltonian': 'H', 'HamiltonianTensor': 'H', 'T': 'T', 't': 'T', 'cluster_amplitude': 'T',
         'L': 'L', 'lambda': 'L', 'cumulant': 'L', 'C': 'C', 'eta': 'C', 'hole_density': 'C', 'K': 'K', 'delta': 'K',
         'Kronecker': 'K'}
ODD = [None, 3, 2.5, ["g0"], {"g": 1}]


def label_ok(x):
    return isinstance(x, str) and re.fullmatch(r"[gphvcaGPHVCA][0-9]+", x) is not None


def key(x):
    return x[0], int(x[1:])


any_label = st.one_of(
    st.tuples(st.sampled_from("gphvca"), st.integers(0, 3)).map(lambda x: f"{x[0]}{x[1]}"),
    st.tuples(st.sampled_from("gphvca"), st.integers(0, 3)).map(lambda x: f"{x[0]}{x[1]}"),
    st.tuples(st.sampled_from("gphvcaGPHVCA"), st.integers(0, 12)).map(lambda x: f"{x[0]}{x[1]}"),
    st.text(alphabet="gpavGPAVxyi0129 -+._,", max_size=4))


def good(spaces, lo, hi):
    return st.lists(st.tuples(st.sampled_from(spaces), st.integers(0, 4)).map(lambda x: f"{x[0]}{x[1]}"),
                    min_size=lo, max_size=hi, unique=True)


@st.composite
def strategy(draw, tier="quick"):
    kind = draw(st.sampled_from(["index", "indices", "indices", "tensor", "tensor", "tensor", "tensor", "term", "term",
                                 "term", "term", "mixed", "compare", "space", "counter", "commutator", "bch", "args",
                                 "method", "method"]))
    c = {"kind": kind}
    if kind == "index":
        c["x"] = draw(st.one_of(any_label, any_label, any_label, st.sampled_from(ODD)))
    elif kind == "indices":
        c["type"] = draw(st.sampled_from(["so", "so", "si", "sa"] + list(ALIAS) + ["", "SO", "spin", "s"]))
        c["how"] = draw(st.sampled_from(["list", "tuple", "str", "objects", "list", "odd"]))
        c["x"] = draw(st.one_of(good("gphvca", 0, 4), good("gcGCPa", 0, 4), st.lists(any_label, max_size=4)))
        if c["how"] == "odd":
            c["x"] = draw(st.sampled_from([None, 3, 2.5, {"g0": 1}, {"set": 1}]))
        elif c["x"] and draw(st.integers(0, 3)) == 0:      # repeat a label, possibly spelled differently
            j = draw(st.integers(0, len(c["x"]) - 1))
            y = c["x"][j]
            c["x"] = list(draw(st.permutations(c["x"] + [y[:1] + draw(st.sampled_from(["", "0"])) + y[1:]])))
        elif c["x"] and c["how"] == "list" and draw(st.integers(0, 5)) == 0:
            c["x"] = c["x"] + [draw(st.sampled_from([None, 3, ["g0"]]))]
    elif kind == "tensor":
        c["type"] = draw(st.sampled_from(["so", "si", "si", "si"]))
        c["name"] = draw(st.sampled_from(["H", "T", "T", "T", "L", "C", "K", "V", "K", "C"] + list(NAMES) + ["nope"]))
        n = draw(st.integers(0, 3)) if NAMES.get(c["name"]) not in ("C", "K") else draw(st.sampled_from([0, 1, 1, 1, 1, 2]))
        m = n if draw(st.integers(0, 5)) else draw(st.integers(0, 3))
        sp = draw(st.sampled_from(["gphvca", "hca", "pva", "g", "ha", "pv", "hp", "hva"])), \
            draw(st.sampled_from(["gphvca", "pva", "hca", "g", "pa", "ch", "pc"]))
        if c["type"] == "si":
            sp = tuple(x + x.upper() for x in sp)
        c["u"], c["l"] = draw(good(sp[0], n, n)), draw(good(sp[1], m, m))
        if c["type"] == "si" and draw(st.booleans()):      # balanced spins
            nb = draw(st.integers(0, min(n, m)))
            c["u"] = [x.upper() if i < nb else x.lower() for i, x in enumerate(c["u"])]
            c["l"] = [x.lower() if i < m - nb else x.upper() for i, x in enumerate(c["l"])]
    elif kind in ("term", "mixed", "method"):
        t = draw(gen.typed_term(types=("so", "so", "si", "sa"), max_tensors=3, max_dens=2, max_open=6, alias=False))
        t = {"tensors": [[n, list(u), list(l)] for n, u, l in t["tensors"]], "op": [list(x) for x in t["op"]],
             "coeff": t["coeff"], "type": t["type"]}
        c["t"] = t
        if kind == "term":
            slots = [(x, i) for _, u, l in t["tensors"] for x in (u, l) for i in range(len(x))]
            slots += [(x, i) for x in t["op"] for i in range(len(x))]
            for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
                how = draw(st.sampled_from(["label", "swap", "drop", "dup", "coeff", "number", "plain", "odd"]))
                if how == "coeff":
                    t["coeff"] = draw(st.sampled_from(["x", "", "0.5", "1", 2, -1, "nan?"]))
                elif how == "drop":
                    if t["tensors"]:
                        del t["tensors"][draw(st.integers(0, len(t["tensors"]) - 1))]
                        slots = [(x, i) for _, u, l in t["tensors"] for x in (u, l) for i in range(len(x))]
                        slots += [(x, i) for x in t["op"] for i in range(len(x))]
                elif how == "dup":
                    if t["tensors"]:
                        t["tensors"].append([x if isinstance(x, str) else list(x)
                                             for x in t["tensors"][draw(st.integers(0, len(t["tensors"]) - 1))]])
                elif slots and how in ("label", "number"):
                    x, i = slots[draw(st.integers(0, len(slots) - 1))]
                    x[i] = (x[i][0] if how == "number" else draw(st.sampled_from("gphca"))) + str(draw(st.integers(0, 9)))
                elif slots and how == "swap":
                    x, i = slots[draw(st.integers(0, len(slots) - 1))]
                    y, j = slots[draw(st.integers(0, len(slots) - 1))]
                    x[i], y[j] = y[j], x[i]
                elif how == "plain":         # same label above and below: a diagonal tensor
                    lab = draw(st.sampled_from(gen.labels(t) or ["g7"]))
                    t["tensors"].append(["V", [lab], [lab]])
                elif how == "odd":           # a diagonal label with an odd number of occurrences
                    half = t["op"][draw(st.integers(0, 1))]
                    if half:
                        lab = half.pop(draw(st.integers(0, len(half) - 1)))
                        t["tensors"].append(["V", [lab], [lab]])
                        slots = [(x, i) for _, u, l in t["tensors"] for x in (u, l) for i in range(len(x))]
                        slots += [(x, i) for x in t["op"] for i in range(len(x))]
        elif kind == "mixed":
            c["which"] = draw(st.sampled_from(["none", "type", "op", "notensor", "noop"]))
            c["other"] = draw(st.sampled_from(["so", "si", "sa"]))
        else:
            c["call"] = draw(st.sampled_from(["diag", "spin", "singlet", "ambit", "canon", "coeff", "perm", "count",
                                              "part", "n_body", "bsgs", "downgrade", "n_beta", "alpha"]))
            c["arg"] = draw(st.sampled_from([0, 1, 2, 3]))
    elif kind == "compare":
        c["a"], c["b"] = draw(st.integers(0, 7)), draw(st.integers(0, 9))
        c["ta"], c["tb"] = draw(st.sampled_from(["so", "si", "sa"])), draw(st.sampled_from(["so", "si", "sa"]))
        c["op"] = draw(st.integers(0, 5))
    elif kind == "space":
        c["x"] = draw(st.lists(st.sampled_from("cavphgCAVxz1"), max_size=3, unique=True))
    elif kind == "counter":
        c["x"] = draw(st.dictionaries(st.sampled_from("cavphgCAVPHGxi"), st.integers(0, 4), max_size=5))
    elif kind in ("commutator", "bch"):
        n = draw(st.integers(0, 2))
        c["n"] = draw(st.sampled_from([n] * 8 + ["1", 1.0, None])) if kind == "bch" else draw(st.integers(0, 3))
        k = c["n"] if isinstance(c["n"], int) else n
        lv = max(k if kind == "bch" else k - 1, 0)
        c["cu"] = draw(st.one_of(st.just(1), st.just([1] * lv), st.lists(st.sampled_from([1, 1, 2, "1", 1.5, None]), max_size=3)))
        c["no"] = draw(st.one_of(st.just([0, 2]), st.just([[0, 2]] * lv),
                                 st.lists(st.one_of(st.just([0, 2]), st.lists(st.sampled_from([0, 2, "2", 2.0]), max_size=3)), max_size=3)))
        if lv and draw(st.booleans()):      # right shape, at most one wrong element
            c["cu"], c["no"] = [1] * lv, [[0, 2] for _ in range(lv)]
            i = draw(st.integers(0, lv - 1))
            how = draw(st.sampled_from(["cu", "no", "no", "short", "ok"]))
            if how == "cu":
                c["cu"][i] = draw(st.sampled_from(["1", 1.0, 1.5, None, [1]]))
            elif how == "no":
                c["no"][i][draw(st.integers(0, 1))] = draw(st.sampled_from(["2", 2.0, 1.5, None]))
            elif how == "short":
                c["no"][i] = draw(st.sampled_from([[0], [], [0, 2, 2]]))
        c["flat"] = draw(st.booleans())
        c["levels"] = draw(st.sampled_from([[1], [1], [1], ["1"], [1.0], [1, None]]))
    else:
        c["call"] = draw(st.sampled_from(["empty", "notterm", "combine", "si", "maxcu", "notop", "nested"]))
        c["arg"] = draw(st.integers(0, 3))
    return c


def outcome(f):
    """ ('ok', value) or ('error', class name) """
    try:
        with quiet():
            return "ok", f()
    except Exception as e:  # noqa
        return type(e).__name__, None


def decide(what, got, want, detail):
    """ want: 'ok' or the name of the documented exception class """
    require(got == want, f"{what} {detail!r}: {'accepted' if got == 'ok' else 'raised ' + got}, "
                         f"expected {'acceptance' if want == 'ok' else want}")


def indices_want(x, itype, how):
    if itype not in ALIAS:
        return "KeyError"
    if how == "odd":
        return "TypeError"
    if any(not label_ok(i) for i in x):
        return "ValueError"
    if len({key(i) for i in x}) != len(x):
        return "ValueError"
    if ALIAS[itype] == "so" and any(i[0].isupper() for i in x):
        return "ValueError"
    return "ok"


def tensor_want(name, u, l, itype):
    kind = NAMES.get(name)
    if name == "nope":
        return "KeyError"
    for x in (u, l):
        w = indices_want(x, itype, "list")
        if w != "ok":
            return w
    if kind in ("C", "K") and not (len(u) == len(l) == 1):
        return "ValueError"
    if kind is None:
        return "ok"
    if len(u) != len(l) or sum(i[0].isupper() for i in u) != sum(i[0].isupper() for i in l):
        return "ValueError"
    if kind == "T":
        for x in (u, l):
            s = {i[0].lower() for i in x}
            if s & set("ch") and s & set("pv"):
                return "ValueError"
    return "ok"


def make(name, u, l, itype):
    if name == "nope" or name in NAMES:
        return Tensor.make_tensor(name, u, l, itype)
    return Tensor(u, l, itype, name=name)


def term_want(t):
    for n, u, l in t["tensors"]:
        w = tensor_want(n, u, l, t["type"])
        if w != "ok":
            return w
    for x in t["op"]:
        w = indices_want(x, t["type"], "list")
        if w != "ok":
            return w
    try:
        float(t["coeff"])
    except ValueError:
        return "ValueError"
    cnt, diag = Counter(), set()
    for u, l in [(u, l) for _, u, l in t["tensors"]] + [tuple(t["op"])]:
        cnt.update([key(i) for i in u + l])
        diag |= {key(i) for i in u} & {key(i) for i in l}
    for k, v in cnt.items():
        if v % 2 if k in diag else v != 2:
            return "ValueError"
    return "ok"


def same_content(obj, u, l):
    return ([(i.space, i.number) for i in obj.upper_indices] == [key(i) for i in u] and
            [(i.space, i.number) for i in obj.lower_indices] == [key(i) for i in l])


OPS = [lambda a, b: a == b, lambda a, b: a != b, lambda a, b: a < b, lambda a, b: a <= b, lambda a, b: a > b,
       lambda a, b: a >= b]


def zoo(i, t):
    """ (object, family, index type or None if the family does not care) """
    x, y = ["c0"], ["v0"]
    if i == 0:
        return Index("c0"), "Index", None
    if i == 1:
        return Indices.make_indices(x, t), "Indices", t
    if i == 2:
        return IndicesPair(x, y, t), "IndicesPair", t
    if i == 3:
        return SecondQuantizedOperator(x, y, t), "SecondQuantizedOperator", t
    if i == 4:
        return mk("H", x, y, t), "Tensor", t
    if i == 5:
        return mk("T", x, y, t), "Tensor", t
    if i == 6:
        return Term([mk("T", x, y, t)], SecondQuantizedOperator(y, x, t)), "Term", t
    if i == 7:
        return MOSpaceCounter({"c": 1}), "MOSpaceCounter", None
    return ("c0" if i == 8 else 3), "other", None


def run(case):
    k = case["kind"]
    nt, tags = True, [k]
    if k == "index":
        x = case["x"]
        got, v = outcome(lambda: Index(x))
        want = "TypeError" if not isinstance(x, str) else "ok" if label_ok(x) else "ValueError"
        decide("Index", got, want, x)
        if got == "ok":
            require((v.space, v.number) == key(x), f"Index({x!r}) has space {v.space} and number {v.number}")
    elif k == "indices":
        x, how = case["x"], case["how"]
        want = indices_want(x, case["type"], how)
        if how == "tuple":
            arg = tuple(x)
        elif how == "str":
            arg = ", ".join(x)
            want = indices_want([i.strip() for i in arg.split(",")] if arg else [], case["type"], how)
        elif how == "objects" and all(label_ok(i) for i in x):
            arg = [Index(i) for i in x]
        else:
            arg = {"g0", "g1"} if isinstance(x, dict) and "set" in x else x
        got, v = outcome(lambda: Indices.make_indices(arg, case["type"]))
        decide("Indices", got, want, (arg, case["type"]))
        if got == "ok":
            ref = [i.strip() for i in arg.split(",")] if how == "str" and arg else [] if how == "str" else x
            require([(i.space, i.number) for i in v] == [key(i) for i in ref] and len(v) == v.size == len(ref),
                    f"Indices({arg!r}) holds {v}")
            nt = len(x) > 1
    elif k == "tensor":
        u, l = case["u"], case["l"]
        got, v = outcome(lambda: make(case["name"], u, l, case["type"]))
        want = tensor_want(case["name"], u, l, case["type"])
        decide("tensor", got, want, case)
        if got == "ok":
            require(same_content(v, u, l), f"tensor of {u} {l} is {v}")
            nt = len(u) + len(l) > 1
    elif k == "term":
        t = case["t"]
        want = term_want(t)
        got, v = outcome(lambda: mk_term(t))
        decide("term", got, want, t)
        if got == "ok":
            require(v.coeff == float(t["coeff"]), f"coefficient {t['coeff']!r} became {v.coeff!r}")
            require(Counter((x.name, tuple(map(str, x.upper_indices)), tuple(map(str, x.lower_indices))) for x in v.list_of_tensors)
                    == Counter((n, tuple(a), tuple(b)) for n, a, b in t["tensors"]), f"tensors of {t} became {v}")
            require(same_content(v.sq_op, *t["op"]), f"operator of {t} became {v.sq_op}")
            nt = len(gen.labels(t)) > 1
        tags.append("valid" if want == "ok" else "invalid")
    elif k == "mixed":
        t, other = case["t"], case["other"]
        tens = [mk(n, u, l, t["type"]) for n, u, l in t["tensors"]]
        op = SecondQuantizedOperator(t["op"][0], t["op"][1], t["type"])
        want = "ok"
        if case["which"] == "type" and t["type"] != "si" and other != t["type"]:
            n, u, l = t["tensors"][0]
            tens[0] = mk(n, u, l, other)
            want = "TypeError"
        elif case["which"] == "op" and t["type"] != "si" and other != t["type"]:
            op = SecondQuantizedOperator(t["op"][0], t["op"][1], other)
            want = "TypeError"
        elif case["which"] == "notensor":
            tens.append(op if other == "so" else "H" if other == "si" else 3)
            want = "TypeError"
        elif case["which"] == "noop":
            op = tens[0] if other == "so" else None
            want = "TypeError"
        got, _ = outcome(lambda: Term(tens, op, 1.0))
        decide("Term of", got, want, case)
        if t["type"] != "si" and other != t["type"]:
            u, l = Indices.make_indices(["c0"], t["type"]), Indices.make_indices(["c1"], other)
            decide("IndicesPair of two index types", outcome(lambda: IndicesPair(u, l))[0], "TypeError", (t["type"], other))
    elif k == "compare":
        (a, fa, ta), (b, fb, tb) = zoo(case["a"], case["ta"]), zoo(case["b"], case["tb"])
        pairs = {"IndicesPair", "SecondQuantizedOperator", "Tensor"}
        if fa in pairs and fb in pairs and fa != fb:
            return {"nontrivial": False, "tags": [k]}        # subclasses of one another: which side refuses is not documented
        if fa == fb == "Term" and ta != tb and case["op"] < 6:
            want = "TypeError"
        else:
            want = "ok" if fa == fb and ta == tb else "TypeError"
        got, _ = outcome(lambda: OPS[case["op"]](a, b))
        decide(f"comparison {case['op']} of", got, want, (a, b))
    elif k == "space":
        x = case["x"]
        got, v = outcome(lambda: find_space_label(set(x)))
        bad = not x or any(i not in "cavphgCAVPHG" for i in x)
        decide("find_space_label", got, "ValueError" if bad else "ok", x)
    elif k == "counter":
        got, v = outcome(lambda: MOSpaceCounter(dict(case["x"])))
        decide("MOSpaceCounter", got, "ValueError" if set(case["x"]) & set("xi") else "ok", case["x"])
    elif k in ("commutator", "bch"):
        run_series(case, k)
    elif k == "method":
        nt = run_method(case)
        tags.append(case["call"])
    else:
        run_args(case)
        tags.append(case["call"])
    return {"nontrivial": bool(nt), "tags": tags}


def run_series(case, k):
    n, cu, no = case["n"], case["cu"], case["no"]
    if k == "commutator":
        ops = [Term([mk("H", ["g1"], ["g0"])], SecondQuantizedOperator(["g0"], ["g1"])),
               Term([mk("T", ["h2"], ["p2"])], SecondQuantizedOperator(["p2"], ["h2"])),
               Term([mk("T", ["h3"], ["p3"])], SecondQuantizedOperator(["p3"], ["h3"]))][:n]
        before = frozen(ops)
        lv = n - 1
    else:
        lv = n
    # one (min, max) for all levels is given as a tuple, one per level as a list
    single = case["flat"] and len(no) == 2 and all(not isinstance(x, list) for x in no)
    if not single and any(not isinstance(x, list) for x in no):
        no = [no]
    want = "ok"
    if k == "commutator" and n < 2 or k == "bch" and not isinstance(n, int):
        want = "ValueError"
    else:
        if k == "bch" and any(not isinstance(x, int) for x in case["levels"]):
            want = "ValueError"
        if not isinstance(cu, int) and (len(cu) != lv or any(not isinstance(x, int) for x in cu)):
            want = "ValueError"
        if not single and (len(no) != lv or any(len(x) != 2 or any(not isinstance(y, int) for y in x) for x in no)):
            want = "ValueError"
    arg = tuple(no) if single else [tuple(x) for x in no]
    if k == "commutator":
        got, v = outcome(lambda: poc.recursive_single_commutator(ops, cu, arg))
        require(frozen(ops) == before, f"the operators were changed: {before} -> {frozen(ops)}")
    else:
        got, v = outcome(lambda: poc.bch_cc_rsc(n, case["levels"], cu, arg, single_reference=True))
        if not isinstance(n, int):
            lv = 0
    decide("recursive_single_commutator" if k == "commutator" else "bch_cc_rsc", got, want, case)
    if got == "ok":
        start = 1 if k == "commutator" else 0
        require(sorted(v) == list(range(start, lv + 1)), f"levels {sorted(v)} for {case}")


def run_method(case):
    t = mk_term(case["t"])
    before = frozen([t])
    ty, call, arg = case["t"]["type"], case["call"], case["arg"]
    nc, na = t.sq_op.n_cre, t.sq_op.n_ann
    nt = True
    if call == "diag":
        want = "ok" if nc == na == 1 else "ValueError"
        if want == "ok" and any(x.name in "LCK" for x in t.list_of_tensors):
            return False                 # only canonical terms can be projected; C14 does that
        got, _ = outcome(lambda: list(t.make_one_body_diagonal(False)))
    elif call == "spin":
        want = "ok" if ty == "so" else "TypeError"
        if ty == "so" and len(t.indices_set) > 6:
            return False
        got, _ = outcome(lambda: list(t.generate_spin_cases_naive()))
    elif call == "singlet":
        if ty == "si":
            return False
        want = "TypeError"
        got, _ = outcome(lambda: list(t.generate_singlet_adaptation()))
    elif call == "ambit":
        name = ["C", 3, None, "Out"][arg]
        want = "ok" if isinstance(name, str) else "TypeError"
        got, _ = outcome(lambda: t.ambit(name=name))
    elif call == "canon":
        lab = str(sorted(t.indices_set, key=str)[0]) if arg % 2 else "g8"
        u = Term(t.list_of_tensors + [mk("V", [lab], [lab], ty)], t.sq_op, t.coeff)
        require({str(i) for i in u.diagonal_indices} == {lab} and len(t.diagonal_indices) == 0,
                f"diagonal labels of {u!r}: {u.diagonal_indices} and of {t!r}: {t.diagonal_indices}")
        want = "NotImplementedError"
        got, _ = outcome(lambda: u.canonicalize())
    elif call == "coeff":
        val = ["0.75", "x", 2, ""][arg]
        want = "ok" if arg in (0, 2) else "ValueError"

        def setit():
            t.coeff = val
        got, _ = outcome(setit)
        if want == "ok":
            require(t.coeff == float(val), f"coefficient set to {val!r} is {t.coeff!r}")
            return True
    elif call == "perm":
        a = Indices.make_indices(["g0", "g1", "c0"], ty)
        b = Indices.make_indices([["c0", "g0", "g1"], ["g0", "g1"], ["g0", "g1", "c1"], ["g0", "g1", "c0", "a0"]][arg], ty)
        want = "ok" if arg == 0 else "ValueError"
        got, _ = outcome(lambda: a.count_permutations(b))
    elif call == "count":
        want = "ok" if arg < 2 else "ValueError"
        got, _ = outcome(lambda: t.sq_op.cre_ops.count_index_space([["g"], ["c", "V"], ["x"], ["g", "1"]][arg]))
    elif call == "part":
        a = Indices.make_indices(["g0", "g1", "c0"], ty)
        g0, g1, c0 = a.indices
        part = [[[g0, g1], [c0]], [[g0], [g1], [c0]], [["g0"], [g1, c0]], [[g0, g1], [Index("v0")]]][arg]
        want = ["ok", "ok", "TypeError", "ValueError"][arg]
        got, _ = outcome(lambda: a.n_multiset_permutation(part))
    elif call == "n_body":
        p = IndicesPair(["g0"], ["g1"] if arg % 2 else ["g1", "g2"], ty)
        want = "ok" if arg % 2 else "ValueError"
        got, _ = outcome(lambda: p.n_body)
    elif call == "bsgs":
        p = IndicesPair(["g0"] if arg else [], ["g1"] if arg else [], ty)
        want = "ok" if arg else "ValueError"
        got, _ = outcome(lambda: p.base_strong_generating_set(arg % 2 == 0))
    elif call == "downgrade":
        x = [mk("L", ["g0"], ["h1"], ty), mk("H", ["c0"], ["v0"], ty), mk("T", ["h0"], ["p0"], ty), mk("V", ["c0"], ["v0"], ty)][arg]
        want = "NotImplementedError" if arg else "ok"
        got, _ = outcome(lambda: x.downgrade_indices())
    elif call == "n_beta":
        a = Indices.make_indices(["g0", "c0"], "so")
        v = [1, 3, "1", 2.0][arg]
        want = ["ok", "ValueError", "TypeError", "TypeError"][arg]
        got, _ = outcome(lambda: list(a.generate_spin_cases(v)))
    else:
        a = t.sq_op.cre_ops
        want = "ok" if ty == "si" else "TypeError"
        got, _ = outcome(lambda: [a.alpha_indices, a.beta_indices, a.spin_count, a.spin_pure][0])
    decide(f"{call} of", got, want, case)
    require(frozen([t]) == before, f"{call} changed the term {before} to {frozen([t])}")
    return nt


def run_args(case):
    call, arg = case["call"], case["arg"]
    h = Term([mk("H", ["g1"], ["g0"])], SecondQuantizedOperator(["g0"], ["g1"]))
    t = Term([mk("T", ["c2"], ["v2"])], SecondQuantizedOperator(["v2"], ["c2"]))
    if call == "empty":
        decide("contract_terms", outcome(lambda: poc.contract_terms([]))[0], "ValueError", [])
    elif call == "notterm":
        x = [h.sq_op, "H", None, h.list_of_tensors[0]][arg]
        decide("contract_terms", outcome(lambda: poc.contract_terms([h, x]))[0], "TypeError", x)
        decide("contract_terms", outcome(lambda: poc.contract_terms([x, h]))[0], "TypeError", x)
    elif call == "combine":
        x = [(h, t), h, {h}, None][arg]
        decide("combine_terms", outcome(lambda: poc.combine_terms(x))[0], "ValueError", x)
        got, v = outcome(lambda: poc.combine_terms([]))
        require(got == "ok" and v == [], f"combine_terms([]): {got} {v}")
    elif call == "si":
        ty = ["si", "sa", "so", "asymm"][arg]
        op = SecondQuantizedOperator(["c0"], ["v0"], ty)
        ops = [op, SecondQuantizedOperator(["v1"], ["c1"], ty)]
        want = "ok" if ty == "so" else "NotImplementedError"
        for f in (sqc.compute_elementary_contractions_list, sqc.compute_elementary_contractions_categorized,
                  lambda o, m: list(sqc.compute_operator_contractions(o, m))):
            decide("contractions of operators of type", outcome(lambda: f(ops, 1))[0], want, ty)
            decide("contractions of operators of type", outcome(lambda: f([SecondQuantizedOperator(["v3"], ["c3"]), op], 1))[0], want, ty)
    elif call == "maxcu":
        v = [1, "1", 1.0, None][arg]
        for f in (sqc.compute_elementary_contractions_list, sqc.compute_elementary_contractions_categorized,
                  lambda o, m: list(sqc.compute_operator_contractions(o, m))):
            decide("max_cu", outcome(lambda: f([h.sq_op, t.sq_op], v))[0], "ok" if arg == 0 else "TypeError", v)
    elif call == "notop":
        x = [h, "a", None, h.list_of_tensors[0]][arg]
        for f in (sqc.compute_elementary_contractions_list, sqc.compute_elementary_contractions_categorized):
            decide("contraction of", outcome(lambda: f([h.sq_op, x], 1))[0], "TypeError", x)
    else:
        n, lv = [("1", [1]), (1.5, [1]), (1, 1), (1, ["1"])][arg]
        decide("nested_commutator_cc", outcome(lambda: poc.nested_commutator_cc(n, lv))[0], "ValueError", (n, lv))

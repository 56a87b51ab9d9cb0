"""Execution options and truncations do not change which terms are right."""
import contextlib
import io
import json
import os
import subprocess
import sys
import tempfile
from hypothesis import strategies as st
from checks.common import frozen, model_for, model_value, require, same_terms, same_value
from lib import gen
from lib.model import get_model
from lib.sut import Cumulant, Kronecker, SecondQuantizedOperator, Term, dump_term, mk_term, poc, quiet, sqc, wff

ID = "C07"
RULE = ("one product of 2-3 random operators, evaluated twice in ways that must agree: serial / worker processes "
        "(term level and contraction level, several batch sizes), a wide open-index window filtered afterwards / a "
        "narrow window, a high cumulant truncation filtered afterwards / a low one, hole densities expanded during / "
        "after, another hash seed in a fresh interpreter (terms, printed equations and saved C++ files); plus fixed products with more contractions than one internal "
        "batch, against the Fock-space product; non-trivial: non-empty result")
ASSUMPTIONS = ["spin-orbital operators"]
EXAMPLES = {"quick": 60, "thorough": 700}
BUDGET = {"quick": 240, "thorough": 2400}


@st.composite
def strategy(draw, tier="quick"):
    mode = draw(st.sampled_from(["nproc", "nproc_con", "window", "window", "cumulant", "cumulant", "hole", "hole",
                                 "hashseed"] if draw(st.integers(0, 3)) else ["window", "cumulant", "hole"]))
    n_ops = draw(st.sampled_from([2, 2, 2, 3]))
    ops, start = [], draw(st.sampled_from([0, 0, 8]))
    for i in range(n_ops):
        o, n = draw(gen.operator(start, max_body=1 if (n_ops == 3 and i) else 2))
        start += n
        ops.append(o)
    if mode == "hashseed":
        ops = [dict(o, tensors=[[n if n in "HTL" else "H", u, l] for n, u, l in o["tensors"]]) for o in ops]
    if mode == "nproc_con":
        for o in ops:   # operators need not conserve the particle number
            side = draw(st.integers(0, 3))
            if side < 2 and len(o["op"][side]) > 1:
                o["op"] = [x[:-1] if i == side else x for i, x in enumerate(o["op"])]
    return {"mode": mode, "ops": ops, "max_cu": draw(st.sampled_from([1, 2, 2, 3])),
            "window": [draw(st.sampled_from([0, 0, 2, 4])), draw(st.sampled_from([8, 6, 4, 4, 2, 0]))],
            "shortcut": draw(st.booleans()), "n_process": draw(st.sampled_from([2, 3, 4])),
            "batch": draw(st.sampled_from([0, 1, 2, 5, 50])), "expand_hole": draw(st.booleans()),
            "hermitian": draw(st.booleans()), "hs": draw(st.integers(0, 1000))}


def fixed(tier):
    g2 = lambda n, s: {"tensors": [[n, [f"g{s + 2}", f"g{s + 3}"], [f"g{s}", f"g{s + 1}"]]],
                       "op": [[f"g{s}", f"g{s + 1}"], [f"g{s + 2}", f"g{s + 3}"]], "coeff": 0.25, "type": "so"}
    s1 = {"tensors": [["T", ["h4"], ["p4"]]], "op": [["p4"], ["h4"]], "coeff": 1.0, "type": "so"}
    t2 = {"tensors": [["T", ["h0", "h1"], ["p0", "p1"]]], "op": [["p0", "p1"], ["h0", "h1"]], "coeff": .25, "type": "so"}
    t2g = {"tensors": [["T", ["h31", "h33"], ["p30", "p32"]]], "op": [["p30", "p32"], ["h31", "h33"]], "coeff": .25,
           "type": "so"}
    out = [{"mode": "batch", "ops": [g2("H", 0), g2("V", 10), t2g], "max_cu": 1, "window": [0, 6], "n_process": 3},
           {"mode": "hashseed", "ops": [g2("H", 2), dict(t2, tensors=[["T", ["c0", "c1"], ["v0", "v1"]]],
                                                         op=[["v0", "v1"], ["c0", "c1"]]),
                                        {"tensors": [["T", ["c4"], ["v4"]]], "op": [["v4"], ["c4"]], "coeff": 1.0,
                                         "type": "so"}],
            "max_cu": 1, "window": [4, 6], "shortcut": True, "expand_hole": True, "hermitian": True, "hs": 7}]
    un = lambda ops: {"mode": "nproc_con", "ops": [{"op": o} for o in ops], "max_cu": 2, "window": [0, 6],
                      "shortcut": True, "expand_hole": True, "n_process": 3, "batch": 2}
    out += [un([[["g0", "g1"], ["g2"]], [["g10"], ["g11", "g12"]]]), un([[["h0"], ["p1", "p2"]], [["g5", "g6"], ["g7"]]])]
    if tier == "thorough":
        out.append({"mode": "batch", "ops": [g2("H", 0), g2("V", 10), t2g], "max_cu": 1, "window": [0, 4],
                    "n_process": 1})
        out.append({"mode": "batch", "ops": [g2("H", 0), t2, s1], "max_cu": 3, "window": [0, 10], "n_process": 2})
        out.append({"mode": "batch", "ops": [g2("H", 0), g2("V", 10), t2g], "max_cu": 2, "window": [0, 2],
                    "n_process": 4})
    return out


def prod(case, **kw):
    lo, hi = case["window"]
    args = dict(max_cu=case["max_cu"], max_n_open=max(lo, hi), min_n_open=min(lo, hi),
                for_commutator=case.get("shortcut", False), expand_hole=case.get("expand_hole", True), n_process=1,
                hermitian_tensor=case.get("hermitian", True))
    args.update(kw)
    terms = [mk_term(o) for o in case["ops"]]
    before = frozen(terms)
    with quiet():
        out = poc.contract_terms(terms, **args)
    require(frozen(terms) == before, "contract_terms modified its input")
    return out


def contractions(case, n_process, batch):
    lo, hi = sorted(case["window"])
    ops = [SecondQuantizedOperator(list(o["op"][0]), list(o["op"][1])) for o in case["ops"]]
    out = []
    with quiet():
        for b in sqc.compute_operator_contractions(ops, case["max_cu"], hi, lo, case["shortcut"], case["expand_hole"],
                                                   n_process, batch):
            out += [(s, tuple(sorted((d.name, str(d.upper_indices), str(d.lower_indices)) for d in den)), str(op))
                    for s, den, op in b]
    return sorted(out)


HELPER = """
import json, sys
sys.path.insert(0, sys.argv[1])
from checks.C07 import prod, texts
from lib.sut import dump_term
terms = prod(json.loads(sys.argv[2]))
print("RESULT" + json.dumps([[dump_term(t) for t in terms], texts(terms)]))
"""


def texts(terms):
    """ everything the package prints or saves for these terms: {name: text} """
    out = {}
    if not terms:
        return out
    for fn in (poc.print_terms_ambit, poc.print_terms_latex):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            fn(terms)
        out[fn.__name__] = buf.getvalue()
    if any(x.name not in "HTL" for t in terms for x in t.list_of_tensors):
        return out
    with quiet():
        cat = poc.categorize_contractions(terms)
    for d in (False, True):
        with tempfile.TemporaryDirectory(prefix="verif_c07_") as tmp, quiet():
            wff.save_terms_ambit_functions(terms, "comm", "CCSD", tmp, add_t_dagger=d, destroy_h=d)
            for block, perms in cat.items():
                if d and len(block) == 6:
                    wff.save_direct_t3(perms, f"comm_{block}", "CCSD", tmp)
            for f in sorted(os.listdir(tmp)):
                out[f"{f} {d}"] = open(os.path.join(tmp, f)).read()
    return out


def run(case):
    mode = case["mode"]
    tags = [mode]
    if mode == "batch":
        model = get_model((1, 3, 1), 1, True, case["max_cu"])
        terms = [mk_term(o) for o in case["ops"]]
        with quiet():
            n = sum(len(b) for b in sqc.compute_operator_contractions([t.sq_op for t in terms], case["max_cu"],
                                                                      case["window"][1], case["window"][0]))
        out = prod(case, n_process=case["n_process"])
        ref = model.product(*[model.value([t]) for t in terms]) * model.n_open_mask(*case["window"])
        same_value(model, model_value(model, out), ref, 'so', f"product with {n} contractions")
        return {"nontrivial": len(out) > 0, "tags": tags + (["over_one_batch"] if n > 10000 else [])}
    if mode == "nproc_con":
        a, b = contractions(case, 1, 1), contractions(case, case["n_process"], case["batch"])
        require(a == b, lambda: f"{case['n_process']} processes give {len(b)} contractions, serial {len(a)}")
        return {"nontrivial": len(a) > 0, "tags": tags}
    base = prod(case)
    if mode == "nproc":
        other = prod(case, n_process=case["n_process"])
    elif mode == "window":
        lo, hi = sorted(case["window"])
        other = [t for t in prod(case, max_n_open=100, min_n_open=0) if lo <= t.sq_op.n_ops <= hi]
    elif mode == "cumulant":
        other = [t for t in prod(case, max_cu=case["max_cu"] + 2)
                 if all(x.n_body <= case["max_cu"] for x in t.list_of_tensors if x.name == 'L')]
    elif mode == "hole":
        base = prod(case, expand_hole=True)
        raw = prod(case, expand_hole=False)
        other = []
        for t in raw:
            work = [(1.0, [])]
            for x in t.list_of_tensors:
                if x.name == 'C':
                    u, l = x.upper_indices, x.lower_indices
                    new = [(c, ts + [Kronecker(u, l)]) for c, ts in work]
                    if not any(i.space == 'v' for i in x.indices()):
                        new += [(-c, ts + [Cumulant(u, l)]) for c, ts in work]
                    work = new
                else:
                    work = [(c, ts + [x]) for c, ts in work]
            with quiet():
                other += [Term(ts, t.sq_op, c * t.coeff).canonicalize(hermitian_tensor=case["hermitian"])
                          for c, ts in work]
        other = [t for t in other if not t.is_void()]
        # compare as values as well as term by term
        model = model_for('so', case["hermitian"], 2, base, active=3)
        same_value(model, model_value(model, raw), model_value(model, base), 'so', "expand_hole False vs True")
    else:
        env = dict(os.environ, PYTHONHASHSEED=str(case["hs"]), PYTHONWARNINGS="ignore")
        verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.run([sys.executable, "-c", HELPER, verif, json.dumps(case)], capture_output=True, text=True,
                           env=env, timeout=300)
        require("RESULT" in p.stdout, lambda: f"the same product fails in a fresh interpreter: {p.stderr[-1500:]}")
        dumped, files = json.loads(p.stdout.split("RESULT")[1])
        other = [mk_term(dict(d, type="so")) for d in dumped]
        mine = texts(base)
        for k in sorted(set(mine) | set(files)):
            require(mine.get(k) == files.get(k),
                    lambda: f"{k} depends on the hash seed: {mine.get(k)!r}"[:1500] + f" / {files.get(k)!r}"[:1500])
    d = same_terms(base, other)
    require(d is None, lambda: f"{mode}: results differ: {d}")
    if mode in ("nproc", "hashseed"):
        require(len(base) == len(other), "different number of terms")
    return {"nontrivial": len(base) > 0, "tags": tags + [f"ops{len(case['ops'])}"]}

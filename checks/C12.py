"""Saved C++ functions compute the terms they were saved from."""
import os
import re
import tempfile
import numpy as np
from hypothesis import strategies as st
from checks.C11 import COMM, WHICH, pick_terms
from checks.common import frozen, model_for, require, unit_of
from lib import gen
from lib.ambit import Interp, compare, expected
from lib.sut import Term, file_utils, mk_term, poc, quiet, wff

ID = "C12"
RULE = ("lists of 1-12 canonical terms (random ones and random subsets of commutators), saved to a scratch directory as a "
        "driver with one function per block, with and without adding the Hermitian conjugate and with and without "
        "reusing the Hamiltonian's storage, and as a direct triples function: the files are parsed, calls are checked "
        "against definitions and declarations, and the driver is executed from arbitrary contents of the result tensors; "
        "non-trivial: at least two block functions or a function with a temporary")
ASSUMPTIONS = ["spin-orbital terms (the generated functions are)", "tensors H, T and cumulants",
               "arguments are passed by name as in the generated declarations"]
EXAMPLES = {"quick": 900, "thorough": 4000}
BUDGET = {"quick": 150, "thorough": 1500}
FUNC = re.compile(r'^void (\w+)::(\w+)\(([^)]*)\) \{$')
CALL = re.compile(r'^(\w+)\(([^()]*)\);$')


@st.composite
def strategy(draw, tier="quick"):
    case = {"seed": draw(st.integers(0, 3)), "factor": draw(st.sampled_from([1.0, 0.5, -2.0])),
            "dagger": draw(st.booleans()), "destroy": draw(st.booleans()),
            "name": draw(st.sampled_from(["comm", "ccsd", "comm_H_A"])), "ns": draw(st.sampled_from(["CCSD", "MRDSRG_SO"]))}
    if draw(st.integers(0, 2)) == 0:
        return dict(case, mode="comm", block=draw(st.one_of(st.none(), st.integers(0, 99))),
                    which=draw(st.sampled_from([i for i in WHICH if COMM[i][3] == 'so'])),
                    pick=draw(st.lists(st.integers(0, 400), min_size=1, max_size=12, unique=True)))
    pool = []
    for _ in range(draw(st.integers(1, 4))):
        pool.append(draw(gen.term(max_tensors=3, max_dens=1, oriented=True, max_open=6, alias=False, densities=(('L', 1), ('L', 2)),
                                  tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('T', 2), ('T', 3)))))
    if draw(st.integers(0, 2)) == 0:
        pool = [triples(draw) for _ in range(draw(st.integers(1, 6)))]
    for _ in range(draw(st.integers(0, 2))):
        c = pool[draw(st.integers(0, len(pool) - 1))]
        pool.append(dict(c, tensors=[["H" if n == "T" else n, u, l] for n, u, l in c["tensors"]],
                         coeff=draw(st.sampled_from([1.0, -0.5, 0.125]))))
    return dict(case, mode="random", terms=pool)


def triples(draw):
    """ a term whose operator is a^{vvv}_{ccc} """
    kind = draw(st.integers(0, 6))
    c, v = ["c0", "c1", "c2"], ["v0", "v1", "v2"]
    if kind == 0:
        tens = [["T", c, v]]
    elif kind == 1:
        tens = [["H", ["v3", "c2"], ["v1", "v2"]], ["T", ["c0", "c1"], ["v0", "v3"]]]
    elif kind == 2:
        tens = [["H", ["c0", "c1"], ["c3", "v0"]], ["T", ["c3", "c2"], ["v1", "v2"]]]
    elif kind == 3:
        tens = [["H", ["v3"], ["v0"]], ["T", ["c0", "c1", "c2"], ["v3", "v1", "v2"]]]
    elif kind == 4:
        tens = [["H", ["c0"], ["c3"]], ["T", ["c3", "c1", "c2"], v]]
    elif kind == 5:
        tens = [["H", ["c0", "v3"], ["v0", "c3"]], ["T", ["c1", "c2", "c3"], ["v1", "v2", "v3"]]]
    else:
        tens = [["T", ["c0"], ["v0"]], ["T", ["c1", "c2"], ["v1", "v2"]]]
    return {"tensors": tens, "op": [v, c], "coeff": draw(st.sampled_from([1.0, 0.25, -0.5])), "type": "so"}


def parse_args(text):
    out = []
    for a in text.split(','):
        m = re.match(r'^\s*(double|double&|BlockedTensor&)\s+(\w+)\s*$', a)
        require(m, f"cannot read the argument '{a}'")
        out.append((m.group(1), m.group(2)))
    return out


def parse_function(text, ns, where):
    """ -> (name, args, body lines) of the only function in a saved file """
    require(not re.search(r'\b(HEADERS|CPP_FUNCTIONS|NAMESPACE|FUNC_NAME|FUNC_VARIABLES|CPP_EXPRESSIONS)\b', text),
            f"{where}: template placeholder left in the file")
    require(f'#include "mrdsrg-so/{ns.lower()}.h"' in text, f"{where}: header of {ns} is not included")
    require(text.count('{') == text.count('}'), f"{where}: unbalanced braces")
    lines = text.split('\n')
    heads = [i for i, x in enumerate(lines) if FUNC.match(x)]
    require(len(heads) == 1, f"{where}: {len(heads)} function definitions")
    m = FUNC.match(lines[heads[0]])
    require(m.group(1) == ns, f"{where}: function of class {m.group(1)}")
    ends = [i for i, x in enumerate(lines) if x == '}' and i > heads[0]]
    require(ends, f"{where}: function does not end")
    return m.group(2), parse_args(m.group(3)), lines[heads[0] + 1:ends[0]]


def start_value(model, name):
    k = int(name[1:])
    rng = np.random.default_rng(k + 17)
    return rng.normal(size=(model.n,) * (2 * k)) if k else np.array(3.25)


def execute(model, driver, blocks, factor):
    """ run the driver; results start with arbitrary contents """
    name, args, body = driver
    kinds = dict((n, k) for k, n in args)
    require(len(kinds) == len(args), f"repeated argument of {name}")
    require(args[0] == ("double", "factor"), "the first argument of the driver is not factor")
    top = Interp(model, 'so', predeclared=(), inputs=[n for k, n in args if n[0] != 'C'], factor=factor)
    for n in kinds:
        if n[0] == 'C':
            require(kinds[n] == ('double&' if n == 'C0' else 'BlockedTensor&'), f"type of {n}: {kinds[n]}")
            top.env[n] = start_value(model, n)
    called = []
    for line in body:
        s = line.strip()
        m = CALL.match(s)
        if not m:
            top.run(s)
            continue
        fn, given = m.group(1), [x.strip() for x in m.group(2).split(',')]
        require(fn in blocks, f"the driver calls the undefined function {fn}")
        called.append(fn)
        _, fargs, fbody = blocks[fn]
        require(len(given) == len(fargs), f"{fn} takes {fargs}, called with {given}")
        require(not top.destroyed, "a block function is called after its inputs were overwritten")
        sub = Interp(model, 'so', predeclared=(), inputs=[n for _, n in fargs if n[0] != 'C'])
        for g, (k, n) in zip(given, fargs):
            require(g in kinds and g in [x for _, x in args], f"{fn} is called with the unknown variable {g}")
            require(kinds[g] == k, f"{fn}: argument {n} is {k}, given {kinds[g]} {g}")
            require(g == n, f"{fn}: {g} is passed for {n}")
            if n[0] == 'C':
                sub.env[n] = top.env[g]
        targets = [n for _, n in fargs if n[0] == 'C']
        sub.run("\n".join(fbody))
        require(not sub.destroyed, f"{fn} overwrites {sorted(sub.destroyed)}")
        for n in sub.env:
            require(n in targets or n in sub.built, f"{fn} assigns {n}, which is not an argument")
        for n in targets:
            top.env[n] = sub.env[n]
    require(sorted(called) == sorted(blocks), f"defined block functions {sorted(blocks)}, called {called}")
    return top


def run(case):
    if case["mode"] == "comm":
        terms = pick_terms(case)
    else:
        with quiet():
            terms = poc.combine_terms([mk_term(c).canonicalize() for c in case["terms"]])
    terms = [t for t in terms if t.sq_op.n_cre <= 3 and all(x.size <= 8 for x in t.list_of_tensors)]
    if not terms:
        return {"nontrivial": False, "tags": ["void"]}
    model = model_for('so', True, case["seed"], terms, active=1)
    before = frozen(terms)
    name, ns = case["name"], case["ns"]
    tags = [case["mode"]]
    with tempfile.TemporaryDirectory(prefix="verif_c12_") as tmp:
        cwd = os.getcwd()
        os.chdir(tmp)
        try:
            with quiet(), file_utils.ChangeDir("out") as cd:
                path = cd.get_cwd()
                require(os.path.realpath(os.getcwd()) == os.path.realpath(path), "ChangeDir did not change the directory")
                wff.save_terms_ambit_functions(terms, name, ns, path, add_t_dagger=case["dagger"],
                                               destroy_h=case["destroy"])
            require(os.path.realpath(os.getcwd()) == os.path.realpath(tmp), "ChangeDir did not return")
            require(sorted(os.listdir(tmp)) == ["out"], "files were written outside the given directory")
            require(frozen(terms) == before, "saving modified the terms")
            files = {f: open(os.path.join(path, f)).read() for f in os.listdir(path)}
            with quiet():
                cat = poc.categorize_contractions(terms)
            if "cccvvv" in cat:
                tags.append("direct_t3")
                with quiet():
                    wff.save_direct_t3(cat["cccvvv"], name, ns, path)
                new = set(os.listdir(path)) - set(files)
                require(len(new) == 1, f"direct triples function wrote {sorted(new)}")
                direct_t3(model, open(os.path.join(path, new.pop())).read(), name, ns,
                          [t for d in cat["cccvvv"].values() for t in d])
        finally:
            os.chdir(cwd)
    heads = [f for f in files if f.endswith(".h")]
    require(len(heads) == 1, f"header files: {heads}")
    declared = {}
    for line in files.pop(heads[0]).split('\n'):
        if line.strip():
            m = re.match(r'^void (\w+)\(([^)]*)\);$', line.strip())
            require(m, f"cannot read the declaration {line}")
            require(m.group(1) not in declared, f"{m.group(1)} is declared twice")
            declared[m.group(1)] = parse_args(m.group(2))
    funcs = {}
    for f, text in files.items():
        fn = parse_function(text, ns, f)
        require(fn[0] not in funcs, f"{fn[0]} is defined twice")
        funcs[fn[0]] = fn
    require({k: v[1] for k, v in funcs.items()} == declared, f"definitions and declarations differ: {declared}")
    require(name in funcs, f"no function {name}")
    driver = funcs.pop(name)
    top = execute(model, driver, funcs, case["factor"])
    if top.destroyed:
        require(case["dagger"] and case["destroy"], f"the driver overwrites {sorted(top.destroyed)}")
        tags.append("destroy_h")
    ref = expected(model, terms, 'so')
    for k, a in ref.items():
        n = int(k[1:])
        a = a * case["factor"]
        if case["dagger"]:
            a = a + np.transpose(a, list(range(n, 2 * n)) + list(range(n)))
        ref[k] = a
    require({n for n in top.env if n[0] == 'C'} == set(ref), f"results {sorted(top.env)}, expected {sorted(ref)}")
    compare(model, top.env, ref, 'so', f"saved functions of {terms!r}"[:1500],
            unit=unit_of(*[t.coeff for t in terms]))
    temps = any("temp" in "\n".join(f[2]) for f in funcs.values())
    if temps:
        tags.append("temp")
    tags.append(f"blocks{min(len(funcs), 6)}")
    return {"nontrivial": temps or len(funcs) > 1, "tags": tags}


def direct_t3(model, text, name, ns, terms):
    head = [m for m in map(lambda x: FUNC.match(x), text.split('\n')) if m]
    require(len(head) == 1 and head[0].group(1) == ns and head[0].group(2) == f"{name}_direct_t3",
            f"direct triples function: {[m.group(0) for m in head]}")
    require(not re.search(r'HEADERS|NAMESPACE|FUNC_NAME|FUNC_VARIABLES|CPP_EXPRESSIONS', text), "placeholder left in the file")
    require(f'#include "mrdsrg-so/{ns.lower()}.h"' in text, f"header of {ns} is not included")
    args = parse_args(head[0].group(3))
    used = {f"{x.name}{x.n_body}" for t in terms for x in t.list_of_tensors}
    require({n for _, n in args} == used and len(args) == len(used), f"arguments {args}, tensors {sorted(used)}")
    body = text.split(head[0].group(0) + '\n')[1].split("C3.iterate")[0].rstrip()
    it = Interp(model, 'so', predeclared=(), inputs=sorted(used))
    it.run(body.replace('"T3 new"', '"C3"'))
    require(set(it.env) <= {"C3", "temp"}, f"unexpected results {sorted(it.env)}")
    compare(model, it.env, expected(model, terms, 'so'), 'so', f"direct triples function\n{body}"[:1500],
            unit=unit_of(*[t.coeff for t in terms]))

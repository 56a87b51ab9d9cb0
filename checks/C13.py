"""LaTeX output is a faithful rendering of the terms; grouping keeps every term once."""
import re
from collections import Counter
from fractions import Fraction
from math import factorial
from hypothesis import strategies as st
from checks.C11 import COMM, WHICH, pick_terms
from checks.common import frozen, model_for, require, skeleton, unit_of
from lib import gen
from lib.ambit import Interp, compare, expected
from lib.sut import Term, mk, mk_term, poc, quiet, SecondQuantizedOperator

ID = "C13"
RULE = ("random terms (raw and canonical, all index types, densities, up to four-body operators) and subsets of real "
        "commutators: the LaTeX text is parsed back and must give the same term; with permutation operators the printed "
        "coefficient and permutations, expanded by the reader, must give the antisymmetrized coefficients numerically; "
        "printed lists must have one row per term and the grouping by block and permutation must be a partition; "
        "non-trivial: a printed permutation operator or a list with several blocks or groups")
ASSUMPTIONS = ["permutation format: canonical terms", "coefficients are fractions with denominators up to 10^9"]
EXAMPLES = {"quick": 1200, "thorough": 6000}
BUDGET = {"quick": 150, "thorough": 1500}
PAIR = re.compile(r'([A-Za-z]\w*)\^\{ ((?:\w_\{\d+\} )*) ?\}_\{ ((?:\w_\{\d+\} )*) ?\}(?= |$)')
LAB = re.compile(r'^([a-zA-Z])_\{(\d+)\}$')


@st.composite
def strategy(draw, tier="quick"):
    seed = draw(st.integers(0, 3))
    opts = {"seed": seed, "dollar": draw(st.booleans()), "delim": draw(st.booleans()), "back": draw(st.booleans())}
    if draw(st.integers(0, 2)) == 0:
        return dict(opts, mode="comm", block=draw(st.one_of(st.none(), st.integers(0, 99))),
                    which=draw(st.sampled_from(WHICH)),
                    pick=draw(st.lists(st.integers(0, 400), min_size=1, max_size=8, unique=True)))
    itype = draw(st.sampled_from(['so', 'so', 'si', 'sa']))
    pool = []
    for _ in range(draw(st.integers(1, 4))):
        c = draw(gen.term(max_tensors=3, max_dens=2, oriented=True, max_open=8 if itype == 'so' else 6,
                          densities=(('L', 1), ('L', 2), ('L', 1), ('K', 1), ('C', 1)),
                          tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('T', 2), ('T', 3), ('V', 2))))
        if itype == 'si':
            asg = gen.spin_assignments(c)
            c = gen.rename(c, asg[draw(st.integers(0, len(asg) - 1))], 'si')
        pool.append(dict(c, type=itype, coeff=draw(st.sampled_from([1.0, -1.0, 0.25, -1 / 3, 7 / 36, 5 / 12, 1 / 576, 12.0]))))
    return dict(opts, mode="random", terms=pool)


def labels(text):
    out = []
    for x in text.split():
        m = LAB.match(x)
        require(m, f"cannot read the label '{x}'")
        out.append(m.group(1) + m.group(2))
    return out


def parse(text):
    """ -> (coefficient, [partition ...], [(name, upper, lower) ...] with the operator last or missing) """
    m = re.match(r'^(-?\d+(?:/\d+)?)((?: \{\\cal P\} \( [^()]* \))*)((?: .*)?)$', text)
    require(m, f"cannot read {text}")
    coeff = float(Fraction(m.group(1)))
    parts = [[labels(g) for g in p.split(' / ')] for p in re.findall(r'\( ([^()]*) \)', m.group(2))]
    rest = m.group(3).strip()
    objs = [(n, labels(u), labels(l)) for n, u, l in PAIR.findall(rest)]
    require(PAIR.sub('', rest).strip() == '', f"cannot read '{PAIR.sub('', rest).strip()}' in {text}")
    return coeff, parts, objs


def pieces(t):
    """ LaTeX of the parts of a term, with and without math delimiters """
    for x, name in [(x, x.name) for x in t.list_of_tensors] + ([(t.sq_op, 'a')] if t.sq_op.n_ops else []):
        for dollar in (False, True):
            text = x.latex(dollar=dollar)
            require(not dollar or (text[:1], text[-1:]) == ('$', '$'), f"no math delimiters: {text}")
            text = (text[1:-1] if dollar else text).strip()
            m = PAIR.fullmatch(text)
            want = (name, [str(i) for i in x.upper_indices.indices], [str(i) for i in x.lower_indices.indices])
            require(m and (m.group(1), labels(m.group(2)), labels(m.group(3))) == want, f"{want} printed as {text}")
    for i in sorted(t.indices_set, key=str)[:2]:
        require(labels(i.latex()) == [str(i)] and i.latex(dollar=True) == f"${i.latex()}$", f"label {i} printed as {i.latex(True)}")


def strip(text, dollar, delim, back):
    if dollar:
        require(text[:1] == '$' and text[-1:] == '$', f"no math delimiters: {text}")
        text = text[1:-1]
    require('$' not in text, f"stray math delimiter: {text}")
    if back:
        require(text.endswith(' \\\\'), f"no line break: {text}")
        text = text[:-3]
    require(not text.rstrip().endswith('\\\\'), f"unwanted line break: {text}")
    if delim:
        require(text.count(' &') == 1, f"alignment delimiter: {text}")
        text = text.replace(' &', '', 1)
    require('&' not in text, f"stray alignment delimiter: {text}")
    return text


def arrangements(groups):
    """ distinct ways to interleave the groups, each keeping its own order """
    if all(not g for g in groups):
        yield []
        return
    for i, g in enumerate(groups):
        if g:
            for r in arrangements(groups[:i] + [g[1:]] + groups[i + 1:]):
                yield [g[0]] + r


def sign(a, b):
    p = [a.index(x) for x in b]
    return (-1) ** sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p)))


def is_beta(labs):
    return [x[0].isupper() for x in labs]


def expand(text, itype):
    """ the statements a reader of the permutation format would evaluate """
    coeff, parts, objs = parse(text)
    cre, ann = [], []
    if objs and objs[-1][0] == 'a':
        _, cre, ann = objs.pop()
    halves = {}
    for p in parts:
        flat = sorted(x for g in p for x in g)
        require(len(set(flat)) == len(flat) and all(p), f"labels repeat in {text}")
        which = [k for k, half in (("cre", cre), ("ann", ann)) if flat == sorted(half)]
        require(which, f"P{p} is not a partition of the labels of the operator in {text}")
        require(which[0] not in halves, f"two permutation operators for the same labels in {text}")
        require(len(p) > 1, f"trivial permutation operator in {text}")
        halves[which[0]] = p
    code = []
    tens = " * ".join(f'{n}{len(u)}["{",".join(u + l)}"]' for n, u, l in objs)
    f = coeff * factorial(len(cre)) * factorial(len(ann))
    for c in arrangements(halves["cre"]) if "cre" in halves else [cre]:
        for a in arrangements(halves["ann"]) if "ann" in halves else [ann]:
            if itype == 'si' and (is_beta(c) != is_beta(cre) or is_beta(a) != is_beta(ann)):
                continue
            s = sign(cre, c) * sign(ann, a)
            lhs = f'["{",".join(a + c)}"]' if cre else ''
            code.append(f'C{len(cre)}{lhs} += {s * f!r} * {tens};' if tens else f'C{len(cre)}{lhs} += {s * f!r};')
    return "\n".join(code), bool(parts)


def rebuild(text, itype):
    coeff, parts, objs = parse(text)
    require(not parts, f"permutation operators in plain format: {text}")
    cre, ann = [], []
    if objs and objs[-1][0] == 'a':
        _, cre, ann = objs.pop()
    return Term([mk(n, u, l, itype) for n, u, l in objs], SecondQuantizedOperator(cre, ann, itype), coeff)


def same(t, u, what):
    require(skeleton(t) == skeleton(u), lambda: f"{what}: {t!r} reads back as {u!r}")
    require(abs(t.coeff - u.coeff) <= 1e-9 * abs(t.coeff), lambda: f"{what}: coefficient {t.coeff} printed as {u.coeff}")


def run(case):
    if case["mode"] == "comm":
        itype = COMM[case["which"]][3]
        terms = pick_terms(case)
        raw = terms
    else:
        itype = case["terms"][0]["type"]
        with quiet():
            raw = [mk_term(c) for c in case["terms"]]
            terms = poc.combine_terms([mk_term(c).canonicalize() for c in case["terms"]])
    o = case["dollar"], case["delim"], case["back"]
    # plain format: every term, canonical or not
    for t in raw:
        pieces(t)
        text = strip(t.latex(dollar=o[0], permute_format=False, delimiter=o[1], backslash=o[2]), *o)
        same(t, rebuild(text, itype), "plain LaTeX")
        same(t, rebuild(repr(t), itype), "repr")
        if not t.sq_op.cre_ops.size and not t.sq_op.ann_ops.size:
            same(t, rebuild(strip(t.latex(*o[:1], True, *o[1:]), *o), itype), "LaTeX of a scalar")
    if not terms:
        return {"nontrivial": False, "tags": ["void"]}
    before = frozen(terms)
    # permutation format
    model = model_for(itype, True, case["seed"], terms, active=1)
    cap = {'so': 4, 'si': 3, 'sa': 4}[itype]
    permuted = False
    for t in terms:
        text = strip(t.latex(o[0], True, o[1], o[2]), *o)
        if t.sq_op.n_cre > cap or any(x.size > 8 for x in t.list_of_tensors) or any(x.name == 'C' for x in t.list_of_tensors):
            continue
        code, p = expand(text, itype)
        permuted = permuted or p
        compare(model, Interp(model, itype).run(code).env, expected(model, [t], itype), itype,
                f"{t!r} printed as {text}, which reads\n{code}"[:2500], unit=unit_of(t.coeff))
    # grouping
    with quiet():
        cat = poc.categorize_contractions(terms)
    flat = [(b, p, t) for b in cat for p in cat[b] for t in cat[b][p]]
    require(Counter(frozen([t])[0] for _, _, t in flat) == Counter(before), "the groups are not a partition of the terms")
    for b, p, t in flat:
        sp = "".join(i.space for i in t.sq_op.ann_ops.indices) + "".join(i.space for i in t.sq_op.cre_ops.indices)
        require(b == sp, lambda: f"{t!r} is filed under block '{b}'")
        text = strip(t.latex(), False, False, False)
        pr = " ".join(re.findall(r'\{\\cal P\} \( [^()]* \)', text))
        require(pr == p, lambda: f"{t!r} is filed under permutation '{p}'")
    # printed lists: one environment per block, one row per term
    with quiet() as f:
        poc.print_terms_latex(terms)
    out = f.getvalue()
    envs = re.findall(r'\\begin\{align\}\n(.*?)\\end\{align\}', out, re.S)
    require(len(envs) == len(cat), f"{len(envs)} environments for {len(cat)} blocks:\n{out}"[:1500])
    require(re.sub(r'\\begin\{align\}\n(.*?)\\end\{align\}', '', out, flags=re.S).strip() == '', "text outside the environments")
    got = Counter()
    for env, b in zip(envs, cat):
        rows = [x.strip() for x in env.strip().split('\\\\')]
        want = Counter(strip(t.latex(delimiter=True), False, True, False) for p in cat[b] for t in cat[b][p])
        require(len(rows) == sum(want.values()), f"{sum(want.values())} terms in {len(rows)} rows:\n{env}"[:1500])
        got.update(strip(r, False, True, False) for r in rows)
        require(Counter(strip(r, False, True, False) for r in rows) == want, f"rows of block {b}:\n{env}"[:1500])
    require(frozen(terms) == before, "printing modified the terms")
    groups = sum(len(cat[b]) for b in cat)
    tags = [itype, case["mode"], f"groups{min(groups, 4)}"] + (["permuted"] if permuted else [])
    if any(len(cat[b]) > 1 for b in cat):
        tags.append("block_with_groups")
    return {"nontrivial": permuted or groups > 1, "tags": tags}

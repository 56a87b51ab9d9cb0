"""Hypothesis strategies for JSON-able second-quantized inputs (no code of the package is used here)."""
from hypothesis import assume, strategies as st

DENSITY = ('L', 'C', 'K')
SUB = {'c': {'c'}, 'a': {'a'}, 'v': {'v'}, 'p': {'a', 'v'}, 'h': {'c', 'a'}, 'g': {'c', 'a', 'v'}}

SPACES = {
    'H': {'u': 'gphvca', 'l': 'gphvca'},
    'T': {'u': 'hca', 'l': 'pva'},
    'Tx': {'u': 'pva', 'l': 'hca'},
    'F': {'u': 'gphvca', 'l': 'gphvca'},
}


@st.composite
def term(draw, tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('T', 3)), max_tensors=3,
         densities=(('L', 1), ('L', 2), ('L', 3), ('K', 1), ('C', 1)), max_dens=2, max_open=6, spaces='gphvca',
         max_labels=9, allow_op_density=True, min_tensors=1, oriented=False, alias=True):
    """ A valid Term as {"tensors", "op", "coeff"}: every label occurs twice, on two different objects, and in at most
    one density tensor.  Number conserving.  oriented: every label runs from an outgoing to an incoming leg (a tensor may
    be conjugated as a whole), as in every product of operators.  alias: some Hamiltonian tensors and amplitudes have names of their own. """
    objs = []
    for _ in range(draw(st.integers(min_tensors, max_tensors))):
        name, k = draw(st.sampled_from(tensors))
        objs.append((name, k))
    dens = [draw(st.sampled_from(densities)) for _ in range(draw(st.integers(0, max_dens)))] if densities else []
    # excitation character of amplitudes
    kinds = [(n if n != 'T' else ('T' if draw(st.integers(0, 3)) else 'Tx')) for n, _ in objs]
    flip = [draw(st.integers(0, 3)) == 0 for _ in objs] if oriented else []

    def flow(slot):
        return (slot[1] == 'u') != flip[slot[0]]

    def joinable(x, y):
        return x[0] != y[0] and (not oriented or flow(x) != flow(y))

    free = [(i, s) for i, (_, k) in enumerate(objs) for s in 'ul' for _ in range(k)]
    free = draw(st.permutations(free)) if len(free) > 1 else free
    free = list(free)

    content = [{'u': [], 'l': []} for _ in objs]   # list of label ids
    dcontent = []
    op = []
    allowed = []   # per label id: set of space characters

    def allow_slot(slot):
        i, s = slot
        table = SPACES['H'] if kinds[i] not in SPACES else SPACES[kinds[i]]
        return set(table[s]) & set(spaces)

    def new_label(al):
        allowed.append(al)
        return len(allowed) - 1

    # densities first: every leg goes to a tensor slot
    for name, k in dens:
        if 2 * k > len(free):
            continue
        legs = []
        if k == 1:
            # two different tensors
            a = free[0]
            b = next((x for x in free[1:] if joinable(x, a)), None)
            if b is None:
                if name == 'L' and allow_op_density:
                    b = None
                else:
                    continue
            legs = [a] + ([b] if b else [])
        else:
            legs = free[:2 * k]
            if oriented:
                legs = [x for x in free if flow(x)][:k] + [x for x in free if not flow(x)][:k]
                if len(legs) != 2 * k:
                    continue
        if name == 'L' and k > 1:
            als = [{x for x in allow_slot(q) if 'a' in SUB[x]} for q in legs]
            if any(not q for q in als):
                continue
        else:
            bad = {'L': 'v', 'C': 'c', 'K': ''}[name]
            als = [{x for x in allow_slot(q) if (SUB[x] - set(bad))} for q in legs]
        # choose the spaces right away so that 1-body densities overlap
        chosen = []
        for n_leg, al in enumerate(als):
            if k == 1 and n_leg == 1:
                bad = {'L': 'v', 'C': 'c', 'K': ''}[name]
                al = {x for x in al if (SUB[x] & SUB[chosen[0]]) - set(bad)}
            if not al:
                chosen = None
                break
            chosen.append(draw(st.sampled_from(sorted(al))))
        if chosen is None:
            continue
        ids = []
        for q, c in zip(legs, chosen):
            free.remove(q)
            lab = new_label({c})
            content[q[0]][q[1]].append(lab)
            ids.append(lab)
        if len(ids) == 1:   # the other leg of a one-body cumulant is open
            al = {x for x in spaces if (SUB[x] & SUB[chosen[0]]) - {'v'}}
            lab = new_label(al)
            op.append((lab, oriented and flow(legs[0])))
            ids.append(lab)
        if draw(st.booleans()):
            ids = ids[::-1]
        dcontent.append((name, ids[:k], ids[k:]))
    # pair up some of the remaining slots
    n_pair = draw(st.integers(0, len(free)))
    rest = []
    while free:
        a = free.pop(0)
        b = None
        if n_pair > 0 or len(op) + len(rest) >= max_open:
            for x in free:
                if joinable(x, a) and (allow_slot(x) & allow_slot(a)):
                    b = x
                    break
        n_pair -= 1
        if b is None:
            rest.append(a)
        else:
            free.remove(b)
            lab = new_label(allow_slot(a) & allow_slot(b))
            content[a[0]][a[1]].append(lab)
            content[b[0]][b[1]].append(lab)
    for a in rest:
        lab = new_label(allow_slot(a))
        content[a[0]][a[1]].append(lab)
        op.append((lab, oriented and flow(a)))
    # a dozen open legs of one space make canonicalization take minutes
    assume(len(op) <= 10)
    # names
    names = []
    count = {}
    start = draw(st.sampled_from([0, 1, 2, 7, 8, 9]))
    for al in allowed:
        s = draw(st.sampled_from(sorted(al)))
        n = count.get(s, start)
        count[s] = n + 1
        names.append((s, n))
    if draw(st.booleans()):
        # shuffle the numbers inside each space
        for s in sorted(count):
            ids = [i for i, x in enumerate(names) if x[0] == s]
            nums = draw(st.permutations([names[i][1] for i in ids])) if len(ids) > 1 else [names[i][1] for i in ids]
            for i, n in zip(ids, nums):
                names[i] = (s, n)
    lab = [f"{s}{n}" for s, n in names]
    tensors_out = [[('T' if kd == 'Tx' else nm), [lab[i] for i in c['u']], [lab[i] for i in c['l']]]
                   for (nm, _), kd, c in zip(objs, kinds, content)]
    if alias and draw(st.integers(0, 4)) == 0:
        tensors_out = [[{"H": "W", "T": "Y"}.get(nm, nm) if draw(st.booleans()) else nm, u, l] for nm, u, l in tensors_out]
    tensors_out += [[nm, [lab[i] for i in u], [lab[i] for i in l]] for nm, u, l in dcontent]
    opl = list(draw(st.permutations(op)) if len(op) > 1 else op)
    if oriented:
        opl = [x for x in opl if not x[1]] + [x for x in opl if x[1]]
    opl = [lab[i] for i, _ in opl]
    m = len(opl) // 2
    coeff = draw(st.sampled_from([1.0, -1.0, 0.5, -0.25, 2.0, 1.0 / 3.0, 0.0625, -1.5, 1.0 / 36, 1.0 / 1296, -2.0 ** -16,
                                   1.0 / 46656]))
    return {"tensors": tensors_out, "op": [opl[:m], opl[m:]], "coeff": coeff, "type": "so"}


def labels(case):
    out = []
    for _, u, l in case["tensors"]:
        out += u + l
    out += case["op"][0] + case["op"][1]
    return sorted(set(out))


def spin_assignments(case, limit=4096):
    """ all spin labelings (dict label -> name) that conserve spin in every tensor and in the operator """
    labs = labels(case)
    if 2 ** len(labs) > limit:
        labs_var = labs[:12]
    else:
        labs_var = labs
    objs = [(u, l) for _, u, l in case["tensors"]] + [tuple(case["op"])]
    out = []
    for bits in range(1 << len(labs_var)):
        beta = {x for i, x in enumerate(labs_var) if bits >> i & 1}
        if all(sum(i in beta for i in u) == sum(i in beta for i in l) for u, l in objs):
            out.append({x: (x.upper() if x in beta else x) for x in labs})
    return out


def rename(case, mp, itype=None):
    return {"tensors": [[n, [mp.get(i, i) for i in u], [mp.get(i, i) for i in l]] for n, u, l in case["tensors"]],
            "op": [[mp.get(i, i) for i in case["op"][0]], [mp.get(i, i) for i in case["op"][1]]],
            "coeff": case["coeff"], "type": itype or case.get("type", "so")}


@st.composite
def typed_term(draw, types=('so', 'si', 'sa'), **kw):
    itype = draw(st.sampled_from(types))
    c = draw(term(**kw))
    if itype == 'so':
        return c
    if itype == 'sa':
        return dict(c, type='sa')
    asg = spin_assignments(c)
    return rename(c, asg[draw(st.integers(0, len(asg) - 1))], 'si')


@st.composite
def unbalanced(draw, c, oriented=False):
    """ the term with another number of creators (and annihilators) in its operator, at least one of each;
    oriented: only if no tensor has an upper and a lower label among the creators, or among the annihilators """
    legs = c["op"][0] + c["op"][1]
    if c.get("type") == 'sa' or len(legs) < 3:
        return c
    if not oriented:
        m = draw(st.integers(1, len(legs) - 1))
        return dict(c, op=[legs[:m], legs[m:]])
    half = {}
    for _, u, l in c["tensors"]:
        flip = draw(st.booleans())
        half.update({x: flip for x in u if x in legs})
        half.update({x: not flip for x in l if x in legs})
    op = [[x for x in legs if half[x]], [x for x in legs if not half[x]]]
    return dict(c, op=op) if op[0] and op[1] else c


# ------------------------------------------------------------------ operators (terms with one tensor and an operator)
@st.composite
def operator(draw, start, kinds=('H', 'T', 'X', 'F'), max_body=2, labels_for_h='gcavph'):
    """ One-tensor operator, labels numbered from start.  kinds: H (general), T (excitation), X (de-excitation),
    F (any labels) """
    kind = draw(st.sampled_from(kinds))
    k = draw(st.integers(1, max_body))
    if kind == 'H':
        up = [f"g{start + k + i}" for i in range(k)]
        lo = [f"g{start + i}" for i in range(k)]
        return {"tensors": [["H", up, lo]], "op": [lo, up], "coeff": [1.0, 1.0, .25, 1 / 36][k], "type": "so"}, 2 * k
    if kind in 'TX':
        h, p = draw(st.sampled_from([('c', 'v'), ('h', 'p'), ('h', 'p'), ('a', 'v'), ('c', 'a')]))
        hs = [f"{h}{start + i}" for i in range(k)]
        ps = [f"{p}{start + i}" for i in range(k)]
        op = [ps, hs] if kind == 'T' else [hs, ps]
        return {"tensors": [["T", hs, ps]], "op": op, "coeff": [1.0, 1.0, .25, 1 / 36][k], "type": "so"}, k
    sp = [draw(st.sampled_from(labels_for_h)) for _ in range(2 * k)]
    lab = [f"{s}{start + i}" for i, s in enumerate(sp)]
    name = draw(st.sampled_from(['H', 'H', 'V']))
    return {"tensors": [[name, lab[:k], lab[k:]]], "op": [lab[k:], lab[:k]],
            "coeff": draw(st.sampled_from([1.0, 0.5, -0.25])), "type": "so"}, 2 * k


@st.composite
def scalar(draw, start):
    """ A fully contracted term (a number), labels numbered from start """
    k = draw(st.sampled_from([1, 1, 2]))
    t = draw(st.booleans())
    sp = [draw(st.sampled_from('hca' if t else 'gca')) for _ in range(k)]
    sq = [draw(st.sampled_from('pva' if t else 'gva')) for _ in range(k)]
    if t and set(sp + sq) == {'a'}:
        sq[0] = 'v'
    u = [f"{s}{start + i}" for i, s in enumerate(sp)]
    l = [f"{s}{start + k + i}" for i, s in enumerate(sq)]
    return {"tensors": [[draw(st.sampled_from("HV")), l, u], ["T" if t else "H", u, l]], "op": [[], []],
            "coeff": draw(st.sampled_from([0.25, -0.5, 3.0])), "type": "so"}, 2 * k


@st.composite
def dressed(draw, start, max_open=4):
    """ An operator with several tensors, as an earlier contraction leaves it, labels numbered from start """
    c = draw(term(tensors=(('H', 1), ('H', 2), ('T', 1), ('T', 2), ('V', 1)), max_tensors=2, min_tensors=2,
                  densities=(('L', 1), ('L', 1), ('L', 2)), max_dens=1, max_open=max_open, oriented=True,
                  allow_op_density=False))
    assume(0 < len(c["op"][0]) <= max_open // 2 and len(c["op"][0]) == len(c["op"][1]))
    labs = labels(c)
    return rename(c, {x: f"{x[0]}{start + i}" for i, x in enumerate(labs)}), len(labs)

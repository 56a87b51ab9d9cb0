"""Oracle helpers shared by the checks."""
from lib.harness import Violation, require  # noqa: F401
from lib.model import TooLarge, close, first_diff, get_model, sa_diff


def model_value(model, terms, itype='so'):
    """ value of terms produced by the code under test; malformed output is a violation, not a harness error """
    try:
        return model.value_sa(terms) if itype == 'sa' else model.value(terms, itype)
    except TooLarge:
        raise
    except Exception as e:
        raise Violation(f"result is not a well-formed sum of terms: {type(e).__name__}: {e}; {terms!r}"[:2000])


def unit_of(*coeffs):
    """ scale below which differences count as rounding: the smallest coefficient that matters """
    return min([1.0] + [abs(c) for c in coeffs if c])


def same_value(model, got, expected, itype, what, unit=1.0):
    """ got, expected: tables (or dicts of arrays for 'sa') """
    if itype == 'sa':
        d = sa_diff(got, expected, unit=unit)
        require(d is None, lambda: f"{what}: values differ: {d}")
    else:
        require(close(got, expected, unit=unit), lambda: f"{what}: values differ at {first_diff(got, expected)}")


def groups_of(terms):
    """ groups of labels (as space letters) that are antisymmetric among themselves, of Terms or of JSON terms """
    out = []
    for t in terms:
        if isinstance(t, dict):
            out += [[i[0] for i in g] for x in t["tensors"] for g in x[1:]] + [[i[0] for i in g] for g in t["op"]]
        else:
            out += [[i.space for i in g.indices] for x in t.list_of_tensors for g in (x.upper_indices, x.lower_indices)]
            out += [[i.space for i in g.indices] for g in (t.sq_op.cre_ops, t.sq_op.ann_ops)]
    return out


def fit_dims(terms, kind='so', active=2, limit=None):
    """ numbers of core, active and virtual orbitals (per spin if kind is 'spin') such that antisymmetric groups of
    labels do not vanish for lack of orbitals, as far as the size permits """
    groups = groups_of(terms)
    body = max([len(g) for g in groups] + [0])
    if limit is None:
        limit = {'so': {4: 6, 5: 5}.get(body, 7 if body < 4 else 4), 'spin': 5 if body < 3 else 4 if body < 4 else 3}[kind]
    need = {'c': 1, 'a': active, 'v': 1}
    for g in groups:
        for s in 'cav':
            # a composite label can take an active orbital
            for pick in ((str.islower, str.isupper) if kind == 'spin' else (None,)):
                k = sum(x.lower() == s or (s == 'a' and x.lower() in 'hpg') for x in g if pick is None or pick(x))
                need[s] = max(need[s], min(k, 4))
    while sum(need.values()) > limit:
        big = max('acv', key=lambda s: need[s])
        if need[big] == 1:
            break
        need[big] -= 1
    return need['c'], need['a'], need['v']


def model_for(itype, hermitian, seed, terms, max_cu=8, active=2, limit=None):
    if itype == 'so':
        return get_model(fit_dims(terms, 'so', active, limit), seed, hermitian, max_cu)
    dims = fit_dims(terms, 'spin', active, limit)
    return get_model(dims, seed, hermitian, max_cu, 'spin', itype == 'sa')


def skeleton(t):
    """ structure of a term without its coefficient, independent of the package's own hashing / printing """
    return (tuple((x.name, tuple((i.space, i.number) for i in x.upper_indices.indices),
                   tuple((i.space, i.number) for i in x.lower_indices.indices)) for x in t.list_of_tensors),
            tuple((i.space, i.number) for i in t.sq_op.cre_ops.indices),
            tuple((i.space, i.number) for i in t.sq_op.ann_ops.indices))


def as_map(terms):
    """ {skeleton: coefficient}; duplicates add up """
    out = {}
    for t in terms:
        k = skeleton(t)
        out[k] = out.get(k, 0.0) + t.coeff
    return out


def same_terms(a, b, tol=1e-12):
    """ None if two lists hold the same terms with the same coefficients """
    A, B = as_map(a), as_map(b)
    for k in set(A) | set(B):
        x, y = A.get(k, 0.0), B.get(k, 0.0)
        if abs(x - y) > tol * max(abs(x), abs(y), 1e-4):
            return f"{k}: {x} vs {y}"
    return None


def frozen(terms):
    """ everything observable of a list of terms, to detect mutation """
    return [(skeleton(t), t.coeff) for t in terms]

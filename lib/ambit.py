"""Interpreter of the generated ambit (C++) statements over dense numpy arrays, and the value they should have."""
import re
from math import factorial
import numpy as np
from lib.harness import Violation
from lib.model import LETTERS, contract, mask_sign

REF = re.compile(r'^([A-Za-z_]\w*)\["([^"\]]*)"\]$')
BUILD = re.compile(r'^(?:BlockedTensor\s+)?(\w+)\s*=\s*ambit::BlockedTensor::build\(\s*ambit::CoreTensor\s*,\s*"[^"]*"\s*,'
                   r'\s*\{\s*"([a-zA-Z]*)"\s*\}\s*\)$')
LABEL = re.compile(r'^([a-zA-Z])(\d*)$')
ORDER = {'c': {'c'}, 'a': {'a'}, 'v': {'v'}, 'p': {'a', 'v'}, 'h': {'c', 'a'}, 'g': {'c', 'a', 'v'}}


class Interp:
    """ itype 'so' | 'si' | 'sa';  inputs H, T, V, L, K are the model's tensors, everything else is assigned """

    def __init__(self, model, itype, predeclared=('temp',), inputs=None, factor=1.0, free_labels=False):
        self.model, self.itype, self.factor = model, itype, factor
        self.n = model.m if itype == 'sa' else model.n
        self.env = {}
        self.declared = set(predeclared)
        self.built = {}
        self.inputs = inputs      # names a function may use (None: anything)
        self.destroyed = {}
        self.free_labels = free_labels

    # ------------------------------------------------------------------
    def space(self, lab):
        m = LABEL.match(lab)
        if not m or m.group(1).lower() not in ORDER:
            raise Violation(f"invalid index label '{lab}' in generated code")
        return m.group(1)

    def orbs(self, lab):
        s = self.space(lab)
        if self.itype == 'so':
            return tuple(self.model.spaces_so[s])
        if self.itype == 'si':
            return tuple(self.model.spaces[s])
        return tuple(x for x in self.model.spaces[s] if x < self.model.m)

    def dense(self, name):
        """ input tensor as a dense array, hole (upper) indices first """
        if name in self.destroyed:
            return self.destroyed[name]
        m = re.match(r'^([A-Z])(\d+)$', name)
        if not m or m.group(1) not in 'HTVLKYW':
            raise Violation(f"generated code uses the unknown tensor '{name}'")
        if self.inputs is not None and name not in self.inputs:
            raise Violation(f"generated code uses '{name}', which is not among the function's arguments {self.inputs}")
        k = int(m.group(2))
        return self.model.spinfree(m.group(1), k) if self.itype == 'sa' else self.model.tensor(m.group(1), k)

    def array(self, name, rank):
        if name in self.env:
            a = self.env[name]
            if a.ndim != rank:
                raise Violation(f"'{name}' is used with {rank} indices and with {a.ndim}")
            return a
        return None

    def labels(self, text):
        labs = [x.strip() for x in text.split(',')]
        if len(set(labs)) != len(labs):
            raise Violation(f"repeated index label in [\"{text}\"]")
        return labs

    def check_built(self, name, labs):
        if name in self.built:
            blk = self.built[name]
            ok = len(blk) == len(labs) and all(
                ORDER[self.space(x).lower()] <= ORDER[b.lower()] and self.space(x).isupper() == b.isupper()
                for x, b in zip(labs, blk))
            if not ok:
                raise Violation(f"'{name}' was built for block {blk!r} but is used with {labs}")

    def get(self, name, labs):
        if name in self.env:
            arr = self.array(name, len(labs))
            self.check_built(name, labs)
        elif name in self.declared:
            raise Violation(f"'{name}' is used before it is built")
        else:
            arr = self.dense(name)
            if arr.ndim != len(labs):
                raise Violation(f"'{name}' has {arr.ndim} indices, used with {labs}")
        return arr[np.ix_(*[self.orbs(x) for x in labs])]

    def number(self, s):
        s = s.strip()
        if s == 'factor':
            return self.factor
        m = re.match(r'^\(\s*(-?\d+(?:\.\d+)?)\s*/\s*(\d+(?:\.\d+)?)\s*\)$', s)
        if m:
            if '.' not in m.group(1) + m.group(2):
                raise Violation(f"integer division in generated code: {s}")
            return float(m.group(1)) / float(m.group(2))
        try:
            return float(s)
        except ValueError:
            return None

    def product(self, text, out_labels):
        coeff, subs, ops, seen = 1.0, [], [], {}

        def let(x):
            return seen.setdefault(x, LETTERS[len(seen)])

        for part in split_product(text):
            v = self.number(part)
            if v is not None:
                coeff *= v
                continue
            m = REF.match(part)
            if not m:
                raise Violation(f"cannot read '{part}' in generated code: {text}")
            labs = self.labels(m.group(2))
            subs.append("".join(let(x) for x in labs))
            ops.append(self.get(m.group(1), labs))
        missing = [x for x in out_labels if x not in seen]
        if missing:
            raise Violation(f"index {missing} of the left-hand side does not occur on the right: {text}")
        if not ops:
            return np.array(coeff)
        return coeff * contract(subs, "".join(let(x) for x in out_labels), ops)

    # ------------------------------------------------------------------
    def statement(self, s):
        s = " ".join(s.split())
        if not s:
            return
        m = BUILD.match(s)
        if m:
            name, blk = m.groups()
            if not s.startswith("BlockedTensor") and name not in self.declared:
                raise Violation(f"'{name}' is assigned but not declared")
            self.declared.add(name)
            self.env[name] = np.zeros((self.n,) * len(blk))
            self.built[name] = blk
            return
        m = re.match(r'^BlockedTensor (\w+)$', s)
        if m:
            self.declared.add(m.group(1))
            return
        m = re.match(r'^(\w+)\.zero\(\)$', s)
        if m:
            if m.group(1) not in self.env:
                raise Violation(f"{s}: not built")
            self.env[m.group(1)] = np.zeros_like(self.env[m.group(1)])
            return
        m = re.match(r'^(\w+)\.scale\(([^)]*)\)$', s)
        if m:
            if m.group(1) not in self.env:
                raise Violation(f"{s}: not built")
            v = self.number(m.group(2))
            if v is None:
                raise Violation(f"cannot read {s}")
            self.env[m.group(1)] = self.env[m.group(1)] * v
            return
        m = re.match(r'^(.*?)\s*(\+=|-=|\*=|=)\s*(.*)$', s)
        if not m:
            raise Violation(f"cannot read generated statement: {s}")
        lhs, op, rhs = m.groups()
        r = REF.match(lhs)
        if r:
            name, labs = r.group(1), self.labels(r.group(2))
        elif re.match(r'^\w+$', lhs):
            name, labs = lhs, []
        else:
            raise Violation(f"cannot read left-hand side of: {s}")
        if op == '*=':
            v = self.number(rhs)
            if v is None or labs:
                raise Violation(f"cannot read {s}")
            self.env[name] = self.env.get(name, np.array(0.0)) * v
            return
        val = self.product(rhs, labs)
        self.check_built(name, labs)
        if self.array(name, len(labs)) is None:
            if name in self.declared:
                raise Violation(f"'{name}' is used before it is built")
            if re.match(r'^[HTVLKYW]\d+$', name):
                # overwriting an input (only sensible when asked for)
                self.destroyed[name] = self.env[name] = np.array(self.dense(name))
            else:
                self.env[name] = np.zeros((self.n,) * len(labs))
        arr = self.env[name]
        ix = np.ix_(*[self.orbs(x) for x in labs]) if labs else ()
        if op == '=':
            arr[ix] = val
        elif op == '+=':
            arr[ix] = arr[ix] + val
        else:
            arr[ix] = arr[ix] - val

    def run(self, code):
        for line in code.split('\n'):
            line = re.sub(r'//.*', '', line)
            if line.strip() and not line.rstrip().endswith(';'):
                raise Violation(f"generated statement does not end with ';': {line}")
            for s in line.split(';'):
                self.statement(s)
        return self


def split_product(text):
    out, depth, cur = [], 0, ''
    for ch in text:
        if ch in '([':
            depth += 1
        if ch in ')]':
            depth -= 1
        if ch == '*' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def expected(model, terms, itype):
    """ {"C<n>": dense array [ann..., cre...]} of the coefficients in  sum_n 1/(n!)^2 C[ann; cre] a^{cre}_{ann};
    for different numbers of annihilators and creators "C_<n_ann>_<n_cre>", with 1/(n_ann! n_cre!) """
    out = {}
    if itype == 'sa':
        for k, a in model.value_sa(terms).items():
            out[f"C{k}"] = factorial(k) ** 2 * np.transpose(a, list(range(k, 2 * k)) + list(range(k)))
        return out
    G = model.value(terms, itype)
    for k, j in sorted({(t.sq_op.n_ann, t.sq_op.n_cre) for t in terms}):
        ma, sa = mask_sign(tuple(tuple(range(model.n)) for _ in range(k)))
        mc, sc = mask_sign(tuple(tuple(range(model.n)) for _ in range(j)))
        a = G[np.ix_(mc, ma)].T * sa[:, None] * sc[None, :]
        out[f"C{k}" if k == j else f"C_{k}_{j}"] = a.reshape((model.n,) * (k + j))
    return out


def ordered_spin(model, k):
    """ mask of index tuples whose alpha labels come first, for both halves """
    from functools import reduce
    n = model.n
    beta = np.arange(n) >= model.m
    half = np.ones((n,) * k, dtype=bool)
    for i in range(k - 1):
        sh1, sh2 = [1] * k, [1] * k
        sh1[i] = n
        sh2[i + 1] = n
        half = half & (beta.reshape(sh1) <= beta.reshape(sh2))
    return reduce(np.multiply.outer, [half, half])


def compare(model, env, ref, itype, what, tol=1e-7, unit=1.0):
    for name in sorted(ref):
        r = ref[name]
        g = env.get(name)
        if g is None:
            g = np.zeros_like(r)
        d = np.abs(g - r)
        k = int(name[1:].split("_")[-1])
        if itype == 'si' and k > 1:
            d = d * ordered_spin(model, k)
        scale = max(unit, float(np.max(np.abs(r))))
        if float(np.max(d)) > tol * scale:
            i = np.unravel_index(np.argmax(d), d.shape)
            raise Violation(f"{what}: {name}{[int(x) for x in i]} = {float(g[i])}, expected {float(r[i])}")

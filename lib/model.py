"""Numeric reference model of second-quantized expressions.

A Term stands for   coeff * sum_{all labels} prod(tensor elements) {a^{cre}_{ann}}   where {..} is normal order with
respect to a correlated reference described by density cumulants L1, L2, ...  The model picks a small number of
core/active/virtual orbitals and random values for all tensors, with exactly the symmetries the generator is
documented to assume:
   * tensors are antisymmetric under permutations of upper / lower indices, real and (optionally) Hermitian;
   * L1 is the identity on core, zero on virtual, random on active; L_k (k > 1) lives on active only;
   * C = K - L1 (hole density), K = identity;   T vanishes when all its indices are active.
The *value* of a list of Terms is then a finite table
   G[I, J] = coefficient of {a^{I}_{J}}, I and J bit masks with orbitals in increasing order.
a^{I}_{J} = i1^+ i2^+ ... j2 j1.

`product` multiplies two such tables exactly, not with Wick's theorem but through the matrix representation of the
operators in Fock space.  None of this uses code of the package.
"""
import zlib
from functools import lru_cache
from itertools import combinations

import numpy as np

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ALPHA_SPACES = {'c': 'c', 'a': 'a', 'v': 'v', 'p': 'av', 'h': 'ca', 'g': 'cav'}


def parity_sort(seq):
    """ (+1/-1, sorted) or (0, None) if repeated """
    seq = list(seq)
    s = 1
    for i in range(len(seq)):
        for j in range(i + 1, len(seq)):
            if seq[i] == seq[j]:
                return 0
            if seq[i] > seq[j]:
                s = -s
    return s


def bits(m):
    out = []
    i = 0
    while m:
        if m & 1:
            out.append(i)
        m >>= 1
        i += 1
    return out


@lru_cache(maxsize=4096)
def mask_sign(axes):
    """ For a tuple of axes (each a tuple of orbitals): flat arrays of bit masks and signs of all index tuples """
    mask = np.zeros((), dtype=np.int64)
    sign = np.ones((), dtype=np.int8)
    for ax in axes:
        orb = np.array(ax, dtype=np.int64)
        m = mask[..., None]
        bit = np.left_shift(np.int64(1), orb)
        clash = (m & bit) != 0
        # number of orbitals already present that are greater than this one
        greater = np.right_shift(m, orb + 1)
        cnt = np.zeros(greater.shape, dtype=np.int64)
        g = greater.copy()
        while g.any():
            cnt += g & 1
            g >>= 1
        sign = np.where(clash, 0, sign[..., None] * np.where(cnt % 2 == 0, 1, -1)).astype(np.int8)
        mask = m | bit
    return mask.reshape(-1), sign.reshape(-1)


def antisym_dense(n, k, packed, combs):
    """ dense (n,)*2k array, antisymmetric in the first k and last k axes, from a packed matrix over combinations """
    full = tuple(tuple(range(n)) for _ in range(k))
    m, s = mask_sign(full)
    pos = {sum(1 << i for i in c): x for x, c in enumerate(combs)}
    idx = np.zeros(len(m), dtype=np.int64)
    for x in range(len(m)):
        if s[x]:
            idx[x] = pos[int(m[x])]
    out = packed[np.ix_(idx, idx)] * s[:, None] * s[None, :]
    return out.reshape((n,) * (2 * k))


class TooLarge(Exception):
    """ a term whose evaluation would take minutes """


MAX_COST = 1.5e9


@lru_cache(maxsize=20000)
def plan(subs, out, shapes):
    """ contraction path and its cost (multiplications) """
    size = {}
    for s, sh in zip(subs, shapes):
        size.update(zip(s, sh))
    expr = ",".join(subs) + "->" + out
    dummies = [np.broadcast_to(np.zeros(()), sh) for sh in shapes]
    best = None
    for how in ('greedy', 'optimal'):
        path = np.einsum_path(expr, *dummies, optimize=how)[0]
        rest, cost = [set(s) for s in subs], 0.0
        for step in path[1:]:
            picked = [rest[i] for i in sorted(step, reverse=True)]
            for i in sorted(step, reverse=True):
                del rest[i]
            union = set().union(*picked)
            cost += float(np.prod([size[x] for x in union])) if union else 1.0
            rest.append(union & set(out).union(*rest))
        if best is None or cost < best[1]:
            best = (path, cost)
        if best[1] < 1e8 or len(subs) > 8:
            break
    return best


def contract(subs, out, ops):
    """ einsum with a bound on the work """
    if len(ops) <= 2:
        return np.einsum(",".join(subs) + "->" + out, *ops)
    path, cost = plan(tuple(subs), out, tuple(np.shape(o) for o in ops))
    if cost > MAX_COST:
        raise TooLarge(",".join(subs))
    return np.einsum(",".join(subs) + "->" + out, *ops, optimize=path)


class Model:
    """ kind: 'so' (spin orbitals), or 'spin' (dims are per spin; alpha orbitals first, then beta) """

    def __init__(self, dims, seed=0, hermitian=True, max_cu=8, kind='so', singlet=False, scale_offset=0.3):
        self.dims, self.seed, self.hermitian, self.max_cu, self.kind = tuple(dims), seed, hermitian, max_cu, kind
        self.singlet = singlet
        nc, na, nv = dims
        m = nc + na + nv
        self.m = m
        base = {'c': list(range(nc)), 'a': list(range(nc, nc + na)), 'v': list(range(nc + na, m))}
        self.n = m if kind == 'so' else 2 * m
        self.spaces = {}      # label -> orbitals, for 'si' (and for 'so' of kind so)
        self.spaces_so = {}   # label -> orbitals, for spin-orbital labels
        for lab, parts in ALPHA_SPACES.items():
            al = tuple(i for p in parts for i in base[p])
            if kind == 'so':
                self.spaces[lab] = al
                self.spaces_so[lab] = al
            else:
                be = tuple(i + m for i in al)
                self.spaces[lab] = al
                self.spaces[lab.upper()] = be
                self.spaces_so[lab] = al + be
        self.active = list(self.spaces_so['a'])
        self._cache = {}
        self._spinfree = {}

    # ------------------------------------------------------------------ tensors
    def _rng(self, name, k):
        return np.random.default_rng([self.seed, zlib.crc32(name.encode()), k])

    def _spin_ok(self, combs):
        """ mask over (combs x combs): number of beta orbitals conserved """
        if self.kind == 'so':
            return np.ones((len(combs), len(combs)), dtype=bool)
        nb = np.array([sum(i >= self.m for i in c) for c in combs])
        return nb[:, None] == nb[None, :]

    def spinfree(self, name, k):
        """ random spin-free tensor over the m spatial orbitals; X(p1 p2..; q1 q2..) symmetric under simultaneous
        permutations and (if hermitian) swap; used when singlet """
        key = (name, k)
        if key in self._spinfree:
            return self._spinfree[key]
        m = self.m
        nc, na, nv = self.dims
        if name == 'K' or (name == 'C' and k == 1):
            x = np.eye(m)
            if name == 'C':
                x = x - self.spinfree('L', 1)
        else:
            rng = self._rng("sf" + name, k)
            r = rng.standard_normal((m,) * (2 * k))
            if name == 'L':
                if k > self.max_cu:
                    r = np.zeros((m,) * (2 * k))
                act = np.zeros(m)
                act[nc:nc + na] = 1
                for ax in range(2 * k):
                    sh = [1] * (2 * k)
                    sh[ax] = m
                    r = r * act.reshape(sh)
                if k == 1:
                    for i in range(nc):
                        r[i, i] = 1.0
            if name in ('T', 'Y'):
                sl = tuple(slice(nc, nc + na) for _ in range(2 * k))
                r[sl] = 0.0
            x = np.zeros_like(r)
            from itertools import permutations
            for p in permutations(range(k)):
                x = x + r.transpose(list(p) + [k + i for i in p])
            if k:
                x = x / max(1, len(list(permutations(range(k)))))
            if self.hermitian:
                x = 0.5 * (x + x.transpose(list(range(k, 2 * k)) + list(range(k))))
        self._spinfree[key] = x
        return x

    def packed(self, name, k):
        """ (packed matrix, combs) """
        n = self.n
        combs = list(combinations(range(n), k))
        nco = len(combs)
        if self.singlet:
            m = self.m
            sf = self.spinfree(name, k)
            out = np.zeros((nco, nco))
            from itertools import permutations
            for x, u in enumerate(combs):
                for y, l in enumerate(combs):
                    acc = 0.0
                    for p in permutations(range(k)):
                        lp = [l[i] for i in p]
                        if all((a >= m) == (b >= m) for a, b in zip(u, lp)):
                            acc += parity_sort(p) * sf[tuple(a % m for a in u) + tuple(b % m for b in lp)]
                    out[x, y] = acc
            return out, combs
        rng = self._rng(name, k)
        r = rng.standard_normal((nco, nco))
        ok = self._spin_ok(combs)
        r = r * ok
        if self.hermitian:
            r = 0.5 * (r + r.T)
        act = np.array([all(i in self.active for i in c) for c in combs], dtype=bool)
        if name == 'L':
            if k > self.max_cu:
                r = np.zeros_like(r)
            r = r * np.outer(act, act)
            if k == 1:
                core = np.array([c[0] in self.spaces_so['c'] for c in combs])
                r = r + np.diag(core.astype(float))
        elif name in ('T', 'Y'):
            r = np.where(np.outer(act, act), 0.0, r)
        return r, combs

    def tensor(self, name, k):
        key = (name, k)
        if key not in self._cache:
            n = self.n
            if k == 0:
                arr = np.array(1.0)
            elif name == 'K':
                arr = np.eye(n)
            elif name == 'C':
                arr = np.eye(n) - self.tensor('L', 1)
            else:
                p, combs = self.packed(name, k)
                arr = antisym_dense(n, k, p, combs)
            self._cache[key] = arr
        return self._cache[key]

    def element(self, name, k, axes):
        """ block of a tensor, axes = list of orbital tuples """
        key = (name, k, tuple(axes))
        c = self._cache
        if key not in c:
            if len(c) > 3000:
                for kk in [q for q in c if len(q) == 3]:
                    del c[kk]
            c[key] = np.ascontiguousarray(self.tensor(name, k)[np.ix_(*axes)]) if k else self.tensor(name, k)
        return c[key]

    # ------------------------------------------------------------------ evaluation of terms
    def orbs(self, index, itype):
        s = index.space
        return tuple((self.spaces_so if itype == 'so' else self.spaces)[s])

    def term_block(self, term, itype='so'):
        """ (axes of cre, axes of ann, ndarray) of one term """
        letters = {}

        def let(i):
            key = (i.space, i.number)
            if key not in letters:
                letters[key] = LETTERS[len(letters)]
            return letters[key]

        subs, ops = [], []
        for t in term.list_of_tensors:
            u, l = list(t.upper_indices.indices), list(t.lower_indices.indices)
            if len(u) != len(l):
                raise ValueError("model: number non-conserving tensor")
            axes = [self.orbs(i, itype) for i in u + l]
            subs.append("".join(let(i) for i in u + l))
            ops.append(self.element(t.name, len(u), axes))
        cre, ann = list(term.sq_op.cre_ops.indices), list(term.sq_op.ann_ops.indices)
        out = ""
        axes_c, axes_a = [], []
        for grp, axes in ((cre, axes_c), (ann, axes_a)):
            for i in grp:
                ax = self.orbs(i, itype)
                axes.append(ax)
                x = let(i)
                present = any(x in s for s in subs)
                if x in out or not present:
                    # a diagonal operator label (or a label only in the operator)
                    y = LETTERS[len(letters)]
                    letters[("#", y)] = y
                    if x in out:
                        subs.append(x + y)
                        ops.append(np.eye(len(ax)))
                        out += y
                    else:
                        subs.append(x)
                        ops.append(np.ones(len(ax)))
                        out += x
                else:
                    out += x
        if not ops:
            return tuple(axes_c), tuple(axes_a), np.array(float(term.coeff))
        arr = term.coeff * contract(subs, out, ops)
        return tuple(axes_c), tuple(axes_a), arr

    def zero(self):
        return np.zeros((1 << self.n, 1 << self.n))

    def value(self, terms, itype='so', n_open=None):
        """ table G of a list of terms """
        G = self.zero()
        for t in terms:
            if abs(t.coeff) == 0.0:
                continue
            ac, aa, arr = self.term_block(t, itype)
            mi, si = mask_sign(ac)
            mj, sj = mask_sign(aa)
            arr = arr.reshape(len(mi), len(mj)) * si[:, None] * sj[None, :]
            np.add.at(G, (mi[:, None], mj[None, :]), arr)
        return G

    def value_sa(self, terms):
        """ spin-adapted terms: {n_body: dense array over the m spatial orbitals, axes (cre..., ann...) in the order
        written}; the operator has no symmetry, tensors are spin-free """
        out = {}
        m = self.m
        for t in terms:
            if abs(t.coeff) == 0.0:
                continue
            letters = {}

            def let(i):
                return letters.setdefault((i.space, i.number), LETTERS[len(letters)])

            def axes(idx):
                return [tuple(x for x in self.spaces[i.space] if x < m) for i in idx]

            subs, ops = [], []
            for x in t.list_of_tensors:
                idx = list(x.upper_indices.indices) + list(x.lower_indices.indices)
                subs.append("".join(let(i) for i in idx))
                ops.append(self.spinfree(x.name, len(idx) // 2)[np.ix_(*axes(idx))])
            oi = list(t.sq_op.cre_ops.indices) + list(t.sq_op.ann_ops.indices)
            arr = t.coeff * contract(subs, "".join(let(i) for i in oi), ops)
            k = len(t.sq_op.cre_ops.indices)
            if k not in out:
                out[k] = np.zeros((m,) * len(oi))
            if oi:
                out[k][np.ix_(*axes(oi))] += arr
            else:
                out[k] = out[k] + arr
        return out

    # ------------------------------------------------------------------ operator algebra in Fock space
    @property
    def alg(self):
        if '_alg' not in self._cache:
            self._cache['_alg'] = Algebra(self.n)
        return self._cache['_alg']

    def exps(self):
        """ Exp_{+L}, Exp_{-L}: fully contracted values of a^{A}_{B} """
        if '_exps' not in self._cache:
            self._cache['_exps'] = (self._exp(1.0), self._exp(-1.0))
        return self._cache['_exps']

    def _exp(self, sgn):
        n = self.n
        lam = {}
        kmax = min(self.max_cu, len(self.active))
        for k in range(1, max(1, kmax) + 1):
            p, combs = self.packed('L', k)
            masks = [sum(1 << i for i in c) for c in combs]
            for x, y in zip(*np.nonzero(p)):
                lam[(masks[x], masks[y])] = sgn * p[x, y]
        by_low = {}
        for (a, b), v in lam.items():
            by_low.setdefault(a & -a, []).append((a, b, v))
        out = self.zero()
        memo = {(0, 0): 1.0}

        def shuffle_sign(a1, a2):
            s = 0
            x = a2
            while x:
                low = x & -x
                s += bin(a1 & ~((low << 1) - 1)).count("1")
                x ^= low
            return -1 if s % 2 else 1

        def rec(a, b):
            key = (a, b)
            if key in memo:
                return memo[key]
            acc = 0.0
            for a1, b1, v in by_low.get(a & -a, ()):
                if a1 & ~a or b1 & ~b:
                    continue
                r = rec(a ^ a1, b ^ b1)
                if r:
                    acc += v * r * shuffle_sign(a1, a ^ a1) * shuffle_sign(b1, b ^ b1)
            memo[key] = acc
            return acc

        pc = [bin(i).count("1") for i in range(1 << n)]
        virt = sum(1 << i for i in self.spaces_so['v'])
        for a in range(1 << n):
            if a & virt:
                continue
            for b in range(1 << n):
                if pc[a] == pc[b] and not b & virt:
                    out[a, b] = rec(a, b)
        return out

    def to_bare(self, G):
        return self.alg.extract(G, self.exps()[1])

    def from_bare(self, B):
        return self.alg.extract(B, self.exps()[0])

    def to_matrix(self, G):
        return self.alg.to_fock(self.to_bare(G))

    def from_matrix(self, M):
        return self.from_bare(self.alg.from_fock(M))

    def product(self, *Gs):
        M = self.to_matrix(Gs[0])
        for g in Gs[1:]:
            M = M @ self.to_matrix(g)
        return self.from_matrix(M)

    def commutator(self, A, B):
        MA, MB = self.to_matrix(A), self.to_matrix(B)
        return self.from_matrix(MA @ MB - MB @ MA)

    def n_open_mask(self, lo, hi):
        pc = np.array([bin(i).count("1") for i in range(1 << self.n)])
        tot = pc[:, None] + pc[None, :]
        return (tot >= lo) & (tot <= hi)


class Algebra:
    """ index tables for n orbitals, built once """
    _instances = {}

    def __new__(cls, n):
        if n not in cls._instances:
            o = super().__new__(cls)
            o._build(n)
            cls._instances[n] = o
        return cls._instances[n]

    def _build(self, n):
        self.n = n
        N = 1 << n
        pc = np.array([bin(i).count("1") for i in range(N)])
        # subset pairs (S within A): sign of shuffling  a^{A} -> a^{S} a^{A\S}
        A, S, sg = [], [], []
        for a in range(N):
            s = a
            while True:
                r = a ^ s
                cnt = 0
                x = r
                while x:
                    low = x & -x
                    cnt += bin(s & ~((low << 1) - 1)).count("1")
                    x ^= low
                A.append(a)
                S.append(s)
                sg.append(-1 if cnt % 2 else 1)
                if s == 0:
                    break
                s = (s - 1) & a
        self.A, self.S, self.sg = np.array(A), np.array(S), np.array(sg)
        self.pc = pc
        # Fock: a^{I}_{J} |K>, K = J | R with R disjoint from J; result I | R, needs R disjoint from I
        # list all (I, J, R): per orbital: R disjoint from I and J.
        I_, J_, R_, s_ = [], [], [], []
        par = self._apply_sign
        for r in range(N):
            comp = (N - 1) ^ r
            subs = []
            s = comp
            while True:
                subs.append(s)
                if s == 0:
                    break
                s = (s - 1) & comp
            sigs = {x: par(x, r) for x in subs}
            for i in subs:
                for j in subs:
                    I_.append(i)
                    J_.append(j)
                    R_.append(r)
                    s_.append(sigs[i] * sigs[j])
        self.FI, self.FJ, self.FR = np.array(I_), np.array(J_), np.array(R_)
        self.Fs = np.array(s_)
        # elimination order by |R| for the inverse
        self.inv_mask = self.FR != 0
        order = np.argsort(pc[self.FI | self.FR], kind='stable')
        self.order = order

    @staticmethod
    def _apply_sign(x, r):
        """ sign of x1^+ x2^+ ... |r>  relative to |x u r> = (x u r)^+ sorted |0> """
        cnt = 0
        y = x
        while y:
            low = y & -y
            cnt += bin(r & (low - 1)).count("1")
            y ^= low
        return -1 if cnt % 2 else 1

    def extract(self, G, E):
        """ sum over contracted parts: {a^A_B} -> sum_{S,T} sign E[S,T] a^{A\\S}_{B\\T} """
        N = 1 << self.n
        # two-step: rows then columns cannot be separated because of E[S,T]; do for every nonzero S-class
        out = np.zeros((N, N))
        nz_rows = np.unique(np.nonzero(E)[0])
        # for each S: rows A containing S
        if not hasattr(self, 'byS'):
            self.byS = {}
            for s in range(N):
                k = np.nonzero(self.S == s)[0]
                self.byS[s] = (self.A[k], self.A[k] ^ s, self.sg[k])
        for s in nz_rows:
            A, Ar, sA = self.byS[int(s)]
            sub = np.zeros((N, N))
            sub[Ar, :] = G[A, :] * sA[:, None]
            if not sub.any():
                continue
            for t in np.nonzero(E[s])[0]:
                B, Br, sB = self.byS[int(t)]
                out[:, Br] += sub[:, B] * (sB[None, :] * E[s, t])
        return out

    def to_fock(self, B):
        N = 1 << self.n
        M = np.zeros((N, N))
        np.add.at(M, (self.FI | self.FR, self.FJ | self.FR), B[self.FI, self.FJ] * self.Fs)
        return M

    def from_fock(self, M):
        N = 1 << self.n
        B = np.zeros((N, N))
        if not hasattr(self, 'levels'):
            # B[I,J] = M[I,J] - sum_{R != 0, R in I&J} sign B[I\R, J\R];   process by |I|
            lev = []
            allk = self.inv_mask
            tgtI = (self.FI | self.FR)
            tgtJ = (self.FJ | self.FR)
            for k in range(self.n + 1):
                sel = np.nonzero(allk & (self.pc[tgtI] == k))[0]
                lev.append((sel, tgtI[sel], tgtJ[sel]))
            self.levels = lev
        B[:] = M
        for k in range(self.n + 1):
            sel, ti, tj = self.levels[k]
            if len(sel):
                np.subtract.at(B, (ti, tj), B[self.FI[sel], self.FJ[sel]] * self.Fs[sel])
        return B


@lru_cache(maxsize=64)
def get_model(dims, seed=0, hermitian=True, max_cu=8, kind='so', singlet=False):
    return Model(dims, seed, hermitian, max_cu, kind, singlet)


def close(A, B, tol=1e-7, unit=1.0):
    scale = max(unit, float(np.max(np.abs(A))), float(np.max(np.abs(B))))
    return float(np.max(np.abs(A - B))) <= tol * scale


def first_diff(A, B):
    k = np.unravel_index(np.argmax(np.abs(A - B)), A.shape)
    return {"cre": bits(int(k[0])), "ann": bits(int(k[1])), "got": float(A[k]), "expected": float(B[k])}


def sa_diff(A, B, tol=1e-7, unit=1.0):
    """ None if equal, otherwise a description """
    for k in sorted(set(A) | set(B)):
        a, b = A.get(k), B.get(k)
        if a is None:
            a = np.zeros_like(b)
        if b is None:
            b = np.zeros_like(a)
        scale = max(unit, float(np.max(np.abs(a))), float(np.max(np.abs(b))))
        if float(np.max(np.abs(a - b))) > tol * scale:
            x = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
            return {"n_body": k, "element": [int(i) for i in x], "got": float(a[x]), "expected": float(b[x])}
    return None

"""Access to the code under test.

The package is imported from /repo's working tree (nothing is installed or copied).  The tooling
interpreter is CPython 3.12, where the aliases `collections.Sequence` and `collections.Iterable`
(which the package uses and which its own interpreter, PyPy 3.9, still has) are gone; they are put back
before the package is imported.  Byte code is never written to /repo.
"""
import collections
import collections.abc
import contextlib
import io
import os
import sys

sys.dont_write_bytecode = True
for _n in ("Sequence", "Iterable", "Mapping", "MutableMapping", "Callable", "Set", "Hashable", "Iterator",
           "Sized", "Container", "MutableSequence"):
    if not hasattr(collections, _n):
        setattr(collections, _n, getattr(collections.abc, _n))

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

with contextlib.redirect_stdout(io.StringIO()):
    import dsrg_generator  # noqa: E402
    from dsrg_generator.mo_space import find_space_label, MOSpaceCounter  # noqa: E402,F401
    from dsrg_generator.Index import Index  # noqa: E402,F401
    from dsrg_generator.Indices import (Indices, IndicesSpinOrbital,  # noqa: E402,F401
                                        IndicesSpinIntegrated, IndicesSpinAdapted)
    from dsrg_generator.IndicesPair import IndicesPair  # noqa: E402,F401
    from dsrg_generator.Tensor import (Tensor, Cumulant, HoleDensity, Kronecker, ClusterAmplitude,  # noqa: E402,F401
                                       HamiltonianTensor)
    from dsrg_generator.SQOperator import SecondQuantizedOperator  # noqa: E402,F401
    from dsrg_generator.Term import (Term, hamiltonian_operator, cluster_operator,  # noqa: E402,F401
                                     diagonal_fock_operator, dyall_hamiltonian, fink_hamiltonian)
    from dsrg_generator import sqop_contraction as sqc  # noqa: E402,F401
    from dsrg_generator import phys_op_contraction as poc  # noqa: E402,F401
    from dsrg_generator import write_forte_functions as wff  # noqa: E402,F401
    from dsrg_generator.helper import integer_partition as ipart  # noqa: E402,F401
    from dsrg_generator.helper import file_utils  # noqa: E402,F401

_real = os.path.realpath(dsrg_generator.__file__)
if not _real.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"harness error: dsrg_generator was imported from {_real}, not from {REPO}")


@contextlib.contextmanager
def quiet():
    """ The code under test prints progress; keep it off the check's stdout. """
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


def mk(name, upper, lower, itype='so'):
    """ Tensor from JSON-able parts: name one of H,T,L,C,K, W (a Hamiltonian tensor of that name), Y (a cluster amplitude
    of that name) or any other (a plain Tensor). """
    if name in ('W', 'Y'):
        return Tensor.make_tensor('H' if name == 'W' else 'T', list(upper), list(lower), itype, name)
    if name in ('H', 'T', 'L', 'C', 'K'):
        return Tensor.make_tensor(name, list(upper), list(lower), itype)
    return Tensor(list(upper), list(lower), itype, name=name)


def mk_term(case):
    """ Term from {"tensors": [[name, upper, lower]...], "op": [cre, ann], "coeff": x, "type": 'so'} """
    t = case.get("type", "so")
    return Term([mk(n, u, l, t) for n, u, l in case["tensors"]],
                SecondQuantizedOperator(list(case["op"][0]), list(case["op"][1]), t), case["coeff"])


def dump_term(term):
    return {"tensors": [[t.name, [str(i) for i in t.upper_indices.indices], [str(i) for i in t.lower_indices.indices]]
                        for t in term.list_of_tensors],
            "op": [[str(i) for i in term.sq_op.cre_ops.indices], [str(i) for i in term.sq_op.ann_ops.indices]],
            "coeff": term.coeff}

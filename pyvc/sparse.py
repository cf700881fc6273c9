"""Contracts of scipy.sparse as far as the model uses it: matrices as lists of rows over one generic measurement.

A row describes the values of one matrix row at the generic column that belongs to the generic element of the flattened
array (row-major): .a is the array (value and shape); .k is None (every element) or the index of the block of the row
(block diagonal matrices: the value of the array where the element belongs to block k, else zero)."""
from .terms import *
from .core import W, Unsupported
from .values import *
from . import runtime as rt


class Row:
    def __init__(self, a, k=None):
        self.a, self.k = a, k

    def _vc_subst(self, m):
        return Row(subst_val(self.a, m), None if self.k is None else subst(self.k, m))

    def _vc_rows(self):
        return [self]

    def __repr__(self):
        return f"<row {self.a.t} block {self.k}>"


def rows_of(x):
    """sequence of rows of a matrix or a (nested) list of matrices."""
    if isinstance(x, Row):
        return SSeq([("one", x)])
    if isinstance(x, Mat):
        if x.t:
            raise Unsupported("rows of a transposed sparse matrix")
        return x.rows
    if isinstance(x, Ravel):
        return SSeq([("one", Row(x.a))])
    if isinstance(x, (list, tuple, SSeq)):
        out = SSeq([])
        for s in as_seq(x).segs:
            if s[0] == "one":
                out = out + rows_of(s[1])
            elif s[0] == "gen" and isinstance(s[3], Row):
                out = out + SSeq([s])
            else:
                raise Unsupported("sparse matrix of an unknown sequence")
        return out
    raise Unsupported(f"sparse matrix of {type(x).__name__}")


class Mat:
    """sparse matrix (t: transposed)."""

    def __init__(self, rows, t=False):
        self.rows, self.t = rows, t

    def _vc_rows(self):
        if self.t:
            raise Unsupported("iteration over a transposed sparse matrix")
        return list(self.rows)

    def __iter__(self):
        return iter(self._vc_rows())

    def _vc_subst(self, m):
        return Mat(subst_val(self.rows, m), self.t)

    @property
    def T(self):
        return Mat(self.rows, not self.t)

    def transpose(self, *a, **k):
        return self.T

    def same(self, *a, **k):
        return self

    tocsr = tocsc = tocoo = asformat = copy = same

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"sparse matrix: {n}")


def csr_matrix(x, **k):
    if isinstance(x, Mat):
        return x
    if isinstance(x, (Ravel, Row)):
        return Mat(rows_of(x))
    raise Unsupported(f"csr_matrix of {type(x).__name__}")


def dim0(a):
    return fn("dim0", *sorted_base(a))


def block_diag(x, format=None, dtype=None):
    """blocks: the items of a nested list, i.e. the rows of the array."""
    if isinstance(x, (ToList, Arr)):
        a = x.a if isinstance(x, ToList) else x
        if a.sh.lead:
            raise Unsupported("block_diag of stacked arrays")
        k = fresh("blk", "I")
        return Mat(SSeq([("gen", dim0(a), k, Row(a, k))]))
    raise Unsupported(f"block_diag of {type(x).__name__}")


def vstack(xs, format=None, dtype=None):
    return Mat(rows_of(xs))


def hstack(xs, format=None, dtype=None):
    out = SSeq([])
    for s in as_seq(xs).segs:
        if s[0] != "one" or not isinstance(s[1], Mat) or not s[1].t:
            raise Unsupported("hstack")
        out = out + s[1].rows
    return Mat(out, True)


def entries():
    return {"csr_matrix": csr_matrix, "csr_array": csr_matrix, "csc_matrix": csr_matrix, "coo_matrix": csr_matrix,
            "block_diag": block_diag, "vstack": vstack, "hstack": hstack}

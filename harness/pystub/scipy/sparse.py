"""Stand-in for scipy.sparse where scipy is not installed: the Python module hands its sparse matrices over through this constructor."""
import numpy as np


class _Compressed:
    row_major = True

    def __init__(self, parts, shape=None):
        self.data, self.indices, self.indptr = (np.array(p, copy=True) for p in parts)
        self.shape = tuple(int(x) for x in shape)

    def toarray(self):
        M = np.zeros(self.shape)
        n = self.shape[0] if self.row_major else self.shape[1]
        for i in range(n):
            for k in range(self.indptr[i], self.indptr[i + 1]):
                if self.row_major:
                    M[i, self.indices[k]] += self.data[k]
                else:
                    M[self.indices[k], i] += self.data[k]
        return M


class csr_matrix(_Compressed):
    row_major = True


class csc_matrix(_Compressed):
    row_major = False

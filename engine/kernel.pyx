# cython: language_level=3, boundscheck=False
"""Marshals one linear system into the C simplex."""
from libc.stdlib cimport malloc, free
from libc.string cimport memset
from libc.stdint cimport int64_t, uint64_t, uint8_t

cdef extern from "lp.c":
    ctypedef struct W:
        int64_t hi
        uint64_t lo
    int lp_feasible(int n, int m, const int64_t *a, const W *lo, const W *hi, const uint8_t *fl, W *on, W *od)

cdef object HUGE = 1 << 126
cdef object MHUGE = -(1 << 126)
cdef object I63 = 1 << 62
cdef object MI63 = -(1 << 62)
cdef object M64 = (1 << 64) - 1

cdef int put(W *lo, W *hi, uint8_t *fl, int i, object l, object h) except -1:
    cdef uint8_t f = 0
    lo[i].hi = 0; lo[i].lo = 0; hi[i].hi = 0; hi[i].lo = 0
    if l is not None:
        if MI63 < l < I63:
            f |= 1
            lo[i].lo = <uint64_t><int64_t>l
            lo[i].hi = -1 if <int64_t>l < 0 else 0
        elif MHUGE < l < HUGE:
            f |= 1
            lo[i].hi = <int64_t>(l >> 64)
            lo[i].lo = <uint64_t>(l & M64)
    if h is not None:
        if MI63 < h < I63:
            f |= 2
            hi[i].lo = <uint64_t><int64_t>h
            hi[i].hi = -1 if <int64_t>h < 0 else 0
        elif MHUGE < h < HUGE:
            f |= 2
            hi[i].hi = <int64_t>(h >> 64)
            hi[i].lo = <uint64_t>(h & M64)
    fl[i] = f
    return 0

def lp(list names, dict atoms, list bnds, list rs, bint want):
    """(True/False/None/'py', point numerators/denominators)"""
    cdef int n = len(names), m = len(rs), N = n + m, i, j, r
    cdef int64_t *A = <int64_t *>malloc(8 * (n * m + 1))
    cdef W *lo = <W *>malloc(sizeof(W) * (N + 1))
    cdef W *hi = <W *>malloc(sizeof(W) * (N + 1))
    cdef W *on = <W *>malloc(sizeof(W) * (n + 1))
    cdef W *od = <W *>malloc(sizeof(W) * (n + 1))
    cdef uint8_t *fl = <uint8_t *>malloc(N + 1)
    cdef tuple t, row, b, kv
    try:
        memset(A, 0, 8 * (n * m + 1))
        for j in range(n):
            b = bnds[j]
            put(lo, hi, fl, j, b[0], b[1])
        for i in range(m):
            row = rs[i]
            t = row[0]
            for kv in t:
                j = atoms[kv[0]]
                A[i * n + j] = kv[1]
            put(lo, hi, fl, n + i, row[1], row[2])
        r = lp_feasible(n, m, A, lo, hi, fl, on, od)
        if r == 0:
            return False, None
        if r == 3:
            return None, None
        if r != 1:
            return "py", None
        if not want:
            return True, None
        pt = {}
        for j in range(n):
            x = ((<object>on[j].hi) << 64) | (<object>on[j].lo)
            y = ((<object>od[j].hi) << 64) | (<object>od[j].lo)
            pt[names[j]] = (x, y)
        return True, pt
    finally:
        free(A); free(lo); free(hi); free(on); free(od); free(fl)

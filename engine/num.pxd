cdef class Lin:
    cdef public object c
    cdef public tuple t
    cdef public Py_hash_t h

cdef class Num:
    cdef public dict b
    cdef public list cons
    cdef public dict rc
    cdef public dict known
    cdef public set chg
    cdef public bint dead
    cpdef tuple ab(self, a)
    cpdef tuple rng(self, Lin L)
    cpdef tuple groups(self, Lin L)
    cpdef bint setb(self, a, lo, hi)
    cpdef bint tighten(self, Lin L)
    cpdef tuple system(self, extra, full=*, seed=*)
    cpdef tuple facts(self, a)

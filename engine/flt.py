"""Floating point values: expression trees over linear integer expressions.

A tree is exact at every point (IEEE arithmetic, rounded to the width after each operation); in
between only its range is known, by evaluating the monotone operations at the ends.  Integers small
enough to be represented stay integers, so that a detour through f64 that loses nothing is no
unknown."""
import math
import struct
from fractions import Fraction
from num import *

INF = float("inf")
MANT = {16: 11, 32: 24, 64: 53}


class Flt:
    """e: ("c", bits), ("i", Lin), ("q", Lin, k) for an integer divided by k, or (op, Flt.e, ...)."""
    __slots__ = ("e", "w")

    def __init__(self, e, w):
        self.e = e
        self.w = w

    def __repr__(self):
        return "Flt%r" % (self.e,)

    def __eq__(self, o):
        return isinstance(o, Flt) and self.w == o.w and self.e == o.e

    def __hash__(self):
        return hash((self.e, self.w))


def rnd(x, w):
    if w == 64 or x != x or x in (INF, -INF):
        return x
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return INF if x > 0 else -INF


def from_bits(n, w):
    if w not in (32, 64):
        raise NotImplementedError
    return struct.unpack("<d" if w == 64 else "<f", n.to_bytes(w // 8, "little"))[0]


def to_bits(x, w):
    return int.from_bytes(struct.pack("<d" if w == 64 else "<f", x), "little")


def of_int(n, w):
    """The nearest float, ties to even, in one rounding."""
    s, n = (-1, -n) if n < 0 else (1, n)
    k = n.bit_length() - MANT[w]
    if k > 0:
        q, r = n >> k, n & ((1 << k) - 1)
        h = 1 << (k - 1)
        if r > h or (r == h and q & 1):
            q += 1
        n = q << k
    if w == 32 and n >= 1 << 128:
        return s * INF
    return s * float(n)


def fadd(a, b):
    return a + b


def fmul(a, b):
    if (a in (INF, -INF) and b == 0) or (b in (INF, -INF) and a == 0):
        return float("nan")
    return a * b


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return float("nan")
        return math.copysign(INF, a) * math.copysign(1.0, b)
    return a / b


def frem(a, b):
    if b == 0 or a in (INF, -INF) or a != a or b != b:
        return float("nan")
    return math.fmod(a, b)


def fround(x):
    f = math.floor(abs(x))
    return math.copysign(f + 1 if abs(x) - f >= 0.5 else f, x)


def whole(f):
    return lambda x: x if x != x or x in (INF, -INF) else math.copysign(float(f(x)), x) if f(x) == 0 else float(f(x))


def fmin(a, b):
    return b if a != a else a if b != b else min(a, b)


def fmax(a, b):
    return b if a != a else a if b != b else max(a, b)


def fpowi(a, n):
    n = int(n)
    r, b = 1.0, abs(n)
    while b:
        if b & 1:
            r = fmul(r, a)
        b >>= 1
        if b:
            a = fmul(a, a)
    return fdiv(1.0, r) if n < 0 else r


def fma(a, b, c):
    if not all(math.isfinite(x) for x in (a, b, c)):
        return fmul(a, b) + c
    r = Fraction(a) * Fraction(b) + Fraction(c)
    return float(r) if r else fmul(a, b) + c


def freme(a, b):
    r = frem(a, b)
    return r + abs(b) if r < 0 else r


def fdive(a, b):
    q = whole(math.trunc)(fdiv(a, b))
    if frem(a, b) < 0:
        return q - 1.0 if b > 0 else q + 1.0
    return q


OPS = {
    "add": fadd, "sub": lambda a, b: a - b, "mul": fmul, "div": fdiv, "rem": frem,
    "neg": lambda a: -a, "abs": abs, "floor": whole(math.floor), "ceil": whole(math.ceil),
    "trunc": whole(math.trunc), "round": whole(fround), "rint": whole(round), "powi": fpowi,
    "min": fmin, "max": fmax, "copysign": math.copysign, "fract": lambda a: a - whole(math.trunc)(a),
    "f2f": lambda a: a, "sqrt": lambda a: math.sqrt(a) if a >= 0 else float("nan"),
    "mul_add": fma, "rem_euclid": freme, "div_euclid": fdive,
    "signum": lambda a: a if a != a else math.copysign(1.0, a),
}
MONOTONE = {"neg", "floor", "ceil", "trunc", "round", "rint", "f2f", "sqrt"}


def fev(e, w):
    """Value of a tree whose linear expressions have been replaced by integers (see fargs)."""
    k = e[0]
    if k == "c":
        return from_bits(e[1], w)
    if k == "i":
        return of_int(e[1], w)
    if k == "q":
        return rnd(of_int(e[1], w) / e[2], w)
    if k == "w":                # a subtree of another width
        return fev(e[2], e[1])
    if k == "n":
        return e[1]
    if k == "ofbits":
        return from_bits(e[1], w)
    try:
        return rnd(OPS[k](*[fev(x, w) for x in e[1:]]), w)
    except (OverflowError, ValueError):
        raise KeyError(k)       # no value at this point


def frange(st, e, w):
    """(lo, hi) or None; None also where the value may be no number."""
    k = e[0]
    if k == "c":
        x = from_bits(e[1], w)
        return None if x != x else (x, x)
    if k == "n":
        return (e[1], e[1])
    if k in ("i", "q"):
        l, h = st.rng(e[1])
        if l is None or h is None:
            return None
        d = e[2] if k == "q" else 1
        return rnd(of_int(l, w) / d, w), rnd(of_int(h, w) / d, w)
    if k == "w":
        return frange(st, e[2], e[1])
    if k == "ofbits":
        return None
    rs = [frange(st, x, w) for x in e[1:]]
    if None in rs:
        return None
    if k in MONOTONE:
        c = [fev((k, ("n", x)), w) for x in rs[0]]
    elif k in ("add", "sub", "mul", "min", "max"):
        c = [fev((k, ("n", x), ("n", y)), w) for x in rs[0] for y in rs[1]]
    elif k == "div" and (rs[1][0] > 0 or rs[1][1] < 0):
        c = [fev((k, ("n", x), ("n", y)), w) for x in rs[0] for y in rs[1]]
    elif k == "rem" and rs[1][0] > 0:
        c = [-rs[1][1] if rs[0][0] < 0 else 0.0, rs[1][1] if rs[0][1] > 0 else 0.0]
    elif k == "abs":
        c = [abs(x) for x in rs[0]] + ([0.0] if rs[0][0] <= 0 <= rs[0][1] else [])
    elif k == "fract":
        c = [-1.0, 1.0]
    elif k == "signum":
        c = [-1.0, 1.0]
    else:
        return None
    if any(x != x for x in c):
        return None
    return min(c), max(c)


def exact(st, e, w):
    """The integer expression a tree is always equal to, or None."""
    if e[0] == "i":
        l, h = st.rng(e[1])
        m = 1 << MANT[w]
        if l is not None and h is not None and -m <= l and h <= m:
            return e[1]
        return None
    if e[0] == "c":
        x = from_bits(e[1], w)
        if x == x and x not in (INF, -INF) and x == math.floor(x) and abs(x) <= 1 << MANT[w]:
            return C(int(x))
    return None


def const(x, w):
    return Flt(("c", to_bits(rnd(x, w), w)), w)


def isconst(e):
    return e[0] == "c"


def op(m, st, k, *xs):
    w = xs[0].w
    es = [const(fev(("i", x.e[1].c), w), w).e if x.e[0] == "i" and x.e[1].const() else x.e for x in xs]
    if all(isconst(e) for e in es):
        return const(fev((k,) + tuple(es), w), w)
    ex = [exact(st, e, w) for e in es]
    if None not in ex:
        r = None
        if k == "add":
            r = ex[0] + ex[1]
        elif k == "sub":
            r = ex[0] - ex[1]
        elif k == "mul" and (ex[0].const() or ex[1].const()):
            r = mul(ex[0], ex[1])
        elif k in ("floor", "ceil", "trunc", "round", "rint", "f2f"):
            r = ex[0]
        elif k == "div" and ex[1].const() and ex[1].c > 0:
            return Flt(("q", ex[0], ex[1].c), w)
        if r is not None:
            return Flt(("i", r), w)     # rounded like the operation on the exact operands
    e = es[0]
    if e[0] == "q" and k in ("floor", "trunc", "ceil"):
        l, h = st.rng(e[1])
        if l is not None and h is not None and max(-l, h) < 1 << (MANT[w] - 1):
            if k == "floor" or (k == "trunc" and l >= 0):
                return Flt(("i", m.div(st, e[1], e[2])), w)
            if k == "ceil" or (k == "trunc" and h <= 0):
                return Flt(("i", -m.div(st, -e[1], e[2])), w)
    return Flt((k,) + tuple(es), w)


def cmp_(x, y, w, k):
    a, b = fev(x, w), fev(y, w)
    return int({"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[k])


FNS["flt_cmp"] = cmp_


def compare(st, k, a, b):
    w = a.w
    x, y = exact(st, a.e, w), exact(st, b.e, w)
    if x is not None and y is not None:
        return {"Lt": lt, "Le": le, "Gt": gt, "Ge": ge, "Eq": eq, "Ne": ne}[k](x, y)
    r, s = frange(st, a.e, w), frange(st, b.e, w)
    if isconst(a.e) and isconst(b.e):
        return bool(cmp_(a.e, b.e, w, k))
    if r and s:
        if k in ("Lt", "Ge"):
            if r[1] < s[0]:
                return k == "Lt"
            if r[0] >= s[1]:
                return k == "Ge"
        if k in ("Gt", "Le"):
            if r[0] > s[1]:
                return k == "Gt"
            if r[1] <= s[0]:
                return k == "Le"
        if r[1] < s[0] or r[0] > s[1]:
            return k == "Ne"
    return eq(fn_atom("flt_cmp", (a.e, b.e, w, k), 0, 1), C(1))


def f2i(e, w, lo, hi):
    x = fev(e, w)
    if x != x:
        return 0
    if x in (INF, -INF):
        return hi if x > 0 else lo
    return min(hi, max(lo, math.trunc(x)))


FNS["f2i"] = f2i
FNS["fbits"] = lambda e, w: to_bits(fev(e, w), w)


def to_int(m, st, v, lo, hi):
    w = v.w
    if isconst(v.e):
        return C(f2i(v.e, w, lo, hi))
    x = exact(st, v.e, w)
    if x is None and v.e[0] == "q":
        t = op(m, st, "trunc", v)
        x = exact(st, t.e, w)
    if x is not None:
        l, h = st.rng(x)
        if lo <= l and h <= hi:
            return x
        if st.truth(lt(x, C(lo))):
            return C(lo)
        if st.truth(gt(x, C(hi))):
            return C(hi)
        return x
    r = frange(st, v.e, w)
    l, h = lo, hi
    if r is not None:
        l, h = f2i(("n", r[0]), w, lo, hi), f2i(("n", r[1]), w, lo, hi)
        if l == h:
            return C(l)
    return fn_atom("f2i", (v.e, w, lo, hi), l, h)

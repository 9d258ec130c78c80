"""Numeric abstract domain: linear expressions over atoms, intervals, linear inequalities.

An atom is an unknown integer: an input, a floor quotient, a product of atoms, or an unknown.
A state keeps interval bounds per atom and a set of linear constraints (a closed convex
polyhedron in constraint form).  Emptiness is decided by an exact rational simplex; integer
points of a (non-empty) polyhedron are looked for by bounded branch and bound."""
import ctypes, itertools, os
from math import gcd
from fractions import Fraction

try:
    import kernel
except ImportError:
    kernel = None

ROOT = os.environ.get("VERIF_ROOT") or os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
_lib = None
STATS = {"lp": 0, "lp_py": 0, "lp_unknown": 0, "bnb": 0}


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.path.join(ROOT, "build", "liblp.so"))
    return _lib


class Lin:

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __repr__(self):
        s = []
        for a, k in self.t:
            n = aname(a)
            s.append(n if k == 1 else "-" + n if k == -1 else "%d*%s" % (k, n))
        if self.c or not s:
            s.append(str(self.c))
        return " + ".join(s).replace("+ -", "- ")

    def const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        return Lin(self.c + o.c, _merge(self.t, o.t, 1))

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        if not o.t:
            return Lin(self.c - o.c, self.t)
        return Lin(self.c - o.c, _merge(self.t, o.t, -1))

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __mul__(self, k):
        if isinstance(k, Lin):
            return mul(self, k)
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((a, x * k) for a, x in self.t))

    def __rmul__(self, o):
        return self * o


def _merge(a, b, s):
    d = dict(a)
    for x, k in b:
        v = d.get(x, 0) + s * k
        if v:
            d[x] = v
        else:
            del d[x]
    return tuple(sorted(d.items()))


def C(n):
    return Lin(n)


ZERO = Lin(0)

# ---- atoms (global, hash-consed) -------------------------------------------------------------
KIND, ARGS, LO, HI, TAINT, NAME, SUPP = [], [], [], [], [], [], []
_cons = {}


def reset():
    for l in (KIND, ARGS, LO, HI, TAINT, NAME, SUPP):
        l.clear()
    _cons.clear()


def _new(kind, args, lo, hi, taint, name=None):
    KIND.append(kind); ARGS.append(args); LO.append(lo); HI.append(hi); TAINT.append(taint); NAME.append(name)
    a = len(KIND) - 1
    sup = set()
    for x in deps_of(a):
        sup.add(x)
        sup |= SUPP[x]
    SUPP.append(frozenset(sup))
    return a


def aname(a):
    k = KIND[a]
    if k == "in":
        return NAME[a]
    if k == "div":
        return "floor((%r)/%d)" % ARGS[a]
    if k == "divs":
        return "floor((%r)/(%r))" % ARGS[a]
    if k == "mono":
        return "*".join("(%s)" % aname(x) for x in ARGS[a])
    if k == "fn":
        return "%s%r" % ARGS[a]
    return "?%s%d" % (NAME[a] or "", a)


def inp(name, lo, hi):
    """The input of that name and range (same name, other range: another input)."""
    a = _cons.get(("in", name, lo, hi))
    if a is None:
        a = _new("in", (), lo, hi, False, name)
        _cons[("in", name, lo, hi)] = a
    return Lin(0, ((a, 1),))


def havoc(lo, hi, name=""):
    a = _new("havoc", (), lo, hi, True, name)
    return Lin(0, ((a, 1),))


def grange(L):
    lo = hi = L.c
    for a, k in L.t:
        l, h = LO[a], HI[a]
        if k > 0:
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        else:
            lo = None if lo is None or h is None else lo + k * h
            hi = None if hi is None or l is None else hi + k * l
    return lo, hi


def ltaint(L):
    return any(TAINT[a] for a, _ in L.t)


def div_atom(P, k):
    """floor(P/k), k > 1 constant; canonical form."""
    if k == 1:
        return P
    q = []
    r = []
    for a, c in P.t:
        if c % k == 0:
            q.append((a, c // k))
        else:
            # pull out whole multiples as well, keeping the remainder coefficient small
            r.append((a, c))
    qc, rc = divmod(P.c, k)
    Q = Lin(qc, tuple(q))
    if not r:
        return Q
    R = Lin(rc, tuple(r))
    g = k
    for a, c in R.t:
        g = gcd(g, c)
    if g > 1:
        R = Lin(R.c // g, tuple((a, c // g) for a, c in R.t))
        k //= g
        if k == 1:
            return Q + R
    if len(R.t) == 1 and R.t[0][1] == 1 and KIND[R.t[0][0]] == "div":
        P2, k2 = ARGS[R.t[0][0]]
        return Q + div_atom(P2 + R.c * k2, k * k2)
    key = ("div", R, k)
    a = _cons.get(key)
    if a is None:
        lo, hi = grange(R)
        a = _new("div", (R, k), None if lo is None else lo // k, None if hi is None else hi // k, ltaint(R))
        _cons[key] = a
    return Q + Lin(0, ((a, 1),))


def _range_mul(l1, h1, l2, h2):
    if None in (l1, h1, l2, h2):
        return None, None
    v = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
    return min(v), max(v)


def mono(fs):
    fs = tuple(sorted(fs))
    if len(fs) == 1:
        return fs[0]
    key = ("mono", fs)
    a = _cons.get(key)
    if a is None:
        lo, hi = LO[fs[0]], HI[fs[0]]
        for f in fs[1:]:
            lo, hi = _range_mul(lo, hi, LO[f], HI[f])
        if len(fs) == 2 and fs[0] == fs[1] and lo is not None:
            lo = max(lo, 0)
        a = _new("mono", fs, lo, hi, any(TAINT[f] for f in fs))
        _cons[key] = a
    return a


def mul(A, B):
    if not A.t:
        return B * A.c
    if not B.t:
        return A * B.c
    d = {}
    c = A.c * B.c
    for a, k in A.t:
        if B.c:
            d[a] = d.get(a, 0) + k * B.c
        fa = ARGS[a] if KIND[a] == "mono" else (a,)
        for b, m in B.t:
            fb = ARGS[b] if KIND[b] == "mono" else (b,)
            x = mono(fa + fb)
            d[x] = d.get(x, 0) + k * m
    if A.c:
        for b, m in B.t:
            d[b] = d.get(b, 0) + m * A.c
    return Lin(c, tuple(sorted((a, k) for a, k in d.items() if k)))


def divs_atom(P, Q):
    key = ("divs", P, Q)
    a = _cons.get(key)
    if a is None:
        lo, hi = grange(P)
        m = None if lo is None or hi is None else max(abs(lo), abs(hi)) + 1
        a = _new("divs", (P, Q), None if m is None else -m, m, ltaint(P) or ltaint(Q))
        _cons[key] = a
    return Lin(0, ((a, 1),))


# Functions without a linear description (bit operations on unknowns, floating point): the atom is
# only known by its range, but has an exact value at every point.
FNS = {}


def fn_atom(name, args, lo, hi):
    """FNS[name] of the arguments (linear expressions and constants, possibly in nested tuples)."""
    key = ("fn", name, args, lo, hi)
    a = _cons.get(key)
    if a is None:
        a = _new("fn", (name, args), lo, hi, any(TAINT[x] for x in fdeps(args)))
        _cons[key] = a
    return Lin(0, ((a, 1),))


def fdeps(x):
    if isinstance(x, Lin):
        return [a for a, _ in x.t]
    if isinstance(x, tuple):
        return [a for y in x for a in fdeps(y)]
    return []


def fargs(x, val):
    if isinstance(x, Lin):
        return evaluate(x, val)
    if isinstance(x, tuple):
        return tuple(fargs(y, val) for y in x)
    return x


def evaluate(L, val):
    """Value of L at an integer assignment of the input atoms (val: atom -> int, extended)."""
    s = L.c
    for a, k in L.t:
        s += k * aval(a, val)
    return s


def aval(a, val):
    v = val.get(a)
    if v is None:
        kd = KIND[a]
        if kd == "div":
            P, k = ARGS[a]
            v = evaluate(P, val) // k
        elif kd == "divs":
            P, Q = ARGS[a]
            q = evaluate(Q, val)
            if q == 0:
                raise ZeroDivisionError
            v = evaluate(P, val) // q
        elif kd == "mono":
            v = 1
            for f in ARGS[a]:
                v *= aval(f, val)
        elif kd == "fn":
            v = FNS[ARGS[a][0]](*fargs(ARGS[a][1], val))
        else:
            raise KeyError(a)
        val[a] = v
    return v


# ---- conditions --------------------------------------------------------------------------------
# True/False, ("ge", L) L>=0, ("eq", L), ("ne", L), ("and", x, y), ("or", x, y)
def ge(a, b):
    d = a - b
    if not d.t:
        return d.c >= 0
    return ("ge", d)


def gt(a, b):
    return ge(a, b + 1)


def le(a, b):
    return ge(b, a)


def lt(a, b):
    return gt(b, a)


def eq(a, b):
    d = a - b
    if not d.t:
        return d.c == 0
    if d.t[0][1] < 0:
        d = -d
    return ("eq", d)


def ne(a, b):
    return neg(eq(a, b))


def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == "ge":
        return ("ge", -c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "and":
        return cor(neg(c[1]), neg(c[2]))
    return cand(neg(c[1]), neg(c[2]))


def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True or a == b:
        return a
    return ("and", a, b)


def cor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False or a == b:
        return a
    return ("or", a, b)


def call_(*cs):
    r = True
    for c in cs:
        r = cand(r, c)
    return r


def cany(*cs):
    r = False
    for c in cs:
        r = cor(r, c)
    return r


def implies(a, b):
    return cor(neg(a), b)


def catoms(c, out):
    if c is True or c is False:
        return
    if c[0] in ("and", "or"):
        catoms(c[1], out); catoms(c[2], out)
    else:
        for a, _ in c[1].t:
            out.add(a)


def ceval(c, val):
    if c is True or c is False:
        return c
    k = c[0]
    if k == "ge":
        return evaluate(c[1], val) >= 0
    if k == "eq":
        return evaluate(c[1], val) == 0
    if k == "ne":
        return evaluate(c[1], val) != 0
    if k == "and":
        return ceval(c[1], val) and ceval(c[2], val)
    return ceval(c[1], val) or ceval(c[2], val)


class Split(Exception):
    """The current statement needs to know the truth of a condition."""
    def __init__(self, cond):
        self.cond = cond


def deps_of(a):
    kd = KIND[a]
    if kd == "div":
        return [x for x, _ in ARGS[a][0].t]
    if kd == "divs":
        return [x for x, _ in ARGS[a][0].t] + [x for x, _ in ARGS[a][1].t]
    if kd == "mono":
        return list(ARGS[a])
    if kd == "fn":
        return fdeps(ARGS[a][1])
    return []


class Num:
    """Numeric part of an abstract state."""

    def __init__(self):
        self.b = {}
        self.cons = []       # list of ("ge"|"eq", Lin)
        self.rc = {}
        self.known = {}
        self.chg = set()
        self.dead = False

    def ncopy(self, o):
        o.b = dict(self.b)
        o.cons = list(self.cons)
        o.rc = {}
        o.known = dict(self.known)
        o.chg = set()
        o.dead = self.dead
        return o

    # -- ranges ------------------------------------------------------------------------------
    def ab(self, a):
        r = self.rc.get(a)
        if r is not None:
            return r
        x = self.b.get(a)
        lo, hi = x if x is not None else (LO[a], HI[a])
        kd = KIND[a]
        if kd == "div":
            P, k = ARGS[a]
            l, h = self.rng(P)
            if l is not None:
                l //= k
                if lo is None or l > lo:
                    lo = l
            if h is not None:
                h //= k
                if hi is None or h < hi:
                    hi = h
        elif kd == "mono":
            fs = ARGS[a]
            l, h = self.ab(fs[0])
            for f in fs[1:]:
                l2, h2 = self.ab(f)
                l, h = _range_mul(l, h, l2, h2)
            if l is not None:
                lo = l if lo is None else max(lo, l)
            if h is not None:
                hi = h if hi is None else min(hi, h)
        elif kd == "divs":
            P, Q = ARGS[a]
            (pl, ph), (ql, qh) = self.rng(P), self.rng(Q)
            if None not in (pl, ph, ql, qh) and ql > 0:
                c = [pl // ql, pl // qh, ph // ql, ph // qh]
                lo = min(c) if lo is None else max(lo, min(c))
                hi = max(c) if hi is None else min(hi, max(c))
        r = (lo, hi)
        self.rc[a] = r
        return r

    def rng(self, L):
        t = L.t
        if not t:
            return (L.c, L.c)
        if len(t) == 1:
            a, k = t[0]
            lo, hi = self.ab(a)
            if k < 0:
                lo, hi = hi, lo
            return (None if lo is None else lo * k + L.c, None if hi is None else hi * k + L.c)
        r = self.rc.get(L)
        if r is not None:
            return r
        c, groups = self.groups(L)
        lo = hi = c
        for k, l, h in groups:
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        r = (lo, hi)
        self.rc[L] = r
        return r

    def groups(self, L):
        """Split L into const + sum k_i * u_i with ranges of u_i; remainders P - k*floor(P/k)
        are recognised as units."""
        d = dict(L.t)
        c = L.c
        out = []
        divs = [a for a in d if KIND[a] == "div"]
        if divs and len(d) > 1:
            for a in sorted(divs, reverse=True):
                co = d.get(a)
                if co is None:
                    continue
                P, k = ARGS[a]
                if co % k:
                    continue
                m = -(co // k)          # L contains m*(P - k*a)
                ok = True
                for x, y in P.t:
                    if d.get(x) != m * y:
                        ok = False
                        break
                if not ok:
                    continue
                for x, y in P.t:
                    del d[x]
                del d[a]
                c -= m * P.c
                l, h = self.rng(P)
                if l is not None and h is not None and l // k == h // k:
                    q = l // k
                    l, h = l - k * q, h - k * q
                else:
                    l, h = 0, k - 1
                out.append((m, l, h))
        for a, k in d.items():
            l, h = self.ab(a)
            out.append((k, l, h))
        return c, out

    # -- assume ------------------------------------------------------------------------------
    def setb(self, a, lo, hi):
        l, h = self.ab(a)
        nl = l if lo is None or (l is not None and l >= lo) else lo
        nh = h if hi is None or (h is not None and h <= hi) else hi
        if nl == l and nh == h:
            return False
        if nl is not None and nh is not None and nl > nh:
            self.dead = True
            return False
        self.b[a] = (nl, nh)
        self.chg.add(a)
        self.rc.clear()
        kd = KIND[a]
        if kd == "div":
            P, k = ARGS[a]
            if nl is not None:
                self.tighten(P - nl * k)
            if nh is not None and not self.dead:
                self.tighten((nh * k + k - 1) - P)
        return True

    def tighten(self, L):
        """Use L >= 0 to tighten atom bounds (interval propagation only)."""
        if len(L.t) == 1:
            a, k = L.t[0]
            if k > 0:
                return self.setb(a, -((L.c) // k) if L.c % k == 0 else -(L.c // k), None)
            return self.setb(a, None, L.c // (-k))
        ch = False
        t = L.t
        n = len(t)
        if n > 8:
            return False
        hasdiv = False
        for a, k in t:
            if KIND[a] == "div":
                hasdiv = True
        if not hasdiv:
            # hi(L) minus each term's own contribution
            tot = L.c
            miss = None
            hs = []
            for a, k in t:
                lo, hi = self.ab(a)
                h = hi if k > 0 else lo
                if h is None:
                    if miss is not None:
                        return False
                    miss = a
                    hs.append(0)
                else:
                    h = h * k
                    tot += h
                    hs.append(h)
            i = 0
            for a, k in t:
                if miss is None or miss == a:
                    h = tot - hs[i]
                    if k > 0:
                        ch |= self.setb(a, -(h // k), None)
                    else:
                        ch |= self.setb(a, None, h // (-k))
                    if self.dead:
                        return ch
                i += 1
            return ch
        i = 0
        for a, k in t:
            R = Lin(L.c, t[:i] + t[i + 1:])   # k*a + R >= 0
            i += 1
            h = self.rng(R)[1]
            if h is None:
                continue
            if k > 0:
                # a >= ceil(-h/k)
                ch |= self.setb(a, -(h // k), None)
            else:
                ch |= self.setb(a, None, h // (-k))
            if self.dead:
                return ch
        return ch

    def propagate(self, new=0):
        """Interval propagation through the constraints touched by changed bounds (the last `new`
        constraints count as touched)."""
        n = len(self.cons)
        for rnd in range(4):
            chg = self.chg
            self.chg = set()
            if not chg and (rnd or not new):
                return
            i = 0
            for k, L in self.cons:
                i += 1
                hit = rnd == 0 and i > n - new
                if not hit:
                    for a, _k in L.t:
                        if a in chg or (a >= 0 and not SUPP[a].isdisjoint(chg)):
                            hit = True
                            break
                if hit:
                    self.tighten(L)
                    if self.dead:
                        return
                    if k == "eq":
                        self.tighten(-L)
                        if self.dead:
                            return
        self.chg = set()

    def assume_ge(self, L):
        if not L.t:
            if L.c < 0:
                self.dead = True
            return not self.dead
        g = 0
        for _, k in L.t:
            g = gcd(g, k)
        if g > 1:
            L = Lin(L.c // g, tuple((a, k // g) for a, k in L.t))
        lo, hi = self.rng(L)
        if hi is not None and hi < 0:
            self.dead = True
            return False
        if lo is not None and lo >= 0:
            return True
        new = 0
        if len(L.t) == 1:
            if KIND[L.t[0][0]] == "div":
                # express over the dividend
                a, k = L.t[0]
                self.tighten(L)
                P, m = ARGS[a]
                if not self.dead and len(P.t) > 1:
                    if k == 1:
                        self.cons.append(("ge", P - (-L.c) * m))
                        new = 1
                    elif k == -1:
                        self.cons.append(("ge", (L.c * m + m - 1) - P))
                        new = 1
            else:
                self.tighten(L)
        else:
            self.cons.append(("ge", L))
            new = 1
        if not self.dead:
            self.propagate(new)
        return not self.dead

    def assume_eq(self, L):
        if not L.t:
            if L.c:
                self.dead = True
            return not self.dead
        g = 0
        for _, k in L.t:
            g = gcd(g, k)
        if L.c % g:
            self.dead = True
            return False
        if g > 1:
            L = Lin(L.c // g, tuple((a, k // g) for a, k in L.t))
        lo, hi = self.rng(L)
        if (hi is not None and hi < 0) or (lo is not None and lo > 0):
            self.dead = True
            return False
        if lo == 0 and hi == 0:
            return True
        new = 0
        if len(L.t) == 1:
            self.assume_ge(L)
            if not self.dead:
                self.assume_ge(-L)
        else:
            self.cons.append(("eq", L))
            new = 1
        if not self.dead:
            self.propagate(new)
        return not self.dead

    def quick(self, c):
        """Truth of a condition by intervals and remembered facts, or None."""
        if c is True or c is False:
            return c
        k = c[0]
        if k == "and":
            a, b = self.quick(c[1]), self.quick(c[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == "or":
            a, b = self.quick(c[1]), self.quick(c[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        v = self.known.get(c)
        if v is not None:
            return v
        lo, hi = self.rng(c[1])
        if k == "ge":
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            return None
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return k == "ne"
        if lo == 0 and hi == 0:
            return k == "eq"
        g = 0
        for _, x in c[1].t:
            g = gcd(g, x)
        if g > 1 and c[1].c % g:
            return k == "ne"
        return None

    # -- LP ------------------------------------------------------------------------------------
    def system(self, extra, full=False, seed=()):
        """Rows relevant to the extra constraints: list of (kind, Lin), and the atom list."""
        rows = list(extra)
        atoms = {}
        todo = []
        for a in seed:
            if a not in atoms:
                atoms[a] = len(atoms)
                todo.append(a)
        for _, L in extra:
            for a, _k in L.t:
                if a not in atoms:
                    atoms[a] = len(atoms)
                    todo.append(a)
        pend = list(self.cons)
        if full:
            for k, L in pend:
                for a, _k in L.t:
                    if a not in atoms:
                        atoms[a] = len(atoms)
                        todo.append(a)
            rows += pend
            pend = []
        seen = set()
        while True:
            while todo:
                a = todo.pop()
                if a in seen:
                    continue
                seen.add(a)
                for L in self.facts(a):
                    rows.append(("ge", L))
                    for x, _k in L.t:
                        if x not in atoms:
                            atoms[x] = len(atoms)
                            todo.append(x)
                for x in deps_of(a):
                    if x not in atoms:
                        atoms[x] = len(atoms)
                        todo.append(x)
            rest = []
            hit = False
            for kl in pend:
                L = kl[1]
                f = False
                for a, _k in L.t:
                    if a in atoms:
                        f = True
                        break
                if f:
                    rows.append(kl)
                    hit = True
                    for x, _k in L.t:
                        if x not in atoms:
                            atoms[x] = len(atoms)
                            todo.append(x)
                else:
                    rest.append(kl)
            pend = rest
            if not hit and not todo:
                self.products(rows, atoms)
                if full:
                    self.pairs(rows, atoms)
                return rows, atoms

    def pairs(self, rows, atoms):
        """Quotients of P and of P + d by the same k (0 < d < k) differ by 0 or 1, by 1 exactly if the remainder
        of P is at least k - d: the inequalities of these integer points.  A quotient of c - P is minus one of
        P + k - 1 - c."""
        by = {}
        for a in atoms:
            if KIND[a] == "div":
                P, k = ARGS[a]
                t = P.t
                q, c = Lin(0, ((a, 1),)), P.c
                if t[0][1] < 0:
                    t = (-P).t
                    q, c = -q, k - 1 - c
                by.setdefault((t, k), []).append((c, q))
        for (t, k), l in by.items():
            if len(l) < 2:
                continue
            l.sort(key=lambda x: x[0])
            for (c1, q1), (c2, q2) in zip(l, l[1:]):
                e, d = divmod(c2 - c1, k)
                D = q2 - q1 - e
                if d == 0:
                    rows.append(("eq", D))
                    continue
                r = Lin(c1, t) - q1 * k
                rows.append(("ge", D))
                rows.append(("ge", 1 - D))
                rows.append(("ge", r - D * (k - d)))
                rows.append(("ge", D * d + (k - d - 1) - r))

    def products(self, rows, atoms):
        """Rows multiplied by the distance of a factor from its bounds, where the products are known atoms."""
        fac = set()
        n = 0
        for a in atoms:
            if KIND[a] == "mono" and len(ARGS[a]) == 2:
                n += 1
                fac.update(ARGS[a])
        if n < 2 or n > 24:
            return
        new = []
        for k, L in rows:
            if k != "ge" or not L.t or len(L.t) > 3:
                continue
            if any(KIND[a] == "mono" for a, _k in L.t):
                continue
            for x in fac:
                ok = True
                for a, _k in L.t:
                    m = _cons.get(("mono", (a, x) if a <= x else (x, a)))
                    if m is None or m not in atoms:
                        ok = False
                        break
                if not ok:
                    continue
                lo, hi = self.ab(x)
                X = Lin(0, ((x, 1),))
                if lo is not None:
                    new.append(("ge", mul(L, X - lo)))
                if hi is not None:
                    new.append(("ge", mul(L, hi - X)))
        rows += new

    def facts(self, a):
        kd = KIND[a]
        if kd == "div":
            P, k = ARGS[a]
            d = P - Lin(0, ((a, k),))
            return (d, (k - 1) - d)
        if kd == "divs":
            P, Q = ARGS[a]
            ql, qh = self.rng(Q)
            r = P - mul(Q, Lin(0, ((a, 1),)))
            if ql is not None and ql > 0:
                return (r, Q - 1 - r)
            if qh is not None and qh < 0:
                return (-r, r - Q - 1)
            return ()
        if kd == "mono" and len(ARGS[a]) == 2:
            x, y = ARGS[a]
            (xl, xh), (yl, yh) = self.ab(x), self.ab(y)
            if None in (xl, xh, yl, yh):
                return ()
            X, Y, M = Lin(0, ((x, 1),)), Lin(0, ((y, 1),)), Lin(0, ((a, 1),))
            return (M - X * yl - Y * xl + xl * yl, M - X * yh - Y * xh + xh * yh,
                    X * yh + Y * xl - xl * yh - M, X * yl + Y * xh - xh * yl - M)
        return ()

    def feasible(self, extra, want_point=False, full=False, seed=()):
        """True/False/None(unknown): is the rational relaxation with the extra rows non-empty?"""
        rows, atoms = self.system(extra, full, seed)
        return self.solve(rows, atoms, want_point)

    def solve(self, rows, atoms, want_point=False, over=None):
        STATS["lp"] += 1
        n = len(atoms)
        names = list(atoms)
        bnds = []
        for a in names:
            lo, hi = self.ab(a)
            if over and a in over:
                l2, h2 = over[a]
                if l2 is not None:
                    lo = l2 if lo is None else max(lo, l2)
                if h2 is not None:
                    hi = h2 if hi is None else min(hi, h2)
            if lo is not None and hi is not None and lo > hi:
                return False if not want_point else (False, None)
            bnds.append((lo, hi))
        rs = []
        seen = {}
        for k, L in rows:
            if not L.t:
                if (k == "ge" and L.c < 0) or (k == "eq" and L.c != 0):
                    return False if not want_point else (False, None)
                continue
            # row value s = sum a x ; s >= -c (and s <= -c for eq)
            t = L.t
            sgn = 1
            if t[0][1] < 0:
                t = tuple((a, -x) for a, x in t)
                sgn = -1
            g = 0
            for _, x in t:
                g = gcd(g, x)
            lo = hi = None
            if k == "eq":
                if L.c % g:
                    return False if not want_point else (False, None)
                lo = hi = -sgn * L.c // g
            elif sgn > 0:
                lo = -(L.c // g)
            else:
                hi = L.c // g
            if g > 1:
                t = tuple((a, x // g) for a, x in t)
            o = seen.get(t)
            if o is None:
                seen[t] = [lo, hi]
            else:
                if lo is not None and (o[0] is None or lo > o[0]):
                    o[0] = lo
                if hi is not None and (o[1] is None or hi < o[1]):
                    o[1] = hi
        m = 0
        big = 1 << 62
        huge = 1 << 126
        py = False
        for t, (lo, hi) in seen.items():
            if lo is not None and hi is not None and lo > hi:
                return False if not want_point else (False, None)
            rs.append((t, lo, hi))
            for _, x in t:
                if abs(x) >= big:
                    py = True
        m = len(rs)
        if not py and kernel is not None:
            r = kernel.lp(names, atoms, bnds, rs, want_point)
            if r[0] != "py":
                if not want_point:
                    return r[0]
                if r[1] is None:
                    return r
                return True, {a: (x if y == 1 else Fraction(x, y)) for a, (x, y) in r[1].items()}
        elif not py:
            r = self._solve_c(names, atoms, bnds, rs, n, m, huge)
            if r is not None:
                return r if want_point else r[0]
        STATS["lp_py"] += 1
        r = solve_py(names, atoms, bnds, rs)
        if r[0] is None:
            STATS["lp_unknown"] += 1
        return r if want_point else r[0]

    def _solve_c(self, names, atoms, bnds, rs, n, m, huge):
        N = n + m
        A = [0] * (m * n)
        w_lo = []
        w_hi = []
        fl = bytearray(N)
        M64 = (1 << 64) - 1
        def put(i, lo, hi):
            f = 0
            if lo is not None and -huge < lo < huge:
                f |= 1
            else:
                lo = 0
            if hi is not None and -huge < hi < huge:
                f |= 2
            else:
                hi = 0
            fl[i] = f
            w_lo.append((lo >> 64) & M64); w_lo.append(lo & M64)
            w_hi.append((hi >> 64) & M64); w_hi.append(hi & M64)
        for j, (lo, hi) in enumerate(bnds):
            put(j, lo, hi)
        for i, (t, lo, hi) in enumerate(rs):
            base = i * n
            for a, x in t:
                A[base + atoms[a]] = x
            put(n + i, lo, hi)
        a_ = (ctypes.c_int64 * max(1, m * n))(*A)
        l_ = (ctypes.c_uint64 * max(2, 2 * N))(*w_lo)
        h_ = (ctypes.c_uint64 * max(2, 2 * N))(*w_hi)
        f_ = (ctypes.c_uint8 * max(1, N))(*fl)
        on = (ctypes.c_uint64 * max(2, 2 * n))()
        od = (ctypes.c_uint64 * max(2, 2 * n))()
        r = lib().lp_feasible(n, m, a_, l_, h_, f_, on, od)
        if r == 0:
            return (False, None)
        if r == 1:
            pt = {}
            for j, a in enumerate(names):
                x = (on[2 * j] << 64) | on[2 * j + 1]
                y = (od[2 * j] << 64) | od[2 * j + 1]
                # struct W is {hi, lo}
                if x >> 127:
                    x -= 1 << 128
                if y >> 127:
                    y -= 1 << 128
                pt[a] = Fraction(x, y)
            return (True, pt)
        if r == 3:
            return (None, None)
        return None

    # -- decisions -------------------------------------------------------------------------------
    def refuted_rel(self, rows):
        """True if the conjunction of rows is certainly infeasible with this state (rationally)."""
        return self.feasible(rows) is False

    def dnf(self, c):
        """Disjunction of conjunctions of ("ge"/"eq", Lin) rows equivalent to c (ne split)."""
        if c is True:
            return [[]]
        if c is False:
            return []
        k = c[0]
        if k == "ge":
            return [[c]]
        if k == "eq":
            return [[c]]
        if k == "ne":
            return [[("ge", c[1] - 1)], [("ge", -c[1] - 1)]]
        if k == "or":
            return self.dnf(c[1]) + self.dnf(c[2])
        l, r = self.dnf(c[1]), self.dnf(c[2])
        return [x + y for x in l for y in r]

    def may(self, c):
        """Could c hold in this state?  False only if certainly not."""
        q = self.quick(c)
        if q is not None:
            return q
        for rows in self.dnf(c):
            if any(self.quick(r) is False for r in rows):
                continue
            if self.feasible(rows) is not False:
                return True
        return False

    def entails(self, c):
        q = self.quick(c)
        if q is True:
            return True
        return not self.may(neg(c))

    def entails_all(self, cs, known=None):
        """Which of the single-literal conditions are entailed; one point of the state rules out most."""
        res = [None] * len(cs)
        at = set()
        for i, c in enumerate(cs):
            if known is not None and known[i]:
                res[i] = True
                continue
            res[i] = self.quick(c)
            if res[i] is None:
                catoms(c, at)
        if None in res:
            ok, pt = self.feasible([], True, seed=at)
            for i, c in enumerate(cs):
                if res[i] is None:
                    if ok:
                        v = c[1].c
                        for a, k in c[1].t:
                            v += k * pt[a]
                        if (v < 0 if c[0] == "ge" else v != 0 if c[0] == "eq" else v == 0):
                            res[i] = False
                            continue
                    res[i] = not self.may(neg(c))
        return tuple(bool(x) for x in res)

    def witness(self, c, budget=400):
        """Look for an integer point of this state that satisfies c.  Returns dict or None,
        or False if there is certainly none."""
        allinf = True
        for rows in self.dnf(c):
            if any(self.quick(r) is False for r in rows):
                continue
            r = self.bnb(rows, budget)
            if r is False:
                continue
            allinf = False
            if r is not None:
                return r
        if not allinf and any(kd in ("mono", "divs", "fn") for kd in KIND):
            for f in (self.grid, self.probe):
                for rows in self.dnf(c):
                    r = f(rows)
                    if r is not None:
                        return r
        return False if allinf else None

    def grid(self, rows, limit=4000):
        """Corner values of the inputs, for states with products of unknowns."""
        ins = self.hard_inputs(rows)
        if ins is None or len(ins) > 6:
            return None
        vals = []
        for a in sorted(ins):
            lo, hi = self.ab(a)
            l, h = (-9 if lo is None else lo), (9 if hi is None else hi)
            cs = [h, l, 1, -1, 2, h - 1, l + 1, 3, -2, h // 2 + 1, -(h // 2) - 2, 0, 7, -3]
            out = []
            for x in cs:
                if l <= x <= h and x not in out:
                    out.append(x)
            vals.append(out)
        k = max(2, int(limit ** (1.0 / max(1, len(ins))))) if ins else 1
        for pt in itertools.product(*[v[:k] for v in vals]):
            r = self.check_point(rows, dict(zip(sorted(ins), pt)))
            if r is not None:
                return r
        return None

    def hard_inputs(self, rows):
        """Inputs behind the rows and this state, if products or functions are among their atoms."""
        rows2, atoms = self.system(rows, full=True)
        todo, ins, seen = list(atoms), [], set()
        more = list(self.known) + list(getattr(self, "filters", ()))
        while more:
            x = more.pop()
            if isinstance(x, Lin):
                todo += [b for b, _ in x.t]
            elif isinstance(x, (tuple, list)):
                more += x
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            if KIND[a] == "havoc":
                return None
            if KIND[a] == "in":
                ins.append(a)
            todo += deps_of(a)
        if not any(KIND[a] in ("mono", "divs", "fn") for a in seen):
            return None
        return ins

    def probe(self, rows, limit=160):
        """Points of the polyhedron with one input at a chosen value, or all of them spread out."""
        ins = self.hard_inputs(rows)
        if ins is None or len(ins) > 40:
            return None
        rows2, atoms = self.system(rows, full=True)
        ins = [a for a in sorted(ins) if a in atoms]
        if not ins:
            return None

        def at(a, f):
            lo, hi = self.ab(a)
            lo = -(1 << 40) if lo is None else lo
            hi = (1 << 40) if hi is None else hi
            return lo + (hi - lo) * f // 1000003

        n = 0
        for f in (1000003, 0, 999999, 7, 618034, 300007, 500002):
            for a in ins:
                n += 1
                if n > limit:
                    break
                x = at(a, f)
                ok, pt = self.solve(rows2, atoms, True, {a: (x, x)})
                if ok:
                    v = self.try_point(rows, atoms, pt)
                    if v is not None:
                        return v
        for i in range(12):
            over = {}
            pt = None
            for j, a in enumerate(ins if i % 2 else ins[::-1]):
                x = at(a, (618034 * (i * 41 + j * 7 + 1) + i * 9973) % 1000003)
                o = dict(over)
                o[a] = (x, x)
                ok, p = self.solve(rows2, atoms, True, o)
                if not ok:
                    continue
                over, pt = o, p
                if i < 4:
                    v = self.try_point(rows, atoms, pt)
                    if v is not None:
                        return v
            if pt is not None:
                v = self.try_point(rows, atoms, pt)
                if v is not None:
                    return v
        return None

    def bnb(self, rows, budget):
        STATS["bnb"] += 1
        rows2, atoms = self.system(rows, full=True)
        stack = [({}, 0)]
        n = 0
        unknown = False
        while stack:
            over, depth = stack.pop()
            n += 1
            if n > budget:
                return None
            ok, pt = self.solve(rows2, atoms, True, over)
            if ok is False:
                continue
            if ok is None:
                unknown = True
                continue
            # try the point itself, rounded, through evaluation
            v = self.try_point(rows, atoms, pt)
            if v is not None:
                return v
            # branch on a fractional atom (prefer inputs), else on a product atom that disagrees
            fr = [a for a in atoms if pt[a].denominator != 1]
            if not fr:
                # integral but not consistent (products): branch on a factor
                cand = None
                for a in atoms:
                    if KIND[a] == "mono":
                        p = 1
                        for f in ARGS[a]:
                            p *= pt[f]
                        if p != pt[a]:
                            for f in ARGS[a]:
                                lo, hi = self.ab(f)
                                o = over.get(f, (None, None))
                                lo = o[0] if o[0] is not None else lo
                                hi = o[1] if o[1] is not None else hi
                                if lo != hi:
                                    cand = (f, lo, hi)
                                    break
                        if cand:
                            break
                if not cand:
                    unknown = True
                    continue
                f, lo, hi = cand
                x = int(pt[f])
                o = over.get(f, (None, None))
                for nb in ((o[0], x - 1), (x + 1, o[1]), (x, x)):
                    o2 = dict(over)
                    o2[f] = nb
                    stack.append((o2, depth + 1))
                continue
            a = min(fr, key=lambda a: (KIND[a] != "in", a))
            x = pt[a]
            fl = x.numerator // x.denominator
            o = over.get(a, (None, None))
            up = dict(over)
            up[a] = (fl + 1, o[1])
            dn = dict(over)
            dn[a] = (o[0], fl)
            if (x - fl) > Fraction(1, 2):
                stack.append((dn, depth + 1)); stack.append((up, depth + 1))
            else:
                stack.append((up, depth + 1)); stack.append((dn, depth + 1))
        return None if unknown else False

    def try_point(self, rows, atoms, pt):
        val = {}
        for a in atoms:
            if KIND[a] in ("in", "havoc"):
                x = pt[a]
                v = x.numerator // x.denominator
                if x.denominator != 1 and (x - v) * 2 > 1:
                    v += 1
                val[a] = v
        return self.check_point(rows, val)

    def check_point(self, rows, val):
        try:
            val = dict(val)
            # inputs mentioned only by bounds
            for a in range(len(KIND)):
                if KIND[a] == "in" and a not in val:
                    lo, hi = self.ab(a)
                    val[a] = lo if lo is not None and lo > 0 else (hi if hi is not None and hi < 0 else 0)
            for k, L in list(rows) + self.cons:
                v = evaluate(L, val)
                if (k == "ge" and v < 0) or (k == "eq" and v != 0):
                    return None
            for a, (lo, hi) in self.b.items():
                v = aval(a, val)
                if (lo is not None and v < lo) or (hi is not None and v > hi):
                    return None
            for c, v in self.known.items():
                if ceval(c, val) != v:
                    return None
            for c in getattr(self, "filters", ()):
                if not ceval(c, val):
                    return None
            return val
        except (KeyError, ZeroDivisionError):
            return None


def solve_py(names, atoms, bnds, rs):
    """The same simplex on unbounded fractions (rarely needed)."""
    n, m = len(names), len(rs)
    N = n + m
    T = [[Fraction(0)] * n for _ in range(m)]
    L = [b[0] for b in bnds] + [r[1] for r in rs]
    H = [b[1] for b in bnds] + [r[2] for r in rs]
    val = [Fraction(0)] * N
    for j in range(n):
        val[j] = Fraction(L[j]) if L[j] is not None else Fraction(H[j]) if H[j] is not None else Fraction(0)
    for i, (t, _, _) in enumerate(rs):
        s = Fraction(0)
        for a, x in t:
            T[i][atoms[a]] = Fraction(x)
            s += x * val[atoms[a]]
        val[n + i] = s
    bas = [n + i for i in range(m)]
    non = list(range(n))
    for _ in range(400):
        r, low = -1, False
        for i in range(m):
            v = bas[i]
            if L[v] is not None and val[v] < L[v]:
                if r < 0 or v < bas[r]:
                    r, low = i, True
            elif H[v] is not None and val[v] > H[v]:
                if r < 0 or v < bas[r]:
                    r, low = i, False
        if r < 0:
            return True, {a: val[j] for j, a in enumerate(names)}
        v, c = bas[r], -1
        for j in range(n):
            t = T[r][j]
            if t == 0:
                continue
            u = non[j]
            if (t > 0) == low:
                if H[u] is not None and val[u] >= H[u]:
                    continue
            elif L[u] is not None and val[u] <= L[u]:
                continue
            if c < 0 or u < non[c]:
                c = j
        if c < 0:
            return False, None
        target = L[v] if low else H[v]
        piv = T[r][c]
        u = non[c]
        th = (target - val[v]) / piv
        val[v] = Fraction(target)
        val[u] += th
        for i in range(m):
            if i != r and T[i][c]:
                val[bas[i]] += T[i][c] * th
        ip = 1 / piv
        T[r] = [(-x * ip if j != c else ip) for j, x in enumerate(T[r])]
        for i in range(m):
            if i != r:
                f = T[i][c]
                if f:
                    row = T[r]
                    T[i] = [(f * ip if j == c else T[i][j] + f * row[j]) for j in range(n)]
        bas[r], non[c] = u, v
    return None, None

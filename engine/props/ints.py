"""Instants, durations, integer helpers, cursors: I01-I05, U01, K01."""
import math
import re
from num import *
from interp import *
import spec
from spec import *
from . import REG, Prop
from .gnd import finish, split, outcomes, both, option

INTS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}


def trange(t):
    b = INTS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t[0] == "i" else (0, (1 << b) - 1)


def holds(t, v):
    lo, hi = trange(t)
    return lo <= v <= hi


SCALES = {"Seconds": 1, "Milliseconds": 1000, "Nanoseconds": 10 ** 9}
TYPE_RE = r"((?:u|i)(?:8|16|32|64|128|size))"
SC_RE = r"scale::(\w+)"


class Api:
    """All instances of a generic item: name with groups -> [(groups, fn)]."""

    def __init__(self, D):
        self.D = D
        self.memo = {}

    def all(self, pat):
        r = re.compile(pat.replace("$T", TYPE_RE).replace("$S", SC_RE) + r"\Z")
        out = []
        for f in self.D.F.values():
            if f.local and f.bb is not None:
                m = r.match(f.name)
                if m:
                    out.append((m.groups(), f))
        if not out:
            raise Missing(pat)
        return out

    def get(self, name):
        f = self.D.find(name)
        if f is None:
            raise Missing(name)
        return f


def light(D):
    """A world without leap-second table contents (no date-time involved)."""
    N.reset()
    CONSTMEM.clear()
    w = object.__new__(World)
    w.D = D
    w.code = Code(D)
    w.n = 0
    w.env = Env(0)
    w.models = Models(w.env)
    w.m = Machine(D, w.models, deadline=spec.DEADLINE)
    for f in D.F.values():
        if f.model:
            f.model = 0
    w.st0 = State()
    return w


class Multi:
    """Collects the results of many small analyses in one job."""

    def __init__(self, D):
        self.D = D
        self.res = Result()
        self.w = None

    def __enter__(self):
        self.w = light(self.D)
        return self.w

    def __exit__(self, et, e, tb):
        for k, v in self.w.m.fnseen.items():
            self.res.fns[k] = self.res.fns.get(k, 0) + v
        self.res.paths += self.w.m.stats["paths"]
        if et is not None and issubclass(et, (Unsupported, Inconclusive, Missing, RecursionError)):
            self.res.count("analysis", 2)
            self.res.open.append({"rule": "analysis", "entry": getattr(self, "what", "?"), "why": "%s: %s" % (et.__name__, e)})
            return True
        return False


def mk(w, api, kind, t, s, ticks, st):
    """The instant or duration value with these ticks."""
    if kind == "I":
        f = api.get("instant::Instant::<%s, scale::%s>::from_ticks_since_epoch" % (t, s))
    else:
        f = api.get("duration::Duration::<%s, scale::%s>::new" % (t, s))
    o = w.one(f, [ticks], st, "making a value")
    return o.val, o.st


def rd(w, api, kind, t, s, v, st):
    if kind == "I":
        f = api.get("instant::Instant::<%s, scale::%s>::ticks_since_epoch" % (t, s))
    else:
        f = api.get("duration::Duration::<%s, scale::%s>::ticks" % (t, s))
    o = w.one(f, [Ptr(st.alloc(v))], st, "reading ticks")
    return o.val, o.st


def order_is(w, cx, o, v, A, B, label, msg):
    """v (Ordering) is the comparison of A and B."""
    conds = (lt(A, B), eq(A, B), gt(A, B))
    if isinstance(v, Agg) and v.v is not None:
        cx.prove(o.st, conds[v.v], label, msg)
    elif isinstance(v, SymEnum):
        for i in range(3):
            for s in o.st.copy().assume_lp(eq(v.l, C(i))):
                cx.prove(s, conds[i], label, msg)
    else:
        raise Inconclusive("ordering %r" % (v,))


# ---- I01 -----------------------------------------------------------------------------------------------
def job_cmp(D, t1, s1):
    api = Api(D)
    M = Multi(D)
    todo = []
    I1 = r"instant::Instant<%s, scale::%s>" % (t1, s1)
    for meth, tr in (("eq", "PartialEq"), ("partial_cmp", "PartialOrd"), ("cmp", "Ord")):
        try:
            for g, f in api.all(r"<" + I1 + r" as std::cmp::" + tr + r"<instant::Instant<$T, $S>>>::" + meth):
                todo.append((meth, g[0], g[1], f))
        except Missing:
            pass
        f = D.find("<" + I1 + " as std::cmp::" + tr + ">::" + meth)
        if f is not None and f.bb is not None:
            todo.append((meth, t1, s1, f))
    if not todo:
        raise Missing("comparison of Instant<%s, %s>" % (t1, s1))
    for meth, t2, s2, f in todo:
        M.what = f.name
        with M as w:
            cx = Ctx(M.res, f, w)
            a, b = inp("ticks a", *trange(t1)), inp("ticks b", *trange(t2))
            S = max(SCALES[s1], SCALES[s2])
            A, B = a * (S // SCALES[s1]), b * (S // SCALES[s2])
            va, st = mk(w, api, "I", t1, s1, a, w.st0.copy())
            vb, st = mk(w, api, "I", t2, s2, b, st)
            pa, pb = Ptr(st.alloc(va)), Ptr(st.alloc(vb))
            for o in outcomes(w, cx, f, [pa, pb], st, "I01 no overflow or panic"):
                M.res.count("I01 no overflow or panic", 0)
                if meth == "eq":
                    # case split on the coarser value against the rounded finer one
                    k1, k2 = S // SCALES[s1], S // SCALES[s2]
                    q, c = (div_atom(a, k2), b) if k2 > 1 else (div_atom(b, k1), a)
                    for s3 in [x for k in (lt(c, q), eq(c, q), gt(c, q)) for x in o.st.copy().assume_lp(k)]:
                        both(cx, Outcome("ret", s3, o.val), eq(A, B), "I01 equality", "instants compare equal although they denote different moments, or the other way round")
                    continue
                v = o.val
                if meth == "partial_cmp":
                    some, v = option(v)
                    if not some:
                        cx.prove(o.st, False, "I01 order", "instants are incomparable")
                        continue
                order_is(w, cx, o, v, A, B, "I01 order", "the order of two instants is not that of the moments they denote")
    return M.res


def jobs_i01(D, tier):
    ts = sorted({g[0] for g, _ in Api(D).all(r"instant::Instant::<$T, $S>::ticks_since_epoch")})
    return [("compare %s %s" % (t, s), job_cmp, (t, s)) for t in ts for s in SCALES]


# ---- I02 ------------------------------------------------------------------------------------------------
def job_scale(D, t):
    api = Api(D)
    M = Multi(D)
    for kind, path in (("I", "instant::Instant"), ("D", "duration::Duration")):
        for meth in ("floor", "split"):
            try:
                al = api.all(path + "::<" + t + r", $S>::" + meth + "::<$S>")
            except Missing:
                if meth == "floor":
                    raise
                continue
            for (s, s2), f in al:
                if SCALES[s2] > SCALES[s] or not holds(t, SCALES[s]):
                    continue
                M.what = f.name
                with M as w:
                    cx = Ctx(M.res, f, w)
                    k = SCALES[s] // SCALES[s2]
                    a = inp("ticks", *trange(t))
                    v, st = mk(w, api, kind, t, s, a, w.st0.copy())
                    for o in outcomes(w, cx, f, [Ptr(st.alloc(v))], st, "I02 " + meth):
                        if meth == "floor":
                            r, st2 = rd(w, api, kind, t, s2, o.val, o.st)
                            d = a - r * k
                            cx.prove(st2, cand(ge(d, ZERO), le(d, C(k - 1))), "I02 floor", "coarsening does not give the largest coarser tick that is not later")
                        else:
                            q, st2 = rd(w, api, "I", t, s2, o.val.f[0], o.st)
                            r, st2 = rd(w, api, "D", t, s, o.val.f[1], st2)
                            cx.prove(st2, eq(q * k + r, a), "I02 split", "the parts of a split do not make up the original")
                            cx.prove(st2, cand(ge(r, ZERO), le(r, C(k - 1))), "I02 split", "the remainder of a split is negative or too large")
        if kind == "I":
            al = [((s, t2, s2), f) for (s, t2, s2), f in api.all(path + "::<" + t + r", $S>::extend::<$T, $S>")]
        else:
            al = [((s, t, s2), f) for (s, s2), f in api.all(path + "::<" + t + r", $S>::extend::<$S>")]
        for (s, t2, s2), f in al:
            if SCALES[s2] < SCALES[s]:
                continue
            M.what = f.name
            with M as w:
                cx = Ctx(M.res, f, w)
                k = SCALES[s2] // SCALES[s]
                a = inp("ticks", *trange(t))
                lo, hi = trange(t2)
                fac = holds(t2, SCALES[s]) and holds(t2, SCALES[s2])
                fit = call_(ge(a, C(lo)), le(a, C(hi)), ge(a * k, C(lo)), le(a * k, C(hi)))
                v, st = mk(w, api, kind, t, s, a, w.st0.copy())
                for o in outcomes(w, cx, f, [Ptr(st.alloc(v))], st, "I02 extend"):
                    some, x = option(o.val)
                    if some:
                        r, st2 = rd(w, api, kind, t2, s2, x, o.st)
                        cx.prove(st2, eq(r, a * k), "I02 extend", "refining changes the value")
                    else:
                        cx.prove(o.st, cor(neg(fit), not fac) if fac else True, "I02 extend", "refining fails although the value and the factor fit")
    return M.res


def types(D):
    return sorted({g[0] for g, _ in Api(D).all(r"instant::Instant::<$T, $S>::ticks_since_epoch")})


def jobs_i02(D, tier):
    return [("scale %s" % t, job_scale, (t,)) for t in types(D)]


# ---- I03 ------------------------------------------------------------------------------------------------
def job_arith(D, t, s):
    api = Api(D)
    M = Multi(D)
    lo, hi = trange(t)
    I_, D_ = "instant::Instant<%s, scale::%s>" % (t, s), "duration::Duration<%s, scale::%s>" % (t, s)
    ops = [("instant::Instant::<%s, scale::%s>::checked_add" % (t, s), "I", "D", "I", "+", True, True),
           ("<%s as std::ops::Add<%s>>::add" % (I_, D_), "I", "D", "I", "+", False, False),
           ("<%s as std::ops::Sub>::sub" % I_, "I", "I", "D", "-", False, False),
           ("<%s as std::ops::Add>::add" % D_, "D", "D", "D", "+", False, False),
           ("<%s as std::ops::Sub>::sub" % D_, "D", "D", "D", "-", False, False),
           ("<%s as std::ops::Mul<%s>>::mul" % (D_, t), "D", "T", "D", "*", False, False)]
    for nm, k1, k2, k3, op, checked, byref in ops:
        f = D.find(nm)
        if f is None:
            M.res.notes.append("not present: " + nm)
            continue
        M.what = nm
        with M as w:
            cx = Ctx(M.res, f, w)
            a, b = inp("left", lo, hi), inp("right", lo, hi)
            exact = a + b if op == "+" else a - b if op == "-" else mul(a, b)
            fit = cand(ge(exact, C(lo)), le(exact, C(hi)))
            st = w.st0.copy()
            va, st = mk(w, api, k1, t, s, a, st)
            if k2 == "T":
                vb = b
            else:
                vb, st = mk(w, api, k2, t, s, b, st)
            lab = "I03 exact or visible failure"
            for o in outcomes(w, cx, f, [Ptr(st.alloc(va)) if byref else va, vb], st, lab, panic_ok=True):
                if o.kind == "panic":
                    kind = o.info[0] if o.info else ""
                    if checked:
                        cx.impossible(o, lab, "the checked operation panics")
                    elif kind in ("overflow", "arith", "assert_overflow") or "overflow" in str(o.info[:1]).lower():
                        cx.impossible(o, "I03 no wrapping in release builds", "the operation relies on a debug-only overflow check, so it wraps silently in release builds")
                    else:
                        cx.prove(o.st, neg(fit), lab, "the operation fails although the result is representable")
                    continue
                v = o.val
                if checked:
                    some, v = option(v)
                    if not some:
                        cx.prove(o.st, neg(fit), lab, "the operation fails although the result is representable")
                        continue
                r, st2 = rd(w, api, k3, t, s, v, o.st)
                cx.prove(st2, eq(r, exact), lab, "the result is not the exact mathematical one")
    return M.res


def jobs_i03(D, tier):
    return [("arithmetic %s %s" % (t, s), job_arith, (t, s)) for t in types(D) for s in SCALES]


# ---- I04 ------------------------------------------------------------------------------------------------
def result(v):
    if isinstance(v, Agg) and v.v is not None:
        return v.v == 0, (v.f[0] if v.f else None)
    raise Inconclusive("result is not a Result variant")


def job_width(D, t):
    api = Api(D)
    M = Multi(D)
    lab = "I04 value kept or failure reported"
    todo = []
    for kind, path in (("I", "instant::Instant"), ("D", "duration::Duration")):
        for meth in ("try_from", "try_into", "into", "from", "widen"):
            try:
                al = api.all(path + "::<" + t + r", $S>::" + meth + "::<$T>")
            except Missing:
                continue
            for (s, t2), f in al:
                src, dst = (t2, t) if meth in ("try_from", "from") else (t, t2)
                todo.append((kind, meth, s, src, dst, f))
    if not todo:
        raise Missing("width conversions of " + t)
    for kind, meth, s, src, dst, f in todo:
        M.what = f.name
        with M as w:
            cx = Ctx(M.res, f, w)
            a = inp("ticks", *trange(src))
            # Duration::try_from converts from an instant
            akind = "I" if w.T[f.locals[1]]["name"].startswith("instant") else "D"
            lo, hi = trange(dst)
            if meth == "widen":
                rt = w.T[f.locals[0]]["name"]
                dst = re.search(TYPE_RE, rt).group(1)
                cx.prove(w.st0, True if trange(dst)[1] >= max(trange(src)[1], 0) else False, lab, "the wider type is narrower than the source")
            fit = cand(ge(a, C(lo)), le(a, C(hi)))
            v, st = mk(w, api, akind, src, s, a, w.st0.copy())
            for o in outcomes(w, cx, f, [v], st, lab):
                v = o.val
                if meth.startswith("try"):
                    ok, v = result(v)
                    if not ok:
                        cx.prove(o.st, neg(fit), lab, "a conversion fails although the value fits")
                        continue
                okind = "I" if w.T[f.locals[0]]["name"].find("instant::Instant<") in range(0, 30) else "D"
                r, st2 = rd(w, api, okind, dst, s, v, o.st)
                cx.prove(st2, eq(r, a), lab, "a conversion changes the number of ticks")
    for pat, two in ((r"<" + t + r" as widen::Widen<$T>>::widen", False), (r"<" + t + r" as least_common_width::LeastCommonWidth<$T>>::least_common_width", True)):
        try:
            al = api.all(pat)
        except Missing:
            if t not in ("usize", "isize"):
                M.res.notes.append("not present: " + pat)
            continue
        for (t2,), f in al:
            M.what = f.name
            with M as w:
                cx = Ctx(M.res, f, w)
                a, b = inp("left", *trange(t)), inp("right", *trange(t2))
                for o in outcomes(w, cx, f, [a, b] if two else [a], w.st0.copy(), lab):
                    if two:
                        cx.prove(o.st, cand(eq(o.val.f[0], a), eq(o.val.f[1], b)), lab, "common-width promotion changes a value")
                    else:
                        cx.prove(o.st, eq(o.val, a), lab, "widening changes a value")
    return M.res


def jobs_i04(D, tier):
    return [("widths %s" % t, job_width, (t,)) for t in types(D)]


# ---- U01 -------------------------------------------------------------------------------------------------
def subst(st, L):
    """L with every atom that has a single possible value replaced, inside products too."""
    out = C(L.c)
    for a, k in L.t:
        t = C(k)
        for f in (ARGS[a] if KIND[a] == "mono" else (a,)):
            lo, hi = st.ab(f)
            t = mul(t, C(lo) if lo is not None and lo == hi else Lin(0, ((f, 1),)))
        out = out + t
    return out


def divisible(st, L, b):
    """L is a multiple of b: as polynomials, or a small multiple in this state."""
    L = subst(st, L)
    lo, hi = st.rng(b)
    if lo == hi:
        if L.c % lo == 0 and all(k % lo == 0 for _, k in L.t):
            return True
    else:
        (x, k), = b.t
        if not L.c and all(a == x or (KIND[a] == "mono" and x in ARGS[a]) for a, _ in L.t):
            return True
    return any(st.quick(eq(L, b * k)) is True or not st.may(ne(L, b * k)) for k in range(-3, 4))


def not_divisible_point(st, L, b):
    """A concrete execution of this state in which L is not a multiple of b."""
    val = st.witness(True)
    if not val or any(KIND[a] == "havoc" for a in val):
        return None
    v = dict(val)
    return val if evaluate(L, v) % evaluate(b, v) else None


def signs(w, st, t, *vs):
    """Case split on the signs of the values."""
    out = [st]
    for v, nonzero in vs:
        cs = [ge(v, C(1))] + ([eq(v, ZERO)] if not nonzero else []) + ([le(v, C(-1))] if t[0] == "i" else [])
        out = [y for x in out for c in cs for y in x.copy().assume_lp(c)]
    return out


def job_divrem(D, t, which):
    api = Api(D)
    M = Multi(D)
    lo, hi = trange(t)

    def run(nm, vals, byref, f2):
        if not nm.endswith("::" + which):
            return
        f = D.find(nm)
        if f is None:
            M.res.notes.append("not present: " + nm)
            return
        M.what = nm
        with M as w:
            cx = Ctx(M.res, f, w)
            f2(w, cx, f)

    def sided(cx, st, r, b, ceil, lab, nm):
        for s in signs(None, st, t, (b, True)):
            pos = s.truth(ge(b, C(1)))
            if ceil:
                c = cand(le(r, ZERO), ge(r, 1 - b)) if pos else cand(ge(r, ZERO), le(r, -b - 1))
            else:
                c = cand(ge(r, ZERO), le(r, b - 1)) if pos else cand(le(r, ZERO), ge(r, b + 1))
            cx.prove(s, c, lab, "the remainder of %s is on the wrong side or not smaller than the divisor" % nm)

    def rem_floor(w, cx, f):
        a, b = inp("dividend", lo, hi), inp("divisor", lo, hi)
        for st in signs(w, w.st0.copy(), t, (a, False), (b, True)):
            p = Ptr(st.alloc(a))
            for s in (st.assume_lp(cor(ne(a, C(lo)), ne(b, C(-1)))) if t[0] == "i" else [st]):
                for o in outcomes(w, cx, f, [p, b], s, "U01 remainder"):
                    d = a - o.val
                    if divisible(o.st, d, b):
                        M.res.count("U01 identity", 0)
                    else:
                        v = not_divisible_point(o.st, d, b)
                        if v is None:
                            M.res.count("U01 identity", 2)
                            M.res.open.append({"rule": "U01 identity", "entry": f.name, "why": "multiple of the divisor not shown"})
                        else:
                            cx.viol("U01 identity", "dividend minus remainder is not a multiple of the divisor", o.st, fmt_point(v))
                    sided(cx, o.st, o.val, b, False, "U01 remainder", f.name)

    def check_qr(w, cx, o, total, q, r, b, ceil):
        # polynomial identity: total = q * b + r
        d = subst(o.st, total - mul(q, b) - r)
        if not d.t and not d.c:
            M.res.count("U01 identity", 0)
        else:
            cx.prove(o.st, eq(d, ZERO), "U01 identity", "quotient and remainder do not reconstruct the dividend")
        sided(cx, o.st, r, b, ceil, "U01 remainder", cx.entry.name)

    def div_rem_ceil(w, cx, f):
        a, b = inp("dividend", lo, hi), inp("divisor", lo, hi)
        for st in signs(w, w.st0.copy(), t, (a, False), (b, True)):
            pa, pb = Ptr(st.alloc(a)), Ptr(st.alloc(b))
            for o in outcomes(w, cx, f, [pa, pb], st, "U01", panic_ok=True):
                if o.kind == "panic":
                    cx.prove(o.st, cand(eq(a, C(lo)), eq(b, C(-1))), "U01 no overflow", "%s fails although quotient and remainder are representable" % f.name)
                    continue
                check_qr(w, cx, o, a, o.val.f[0], o.val.f[1], b, True)

    seen = set()

    def over(w, cx, f, o, a, m, b):
        # an overflow for operands whose product is representable (so the quotient is too, but for lo / -1)
        L = "U01 no intermediate overflow"
        ovf = o.info and o.info[0] == "overflow"
        if ovf and f.name in seen:
            return
        if o.st.feasible([], full=True) is False:
            M.res.count(L, 0)
            return
        if ovf:
            seen.add(f.name)
            M.res.count(L, 1)
            M.res.viol.append({"rule": L, "function": "div_rem::" + which, "file": f.file, "entry": f.name, "message": "an intermediate value may overflow",
                               "abstract_state": {}, "call_chain": [f.name]})
        else:
            cx.impossible(o, "U01", "%s panics: %s" % (f.name, o.info[1] if o.info else ""))

    def muldiv(ceil):
        def g(w, cx, f):
            a, m, b = inp("dividend", lo, hi), inp("multiplier", lo, hi), inp("divisor", lo, hi)
            for st in signs(w, w.st0.copy(), t, (a, False), (m, False), (b, True)):
                pa = Ptr(st.alloc(a))
                for o in outcomes(w, cx, f, [pa, m, b], st, "U01", panic_ok=True):
                    if o.kind == "panic":
                        over(w, cx, f, o, a, m, b)
                        continue
                    check_qr(w, cx, o, mul(a, m), o.val.f[0], o.val.f[1], b, ceil)
        return g

    run("<%s as div_rem::RemFloor>::rem_floor" % t, 2, True, rem_floor)
    run("<%s as div_rem::MulDivRemFloor>::mul_div_rem_floor" % t, 3, True, muldiv(False))
    if t[0] == "i":
        run("<%s as div_rem::DivRemCeil>::div_rem_ceil" % t, 2, True, div_rem_ceil)
        run("<%s as div_rem::MulDivRemCeil>::mul_div_rem_ceil" % t, 3, True, muldiv(True))
    try:
        al = api.all(r"<" + t + r" as div_rem::ClampedDivRem<$T>>::clamped_div_rem")
    except Missing:
        al = []
    for (tq,), f in (al if which == "clamped_div_rem" else []):
        M.what = f.name
        with M as w:
            cx = Ctx(M.res, f, w)
            a, b = inp("dividend", 0, hi), inp("divisor", 1, hi)
            mx = inp("largest quotient", 0, trange(tq)[1])
            for o in outcomes(w, cx, f, [a, b, mx], w.st0.copy(), "U01 clamped"):
                q, r = o.val.f
                d = a - mul(q, b) - r
                cx.prove(o.st, eq(d, ZERO), "U01 identity", "quotient and remainder do not reconstruct the dividend")
                cx.prove(o.st, call_(ge(q, ZERO), le(q, mx), ge(r, ZERO)), "U01 clamped", "the quotient exceeds the limit or the remainder is negative")
                for s in o.st.copy().assume_lp(lt(q, mx)):
                    cx.prove(s, lt(r, b), "U01 clamped", "the remainder is not smaller than the divisor although the quotient is below the limit")
    return M.res


def jobs_u01(D, tier):
    ts = sorted({g[0] for g, _ in Api(D).all(r"<$T as div_rem::RemFloor>::rem_floor")})
    return [("%s %s" % (x, t), job_divrem, (t, x)) for x in ("mul_div_rem_ceil", "mul_div_rem_floor", "rem_floor", "div_rem_ceil", "clamped_div_rem")
            for t in ts if t[0] == "i" or not x.endswith("ceil")]


SIGN = "; case split on the signs of the operands, products kept as polynomial atoms"
REG["I01"] = Prop(jobs_i01, "For every pair of widths and scales and symbolic ticks: eq, partial_cmp and cmp equal the comparison of ticks scaled to the finer scale; no panic or overflow assertion is reachable")
REG["I02"] = Prop(jobs_i02, "For every width and pair of scales and symbolic ticks: floor/split satisfy the rounding identity, extend yields exactly ticks times factor or None exactly when it does not fit")
REG["I03"] = Prop(jobs_i03, "For every width and scale and symbolic operands: the result equals the exact one on every returning path, failure paths imply it is not representable, and no debug-only overflow assertion can fire")
REG["I04"] = Prop(jobs_i04, "For every pair of widths and symbolic ticks: converted ticks are equal, failure implies the value does not fit the target range")
REG["U01"] = Prop(jobs_u01, "For every width and symbolic operands: dividend = quotient * divisor + remainder as polynomials, remainder on the promised side" + SIGN)


# ---- I05 -------------------------------------------------------------------------------------------------
def job_ratio(D, t, which):
    api = Api(D)
    M = Multi(D)
    ceil = which == "div_rem_ceil"
    lo, hi = trange(t)
    for (s1, s2), f in api.all(r"duration::Duration::<" + t + r", $S>::" + which + "::<$S>"):
        S1, S2 = SCALES[s1], SCALES[s2]
        if not (holds(t, S1) and holds(t, S2)):
            continue
        M.what = f.name
        with M as w:
            cx = Ctx(M.res, f, w)
            a, b = inp("dividend", lo, hi), inp("divisor", lo, hi)
            over = None
            for st in signs(w, w.st0.copy(), t, (a, False), (b, True)):
                v, s = mk(w, api, "D", t, s1, a, st)
                d, s = mk(w, api, "D", t, s2, b, s)
                L = "I05 quotient"
                for o in outcomes(w, cx, f, [Ptr(s.alloc(v)), d], s, L, panic_ok=True):
                    if "ratio" in o.st.ev or "checked overflow" in o.st.ev:
                        over = "it computes with fixed-width ratios whose intermediate values may not fit"
                    if o.kind == "panic":
                        if "checked overflow" in o.st.ev or (o.info and o.info[0] == "overflow"):
                            over = over or "an intermediate value may not fit"
                        else:
                            cx.impossible(o, L, "dividing by a non-zero duration panics: %s" % (o.info[1] if o.info else ""))
                        continue
                    q = o.val.f[0]
                    r, st2 = rd(w, api, "D", t, s1, o.val.f[1], o.st)
                    g = math.gcd(S1, S2)
                    m, n = S2 // g, S1 // g
                    # the exact remainder, in units of 1/m of a tick of the dividend's scale
                    e = a * m - mul(q, b) * n
                    sided(M, cx, t, st2, e, b * n, b, ceil)
                    x = -e if ceil else e
                    y = x - r * m
                    for c, goal in ((ge(x, ZERO), cand(ge(y, ZERO), le(y, C(m - 1)))), (le(x, C(-1)), cand(ge(y, C(1 - m)), le(y, ZERO)))):
                        for s3 in st2.copy().assume_lp(c):
                            cx.prove(s3, goal, "I05 remainder", "the remainder is not the difference between dividend and quotient times divisor")
            if over:
                M.res.count("I05 no intermediate overflow", 1)
                M.res.viol.append({"rule": "I05 no intermediate overflow", "function": "duration::Duration::" + which, "file": f.file,
                                   "entry": f.name, "message": over, "abstract_state": {}, "call_chain": [f.name]})
            else:
                M.res.count("I05 no intermediate overflow", 0)
    return M.res


def sided(M, cx, t, st, e, bn, b, ceil):
    for s in [st]:
        pos = s.truth(ge(b, C(1)))
        if ceil:
            c = cand(le(e, ZERO), ge(e, 1 - bn)) if pos else cand(ge(e, ZERO), le(e, -bn - 1))
        else:
            c = cand(ge(e, ZERO), le(e, bn - 1)) if pos else cand(le(e, ZERO), ge(e, bn + 1))
        cx.prove(s, c, "I05 quotient", "the quotient is not the exact one rounded %s" % ("up" if ceil else "down"))


def jobs_i05(D, tier):
    ts = sorted({g[0] for g, _ in Api(D).all(r"duration::Duration::<$T, $S>::div_rem_floor::<$S>")})
    return [("%s %s" % (x, t), job_ratio, (t, x)) for x in ("div_rem_floor", "div_rem_ceil") for t in ts]


REG["I05"] = Prop(jobs_i05, "For every width and pair of scales and symbolic ticks: with the rational library taken as exact arithmetic, quotient*divisor and the true remainder reconstruct the dividend as polynomials, the remainder on the promised side and returned exactly up to truncation to the dividend's scale; separately, no intermediate value may overflow" + SIGN)


# ---- I06: values ---------------------------------------------------------------------------------------
def job_value(D, t):
    api = Api(D)
    M = Multi(D)
    lo, hi = trange(t)
    IT, DT = "instant::Instant", "duration::Duration"

    def same(w, fn, kind, s, want, args, st, label, msg):
        """Every call returns the value of that kind with these ticks."""
        cx = Ctx(M.res, fn, w)
        for o in outcomes(w, cx, fn, args, st, label):
            M.res.count(label, 0)
            r, st2 = rd(w, api, kind, t, s, o.val, o.st)
            cx.prove(st2, eq(r, want), label, msg)

    for s in SCALES:
        for name, want in (("min_value", C(lo)), ("max_value", C(hi)), ("epoch", ZERO)):
            f = api.get("%s::<%s, scale::%s>::%s" % (IT, t, s, name))
            M.what = f.name
            with M as w:
                a, b = inp("ticks a", lo, hi), inp("ticks b", lo, hi)
                same(w, f, "I", s, want, [], w.st0.copy(), "I06 range", "%s of an instant is not that of its integer" % name)
        f = api.get("%s::<%s, scale::%s>::from_ticks_since_epoch" % (IT, t, s))
        M.what = f.name
        with M as w:
            a, b = inp("ticks a", lo, hi), inp("ticks b", lo, hi)
            same(w, f, "I", s, a, [a], w.st0.copy(), "I06 round trip", "an instant does not return the ticks it was made of")
        f = api.get("%s::<%s, scale::%s>::duration_since_epoch" % (IT, t, s))
        M.what = f.name
        with M as w:
            a, b = inp("ticks a", lo, hi), inp("ticks b", lo, hi)
            v, st = mk(w, api, "I", t, s, a, w.st0.copy())
            same(w, f, "D", s, a, [Ptr(st.alloc(v))], st, "I06 since epoch", "the duration since the epoch has other ticks than the instant")
        for kind, path in (("I", IT), ("D", DT)):
            f = D.find("<%s<%s, scale::%s> as std::clone::Clone>::clone" % (path, t, s))
            if f is None or f.bb is None:
                continue
            M.what = f.name
            with M as w:
                a, b = inp("ticks a", lo, hi), inp("ticks b", lo, hi)
                v, st = mk(w, api, kind, t, s, a, w.st0.copy())
                same(w, f, kind, s, a, [Ptr(st.alloc(v))], st, "I06 clone", "a clone has other ticks than the original")
        for meth, tr in (("eq", "PartialEq"), ("ne", "PartialEq"), ("partial_cmp", "PartialOrd"), ("cmp", "Ord"), ("lt", "PartialOrd"), ("le", "PartialOrd"),
                         ("gt", "PartialOrd"), ("ge", "PartialOrd"), ("max", "Ord"), ("min", "Ord")):
            f = D.find("<%s<%s, scale::%s> as std::cmp::%s>::%s" % (DT, t, s, tr, meth))
            if f is None or f.bb is None:
                if meth in ("eq", "partial_cmp", "cmp"):
                    raise Missing("%s of durations" % meth)
                continue
            M.what = f.name
            with M as w:
                a, b = inp("ticks a", lo, hi), inp("ticks b", lo, hi)
                cx = Ctx(M.res, f, w)
                va, st = mk(w, api, "D", t, s, a, w.st0.copy())
                vb, st = mk(w, api, "D", t, s, b, st)
                args = [va, vb] if meth in ("max", "min") else [Ptr(st.alloc(va)), Ptr(st.alloc(vb))]
                for o in outcomes(w, cx, f, args, st, "I06 order"):
                    v = o.val
                    M.res.count("I06 order", 0)
                    if meth in ("eq", "ne", "lt", "le", "gt", "ge"):
                        c = {"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": gt, "ge": ge}[meth](a, b)
                        both(cx, o, c, "I06 order", "the comparison %s of two durations is not that of their ticks" % meth)
                    elif meth in ("max", "min"):
                        r, st2 = rd(w, api, "D", t, s, v, o.st)
                        hi_ = (lambda x, y: le(x, y)) if meth == "max" else (lambda x, y: ge(x, y))
                        cx.prove(st2, hi_(a, r), "I06 order", "%s is not" % meth)
                        cx.prove(st2, hi_(b, r), "I06 order", "%s is not" % meth)
                    else:
                        if meth == "partial_cmp":
                            some, v = option(v)
                            if not some:
                                cx.prove(o.st, False, "I06 order", "durations are incomparable")
                                continue
                        order_is(w, cx, o, v, a, b, "I06 order", "the order of two durations is not that of their ticks")
    return M.res


def jobs_i06(D, tier):
    ts = sorted({g[0] for g, _ in Api(D).all(r"instant::Instant::<$T, $S>::ticks_since_epoch")})
    return [("values of " + t, job_value, (t,)) for t in ts]


REG["I06"] = Prop(jobs_i06, "For every width and scale and symbolic ticks: ticks survive construction, cloning and duration_since_epoch; min_value, max_value and epoch are the extremes and zero of the integer; durations compare as their ticks")


# ---- K01 -------------------------------------------------------------------------------------------------
class Cursors:
    """A slice of unknown length n with unknown contents and the canonical cursor values on it."""

    def __init__(self, D, huge=False):
        self.D = D
        self.huge = huge         # (lengths only a slice of zero-sized elements has; constructors may refuse those)
        self.w = w = light(D)
        fs = [f for f in D.F.values() if f.local and f.bb is not None and re.search(r"SliceCursor(?:::)?<'_, \w+>", f.name)]
        if not fs:
            raise Missing("SliceCursor")
        self.f = {}
        for f in fs:
            self.f.setdefault((("Cursor" in f.name.split(" as ")[1]) if " as " in f.name else False, f.name.rsplit("::", 1)[1]), f)
        self.n = inp("length", (1 << 64) - 2, (1 << 64) - 1) if huge else inp("length", 0, (1 << 64) - 3)
        self.key = -fresh()
        CONSTMEM[self.key] = SymArr("slice", self.n)
        self.slice = Ptr(self.key, (), (ZERO, self.n))

    def fn(self, name, trait=True):
        f = self.f.get((trait, name))
        if f is None:
            raise Missing("SliceCursor " + name)
        return f

    def canon(self, st, kind, i=None):
        w = self.w
        if kind == "start":
            o = w.one(self.fn("at_start", False), [self.slice], st, "at_start")
        elif kind == "end":
            o = w.one(self.fn("at_end", False), [self.slice], st, "at_end")
        else:
            o = w.one(self.fn("with_pos", False), [self.slice, i], st, "with_pos")
        return o.val, o.st

    def setups(self):
        """[(kind, index, state, cursor value)]: every position a cursor can be in."""
        i = inp("index", 0, (1 << 64) - 2)
        out = []
        for kind in ("start", "element", "end"):
            ss = [self.w.st0.copy()]
            if kind == "element":
                ss = split(ss, lt(i, self.n))
            for s in ss:
                if self.huge:
                    f, a = (self.fn("with_pos", False), [self.slice, i]) if kind == "element" else (self.fn("at_" + kind, False), [self.slice])
                    out += [(kind, i, o.st, o.val) for o in self.w.m.run(f, a, s) if o.kind == "ret"]
                    continue
                v, s = self.canon(s, kind, i)
                out.append((kind, i, s, v))
        return out

    # abstract position as a number: 0 start, k+1 element k, n+1 end
    def num(self, kind, i):
        return ZERO if kind == "start" else self.n + 1 if kind == "end" else i + 1


def same(st, a, b):
    """Condition under which two values are structurally equal, or None if not comparable."""
    if isinstance(a, Lin) and isinstance(b, Lin):
        return eq(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
        r = True
        for x, y in zip(a.f, b.f):
            c = same(st, x, y)
            if c is None:
                return None
            r = cand(r, c)
        return r
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return True if a == b else None
    return True if a == b else None


def job_cursor(D, op, huge=False):
    K = Cursors(D, huge)
    w, n = K.w, K.n
    res = Result()
    fn = K.fn(op)
    cx = Ctx(res, fn, w)
    f_pos = K.fn("pos")
    tP = w.T[f_pos.locals[0]]
    vi = {v[0]: k for k, v in enumerate(tP["vs"])}
    L = "K01 " + op

    def position(st, p, want, what):
        """The observable position is `want` (number), and the representation is the canonical one."""
        for o in outcomes(w, Ctx(res, f_pos, w), f_pos, [p], st.copy(), L):
            v = o.val
            nm = tP["vs"][v.v][0] if isinstance(v, Agg) and v.v is not None else None
            if nm is None:
                raise Inconclusive("position %r" % (v,))
            c = eq(want, ZERO) if nm == "Start" else eq(want, n + 1) if nm == "End" else cand(eq(v.f[0] + 1, want), cand(ge(want, C(1)), le(want, n)))
            cx.prove(o.st, c, L, "%s leaves the cursor at the wrong position" % what)
        for kind, c in (("start", eq(want, ZERO)), ("element", cand(ge(want, C(1)), le(want, n))), ("end", eq(want, n + 1))):
            for s in st.copy().assume_lp(c):
                v, s = K.canon(s, kind, want - 1)
                c = same(s, s.load(p), v)
                if c is None or not (s.quick(c) is True or not s.may(neg(c))):
                    res.count("K01 one representation per position", 2)
                    res.open.append({"rule": "K01 one representation per position", "entry": fn.name, "why": "a position reached by %s is represented differently" % what})
                else:
                    res.count("K01 one representation per position", 0)

    def item(o, c, idx, what):
        """An Option of a reference: Some(element idx) exactly when c."""
        some, v = option(o.val)
        if some:
            cx.prove(o.st, c, L, "%s returns an element where there is none" % what)
            at = v.path[-1] if isinstance(v, Ptr) and v.path else None
            if at is None or v.key != K.key:
                raise Inconclusive("element %r" % (v,))
            cx.prove(o.st, eq(at if isinstance(at, Lin) else C(at), idx), L, "%s returns the wrong element" % what)
        else:
            cx.prove(o.st, neg(c), L, "%s returns nothing although there is an element" % what)

    el = lambda p: cand(ge(p, C(1)), le(p, n))
    for kind, i, st, v in K.setups():
        p0 = K.num(kind, i)
        p = Ptr(st.alloc(v))
        what = "%s (%s)" % (op, kind)
        if op in ("next", "prev"):
            if op == "next":
                p1 = p0 + 1 if kind != "end" else p0
            else:
                p1 = p0 - 1 if kind != "start" else p0
            for o in outcomes(w, cx, fn, [p], st, L):
                item(o, cand(el(p1), True if (kind != ("end" if op == "next" else "start")) else False), p1 - 1, what)
                position(o.st, p, p1, what)
        elif op in ("current", "peek_next", "peek_prev"):
            q = p0 if op == "current" else p0 + 1 if op == "peek_next" else p0 - 1
            for o in outcomes(w, cx, fn, [p], st, L):
                item(o, el(q), q - 1, what)
                position(o.st, p, p0, what)
        elif op in ("advance_by", "revert_by"):
            m = inp("steps", 0, (1 << 64) - 1)
            fwd = op == "advance_by"
            room = (n + 1 - p0) if fwd else p0               # steps until the far marker
            for s in split([st.copy()], le(m, room)) + split([st.copy()], gt(m, room)):
                stay = s.truth(le(m, room))
                p1 = (p0 + m if fwd else p0 - m) if stay else (n + 1 if fwd else ZERO)
                # steps that found an element: all but the one onto the marker and those after it
                far = s.copy().assume_lp(cand(ge(m, C(1)), ge(m, room)))
                near = s.copy().assume_lp(cor(eq(m, ZERO), lt(m, room)))
                for ss, hit in ((far, None), (near, m)):
                    for s2 in ss:
                        for x in (s2.copy().assume_lp(ge(room, C(1))) + s2.copy().assume_lp(eq(room, ZERO)) if hit is None else [s2]):
                            h = hit if hit is not None else (room - 1 if x.truth(ge(room, C(1))) else ZERO)
                            miss = m - h
                            for o in outcomes(w, cx, fn, [p, m], x, L):
                                ok, e = result(o.val)
                                if ok:
                                    cx.prove(o.st, eq(miss, ZERO), L, "%s does not report the steps that found no element" % what)
                                else:
                                    k = e
                                    while isinstance(k, Agg):
                                        k = k.f[0]
                                    cx.prove(o.st, eq(k, miss), L, "%s reports the wrong number of steps without an element" % what)
                                position(o.st, p, p1, what)
        elif op in ("at_start", "at_end"):
            for o in outcomes(w, cx, fn, [p], st, L):
                both(cx, o, eq(p0, ZERO) if op == "at_start" else eq(p0, n + 1), L, "%s is wrong" % what)
                position(o.st, p, p0, what)
        elif op == "pos":
            position(st, p, p0, what)
        elif op == "set_pos":
            k = inp("new index", 0, (1 << 64) - 1)
            for nm, args, want in (("Start", (), ZERO), ("End", (), n + 1), ("Pos", (k,), k + 1)):
                for o in outcomes(w, cx, fn, [p, Agg(vi[nm], args)], st.copy(), L, panic_ok=nm == "Pos"):
                    if o.kind == "panic":
                        cx.prove(o.st, ge(k, n), L, "positioning inside the slice is rejected")
                        continue
                    if nm == "Pos":
                        cx.prove(o.st, lt(k, n), L, "positioning outside the slice is accepted")
                    position(o.st, p, want, what)
    return finish(w, res)


def job_cursor_new(D):
    K = Cursors(D)
    w, n = K.w, K.n
    res = Result()
    for nm in ("at_start", "at_end"):
        fn = K.fn(nm, False)
        for o in outcomes(w, Ctx(res, fn, w), fn, [K.slice], w.st0.copy(), "K01 construction"):
            res.count("K01 construction", 0)
    fn = K.fn("with_pos", False)
    cx = Ctx(res, fn, w)
    i = inp("index", 0, (1 << 64) - 1)
    for o in outcomes(w, cx, fn, [K.slice, i], w.st0.copy(), "K01 construction", panic_ok=True):
        if o.kind == "panic":
            cx.prove(o.st, ge(i, n), "K01 construction", "a position inside the slice is rejected")
        else:
            cx.prove(o.st, lt(i, n), "K01 construction", "a position outside the slice is accepted")
    return finish(w, res)


CURSOR_OPS = ("next", "prev", "current", "peek_next", "peek_prev", "advance_by", "revert_by", "at_start", "at_end", "pos", "set_pos")


def jobs_k01(D, tier):
    return ([("construction", job_cursor_new, ())] + [(o, job_cursor, (o,)) for o in CURSOR_OPS]
            + [(o + " on the longest slices", job_cursor, (o, True)) for o in CURSOR_OPS])


REG["K01"] = Prop(jobs_k01, "Induction over operations: from each canonical position (start, any element, end) of a slice of symbolic length, every operation returns the specified element or count, does not panic and leaves the canonical representation of the specified position")

"""Calendar dates and small numeric helpers: G01, G02, G03, D01."""
from num import *
from interp import *
import spec
from spec import *
from . import REG, Prop, TABLE

GMIN, GMAX = OFF - 128 * CYC, OFF + 128 * CYC - 1        # day numbers a cycle of 8 bits can express
YMIN, YMAX = 2000 - 128 * 400 + 1, 2000 + 128 * 400 - 1
CIVLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def world(D, n=1):
    w = World(D, n, deadline=spec.DEADLINE)
    return w, Result()


def finish(w, res):
    res.fns = dict(w.m.fnseen)
    res.paths = w.m.stats["paths"]
    return res


def split(sts, *conds):
    for c in conds:
        sts = [y for x in sts for y in x.copy().assume_lp(c)]
    return sts


def gfields(tag, lo=-128, hi=127):
    return {k: inp(k + tag, l, h) for k, l, h in (("cycle", lo, hi), ("century", 0, 3), ("quadrennium", 0, 24), ("year", 0, 3), ("day", 0, 365))}


def outcomes(w, cx, fn, args, st, label, panic_ok=False):
    for o in w.m.run(fn, args, st):
        if o.kind == "panic":
            if not panic_ok:
                cx.impossible(o, label, "%s can panic: %s" % (fn.name, o.info[1] if o.info else ""))
            else:
                yield o
        elif o.kind != "ret":
            cx.other(o, label)
        else:
            yield o


def earlier(w, fn, args, st):
    """st, and what an earlier call of fn with other arguments makes of it where fn keeps state in statics."""
    yield st
    if w.m.has_statics and w.m.stateful(fn):
        for o in w.m.run(fn, args, st.copy()):
            # (where statics are as before, so is everything the next call can see)
            if o.kind == "ret" and any(x != st.mem.get(k) for k, x in o.st.mem.items() if k in CONSTMEM):
                o.st.ev = st.ev
                o.st.cut = False
                yield o.st


def crowded(w, res, fn, args):
    """From here on, another thread may call fn with args wherever a call touches shared state without holding a lock."""
    if not (w.m.has_statics and w.m.stateful(fn)):
        return
    w.m.run(fn, args, w.st0.copy())
    if any("LocalKey" in w.D.F[i].vpath for i in w.m.fnseen):
        # (the other thread has its own copy, which is not represented)
        res.notes.append("state local to a thread is used: no second thread considered")
        return
    w.m.between = w.m.other_thread(fn, [args])


def option(v):
    if isinstance(v, Agg) and v.v is not None:
        return v.v == 1, (v.f[0] if v.f else None)
    raise Inconclusive("result is not an Option variant")


# ---- G01: day numbers ----------------------------------------------------------------------------------
def job_from_day(D):
    w, res = world(D)
    fn = w.code.method("GregorianNormalizedDate", "from_day")
    cx = Ctx(res, fn, w)
    n = inp("day number", *I32)
    ok = cand(ge(n, C(GMIN)), le(n, C(GMAX)))
    for o in outcomes(w, cx, fn, [n], w.st0.copy(), "G01 day to date"):
        some, v = option(o.val)
        if some:
            g = w.gnd_vals(v)
            cx.prove(o.st, ok, "G01 day to date", "a day number outside the supported range is converted")
            cx.prove(o.st, w.canon(g), "G01 day to date", "the date fields are not a date")
            cx.prove(o.st, eq(w.daynum(g), n), "G01 day to date", "the date is not the one with that day number")
        else:
            cx.prove(o.st, neg(ok), "G01 day to date", "a supported day number is reported as out of range")
    return finish(w, res)


def canon_states(w, g, st):
    out = []
    for nm, c in w.dateparts(g):
        out += split([st.copy()], c)
    return out


def job_to_day(D):
    w, res = world(D)
    fn = w.code.method("GregorianNormalizedDate", "to_day")
    cx = Ctx(res, fn, w)
    g = gfields("")
    for s in canon_states(w, g, w.st0):
        p = Ptr(s.alloc(w.gnd(g)))
        for o in outcomes(w, cx, fn, [p], s, "G01 date to day"):
            cx.prove(o.st, eq(o.val, w.daynum(g)), "G01 date to day", "the day number is not that of the date")
    return finish(w, res)


def job_accessors(D, mi):
    w, res = world(D)
    lo, hi = MSTART[mi], (MSTART[mi + 1] - 1 if mi < 11 else 365)
    jan = mi >= 10
    g = gfields("")
    m = mi + 3 if mi < 10 else mi - 9
    want = {"unnormalized_year": w.yearnum(g) + (1 if jan else 0), "unnormalized_month": C(m), "unnormalized_day": g["day"] - (lo - 1)}
    for s in split(canon_states(w, g, w.st0), ge(g["day"], C(lo)), le(g["day"], C(hi))):
        for nm, val in want.items():
            fn = w.code.method("GregorianNormalizedDate", nm)
            cx = Ctx(res, fn, w)
            s2 = s.copy()
            p = Ptr(s2.alloc(w.gnd(g)))
            for o in outcomes(w, cx, fn, [p], s2, "G01 calendar date"):
                cx.prove(o.st, eq(o.val, val), "G01 calendar date", "%s is not that of the Gregorian date" % nm)
        fn = w.code.method("GregorianNormalizedDate", "to_date")
        cx = Ctx(res, fn, w)
        y = want["unnormalized_year"]
        for s2 in split([s], ge(y, ZERO), le(y, C(9999))):
            p = Ptr(s2.alloc(w.gnd(g)))
            for o in outcomes(w, cx, fn, [p], s2, "G01 calendar date"):
                a, b, c = o.val.f
                cx.prove(o.st, call_(eq(a, y), eq(b, C(m)), eq(c, want["unnormalized_day"])), "G01 calendar date", "to_date is not the Gregorian date")
        # leap year of the civil year
        fn = w.code.method("GregorianNormalizedDate", "is_unnormalized_leap_year")
        cx = Ctx(res, fn, w)
        if jan:
            leap = cand(eq(g["year"], C(3)), cor(le(g["quadrennium"], C(23)), eq(g["century"], C(3))))
        else:
            leap = cand(eq(g["year"], ZERO), cor(ge(g["quadrennium"], C(1)), eq(g["century"], ZERO)))
        s2 = s.copy()
        p = Ptr(s2.alloc(w.gnd(g)))
        for o in outcomes(w, cx, fn, [p], s2, "G03 leap rule"):
            both(cx, o, leap, "G03 leap rule", "the year of the date is wrongly classified as leap or common")
    return finish(w, res)


def both(cx, o, want, label, msg):
    """The boolean result is exactly the condition."""
    for b in (True, False):
        c = o.val if b else neg(o.val)
        for s in (o.st.copy().assume_lp(c) if c not in (True, False) else ([o.st] if c else [])):
            cx.prove(s, want if b else neg(want), label, msg)


def job_from_date(D, m):
    """All years and days for month m (1..12), or an invalid month (0)."""
    w, res = world(D)
    fn = w.code.method("GregorianNormalizedDate", "from_date")
    cx = Ctx(res, fn, w)
    rt = w.T[fn.locals[0]]
    et = rt["args"][1]
    vn = [v[0] for v in w.T[et]["vs"]]
    g = gfields("", -(1 << 31) // 400 - 10, (1 << 31) // 400 + 10)
    mi = (m - 3) % 12 if m else 0
    y = w.yearnum(g) + (1 if mi >= 10 and m else 0)
    d = inp("day of month", 0, 255)
    leap = cand(eq(g["year"], C(3)), cor(le(g["quadrennium"], C(23)), eq(g["century"], C(3))))
    yok = cand(ge(y, C(YMIN)), le(y, C(YMAX)))
    sts = split([w.st0.copy()], ge(y, C(I32[0])), le(y, C(I32[1])))
    cases = []
    if m == 0:
        mm = inp("month", 0, 255)
        for s in sts:
            cases += [(x, mm, False) for x in split([s], cor(eq(mm, ZERO), ge(mm, C(13))))]
    elif mi == 11:
        for c, l in ((leap, 29), (neg(leap), 28)):
            for s in sts:
                cases += [(x, C(m), cand(ge(d, C(1)), le(d, C(l)))) for x in split([s], c)]
    else:
        cases = [(s, C(m), cand(ge(d, C(1)), le(d, C(MLEN[mi])))) for s in sts]
    for s, mm, dok in cases:
        for o in outcomes(w, cx, fn, [y, mm, d], s, "G01 calendar date to date"):
            if o.val.v == 0:
                r = w.gnd_vals(o.val.f[0])
                cx.prove(o.st, dok, "G01 calendar date to date", "a day or month that does not exist is accepted")
                if dok is not False:
                    cx.prove(o.st, yok, "G01 calendar date to date", "a year outside the supported range is accepted")
                    cx.prove(o.st, call_(*[eq(r[k], g[k]) for k in GNDF[:4]]), "G01 calendar date to date", "the normalized year is not that of the date")
                    cx.prove(o.st, eq(r["day"], d + (MSTART[mi] - 1)), "G01 calendar date to date", "the day of the year is not that of the date")
            else:
                e = o.val.f[0]
                if isinstance(e, Agg) and vn[e.v] == "DateOutOfBounds":
                    cx.prove(o.st, neg(yok), "G01 calendar date to date", "a year in range is reported as out of bounds")
                else:
                    cx.prove(o.st, neg(dok), "G01 calendar date to date", "an existing date is rejected")
    return finish(w, res)


def jobs_g01(D, tier):
    return ([("from_day", job_from_day, ()), ("to_day", job_to_day, ())]
            + [("accessors month %d" % i, job_accessors, (i,)) for i in range(12)]
            + [("from_date month %d" % i, job_from_date, (i,)) for i in range(13)])


# ---- G02: order ---------------------------------------------------------------------------------------
def job_order(D, i, sign):
    """First differing field i; sign -1: a before b there, 0: all equal."""
    w, res = world(D)
    a, b = gfields(" a"), gfields(" b")
    sts = [w.st0.copy()]
    for k in GNDF[:i]:
        sts = split(sts, eq(a[k], b[k]))
    if sign:
        k = GNDF[i]
        sts = split(sts, lt(a[k], b[k]) if sign < 0 else gt(a[k], b[k]))
    ss = []
    for s in sts:
        for _, c in w.dateparts(a):
            for _, c2 in w.dateparts(b):
                ss += split([s.copy()], c, c2)
    want = {-1: 0, 0: 1, 1: 2}[sign]
    A, B = w.daynum(a), w.daynum(b)
    for s in ss:
        pa, pb = Ptr(s.alloc(w.gnd(a))), Ptr(s.alloc(w.gnd(b)))
        f0 = w.code.method("GregorianNormalizedDate", "cmp")
        Ctx(res, f0, w).prove(s, lt(A, B) if sign < 0 else gt(A, B) if sign else eq(A, B), "G02 normal form", "lexicographic order of the normal form is not chronological")
        for nm in ("cmp", "partial_cmp", "eq"):
            fn = w.code.method("GregorianNormalizedDate", nm)
            cx = Ctx(res, fn, w)
            for o in outcomes(w, cx, fn, [pa, pb], s.copy(), "G02 order"):
                v = o.val
                if nm == "eq":
                    both(cx, o, eq(A, B), "G02 equality", "dates compare equal although they differ, or the other way round")
                    continue
                if nm == "partial_cmp":
                    if v.v != 1:
                        cx.prove(o.st, False, "G02 order", "dates are incomparable")
                        continue
                    v = v.f[0]
                if isinstance(v, Agg) and v.v is not None:
                    cx.prove(o.st, v.v == want, "G02 order", "the order of two dates is not that of their day numbers")
                elif isinstance(v, SymEnum):
                    cx.prove(o.st, eq(v.l, C(want)), "G02 order", "the order of two dates is not that of their day numbers")
                else:
                    raise Inconclusive("comparison result %r" % (v,))
    return finish(w, res)


def jobs_g02(D, tier):
    js = [("equal dates", job_order, (5, 0))]
    for i in range(5):
        for sg in (-1, 1):
            js.append(("differ first in %s %+d" % (GNDF[i], sg), job_order, (i, sg)))
    return js


# ---- G03: leap years and month lengths ------------------------------------------------------------------
def job_util(D, m):
    w, res = world(D)
    I128 = (-(1 << 127), (1 << 127) - 1)
    c = inp("cycle", I128[0] // 400, I128[1] // 400)
    ce, q, y = inp("century", 0, 3), inp("quadrennium", 0, 24), inp("year", 0, 3)
    Y = c * 400 + ce * 100 + q * 4 + y
    leap = cand(eq(y, ZERO), cor(ge(q, C(1)), eq(ce, ZERO)))
    sts = split([w.st0.copy()], ge(Y, C(I128[0])), le(Y, C(I128[1])))
    for s in sts:
        if m == 0:
            fn = w.code.fn("iso8601::util::is_leap_year")
            cx = Ctx(res, fn, w)
            for o in outcomes(w, cx, fn, [Y], s.copy(), "G03 leap rule"):
                both(cx, o, leap, "G03 leap rule", "a year is wrongly classified as leap or common")
        else:
            fn = w.code.fn("iso8601::util::days_in_month")
            cx = Ctx(res, fn, w)
            for o in outcomes(w, cx, fn, [Y, C(m)], s.copy(), "G03 month length"):
                if m != 2:
                    cx.prove(o.st, eq(o.val, C(CIVLEN[m - 1])), "G03 month length", "length of month %d" % m)
                else:
                    cx.prove(o.st, cor(cand(leap, eq(o.val, C(29))), cand(neg(leap), eq(o.val, C(28)))), "G03 month length", "length of February")
    return finish(w, res)


def job_gnd_leap(D):
    w, res = world(D)
    g = gfields("")
    leap = cand(eq(g["year"], C(3)), cor(le(g["quadrennium"], C(23)), eq(g["century"], C(3))))
    try:
        fn = w.code.fn("gregorian_normalized_date::is_leap_year")
        cx = Ctx(res, fn, w)
        for o in outcomes(w, cx, fn, [g["century"], g["quadrennium"], g["year"]], w.st0.copy(), "G03 leap rule"):
            both(cx, o, leap, "G03 leap rule", "a normalized year is wrongly classified as leap or common")
    except Missing as e:
        res.notes.append("not present: %s" % e)
    try:
        fn = w.code.method("GregorianNormalizedDate", "year_length")
        cx = Ctx(res, fn, w)
        for s in canon_states(w, g, w.st0):
            p = Ptr(s.alloc(w.gnd(g)))
            for o in outcomes(w, cx, fn, [p], s, "G03 leap rule"):
                cx.prove(o.st, cor(cand(leap, eq(o.val, C(366))), cand(neg(leap), eq(o.val, C(365)))), "G03 leap rule", "length of a normalized year")
    except Missing as e:
        res.notes.append("not present: %s" % e)
    # month boundaries of the March-based year
    for mi in range(12):
        lo, hi = MSTART[mi], (MSTART[mi + 1] - 1 if mi < 11 else 365)
        d = inp("day of year, month %d" % mi, lo, hi)
        try:
            fn = w.code.fn("gregorian_normalized_date::month_day_from_year_day")
            cx = Ctx(res, fn, w)
            for o in outcomes(w, cx, fn, [d], w.st0.copy(), "G03 month length"):
                cx.prove(o.st, cand(eq(o.val.f[0], C(mi)), eq(o.val.f[1], d - lo)), "G03 month length", "month or day of month of a day of the year")
        except Missing as e:
            res.notes.append("not present: %s" % e)
    return finish(w, res)


def job_builder_month(D, m):
    """Month lengths as the builder sees them: shared with G01 from_date."""
    return job_from_date(D, m)


def relabel(job, label):
    def f(D, *a):
        r = job(D, *a)
        keep = Result()
        keep.fns, keep.paths, keep.notes = r.fns, r.paths, r.notes
        keep.obl = {k: v for k, v in r.obl.items() if k.startswith(label)}
        keep.viol = [v for v in r.viol if v["rule"].startswith(label)]
        keep.open = [v for v in r.open if v["rule"].startswith(label) or v["rule"] in ("anchor", "analysis")]
        return keep
    return f


def jobs_g03(D, tier):
    return ([("util month %d" % m, job_util, (m,)) for m in range(13)] + [("normalized", job_gnd_leap, ())]
            + [("civil month %d" % i, relabel(job_accessors, "G03"), (i,)) for i in range(12)])


def jobs_g01_only(D, tier):
    return [(n, relabel(f, "G01"), a) for n, f, a in jobs_g01(D, tier)]


# ---- D01: packing -----------------------------------------------------------------------------------------
def job_pack(D, part):
    w, res = world(D)
    cx = Ctx(res, w.f_new, w)
    ch, st = w.chronology(w.st0)
    D0 = w.daynum(w.g)
    prec = SymEnum(w.P)
    g = w.g
    for s in split([st], w.inrange(D0), w.dateparts()[part][1]):
        for o in w.new_dt(s, ch, prec):
            if o.kind == "panic":
                cx.impossible(o, "D01 stored exactly", "storing a date-time can panic")
                continue
            if o.kind != "ret":
                cx.other(o, "D01 stored exactly")
                continue
            for s2, p, r, sec, ns, _ in w.read_dt(o.st, o.val):
                cx.prove(s2, call_(*[eq(r[k], g[k]) for k in GNDF]), "D01 date", "the stored date differs")
                cx.prove(s2, eq(sec, w.sec), "D01 second", "the stored second differs")
                cx.prove(s2, eq(ns, w.ns), "D01 nanosecond", "the stored nanosecond differs")
                if isinstance(p, SymEnum):
                    cx.prove(s2, eq(p.l, w.P), "D01 precision", "the stored precision differs")
                else:
                    cx.prove(s2, eq(w.P, C(p.v)), "D01 precision", "the stored precision differs")
    return finish(w, res)


def jobs_d01(D, tier):
    return [("pack part %d" % i, job_pack, (i,)) for i in range(3)]


REG["D01"] = Prop(jobs_d01, "For symbolic date, second, nanosecond and precision: unpacking the packed words yields the same symbolic components (bit fields tracked exactly)")
REG["G01"] = Prop(jobs_g01_only, "Every path of from_day, to_day, from_date, to_date and the calendar accessors yields the mathematically defined date or day number, or reports failure exactly out of range")
REG["G02"] = Prop(jobs_g02, "For each first differing field and sign: cmp, partial_cmp and eq give the order of day numbers")
REG["G03"] = Prop(jobs_g03, "Every leap-year predicate and month-length function equals the Gregorian rule for symbolic years and every month")

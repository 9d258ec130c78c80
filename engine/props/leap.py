"""Leap-second table and system time: L01, L02, L03, S01, S02."""
import re
from num import *
from interp import *
import spec
from spec import *
from . import REG, Prop, TABLE
from .gnd import world, earlier, crowded, finish, split, outcomes, both
from .ints import Api, SCALES, trange, holds, mk, rd, result, Multi, types

SEG = ("start_instant", "start_day", "duration_days", "leap_seconds", "accumulated_leap_seconds")


def bounds(w):
    """Instants at which segments end, in SI seconds."""
    return [w.env.E[i] * 86400 + w.env.tot[i + 1] for i in range(w.n)]


def read_ticks(w, st, v):
    api = Api(w.D)
    f = api.get("instant::Instant::<i32, scale::Seconds>::ticks_since_epoch")
    o = w.one(f, [Ptr(st.alloc(v))], st, "ticks")
    return o.val, o.st


# ---- L01 ---------------------------------------------------------------------------------------------
def job_tile(D, n, wide=False):
    """wide: tables whose totals change by any amount; those may be refused, but not loaded wrongly."""
    w, res = world(D, n)
    res.notes.append("leap-second table with %d entries, all contents" % n + (", changes of any size" if wide else ""))
    if wide:
        w.env.tot = [ZERO] + [inp("total%d" % (i + 1), -(1 << 31), (1 << 31) - 1) for i in range(n)]
        w.env.j = [w.env.tot[i + 1] - w.env.tot[i] for i in range(n)]
    fn = w.code.fn("zoneinfo::load_leap_segments")
    tS = w.code.ty("ContinuousTimeSegment")
    fl = w.code.fields(tS)
    if not set(SEG) <= set(fl):
        raise Missing("fields of ContinuousTimeSegment")
    cx = Ctx(res, fn, w)
    E, tot, j = w.env.E, w.env.tot, w.env.j
    for o in outcomes(w, cx, fn, [], w.st0.copy(), "L01 no panic", panic_ok=wide):
        if o.kind == "panic":
            continue
        res.count("L01 no panic", 0)
        v = o.val.f[0] if isinstance(o.val, Agg) and len(o.val.f) == 1 and isinstance(o.val.f[0], Agg) and o.val.f[0].v is None and len(o.val.f[0].f) != len(fl) else o.val
        segs = v.f if isinstance(v, Agg) else None
        if segs is None or any(not isinstance(x, Agg) or len(x.f) != len(fl) for x in segs):
            raise Inconclusive("segments %r" % (o.val,))
        cx.prove(o.st, len(segs) == n, "L01 one segment per entry", "the number of segments is not the number of table entries")
        if len(segs) != n:
            continue
        for i, s in enumerate(segs):
            d = dict(zip(fl, s.f))
            start = E[i - 1] if i else ZERO
            t0, st = read_ticks(w, o.st, d["start_instant"])
            cx.prove(st, eq(d["start_day"], start), "L01 start", "segment %d does not start on the day its predecessor ends" % (i + 1))
            cx.prove(st, eq(t0, start * 86400 + tot[i]), "L01 start", "segment %d does not start at the instant its predecessor ends" % (i + 1))
            cx.prove(st, eq(d["accumulated_leap_seconds"], tot[i]), "L01 total", "segment %d does not start with the leap seconds accumulated before it" % (i + 1))
            cx.prove(st, eq(d["duration_days"], E[i] - start), "L01 end", "segment %d does not end on the day of its table entry" % (i + 1))
            cx.prove(st, eq(d["leap_seconds"], j[i]), "L01 end", "the leap seconds at the end of segment %d are not those of its table entry" % (i + 1))
            p = Ptr(st.alloc(s))
            for nm, want in (("end_day", E[i]), ("end_instant", E[i] * 86400 + tot[i + 1])):
                f2 = w.code.method("ContinuousTimeSegment", nm)
                cx2 = Ctx(res, f2, w)
                for o2 in outcomes(w, cx2, f2, [p], st.copy(), "L01 end", panic_ok=wide):
                    if o2.kind == "panic":
                        continue
                    r, s2 = (o2.val, o2.st) if nm == "end_day" else read_ticks(w, o2.st, o2.val)
                    cx2.prove(s2, eq(r, want), "L01 end", "%s of segment %d is not where the next segment starts" % (nm, i + 1))
    return finish(w, res)


def jobs_l01(D, tier):
    return ([("table of %d" % n, job_tile, (n,)) for n in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5, 6))]
            + [("table of %d with changes of any size" % n, job_tile, (n, True)) for n in ((1, 2) if tier == "quick" else (1, 2, 3))])


# ---- L02 -----------------------------------------------------------------------------------------------
def table(w):
    """(state, pointer to the LeapSecondChronology)"""
    ch, st = w.chronology(w.st0)
    f = w.code.method("Chronology", "leap_seconds")
    o = w.one(f, [Ptr(st.alloc(ch))], st, "leap_seconds")
    return o.st, o.val


def segment_index(w, st, p, n):
    """Number of the segment a result points to."""
    if not isinstance(p, Ptr):
        raise Inconclusive("segment reference %r" % (p,))
    if isinstance(p.path[-1] if p.path else None, int):
        return p.path[-1]
    if p.path and isinstance(p.path[-1], Lin) and not p.path[-1].t:
        return p.path[-1].c
    raise Inconclusive("segment reference %r" % (p,))


def check_lookup(w, cx, res, fn, args, st, t, bnds, lab, vn):
    """t located among 0, bnds."""
    n = w.n
    for o in outcomes(w, cx, fn, args, st, lab):
        v = o.val
        nm = vn[v.v]
        i = segment_index(w, o.st, v.f[0], n)
        if nm == "BeforeFirst":
            cx.prove(o.st, lt(t, ZERO) if i == 0 else False, lab, "a lookup reports 'before the first segment' wrongly")
        elif nm == "AfterLast":
            cx.prove(o.st, ge(t, bnds[-1]) if i == n - 1 else False, lab, "a lookup reports 'after the last segment' wrongly")
        else:
            cx.prove(o.st, cand(ge(t, bnds[i - 1] if i else ZERO), lt(t, bnds[i])), lab, "a lookup finds a segment that does not contain the day or instant")


def job_by_day(D, n):
    w, res = world(D, n)
    st, p = table(w)
    fn = w.code.method("LeapSecondChronology", "by_day")
    vn = [v[0] for v in w.T[fn.locals[0]]["vs"]]
    cx = Ctx(res, fn, w)
    d = inp("day", *I32)
    res.notes.append("leap-second table with %d entries, all contents" % n)
    check_lookup(w, cx, res, fn, [p, d], st, d, list(w.env.E), "L02 by day", vn)
    return finish(w, res)


def job_by_instant(D, n, t):
    api = Api(D)
    out = Result()
    out.notes.append("leap-second table with %d entries, all contents" % n)
    for (s,), f in api.all(r"zoneinfo::LeapSecondChronology::by_instant::<" + t + r", $S>"):
        if not holds(t, SCALES[s]):
            continue
        w, res = world(D, n)
        st, p = table(w)
        vn = [v[0] for v in w.T[f.locals[0]]["vs"]]
        cx = Ctx(res, f, w)
        a = inp("ticks", *trange(t))
        k = SCALES[s]
        v, st = mk(w, api, "I", t, s, a, st)
        check_lookup(w, cx, res, f, [p, v], st, a, [b * k for b in bounds(w)], "L02 by instant", vn)
        out.merge(finish(w, res))
    return out


def jobs_l02(D, tier):
    sizes = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7)
    ts = sorted({g[0] for g, _ in Api(D).all(r"zoneinfo::LeapSecondChronology::by_instant::<$T, $S>")})
    return ([("by day, table of %d" % n, job_by_day, (n,)) for n in sizes + ((27,) if tier != "quick" else ())]
            + [("by instant %s, table of %d" % (t, n), job_by_instant, (n, t)) for n in sizes for t in ts])


# ---- L03 -------------------------------------------------------------------------------------------------
def job_adjust(D, n):
    w, res = world(D, n)
    res.notes.append("leap-second table with %d entries, all contents" % n)
    fn = w.code.fn("zoneinfo::get_leap_second_adjustment_for_unix_timestamp")
    cx = Ctx(res, fn, w)
    t = inp("unix timestamp", *I64)
    E, tot = w.env.E, w.env.tot
    lab = "L03 adjustment"
    crowded(w, res, fn, [inp("unix timestamp of another thread", *I64)])
    for o in (o for st in earlier(w, fn, [inp("earlier unix timestamp", *I64)], w.st0) for o in outcomes(w, cx, fn, [t], st.copy(), lab)):
        for i in range(n + 1):
            c = True
            if i:
                c = cand(c, ge(t, E[i - 1] * 86400))
            if i < n:
                c = cand(c, lt(t, E[i] * 86400))
            for s in o.st.copy().assume_lp(c):
                cx.prove(s, eq(o.val, tot[i]), lab, "the adjustment is not the number of leap seconds inserted before the timestamp")
    return finish(w, res)


def jobs_l03(D, tier):
    return [("table of %d" % n, job_adjust, (n,)) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 6))]


# ---- S01 -------------------------------------------------------------------------------------------------
def job_systime(D, n, t, s):
    from models import mk_systime
    api = Api(D)
    w, res = world(D, n)
    res.notes.append("leap-second table with %d entries, all contents" % n)
    f = api.get("<instant::Instant<%s, scale::%s> as std::convert::TryFrom<std::time::SystemTime>>::try_from" % (t, s))
    cx = Ctx(res, f, w)
    sec, ns = inp("seconds", *I64), inp("nanoseconds", 0, 999999999)
    S = SCALES[s]
    lo, hi = trange(t)
    sub = div_atom(ns, 10 ** 9 // S)
    U = inp("now.tm_sec", 0, 59)
    now = inp("now.sec", -(1 << 37), 1 << 47)
    E, tot = w.env.E, w.env.tot
    lab = "S01 conversion"
    before = mk_systime(inp("earlier seconds", *I64), inp("earlier nanoseconds", 0, 999999999))
    for o in (o for st in earlier(w, f, [before], w.st0) for o in outcomes(w, cx, f, [mk_systime(sec, ns)], st.copy(), "S01 no panic")):
        res.count("S01 no panic", 0)
        ok, v = result(o.val)
        r = None
        st0 = o.st
        if ok:
            r, st0 = rd(w, api, "I", t, s, v, st0)
        elif not (holds(t, 10 ** 9) and holds(t, S)):
            res.count(lab, 0)
            continue
        cases = [(c, ZERO) for c in st0.copy().assume_lp(ne(U, now))]
        for x in st0.copy().assume_lp(eq(U, now)):
            for i in range(n + 1):
                c = True
                if i:
                    c = cand(c, ge(sec, E[i - 1] * 86400))
                if i < n:
                    c = cand(c, lt(sec, E[i] * 86400))
                cases += [(y, tot[i]) for y in x.copy().assume_lp(c)]
        for x, adj in cases:
            u = sec + adj
            total = u * S + sub
            if ok:
                cx.prove(x, eq(r, total), lab, "the instant is not the time since the epoch plus the leap seconds the clock leaves out")
            else:
                fit = call_(ge(u, C(I64[0])), le(u, C(I64[1])), ge(u * S, C(lo)), le(u * S, C(hi)), ge(total, C(lo)), le(total, C(hi)), ge(u, C(lo)), le(u, C(hi)))
                cx.prove(x, neg(fit), lab, "the conversion fails although the result fits")
    return finish(w, res)


def jobs_s01(D, tier):
    sizes = (1,) if tier == "quick" else (1, 2, 3)
    return [("system time to %s %s, table of %d" % (t, s, n), job_systime, (n, t, s)) for n in sizes for t in types(D) for s in SCALES]


# ---- S02 --------------------------------------------------------------------------------------------------
YLO, YHI = -4712, 5000000


def civil(m):
    """Symbolic civil date in month m: (conditions, year, day of month, day number, tm month)."""
    mi = (m - 3) % 12
    g = {k: inp(k, l, h) for k, l, h in (("cycle", -20, 12500), ("century", 0, 3), ("quadrennium", 0, 24), ("year", 0, 3))}
    d = inp("day of month", 1, 31)
    y = World.yearnum(g) + (1 if mi >= 10 else 0)
    num = World.daynum(dict(g, day=d + (MSTART[mi] - 1)))
    return [ge(y, C(YLO)), le(y, C(YHI))], y, d, num


def job_unix(D, m):
    w, res = world(D)
    fn = w.code.fn("instant::utc_to_unix_time")
    cx = Ctx(res, fn, w)
    conds, y, d, num = civil(m)
    h, mi, s = inp("hour", 0, 23), inp("minute", 0, 59), inp("second", 0, 60)
    for st in split([w.st0.copy()], *conds):
        for o in outcomes(w, cx, fn, [y, C(m), d, h, mi, s], st, "S02 civil-time formula"):
            cx.prove(o.st, eq(o.val, num * 86400 + h * 3600 + mi * 60 + s), "S02 civil-time formula", "the Unix time of a broken-down date is wrong")
    return finish(w, res)


def job_clock(D, m):
    w, res = world(D)
    fn = w.code.fn("instant::system_time_includes_leap_seconds")
    cx = Ctx(res, fn, w)
    conds, y, d, num = civil(m)
    h, mi, s = inp("hour", 0, 23), inp("minute", 0, 59), inp("second", 0, 60)
    w.env.tm = {"tm_year": y - 1900, "tm_mon": C(m - 1), "tm_mday": d, "tm_hour": h, "tm_min": mi, "tm_sec": s}
    now = inp("now.sec", -(1 << 37), 1 << 47)
    ns = inp("now.nsec", 0, 999999999)
    U = num * 86400 + h * 3600 + mi * 60 + s
    # the whole second the clock shows
    for st in split([w.st0.copy()], *conds):
        for o in outcomes(w, cx, fn, [], st, "S02 clock test"):
            both(cx, o, ne(U, now), "S02 clock test", "the clock is wrongly classified as counting leap seconds or not")
    return finish(w, res)


def jobs_s02(D, tier):
    return [("civil time, month %d" % m, job_unix, (m,)) for m in range(1, 13)] + [("clock test, month %d" % m, job_clock, (m,)) for m in range(1, 13)]


REG["L01"] = Prop(jobs_l01, "For symbolic tables: every path of load_leap_segments yields one segment per entry, each starting where its predecessor ends (day, instant, total), end_day/end_instant agree", assumptions=TABLE)
REG["L02"] = Prop(jobs_l02, "For symbolic tables and a symbolic day or instant of every width and scale: the segment returned contains it, BeforeFirst/AfterLast exactly outside", assumptions=TABLE)
REG["L03"] = Prop(jobs_l03, "For symbolic tables and timestamps: every path returns the table total before the timestamp", assumptions=TABLE)
REG["S01"] = Prop(jobs_s01, "For a symbolic system time, clock kind and table: Ok paths yield the exact ticks, Err paths imply a value does not fit, no panic is reachable", assumptions=TABLE)
REG["S02"] = Prop(jobs_s02, "For a symbolic civil date in each month: utc_to_unix_time equals 86400 * days + seconds of day, and the clock test is exactly its comparison with the clock", assumptions=["gmtime_r writes a normalized broken-down date", "clock between -2^37 s and 2^47 s, dates from -4712 to 5000000"])

"""Building date-times and reading their components: D02, D03, D15 and the builder part of D04."""
from num import *
from interp import *
import spec
from spec import *
from . import REG, Prop, TABLE
from .gnd import earlier, finish, split, outcomes

UNITS = ("year", "month", "day", "hour", "minute", "second", "millisecond", "microsecond", "nanosecond")
PREC = ("Years", "Months", "Days", "Hours", "Minutes", "Seconds", "Milliseconds", "Microseconds", "Nanoseconds")
BITS = {"year": 16, "millisecond": 16, "microsecond": 16, "nanosecond": 16}
GETTERS = ("year", "month", "day", "hour", "minute", "second")
DEFAULT = {"month": 1, "day": 1}


class Build:
    """A world with a symbolic chronology and a builder on which components can be set."""

    def __init__(self, D, n):
        self.w = w = World(D, n, deadline=spec.DEADLINE)
        self.res = Result()
        self.res.notes.append("leap-second table with %d entr%s, all contents" % (n, "y" if n == 1 else "ies"))
        self.ch, self.st = w.chronology(w.st0)
        self.b = w.one(w.code.method("DateTimeBuilder", "new"), [], self.st, "DateTimeBuilder::new").val
        pv = w.T[w.tPrec]["vs"]
        self.prec = {v[0]: i for i, v in enumerate(pv)}

    def set(self, st, b, unit, val):
        """Builder value after one setter call (setters must not branch on values)."""
        w = self.w
        p = Ptr(st.alloc(b))
        if unit == "chronology":
            val = Ptr(st.alloc(val))
        o = w.one(w.code.method("DateTimeBuilder", unit), [p, val], st, "setter " + unit)
        return o.st, o.st.load(p)

    def done(self):
        return finish(self.w, self.res)


def civil_atoms(w):
    """Year as a u16 in normalized fields (shifted for January and February)."""
    return {k: inp(k, l, h) for k, l, h in (("cycle", -6, 160), ("century", 0, 3), ("quadrennium", 0, 24), ("year", 0, 3))}


def length(g, mi, leap):
    return [(True, MLEN[mi])] if mi < 11 else [(leap, 29), (neg(leap), 28)]


def job_build(D, n, k, m, aspects):
    """Components up to unit k (0 = year) set; month m, or 0 for an invalid month."""
    B = Build(D, n)
    w = B.w
    fn = w.code.method("DateTimeBuilder", "checked_build")
    cx = Ctx(B.res, fn, w)
    rt = w.T[fn.locals[0]]
    vn = [v[0] for v in w.T[rt["args"][1]]["vs"]]
    g = civil_atoms(w)
    mi = (m - 3) % 12 if m else 0
    V = {u: inp(u, 0, (1 << BITS.get(u, 8)) - 1) for u in UNITS[1:k + 1]}
    V["year"] = w.yearnum(g) + (1 if mi >= 10 and m else 0)
    conds = [ge(V["year"], ZERO), le(V["year"], C(65535))]
    if k >= 1:
        if m:
            V["month"] = C(m)
        else:
            conds.append(cor(eq(V["month"], ZERO), ge(V["month"], C(13))))
    st, b = B.st.copy(), B.b
    for s0 in split([st], *conds):
        st, b = B.set(s0, B.b, "chronology", B.ch)
        for u in UNITS[:k + 1]:
            st, b = B.set(st, b, u, V[u])
        leap = cand(eq(g["year"], C(3)), cor(le(g["quadrennium"], C(23)), eq(g["century"], C(3))))
        val = {u: V.get(u, C(DEFAULT.get(u, 0))) for u in UNITS}
        day = val["day"]
        doy = day + (MSTART[mi] - 1)
        T = w.daynum(dict(g, day=doy))
        yok = le(V["year"], C(9999))
        lenc = length(g, mi, leap) if m else [(True, 0)]
        for c, l in lenc:
            for s in (x for y in split([st.copy()], c) for x in built_before(B, fn, y)):
                p = Ptr(s.alloc(b))
                dok = cand(ge(day, C(1)), le(day, C(l))) if m else False
                for o in w.m.run(fn, [p], s.copy()):
                    check_built(B, cx, o, vn, val, yok, dok, T, g, doy, k, aspects)
                if aspects <= {"D04"} or hands_over(B, fn, p, s):
                    continue
                pan = w.code.method("DateTimeBuilder", "build")
                cp = Ctx(B.res, pan, w)
                for o in w.m.run(pan, [p], s):
                    if o.kind == "panic":
                        o = Outcome("ret", o.st, Agg(1, (None,)), o.info, o.site)
                    elif o.kind == "ret":
                        o = Outcome("ret", o.st, Agg(0, (o.val,)), o.info, o.site)
                    check_built(B, cp, o, vn, val, yok, dok, T, g, doy, k, aspects)
    return B.done()


def built_before(B, fn, st):
    """st, and what building another date-time first makes of it where builders keep state in statics."""
    w = B.w
    if not (w.m.has_statics and w.m.stateful(fn)):
        return [st]
    V = {"year": inp("earlier year", 1, 9999), "month": C(7), "day": inp("earlier day", 1, 28), "hour": inp("earlier hour", 0, 23),
         "minute": inp("earlier minute", 0, 59), "second": inp("earlier second", 0, 59)}
    s, b = B.set(st.copy(), B.b, "chronology", B.ch)
    for u in UNITS:
        if u in V:
            s, b = B.set(s, b, u, V[u])
    return earlier(w, fn, [Ptr(s.alloc(b))], s)


def hands_over(B, chk, p, s):
    """build hands the builder over to checked_build and panics exactly on its errors."""
    from .variants import delegate
    w = B.w
    pan = w.code.method("DateTimeBuilder", "build")
    et = w.T[w.T[chk.locals[0]]["args"][1]]
    vs = [(True, Agg(0, (Opq(("result of", chk.name)),)))] + [(False, Agg(1, (Agg(i, ()),))) for i in range(len(et["vs"]))]
    if delegate(w, B.res, "build", pan, chk, lambda: (s.copy(), [p]), "", vs):
        B.res.notes.append("%s hands over to %s" % (pan.name, chk.name))
        return True
    return False


def check_built(B, cx, o, vn, val, yok, dok, T, g, doy, k, aspects):
    w = B.w
    if o.kind == "panic":
        if "D04" in aspects:
            cx.impossible(o, "D04 no panic", "%s can panic: %s" % (cx.entry.name, o.info[1] if o.info else ""))
        return
    if o.kind != "ret":
        cx.other(o, "path analysed")
        return
    if "D04" in aspects:
        B.res.count("D04 no panic", 0)
    if not isinstance(o.val, Agg) or o.val.v is None:
        raise Inconclusive("result of checked_build")
    last = cand(eq(val["hour"], C(23)), eq(val["minute"], C(59)))
    rest = call_(le(val["hour"], C(23)), le(val["minute"], C(59)), *[le(val[u], C(999)) for u in UNITS[6:]])
    if o.val.v == 0:
        if "D03" in aspects:
            cx.prove(o.st, yok, "D03 accepted only if it exists", "a year above 9999 is accepted")
            cx.prove(o.st, dok, "D03 accepted only if it exists", "a month or day that does not exist is accepted")
            cx.prove(o.st, rest, "D03 accepted only if it exists", "an hour, minute or sub-second part that does not exist is accepted")
            for pn, pc, lp in w.places(T):
                for s in o.st.copy().assume_lp(pc):
                    for s2 in s.copy().assume_lp(last):
                        cx.prove(s2, le(val["second"], 59 + lp), "D03 accepted only if it exists", "a second that does not exist is accepted (%s)" % pn)
            for s2 in o.st.copy().assume_lp(neg(last)):
                cx.prove(s2, le(val["second"], C(59)), "D03 accepted only if it exists", "a second that does not exist is accepted")
        dt = o.val.f[0]
        if "D02" in aspects:
            for u in GETTERS:
                s = o.st.copy()
                q = Ptr(s.alloc(dt))
                fu = w.code.method("DateTime", u)
                cu = Ctx(B.res, fu, w)
                for x in outcomes(w, cu, fu, [q], s, "D02 read back"):
                    cu.prove(x.st, eq(x.val, val[u]), "D02 read back", "%s() differs from the %s that was set" % (u, u))
        if "D15" in aspects or "D03" in aspects:
            for s, p, g1, sec, ns, chron in w.read_dt(o.st, dt):
                if "D03" in aspects:
                    cx.prove(s, call_(*[eq(g1[x], g[x]) for x in GNDF[:4]] + [eq(g1["day"], doy)]), "D03 default start of period", "the date of the result is not the one given, completed with the start of the period")
                    cx.prove(s, eq(sec, val["hour"] * 3600 + val["minute"] * 60 + val["second"]), "D03 default start of period", "the time of the result is not the one given, completed with the start of the period")
                if "D15" in aspects:
                    want = B.prec.get(PREC[k])
                    if want is None:
                        raise Missing("precision " + PREC[k])
                    pl = p.l if isinstance(p, SymEnum) else C(p.v)
                    cx.prove(s, eq(pl, C(want)), "D15 finest unit is the precision", "the precision is not the finest unit that was set")
                    for i in range(k + 1):
                        f = w.code.method("DateTimeBuilder", UNITS[i])
                        msg = "the %s that was set does not end up in the result" % UNITS[i]
                        cs = Ctx(B.res, f, w)
                        if i < 1:
                            cs.prove(s, call_(*[eq(g1[x], g[x]) for x in GNDF[:4]]), "D15 setting takes effect", msg)
                        elif i < 3:
                            cs.prove(s, eq(g1["day"], doy), "D15 setting takes effect", msg)
                        elif i < 6:
                            cs.prove(s, eq(sec, val["hour"] * 3600 + val["minute"] * 60 + val["second"]), "D15 setting takes effect", msg)
                        else:
                            cs.prove(s, eq(ns, val["millisecond"] * 1000000 + val["microsecond"] * 1000 + val["nanosecond"]), "D15 setting takes effect", msg)
                    if k < 6:
                        cx.prove(s, eq(ns, ZERO), "D15 setting takes effect", "a sub-second part appears that was not set")
                    f = w.code.method("DateTimeBuilder", "chronology")
                    Ctx(B.res, f, w).prove(s, same_chron_(B, s, chron), "D15 setting takes effect", "the chronology that was set is not the result's")
    elif "D03" in aspects:
        e = o.val.f[0]
        if e is None:                                  # the panicking variant does not say why
            wrong = cor(neg(yok), neg(dok)) if dok is not False else True
            if wrong is True:
                B.res.count("D03 rejected only if it does not exist", 0)
                return
            for s in o.st.copy().assume_lp(neg(wrong)):
                not_existing(B, cx, s, val, rest, last, T, "%s panics for an existing date-time" % cx.entry.name)
            return
        nm = vn[e.v] if isinstance(e, Agg) and e.v is not None else None
        if nm == "DateTimeOutOfBounds":
            cx.prove(o.st, neg(yok), "D03 rejected only if it does not exist", "a year in range is reported as out of bounds")
        elif nm == "InvalidDateTime":
            if dok is False:
                B.res.count("D03 rejected only if it does not exist", 0)
                return
            for s in o.st.copy().assume_lp(dok):
                not_existing(B, cx, s, val, rest, last, T, "an existing date-time is rejected as invalid")
        else:
            raise Inconclusive("error %r" % (e,))


def not_existing(B, cx, s, val, rest, last, T, msg):
    """In state s the time of day must be one that does not exist."""
    w = B.w
    for s1 in s.copy().assume_lp(neg(last)):
        cx.prove(s1, neg(cand(rest, le(val["second"], C(59)))), "D03 rejected only if it does not exist", msg)
    for s1 in s.copy().assume_lp(last):
        for pn, pc, lp in w.places(T):
            for s2 in s1.copy().assume_lp(pc):
                cx.prove(s2, neg(cand(rest, le(val["second"], 59 + lp))), "D03 rejected only if it does not exist", "%s (%s)" % (msg, pn))


def same_chron_(B, st, c):
    if c == B.ch:
        return True
    try:
        return st.load(Ptr(c.f[0].key)) == st.load(Ptr(B.ch.f[0].key))
    except AttributeError:
        raise Inconclusive("chronology value")


def build_jobs(pid, D, tier):
    js = []
    asp = frozenset([pid])
    for n in ((2,) if tier == "quick" else (1, 2, 3) if pid == "D04" else (0, 1, 2, 3)):
        for k, u in enumerate(UNITS):
            if pid == "D02" and k < 5:
                continue
            if tier == "quick" and k in (6, 7) and pid != "D15":
                continue
            for m in range(1, 13) if k == 0 else range(13):
                if k == 0 and m > 1:
                    continue
                if m == 0 and pid == "D02":
                    continue
                js.append(("build to %s, month %d, table of %d" % (u, m, n), job_build, (n, k, m, asp)))
    js.sort(key=lambda j: -j[2][1])
    return js


# ---- order of setter calls -------------------------------------------------------------------------------
SET = UNITS + ("offset_hour", "offset_minute", "chronology")


def job_setters(D, lo, hi):
    """Every subset of components set in canonical order, then one more setter call: the builder is the one
    with that component replaced or added.  By induction the result of any call sequence depends only on
    the last value of each component."""
    B = Build(D, 1)
    w = B.w
    ch2, st = w.chronology(B.st)
    f = {u: w.code.method("DateTimeBuilder", u) for u in SET}
    old, new = {}, {}
    for u in SET:
        hi_ = (1 << BITS.get(u, 8)) - 1
        old[u], new[u] = inp("first " + u, 0, hi_), inp("last " + u, 0, hi_)
    old["chronology"], new["chronology"] = B.ch, ch2
    N = len(SET)
    pb = Ptr(st.alloc(B.b))
    pc = {id(B.ch): Ptr(st.alloc(B.ch)), id(ch2): Ptr(st.alloc(ch2))}
    memo = {(): B.b}

    def call(b, u, v):
        st.store(pb, b)
        if u == "chronology":
            v = pc[id(v)]
        os_ = [o for o in w.m.run(f[u], [pb, v], st.copy())]
        if len(os_) != 1 or os_[0].kind != "ret":
            raise Inconclusive("setter %s: %s" % (u, [(o.kind, o.info) for o in os_]))
        return os_[0].st.load(pb)

    def canon(key):
        """key: tuple of (index, 'o' or 'n')"""
        r = memo.get(key)
        if r is None:
            i, t = key[-1]
            r = memo[key] = call(canon(key[:-1]), SET[i], (old if t == "o" else new)[SET[i]])
        return r

    bad = {}
    for mask in range(lo, hi):
        # the low bits of the mask are the first components
        idx = [i for i in range(N) if mask >> (N - 1 - i) & 1]
        b = canon(tuple((i, "o") for i in idx))
        for j in range(N):
            got = call(b, SET[j], new[SET[j]])
            want = canon(tuple(sorted([(i, "o") for i in idx if i != j] + [(j, "n")])))
            if got == want:
                B.res.count("D15 order of settings", 0)
            else:
                bad.setdefault((j, tuple(idx)), (got, want))
        if len(memo) > 20000:
            memo = {(): B.b}
    for (j, idx), (got, want) in sorted(bad.items(), key=lambda x: len(x[0][1]))[:40]:
        differ(B, st, f, j, idx, got, want, old, new)
    for _ in range(len(bad) - 40):
        B.res.count("D15 order of settings", 2)
    if len(bad) > 40:
        B.res.open.append({"rule": "D15 order of settings", "entry": "DateTimeBuilder", "why": "more differing builder states than are compared in detail"})
    return B.done()


def leaves_(v, path=()):
    if isinstance(v, Agg):
        yield path, v.v
        for i, x in enumerate(v.f):
            for y in leaves_(x, path + (i,)):
                yield y
    else:
        yield path, v


def differ(B, st, f, j, idx, got, want, old, new):
    """The builders differ: is it visible in what they build?"""
    w = B.w
    fn = w.code.method("DateTimeBuilder", "checked_build")
    cx = Ctx(B.res, f[SET[j]], w)
    lab = "D15 order of settings"
    msg = "setting %s after %s does not give what setting each component once gives" % (SET[j], ", ".join(SET[i] for i in idx) or "nothing")
    # the same year in both readings, split so that date arithmetic stays linear
    s0 = st.copy()
    for s in split([s0], *[call_(ge(x["month"], C(1)), le(x["month"], C(12))) for x in (old, new)] if False else [True]):
        visible(B, cx, s, fn, got, want, lab, msg)


def visible(B, cx, s, fn, got, want, lab, msg):
    """The builders build the same."""
    w = B.w
    p, q = Ptr(s.alloc(got)), Ptr(s.alloc(want))
    for o in w.m.run(fn, [p], s):
        for o2 in w.m.run(fn, [q], o.st):
            if o.kind == o2.kind == "ret":
                if o.val == o2.val:
                    B.res.count(lab, 0)
                elif o.val.v != o2.val.v:
                    cx._refute_reach(o2, lab, msg)
                else:
                    a, b = list(leaves_(o.val)), list(leaves_(o2.val))
                    same = True
                    for (pa, x), (pb_, y) in zip(a, b):
                        if isinstance(x, Lin) and isinstance(y, Lin) and x != y:
                            same = cand(same, eq(x, y))
                        elif x != y and not isinstance(x, Ptr):
                            same = False
                    cx.prove(o2.st, same, lab, msg)
            elif o.kind == o2.kind:
                B.res.count(lab, 0)
            elif "panic" in (o.kind, o2.kind) and "ret" in (o.kind, o2.kind):
                cx._refute_reach(o2, lab, msg)
            else:
                cx.other(o if o.kind != "ret" else o2, lab)


def job_fresh(D):
    """However a new builder is made, it is the same: nothing is set."""
    B = Build(D, 1)
    w = B.w
    fn = w.code.method("DateTimeBuilder", "checked_build")
    lab = "D15 new builder"
    makers = [("DateTime::builder", w.code.method("DateTime", "builder")),
              ("DateTimeBuilder::default", D.find("<iso8601::date_time_builder::DateTimeBuilder as std::default::Default>::default"))]
    for name, f in makers:
        if f is None or f.bb is None:
            continue
        cx = Ctx(B.res, f, w)
        for o in w.m.run(f, [], B.st.copy()):
            if o.kind == "panic":
                cx.impossible(o, lab, "making a builder panics")
                continue
            if o.kind != "ret":
                cx.other(o, lab)
                continue
            if o.val == B.b:
                B.res.count(lab, 0)
                continue
            # is the difference visible in what they build?
            for k in range(1, len(UNITS) + 1):
                st, one = B.set(o.st.copy(), o.val, "chronology", B.ch)
                st, two = B.set(st, B.b, "chronology", B.ch)
                for u, v in list(zip(UNITS, (2000, 3, 1, 4, 5, 6, 7, 8, 9)))[:k]:
                    st, one = B.set(st, one, u, C(v))
                    st, two = B.set(st, two, u, C(v))
                visible(B, cx, st, fn, one, two, lab, "%s does not give an empty builder" % name)
            visible(B, cx, o.st, fn, o.val, B.b, lab, "%s does not give an empty builder" % name)
    return B.done()


def job_offset(D, unit):
    """Every setting takes effect: the offset set on the builder is part of what is built."""
    B = Build(D, 1)
    w = B.w
    fn = w.code.method("DateTimeBuilder", "checked_build")
    cx = Ctx(B.res, w.code.method("DateTimeBuilder", unit), w)
    a = inp("offset", 0, 255)
    st, b = B.set(B.st.copy(), B.b, "chronology", B.ch)
    for u, v in zip(UNITS[:6], (2000, 3, 1, 0, 0, 0)):
        st, b = B.set(st, b, u, C(v))
    st, b = B.set(st, b, unit, a)
    seen = False
    n = 0
    for o in w.m.run(fn, [Ptr(st.alloc(b))], st):
        if o.kind == "ret" and o.val.v == 0:
            n += 1
            at = set()
            for _, x in leaves_(o.val):
                if isinstance(x, Lin):
                    for k, _ in x.t:
                        at |= SUPP[k] | {k}
            if a.t[0][0] in at or o.st.rng(a) != (0, 255):
                seen = True
    if n == 0:
        raise Inconclusive("nothing built")
    lab = "D15 setting takes effect"
    if seen:
        B.res.count(lab, 0)
    else:
        cx.viol(lab, "%s has no influence on the date-time that is built" % unit, st, {"offset": 1})
    return B.done()


def jobs_d15(D, tier):
    js = build_jobs("D15", D, tier) + [("offset " + u, job_offset, (u,)) for u in ("offset_hour", "offset_minute")] + [("new builder", job_fresh, ())]
    n = 1 << len(SET)
    k = 16
    return [("setter order %d" % i, job_setters, (n * i // k, n * (i + 1) // k)) for i in range(k)] + js


REG["D02"] = Prop(lambda D, t: build_jobs("D02", D, t), "For a symbolic date and time in each month: on every Ok path of checked_build, year/month/day/hour/minute/second of the result equal what was set", assumptions=TABLE)
REG["D03"] = Prop(lambda D, t: build_jobs("D03", D, t), "For symbolic components at each precision: every Ok path implies the date-time exists, every error path implies it does not (and the right error), unset finer components are at the start of the period", assumptions=TABLE)
REG["D15"] = Prop(jobs_d15, "Every setter call on every subset of set components equals the canonical builder (order independence, last value wins, by induction); every component and the finest unit as precision appear in the built value", assumptions=TABLE)

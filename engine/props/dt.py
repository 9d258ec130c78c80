"""Date-time arithmetic: D04, D05, D06, D07, D08, D09, D10, D11 over the checked operations."""
import os
from num import *
from interp import *
import spec
from spec import *
from . import REG, Prop, TABLE

DOM_YEARS, DOM_MONTHS = 12, 12
SRC = "the checked addition"


def const_chain(conds):
    r = True
    for c in conds:
        r = cand(r, c)
    return r


class Setup:
    """One initial abstract state: table of n entries, a class of source dates, a place in the table."""

    def __init__(self, D, n, part, prec=None):
        self.w = w = World(D, n, deadline=spec.DEADLINE)
        self.res = Result()
        self.res.notes.append("leap-second table with %d entr%s, all contents" % (n, "y" if n == 1 else "ies"))
        self.ch, st = w.chronology(w.st0)
        self.prec = SymEnum(w.P) if prec is None else w.precision(prec)
        self.D0 = w.daynum(w.g)
        dn, dc = w.dateparts()[part[0]]
        pn, pc, lp = w.places(self.D0)[part[1]]
        ss = [st]
        conds = [w.inrange(self.D0), dc, pc, le(w.sec, 86399 + lp)] + list(part[2:])
        for c in conds:
            ss = [y for x in ss for y in x.assume_lp(c)]
        self.name = "%s, %s" % (dn, pn)
        self.states = []
        self.panicking = set()
        for s in ss:
            for o in w.new_dt(s, self.ch, self.prec):
                if o.kind != "ret":
                    raise Inconclusive("building the source date-time: %s" % (o.info,))
                p = Ptr(o.st.alloc(o.val))
                o.st.ev = ()
                self.states.append((o.st, p))

    def done(self):
        self.res.fns = dict(self.w.m.fnseen)
        self.res.paths = self.w.m.stats["paths"]
        return self.res

    # -- the checked operation and, where it does not simply hand over to it, the panicking one
    def both(self, tn, op, aspects, args):
        chk = self.w.code.method(tn, "checked_" + op)
        yield chk
        if aspects <= {"D04"}:
            return
        from .variants import delegate
        pan = self.w.code.method(tn, op)
        opq = Opq(("result of", chk.name))
        vs = [(True, Agg(1, (opq,))), (False, Agg(0, ()))]
        for st, p in self.states:
            if not delegate(self.w, self.res, op, pan, chk, lambda: args(st.copy(), p), "", vs):
                self.panicking.add(pan)
                yield pan
                return
        self.res.notes.append("%s hands over to %s" % (pan.name, chk.name))

    def run(self, fn, args, st):
        """Outcomes; of a panicking variant in terms of the checked one."""
        for o in self.w.m.run(fn, args, st):
            if fn in self.panicking:
                if o.kind == "panic":
                    o = Outcome("ret", o.st, Agg(0, ()), o.info, o.site)
                elif o.kind == "ret":
                    o = Outcome("ret", o.st, Agg(1, (o.val,)), o.info, o.site)
            yield o

    # -- reading a DateTimeWithCarry
    def split_carry(self, st, v):
        """[(state, date-time value, days, seconds)] through the accessors."""
        w = self.w
        p = Ptr(st.alloc(v))
        a = w.one(w.code.method("DateTimeWithCarry", "days_carry"), [p], st, "days_carry")
        b = w.one(w.code.method("DateTimeWithCarry", "seconds_carry"), [p], a.st, "seconds_carry")
        c = w.one(w.code.method("DateTimeWithCarry", "drop_carry"), [v], b.st, "drop_carry")
        return c.st, c.val, a.val, b.val


def parts(n):
    return [(i, j) for i in range(3) for j in range(2 * n + 2)]


def option(v):
    if isinstance(v, Agg) and v.v is not None:
        return v.v == 1, (v.f[0] if v.f else None)
    raise Inconclusive("result is not an Option variant")


ASPECTS = {"D04", "D05", "D06", "D07", "D08", "D09", "D10", "D11"}


def each_place(w, st, T, f):
    """Run f(state, leap seconds at the end of day T) for every place T can be in."""
    for pn, pc, lp in w.places(T):
        for s in st.copy().assume_lp(pc):
            f(s, pn, lp)


def check_clamp(S, cx, st, T, src_sec, new_sec, carry, lab, base=0):
    """new_sec is src_sec if it exists on day T, else the last existing second; carry the difference."""
    w = S.w

    def one(s, pn, lp):
        mx = 86399 + lp
        ok = True
        for s2 in s.copy().assume_lp(le(src_sec, mx)):
            cx.prove(s2, cand(eq(new_sec, src_sec), eq(carry, ZERO)), lab, "second of day changed or carried although it exists on the target day (%s)" % pn)
        for s2 in s.copy().assume_lp(gt(src_sec, mx)):
            cx.prove(s2, cand(eq(new_sec, mx), eq(carry, src_sec - mx)), lab, "second missing on the target day is not the day's last one with the rest carried (%s)" % pn)
    each_place(w, st, T, one)


def check_exists(S, cx, st, T, sec, lab):
    def one(s, pn, lp):
        cx.prove(s, cand(ge(sec, ZERO), le(sec, 86399 + lp)), lab, "result names a second that does not exist on its day (%s)" % pn)
    each_place(S.w, st, T, one)


def check_kept(S, cx, st, prec, ns, chron, lab):
    """precision, nanosecond and chronology are those of the source."""
    w = S.w
    want = S.prec
    if isinstance(want, SymEnum):
        if isinstance(prec, SymEnum):
            cx.prove(st, eq(prec.l, want.l), lab, "precision of the result differs from the source's")
        else:
            cx.prove(st, eq(want.l, C(prec.v)), lab, "precision of the result differs from the source's")
    else:
        same = isinstance(prec, Agg) and prec.v == want.v
        cx.prove(st, same, lab, "precision of the result differs from the source's")
    cx.prove(st, eq(ns, w.ns), lab, "nanosecond of the result differs from the source's")
    cx.prove(st, same_chron(S, st, chron), lab, "chronology of the result differs from the source's")


def same_chron(S, st, c):
    if c == S.ch:
        return True
    try:
        return st.load(Ptr(c.f[0].key)) == st.load(Ptr(S.ch.f[0].key))
    except AttributeError:
        raise Inconclusive("chronology value")


def run_op(S, fn, args, tag):
    """[(state, outcome)] of a checked operation over all states of the setup."""
    for st, p in S.states:
        for o in S.run(fn, [p] + args, st.copy()):
            yield o


def generic(S, cx, o, want, aspects, T_in, carry=True, split=()):
    """Common obligations. T_in: condition 'the target is in range'.  Returns (st, gnd, sec, days, secs) for Some."""
    w = S.w
    if o.kind == "panic":
        if "D04" in aspects:
            cx.impossible(o, "D04 no panic", "%s can panic: %s" % (cx.entry.name, o.info[1] if o.info else ""))
        return None
    if o.kind != "ret":
        cx.other(o, "path analysed")
        return None
    if "D04" in aspects:
        S.res.count("D04 no panic", 0)
    some, v = option(o.val)
    if not some:
        if "D05" in aspects:
            ss = [o.st]
            for c in split:
                ss = [y for x in ss for k in (c, neg(c)) for y in x.copy().assume_lp(k)]
            for x in ss:
                cx.prove(x, neg(T_in), "D05 failure only out of range", "%s fails although the target is in range" % cx.entry.name)
        return None
    if "D05" in aspects:
        cx.prove(o.st, T_in, "D05 success only in range", "%s yields a date-time although the target is out of range" % cx.entry.name)
    if aspects <= {"D04", "D05"}:
        return None
    st, days, secs = o.st, ZERO, ZERO
    if carry:
        st, v, days, secs = S.split_carry(o.st, v)
    r = w.read_dt(st, v)
    out = []
    for s, p, g, sec, ns, chron in r:
        if "D11" in aspects:
            check_kept(S, cx, s, p, ns, chron, "D11 kept")
        out.append((s, g, sec, days, secs))
    return out


# ---- days ---------------------------------------------------------------------------------------------
def job_days(D, n, part, aspects):
    S = Setup(D, n, part)
    w = S.w
    N_ = inp("amount", *I32)
    T = S.D0 + N_
    for fn in S.both("DateTime", "add_days", aspects, lambda s, p: (s, [p, N_])):
        cx = Ctx(S.res, fn, w)
        for o in run_op(S, fn, [N_], "days"):
            for s, g, sec, days, secs in generic(S, cx, o, None, aspects, w.inrange(T)) or ():
                if "D06" in aspects:
                    cx.prove(s, w.canon(g), "D06 target day", "the result's date fields are not a date")
                    cx.prove(s, eq(w.daynum(g), T), "D06 target day", "the result is not the date n days away")
                    cx.prove(s, eq(days, ZERO), "D06 target day", "a day carry is reported")
                    check_clamp(S, cx, s, T, w.sec, sec, secs, "D06 second kept")
                if "D10" in aspects:
                    T2 = w.daynum(g)
                    check_exists(S, cx, s, T2, sec, "D10 second exists")
                    check_clamp(S, cx, s, T2, w.sec, sec, secs, "D10 clamped and carried")
    return S.done()


# ---- minutes and hours ----------------------------------------------------------------------------------
def job_minutes(D, n, part, aspects, hours=False):
    w0 = None
    S = Setup(D, n, part)
    w = S.w
    N_ = inp("amount", *(I32 if hours else I64))
    amount = N_ * 60 if hours else N_
    states = []
    for st, p in S.states:
        for s in st.copy().assume_lp(le(w.sec, C(86399))):
            q = div_atom(w.sec, 60)
            states.append((s, p, q, w.sec - q * 60))
        for s in st.copy().assume_lp(gt(w.sec, C(86399))):
            states.append((s, p, C(1439), w.sec - 86340))
    for fn in S.both("DateTime", "add_hours" if hours else "add_minutes", aspects, lambda s, p: (s, [p, N_])):
        cx = Ctx(S.res, fn, w)
        for st, p, m0, som in states:
            tot = m0 + amount
            q = div_atom(tot, 1440)
            T = S.D0 + q
            m1 = tot - q * 1440
            for o in S.run(fn, [p, N_], st):
                for s, g, sec, days, secs in generic(S, cx, o, None, aspects, w.inrange(T)) or ():
                    if "D08" in aspects:
                        cx.prove(s, w.canon(g), "D08 target minute", "the result's date fields are not a date")
                        cx.prove(s, eq(w.daynum(g), T), "D08 target minute", "the result is not on the day that many minutes away")
                        cx.prove(s, call_(ge(sec, m1 * 60), cor(le(sec, m1 * 60 + 59), cand(eq(m1, C(1439)), le(sec, m1 * 60 + 60)))), "D08 target minute", "the result is not in the minute that many minutes away")
                        cx.prove(s, eq(days, ZERO), "D08 target minute", "a day carry is reported")
                    if "D08" in aspects or "D10" in aspects:
                        T2 = w.daynum(g)
                        lab = "D10 clamped and carried" if "D10" in aspects else "D08 second kept"
                        for s2 in s.copy().assume_lp(lt(m1, C(1439))):
                            for s3 in s2.copy().assume_lp(le(som, C(59))):
                                cx.prove(s3, cand(eq(sec, m1 * 60 + som), eq(secs, ZERO)), lab, "second of minute changed or carried although it exists in the target minute")
                            for s3 in s2.copy().assume_lp(gt(som, C(59))):
                                cx.prove(s3, cand(eq(sec, m1 * 60 + 59), eq(secs, som - 59)), lab, "leap second moved into an ordinary minute is not clamped to :59 with the rest carried")
                        for s2 in s.copy().assume_lp(ge(m1, C(1439))):
                            check_clamp(S, cx, s2, T2, som + 86340, sec, secs, lab)
                    if "D10" in aspects:
                        check_exists(S, cx, s, w.daynum(g), sec, "D10 second exists")
    return S.done()


# ---- seconds ----------------------------------------------------------------------------------------------
def instant_of(w, s, D, sec):
    """[(state, SI second of (D, sec))] — the table says how many seconds were inserted before day D."""
    E, tot = w.env.E, w.env.tot
    out = []
    prev = None
    for i in range(w.n + 1):
        c = True
        if i:
            c = cand(c, ge(D, E[i - 1]))
        if i < w.n:
            c = cand(c, lt(D, E[i]))
        for x in s.copy().assume_lp(c):
            out.append((x, D * 86400 + sec + tot[i]))
    return out


def job_seconds(D, n, part, aspects):
    S = Setup(D, n, part)
    w = S.w
    N_ = inp("amount", *I64)
    lo = C(86400 * MIN_DAY)
    hi = C(86400 * MAX_DAY + 86399) + w.env.tot[w.n]
    for fn in S.both("DateTime", "add_seconds", aspects, lambda s, p: (s, [p, N_])):
        cx = Ctx(S.res, fn, w)
        for st, p in S.states:
            for s0, t0 in instant_of(w, st, S.D0, w.sec):
                T = t0 + N_
                for o in S.run(fn, [p, N_], s0):
                    for s, g, sec, days, secs in generic(S, cx, o, None, aspects, cand(ge(T, lo), le(T, hi)), carry=False) or ():
                        if "D09" in aspects:
                            cx.prove(s, w.canon(g), "D09 target second", "the result's date fields are not a date")
                            D1 = w.daynum(g)
                            check_exists(S, cx, s, D1, sec, "D09 second exists")
                            for s2, t1 in instant_of(w, s, D1, sec):
                                cx.prove(s2, eq(t1, T), "D09 target second", "the result is not n elapsed seconds away")
    return S.done()


# ---- months and years ----------------------------------------------------------------------------------------
def job_months(D, n, part, mi, aspects, years=False):
    # the source month is a range of the day-of-year field
    lo, hi = MSTART[mi], (MSTART[mi + 1] - 1 if mi < 11 else 365)
    S = MonthSetup(D, n, part, lo, hi)
    w = S.w
    g = w.g
    Y0 = w.yearnum(g) - 2000
    dom = g["day"] - lo
    if years:
        N_ = inp("amount", -32768, 32767)
        cases = [(N_, Y0 + N_, mi, True)]
    else:
        # amount = 12 * whole years + (target month - source month)
        q = inp("whole years of amount", -178956971, 178956971)
        cases = [(q * 12 + (mj - mi), Y0 + q, mj, cand(ge(q * 12 + (mj - mi), C(I32[0])), le(q * 12 + (mj - mi), C(I32[1])))) for mj in range(12)]
    for fn in S.both("DateTime", "add_years" if years else "add_months", aspects, lambda s, p: (s, [p, inp("amount", *((-32768, 32767) if years else I32))])):
        cx = Ctx(S.res, fn, w)
        for N_, Y1, mj, ok in cases:
            civ = Y1 + (2001 if mj >= 10 else 2000)
            T_in = cand(ge(civ, ZERO), le(civ, C(9999)))
            a = MSTART[mj]
            # cycle of the target year
            yy = Y1 - g["cycle"] * 400 - g["century"] * 100 - g["quadrennium"] * 4
            cyc1 = g["cycle"] + div_atom(g["century"] + div_atom(g["quadrennium"] + div_atom(yy, 4), 25), 4)
            for st0, p in S.states:
                for st in st0.copy().assume_lp(ok):
                    for o in S.run(fn, [p, N_], st):
                        for s, g1, sec, days, secs in generic(S, cx, o, None, aspects, T_in, split=(le(cyc1, C(19)), le(cyc1, C(-6)))) or ():
                            if "D07" in aspects:
                                cx.prove(s, w.canon(g1), "D07 target month", "the result's date fields are not a date")
                                cx.prove(s, eq(w.yearnum(g1) - 2000, Y1), "D07 target month", "the result is not in the year that many months or years away")
                                if mj < 11:
                                    ln = [(True, MLEN[mj])]
                                else:
                                    leap = cand(eq(g1["year"], C(3)), cor(le(g1["quadrennium"], C(23)), eq(g1["century"], C(3))))
                                    ln = [(leap, 29), (neg(leap), 28)]
                                d1 = g1["day"]
                                for c, l in ln:
                                    for s3 in s.copy().assume_lp(c):
                                        cx.prove(s3, cand(ge(d1, C(a)), le(d1, C(a + l - 1))), "D07 target month", "the result is not in the month that many months or years away")
                                        for s4 in s3.copy().assume_lp(lt(dom, C(l))):
                                            cx.prove(s4, cand(eq(d1, dom + a), eq(days, ZERO)), "D07 day of month", "the day of month changed or a day was carried although it exists in the target month")
                                        for s4 in s3.copy().assume_lp(ge(dom, C(l))):
                                            cx.prove(s4, cand(eq(d1, C(a + l - 1)), eq(days, dom - (l - 1))), "D07 day of month", "the day missing from the target month is not its last one with the rest carried")
                            if "D10" in aspects:
                                T2 = w.daynum(g1)
                                check_exists(S, cx, s, T2, sec, "D10 second exists")
                                check_clamp(S, cx, s, T2, w.sec, sec, secs, "D10 clamped and carried")
    return S.done()


class MonthSetup(Setup):
    def __init__(self, D, n, part, lo, hi):
        Setup.__init__(self, D, n, part)
        d = self.w.g["day"]
        out = []
        for st, p in self.states:
            for s in st.assume_lp(cand(ge(d, C(lo)), le(d, C(hi)))):
                out.append((s, p))
        self.states = out


# ---- applying a carry -------------------------------------------------------------------------------------------
def job_carry(D, n, part, aspects):
    S = Setup(D, n, part)
    w = S.w
    tW = w.code.ty("DateTimeWithCarry")
    fs = w.T[tW]["vs"][0][2]
    tC = [t for _, t, _ in fs if t != w.tDT]
    if len(fs) != 2 or len(tC) != 1:
        raise Missing("fields of DateTimeWithCarry")
    names = [x[0] for x in w.T[tC[0]]["vs"][0][2]]
    if sorted(names) != ["days", "seconds"]:
        raise Missing("fields of Carry")
    cs = inp("carry seconds", 0, 2)
    hi = C(86400 * MAX_DAY + 86399) + w.env.tot[w.n]
    from .variants import carrying
    g = w.g
    leap = cand(eq(g["year"], C(3)), cor(le(g["quadrennium"], C(23)), eq(g["century"], C(3))))
    for fn in S.both("DateTimeWithCarry", "apply_carry", aspects, lambda s, p: (s, [Ptr(s.alloc(carrying(w, s, s.load(p), inp("carry days", 0, (1 << 32) - 1), inp("carry seconds", 0, (1 << 64) - 1))))])):
        cx = Ctx(S.res, fn, w)
        for st, p in S.states:
            dt = st.load(p)
            # reachable carries: a day only after February 29 was clamped to the 28th; seconds only at the
            # last second of a minute
            for dcar in (0, 1):
                ss = [st.copy()]
                if dcar:
                    for c in (eq(g["day"], C(364)), neg(leap)):
                        ss = [y for x in ss for y in x.assume_lp(c)]
                for s in ss:
                    v = {"days": C(dcar), "seconds": cs}
                    cv = Agg(None, tuple(v[k] for k in names))
                    W = Agg(None, tuple(dt if t == w.tDT else cv for _, t, _ in fs))
                    for s0, t0 in instant_of(w, s, S.D0 + dcar, w.sec):
                        # the day is added first, clamping the second to the new day
                        q = Ptr(s0.alloc(W))
                        for o in S.run(fn, [q], s0):
                            def chk(s1, pn, lp):
                                T = t0 + cs
                                o1 = Outcome(o.kind, s1, o.val, o.info, o.site)
                                for s2, g1, sec, _, _ in generic(S, cx, o1, None, aspects, le(T, hi), carry=False) or ():
                                    if "D16" in aspects:
                                        cx.prove(s2, w.canon(g1), "D16 carried amount", "the result's date fields are not a date")
                                        D1 = w.daynum(g1)
                                        check_exists(S, cx, s2, D1, sec, "D16 carried amount")
                                        for s3, t1 in instant_of(w, s2, D1, sec):
                                            cx.prove(s3, eq(t1, T), "D16 carried amount", "applying the carry does not move by the carried days and seconds")
                            chk(o.st, "", ZERO)
    return S.done()


# ---- registration ------------------------------------------------------------------------------------------------
def jobs_for(pid, ops):
    def jobs(D, tier):
        js = []
        # (looking a day up in an empty table panics: assumption A1)
        sizes = (2,) if tier == "quick" else (1, 2, 3) if pid == "D04" else (0, 1, 2, 3)
        asp = frozenset([pid])
        for n, op in [(n, op) for n in sizes for op in ops]:
            # the month arithmetic does not involve the table; one entry gives every kind of place
            if tier == "quick" and op in ("months", "years") and pid in ("D04", "D05", "D07", "D11"):
                n = 1
            for part in parts(n):
                if True:
                    if op == "days":
                        js.append(("add_days %s" % (part,), job_days, (n, part, asp)))
                    elif op == "minutes":
                        js.append(("add_minutes %s" % (part,), job_minutes, (n, part, asp)))
                    elif op == "hours":
                        js.append(("add_hours %s" % (part,), job_minutes, (n, part, asp, True)))
                    elif op == "seconds":
                        js.append(("add_seconds %s" % (part,), job_seconds, (n, part, asp)))
                    elif op == "carry":
                        js.append(("apply_carry %s" % (part,), job_carry, (n, part, asp)))
                    elif op in ("months", "years"):
                        for mi in (range(12) if part[0] == 0 else (11,)):
                            js.append(("add_%s %s month %d" % (op, part, mi), job_months, (n, part, mi, asp, op == "years")))
        return js
    return jobs


ALL = ("years", "months", "days", "hours", "minutes", "seconds", "carry")
REG["D05"] = Prop(jobs_for("D05", ALL[:6]), "For every checked addition: every abstract path returning a date-time implies the specified target is in range, every path reporting failure implies it is not", assumptions=TABLE)
REG["D06"] = Prop(jobs_for("D06", ("days",)), "Every path of checked_add_days returning a date-time implies: result day = source day + n, date fields canonical, second kept or clamped", assumptions=TABLE)
REG["D07"] = Prop(jobs_for("D07", ("years", "months")), "Every path of checked_add_years/months returning a date-time implies the target month, day of month and day carry", assumptions=TABLE)
REG["D08"] = Prop(jobs_for("D08", ("hours", "minutes")), "Every path of checked_add_hours/minutes returning a date-time implies target minute and second of minute", assumptions=TABLE)
REG["D09"] = Prop(jobs_for("D09", ("seconds",)), "Every path of checked_add_seconds returning a date-time implies SI second of result = SI second of source + n", assumptions=TABLE)
REG["D10"] = Prop(jobs_for("D10", ALL[:5]), "Every path of a checked addition returning a date-time implies the second exists on its day and the carry is the clamped amount", assumptions=TABLE)
REG["D11"] = Prop(jobs_for("D11", ALL), "Every path returning a date-time implies precision, nanosecond and chronology equal the source's", assumptions=TABLE)
REG["D16"] = Prop(jobs_for("D16", ("carry",)), "Every path of checked_apply_carry implies the elapsed-second position moved by exactly the carried amount", assumptions=TABLE)
def jobs_d04(D, tier):
    from . import builder
    return jobs_for("D04", ALL)(D, tier) + builder.build_jobs("D04", D, tier)


REG["D04"] = Prop(jobs_d04, "No path of a checked operation reaches a panic (assert, overflow check, unwrap/expect, slice index, explicit panic)", assumptions=TABLE)

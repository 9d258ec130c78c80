"""Copies hold what the original holds: C01."""
from num import *
from interp import *
import spec
from spec import *
from . import REG, Prop, TABLE
from .gnd import finish, world
from .dt import parts
from .equal import fields, date_times, truths, GNDF
from .ints import Api, Multi, mk, rd, trange, SCALES

LAB = "C01 copies"


def copiers(D, ty):
    """The functions that copy a value of this type: [(function, arguments before the source, how)]."""
    out = []
    for meth, tr in (("clone", "std::clone::Clone"), ("clone_from", "std::clone::Clone"), ("to_owned", "std::borrow::ToOwned")):
        f = D.find("<%s as %s>::%s" % (ty, tr, meth))
        if f is not None and f.bb is not None and f.local:
            out.append((f, meth))
    if not out:
        raise Missing("Clone of " + ty)
    return out


def copied(w, cx, f, how, st, v, other):
    """(state, copy) for every way f can copy v; `other` is the value overwritten by clone_from."""
    st = st.copy()
    src = Ptr(st.alloc(v))
    if how == "clone_from":
        if other is None:
            return
        dst = Ptr(st.alloc(other))
    for o in w.m.run(f, [src] if how != "clone_from" else [dst, src], st):
        if o.kind == "panic":
            cx.impossible(o, LAB, "copying panics")
        elif o.kind != "ret":
            cx.other(o, LAB)
        else:
            yield o.st, o.st.load(dst) if how == "clone_from" else o.val


def true(cx, w, f, a, b, st, msg):
    for o in w.m.run(f, [Ptr(st.alloc(a)), Ptr(st.alloc(b))], st):
        if o.kind == "panic":
            cx.impossible(o, LAB, msg)
        elif o.kind != "ret":
            cx.other(o, LAB)
        else:
            cx.prove(o.st, o.val, LAB, msg)


def same(w, cx, st, c, g, sec, ns, P, v):
    """c holds the given components and the chronology of v."""
    n = 0
    for s, p, g2, sec2, ns2, _ in w.read_dt(st, c):
        n += 1
        for what, x, y in [("second", sec, sec2), ("nanosecond", ns, ns2)] + [(k, g[k], g2[k]) for k in GNDF]:
            cx.prove(s, eq(x, y), LAB, "a copy has another %s" % what)
        if isinstance(p, SymEnum):
            cx.prove(s, eq(p.l, P), LAB, "a copy has another precision")
        elif isinstance(p, Agg) and p.v is not None:
            cx.prove(s, eq(C(p.v), P), LAB, "a copy has another precision")
        else:
            raise Inconclusive("precision %r" % (p,))
    if not n:
        raise Inconclusive("no copy")
    true(cx, w, w.code.method("DateTime", "eq"), v, c, st.copy(), "a copy is not equal to its original")


def job_datetime(D):
    w, res = world(D)
    ch, st = w.chronology(w.st0)
    ch2, st = w.chronology(st, "Europe/Stockholm")
    g, sec, ns, P = fields(w, "")
    h = fields(w, " other")
    for f, how in copiers(D, "iso8601::date_time::DateTime"):
        cx = Ctx(res, f, w)
        for s, v in date_times(w, st, ch, g, sec, ns, P):
            for s2, other in (date_times(w, s, ch2, *h) if how == "clone_from" else [(s, None)]):
                for s3, c in copied(w, cx, f, how, s2, v, other):
                    same(w, cx, s3, c, g, sec, ns, P, v)
    return finish(w, res)


def job_carry(D):
    w, res = world(D)
    ch, st = w.chronology(w.st0)
    g, sec, ns, P = fields(w, "")
    d, c = inp("days", 0, (1 << 32) - 1), inp("seconds", 0, (1 << 64) - 1)
    drop = w.code.method("DateTimeWithCarry", "drop_carry")
    reads = [("days", w.code.method("DateTimeWithCarry", "days_carry")), ("seconds", w.code.method("DateTimeWithCarry", "seconds_carry"))]
    for f, how in copiers(D, "iso8601::date_time::DateTimeWithCarry"):
        cx = Ctx(res, f, w)
        for meth, want in (("with_days", {"days": d, "seconds": ZERO}), ("with_seconds", {"days": ZERO, "seconds": c})):
            mkf = w.code.method("DateTimeWithCarry", meth)
            for s, dt in date_times(w, st, ch, g, sec, ns, P):
                for o in w.m.run(mkf, [dt, d if meth == "with_days" else c], s):
                    if o.kind != "ret":
                        cx.other(o, LAB)
                        continue
                    for s2, x in copied(w, cx, f, how, o.st, o.val, o.val):
                        for k, rf in reads:
                            for r in w.m.run(rf, [Ptr(s2.alloc(x))], s2.copy()):
                                if r.kind == "ret":
                                    cx.prove(r.st, eq(r.val, want[k]), LAB, "a copy carries another number of %s" % k)
                                else:
                                    cx.other(r, LAB)
                        for r in w.m.run(drop, [x], s2.copy()):
                            if r.kind == "ret":
                                same(w, cx, r.st, r.val, g, sec, ns, P, dt)
                            else:
                                cx.other(r, LAB)
    return finish(w, res)


def job_date(D):
    w, res = world(D)
    g = fields(w, "")[0]
    h = fields(w, " other")[0]
    for f, how in copiers(D, D.T[w.tGND]["name"]):
        cx = Ctx(res, f, w)
        for s, c in copied(w, cx, f, how, w.st0, w.gnd(g), w.gnd(h)):
            g2 = w.gnd_vals(c)
            for k in GNDF:
                cx.prove(s, eq(g[k], g2[k]), LAB, "the copy of a date has another %s" % k)
    return finish(w, res)


def job_chronology(D):
    w, res = world(D)
    ch, st = w.chronology(w.st0)
    ch2, st = w.chronology(st, "Europe/Stockholm")
    e = w.code.method("Chronology", "eq")
    for f, how in copiers(D, "iso8601::chronology::Chronology"):
        cx = Ctx(res, f, w)
        for a, b in ((ch, ch2), (ch2, ch)):
            for s, c in copied(w, cx, f, how, st, a, b):
                true(cx, w, e, a, c, s.copy(), "the copy of a chronology is not equal to it")
    return finish(w, res)


def job_ticks(D, t):
    api = Api(D)
    M = Multi(D)
    lo, hi = trange(t)
    for s in SCALES:
        for kind, path in (("I", "instant::Instant"), ("D", "duration::Duration")):
            for f, how in copiers(D, "%s<%s, scale::%s>" % (path, t, s)):
                M.what = f.name
                with M as w:
                    cx = Ctx(M.res, f, w)
                    a, b = inp("ticks", lo, hi), inp("ticks overwritten", lo, hi)
                    v, st = mk(w, api, kind, t, s, a, w.st0.copy())
                    v2, st = mk(w, api, kind, t, s, b, st)
                    for s2, c in copied(w, cx, f, how, st, v, v2):
                        x, s3 = rd(w, api, kind, t, s, c, s2)
                        cx.prove(s3, eq(x, a), LAB, "a copy has other ticks")
    return M.res


def jobs(D, tier):
    ts = sorted({g[0] for g, _ in Api(D).all(r"instant::Instant::<$T, $S>::ticks_since_epoch")})
    return [("date-times", job_datetime, ()), ("date-times with a carry", job_carry, ()), ("dates", job_date, ()), ("chronologies", job_chronology, ())] + \
        [("ticks of " + t, job_ticks, (t,)) for t in ts]


REG["C01"] = Prop(jobs, "For symbolic components: whatever Clone (or an overriding clone_from) makes of a date-time, a date-time with a carry, a date, a chronology, an instant or a duration has the components, precision, carry, ticks of the original and an equal chronology", assumptions=TABLE)

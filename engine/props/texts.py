"""Debug texts: F01."""
import re
from num import *
from interp import *
import spec
from spec import *
import text
from . import REG, Prop
from .gnd import finish, world, split
from .equal import fields, date_times
from .ints import Api, Multi, mk, trange, SCALES

LAB = "F01 debug text"
PRECISIONS = ("Millennia Centuries Decades Years Months Weeks Days Hours Minutes Seconds Milliseconds Microseconds Nanoseconds").split()


def impl(D, ty):
    f = D.find("<%s as std::fmt::Debug>::fmt" % ty)
    if f is None or f.bb is None:
        raise Missing("Debug of " + ty)
    return f


def shown(w, cx, fn, st, v):
    """(state, merged pieces) for every way fn can make the text of v."""
    for o in text.render(w, st.copy(), fn, v):
        if o[0] == "ok":
            yield o[1], text.merge(o[2])
        elif o[0] == "failed":
            cx.prove(o[1].st, False, LAB, "showing a value fails although writing its text succeeds")
        elif o[1].kind == "panic":
            cx.impossible(o[1], LAB, "showing a value panics")
        else:
            cx.other(o[1], LAB)


def labelled(cx, st, ps, want, extra=()):
    """The numbers in the text are exactly those wanted, each after its label."""
    left = dict(want)
    before = ""
    for i, p in enumerate(ps):
        if p[0] == "str":
            before = p[1]
            for name, n in re.findall(r"(\w+): (-?\d+)(?![\d.])", before):
                if name in want:
                    left.pop(name, None)
                    cx.prove(st, eq(C(int(n)), want[name]), LAB, "the text says something else than the value for `%s`" % name)
            continue
        if p[0] != "show" or not isinstance(p[3], Lin):
            if p[0] == "show" and "PhantomData" in cx.w.D.T[p[2]]["name"]:
                before = ""
                continue
            raise Inconclusive("a text shows something else than a number: %s" % (p,))
        m = re.search(r"(\w+): *\Z", before)
        name = m.group(1) if m else None
        if name not in left:
            # a number that is not one of the fields, or a field shown twice
            if name in want:
                cx.prove(st, eq(p[3], want[name]), LAB, "the text says something else than the value for `%s`" % name)
            else:
                cx.prove(st, False, LAB, "the text shows a number that is not labelled as a field: ..%s" % before[-20:])
            continue
        cx.prove(st, eq(p[3], left.pop(name)), LAB, "the text says something else than the value for `%s`" % name)
        before = ""
    cx.prove(st, not left, LAB, "the text leaves out `%s`" % "`, `".join(sorted(left)))


def job_datetime(D):
    w, res = world(D)
    fn = impl(D, "iso8601::date_time::DateTime")
    cx = Ctx(res, fn, w)
    ch, st = w.chronology(w.st0)
    g, sec, ns, P = fields(w, "")
    n = 0
    for s, dt in date_times(w, st, ch, g, sec, ns, P):
        for s2, ps in shown(w, cx, fn, s, dt):
            n += 1
            labelled(cx, s2, ps, {**g, "second": sec, "nanosecond": ns})
            says = re.findall(r"precision: (\w+)", "".join(p[1] if p[0] == "str" else "#" for p in ps))
            if len(says) != 1 or says[0] not in PRECISIONS:
                cx.prove(s2, False, LAB, "the text does not name the precision: %s" % says)
            else:
                cx.prove(s2, eq(P, C(PRECISIONS.index(says[0]))), LAB, "the text names another precision")
    if not n:
        raise Inconclusive("no text")
    return finish(w, res)


def job_carry(D):
    w, res = world(D)
    fn = impl(D, "iso8601::date_time::DateTimeWithCarry")
    cx = Ctx(res, fn, w)
    ch, st = w.chronology(w.st0)
    g, sec, ns, P = fields(w, "")
    d, c = inp("days", 0, (1 << 32) - 1), inp("seconds", 0, (1 << 64) - 1)
    for meth, want in (("with_days", {"days": d, "seconds": ZERO}), ("with_seconds", {"days": ZERO, "seconds": c})):
        f = w.code.method("DateTimeWithCarry", meth)
        for s, dt in date_times(w, st, ch, g, sec, ns, P):
            for o in w.m.run(f, [dt, d if meth == "with_days" else c], s):
                if o.kind != "ret":
                    cx.other(o, LAB)
                    continue
                for s2, ps in shown(w, cx, fn, o.st, o.val):
                    labelled(cx, s2, ps, {**g, "second": sec, "nanosecond": ns, **want})
    return finish(w, res)


def job_ticks(D, t):
    api = Api(D)
    M = Multi(D)
    lo, hi = trange(t)
    for s in SCALES:
        for kind, path in (("I", "instant::Instant"), ("D", "duration::Duration")):
            f = impl(D, "%s<%s, scale::%s>" % (path, t, s))
            M.what = f.name
            with M as w:
                a = inp("ticks", lo, hi)
                cx = Ctx(M.res, f, w)
                v, st = mk(w, api, kind, t, s, a, w.st0.copy())
                for s2, ps in shown(w, cx, f, st, v):
                    labelled(cx, s2, ps, {"ticks": a})
    return M.res


def job_errors(D):
    """The errors say which of the two they are."""
    w, res = world(D)
    for ty in ("iso8601::date_time_builder::Error", "gregorian_normalized_date::Error"):
        fn = impl(D, ty)
        cx = Ctx(res, fn, w)
        x = D.T[D.T[fn.locals[1]]["e"]]
        for i, (name, _, fs) in enumerate(x["vs"]):
            if fs or not re.search("invalid|outofbounds", name, re.I):
                raise Inconclusive("variant %s of %s" % (name, ty))
            for s, ps in shown(w, cx, fn, w.st0, Agg(i, ())):
                says = "".join(p[1] if p[0] == "str" else "#" for p in ps)
                is_bounds = re.search(r"out ?of ?bounds", says, re.I) is not None
                is_invalid = re.search(r"invalid", says, re.I) is not None
                cx.prove(s, is_bounds == ("bounds" in name.lower()) and is_invalid == ("invalid" in name.lower()), LAB,
                         "the error %s reads `%s`" % (name, says))
    return finish(w, res)


def jobs(D, tier):
    ts = sorted({g[0] for g, _ in Api(D).all(r"instant::Instant::<$T, $S>::ticks_since_epoch")})
    return [("date-times", job_datetime, ()), ("date-times with a carry", job_carry, ()), ("errors", job_errors, ())] + [("ticks of " + t, job_ticks, (t,)) for t in ts]


REG["F01"] = Prop(jobs, "For symbolic components: the debug text of a date-time (with or without a carry), an instant and a duration names every stored component with its value, and nothing else as a number")

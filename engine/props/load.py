"""Loading chronologies: Z01."""
from num import *
from interp import *
import spec
from spec import *
from . import REG, Prop
from .gnd import world, earlier, finish
from .leap import table, read_ticks

LAB = "Z01 zone file"
ROOTS = ("$TZDIR", "/usr/share/zoneinfo")


def norm(p):
    while "//" in p:
        p = p.replace("//", "/")
    return p


def tokens(st, v, seen=None):
    """Opaque values reachable from v."""
    seen = set() if seen is None else seen
    if isinstance(v, Opq):
        yield v.n
    elif isinstance(v, Agg):
        for x in v.f:
            yield from tokens(st, x, seen)
    elif isinstance(v, Ptr) and v not in seen:
        seen.add(v)
        yield from tokens(st, st.load(v), seen)


def zones(st, v):
    return [norm(n[1]) for n in tokens(st, v) if isinstance(n, tuple) and n and n[0] == "tz"]


def root_of(st):
    """Where the zone files are in this state: the value of TZDIR, or the default."""
    a = inp("env:TZDIR set", 0, 1)
    return [(r, s) for r, c in ((ROOTS[0], eq(a, C(1))), (ROOTS[1], eq(a, ZERO))) for s in st.copy().assume_lp(c)]


class Tables:
    """UTC's table for UTC's file and that of the zone, another one for any other file."""

    def __init__(self, w, *zones):
        self.w, self.env = w, w.env
        self.other = Env(w.n)
        self.other.E = [inp("other " + repr(i), 1, 24855) for i in range(w.n)]
        self.other.j = [inp("other jump %d" % i, -1, 1) for i in range(w.n)]
        self.other.r = [inp("other time %d" % i, 0, 86399) for i in range(w.n)]
        self.other.tot = [ZERO]
        for j in self.other.j:
            self.other.tot.append(self.other.tot[-1] + j)
        self.good = {norm(r + "/right/" + z) for r in ROOTS for z in ("UTC",) + zones}
        self.real = w.env.parse
        w.env.parse = self.parse
        w.env.io = True

    def parse(self, m, st, fn, path):
        if "?" in path:
            raise Unsupported("path of the zone file not determined")
        return (self.real if norm(path) in self.good else self.other.parse)(m, st, fn, path)


def string(w, text):
    key = -fresh()
    CONSTMEM[key] = Opq(("str", text))
    return Ptr(key, (), (ZERO, C(len(text))))


def job_load(D, zones, n):
    """Loads the zones one after the other; what is required is required of the last."""
    w, res = world(D, n)
    fn = w.code.fn("iso8601::chronology::load_chronology", "iso8601::load_chronology")
    cx = Ctx(res, fn, w)
    Tables(w, *zones)
    sts = [w.st0.copy()]
    for z in zones[:-1]:
        nxt = []
        for st in sts:
            for o in w.m.run(fn, [string(w, z)], st):
                if o.kind == "ret":
                    o.st.ev = w.st0.ev
                    nxt.append(o.st)
                elif o.kind != "panic":
                    cx.other(o, LAB)
        sts = nxt
        if not sts:
            res.count(LAB, 2)
    for st in sts:
        last_load(w, res, cx, fn, st, zones[-1], n)
    return finish(w, res)


def last_load(w, res, cx, fn, st0, zone, n):
    good = 0
    for o in w.m.run(fn, [string(w, zone)], st0):
        good += loaded(w, res, cx, fn, zone, n, o)
    if not good and res.totals()[2] == 0:
        cx.viol(LAB, "no chronology can be loaded for " + zone, None, {})


def loaded(w, res, cx, fn, zone, n, o, when=""):
    """What is required of one outcome of loading the zone; the number of chronologies looked at."""
    f = w.code.method("Chronology", "leap_seconds")
    tS = w.code.ty("ContinuousTimeSegment")
    fl = w.code.fields(tS)
    good = 0
    if o.kind == "panic":
        if any(isinstance(e, tuple) for e in o.st.ev):
            res.count("Z01 missing files", 0)
        else:
            cx.impossible(o, "Z01 missing files", "loading fails although the zone's and UTC's files are readable and well-formed" + when)
        return 0
    if o.kind != "ret":
        cx.other(o, LAB)
        return 0
    if any(isinstance(e, tuple) for e in o.st.ev):
        cx.impossible(o, "Z01 missing files", "a chronology is made although a file is unreadable or malformed: %s" % (o.st.ev,))
        return 0
    for root, s in root_of(o.st):
        z = zones(s, o.val)
        good += 1
        want = norm(root + "/right/" + zone)
        if any("?" in x for x in z):
            res.count(LAB, 2)
            res.open.append({"rule": LAB, "entry": fn.name, "why": "path of the zone file not determined"})
            continue
        cx.prove(s, z == [want], LAB, "zone data for %s come from %s instead of %s%s" % (zone, z, want, when))
    r = w.one(f, [Ptr(o.st.alloc(o.val))], o.st.copy(), "leap_seconds")
    lv = r.st.load(r.val)
    while isinstance(lv, Agg) and len(lv.f) == 1 and isinstance(lv.f[0], Agg) and lv.f[0].v is None and len(lv.f[0].f) != len(fl):
        lv = lv.f[0]
    cx.prove(r.st, len(lv.f) == n, "Z01 leap seconds", "the leap-second table is not that of UTC")
    if len(lv.f) != n:
        return good
    for i, seg in enumerate(lv.f):
        d = dict(zip(fl, seg.f))
        cx.prove(r.st, cand(eq(d["start_day"] + d["duration_days"], w.env.E[i]), eq(d["leap_seconds"], w.env.j[i])),
                 "Z01 leap seconds", "the leap-second table is not that of UTC")
    return good


def job_race(D, before, mine, theirs, after, n):
    """One thread loads `mine`; wherever it touches shared state while it holds no lock, another one may load `theirs`.
    All of both threads' results are looked at, and those of loading `after` in the states that can follow."""
    w, res = world(D, n)
    fn = w.code.fn("iso8601::chronology::load_chronology", "iso8601::load_chronology")
    cx = Ctx(res, fn, w)
    Tables(w, *{mine, theirs, *before, *after})
    res.count(LAB, 0)
    if not (w.m.has_statics and w.m.stateful(fn)):
        res.notes.append("no shared state that can change is reachable from loading")
        return finish(w, res)
    w.m.run(fn, [string(w, mine)], w.st0.copy())
    if any("LocalKey" in w.D.F[i].vpath for i in w.m.fnseen):
        # (the other thread has its own copy, which is not represented)
        res.notes.append("state local to a thread is used: no second thread considered")
        return finish(w, res)
    sts = [w.st0.copy()]
    for z in before:
        sts = [o.st for st in sts for o in w.m.run(fn, [string(w, z)], st) if o.kind == "ret"]
        for st in sts:
            st.ev = w.st0.ev
    when = ", when two threads load at a time"

    def judge(args, o):
        loaded(w, res, cx, fn, theirs, n, o, when)
    w.m.between = w.m.other_thread(fn, [[string(w, theirs)]], judge)
    outs = [o for st in sts for o in w.m.run(fn, [string(w, mine)], st)]
    w.m.between = None
    for o in outs:
        loaded(w, res, cx, fn, mine, n, o, when)
        if o.kind == "ret" and not any(isinstance(e, tuple) for e in o.st.ev):
            for z in after:
                s = o.st.copy()
                s.cut, s.ev = False, w.st0.ev
                for o2 in w.m.run(fn, [string(w, z)], s):
                    loaded(w, res, cx, fn, z, n, o2, ", after two threads loaded at a time")
    for o in w.m.missed:
        cx.other(o, LAB)
    return finish(w, res)


def builder(w, st, year):
    new = w.one(w.code.method("DateTimeBuilder", "new"), [], st, "DateTimeBuilder::new")
    st, p = new.st, Ptr(new.st.alloc(new.val))
    o = w.one(w.code.method("DateTimeBuilder", "year"), [p, C(year)], st, "setter")
    return o.st, p


def job_default(D, n, other=None):
    """A builder that was given no chronology uses UTC's, also after another builder was given one."""
    w, res = world(D, n)
    fn = w.code.method("DateTimeBuilder", "checked_build")
    cx = Ctx(res, fn, w)
    sts = [w.st0.copy()]
    if other:
        ch, st = w.chronology(sts[0], other)
        st, p = builder(w, st, 2002)
        o = w.one(w.code.method("DateTimeBuilder", "chronology"), [p, Ptr(st.alloc(ch))], st, "setter")
        sts = [x for x in earlier(w, fn, [p], o.st)]
    good = sum(default_build(w, res, cx, fn, st) for st in sts)
    if not good:
        res.count("Z01 default zone", 2)
    return finish(w, res)


def default_build(w, res, cx, fn, st):
    good = 0
    st, p = builder(w, st, 2001)
    b = st.load(p)
    for o in w.m.run(fn, [Ptr(st.alloc(b))], st):
        if o.kind == "panic":
            cx.impossible(o, "Z01 default zone", "building without a chronology panics")
        elif o.kind != "ret":
            cx.other(o, "Z01 default zone")
        elif o.val.v == 0:
            for root, s in root_of(o.st):
                good += 1
                z = zones(s, o.val)
                if any("?" in x for x in z):
                    res.count("Z01 default zone", 2)
                    res.open.append({"rule": "Z01 default zone", "entry": fn.name, "why": "path of the zone file not determined"})
                    continue
                cx.prove(s, z == [norm(root + "/right/UTC")], "Z01 default zone", "a date-time built without a chronology uses the zone data %s" % z)
    return good


ZONES = ("UTC", "Europe/Stockholm", "America/Argentina/Ushuaia", "GMT")
# loads in one process: same length, same first part, same last part, one a part of the other, all different
HIST = (("Europe/Stockholm", "America/New_York"), ("Europe/Stockholm", "Europe/Paris"), ("Asia/Jerusalem", "Jerusalem"),
        ("America/Argentina/Ushuaia", "America/Argentina"), ("UTC", "Europe/Stockholm"), ("Europe/Stockholm", "UTC"),
        ("UTC", "UCT"), ("Europe/Stockholm", "Europe/Stockholm"))
LONG = (("UTC", "GMT", "UTC"), ("Europe/Stockholm", "UTC", "Europe/Stockholm"), ("UTC", "Europe/Paris", "Europe/Stockholm", "UTC"),
        ("Europe/Paris", "Europe/Stockholm", "Asia/Tokyo", "America/New_York", "Europe/Oslo", "Europe/Paris"))


# loaded before, by one thread, by the other, after
RACES = (((), "Europe/Stockholm", "America/New_York", ("Europe/Stockholm", "America/New_York")),
         (("UTC",), "Europe/Stockholm", "Europe/Stockholm", ("UTC",)), (("UTC",), "Europe/Stockholm", "UTC", ("UTC", "Europe/Stockholm")),
         (("Europe/Stockholm",), "Europe/Stockholm", "UTC", ()))


def jobs_z01(D, tier):
    return [("load %s, table of %d" % (z, n), job_load, ((z,), n)) for n in ((2,) if tier == "quick" else (1, 2, 3)) for z in ZONES] + \
        [("default zone", job_default, (1,)), ("default zone after another", job_default, (1, "Europe/Stockholm"))] + \
        [("two threads load %s and %s" % r[1:3], job_race, r + (1,)) for r in RACES] + \
        [("load " + ", then ".join(h), job_load, (h, 1)) for h in HIST + (LONG if tier != "quick" else LONG[:2])]


REG["Z01"] = Prop(jobs_z01, "On every path of load_chronology: the zone data are those of TZDIR/right/<zone> (default directory if TZDIR is unset), the leap-second table is UTC's, and no chronology results once a file could not be read or parsed; the same for a load that follows others in the same process, with what they left in statics; building without a chronology uses right/UTC",
                  assumptions=["zone names, and sequences of loads: those listed in the jobs", "TZDIR, where set, is valid Unicode and stays the same", "the files of a zone and of UTC under right/ hold the same leap seconds"])

"""Equality of date-times: D14."""
from num import *
from interp import *
import spec
from spec import *
from . import REG, Prop, TABLE
from .gnd import finish, split
from .dt import Setup, parts

LAB = "D14 equality"


def fields(w, tag):
    return ({k: inp(k + tag, lo, hi) for k, lo, hi in (("cycle", -6, 19), ("century", 0, 3), ("quadrennium", 0, 24), ("year", 0, 3), ("day", 0, 365))},
            inp("second" + tag, 0, 86400), inp("nanosecond" + tag, 0, 999999999), inp("precision" + tag, 0, 12))


def date_times(w, st, ch, g, sec, ns, P):
    out = []
    for s in split([st.copy()], w.canon(g), w.inrange(w.daynum(g))):
        for o in w.new_dt(s, ch, SymEnum(P), w.gnd(g), sec, ns):
            if o.kind != "ret":
                raise Inconclusive("building a date-time: %s" % (o.info,))
            out.append((o.st, o.val))
    return out


def truths(o):
    """[(result, state)] of a boolean outcome."""
    for b in (True, False):
        c = o.val if b else neg(o.val)
        for s in (o.st.copy().assume_lp(c) if c not in (True, False) else ([o.st] if c else [])):
            yield b, s


def job_eq(D, case):
    n = case[1] if case[0] == "table" else 1
    w = World(D, n, deadline=spec.DEADLINE)
    res = Result()
    fn = w.code.method("DateTime", "eq")
    cx = Ctx(res, fn, w)
    ch, st = w.chronology(w.st0)
    g, sec, ns, P = fields(w, " a")
    kind, arg = case
    if kind == "same":
        # the same components; the chronology cloned, or loaded again for the same zone
        chs = [(ch, st)]
        if arg == "loaded again":
            chs = [w.chronology(st)]
        elif arg == "cloned":
            f = w.code.method("Chronology", "clone")
            o = w.one(f, [Ptr(st.alloc(ch))], st, "clone")
            chs = [(o.val, o.st)]
        for ch2, s0 in chs:
            for s, a in date_times(w, s0, ch, g, sec, ns, P):
                for s2, b in date_times(w, s, ch2, g, sec, ns, P):
                    for o in w.m.run(fn, [Ptr(s2.alloc(a)), Ptr(s2.alloc(b))], s2):
                        if o.kind == "panic":
                            cx.impossible(o, LAB, "comparing panics")
                        elif o.kind != "ret":
                            cx.other(o, LAB)
                        else:
                            cx.prove(o.st, o.val, LAB, "date-times with the same components and time zone (%s) are unequal" % arg)
    elif kind == "zone":
        ch2, s0 = w.chronology(st, "Europe/Stockholm")
        some = False
        for s, a in date_times(w, s0, ch, g, sec, ns, P):
            for s2, b in date_times(w, s, ch2, g, sec, ns, P):
                n = 0
                for o in w.m.run(fn, [Ptr(s2.alloc(a)), Ptr(s2.alloc(b))], s2):
                    if o.kind != "ret":
                        cx.other(o, LAB)
                        n += 1
                        continue
                    for r, s3 in truths(o):
                        if not r:
                            n += 1
                if n:
                    res.count(LAB, 0)
                else:
                    cx.viol(LAB, "date-times in different time zones are equal whatever the zones are", s2, {})
    elif kind == "table":
        # the file with the leap seconds changed between the two loads
        from .load import Tables
        t = Tables(w, "UTC")
        w.env.io = False
        o = t.other
        t.good = set()
        st = st.copy()
        for k in [k for k in st.mem if k in CONSTMEM]:      # loads in two processes: statics start anew
            del st.mem[k]
        ch2, s0 = w.chronology(o.assume(st))
        for c in [ne(x, y) for x, y in zip(w.env.E, o.E)] + [ne(x, y) for x, y in zip(w.env.j, o.j)]:
            for s1 in split([s0.copy()], c):
                for s, a in date_times(w, s1, ch, g, sec, ns, P):
                    for s2, b in date_times(w, s, ch2, g, sec, ns, P):
                        for x in w.m.run(fn, [Ptr(s2.alloc(a)), Ptr(s2.alloc(b))], s2):
                            if x.kind == "panic":
                                cx.impossible(x, LAB, "comparing panics")
                            elif x.kind != "ret":
                                cx.other(x, LAB)
                            else:
                                cx.prove(x.st, neg(x.val), LAB, "date-times whose chronologies have different leap-second tables are equal")
    elif kind == "one":
        # all components shared but one
        for other in (["second", "nanosecond", "precision"] + list(GNDF)):
            g2, sec2, ns2, P2 = dict(g), sec, ns, P
            gb, sb, nb, pb = fields(w, " b")
            if other == "second":
                d = (sec, sb)
                sec2 = sb
            elif other == "nanosecond":
                d = (ns, nb)
                ns2 = nb
            elif other == "precision":
                d = (P, pb)
                P2 = pb
            else:
                d = (g[other], gb[other])
                g2[other] = gb[other]
            for s, a in date_times(w, st, ch, g, sec, ns, P):
                for s2, b in date_times(w, s, ch, g2, sec2, ns2, P2):
                    for s3 in split([s2], ne(*d)):
                        for o in w.m.run(fn, [Ptr(s3.alloc(a)), Ptr(s3.alloc(b))], s3):
                            if o.kind != "ret":
                                if o.kind == "panic":
                                    cx.impossible(o, LAB, "comparing panics")
                                else:
                                    cx.other(o, LAB)
                                continue
                            for r, x in truths(o):
                                if r:
                                    cx.prove(x, words(w, a, b) if arg == "w" else False, LAB, "date-times differing in %s are equal" % other)
                                else:
                                    res.count(LAB, 0)
    elif kind == "words":
        # equal implies the same stored words (D01: the same components)
        h, sec2, ns2, P2 = fields(w, " b")
        for s, a in date_times(w, st, ch, g, sec, ns, P):
            for s2, b in date_times(w, s, ch, h, sec2, ns2, P2):
                for o in w.m.run(fn, [Ptr(s2.alloc(a)), Ptr(s2.alloc(b))], s2):
                    if o.kind != "ret":
                        if o.kind == "panic":
                            cx.impossible(o, LAB, "comparing panics")
                        else:
                            cx.other(o, LAB)
                        continue
                    for r, x in truths(o):
                        if not r:
                            res.count(LAB, 0)
                        elif x.entails(words(w, a, b)):
                            res.count(LAB, 0)
                        else:
                            cx.prove(x, call_(eq(sec, sec2), eq(ns, ns2), eq(P, P2), *[eq(g[k], h[k]) for k in GNDF]), LAB, "date-times with different components are equal")
    res.fns = dict(w.m.fnseen)
    res.paths = w.m.stats["paths"]
    return res


def words(w, a, b):
    r = True
    for (nm, t, _), x, y in zip(w.T[w.tDT]["vs"][0][2], a.f, b.f):
        if isinstance(x, Lin) and isinstance(y, Lin):
            r = cand(r, eq(x, y))
        elif x != y:
            raise Inconclusive("stored field " + nm)
    return r


def jobs(D, tier):
    return [("same components, chronology " + a, job_eq, (("same", a),)) for a in ("shared", "cloned", "loaded again")] + \
        [("different zones", job_eq, (("zone", None),)), *[("different leap seconds, %d entries" % n, job_eq, (("table", n),)) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5))], ("one component differs", job_eq, (("one", None),)), ("equal means equal words", job_eq, (("words", None),))]


REG["D14"] = Prop(jobs, "Two symbolic date-times: eq is true on every path with the same components and zone (chronology shared, cloned or loaded again); eq true implies equal stored words, which determine the components (D01); zones and leap-second tables matter", assumptions=TABLE)

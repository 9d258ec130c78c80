"""Shared vocabulary of the specifications: environment, anchors, dates, date-times, obligations."""
import os, re, sys, time
from num import *
import num as N
from interp import *
from dump import Dump
import models as MO
from models import Models
import stdx

MIN_DAY, MAX_DAY = -719528, 2932896
CYC, CEN, QUAD, YEAR, OFF = 146097, 36524, 1461, 365, 11017
MSTART = [0, 31, 61, 92, 122, 153, 184, 214, 245, 275, 306, 337]     # March-based month starts
MLEN = [31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31]                  # all but the last (February)
I64 = (-(1 << 63), (1 << 63) - 1)
I32 = (-(1 << 31), (1 << 31) - 1)


class Missing(Exception):
    """An anchor could not be found in the code under analysis."""


# ---- environment -----------------------------------------------------------------------------------
class Env:
    """n leap-second table entries: entry i ends its segment on day E_i; jump j_i there."""

    def __init__(self, n):
        self.n = n
        self.E = [inp("E%d" % (i + 1), 1, 24855) for i in range(n)]
        self.r = [inp("r%d" % (i + 1), 0, 86399) for i in range(n)]
        self.j = [inp("j%d" % (i + 1), -1, 1) for i in range(n)]
        self.tot = [ZERO]
        for j in self.j:
            self.tot.append(self.tot[-1] + j)

    def assume(self, st):
        sts = [st]
        for i in range(self.n):
            c = le(self.E[i] * 86400 + self.r[i], C((1 << 31) - 1))
            if i:
                c = cand(c, ge(self.E[i], self.E[i - 1] + 1))
            sts = [y for x in sts for y in x.assume(c)]
        assert len(sts) == 1
        return sts[0]

    def parse(self, m, st, fn, path):
        rt = m.T[fn.locals[0]] if fn.locals else None
        es = tuple(Agg(None, (self.E[i] * 86400 + self.r[i], self.tot[i + 1])) for i in range(self.n))
        return Agg(0, (Agg(None, (Opq(("tz", path)), Agg(None, es))),))

    tm = None                    # fields gmtime_r writes, by name; None: seconds of 1970-01-01 00:00

    def gmtime(self, m, st, fn, a):
        for t, x in m.T.items():
            if x["k"] == "adt" and x["name"].endswith("::tm") and x["vs"] and any(f[0] == "tm_year" for f in x["vs"][0][2]):
                break
        else:
            raise Missing("struct tm")
        tm = dict(tm_mday=C(1), tm_year=C(70), tm_sec=inp("now.tm_sec", 0, 59)) if self.tm is None else dict(self.tm)
        st.load(a[0])
        st.store(a[1], Agg(None, tuple(tm.get(f[0], ZERO) for f in x["vs"][0][2])))
        return a[1]

    def leap(self, day):
        """[(condition, leap seconds inserted at the end of that day)] covering all days."""
        out = []
        none = True
        for i in range(self.n):
            c = eq(day, self.E[i] - 1)
            out.append((c, self.j[i]))
            none = cand(none, neg(c))
        out.append((none, ZERO))
        return out


# ---- anchors -----------------------------------------------------------------------------------------
class Code:
    """Finds the program points the properties talk about."""

    def __init__(self, dump):
        self.D = dump
        self.T = dump.T

    def ty(self, suffix):
        for t, x in self.T.items():
            if x["k"] == "adt" and x.get("local") and (x["name"] == suffix or x["name"].endswith("::" + suffix)):
                return t
        raise Missing("type " + suffix)

    def adt(self, path):
        for t, x in self.T.items():
            if x["k"] == "adt" and x.get("local") and x["path"] == path:
                return t
        raise Missing("type " + path)

    def fn(self, *names):
        for n in names:
            f = self.D.find(n)
            if f is not None:
                return f
        raise Missing("function " + names[0])

    def method(self, tname, meth):
        """Inherent or trait method `meth` of local type tname (unqualified)."""
        pat = re.compile(r"(?:\A|::|<)" + re.escape(tname) + r"(?: as [^>]*(?:<.*>)?)?>?::" + re.escape(meth) + r"\Z")
        c = [f for f in self.D.F.values() if f.local and pat.search(f.name)]
        if not c:
            raise Missing("%s::%s" % (tname, meth))
        return c[0]

    def sig(self, args, ret):
        """Local functions by argument types (as a multiset) and result type."""
        want = sorted(args)
        out = []
        for f in self.D.F.values():
            if f.local and f.bb is not None and f.kind == "item":
                if f.locals[0] == ret and sorted(f.locals[1:f.argc + 1]) == want:
                    out.append(f)
        return out

    def fields(self, t):
        return [x[0] for x in self.T[t]["vs"][0][2]]


GNDF = ("cycle", "century", "quadrennium", "year", "day")


class World:
    """Everything a date-time specification needs, for one table size."""

    def __init__(self, dump, n=2, **kw):
        N.reset()
        CONSTMEM.clear()
        self.D = dump
        self.code = Code(dump)
        self.n = n
        self.env = Env(n)
        self.models = Models(self.env)
        self.kw = kw
        self.m = Machine(dump, self.models, **kw)
        for f in dump.F.values():
            f.model = 0
        self.st0 = self.env.assume(State())
        self.chron = None
        self.sec = inp("second", 0, 86400)
        self.ns = inp("nanosecond", 0, 999999999)
        self.P = inp("precision", 0, 12)
        self.g = {k: inp(k, lo, hi) for k, lo, hi in (("cycle", -6, 19), ("century", 0, 3), ("quadrennium", 0, 24), ("year", 0, 3), ("day", 0, 365))}
        c = self.code
        self.tDT = c.ty("DateTime")
        self.tGND = c.ty("GregorianNormalizedDate")
        self.tPrec = c.ty("Precision")
        self.tChron = c.ty("Chronology")
        if sorted(c.fields(self.tGND)) != sorted(GNDF):
            raise Missing("fields of GregorianNormalizedDate")
        def val(a):
            try:
                v = self.gnd_vals(a)
            except AttributeError:
                return None
            if any(not isinstance(x, Lin) for x in v.values()):
                return None
            return self.daynum(v)
        self.m.valuations[self.tGND] = val
        self.m.landmarks = (MIN_DAY, MAX_DAY)
        u32 = dump.byname["u32"]
        f = dump.find("iso8601::date_time::DateTime::new")
        if f is None or sorted(f.locals[1:f.argc + 1]) != sorted([self.tChron, self.tPrec, self.tGND, u32, u32]):
            cand_ = c.sig([self.tChron, self.tPrec, self.tGND, u32, u32], self.tDT)
            if not cand_:
                raise Missing("DateTime::new")
            f = cand_[0]
        self.f_new = f
        self.f_unpack = None
        u64, u16 = dump.byname["u64"], dump.byname["u16"]
        f = dump.find("iso8601::date_time::DateTime::unpack")
        if f is None:
            want = {"Prec": self.tPrec, "G": self.tGND}
            for g in dump.F.values():
                if g.local and g.kind == "item" and g.bb is not None:
                    rt = self.T[g.locals[0]]
                    if rt["k"] == "tuple" and self.tPrec in rt["f"] and self.tGND in rt["f"] and rt["f"].count(u32) == 2 \
                            and sorted(g.locals[1:g.argc + 1]) == sorted([u64, u16]):
                        f = g
                        break
        if f is not None:
            self.f_unpack = f

    # -- dates
    def gnd(self, vals=None):
        v = vals or self.g
        return Agg(None, tuple(v[k] for k in self.code.fields(self.tGND)))

    def gnd_vals(self, a):
        return dict(zip(self.code.fields(self.tGND), a.f))

    @staticmethod
    def daynum(v):
        return v["cycle"] * CYC + v["century"] * CEN + v["quadrennium"] * QUAD + v["year"] * YEAR + v["day"] + OFF

    @staticmethod
    def yearnum(v):
        return v["cycle"] * 400 + v["century"] * 100 + v["quadrennium"] * 4 + v["year"] + 2000

    @staticmethod
    def canon(v):
        """The fields are the normal form of an existing date."""
        r = call_(ge(v["century"], ZERO), le(v["century"], C(3)), ge(v["quadrennium"], ZERO), le(v["quadrennium"], C(24)),
                  ge(v["year"], ZERO), le(v["year"], C(3)), ge(v["day"], ZERO), le(v["day"], C(365)))
        leap = cand(eq(v["year"], C(3)), cor(le(v["quadrennium"], C(23)), eq(v["century"], C(3))))
        return cand(r, cor(le(v["day"], C(364)), leap))

    def dateparts(self, v=None):
        v = v or self.g
        return [("common day", le(v["day"], C(364))),
                ("leap day", call_(eq(v["day"], C(365)), eq(v["year"], C(3)), le(v["quadrennium"], C(23)))),
                ("leap day of a cycle", call_(eq(v["day"], C(365)), eq(v["year"], C(3)), eq(v["quadrennium"], C(24)), eq(v["century"], C(3))))]

    def inrange(self, D):
        return cand(ge(D, C(MIN_DAY)), le(D, C(MAX_DAY)))

    def places(self, D):
        """Partition of days relative to the table: [(name, condition, leap seconds)]."""
        E = self.env.E
        out = [("before epoch", lt(D, ZERO), ZERO)]
        prev = ZERO
        for i in range(self.n):
            out.append(("inside segment %d" % (i + 1), cand(ge(D, prev), lt(D, E[i] - 1)), ZERO))
            out.append(("last day of segment %d" % (i + 1), eq(D, E[i] - 1), self.env.j[i]))
            prev = E[i]
        out.append(("after table", ge(D, prev), ZERO))
        return out

    # -- running
    def one(self, fn, args, st, what, many=False):
        o = [x for x in self.m.run(fn, args, st)]
        r = [x for x in o if x.kind == "ret"]
        if not r or (len(o) != 1 and not many) or len(r) != len(o):
            raise Inconclusive("%s: %s" % (what, [(x.kind, x.info) for x in o][:4]))
        return r[0]

    def chronology(self, st, zone="UTC"):
        key = -fresh()
        CONSTMEM[key] = Opq(("str", zone))
        f = self.code.fn("iso8601::chronology::load_chronology", "iso8601::load_chronology")
        arg = Ptr(key, (), (ZERO, C(len(zone))))
        r = self.one(f, [arg], st, "load_chronology", True)     # one per place the table is read from
        r.st.ev = ()
        return r.val, r.st

    def args_by_type(self, f, vals):
        """Order (type, value) pairs by the parameter types of f; equal types keep their order."""
        vals = list(vals)
        out = []
        for t in f.locals[1:f.argc + 1]:
            for i, (vt, v) in enumerate(vals):
                if vt == t:
                    out.append(v)
                    del vals[i]
                    break
            else:
                raise Missing("argument of " + f.name)
        return out

    def new_dt(self, st, chron, prec, gnd=None, sec=None, ns=None):
        u32 = self.D.byname["u32"]
        a = self.args_by_type(self.f_new, [(self.tChron, chron), (self.tPrec, prec), (self.tGND, gnd or self.gnd()),
                                           (u32, self.sec if sec is None else sec), (u32, self.ns if ns is None else ns)])
        return self.m.run(self.f_new, a, st)

    def read_dt(self, st, dt):
        """[(state, precision, gnd, second, nanosecond, chronology)]"""
        fl = dict(zip(self.code.fields(self.tDT), dt.f))
        f = self.f_unpack
        fields = self.T[self.tDT]["vs"][0][2]
        if f is None:
            raise Missing("DateTime::unpack")
        vals = [(t, fl[nm]) for nm, t, _ in fields if nm != "chronology"]
        a = self.args_by_type(f, vals)
        out = []
        for o in self.m.run(f, a, st):
            if o.kind == "ret":
                tt = self.T[f.locals[0]]["f"]
                d = {}
                nums = []
                for t, v in zip(tt, o.val.f):
                    if t == self.tPrec:
                        d["p"] = v
                    elif t == self.tGND:
                        d["g"] = self.gnd_vals(v)
                    else:
                        nums.append(v)
                out.append((o.st, d["p"], d["g"], nums[0], nums[1], fl.get("chronology")))
            else:
                raise Inconclusive("reading back a date-time: %s %s" % (o.kind, o.info))
        return out

    @property
    def T(self):
        return self.D.T

    def precision(self, i):
        return Agg(i, ())


class Inconclusive(Exception):
    pass


# ---- obligations ------------------------------------------------------------------------------------------
LIVE = []                # results of the job being run, so that what was found is kept when the job is cut short
KNOWN = set()            # (rule, function) of known findings
GRACE = 20               # seconds a job goes on after its first violation


class OutOfTime(Exception):
    pass


class Result:
    def __init__(self):
        LIVE.append(self)
        self.obl = {}            # label -> [proved, refuted, open]
        self.viol = []           # dicts
        self.open = []
        self.fns = {}
        self.paths = 0
        self.notes = []
        self.samples = []

    def count(self, label, k):
        c = self.obl.setdefault(label, [0, 0, 0])
        c[k] += 1
        return k == 0

    def merge(self, o):
        for k, v in o.obl.items():
            c = self.obl.setdefault(k, [0, 0, 0])
            for i in range(3):
                c[i] += v[i]
        self.viol += o.viol
        self.open += o.open
        for k, v in o.fns.items():
            self.fns[k] = self.fns.get(k, 0) + v
        self.paths += o.paths
        self.notes += o.notes
        self.samples += o.samples[:1]

    def totals(self):
        return [sum(v[i] for v in self.obl.values()) for i in range(3)]


def fmt_point(val):
    r = {}
    for a, v in sorted(val.items()):
        if KIND[a] == "in":
            r[NAME[a]] = v
    return r


class Ctx:
    """Obligation collector for one entry function."""

    def __init__(self, res, entry, w=None, budget=300):
        self.res = res
        self.entry = entry            # function id / name the obligation is about
        self.budget = budget
        self.w = w

    def viol(self, label, msg, st, val, site=None, chain=None):
        f = self.entry
        self.res.count(label, 1)
        if self.w is not None and (label, (site or (f.name,))[0]) not in KNOWN:
            self.w.m.deadline = min(self.w.m.deadline or 9e18, time.time() + GRACE)
        self.res.viol.append({"rule": label, "entry": f.name, "file": (site or (None, f.file, 0))[1],
                              "function": (site or (f.name, None, 0))[0], "line": (site or (None, None, f.line))[2],
                              "message": msg, "abstract_state": {"inputs": val}, "call_chain": chain or [f.name]})

    def in_time(self):
        if self.w is not None and self.w.m.deadline and time.time() > self.w.m.deadline:
            raise OutOfTime("time is up")

    def prove(self, st, cond, label, msg, site=None):
        """cond must hold in every concrete state described by st."""
        self.in_time()
        q = st.quick(cond)
        if q is True or not st.may(neg(cond)):
            self.res.count(label, 0)
            return True
        return self._refute(st, neg(cond), label, msg, site)

    def _refute(self, st, c, label, msg, site=None, chain=None):
        val = st.witness(c, self.budget)
        if val is False:
            self.res.count(label, 0)
            return True
        if val is None or any(KIND[a] == "havoc" for a in val):
            self.res.count(label, 2)
            self.res.open.append({"rule": label, "entry": self.entry.name, "why": "not decided: " + msg})
            return False
        self.viol(label, msg, st, fmt_point(val), site, chain)
        return False

    def impossible(self, o, label, msg):
        """The outcome o (a panic, a wrong variant) must not be reachable."""
        self.in_time()
        return self._refute_reach(o, label, msg)

    def _refute_reach(self, o, label, msg):
        st = o.st
        if st.feasible([], full=True) is False:
            self.res.count(label, 0)
            return True
        return self._refute(st, True, label, msg, o.site)

    def other(self, o, label):
        """Unsupported / limit outcomes leave the obligation open (unless unreachable)."""
        if o.st.feasible([], full=True) is False:
            self.res.count(label, 0)
            return
        self.res.count(label, 2)
        self.res.open.append({"rule": label, "entry": self.entry.name, "why": "%s: %s at %s" % (o.kind, o.info, o.site[:2] if o.site else "")})

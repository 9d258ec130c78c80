"""Panicking and checked variants agree: D12."""
from num import *
from interp import *
import spec
from spec import *
from . import REG, Prop, TABLE
from .gnd import finish, split
from .dt import Setup, parts, option
from .builder import Build, UNITS, civil_atoms, BITS

LAB = "D12 variants agree"
OPS = {"add_years": (-32768, 32767), "add_months": I32, "add_days": I32, "add_hours": I32, "add_minutes": I64, "add_seconds": I64}


class Differs(Exception):
    pass


def delegate(w, res, name, pan, chk, mkargs, msg, variants):
    """The panicking variant hands its arguments to the checked one, returns its value and panics exactly
    when it fails.  variants: list of (success?, result value).  True when that is the case on all paths."""
    oks, keep = [], chk.model
    for good, val in variants:
        st, args = mkargs()
        calls = []

        def m_chk(m, s, fn, a):
            if len(a) != len(args):
                raise Unsupported("arguments of the checked variant")
            for x, y in zip(a, args):
                same = x == y
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    same = s.load(x) == s.load(y)
                if not same and isinstance(x, Lin) and isinstance(y, Lin):
                    same = s.entails(eq(x, y))
                if not same:
                    raise Unsupported("arguments of the checked variant")
            calls.append(1)
            return ("ret", val)
        chk.model = m_chk
        try:
            os_ = w.m.run(pan, args, st)
        finally:
            chk.model = keep
        if not os_ or not calls:
            return False
        for o in os_:
            if good and not (o.kind == "ret" and o.val == val.f[0]):
                return False
            if not good and o.kind != "panic":
                return False
    return True


def equal_dt(w, cx, st, a, b, msg):
    """Both date-times have the same components and chronology."""
    for s, p, g, sec, ns, ch in w.read_dt(st, a):
        for s2, p2, g2, sec2, ns2, ch2 in w.read_dt(s, b):
            pl = [x.l if isinstance(x, SymEnum) else C(x.v) for x in (p, p2)]
            cx.prove(s2, call_(eq(pl[0], pl[1]), eq(sec, sec2), eq(ns, ns2), *[eq(g[k], g2[k]) for k in GNDF]), LAB, msg)
            same = ch == ch2
            if not same:
                same = s2.load(Ptr(ch.f[0].key)) == s2.load(Ptr(ch2.f[0].key))
            cx.prove(s2, same, LAB, msg)


def product(w, cx, pan, chk, st, args, cmp_, good, nm):
    """Every pair of paths of the two variants on the same input."""
    for o in w.m.run(chk, args, st):
        if o.kind == "panic":
            continue                                    # D04's business
        if o.kind != "ret":
            cx.other(o, LAB)
            continue
        ok = o.val.v == good
        for o2 in w.m.run(pan, args, o.st):
            if o2.kind == "panic":
                if ok:
                    cx.impossible(o2, LAB, "%s panics where %s succeeds" % (pan.name, chk.name))
                else:
                    cx.res.count(LAB, 0)
            elif o2.kind != "ret":
                cx.other(o2, LAB)
            elif not ok:
                cx.impossible(o2, LAB, "%s returns where %s fails" % (pan.name, chk.name))
            else:
                cmp_(o2.st, o.val.f[0], o2.val, "%s and %s return different results" % (pan.name, chk.name))


def job_pair(D, op, part, force=False):
    S = Setup(D, 1, part)
    w = S.w
    tn = "DateTimeWithCarry" if op == "apply_carry" else "DateTime"
    pan, chk = w.code.method(tn, op), w.code.method(tn, "checked_" + op)
    cx = Ctx(S.res, pan, w)
    opq = Opq(("result of", chk.name))
    for st, p in S.states:
        if op == "apply_carry":
            p = Ptr(st.alloc(carrying(w, st, st.load(p), inp("carry days", 0, 1), inp("carry seconds", 0, 2))))
            args = [p]
        else:
            args = [p, inp("amount", *OPS[op])]
        if not force and delegate(w, S.res, op, pan, chk, lambda: (st.copy(), args), "", [(True, Agg(1, (opq,))), (False, Agg(0, ()))]):
            S.res.count(LAB, 0)
            S.res.notes.append("%s hands over to %s" % (pan.name, chk.name))
            continue

        def cmp_(s, a, b, msg):
            if op in ("add_seconds", "apply_carry"):
                equal_dt(w, cx, s, a, b, msg)
            else:
                s, v, d1, s1 = S.split_carry(s, a)
                s, v2, d2, s2 = S.split_carry(s, b)
                cx.prove(s, cand(eq(d1, d2), eq(s1, s2)), LAB, msg)
                equal_dt(w, cx, s, v, v2, msg)
        product(w, cx, pan, chk, st, args, cmp_, 1, op)
    return S.done()


def carrying(w, st, dt, days, secs):
    tW = w.code.ty("DateTimeWithCarry")
    fs = w.T[tW]["vs"][0][2]
    tC = [t for _, t, _ in fs if t != w.tDT]
    if len(fs) != 2 or len(tC) != 1:
        raise Missing("fields of DateTimeWithCarry")
    names = [x[0] for x in w.T[tC[0]]["vs"][0][2]]
    if sorted(names) != ["days", "seconds"]:
        raise Missing("fields of Carry")
    cv = Agg(None, tuple({"days": days, "seconds": secs}[k] for k in names))
    return Agg(None, tuple(dt if t == w.tDT else cv for _, t, _ in fs))


def job_unwrap(D, part):
    """unwrap and has_carry on any carry whatsoever."""
    S = Setup(D, 1, part)
    w = S.w
    fn = w.code.method("DateTimeWithCarry", "unwrap")
    fh = w.code.method("DateTimeWithCarry", "has_carry")
    cx, ch = Ctx(S.res, fn, w), Ctx(S.res, fh, w)
    d, s = inp("carried days", 0, (1 << 32) - 1), inp("carried seconds", 0, (1 << 64) - 1)
    zero = cand(eq(d, ZERO), eq(s, ZERO))
    for st, p in S.states:
        dt = st.load(p)
        W = carrying(w, st, dt, d, s)
        for o in w.m.run(fn, [W], st.copy()):
            if o.kind == "ret":
                cx.prove(o.st, zero, "D12 unwrap", "unwrap drops a carry")
                if o.val == dt:
                    S.res.count("D12 unwrap", 0)
                else:
                    equal_dt(w, cx, o.st, o.val, dt, "unwrap changes the date-time")
            elif o.kind == "panic":
                cx.prove(o.st, neg(zero), "D12 unwrap", "unwrap panics although there is no carry")
            else:
                cx.other(o, "D12 unwrap")
        for o in w.m.run(fh, [Ptr(st.alloc(W))], st.copy()):
            if o.kind != "ret":
                cx.other(o, "D12 unwrap")
                continue
            for b in (True, False):
                c = o.val if b else neg(o.val)
                for x in (o.st.copy().assume_lp(c) if c not in (True, False) else ([o.st] if c else [])):
                    ch.prove(x, neg(zero) if b else zero, "D12 unwrap", "has_carry does not say whether there is a carry")
    return S.done()


def job_build_pair(D, k, m=3):
    B = Build(D, 1)
    w = B.w
    pan, chk = w.code.method("DateTimeBuilder", "build"), w.code.method("DateTimeBuilder", "checked_build")
    cx = Ctx(B.res, pan, w)
    opq = Opq(("result of", chk.name))
    g = civil_atoms(w)
    V = {u: inp("set " + u, 0, (1 << BITS.get(u, 8)) - 1) for u in UNITS[:k + 1]}
    mi = (m - 3) % 12
    V["year"] = w.yearnum(g) + (1 if mi >= 10 else 0)
    for s0 in split([B.st.copy()], ge(V["year"], ZERO), le(V["year"], C(65535))):
        st, b = B.set(s0, B.b, "chronology", B.ch)
        for u in UNITS[:k + 1]:
            st, b = B.set(st, b, u, C(m) if u == "month" else V[u])
        p = Ptr(st.alloc(b))
        et = w.T[w.T[chk.locals[0]]["args"][1]]
        vs = [(True, Agg(0, (opq,)))] + [(False, Agg(1, (Agg(i, ()),))) for i in range(len(et["vs"]))]
        if delegate(w, B.res, "build", pan, chk, lambda: (st.copy(), [p]), "", vs):
            B.res.count(LAB, 0)
            B.res.notes.append("%s hands over to %s" % (pan.name, chk.name))
            continue
        product(w, cx, pan, chk, st, [p], lambda s, a, b2, msg: equal_dt(w, cx, s, a, b2, msg), 0, "build")
    return B.done()


def jobs_d12(D, tier):
    js = []
    for part in (parts(1) if tier != "quick" else parts(1)):
        for op in list(OPS) + ["apply_carry"]:
            js.append(("%s %s" % (op, part), job_pair, (op, part)))
        js.append(("unwrap %s" % (part,), job_unwrap, (part,)))
    for k in range(9):
        for m in range(1, 13):
            if k == 0 and m > 1:
                continue
            js.append(("build to %s month %d" % (UNITS[k], m), job_build_pair, (k, m)))
    return js


REG["D12"] = Prop(jobs_d12, "Each panicking variant either hands its arguments to the checked one and returns its success value / panics on its failure, or every feasible pair of paths of the two agrees; unwrap returns exactly for a zero carry", assumptions=TABLE)

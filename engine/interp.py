"""Abstract interpreter over monomorphised MIR (forward, path-partitioned, no code is executed)."""
import re
import sys, time
from num import *
import num as N
import flt


class Agg:
    """Struct/tuple/array (v is None) or enum variant v with field values."""
    __slots__ = ("v", "f")

    def __init__(self, v, f):
        self.v = v
        self.f = f

    def __repr__(self):
        return "%s%r" % ("" if self.v is None else "v%d" % self.v, self.f)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash((self.v, self.f))


class SymEnum:
    """Fieldless enum value with unknown variant index."""
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l

    def __repr__(self):
        return "enum(%r)" % (self.l,)

    def __eq__(self, o):
        return isinstance(o, SymEnum) and self.l == o.l

    def __hash__(self):
        return hash(self.l)


class Ptr:
    __slots__ = ("key", "path", "sl")

    def __init__(self, key, path=(), sl=None):
        self.key = key
        self.path = path
        self.sl = sl

    def __repr__(self):
        return "&%s%s%s" % (self.key, "".join(".%s" % (x,) for x in self.path), "" if self.sl is None else "[%r;%r]" % self.sl)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.key == o.key and self.path == o.path and self.sl == o.sl

    def __hash__(self):
        return hash((self.key, self.path))


class FnV:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return "fn(%s)" % (self.ty,)

    def __eq__(self, o):
        return isinstance(o, FnV) and self.ty == o.ty

    def __hash__(self):
        return hash(self.ty)


class Opq:
    """Opaque library value, compared by content token."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<%s>" % (self.n,)

    def __eq__(self, o):
        return isinstance(o, Opq) and self.n == o.n

    def __hash__(self):
        return hash(self.n)


class SymArr:
    """Array of unknown length; element i is the token (name, i)."""
    __slots__ = ("n", "len")

    def __init__(self, n, ln):
        self.n = n
        self.len = ln

    def __repr__(self):
        return "arr(%s)" % self.n


class Iter:
    """Slice iterator: pointer to the container, start, end (concrete or Lin), flavour."""
    __slots__ = ("p", "a", "b", "kind")

    def __init__(self, p, a, b, kind="ref"):
        self.p = p; self.a = a; self.b = b; self.kind = kind

    def __repr__(self):
        return "iter(%r,%r..%r)" % (self.p, self.a, self.b)


UNIT = Agg(None, ())


class Unsupported(Exception):
    pass


class Panic(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class Unreachable(Exception):
    pass


_uid = [1]


UNINIT = Opq(("uninitialised memory",))


def fresh():
    _uid[0] += 1
    return _uid[0]


CONSTMEM = {}


class State(Num):
    __slots__ = ("mem", "stack", "fn", "uid", "bb", "si", "tr", "vis", "steps", "dest", "tgt", "ev", "filters", "bf", "held", "cut")

    def __init__(self):
        Num.__init__(self)
        self.mem = {}
        self.stack = None       # linked: (frame, parent)
        self.fn = None
        self.uid = 0
        self.bb = 0
        self.si = 0
        self.tr = None          # linked trace of (fn, line, note)
        self.vis = {}
        self.steps = 0
        self.ev = ()            # effect events
        self.bf = {}            # value -> (constant part, ((low bit, width, field value), ...))
        self.held = frozenset() # locks held (kept only while another thread is considered)
        self.cut = False        # another thread has come in between
        self.filters = ()       # exact path disjunctions of merged calls (only used to confirm witnesses)

    def copy(self):
        o = State.__new__(State)
        self.ncopy(o)
        o.mem = dict(self.mem)
        o.stack = self.stack
        o.fn = self.fn
        o.uid = self.uid
        o.bb = self.bb
        o.si = self.si
        o.tr = self.tr
        o.vis = dict(self.vis)
        o.steps = self.steps
        o.ev = self.ev
        o.filters = self.filters
        o.held = self.held
        o.cut = self.cut
        o.bf = dict(self.bf)
        return o

    # ---- truth and splitting --------------------------------------------------------------------
    def truth(self, c):
        q = self.quick(c)
        if q is None:
            if c[0] in ("and", "or"):
                # split on an undecided part first
                for x in (c[1], c[2]):
                    if self.quick(x) is None:
                        self.truth(x)
            raise Split(c)
        return q

    def assume(self, c):
        """Adds c; returns the list of resulting states (self consumed)."""
        if c is True:
            return [self]
        if c is False:
            return []
        k = c[0]
        if k == "ge":
            self.known[c] = True
            self.known[("ge", -c[1] - 1)] = False
            return [self] if self.assume_ge(c[1]) else []
        if k == "eq":
            self.known[c] = True
            self.known[("ne", c[1])] = False
            return [self] if self.assume_eq(c[1]) else []
        if k == "ne":
            self.known[c] = True
            self.known[("eq", c[1])] = False
            L = c[1]
            lo, hi = self.rng(L)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return [self]
            out = []
            if hi is None or hi > 0:
                s = self.copy() if (lo is None or lo < 0) else self
                if s.assume_ge(L - 1):
                    out.append(s)
            if lo is None or lo < 0:
                if self.assume_ge(-L - 1):
                    out.append(self)
            return out
        if k == "and":
            return [y for x in self.assume(c[1]) for y in x.assume(c[2])]
        a = self.copy()
        out = a.assume(c[1])
        nb = neg(c[1])
        for x in self.assume(nb):
            out += x.assume(c[2])
        return out

    def assume_lp(self, c):
        """assume, then drop the states whose constraints are (rationally) infeasible."""
        out = []
        at = set()
        catoms(c, at)
        for s in self.assume(c):
            if s.cons or any(KIND[a] != "in" for a in at):
                if s.feasible([], seed=at) is False:
                    continue
            out.append(s)
        return out

    # ---- memory ---------------------------------------------------------------------------------
    def alloc(self, v):
        k = -fresh()
        self.mem[k] = v
        return k

    def getmem(self, key):
        v = self.mem.get(key, self)
        if v is self:
            v = CONSTMEM.get(key)
        return v

    def load(self, p):
        v = self.getmem(p.key)
        for e in p.path:
            v = self.field(v, e)
        return v

    def field(self, v, e):
        if isinstance(v, Agg):
            if isinstance(e, Lin):
                if e.t:
                    n = len(v.f)
                    for i in range(n):
                        if i == n - 1 and self.quick(eq(e, C(i))) is not False and self.quick(ge(e, C(i))) is True:
                            pass
                        if self.truth(eq(e, C(i))):
                            return v.f[i]
                    raise Unreachable()
                e = e.c
            if e < len(v.f):
                return v.f[e]
            return None
        if isinstance(v, SymArr):
            return Opq(("elem", v.n, e if isinstance(e, Lin) else C(e)))
        if v is None:
            return None
        if isinstance(v, Opq):
            return Opq(("field", v.n, e))
        if isinstance(v, (Ptr, Iter)):
            return v           # transparent wrappers (NonNull, Unique, Box, Arc)
        if isinstance(v, SymEnum):
            return None
        if isinstance(v, Lin):
            return v           # newtype wrapper transparency
        raise Unsupported("field of %r" % (v,))

    def store(self, p, val):
        if p.path:
            self.mem[p.key] = self.upd(self.getmem(p.key), p.path, val)
        else:
            self.mem[p.key] = val

    def upd(self, v, path, val):
        if not path:
            return val
        e = path[0]
        if v is None:
            v = UNIT
        if isinstance(v, (Ptr, Lin)) and e == 0:
            return val
        if not isinstance(v, Agg):
            raise Unsupported("store into %r" % (v,))
        if isinstance(e, Lin):
            if e.t:
                for i in range(len(v.f)):
                    if self.truth(eq(e, C(i))):
                        e = i
                        break
                else:
                    raise Unreachable()
            else:
                e = e.c
        f = v.f
        if e >= len(f):
            f = f + (None,) * (e + 1 - len(f))
        n = self.upd(f[e], path[1:], val)
        return Agg(v.v, f[:e] + (n,) + f[e + 1:])


class Outcome:
    __slots__ = ("kind", "st", "val", "info", "site")

    def __init__(self, kind, st, val=None, info=None, site=None):
        self.kind = kind; self.st = st; self.val = val; self.info = info; self.site = site

    def __repr__(self):
        return "Outcome(%s, %r, %r)" % (self.kind, self.val, self.info)


class ModelFrame:
    __slots__ = ("resume", "data", "fn", "saved")

    def __init__(self, resume, data, fn, saved):
        self.resume = resume; self.data = data; self.fn = fn; self.saved = saved


# where what other threads do can be noticed
SHARED = re.compile(r"std::sync::(?:\w+::)*(?:(?:Mutex|RwLock)::<T>::(?:lock|read|write)|OnceLock::<T>::(?:get|set|get_or_init)"
                    r"|(?:LazyLock::<T, F>::force|atomic::Atomic::<\w+>::(?:load|store|swap|fetch_\w+|compare_\w+)))\Z"
                    r"|<std::sync::(?:\w+::)*LazyLock<T, F> as std::ops::Deref>::deref\Z")


class Machine:
    def __init__(self, dump, models, max_steps=6000, max_paths=60000, loop_limit=40, deadline=None):
        self.D = dump
        self.T = dump.T
        self.F = dump.F
        self.models = models
        self.tables = {}
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.loop_limit = loop_limit
        self.deadline = deadline
        self.cc = {}
        self.statics = {}
        self.sfl = {}
        self.has_statics = any(f.kind == "static" for f in dump.F.values())
        self.stats = {"steps": 0, "splits": 0, "paths": 0}
        self.fnseen = {}
        self.tyint = {}
        self.valuations = {}
        self.landmarks = ()
        self.between = None     # state -> states in which another thread has come in between
        self.missed = []        # what that thread did could not be determined
        self.mcache = {}

    # ---- types ------------------------------------------------------------------------------------
    def int_range(self, t):
        r = self.tyint.get(t)
        if r is None:
            x = self.T[t]
            if x["k"] == "int":
                r = (-(1 << (x["b"] - 1)), (1 << (x["b"] - 1)) - 1, x["b"]) if x["s"] else (0, (1 << x["b"]) - 1, x["b"])
            elif x["k"] == "char":
                r = (0, 0x10FFFF, 32)
            elif x["k"] == "bool":
                r = (0, 1, 1)
            elif x["k"] in ("ptr", "ref"):
                r = (0, (1 << 64) - 1, 64)
            else:
                r = ()
            self.tyint[t] = r
        return r

    # ---- constants -----------------------------------------------------------------------------------
    def const(self, k):
        v = self.cc.get(id(k))
        if v is None:
            t = k["t"]
            v = self.cval(k["v"], t)
            self.cc[id(k)] = v
        return v

    def cval(self, v, t):
        x = self.T[t]
        if x["k"] == "fndef":
            return FnV(t)
        if "int" in v:
            n = int(v["int"])
            if x["k"] == "bool":
                return n != 0
            if x["k"] == "float":
                if x["b"] not in (32, 64):
                    raise Unsupported("float of %d bits" % x["b"])
                return flt.Flt(("c", n), x["b"])
            return C(n)
        if "uninit" in v:
            return UNINIT
        if "zst" in v:
            if x["k"] in ("fndef",):
                return FnV(t)
            return UNIT
        if "agg" in v:
            var, fs = v["agg"]
            tys = None
            if x["k"] == "adt":
                fl = x["vs"][var or 0][2] if x["vs"] else []
                tys = [y[1] for y in fl]
            elif x["k"] == "tuple":
                tys = x["f"]
            elif x["k"] == "array":
                tys = [x["e"]] * len(fs)
            elif x["k"] == "closure":
                tys = x["f"]
            if tys is None or len(tys) < len(fs):
                raise Unsupported("const agg of " + x["name"])
            r = Agg(var, tuple(self.cval(y, ty) for y, ty in zip(fs, tys)))
            if len(fs) == 1 and self.D.wrapper(t):
                return r.f[0]
            if x["k"] == "adt" and x["path"].startswith(("core::", "std::", "alloc::")):
                # locks and cells hold their content as the only field
                n = x["path"].rsplit("::", 1)[1]
                if n in ("RefCell", "Mutex", "RwLock"):
                    i = [y[0] for y in fl].index("data" if n != "RefCell" else "value")
                    return Agg(None, (r.f[i].f[0],))
                if n in ("Cell", "OnceCell", "Atomic"):
                    return Agg(None, (r.f[0].f[0],))
                if n in ("OnceLock", "LazyLock", "LazyCell"):
                    raise Unsupported("constant " + x["path"])
            return r
        if "ref" in v:
            e = x["e"]
            key = -fresh()
            if v.get("slice"):
                et = self.T[e]["e"]
                items = tuple(self.cval(y, et) for y in v["ref"]["agg"][1])
                CONSTMEM[key] = Agg(None, items)
                return Ptr(key, (), (C(0), C(len(items))))
            CONSTMEM[key] = self.cval(v["ref"], e)
            return Ptr(key)
        if "str" in v:
            key = -fresh()
            CONSTMEM[key] = Opq(("str", v["str"]))
            return Ptr(key, (), (C(0), C(len(v["str"]))))
        if "fn" in v:
            return FnV(("inst", v["fn"]))
        if "static" in v:
            return self.static(v)
        return Opq(("const", x["name"], str(v)))

    def static(self, v):
        """Pointer to a static; one that can change lives in the state once it was written to."""
        p = self.statics.get(v["static"])
        if p is not None:
            return p
        key = -fresh()
        if "val" in v:
            CONSTMEM[key] = self.cval(v["val"], v["ty"])
        elif "init" in v:
            f = self.F[v["init"]]
            if f.bb is None:
                raise Unsupported("static " + v["static"])
            o = self.run(f, [], State())
            if len(o) != 1 or o[0].kind != "ret" or o[0].st.ev:
                raise Unsupported("initial value of " + v["static"])
            for k, x in o[0].st.mem.items():
                CONSTMEM[k] = x
            CONSTMEM[key] = o[0].val
        else:
            return Opq(("const", "static", v["static"]))
        p = Ptr(key)
        self.statics[v["static"]] = p
        return p

    def stateful(self, fn):
        """Whether fn can reach a static that can change."""
        r = self.sfl.get(fn.id)
        if r is None:
            if not self.has_statics:
                return False
            seen, todo = {fn.id}, [fn.id]
            r = False
            while todo and not r:
                f = self.F[todo.pop()]
                xs = [b for b in f.bb or ()]
                while xs:
                    x = xs.pop()
                    if isinstance(x, dict):
                        if "init" in x and "static" in x:
                            r = True
                            break
                        if "t" in x and "v" in x and isinstance(x["t"], int):
                            i = self.T[x["t"]].get("inst")
                            if i is not None and i not in seen:
                                seen.add(i)
                                todo.append(i)
                        i = x.get("fn")
                        if isinstance(i, int) and i not in seen:
                            seen.add(i)
                            todo.append(i)
                        xs += x.values()
                    elif isinstance(x, list):
                        if len(x) > 2 and x[0] == "agg" and x[1] == "closure" and isinstance(x[2], int) and x[2] not in seen:
                            seen.add(x[2])
                            todo.append(x[2])
                        xs += x
            self.sfl[fn.id] = r
        return r

    # ---- places -----------------------------------------------------------------------------------------
    def resolve(self, st, p):
        """Place -> Ptr."""
        key = st.uid * 4096 + p[0]
        if not p[1]:
            return Ptr(key)
        path = ()
        sl = None
        for e in p[1]:
            k = e[0]
            if k == "d":
                v = st.load(Ptr(key, path))
                if not isinstance(v, Ptr):
                    raise Unsupported("deref of %r in %s" % (v, st.fn.name))
                key, path, sl = v.key, v.path, v.sl
            elif k == "f":
                path = path + (e[1],)
                sl = None
            elif k == "i":
                i = st.mem[st.uid * 4096 + e[1]]
                path, sl = self.index(st, path, sl, i), None
            elif k == "ci":
                off = C(e[1])
                if e[3]:
                    n = sl[1] if sl else C(len(st.load(Ptr(key, path)).f))
                    off = n - e[1]
                path, sl = self.index(st, path, sl, off), None
            elif k == "ss":
                base = sl if sl else (C(0), C(len(st.load(Ptr(key, path)).f)))
                a = base[0] + e[1]
                n = base[1] - e[1] - e[2] if e[3] else C(e[2] - e[1])
                sl = (a, n)
            elif k == "dc":
                pass
            else:
                raise Unsupported("projection " + k)
        return Ptr(key, path, sl)

    def index(self, st, path, sl, i):
        if sl is not None:
            i = i + sl[0]
        return path + (i.c if not i.t else i,)

    def operand(self, st, o):
        p = o.get("c") or o.get("m")
        if p is not None:
            if not p[1]:
                return st.mem.get(st.uid * 4096 + p[0])
            return st.load(self.resolve(st, p))
        k = o.get("k")
        if k is not None:
            return self.const(k)
        return o["rt"] == "OverflowChecks"

    # ---- integers -----------------------------------------------------------------------------------------
    def simp(self, st, L):
        """Replace atoms with a single possible value."""
        for a, k in L.t:
            lo, hi = st.ab(a)
            if lo is not None and lo == hi:
                c = L.c
                t = []
                for a, k in L.t:
                    lo, hi = st.ab(a)
                    if lo is not None and lo == hi:
                        c += k * lo
                    else:
                        t.append((a, k))
                return Lin(c, tuple(t))
        return L

    def div(self, st, P, k):
        """floor(P/k), constant k > 0"""
        if k == 1:
            return P
        h = k // 2
        best = None
        for sym in (False, True):
            q = []
            r = []
            for a, c in P.t:
                x, y = divmod(c, k)
                if sym and y > h:
                    x += 1
                    y -= k
                if x:
                    q.append((a, x))
                if y:
                    r.append((a, y))
            R = Lin(P.c, tuple(r))
            l, u = st.rng(R)
            if l is not None and u is not None and l // k == u // k:
                return Lin(l // k, tuple(q))
            if l is not None and u is not None and (best is None or u - l < best[0]):
                best = (u - l, R, tuple(q))
        if best is not None and best[2]:
            return self.div(st, best[1], k) + Lin(0, best[2])
        L = div_atom(P, k)
        for a, c in L.t:
            if KIND[a] == "div":
                lo, hi = st.ab(a)
                if lo is not None and lo == hi:
                    L = Lin(L.c + c * lo, tuple(x for x in L.t if x[0] != a))
        return L

    def wrap(self, st, L, t):
        lo, hi, b = self.int_range(t)
        l, h = st.rng(L)
        if l is not None and h is not None and l >= lo and h <= hi:
            return L
        F = st.bf.get(L)
        if F is not None:
            n = self.top(F)
            if n <= b - (1 if lo < 0 else 0):
                return L
            if lo == 0:
                return self.setf(st, self.extract(st, F, 0, b))
        if L.t and self.fits(st, L, lo, hi):
            return L
        return L - self.div(st, L - lo, 1 << b) * (1 << b)

    def fits(self, st, L, lo, hi):
        """Linear-inequality check that L stays within lo..hi (intervals were too coarse)."""
        if not st.cons and all(KIND[a] == "in" for a, _ in L.t):
            return False
        l, h = st.rng(L)
        return (l is not None and l >= lo or st.feasible([("ge", C(lo - 1) - L)]) is False) and \
            (h is not None and h <= hi or st.feasible([("ge", L - (hi + 1))]) is False)

    def tdiv(self, st, a, b):
        """Truncating division; b non-zero is established."""
        if not b.t:
            k = b.c
            if k < 0:
                return -self.tdiv(st, a, C(-k))
            if k == 1:
                return a
            if st.truth(ge(a, ZERO)):
                return self.div(st, a, k)
            return self.div(st, a + (k - 1), k)
        lo, hi = st.rng(b)
        if lo is not None and lo == hi:
            return self.tdiv(st, a, C(lo))
        pos = st.truth(ge(b, C(1)))
        if not pos:
            b = -b
        if st.truth(ge(a, ZERO)):
            q = self.sdiv(st, a, b)
        else:
            q = -self.sdiv(st, -a, b)
        return q if pos else -q

    def sdiv(self, st, a, b):
        if not a.t and a.c == 0:
            return ZERO
        la, ha = st.rng(a)
        lb, hb = st.rng(b)
        if la is not None and la >= 0 and lb is not None and ha is not None and ha < lb:
            return ZERO
        L = divs_atom(a, b)
        return L

    def bits(self, st, L):
        """Mask of possibly set bits of a value known to be >= 0 (None if unknown)."""
        lo, hi = st.rng(L)
        if lo is None or hi is None or lo < 0:
            return None
        c, gs = st.groups(L)
        mask = 0
        ok = c >= 0
        if ok and c:
            mask = c
        if ok:
            for k, l, h in gs:
                if k < 0 or l is None or h is None or l < 0:
                    ok = False
                    break
                s = (k & -k).bit_length() - 1
                odd = k >> s
                m = ((1 << (h * odd).bit_length()) - 1) << s
                if m & mask:
                    ok = False
                    break
                mask |= m
        full = (1 << hi.bit_length()) - 1
        if ok:
            return mask & full
        g = L.c
        for a, k in L.t:
            g |= k
        tz = (g & -g).bit_length() - 1 if g else 0
        return full & ~((1 << tz) - 1)

    def bitand(self, st, a, b, t):
        if not a.t and not b.t:
            return C(a.c & b.c)
        if not a.t:
            a, b = b, a
        if not b.t:
            m = b.c
            if m == 0:
                return ZERO
            if m == -1:
                return a
            if m < 0:
                return a - self.bitand(st, a, C(~m), t)
            F = self.fields(st, a, t)
            if F is None and m & (m + 1) == 0:
                k = m.bit_length()
                if self.fits(st, a, 0, m):
                    return self.setf(st, (0, ((0, k, a),)))
                return self.setf(st, (0, ((0, k, a - self.div(st, a, 1 << k) * (1 << k)),)))
            if F is not None:
                c, fs, x = F[0] & m, [], 0
                while m >> x:
                    if not (m >> x) & 1:
                        x += 1
                        continue
                    e = x
                    while (m >> e) & 1:
                        e += 1
                    fs += self.extract(st, (0, F[1]), x, e)[1]
                    x = e
                return self.setf(st, (c, tuple(fs)))
            bs = self.bits(st, a)
            if bs is not None:
                if bs & ~m == 0:
                    return a
                if bs & m == 0:
                    return ZERO
            r = ZERO
            s = 0
            while m >> s:
                if not (m >> s) & 1:
                    s += 1
                    continue
                e = s
                while (m >> e) & 1:
                    e += 1
                d = self.div(st, a, 1 << s)
                d = d - self.div(st, a, 1 << e) * (1 << (e - s))
                r = r + d * (1 << s)
                s = e
            return r
        x, y = self.bits(st, a), self.bits(st, b)
        if x is not None and y is not None:
            if x & y == 0:
                return ZERO
            return fn_atom("and", (a, b), 0, x & y)
        lo, hi, _ = self.int_range(t)
        return fn_atom("and", (a, b), lo, hi)

    def bitor(self, st, a, b, t, xor=False):
        if not a.t and not b.t:
            return C(a.c ^ b.c if xor else a.c | b.c)
        if not a.t:
            a, b = b, a
        F, G = self.fields(st, a, t), self.fields(st, b, t)
        if F is not None and G is not None and self.fmask(F) & self.fmask(G) == 0:
            return self.setf(st, (F[0] + G[0], F[1] + G[1]))
        x, y = self.bits(st, a), self.bits(st, b)
        if x is not None and y is not None and x & y == 0:
            return a + b
        if a == b:
            return ZERO if xor else a
        if not b.t:
            return a + b - self.bitand(st, a, b, t) * (2 if xor else 1)
        if x is not None and y is not None:
            return fn_atom("xor" if xor else "or", (a, b), 0, x | y)
        lo, hi, _ = self.int_range(t)
        return fn_atom("xor" if xor else "or", (a, b), lo, hi)

    def as_int(self, st, v):
        if isinstance(v, Lin):
            return v
        if v is True:
            return C(1)
        if v is False:
            return C(0)
        if isinstance(v, tuple):
            return C(1) if st.truth(v) else C(0)
        if isinstance(v, SymEnum):
            return v.l
        if isinstance(v, Agg) and len(v.f) == 1:
            return self.as_int(st, v.f[0])
        raise Unsupported("integer expected, got %r in %s" % (v, st.fn.name if st.fn else "?"))

    def binop(self, st, op, a, b, t):
        x = self.T[t]
        if x["k"] == "bool":
            if op == "BitAnd":
                return cand(a, b)
            if op == "BitOr":
                return cor(a, b)
            if op in ("BitXor", "Ne"):
                if a is False:
                    return b
                if b is False:
                    return a
                if a is True:
                    return neg(b)
                if b is True:
                    return neg(a)
                return st.truth(a) != st.truth(b)
            if op == "Eq":
                if a is True:
                    return b
                if b is True:
                    return a
                if a is False:
                    return neg(b)
                if b is False:
                    return neg(a)
                if type(a) not in (tuple, bool) or type(b) not in (tuple, bool):
                    raise Unsupported("comparison of %r and %r as bool" % (a, b))
                return st.truth(a) == st.truth(b)
            a, b = self.as_int(st, a), self.as_int(st, b)
        if isinstance(a, (Ptr, Opq, Iter)) or isinstance(b, (Ptr, Opq, Iter)):
            if op in ("Eq", "Ne") and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.key == b.key and a.path != b.path and a.path and b.path and a.path[:-1] == b.path[:-1] and (isinstance(a.path[-1], Lin) or isinstance(b.path[-1], Lin)):
                    return (eq if op == "Eq" else ne)(ZERO + a.path[-1], ZERO + b.path[-1])
                same = a.key == b.key and a.path == b.path
                return same if op == "Eq" else not same
            if op in ("Eq", "Ne") and (isinstance(a, Ptr) and b == ZERO or isinstance(b, Ptr) and a == ZERO):
                return op == "Ne"          # a pointer to a variable is not null
            if op == "Offset" and isinstance(a, Ptr) and isinstance(b, Lin):
                if b == ZERO:
                    return a
                e = a.path[-1] if a.path and a.sl is None else None
                if e is None or not isinstance(st.load(Ptr(a.key, a.path[:-1])), Agg):
                    raise Unsupported("pointer arithmetic in " + st.fn.name)
                e = b + e
                return Ptr(a.key, a.path[:-1] + (e.c if not e.t else e,))
            if op == "Offset":
                raise Unsupported("pointer arithmetic in " + st.fn.name)
            raise Unsupported("binop %s on %r" % (op, a))
        if isinstance(a, flt.Flt) and isinstance(b, flt.Flt):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return flt.compare(st, op, a, b)
            if op in ("Add", "Sub", "Mul", "Div", "Rem"):
                return flt.op(self, st, op.lower(), a, b)
            raise Unsupported("float binop " + op)
        if isinstance(a, Agg) and isinstance(b, Agg) and op in ("Eq", "Ne") and not a.f and not b.f and a.v is None:
            return op == "Eq"
        a, b = self.as_int(st, a), self.as_int(st, b)
        a, b = self.simpf(st, a), self.simpf(st, b)
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return gt(a, b)
        if op == "Ge":
            return ge(a, b)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return ne(a, b)
        if op == "Cmp":
            if st.truth(lt(a, b)):
                return Agg(0, ())
            return Agg(1, ()) if st.truth(eq(a, b)) else Agg(2, ())
        lo, hi, w = self.int_range(t)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = a + b if op[0] == "A" else a - b if op[0] == "S" else mul(a, b)
            return Agg(None, self.checked(st, r, t))
        if op in ("Add", "Sub", "Mul"):
            r = a + b if op == "Add" else a - b if op == "Sub" else mul(a, b)
            return self.wrap(st, r, t)
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return a + b if op[0] == "A" else a - b if op[0] == "S" else mul(a, b)
        if op == "Div":
            return self.tdiv(st, a, b)
        if op == "Rem":
            return a - mul(b, self.tdiv(st, a, b))
        if op == "BitAnd":
            return self.bitand(st, a, b, t)
        if op == "BitOr":
            return self.bitor(st, a, b, t)
        if op == "BitXor":
            return self.bitor(st, a, b, t, True)
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            if b.t:
                l, h = st.rng(b)
                if l is None or h - l > 130:
                    l, h = 0, w - 1
                for i in range(l, h + 1):
                    if st.truth(eq(b, C(i))):
                        b = C(i)
                        break
                else:
                    raise Unsupported("shift amount")
            k = b.c % w
            F = self.fields(st, a, t)
            if F is not None:
                if op[2] == "l":
                    F = self.extract(st, F, 0, w - k - (1 if lo < 0 else 0)) if lo == 0 or self.top(F) + k < w else None
                    if F is not None:
                        return self.setf(st, (F[0] << k, tuple((l + k, n, v) for l, n, v in F[1])))
                else:
                    F = self.extract(st, F, k, max(self.top(F), k))
                    return self.setf(st, (F[0] >> k, tuple((l - k, n, v) for l, n, v in F[1])))
            if op[2] == "l":
                return self.wrap(st, a * (1 << k), t)
            return self.div(st, a, 1 << k)
        raise Unsupported("binop " + op)

    # ---- bit fields -----------------------------------------------------------------------------------
    # A non-negative value assembled from disjoint bit fields remembers them, so that masks and shifts
    # select whole fields.
    def simpf(self, st, L):
        r = self.simp(st, L)
        if r is not L and L in st.bf:
            c, fs = st.bf[L]
            out = []
            for lo, n, v in fs:
                v = self.simp(st, v)
                if v.t:
                    out.append((lo, n, v))
                else:
                    c += v.c << lo
            st.bf[r] = (c, tuple(out))
        return r

    def fields(self, st, L, t=None):
        if not L.t:
            return (L.c, ()) if L.c >= 0 else None
        F = st.bf.get(L)
        if F is not None:
            return F
        lo, hi = st.rng(L)
        if t is not None:
            # a value of an unsigned type never leaves the type's range
            l2, h2, _ = self.int_range(t)
            if l2 == 0:
                lo = 0 if lo is None or lo < 0 else lo
                hi = h2 if hi is None or hi > h2 else hi
        if lo is None or hi is None or lo < 0:
            return None
        g = L.c
        for _, k in L.t:
            g |= k
        z = (g & -g).bit_length() - 1
        return (0, ((z, max(1, (hi >> z).bit_length()), Lin(L.c >> z, tuple((a, k >> z) for a, k in L.t)) if z else L),))

    @staticmethod
    def top(F):
        return max([F[0].bit_length()] + [l + n for l, n, _ in F[1]])

    def extract(self, st, F, s, e):
        """The bits s <= i < e of F, in place."""
        if e <= s:
            return (0, ())
        out = []
        for l, n, v in F[1]:
            if l >= s and l + n <= e:
                out.append((l, n, v))
            elif l + n > s and l < e:
                a, b = max(0, s - l), min(n, e - l)
                if a and self.fits(st, v, 0, (1 << a) - 1):
                    continue
                if b < n and self.fits(st, v, 0, (1 << b) - 1):
                    if not a:
                        out.append((l, b, v))
                    else:
                        out.append((l + a, b - a, self.div(st, v, 1 << a)))
                    continue
                x = self.div(st, v, 1 << a) if a else v
                if b < n:
                    x = x - self.div(st, v, 1 << b) * (1 << (b - a))
                if x.t:
                    out.append((l + a, b - a, x))
                elif x.c:
                    out.append((l + a, b - a, x))
        return (F[0] & ((1 << e) - (1 << s)), tuple(out))

    def pieces(self, st, v, t, w, n):
        """The n groups of w bits of a value of type t, lowest first, as unsigned numbers."""
        F = self.fields(st, v, t)
        out = []
        for i in range(n):
            if F is not None:
                c, fs = self.extract(st, F, i * w, (i + 1) * w)
                z = self.setf(st, (c >> (i * w), tuple((l - i * w, k, x) for l, k, x in fs)))
            else:
                z = self.div(st, v, 1 << (i * w)) - self.div(st, v, 1 << ((i + 1) * w)) * (1 << w)
            out.append(z)
        return out

    def setf(self, st, F):
        c, fs = F
        L = C(c)
        out = []
        for l, n, v in fs:
            L = L + v * (1 << l)
            if v.t:
                out.append((l, n, v))
            else:
                c += v.c << l
        if L.t:
            st.bf[L] = (c, tuple(out))
        return L

    @staticmethod
    def fmask(F):
        m = F[0]
        for l, n, _ in F[1]:
            m |= ((1 << n) - 1) << l
        return m

    def checked(self, st, r, t):
        """(wrapped value, overflowed) with the overflow decided."""
        lo, hi, w = self.int_range(t)
        r = self.simp(st, r)
        l, h = st.rng(r)
        if l is not None and h is not None and l >= lo and h <= hi:
            return (r, False)
        if st.truth(ge(r, C(lo))) and st.truth(le(r, C(hi))):
            return (r, False)
        return (self.wrap(st, r, t), True)

    def cast(self, st, kind, v, to, frm):
        if kind == "IntToInt":
            v = self.as_int(st, v)
            if self.T[to]["k"] == "bool":
                return ne(v, ZERO)
            return self.wrap(st, v, to)
        if kind == "IntToFloat":
            return flt.Flt(("i", self.simp(st, self.as_int(st, v))), self.T[to]["b"])
        if kind == "FloatToInt" and isinstance(v, flt.Flt):
            lo, hi, _ = self.int_range(to)
            return flt.to_int(self, st, v, lo, hi)
        if kind == "FloatToFloat" and isinstance(v, flt.Flt):
            w = self.T[to]["b"]
            if w == v.w:
                return v
            if v.e[0] == "c":
                return flt.const(flt.fev(v.e, v.w), w)
            if flt.exact(st, v.e, v.w) is not None:
                return flt.Flt(v.e, w)
            return flt.Flt(("w", v.w, v.e), w) if w > v.w else flt.Flt(("f2f", ("w", v.w, v.e)), w)
        if "ClosureFnPointer" in kind:
            return FnV(frm)
        if kind == "BoxDerefTransmute":
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr") or kind.startswith("PointerCoercion"):
            if "Unsize" in kind and isinstance(v, Ptr) and v.sl is None:
                t2, f2 = self.pointee(to), self.pointee(frm)
                if t2 is not None and f2 is not None and self.T[t2]["k"] == "dyn" and self.T[f2]["k"] != "dyn":
                    return Ptr(v.key, v.path, ("dyn", f2))
            if kind == "PtrToPtr" and isinstance(v, Ptr):
                t2, f2 = self.pointee(to), self.pointee(frm)
                if t2 is not None and f2 is not None:
                    t2, f2 = self.D.peel(t2), self.D.peel(f2)
                    y = self.T[f2]
                    if y["k"] in ("slice", "array") and self.D.peel(y["e"]) == t2 and self.T[t2]["k"] not in ("slice", "array"):
                        i = v.sl[0] if v.sl is not None else ZERO
                        return Ptr(v.key, v.path + (i.c if not i.t else i,))
            if "Unsize" in kind and isinstance(v, Ptr):
                tt, ff = self.T[to], self.T[frm]
                if "e" in tt and self.T[tt["e"]]["k"] == "slice" and "e" in ff and self.T[ff["e"]]["k"] == "array":
                    n = self.T[ff["e"]]["n"]
                    return Ptr(v.key, v.path, (C(0), C(n)))
            return v
        if kind == "Transmute":
            tt, ff = self.T[to], self.T[frm]
            if tt["k"] == "int" and ff["k"] == "int":
                return self.wrap(st, v, to)
            if ff["k"] == "float" and tt["k"] == "int" and isinstance(v, flt.Flt):
                if v.e[0] == "ofbits":
                    return v.e[1]
                return self.wrap(st, fn_atom("fbits", (v.e, v.w), 0, (1 << v.w) - 1), to)
            if tt["k"] == "float" and isinstance(v, Lin) and tt["b"] in (32, 64):
                return flt.Flt(("c", v.c % (1 << tt["b"])) if v.const() else ("ofbits", v - self.div(st, v, 1 << tt["b"]) * (1 << tt["b"])), tt["b"])
            if tt["k"] == "int" and isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Lin):
                return self.wrap(st, v.f[0], to)
            if tt["k"] == "adt" and tt["ak"] == "struct" and isinstance(v, Lin):
                return Agg(None, (v,))
            if tt["k"] == "bool" and isinstance(v, Lin):
                return ne(v, ZERO)
            if isinstance(v, (Ptr, Opq, Iter)):
                return v
            t2, f2 = self.D.peel(to), self.D.peel(frm)
            if t2 == f2:
                return v
            tt, ff = self.T[t2], self.T[f2]
            if tt["k"] == "array" and ff["k"] == "array" and tt["n"] == ff["n"]:
                x, y = self.D.peel(tt["e"]), self.D.peel(ff["e"])
                if x == y:
                    return v
                if isinstance(v, Agg) and self.T[x]["k"] == "int" and self.T[y]["k"] == "int":
                    return Agg(None, tuple(self.wrap(st, z, x) for z in v.f))
            if tt["k"] == "array" and isinstance(v, Lin) and self.T[self.D.peel(tt["e"])]["k"] == "int":
                e = self.D.peel(tt["e"])
                w = self.int_range(e)[2]
                n = tt["n"]
                if isinstance(v, Lin) and st.rng(v)[0] is not None and n * w <= 128:
                    out = [self.wrap(st, z, e) for z in self.pieces(st, v, f2, w, n)]
                    return Agg(None, tuple(out))
            if ff["k"] == "array" and tt["k"] == "int" and isinstance(v, Agg):
                e = self.D.peel(ff["e"])
                lo, hi, w = self.int_range(e)
                if len(v.f) * w == self.int_range(t2)[2] and all(isinstance(z, Lin) for z in v.f):
                    r = ZERO
                    fs = []
                    for i, z in enumerate(v.f):
                        if lo < 0:
                            z = z - self.div(st, z, 1 << w) * (1 << w)
                        r = r + z * (1 << (i * w))
                        fs.append((i * w, w, z))
                    return self.wrap(st, self.setf(st, (0, tuple(fs))), t2) if self.int_range(t2)[0] == 0 else self.wrap(st, r, t2)
            if tt["k"] == "adt" and tt["ak"] == "enum" and isinstance(v, Lin) and all(not x[2] for x in tt["vs"]):
                for i, x in enumerate(tt["vs"]):
                    if st.truth(eq(v, C(int(x[1])))):
                        return Agg(i, ())
                raise Unreachable()
            raise Unsupported("transmute %s -> %s of %r" % (ff["name"], tt["name"], v))
        raise Unsupported("cast " + kind)

    def pointee(self, t):
        x = self.T[t]
        if x["k"] in ("ref", "ptr"):
            return x["e"]
        if x["k"] == "adt" and x["args"] and x["path"].split("::")[0] in ("std", "core", "alloc") and x["path"].rsplit("::", 1)[1] in (
                "Box", "NonNull", "Arc", "Rc"):
            return x["args"][0]
        return None

    def discr(self, st, v, t):
        x = self.T[t]
        if isinstance(v, Agg) and v.v is not None:
            return C(int(x["vs"][v.v][1])) if x["k"] == "adt" else C(v.v)
        if isinstance(v, SymEnum):
            if all(int(y[1]) == i for i, y in enumerate(x["vs"])):
                return v.l
            for i, y in enumerate(x["vs"]):
                if st.truth(eq(v.l, C(i))):
                    return C(int(y[1]))
            raise Unreachable()
        if isinstance(v, Agg):
            return ZERO
        raise Unsupported("discriminant of %r : %s" % (v, x["name"]))

    def rvalue(self, st, r):
        k = r[0]
        if k == "tls":
            return self.static(r[1])
        if k == "use":
            return self.operand(st, r[1])
        if k == "bin":
            a, b = self.operand(st, r[2]), self.operand(st, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, r[2]), r[3], r[4])
        if k in ("ref", "rawptr"):
            return self.resolve(st, r[1])
        if k == "agg":
            fs = tuple(self.operand(st, o) for o in r[3])
            if r[1] == "rawptr":
                p, m = fs
                if isinstance(m, Lin):
                    return Ptr(p.key, p.path[:-1], (C(p.path[-1]) if isinstance(p.path[-1], int) else p.path[-1], m)) if p.path and p.sl is None else Ptr(p.key, p.path, ((p.sl[0] if p.sl else C(0)), m))
                return p
            if r[1] == "union":
                return Agg(None, fs)
            return Agg(r[2] if r[1] == "adt" else None, fs)
        if k == "discr":
            p = r[1]
            return self.discr(st, st.load(self.resolve(st, p)), self.D.place_ty(st.fn, p))
        if k == "un":
            v = self.operand(st, r[2])
            if r[1] == "Not":
                if self.T[r[3]]["k"] == "bool":
                    return neg(v)
                lo, hi, w = self.int_range(r[3])
                v = self.as_int(st, v)
                return C(-1) - v if lo < 0 else C(hi) - v
            if r[1] == "Neg" and isinstance(v, flt.Flt):
                return flt.op(self, st, "neg", v)
            if r[1] == "Neg":
                return self.wrap(st, -self.as_int(st, v), r[3])
            if r[1] == "PtrMetadata":
                if isinstance(v, Ptr):
                    if v.sl is not None:
                        return v.sl[1]
                    return UNIT
            raise Unsupported("unop " + r[1])
        if k == "repeat":
            if r[2] < 0 or r[2] > 4096:
                raise Unsupported("repeat")
            return Agg(None, (self.operand(st, r[1]),) * r[2])
        raise Unsupported("rvalue " + k)

    # ---- running ------------------------------------------------------------------------------------------
    def run(self, fn, args, st, sink=None):
        """Abstractly run fn on args from state st; returns the list of outcomes."""
        if isinstance(fn, int):
            fn = self.F[fn]
        base = st.stack
        st = st.copy()
        st.stack = ("stop", None)
        st.fn = None
        out = []
        work = []
        pend = [st]
        while pend:
            s = pend.pop()
            snap = s.stack
            try:
                self.invoke(s, fn, list(args), None, None, work, out, None, False)
            except Split as e:
                s.stack, s.fn = snap, None
                a = s.copy()
                pend += a.assume_lp(e.cond) + s.assume_lp(neg(e.cond))
            except Panic as e:
                out.append(Outcome("panic", s, info=(e.kind, e.msg), site=self.site(s)))
            except Unsupported as e:
                out.append(Outcome("unsup", s, info=str(e), site=self.site(s)))
            except Unreachable:
                pass
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline:
                out.append(Outcome("limit", s, info="time", site=self.site(s)))
                for s in work:
                    out.append(Outcome("limit", s, info="time", site=self.site(s)))
                break
            self.step_until_fork(s, work, out)
            if len(out) > self.max_paths:
                out.append(Outcome("limit", s, info="paths", site=self.site(s)))
                break
        for o in out:
            o.st.stack = base
        self.stats["paths"] += len(out)
        return out

    def site(self, st):
        if st.fn is None:
            return ("?", "?", 0)
        ln = 0
        # innermost local frame with a line
        f, bb = st.fn, st.bb
        stack = st.stack
        while True:
            if f is not None and f.local and f.bb is not None:
                try:
                    ln = f.bb[bb]["t"][-1]
                except Exception:
                    ln = f.line
                return (f.name, f.file, ln)
            if stack is None or stack[0] == "stop":
                return (st.fn.name, st.fn.file or st.fn.crate, 0)
            fr, stack = stack
            if isinstance(fr, ModelFrame):
                f, uid, bb = fr.saved[:3]
            else:
                f, uid, bb = fr[:3]

    def chain(self, st):
        out = [st.fn.name] if st.fn else []
        stack = st.stack
        while stack is not None and stack[0] != "stop":
            fr, stack = stack
            f = fr.saved[0] if isinstance(fr, ModelFrame) else fr[0]
            if f is not None:
                out.append(f.name)
        return out[::-1]

    def push(self, st, fn, args):
        """Enter fn (body available)."""
        self.fnseen[fn.id] = self.fnseen.get(fn.id, 0) + 1
        if not fn.plain:
            self.D.unwrap(fn)
        uid = fresh()
        st.fn = fn
        st.uid = uid
        st.bb = 0
        st.si = 0
        n = 0
        s = st.stack
        while s is not None and s[0] != "stop":
            n += 1
            s = s[1]
        if n > 60:
            raise Unsupported("call depth")
        for i, a in enumerate(args):
            st.mem[uid * 4096 + 1 + i] = a

    def invoke(self, st, fn, args, dest, tgt, work, out, optys, merge=True):
        """Call fn from the current position. dest: Ptr in caller, tgt: block to continue at."""
        if True:
            saved = (st.fn, st.uid, st.bb, dest, tgt)
            if fn.kind == "virtual" and args and isinstance(args[0], Ptr) and args[0].sl is not None and args[0].sl[0] == "dyn" and fn.d.get("intrait", "").startswith("std::ops::Fn"):
                fn, args = self.dyncall(st, args[0], args[1].f)
                optys = None
            model = self.models.lookup(self, fn)
            if model is not None:
                self.fnseen[fn.id] = self.fnseen.get(fn.id, 0) + 1
                if self.between is not None and not st.held and not st.cut and st.fn is not None and SHARED.search(fn.vpath):
                    # (this call is run again from the states in which another thread came first)
                    work += self.between(st)
                act = model(self, st, fn, args)
                if act is not None:
                    self.do(st, act, saved, fn, work, out)
                    return
            if tgt is None and st.fn is not None:
                raise Panic("panic", fn.vpath)
            if fn.kind == "ctor" and fn.bb is None:
                self.ret_to(st, saved, Agg(fn.d.get("ctor"), tuple(args)), work, out)
                return
            if fn.bb is None:
                raise Unsupported("no model for " + fn.name)
            if optys is not None and args:
                last = fn.locals[fn.argc]
                if ("{closure" in fn.vpath or fn.kind in ("closureonce", "fnptrshim") or fn.argc != len(args)) and fn.spread is None:
                    if optys[-1] != last and isinstance(args[-1], Agg) and self.T.get(optys[-1], {}).get("k") == "tuple":
                        if len(args) - 1 + len(args[-1].f) == fn.argc:
                            args = args[:-1] + list(args[-1].f)
            if len(args) != fn.argc:
                raise Unsupported("arity of " + fn.name)
            if merge and self.has_statics and self.stateful(fn):
                merge = False
            if fn.argc == 1 and merge:
                v = self.table_call(st, fn, args[0])
                if v is not None:
                    self.ret_to(st, saved, v, work, out)
                    return
            if merge and self.valuations and self.mergeable(fn):
                self.merged_call(st, fn, args, saved, work, out)
                return
            st.stack = (saved, st.stack)
            self.push(st, fn, args)
            work.append(st)

    # ---- merging of the outcomes of small predicates -------------------------------------------------
    # A call of a function over "valued" types (a linear number is attached to the type, e.g. the day
    # number of a date) with a bool / ordering result is analysed on its own; outcomes with the same
    # result and the same signs of the values' differences are merged into one abstract state, which
    # keeps exactly these signs.  Over-approximation only: the exact disjunction of paths is kept
    # aside as a filter for witnesses.
    def mergeable(self, fn):
        r = self.mcache.get(fn.id)
        if r is None:
            r = False
            if fn.bb is not None and fn.argc and self.small(fn.locals[0]):
                for t in fn.locals[1:fn.argc + 1]:
                    x = self.T[t]
                    while x["k"] == "ref":
                        x = self.T[x["e"]]
                    if x["id"] in self.valuations:
                        r = True
            self.mcache[fn.id] = r
        return r

    def small(self, t):
        x = self.T[t]
        if x["k"] == "bool":
            return True
        if x["k"] == "adt" and x["ak"] == "enum":
            if all(not v[2] for v in x["vs"]):
                return True
            return x["path"].endswith("option::Option") and x["args"] and self.small(x["args"][0]) and self.T[x["args"][0]]["k"] != "bool"
        return False

    def merged_call(self, st, fn, args, saved, work, out):
        vals = []
        for t, a in zip(fn.locals[1:fn.argc + 1], args):
            x = self.T[t]
            while x["k"] == "ref":
                a = st.load(a)
                x = self.T[x["e"]]
            v = self.valuations.get(x["id"])
            if v is not None:
                L = v(a)
                if L is not None:
                    vals.append(L)
        tmpl = []
        for i, L in enumerate(vals):
            for M in vals[i + 1:]:
                tmpl += [lt(L, M), eq(L, M), gt(L, M)]
            for k in self.landmarks:
                tmpl += [lt(L, C(k)), gt(L, C(k))]
        tmpl = [c for c in tmpl if c is not True and c is not False]
        groups = {}
        base = st.entails_all(tmpl)
        for o in self.run(fn, args, st):
            if o.kind != "ret":
                out.append(o)
                continue
            s2 = o.st
            v = o.val
            if isinstance(v, tuple):
                # a symbolic truth value: leave it alone
                groups[("cond", id(o))] = [o]
                continue
            same = s2.ev == st.ev and all(s2.mem.get(k) is x or s2.mem.get(k) == x for k, x in st.mem.items())
            if not same:
                groups[("mem", id(o))] = [o]
                continue
            key = (v if isinstance(v, bool) else repr(v), s2.entails_all(tmpl, base))
            groups.setdefault(key, []).append(o)
        for key, os_ in groups.items():
            if len(os_) == 1:
                s2, v = os_[0].st, os_[0].val
                s2.stack = st.stack
                s2.fn, s2.uid, s2.bb, s2.si = st.fn, st.uid, st.bb, st.si
                self.ret_to(s2, saved, v, work, out)
                continue
            s2 = self.join(st, [o.st for o in os_])
            ok = [s2]
            for c, t in zip(tmpl, key[1]):
                if t:
                    ok = [y for x in ok for y in x.assume(c)]
            for s3 in ok:
                if s3.feasible([], full=True) is False:
                    continue
                self.ret_to(s3, saved, os_[0].val, work, out)

    # ---- finite-domain summaries -----------------------------------------------------------------------
    # A function from a small integer range / fieldless enum to an integer / fieldless enum is tabulated
    # (each entry by abstract interpretation on the constant); when the table is affine over the range
    # the argument can take, the result is that affine expression and no case split is needed.
    def fieldless(self, t):
        x = self.T[t]
        return x["k"] == "adt" and x["ak"] == "enum" and len(x["vs"]) > 1 and all(not v[2] for v in x["vs"])

    def table_call(self, st, fn, arg):
        tin, tout = fn.locals[1], fn.locals[0]
        if isinstance(arg, SymEnum):
            L = arg.l
            if not self.fieldless(tin):
                return None
        elif isinstance(arg, Lin) and self.T[tin]["k"] == "int":
            L = arg
        else:
            return None
        if not L.t or not fn.local or fn.bb is None or not (self.fieldless(tout) or self.T[tout]["k"] == "int"):
            return None
        lo, hi = st.rng(L)
        if lo is None or hi is None or hi - lo > 40 or hi == lo:
            return None
        vals = []
        for i in range(lo, hi + 1):
            v = self.tables.get((fn.id, i), self)
            if v is self:
                v = None
                o = self.run(fn, [Agg(i, ()) if isinstance(arg, SymEnum) else C(i)], State())
                if len(o) == 1 and o[0].kind == "ret" and not o[0].st.ev:
                    r = o[0].val
                    if isinstance(r, Lin) and not r.t:
                        v = r.c
                    elif isinstance(r, Agg) and r.v is not None and not r.f:
                        v = r.v
                self.tables[(fn.id, i)] = v
            if v is None:
                return None
            vals.append(v)
        d = vals[1] - vals[0]
        if any(b - a != d for a, b in zip(vals, vals[1:])):
            return None
        r = L * d + (vals[0] - d * lo)
        return SymEnum(r) if self.fieldless(tout) else r

    def join(self, base, sts):
        s = base.copy()
        com = None
        for x in sts:
            ks = set(x.b)
            com = ks if com is None else com & ks
        for a in com or ():
            lo = hi = 0
            for x in sts:
                l, h = x.b[a]
                if lo is not None:
                    lo = None if l is None else l if x is sts[0] else min(lo, l)
                if hi is not None:
                    hi = None if h is None else h if x is sts[0] else max(hi, h)
            s.setb(a, lo, hi)
        f = False
        for x in sts:
            p = True
            for c, v in x.known.items():
                if c not in base.known:
                    p = cand(p, c if v else neg(c))
            for g in x.filters[len(base.filters):]:
                p = cand(p, g)
            f = cor(f, p)
        s.filters = base.filters + (f,)
        s.steps = max(x.steps for x in sts)
        return s

    def do(self, st, act, saved, fn, work, out):
        k = act[0]
        if k == "ret":
            self.ret_to(st, saved, act[1], work, out)
        elif k == "call":
            # ("call", fn, args, resume, data)
            st.stack = (ModelFrame(act[3], act[4], fn, saved), st.stack)
            f2 = act[1]
            m2 = self.models.lookup(self, f2)
            if m2 is not None:
                saved2 = (st.fn, st.uid, st.bb, "model", None)
                act2 = m2(self, st, f2, list(act[2]))
                if act2 is not None:
                    self.do(st, act2, saved2, f2, work, out)
                    return
            if f2.bb is None:
                raise Unsupported("no body for " + f2.name)
            args = list(act[2])
            if len(args) != f2.argc:
                raise Unsupported("arity of " + f2.name)
            st.stack = ((st.fn, st.uid, st.bb, "model", None), st.stack)
            self.push(st, f2, args)
            work.append(st)
        elif k == "many":
            # [(state, action)]
            for s, a in act[1]:
                self.do(s, a, saved, fn, work, out)
        else:
            raise Unsupported("model action")

    def ret_to(self, st, saved, val, work, out):
        """Return val to the position described by saved = (fn, uid, bb, dest, tgt)."""
        while True:
            f, uid, bb, dest, tgt = saved
            st.fn, st.uid, st.bb = f, uid, bb
            if dest == "model":
                fr, st.stack = st.stack
                assert isinstance(fr, ModelFrame)
                act = fr.resume(self, st, fr.data, val)
                self.do(st, act, fr.saved, fr.fn, work, out)
                return
            if dest is None and tgt is None and (st.stack is None or st.stack[0] == "stop") and f is None:
                out.append(Outcome("ret", st, val))
                return
            if tgt is None:
                return          # diverging callee returned: unreachable
            st.store(dest, val)
            st.bb = tgt
            st.si = 0
            work.append(st)
            return

    def step_until_fork(self, st, work, out):
        while True:
            snap = (st.stack, st.fn, st.uid, st.bb)
            try:
                r = self.block(st, work, out)
            except Split as e:
                self.stats["splits"] += 1
                st.stack, st.fn, st.uid, st.bb = snap
                a = st.copy()
                res = a.assume_lp(e.cond) + st.assume_lp(neg(e.cond))
                if len(res) == 1:
                    st = res[0]
                    continue
                for s in res:
                    work.append(s)
                return
            except Panic as e:
                out.append(Outcome("panic", st, info=(e.kind, e.msg), site=self.site(st)))
                return
            except Unsupported as e:
                out.append(Outcome("unsup", st, info=str(e), site=self.site(st)))
                return
            except Unreachable:
                return
            if not r:
                return

    def block(self, st, work, out):
        """Execute from (bb, si) to the end of the block.  True: continue with st."""
        fn = st.fn
        b = fn.bb[st.bb]
        ss = b["s"]
        self.stats["steps"] += 1
        n = len(ss)
        while st.si < n:
            s = ss[st.si]
            if s[0] == "=":
                v = self.rvalue(st, s[2])
                p = s[1]
                if p[1]:
                    st.store(self.resolve(st, p), v)
                else:
                    st.mem[st.uid * 4096 + p[0]] = v
            elif s[0] == "sd":
                p = self.resolve(st, s[1])
                old = st.load(p)
                st.store(p, Agg(s[2], old.f if isinstance(old, Agg) else ()))
            elif s[0] == "copyno":
                raise Unsupported("copy_nonoverlapping")
            st.si += 1
        t = b["t"]
        k = t[0]
        if k == "goto":
            return self.jump(st, t[1], out)
        if k == "switch":
            v = self.operand(st, t[1])
            if isinstance(v, bool) or isinstance(v, tuple):
                r = st.truth(v)
                want = C(1 if r else 0)
                for val, bb in t[2]:
                    if int(val) == want.c:
                        return self.jump(st, bb, out)
                return self.jump(st, t[3], out)
            v = self.as_int(st, v)
            for val, bb in t[2]:
                if st.truth(eq(v, C(int(val)))):
                    return self.jump(st, bb, out)
            return self.jump(st, t[3], out)
        if k == "ret":
            v = st.mem.get(st.uid * 4096)
            if v is None:
                v = UNIT
            base = st.uid * 4096
            fr, st.stack = st.stack
            self.ret_to(st, fr, v, work, out)
            for i in range(len(fn.locals)):
                st.mem.pop(base + i, None)
            return False
        if k == "assert":
            c = self.operand(st, t[1])
            if t[2] is False:
                c = neg(c)
            if st.truth(c):
                return self.jump(st, t[4], out)
            raise Panic(t[3], "assertion")
        if k == "call":
            fv = self.operand(st, t[1])
            args = [self.operand(st, a) for a in t[2]]
            optys = [self.D.op_ty(fn, a) for a in t[2]]
            if isinstance(fv, FnV) and type(fv.ty) is not tuple and self.T[fv.ty]["k"] == "fndef":
                inst = self.T[fv.ty]["inst"]
                if inst is None:
                    raise Unsupported("unresolved callee " + self.T[fv.ty]["path"])
                f2 = self.F[inst]
            elif isinstance(fv, FnV):
                f2, args = self.fnptr(st, fv, args)
                optys = None
            else:
                raise Unsupported("indirect call in " + fn.name)
            dest = self.resolve(st, t[3])
            self.invoke(st, f2, args, dest, t[4], work, out, optys)
            return False
        if k == "drop":
            if st.held and "Guard<" in self.T[self.D.place_ty(fn, t[1])]["name"]:
                self.release(st, st.load(self.resolve(st, t[1])))
            return self.jump(st, t[2], out)
        if k == "unreachable":
            raise Unreachable()
        if k == "resume":
            raise Unreachable()
        raise Unsupported("terminator " + k)

    def release(self, st, v):
        """Unlock what the dropped guard(s) in v hold."""
        if isinstance(v, Ptr):
            st.held = st.held - {v}
        elif isinstance(v, Agg):
            for x in v.f:
                self.release(st, x)

    def other_thread(self, fn, argss, judge=None):
        """A value for `between`: fn has run in another thread, on one of argss, by the time the state goes on."""
        def f(st):
            self.between = None
            out = []
            try:
                for args in argss:
                    s = st.copy()
                    s.ev = ()
                    for o in self.run(fn, args, s):
                        if o.kind != "ret":
                            if o.kind != "panic":
                                self.missed.append(o)
                            continue
                        if judge is not None:
                            judge(args, Outcome("ret", o.st.copy(), val=o.val))
                        if all(x == st.mem.get(k) for k, x in o.st.mem.items() if k in CONSTMEM):
                            continue
                        s = o.st
                        for a in ("stack", "fn", "uid", "bb", "si", "dest", "tgt", "tr", "ev", "held"):
                            if hasattr(st, a):
                                setattr(s, a, getattr(st, a))
                        s.cut = True
                        out.append(s)
            finally:
                self.between = f
            return out
        return f

    def jump(self, st, bb, out):
        st.bb = bb
        st.si = 0
        st.steps += 1
        if st.steps > self.max_steps:
            out.append(Outcome("limit", st, info="steps", site=self.site(st)))
            return False
        if bb in self.D.loops(st.fn):
            key = (st.uid, bb)
            n = st.vis.get(key, 0) + 1
            if n > self.loop_limit:
                out.append(Outcome("limit", st, info="loop", site=self.site(st)))
                return False
            st.vis[key] = n
        return True

    def dyncall(self, st, p, args):
        """Function behind a trait object of one of the Fn traits, and its arguments."""
        x = self.T[p.sl[1]]
        q = Ptr(p.key, p.path)
        if x["k"] == "closure":
            f = self.F[x["inst"]]
            return f, [q if self.T[f.locals[1]]["k"] == "ref" else st.load(q)] + list(args)
        if x["k"] == "fndef" and x["inst"] is not None:
            return self.F[x["inst"]], list(args)
        if x["k"] == "fnptr":
            return self.fnptr(st, st.load(q), args)
        raise Unsupported("call of " + x["name"])

    def fnptr(self, st, fv, args):
        """Function behind a function pointer, and the arguments its body takes."""
        f = self.F[fv.ty[1] if type(fv.ty) is tuple else self.T[fv.ty]["inst"]]
        args = list(args)
        if f.argc is not None and f.bb is not None:
            if f.spread:
                args = [UNIT, Agg(None, tuple(args))]
            elif f.argc == len(args) + 1:
                me = UNIT
                if self.T[f.locals[1]]["k"] == "ref":
                    me = Ptr(st.alloc(UNIT))
                args = [me] + args
        return f, args

    # ---- helpers for models ---------------------------------------------------------------------------------
    def closure_call(self, st, fty, fval, args):
        """Callee and argument list for calling a closure / fn item of type fty with args."""
        x = self.T[fty]
        while x["k"] == "ref":
            fval = st.load(fval)
            x = self.T[x["e"]]
        if x["k"] == "closure":
            f = self.F[x["inst"]]
            if self.T[f.locals[1]]["k"] == "ref":
                if not isinstance(fval, Ptr) or True:
                    fval = Ptr(st.alloc(fval))
            return f, [fval] + list(args)
        if x["k"] == "fndef" and x["inst"] is not None:
            return self.F[x["inst"]], list(args)
        raise Unsupported("call of " + x["name"])

"""Effects, sharing and unsafe code, decided on the call graph and the type table: D13, T01, T02."""
import re
from num import *
from interp import *
import spec
from spec import *
from models import UNINIT
from . import REG, Prop, TABLE
from .gnd import finish
from .builder import Build, UNITS

CUT = re.compile(r"core::panicking::|std::rt::|core::fmt|std::fmt|<.* as (std|core)::fmt::|std::panicking|alloc::alloc::handle_alloc|std::(result|option)::(unwrap|expect)_failed|alloc::raw_vec|std::alloc::|core::str::|alloc::(string|str)")
EFFECT = re.compile(r"(\A|<)(std::env|std::fs|std::io|std::process|std::thread|std::net|std::os|std::path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize)|"
                    r"std::time::(SystemTime|Instant)::(now|elapsed)|std::sync::(Mutex|RwLock|Once|OnceLock|LazyLock|Condvar|mpsc|Barrier|atomic)|std::sync::(poison|nonpoison)|std::sync::once|"
                    r"libc|std::random|std::hash::random|std::sys)\b")
FINE = re.compile(r"std::intrinsics::|core::intrinsics::|std::ptr::drop|<std::alloc::Global as |<zoneinfo_compiled::\w+ as std::(cmp|clone)::|std::convert::num::|core::num::|std::num::|std::slice::|core::slice::|std::vec::|std::mem::|std::ptr::|core::ptr::|std::hint::|std::cmp::|core::cmp::|core::char")
LOADS = ("load_chronology", "build", "checked_build")


def consts(x):
    if isinstance(x, dict):
        if "t" in x and "v" in x:
            yield x
        else:
            for v in x.values():
                yield from consts(v)
    elif isinstance(x, list):
        for v in x:
            yield from consts(v)


class Graph:
    """Calls, functions mentioned and statics mentioned by every function (drop glue: all local Drop impls)."""

    def __init__(self, D):
        self.D = D
        self.e = {}
        self.drops = [f.id for f in D.F.values() if f.local and re.search(r" as std::ops::Drop>::drop\Z", f.name)]

    def edges(self, i):
        r = self.e.get(i)
        if r is None:
            f, D = self.D.F[i], self.D
            r = []
            for b in f.bb or ():
                for c in consts([b["s"], b["t"]]):
                    t = D.T[c["t"]]
                    if t["k"] in ("fndef", "closure"):
                        r.append((t.get("inst"), t["name"]))
                    if "staticptr" in c:
                        r.append(("static", c["staticptr"], c["t"]))
                if b["t"] and b["t"][0] == "drop":
                    r += [(d, "") for d in self.drops]
                if b["t"] and b["t"][0] in ("call", "tailcall") and "k" not in b["t"][1]:
                    r.append(("indirect", f.name))
                for s in b["s"]:
                    if "tls" in str(s[:3]):
                        r.append(("tls", f.name))
                    if s[0] == "=" and isinstance(s[2], list) and s[2][0] == "agg" and s[2][1] == "closure":
                        r.append((s[2][2] if isinstance(s[2][2], int) else None, "closure"))
            self.e[i] = r
        return r


def chain(D, par, i):
    out = []
    while i is not None:
        out.append(D.F[i].name)
        i = par[i]
    return out[::-1]


def job_graph(D, chunk, chunks):
    res = Result()
    G = Graph(D)
    roots = [f for f in D.F.values() if f.local and f.kind == "item" and f.bb is not None and f.d.get("pub") and f.d.get("reach")]
    pure = [f for f in roots if not f.path.split("::")[-1] in LOADS and "SystemTime" not in f.name]
    lab = "D13 no effects"
    par, q = {}, []
    for f in pure[chunk::chunks]:
        par[f.id] = None
        q.append(f.id)
    statics = {x[1]: x for x in D.R["facts"] if x[0] == "static"}

    def report(i, what):
        ch = chain(D, par, i)
        loc = next((j for j in reversed(ch) if D.fbyname[j].local), ch[0])
        g = D.fbyname[loc]
        cx = Ctx(res, D.fbyname[ch[0]])
        cx.viol(lab, "%s is reached: %s" % (what, " > ".join(ch[-4:])), None, {}, (g.name, g.file, g.line), ch)
    while q:
        i = q.pop()
        f = D.F[i]
        res.fns[i] = res.fns.get(i, 0) + 1
        if not f.local and CUT.search(f.vpath):
            continue
        if f.kind == "foreign":
            report(i, "the foreign function " + f.name)
            continue
        if not f.bb:
            if EFFECT.search(f.vpath):
                report(i, f.vpath)
            elif not FINE.search(f.vpath):
                res.count(lab, 2)
                res.open.append({"rule": lab, "entry": chain(D, par, i)[0], "why": "unknown external function " + f.vpath})
            continue
        if not f.local and EFFECT.search(f.vpath):
            if not (par[i] is not None and re.search(r"std::(sync::Arc|rc::Rc|sync::Weak)|alloc::rcs?", D.F[par[i]].vpath)):
                report(i, f.vpath)
                continue
        for e in G.edges(i):
            if e[0] == "static":
                s = statics.get(e[1])
                t = D.T[e[2]]
                inner = D.T[t["e"]] if t["k"] in ("ref", "ptr") else t
                if s and (s[2] or inner.get("freeze") is False):
                    report(i, "the mutable static " + e[1])
                elif not s and f.local and inner.get("freeze") is False:
                    report(i, "the static " + e[1])
                continue
            if e[0] == "tls":
                if f.local:
                    report(i, "a thread-local variable")
                continue
            if e[0] == "indirect":
                if f.local:
                    res.count(lab, 2)
                    res.open.append({"rule": lab, "entry": f.name, "why": "call through a pointer"})
                continue
            j = e[0]
            if j is None or j not in D.F:
                if j is None and f.local:
                    if EFFECT.search(e[1]):
                        report(i, e[1])
                continue
            if j not in par:
                par[j] = i
                q.append(j)
    done = {v["entry"] for v in res.viol}
    for f in pure[chunk::chunks]:
        if f.name not in done:
            res.count(lab, 0)
    res.notes.append("%d public functions, %d functions reachable" % (len(pure), len(par)))
    return res


VALUES = ("DateTime", "DateTimeWithCarry", "Instant", "Duration", "Chronology")


def job_operands(D):
    """No public function takes one of the value types by mutable reference (other than compound assignment)."""
    res = Result()
    lab = "D13 operands untouched"
    for f in D.F.values():
        if not (f.local and f.kind == "item" and f.bb is not None and f.d.get("pub") and f.d.get("reach")):
            continue
        tr = f.d.get("trait") or ""
        bad = None
        for t in f.locals[1:f.argc + 1]:
            x = D.T[t]
            if x["k"] == "ref" and x["m"]:
                y = D.T[x["e"]]
                if y["k"] == "adt" and y.get("local") and y["path"].split("::")[-1] in VALUES and "Assign" not in tr and "clone_from" not in f.name:
                    bad = y["name"]
        if bad:
            Ctx(res, f).viol(lab, "%s takes a %s it can modify" % (f.name, bad), None, {})
        else:
            res.count(lab, 0)
    return res


def job_build_pure(D, k):
    """Building with an explicit chronology touches nothing outside."""
    B = Build(D, 1)
    w = B.w
    lab = "D13 no effects"
    for nm in ("checked_build", "build"):
        fn = w.code.method("DateTimeBuilder", nm)
        cx = Ctx(B.res, fn, w)
        st, b = B.set(B.st.copy(), B.b, "chronology", B.ch)
        for u in UNITS[:k + 1]:
            st, b = B.set(st, b, u, inp("set " + u, 0, 65535 if u in ("year", "millisecond", "microsecond", "nanosecond") else 255))
        st.ev = ()
        for o in w.m.run(fn, [Ptr(st.alloc(b))], st):
            if o.kind in ("unsup", "limit"):
                cx.other(o, lab)
            elif o.st.ev:
                cx._refute(o.st, True, lab, "building with an explicit chronology does %s" % ", ".join(sorted(set(map(str, o.st.ev)))))
            else:
                B.res.count(lab, 0)
    return B.done()


def jobs_d13(D, tier):
    return [("effects of the public functions, part %d" % i, job_graph, (i, 4)) for i in range(4)] + \
        [("operands", job_operands, ())] + [("build to " + UNITS[k], job_build_pure, (k,)) for k in range(9)]


# ---- T01 ---------------------------------------------------------------------------------------------------
def job_share(D):
    res = Result()
    lab, lab2 = "T01 shareable", "T01 immutable when shared"

    class E:
        def __init__(self, x):
            self.name, self.file, self.line = x["name"], "", 0

    def inner(t, seen):
        """Types stored in t, through pointers and containers."""
        if t in seen:
            return
        seen[t] = 1
        x = D.T[t]
        yield x
        subs = []
        if x["k"] == "adt":
            subs += [a for a in x.get("args", []) if isinstance(a, int)]
            if not re.match(r"(std|core|alloc)::", x["path"]):
                for v in x["vs"]:
                    subs += [f[1] for f in v[2]]
        elif x["k"] in ("ref", "ptr", "array", "slice"):
            subs.append(x["e"])
        elif x["k"] == "tuple":
            subs += x["f"]
        for s in subs:
            yield from inner(s, seen)
    # a trait object, foreign or raw pointer inside makes the compiler withdraw Send/Sync by itself
    pub = [x for x in D.T.values() if x["k"] == "adt" and x.get("local") and x.get("reach") and x.get("pub")]
    if not pub:
        raise Missing("public types")
    for x in pub:
        cx = Ctx(res, E(x))
        if "Cursor" in x["name"] and not (x["send"] and x["sync"]):
            continue                    # as shareable as what they walk over
        for a in ("send", "sync"):
            if x[a]:
                res.count(lab, 0)
            else:
                cx.viol(lab, "%s is not %s" % (x["name"], a.capitalize()), None, {})
        bad = None
        for y in inner(x["id"], {}):
            if y.get("freeze") is False or (y["k"] == "adt" and re.match(r"(std|core)::(cell|sync::(Mutex|RwLock|OnceLock|LazyLock|atomic|poison|nonpoison))", y["path"])):
                bad = y
        if bad is None:
            res.count(lab2, 0)
        else:
            cx.viol(lab2, "%s contains interior mutability: %s" % (x["name"], bad["name"]), None, {})
    res.notes.append("%d public types: %s" % (len(pub), ", ".join(sorted({x["path"].split("::")[-1] for x in pub}))))
    return res


# ---- T02 ------------------------------------------------------------------------------------------------------
# making the buffers of the foreign call
PREP = re.compile(r"(std|core)::mem::(zeroed|MaybeUninit::(<.*>::)?assume_init)\Z")


def job_unsafe(D):
    res = Result()
    lab = "T02 unsafe code confined"

    class E:
        def __init__(self, n):
            self.name, self.file, self.line = n, "", 0
    owners = set()
    for x in D.R["facts"]:
        if x[0] in ("unsafefn", "unsafeimpl", "extern"):
            Ctx(res, E(x[1])).viol(lab, "%s: %s" % ({"unsafefn": "unsafe function", "unsafeimpl": "unsafe trait implementation", "extern": "foreign declarations"}[x[0]], x[1]), None, {})
        elif x[0] == "static" and x[2]:
            Ctx(res, E(x[1])).viol(lab, "mutable static " + x[1], None, {})
        elif x[0] == "unsafeblock":
            owners.add(x[1])
    for f in D.F.values():
        if not f.local or f.bb is None:
            continue
        inblock = any(f.path == o or f.path.startswith(o + "::") for o in owners)
        bad = None
        for b in f.bb:
            t = b["t"]
            if t and t[0] in ("call", "tailcall") and "k" in t[1]:
                g = D.F.get(D.T[t[1]["k"]["t"]].get("inst"))
                if g is not None and (g.d.get("unsafe") or g.kind == "foreign") and inblock:
                    if g.vpath == "libc::gmtime_r":
                        res.count("T02 foreign call", 0)
                    elif PREP.match(g.vpath):
                        res.count("T02 buffers", 0)
                    elif not g.vpath.startswith(("std::fmt::", "core::fmt::")):
                        bad = "calls the unsafe function " + g.vpath
            if inblock:
                for s in b["s"]:
                    r = rawderef(D, f, s)
                    if r:
                        bad = r
                r = rawderef(D, f, t)
                if r:
                    bad = r
        if bad:
            Ctx(res, f).viol(lab, "%s %s" % (f.name, bad), None, {})
        else:
            res.count(lab, 0)
    return res


def places(x):
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(e, list) and e and isinstance(e[0], str) for e in x[1]):
            yield x
            return
        for y in x:
            yield from places(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from places(y)


def rawderef(D, f, s):
    for l, pr in places(s):
        if l >= len(f.locals):
            continue
        t = f.locals[l]
        for e in pr:
            x = D.T[t]
            if e[0] == "d":
                if x["k"] == "ptr":
                    return "dereferences a raw pointer"
                if x["k"] != "ref":
                    break
                t = x["e"]
            elif e[0] == "f":
                if x["k"] == "adt" and x.get("ak") == "union":
                    return "reads a union"
                t = e[2]
            else:
                break
    if isinstance(s, list) and len(s) > 2 and isinstance(s[2], list) and s[2] and s[2][0] == "cast" and "Transmute" in s[2][1]:
        return "transmutes"
    return None


def job_ffi(D):
    """The buffers handed to gmtime_r: live, distinct, initialised, of the right types; the zone name pointer is never followed."""
    w = World(D, 1, deadline=spec.DEADLINE)
    res = Result()
    lab = "T02 foreign call"
    def calls(f):
        for bb in f.bb or ():
            t = bb["t"]
            if t and t[0] in ("call", "tailcall") and "k" in t[1]:
                g = D.F.get(D.T[t[1]["k"]["t"]].get("inst"))
                if g is not None:
                    yield g
    local = [f for f in D.F.values() if f.local and f.bb]
    foreign = [f for f in local if any(g.kind == "foreign" for g in calls(f))]
    # analyse from the nearest function whose arguments are plain numbers
    roots, seen = [], set()
    todo = list(foreign)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        if all(D.T[f.locals[i]]["k"] == "int" for i in range(1, f.argc + 1)):
            roots.append(f)
        else:
            up = [g for g in local if any(h is f for h in calls(g))]
            if not up:
                raise Inconclusive("no caller of " + f.name)
            todo += up
    for fn in roots:
        cx = Ctx(res, fn, w)
        g = w.env.gmtime

        def check(m, st, f, a):
            ok = len(a) == 2 and all(isinstance(p, Ptr) for p in a)
            if not ok:
                bad.append("a pointer that is not the address of a variable")
                raise Unsupported("gmtime_r")
            if not isinstance(st.load(a[0]), Lin):
                bad.append("an input that is not an initialised time_t")
            v = st.load(a[1])
            if v != UNINIT and not (isinstance(v, Agg) and len(v.f) >= 9):
                bad.append("an output buffer that is not a struct tm")
            if a[0].key == a[1].key:
                bad.append("overlapping buffers")
            res.count(lab, 0)
            if st.truth(eq(fails, C(1))):
                return ZERO                     # a null pointer, and the buffer as it was
            r = g(m, st, f, a)
            v = st.load(a[1])
            st.store(a[1], Agg(v.v, tuple(Opq("zone name") if i == len(v.f) - 1 else x for i, x in enumerate(v.f))))
            return r
        bad = []
        fails = inp("gmtime_r fails", 0, 1)
        w.env.gmtime = check
        os_ = w.m.run(fn, [inp("argument %d" % i, *w.m.int_range(fn.locals[i])[:2]) for i in range(1, fn.argc + 1)], w.st0.copy())
        w.env.gmtime = g
        for b in sorted(set(bad)):
            cx.viol(lab, "gmtime_r is handed " + b, None, {})
        for o in os_:
            if o.kind in ("unsup", "limit"):
                if "zone name" in str(o.info):
                    cx.viol(lab, "the zone name pointer written by gmtime_r is followed", None, {})
                elif "uninitialised memory" in str(o.info):
                    cx.viol(lab, "memory that gmtime_r did not initialise is read", None, {})
                else:
                    cx.other(o, lab)
            else:
                res.count(lab, 0)
    res.fns = dict(w.m.fnseen)
    res.paths = w.m.stats["paths"]
    return res


CG = "call-graph effect analysis on monomorphized MIR"
REG["D13"] = Prop(jobs_d13, "From every public function (except loading a chronology, building and system time conversion) no environment, file, clock, process, thread, lock, atomic, mutable static or foreign function is reachable in the call graph; no public function takes a value type by mutable reference; building with an explicit chronology records no effect on any path", technique=CG,
                  note="Over-approximate call graph of all monomorphized public functions down to functions without MIR, which must be on a list of effect-free ones. Panic and formatting machinery is cut. Building with an explicit chronology is decided path-sensitively.", assumptions=["panic and formatting machinery is outside the claim"])
REG["T01"] = Prop(lambda D, t: [("public types", job_share, ())], "Every public type is Send and Sync and neither it nor anything it points to has interior mutability (type table of the compiler)", technique="type-level analysis (auto traits and interior mutability of every public type)",
                  note="Auto traits as computed by rustc for every instantiated public type; interior mutability searched through pointers and containers. The reference count of Arc is trusted.")
REG["T02"] = Prop(lambda D, t: [("unsafe code", job_unsafe, ()), ("foreign call", job_ffi, ())], "Unsafe blocks contain nothing but the call of gmtime_r; its arguments point to live, distinct, initialised variables of the right types; the pointer it writes is not followed", technique="unsafe-code confinement lint on HIR and MIR, plus pointer analysis at the foreign call",
                  note="Complete enumeration of unsafe blocks, functions and impls written in the crate; points-to at the call from the abstract interpreter. Memory safety of safe Rust and of dependencies is rustc's and theirs.")

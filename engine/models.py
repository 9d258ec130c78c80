"""Models of library functions (std, alloc, core intrinsics, zoneinfo parser, libc)."""
import math
import re
from num import *
from interp import *

MODELS = []


def model(*pats):
    def d(f):
        for p in pats:
            MODELS.append((re.compile(p + r"\Z"), f))
        return f
    return d


class Models:
    def __init__(self, env=None):
        self.cache = {}
        self.env = env          # environment description supplied by the specification
        self.nx = None

    def lookup(self, m, fn):
        r = fn.model
        if r == 0:
            r = None
            if not fn.local:
                for p, f in MODELS:
                    if p.match(fn.vpath):
                        r = f
                        break
            fn.model = r
        return r


def ret(v):
    return ("ret", v)


def none():
    return ret(Agg(0, ()))


def some(v):
    return ret(Agg(1, (v,)))


def effect(st, name):
    st.ev = st.ev + (name,)


HOOK = None     # records texts (text.py)


# ---- formatting: opaque -------------------------------------------------------------------------------------
@model(r"core::fmt::.*", r"std::fmt::.*", r"<.* as (core|std)::fmt::\w+>::fmt", r"core::fmt::rt::.*")
def m_fmt(m, st, fn, a):
    if HOOK is not None:
        r = HOOK(m, st, fn, a)
        if r is not None:
            return r
    if re.search(r"write_|finish|::fmt\Z", fn.vpath):
        return ret(Agg(0, (UNIT,)))
    last = fn.vpath.rsplit("::", 1)[1]
    if last == "new_display" and isinstance(deep(st, a[0]), Opq):
        return ret(Opq(("shown", deep(st, a[0]).n)))
    if last == "from_str" and isinstance(deep(st, a[0]), Opq):
        return ret(deep(st, a[0]))
    if last == "new" and len(a) == 2 and fn.vpath.startswith("std::fmt::Arguments"):
        t = template(deep(st, a[0]), deep(st, a[1]))
        if t is not None:
            return ret(t)
    if fn.vpath == "std::fmt::format" and isinstance(a[0], Opq):
        return ret(a[0])
    return ret(Opq("fmt"))


def template(code, args):
    """The text made by a format template whose arguments are strings."""
    try:
        code, args, out, i, k = [b.c for b in code.f], args.f, [], 0, 0
        while code[i]:
            if code[i] < 128:
                out.append(("str", bytes(code[i + 1:i + 1 + code[i]]).decode()))
                i += 1 + code[i]
            elif code[i] == 192:
                if args[k].n[0] != "shown":
                    return None
                out.append(args[k].n[1])
                k, i = k + 1, i + 1
            else:
                return None
    except (AttributeError, IndexError, TypeError, UnicodeDecodeError):
        return None
    return Opq(out[0] if len(out) == 1 else ("cat",) + tuple(out))


# ---- intrinsics ------------------------------------------------------------------------------------------------
@model(r"(core|std)::intrinsics::integer_min", r"std::cmp::impls::<impl std::cmp::Ord for [iu]\w+>::min")
def m_min(m, st, fn, a):
    x, y = a
    if x == y:
        return ret(x)
    return ret(x if st.truth(le(x, y)) else y)


@model(r"(core|std)::intrinsics::integer_max", r"std::cmp::impls::<impl std::cmp::Ord for [iu]\w+>::max")
def m_max(m, st, fn, a):
    x, y = a
    if x == y:
        return ret(x)
    return ret(x if st.truth(gt(x, y)) else y)


@model(r"(core|std)::intrinsics::select_unpredictable", r"std::hint::select_unpredictable")
def m_sel(m, st, fn, a):
    return ret(a[1] if st.truth(a[0]) else a[2])


@model(r"(core|std)::intrinsics::(cold_path|assert_inhabited|assert_zero_valid|assert_mem_uninitialized_valid|assume)",
       r"std::hint::assert_unchecked", r".*::precondition_check", r"std::mem::forget",
       r"std::hint::cold_path", r"core::hint::.*")
def m_unit(m, st, fn, a):
    return ret(UNIT)


@model(r"std::mem::drop")
def m_drop(m, st, fn, a):
    if st.held and a and "Guard<" in fn.name:
        m.release(st, a[0])
    return ret(UNIT)


@model(r"(core|std)::intrinsics::(likely|unlikely|black_box)", r"std::hint::(black_box|likely|unlikely)")
def m_id(m, st, fn, a):
    return ret(a[0])


@model(r"(core|std)::intrinsics::three_way_compare",
       r"std::cmp::impls::<impl std::cmp::Ord for [iu]\w+>::cmp")
def m_cmp(m, st, fn, a):
    x, y = [st.load(p) if isinstance(p, Ptr) else p for p in a]
    if st.truth(lt(x, y)):
        return ret(Agg(0, ()))
    return ret(Agg(1, ()) if st.truth(eq(x, y)) else Agg(2, ()))


@model(r"(core|std)::intrinsics::saturating_(add|sub)", r"core::num::<impl [iu]\w+>::saturating_(add|sub)")
def m_sat(m, st, fn, a):
    t = int_ty(m, fn)
    r = a[0] + a[1] if fn.vpath.endswith("add") else a[0] - a[1]
    lo, hi, _ = t
    if st.truth(lt(r, C(lo))):
        return ret(C(lo))
    if st.truth(gt(r, C(hi))):
        return ret(C(hi))
    return ret(r)


def int_ty(m, fn):
    """Integer range of the (self) integer type of a std integer method / intrinsic."""
    mm = re.search(r"<impl ([iu])(\w+)>", fn.vpath)
    if mm:
        s, b = mm.groups()
        b = 64 if b == "size" else int(b)
        return (-(1 << b - 1), (1 << b - 1) - 1, b) if s == "i" else (0, (1 << b) - 1, b)
    for t in fn.d["targs"]:
        r = m.int_range(t)
        if r:
            return r
    raise Unsupported("integer type of " + fn.name)


@model(r"(core|std)::intrinsics::(cttz|ctlz|ctpop|cttz_nonzero|bswap|bitreverse)")
def m_bits(m, st, fn, a):
    x = a[0]
    lo, hi, b = int_ty(m, fn)
    op = fn.vpath.rsplit("::", 1)[1]
    op = op.replace("_nonzero", "")
    l, h = st.rng(x)
    if l is not None and l == h:
        r = bitop(op, l, b)
        return ret(C(r - (1 << b) if lo < 0 and op in ("bswap", "bitreverse") and r > hi else r))
    if op == "bswap":
        ps = m.pieces(st, x, fn.d["targs"][0], 8, b // 8)[::-1]
        r = m.setf(st, (0, tuple((8 * i, 8, z) for i, z in enumerate(ps))))
        return ret(r if lo == 0 else m.wrap(st, r, fn.d["targs"][0]))
    if op == "bitreverse":
        return ret(m.wrap(st, fn_atom("bits", (op, x, b), 0, (1 << b) - 1), fn.d["targs"][0]))
    l2, h2 = 0, b
    if op == "ctlz" and l is not None and h is not None and l >= 0:
        l2, h2 = b - h.bit_length(), b - l.bit_length()
    elif op == "cttz" and l is not None and h is not None and (l > 0 or h < 0):
        h2 = b - 1
    return ret(fn_atom("bits", (op, x, b), l2, h2))


def bitop(op, v, b):
    v &= (1 << b) - 1
    if op == "cttz":
        return b if v == 0 else (v & -v).bit_length() - 1
    if op == "ctlz":
        return b - v.bit_length()
    if op == "ctpop":
        return bin(v).count("1")
    if op == "bswap":
        return int.from_bytes(v.to_bytes(b // 8, "little"), "big")
    return int(bin(v)[2:].zfill(b)[::-1], 2)


FNS["bits"] = bitop
FNS["and"] = lambda a, b: a & b
FNS["or"] = lambda a, b: a | b
FNS["xor"] = lambda a, b: a ^ b


@model(r"(core|std)::intrinsics::discriminant_value")
def m_discr(m, st, fn, a):
    return ret(m.discr(st, st.load(a[0]), fn.d["targs"][0]))


@model(r"(core|std)::intrinsics::(abort|abort_immediate)", r"std::process::abort")
def m_abort(m, st, fn, a):
    raise Panic("panic", "abort")


def zero_of(m, t):
    """The value of type t whose bytes are all zero."""
    x = m.T[t]
    k = x["k"]
    if k in ("int", "ptr", "char"):
        return ZERO
    if k == "bool":
        return False
    if k == "tuple":
        return Agg(None, tuple(zero_of(m, f) for f in x["f"]))
    if k == "array" and 0 <= x["n"] <= 64:
        return Agg(None, tuple(zero_of(m, x["e"]) for _ in range(x["n"])))
    if k == "adt" and x["ak"] == "struct":
        return Agg(None, tuple(zero_of(m, f[1]) for f in x["vs"][0][2]))
    raise Unsupported("zeroed value of %s" % x.get("path", k))


@model(r"std::mem::zeroed")
def m_zeroed(m, st, fn, a):
    return ret(zero_of(m, fn.locals[0]))


MU = r"std::mem::MaybeUninit::(<.*>::)?"


@model(MU + "(new|uninit|zeroed)")
def m_mu_new(m, st, fn, a):
    if a:
        return ret(a[0])
    return ret(UNINIT if fn.vpath.endswith("uninit") else zero_of(m, m.T[fn.locals[0]]["args"][0]))


@model(MU + "(as_ptr|as_mut_ptr)")
def m_mu_ptr(m, st, fn, a):
    return ret(a[0])


@model(MU + "(assume_init|assume_init_ref|assume_init_mut|assume_init_read)")
def m_mu_init(m, st, fn, a):
    v = st.load(a[0]) if isinstance(a[0], Ptr) and not fn.vpath.endswith("assume_init") else a[0]
    if v == UNINIT or v is None:
        raise Unsupported("uninitialised memory is read")
    return ret(v if fn.vpath.endswith("_read") else a[0])


@model(MU + "write")
def m_mu_write(m, st, fn, a):
    st.store(a[0], a[1])
    return ret(a[0])


@model(r"std::ptr::(const_ptr|mut_ptr)::<impl .*>::is_null", r"core::ptr::.*::is_null")
def m_isnull(m, st, fn, a):
    if isinstance(a[0], Ptr):
        return ret(False)
    if isinstance(a[0], Lin):
        return ret(eq(a[0], ZERO))
    raise Unsupported("is_null of %r" % (a[0],))


@model(r"(core|std)::intrinsics::ptr_metadata", r"std::ptr::metadata")
def m_meta(m, st, fn, a):
    return ret(a[0].sl[1] if a[0].sl else UNIT)


@model(r"std::mem::swap")
def m_swap(m, st, fn, a):
    x, y = st.load(a[0]), st.load(a[1])
    st.store(a[0], y)
    st.store(a[1], x)
    return ret(UNIT)


@model(r"std::mem::replace")
def m_replace(m, st, fn, a):
    x = st.load(a[0])
    st.store(a[0], a[1])
    return ret(x)


@model(r"std::mem::take")
def m_take(m, st, fn, a):
    raise Unsupported("mem::take")


@model(r"std::ptr::(read|<impl .*>::read)", r"(core|std)::intrinsics::read_via_copy")
def m_read(m, st, fn, a):
    return ret(st.load(a[0]))


# ---- integer methods -----------------------------------------------------------------------------------------------
def loadi(st, v):
    return st.load(v) if isinstance(v, Ptr) else v


@model(r"core::num::<impl [iu]\w+>::(div_euclid|rem_euclid|div_floor)",
       r"<[iu]\w+ as num_integer::Integer>::(div_floor|mod_floor|div_mod_floor)")
def m_euclid(m, st, fn, a):
    x, k = loadi(st, a[0]), loadi(st, a[1])
    lo, hi = st.rng(k)
    if lo is None or lo != hi or lo <= 0:
        return None
    q = m.div(st, x, lo)
    op = fn.vpath.rsplit("::", 1)[1]
    if op in ("div_euclid", "div_floor"):
        return ret(q)
    r = x - q * lo
    if op in ("rem_euclid", "mod_floor"):
        return ret(r)
    return ret(Agg(None, (q, r)))


@model(r"<[iu]\w+ as num_integer::Integer>::(gcd|lcm|gcd_lcm|extended_gcd)")
def m_gcd(m, st, fn, a):
    from math import gcd
    x, y = loadi(st, a[0]), loadi(st, a[1])
    op = fn.vpath.rsplit("::", 1)[1]
    (l1, h1), (l2, h2) = st.rng(x), st.rng(y)
    if op == "gcd" and l1 is not None and l1 == h1 and l2 is not None and l2 == h2:
        return ret(C(gcd(l1, l2)))
    if op == "gcd" and ((l1 == h1 and l1 in (1, -1)) or (l2 == h2 and l2 in (1, -1))):
        return ret(C(1))
    if op == "gcd" and l1 == h1 == 0:
        return ret(y if st.truth(ge(y, ZERO)) else -y)
    if op == "gcd" and l2 == h2 == 0:
        return ret(x if st.truth(ge(x, ZERO)) else -x)
    if op == "gcd" and l2 is not None and l2 == h2:
        return gcd_const(m, st, x, abs(l2))
    if op == "gcd" and l1 is not None and l1 == h1:
        return gcd_const(m, st, y, abs(l1))
    raise Unsupported("symbolic " + op)


def gcd_const(m, st, x, k):
    """gcd(x, k): case split over the divisors of k."""
    ds = [d for d in range(1, int(k ** .5) + 1) if k % d == 0] if k < 10 ** 7 else smalldivs(k)
    ds = sorted(set(ds + [k // d for d in ds]), reverse=True)
    for d in ds:
        if d == 1:
            return ret(C(1))
        if st.truth(eq(x, m.div(st, x, d) * d)):
            return ret(C(d))
    raise Unreachable()


def smalldivs(k):
    fs = {}
    n = k
    p = 2
    while p * p <= n and p < 10000:
        while n % p == 0:
            fs[p] = fs.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        fs[n] = fs.get(n, 0) + 1
    ds = [1]
    for p, e in fs.items():
        ds = [d * p ** i for d in ds for i in range(e + 1)]
    return ds


@model(r"std::num::NonZero::<T>::new", r"std::num::NonZero::<\w+>::new")
def m_nz_new(m, st, fn, a):
    if st.truth(eq(a[0], ZERO)):
        return none()
    return some(Agg(None, (a[0],)))


@model(r"std::num::NonZero::<\w+>::get", r"std::num::NonZero::<\w+>::new_unchecked")
def m_nz_get(m, st, fn, a):
    if fn.vpath.endswith("get"):
        v = a[0]
        if isinstance(v, Ptr):
            v = st.load(v)
        return ret(v.f[0] if isinstance(v, Agg) else v)
    return ret(Agg(None, (a[0],)))


# ---- slices ----------------------------------------------------------------------------------------------------------
def slen(st, p):
    if p.sl is not None:
        return p.sl[1]
    v = st.load(p)
    if isinstance(v, SymArr):
        return v.len
    return C(len(v.f))


def sbase(p):
    return p.sl[0] if p.sl is not None else ZERO


def elem(p, i):
    i = i + sbase(p)
    return Ptr(p.key, p.path + (i.c if not i.t else i,))


@model(r"core::slice::<impl \[T\]>::len", r"std::vec::Vec::<T, A>::len", r"std::ptr::(const_ptr|mut_ptr)::<impl \*\w+ \[T\]>::len")
def m_len(m, st, fn, a):
    return ret(slen(st, a[0]))


@model(r"core::slice::<impl \[T\]>::is_empty", r"std::vec::Vec::<T, A>::is_empty")
def m_empty(m, st, fn, a):
    return ret(eq(slen(st, a[0]), ZERO))


@model(r"core::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)")
def m_getu(m, st, fn, a):
    if isinstance(a[1], Lin):
        return ret(elem(a[0], a[1]))
    raise Unsupported("slice range access")


@model(r"core::slice::<impl \[T\]>::(get|get_mut)")
def m_get(m, st, fn, a):
    n = slen(st, a[0])
    if not isinstance(a[1], Lin):
        s, e = srange(m, fn, a[1], n)
        if st.truth(le(s, e)) and st.truth(le(e, n)):
            return some(Ptr(a[0].key, a[0].path, (sbase(a[0]) + s, e - s)))
        return none()
    if st.truth(lt(a[1], n)):
        return some(elem(a[0], a[1]))
    return none()


@model(r"core::slice::<impl \[T\]>::(first|first_mut)")
def m_first(m, st, fn, a):
    if st.truth(eq(slen(st, a[0]), ZERO)):
        return none()
    return some(elem(a[0], ZERO))


@model(r"core::slice::<impl \[T\]>::(last|last_mut)")
def m_last(m, st, fn, a):
    n = slen(st, a[0])
    if st.truth(eq(n, ZERO)):
        return none()
    return some(elem(a[0], n - 1))


@model(r"<std::vec::Vec<T, A> as std::ops::(Deref|DerefMut)>::(deref|deref_mut)",
       r"std::vec::Vec::<T, A>::(as_slice|as_mut_slice)", r"<std::vec::Vec<T, A> as (std|core)::.*AsRef.*>::as_ref",
       r"<std::vec::Vec<T, A> as std::borrow::Borrow<\[T\]>>::borrow")
def m_vderef(m, st, fn, a):
    p = a[0]
    return ret(Ptr(p.key, p.path, (ZERO, slen(st, p))))


def srange(m, fn, i, n):
    """Start and end of a range used as an index."""
    nm = m.T[fn.d["targs"][-1]]["name"] if fn.d["targs"] else ""
    for t in fn.d["targs"]:
        nm = m.T[t]["name"]
        if "Range" in nm:
            break
    if "RangeFull" in nm:
        return ZERO, n
    elif "RangeFrom" in nm:
        return i.f[0], n
    elif "RangeToInclusive" in nm:
        return ZERO, i.f[0] + 1
    elif "RangeTo" in nm:
        return ZERO, i.f[0]
    elif "RangeInclusive" in nm:
        return i.f[0], i.f[1] + 1
    elif "Range" in nm:
        return i.f
    else:
        raise Unsupported("index by " + nm)


@model(r"<std::vec::Vec<T, A> as std::ops::(Index|IndexMut)<I>>::(index|index_mut)",
       r"<\[T\] as std::ops::(Index|IndexMut)<I>>::(index|index_mut)",
       r"core::slice::index::<impl std::ops::(Index|IndexMut)<I> for \[T\]>::(index|index_mut)",
       r"<\[T; N\] as std::ops::Index<I>>::index",
       r"core::array::<impl std::ops::Index<I> for \[T; N\]>::index")
def m_vindex(m, st, fn, a):
    i = a[1]
    n = slen(st, a[0])
    if isinstance(i, Lin):
        if not st.truth(lt(i, n)):
            raise Panic("bounds", "index out of bounds")
        return ret(elem(a[0], i))
    s, e = srange(m, fn, i, n)
    if not st.truth(le(s, e)) or not st.truth(le(e, n)):
        raise Panic("bounds", "slice range out of bounds")
    return ret(Ptr(a[0].key, a[0].path, (sbase(a[0]) + s, e - s)))


@model(r"core::slice::<impl \[T\]>::(iter|iter_mut)",
       r"<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       r"core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter",
       r"std::slice::Iter::<'a, T>::new", r"std::slice::IterMut::<'a, T>::new")
def m_iter(m, st, fn, a):
    p = a[0]
    return ret(Iter(Ptr(p.key, p.path), sbase(p), sbase(p) + slen(st, p)))


@model(r"<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       r"<\[T; N\] as std::iter::IntoIterator>::into_iter", r"std::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter",
       r"core::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter")
def m_into_iter(m, st, fn, a):
    k = st.alloc(a[0])
    return ret(Iter(Ptr(k), ZERO, C(len(a[0].f)), "val"))


ITN = r"<(std::slice::Iter(Mut)?<'a, T>|std::vec::IntoIter<T, A>|std::array::IntoIter<T, N>|core::array::IntoIter<T, N>) as std::iter::\w*Iterator>::"


def item(st, it, i):
    p = elem(it.p, i)
    return st.load(p) if it.kind == "val" else p


@model(ITN + "next")
def m_next(m, st, fn, a):
    it = st.load(a[0])
    if st.truth(ge(it.a, it.b)):
        return none()
    v = item(st, it, it.a)
    st.store(a[0], Iter(it.p, it.a + 1, it.b, it.kind))
    return some(v)


@model(ITN + "next_back")
def m_nextb(m, st, fn, a):
    it = st.load(a[0])
    if st.truth(ge(it.a, it.b)):
        return none()
    v = item(st, it, it.b - 1)
    st.store(a[0], Iter(it.p, it.a, it.b - 1, it.kind))
    return some(v)


@model(ITN + "__iterator_get_unchecked")
def m_itget(m, st, fn, a):
    it = st.load(a[0])
    return ret(item(st, it, it.a + a[1]))


@model(ITN + "nth")
def m_nth(m, st, fn, a):
    it = st.load(a[0])
    if not st.truth(lt(a[1], it.b - it.a)):
        st.store(a[0], Iter(it.p, it.b, it.b, it.kind))
        return none()
    v = item(st, it, it.a + a[1])
    st.store(a[0], Iter(it.p, it.a + a[1] + 1, it.b, it.kind))
    return some(v)


@model(ITN + "last")
def m_itlast(m, st, fn, a):
    it = a[0]
    if st.truth(ge(it.a, it.b)):
        return none()
    return some(item(st, it, it.b - 1))


@model(ITN + "(count|len)", r"std::iter::ExactSizeIterator::len")
def m_count(m, st, fn, a):
    it = a[0]
    if isinstance(it, Ptr):
        it = st.load(it)
    if not isinstance(it, Iter):
        raise Unsupported("len of iterator adaptor")
    return ret(it.b - it.a)


@model(ITN + "size_hint")
def m_hint(m, st, fn, a):
    it = st.load(a[0])
    n = it.b - it.a
    return ret(Agg(None, (n, Agg(1, (n,)))))


@model(r"<std::slice::Iter<'_, T> as std::clone::Clone>::clone")
def m_itclone(m, st, fn, a):
    return ret(st.load(a[0]))


def ftype(m, fn, st=None):
    """Type of the closure argument: the last closure/fn type argument."""
    for t in reversed(fn.d["targs"]):
        x = m.T[t]
        y = x
        while y["k"] == "ref":
            y = m.T[y["e"]]
        if y["k"] in ("closure", "fndef"):
            return t
    raise Unsupported("closure type of " + fn.name)


def call_f(m, st, fn, fv, args, resume, data):
    f, al = m.closure_call(st, ftype(m, fn), fv, args)
    return ("call", f, al, resume, data)


# The closure value lives in a temporary so that its captured state persists between calls.
def fkeep(m, st, fn, fv):
    if isinstance(fv, Ptr):
        return fv
    return Ptr(st.alloc(fv))


def call_k(m, st, fn, fp, args, resume, data):
    t = ftype(m, fn)
    x = m.T[t]
    while x["k"] == "ref":
        x = m.T[x["e"]]
    if x["k"] == "closure":
        f = m.F[x["inst"]]
        me = fp if m.T[f.locals[1]]["k"] == "ref" else st.load(fp)
        return ("call", f, [me] + list(args), resume, data)
    return ("call", m.F[x["inst"]], list(args), resume, data)


def mk_loop(name, pats, by_ref, init, body, done):
    """Iterator consumers over a slice iterator, calling a closure per element.
    body(m, st, d, i, r) is called after the closure returned r for element i and yields
    ("go", acc) or ("stop", value); done(acc) gives the final value."""
    def start(m, st, fn, a):
        it = st.load(a[0]) if by_ref else a[0]
        if not isinstance(it, Iter):
            raise Unsupported(name)
        fp = fkeep(m, st, fn, a[-1])
        acc = a[1] if init == "arg" else init
        return step(m, st, (fn, it, fp, acc, a[0] if by_ref else None))

    def step(m, st, d):
        fn, it, fp, acc, back = d
        if st.truth(ge(it.a, it.b)):
            if back is not None:
                st.store(back, it)
            return ret(done(acc))
        x = item(st, it, it.a if name != "rposition" else it.b - 1)
        args = [acc, x] if init == "arg" else [x]
        if name in ("find", "max_by_key"):
            args = [Ptr(st.alloc(x))]
        return call_k(m, st, fn, fp, args, resume, (d, x))

    def resume(m, st, dd, r):
        (fn, it, fp, acc, back), x = dd
        nit = Iter(it.p, it.a + 1, it.b, it.kind)
        k, v = body(st, acc, x, r)
        if name == "rposition":
            nit = Iter(it.p, it.a, it.b - 1, it.kind)
            if k == "stop":
                v = Agg(1, (nit.b - nit.a,))
        if k == "stop":
            if back is not None:
                st.store(back, nit)
            return ret(v)
        return step(m, st, (fn, nit, fp, v, back))
    model(*pats)(start)


mk_loop("fold", [ITN + "fold"], False, "arg", lambda st, acc, x, r: ("go", r), lambda acc: acc)
mk_loop("for_each", [ITN + "for_each"], False, None, lambda st, acc, x, r: ("go", None), lambda acc: UNIT)
mk_loop("any", [ITN + "any"], True, None, lambda st, acc, x, r: ("stop", True) if st.truth(r) else ("go", None), lambda acc: False)
mk_loop("all", [ITN + "all"], True, None, lambda st, acc, x, r: ("go", None) if st.truth(r) else ("stop", False), lambda acc: True)
mk_loop("find", [ITN + "find"], True, None, lambda st, acc, x, r: ("stop", Agg(1, (x,))) if st.truth(r) else ("go", None), lambda acc: Agg(0, ()))
mk_loop("position", [ITN + "position"], True, 0, lambda st, acc, x, r: ("stop", Agg(1, (C(acc),))) if st.truth(r) else ("go", acc + 1), lambda acc: Agg(0, ()))
mk_loop("rposition", [ITN + "rposition"], True, 0, lambda st, acc, x, r: ("stop", r) if st.truth(r) else ("go", acc + 1), lambda acc: Agg(0, ()))
mk_loop("find_map", [ITN + "find_map"], True, None, lambda st, acc, x, r: ("stop", r) if r.v == 1 else ("go", None), lambda acc: Agg(0, ()))


def split(p, i, n):
    b = sbase(p)
    return Ptr(p.key, p.path, (b, i)), Ptr(p.key, p.path, (b + i, n - i))


@model(r"core::slice::<impl \[T\]>::(split_at|split_at_mut|split_at_unchecked|split_at_mut_unchecked|split_at_checked)")
def m_split_at(m, st, fn, a):
    n = slen(st, a[0])
    if not st.truth(le(a[1], n)):
        if "checked" in fn.vpath:
            return none()
        raise Panic("bounds", "mid > len")
    r = Agg(None, split(a[0], a[1], n))
    return some(r) if fn.vpath.endswith("_checked") else ret(r)


@model(r"core::slice::<impl \[T\]>::(split_first|split_last)")
def m_split_first(m, st, fn, a):
    n = slen(st, a[0])
    if st.truth(eq(n, ZERO)):
        return none()
    if fn.vpath.endswith("first"):
        return some(Agg(None, (elem(a[0], ZERO), split(a[0], C(1), n)[1])))
    return some(Agg(None, (elem(a[0], n - 1), split(a[0], n - 1, n)[0])))


@model(r"core::array::<impl \[T; N\]>::map", r"std::array::<impl \[T; N\]>::map")
def m_amap(m, st, fn, a):
    return amap_r(m, st, (fn, fkeep(m, st, fn, a[1]), a[0].f, (), False), None)


def amap_r(m, st, d, r):
    fn, fp, items, acc, has = d
    if has:
        acc = acc + (r,)
    if len(acc) == len(items):
        return ret(Agg(None, acc))
    return call_k(m, st, fn, fp, [items[len(acc)]], amap_r, (fn, fp, items, acc, True))


@model(r"(core|std)::intrinsics::(ptr_offset_from|ptr_offset_from_unsigned)")
def m_ptrdiff(m, st, fn, a):
    p, q = a
    if not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.key != q.key or p.path[:-1] != q.path[:-1] or not p.path or not q.path:
        raise Unsupported("distance of pointers")
    return ret(ZERO + p.path[-1] - q.path[-1])


# ---- Vec -------------------------------------------------------------------------------------------------------------
@model(r"std::vec::Vec::<T>::(new|with_capacity)", r"<std::vec::Vec<T> as std::default::Default>::default",
       r"std::vec::Vec::<T, A>::with_capacity_in")
def m_vnew(m, st, fn, a):
    return ret(Agg(None, ()))


@model(r"std::vec::Vec::<T, A>::push")
def m_push(m, st, fn, a):
    v = st.load(a[0])
    st.store(a[0], Agg(None, v.f + (a[1],)))
    return ret(UNIT)


@model(r"std::vec::Vec::<T, A>::pop")
def m_pop(m, st, fn, a):
    v = st.load(a[0])
    if not v.f:
        return none()
    st.store(a[0], Agg(None, v.f[:-1]))
    return some(v.f[-1])


@model(r"std::vec::Vec::<T, A>::(reserve|shrink_to_fit|reserve_exact)")
def m_reserve(m, st, fn, a):
    return ret(UNIT)


@model(r"std::vec::Vec::<T, A>::clear")
def m_clear(m, st, fn, a):
    st.store(a[0], Agg(None, ()))
    return ret(UNIT)


@model(r"std::vec::Vec::<T, A>::capacity")
def m_cap(m, st, fn, a):
    return ret(slen(st, a[0]))


@model(r"<std::vec::Vec<T, A> as std::clone::Clone>::clone", r"std::slice::<impl \[T\]>::to_vec",
       r"<\[T\] as std::borrow::ToOwned>::to_owned", r"std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned",
       r"<T as std::slice::<impl \[T\]>::to_vec_in::ConvertVec>::to_vec")
def m_vclone(m, st, fn, a):
    v = st.load(a[0])
    p = a[0]
    if p.sl is not None and isinstance(v, Agg):
        (s, n) = p.sl
        if not s.t and not n.t:
            return ret(Agg(None, v.f[s.c:s.c + n.c]))
        raise Unsupported("to_vec")
    return ret(v)


@model(r"<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter")
def m_collect(m, st, fn, a):
    it = a[0]
    ity = fn.d["targs"][-1]
    return drain(m, st, fn, ity, Ptr(st.alloc(it)), (), None)


def drain(m, st, fn, ity, ip, acc, into):
    it = st.load(ip)
    if isinstance(it, Iter):
        if into is None and not it.a.t and not it.b.t:
            return ret(Agg(None, tuple(item(st, it, C(i)) for i in range(it.a.c, it.b.c))))
    nx = m.D.R.get("next", {}).get(str(ity))
    if nx is None:
        raise Unsupported("no next for " + m.T[ity]["name"])
    return ("call", m.F[nx], [ip], drain_r, (fn, ity, ip, acc))


def drain_r(m, st, d, r):
    fn, ity, ip, acc = d
    if r.v == 0:
        return ret(Agg(None, acc))
    if len(acc) > 64:
        raise Unsupported("long collect")
    nx = m.D.R["next"][str(ity)]
    return ("call", m.F[nx], [ip], drain_r, (fn, ity, ip, acc + (r.f[0],)))


@model(r"std::slice::<impl \[T\]>::(sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)",
       r"core::slice::<impl \[T\]>::(sort_unstable_by|sort_unstable_by_key)")
def m_sort(m, st, fn, a):
    p = a[0]
    n = slen(st, p)
    if n.t:
        raise Unsupported("sort of unknown length")
    bykey = "key" in fn.vpath
    fp = fkeep(m, st, fn, a[1])
    # insertion sort, stable
    return sort_step(m, st, (fn, p, fp, n.c, 1, 1, bykey, None))


def sort_step(m, st, d):
    fn, p, fp, n, i, j, bykey, k1 = d
    if i >= n:
        return ret(UNIT)
    if j == 0:
        return sort_step(m, st, (fn, p, fp, n, i + 1, i + 1, bykey, None))
    x, y = elem(p, C(j - 1)), elem(p, C(j))
    if bykey:
        return call_k(m, st, fn, fp, [x], sort_key1, d)
    return call_k(m, st, fn, fp, [x, y], sort_r, d)


def sort_key1(m, st, d, r):
    fn, p, fp, n, i, j, bykey, k1 = d
    return call_k(m, st, fn, fp, [elem(p, C(j))], sort_key2, (d, r))


def sort_key2(m, st, dd, r):
    d, k1 = dd
    return sort_r(m, st, d, Agg(2, ()) if st.truth(gt(k1, r)) else Agg(0, ()))


def sort_r(m, st, d, r):
    fn, p, fp, n, i, j, bykey, k1 = d
    if r.v == 2:
        x, y = elem(p, C(j - 1)), elem(p, C(j))
        a, b = st.load(x), st.load(y)
        st.store(x, b)
        st.store(y, a)
        return sort_step(m, st, (fn, p, fp, n, i, j - 1, bykey, None))
    return sort_step(m, st, (fn, p, fp, n, i + 1, i + 1, bykey, None))


# structural equality of element sequences through the element's own eq is done in MIR; the
# sequence walk itself is modelled
@model(r"std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq",
       r"<A as core::slice::cmp::SlicePartialEq<B>>::equal",
       r"core::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::eq")
def m_veceq(m, st, fn, a):
    n1, n2 = slen(st, a[0]), slen(st, a[1])
    if not st.truth(eq(n1, n2)):
        return ret(False)
    if n1.t:
        raise Unsupported("equality of unknown length")
    et = fn.d["targs"][0]
    return veceq_step(m, st, (et, a[0], a[1], 0, n1.c))


def veceq_step(m, st, d):
    et, x, y, i, n = d
    if i >= n:
        return ret(True)
    f = m.D.R.get("eq", {}).get(str(et))
    if f is None:
        raise Unsupported("no eq for " + m.T[et]["name"])
    return ("call", m.F[f], [elem(x, C(i)), elem(y, C(i))], veceq_r, d)


def veceq_r(m, st, d, r):
    et, x, y, i, n = d
    if not st.truth(r):
        return ret(False)
    return veceq_step(m, st, (et, x, y, i + 1, n))


# ---- Arc, Box --------------------------------------------------------------------------------------------------------
@model(r"std::sync::Arc::<T>::new", r"std::rc::Rc::<T>::new", r"std::boxed::Box::<T>::new")
def m_arc(m, st, fn, a):
    return ret(Ptr(st.alloc(a[0])))


@model(r"<std::(sync::Arc|rc::Rc|boxed::Box)<T(, A)?> as std::ops::(Deref|DerefMut)>::\w+", r"<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref",
       r"<std::(sync::Arc|rc::Rc)<T(, A)?> as std::clone::Clone>::clone")
def m_arcderef(m, st, fn, a):
    return ret(st.load(a[0]))


@model(r"std::sync::Arc::<T(, A)?>::ptr_eq", r"std::ptr::eq")
def m_ptreq(m, st, fn, a):
    x, y = a
    if "Arc" in fn.vpath:
        x, y = st.load(x), st.load(y)
    return ret(x.key == y.key and x.path == y.path)


@model(r"<std::(sync::Arc|rc::Rc|boxed::Box)<T(, A)?> as (std::cmp::PartialEq|alloc::.*EqIdent<.*>)>::(eq|ne)")
def m_arceq(m, st, fn, a):
    t = m.T[fn.d["targs"][0]]
    f = m.D.find("<%s as std::cmp::PartialEq>::eq" % t["name"])
    if f is None:
        raise Unsupported("no eq for " + t["name"])
    return ("call", f, [st.load(a[0]), st.load(a[1])], arceq_r, fn.vpath.endswith("ne"))


def arceq_r(m, st, d, r):
    return ret(neg(r) if d else r)


@model(r"std::alloc::.*|alloc::alloc::.*|<std::alloc::Global as std::clone::Clone>::clone")
def m_alloc(m, st, fn, a):
    if fn.vpath.endswith("clone"):
        return ret(UNIT)
    raise Unsupported(fn.vpath)


# ---- operating system ------------------------------------------------------------------------------------------------
@model(r"std::env::var(_os)?")
def m_env(m, st, fn, a):
    effect(st, "env")
    nm = st.load(a[0])
    tok = nm.n if isinstance(nm, Opq) else "?"
    v = Opq(("env", tok))
    os_ = fn.vpath.endswith("_os")                  # an Option, not a Result
    if st.truth(eq(inp("env:%s set" % (tok[1] if isinstance(tok, tuple) else tok), 0, 1), C(1))):
        return ret(Agg(1, (v,)) if os_ else Agg(0, (v,)))
    return ret(Agg(0, ()) if os_ else Agg(1, (Opq("VarError"),)))


def deep(st, v):
    while isinstance(v, Ptr):
        v = st.load(v)
    return v


@model(r"<T as std::string::ToString>::to_string", r"<str as std::string::SpecToString>::spec_to_string",
       r"<std::path::PathBuf as std::convert::From<.*>>::from", r"<std::string::String as std::convert::From<.*>>::from",
       r"std::path::Path::new", r"std::path::Path::to_path_buf", r"<str as .*ToOwned>::to_owned", r".*::<impl std::borrow::ToOwned for str>::to_owned")
def m_str(m, st, fn, a):
    v = deep(st, a[0])
    if fn.vpath == "std::path::Path::new":
        return ret(a[0])
    if isinstance(v, Lin) and fn.d.get("targs") and m.T[fn.d["targs"][0]]["k"] == "int":
        return ret(Opq(("text", ("show", "display", fn.d["targs"][0], v))) if v.t else Opq(("str", str(v.c))))
    return ret(v)


def text(st, v):
    """Text of a string whose content is known."""
    v = deep(st, v)
    if isinstance(v, Opq) and isinstance(v.n, tuple) and v.n and v.n[0] == "str" and isinstance(v.n[1], str):
        return v.n[1]
    if isinstance(v, Lin) and not v.t and 0 <= v.c < 0x110000:
        return chr(v.c)
    raise Unsupported("string with unknown content")


@model(r"core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)", r"<(std::string::String|str|&\w+) as std::cmp::PartialEq<(.*)>>::(eq|ne)",
       r"<std::string::String as std::cmp::PartialEq>::(eq|ne)", r"core::str::<impl str>::eq_ignore_ascii_case")
def m_streq(m, st, fn, a):
    x, y = text(st, a[0]), text(st, a[1])
    if fn.vpath.endswith("case"):
        x, y = x.lower(), y.lower()
    return ret((x == y) != fn.vpath.endswith("::ne"))


@model(r"core::str::<impl str>::(starts_with|ends_with|contains)(::<.*>)?")
def m_strtest(m, st, fn, a):
    x, y = text(st, a[0]), text(st, a[1])
    k = fn.vpath.split("<impl str>::")[1]
    return ret(x.startswith(y) if k[0] == "s" else x.endswith(y) if k[0] == "e" else y in x)


@model(r"core::str::<impl str>::(is_empty|len)", r"std::string::String::(is_empty|len)")
def m_strlen(m, st, fn, a):
    n = len(text(st, a[0]).encode())
    return ret(n == 0 if fn.vpath.endswith("empty") else C(n))


@model(r"<std::(path::PathBuf|string::String|ffi::OsString) as std::ops::Deref>::deref", r"<.* as std::convert::AsRef<std::path::Path>>::as_ref",
       r"std::path::PathBuf::as_path", r"std::string::String::as_str", r"std::path::Path::display", r"std::path::Path::as_os_str", r"std::path::Path::(as_ref|to_string_lossy)")
def m_pderef(m, st, fn, a):
    return ret(a[0] if isinstance(a[0], Ptr) else Ptr(st.alloc(a[0])))


@model(r"std::path::Path::join")
def m_join(m, st, fn, a):
    x, y = deep(st, a[0]), deep(st, a[1])
    return ret(Opq(("join", getattr(x, "n", "?"), getattr(y, "n", "?"))))


@model(r"std::path::PathBuf::push")
def m_pushp(m, st, fn, a):
    x, y = st.load(a[0]), deep(st, a[1])
    st.store(a[0], Opq(("join", getattr(x, "n", "?"), getattr(y, "n", "?"))))
    return ret(UNIT)


@model(r"std::fs::read")
def m_read_file(m, st, fn, a):
    effect(st, "fs")
    n = getattr(deep(st, a[0]), "n", "?")
    if getattr(m.models.env, "io", False) and not st.truth(eq(inp("file %s readable" % flat_path(n), 0, 1), C(1))):
        effect(st, ("unreadable", flat_path(n)))
        return ret(Agg(1, (Opq("io error"),)))
    return ret(Agg(0, (Opq(("file", n)),)))


def flat_path(n):
    """Text of a path token; $NAME for the value of an environment variable."""
    if isinstance(n, tuple) and n and n[0] == "join":
        return flat_path(n[1]) + "/" + flat_path(n[2])
    if isinstance(n, tuple) and n and n[0] == "str":
        return n[1]
    if isinstance(n, tuple) and n and n[0] == "cat":
        return "".join(map(flat_path, n[1:]))
    if isinstance(n, tuple) and n and n[0] == "env":
        return "$" + flat_path(n[1])
    return "?"


@model(r"zoneinfo_compiled::parse")
def m_parse(m, st, fn, a):
    tok = getattr(deep(st, a[0]), "n", "?")
    path = flat_path(tok[1]) if isinstance(tok, tuple) and tok[0] == "file" else "?"
    env = m.models.env
    if env is None:
        raise Unsupported("no environment for parse")
    if getattr(env, "io", False) and not st.truth(eq(inp("file %s well-formed" % path, 0, 1), C(1))):
        effect(st, ("malformed", path))
        return ret(Agg(1, (Opq("parse error"),)))
    return ret(env.parse(m, st, fn, path))


@model(r"<zoneinfo_compiled::\w+ as std::cmp::PartialEq>::eq", r"zoneinfo_compiled::.*::eq")
def m_tzeq(m, st, fn, a):
    x, y = st.load(a[0]), st.load(a[1])
    if any(isinstance(v, Opq) and isinstance(v.n, tuple) and v.n[0] == "tz" and "?" in v.n[1] for v in (x, y)):
        raise Unsupported("path of a zone file not determined")
    if x == y:
        return ret(True)
    return ret(st.truth(eq(inp("%s and %s are alike" % tuple(sorted((repr(x), repr(y)))), 0, 1), C(1))))


# ---- system time -------------------------------------------------------------------------------------------------------
def leaves(v):
    if isinstance(v, Lin):
        return [v]
    if isinstance(v, Agg):
        return [y for x in v.f for y in leaves(x)]
    return []


def st_ns(st, v):
    l = leaves(deep(st, v))
    if len(l) != 2:
        raise Unsupported("system time value %r" % (deep(st, v),))
    return l[0] * 10 ** 9 + l[1]


def mk_duration(m, st, ns):
    q = m.div(st, ns, 10 ** 9)
    return Agg(None, (q, Agg(None, (ns - q * 10 ** 9,))))


def mk_systime(sec, ns):
    return Agg(None, (Agg(None, (Agg(None, (sec, Agg(None, (ns,)))),)),))


@model(r"std::time::SystemTime::now")
def m_now(m, st, fn, a):
    effect(st, "clock")
    return ret(mk_systime(inp("now.sec", -(1 << 37), 1 << 47), inp("now.nsec", 0, 999999999)))


@model(r"std::time::SystemTime::duration_since")
def m_dsince(m, st, fn, a):
    d = st_ns(st, a[0]) - st_ns(st, a[1])
    if st.truth(ge(d, ZERO)):
        return ret(Agg(0, (mk_duration(m, st, d),)))
    return ret(Agg(1, (Agg(None, (mk_duration(m, st, -d),)),)))


@model(r"std::time::SystemTimeError::duration")
def m_sted(m, st, fn, a):
    return ret(st.load(a[0]).f[0])


@model(r"<std::time::SystemTime as std::cmp::(PartialOrd|Ord|PartialEq)>::(partial_cmp|cmp|lt|le|gt|ge|eq)")
def m_stcmp(m, st, fn, a):
    x, y = st_ns(st, a[0]), st_ns(st, a[1])
    op = fn.vpath.rsplit("::", 1)[1]
    if op in ("lt", "le", "gt", "ge", "eq"):
        return ret({"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq}[op](x, y))
    r = Agg(0, ()) if st.truth(lt(x, y)) else Agg(1, ()) if st.truth(eq(x, y)) else Agg(2, ())
    return ret(r if op == "cmp" else Agg(1, (r,)))


@model(r"std::time::Duration::(as_secs|subsec_nanos|as_nanos|subsec_micros|subsec_millis|as_millis|as_micros)")
def m_dur(m, st, fn, a):
    s, n = leaves(deep(st, a[0]))
    op = fn.vpath.rsplit("::", 1)[1]
    t = s * 10 ** 9 + n
    if op == "as_secs":
        return ret(s)
    if op == "subsec_nanos":
        return ret(n)
    if op == "as_nanos":
        return ret(t)
    if op == "subsec_micros":
        return ret(m.div(st, n, 1000))
    if op == "subsec_millis":
        return ret(m.div(st, n, 10 ** 6))
    if op == "as_micros":
        return ret(m.div(st, t, 1000))
    return ret(m.div(st, t, 10 ** 6))


@model(r"libc::.*gmtime_r")
def m_gmtime(m, st, fn, a):
    effect(st, "gmtime")
    env = m.models.env
    if env is None:
        raise Unsupported("gmtime_r")
    return ret(env.gmtime(m, st, fn, a))


# ---- num_rational: exact rational arithmetic -----------------------------------------------------------------------
# A ratio is a pair (numerator, positive denominator) of exact integers, not necessarily in lowest terms. Each
# operation leaves the event "ratio": its fixed-width original may overflow where the exact one does not.
def _content(*ls):
    g = 0
    for L in ls:
        g = math.gcd(g, L.c)
        for _, k in L.t:
            g = math.gcd(g, k)
    return g


def _exact(L, g):
    return Lin(L.c // g, tuple((a, k // g) for a, k in L.t))


def mkratio(st, n, d):
    if not st.truth(ne(d, ZERO)):
        raise Panic("panic", "denominator == 0")
    if not st.truth(ge(d, C(1))):
        n, d = -n, -d
    g = _content(n, d)
    if g > 1:
        n, d = _exact(n, g), _exact(d, g)
    return Agg(None, (n, d))


def pdiv(m, st, n, d):
    """Floor of n / d for d > 0."""
    if st.truth(ge(n, ZERO)):
        return m.tdiv(st, n, d)
    return -m.tdiv(st, d - n - 1, d)


def pcdiv(m, st, n, d):
    return -pdiv(m, st, -n, d)


def rload(st, v):
    v = loadi(st, v)
    return v.f if isinstance(v, Agg) else (v, ONE)


ONE = C(1)


@model(r"num_rational::Ratio::<\w+>::(new|new_raw)")
def m_ratio_new(m, st, fn, a):
    effect(st, "ratio")
    return ret(mkratio(st, a[0], a[1]))


@model(r"num_rational::Ratio::<\w+>::from_integer", r"<num_rational::Ratio<\w+> as std::convert::From<\w+>>::from")
def m_ratio_int(m, st, fn, a):
    return ret(Agg(None, (a[0], ONE)))


@model(r"<num_rational::Ratio<\w+> as num_traits::(Zero|One)>::(zero|one)")
def m_ratio_const(m, st, fn, a):
    return ret(Agg(None, (ZERO if fn.vpath.endswith("zero") else ONE, ONE)))


def ratio_op(m, st, op, x, y):
    (p, q), (r, s) = rload(st, x), rload(st, y)
    if op == "add":
        return mkratio(st, mul(p, s) + mul(r, q), mul(q, s))
    if op == "sub":
        return mkratio(st, mul(p, s) - mul(r, q), mul(q, s))
    if op == "mul":
        return mkratio(st, mul(p, r), mul(q, s))
    return mkratio(st, mul(p, s), mul(q, r))


@model(r"<&?(?:'_ )?num_rational::Ratio<\w+> as std::ops::\w+(<.*>)?>::(add|sub|mul|div)")
def m_ratio_op(m, st, fn, a):
    effect(st, "ratio")
    return ret(ratio_op(m, st, fn.vpath.rsplit("::", 1)[1], *a))


@model(r"<num_rational::Ratio<\w+> as num_traits::Checked\w+>::checked_(add|sub|mul|div)")
def m_ratio_checked(m, st, fn, a):
    op = fn.vpath.rsplit("_", 1)[1]
    effect(st, "checked ratio")
    if op == "div" and not st.truth(ne(rload(st, a[1])[0], ZERO)):
        return none()
    if st.truth(eq(havoc(0, 1, "intermediate overflow"), ZERO)):
        return some(ratio_op(m, st, op, *a))
    effect(st, "checked overflow")
    return none()


@model(r"<num_rational::Ratio<\w+> as std::ops::Neg>::neg", r"num_rational::Ratio::<\w+>::(floor|ceil|trunc|to_integer|fract|recip|reduced|is_integer)")
def m_ratio_un(m, st, fn, a):
    op = fn.vpath.rsplit("::", 1)[1]
    n, d = rload(st, a[0])
    effect(st, "ratio")
    if op == "neg":
        return ret(Agg(None, (-n, d)))
    if op == "reduced":
        return ret(Agg(None, (n, d)))
    if op == "recip":
        return ret(mkratio(st, d, n))
    if op in ("floor", "ceil"):
        return ret(Agg(None, ((pdiv if op == "floor" else pcdiv)(m, st, n, d), ONE)))
    q = m.tdiv(st, n, d)
    if op == "trunc":
        return ret(Agg(None, (q, ONE)))
    if op == "to_integer":
        return ret(q)
    if op == "is_integer":
        return ret(eq(mul(q, d) - n, ZERO))
    return ret(Agg(None, (n - mul(q, d), d)))


@model(r"<num_rational::Ratio<\w+> as std::cmp::(PartialOrd|Ord|PartialEq)(<.*>)?>::\w+")
def m_ratio_cmp(m, st, fn, a):
    op = fn.vpath.rsplit("::", 1)[1]
    (p, q), (r, s) = rload(st, a[0]), rload(st, a[1])
    d = mul(p, s) - mul(r, q)
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        return ret({"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": ne}[op](d, ZERO))
    v = 0 if st.truth(lt(d, ZERO)) else 1 if st.truth(eq(d, ZERO)) else 2
    return some(Agg(v, ())) if op == "partial_cmp" else ret(Agg(v, ()))


@model(r"num_rational::Ratio::<\w+>::.*", r"<num_rational::Ratio<\w+> as .*", r"num_rational::.*")
def m_ratio_other(m, st, fn, a):
    raise Unsupported("ratio operation " + fn.name)


# ---- floating point ----------------------------------------------------------------------------------------------
FOPS = {"fabs": "abs", "minnum": "min", "maxnum": "max", "minimum_number_nsz": "min",
        "maximum_number_nsz": "max", "round_ties_even": "rint"}


@model(r"(core|std)::intrinsics::(floor|ceil|trunc|round|round_ties_even|rint|fabs|sqrt|copysign|minnum|maxnum|minimum_number_nsz_|maximum_number_nsz_)_?f(32|64)",
       r"(core|std)::intrinsics::fabs",
       r"(core|std)::f(?:32|64)::(<impl f(?:32|64)>::|math::)?(floor|ceil|trunc|round|round_ties_even|abs|sqrt|copysign|rem_euclid|div_euclid|fract|signum|mul_add|min|max)")
def m_float(m, st, fn, a):
    k = re.sub(r"_?f?(32|64)?\Z", "", fn.vpath.rsplit("::", 1)[1])
    k = FOPS.get(k, k)
    if k == "mul_add" and a[0].w != 64:
        raise Unsupported("mul_add of f32")
    return ret(flt.op(m, st, k, *a))


@model(r"(core|std)::intrinsics::powif(32|64)", r"(core|std)::f(?:32|64)::(<impl f(?:32|64)>::|math::)?powi")
def m_powi(m, st, fn, a):
    if not a[1].const() or abs(a[1].c) > 64:
        raise Unsupported("powi with an unknown exponent")
    return ret(flt.op(m, st, "powi", a[0], flt.const(float(a[1].c), a[0].w)))


@model(r"(core|std)::intrinsics::float_to_int_unchecked")
def m_f2iu(m, st, fn, a):
    return ret(m.cast(st, "FloatToInt", a[0], fn.d["targs"][1], None))


@model(r"<std::boxed::Box<F, A> as std::ops::Fn(Once|Mut)?<Args>>::call(_once|_mut)?")
def m_boxcall(m, st, fn, a):
    p = a[0]
    if isinstance(p, Ptr) and p.sl is None and not fn.vpath.endswith("_once"):
        p = st.load(p)
    if not isinstance(p, Ptr) or p.sl is None or p.sl[0] != "dyn":
        return None
    f, al = m.dyncall(st, p, a[1].f)
    return ("call", f, al, ret_r, None)


def ret_r(m, st, d, r):
    return ret(r)

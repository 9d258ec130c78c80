"""Models of further library parts: shared state (locks, cells, once cells, thread locals, atomics), maps, texts, files."""
import re
from num import *
from interp import *
from models import model, ret, some, none, effect, deep, text, call_k, fkeep, flat_path, item, MODELS

OK = lambda v: Agg(0, (v,))


def sub(p, *path):
    return Ptr(p.key, p.path + path)


def call_fv(m, st, fv, args, resume, data):
    """Call of a function pointer or of a closure value of type t."""
    f, al = m.fnptr(st, fv, args)
    return ("call", f, al, resume, data)


def back(m, st, d, r):
    return ret(r)


# ---- locks and cells: Agg(None, (content,)) -------------------------------------------------------------
SY = r"std::sync::(?:poison::|nonpoison::)?(?:mutex::|rwlock::)?"
CELLS = r"(" + SY + r"(Mutex|RwLock)|std::cell::(RefCell|Cell|UnsafeCell))::<T>::"


@model(CELLS + "new", r"<(std::sync::(Mutex|RwLock)|std::cell::(RefCell|Cell))<T> as std::convert::From<T>>::from")
def x_cell(m, st, fn, a):
    return ret(Agg(None, (a[0],)))


def default_of(m, st, t):
    """Default value of type t."""
    x = m.T[t]
    if x["k"] == "int":
        return ZERO
    if x["k"] == "bool":
        return False
    if x["k"] == "tuple":
        return Agg(None, tuple(default_of(m, st, y) for y in x["f"]))
    if x["k"] == "adt" and not x["path"].startswith("momentous"):
        n = x["path"].rsplit("::", 1)[1]
        if n == "Option":
            return Agg(0, ())
        if n in ("Vec", "HashMap", "BTreeMap"):
            return UNIT
        if n == "String":
            return Opq(("str", ""))
        if n in ("OnceLock", "OnceCell"):
            return Agg(None, (Agg(0, ()),))
        if n in ("Mutex", "RwLock", "RefCell", "Cell", "Atomic"):
            return Agg(None, (default_of(m, st, x["args"][0]),))
    f = m.D.find("<%s as std::default::Default>::default" % x["name"])
    if f is not None and f.bb is not None:
        o = m.run(f, [], State())
        if len(o) == 1 and o[0].kind == "ret" and not any(isinstance(v, Ptr) for v in o[0].st.mem.values()):
            return o[0].val
    raise Unsupported("default of " + x["name"])


@model(r"<(std|alloc|core)::.* as std::default::Default>::default")
def x_default(m, st, fn, a):
    t = m.D.byname.get(fn.name[1:fn.name.rindex(" as std::default")])
    if t is None:
        raise Unsupported(fn.name)
    return ret(default_of(m, st, t))


@model(CELLS + "into_inner")
def x_into(m, st, fn, a):
    v = a[0].f[0]
    return ret(OK(v) if "sync" in fn.vpath else v)


@model(SY + r"(Mutex|RwLock)::<T>::(lock|read|write|get_mut)")
def x_lock(m, st, fn, a):
    if fn.vpath.endswith("get_mut"):
        return ret(OK(sub(a[0], 0)))
    hold(m, st, sub(a[0], 0))
    return ret(OK(Agg(None, (sub(a[0], 0),))))


def hold(m, st, p):
    if m.between is not None:
        st.held = st.held | {p}


@model(r"std::cell::RefCell::<T>::(borrow|borrow_mut)")
def x_borrow(m, st, fn, a):
    return ret(Agg(None, (sub(a[0], 0),)))


@model(r"std::cell::(RefCell|Cell|UnsafeCell)::<T>::(get_mut|as_ptr|raw_get)", r"std::cell::UnsafeCell::<T>::get")
def x_getmut(m, st, fn, a):
    return ret(sub(a[0], 0))


@model(r"<(std::sync::(?:\w+::)*\w*Guard|std::cell::Ref(?:Mut)?)<'_, T> as std::ops::(Deref|DerefMut)>::\w+",
       r"<(std::sync::(?:\w+::)*\w*Guard|std::cell::Ref(?:Mut)?)<'\w+, T> as std::ops::(Deref|DerefMut)>::\w+")
def x_guard(m, st, fn, a):
    return ret(st.load(a[0]).f[0])


@model(r"std::sync::(poison::)?PoisonError::<T>::(into_inner|get_ref|get_mut)")
def x_poison(m, st, fn, a):
    raise Unsupported("poisoned lock")


@model(r"std::cell::Cell::<T>::(get|set|replace|take|swap)", r"std::cell::RefCell::<T>::(replace|take)")
def x_cellop(m, st, fn, a):
    k = fn.vpath.rsplit("::", 1)[1]
    p = sub(a[0], 0)
    v = st.load(p)
    if k == "get":
        return ret(v)
    if k == "set":
        st.store(p, a[1])
        return ret(UNIT)
    if k == "replace":
        st.store(p, a[1])
        return ret(v)
    raise Unsupported(fn.vpath)


# ---- once cells: Agg(None, (Option,)) --------------------------------------------------------------------
ONCE = r"std::(?:sync::(?:once_lock::)?OnceLock|cell::(?:once::)?OnceCell)::<T>::"


@model(ONCE + "new")
def x_once(m, st, fn, a):
    return ret(Agg(None, (Agg(0, ()),)))


@model(ONCE + "(get|get_mut)")
def x_once_get(m, st, fn, a):
    return some(sub(a[0], 0, 0)) if st.load(sub(a[0], 0)).v == 1 else none()


@model(ONCE + "set")
def x_once_set(m, st, fn, a):
    if st.load(sub(a[0], 0)).v == 1:
        return ret(Agg(1, (a[1],)))
    st.store(sub(a[0], 0), Agg(1, (a[1],)))
    return ret(OK(UNIT))


@model(ONCE + "get_or_init")
def x_once_init(m, st, fn, a):
    if st.load(sub(a[0], 0)).v == 1:
        return ret(sub(a[0], 0, 0))
    hold(m, st, sub(a[0], 0))
    return call_k(m, st, fn, fkeep(m, st, fn, a[1]), [], once_r, a[0])


def once_r(m, st, p, r):
    m.release(st, sub(p, 0))
    st.store(sub(p, 0), Agg(1, (r,)))
    return ret(sub(p, 0, 0))


# lazy cells: Agg(None, (Option, initialiser))
LAZY = r"std::(?:sync::(?:lazy_lock::)?LazyLock|cell::(?:lazy::)?LazyCell)"


@model(LAZY + r"::<T, F>::new")
def x_lazy(m, st, fn, a):
    return ret(Agg(None, (Agg(0, ()), a[0])))


@model(r"<" + LAZY + r"<T, F> as std::ops::(Deref|DerefMut)>::\w+", LAZY + r"::<T, F>::(force|force_mut)")
def x_force(m, st, fn, a):
    v = st.load(a[0])
    if v.f[0].v == 1:
        return ret(sub(a[0], 0, 0))
    hold(m, st, sub(a[0], 0))
    if isinstance(v.f[1], FnV):
        return call_fv(m, st, v.f[1], [], once_r, a[0])
    return call_k(m, st, fn, fkeep(m, st, fn, v.f[1]), [], once_r, a[0])


# ---- thread locals (of the one thread looked at) ----------------------------------------------------------
LK = r"std::thread::(?:local::)?LocalKey::<(?:T|std::cell::\w+<T>)>::"


@model(LK + "(new)")
def x_key(m, st, fn, a):
    return ret(Agg(None, (a[0],)))


@model(LK + "(with|try_with|with_borrow|with_borrow_mut|get|set|take|replace)")
def x_with(m, st, fn, a):
    v = st.load(a[0])
    f = v.f[0] if isinstance(v, Agg) else v
    if not isinstance(f, FnV):
        raise Unsupported("thread local")
    return call_fv(m, st, f, [Agg(0, ())], with_r, (fn, a))


def with_r(m, st, d, p):
    fn, a = d
    k = fn.vpath.rsplit("::", 1)[1]
    if k == "get":
        return ret(st.load(sub(p, 0)))
    if k in ("set", "replace"):
        old = st.load(sub(p, 0))
        st.store(sub(p, 0), a[1])
        return ret(UNIT if k == "set" else old)
    if k == "take":
        raise Unsupported(fn.vpath)
    if "borrow" in k:
        p = sub(p, 0)
    return call_k(m, st, fn, fkeep(m, st, fn, a[1]), [p], try_r if k == "try_with" else back, None)


def try_r(m, st, d, r):
    return ret(OK(r))


STO = r"std::(?:thread::local_impl|sys::thread_local::\w+(?:::\w+)?)::(?:Lazy|Eager|lazy::|eager::)?Storage::<T(?:, \w+)?>::"


@model(STO + "new", r"std::sys::thread_local::.*Storage::<.*>::new")
def x_sto(m, st, fn, a):
    return ret(Agg(None, (Agg(1, (a[0],)) if a else Agg(0, ()),)))


@model(STO + "(get|get_or_init|get_or_init_slow)", r"std::sys::thread_local::.*Storage::<.*>::(get|get_or_init)")
def x_stoget(m, st, fn, a):
    if st.load(sub(a[0], 0)).v == 1:
        return ret(sub(a[0], 0, 0))
    return call_k(m, st, fn, fkeep(m, st, fn, a[2]), [], once_r, a[0])


# ---- atomics (one thread) ------------------------------------------------------------------------------------
ATOM = r"std::sync::atomic::Atomic::<(\w+)>::"


@model(ATOM + "new")
def x_atom(m, st, fn, a):
    return ret(Agg(None, (a[0],)))


@model(ATOM + r"(load|store|swap|fetch_add|fetch_sub|fetch_max|fetch_min|into_inner|compare_exchange|compare_exchange_weak)")
def x_atomop(m, st, fn, a):
    t, k = re.match(ATOM + r"(\w+)\Z", fn.vpath).groups()
    if k == "into_inner":
        return ret(a[0].f[0])
    p = sub(a[0], 0)
    v = st.load(p)
    if k == "load":
        return ret(v)
    if k in ("store", "swap"):
        st.store(p, a[1])
        return ret(UNIT if k == "store" else v)
    if k.startswith("compare"):
        if isinstance(v, bool) or isinstance(v, tuple):
            raise Unsupported(fn.vpath)
        if st.truth(eq(v, a[1])):
            st.store(p, a[2])
            return ret(OK(v))
        return ret(Agg(1, (v,)))
    ty = m.D.byname.get(t)
    if ty is None:
        raise Unsupported(fn.vpath)
    if k in ("fetch_add", "fetch_sub"):
        n = m.wrap(st, v + a[1] if k == "fetch_add" else v - a[1], ty)
    else:
        n = v if st.truth(ge(v, a[1]) if k == "fetch_max" else le(v, a[1])) else a[1]
    st.store(p, n)
    return ret(v)


# ---- vec![..] ------------------------------------------------------------------------------------------------
@model(r"std::boxed::Box::<T>::new_uninit", r"std::boxed::box_new_uninit", r"std::boxed::Box::<MaybeUninit<T>>::new_uninit")
def x_boxuninit(m, st, fn, a):
    return ret(Ptr(st.alloc(None)))


@model(r"std::boxed::box_assume_init_into_vec_unsafe", r"(std|alloc)::slice::<impl \[T\]>::into_vec")
def x_intovec(m, st, fn, a):
    v = st.load(a[0])
    if "box_assume" in fn.vpath:
        v = v.f[1].f[0]
    return ret(Agg(None, v.f))


# ---- maps and sets: Agg(None, ((key, value), ...)) --------------------------------------------------------
MAP = r"std::collections::(?:hash_map::|btree_map::|hash::map::|btree::map::)?(?:HashMap|BTreeMap)"


def known(n):
    return isinstance(n, tuple) and len(n) == 2 and n[0] == "str" and isinstance(n[1], str)


def same(m, st, x, y):
    """Whether two keys are equal (splits the state where that is open)."""
    x, y = deep(st, x), deep(st, y)
    if isinstance(x, Opq) and isinstance(y, Opq):
        if x.n == y.n:
            return True
        if known(x.n) and known(y.n):
            return False
        raise Unsupported("equality of unknown texts")
    if isinstance(x, Lin) and isinstance(y, Lin):
        return st.truth(eq(x, y))
    if isinstance(x, bool) and isinstance(y, bool):
        return x == y
    if isinstance(x, Agg) and isinstance(y, Agg) and len(x.f) == len(y.f):
        return x.v == y.v and all(same(m, st, a, b) for a, b in zip(x.f, y.f))
    raise Unsupported("equality of keys")


def find(m, st, p, key):
    v = st.load(p)
    if not isinstance(v, Agg):
        raise Unsupported("map with unknown content")
    for i, e in enumerate(v.f):
        if same(m, st, e.f[0], key):
            return i
    return None


@model(MAP + r"::<.*>::(new|with_capacity|with_hasher)", r"std::hash::RandomState::new", r"std::hash::(?:random::)?RandomState::new")
def x_map(m, st, fn, a):
    return ret(UNIT)


@model(MAP + r"::<.*>::(get|get_mut|contains_key|get_key_value)")
def x_mapget(m, st, fn, a):
    k = fn.vpath.rsplit("::", 1)[1]
    i = find(m, st, a[0], a[1])
    if k == "contains_key":
        return ret(i is not None)
    if k == "get_key_value":
        raise Unsupported(fn.vpath)
    return none() if i is None else some(sub(a[0], i, 1))


@model(r"<" + MAP + r"<.*> as std::ops::Index<.*>>::index")
def x_mapidx(m, st, fn, a):
    i = find(m, st, a[0], a[1])
    if i is None:
        raise Panic("panic", "no entry found for key")
    return ret(sub(a[0], i, 1))


@model(MAP + r"::<.*>::insert")
def x_mapins(m, st, fn, a):
    i = find(m, st, a[0], a[1])
    v = st.load(a[0])
    if i is None:
        st.store(a[0], Agg(None, v.f + (Agg(None, (a[1], a[2])),)))
        return none()
    old = v.f[i].f[1]
    st.store(sub(a[0], i, 1), a[2])
    return some(old)


@model(MAP + r"::<.*>::remove")
def x_maprem(m, st, fn, a):
    i = find(m, st, a[0], a[1])
    if i is None:
        return none()
    v = st.load(a[0])
    st.store(a[0], Agg(None, v.f[:i] + v.f[i + 1:]))
    return some(v.f[i].f[1])


@model(MAP + r"::<.*>::(len|is_empty|clear)")
def x_maplen(m, st, fn, a):
    n = len(st.load(a[0]).f)
    if fn.vpath.endswith("clear"):
        st.store(a[0], UNIT)
        return ret(UNIT)
    return ret(C(n) if fn.vpath.endswith("len") else n == 0)


@model(r"<" + MAP + r"<.*> as std::iter::FromIterator<.*>>::from_iter", r"<" + MAP + r"<.*> as std::convert::From<\[.*\]>>::from")
def x_mapfrom(m, st, fn, a):
    if fn.vpath.endswith("::from"):
        return mapof(m, st, a[0].f)
    return pull(m, st, (fn.d["targs"][-1], Ptr(st.alloc(a[0])), ()), None)


def mapof(m, st, items):
    p = Ptr(st.alloc(UNIT))
    for e in items:
        i = find(m, st, p, e.f[0])
        v = st.load(p)
        if i is None:
            st.store(p, Agg(None, v.f + (e,)))
        else:
            st.store(sub(p, i, 1), e.f[1])
    return ret(st.load(p))


def pull(m, st, d, r):
    ity, ip, acc = d
    if r is not None:
        if r.v == 0:
            return mapof(m, st, acc)
        acc = acc + (r.f[0],)
        if len(acc) > 64:
            raise Unsupported("long collect")
    nx = m.D.R.get("next", {}).get(str(ity))
    it = st.load(ip)
    if isinstance(it, Iter) and not it.a.t and not it.b.t:
        return mapof(m, st, acc + tuple(item(st, it, C(i)) for i in range(it.a.c, it.b.c)))
    if nx is None:
        raise Unsupported("no next for " + m.T[ity]["name"])
    return ("call", m.F[nx], [ip], pull, (ity, ip, acc))


# entry: variant as in std is not looked at; (map pointer, key)
ENT = r"std::collections::(?:hash_map|btree_map)::Entry::<.*>::"


@model(MAP + r"::<.*>::entry")
def x_entry(m, st, fn, a):
    return ret(Opq(("entry", a[0], a[1])))


@model(ENT + r"(or_insert|or_insert_with)")
def x_orins(m, st, fn, a):
    _, p, key = a[0].n
    i = find(m, st, p, key)
    if i is not None:
        return ret(sub(p, i, 1))
    if fn.vpath.endswith("with"):
        return call_k(m, st, fn, fkeep(m, st, fn, a[1]), [], ent_r, (p, key))
    return ent_r(m, st, (p, key), a[1])


def ent_r(m, st, d, r):
    p, key = d
    v = st.load(p)
    st.store(p, Agg(None, v.f + (Agg(None, (key, r)),)))
    return ret(sub(p, len(v.f), 1))


# ---- texts -----------------------------------------------------------------------------------------------------
STR = r"core::str::<impl str>::"


def lit(st, s):
    return Ptr(st.alloc(Opq(("str", s))), (), (C(0), C(len(s.encode()))))


@model(STR + r"(split|rsplit|splitn|rsplitn|split_terminator|split_inclusive|lines|split_whitespace)(::<.*>)?")
def x_split(m, st, fn, a):
    k = re.match(STR + r"(\w+)", fn.vpath).group(1)
    s = text(st, a[0])
    if k in ("splitn", "rsplitn"):
        n, sep = a[1], text(st, a[2])
        if n.t:
            raise Unsupported(fn.vpath)
        n = n.c
        p = [] if n == 0 else s.split(sep, n - 1) if k == "splitn" else s.rsplit(sep, n - 1)[::-1]
    elif k == "lines":
        p = s.splitlines()
    elif k == "split_whitespace":
        p = s.split()
    else:
        sep = text(st, a[1])
        p = s.split(sep)
        if k == "split_inclusive":
            p = [x + sep for x in p[:-1]] + p[-1:]
        if k in ("split_terminator", "split_inclusive") and p and p[-1] == "":
            p.pop()
        if k == "rsplit":
            p.reverse()
    key = st.alloc(Agg(None, tuple(lit(st, x) for x in p)))
    return ret(Iter(Ptr(key), ZERO, C(len(p)), "val"))


@model(STR + r"(split_once|rsplit_once|strip_prefix|strip_suffix|find|rfind)(::<.*>)?")
def x_once2(m, st, fn, a):
    k = re.match(STR + r"(\w+)", fn.vpath).group(1)
    s, y = text(st, a[0]), text(st, a[1])
    if k in ("find", "rfind"):
        i = s.find(y) if k == "find" else s.rfind(y)
        return none() if i < 0 else some(C(len(s[:i].encode())))
    if k == "strip_prefix":
        return some(lit(st, s[len(y):])) if s.startswith(y) else none()
    if k == "strip_suffix":
        return some(lit(st, s[:len(s) - len(y)])) if s.endswith(y) else none()
    if y not in s:
        return none()
    x, z = s.split(y, 1) if k == "split_once" else s.rsplit(y, 1)
    return some(Agg(None, (lit(st, x), lit(st, z))))


@model(STR + r"(trim|trim_start|trim_end|trim_matches|trim_start_matches|trim_end_matches)(::<.*>)?")
def x_trim(m, st, fn, a):
    k = re.match(STR + r"(\w+)", fn.vpath).group(1)
    s = text(st, a[0])
    if "matches" in k:
        y = text(st, a[1])
        while y and k != "trim_end_matches" and s.startswith(y):
            s = s[len(y):]
        while y and k != "trim_start_matches" and s.endswith(y):
            s = s[:-len(y)]
    else:
        s = s.strip() if k == "trim" else s.lstrip() if k == "trim_start" else s.rstrip()
    return ret(lit(st, s))


@model(r"(core|alloc|std)::str::<impl str>::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|replace|repeat|to_owned|into_string|into_boxed_str)(::<.*>)?",
       r"std::string::String::(to_owned|into_boxed_str|from_utf8_lossy)")
def x_case(m, st, fn, a):
    k = re.search(r"::(\w+)(::<.*>)?\Z", fn.vpath).group(1)
    s = text(st, a[0])
    if "lower" in k:
        s = s.lower()
    elif "upper" in k:
        s = s.upper()
    elif k == "replace":
        s = s.replace(text(st, a[1]), text(st, a[2]))
    elif k == "repeat":
        if a[1].t:
            raise Unsupported(fn.vpath)
        s = s * a[1].c
    return ret(Opq(("str", s)))


@model(r"std::string::String::(new|with_capacity)")
def x_string(m, st, fn, a):
    return ret(Opq(("str", "")))


@model(r"std::string::String::(push_str|push|insert_str)", r"<std::string::String as std::ops::AddAssign<&str>>::add_assign",
       r"<std::string::String as std::ops::Add<&str>>::add")
def x_push(m, st, fn, a):
    if fn.vpath.endswith("insert_str"):
        raise Unsupported(fn.vpath)
    v, w = deep(st, a[0]), deep(st, a[1])
    if isinstance(w, Lin):
        w = Opq(("str", text(st, w)))
    if not isinstance(v, Opq) or not isinstance(w, Opq):
        raise Unsupported(fn.vpath)
    n = ("str", v.n[1] + w.n[1]) if known(v.n) and known(w.n) else ("cat", v.n, w.n)
    if fn.vpath.endswith("::add"):
        return ret(Opq(n))
    st.store(a[0], Opq(n))
    return ret(UNIT)


@model(r"(std|alloc)::str::<impl std::slice::(Join|Concat)<.*> for \[(std::string::String|&str|S|V)\]>::(join|concat)")
def x_join(m, st, fn, a):
    p, v = a[0], st.load(a[0])
    if not isinstance(v, Agg):
        raise Unsupported(fn.vpath)
    fs = v.f
    if p.sl is not None:
        if p.sl[0].t or p.sl[1].t:
            raise Unsupported(fn.vpath)
        fs = fs[p.sl[0].c:p.sl[0].c + p.sl[1].c]
    out = []
    for i, x in enumerate(fs):
        if i and len(a) > 1:
            out.append(deep(st, a[1]))
        out.append(deep(st, x))
    if not all(isinstance(x, Opq) for x in out):
        raise Unsupported(fn.vpath)
    if all(known(x.n) for x in out):
        return ret(Opq(("str", "".join(x.n[1] for x in out))))
    return ret(Opq(("cat",) + tuple(x.n for x in out)))


@model(r"<std::string::String as std::clone::Clone>::clone", r"<std::path::PathBuf as std::clone::Clone>::clone", r"std::path::Path::to_owned",
       r"<std::path::Path as std::borrow::ToOwned>::to_owned", r"<std::string::String as std::borrow::Borrow<str>>::borrow", r"<std::string::String as std::convert::AsRef<str>>::as_ref")
def x_sclone(m, st, fn, a):
    if fn.vpath.endswith(("borrow", "as_ref")):
        return ret(a[0])
    return ret(deep(st, a[0]))


@model(r"<std::(?:str|core::str|str::iter)\w*::(?:iter::)?\w+<.*> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back|last|count|nth|collect)",
       r"<(?:std|core)::str::(?:\w+::)*\w+<.*> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back|last|count|nth)")
def x_snext(m, st, fn, a):
    k = fn.vpath.rsplit("::", 1)[1]
    it = st.load(a[0]) if isinstance(a[0], Ptr) else a[0]
    if not isinstance(it, Iter):
        raise Unsupported(fn.vpath)
    n = it.b.c - it.a.c
    if k == "count":
        return ret(C(n))
    i = a[1].c if k == "nth" else n - 1 if k in ("last", "next_back") else 0
    if n <= i or n == 0:
        return none()
    v = item(st, it, it.a + i)
    if k == "next_back":
        st.store(a[0], Iter(it.p, it.a, it.b - 1, it.kind))
    elif k != "last":
        st.store(a[0], Iter(it.p, it.a + i + 1, it.b, it.kind))
    return some(v)


# ---- files -----------------------------------------------------------------------------------------------------
def readable(m, st, path):
    return not getattr(m.models.env, "io", False) or st.truth(eq(inp("file %s readable" % path, 0, 1), C(1)))


@model(r"std::fs::File::open", r"std::fs::OpenOptions::open")
def x_open(m, st, fn, a):
    effect(st, "fs")
    n = getattr(deep(st, a[-1]), "n", "?")
    if not readable(m, st, flat_path(n)):
        effect(st, ("unreadable", flat_path(n)))
        return ret(Agg(1, (Opq("io error"),)))
    return ret(OK(Opq(("file", n))))


@model(r"<std::fs::File as std::io::Read>::read_to_end", r"<std::io::BufReader<\w+> as std::io::Read>::read_to_end", r"<&std::fs::File as std::io::Read>::read_to_end")
def x_rte(m, st, fn, a):
    effect(st, "fs")
    st.store(a[1], deep(st, a[0]))
    return ret(OK(inp("length read", 0, 1 << 40)))


@model(r"std::io::BufReader::<\w+>::new")
def x_buf(m, st, fn, a):
    return ret(a[0])


@model(r"std::path::Path::(exists|is_file|is_dir)")
def x_exists(m, st, fn, a):
    effect(st, "fs")
    path = flat_path(getattr(deep(st, a[0]), "n", "?"))
    if fn.vpath.endswith("is_dir"):
        return ret(eq(inp("directory %s exists" % path, 0, 1), C(1)))
    if getattr(m.models.env, "io", False) and st.truth(eq(inp("file %s readable" % path, 0, 1), C(1))):
        return ret(True)
    return ret(eq(inp("file %s exists" % path, 0, 1), C(1)))

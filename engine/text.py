"""Formatting into a formatter whose text is recorded: a sequence of literal texts and shown values."""
import models
from num import *
from interp import *
from models import ret, deep, text
from flt import Flt

OK = Agg(0, (UNIT,))
REC = -(1 << 60)      # memory key that is set while a text is recorded


def formatter(st):
    return Ptr(st.alloc(Opq(("text",))))


def pieces(st, p):
    return st.load(p).n[1:]


def recording(st, p):
    if not isinstance(p, Ptr) or p.path:
        return False
    v = st.mem.get(p.key) if p.key in st.mem else None
    return isinstance(v, Opq) and isinstance(v.n, tuple) and v.n[:1] == ("text",)


def put(st, p, *ps):
    out = st.load(p).n
    for x in ps:
        out += x[1:] if x[0] == "text" else (x,)
    st.store(p, Opq(out))


def lit(s):
    return ("str", s)


def shown(m, st, how, t, v):
    """The value of type t behind v, as a piece."""
    x = m.T[t]
    while x["k"] == "ref":
        if m.T[x["e"]]["k"] in ("str", "slice", "dyn"):
            break
        v = st.load(v)
        t = x["e"]
        x = m.T[t]
    if how == "display" and x["k"] == "adt" and known_pieces(v) is not None:
        return ("text",) + known_pieces(v)
    if x["k"] in ("ref", "str") and m.T[x["e"] if x["k"] == "ref" else t]["k"] == "str":
        if how == "display":
            return said(st, v)
        s = text(st, v)
        return ("quoted", s)
    return ("show", how, t, v)


def dynval(m, st, how, p):
    """A value behind a trait object."""
    p2 = p
    if isinstance(p2, Ptr) and p2.sl is not None and p2.sl[0] == "dyn":
        return shown(m, st, how, p2.sl[1], st.load(Ptr(p2.key, p2.path)))
    raise Unsupported("text of an unknown trait object")


def arg(m, st, v):
    """The piece an argument of a format template stands for."""
    if isinstance(v, Opq) and isinstance(v.n, tuple) and v.n[:1] == ("arg",):
        return v.n[1]
    raise Unsupported("argument of a format template")


def template(m, st, code, args):
    code, args = deep(st, code), deep(st, args)
    if not isinstance(code, Agg) or not isinstance(args, Agg):
        raise Unsupported("format template")
    b = [x.c for x in code.f]
    i, k, out = 0, 0, []
    while b[i]:
        c = b[i]
        i += 1
        if c < 128:
            out.append(lit(bytes(b[i:i + c]).decode()))
            i += c
        elif c == 128:
            n = b[i] + 256 * b[i + 1]
            out.append(lit(bytes(b[i + 2:i + 2 + n]).decode()))
            i += 2 + n
        elif c & ~11 == 0xC0:
            how = 0
            if c & 1:
                how = b[i] + (b[i + 1] << 8) + (b[i + 2] << 16) + (b[i + 3] << 24)
                i += 4
            if c & 2:
                i += 2      # a width: spaces or zeros
            if c & 8:
                k = b[i] + 256 * b[i + 1]
                i += 2
            x = arg(m, st, args.f[k])
            if c != 0xC0 and c != 0xC8 and not (x[0] == "show" and m.T[x[2]]["k"] == "int" and how >> 25 & 3 == 0 and how & 0x1FFFFF in (32, 48)):
                raise Unsupported("format options")
            out.append(x)
            k += 1
        else:
            raise Unsupported("format options")
    return out


def known_pieces(x):
    """The pieces of a string, or None."""
    n = x.n if isinstance(x, Opq) else x
    if not isinstance(n, tuple) or not n:
        return None
    if n[0] == "text":
        return n[1:]
    if n[0] == "str" and isinstance(n[1], str):
        return (n,)
    if n[0] == "cat":
        ps = [known_pieces(y) for y in n[1:]]
        return None if None in ps else tuple(z for y in ps for z in y)
    return None


def said(st, v):
    """The piece a string stands for."""
    x = deep(st, v)
    n = known_pieces(x)
    return ("text",) + (n if n is not None else (lit(text(st, v)),))


def known(st, v, what="text"):
    s = text(st, v)
    if s is None:
        raise Unsupported(what + " that is not known")
    return s


def struct(m, st, p, names, vals):
    names = names.split(" ")
    out = [lit(names[0])]
    for i, v in enumerate(vals):
        out += [lit((", " if i else " { ") + names[1 + i] + ": "), dynval(m, st, "debug", v)]
    put(st, p, *(out + ([lit(" }")] if vals else [])))


def tuple_(m, st, p, name, vals):
    out = [lit(name)]
    for i, v in enumerate(vals):
        out += [lit(", " if i else "("), dynval(m, st, "debug", v)]
    put(st, p, *(out + ([lit(")")] if vals else [])))


def hook(m, st, fn, a):
    """Result of a formatting function, or None where nothing is being recorded."""
    if not st.mem.get(REC):
        return None
    vp = fn.vpath
    last = vp.rsplit("::", 1)[1]
    if "Argument::" in vp and last.startswith("new_"):
        how = last[4:]
        if how not in ("debug", "display"):
            raise Unsupported("format " + how)
        p = a[0]
        t = fn.d["targs"][0]
        v = st.load(p) if isinstance(p, Ptr) and p.sl is None else p
        return ret(Opq(("arg", shown(m, st, how, t, v))))
    if "Arguments::" in vp:
        if last == "new" and len(a) == 2:
            return ret(Opq(("text",) + tuple(template(m, st, a[0], a[1]))))
        if last.startswith("from_str"):
            return ret(Opq(("text", lit(known(st, a[0])))))
        raise Unsupported(last + " of format arguments")
    if not a:
        return None
    p = a[0]
    if "DebugStruct" in vp or "DebugTuple" in vp:
        q = p
        b = st.load(q)
        kind, n = b.n[1], b.n[3]
        f = Ptr(b.n[2], ())
        if last == "field":
            if kind == "struct":
                put(st, f, lit((", " if n else " { ") + known(st, a[1]) + ": "), dynval(m, st, "debug", a[2]))
            else:
                put(st, f, lit(", " if n else "("), dynval(m, st, "debug", a[1]))
            st.store(q, Opq(("builder", kind, b.n[2], n + 1)))
            return ret(q)
        if last == "finish":
            if n:
                put(st, f, lit(" }" if kind == "struct" else ")"))
            return ret(OK)
        if last == "finish_non_exhaustive" and kind == "struct":
            put(st, f, lit(", .. }" if n else " { .. }"))
            return ret(OK)
        raise Unsupported(vp)
    if not recording(st, p):
        if last == "fmt" and len(a) == 2 and recording(st, a[1]):
            # a value shows itself
            if fn.bb is not None and fn.local:
                return ("call", fn, list(a), lambda m, st, d, r: ret(r), None)
            how = "debug" if "Debug" in vp else "display" if "Display" in vp else None
            if how is None:
                raise Unsupported(vp)
            put(st, a[1], shown(m, st, how, m.T[fn.locals[1]]["e"], st.load(p) if p.sl is None else p))
            return ret(OK)
        if last in ("write_str", "write_fmt", "write_char") and isinstance(p, Ptr) and p.sl is None:
            # into a string
            have = known_pieces(st.load(p))
            if have is None:
                raise Unsupported(vp)
            new = known_pieces(a[1]) if last == "write_fmt" else (lit(text(st, a[1])),) if last == "write_char" else said(st, a[1])[1:]
            if new is None:
                raise Unsupported(vp)
            st.store(p, Opq(("text",) + have + new))
            return ret(OK)
        return None
    if last in ("write_str", "pad"):
        put(st, p, said(st, a[1]))
        return ret(OK)
    if last == "write_char":
        if not isinstance(a[1], Lin) or a[1].t:
            raise Unsupported("character that is not known")
        put(st, p, lit(chr(a[1].c)))
        return ret(OK)
    if last == "write_fmt":
        v = a[1]
        if not isinstance(v, Opq) or v.n[:1] != ("text",):
            raise Unsupported("format arguments")
        put(st, p, *v.n[1:])
        return ret(OK)
    if last == "alternate" or last.startswith("sign_"):
        return ret(False)
    if last in ("width", "precision"):
        return ret(Agg(0, ()))
    if last == "debug_c_like_enum_write_str":
        i = a[2]
        if i.t:
            raise Unsupported("name of an unknown variant")
        put(st, p, lit(known(st, a[1])[i.c:].split(" ")[0]))
        return ret(OK)
    if last in ("debug_struct", "debug_tuple"):
        put(st, p, lit(known(st, a[1])))
        return ret(Opq(("builder", last[6:], p.key, 0)))
    for k, f in (("debug_struct_field", struct), ("debug_tuple_field", tuple_)):
        if last.startswith(k) and last.endswith("_finish"):
            vals = a[2:]
            if last == k + "s_finish":
                arr = deep(st, a[2])
                if not isinstance(arr, Agg):
                    raise Unsupported(last)
                vals = arr.f
            f(m, st, p, known(st, a[1]), vals)
            return ret(OK)
    raise Unsupported(vp)


models.HOOK = hook


def expand(w, st, ps):
    """[(state, pieces)] with every value that shows itself by code of the crate replaced by the text that code makes."""
    for i, p in enumerate(ps):
        if p[0] != "show":
            continue
        x = w.D.T[p[2]]
        if x["k"] == "int" or x["k"] == "bool":
            continue
        f = w.D.find("<%s as std::fmt::%s>::fmt" % (x["name"], "Debug" if p[1] == "debug" else "Display"))
        if f is None or f.bb is None or not f.local:
            continue
        out = []
        s = st.copy()
        for o in render(w, s, f, p[3]):
            if o[0] != "ok":
                out.append(o)
                continue
            for q in expand(w, o[1], ps[i + 1:]):
                out.append(q if q[0] != "ok" else ("ok", q[1], list(ps[:i]) + o[2] + q[2]))
        return out
    return [("ok", st, list(ps))]


def render(w, st, fn, v):
    """The texts fn makes of v: ("ok", state, pieces) or (kind, outcome)."""
    st.mem[REC] = Opq("recording")
    p = formatter(st)
    out = []
    for o in w.m.run(fn, [Ptr(st.alloc(v)), p], st):
        if o.kind != "ret":
            out.append(("other", o))
            continue
        if not (isinstance(o.val, Agg) and o.val.v == 0):
            out.append(("failed", o))
            continue
        out += expand(w, o.st, pieces(o.st, p))
    return out


def merge(ps):
    out = []
    for p in ps:
        if p[0] == "str" and out and out[-1][0] == "str":
            out[-1] = ("str", out[-1][1] + p[1])
        else:
            out.append(p)
    return out

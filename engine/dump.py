"""Loads the MIR dump written by the driver and gives typed access to it."""
import json, re


class Fn:
    __slots__ = ("id", "d", "kind", "path", "vpath", "name", "local", "crate", "bb", "argc", "locals",
                 "file", "line", "model", "loops", "ptypes", "spread", "vars", "plain")

    def __init__(self, d):
        self.d = d
        self.id = d["id"]; self.kind = d["kind"]; self.path = d["path"]; self.vpath = d["vpath"]
        self.name = d["name"]; self.local = d.get("local"); self.crate = d.get("crate")
        self.bb = d.get("bb"); self.argc = d.get("argc"); self.locals = d.get("locals")
        self.file = d.get("file"); self.line = d.get("line")
        self.model = 0
        self.loops = None
        self.ptypes = {}
        self.spread = d.get("spread")
        self.vars = d.get("vars")
        self.plain = False


# Wrappers that hold one value and nothing else: their values are represented by the content.
PROJ = {"d", "f", "i", "ci", "ss", "dc"}
WRAP = {c + "::" + m + n for n, ms in (("MaybeUninit", ("mem::", "mem::maybe_uninit::")), ("ManuallyDrop", ("mem::", "mem::manually_drop::")),
                                      ("MaybeDangling", ("mem::", "mem::maybe_dangling::")), ("NonNull", ("ptr::", "ptr::non_null::")))
        for m in ms for c in ("std", "core")}


class Dump:
    def __init__(self, path):
        self.T = {}
        self.F = {}
        with open(path) as f:
            for l in f:
                k, i, j = l.rstrip("\n").split("\t", 2)
                if k == "T":
                    self.T[int(i)] = json.loads(j)
                elif k == "F":
                    self.F[int(i)] = Fn(json.loads(j))
                else:
                    self.R = json.loads(j)
        self.byname = {}
        for t, x in self.T.items():
            self.byname.setdefault(x["name"], t)
        for t, x in self.T.items():
            x["id"] = t
        self.fbyname = {}
        for f in self.F.values():
            self.fbyname.setdefault(f.name, f)

    def loops(self, f):
        """Targets of back edges (depth-first)."""
        if f.loops is not None:
            return f.loops
        heads = set()
        color = {}
        st = [(0, iter(self.succ(f, 0)))]
        color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 1:
                    heads.add(s)
                elif c == 0:
                    color[s] = 1
                    st.append((s, iter(self.succ(f, s))))
                    break
            else:
                color[b] = 2
                st.pop()
        f.loops = heads
        return heads

    def succ(self, f, b):
        t = f.bb[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def wrapper(self, t):
        x = self.T.get(t)
        return x is not None and x["k"] == "adt" and x["path"] in WRAP

    def peel(self, t):
        """Type of the content of a wrapper."""
        while self.wrapper(t) and not self.T[t]["path"].endswith("::NonNull"):
            t = self.T[t]["args"][0]
        return t

    def unwrap(self, f):
        """Drop the wrappers from a body: projections into them, and their construction."""
        f.plain = True

        def place(p):
            if not p[1]:
                return
            t = f.locals[p[0]]
            out = []
            for e in p[1]:
                if not (e[0] == "f" and self.wrapper(t)):
                    out.append(e)
                t = self.proj_ty(t, e)
            if len(out) != len(p[1]):
                p[1][:] = out
                f.ptypes[id(p)] = t

        def walk(x):
            if type(x) is dict:
                for y in x.values():
                    walk(y)
            elif type(x) is list:
                if len(x) == 2 and type(x[0]) is int and type(x[1]) is list and all(
                        type(e) is list and e and e[0] in PROJ for e in x[1]):
                    place(x)
                    return
                for y in x:
                    walk(y)

        for b in f.bb:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] in ("adt", "union") and self.wrapper(self.place_ty(f, s[1])):
                    r = s[2]
                    if r[1] == "union" and (not r[3] or (len(r) > 4 and r[4] == 0)):
                        s[2] = ["use", {"k": {"t": self.place_ty(f, s[1]), "v": {"uninit": 1}}}]
                    elif len(r[3]) == 1:
                        s[2] = ["use", r[3][0]]
                walk(s)
            walk(b["t"])

    # types of places and operands
    def place_ty(self, f, p):
        key = id(p)
        r = f.ptypes.get(key)
        if r is not None:
            return r
        t = f.locals[p[0]]
        for e in p[1]:
            t = self.proj_ty(t, e)
        f.ptypes[key] = t
        return t

    def proj_ty(self, t, e):
        x = self.T[t]
        k = e[0]
        if k == "d":
            if "e" in x:
                return x["e"]
            if x["k"] == "adt" and x["args"]:
                return x["args"][0]     # Box
            return t
        if k == "f":
            return e[2]
        if k in ("i", "ci"):
            return x["e"]
        return t

    def op_ty(self, f, o):
        if "c" in o:
            return self.place_ty(f, o["c"])
        if "m" in o:
            return self.place_ty(f, o["m"])
        if "k" in o:
            return o["k"]["t"]
        return None

    def find(self, name):
        return self.fbyname.get(name)

    def findall(self, pred):
        return [f for f in self.F.values() if pred(f)]

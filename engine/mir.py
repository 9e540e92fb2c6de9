"""Loads a MIR dump: programs, types, bodies, liveness, loop heads."""
import json

STRUCTS = set()


def is_struct(name):
    return name in STRUCTS


class Body:
    def __init__(self, prog, key, d, generics, owner=None):
        self.prog = prog
        self.key = key
        self.nargs = d["args"]
        self.locals = [prog.types[i] for i in d["locals"]]
        self.blocks = d["blocks"]
        self.spread = d["spread"]
        self.sp = d["sp"]
        self.generics = generics
        self.names = {}
        for n, (l, pr) in d["names"]:
            if not pr:
                self.names[l] = n
        self._live = None
        self._loops = None
        self._succ = None
        self._liveat = {}
        self.promoted = []
        self.owner = owner

    # control flow
    def succ(self, b):
        if self._succ is None:
            self._succ = [self._succs(x["t"]) for x in self.blocks]
        return self._succ[b]

    @staticmethod
    def _succs(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[3]] + [t[4]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    def loops(self):
        """{head: set of blocks} of the natural loops (by DFS back edges)"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        color = [0] * n
        back = []
        order = []
        st = [(0, iter(self.succ(0)))]
        color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    st.append((s, iter(self.succ(s))))
                    break
                elif color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                order.append(b)
                st.pop()
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ(b):
                pred[s].append(b)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred[x])
        self._loops = loops
        return loops

    # liveness
    def _use_place(self, p, use):
        use.add(p[0])
        for e in p[1]:
            if e[0] == "i":
                use.add(e[1])

    def _use_op(self, o, use):
        if o[0] in ("c", "m"):
            self._use_place(o[1], use)

    def _use_rv(self, r, use):
        k = r[0]
        if k in ("use", "repeat"):
            self._use_op(r[1], use)
        elif k == "ref":
            self._use_place(r[2], use)
        elif k == "raw":
            self._use_place(r[1], use)
        elif k == "cast":
            self._use_op(r[2], use)
        elif k == "bin":
            self._use_op(r[2], use)
            self._use_op(r[3], use)
        elif k == "un":
            self._use_op(r[2], use)
        elif k == "discr":
            self._use_place(r[1], use)
        elif k == "agg":
            for o in r[2]:
                self._use_op(o, use)

    def _back_stmt(self, s, live):
        k = s[0]
        if k == "=":
            p = s[1]
            if not p[1]:
                live.discard(p[0])
            u = set()
            if p[1]:
                self._use_place(p, u)
            self._use_rv(s[2], u)
            live |= u
        elif k == "dead" or k == "live":
            live.discard(s[1])
        elif k == "sd":
            live.add(s[1][0])

    def _back_term(self, t, live):
        k = t[0]
        if k == "switch":
            self._use_op(t[1], live)
        elif k == "call":
            d = t[3]
            if not d[1]:
                live.discard(d[0])
            else:
                self._use_place(d, live)
            for o in t[2]:
                self._use_op(o, live)
            if "ptr" in t[1]:
                self._use_op(t[1]["ptr"], live)
        elif k == "assert":
            self._use_op(t[1], live)
            for o in t[4]:
                self._use_op(o, live)
        elif k == "ret":
            live.add(0)

    def live_in(self):
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        L = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                if self.blocks[b]["cl"]:
                    continue
                live = set()
                for s in self.succ(b):
                    live |= L[s]
                self._back_term(self.blocks[b]["t"], live)
                for s in reversed(self.blocks[b]["s"]):
                    self._back_stmt(s, live)
                if live != L[b]:
                    L[b] = live
                    changed = True
        self._live = L
        return L

    def live_at(self, b, i):
        """locals live just before statement i of block b (i == len: before the terminator)"""
        k = (b, i)
        r = self._liveat.get(k)
        if r is None:
            L = self.live_in()
            live = set()
            for s in self.succ(b):
                live |= L[s]
            self._back_term(self.blocks[b]["t"], live)
            ss = self.blocks[b]["s"]
            for j in range(len(ss) - 1, i - 1, -1):
                self._back_stmt(ss[j], live)
            r = frozenset(live)
            self._liveat[k] = r
        return r


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.statics = d["statics"]
        raw = d["types"]
        self.types = [None] * len(raw)

        def conv(i):
            if self.types[i] is not None:
                return self.types[i]
            t = raw[i]
            k = t[0]
            if k in ("slice",):
                r = ("slice", conv(t[1]))
            elif k == "array":
                r = ("array", conv(t[1]), t[2])
            elif k in ("ref", "ptr"):
                r = (k, conv(t[1]), t[2])
            elif k == "tuple":
                r = ("tuple", tuple(conv(x) for x in t[1]))
            elif k in ("adt", "fndef", "closure"):
                r = (k, t[1], tuple(conv(x) for x in t[2]))
            else:
                r = tuple(t)
            self.types[i] = r
            return r
        for i in range(len(raw)):
            conv(i)
        self.adts = {}
        self.ctors = {}
        self.params = {}
        self.names = d["names"]
        for n, a in d["adts"].items():
            vs = []
            for vi, (name, discr, fields, ctor) in enumerate(a["variants"]):
                if ctor:
                    self.ctors[ctor] = (n, vi)
                vs.append((name, int(discr), [(fn, self.types[ti] if ti >= 0 else None) for fn, ti in fields]))
            self.adts[n] = (a["kind"], vs)
            self.params[n] = a["params"]
            if a["kind"] == "struct":
                STRUCTS.add(n)
        self.bodies = {}
        self.meta = {}
        for k, b in d["bodies"].items():
            gen = [(i, n) for i, n in b["generics"]]
            body = Body(self, k, b["body"], gen)
            body.promoted = [Body(self, k + "::promoted%d" % i, p, gen, k) for i, p in enumerate(b["promoted"])]
            self.bodies[k] = body
            self.meta[k] = b
            b["body"] = None
            b["promoted"] = None

    def adt_params(self, n):
        return self.params.get(n, [])

    def loc(self, key, bb):
        return self.bodies[key].blocks[bb]["sp"]


def subst_ty(t, targs):
    """replace type parameters"""
    if not targs:
        return t
    k = t[0]
    if k == "param":
        return targs.get(t[1], t)
    if k == "slice":
        return ("slice", subst_ty(t[1], targs))
    if k == "array":
        return ("array", subst_ty(t[1], targs), t[2])
    if k in ("ref", "ptr"):
        return (k, subst_ty(t[1], targs), t[2])
    if k == "tuple":
        return ("tuple", tuple(subst_ty(x, targs) for x in t[1]))
    if k in ("adt", "fndef", "closure"):
        return (k, t[1], tuple(subst_ty(x, targs) for x in t[2]))
    return t

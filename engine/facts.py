"""Facts known on a path: byte masks, linear inequalities, variants, boolean atoms, refuted literals.

decide(c) answers True / False / None for a condition, by propagation only.
"""
from terms import *

import os
CHECK_NEG_LIMIT = 40


class Oracles:
    most = {}     # how often a callee may succeed on a path, in a run restricted to some callees
    """per-function summary facts (minimal consumption, first-byte set) of the parser oracles"""
    minlen = {}
    failed = {}
    first = {}


CONDS = {"in", "ge", "eq", "lit", "not", "ok", "streq", "is", "and", "or", "utf8", "oeq", "mhas", "adj"}


class LinGraph:
    """difference bounds between the atoms of the linear facts, closed on demand"""
    __slots__ = ("f", "edges", "multi", "dist", "cond")

    def __init__(self, facts):
        self.f = facts
        self.edges = {0: []}
        self.multi = []
        self.dist = {}
        self.cond = []
        facts._lg = self      # asked while it is being built, it answers from the part it has
        for e in facts.lin:
            self.fact(e)
        self.dist = {}
        self.settle()
        facts._memo = {}

    def settle(self):
        # facts that hold once a stretch is known to be non-empty
        todo, self.cond = self.cond, []
        while todo:
            rest = []
            for c, e in todo:
                if all(self.ge0(x) for x in c) if type(c) is tuple else self.ge0(c):
                    self.fact(e)
                    self.dist = {}
                else:
                    rest.append((c, e))
            todo = rest if len(rest) < len(todo) else ()
            todo = list(todo) + self.cond
            self.cond = []

    def fact(self, e):
        if isinstance(e, int):
            return
        c, items = lin_parts(e)
        for a, _ in items:
            if a not in self.edges:
                self.atom(a)
        if len(items) == 1:
            a, k = items[0]
            if k == 1:
                self.edges[a].append((0, -c))
                return
            if k == -1:
                self.edges[0].append((a, -c))
                return
            if k > 0:
                self.edges[a].append((0, -(c // k)))
            else:
                self.edges[0].append((a, -(c // -k)))
            return
        if len(items) == 2:
            (a, k), (b, n) = items
            if k == 1 and n == -1:
                self.edges[a].append((b, -c))
                return
            if k == -1 and n == 1:
                self.edges[b].append((a, -c))
                return
        self.multi.append(e)

    def atom(self, a):
        self.edges[a] = l = []
        lo, hi = self.f.range_of(a)
        l.append((0, lo))
        if hi is not None:
            self.edges[0].append((a, -hi))
        for e in self.f.intrinsic(a, self.cond):
            self.fact(e)
        if a.op == "run":
            # the same scan with another limit
            S, buf, P, E = a.args
            for b in list(self.edges):
                if b == 0 or b is a or b.op != "run" or b.args[0] != S or b.args[1] is not buf or b.args[2] is not P and b.args[2] != P:
                    continue
                for x, y in ((a, b), (b, a)):
                    d = sub(y.args[3], x.args[3])
                    self.cond.append((d, sub(y, x)))
                    self.cond.append(((d, sub(sub(x.args[3], x), 1)), sub(x, y)))

    def from_(self, x):
        d = self.dist.get(x)
        if d is None:
            d = {x: 0}
            q = [x]
            n = 0
            edges = self.edges
            while q:
                u = q.pop()
                w = d[u]
                for y, k in edges[u]:
                    v = w + k
                    o = d.get(y)
                    if o is None or v > o:
                        d[y] = v
                        q.append(y)
                        n += 1
                        if n > 3000:
                            q = []
                            break
            self.dist[x] = d
        return d

    def ge(self, e):
        c, items = lin_parts(e)
        for a, _ in items:
            if a not in self.edges:
                self.atom(a)
                self.dist = {}
                if self.cond:
                    self.settle()
        return self.ge0(e)

    def span(self, a, b):
        for x in (a, b):
            if not isint(x):
                if x.op == "lin":
                    return None, None
                if x not in self.edges:
                    self.atom(x)
                    self.dist = {}
                    if self.cond:
                        self.settle()
        lo = self.from_(a).get(b)
        hi = self.from_(b).get(a)
        return lo, (None if hi is None else -hi)

    def ge0(self, e, depth=3, seen=None):
        if isinstance(e, int):
            return e >= 0
        c, items = lin_parts(e)
        n = 0
        for a, k in items:
            if a not in self.edges:
                self.atom(a)
                self.dist = {}
            n += k if k > 0 else -k
        if n <= 6:
            pos = []
            ngt = []
            for a, k in items:
                if k > 0:
                    pos.extend([a] * k)
                else:
                    ngt.extend([a] * -k)
            if self.match(c, pos, ngt):
                return True
        else:
            lo = c
            for a, k in items:
                if k > 0:
                    lo += k * self.from_(a).get(0, -MAXU)
                else:
                    lo += -k * self.from_(0).get(a, -MAXU)
            if lo >= 0:
                return True
        if depth <= 0 or not self.multi or len(items) > 7:
            return False
        if seen is None:
            seen = set()
        if e in seen or len(seen) > 40:
            return False
        seen.add(e)
        d = dict(items)
        for f in self.multi:
            for x, n in lin_parts(f)[1]:
                k = d.get(x)
                if k and (k > 0) == (n > 0) and k % n == 0:
                    if self.ge0(add(e, f, -(k // n)), depth - 1, seen):
                        return True
        return False

    def match(self, c, pos, ngt):
        """can every subtracted atom be paired with an added one (or 0) so that the sum stays >= 0?"""
        if not ngt:
            for p in pos:
                c += self.from_(p).get(0, -MAXU)
            return c >= 0
        b = ngt[0]
        rest = ngt[1:]
        for i, p in enumerate(pos):
            if i and p is pos[i - 1]:
                continue
            w = self.from_(p).get(b)
            if w is not None and self.match(c + w, pos[:i] + pos[i + 1:], rest):
                return True
        w = self.from_(0).get(b)
        return w is not None and self.match(c + w, pos, rest)


class Facts:
    __slots__ = ("lin", "masks", "bools", "isv", "negs", "cls", "ors", "apps", "_memo", "_lg", "_dm")

    def __init__(self):
        self._dm = {}
        self.lin = ()
        self.masks = {}
        self.bools = {}
        self.isv = {}
        self.negs = ()
        self.cls = ()
        self.ors = ()
        self.apps = {}
        self._memo = {}
        self._lg = None

    def copy(self):
        f = Facts.__new__(Facts)
        f.lin = self.lin
        f.masks = dict(self.masks)
        f.bools = dict(self.bools)
        f.isv = dict(self.isv)
        f.negs = self.negs
        f.cls = self.cls
        f.ors = self.ors
        f.apps = dict(self.apps)
        f._memo = self._memo
        f._dm = self._dm
        f._lg = None
        return f

    # ------------------------------------------------------------ bytes
    def mask(self, atom):
        """set of values the byte atom can have"""
        if isint(atom):
            return 1 << (atom & 255)
        m = self._dm.get(atom)
        if m is None:
            m = self.mask0(atom)
            self._dm[atom] = m
        return m

    def _span(self, a, b):
        """bounds of a - b, as far as they are at hand"""
        k = ("span", a, b)
        r = self._dm.get(k)
        if r is None:
            g = self._lg
            if g is None:
                g = self._lg = LinGraph(self)
            r = self._dm[k] = g.span(a, b)
        return r

    def mask0(self, atom):
        m = self.masks.get(atom, FULL)
        if atom.op == "byte":
            buf, i = atom.args
            if isinstance(buf, Term) and buf.op == "kb" and isint(i):
                return 1 << buf.args[0][i]
            if isinstance(i, Term):
                # the byte on which a scan stopped is outside the scanned class
                if i.op == "run" and i.args[1] is buf:
                    if m & i.args[0] and self.ge(sub(sub(i.args[3], i), 1)):
                        m &= ~i.args[0]
            idx = self._dm.get("idx")
            if idx is None:
                idx = self._dm["idx"] = {}
                for t, k in self.masks.items():
                    if t.op == "byte":
                        c, base = split_const(t.args[1])
                        idx.setdefault(t.args[0], {}).setdefault(base, []).append((c, t, k))
            c0, b0 = split_const(i)
            for base, l in idx.get(buf, {}).items():
                if base is b0 or base == b0:
                    continue
                w = None
                for c, t, k in l:
                    if m & ~k:
                        if w is None:
                            w = self._span(b0, base)
                        # i - t = b0 - base + c0 - c
                        if w[0] is not None and w[0] + c0 - c > 0 or w[1] is not None and w[1] + c0 - c < 0:
                            continue
                        if self.int_eq(t.args[1], i):
                            m &= k
            if self.cls:
                for (b, x, y, k) in self.cls:
                    if b is buf and m & ~k and self.ge(sub(i, x)) and self.ge(sub(sub(y, i), 1)):
                        m &= k
        return m

    def mask2(self, atom):
        """mask, also using the scans known to have passed the byte"""
        m = self.mask(atom)
        if isinstance(atom, Term) and atom.op == "byte":
            buf, i = atom.args
            for r in self._runs(buf, i, i):
                if m & ~r.args[0] and self.ge(sub(i, r.args[2])):
                    if self.ge(sub(sub(r, i), 1)):
                        m &= r.args[0]
                    elif r.args[2] == i and r != i:
                        # in the class if the scan passed it, else it is the byte the scan stopped on
                        m &= r.args[0] | self.mask(byte_at(buf, r))
        return m

    def range_of(self, a):
        """(lo, hi) bounds of an integer atom, hi may be None"""
        ta = as_tab(a)
        if ta is not None:
            m = self.masks.get(ta[1], FULL)
            if m == FULL and ta[1].op == "byte":
                m = self.mask(ta[1])
            t = ta[0]
            vs = [t[i] for i in range(256) if m >> i & 1]
            if not vs:
                return (0, 0)
            return (min(vs), max(vs))
        o = a.op
        if o == "len":
            return (0, MAXLEN)
        if o in ("run", "end"):
            return (0, MAXLEN)
        if o == "sel":
            t = a.args[0]
            return (min(t), max(t))
        if o == "g":
            return (0, a.args[1] if len(a.args) > 1 else MAXU)
        if o == "b2i":
            return (0, 1)
        return (0, MAXU)

    # ------------------------------------------------------------ linear
    def intrinsic(self, a, full):
        """linear facts carried by an atom itself"""
        o = a.op
        if o == "run":
            S, buf, P, E = a.args
            if self.ors and full is not None:
                # named by a case that may not be the one at hand
                d = sub(E, P)
                if isint(d) and d < 0:
                    return []
                if not isint(d):
                    full.append((d, sub(a, P)))
                    full.append((d, sub(E, a)))
                    return []
            r = [sub(a, P), sub(E, a)]
            m = self.masks.get(byte_at(buf, P), FULL)
            if m & S == 0:
                r.append(sub(P, a))
            elif m & ~S == 0 and full is not None:
                full.append((sub(sub(E, P), 1), sub(sub(a, P), 1)))
            return r
        if o == "end":
            F, s = a.args[0].args[:2]
            p = s.args[0]
            if self.ors and self.bools.get(T("ok", a.args[0])) is not True:
                return []
            if len(p) == 1 and p[0].op == "sl":
                P, E = p[0].args[1], p[0].args[2]
                return [sub(sub(a, P), Oracles.minlen.get(F, 0)), sub(E, a)]
            return []
        return []

    def dirty(self):
        self._memo = {}
        self._dm = {}
        self._lg = None

    def ge(self, e):
        """is e >= 0 entailed?"""
        if isinstance(e, int):
            return e >= 0
        r = self._memo.get(e)
        if r is None:
            g = self._lg
            if g is None:
                g = self._lg = LinGraph(self)
            r = g.ge(e)
            self._memo[e] = r
        return r

    def eq0(self, e):
        if isint(e):
            return e == 0
        c, items = lin_parts(e)
        if all(as_tab(a) is not None for a, _ in items):
            # fold the sums over one byte that are constant on its possible values
            tot = c
            ok = True
            by = {}
            for a, k in items:
                t, b = as_tab(a)
                by.setdefault(b, []).append((t, k))
            for b, l in by.items():
                m = self.mask(b)
                vs = {sum(k * t[i] for t, k in l) for i in range(256) if m >> i & 1}
                if len(vs) != 1:
                    ok = False
                    break
                tot += vs.pop()
            if ok:
                return tot == 0
        return self.ge(e) and self.ge(scale(e, -1))

    def int_eq(self, a, b):
        if a is b:
            return True
        if isint(a) and isint(b):
            return a == b
        return self.eq0(sub(a, b))

    # ------------------------------------------------------------ decision
    def decide(self, c):
        k = (c,)
        r = self._dm.get(k, 0)
        if r == 0 and r is not False:
            r = self.decide1(c)
            self._dm[k] = r
        return r

    def decide1(self, c):
        r = self.decide0(c)
        if r is not None:
            return r
        if self.negs and c.op in ("in", "ge", "lit", "eq"):
            if self.refuted(c):
                return False
            n = neg(c)
            if c.op != "lit" and self.refuted(n):
                return True
        return None

    def refuted(self, c):
        """does assuming c contradict a refuted literal?"""
        f = self.copy()
        negs = f.negs
        f.negs = ()
        f.ors = ()
        f._dm = {}
        if not f.assume(c):
            return True
        for n in negs:
            if f.decide0(n) is True:
                return True
        return False

    def lins_hold(self, c):
        """is a literal assumed earlier refuted by what is known of the bytes alone?"""
        if c.op not in ("ge", "eq"):
            return None
        f = self.copy()
        f.lin = ()
        f.dirty()
        return f.decide0(c)

    def bytes_agree(self):
        """False if two bytes known to be different turn out to be one and the same"""
        at = {}
        for x in self.masks:
            if x.op == "byte":
                at.setdefault(x.args[0], []).append(x.args[1])
        for buf, ix in at.items():
            for n, i in enumerate(ix):
                for j in ix[:n]:
                    if not (isint(i) and isint(j)) and self.mask(T("byte", buf, i)) & self.mask(T("byte", buf, j)) == 0 and self.int_eq(i, j) is True:
                        return False
        return True

    def decide0(self, c):
        o = c.op
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "in":
            m = self.mask(c.args[0])
            k = c.args[1]
            if m & ~k == 0:
                return True
            if m & k == 0:
                return False
            return None
        if o == "ge":
            e = c.args[0]
            if self.ge(e):
                return True
            if self.ge(sub(-1, e)):
                return False
            return None
        if o == "eq":
            e = c.args[0]
            if self.eq0(e):
                return True
            if self.ge(sub(e, 1)) or self.ge(sub(-1, e)):
                return False
            r = self.bools.get(c)
            return r
        if o == "lit":
            buf, P, E, ms = c.args
            n = len(ms)
            allok = True
            room = sub(sub(E, P), n)
            if not self.ge(room):
                allok = False
                if self.ge(sub(-1, room)):
                    return False
            for i, k in enumerate(ms):
                m = self.mask(byte_at(buf, add(P, i)))
                if m & k == 0:
                    return False
                if m & ~k:
                    allok = False
            if allok:
                return True
            if c in self.negs:
                return False
            return None
        if o == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if o == "and":
            u = False
            for x in c.args[0]:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    u = True
            return None if u else True
        if o == "or":
            u = False
            for x in c.args[0]:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    u = True
            if not u:
                return False
            for x in self.ors:
                if x is c or all(y in c.args[0] for y in x.args[0]):
                    return True
            return None
        if o == "ok":
            r = self.bools.get(c)
            if r is not None:
                return r
            app = c.args[0]
            F, s = app.args[0], app.args[1]
            name = F
            first = Oracles.first.get(name)
            mn = Oracles.minlen.get(name, 0)
            ps = s.args[0]
            if mn > 0:
                if not ps:
                    return False
                p = ps[0]
                if p.op == "sl" and len(ps) == 1:
                    if self.ge(sub(-1 + mn, sub(p.args[2], p.args[1]))):
                        return False
                    if first is not None and self.mask(byte_at(p.args[0], p.args[1])) & first == 0:
                        return False
                elif p.op == "k" and first is not None:
                    if not first >> p.args[0][0] & 1:
                        return False
            return None
        if o == "is":
            t, v = c.args
            r = self.isv.get(t)
            if r is not None:
                if isinstance(r, frozenset):
                    if v in r:
                        return True if len(r) == 1 else None
                    return False
                return r == v
            return None
        if o == "streq":
            r = self.bools.get(c)
            if r is not None:
                return r
            a, b = c.args
            kb = is_const_seq(b)
            if kb is not None:
                L = seq_len(a)
                if not isint(L):
                    d = sub(L, len(kb))
                    if self.ge(sub(d, 1)) or self.ge(sub(-1, d)):
                        return False
                elif L != len(kb):
                    return False
                for k, v in self.bools.items():
                    if v is True and k.op == "streq" and k.args[0] is a and k.args[1] is not b and is_const_seq(k.args[1]) is not None:
                        return False
            else:
                d = sub(seq_len(a), seq_len(b))
                if self.ge(sub(d, 1)) or self.ge(sub(-1, d)):
                    return False
                if self.seq_eq(a, b):
                    return True
            return None
        return self.bools.get(c)

    # ------------------------------------------------------------ assumption
    def assume(self, c, val=True):
        """add c (or its negation); False if contradictory"""
        if not self.assume1(c, val):
            return False
        return not self.ors or self._check_ors()

    def _check_ors(self):
        """drop the alternatives that are refuted"""
        again = True
        while again:
            again = False
            todo = self.ors
            keep = []
            for n, c in enumerate(todo):
                alts = []
                sat = False
                for x in c.args[0]:
                    r = self.decide(x)
                    if r is True:
                        sat = True
                        break
                    if r is None:
                        alts.append(x)
                if sat:
                    continue
                if not alts:
                    return False
                if len(alts) == 1:
                    self.ors = ()
                    if not self.assume1(alts[0]):
                        return False
                    keep.extend(self.ors)
                    again = True
                    continue
                keep.append(c if len(alts) == len(c.args[0]) else T("or", tuple(alts)))
            if len(keep) != len(self.ors) or any(x is not y for x, y in zip(keep, self.ors)):
                self.ors = tuple(keep)
                self._dm = {}
        return True

    def cases(self):
        """the facts, case by case of what is known as a disjunction"""
        if not self.ors:
            yield self
            return
        c = self.ors[0]
        for x in c.args[0]:
            f = self.copy()
            f.ors = self.ors[1:]
            if f.assume(x):
                yield from f.cases()

    def assume1(self, c, val=True):
        if not val:
            c = neg(c)
        o = c.op
        if o == "true":
            return True
        if o == "false":
            return False
        r = self.decide0(c)
        if r is True:
            return True
        if r is False:
            return False
        if o == "in":
            a, k = c.args
            m = self.mask(a) & k
            if m == 0:
                return False
            self.masks[a] = m
            self.dirty()
            if a.op == "byte" and not self._scans(a):
                return False
            return self._check_negs()
        if o == "ge":
            self.lin = self.lin + (c.args[0],)
            self.dirty()
            return self._check_negs()
        if o == "eq":
            e = c.args[0]
            if self.decide0(mk_ge(e)) is False or self.decide0(mk_ge(scale(e, -1))) is False:
                return False
            self.lin = self.lin + (e, scale(e, -1))
            self.dirty()
            self.bools[c] = True
            self.dirty()
            for r in atoms_of((e,)):
                # the byte a scan stopped on is outside the class
                if r.op == "run" and self.ge(sub(sub(r.args[3], r), 1)) and self.mask(byte_at(r.args[1], r)) == 0:
                    return False
            for k, v in self.bools.items():
                # what is known to differ does not become equal through a third
                if v is False and k.op == "eq" and self.ge(k.args[0]) and self.ge(scale(k.args[0], -1)):
                    return False
            return self._check_negs()
        if o == "lit":
            buf, P, E, ms = c.args
            room = sub(sub(E, P), len(ms))
            if isint(room):
                if room < 0:
                    return False
            elif not self.ge(room):
                self.lin = self.lin + (room,)
                self.dirty()
            for i, k in enumerate(ms):
                b = byte_at(buf, add(P, i))
                m = self.mask(b) & k
                if m == 0:
                    return False
                self.masks[b] = m
                self.dirty()
                if b.op == "byte" and not self._scans(b):
                    return False
            return self._check_negs()
        if o == "not":
            x = c.args[0]
            if x.op == "lit":
                return self._neg_lit(x)
            if x.op == "eq":
                # x != 0
                e = x.args[0]
                if self.ge(e):
                    return self.assume1(mk_ge(sub(e, 1)))
                if self.ge(scale(e, -1)):
                    return self.assume1(mk_ge(sub(-1, e)))
                self.bools[x] = False
                self.dirty()
                return True
            if x.op == "is":
                t, v = x.args
                r = self.isv.get(t)
                if isinstance(r, frozenset):
                    r = r - {v}
                    if not r:
                        return False
                    self.isv[t] = r if len(r) > 1 else next(iter(r))
                    self.dirty()
                return True
            if x.op in ("and", "or"):
                return self.assume1(neg(x))
            self.bools[x] = False
            self.dirty()
            return True
        if o == "and":
            for x in c.args[0]:
                if not self.assume1(x):
                    return False
            return True
        if o == "or":
            und = [x for x in c.args[0] if self.decide(x) is not False]
            if not und:
                return False
            if len(und) == 1:
                return self.assume1(und[0])
            if True:
                self._dm = {}
                self.ors = self.ors + (c if len(und) == len(c.args[0]) else T("or", tuple(und)),)
            return True
        if o == "ok":
            self.bools[c] = True
            self.dirty()
            app = c.args[0]
            F, s = app.args[0], app.args[1]
            name = F
            first = Oracles.first.get(name)
            mn = Oracles.minlen.get(name, 0)
            ps = s.args[0]
            if mn > 0 and len(ps) == 1 and ps[0].op == "sl":
                buf, P, E = ps[0].args
                return self.assume1(T("lit", buf, P, E, ((first if first is not None else FULL),) + (FULL,) * (mn - 1)))
            return True
        if o == "is":
            t, v = c.args
            self.isv[t] = v
            self.dirty()
            return True
        if o == "streq":
            self.bools[c] = True
            self.dirty()
            a, b = c.args
            kb = is_const_seq(b)
            if kb is not None:
                ps = a.args[0]
                if len(ps) == 1 and ps[0].op == "sl":
                    buf, P, E = ps[0].args
                    if not self.assume1(mk_eq0(sub(sub(E, P), len(kb)))):
                        return False
                    if kb:
                        return self.assume1(mk_lit(buf, P, E, tuple(1 << x for x in kb)))
            else:
                return self.assume1(mk_eq0(sub(seq_len(a), seq_len(b))))
            return True
        self.bools[c] = True
        self.dirty()
        return True

    def _neg_lit(self, x):
        buf, P, E, ms = x.args
        # unit propagation: all but one constraint known
        und = []
        room = sub(sub(E, P), len(ms))
        if not self.ge(room):
            und.append(("len", room))
        for i, k in enumerate(ms):
            b = byte_at(buf, add(P, i))
            m = self.mask(b)
            if m & ~k:
                und.append((b, k))
        if not und:
            return False
        if len(und) == 1:
            a, k = und[0]
            if a == "len":
                return self.assume1(mk_ge(sub(-1, k)))
            return self.assume1(mk_in(a, FULL & ~k))
        if x not in self.negs:
            self.negs = self.negs + (x,)
            self.dirty()
        return True

    def _check_negs(self):
        for k, v in self.bools.items():
            if k.op == "streq" and v is False and is_const_seq(k.args[1]) is None and self.seq_eq(k.args[0], k.args[1]):
                return False
        if not self.negs:
            return True
        todo = self.negs
        keep = []
        units = []
        for x in todo:
            buf, P, E, ms = x.args
            und = []
            dead = False
            room = sub(sub(E, P), len(ms))
            if not self.ge(room):
                if self.ge(sub(-1, room)):
                    dead = True
                und.append(("len", room))
            if not dead:
                for i, k in enumerate(ms):
                    b = byte_at(buf, add(P, i))
                    m = self.mask(b)
                    if m & k == 0:
                        dead = True
                        break
                    if m & ~k:
                        und.append((b, k))
            if dead:
                continue
            if not und:
                return False
            if len(und) == 1:
                units.append(und[0])
            else:
                keep.append(x)
        if len(keep) != len(todo):
            self.negs = tuple(keep)
            self.dirty()
        for a, k in units:
            if a == "len":
                if not self.assume1(mk_ge(sub(-1, k))):
                    return False
            elif not self.assume1(mk_in(a, FULL & ~k)):
                return False
        return True

    # ------------------------------------------------------------ classes of stretches
    def stretch(self, buf, a, b, S, depth=60):
        """are all bytes of buf in [a, b) known to lie in S?"""
        cur = a
        for _ in range(depth):
            if self.ge(sub(cur, b)):
                return True
            nxt = None
            m = self.mask(byte_at(buf, cur))
            if m & ~S == 0:
                nxt = add(cur, 1)
            if True:
                for (x, lo, hi, k) in self.cls:
                    if x is buf and k & ~S == 0 and self.ge(sub(cur, lo)) and self.ge(sub(sub(hi, cur), 1)):
                        nxt = hi
                        break
                for r in self._runs(buf, cur, b):
                    if r.args[0] & ~S == 0 and self.ge(sub(cur, r.args[2])):
                        if self.ge(sub(r, cur)) and not self.int_eq(r, cur):
                            nxt = r
                            break
            if nxt is None:
                return False
            cur = nxt
        return False

    def _scans(self, a):
        """where the scans over the byte can have stopped; False if nowhere"""
        buf, i = a.args
        m = self.masks.get(a, FULL)
        for r in self._runs(buf, i, i):
            S, _, P, E = r.args
            if r is i or not self.ge(sub(i, P)) or not self.ge(sub(sub(E, i), 1)):
                continue
            if m & S == 0:
                e = sub(i, r)
            elif m & ~S == 0 and self.ge(sub(r, i)):
                e = sub(sub(r, i), 1)
            else:
                continue
            if not self.ge(e):
                self.lin = self.lin + (e,)
                self.dirty()
            if self.ge(sub(scale(e, -1), 1)) or (self.ge(sub(sub(E, r), 1)) and self.mask(byte_at(buf, r)) == 0):
                return False
        return True

    def _runs(self, buf, cur, b):
        seen = set()
        out = []
        for t in atoms_of((cur, b)) | atoms_of(self.lin) | atoms_of(tuple(self.masks)):
            if t.op == "run" and t.args[1] is buf and t not in seen:
                seen.add(t)
                out.append(t)
        out.sort(key=lambda t: t.uid)
        return out

    # ------------------------------------------------------------ equality of values
    def seq_eq(self, a, b):
        """content equality, decided by alignment; True or None"""
        if a is b:
            return True
        pa, pb = list(a.args[0]), list(b.args[0])
        for _ in range(200):
            pa = self._drop_empty(pa)
            pb = self._drop_empty(pb)
            if not pa or not pb:
                return not pa and not pb
            x, y = pa[0], pb[0]
            if x is y:
                pa.pop(0), pb.pop(0)
                continue
            la, lb = piece_len(x), piece_len(y)
            # cut to a common length
            if self.int_eq(la, lb):
                if not self.piece_eq(x, y):
                    return False
                pa.pop(0), pb.pop(0)
                continue
            if self.ge(sub(lb, la)):
                l = la
            elif self.ge(sub(la, lb)):
                l = lb
            elif x.op == "sl" and y.op == "sl" and x.args[0] is y.args[0] and self.int_eq(x.args[1], y.args[1]):
                return False
            else:
                return False
            x1, x2 = self.cut(x, l)
            y1, y2 = self.cut(y, l)
            if not self.piece_eq(x1, y1):
                return False
            pa[0:1] = [x2] if x2 is not None else []
            pb[0:1] = [y2] if y2 is not None else []
        return False

    def _drop_empty(self, ps):
        while ps and ps[0].op == "sl" and self.int_eq(ps[0].args[1], ps[0].args[2]):
            ps = ps[1:]
        return ps

    def cut(self, p, l):
        """split a piece at length l (0 <= l <= len)"""
        n = piece_len(p)
        if self.int_eq(l, n):
            return p, None
        if p.op == "sl":
            m = add(p.args[1], l)
            return T("sl", p.args[0], p.args[1], m), T("sl", p.args[0], m, p.args[2])
        if p.op == "k" and isint(l):
            return T("k", p.args[0][:l]), T("k", p.args[0][l:])
        if p.op == "k":
            b = T("kb", p.args[0])
            return T("sl", b, 0, l), T("sl", b, l, len(p.args[0]))
        raise ValueError("cut")

    def piece_eq(self, x, y):
        if x is y:
            return True
        if x.op == "sl" and y.op == "sl" and x.args[0] is y.args[0]:
            return self.int_eq(x.args[1], y.args[1]) and self.int_eq(x.args[2], y.args[2])
        # element by element, for pieces of constant length
        n = piece_len(x)
        if not isint(n):
            n2 = piece_len(y)
            if isint(n2):
                n = n2
            else:
                l, h = self.const_len(n)
                if l is None:
                    return False
                n = l
        if n > 64:
            return False
        for i in range(n):
            vx, vy = self.el(x, i), self.el(y, i)
            if x.op == "sl" and not isint(vy) and vy.op not in INT_OPS and vy.op != "bv":
                vx = T("elem", x.args[0], add(x.args[1], i))
            elif y.op == "sl" and not isint(vx) and vx.op not in INT_OPS and vx.op != "bv":
                vy = T("elem", y.args[0], add(y.args[1], i))
            if not self.eq(vx, vy):
                return False
        return True

    def const_len(self, n):
        for k in range(0, 9):
            if self.int_eq(n, k):
                return k, k
        return None, None

    def el(self, p, i):
        if p.op == "k":
            return p.args[0][i]
        if p.op == "el":
            return p.args[0]
        return byte_at(p.args[0], add(p.args[1], i))

    def eq(self, a, b):
        """are the values equal under these facts?"""
        if a is b:
            return True
        ia, ib = isint(a), isint(b)
        if ia and ib:
            return a == b
        if not ia and a.op == "vref":
            a = a.args[0]
            return self.eq(a, b)
        if not ib and b.op == "vref":
            return self.eq(a, b.args[0])
        if not ia and not ib:
            # the shape given to an opaque value by its type
            for x, y in ((a, b), (b, a)):
                if y.op in ("fld", "app", "val") and (x.op == "ifn" and x.args[0][:4] == "int:" and x.args[1] is y or x.op in ("u8", "bv") and x.args[0] is y):
                    return True
        if ia or ib or a.op in INT_OPS or b.op in INT_OPS:
            if (not ia and a.op in ("adt", "tup", "seq", "true", "false")) or (not ib and b.op in ("adt", "tup", "seq", "true", "false")):
                return False
            if self.int_eq(a, b):
                return True
            if not ia and not ib and a.op == b.op and a.op in ("ifn", "byte", "elem", "len", "end", "run", "sel"):
                return len(a.args) == len(b.args) and all(self.argeq(x, y) for x, y in zip(a.args, b.args))
            return False
        if iscow(a) or iscow(b) or a.op == "seq" or b.op == "seq":
            ca, cb = content(a), content(b)
            if ca is None or cb is None:
                return False
            return bool(self.seq_eq(ca, cb))
        if a.op == "in" and b.op == "in" and a.args[0] is b.args[0] and not (a.args[1] ^ b.args[1]) & self.mask2(a.args[0]):
            return True
        if a.op in ("true", "false") or b.op in ("true", "false"):
            if a.op in ("true", "false") and b.op in ("true", "false"):
                return False
            t, k = (b, a) if a.op in ("true", "false") else (a, b)
            return self.decide(t) is (k is TRUE)
        if a.op == "adt" and b.op == "adt":
            if a.args[1] != b.args[1] or a.args[0].rsplit("::", 1)[-1] != b.args[0].rsplit("::", 1)[-1]:
                return False
            return len(a.args[2]) == len(b.args[2]) and all(self.eq(x, y) for x, y in zip(a.args[2], b.args[2]))
        if a.op == "tup" and b.op == "tup":
            return len(a.args[0]) == len(b.args[0]) and all(self.eq(x, y) for x, y in zip(a.args[0], b.args[0]))
        if a.op in ("adt", "tup") or b.op in ("adt", "tup"):
            k, t = (a, b) if a.op in ("adt", "tup") else (b, a)
            if k.op == "tup":
                return all(self.eq(x, T("fld", t, 0, i)) for i, x in enumerate(k.args[0]))
            r = self.isv.get(t)
            if r is None:
                from mir import is_struct
                if not is_struct(k.args[0]):
                    return False
                r = 0
            if r != k.args[1]:
                return False
            return all(self.eq(x, T("fld", t, k.args[1], i)) for i, x in enumerate(k.args[2]))
        if a.op == "map" or b.op == "map":
            return self.map_eq(a, b)
        if a.op == b.op and len(a.args) == len(b.args) and all(self.argeq(x, y) for x, y in zip(a.args, b.args)):
            return True
        if a.op in CONDS or b.op in CONDS:
            da, db = self.decide(a), self.decide(b)
            if da is not None or db is not None:
                return da is not None and da == db
            if a.op == "in" and b.op == "in" and a.args[0] is b.args[0]:
                return (a.args[1] ^ b.args[1]) & self.mask(a.args[0]) == 0
            for x, y in ((a, b), (b, a)):
                for v in (True, False):
                    f = self.copy()
                    if f.assume(x, v) and f.decide(y) is not v:
                        return False
            return True
        return False

    def map_eq(self, a, b):
        """the same entries, in any order"""
        ma = a.args if a.op == "map" else (a, ())
        mb = b.args if b.op == "map" else (b, ())
        if ma[0] is not mb[0] or len(ma[1]) != len(mb[1]):
            return False
        rest = list(mb[1])
        for k, v in ma[1]:
            for i, (k2, v2) in enumerate(rest):
                if self.eq(k, k2):
                    if (v is None) != (v2 is None) or v is not None and not self.eq(v, v2):
                        return False
                    del rest[i]
                    break
            else:
                return False
        return True

    def argeq(self, x, y):
        if isinstance(x, Term) or isinstance(y, Term) or isint(x) and isint(y):
            return self.eq(x, y) if isinstance(x, (Term, int)) and isinstance(y, (Term, int)) else False
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.argeq(p, q) for p, q in zip(x, y))
        return x == y

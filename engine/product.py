"""Relational analysis of two programs: implementation against reference.

Both sides run over the same facts; loops are closed by generalising a state with an earlier one at
the same pair of locations (join by anti-unification) until a state is an instance of a known one.
"""
import time
from terms import *
import facts as FX
from facts import Facts, Oracles
from interp import *
from std import Std, ASCII
from mir import subst_ty

_fresh = [0]


def fresh():
    _fresh[0] += 1
    return _fresh[0]


class Budget(Exception):
    pass


class Truncated(Exception):
    pass


class Env:
    def __init__(self, shims=None):
        self.loop_hook = None
        self.ret_hook = None
        self.obligations = None
        self.progress = None
        self.on_truncated = None
        self.strict = False    # obligations that are not decided are split on, not assumed
        self.exact = False
        self.std = Std(shims)
        self.cache = {}
        self.cows = set()
        self.atomic = {}       # side name -> {body key: oracle name}
        self.summaries = {}    # side name -> {body key: handler}
        self.texts = set()     # buffers whose type says UTF-8
        self.ascii_buf = None
        self.infos = {}        # oracle name -> summary info
        self.accel = True
        self.unroll = 0
        self._quiet = None

    def quiet(self):
        if self._quiet is None:
            e = Env.__new__(Env)
            e.__dict__.update(self.__dict__)
            e.loop_hook = None
            e.ret_hook = None
            e.obligations = None
            e.atomic = {}
            e.summaries = {}
            e._quiet = e
            self._quiet = e
        return self._quiet

    # ------------------------------------------------------------ oracles
    def oracle(self, it, side, facts, key, targs, args, aty, rty):
        h = self.summaries.get(side.name, {}).get(key)
        if h is not None:
            return h(it, side, facts, args)
        F = self.atomic.get(side.name, {}).get(key)
        if F is None:
            return None
        return apply_oracle(it, side, facts, F, args, rty)


    def external(self, it, side, facts, F, args, rty):
        v = apply_oracle(it, side, facts, F, args, rty)
        if v is None:
            raise Unsupported("argument of " + F)
        return v


def freeze_arg(it, side, facts, v):
    if isinstance(v, Term):
        if v.op == "ref":
            return freeze_arg(it, side, facts, it.get(side, facts, v.args[0], v.args[1]))
        if v.op == "vref":
            return freeze_arg(it, side, facts, v.args[0])
        if iscow(v):
            return content(v)
        if v.op in ("clo", "fn", "it", "uninit", "box"):
            return None
    return v


def is_parser_ty(rty):
    return (rty is not None and rty[0] == "adt" and last(rty[1]) == "Result" and rty[2] and rty[2][0][0] == "tuple"
            and len(rty[2][0][1]) == 2 and rty[2][0][1][0][0] == "ref" and rty[2][0][1][0][1] == ("slice", U8))


def canon_app(facts, F, args):
    for a in facts.apps.get(F, ()):
        if len(a.args) == len(args) + 1 and all(facts.eq(x, y) if isinstance(x, (Term, int)) else x == y for x, y in zip(a.args[1:], args)):
            return a
    a = T("app", F, *args)
    facts.apps[F] = facts.apps.get(F, ()) + (a,)
    return a


def apply_oracle(it, side, facts, F, args, rty):
    fa = []
    for a in args:
        x = freeze_arg(it, side, facts, a)
        if x is None:
            return None
        fa.append(x)
    prog = side.prog
    if is_parser_ty(rty) and fa and isinstance(fa[0], Term) and fa[0].op == "seq":
        app = canon_app(facts, F, fa)
        s = app.args[1]
        if not s.args[0] and Oracles.minlen.get(F, 0) > 0:
            return err_(T("err", app))
        k = T("ok", app)
        if F in Oracles.most and k not in facts.bools and Oracles.most[F] <= sum(1 for x, v in facts.bools.items() if v and x.op == "ok" and x.args[0].args[0] == F):
            if not facts.assume(neg(k)):
                raise Diverge("restricted")
        if not it.decide(facts, T("ok", app), "ok " + str(F)):
            return err_(T("err", app))
        ps = s.args[0]
        if not ps:
            rest = s
        elif len(ps) == 1 and ps[0].op == "sl":
            rest = mk_seq((T("sl", ps[0].args[0], T("end", app), ps[0].args[2]),))
        else:
            rest = whole(T("rest", app))
        return ok_(tup(rest, it.norm(T("val", app), rty[2][0][1][1], prog)))
    if rty is not None and rty[0] in ("tuple",) and not rty[1]:
        return None
    app = canon_app(facts, F, fa)
    return it.norm(app, rty, prog)


# ---------------------------------------------------------------- states
class State:
    __slots__ = ("sides", "facts", "nsplit", "anc", "trail", "past", "id", "joined")

    def copy(self):
        s = State.__new__(State)
        s.sides = [x.copy() for x in self.sides]
        s.facts = self.facts.copy()
        s.nsplit = self.nsplit
        s.anc = self.anc
        s.trail = self.trail
        s.past = self.past
        s.joined = self.joined
        return s


class Anc:
    """a joint point passed on the way"""
    __slots__ = ("key", "sides", "facts", "nsplit", "up", "gens")


def gc(side):
    """drop what is not live at the stop"""
    roots = []
    for d, f in enumerate(side.frames):
        top = d == len(side.frames) - 1
        if top:
            live = f.body.live_at(f.bb, f.si)
        else:
            # suspended at a call
            t = f.body.blocks[f.bb]["t"]
            tgt = side.frames[d + 1].target
            live = set(f.body.live_in()[tgt]) if tgt is not None else set()
            dest = side.frames[d + 1].dest
            if dest is not None and not dest[1]:
                live.discard(dest[0])
        for l in live:
            if (d, l) in side.mem:
                roots.append((d, l))
    keep = set()
    while roots:
        k = roots.pop()
        if k in keep or k not in side.mem:
            continue
        keep.add(k)
        for r in refs_in(side.mem[k]):
            roots.append(r)
    for k in list(side.mem):
        if k not in keep and k[0] >= 0:
            del side.mem[k]


def snapshot(side, b):
    """position and live memory; numbers of type u8 are left open"""
    m = []
    for k, v in side.mem.items():
        if 0 <= k[0] < len(side.frames) and holds_u8(side.frames[k[0]].body, k[1]):
            v = open_u8(v, b)
        m.append((k, v))
    return (tuple((f.body.key, f.bb, f.si, f.tkey) for f in side.frames), frozenset(m))


_u8 = {}


def holds_u8(body, l):
    r = _u8.get((body.key, id(body), l))
    if r is None:
        s = str(body.locals[l]) if isinstance(l, int) else ""
        r = "'u8')" in s and not any("'%s'" % n in s for n in ("usize", "u16", "u32", "u64", "i32", "i64", "char", "closure", "param"))
        _u8[(body.key, id(body), l)] = r
    return r


def open_u8(v, b):
    if isint(v):
        return "u8"
    t = as_tab(v)
    if t is not None and t[1] is b:
        return "u8"
    if v.op == "adt":
        return ("adt", v.args[0], v.args[1]) + tuple(open_u8(x, b) for x in v.args[2])
    if v.op == "tup":
        return ("tup",) + tuple(open_u8(x, b) for x in v.args[0])
    return v


_refs = {}


def refs_in(v):
    if not isinstance(v, Term):
        return ()
    r = _refs.get(v)
    if r is None:
        out = set()
        st = [v]
        seen = set()
        while st:
            x = st.pop()
            if isinstance(x, Term):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "ref" or x.op == "box":
                    out.add(x.args[0])
                elif x.op == "it" and x.args[0] == "itermut":
                    out.add(x.args[1])
                st.extend(x.args)
            elif isinstance(x, tuple):
                st.extend(x)
        r = tuple(out)
        _refs[v] = r
    return r


def shape(v):
    """what must agree between two states for them to be joined"""
    if isint(v):
        return "i"
    o = v.op
    if o in INT_OPS:
        return "i"
    if o == "seq":
        if any(p.op == "el" and not (isint(p.args[0]) or p.args[0].op in INT_OPS) for p in v.args[0]):
            return "sv"
        return "s"
    if o == "cowc" or iscow(v):
        return "cow"
    if o == "adt":
        n = last(v.args[0])
        if n in ("Range", "RangeInclusive") and all(isint(x) for x in v.args[2][:2]):
            return (n, v.args[2][0], v.args[2][1])
        return (n, v.args[1]) + tuple(shape(x) for x in v.args[2])
    if o == "tup":
        return ("t",) + tuple(shape(x) for x in v.args[0])
    if o in ("true", "false"):
        return o
    if o == "vref":
        return ("&", shape(v.args[0]))
    if o == "clo":
        return ("clo", v.args[0]) + tuple(shape(x) for x in v.args[2])
    if o == "fn":
        return v.uid
    if o == "it":
        return ("it", v.args[0]) + tuple(shape(x) if isinstance(x, Term) else "i" for x in v.args[1:])
    if o == "map":
        return ("map", v.args[0].uid if v.args[0] is not None else None, len(v.args[1]))
    if o in ("ref", "box"):
        return ("ref", repr(v.args[0]))
    if o in COND_OPS:
        return "b"
    return "o"


COND_OPS = {"in", "ge", "eq", "lit", "not", "and", "or", "ok", "is", "streq", "bv", "adj", "utf8", "oeq", "mhas"}


def side_key(side):
    if side.ret is not None:
        return ("ret", shape(side.ret) if isinstance(side.ret, Term) else "i") + mem_key(side)
    loc = tuple((f.body.key, f.bb, f.si, f.tkey) for f in side.frames)
    return (loc,) + mem_key(side)


def mem_key(side):
    return tuple(sorted(((repr(k), shape(v)) for k, v in side.mem.items()), key=lambda p: p[0]))


class Join:
    """anti-unification of an older and a newer state"""

    def __init__(self, old, new):
        self.of = old
        self.nf = new
        self.ints = []   # (old, new, g)
        self.seqs = []   # (old, new, gb)
        self.opq = []    # (old, new, gv)
        self.om = {}
        self.nm = {}
        self.memo = {}

    def same(self, a, b):
        return a is b or (isint(a) and isint(b) and a == b)

    def int_(self, a, b):
        if self.same(a, b):
            return a
        if self.nf.int_eq(a, b):
            return a
        if isinstance(a, Term) and isinstance(b, Term) and a.op == "byte" and b.op == "byte" and a.args[0] is b.args[0]:
            return byte_at(a.args[0], self.int_(a.args[1], b.args[1]))
        for o, n, g in self.ints:
            d1 = sub(a, o)
            d2 = sub(b, n)
            if isint(d1) and isint(d2) and d1 == d2:
                return add(g, d1)
        for o, n, g in self.ints:
            d1 = sub(a, o)
            d2 = sub(b, n)
            if self.same(d1, d2):
                return add(g, d1)
            if isint(d1) and self.nf.int_eq(d1, d2):
                return add(g, d1)
            if isint(d2) and self.of.int_eq(d1, d2):
                return add(g, d2)
            if self.of.int_eq(a, o) and self.nf.int_eq(b, n):
                return g
        ba, bb = as_tab(a) if not isint(a) else (None, 1), as_tab(b) if not isint(b) else (None, 1)
        if ba is not None and bb is not None and (isint(a) and 0 <= a < 256 or not isint(a)) and (isint(b) and 0 <= b < 256 or not isint(b)) and not (isint(a) and isint(b)):
            g = T("ob", fresh())
        else:
            g = T("g", fresh(), MAXLEN)
        self.ints.append((a, b, g))
        self.om[g] = a
        self.nm[g] = b
        return g

    def seq(self, a, b):
        if a is b:
            return a
        pa, pb = a.args[0], b.args[0]
        if not pa and len(pb) == 1 and pb[0].op == "sl":
            pa = (T("sl", pb[0].args[0], pb[0].args[1], pb[0].args[1]),) if not self._prefers_end(pb[0]) else (T("sl", pb[0].args[0], pb[0].args[2], pb[0].args[2]),)
        elif not pb and len(pa) == 1 and pa[0].op == "sl":
            pb = (T("sl", pa[0].args[0], pa[0].args[2], pa[0].args[2]),) if self._prefers_end(pa[0]) else (T("sl", pa[0].args[0], pa[0].args[1], pa[0].args[1]),)
        if len(pa) == len(pb) and all(x.op == y.op for x, y in zip(pa, pb)):
            ok = True
            for x, y in zip(pa, pb):
                if x.op == "sl" and x.args[0] is not y.args[0]:
                    ok = False
                elif x.op == "k" and x is not y:
                    ok = False
                elif x.op == "el" and not self.joinable(x.args[0], y.args[0]):
                    ok = False
            if ok and len(pa) == 1:
                out = []
                for x, y in zip(pa, pb):
                    if x.op == "sl":
                        out.append(T("sl", x.args[0], self.int_(x.args[1], y.args[1]), self.int_(x.args[2], y.args[2])))
                    elif x.op == "k":
                        out.append(x)
                    else:
                        out.append(norm_el(self.val(x.args[0], y.args[0])))
                return T("seq", tuple(out))
        for o, n, g in self.seqs:
            if (o is a or self.of.seq_eq(o, a)) and (n is b or self.nf.seq_eq(n, b)):
                return whole(g)
        g = T("gb", fresh())
        self.seqs.append((a, b, g))
        self.om[g] = a
        self.nm[g] = b
        return whole(g)

    def _prefers_end(self, p):
        # a remaining input ends where the buffer ends
        e = p.args[2]
        return isinstance(e, Term) and e.op == "len"

    def joinable(self, a, b):
        return shape(a) == shape(b)

    def val(self, a, b):
        if self.same(a, b):
            return a
        k = (a, b)
        r = self.memo.get(k)
        if r is None:
            r = self._val(a, b)
            self.memo[k] = r
        return r

    def _val(self, a, b):
        if isint(a) or isint(b) or a.op in INT_OPS or b.op in INT_OPS:
            if (not isint(a) and a.op not in INT_OPS) or (not isint(b) and b.op not in INT_OPS):
                raise NoJoin()
            return self.int_(a, b)
        if iscow(a) and iscow(b):
            if a.op == "adt" and b.op == "adt" and a.args[1] == b.args[1]:
                return mk_adt(a.args[0], a.args[1], (self.seq(content(a), content(b)),))
            return T("cowc", self.seq(content(a), content(b)))
        if (iscow(a) and b.op in OPAQUE) or (iscow(b) and a.op in OPAQUE):
            return T("cowc", self.seq(content(a), content(b)))
        if a.op == "seq" and b.op == "seq":
            return self.seq(a, b)
        if a.op != b.op:
            if a.op in COND_OPS and b.op in COND_OPS:
                return self.opaque(a, b, "bv")
            if a.op in OPAQUE and b.op in OPAQUE:
                return self.opaque(a, b)
            raise NoJoin()
        o = a.op
        if o == "adt":
            if a.args[1] != b.args[1]:
                raise NoJoin()
            return mk_adt(a.args[0], a.args[1], [self.val(x, y) for x, y in zip(a.args[2], b.args[2])])
        if o == "tup":
            if len(a.args[0]) != len(b.args[0]):
                raise NoJoin()
            return T("tup", tuple(self.val(x, y) for x, y in zip(a.args[0], b.args[0])))
        if o == "vref":
            return vref(self.val(a.args[0], b.args[0]))
        if o == "clo":
            if a.args[0] != b.args[0] or a.args[1] != b.args[1]:
                raise NoJoin()
            return T("clo", a.args[0], a.args[1], tuple(self.val(x, y) for x, y in zip(a.args[2], b.args[2])))
        if o == "it":
            if a.args[0] != b.args[0]:
                raise NoJoin()
            out = []
            for x, y in zip(a.args[1:], b.args[1:]):
                if isinstance(x, (Term, int)) and isinstance(y, (Term, int)):
                    out.append(self.val(x, y))
                elif x == y:
                    out.append(x)
                else:
                    raise NoJoin()
            return T("it", a.args[0], *out)
        if o == "map":
            if a.args[0] is not b.args[0] or len(a.args[1]) != len(b.args[1]):
                raise NoJoin()
            return T("map", a.args[0], tuple((self.val(k1, k2), self.val(v1, v2) if v1 is not None and v2 is not None else self._none(v1, v2)) for (k1, v1), (k2, v2) in zip(a.args[1], b.args[1])))
        if o in COND_OPS:
            return self.opaque(a, b, "bv")
        if o in OPAQUE:
            return self.opaque(a, b)
        raise NoJoin()

    def _none(self, a, b):
        if a is None and b is None:
            return None
        raise NoJoin()

    def opaque(self, a, b, kind=None):
        for o, n, g in self.opq:
            if (o is a or self.of.eq(o, a)) and (n is b or self.nf.eq(n, b)):
                return g
        # the same opaque function of joined arguments
        g = T("gv", fresh())
        if kind == "bv":
            g = T("bv", g)
        self.opq.append((a, b, g))
        self.om[g] = a
        self.nm[g] = b
        return g


class NoJoin(Exception):
    pass


def int_terms(v, acc, bufs):
    """integer terms (positions) in a value"""
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "sl":
                for y in x.args[1:]:
                    if isinstance(y, Term):
                        acc.append(y)
                bufs.add(x.args[0])
                continue
            if x.op in INT_OPS and x.op not in BYTE_OPS and x.op != "tab":
                acc.append(x)
                continue
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)


def join_states(old, new):
    """old: Anc, new: State -> generalised (sides, facts) or None"""
    j = Join(old.facts, new.facts)
    sides = []
    try:
        for so, sn in zip(old.sides, new.sides):
            s = sn.copy()
            if set(so.mem) != set(sn.mem):
                return None
            s.mem = {}
            # remaining inputs first, so that the positions of the parse name the symbols
            items = sorted(sn.mem.items(), key=lambda p: (0 if isinstance(p[1], Term) and p[1].op in ("seq", "it") else 1, repr(p[0])))
            for k, v in items:
                s.mem[k] = j.val(so.mem[k], v)
            if sn.ret is not None:
                s.ret = j.val(so.ret, sn.ret)
            sides.append(s)
    except NoJoin:
        return None
    if not j.om:
        return None
    f = old.facts.copy()
    gen_facts(j, f, old.facts, new.facts, sides)
    return sides, f, j


def gen_facts(j, f, of, nf, sides):
    gs = [g for g in j.om if g.op == "g"]
    gbs = [g for g in j.om if g.op == "gb"]
    obs = [g for g in j.om if g.op == "ob"]
    om = dict(j.om)
    nm = dict(j.nm)
    terms = []
    bufs = set()
    for s in sides:
        for v in s.mem.values():
            int_terms(v, terms, bufs)
        if s.ret is not None:
            int_terms(s.ret, terms, bufs)
    for gb in gbs:
        terms.append(T("len", gb))
        om[T("len", gb)] = seq_len(j.om[gb])
        nm[T("len", gb)] = seq_len(j.nm[gb])
    atoms = []
    for t in terms:
        if t not in atoms:
            atoms.append(t)
    seen = set()

    def known(e):
        if isint(e) or e in seen:
            return
        seen.add(e)
        eo, en = subst(e, om), subst(e, nm)
        if of.ge(eo) and nf.ge(en):
            f.lin = f.lin + (e,)
            f.dirty()
            return True
        return False
    newatoms = [a for a in atoms if any(x in j.om or x.op == "gb" for x in atoms_of(a))]
    for a in newatoms:
        known(sub(a, 1)) or known(a)
        for b in atoms:
            if a is b:
                continue
            if not known(sub(sub(a, b), 1)):
                known(sub(a, b))
            if not known(sub(sub(b, a), 1)):
                known(sub(b, a))
    for g in obs:
        m = byte_mask(of, j.om[g]) | byte_mask(nf, j.nm[g])
        if m != FULL:
            f.masks[g] = m
            f.dirty()
    for g in gs:
        for b in bufs:
            if b.op in ("gb", "kb"):
                continue
            for c in (-1, 0, 1, 2):
                mo = byte_mask(of, byte_at(b, add(j.om[g], c)))
                if mo == FULL:
                    continue
                m = mo | byte_mask(nf, byte_at(b, add(j.nm[g], c)))
                if m != FULL:
                    f.masks[byte_at(b, add(g, c))] = m
                    f.dirty()
    for g in gbs:
        for S in class_cands(of, nf):
            if seq_in(of, j.om[g], S) and seq_in(nf, j.nm[g], S):
                f.cls = f.cls + ((g, 0, T("len", g), S),)
                break
    # stretches between positions that moved
    for s in sides:
        for v in s.mem.values():
            for x in atoms_of(v):
                if x.op == "sl" and x.args[0].op not in ("gb",) and any(y.op == "g" for y in atoms_of((x.args[1], x.args[2]))):
                    if isinstance(x.args[2], Term) and x.args[2].op == "len":
                        continue
                    so = subst(x, om)
                    sn = subst(x, nm)
                    if so.op != "sl" or sn.op != "sl":
                        continue
                    if of.stretch(so.args[0], so.args[1], so.args[2], ASCII) and nf.stretch(sn.args[0], sn.args[1], sn.args[2], ASCII):
                        c = (x.args[0], x.args[1], x.args[2], ASCII)
                        if c not in f.cls:
                            f.cls = f.cls + (c,)
    # opaque booleans and variants
    for o, n, g in j.opq:
        if g.op == "bv":
            a, b = of.decide(o), nf.decide(n)
            if a is not None and a == b:
                f.bools[g] = a
        else:
            a, b = of.isv.get(o), nf.isv.get(n)
            if a is not None and a == b:
                f.isv[g] = a
    f.dirty()


def class_cands(of, nf):
    out = [ASCII]
    return out


def byte_mask(f, b):
    if isint(b):
        return 1 << (b & 255)
    t, a = as_tab(b)
    m = f.mask(a)
    if t is IDENT:
        return m
    r = 0
    for i in range(256):
        if m >> i & 1:
            r |= 1 << (t[i] & 255)
    return r


def seq_in(f, s, S):
    for p in s.args[0]:
        if p.op == "k":
            if any(not S >> b & 1 for b in p.args[0]):
                return False
        elif p.op == "el":
            if isint(p.args[0]) or as_tab(p.args[0]) is None or byte_mask(f, p.args[0]) & ~S:
                return False
        elif not f.stretch(p.args[0], p.args[1], p.args[2], S):
            return False
    return True


# ---------------------------------------------------------------- instance check
class Match:
    """is the newer state an instance of a generalised one?"""

    def __init__(self, gen, new):
        self.gen = gen
        self.nf = new
        self.th = {}

    def val(self, a, b):
        """bind the symbols of a so that it equals b"""
        if isinstance(a, Term):
            if a.op in ("g", "ob"):
                t = self.th.get(a)
                if t is None:
                    self.th[a] = b
                    return isint(b) or b.op in INT_OPS
                return self.nf.eq(t, b)
            if a.op in ("gv",):
                t = self.th.get(a)
                if t is None:
                    self.th[a] = b
                    return True
                return self.nf.eq(t, b)
            if a.op == "lin":
                c, its = a.args
                un = [(x, k) for x, k in its if x.op == "g" and x not in self.th]
                if len(un) == 1 and abs(un[0][1]) == 1:
                    x, k = un[0]
                    rest = self.sub(sub(a, scale(x, k)))
                    self.th[x] = scale(sub(b, rest), k)
                    return True
                if not un:
                    return self.nf.int_eq(self.sub(a), b)
                if a is b:
                    return self._self(a)
                return False
            if a.op == "seq":
                if not (isinstance(b, Term) and b.op == "seq"):
                    return False
                return self.seq(a, b)
            if a.op == "cowc":
                cb = content(b) if isinstance(b, Term) else None
                return cb is not None and self.seq(a.args[0], cb)
        if a is b:
            return self._self(a)
        if isint(a) or isint(b):
            if isint(a) and isint(b):
                return a == b
            if isint(a):
                return b.op in INT_OPS and self.nf.int_eq(a, b)
            if a.op in INT_OPS:
                return self.tryeq(a, b)
            return False
        if iscow(a) and iscow(b):
            if a.op == "adt" and (b.op != "adt" or b.args[1] != a.args[1]):
                return False
            return self.seq(content(a), content(b))
        if a.op == b.op and len(a.args) == len(b.args):
            save = dict(self.th)
            if all(self.arg(x, y) for x, y in zip(a.args, b.args)):
                return True
            self.th = save
        return self.tryeq(a, b)

    def tryeq(self, a, b):
        if all(x in self.th or x.op not in ("g", "gb", "gv", "ob") for x in atoms_of(a)):
            return self.nf.eq(self.sub(a), b)
        return False

    def arg(self, x, y):
        if isinstance(x, (Term, int)) and isinstance(y, (Term, int)):
            return self.val(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.arg(p, q) for p, q in zip(x, y))
        return x == y

    def _self(self, a):
        """a is identical in both states: its symbols stand for themselves"""
        if isinstance(a, Term):
            for x in atoms_of(a):
                if x.op in ("g", "gb", "gv", "ob"):
                    t = self.th.get(x)
                    if t is None:
                        self.th[x] = whole(x) if x.op == "gb" else x
                    elif x.op == "gb":
                        if t is not whole(x):
                            return False
                    elif t is not x:
                        return False
        return True

    def seq(self, a, b):
        pa = a.args[0]
        if len(pa) == 1 and pa[0].op == "sl" and pa[0].args[0].op == "gb" and a is whole(pa[0].args[0]):
            g = pa[0].args[0]
            t = self.th.get(g)
            if t is None:
                self.th[g] = b
                return True
            return bool(self.nf.seq_eq(t, b))
        pb = b.args[0]
        if len(pa) == 1 and pa[0].op == "sl" and not pb:
            # empty remainder: position it at the end
            e = self.sub_known(pa[0].args[2])
            if e is None:
                e = self.sub_known(pa[0].args[1])
                if e is None:
                    return False
                return self.val(pa[0].args[2], e)
            return self.val(pa[0].args[1], e)
        if len(pa) != len(pb):
            if all(x in self.th or x.op not in ("g", "gb", "gv", "ob") for x in atoms_of(a)):
                return bool(self.nf.seq_eq(self.sub(a), b))
            return False
        for x, y in zip(pa, pb):
            if x.op != y.op:
                return False
            if x.op == "sl":
                if x.args[0] is not y.args[0]:
                    return False
                if not self.val(x.args[1], y.args[1]) or not self.val(x.args[2], y.args[2]):
                    return False
            elif x.op == "k":
                if x is not y:
                    return False
            elif not self.val(x.args[0], y.args[0]):
                return False
        return True

    def sub_known(self, t):
        if isint(t):
            return t
        for x in atoms_of(t):
            if x.op in ("g", "gb", "gv", "ob") and x not in self.th:
                return None
        return self.sub(t)

    def sub(self, t):
        m = {}
        for k, v in self.th.items():
            if k.op == "gb":
                m[k] = v
            else:
                m[k] = v
        return subst_gb(t, m)


def subst_gb(t, m):
    """substitute symbols; buffers map to sequences"""
    bm = {k: v for k, v in m.items() if isinstance(k, Term) and k.op == "gb"}
    im = {k: v for k, v in m.items() if k not in bm}
    if not bm:
        return subst(t, im)
    for k, v in bm.items():
        im[T("len", k)] = subst(seq_len(v), {}) if isinstance(v, Term) else v
    memo = {}

    def go(x):
        if x in im:
            return im[x]
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "seq":
            out = []
            for p in x.args[0]:
                if p.op == "sl" and p.args[0] in bm:
                    v = bm[p.args[0]]
                    if p is T("sl", p.args[0], 0, T("len", p.args[0])):
                        out.extend(v.args[0])
                        continue
                    raise NoJoin()
                out.append(go(p))
            r = mk_seq(out)
        elif x.op == "byte" and x.args[0] in bm:
            v = bm[x.args[0]]
            ps = v.args[0]
            if len(ps) == 1 and ps[0].op == "sl":
                r = byte_at(ps[0].args[0], add(ps[0].args[1], go(x.args[1]) if isinstance(x.args[1], Term) else x.args[1]))
            elif x.args[0] is v:
                r = x
            else:
                raise NoJoin()
        else:
            if x.op in ("lit", "run", "sl") and any(isinstance(y, Term) and y in bm for y in x.args):
                raise NoJoin()
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t) if isinstance(t, Term) else t


def instance(gen, st):
    """is state st (State) an instance of gen (Anc)?"""
    m = Match(gen, st.facts)
    pairs = []
    for so, sn in zip(gen.sides, st.sides):
        if set(so.mem) != set(sn.mem):
            return False
        for k in so.mem:
            pairs.append((so.mem[k], sn.mem[k]))
        if (so.ret is None) != (sn.ret is None):
            return False
        if so.ret is not None:
            pairs.append((so.ret, sn.ret))
    pairs.sort(key=lambda p: 0 if isinstance(p[0], Term) and p[0].op in ("g", "seq", "it") else 1)
    late = []
    try:
        for a, b in pairs:
            if not m.val(a, b):
                late.append((a, b))
        for a, b in late:
            if not m.val(a, b):
                return False
        return holds(gen.facts, st.facts, m)
    except NoJoin:
        return False
    except ValueError:
        return False


def meet(a, b):
    """what both know"""
    f = a.copy()
    lin = [e for e in a.lin if b.ge(e)]
    lin += [e for e in b.lin if e not in lin and a.ge(e)]
    f.lin = tuple(lin)
    masks = {}
    for x in list(a.masks) + list(b.masks):
        if x not in masks:
            m = a.mask(x) | b.mask(x)
            if m != FULL:
                masks[x] = m
    f.masks = masks
    bools = {}
    for p, q in ((a, b), (b, a)):
        for c, v in p.bools.items():
            if c not in bools and q.decide(c) is v:
                bools[c] = v
    f.bools = bools
    isv = {}
    for t, v in a.isv.items():
        w = b.isv.get(t)
        if w is None:
            continue
        if v == w:
            isv[t] = v
        else:
            u = (v if isinstance(v, frozenset) else frozenset((v,))) | (w if isinstance(w, frozenset) else frozenset((w,)))
            isv[t] = u
    f.isv = isv
    negs = [x for x in a.negs if b.decide(x) is False]
    negs += [x for x in b.negs if x not in negs and a.decide(x) is False]
    f.negs = tuple(negs)
    f.cls = tuple(x for x in a.cls if x in b.cls)
    f.ors = tuple(x for x in a.ors if x in b.ors)
    f.apps = dict(a.apps)
    for k, v in b.apps.items():
        o = f.apps.get(k, ())
        f.apps[k] = o + tuple(x for x in v if x not in o)
    f.dirty()
    return f


def both(a, b):
    """what either knows"""
    f = a.copy()
    f.lin = a.lin + tuple(e for e in b.lin if not a.ge(e))
    for x, m in b.masks.items():
        f.masks[x] = a.mask(x) & m
    f.bools.update(b.bools)
    for t, v in b.isv.items():
        o = f.isv.get(t)
        if o is None or not isinstance(v, frozenset) or isinstance(o, frozenset) and len(v) < len(o):
            f.isv[t] = v
    f.negs = a.negs + tuple(x for x in b.negs if x not in a.negs)
    f.cls = a.cls + tuple(x for x in b.cls if x not in a.cls)
    f.ors = a.ors + tuple(x for x in b.ors if x not in a.ors)
    for k, v in b.apps.items():
        o = f.apps.get(k, ())
        f.apps[k] = o + tuple(x for x in v if x not in o)
    f.dirty()
    return f


def fixed(m, t):
    """symbols of t that the match did not bind stand for themselves"""
    return m.sub(t)


def holds(gf, nf, m):
    for e in gf.lin:
        if not nf.ge(m.sub(e)):
            return False
    for a, k in gf.masks.items():
        x = m.sub(a)
        if byte_mask(nf, x) & ~k:
            return False
    for c, v in gf.bools.items():
        if nf.decide(m.sub(c)) is not v:
            return False
    for t, v in gf.isv.items():
        r = nf.isv.get(m.sub(t))
        if r is None:
            return False
        if isinstance(v, frozenset):
            if isinstance(r, frozenset):
                if not r <= v:
                    return False
            elif r not in v:
                return False
        elif r != v:
            return False
    for x in gf.negs:
        if nf.decide(m.sub(x)) is not False:
            return False
    for x in gf.ors:
        if nf.decide(m.sub(x)) is not True:
            return False
    for (b, lo, hi, k) in gf.cls:
        if b.op == "gb" and b in m.th:
            v = m.th[b]
            if not seq_in(nf, v, k):
                return False
            continue
        if not nf.stretch(b, m.sub(lo), m.sub(hi), k):
            return False
    return True


# ---------------------------------------------------------------- scan loops
def gen_step(t0, t1, k, ch):
    """generalise a value that one iteration turns from t0 into t1: integers that grew by one become t0+k"""
    if t0 is t1 or (isint(t0) and isint(t1) and t0 == t1):
        return t0
    if isint(t0) or isint(t1) or t0.op in INT_OPS or t1.op in INT_OPS:
        if (not isint(t0) and t0.op not in INT_OPS) or (not isint(t1) and t1.op not in INT_OPS):
            raise NoJoin()
        d = sub(t1, t0)
        if isint(d) and d in (1, -1):
            ch.append((t0, t1))
            return add(t0, scale(k, d))
        raise NoJoin()
    if t0.op == "seq" and t1.op == "seq":
        p, q = t0.args[0], t1.args[0]
        if len(p) == len(q) and all(x.op == y.op for x, y in zip(p, q)):
            out = []
            for x, y in zip(p, q):
                if x is y:
                    out.append(x)
                elif x.op == "sl" and x.args[0] is y.args[0]:
                    out.append(T("sl", x.args[0], gen_step(x.args[1], y.args[1], k, ch), gen_step(x.args[2], y.args[2], k, ch)))
                else:
                    raise NoJoin()
            return T("seq", tuple(out))
        # an empty prefix that grows
        if not p and len(q) == 1 and q[0].op == "sl":
            d = sub(q[0].args[2], q[0].args[1])
            if isint(d) and d == 1:
                ch.append((0, 1))
                return T("seq", (T("sl", q[0].args[0], q[0].args[1], add(q[0].args[1], k)),))
        raise NoJoin()
    if t0.op != t1.op:
        raise NoJoin()
    if t0.op == "adt":
        if t0.args[1] != t1.args[1]:
            raise NoJoin()
        return mk_adt(t0.args[0], t0.args[1], [gen_step(x, y, k, ch) for x, y in zip(t0.args[2], t1.args[2])])
    if t0.op == "tup":
        return T("tup", tuple(gen_step(x, y, k, ch) for x, y in zip(t0.args[0], t1.args[0])))
    if t0.op == "vref":
        return vref(gen_step(t0.args[0], t1.args[0], k, ch))
    if t0.op == "clo" and t0.args[0] == t1.args[0]:
        return T("clo", t0.args[0], t0.args[1], tuple(gen_step(x, y, k, ch) for x, y in zip(t0.args[2], t1.args[2])))
    if t0.op == "it" and t0.args[0] == t1.args[0]:
        return T("it", t0.args[0], *[gen_step(x, y, k, ch) if isinstance(x, (Term, int)) else x for x, y in zip(t0.args[1:], t1.args[1:])])
    raise NoJoin()


class TrialStop(Exception):
    pass


class Accel:
    def __init__(self, env):
        self.env = env
        self.depth = 0
        self.failed = {}

    def trial(self, side, facts, f, head):
        """all paths of one iteration -> (iterating [(side, facts, conds)], number of exits) or None"""
        d = len(side.frames)
        out = []
        exits = 0
        env = self.env.quiet_oracles()
        it = Interp(env)
        work = [(side.copy(), facts.copy(), (), True)]
        n = 0
        entered = []

        def hook(it_, s, fx, fr, bb, entry):
            if len(s.frames) == d and bb == head:
                s.stopped = True
                return
            if len(s.frames) < d:
                raise TrialStop()
            if entry and self.depth < 3:
                self.depth += 1
                try:
                    self.try_loop(it_, s, fx, fr, bb)
                finally:
                    self.depth -= 1
            else:
                c = fr.visits.get(bb, 0) + 1
                fr.visits[bb] = c
                if c > 20:
                    raise Unsupported("inner loop")
        env.loop_hook = hook
        while work:
            n += 1
            if n > 40:
                return None
            s, fx, conds, start = work.pop()
            s.stopped = False
            try:
                # run until the head is reached again or the loop is left
                body = f.body.loops()[head]
                m = 0
                while True:
                    it.step(s, fx)
                    m += 1
                    if s.stopped:
                        out.append((s, fx, conds))
                        break
                    if s.ret is not None or len(s.frames) < d or (len(s.frames) == d and s.frames[-1].bb not in body):
                        exits += 1
                        break
                    if m > 400:
                        return None
            except Split as sp:
                if len(conds) > 8:
                    return None
                for c in sp.alts:
                    f2 = fx.copy()
                    if f2.assume(c):
                        work.append((s.copy(), f2, conds + (c,), False))
            except (TrialStop, Diverge):
                exits += 1
            except Unsupported:
                return None
            if len(out) > 1:
                return None
        return out, exits

    def try_loop(self, it, side, facts, f, head):
        key = (side.name, head, f.tkey) + tuple((g.body.key, g.bb) for g in side.frames[:-1]) + (f.body.key,)
        n = self.failed.get(key, 0)
        if n > 12 and self.env.exact:
            # never a scan so far
            return False
        r = self.try_loop0(it, side, facts, f, head)
        if r:
            self.failed[key] = -1000
            return True
        if r is None:
            return False
        self.failed[key] = n + 1
        return False

    def try_loop0(self, it, side, facts, f, head):
        """replace a scan loop at its head by its closed form; mutates side/facts; True if done"""
        r = self.trial(side, facts, f, head)
        if r is not None and not r[0]:
            return None
        if r is None or len(r[0]) != 1:
            return False
        s1, f1, _ = r[0][0]
        gc(s1)
        s0 = side.copy()
        gc(s0)
        k = T("g", fresh(), MAXLEN)
        ch = []
        gmem = {}
        try:
            for key, v1 in s1.mem.items():
                v0 = s0.mem.get(key)
                if v0 is None:
                    return False
                gmem[key] = gen_step(v0, v1, k, ch)
        except NoJoin:
            return False
        if not ch:
            return False
        sg = side.copy()
        for key, v in gmem.items():
            sg.mem[key] = v
        fg = facts.copy()
        fg.lin = fg.lin + (k,)
        fg.dirty()
        r = self.trial(sg, fg, f, head)
        if r is None or len(r[0]) != 1:
            return False
        s2, f2, conds = r[0][0]
        gc(s2)
        k1 = add(k, 1)
        for key, v in gmem.items():
            w = s2.mem.get(key)
            if w is None:
                return False
            want = subst(v, {k: k1}) if isinstance(v, Term) else v
            if not f2.eq(want, w):
                return False
        # the condition of one more iteration
        buf = pos = end = None
        S = FULL
        for c in conds:
            cs = c.args[0] if c.op == "and" else (c,)
            for c in cs:
                if c.op == "in" and c.args[0].op == "byte":
                    b, p = c.args[0].args
                    m = c.args[1]
                elif c.op == "lit" and len(c.args[3]) == 1:
                    b, p, e, ms = c.args
                    m = ms[0]
                    if end is None:
                        end = e
                    elif end is not e and not facts.int_eq(end, e):
                        return False
                elif c.op == "ge":
                    # E - P - k - 1 >= 0
                    e = add(add(c.args[0], k), 1)
                    if k in atoms_of(e):
                        return False
                    if self._bound is None:
                        pass
                    p = None
                    bnd = e  # number of iterations possible
                    if end is not None and isinstance(end, tuple):
                        if not facts.int_eq(end[1], bnd):
                            return False
                    elif end is None:
                        end = ("n", bnd)
                    continue
                else:
                    return False
                if buf is None:
                    buf, pos = b, p
                elif buf is not b or not facts.int_eq(pos, p):
                    return False
                S &= m
        if buf is None:
            return False
        P0 = sub(pos, k)
        if isinstance(P0, Term) and k in atoms_of(P0):
            return False
        if end is None:
            return False
        if isinstance(end, tuple):
            end = add(P0, end[1])
        if isinstance(end, Term) and k in atoms_of(end):
            return False
        if not facts.ge(sub(end, P0)):
            return False
        run = mk_run(facts, S, buf, P0, end)
        kk = sub(run, P0)
        for key, v in gmem.items():
            side.mem[key] = mk_shift(facts, v, k, kk)
        return True

    _bound = None


def mk_shift(facts, v, k, kk):
    return subst(v, {k: kk}) if isinstance(v, Term) else v


def mk_run(facts, S, buf, P, E):
    """first position >= P whose byte is not in S, or E"""
    if facts.mask(byte_at(buf, P)) & S == 0 or facts.ge(sub(P, E)):
        return P
    for _ in range(8):
        q = sub(P, 1)
        if isint(q) and q < 0:
            break
        if facts.mask(byte_at(buf, q)) & ~S == 0 and facts.ge(q):
            P = q
        else:
            break
    # the same scan may have been named before, from what has since been found to be the same start,
    # or with a class that differs only in bytes known not to be there
    known = FULL
    for (b, x, y, k) in facts.cls:
        if b is buf and known & ~k and facts.ge(sub(P, x)) and facts.ge(sub(y, E)):
            known &= k
    rs = facts._runs(buf, P, E)
    for r in rs:
        if r.args[0] == S and r.args[2] is P and r.args[3] is E:
            return r
        if known & ~r.args[0] and r.args[2] is not P and r is not P and facts.ge(sub(P, r.args[2])) and facts.ge(sub(r, E)) or known & ~r.args[0] and r.args[2] is P and facts.ge(sub(r, E)):
            known &= r.args[0]
    for r in rs:
        if not (r.args[0] ^ S) & known and (r.args[0] != S or r.args[2] is not P) and facts.int_eq(r.args[2], P) and facts.int_eq(r.args[3], E):
            return r
    for r in facts._runs(buf, P, E):
        if r.args[0] == S and r.args[2] is not P and facts.int_eq(r.args[2], P) and facts.int_eq(r.args[3], E):
            return r
    return T("run", S, buf, P, E)


# ---------------------------------------------------------------- exploration
class Mismatch:
    def __init__(self, kind, detail, where, facts):
        self.kind = kind
        self.detail = detail
        self.where = where
        self.facts = facts

    def __repr__(self):
        return "%s: %s at %s" % (self.kind, self.detail, self.where)


class Product:
    def __init__(self, env, compare=None, max_states=4000, max_time=60, log=None):
        self.env = env
        self.compare = compare
        self.max_states = max_states
        self.t_end = time.time() + max_time
        self.results = 0
        self.mismatches = []
        self.unsupported = []
        self.states = 0
        self.joins = 0
        self.pruned = 0
        self.diverged = 0
        self.visited = {}
        self.log = log
        self.accel = Accel(env)
        self.exact = False      # no joins: paths that go round a loop more often than `unroll` are left out
        self.truncated = 0
        self.max_mismatches = 1
        self.weak = False       # states with the same memory on return from a call continue as one
        self.parked = {}
        self.shard = None
        self.united = 0
        self.panics = []

    # env with hooks for the trial iterations: oracles stay, obligations are off
    def on_head(self, it, side, facts, f, bb, entry):
        key = bb
        pg = self.env.progress
        if entry:
            if self.env.accel:
                self.accel.try_loop(it, side, facts, f, bb)
            if pg is not None:
                pg.head(side, facts, f, bb, True)
            f.visits[key] = (side.nsplit, 0, concrete_loop(side, f, bb))
            return
        if pg is not None:
            pg.head(side, facts, f, bb, False)
        ns, cnt, sig = f.visits.get(key, (-1, 0, ()))
        sig2 = concrete_loop(side, f, bb)
        if side.nsplit == ns or (sig2 and sig != sig2):
            if cnt > 1100:
                raise Unsupported("concrete loop of more than 1100 iterations")
            f.visits[key] = (side.nsplit, cnt + 1, sig2)
            return
        f.visits[key] = (side.nsplit, cnt + 1, sig2)
        if cnt < self.env.unroll:
            return
        if self.exact:
            raise Truncated()
        side.stopped = True

    def at_return(self, side, f):
        lv, n = f.entered
        if not side.stopped and n != side.nsplit:
            side.stopped = "ret"
            side.rlevel = lv

    def park(self, st, lv):
        """the state waits for the others that come from the same call"""
        key = []
        for s in st.sides:
            if s.ret is None:
                gc(s)
                key.append((tuple((f.body.key, f.bb, f.si, f.tkey, f.entered, tuple(sorted((b, v[1], v[2]) for b, v in f.visits.items()))) for f in s.frames), frozenset(s.mem.items())))
            else:
                key.append((s.ret, frozenset(s.mem.items())))
        self.parked.setdefault(lv, {}).setdefault(tuple(key), []).append(st)

    def release(self, work):
        """continue the states of the calls all of whose paths have returned"""
        lv = max(self.parked)
        if lv < len(work):
            return
        for sts in self.parked.pop(lv).values():
            for k in range(0, len(sts), 48):
                work.append(self.unite(sts[k:k + 48]))

    def shorten(self, sts, k):
        """the conditions of the states past the common ones; cases that exhaust a split are left out"""
        past = {}
        for s in sts:
            for n in range(k, len(s.trail)):
                past[s.trail[k:n]] = s.past[n]
        todo = [s.trail[k:] for s in sts]
        out = []
        while todo:
            n = max(len(t) for t in todo)
            if n == 0:
                return [()]
            by = {}
            rest = []
            for t in todo:
                if len(t) == n:
                    by.setdefault(t[:-1], []).append(t[-1])
                else:
                    rest.append(t)
            for pre, cs in by.items():
                if len(cs) > 1:
                    f = past[pre].copy()
                    if not all(f.assume(neg(c)) for c in cs):
                        if pre not in rest:
                            rest.append(pre)
                        continue
                    ins = {}
                    for c in cs:
                        if c.op == "in":
                            ins[c.args[0]] = ins.get(c.args[0], 0) | c.args[1]
                    cs = [c for c in cs if c.op != "in"] + [mk_in(a, m) for a, m in ins.items()]
                out.extend(pre + (c,) for c in cs)
            todo = rest
        return out

    def unite(self, sts):
        st = sts[0]
        if len(sts) == 1:
            return st
        k = 0
        n = min(len(s.trail) for s in sts)
        while k < n and all(s.trail[k] is st.trail[k] for s in sts):
            k += 1
        f = st.facts
        for s in sts[1:]:
            f = meet(f, s.facts)
        base = st.past[k] if k < len(st.past) else None
        st = st.copy()
        c = mk_or([mk_and(list(t)) for t in self.shorten(sts, k)])
        if base is not None:
            f = both(base, f)
        f.assume(c)
        st.facts = f
        st.trail = st.trail[:k] + (c,)
        st.past = st.past[:k] + (base,)
        st.nsplit = max(s.nsplit for s in sts) + 1
        self.united += len(sts) - 1
        return st

    def run(self, sides, facts):
        self.env.loop_hook = self.on_head
        self.env.ret_hook = self.at_return if self.weak else None
        self.env.exact = self.exact
        st = State()
        st.sides = sides
        st.facts = facts
        st.nsplit = 0
        st.anc = None
        st.trail = ()
        st.past = ()
        st.joined = False
        work = [st]
        it = Interp(self.env)
        if self.shard is not None:
            work = self.deal(it, work)
        while work or self.parked:
            if len(self.mismatches) >= self.max_mismatches:
                break
            if self.parked:
                self.release(work)
            st = work.pop()
            self.states += 1
            if self.states > self.max_states or time.time() > self.t_end:
                raise Budget("states %d" % self.states)
            self.drive(it, st, work)
        return self

    def deal(self, it, work):
        """breadth first up to enough paths, of which this shard takes its own"""
        i, n = self.shard
        hook, self.env.ret_hook = self.env.ret_hook, None
        first = 0
        while work and len(work) < 40 * n:
            st = work.pop(0)
            self.states += 1
            if len(self.mismatches) >= self.max_mismatches or time.time() > self.t_end:
                break
            new = []
            self.drive(it, st, new)
            work.extend(reversed(new))
        self.env.ret_hook = hook
        for s in work:
            for x in s.sides:
                for f in x.frames:
                    f.entered = (0, x.nsplit)
        return work[i::n]

    def catch_up(self, it, st, i):
        for n in range(8):
            s = st.sides[i]
            if s.ret is not None:
                return
            c = s.copy()
            f = st.facts.copy()
            c.stopped = False
            c.nsplit = -2 - n
            try:
                it.run(c, f)
            except (Split, Diverge, Unsupported):
                return
            st.sides[i] = c
            st.facts = f

    def merge_cases(self, it, st, i, alts):
        """cases of one byte that the side treats alike continue as one state with the union of the cases"""
        b = None
        for c in alts:
            if not isinstance(c, Term) or c.op != "in" or c.args[0].op != "byte" or (b is not None and c.args[0] is not b):
                return None
            b = c.args[0]
        base = st.facts
        leaves = []
        work = []
        for c in alts:
            f = base.copy()
            if f.assume(c):
                work.append((st.sides[i].copy(), f, []))
        it.assumed = 0
        hook = self.env.ret_hook
        self.env.ret_hook = None
        try:
            return self.merge_cases0(it, st, i, b, leaves, work, base)
        finally:
            self.env.ret_hook = hook

    def merge_cases0(self, it, st, i, b, leaves, work, base):
        while work:
            s, f, trace = work.pop()
            s.nsplit = st.nsplit + 1
            n0 = len(trace)
            m0 = f.mask(b)
            try:
                while s.ret is None and not s.stopped and len(trace) < 40:
                    it.step(s, f)
                    if it.assumed:
                        return None
                    if s.ret is not None or s.stopped:
                        break
                    c = s.copy()
                    gc(c)
                    trace.append((snapshot(c, b), c, f.mask(b)))
            except Split as sp:
                if all(isinstance(c, Term) and c.op == "in" and c.args[0] is b for c in sp.alts):
                    if len(leaves) + len(work) > 24:
                        return None
                    for c in sp.alts:
                        f2 = f.copy()
                        if f2.assume(c):
                            work.append((s.copy(), f2, []))
                    continue
            except (Truncated, Diverge, Unsupported):
                pass
            leaves.append((m0, trace))
        out = []
        any_ = False
        while leaves:
            m, trace = leaves.pop()
            pos = 0
            again = True
            while again:
                again = False
                at = {x[0]: k for k, x in reversed(list(enumerate(trace)))}
                for q, (m2, t2) in enumerate(leaves):
                    hit = None
                    for k2, x in enumerate(t2):
                        if x[0] in at:
                            hit = at[x[0]]
                            break
                    if hit is not None:
                        trace = self.merge_values(it, b, m, trace[hit:], m2, t2[k2:])
                        m |= m2
                        del leaves[q]
                        pos = 1
                        again = any_ = True
                        break
            out.append((m, trace[0][1] if pos else None))
        if not any_:
            return None
        res = []
        for m, c in out:
            n = st.copy()
            cond = mk_in(b, m)
            if n.facts.assume(cond):
                n.nsplit += 1
                n.trail = st.trail + (cond,)
                n.past = st.past + (st.facts,)
                if c is not None:
                    n.sides[i] = c.copy()
                res.append(n)
        return res

    def merge_values(self, it, b, m1, t1, m2, t2):
        """the common positions of two traces, numbers that differ as a table over the byte"""
        at = {x[0]: x[1] for x in reversed(t2)}
        out = []
        for sn, c, _ in t1:
            c2 = at.get(sn)
            if c2 is None:
                continue
            diff = [k for k, v in c.mem.items() if v is not c2.mem[k] and v != c2.mem[k]]
            if diff:
                c = c.copy()
                for k in diff:
                    v1, v2 = c.mem[k], c2.mem[k]
                    c.mem[k] = it._merge([(i, v1) for i in range(256) if m1 >> i & 1] + [(i, v2) for i in range(256) if m2 >> i & 1], b)
            out.append((sn, c, m1 | m2))
        return out

    def by_case(self, st):
        """the disagreement, if one of the cases that were united has it"""
        n = 0
        for f in st.facts.cases():
            n += 1
            if n > 2000:
                raise Budget("cases of one path")
            c = st.copy()
            c.facts = f
            m = self.compare(c)
            if m is not None:
                return m
        return None

    def drive(self, it, st, work):
        self.cur = st
        while True:
            # run each side to its next stop
            for i, s in enumerate(st.sides):
                while s.ret is None and not s.stopped:
                    s.nsplit = st.nsplit
                    s.level = len(work)
                    try:
                        it.run(s, st.facts)
                        if s.stopped == "ret":
                            s.stopped = False
                            self.park(st, s.rlevel)
                            return
                    except Split as sp:
                        alts = []
                        merged = self.merge_cases(it, st, i, sp.alts)
                        if merged is not None:
                            work.extend(reversed(merged))
                            return
                        for c in sp.alts:
                            n = st.copy()
                            if n.facts.assume(c):
                                n.nsplit += 1
                                n.trail = st.trail + (c,)
                                n.past = st.past + (st.facts,)
                                alts.append(n)
                        work.extend(reversed(alts))
                        return
                    except Truncated:
                        self.truncated += 1
                        if self.env.on_truncated is not None:
                            self.env.on_truncated(st)
                        return
                    except Diverge as d:
                        self.diverged += 1
                        if isinstance(d, Panic) and self.env.strict and st.facts.bytes_agree():
                            self.panics.append((d.why, d.detail, s.name, s.where(), st.trail, st.facts))
                        if self.log:
                            self.log("diverge %s %s" % (s.name, d.why))
                        return
                    except Unsupported as u:
                        self.unsupported.append((str(u), s.name, s.where()))
                        if self.exact:
                            return
                        raise
            if all(s.ret is not None for s in st.sides):
                self.results += 1
                if self.compare is not None:
                    m = self.compare(st)
                    if m is not None and st.facts.ors:
                        m = self.by_case(st)
                    if m is not None and (any(st.facts.lins_hold(c) is False for c in st.trail) or not st.facts.bytes_agree()):
                        # an earlier choice is impossible given what was learnt later
                        self.results -= 1
                        return
                    if m is not None:
                        m.trail = st.trail
                        m.joined = st.joined
                        self.mismatches.append(m)
                return
            # joint point; a side that is behind catches up as far as what is known decides its way
            if len(st.sides) > 1:
                for i in range(len(st.sides)):
                    self.catch_up(it, st, i)
                if all(s.ret is not None for s in st.sides):
                    continue
            for s in st.sides:
                gc(s)
            key = tuple(side_key(s) for s in st.sides)
            for g in self.visited.get(key, ()):
                if instance(g, st):
                    self.pruned += 1
                    return
            a = st.anc
            cnt = 0
            j = None
            while a is not None:
                if a.key == key:
                    cnt += 1
                    if j is None and a.nsplit < st.nsplit:
                        j = a
                a = a.up
            if cnt > 12:
                raise Budget("no fixpoint at " + st.sides[0].where() if st.sides[0].frames else "no fixpoint")
            if j is not None:
                r = join_states(j, st)
                if r is not None:
                    sides, f, jj = r
                    self.joins += 1
                    st = st.copy()
                    st.sides = sides
                    st.facts = f
                    st.joined = True
                    if self.log:
                        self.log("join %s\n   %s\n   lin=%s" % (jj.om, jj.nm, f.lin[-12:]))
            n = Anc()
            n.key = key
            n.sides = [s.copy() for s in st.sides]
            n.facts = st.facts.copy()
            n.nsplit = st.nsplit
            n.up = st.anc
            st.anc = n
            self.visited.setdefault(key, []).append(n)
            for s in st.sides:
                s.stopped = False


def concrete_loop(side, f, bb):
    """the live iterators of the frame whose position and bound are known numbers"""
    d = len(side.frames) - 1
    live = f.body.live_at(bb, 0)
    out = []
    for l in sorted(live):
        v = side.mem.get((d, l))
        if isinstance(v, Term):
            w = v
            while w.op == "it" and w.args[0] in ("enum", "rev", "copied", "mapi"):
                w = w.args[1]
            if w.op == "adt" and last(w.args[0]) in ("Range", "RangeInclusive") and isint(w.args[2][0]) and isint(w.args[2][1]):
                out.append((l, v))
            elif w.op == "it" and w.args[0] in ("iter", "vec", "chars") and isint(seq_len(w.args[1])):
                out.append((l, v))
            elif w.op == "it" and w.args[0] == "itermut" and isint(w.args[3]):
                out.append((l, v))
            elif w.op == "it" and w.args[0] in ("mapiter", "mapitermut"):
                out.append((l, v))
    return tuple(out)


def quiet_oracles(self):
    """same oracles, no obligations; a private loop hook"""
    e = Env.__new__(Env)
    e.__dict__.update(self.__dict__)
    e.obligations = None
    e.ret_hook = None
    e.progress = None
    return e


Env.quiet_oracles = quiet_oracles

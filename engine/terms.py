"""Abstract values: hash-consed terms in a normal form.

Integers are Python ints or terms; sums are affine forms ('lin'); functions of one byte are
256-entry tables ('tab').  Slices, strings, vectors and arrays are all content sequences ('seq')
whose pieces are constant bytes ('k'), single elements ('el') and stretches of a buffer ('sl').
"""
FULL = (1 << 256) - 1
MAXLEN = (1 << 63) - 1
MAXU = (1 << 64) - 1


class Term:
    __slots__ = ("op", "args", "uid", "_c")

    def __init__(self, op, args, uid):
        self.op = op
        self.args = args
        self.uid = uid
        self._c = None

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        _n[0] += 1
        t = Term(op, args, _n[0])
        _tab[k] = t
    return t


TRUE = T("true")
FALSE = T("false")
UNIT = T("tup", ())


def show(t, d=0):
    if d > 7:
        return "…"
    if isinstance(t, Term):
        o = t.op
        a = t.args
        if o == "lin":
            s = "+".join((("%d*" % c) if c != 1 else "") + show(x, d + 1) for x, c in a[1])
            return "(%s%+d)" % (s, a[0]) if a[0] else "(" + s + ")"
        if o == "tab":
            return "tab%d(%s)" % (t.uid, show(a[1], d + 1))
        if o == "seq":
            return "«" + " ".join(show(x, d + 1) for x in a[0]) + "»"
        if o == "k":
            return repr(bytes(a[0]))
        if o == "el":
            return "<" + show(a[0], d + 1) + ">"
        if o == "sl":
            return "%s[%s..%s]" % tuple(show(x, d + 1) for x in a)
        if o == "byte" or o == "elem":
            return "%s[%s]" % tuple(show(x, d + 1) for x in a)
        if o == "in":
            return "%s∈%s" % (show(a[0], d + 1), showmask(a[1]))
        if o == "lit":
            return "lit(%s@%s/%s:%s)" % (show(a[0], d + 1), show(a[1], d + 1), show(a[2], d + 1), "".join(showmask(m) for m in a[3]))
        if o == "run":
            return "run{%s}(%s,%s,%s)" % (showmask(a[0]), show(a[1], d + 1), show(a[2], d + 1), show(a[3], d + 1))
        if o == "adt":
            return "%s#%s(%s)" % (a[0].rsplit("::", 1)[-1], a[1], ",".join(show(x, d + 1) for x in a[2]))
        if o == "tup":
            return "(" + ",".join(show(x, d + 1) for x in a[0]) + ")"
        if not a:
            return o
        return o + "(" + ",".join(show(x, d + 1) for x in a) + ")"
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d + 1) for x in t) + ")"
    if isinstance(t, int) and t > (1 << 70):
        return showmask(t)
    return str(t)


_smc = {}


def showmask(m):
    r = _smc.get(m)
    if r is None:
        if m == FULL:
            r = "[any]"
        else:
            neg = bin(m).count("1") > 128
            mm = FULL & ~m if neg else m
            out = []
            i = 0
            while i < 256:
                if mm >> i & 1:
                    j = i
                    while j + 1 < 256 and mm >> (j + 1) & 1:
                        j += 1
                    f = lambda c: chr(c) if 33 <= c < 127 else "\\x%02x" % c
                    out.append(f(i) if i == j else f(i) + "-" + f(j))
                    i = j + 1
                else:
                    i += 1
            r = "[" + ("^" if neg else "") + "".join(out) + "]"
        _smc[m] = r
    return r


def isint(x):
    return isinstance(x, int)


def mask_of(pred):
    m = 0
    for i in range(256):
        if pred(i):
            m |= 1 << i
    return m


def bytesmask(bs):
    m = 0
    for b in bs:
        m |= 1 << b
    return m


# ---------------------------------------------------------------- integers
BYTE_OPS = {"byte", "u8", "ob"}
INT_OPS = {"lin", "len", "run", "end", "byte", "u8", "ob", "tab", "g", "sel", "ifn"}


def is_byteatom(t):
    return isinstance(t, Term) and t.op in BYTE_OPS


IDENT = bytes(range(256))


def mk_tab(table, atom):
    """table: sequence of 256 ints"""
    f = table[0]
    if all(x == f for x in table):
        return f
    if min(table) >= 0 and max(table) <= 255:
        table = bytes(table)
        if table == IDENT:
            return atom
    else:
        table = tuple(table)
    return T("tab", table, atom)


def as_tab(t):
    """(table, atom) if t is a function of one byte atom, else None"""
    if isinstance(t, Term):
        if t.op == "tab":
            return t.args
        if t.op in BYTE_OPS:
            return IDENT, t
    return None


def lin_parts(x):
    if isinstance(x, int):
        return x, ()
    if x.op == "lin":
        return x.args
    return 0, ((x, 1),)


def split_const(x):
    """the constant and the rest of a sum"""
    if isinstance(x, int):
        return x, 0
    if x.op == "lin" and x.args[0]:
        return x.args[0], mk_lin(0, x.args[1])
    return 0, x


def mk_lin(const, items):
    """items: iterable of (atom, coef)"""
    d = {}
    tabs = {}
    for a, c in items:
        if c == 0:
            continue
        ta = as_tab(a)
        if ta is not None:
            tabs.setdefault(ta[1], []).append((ta[0], c))
        else:
            d[a] = d.get(a, 0) + c
    for atom, l in tabs.items():
        if len(l) == 1:
            tbl, c = l[0]
            if c == 1:
                a = mk_tab(tbl, atom)
                d[a] = d.get(a, 0) + 1
                continue
            tbl = [c * v for v in tbl]
        else:
            tbl = [0] * 256
            for t, c in l:
                for i in range(256):
                    tbl[i] += c * t[i]
        a = mk_tab(tbl, atom)
        if isinstance(a, int):
            const += a
        else:
            d[a] = d.get(a, 0) + 1
    its = [(a, c) for a, c in d.items() if c]
    if not its:
        return const
    if len(its) == 1:
        a, c = its[0]
        if c == 1:
            ta = as_tab(a)
            if ta is not None:
                if const == 0:
                    return a
                return mk_tab([v + const for v in ta[0]], ta[1])
            if const == 0:
                return a
    its.sort(key=lambda p: p[0].uid)
    return T("lin", const, tuple(its))


_adds = {}


def add(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    k = (a, b, kb)
    r = _adds.get(k)
    if r is None:
        ca, ia = lin_parts(a)
        cb, ib = lin_parts(b)
        if len(_adds) > 1000000:
            _adds.clear()
        r = _adds[k] = mk_lin(ca + kb * cb, list(ia) + [(x, kb * c) for x, c in ib])
    return r


def sub(a, b):
    if a is b:
        return 0
    return add(a, b, -1)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    c, i = lin_parts(a)
    return mk_lin(c * k, [(x, k * n) for x, n in i])


# ---------------------------------------------------------------- conditions
def neg(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "ge":  # x>=0  ->  -x-1>=0
        return mk_ge(sub(-1, c.args[0]))
    if c.op == "in":
        return mk_in(c.args[0], FULL & ~c.args[1])
    if c.op == "and":
        return mk_or([neg(x) for x in c.args[0]])
    if c.op == "or":
        return mk_and([neg(x) for x in c.args[0]])
    return T("not", c)


def mk_in(atom, mask):
    if mask == 0:
        return FALSE
    if mask == FULL:
        return TRUE
    return T("in", atom, mask)


def mk_ge(e):
    if isinstance(e, int):
        return TRUE if e >= 0 else FALSE
    ta = as_tab(e)
    if ta is not None:
        return mk_in(ta[1], mask_of(lambda i: ta[0][i] >= 0))
    return T("ge", e)


def mk_eq0(e):
    if isinstance(e, int):
        return TRUE if e == 0 else FALSE
    ta = as_tab(e)
    if ta is not None:
        return mk_in(ta[1], mask_of(lambda i: ta[0][i] == 0))
    c, it = lin_parts(e)
    if it[0][1] < 0:
        e = scale(e, -1)
    return T("eq", e)


def mk_and(cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            out.extend(c.args[0])
        elif c not in out:
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    if all(c.op == "in" and c.args[0] is out[0].args[0] for c in out):
        m = FULL
        for c in out:
            m &= c.args[1]
        return mk_in(out[0].args[0], m)
    return T("and", tuple(out))


def mk_or(cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == "or":
            out.extend(c.args[0])
        elif c not in out:
            out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # all on one byte atom -> one membership test
    if all(c.op == "in" and c.args[0] is out[0].args[0] for c in out):
        m = 0
        for c in out:
            m |= c.args[1]
        return mk_in(out[0].args[0], m)
    return T("or", tuple(out))


# ---------------------------------------------------------------- sequences
EMPTY = T("seq", ())


LOWER = bytes(bytes([_i]).lower()[0] for _i in range(256))
UPPER = bytes(bytes([_i]).upper()[0] for _i in range(256))
MAPS = {"lower": LOWER, "upper": UPPER}


def byte_at(buf, i):
    if buf.op == "mapb":
        b = byte_at(buf.args[1], i)
        t = MAPS[buf.args[0]]
        if isint(b):
            return t[b]
        ta = as_tab(b)
        return mk_tab([t[x & 255] for x in ta[0]], ta[1])
    if buf.op == "kb" and isint(i):
        return buf.args[0][i]
    return T("byte", buf, i)


def mk_lit(buf, a, b, ms):
    """the bytes of buf from a on (before b) lie in the masks ms"""
    while buf.op == "mapb":
        t = MAPS[buf.args[0]]
        ms = [mask_of(lambda i: m >> t[i] & 1) for m in ms]
        buf = buf.args[1]
    return T("lit", buf, a, b, tuple(ms))


def piece_len(p):
    o = p.op
    if o == "k":
        return len(p.args[0])
    if o == "el":
        return 1
    return sub(p.args[2], p.args[1])


def norm_el(v):
    if isinstance(v, int) and 0 <= v <= 255:
        return T("k", bytes([v]))
    if isinstance(v, Term) and v.op in ("byte", "elem"):
        return T("sl", v.args[0], v.args[1], add(v.args[1], 1))
    return T("el", v)


def mk_seq(pieces):
    out = []
    for p in pieces:
        if p.op == "sl":
            if p.args[1] is p.args[2] or (isint(p.args[1]) and isint(p.args[2]) and p.args[1] >= p.args[2]):
                continue
            if p.args[0].op == "kb" and isint(p.args[1]) and isint(p.args[2]):
                p = T("k", p.args[0].args[0][p.args[1]:p.args[2]])
        if p.op == "k" and not p.args[0]:
            continue
        if out:
            q = out[-1]
            if p.op == "k" and q.op == "k":
                out[-1] = T("k", q.args[0] + p.args[0])
                continue
            if p.op == "sl" and q.op == "sl" and p.args[0] is q.args[0] and same(p.args[1], q.args[2]):
                out[-1] = T("sl", q.args[0], q.args[1], p.args[2])
                continue
        out.append(p)
    return T("seq", tuple(out))


def same(a, b):
    return a is b or (isint(a) and isint(b) and a == b)


def seq_of(*vals):
    return mk_seq([norm_el(v) for v in vals])


def const_seq(b):
    return mk_seq([T("k", bytes(b))])


def whole(buf):
    """content of an opaque buffer"""
    return T("seq", (T("sl", buf, 0, T("len", buf)),))


def seq_len(s):
    t = 0
    for p in s.args[0]:
        t = add(t, piece_len(p))
    return t


def cat(a, b):
    return mk_seq(a.args[0] + b.args[0])


def is_const_seq(s):
    """bytes if s is a constant byte string"""
    if s is EMPTY:
        return b""
    ps = s.args[0]
    if len(ps) == 1 and ps[0].op == "k":
        return ps[0].args[0]
    return None


COWN = "std::borrow::Cow"


def content(v):
    """the sequence a string-like value denotes, through Cow, vref; None if v is not string-like"""
    if isinstance(v, Term):
        if v.op == "seq":
            return v
        if v.op == "adt" and v.args[0].rsplit("::", 1)[-1] == "Cow":
            return content(v.args[2][0])
        if v.op == "cowc":
            return v.args[0]
        if v.op == "vref":
            return content(v.args[0])
        return whole(v)
    return None


def iscow(v):
    return isinstance(v, Term) and (v.op == "cowc" or (v.op == "adt" and v.args[0].rsplit("::", 1)[-1] == "Cow"))


# ---------------------------------------------------------------- traversal
def rebuild(t, f):
    """apply f to the direct subterms and rebuild through the smart constructors"""
    o = t.op
    a = t.args
    if o == "lin":
        r = a[0]
        its = []
        for x, c in a[1]:
            y = f(x)
            cc, ii = lin_parts(y)
            r += c * cc
            its.extend((z, c * k) for z, k in ii)
        return mk_lin(r, its)
    if o == "tab":
        y = f(a[1])
        if y is a[1]:
            return t
        if isint(y):
            return a[0][y & 255]
        ta = as_tab(y)
        if ta is None:
            raise ValueError("tab of non-byte")
        return mk_tab([a[0][v & 255] for v in ta[0]], ta[1])
    na = tuple(_rb(x, f) for x in a)
    if all(same(x, y) for x, y in zip(na, a)):
        return t
    return build(o, na)


def _rb(x, f):
    if isinstance(x, Term):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_rb(y, f) for y in x)
    return x


def build(o, a):
    if o == "seq":
        return mk_seq([p for p in a[0]])
    if o == "el":
        return norm_el(a[0])
    if o == "ge":
        return mk_ge(a[0])
    if o == "eq":
        return mk_eq0(a[0])
    if o == "in":
        x = a[0]
        if isint(x):
            return TRUE if a[1] >> (x & 255) & 1 else FALSE
        ta = as_tab(x)
        return mk_in(ta[1], mask_of(lambda i: a[1] >> (ta[0][i] & 255) & 1))
    if o == "not":
        return neg(a[0])
    if o == "and":
        return mk_and(a[0])
    if o == "or":
        return mk_or(a[0])
    if o == "sl" and isinstance(a[0], Term) and a[0].op == "view":
        return T(o, *a)
    if o == "byte" and isinstance(a[0], Term) and a[0].op == "kb" and isint(a[1]):
        return a[0].args[0][a[1]]
    return T(o, *a)


def subst(t, m, memo=None):
    """replace terms by m (a dict term->value)"""
    if memo is None:
        memo = {}
    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    if isinstance(t, Term):
        return go(t)
    return t


def atoms_of(t, acc=None):
    """all subterms"""
    if acc is None:
        acc = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in acc:
                continue
            acc.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return acc

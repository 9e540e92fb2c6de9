"""Models of the standard library calls that the analysed code reaches."""
import re
from terms import *
from interp import (Unsupported, Split, Diverge, mk_adt, some, ok_, err_, NONE, OPT, RES, tup, vref, last,
                    INTMAX, INTMIN, OPAQUE, U8, USIZE)
import facts as FX

ORD = "std::cmp::Ordering"
CTLF = "std::ops::ControlFlow"
_split_memo = {}


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::").rstrip(":")


def head(t):
    """head symbol of a type as printed"""
    t = t.strip()
    t = re.sub(r"^&('[a-z_]+ )?(mut )?", "&", t)
    if t.startswith("&"):
        return "&" + head(t[1:])
    if t.startswith("["):
        return "[;]" if ";" in t else "[]"
    if t.startswith("*"):
        return "*"
    if t.startswith("("):
        return "()"
    return last(strip_generics(t))


def match_angle(s):
    d = 0
    for i, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
            if d == 0:
                return i
    return -1


def split_as(s):
    d = 0
    for i in range(len(s)):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0 and s.startswith(" as ", i):
            return s[:i], s[i + 4:]
    return s, None


def parse_name(n):
    """-> (type head, trait or None, method)"""
    r = _split_memo.get(n)
    if r is not None:
        return r
    m = None
    if n.startswith("<"):
        e = match_angle(n)
        inner, rest = n[1:e], n[e + 1:]
        ty, tr = split_as(inner)
        m = (head(ty), last(strip_generics(tr)) if tr else None, strip_generics(rest.lstrip(":")))
    else:
        i = n.find("<impl ")
        if i >= 0:
            e = i + match_angle(n[i:])
            inner = n[i + 6:e]
            rest = strip_generics(n[e + 1:].lstrip(":"))
            k = None
            d = 0
            for j in range(len(inner)):
                if inner[j] == "<":
                    d += 1
                elif inner[j] == ">" and inner[j - 1] != "-":
                    d -= 1
                elif d == 0 and inner.startswith(" for ", j):
                    k = j
                    break
            if k is not None:
                m = (head(inner[k + 5:]), last(strip_generics(inner[:k])), rest)
            else:
                m = (head(inner), None, rest)
        else:
            p = strip_generics(n).split("::")
            m = (p[-2] if len(p) > 1 else "", None, p[-1])
    _split_memo[n] = m
    return m


TABLE = {}


def model(*keys):
    def deco(fn):
        for k in keys:
            TABLE[k] = fn
        return fn
    return deco


class Std:
    """env.std"""
    def __init__(self, shims=None):
        self.shims = shims  # Program with shim bodies
        self.memo = {}

    def lookup(self, name, oname):
        h = self.memo.get((name, oname), 0)
        if h == 0:
            h = self._lookup(name, oname)
            self.memo[(name, oname)] = h
        return h

    def _lookup(self, name, oname):
        if "email_parser" in name or "spec::" in name:
            if parse_name(name)[1] is None and parse_name(name)[0] != "Clone":
                return None
            return None
        ty, tr, m = parse_name(name)
        for k in ((ty, tr, m), (ty, m), ("*" + (tr or ""), m)):
            h = TABLE.get(k)
            if h is not None:
                return h
        if "textcode" in name and m == "decode_to_string":
            return None
        if m in PANICS or name in PANIC_NAMES:
            return panic
        if tr is None and ty in ("Iterator",):
            return TABLE.get(("Iterator", m))
        if tr == "Iterator":
            h = TABLE.get(("Iterator", m))
            if h is not None:
                return h
        return None

    def fallback(self, name, oname, cal):
        ty, tr, m = parse_name(oname)
        return TABLE.get(("any", ty, m))

    # pointers
    def ptr_eq(self, it, facts, a, b):
        if isinstance(a, Term) and isinstance(b, Term) and a.op == "ptr" and b.op == "ptr":
            (s1, o1), (s2, o2) = a.args, b.args
            if s1 is s2:
                return mk_eq0(sub(o1, o2))
            p1, p2 = s1.args[0], s2.args[0]
            if len(p1) == 1 and len(p2) == 1 and p1[0].op == "sl" and p2[0].op == "sl" and p1[0].args[0] is p2[0].args[0]:
                return mk_eq0(sub(add(p1[0].args[1], o1), add(p2[0].args[1], o2)))
            if facts.int_eq(o1, seq_len(s1)) and facts.int_eq(o2, 0):
                return T("adj", s1, s2)
            if facts.int_eq(o2, seq_len(s2)) and facts.int_eq(o1, 0):
                return T("adj", s2, s1)
        if isinstance(a, Term) and a.op == "fn" and isinstance(b, Term) and b.op == "fn":
            return TRUE if a is b else FALSE
        raise Unsupported("pointer comparison")

    def map_read(self, it, side, facts, v, p):
        return map_get(it, facts, v, p[1], p[2], side.prog)

    def map_write(self, it, side, facts, old, p, projs, new):
        cur = map_get(it, facts, old, p[1], p[2], side.prog)
        n = it._upd(side, facts, cur, projs, new)
        return map_put(old, p[1], n)


PANICS = {"panic", "panic_fmt", "unreachable_default_msg", "assert_failed", "unwrap_failed", "unwrap_failed_inner", "expect_failed",
          "panic_display", "panic_explicit", "panic_str", "panic_nounwind", "panic_const_add_overflow", "slice_index_fail", "begin_panic",
          "unreachable_display", "panic_bounds_check", "panic_str_2015", "panic_cold_explicit", "panic_cold_display", "panic_misaligned_pointer_dereference"}
PANIC_NAMES = set()


def panic(c):
    c.oblige("panic", FALSE, c.name)
    raise Diverge("panic")


# ---------------------------------------------------------------- helpers
def elt(ty):
    """element type of a vector, slice, array or reference to one"""
    while ty is not None and ty[0] in ("ref", "ptr"):
        ty = ty[1]
    if ty is None:
        return None
    if ty[0] in ("slice", "array"):
        return ty[1]
    if ty[0] == "adt" and ty[2]:
        return ty[2][0]
    return None


def pointee(ty):
    return ty[1] if ty is not None and ty[0] in ("ref", "ptr") else ty


def at(c, s, i, ety):
    return c.it.seq_at(c.side, c.facts, s, i, ety)


def rangeof(c, r, n):
    """(lo, hi) of a range value over a sequence of length n"""
    if isinstance(r, Term) and r.op == "vref":
        r = r.args[0]
    if isinstance(r, Term) and r.op == "adt":
        k = last(r.args[0])
        f = r.args[2]
        if k == "Range":
            return f[0], f[1]
        if k == "RangeFrom":
            return f[0], n
        if k == "RangeTo":
            return 0, f[0]
        if k == "RangeFull":
            return 0, n
        if k == "RangeInclusive":
            return f[0], add(f[1], 1)
        if k == "RangeToInclusive":
            return 0, add(f[0], 1)
    return None


def is_range(r):
    if isinstance(r, Term) and r.op == "vref":
        r = r.args[0]
    return isinstance(r, Term) and r.op == "adt" and last(r.args[0]).startswith("Range")


def slice_ok(lo, hi, n):
    return mk_and([mk_ge(sub(hi, lo)), mk_ge(sub(n, hi))])


def wrap_ref(v):
    return v if isinstance(v, Term) and v.op == "seq" else vref(v)


# ---------------------------------------------------------------- identity-like
def ident(c):
    return c.args[0]


def deref_content(c):
    return c.seq(0)


def value_of_ref(c):
    return c.deref(c.args[0])


for k in [("Cow", "Deref", "deref"), ("Cow", "AsRef", "as_ref"), ("Vec", "Deref", "deref"), ("String", "Deref", "deref"), ("String", "as_str"), ("Vec", "as_slice"),
          ("String", "as_bytes"), ("str", "as_bytes"), ("[]", "to_vec"), ("str", "ToOwned", "to_owned"), ("[]", "ToOwned", "to_owned"), ("String", "into_bytes"),
          ("Cow", "into_owned"), ("str", "to_owned"), ("String", "AsRef", "as_ref"), ("Vec", "AsRef", "as_ref"), ("str", "AsRef", "as_ref"), ("[]", "AsRef", "as_ref"),
          ("String", "Borrow", "borrow"), ("str", "into_string"), ("String", "into_boxed_str"), ("String", "From", "from"), ("Vec", "From", "from"),
          ("T", "ToString", "to_string"), ("str", "ToString", "to_string"), ("String", "ToString", "to_string"), ("Cow", "ToString", "to_string"), ("[]", "into_vec"),
          ("str", "trim_matches_none"), ("String", "clone_str"), ("Vec", "into_boxed_slice"), ("[;]", "as_slice"), ("[]", "as_slice"),
          ("Vec", "Borrow", "borrow"), ("[;]", "AsRef", "as_ref"), ("str", "Index_full")]:
    TABLE[k] = deref_content


@model(("T", "ToString", "to_string"))
def to_string(c):
    t = pointee(c.aty[0])
    while t is not None and t[0] == "ref":
        t = t[1]
    if t is not None and (t[0] == "str" or (t[0] == "adt" and last(t[1]) in ("Cow", "String"))):
        return c.seq(0)
    raise Unsupported("to_string of " + str(t))


for k in [("Cow", "Clone", "clone"), ("HashMap", "Clone", "clone"), ("Vec", "Clone", "clone"), ("String", "Clone", "clone"), ("Box", "Clone", "clone"), ("*Clone", "clone")]:
    TABLE[k] = value_of_ref
TABLE[("any", "Clone", "clone")] = value_of_ref
for k in [("&T", "Clone", "clone"), ("&", "Clone", "clone")]:
    TABLE[k] = value_of_ref


@model(("Vec", "DerefMut", "deref_mut"), ("Vec", "as_mut_slice"), ("&mut I", "IntoIterator", "into_iter_mut"), ("[;]", "as_mut_slice"))
def deref_mut(c):
    return c.args[0]


@model(("from_utf8_unchecked", ), ("str", "from_utf8_unchecked"), ("String", "from_utf8_unchecked"))
def from_utf8_unchecked(c):
    s = c.seq(0)
    h = c.it.env.obligations
    if h is not None:
        bad = None
        ok = True
        for p in s.args[0]:
            r = utf8_piece(c, p)
            if r is not True:
                ok = None
                bad = bad or not_utf8(c, p)
        h(c.side, c.facts, "utf8", T("utf8", s), ok if ok or bad is None else False, bad or "")
    return s


def is_utf8(c, s):
    """True if every byte is known to be ASCII, or the text is known to be UTF-8"""
    for p in s.args[0]:
        if not utf8_piece(c, p):
            return None
    return True


ASCII = (1 << 128) - 1
NONASCII = ((1 << 256) - 1) & ~ASCII
CONT = sum(1 << i for i in range(0x80, 0xc0))


def utf8_piece(c, p):
    if p.op == "k":
        try:
            p.args[0].decode()
            return True
        except UnicodeDecodeError:
            return False
    if p.op == "el":
        ta = as_tab(p.args[0])
        if ta is None:
            return c.facts.ge(sub(127, p.args[0]))
        m = c.facts.mask(ta[1])
        return all(ta[0][i] < 128 for i in range(256) if m >> i & 1)
    buf, a, b = p.args
    f = c.facts
    if f.stretch(buf, a, b, ASCII):
        return True
    if buf in c.it.env.texts and buf.op != "kb":
        def ascii(i):
            return f.mask(byte_at(buf, i)) & NONASCII == 0
        n = T("len", buf)
        return (f.int_eq(a, 0) or ascii(a) or f.ge(sub(a, 1)) and ascii(sub(a, 1))) and (f.int_eq(b, n) or ascii(b) or f.ge(sub(b, 1)) and ascii(sub(b, 1)))
    return False


def not_utf8(c, p):
    """a reason why the piece may hold something other than UTF-8, if nothing known excludes it"""
    if p.op == "k":
        return "the bytes %r" % p.args[0]
    if p.op == "el":
        ta = as_tab(p.args[0])
        if ta is None:
            f = c.facts.copy()
            return "a byte above 0x7f" if f.assume(mk_ge(sub(p.args[0], 128))) else None
        return "a byte above 0x7f"
    buf, a, b = p.args
    if buf in c.it.env.texts and buf.op != "kb":
        for i in (a, b):
            f = c.facts.copy()
            if f.assume(mk_ge(sub(i, 1))) and f.assume(mk_ge(sub(sub(T("len", buf), i), 1))) and f.assume(mk_in(byte_at(buf, i), CONT)):
                return "a text is cut inside a character"
        return None
    for i in (a, sub(b, 1)):
        f = c.facts.copy()
        if f.assume(mk_ge(sub(sub(b, a), 1))) and f.assume(mk_in(byte_at(buf, i), NONASCII)):
            return "a byte above 0x7f of the input"
    # in the middle: a run that may hold such bytes
    cur = a
    for _ in range(40):
        if c.facts.ge(sub(cur, b)):
            return None
        nxt = None
        if c.facts.mask(byte_at(buf, cur)) & NONASCII == 0:
            nxt = add(cur, 1)
        for r in c.facts._runs(buf, cur, b):
            if c.facts.ge(sub(cur, r.args[2])) and c.facts.ge(sub(r, cur)) and not c.facts.int_eq(r, cur):
                if r.args[0] & NONASCII == 0:
                    nxt = r
                else:
                    f = c.facts.copy()
                    if f.assume(mk_in(byte_at(buf, cur), NONASCII)):
                        return "a byte above 0x7f of the input"
        if nxt is None:
            f = c.facts.copy()
            if f.assume(mk_ge(sub(sub(b, cur), 1))) and f.assume(mk_in(byte_at(buf, cur), NONASCII)):
                return "a byte above 0x7f of the input"
            return None
        cur = nxt
    return None


@model(("String", "from_utf8"), ("str", "from_utf8"), ("converts", "from_utf8"))
def from_utf8(c):
    s = c.seq(0)
    if is_utf8(c, s):
        return ok_(s)
    if c.decide(T("utf8", s)):
        return ok_(s)
    return err_(T("app", "utf8error", s))


@model(("str", "as_ptr"), ("[]", "as_ptr"), ("Vec", "as_ptr"), ("String", "as_ptr"))
def as_ptr(c):
    return T("ptr", c.seq(0), 0)


@model(("const_ptr", "add"), ("*", "add"), ("*", "offset"), ("*", "wrapping_add"))
def ptr_add(c):
    p = c.args[0]
    if not (isinstance(p, Term) and p.op == "ptr"):
        raise Unsupported("add to %s" % p)
    n = add(p.args[1], c.args[1])
    c.oblige("ptr_add", mk_and([mk_ge(n), mk_ge(sub(seq_len(p.args[0]), n))]))
    return T("ptr", p.args[0], n)


@model(("slice", "from_raw_parts"), ("raw", "from_raw_parts"))
def from_raw_parts(c):
    p, n = c.args
    if not (isinstance(p, Term) and p.op == "ptr"):
        raise Unsupported("from_raw_parts of %s" % p)
    s, off = p.args
    L = seq_len(s)
    if c.facts.ge(sub(sub(L, off), n)):
        c.oblige("from_raw_parts", TRUE)
        return c.it.seq_slice(c.side, c.facts, s, off, add(off, n))
    if c.facts.int_eq(off, 0):
        # reaches beyond the slice: allowed if the next slice is known to start where this one ends
        for k, v in list(c.facts.bools.items()):
            if v is True and k.op == "adj" and k.args[0] is s and c.facts.int_eq(n, add(L, seq_len(k.args[1]))):
                c.oblige("from_raw_parts", TRUE)
                return cat(s, k.args[1])
        ps = s.args[0]
        if len(ps) == 1 and ps[0].op == "sl":
            buf, a, b = ps[0].args
            e = add(a, n)
            bound = T("len", buf) if buf.op != "kb" else len(buf.args[0])
            c.oblige("from_raw_parts", mk_ge(sub(bound, e)))
            return mk_seq((T("sl", buf, a, e),))
    c.oblige("from_raw_parts", FALSE, "range not inside one allocation")
    raise Diverge("from_raw_parts")


# ---------------------------------------------------------------- lengths
@model(("[]", "len"), ("str", "len"), ("Vec", "len"), ("String", "len"), ("[;]", "len"))
def length(c):
    return seq_len(c.seq(0))


@model(("[]", "is_empty"), ("str", "is_empty"), ("Vec", "is_empty"), ("String", "is_empty"), ("Cow", "is_empty"))
def is_empty(c):
    return mk_ge(sub(0, seq_len(c.seq(0))))


# ---------------------------------------------------------------- indexing
@model(("[]", "get"), ("Vec", "get"))
def get(c):
    s = c.seq(0)
    n = seq_len(s)
    r = c.args[1]
    if is_range(r):
        lo, hi = rangeof(c, r, n)
        if not c.decide(slice_ok(lo, hi, n)):
            return NONE
        return some(c.it.seq_slice(c.side, c.facts, s, lo, hi))
    if not c.decide(mk_ge(sub(sub(n, r), 1))):
        return NONE
    return some(wrap_ref(at(c, s, r, elt(c.aty[0]))))


@model(("str", "get"),)
def str_get(c):
    s = c.seq(0)
    n = seq_len(s)
    lo, hi = rangeof(c, c.args[1], n)
    if not c.decide(slice_ok(lo, hi, n)):
        return NONE
    for i in (lo, hi):
        # only between characters
        if c.facts.ge(sub(i, n)) or isint(i) and i == 0:
            continue
        if not c.decide(mk_ge(sub(sub(n, i), 1))):
            continue
        b = at(c, s, i, U8)
        ta = as_tab(b)
        if ta is None and not isint(b):
            raise Unsupported("str::get on " + str(b))
        if (b in range(0x80, 0xc0)) if isint(b) else not c.decide(mk_in(ta[1], mask_of(lambda x: not 0x80 <= ta[0][x] < 0xc0))):
            return NONE
    return some(c.it.seq_slice(c.side, c.facts, s, lo, hi))


@model(("[]", "get_unchecked"), ("str", "get_unchecked"))
def get_unchecked(c):
    s = c.seq(0)
    n = seq_len(s)
    r = c.args[1]
    if is_range(r):
        lo, hi = rangeof(c, r, n)
        c.oblige("get_unchecked", slice_ok(lo, hi, n))
        return c.it.seq_slice(c.side, c.facts, s, lo, hi)
    c.oblige("get_unchecked", mk_ge(sub(sub(n, r), 1)))
    return wrap_ref(at(c, s, r, elt(c.aty[0])))


def is_text_ty(t):
    while t is not None and t[0] in ("ref", "ptr"):
        t = t[1]
    return t is not None and (t[0] == "str" or t[0] == "adt" and last(t[1]) == "String")


def between_chars(c, s, i, n, depth=6):
    """a text may only be cut between characters"""
    f = c.facts
    ps = s.args[0]
    if len(ps) != 1 or ps[0].op != "sl" or f.int_eq(i, 0) or f.int_eq(i, n):
        return
    buf, lo = ps[0].args[0], ps[0].args[1]
    j = add(lo, i)
    for _ in range(depth):
        if f.ge(sub(lo, j)) or f.mask(byte_at(buf, j)) & CONT == 0 or f.ge(sub(sub(j, lo), 1)) and f.mask(byte_at(buf, sub(j, 1))) & NONASCII == 0:
            return
        if isinstance(j, Term) and j.op == "run" and j.args[1] is buf and j.args[0] & NONASCII == 0:
            # all ASCII up to here
            j = j.args[2]
            continue
        break
    if not c.decide(mk_ge(sub(sub(n, i), 1))):
        return
    c.oblige("char boundary", mk_in(byte_at(buf, add(lo, i)), mask_of(lambda x: not 0x80 <= x < 0xc0)))


@model(("[]", "Index", "index"), ("Vec", "Index", "index"), ("[;]", "Index", "index"), ("str", "Index", "index"), ("String", "Index", "index"))
def index(c):
    s = c.seq(0)
    n = seq_len(s)
    r = c.args[1]
    if is_range(r):
        lo, hi = rangeof(c, r, n)
        c.oblige("slice index", slice_ok(lo, hi, n))
        if is_text_ty(c.aty[0]):
            between_chars(c, s, lo, n)
            between_chars(c, s, hi, n)
        return c.it.seq_slice(c.side, c.facts, s, lo, hi)
    c.oblige("index", mk_ge(sub(sub(n, r), 1)))
    return wrap_ref(at(c, s, r, elt(c.aty[0])))


def mut_cell(c, ref):
    if isinstance(ref, Term) and ref.op == "ref":
        v = c.it.get(c.side, c.facts, ref.args[0], ref.args[1])
        if isinstance(v, Term) and v.op == "ref":
            return v
    return ref


@model(("[]", "get_unchecked_mut"), ("Vec", "IndexMut", "index_mut"), ("[;]", "IndexMut", "index_mut"), ("[]", "IndexMut", "index_mut"))
def index_mut(c):
    ref = c.args[0]
    s = c.seq(0)
    n = seq_len(s)
    r = c.args[1]
    kind = "get_unchecked" if "unchecked" in c.name else "index"
    if is_range(r):
        lo, hi = rangeof(c, r, n)
        c.oblige(kind, slice_ok(lo, hi, n))
        if c.facts.int_eq(lo, 0) and c.facts.int_eq(hi, n):
            return ref
        raise Unsupported("mutable sub-slice")
    c.oblige(kind, mk_ge(sub(sub(n, r), 1)))
    if not (isinstance(ref, Term) and ref.op == "ref"):
        raise Unsupported("index_mut of non-place")
    return T("ref", ref.args[0], ref.args[1] + (("x", r),))


@model(("[]", "get_mut"), ("Vec", "get_mut"))
def get_mut(c):
    ref = c.args[0]
    s = c.seq(0)
    r = c.args[1]
    if is_range(r):
        raise Unsupported("get_mut of range")
    if not c.decide(mk_ge(sub(sub(seq_len(s), r), 1))):
        return NONE
    return some(T("ref", ref.args[0], ref.args[1] + (("x", r),)))


@model(("[]", "first"), ("[]", "last"))
def first_last(c):
    s = c.seq(0)
    n = seq_len(s)
    if not c.decide(mk_ge(sub(n, 1))):
        return NONE
    return some(wrap_ref(at(c, s, 0 if c.name.endswith("first") else sub(n, 1), elt(c.aty[0]))))


@model(("[]", "split_first"), ("[]", "split_last"))
def split_first(c):
    s = c.seq(0)
    n = seq_len(s)
    if not c.decide(mk_ge(sub(n, 1))):
        return NONE
    if c.name.endswith("first"):
        return some(tup(wrap_ref(at(c, s, 0, elt(c.aty[0]))), c.it.seq_slice(c.side, c.facts, s, 1, n)))
    m = sub(n, 1)
    return some(tup(wrap_ref(at(c, s, m, elt(c.aty[0]))), c.it.seq_slice(c.side, c.facts, s, 0, m)))


@model(("[]", "split_at"), ("str", "split_at"))
def split_at(c):
    s = c.seq(0)
    n = seq_len(s)
    i = c.args[1]
    c.oblige("split_at", mk_ge(sub(n, i)))
    if is_text_ty(c.aty[0]):
        between_chars(c, s, i, n)
    return tup(c.it.seq_slice(c.side, c.facts, s, 0, i), c.it.seq_slice(c.side, c.facts, s, i, n))


@model(("[]", "split_at_unchecked"))
def split_at_u(c):
    return split_at(c)


# ---------------------------------------------------------------- comparison
def starts(c, s, k):
    """condition: s starts with the constant k"""
    if not k:
        return TRUE
    ps = s.args[0]
    if len(ps) == 1 and ps[0].op == "sl":
        buf, a, b = ps[0].args
        return mk_lit(buf, a, b, [1 << x for x in k])
    if not c.decide(mk_ge(sub(seq_len(s), len(k)))):
        return FALSE
    return mk_and([mk_eq0(sub(at(c, s, i, U8), x)) for i, x in enumerate(k)])


@model(("[]", "starts_with"),)
def starts_with(c):
    s, p = c.seq(0), c.seq(1)
    k = is_const_seq(p)
    if k is None:
        lp = seq_len(p)
        if not c.decide(mk_ge(sub(seq_len(s), lp))):
            return FALSE
        return streq(c.facts, c.it.seq_slice(c.side, c.facts, s, 0, lp), p)
    return starts(c, s, k)


@model(("[]", "strip_prefix"), ("str", "strip_prefix"))
def strip_prefix(c):
    s, p = c.seq(0), c.seq(1)
    k = is_const_seq(p)
    if k is None:
        raise Unsupported("strip_prefix of non-constant")
    if not c.decide(starts(c, s, k)):
        return NONE
    return some(c.it.seq_slice(c.side, c.facts, s, len(k), seq_len(s)))


@model(("str", "starts_with"))
def str_starts_with(c):
    t = c.aty[1]
    if t is not None and (t[0] == "ref" and t[1][0] == "str"):
        return starts_with(c)
    if isint(c.args[1]) and c.args[1] < 128:
        return starts(c, c.seq(0), bytes([c.args[1]]))
    if _pattern(c, 1) == "fn":
        return shim(c, "str_starts_fn", list(c.args))
    raise Unsupported("str::starts_with pattern")


@model(("[]", "ends_with"), ("str", "ends_with"))
def ends_with(c):
    s = c.seq(0)
    if "str" in c.name and _pattern(c, 1) == "fn":
        return shim(c, "str_ends_fn", list(c.args))
    k = bytes([c.args[1]]) if isint(c.args[1]) and c.args[1] < 128 else is_const_seq(c.seq(1))
    if k is None:
        raise Unsupported("ends_with")
    n = seq_len(s)
    if not c.decide(mk_ge(sub(n, len(k)))):
        return FALSE
    tail = c.it.seq_slice(c.side, c.facts, s, sub(n, len(k)), n)
    return mk_and([mk_eq0(sub(at(c, tail, i, U8), x)) for i, x in enumerate(k)])


def streq(facts, a, b):
    if a is b:
        return TRUE
    ka, kb = is_const_seq(a), is_const_seq(b)
    if ka is not None and kb is not None:
        return TRUE if ka == kb else FALSE
    if ka is not None:
        a, b, ka, kb = b, a, kb, ka
    if facts.seq_eq(a, b):
        return TRUE
    la, lb = seq_len(a), seq_len(b)
    if isint(la) and isint(lb) and la != lb:
        return FALSE
    if kb is not None and isint(la) and la <= 64:
        off = 0
        cs = []
        for p in a.args[0]:
            n = piece_len(p)
            for i in range(n):
                cs.append(mk_eq0(sub(facts.el(p, i), kb[off + i])))
            off += n
        return mk_and(cs)
    if kb is None and a.uid > b.uid:
        a, b = b, a
    return T("streq", a, b)


def eqv(c, a, b):
    """structural equality as a condition"""
    a, b = c.deref(a), c.deref(b)
    for _ in range(3):
        if isinstance(a, Term) and a.op in ("vref", "ref"):
            a = c.deref(a)
        if isinstance(b, Term) and b.op in ("vref", "ref"):
            b = c.deref(b)
    if isint(a) and isint(b):
        return TRUE if a == b else FALSE
    if a is b:
        return TRUE
    if isint(a) or isint(b) or a.op in INT_OPS or b.op in INT_OPS:
        return mk_eq0(sub(a, b))
    for x, y in ((a, b), (b, a)):
        if x.op in ("true", "false"):
            return y if x is TRUE else neg(y)
    if iscow(a) or iscow(b) or a.op == "seq" or b.op == "seq":
        sa, sb = content(a), content(b)
        return seqeqv(c, sa, sb)
    if a.op == "tup" and b.op == "tup":
        return mk_and([eqv(c, x, y) for x, y in zip(a.args[0], b.args[0])])
    if a.op == "adt" and b.op == "adt":
        if a.args[1] != b.args[1]:
            return FALSE
        return mk_and([eqv(c, x, y) for x, y in zip(a.args[2], b.args[2])])
    if a.op in ("adt", "tup") or b.op in ("adt", "tup"):
        k, t = (a, b) if a.op in ("adt", "tup") else (b, a)
        v = k.args[1] if k.op == "adt" else 0
        fs = k.args[2] if k.op == "adt" else k.args[0]
        cs = [T("is", t, v)] if k.op == "adt" else []
        for i, x in enumerate(fs):
            cs.append(eqv(c, x, like(T("fld", t, v, i), x)))
        return mk_and(cs)
    if a.uid > b.uid:
        a, b = b, a
    return T("oeq", a, b)


def like(t, x):
    """an opaque term shaped like x"""
    if isint(x) or x.op in INT_OPS:
        return T("ifn", "int", t)
    if x.op == "seq":
        return whole(t)
    return t


def seqeqv(c, a, b):
    if all(p.op != "el" for p in a.args[0] + b.args[0]):
        return streq(c.facts, a, b)
    la, lb = seq_len(a), seq_len(b)
    if isint(la) and isint(lb):
        if la != lb:
            return FALSE
        return mk_and([eqv(c, at(c, a, i, None), at(c, b, i, None)) for i in range(la)])
    return streq(c.facts, a, b)


@model(("str", "PartialEq", "eq"), ("Cow", "PartialEq", "eq"), ("String", "PartialEq", "eq"), ("Vec", "PartialEq", "eq"), ("[]", "PartialEq", "eq"), ("&A", "PartialEq", "eq"), ("&str", "PartialEq", "eq"), ("[;]", "PartialEq", "eq"),
       ("bool", "PartialEq", "eq"), ("u8", "PartialEq", "eq"), ("&", "PartialEq", "eq"), ("char", "PartialEq", "eq"), ("usize", "PartialEq", "eq"), ("()", "PartialEq", "eq"))
def eq(c):
    return eqv(c, c.args[0], c.args[1])


@model(("str", "PartialEq", "ne"), ("Cow", "PartialEq", "ne"), ("String", "PartialEq", "ne"), ("Vec", "PartialEq", "ne"), ("[]", "PartialEq", "ne"), ("&A", "PartialEq", "ne"), ("[;]", "PartialEq", "ne"))
def ne(c):
    return neg(eqv(c, c.args[0], c.args[1]))


TABLE[("any", "PartialEq", "eq")] = eq
TABLE[("any", "PartialEq", "ne")] = ne


@model(("str", "eq_ignore_ascii_case"), ("[]", "eq_ignore_ascii_case"))
def eq_nocase(c):
    a, b = c.seq(0), c.seq(1)
    return streq(c.facts, lower(c, a), lower(c, b))


@model(("u8", "eq_ignore_ascii_case"))
def u8_eq_nocase(c):
    return mk_eq0(sub(tabfn(c, LOWER, c.deref(c.args[0])), tabfn(c, LOWER, c.deref(c.args[1]))))


@model(("[]", "contains"))
def contains(c):
    s = c.seq(0)
    x = c.deref(c.args[1])
    k = is_const_seq(s)
    if k is not None and (isint(x) or as_tab(x) is not None):
        if isint(x):
            return TRUE if x in k else FALSE
        t, a = as_tab(x)
        return mk_in(a, mask_of(lambda i: t[i] in k))
    n = seq_len(s)
    if not isint(n):
        if elt(c.aty[0]) != U8:
            raise Unsupported("contains in a sequence of unknown length")
        return shim(c, "bytes_contain", [s, x])
    return mk_or([eqv(c, at(c, s, i, elt(c.aty[0])), x) for i in range(n)])


# ---------------------------------------------------------------- bytes and chars
def tabfn(c, t, v):
    if isint(v):
        if v > 255:
            raise Unsupported("char beyond a byte")
        return t[v]
    ta = as_tab(v)
    if ta is None:
        raise Unsupported("table of non-byte " + str(v))
    return mk_tab([t[x] for x in ta[0]], ta[1])


_pred = {
    "is_ascii_lowercase": lambda i: 97 <= i <= 122, "is_ascii_uppercase": lambda i: 65 <= i <= 90, "is_ascii_alphabetic": lambda i: chr(i).isascii() and chr(i).isalpha(),
    "is_ascii_digit": lambda i: 48 <= i <= 57, "is_ascii_alphanumeric": lambda i: i < 128 and chr(i).isalnum(), "is_ascii_hexdigit": lambda i: chr(i) in "0123456789abcdefABCDEF",
    "is_ascii_punctuation": lambda i: i < 128 and chr(i).isprintable() and not chr(i).isalnum() and i != 32, "is_ascii_graphic": lambda i: 33 <= i <= 126,
    "is_ascii_whitespace": lambda i: i in (9, 10, 12, 13, 32), "is_ascii_control": lambda i: i < 32 or i == 127, "is_ascii": lambda i: i < 128,
}
for _n, _p in _pred.items():
    def _mk(p):
        t = bytes(1 if p(i) else 0 for i in range(256))
        def h(c):
            v = c.deref(c.args[0])
            if isint(v):
                return TRUE if v < 256 and t[v] else FALSE
            x, a = as_tab(v) or (None, None)
            if x is None:
                raise Unsupported("predicate on non-byte")
            return mk_in(a, mask_of(lambda i: t[x[i]]))
        return h
    for _ty in ("u8", "char"):
        TABLE[(_ty, _n)] = _mk(_p)


_upred = {
    "is_uppercase": lambda i: chr(i).isupper(), "is_lowercase": lambda i: chr(i).islower(), "is_alphabetic": lambda i: chr(i).isalpha(), "is_numeric": lambda i: chr(i).isnumeric(),
    "is_alphanumeric": lambda i: chr(i).isalpha() or chr(i).isnumeric(), "is_whitespace": lambda i: i in (9, 10, 11, 12, 13, 32, 0x85, 0xa0), "is_control": lambda i: i < 32 or 127 <= i < 160,
}
for _n, _p in _upred.items():
    def _mk(n, p):
        t = bytes(1 if p(i) else 0 for i in range(256))
        def h(c):
            v = c.deref(c.args[0])
            if isint(v):
                if v > 255:
                    raise Unsupported(n)
                return TRUE if t[v] else FALSE
            x, a = as_tab(v) or (None, None)
            if x is None:
                return T("bv", T("app", n, v))
            return mk_in(a, mask_of(lambda i: t[x[i]]))
        return h
    TABLE[("char", _n)] = _mk(_n, _p)


@model(("u8", "to_ascii_lowercase"), ("char", "to_ascii_lowercase"))
def u8_lower(c):
    return tabfn(c, LOWER, c.deref(c.args[0]))


@model(("u8", "to_ascii_uppercase"), ("char", "to_ascii_uppercase"))
def u8_upper(c):
    return tabfn(c, UPPER, c.deref(c.args[0]))


def mapseq(c, s, t, name):
    out = []
    for p in s.args[0]:
        if p.op == "k":
            out.append(T("k", bytes(t[x] for x in p.args[0])))
        elif p.op == "el":
            out.append(norm_el(tabfn(c, t, p.args[0])))
        else:
            n = piece_len(p)
            if isint(n) and n <= 8:
                for i in range(n):
                    out.append(norm_el(tabfn(c, t, c.facts.el(p, i))))
            elif c.facts.stretch(p.args[0], p.args[1], p.args[2], mask_of(lambda i: t[i] == i)):
                out.append(p)
            elif p.args[0].op == "mapb" and p.args[0].args[0] == name:
                out.append(p)
            else:
                out.append(T("sl", T("mapb", name, p.args[0]), p.args[1], p.args[2]))
    return mk_seq(out)


def lower(c, s):
    return mapseq(c, s, LOWER, "lower")


@model(("str", "to_ascii_lowercase"), ("[]", "to_ascii_lowercase"), ("[u8]", "to_ascii_lowercase"))
def str_lower(c):
    return lower(c, c.seq(0))


@model(("str", "to_ascii_uppercase"), ("[]", "to_ascii_uppercase"))
def str_upper(c):
    return mapseq(c, c.seq(0), UPPER, "upper")


@model(("str", "to_lowercase"))
def str_to_lowercase(c):
    s = c.seq(0)
    k = is_const_seq(s)
    if k is not None and k.isascii():
        return const_seq(k.lower())
    if is_ascii_seq(c, s):
        return lower(c, s)
    return whole(T("app", "to_lowercase", s))


def is_ascii_seq(c, s):
    for p in s.args[0]:
        if p.op == "k":
            if not p.args[0].isascii():
                return False
        elif p.op == "el":
            if not utf8_piece(c, p):
                return False
        else:
            f = c.it.env.ascii_buf
            if not (f is not None and f(c, p.args[0])) and not c.facts.stretch(p.args[0], p.args[1], p.args[2], ASCII):
                return False
    return True


# ---------------------------------------------------------------- arithmetic
def _tyname(c):
    t = c.aty[0] if c.aty and c.aty[0] is not None else None
    return t[1] if t is not None and len(t) > 1 else parse_name(c.name)[0]


def _inrange(c, v):
    t = _tyname(c)
    return mk_and([mk_ge(sub(INTMAX[t], v)), mk_ge(sub(v, INTMIN.get(t, 0)))])


def _arith(op):
    def h(c):
        v = c.it.arith(op, c.args[0], c.args[1])
        if c.decide(_inrange(c, v)):
            return some(v)
        return NONE
    return h


def _sat(op):
    def h(c):
        v = c.it.arith(op, c.args[0], c.args[1])
        if c.decide(_inrange(c, v)):
            return v
        t = _tyname(c)
        if c.decide(mk_ge(sub(v, INTMAX[t]))):
            return INTMAX[t]
        return INTMIN.get(t, 0)
    return h


def _wrapping(op):
    def h(c):
        v = c.it.arith(op, c.args[0], c.args[1])
        return c.it.wrap(c.facts, v, ("uint", _tyname(c)))
    return h


for _t in INTMAX:
    for _o, _n in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul")):
        TABLE[(_t, "checked_" + _n)] = _arith(_o)
        TABLE[(_t, "saturating_" + _n)] = _sat(_o)
        TABLE[(_t, "wrapping_" + _n)] = _wrapping(_o)
        TABLE[(_t, "unchecked_" + _n)] = lambda c, o=_o: c.it.arith(o, c.args[0], c.args[1])


def cmpv(c, a, b):
    a, b = c.deref(a), c.deref(b)
    if not (isint(a) or a.op in INT_OPS) or not (isint(b) or b.op in INT_OPS):
        raise Unsupported("comparison of non-integers")
    d = sub(a, b)
    if c.decide(mk_ge(sub(-1, d))):
        return -1
    if c.decide(mk_ge(sub(d, 1))):
        return 1
    return 0


def ordering(v):
    return mk_adt(ORD, v + 1, ())


for _t in list(INTMAX) + ["char"]:
    TABLE[(_t, "PartialOrd", "partial_cmp")] = lambda c: some(ordering(cmpv(c, *c.args)))
    TABLE[(_t, "Ord", "cmp")] = lambda c: ordering(cmpv(c, *c.args))
    TABLE[(_t, "PartialOrd", "lt")] = lambda c: mk_ge(sub(sub(c.deref(c.args[1]), c.deref(c.args[0])), 1))
    TABLE[(_t, "PartialOrd", "le")] = lambda c: mk_ge(sub(c.deref(c.args[1]), c.deref(c.args[0])))
    TABLE[(_t, "PartialOrd", "gt")] = lambda c: mk_ge(sub(sub(c.deref(c.args[0]), c.deref(c.args[1])), 1))
    TABLE[(_t, "PartialOrd", "ge")] = lambda c: mk_ge(sub(c.deref(c.args[0]), c.deref(c.args[1])))
    TABLE[(_t, "PartialEq", "eq")] = eq
    TABLE[(_t, "PartialEq", "ne")] = ne
TABLE[("any", "PartialOrd", "partial_cmp")] = lambda c: some(ordering(cmpv(c, *c.args)))
for _n, _m in (("lt", 0), ("le", 1), ("gt", 2), ("ge", 3)):
    TABLE[("any", "PartialOrd", _n)] = TABLE[("u8", "PartialOrd", _n)]


def _minmax(is_min):
    def h(c):
        a, b = c.args[0], c.args[1]
        if c.decide(mk_ge(sub(b, a))):
            return a if is_min else b
        return b if is_min else a
    return h


for _t in list(INTMAX):
    TABLE[(_t, "Ord", "min")] = _minmax(True)
    TABLE[(_t, "Ord", "max")] = _minmax(False)
    TABLE[(_t, "From", "from")] = lambda c: c.it.int_cast(c.facts, c.args[0], c.aty[0], c.rty)
    TABLE[(_t, "Into", "into")] = TABLE[(_t, "From", "from")]
TABLE[("Ord", "min")] = _minmax(True)
TABLE[("Ord", "max")] = _minmax(False)
TABLE[("cmp", "min")] = _minmax(True)
TABLE[("cmp", "max")] = _minmax(False)


@model(("convert", "From", "from"), ("T", "From", "from"), ("any", "From", "from"), ("T", "Into", "into"))
def from_(c):
    t, r = c.aty[0], c.rty
    if t == r:
        return c.args[0]
    if t is not None and r is not None:
        if t[0] in ("uint", "int", "char", "bool") and r[0] in ("uint", "int", "char"):
            return c.it.int_cast(c.facts, c.args[0], t, r)
        if r[0] == "adt" and last(r[1]) in ("String", "Vec"):
            return c.seq(0)
        if r[0] == "adt" and last(r[1]) == "Cow":
            if t[0] == "ref":
                return mk_adt(COWN, 0, (c.seq(0),))
            if t[0] == "adt" and last(t[1]) in ("String", "Vec"):
                return mk_adt(COWN, 1, (c.seq(0),))
    raise Unsupported("From %s -> %s" % (t, r))


TABLE[("Cow", "From", "from")] = from_


@model(("str", "parse"))
def str_parse(c):
    s = c.seq(0)
    t = c.ta[0]
    k = is_const_seq(s)
    name = t[1] if len(t) > 1 else t[0]
    if k is not None:
        if name in ("u8", "u16", "u32", "u64", "usize"):
            d = k[1:] if k[:1] == b"+" else k
            if d.isdigit() and int(d) <= INTMAX[name]:
                return ok_(int(d))
            return err_(T("app", "parse_error", s))
    a = T("app", "parse:" + name, s)
    if not c.decide(T("ok", T("app", "parse:" + name, s))):
        return err_(T("app", "parse_error", s))
    return ok_(c.it.norm(T("val", a), t, c.side.prog))


# ---------------------------------------------------------------- building strings and vectors
@model(("Vec", "new"), ("String", "new"), ("Vec", "with_capacity"), ("String", "with_capacity"), ("Vec", "Default", "default"), ("String", "Default", "default"))
def empty(c):
    return EMPTY


@model(("Vec", "reserve"), ("String", "reserve"), ("Vec", "shrink_to_fit"), ("String", "shrink_to_fit"))
def nop(c):
    return UNIT


@model(("Vec", "push"), ("String", "push"))
def push(c):
    v = c.args[1]
    if c.name.startswith("std::string") or "String" in c.name:
        if not isint(v) or v > 127:
            ta = as_tab(v) if not isint(v) else None
            if ta is None or any(ta[0][i] > 127 for i in range(256) if c.facts.mask(ta[1]) >> i & 1):
                raise Unsupported("push of a non-ASCII char")
    c.set(c.args[0], cat(c.seq(0), seq_of(v)))
    return UNIT


def cow_name(c, i):
    t = c.aty[i]
    while t is not None and t[0] == "ref":
        t = t[1]
    return t


@model(("Cow", "to_mut"))
def cow_to_mut(c):
    ref = c.args[0]
    if not (isinstance(ref, Term) and ref.op == "ref"):
        raise Unsupported("to_mut through a value")
    s = content(c.it.get(c.side, c.facts, ref.args[0], ref.args[1]))
    if s is None:
        raise Unsupported("to_mut of unknown text")
    c.it.put(c.side, c.facts, ref.args[0], ref.args[1], T("adt", cow_name(c, 0)[1], 1, (s,)))
    return T("ref", ref.args[0], ref.args[1] + (("f", 1, 0, None),))


def cow_join(c, cur, new):
    """Cow + text: the text if nothing was there, else an owned joint"""
    a, b = content(cur), content(new) if not (isinstance(new, Term) and new.op == "seq") else new
    if a is None or b is None:
        raise Unsupported("text joined to unknown text")
    if c.facts.int_eq(seq_len(b), 0):
        return cur
    if c.facts.int_eq(seq_len(a), 0):
        return new if iscow(new) else T("cowc", b)
    r = mk_seq(a.args[0] + b.args[0])
    if c.facts.ge(sub(seq_len(a), 1)) and c.facts.ge(sub(seq_len(b), 1)):
        return T("adt", cow_name(c, 0)[1], 1, (r,))
    return T("cowc", r)


@model(("Cow", "AddAssign", "add_assign"))
def cow_add_assign(c):
    ref = c.args[0]
    if not (isinstance(ref, Term) and ref.op == "ref"):
        raise Unsupported("+= through a value")
    new = c.args[1]
    if isinstance(new, Term) and not iscow(new):
        new = c.seq(1)
    c.it.put(c.side, c.facts, ref.args[0], ref.args[1], cow_join(c, c.it.get(c.side, c.facts, ref.args[0], ref.args[1]), new))
    return UNIT


@model(("Cow", "Add", "add"))
def cow_add(c):
    new = c.args[1]
    if isinstance(new, Term) and not iscow(new):
        new = c.seq(1)
    return cow_join(c, c.args[0], new)


@model(("String", "push_str"), ("Vec", "extend_from_slice"))
def push_str(c):
    c.set(c.args[0], cat(c.seq(0), c.seq(1)))
    return UNIT


@model(("String", "Add", "add"))
def string_add(c):
    return cat(c.seq(0), c.seq(1))


@model(("String", "AddAssign", "add_assign"))
def string_add_assign(c):
    c.set(c.args[0], cat(c.seq(0), c.seq(1)))
    return UNIT


@model(("Vec", "append"))
def vec_append(c):
    s = cat(c.seq(0), c.seq(1))
    c.set(c.args[0], s)
    c.set(c.args[1], EMPTY)
    return UNIT


@model(("Vec", "Extend", "extend"), ("String", "Extend", "extend"))
def vec_extend(c):
    v = c.args[1]
    if isinstance(v, Term) and v.op == "it" and v.args[0] in ("iter", "vec"):
        v = v.args[1]
    else:
        if isinstance(v, Term) and (v.op == "it" or step_name(v) or v.op == "adt" and last(v.args[0]) in ("Range", "RangeInclusive", "Option")):
            t = c.aty[0]
            if "String" in str(t):
                return shim(c, "extend_" + text_items(c, 1), [c.args[0], into_it(c, 1)])
            if isinstance(v, Term) and v.op == "it" and v.args[0] == "copied" and v.args[1].op == "it" and v.args[1].args[0] == "iter":
                v = v.args[1].args[1]
            else:
                return shim(c, "extend_vec", [c.args[0], into_it(c, 1)])
        else:
            v = c.deref_seq(v)
    c.set(c.args[0], cat(c.seq(0), v))
    return UNIT


@model(("Vec", "insert"))
def vec_insert(c):
    s = c.seq(0)
    i = c.args[1]
    c.oblige("Vec::insert", mk_ge(sub(seq_len(s), i)))
    l, r = c.it.seq_cut(c.side, c.facts, s, i)
    c.set(c.args[0], cat(cat(l, seq_of(c.args[2])), r))
    return UNIT


@model(("Vec", "remove"), ("Vec", "swap_remove_last"))
def vec_remove(c):
    s = c.seq(0)
    i = c.args[1]
    c.oblige("Vec::remove", mk_ge(sub(sub(seq_len(s), i), 1)))
    v = at(c, s, i, elt(c.aty[0]))
    l, r = c.it.seq_cut(c.side, c.facts, s, i)
    _, r = c.it.seq_cut(c.side, c.facts, r, 1)
    c.set(c.args[0], cat(l, r))
    return v


@model(("Vec", "pop"))
def vec_pop(c):
    s = c.seq(0)
    n = seq_len(s)
    if not c.decide(mk_ge(sub(n, 1))):
        return NONE
    v = at(c, s, sub(n, 1), elt(c.aty[0]))
    l, _ = c.it.seq_cut(c.side, c.facts, s, sub(n, 1))
    c.set(c.args[0], l)
    return some(v)


@model(("Vec", "truncate"))
def vec_truncate(c):
    s = c.seq(0)
    n = c.args[1]
    if c.decide(mk_ge(sub(seq_len(s), n))):
        l, _ = c.it.seq_cut(c.side, c.facts, s, n)
        c.set(c.args[0], l)
    return UNIT


@model(("Vec", "clear"), ("String", "clear"))
def vec_clear(c):
    c.set(c.args[0], EMPTY)
    return UNIT


@model(("Vec", "drain"))
def vec_drain(c):
    s = c.seq(0)
    n = seq_len(s)
    lo, hi = rangeof(c, c.args[1], n)
    c.oblige("Vec::drain", slice_ok(lo, hi, n))
    l, _ = c.it.seq_cut(c.side, c.facts, s, lo)
    m = c.it.seq_slice(c.side, c.facts, s, lo, hi)
    _, r = c.it.seq_cut(c.side, c.facts, s, hi)
    c.set(c.args[0], cat(l, r))
    return T("it", "vec", m)


@model(("Box", "new_uninit"))
def box_new_uninit(c):
    # vec![..]: one cell, filled through a raw pointer
    d = len(c.side.frames) - 1
    key = (d, ("box", c.f.bb))
    c.side.mem[key] = T("uninit")
    return T("box", key)


@model(("boxed", "box_assume_init_into_vec_unsafe"))
def box_into_vec(c):
    b = c.args[0]
    v = c.side.mem[b.args[0]]
    return strip_uninit(v)


@model(("boxed", "box_new"), ("Box", "new"))
def box_new(c):
    return T("boxv", c.args[0])


def strip_uninit(v):
    while isinstance(v, Term) and v.op == "adt" and last(v.args[0]) in ("MaybeUninit", "ManuallyDrop", "MaybeDangling"):
        v = v.args[2][-1]
    return v


# ---------------------------------------------------------------- iterators
def mk_it(*a):
    return T("it", *a)


@model(("[]", "iter"), ("Vec", "iter"), ("&'a [T]", "IntoIterator", "into_iter"), ("&[]", "IntoIterator", "into_iter"), ("&Vec", "IntoIterator", "into_iter"), ("&[;]", "IntoIterator", "into_iter"))
def slice_iter(c):
    if c.name.find("&'a mut") >= 0 or (c.aty and c.aty[0] is not None and c.aty[0][0] == "ref" and c.aty[0][2] is True and c.name.endswith("into_iter")):
        return slice_iter_mut(c)
    return mk_it("iter", c.seq(0))


@model(("[]", "iter_mut"))
def slice_iter_mut(c):
    ref = c.args[0]
    if isinstance(ref, Term) and ref.op == "ref":
        return mk_it("itermut", ref.args[0], ref.args[1], 0)
    return mk_it("iter", c.seq(0))


@model(("Vec", "IntoIterator", "into_iter"), ("[;]", "IntoIterator", "into_iter"))
def vec_into_iter(c):
    if c.aty and c.aty[0] is not None and c.aty[0][0] == "ref":
        return slice_iter(c)
    return mk_it("vec", c.seq(0))


@model(("I", "IntoIterator", "into_iter"))
def iter_into_iter(c):
    return c.args[0]


@model(("any", "IntoIterator", "into_iter"))
def any_into_iter(c):
    t = c.aty[0]
    if t[0] == "ref" and t[1][0] in ("slice",) or (t[0] == "ref" and t[1][0] == "adt" and last(t[1][1]) == "Vec"):
        return slice_iter(c)
    if t[0] == "adt" and last(t[1]) == "Vec":
        return vec_into_iter(c)
    return c.args[0]


@model(("str", "chars"))
def chars(c):
    return mk_it("chars", c.seq(0))


@model(("str", "bytes"))
def str_bytes(c):
    return mk_it("vec", c.seq(0))


@model(("Iterator", "enumerate"))
def enumerate_(c):
    return mk_it("enum", c.args[0], 0)


@model(("Iterator", "rev"))
def rev(c):
    return mk_it("rev", c.args[0])


@model(("Iterator", "map"))
def map_(c):
    return mk_it("mapi", c.args[0], c.args[1])


@model(("Iterator", "copied"), ("Iterator", "cloned"))
def copied(c):
    return mk_it("copied", c.args[0])


@model(("Iterator", "by_ref"))
def by_ref(c):
    return c.args[0]


def mk_sit(name, *fields):
    """an iterator defined by a step function in the shims"""
    return mk_adt("shims::" + name, 0, tuple(fields))


STEPS = {"MapIt": "map", "FilterIt": "filter", "FilterMapIt": "filter_map", "InspectIt": "inspect", "TakeWhileIt": "take_while", "MapWhileIt": "map_while",
         "SkipWhileIt": "skip_while", "SkipIt": "skip", "TakeIt": "take", "StepIt": "step", "ZipIt": "zip", "ChainIt": "chain", "EnumIt": "enum", "RevIt": "rev",
         "CopiedIt": "copied", "PeekIt": "peek", "WindowsIt": "windows", "ChunksIt": "chunks", "ExactIt": "exact", "SplitIt": "split", "FromFnIt": "from_fn",
         "SuccIt": "succ", "OnceIt": "once"}


def step_name(v):
    if isinstance(v, Term) and v.op == "adt" and "shims::" in v.args[0]:
        return STEPS.get(last(v.args[0]))
    return None


def direct(v, back=False):
    """`advance` takes this step itself"""
    if not isinstance(v, Term):
        return False
    if v.op == "adt":
        return "shims::" not in v.args[0]
    if v.op != "it" or v.args[0] == "mapi":
        return False
    if v.args[0] == "rev":
        return direct(v.args[1], not back)
    if v.args[0] == "enum":
        return not back and direct(v.args[1])
    if v.args[0] == "copied":
        return direct(v.args[1], back)
    return True


def stepwise(v):
    """the same iterator with its outermost adapter defined by a shim"""
    k = v.args[0]
    if k == "mapi":
        return mk_sit("MapIt", v.args[1], v.args[2])
    if k == "enum":
        return mk_sit("EnumIt", v.args[1], v.args[2])
    if k == "rev":
        return mk_sit("RevIt", v.args[1])
    if k == "copied":
        return mk_sit("CopiedIt", v.args[1])
    raise Unsupported("next on %s" % v)


def into_it(c, i):
    """the argument of zip, chain, extend …: anything that converts into an iterator"""
    v = c.args[i]
    if isinstance(v, Term) and (v.op == "it" or v.op == "adt" and (step_name(v) or last(v.args[0]) in ("Range", "RangeInclusive", "RangeFrom"))):
        return v
    if isinstance(v, Term) and v.op == "adt" and last(v.args[0]) == "Option":
        return mk_sit("OnceIt", v)
    t = c.aty[i] if c.aty and i < len(c.aty) else None
    if isinstance(v, Term) and v.op == "ref":
        d = c.deref(v)
        if isinstance(d, Term) and (d.op == "it" or step_name(d)):
            return v
        return mk_it("iter", c.seq(i))
    if t is not None and t[0] == "ref":
        return mk_it("iter", c.seq(i))
    return mk_it("vec", c.seq(i))


for _n, _k in (("filter", "FilterIt"), ("filter_map", "FilterMapIt"), ("inspect", "InspectIt"), ("map_while", "MapWhileIt")):
    TABLE[("Iterator", _n)] = lambda c, k=_k: mk_sit(k, c.args[0], c.args[1])
for _n, _k in (("take_while", "TakeWhileIt"), ("skip_while", "SkipWhileIt")):
    TABLE[("Iterator", _n)] = lambda c, k=_k: mk_sit(k, c.args[0], FALSE, c.args[1])
TABLE[("Iterator", "zip")] = lambda c: mk_sit("ZipIt", c.args[0], into_it(c, 1))
TABLE[("Iterator", "chain")] = lambda c: mk_sit("ChainIt", c.args[0], into_it(c, 1), FALSE, FALSE)
TABLE[("Iterator", "step_by")] = lambda c: mk_sit("StepIt", c.args[0], sub(c.args[1], 1), TRUE)
TABLE[("Iterator", "peekable")] = lambda c: mk_sit("PeekIt", c.args[0], NONE)
TABLE[("iter", "zip")] = lambda c: mk_sit("ZipIt", into_it(c, 0), into_it(c, 1))
TABLE[("iter", "once")] = lambda c: mk_sit("OnceIt", some(c.args[0]))
TABLE[("iter", "empty")] = lambda c: mk_sit("OnceIt", NONE)
TABLE[("iter", "from_fn")] = lambda c: mk_sit("FromFnIt", c.args[0])
TABLE[("iter", "successors")] = lambda c: mk_sit("SuccIt", c.args[0], c.args[1])
TABLE[("Peekable", "peek")] = lambda c: shim(c, "peek_peek", list(c.args))
TABLE[("Peekable", "next_if")] = lambda c: shim(c, "peek_next_if", list(c.args))
TABLE[("[]", "windows")] = lambda c: mk_sit("WindowsIt", c.args[0], c.args[1])
TABLE[("[]", "chunks")] = lambda c: mk_sit("ChunksIt", c.args[0], c.args[1])
TABLE[("[]", "chunks_exact")] = lambda c: mk_sit("ExactIt", c.args[0], c.args[1])


@model(("[]", "split"))
def slice_split(c):
    # the step reads the separators as bytes
    if elt(c.aty[0]) != U8:
        raise Unsupported("split of other than bytes")
    return mk_sit("SplitIt", c.args[0], c.args[1], FALSE)


TABLE[("ChunksExact", "remainder")] = lambda c: shim(c, "exact_remainder", list(c.args))


@model(("ExactSizeIterator", "len"), ("Iter", "ExactSizeIterator", "len"), ("IntoIter", "ExactSizeIterator", "len"), ("Chars", "ExactSizeIterator", "len"))
def it_len(c):
    v = c.deref(c.args[0])
    while isinstance(v, Term) and v.op == "it" and v.args[0] in ("rev", "copied", "enum", "mapi"):
        v = v.args[1]
    if isinstance(v, Term) and v.op == "it" and v.args[0] in ("iter", "vec"):
        return seq_len(v.args[1])
    if isinstance(v, Term) and v.op == "adt" and last(v.args[0]) == "Range":
        a, b = v.args[2]
        return sub(b, a) if c.decide(mk_ge(sub(b, a))) else 0
    raise Unsupported("len of an iterator")


@model(("[]", "as_slice"), ("Iter", "as_slice"), ("IntoIter", "as_slice"), ("Chars", "as_str"))
def it_as_slice(c):
    v = c.deref(c.args[0])
    if isinstance(v, Term) and v.op == "it" and v.args[0] in ("iter", "vec", "chars"):
        return vref(v.args[1])
    raise Unsupported("as_slice")


@model(("Iterator", "skip"))
def skip(c):
    v, n = c.args
    if isinstance(v, Term) and v.op == "it" and v.args[0] in ("iter", "vec"):
        s = v.args[1]
        if c.decide(mk_ge(sub(seq_len(s), n))):
            return mk_it(v.args[0], c.it.seq_slice(c.side, c.facts, s, n, seq_len(s)))
        return mk_it(v.args[0], EMPTY)
    return mk_sit("SkipIt", v, n)


@model(("Iterator", "take"))
def take(c):
    v, n = c.args
    if isinstance(v, Term) and v.op == "it" and v.args[0] in ("iter", "vec"):
        s = v.args[1]
        if c.decide(mk_ge(sub(seq_len(s), n))):
            return mk_it(v.args[0], c.it.seq_slice(c.side, c.facts, s, 0, n))
        return v
    return mk_sit("TakeIt", v, n)


def advance(c, v, back=False):
    """(item or None, new iterator)"""
    if isinstance(v, Term) and v.op == "adt":
        k = last(v.args[0])
        if k == "Range":
            a, b = v.args[2]
            if not c.decide(mk_ge(sub(sub(b, a), 1)), "range"):
                return None, v
            if back:
                nb = sub(b, 1)
                return nb, mk_adt(v.args[0], 0, (a, nb))
            return a, mk_adt(v.args[0], 0, (add(a, 1), b))
        if k == "RangeInclusive":
            a, b, done = v.args[2]
            if done is TRUE or not c.decide(mk_ge(sub(b, a)), "range"):
                return None, v
            if c.decide(mk_eq0(sub(b, a)), "range"):
                return (b if back else a), mk_adt(v.args[0], 0, (a, b, TRUE))
            if back:
                return b, mk_adt(v.args[0], 0, (a, sub(b, 1), FALSE))
            return a, mk_adt(v.args[0], 0, (add(a, 1), b, FALSE))
        if k == "RangeFrom":
            return v.args[2][0], mk_adt(v.args[0], 0, (add(v.args[2][0], 1),))
    if not (isinstance(v, Term) and v.op == "it"):
        raise Unsupported("next on %s" % v)
    k = v.args[0]
    if k in ("iter", "vec", "chars"):
        s = v.args[1]
        n = seq_len(s)
        if not c.decide(mk_ge(sub(n, 1)), "iter"):
            return None, v
        i = sub(n, 1) if back else 0
        ety = None
        t = c.aty[0] if c.aty else None
        x = at(c, s, i, item_ty(c, k))
        if k == "chars":
            ta = as_tab(x) if not isint(x) else None
            if isint(x):
                if x > 127:
                    raise Unsupported("non-ASCII char")
            elif ta is None:
                raise Unsupported("char of an unknown byte")
            elif any(c.facts.mask2(ta[1]) >> j & 1 and ta[0][j] > 127 for j in range(256)):
                if back:
                    raise Unsupported("char of a byte that may not be ASCII")
                w = 1
                if not c.decide(mk_in(ta[1], mask_of(lambda j: ta[0][j] < 128))):
                    # a str holds UTF-8: the first byte tells the length, the others are continuation bytes
                    w = 2 if c.decide(mk_in(ta[1], mask_of(lambda j: 0xc2 <= ta[0][j] < 0xe0))) else 3 if c.decide(mk_in(ta[1], mask_of(lambda j: 0xe0 <= ta[0][j] < 0xf0))) else 4
                    ok = c.facts.assume(mk_ge(sub(n, w)))
                    for j in range(1, w):
                        y = at(c, s, j, item_ty(c, k))
                        ok = ok and (0x80 <= y < 0xc0 if isint(y) else as_tab(y) is not None and c.facts.assume(mk_in(as_tab(y)[1], mask_of(lambda q: 0x80 <= as_tab(y)[0][q] < 0xc0))))
                    if not ok:
                        raise Diverge("not UTF-8")
                    x = T("ifn", "int:char", T("app", "char", c.it.seq_slice(c.side, c.facts, s, 0, w)))
                    c.facts.assume(mk_ge(sub(x, 128)))
                    return x, mk_it(k, c.it.seq_slice(c.side, c.facts, s, w, n))
        r = c.it.seq_slice(c.side, c.facts, s, 0, i) if back else c.it.seq_slice(c.side, c.facts, s, 1, n)
        if k == "iter":
            x = wrap_ref(x)
        return x, mk_it(k, r)
    if k == "itermut":
        key, projs, i = v.args[1:]
        s = c.it.asseq(c.it.get(c.side, c.facts, key, projs))
        if not c.decide(mk_ge(sub(sub(seq_len(s), i), 1)), "iter"):
            return None, v
        if back:
            raise Unsupported("rev of iter_mut")
        return T("ref", key, projs + (("x", i),)), mk_it("itermut", key, projs, add(i, 1))
    if k == "enum":
        t = c.rty
        if t is not None and t[0] == "adt" and last(t[1]) == "Option" and t[2][0][0] == "tuple":
            c.rty = ("adt", t[1], (t[2][0][1][1],))
        x, n = advance(c, v.args[1], back)
        c.rty = t
        if x is None:
            return None, v
        if back:
            raise Unsupported("rev of enumerate")
        return tup(v.args[2], x), mk_it("enum", n, add(v.args[2], 1))
    if k == "rev":
        x, n = advance(c, v.args[1], not back)
        return x, (mk_it("rev", n) if x is not None else v)
    if k == "copied":
        x, n = advance(c, v.args[1], back)
        return (c.deref(x) if x is not None else None), (mk_it("copied", n) if x is not None else v)
    if k == "mapiter":
        return map_next(c, v)
    if k == "mapitermut":
        return map_next_mut(c, v)
    raise Unsupported("iterator " + str(k))


def item_ty(c, k):
    # the element type of sequences of opaque buffers, from the type of the item
    t = c.rty
    if t is not None and t[0] == "adt" and last(t[1]) == "Option":
        t = t[2][0]
        if k == "iter":
            t = pointee(t)
        return t if t[0] not in ("char", "alias", "param") else None
    return None


@model(("Iterator", "next"), ("Range", "Iterator", "next"), ("Iter", "Iterator", "next"), ("IntoIter", "Iterator", "next"), ("IterMut", "Iterator", "next"), ("Chars", "Iterator", "next"), ("Enumerate", "Iterator", "next"),
       ("Rev", "Iterator", "next"), ("RangeInclusive", "Iterator", "next"), ("Copied", "Iterator", "next"), ("Cloned", "Iterator", "next"), ("Bytes", "Iterator", "next"), ("Skip", "Iterator", "next"), ("Take", "Iterator", "next"), ("Drain", "Iterator", "next"))
def next_(c, back=False):
    ref = c.args[0]
    v = c.deref(ref)
    while isinstance(v, Term) and v.op == "ref":
        ref, v = v, c.deref(v)
    if not direct(v, back):
        k = step_name(v)
        if k is None and isinstance(v, Term) and v.op == "it":
            v = stepwise(v)
            c.set(ref, v)
            k = step_name(v)
        if k == "split" and not back:
            return shim(c, "next_split", [ref], [U8])
        if k is not None:
            return shim(c, ("back_" if back else "next_") + k, [ref])
    x, n = advance(c, v, back)
    if n is not v:
        c.set(ref, n)
    return NONE if x is None else some(x)


TABLE[("any", "Iterator", "next")] = next_


@model(("any", "DoubleEndedIterator", "next_back"), ("*DoubleEndedIterator", "next_back"))
def next_back(c):
    return next_(c, True)


@model(("RangeInclusive", "new"))
def range_inclusive(c):
    return mk_adt("std::ops::RangeInclusive", 0, (c.args[0], c.args[1], FALSE))


@model(("RangeInclusive", "contains"), ("Range", "contains"), ("RangeFrom", "contains"), ("RangeTo", "contains"), ("RangeToInclusive", "contains"))
def range_contains(c):
    r = c.deref(c.args[0])
    x = c.deref(c.args[1])
    k = last(r.args[0])
    f = [c.deref(y) for y in r.args[2][:2]]
    if k == "RangeInclusive":
        return mk_and([mk_ge(sub(x, f[0])), mk_ge(sub(f[1], x))])
    if k == "Range":
        return mk_and([mk_ge(sub(x, f[0])), mk_ge(sub(sub(f[1], x), 1))])
    if k == "RangeFrom":
        return mk_ge(sub(x, f[0]))
    if k == "RangeTo":
        return mk_ge(sub(sub(f[0], x), 1))
    return mk_ge(sub(f[0], x))


SHIMMED = ["any", "all", "position", "find", "fold", "count", "last", "for_each", "filter_map_collect"]


def shim(c, name, args, targs=()):
    p = c.it.env.std.shims
    if p is None:
        raise Unsupported("no shims for " + name)
    for k, m in p.meta.items():
        if k.endswith("shims::" + name):
            body = p.bodies[k]
            ta = {i: t for (i, _), t in zip(body.generics, targs)}
            c.it.push(c.side, body, ta, args, c.dest, c.target)
            return None
    raise Unsupported("no shim " + name)


def eval_fn(c, fn, args):
    """the value of a pure call on one path, or None"""
    if c.dest is None or c.dest[1]:
        return None
    it = type(c.it)(c.it.env.quiet_oracles())
    it.env.loop_hook = None
    s = c.side.copy()
    f = c.facts.copy()
    d = len(s.frames)
    try:
        it.invoke(s, f, s.frames[-1], fn, args, c.dest, c.target)
        n = 0
        while len(s.frames) > d:
            it.step(s, f)
            n += 1
            if n > 500:
                return None
        v = it.get(s, f, (d - 1, c.dest[0]), ())
    except (Split, Unsupported, Diverge):
        return None
    return v if it.assumed == 0 else None


def map_item_ty(c):
    """the item type of the iterator under a `map`"""
    t = c.aty[0] if c.aty else None
    if t is not None and t[0] == "adt" and last(t[1]) == "Map" and t[2] and t[2][0][0] == "adt":
        return t[2][0]
    return None


def same_elements(c, v):
    """a map that leaves every element as it is"""
    src, fn = v.args[1], v.args[2]
    if not (isinstance(src, Term) and src.op == "it" and src.args[0] == "vec"):
        return None
    t = map_item_ty(c)
    if t is None or not t[2]:
        return None
    for p in src.args[1].args[0]:
        if p.op != "sl":
            return None
        x = c.it.norm(T("elem", p.args[0], T("arg", "any")), t[2][0], c.side.prog)
        y = eval_fn(c, fn, [x])
        if y is None or not c.facts.eq(x, y):
            return None
    return src.args[1]


@model(("Iterator", "collect"))
def collect(c):
    v = c.args[0]
    r = c.rty
    if r is not None and r[0] == "adt" and last(r[1]) == "Vec" and isinstance(v, Term) and v.op == "it" and v.args[0] == "mapi":
        x = same_elements(c, v)
        if x is not None:
            return x
    if r is not None and r[0] == "adt" and last(r[1]) == "HashMap" and isinstance(v, Term) and v.op == "it" and v.args[0] == "vec":
        m = MEMPTY
        for p in v.args[1].args[0]:
            if p.op != "el":
                raise Unsupported("collect of an unknown sequence into a map")
            k, x = c.it.fld(p.args[0], 0, 0, None, c.side.prog), c.it.fld(p.args[0], 0, 1, None, c.side.prog)
            k = canon_key(c, k)
            i = map_lookup(c, m, k)[2]
            if i is not None:
                es = list(m.args[1])
                es[i] = (es[i][0], x)
                m = T("map", None, tuple(es))
            else:
                m = map_put(m, k, x)
        return m
    if r is not None and r[0] == "adt" and last(r[1]) in ("Vec", "String"):
        if isinstance(v, Term) and v.op == "it":
            if v.args[0] == "vec" or v.args[0] == "chars" and last(r[1]) == "String":
                return v.args[1]
            if last(r[1]) == "String":
                return shim(c, "collect_" + text_items(c, 0), [v])
            if v.args[0] == "copied" and v.args[1].op == "it" and v.args[1].args[0] == "iter":
                return v.args[1].args[1]
            if v.args[0] == "mapi":
                return shim(c, "collect_map", [v.args[1], v.args[2]])
            return shim(c, "collect_vec", [v])
    if r is not None and r[0] == "adt" and last(r[1]) == "HashMap":
        if isinstance(v, Term) and v.op == "it" and v.args[0] == "mapi" and v.args[1].op == "it" and v.args[1].args[0] == "mapiter":
            return map_map(c, v.args[1].args[1], v.args[2])
    if r is not None and r[0] == "adt" and last(r[1]) in ("Result", "Option") and r[2] and r[2][0][0] == "adt" and last(r[2][0][1]) == "Vec":
        if isinstance(v, Term) and v.op == "it" and v.args[0] == "mapi":
            return shim(c, "collect_result_map" if last(r[1]) == "Result" else "collect_option_map", [v.args[1], v.args[2]])
    v = into_it(c, 0)
    if r is not None and r[0] == "adt" and last(r[1]) == "Vec":
        return shim(c, "collect_vec", [v])
    if r is not None and r[0] == "adt" and last(r[1]) == "String":
        return shim(c, "collect_" + text_items(c, 0), [v])
    if r is not None and r[0] == "adt" and last(r[1]) in ("Result", "Option") and r[2] and r[2][0][0] == "adt" and last(r[2][0][1]) == "Vec":
        return shim(c, "collect_result" if last(r[1]) == "Result" else "collect_option", [v])
    raise Unsupported("collect into %s" % (r,))


def text_items(c, i):
    """whether an iterator that makes text gives characters or strings"""
    v = c.args[i]
    while isinstance(v, Term) and (v.op == "it" and v.args[0] in ("rev", "copied") or v.op == "adt" and step_name(v) in ("filter", "take_while", "skip_while", "skip", "take", "step", "chain", "peek", "rev", "copied", "inspect")):
        v = v.args[1] if v.op == "it" else v.args[2][0]
    if isinstance(v, Term) and v.op == "it" and v.args[0] == "chars":
        return "chars"
    s = str(c.aty[i]) if c.aty and i < len(c.aty) else ""
    if "Map" in s or not s:
        fn = v.args[2] if isinstance(v, Term) and v.op == "it" and v.args[0] == "mapi" else v.args[2][-1] if isinstance(v, Term) and v.op == "adt" else None
        t = fn_result(c, fn)
        if t is not None:
            if "char" in str(t):
                return "chars"
            if "str" in str(t):
                return "strs"
        raise Unsupported("text from unknown items")
    return "chars" if "char" in s and "str" not in s else "strs" if "str" in s else "chars"


def fn_result(c, fn):
    try:
        if fn.op == "closure" or fn.op == "fn":
            b = c.side.prog.bodies.get(fn.args[0])
            return b.locals[0] if b is not None else None
    except Exception:
        pass
    return None


def _shim_method(name):
    def h(c):
        return shim(c, name, list(c.args))
    return h


for _n in ("any", "all", "position", "find", "fold", "count", "for_each"):
    TABLE[("Iterator", _n)] = _shim_method("iter_" + _n)
    for _ty in ("Iter", "IntoIter", "Chars", "Bytes", "Range"):
        TABLE[(_ty, "Iterator", _n)] = TABLE[("Iterator", _n)]
for _n, _s in (("find_map", "iter_find_map"), ("last", "iter_last"), ("nth", "iter_nth"), ("rposition", "iter_rposition"), ("sum", "iter_sum")):
    TABLE[("Iterator", _n)] = _shim_method(_s)
    for _ty in ("Iter", "IntoIter", "Chars", "Bytes", "Range", "Skip", "Take", "StepBy"):
        TABLE[(_ty, "Iterator", _n)] = TABLE[("Iterator", _n)]
TABLE[("Iterator", "max")] = lambda c: shim(c, "iter_max_min", [c.args[0], TRUE])
TABLE[("Iterator", "min")] = lambda c: shim(c, "iter_max_min", [c.args[0], FALSE])
TABLE[("*DoubleEndedIterator", "rfind")] = _shim_method("iter_rfind")
TABLE[("Iterator", "eq")] = lambda c: shim(c, "iter_eq", [c.args[0], into_it(c, 1)])
TABLE[("Vec", "retain")] = _shim_method("vec_retain")


def _try_method(stem):
    def h(c):
        k = last(c.rty[1]) if c.rty is not None and c.rty[0] == "adt" else None
        if k not in ("Result", "Option"):
            raise Unsupported(stem)
        return shim(c, stem + ("_result" if k == "Result" else "_option"), list(c.args))
    return h


for _ty in ("Iterator", "Iter", "IntoIter", "Chars", "Bytes", "Range"):
    TABLE[("Iterator", "try_fold") if _ty == "Iterator" else (_ty, "Iterator", "try_fold")] = _try_method("try_fold")
    TABLE[("Iterator", "try_for_each") if _ty == "Iterator" else (_ty, "Iterator", "try_for_each")] = _try_method("try_each")


# ---------------------------------------------------------------- calls
@model(("any", "FnMut", "call_mut"), ("any", "FnOnce", "call_once"), ("any", "Fn", "call"))
def call_mut(c):
    fn, a = c.args
    args = list(a.args[0]) if isinstance(a, Term) and a.op == "tup" else None
    if args is None:
        raise Unsupported("call with packed arguments")
    c.it.invoke(c.side, c.facts, c.f, fn, args, c.dest, c.target)
    return None


for _k in ("FnMut", "FnOnce", "Fn"):
    for _m in ("call_mut", "call_once", "call"):
        TABLE[("*" + _k, _m)] = call_mut


@model(("Arguments", "new"), ("Argument", "new_debug"), ("Argument", "new_display"), ("Arguments", "new_const"), ("Arguments", "new_v1"), ("Arguments", "from_str"), ("Arguments", "from_str_nonconst"))
def fmt_args(c):
    return T("opq", "fmt")


@model(("intrinsics", "discriminant_value"))
def discriminant_value(c):
    v = c.deref(c.args[0])
    t = pointee(c.aty[0])
    i = c.it.variant(c.side, c.facts, v, t)
    a = c.side.prog.adts.get(t[1])
    return a[1][i][1] if a else i


@model(("mem", "swap"))
def swap(c):
    a, b = c.deref(c.args[0]), c.deref(c.args[1])
    c.set(c.args[0], b)
    c.set(c.args[1], a)
    return UNIT


@model(("mem", "replace"))
def replace(c):
    a = c.deref(c.args[0])
    c.set(c.args[0], c.args[1])
    return a


@model(("mem", "take"))
def mem_take(c):
    a = c.deref(c.args[0])
    if isinstance(a, Term) and a.op == "seq":
        c.set(c.args[0], EMPTY)
        return a
    if isinstance(a, Term) and a.op == "adt" and last(a.args[0]) == "Option" or (c.rty is not None and c.rty[0] == "adt" and last(c.rty[1]) == "Option"):
        c.set(c.args[0], NONE)
        return a
    raise Unsupported("mem::take")


@model(("Option", "as_deref"))
def option_as_deref(c):
    t = pointee(c.aty[0])
    k = last(t[2][0][1]) if t is not None and t[0] == "adt" and t[2] and t[2][0][0] == "adt" else None
    if k not in ("Vec", "String"):
        raise Unsupported("as_deref")
    return shim(c, "opt_deref_" + k.lower(), [c.args[0]], [t[2][0][2][0]] if k == "Vec" else ())


@model(("Option", "take"))
def option_take(c):
    a = c.deref(c.args[0])
    c.set(c.args[0], NONE)
    return a


@model(("mem", "drop"), ("ptr", "drop_in_place"), ("mem", "forget"))
def drop(c):
    return UNIT


# ---------------------------------------------------------------- maps: association terms
# map value: ("map", base, entries) with entries ((key, value|None), ...) latest last; keys known pairwise distinct
MEMPTY = T("map", None, ())


def asmap(v):
    if isinstance(v, Term):
        if v.op == "map":
            return v
        if v.op in OPAQUE:
            return T("map", v, ())
    raise Unsupported("not a map: %s" % v)


def map_get(it, facts, m, key, vty, prog):
    m = asmap(m)
    for k, v in reversed(m.args[1]):
        if k is key or facts.eq(k, key):
            return v
    base = m.args[0]
    return it.norm(T("mget", base, key), vty, prog) if vty is not None else T("mget", base, key)


def map_put(m, key, v):
    m = asmap(m)
    es = list(m.args[1])
    for i, e in enumerate(es):
        if e[0] is key or (isint(e[0]) and isint(key) and e[0] == key):
            es[i] = (e[0], v)
            break
    else:
        es.append((key, v))
    return T("map", m.args[0], tuple(es))


def keyeq(c, a, b):
    return eqv(c, a, b)


def canon_key(c, k):
    k = c.deref(k)
    t = c.aty[0] if c.aty else None
    while t is not None and t[0] == "ref":
        t = t[1]
    if t is not None and t[0] == "adt" and t[2] and isinstance(k, Term) and k.op in OPAQUE:
        kt = t[2][0]
        if kt[0] == "adt" and last(kt[1]) in ("Cow", "String") or kt[0] == "ref" and kt[1][0] == "str":
            return content(k)
    if iscow(k):
        return content(k)
    if isinstance(k, Term) and k.op == "vref":
        return canon_key(c, k.args[0])
    return k


def map_lookup(c, m, key):
    """(present?, value term or None, entry index); decides by splitting"""
    m = asmap(m)
    for i in range(len(m.args[1]) - 1, -1, -1):
        k, v = m.args[1][i]
        if c.decide(keyeq(c, k, key), "map key"):
            return v is not None, v, i
    if m.args[0] is None:
        return False, None, None
    return c.decide(T("mhas", m.args[0], key), "map has"), "base", None


def vty_of(c, i=0):
    t = c.aty[0]
    while t is not None and t[0] == "ref":
        t = t[1]
    return t[2][1] if t is not None and t[0] == "adt" and len(t[2]) > 1 else None


def _mapref(c):
    v = c.deref(c.args[0])
    return asmap(v)


@model(("HashMap", "new"), ("HashMap", "with_capacity"), ("HashMap", "Default", "default"))
def map_new(c):
    return MEMPTY


@model(("HashMap", "contains_key"))
def map_contains(c):
    m = _mapref(c)
    key = canon_key(c, c.args[1])
    return TRUE if map_lookup(c, m, key)[0] else FALSE


def base_value(c, m, key):
    return c.it.norm(T("mget", m.args[0], key), vty_of(c), c.side.prog)


@model(("HashMap", "get"))
def map_get_(c):
    m = _mapref(c)
    key = canon_key(c, c.args[1])
    p, v, i = map_lookup(c, m, key)
    if not p:
        return NONE
    if i is None:
        v = base_value(c, m, key)
    return some(wrap_ref(v))


@model(("HashMap", "get_mut"))
def map_get_mut(c):
    m = _mapref(c)
    key = canon_key(c, c.args[1])
    p, v, i = map_lookup(c, m, key)
    if not p:
        return NONE
    k = m.args[1][i][0] if i is not None else key
    ref = c.args[0]
    return some(T("ref", ref.args[0], ref.args[1] + (("mk", k, vty_of(c)),)))


@model(("HashMap", "insert"))
def map_insert(c):
    m = _mapref(c)
    key = canon_key(c, c.args[1])
    p, v, i = map_lookup(c, m, key)
    if i is not None:
        es = list(m.args[1])
        es[i] = (es[i][0], c.args[2])
        n = T("map", m.args[0], tuple(es))
    else:
        n = map_put(m, key, c.args[2])
        if p:
            v = base_value(c, m, key)
    c.set(c.args[0], n)
    return some(v) if p else NONE


@model(("HashMap", "remove"))
def map_remove(c):
    m = _mapref(c)
    key = canon_key(c, c.args[1])
    p, v, i = map_lookup(c, m, key)
    if not p:
        return NONE
    if i is None:
        v = base_value(c, m, key)
        n = map_put(m, key, None)
    else:
        es = list(m.args[1])
        if m.args[0] is None:
            del es[i]
        else:
            es[i] = (es[i][0], None)
        n = T("map", m.args[0], tuple(es))
    c.set(c.args[0], n)
    return some(v)


@model(("HashMap", "is_empty"))
def map_is_empty(c):
    m = _mapref(c)
    if m.args[0] is None:
        return FALSE if m.args[1] else TRUE
    if any(v is not None for _, v in m.args[1]):
        return FALSE
    raise Unsupported("is_empty of an unknown map")


@model(("HashMap", "len"))
def map_len(c):
    m = _mapref(c)
    if m.args[0] is None:
        return len(m.args[1])
    raise Unsupported("len of an unknown map")


@model(("HashMap", "IntoIterator", "into_iter"), ("HashMap", "into_iter"), ("HashMap", "drain"))
def map_into_iter(c):
    m = asmap(c.args[0] if not (isinstance(c.args[0], Term) and c.args[0].op in ("ref", "vref")) else c.deref(c.args[0]))
    return mk_it("mapiter", m, 0)


@model(("HashMap", "iter_mut"), ("HashMap", "values_mut"))
def map_iter_mut(c):
    ref = c.args[0]
    m = _mapref(c)
    return mk_it("mapitermut", ref, 0, vty_of(c))


def map_next(c, v):
    m, i = v.args[1], v.args[2]
    if m.args[0] is not None:
        raise Unsupported("iteration over an unknown map")
    if not isint(i):
        raise Unsupported("position in a map")
    if i >= len(m.args[1]):
        return None, v
    return tup(*m.args[1][i]), mk_it("mapiter", m, i + 1)


def map_next_mut(c, v):
    ref, i = v.args[1], v.args[2]
    m = asmap(c.deref(ref))
    if m.args[0] is not None:
        raise Unsupported("iteration over an unknown map")
    if not isint(i):
        raise Unsupported("position in a map")
    if i >= len(m.args[1]):
        return None, v
    k = m.args[1][i][0]
    return tup(vref(k), T("ref", ref.args[0], ref.args[1] + (("mk", k, v.args[3]),))), mk_it("mapitermut", ref, i + 1, v.args[3])


def map_map(c, m, fn):
    """the map of the images of the entries"""
    t = map_item_ty(c)
    kt = t[2] if t is not None else None
    base = m.args[0]
    if base is not None:
        if not kt or len(kt) < 2:
            raise Unsupported("map over a map")
        x = tup(c.it.norm(T("arg", "anykey"), kt[0], c.side.prog), c.it.norm(T("arg", "anyvalue"), kt[1], c.side.prog))
        y = eval_fn(c, fn, [x])
        if y is None or not c.facts.eq(x, y):
            raise Unsupported("map over a map")
    out = T("map", base, ())
    for k, v in m.args[1]:
        if v is None:
            raise Unsupported("map over a map")
        y = eval_fn(c, fn, [tup(k, v)])
        if y is None:
            raise Unsupported("map over a map")
        k2 = canon_key(c, c.it.fld(y, 0, 0, None, c.side.prog))
        if not c.facts.eq(k2, k):
            raise Unsupported("map that changes the keys of a map")
        out = map_put(out, k, c.it.fld(y, 0, 1, None, c.side.prog))
    return out


@model(("HashMap", "entry"))
def map_entry(c):
    return mk_it("entry", c.args[0], canon_key(c, c.args[1]), vty_of(c))


def entry_insert(c, default):
    e = c.args[0]
    ref, key, vty = e.args[1:]
    m = asmap(c.deref(ref))
    p, v, i = map_lookup(c, m, key)
    if not p:
        c.set(ref, map_put(m, key, default()))
        k = key
    else:
        k = m.args[1][i][0] if i is not None else key
    return T("ref", ref.args[0], ref.args[1] + (("mk", k, vty),))


@model(("Entry", "or_insert"))
def entry_or_insert(c):
    return entry_insert(c, lambda: c.args[1])


@model(("Entry", "or_default"))
def entry_or_default(c):
    return entry_insert(c, lambda: MEMPTY if c.args[0].args[3] is not None and last(c.args[0].args[3][1]) == "HashMap" else EMPTY)


@model(("Entry", "or_insert_with"))
def entry_or_insert_with(c):
    def f():
        v = eval_fn2(c, c.args[1], [])
        if v is None:
            raise Unsupported("default of an entry")
        return v
    return entry_insert(c, f)


def eval_fn2(c, fn, args):
    if isinstance(fn, Term) and fn.op == "fn" and "HashMap" in repr(fn) and "new" in repr(fn):
        return MEMPTY
    return eval_fn(c, fn, args)


@model(("HashMap", "PartialEq", "eq"))
def map_eq(c):
    a, b = asmap(c.deref(c.args[0])), asmap(c.deref(c.args[1]))
    if a is b:
        return TRUE
    return T("oeq", a, b)


def _refcmp(h):
    def g(c):
        a, b = c.deref(c.args[0]), c.deref(c.args[1])
        while isinstance(a, Term) and a.op in ("ref", "vref"):
            a = c.deref(a)
        while isinstance(b, Term) and b.op in ("ref", "vref"):
            b = c.deref(b)
        c.args[0], c.args[1] = a, b
        for x in (a, b):
            if isinstance(x, Term) and x.op in ("seq", "adt", "tup"):
                raise Unsupported("ordering of " + x.op)
        return h(c)
    return g


for _n in ("lt", "le", "gt", "ge"):
    TABLE[("*PartialOrd", _n)] = _refcmp(TABLE[("u8", "PartialOrd", _n)])


def _ordis(f):
    def h(c):
        v = c.deref(c.args[0])
        if isinstance(v, Term) and v.op == "adt" and last(v.args[0]) == "Ordering":
            return TRUE if f(v.args[1] - 1) else FALSE
        raise Unsupported("ordering")
    return h


for _n, _f in (("is_lt", lambda v: v < 0), ("is_le", lambda v: v <= 0), ("is_gt", lambda v: v > 0), ("is_ge", lambda v: v >= 0), ("is_eq", lambda v: v == 0), ("is_ne", lambda v: v != 0)):
    TABLE[("Ordering", _n)] = _ordis(_f)


# ---------------------------------------------------------------- more of Vec, slices and str, through their shims
for _n, _s in (("dedup", "vec_dedup"), ("dedup_by_key", "vec_dedup_by_key"), ("resize", "vec_resize")):
    TABLE[("Vec", _n)] = _shim_method(_s)
for _n, _s in (("reverse", "slice_reverse"), ("sort", "slice_sort"), ("sort_unstable", "slice_sort"), ("sort_by", "slice_sort_by"), ("sort_by_key", "slice_sort_by_key"),
               ("first_mut", "slice_first_mut"), ("last_mut", "slice_last_mut"), ("is_ascii", "slice_is_ascii"),
               ("trim_ascii", "trim_bytes"), ("trim_ascii_start", "trim_start_bytes"), ("trim_ascii_end", "trim_end_bytes")):
    TABLE[("[]", _n)] = _shim_method(_s)
    TABLE[("[u8]", _n)] = _shim_method(_s)
TABLE[("str", "is_ascii")] = _shim_method("slice_is_ascii")
TABLE[("str", "trim")] = _shim_method("str_trim")
TABLE[("str", "trim_start")] = _shim_method("str_trim_start")
TABLE[("str", "trim_end")] = _shim_method("str_trim_end")


def _pattern(c, i):
    """what kind of text pattern the argument is"""
    t = c.aty[i]
    while t is not None and t[0] == "ref" and t[1][0] in ("ref", "adt"):
        t = t[1]
    if t is not None and (t[0] == "ref" and t[1][0] == "str" or t[0] == "adt" and last(t[1]) in ("String",)):
        return "str"
    v = c.deref(c.args[i]) if t is None or t[0] == "ref" else c.args[i]
    if t is not None and t[0] == "char":
        if isint(v) and v < 128:
            return "byte"
        raise Unsupported("a pattern that is not a known character")
    if isinstance(v, Term) and v.op in ("clo", "fn") or t is not None and t[0] in ("closure", "fndef", "fn"):
        return "fn"
    raise Unsupported("text pattern %s of type %s" % (v, t))


def _by_pattern(shims):
    def h(c):
        k = _pattern(c, 1)
        if k not in shims:
            raise Unsupported("text pattern")
        return shim(c, shims[k], list(c.args))
    return h


for _n, _m in (("find", {"str": "str_find_str", "byte": "str_find_byte", "fn": "str_find_fn"}),
               ("rfind", {"str": "str_rfind_str", "byte": "str_rfind_byte", "fn": "str_rfind_fn"}),
               ("contains", {"str": "str_has_str", "byte": "str_has_byte", "fn": "str_has_fn"}),
               ("split_once", {"str": "str_once_str", "byte": "str_once_byte", "fn": "str_once_fn"}),
               ("rsplit_once", {"byte": "str_ronce_byte"}),
               ("trim_matches", {"byte": "trim_both_byte", "fn": "trim_both_fn"}),
               ("trim_start_matches", {"byte": "trim_start_byte", "fn": "trim_start_fn"}),
               ("trim_end_matches", {"byte": "trim_end_byte", "fn": "trim_end_fn"}),
               ("split", {"byte": "str_split_byte"})):
    TABLE[("str", _n)] = _by_pattern(_m)


@model(("str", "replace"))
def str_replace(c):
    k = _pattern(c, 1)
    if k == "str":
        p = is_const_seq(c.seq(1))
        if not p:
            raise Unsupported("replace of a text that may be empty")
    elif k != "byte":
        raise Unsupported("replace")
    return shim(c, "str_replace_" + k, list(c.args))


@model(("str", "char_indices"))
def char_indices(c):
    return mk_it("enum", mk_it("chars", c.seq(0)), 0)


@model(("[]", "strip_suffix"), ("str", "strip_suffix"))
def strip_suffix(c):
    if isint(c.args[1]) and c.args[1] < 128:
        k = bytes([c.args[1]])
    else:
        k = is_const_seq(c.seq(1))
    if k is None:
        raise Unsupported("strip_suffix of non-constant")
    s = c.seq(0)
    n = seq_len(s)
    if not c.decide(mk_ge(sub(n, len(k)))):
        return NONE
    tail = c.it.seq_slice(c.side, c.facts, s, sub(n, len(k)), n)
    if not c.decide(mk_and([mk_eq0(sub(at(c, tail, i, U8), x)) for i, x in enumerate(k)])):
        return NONE
    return some(c.it.seq_slice(c.side, c.facts, s, 0, sub(n, len(k))))


@model(("Vec", "split_off"))
def vec_split_off(c):
    s = c.seq(0)
    n = c.args[1]
    c.oblige("Vec::split_off", mk_ge(sub(seq_len(s), n)))
    l, r = c.it.seq_cut(c.side, c.facts, s, n)
    c.set(c.args[0], l)
    return r


@model(("[]", "swap"))
def slice_swap(c):
    s = c.seq(0)
    i, j = c.args[1], c.args[2]
    n = seq_len(s)
    for k in (i, j):
        c.oblige("slice::swap", mk_ge(sub(sub(n, k), 1)))
    if c.decide(mk_eq0(sub(i, j))):
        return UNIT
    if c.decide(mk_ge(sub(sub(i, j), 1))):
        i, j = j, i
    e = elt(c.aty[0])
    x, y = at(c, s, i, e), at(c, s, j, e)
    l, r = c.it.seq_cut(c.side, c.facts, s, i)
    _, r = c.it.seq_cut(c.side, c.facts, r, 1)
    m, r = c.it.seq_cut(c.side, c.facts, r, sub(sub(j, i), 1))
    _, r = c.it.seq_cut(c.side, c.facts, r, 1)
    c.set(c.args[0], cat(cat(cat(l, seq_of(y)), cat(m, seq_of(x))), r))
    return UNIT


@model(("Vec", "swap_remove"))
def vec_swap_remove(c):
    s = c.seq(0)
    i = c.args[1]
    n = seq_len(s)
    c.oblige("Vec::swap_remove", mk_ge(sub(sub(n, i), 1)))
    e = elt(c.aty[0])
    v = at(c, s, i, e)
    if c.decide(mk_eq0(sub(sub(n, i), 1))):
        l, _ = c.it.seq_cut(c.side, c.facts, s, i)
        c.set(c.args[0], l)
        return v
    z = at(c, s, sub(n, 1), e)
    l, r = c.it.seq_cut(c.side, c.facts, s, i)
    _, r = c.it.seq_cut(c.side, c.facts, r, 1)
    r, _ = c.it.seq_cut(c.side, c.facts, r, sub(sub(sub(n, i), 1), 1))
    c.set(c.args[0], cat(cat(l, seq_of(z)), r))
    return v

"""Abstract execution of MIR over the term domain: one side (implementation or specification).

A side runs deterministically under a set of facts; when a condition is not decided by the facts it
raises Split with the exhaustive list of alternatives, and the caller refines the facts.
"""
import re
from terms import *
from mir import subst_ty
import facts as FX

USIZE_MAX = MAXU
INTMAX = {"u8": 255, "u16": 65535, "u32": (1 << 32) - 1, "u64": MAXU, "usize": MAXU, "u128": (1 << 128) - 1,
          "i8": 127, "i16": 32767, "i32": (1 << 31) - 1, "i64": (1 << 63) - 1, "isize": (1 << 63) - 1}
INTMIN = {"i8": -128, "i16": -32768, "i32": -(1 << 31), "i64": -(1 << 63), "isize": -(1 << 63)}
UNIT_TY = ("tuple", ())
USIZE = ("uint", "usize")
U8 = ("uint", "u8")


class Split(Exception):
    def __init__(self, alts, what=None):
        self.alts = alts
        self.what = what


class Unsupported(Exception):
    pass


class Diverge(Exception):
    """the path ends in a panic (or is impossible)"""
    def __init__(self, why):
        self.why = why


class Panic(Diverge):
    """a safety obligation fails on this path"""
    def __init__(self, why, detail=""):
        self.why = why
        self.detail = detail


class Frame:
    __slots__ = ("body", "targs", "bb", "si", "dest", "target", "tkey", "visits", "entered", "heads")

    def __init__(self, body, targs, dest, target):
        self.body = body
        self.targs = targs
        self.bb = 0
        self.si = 0
        self.dest = dest
        self.target = target
        self.tkey = tuple(sorted(targs.items())) if targs else ()
        self.visits = {}
        self.heads = {}
        self.entered = (0, 0)

    def copy(self):
        f = Frame.__new__(Frame)
        f.body = self.body
        f.targs = self.targs
        f.bb = self.bb
        f.si = self.si
        f.dest = self.dest
        f.target = self.target
        f.tkey = self.tkey
        f.entered = self.entered
        f.heads = self.heads
        f.visits = dict(self.visits) if self.visits else {}
        return f


class Side:
    """machine state of one program"""
    __slots__ = ("prog", "frames", "mem", "ret", "steps", "name", "env", "stopped", "nsplit", "level", "rlevel")

    def __init__(self, prog, name, env):
        self.prog = prog
        self.frames = []
        self.mem = {}
        self.ret = None
        self.steps = 0
        self.name = name
        self.env = env
        self.stopped = False
        self.nsplit = 0
        self.level = 0
        self.rlevel = 0

    def copy(self):
        s = Side.__new__(Side)
        s.prog = self.prog
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.ret = self.ret
        s.steps = self.steps
        s.name = self.name
        s.env = self.env
        s.stopped = self.stopped
        s.nsplit = self.nsplit
        s.level = self.level
        s.rlevel = self.rlevel
        return s

    def where(self):
        f = self.frames[-1] if self.frames else None
        if f is None:
            return "?"
        return "%s (%s)" % (f.body.key, f.body.blocks[f.bb]["sp"])


def last(n):
    return n.rsplit("::", 1)[-1]


STRINGY = {"alloc::string::String", "std::string::String", "std::vec::Vec", "alloc::vec::Vec"}


def mk_adt(name, variant, fields):
    return T("adt", name, variant, tuple(fields))


OPT = "std::option::Option"
RES = "std::result::Result"
NONE = mk_adt(OPT, 0, ())
ANYERR = T("err", T("arg", "any"))
MESSAGE = whole(T("arg", "message"))


def some(v):
    return mk_adt(OPT, 1, (v,))


def ok_(v):
    return mk_adt(RES, 0, (v,))


def err_(v):
    return mk_adt(RES, 1, (v,))


def tup(*vs):
    return T("tup", tuple(vs))


def vref(v):
    return T("vref", v)


OPAQUE = {"val", "fld", "elem", "app", "arg", "sel", "mget", "mrem", "gv", "ic", "deref"}


def open_leaf(facts, c):
    """an undecided part of a compound condition"""
    while c.op in ("and", "or", "not"):
        if c.op == "not":
            c = c.args[0]
            continue
        for x in c.args[0]:
            if facts.decide(x) is None:
                c = x
                break
        else:
            return c
    return c


class Interp:
    """env: configuration shared by the sides of one analysis"""

    def __init__(self, env):
        self.env = env
        self.assumed = 0    # obligations taken for granted on the way

    # ------------------------------------------------------------ driving
    def run(self, side, facts, limit=200000):
        """advance until return ('done'), or raise Split / Diverge / Unsupported"""
        n = 0
        while side.ret is None and not side.stopped:
            self.step(side, facts)
            n += 1
            if n > limit:
                raise Unsupported("step limit in " + side.where())
        return side.ret

    def step(self, side, facts):
        f = side.frames[-1]
        blk = f.body.blocks[f.bb]
        ss = blk["s"]
        while f.si < len(ss):
            self.stmt(side, facts, f, ss[f.si])
            f.si += 1
        self.term(side, facts, f, blk["t"])

    def jump(self, side, facts, f, bb):
        old = f.bb
        f.bb = bb
        f.si = 0
        loops = f.body.loops()
        if bb in loops:
            hook = self.env.loop_hook
            if hook is not None:
                hook(self, side, facts, f, bb, old not in loops[bb])

    # ------------------------------------------------------------ decisions
    def decide(self, facts, c, what=None):
        r = facts.decide(c)
        if r is None:
            l = open_leaf(facts, c)
            raise Split([l, neg(l)], what)
        return r

    def oblige(self, side, facts, kind, cond, detail=""):
        """a safety obligation at the current location; afterwards it is assumed"""
        r = facts.decide(cond)
        ob = self.env.obligations
        if ob is not None:
            ob(side, facts, kind, cond, r, detail)
        if r is True:
            return
        if r is False:
            raise Panic(kind, detail)
        if self.env.strict and kind not in ("assume",):
            l = open_leaf(facts, cond)
            raise Split([l, neg(l)], kind)
        self.assumed += 1
        if not facts.assume(cond):
            raise Diverge(kind)

    # ------------------------------------------------------------ types
    def ty(self, f, t):
        return subst_ty(t, f.targs) if f.targs else t

    def local_ty(self, f, l):
        return self.ty(f, f.body.locals[l])

    def place_ty(self, side, f, place):
        t = self.local_ty(f, place[0])
        prog = f.body.prog
        for e in place[1]:
            k = e[0]
            if k == "d":
                if t[0] in ("ref", "ptr"):
                    t = t[1]
                elif t[0] == "adt" and last(t[1]) == "Box":
                    t = t[2][0]
            elif k == "f":
                t = self.ty(f, prog.types[e[2]])
            elif k in ("i", "ci"):
                t = t[1] if t[0] in ("slice", "array") else ("other", "elem")
        return t

    # ------------------------------------------------------------ opaque values
    def norm(self, t, ty, prog):
        """give an opaque term the shape its type demands"""
        k = ty[0]
        if k == "tuple":
            return T("tup", tuple(self.norm(T("fld", t, 0, i), x, prog) for i, x in enumerate(ty[1])))
        if k == "ref" or k == "ptr":
            inner = ty[1]
            if inner[0] in ("slice", "str"):
                if inner[0] == "str":
                    self.env.texts.add(t)
                return whole(t)
            return vref(self.norm(t, inner, prog))
        if k == "uint":
            if ty[1] == "u8":
                return t if t.op in BYTE_OPS else T("u8", t)
            return T("ifn", "int:" + ty[1], t)
        if k in ("int", "char"):
            return T("ifn", "int:" + (ty[1] if len(ty) > 1 else "char"), t)
        if k == "bool":
            return T("bv", t)
        if k in ("slice", "str", "array"):
            if k == "str":
                self.env.texts.add(t)
            return whole(t)
        if k == "adt":
            n = ty[1]
            if last(n) == "String" or last(n) == "Cow" and ty[2] and ("str",) in [x[:1] for x in ty[2]]:
                self.env.texts.add(t)
            if n in STRINGY:
                return whole(t)
            a = prog.adts.get(n)
            if a is not None and a[0] == "struct" and a[1] and all(ft is not None for _, ft in a[1][0][2]):
                ta = dict(enumerate(ty[2]))
                return mk_adt(n, 0, [self.norm(T("fld", t, 0, i), subst_ty(ft, self._gen(prog, n, ty)), prog) for i, (_, ft) in enumerate(a[1][0][2])])
        return t

    def _gen(self, prog, n, ty):
        # type parameters of an adt are numbered among all its generics; lifetimes come first
        g = prog.adt_params(n)
        return dict(zip(g, ty[2]))

    def fld(self, v, variant, i, ty, prog):
        """field i of a value"""
        if isinstance(v, Term):
            o = v.op
            if o == "adt":
                return v.args[2][i]
            if o == "tup":
                return v.args[0][i]
            if o == "clo":
                return v.args[2][i]
            if o == "cowc":
                return v.args[0]
            if o in ("ptr", "box") and i == 0:
                return v
            if o == "it" or o == "map":
                raise Unsupported("field of " + o)
            if iscow(v) or (ty is not None and o in OPAQUE and ty[0] == "ref" and ty[1][0] in ("str", "slice") and False):
                return content(v)
            if o in OPAQUE:
                t = T("fld", v, variant, i)
                if ty is None:
                    return t
                return self.norm(t, ty, prog)
            if o == "seq" and i == 0:
                return v
        raise Unsupported("field of %s" % (v if not isinstance(v, Term) else v.op))

    # ------------------------------------------------------------ places
    def resolve(self, side, facts, f, place, for_write=False):
        """-> ('cell', key, projs) or ('val', value)"""
        depth = side.frames.index(f) if f is not side.frames[-1] else len(side.frames) - 1
        key = (depth, place[0])
        projs = ()
        val = None
        mode = "cell"
        variant = 0
        prog = f.body.prog
        t = self.local_ty(f, place[0])
        for e in place[1]:
            k = e[0]
            if k == "d":
                v = self.get(side, facts, key, projs) if mode == "cell" else val
                if v is None:
                    raise Unsupported("deref of unset " + str(place))
                t = t[1] if t[0] in ("ref", "ptr") else (t[2][0] if t[0] == "adt" and t[2] else t)
                if isinstance(v, Term) and v.op == "ref":
                    mode, key, projs = "cell", v.args[0], v.args[1]
                elif isinstance(v, Term) and v.op == "vref":
                    mode, val = "val", v.args[0]
                elif isinstance(v, Term) and v.op == "seq":
                    mode, val = "val", v
                elif isinstance(v, Term) and v.op == "box":
                    mode, key, projs = "cell", v.args[0], ()
                else:
                    raise Unsupported("deref of %s" % (v.op if isinstance(v, Term) else v))
            elif k == "v":
                variant = e[1]
                continue
            elif k == "f":
                fty = self.ty(f, prog.types[e[2]])
                if mode == "cell":
                    projs = projs + (("f", variant, e[1], fty),)
                else:
                    val = self.cfld(val, variant, e[1], fty, prog, t)
                t = fty
            elif k == "i" or k == "ci":
                if k == "i":
                    i = side.mem[(depth, e[1])]
                else:
                    if e[3]:
                        base = self.get(side, facts, key, projs) if mode == "cell" else val
                        i = sub(seq_len(self.asseq(base)), e[1])
                    else:
                        i = e[1]
                if mode == "cell":
                    projs = projs + (("x", i),)
                else:
                    val = self.seq_at(side, facts, self.asseq(val), i, self._elty(t))
                t = self._elty(t)
            elif k == "ss":
                base = self.get(side, facts, key, projs) if mode == "cell" else val
                s = self.asseq(base)
                lo, hi = e[1], (sub(seq_len(s), e[2]) if e[3] else e[2])
                mode, val = "val", self.seq_slice(side, facts, s, lo, hi)
            else:
                raise Unsupported("projection " + str(e))
            variant = 0
        if mode == "cell":
            return ("cell", key, projs, t)
        return ("val", val, None, t)

    def cfld(self, v, variant, i, fty, prog, t):
        # a field of an opaque Cow is its content
        if t is not None and t[0] == "adt" and last(t[1]) == "Cow" and isinstance(v, Term) and v.op != "adt":
            c = content(v)
            if c is None:
                raise Unsupported("cow field")
            return c
        return self.fld(v, variant, i, fty, prog)

    @staticmethod
    def _elty(t):
        return t[1] if t[0] in ("slice", "array") else (t[2][0] if t[0] == "adt" and t[2] else None)

    def get(self, side, facts, key, projs):
        v = side.mem.get(key)
        if v is None:
            raise Unsupported("read of unset local %s in %s" % (key, side.where()))
        prog = side.prog
        for p in projs:
            if p[0] == "f":
                if isinstance(v, Term) and v.op in OPAQUE and p[3] is not None and p[3][0] in ("ref", "adt", "param") and self._cowlike(v):
                    v = content(v)
                else:
                    v = self.fld(v, p[1], p[2], p[3], prog)
            elif p[0] == "x":
                v = self.seq_at(side, facts, self.asseq(v), p[1], p[2] if len(p) > 2 else None)
            elif p[0] == "mk":
                v = self.env.std.map_read(self, side, facts, v, p)
            else:
                raise Unsupported("proj " + p[0])
        return v

    def _cowlike(self, v):
        return v in self.env.cows

    def put(self, side, facts, key, projs, new):
        if not projs:
            side.mem[key] = new
            return
        old = side.mem.get(key)
        side.mem[key] = self._upd(side, facts, old, projs, new)

    def _upd(self, side, facts, old, projs, new):
        if not projs:
            return new
        p = projs[0]
        if p[0] == "f":
            if old is None:
                raise Unsupported("partial initialisation")
            if isinstance(old, Term) and old.op == "uninit":
                return self._upd(side, facts, old, projs[1:], new)
            sub_old = self.fld(old, p[1], p[2], p[3], side.prog)
            n = self._upd(side, facts, sub_old, projs[1:], new)
            if old.op == "adt":
                fs = list(old.args[2])
                fs[p[2]] = n
                return mk_adt(old.args[0], old.args[1], fs)
            if old.op == "tup":
                fs = list(old.args[0])
                fs[p[2]] = n
                return T("tup", tuple(fs))
            if old.op == "clo":
                fs = list(old.args[2])
                fs[p[2]] = n
                return T("clo", old.args[0], old.args[1], tuple(fs))
            if old.op == "box" or old.op == "ptr":
                return n
            if iscow(old) or old in self.env.cows:
                return mk_adt("std::borrow::Cow", p[1], (n,))
            raise Unsupported("field write to " + old.op)
        if p[0] == "x":
            s = self.asseq(old)
            o = None if not projs[1:] else self.seq_at(side, facts, s, p[1], None)
            n = self._upd(side, facts, o, projs[1:], new)
            return self.seq_set(side, facts, s, p[1], n)
        if p[0] == "mk":
            return self.env.std.map_write(self, side, facts, old, p, projs[1:], new)
        raise Unsupported("write proj " + p[0])

    def read(self, side, facts, f, place):
        r = self.resolve(side, facts, f, place)
        if r[0] == "val":
            return r[1]
        return self.get(side, facts, r[1], r[2])

    def write(self, side, facts, f, place, v):
        if not place[1]:
            side.mem[(len(side.frames) - 1, place[0])] = v
            return
        r = self.resolve(side, facts, f, place, True)
        if r[0] != "cell":
            raise Unsupported("write through shared reference")
        self.put(side, facts, r[1], r[2], v)

    # ------------------------------------------------------------ sequences
    def asseq(self, v):
        if isinstance(v, Term):
            if v.op == "seq":
                return v
            if v.op == "vref":
                return self.asseq(v.args[0])
            if v.op in OPAQUE:
                return whole(v)
        raise Unsupported("not a sequence: %s" % (v.op if isinstance(v, Term) else v))

    def seq_at(self, side, facts, s, i, elty):
        """element i (in bounds)"""
        off = 0
        ps = s.args[0]
        for n, p in enumerate(ps):
            L = piece_len(p)
            end = add(off, L)
            if n + 1 < len(ps):
                c = mk_ge(sub(sub(end, i), 1))
                if not self.decide(facts, c, "index"):
                    off = end
                    continue
            j = sub(i, off)
            if p.op == "k":
                b = p.args[0]
                if isint(j):
                    if 0 <= j < len(b):
                        return b[j]
                    raise Diverge("index")
                ta = as_tab(j)
                if ta is not None:
                    return mk_tab([b[v] if 0 <= v < len(b) else 0 for v in ta[0]], ta[1])
                return T("byte", T("kb", b), j)
            if p.op == "el":
                return p.args[0]
            idx = add(p.args[1], j)
            buf = p.args[0]
            if elty is not None and elty != U8 and elty[0] not in ("char",):
                return self.norm(T("elem", buf, idx), elty, side.prog)
            return byte_at(buf, idx)
        raise Diverge("index in empty sequence")

    def seq_cut(self, side, facts, s, at):
        """split a sequence at offset `at` (0 <= at <= len)"""
        if isint(at) and at == 0:
            return EMPTY, s
        ps = s.args[0]
        off = 0
        for n, p in enumerate(ps):
            L = piece_len(p)
            end = add(off, L)
            d = sub(end, at)
            if facts.int_eq(d, 0):
                return mk_seq(ps[:n + 1]), mk_seq(ps[n + 1:])
            if n + 1 < len(ps):
                if not self.decide(facts, mk_ge(d), "cut"):
                    off = end
                    continue
            j = sub(at, off)
            if facts.int_eq(j, 0):
                return mk_seq(ps[:n]), mk_seq(ps[n:])
            if p.op == "el":
                # 0 <= j <= 1
                if self.decide(facts, mk_ge(sub(j, 1)), "cut"):
                    return mk_seq(ps[:n + 1]), mk_seq(ps[n + 1:])
                return mk_seq(ps[:n]), mk_seq(ps[n:])
            if p.op == "k" and not isint(j):
                for v in range(len(p.args[0])):
                    if self.decide(facts, mk_eq0(sub(j, v)), "cut"):
                        j = v
                        break
                else:
                    j = len(p.args[0])
            a, b = facts.cut(p, j)
            l = ps[:n] + (a,)
            r = ((b,) if b is not None else ()) + ps[n + 1:]
            return mk_seq(l), mk_seq(r)
        return s, EMPTY

    def seq_slice(self, side, facts, s, a, b):
        ps = s.args[0]
        if len(ps) == 1 and ps[0].op == "sl":
            p = ps[0]
            if facts.int_eq(a, b):
                # keep the position of empty slices of a buffer out of the way
                return EMPTY
            return mk_seq((T("sl", p.args[0], add(p.args[1], a), add(p.args[1], b)),))
        l, _ = self.seq_cut(side, facts, s, b)
        _, r = self.seq_cut(side, facts, l, a)
        return r

    def seq_set(self, side, facts, s, i, v):
        l, r = self.seq_cut(side, facts, s, i)
        m, r2 = self.seq_cut(side, facts, r, 1)
        return cat(cat(l, seq_of(v)), r2)

    # ------------------------------------------------------------ operands
    def const(self, side, f, c):
        k = c["k"]
        prog = f.body.prog
        if k == "int":
            t = prog.types[c["t"]]
            v = int(c["v"])
            if t[0] == "bool":
                return TRUE if v else FALSE
            return v
        if k in ("bytes", "refbytes"):
            return const_seq(bytes(c["v"]))
        if k == "array":
            return seq_of(*[self.const(side, f, x) for x in c["v"]])
        if k == "tuple":
            return T("tup", tuple(self.const(side, f, x) for x in c["v"]))
        if k == "ref":
            v = self.const(side, f, c["v"])
            return v if isinstance(v, Term) and v.op == "seq" else vref(v)
        if k == "adt":
            t = prog.types[c["t"]]
            if t[1] in STRINGY or last(t[1]) in ("RangeFull",):
                pass
            if c["variant"] < 2 and len(c["v"]) == 1 and last(t[1]) == "Error":
                return mk_adt(t[1], c["variant"], (MESSAGE,))
            return mk_adt(t[1], c["variant"], [self.const(side, f, x) for x in c["v"]])
        if k == "fn":
            return T("fn", c["d"], tuple(self.ty(f, prog.types[i]) for i in c["a"]))
        if k == "closure":
            t = self.ty(f, prog.types[c["t"]])
            return T("clo", t[1], t[2], ())
        if k == "promoted":
            return self.promoted(side, c, f)
        if k == "unk" and f.body.key.startswith("core::option::"):
            t = prog.types[c["t"]]
            if t[0] == "adt" and last(t[1]) == "Option" and t[2] and t[2][0][0] == "ref":
                # a constant no layout is needed for
                return mk_adt(t[1], 0, ())
        raise Unsupported("constant " + k)

    def promoted(self, side, c, f):
        prog = f.body.prog
        key = ("prom", prog.crate, c["d"], c["i"], f.tkey)
        r = self.env.cache.get(key)
        if r is None:
            body = prog.bodies[c["d"]].promoted[c["i"]]
            s2 = Side(prog, side.name, side.env)
            s2.frames.append(Frame(body, f.targs, None, None))
            it = Interp(self.env.quiet())
            v = it.run(s2, FX.Facts())
            # follow the reference into the promoted frame
            r = self.freeze(s2, v)
            self.env.cache[key] = r
        return r

    def freeze(self, s2, v):
        if isinstance(v, Term):
            if v.op == "ref":
                x = self.freeze(s2, self.get(s2, FX.Facts(), v.args[0], v.args[1]))
                return x if x.op == "seq" else vref(x)
            if v.op == "vref":
                x = self.freeze(s2, v.args[0])
                return vref(x)
            if v.op == "adt":
                return mk_adt(v.args[0], v.args[1], [self.freeze(s2, x) for x in v.args[2]])
            if v.op == "tup":
                return T("tup", tuple(self.freeze(s2, x) for x in v.args[0]))
            if v.op == "seq":
                return mk_seq([T("el", self.freeze(s2, p.args[0])) if p.op == "el" else p for p in v.args[0]])
        return v

    def op(self, side, facts, f, o):
        k = o[0]
        if k == "k":
            return self.const(side, f, o[1])
        if k in ("c", "m"):
            return self.read(side, facts, f, o[1])
        if k == "rt":
            return TRUE if o[1] in ("UbChecks", "OverflowChecks", "ContractChecks") and o[1] == "OverflowChecks" else FALSE
        raise Unsupported("operand " + k)

    def op_ty(self, side, f, o):
        if o[0] == "k":
            c = o[1]
            if "t" in c:
                return self.ty(f, f.body.prog.types[c["t"]])
            return None
        if o[0] == "rt":
            return ("bool",)
        return self.place_ty(side, f, o[1])

    # ------------------------------------------------------------ statements
    def stmt(self, side, facts, f, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(side, facts, f, s[2], s[1])
            self.write(side, facts, f, s[1], v)
        elif k == "live":
            pass
        elif k == "dead":
            side.mem.pop((len(side.frames) - 1, s[1]), None)
        elif k == "assume":
            v = self.op(side, facts, f, s[1])
            if isinstance(v, Term):
                self.oblige(side, facts, "assume", v)
        elif k == "sd":
            old = self.read(side, facts, f, s[1])
            if old.op == "adt":
                self.write(side, facts, f, s[1], mk_adt(old.args[0], s[2], old.args[2]))
            else:
                raise Unsupported("set discriminant")
        elif k == "intrinsic":
            pass
        else:
            raise Unsupported("statement " + k)

    def rvalue(self, side, facts, f, r, dest):
        k = r[0]
        if k == "use":
            return self.op(side, facts, f, r[1])
        if k == "ref":
            return self.ref(side, facts, f, r[1], r[2])
        if k == "raw":
            rr = self.resolve(side, facts, f, r[1])
            if rr[0] == "cell":
                v = self.get(side, facts, rr[1], rr[2]) if rr[1] in side.mem else None
                if isinstance(v, Term) and v.op == "seq" and rr[3][0] in ("slice", "str"):
                    return v
                return T("ref", rr[1], rr[2])
            return rr[1] if isinstance(rr[1], Term) and rr[1].op == "seq" else vref(rr[1])
        if k == "bin":
            ta = self.op_ty(side, f, r[2])
            return self.binop(side, facts, r[1], self.op(side, facts, f, r[2]), self.op(side, facts, f, r[3]), ta)
        if k == "un":
            v = self.op(side, facts, f, r[2])
            if r[1] == "Not":
                t = self.op_ty(side, f, r[2])
                if t[0] == "bool":
                    return neg(v)
                ta = as_tab(v)
                if isint(v):
                    return (INTMAX[t[1]] ^ v)
                if ta is not None:
                    return mk_tab([INTMAX[t[1]] ^ x for x in ta[0]], ta[1])
                return T("ifn", "not", v)
            if r[1] == "PtrMetadata":
                return seq_len(self.asseq(v))
            if r[1] == "Neg":
                return scale(v, -1)
            raise Unsupported("unop " + r[1])
        if k == "discr":
            return self.discr(side, facts, f, r[1])
        if k == "agg":
            return self.agg(side, facts, f, r)
        if k == "cast":
            return self.cast(side, facts, f, r)
        if k == "repeat":
            v = self.op(side, facts, f, r[1])
            if r[2] is None:
                raise Unsupported("repeat")
            return seq_of(*([v] * int(r[2])))
        raise Unsupported("rvalue " + k + str(r)[:80])

    def ref(self, side, facts, f, mut, place):
        r = self.resolve(side, facts, f, place)
        t = r[3]
        if r[0] == "val":
            v = r[1]
            if t[0] in ("slice", "str"):
                return v
            return vref(v)
        if mut:
            return T("ref", r[1], r[2])
        try:
            v = self.get(side, facts, r[1], r[2])
        except Unsupported:
            return T("ref", r[1], r[2])
        if isinstance(v, Term) and v.op in ("clo", "it", "map", "box"):
            return T("ref", r[1], r[2]) if v.op == "clo" and v.args[2] else vref(v)
        if t[0] in ("slice", "str"):
            return v
        return vref(v)

    def discr(self, side, facts, f, place):
        v = self.read(side, facts, f, place)
        t = self.place_ty(side, f, place)
        i = self.variant(side, facts, v, t)
        a = f.body.prog.adts.get(t[1]) if t[0] == "adt" else None
        if a is None:
            return i
        return a[1][i][1]

    def variant(self, side, facts, v, t):
        if isinstance(v, Term) and v.op == "adt":
            return v.args[1]
        if isinstance(v, Term) and v.op == "case":
            return self.pick_case(facts, v).args[1]
        if isinstance(v, Term) and t[0] == "adt":
            a = side.prog.adts.get(t[1])
            if a is None:
                raise Unsupported("adt " + t[1])
            n = len(a[1])
            if v.op == "cowc":
                v = T("ic", v)
            if v.op not in OPAQUE and v.op != "seq":
                raise Unsupported("discriminant of " + v.op)
            r = facts.isv.get(v)
            if isinstance(r, int):
                return r
            alts = [i for i in range(n) if r is None or i in r]
            if last(t[1]) == "Cow":
                self.env.cows.add(v)
            raise Split([T("is", v, i) for i in alts], "variant")
        raise Unsupported("discriminant of %s" % (v,))

    def agg(self, side, facts, f, r):
        kind = r[1]
        vs = [self.op(side, facts, f, o) for o in r[2]]
        k = kind[0]
        if k == "tuple":
            return T("tup", tuple(vs))
        if k == "array":
            return seq_of(*vs)
        if k == "adt":
            if kind[2] < 2 and len(vs) == 1 and last(kind[1]) == "Error":
                # the text of a message says nothing the properties speak of
                return mk_adt(kind[1], kind[2], (MESSAGE,))
            return mk_adt(kind[1], kind[2], vs)
        if k == "closure":
            prog = f.body.prog
            return T("clo", kind[1], tuple(self.ty(f, prog.types[i]) for i in kind[2]), tuple(vs))
        if k == "rawptr":
            return vs[0]
        raise Unsupported("aggregate " + k)

    def cast(self, side, facts, f, r):
        kind = r[1]
        v = self.op(side, facts, f, r[2])
        prog = f.body.prog
        t = self.ty(f, prog.types[r[3]])
        if kind.startswith("PointerCoercion(Unsize"):
            if isinstance(v, Term) and v.op == "vref" and isinstance(v.args[0], Term) and v.args[0].op == "seq" and t[0] in ("ref", "ptr") and t[1][0] in ("slice", "str"):
                return v.args[0]
            return v
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "FnPtrToPtr"):
            return v
        if kind == "IntToInt":
            return self.int_cast(facts, v, self.op_ty(side, f, r[2]), t)
        if kind in ("Subtype", "BoxDerefTransmute"):
            return v
        raise Unsupported("cast " + kind)

    def int_cast(self, facts, v, ft, t):
        if ft[0] == "bool":
            if v is TRUE:
                return 1
            if v is FALSE:
                return 0
            if v.op == "in":
                return mk_tab([(v.args[1] >> i) & 1 for i in range(256)], v.args[0])
            return 1 if self.decide(facts, v, "bool cast") else 0
        if t[0] == "char":
            return v
        hi = INTMAX.get(t[1])
        if hi is None:
            raise Unsupported("cast to " + str(t))
        lo = INTMIN.get(t[1], 0)
        if isint(v):
            m = hi - lo + 1
            return (v - lo) % m + lo
        if facts.ge(sub(hi, v)) and facts.ge(sub(v, lo)):
            return v
        ta = as_tab(v)
        if ta is not None:
            m = hi - lo + 1
            return mk_tab([(x - lo) % m + lo for x in ta[0]], ta[1])
        if t[1] == "u8":
            return T("u8", T("ifn", "trunc", v))
        return T("ifn", "cast:" + t[1], v)

    def binop(self, side, facts, op, a, b, ty):
        if ty is not None and ty[0] in ("bool",) or (isinstance(a, Term) and a.op in ("true", "false")):
            if op == "Eq":
                return self.iff(facts, a, b)
            if op == "Ne":
                return neg(self.iff(facts, a, b))
            if op == "BitAnd":
                return mk_and([a, b])
            if op == "BitOr":
                return mk_or([a, b])
            if op == "BitXor":
                return neg(self.iff(facts, a, b))
            raise Unsupported("bool op " + op)
        if isinstance(a, Term) and a.op in ("ptr", "seq", "ref", "vref"):
            if op in ("Eq", "Ne"):
                c = self.env.std.ptr_eq(self, facts, a, b)
                return c if op == "Eq" else neg(c)
            raise Unsupported("pointer op " + op)
        if op in ("Eq", "Ne"):
            c = mk_eq0(sub(a, b))
            if isinstance(c, Term) and c.op == "eq":
                r = facts.decide(c)
                if r is not None:
                    c = TRUE if r else FALSE
            return c if op == "Eq" else neg(c)
        if op == "Lt":
            return mk_ge(sub(sub(b, a), 1))
        if op == "Le":
            return mk_ge(sub(b, a))
        if op == "Gt":
            return mk_ge(sub(sub(a, b), 1))
        if op == "Ge":
            return mk_ge(sub(a, b))
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            v = self.arith(op[:3], a, b)
            hi = INTMAX[ty[1]]
            lo = INTMIN.get(ty[1], 0)
            ov = mk_or([mk_ge(sub(v, hi + 1)), mk_ge(sub(lo - 1, v))])
            return tup(v, ov)
        if op in ("Add", "Sub", "Mul"):
            v = self.arith(op, a, b)
            return self.wrap(facts, v, ty)
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return self.arith(op[:3], a, b)
        if op == "Cmp":
            raise Unsupported("Cmp")
        base = {"BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y,
                "Shl": lambda x, y: x << (y & 63), "Shr": lambda x, y: x >> (y & 63), "ShlUnchecked": lambda x, y: x << (y & 63), "ShrUnchecked": lambda x, y: x >> (y & 63),
                "Div": lambda x, y: x // y if y else 0, "Rem": lambda x, y: x % y if y else 0}.get(op)
        if base is None:
            raise Unsupported("binop " + op)
        m = INTMAX[ty[1]]
        g = (lambda x, y: base(x, y) & m) if op in ("Shl", "ShlUnchecked") else base
        r = self.lift(g, a, b)
        if r is None:
            r = self.bitwise(facts, op, g, a, b, m)
        if r is not None:
            return r
        return T("ifn", op, a, b) if ty[1] != "u8" else T("u8", T("ifn", op, a, b))

    def bit_parts(self, facts, v):
        """v as a sum of parts with pairwise disjoint bits: [(part, bits)]"""
        if isint(v):
            return [(v, v)] if v >= 0 else None
        c, items = lin_parts(v)
        if c < 0:
            return None
        out = [(c, c)] if c else []
        for a, k in items:
            if k <= 0:
                return None
            ta = as_tab(a)
            if ta is None:
                if len(items) == 1 and not c and k == 1:
                    h = facts.range_of(a)[1]
                    if h is None:
                        return None
                    return [(a, (1 << h.bit_length()) - 1)]
                return None
            m = facts.mask(ta[1])
            bits = 0
            for i in range(256):
                if m >> i & 1:
                    x = ta[0][i] * k
                    if x < 0:
                        return None
                    bits |= x
            out.append((mk_tab([x * k for x in ta[0]], ta[1]) if k != 1 else a, bits))
        tot = 0
        for _, b in out:
            if tot & b:
                return None
            tot |= b
        return out

    def bitwise(self, facts, op, g, a, b, m):
        pa = self.bit_parts(facts, a)
        if pa is None:
            return None
        if op in ("BitOr", "BitXor"):
            pb = self.bit_parts(facts, b)
            if pb is None:
                return None
            x = y = 0
            for _, k in pa:
                x |= k
            for _, k in pb:
                y |= k
            return add(a, b) if x & y == 0 else None
        if op == "BitAnd" and isint(a):
            a, b = b, a
            pa = self.bit_parts(facts, a)
            if pa is None:
                return None
        if op in ("BitAnd", "Shr", "Shl", "ShrUnchecked", "ShlUnchecked") and isint(b):
            r = 0
            for p, _ in pa:
                q = self.lift(g, p, b)
                if q is None:
                    return None
                r = add(r, q)
            return r
        return None

    def lift(self, g, a, b):
        if isint(a) and isint(b):
            return g(a, b)
        ta, tb = as_tab(a), as_tab(b)
        if ta is not None and isint(b):
            return mk_tab([g(x, b) for x in ta[0]], ta[1])
        if tb is not None and isint(a):
            return mk_tab([g(a, x) for x in tb[0]], tb[1])
        if ta is not None and tb is not None and ta[1] is tb[1]:
            return mk_tab([g(x, y) for x, y in zip(ta[0], tb[0])], ta[1])
        return None

    def arith(self, op, a, b):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if isint(a):
            return scale(b, a)
        if isint(b):
            return scale(a, b)
        r = self.lift(lambda x, y: x * y, a, b)
        if r is not None:
            return r
        return T("ifn", "mul", a, b)

    def wrap(self, facts, v, ty):
        hi = INTMAX[ty[1]]
        lo = INTMIN.get(ty[1], 0)
        if isint(v):
            return (v - lo) % (hi - lo + 1) + lo
        if facts.ge(sub(hi, v)) and facts.ge(sub(v, lo)):
            return v
        ta = as_tab(v)
        if ta is not None:
            return mk_tab([(x - lo) % (hi - lo + 1) + lo for x in ta[0]], ta[1])
        return T("ifn", "wrap:" + ty[1], v)

    def iff(self, facts, a, b):
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return neg(b)
        if b is FALSE:
            return neg(a)
        return b if self.decide(facts, a, "iff") else neg(b)

    # ------------------------------------------------------------ terminators
    def term(self, side, facts, f, t):
        k = t[0]
        if k == "goto":
            self.jump(side, facts, f, t[1])
        elif k == "switch":
            self.switch(side, facts, f, t)
        elif k == "drop":
            self.jump(side, facts, f, t[2])
        elif k == "assert":
            c = self.op(side, facts, f, t[1])
            if not t[2]:
                c = neg(c)
            kind = t[3]
            self.oblige(side, facts, kind, c)
            self.jump(side, facts, f, t[5])
        elif k == "ret":
            self.ret(side, facts, f)
        elif k == "call":
            self.call(side, facts, f, t)
        elif k == "unreachable":
            raise Diverge("unreachable")
        else:
            raise Unsupported("terminator " + k)

    def switch(self, side, facts, f, t):
        v = self.op(side, facts, f, t[1])
        ty = f.body.prog.types[t[2]]
        if ty[0] == "bool":
            if v is TRUE:
                b = 1
            elif v is FALSE:
                b = 0
            else:
                b = 1 if self.decide(facts, v) else 0
            for val, bb in t[3]:
                if int(val) == b:
                    return self.jump(side, facts, f, bb)
            return self.jump(side, facts, f, t[4])
        if isint(v):
            for val, bb in t[3]:
                if int(val) == v:
                    return self.jump(side, facts, f, bb)
            return self.jump(side, facts, f, t[4])
        conds = [(mk_eq0(sub(v, int(val))), bb) for val, bb in t[3]]
        alts = []
        oth = []
        for c, bb in conds:
            r = facts.decide(c)
            if r is True:
                return self.jump(side, facts, f, bb)
            if r is None:
                alts.append((c, bb))
            oth.append(neg(c))
        if not alts:
            return self.jump(side, facts, f, t[4])
        if len(alts) == 1:
            raise Split([alts[0][0], neg(alts[0][0])], "switch")
        # group the values that lead to the same block
        by = {}
        for c, bb in alts:
            by.setdefault(bb, []).append(c)
        by.setdefault(t[4], []).append(mk_and(oth))
        for bb, cs in by.items():
            if facts.decide(mk_or(cs)) is True:
                return self.jump(side, facts, f, bb)
        raise Split([mk_or(cs) if len(cs) > 1 else cs[0] for cs in by.values()] if all(len(cs) == 1 or mk_or(cs).op == "in" for cs in by.values()) else [c for c, _ in alts] + [mk_and(oth)], "switch")

    def ret(self, side, facts, f):
        d = len(side.frames) - 1
        v = side.mem.get((d, 0), UNIT)
        if self.env.ret_hook is not None and isinstance(v, Term) and v.op == "adt" and v.args[0] == RES and v.args[1] == 1:
            e = v.args[2][0]
            if isinstance(e, Term) and (e.op == "err" or e.op == "adt" and e.args[1] < 2 and last(e.args[0]) == "Error"):
                v = err_(ANYERR)
        side.frames.pop()
        for k in [k for k in side.mem if k[0] == d]:
            del side.mem[k]
        if not side.frames:
            side.ret = v
            return
        g = side.frames[-1]
        self.write(side, facts, g, f.dest, v)
        self.jump(side, facts, g, f.target)
        h = self.env.ret_hook
        if h is not None:
            h(side, f)

    def push(self, side, body, targs, args, dest, target):
        fr = Frame(body, targs, dest, target)
        fr.entered = (side.level, side.nsplit)
        d = len(side.frames)
        if d > 60:
            raise Unsupported("call depth")
        side.frames.append(fr)
        for k in [k for k in side.mem if k[0] == d]:
            del side.mem[k]
        for i, a in enumerate(args):
            side.mem[(d, i + 1)] = a

    def call(self, side, facts, f, t):
        _, cal, ops, dest, target, dty, atys = t
        args = [self.op(side, facts, f, o) for o in ops]
        prog = f.body.prog
        if "on" in cal and cal["d"] in prog.bodies and re.search(r"ops::(function::)?(FnOnce::call_once|FnMut::call_mut|Fn::call)$", cal["on"]) and len(args) == 2:
            # a resolved call of a closure: its arguments arrive in one tuple
            if not (isinstance(args[1], Term) and args[1].op == "tup"):
                raise Unsupported("call with packed arguments")
            return self.invoke(side, facts, f, args[0], list(args[1].args[0]), dest, target)
        if "ptr" in cal:
            fn = self.op(side, facts, f, cal["ptr"])
            return self.invoke(side, facts, f, fn, args, dest, target)
        ta = [self.ty(f, prog.types[i]) for i in cal["a"]]
        aty = [self.ty(f, prog.types[i]) for i in atys]
        rty = self.ty(f, prog.types[dty])
        self.call_key(side, facts, f, cal["d"], cal["n"], cal["on"], ta, args, aty, rty, dest, target, cal)

    def done(self, side, facts, f, dest, target, v):
        if target is None:
            raise Diverge("no return")
        self.write(side, facts, f, dest, v)
        self.jump(side, facts, f, target)

    def call_key(self, side, facts, f, key, name, oname, ta, args, aty, rty, dest, target, cal=None):
        prog = side.prog
        env = self.env
        j = name.find("textcode::")
        if j >= 0:
            # the decoding tables of the textcode crate are trusted: one function of the bytes per charset
            v = env.external(self, side, facts, name[j:], args, rty)
            return self.done(side, facts, f, dest, target, v)
        h = env.std.lookup(name, oname)
        if h is None and prog.bodies.get(key) is None:
            h = env.std.fallback(name, oname, cal)
        if h is not None:
            ctx = Ctx(self, side, facts, f, args, aty, rty, ta, dest, target, name, cal)
            v = h(ctx)
            if v is not None:
                self.done(side, facts, f, dest, target, v)
            return
        body = prog.bodies.get(key) or f.body.prog.bodies.get(key)
        if body is None:
            raise Unsupported("no body for %s (%s)" % (name, oname))
        targs = {i: x for (i, _), x in zip(body.generics, ta)}
        v = env.oracle(self, side, facts, key, targs, args, aty, rty)
        if v is not None:
            return self.done(side, facts, f, dest, target, v)
        v = self.byte_summary(side, facts, body, targs, args)
        if v is not None:
            return self.done(side, facts, f, dest, target, v)
        self.push(side, body, targs, args, dest, target)

    def invoke(self, side, facts, f, fn, args, dest, target, by_ref=None):
        """call a closure or function value"""
        if isinstance(fn, Term) and fn.op == "ref":
            by_ref = fn
            fn = self.get(side, facts, fn.args[0], fn.args[1])
            return self.invoke(side, facts, f, fn, args, dest, target, by_ref)
        if isinstance(fn, Term) and fn.op == "vref":
            return self.invoke(side, facts, f, fn.args[0], args, dest, target, by_ref)
        if not isinstance(fn, Term):
            raise Unsupported("call of non-function")
        prog = side.prog
        if fn.op == "fn":
            key = fn.args[0]
            body = prog.bodies.get(key)
            if body is None:
                # constructors of tuple structs and enum variants
                c = self.ctor(side, key, args)
                if c is not None:
                    return self.done(side, facts, f, dest, target, c)
                nm = prog.names.get(key, key)
                return self.call_key(side, facts, f, key, nm, nm, list(fn.args[1]), args, [None] * len(args), None, dest, target)
            targs = {i: x for (i, _), x in zip(body.generics, fn.args[1])}
            rty = subst_ty(body.locals[0], targs)
            aty = [subst_ty(body.locals[i + 1], targs) for i in range(body.nargs)]
            nm = prog.meta[key]["name"]
            return self.call_key(side, facts, f, key, nm, nm, list(fn.args[1]), args, aty, rty, dest, target)
        if fn.op == "clo":
            body = prog.bodies.get(fn.args[0]) or f.body.prog.bodies.get(fn.args[0])
            if body is None:
                raise Unsupported("closure body " + fn.args[0])
            targs = {i: x for (i, _), x in zip(body.generics, fn.args[1])}
            selfty = body.locals[1]
            if selfty[0] == "ref":
                s = by_ref if by_ref is not None else vref(fn)
                if by_ref is None and fn.args[2]:
                    # a closure called by value: give it a cell of its own
                    d = len(side.frames)
                    key = (d, "self")
                    v = self.byte_summary(side, facts, body, targs, [vref(fn)] + args)
                    if v is not None:
                        return self.done(side, facts, f, dest, target, v)
                    self.push(side, body, targs, [T("ref", key, ())] + args, dest, target)
                    side.mem[key] = fn
                    return
            else:
                s = fn
            v = self.byte_summary(side, facts, body, targs, [vref(fn) if s is by_ref else s] + args)
            if v is not None:
                return self.done(side, facts, f, dest, target, v)
            return self.push(side, body, targs, [s] + args, dest, target)
        raise Unsupported("call of " + fn.op)

    def ctor(self, side, key, args):
        c = side.prog.ctors.get(key)
        if c is None:
            return None
        return mk_adt(c[0], c[1], args)

    # ------------------------------------------------------------ functions of one byte
    def byte_summary(self, side, facts, body, targs, args):
        """a call whose only non-constant argument is one byte is tabulated over its 256 values"""
        atom = None
        for a in args:
            r = self._byte_arg(a)
            if r is False:
                return None
            if r is not None:
                if atom is not None and atom is not r:
                    return None
                atom = r
        if atom is None:
            return None
        ob = T("ob", 0)
        cargs = tuple(subst(a, {atom: ob}) if isinstance(a, Term) else a for a in args)
        key = ("bs", side.prog.crate, body.key, tuple(sorted(targs.items())) if targs else (), cargs)
        tab = self.env.cache.get(key)
        if tab is None:
            tab = self._tabulate(side, body, targs, cargs, ob)
            self.env.cache[key] = tab
        if tab is False:
            return None
        m = facts.mask(atom)
        vals = [(i, tab[i]) for i in range(256) if m >> i & 1]
        if not vals:
            raise Diverge("impossible byte")
        for i, v in vals:
            if isinstance(v, Term) and v.op == "panic":
                return None
        return self.merge_tab(tab, vals, atom)

    def _byte_arg(self, a):
        if isint(a):
            return None
        ta = as_tab(a)
        if ta is not None:
            return ta[1]
        o = a.op
        if o == "vref":
            return self._byte_arg(a.args[0])
        if o in ("true", "false", "fn"):
            return None
        if o == "clo":
            for c in a.args[2]:
                if self._byte_arg(c) is not None:
                    return False
            return None
        if o == "tup":
            r = None
            for x in a.args[0]:
                y = self._byte_arg(x)
                if y is False or (y is not None and r is not None and r is not y):
                    return False
                r = y if y is not None else r
            return r
        if o == "seq":
            return None if is_const_seq(a) is not None else False
        return False

    def _tabulate(self, side, body, targs, cargs, ob):
        out = []
        it = Interp(self.env.quiet())
        for i in range(256):
            s2 = Side(side.prog, side.name, side.env)
            s2.frames.append(Frame(body, targs, None, None))
            for n, a in enumerate(cargs):
                s2.mem[(0, n + 1)] = subst(a, {ob: i}) if isinstance(a, Term) else a
            try:
                v = it.run(s2, FX.Facts(), 3000)
            except (Split, Unsupported):
                return False
            except Diverge:
                v = T("panic")
            if isinstance(v, Term) and v.op in ("ref",):
                return False
            out.append(v)
        return out

    def merge_tab(self, tab, vals, atom):
        v0 = vals[0][1]
        if all(v is v0 or (isint(v) and isint(v0) and v == v0) for _, v in vals):
            return v0
        if all(isint(v) for _, v in vals):
            t = [0] * 256
            for i, v in vals:
                t[i] = v
            if all(isint(x) for x in tab):
                t = tab
            return mk_tab(t, atom)
        if all(isinstance(v, Term) and v.op in ("true", "false") for _, v in vals):
            m = 0
            for i, v in vals:
                if v is TRUE:
                    m |= 1 << i
            if all(isinstance(v, Term) and v.op in ("true", "false") for v in tab):
                m = mask_of(lambda i: tab[i] is TRUE)
            return mk_in(atom, m)
        groups = {}
        for i, v in vals:
            groups.setdefault(self._shape(v), []).append((i, v))
        if len(groups) > 1:
            raise Split([mk_in(atom, sum(1 << i for i, _ in g)) for g in groups.values()], "byte cases")
        return self._merge(vals, atom)

    def _shape(self, v):
        if isint(v):
            return "int"
        if v.op == "adt":
            return ("adt", v.args[0], v.args[1]) + tuple(self._shape(x) for x in v.args[2])
        if v.op == "tup":
            return ("tup",) + tuple(self._shape(x) for x in v.args[0])
        if v.op in ("true", "false"):
            return "bool"
        if v.op == "vref":
            return ("vref", self._shape(v.args[0]))
        return v

    def _merge(self, vals, atom):
        v0 = vals[0][1]
        if all(v is v0 or isint(v) and isint(v0) and v == v0 for _, v in vals):
            return v0
        if isint(v0) or v0.op in ("tab", "byte"):
            t = [0] * 256
            for i, v in vals:
                if not isint(v):
                    tb = as_tab(v)
                    if tb is None or tb[1] is not atom:
                        raise Unsupported("merge")
                    v = tb[0][i]
                t[i] = v
            d = t[vals[0][0]] - vals[0][0]
            if all(t[i] == i + d for i, _ in vals):
                return add(atom, d)
            return mk_tab(t, atom)
        if v0.op in ("true", "false"):
            return mk_in(atom, sum(1 << i for i, v in vals if v is TRUE))
        if v0.op == "adt":
            return mk_adt(v0.args[0], v0.args[1], [self._merge([(i, v.args[2][n]) for i, v in vals], atom) for n in range(len(v0.args[2]))])
        if v0.op == "tup":
            return T("tup", tuple(self._merge([(i, v.args[0][n]) for i, v in vals], atom) for n in range(len(v0.args[0]))))
        if v0.op == "vref":
            return vref(self._merge([(i, v.args[0]) for i, v in vals], atom))
        raise Unsupported("merge")


class Ctx:
    """arguments of a modelled library call"""
    __slots__ = ("it", "side", "facts", "f", "args", "aty", "rty", "ta", "dest", "target", "name", "cal")

    def __init__(self, *a):
        (self.it, self.side, self.facts, self.f, self.args, self.aty, self.rty, self.ta, self.dest, self.target, self.name, self.cal) = a

    def decide(self, c, what=None):
        return self.it.decide(self.facts, c, what)

    def oblige(self, kind, c, detail=""):
        self.it.oblige(self.side, self.facts, kind, c, detail)

    def seq(self, i):
        return self.deref_seq(self.args[i])

    def deref(self, v):
        """value behind a reference"""
        if isinstance(v, Term):
            if v.op == "vref":
                return v.args[0]
            if v.op == "ref":
                return self.it.get(self.side, self.facts, v.args[0], v.args[1])
        return v

    def deref_seq(self, v):
        v = self.deref(v)
        if isinstance(v, Term) and v.op == "ref":
            v = self.deref(v)
        if isinstance(v, Term) and v.op != "seq":
            c = content(v)
            if c is not None:
                return c
        return self.it.asseq(v)

    def set(self, ref, v):
        if not (isinstance(ref, Term) and ref.op == "ref"):
            raise Unsupported("write through %s" % (ref,))
        self.it.put(self.side, self.facts, ref.args[0], ref.args[1], v)

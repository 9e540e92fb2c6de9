"""Equivalence of the functions of the crate with the reference, function by function."""
import re
import sys
import time
import traceback
sys.setrecursionlimit(20000)
import mir
from product import *

PRED = ("u8",)


def short(name):
    s = name.split("::", 1)[1] if "::" in name else name
    if s.startswith("parsing::"):
        s = s[len("parsing::"):]
    s = re.sub(r"::<'\w+>", "", s)
    if " as " in s:
        # the function of a trait: its lifetimes are not part of the name
        s = re.sub(r"&'\w+ ", "&", re.sub(r"<'\w+>", "", s))
    return s


class Model:
    """both programs, the functions they share and their call graphs"""

    def __init__(self, impl, spec):
        self.impl = impl
        self.spec = spec
        self.sides = {"impl": impl, "spec": spec}
        self.names = {}
        for nm, p in self.sides.items():
            d = {}
            for k in p.bodies:
                m = p.meta.get(k)
                if m is None or not m.get("local"):
                    continue
                if "{closure" in k or "{promoted" in k or "{const" in k or "shims::" in k:
                    continue
                d.setdefault(short(m["name"]), k)
            self.names[nm] = d
        self.all = dict(self.names["impl"])
        self._callees = {}

    def callees(self, side, key):
        """the local functions mentioned in a body (called, or passed as a value)"""
        r = self._callees.get((side, key))
        if r is None:
            p = self.sides[side]
            r = set()
            b = p.bodies.get(key)
            if b is not None:
                mentions(b.blocks, p, r)
                for pr in b.promoted:
                    mentions(pr.blocks, p, r)
            r.discard(key)
            self._callees[(side, key)] = r
        return r

    def reach(self, side, key, stop):
        seen = set()
        hit = set()
        st = list(self.callees(side, key))
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            if k in stop:
                hit.add(k)
                continue
            st.extend(self.callees(side, k))
        return seen, hit

    def can_be_atomic(self, side, key):
        b = self.sides[side].bodies[key]
        if b.generics and any(True for _ in b.generics):
            return False
        rty = b.locals[0]
        if rty == ("tuple", ()) or rty[0] == "never":
            return False
        if b.nargs == 0:
            return False
        for i in range(b.nargs):
            t = b.locals[i + 1]
            if t[0] == "ref" and t[2] is True:
                return False
            if t[0] in ("closure", "fnptr", "param"):
                return False
        if b.nargs == 1 and b.locals[1] in (("uint", "u8"), ("ref", ("uint", "u8"), False)):
            return False
        return True

    def shared(self):
        out = {}
        for n, k in self.names["impl"].items():
            k2 = self.names["spec"].get(n)
            if k2 is not None and self.can_be_atomic("impl", k) and self.can_be_atomic("spec", k2):
                out[n] = (k, k2)
        return out

    def plan(self, name, drop=()):
        """the functions kept opaque when `name` is compared: those that both sides reach"""
        ki, ks = self.names["impl"][name], self.names["spec"][name]
        sh = {n: p for n, p in self.shared().items() if n not in drop}
        while True:
            si = {p[0] for p in sh.values()}
            ss = {p[1] for p in sh.values()}
            _, hi = self.reach("impl", ki, si)
            _, hs = self.reach("spec", ks, ss)
            keep = {n: p for n, p in sh.items() if p[0] in hi and p[1] in hs}
            miss = {n for n, p in sh.items() if (p[0] in hi) != (p[1] in hs)}
            if not miss:
                return keep
            for n in miss:
                del sh[n]


def mentions(x, prog, out):
    if isinstance(x, dict):
        for v in x.values():
            mentions(v, prog, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            mentions(v, prog, out)
    elif isinstance(x, str):
        if x in prog.bodies:
            out.add(x)


def mkargs(side, body, d):
    out = []
    it = Interp(side.env)
    for i in range(body.nargs):
        t = body.locals[i + 1]
        nm = "in" if i == 0 else "a%d" % i
        if t[0] == "ref" and t[2] is True:
            key = (-1, i)
            side.mem[key] = it.norm(T("arg", nm), t[1], side.prog)
            out.append(T("ref", key, ()))
        else:
            out.append(it.norm(T("arg", nm), t, side.prog))
    return out


def start(prog, name, env, key):
    s = Side(prog, name, env)
    b = prog.bodies[key]
    s.frames.append(Frame(b, {}, None, None))
    for i, a in enumerate(mkargs(s, b, 0)):
        s.mem[(0, i + 1)] = a
    return s


def res_variant(t):
    if isinstance(t, Term) and t.op == "adt" and last(t.args[0]) == "Result":
        return t.args[1]
    return None


def err_name(t):
    """payload of an error the caller can tell apart"""
    e = t.args[2][0]
    if isinstance(e, Term) and e.op == "adt" and last(e.args[0]) == "Error":
        v = e.args[1]
        if v in (2, 3):
            return (v, e.args[2][0])
        return None
    if isinstance(e, Term) and e.op == "err":
        return ("app", e)
    return None


def compare_results(st):
    a, b = st.sides
    f = st.facts
    ra, rb = res_variant(a.ret), res_variant(b.ret)
    if ra is not None and rb is not None:
        if ra != rb:
            return Mismatch("result", "%s returns %s where the reference returns %s" % (a.name, a.ret, b.ret), None, f)
        if ra == 1:
            ea, eb = err_name(a.ret), err_name(b.ret)
            if ea == eb:
                pass
            elif ea and eb and ea[0] == eb[0] and ea[0] != "app" and f.eq(ea[1], eb[1]):
                pass
            elif (ea is None or ea[0] == "app") and (eb is None or eb[0] == "app"):
                pass
            else:
                return Mismatch("error", "error %s differs from the reference's %s" % (ea, eb), None, f)
        elif not f.eq(a.ret, b.ret):
            return Mismatch("value", "the value %s is not the reference's %s" % (a.ret, b.ret), None, f)
    elif not f.eq(a.ret, b.ret):
        return Mismatch("value", "the value %s is not the reference's %s" % (a.ret, b.ret), None, f)
    for k in a.mem:
        if k[0] == -1 and k in b.mem and not f.eq(a.mem[k], b.mem[k]):
            return Mismatch("argument", "argument %d ends as %s, the reference's as %s" % (k[1], a.mem[k], b.mem[k]), None, f)
    return None


def mk_env(model, name, drop=(), wide=False, **kw):
    env = Env(model.spec)
    # wide: a shared function is kept opaque even if only one side reaches it
    plan = {n: p for n, p in model.shared().items() if n not in drop and n != name} if wide else model.plan(name, drop)
    env.atomic = {"impl": {p[0]: n for n, p in plan.items()}, "spec": {p[1]: n for n, p in plan.items()}}
    for k, v in kw.items():
        setattr(env, k, v)
    from summaries import install
    install(env, model, name)
    return env, plan


def equiv(model, name, max_states=60000, max_time=60, drop=(), log=None, exact=False, weak=False, shard=None, most=None, **kw):
    """-> (status, product, detail) with status ok / mismatch / undecided"""
    env, plan = mk_env(model, name, drop, **kw)
    sides = [start(model.impl, "impl", env, model.names["impl"][name]), start(model.spec, "spec", env, model.names["spec"][name])]
    pr = Product(env, compare_results, max_states=max_states, max_time=max_time, log=log)
    pr.plan = plan
    pr.exact = exact
    pr.weak = weak
    pr.shard = shard
    why = ""
    Oracles.most = most or {}
    try:
        pr.run(sides, Facts())
    except (Unsupported, Budget) as e:
        why = "%s: %s" % (type(e).__name__, e)
    except RecursionError:
        why = "recursion"
    finally:
        Oracles.most = {}
    if pr.mismatches:
        return "mismatch", pr, str(pr.mismatches[0])
    if not why and pr.unsupported:
        why = "%d paths left out: %s" % (len(pr.unsupported), pr.unsupported[0])
    if why:
        return "undecided", pr, why
    return "ok", pr, ""


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pat", nargs="*")
    ap.add_argument("-c", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-i", default="/tmp/w/all.json")
    ap.add_argument("-s", default="/tmp/w/spec.json")
    ap.add_argument("-t", type=float, default=20)
    ap.add_argument("-x", action="store_true")
    ap.add_argument("-w", action="store_true")
    ap.add_argument("-u", type=int, default=0)
    a = ap.parse_args()
    m = Model(mir.Program(a.i), mir.Program(a.s))
    import summaries
    t = time.time()
    summaries.parser_contracts(m)
    print("contracts %.1fs" % (time.time() - t))
    if a.c:
        for n in Oracles.minlen:
            print(n, Oracles.minlen[n], showmask(Oracles.first.get(n, FULL)))
        print(Oracles.failed)
    for n in sorted(m.names["spec"]):
        if a.pat and not any(p in n for p in a.pat):
            continue
        if n not in m.names["impl"]:
            continue
        if m.impl.bodies[m.names["impl"][n]].generics or m.spec.bodies[m.names["spec"][n]].generics:
            continue
        t = time.time()
        try:
            r, pr, d = equiv(m, n, max_time=a.t, unroll=a.u, exact=a.x, weak=a.w, log=print if a.v else None)
            print("%-45s %-10s st=%d res=%d j=%d tr=%d pl=%s %.1fs %s" % (n, r, pr.states, pr.results, pr.joins, pr.truncated, ",".join(x.split("::")[-1] for x in sorted(pr.plan)), time.time() - t, d[:400]))
            if a.v:
                for mm in pr.mismatches:
                    print(mm)
                    print("    trail:")
                    for c in mm.trail:
                        print("        ", c)
                    for q in ("lin", "masks", "bools", "negs", "isv", "cls"):
                        print("   ", q, getattr(mm.facts, q))
        except Exception as e:
            if a.v:
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            print("%-45s EXC %s %s %s:%d %.1fs" % (n, type(e).__name__, str(e)[:200], tb.filename[-12:], tb.lineno, time.time() - t))

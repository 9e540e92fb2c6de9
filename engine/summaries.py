"""Contracts of the text accumulators, and of the parsers used by others (derived from the reference)."""
import hashlib
import json
import os
import std
from product import *


def install(env, model, name, cow=None):
    for side in ("impl", "spec"):
        d = env.summaries.setdefault(side, {})
        for n, h in (("string::add_string", cow or concat), ("string::add_str", cow or concat), ("common::lowercase", lowercase)):
            k = model.names[side].get(n)
            if k is not None and n != name:
                d[k] = h


def lowercase(it, side, facts, args):
    v = args[0]
    if isinstance(v, Term) and v.op in ("ref", "vref"):
        return None
    s = content(v)
    if s is None:
        return None
    r = std.lower(Ctx(it, side, facts, None, args, None, None, None, None, None, None, None), s)
    return r if isinstance(v, Term) and v.op == "seq" else T("cowc", r)


def concat(it, side, facts, args):
    dst, src = args
    if not (isinstance(dst, Term) and dst.op == "ref"):
        return None
    cur = it.get(side, facts, dst.args[0], dst.args[1])
    a, b = content(cur), content(it.val_of(side, facts, src) if hasattr(it, "val_of") else src)
    if a is None or b is None:
        return None
    r = mk_seq(a.args[0] + b.args[0])
    if not (isinstance(cur, Term) and cur.op == "seq"):
        r = T("cowc", r)
    it.put(side, facts, dst.args[0], dst.args[1], r)
    return UNIT


CACHE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts.json")


def cache_key(model):
    """the reference, the engine and the functions the crate shares with the reference"""
    h = hashlib.sha256()
    here = os.path.dirname(os.path.abspath(__file__))
    for d, suffix in ((here, ".py"), (os.path.join(here, "../spec/src"), ".rs")):
        for root, dirs, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith(suffix) and f not in ("props.py", "lint.py", "equivcheck.py", "runner.py", "safety.py", "progress.py", "zerocopy.py"):
                    h.update(open(os.path.join(root, f), "rb").read())
    h.update(str(getattr(model, "config", "")).encode())
    for n in sorted(model.names["spec"]):
        h.update(("%s %d;" % (n, n in model.names["impl"])).encode())
    return h.hexdigest()


def parser_contracts(model, max_time=20, save=False):
    """minimal consumption and possible first bytes of the parsers of the reference, from the file if it is up to date"""
    k = cache_key(model)
    all_ = {}
    if os.path.exists(CACHE):
        all_ = json.load(open(CACHE))
    c = all_.get(k)
    if c is None or save is not False:
        derive_contracts(model, max_time)
        c = {"minlen": Oracles.minlen, "first": {n: "%x" % m for n, m in Oracles.first.items()}, "failed": Oracles.failed}
        if save is not False:
            save[k] = json.loads(json.dumps(c))
    else:
        Oracles.minlen.clear()
        Oracles.first.clear()
        Oracles.failed.clear()
        Oracles.minlen.update(c["minlen"])
        Oracles.first.update({n: int(m, 16) for n, m in c["first"].items()})
        Oracles.failed.update(c["failed"])


def derive_contracts(model, max_time=20):
    """minimal consumption and possible first bytes of the parsers of the reference, bottom-up"""
    from equiv import start, res_variant, mk_env
    prog = model.spec
    sh = model.shared()
    order = []
    seen = set()

    def visit(k):
        if k in seen:
            return
        seen.add(k)
        for c in sorted(model.callees("spec", k)):
            visit(c)
        order.append(k)
    byk = {k: n for n, k in model.names["spec"].items()}
    for n, k in sorted(model.names["spec"].items()):
        visit(k)
    Oracles.minlen.clear()
    Oracles.first.clear()
    Oracles.failed.clear()
    for k in order:
        n = byk.get(k)
        b = prog.bodies.get(k)
        if n is None or b is None or not is_parser_ty(b.locals[0]) or b.locals[1] != ("ref", ("slice", U8), False):
            continue
        env = Env(prog)
        env.atomic = {"spec": {x: y for y, x in model.names["spec"].items() if y != n and not y.startswith("types::") and model.can_be_atomic("spec", x)
                               and (y in sh or prog.bodies[x].locals[0][0] != "ref")}}
        install(env, model, n)
        got = []

        def cmp(st):
            r = st.sides[0].ret
            if res_variant(r) == 0:
                rest = r.args[2][0].args[0][0]
                got.append((rest, st.facts))
        pr = Product(env, cmp, max_states=3000, max_time=max_time)
        try:
            pr.run([start(prog, "spec", env, k)], Facts())
        except (Unsupported, Budget, RecursionError) as e:
            Oracles.failed[n] = "%s: %s" % (type(e).__name__, e)
            continue
        mn, first = None, 0
        for rest, f in got:
            p = rest.args[0]
            if len(p) == 1 and p[0].op == "sl" and p[0].args[0] is T("arg", "in"):
                P = p[0].args[1]
            elif not p:
                P = T("len", T("arg", "in"))
            else:
                mn = 0
                break
            m = 0
            while m < 40 and f.ge(sub(P, m + 1)):
                m += 1
            mn = m if mn is None else min(mn, m)
            first |= f.mask2(byte_at(T("arg", "in"), 0))
        if mn:
            Oracles.minlen[n] = mn
            if first != FULL:
                Oracles.first[n] = first

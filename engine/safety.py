"""No panic, no access out of bounds, no text that is not UTF-8: the functions of the crate on their own."""
import time
import equiv
import summaries
from product import *


def plan(m, name, drop=()):
    """the functions kept opaque when `name` is analysed alone"""
    ki = m.all[name]
    sh = {n: p for n, p in m.shared().items() if n not in drop}
    _, hit = m.reach("impl", ki, {p[0] for p in sh.values()})
    return {n: p for n, p in sh.items() if p[0] in hit}


def analyse(m, name, unroll=2, max_time=60, max_states=400000, drop=(), weak=False, exact=True, log=None, progress=None, on_return=None, box=None, cow=None, on_truncated=None):
    env = Env(m.spec)
    pl = plan(m, name, drop)
    env.atomic = {"impl": {p[0]: n for n, p in pl.items()}}
    env.unroll = unroll
    env.strict = True
    env.progress = progress
    env.on_truncated = on_truncated
    summaries.install(env, m, name, cow)
    obs = {}

    def ob(side, facts, kind, cond, r, detail):
        k = (side.where(), kind)
        o = obs.setdefault(k, [0, 0, 0])
        o[0 if r is True else 1 if r is None else 2] += 1
        if kind == "utf8" and r is False and facts.bytes_agree():
            pr.panics.append((kind, detail or str(cond), side.name, side.where(), pr.cur.trail, facts.copy(), cond))
    env.obligations = ob
    pr = Product(env, on_return, max_states=max_states, max_time=max_time, log=log)
    if box is not None:
        box.append(pr)
    pr.plan = pl
    pr.exact = exact
    pr.weak = weak
    pr.obs = obs
    why = ""
    try:
        pr.run([equiv.start(m.impl, "impl", env, m.all[name])], Facts())
    except (Unsupported, Budget) as e:
        why = "%s: %s" % (type(e).__name__, e)
    except RecursionError:
        why = "recursion"
    if not why and pr.unsupported:
        why = "%d paths left out: %s" % (len(pr.unsupported), pr.unsupported[0])
    return pr, why



def opaque_in(x, out):
    """oracles whose value (not only whose extent) a condition speaks of"""
    if isinstance(x, Term):
        if x.op == "app" and isinstance(x.args[0], str):
            out.add(x.args[0])
        if x.op in ("end", "ok"):
            a = x.args[0]
            for y in a.args[1:]:
                opaque_in(y, out)
            return
        for y in x.args:
            opaque_in(y, out)
    elif isinstance(x, (tuple, frozenset, set)):
        for y in x:
            opaque_in(y, out)


def params_in(x, out):
    if isinstance(x, Term):
        if x.op == "arg":
            out.add(x.args[0])
        for y in x.args:
            params_in(y, out)
    elif isinstance(x, tuple):
        for y in x:
            params_in(y, out)


TRIES = ((2, False, 20), (2, True, 60), (1, True, 60))
HEAVY = {"mime::mime_fields::content_type": 1, "mime::mime_fields::content_disposition": 1, "fields::fields": 1}


def attempt(m, n, kinds, drop=(), budget=1):
    """-> (relevant panics, product, why)"""
    tries = TRIES if n not in HEAVY else ((HEAVY[n], True, 90), (0, True, 90))
    for u, weak, t in tries:
        pr, why = analyse(m, n, u, t * budget, drop=drop, weak=weak)
        ps = [p for p in pr.panics if kinds(p[0])]
        if ps and weak:
            # united paths know less: what fails must fail on a path of its own
            pr2, why2 = analyse(m, n, 1, 2 * t * budget, drop=drop)
            ps2 = [p for p in pr2.panics if kinds(p[0])]
            if ps2 or not why2.startswith("Budget"):
                return ps2, pr2, why2
            return [], pr, "cannot tell whether %s at %s can fail" % (ps[0][0], ps[0][3])
        if ps or not why.startswith("Budget"):
            break
    return ps, pr, why


def refine(m, n, kinds, drop=()):
    drop = set(drop)
    old = None
    for _ in range(5):
        ps, pr, why = attempt(m, n, kinds, tuple(sorted(drop)))
        if not ps:
            if old is not None and why.startswith(("Budget", "cannot tell")):
                # too much to follow with everything inlined
                return old
            return ps, pr, why, drop
        more = set()
        for p in ps[:40]:
            opaque_in(p[4][-1:] if p[4] else (), more)
            opaque_in(p[6:], more)
        more &= set(pr.plan)
        if not more:
            # an arm taken for impossible: which earlier values led there?
            for p in ps[:40]:
                if p[0] == "panic":
                    opaque_in(p[4][-3:], more)
            more &= set(pr.plan)
        if not more and all(set(blame(p)) - {"in"} for p in ps):
            return ps, pr, why, drop
        if not more:
            # what the callees on the path have seen of the input
            for p in ps[:40]:
                more |= set(p[5].apps)
            more &= set(pr.plan)
            if more:
                old = (ps, pr, why, set(drop))
        if not more:
            return ps, pr, why, drop
        drop |= more
    return ps, pr, why, drop


def blame(p):
    par = set()
    params_in(p[6:] or p[4][-1:] if p[0] != "panic" else p[4][-3:], par)
    return par


def callers(m, n):
    k = m.all[n]
    stop = {p[0] for p in m.shared().values()}
    out = []
    for c, kc in m.all.items():
        if c == n or m.impl.bodies[kc].generics:
            continue
        if k in m.reach("impl", kc, stop - {k, kc})[0]:
            out.append(c)
    return out


def entries(m):
    """the functions a user can call, and those nothing calls"""
    called = set()
    for k in m.impl.bodies:
        called |= m.callees("impl", k)
    return {n for n, k in m.all.items() if m.impl.meta[k].get("reach") or k not in called}


def cost(pr):
    return sum(sum(v) for v in pr.obs.values())


_m = {}


def job(x):
    cfg, n, what, drop = x
    m = _m[cfg]
    kinds = KINDS[what]
    ps, pr, why, drop = refine(m, n, kinds, drop)
    obs = {k: v for k, v in pr.obs.items() if kinds(k[1])}
    r = {"n": n, "drop": sorted(drop), "why": why, "paths": pr.results, "states": pr.states, "truncated": pr.truncated,
         "sites": ["%s: %s" % (k[0], k[1]) for k in obs], "checked": sum(sum(v) for v in obs.values()), "panics": []}
    seen = set()
    for p in ps:
        if (p[0], p[3]) in seen:
            continue
        seen.add((p[0], p[3]))
        par = blame(p)
        mm = Mismatch(p[0], str(p[1]), p[3], p[5])
        mm.trail = p[4]
        from equivcheck import render
        r["panics"].append({"kind": p[0], "detail": str(p[1])[:300], "where": p[3], "trail": render(mm), "params": sorted(par)})
    return r


def joined(x):
    """every length of input, loops closed by invariants: are the obligations discharged?"""
    cfg, n, what, drop = x
    pr, why = analyse(_m[cfg], n, 0, 10, exact=False, drop=tuple(drop))
    return {"n": n, "ok": not why and not [p for p in pr.panics if KINDS[what](p[0])], "why": why}


UNCHECKED = ("get_unchecked", "from_raw_parts", "ptr_add")
KINDS = {"C01": lambda k: k not in UNCHECKED and k != "utf8", "C02": lambda k: k in UNCHECKED, "C03": lambda k: k == "utf8", "all": lambda k: True}


def names(m, cfg, pid, only=None):
    out = []
    for n, k in sorted(m.all.items()):
        b = m.impl.bodies[k]
        if b.generics or (only is not None and n not in only):
            continue
        if m.impl.meta[k].get("impl_trait") and last(m.impl.meta[k]["impl_trait"][0]) in ("Debug", "Display", "PartialEq", "Clone", "Hash", "Eq"):
            continue
        out.append(n)
    return out


def check(pid, configs=("A", "C"), only=None, what=None, load=None, work=None):
    """-> (rows, violations)"""
    import equivcheck
    import runner
    what = what or pid
    w = work
    jobs = []
    for c in configs:
        m = _m[c] = load(w, c)
        summaries.parser_contracts(m)
        for n in names(m, c, pid, only):
            if c != configs[0] and n in _m[configs[0]].all and same(_m[configs[0]], m, n):
                continue
            jobs.append((c, n, what, ()))
    # the long ones first
    jobs.sort(key=lambda j: (j[1] not in HEAVY, j[1] not in SLOW))
    res = runner.pool(job, jobs)
    for (c, n, _, _), r in zip(jobs, res):
        settle(r, n)
    rows = []
    viol = []
    cleared = []
    for (c, n, _, _), r in zip(jobs, res):
        m = _m[c]
        rows.append({"function": n, "config": c, "obligations": r["checked"], "sites": len(r["sites"]), "paths": r["paths"], "truncated": r["truncated"], "inlined": r["drop"], "seconds": r["wall"]})
        if r["why"]:
            rows[-1]["incomplete"] = r["why"][:200]
        if r["panics"]:
            v = climb(m, c, n, r, what, cleared, 0, entries(m))
            if v:
                rows[-1]["fails"] = True
                viol.append(v)
    return rows, viol, cleared, jobs, res


SLOW = ("mime::mime_fields::content_disposition::date_parameter", "mime::mime_fields::parameter", "mime::percent_encoding::decode_parameter")


def settle(r, n):
    """an analysis that failed on its own account gives no verdict"""
    if "n" not in r:
        r.update(n=n, checked=0, sites=[], paths=0, truncated=0, drop=[], why=r["detail"], panics=[])


def rejects(m, n):
    t = m.impl.bodies[m.all[n]].locals[0]
    return t[0] == "adt" and last(t[1]) in ("Result", "Option")


def constants(m, n):
    """the parameters that are given constants wherever the function is called"""
    k = m.all[n]
    out = None
    for c, b in m.impl.bodies.items():
        for blk in b.blocks:
            t = blk["t"]
            if t[0] != "call" or not isinstance(t[1], dict) or t[1].get("d") != k:
                continue
            here = {"in" if i == 0 else "a%d" % i for i, o in enumerate(t[2]) if constant(b, o, 8)}
            out = here if out is None else out & here
    return out or set()


def constant(b, o, fuel):
    if o[0] not in ("m", "c"):
        return True
    l = o[1][0]
    if fuel == 0 or l <= b.nargs:
        return False
    src = [s[2] for blk in b.blocks for s in blk["s"] if s[0] == "=" and s[1][0] == l]
    if len(src) != 1 or any(blk["t"][0] == "call" and blk["t"][3] and blk["t"][3][0] == l for blk in b.blocks):
        return False
    r = src[0]
    if r[0] == "use":
        return constant(b, r[1], fuel - 1)
    if r[0] == "cast":
        return constant(b, r[2], fuel - 1)
    if r[0] == "ref":
        return constant(b, ("m", r[2]), fuel - 1)
    return False


def climb(m, c, n, r, what, cleared, depth, ent):
    """is what fails in n, taken alone, possible where n is used?"""
    import runner
    p = r["panics"][0]
    if n not in ent and n not in m.shared():
        # never kept opaque: analysed within each of its callers
        cleared.append("%s: %s fails for some arguments; it is analysed as part of its callers" % (n, p["kind"]))
        return None
    cs = [] if n in ent else callers(m, n)
    # a function that can answer with an error is expected to, for every input: only arguments that are constants are taken from the callers
    # (that bytes are UTF-8 is no input it could answer an error for: the caller has to know)
    total = rejects(m, n) and any(q["kind"] != "utf8" and not set(q["params"]) & constants(m, n) for q in r["panics"])
    if cs and not total and depth < 4:
        rr = runner.pool(job, [(c, k, what, tuple(sorted(set(r["drop"]) | {n}))) for k in cs])
        for k, x in zip(cs, rr):
            settle(x, k)
        bad = [x for x in rr if x["panics"]]
        for x in bad:
            only_params = x["n"] not in ent and all(set(q["params"]) - {"in"} for q in x["panics"])
            if not only_params or depth >= 3:
                return violation(m, c, x, n)
            v = climb(m, c, x["n"], x, what, cleared, depth + 1, ent)
            if v:
                return v
        cleared.append("%s: %s fails for some arguments, but for none it is called with (by %s)" % (n, p["kind"], ", ".join(cs)))
        return None
    return violation(m, c, r, n)


def violation(m, c, r, n):
    p = r["panics"][0]
    return {"key": "%s:%s" % (n, p["kind"]), "where": p["where"], "what": "%s %s" % (WHAT.get(p["kind"], p["kind"] + " fails"), p["detail"]),
            "detail": "    in %s, configuration %s, on inputs such that\n%s" % (r["n"], c, p["trail"])}


WHAT = {"panic": "a panic is reachable:", "get_unchecked": "an unchecked access can leave its buffer", "from_raw_parts": "a raw slice can reach outside its buffer", "ptr_add": "a pointer can leave its buffer",
        "utf8": "a string is made without a check from bytes that may not be UTF-8:", "index": "an index can be out of range", "char boundary": "a text can be cut inside a character", "slice index": "a slice range can be out of range"}


def same(m1, m2, n):
    """is the function, with everything it reaches, the same MIR in both configurations?"""
    from equivcheck import strip
    r = []
    for m in (m1, m2):
        k = m.all.get(n)
        if k is None:
            return False
        allk, _ = m.reach("impl", k, ())
        r.append(hash(repr([(x, strip(m.impl.bodies[x].blocks)) for x in sorted(allk | {k}) if x in m.impl.bodies])))
    return r[0] == r[1]


def run(pid, configs=("A", "C")):
    import equivcheck
    import runner
    w = runner.Work()
    rows, viol, cleared, jobs, res = check(pid, configs, load=equivcheck.load, work=w)
    sites = sorted({s for r in res for s in r["sites"]})
    unb = {}
    if not viol:
        for x in runner.pool(joined, [(c, n, what, tuple(r["drop"])) for (c, n, what, _), r in zip(jobs, res)]):
            if "n" in x:
                unb[x["n"]] = x["ok"]
    for row in rows:
        row["any_length"] = unb.get(row["function"], False)
    cov = {"explanation": RULE, "functions": rows, "functions_analysed": len(rows), "obligations_decided": sum(r["checked"] for r in res), "sites": sites, "number_of_sites": len(sites),
           "functions_discharged_for_inputs_of_any_length": sum(1 for x in unb.values() if x), "incomplete": [r["function"] for r in rows if r.get("incomplete")], "notes": cleared, "samples": rows[:2]}
    runner.finish(pid, "other", cov, viol, ASSUME)


RULE = ("the MIR of every function of the crate is interpreted over symbolic arguments; each bounds check, overflow check, unwrap, unreachable arm, unchecked access and unchecked string is an obligation on the path that reaches it. "
        "An obligation not implied by what the path knows splits the path, and a path on which it fails, whose conditions are consistent, is a violation, unless the function's callers exclude it. "
        "Scanning loops are summarised exactly, other loops are followed for two rounds past the first; functions counted under any_length are closed by loop invariants instead, without a bound")
ASSUME = ["rustc's MIR (debug assertions on) is what is compiled; the models of the standard library functions used are right",
          "lengths stay below 2^63; the decoding tables of textcode are trusted",
          "values of callees kept opaque obey their contracts (least consumption, first byte), which the equivalence checks establish"]


if __name__ == "__main__":
    import argparse, mir
    ap = argparse.ArgumentParser()
    ap.add_argument("pat", nargs="*")
    ap.add_argument("-i", default="/tmp/w/all.json")
    ap.add_argument("-s", default="/tmp/w/spec.json")
    ap.add_argument("-t", type=float, default=20)
    ap.add_argument("-w", action="store_true")
    ap.add_argument("-j", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-u", type=int, default=2)
    a = ap.parse_args()
    m = equiv.Model(mir.Program(a.i), mir.Program(a.s))
    summaries.parser_contracts(m)
    import multiprocessing as mp

    def go(n):
        t = time.time()
        try:
            pr, why = analyse(m, n, a.u, a.t, weak=a.w, exact=not a.j, log=print if a.v else None)
            s = "%-40s st=%d res=%d tr=%d obs=%d pl=%d panics=%d %.1fs %s" % (n, pr.states, pr.results, pr.truncated, len(pr.obs), len(pr.plan), len(pr.panics), time.time() - t, why[:200])
            seen = set()
            for p in pr.panics:
                if (p[0], p[3]) in seen:
                    continue
                seen.add((p[0], p[3]))
                s += "\n      %s %s at %s" % (p[0], str(p[1])[:150], p[3])
                for c in p[4][-12:]:
                    s += "\n            %s" % str(c)[:200]
            return s
        except Exception as e:
            if a.v:
                raise
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return "%-40s EXC %s %s %s:%d" % (n, type(e).__name__, str(e)[:200], tb.filename[-12:], tb.lineno)
    ns = [n for n in sorted(m.all) if (not a.pat or any(p in n for p in a.pat)) and not m.impl.bodies[m.all[n]].generics]
    with mp.get_context("fork").Pool(8) as p:
        for s in p.imap(go, ns, 1):
            print(s, flush=True)

"""Termination: every round of a loop changes something its exit depends on; calls do not recurse."""
from product import *

WRITES = {"push", "push_str", "extend", "extend_from_slice", "insert", "append", "add_string", "add_str", "push_back", "push_front"}


def cmp_int(f, a, b, out):
    if a is b or f.int_eq(a, b):
        return
    if f.ge(sub(sub(a, b), 1)) or f.ge(sub(sub(b, a), 1)):
        out.append(("progress",))
    else:
        out.append(("maybe", mk_eq0(sub(a, b))))


def mk_eq0(d):
    return T("eq", d) if isinstance(d, Term) else (TRUE if d == 0 else FALSE)


def cmp_seq(f, a, b, out, grow):
    if a is b or f.eq(a, b):
        return
    pa, pb = a.args[0], b.args[0]
    la, lb = seq_len(a), seq_len(b)
    if f.ge(sub(sub(la, lb), 1)):
        out.append(("progress",))
        return
    if f.ge(sub(sub(lb, la), 1)):
        out.append(("grew", grow))
        return
    if len(pa) == 1 and len(pb) == 1 and pa[0].op == "sl" and pb[0].op == "sl" and pa[0].args[0] is pb[0].args[0]:
        e = []
        for x, y in ((pa[0].args[1], pb[0].args[1]), (pa[0].args[2], pb[0].args[2])):
            if not f.int_eq(x, y):
                e.append(mk_eq0(sub(x, y)))
        out.append(("maybe", mk_and(e) if len(e) > 1 else e[0]))
        return
    if f.ge(sub(lb, la)):
        out.append(("grew", grow))
        return
    if f.int_eq(la, lb):
        out.append(("grew", grow))
        return
    out.append(("other",))


def cmp_val(f, a, b, out, grow):
    if a is b:
        return
    ia, ib = isint(a) or isinstance(a, Term) and a.op in INT_OPS, isint(b) or isinstance(b, Term) and b.op in INT_OPS
    if ia and ib:
        return cmp_int(f, a, b, out)
    if ia or ib:
        out.append(("other",))
        return
    if a.op == "seq" and b.op == "seq":
        return cmp_seq(f, a, b, out, grow)
    if iscow(a) and iscow(b):
        ca, cb = content(a), content(b)
        if ca is not None and cb is not None:
            return cmp_seq(f, ca, cb, out, grow)
    if a.op != b.op:
        out.append(("other",))
        return
    if a.op == "adt":
        if a.args[:2] != b.args[:2]:
            out.append(("other",))
            return
        for x, y in zip(a.args[2], b.args[2]):
            cmp_val(f, x, y, out, grow)
        return
    if a.op == "tup":
        for x, y in zip(a.args[0], b.args[0]):
            cmp_val(f, x, y, out, grow)
        return
    if a.op == "vref":
        return cmp_val(f, a.args[0], b.args[0], out, grow)
    if a.op == "map":
        out.append(("grew", grow))
        return
    try:
        if f.eq(a, b):
            return
    except Exception:
        pass
    if a.op == "it":
        out.append(("progress",))
        return
    out.append(("other",))


def only_written(body, bb, local):
    """is the local only appended to in the loop?"""
    k = (bb, local)
    c = getattr(body, "_wr", None)
    if c is None:
        c = body._wr = {}
    if k in c:
        return c[k]
    blocks = [body.blocks[x] for x in body.loops()[bb]]
    follow = {local}
    ok = True
    n = -1
    while ok and n != len(follow):
        n = len(follow)
        for b in blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                for l in bases(rv):
                    if l in follow:
                        if rv[0] == "ref" and (rv[1] is True or rv[1] == "mut") and not s[1][1]:
                            follow.add(s[1][0])
                        elif rv[0] == "use" and l != local and not s[1][1]:
                            follow.add(s[1][0])
                        else:
                            ok = False
                if s[1][1] and s[1][0] in follow and s[1][0] == local:
                    ok = False
            t = b["t"]
            if t[0] == "call":
                used = [l for o in t[2] for l in bases(o) if l in follow]
                if used:
                    nm = t[1].get("n", "") if isinstance(t[1], dict) else ""
                    if nm.rsplit("::", 1)[-1] not in WRITES:
                        ok = False
            elif t[0] in ("switch", "assert") and any(l in follow for l in bases(t[1])):
                ok = False
    c[k] = ok
    return ok


def bases(x):
    """the locals at the bottom of the places in an operand or rvalue"""
    out = []

    def go(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], (list, tuple)):
                out.append(x[0])
                for e in x[1]:
                    if isinstance(e, (list, tuple)) and e and e[0] == "i":
                        out.extend(y for y in e[1:2] if isinstance(y, int))
                return
            for y in x:
                go(y)
    go(x)
    return out


class Progress:
    def __init__(self, report):
        self.report = report
        self.loops = {}
        self.rounds = 0

    def head(self, side, facts, f, bb, entry):
        s = side.copy()
        gc(s)
        d = len(side.frames) - 1
        key = "%s (%s)" % (f.body.key, f.body.blocks[bb]["sp"])
        n = self.loops.setdefault(key, [0, 0])
        if entry:
            n[0] += 1
            f.heads = dict(f.heads)
            f.heads[bb] = (s.mem, 0, side.nsplit)
            return
        n[1] += 1
        self.rounds += 1
        old, still, ns = f.heads.get(bb, (None, 0, 0))
        stuck = None
        if old is not None and set(old) == set(s.mem):
            out = []
            for k, v in s.mem.items():
                cmp_val(facts, old[k], v, out, k)
                if any(o[0] in ("progress", "other") for o in out):
                    break
            else:
                stuck = out
        if stuck is not None:
            g = facts.copy()
            ok = all(g.assume(o[1]) for o in stuck if o[0] == "maybe")
            grew = {o[1] for o in stuck if o[0] == "grew"}
            if ok and all(k[0] == d and only_written(f.body, bb, k[1]) for k in grew):
                self.report(side, facts, key, g)
            elif ok and not any(o[0] == "maybe" for o in stuck) and side.nsplit == ns:
                still += 1
                if still >= 250:
                    self.report(side, facts, key, g)
                    still = 0
            else:
                still = 0
        else:
            still = 0
        f.heads = dict(f.heads)
        f.heads[bb] = (s.mem, still, side.nsplit)


def cycles(m):
    """call cycles among the functions of the crate that can be reached from the public ones"""
    local = [k for k in m.impl.bodies if m.impl.meta.get(k, {}).get("local")]
    ls = set(local)
    g = {k: sorted(c for c in m.callees("impl", k) if c in ls) + ([k] if mentions_self(m, k) else []) for k in local}
    out = []
    num, low, stack, on = {}, {}, [], set()
    for root in local:
        if root in num:
            continue
        work = [(root, iter(g[root]))]
        num[root] = low[root] = len(num)
        stack.append(root)
        on.add(root)
        while work:
            k, it = work[-1]
            for c in it:
                if c not in num:
                    num[c] = low[c] = len(num)
                    stack.append(c)
                    on.add(c)
                    work.append((c, iter(g[c])))
                    break
                if c in on:
                    low[k] = min(low[k], num[c])
            else:
                work.pop()
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[k])
                if low[k] == num[k]:
                    c = []
                    while True:
                        x = stack.pop()
                        on.discard(x)
                        c.append(x)
                        if x == k:
                            break
                    if len(c) > 1 or k in g[k]:
                        out.append(sorted(c))
    return out, sum(len(v) for v in g.values()), len(local)


def mentions_self(m, k):
    import equiv
    r = set()
    b = m.impl.bodies[k]
    for blk in b.blocks:
        t = blk["t"]
        if t[0] == "call" and isinstance(t[1], dict) and t[1].get("d") == k:
            return True
    return False


_m = {}


def is_parser(m, n):
    b = m.impl.bodies[m.all[n]]
    return not b.generics and is_parser_ty(b.locals[0]) and len(b.locals) > 1 and b.locals[1] == ("ref", ("slice", U8), False)


def consumption(x):
    """the least number of bytes the function consumes when it succeeds, and the first bytes it accepts"""
    import safety
    cfg, n = x
    m = _m[cfg]
    got = []

    def ret(st):
        from equiv import res_variant
        r = st.sides[0].ret
        if res_variant(r) == 0:
            got.append((r.args[2][0].args[0][0], st.facts))
    want = Oracles.minlen.get(n, 0)
    for u, weak, t in (safety.TRIES if n not in safety.HEAVY else ((0, True, 60),)):
        del got[:]
        pr, why = safety.analyse(m, n, u, t, weak=weak, on_return=ret)
        if not why.startswith("Budget"):
            break
    mn, first = None, 0
    for rest, f in got:
        p = rest.args[0] if isinstance(rest, Term) and rest.op == "seq" else None
        if p is not None and len(p) == 1 and p[0].op == "sl" and p[0].args[0] is T("arg", "in"):
            P = p[0].args[1]
        elif p is not None and not p:
            P = T("len", T("arg", "in"))
        else:
            mn = 0
            break
        k = 0
        while k < 40 and f.ge(sub(P, k + 1)):
            k += 1
        mn = k if mn is None else min(mn, k)
        first |= f.mask2(byte_at(T("arg", "in"), 0))
    return {"n": n, "min": mn or 0, "first": first, "paths": len(got), "why": why, "contract": want}


def rounds(x):
    """loops of one function whose round may change nothing"""
    import safety
    from equivcheck import render
    cfg, n = x
    m = _m[cfg]
    drop = set()
    for attempt in range(5):
        for u, weak, t in (safety.TRIES if n not in safety.HEAVY else ((1, True, 90),)):
            reps = []

            def report(side, facts, key, g):
                reps.append((key, g, pr_box[0].cur.trail if pr_box else ()))
                raise Diverge("the loop makes no progress")
            pr_box = []
            pg = Progress(report)
            pr, why = safety.analyse(m, n, u, t, drop=tuple(sorted(drop)), weak=weak, progress=pg, box=pr_box)
            if reps or not why.startswith("Budget"):
                break
        if not reps:
            break
        more = set()
        for r in reps:
            more |= {a for a in r[1].apps if a in pr.plan and not Oracles.minlen.get(a, 0)}
        if not more or attempt == 4:
            break
        drop |= more
    r = {"n": n, "loops": {k: v for k, v in pg.loops.items()}, "rounds": pg.rounds, "why": why, "drop": sorted(drop), "stuck": [], "paths": pr.results, "truncated": pr.truncated}
    seen = set()
    for key, g, trail in reps:
        if key in seen:
            continue
        seen.add(key)
        mm = Mismatch("loop", "", key, g)
        mm.trail = trail
        r["stuck"].append({"where": key, "trail": render(mm)})
    return r


def run(pid="C04", configs=("A", "C")):
    import equivcheck
    import runner
    import safety
    import summaries
    w = runner.Work()
    viol, rows, notes, contracts, sites = [], [], [], [], set()
    edges = fns = 0
    for c in configs:
        m = _m[c] = equivcheck.load(w, c)
        summaries.parser_contracts(m)
        cyc, e, k = cycles(m)
        edges, fns = max(edges, e), max(fns, k)
        for x in cyc:
            v = {"key": "cycle:%s" % x[0], "where": x[0], "what": "the functions %s call each other: the depth of the stack is not bounded" % ", ".join(x), "detail": "    configuration %s" % c}
            if not any(o["key"] == v["key"] for o in viol):
                viol.append(v)
        if cyc:
            continue
        todo = [n for n in safety.names(m, c, pid) if c == configs[0] or n not in _m[configs[0]].all or not safety.same(_m[configs[0]], m, n)]
        sh = m.shared()
        ps = [(c, n) for n in safety.names(m, c, pid) if n in sh and is_parser(m, n)]
        for i in range(3):
            changed = False
            for r in runner.pool(consumption, sorted(ps, key=lambda j: j[1] not in safety.HEAVY)):
                if "n" not in r:
                    continue
                if i == 0 and c == configs[0]:
                    contracts.append({"function": r["n"], "least": r["min"], "contract": r["contract"]})
                if r["contract"] == 0 and r["min"] and i == 0:
                    Oracles.minlen[r["n"]] = r["min"]
                elif r["min"] < r["contract"] and (r["paths"] or not r["why"]):
                    notes.append("%s may consume %d bytes only, its counterpart in the reference at least %d" % (r["n"], r["min"], r["contract"]))
                    Oracles.minlen[r["n"]] = r["min"]
                    Oracles.first.pop(r["n"], None)
                    changed = True
                elif r["n"] in Oracles.first and r["first"] & ~Oracles.first[r["n"]]:
                    Oracles.first.pop(r["n"], None)
                    changed = True
            if not changed:
                break
        jobs = sorted([(c, n) for n in todo], key=lambda j: (j[1] not in safety.HEAVY, j[1] not in safety.SLOW))
        for (_, n), r in zip(jobs, runner.pool(rounds, jobs)):
            if "n" not in r:
                r.update(n=n, loops={}, rounds=0, paths=0, truncated=0, drop=[], stuck=[], why=r["detail"])
            rows.append({"function": r["n"], "config": c, "loops": len(r["loops"]), "rounds": r["rounds"], "paths": r["paths"], "truncated": r["truncated"], "inlined": r["drop"]})
            if r["why"]:
                rows[-1]["incomplete"] = r["why"][:200]
            sites |= set(r["loops"])
            for s in r["stuck"]:
                key = "loop:%s" % s["where"]
                if not any(o["key"] == key for o in viol):
                    viol.append({"key": key, "where": s["where"], "what": "a round of this loop can leave everything its exit depends on unchanged: it does not end",
                                 "detail": "    seen from %s, configuration %s, on inputs such that\n%s" % (r["n"], c, s["trail"])})
    cov = {"explanation": RULE, "call_graph_functions": fns, "call_graph_edges": edges, "functions": rows, "functions_analysed": len(rows), "loops": sorted(sites), "number_of_loops": len(sites),
           "rounds_compared": sum(r["rounds"] for r in rows), "least_consumption": contracts, "incomplete": [r["function"] for r in rows if r.get("incomplete")], "notes": notes, "samples": rows[:2]}
    runner.finish(pid, "other", cov, viol, ASSUME)


RULE = ("the call graph of the crate has no cycle, so the stack is bounded by the longest call chain; every loop of every function, interpreted over symbolic arguments, is compared from one round to the next: "
        "a round after which no integer, slice or iterator differs, other than accumulators that the loop only writes to, is a violation. Opaque parsers consume at least what their own analysis shows")
ASSUME = ["functions of the standard library end", "a loop whose state changes in each of the first rounds past the first keeps changing it; the rounds compared are those of the exact analysis (two past the first, one in fields, content_type and content_disposition)"]


if __name__ == "__main__":
    import sys, equiv, mir, summaries, safety
    m = equiv.Model(mir.Program("/tmp/w/all.json"), mir.Program("/tmp/w/spec.json"))
    print(cycles(m))
    summaries.parser_contracts(m)

    def go(n):
        reps = []
        pg = Progress(lambda s, f, key, g: reps.append((key, f)))
        t = time.time()
        try:
            pr, why = safety.analyse(m, n, 2, 30, progress=pg)
        except Exception as e:
            import traceback
            return "%s EXC %s" % (n, traceback.format_exc()[-300:])
        return "%-40s rounds=%d loops=%d stuck=%d %.1f %s %s" % (n, pg.rounds, len(pg.loops), len(reps), time.time() - t, why[:80], sorted({r[0] for r in reps}))
    import multiprocessing as mp
    ns = [n for n in sorted(m.all) if not m.impl.bodies[m.all[n]].generics and (len(sys.argv) < 2 or any(a in n for a in sys.argv[1:]))]
    with mp.get_context("fork").Pool(8) as p:
        for s in p.imap(go, ns, 1):
            if "loops=0" not in s:
                print(s, flush=True)

"""Checks that decide a property by relational abstract interpretation of the crate and the reference."""
import time
import equiv
import runner
import safety
import summaries
from product import *
from runner import TIER


def sig(t):
    if t[0] == "adt":
        n = last(t[1])
        if n in ("Cow",):
            return sig(t[2][0])
        if n == "String":
            return "text"
        if n == "Vec":
            s = sig(t[2][0])
            return "bytes" if s == "u8" else ("seq", s)
        if n == "Global":
            return "_"
        return (n,) + tuple(sig(x) for x in t[2])
    if t[0] == "str":
        return "text"
    if t[0] == "ref":
        s = sig(t[1])
        return ("mut", s) if t[2] else s
    if t[0] == "slice":
        s = sig(t[1])
        return "bytes" if s == "u8" else ("seq", s)
    if t[0] == "uint" or t[0] == "int":
        return t[1]
    if t[0] == "tuple":
        return tuple(sig(x) for x in t[1])
    return t


def fsig(b):
    return tuple(sig(b.locals[i]) for i in range(b.nargs + 1))


def comparable(m, n):
    ki, ks = m.names["impl"].get(n), m.names["spec"].get(n)
    if ki is None or ks is None:
        return False
    a, b = m.impl.bodies[ki], m.spec.bodies[ks]
    return a.nargs == b.nargs and not a.generics and not b.generics and fsig(a) == fsig(b)


def load(work, config):
    m = equiv.Model(work.program("impl", config), work.program("spec", config))
    m.config = config
    m.all = dict(m.names["impl"])
    # a function whose signature is not the reference's is not taken for the same function
    for n in list(m.names["impl"]):
        if n in m.names["spec"] and not comparable(m, n):
            del m.names["impl"][n]
    return m


def cone(m, roots):
    """the shared functions the reference reaches from the roots, roots first"""
    out = []
    ks = {k: n for n, k in m.names["spec"].items()}
    seen = set()
    todo = [m.names["spec"][r] for r in roots if r in m.names["spec"]]
    while todo:
        k = todo.pop(0)
        if k in seen:
            continue
        seen.add(k)
        n = ks.get(k)
        if n is not None and n in m.names["impl"]:
            out.append(n)
        todo.extend(sorted(m.callees("spec", k)))
    return out


def render(mm, limit=40):
    names = {}
    lines = []

    def sh(t):
        if isinstance(t, tuple):
            return "(" + ", ".join(sh(x) for x in t) + ")"
        if not isinstance(t, Term):
            return str(t)
        if t.op in ("run", "app", "end", "g"):
            if t not in names:
                names[t] = None
                d = "run of {%s} in %s from %s to %s" % (showmask(t.args[0]), sh(t.args[1]), sh(t.args[2]), sh(t.args[3])) if t.op == "run" else "%s(%s)" % (t.op, ", ".join(sh(x) for x in t.args))
                names[t] = "%s%d" % (t.op, len(names))
                lines.append("        where %s = %s" % (names[t], d))
            return names[t]
        if t.op == "arg":
            return t.args[0]
        if t.op == "in":
            return "%s in {%s}" % (sh(t.args[0]), showmask(t.args[1]))
        if t.op == "byte":
            return "%s[%s]" % (sh(t.args[0]), sh(t.args[1]))
        if t.op == "lin":
            c, it = lin_parts(t)
            return "(" + " + ".join([("%d*" % k if k != 1 else "") + sh(a) for a, k in it] + ([str(c)] if c else [])) + ")"
        return "%s(%s)" % (t.op, ", ".join(sh(x) for x in t.args))
    out = []
    for c in mm.trail[:limit]:
        del lines[:]
        s = sh(c)
        out.extend(lines)
        out.append("      " + s[:400])
    return "\n".join(out)


BUDGET = {"quick": 100, "thorough": 600}
# many outcomes per round: paths are united from the start, and fewer rounds followed
HEAVY = {"mime::mime_fields::content_type": 2, "mime::mime_fields::content_disposition": 2, "fields::fields": 1}


def one(m, n, drop=(), unroll=2, t=None):
    full = t or BUDGET.get(TIER, 100)
    tries = [(unroll, False, min(full, 30)), (unroll, True, full), (1, True, full)]
    if n in HEAVY:
        tries = [(HEAVY[n], True, full), (1, True, full)]
    tried = []
    inlined = ()
    for u, weak, b in tries:
        if (u, weak) in tried:
            continue
        tried.append((u, weak))
        st, pr, d = equiv.equiv(m, n, unroll=u, exact=True, weak=weak, max_time=b, drop=drop, max_states=400000)
        if st == "mismatch" and weak:
            # uniting paths can lose what tells the two apart: only a disagreement found path by path counts
            for v in (u, 1):
                st, pr, d = equiv.equiv(m, n, unroll=v, exact=True, max_time=2 * full, drop=drop, max_states=10**6)
                if st != "undecided" or v == 1:
                    break
            u, weak = v, False
            break
        if st != "undecided" or not d.startswith("Budget"):
            break
    if st == "undecided" and "paths left out" in d and u > 1:
        st2, pr2, d2 = equiv.equiv(m, n, unroll=1, exact=True, max_time=b, drop=drop, max_states=400000)
        if st2 == "ok":
            st, pr, d, u = st2, pr2, d2, 1
    if st == "undecided" and d.startswith("Budget"):
        # too many outcomes at once: at least those with one callee accepting
        until = time.time() + full
        for w in worlds(m, n, None):
            if time.time() > until - 1:
                break
            st2, pr2, d2 = equiv.equiv(m, n, unroll=1, exact=True, max_time=min(20, until - time.time()), drop=drop, max_states=10**6, most=w, wide=True)
            if st2 == "mismatch":
                st, pr, d = st2, pr2, d2
                break
    elif st == "mismatch":
        st, pr, d, inlined = refine(m, n, pr, d, drop, u, time.time() + min(full, 100))
    r = {"status": st, "detail": d[:600], "states": pr.states, "paths": pr.results, "truncated": pr.truncated, "united": pr.united, "unroll": u, "opaque": sorted(pr.plan)}
    if inlined:
        r["inlined"] = list(inlined)
    if st == "mismatch":
        mm = pr.mismatches[0]
        r["kind"] = mm.kind
        r["trail"] = render(mm)
        r["detail"] = mm.detail[:1000]
    return r


def worlds(m, n, pid):
    """the dispatcher tries every header at every round: more rounds are followed with only a few of its callees accepting"""
    if n != "fields::fields":
        return []
    plan = sorted(f for f in equiv.mk_env(m, n, ())[1] if f.startswith(("fields::", "mime::mime_fields::")))
    if pid is None:
        return [{**{f: 0 for f in plan}, "fields::unknown": 1, **w} for w in [{}] + [{f: 1} for f in plan]]
    resent = [f for f in plan if f.startswith("fields::resent_")]
    main = [f for f in plan if f not in resent and f != "fields::trace"]
    out = []
    if pid == "C12":
        for i, a in enumerate(main):
            for b in main[i + 1:]:
                out.append({a: 9, b: 9})
        for a in main if resent else ():
            out.append({"fields::trace": 1, resent[0]: 1, a: 9})
    if pid == "C13" and resent:
        for i, a in enumerate(resent):
            for j, b in enumerate(resent[:i]):
                for c in resent[:j]:
                    out.append({"fields::trace": 1, a: 9, b: 9, c: 9})
            out.append({"fields::trace": 3, a: 2})
    return [{**{f: 0 for f in plan}, **w} for w in out]


def spoken_of(x, out):
    """callees whose value a condition tests"""
    if isinstance(x, Term):
        if x.op == "app":
            if isinstance(x.args[0], str):
                out.add(x.args[0])
            return
        if x.op not in ("end", "ok") and not (x.op == "is" and isinstance(x.args[0], Term) and x.args[0].op == "app"):
            for y in x.args:
                spoken_of(y, out)
    elif isinstance(x, tuple):
        for y in x:
            spoken_of(y, out)


def refine(m, n, pr, d, drop, u, until):
    """the two may look at the same bytes through different callees: does the difference stay when those are followed?"""
    first = pr, d
    drop = set(drop)

    def below(f):
        return m.callees("spec", m.names["spec"][f]) & {m.names["spec"][x] for x in pr.plan}
    for _ in range(4):
        mm = pr.mismatches[0]
        more = set()
        latest = []
        for c in reversed(mm.trail):
            x = set()
            spoken_of(c, x)
            more |= x
            latest += sorted(f for f in x if f in pr.plan and f not in latest)
        more &= set(pr.plan)
        if not more:
            more = {f for f in mm.facts.apps if f in pr.plan}
        if not more:
            return "mismatch", pr, d, drop
        if len(more) > 1:
            # one alone may settle it, most likely one looked at last
            latest = latest or [f for f in reversed(list(mm.facts.apps)) if f in more]
            for f in sorted(latest, key=lambda f: bool(below(f)))[:4]:
                left = until - time.time()
                if left < 20:
                    break
                st, pr2, d2 = equiv.equiv(m, n, unroll=u, exact=True, max_time=left / 6, drop=tuple(sorted(drop | {f})), max_states=10**6)
                if st == "ok":
                    return "ok", pr2, "", sorted(drop | {f})
        # those that use no other first
        more = {f for f in more if not below(f)} or more
        drop |= more
        st = "undecided"
        levels = [(u, True), (u, False)]
        if u > 1 and equiv.equiv(m, n, unroll=1, exact=True, max_time=10, drop=tuple(sorted(drop - more)), max_states=10**6)[0] == "mismatch":
            # the difference shows with fewer rounds, too
            levels = [(1, True), (1, False), (u, False)]
        for v, weak in levels:
            left = until - time.time()
            if left < 3:
                break
            st, pr2, d2 = equiv.equiv(m, n, unroll=v, exact=True, weak=weak, max_time=left / 2, drop=tuple(sorted(drop)), max_states=10**6)
            if st == "mismatch" and weak:
                st = "undecided"
                continue
            if st != "undecided" or not d2.startswith("Budget"):
                break
        if st == "ok":
            return "ok", pr2, "", sorted(drop)
        if st == "undecided":
            return "mismatch", first[0], first[1], ()
        pr, d = pr2, d2
    return "mismatch", first[0], first[1], ()


def callers(m, n):
    k = m.names["impl"][n]
    out = []
    for c, kc in m.names["impl"].items():
        if c in m.names["spec"] and c != n and k in m.reach("impl", kc, ())[0]:
            # direct: reached without going through another shared function
            stop = {m.names["impl"][x] for x in m.names["impl"] if x in m.names["spec"] and x not in (c, n)}
            if k in m.reach("impl", kc, stop)[0]:
                out.append(c)
    return out


_g = {}


def job(x):
    cfg, n, what = x
    m = _g[cfg]
    if what == "joined":
        st, pr, d = equiv.equiv(m, n, unroll=0, max_time=10 if TIER == "quick" else 120, max_states=20000)
        return {"status": st, "detail": d[:300], "states": pr.states, "paths": pr.results, "joins": pr.joins}
    if what[0] == "inline":
        return one(m, n, drop=what[1])
    if what[0] == "world":
        st, pr, d = equiv.equiv(m, n, unroll=3, exact=True, max_time=20 if TIER == "quick" else 100, max_states=400000, most=what[1])
        r = {"status": st, "detail": d[:1000], "paths": pr.results}
        if st == "mismatch":
            r["kind"] = pr.mismatches[0].kind
            r["trail"] = render(pr.mismatches[0])
        return r
    if what[0] == "deeper":
        # more rounds as long as that is cheap
        best, u, end = what[1], what[1] + 1, time.time() + (10 if TIER == "quick" else 300)
        while u <= 32:
            st, pr, d = equiv.equiv(m, n, unroll=u, exact=True, max_time=end - time.time(), max_states=10**6)
            if st == "mismatch":
                st, pr, d, _ = refine(m, n, pr, d, (), u, end + 60)
            if st == "mismatch":
                return {"status": st, "kind": pr.mismatches[0].kind, "detail": pr.mismatches[0].detail[:1000], "trail": render(pr.mismatches[0]), "unroll": u}
            if st != "ok":
                break
            best = u
            if not pr.truncated or time.time() > end - 2:
                break
            u = u + 1 if u < 4 else u * 2
        return {"status": "ok", "unroll": best}
    return one(m, n, unroll=what[1])


def run(pid, roots, configs=("A",), only=None, entry=()):
    w = runner.Work()
    jobs = []
    missing = []
    for c in configs:
        m = _g[c] = load(w, c)
        summaries.parser_contracts(m)
        fs = cone(m, roots)
        if only is not None:
            fs = [f for f in fs if only(f)]
        for r in roots:
            if r in m.names["spec"] and r not in m.names["impl"]:
                missing.append("%s (%s)" % (r, c))
        for f in fs:
            if c != configs[0] and f in _g[configs[0]].names["impl"] and same_code(_g[configs[0]], m, f):
                continue
            jobs.append((c, f, ("exact", 2)))
    exact = runner.pool(job, jobs)
    # is a difference inside a helper visible to anything that uses it?
    viol = []
    cleared = []
    for (c, f, _), r in zip(jobs, exact):
        if r["status"] != "mismatch":
            continue
        m = _g[c]
        cs = [] if f in entry else callers(m, f)
        if cs:
            rr = runner.pool(job, [(c, k, ("inline", (f,))) for k in cs])
            if all(x["status"] == "ok" for x in rr):
                cleared.append("%s: differs from the reference's function of that name, but not as used by %s" % (f, ", ".join(cs)))
                r["status"] = "cleared"
                continue
        b = m.impl.bodies[m.names["impl"][f]]
        viol.append({"key": "%s:%s" % (f, r["kind"]), "where": "%s (%s)" % (b.key, b.sp), "what": r["detail"],
                     "detail": "    configuration %s, on inputs such that\n%s" % (c, r["trail"])})
    ws = [(c, f, ("world", x)) for c, f, _ in jobs for x in worlds(_g[c], f, pid)] if not viol else []
    wr = runner.pool(job, ws)
    for (c, f, _), r in zip(ws, wr):
        if r["status"] == "mismatch" and not viol:
            b = _g[c].impl.bodies[_g[c].names["impl"][f]]
            viol.append({"key": "%s:%s" % (f, r["kind"]), "where": "%s (%s)" % (b.key, b.sp), "what": r["detail"],
                         "detail": "    configuration %s, on inputs such that\n%s" % (c, r["trail"])})
    full = [None] * len(jobs)
    # the reference returns on every path: so must the crate
    returns = 0
    sj = []
    for c, f, _ in jobs:
        m = _g[c]
        safety._m[c] = m
        if not viol and f in m.all and not m.impl.bodies[m.all[f]].generics:
            sj.append((c, f, "all", ()))
    for (c, f, _, _), r in zip(sj, runner.pool(safety.job, sj)):
        safety.settle(r, f)
        returns += r["checked"]
        if r["panics"] and (safety.rejects(_g[c], f) or f in safety.entries(_g[c])):
            v = safety.climb(_g[c], c, f, r, "all", cleared, 0, safety.entries(_g[c]))
            if v:
                viol.append(v)
    if not viol:
        full = runner.pool(job, [(c, f, "joined") for c, f, _ in jobs])
    dj = [(c, f, ("deeper", r["unroll"])) for (c, f, _), r, j in zip(jobs, exact, full) if j is not None and j["status"] != "ok" and r["status"] == "ok" and r.get("truncated") and f not in HEAVY]
    deeper = {}
    for (c, f, _), r in zip(dj, runner.pool(job, dj)):
        deeper[(c, f)] = r.get("unroll")
        if r["status"] == "mismatch":
            b = _g[c].impl.bodies[_g[c].names["impl"][f]]
            viol.append({"key": "%s:%s" % (f, r["kind"]), "where": "%s (%s)" % (b.key, b.sp), "what": r["detail"],
                         "detail": "    configuration %s, on inputs such that\n%s" % (c, r["trail"])})
    rows = []
    for (c, f, _), r, j in zip(jobs, exact, full):
        row = {"function": f, "config": c, "verdict": r["status"], "paths": r.get("paths", 0), "abstract_states": r.get("states", 0), "paths_beyond_the_loop_bound": r.get("truncated", 0), "paths_united": r.get("united", 0), "loop_bound": r.get("unroll"),
               "seconds": r["wall"], "opaque_callees": r.get("opaque", [])}
        if deeper.get((c, f)):
            row["loop_bound"] = deeper[(c, f)]
        if r["status"] in ("undecided",):
            row["why"] = r["detail"]
        if j is not None:
            row["unbounded"] = j["status"] == "ok"
        rows.append(row)
    ok = [r for r in rows if r["verdict"] in ("ok", "cleared")]
    cov = {"programs": len(rows), "disagreements_checked": sum(r["paths"] for r in rows), "samples": rows[:1] + rows[-2:],
           "functions_compared": rows, "equal_on_every_path_within_the_loop_bound": len(ok),
           "equal_for_inputs_of_any_length": sum(1 for r in rows if r.get("unbounded")), "loop_bound": 2,
           "obligations_against_panics": returns,
           "runs_of_three_rounds_with_chosen_callees": len(ws), "of_these_equal": sum(1 for r in wr if r["status"] == "ok"),
           "undecided": [r["function"] for r in rows if r["verdict"] == "undecided"], "roots_without_counterpart": missing, "notes": cleared,
           "rule": "the MIR of the crate's function and of the reference's are interpreted together over one symbolic input; every pair of paths must agree on acceptance, on the bytes left, on the value and on the error, and none of the crate's paths may panic or leave a buffer. Loops that scan a run of bytes are summarised exactly, other loops are followed for two rounds past the first"}
    if TIER != "quick" and not viol:
        deep = runner.pool(job, [(c, f, ("exact", 3)) for c, f, _ in jobs])
        cov["equal_within_loop_bound_3"] = sum(1 for r in deep if r["status"] == "ok")
        for (c, f, _), r in zip(jobs, deep):
            if r["status"] == "mismatch":
                m = _g[c]
                b = m.impl.bodies[m.names["impl"][f]]
                viol.append({"key": "%s:%s" % (f, r["kind"]), "where": "%s (%s)" % (b.key, b.sp), "what": r["detail"],
                             "detail": "    configuration %s, on inputs such that\n%s" % (c, r["trail"])})
    runner.finish(pid, "translation_validation", cov, viol, ASSUME)


def same_code(m1, m2, f):
    """is the function, with everything it reaches, the same MIR in both configurations?"""
    r = []
    for m in (m1, m2):
        k = m.names["impl"].get(f)
        if k is None:
            return False
        ks = m.names["spec"].get(f)
        fp = []
        for prog, key, side in ((m.impl, k, "impl"), (m.spec, ks, "spec")):
            allk, _ = m.reach(side, key, ())
            for x in sorted(allk | {key}):
                b = prog.bodies.get(x)
                if b is not None and "::{closure" not in x or b is not None:
                    fp.append((x, strip(b.blocks)))
        r.append(hash(repr(fp)))
    return r[0] == r[1]


def strip(x):
    if isinstance(x, dict):
        return tuple((k, strip(v)) for k, v in x.items() if k != "sp")
    if isinstance(x, (list, tuple)):
        return tuple(strip(v) for v in x)
    if isinstance(x, str) and ".rs:" in x:
        return ""
    return x


ASSUME = ["the reference in /verif/spec states the intended behaviour",
          "rustc's MIR (before optimisation) is what is compiled; the models of the standard library functions used are right",
          "lengths stay below 2^63",
          "functions compared are equal for every input on every path that goes round non-scanning loops at most `loop_bound` times past the first; those counted under equal_for_inputs_of_any_length need no such bound",
          "callees listed as opaque are compared on their own, on both sides, by this same check"]

"""Strings that are contiguous stretches of the message are borrowed: which values can be owned, and what they hold."""
import time
import safety
import summaries
from product import *

ASCII = (1 << 128) - 1
PLAIN = ("string::from_slice", "string::empty_string")
ADD = ("string::add_string", "string::add_str")


def concat(it, side, facts, args):
    """add_string, by its own check: owned if either part is, else borrowed exactly when the whole is one stretch"""
    dst, src = args
    if not (isinstance(dst, Term) and dst.op == "ref"):
        return None
    cur = it.get(side, facts, dst.args[0], dst.args[1])
    src = it.val_of(side, facts, src) if hasattr(it, "val_of") else src
    a, b = content(cur), content(src)
    if a is None or b is None:
        return None
    r = mk_seq(a.args[0] + b.args[0])
    if owned(cur) or owned(src):
        v = T("adt", cur.args[0] if cur.op == "adt" else src.args[0], 1, (r,))
    else:
        v = T("cowc", r)
    it.put(side, facts, dst.args[0], dst.args[1], v)
    return UNIT


def owned(v):
    return isinstance(v, Term) and v.op == "adt" and last(v.args[0]) == "Cow" and v.args[1] == 1


def last(x):
    return x.rsplit("::", 1)[-1]


def cows(x, out):
    if isinstance(x, Term):
        if owned(x):
            out.append(x)
        for y in x.args:
            cows(y, out)
    elif isinstance(x, (tuple, list)):
        for y in x:
            cows(y, out)


def source(m, x, message):
    """the text x is cut from: the message, or what another parser cut from it"""
    while isinstance(x, Term):
        if x.op == "arg":
            return "message" if x is T("arg", "in") and message else "its argument"
        if x.op in ("val", "fld", "content", "elem", "ic"):
            x = x.args[0]
        elif x.op == "app":
            n = x.args[0]
            return n if n in m.all and lends(m.impl.bodies[m.all[n]].locals[0]) else None
        else:
            return None
    return None


def lends(t):
    """may a value of the type lend text of the function's input?"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "adt" and last(t[1]) == "Cow" or t[0] == "ref" and t[1][0] in ("str", "slice"):
        return True
    return any(lends(x) for x in t if isinstance(x, tuple)) or any(lends(y) for x in t if isinstance(x, tuple) for y in x if isinstance(y, tuple))


def surely_owned(f, x):
    """is the value with content x known to be an owned Cow already?"""
    g = f.copy()
    return not g.assume(T("is", x, 0))


def copies(m, r, f, message):
    """owned values in r that may be one stretch of the message"""
    out = []
    vs = []
    cows(r, vs)
    for v in vs:
        c = content(v)
        if c is None or c.op != "seq" or not c.args[0]:
            continue
        ps = c.args[0]
        if any(p.op != "sl" for p in ps):
            continue
        low = [p.args[0] for p in ps if isinstance(p.args[0], Term) and p.args[0].op == "mapb" and p.args[0].args[0] == "lower"]
        if any(capital(f, p) for p in ps if p.args[0] in low):
            continue
        src = [source(m, p.args[0].args[1] if p.args[0] in low else p.args[0], message) for p in ps]
        if None in src:
            continue
        if all(f.int_eq(p.args[1], p.args[2]) for p in ps):
            continue
        if any((p.args[0] is not T("arg", "in") or not message) and surely_owned(f, p.args[0]) for p in ps):
            continue
        g = f.copy()
        ok = True
        for p, q in zip(ps, ps[1:]):
            if p.args[0] is q.args[0]:
                ok = ok and g.assume(mk_eq0(sub(p.args[2], q.args[1])))
        # what is not ASCII has been decoded
        for p in ps:
            for k in range(4):
                if f.ge(sub(sub(p.args[2], p.args[1]), k + 1)) and not f.mask2(byte_at(p.args[0], add(p.args[1], k))) & ASCII:
                    ok = False
        if ok:
            out.append((v, ps, src))
    return out


UPPER = sum(1 << i for i in range(65, 91))


def capital(f, p):
    """does the text that was put into lower case hold a capital?"""
    return any(not f.mask2(byte_at(p.args[0].args[1], add(p.args[1], k))) & ~UPPER or not f.mask2(byte_at(p.args[0].args[1], add(p.args[1], k))) & ASCII for k in range(6))


def mk_eq0(d):
    return T("eq", d) if isinstance(d, Term) else (TRUE if d == 0 else FALSE)


_m = {}
SLICE = ("ref", ("slice", U8), False)


def job(x):
    """owned values among the results of one function"""
    from equivcheck import render
    cfg, n = x
    m = _m[cfg]
    message = m.impl.bodies[m.all[n]].locals[1] == SLICE if len(m.impl.bodies[m.all[n]].locals) > 1 else False
    tries = safety.TRIES if n not in safety.HEAVY else ((0, True, 90),)
    for u, weak, t in tries:
        bad, cnt, box = [], [0, 0], []

        def ret(st):
            vs = []
            cows(st.sides[0].ret, vs)
            cnt[0] += 1
            cnt[1] += len(vs)
            if n in ADD:
                joined(st, bad, box)
            else:
                for v, ps, src in copies(m, st.sides[0].ret, st.facts, message):
                    bad.append((", ".join(sorted({"the message" if x == "message" else "its argument" if x == "its argument" else "what %s returned" % x for x in src})), st.facts, box[0].cur.trail))

        def cut(st):
            # a path that is not followed further: what it holds by then
            s = st.sides[0].copy()
            gc(s)
            for v, ps, src in copies(m, tuple(s.mem.values()), st.facts, message):
                bad.append((", ".join(sorted({"the message" if x == "message" else "its argument" if x == "its argument" else "what %s returned" % x for x in src})), st.facts, st.trail))
        pr, why = safety.analyse(m, n, u, t, weak=weak, on_return=ret, cow=concat, box=box, drop=PLAIN, on_truncated=cut)
        if bad or not why.startswith("Budget"):
            break
    r = {"n": n, "paths": cnt[0], "owned": cnt[1], "why": why, "truncated": pr.truncated, "bad": []}
    if bad:
        mm = Mismatch("copy", "", n, bad[0][1])
        mm.trail = bad[0][2]
        r["bad"].append({"what": bad[0][0], "trail": render(mm)})
    return r


def joined(st, bad, box):
    """the joiners themselves: two borrowed parts, one empty or adjacent, stay borrowed"""
    s = st.sides[0]
    v = s.mem.get((-1, 0))
    if not owned(v):
        return
    a, b = T("arg", "in"), T("arg", "a1")
    g = st.facts.copy()
    if not g.assume(T("is", a, 0)):
        return
    if str_cow(s, b) and not g.assume(T("is", b, 0)):
        return
    sa, sb = whole(a), whole(b)
    for c in (T("adj", sa, sb), mk_eq0(seq_len(sa)), mk_eq0(seq_len(sb))):
        h = g.copy()
        if h.assume(c):
            bad.append(("two parts of the message, one empty or both adjacent", h, box[0].cur.trail))
            return


def str_cow(s, b):
    return True


def whole(x):
    return T("seq", (T("sl", x, 0, T("len", x)),))


def run(pid="C26", configs=("A", "C")):
    import equivcheck
    import runner
    w = runner.Work()
    rows, viol, notes = [], [], []
    for c in configs:
        m = _m[c] = equivcheck.load(w, c)
        summaries.parser_contracts(m)
        jobs = []
        for n in safety.names(m, c, pid):
            if n not in m.shared() and n not in ADD:
                continue
            if c != configs[0] and n in _m[configs[0]].all and safety.same(_m[configs[0]], m, n):
                continue
            if n.endswith("::into_owned") or n.endswith("header_part_owned"):
                notes.append("%s exists to copy" % n)
                continue
            jobs.append((c, n))
        jobs.sort(key=lambda j: (j[1] not in safety.HEAVY, j[1] not in safety.SLOW))
        for (_, n), r in zip(jobs, runner.pool(job, jobs)):
            if "n" not in r:
                r.update(n=n, paths=0, owned=0, truncated=0, bad=[], why=r["detail"])
            rows.append({"function": n, "config": c, "paths": r["paths"], "owned_values": r["owned"], "truncated": r["truncated"], "seconds": r["wall"]})
            if r["why"]:
                rows[-1]["incomplete"] = r["why"][:200]
            for b in r["bad"]:
                viol.append({"key": "copy:%s" % n, "where": n, "what": "an owned copy of a stretch of text that could be borrowed (%s)" % b["what"],
                             "detail": "    configuration %s, on inputs such that\n%s" % (c, b["trail"])})
    cov = {"explanation": RULE, "functions": rows, "functions_analysed": len(rows), "paths": sum(r["paths"] for r in rows), "owned_values": sum(r["owned_values"] for r in rows),
           "incomplete": [r["function"] for r in rows if r.get("incomplete")], "notes": sorted(set(notes)), "samples": rows[:2]}
    runner.finish(pid, "other", cov, viol, ASSUME)


RULE = ("every function with a counterpart in the reference is interpreted over symbolic arguments; an owned string or buffer among its results is a violation when its content is made of pieces of the message, or of what another parser returned, "
        "that the path does not show to be apart, and none of which is known to be owned already. The joiners are held to their contract on every path: two borrowed parts, one empty or adjacent, give a borrowed whole; elsewhere they are taken by that contract")
ASSUME = ["content is tracked by the exact analysis (loops followed for two rounds past the first)", "text from the decoders (percent, base64, quoted-printable, encoded words, charsets, RFC 2231 reassembly) and the owned forms are copies by design"]

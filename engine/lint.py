"""Checks over the resolved program and the build: feature sets (C25), effects (C27), lifetimes (C28)."""
import json
import os
import re
import shutil
import subprocess
import tomllib
import equivcheck
import runner
import summaries
from runner import HOME, TIER


# ---------------------------------------------------------------- C25
def crate_features(repo):
    t = tomllib.load(open(os.path.join(repo, "email-parser/Cargo.toml"), "rb"))
    return sorted(t.get("features", {})), t.get("features", {})


def feature_sets(repo):
    fs, _ = crate_features(repo)
    out = {(): "none", tuple(fs): "all"}
    for f in fs:
        out[(f,)] = "only " + f
        out[tuple(x for x in fs if x != f)] = "all but " + f
    for i, f in enumerate(fs):
        for g in fs[i + 1:]:
            out[(f, g)] = "%s and %s" % (f, g)
    if TIER != "quick":
        for i, f in enumerate(fs):
            for j, g in enumerate(fs[i + 1:]):
                out.setdefault(tuple(x for x in fs if x not in (f, g)), "all but %s and %s" % (f, g))
                for h in fs[i + j + 2:]:
                    out.setdefault((f, g, h), "%s, %s and %s" % (f, g, h))
    return out


_c = {}


def build_chunk(x):
    k, sets = x
    w = _c["w"]
    t = os.path.join(w.dir, "target-features-%d" % k)
    bad = []
    for s in sets:
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "-q", "--lib", "--manifest-path", os.path.join(w.repo, "email-parser/Cargo.toml"), "--no-default-features", "--message-format", "json"] + (["--features", ",".join(s)] if s else []),
                           capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR=t))
        if r.returncode:
            where, what = "?", r.stderr.strip()[-300:]
            for l in r.stdout.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                m = m.get("message") or {}
                if m.get("level") == "error" and m.get("spans"):
                    sp = m["spans"][0]
                    where, what = "%s:%d" % (sp["file_name"], sp["line_start"]), m["message"]
                    break
            bad.append((s, where, what))
    return {"bad": bad, "n": len(sets)}


C25_FUNCTIONS = ("fields::fields", "email::Email::parse", "message::parse_message")


def variant(c):
    m = equivcheck.load(_c["w"], c)
    summaries.parser_contracts(m)
    rows = []
    for f in C25_FUNCTIONS:
        if f in m.names["spec"] and f in m.names["impl"]:
            r = equivcheck.one(m, f, t=60)
            b = m.impl.bodies[m.names["impl"][f]]
            r.update(function=f, config=c, where="%s (%s)" % (b.key, b.sp))
            rows.append(r)
    return {"rows": rows}


def c25():
    w = runner.Work()
    w.driver()
    _c["w"] = w
    sets = feature_sets(w.repo)
    todo = list(sets)
    n = runner.CPUS
    # sets that pull in the same dependencies together, so that each worker keeps its cache
    viol = []
    res = runner.pool(build_chunk, [(k, todo[k::n]) for k in range(n)])
    count = 0
    for r in res:
        if "bad" not in r:
            raise SystemExit("cannot run cargo check: " + r.get("detail", ""))
        count += r["n"]
        for s, where, what in r["bad"]:
            viol.append({"key": "build:" + sets[s], "where": where, "what": "does not compile with features: %s (%s)" % (sets[s], what), "detail": "    cargo check --no-default-features --features %s" % ",".join(s)})
    rows = []
    if not viol:
        for c in runner.VARIANTS:
            w.dump("spec", c) if False else None
        for c, r in zip(runner.VARIANTS, runner.pool(variant, list(runner.VARIANTS))):
            if "rows" not in r:
                rows.append({"config": c, "verdict": "undecided", "why": r.get("detail")})
                continue
            for x in r["rows"]:
                rows.append({"function": x["function"], "config": c, "features": runner.VARIANTS[c], "verdict": x["status"], "paths": x["paths"], "loop_bound": x["unroll"]})
                if x["status"] == "mismatch":
                    viol.append({"key": "%s:%s:%s" % (x["function"], c, x["kind"]), "where": x["where"], "what": x["detail"],
                                 "detail": "    with features %s, on inputs such that\n%s" % (runner.VARIANTS[c] or "(none)", x["trail"])})
    cov = {"explanation": "Every feature set listed is type- and borrow-checked with cargo check; then the header dispatcher, the email parser and the message parser are compared with the reference in configurations with one header's feature off, with none, and with MIME only (relational abstract interpretation, as for C12 and C14).",
           "feature_sets_compiled": count, "features": crate_features(w.repo)[0], "comparisons": rows,
           "equal": sum(1 for r in rows if r["verdict"] == "ok"), "undecided": [r for r in rows if r["verdict"] == "undecided"]}
    runner.finish("C25", "other", cov, viol, equivcheck.ASSUME[:3])


# ---------------------------------------------------------------- C27
EFFECT = re.compile(r"^(std|core|alloc)::(io|fs|env|net|process|time|thread|os|random|backtrace|arch|hash::random|sync::atomic::(fence|compiler_fence)|ptr::(read_volatile|write_volatile))(::|$)")
HASHY = re.compile(r"hash(::|_)(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|Union|Intersection|Difference|SymmetricDifference|ExtractIf)$")
NUMBERING = {"enumerate", "zip", "take", "skip", "step_by", "scan", "take_while", "skip_while", "map_while"}
PICKING = {"find", "find_map", "position", "last", "nth", "reduce", "fold", "try_fold", "rposition"}
ORDERED = re.compile(r"(vec::Vec::<.*>::(push|insert|append|extend_from_slice|extend)|string::String::(push|push_str|insert|insert_str)|VecDeque::<.*>::push_(back|front)|<std::string::String as std::ops::AddAssign.*>::add_assign|as std::iter::Extend.*>::extend|fmt::Write::write_(str|fmt|char))$")


def calls(body):
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        t = b["t"]
        if t[0] == "call" and "d" in t[1]:
            yield i, t


def hashiter(t):
    if t[0] == "adt":
        return bool(HASHY.search(t[1])) or any(hashiter(x) for x in t[2])
    if t[0] == "ref":
        return hashiter(t[1])
    return False


def is_map(t):
    if t[0] != "adt":
        return False
    n = t[1].rsplit("::", 1)[-1]
    if n in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
        return True
    return n in ("Result", "Option", "ControlFlow") and any(is_map(x) for x in t[2])


def unordered(body, dest):
    """may a collection in arbitrary order reach the result? not if it is sorted in this function"""
    return not is_map(dest) and not any("::sort" in t[1]["n"] for _, t in calls(body))


def place_ty(body, p):
    return body.locals[p[0]] if not p[1] else None


def defs(body):
    """local -> blocks that assign it"""
    out = {}
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=":
                out.setdefault(s[1][0], set()).add(i)
        t = b["t"]
        if t[0] == "call":
            out.setdefault(t[3][0], set()).add(i)
    return out


def base_of(body, op, depth=8):
    """the local a reference operand points into"""
    if op[0] not in ("c", "m"):
        return None
    l = op[1][0]
    for _ in range(depth):
        src = None
        for b in body.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[1][0] == l and not s[1][1]:
                    if s[2][0] == "ref":
                        src = s[2][2]
                    elif s[2][0] == "use" and s[2][1][0] in ("c", "m"):
                        src = s[2][1][1]
        if src is None:
            return l
        if src[0] == l:
            return l
        l = src[0]
    return l


def reach_blocks(body, start, avoid=()):
    seen = set()
    todo = [start]
    while todo:
        x = todo.pop()
        if x in seen or x in avoid:
            continue
        seen.add(x)
        todo.extend(s for s in body.succ(x) if not body.blocks[s]["cl"])
    return seen


SAFE_TY = ("uint", "int", "bool", "never")


def hash_order(prog, key, body, sites, bad):
    """where the order of a hash table could reach a result"""
    for i, t in calls(body):
        argt = [place_ty(body, a[1]) if a[0] in ("c", "m") else None for a in t[2]]
        hot = [j for j, x in enumerate(argt) if x is not None and hashiter(x)]
        if not hot:
            continue
        n = t[1]["on"]
        m = n.rsplit("::", 1)[-1]
        dest = place_ty(body, t[3])
        where = "%s (%s)" % (key, body.blocks[i]["sp"])
        sites.append("%s in %s" % (m, where))
        if m in NUMBERING:
            bad.append((key + ":" + m, where, "numbers the entries of a hash table in their arbitrary order (`%s`)" % m))
        elif m in PICKING and unordered(body, ("other", "")):
            bad.append((key + ":" + m, where, "picks among the entries of a hash table by their arbitrary order (`%s`)" % m))
        elif m in ("collect", "partition", "unzip") and dest is not None and unordered(body, dest):
            bad.append((key + ":" + m, where, "collects the entries of a hash table into an ordered sequence"))
        elif m in ("extend", "extend_from_slice", "append") and 0 not in hot and argt[0] is not None and unordered(body, argt[0][1] if argt[0][0] == "ref" else argt[0]):
            bad.append((key + ":" + m, where, "appends the entries of a hash table to an ordered sequence"))
        elif m == "for_each":
            for a in t[2]:
                ty = place_ty(body, a[1]) if a[0] in ("c", "m") else None
                if ty is not None and ty[0] == "closure" and ty[1] in prog.bodies:
                    for k, u in calls(prog.bodies[ty[1]]):
                        if ORDERED.search(u[1]["n"]) and base_of(prog.bodies[ty[1]], u[2][0]) == 1:
                            bad.append((key + ":for_each", where, "appends the entries of a hash table to an ordered sequence"))
        elif m == "next":
            loop = None
            for h, bl in body.loops().items():
                if i in bl and (loop is None or len(bl) < len(loop)):
                    loop = bl
            if loop is None:
                bad.append((key + ":next", where, "takes the first entry of a hash table"))
            else:
                one_loop(body, key, i, t, loop, bad)


def one_loop(body, key, i, t, loop, bad):
    d = defs(body)
    # the exit taken when the table is exhausted: the discriminant switch after `next`
    out = None
    x = t[4]
    for _ in range(6):
        if x is None:
            break
        y = body.blocks[x]["t"]
        if y[0] == "switch":
            for v, s in y[3]:
                if str(v) == "0":
                    out = s
            if out is None:
                out = y[4]
            break
        x = y[1] if y[0] == "goto" else None
    done = reach_blocks(body, out) if out is not None else set()
    where = lambda b: "%s (%s)" % (key, body.blocks[b]["sp"])
    for b in sorted(loop):
        if body.blocks[b]["cl"]:
            continue
        u = body.blocks[b]["t"]
        if u[0] == "call" and "d" in u[1] and ORDERED.search(u[1]["n"]) and u[2]:
            r = base_of(body, u[2][0])
            if r is not None and not (d.get(r, set()) & loop) and unordered(body, ("other", "")):
                bad.append((key + ":loop", where(b), "appends to an ordered sequence for each entry of a hash table, in their arbitrary order"))
    # variables that keep what the last (or the first) entry left in them
    if out is not None:
        live = body.live_at(out, 0)
        for l in sorted(live):
            bl = d.get(l, set()) & loop
            ty = body.locals[l]
            if bl and ty[0] not in SAFE_TY and not is_map(ty) and not hashiter(ty) and not (d.get(l, set()) <= loop and False):
                if ty[0] == "adt" and ty[1].rsplit("::", 1)[-1] == "Result":
                    continue
                bad.append((key + ":last", where(sorted(bl)[0]), "a variable set for each entry of a hash table, in their arbitrary order, is used after the loop"))
    # leaving early with something other than an error
    for b in sorted(loop):
        for s in body.succ(b):
            if s in loop or s == out or body.blocks[s]["cl"]:
                continue
            for e in reach_blocks(body, s, done):
                for st in body.blocks[e]["s"]:
                    if st[0] == "=" and st[1][0] == 0 and st[2][0] == "agg":
                        a = st[2][1]
                        nm = a[1].rsplit("::", 1)[-1] if len(a) > 1 and isinstance(a[1], str) else ""
                        if (nm == "Result" and a[2] == 0) or (nm == "Option" and a[2] == 1):
                            bad.append((key + ":early", where(e), "returns a value found by going through a hash table in arbitrary order"))


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            walk(v, f)
    elif isinstance(x, (list, tuple)):
        for v in x:
            walk(v, f)


def effects(prog, label):
    bad, sites = [], []
    nf = nc = 0
    for s in prog.statics:
        if s[1] or not s[2]:
            bad.append((s[0], "%s (%s)" % (s[0], s[3]), "global state that can change: %s" % ("static mut" if s[1] else "a static with interior mutability")))
    for k, b in prog.bodies.items():
        if re.match(r"(std|core|alloc)::", k):
            continue
        nf += 1
        for body in [b] + b.promoted:
            for bb in body.blocks:
                def see(x):
                    nonlocal nc
                    if "d" in x and "n" in x:
                        nc += 1
                        for q in (x["d"], x.get("o") or ""):
                            if EFFECT.search(q):
                                bad.append(("%s:%s" % (k, x["n"]), "%s (%s)" % (k, bb["sp"]), "mentions %s, which is an effect or consults something other than the input" % x["n"]))
                                break
                        if x["n"].endswith("Argument::<'_>::new_pointer"):
                            bad.append(("%s:pointer" % k, "%s (%s)" % (k, bb["sp"]), "prints an address"))
                    if x.get("k") == "static":
                        pass
                if not bb["cl"]:
                    walk(bb["s"], see)
                    walk(bb["t"], see)
                    if bb["t"][0] in ("asm", "inlineasm"):
                        bad.append((k + ":asm", "%s (%s)" % (k, bb["sp"]), "inline assembly"))
        hash_order(prog, k, b, sites, bad)
    return bad, sites, nf, nc


PUBLIC = {
    "B": ["Email<'static>", "Field<'static>", "error::Error", "address::Mailbox<'static>", "address::EmailAddress<'static>", "address::Address<'static>", "time::DateTime", "time::Date", "time::Time", "time::TimeWithZone", "time::Zone", "time::Day", "time::Month"],
}
PUBLIC["A"] = PUBLIC["B"] + ["mime::RawEntity<'static>", "mime::Entity<'static>", "mime::ContentType<'static>", "mime::Disposition<'static>", "mime::DispositionType<'static>", "mime::ContentTransferEncoding<'static>"]


def rlib(w, config):
    """compiles the crate of the scratch copy to metadata; returns the rustc arguments that link to it"""
    t = os.path.join(w.dir, "target-link-" + config)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "-q", "--lib", "--message-format", "json", "--manifest-path", os.path.join(w.repo, "email-parser/Cargo.toml"), "--no-default-features", "--features", runner.CONFIGS[config]],
                       capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR=t))
    if r.returncode:
        raise SystemExit("cannot compile the crate:\n" + r.stderr[-2000:])
    link, dirs = [], set()
    for l in r.stdout.splitlines():
        m = json.loads(l)
        for f in m.get("filenames", ()) if m.get("reason") == "compiler-artifact" else ():
            if f.endswith(".rmeta"):
                dirs.add(os.path.dirname(f))
                if m["target"]["name"].replace("-", "_") == "email_parser":
                    link = ["--extern", "email_parser=" + f]
    return link + [x for d in sorted(dirs) for x in ("-L", "dependency=" + d)]


def rustc(w, name, text, link):
    """diagnostics of a program: [(code, line, message)]"""
    p = os.path.join(w.dir, name + ".rs")
    open(p, "w").write(text)
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--error-format", "json", "-A", "warnings", "-o", os.path.join(w.dir, name + ".rmeta"), p] + link, capture_output=True, text=True)
    out = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error" or not m.get("spans"):
            continue
        ls = [s["line_start"] for s in m["spans"] if s["is_primary"]] or [0]
        out.append(((m.get("code") or {}).get("code", ""), ls[0], m["message"]))
    return out, r.returncode


def sendsync(w, config):
    link = rlib(w, config)
    head = "#![allow(dead_code)]\nuse email_parser::*;\nuse email_parser::prelude::*;\nfn send<T: Send>() {}\nfn sync<T: Sync>() {}\n"
    types = list(PUBLIC[config])
    lines, src = {}, head
    n = head.count("\n")
    for i, t in enumerate(types):
        for c in ("send", "sync"):
            n += 1
            lines[n] = (t, c)
            src += "fn f%d%s() { %s::<%s>() }\n" % (i, c, c, t)
    errs, rc = rustc(w, "sendsync" + config, src, link)
    bad, gone = [], []
    for code, line, msg in errs:
        t, c = lines.get(line, ("?", "?"))
        if code == "E0277":
            bad.append(("%s:%s" % (t, c), "type " + t, "is not %s: %s" % (c.capitalize(), msg)))
        else:
            gone.append("%s: %s %s" % (t, code, msg))
    return bad, gone, len(types)


POSITIVE = [("std::time::SystemTime::now", True), ("std::env::var", True), ("std::io::stdio::_print", True), ("std::hash::random::RandomState::new", True), ("alloc::vec::Vec::push", False), ("core::sync::atomic::AtomicUsize::new", False)]


def c27():
    for n, want in POSITIVE:
        assert bool(EFFECT.search(n)) is want, n
    w = runner.Work()
    viol, seen, cov = [], set(), {}
    for c in ("A", "B", "C"):
        prog = w.program("impl", c)
        bad, sites, nf, nc = effects(prog, c)
        cov[c] = {"features": runner.CONFIGS[c], "functions_scanned": nf, "mentions_of_functions_resolved": nc, "statics": len(prog.statics), "uses_of_hash_table_order": sites}
        if nf < 150 or nc < 500:
            raise SystemExit("too little of the crate was seen: %d functions, %d mentions" % (nf, nc))
        for key, where, what in bad:
            if key not in seen:
                seen.add(key)
                viol.append({"key": key, "where": where, "what": what})
    for c in ("A", "B"):
        bad, gone, n = sendsync(w, c)
        cov[c]["types_send_and_sync"] = n - len(gone)
        cov[c]["types_not_found"] = gone
        for key, where, what in bad:
            if key not in seen:
                seen.add(key)
                viol.append({"key": key, "where": where, "what": what})
    cov["explanation"] = ("Every body of the crate and of its dependency textcode is scanned (type-resolved callees, function values included): no static that can change, no mention of input/output, environment, clock, thread, randomness or addresses; "
                          "the arbitrary order of a hash table reaches no ordered result; and the compiler accepts every public type as Send and Sync.")
    runner.finish("C27", "other", cov, viol, ["the standard library functions used outside the listed modules are deterministic", "one error among several possible ones may depend on hash order where the error is discarded by the caller"])


# ---------------------------------------------------------------- C28
LAUNDER = re.compile(r"(slice::from_raw_parts(_mut)?|ptr::slice_from_raw_parts(_mut)?|intrinsics::transmute(_copy|_unchecked)?|mem::transmute(_copy)?|::leak|::from_raw|NonNull::<.*>::(as_ref|as_mut)|(const|mut)_ptr::<impl .*>::(as_ref|as_mut|as_uninit_ref)|str::from_raw_parts(_mut)?|ManuallyDrop::<.*>::new|mem::forget)$")


def raw_derefs(body):
    """references made from raw pointers"""
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "ref":
                p = s[2][2]
                if p[1] and p[1][0][0] == "d" and body.locals[p[0]][0] == "ptr":
                    yield i, "&*raw pointer"
            if s[0] == "=" and s[2][0] == "cast" and "ransmute" in str(s[2][1]):
                t = body.locals[s[1][0]] if not s[1][1] else None
                if t is not None and borrows(t):
                    yield i, "transmute"


def borrows(t):
    return t[0] == "ref" or t[0] in ("adt",) and any(borrows(x) for x in t[2]) or t[0] == "tuple" and any(borrows(x) for x in t[1]) or t[0] in ("slice", "array") and borrows(t[1])


def regions(s):
    """named regions of a piece of signature"""
    return set(re.findall(r"'\^\d+\.\w+\([^)]*\)\)?|'static|'[a-z_]\w*/#\d+|'\{erased\}", s))


def split_sig(sig):
    m = re.search(r"value: (.*), bound_vars", sig, re.S)
    s = m.group(1) if m else sig
    d = 0
    i = s.find("(")
    for j in range(i, len(s)):
        if s[j] in "([<":
            d += 1
        elif s[j] in ")]" or (s[j] == ">" and s[j - 1] != "-"):
            d -= 1
            if d == 0:
                break
    return s[i:j + 1], s[j + 1:]


def launder(prog):
    """functions that make references from raw pointers (or transmute them) must return only the lifetimes they were given"""
    bad, sites = [], []
    for k, b in prog.bodies.items():
        if not prog.meta[k]["local"]:
            continue
        found = [(i, t[1]["n"]) for i, t in calls(b) if LAUNDER.search(t[1]["n"]) or LAUNDER.search(t[1].get("on") or "")] + list(raw_derefs(b))
        found = [(i, n) for i, n in found if not re.search(r"ManuallyDrop|forget", n)]
        if not found:
            continue
        owner = re.sub(r"(::\{closure#\d+\})+$", "", k)
        sig = prog.meta.get(owner, prog.meta[k]).get("sig", "")
        a, r = split_sig(sig)
        for i, n in found:
            where = "%s (%s)" % (k, b.blocks[i]["sp"])
            sites.append("%s: %s" % (where, n))
            if "transmute" in n or n.endswith("leak"):
                bad.append((k + ":" + n, where, "uses %s on a value that borrows: the compiler no longer ties the result to what it borrows from" % n))
                continue
            extra = {x for x in regions(r) if x not in regions(a)} - {"'{erased}"}
            if extra:
                bad.append((k + ":" + n, where, "makes a reference with %s and returns a lifetime its arguments do not have (%s)" % (n, r.strip())))
    return bad, sites


# fields of a parsed email that hold text of the message, and what it takes to get at them
BORROWING = {
    "B": {"Email": ["from", "sender", "subject", "to", "cc", "bcc", "message_id", "in_reply_to", "references", "reply_to", "comments", "keywords", "trace", "unknown_fields", "body"]},
    "A": {"Email": ["from", "sender", "subject", "to", "cc", "bcc", "message_id", "in_reply_to", "references", "reply_to", "comments", "keywords", "trace", "unknown_fields", "mime_entity"],
          "RawEntity": ["mime_type", "subtype", "description", "id", "parameters", "disposition", "value", "additional_headers"]},
}
CODES = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0515", "E0521", "E0597", "E0713", "E0716", "E0310", "E0621", "E0373", ""}


def witnesses(config):
    """[(name, what, failing body, compiling body)]"""
    out = []
    G = "let data = bytes();"
    P = "let e = Email::parse(&data).unwrap();"
    out.append(("email_outlives", "an email kept after its bytes are gone", "let x; { %s %s x = e; } keep(&x);" % (G, P), "let x; %s { %s x = e; } keep(&x);" % (G, P)))
    out.append(("email_returned", "an email returned from the function that owns the bytes", "fn f() -> Email<'static> { %s Email::parse(&data).unwrap() } keep(&f());" % G, "fn f<'a>(data: &'a [u8]) -> Email<'a> { Email::parse(data).unwrap() } %s keep(&f(&data));" % G))
    out.append(("email_static", "an email of borrowed bytes passed off as 'static", "fn f<'a>(data: &'a [u8]) -> Email<'static> { Email::parse(data).unwrap() } %s keep(&f(&data));" % G, "fn f<'a>(data: &'a [u8]) -> Email<'a> { Email::parse(data).unwrap() } %s keep(&f(&data));" % G))
    out.append(("bytes_moved", "the bytes freed while the email is alive", "%s %s drop(data); keep(&e);" % (G, P), "%s %s keep(&e); drop(data);" % (G, P)))
    out.append(("bytes_modified", "the bytes modified while the email is alive", "let mut data = bytes(); %s data[0] = 0; keep(&e);" % P, "let mut data = bytes(); %s keep(&e); data[0] = 0;" % P))
    out.append(("bytes_cleared", "the bytes cleared while the email is alive", "let mut data = bytes(); %s data.clear(); keep(&e);" % P, "let mut data = bytes(); %s keep(&e); data.clear();" % P))
    out.append(("email_thread", "an email of borrowed bytes sent to a thread that may outlive them", "%s %s std::thread::spawn(move || keep(&e));" % (G, P), "%s %s std::thread::scope(|s| { s.spawn(move || keep(&e)); });" % (G, P)))
    out.append(("clone_outlives", "a clone of a mailbox kept after the bytes are gone", "let x; { %s %s x = e.sender.clone(); } keep(&x);" % (G, P), "let x; %s { %s x = e.sender.clone(); } keep(&x);" % (G, P)))
    out.append(("message_outlives", "the fields of parse_message kept after the bytes are gone", "let x; { %s x = email_parser::parse_message(&data).unwrap().0; } keep(&x);" % G, "let x; %s { x = email_parser::parse_message(&data).unwrap().0; } keep(&x);" % G))
    out.append(("message_body_outlives", "the body of parse_message kept after the bytes are gone", "let x; { %s x = email_parser::parse_message(&data).unwrap().1; } keep(&x);" % G, "let x; %s { x = email_parser::parse_message(&data).unwrap().1; } keep(&x);" % G))
    out.append(("field_outlives", "one header of parse_message kept after the bytes are gone", "let x; { %s x = email_parser::parse_message(&data).unwrap().0.pop(); } keep(&x);" % G, "let x; %s { x = email_parser::parse_message(&data).unwrap().0.pop(); } keep(&x);" % G))
    for f in BORROWING[config]["Email"]:
        out.append(("email_" + f, "the `%s` of an email kept after the bytes are gone" % f, "let x; { %s %s x = e.%s; } keep(&x);" % (G, P, f), "let x; %s { %s x = e.%s; } keep(&x);" % (G, P, f)))
    if config == "A":
        E = "let en = e.mime_entity.parse().unwrap();"
        for f in BORROWING["A"]["RawEntity"]:
            out.append(("raw_" + f, "the `%s` of an entity kept after the bytes are gone" % f, "let x; { %s %s x = e.mime_entity.%s; } keep(&x);" % (G, P, f), "let x; %s { %s x = e.mime_entity.%s; } keep(&x);" % (G, P, f)))
        out.append(("entity_outlives_bytes", "a parsed entity kept after the bytes are gone", "let x; { %s %s %s x = en; keep(&x); } keep(&x);" % (G, P, E), "let x; %s %s { %s x = en; keep(&x); } keep(&x);" % (G, P, E)))
        out.append(("entity_outlives_email", "a parsed entity kept after the entity it was parsed from is gone", "%s let x; { %s %s x = en; } keep(&x);" % (G, P, E), "%s %s let x; { %s x = en; } keep(&x);" % (G, P, E)))
        out.append(("entity_of_moved", "an entity parsed from a value that is then moved away", "%s %s %s drop(e); keep(&en);" % (G, P, E), "%s %s %s keep(&en); drop(e);" % (G, P, E)))
        out.append(("entity_of_modified", "an entity parsed from a value that is then modified", "%s let mut e = Email::parse(&data).unwrap(); %s e.mime_entity.subtype = \"x\".into(); keep(&en);" % (G, E), "%s let mut e = Email::parse(&data).unwrap(); e.mime_entity.subtype = \"x\".into(); %s keep(&en);" % (G, E)))
        out.append(("entity_static", "an entity of a borrowed value passed off as 'static", "fn f<'a>(r: &'a RawEntity<'a>) -> Entity<'static> { r.parse().unwrap() } %s %s keep(&f(&e.mime_entity));" % (G, P), "fn f<'a>(r: &'a RawEntity<'a>) -> Entity<'a> { r.parse().unwrap() } %s %s keep(&f(&e.mime_entity));" % (G, P)))
        out.append(("part_outlives", "a part of a multipart entity kept after the entity is gone", "%s let x; { %s %s x = match en { Entity::Multipart { content, .. } => content, _ => Vec::new() }; } keep(&x);" % (G, P, E), "%s %s let x; { %s x = match en { Entity::Multipart { content, .. } => content, _ => Vec::new() }; } keep(&x);" % (G, P, E)))
        out.append(("text_outlives", "the text of a text entity kept after the entity is gone", "%s let x; { %s %s x = match en { Entity::Text { value, .. } => value, _ => panic!() }; } keep(&x);" % (G, P, E), "%s %s let x; { %s x = match en { Entity::Text { value, .. } => value, _ => panic!() }; } keep(&x);" % (G, P, E)))
        out.append(("text_subtype", "the subtype of a text entity kept after the entity is gone", "%s let x; { %s %s x = match en { Entity::Text { subtype, .. } => subtype, _ => panic!() }; } keep(&x);" % (G, P, E), "%s %s let x; { %s x = match en { Entity::Text { subtype, .. } => subtype, _ => panic!() }; } keep(&x);" % (G, P, E)))
        # what is made owned may be kept
        for n, get in (("mime_type", "e.mime_entity.mime_type"), ("disposition", "e.mime_entity.disposition.unwrap()"), ("disposition_type", "e.mime_entity.disposition.unwrap().disposition_type")):
            out.append(("owned_" + n, "the %s, not made owned, kept after the bytes are gone" % n, "let x; { %s %s x = %s; } keep(&x);" % (G, P, get), "let x; { %s %s x = %s.into_owned(); } keep(&x);" % (G, P, get)))
        out.append(("owned_encoding", "a transfer encoding, not made owned, kept after its name is gone", "let x; { let s = String::new(); x = ContentTransferEncoding::Unknown(std::borrow::Cow::Borrowed(&s)); } keep(&x);", "let x; { let s = String::new(); x = ContentTransferEncoding::Unknown(std::borrow::Cow::Borrowed(&s)).into_owned(); } keep(&x);"))
    return out


HEAD = "#![allow(dead_code, unused)]\nuse email_parser::prelude::*;\n%sfn bytes() -> Vec<u8> { Vec::new() }\nfn keep<T>(_: &T) {}\n"


def run_witnesses(w, config):
    link = rlib(w, config)
    head = HEAD % ("use email_parser::mime::*;\n" if config == "A" else "")
    ws = witnesses(config)
    n0 = head.count("\n")
    # first the programs that must compile: one that does not name the crate's items correctly is no witness
    live, gone, bad = list(ws), [], []
    for _ in range(3):
        src = head + "".join("pub fn %s() { %s }\n" % (n, t) for n, _, f, t in live)
        errs, rc = rustc(w, "twins" + config, src, link)
        if not errs:
            break
        hit = {}
        for code, line, msg in errs:
            if n0 < line <= n0 + len(live):
                hit.setdefault(line - n0 - 1, (code, msg))
        if not hit:
            raise SystemExit("the witness programs cannot be checked: %s" % errs[:3])
        typed = {i: x for i, x in hit.items() if x[0] not in CODES}
        # type errors hide borrow errors: drop those programs and look again
        for i, (code, msg) in sorted((typed or hit).items(), reverse=True):
            n = live[i][0]
            if code in CODES:
                bad.append(("twin:" + n, "witness " + n, "a use that should be allowed is rejected: %s %s" % (code, msg), live[i][3]))
            else:
                gone.append("%s: %s %s" % (n, code, msg))
            del live[i]
    src = head + "".join("pub fn %s() { %s }\n" % (n, f) for n, _, f, t in live)
    errs, rc = rustc(w, "witness" + config, src, link)
    rejected, other = {}, []
    for code, line, msg in errs:
        if n0 < line <= n0 + len(live):
            i = line - n0 - 1
            if code in CODES:
                rejected.setdefault(i, code or "lifetime")
            else:
                other.append((live[i][0], code, msg))
    if other:
        raise SystemExit("witness programs with errors of another kind: %s" % other[:3])
    for i, (n, what, f, t) in enumerate(live):
        if i not in rejected:
            bad.append(("accepted:" + n, "witness " + n, "the compiler accepts %s" % what, f))
    return bad, gone, {live[i][0]: c for i, c in rejected.items()}


def c28():
    w = runner.Work()
    viol, cov, seen = [], {}, set()
    for c in ("A", "B"):
        prog = w.program("impl", c)
        bad, sites = launder(prog)
        cov[c] = {"features": runner.CONFIGS[c], "references_made_from_raw_pointers": sites}
        for key, where, what in bad:
            if key not in seen:
                seen.add(key)
                viol.append({"key": key, "where": where, "what": what})
        bad, gone, rejected = run_witnesses(w, c)
        cov[c]["programs_rejected_as_they_must"] = rejected
        cov[c]["programs_not_checked"] = gone
        if len(rejected) + len(bad) < (18 if c == "B" else 35):
            raise SystemExit("too few witness programs could be checked: " + "; ".join(gone)[:500])
        for key, where, what, src in bad:
            if key not in seen:
                seen.add(key)
                viol.append({"key": key, "where": where, "what": what, "detail": "    configuration %s: %s" % (c, src)})
    cov["explanation"] = ("Programs that keep a result past the bytes, or past the entity it was parsed from, are given to the compiler: each must be rejected by the borrow checker and its twin, differing in the offending scope or line only, accepted. "
                          "In the crate itself, no function transmutes or leaks a value that borrows, and a function that makes a reference from a raw pointer returns no lifetime its arguments do not have.")
    runner.finish("C28", "other", cov, viol, ["the borrow checker is sound", "a function that makes references from raw pointers points them into its arguments (compared with the reference under C07 to C23)"])

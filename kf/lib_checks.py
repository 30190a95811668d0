"""C17, C19, C20, C21, C24, C26, C27: the library beyond single answers."""
import json
import os
import random
import re
import zlib

from . import gen, guide
from .core import CORES, Adapter, CheckError
from .model import describe, expected, normal

GOODSRC = ("database probe; use x as e; table t { a int primary, b text default('q') }\n"
           "action p($x) public view { select 1; $r = e.f($x); p($r); } init() { select * from users; }")


def printed(lines):
    """The JSON values TLC printed."""
    out = {}
    for x in lines:
        if x.startswith('"{'):
            out[x] = 1
    return [json.loads(json.loads(x)) for x in sorted(out)]


def accept(ctx, module, spec, report, recs, consts=None, shards=None):
    """TLC judges records; returns {index: step or None} of those not accepted."""
    if not recs:
        return {}
    path = os.path.join(ctx.work, "rec-%s-%d.ndjson" % (module, len(os.listdir(ctx.work))))
    with open(path, "w", encoding="utf-8") as f:
        for r in recs:
            f.write(json.dumps(r, ensure_ascii=False) + "\n")
    lines = ctx.tlc(module, consts or {}, spec, [report], env={"KF_TRACE": path}, shards=shards or min(CORES, max(1, len(recs) // 100)))
    seen, bad = set(), {}
    for x in lines:
        m = re.match(r'<<"([+-])", (\d+)(?:, (\d+))?>>', x)
        if m:
            i = int(m.group(2))
            seen.add(i)
            if m.group(1) == "-":
                bad[i] = int(m.group(3)) if m.group(3) else None
    if len(seen) != len(recs):
        raise CheckError("TLC judged %d of %d records of %s" % (len(seen), len(recs), module))
    ctx.traces += len(recs)
    return bad


# ------------------------------------------------------------------ C26
COMPILE = {"column": "database d; table t { c %s }", "attribute": "database d; table t { c blob %s }", "index": "database d; table t { c int, #i %s(c) }"}


def compiled_value(ctx, a, kind, word):
    w = word + {"min": "(1)", "max": "(1)", "minlen": "(1)", "maxlen": "(1)", "default": "('x')"}.get(word, "") if kind == "attribute" else word
    r = a.ask({"op": "parse", "src": COMPILE[kind] % w})
    if not r.get("ok"):
        return None
    t = normal(r["json"])["tables"][0]
    return {"column": lambda: t["columns"][0]["type"], "attribute": lambda: t["columns"][0]["attributes"][0]["type"],
            "index": lambda: t["indexes"][0]["type"]}[kind]()


def check_lookup(ctx):
    given = os.path.join(ctx.work, "words.json")
    words = guide.words(ctx)
    with open(given, "w") as f:
        json.dump(words, f)
    ctx.note("given_words", len(words))
    vs = printed(ctx.tlc("KfLookup", dict(Deep=ctx.deep), "LSpec", ["CaseFree", "OneToOne", "AsCompiled", "LEmit"], shards=CORES, env={"KF_WORDS": given}))
    if not vs:
        raise CheckError("no words")
    res = ctx.ask([{"op": "lookup", "kind": v["kind"], "name": v["word"]} for v in vs])
    a = ctx.adapter()
    ctx.traces += len(vs)
    values = {}
    for v, r in zip(vs, res):
        if bad_lookup(v, r):
            r = a.ask({"op": "lookup", "kind": v["kind"], "name": v["word"]})
            if bad_lookup(v, r):
                ctx.violation("lookup of %s keyword %s: %s, allowed: %s" % (v["kind"], json.dumps(v["word"]), look(r), v["answers"]), kind="lookup", v=v)
        if v["exact"]:
            if r.get("ok"):
                values.setdefault((v["kind"], r["value"]), set()).add(v["word"])
            # the compiler's own value; a keyword it does not compile is a matter of C01/C02
            c = compiled_value(ctx, a, v["kind"], v["word"])
            ctx.note("keywords_compiled", c is not None)
            if c is not None and r.get("ok") and c != r["value"]:
                ctx.violation("%s keyword %s is compiled to %s, but looked up as %s" % (v["kind"], v["word"], c, r["value"]), kind="lookup", v=v)
            ctx.sample({"kind": v["kind"], "word": v["word"], "looked up": r.get("value"), "compiled": c})
    for (k, val), ws in sorted(values.items()):
        if len(ws) > 1:
            ctx.violation("%s keywords %s all map to %s" % (k, sorted(ws), val), kind="lookups", k=k, words=sorted(ws))
    ctx.note("words", len(vs))


def look(r):
    return "value %s" % json.dumps(r.get("value")) if r.get("ok") else "error (with value %s)" % json.dumps(r["value"]) if r.get("value") else describe(r)


def bad_lookup(v, r):
    return not any(x["ok"] == r.get("ok") and x["value"] == r.get("value", "") for x in v["answers"]) or bool(r.get("panic"))


def replay_lookup(ctx, cases):
    a = ctx.adapter()
    for c in cases:
        ctx.traces += 1
        if c["kind"] == "lookup":
            v = c["v"]
            r = a.ask({"op": "lookup", "kind": v["kind"], "name": v["word"]})
            if bad_lookup(v, r) or v["exact"] and compiled_value(ctx, a, v["kind"], v["word"]) not in (None, r.get("value")):
                ctx.violation("lookup of %s keyword %s: %s, allowed: %s" % (v["kind"], json.dumps(v["word"]), look(r), v["answers"]), kind="lookup", v=v)
        else:
            got = [a.ask({"op": "lookup", "kind": c["k"], "name": w}).get("value") for w in c["words"]]
            if len(set(got)) < len(got):
                ctx.violation("%s keywords %s map to %s" % (c["k"], c["words"], got), **c)


# ------------------------------------------------------------------ C20
def listener_record(ops, r):
    obs = []
    for op, st in zip(ops, r["each"]):
        o = dict(entries=[dict(msg=e["msg"], cls=e.get("cls") or []) for e in st["entries"]], msg=st["msg"], has=st["has"], self=st["self"],
                 failed=bool(st.get("failed", False)), nil=bool(st.get("nil", False)), kept=bool(st.get("kept", True)),
                 same=bool(st.get("same_msg", True)), first=bool(st.get("first", True)))
        obs.append(o)
    return dict(ops=ops, obs=obs)


DB_BAD = "database d; table %s { a int } }"


def check_listener(ctx):
    steps = 3 if ctx.deep else 2
    hs = [[["new", v["born"]]] + v["ops"] for v in printed(ctx.tlc("KfListener", dict(Steps=steps), "NSpec", ["EmptyMeansGood", "NEmit"], properties=["NothingLost"], heap="8g"))
          if v["ops"]]
    if ctx.deep:
        random.Random(ctx.seed).shuffle(hs)
        hs = hs[:6000]
    rng = random.Random(ctx.seed)
    one = [h[1] for h in hs]
    ops = sorted({json.dumps(o) for o in one})
    for _ in range(300 if ctx.deep else 60):      # longer histories
        hs.append([json.loads(rng.choice(ops)) for _ in range(rng.randint(3, 9))])
    # many entries: by many operations, and by one source with many errors
    errs = [json.loads(o) for o in ops if json.loads(o)[0] == "add" or "?" in json.loads(o)[1]]
    for k in (10, 11, 16, 17, 33, 64, 100, 101, 130) + ((257, 300) if ctx.deep else ()):
        hs.append([["add", "error %d of %d" % (i, k)] for i in range(k)] + [["parse", "database d; ?", ""]])
        hs.append([rng.choice(errs) for _ in range(k)])
        for x in ("?", "table t { a int ? } ", "} ", "action a() { b(1 1); } ", "'"):
            hs.append([["parse", "database d; " + x * k, rng.choice(["", "trace"])], json.loads(rng.choice(ops)), ["add", "last"]])
    # any sources
    some = guide.sources(ctx, ANY + ["C15", "C18"], 800 if ctx.deep else 160, faulty=0.6, do=("parse", "listen"), spoil=0.6, grammar=True, chars=1000000 if ctx.deep else 160000)
    for k in sorted(x for x in gen.HINTS.sizes if 3 <= x <= 300)[:60]:      # sizes the code mentions
        hs.append([["add", "error %d of %d" % (i, k)] for i in range(k)] + [["parse", "database d; ?", ""]])
        hs.append([["parse", "database d; " + "? " * k, ""], ["add", "last"]])
        hs.append([["add", "e" * k], ["add", "f" * k], ["parse", DB_BAD % ("x" * k), ""]])
    docs = gen.sources(ctx.seed + 31, 400 if ctx.deep else 90, 0.6, 0.7)
    docs = [d for d in docs + gen.spoil(docs, ctx.seed) if len(d) < 1500]
    for d in some:
        hs.append([["parse", d, rng.choice(["", "trace"])]] + ([json.loads(rng.choice(ops))] if rng.random() < 0.3 else []))
    for _ in range(400 if ctx.deep else 80):
        hs.append([["parse", rng.choice(docs), rng.choice(["", "trace"])] if rng.random() < 0.8 else json.loads(rng.choice(ops)) for _ in range(rng.choice([1, 1, 2, 3]))])
    judge_listener(ctx, hs)


def judge_listener(ctx, hs):
    rng = random.Random(ctx.seed + 5)
    hs = [h if h and h[0][0] == "new" else [["new", rng.choice(["made", "zero"])]] + h for h in hs]
    res = ctx.ask([{"op": "listener", "ops": h} for h in hs])
    recs, at = [], []
    for h, r in zip(hs, res):
        if r.get("panic") or r.get("hang") or r.get("skipped"):
            ctx.note("unanswered")
            continue
        recs.append(listener_record(h[1:], r))
        at.append(h)
    ctx.note("histories", len(recs))
    if recs:
        ctx.sample({"history": recs[len(recs) // 2]["ops"], "listener then": recs[len(recs) // 2]["obs"][-1]["msg"][:200]})
    for i, step in sorted(accept(ctx, "KfListenerTrace", "RSpec", "RReport", recs, dict(Steps=1)).items()):
        if len(ctx.violations) >= 20:
            break
        o = recs[i]["obs"][step - 1]
        ctx.violation("history %s: step %d leaves the listener with %s" % (json.dumps(at[i][:step + 1]), step, json.dumps(o)[:900]), kind="listener", ops=at[i])


# ------------------------------------------------------------------ C19 and C24
def answer(r):
    """What a parse answers, without what is printed and without the listener."""
    e = r.get("err")
    return json.dumps([r.get("ok"), r.get("nil"), r.get("json", ""), e and e["msg"], r.get("panic", "")[:100], bool(r.get("hang"))])


def sessions(ctx, calls, source, ways, near=None):
    v = printed(ctx.tlc("KfSession", dict(Clients=1, Calls=calls, Source=source, Ways=ways), "SSpec",
                        ["FunctionOfSource", "OnlyReadyTablesAreRead", "OwnSource", "WayIsDiagnostic", "PrintsOnDemand", "History", "PoolLines", "WayLines"] + ([] if near is None else ["NearLines"]), heap="8g"))
    pool = {x["i"]: x for x in v if "src" in x}
    ways = [x["ways"] for x in v if "ways" in x][0]
    if near is not None:
        near.update({pool[x["of"]]["src"]: x["near"] for x in v if "near" in x})
    return pool, ways, [x["hist"] for x in v if "hist" in x]


def fresh_answers(ctx, srcs):
    """Each source as the first one of a process of its own."""
    exe = ctx.build()
    from .cli_checks import pooled

    def one(s):
        a = Adapter(exe, timeout=30)
        r = a.ask({"op": "parse", "src": s})
        a.close()
        return r
    return pooled(srcs, one)


def check_sessions(ctx):
    for n, c in (((2, 1), dict(Source=3, Ways=2)), ((3, 1), dict(Source=2, Ways=1))) + ((((2, 2), dict(Source=2, Ways=1)),) if ctx.deep else ()):
        ctx.tlc("KfSession", dict(Clients=n[0], Calls=n[1], **c), "SSpec", ["FunctionOfSource", "OnlyReadyTablesAreRead", "OwnSource", "WayIsDiagnostic", "PrintsOnDemand"],
                properties=["Answered"])
    near = {}
    pool, ways, hist = sessions(ctx, 2, 99, 5, near)
    if ctx.deep:
        hist += sessions(ctx, 3, 12, 2)[2]
    srcs = [pool[i]["src"] for i in sorted(pool)]
    first = dict(zip(srcs, fresh_answers(ctx, srcs)))
    ctx.log("%d histories" % len(hist))
    # the first answer has to be what the source means, as far as acceptance goes
    jobs = [([pool[i]["src"] for i, _ in h], [way(ways[w - 1]) for _, w in h]) for h in hist]
    rng = random.Random(ctx.seed)
    rnd = sorted(set(gen.sources(ctx.seed + 77, 60, 0.3, 1.0)))
    for s, r in zip(rnd, fresh_answers(ctx, rnd)):
        first[s] = r
    allsrc = srcs + rnd
    # sources that are nearly the same, by themselves or between long equal texts
    n = 0
    for base in sorted(near):
        if len(base) < 20:
            continue
        for _ in range(8 if ctx.deep else 2):
            vs = [base] + rng.sample(near[base], min(len(near[base]), 19))
            if rng.random() < 0.5:
                pad = rng.choice(["// %s\n", "/* %s */"]) % ("same " * rng.choice([20, 60, 300]))
                k = rng.randrange(3)
                vs = [(pad if k != 1 else "") + x + ("\n" + pad if k else "") for x in vs]
            for s, r in zip(vs, fresh_answers(ctx, vs)):
                first[s] = r
            n += len(vs)
            for _ in range(2):
                order = vs + rng.sample(vs, len(vs) // 2)
                rng.shuffle(order)
                jobs.append((order, [way(rng.choice(ways)) for _ in order]))
            allsrc += vs[:3]
    # sources of the same shape with other names and values: whatever is shared by size or place shows
    rich = sorted((x for x in gen.sources(ctx.seed + 78, 120, 0.1, 1.5, ctx.rng("theme").choice(["C01", "C02", "C03", "C05", "C06"])) if len(x) > 200), key=len)
    for base in [b for b in sorted(near) if len(b) > 200] + rng.sample(rich, min(len(rich), 40 if ctx.deep else 14)):
        vs = [base] + [gen.variant(base, rng) for _ in range(3)]
        for s, r in zip(vs, fresh_answers(ctx, vs)):
            first[s] = r
        n += len(vs)
        jobs.append((vs, [way(rng.choice([w for w in ways if w["own"] == "keep"])) for _ in vs]))
        jobs.append((vs[::-1] + vs, [way(rng.choice(ways)) for _ in vs + vs]))
        allsrc += vs[:2]
    some = guide.sources(ctx, ANY, 800 if ctx.deep else 120, faulty=0.25, do=("parse", "parse"), spoil=0.15, big=1.5, chars=200000)
    trios = [[base, gen.variant(base, rng), rng.choice(some)] for base in some]
    new = sorted({x for vs in trios for x in vs} - set(first))
    first.update(zip(new, fresh_answers(ctx, new)))
    for vs in trios:
        jobs.append(([vs[0], vs[0], vs[1], vs[2], vs[0]], [way(rng.choice(ways)) for _ in range(5)]))
    allsrc += rng.sample(some, min(len(some), 60))
    ctx.note("near_sources", n)
    for _ in range(400 if ctx.deep else 60):        # long sessions
        k = rng.randint(10, 40)
        jobs.append(([rng.choice(allsrc) for _ in range(k)], [way(rng.choice(ways)) for _ in range(k)]))
    run_sessions(ctx, jobs, first)
    concurrency(ctx, allsrc, first)


def way(w):
    return [w["mode"], w["via"], w["own"]]


def session_faults(job, first, r):
    srcs, ops = job
    if r.get("panic") or r.get("hang") or r.get("crash"):
        return ["C19: a session gives no answer: %s" % describe(r)]
    out = ["C19: " + b for b in r.get("bad") or []]
    for k, (s, o, x) in enumerate(zip(srcs, ops, r["each"])):
        if s in first and answer(x) != answer(first[s]):
            out.append("C19: call %d of the session (source %s, called as %s, after %s) is %s, in a process of its own %s" % (
                k + 1, json.dumps(s, ensure_ascii=False), o, json.dumps(srcs[:k][-2:], ensure_ascii=False), describe(x), describe(first[s])))
            break
    return out


def run_sessions(ctx, jobs, first):
    res = ctx.ask([{"op": "session", "srcs": s, "ops": o} for s, o in jobs], timeout=60)
    ctx.traces += len(jobs)
    ctx.note("sessions", len(jobs))
    ctx.sample({"session": jobs[len(jobs) // 3]})
    for job, r in zip(jobs, res):
        if r.get("skipped"):
            continue
        if session_faults(job, first, r) and not ctx.enough():
            a = ctx.adapter(timeout=60)
            again = session_faults(job, first, a.ask({"op": "session", "srcs": job[0], "ops": job[1]}))
            a.close()
            w = again or session_faults(job, first, r)    # a fault that needs what went before is one all the same
            ctx.violation(w[0], kind="session", job=job)


def race_report(stderr):
    return "DATA RACE" in stderr or "concurrent map" in stderr


def concurrency(ctx, srcs, first, rounds=None):
    """Many parses at once, in fresh processes of a race-detecting build."""
    exe = ctx.build(race=True)
    rng = random.Random(ctx.seed)
    procs = rounds or (40 if ctx.deep else 10)
    from .cli_checks import pooled

    def one(k):
        r2 = random.Random(ctx.seed * 1009 + k)
        some = r2.sample(srcs, min(len(srcs), 3 if k % 2 else 20))
        a = Adapter(exe, timeout=120, env={"GORACE": "halt_on_error=0 exitcode=66"})
        r = a.ask({"op": "concurrent", "srcs": some, "n": 2 if k % 5 == 4 else 12, "rounds": 3 if ctx.deep else 2})
        a.close()
        return some, r, a.stderr
    del rng
    out = pooled(list(range(procs)), one)
    for some, r, err in out:
        w = None
        if race_report(err):
            w = "data race between concurrent parses: %s" % err[:1500]
        elif r.get("hang") or r.get("crash") or r.get("panic"):
            w = "concurrent parses give no answer: %s %s" % (describe(r), err[:600])
        elif r.get("bad"):
            w = "concurrent parses: %s" % r["bad"][0]
        else:
            for s, x in zip(some, r["each"]):
                if s in first and answer(x) != answer(first[s]):
                    w = "source %s after concurrent parses is %s, in a process of its own %s" % (json.dumps(s), describe(x), describe(first[s]))
        ctx.note("concurrent_parses", r.get("n", 0))
        if w and not ctx.enough():
            ctx.violation(w, kind="concurrent", srcs=some)
    ctx.traces += len(out)


def replay_sessions(ctx, cases):
    for c in cases:
        if c["kind"] == "session":
            srcs = sorted(set(c["job"][0]))
            first = dict(zip(srcs, fresh_answers(ctx, srcs)))
            run_sessions(ctx, [c["job"]], first)
        elif c["kind"] == "concurrent":
            first = dict(zip(c["srcs"], fresh_answers(ctx, c["srcs"])))
            concurrency(ctx, c["srcs"], first, 20)


def trace_faults(s, plain, traced):
    if plain.get("panic") or plain.get("hang") or plain.get("skipped") or traced.get("skipped"):
        return None
    if answer(plain) != answer(traced):
        return "source %s: %s without tracing, %s with" % (json.dumps(s, ensure_ascii=False), describe(plain), describe(traced))
    if plain.get("out"):
        return "source %s: parsing without tracing prints %s" % (json.dumps(s, ensure_ascii=False), json.dumps(plain["out"][:200]))
    if not traced.get("out"):
        return "source %s: nothing is printed in trace mode" % json.dumps(s, ensure_ascii=False)
    return None


def check_modes(ctx):
    pool, ways, hist = sessions(ctx, 1, 99, 9)
    srcs = [pool[i]["src"] for i in pool]
    for fam, st in (("Sem", 1 if ctx.deep else 3), ("Mix", 2 if ctx.deep else 9), ("C18", 3 if ctx.deep else 11), ("C15", 20 if ctx.deep else 101)):
        srcs += [v["src"] for v in ctx.vectors(fam, stride=st)]
        ctx.log("family %s" % fam)
    srcs += gen.spoil(gen.sources(ctx.seed + 5, 3000 if ctx.deep else 300, 0.3, 1.5), ctx.seed)
    srcs += guide.sources(ctx, ANY, 4000 if ctx.deep else 500, faulty=0.3, do=("parse", "trace"), spoil=0.3, big=1.5, grammar=True)
    srcs = sorted(set(srcs))
    compare_modes(ctx, srcs)
    from . import cli_checks
    cli_checks.check_flags(ctx, cli_checks.Cli(ctx))


def compare_modes(ctx, srcs):
    ops = [["", ""], ["trace", ""], ["", "nil"], ["traceonly", "nil"], ["zero", ""], ["trace", "nil"], ["other", "nil"]]
    res = ctx.ask([{"op": "session", "srcs": [s] * len(ops), "ops": ops} for s in srcs])
    ctx.traces += len(ops) * len(srcs)
    ctx.note("sources_in_both_modes", len(srcs))
    ctx.sample({"source": srcs[len(srcs) // 2]})
    for s, r in zip(srcs, res):
        if not r.get("each"):
            ctx.note("unanswered")
            continue
        e = r["each"]
        w = trace_faults(s, e[0], e[1]) or trace_faults(s, e[2], e[3]) or trace_faults(s, e[4], e[5]) or trace_faults(s, e[6], e[5])
        if w and not ctx.enough():
            ctx.violation(w, kind="modes", src=s)


def replay_modes(ctx, cases):
    from . import cli_checks
    compare_modes(ctx, [c["src"] for c in cases if c["kind"] == "modes"] or [GOODSRC])
    cli_checks.replay(ctx, "C24", cases)


# ------------------------------------------------------------------ C21
def tagged(text):
    """JSON text as a tree that keeps the order of fields and duplicate ones."""
    def tag(x):
        if isinstance(x, str):
            return {"k": "str", "s": x}
        if isinstance(x, bool):
            return {"k": "bool", "b": x}
        if x is None:
            return {"k": "null"}
        if isinstance(x, list):
            return {"k": "arr", "e": [tag(y) for y in x]}
        if isinstance(x, Pairs):
            return {"k": "obj", "f": [[a, tag(b)] for a, b in x.p]}
        return {"k": "other", "s": str(x)}
    return tag(json.loads(text, object_pairs_hook=Pairs))


class Pairs:
    def __init__(self, p):
        self.p = p


def artifact_faults(s, r):
    if not r.get("ok"):
        return None
    if r.get("bad"):
        return "source %s: %s" % (json.dumps(s, ensure_ascii=False), "; ".join(r["bad"])[:1500])
    if r.get("jerr") or not r.get("json"):
        return "source %s: the schema does not serialise: %s" % (json.dumps(s, ensure_ascii=False), r.get("jerr"))
    try:
        tagged(r["json"])
    except ValueError as e:
        return "source %s: invalid JSON (%s): %s" % (json.dumps(s, ensure_ascii=False), e, r["json"][:500])
    return None


def check_artifacts(ctx):
    ctx.tlc("KfArtifact", {}, "ASpec", ["WrittenFits", "Restores"])
    srcs = list({v["src"] for fam, st in (("Pool", 1), ("Mix", 2 if ctx.deep else 9)) for v in ctx.vectors(fam, stride=st)
                 if v["ok"]})
    srcs += gen.sources(ctx.seed + 9, 3000 if ctx.deep else 400, 0.0, 2.0)
    srcs += guide.sources(ctx, ANY, 2500 if ctx.deep else 300, faulty=0.0, do=("parse", "json"), big=1.5)
    srcs += ["database d; @a(x='%s') action a() { select '%s'; b('%s'); } action b($c) { select 1; } table t { x text default('%s') }" % ((c,) * 4)
             for c in SPECIAL]
    srcs += ["database d; use e { k: '%s', k: '%s' } as f;" % (c, c) for c in SPECIAL]
    artifacts(ctx, sorted(set(srcs)))


ANY = ["", "C01", "C02", "C03", "C04", "C05", "C06"]
SPECIAL = ["<", ">", "&", "<script>&amp;</script>", "\u2028\u2029", "\u00e9", "\U0001f600", "\ufffd", "\x01\x1f", "\x7f", "\t", "\n", "\\n", "\\u0041", "\"", "/", "\\/", "%", "\ufeff", "e\u0301", "null", ""]


def artifacts(ctx, srcs):
    res = ctx.ask([{"op": "artifact", "src": s} for s in srcs])
    # other processes, in another order
    other = ctx.ask([{"op": "parse", "src": s} for s in reversed(srcs)])[::-1]
    ctx.traces += len(srcs)
    recs, of = [], []
    for s, r, o in zip(srcs, res, other):
        if r.get("panic") or r.get("hang") or r.get("crash"):
            # the compiler answers, but the artifact does not
            w = o.get("ok") and "source %s: serialising: %s" % (json.dumps(s, ensure_ascii=False), describe(r))
        else:
            w = artifact_faults(s, r)
            if not w and r.get("ok") and o.get("ok") and o.get("json") != r["json"]:
                w = "source %s: serialised as %s, in another process as %s" % (json.dumps(s, ensure_ascii=False), r["json"][:500], o.get("json", "")[:500])
        if w:
            if not ctx.enough():
                ctx.violation(w, kind="artifact", src=s)
        elif r.get("ok"):
            recs.append(dict(value=r["extra"], json=tagged(r["json"])))
            of.append(s)
    ctx.note("artifacts", len(recs))
    ctx.sample({"source": of[0] if of else None})
    for i in accept(ctx, "KfArtifactTrace", "XSpec", "XReport", recs):
        if not ctx.enough():
            ctx.violation("source %s: the schema %s is written as %s, which is not a serialisation of it in the documented format" % (
                json.dumps(of[i], ensure_ascii=False), json.dumps(recs[i]["value"])[:600], json.dumps(recs[i]["json"])[:900]), kind="artifact", src=of[i])


# ------------------------------------------------------------------ C27
SOURCE_ONLY = {"ActionVisibilityAlreadySet", "ActionMutabilityAlreadySet", "ActionAuxiliaryAlreadySet"}


def object_verdict(v):
    """(may be accepted, may be rejected, kinds) for the schema object of a source."""
    if not v["schema"] or "syntax" in v["cls"]:
        return None
    cls = set(v["cls"]) - SOURCE_ONLY
    if "MultiInit" in cls:
        cls = cls - {"MultiInit"} | {"DuplicateAction"}
    hard = cls - ({"stmt"} if v["ok"] else set())
    return not hard, bool(cls), cls


def spread(st, rng):
    """A statement with other white space, for the validator's own reading."""
    out = ""
    for x in st:
        out += x["t"]
        if x["s"] == 2:
            out += rng.choice([" ", "  ", "\t", "\n"])
        elif x["s"] == 1:
            out += rng.choice(["", "", " ", "\n"])
    return out


def prune(x, how):
    """how 0: all lists there; 1: empty lists left out; 2: empty lists null."""
    if isinstance(x, dict):
        return {k: prune(y, how) for k, y in x.items() if not (how == 1 and y == [])}
    if isinstance(x, list):
        return None if how == 2 and not x else [prune(y, how) for y in x]
    return x


def novalue(s):
    for t in s["tables"]:
        for c in t["columns"]:
            for a in c["attributes"]:
                if a.get("value") == "":
                    del a["value"]
    return s


def odd(s, rng):
    """The same object as hands might build it: white space around statements, other values where
    the verdict does not look, an alias left out where it is the name."""
    for a in s.get("actions") or []:
        a["statements"] = [rng.choice(["", "", " ", "\n\t"]) + x + rng.choice(["", "", " ", "\n"]) for x in a.get("statements") or []]
        if rng.random() < 0.3:
            a["public"] = rng.random() < 0.5
            a["mutability"] = rng.choice(["view", "update", ""])
            a["auxiliaries"] = rng.choice([[], None, ["owner"]])
        if rng.random() < 0.3:
            a["annotations"] = rng.choice([None, [], ["x(a=1)"], ["x(a=1)", "x(a=1)"]])
    for e in s.get("extensions") or []:
        if e.get("alias") == e["name"] and rng.random() < 0.8:
            if rng.random() < 0.5:
                del e["alias"]
            else:
                e["alias"] = ""
        if rng.random() < 0.2:
            e["config"] = rng.choice([None, [], [{"argument": "a", "value": "1"}, {"argument": "a", "value": "2"}]])
    for t in s.get("tables") or []:
        for x in t.get("indexes") or []:
            if rng.random() < 0.2:
                x["type"] = rng.choice(["btree", "unique_btree", "primary"])
    if rng.random() < 0.2:
        s["owner"] = "0xabc"
    return s


def broken(s, rng):
    """An object that corresponds to no source; only that validating leaves it as it is can be told."""
    s = json.loads(json.dumps(s))
    nodes = []

    def walk(x):
        for k in range(len(x)) if isinstance(x, list) else sorted(x):
            nodes.append((x, k))
            if isinstance(x[k], (dict, list)):
                walk(x[k])
    walk(s)
    for x, k in rng.sample(nodes, min(len(nodes), rng.choice([1, 1, 2, 4]))):
        try:
            y = x[k]
        except (KeyError, IndexError):
            continue
        if isinstance(y, list):
            x[k] = rng.choice([None, [], y + y, y[::-1], y[:1]])
        elif isinstance(y, str):
            x[k] = rng.choice(["", y.upper(), y.swapcase(), " " + y, y + " ", y + "\n", y + y, y + ";", "\t"])
        elif isinstance(y, bool):
            x[k] = not y
        elif isinstance(x, list) and len(x) > 1:
            x[k] = json.loads(json.dumps(x[(k + 1) % len(x)]))
    return s


def object_faults(v, r):
    may_ok, may_fail, cls = object_verdict(v)
    if r.get("bad"):
        return "; ".join(r["bad"])
    if r.get("panic") or r.get("hang") or r.get("crash"):
        return describe(r)
    real = set((r.get("err") or {}).get("cls", []))
    if r["ok"] and not may_ok:
        return "accepted, expected %s" % sorted(cls)
    if not r["ok"] and not may_fail:
        return "rejected (%s), expected acceptance" % r["err"]["msg"][:300]
    if not r["ok"] and not real & cls:
        return "rejected with %s (%s), expected %s" % (sorted(real), r["err"]["msg"][:200], sorted(cls))
    return None


def check_objects(ctx):
    fams = [("C27", 1), ("Sem", 1 if ctx.deep else 4), ("C02", 1 if ctx.deep else 5), ("C04", 1 if ctx.deep else 3), ("C18", 1 if ctx.deep else 3), ("Pool", 1)]
    known = {x for p in ("C14", "C27") for x in known_sources(p)}
    seen = {}
    for fam, st in fams:
        for v in ctx.vectors(fam, stride=st):
            if v["src"] not in known and object_verdict(v):
                seen[v["src"]] = v
        ctx.log("family %s" % fam)
    vecs = [seen[k] for k in sorted(seen)]
    objects(ctx, vecs)
    good = given_objects(ctx, known)
    # what the parser returned is valid
    srcs = [v["src"] for v in vecs if v["ok"]] + good + gen.sources(ctx.seed + 3, 4000 if ctx.deep else 500, 0.02, 2.0)
    round_trip(ctx, sorted(set(srcs) - known))


def given_objects(ctx, known):
    """Objects of random and of rarely behaving documents, whose meaning TLC tells."""
    from .compile_checks import ask_sql
    seed = ctx.seed * 999983 + 27
    sql = ask_sql(ctx, gen.sql_texts(seed, 600 if ctx.deep else 150))
    good, bad = [x for x in sql if sql[x] == "good"], [x for x in sql if sql[x] == "bad"]
    used = set()
    some = guide.sources(ctx, ANY + ["C08", "C09", "C10", "C11", "C12", "C13", "C14"], 1500 if ctx.deep else 260, good, bad, used, 0.5, 1.5, do=("parse", "json"),
                         chars=2000000 if ctx.deep else 400000)
    some += gen.sources(seed, 1000 if ctx.deep else 100, 0.5, 1.5, "", good, bad, used)
    sql.update(ask_sql(ctx, sorted(used - set(sql))))
    some = sorted(set(some) - known)
    random.Random(seed).shuffle(some)
    vecs = [v for v in ctx.meanings(some, sql) if object_verdict(v)]
    ctx.note("given_sources", len(vecs))
    objects(ctx, vecs)
    return [v["src"] for v in vecs if v["ok"]]


def known_sources(prop):
    from .core import load_findings
    return [x for x, _ in load_findings(prop) if isinstance(x, str)]


def objects(ctx, vecs):
    jobs = []
    for v in vecs:
        rng = random.Random(zlib.crc32(v["src"].encode()) + ctx.seed)
        sch = json.loads(json.dumps(v["schema"][0]))
        jobs.append((v, prune(novalue(expected(sch)), zlib.crc32(v["src"].encode()) % 3)))
        if any(len(st) > 1 for a in sch["actions"] for st in a["statements"]):
            wide = dict(sch, actions=[dict(a, statements=[spread(st, rng) for st in a["statements"]]) for a in sch["actions"]])
            jobs.append((v, novalue(json.loads(json.dumps(wide)))))
        if v["ok"] or rng.random() < 0.5:
            jobs.append((v, odd(prune(novalue(expected(json.loads(json.dumps(v["schema"][0])))), rng.randrange(3)), rng)))
    res = ctx.ask([{"op": "validate", "schema": s} for _, s in jobs])
    ctx.traces += len(jobs)
    ctx.note("objects", len(jobs))
    unchanged(ctx, [s for _, s in jobs])
    ctx.sample({"object": jobs[len(jobs) // 2][1], "verdict": describe(res[len(jobs) // 2])[:200]})
    for (v, s), r in zip(jobs, res):
        if r.get("skipped"):
            continue
        ctx.note("objects_accepted" if r.get("ok") else "objects_rejected")
        w = object_faults(v, r)
        if w and not ctx.enough():
            ctx.violation("schema object %s (source %s): %s" % (json.dumps(s, ensure_ascii=False)[:700], json.dumps(v["src"], ensure_ascii=False), w),
                          kind="object", v=v, schema=s)


def unchanged(ctx, objs):
    """Validating is a step that changes nothing in the schema, whatever the schema is."""
    some = [broken(s, random.Random(ctx.seed * 7919 + i)) for i, s in enumerate(objs)]
    res = ctx.ask([{"op": "validate", "schema": s} for s in some])
    ctx.traces += len(some)
    ctx.note("objects_of_no_source", len(some))
    for s, r in zip(some, res):
        w = [x for x in r.get("bad") or [] if "changed" in x]
        if w and not ctx.enough():
            ctx.violation("schema object %s: %s" % (json.dumps(s, ensure_ascii=False)[:700], w[0]), kind="same", schema=s)


def round_trip(ctx, srcs):
    res = ctx.ask([{"op": "parse", "src": s} for s in srcs])
    good = [(s, r["json"]) for s, r in zip(srcs, res) if r.get("ok") and r.get("json")]
    out = []
    for s, j in good:
        try:
            json.loads(j)
            out.append((s, j))
        except ValueError:
            ctx.note("not_json")      # C21 tells about it
    res = ctx.ask([{"op": "validate", "schema": json.loads(j)} for _, j in out])
    ctx.traces += len(out)
    ctx.note("round_trips", len(out))
    for (s, j), r in zip(out, res):
        if r.get("skipped"):
            continue
        w = "; ".join(r["bad"]) if r.get("bad") else None if r.get("ok") else describe(r)
        if w and not ctx.enough():
            ctx.violation("source %s is compiled, but its decoded schema is judged: %s" % (json.dumps(s, ensure_ascii=False), w), kind="trip", src=s)


def replay_objects(ctx, cases):
    for c in cases:
        if c["kind"] == "object":
            r = ctx.ask([{"op": "validate", "schema": c["schema"]}])[0]
            ctx.traces += 1
            w = object_faults(c["v"], r)
            if w:
                ctx.violation("schema object %s: %s" % (json.dumps(c["schema"])[:700], w), **{k: c[k] for k in ("kind", "v", "schema")})
        elif c["kind"] == "same":
            r = ctx.ask([{"op": "validate", "schema": c["schema"]}])[0]
            ctx.traces += 1
            if any("changed" in x for x in r.get("bad") or []):
                ctx.violation("schema object %s: %s" % (json.dumps(c["schema"])[:700], r["bad"][0]), kind="same", schema=c["schema"])
        else:
            round_trip(ctx, [c["src"]])


# ------------------------------------------------------------------ C17
def realise(v):
    """The bytes of an input of KfRobust."""
    if "nest" in v:
        n = v["nest"]
        return (n["pre"] + n["open"] * v["depth"] + n["mid"] + n["close"] * v["depth"] + n["post"]).encode()
    b = v["base"].encode()
    for e in v["edits"]:
        i, j, x, op = e["i"], e["j"], bytes(e["b"]), e["op"]
        if op == "cut":
            b = b[:i]
        elif op == "tail":
            b = b[i:]
        elif op == "del":
            b = b[:i] + b[j:]
        elif op == "put":
            b = b[:i] + x + b[i:]
        elif op == "set":
            b = b[:i] + x + b[i + 1:]
        elif op == "cut+put":
            b = b[:i] + x
        elif op == "swap":
            if j < len(b):
                c = bytearray(b)
                c[i], c[j] = c[j], c[i]
                b = bytes(c)
        elif op == "again":
            b = b[:i] + b[i:j] * e["b"][0] + b[j:]
        else:
            raise CheckError("edit %s" % op)
    return b


def outcome(r, probe, want):
    gone = bool(r.get("panic") or r.get("hang") or r.get("crash"))
    js = False
    if r.get("ok"):
        try:
            js = isinstance(json.loads(r.get("json", "")), dict) and not r.get("jerr")
        except ValueError:
            pass
    return dict(returned=not gone, schema=bool(r.get("ok")) and not r.get("nil"), error=r.get("err") is not None, json=js,
                serves=answer(probe) == want)


def raw(b):
    import base64
    return {"op": "parse", "raw": base64.b64encode(b).decode()}


def feed(ctx, inputs, timeout=60):
    """[(outcome, reply)] of feeding each input, and a good source right afterwards, to a running parser."""
    from .cli_checks import pooled
    exe = ctx.build()
    n = min(CORES, max(1, len(inputs) // 20))
    a0 = Adapter(exe, timeout=30)
    first = a0.ask({"op": "parse", "src": GOODSRC})
    a0.close()
    want = answer(first)
    bad = []

    def work(k):
        a, out = Adapter(exe, timeout=timeout), []
        for i in range(k, len(inputs), n):
            if len(bad) >= 6:
                out.append((i, None, None))
                continue
            r = a.ask(raw(inputs[i]))
            p = a.ask({"op": "parse", "src": GOODSRC}, timeout=30)
            o = outcome(r, p, want)
            if not o["returned"]:
                bad.append(i)
            out.append((i, o, r))
        a.close()
        return out
    res = [None] * len(inputs)
    for part in pooled(list(range(n)), work):
        for i, o, r in part:
            res[i] = (o, r)
    return res


def check_robust(ctx):
    ctx.tlc("KfRobust", dict(Deep=False, Stride=97, Off=ctx.seed % 97), "BSpec", ["StaysUp", "SaysOne"], properties=["Replies"], shards=1)
    st = 1 if ctx.deep else 5
    vs = printed(ctx.tlc("KfRobust", dict(Deep=ctx.deep, Stride=st, Off=ctx.seed % st), "BSpec", ["StaysUp", "SaysOne", "BEmit"], shards=CORES))
    ctx.log("%d inputs" % len(vs))
    inputs = {realise(v): v for v in vs}
    rng = random.Random(ctx.seed)
    base = [s.encode() for s in gen.sources(ctx.seed + 1, 300, 0.1, 1.0)] + [realise(v) for v in vs[:50] if "nest" not in v]
    base = [b for b in base if b]
    for _ in range(20000 if ctx.deep else 2000):
        inputs.setdefault(gen.bend(rng.choice(base), rng, base), None)
    some = guide.sources(ctx, ANY, 4000 if ctx.deep else 800, faulty=0.1, do=("parse", "trace", "listen"), spoil=0.0, grammar=True, bytes_=True)
    inputs.update((b, None) for b in some if b not in inputs)
    keys = sorted(inputs, key=lambda b: (len(b), b))
    rng.shuffle(keys)
    res = feed(ctx, keys)
    judge_robust(ctx, keys, res, inputs)
    robust_findings(ctx)


def judge_robust(ctx, keys, res, of):
    recs, at = [], []
    distinct = {}
    for b, (o, r) in zip(keys, res):
        if o is None:
            ctx.note("skipped")
            continue
        ctx.traces += 1
        ctx.note("answered_schema" if o["schema"] else "answered_error")
        k = json.dumps(o, sort_keys=True)
        if k not in distinct:
            distinct[k] = len(recs)
            recs.append(o)
            at.append([])
        at[distinct[k]].append((b, r))
    ctx.note("inputs", len(keys))
    ctx.sample({"bytes": keys[len(keys) // 2][:200].decode("utf-8", "backslashreplace")})
    for i in sorted(accept(ctx, "KfRobustTrace", "YSpec", "YReport", recs, dict(Deep=False, Stride=1000000, Off=0), shards=1)):
        for b, r in sorted(at[i], key=lambda x: len(x[0]))[:3]:
            if ctx.enough():
                break
            (o2, r2), = feed(ctx, [b], timeout=100)
            if o2 != recs[i]:
                ctx.note("not_reproduced")
                continue
            v = of.get(b)
            what = v if v and "nest" in v else b[:300].decode("utf-8", "backslashreplace")
            ctx.violation("input %s: %s, observed %s" % (json.dumps(what), describe(r2), recs[i]), kind="bytes", hex=b.hex() if len(b) < 100000 else None, input=v)


def robust_findings(ctx):
    for inp, what in ctx.findings:
        b = (inp["pre"] + inp["open"] * inp["depth"] + inp["mid"] + inp["close"] * inp["depth"] + inp["post"]).encode()
        a = Adapter(ctx.build(), timeout=8 if inp["depth"] < 100 else 60)
        r = a.ask(raw(b))
        a.kill()
        if r.get("hang") or r.get("crash") or r.get("panic"):
            ctx.known.append("%s (input %s)" % (what, json.dumps(inp)))
        else:
            ctx.note("finding_gone")


def replay_robust(ctx, cases):
    keys = [bytes.fromhex(c["hex"]) if c["hex"] else realise(c["input"]) for c in cases]
    judge_robust(ctx, keys, feed(ctx, keys, timeout=100), dict(zip(keys, [c["input"] for c in cases])))

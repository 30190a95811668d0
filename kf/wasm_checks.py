"""C25: the WebAssembly build, run under node, against the native parser."""
import json
import os
import random
import shutil

from . import gen, guide
from .core import CORES, REPO, Adapter, CheckError, go_env, run
from .lib_checks import GOODSRC, printed
from .model import describe


def build(ctx):
    out = os.path.join(ctx.work, "k.wasm")
    ctx.go_build(out, "./wasm", cwd=REPO, env=dict(GOOS="js", GOARCH="wasm"))
    root = run(["go", "env", "GOROOT"], env=go_env()).stdout.strip()
    ex = next((p for p in (os.path.join(root, d, "wasm_exec.js") for d in ("lib/wasm", "misc/wasm")) if os.path.exists(p)), None)
    node = shutil.which("node")
    if not ex or not node:
        raise CheckError("no node or no wasm_exec.js")
    sh = os.path.join(ctx.work, "drive.sh")
    with open(sh, "w") as f:
        f.write('#!/bin/sh\nexec "%s" "%s" "%s" "%s" "$1"\n' % (
            node, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/wasm/drive.js"), ex, out))
    os.chmod(sh, 0o755)
    return sh


def told(c, r, native):
    """What is wrong with the answer to one call; native: the reply of the native parser."""
    if r.get("thrown") or r.get("dead"):
        return "the instance fails: %s %s" % (r.get("thrown", ""), r.get("dead", ""))
    if native is None:                                   # a bad call
        if r["type"] == "undefined":
            return "a bad call is not answered"
        if r["type"] == "object" and r.get("json") and not r.get("error"):
            return "a bad call is answered with a schema: %s" % r["json"][:200]
        return None
    if native.get("panic") or native.get("hang"):
        return None
    if r["type"] != "object":
        return "answered with a %s: %s" % (r["type"], r.get("value", "")[:200])
    if native["ok"]:
        if r["error"]:
            return "error %s, natively %s" % (r["error"][:300], describe(native))
        if r["json"] != native["json"]:
            return "json %s, natively %s" % (str(r["json"])[:500], native["json"][:500])
    else:
        if r["json"]:
            return "json %s, natively %s" % (str(r["json"])[:300], describe(native))
        if not r["error"] or native["err"]["msg"] not in r["error"]:
            return "error %s, natively %s" % (r["error"], describe(native))
    return None


def judge(calls, reply, native):
    if reply.get("hang") or reply.get("crash"):
        return "no answer: %s" % describe(reply)
    for k, (c, r) in enumerate(zip(calls, reply["out"])):
        n = native.get(c[0]) if len(c) == 1 and isinstance(c[0], str) else None
        w = told(c, r, n)
        if w:
            return "call %d, parseKuneiform(%s)%s: %s" % (k + 1, brief(c),
                                                          " after %s" % brief(calls[max(0, k - 2):k]) if k else "", w)
    if len(reply["out"]) < len(calls):
        return "the instance stopped"
    return None


def brief(c):
    t = ", ".join(json.dumps(x, ensure_ascii=False) for x in c)
    return t if len(t) <= 800 else t[:400] + " ... " + t[-400:]


def histories(ctx, exe, jobs, native):
    """jobs: (calls, fresh)"""
    from .cli_checks import pooled
    n = min(CORES, max(1, len(jobs) // 10))

    def work(k):
        a, out = Adapter(exe, timeout=120), []
        for i in range(k, len(jobs), n):
            out.append((i, a.ask({"calls": jobs[i][0], "fresh": jobs[i][1]})))
        a.close()
        return out
    for part in pooled(list(range(n)), work):
        for i, r in part:
            ctx.traces += 1
            w = judge(jobs[i][0], r, native)
            if w and not ctx.enough():
                a = Adapter(exe, timeout=120)
                w2 = judge(jobs[i][0], a.ask({"calls": jobs[i][0], "fresh": True}), native)
                a.close()
                ctx.violation(w2 or w, kind="wasm", calls=jobs[i][0])


BAD = {0: [], 2: ["database d;", "database e;"], 3: ["database d;", 1, {"special": "$null"}]}
ODD = [[1], [{"special": "$null"}], [{"special": "$undefined"}], [{"special": "$object"}], [{"special": "$true"}], [{"special": "$fn"}], [{"special": "$array"}]]


def check(ctx):
    exe = build(ctx)
    ctx.log("built")
    v = printed(ctx.tlc("KfWasm", dict(Calls=2, Source=99), "WSpec", ["KeepsRunning", "AsFresh", "JsonXorError", "WEmit", "WPool"]))
    if ctx.deep:
        v += [x for x in printed(ctx.tlc("KfWasm", dict(Calls=3, Source=12), "WSpec", ["KeepsRunning", "AsFresh", "JsonXorError", "WEmit"])) if "calls" in x]
    src = {x["i"]: x["src"] for x in v if "src" in x}
    hist = [[[src[c["src"]]] if c["args"] == 1 else BAD[c["args"]] for c in x["calls"]] for x in v if "calls" in x]
    rng = random.Random(ctx.seed)
    more = [x["src"] for fam, st in (("Mix", 3 if ctx.deep else 23), ("Sem", 3 if ctx.deep else 17), ("C18", 5 if ctx.deep else 29)) for x in ctx.vectors(fam, stride=st)]
    more += guide.sources(ctx, ["", "C01", "C02", "C03", "C04", "C05", "C06"], 3000 if ctx.deep else 300, faulty=0.3, spoil=0.3, do=("parse", "json"), grammar=True)
    more += gen.spoil(gen.sources(ctx.seed + 21, 2000 if ctx.deep else 250, 0.2, 1.5), ctx.seed)
    more += ["\u00e9", "\U0001f600", "\ufeffdatabase d;", "database d; table t { a text default('\u2028<\U0001f600>') }", "\x00", "database d;\x00", GOODSRC, GOODSRC * 3]
    for s in rng.sample(more, 24 if ctx.deep else 8):      # behind a long stretch of layout
        more.append(rng.choice([" ", "\n", "// x\n"]) * rng.choice([20000, 66000, 140000, 300000]) + s)
    more = sorted(set(more))
    allsrc = sorted(set(src.values()) | set(more))
    native = dict(zip(allsrc, ctx.ask([{"op": "parse", "src": s, "via": "nil"} for s in allsrc])))
    jobs = [(h, False) for h in hist]
    some = rng.sample(hist, 40 if ctx.deep else 16)
    jobs += [(h, True) for h in some] + [([[s] for s in src.values()], True)]
    for k in range(0, len(more), 25):                       # long histories with bad calls among them
        cs = [[s] for s in more[k:k + 25]]
        cs.insert(rng.randrange(len(cs)), BAD[rng.choice([0, 2, 3])])
        cs.insert(rng.randrange(len(cs)), rng.choice(ODD))
        jobs.append((cs, False))
    rng.shuffle(jobs)
    ctx.note("histories", len(jobs))
    ctx.note("calls", sum(len(j[0]) for j in jobs))
    ctx.sample({"history": jobs[0][0][:3]})
    histories(ctx, exe, jobs, native)
    for inp, what in ctx.findings:
        s = inp["pre"] + inp["open"] * inp["depth"] + inp["mid"] + inp["close"] * inp["depth"] + inp["post"]
        a = Adapter(exe, timeout=60)
        w = judge([[s]], a.ask({"calls": [[s]], "fresh": True}), {s: ctx.ask([{"op": "parse", "src": s, "via": "nil"}])[0]})
        a.kill()
        if w:
            ctx.known.append("%s (input %s)" % (what, json.dumps(inp)))
        else:
            ctx.note("finding_gone")


def replay(ctx, cases):
    exe = build(ctx)
    for c in cases:
        srcs = sorted({x[0] for x in c["calls"] if len(x) == 1 and isinstance(x[0], str)})
        native = dict(zip(srcs, ctx.ask([{"op": "parse", "src": s, "via": "nil"} for s in srcs])))
        histories(ctx, exe, [(c["calls"], True)], native)

"""Choosing runs that are worth judging.

Many random sources are run on a build of the current tree with coverage and comparison
hooks (harness/guide); those that take rare branches, or come near a comparison nobody met,
are kept, varied further, and finally handed to the trace checks.  Nothing is judged here."""
import base64
import collections
import json
import os
import subprocess
import sys
import threading
import time
import zlib

if __package__:
    from .core import CORES, REPO, Adapter, go_env, run, VERIF
else:
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from kf.core import CORES, REPO, Adapter, go_env, run, VERIF  # noqa
from kf import gen  # noqa

CMP = 1 << 22
MOD = "github.com/kwilteam/kuneiform"


def build(ctx, grammar=False):
    """The instrumented build, or None where it cannot be made."""
    out = os.path.join(ctx.work, "guide-g" if grammar else "guide")
    if os.path.exists(out):
        return out
    h = os.path.join(VERIF, "harness")
    mod = out + "-mod"
    os.makedirs(mod, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        with open(os.path.join(h, f)) as a, open(os.path.join(mod, f), "w") as b:
            b.write(a.read())
    flags = ["-gcflags=%s/...=-d=libfuzzer" % MOD] + ([] if grammar else ["-gcflags=%s/kfgrammar/...=" % MOD])
    r = run(["go", "build", "-modfile", os.path.join(mod, "go.mod")] + flags + ["-ldflags=-checklinkname=0", "-o", out, "./guide"], cwd=h, env=go_env())
    if r.returncode != 0:
        ctx.log("no guided sources: " + r.stdout[-600:])
        ctx.note("unguided")
        return None
    return out


def vocabulary(exe):
    a = Adapter(exe, timeout=30)
    try:
        r = a.ask({"op": "vocab", "dir": REPO})
    finally:
        a.close()
    return [r.get("ints") or [], r.get("strs") or []]


def worker():
    c = json.load(sys.stdin)
    import random
    rng = random.Random(c["seed"])
    gen.HINTS.learn(*c["vocab"])
    a = Adapter(c["exe"], timeout=20)
    end = time.time() + c["seconds"]
    kept, corpus, done, dead = [], [], 0, 0
    size = 0
    while done < c["count"] and time.time() < end and dead < 20:
        done += 1
        g = gen.drawer(rng, rng.choice(c["theme"]), c["big"], c["good"], c["bad"])
        base = None
        if corpus and rng.random() < min(0.7, done / 300):
            base = rng.choice(corpus[-60:] if rng.random() < 0.5 else corpus)
            try:
                d = gen.evolved(g, base[0], rng.choice(corpus)[0], c["faulty"])
            except (IndexError, ValueError, KeyError):
                base = None
        if base is None:
            d = gen.drawn(g, c["faulty"])
        s = gen.written(g, d, c["faulty"])
        if rng.random() < c["spoil"]:
            s = (gen.spoil([s], rng.randrange(1 << 30)) or [s])[0]
        if c["bytes"]:
            b = s.encode("utf-8", "replace") if not kept or rng.random() < 0.2 else bytes.fromhex(rng.choice(kept[-60:] if rng.random() < 0.5 else kept)[0])
            if kept:
                b = gen.bend(b, rng, [bytes.fromhex(rng.choice(kept)[0]) for _ in range(3)])
            s = b.hex()
        if len(s) > 20000 or not s or not c["bytes"] and gen.deepest(s.encode("utf-8", "replace")) > 6:
            continue
        size += len(s)
        r = a.ask({"op": "try", "raw": base64.b64encode(b).decode(), "do": c["do"]} if c["bytes"] else {"op": "try", "src": s, "do": c["do"]})
        if r.get("hang") or r.get("crash") or r.get("panic"):
            dead += 1
            r["rare"] = [0xFFFFFFFF]
        if r.get("rare"):
            kept.append((s, r["rare"], sorted(gen.sqls_of(d))))
            corpus.append((d, len(s)))
            if len(corpus) > 400:
                corpus.sort(key=lambda x: x[1])
                corpus = corpus[:100] + rng.sample(corpus[100:], 200)
        if done % 150 == 0:
            h = a.ask({"op": "hints"})
            gen.HINTS.learn(h.get("ints") or [], h.get("strs") or [])
    counts = a.ask({"op": "counts"}).get("counts") or {}
    a.close()
    rare = {int(k) for k, n in counts.items() if n <= 10}
    last = {}
    for i, (s, f, q) in enumerate(kept):
        for x in f:
            if x in rare or x == 0xFFFFFFFF or last.get(x, 0) < 2:
                last[x] = last.get(x, 0) + 1
    out = []
    seen = collections.Counter()
    for s, f, q in sorted(kept, key=lambda x: len(x[0])):
        f = [x for x in f if x in rare or x == 0xFFFFFFFF or seen[x] < 1]
        if f:
            out.append((s, f, q))
            seen.update(f)
    json.dump(dict(kept=out, counts=counts, done=done, size=size), sys.stdout)


def words(ctx):
    """Words the code under test mentions, and the keywords with such words around them."""
    exe = build(ctx)
    try:
        ints, strs = vocabulary(exe) if exe else ([], [])
    except Exception:       # noqa
        return []
    gen.HINTS.learn(ints, strs)
    out = {w for w in gen.HINTS.texts + gen.HINTS.idents if w.isascii() and w.isprintable() and len(w) < 40}
    near = sorted(w for w in out if len(w) <= 3) + sorted(gen.HINTS.idents)[:150]
    for k in ("int", "text", "primary", "notnull", "unique", "index"):
        for w in near:
            out |= {k + w, w + k}
        for n in gen.HINTS.sizes:
            if n <= 64:
                out |= {(k * n)[:n], k + k[-1] * max(0, n - len(k)), k + " " * max(0, n - len(k))}
    return sorted(w for w in out | {w.upper() for w in out} if w.isascii() and len(w) < 80)


def sources(ctx, theme, budget, good=(), bad=(), used=None, faulty=0.5, big=1.0, do=("parse",), spoil=False, grammar=False, salt="", count=None, seconds=None,
            chars=600000, bytes_=False):
    """The most telling of many random sources."""
    exe = build(ctx, grammar)
    if exe is None:
        return []
    try:
        voc = vocabulary(exe)
    except Exception:       # noqa
        return []
    # the constants go to the other generators too
    gen.HINTS.learn(*voc)
    n = CORES
    count = count or (24000 if ctx.deep else 2400)
    seconds = seconds or (150 if ctx.deep else 14)
    procs, outs = [], [None] * n

    def one(k):
        cfg = dict(exe=exe, theme=[theme] if isinstance(theme, str) else list(theme), seed="%s %s %s %d" % (ctx.seed, ctx.prop, salt, k), vocab=voc, count=count, seconds=seconds, faulty=faulty, big=big,
                   good=list(good), bad=list(bad), do=list(do), spoil=float(spoil), bytes=bytes_)
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        procs.append(p)
        try:
            o, e = p.communicate(json.dumps(cfg), timeout=seconds + 60)
            outs[k] = json.loads(o)
        except (ValueError, subprocess.TimeoutExpired):
            p.kill()
            ctx.note("guide_lost")
            if os.environ.get("KF_DEBUG"):
                print(e)
    ts = [threading.Thread(target=one, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    total = collections.Counter()
    kept = []
    for o in outs:
        if o:
            total.update({int(k): v for k, v in o["counts"].items()})
            kept += o["kept"]
            ctx.note("guide_tried", o["done"])
    ctx.note("guide_kept", len(kept))
    ctx.note("guide_features", len(total))
    kept.sort(key=lambda x: (len(x[0]), x[0]))
    # what was reached at all, how often it was, and what was compared
    reach = collections.Counter()
    for x, n in total.items():
        if x < CMP:
            reach[x >> 3] += n
    tried = max(1, sum(o["done"] for o in outs if o))
    by = collections.defaultdict(list)
    for i, (s, f, q) in enumerate(kept):
        for x in f:
            by[0, x >= CMP, x].append(i)
            if x < CMP:
                by[1, x >> 3].append(i)

    def rank(k):
        return (0, reach[k[1]], k[1]) if k[0] else (1, total.get(k[2], 0), k[2])

    def wants(k):
        if k[0]:
            p = reach[k[1]] / tried
            return 8 if p < 0.002 else 5 if p < 0.02 else 3 if p < 0.2 else 1
        return 1
    chosen, spent = {}, 0
    have = collections.Counter()
    for k in sorted(by, key=rank):
        for i in by[k]:
            if have[k] >= wants(k) or len(chosen) >= budget or spent > chars:
                break
            if i in chosen:
                continue
            chosen[i] = 1
            spent += len(kept[i][0])
            for x in set(kept[i][1]):
                have[0, x >= CMP, x] += 1
            for x in {x >> 3 for x in kept[i][1] if x < CMP}:
                have[1, x] += 1
    out = sorted({kept[i][0] for i in chosen})
    if used is not None:
        for i in chosen:
            used.update(kept[i][2])
    ctx.note("guided_sources", len(out))
    return [bytes.fromhex(x) for x in out] if bytes_ else out


if __name__ == "__main__":
    worker()

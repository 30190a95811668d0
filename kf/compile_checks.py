"""The checks of C01-C16 and C18: what the compiler answers to a source text."""
import json
import os
import random
import re
import zlib

from . import gen, guide
from .model import KINDS, describe, expected, listof, normal, padding, part, relay

# per property: the families explored, with (quick stride, thorough stride, thorough uses larger bounds)
FAMILIES = {
    "C01": [("C01", 1, 1)], "C02": [("C02", 1, 1)], "C03": [("C03", 1, 1)], "C04": [("C04", 1, 1)],
    "C05": [("C05", 1, 1)], "C06": [("C06", 1, 1)], "C07": [("C07", 1, 1)], "C08": [("C08", 1, 1)],
    "C09": [("C09", 1, 1)], "C10": [("C10", 1, 1)], "C11": [("C11", 1, 1)], "C12": [("C12", 1, 1)],
    "C13": [("C13", 1, 1)], "C14": [("C14", 1, 1)], "C15": [("C15", 11, 1), ("C15f", 1, 1), ("C15g", 5, 1), ("C15b", 3, 1), ("C15c", 4, 1), ("C15d", 2, 1), ("C15e", 1, 1)],
    "C16": [("C16", 1, 1)], "C18": [("C18", 1, 1), ("C15", 13, 2), ("C15f", 2, 1), ("C15g", 23, 2)],
}
# in these families a valid source has to be accepted for the property to hold
ACCEPT = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16"}
FAITHFUL = {"C01", "C02", "C03", "C04", "C05", "C06", "C07"}


def broken(r):
    """The compiler gave no answer at all."""
    return bool(r.get("panic") or r.get("hang") or r.get("crash"))


def judge(prop, v, r, relaid):
    """None, or what is wrong with answer r to vector v, or with what another entry point answers."""
    for x in [r] + r.get("alt", []):
        w = judge1(prop, v, x, relaid)
        if w:
            return w + (" (%s)" % ENTRY[x["value"]] if x is not r else "")
    return None


ENTRY = {"Parse": "through Parse", "nil": "through ParseKF without a listener"}


def judge1(prop, v, r, relaid):
    if r.get("skipped"):
        return None
    cls = set(v["cls"])
    real = set((r.get("err") or {}).get("cls", []))
    kinds = KINDS.get(prop, set())
    must_ok, may_ok = not v["fail"], v["ok"]
    if prop == "C15":
        if broken(r):
            return "no answer to a %s source: %s" % ("grammatical" if "syntax" not in cls else "ungrammatical", describe(r))
        if ("syntax" in cls) != ("syntax" in real):
            return "source is %s, but %s" % ("ungrammatical" if "syntax" in cls else "grammatical", describe(r))
        if "syntax" in cls and r["ok"]:
            return "ungrammatical source " + describe(r)
        return None
    if prop == "C18":
        if broken(r) or r["ok"]:
            return None
        if must_ok:
            return "a source without fault is " + describe(r)
        if not real & cls:
            return "faults of the source: %s, but %s" % (sorted(cls), describe(r))
        if cls == {"syntax"} and not relaid:
            e = r["err"]
            if [e["line"], e["col"]] not in v["at"]:
                return "syntax error belongs at %s, but %s" % (v["at"], describe(r))
        return None
    if broken(r):
        if must_ok and prop in ACCEPT or cls and cls <= kinds:
            return "expected %s, but %s" % ("acceptance" if must_ok else sorted(cls), describe(r))
        return None
    if must_ok:
        if not r["ok"]:
            if prop in ACCEPT or real & kinds:
                return "valid source is " + describe(r)
            return None
    elif not may_ok:
        if cls <= kinds:
            if r["ok"]:
                return "expected %s, but %s" % (sorted(cls), describe(r))
            if not real & cls:
                return "expected %s, but %s" % (sorted(cls), describe(r))
        return None
    if not r["ok"]:
        return None
    # both accept: the schema
    if prop in FAITHFUL or prop == "C16":
        if not r.get("json"):
            return "accepted without an artifact: %s" % describe(r)
        try:
            got = normal(r["json"])
        except (ValueError, AttributeError, TypeError) as e:
            return "artifact cannot be read (%s): %s" % (e, r["json"][:300])
        want = expected(v["schema"][0])
        a, b = part(prop, want), part(prop, got)
        if a != b:
            return "compiled to %s, expected %s" % (json.dumps(b, ensure_ascii=False)[:900], json.dumps(a, ensure_ascii=False)[:900])
    return None


def shown(s):
    t = json.dumps(s, ensure_ascii=False)
    return t if len(t) < 6000 else "(%d characters) %s ... %s" % (len(s), t[:1500], t[-1500:])


def confirm(ctx, prop, v, src, relaid):
    """Asks a fresh process once more."""
    a = ctx.adapter()
    r = a.ask({"op": "parse", "src": src, "kind": "both"}, timeout=60)
    a.close()
    return judge(prop, v, r, relaid), r


def close_open(ctx, vecs):
    """Verdicts the specification left open because of SQL it has no verdict on, given what
    the SQL library itself says about it."""
    todo = {}
    for v in vecs:
        if v["ok"] and v["fail"] and v["schema"]:
            todo[v["src"]] = [st[0]["t"][:-1].rstrip(" \t\r\n") for a in v["schema"][0]["actions"] for st in a["statements"]
                              if len(st) == 1 and st[0]["t"].endswith(";")]
    lib = ask_sql(ctx, sorted({t for ts in todo.values() for t in ts}))
    for v in vecs:
        vs = [lib.get(t) for t in todo.get(v["src"], [None])]
        if v["ok"] and v["fail"] and "bad" in vs:
            v["ok"] = False
        elif v["ok"] and v["fail"] and None not in vs:
            v["fail"], v["cls"] = False, []
        else:
            continue
        ctx.note("closed_by_sql_library")


def replay_vectors(ctx, prop, vecs, layouts=1):
    """Runs the code on every vector (and other layouts of it) and compares."""
    close_open(ctx, vecs)
    known = {x for x, _ in ctx.findings if isinstance(x, str)}
    jobs = []
    for v in vecs:
        if v["src"] in known:
            continue
        jobs.append((v, v["src"], False))
        if v["schema"] and v["toks"]:
            for k in range(layouts):
                jobs.append((v, relay(v["toks"], zlib.crc32(v["src"].encode()) * 31 + ctx.seed * 7 + k), True))
    # and far away from the beginning of the text
    rng = ctx.rng("bulk" + prop)
    for v in rng.sample(vecs, min(len(vecs), 40 if ctx.deep else 14)):
        if v["src"] in known:
            continue
        if v["toks"] and v["schema"] and rng.random() < 0.6:
            jobs.append((v, relay(v["toks"], rng.random(), bulk=True), True))
        else:
            pad, n = padding(rng)
            jobs.append((dict(v, at=[[line + n, col] for line, col in v["at"]]), pad + v["src"], False))
        ctx.note("bulky_layouts")
    res = ctx.ask([{"op": "parse", "src": s, "kind": "both"} for _, s, _ in jobs])
    ctx.traces += len(jobs)
    unanswered = 0
    for (v, s, rel), r in zip(jobs, res):
        unanswered += broken(r) or bool(r.get("skipped"))
        if not rel:
            ctx.sample({"source": s[:2000], "specification": "accepted" if v["ok"] and not v["fail"] else
                        "rejected: %s" % v["cls"] if not v["ok"] else "open", "code": describe(r)[:300]})
            ctx.note("accepted" if r.get("ok") else "rejected")
            if v["ok"] and v["fail"]:
                ctx.note("open_verdict")
        w = judge(prop, v, r, rel)
        if w and not ctx.enough():
            w2, r2 = confirm(ctx, prop, v, s, rel)
            if w2:
                ctx.violation("source %s: %s" % (shown(s), w2), kind="source", src=s, vector=v, relaid=rel, answer=r2)
            else:
                ctx.note("not_reproduced")
    if unanswered:
        ctx.note("unanswered", unanswered)


def record(ctx, srcs, read=False):
    """Records of the real compiler for KfTrace; read: annotations are read back, too."""
    ans = [(s, x) for s, r in zip(srcs, ctx.ask([{"op": "parse", "src": s, "kind": "both"} for s in srcs])) for x in [r] + r.get("alt", [])]
    srcs, res = [s for s, _ in ans], [r for _, r in ans]
    recs = []
    back = {}
    if read:
        anns = sorted({x for r in res if r.get("ok") and r.get("json") for a in listof(json.loads(r["json"]).get("actions")) for x in listof(a.get("annotations"))})
        back = dict(zip(anns, [annotation(r) or UNREAD for r in ctx.ask([{"op": "ann", "src": x} for x in anns])]))
        ctx.note("annotations_read_back", len(anns))
    for s, r in zip(srcs, res):
        if r.get("skipped") or broken(r):
            ctx.note("unanswered")
            continue
        e = r.get("err") or {}
        sch = EMPTY
        if r["ok"]:
            try:
                sch = normal(r["json"])
            except (ValueError, AttributeError, TypeError):
                sch = EMPTY
        recs.append(dict(src=s, via=r.get("value", ""), ok=r["ok"], cls=e.get("cls", []), line=max(0, e.get("line", 0)), col=max(0, e.get("col", 0)), sch=sch,
                         anns=[[back.get(x) for x in a["annotations"]] for a in sch["actions"]] if read else []))
    return recs


UNREAD = dict(target="(not read)", attributes=[])
EMPTY = dict(owner="", name="", tables=[], actions=[], extensions=[])


def ask_sql(ctx, texts):
    """What the SQL library itself says about texts: {text: good, bad}; and unknown if it crashes."""
    texts = list(texts)
    out = {}
    for i in range(0, len(texts), 200):
        a = ctx.adapter()
        r = a.ask({"op": "sql", "srcs": texts[i:i + 200]})
        a.close()
        for t, v in zip(texts[i:i + 200], r.get("bad") or []):
            if v != "unknown":
                out[t] = v
    return out


OUTSIDE = re.compile("[\U00010000-\U0010ffff]")


def validate_traces(ctx, prop, recs, shards=None, sql=None):
    """TLC decides which records are behaviours of the specification."""
    if not recs:
        return []
    libf = os.path.join(ctx.work, "sql-%d.json" % len(os.listdir(ctx.work)))
    # for TLC a character outside the basic plane is two: another one stands for it, everywhere
    ns = {}

    def plane(text):
        return OUTSIDE.sub(lambda m: chr(0xe000 + ns.setdefault(m.group(), len(ns)) % 6000), text)
    with open(libf, "w", encoding="utf-8") as f:
        f.write(plane(json.dumps(dict(sql or {}, **{"select 1": "good"}), ensure_ascii=False)))
    path = os.path.join(ctx.work, "trace-%d.ndjson" % len(os.listdir(ctx.work)))
    with open(path, "w", encoding="utf-8") as f:
        for r in recs:
            f.write(plane(json.dumps(r, ensure_ascii=False)) + "\n")
    lines = ctx.tlc("KfTrace", dict(Grain="source", Prop=prop), "TraceSpec", ["Report", "MachineAgrees", "Guarantees"],
                    env={"KF_TRACE": path, "KF_SQL": libf}, override=[("SqlLib", "TraceSqlLib")], shards=shards or min(8, max(1, len(recs) // 30)))
    seen = {}
    for x in lines:
        m = re.match(r'<<"([+-])", (\d+)>>', x)
        if m:
            i = int(m.group(2))
            seen[i] = seen.get(i, "+") if m.group(1) == "+" else "-"
    if len(seen) != len(recs):
        from .core import CheckError
        raise CheckError("TLC judged %d of %d records" % (len(seen), len(recs)))
    ctx.traces += len(recs)
    return [i for i, x in sorted(seen.items()) if x == "-"]


def random_traces(ctx, prop, count, faulty, big=1.0):
    seed = ctx.seed * 1000003 + zlib.crc32(prop.encode())
    sql = ask_sql(ctx, gen.sql_texts(seed, 1500 if ctx.deep else 250))
    good, bad = [x for x in sql if sql[x] == "good"], [x for x in sql if sql[x] == "bad"]
    ctx.note("sql_texts", len(sql))
    ctx.note("sql_texts_valid", len(good))
    used = set()
    # those that take rare turns, and any
    syntax = prop in ("C15", "C18")
    some = guide.sources(ctx, prop, 2500 if ctx.deep else 320, good, bad, used, faulty, big, spoil=syntax, grammar=syntax or prop == "C16",
                         do=("parse", "ann") if prop == "C06" else ("parse",), chars=4000000 if ctx.deep else 500000)
    ctx.log("guided sources: %d" % len(some))
    srcs = gen.sources(seed, count, faulty, big, prop, good, bad, used)
    sql.update(ask_sql(ctx, sorted(used - set(sql))))
    if syntax:
        srcs = gen.spoil(srcs, ctx.seed)
    known = {x for x, _ in ctx.findings if isinstance(x, str)}
    srcs = sorted((set(srcs) | set(some)) - known)
    if prop == "C18":
        # characters of every width in front of a fault
        rng = ctx.rng("wide")
        for i, s in enumerate(srcs):
            if rng.random() < 0.35:
                at = rng.choice([0] + [k + 1 for k, c in enumerate(s) if c == "\n"])
                srcs[i] = s[:at] + rng.choice(["/*\U0001f600*/", "/* \u00e9\U00010000 */ ", "/*\U0010ffff\U0001f600\u65e5*/\t", "/*\u0301\u200d*/"]) + s[at:]
        srcs = sorted(set(srcs) - known)
    ctx.rng(prop).shuffle(srcs)      # the long ones spread over the shards
    read = prop == "C06"
    recs = record(ctx, srcs, read)
    ctx.note("random_sources", len(recs))
    ctx.note("random_characters", sum(len(r["src"]) for r in recs))
    ctx.note("random_accepted", sum(r["ok"] for r in recs))
    for i in validate_traces(ctx, prop, recs, sql=sql):
        if ctx.enough():
            break
        again = [r for r in record(ctx, [recs[i]["src"]], read) if r["via"] == recs[i]["via"]]
        if again and again[0] == recs[i] or again and validate_traces(ctx, prop, again, sql=sql) == [0]:
            ctx.violation("recorded run is not a behaviour of the specification: source %s: %s" % (
                json.dumps(recs[i]["src"], ensure_ascii=False)[:3000],
                "accepted as " + json.dumps(part(prop, recs[i]["sch"]), ensure_ascii=False)[:800] if recs[i]["ok"] else
                "rejected with %s at %d:%d" % (recs[i]["cls"], recs[i]["line"], recs[i]["col"])), kind="trace", record=recs[i],
                sql={t: v for t, v in sql.items() if t in recs[i]["src"]})
        else:
            ctx.note("not_reproduced")


def known_findings(ctx, prop, still):
    """Tells about listed findings that are still there."""
    for inp, what in ctx.findings:
        if still(inp):
            ctx.known.append("%s (input %s)" % (what, json.dumps(inp, ensure_ascii=False)))
        else:
            ctx.note("finding_gone")


def replay_cases(ctx, prop, cases):
    for c in cases:
        if c.get("kind") == "source":
            w, r = confirm(ctx, prop, c["vector"], c["src"], c["relaid"])
            ctx.traces += 1
            if w:
                ctx.violation("source %s: %s" % (shown(c["src"]), w), **{k: c[k] for k in ("kind", "src", "vector", "relaid")})
        elif c.get("kind") == "annotation":
            ctx.traces += 1
            r = ctx.ask([{"op": "ann", "src": c["stored"]}])[0]
            if annotation(r) != c["want"]:
                ctx.violation("annotation %s is read back as %s, expected %s" % (json.dumps(c["stored"]), describe(r), json.dumps(c["want"])),
                              **{k: c[k] for k in ("kind", "src", "stored", "want")})
        elif c.get("kind") == "trace":
            recs = record(ctx, [c["record"]["src"]], prop == "C06")
            for i in validate_traces(ctx, prop, recs, sql=c.get("sql"))[:1]:
                ctx.violation("recorded run is not a behaviour of the specification: %s" % json.dumps(recs[i])[:1500], kind="trace", record=recs[i],
                              sql=c.get("sql"))


def check(ctx, prop):
    for fam, qs, ts in FAMILIES[prop]:
        vecs = ctx.vectors(fam, stride=ts if ctx.deep else qs)
        ctx.log("family %s: %d sources" % (fam, len(vecs)))
        ctx.note("sources_" + fam, len(vecs))
        replay_vectors(ctx, prop, vecs, layouts=0 if prop in ("C15", "C18") else 3 if ctx.deep else 1)
        ctx.log("replayed")
    if prop == "C06":
        read_annotations(ctx, vecs)
    random_traces(ctx, prop, 6000 if ctx.deep else 400, 0.75 if KINDS.get(prop) or prop == "C18" else 0.2,
                  3.0 if ctx.deep else 1.0)
    if prop == "C14":
        def still(src):
            r = ctx.adapter().ask({"op": "parse", "src": src})
            return r.get("ok")
        known_findings(ctx, prop, still)


def read_annotations(ctx, vecs):
    """C06: what the reader makes of a stored annotation."""
    jobs, seen = [], set()
    res = ctx.ask([{"op": "parse", "src": v["src"]} for v in vecs if v["anns"]])
    for v, r in zip([v for v in vecs if v["anns"]], res):
        if not r.get("ok"):
            continue
        acts = normal(r["json"])["actions"]
        for a, anns in zip(acts, v["anns"]):
            for stored, want in zip(a["annotations"], anns):
                key = (stored, json.dumps(want))
                if key not in seen:
                    seen.add(key)
                    jobs.append((v["src"], stored, want))
    rng = random.Random(ctx.seed)
    jobs += [(src, spaced(stored, rng), want) for src, stored, want in jobs if "(" in stored]
    # what does not have the form is an error
    jobs += [(src, cut, None) for src, cut in {x: (src, x) for src, stored, _ in jobs[::7] for x in (stored[:-1], stored.replace("(", ""), stored + " ", stored[:2], "") if stored and x[-1:] != ")" or "(" not in x}.values()]
    res = ctx.ask([{"op": "ann", "src": s} for _, s, _ in jobs])
    ctx.traces += len(jobs)
    ctx.note("annotations_read_back", len(jobs))
    for (src, stored, want), r in zip(jobs, res):
        got = annotation(r)
        if want is None and (got is not None or r.get("panic")):
            ctx.violation("text %s, which is no annotation, is read as %s" % (json.dumps(stored), describe(r)), kind="annotation", src=src, stored=stored, want=want)
        elif got != want:
            ctx.violation("annotation %s of source %s is read back as %s, expected %s" % (
                json.dumps(stored), json.dumps(src), json.dumps(got) if got else describe(r), json.dumps(want)),
                kind="annotation", src=src, stored=stored, want=want)


def spaced(stored, rng):
    """A stored annotation with white space between the parts inside its parentheses."""
    i = stored.index("(")
    out, q = stored[:i + 1] + rng.choice(["", " ", "\n"]), False
    rest = stored[i + 1:-1]
    k = 0
    while k < len(rest):
        c = rest[k]
        if q and c == "\\":
            out += rest[k:k + 2]
            k += 2
            continue
        if c == "'":
            q = not q
        if not q and c in "=,":
            out += rng.choice(["", " ", "\t", "\n  "]) + c + rng.choice(["", " ", "\r\n", "   "])
        else:
            out += c
        k += 1
    return out + rng.choice(["", " ", "\n"]) + ")"


def annotation(r):
    a = r.get("ann")
    if not a or not r.get("ok"):
        return None
    low = {k.lower(): v for k, v in a.items()}
    return dict(target=low.get("target"), attributes=[
        {k.lower(): v for k, v in x.items()} for x in (low.get("attributes") or [])])

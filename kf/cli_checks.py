"""C22, C23 and the command-line half of C24: runs of the real command in scratch
worlds, judged by what spec/KfCli.tla allows."""
import json
import os
import shutil
import stat
import subprocess
import tempfile
import threading
from functools import partial

from . import gen, guide
from .core import CORES, CheckError, REPO, go_env, run
from .model import describe

NOBODY = 65534
GOOD = ("database d;\nuse ext { a: 1, b: 'x' } as e;\ntable t { id int primary notnull, nm text maxlen(10) default('q<&>'), #i unique(id, nm) }\n"
        "action act ($x) public view { select 1; e.f($x, -1); }\n")
SRC = {"good": GOOD, "syntax": "database d;\ntable t { a int ", "semantic": "database d;\ntable t { a int, a int }\n", "empty": "",
       "short": "database d;", "long": GOOD + "table u { " + ", ".join("c%d int" % i for i in range(60)) + " }\n",
       "bad": "database d; action a() { b(); }"}


class Cli:
    def __init__(self, ctx):
        self.ctx = ctx
        d = os.path.join(ctx.work, "cli")
        os.makedirs(d)
        os.chmod(ctx.work, 0o755)
        os.chmod(d, 0o755)
        self.exe = os.path.join(d, "kuneiform")
        ctx.go_build(self.exe, ".", cwd=REPO)
        os.chmod(self.exe, 0o755)
        self.json = {}
        a = ctx.adapter()
        self.a, self.lock = a, threading.Lock()
        for k in ("good", "short", "long"):
            self.artifact(SRC[k])
        self.nobody = self._try_nobody()
        self.strace = self._try_strace()
        if not self.nobody:
            ctx.assume.append("cannot become an unprivileged user here: permission cases left out")
        self.prlimit = self._try_prlimit()
        if not self.prlimit:
            ctx.assume.append("prlimit cannot be used here: partial writes left out")
        if not self.strace:
            ctx.assume.append("strace cannot be used here: injected faults left out")

    def artifact(self, src):
        """The JSON of the compiled schema (None: rejected), and the error text."""
        with self.lock:
            if src not in self.json:
                r = self.a.ask({"op": "parse", "src": src})
                if r.get("panic") or r.get("hang"):
                    raise CheckError("the library gives no answer to %r" % src)
                self.json[src] = (r["json"].encode() if r["ok"] and r.get("json") else None, (r.get("err") or {}).get("msg", ""))
            return self.json[src]

    def _try_nobody(self):
        try:
            return subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
        except (OSError, subprocess.SubprocessError, PermissionError):
            return False

    def _try_prlimit(self):
        try:
            return subprocess.run(["prlimit", "--fsize=0", "/bin/true"]).returncode == 0
        except OSError:
            return False

    def _try_strace(self):
        if not shutil.which("strace"):
            return False
        with tempfile.TemporaryDirectory(dir=self.ctx.work) as d:
            log = os.path.join(d, "log")
            r = subprocess.run(["strace", "-f", "-o", log, "-e", "trace=openat", "-e", "inject=openat:error=EIO:when=1", "-P", d + "/nope",
                                "cat", d + "/nope"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            try:
                return "INJECTED" in open(log).read() and r.returncode == 1
            except OSError:
                return False

    def run(self, cwd, argv, user=None, wrap=()):
        kw = {}
        if user is not None:
            kw = dict(user=user, group=user, extra_groups=[])
        env = {"PATH": "/usr/bin:/bin", "HOME": cwd, "TMPDIR": cwd}
        try:
            r = subprocess.run(list(wrap) + [self.exe] + argv, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=60, env=env, **kw)
        except subprocess.TimeoutExpired:
            return None, b"", b"no end"
        return r.returncode, r.stdout, r.stderr


def snapshot(root):
    s = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                s[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                s[rel] = ("dir", stat.S_IMODE(st.st_mode))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    s[rel] = ("file", f.read(), stat.S_IMODE(st.st_mode))
            else:
                s[rel] = ("other",)
    return s


def put(path, data, mode=0o644):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    os.chmod(path, mode)


def build_world(cli, w, root, bulk=0):
    """Returns (argv, artifact path relative to root, output directories that may be made, source)."""
    src = SRC.get(w["inp"], GOOD)
    if bulk:
        src = src.rstrip() + "\n" + "\n".join("table bulk%d { id int primary, name text notnull }" % i for i in range(bulk)) + "\n"
    inp = os.path.join(root, "in", "a.kf")
    os.makedirs(os.path.join(root, "in"))
    if w["inp"] == "dir":
        os.makedirs(inp)
    elif w["inp"] != "missing":
        put(inp, src.encode(), 0 if w["inp"] == "unreadable" else 0o644)
    put(os.path.join(root, "in", "b.kf"), SRC["short"].encode())
    put(os.path.join(root, "other.json"), b"do not touch")
    out, flags = "out", ["-o", "out"]
    if w["dir"] == "deep":
        out = "out/x/y"
        flags = ["--output", out]
    elif w["dir"] == "underfile":
        put(os.path.join(root, "f"), b"a file")
        out = "f/out"
        flags = ["-o", out]
    elif w["dir"].startswith("default"):
        out, flags = "build", []
    if w["dir"] == "file":
        put(os.path.join(root, "out"), b"a file")
    if w["dir"] in ("there", "readonly", "default there"):
        os.makedirs(os.path.join(root, out))
        put(os.path.join(root, out, "other.json"), b"do not touch this either")
        put(os.path.join(root, out, "a.kf"), b"nor this")
    art = os.path.join(root, out, "a.json")
    want = cli.artifact(src)[0] or cli.artifact(GOOD)[0]
    old = w["old"]
    data = {"same": want, "longer": want + b"\n" + want[:len(want) // 2] + b"tail of an older artifact", "shorter": b'{"old":1}', "empty": b"",
            "partial": want[:len(want) // 2], "garbage": b"\0" * len(want), "readonly": b"older"}.get(old)
    if data is not None:
        put(art, data, 0o444 if old == "readonly" else 0o644)
    elif old == "dir":
        os.makedirs(art)
        put(os.path.join(art, "x"), b"inside")
    elif old == "full":
        os.symlink("/dev/full", art)
    if cli.nobody:
        for d, ds, fs in os.walk(root):
            for n in ds + fs:
                os.lchown(os.path.join(d, n), NOBODY, NOBODY)
        os.lchown(root, NOBODY, NOBODY)
    if w["dir"] == "readonly":
        os.chmod(os.path.join(root, out), 0o555)
    args = {"one": ["in/a.kf"], "none": [], "two": ["in/a.kf", "in/b.kf"], "bad flag": ["--nope", "in/a.kf"], "no value": ["in/a.kf", "-o"],
            "version": ["-v", "in/a.kf"], "bad value": ["--trace=maybe", "in/a.kf"]}[w["args"]]
    argv = args + flags if w["args"] != "no value" else flags + args
    made = set()
    p = out
    while p:
        made.add(p)
        p = os.path.dirname(p)
    return argv, os.path.join(out, "a.json"), made, src


def full(path, want):
    try:
        if not stat.S_ISREG(os.stat(path).st_mode):
            return False
        with open(path, "rb") as f:
            return f.read() == want
    except OSError:
        return False


def changes(before, after, ignore):
    d = []
    for k in sorted(set(before) | set(after)):
        if before.get(k) != after.get(k) and k not in ignore:
            d.append("%s: %s -> %s" % (k, short(before.get(k)), short(after.get(k))))
    return d


def short(x):
    if x is None:
        return "absent"
    return str(x)[:120]


def judge_world(cli, w, allowed, compiles, root, argv, art, made, src, before, rc, out, err, injected=None, fcode=0):
    """[(property, what is wrong)]"""
    bad = []
    after = snapshot(root)
    want = cli.artifact(src)[0]
    told = (out + err).decode("utf-8", "replace")
    what = "kuneiform %s in world %s" % (" ".join(argv), json.dumps(w, sort_keys=True))
    if injected:
        what += " with %s" % injected
    if rc is None:
        return [("C23", what + ": does not end")]
    codes = set(allowed) if not injected else {fcode}
    if rc not in codes:
        prop = "C22" if rc != 0 and codes == {0} else "C23"
        bad.append((prop, "%s: exit status %s, expected %s (%s)" % (what, rc, sorted(codes), told.strip()[:300])))
        if rc != 0 or codes == {0}:
            return bad
    if rc == 0 and compiles and want is not None:
        if not full(os.path.join(root, art), want):
            got = after.get(art)
            bad.append(("C22", "%s: exit status 0, but the artifact is %s, expected the JSON of the schema (%d bytes)" % (
                what, "absent" if got is None else "%d bytes: %s" % (len(got[1]), short(got[1][-200:])) if got[0] == "file" else short(got), len(want))))
        d = changes(before, after, {art} | (made - set(before)))
        if d:
            bad.append(("C22", "%s: also changed %s" % (what, "; ".join(d))))
    if rc != 0:
        if "success" in told.lower():
            bad.append(("C23", "%s: exit status %s, yet it says: %s" % (what, rc, told.strip()[:200])))
        if not told.strip():
            bad.append(("C23", "%s: failed with status %s, but printed nothing" % (what, rc)))
        ignore = made - set(before)
        if rc == 7 and fcode == 7 and injected and "open" not in injected or rc == 7 and not injected:
            ignore = ignore | {art}
        d = changes(before, after, ignore)
        if d:
            bad.append(("C23", "%s: failed with status %s, but changed %s" % (what, rc, "; ".join(d))))
    return bad


def usable(cli, w):
    if cli.nobody:
        return True
    return w["dir"] != "readonly" and w["inp"] != "unreadable" and w["old"] != "readonly"


def in_world(ctx, f):
    root = tempfile.mkdtemp(prefix="w", dir=os.path.join(ctx.work, "cli"))
    try:
        return f(root)
    finally:
        for d, ds, _ in os.walk(root):
            for n in ds:
                if not os.path.islink(os.path.join(d, n)):
                    os.chmod(os.path.join(d, n), 0o755)
        shutil.rmtree(root, ignore_errors=True)


def world_case(ctx, cli, v):
    def go(root):
        argv, art, made, src = build_world(cli, v["w"], root)
        before = snapshot(root)
        rc, out, err = cli.run(root, argv, NOBODY if cli.nobody else None)
        return judge_world(cli, v["w"], v["allowed"], v["compiles"], root, argv, art, made, src, before, rc, out, err)
    return in_world(ctx, go)


CALLS = {"mkdir": "mkdir,mkdirat", "open input": "open,openat", "read": "read,pread64", "open": "open,openat,creat", "write": "write,pwrite64", "close": "close"}
ERRNO = {"mkdir": "EACCES", "open input": "EACCES", "read": "EIO", "open": "EACCES", "write": "ENOSPC", "close": "EIO"}


def fault_case(ctx, cli, v):
    point, how = v["fault"]

    def go(root):
        bad = []
        argv, art, made, src = build_world(cli, v["w"], root)
        argv = [os.path.join(root, x) if x in ("in/a.kf", "out") else x for x in argv]
        path = {"mkdir": os.path.join(root, "out"), "open input": os.path.join(root, "in/a.kf"), "read": os.path.join(root, "in/a.kf")}.get(
            point, os.path.join(root, art))
        log = tempfile.NamedTemporaryFile(dir=ctx.work, delete=False)
        inj = "inject=%s:%s:when=1" % (CALLS[point], "signal=KILL" if how == "kill" else "error=" + ERRNO[point])
        before = snapshot(root)
        rc, out, err = cli.run(root, argv, None, ["strace", "-f", "-o", log.name, "-P", path, "-e", "trace=" + CALLS[point], "-e", inj])
        text = open(log.name, errors="replace").read()
        os.unlink(log.name)
        hit = "INJECTED" in text if how == "error" else rc in (-9, 137)
        if how == "error":
            bad += judge_world(cli, v["w"], v["allowed"], True, root, argv, art, made, src, before, rc, out, err,
                               ("%s failing with %s" % (point, ERRNO[point])) if hit else None, v["fcode"] if hit else 0)
        elif hit:
            # nothing but the artifact and its directory may have changed, and nothing before it is opened
            ignore = made - set(before)
            if point in ("write", "close"):
                ignore = ignore | {art}
            d = [x for x in changes(before, snapshot(root), ignore) if ".json" not in x or x.startswith(("out/other.json", "other.json", art))]
            if d:
                bad.append(("C23", "killed at %s: changed %s" % (point, "; ".join(d))))
        states = [None]
        p = os.path.join(root, art)
        if how == "kill" and hit and os.path.isfile(p) and os.path.getsize(p) > 2:
            states.append(os.path.getsize(p) // 2)
        for cut in states:
            if cut:
                os.truncate(p, cut)
            before = snapshot(root)
            rc, out, err = cli.run(root, argv, None)
            w2 = dict(v["w"], after="%s %s%s" % (point, how, " leaving %d bytes" % cut if cut else ""))
            # the remains of an interrupted run may be tidied away
            bad += [b for b in judge_world(cli, w2, [0], True, root, argv, art, made, src, before, rc, out, err)]
        return bad, hit
    return in_world(ctx, go)


def limit_case(ctx, cli, v):
    """A run that may write files of a limited size only, and a run without the limit on the remains."""
    def go(bulk, part, root):
        argv, art, made, src = build_world(cli, v["w"], root, bulk)
        want = cli.artifact(src)[0]
        n = len(want or b"")
        bad = []
        some = {"half": n // 2, "but one": n - 1, "one": 1, "one page": 4096, "last page": (n - 1) // 4096 * 4096, "last block": (n - 1) // 512 * 512}[part]
        room = {"0": 0, "1": min(max(some, 1), max(n - 1, 0)), "2": n, "3": n + 4096}[v["fault"][1]]
        for wrap, codes in ((["prlimit", "--fsize=%d" % room], [v["fcode"]]), ([], v["allowed"])):
            before = snapshot(root)
            rc, out, err = cli.run(root, argv, None, wrap)
            w = dict(v["w"], **({"files of at most": "%d of %d bytes" % (room, n)} if wrap else {"after": "a run that might write %d bytes" % room}))
            bad += judge_world(cli, w, codes, True, root, argv, art, made, src, before, rc, out, err)
        return bad
    bad = []
    good = v["w"]["inp"] == "good"
    for bulk in v["bulks"] if good else [0]:
        for part in v["parts"] if good else ["half"]:
            bad += in_world(ctx, partial(go, bulk, part))
    return bad


def together_case(ctx, cli, v):
    """Several runs at the same time; strace holds some of them up at a system call."""
    srcs = {"a": SRC["long"], "b": SRC["short"], "c": GOOD}

    def go(root):
        want = {x: cli.artifact(srcs[x])[0] for x in srcs}
        for x in srcs:
            put(os.path.join(root, x + ".kf"), srcs[x].encode())
            if v["old"] == "older":
                put(os.path.join(root, "out", x + ".json"), b'{"older": "artifact of %s"}' % x.encode() * 40)
        if v["old"] == "empty":
            os.makedirs(os.path.join(root, "out"))
        before = snapshot(root)
        res = [None] * len(v["ins"])

        def one_run(i):
            x, at = v["ins"][i], v["hold"][i]
            wrap = []
            if at:
                path = os.path.join(root, {"mkdir": "out", "open input": x + ".kf"}.get(at, "out/%s.json" % x))
                wrap = ["strace", "-f", "-o", "/dev/null", "-P", path, "-e", "trace=" + CALLS[at], "-e", "inject=%s:delay_enter=%d:when=1" % (CALLS[at], 60000 + 25000 * i)]
            res[i] = cli.run(root, [os.path.join(root, x + ".kf"), "-o", os.path.join(root, "out")], None, wrap)
        ts = [threading.Thread(target=one_run, args=(i,)) for i in range(len(res))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        after = snapshot(root)
        what = "runs at the same time for %s into one directory (%s), held up at %s" % (v["ins"], v["old"], v["hold"])
        alone = len(set(v["ins"])) == len(v["ins"])
        bad = []
        for (rc, out, err), x in zip(res, v["ins"]):
            if rc != 0 and alone:
                bad.append(("C22", "%s: the run for %s exits with %s: %s" % (what, x, rc, (out + err)[:200].decode("utf-8", "replace"))))
        if all(r[0] == 0 for r in res):
            for x in sorted(set(v["ins"])):
                if not full(os.path.join(root, "out", x + ".json"), want[x]):
                    bad.append(("C22", "%s: all exit with 0, but the artifact of %s is %s" % (what, x, short(after.get("out/%s.json" % x)))))
            d = changes(before, after, {"out"} | {"out/%s.json" % x for x in v["ins"]})
            if d:
                bad.append(("C22", "%s: also changed %s" % (what, "; ".join(d))))
        return bad
    return in_world(ctx, go)


def name_case(ctx, cli, c, sources=("good",)):
    bad = []
    for s in sources:
        src = SRC.get(s, s)

        def go(root):
            for d in ("sub", "sub.d", "out"):
                if c["file"] != d and not c["file"].startswith(d + "/") and d != "out":
                    os.makedirs(os.path.join(root, d), exist_ok=True)
            parts = os.path.normpath(c["file"]).split("/")
            outp = os.path.normpath(c["out"])
            if c["file"] == outp or outp.startswith(os.path.normpath(c["file"]) + "/"):
                return []          # the input is in the way of its own output directory
            put(os.path.join(root, c["file"]), src.encode())
            argv = list(c["argv"])
            before = snapshot(root)
            rc, out, err = cli.run(root, argv, None)
            want, emsg = cli.artifact(src)
            made = set()
            p = os.path.dirname(outp)
            while p:
                made.add(p)
                p = os.path.dirname(p)
            if any("out/.." in x for x in c["argv"]):
                made.add("out")     # passed through on the way to the output directory
            w = {"name": c["file"], "source": s}
            res = judge_world(cli, w, [0 if want is not None else 5], want is not None, root, argv, outp, made, src, before, rc, out, err)
            if c["traced"] or any("trace" in x or x.startswith("-t") for x in argv):
                res = [("C24", m) for _, m in res]
            told = (out + err).decode("utf-8", "replace")
            if want is not None and rc == 0 or want is None and rc == 5:
                plain = 1 + emsg.count("\n") if want is None else 1
                lines = len(told.rstrip("\n").split("\n"))
                if c["traced"] and lines <= plain:
                    res.append(("C24", "kuneiform %s: no trace is printed: %s" % (" ".join(argv), told[:200])))
                if not c["traced"] and lines > plain:
                    res.append(("C24", "kuneiform %s: prints more than its result without a trace flag: %s" % (" ".join(argv), told[:300])))
            return res
        bad += in_world(ctx, go)
    return bad


def held(c, rng):
    """The bytes of an input of KfCli's sources."""
    k, n = c["kind"], c["size"]
    g = GOOD
    if k == "random":
        return c["src"].encode("utf-8", "surrogatepass")
    simple = {"good": g, "crlf": g.replace("\n", "\r\n"), "cr": g.replace("\n", "\r"), "bom": "\ufeff" + g, "bom inside": g.replace("table", "\ufefftable", 1),
              "wide": g.replace("q<&>", "\u00e9\u65e5\U0001f600\u2028"), "nul": g + "\0", "sub": g + "\x1a", "no newline": g.rstrip("\n"), "many newlines": "\n\n" + g + "\n" * 9,
              "crlf in sql": g.replace("select 1", "select 1,\r\n  2"), "cr in sql": g.replace("select 1", "select 1,\r 2"), "tail comment": g + "// the end",
              "blank head": " \t" + g, "form feed": g.replace("table", "\x0ctable", 1), "bad at end": g + " }", "only blanks": " \n\t", "shebang": "#!/usr/bin/kuneiform\n" + g}
    if k in simple:
        return simple[k].encode()
    if k == "latin1":
        return g.replace("q<&>", "caf\u00e9").encode("latin-1")
    if k == "utf16":
        return g.encode("utf-16")
    if k == "broken utf8":
        return g.encode().replace(b"q<&>", b"\xed\xa0\x80\xff\xc3")
    tail = "table zz { last int primary, nm text default('the end') }"
    if k == "comment lines":
        body, unit = "", "// filler\n"
    elif k == "one comment":
        return (g + "/* " + "c" * n + " */" + tail).encode()
    elif k == "blanks":
        return (g + " " * n + tail).encode()
    elif k == "literal":
        return (g + "table ll { a text default('" + "v" * n + "') }" + tail).encode()
    elif k == "sql literal":
        return (g + "action ll() { select '" + "v" * n + "'; }" + tail).encode()
    elif k == "columns":
        return (g + "table ll { " + ", ".join("col%d int" % i for i in range(n // 12 + 1)) + " }" + tail).encode()
    elif k == "statements":
        return (g + "action ll() { " + "select 1; " * (n // 30 + 1) + "}" + tail).encode()
    return (g + body + unit * (n // len(unit) + 1) + tail).encode()


def source_case(ctx, cli, c):
    import base64
    import random

    def go(root):
        data = held(c, random.Random(1))
        with cli.lock:
            if data not in cli.json:
                r = cli.a.ask({"op": "parse", "raw": base64.b64encode(data).decode()}, timeout=120)
                cli.json[data] = None if r.get("panic") or r.get("hang") else (r["json"].encode() if r["ok"] and r.get("json") else None, (r.get("err") or {}).get("msg", ""))
            if cli.json[data] is None:
                return []
            want = cli.json[data][0]
        put(os.path.join(root, "a.kf"), data)
        art = os.path.join(root, "out", "a.json")
        os.makedirs(os.path.join(root, "out"))
        w = want or cli.artifact(GOOD)[0]
        m = len(w) // 2
        old = {"longer": w + b"tail of an older one", "plus one": w + b"}", "minus one": w[:-1], "newline": w + b"\n", "upper": w.upper(),
               "pretty": json.dumps(json.loads(w), indent=2, ensure_ascii=False).encode(), "same but one": w[:m] + bytes([w[m] ^ 1]) + w[m + 1:],
               "future": b"older", "past": b"older", "linked": b"older"}.get(c["old"])
        if old is not None:
            put(art, old)
        if c["old"] == "future":
            os.utime(art, (4e9, 4e9))
        if c["old"] == "past":
            os.utime(art, (1, 1))
            os.utime(os.path.join(root, "a.kf"), (0, 0))
        if c["old"] == "linked":       # the input reached by another name
            os.rename(os.path.join(root, "a.kf"), os.path.join(root, "real.kf"))
            os.symlink("real.kf", os.path.join(root, "a.kf"))
        before = snapshot(root)
        rc, out, err = cli.run(root, ["-o", "out", "a.kf"], None)
        cc = dict(c, bytes=len(data))
        cc.pop("src", None)
        return judge_bytes(cli, cc, want, root, before, rc, out, err)
    return in_world(ctx, go)


def judge_bytes(cli, c, want, root, before, rc, out, err):
    bad, after = [], snapshot(root)
    told = (out + err).decode("utf-8", "replace")
    what = "an input with %s" % json.dumps(c, sort_keys=True)
    if rc != (5 if want is None else 0):
        return [("C23" if want is None else "C22", "%s: exit status %s, expected %d (%s)" % (what, rc, 5 if want is None else 0, told.strip()[:300]))]
    if want is not None and not full(os.path.join(root, "out", "a.json"), want):
        got = after.get("out/a.json")
        bad.append(("C22", "%s: exit status 0, but the artifact is %s, expected the JSON of the schema (%d bytes)" % (
            what, "absent" if got is None else "%d bytes: %s" % (len(got[1]), short(got[1][-100:])), len(want))))
    d = changes(before, after, {"out/a.json"} if want is not None else set())
    if d:
        bad.append(("C22" if want is not None else "C23", "%s: changed %s" % (what, "; ".join(d))))
    if want is None and not told.strip():
        bad.append(("C23", "%s: failed with status %s, but printed nothing" % (what, rc)))
    if want is None and "success" in told.lower():
        bad.append(("C23", "%s: exit status %s, yet it says: %s" % (what, rc, told.strip()[:200])))
    return bad


def runs_case(ctx, cli, q):
    def go(root):
        bad = []
        for k, r in enumerate(q):
            put(os.path.join(root, r["file"] + ".kf"), SRC[r["holds"]].encode())
            rc, out, err = cli.run(root, ["-o", "out", r["file"] + ".kf"], None)
            what = "run %d of %s" % (k + 1, [(x["file"], x["holds"]) for x in q])
            if rc != r["code"]:
                bad.append(("C22" if r["code"] == 0 else "C23", "%s: exit status %s, expected %d: %s" % (what, rc, r["code"], err[:200])))
            snap = snapshot(root)
            for name, holds in r["arts"].items():
                p = "out/%s.json" % name
                want = cli.artifact(SRC[holds])[0] if holds else None
                got = snap.get(p)
                if (got is None) != (want is None) or got is not None and got[1] != want:
                    bad.append(("C22" if r["code"] == 0 else "C23", "%s: %s is %s, expected the artifact of %s" % (
                        what, p, short(got and got[1][-150:]), holds or "nothing")))
            extra = set(snap) - {"out", "a.kf", "b.kf", "out/a.json", "out/b.json"}
            if extra:
                bad.append(("C22", "%s: left %s" % (what, sorted(extra))))
        return bad
    return in_world(ctx, go)


def cases(ctx, family):
    lines = ctx.tlc("KfCli", dict(Family=family), "CSpec", ["Artifact", "Codes", "NoDamage", "SaysSo", "GivesReason", "Recovers", "Fits", "CEmit", "EmitCases"])
    out = {}
    for x in lines:
        if x.startswith('"{'):
            v = json.loads(json.loads(x))
            out[json.dumps(v, sort_keys=True)] = v
    return [out[k] for k in sorted(out)]


def pooled(jobs, f):
    """f(job) for all jobs, on several threads; results in order."""
    res = [None] * len(jobs)
    errs = []

    def work(k):
        for i in range(k, len(jobs), CORES):
            try:
                res[i] = f(jobs[i])
            except Exception as e:     # noqa
                errs.append(e)
                return
    ts = [threading.Thread(target=work, args=(k,)) for k in range(CORES)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return res


def one(ctx, cli, fam, v):
    if fam == "world":
        return world_case(ctx, cli, v)
    if fam == "faults":
        return fault_case(ctx, cli, v)[0]
    if fam == "limits":
        return limit_case(ctx, cli, v)
    if fam == "together":
        return together_case(ctx, cli, v)
    if fam == "runs":
        return runs_case(ctx, cli, v["runs"])
    if fam == "twice":
        return twice_case(ctx, cli, v)
    if fam == "sources":
        return source_case(ctx, cli, v["holds"])
    return name_case(ctx, cli, v["name"], v.get("sources", ("good",)))


def report(ctx, cli, fam, jobs, res):
    for v, bad in zip(jobs, res):
        for prop, m in bad or []:
            if prop == ctx.prop:
                again = [x for x in one(ctx, cli, fam, v) if x[0] == prop]
                if again:
                    ctx.violation(again[0][1], kind="cli", family=fam, case=v)
                    break
                ctx.note("not_reproduced")


def check(ctx, prop):
    cli = Cli(ctx)
    fams = {"C22": ["world", "faults", "limits", "names", "sources", "runs", "together"], "C23": ["world", "faults", "limits", "sources", "runs"]}[prop]
    for fam in fams:
        jobs = cases(ctx, fam)
        if fam == "world":
            jobs = [v for v in jobs if usable(cli, v["w"])]
            res = pooled(jobs, lambda v: world_case(ctx, cli, v))
        elif fam == "faults":
            jobs = [v for v in jobs if v["fault"][0]] if cli.strace else []
            rr = pooled(jobs, lambda v: fault_case(ctx, cli, v))
            ctx.note("faults_injected", sum(1 for _, h in rr if h))
            res = [b for b, _ in rr]
        elif fam == "limits":
            jobs = [v for v in jobs if usable(cli, v["w"])] if cli.prlimit else []
            res = pooled(jobs, lambda v: limit_case(ctx, cli, v))
        elif fam == "together":
            lines = ctx.tlc("KfTogether", dict(Deep=ctx.deep), "TSpec", ["Own", "End", "Others", "TEmit"], properties=["Finish"])
            jobs = [json.loads(json.loads(x)) for x in sorted(set(lines)) if x.startswith('"{')]
            jobs = [v for v in jobs if cli.strace or not any(v["hold"])]
            res = pooled(jobs, lambda v: together_case(ctx, cli, v))
        elif fam == "sources":
            jobs = [v for v in jobs if "holds" in v]
            docs = gen.sources(ctx.seed + 41, 600 if ctx.deep else 60, 0.4, 1.5)
            docs += guide.sources(ctx, ["", "C01", "C02", "C03", "C04", "C05", "C06"], 1500 if ctx.deep else 150, faulty=0.4, do=("parse", "json"), spoil=0.2, big=1.5, chars=200000)
            jobs += [{"holds": dict(kind="random", size=0, old=("none", "longer", "same but one")[i % 3], src=s)} for i, s in enumerate(docs + gen.spoil(docs, ctx.seed))]
            jobs.sort(key=lambda v: -v["holds"]["size"])
            res = pooled(jobs, lambda v: source_case(ctx, cli, v["holds"]))
        elif fam == "runs":
            jobs = [v for v in jobs if "runs" in v]
            res = pooled(jobs, lambda v: runs_case(ctx, cli, v["runs"]))
        else:
            jobs = [v for v in jobs if "name" in v]
            res = pooled(jobs, lambda v: name_case(ctx, cli, v["name"]))
        ctx.traces += len(jobs)
        ctx.note("runs_" + fam, len(jobs))
        if jobs:
            ctx.sample({"family": fam, "case": jobs[ctx.seed % len(jobs)]})
        report(ctx, cli, fam, jobs, res)
        ctx.log("family %s: %d" % (fam, len(jobs)))


def check_flags(ctx, cli):
    """The command-line half of C24."""
    jobs = [v for v in cases(ctx, "flags") if "name" in v]
    for v in jobs:
        v["sources"] = ("good", "short", "syntax", "semantic", "bad")
    res = pooled(jobs, lambda v: name_case(ctx, cli, v["name"], v["sources"]))
    ctx.traces += len(jobs) * 5
    ctx.note("runs_flags", len(jobs) * 5)
    report(ctx, cli, "flags", jobs, res)


    # every world and every run of a history with and without the flag
    ws = [v for v in cases(ctx, "world") if usable(cli, v["w"]) and v["w"]["args"] not in ("bad flag", "bad value", "no value")]
    qs = [v for v in cases(ctx, "runs") if "runs" in v]
    docs = gen.sources(ctx.seed + 43, 200 if ctx.deep else 30, 0.4, 1.5)
    jobs = [dict(w=v["w"], flag=TRACING[i % len(TRACING)], last=i % 2 == 0) for i, v in enumerate(ws)]
    jobs += [dict(runs=[[r["file"], SRC[r["holds"]]] for r in v["runs"]], flag=TRACING[i % len(TRACING)], last=i % 2 == 0) for i, v in enumerate(qs)]
    jobs += [dict(runs=[["a", x], ["b", docs[(i * 7) % len(docs)]], ["a", docs[(i * 3) % len(docs)]]], flag="-t", last=False) for i, x in enumerate(docs)]
    res = pooled(jobs, lambda v: twice_case(ctx, cli, v))
    ctx.traces += len(jobs)
    ctx.note("runs_with_and_without", len(jobs))
    report(ctx, cli, "twice", jobs, res)


TRACING = ["-t", "--trace", "--trace=true", "-t=true", "--trace=T", "--trace=1"]


def twice_case(ctx, cli, v):
    """The same runs without tracing and with it: same statuses, same files."""
    def once(flag):
        def go(root):
            got = []
            if "w" in v:
                argv, art, made, src = build_world(cli, v["w"], root)
                todo = [(None, argv)]
            else:
                todo = [((f + ".kf", x), ["-o", "out", f + ".kf"]) for f, x in v["runs"]]
            for file, argv in todo:
                if file:
                    put(os.path.join(root, file[0]), file[1].encode("utf-8", "surrogatepass"))
                if flag:
                    argv = argv + [flag] if v["last"] else [flag] + argv
                rc, out, err = cli.run(root, argv, NOBODY if cli.nobody and "w" in v else None)
                got.append((rc, snapshot(root), len(out + err)))
            return got
        return in_world(ctx, go)
    a, b = once(None), once(v["flag"])
    bad = []
    for k, (x, y) in enumerate(zip(a, b)):
        what = "run %d of %s" % (k + 1, json.dumps({i: v[i] for i in v if i != "kind"}, ensure_ascii=False)[:1500])
        if x[0] != y[0]:
            bad.append(("C24", "%s: exit status %s without the trace flag, %s with %s" % (what, x[0], y[0], v["flag"])))
        d = changes(x[1], y[1], set())
        if d:
            bad.append(("C24", "%s: without and with %s the files differ: %s" % (what, v["flag"], "; ".join(d)[:500])))
        if x[0] == y[0] == 0 and y[2] <= x[2] and not ("w" in v and v["w"]["args"] == "version"):
            bad.append(("C24", "%s: %s prints no more than its absence" % (what, v["flag"])))
        if bad:
            break
    return bad


def replay(ctx, prop, items):
    cli = Cli(ctx)
    for c in items:
        if c.get("kind") == "cli":
            bad = [x for x in one(ctx, cli, c["family"], c["case"]) if x[0] == prop]
            ctx.traces += 1
            if bad:
                ctx.violation(bad[0][1], kind="cli", family=c["family"], case=c["case"])
